// P26: gdxmerge combines files without loss or mixing.
// Every tuple of input files and option combination within the bounds is written with the library and merged by the
// tool; the merged file and the messages must be those of an independent merge of the contents.
#include "toolh.hpp"
#include <sys/stat.h>
#include <utime.h>
using namespace th;

static string low( string s )
{
   for( auto &ch: s ) ch = (char) tolower( (unsigned char) ch );
   return s;
}
struct In
{
   string path;// relative
   TFile f;
   string id() const
   {
      size_t p = path.rfind( '/' );
      string s = p == string::npos ? path : path.substr( p + 1 );
      p = s.rfind( '.' );
      return p == string::npos ? s : s.substr( 0, p );
   }
};
struct MOpt
{
   bool hasId {}, hasEx {};
   vector<string> ids, ex;
};
struct MSym
{
   string text;
   int type {}, dim {}, user {};
   std::map<vector<string>, string> recs;
};
static string vstr( double d, const vector<std::pair<string, string>> &acr )
{
   if( d >= 1e301 )
   {
      size_t i = (size_t) std::lround( d / 1e301 );
      return "acr:" + ( i >= 1 && i <= acr.size() ? low( acr[i - 1].first ) : fmt( "#%zu", i ) );
   }
   return fmt( "%a", d + 0.0 );
}
static string show( const string &n, const MSym &d )
{
   string s = fmt( "%s type %d dim %d user %d text <%s>\n", n.c_str(), d.type, d.dim, d.user, d.text.c_str() );
   for( auto &r: d.recs )
   {
      for( auto &k: r.first ) s += k + ".";
      s += " = " + r.second + "\n";
   }
   return s;
}
struct Expect
{
   std::map<string, MSym> syms;
   std::map<string, std::set<string>> errors;// message -> names
};
static Expect merge( const vector<In> &in, const vector<string> &ids, const MOpt &o )
{
   Expect e;
   auto has = []( const vector<string> &v, const string &s ) { return std::any_of( v.begin(), v.end(), [&]( const string &x ) { return low( x ) == low( s ); } ); };
   size_t fi = 0;
   for( auto &f: in )
   {
      string id = low( ids[fi++] );
      for( auto &y0: f.f.syms )
      {
         if( ( o.hasId && !has( o.ids, y0.name ) ) || ( o.hasEx && has( o.ex, y0.name ) ) ) continue;
         TSym y = y0;
         string n = low( y.name );
         if( y.type == T_ALIAS )
         {
            if( y.aliasOf )
            {
               y = f.f.syms[(size_t) y0.aliasOf - 1];
               y.text = "Aliased with " + y.name;
            }
            else
            {
               y.dim = 1;
               y.text = "Aliased with *";
               for( auto &u: f.f.uels ) y.recs.push_back( { { u }, {}, "" } );
            }
            y.type = T_SET;
            y.user = 0;
         }
         if( y.dim >= 20 )
         {
            e.errors["Dimension too large"].insert( n );
            continue;
         }
         auto it = e.syms.find( n );
         if( it == e.syms.end() )
         {
            it = e.syms.insert( { n, {} } ).first;
            it->second.type = y.type, it->second.dim = y.dim + 1, it->second.user = y.user;
         }
         MSym &m = it->second;
         if( m.dim != y.dim + 1 )
         {
            e.errors["Dimensions do not match"].insert( n );
            continue;
         }
         if( m.type != y.type )
         {
            e.errors["Types do not match"].insert( n );
            continue;
         }
         if( ( y.type == T_VAR || y.type == T_EQU ) && m.user != y.user )
         {
            e.errors["Var/Equ subtypes do not match"].insert( n );
            continue;
         }
         if( m.text.empty() ) m.text = y.text;
         else if( !y.text.empty() && m.text != y.text )
            e.errors["Explanatory text is different"].insert( n );
         if( !y.dim && y.recs.empty() && y.type != T_SET )
         {
            TRec r;
            if( y.type == T_VAR ) r.v = defVar( y.user );
            if( y.type == T_EQU ) r.v = defEqu( y.user );
            y.recs.push_back( r );
         }
         for( auto &r: y.recs )
         {
            vector<string> k { id };
            for( auto &x: r.k ) k.push_back( low( x ) );
            string s = r.txt;
            if( y.type != T_SET )
            {
               s.clear();
               for( int i = 0; i < nvals( y.type ); i++ ) s += ( i ? " " : "" ) + vstr( r.v[(size_t) i], f.f.acr );
            }
            m.recs[k] = s;
         }
      }
   }
   return e;
}
static std::map<string, MSym> readMerged( Ctx &c, const string &fn, string &setName, std::map<string, string> &acrTexts )
{
   std::map<string, MSym> m;
   CK( access( fn.c_str(), R_OK ) == 0, "no-output", "merged file not written" );
   FileC f = dumpFile( fn );
   CK( f.err == 0 && f.problems.empty(), "bad-output", "merged file unreadable: %d %s", f.err, f.problems.empty() ? "" : f.problems[0].c_str() );
   for( auto &u: f.uels ) CK( !u.empty(), "bad-output", "the merged file has an empty label" );
   vector<std::pair<string, string>> acr;
   for( auto &a: f.acr )
   {
      if( (int) acr.size() < a.idx ) acr.resize( (size_t) a.idx );
      if( a.idx > 0 )
      {
         CK( acr[(size_t) a.idx - 1].first.empty(), "acronyms", "acronyms %s and %s have the same value", acr[(size_t) a.idx - 1].first.c_str(), a.name.c_str() );
         acr[(size_t) a.idx - 1].first = a.name;
      }
      CK( !acrTexts.count( low( a.name ) ), "acronyms", "acronym %s twice", a.name.c_str() );
      acrTexts[low( a.name )] = a.text;
   }
   for( auto &y: f.syms )
   {
      CK( y.problems.empty(), "bad-output", "symbol %s of the merged file: %s", y.name.c_str(), y.problems.empty() ? "" : y.problems[0].c_str() );
      MSym d;
      d.text = y.text, d.type = y.type, d.dim = y.dim, d.user = y.type == T_PAR ? 0 : y.user;
      for( auto &r: y.recs )
      {
         vector<string> k;
         for( auto i: r.k ) k.push_back( i >= 1 && i <= (int) f.uels.size() ? low( f.uels[(size_t) i - 1] ) : fmt( "?%d", i ) );
         string s = r.txt;
         if( y.type != T_SET )
         {
            s.clear();
            for( int i = 0; i < nvals( y.type ); i++ ) s += ( i ? " " : "" ) + vstr( r.v[(size_t) i], acr );
         }
         CK( !d.recs.count( k ), "bad-output", "record twice in %s", y.name.c_str() );
         d.recs[k] = s;
      }
      CK( !m.count( low( y.name ) ), "bad-output", "symbol %s twice", y.name.c_str() );
      m[low( y.name )] = d;
      setName = y.name;
   }
   return m;
}

// texts with both kinds of quotes are stored with the first kind
static string unify( string t )
{
   char q = 0;
   for( auto &ch: t )
      if( ch == '\'' || ch == '"' )
      {
         if( q ) ch = q;
         q = ch;
      }
   return t;
}
static bool hasLine( const string &out, const string &line ) { return out.find( "\n" + line + "\n" ) != string::npos; }

// ids: the expected identifiers of the files
static void run( Ctx &c, const vector<In> &in, const vector<string> &ids, const MOpt &o, vector<string> args, const vector<string> &opts )
{
   vector<string> content;
   for( auto &f: in )
   {
      writeFile( c, c.dir + "/" + f.path, f.f );
      struct utimbuf t { 1700000000, 1700000000 };
      utime( ( c.dir + "/" + f.path ).c_str(), &t );
      content.push_back( readBytes( c.dir + "/" + f.path ) );
   }
   unlink( c.path( "merged.gdx" ).c_str() );
   if( args.empty() )
      for( auto &f: in ) args.push_back( f.path );
   args.insert( args.end(), opts.begin(), opts.end() );
   Run r = runTool( c, "gdxmerge", args );
   CK( r.rc == 0, "exit-code", "exit code %d: %s", r.rc, r.out.c_str() );
   size_t fi = 0;
   for( auto &f: in ) CK( content[fi++] == readBytes( c.dir + "/" + f.path ), "input-changed", "%s was modified", f.path.c_str() );
   Expect e = merge( in, ids, o );
   string setName;
   std::map<string, string> at;
   auto m = readMerged( c, c.path( "merged.gdx" ), setName, at );
   CK( setName.compare( 0, 11, "Merged_set_" ) == 0, "merged-set", "last symbol is %s", setName.c_str() );
   auto ms = m[low( setName )];
   m.erase( low( setName ) );
   std::set<string> want, have;
   for( size_t i = 0; i < in.size(); i++ ) want.insert( low( ids[i] ) + " " + "  " + unify( in[i].path ) );
   for( auto &k: ms.recs )
   {
      // date, two blanks, name
      CK( k.second.size() > 21, "merged-set", "text <%s>", k.second.c_str() );
      have.insert( k.first[0] + " " + k.second.substr( 19 ) );
      time_t t = 1700000000;
      char b[64];
      strftime( b, sizeof b, "%Y/%m/%d %H:%M:%S", localtime( &t ) );
      CK( k.second.substr( 0, 19 ) == b, "merged-set", "date <%s> instead of %s", k.second.c_str(), b );
   }
   CK( ms.type == T_SET && ms.dim == 1 && want == have, "merged-set", "wrong list of files:\n%s", show( setName, ms ).c_str() );
   for( auto &s: e.syms )
   {
      auto it = m.find( s.first );
      CK( it != m.end(), "missing", "symbol %s is not in the merged file", s.first.c_str() );
      string w = show( s.first, s.second ), h = show( s.first, it->second );
      CK( w == h, "content", "expected %sgot %s", w.c_str(), h.c_str() );
   }
   for( auto &g: m ) CK( e.syms.count( g.first ), "spurious", "symbol %s should not be in the merged file", g.first.c_str() );
   std::map<string, std::set<string>> named;
   for( auto &f: in )
      for( auto &a: f.f.acr ) named[low( a.first )].insert( a.second );
   for( auto &a: at ) CK( named.count( a.first ) && named[a.first].count( a.second ), "acronyms", "acronym %s (%s) is not in any input", a.first.c_str(), a.second.c_str() );
   bool any = r.out.find( "**** Error in file " ) != string::npos, num = r.out.find( "Number of errors reported" ) != string::npos;
   for( auto &x: e.errors )
      for( auto &n: x.second )
         CK( low( r.out ).find( low( "     " + x.first + ": " + n + "\n" ) ) != string::npos, "unreported", "'%s' of symbol %s is not reported:\n%s", x.first.c_str(), n.c_str(), r.out.c_str() );
   CK( any == !e.errors.empty() && num == any, "messages", "errors %sreported:\n%s", any ? "" : "not ", r.out.c_str() );
   CK( hasLine( r.out, fmt( "Merge complete, %zu input files merged", in.size() ) ), "messages", "wrong number of files:\n%s", r.out.c_str() );
   for( auto &f: in ) unlink( ( c.dir + "/" + f.path ).c_str() );
   unlink( c.path( "merged.gdx" ).c_str() );
   c.step( 4 );
   string h;
   for( auto &s: m ) h += show( s.first, s.second );
   c.state( mc::hashStr( h + r.out.substr( r.out.find( "Reading" ) == string::npos ? 0 : r.out.find( "Reading" ) ) ) );
   c.outcome( mc::hashStr( h ) );
}
static void run( Ctx &c, const vector<In> &in, const MOpt &o, const vector<string> &opts )
{
   vector<string> ids;
   for( auto &f: in ) ids.push_back( f.id() );
   run( c, in, ids, o, {}, opts );
}

static TSym mk( const string &n, int type, int dim )
{
   TSym y;
   y.name = n;
   y.type = type;
   y.dim = dim;
   y.user = type == T_VAR ? 5 : type == T_EQU ? 54 : 0;
   return y;
}
static TRec rec( vector<string> k, double v )
{
   TRec r;
   r.k = k;
   r.v = { v, 0, 0, 0, 0 };
   return r;
}
static void bigOpt( Ctx &c, vector<string> &opts )
{
   int k = c.choose( 4, "big" );
   if( k ) opts.push_back( k == 1 ? "big=0" : k == 2 ? "big=3" : "big=100000" );
}

// ---- one symbol, all contents of two files
static void scRecords( Ctx &c )
{
   static const vector<string> L { "k1", "k2", "k3" };
   int kind = c.choose( 6, "kind" );
   static const int types[] = { T_PAR, T_SET, T_VAR, T_PAR, T_EQU, T_PAR }, dims[] = { 1, 1, 1, 2, 1, 0 };
   vector<In> in { { "f1.gdx", {} }, { "f2.gdx", {} } };
   int ord = c.choose( 3, "label order" );
   if( ord ) in[0].f.uels = L, in[1].f.uels = L;
   if( ord == 2 ) std::reverse( in[1].f.uels.begin(), in[1].f.uels.end() );
   for( auto &f: in )
   {
      TSym y = mk( "sym", types[kind], dims[kind] );
      if( y.dim == 0 )
      {
         int v = c.choose( 4, "value" );
         if( v ) y.recs.push_back( rec( {}, v - 1 ) );
      }
      else if( y.dim == 1 )
         for( size_t i = 0; i < 3; i++ )
         {
            int v = c.choose( kind == 4 ? 2 : c.thorough || i < 2 ? 4 : 2, "value" );
            if( !v ) continue;
            TRec r = rec( { L[i] }, 0 );
            if( kind == 0 ) r.v[0] = v == 3 ? EPS : v - 1;
            if( kind == 1 ) r.txt = v == 1 ? "" : v == 2 ? "text" : "Text 'q'";
            if( kind == 2 ) r.v = { 1, 2.5, MINF, PINF, (double) v };
            if( kind == 4 ) r.v = defEqu( 54 );
            y.recs.push_back( r );
         }
      else
         for( size_t i = 0; i < 4; i++ )
            if( c.flip( "value" ) ) y.recs.push_back( rec( { L[i & 1], L[i >> 1] }, 1 ) );
      f.f.syms = { y };
   }
   if( c.flip( "order of the files" ) ) std::swap( in[0], in[1] );
   vector<string> opts;
   bigOpt( c, opts );
   run( c, in, {}, opts );
}

// ---- catalogues, compatibility, selection
static TSym kindSym( const string &name, int kind )
{
   static const int types[] = { T_PAR, T_PAR, T_SET, T_VAR, T_VAR, T_EQU, T_EQU, T_PAR, T_SET }, dims[] = { 1, 0, 1, 1, 1, 1, 1, 2, 2 };
   TSym y = mk( name, types[kind], dims[kind] );
   if( kind == 4 ) y.user = 3;
   if( kind == 6 ) y.user = 53;
   TRec r = rec( vector<string>( (size_t) y.dim, "i" ), kind + 2 );
   if( y.type == T_SET ) r.v = {}, r.txt = "t";
   if( y.type == T_VAR || y.type == T_EQU ) r.v = { 1, 2, 3, 4, 5 };
   y.recs.push_back( r );
   return y;
}
static void scCatalogue( Ctx &c )
{
   vector<In> in { { "f1.gdx", {} }, { "f2.gdx", {} } };
   for( size_t i = 0; i < 2; i++ )
   {
      int n = c.choose( 3, "symbols" );
      int first = n == 1 ? c.choose( 2, "name" ) : 0;
      for( int j = 0; j < n; j++ )
      {
         string nm = ( first + j ) % 2 ? ( i ? "xY" : "Xy" ) : "abc";
         TSym y = kindSym( nm, c.choose( j ? ( c.thorough ? 5 : 2 ) : 9, "kind" ) );
         if( !j )
         {
            int t = c.choose( i || c.thorough ? 3 : 2, "text" );
            if( t ) y.text = t == 1 ? "a text" : "other text";
         }
         in[i].f.syms.push_back( y );
      }
   }
   MOpt o;
   vector<string> opts;
   if( c.flip( "big" ) ) opts.push_back( "big=0" );
   switch( c.choose( c.thorough ? 9 : 4, "selection" ) )
   {
      case 0: break;
      case 1: opts.push_back( "id=ABC" ), o.hasId = true, o.ids = { "abc" }; break;
      case 2: opts.push_back( "exclude=xy" ), o.hasEx = true, o.ex = { "xy" }; break;
      case 3: opts.push_back( "ID=xy, nosuch" ), o.hasId = true, o.ids = { "xy", "nosuch" }; break;
      case 4: opts.push_back( "Exclude=abc,Xy" ), o.hasEx = true, o.ex = { "xy", "abc" }; break;
      case 6: opts.push_back( "id=nosuch,,abc ,  xy" ), o.hasId = true, o.ids = { "xy", "abc" }; break;
      case 7: opts.push_back( "exclude= , abc" ), o.hasEx = true, o.ex = { "abc" }; break;
      case 8: opts.push_back( "id=nosuch  xY  ABC" ), o.hasId = true, o.ids = { "xy", "abc" }; break;
      case 5: opts.push_back( "id=abc" ), opts.push_back( "id=Xy" ), o.hasId = true, o.ids = { "xy", "abc" }; break;
   }
   run( c, in, o, opts );
}

// ---- acronyms
static void scAcronyms( Ctx &c )
{
   // every file declares a sequence of acronyms and uses some of them
   static const vector<vector<const char *>> T { {}, { "aa" }, { "bb" }, { "aa", "bb" }, { "bb", "AA" }, { "cc", "aa", "bb" }, { "cc" }, { "", "", "aa" }, { "", "bb", "aa" } };
   int nf = c.thorough ? 3 : 2 + c.choose( 2, "files" );
   vector<In> in;
   for( int i = 0; i < nf; i++ )
   {
      In f { fmt( "f%d.gdx", i + 1 ), {} };
      auto &t = T[(size_t) c.choose( nf == 3 && !c.thorough ? 5 : 9, "acronyms" )];
      for( auto a: t ) f.f.acr.push_back( { a, string( "text " ) + a } );
      TSym y = mk( "p", T_PAR, 1 ), z = mk( "x", T_VAR, 0 );
      int used = nf == 3 ? ( 1 << t.size() ) - 1 : c.choose( 1 << t.size(), "used" );
      for( size_t k = 0; k < t.size(); k++ )
         if( !*t[k] && nf == 3 ) used &= ~( 1 << k );
         else if( !*t[k] && used >> k & 1 ) c.prune();
      for( size_t k = 0; k < t.size(); k++ )
         if( used >> k & 1 ) y.recs.push_back( rec( { fmt( "k%zu", k ) }, 1e301 * (double) ( k + 1 ) ) );
      y.recs.push_back( rec( { "zz" }, 7 ) );
      if( used )
      {
         TRec r;
         r.v = { 1, used & 1 ? 1e301 : 2, MINF, PINF, 1 };
         z.recs.push_back( r );
      }
      f.f.syms = { y, z };
      in.push_back( f );
   }
   vector<string> opts;
   if( c.flip( "big" ) ) opts.push_back( "big=0" );
   run( c, in, {}, opts );
}

// ---- labels and file names
static void scLabels( Ctx &c )
{
   static const vector<string> P { "f1", "F2", "it's", "x\"y", "a b", "AB", "ab", "1", string( 63, 'q' ), "Merged_set_1", "?" };
   static const vector<string> N { "f1", "a b", "it's", "x\"y", string( 63, 'n' ), string( 64, 'n' ), "q'\"", "F.1", "1" };
   vector<In> in;
   vector<string> ids;
   int k = c.choose( (int) N.size(), "file name" );
   in.push_back( { N[(size_t) k] + ".gdx", {} } );
   ids.push_back( k == 5 || k == 6 ? "File_1" : N[(size_t) k] );
   in.push_back( { "f2.gdx", {} } );
   ids.push_back( "f2" );
   int kind = c.choose( 3, "kind" );
   static const int types[] = { T_PAR, T_SET, T_VAR }, dims[] = { 1, 2, 1 };
   for( auto &f: in )
   {
      TSym y = mk( "sym", types[kind], dims[kind] );
      int n = c.choose( &f != &in[0] && !c.thorough ? 2 : 3, "records" );
      std::set<string> seen;
      for( int i = 0; i < n; i++ )
      {
         const string &l = P[(size_t) c.choose( i && !c.thorough ? 3 : (int) P.size(), "label" )];
         if( !seen.insert( low( l ) ).second ) c.prune();
         TRec r = rec( { l }, 1 + i );
         if( kind == 1 ) r.k = { l, i ? l : "k" }, r.v = {}, r.txt = i ? "it's" : "";
         if( kind == 2 ) r.v = { 1, 2, 3, 4, 5 };
         y.recs.push_back( r );
      }
      f.f.syms = { y };
   }
   vector<string> args;
   for( auto &f: in )
      args.push_back( f.path.find( '"' ) == string::npos ? f.path : f.path.substr( 0, f.path.find( '"' ) ) + "?" + f.path.substr( f.path.find( '"' ) + 1 ) );
   vector<string> opts;
   if( c.flip( "big" ) ) opts.push_back( "big=0" );
   run( c, in, ids, {}, args, opts );
}

// ---- files of the same name in different directories, patterns, files named twice
static void scFiles( Ctx &c )
{
   mkdir( c.path( "d1" ).c_str(), 0777 );
   mkdir( c.path( "d2" ).c_str(), 0777 );
   static const vector<string> N { "d1/a.gdx", "d2/a.gdx", "d2/A.gdx", "d1/b.gdx", "c.gdx", "d2/ab.gdx" };
   int n = 1 + c.choose( c.thorough ? 4 : 3, "files" );
   vector<In> in;
   vector<string> ids, args;
   std::set<string> seen, used;
   bool clash = false;
   for( int i = 0; i < n; i++ )
   {
      string p = N[(size_t) c.choose( (int) N.size(), "file" )];
      if( !seen.insert( p ).second ) c.prune();
      In f { p, {} };
      TSym y = mk( "sym", T_PAR, 1 );
      y.recs = { rec( { "k" }, i + 1 ), rec( { fmt( "l%d", i ) }, i + 1 ) };
      f.f.syms = { y };
      in.push_back( f );
      string id = low( f.id() );
      clash |= !used.insert( id ).second;
      ids.push_back( clash && std::count_if( in.begin(), in.end(), [&]( const In &x ) { return low( x.id() ) == id; } ) > 1 ? fmt( "File_%d", i + 1 ) : id );
   }
   vector<string> opts;
   if( c.flip( "big" ) ) opts.push_back( "big=0" );
   int k = clash ? 0 : c.choose( 6, "pattern" );
   if( k >= 4 )
      for( auto &f: in ) args.push_back( f.path );// a file named twice is merged once
   if( k == 1 || k == 4 || k == 3 )
      for( auto d: { "d1/", "d2/", "" } )
      {
         bool any = false;
         for( auto &f: in ) any |= f.path.compare( 0, strlen( d ), d ) == 0 && ( *d || f.path.find( '/' ) == string::npos );
         if( any ) args.push_back( string( d ) + ( *d ? "*.gdx" : "c.*" ) );
      }
   if( k == 2 )
      for( auto &f: in ) args.push_back( f.path.substr( 0, f.path.size() - 5 ) + "?.gdx" );
   if( k == 3 )
      for( auto &f: in ) args.push_back( f.path );
   if( k == 5 ) args.insert( args.end(), args.begin(), args.begin() + (long) in.size() );
   if( k == 2 )
   {
      // the pattern must not match another file of the directory
      for( auto &f: in )
         for( auto &g: in )
            if( &f != &g && f.path.size() == g.path.size() && f.path.substr( 0, f.path.size() - 5 ) == g.path.substr( 0, g.path.size() - 5 ) ) c.prune();
   }
   run( c, in, ids, {}, args, opts );
   rmdir( c.path( "d1" ).c_str() );
   rmdir( c.path( "d2" ).c_str() );
}

// ---- lists of names, and names like that of the set of files
static void scNames( Ctx &c )
{
   static const vector<string> N { "a", "bb", "Merged_set_1", "Merged_set_2", "Merged_set_3", "merged_SET_4" };
   vector<In> in { { "f1.gdx", {} }, { "f2.gdx", {} } };
   int m = c.choose( 64, "symbols of the first file" ), m2 = c.choose( c.thorough ? 64 : 3, "symbols of the second file" );
   if( !c.thorough ) m2 = m2 == 0 ? 0 : m2 == 1 ? 63 : 63 ^ m;
   for( size_t i = 0; i < 6; i++ )
   {
      if( m >> i & 1 ) in[0].f.syms.push_back( kindSym( N[i], (int) i % 3 ) );
      if( m2 >> i & 1 ) in[1].f.syms.push_back( kindSym( N[i], (int) i % 3 ) );
   }
   MOpt o;
   vector<string> opts;
   static const vector<std::pair<string, vector<string>>> L {
           { "", {} }, { "a", { "a" } }, { "a,bb", { "a", "bb" } }, { "a bb", { "a", "bb" } }, { "a , bb", { "a", "bb" } }, { "a,,bb", { "a", "bb" } }, { ",a", { "a" } }, { " a, ", { "a" } },
           { "BB,merged_set_2,merged_set_4", { "bb", "merged_set_2", "merged_set_4" } }, { "a;bb", { "a;bb" } } };
   auto &l = L[(size_t) c.choose( (int) L.size(), "list" )];
   if( !l.first.empty() )
   {
      bool ex = c.flip( "exclude" );
      opts.push_back( ( ex ? "exclude=" : "id=" ) + l.first );
      ( ex ? o.hasEx : o.hasId ) = true;
      ( ex ? o.ex : o.ids ) = l.second;
   }
   run( c, in, o, opts );
}

// ---- dimensions
static void scDims( Ctx &c )
{
   static const int D[] = { 0, 1, 2, 3, 18, 19, 20 };
   static const int types[] = { T_PAR, T_SET, T_VAR, T_EQU };
   int dim = D[c.choose( 7, "dimension" )], type = types[c.choose( 4, "type" )];
   if( !dim && type == T_SET ) c.prune();
   vector<In> in { { "f1.gdx", {} }, { "f2.gdx", {} } };
   for( auto &f: in )
   {
      TSym y = mk( "sym", type, dim );
      int n = c.choose( dim ? 4 : 2, "records" );
      for( int i = 0; i < 2; i++ )
         if( n >> i & 1 )
         {
            TRec r = rec( vector<string>( (size_t) dim, "k" ), 0 );
            if( dim && i ) r.k[(size_t) ( dim > 1 ? c.choose( 2, "changed" ) * ( dim - 1 ) : 0 )] = "l";
            if( type == T_PAR ) r.v[0] = 1 + i;
            if( type == T_SET && i ) r.txt = "tx";
            if( type == T_VAR || type == T_EQU ) r.v = { 1, 2, 3, 4, 5.0 + i };
            y.recs.push_back( r );
         }
      TSym z = kindSym( "other", 0 );
      f.f.syms = { y, z };
   }
   vector<string> opts;
   bigOpt( c, opts );
   run( c, in, {}, opts );
}

// ---- aliases
static void scAlias( Ctx &c )
{
   vector<In> in { { "f1.gdx", {} }, { "f2.gdx", {} } };
   for( auto &f: in )
   {
      f.f.uels = { "i", "j" };
      int n = c.choose( 2, "symbols before" );
      for( int i = 0; i < n; i++ ) f.f.syms.push_back( kindSym( fmt( "s%d", i ), 8 ) );
      TSym y = mk( "base", T_SET, 1 );
      int k = c.choose( 4, "elements" );
      if( k & 1 ) y.recs.push_back( rec( { "i" }, 0 ) );
      if( k & 2 ) y.recs.push_back( rec( { "j" }, 0 ) );
      if( k && c.flip( "text" ) ) y.recs[0].txt = "t";
      f.f.syms.push_back( y );
      int al = c.choose( 4, "alias" );
      if( al == 1 || al == 2 )
      {
         TSym z = mk( "ali", T_ALIAS, 1 );
         z.aliasOf = al == 1 ? (int) f.f.syms.size() : 0;
         f.f.syms.push_back( z );
      }
      if( al == 3 )
      {
         y.name = "ali";
         f.f.syms.push_back( y );
      }
   }
   vector<string> opts;
   if( c.flip( "big" ) ) opts.push_back( "big=0" );
   run( c, in, {}, opts );
}

// ---- command lines
static void scInvocation( Ctx &c )
{
   TFile a;
   a.syms = { kindSym( "x", 0 ), kindSym( "Merged_set_1", 2 ) };
   struct Case
   {
      vector<string> args;
      int rc, files;// expected exit code, merged files (-1: no output)
      const char *out;
   };
   static const vector<Case> cases {
           { {}, 0, -1, nullptr },
           { { "AUDIT" }, 0, -1, nullptr },
           { { "f1.gdx", "f2.gdx" }, 0, 2, "merged.gdx" },
           { { "f?.gdx" }, 0, 2, "merged.gdx" },
           { { "*.gdx" }, 0, 2, "merged.gdx" },
           { { "f1.gdx", "output=out" }, 0, 1, "out.gdx" },
           { { "f1.gdx", "O=out.x" }, 0, 1, "out.x" },
           { { "f1.gdx", "O=out.x", "O=out2.x" }, 1, -1, nullptr },
           { { "f1.gdx", "nofile.gdx" }, 0, 1, "merged.gdx" },
           { { "f1.gdx", "nofile.gdx", "strict=true" }, 1, -1, nullptr },
           { { "f1.gdx", "f2.gdx", "strict=true" }, 0, 2, "merged.gdx" },
           { { "f1.gdx", "f2.gdx", "strict=false" }, 0, 2, "merged.gdx" },
           { { "f1.gdx", "text.gdt" }, 0, 1, "merged.gdx" },
           { { "text.gdt", "f1.gdx", "big=0" }, 0, 1, "merged.gdx" },
           { { "f1.gdx", "text.gdt", "strict=true" }, 1, -1, nullptr },
           { { "nofile.gdx" }, 0, 0, "merged.gdx" },
           { { "nofile.gdx", "strict=true" }, 1, -1, nullptr },
           { { "f1.gdx", "id=x", "exclude=y" }, 1, -1, nullptr },
           { { "@opt.txt" }, 0, 2, "o4.gdx" },
           { { "f1.gdx", "@missing.txt" }, 1, -1, nullptr },
           { { "f1.gdx", "output=nodir/x.gdx" }, 1, -1, nullptr },
           { { "f1.gdx", "id=" + string( 300, 'z' ) }, 0, 1, "merged.gdx" },
           { { "f1.gdx", string( 300, 'z' ) + ".gdx" }, 0, 1, "merged.gdx" },
           { { "f1.gdx", "f1.gdx", "f2.gdx" }, 0, 2, "merged.gdx" },
           { { "*.gdx", "f2.gdx", "big=0" }, 0, 2, "merged.gdx" },
           { { "./*.gdx" }, 0, 2, "merged.gdx" },
   };
   int ki = c.choose( (int) cases.size(), "command" );
   auto &k = cases[(size_t) ki];
   bool old = c.flip( "old output" );
   writeFile( c, c.path( "f1.gdx" ), a );
   writeFile( c, c.path( "f2.gdx" ), a );
   writeBytes( c.path( "text.gdt" ), "this is not a gdx file" );
   writeBytes( c.path( "opt.txt" ), "* comment\nf1.gdx\noutput=o4 f2.gdx\n" );
   string on = k.out ? string( k.out ) : "merged.gdx";
   bool strict = false;
   for( auto &x: k.args ) strict |= x == "strict=true";
   if( old ) writeBytes( c.path( on ), "old" );
   string b1 = readBytes( c.path( "f1.gdx" ) ), b2 = readBytes( c.path( "f2.gdx" ) );
   Run r = runTool( c, "gdxmerge", k.args );
   int rc = old && strict ? 1 : k.rc, files = old && strict ? -1 : k.files;
   CK( r.rc == rc, "exit-code", "exit code %d instead of %d: %s", r.rc, rc, r.out.c_str() );
   CK( b1 == readBytes( c.path( "f1.gdx" ) ) && b2 == readBytes( c.path( "f2.gdx" ) ), "input-changed", "an input file was modified" );
   if( files >= 0 )
   {
      string sn;
      std::map<string, string> at;
      auto m = readMerged( c, c.path( on ), sn, at );
      bool z = ki == 21;
      CK( m.size() == ( files && !z ? 3u : 1u ), "content", "%zu symbols in the merged file", m.size() );
      if( files && !z )
      {
         CK( sn == "Merged_set_2", "merged-set", "name of the merged set is %s", sn.c_str() );
         CK( (int) m["x"].recs.size() == files && (int) m["merged_set_1"].recs.size() == files, "content", "%zu records instead of %d", m["x"].recs.size(), files );
         CK( hasLine( r.out, fmt( "Merge complete, %d input files merged", files ) ), "messages", "wrong number of files:\n%s", r.out.c_str() );
      }
   }
   else if( old && k.out == nullptr )
      CK( readBytes( c.path( on ) ) == "old" || ( ki == 20 ), "overwritten", "a refused merge replaced the old output" );
   for( auto x: { "merged.gdx", "out.gdx", "out.x", "out2.x", "o4.gdx" } ) unlink( c.path( x ).c_str() );
   c.state( mc::hashStr( r.out + r.err ) );
   c.outcome( mc::hashStr( r.out + r.err ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P26";
   d.assumptions = { "the tool is linked into the checker (main renamed) and runs in its own process; the generated C interface gdxcc.c/gdxcclib.cpp is the one of the tree, dlopen is answered with the checker's own image", "the output file is not one of the inputs" };
   d.sc = {
           { "records", scRecords, 3, "2 files with 1 symbol (6 kinds, dim 0..2 over 3 labels with 1..3 values each): all pairs of contents x label orders x file orders x big=none/0/3/100000" },
           { "catalogue", scCatalogue, 3, "2 files with 0..2 symbols of 9 kinds (types, subtypes, dimensions) under 2 names in 2 spellings, 3 texts x 4 (6) id/exclude selections x big" },
           { "acronyms", scAcronyms, 3, "2..3 files with 9 acronym tables, all used subsets x big" },
           { "labels", scLabels, 3, "9 file names (blanks, quotes, longest, unusable) x 0..2 records with labels like file names, quotes, different case x big" },
           { "files", scFiles, 3, "1..3 (4) of 6 files in 3 directories, same names in different directories and spellings, plain and with patterns x big" },
           { "names", scNames, 3, "every selection of 6 names (4 like that of the set of files) in 2 files x 10 lists of names with every kind of separator, included or excluded" },
           { "dims", scDims, 3, "dimensions 0..3,18..20 x 4 types x record sets x big" },
           { "alias", scAlias, 3, "aliases of sets and of the universe against sets and nothing x big" },
           { "invocation", scInvocation, 3, "26 command lines x old output present" },
   };
   return d.main( argc, argv );
}
