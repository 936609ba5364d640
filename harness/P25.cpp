// P25: gdxdiff reports a difference exactly when there is one.
// Every pair of files and option combination within the bounds is written with the library and compared by the tool;
// exit code, summary and difference file must be those of an independent comparison of the contents.
#include "toolh.hpp"
using namespace th;

static string low( string s )
{
   for( auto &ch: s ) ch = (char) tolower( (unsigned char) ch );
   return s;
}
struct DOpt
{
   double eps = 0, rel = 0;
   int field = -1;// 0..4: only this one
   bool fldOnly {}, diffOnly {}, cmpDef {}, cmpDom {}, settext = true, hasId {}, hasSkip {};
   vector<string> ids, skip;
};
static const char *FN[] = { "Level", "Marginal", "Lower", "Upper", "Scale" };

struct V// a value as the user sees it
{
   int kind {};// 0 number, 1 special, 2 acronym
   double d {};
   string acr;
};
static V val( double d, const vector<std::pair<string, string>> &acr )
{
   V v;
   v.d = d;
   if( d >= 1e301 )
   {
      v.kind = 2;
      size_t i = (size_t) std::lround( d / 1e301 );
      v.acr = i >= 1 && i <= acr.size() ? low( acr[i - 1].first ) : fmt( "#%zu", i );
   }
   else if( d == UND || d == NA || d == PINF || d == MINF || d == EPS )
      v.kind = 1;
   return v;
}
static string vstr( const V &v ) { return v.kind == 2 ? "acr:" + v.acr : v.kind == 1 ? fmt( "sv%.0e", v.d ) : fmt( "%a", v.d + 0.0 ); }
static bool same( const V &a, const V &b, const DOpt &o )
{
   if( a.kind != b.kind )
   {
      const V &n = a.kind ? b : a, &s = a.kind ? a : b;
      return !n.kind && s.kind == 1 && s.d == EPS && o.eps > 0 && std::fabs( n.d ) <= o.eps;
   }
   if( a.kind == 1 ) return a.d == b.d;
   if( a.kind == 2 ) return a.acr == b.acr;
   double diff = std::fabs( a.d - b.d );
   return diff <= o.eps || ( o.rel > 0 && diff / ( 1 + std::min( std::fabs( a.d ), std::fabs( b.d ) ) ) <= o.rel );
}

enum Stat { S_NOT1, S_NOT2, S_DIM, S_TYP, S_KEY, S_DATA, S_MAXDIM, S_DOM };
static const char *ST[] = { "Symbol not found in file 1", "Symbol not found in file 2", "Dimensions are different", "Types are different", "Keys are different", "Data are different", "Dim >= maxdim & different", "Domains are different" };

struct DSym// a symbol of the difference file
{
   string name;
   int type {}, dim {}, user {};
   std::map<vector<string>, string> recs;
};
struct Expect
{
   std::map<string, std::set<int>> stat;// lower case name -> acceptable texts
   std::map<string, DSym> syms;
};
struct Flat
{
   int type, dim, user;
   std::map<vector<string>, TRec> recs;
   vector<string> dom;
};
static Flat flat( const TFile &f, const TSym &y )
{
   Flat r;
   if( y.type == T_ALIAS )
   {
      if( y.aliasOf )
      {
         r = flat( f, f.syms[(size_t) y.aliasOf - 1] );
         r.user = 0;
         return r;
      }
      r.type = T_SET, r.dim = 1, r.user = 0, r.dom = { "*" };
      for( auto &u: f.uels ) r.recs[{ low( u ) }] = { { low( u ) }, {}, "" };
      return r;
   }
   r.type = y.type, r.dim = y.dim, r.user = y.user;
   r.dom = y.dom;
   if( r.dom.empty() ) r.dom.assign( (size_t) y.dim, "*" );
   for( auto t: y.recs )
   {
      for( auto &k: t.k ) k = low( k );
      r.recs[t.k] = t;
   }
   if( !y.dim && r.recs.empty() && y.type != T_SET )
   {
      TRec t;
      if( y.type == T_VAR ) t.v = defVar( y.user );
      if( y.type == T_EQU ) t.v = defEqu( y.user );
      r.recs[{}] = t;
   }
   return r;
}
static Expect compare( Ctx &c, const TFile &a, const TFile &b, const DOpt &o )
{
   Expect e;
   auto has = []( const vector<string> &v, const string &s ) { return std::any_of( v.begin(), v.end(), [&]( const string &x ) { return low( x ) == low( s ); } ); };
   auto sel = [&]( const TSym &y ) { return ( !o.hasId || has( o.ids, y.name ) ) && ( !o.hasSkip || !has( o.skip, y.name ) ); };
   auto find = []( const TFile &f, const string &n ) -> const TSym * {
      for( auto &y: f.syms )
         if( low( y.name ) == low( n ) ) return &y;
      return nullptr;
   };
   for( auto &y: b.syms )
      if( sel( y ) && !find( a, y.name ) ) e.stat[low( y.name )] = { S_NOT1 };
   for( auto &y1: a.syms )
   {
      if( !sel( y1 ) ) continue;
      string id = low( y1.name );
      auto *y2p = find( b, y1.name );
      if( !y2p )
      {
         e.stat[id] = { S_NOT2 };
         continue;
      }
      Flat x = flat( a, y1 ), y = flat( b, *y2p );
      if( x.type != y.type )
      {
         e.stat[id] = { S_TYP };
         continue;
      }
      if( x.dim != y.dim )
      {
         e.stat[id] = { S_DIM };
         continue;
      }
      if( o.cmpDom )
      {
         bool d = false;
         for( int i = 0; i < x.dim; i++ ) d |= low( x.dom[(size_t) i] ) != low( y.dom[(size_t) i] );
         if( d )
         {
            e.stat[id] = { S_DOM };
            continue;
         }
      }
      bool ve = x.type == T_VAR || x.type == T_EQU, asPar = ve && ( o.fldOnly || o.diffOnly );
      DSym d;
      d.name = y2p->name;
      d.type = asPar ? T_PAR : x.type;
      d.dim = x.dim + ( ve && o.diffOnly ? 2 : 1 );
      d.user = asPar ? 0 : x.user;
      auto active = [&]( int f ) { return !ve ? f == 0 : o.field < 0 || f == o.field; };
      auto put = [&]( const vector<string> &k, const TRec &r, const TFile &f, const char *act, std::function<bool( int )> fields ) {
         vector<string> kk = k;
         if( x.type == T_SET )
         {
            kk.push_back( act );
            d.recs[kk] = r.txt;
         }
         else if( ve && o.diffOnly )
         {
            for( int i = 0; i < 5; i++ )
               if( fields( i ) )
               {
                  auto k2 = kk;
                  k2.push_back( low( FN[i] ) );
                  k2.push_back( act );
                  d.recs[k2] = vstr( val( r.v[(size_t) i], f.acr ) );
               }
         }
         else
         {
            kk.push_back( act );
            string s;
            for( int i = 0; i < ( asPar || !ve ? 1 : 5 ); i++ ) s += ( i ? " " : "" ) + vstr( val( r.v[(size_t) ( asPar ? o.field : i )], f.acr ) );
            d.recs[kk] = s;
         }
      };
      bool anyKey = false, anyData = false;
      auto one = [&]( const vector<string> &k, const TRec &r, const TFile &f, const char *act ) {
         if( x.type != T_SET )
         {
            bool eq = true, eq2 = true;
            Vals d1 {}, d2 {};
            if( x.type == T_VAR ) d1 = defVar( x.user ), d2 = defVar( y.user );
            if( x.type == T_EQU ) d1 = defEqu( x.user ), d2 = defEqu( y.user );
            for( int i = 0; i < 5; i++ )
               if( active( i ) )
               {
                  eq = eq && same( val( r.v[(size_t) i], f.acr ), val( d1[(size_t) i], f.acr ), o );
                  eq2 = eq2 && same( val( r.v[(size_t) i], f.acr ), val( d2[(size_t) i], f.acr ), o );
               }
            if( eq != eq2 && !o.cmpDef ) c.prune();// which subtype's default is meant is not specified
            if( eq && !o.cmpDef ) return;
         }
         anyKey = true;
         put( k, r, f, act, active );
      };
      for( auto &kv: x.recs )
      {
         auto it = y.recs.find( kv.first );
         if( it == y.recs.end() )
         {
            one( kv.first, kv.second, a, "ins1" );
            continue;
         }
         if( x.type == T_SET )
         {
            if( o.settext && kv.second.txt != it->second.txt )
            {
               anyData = true;
               put( kv.first, kv.second, a, "dif1", active );
               put( kv.first, it->second, b, "dif2", active );
            }
            continue;
         }
         auto dif = [&]( int f ) { return active( f ) && !same( val( kv.second.v[(size_t) f], a.acr ), val( it->second.v[(size_t) f], b.acr ), o ); };
         bool any = false;
         for( int f = 0; f < 5; f++ ) any |= dif( f );
         if( !any ) continue;
         anyData = true;
         put( kv.first, kv.second, a, "dif1", dif );
         put( kv.first, it->second, b, "dif2", dif );
      }
      for( auto &kv: y.recs )
         if( !x.recs.count( kv.first ) ) one( kv.first, kv.second, b, "ins2" );
      if( !anyKey && !anyData ) continue;
      if( d.dim > 20 )
      {
         e.stat[id] = { S_MAXDIM };
         continue;
      }
      if( anyKey ) e.stat[id].insert( S_KEY );
      if( anyData ) e.stat[id].insert( S_DATA );
      e.syms[id] = d;
   }
   return e;
}

static string showRecMap( const DSym &d )
{
   string s = fmt( "%s type %d dim %d user %d\n", d.name.c_str(), d.type, d.dim, d.user );
   for( auto &r: d.recs )
   {
      for( auto &k: r.first ) s += k + ".";
      s += " = " + r.second + "\n";
   }
   return s;
}
// ---- difference file as written
static std::map<string, DSym> readDiff( Ctx &c, const string &fn, bool cond, string &filesName )
{
   std::map<string, DSym> m;
   CK( cond, "no-diff-file", "difference file not written" );
   FileC f = dumpFile( fn );
   CK( f.err == 0 && f.problems.empty(), "bad-diff-file", "difference file unreadable: %d %s", f.err, f.problems.empty() ? "" : f.problems[0].c_str() );
   vector<std::pair<string, string>> acr;
   for( auto &a: f.acr )
   {
      if( (int) acr.size() < a.idx ) acr.resize( (size_t) a.idx );
      if( a.idx > 0 ) acr[(size_t) a.idx - 1].first = a.name;
   }
   int n = 0;
   for( auto &y: f.syms )
   {
      n++;
      CK( y.problems.empty(), "bad-diff-file", "symbol %s of the difference file: %s", y.name.c_str(), y.problems.empty() ? "" : y.problems[0].c_str() );
      DSym d;
      d.name = y.name, d.type = y.type, d.dim = y.dim, d.user = y.type == T_VAR || y.type == T_EQU || y.type == T_SET ? y.user : 0;
      for( auto &r: y.recs )
      {
         vector<string> k;
         for( auto i: r.k ) k.push_back( i >= 1 && i <= (int) f.uels.size() ? low( f.uels[(size_t) i - 1] ) : fmt( "?%d", i ) );
         string s = r.txt;
         if( y.type != T_SET )
         {
            s.clear();
            for( int i = 0; i < nvals( y.type ); i++ ) s += ( i ? " " : "" ) + vstr( val( r.v[(size_t) i], acr ) );
         }
         d.recs[k] = s;
      }
      if( n == (int) f.syms.size() )
         filesName = y.name;
      CK( !m.count( low( y.name ) ), "bad-diff-file", "symbol %s twice", y.name.c_str() );
      m[low( y.name )] = d;
   }
   return m;
}

// a file without labels: the keys "l__<n>" are written as numbers
static void writeRawFile( Ctx &c, const string &fn, const TFile &f )
{
   Obj o;
   int e = 0;
   CK( o->gdxOpenWrite( fn.c_str(), "verif", e ), "setup", "OpenWrite %s fails with %d", fn.c_str(), e );
   for( auto &y: f.syms )
   {
      CK( o->gdxDataWriteRawStart( y.name.c_str(), "", y.dim, y.type, y.user ), "setup", "cannot start symbol" );
      for( auto &r: y.recs )
      {
         int k[20], nr = 0;
         for( size_t i = 0; i < r.k.size(); i++ ) k[i] = atoi( r.k[i].c_str() + 3 );
         double v[5];
         std::copy( r.v.begin(), r.v.end(), v );
         if( y.type == T_SET && !r.txt.empty() ) o->gdxAddSetText( r.txt.c_str(), nr ), v[0] = nr;
         CK( o->gdxDataWriteRaw( k, v ), "setup", "record refused (%d)", o->gdxGetLastError() );
      }
      CK( o->gdxDataWriteDone(), "setup", "write done" );
   }
   CK( o->gdxClose() == 0, "setup", "close" );
   c.step( 4 );
}
static void run( Ctx &c, const TFile &a, const TFile &b, const DOpt &o, const vector<string> &opts, bool raw = false )
{
   const string out = "diffile.gdx";
   string fa = c.path( "f1.gdx" ), fb = c.path( "f2.gdx" ), fd = c.dir + "/" + out;
   if( raw ) writeRawFile( c, fa, a ), writeRawFile( c, fb, b );
   else writeFile( c, fa, a ), writeFile( c, fb, b );
   string ba = readBytes( fa ), bb = readBytes( fb );
   Expect e = compare( c, a, b, o );
   unlink( fd.c_str() );
   vector<string> args { "f1.gdx", "f2.gdx" };
   args.insert( args.end(), opts.begin(), opts.end() );
   Run r = runTool( c, "gdxdiff", args );
   CK( ba == readBytes( fa ) && bb == readBytes( fb ), "input-changed", "an input file was modified" );
   // summary
   std::map<string, string> got;
   bool none = false, inSum = false;
   size_t p = 0;
   while( p < r.out.size() )
   {
      size_t q = r.out.find( '\n', p );
      if( q == string::npos ) q = r.out.size();
      string l = r.out.substr( p, q - p );
      p = q + 1;
      if( l == "No differences found" ) none = true;
      if( l.compare( 0, 7, "Output:" ) == 0 ) inSum = false;
      if( inSum )
      {
         size_t x = l.find_first_not_of( ' ' ), z = l.find( "   ", x == string::npos ? 0 : x );
         CK( z != string::npos, "summary", "unreadable line <%s>", l.c_str() );
         string nm = low( l.substr( x, z - x ) );
         CK( !got.count( nm ), "summary", "symbol %s listed twice", nm.c_str() );
         got[nm] = l.substr( z + 3 );
      }
      if( l == "Summary of differences:" ) inSum = true;
   }
   for( auto &s: e.stat )
   {
      auto it = got.find( s.first );
      CK( it != got.end(), "missed", "symbol %s differs (%s) but is not reported", s.first.c_str(), ST[*s.second.begin()] );
      bool ok = false;
      for( auto x: s.second ) ok |= it->second == ST[x];
      CK( ok, "status", "symbol %s: reported <%s> instead of <%s>", s.first.c_str(), it->second.c_str(), ST[*s.second.begin()] );
   }
   for( auto &g: got ) CK( e.stat.count( g.first ), "spurious", "symbol %s is the same but reported: %s", g.first.c_str(), g.second.c_str() );
   CK( none == e.stat.empty(), "summary", "'No differences found' %s", none ? "although there are some" : "is missing" );
   CK( r.rc == ( e.stat.empty() ? 0 : 1 ), "exit-code", "exit code %d with %zu differing symbols", r.rc, e.stat.size() );
   // difference file
   string fn;
   auto m = readDiff( c, fd, access( fd.c_str(), R_OK ) == 0, fn );
   CK( fn.compare( 0, 13, "FilesCompared" ) == 0, "diff-file", "last symbol is %s", fn.c_str() );
   CK( fn.size() == 13 || ( fn[13] == '_' && fn.find_first_not_of( "0123456789", 14 ) == string::npos ), "diff-file", "the symbol with the file names is %s", fn.c_str() );
   auto fc = m[low( fn )];
   CK( fc.type == T_SET && fc.dim == 1 && fc.recs.size() == 2 && fc.recs[{ "file1" }] == "f1.gdx" && fc.recs[{ "file2" }] == "f2.gdx", "diff-file", "wrong names of the compared files: %s", showRecMap( fc ).c_str() );
   m.erase( low( fn ) );
   for( auto &s: e.syms )
   {
      auto it = m.find( s.first );
      CK( it != m.end(), "diff-missing", "symbol %s is not in the difference file", s.first.c_str() );
      string want = showRecMap( s.second ), have = showRecMap( it->second );
      CK( want == have, "diff-content", "expected %sgot %s", want.c_str(), have.c_str() );
   }
   for( auto &g: m ) CK( e.syms.count( g.first ), "diff-spurious", "symbol %s should not be in the difference file: %s", g.first.c_str(), showRecMap( g.second ).c_str() );
   CK( access( c.path( "tmpdifffile1.gdx" ).c_str(), F_OK ), "temporary", "temporary file left behind" );
   unlink( fd.c_str() );
   c.step( 4 );
   string h = r.out.substr( r.out.find( "File1" ) == string::npos ? 0 : r.out.find( "File1" ) );
   for( auto &s: m ) h += showRecMap( s.second );
   c.state( mc::hashStr( h ) );
   c.outcome( mc::hashStr( h ) );
}

static TSym mk( const string &n, int type, int dim )
{
   TSym y;
   y.name = n;
   y.type = type;
   y.dim = dim;
   y.user = type == T_VAR ? 5 : type == T_EQU ? 54 : 0;
   return y;
}
static TRec rec( vector<string> k, double v )
{
   TRec r;
   r.k = k;
   r.v = { v, 0, 0, 0, 0 };
   return r;
}
// order of the labels of the second file relative to the first
static void orders( Ctx &c, TFile &a, TFile &b, const vector<string> &l )
{
   a.uels = l;
   b.uels = l;
   switch( c.choose( 3, "label order" ) )
   {
      case 0: break;
      case 1: std::reverse( b.uels.begin(), b.uels.end() ); break;
      case 2:
         b.uels.clear();// as used
         break;
   }
}

// ---- one symbol, all record sets
static void scRecords( Ctx &c )
{
   static const vector<string> L { "k1", "k2", "k3" };
   int kind = c.choose( 5, "kind" );
   TFile a, b;
   DOpt o;
   vector<string> opts;
   orders( c, a, b, L );
   static const int types[] = { T_PAR, T_SET, T_VAR, T_PAR, T_SET }, dims[] = { 1, 1, 1, 2, 2 };
   TSym y = mk( "sym", types[kind], dims[kind] ), z = y;
   for( auto *s: { &y, &z } )
   {
      if( y.dim == 1 )
      {
         for( size_t i = 0; i < 3; i++ )
         {
            int v = c.choose( kind == 2 ? 3 : c.thorough ? 4 : i < 2 ? 4 : 3, "value" );
            if( !v ) continue;
            TRec r = rec( { L[i] }, 0 );
            if( kind == 0 ) r.v[0] = v - 1;
            if( kind == 1 ) r.txt = v == 1 ? "" : v == 2 ? "text" : "Text";
            if( kind == 2 ) r.v = defVar( 5 ), r.v[0] = v - 1;
            s->recs.push_back( r );
         }
      }
      else
         for( size_t i = 0; i < 4; i++ )
         {
            int v = c.choose( c.thorough && kind == 3 ? 3 : 2, "value" );
            if( !v ) continue;
            TRec r = rec( { L[i & 1], L[i >> 1] }, kind == 3 ? v : 0 );
            s->recs.push_back( r );
         }
   }
   a.syms = { y };
   b.syms = { z };
   int k = c.choose( types[kind] == T_SET ? 3 : 4, "option" );
   if( k == 1 ) opts.push_back( "IgnoreOrder" );
   if( k == 2 )
   {
      if( types[kind] == T_SET )
      {
         o.settext = false;
         opts.push_back( "SetDesc=N" );
      }
      else
      {
         o.cmpDef = true;
         opts.push_back( "CmpDefaults" );
      }
   }
   if( k == 3 )
   {
      o.eps = 1;
      opts.push_back( "Eps=1" );
   }
   run( c, a, b, o, opts );
}

// ---- one record, all pairs of values and tolerances
static void scValues( Ctx &c )
{
   static const vector<double> P { 0, 1, 1.0625, 1.125, -1, 1e-9, UND, NA, PINF, MINF, EPS, ACR1, ACR2, 3e6, 3000001, -0.0625, 0.0625, 1e200, 1.0000000000000002 };
   int kind = c.choose( 3, "kind" );// scalar, parameter, variable
   static const int types[] = { T_PAR, T_PAR, T_VAR }, dims[] = { 0, 1, 1 };
   TFile a, b;
   TSym y = mk( "sym", types[kind], dims[kind] ), z = y;
   int x1 = c.choose( (int) P.size() + 1, "value 1" ), x2 = c.choose( (int) P.size() + 1, "value 2" );
   bool acr = false;
   for( auto t: { std::make_pair( &y, x1 ), std::make_pair( &z, x2 ) } )
      if( t.second )
      {
         double d = P[(size_t) t.second - 1];
         acr |= d >= 1e301;
         TRec r = rec( y.dim ? vector<string> { "k" } : vector<string> {}, d );
         if( kind == 2 ) r.v = defVar( 5 ), r.v[1] = d;
         t.first->recs.push_back( r );
      }
   a.syms = { y };
   b.syms = { z };
   a.acr = b.acr = { { "acA", "first" }, { "acB", "" } };
   if( acr )
   {
      int k = c.choose( 4, "acronyms" );
      if( k == 1 ) b.acr = { { "acB", "other" }, { "aca", "" } };
      if( k == 2 ) b.acr = { { "acC", "" }, { "acD", "" } };
      if( k == 3 ) b.acr = { { "acC", "" }, { "acA", "first" } };
   }
   DOpt o;
   vector<string> opts;
   static const char *E[] = { "", "0", "0.0625", "1", "1e-9", ".125" }, *R[] = { "", "0.05", "0.0625", "1e-6" };
   int ke = c.choose( kind == 1 || c.thorough ? 6 : 3, "eps" ), kr = c.choose( kind == 1 || c.thorough ? 4 : 2, "releps" );
   if( ke ) opts.push_back( string( "Eps=" ) + E[ke] ), o.eps = strtod( E[ke], nullptr );
   if( kr ) opts.push_back( string( "RelEps=" ) + R[kr] ), o.rel = strtod( R[kr], nullptr );
   if( c.flip( "CmpDefaults" ) ) opts.push_back( "cmpdefaults" ), o.cmpDef = true;
   if( kind == 2 && c.flip( "DiffOnly" ) ) opts.push_back( "DiffOnly" ), o.diffOnly = true;
   run( c, a, b, o, opts );
}

// ---- variables and equations: subtypes, fields
static void scFields( Ctx &c )
{
   int sub = c.choose( 17, "subtype" );
   bool var = sub < 10;
   int dim = c.thorough || sub % 4 == 1 ? c.choose( 2, "dimension" ) : 1;
   TSym y = mk( "x", var ? T_VAR : T_EQU, dim );
   y.user = var ? sub : 53 + sub - 10;
   TSym z = y;
   bool other = c.flip( "other subtype" );
   if( other ) z.user = var ? ( sub + 4 ) % 10 : 53 + ( sub - 10 + 3 ) % 7;
   for( auto *s: { &y, &z } )
   {
      // absent, default, one field changed, several changed
      int k = c.choose( c.thorough || ( sub % 3 == 0 && !other ) ? 9 : 6, "record" );
      if( !k ) continue;
      TRec r;
      if( dim ) r.k = { "k" };
      r.v = var ? defVar( s->user ) : defEqu( s->user );
      if( k >= 2 && k <= 6 ) r.v[(size_t) k - 2] = 7;
      if( k == 7 ) r.v = { 1, 2, 3, 4, 5 };
      if( k == 8 ) r.v = { 1, 9, 3, 9, 5 };
      s->recs.push_back( r );
   }
   TFile a, b;
   a.syms = { y };
   b.syms = { z };
   static const char *F[] = { "", "All", "L", "M", "Up", "Lo", "Prior", "Scale" };
   static const int fi[] = { -1, -1, 0, 1, 3, 2, 4, 4 };
   DOpt o;
   vector<string> opts;
   int k = c.choose( 8, "field" );
   if( k ) opts.push_back( string( "Field=" ) + F[k] );
   o.field = fi[k];
   int m = c.choose( o.field < 0 ? 2 : 3, "mode" );
   if( m == 1 ) opts.push_back( "DiffOnly" ), o.diffOnly = true;
   if( m == 2 ) opts.push_back( "FldOnly" ), o.fldOnly = true;
   if( ( c.thorough || !other ) && c.flip( "CmpDefaults" ) ) opts.push_back( "CmpDefaults" ), o.cmpDef = true;
   run( c, a, b, o, opts );
}

// ---- catalogues
static TSym kindSym( const string &name, int kind, int variant )
{
   static const int types[] = { T_PAR, T_PAR, T_PAR, T_SET, T_VAR, T_EQU, T_SET }, dims[] = { 1, 0, 2, 1, 1, 1, 2 };
   TSym y = mk( name, types[kind], dims[kind] );
   if( variant == 0 && kind != 1 ) return y;
   TRec r = rec( vector<string>( (size_t) y.dim, "i" ), variant );
   if( y.type == T_SET ) r.txt = variant == 1 ? "" : "t", r.v = {};
   if( y.type == T_VAR ) r.v = defVar( y.user ), r.v[0] = variant;
   if( y.type == T_EQU ) r.v = defEqu( y.user ), r.v[1] = variant;
   y.recs.push_back( r );
   return y;
}
static void scCatalogue( Ctx &c )
{
   TFile a, b;
   int nk = c.thorough ? 7 : 5;
   for( auto *f: { &a, &b } )
   {
      int n = c.choose( 3, "symbols" );
      vector<string> names { "abc", "Xy", f == &a ? "z1" : "z2" };
      int first = n ? c.choose( 3, "first name" ) : 0;
      for( int i = 0; i < n; i++ )
      {
         string nm = names[(size_t) ( first + i ) % 3];
         if( f == &b && n == 2 && i == 0 ) nm = nm == "Xy" ? "xY" : nm;
         f->syms.push_back( kindSym( nm, c.choose( i ? 3 : nk, "kind" ), i || ( !c.thorough && f == &a ) ? 1 : 1 + c.choose( 2, "variant" ) ) );
      }
   }
   DOpt o;
   vector<string> opts;
   switch( c.choose( 9, "selection" ) )
   {
      case 0: break;
      case 1: opts = { "ID=abc" }, o.hasId = true, o.ids = { "abc" }; break;
      case 2: opts = { "ID=xy,ABC" }, o.hasId = true, o.ids = { "xy", "abc" }; break;
      case 3: opts = { "SkipID=abc" }, o.hasSkip = true, o.skip = { "abc" }; break;
      case 4: opts = { "SkipID=XY", "SkipID=z1" }, o.hasSkip = true, o.skip = { "xy", "z1" }; break;
      case 5: opts = { "ID=abc xy" }, o.hasId = true, o.ids = { "xy", "abc" }; break;
      case 6: opts = { "ID=abc, z2", "SkipID=abc" }, o.hasId = o.hasSkip = true, o.ids = { "abc", "z2" }, o.skip = { "abc" }; break;
      case 7: opts = { "ID=nosuch" }, o.hasId = true, o.ids = { "nosuch" }; break;
      case 8: opts = { "ID=abc", "ID=z1" }, o.hasId = true, o.ids = { "z1", "abc" }; break;
   }
   run( c, a, b, o, opts );
}

// ---- aliases and several symbols
static void scAlias( Ctx &c )
{
   TFile a, b;
   for( auto *f: { &a, &b } )
   {
      f->uels = { "i", "j" };
      int n = c.choose( 3, "symbols before" );
      for( int i = 0; i < n; i++ ) f->syms.push_back( kindSym( fmt( "s%d", i ), i ? 3 : 6, 1 ) );
      TSym y = mk( "base", T_SET, 1 );
      int k = c.choose( 4, "elements" );
      if( k & 1 ) y.recs.push_back( rec( { "i" }, 0 ) );
      if( k & 2 ) y.recs.push_back( rec( { "j" }, 0 ) );
      if( k && c.flip( "text" ) ) y.recs[0].txt = "t";
      f->syms.push_back( y );
      int al = c.choose( 4, "alias" );
      if( al == 1 || al == 2 )
      {
         TSym z = mk( "ali", T_ALIAS, 1 );
         z.aliasOf = al == 1 ? (int) f->syms.size() : 0;
         f->syms.push_back( z );
      }
      if( al == 3 )
      {
         y.name = "ali";
         f->syms.push_back( y );
      }
   }
   DOpt o;
   vector<string> opts;
   if( c.flip( "SetDesc=N" ) ) o.settext = false, opts.push_back( "SetDesc=F" );
   run( c, a, b, o, opts );
}

// ---- labels with a meaning for the tool, upper and lower case, quotes
static void scLabels( Ctx &c )
{
   static const vector<string> P { "ins1", "dif2", "Level", "File1", "it's", "x\"y", "a b", "AB", "ab", "1", string( 63, 'q' ), "Scale" };
   TFile a, b;
   static const int types[] = { T_PAR, T_SET, T_VAR, T_EQU }, dims[] = { 1, 1, 1, 2 };
   int kind = c.choose( 4, "kind" );
   TSym y = mk( "sym", types[kind], dims[kind] ), z = y;
   for( auto *s: { &y, &z } )
   {
      int n = c.choose( 3, "records" );
      std::set<string> seen;
      for( int i = 0; i < n; i++ )
      {
         const string &l = P[(size_t) c.choose( i && !c.thorough ? 4 : (int) P.size(), "label" )];
         if( !seen.insert( low( l ) ).second ) c.prune();
         TRec r = rec( { l }, 1 + i );
         if( y.dim == 2 ) r.k = { l, i ? l : "k" };
         if( kind == 1 ) r.v = {}, r.txt = i ? "it's \"quoted" : "dif1";
         if( kind == 2 ) r.v = { 1, 2, 3, 4, 5 };
         if( kind == 3 ) r.v = { 1, 2, 3, 4, 5.0 + i };
         s->recs.push_back( r );
      }
   }
   // a quote mix is stored with one kind of quote
   for( auto *s: { &y, &z } )
      for( auto &r: s->recs )
      {
         bool q = false;
         for( auto &ch: r.txt )
            if( ch == '\'' || ch == '"' )
            {
               if( q ) ch = '\'';
               q = true;
            }
      }
   a.syms = { y };
   b.syms = { z };
   DOpt o;
   vector<string> opts;
   int k = c.choose( types[kind] == T_VAR || types[kind] == T_EQU ? 3 : 2, "option" );
   if( k == 1 ) opts.push_back( "IgnoreOrder" );
   if( k == 2 ) o.diffOnly = true, opts.push_back( "DiffOnly" );
   run( c, a, b, o, opts );
}

// ---- names used by the tool itself
static void scNames( Ctx &c )
{
   TFile a, b;
   static const char *N[] = { "FilesCompared", "FilesCompared_1", "filescompared_2", "x" };
   for( int i = 0; i < 4; i++ )
   {
      int k = c.choose( 4, "presence" );
      if( k & 1 ) a.syms.push_back( kindSym( N[i], 0, 1 ) );
      if( k & 2 ) b.syms.push_back( kindSym( N[i], 0, 1 + c.choose( 2, "variant" ) ) );
   }
   run( c, a, b, {}, {} );
}

// ---- domains
static void scDomains( Ctx &c )
{
   TFile a, b;
   for( auto *f: { &a, &b } )
   {
      TSym i = mk( "I", T_SET, 1 ), j = mk( f == &a ? "J" : "j", T_SET, 1 );
      i.recs = { rec( { "k" }, 0 ) };
      j.recs = i.recs;
      TSym y = mk( "sym", T_PAR, 2 );
      static const char *D[] = { "*", "I", "J", "K" };
      int d1 = c.choose( 4, "domain 1" ), d2 = c.choose( 4, "domain 2" );
      bool strict = d1 != 3 && d2 != 3 && ( d1 || d2 ) && c.flip( "strict" );
      if( d1 || d2 ) y.dom = { D[d1], D[d2] }, y.strict = strict;
      if( c.flip( "record" ) ) y.recs = { rec( { "k", "k" }, f == &a ? 1 : 2 ) };
      f->syms = { i, j, y };
   }
   DOpt o;
   vector<string> opts;
   if( c.flip( "CmpDomains" ) ) o.cmpDom = true, opts.push_back( "CmpDomains" );
   run( c, a, b, o, opts );
}

// ---- many dimensions
static void scDims( Ctx &c )
{
   TFile a, b;
   static const int dims[] = { 0, 1, 3, 17, 18, 19, 20 };
   int dim = dims[c.choose( 7, "dimension" )];
   static const int types[] = { T_PAR, T_SET, T_VAR, T_EQU };
   int type = types[c.choose( 4, "type" )];
   if( !dim && type == T_SET ) c.prune();
   TSym y = mk( "sym", type, dim ), z = y;
   for( auto *s: { &y, &z } )
   {
      int n = c.choose( dim ? 6 : 3, "records" );
      TRec r = rec( vector<string>( (size_t) dim, "k" ), type == T_SET ? 0 : 1 );
      if( type == T_VAR ) r.v = defVar( y.user ), r.v[0] = 3;
      if( type == T_EQU ) r.v = defEqu( y.user ), r.v[0] = 3;
      if( n == 1 || n == 4 ) s->recs.push_back( r );
      TRec q = r;
      if( type == T_SET ) q.txt = "u";
      else q.v[0] = 2;
      if( n == 2 || n == 5 ) s->recs.push_back( q );
      if( n >= 3 )
      {
         TRec t = r;
         t.k.back() = "l";
         s->recs.push_back( t );
      }
   }
   a.syms = { y };
   b.syms = { z };
   DOpt o;
   vector<string> opts;
   switch( c.choose( 4, "option" ) )
   {
      case 0: break;
      case 1: opts = { "DiffOnly" }, o.diffOnly = true; break;
      case 2: opts = { "Field=L", "FldOnly" }, o.field = 0, o.fldOnly = true; break;
      case 3: opts = { "DiffOnly", "Field=M" }, o.diffOnly = true, o.field = 1; break;
   }
   run( c, a, b, o, opts );
}

// ---- matrix files: both files have the same labels, records are compared by their label numbers
static void scMatrix( Ctx &c )
{
   TFile a, b;
   bool raw = c.flip( "without labels" );
   a.uels = b.uels = { "ins1", "e2", "e3" };
   if( raw ) a.uels = b.uels = { "l__1", "l__2", "l__700" };
   static const int types[] = { T_PAR, T_SET, T_VAR };
   int kind = c.choose( 3, "kind" ), dim = 1 + c.choose( 2, "dim" );
   TSym y = mk( "A", types[kind], dim ), z = y;
   for( auto *s: { &y, &z } )
      for( size_t i = 0; i < 3; i++ )
      {
         int v = c.choose( 3, "value" );
         if( !v ) continue;
         TRec r = rec( dim == 1 ? vector<string> { a.uels[i] } : vector<string> { a.uels[i ? 1 : 0], a.uels[i] }, v );
         if( kind == 1 ) r.v = {}, r.txt = v == 1 ? "" : "t";
         if( kind == 2 ) r.v = defVar( 5 ), r.v[0] = v;
         s->recs.push_back( r );
      }
   a.syms = { y };
   b.syms = { z };
   DOpt o;
   if( raw && c.flip( "without the option" ) )
   {
      // records that cannot be compared by label must not pass as equal
      string fa = c.path( "f1.gdx" ), fb = c.path( "f2.gdx" );
      writeRawFile( c, fa, a );
      writeRawFile( c, fb, b );
      string ba = readBytes( fa ), bb = readBytes( fb );
      bool none = y.recs.empty() && z.recs.empty();
      Run r = runTool( c, "gdxdiff", { "f1.gdx", "f2.gdx" } );
      CK( ba == readBytes( fa ) && bb == readBytes( fb ), "input-changed", "an input file was modified" );
      CK( none ? r.rc == 0 : r.rc != 0 && r.out.find( "No differences" ) == string::npos, "unlabelled", "exit code %d for files with %zu and %zu records without labels: %s", r.rc, y.recs.size(), z.recs.size(), r.out.c_str() );
      c.outcome( (uint64_t) r.rc );
      return;
   }
   vector<string> opts { "MatrixFile" };
   if( c.flip( "IgnoreOrder" ) ) opts.push_back( "IgnoreOrder" );
   run( c, a, b, o, opts, raw );
}

// ---- command lines
static void scInvocation( Ctx &c )
{
   TFile a, b;
   a.syms = { kindSym( "x", 0, 1 ) };
   b.syms = { kindSym( "x", 0, 2 ) };
   string dif = string( "\n" );
   string longer( 300, 'z' );
   struct Case
   {
      vector<string> args;
      int rc;
      const char *out;
   };
   static const vector<Case> cases {
           { {}, 2, nullptr },
           { { "f1.gdx" }, 2, nullptr },
           { { "f1.gdx", "f2.gdx" }, 1, "diffile.gdx" },
           { { "f1", "f2" }, 1, "diffile.gdx" },
           { { "f1", "f2", "out" }, 1, "out.gdx" },
           { { "f1", "f2", "out.x" }, 1, "out.x" },
           { { "f1", "f2", "Output=o2" }, 1, "o2.gdx" },
           { { "f1", "f2", "o=o3.gdx" }, 1, "o3.gdx" },
           { { "f1", "f1" }, 0, "diffile.gdx" },
           { { "f1", "nofile" }, 3, nullptr },
           { { "nofile", "f1" }, 3, nullptr },
           { { "f1", "text.gdx" }, 4, nullptr },
           { { "empty.gdx", "f2" }, 4, nullptr },
           { { "f1", "f2", "Eps=x" }, 2, nullptr },
           { { "f1", "f2", "Eps=-1" }, 2, nullptr },
           { { "f1", "f2", "RelEps=1x" }, 2, nullptr },
           { { "f1", "f2", "RelEps=-0.5" }, 2, nullptr },
           { { "f1", "f2", "Eps=2" }, 0, "diffile.gdx" },
           { { "f1", "f2", "Eps", "=", "2" }, 0, "diffile.gdx" },
           { { "f1", "f2", "Eps=0.5", "Eps=2" }, 0, "diffile.gdx" },
           { { "f1", "f2", "Field=Q" }, 2, nullptr },
           { { "f1", "f2", "FldOnly" }, 2, nullptr },
           { { "f1", "f2", "FldOnly", "Field=L", "DiffOnly" }, 2, nullptr },
           { { "f1", "f2", "SetDesc=Q" }, 2, nullptr },
           { { "f1", "f2", "IDE=1" }, 1, "diffile.gdx" },
           { { "f1", "f2", "@opt.txt" }, 0, "o4.gdx" },
           { { "f1", "f2", "@missing.txt" }, 2, nullptr },
           { { "f1", "f2", "ID=x" }, 1, "diffile.gdx" },
           { { "f1", "f2", "SkipID=x" }, 0, "diffile.gdx" },
           { { "f1", "f2", "f1.gdx" }, 1, "f1.gdx" },
           { { "f1", "f2", "nodir/out.gdx" }, 7, "tmpdifffile1.gdx" },
           { { "f1", "f2", "ID=" + string( 300, 'z' ) }, 0, "diffile.gdx" },
           { { "f1", "f2", string( 300, 'z' ) }, -1, nullptr },
           { { string( 300, 'z' ), "f2" }, 3, nullptr },
           { { "AUDIT" }, 0, nullptr },
   };
   auto &k = cases[(size_t) c.choose( (int) cases.size(), "command" )];
   bool tmp = c.flip( "temporary name taken" ), old = c.flip( "old output" );
   writeFile( c, c.path( "f1.gdx" ), a );
   writeFile( c, c.path( "f2.gdx" ), b );
   writeBytes( c.path( "text.gdx" ), "this is not a gdx file" );
   writeBytes( c.path( "empty.gdx" ), "" );
   writeBytes( c.path( "opt.txt" ), "* comment\nEps=2\nOutput=o4\n" );
   string tn = "tmpdifffile1.gdx";
   if( tmp ) writeBytes( c.path( tn ), "precious" );
   string on = k.out ? string( k.out ) : "diffile.gdx";
   if( k.rc == 7 && tmp ) on = "tmpdifffile2.gdx";
   if( old && on != "f1.gdx" && on.compare( 0, 3, "tmp" ) ) writeBytes( c.path( on ), "old" );
   string b1 = readBytes( c.path( "f1.gdx" ) ), b2 = readBytes( c.path( "f2.gdx" ) );
   Run r = runTool( c, "gdxdiff", k.args );
   if( k.rc >= 0 ) CK( r.rc == k.rc, "exit-code", "exit code %d instead of %d: %s", r.rc, k.rc, r.out.c_str() );
   CK( b2 == readBytes( c.path( "f2.gdx" ) ) && ( on == "f1.gdx" || b1 == readBytes( c.path( "f1.gdx" ) ) ), "input-changed", "an input file was modified" );
   if( tmp ) CK( readBytes( c.path( tn ) ) == "precious", "temporary", "a file of the user was overwritten" );
   else if( k.rc != 7 ) CK( access( c.path( tn ).c_str(), F_OK ), "temporary", "temporary file left behind" );
   if( k.rc != 7 ) CK( access( c.path( "tmpdifffile2.gdx" ).c_str(), F_OK ), "temporary", "temporary file left behind" );
   if( k.out )
   {
      string fn;
      auto m = readDiff( c, c.path( on ), access( c.path( on ).c_str(), R_OK ) == 0, fn );
      CK( m.size() == ( r.rc ? 2u : 1u ), "diff-content", "%zu symbols in the difference file", m.size() );
   }
   else if( old && k.rc >= 0 )
      CK( readBytes( c.path( on ) ) == "old", "overwritten", "a refused comparison replaced the old output" );
   for( auto x: { "diffile.gdx", "out.gdx", "out.x", "o2.gdx", "o3.gdx", "o4.gdx", "tmpdifffile1.gdx", "tmpdifffile2.gdx" } ) unlink( c.path( x ).c_str() );
   c.state( mc::hashStr( r.out + r.err ) );
   c.outcome( mc::hashStr( r.out + r.err ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P25";
   d.assumptions = { "the tool is linked into the checker (main renamed) and runs in its own process; the generated C interface gdxcc.c/gdxcclib.cpp is the one of the tree, dlopen is answered with the checker's own image", "a record that is the default of one of two different subtypes and present on one side only is not judged", "MatrixFile is used with files of the same labels in the same order" };
   d.sc = {
           { "records", scRecords, 3, "1 symbol (parameter, set, variable of dim 1 over 3 labels with 2..3 values each; parameter, set of dim 2 over a 2x2 grid): all pairs of contents x label orders x IgnoreOrder/CmpDefaults/Eps/SetDesc" },
           { "values", scValues, 3, "1 record: all pairs of 19 values or absent (special values, acronyms under 4 pairs of acronym tables, tiny, large and adjacent numbers) x scalar/parameter/variable field x Eps x RelEps x CmpDefaults x DiffOnly" },
           { "fields", scFields, 3, "variables (10 subtypes) and equations (7 subtypes), dim 0..1, pairs of absent/default/changed fields, same and different subtypes x Field x FldOnly/DiffOnly x CmpDefaults" },
           { "catalogue", scCatalogue, 3, "0..2 symbols per file of 5 (7) kinds under 4 names in two spellings x 9 ID/SkipID selections" },
           { "alias", scAlias, 3, "0..2 sets before, a set with all contents over 2 labels, alias of it, of the universe, or a set instead, per file" },
           { "labels", scLabels, 3, "0..2 records per file with labels the tool itself uses, different case, quotes, blanks, longest label" },
           { "names", scNames, 3, "symbols with the name of the tool's own result symbol" },
           { "domains", scDomains, 3, "all pairs of domains (universe, two sets, unknown name) strict/relaxed x data x CmpDomains" },
           { "dims", scDims, 3, "dimensions 0,1,3,17..20 x 4 types x same/different/inserted x DiffOnly/FldOnly" },
           { "matrix", scMatrix, 3, "MatrixFile: parameter, set, variable of dim 1..2: all pairs of contents over 3 cells, files with and without labels" },
           { "invocation", scInvocation, 3, "35 command lines x temporary name taken x old output present" },
   };
   return d.main( argc, argv );
}
