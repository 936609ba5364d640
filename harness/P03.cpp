// P03: the symbol catalogue survives exactly as declared; refused declarations change nothing.
#include "gdxh.hpp"
using namespace gh;

static string upper( string s )
{
   for( auto &ch: s ) ch = (char) toupper( (unsigned char) ch );
   return s;
}
static string lower( string s )
{
   for( auto &ch: s ) ch = (char) tolower( (unsigned char) ch );
   return s;
}
static bool goodIdent( const string &s )
{
   if( s.empty() || s.size() > 63 || !isalpha( (unsigned char) s[0] ) ) return false;
   for( char ch: s )
      if( !isalnum( (unsigned char) ch ) && ch != '_' ) return false;
   return true;
}
static string goodText( string s )
{
   if( s.size() > 255 ) s = "String overflow: " + s.substr( 0, 235 ) + "...";
   char q = 0;
   for( auto &ch: s )
   {
      if( ch == '"' || ch == '\'' )
      {
         if( !q ) q = ch;
         ch = q;
      }
      else if( (unsigned char) ch < 32 )
         ch = '?';
   }
   return s;
}

struct MS
{
   string name, text;
   int dim {}, type {}, user {}, cnt {};
   vector<string> comments;
   bool alias {};
};
struct M
{
   vector<MS> sy;
   vector<string> acr;
   int find( const string &n )
   {
      for( size_t i = 0; i < sy.size(); i++ )
         if( lower( sy[i].name ) == lower( n ) ) return (int) i + 1;
      return 0;
   }
   bool goodNew( const string &n )
   {
      if( find( n ) || !goodIdent( n ) ) return false;
      for( auto &a: acr )
         if( lower( a ) == lower( n ) ) return false;
      return true;
   }
};

static void checkCatalogue( Ctx &c, Obj &o, M &m, const vector<string> &probe, bool reading )
{
   int ns, nu;
   o->gdxSystemInfo( ns, nu );
   CK( ns == (int) m.sy.size(), "count", "%d symbols listed, expected %zu", ns, m.sy.size() );
   size_t ml = 0;
   for( size_t i = 0; i < m.sy.size(); i++ )
   {
      auto &s = m.sy[i];
      char id[256], tx[256];
      memset( id, '~', 255 );
      id[255] = 0;
      memset( tx, '~', 255 );
      tx[255] = 0;
      int d = -9, t = -9, cnt = -9, ui = -9;
      int nr = (int) i + 1;
      CK( o->gdxSymbolInfo( nr, id, d, t ), "info", "SymbolInfo(%d) failed", nr );
      CK( s.name == id, "name", "symbol %d is called %s, declared %s", nr, id, s.name.c_str() );
      CK( d == s.dim && t == s.type, "dim-type", "symbol %s has dim %d type %d, declared %d %d", id, d, t, s.dim, s.type );
      CK( o->gdxSymbolDim( nr ) == s.dim, "symboldim", "SymbolDim(%d) wrong", nr );
      CK( o->gdxSymbolInfoX( nr, cnt, ui, tx ), "infox", "SymbolInfoX(%d) failed", nr );
      CK( ui == s.user, "userinfo", "symbol %s has subtype %d, declared %d", id, ui, s.user );
      CK( s.text == tx, "text", "symbol %s has text <%s>, expected <%s>", id, tx, s.text.c_str() );
      CK( cnt == ( s.dim == 0 ? 1 : s.cnt ), "reccount", "symbol %s announces %d records, expected %d", id, cnt, s.dim == 0 ? 1 : s.cnt );
      for( size_t k = 0; k <= s.comments.size(); k++ )
      {
         char cm[256];
         memset( cm, '~', 255 );
         cm[255] = 0;
         int g = o->gdxSymbolGetComment( nr, (int) k + 1, cm );
         if( k < s.comments.size() )
            CK( g && s.comments[k] == cm, "comment", "comment %zu of %s is <%s> (%d), written <%s>", k + 1, id, cm, g, s.comments[k].c_str() );
         else
            CK( !g && !cm[0], "comment-extra", "symbol %s has an extra comment <%s>", id, cm );
      }
      CK( !o->gdxSymbolGetComment( nr, 0, tx ), "comment-zero", "comment number 0 exists" );
      for( auto n: { s.name, upper( s.name ), lower( s.name ) } )
      {
         int f = -9;
         CK( o->gdxFindSymbol( n.c_str(), f ) && f == nr, "find", "looking up %s gives %d, expected %d", n.c_str(), f, nr );
      }
      ml = std::max( ml, s.name.size() );
   }
   CK( o->gdxSymbMaxLength() == (int) ml, "maxlen", "longest symbol name reported as %d, is %zu", o->gdxSymbMaxLength(), ml );
   for( auto &p: probe )
   {
      int f = -9, g = o->gdxFindSymbol( p.c_str(), f ), e = m.find( p );
      if( p == "*" ) CK( g && f == 0, "find-universe", "the universe is not found as number 0" );
      else if( e )
         CK( g && f == e, "find", "looking up %s gives %d, expected %d", p.c_str(), f, e );
      else
         CK( !g && f < 1, "find-phantom", "looking up the undeclared name <%s> gives %d", p.c_str(), f );
   }
   char id[256];
   int d, t;
   CK( !o->gdxSymbolInfo( ns + 1, id, d, t ) && !o->gdxSymbolInfo( -1, id, d, t ), "info-range", "SymbolInfo answers for a symbol that does not exist" );
   CK( o->gdxSymbolDim( ns + 1 ) == -1 && o->gdxSymbolDim( -3 ) == -1 && o->gdxSymbolDim( 0 ) == 1, "dim-range", "SymbolDim out of range" );
   CK( o->gdxSymbolInfo( 0, id, d, t ) && !strcmp( id, "*" ) && d == 1 && t == T_SET, "info-universe", "SymbolInfo(0) does not describe the universe" );
   (void) reading;
}

static const string L63( 63, 'n' ), L64( 64, 'n' ), T255( 255, 't' ), T256( 256, 'q' ), T300 = "begin'" + string( 300, 'z' ) + "\"end";

struct Decl
{
   const char *name;
   int dim, type, user, rec, mode;
   const string text;
};
static const vector<Decl> DECL {
        { "i", 1, T_SET, 0, 1, 0, "set i" },
        { "I", 1, T_SET, 1, 0, 1, "other case" },
        { "Par_9", 2, T_PAR, -7, 2, 0, "mixed \"a\" 'b' \"c\"" },
        { "scal", 0, T_PAR, 0, 1, 0, "tab\there 'q'" },
        { "Vx", 1, T_VAR, 5, 1, 2, T255 },
        { "eq", 3, T_EQU, 53, 1, 0, T256 },
        { L63.c_str(), 20, T_PAR, 1, 0, 1, T300 },
        { "j", 1, T_SET, 0, 0, 0, "" },
        { "i2", 2, T_SET, 0, 1, 0, "two-dimensional" } };
static const vector<Decl> BADDECL {
        { L64.c_str(), 1, T_PAR, 0, 0, 0, "x" },
        { "", 1, T_PAR, 0, 0, 0, "x" },
        { "1a", 1, T_PAR, 0, 0, 1, "x" },
        { "_a", 1, T_PAR, 0, 0, 2, "x" },
        { "a b", 1, T_PAR, 0, 0, 0, "x" },
        { "a-b", 1, T_PAR, 0, 0, 0, "x" },
        { "*", 1, T_SET, 0, 0, 0, "x" },
        { "ok1", -1, T_PAR, 0, 0, 0, "x" },
        { "ok1", 21, T_PAR, 0, 0, 1, "x" },
        { "ok1", 1, -1, 0, 0, 0, "x" },
        { "ok1", 1, 4, 0, 0, 2, "x" },
        { "ok1", 1, 5, 0, 0, 0, "x" },
        { "a\xc3\xa9", 1, T_PAR, 0, 0, 0, "x" } };
static const vector<std::pair<const char *, const char *>> ALIAS {
        { "i", "al" }, { "AL", "al2" }, { "al3", "I" }, { "*", "uni" }, { "uni2", "*" }, { "Par_9", "bad1" }, { "i", "1bad" }, { "nosuch", "nosuch2" }, { "*", "*" }, { "i", "scal" }, { "i2", "al4" }, { "AL4", "al5" }, { "al6", "al5" }, { "uni", "uni3" } };

static int start( Obj &o, const Decl &d )
{
   switch( d.mode )
   {
      case 0: return o->gdxDataWriteStrStart( d.name, d.text.c_str(), d.dim, d.type, d.user );
      case 1: return o->gdxDataWriteRawStart( d.name, d.text.c_str(), d.dim, d.type, d.user );
      default: return o->gdxDataWriteMapStart( d.name, d.text.c_str(), d.dim, d.type, d.user );
   }
}
static const vector<string> PROBE { "i", "I", "j", "J", "al", "AL", "al2", "al3", "al4", "al5", "al6", "uni", "uni2", "UNI3", "Par_9", "par_9", "PAR_9x", "scal", "ok1", "1a", "", "a b", "nosuch", "*", "Vx", "v", L63, L64, "acro" };

static void declare( Ctx &c, Obj &o, M &m, const Decl &d, bool inSymbolComment )
{
   bool good = m.goodNew( d.name ) && d.dim >= 0 && d.dim <= 20 && d.type >= 0 && d.type <= 3;
   int e0 = o->gdxErrorCount();
   int r = start( o, d );
   c.note( fmt( "declare <%s> dim %d type %d -> %d", d.name, d.dim, d.type, r ) );
   CK( ( r != 0 ) == good, good ? "decl-refused" : "decl-accepted", "declaration of <%s> dim %d type %d gives %d, expected %s", d.name, d.dim, d.type, r, good ? "success" : "refusal" );
   if( !good )
   {
      CK( o->gdxErrorCount() > e0, "decl-noerror", "refused declaration of <%s> reports no error", d.name );
      CK( o->gdxGetLastError() != 0, "decl-noerror", "refused declaration of <%s> leaves no error", d.name );
      return;
   }
   MS s;
   s.name = d.name;
   s.text = goodText( d.text );
   s.dim = d.dim;
   s.type = d.type;
   s.user = d.user;
   for( int k = 0; k < d.rec; k++ )
   {
      double v[5] = { 0, 0, 0, 0, 0 };
      vector<string> ks( (size_t) d.dim, k ? "e2" : "e1" );
      KeyIn ki( ks );
      int ik[20];
      for( auto &x: ik ) x = k + 1;
      int ok = d.mode == 0 ? o->gdxDataWriteStr( ki.get(), v ) : d.mode == 1 ? o->gdxDataWriteRaw( ik, v ) : o->gdxDataWriteMap( ik, v );
      CK( ok, "record", "record refused" );
      s.cnt++;
   }
   if( inSymbolComment )
   {
      CK( o->gdxSymbolAddComment( 0, "inside" ), "comment-current", "comment for the current symbol refused" );
      s.comments.push_back( "inside" );
   }
   CK( o->gdxDataWriteDone(), "done", "DataWriteDone failed" );
   m.sy.push_back( s );
}

static void alias( Ctx &c, Obj &o, M &m, const std::pair<const char *, const char *> &a )
{
   auto known = [&]( const char *n ) { return !strcmp( n, "*" ) ? -1 : m.find( n ); };
   int k1 = known( a.first ), k2 = known( a.second );
   bool good = ( k1 != 0 ) != ( k2 != 0 );
   int target = 0;
   string nn;
   if( good )
   {
      target = k1 != 0 ? k1 : k2;
      nn = k1 != 0 ? a.second : a.first;
      if( target > 0 && m.sy[(size_t) target - 1].type != T_SET && m.sy[(size_t) target - 1].type != T_ALIAS ) good = false;
      if( !m.goodNew( nn ) ) good = false;
   }
   int e0 = o->gdxErrorCount();
   int r = o->gdxAddAlias( a.first, a.second );
   c.note( fmt( "alias(%s,%s) -> %d", a.first, a.second, r ) );
   CK( ( r != 0 ) == good, good ? "alias-refused" : "alias-accepted", "AddAlias(%s,%s) gives %d, expected %s", a.first, a.second, r, good ? "success" : "refusal" );
   if( !good )
   {
      CK( o->gdxErrorCount() > e0 && o->gdxGetLastError() != 0, "alias-noerror", "refused alias leaves no error" );
      return;
   }
   MS s;
   s.name = nn;
   s.type = T_ALIAS;
   s.alias = true;
   s.user = target > 0 ? target : 0;
   s.dim = target > 0 ? m.sy[(size_t) target - 1].dim : 1;
   s.text = "Aliased with " + ( target > 0 ? m.sy[(size_t) target - 1].name : string( "*" ) );
   m.sy.push_back( s );
}

static const vector<string> COMM { "plain comment", "", T255, T300, string( "quotes ' and \" and \t" ) };
static void comment( Ctx &c, Obj &o, M &m, int nr, const string &t )
{
   bool good = nr >= 1 && nr <= (int) m.sy.size();
   int e0 = o->gdxErrorCount();
   int r = o->gdxSymbolAddComment( nr, t.c_str() );
   c.note( fmt( "comment(%d, %zu chars) -> %d", nr, t.size(), r ) );
   CK( ( r != 0 ) == good, "comment-result", "AddComment(%d) gives %d with %zu symbols", nr, r, m.sy.size() );
   if( good ) m.sy[(size_t) nr - 1].comments.push_back( t.substr( 0, 255 ) );
   else
      CK( o->gdxErrorCount() > e0 && o->gdxGetLastError() != 0, "comment-noerror", "refused comment leaves no error" );
}

static void finish( Ctx &c, Obj &o, M &m, const string &fn, const vector<string> &probe )
{
   int rc = o->gdxClose();
   CK( rc == 0, "close", "close reports %d", rc );
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen, error %d", rc );
   checkCatalogue( c, r, m, probe, true );
   CK( r->gdxErrorCount() == 0, "read-errors", "catalogue queries count %d errors", r->gdxErrorCount() );
   r->gdxClose();
   string s;
   for( auto &y: m.sy ) s += fmt( "%s/%d/%d/%d/%zu;", y.name.c_str(), y.dim, y.type, y.user, y.comments.size() );
   c.state( mc::hashStr( s ) );
}

static void open( Ctx &c, Obj &o, const string &fn, int compr, const char *prod )
{
   int rc;
   CK( o->gdxOpenWriteEx( fn.c_str(), prod, compr, rc ), "open", "open failed: %d", rc );
   o->gdxUELRegisterMapStart();
   CK( o->gdxUELRegisterMap( 1, "e1" ) && o->gdxUELRegisterMap( 2, "e2" ), "register", "register failed" );
   o->gdxUELRegisterDone();
}

// every sequence of declarations, aliases, comments, legal and illegal
static void sequences( Ctx &c )
{
   int depth = c.thorough ? 4 : 3;
   M m;
   Obj o;
   string fn = c.path( "f.gdx" );
   open( c, o, fn, 0, "prod" );
   int nOps = (int) ( DECL.size() + BADDECL.size() + ALIAS.size() ) + 3;
   for( int i = 0; i < depth; i++ )
   {
      int k = c.choose( nOps, "operation" );
      size_t u = (size_t) k;
      if( u < DECL.size() ) declare( c, o, m, DECL[u], i == 1 );
      else if( ( u -= DECL.size() ) < BADDECL.size() )
         declare( c, o, m, BADDECL[u], false );
      else if( ( u -= BADDECL.size() ) < ALIAS.size() )
         alias( c, o, m, ALIAS[u] );
      else if( ( u -= ALIAS.size() ) == 0 )
         comment( c, o, m, (int) m.sy.size(), "late comment" );
      else if( u == 1 )
         comment( c, o, m, (int) m.sy.size() + 1, "nobody" );
      else
      {// an acronym occupies its name
         if( m.goodNew( "acro" ) )
         {
            CK( o->gdxAcronymAdd( "acro", "t", 5 ) == 1, "acronym", "AcronymAdd failed" );
            m.acr.push_back( "acro" );
         }
         declare( c, o, m, Decl { "Acro", 1, T_PAR, 0, 0, 0, "conflict" }, false );
      }
      checkCatalogue( c, o, m, PROBE, false );
   }
   finish( c, o, m, fn, PROBE );
}

// alias chains and comments on top of a base of declared symbols
static void aliases( Ctx &c )
{
   M m;
   Obj o;
   string fn = c.path( "f.gdx" );
   open( c, o, fn, c.flip( "compress" ), "prod" );
   declare( c, o, m, DECL[0], false );
   declare( c, o, m, DECL[2], true );
   declare( c, o, m, DECL[8], false );
   int depth = c.thorough ? 5 : 4;
   for( int i = 0; i < depth; i++ )
   {
      int k = c.choose( (int) ALIAS.size() + 1, "alias" );
      if( k == (int) ALIAS.size() ) declare( c, o, m, DECL[7], false );
      else
         alias( c, o, m, ALIAS[(size_t) k] );
      checkCatalogue( c, o, m, PROBE, false );
   }
   comment( c, o, m, (int) m.sy.size(), "on the last" );
   finish( c, o, m, fn, PROBE );
}

// sets of every dimension, each with an alias and an alias of that
static void aliasShapes( Ctx &c )
{
   M m;
   Obj o;
   string fn = c.path( "f.gdx" );
   open( c, o, fn, c.flip( "compress" ), "prod" );
   const int dim = 1 + c.choose( 20, "dimension" ), mode = c.choose( 3, "mode" );
   declare( c, o, m, DECL[0], false );
   declare( c, o, m, Decl { "big", dim, T_SET, 0, 1, mode, "of some dimension" }, false );
   alias( c, o, m, c.flip( "order" ) ? std::make_pair( "first", "BIG" ) : std::make_pair( "big", "first" ) );
   alias( c, o, m, { "first", "second" } );
   alias( c, o, m, { "third", "i" } );
   checkCatalogue( c, o, m, PROBE, false );
   finish( c, o, m, fn, PROBE );
}

static void comments( Ctx &c )
{
   M m;
   Obj o;
   string fn = c.path( "f.gdx" );
   open( c, o, fn, c.flip( "compress" ), "prod" );
   declare( c, o, m, DECL[0], false );
   declare( c, o, m, DECL[4], false );
   int depth = c.thorough ? 4 : 3;
   for( int i = 0; i < depth; i++ )
   {
      int sy = c.choose( 4, "symbol" );
      int t = c.choose( (int) COMM.size(), "comment" );
      comment( c, o, m, sy, COMM[(size_t) t] );
      checkCatalogue( c, o, m, PROBE, false );
   }
   finish( c, o, m, fn, PROBE );
}

// explanatory texts and header strings of every length and quoting
static void texts( Ctx &c )
{
   M m;
   Obj o;
   string fn = c.path( "f.gdx" );
   int plen = c.choose( 4, "producer length" );
   static const int pl[] { 0, 1, 254, 255 };
   string prod( (size_t) pl[plen], 'P' );
   open( c, o, fn, plen & 1, prod.c_str() );
   static const int lens[] { 0, 1, 2, 62, 63, 64, 127, 128, 253, 254, 255, 256, 257, 300, 600 };
   int len = lens[c.choose( 15, "length" )];
   int pat = c.choose( 6, "pattern" );
   static const char *pats[] { "abc", "'\"", "\"'", "a'b\"c", "x\ty\nz", "\x7f\xc3\xa4" };
   string t;
   while( (int) t.size() < len ) t += pats[pat][t.size() % strlen( pats[pat] )];
   declare( c, o, m, Decl { "p", 1, T_PAR, 0, 1, 0, t }, false );
   int mode = c.choose( 3, "mode" );
   declare( c, o, m, Decl { "q", 1, T_SET, 0, 1, mode, t }, false );
   comment( c, o, m, 1, t );
   checkCatalogue( c, o, m, PROBE, false );
   finish( c, o, m, fn, PROBE );
   Obj r;
   int rc, fv, cl;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen" );
   char a[256], b[256];
   CK( r->gdxFileVersion( a, b ) && prod == b, "producer", "producer read as <%s>", b );
   CK( r->gdxFileInfo( fv, cl ) && fv == 7 && cl == ( plen & 1 ), "fileinfo", "file info says version %d compression %d", fv, cl );
   r->gdxClose();
}

// many symbols: lookups across the growth of the name table
static void large( Ctx &c )
{
   static const vector<int> sizes { 1, 2, 99, 100, 996, 997, 998, 1499, 1500, 1501, 4000 };
   vector<int> sz = sizes;
   if( c.thorough ) sz.insert( sz.end(), { 14999, 15000, 15001, 30000 } );
   int n = sz[(size_t) c.choose( (int) sz.size(), "symbols" )];
   int shape = c.choose( 3, "names" );
   auto nm = [&]( int i ) { return shape == 0 ? fmt( "s%d", i ) : shape == 1 ? fmt( "S%06dabc", i * 7 ) : fmt( "%c%c%d", 'a' + i % 26, 'Z' - ( i / 26 ) % 26, i / 676 ); };
   Obj o;
   string fn = c.path( "l.gdx" );
   int rc;
   CK( o->gdxOpenWriteEx( fn.c_str(), "p", 0, rc ), "open", "open failed" );
   for( int i = 0; i < n; i++ )
   {
      double v = i;
      CK( o->gdxDataWriteRawStart( nm( i ).c_str(), "", 0, T_PAR, i ), "start", "symbol %d refused", i );
      CK( o->gdxDataWriteRaw( nullptr, &v ) && o->gdxDataWriteDone(), "write", "write failed" );
      int f;
      CK( o->gdxFindSymbol( upper( nm( i ) ).c_str(), f ) && f == i + 1, "find", "symbol %s found as %d, expected %d", nm( i ).c_str(), f, i + 1 );
      if( i % 50 == 0 ) CK( !o->gdxDataWriteRawStart( lower( nm( i / 2 ) ).c_str(), "", 0, T_PAR, 0 ), "dup", "duplicate accepted" );
   }
   for( int i = 0; i < n; i++ )
   {
      int f;
      CK( o->gdxFindSymbol( nm( i ).c_str(), f ) && f == i + 1, "find", "symbol %s found as %d, expected %d", nm( i ).c_str(), f, i + 1 );
   }
   CK( o->gdxClose() == 0, "close", "close failed" );
   c.note( fmt( "%d symbols shape %d", n, shape ) );
   c.step( (uint64_t) n * 4 );
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen" );
   for( int i = 0; i < n; i++ )
   {
      int f, d, t;
      char id[256];
      CK( r->gdxFindSymbol( lower( nm( i ) ).c_str(), f ) && f == i + 1, "find", "symbol %s found as %d, expected %d", nm( i ).c_str(), f, i + 1 );
      CK( r->gdxSymbolInfo( i + 1, id, d, t ) && nm( i ) == id, "name", "symbol %d is %s", i + 1, id );
   }
   int f;
   CK( !r->gdxFindSymbol( "nosuchsymbol", f ), "find-phantom", "phantom symbol" );
   r->gdxClose();
   c.state( mc::mix( (uint64_t) n, (uint64_t) shape ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P03";
   d.sc = { { "sequences", sequences, 3, "all sequences of 3 (thorough 4) operations over 9 legal declarations, 13 illegal ones, 14 alias requests, comments and acronym name conflicts; full catalogue check after every operation and after reopening" },
            { "aliases", aliases, 3, "all sequences of 4 (thorough 5) alias requests over a base of 3 symbols (also chains of aliases of a set with two dimensions and of the universe), compression on/off" },
            { "alias shapes", aliasShapes, 3, "aliases of sets of dimension 1..20, 3 write modes, compression on/off" },
            { "comments", comments, 3, "all sequences of 3 (4) comments over 4 symbol numbers x 5 texts" },
            { "texts", texts, 3, "15 lengths x 6 patterns of explanatory text, 4 producer lengths, 3 write modes" },
            { "large", large, 3, "11 symbol counts (thorough 15, up to 30000) around name table growth x 3 name shapes" } };
   d.assumptions = { "producer names up to the documented 255 characters" };
   return d.main( argc, argv );
}
