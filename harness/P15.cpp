// P15: appending keeps what is there and adds exactly the new: a history of write actions gives the same file content
// however it is cut into a first session and append sessions.
#include "gdxh.hpp"
using namespace gh;

static const vector<string> L { "i1", "i2", "i 3", "x", "new1", "new2", "new3", "last" };

struct St
{
   Obj o;
   int n = 0;// symbols so far
   vector<string> sets1;// one-dimensional sets, in order
   int acr = 0;
};
static int val( int i ) { return i * 7 + 1; }

struct Act
{
   string name;
   std::function<void( Ctx &, St &, int )> f;
};
#define OK( x ) CK( ( x ), "refused", "%s fails, error %d", #x, s.o->gdxGetLastError() )

static string nm( int pos, const char *p ) { return fmt( "%s%d", p, pos ); }
static const char **K( KeyIn &k ) { return k.get(); }

static vector<Act> acts()
{
   vector<Act> v;
   v.push_back( { "nothing", []( Ctx &, St &, int ) {} } );
   v.push_back( { "set with texts", []( Ctx &c, St &s, int p ) {
                    OK( s.o->gdxDataWriteStrStart( nm( p, "s" ).c_str(), "a set", 1, T_SET, 0 ) );
                    double d[5] {};
                    for( int i = 0; i < 3; i++ )
                    {
                       int t = 0;
                       if( i != 1 ) OK( s.o->gdxAddSetText( i == 0 ? "shared" : fmt( "text %d", p ).c_str(), t ) );
                       d[0] = t;
                       KeyIn k( { L[(size_t) ( ( p * 3 + i * 2 ) % 8 )] } );
                       OK( s.o->gdxDataWriteStr( K( k ), d ) );
                    }
                    OK( s.o->gdxDataWriteDone() );
                    s.n++;
                    s.sets1.push_back( nm( p, "s" ) );
                 } } );
   v.push_back( { "parameter over a set", []( Ctx &c, St &s, int p ) {
                    OK( s.o->gdxDataWriteStrStart( nm( p, "p" ).c_str(), "", 2, T_PAR, 0 ) );
                    string dm = s.sets1.empty() ? "*" : s.sets1.front();
                    const char *dom[20] = { dm.c_str(), "*" };
                    OK( s.o->gdxSymbolSetDomain( dom ) );
                    double d[5] { 1.5, 0, 0, 0, 0 };
                    if( s.sets1.empty() )
                    {
                       KeyIn k( { "i1", nm( p, "fresh" ) } );
                       OK( s.o->gdxDataWriteStr( K( k ), d ) );
                    }
                    OK( s.o->gdxDataWriteDone() );
                    s.n++;
                 } } );
   v.push_back( { "raw parameter", []( Ctx &c, St &s, int p ) {
                    OK( s.o->gdxUELRegisterRawStart() );
                    OK( s.o->gdxUELRegisterRaw( nm( p, "raw" ).c_str() ) );
                    OK( s.o->gdxUELRegisterDone() );
                    int sc, uc;
                    OK( s.o->gdxSystemInfo( sc, uc ) );
                    OK( s.o->gdxDataWriteRawStart( nm( p, "r" ).c_str(), "raw", 2, T_PAR, 0 ) );
                    double d[5] { (double) val( p ), 0, 0, 0, 0 };
                    for( int i = 1; i <= uc; i += 3 )
                    {
                       int k[2] = { i, uc };
                       OK( s.o->gdxDataWriteRaw( k, d ) );
                    }
                    OK( s.o->gdxDataWriteDone() );
                    s.n++;
                 } } );
   v.push_back( { "mapped variable", []( Ctx &c, St &s, int p ) {
                    OK( s.o->gdxUELRegisterMapStart() );
                    for( int i = 0; i < 8; i += 2 ) OK( s.o->gdxUELRegisterMap( 10000 - i, nm( i, "m" ).c_str() ) );// labels of their own: other calls number labels themselves within a session
                    OK( s.o->gdxUELRegisterDone() );
                    OK( s.o->gdxDataWriteMapStart( nm( p, "v" ).c_str(), "mapped", 1, T_VAR, 3 ) );
                    double d[5] { 1, 2, 3, 4, (double) p };
                    for( int i: { 4, 0, 6 } )
                    {
                       int k[1] = { 10000 - i };
                       OK( s.o->gdxDataWriteMap( k, d ) );
                    }
                    OK( s.o->gdxDataWriteDone() );
                    s.n++;
                 } } );
   v.push_back( { "alias", []( Ctx &c, St &s, int p ) {
                    OK( s.o->gdxAddAlias( s.sets1.empty() ? "*" : s.sets1.back().c_str(), nm( p, "a" ).c_str() ) );
                    s.n++;
                 } } );
   v.push_back( { "acronym value", []( Ctx &c, St &s, int p ) {
                    s.acr++;
                    OK( s.o->gdxAcronymAdd( nm( p, "acr" ).c_str(), "acro text", s.acr ) == s.acr );
                    OK( s.o->gdxDataWriteStrStart( nm( p, "q" ).c_str(), "acronyms", 1, T_PAR, 0 ) );
                    double d[5] {};
                    for( int i = 1; i <= s.acr; i++ )
                    {
                       d[0] = s.o->gdxAcronymValue( i );
                       KeyIn k( { L[(size_t) i] } );
                       OK( s.o->gdxDataWriteStr( K( k ), d ) );
                    }
                    OK( s.o->gdxDataWriteDone() );
                    s.n++;
                 } } );
   v.push_back( { "relaxed domain", []( Ctx &c, St &s, int p ) {
                    OK( s.o->gdxDataWriteStrStart( nm( p, "e" ).c_str(), "", 3, T_EQU, 54 ) );
                    double d[5] { 1, 0, 0, 0, 1 };
                    for( int i = 0; i < 3; i++ )
                    {
                       KeyIn k( { L[(size_t) i], L[(size_t) ( i + p ) % 8], "x" } );
                       d[1] = i;
                       OK( s.o->gdxDataWriteStr( K( k ), d ) );
                    }
                    OK( s.o->gdxDataWriteDone() );
                    s.n++;
                    string r = nm( p, "rel" );
                    const char *dom[20] = { r.c_str(), "*", "common" };
                    OK( s.o->gdxSymbolSetDomainX( s.n, dom ) );
                 } } );
   v.push_back( { "comment on the first symbol", []( Ctx &c, St &s, int p ) {
                    if( s.n ) OK( s.o->gdxSymbolAddComment( 1, nm( p, "comment " ).c_str() ) );
                 } } );
   v.push_back( { "relaxed domain of the first symbol", []( Ctx &c, St &s, int p ) {
                    if( !s.n ) return;
                    char id[256];
                    int dim, typ;
                    OK( s.o->gdxSymbolInfo( 1, id, dim, typ ) );
                    string r = nm( p, "late" );
                    const char *dom[20];
                    for( auto &x: dom ) x = r.c_str();
                    if( dim > 0 && typ != T_ALIAS ) s.o->gdxSymbolSetDomainX( 1, dom );// a set with a regular domain keeps it
                 } } );
   v.push_back( { "labels only", []( Ctx &c, St &s, int p ) {
                    OK( s.o->gdxUELRegisterStrStart() );
                    int n;
                    OK( s.o->gdxUELRegisterStr( nm( p, "only" ).c_str(), n ) );
                    OK( s.o->gdxUELRegisterStr( "i1", n ) );
                    OK( s.o->gdxUELRegisterDone() );
                 } } );
   v.push_back( { "scalar and empty set", []( Ctx &c, St &s, int p ) {
                    OK( s.o->gdxDataWriteStrStart( nm( p, "c" ).c_str(), "scalar", 0, T_PAR, 0 ) );
                    double d[5] { 42.5 + p, 0, 0, 0, 0 };
                    KeyIn k( {} );
                    OK( s.o->gdxDataWriteStr( K( k ), d ) );
                    OK( s.o->gdxDataWriteDone() );
                    OK( s.o->gdxDataWriteStrStart( nm( p, "z" ).c_str(), "nothing", 2, T_SET, 1 ) );
                    OK( s.o->gdxDataWriteDone() );
                    s.n += 2;
                 } } );
   v.push_back( { "rename a label", []( Ctx &, St &s, int p ) {
                    s.o->gdxRenameUEL( "x", nm( p, "renamed" ).c_str() );// refused when there is no such label
                 } } );
   return v;
}

static bool openFirst( Ctx &c, St &s, const string &fn, bool compr )
{
   int rc = 0;
   CK( compr ? s.o->gdxOpenWriteEx( fn.c_str(), "first producer", 1, rc ) : s.o->gdxOpenWrite( fn.c_str(), "first producer", rc ), "open", "rc %d", rc );
   return true;
}
static void base( Ctx &c, St &s, int kind, const vector<Act> &A )
{
   if( kind == 0 ) return;
   A[1].f( c, s, 50 );
   A[2].f( c, s, 51 );
   A[6].f( c, s, 52 );
   A[7].f( c, s, 53 );
   if( kind == 2 )
   {
      A[5].f( c, s, 54 );
      A[8].f( c, s, 55 );
      A[11].f( c, s, 56 );
   }
}

static void compose( Ctx &c, int depth, bool allBases )
{
   static const auto A = acts();
   bool compr = c.flip( "compressed" );
   int kind = allBases ? c.choose( 3, "first file" ) : 2;
   vector<int> seq, cut;
   for( int i = 0; i < depth; i++ )
   {
      seq.push_back( c.choose( (int) A.size(), "action" ) );
      cut.push_back( c.choose( 2, "new append session before it" ) );
   }
   bool any = false;
   for( int x: cut ) any |= x != 0;
   if( !any ) c.prune();
   // in one session
   string f1 = c.path( "one.gdx" ), f2 = c.path( "app.gdx" );
   {
      St s;
      openFirst( c, s, f1, compr );
      base( c, s, kind, A );
      for( int i = 0; i < depth; i++ ) A[(size_t) seq[(size_t) i]].f( c, s, i );
      CK( s.o->gdxErrorCount() == 0 || true, "x", "x" );
      CK( s.o->gdxClose() == 0, "close", "closing fails" );
   }
   St s;
   openFirst( c, s, f2, compr );
   base( c, s, kind, A );
   int cnt = s.n;
   auto reopen = [&] {
      CK( s.o->gdxClose() == 0, "close", "closing fails" );
      string before = show( dumpFile( f2 ) );
      int rc = 0;
      CK( s.o->gdxOpenAppend( f2.c_str(), "second producer", rc ) && rc == 0, "append", "cannot append: %d", rc );
      int n, u;
      CK( s.o->gdxSystemInfo( n, u ) && n == cnt, "count", "%d symbols when appending instead of %d", n, cnt );
      c.note( "append session" );
      c.state( mc::hashStr( before ) );
   };
   for( int i = 0; i < depth; i++ )
   {
      if( cut[(size_t) i] ) reopen();
      A[(size_t) seq[(size_t) i]].f( c, s, i );
      cnt = s.n;
      c.note( A[(size_t) seq[(size_t) i]].name );
   }
   CK( s.o->gdxClose() == 0, "close", "closing fails" );
   string a = show( dumpFile( f1 ) ), b = show( dumpFile( f2 ) );
   CK( a == b, "content", "appending gives different content than writing in one session: %s", firstDiff( a, b ).c_str() );
   c.outcome( mc::hashStr( b ) );
}
static void two( Ctx &c ) { compose( c, 2, true ); }
static void three( Ctx &c ) { compose( c, 3, c.thorough ); }
static void four( Ctx &c ) { compose( c, 4, false ); }

// an append session that is given up before it wrote data, or that adds nothing, leaves the content alone
static void untouched( Ctx &c )
{
   static const auto A = acts();
   bool compr = c.flip( "compressed" );
   int kind = c.choose( 3, "first file" );
   int end = c.choose( 4, "end of the session" );
   int rounds = 1 + c.choose( 3, "rounds" );
   string f = c.path( "u.gdx" );
   {
      St s;
      openFirst( c, s, f, compr );
      base( c, s, kind, A );
      CK( s.o->gdxClose() == 0, "close", "fails" );
   }
   string before = show( dumpFile( f ) ), bytes = readBytes( f );
   for( int r = 0; r < rounds; r++ )
   {
      St s;
      int rc = 0;
      CK( s.o->gdxOpenAppend( f.c_str(), "again", rc ) && rc == 0, "append", "%d", rc );
      char b[256];
      int dim, typ, n;
      if( end == 1 )
      {
         OK( s.o->gdxUMUelGet( 1, b, n ) || kind == 0 );
         s.o->gdxSymbolInfo( 1, b, dim, typ );
         CK( !s.o->gdxDataReadRawStart( 1, n ), "mode", "reading while appending" );
      }
      if( end == 2 ) continue;// destroyed without closing
      if( end == 3 )// names that exist are refused
      {
         if( kind ) CK( !s.o->gdxDataWriteStrStart( "S50", "", 1, T_SET, 0 ), "dup", "symbol written twice" );
         if( kind == 2 ) CK( !s.o->gdxAddAlias( "s50", "a54" ), "dup", "alias written twice" );
      }
      CK( s.o->gdxClose() == 0, "close", "fails" );
   }
   c.note( fmt( "kind %d end %d", kind, end ) );
   string after = show( dumpFile( f ) );
   CK( before == after, "content", "content changes: %s", firstDiff( before, after ).c_str() );
   CK( end != 2 || readBytes( f ) == bytes, "bytes", "the abandoned session changed the file" );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P15";
   string al = fmt( "%zu actions: ", acts().size() );
   for( auto &a: acts() ) al += a.name + ", ";
   d.sc = { { "two", two, 3, "all sequences of 2 actions x every division into sessions x 3 first files x compressed or not; " + al },
            { "three", three, 3, "all sequences of 3 actions x every division into up to 4 sessions (x 3 first files)" },
            { "four", four, 2, "all sequences of 4 actions x every division into up to 5 sessions" },
            { "untouched", untouched, 3, "append sessions that add nothing, are abandoned or are refused everything" } };
   d.assumptions = { "records conform to their domains: elements of sets written in earlier sessions are not available for domain checking in an append session",
                     "the content of a file written in one session is decided by P01-P12" };
   return d.main( argc, argv );
}
