// P20: an object that has been used before behaves like a new one; closing and destroying release everything.
#include "sessions.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace gh;

struct Act
{
   string name;
   std::function<void( Obj &, const std::function<string( const char * )> & )> fn;
};
static void STDC nop( const int *, const double * ) {}

static string files( Ctx &c, const char *what )
{
   string n = what;
   string fn = c.path( "f_" + n + ".gdx" );
   if( n == "missing" || n == "out" ) return fn;
   if( !readBytes( fn ).empty() ) return fn;
   Obj o;
   if( n == "rich" || n == "app" ) baseFile( fn, false );
   else if( n == "richc" )
      baseFile( fn, true );
   else if( n == "garbage" )
      writeBytes( fn, string( 500, 'g' ) );
   else if( n == "cut" )
   {
      string b = baseFile( fn, false );
      writeBytes( fn, b.substr( 0, b.size() - 60 ) );
   }
   else if( n == "dups" )
   {
      // explanatory texts stored twice need a mapping when read, one relaxed domain, labels in another order
      Session s { "x", false, false, "other", { cUels( 3, "zz" ), cStr( "q", 2, T_SET, 0, { { "b", "a" }, { "a", "b" }, { "b", "c" } }, {}, {}, { "dupA", "dupB", "dupC" } ), cRelaxed( 1, { "r1", "r2" } ), cAcronym( "acx", 3 ), cAlias( "q", "qq" ) } };
      runSession( o, s, fn );
      string b = readBytes( fn );
      size_t at = b.find( "dupB" );
      if( at != string::npos ) b[at + 3] = 'A';
      writeBytes( fn, b );
   }
   return fn;
}

static const vector<Act> &acts()
{
   using F = std::function<string( const char * )>;
   static const vector<Act> v {
           { "write", []( Obj &o, const F &f ) {
               Session s { "w", false, false, "old producer", richCalls() };
               runSession( o, s, f( "out" ) );
            } },
           { "write compressed, errors", []( Obj &o, const F &f ) {
               int rc, k[20] {}, n;
               double v[5] { 1 };
               o->gdxOpenWriteEx( f( "out" ).c_str(), "old producer", 1, rc );
               cUels( 3, "lab" )( o );
               o->gdxDataWriteStrStart( "1bad", "", 1, T_PAR, 0 );
               cStr( "p", 1, T_PAR, 0, { { "b" }, { "a" }, { "a" }, { "a" } }, { { 1 } } )( o );
               for( int e = 1; e <= o->gdxDataErrorCount(); e++ ) o->gdxDataErrorRecord( e, k, v );
               o->gdxAcronymAdd( "old", "", 4 );
               o->gdxAddSetText( "old text", n );
               o->gdxClose();
            } },
           { "write, closed in a symbol", []( Obj &o, const F &f ) {
               int rc;
               double v[5] { 1 };
               o->gdxOpenWrite( f( "out" ).c_str(), "p", rc );
               o->gdxDataWriteStrStart( "s", "", 3, T_VAR, 2 );
               KeyIn k( { "a", "b", "c" } );
               o->gdxDataWriteStr( k.get(), v );
               o->gdxClose();
            } },
           { "write, closed while registering", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenWrite( f( "out" ).c_str(), "p", rc );
               o->gdxUELRegisterRawStart();
               o->gdxUELRegisterRaw( "x" );
               o->gdxClose();
            } },
           { "write, domain violations", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenWrite( f( "out" ).c_str(), "p", rc );
               cStr( "i", 1, T_SET, 0, { { "a" } }, {} )( o );
               cStr( "p", 1, T_PAR, 0, { { "b" } }, { { 1 } }, { "i" } )( o );
               o->gdxGetLastError();
               o->gdxClose();
            } },
           { "read with filters and special values", []( Obj &o, const F &f ) {
               int rc, n, k[20], df, fa[20] { 1, 1 };
               double v[5], sv[7];
               o->gdxOpenRead( f( "rich" ).c_str(), rc );
               o->gdxUELRegisterMapStart();
               o->gdxUELRegisterMap( 5, "a" );
               o->gdxUELRegisterDone();
               o->gdxUELRegisterStrStart();
               o->gdxUELRegisterStr( "fresh", n );
               o->gdxUELRegisterDone();
               o->gdxFilterRegisterStart( 1 );
               o->gdxFilterRegister( 5 );
               o->gdxFilterRegisterDone();
               o->gdxGetSpecialValues( sv );
               for( auto &x: sv ) x = -x;
               o->gdxSetSpecialValues( sv );
               o->gdxSetReadSpecialValues( sv );
               if( o->gdxDataReadFilteredStart( 2, fa, n ) )
                  while( o->gdxDataReadMap( 1, k, v, df ) ) {}
               o->gdxDataReadDone();
               o->gdxDataReadRawStart( 99, n );
               o->gdxClose();
            } },
           { "read compressed without texts, closed in a symbol", []( Obj &o, const F &f ) {
               int rc, n, df;
               double v[5];
               KeyBuf kb;
               o->gdxOpenReadEx( f( "richc" ).c_str(), 1, rc );
               o->gdxDataReadStrStart( 2, n );
               o->gdxDataReadStr( kb.get(), v, df );
               o->gdxClose();
            } },
           { "read, closed in a slice", []( Obj &o, const F &f ) {
               int rc, n, cnt[20];
               o->gdxOpenRead( f( "dups" ).c_str(), rc );
               o->gdxDataReadSliceStart( 1, cnt );
               KeyIn any( { "", "a" } );
               o->gdxDataReadSlice( any.get(), n, nop );
               o->gdxClose();
            } },
           { "read, renamed labels and acronyms", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenRead( f( "dups" ).c_str(), rc );
               o->gdxRenameUEL( "a", "renamed" );
               o->gdxAcronymSetInfo( 1, "acx", "changed", 12 );
               o->gdxSetTextNodeNr( 1, 77 );
               o->gdxClose();
            } },
           { "append", []( Obj &o, const F &f ) {
               string fn = f( "app" );
               Session s { "a", true, false, "appender", { cStr( fmt( "n%zu", readBytes( fn ).size() ), 1, T_PAR, 0, { { "a" }, { "new" } }, { { 5 } } ), cComment( 1, "c" ) } };
               runSession( o, s, fn );
            } },
           { "missing file", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenRead( f( "missing" ).c_str(), rc );
            } },
           { "garbage", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenRead( f( "garbage" ).c_str(), rc );
            } },
           { "cut file", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenRead( f( "cut" ).c_str(), rc );
            } },
           { "cut file, append", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenAppend( f( "cut" ).c_str(), "x", rc );
            } },
           { "unwritable", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenWrite( ( f( "missing" ) + "/x/y.gdx" ).c_str(), "x", rc );
            } },
           { "open twice", []( Obj &o, const F &f ) {
               int rc;
               o->gdxOpenRead( f( "rich" ).c_str(), rc );
               o->gdxOpenRead( f( "dups" ).c_str(), rc );
               o->gdxOpenWrite( f( "out" ).c_str(), "x", rc );
               o->gdxClose();
            } },
           { "close only", []( Obj &o, const F & ) { o->gdxClose(); } },
           { "calls without a file", []( Obj &o, const F & ) {
               int n, k[20] {};
               double v[5] {};
               char b[256];
               o->gdxDataReadRawStart( 1, n );
               o->gdxDataWriteRaw( k, v );
               o->gdxUELRegisterRawStart();
               o->gdxAddSetText( "x", n );
               o->gdxGetUEL( 1, b );
            } } };
   return v;
}

// what can be asked without a file
static string idle( Obj &o )
{
   int a = -7, b = -7;
   string s;
   char t1[256], t2[256];
   auto clr = [&] {
      strcpy( t1, "~" );
      strcpy( t2, "~" );
      a = b = -7;
   };
   clr();
   int r = o->gdxSystemInfo( a, b );
   s += fmt( "system %d %d %d\n", r, a, b );
   for( int i = 0; i < 3; i++ )
   {
      clr();
      r = o->gdxSymbolInfo( i, t1, a, b );
      s += fmt( "info %d %s %d %d\n", r, t1, a, b );
      clr();
      r = o->gdxSymbolInfoX( i, a, b, t1 );
      s += fmt( "infox %d %s %d %d\n", r, t1, a, b );
      clr();
      r = o->gdxGetUEL( i, t1 );
      s += fmt( "uel %d %s\n", r, t1 );
      clr();
      r = o->gdxGetElemText( i, t1, a );
      s += fmt( "text %d %s %d\n", r, t1, a );
      clr();
      r = o->gdxAcronymGetInfo( i, t1, t2, a );
      s += fmt( "acr %d %s %s %d\n", r, t1, t2, a );
   }
   clr();
   s += fmt( "max %d %d acr %d mem %lld hastext %d exists %d\n", o->gdxSymbMaxLength(), o->gdxUELMaxLength(), o->gdxAcronymCount(), (long long) o->gdxGetMemoryUsed(), o->gdxSetHasText( 1 ), o->gdxFilterExists( 1 ) );
   r = o->gdxFileInfo( a, b );
   s += fmt( "file %d %d %d\n", r, a, b );
   clr();
   r = o->gdxFindSymbol( "i", a );
   s += fmt( "find %d %d\n", r, a );
   s += fmt( "errors %d %d\n", o->gdxErrorCount(), o->gdxDataErrorCount() );
   return s;
}
struct Probe
{
   string name;
   std::function<string( Obj &, Ctx & )> fn;
};
static string openFirst( Obj &o, int r, int rc )
{
   return fmt( "open %d %d errors %d last %d data errors %d\n", r, rc, o->gdxErrorCount(), o->gdxGetLastError(), o->gdxDataErrorCount() );
}
static string specials( Obj &o )
{
   double sv[7] {};
   o->gdxGetSpecialValues( sv );
   string s;
   for( auto x: sv ) s += fmt( "%a ", x );
   int k;
   for( double d: { sv[0], sv[2], 4e300 } )
   {
      int r = o->gdxMapValue( d, k );
      s += fmt( "%d %d ", r, k );
   }
   return s + "\n";
}
static string readAll( Obj &o )
{
   string s = show( dumpOpen( *o ) ) + specials( o );
   int a, b, n, k[20], df;
   double v[5];
   o->gdxUMUelInfo( a, b );
   s += fmt( "user %d %d filter %d\n", a, b, o->gdxFilterExists( 1 ) );
   int uel, map;
   for( auto l: { "a", "bb", "x", "renamed" } )
   {
      uel = map = -7;
      int r = o->gdxUMFindUEL( l, uel, map );
      s += fmt( "%s %d %d %d\n", l, r, uel, map );
   }
   for( int sy = 0; sy <= 2; sy++ )
   {
      int r = o->gdxDataReadMapStart( sy, n );
      s += fmt( "map %d %d:", r, n );
      if( r )
         while( o->gdxDataReadMap( 1, k, v, df ) ) s += fmt( " %d/%g", k[0], v[0] );
      o->gdxDataReadDone();
      s += fmt( " errors %d\n", o->gdxDataErrorCount() );
      int fa[20];
      for( auto &f: fa ) f = -1;
      r = o->gdxDataReadFilteredStart( sy, fa, n );
      s += fmt( "expand %d %d:", r, n );
      if( r )
         while( o->gdxDataReadMap( 1, k, v, df ) ) s += fmt( " %d/%g", k[0], v[0] );
      o->gdxDataReadDone();
      o->gdxGetLastError();
   }
   char t[256];
   for( int i = 0; i < 4; i++ )
   {
      a = -7;
      int r = o->gdxGetElemText( i, t, a );
      s += fmt( "text %d %d %s %d\n", i, r, r ? t : "", a );
   }
   s += fmt( "mem %lld\n", (long long) o->gdxGetMemoryUsed() );
   return s;
}
static const vector<Probe> &probes()
{
   static const vector<Probe> v {
           { "idle", []( Obj &o, Ctx & ) { return idle( o ); } },
           { "read", []( Obj &o, Ctx &c ) {
               int rc = -7;
               int r = o->gdxOpenRead( files( c, "rich" ).c_str(), rc );
               string s = openFirst( o, r, rc ) + readAll( o );
               r = o->gdxClose();
               return s + fmt( "close %d last %d\n", r, o->gdxGetLastError() ) + idle( o );
            } },
           { "read other, without texts", []( Obj &o, Ctx &c ) {
               int rc = -7;
               int r = o->gdxOpenReadEx( files( c, "dups" ).c_str(), 1, rc );
               string s = openFirst( o, r, rc ) + readAll( o );
               r = o->gdxClose();
               return s + fmt( "close %d\n", r );
            } },
           { "read refused", []( Obj &o, Ctx &c ) {
               string s;
               for( auto f: { "missing", "garbage", "cut" } )
               {
                  int rc = -7;
                  int r = o->gdxOpenRead( files( c, f ).c_str(), rc );
                  s += openFirst( o, r, rc );
                  s += idle( o );
               }
               return s;
            } },
           { "write", []( Obj &o, Ctx &c ) {
               int rc = -7, n;
               string fn = c.path( "probe.gdx" );
               unlink( fn.c_str() );
               int r = o->gdxOpenWrite( fn.c_str(), "probe", rc );
               string s = openFirst( o, r, rc ) + specials( o ) + idle( o );
               s += fmt( "text %d", o->gdxAddSetText( "third", n ) );
               s += fmt( " %d\n", n );
               for( auto &f: richCalls() ) s += fmt( "call %d errors %d\n", f( o ), o->gdxErrorCount() );
               s += fmt( "dup %d\n", cStr( "dup", 1, T_PAR, 0, { { "a" }, { "a" } }, { { 1 } } )( o ) );
               s += fmt( "errors %d last %d\n", o->gdxDataErrorCount(), o->gdxGetLastError() );
               r = o->gdxClose();
               s += fmt( "close %d last %d\n", r, o->gdxGetLastError() );
               return s + readBytes( fn );
            } },
           { "append", []( Obj &o, Ctx &c ) {
               string fn = c.path( "probe.gdx" );
               int rc = -7;
               writeBytes( fn, readBytes( files( c, "richc" ) ) );
               int r = o->gdxOpenAppend( fn.c_str(), "probe", rc );
               string s = openFirst( o, r, rc );
               s += fmt( "call %d\n", cStr( "nn", 1, T_SET, 0, { { "x" }, { "fresh" } }, {}, {}, { "first", "other" } )( o ) );
               s += fmt( "errors %d last %d\n", o->gdxDataErrorCount(), o->gdxGetLastError() );
               r = o->gdxClose();
               return s + fmt( "close %d\n", r ) + readBytes( fn );
            } } };
   return v;
}

static void reuse( Ctx &c, int len )
{
   int n = 1 + c.choose( len, "sessions before" );
   vector<const Act *> seq;
   string d;
   for( int i = 0; i < n; i++ )
   {
      seq.push_back( &c.pick( acts(), "session" ) );
      d += seq.back()->name + "; ";
   }
   auto f = [&]( const char *w ) { return files( c, w ); };
   static thread_local vector<string> fresh;
   if( fresh.empty() )
      for( auto &p: probes() )
      {
         Obj o;
         fresh.push_back( p.fn( o, c ) );
      }
   auto fds = openFds();
   for( size_t p = 0; p < probes().size(); p++ )
   {
      c.note( d + "then " + probes()[p].name );
      unlink( c.path( "f_app.gdx" ).c_str() );
      Obj o;
      for( auto a: seq )
      {
         c.step();
         a->fn( o, f );
         if( probes()[p].name != "idle" ) o->gdxGetLastError();
      }
      CK( openFds() == fds, "fds", "the file is still open after the session" );
      string got = probes()[p].fn( o, c );
      if( probes()[p].name == "idle" )
      {
         // counters of errors are kept until they are asked for or the next file is opened
         auto a = got.rfind( "errors " ), b = fresh[p].rfind( "errors " );
         CK( got.substr( 0, a ) == fresh[p].substr( 0, b ), "state", "differs from a new object: %s", firstDiff( fresh[p].substr( 0, b ), got.substr( 0, a ) ).c_str() );
      }
      else
         CK( got == fresh[p], "state", "differs from a new object: %s", firstDiff( fresh[p], got ).c_str() );
   }
   CK( openFds() == fds, "fds", "a file stays open" );
}
// a file with one changed byte, opened (and read or appended to, when it opens), before the probe
static void damaged( Ctx &c )
{
   bool compr = c.flip( "compressed" );
   static thread_local string base[2];
   if( base[compr].empty() ) base[compr] = baseFile( c.path( "d.gdx" ), compr );
   const string &b = base[compr];
   int pos = c.choose( (int) b.size(), "position" );
   static const int add[] { 1, 2, 255, 128, 254, 64 };
   int d = add[c.choose( c.thorough ? 6 : 3, "change" )];
   string x = b;
   x[(size_t) pos] = (char) ( x[(size_t) pos] + d );
   int how = c.choose( c.thorough ? 3 : 2, "how" );
   static thread_local vector<string> fresh;
   if( fresh.empty() )
      for( auto &p: probes() )
      {
         Obj o;
         fresh.push_back( p.fn( o, c ) );
      }
   string fn = c.path( "x.gdx" );
   c.note( fmt( "byte %d + %d, how %d", pos, d, how ) );
   auto fds = openFds();
   for( size_t p: { (size_t) 1, (size_t) 4 } )
   {
      writeBytes( fn, x );
      Obj o;
      int rc, n, k[20], df;
      double v[5];
      int r = how == 1 ? o->gdxOpenAppend( fn.c_str(), "again", rc ) : how == 2 ? o->gdxOpenReadEx( fn.c_str(), 1, rc ) : o->gdxOpenRead( fn.c_str(), rc );
      c.outcome( mc::hashStr( fmt( "%d", r ? 0 : rc ) ) );
      if( r && how != 1 )
         for( int sy = 0; sy < 3; sy++ )
         {
            if( o->gdxDataReadRawStart( sy, n ) )
               for( int i = 0; i < 100 && o->gdxDataReadRaw( k, v, df ); i++ ) {}
            o->gdxDataReadDone();
         }
      if( r ) o->gdxClose();
      o->gdxGetLastError();
      CK( openFds() == fds, "fds", "the file is still open after the session" );
      c.step( 2 );
      string got = probes()[p].fn( o, c );
      CK( got == fresh[p], "state", "%s: differs from a new object: %s", probes()[p].name.c_str(), firstDiff( fresh[p], got ).c_str() );
   }
}
static void reuse1( Ctx &c ) { reuse( c, 2 ); }
static void reuse3( Ctx &c ) { reuse( c, 3 ); }

// memory and descriptors are given back
static void leaks( Ctx &c )
{
   int n = 1 + c.choose( 2, "sessions" );
   vector<const Act *> seq;
   string d;
   for( int i = 0; i < n; i++ )
   {
      seq.push_back( &c.pick( acts(), "session" ) );
      d += seq.back()->name + "; ";
   }
   int end = c.choose( 3, "destroyed: closed, reading, writing" );
   c.note( d + fmt( "end %d", end ) );
   auto f = [&]( const char *w ) { return files( c, w ); };
   auto fds = openFds();
   size_t mem[6] {};
   for( int round = 0; round < 6; round++ )
   {
      unlink( c.path( "f_app.gdx" ).c_str() );
      files( c, "app" );
      {
         Obj o;
         int rc, k;
         for( auto a: seq ) a->fn( o, f );
         if( end == 1 )
         {
            o->gdxOpenRead( files( c, "dups" ).c_str(), rc );
            o->gdxDataReadRawStart( 1, k );
         }
         if( end == 2 )
         {
            double v[5] {};
            o->gdxOpenWriteEx( files( c, "out" ).c_str(), "x", 1, rc );
            cUels( 50, "lab" )( o );
            o->gdxDataWriteStrStart( "s", "", 1, T_SET, 0 );
            KeyIn q( { "a" } );
            o->gdxDataWriteStr( q.get(), v );
         }
         c.step();
      }
      mem[round] = __sanitizer_get_current_allocated_bytes();
      CK( openFds() == fds, "fds", "a destroyed object leaves a file open" );
   }
   string ms;
   for( auto x: mem ) ms += fmt( "%zu ", x );
   CK( mem[2] <= mem[1], "leak", "%ld bytes are lost with every object: %s", (long) ( mem[2] - mem[1] ), ms.c_str() );
}
// one object used again and again does not grow
static void growth( Ctx &c )
{
   const Act &a = c.pick( acts(), "session" );
   c.note( a.name );
   auto f = [&]( const char *w ) { return files( c, w ); };
   Obj o;
   size_t mem[6] {};
   for( int round = 0; round < 6; round++ )
   {
      unlink( c.path( "f_app.gdx" ).c_str() );
      files( c, "app" );
      a.fn( o, f );
      o->gdxGetLastError();
      c.step();
      mem[round] = __sanitizer_get_current_allocated_bytes();
   }
   CK( mem[5] <= mem[2], "growth", "the object grows by %ld bytes in three sessions", (long) ( mem[5] - mem[2] ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P20";
   d.sc = { { "reuse", reuse1, 1, "1..2 of 18 earlier sessions (complete, failed, closed half-way) x 6 probe sessions compared with a new object" },
            { "reuse-3", reuse3, 2, "1..3 of 18 earlier sessions x 6 probe sessions" },
            { "damaged", damaged, 3, "before the probe an attempt with a file with one changed byte: every position x 3 (thorough 6) changes x read, append (thorough also without texts), compressed and not; probes reading and writing" },
            { "leaks", leaks, 3, "1..2 of 18 sessions x 3 ways to destroy the object: allocated bytes and descriptors" },
            { "growth", growth, 3, "each of 18 sessions repeated 6 times on one object" } };
   d.assumptions = { "the version date in file headers does not change during the run" };
   return d.main( argc, argv );
}
