// P23: the C interface (and its short string, call by reference and flat string array forms, the loader and the C++
// class over it) does what the C++ object does.  Every operation with every combination of small arguments is run in
// every session phase on the object and through each interface; results, outputs, callbacks, what is observable
// afterwards and the bytes of the written file are compared.
#include "../lib/gdxh.hpp"
#include "../lib/apitab.hpp"

namespace
{
// ---- interfaces
enum Bk
{
   bObj,
   bWrap,
   bC,
   bD,
   bF,
   bCount
};
const char *bkName[] { "C++ object", "C++ class over the loaded C interface", "C functions", "short string functions", "call by reference / flat string functions" };

struct Sess
{
   Ctx &c;
   int bk;
   string dir;
   void *h {};
   string trace;
   Sess( Ctx &c_, int b, const string &d ) : c( c_ ), bk( b ), dir( d )
   {
      ::mkdir( dir.c_str(), 0777 );
      create();
   }
   void create()
   {
      if( bk == bObj )
      {
         string msg;
         h = new TGXFileObj( msg );
      }
      else if( bk == bWrap )
         h = wrapCreate();
      else
      {
         static auto xc = (void ( * )( void ** )) dlsym( RTLD_DEFAULT, "xcreate" );
         static auto gc = (int ( * )( void **, char *, int )) dlsym( RTLD_DEFAULT, "gdxcreate" );
         char m[256] = "~";
         if( bk == bD )
         {
            if( gc( &h, m, sizeof m ) != 1 || m[0] ) c.fail( "create", string( "gdxcreate does not succeed: " ) + m );
         }
         else
            xc( &h );
      }
      if( !h ) c.fail( "create", string( "no object through the " ) + bkName[bk] );
      call( "gdxAutoConvert", { I( 0 ) } );// never start the external converter
   }
   void destroy()
   {
      if( !h ) return;
      if( bk == bObj )
         delete (TGXFileObj *) h;
      else if( bk == bWrap )
         wrapDestroy( h );
      else
      {
         static auto xf = (void ( * )( void ** )) dlsym( RTLD_DEFAULT, "xfree" );
         static auto gf = (int ( * )( void ** )) dlsym( RTLD_DEFAULT, "gdxfree" );
         if( bk == bD )
         {
            if( gf( &h ) != 1 ) c.fail( "free", "gdxfree does not succeed" );
         }
         else
            xf( &h );
         if( h ) c.fail( "free", "the handle is not cleared when the object is freed" );
      }
      h = nullptr;
   }
   ~Sess()
   {
      if( h && bk == bObj ) delete (TGXFileObj *) h;
      else if( h && bk == bWrap ) wrapDestroy( h );
   }
   string subst( const string &s ) const { return !s.empty() && s[0] == '@' ? dir + "/" + s.substr( 1 ) : s; }
   // file names in messages without the directory of this session
   Res call( int op, const vector<Val> &in, int as = -1 )
   {
      Res r = call1( op, in, as );
      for( auto &o: r.outs )
         for( size_t p; ( p = o.v.find( dir + "/" ) ) != string::npos; ) o.v.replace( p, dir.size() + 1, "@" );
      return r;
   }
   Res call1( int op, vector<Val> in, int as )
   {
      if( as < 0 ) as = bk;
      for( auto &v: in ) v.s = subst( v.s );
      auto &o = ops[op];
      cbl.keys = 1;
      if( o.name == "gdxDataReadSlice" )
      {
         cbl.keys = 0;
         for( int k = 0; k < 2 && k < (int) in[0].vs.size(); k++ ) cbl.keys += in[0].vs[k].empty();
      }
      else if( o.name.rfind( "gdxDataReadRawFast", 0 ) == 0 )
         cbl.keys = in[0].i >= 0 && in[0].i < 16 ? dimOfSymbol[in[0].i] : 0;
      static int token;
      cbl.uptr = &token;
      c.step( 1 );
      switch( as )
      {
         case bObj: return o.obj( (TGXFileObj *) h, in );
         case bWrap: return wrapCall( op, h, in );
         case bD:
            if( o.d ) return o.sym( o.d, h, in, flD );
            break;
         case bF:
            if( o.f ) return o.sym( o.f, h, in, flF );
            if( o.n ) return o.sym( o.n, h, in, flN );
            break;
         default: break;
      }
      if( !o.c ) c.fail( "missing:" + o.name, o.name + " is not exported" );
      return o.sym( o.c, h, in, flC );
   }
   Res call( const char *n, const vector<Val> &in = {} ) { return call( opNr.at( n ), in ); }
   void pre( const char *n, const vector<Val> &in = {}, const char *want = "1" )
   {
      auto r = call( n, in );
      if( r.ret != want ) c.fail( string( "prefix:" ) + n, fmt( "%s as part of an ordinary session returns %s through the %s", n, r.ret.c_str(), bkName[bk] ) );
   }
};

void compare( Ctx &c, const string &op, const string &what, int bk, const Res &want, const Res &got )
{
   bool same = want.ret == got.ret && want.cb == got.cb && want.outs.size() == got.outs.size();
   for( size_t i = 0; same && i < want.outs.size(); i++ )
      same = want.outs[i].untouched ? bk == bD || got.outs[i].untouched : want.outs[i].v == got.outs[i].v;
   CK( same, "differs:" + op, "%s: through the %s: %s; C++ object: %s", what.c_str(), bkName[bk], show( got ).c_str(), show( want ).c_str() );
}

struct Trace
{
   vector<Res> r;
   string w, w2, a;
};
void finish( Sess &s, Trace &t )
{
   for( auto &p: probeOps() ) t.r.push_back( s.call( p.n, p.in ) );
   t.w = readBytes( s.dir + "/W" );
   t.w2 = readBytes( s.dir + "/W2" ) + readBytes( s.dir + "/missing" );
   t.a = readBytes( s.dir + "/A" );
   s.destroy();
}
Trace runOne( Ctx &c, int bk, int ph, const vector<Step> &st, const vector<int> &as )
{
   string dir = c.path( fmt( "b%d", bk ) );
   fresh( c, dir );
   Sess s( c, bk, dir );
   enter( s, ph );
   Trace t;
   for( size_t i = 0; i < st.size(); i++ ) t.r.push_back( s.call( st[i].op, st[i].in, as.empty() ? -1 : as[i] ) );
   finish( s, t );
   return t;
}
void compareTraces( Ctx &c, int bk, int ph, const vector<Step> &st, const Trace &want, const Trace &got )
{
   for( size_t i = 0; i < want.r.size(); i++ )
   {
      bool isOp = i < st.size();
      string op = isOp ? ops[st[i].op].name : probeOps()[i - st.size()].n;
      string what = string( "phase '" ) + phaseName[ph] + "'";
      for( size_t k = 0; k < st.size() && k <= i; k++ ) what += ": " + ops[st[k].op].name + "( " + showIn( st[k].in ) + " )";
      if( !isOp ) what += " and then " + op;
      compare( c, isOp ? op : ops[st.back().op].name + "+" + op, what, bk, want.r[i], got.r[i] );
   }
   const char *op = ops[st.back().op].name.c_str();
   CK( want.w == got.w && want.w2 == got.w2 && want.a == got.a, string( "file:" ) + op,
       "phase '%s': %s( %s ) through the %s: the files differ from those of the C++ object (%zu/%zu, %zu/%zu, %zu/%zu bytes)", phaseName[ph], op, showIn( st.back().in ).c_str(), bkName[bk],
       got.w.size(), want.w.size(), got.w2.size(), want.w2.size(), got.a.size(), want.a.size() );
}

void single( Ctx &c )
{
   buildOps();
   int ph = c.choose( phaseCount, "phase" );
   int op = c.choose( (int) ops.size(), "operation" );
   size_t k = (size_t) c.choose( (int) ops[op].combos(), "arguments" );
   vector<Step> st { { op, ops[op].args( k ) } };
   c.note( string( phaseName[ph] ) + ": " + ops[op].name + "( " + showIn( st[0].in ) + " )" );
   Trace want = runOne( c, bObj, ph, st, {} );
   for( int b = 1; b < bCount; b++ ) compareTraces( c, b, ph, st, want, runOne( c, b, ph, st, {} ) );
   c.outcome( mc::hashStr( ops[op].name + want.r[0].ret ) );
   c.state( mc::hashStr( fmt( "%d %d %s", ph, op, want.r[0].ret.c_str() ) ) );
}

// two operations in a row; the C functions take turns with the other interfaces on the same object
void pairs( Ctx &c )
{
   buildOps();
   static const vector<int> quickPhases { 2, 3, 9, 12, 13, 15 };
   int ph = c.thorough ? c.choose( phaseCount, "phase" ) : quickPhases[c.choose( (int) quickPhases.size(), "phase" )];
   int o1 = c.choose( (int) ops.size(), "first operation" );
   size_t n1 = c.thorough ? std::min<size_t>( ops[o1].combos(), 3 ) : 1;
   size_t k1 = (size_t) c.choose( (int) n1, "first arguments" );
   int o2 = c.choose( (int) ops.size(), "second operation" );
   size_t n2 = c.thorough ? std::min<size_t>( ops[o2].combos(), 3 ) : 1;
   size_t k2 = (size_t) c.choose( (int) n2, "second arguments" );
   auto spread = []( const OpRec &o, size_t k, size_t n ) { return n <= 1 ? o.combos() / 2 : k * ( o.combos() - 1 ) / ( n - 1 ); };
   vector<Step> st { { o1, ops[o1].args( spread( ops[o1], k1, n1 ) ) }, { o2, ops[o2].args( spread( ops[o2], k2, n2 ) ) } };
   c.note( string( phaseName[ph] ) + ": " + ops[o1].name + "( " + showIn( st[0].in ) + " ), " + ops[o2].name + "( " + showIn( st[1].in ) + " )" );
   Trace want = runOne( c, bObj, ph, st, {} );
   compareTraces( c, bWrap, ph, st, want, runOne( c, bWrap, ph, st, {} ) );
   // short string / by reference call first, then the C function, and the other way round
   bool d = ops[o1].d || ops[o2].d, f = ops[o1].f || ops[o1].n || ops[o2].f || ops[o2].n;
   if( d ) compareTraces( c, bD, ph, st, want, runOne( c, bD, ph, st, { bD, bC } ) );
   if( f )
   {
      compareTraces( c, bF, ph, st, want, runOne( c, bF, ph, st, { bF, bC } ) );
      compareTraces( c, bF, ph, st, want, runOne( c, bF, ph, st, { bC, bF } ) );
   }
   c.outcome( mc::hashStr( ops[o1].name + ops[o2].name + want.r[0].ret + want.r[1].ret ) );
}

// two objects at the same time: every interleaving of their calls gives each the results it has alone
struct Script
{
   const char *name;
   vector<ProbeOp> st;
};
const vector<Script> &scripts()
{
   static const vector<Script> s {
           { "write", { { "gdxOpenWrite", { S( "@W" ), S( "pr" ) } }, { "gdxDataWriteStrStart", { S( "i" ), S( "t" ), I( 1 ), I( 1 ), I( 0 ) } }, { "gdxDataWriteStr", { VS( { "a" } ), VD( { 3 } ) } }, { "gdxDataWriteDone", {} }, { "gdxClose", {} } } },
           { "read strings", { { "gdxOpenRead", { S( "@A" ) } }, { "gdxDataReadStrStart", { I( 3 ) } }, { "gdxDataReadStr", {} }, { "gdxDataReadStr", {} }, { "gdxClose", {} } } },
           { "read mapped", { { "gdxOpenRead", { S( "@A" ) } }, { "gdxSetReadSpecialValues", { VD( { 11, 12, 13, 14, 15, 16, 17 } ) } }, { "gdxDataReadSliceStart", { I( 3 ) } }, { "gdxDataReadSlice", { VS( { "", "b" } ), I( 99 ) } }, { "gdxDataSliceUELS", { VI( { 1, 0 } ) } } } },
           { "callbacks", { { "gdxOpenRead", { S( "@A" ) } }, { "gdxDataReadRawFastEx", { I( 3 ), I( 99 ) } }, { "gdxDataReadRawFastFilt", { I( 3 ), VS( { "a", "" } ), I( 99 ) } }, { "gdxGetDomainElements", { I( 3 ), I( 1 ), I( -1 ), I( 0 ) } }, { "gdxDataReadRawFast", { I( 5 ), I( 99 ) } } } },
           { "errors", { { "gdxOpenRead", { S( "@missing" ) } }, { "gdxDataReadRawStart", { I( 1 ) } }, { "gdxErrorCount", {} }, { "gdxGetLastError", {} }, { "gdxSetSpecialValues", { VD( { 1, 2, 3, 4, 5, 6, 7 } ) } } } },
           { "append", { { "gdxOpenAppend", { S( "@A" ), S( "ap" ) } }, { "gdxAddAlias", { S( "i" ), S( "al" ) } }, { "gdxSymbolGetDomainX", { I( 3 ) } }, { "gdxAcronymNextNr", { I( 20 ) } }, { "gdxClose", {} } } } };
   return s;
}
void twoObjects( Ctx &c )
{
   buildOps();
   int bkA = c.choose( bCount, "first interface" ), bkB = c.thorough ? c.choose( bCount, "second interface" ) : bC;
   int sa = c.choose( (int) scripts().size(), "first script" ), sb = c.choose( (int) scripts().size(), "second script" );
   auto &A = scripts()[sa].st, &B = scripts()[sb].st;
   static std::map<string, Trace> soloCache;
   auto solo = [&]( int si ) -> const Trace & {
      string key = c.dir + fmt( "/%d", si );
      auto it = soloCache.find( key );
      if( it != soloCache.end() ) return it->second;
      string d = c.path( "solo" );
      fresh( c, d );
      Sess s( c, bObj, d );
      Trace t;
      for( auto &p: scripts()[si].st ) t.r.push_back( s.call( p.n, p.in ) );
      finish( s, t );
      return soloCache[key] = t;
   };
   const Trace wa = solo( sa ), wb = solo( sb );
   string da = c.path( "oa" ), db = c.path( "ob" );
   fresh( c, da );
   fresh( c, db );
   Sess a( c, bkA, da ), b( c, bkB, db );
   Trace ta, tb;
   size_t i = 0, j = 0;
   // the objects come and go as part of the interleaving: the first finished one is freed at once
   while( i < A.size() || j < B.size() )
   {
      bool first = j >= B.size() || ( i < A.size() && c.choose( 2, "who" ) == 0 );
      if( first )
      {
         ta.r.push_back( a.call( A[i].n, A[i].in ) );
         if( ++i == A.size() ) finish( a, ta );
      }
      else
      {
         tb.r.push_back( b.call( B[j].n, B[j].in ) );
         if( ++j == B.size() ) finish( b, tb );
      }
   }
   auto cmp = [&]( const char *which, int bk, const vector<ProbeOp> &sc, const Trace &w, const Trace &g ) {
      for( size_t k = 0; k < w.r.size(); k++ )
      {
         string op = k < sc.size() ? sc[k].n : probeOps()[k - sc.size()].n;
         compare( c, "two:" + op, string( which ) + " object, scripts '" + scripts()[sa].name + "' and '" + scripts()[sb].name + "': " + op, bk, w.r[k], g.r[k] );
      }
      CK( w.w == g.w && w.a == g.a, "two:file", "%s object, scripts '%s' and '%s': the file differs from that of the object alone", which, scripts()[sa].name, scripts()[sb].name );
   };
   cmp( "first", bkA, A, wa, ta );
   cmp( "second", bkB, B, wb, tb );
   c.outcome( (uint64_t) ( sa * 10 + sb ) );
}

// create, free, loaded and unload in every order
void loader( Ctx &c )
{
   buildOps();
   void *h[2] {};
   bool loaded = false;
   int objects = 0, depth = c.thorough ? 7 : 5;
   struct Clean
   {
      void **h;
      ~Clean()
      {
         for( int k = 0; k < 2; k++ )
            if( h[k] ) loaderCall( 4, &h[k] );
         void *none {};
         loaderCall( 6, &none );
      }
   } clean { h };
   for( int s = 0; s < depth; s++ )
   {
      vector<std::pair<int, int>> can { { 9, 0 }, { 5, 0 }, { 6, 0 }, { 7, 0 }, { 8, 0 } };
      for( int k = 0; k < 2; k++ )
      {
         if( h[k] ) can.push_back( { 4, k } );
         else if( k == 0 || h[0] )// symmetric
            for( int w = 0; w < 4; w++ ) can.push_back( { w, k } );
      }
      auto [op, slot] = can[c.choose( (int) can.size(), "call" )];
      if( op == 9 ) break;
      bool creates = op <= 3;
      string want;
      bool wasLoaded = loaded;
      if( creates || op == 7 )
      {
         loaded = true;
         want = "1";
      }
      if( op == 4 ) want = "1";
      if( op == 5 ) want = loaded ? "1" : "0";
      if( op == 8 ) want = loaded ? "1" : "0";
      if( op == 6 )
      {
         want = objects ? "0" : "1";
         if( !objects ) loaded = false;
      }
      c.note( fmt( "call %d on handle %d", op, slot ) );
      string got = loaderCall( op, &h[slot] );
      CK( got == want, "loader", "call %d with %d objects and the library %s returns %s, expected %s", op, objects, wasLoaded ? "loaded" : "not loaded", got.c_str(), want.c_str() );
      if( creates )
      {
         objects++;
         CK( h[slot] && h[0] != h[1], "loader:handle", "call %d gives no object of its own", op );
      }
      if( op == 4 )
      {
         objects--;
         CK( !h[slot], "loader:free", "the handle is not cleared when the object is freed" );
      }
      // every living object works
      for( int k = 0; k < 2; k++ )
         if( h[k] )
         {
            auto &o = ops[opNr.at( "gdxSymbMaxLength" )];
            auto r = o.sym( o.c, h[k], {}, flC );
            CK( r.ret == "0", "loader:object", "an object does not work after call %d: %s", op, r.ret.c_str() );
         }
      c.step( 1 );
   }
}

// version and signature checks of the library
void checks( Ctx &c )
{
   buildOps();
   auto ver = (int ( * )( int, char *, int * )) dlsym( RTLD_DEFAULT, "c__xapiversion" ), dver = (int ( * )( int, char *, int * )) dlsym( RTLD_DEFAULT, "d__xapiversion" );
   auto set = (void ( * )( const char * )) dlsym( RTLD_DEFAULT, "c__gdxsetloadpath" );
   auto get = (void ( * )( char * )) dlsym( RTLD_DEFAULT, "c__gdxgetloadpath" );
   if( !ver || !dver || !set || !get ) c.fail( "missing:checks", "a version or load path function is not exported" );
   int mode = c.choose( 2, "what" );
   if( mode == 0 )
   {
      int api = c.choose( 14, "version" );
      int comp = -5, dcomp = -5;
      vector<char> m( 256, '~' ), dm( 256, '~' );
      int r = ver( api, m.data(), &comp ), dr = dver( api, dm.data(), &dcomp );
      CK( r == dr && comp == dcomp && string( m.data() ) == string( dm.data() + 1, (unsigned char) dm[0] ), "version", "version %d: %d/%d %s, short strings %d/%d", api, r, comp, m.data(), dr, dcomp );
      CK( ( comp == 0 ) == ( r == 0 ) && comp >= 0 && comp <= 3, "version:comp", "version %d: result %d with compatibility %d", api, r, comp );
      CK( ( comp == 3 ) == ( api > 11 ) && ( comp == 1 ) == ( api == 11 ), "version:level", "version %d has compatibility %d with library version 11", api, comp );
   }
   else
   {
      vector<string> paths { "", "/some/dir", "x", string( 255, 'd' ), "/longer/than/the/others" };
      int n = c.thorough ? 3 : 2;
      string last;
      for( int i = 0; i < n; i++ )
      {
         last = paths[c.choose( (int) paths.size(), "path" )];
         set( last.c_str() );
         vector<char> b( 256, '~' );
         get( b.data() );
         string got( b.data(), strnlen( b.data(), 256 ) );
         CK( got == last, "loadpath", "load path '%s' reads back as '%s'", last.c_str(), got.c_str() );
      }
   }
}
}// namespace

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P23";
   d.sc = { { "single", single, 3, "every operation x every combination of its argument domain x 22 session phases x 4 interfaces against the C++ object, with 28 follow-up calls and file bytes" },
            { "pairs", pairs, 3, "every ordered pair of operations in 6 phases with 1 argument set each (thorough: 22 phases, up to 3 x 3 argument sets), interfaces mixed on one object" },
            { "two-objects", twoObjects, 3, "all interleavings of 6 x 6 call scripts of 5 calls on two objects in 5 interfaces (thorough: 5 x 5)" },
            { "loader", loader, 3, "all sequences of create (4 ways), free, loaded, unload, ready, version calls up to depth 5 (7 thorough) on two handles" },
            { "checks", checks, 3, "client versions 0..13; all sequences of load paths up to length 2 (3)" } };
   return d.main( argc, argv );
}
