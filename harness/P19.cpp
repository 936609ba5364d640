// P19: objects used at the same time do not influence each other.
//
// The library is compiled with instrumented memory accesses (-fsanitize=thread) and linked with the runtime below instead of
// ThreadSanitizer's.  A session runs in a thread of its own; every write to memory that neither the thread's stack, its
// thread-local storage nor an allocation made by the session holds is a write to data shared with other objects.  Two
// sessions without such writes commute step by step, so that every schedule of them is equivalent to running one after the
// other: the partial-order reduction leaves one schedule.  Calls of two objects interleaved in one thread are enumerated.
#include <pthread.h>
#include <sys/mman.h>
#include "sessions.hpp"
#include <dlfcn.h>
using namespace gh;

// ------------------------------------------------------------------------------------------------- runtime
namespace rt
{
static char *arena = nullptr;
static size_t arenaSize = (size_t) 1 << 36, used = 0, sessionFrom = 0;
static thread_local bool mine = false;  // this thread runs a monitored session
static thread_local int depth = 0;      // inside of instrumented functions
static thread_local int guards = 0;     // inside of the initialisation of a local static
static thread_local char *stackLo, *stackHi;
static long accesses = 0;
static void *badAddr = nullptr, *badPc = nullptr;
static size_t badLen = 0;

static void init()
{
   if( !arena ) arena = (char *) mmap( nullptr, arenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
}
static inline bool inArena( const void *p ) { return arena && (char *) p >= arena && (char *) p < arena + arenaSize; }
static inline void onWrite( void *p, size_t n, void *pc )
{
   if( !mine || !n ) return;
   accesses++;
   auto c = (char *) p;
   if( c >= stackLo && c < stackHi ) return;// stack and static thread-local storage
   if( c >= arena + sessionFrom && c < arena + used ) return;
   if( guards ) return;
   if( !badAddr )
   {
      badAddr = p;
      badPc = pc;
      badLen = n;
   }
}
static inline void onLibc( void *p, size_t n, void *pc )
{
   if( mine && depth > 0 ) onWrite( p, n, pc );
}
}// namespace rt

extern "C" {
void *__libc_malloc( size_t );
void __libc_free( void * );
void *__libc_realloc( void *, size_t );
void *__libc_memalign( size_t, size_t );
static void *bump( size_t n, size_t align = 16 )
{
   rt::used = ( rt::used + align - 1 ) / align * align;
   size_t *h = (size_t *) ( rt::arena + rt::used + ( align > 16 ? align : 16 ) - sizeof( size_t ) );
   *h = n;
   rt::used += ( align > 16 ? align : 16 ) + n;
   return h + 1;
}
void *malloc( size_t n ) { return rt::mine ? bump( n ) : __libc_malloc( n ); }
void free( void *p )
{
   if( p && !rt::inArena( p ) && !rt::mine ) __libc_free( p );
   else if( p && !rt::inArena( p ) )
   {
      if( rt::depth > 0 ) rt::onWrite( p, 1, __builtin_return_address( 0 ) );// memory of somebody else
   }
}
void *calloc( size_t a, size_t b )
{
   if( !rt::mine )
   {
      void *p = __libc_malloc( a * b );
      if( p ) memset( p, 0, a * b );
      return p;
   }
   return bump( a * b );
}
void *realloc( void *p, size_t n )
{
   if( !rt::mine && !rt::inArena( p ) ) return __libc_realloc( p, n );
   void *q = malloc( n );
   if( p && rt::inArena( p ) )
   {
      size_t old = ( (size_t *) p )[-1];
      memcpy( q, p, old < n ? old : n );
   }
   return q;
}
void *memalign( size_t a, size_t n ) { return rt::mine ? bump( n, a ) : __libc_memalign( a, n ); }
void *aligned_alloc( size_t a, size_t n ) { return memalign( a, n ); }
int posix_memalign( void **p, size_t a, size_t n )
{
   *p = memalign( a, n );
   return 0;
}

#define PC __builtin_return_address( 0 )
#define RW( n )                                                                      \
   void __tsan_read##n( void * ) {}                                                  \
   void __tsan_write##n( void *p ) { rt::onWrite( p, n, PC ); }                      \
   void __tsan_unaligned_read##n( void * ) {}                                        \
   void __tsan_unaligned_write##n( void *p ) { rt::onWrite( p, n, PC ); }            \
   void __tsan_volatile_read##n( void * ) {}                                         \
   void __tsan_volatile_write##n( void *p ) { rt::onWrite( p, n, PC ); }
RW( 1 )
RW( 2 )
RW( 4 )
RW( 8 )
RW( 16 )
void __tsan_init() {}
void __tsan_func_entry( void * ) { rt::depth++; }
void __tsan_func_exit() { rt::depth--; }
void __tsan_read_range( void *, size_t ) {}
void __tsan_write_range( void *p, size_t n ) { rt::onWrite( p, n, PC ); }
void __tsan_vptr_update( void **p, void * ) { rt::onWrite( p, 8, PC ); }
void __tsan_vptr_read( void ** ) {}
// atomic operations synchronise: not a conflict by themselves
#define ATOMIC( b, T )                                                                                                                                  \
   T __tsan_atomic##b##_load( const volatile T *p, int ) { return __atomic_load_n( p, __ATOMIC_SEQ_CST ); }                                             \
   void __tsan_atomic##b##_store( volatile T *p, T v, int ) { __atomic_store_n( p, v, __ATOMIC_SEQ_CST ); }                                             \
   T __tsan_atomic##b##_exchange( volatile T *p, T v, int ) { return __atomic_exchange_n( p, v, __ATOMIC_SEQ_CST ); }                                   \
   T __tsan_atomic##b##_fetch_add( volatile T *p, T v, int ) { return __atomic_fetch_add( p, v, __ATOMIC_SEQ_CST ); }                                   \
   T __tsan_atomic##b##_fetch_sub( volatile T *p, T v, int ) { return __atomic_fetch_sub( p, v, __ATOMIC_SEQ_CST ); }                                   \
   T __tsan_atomic##b##_fetch_or( volatile T *p, T v, int ) { return __atomic_fetch_or( p, v, __ATOMIC_SEQ_CST ); }                                     \
   T __tsan_atomic##b##_fetch_and( volatile T *p, T v, int ) { return __atomic_fetch_and( p, v, __ATOMIC_SEQ_CST ); }                                   \
   T __tsan_atomic##b##_fetch_xor( volatile T *p, T v, int ) { return __atomic_fetch_xor( p, v, __ATOMIC_SEQ_CST ); }                                   \
   int __tsan_atomic##b##_compare_exchange_strong( volatile T *p, T *e, T v, int, int ) { return __atomic_compare_exchange_n( p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); } \
   int __tsan_atomic##b##_compare_exchange_weak( volatile T *p, T *e, T v, int, int ) { return __atomic_compare_exchange_n( p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST ); }
ATOMIC( 8, unsigned char )
ATOMIC( 16, unsigned short )
ATOMIC( 32, unsigned )
ATOMIC( 64, unsigned long )
void __tsan_atomic_thread_fence( int ) {}
void __tsan_atomic_signal_fence( int ) {}

// writes of the C library (the calls are not inlined: -fno-builtin)
static void copyFwd( char *d, const char *s, size_t n )
{
   asm volatile( "rep movsb" : "+D"( d ), "+S"( s ), "+c"( n )::"memory" );
}
void *memcpy( void *d, const void *s, size_t n ) noexcept
{
   rt::onLibc( d, n, PC );
   copyFwd( (char *) d, (const char *) s, n );
   return d;
}
void *memmove( void *d, const void *s, size_t n ) noexcept
{
   rt::onLibc( d, n, PC );
   if( d <= s || (char *) d >= (const char *) s + n ) copyFwd( (char *) d, (const char *) s, n );
   else
      for( volatile char *p = (char *) d + n, *q = (char *) s + n; p > (char *) d; ) *--p = *--q;
   return d;
}
void *memset( void *d, int v, size_t n ) noexcept
{
   rt::onLibc( d, n, PC );
   void *p = d;
   asm volatile( "rep stosb" : "+D"( p ), "+c"( n ) : "a"( v ) : "memory" );
   return d;
}
char *strcpy( char *d, const char *s ) noexcept
{
   memcpy( d, s, strlen( s ) + 1 );
   return d;
}
char *strncpy( char *d, const char *s, size_t n ) noexcept
{
   rt::onLibc( d, n, PC );
   size_t i = 0;
   for( ; i < n && s[i]; i++ ) ( (volatile char *) d )[i] = s[i];
   for( ; i < n; i++ ) ( (volatile char *) d )[i] = 0;
   return d;
}
char *strcat( char *d, const char *s ) noexcept
{
   strcpy( d + strlen( d ), s );
   return d;
}

// initialisation of local statics is synchronised by the compiler
typedef int ( *acqT )( long long * );
typedef void ( *relT )( long long * );
static acqT realAcq;
static relT realRel;
int __cxa_guard_acquire( long long *g ) noexcept
{
   if( !realAcq ) realAcq = (acqT) dlsym( RTLD_NEXT, "__cxa_guard_acquire" );
   int r = realAcq( g );
   if( r ) rt::guards++;
   return r;
}
void __cxa_guard_release( long long *g ) noexcept
{
   if( !realRel ) realRel = (relT) dlsym( RTLD_NEXT, "__cxa_guard_release" );
   realRel( g );
   rt::guards--;
}
}

// ------------------------------------------------------------------------------------------------- monitored sessions
struct Job
{
   std::function<void()> fn;
};
static void *threadMain( void *a )
{
   auto j = (Job *) a;
   pthread_attr_t at;
   pthread_getattr_np( pthread_self(), &at );
   void *lo;
   size_t sz;
   pthread_attr_getstack( &at, &lo, &sz );
   pthread_attr_destroy( &at );
   rt::stackLo = (char *) lo;
   rt::stackHi = (char *) lo + sz;
   rt::depth = 0;
   rt::guards = 0;
   rt::mine = true;
   j->fn();
   rt::mine = false;
   return nullptr;
}
static string symName( void *p )
{
   Dl_info i;
   if( dladdr( p, &i ) && i.dli_sname ) return fmt( "%s+%ld", i.dli_sname, (long) ( (char *) p - (char *) i.dli_saddr ) );
   if( dladdr( p, &i ) && i.dli_fname ) return fmt( "%s+0x%lx", i.dli_fname, (long) ( (char *) p - (char *) i.dli_fbase ) );
   return "?";
}
static void monitored( Ctx &c, const std::function<void()> &fn )
{
   rt::init();
   rt::sessionFrom = rt::used;
   rt::badAddr = nullptr;
   rt::accesses = 0;
   Job j { fn };
   pthread_t t;
   pthread_create( &t, nullptr, threadMain, &j );
   pthread_join( t, nullptr );
   c.steps += (uint64_t) rt::accesses;
   if( rt::badAddr ) c.fail( "shared:" + symName( rt::badPc ), fmt( "a session writes %zu bytes of memory shared with other objects: %s, written at %s", rt::badLen, symName( rt::badAddr ).c_str(), symName( rt::badPc ).c_str() ) );
}

// ------------------------------------------------------------------------------------------------- calls
struct Opn
{
   string name;
   std::function<void( Obj &, const string & )> fn;
};
static void STDC nopRaw( const int *, const double * ) {}
static int STDC nopEx( const int *, const double *, int, void * ) { return 1; }
static void STDC nopDom( int, int, void * ) {}
static const double V5[5] { 1.5, 2, 3, 4, 5 };
static void oneRec( Obj &o, int sy, bool text )
{
   char b[256];
   int n;
   if( text ) o->gdxAddSetText( "explanatory text", n );
   (void) b;
   (void) sy;
}
// calls on an object writing a file
static const vector<Opn> &writeOps()
{
   static const vector<Opn> v {
           { "str", []( Obj &o, const string &x ) {
               double v[5] { 1.5, 2, 3, 4, 5 };
               oneRec( o, 1, true );
               if( o->gdxDataWriteStrStart( ( "s" + x ).c_str(), "text", 2, T_VAR, 5 ) )
               {
                  KeyIn d( { "*", "*" } );
                  o->gdxSymbolSetDomain( d.get() );
                  for( auto k: { "b", "a ", "b" } )
                  {
                     KeyIn q( { k, "  z" } );
                     o->gdxDataWriteStr( q.get(), v );
                  }
                  o->gdxDataWriteDone();
                  int key[20];
                  for( int e = 1; e <= o->gdxDataErrorCount(); e++ ) o->gdxDataErrorRecord( e, key, v );
               }
            } },
           { "raw", []( Obj &o, const string &x ) {
               double v[5] { 1e300, 2, 3, 4, 5 };
               o->gdxUELRegisterRawStart();
               o->gdxUELRegisterRaw( ( "raw" + x ).c_str() );
               o->gdxUELRegisterRaw( "  blank  " );
               o->gdxUELRegisterRaw( "bad\t'\"" );
               o->gdxUELRegisterDone();
               if( o->gdxDataWriteRawStart( ( "r" + x ).c_str(), "text", 1, T_PAR, 0 ) )
               {
                  int k[1] { 1 };
                  o->gdxDataWriteRaw( k, v );
                  o->gdxDataWriteRaw( k, v );
                  o->gdxDataWriteDone();
               }
            } },
           { "map", []( Obj &o, const string &x ) {
               double v[5] { 0, 2, 3, 4, 5 };
               o->gdxUELRegisterMapStart();
               o->gdxUELRegisterMap( 3, ( "m" + x ).c_str() );
               o->gdxUELRegisterMap( 1, "  n" );
               o->gdxUELRegisterMap( 1, "other" );
               o->gdxUELRegisterDone();
               if( o->gdxDataWriteMapStart( ( "mm" + x ).c_str(), "text", 1, T_SET, 0 ) )
               {
                  for( int k: { 3, 1, 3, 9 } ) o->gdxDataWriteMap( &k, v );
                  o->gdxDataWriteDone();
               }
            } },
           { "dom", []( Obj &o, const string &x ) {
               double v[5] {};
               string sn = "i" + x;
               KeyIn k1( { "a" } ), k2( { "q" } ), d( { sn } );
               if( o->gdxDataWriteStrStart( sn.c_str(), "t", 1, T_SET, 0 ) )
               {
                  o->gdxDataWriteStr( k1.get(), v );
                  o->gdxDataWriteDone();
               }
               if( o->gdxDataWriteStrStart( ( "p" + x ).c_str(), "'mixed\" quotes", 1, T_PAR, 0 ) )
               {
                  o->gdxSymbolSetDomain( d.get() );
                  o->gdxDataWriteStr( k1.get(), v );
                  o->gdxDataWriteStr( k2.get(), v );
                  o->gdxDataWriteDone();
               }
               int nr = 0;
               o->gdxFindSymbol( ( "p" + x ).c_str(), nr );
               o->gdxSymbolSetDomainX( nr, d.get() );
               o->gdxAddAlias( sn.c_str(), ( "al" + x ).c_str() );
               o->gdxSymbolAddComment( nr, "comment" );
            } },
           { "labels", []( Obj &o, const string &x ) {
               int n;
               o->gdxUELRegisterStrStart();
               o->gdxUELRegisterStr( ( " st" + x ).c_str(), n );
               o->gdxUELRegisterStr( "st  ", n );
               o->gdxUELRegisterDone();
               o->gdxRenameUEL( "st", "ts " );
               int m;
               o->gdxUMFindUEL( "ts  ", n, m );
               char b[256];
               o->gdxUMUelGet( 1, b, m );
               o->gdxGetUEL( 3, b );
            } },
           { "acro", []( Obj &o, const string &x ) {
               double v[5] {};
               o->gdxAcronymAdd( ( "acr" + x ).c_str(), "acr text", 3 );
               o->gdxAcronymSetInfo( 1, "acr2", "other", 3 );
               o->gdxAcronymName( o->gdxAcronymValue( 3 ), std::array<char, 256> {}.data() );
               int n;
               if( o->gdxDataWriteStrStart( ( "a" + x ).c_str(), "t", 0, T_PAR, 0 ) )
               {
                  v[0] = o->gdxAcronymValue( 3 );
                  KeyIn k( {} );
                  o->gdxDataWriteStr( k.get(), v );
                  o->gdxDataWriteDone();
               }
               o->gdxAddSetText( string( 300, 'x' ).c_str(), n );
               o->gdxSetTextNodeNr( n, 4 );
            } },
           { "errors", []( Obj &o, const string &x ) {
               int rc, n;
               o->gdxDataWriteStrStart( "1bad", "", 1, T_PAR, 0 );
               o->gdxDataWriteStrStart( ( "bd" + x ).c_str(), "", 21, T_PAR, 0 );
               o->gdxDataReadRawStart( 1, n );
               o->gdxOpenRead( "/nonexistent", rc );
               char m[256];
               o->gdxErrorStr( rc, m );
               o->gdxErrorStr( o->gdxGetLastError(), m );
               o->gdxErrorStr( 2, m );
               o->gdxGetLastError();
            } },
           { "values", []( Obj &o, const string &x ) {
               double sv[7];
               o->gdxGetSpecialValues( sv );
               sv[0] = 7;
               o->gdxSetSpecialValues( sv );
               int s;
               o->gdxMapValue( 7, s );
               o->gdxResetSpecialValues();
               o->gdxSetReadSpecialValues( sv );
               o->gdxStoreDomainSetsSet( 0 );
               o->gdxAllowBogusDomainsSet( 1 );
               o->gdxMapAcronymsToNaNSet( 0 );
               o->gdxSetTraceLevel( 3, "trace" );
               o->gdxAddSetText( "traced", s );
               o->gdxDataWriteRawStart( "1wrong", "", 1, T_PAR, 0 );
               o->gdxSetTraceLevel( 0, "" );
               o->gdxGetMemoryUsed();
               char d[256];
               o->gdxGetDLLVersion( d );
               (void) x;
            } } };
   return v;
}
// calls on an object reading the rich file
static const vector<Opn> &readOps()
{
   static const vector<Opn> v {
           { "raw", []( Obj &o, const string & ) {
               for( int i = 0; i < 6; i++ )
               {
                  int n, k[20], df;
                  double v[5];
                  if( o->gdxDataReadRawStart( i, n ) )
                     while( o->gdxDataReadRaw( k, v, df ) ) {}
                  o->gdxDataReadDone();
               }
            } },
           { "str", []( Obj &o, const string & ) {
               for( int i = 0; i < 6; i++ )
               {
                  int n, df;
                  double v[5];
                  KeyBuf kb;
                  if( o->gdxDataReadStrStart( i, n ) )
                     while( o->gdxDataReadStr( kb.get(), v, df ) ) {}
                  o->gdxDataReadDone();
               }
            } },
           { "map", []( Obj &o, const string & ) {
               for( int i = 0; i < 6; i++ )
               {
                  int n, k[20], df;
                  double v[5];
                  if( o->gdxDataReadMapStart( i, n ) )
                     while( o->gdxDataReadMap( 0, k, v, df ) ) {}
                  o->gdxDataReadDone();
                  for( int e = 1; e <= o->gdxDataErrorCount(); e++ ) o->gdxDataErrorRecord( e, k, v );
               }
            } },
           { "register", []( Obj &o, const string & ) {
               o->gdxUELRegisterMapStart();
               o->gdxUELRegisterMap( 9, "a" );
               o->gdxUELRegisterMap( 2, " x" );
               o->gdxUELRegisterMap( 2, "y" );
               o->gdxUELRegisterDone();
               o->gdxFilterRegisterStart( 1 );
               for( int i: { 9, 2, 77 } ) o->gdxFilterRegister( i );
               o->gdxFilterRegisterDone();
               o->gdxFilterExists( 1 );
            } },
           { "filtered", []( Obj &o, const string & ) {
               for( int act: { -1, -2, 1, 5 } )
                  for( int i = 0; i < 6; i++ )
                  {
                     int n, k[20], df, fa[20];
                     double v[5];
                     for( auto &f: fa ) f = act;
                     if( o->gdxDataReadFilteredStart( i, fa, n ) )
                        while( o->gdxDataReadMap( 0, k, v, df ) ) {}
                     o->gdxDataReadDone();
                     for( int e = 1; e <= o->gdxDataErrorCount(); e++ ) o->gdxDataErrorRecordX( e, k, v );
                  }
            } },
           { "fast", []( Obj &o, const string & ) {
               for( int i = 0; i < 6; i++ )
               {
                  int n, cnt[20], len[20];
                  o->gdxDataReadRawFast( i, nopRaw, n );
                  o->gdxDataReadRawFastEx( i, nopEx, n, nullptr );
                  if( o->gdxDataReadSliceStart( i, cnt ) )
                  {
                     KeyIn any( {} );
                     o->gdxDataReadSlice( any.get(), n, nopRaw );
                     int z[20] {};
                     KeyBuf kb;
                     o->gdxDataSliceUELS( z, kb.get() );
                     o->gdxDataReadDone();
                  }
                  o->gdxSymbIndxMaxLength( i, len );
                  o->gdxGetDomainElements( i, 1, -2, nopDom, n, nullptr );
                  o->gdxGetDomainElements( i, 1, 1, nopDom, n, nullptr );
               }
            } },
           { "catalogue", []( Obj &o, const string & ) {
               auto f = dumpOpen( *o );
               int n, m;
               o->gdxUMFindUEL( "  a ", n, m );
               o->gdxFindSymbol( "P", n );
               o->gdxSymbolDim( 1 );
               o->gdxSymbMaxLength();
               o->gdxUELMaxLength();
               char b[256];
               o->gdxGetElemText( 1, b, n );
               o->gdxSetHasText( 1 );
               o->gdxUMUelInfo( n, m );
               o->gdxCurrentDim();
            } },
           { "errors", []( Obj &o, const string & ) {
               int rc, n;
               o->gdxDataWriteStrStart( "x", "", 1, T_PAR, 0 );
               o->gdxDataReadRawStart( 99, n );
               o->gdxOpenRead( "/nonexistent", rc );
               char m[256];
               o->gdxErrorStr( rc, m );
               o->gdxErrorStr( o->gdxGetLastError(), m );
            } } };
   return v;
}
static string richFile( Ctx &c, bool cmp )
{
   string fn = c.path( cmp ? "richc.gdx" : "rich.gdx" );
   if( readBytes( fn ).empty() ) baseFile( fn, cmp );
   return fn;
}

// every sequence of up to 2 (3) groups of calls on a monitored object
static void ownData( Ctx &c, int len )
{
   int kind = c.choose( 6, "write, write compressed, append, read, read compressed, failing" );
   vector<const Opn *> seq;
   const auto &ops = kind >= 3 && kind < 5 ? readOps() : writeOps();
   int n = kind == 5 ? 0 : 1 + c.choose( len, "length" );
   for( int i = 0; i < n; i++ ) seq.push_back( &c.pick( ops, "calls" ) );
   string d;
   for( auto q: seq ) d += q->name + " ";
   c.note( fmt( "kind %d: %s", kind, d.c_str() ) );
   string out = c.path( "o.gdx" ), in = richFile( c, kind == 4 );
   if( kind == 2 )
   {
      unlink( out.c_str() );
      baseFile( out, false );
   }
   auto run = [&]( const string &sfx ) {
      Obj o;
      int rc = 0;
      bool ok = false;
      switch( kind )
      {
         case 0: ok = o->gdxOpenWrite( out.c_str(), "w", rc ); break;
         case 1: ok = o->gdxOpenWriteEx( out.c_str(), "w", 1, rc ); break;
         case 2: ok = o->gdxOpenAppend( out.c_str(), "w", rc ); break;
         case 3: ok = o->gdxOpenRead( in.c_str(), rc ); break;
         case 4: ok = o->gdxOpenReadEx( in.c_str(), 1, rc ); break;
         default: ok = o->gdxOpenRead( "/nonexistent/file", rc ); break;
      }
      if( !ok )
      {
         char m[256];
         o->gdxErrorStr( rc, m );
         o->gdxClose();
         return;
      }
      int i = 0;
      for( auto q: seq ) q->fn( o, sfx + fmt( "%d", i++ ) );
      o->gdxGetLastError();
      o->gdxErrorCount();
      o->gdxClose();
   };
   monitored( c, [&] { run( "k" ); } );
}
static void own2( Ctx &c ) { ownData( c, 2 ); }
static void own3( Ctx &c ) { ownData( c, 3 ); }

// ------------------------------------------------------------------------------------------------- interleaved calls
// a session as a list of steps, each one call of the interface, delivering what the call returned
using Step = std::function<string( Obj & )>;
struct Script
{
   string name;
   vector<Step> steps;
};
static Script writer( const string &fn, bool cmp, const string &lab, bool str )
{
   Script s { fmt( "write %s%s", str ? "by strings" : "mapped", cmp ? " (compressed)" : "" ), {} };
   auto add = [&]( Step f ) { s.steps.push_back( f ); };
   add( [=]( Obj &o ) { int rc = 0; int r = cmp ? o->gdxOpenWriteEx( fn.c_str(), "w", 1, rc ) : o->gdxOpenWrite( fn.c_str(), "w", rc ); return fmt( "open %d %d", r, rc ); } );
   if( str )
   {
      add( [=]( Obj &o ) { int n = 0; int r = o->gdxAddSetText( ( "text " + lab ).c_str(), n ); return fmt( "text %d %d", r, n ); } );
      add( [=]( Obj &o ) { return fmt( "start %d", o->gdxDataWriteStrStart( "s", lab.c_str(), 1, T_SET, 0 ) ); } );
      add( [=]( Obj &o ) { double v[5] { 1 }; KeyIn k( { lab + "1" } ); return fmt( "rec %d", o->gdxDataWriteStr( k.get(), v ) ); } );
      add( [=]( Obj &o ) { double v[5] { 1 }; KeyIn k( { lab + "1" } ); return fmt( "rec %d", o->gdxDataWriteStr( k.get(), v ) ); } );
      add( [=]( Obj &o ) { int r = o->gdxDataWriteDone(), n = o->gdxDataErrorCount(); return fmt( "done %d %d", r, n ); } );
   }
   else
   {
      add( [=]( Obj &o ) { int a = o->gdxUELRegisterMapStart(), b = o->gdxUELRegisterMap( 4, ( lab + "x" ).c_str() ); return fmt( "reg %d %d", a, b ); } );
      add( [=]( Obj &o ) { return fmt( "reg %d", o->gdxUELRegisterMap( 2, ( lab + "y" ).c_str() ) ); } );
      add( [=]( Obj &o ) { int a = o->gdxUELRegisterDone(), b = o->gdxDataWriteMapStart( "p", lab.c_str(), 1, T_PAR, 0 ); return fmt( "start %d %d", a, b ); } );
      add( [=]( Obj &o ) { double v[5] { 4.5 }; int k[1] { 4 }; return fmt( "rec %d", o->gdxDataWriteMap( k, v ) ); } );
      add( [=]( Obj &o ) { double v[5] { 2.5 }; int k[1] { 7 }; int a = o->gdxDataWriteMap( k, v ); k[0] = 2; int b = o->gdxDataWriteMap( k, v ), d = o->gdxDataWriteDone(); return fmt( "rec %d %d done %d errors %d last %d", a, b, d, o->gdxDataErrorCount(), o->gdxGetLastError() ); } );
   }
   add( [=]( Obj &o ) { int r = o->gdxClose(); return fmt( "close %d\n", r ) + show( dumpFile( fn ) ); } );
   return s;
}
static Script reader( const string &fn, bool str )
{
   Script s { str ? "read strings" : "read mapped", {} };
   auto add = [&]( Step f ) { s.steps.push_back( f ); };
   add( [=]( Obj &o ) { int rc = 0; int r = o->gdxOpenRead( fn.c_str(), rc ); return fmt( "open %d %d", r, rc ); } );
   if( str )
   {
      add( [=]( Obj &o ) { int n = 0; int r = o->gdxDataReadStrStart( 2, n ); return fmt( "start %d %d", r, n ); } );
      for( int i = 0; i < 3; i++ )
         add( [=]( Obj &o ) { KeyBuf kb; double v[5] {}; int df = 0; int r = o->gdxDataReadStr( kb.get(), v, df ); return fmt( "rec %d %s %s %g %d", r, kb.ptr[0], kb.ptr[1], v[0], df ); } );
      add( [=]( Obj &o ) { int a, b, r = o->gdxUMFindUEL( "bb ", a, b ); return fmt( "find %d %d %d", r, a, b ); } );
   }
   else
   {
      add( [=]( Obj &o ) { o->gdxUELRegisterMapStart(); int r = o->gdxUELRegisterMap( 8, "a" ); return fmt( "reg %d %d", r, o->gdxUELRegisterDone() ); } );
      add( [=]( Obj &o ) { o->gdxFilterRegisterStart( 1 ); int r = o->gdxFilterRegister( 8 ); return fmt( "filter %d %d", r, o->gdxFilterRegisterDone() ); } );
      add( [=]( Obj &o ) { int n = 0, fa[20] { 1, -2 }; int r = o->gdxDataReadFilteredStart( 2, fa, n ); return fmt( "start %d %d", r, n ); } );
      add( [=]( Obj &o ) { int k[20] {}, df = 0; double v[5] {}; int r = o->gdxDataReadMap( 1, k, v, df ); return fmt( "rec %d %d %d %g", r, k[0], k[1], v[0] ); } );
      add( [=]( Obj &o ) { int k[20] {}, df = 0; double v[5] {}; int r = o->gdxDataReadMap( 1, k, v, df ); int e = o->gdxDataErrorCount(); int g = e ? o->gdxDataErrorRecord( 1, k, v ) : 0; return fmt( "rec %d errors %d %d %d %d", r, e, g, k[0], k[1] ); } );
   }
   add( [=]( Obj &o ) { string d = show( dumpOpen( *o, { false } ) ); int r = o->gdxClose(); return fmt( "close %d %d\n", r, o->gdxGetLastError() ) + d; } );
   return s;
}
static vector<Script> scripts( Ctx &c, int who )
{
   string w = c.path( fmt( "il%d.gdx", who ) );
   string lab = who ? "bob" : "ann";
   return { writer( w, false, lab, true ), writer( w, true, lab, false ), reader( richFile( c, false ), true ), reader( richFile( c, true ), false ) };
}
static void interleaved( Ctx &c )
{
   auto A = scripts( c, 0 ), B = scripts( c, 1 );
   int a = c.choose( 4, "first" ), b = c.choose( 4, "second" );
   vector<const Script *> sc { &A[(size_t) a], &B[(size_t) b] };
   // results when alone
   static thread_local std::map<int, vector<string>> solo;
   for( int w = 0; w < 2; w++ )
   {
      int key = w * 10 + ( w ? b : a );
      if( solo.count( key ) ) continue;
      vector<string> r;
      Obj o;
      for( auto &st: sc[(size_t) w]->steps ) r.push_back( st( o ) );
      solo[key] = r;
   }
   Obj o0, o1;
   size_t pos[2] {};
   string order;
   vector<string> got[2];
   while( pos[0] < sc[0]->steps.size() || pos[1] < sc[1]->steps.size() )
   {
      int w;
      if( pos[0] >= sc[0]->steps.size() ) w = 1;
      else if( pos[1] >= sc[1]->steps.size() )
         w = 0;
      else
         w = c.choose( 2, "who" );
      order += (char) ( '0' + w );
      got[w].push_back( sc[(size_t) w]->steps[pos[w]]( w ? o1 : o0 ) );
      pos[w]++;
      c.step();
   }
   c.note( fmt( "%s | %s, order %s", sc[0]->name.c_str(), sc[1]->name.c_str(), order.c_str() ) );
   c.outcome( mc::hashStr( order ) );
   for( int w = 0; w < 2; w++ )
   {
      auto &s = solo[w * 10 + ( w ? b : a )];
      for( size_t i = 0; i < s.size(); i++ )
         CK( got[w][i] == s[i], "influence", "object %d, call %zu of '%s' delivers something else when interleaved: %s", w + 1, i + 1, sc[(size_t) w]->name.c_str(), firstDiff( s[i], got[w][i] ).c_str() );
   }
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P19";
   d.sc = { { "own-data", own2, 1, "6 kinds of session x sequences of 1..2 of 8 groups of calls, every write to memory monitored" },
            { "own-data-3", own3, 2, "6 kinds of session x sequences of 1..3 of 8 groups of calls, every write to memory monitored" },
            { "interleaved", interleaved, 3, "4 x 4 sessions of 6 to 7 calls, every interleaving of their calls" } };
   d.assumptions = { "memory written inside of libstdc++, zlib and libc other than by the intercepted copy functions is not monitored" };
   return d.main( argc, argv );
}
