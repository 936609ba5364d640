// Typed calls of the operations of a GDX object with recorded results.  The signature of the C++ operation decides what
// is input and what is output; the same arguments are passed to the C, short string and call by reference interfaces.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#include <tuple>
#include <utility>
#include <vector>

namespace p23
{
struct Val
{
   int i {};
   double d {};
   std::string s;
   std::vector<int> vi;
   std::vector<double> vd;
   std::vector<std::string> vs;
};
struct Out
{
   std::string v;
   bool untouched;// an output string the call left alone
};
struct Res
{
   std::string ret, cb;
   std::vector<Out> outs;
};
enum Fl
{
   flC,
   flD,
   flF,
   flN
};
// what the callbacks see
struct CbLog
{
   std::string s;
   int keys {}, calls {}, stopAfter {};
   void *uptr {};
   void rec( const int *k, const double *v )
   {
      char b[64];
      s += "(";
      for( int i = 0; i < keys; i++ )
      {
         snprintf( b, sizeof b, "%d ", k[i] );
         s += b;
      }
      for( int i = 0; i < 5; i++ )
      {
         snprintf( b, sizeof b, "%.17g ", v[i] );
         s += b;
      }
      s += ")";
      calls++;
   }
};
extern CbLog cbl;
extern int dimOfSymbol[16];

struct In
{
   const std::vector<Val> &v;
   size_t pos {};
   const Val &next()
   {
      static const Val none {};
      return pos < v.size() ? v[pos++] : none;
   }
};
constexpr int FILL = -777;

template<class T>
struct A;
template<>
struct A<int>
{
   int v;
   explicit A( In &i ) : v( i.next().i ) {}
   int obj() { return v; }
   int c() { return v; }
   int d() { return v; }
   int f() { return v; }
   int n() { return v; }
   void dump( Res &, Fl ) {}
};
template<>
struct A<double>
{
   double v;
   explicit A( In &i ) : v( i.next().d ) {}
   double obj() { return v; }
   double c() { return v; }
   double d() { return v; }
   double f() { return v; }
   double n() { return v; }
   void dump( Res &, Fl ) {}
};
template<>
struct A<int &>
{
   int v = FILL;
   explicit A( In & ) {}
   int &obj() { return v; }
   int *c() { return &v; }
   int *d() { return &v; }
   int *f() { return &v; }
   int *n() { return &v; }
   void dump( Res &r, Fl ) { r.outs.push_back( { std::to_string( v ), false } ); }
};
inline std::vector<char> shortStr( const std::string &s )
{
   std::vector<char> r { (char) (unsigned char) s.size() };
   r.insert( r.end(), s.begin(), s.end() );
   return r;
}
template<>
struct A<const char *>
{
   std::string s;
   std::vector<char> z, sh;
   explicit A( In &i ) : s( i.next().s ), z( s.c_str(), s.c_str() + s.size() + 1 ), sh( shortStr( s ) ) {}
   const char *obj() { return z.data(); }
   const char *c() { return z.data(); }
   const char *d() { return sh.data(); }
   const char *f() { return z.data(); }
   const char *n() { return z.data(); }
   void dump( Res &, Fl ) {}
};
inline std::string fill()
{
   return std::string( 255, '~' );
}
template<>
struct A<char *>
{
   std::vector<char> b;
   explicit A( In & ) : b( 256, '~' ) { b[255] = 0; }
   char *obj() { return b.data(); }
   char *c() { return b.data(); }
   char *d()
   {
      b[0] = (char) 255;
      b[255] = '~';
      return b.data();
   }
   char *f() { return b.data(); }
   char *n() { return b.data(); }
   void dump( Res &r, Fl fl )
   {
      std::string s = fl == flD ? std::string( b.data() + 1, (unsigned char) b[0] ) : std::string( b.data(), strnlen( b.data(), 256 ) );
      r.outs.push_back( { s, s == fill() } );
   }
};
template<>
struct A<const char **>
{
   std::vector<std::vector<char>> z;
   std::vector<const char *> p;
   std::vector<char> flat;
   explicit A( In &i ) : flat( 20 * 256, 0 )
   {
      auto v = i.next().vs;
      v.resize( 20 );
      for( int k = 0; k < 20; k++ )
      {
         z.emplace_back( v[k].c_str(), v[k].c_str() + v[k].size() + 1 );
         auto s = shortStr( v[k] );
         memcpy( flat.data() + k * 256, s.data(), s.size() );
      }
   }
   const char **obj()
   {
      p.clear();
      for( auto &x: z ) p.push_back( x.data() );
      return p.data();
   }
   const char **c() { return obj(); }
   const char *d() { return flat.data(); }
   const char **f() { return obj(); }
   const char **n() { return obj(); }
   void dump( Res &, Fl ) {}
};
template<>
struct A<char **>
{
   std::vector<std::vector<char>> z;
   std::vector<char *> p;
   std::vector<char> flat;
   explicit A( In & ) : z( 20, std::vector<char>( 256, '~' ) ), flat( 20 * 256, '~' )
   {
      for( auto &x: z ) x[255] = 0;
   }
   char **obj()
   {
      p.clear();
      for( auto &x: z ) p.push_back( x.data() );
      return p.data();
   }
   char **c() { return obj(); }
   char *d()
   {
      for( int k = 0; k < 20; k++ ) flat[k * 256] = (char) 255;
      return flat.data();
   }
   char **f() { return obj(); }
   char *n()
   {
      for( int k = 0; k < 20; k++ ) flat[k * 256 + 255] = 0;
      return flat.data();
   }
   void dump( Res &r, Fl fl )
   {
      for( int k = 0; k < 20; k++ )
      {
         const char *q = fl == flD || fl == flN ? flat.data() + k * 256 : z[k].data();
         std::string s = fl == flD ? std::string( q + 1, (unsigned char) q[0] ) : std::string( q, strnlen( q, 256 ) );
         r.outs.push_back( { s, s == fill() } );
      }
   }
};
template<>
struct A<const int *>
{
   std::vector<int> v;
   explicit A( In &i ) : v( i.next().vi ) { v.resize( 20 ); }
   const int *obj() { return v.data(); }
   const int *c() { return v.data(); }
   const int *d() { return v.data(); }
   const int *f() { return v.data(); }
   const int *n() { return v.data(); }
   void dump( Res &, Fl ) {}
};
template<>
struct A<const double *>
{
   std::vector<double> v;
   explicit A( In &i ) : v( i.next().vd ) { v.resize( v.size() > 5 ? 7 : 5 ); }
   const double *obj() { return v.data(); }
   const double *c() { return v.data(); }
   const double *d() { return v.data(); }
   const double *f() { return v.data(); }
   const double *n() { return v.data(); }
   void dump( Res &, Fl ) {}
};
template<>
struct A<int *>
{
   std::vector<int> v;
   explicit A( In & ) : v( 20, FILL ) {}
   int *obj() { return v.data(); }
   int *c() { return v.data(); }
   int *d() { return v.data(); }
   int *f() { return v.data(); }
   int *n() { return v.data(); }
   void dump( Res &r, Fl )
   {
      std::string s;
      for( int x: v ) s += std::to_string( x ) + ",";
      r.outs.push_back( { s, false } );
   }
};
template<>
struct A<double *>
{
   std::vector<double> v;
   explicit A( In & ) : v( 7, FILL ) {}
   double *obj() { return v.data(); }
   double *c() { return v.data(); }
   double *d() { return v.data(); }
   double *f() { return v.data(); }
   double *n() { return v.data(); }
   void dump( Res &r, Fl )
   {
      std::string s;
      char b[40];
      for( double x: v )
      {
         snprintf( b, sizeof b, "%.17g,", x );
         s += b;
      }
      r.outs.push_back( { s, false } );
   }
};
template<>
struct A<void *>
{
   explicit A( In & ) {}
   void *obj() { return cbl.uptr; }
   void *c() { return cbl.uptr; }
   void *d() { return cbl.uptr; }
   void *f() { return cbl.uptr; }
   void *n() { return cbl.uptr; }
   void dump( Res &, Fl ) {}
};
// callbacks; the input value says how many records to accept
using CbDom = void ( * )( int, int, void * );
using CbStore = void ( * )( const int *, const double * );
using CbFilt = int ( * )( const int *, const double *, void * );
using CbEx = int ( * )( const int *, const double *, const int, void * );
inline void onDom( int r, int m, void *u )
{
   cbl.s += "(" + std::to_string( r ) + ">" + std::to_string( m ) + ( u == cbl.uptr ? "u" : "?" ) + ")";
}
inline void onDomF( int *r, int *m, void *u ) { onDom( *r, *m, u ); }
inline void onStore( const int *k, const double *v ) { cbl.rec( k, v ); }
inline int onFilt( const int *k, const double *v, void * )
{
   cbl.rec( k, v );
   return cbl.calls < cbl.stopAfter;
}
inline int onFiltF( const int *k, const double *v, long long * ) { return onFilt( k, v, nullptr ); }
inline int onEx( const int *k, const double *v, int fd, void *u )
{
   cbl.rec( k, v );
   cbl.s += std::to_string( fd ) + ( u == cbl.uptr ? "u" : "?" );
   return cbl.calls < cbl.stopAfter;
}
inline int onExF( const int *k, const double *v, int fd, long long u ) { return onEx( k, v, fd, (void *) (intptr_t) u ); }
template<class T>
struct CbBase
{
   explicit CbBase( In &i ) { cbl.stopAfter = i.next().i; }
   void dump( Res &, Fl ) {}
};
#define CBARG( T, FN, FF ) \
   template<> \
   struct A<T> : CbBase<T> \
   { \
      using CbBase<T>::CbBase; \
      T obj() { return FN; } \
      T c() { return FN; } \
      T d() { return FN; } \
      auto f() { return FF; } \
      T n() { return FN; } \
   };
CBARG( CbDom, onDom, onDomF )
CBARG( CbStore, onStore, onStore )
CBARG( CbFilt, onFilt, onFiltF )
CBARG( CbEx, onEx, onExF )
#undef CBARG

template<class F>
std::string callTo( F &&f )
{
   using R = decltype( f() );
   if constexpr( std::is_void_v<R> )
   {
      f();
      return "-";
   }
   else if constexpr( std::is_same_v<R, double> )
   {
      char b[40];
      snprintf( b, sizeof b, "%.17g", f() );
      return b;
   }
   else
      return std::to_string( f() );
}
template<class... P>
void startLog()
{
   cbl.s.clear();
   cbl.calls = 0;
}
template<class Tup, size_t... I>
void dumpAll( Tup &t, Res &r, Fl fl, std::index_sequence<I...> )
{
   ( std::get<I>( t ).dump( r, fl ), ... );
}
template<class Call, class... P>
Res runArgs( const std::vector<Val> &in, Fl fl, Call &&call, void ( * )( P... ) )
{
   startLog();
   In i { in };
   std::tuple<A<P>...> t { A<P>( i )... };
   Res r;
   r.ret = callTo( [&] { return std::apply( call, t ); } );
   dumpAll( t, r, fl, std::index_sequence_for<P...> {} );
   r.cb = cbl.s;
   return r;
}
// on an object with these operations
template<class C, class R, class... P>
Res onObject( R ( C::*f )( P... ), C *o, const std::vector<Val> &in, int )
{
   return runArgs( in, flC, [&]( A<P> &...a ) -> R { return ( o->*f )( a.obj()... ); }, (void ( * )( P... )) nullptr );
}
// (a class may offer an operation both const and not)
struct Low
{
   Low( int ) {}
};
template<class C, class R, class... P>
Res onObject( R ( C::*f )( P... ) const, C *o, const std::vector<Val> &in, Low )
{
   return runArgs( in, flC, [&]( A<P> &...a ) -> R { return ( o->*f )( a.obj()... ); }, (void ( * )( P... )) nullptr );
}
template<class C, class R, class... P>
Res onObject( R ( *f )( P... ), C *, const std::vector<Val> &in, int )
{
   return runArgs( in, flC, [&]( A<P> &...a ) -> R { return f( a.obj()... ); }, (void ( * )( P... )) nullptr );
}
// through an exported function
template<class R, class... P>
Res onSymbolT( void *sym, void *h, const std::vector<Val> &in, Fl fl )
{
   auto tag = (void ( * )( P... )) nullptr;
   switch( fl )
   {
      case flC:
         return runArgs( in, fl, [&]( A<P> &...a ) -> R { return ( (R( * )( void *, decltype( a.c() )... )) sym )( h, a.c()... ); }, tag );
      case flD:
         return runArgs( in, fl, [&]( A<P> &...a ) -> R { return ( (R( * )( void *, decltype( a.d() )... )) sym )( h, a.d()... ); }, tag );
      case flF:
         return runArgs( in, fl, [&]( A<P> &...a ) -> R { return ( (R( * )( void *, decltype( a.f() )... )) sym )( h, a.f()... ); }, tag );
      default:
         return runArgs( in, fl, [&]( A<P> &...a ) -> R { return ( (R( * )( void *, decltype( a.n() )... )) sym )( h, a.n()... ); }, tag );
   }
}
template<class C, class R, class... P>
Res onSymbol( R ( C::* )( P... ), void *sym, void *h, const std::vector<Val> &in, Fl fl ) { return onSymbolT<R, P...>( sym, h, in, fl ); }
template<class C, class R, class... P>
Res onSymbol( R ( C::* )( P... ) const, void *sym, void *h, const std::vector<Val> &in, Fl fl ) { return onSymbolT<R, P...>( sym, h, in, fl ); }
template<class R, class... P>
Res onSymbol( R ( * )( P... ), void *sym, void *h, const std::vector<Val> &in, Fl fl ) { return onSymbolT<R, P...>( sym, h, in, fl ); }

// the C++ class over the loaded C interface (other translation unit)
void *wrapCreate();
void wrapDestroy( void * );
Res wrapCall( int op, void *o, const std::vector<Val> &in );
const char *loaderCall( int op, void **h );
}// namespace p23
