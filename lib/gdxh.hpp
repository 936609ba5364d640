// Helpers around the public GDX object: buffers, complete dumps of a file through the API, text rendering.
#pragma once
#include "gdx.hpp"
#include "mc.hpp"
#include <algorithm>
#include <array>
#include <cmath>
#include <dirent.h>
#include <memory>
#include <set>
#include <tuple>

namespace gh
{
using gdx::TGXFileObj;
using Vals = std::array<double, 5>;
using Key = std::vector<int>;
using mc::Ctx;
using mc::fmt;
using std::string;
using std::vector;

enum { T_SET = 0, T_PAR = 1, T_VAR = 2, T_EQU = 3, T_ALIAS = 4 };
inline int nvals( int typ ) { return typ == T_VAR || typ == T_EQU ? 5 : 1; }

inline uint64_t bits( double d )
{
   uint64_t u;
   memcpy( &u, &d, 8 );
   return u;
}
inline double fromBits( uint64_t u )
{
   double d;
   memcpy( &d, &u, 8 );
   return d;
}

constexpr double JUNKV = -8.7654321e77;
constexpr int JUNKI = 0x5a5a5a5a;

struct Obj
{
   string msg;
   std::unique_ptr<TGXFileObj> p;
   Obj() : p( std::make_unique<TGXFileObj>( msg ) ) { p->gdxAutoConvert( 0 ); }// never spawn the external converter
   TGXFileObj *operator->() { return p.get(); }
   TGXFileObj &operator*() { return *p; }
};

// 20 string buffers for key output
struct KeyBuf
{
   char b[20][256];
   char *ptr[20];
   KeyBuf()
   {
      for( int i = 0; i < 20; i++ )
      {
         ptr[i] = b[i];
         junk( i );
      }
   }
   void junk( int i )
   {
      memset( b[i], '~', 255 );
      b[i][255] = 0;
   }
   char **get()
   {
      for( int i = 0; i < 20; i++ ) junk( i );
      return ptr;
   }
};
// key input
struct KeyIn
{
   vector<string> s;
   vector<const char *> p;
   explicit KeyIn( const vector<string> &v ) : s( v )
   {
      for( auto &x: s ) p.push_back( x.c_str() );
      static const char *empty = "";
      while( p.size() < 20 ) p.push_back( empty );
   }
   const char **get() { return p.data(); }
};

inline string showVal( double v )
{
   if( std::isnan( v ) ) return fmt( "nan:%016llx", (unsigned long long) bits( v ) );
   return fmt( "%.17g", v );
}
inline string showKey( const Key &k )
{
   string s = "(";
   for( size_t i = 0; i < k.size(); i++ ) s += ( i ? "," : "" ) + std::to_string( k[i] );
   return s + ")";
}

struct Rec
{
   Key k;
   Vals v {};
   string txt;// set element text (when asked for)
   bool same( const Rec &o, int nv ) const
   {
      if( k != o.k || txt != o.txt ) return false;
      for( int i = 0; i < nv; i++ )
         if( bits( v[(size_t) i] ) != bits( o.v[(size_t) i] ) ) return false;
      return true;
   }
};
inline string showRec( const Rec &r, int nv )
{
   string s = showKey( r.k ) + "=[";
   for( int i = 0; i < nv; i++ ) s += ( i ? "," : "" ) + showVal( r.v[(size_t) i] );
   s += "]";
   if( !r.txt.empty() ) s += "'" + r.txt + "'";
   return s;
}
inline string showRecs( const vector<Rec> &v, int nv )
{
   string s = "{";
   size_t n = 0;
   for( auto &r: v )
   {
      if( n++ > 40 )
      {
         s += " ...";
         break;
      }
      s += " " + showRec( r, nv );
   }
   return s + " }";
}

struct SymC
{
   string name, text;
   int dim {}, type {}, user {}, recCnt {}, hasText {}, domRes {};
   vector<string> comments, dom;
   vector<int> domNr;
   vector<Rec> recs;
   int startCnt {};
   vector<string> problems;
};
struct AcrC
{
   string name, text;
   int idx {};
};
struct FileC
{
   bool ok {};
   int err {};
   string producer;
   int ver {}, compr {};
   vector<string> uels;
   vector<SymC> syms;
   vector<AcrC> acr;
   vector<string> problems;
};

inline string show( const FileC &f, bool withHeader = true )
{
   string s;
   if( !f.ok ) return fmt( "cannot open: error %d\n", f.err );
   if( withHeader ) s += "producer=" + f.producer + fmt( " version=%d\n", f.ver );
   s += "uels:";
   for( auto &u: f.uels ) s += " <" + u + ">";
   s += "\n";
   for( auto &a: f.acr ) s += "acronym " + a.name + " '" + a.text + fmt( "' %d\n", a.idx );
   int n = 0;
   for( auto &y: f.syms )
   {
      s += fmt( "symbol %d %s dim=%d type=%d user=%d cnt=%d start=%d text='%s' hasText=%d dom=%d", ++n, y.name.c_str(), y.dim, y.type, y.user, y.recCnt, y.startCnt, y.text.c_str(), y.hasText, y.domRes );
      for( size_t i = 0; i < y.dom.size(); i++ ) s += fmt( " %s/%d", y.dom[i].c_str(), i < y.domNr.size() ? y.domNr[i] : -9 );
      for( auto &c: y.comments ) s += " comment='" + c + "'";
      s += "\n";
      for( auto &r: y.recs ) s += "   " + showRec( r, nvals( y.type == T_ALIAS ? T_SET : y.type ) ) + "\n";
      for( auto &p: y.problems ) s += "   PROBLEM " + p + "\n";
   }
   for( auto &p: f.problems ) s += "PROBLEM " + p + "\n";
   return s;
}

// read all records of a symbol in raw mode
inline vector<Rec> readRaw( TGXFileObj &o, int sy, int &startCnt, vector<string> &problems, bool texts = true, int maxRecs = 1 << 30 )
{
   vector<Rec> out;
   int n = -7;
   char id[256];
   int dim = 0, typ = 0;
   if( !o.gdxSymbolInfo( sy, id, dim, typ ) )
   {
      problems.push_back( "SymbolInfo failed" );
      return out;
   }
   if( !o.gdxDataReadRawStart( sy, n ) )
   {
      problems.push_back( fmt( "DataReadRawStart failed, error %d", o.gdxGetLastError() ) );
      startCnt = n;
      return out;
   }
   startCnt = n;
   int keys[20];
   double v[5];
   int nv = nvals( typ == T_ALIAS ? T_SET : typ );
   Key prev;
   while( (int) out.size() < maxRecs )
   {
      for( auto &k: keys ) k = JUNKI;
      for( auto &x: v ) x = JUNKV;
      int df = -5;
      if( !o.gdxDataReadRaw( keys, v, df ) ) break;
      Rec r;
      r.k.assign( keys, keys + std::max( 0, std::min( dim, 20 ) ) );
      for( int i = 0; i < 5; i++ ) r.v[(size_t) i] = i < nv ? v[i] : 0.0;
      // first changed dimension
      int exp = dim == 0 ? 0 : 1;
      if( dim > 0 && !out.empty() )
      {
         exp = 1;
         while( exp <= dim && prev[(size_t) exp - 1] == r.k[(size_t) exp - 1] ) exp++;
      }
      if( df != exp ) problems.push_back( fmt( "record %zu reports first changed dimension %d instead of %d", out.size() + 1, df, exp ) );
      if( !out.empty() && !( prev < r.k ) ) problems.push_back( "record " + showKey( r.k ) + " does not follow " + showKey( prev ) + " in ascending order" );
      prev = r.k;
      out.push_back( r );
   }
   o.gdxDataReadDone();
   if( texts && ( typ == T_SET || typ == T_ALIAS ) )
      for( auto &r: out )
      {
         if( r.v[0] == 0.0 ) continue;
         char t[256];
         memset( t, '~', 255 );
         t[255] = 0;
         int node;
         if( o.gdxGetElemText( (int) r.v[0], t, node ) ) r.txt = t;
         else
            r.txt = string( "BAD:" ) + t;
         r.v[0] = 1;// the number itself is not part of the content
      }
   return out;
}

struct DumpOpt
{
   bool texts = true;// resolve set texts (hides text numbers)
   bool records = true;
};

// everything the file says about itself through the catalogue and raw reads; object must be open for reading
inline FileC dumpOpen( TGXFileObj &o, const DumpOpt &opt = {} )
{
   FileC f;
   f.ok = true;
   char a[256], b[256];
   a[0] = b[0] = 0;
   o.gdxFileVersion( a, b );
   f.producer = b;
   o.gdxFileInfo( f.ver, f.compr );
   int ns = 0, nu = 0;
   o.gdxSystemInfo( ns, nu );
   for( int i = 1; i <= nu; i++ )
   {
      char u[256];
      int m;
      memset( u, '~', 255 );
      u[255] = 0;
      if( !o.gdxUMUelGet( i, u, m ) ) f.problems.push_back( fmt( "UEL %d of %d not available", i, nu ) );
      f.uels.push_back( u );
   }
   int na = o.gdxAcronymCount();
   for( int i = 1; i <= na; i++ )
   {
      AcrC c;
      char n[256], t[256];
      memset( n, '~', 255 );
      n[255] = 0;
      memset( t, '~', 255 );
      t[255] = 0;
      if( !o.gdxAcronymGetInfo( i, n, t, c.idx ) ) f.problems.push_back( fmt( "acronym %d of %d not available", i, na ) );
      c.name = n;
      c.text = t;
      f.acr.push_back( c );
   }
   for( int i = 1; i <= ns; i++ )
   {
      SymC y;
      char id[256], tx[256];
      memset( id, '~', 255 );
      id[255] = 0;
      memset( tx, '~', 255 );
      tx[255] = 0;
      if( !o.gdxSymbolInfo( i, id, y.dim, y.type ) ) y.problems.push_back( "SymbolInfo failed" );
      if( !o.gdxSymbolInfoX( i, y.recCnt, y.user, tx ) ) y.problems.push_back( "SymbolInfoX failed" );
      y.name = id;
      y.text = tx;
      y.hasText = o.gdxSetHasText( i );
      for( int c = 1; c < 1000; c++ )
      {
         char cm[256];
         if( !o.gdxSymbolGetComment( i, c, cm ) ) break;
         y.comments.push_back( cm );
      }
      KeyBuf kb;
      y.domRes = o.gdxSymbolGetDomainX( i, kb.get() );
      int nr[20] = {};
      bool g = o.gdxSymbolGetDomain( i, nr );
      if( !g ) y.problems.push_back( "SymbolGetDomain failed" );
      for( int d = 0; d < y.dim && d < 20; d++ )
      {
         y.dom.push_back( kb.ptr[d] );
         y.domNr.push_back( nr[d] );
      }
      if( opt.records ) y.recs = readRaw( o, i, y.startCnt, y.problems, opt.texts );
      f.syms.push_back( y );
   }
   return f;
}

inline FileC dumpFile( const string &fn, const DumpOpt &opt = {} )
{
   Obj o;
   int rc = 0;
   FileC f;
   if( !o->gdxOpenRead( fn.c_str(), rc ) )
   {
      f.err = rc;
      return f;
   }
   f = dumpOpen( *o, opt );
   int e = o->gdxGetLastError();
   if( e ) f.problems.push_back( fmt( "error %d while reading", e ) );
   o->gdxClose();
   return f;
}

inline string readBytes( const string &fn )
{
   std::ifstream f( fn, std::ios::binary );
   std::stringstream ss;
   ss << f.rdbuf();
   return ss.str();
}
inline void writeBytes( const string &fn, const string &data )
{
   std::ofstream f( fn, std::ios::binary | std::ios::trunc );
   f.write( data.data(), (std::streamsize) data.size() );
}
inline int openFds()
{
   int n = 0;
   if( DIR *d = opendir( "/proc/self/fd" ) )
   {
      while( readdir( d ) ) n++;
      closedir( d );
   }
   return n - 1;
}

inline string firstDiff( const string &want, const string &got )
{
   std::stringstream a( want ), b( got );
   string x, y;
   int n = 0;
   while( true )
   {
      bool p = (bool) std::getline( a, x ), q = (bool) std::getline( b, y );
      n++;
      if( !p && !q ) return "no difference";
      if( !p ) x = "(end)";
      if( !q ) y = "(end)";
      if( x != y ) return fmt( "line %d: expected \"%s\" but got \"%s\"", n, x.substr( 0, 700 ).c_str(), y.substr( 0, 700 ).c_str() );
   }
}

// index permutations
inline vector<vector<int>> perms( int n )
{
   vector<int> p;
   for( int i = 0; i < n; i++ ) p.push_back( i );
   vector<vector<int>> r;
   do r.push_back( p );
   while( std::next_permutation( p.begin(), p.end() ) );
   return r;
}
// choose a sequence of up to maxLen distinct items from n, in any order (ascending only when sorted)
inline vector<int> chooseSeq( Ctx &c, int n, int maxLen, bool sorted )
{
   vector<int> r;
   vector<bool> used( (size_t) n );
   int lo = 0;
   while( (int) r.size() < maxLen )
   {
      vector<int> av;
      for( int i = sorted ? lo : 0; i < n; i++ )
         if( !used[(size_t) i] ) av.push_back( i );
      int k = c.choose( (int) av.size() + 1, "next record or stop" );
      if( k == 0 ) break;
      int it = av[(size_t) k - 1];
      used[(size_t) it] = true;
      r.push_back( it );
      lo = it + 1;
   }
   return r;
}
#define CK( cond, sig, ... )                                                    \
   do {                                                                         \
      if( !( cond ) ) c.fail( sig, mc::fmt( __VA_ARGS__ ) );                    \
   } while( 0 )

}// namespace gh
