// An implementation of the on-disk layout that shares no code with the library: encoder (all supported versions, both byte
// orders, every legal choice of sizes) and decoder.
#pragma once
#include "gdxh.hpp"
#include <zlib.h>
namespace lay
{
using namespace gh;
struct Acr
{
   string name, text;
   int map;
};
struct Sym
{
   string name, text;
   int dim = 0, type = T_PAR, user = 0, count = 0, errors = 0;
   bool setText = false, compressed = false;
   bool hasDom = false;
   vector<int> dom;// symbol numbers
   vector<string> comments;
   vector<int> domStr;// numbers into the list of domain strings; empty: none
   vector<Rec> recs;
   vector<std::pair<int, int>> bounds;// minimum, maximum of the elements by dimension; empty: exact
   int64_t pos = 0;
   int nrRecs = -1;// counter in the data section
};
struct File
{
   int version = 7, compr = 0;
   bool big = false, audit2001 = false;
   string audit = "GDX Library      somewhere 01Jan20  XYZ", producer = "elsewhere";
   vector<string> uels, texts, domStrs;
   vector<Sym> syms;
   vector<Acr> acr;
   bool noDomSection = false;
   // choices of the encoder
   int keyPolicy = 0;  // 0: differences where possible, 1: complete key for every record, 2: changed part only, 3: changed part from the dimension after one that changed where legal
   bool plainValues = false;// never use the one byte codes for values
   bool storedBlocks = false;// blocks of compressed sections are not actually compressed
   size_t blockSize = 32768;
   vector<int> order { 0, 1, 2, 3, 4, 5 };// order of: data, symbols, texts, labels, acronyms, domain strings
   int pad = 0;// unused bytes between sections
   // found by the decoder
   vector<string> problems;
   string magicId = "GAMSGDX";
   int magicByte = 123;
};
inline int intSize( int64_t n ) { return n <= 0 ? 4 : n <= 255 ? 1 : n <= 65535 ? 2 : 4; }

struct Out
{
   string b;
   bool big = false;
   void raw( const void *p, int n )
   {
      string s( (const char *) p, (size_t) n );
      if( big ) std::reverse( s.begin(), s.end() );
      b += s;
   }
   void u8( int x ) { b += (char) x; }
   void u16( int x )
   {
      uint16_t v = (uint16_t) x;
      raw( &v, 2 );
   }
   void i32( int x ) { raw( &x, 4 ); }
   void i64( int64_t x ) { raw( &x, 8 ); }
   void dbl( double x ) { raw( &x, 8 ); }
   void str( const string &s )
   {
      u8( (int) s.size() );
      b += s;
   }
};
constexpr double SPEC[] = { 1e300, 2e300, 3e300, 4e300, 5e300, 0.0, 1.0, -1.0, 0.5, 2.0 };
inline int valCode( double v )
{
   for( int i = 0; i < 10; i++ )
      if( bits( SPEC[i] ) == bits( v ) ) return i;
   return 10;
}
inline string pack( const string &s, const File &f, bool compressed )
{
   if( !compressed ) return s;
   string r;
   for( size_t i = 0; i < s.size(); i += f.blockSize )
   {
      string blk = s.substr( i, f.blockSize ), z;
      int typ = 0;
      if( !f.storedBlocks )
      {
         uLongf n = compressBound( blk.size() );
         z.resize( n );
         compress( (Bytef *) &z[0], &n, (const Bytef *) blk.data(), blk.size() );
         z.resize( n );
         if( z.size() < blk.size() || z.size() <= 32768 ) typ = 1;
      }
      if( !typ ) z = blk;
      r += (char) typ;
      r += (char) ( z.size() >> 8 );
      r += (char) ( z.size() & 255 );
      r += z;
   }
   return r;
}
inline string encode( File f )
{
   Out h;
   h.big = f.big;
   h.u8( 2 );
   h.u16( 0x1234 );
   h.u8( 4 );
   h.i32( 0x12345678 );
   h.u8( 8 );
   h.dbl( 3.1415926535897932385 );
   h.u8( f.magicByte );
   h.str( f.magicId );
   h.i32( f.version );
   if( f.version > 5 ) h.i32( f.compr );
   h.str( f.audit );
   h.str( f.producer );
   size_t boi = h.b.size();
   size_t idx = f.version <= 5 ? 4 + 4 * 4 : 10 * 8;
   string body = h.b + string( idx, '\0' );
   int64_t pos[6] {};
   for( int sec: f.order )
   {
      Out s;
      s.big = f.big;
      body += string( (size_t) f.pad, '\xee' );
      pos[sec] = (int64_t) body.size();
      if( sec == 0 )
      {
         for( auto &y: f.syms )
         {
            if( y.type == T_ALIAS ) continue;
            Out o;
            o.big = f.big;
            y.pos = (int64_t) body.size();
            o.str( "_DATA_" );
            o.u8( y.dim );
            o.i32( y.nrRecs < 0 ? (int) y.recs.size() : y.nrRecs );
            auto bd = y.bounds;
            if( bd.empty() )
               for( int d = 0; d < y.dim; d++ )
               {
                  int lo = INT_MAX, hi = 0;
                  for( auto &r: y.recs ) lo = std::min( lo, r.k[(size_t) d] ), hi = std::max( hi, r.k[(size_t) d] );
                  bd.push_back( { lo, hi } );
               }
            for( auto &x: bd ) o.i32( x.first ), o.i32( x.second );
            const int delta = f.version <= 6 ? 10 : y.dim;
            Key last;
            for( auto &r: y.recs )
            {
               if( y.dim == 0 ) o.u8( 1 );
               else
               {
                  int fd = 1;
                  if( !last.empty() )
                     while( fd < y.dim && last[(size_t) fd - 1] == r.k[(size_t) fd - 1] ) fd++;
                  int diff = last.empty() ? 0 : r.k.back() - last.back();
                  if( f.keyPolicy == 0 && !last.empty() && fd == y.dim && diff > 0 && delta + diff < 255 ) o.u8( delta + diff );
                  else
                  {
                     if( f.keyPolicy == 1 ) fd = 1;
                     o.u8( fd );
                     for( int d = fd; d <= y.dim; d++ )
                     {
                        auto &x = bd[(size_t) d - 1];
                        int v = r.k[(size_t) d - 1] - x.first;
                        switch( intSize( (int64_t) x.second - x.first + 1 ) )
                        {
                           case 1: o.u8( v ); break;
                           case 2: o.u16( v ); break;
                           default: o.i32( v );
                        }
                     }
                  }
               }
               last = r.k;
               for( int i = 0; i < nvals( y.type ); i++ )
               {
                  int code = f.plainValues ? 10 : valCode( r.v[(size_t) i] );
                  o.u8( code );
                  if( code == 10 ) o.dbl( r.v[(size_t) i] );
               }
            }
            o.u8( 255 );
            body += pack( o.b, f, y.compressed );
         }
         continue;
      }
      if( sec == 1 )
      {
         s.str( "_SYMB_" );
         s.i32( (int) f.syms.size() );
         for( auto &y: f.syms )
         {
            s.str( y.name );
            if( f.version <= 5 ) s.i32( (int) y.pos );
            else
               s.i64( y.pos );
            s.i32( y.dim );
            s.u8( y.type );
            s.i32( y.user );
            s.i32( y.count );
            s.i32( y.errors );
            s.u8( y.setText );
            s.str( y.text );
            if( f.version > 5 ) s.u8( y.compressed );
            if( f.version >= 7 )
            {
               s.u8( y.hasDom );
               if( y.hasDom )
                  for( int d: y.dom ) s.i32( d );
               s.i32( (int) y.comments.size() );
               for( auto &c: y.comments ) s.str( c );
            }
         }
         s.str( "_SYMB_" );
      }
      else if( sec == 2 )
      {
         s.str( "_SETT_" );
         s.i32( (int) f.texts.size() );
         for( auto &t: f.texts ) s.str( t );
         s.str( "_SETT_" );
      }
      else if( sec == 3 )
      {
         s.str( "_UEL_" );
         s.i32( (int) f.uels.size() + ( f.audit2001 ? 1 : 0 ) );
         for( auto &t: f.uels ) s.str( t );
         s.str( "_UEL_" );
      }
      else if( sec == 4 )
      {
         if( f.version < 7 ) continue;
         s.str( "_ACRO_" );
         s.i32( (int) f.acr.size() );
         for( auto &a: f.acr ) s.str( a.name ), s.str( a.text ), s.i32( a.map );
         s.str( "_ACRO_" );
      }
      else
      {
         if( f.version < 7 || f.noDomSection )
         {
            pos[5] = 0;
            continue;
         }
         s.str( "_DOMS_" );
         s.i32( (int) f.domStrs.size() );
         for( auto &t: f.domStrs ) s.str( t );
         s.str( "_DOMS_" );
         for( size_t i = 0; i < f.syms.size(); i++ )
            if( !f.syms[i].domStr.empty() )
            {
               s.i32( (int) i + 1 );
               for( int d: f.syms[i].domStr ) s.i32( d );
            }
         s.i32( -1 );
         s.str( "_DOMS_" );
      }
      body += pack( s.b, f, f.compr > 0 );
   }
   Out x;
   x.big = f.big;
   x.i32( 19510624 );
   const int64_t end = (int64_t) body.size();
   if( f.version <= 5 )
      for( int64_t v: { pos[1], pos[3], pos[2], end } ) x.i32( (int) v );
   else
   {
      for( int64_t v: { pos[1], pos[3], pos[2] } ) x.i64( v );
      if( f.version >= 7 )
         for( int64_t v: { pos[4], end, pos[5] } ) x.i64( v );
   }
   x.b.resize( idx );
   body.replace( boi, idx, x.b );
   return body;
}

struct Bad
{
   string what;
};
struct In
{
   const string &b;
   size_t p = 0;
   bool big = false, comp = false;
   string blk;
   size_t bp = 0;
   void seek( int64_t to, bool compressed )
   {
      if( to < 0 || (size_t) to > b.size() ) throw Bad { fmt( "offset %lld outside the file", (long long) to ) };
      p = (size_t) to;
      comp = compressed;
      blk.clear();
      bp = 0;
   }
   string get( size_t n )
   {
      if( !comp )
      {
         if( p + n > b.size() ) throw Bad { fmt( "data at %zu runs past the end", p ) };
         string r = b.substr( p, n );
         p += n;
         return r;
      }
      string r;
      while( r.size() < n )
      {
         if( bp == blk.size() )
         {
            if( p + 3 > b.size() ) throw Bad { "block header past the end" };
            int typ = (unsigned char) b[p];
            size_t len = (size_t) (unsigned char) b[p + 1] * 256 + (unsigned char) b[p + 2];
            p += 3;
            if( p + len > b.size() ) throw Bad { "block past the end" };
            if( typ == 0 ) blk = b.substr( p, len );
            else if( typ == 1 )
            {
               blk.resize( 32768 );
               uLongf m = blk.size();
               if( uncompress( (Bytef *) &blk[0], &m, (const Bytef *) b.data() + p, len ) != Z_OK ) throw Bad { "block does not decompress" };
               blk.resize( m );
            }
            else
               throw Bad { fmt( "block type %d", typ ) };
            p += len;
            bp = 0;
            if( blk.empty() ) throw Bad { "empty block" };
         }
         size_t k = std::min( n - r.size(), blk.size() - bp );
         r += blk.substr( bp, k );
         bp += k;
      }
      return r;
   }
   string num( size_t n )
   {
      string s = get( n );
      if( big ) std::reverse( s.begin(), s.end() );
      return s;
   }
   template<class T> T v()
   {
      T x;
      string s = num( sizeof( T ) );
      memcpy( &x, s.data(), sizeof( T ) );
      return x;
   }
   int u8() { return (unsigned char) get( 1 )[0]; }
   int u16() { return v<uint16_t>(); }
   int i32() { return v<int>(); }
   int64_t i64() { return v<int64_t>(); }
   double dbl() { return v<double>(); }
   string str()
   {
      size_t n = (size_t) u8();
      return get( n );
   }
   void expect( const string &m, const char *where )
   {
      string s = str();
      if( s != m ) throw Bad { fmt( "marker %s of %s is '%s'", m.c_str(), where, s.c_str() ) };
   }
};
inline File decode( const string &bytes )
{
   File f;
   In in { bytes };
   try
   {
      if( in.u8() != 2 ) throw Bad { "size of words" };
      string w = in.get( 2 );
      f.big = w == "\x12\x34";
      in.big = f.big;
      if( !f.big && w != "\x34\x12" ) throw Bad { "pattern of words" };
      if( in.u8() != 4 || in.i32() != 0x12345678 ) throw Bad { "pattern of integers" };
      if( in.u8() != 8 || in.dbl() != 3.1415926535897932385 ) throw Bad { "pattern of doubles" };
      f.magicByte = in.u8();
      if( f.magicByte != 123 ) throw Bad { "header number" };
      f.magicId = in.str();
      if( f.magicId != "GAMSGDX" ) throw Bad { "header text" };
      f.version = in.i32();
      if( f.version != 7 ) throw Bad { fmt( "version %d", f.version ) };
      f.compr = in.i32();
      f.audit = in.str();
      f.producer = in.str();
      if( in.i32() != 19510624 ) throw Bad { "index marker" };
      int64_t symb = in.i64(), uel = in.i64(), sett = in.i64(), acro = in.i64(), next = in.i64(), doms = in.i64();
      in.get( 28 );// room for more
      if( next < (int64_t) in.p || next > (int64_t) bytes.size() ) throw Bad { "position for the next write" };
      const bool cz = f.compr > 0;
      in.seek( symb, cz );
      in.expect( "_SYMB_", "symbols" );
      int n = in.i32();
      for( int i = 0; i < n; i++ )
      {
         Sym y;
         y.name = in.str();
         y.pos = in.i64();
         y.dim = in.i32();
         y.type = in.u8();
         y.user = in.i32();
         y.count = in.i32();
         y.errors = in.i32();
         y.setText = in.u8() != 0;
         y.text = in.str();
         y.compressed = in.u8() != 0;
         if( y.dim < 0 || y.dim > 20 || y.type > 4 ) throw Bad { "dimension or type of " + y.name };
         y.hasDom = in.u8() != 0;
         if( y.hasDom )
            for( int d = 0; d < y.dim; d++ ) y.dom.push_back( in.i32() );
         int nc = in.i32();
         for( int k = 0; k < nc; k++ ) y.comments.push_back( in.str() );
         f.syms.push_back( y );
      }
      in.expect( "_SYMB_", "symbols" );
      in.seek( sett, cz );
      in.expect( "_SETT_", "texts" );
      n = in.i32();
      for( int i = 0; i < n; i++ ) f.texts.push_back( in.str() );
      in.expect( "_SETT_", "texts" );
      in.seek( uel, cz );
      in.expect( "_UEL_", "labels" );
      n = in.i32();
      for( int i = 0; i < n; i++ ) f.uels.push_back( in.str() );
      in.expect( "_UEL_", "labels" );
      in.seek( acro, cz );
      in.expect( "_ACRO_", "acronyms" );
      n = in.i32();
      for( int i = 0; i < n; i++ )
      {
         Acr a;
         a.name = in.str();
         a.text = in.str();
         a.map = in.i32();
         f.acr.push_back( a );
      }
      in.expect( "_ACRO_", "acronyms" );
      if( doms )
      {
         in.seek( doms, cz );
         in.expect( "_DOMS_", "domains" );
         n = in.i32();
         for( int i = 0; i < n; i++ ) f.domStrs.push_back( in.str() );
         in.expect( "_DOMS_", "domains" );
         while( true )
         {
            int s = in.i32();
            if( s == -1 ) break;
            if( s < 1 || s > (int) f.syms.size() ) throw Bad { "symbol in the domain section" };
            auto &y = f.syms[(size_t) s - 1];
            y.domStr.clear();
            for( int d = 0; d < y.dim; d++ ) y.domStr.push_back( in.i32() );
         }
         in.expect( "_DOMS_", "domains" );
      }
      else
         f.noDomSection = true;
      for( auto &y: f.syms )
      {
         if( y.type == T_ALIAS ) continue;
         if( y.pos >= next ) throw Bad { "data of " + y.name + " behind the position for the next write" };
         in.seek( y.pos, y.compressed );
         in.expect( "_DATA_", y.name.c_str() );
         if( in.u8() != y.dim ) throw Bad { "dimension in the data of " + y.name };
         y.nrRecs = in.i32();
         for( int d = 0; d < y.dim; d++ )
         {
            int lo = in.i32(), hi = in.i32();
            y.bounds.push_back( { lo, hi } );
         }
         Key k( (size_t) y.dim, -256 );
         while( true )
         {
            int b = in.u8();
            if( b == 255 ) break;
            if( b > y.dim && y.dim > 0 ) k.back() += b - y.dim;
            else
            {
               if( b < 1 || ( y.dim && b > y.dim ) ) throw Bad { "first changed dimension in " + y.name };
               for( int d = b - 1; d < y.dim; d++ )
               {
                  auto &x = y.bounds[(size_t) d];
                  int s = intSize( (int64_t) x.second - x.first + 1 );
                  k[(size_t) d] = x.first + ( s == 1 ? in.u8() : s == 2 ? in.u16() : in.i32() );
               }
            }
            Rec r;
            r.k = k;
            for( int i = 0; i < nvals( y.type ); i++ )
            {
               int code = in.u8();
               if( code > 10 ) throw Bad { fmt( "value code %d", code ) };
               r.v[(size_t) i] = code == 10 ? in.dbl() : SPEC[code];
            }
            if( y.recs.size() > 100000 ) throw Bad { "no end of records" };
            y.recs.push_back( r );
         }
      }
   }
   catch( Bad &x )
   {
      f.problems.push_back( x.what );
   }
   return f;
}
// what the library has to report for the content
inline FileC content( const File &f )
{
   FileC r;
   r.ok = true;
   r.producer = f.producer;
   r.ver = f.version;
   r.compr = f.compr;
   r.uels = f.uels;
   r.problems = f.problems;
   if( f.version >= 7 )
      for( auto &a: f.acr )
      {
         AcrC c;
         c.name = a.name;
         c.text = a.text;
         c.idx = a.map;
         r.acr.push_back( c );
      }
   for( size_t i = 0; i < f.syms.size(); i++ )
   {
      auto &y = f.syms[i];
      SymC s;
      s.name = y.name;
      s.text = y.text;
      s.dim = y.dim;
      s.type = y.type;
      s.user = y.user;
      s.recCnt = y.dim == 0 ? 1 : y.count;
      s.hasText = y.setText;
      if( f.version >= 7 ) s.comments = y.comments;
      const Sym *t = &y;
      while( t && t->type == T_ALIAS ) t = t->user ? &f.syms[(size_t) t->user - 1] : nullptr;
      bool dom = f.version >= 7 && y.hasDom, rel = f.version >= 7 && !f.noDomSection && !y.domStr.empty();
      s.domRes = rel ? 2 : dom ? 3 : 1;
      for( int d = 0; d < y.dim; d++ )
      {
         int nr = dom ? y.dom[(size_t) d] : 0;
         string n = nr ? f.syms[(size_t) nr - 1].name : "*";
         if( rel ) n = y.domStr[(size_t) d] ? f.domStrs[(size_t) y.domStr[(size_t) d] - 1] : "*";
         s.dom.push_back( n );
         s.domNr.push_back( nr );
      }
      if( t )
      {
         s.recs = t->recs;
         s.startCnt = t->count;
         if( t->type == T_SET )
            for( auto &x: s.recs )
               if( x.v[0] != 0 )
               {
                  x.txt = f.texts[(size_t) x.v[0]];
                  x.v[0] = 1;
               }
         if( t->dim == 0 && t->recs.empty() )
         {
            Rec x;
            s.startCnt = 1;
            s.recs.push_back( x );
         }
      }
      else
      {
         s.startCnt = (int) f.uels.size();
         for( size_t u = 1; u <= f.uels.size(); u++ )
         {
            Rec x;
            x.k = { (int) u };
            s.recs.push_back( x );
         }
      }
      r.syms.push_back( s );
   }
   return r;
}
}// namespace lay
