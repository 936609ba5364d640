// P18: damaged files are handled safely.
#include "sessions.hpp"
using namespace gh;

struct Img
{
   string name, bytes, dump;
};

static thread_local long sink, delivered;
static void STDC dpRaw( const int *k, const double *v )
{
   sink += k[0] + ( v[0] > 0 );
   delivered++;
}
static int STDC dpEx( const int *k, const double *v, int d, void *u )
{
   sink += k[0] + ( v[0] > 0 ) + d + ( u != nullptr );
   return ++delivered < 100000;
}
static void STDC dpDom( int r, int m, void * ) { sink += r + m; }

constexpr int MAXREC = 3000;// a damaged record area can repeat, but never be longer than the file

// everything a reader can do with an opened file
static void useAll( Ctx &c, TGXFileObj &o )
{
   int ns = 0, nu = 0;
   o.gdxSystemInfo( ns, nu );
   CK( ns >= 0 && nu >= 0, "counts", "negative counts" );
   char b[256], t[256];
   int i1, i2;
   for( int u = 0; u <= std::min( nu, 60 ) + 1; u++ )
   {
      o.gdxUMUelGet( u, b, i1 );
      o.gdxGetUEL( u, b );
   }
   for( int n = -1; n < 12; n++ ) o.gdxGetElemText( n, t, i1 );
   o.gdxGetElemText( 1 << 30, t, i1 );
   int na = o.gdxAcronymCount();
   for( int a = 0; a <= std::min( na, 20 ) + 1; a++ ) o.gdxAcronymGetInfo( a, b, t, i1 );
   auto f = dumpOpen( o );
   o.gdxGetLastError();
   // half of the labels are known to the user
   o.gdxUELRegisterMapStart();
   o.gdxUELRegisterMap( 5, "a" );
   o.gdxUELRegisterMap( 3, "c c" );
   o.gdxUELRegisterDone();
   o.gdxFilterRegisterStart( 1 );
   o.gdxFilterRegister( 3 );
   o.gdxFilterRegister( 5 );
   o.gdxFilterRegisterDone();
   for( int s = 0; s <= std::min( ns, 12 ) + 1; s++ )
   {
      int n, keys[20], df, cnt[20];
      double v[5];
      KeyBuf kb;
      c.step();
      if( o.gdxDataReadStrStart( s, n ) )
      {
         for( int r = 0; r < MAXREC && o.gdxDataReadStr( kb.get(), v, df ); r++ ) {}
         o.gdxDataReadDone();
      }
      if( o.gdxDataReadMapStart( s, n ) )
      {
         for( int r = 0; r < MAXREC && o.gdxDataReadMap( r, keys, v, df ); r++ ) {}
         o.gdxDataReadDone();
         int e = o.gdxDataErrorCount();
         for( int r = 0; r <= std::min( e, 20 ); r++ ) o.gdxDataErrorRecord( r, keys, v );
      }
      for( int act: { -1, 1 } )
      {
         int fa[20];
         for( auto &x: fa ) x = act;
         if( o.gdxDataReadFilteredStart( s, fa, n ) )
         {
            for( int r = 0; r < MAXREC && o.gdxDataReadMap( r, keys, v, df ); r++ ) {}
            o.gdxDataReadDone();
         }
      }
      delivered = 0;
      o.gdxDataReadRawFast( s, dpRaw, n );
      delivered = 0;
      o.gdxDataReadRawFastEx( s, dpEx, n, &sink );
      if( o.gdxDataReadSliceStart( s, cnt ) )
      {
         KeyIn any( {} );
         o.gdxDataReadSlice( any.get(), n, dpRaw );
         int z[20] = {};
         o.gdxDataSliceUELS( z, kb.get() );
         o.gdxDataReadDone();
         if( o.gdxDataReadSliceStart( s, cnt ) )
         {
            KeyIn one( { "a" } );
            o.gdxDataReadSlice( one.get(), n, dpRaw );
            o.gdxDataReadDone();
         }
      }
      int len[20];
      o.gdxSymbIndxMaxLength( s, len );
      for( int d = 0; d <= 3; d++ )
         for( int fl: { -1, 1 } )
         {
            o.gdxGetDomainElements( s, d, fl, nullptr, n, nullptr );
            if( d ) o.gdxGetDomainElements( s, d, fl, dpDom, n, nullptr );
         }
      o.gdxGetLastError();
   }
   o.gdxUMUelInfo( i1, i2 );
   o.gdxGetMemoryUsed();
}

static vector<Img> &images( Ctx &c )
{
   static vector<Img> v;
   if( !v.empty() ) return v;
   auto add = [&]( const string &n, bool cmp, const vector<Call> &calls ) {
      Obj o;
      string fn = c.path( "img.gdx" );
      Session s { n, false, cmp, "w", calls };
      CK( runSession( o, s, fn ), "setup", "session %s", n.c_str() );
      v.push_back( { n + ( cmp ? " (compressed)" : "" ), readBytes( fn ), show( dumpFile( fn ) ) } );
   };
   auto many = vector<Call> { cUels( 300, "u" ), cRaw( "w", 2, 4, 1 ), []( Obj &o ) {
                                if( !o->gdxDataWriteRawStart( "wide", "", 2, T_VAR, 5 ) ) return false;
                                double x[5] { 1, 2, 3, 4, 5 };
                                for( auto k: { std::array<int, 2> { 1, 7 }, { 1, 290 }, { 280, 1 }, { 280, 2 } } ) o->gdxDataWriteRaw( k.data(), x );
                                return o->gdxDataWriteDone() != 0;
                             } };
   for( bool cmp: { false, true } )
   {
      add( "rich", cmp, richCalls() );
      add( "wide", cmp, many );
      add( "empty", cmp, {} );
   }
   return v;
}

static void readDamaged( Ctx &c, const Img &im, const string &bytes, bool reuse )
{
   string fn = c.path( "d.gdx" );
   writeBytes( fn, bytes );
   Obj o;
   for( int mode = 0; mode < 2; mode++ )
   {
      int rc = 0;
      int r = mode ? o->gdxOpenReadEx( fn.c_str(), 1, rc ) : o->gdxOpenRead( fn.c_str(), rc );
      if( !r )
      {
         CK( rc != 0, "code", "refused without a code" );
         char msg[256];
         o->gdxErrorStr( rc, msg );
         c.outcome( (uint64_t) (unsigned) rc );
      }
      else
      {
         CK( rc == 0, "code", "opened with code %d", rc );
         if( mode == 0 ) useAll( c, *o );
         else
            dumpOpen( *o );
         o->gdxClose();
      }
   }
   if( !reuse ) return;
   // the object still reads a good file
   int rc;
   string gf = c.path( "good.gdx" );
   writeBytes( gf, im.bytes );
   CK( o->gdxOpenRead( gf.c_str(), rc ), "after", "a good file cannot be opened after the damaged one: %d", rc );
   string d = show( dumpOpen( *o ) );
   CK( d == im.dump, "after", "a good file reads differently after the damaged one: %s", firstDiff( im.dump, d ).c_str() );
   CK( o->gdxClose() == 0, "after", "closing fails" );
}

static void truncated( Ctx &c )
{
   auto &v = images( c );
   const Img &im = c.pick( v, "file" );
   size_t n = im.bytes.size();
   int g = c.choose( (int) ( n / 8 + 1 ), "length" );
   for( size_t i = (size_t) g * 8; i < (size_t) ( g + 1 ) * 8 && i < n; i++ )
   {
      c.note( fmt( "%s cut to %zu of %zu bytes", im.name.c_str(), i, n ) );
      readDamaged( c, im, im.bytes.substr( 0, i ), true );
      c.note( fmt( "%s with zeros from %zu of %zu bytes", im.name.c_str(), i, n ) );
      string z = im.bytes;
      for( size_t j = i; j < n; j++ ) z[j] = 0;
      readDamaged( c, im, z, false );
   }
}
static void bytewise( Ctx &c )
{
   auto &v = images( c );
   const Img &im = c.pick( v, "file" );
   int at = c.choose( (int) im.bytes.size(), "position" );
   unsigned char old = (unsigned char) im.bytes[(size_t) at];
   std::set<int> vals;
   if( c.thorough )
      for( int i = 0; i < 256; i++ ) vals.insert( i );
   else
      for( int x: { 0, 1, 2, 4, 20, 21, 127, 128, 254, 255, old + 1, old - 1, old ^ 128 } ) vals.insert( x & 255 );
   vals.erase( old );
   for( int x: vals )
   {
      c.note( fmt( "%s with byte %d set to %d", im.name.c_str(), at, x ) );
      string d = im.bytes;
      d[(size_t) at] = (char) x;
      readDamaged( c, im, d, x == 0 || x == 255 );
   }
}
// a block length that promises more than a buffer holds, with enough bytes behind it
static void longBlocks( Ctx &c )
{
   auto &v = images( c );
   const Img &im = c.pick( v, "file" );
   int g = c.choose( (int) ( im.bytes.size() / 8 + 1 ), "position" );
   for( size_t i = (size_t) g * 8; i < (size_t) ( g + 1 ) * 8 && i + 3 <= im.bytes.size(); i++ )
      for( int typ = 0; typ < 2; typ++ )
         for( int len: { 0x8000, 0x8001, 0x9999, 0xFFFF } )
         {
            c.note( fmt( "%s with 70000 bytes more and block type %d length %d at %zu", im.name.c_str(), typ, len, i ) );
            string d = im.bytes;
            d[i] = (char) typ;
            d[i + 1] = (char) ( len >> 8 );
            d[i + 2] = (char) ( len & 255 );
            d.append( 70000, 'x' );
            readDamaged( c, im, d, false );
         }
}
// a whole integer field replaced by an extreme value, at every position
static void fields( Ctx &c )
{
   auto &v = images( c );
   const Img &im = c.pick( v, "file" );
   int at = c.choose( (int) im.bytes.size() - 4, "position" );
   vector<int64_t> vals { 0, -1, 1, 3, 0x7fffffff, -0x7fffffff - 1LL, 65536, 1 << 24, 0x01010101, -2, 1 << 28 };
   if( c.thorough ) vals.insert( vals.end(), { 255, 256, 65535, 1 << 20, 0x7ffffff0, 10, 100 } );
   for( auto x: vals )
   {
      string d = im.bytes;
      int y = (int) x;
      memcpy( &d[(size_t) at], &y, 4 );
      if( d == im.bytes ) continue;
      c.note( fmt( "%s with the integer %d at position %d", im.name.c_str(), y, at ) );
      readDamaged( c, im, d, false );
   }
   if( at + 8 <= (int) im.bytes.size() )
      for( int64_t x: { (int64_t) 0, (int64_t) -1, INT64_MAX, INT64_MIN, (int64_t) im.bytes.size(), (int64_t) 1 << 40 } )
      {
         string d = im.bytes;
         memcpy( &d[(size_t) at], &x, 8 );
         c.note( fmt( "%s with the long integer %lld at position %d", im.name.c_str(), (long long) x, at ) );
         readDamaged( c, im, d, false );
      }
}
// parts moved: bytes removed or doubled at every position
static void shifted( Ctx &c )
{
   auto &v = images( c );
   const Img &im = c.pick( v, "file" );
   int at = c.choose( (int) im.bytes.size(), "position" );
   for( int n: { 1, 4, 40 } )
   {
      string d = im.bytes;
      d.erase( (size_t) at, (size_t) n );
      c.note( fmt( "%s without %d bytes at %d", im.name.c_str(), n, at ) );
      readDamaged( c, im, d, false );
      d = im.bytes;
      d.insert( (size_t) at, im.bytes.substr( (size_t) at, (size_t) n ) );
      c.note( fmt( "%s with %d bytes doubled at %d", im.name.c_str(), n, at ) );
      readDamaged( c, im, d, false );
   }
}
// two damaged bytes: a field of the header or of a table together with any other byte (thorough)
static void pairs( Ctx &c )
{
   auto &v = images( c );
   const Img &im = v[0];
   int n = (int) im.bytes.size();
   int a = c.choose( n, "first position" ), b = a + 1 + c.choose( 24, "distance" );
   if( b >= n ) c.prune();
   for( int x: { 0, 1, 127, 255 } )
      for( int y: { 0, 1, 127, 255 } )
      {
         string d = im.bytes;
         d[(size_t) a] = (char) x;
         d[(size_t) b] = (char) y;
         c.note( fmt( "%s with byte %d set to %d and byte %d set to %d", im.name.c_str(), a, x, b, y ) );
         readDamaged( c, im, d, false );
      }
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P18";
   d.sc = { { "truncated", truncated, 3, "6 files (rich, wide, empty, compressed or not) cut, or zeroed, at every position", 30 },
            { "bytewise", bytewise, 3, "the same files with every byte replaced by 13 (255) values", 30 },
            { "fields", fields, 3, "every 4 and 8 byte window replaced by 17 (23) extreme integers", 30 },
            { "shifted", shifted, 3, "1, 4 or 40 bytes removed or doubled at every position", 30 },
            { "long blocks", longBlocks, 3, "a block header of 2 types and 4 lengths from 32768 to 65535 at every position, 70000 bytes appended", 30 },
            { "pairs", pairs, 2, "two bytes at most 24 apart replaced by 16 combinations of values", 30 } };
   d.assumptions = { "allocations of more than 512 MB for these files of a few kilobytes count as failure" };
   return d.main( argc, argv );
}
