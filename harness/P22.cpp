// P22: file streams behave like an array of bytes with a position.
#include "gdxh.hpp"
#include "gdlib/gmsstrm.hpp"
using namespace gh;
using namespace gdlib::gmsstrm;
#define CKS( cond, ... ) CK( cond, "stream", __VA_ARGS__ )

// pattern: position dependent and different for every write
static unsigned char pat( size_t i, int salt ) { return (unsigned char) ( i * 167 + ( i >> 8 ) * 59 + (size_t) salt * 31 + 7 ); }
static string block( size_t n, int salt )
{
   string s( n, 0 );
   for( size_t i = 0; i < n; i++ ) s[i] = (char) pat( i, salt );
   return s;
}
struct Plain : TXFileStream
{
   using TXFileStream::TXFileStream;
   using TXFileStream::GetPosition;
   using TXFileStream::SetPosition;
   using TXFileStream::GetSize;
};
struct Buffered : TBufferedFileStream
{
   using TBufferedFileStream::TBufferedFileStream;
   using TBufferedFileStream::GetSize;
};
struct Mi : TMiBufferedStream
{
   using TMiBufferedStream::TMiBufferedStream;
   using TMiBufferedStream::GetSize;
};
// one interface for the three kinds
struct Strm
{
   std::unique_ptr<Plain> p;
   std::unique_ptr<Buffered> b;
   std::unique_ptr<Mi> m;
   uint32_t read( void *x, uint32_t n ) { return !n ? 0 : p ? p->Read( x, n ) : b ? b->Read( x, n ) : m->Read( x, n ); }
   uint32_t write( const void *x, uint32_t n ) { return p ? p->Write( x, n ) : b ? b->Write( x, n ) : m->Write( x, n ); }
   int64_t pos() { return p ? p->GetPosition() : b ? b->GetPosition() : m->GetPosition(); }
   void seek( int64_t x ) { p ? p->SetPosition( x ) : b ? b->SetPosition( x ) : m->SetPosition( x ); }
   int64_t size() { return p ? p->GetSize() : b ? b->GetSize() : m->GetSize(); }
   TXFileStream &f() { return p ? (TXFileStream &) *p : b ? (TXFileStream &) *b : *m; }
   TBufferedFileStream *buf() { return b ? (TBufferedFileStream *) b.get() : (TBufferedFileStream *) m.get(); }
};

// histories of reads, writes and seeks
static void history( Ctx &c, int depth, const vector<uint32_t> &lens, bool all = true )
{
   const int kind = all ? c.choose( 3, "plain/buffered/typed" ) : 1;
   const bool rw = !all || c.flip( "existing file" );
   const int pw = all ? c.choose( 3, "password" ) : 0;
   const bool watch = c.flip( "observe after every step" );
   const size_t pre = rw ? c.pick( vector<size_t> { 0, 10, 32768, 40000 }, "size before" ) : 0;
   string fn = c.path( "s.bin" );
   unlink( fn.c_str() );
   const string password = pw == 0 ? "" : pw == 1 ? "x" : "secret pass";
   static const string patterns( "\x02\x34\x12\x04\x78\x56\x34\x12\x08\x18\x2d\x44\x54\xfb\x21\x09\x40", 17 );
   const size_t head = kind == 2 && ( !rw || pre > 0 ) ? 17 : 0;// typed streams start with patterns
   string model;
   if( kind == 2 && head ) model = patterns;
   if( rw )
   {
      if( kind == 2 && !pre ) c.prune();
      string add = block( pre, 1 );
      if( pw )
      {// another stream wrote it
         if( kind == 2 ) c.prune();
         Plain w( fn, fmCreate );
         w.SetPassWord( password );
         CKS( w.Write( add.data(), (uint32_t) add.size() ) == add.size(), "preparing" );
      }
      else
         writeBytes( fn, model + add );
      model += add;
   }
   Strm s;
   auto mode = rw ? fmOpenReadWrite : fmCreate;
   if( kind == 0 ) s.p = std::make_unique<Plain>( fn, mode );
   else if( kind == 1 )
      s.b = std::make_unique<Buffered>( fn, mode );
   else
      s.m = std::make_unique<Mi>( fn, mode );
   CKS( s.f().GetLastIOResult() == 0, "cannot open" );
   if( pw && kind != 2 ) s.f().SetPassWord( password );
   else if( pw )
      c.prune();
   size_t pos = head;
   auto observe = [&]( const char *when ) {
      CKS( s.pos() == (int64_t) pos, "%s: position is %lld instead of %zu", when, (long long) s.pos(), pos );
      CKS( s.size() == (int64_t) model.size(), "%s: size is %lld instead of %zu", when, (long long) s.size(), model.size() );
      if( s.buf() ) CKS( s.buf()->IsEof() == ( pos >= model.size() ), "%s: end of file reported as %d at %zu of %zu", when, (int) s.buf()->IsEof(), pos, model.size() );
   };
   if( watch ) observe( "at the start" );
   for( int d = 0; d < depth; d++ )
   {
      const int op = c.choose( rw ? 4 : 3, "stop/write/seek/read" );
      if( op == 0 ) break;
      c.step();
      if( op == 1 )
      {
         uint32_t n = c.pick( lens, "bytes" );
         string x = block( n, d + 2 );
         uint32_t r = s.write( x.data(), n );
         CKS( r == n, "write of %u returned %u", n, r );
         if( n )
         {
            if( model.size() < pos + n ) model.resize( pos + n );
            model.replace( pos, n, x );
            pos += n;
         }
      }
      else if( op == 2 )
      {
         vector<size_t> to { 0, 1, 32767, 32768, 32769, model.size() };
         if( model.size() ) to.push_back( model.size() - 1 );
         std::sort( to.begin(), to.end() );
         to.erase( std::unique( to.begin(), to.end() ), to.end() );
         while( !to.empty() && to.back() > model.size() ) to.pop_back();// no holes
         pos = c.pick( to, "position" );
         s.seek( (int64_t) pos );
      }
      else
      {
         uint32_t n = c.pick( lens, "bytes" );
         string x( n + 1, '~' );
         uint32_t r = s.read( &x[0], n );
         uint32_t want = (uint32_t) std::min<size_t>( n, pos > model.size() ? 0 : model.size() - pos );
         CKS( r == want, "read of %u at %zu of %zu returned %u", n, pos, model.size(), r );
         CKS( x.compare( 0, r, model, pos, r ) == 0, "bytes read at %zu differ", pos );
         CKS( x[n] == '~', "read wrote behind the buffer" );
         pos += r;
      }
      if( watch ) observe( "after a step" );
   }
   observe( "at the end" );
   CKS( s.f().GetLastIOResult() == 0, "error reported" );
   const int how = c.choose( 2, "close or destroy" );
   if( how ) s.f().CloseFile();
   s = Strm {};
   if( !pw ) CKS( readBytes( fn ) == model, "the file differs from what was written (%zu of %zu bytes)", readBytes( fn ).size(), model.size() );
   else
   {
      CKS( readBytes( fn ).size() == model.size(), "size of the file" );
      // read through the other kind of stream in other portions
      string got( model.size() + 1, 0 );
      Strm t;
      if( kind == 0 ) t.b = std::make_unique<Buffered>( fn, fmOpenRead );
      else
         t.p = std::make_unique<Plain>( fn, fmOpenRead );
      t.f().SetPassWord( password );
      size_t at = 0;
      while( uint32_t r = t.read( &got[at], std::min<uint32_t>( 777, (uint32_t) ( got.size() - at ) ) ) ) at += r;
      got.resize( at );
      CKS( got == model, "the file read again with the password differs" );
   }
   c.state( mc::hashStr( model ) );
}
static void historyQ( Ctx &c ) { history( c, 3, { 1, 32767, 32769 } ); }
static void historyT( Ctx &c ) { history( c, 4, { 1, 32767, 32768, 32769, 70000 } ); }
static void historySmall( Ctx &c ) { history( c, c.thorough ? 5 : 4, { 1, 33000 }, false ); }

// sections, compressed or not, read in any order
static void sections( Ctx &c )
{
   struct Sec
   {
      bool comp;
      string data;
      int64_t at = 0;
   };
   const bool mi = c.flip( "typed stream" );
   const bool pw = !mi && c.flip( "password" );
   const int n = 1 + c.choose( c.thorough ? 3 : 2, "sections" );
   vector<Sec> v;
   const vector<size_t> sizes = c.thorough ? vector<size_t> { 0, 1, 32767, 32768, 32769, 70000 } : vector<size_t> { 1, 32768, 40000 };
   for( int i = 0; i < n; i++ )
   {
      Sec s;
      s.comp = c.flip( "compressed" );
      size_t len = c.pick( sizes, "length" );
      int how = c.choose( 2, "content" );
      uint64_t x = 88172645463325252ULL + (uint64_t) i;
      for( size_t k = 0; k < len; k++ )
      {
         x ^= x << 13;
         x ^= x >> 7;
         x ^= x << 17;
         s.data += (char) ( how ? x >> 11 : (uint64_t) ( k / 100 + (size_t) i ) );
      }
      v.push_back( s );
   }
   const uint32_t chunk = c.pick( vector<uint32_t> { 1000, 32768, 100000 }, "portion" );
   string fn = c.path( "z.bin" );
   unlink( fn.c_str() );
   int64_t end;
   {
      Strm s;
      if( mi ) s.m = std::make_unique<Mi>( fn, fmCreate );
      else
         s.b = std::make_unique<Buffered>( fn, fmCreate );
      if( pw ) s.f().SetPassWord( "pass" );
      for( auto &x: v )
      {
         s.buf()->SetCompression( x.comp );
         CKS( s.buf()->GetCompression() == x.comp, "GetCompression" );
         x.at = s.pos();
         for( size_t i = 0; i < x.data.size(); i += chunk )
         {
            uint32_t k = (uint32_t) std::min<size_t>( chunk, x.data.size() - i );
            CKS( s.write( x.data.data() + i, k ) == k, "write" );
            c.step();
         }
      }
      end = s.pos();
      CKS( s.f().GetLastIOResult() == 0, "error reported while writing" );
   }
   CKS( (int64_t) readBytes( fn ).size() == end, "position at the end %lld but %zu bytes in the file", (long long) end, readBytes( fn ).size() );
   {
      Strm s;
      if( mi ) s.m = std::make_unique<Mi>( fn, fmOpenRead );
      else
         s.b = std::make_unique<Buffered>( fn, fmOpenRead );
      if( pw ) s.f().SetPassWord( "pass" );
      auto ps = perms( n );
      auto &order = ps[(size_t) c.choose( (int) ps.size(), "order" )];
      const int part = c.choose( 3, "read all, all in small portions, one byte" );
      for( int pass = 0; pass < 2; pass++ )
         for( int i: order )
         {
            auto &x = v[(size_t) i];
            s.buf()->SetCompression( x.comp );
            s.seek( x.at );
            string got( x.data.size(), 0 );
            size_t at = 0, step = part == 1 ? 999 : part == 2 && pass == 0 ? std::min<size_t>( 1, got.size() ) : got.size();
            size_t stop = part == 2 && pass == 0 ? step : got.size();
            while( at < stop )
            {
               uint32_t k = (uint32_t) std::min( step, stop - at );
               uint32_t r = s.read( &got[at], k );
               c.step();
               CKS( r == k, "section %d: read of %u at %zu returned %u", i, k, at, r );
               at += r;
            }
            CKS( got.compare( 0, stop, x.data, 0, stop ) == 0, "section %d read differs from what was written", i );
         }
      CKS( s.f().GetLastIOResult() == 0, "error reported while reading" );
   }
}
// from the uncompressed part straight into the compressed one and while reading ahead
static void switching( Ctx &c )
{
   const size_t a = c.pick( vector<size_t> { 0, 1, 100, 32768, 33000 } ), b = c.pick( vector<size_t> { 1, 100, 32769 } );
   const size_t first = c.pick( vector<size_t> { 0, 1, a } );
   string fn = c.path( "w.bin" );
   unlink( fn.c_str() );
   string x = block( a, 1 ), y = block( b, 2 );
   {
      Buffered s( fn, fmCreate );
      s.Write( x.data(), (uint32_t) a );
      s.SetCompression( true );
      s.Write( y.data(), (uint32_t) b );
   }
   Buffered s( fn, fmOpenRead );
   if( first > a ) c.prune();
   string g( a, 0 ), h( b, 0 );
   CKS( !first || s.Read( &g[0], (uint32_t) first ) == first, "first part" );
   CKS( ( a == first || s.Read( &g[first], (uint32_t) ( a - first ) ) == a - first ) && g == x, "uncompressed part" );
   CKS( s.GetPosition() == (int64_t) a, "position" );
   c.step();
   s.SetCompression( true );
   CKS( s.Read( &h[0], (uint32_t) b ) == b && h == y, "compressed part behind an uncompressed one" );
   char q;
   CKS( s.Read( &q, 1 ) == 0, "end" );
   CKS( s.GetLastIOResult() == 0, "error reported" );
}

// typed values
struct Val
{
   string name;
   std::function<void( TXStream & )> put;
   std::function<string( TXStream & )> get;// empty: as written
   size_t bytes;
};
static vector<Val> values()
{
   vector<Val> v;
   for( size_t n: { 0, 1, 254, 255 } )
   {
      string s( n, 'q' );
      for( size_t i = 0; i < n; i++ ) s[i] = (char) ( i * 37 + 1 );
      if( n > 2 ) s[1] = 0;
      v.push_back( { fmt( "string %zu", n ), [s]( TXStream &o ) { o.WriteString( std::string_view( s ) ); }, [s]( TXStream &i ) { return i.ReadString() == s ? "" : "string differs"; }, n + 1 } );
      v.push_back( { fmt( "sstring %zu", n ), [s]( TXStream &o ) { o.WriteString( std::string_view( s ) ); }, [s]( TXStream &i ) {
                       char b[257];
                       memset( b, '~', 257 );
                       uint8_t l = 77;
                       bool ok = i.ReadSString( b, l );
                       return ok && l == s.size() && !memcmp( b, s.data(), s.size() ) && b[s.size()] == 0 && b[256] == '~' ? "" : "sstring differs";
                    },
                      n + 1 } );
   }
   for( int x: { 0, 1, -1, 255, 256, INT_MAX, INT_MIN } )
      v.push_back( { fmt( "integer %d", x ), [x]( TXStream &o ) { o.WriteInteger( x ); }, [x]( TXStream &i ) { return i.ReadInteger() == x ? "" : "integer differs"; }, 4 } );
   for( int64_t x: { (int64_t) 0, (int64_t) -1, INT64_MAX, INT64_MIN, (int64_t) 1 << 33 } )
      v.push_back( { fmt( "int64 %lld", (long long) x ), [x]( TXStream &o ) { o.WriteInt64( x ); }, [x]( TXStream &i ) { return i.ReadInt64() == x ? "" : "int64 differs"; }, 8 } );
   for( double x: { 0.0, -0.0, 1.0, -1.5, 1e300, 5e-324, 1.7976931348623157e308, (double) INFINITY, (double) NAN } )
      v.push_back( { fmt( "double %g", x ), [x]( TXStream &o ) { o.WriteDouble( x ); }, [x]( TXStream &i ) { return bits( i.ReadDouble() ) == bits( x ) ? "" : "double differs"; }, 8 } );
   for( int x: { 0, 1, 255, 65535 } )
   {
      v.push_back( { fmt( "word %d", x ), [x]( TXStream &o ) { o.WriteWord( (uint16_t) x ); }, [x]( TXStream &i ) { return i.ReadWord() == x ? "" : "word differs"; }, 2 } );
      if( x < 256 ) v.push_back( { fmt( "byte %d", x ), [x]( TXStream &o ) { o.WriteByte( (uint8_t) x ); }, [x]( TXStream &i ) { return i.ReadByte() == x ? "" : "byte differs"; }, 1 } );
   }
   for( bool x: { true, false } ) v.push_back( { "bool", [x]( TXStream &o ) { o.WriteBool( x ); }, [x]( TXStream &i ) { return i.ReadBool() == x ? "" : "bool differs"; }, 1 } );
   for( int x: { 0, 97, 255 } ) v.push_back( { "char", [x]( TXStream &o ) { o.WriteChar( (char) x ); }, [x]( TXStream &i ) { return i.ReadChar() == (char) x ? "" : "char differs"; }, 1 } );
   for( size_t n: { 0, 1, 300, 40000 } )
   {
      string s = block( n, 5 );
      v.push_back( { fmt( "pchar %zu", n ), [s]( TXStream &o ) { o.WritePChar( s.data(), (int) s.size() ); }, [s]( TXStream &i ) {
                       int l = -1;
                       return i.ReadPChar( l ) == s && l == (int) s.size() ? "" : "pchar differs";
                    },
                      n + 4 } );
   }
   return v;
}
static void typed( Ctx &c )
{
   static const vector<Val> vals = values();
   const int kind = c.choose( 3 );
   const bool comp = kind && c.flip( "compressed" );
   const uint32_t lead = c.pick( vector<uint32_t> { 0, 32767, 32765 }, "bytes before" );
   vector<const Val *> seq;
   const int n = c.thorough ? 3 : 2;
   for( int i = 0; i < n; i++ ) seq.push_back( &vals[(size_t) c.choose( (int) vals.size(), "value" )] );
   string fn = c.path( "t.bin" );
   unlink( fn.c_str() );
   string pre = block( lead, 3 );
   size_t total = lead + ( kind == 2 ? 17 : 0 );
   auto open = [&]( FileAccessMode m ) {
      Strm s;
      if( kind == 0 ) s.p = std::make_unique<Plain>( fn, m );
      else if( kind == 1 )
         s.b = std::make_unique<Buffered>( fn, m );
      else
         s.m = std::make_unique<Mi>( fn, m );
      return s;
   };
   {
      Strm s = open( fmCreate );
      if( comp ) s.buf()->SetCompression( true );
      s.write( pre.data(), lead );
      for( auto *x: seq )
      {
         x->put( s.f() );
         total += x->bytes;
         c.step();
      }
   }
   if( !comp ) CKS( readBytes( fn ).size() == total, "%zu bytes written instead of %zu", readBytes( fn ).size(), total );
   Strm s = open( fmOpenRead );
   if( comp )
   {
      s.buf()->SetCompression( true );
      s.seek( kind == 2 ? 17 : 0 );
   }
   string g( lead, 0 );
   CKS( s.read( &g[0], lead ) == lead && g == pre, "bytes in front" );
   for( auto *x: seq )
   {
      string e = x->get( s.f() );
      CKS( e.empty(), "%s: %s", x->name.c_str(), e.c_str() );
   }
   char q;
   CKS( s.read( &q, 1 ) == 0, "something left at the end" );
   // reads at the end give zero
   CKS( s.f().ReadInteger() == 0 && s.f().ReadString().empty() && s.f().ReadByte() == 0 && s.f().ReadInt64() == 0 && s.f().ReadDouble() == 0, "value read at the end of the file" );
   CKS( s.f().GetLastIOResult() == 0, "error reported" );
}
// integers and doubles in packed form
static void packed( Ctx &c )
{
   vector<int> iv { 0, INT_MAX, INT_MIN, INT_MIN + 1 };
   for( int k = 0; k < 31; k++ )
      for( int d: { -1, 0, 1 } )
         for( int s: { 1, -1 } ) iv.push_back( s * (int) std::min<int64_t>( INT_MAX, ( (int64_t) 1 << k ) + d ) );
   vector<double> dv { 0, 1, -1, 0.5, 1e-310, 5e-324, -2.5e299, 1e300, 2e300, 3e300, 4e300, 5e300, 1e301, 7 * 1e301, -1e308, 2.2250738585072014e-308, 1.0 / 3, 256, 1 + 1.0 / 256 };
   for( int k = 0; k < 64; k++ ) dv.push_back( std::ldexp( 1.0, k - 20 ) * ( k % 2 ? -1 : 1 ) );
   // every number of leading zero bytes
   for( int k = 0; k < 7; k++ )
      for( int b: { 1, 128, 255 } ) dv.push_back( fromBits( 0x3ff0000000000000ULL | (uint64_t) b << ( 8 * k ) ) );
   const int which = c.choose( 2 );
   string fn = c.path( "g.bin" );
   unlink( fn.c_str() );
   const int i = c.choose( which ? (int) dv.size() : (int) iv.size() ), j = c.choose( which ? (int) dv.size() : (int) iv.size() );
   {
      Mi s( fn, fmCreate );
      for( int x: { i, j } )
         if( which ) s.WriteGmsDouble( dv[(size_t) x] );
         else
            s.WriteGmsInteger( iv[(size_t) x] );
      s.WriteByte( 77 );
      c.step();
   }
   Mi s( fn, fmOpenRead );
   for( int x: { i, j } )
      if( which )
      {
         double g = s.ReadGmsDouble();
         CKS( g == dv[(size_t) x], "double %.17g read as %.17g", dv[(size_t) x], g );
      }
      else
      {
         int g = s.ReadGmsInteger();
         CKS( g == iv[(size_t) x], "integer %d read as %d", iv[(size_t) x], g );
      }
   CKS( s.ReadByte() == 77, "the value takes a different number of bytes when read" );
}
// characters until the end, mixed with seeks
static void characters( Ctx &c )
{
   const size_t n = c.pick( vector<size_t> { 0, 1, 5, 32768, 32770 } );
   string fn = c.path( "c.bin" ), x = block( n, 9 );
   writeBytes( fn, x );
   const bool rw = c.choose( 2, "read/read and write" ), watch = c.choose( 2, "look after every step" );
   Buffered s( fn, rw ? fmOpenReadWrite : fmOpenRead );
   size_t pos = 0;
   for( int d = 0; d < 4; d++ )
   {
      int op = c.choose( rw ? 5 : 4, "stop/character/start/last/write" );
      if( op == 0 ) break;
      c.step();
      if( op == 1 )
      {
         char ch = s.ReadCharacter();
         CKS( ch == ( pos < x.size() ? x[pos] : 0x1A ), "character at %zu", pos );
         if( pos < x.size() ) pos++;
      }
      else if( op == 4 )
      {
         string w { (char) ( 'A' + d ), (char) ( 'a' + d ) };
         CKS( s.Write( w.data(), 2 ) == 2, "write failed" );
         if( x.size() < pos + 2 ) x.resize( pos + 2 );
         x.replace( pos, 2, w );
         pos += 2;
      }
      else
      {
         pos = op == 2 ? 0 : x.empty() ? 0 : x.size() - 1;
         s.SetPosition( (int64_t) pos );
      }
      if( !watch ) continue;
      CKS( s.GetPosition() == (int64_t) pos, "position" );
      CKS( s.IsEof() == ( pos >= x.size() ), "end of file reported as %d at %zu of %zu", (int) s.IsEof(), pos, x.size() );
   }
   s.CloseFile();
   CKS( s.GetLastIOResult() == 0, "error reported" );
   CKS( readBytes( fn ) == x, "the file differs from what was written" );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P22";
   d.sc = { { "histories", historyQ, 1, "3 stream kinds x new/existing file x password x all sequences of 3 reads, writes and seeks around the buffer limit" },
            { "histories-long", historyT, 2, "the same with 4 operations and 5 lengths" },
            { "histories-small", historySmall, 3, "buffered stream on an existing file, all sequences of 4 (5) operations with lengths 1 and 33000" },
            { "sections", sections, 3, "1..2 (3) sections, compressed or not, 3 (6) lengths, compressible or not, written in 3 portions, read in every order" },
            { "switching", switching, 3, "reading on from an uncompressed into a compressed part" },
            { "typed", typed, 3, "all sequences of 2 (3) typed values x stream kind x compression x position relative to the buffer limit" },
            { "packed", packed, 3, "all pairs of packed integers around all powers of two, doubles with every number of zero bytes" },
            { "characters", characters, 3, "all sequences of 4 character reads, seeks and writes" } };
   return d.main( argc, argv );
}
