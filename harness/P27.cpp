// P27: text streams (TBinaryTextFileIO) return what was written; wrong passwords and damaged headers are refused.
#include "gdxh.hpp"
#include "gdlib/gmsstrm.hpp"
using namespace gh;
using namespace gdlib::gmsstrm;
#define CKS( cond, ... ) CK( cond, "text stream", __VA_ARGS__ )
using Bin = TBinaryTextFileIO;

static string text( size_t n, int how )
{
   string s;
   s.reserve( n );
   for( size_t i = 0; s.size() < n; i++ )
      switch( how )
      {
         case 0: s += (char) ( 'a' + i % 26 ); break;
         case 1: s += i % 7 == 6 ? ( i % 3 ? "\r\n" : "\n" ) : i % 11 == 3 ? "\r" : "xy"; break;
         case 2: s += (char) ( ( i * 2654435761u ) >> 13 ); break;// any byte
         default: s += i % 9 == 8 ? "\n" : "line ";
      }
   s.resize( n );
   for( auto &x: s )
      if( x == 0x1A ) x = 'S';// end of file character of DOS
   return s;
}
static string slurp( Bin &f, uint32_t portion )
{
   string r, b( portion, 0 );
   while( uint32_t n = f.Read( &b[0], portion ) )
   {
      r.append( b, 0, n );
      if( r.size() > 10000000 ) return r;
   }
   return r;
}
// the content character by character or line by line
static string byLines( Bin &f, int kind, int maxInp )
{
   string r;
   char last = f.ReadCharacter();
   size_t guard = 0;
   while( last != 0x1A && guard++ < 1000000 )
   {
      if( kind == 0 )
      {
         r += last;
         last = f.ReadCharacter();
         continue;
      }
      string line;
      int len = -1;
      if( kind == 1 ) f.ReadLine( line, len, maxInp, last );
      else if( kind == 2 )
      {
         vector<uint8_t> v;
         f.ReadLine( v, len, maxInp, last );
         line.assign( v.begin(), v.end() );
      }
      else
      {
         string buf( (size_t) maxInp + 8, '~' );
         f.ReadLine( &buf[0], len, maxInp, last );
         if( len < 0 || len > maxInp ) return "LENGTH";
         if( buf.substr( (size_t) maxInp ) != "~~~~~~~~" ) return "OVERRUN";
         line = buf.substr( 0, (size_t) len );
      }
      if( len != (int) line.size() ) return "LENGTH";
      if( (int) line.size() > maxInp ) return "TOO LONG";
      for( char x: line )
         if( x == '\n' || x == '\r' ) return "LINE END IN LINE";
      r += line;
      if( last == '\n' || last == '\r' )
      {
         r += last;
         last = f.ReadCharacter();
      }
      else if( last != 0x1A && (int) line.size() < maxInp )
         return "STOPPED EARLY";
   }
   return r;
}
struct Cfg
{
   TFileSignature sig = fsign_text;
   string pw, producer;
   bool comp = false;
};
static string put( const Cfg &g, const string &fn, const vector<string> &parts )
{
   int err = -1;
   string msg = "unset";
   Bin f( fn, g.producer, g.pw, g.sig, g.comp, err, msg );
   if( err || !msg.empty() ) return fmt( "cannot be written: %d %s", err, msg.c_str() );
   for( auto &p: parts )
      if( !p.empty() && f.Write( p.data(), (uint32_t) p.size() ) != p.size() ) return "write returned another length";
   return "";
}
static string join( const vector<string> &v )
{
   string s;
   for( auto &x: v ) s += x;
   return s;
}
static void contents( Ctx &c )
{
   Cfg g;
   g.sig = c.flip( "block text" ) ? fsign_blocktext : fsign_text;
   g.comp = c.flip( "compressed" );
   g.pw = c.pick( vector<string> { "", "x", "ab", "a longer password", string( 255, 'q' ) }, "password" );
   g.producer = c.pick( c.thorough ? vector<string> { "", "producer", string( 255, 'p' ) } : vector<string> { "producer" }, "producer" );
   const vector<size_t> lens = c.thorough ? vector<size_t> { 1, 4095, 4096, 32760, 32761, 32768, 40000 } : vector<size_t> { 1, 40000 };
   vector<string> parts;
   for( int i = 0; i < 2; i++ )
   {
      int k = c.choose( (int) lens.size() + 1, "write" );
      if( !k ) break;
      parts.push_back( text( lens[(size_t) k - 1], c.choose( 3, "kind" ) + ( i ? 1 : 0 ) ) );
   }
   string want = join( parts ), fn = c.path( "t.txt" );
   unlink( fn.c_str() );
   string e = put( g, fn, parts );
   c.step();
   CKS( e.empty(), "%s", e.c_str() );
   const bool plain = g.sig == fsign_text && g.pw.empty() && !g.comp;
   if( plain ) CKS( readBytes( fn ) == want, "a plain text file contains something else" );
   int err = -1;
   string msg = "unset";
   Bin f( fn, g.pw, err, msg );
   CKS( !err && msg.empty(), "cannot be read: %d %s", err, msg.c_str() );
   CKS( f.UsesPassWord() == !g.pw.empty(), "UsesPassWord" );
   const int how = c.choose( 6, "way of reading" );
   auto once = [&]() {
      return how == 0 ? slurp( f, 100000 ) : how == 1 ? slurp( f, 4096 ) : how == 2 ? byLines( f, 0, 0 ) : byLines( f, how - 2, 10 );
   };
   string got = once();
   CKS( got == want, "%s instead of %s", got.substr( 0, 60 ).c_str(), want.substr( 0, 60 ).c_str() );
   f.ReWind();
   got = once();
   CKS( got == want, "after rewinding: %s instead of %s", got.substr( 0, 60 ).c_str(), want.substr( 0, 60 ).c_str() );
   CKS( f.GetLastIOResult() == 0, "error reported" );
}
// every short password
static void passwords( Ctx &c )
{
   Cfg g;
   const int len = 1 + c.choose( 2 );
   for( int i = 0; i < len; i++ ) g.pw += (char) ( 1 + ( i == 0 || c.thorough ? c.choose( 255 ) : 51 * c.choose( 5 ) + 1 ) );
   g.comp = c.thorough && c.flip();
   string fn = c.path( "p.txt" ), want = "some secret text 1234567890";
   unlink( fn.c_str() );
   CKS( put( g, fn, { want } ).empty(), "cannot be written" );
   c.step();
   int err = -1;
   string msg;
   Bin f( fn, g.pw, err, msg );
   CKS( !err && msg.empty(), "not readable with its password: %d %s", err, msg.c_str() );
   CKS( slurp( f, 100 ) == want, "content differs" );
   if( !g.comp ) CKS( readBytes( fn ).find( "secret" ) == string::npos, "the text is in the file in the clear" );
}
static void longPasswords( Ctx &c )
{
   Cfg g;
   const int len = c.choose( 400 ) + 1;
   const int how = c.choose( 4 );
   for( int i = 0; i < len; i++ ) g.pw += (char) ( how == 0 ? 'a' : how == 1 ? 33 + i % 90 : how == 2 ? ( i % 3 ? 'z' : ' ' ) : 255 - i % 200 );
   string fn = c.path( "l.txt" ), want = "some secret text 1234567890";
   unlink( fn.c_str() );
   g.comp = c.flip();
   CKS( put( g, fn, { want } ).empty(), "cannot be written" );
   c.step();
   int err = -1;
   string msg;
   Bin f( fn, g.pw, err, msg );
   CKS( !err && msg.empty(), "not readable with its password of length %d: %d %s", len, err, msg.c_str() );
   CKS( slurp( f, 100 ) == want, "content differs" );
}
// all pairs of passwords over a small alphabet
static void wrong( Ctx &c )
{
   vector<string> pws { "" };
   for( const char *a: { "a", "b", "A" } )
   {
      pws.push_back( a );
      for( const char *b: { "a", "b", "A" } )
      {
         pws.push_back( string( a ) + b );
         for( const char *d: { "a", "b" } ) pws.push_back( string( a ) + b + d );
      }
   }
   pws.push_back( "correct horse" );
   pws.push_back( "correct horsf" );
   pws.push_back( "korrect horse" );
   Cfg g;
   g.pw = c.pick( pws, "written with" );
   string other = c.pick( pws, "read with" );
   g.comp = c.flip();
   g.sig = c.flip() ? fsign_blocktext : fsign_text;
   string fn = c.path( "w.txt" ), want = text( 1000, 1 );
   unlink( fn.c_str() );
   CKS( put( g, fn, { want } ).empty(), "cannot be written" );
   c.step();
   int err = -1;
   string msg;
   Bin f( fn, other, err, msg );
   CKS( ( err == 0 ) == msg.empty(), "error %d with message '%s'", err, msg.c_str() );
   if( g.pw.empty() )
   {
      CKS( !err, "file without password refused: %d %s", err, msg.c_str() );
      CKS( slurp( f, 333 ) == want, "content differs" );
      return;
   }
   if( other.empty() )
   {
      CKS( err == strmErrorNoPassWord, "error %d for a missing password", err );
      return;
   }
   if( other.size() == g.pw.size() ) CKS( ( err == 0 ) == ( other == g.pw ), "password %s for %s: error %d", other.c_str(), g.pw.c_str(), err );
   if( !err ) CKS( slurp( f, 333 ) == want, "accepted password %s for %s gives another text", other.c_str(), g.pw.c_str() );
}
// files made by gzip
static void gzipped( Ctx &c )
{
   const size_t n = c.pick( c.thorough ? vector<size_t> { 0, 1, 9, 10, 11, 32768, 32769, 100000 } : vector<size_t> { 0, 10, 32769 } );
   const int kind = c.choose( 4 );
   string want = text( n, kind ), fn = c.path( "z.txt" );
   gzFile z = gzopen( fn.c_str(), "w" );
   if( n ) gzwrite( z, want.data(), (unsigned) n );
   gzclose( z );
   int err = -1;
   string msg = "unset";
   Bin f( fn, "", err, msg );
   c.step();
   CKS( !err && msg.empty(), "cannot be read: %d %s", err, msg.c_str() );
   const int how = c.choose( 6, "way of reading" );
   const int mx = c.pick( vector<int> { 10, 1, 5, 100000 } );
   auto once = [&]() {
      return how == 0 ? slurp( f, 100000 ) : how == 1 ? slurp( f, 4096 ) : how == 2 ? byLines( f, 0, 0 ) : byLines( f, how - 2, mx );
   };
   string got = once();
   CKS( got == want, "%s instead of %s", got.substr( 0, 60 ).c_str(), want.substr( 0, 60 ).c_str() );
   CKS( !f.UsesPassWord(), "UsesPassWord" );
   f.ReWind();
   got = once();
   CKS( got == want, "after rewinding: %s instead of %s", got.substr( 0, 60 ).c_str(), want.substr( 0, 60 ).c_str() );
   CKS( f.GetLastIOResult() == 0, "error reported" );
}
// lines and their limits
static void lines( Ctx &c )
{
   Cfg g;
   g.comp = c.flip();
   g.pw = c.flip() ? "pw" : "";
   string want;
   const int n = c.thorough ? 7 : 6;
   for( int i = 0; i < n; i++ )
   {
      int k = c.choose( 4 );
      if( !k ) break;
      want += k == 1 ? 'a' : k == 2 ? '\n' : '\r';
   }
   const int kind = 1 + c.choose( 3 ), mx = 1 + c.choose( 4 );
   string fn = c.path( "ln.txt" );
   unlink( fn.c_str() );
   CKS( put( g, fn, { want } ).empty(), "cannot be written" );
   c.step();
   int err = -1;
   string msg;
   Bin f( fn, g.pw, err, msg );
   CKS( !err && msg.empty(), "cannot be read: %d %s", err, msg.c_str() );
   string got = byLines( f, kind, mx );
   CKS( got == want, "'%s' instead of '%s'", got.c_str(), want.c_str() );
}
// plain files: whatever they start with
static void plain( Ctx &c )
{
   string want;
   for( int i = 0; i < 4; i++ )
   {
      static const int al[] = { -1, 'a', 0xFF, 0xFE, 0xEF, 0xBB, 0xBF, 0, 6, 31, 139, '\n' };
      int k = c.choose( 12 );
      if( !k ) break;
      want += (char) al[k];
   }
   string tail = c.pick( vector<string> { "", "some more text\n", string( 300, 't' ) } );
   if( !tail.empty() && want.size() < 4 ) c.prune();
   want += tail;
   if( want.substr( 0, 2 ) == "\x1f\x8b" ) c.prune();// announces gzip
   string fn = c.path( "pl.txt" );
   writeBytes( fn, want );
   int err = -1;
   string msg;
   Bin f( fn, "", err, msg );
   c.step();
   const bool u16 = want.substr( 0, 2 ) == "\xfe\xff" || want.substr( 0, 2 ) == "\xff\xfe" || want.substr( 0, 4 ) == string( "\0\0\xfe\xff", 4 );
   if( u16 )
   {
      CKS( err == strmErrorEncoding && !msg.empty(), "error %d for another encoding", err );
      return;
   }
   CKS( !err && msg.empty(), "cannot be read: %d %s", err, msg.c_str() );
   if( want.substr( 0, 3 ) == "\xef\xbb\xbf" ) want.erase( 0, 3 );
   string got = slurp( f, 7 );
   CKS( got == want, "content differs" );
   f.ReWind();
   CKS( slurp( f, 1000 ) == want, "content differs after rewinding" );
}
// damaged files: refused or a correct beginning, never a crash
static void damaged( Ctx &c )
{
   Cfg g;
   g.comp = c.flip();
   g.pw = c.flip() ? "pass" : "";
   g.sig = c.flip() ? fsign_blocktext : fsign_text;
   if( !g.comp && g.pw.empty() && g.sig == fsign_text ) c.prune();
   g.producer = "me";
   string fn = c.path( "d.txt" ), want = text( 200, 1 );
   unlink( fn.c_str() );
   CKS( put( g, fn, { want } ).empty(), "cannot be written" );
   string b = readBytes( fn );
   const int what = c.choose( 2 );
   bool sure = false;
   if( what == 0 )
   {
      size_t cut = (size_t) c.choose( (int) b.size() );
      b.resize( cut );
   }
   else
   {
      const size_t head = 1 + 7 + 1 + 3 + 2 + 2;
      size_t at = (size_t) c.choose( (int) head + ( g.pw.empty() ? 0 : 5 ) + 10 );
      int x = c.choose( 256 );
      if( (unsigned char) b[at] == x ) c.prune();
      b[at] = (char) x;
      // signature, flags
      sure = at == 14 || at == 15 || ( at == 8 && x != 'A' && x != 'B' );
   }
   writeBytes( fn, b );
   int err = -1;
   string msg;
   Bin f( fn, g.pw, err, msg );
   c.step();
   if( err )
   {
      CKS( !msg.empty(), "refused with %d without a message", err );
      return;
   }
   CKS( !sure, "damaged header accepted" );
   string got = slurp( f, 100 );
   // a damaged marker makes it a plain file; otherwise the text or its beginning
   string raw = b;
   if( b.substr( 0, 8 ) != "\xff\x06*GAMS*" ) CKS( got == raw || ( raw.substr( 0, 2 ) == "\x1f\x8b" ), "plain file read differently" );
   else if( what == 0 )
      CKS( want.compare( 0, got.size(), got ) == 0, "text of a truncated file differs" );
}
static void gzDamaged( Ctx &c )
{
   string want = text( 60000, 2 ), fn = c.path( "gd.txt" );
   if( readBytes( fn + ".good" ).empty() )
   {
      gzFile z = gzopen( ( fn + ".good" ).c_str(), "w" );
      gzwrite( z, want.data(), (unsigned) want.size() );
      gzclose( z );
   }
   string b = readBytes( fn + ".good" );
   if( c.flip() ) b.resize( 2 + (size_t) c.choose( 400 ) * ( b.size() - 2 ) / 400 );
   else
   {
      size_t at = 2 + (size_t) c.choose( 400 ) * ( b.size() - 3 ) / 400;
      b[at] = (char) ( b[at] ^ ( 1 << c.choose( 8 ) ) );
   }
   writeBytes( fn, b );
   int err = -1;
   string msg;
   Bin f( fn, "", err, msg );
   c.step();
   if( err ) return;
   string got;
   switch( c.choose( 3 ) )
   {
      case 0: got = slurp( f, 1000 ); break;
      case 1: got = byLines( f, 1, 100 ); break;
      default: got = byLines( f, 3, 100 );
   }
   CKS( got.size() < 1000000, "no end of a damaged file" );
}
// whole file conversion
static void convert( Ctx &c )
{
   const size_t n = c.pick( vector<size_t> { 0, 1, 4095, 4096, 4097, 8192, 32768, 50000 } );
   const int kind = c.choose( 4 );
   const bool comp = c.flip();
   string pw = c.pick( vector<string> { "", "x", "secret" } );
   string a = c.path( "a.txt" ), b = c.path( "b.txt" ), d = c.path( "d.txt" ), want = text( n, kind );
   for( auto &x: { a, b, d } ) unlink( x.c_str() );
   writeBytes( a, want );
   int err = -1;
   string msg;
   CompressTextFile( a, b, pw, comp, err, msg );
   CKS( !err && msg.empty(), "compress: %d %s", err, msg.c_str() );
   c.step();
   UnCompressTextFile( b, d, pw, err, msg );
   CKS( !err && msg.empty(), "uncompress: %d %s", err, msg.c_str() );
   CKS( readBytes( d ) == want, "text changed by compressing and uncompressing" );
   CKS( readBytes( a ) == want, "input changed" );
   UnCompressTextFile( c.path( "missing" ), d, pw, err, msg );
   CKS( err && !msg.empty(), "missing file not reported" );
   err = 0;
   msg.clear();
   CompressTextFile( a, c.path( "nodir/x" ), pw, comp, err, msg );
   CKS( err && !msg.empty(), "file that cannot be created not reported" );
}
int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P27";
   d.sc = { { "contents", contents, 3, "signature x compression x 5 passwords x 3 producers x all sequences of 2 writes x 6 ways to read, read twice" },
            { "passwords", passwords, 3, "all passwords of one byte, all (thorough) or 1275 of two bytes" },
            { "long passwords", longPasswords, 3, "passwords of all lengths up to 400 in 4 patterns" },
            { "wrong passwords", wrong, 3, "all pairs of 35 passwords x compression x signature" },
            { "gzip", gzipped, 3, "gzip files of 3 (8) lengths x 4 kinds of text x 6 ways to read x 4 line limits" },
            { "lines", lines, 3, "all texts of up to 6 (7) characters over letter, LF, CR x line limits 1..4 x 3 line readers x compression x password" },
            { "plain", plain, 3, "all beginnings of up to 4 bytes over 11 bytes" },
            { "damaged", damaged, 3, "every length and every byte value in the header" },
            { "damaged gzip", gzDamaged, 3, "400 truncations and 3200 bit flips of a gzip file" },
            { "conversion", convert, 3, "CompressTextFile and UnCompressTextFile x 8 lengths x 4 kinds x compression x passwords" } };
   return d.main( argc, argv );
}
