// P28: conversions between numbers, dates and text are exact.
// Oracles: the C library's correctly rounded printf/strtod, small grammars, and a civil-calendar day count.
#include "gdxh.hpp"
#include "gdlib/strutilx.hpp"
#include "gdlib/utils.hpp"
#include "rtl/sysutils_p3.hpp"
#include <cmath>
#include <climits>
#include <cfloat>
#include <functional>
#include <locale.h>
using namespace gh;
namespace sx = gdlib::strutilx;
namespace sp = rtl::sysutils_p3;

static uint64_t bitsOf( double v )
{
   uint64_t b;
   memcpy( &b, &v, 8 );
   return b;
}
static string fmt( const char *f, double v )
{
   char b[512];
   snprintf( b, sizeof b, f, v );
   return b;
}

// ------------------------------------------------------------------------------------------ double -> text
static string expectDbl( double v, char sep )
{
   if( v == 0 ) return "0";
   string t = fmt( "%.14e", fabs( v ) );// d.dddddddddddddde[+-]dd
   string dig = t.substr( 0, 1 ) + t.substr( 2, 14 );
   int e = atoi( t.c_str() + 17 );
   string r = v < 0 ? "-" : "";
   auto strip = []( string s ) {
      while( !s.empty() && s.back() == '0' ) s.pop_back();
      return s;
   };
   double a = fabs( v );
   if( a >= 1e-4 && a < 1e15 )
   {
      if( e >= 0 )
      {
         while( (int) dig.size() < e + 1 ) dig += '0';
         r += dig.substr( 0, e + 1 );
         string f = strip( dig.substr( e + 1 ) );
         if( !f.empty() ) r += sep + f;
      }
      else
         r += string( "0" ) + sep + string( -e - 1, '0' ) + strip( dig );
   }
   else
   {
      r += dig[0];
      string f = strip( dig.substr( 1 ) );
      if( !f.empty() ) r += sep + f;
      r += "E" + std::to_string( e );
   }
   return r;
}
static void checkDbl( Ctx &c, double v )
{
   c.step( 1 );
   for( char sep: { '.', ',' } )
   {
      string want = expectDbl( v, sep ), got = sx::DblToStrSep( v, sep );
      CK( got == want, "double to text", "DblToStrSep(%.17g [%016llx], '%c') = '%s', expected '%s'", v, (unsigned long long) bitsOf( v ), sep, got.c_str(), want.c_str() );
      char buf[256];
      memset( buf, '#', sizeof buf );
      int n = sx::DblToStrSep( v, sep, buf );
      CK( n == (int) want.size() && strnlen( buf, sizeof buf ) == want.size() && want == buf, "double to text in a buffer", "DblToStrSep(%.17g, '%c', buf) = %d '%s', expected '%s'", v, sep, n, string( buf, strnlen( buf, sizeof buf ) ).c_str(), want.c_str() );
   }
   string s = sx::DblToStr( v );
   CK( s == expectDbl( v, '.' ), "double to text", "DblToStr(%.17g) = '%s'", v, s.c_str() );
   string f = sp::FloatToStr( v );
   CK( f == s, "FloatToStr", "FloatToStr(%.17g) = '%s', DblToStr gives '%s'", v, f.c_str(), s.c_str() );
   // and back: the double nearest to the 15 digits
   double back = -1, want = strtod( fmt( "%.14e", v ).c_str(), nullptr );
   if( std::isinf( want ) ) return;// the largest values round beyond the range
   CK( sx::StrAsDoubleEx( s, back ), "text to double", "'%s' is refused", s.c_str() );
   CK( back == want, "text to double", "'%s' becomes %.17g, expected %.17g", s.c_str(), back, want );
}
static void scDblFormat( Ctx &c )
{
   int kind = c.choose( 3, "kind" );
   int e = c.choose( kind == 0 ? 2047 : kind == 1 ? 640 : 20, "exponent" );
   bool neg = c.flip( "negative" );
   uint64_t sign = neg ? 1ull << 63 : 0;
   if( kind == 0 )// every exponent x significand patterns
   {
      vector<uint64_t> m;
      for( uint64_t k = 0; k < ( c.thorough ? 400 : 40 ); k++ )
      {
         m.push_back( k );// low end
         m.push_back( ( 1ull << 52 ) - 1 - k );// high end
         m.push_back( ( k << 44 ) & ( ( 1ull << 52 ) - 1 ) );// short fractions
      }
      for( int b = 0; b < 52; b++ ) m.push_back( 1ull << b ), m.push_back( ( 1ull << 52 ) - ( 1ull << b ) );
      for( auto x: m )
         if( e || x ) checkDbl( c, fromBits( sign | (uint64_t) e << 52 | x ) );
   }
   else if( kind == 1 )// around decimal numbers of 1..3 and of 15..17 digits with every decimal exponent
   {
      int ex = e - 325;
      for( int d = 1; d < 1000; d += ( d < 20 || d > 990 || c.thorough ) ? 1 : 89 )
         for( const char *tail: { "", "000000000004", "000000000005", "000000000006", "999999999994", "999999999995", "999999999996", "49999999999999", "00000000000050" } )
         {
            string t = std::to_string( d ) + tail + "e" + std::to_string( ex - (int) strlen( tail ) );
            double v = strtod( t.c_str(), nullptr );
            if( v == 0 || std::isinf( v ) ) continue;
            checkDbl( c, neg ? -v : v );
         }
      double v = strtod( ( "1e" + std::to_string( ex ) ).c_str(), nullptr );
      for( int u = -20; u <= 20 && v > 0 && !std::isinf( v ); u++ )
         if( uint64_t b = bitsOf( v ) + u; std::isfinite( fromBits( b ) ) ) checkDbl( c, fromBits( sign | b ) );
   }
   else// integers and fractions of ordinary size
   {
      for( int k = 0; k < ( c.thorough ? 20000 : 2000 ); k++ )
      {
         double d = k;
         static const double scale[] = { 1, 10, 0.1, 0.01, 0.001, 1e-4, 1e-5, 1e-6, 0.5, 0.25, 1000, 1e6, 1e9, 1e11, 1e12, 1e13, 1e14, 1.0 / 3, 1e15, 1e20 };
         checkDbl( c, ( neg ? -1 : 1 ) * d * scale[e] );
      }
   }
   c.outcome( kind * 10000 + e * 2 + neg );
}
static void scNonFinite( Ctx &c )
{
   double v = c.pick( vector<double> { INFINITY, -INFINITY, NAN, -NAN } );
   char sep = c.flip( "comma" ) ? ',' : '.';
   c.step( 1 );
   string s = sx::DblToStrSep( v, sep );
   char buf[256];
   memset( buf, '#', sizeof buf );
   int n = sx::DblToStrSep( v, sep, buf );
   CK( n < 256 && (int) strnlen( buf, 256 ) == n && s == buf, "special double in a buffer", "'%s' versus '%s'", s.c_str(), string( buf, strnlen( buf, 256 ) ).c_str() );
   char *end;
   double w = strtod( s.c_str(), &end );
   CK( !s.empty() && !*end && ( std::isnan( v ) ? std::isnan( w ) : w == v ), "special double", "%g is shown as '%s'", v, s.c_str() );
   c.outcome( mc::hashStr( s ) );
}

// ------------------------------------------------------------------------------------------ text -> double
// [blanks][sign](digits[.digits*]|.digits*)[e[sign]digits]
static bool parseDbl( const string &s, double &v )
{
   size_t i = 0;
   while( i < s.size() && s[i] == ' ' ) i++;
   string t;
   if( i < s.size() && ( s[i] == '+' || s[i] == '-' ) ) t += s[i++];
   string a, b;
   bool dot = false;
   while( i < s.size() && isdigit( (unsigned char) s[i] ) ) a += s[i++];
   if( i < s.size() && s[i] == '.' )
   {
      dot = true;
      i++;
      while( i < s.size() && isdigit( (unsigned char) s[i] ) ) b += s[i++];
   }
   if( a.empty() && !dot ) return false;
   t += a.empty() ? "0" : a;
   t += "." + b;
   if( i < s.size() && ( s[i] == 'e' || s[i] == 'E' ) )
   {
      size_t j = i + 1;
      string x = "e";
      if( j < s.size() && ( s[j] == '+' || s[j] == '-' ) ) x += s[j++];
      size_t k = j;
      while( k < s.size() && isdigit( (unsigned char) s[k] ) ) x += s[k++];
      if( k == j ) return false;
      t += x;
      i = k;
   }
   if( i != s.size() ) return false;
   v = strtod( t.c_str(), nullptr );
   return true;
}
static void checkVal( Ctx &c, const string &s )
{
   c.step( 1 );
   double want = 0, got = -99;
   bool ok = parseDbl( s, want );
   int code = -99;
   utils::val( s, got, code );
   CK( ( code == 0 ) == ok && code >= 0 && code <= (int) s.size() + 1, "text to double accepts", "val('%s') gives code %d, %s expected", s.c_str(), code, ok ? "success" : "an error position" );
   if( ok ) CK( got == want && ( got != 0 || true ), "text to double value", "val('%s') = %.17g, expected %.17g", s.c_str(), got, want );
   // part of a longer text
   string longer = s + "7e5";
   got = -99, code = -99;
   utils::val( longer.c_str(), (int) s.size(), got, code );
   CK( ( code == 0 ) == ok && ( !ok || got == want ), "text to double with length", "the first %d characters of '%s' give %.17g with code %d", (int) s.size(), longer.c_str(), got, code );
   if( s.find_first_of( "dD" ) == string::npos )
   {
      got = -99;
      bool r = sx::StrAsDoubleEx( s, got );
      bool w = ok && std::isfinite( want );
      CK( r == w && ( !r || got == want ), "StrAsDoubleEx", "StrAsDoubleEx('%s') = %d, %.17g; expected %d, %.17g", s.c_str(), r, got, w, want );
      if( ok && s.find_first_of( "eE" ) != string::npos )// Fortran style exponents
         for( char ch: { 'd', 'D' } )
         {
            string t = s;
            for( auto &x: t )
               if( x == 'e' || x == 'E' ) x = ch;
            got = -99;
            r = sx::StrAsDoubleEx( t, got );
            CK( r == w && ( !r || got == want ), "StrAsDoubleEx", "StrAsDoubleEx('%s') = %d, %.17g; expected %d, %.17g", t.c_str(), r, got, w, want );
         }
   }
   c.outcome( mc::hashStr( fmt( "%.17g", ok ? want : NAN ) ) );
}
static void scParseStrings( Ctx &c )
{
   static const char al[] = "019.eE+- xn,\t$fa";
   int n = (int) strlen( al ), L = c.thorough ? 5 : 4;
   int len = c.choose( L + 1, "length" );
   string s;
   for( int i = 0; i < len && i < 2; i++ ) s += al[c.choose( n, "char" )];
   std::function<void( string & )> rec = [&]( string &t ) {
      if( (int) t.size() == len )
      {
         checkVal( c, t );
         return;
      }
      for( int k = 0; k < n; k++ )
      {
         t.push_back( al[k] );
         rec( t );
         t.pop_back();
      }
   };
   rec( s );
}
static void scParseValues( Ctx &c )
{
   int kind = c.choose( 4, "kind" );
   if( kind == 0 )// short decimals with every exponent, many spellings
   {
      int ex = c.choose( 700, "exponent" ) - 360;
      for( int d = 0; d < 1000; d += ( d < 30 || c.thorough ) ? 1 : 37 )
         for( int sp = 0; sp < 6; sp++ )
         {
            string t = std::to_string( d ), x = "e" + std::to_string( ex );
            switch( sp )
            {
               case 0: t += x; break;
               case 1: t = t.substr( 0, 1 ) + "." + t.substr( 1 ) + x; break;
               case 2: t = "-." + t + "E" + std::to_string( ex ); break;
               case 3: t = "000" + t + ".000" + x; break;
               case 4: t = "  +" + t + ( ex >= 0 ? "e+" : "E-" ) + "000" + std::to_string( std::abs( ex ) ); break;
               default: t = "0." + string( 30, '0' ) + t + "e" + std::to_string( ex + 30 );
            }
            checkVal( c, t );
         }
   }
   else if( kind == 1 )// 17 digits of doubles with every binary exponent and their midpoints
   {
      uint64_t e = (uint64_t) c.choose( 2047, "exponent" );
      for( uint64_t m: { 0ull, 1ull, 2ull, 3ull, 5ull, 0x5555555555555ull, 0xaaaaaaaaaaaaaull, 0xffffffffffffeull, 0xfffffffffffffull } )
      {
         double v = fromBits( e << 52 | m );
         checkVal( c, fmt( "%.16e", v ) );
         checkVal( c, fmt( "%.17g", -v ) );
         checkVal( c, fmt( "%.100e", v ) );
         // the midpoint to the next double is exact in long double; ties and their neighbours in 120 digits
         double w = fromBits( ( e << 52 | m ) + 1 );
         if( !std::isfinite( w ) ) continue;
         long double mid = ( (long double) v + (long double) w ) / 2;
         char b[900];
         snprintf( b, sizeof b, "%.800Le", mid );
         string t = b;
         size_t x = t.find( 'e' );
         string dg = t.substr( 0, x ), ee = t.substr( x );
         while( dg.back() == '0' ) dg.pop_back();
         if( dg.back() == '.' ) dg += "0";
         if( dg.size() < 70 )// the library considers 72 digits
         {
            checkVal( c, dg + ee );
            checkVal( c, dg + "1" + ee );
            string lo = dg;// slightly below
            lo.back()--;
            if( isdigit( (unsigned char) lo.back() ) ) checkVal( c, lo + "9" + ee );
         }
      }
   }
   else if( kind == 2 )// long texts
   {
      int n = c.pick( vector<int> { 19, 20, 40, 200, 250, 254, 255, 256, 257, 300, 1000, 5000 } );
      int sp = c.choose( 5, "spelling" );
      string t;
      switch( sp )
      {
         case 0: t = string( n, '1' ); break;
         case 1: t = "0." + string( n - 2, '0' ) + "1"; break;
         case 2: t = string( n - 1, ' ' ) + "5"; break;
         case 3: t = "1" + string( n - 6, '0' ) + "e-" + std::to_string( n % 10 ); break;
         default: t = "1." + string( n - 2, '9' ) + "x";
      }
      checkVal( c, t );
   }
   else
   {
      static const char *nm[] = { "maxdouble", "MAXDOUBLE", "MinDouble", "eps", "EPS", "maxdouble ", "epsx", "max", "inf", "nan", "infinity", "1e308", "1e309", "-1e309", "1.7976931348623157e308", "1.7976931348623159e308", "4.9e-324", "2e-324", "1e-400" };
      int k = c.choose( (int) ( sizeof nm / sizeof *nm ), "name" );
      double got = -99;
      bool r = sx::StrAsDoubleEx( nm[k], got );
      static const double want[] = { DBL_MAX, DBL_MAX, DBL_MIN, DBL_EPSILON, DBL_EPSILON };
      if( k < 5 ) CK( r && got == want[k], "StrAsDoubleEx names", "'%s' = %d, %g", nm[k], r, got );
      else
         checkVal( c, nm[k] );
   }
}

// ------------------------------------------------------------------------------------------ text -> int
// [blanks][sign](digits|$hexdigits|0xhexdigits); 0: refused, 1: accepted
static int parseInt( const string &s, __int128 &v, bool &hex )
{
   size_t i = 0;
   while( i < s.size() && s[i] == ' ' ) i++;
   bool neg = false;
   hex = false;
   if( i < s.size() && ( s[i] == '+' || s[i] == '-' ) ) neg = s[i++] == '-';
   if( i < s.size() && s[i] == '$' ) hex = true, i++;
   else if( i + 1 < s.size() && s[i] == '0' && ( s[i + 1] == 'x' || s[i + 1] == 'X' ) )
      hex = true, i += 2;
   if( i == s.size() ) return 0;
   v = 0;
   for( ; i < s.size(); i++ )
   {
      int d = isdigit( (unsigned char) s[i] ) ? s[i] - '0' : hex && isxdigit( (unsigned char) s[i] ) ? tolower( s[i] ) - 'a' + 10 : -1;
      if( d < 0 ) return 0;
      if( v < ( (__int128) 1 << 100 ) ) v = v * ( hex ? 16 : 10 ) + d;
   }
   if( neg ) v = -v;
   return 1;
}
static void checkInt( Ctx &c, const string &s )
{
   if( s.find( "$0x" ) != string::npos || s.find( "$0X" ) != string::npos ) return;// not judged
   c.step( 1 );
   __int128 w = 0;
   bool hex = false;
   bool ok = parseInt( s, w, hex ) == 1;
   // hexadecimal numbers denote 32 bit patterns
   if( ok ) ok = hex ? w >= -(__int128) 0xffffffffu && w <= (__int128) 0xffffffffu : w >= INT_MIN && w <= INT_MAX;
   int want = ok ? (int) (uint32_t) (int64_t) w : 0, got = -99, code = -99;
   utils::val( s, got, code );
   CK( ( code == 0 ) == ok && code >= 0 && code <= (int) s.size() + 1, "text to int accepts", "val('%s') = %d with code %d, %s expected", s.c_str(), got, code, ok ? "success" : "an error" );
   CK( !ok || got == want, "text to int value", "val('%s') = %d, expected %d", s.c_str(), got, want );
   string longer = s + "75";
   int g2 = -99;
   code = -99;
   utils::val( longer.c_str(), (int) s.size(), g2, code );
   CK( ( code == 0 ) == ok && ( !ok || g2 == want ), "text to int with length", "the first %d characters of '%s' give %d with code %d", (int) s.size(), longer.c_str(), g2, code );
   got = -99;
   bool r = sx::StrAsIntEx( s, got );
   CK( r == ok && ( !ok || got == want ), "StrAsIntEx", "StrAsIntEx('%s') = %d, %d", s.c_str(), r, got );
   got = sx::StrAsInt( s );
   CK( got == want, "StrAsInt", "StrAsInt('%s') = %d, expected %d", s.c_str(), got, want );
   // integer or double with an integer value
   got = -99;
   r = sx::StrAsIntEx2( s, got );
   double d;
   bool ok2 = ok, dok = parseDbl( s, d );
   int want2 = want;
   if( !ok && dok && d >= INT_MIN && d <= INT_MAX && d == std::floor( d ) ) ok2 = true, want2 = (int) d;
   CK( r == ok2 && ( !ok2 || got == want2 ), "StrAsIntEx2", "StrAsIntEx2('%s') = %d, %d, expected %d, %d", s.c_str(), r, got, ok2, want2 );
   // 64 bit: [blanks](-digits|digits|$digits), refused texts give the lowest value
   bool sg = s.find_first_of( "+xX" ) != string::npos || s.find( "-$" ) != string::npos || s.empty() || s.back() == ' ' || s.back() == '-' || s.back() == '$';
   if( !sg )
   {
      __int128 w64 = 0;
      bool h = false, k = parseInt( s, w64, h ) == 1;
      if( !k || ( w64 >= LLONG_MIN && w64 <= LLONG_MAX ) )// the reaction to overflow is not judged
      {
         int64_t x = sp::StrToInt64( s ), wx = k ? (int64_t) w64 : LLONG_MIN;
         CK( x == wx, "StrToInt64", "StrToInt64('%s') = %lld, expected %lld", s.c_str(), (long long) x, (long long) wx );
         int y = sp::StrToInt( s ), wy = wx >= INT_MIN && wx <= INT_MAX ? (int) wx : INT_MIN;
         CK( y == wy, "StrToInt", "StrToInt('%s') = %d, expected %d", s.c_str(), y, wy );
      }
   }
   c.outcome( mc::hashStr( std::to_string( ok ) + std::to_string( want ) ) );
}
static void scParseInts( Ctx &c )
{
   static const char al[] = "0179+- $xXaFg.e";
   int n = (int) strlen( al ), L = c.thorough ? 5 : 4;
   int len = c.choose( L + 1, "length" );
   string s;
   for( int i = 0; i < len && i < 2; i++ ) s += al[c.choose( n, "char" )];
   std::function<void( string & )> rec = [&]( string &t ) {
      if( (int) t.size() == len )
      {
         checkInt( c, t );
         return;
      }
      for( int k = 0; k < n; k++ )
      {
         t.push_back( al[k] );
         rec( t );
         t.pop_back();
      }
   };
   rec( s );
}
static string i128( __int128 v )
{
   if( v == 0 ) return "0";
   string r;
   bool neg = v < 0;
   if( neg ) v = -v;
   while( v ) r = (char) ( '0' + (int) ( v % 10 ) ) + r, v /= 10;
   return ( neg ? "-" : "" ) + r;
}
static string hex128( __int128 v, bool up )
{
   string r;
   bool neg = v < 0;
   if( neg ) v = -v;
   do r = ( up ? "0123456789ABCDEF" : "0123456789abcdef" )[(int) ( v % 16 )] + r, v /= 16;
   while( v );
   return ( neg ? "-" : "" ) + r;
}
static vector<__int128> interesting()
{
   vector<__int128> v;
   for( int b = 0; b <= 66; b++ )
      for( int d = -2; d <= 2; d++ ) v.push_back( ( (__int128) 1 << b ) + d );
   __int128 p = 1;
   for( int k = 0; k <= 20; k++, p *= 10 )
      for( int d = -2; d <= 2; d++ )
         for( int m: { 1, 2, 5, 9 } ) v.push_back( p * m + d );
   return v;
}
static void scIntLimits( Ctx &c )
{
   static const vector<__int128> v = interesting();
   __int128 x = v[c.choose( (int) v.size(), "value" )];
   if( c.flip( "negative" ) ) x = -x;
   for( const char *pre: { "", " ", "+", "000", "   +00" } )
      if( x >= 0 || !strchr( pre, '+' ) )
      {
         string t = i128( x );
         if( t[0] == '-' ) t = strspn( pre, " " ) == strlen( pre ) ? pre + t : "-" + string( pre ) + t.substr( 1 );
         else
            t = pre + t;
         checkInt( c, t );
         checkInt( c, t + ".0" );
         checkInt( c, t + "e0" );
         checkInt( c, t + "E1" );
      }
   for( const char *pre: { "$", "0x", "0X" } )
      for( bool up: { true, false } )
      {
         string t = hex128( x, up );
         checkInt( c, t[0] == '-' ? string( "-" ) + pre + t.substr( 1 ) : pre + t );
      }
   for( int n: { 250, 255, 256, 257, 1000 } )// very long texts
   {
      checkInt( c, string( n, ' ' ) + i128( x ) );
      checkInt( c, ( x < 0 ? "-" : "" ) + string( n, '0' ) + i128( x < 0 ? -x : x ) );
      checkInt( c, i128( x ) + string( n, '9' ) );
   }
   int got;
   CK( sx::StrAsIntEx( "maxint", got ) && got == INT_MAX && sx::StrAsIntEx( "MinInt", got ) && got == INT_MIN, "StrAsIntEx names", "%d", got );
}

// ------------------------------------------------------------------------------------------ int -> text
static void checkIntFormat( Ctx &c, int64_t x )
{
   c.step( 1 );
   string want = i128( x );
   string got = sp::IntToStr( x );
   CK( got == want, "IntToStr", "IntToStr(%s) = '%s'", want.c_str(), got.c_str() );
   char buf[256];
   memset( buf, '#', sizeof buf );
   size_t len = 999;
   sp::IntToStr( x, buf, len );
   CK( len == want.size() && strnlen( buf, 256 ) == len && want == buf, "IntToStr buffer", "IntToStr(%s) = '%s', %zu", want.c_str(), string( buf, strnlen( buf, 256 ) ).c_str(), len );
   CK( sp::StrToInt64( want ) == x, "StrToInt64", "StrToInt64('%s') = %lld", want.c_str(), (long long) sp::StrToInt64( want ) );
   // thousands separators
   string nice = x < 0 ? want.substr( 1 ) : want;
   for( int i = (int) nice.size() - 3; i > 0; i -= 3 ) nice.insert( i, "," );
   if( x < 0 ) nice = "-" + nice;
   got = sx::IntToNiceStr( x );
   CK( got == nice, "IntToNiceStr", "IntToNiceStr(%s) = '%s', expected '%s'", want.c_str(), got.c_str(), nice.c_str() );
   for( int w: { -1, 0, 1, (int) nice.size() - 1, (int) nice.size(), (int) nice.size() + 1, 30, 254, 255 } )
   {
      got = sx::IntToNiceStrW( x, w );
      string e = ( w > (int) nice.size() ? string( w - nice.size(), ' ' ) : "" ) + nice;
      CK( got == e, "IntToNiceStrW", "IntToNiceStrW(%s, %d) = '%s'", want.c_str(), w, got.c_str() );
   }
   for( int w: { 300, 100000 } )
   {
      got = sx::IntToNiceStrW( x, w );
      CK( got.size() == 255 && got == string( 255 - nice.size(), ' ' ) + nice, "IntToNiceStrW", "IntToNiceStrW(%s, %d) = '%s'", want.c_str(), w, got.c_str() );
   }
   // hexadecimal
   char hb[40];
   snprintf( hb, sizeof hb, "%llX", (unsigned long long) x );
   string h = hb;
   for( int w: { 0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 1000 } )
   {
      got = sp::IntToHex( x, w );
      string e = ( w <= 32 && w > (int) h.size() ? string( w - h.size(), '0' ) : "" ) + h;
      CK( got == e, "IntToHex", "IntToHex(%s, %d) = '%s', expected '%s'", want.c_str(), w, got.c_str(), e.c_str() );
   }
   if( x >= INT_MIN && x <= INT_MAX )
   {
      int v = -99, k = -99;
      utils::val( want, v, k );
      CK( v == x && !k, "text to int value", "val('%s') = %d", want.c_str(), v );
      int wd = sx::IntegerWidth( (int) x );
      CK( wd == (int) want.size(), "IntegerWidth", "IntegerWidth(%s) = %d", want.c_str(), wd );
   }
   if( x > 0 && x <= INT_MAX )
   {
      // spreadsheet columns: A..Z, AA..ZZ, ...
      string col;
      for( int64_t q = x; q; q = ( q - 1 ) / 26 ) col = (char) ( 'A' + ( q - 1 ) % 26 ) + col;
      got = sx::ExcelColStr( (int) x );
      CK( got == col, "ExcelColStr", "ExcelColStr(%s) = '%s', expected '%s'", want.c_str(), got.c_str(), col.c_str() );
      int back = sx::StrExcelCol( col );
      CK( back == x, "StrExcelCol", "StrExcelCol('%s') = %d, expected %s", col.c_str(), back, want.c_str() );
      string low = col;
      for( auto &z: low ) z = (char) tolower( z );
      CK( sx::StrExcelCol( low ) == x, "StrExcelCol", "StrExcelCol('%s') = %d", low.c_str(), sx::StrExcelCol( low ) );
   }
   c.outcome( (uint64_t) x );
}
static void scIntFormat( Ctx &c )
{
   static const vector<__int128> v = interesting();
   if( c.flip( "small" ) )
   {
      int b = c.choose( c.thorough ? 1000 : 40, "block" );
      for( int i = 0; i < 500; i++ )
      {
         checkIntFormat( c, b * 500 + i );
         checkIntFormat( c, -( b * 500 + i ) );
      }
      return;
   }
   __int128 x = v[c.choose( (int) v.size(), "value" )];
   for( __int128 y: { x, -x } )
      if( y >= LLONG_MIN && y <= LLONG_MAX ) checkIntFormat( c, (int64_t) y );
}
static void scColumns( Ctx &c )
{
   // texts that are no column or beyond the range of int
   static const char al[] = "AZzM1 ";
   int len = c.choose( c.thorough ? 9 : 8, "length" );
   string s;
   for( int i = 0; i < len; i++ ) s += al[c.choose( i < 4 ? 6 : 3, "char" )];
   c.step( 1 );
   __int128 w = 0;
   for( char ch: s )
   {
      int j = toupper( ch ) - 'A';
      if( j < 0 || j > 25 )
      {
         w = 0;
         break;
      }
      w = w * 26 + j + 1;
   }
   if( w > INT_MAX ) w = 0;
   int g = sx::StrExcelCol( s );
   CK( g == (int) w, "StrExcelCol", "StrExcelCol('%s') = %d, expected %s", s.c_str(), g, i128( w ).c_str() );
   if( len == 0 )// the first columns beyond the range
      for( int64_t x = (int64_t) INT_MAX + 1; x < (int64_t) INT_MAX + 3000; x++ )
      {
         string col;
         for( int64_t q = x; q; q = ( q - 1 ) / 26 ) col = (char) ( 'A' + ( q - 1 ) % 26 ) + col;
         CK( sx::StrExcelCol( col ) == 0, "StrExcelCol", "StrExcelCol('%s') = %d, expected 0", col.c_str(), sx::StrExcelCol( col ) );
      }
   for( int x: { 0, -1, INT_MIN } ) CK( sx::ExcelColStr( x ).empty(), "ExcelColStr", "ExcelColStr(%d) = '%s'", x, sx::ExcelColStr( x ).c_str() );
   c.outcome( (uint64_t) w );
}

// ------------------------------------------------------------------------------------------ dates
static int64_t daysCivil( int64_t y, int m, int d )// days since 1970-01-01
{
   y -= m <= 2;
   int64_t era = ( y >= 0 ? y : y - 399 ) / 400;
   int64_t yoe = y - era * 400, doy = ( 153 * ( m + ( m > 2 ? -3 : 9 ) ) + 2 ) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
   return era * 146097 + doe - 719468;
}
static bool leap( int y ) { return ( y % 4 == 0 && y % 100 != 0 ) || y % 400 == 0; }
static int mdays( int y, int m )
{
   static const int d[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
   return m == 2 && leap( y ) ? 29 : d[m - 1];
}
static void scDates( Ctx &c )
{
   int y = 1 + c.choose( 9999, "year" );
   for( int m = 1; m <= 12; m++ )
      for( int d = 1; d <= mdays( y, m ); d++ )
      {
         c.step( 1 );
         double want = (double) ( daysCivil( y, m, d ) + 25569 );// days since 1899-12-30
         double t = -1;
         bool ok = sp::tryEncodeDate( (uint16_t) y, (uint16_t) m, (uint16_t) d, t );
         CK( ok && t == want, "tryEncodeDate", "%04d-%02d-%02d gives %d, %.1f, expected %.1f", y, m, d, ok, t, want );
         if( y >= 1600 )
         {
            double e = sp::EncodeDate( (uint16_t) y, (uint16_t) m, (uint16_t) d );
            CK( e == want, "EncodeDate", "%04d-%02d-%02d gives %.1f, expected %.1f", y, m, d, e, want );
         }
         for( double f: { 0.0, 0.25, 0.999 } )
         {
            // the time of day counts away from zero
            double dt = want < 0 ? want - f : want + f;
            uint16_t yy = 0, mm = 0, dd = 0;
            sp::DecodeDate( dt, yy, mm, dd );
            CK( yy == y && mm == m && dd == d, "DecodeDate", "%.3f decodes to %04d-%02d-%02d, expected %04d-%02d-%02d", dt, yy, mm, dd, y, m, d );
         }
      }
   for( int m = 0; m <= 13; m++ )// dates that do not exist
      for( int d: { 0, 29, 30, 31, 32, 65535 } )
         if( m < 1 || m > 12 || d < 1 || d > mdays( y, m ) )
         {
            double t;
            CK( !sp::tryEncodeDate( (uint16_t) y, (uint16_t) m, (uint16_t) d, t ), "tryEncodeDate", "%04d-%02d-%02d is accepted", y, m, d );
         }
   CK( sp::isLeapYear( y ) == leap( y ), "isLeapYear", "%d", y );
   c.outcome( y );
}
static void scTimes( Ctx &c )
{
   int h = c.choose( 24, "hour" );
   int mi = c.choose( 60, "minute" );
   for( int s = 0; s < 60; s++ )
      for( int ms: { 0, 1, 2, 42, 499, 500, 501, 998, 999 } )
      {
         c.step( 1 );
         double t = sp::EncodeTime( (uint16_t) h, (uint16_t) mi, (uint16_t) s, (uint16_t) ms );
         uint16_t hh = 0, mm = 0, ss = 0, mss = 0;
         sp::DecodeTime( t, hh, mm, ss, mss );
         CK( hh == h && mm == mi && ss == s && mss == ms, "time of day", "%02d:%02d:%02d.%03d decodes to %02d:%02d:%02d.%03d", h, mi, s, ms, hh, mm, ss, mss );
         for( int y: { 1601, 1899, 1980, 2024, 9999 } )
         {
            double dt = sp::EncodeDateTime( (uint16_t) y, 2, 28, (uint16_t) h, (uint16_t) mi, (uint16_t) s, (uint16_t) ms );
            if( dt < 0 ) continue;// time fractions before 1899-12-30 are not judged
            uint16_t yy = 0, mo = 0, dd = 0;
            sp::DecodeTime( dt, hh, mm, ss, mss );
            sp::DecodeDate( dt, yy, mo, dd );
            CK( hh == h && mm == mi && ss == s && mss == ms && yy == y && mo == 2 && dd == 28, "date and time", "%04d-02-28 %02d:%02d:%02d.%03d decodes to %04d-%02d-%02d %02d:%02d:%02d.%03d", y, h, mi, s, ms, yy, mo, dd, hh, mm, ss, mss );
         }
      }
   c.outcome( h * 60 + mi );
}
static void scFileDates( Ctx &c )
{
   string tz = c.pick( vector<string> { "UTC0", "XST-5:30", "YST8", "CET-1CEST,M3.5.0,M10.5.0/3" } );
   int y = 1980 + c.choose( 58, "year" );
   setenv( "TZ", tz.c_str(), 1 );
   tzset();
   for( int day = 0; day < ( c.thorough ? 365 : 365 ); day += c.thorough ? 1 : 7 )
      for( int sec: { 0, 1, 59, 3600, 10800, 43200, 86399 } )
      {
         c.step( 1 );
         int64_t tt = ( daysCivil( y, 1, 1 ) + day ) * 86400 + sec;
         if( tt > INT_MAX ) continue;
         tm lt;
         time_t q = tt;
         localtime_r( &q, &lt );
         double dt = sp::FileDateToDateTime( (int) tt );
         uint16_t yy = 0, mo = 0, dd = 0, hh = 0, mm = 0, ss = 0, ms = 0;
         sp::DecodeDate( dt, yy, mo, dd );
         sp::DecodeTime( dt, hh, mm, ss, ms );
         CK( yy == lt.tm_year + 1900 && mo == lt.tm_mon + 1 && dd == lt.tm_mday && hh == lt.tm_hour && mm == lt.tm_min && ss == lt.tm_sec && ms == 0, "file date", "%lld in %s decodes to %04d-%02d-%02d %02d:%02d:%02d", (long long) tt, tz.c_str(), yy, mo, dd, hh, mm, ss );
         if( yy < 1980 ) continue;
         tm l2 = lt;
         l2.tm_isdst = -1;
         time_t b = mktime( &l2 );
         if( b != tt ) continue;// the repeated hour
         int back = sp::DateTimeToFileDate( dt );
         CK( back == (int) tt, "file date", "%lld becomes %d", (long long) tt, back );
      }
   c.outcome( mc::hashStr( tz + std::to_string( y ) ) );
}

// results do not depend on what was converted before
static void scHistory( Ctx &c )
{
   static const double v[] = { 0.1, 1e300, 1e-300, 123456789.125, 5e-324, 1.7976931348623157e308 };
   int n = c.thorough ? 5 : 4;
   string seq;
   for( int i = 0; i < n; i++ )
   {
      int op = c.choose( 9, "op" );
      c.step( 1 );
      if( op < 6 ) checkDbl( c, v[op] );
      else if( op == 6 )
         checkVal( c, "1.00000000000000000000000000000000000000000000000000001e0" );
      else if( op == 7 )
         checkVal( c, "1e-400" );
      else
         checkVal( c, "bad" );
      seq += (char) ( '0' + op );
   }
   c.outcome( mc::hashStr( seq ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P28";
   d.sc = {
           { "double-format", scDblFormat, 3, "every binary exponent x 224 (1304) significands; decimals of 1..3 digits with 9 tails x every decimal exponent, 41 neighbours of each power of ten; 20 x 2000 (20000) ordinary numbers; both signs, 2 separators, all formatting functions" },
           { "special-doubles", scNonFinite, 3, "infinities and NaN" },
           { "double-parse", scParseStrings, 3, "all texts of length 0..4 (5) over 16 characters, whole and as part of a longer text" },
           { "double-values", scParseValues, 3, "decimals of 1..3 digits x 700 exponents x 6 spellings; 9 significands x every binary exponent in 17 and 101 digits with midpoints to the next double and neighbours; texts of up to 5000 characters; names" },
           { "int-parse", scParseInts, 3, "all texts of length 0..4 (5) over 15 characters" },
           { "int-limits", scIntLimits, 3, "neighbours of all powers of two and ten up to 2^66 and 10^20, both signs, decimal and hexadecimal spellings, up to 1000 characters more" },
           { "int-format", scIntFormat, 3, "0..20000 (500000), neighbours of all powers of two and ten, both signs; 15 hexadecimal and 11 decimal widths; spreadsheet columns" },
           { "columns", scColumns, 3, "texts of length 0..7 (8) over 6 (3) characters" },
           { "dates", scDates, 3, "every day of the years 1..9999 x 3 times of day, dates that do not exist" },
           { "times", scTimes, 3, "every second of a day x 9 milliseconds x 6 dates" },
           { "file-dates", scFileDates, 3, "years 1980..2037 every 7th (every) day x 7 times x 4 time zones" },
           { "history", scHistory, 3, "all sequences of 4 (5) of 9 conversions" },
   };
   return d.main( argc, argv );
}
