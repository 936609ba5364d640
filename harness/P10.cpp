// P10: every double and every special value keeps its identity under every special value table.
#include "gdxh.hpp"
using namespace gh;
using Table = std::array<double, 5>;// undef, na, +inf, -inf, eps

static const Table DEF { 1e300, 2e300, 3e300, 4e300, 5e300 };
static const double ACR = 1e301;

struct Coded
{
   int sv;// 0..4 special, 5 ordinary
   double x;
};
static Coded encode( double x, const Table &w )
{
   for( int i = 0; i < 5; i++ )
      if( bits( w[(size_t) i] ) == bits( x ) ) return { i, 0 };
   if( x == 0.0 ) return { 5, 0.0 };
   if( std::isnan( x ) ) return { 1, 0 };
   if( std::isinf( x ) ) return { x > 0 ? 2 : 3, 0 };
   return { 5, x };
}
static double decode( const Coded &k, const Table &r ) { return k.sv < 5 ? r[(size_t) k.sv] : k.x; }

static bool dup( const Table &t )
{
   for( int i = 0; i < 5; i++ )
      for( int j = 0; j < i; j++ )
         if( bits( t[(size_t) i] ) == bits( t[(size_t) j] ) ) return true;
   return false;
}
static int setTable( Obj &o, const Table &t )
{
   double a[7];
   o->gdxGetSpecialValues( a );
   for( int i = 0; i < 5; i++ ) a[i] = t[(size_t) i];
   return o->gdxSetSpecialValues( a );
}
static int setRead( Obj &o, const Table &t )
{
   double a[7];
   o->gdxGetSpecialValues( a );
   for( int i = 0; i < 5; i++ ) a[i] = t[(size_t) i];
   return o->gdxSetReadSpecialValues( a );
}
static string showT( const Table &t )
{
   string s;
   for( double d: t ) s += " " + showVal( d );
   return s;
}
static void checkTable( Ctx &c, Obj &o, const Table &w, const vector<double> &vals, const char *when )
{
   double a[7];
   for( auto &x: a ) x = JUNKV;
   CK( o->gdxGetSpecialValues( a ), "get", "GetSpecialValues fails" );
   for( int i = 0; i < 5; i++ ) CK( bits( a[i] ) == bits( w[(size_t) i] ), "get", "%s: special value %d is %s, expected %s", when, i, showVal( a[i] ).c_str(), showVal( w[(size_t) i] ).c_str() );
   CK( a[6] == ACR, "get", "%s: acronym base %s", when, showVal( a[6] ).c_str() );
   vector<double> all = vals;
   all.insert( all.end(), w.begin(), w.end() );
   for( double x: all )
   {
      int sv = -3, want = 5;
      for( int i = 4; i >= 0; i-- )
         if( bits( w[(size_t) i] ) == bits( x ) ) want = i;
      int r = o->gdxMapValue( x, sv );
      CK( ( r != 0 ) == ( want < 5 ) && sv == want, "classify", "%s: MapValue(%s) gives %d, class %d, expected class %d (table%s)", when, showVal( x ).c_str(), r, sv, want, showT( w ).c_str() );
   }
}

static void writeSym( Ctx &c, Obj &o, const char *name, int type, const vector<Vals> &rows, int mode )
{
   int n = (int) rows.size();
   if( mode == 0 ) CK( o->gdxDataWriteRawStart( name, "", 1, type, 5 ), "setup", "start" );
   if( mode == 1 ) CK( o->gdxDataWriteStrStart( name, "", 1, type, 5 ), "setup", "start" );
   if( mode == 2 ) CK( o->gdxDataWriteMapStart( name, "", 1, type, 5 ), "setup", "start" );
   for( int i = 0; i < n; i++ )
   {
      double v[5];
      for( int d = 0; d < 5; d++ ) v[d] = rows[(size_t) i][(size_t) d];
      int k[20] = { i + 1 };
      if( mode == 1 )
      {
         KeyIn ki( { fmt( "e%d", i + 1 ) } );
         CK( o->gdxDataWriteStr( ki.get(), v ), "write", "record %d refused", i + 1 );
      }
      else
         CK( mode == 0 ? o->gdxDataWriteRaw( k, v ) : o->gdxDataWriteMap( k, v ), "write", "record %d refused", i + 1 );
   }
   CK( o->gdxDataWriteDone(), "setup", "done" );
}
static void regElems( Ctx &c, Obj &o, int n, int mode )
{
   if( mode == 1 ) return;
   CK( mode == 0 ? o->gdxUELRegisterRawStart() : o->gdxUELRegisterMapStart(), "setup", "reg" );
   for( int i = 1; i <= n; i++ )
   {
      string s = fmt( "e%d", i );
      CK( mode == 0 ? o->gdxUELRegisterRaw( s.c_str() ) : o->gdxUELRegisterMap( i, s.c_str() ), "setup", "reg" );
   }
   CK( o->gdxUELRegisterDone(), "setup", "reg" );
}
static vector<Vals> *fastRows;
static int fastNv;
static void cbFast( const int *, const double *v )
{
   Vals x {};
   for( int d = 0; d < fastNv; d++ ) x[(size_t) d] = v[d];
   fastRows->push_back( x );
}
static vector<Vals> readSym( Ctx &c, Obj &o, int sy, int type, int mode, int n )
{
   vector<Vals> out;
   int cnt;
   if( mode == 3 )
   {
      fastRows = &out;
      fastNv = nvals( type );
      CK( o->gdxDataReadRawFast( sy, cbFast, cnt ), "read", "fast" );
      return out;
   }
   if( mode == 2 )
   {
      o->gdxUELRegisterMapStart();
      for( int i = 1; i <= n; i++ ) o->gdxUELRegisterMap( i, fmt( "e%d", i ).c_str() );
      o->gdxUELRegisterDone();
   }
   CK( mode == 0 ? o->gdxDataReadRawStart( sy, cnt ) : mode == 1 ? o->gdxDataReadStrStart( sy, cnt ) : o->gdxDataReadMapStart( sy, cnt ), "read", "start" );
   while( true )
   {
      int k[20], df;
      double v[5];
      for( auto &x: v ) x = JUNKV;
      KeyBuf kb;
      int r = mode == 0 ? o->gdxDataReadRaw( k, v, df ) : mode == 1 ? o->gdxDataReadStr( kb.get(), v, df ) : o->gdxDataReadMap( (int) out.size() + 1, k, v, df );
      if( !r ) break;
      Vals x {};
      for( int d = 0; d < nvals( type ); d++ ) x[(size_t) d] = v[d];
      out.push_back( x );
   }
   o->gdxDataReadDone();
   return out;
}
static void compare( Ctx &c, const vector<Vals> &wr, const vector<Vals> &rd, int type, const Table &w, const Table &r, const char *how )
{
   CK( wr.size() == rd.size(), "records", "%s: %zu records read, %zu written", how, rd.size(), wr.size() );
   for( size_t i = 0; i < wr.size(); i++ )
      for( int d = 0; d < nvals( type ); d++ )
      {
         double want = decode( encode( wr[i][(size_t) d], w ), r );
         CK( bits( want ) == bits( rd[i][(size_t) d] ), "value", "%s: %s (%016llx) written in field %d is read as %s, expected %s (write table%s; read table%s)", how, showVal( wr[i][(size_t) d] ).c_str(), (unsigned long long) bits( wr[i][(size_t) d] ), d, showVal( rd[i][(size_t) d] ).c_str(), showVal( want ).c_str(), showT( w ).c_str(), showT( r ).c_str() );
      }
}

// ---- all value classes
static vector<double> universe( bool thorough )
{
   vector<double> v;
   vector<uint64_t> man { 0, 1, 1ull << 51, ( 1ull << 52 ) - 1, 0x5555555555555ull & ( ( 1ull << 52 ) - 1 ) };
   if( thorough )
   {
      for( int b = 0; b < 52; b++ ) man.push_back( 1ull << b );
      for( int b = 1; b < 52; b++ ) man.push_back( ( 1ull << b ) - 1 );
   }
   for( int e = 0; e < 2048; e++ )
      for( uint64_t s = 0; s < 2; s++ )
         for( uint64_t m: man ) v.push_back( fromBits( s << 63 | (uint64_t) e << 52 | m ) );
   for( double b: { 1e300, 2e300, 3e300, 4e300, 5e300, 1.0, -1.0, 0.5, 2.0, 0.0, 1e301, -1e301, -1e300, -5e300 } )
      for( int d = -3; d <= 3; d++ ) v.push_back( fromBits( bits( b ) + (uint64_t) d ) );
   for( int i = -300; i <= 300; i++ )
   {
      v.push_back( i );
      v.push_back( i + 0.1 );
   }
   for( uint64_t b = 0; b < 256; b++ ) v.push_back( fromBits( 0x3ff0000000000000ull | b << 44 | b ) );
   vector<double> r;
   for( double x: v )
      if( !( x >= ACR ) || std::isinf( x ) ) r.push_back( x );// acronyms: P11
   for( int k = 1; k < 20; k++ ) r.push_back( ACR * k );
   return r;
}
static void allValues( Ctx &c )
{
   static const vector<double> V = universe( c.thorough );
   const int CH = 600;
   int nch = (int) ( V.size() + CH - 1 ) / CH;
   int ch = c.choose( nch, "chunk" ), wm = c.choose( 3, "write mode" ), ty = c.choose( 3, "type" ), comp = c.choose( 2, "compress" );
   int type = ty == 0 ? T_PAR : ty == 1 ? T_VAR : T_EQU;
   vector<double> part( V.begin() + ch * CH, V.begin() + std::min<long>( (long) V.size(), ( ch + 1 ) * CH ) );
   vector<Vals> rows;
   if( type == T_PAR )
      for( double x: part ) rows.push_back( { x, 0, 0, 0, 0 } );
   else
      for( size_t i = 0; i < part.size(); i++ )
      {
         Vals r;
         for( size_t d = 0; d < 5; d++ ) r[d] = part[( i + d * 7 ) % part.size()];
         rows.push_back( r );
      }
   string fn = c.path( "v.gdx" );
   {
      Obj o;
      int rc;
      CK( o->gdxOpenWriteEx( fn.c_str(), "p10", comp, rc ), "setup", "open" );
      regElems( c, o, (int) rows.size(), wm );
      writeSym( c, o, "s", type, rows, wm );
      CK( o->gdxClose() == 0, "setup", "close" );
   }
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   c.note( fmt( "chunk %d of %d (%zu values) type %d mode %d", ch, nch, part.size(), type, wm ) );
   for( int rm = 0; rm < 4; rm++ )
   {
      compare( c, rows, readSym( c, o, 1, type, rm, (int) rows.size() ), type, DEF, DEF, "default table" );
      c.step( rows.size() );
   }
   checkTable( c, o, DEF, part, "reading" );
   Table t { -11, 12.25, 1e99, -1e99, fromBits( 0x8000000000000000ull ) };
   setTable( o, t );
   compare( c, rows, readSym( c, o, 1, type, 0, (int) rows.size() ), type, DEF, t, "own table" );
   checkTable( c, o, t, part, "own table" );
   o->gdxClose();
   c.state( (uint64_t) ( ( ch * 3 + wm ) * 6 + ty * 2 + comp ) );
}

// ---- all combinations of classes in the five fields
static void fields( Ctx &c )
{
   static const vector<double> PAL { 0.0, 1.0, -1.0, 0.5, 2.0, 1e300, 2e300, 3e300, 4e300, 5e300, 3.14159, -0.0, 1e301 };
   size_t np = c.thorough ? PAL.size() : 8;
   vector<double> pal = PAL;
   if( !c.thorough ) pal = { 0.0, 1.0, 2.0, 2e300, 3e300, 5e300, 3.14159, 1e301 };
   size_t a = (size_t) c.choose( (int) np, "level" ), b = (size_t) c.choose( (int) np, "marginal" );
   int type = c.flip( "equation" ) ? T_EQU : T_VAR;
   int wm = c.choose( 2, "mode" );
   vector<Vals> rows;
   for( size_t i = 0; i < np; i++ )
      for( size_t j = 0; j < np; j++ )
         for( size_t k = 0; k < np; k++ ) rows.push_back( { pal[a], pal[b], pal[i], pal[j], pal[k] } );
   string fn = c.path( "f.gdx" );
   {
      Obj o;
      int rc;
      CK( o->gdxOpenWrite( fn.c_str(), "p10", rc ), "setup", "open" );
      regElems( c, o, (int) rows.size(), wm );
      writeSym( c, o, "s", type, rows, wm );
      CK( o->gdxClose() == 0, "setup", "close" );
   }
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   c.note( fmt( "level %g marginal %g, %zu combinations of the other fields", pal[a], pal[b], rows.size() ) );
   c.step( rows.size() );
   compare( c, rows, readSym( c, o, 1, type, 0, 0 ), type, DEF, DEF, "all fields" );
   c.state( a * 64 + b );
   o->gdxClose();
}

// ---- all tables
static const double QNAN = fromBits( 0x7ff8000000000000ull ), NAN2 = fromBits( 0xfff8000000000123ull );
static void tables( Ctx &c )
{
   static const vector<double> CAND { 0 /*default*/, 1.0, 42.5, QNAN, INFINITY, -INFINITY, -0.0, 0.0, 3e300 };
   int nc = c.thorough ? 9 : 6;
   Table t;
   for( int i = 0; i < 5; i++ )
   {
      int k = c.choose( nc, "value" );
      t[(size_t) i] = k == 0 ? DEF[(size_t) i] : CAND[(size_t) k];
   }
   bool refused = dup( t );
   vector<double> vals { 1.0, 42.5, QNAN, NAN2, INFINITY, -INFINITY, -0.0, 0.0, 1e300, 2e300, 3e300, 4e300, 5e300, -1.0, 0.5, 2.0, 7.0, -42.5 };
   vector<Vals> rows;
   for( double x: vals ) rows.push_back( { x, 0, 0, 0, 0 } );
   string fn = c.path( "t.gdx" );
   Table w = refused ? DEF : t;
   {
      Obj o;
      int rc;
      CK( o->gdxOpenWrite( fn.c_str(), "p10", rc ), "setup", "open" );
      int r = setTable( o, t );
      c.note( fmt( "table%s -> %d", showT( t ).c_str(), r ) );
      CK( ( r != 0 ) == !refused, "set", "SetSpecialValues(%s) returns %d", showT( t ).c_str(), r );
      CK( ( o->gdxGetLastError() != 0 ) == refused, "set", "error state after SetSpecialValues(%s)", showT( t ).c_str() );
      checkTable( c, o, w, vals, "writing" );
      regElems( c, o, (int) vals.size(), 0 );
      writeSym( c, o, "s", T_PAR, rows, 0 );
      CK( o->gdxDataWriteRawStart( "v", "", 0, T_VAR, 5 ) && o->gdxDataWriteDone(), "setup", "scalar" );
      CK( o->gdxClose() == 0, "setup", "close" );
   }
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   compare( c, rows, readSym( c, o, 1, T_PAR, 0, 0 ), T_PAR, w, DEF, "read with default table" );
   setTable( o, t );
   compare( c, rows, readSym( c, o, 1, T_PAR, 1, 0 ), T_PAR, w, w, "read with the same table" );
   checkTable( c, o, w, vals, "reading" );
   auto defrec = [&]( const Table &r, const char *how ) {
      auto x = readSym( c, o, 2, T_VAR, 0, 0 );
      CK( x.size() == 1, "default-record", "%zu records of an empty scalar variable", x.size() );
      Vals want { 0, 0, r[3], r[2], 1 };
      for( size_t d = 0; d < 5; d++ ) CK( bits( x[0][d] ) == bits( want[d] ), "default-record", "%s: default record field %zu is %s, expected %s", how, d, showVal( x[0][d] ).c_str(), showVal( want[d] ).c_str() );
   };
   defrec( w, "same table" );
   // a read table need not be unique
   CK( setRead( o, t ), "setread", "SetReadSpecialValues fails" );
   compare( c, rows, readSym( c, o, 1, T_PAR, 2, (int) vals.size() ), T_PAR, w, t, "read with read table" );
   compare( c, rows, readSym( c, o, 1, T_PAR, 3, 0 ), T_PAR, w, t, "fast read with read table" );
   defrec( t, "read table" );
   checkTable( c, o, w, vals, "after SetReadSpecialValues" );
   CK( o->gdxResetSpecialValues(), "reset", "reset" );
   compare( c, rows, readSym( c, o, 1, T_PAR, 0, 0 ), T_PAR, w, DEF, "read after reset" );
   defrec( DEF, "after reset" );
   checkTable( c, o, DEF, vals, "after reset" );
   o->gdxClose();
   c.state( mc::hashBytes( t.data(), sizeof t ) );
}

// ---- sequences of table changes between records, with a second object at work
static void sequence( Ctx &c )
{
   static const Table A { 10, 20, 30, 40, 50 }, B { -0.0, 1.0, 3e300, 2.0, 1e300 }, BAD { 1, 2, 3, 1, 5 };
   static const vector<double> VAL { 1.0, 30, 1e300, -0.0, 3e300, 5e300 };
   int depth = c.thorough ? 4 : 3;
   string f1 = c.path( "1.gdx" ), f2 = c.path( "2.gdx" );
   vector<Coded> in1, in2;
   {
      Obj o, p;
      int rc;
      CK( o->gdxOpenWrite( f1.c_str(), "p10", rc ) && p->gdxOpenWrite( f2.c_str(), "p10", rc ), "setup", "open" );
      regElems( c, o, 20, 0 );
      regElems( c, p, 20, 0 );
      CK( o->gdxDataWriteRawStart( "s", "", 1, T_PAR, 0 ) && p->gdxDataWriteRawStart( "s", "", 1, T_PAR, 0 ), "setup", "start" );
      Table w = DEF;
      for( int i = 0; i < depth; i++ )
      {
         int op = c.choose( 5 + (int) VAL.size(), "operation" );
         int r = 1;
         if( op == 0 || op == 1 )
         {
            r = setTable( o, op == 0 ? A : B );
            w = op == 0 ? A : B;
         }
         else if( op == 2 )
         {
            CK( !setTable( o, BAD ), "set", "a table with duplicates is accepted" );
            o->gdxGetLastError();
         }
         else if( op == 3 )
            setRead( o, A );
         else if( op == 4 )
         {
            o->gdxResetSpecialValues();
            w = DEF;
         }
         else
         {
            double x = VAL[(size_t) op - 5];
            double v[5] = { x };
            int k[20] = { (int) in1.size() + 1 };
            CK( o->gdxDataWriteRaw( k, v ) && p->gdxDataWriteRaw( k, v ), "write", "write" );
            in1.push_back( encode( x, w ) );
            in2.push_back( encode( x, DEF ) );
         }
         CK( r, "set", "a table is refused" );
         c.note( fmt( "write op %d", op ) );
      }
      checkTable( c, o, w, VAL, "end of writing" );
      checkTable( c, p, DEF, VAL, "other object" );
      CK( o->gdxDataWriteDone() && p->gdxDataWriteDone() && o->gdxClose() == 0 && p->gdxClose() == 0, "setup", "close" );
   }
   Obj o, p;
   int rc, n;
   CK( o->gdxOpenRead( f1.c_str(), rc ) && p->gdxOpenRead( f2.c_str(), rc ), "setup", "open" );
   CK( o->gdxDataReadRawStart( 1, n ) && p->gdxDataReadRawStart( 1, n ), "setup", "read" );
   Table r = DEF, w = DEF;
   for( size_t i = 0; i < in1.size(); i++ )
   {
      int op = c.choose( 5, "table change while reading" );
      if( op == 1 )
      {
         CK( setTable( o, A ), "set", "refused" );
         r = w = A;
      }
      else if( op == 2 )
      {
         CK( setRead( o, BAD ), "setread", "refused" );
         r = BAD;
      }
      else if( op == 3 )
      {
         o->gdxResetSpecialValues();
         r = w = DEF;
      }
      else if( op == 4 )
      {
         CK( setTable( o, BAD ) == 0, "set", "duplicates accepted" );
         o->gdxGetLastError();
      }
      int k[20], df;
      double v[5];
      CK( o->gdxDataReadRaw( k, v, df ), "read", "missing record" );
      CK( bits( v[0] ) == bits( decode( in1[i], r ) ), "value", "record %zu is %s, expected %s", i + 1, showVal( v[0] ).c_str(), showVal( decode( in1[i], r ) ).c_str() );
      CK( p->gdxDataReadRaw( k, v, df ), "read", "missing record" );
      CK( bits( v[0] ) == bits( decode( in2[i], DEF ) ), "other-object", "record %zu of the other object is %s, expected %s", i + 1, showVal( v[0] ).c_str(), showVal( decode( in2[i], DEF ) ).c_str() );
      c.note( fmt( "read op %d", op ) );
   }
   checkTable( c, o, w, VAL, "reading" );
   checkTable( c, p, DEF, VAL, "other object reading" );
   o->gdxClose();
   // opening a file starts with the default table
   CK( o->gdxOpenRead( f2.c_str(), rc ), "setup", "reopen" );
   checkTable( c, o, DEF, VAL, "reopened" );
   o->gdxClose();
   c.state( in1.size() );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P10";
   d.sc = { { "all-values", allValues, 3, "every exponent x sign x 5 (thorough 108) significands, neighbours of every specially encoded value, integers -300..300, one-byte patterns; 3 write modes x parameter/variable/equation x compression; 4 read modes, two tables" },
            { "fields", fields, 3, "all combinations of 8 (13) value classes in the five fields of variables and equations" },
            { "tables", tables, 3, "all tables with every entry from 6 (9) candidates including duplicates, NaN, infinities; write table x default, same, and read-only table; default records" },
            { "sequence", sequence, 3, "all sequences of 3 (4) table changes and raw writes, then all table changes between reads, second object in lockstep" } };
   d.assumptions = { "values from 1e301 on are acronyms (P11)", "the table is changed between records only in raw mode; mapped and string modes buffer records until gdxDataWriteDone" };
   return d.main( argc, argv );
}
