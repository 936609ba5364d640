// P11: acronyms keep their identity through writing, reading and remapping.
#include "gdxh.hpp"
using namespace gh;
static const double ACR = 1e301;

struct A
{
   string name, text;
   int map = 0, rmap = -1;
   bool autog = false;
};
static bool ieq( const string &a, const string &b ) { return !strcasecmp( a.c_str(), b.c_str() ); }
static string goodText( string s )
{
   char q = 0;
   for( auto &ch: s )
   {
      if( ch == '"' || ch == '\'' )
      {
         if( !q ) q = ch;
         ch = q;
      }
      else if( (unsigned char) ch < ' ' )
         ch = '?';
   }
   return s;
}
static string showA( const vector<A> &t )
{
   string s;
   for( auto &a: t ) s += fmt( " %s/%d/%d", a.name.c_str(), a.map, a.rmap );
   return s;
}
static int find( const vector<A> &t, int map )
{
   for( size_t i = 0; i < t.size(); i++ )
      if( t[i].map == map ) return (int) i;
   return -1;
}
static void checkTable( Ctx &c, Obj &o, const vector<A> &t, bool reading, const char *when )
{
   int n = o->gdxAcronymCount();
   CK( n == (int) t.size(), "count", "%s: %d acronyms, expected %zu:%s", when, n, t.size(), showA( t ).c_str() );
   for( int i = -1; i <= n + 2; i++ )
   {
      char nm[256], tx[256];
      memset( nm, '~', 255 );
      memset( tx, '~', 255 );
      nm[255] = tx[255] = 0;
      int ix = -77;
      int r = o->gdxAcronymGetInfo( i, nm, tx, ix );
      if( i < 1 || i > n )
      {
         CK( !r && !nm[0] && !tx[0] && ix == 0, "info-range", "%s: AcronymGetInfo(%d) of %d gives %d <%s> <%s> %d", when, i, n, r, nm, tx, ix );
         int a = -7, b = -7, g = -7;
         CK( !o->gdxAcronymGetMapping( i, a, b, g ), "mapping-range", "%s: AcronymGetMapping(%d) of %d succeeds", when, i, n );
         continue;
      }
      auto &e = t[(size_t) i - 1];
      CK( r && e.name == nm && e.text == tx && e.map == ix, "info", "%s: acronym %d is <%s> <%s> %d, expected <%s> <%s> %d", when, i, nm, tx, ix, e.name.c_str(), e.text.c_str(), e.map );
      int a = -7, b = -7, g = -7;
      CK( o->gdxAcronymGetMapping( i, a, b, g ), "mapping", "%s: AcronymGetMapping(%d) fails", when, i );
      CK( a == e.map && ( !reading || b == e.rmap ) && ( g != 0 ) == e.autog, "mapping", "%s: mapping of acronym %d is %d->%d auto %d, expected %d->%d auto %d", when, i, a, b, g, e.map, e.rmap, e.autog );
      char q[256];
      CK( o->gdxAcronymName( ACR * e.map, q ), "name", "%s: AcronymName of index %d fails", when, e.map );
      string want = e.name.empty() ? fmt( "UnknownAcronym%d", e.map ) : e.name;
      CK( want == q, "name", "%s: the name of acronym index %d is <%s>, expected <%s>", when, e.map, q, want.c_str() );
   }
   char q[256];
   o->gdxAcronymName( ACR * 4711, q );
   CK( !strcmp( q, "UnknownAcronym4711" ), "name", "%s: the name of an unknown acronym is <%s>", when, q );
   q[0] = 'x';
   CK( !o->gdxAcronymName( 17.5, q ) && !q[0], "name", "%s: an ordinary number has the acronym name <%s>", when, q );
}

static const char *TX[] = { "", "say \"it's\" \x01!", "plain text" };

// ---- writing: all sequences of declarations, updates and uses
static void writing( Ctx &c )
{
   int depth = c.thorough ? 4 : 3;
   vector<A> t;
   vector<int> vals;
   string fn = c.path( "w.gdx" );
   {
      Obj o;
      int rc;
      CK( o->gdxOpenWrite( fn.c_str(), "p11", rc ), "setup", "open" );
      o->gdxUELRegisterRawStart();
      for( int i = 1; i <= 9; i++ ) o->gdxUELRegisterRaw( fmt( "e%d", i ).c_str() );
      o->gdxUELRegisterDone();
      CK( o->gdxDataWriteRawStart( "taken", "", 1, T_PAR, 0 ), "setup", "start" );
      for( int i = 0; i < depth; i++ )
      {
         int op = c.choose( 8 + 24 + 3, "operation" );
         int ec = o->gdxErrorCount();
         if( op < 8 )
         {
            static const char *NM[] = { "A", "a", "B", "C9_" };
            string nm = NM[op / 2], tx = TX[op % 3];
            int ix = op % 2 + 1;
            int r = o->gdxAcronymAdd( nm.c_str(), tx.c_str(), ix );
            int want = (int) t.size() + 1;
            for( auto &e: t )
               if( ieq( e.name, nm ) ) want = e.map == ix ? 0 : -1;
            if( want > 0 )
               for( auto &e: t )
                  if( e.map == ix ) want = -1;
            c.note( fmt( "add %s=%d -> %d", nm.c_str(), ix, r ) );
            if( want < 0 ) CK( r < 0, "add", "AcronymAdd(%s,%d) gives %d although the table has%s", nm.c_str(), ix, r, showA( t ).c_str() );
            else
               CK( r == want, "add", "AcronymAdd(%s,%d) gives %d, expected %d, the table has%s", nm.c_str(), ix, r, want, showA( t ).c_str() );
            CK( ( o->gdxErrorCount() > ec ) == ( want < 0 ), "add-error", "AcronymAdd(%s,%d) -> %d: error count %d -> %d", nm.c_str(), ix, r, ec, o->gdxErrorCount() );
            if( want > 0 ) t.push_back( { nm, goodText( tx ), ix, ix, false } );
         }
         else if( op < 32 )
         {
            int k = op - 8;
            static const int NN[] = { 0, 1, 2, 9 };
            static const char *NM[] = { "A", "D", "3x" };
            int N = NN[k / 6];
            string nm = NM[k % 6 / 2], tx = TX[k % 3];
            int ix = k % 2 + 1;
            bool good = N >= 1 && N <= (int) t.size() && nm != "3x" && t[(size_t) N - 1].map == ix;
            for( auto &e: t )
               if( ieq( e.name, nm ) ) good = false;
            int r = o->gdxAcronymSetInfo( N, nm.c_str(), tx.c_str(), ix );
            c.note( fmt( "setinfo %d %s=%d -> %d", N, nm.c_str(), ix, r ) );
            CK( ( r != 0 ) == good, "setinfo", "AcronymSetInfo(%d,%s,%d) gives %d, the table has%s", N, nm.c_str(), ix, r, showA( t ).c_str() );
            CK( ( o->gdxErrorCount() > ec ) == !good, "setinfo-error", "AcronymSetInfo error count" );
            if( good )
            {
               t[(size_t) N - 1].name = nm;
               t[(size_t) N - 1].text = goodText( tx );
            }
         }
         else
         {
            static const int IX[] = { 1, 2, 7 };
            int ix = IX[op - 32];
            int k[20] = { (int) vals.size() + 1 };
            double v[5] = { ACR * ix };
            CK( o->gdxDataWriteRaw( k, v ), "write", "write of an acronym refused" );
            vals.push_back( ix );
            if( find( t, ix ) < 0 ) t.push_back( { "", "", ix, -1, false } );
            c.note( fmt( "value %d", ix ) );
         }
         checkTable( c, o, t, false, "writing" );
      }
      CK( o->gdxDataWriteDone(), "setup", "done" );
      // symbols and acronyms share their names
      if( !t.empty() && !t[0].name.empty() ) CK( !o->gdxDataWriteStrStart( t[0].name.c_str(), "", 1, T_PAR, 0 ), "name-clash", "a symbol may be called %s like an acronym", t[0].name.c_str() );
      for( size_t n = 0; n < t.size(); n++ ) CK( !o->gdxAcronymSetInfo( (int) n + 1, "Taken", "", t[n].map ), "name-clash", "an acronym may be called like a symbol" );
      CK( o->gdxClose() == 0, "setup", "close" );
   }
   for( auto &e: t )
   {
      e.rmap = -1;
      if( e.name.empty() ) e.name = fmt( "UnknownACRO%d", e.map );
   }
   Obj o;
   int rc, n, df, k[20];
   double v[5];
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "the file cannot be opened: %d", rc );
   checkTable( c, o, t, true, "read back" );
   CK( o->gdxDataReadRawStart( 1, n ) && n == (int) vals.size(), "read", "start" );
   for( int x: vals )
   {
      CK( o->gdxDataReadRaw( k, v, df ), "read", "missing record" );
      CK( v[0] == ACR * x && o->gdxAcronymIndex( v[0] ) == x, "value", "acronym %d is read as %s", x, showVal( v[0] ).c_str() );
   }
   o->gdxClose();
   c.state( mc::hashStr( showA( t ), vals.size() ) );
}

// ---- reading: remapping, automatic numbers, all read interfaces
struct Model
{
   vector<A> t;
   int next = 0;
   bool nan = false;
   double na = 2e300;
   double value( int ix )
   {
      if( nan ) return na;
      int i = find( t, ix );
      if( i < 0 ) return ACR * ix;
      auto &e = t[(size_t) i];
      if( e.rmap > 0 ) return ACR * e.rmap;
      if( next <= 0 ) return ACR * ix;
      e.rmap = next++;
      e.autog = true;
      return ACR * e.rmap;
   }
};
static vector<std::pair<int, Vals>> gotFast;
static void cbFast( const int *k, const double *v )
{
   Vals x {};
   for( int d = 0; d < 5; d++ ) x[(size_t) d] = v[d];
   gotFast.push_back( { k[0], x } );
}
static void readAll( Ctx &c, Obj &o, Model &m, const vector<Vals> &rows, int mode, int stop )
{
   // rows: negative numbers are acronym indices, others ordinary values
   vector<Vals> got;
   int n, df, k[20];
   if( mode == 3 )
   {
      gotFast.clear();
      CK( o->gdxDataReadRawFast( 1, cbFast, n ), "read", "fast" );
      for( auto &[a, b]: gotFast ) got.push_back( b );
   }
   else
   {
      CK( mode == 0 ? o->gdxDataReadRawStart( 1, n ) : mode == 1 ? o->gdxDataReadStrStart( 1, n ) : o->gdxDataReadMapStart( 1, n ), "read", "start" );
      while( stop < 0 || (int) got.size() < stop )
      {
         double v[5];
         KeyBuf kb;
         if( !( mode == 0 ? o->gdxDataReadRaw( k, v, df ) : mode == 1 ? o->gdxDataReadStr( kb.get(), v, df ) : o->gdxDataReadMap( 0, k, v, df ) ) ) break;
         Vals x;
         for( size_t d = 0; d < 5; d++ ) x[d] = v[d];
         got.push_back( x );
      }
      o->gdxDataReadDone();
   }
   size_t want = stop < 0 ? rows.size() : std::min( rows.size(), (size_t) stop );
   CK( got.size() == want, "records", "%zu of %zu records", got.size(), want );
   for( size_t i = 0; i < want; i++ )
      for( size_t d = 0; d < 5; d++ )
      {
         double x = rows[i][d] < 0 ? m.value( (int) -rows[i][d] ) : rows[i][d];
         CK( got[i][d] == x, "value", "record %zu field %zu is %s, expected %s", i + 1, d, showVal( got[i][d] ).c_str(), showVal( x ).c_str() );
      }
   c.note( fmt( "read mode %d stop %d", mode, stop ) );
}
static void makeFile( Ctx &c, const string &fn, int variant, vector<A> &t, vector<Vals> &rows )
{
   t.clear();
   rows = { { -1, 3, -2, 0, 1 }, { -7, -7, -1, 2, -9 }, { 5, 0, 0, 1, 1 }, { -2, -9, 0, -1, -2 } };
   Obj o;
   int rc;
   CK( o->gdxOpenWriteEx( fn.c_str(), "p11", variant == 1, rc ), "setup", "open" );
   auto add = [&]( const char *n, const char *tx, int ix ) {
      CK( o->gdxAcronymAdd( n, tx, ix ) == (int) t.size() + 1, "setup", "add" );
      t.push_back( { n, tx, ix, -1, false } );
   };
   if( variant != 2 )
   {
      add( "B", "second", 2 );
      add( "A", "", 1 );
   }
   if( variant == 0 ) add( "Unused", "never used", 30 );
   CK( o->gdxDataWriteStrStart( "v", "", 1, T_VAR, 3 ), "setup", "start" );
   for( size_t i = 0; i < rows.size(); i++ )
   {
      KeyIn ki( { fmt( "e%zu", i + 1 ) } );
      double v[5];
      for( size_t d = 0; d < 5; d++ ) v[d] = rows[i][d] < 0 ? ACR * -rows[i][d] : rows[i][d];
      CK( o->gdxDataWriteStr( ki.get(), v ), "setup", "write" );
   }
   CK( o->gdxDataWriteDone(), "setup", "done" );
   for( auto &r: rows )
      for( double x: r )
         if( x < 0 && find( t, (int) -x ) < 0 ) t.push_back( { fmt( "UnknownACRO%d", (int) -x ), "", (int) -x, -1, false } );
   if( variant == 2 )
   {
      // named after their first use
      for( size_t i = 0; i < t.size(); i++ )
         if( t[i].map == 1 || t[i].map == 9 )
         {
            t[i].name = t[i].map == 1 ? "A" : "Nine";
            t[i].text = "late";
            CK( o->gdxAcronymSetInfo( (int) i + 1, t[i].name.c_str(), "late", t[i].map ), "setup", "late name" );
         }
   }
   CK( o->gdxClose() == 0, "setup", "close" );
}
static void reading( Ctx &c )
{
   int variant = c.choose( 3, "file" );
   vector<A> t;
   vector<Vals> rows;
   string fn = c.path( "r.gdx" );
   makeFile( c, fn, variant, t, rows );
   Obj o, other;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ) && other->gdxOpenRead( fn.c_str(), rc ), "open", "the file cannot be opened" );
   o->gdxUELRegisterMapStart();
   for( int i = 1; i <= 4; i++ ) o->gdxUELRegisterMap( i, fmt( "e%d", i ).c_str() );
   o->gdxUELRegisterDone();
   Model m { t }, mo { t };
   checkTable( c, o, m.t, true, "opened" );
   int depth = c.thorough ? 3 : 2;
   for( int i = 0; i < depth; i++ )
   {
      int op = c.choose( 36 + 4 + 4 + 2 + 2, "operation" );
      int ec = o->gdxErrorCount();
      if( op < 36 )
      {
         static const int NN[] = { 0, 1, 2, 4, 5, 17 };
         static const int IX[] = { 1, 50, 2 };
         int N = NN[op / 6], ix = IX[op % 6 / 2];
         bool valid = N >= 1 && N <= (int) m.t.size();
         string nm = op % 2 ? "wrong" : valid ? m.t[(size_t) N - 1].name : "A";
         if( valid && m.t[(size_t) N - 1].autog ) c.prune();// renaming of automatically numbered entries is not specified
         bool noop = valid && m.t[(size_t) N - 1].rmap == ix;
         bool good = valid && op % 2 == 0;
         for( auto &e: m.t )
            if( e.rmap == ix ) good = false;
         if( noop ) good = true;
         if( valid && op % 2 == 0 && N == 2 )
            for( auto &ch: nm ) ch = (char) tolower( ch );
         int r = o->gdxAcronymSetInfo( N, nm.c_str(), "ignored", ix );
         c.note( fmt( "setinfo %d %s=%d -> %d", N, nm.c_str(), ix, r ) );
         CK( ( r != 0 ) == good, "setinfo", "AcronymSetInfo(%d,%s,%d) gives %d, the table has%s", N, nm.c_str(), ix, r, showA( m.t ).c_str() );
         CK( ( o->gdxErrorCount() > ec ) == !good, "setinfo-error", "error count after AcronymSetInfo" );
         if( good ) m.t[(size_t) N - 1].rmap = ix;
      }
      else if( op < 40 )
      {
         static const int NX[] = { 100, 0, -5, 31 };
         int nv = NX[op - 36];
         int r = o->gdxAcronymNextNr( nv );
         c.note( fmt( "next %d -> %d", nv, r ) );
         CK( r == m.next, "next", "AcronymNextNr returns %d, expected %d", r, m.next );
         if( nv >= 0 ) m.next = nv;
      }
      else if( op < 44 )
         readAll( c, o, m, rows, op - 40, op == 41 ? 2 : -1 );
      else if( op >= 46 )
      {
         static const double sv[7] = { 71, 72, 73, 74, 75, 0, 0 };
         CK( op == 46 ? o->gdxSetSpecialValues( sv ) : o->gdxResetSpecialValues(), "special", "the special values cannot be set" );
         m.na = op == 46 ? 72 : 2e300;
         c.note( op == 46 ? "own special values" : "standard special values" );
      }
      else
      {
         m.nan = op == 45;
         o->gdxMapAcronymsToNaNSet( m.nan );
         CK( ( o->gdxMapAcronymsToNaN() != 0 ) == m.nan, "nanflag", "flag" );
         c.note( fmt( "nan flag %d", m.nan ) );
      }
      checkTable( c, o, m.t, true, "reading" );
   }
   for( int mode = 0; mode < 4; mode++ ) readAll( c, o, m, rows, mode, -1 );
   checkTable( c, o, m.t, true, "after reading" );
   readAll( c, other, mo, rows, 0, -1 );
   checkTable( c, other, mo.t, true, "other object" );
   o->gdxClose();
   // the mapping belongs to the open file
   CK( o->gdxAcronymCount() == 0, "closed", "%d acronyms without a file", o->gdxAcronymCount() );
   c.state( mc::hashStr( showA( m.t ), (uint64_t) m.next * 4 + m.nan ) );
}

// ---- values and indices
static void indices( Ctx &c )
{
   Obj o;
   int rc;
   string fn = c.path( "i.gdx" );
   CK( o->gdxOpenWrite( fn.c_str(), "p11", rc ), "setup", "open" );
   const int TOP = 17976931;// the largest index whose value is finite
   const int BL = 20000;
   int nb = TOP / BL + 1;
   int b = c.thorough ? c.choose( nb, "block" ) : c.choose( 40, "block" );
   if( !c.thorough && b >= 20 ) b = nb - 1 - ( b - 20 ) * 40;
   for( int i = b * BL + ( b == 0 ); i < ( b + 1 ) * BL && i <= TOP; i++ )
   {
      double v = o->gdxAcronymValue( i );
      if( v != ACR * i ) c.fail( "acronym-value", fmt( "AcronymValue(%d) is %s", i, showVal( v ).c_str() ) );
      if( o->gdxAcronymIndex( v ) != i ) c.fail( "acronym-index", fmt( "AcronymIndex(AcronymValue(%d)) is %d", i, o->gdxAcronymIndex( v ) ) );
      c.step();
   }
   for( int i: { 0, -1, -5, INT_MIN } ) CK( o->gdxAcronymValue( i ) == 0.0, "acronym-value", "AcronymValue(%d) is %s", i, showVal( o->gdxAcronymValue( i ) ).c_str() );
   for( double d: { 0.0, 1.0, -1.0, 1e300, 5e300, 9.9e300, -1e301, -1e308, std::nextafter( 1e301, 0.0 ) } ) CK( o->gdxAcronymIndex( d ) == 0, "acronym-index", "AcronymIndex(%s) is %d", showVal( d ).c_str(), o->gdxAcronymIndex( d ) );
   // write acronyms of this block in every field and mode and read them back
   int first = std::max( 1, b * BL ), cnt = std::min( 60, TOP - first + 1 );
   int wm = c.choose( 3, "write mode" );
   o->gdxUELRegisterMapStart();
   for( int i = 1; i <= cnt; i++ ) o->gdxUELRegisterMap( i, fmt( "e%d", i ).c_str() );
   o->gdxUELRegisterDone();
   CK( wm == 0 ? o->gdxDataWriteRawStart( "v", "", 1, T_EQU, 53 ) : wm == 1 ? o->gdxDataWriteStrStart( "v", "", 1, T_EQU, 53 ) : o->gdxDataWriteMapStart( "v", "", 1, T_EQU, 53 ), "setup", "start" );
   vector<Vals> rows;
   for( int i = 1; i <= cnt; i++ )
   {
      Vals r { 1.5, 2.5, 3.5, 4.5, 5.5 };
      r[(size_t) i % 5] = ACR * ( first + i - 1 );
      if( i % 3 == 0 ) r[(size_t) ( i + 1 ) % 5] = 1.3e301;// reads as the nearest index
      rows.push_back( r );
      double v[5];
      std::copy( r.begin(), r.end(), v );
      int k[20] = { i };
      KeyIn ki( { fmt( "e%d", i ) } );
      CK( wm == 0 ? o->gdxDataWriteRaw( k, v ) : wm == 1 ? o->gdxDataWriteStr( ki.get(), v ) : o->gdxDataWriteMap( k, v ), "setup", "write" );
      if( i % 3 == 0 ) rows.back()[(size_t) ( i + 1 ) % 5] = 1e301;
   }
   CK( o->gdxDataWriteDone() && o->gdxClose() == 0, "setup", "close" );
   int n, df, k[20];
   double v[5];
   CK( o->gdxOpenRead( fn.c_str(), rc ) && o->gdxDataReadRawStart( 1, n ), "setup", "read" );
   for( auto &r: rows )
   {
      CK( o->gdxDataReadRaw( k, v, df ), "read", "missing record" );
      for( size_t d = 0; d < 5; d++ ) CK( v[d] == r[d], "value", "field %zu is %s, expected %s", d, showVal( v[d] ).c_str(), showVal( r[d] ).c_str() );
   }
   o->gdxDataReadDone();
   o->gdxClose();
   c.state( (uint64_t) b * 3 + (uint64_t) wm );
   c.note( fmt( "block %d mode %d", b, wm ) );
}

// ---- long names and texts
static void texts( Ctx &c )
{
   static const int L[] = { 1, 2, 62, 63 };
   static const int T[] = { 0, 1, 127, 128, 254, 255 };
   int l = L[c.choose( 4, "name length" )], tl = T[c.choose( 6, "text length" )], how = c.choose( 2, "declared by" );
   string nm = string( (size_t) l, 'N' ), tx( (size_t) tl, 'x' );
   if( tl > 4 ) tx[(size_t) tl - 2] = '"', tx[1] = '\'';
   string fn = c.path( "t.gdx" );
   Obj o;
   int rc;
   CK( o->gdxOpenWrite( fn.c_str(), "p11", rc ), "setup", "open" );
   if( how == 0 ) CK( o->gdxAcronymAdd( nm.c_str(), tx.c_str(), 3 ) == 1, "add", "refused" );
   else
   {
      CK( o->gdxAcronymAdd( "first", "first", 3 ) == 1 && o->gdxAcronymSetInfo( 1, nm.c_str(), tx.c_str(), 3 ), "setinfo", "refused" );
      CK( !o->gdxAcronymSetInfo( 1, string( 64, 'x' ).c_str(), "", 3 ), "setinfo", "a name of 64 characters is accepted" );
   }
   vector<A> t { { nm, goodText( tx ), 3, 3, false } };
   checkTable( c, o, t, false, "writing" );
   CK( o->gdxClose() == 0, "setup", "close" );
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "cannot be opened" );
   t[0].rmap = -1;
   checkTable( c, o, t, true, "read back" );
   o->gdxClose();
   c.note( fmt( "name %d text %d", l, tl ) );
   c.state( (uint64_t) ( l * 1000 + tl * 2 + how ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P11";
   d.sc = { { "writing", writing, 3, "all sequences of 3 (4) operations out of 8 declarations, 24 updates (valid, contradictory, out of range) and 3 uses; full table check after every step and after reading back" },
            { "reading", reading, 3, "3 files (declared before use, partly, named after use) x all sequences of 2 (3) of 48 operations: remapping, automatic numbers, NaN flag, special values, reads in 4 interfaces, interrupted read" },
            { "indices", indices, 3, "value/index conversion for all 17976931 representable indices (quick: 800000), records with acronyms in every field in 3 write modes" },
            { "texts", texts, 3, "name lengths up to 63, text lengths up to 255, both ways of declaring" } };
   d.assumptions = { "gdxAcronymName looks names up by the index stored in the file (as the existing tests require)", "renaming an automatically numbered entry is not specified" };
   return d.main( argc, argv );
}
