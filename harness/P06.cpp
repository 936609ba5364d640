// P06: duplicate and out-of-order records are reported and never corrupt data.
#include "gdxh.hpp"
using namespace gh;

static const char *LB[] = { "k1", "k2", "k3", "k4", "k5" };

struct W
{
   Key k;
   double v;
};
struct Exp
{
   vector<W> ok, dup;
};

static string lbl( int e ) { return LB[e - 1]; }

// writes one symbol with the given records in the given mode and checks all immediate results against the model
static Exp writeSym( Ctx &c, Obj &o, const string &name, int mode, int typ, int dim, const vector<W> &recs )
{
   Exp x;
   int e0 = o->gdxErrorCount();
   CK( o->gdxGetLastError() == 0, "pre-error", "pending error before the symbol" );
   int r = mode == 0 ? o->gdxDataWriteStrStart( name.c_str(), "", dim, typ, 0 ) : mode == 1 ? o->gdxDataWriteMapStart( name.c_str(), "", dim, typ, 0 )
                                                                                          : o->gdxDataWriteRawStart( name.c_str(), "", dim, typ, 0 );
   CK( r, "start", "start refused" );
   CK( o->gdxDataErrorCount() == 0, "stale-errors", "%d error records before the first record", o->gdxDataErrorCount() );
   std::set<Key> seen;
   Key last;
   for( auto &w: recs )
   {
      double v[5] = { w.v, w.v + 0.25, -w.v, w.v * 2, 1 };
      int k[20] = {};
      vector<string> ks;
      for( size_t d = 0; d < w.k.size(); d++ )
      {
         k[d] = w.k[d];
         ks.push_back( lbl( w.k[d] ) );
      }
      if( mode == 2 )
      {
         bool good = x.ok.empty() || w.k > last;
         int got = o->gdxDataWriteRaw( k, v );
         c.note( fmt( "raw %s -> %d", showKey( w.k ).c_str(), got ) );
         CK( ( got != 0 ) == good, good ? "raw-refused" : "raw-accepted", "raw record %s after %s gives %d", showKey( w.k ).c_str(), showKey( last ).c_str(), got );
         if( good )
         {
            x.ok.push_back( w );
            last = w.k;
         }
         else
         {
            int e = o->gdxGetLastError();
            CK( e != 0, "raw-error", "refused raw record leaves no error" );
            char msg[256];
            o->gdxErrorStr( e, msg );
            bool isDup = w.k == last;
            CK( string( msg ).find( isDup ? "uplicate" : "sorted" ) != string::npos, "raw-error-kind", "record %s after %s refused with: %s", showKey( w.k ).c_str(), showKey( last ).c_str(), msg );
            x.dup.push_back( w );
            CK( o->gdxDataErrorCount() == (int) std::min<size_t>( 11, x.dup.size() ), "err-count", "%d error records, expected %zu", o->gdxDataErrorCount(), x.dup.size() );
         }
      }
      else
      {
         KeyIn ki( ks );
         int got = mode == 0 ? o->gdxDataWriteStr( ki.get(), v ) : o->gdxDataWriteMap( k, v );
         c.note( fmt( "%s %s -> %d", mode ? "map" : "str", showKey( w.k ).c_str(), got ) );
         CK( got, "refused", "record %s refused", showKey( w.k ).c_str() );
         if( seen.insert( w.k ).second ) x.ok.push_back( w );
         else
            x.dup.push_back( w );
      }
   }
   CK( o->gdxDataWriteDone(), "done", "DataWriteDone failed" );
   int le = o->gdxGetLastError();
   if( mode != 2 ) CK( ( le != 0 ) == !x.dup.empty(), "done-error", "error %d after %zu duplicates", le, x.dup.size() );
   CK( o->gdxErrorCount() - e0 == (int) x.dup.size(), "total-errors", "%d errors counted for %zu rejected records", o->gdxErrorCount() - e0, x.dup.size() );
   int ne = o->gdxDataErrorCount();
   CK( ne == (int) std::min<size_t>( 11, x.dup.size() ), "err-count", "%d error records listed, expected %zu (at most 11)", ne, x.dup.size() );
   std::multiset<std::pair<Key, double>> want, got;
   for( auto &w: x.dup ) want.insert( { w.k, w.v } );
   for( int i = 1; i <= ne; i++ )
   {
      int k[20] = {};
      double v[5] = {};
      CK( o->gdxDataErrorRecord( i, k, v ), "err-record", "error record %d of %d not available", i, ne );
      auto p = std::make_pair( Key( k, k + dim ), v[0] );
      CK( want.count( p ), "err-record-content", "error record %s value %g is not a rejected record", showKey( p.first ).c_str(), v[0] );
      if( typ >= T_VAR ) CK( v[1] == v[0] + 0.25 && v[4] == 1, "err-record-values", "error record lost its values" );
      got.insert( p );
   }
   for( auto &p: got ) CK( got.count( p ) <= want.count( p ), "err-record-twice", "error record %s listed too often", showKey( p.first ).c_str() );
   int k[20];
   double v[5];
   CK( !o->gdxDataErrorRecord( ne + 1, k, v ) && !o->gdxDataErrorRecord( 0, k, v ), "err-range", "error record outside the list" );
   o->gdxGetLastError();
   std::sort( x.ok.begin(), x.ok.end(), []( const W &a, const W &b ) { return a.k < b.k; } );
   return x;
}

static void openW( Ctx &c, Obj &o, const string &fn )
{
   int rc;
   o->gdxStoreDomainSetsSet( 1 );
   CK( o->gdxOpenWriteEx( fn.c_str(), "p", 0, rc ), "open", "open failed" );
   CK( o->gdxUELRegisterMapStart(), "reg", "reg" );
   for( int i = 1; i <= 5; i++ ) CK( o->gdxUELRegisterMap( i, LB[i - 1] ), "reg", "reg" );
   CK( o->gdxUELRegisterDone(), "reg", "reg" );
}
static void checkSym( Ctx &c, FileC &f, size_t i, const Exp &x, int typ, const char *what )
{
   CK( f.ok && i < f.syms.size(), "reopen", "file cannot be read back" );
   auto &s = f.syms[i];
   CK( s.problems.empty(), "read-problem", "%s: %s", what, s.problems[0].c_str() );
   CK( s.recs.size() == x.ok.size(), "record-count", "%s: %zu records read back, %zu accepted", what, s.recs.size(), x.ok.size() );
   if( s.dim > 0 ) CK( s.recCnt == (int) x.ok.size() && s.startCnt == s.recCnt, "announced", "%s: announces %d/%d records, has %zu", what, s.recCnt, s.startCnt, x.ok.size() );
   for( size_t k = 0; k < x.ok.size(); k++ )
   {
      auto &r = s.recs[k];
      CK( r.k == x.ok[k].k, "record-key", "%s: record %zu is %s, expected %s", what, k, showKey( r.k ).c_str(), showKey( x.ok[k].k ).c_str() );
      double e[5] = { x.ok[k].v, x.ok[k].v + 0.25, -x.ok[k].v, x.ok[k].v * 2, 1 };
      if( typ != T_SET )
         for( int d = 0; d < nvals( typ ); d++ ) CK( r.v[(size_t) d] == e[d], "record-value", "%s: record %s has value %g in field %d, first written %g", what, showKey( r.k ).c_str(), r.v[(size_t) d], d, e[d] );
   }
}

static vector<Key> allKeys( int dim, int n )
{
   vector<Key> r { Key {} };
   for( int d = 0; d < dim; d++ )
   {
      vector<Key> q;
      for( auto &k: r )
         for( int e = 1; e <= n; e++ )
         {
            Key z = k;
            z.push_back( e );
            q.push_back( z );
         }
      r = q;
   }
   return r;
}

static void seqBody( Ctx &c, int dim, int nkeys, int len )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   openW( c, o, fn );
   int mode = c.choose( 3, "mode" );
   int typ = ( dim == 1 && !c.thorough ) ? c.choose( 4, "type" ) : c.choose( 3, "type" );
   int rel = 0;
   static const int TY[] = { T_PAR, T_VAR, T_SET, T_EQU };
   typ = TY[typ];
   auto keys = allKeys( dim, nkeys );
   vector<W> recs;
   for( int i = 0; i < len; i++ )
   {
      int k = c.choose( (int) keys.size() + 1, "record" );
      if( k == 0 ) break;
      double v = typ == T_SET ? 0.0 : ++rel + 0.5;
      recs.push_back( { keys[(size_t) k - 1], v } );
   }
   Exp a = writeSym( c, o, "before", 0, T_PAR, 1, { { { 2 }, 7 } } );
   Exp x = writeSym( c, o, "sym", mode, typ, dim, recs );
   Exp z = writeSym( c, o, "after", mode, T_PAR, 1, { { { 1 }, 8 }, { { 3 }, 9 } } );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   checkSym( c, f, 0, a, T_PAR, "before" );
   checkSym( c, f, 1, x, typ, "sym" );
   checkSym( c, f, 2, z, T_PAR, "after" );
   uint64_t h = (uint64_t) ( mode * 10 + typ );
   for( auto &r: recs )
      for( int e: r.k ) h = mc::mix( h, (uint64_t) e );
   c.state( h );
}
static void seq1( Ctx &c ) { seqBody( c, 1, 3, c.thorough ? 8 : 6 ); }
static void seq2( Ctx &c ) { seqBody( c, 2, 2, c.thorough ? 7 : 6 ); }
static void seq3( Ctx &c ) { seqBody( c, 3, 2, c.thorough ? 6 : 4 ); }

// scalars: one record only
static void scalar( Ctx &c )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   openW( c, o, fn );
   int mode = c.choose( 3, "mode" ), n = c.choose( 4, "records" );
   static const int TY[] = { T_PAR, T_VAR, T_EQU };
   int typ = TY[c.choose( 3, "type" )];
   vector<W> recs;
   for( int i = 0; i < n; i++ ) recs.push_back( { {}, i + 1.5 } );
   Exp x = writeSym( c, o, "sym", mode, typ, 0, recs );
   Exp z = writeSym( c, o, "after", mode, T_PAR, 1, { { { 1 }, 8 }, { { 3 }, 9 } } );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   if( n ) checkSym( c, f, 0, x, typ, "sym" );
   checkSym( c, f, 1, z, T_PAR, "after" );
   c.state( (uint64_t) ( mode * 100 + n * 10 + typ ) );
}

// more rejected records than the list holds; the duplicates sit at every block of the sequence
static void many( Ctx &c )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   openW( c, o, fn );
   int mode = c.choose( 3, "mode" ), base = 1 + c.choose( 4, "distinct" );
   static const vector<int> ND { 0, 1, 9, 10, 11, 12, 13, 23, 50 };
   int nd = c.pick( ND, "duplicates" ), where = c.choose( 3, "where" );
   int cyc = c.choose( 2, "which" );
   vector<W> recs;
   double v = 1;
   auto dups = [&]( int n, int upto ) {
      for( int i = 0; i < n; i++ ) recs.push_back( { { cyc ? 1 + i % upto : upto }, v += 1 } );
   };
   recs.push_back( { { 1 }, v } );
   if( where == 0 ) dups( nd, 1 );
   for( int e = 2; e <= base; e++ ) recs.push_back( { { e }, v += 1 } );
   if( where == 1 ) dups( nd, base );
   if( where == 2 )
   {
      dups( nd, base );
      recs.push_back( { { 5 }, v += 1 } );
   }
   Exp x = writeSym( c, o, "sym", mode, T_PAR, 1, recs );
   Exp z = writeSym( c, o, "sym2", mode, T_PAR, 1, { { { 1 }, 8 }, { { 1 }, 9 } } );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   checkSym( c, f, 0, x, T_PAR, "sym" );
   checkSym( c, f, 1, z, T_PAR, "sym2" );
   c.state( (uint64_t) ( ( ( mode * 10 + base ) * 100 + nd ) * 10 + where * 2 + cyc ) );
}

// every dimension: two records that differ in one index, each written once or twice
static void dims( Ctx &c )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   openW( c, o, fn );
   const int dim = 1 + c.choose( 20, "dimension" ), mode = c.choose( 3, "mode" ), at = c.choose( dim, "index that differs" ), n = 2 + c.choose( c.thorough ? 3 : 2, "records" );
   static const int TY[] = { T_PAR, T_VAR };
   const int typ = TY[c.choose( 2, "type" )];
   Key a, b;
   for( int d = 0; d < dim; d++ ) a.push_back( 1 + ( d * 3 + 1 ) % 4 );
   b = a;
   b[(size_t) at]++;
   vector<W> recs;
   for( int i = 0; i < n; i++ ) recs.push_back( { c.choose( 2, "record" ) ? b : a, i + 1.5 } );
   Exp x = writeSym( c, o, "sym", mode, typ, dim, recs );
   Exp z = writeSym( c, o, "after", mode, T_PAR, 1, { { { 1 }, 8 }, { { 3 }, 9 } } );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   checkSym( c, f, 0, x, typ, "sym" );
   checkSym( c, f, 1, z, T_PAR, "after" );
   c.state( (uint64_t) ( ( dim * 3 + mode ) * 20 + at ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P06";
   d.sc = { { "seq1", seq1, 3, "all record sequences of length 0-6 (8) over 3 keys of dimension 1, 3 write modes, 4 types, neighbours before and after" },
            { "seq2", seq2, 3, "all record sequences of length 0-6 (7) over 4 keys of dimension 2, 3 modes, 3 types" },
            { "seq3", seq3, 3, "all record sequences of length 0-4 (6) over 8 keys of dimension 3, 3 modes, 3 types" },
            { "scalar", scalar, 3, "0-3 records written to a scalar, 3 modes, 3 types" },
            { "dimensions", dims, 3, "dimension 1..20, 2..3 (4) records that differ in one index (each of them) or not at all, 3 modes, 2 types" },
            { "many", many, 3, "0..50 duplicates around the limit of the error list, 3 modes, 4 base sizes, 3 positions, 2 patterns" } };
   return d.main( argc, argv );
}
