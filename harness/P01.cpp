// P01: every record written is read back exactly once, sorted, with its values, in every mode.
#include "gdxh.hpp"
using namespace gh;

static const vector<string> LAB { "beta", "Alpha", "c 3", "dd", "e-5", "F" };

struct MSym
{
   string name;
   int type {}, dim {}, mode {};
   vector<std::pair<Key, Vals>> model;// raw key -> values, sorted
   vector<std::pair<Key, string>> txt;
};

static Vals mkVals( int type, int kidx )
{
   Vals v {};
   static const double small[] { 0.0, 1.0, -1.0, 0.5, 2.0, 3.75, -1e-300 };
   for( int f = 0; f < nvals( type ); f++ )
      v[(size_t) f] = kidx % 3 == 1 ? small[( kidx + f ) % 7] : ( kidx + 1 ) * 16.0 + f + 0.125;
   return v;
}

// the reference: labels are numbered in order of first use, records are sorted by those numbers
struct Model
{
   vector<string> uels;
   int uel( const string &s )
   {
      for( size_t i = 0; i < uels.size(); i++ )
         if( uels[i] == s ) return (int) i + 1;
      uels.push_back( s );
      return (int) uels.size();
   }
};

static Key keyOf( int idx, int dim, int nlab )
{
   Key k;
   for( int d = 0; d < dim; d++ )
   {
      k.insert( k.begin(), idx % nlab );
      idx /= nlab;
   }
   return k;
}

// user index of label l in mapped mode: deliberately not monotone in l
static int userIdx( int l )
{
   static const int m[] { 7, 3, 12, 5, 1, 9 };
   return m[l];
}

static void writeSym( Ctx &c, Obj &o, Model &m, MSym &y, const vector<int> &seq, int nlab, bool setTexts )
{
   int ok = 0;
   int user = y.type == T_EQU ? 53 : y.type == T_VAR ? 5 : 0;
   switch( y.mode )
   {
      case 0: ok = o->gdxDataWriteStrStart( y.name.c_str(), "text", y.dim, y.type, user ); break;
      case 1: ok = o->gdxDataWriteRawStart( y.name.c_str(), "text", y.dim, y.type, user ); break;
      default: ok = o->gdxDataWriteMapStart( y.name.c_str(), "text", y.dim, y.type, user ); break;
   }
   CK( ok, "write-start", "DataWriteStart of %s failed", y.name.c_str() );
   for( int idx: seq )
   {
      Key lk = keyOf( idx, y.dim, nlab );
      Vals v = mkVals( y.type, idx );
      string txt;
      if( y.type == T_SET )
      {
         v[0] = 0;
         if( setTexts && idx % 2 )
         {
            int tn = -1;
            txt = fmt( "text of %d", idx );
            CK( o->gdxAddSetText( txt.c_str(), tn ), "set-text", "AddSetText failed" );
            v[0] = tn;
         }
      }
      double buf[5] = { v[0], v[1], v[2], v[3], v[4] };
      Key raw;
      if( y.mode == 0 )
      {
         vector<string> ks;
         for( int l: lk )
         {
            ks.push_back( LAB[(size_t) l] );
            raw.push_back( m.uel( LAB[(size_t) l] ) );
         }
         KeyIn ki( ks );
         ok = o->gdxDataWriteStr( ki.get(), buf );
      }
      else
      {
         int ki[20] = {};
         for( size_t d = 0; d < lk.size(); d++ )
         {
            raw.push_back( m.uel( LAB[(size_t) lk[d]] ) );
            ki[d] = y.mode == 1 ? raw.back() : userIdx( lk[d] );
         }
         ok = y.mode == 1 ? o->gdxDataWriteRaw( ki, buf ) : o->gdxDataWriteMap( ki, buf );
      }
      CK( ok, "write-record", "writing record %s of %s refused, error %d", showKey( raw ).c_str(), y.name.c_str(), o->gdxGetLastError() );
      c.note( "write " + y.name + " " + showKey( raw ) );
      y.model.emplace_back( raw, v );
      y.txt.emplace_back( raw, txt );
   }
   CK( o->gdxDataWriteDone(), "write-done", "DataWriteDone failed" );
   CK( o->gdxDataErrorCount() == 0, "write-done-errors", "a correct write reports %d data errors", o->gdxDataErrorCount() );
   std::sort( y.model.begin(), y.model.end(), []( auto &a, auto &b ) { return a.first < b.first; } );
   std::sort( y.txt.begin(), y.txt.end() );
}

// default record of an empty scalar (documented defaults)
static Vals defaults( int type )
{
   Vals v {};
   if( type == T_VAR )// free variable
      v = { 0, 0, GMS_SV_MINF, GMS_SV_PINF, 1 };
   if( type == T_EQU )// =E=
      v = { 0, 0, 0, 0, 1 };
   return v;
}

static vector<Rec> expected( const MSym &y )
{
   vector<Rec> e;
   for( size_t i = 0; i < y.model.size(); i++ )
   {
      Rec r;
      r.k = y.model[i].first;
      r.v = y.model[i].second;
      r.txt = y.txt[i].second;
      e.push_back( r );
   }
   if( e.empty() && y.dim == 0 )
   {
      Rec r;
      r.v = defaults( y.type );
      e.push_back( r );
   }
   return e;
}

static void cmp( Ctx &c, const MSym &y, vector<Rec> got, const char *how )
{
   auto e = expected( y );
   int nv = nvals( y.type );
   bool same = e.size() == got.size();
   for( size_t i = 0; same && i < e.size(); i++ ) same = e[i].same( got[i], nv );
   CK( same, string( "content-" ) + how, "%s reading of %s (type %d dim %d): expected %s but got %s", how, y.name.c_str(), y.type, y.dim, showRecs( e, nv ).c_str(), showRecs( got, nv ).c_str() );
}

static string textOf( Obj &o, double v )
{
   if( v == 0 ) return "";
   char t[256];
   int node;
   if( !o->gdxGetElemText( (int) v, t, node ) ) return "BAD";
   return t;
}

static void readSym( Ctx &c, Obj &o, const Model &m, const MSym &y, int mode, bool mapped )
{
   int sy = -1;
   CK( o->gdxFindSymbol( y.name.c_str(), sy ) && sy >= 1, "find", "symbol %s not found", y.name.c_str() );
   char id[256];
   int dim, typ, cnt, ui;
   CK( o->gdxSymbolInfo( sy, id, dim, typ ) && y.name == id && dim == y.dim && typ == y.type, "info", "SymbolInfo of %s wrong", y.name.c_str() );
   CK( o->gdxSymbolInfoX( sy, cnt, ui, id ), "infox", "SymbolInfoX failed" );
   int nexp = (int) expected( y ).size();
   CK( cnt == nexp, "announced-count", "catalogue announces %d records of %s, expected %d", cnt, y.name.c_str(), nexp );
   int nv = nvals( y.type );
   vector<Rec> got;
   int n = -9;
   if( mode == 0 )
   {
      vector<string> pr;
      got = readRaw( *o, sy, n, pr, false );
      CK( pr.empty(), "raw-order", "raw reading of %s: %s", y.name.c_str(), pr.empty() ? "" : pr[0].c_str() );
   }
   else if( mode == 1 )
   {
      CK( o->gdxDataReadStrStart( sy, n ), "start-str", "DataReadStrStart failed" );
      KeyBuf kb;
      double v[5];
      int df;
      while( true )
      {
         for( auto &x: v ) x = JUNKV;
         if( !o->gdxDataReadStr( kb.get(), v, df ) ) break;
         Rec r;
         for( int d = 0; d < dim; d++ )
         {
            int u = -1;
            for( size_t i = 0; i < m.uels.size(); i++ )
               if( m.uels[i] == kb.ptr[d] ) u = (int) i + 1;
            CK( u > 0, "label", "unknown label <%s> read", kb.ptr[d] );
            r.k.push_back( u );
         }
         for( int i = 0; i < nv; i++ ) r.v[(size_t) i] = v[i];
         got.push_back( r );
         CK( got.size() <= (size_t) nexp + 3, "too-many", "string reading of %s does not end", y.name.c_str() );
      }
      o->gdxDataReadDone();
   }
   else
   {
      CK( mapped, "harness", "needs a map" );
      CK( o->gdxDataReadMapStart( sy, n ), "start-map", "DataReadMapStart failed" );
      double v[5];
      int df, k[20];
      for( int rn = 1;; rn++ )
      {
         for( auto &x: v ) x = JUNKV;
         for( auto &x: k ) x = JUNKI;
         if( !o->gdxDataReadMap( rn, k, v, df ) ) break;
         Rec r;
         r.k.assign( k, k + dim );// identity map
         for( int i = 0; i < nv; i++ ) r.v[(size_t) i] = v[i];
         got.push_back( r );
         CK( got.size() <= (size_t) nexp + 3, "too-many", "mapped reading of %s does not end", y.name.c_str() );
      }
      CK( o->gdxDataErrorCount() == 0, "map-errors", "mapped reading reports %d errors", o->gdxDataErrorCount() );
      o->gdxDataReadDone();
   }
   c.note( fmt( "read %s mode %d: %zu records", y.name.c_str(), mode, got.size() ) );
   CK( n == (int) got.size(), "start-count", "start of reading mode %d announces %d records of %s, %zu delivered", mode, n, y.name.c_str(), got.size() );
   for( auto &r: got )
      if( y.type == T_SET ) r.txt = textOf( o, r.v[0] );
   static const char *how[] { "raw", "str", "map" };
   cmp( c, y, got, how[mode] );
}

static void regIdentity( Ctx &c, Obj &o, const Model &m )
{
   CK( o->gdxUELRegisterMapStart(), "reg", "UELRegisterMapStart failed" );
   for( size_t i = 0; i < m.uels.size(); i++ ) CK( o->gdxUELRegisterMap( (int) i + 1, m.uels[i].c_str() ), "reg", "UELRegisterMap failed" );
   CK( o->gdxUELRegisterDone(), "reg", "UELRegisterDone failed" );
}

static void preRegister( Ctx &c, Obj &o, Model &m, int how, int nlab, bool needMap )
{
   // how: 0 nothing, 1 raw in order, 2 raw reversed
   if( how )
   {
      CK( o->gdxUELRegisterRawStart(), "reg", "UELRegisterRawStart failed" );
      for( int i = 0; i < nlab; i++ )
      {
         const string &s = LAB[(size_t) ( how == 1 ? i : nlab - 1 - i )];
         CK( o->gdxUELRegisterRaw( s.c_str() ), "reg", "UELRegisterRaw failed" );
         m.uel( s );
      }
      CK( o->gdxUELRegisterDone(), "reg", "UELRegisterDone failed" );
   }
   if( needMap )
   {
      CK( o->gdxUELRegisterMapStart(), "reg", "UELRegisterMapStart failed" );
      for( int i = 0; i < nlab; i++ )
      {
         CK( o->gdxUELRegisterMap( userIdx( i ), LAB[(size_t) i].c_str() ), "reg", "UELRegisterMap failed" );
         m.uel( LAB[(size_t) i] );
      }
      CK( o->gdxUELRegisterDone(), "reg", "UELRegisterDone failed" );
   }
}

// in raw mode records must be written in ascending order of element numbers
static void sortForRaw( vector<int> &seq, const Model &m, int dim, int nlab )
{
   Model mm = m;
   auto rawKey = [&]( int i ) {
      Key k = keyOf( i, dim, nlab );
      for( auto &x: k ) x = mm.uel( LAB[(size_t) x] );
      return k;
   };
   std::sort( seq.begin(), seq.end(), [&]( int a, int b ) { return rawKey( a ) < rawKey( b ); } );
}

static int ipow( int b, int e )
{
   int r = 1;
   while( e-- ) r *= b;
   return r;
}

static void one( Ctx &c )
{
   MSym y;
   y.name = "Sym1";
   y.type = c.choose( 4, "type" );
   y.mode = c.choose( 3, "write mode" );
   y.dim = c.choose( 4, "dim" );
   bool compr = c.flip( "compress" );
   int pre = y.mode == 1 ? 1 + c.choose( 2, "registration" ) : c.choose( 3, "registration" );
   int nlab = y.dim == 1 ? 3 : 2;
   int nk = ipow( nlab, y.dim );
   int maxLen = y.dim <= 1 ? 3 : y.dim == 2 ? ( c.thorough ? 4 : 3 ) : ( c.thorough ? 4 : 2 );
   vector<int> seq = chooseSeq( c, nk, std::min( maxLen, nk ), y.mode == 1 );
   Model m;
   Obj o;
   int rc;
   string fn = c.path( "f.gdx" );
   CK( o->gdxOpenWriteEx( fn.c_str(), "P01", compr, rc ), "open", "open for writing failed: %d", rc );
   preRegister( c, o, m, pre, nlab, y.mode == 2 );
   if( y.mode == 1 ) sortForRaw( seq, m, y.dim, nlab );
   writeSym( c, o, m, y, seq, nlab, true );
   CK( o->gdxErrorCount() == 0, "errors", "a correct session counts %d errors", o->gdxErrorCount() );
   { int cl = o->gdxClose(); CK( cl == 0, "close", "close failed: %d", cl ); }
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen: %d", rc );
   // mapping before or after the first reads must not matter
   bool mapFirst = c.flip( "map first" );
   if( mapFirst ) regIdentity( c, r, m );
   readSym( c, r, m, y, 0, mapFirst );
   readSym( c, r, m, y, 1, mapFirst );
   if( !mapFirst ) regIdentity( c, r, m );
   readSym( c, r, m, y, 2, true );
   readSym( c, r, m, y, 1, true );
   readSym( c, r, m, y, 0, true );
   CK( r->gdxErrorCount() == 0, "errors", "a correct read session counts %d errors", r->gdxErrorCount() );
   CK( r->gdxClose() == 0, "close", "closing the read file failed" );
   c.state( mc::hashStr( showRecs( expected( y ), nvals( y.type ) ) + std::to_string( y.type * 100 + y.dim * 10 + y.mode ) ) );
}

// several symbols in one file, read in any order and with any modes
static void neighbours( Ctx &c )
{
   int n = c.thorough ? 3 : 2;
   static const int combos[][3] { { T_SET, 1, 0 }, { T_PAR, 2, 1 }, { T_VAR, 1, 2 }, { T_PAR, 0, 0 }, { T_EQU, 3, 0 }, { T_SET, 2, 2 }, { T_EQU, 0, 1 }, { T_VAR, 0, 2 }, { T_PAR, 1, 1 }, { T_PAR, 4, 0 } };
   static const vector<vector<int>> recs { {}, { 1 }, { 0, 1 } };
   bool compr = c.flip( "compress" );
   vector<MSym> ys;
   vector<vector<int>> seqs;
   for( int i = 0; i < n; i++ )
   {
      auto &cb = combos[c.choose( 10, "symbol kind" )];
      MSym y;
      y.name = fmt( "S%d", i + 1 );
      y.type = cb[0];
      y.dim = cb[1];
      y.mode = cb[2];
      int k = c.choose( c.thorough ? 2 : 3, "records" );
      seqs.push_back( y.dim == 0 ? ( k ? vector<int> { 0 } : vector<int> {} ) : recs[(size_t) ( c.thorough ? k * 2 : k )] );
      ys.push_back( y );
   }
   Model m;
   Obj o;
   int rc;
   string fn = c.path( "f.gdx" );
   CK( o->gdxOpenWriteEx( fn.c_str(), "P01", compr, rc ), "open", "open for writing failed: %d", rc );
   preRegister( c, o, m, 2, 2, true );
   for( int i = 0; i < n; i++ )
   {
      if( ys[(size_t) i].mode == 1 ) sortForRaw( seqs[(size_t) i], m, ys[(size_t) i].dim, 2 );
      writeSym( c, o, m, ys[(size_t) i], seqs[(size_t) i], 2, i % 2 == 0 );
   }
   { int cl = o->gdxClose(); CK( cl == 0, "close", "close failed: %d", cl ); }
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen: %d", rc );
   regIdentity( c, r, m );
   int sc, uc;
   r->gdxSystemInfo( sc, uc );
   CK( sc == n && uc == (int) m.uels.size(), "counts", "file announces %d symbols and %d elements, expected %d and %zu", sc, uc, n, m.uels.size() );
   int m1 = c.choose( 3, "read mode" ), m2 = c.choose( 3, "read mode" );
   auto p = perms( n );
   auto &order = p[(size_t) c.choose( (int) p.size(), "read order" )];
   for( int k = 0; k < 2; k++ )
      for( int i: order ) readSym( c, r, m, ys[(size_t) i], k ? m2 : m1, true );
   r->gdxClose();
   string s;
   for( auto &y: ys ) s += showRecs( expected( y ), 5 ) + fmt( "%d%d%d", y.type, y.dim, y.mode );
   c.state( mc::hashStr( s ) );
}

// larger record sets in systematic orders (sorting containers, growth)
static void many( Ctx &c )
{
   static const vector<int> sizes { 1, 2, 3, 5, 17, 64, 127, 128, 129, 255, 256, 257, 500 };
   int nrec = sizes[(size_t) c.choose( (int) sizes.size(), "size" )];
   int dim = 1 + c.choose( 3, "dim" );
   int order = c.choose( 5, "order" );
   int mode = c.choose( 2, "mode" ) * 2;
   int type = c.flip( "type" ) ? T_VAR : T_PAR;
   int nl = dim == 1 ? nrec + 3 : dim == 2 ? 30 : 10;
   int total = ipow( nl, dim );
   vector<int> ids;
   static const int strides[] { 1, 1, 7, 13, 37 };
   int st = strides[order];
   while( std::__gcd( st, total ) != 1 ) st++;
   for( int i = 0; i < nrec; i++ ) ids.push_back( (int) ( ( (long) ( order == 1 ? nrec - 1 - i : i ) * st ) % total ) );
   Obj o;
   int rc;
   string fn = c.path( "m.gdx" );
   CK( o->gdxOpenWriteEx( fn.c_str(), "P01", order & 1, rc ), "open", "open for writing failed: %d", rc );
   // labels registered so that label i has number i+1 and user index 2*(nl-i)
   o->gdxUELRegisterMapStart();
   for( int i = 0; i < nl; i++ ) CK( o->gdxUELRegisterMap( 2 * ( nl - i ), fmt( "i%d", i ).c_str() ), "reg", "UELRegisterMap failed" );
   o->gdxUELRegisterDone();
   CK( mode == 0 ? o->gdxDataWriteStrStart( "p", "", dim, type, 0 ) : o->gdxDataWriteMapStart( "p", "", dim, type, 0 ), "write-start", "start failed" );
   vector<std::pair<Key, double>> model;
   for( int id: ids )
   {
      Key k = keyOf( id, dim, nl );
      double v[5] = { id + 0.5, id + 1.0, -id - 2.0, 0.0, 1.0 };
      int ok;
      if( mode == 0 )
      {
         vector<string> ks;
         for( int x: k ) ks.push_back( fmt( "i%d", x ) );
         KeyIn ki( ks );
         ok = o->gdxDataWriteStr( ki.get(), v );
      }
      else
      {
         int ki[20];
         for( size_t d = 0; d < k.size(); d++ ) ki[d] = 2 * ( nl - k[d] );
         ok = o->gdxDataWriteMap( ki, v );
      }
      CK( ok, "write-record", "record refused" );
      for( auto &x: k ) x++;
      model.emplace_back( k, id );
   }
   CK( o->gdxDataWriteDone() && o->gdxDataErrorCount() == 0, "write-done", "DataWriteDone failed" );
   { int cl = o->gdxClose(); CK( cl == 0, "close", "close failed: %d", cl ); }
   c.note( fmt( "wrote %d records dim %d order %d mode %d", nrec, dim, order, mode ) );
   c.step( (uint64_t) nrec );
   std::sort( model.begin(), model.end() );
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen: %d", rc );
   int n;
   vector<string> pr;
   auto got = readRaw( *r, 1, n, pr, false );
   CK( pr.empty(), "raw-order", "%s", pr.empty() ? "" : pr[0].c_str() );
   CK( n == nrec && (int) got.size() == nrec, "count", "wrote %d records, start announces %d, %zu delivered", nrec, n, got.size() );
   for( int i = 0; i < nrec; i++ )
   {
      auto &g = got[(size_t) i];
      double id = model[(size_t) i].second;
      CK( g.k == model[(size_t) i].first, "key", "record %d has key %s, expected %s", i + 1, showKey( g.k ).c_str(), showKey( model[(size_t) i].first ).c_str() );
      bool ok = g.v[0] == id + 0.5 && ( type != T_VAR || ( g.v[1] == id + 1.0 && g.v[2] == -id - 2.0 && g.v[3] == 0.0 && g.v[4] == 1.0 ) );
      CK( ok, "value", "record %s has values %s", showKey( g.k ).c_str(), showRec( g, 5 ).c_str() );
   }
   c.step( (uint64_t) nrec );
   r->gdxClose();
   c.state( mc::mix( (uint64_t) nrec, (uint64_t) ( dim * 100 + order * 10 + mode ) ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P01";
   d.sc = {
           { "one-symbol", one, 3, "1 symbol; 4 types x 3 write modes x dim 0..3 x compression x 3 registration orders; all sequences of <=3 distinct keys over 2-3 labels per position (thorough 4); raw, string, mapped reads" },
           { "neighbours", neighbours, 3, "2 symbols (thorough 3) of 10 kinds x record sets; every read order and pair of read modes" },
           { "many", many, 3, "13 sizes up to 500 records x 5 insertion orders x dim 1..3 x string/map mode" } };
   d.assumptions = { "record values are fixed functions of the key (value classes are enumerated by P10)", "record sets beyond the stated sizes rely on the data independence of the record pipeline (sizes at internal limits are covered by P02)" };
   return d.main( argc, argv );
}
