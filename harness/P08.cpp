// P08: mapped and filtered reading delivers exactly the qualifying records, sorted, and reports the others.
#include "gdxh.hpp"
using namespace gh;

// actions: 0 strict, -1 unmapped, -2 expand, >=1 filter number (values of the API constants are taken from gdx.h semantics below)
static constexpr int UNMAPPED = -2, EXPAND = -1, STRICT = 0;

struct Map
{
   vector<int> user;// per element (1-based index-1), -1 = none
   int high = 0;
};
struct Filter
{
   int nr;
   std::set<int> idx;
};

struct Result
{
   vector<Rec> recs;
   vector<Key> rejected;
   std::set<std::pair<int, int>> firstViol;
};

// reference: records in file order, positions left to right
static Result reference( const vector<Rec> &raw, int dim, const vector<int> &act, const vector<Filter> &filters, Map &m )
{
   Result r;
   for( auto &x: raw )
   {
      Rec o = x;
      bool bad = false;
      vector<int> pend;
      for( int d = 0; d < dim && !bad; d++ )
      {
         int e = x.k[(size_t) d], u = m.user[(size_t) e - 1];
         int a = act[(size_t) d];
         if( a == UNMAPPED ) o.k[(size_t) d] = e;
         else if( a == EXPAND )
         {
            if( u >= 0 ) o.k[(size_t) d] = u;
            else
            {
               o.k[(size_t) d] = -e;
               pend.push_back( e );
            }
         }
         else
         {
            bool okk;
            if( a == STRICT ) okk = u >= 0;
            else
            {
               okk = false;
               for( auto &f: filters )
                  if( f.nr == a ) okk = u >= 0 && f.idx.count( u );
            }
            if( okk ) o.k[(size_t) d] = u;
            else
            {
               bad = true;
               r.firstViol.insert( { d, e } );
            }
         }
      }
      if( bad )
      {
         r.rejected.push_back( x.k );
         continue;
      }
      for( int e: pend )
         if( m.user[(size_t) e - 1] < 0 ) m.user[(size_t) e - 1] = ++m.high;
      for( int d = 0; d < dim; d++ )
         if( act[(size_t) d] == EXPAND && o.k[(size_t) d] < 0 ) o.k[(size_t) d] = m.user[(size_t) -o.k[(size_t) d] - 1];
      r.recs.push_back( o );
   }
   std::sort( r.recs.begin(), r.recs.end(), []( const Rec &a, const Rec &b ) { return a.k < b.k; } );
   return r;
}

static void checkUels( Ctx &c, Obj &o, const Map &m, const char *when )
{
   int cnt, hi;
   CK( o->gdxUMUelInfo( cnt, hi ) && cnt == (int) m.user.size(), "uel-count", "%s: %d elements, expected %zu", when, cnt, m.user.size() );
   for( size_t i = 0; i < m.user.size(); i++ )
   {
      char b[256];
      int mp;
      CK( o->gdxUMUelGet( (int) i + 1, b, mp ) && mp == m.user[i], "registration", "%s: element %zu has user index %d, expected %d", when, i + 1, mp, m.user[i] );
      if( mp >= 0 )
      {
         char b2[256];
         CK( o->gdxGetUEL( mp, b2 ) && !strcmp( b, b2 ), "registration", "%s: user index %d is %s instead of %s", when, mp, b2, b );
      }
   }
   CK( hi == m.high, "highest", "%s: highest user index %d, expected %d", when, hi, m.high );
}

static uint64_t readChecked( Ctx &c, Obj &o, int sy, int dim, int typ, const vector<Rec> &raw, const vector<int> &act, const vector<Filter> &filters, Map &m, bool plainMap )
{
   Result x = reference( raw, dim, act, filters, m );
   string as;
   for( int a: act ) as += fmt( " %d", a );
   int n = -9;
   int e0 = o->gdxErrorCount();
   int ok = plainMap ? o->gdxDataReadMapStart( sy, n ) : o->gdxDataReadFilteredStart( sy, act.data(), n );
   c.note( fmt( "read symbol %d actions%s -> %d, announced %d", sy, as.c_str(), ok, n ) );
   CK( ok, "start", "start of the mapped read failed" );
   CK( n >= (int) x.recs.size() && n <= (int) raw.size(), "announced", "%d records announced, %zu qualify of %zu", n, x.recs.size(), raw.size() );
   size_t i = 0;
   Key prev;
   while( true )
   {
      int k[20], df = -9;
      double v[5];
      for( auto &q: k ) q = JUNKI;
      for( auto &q: v ) q = JUNKV;
      if( !o->gdxDataReadMap( (int) i + 1, k, v, df ) ) break;
      Key g( k, k + dim );
      CK( i < x.recs.size(), "extra", "record %s delivered but only %zu records qualify (actions%s)", showKey( g ).c_str(), x.recs.size(), as.c_str() );
      CK( g == x.recs[i].k, "key", "record %zu delivered as %s, expected %s (actions%s)", i + 1, showKey( g ).c_str(), showKey( x.recs[i].k ).c_str(), as.c_str() );
      for( int d = 0; d < nvals( typ ); d++ ) CK( v[d] == x.recs[i].v[(size_t) d], "value", "record %s has value %g, expected %g", showKey( g ).c_str(), v[d], x.recs[i].v[(size_t) d] );
      int ed = 1;
      if( i )
         while( ed <= dim && prev[(size_t) ed - 1] == g[(size_t) ed - 1] ) ed++;
      CK( df == ed, "dimfirst", "record %s reports first changed dimension %d, expected %d", showKey( g ).c_str(), df, ed );
      prev = g;
      i++;
   }
   CK( i == x.recs.size(), "missing", "%zu records delivered, %zu qualify (actions%s)", i, x.recs.size(), as.c_str() );
   int ne = o->gdxDataErrorCount();
   CK( ( ne > 0 ) == !x.rejected.empty() && ne <= (int) x.rejected.size(), "err-count", "%d error records for %zu records left out", ne, x.rejected.size() );
   std::set<std::pair<int, int>> cov;
   for( int e = 1; e <= ne; e++ )
   {
      int k[20] = {}, kx[20] = {};
      double v[5];
      CK( o->gdxDataErrorRecord( e, k, v ) && o->gdxDataErrorRecordX( e, kx, v ), "err-record", "error record %d not available", e );
      Key g( k, k + dim );
      CK( std::find( x.rejected.begin(), x.rejected.end(), g ) != x.rejected.end(), "err-record", "error record %s was not left out", showKey( g ).c_str() );
      for( auto &r: raw )
         if( r.k == g )
            for( int d = 0; d < nvals( typ ); d++ ) CK( v[d] == r.v[(size_t) d], "err-value", "error record %s has value %g, stored %g", showKey( g ).c_str(), v[d], r.v[(size_t) d] );
      for( int d = 0; d < dim; d++ )
      {
         CK( kx[d] == k[d] || kx[d] == -k[d], "err-mark", "error record %s shows %d", showKey( g ).c_str(), kx[d] );
         if( kx[d] < 0 ) cov.insert( { d, k[d] } );
      }
   }
   if( ne < 11 )
      for( auto &fv: x.firstViol ) CK( cov.count( fv ), "err-unlisted", "element %d in position %d disqualifies records but is in no error record", fv.second, fv.first + 1 );
   CK( o->gdxDataReadDone(), "done", "DataReadDone failed" );
   CK( o->gdxErrorCount() == e0, "errors", "mapped reading counts %d errors", o->gdxErrorCount() - e0 );
   checkUels( c, o, m, "after reading" );
   uint64_t h = (uint64_t) ne;
   for( auto &r: x.recs )
      for( int k: r.k ) h = mc::mix( h, (uint64_t) k );
   return h;
}

static const char *LB[] = { "a", "b", "c", "d", "e" };
static Rec mk( const Key &k, int typ )
{
   Rec r;
   r.k = k;
   double s = 0;
   for( int e: k ) s = s * 10 + e;
   for( int i = 0; i < nvals( typ ); i++ ) r.v[(size_t) i] = s + i * 0.125;
   return r;
}
static void makeFile( Ctx &c, const string &fn, int nel, const vector<std::tuple<int, int, vector<Rec>>> &syms )
{
   Obj w;
   int rc;
   CK( w->gdxOpenWrite( fn.c_str(), "p", rc ), "w", "open failed" );
   CK( w->gdxUELRegisterRawStart(), "w", "reg" );
   for( int i = 0; i < nel; i++ ) CK( w->gdxUELRegisterRaw( LB[i] ), "w", "reg" );
   CK( w->gdxUELRegisterDone(), "w", "reg" );
   int n = 0;
   for( auto &[dim, typ, recs]: syms )
   {
      CK( w->gdxDataWriteRawStart( fmt( "s%d", ++n ).c_str(), "", dim, typ, 0 ), "w", "start" );
      for( auto &r: recs ) CK( w->gdxDataWriteRaw( r.k.data(), r.v.data() ), "w", "record" );
      CK( w->gdxDataWriteDone(), "w", "done" );
   }
   CK( w->gdxClose() == 0, "w", "close" );
}
// partial injective maps of n elements into indices 1..n, registered in index order or element order
static vector<vector<int>> partialMaps( int n, int top )
{
   vector<vector<int>> out;
   vector<int> cur( (size_t) n, -1 );
   std::function<void( int, unsigned )> rec = [&]( int i, unsigned used ) {
      if( i == n )
      {
         out.push_back( cur );
         return;
      }
      cur[(size_t) i] = -1;
      rec( i + 1, used );
      for( int u = 1; u <= top; u++ )
         if( !( used >> u & 1 ) )
         {
            cur[(size_t) i] = u;
            rec( i + 1, used | 1u << u );
         }
      cur[(size_t) i] = -1;
   };
   rec( 0, 0 );
   return out;
}
static void registerMap( Ctx &c, Obj &o, Map &m, const vector<int> &user )
{
   m.user = user;
   m.high = 0;
   CK( o->gdxUELRegisterMapStart(), "reg", "RegisterMapStart refused" );
   for( size_t i = 0; i < user.size(); i++ )
      if( user[i] >= 0 )
      {
         CK( o->gdxUELRegisterMap( user[i], LB[i] ), "reg", "registration refused" );
         m.high = std::max( m.high, user[i] );
      }
   CK( o->gdxUELRegisterDone(), "reg", "RegisterDone refused" );
}
// registers filter nr with the given subset (mask over indices 1..), checking which registrations are legal
static void registerFilter( Ctx &c, Obj &o, const Map &m, vector<Filter> &fs, int nr, int mask )
{
   CK( o->gdxFilterRegisterStart( nr ), "filter", "FilterRegisterStart refused" );
   Filter f { nr, {} };
   for( int u = 1; u <= 5; u++ )
      if( mask >> ( u - 1 ) & 1 )
      {
         bool legal = std::find( m.user.begin(), m.user.end(), u ) != m.user.end();
         int r = o->gdxFilterRegister( u );
         CK( ( r != 0 ) == legal, legal ? "filter-refused" : "filter-accepted", "FilterRegister(%d) gives %d", u, r );
         if( legal ) f.idx.insert( u );
         else
            CK( o->gdxGetLastError() != 0, "filter-noerror", "refused FilterRegister leaves no error" );
      }
   CK( o->gdxFilterRegisterDone(), "filter", "FilterRegisterDone refused" );
   CK( o->gdxFilterExists( nr ) && !o->gdxFilterExists( nr + 7 ), "filter-exists", "FilterExists wrong" );
   for( size_t i = 0; i < fs.size(); i++ )
      if( fs[i].nr == nr ) fs.erase( fs.begin() + (long) i-- );
   fs.push_back( f );
}
static vector<Key> keysOf( int dim, int n )
{
   vector<Key> r { Key {} };
   for( int d = 0; d < dim; d++ )
   {
      vector<Key> q;
      for( auto &k: r )
         for( int e = 1; e <= n; e++ )
         {
            Key z = k;
            z.push_back( e );
            q.push_back( z );
         }
      r = q;
   }
   return r;
}
static int chooseAct( Ctx &c, bool filters )
{
   static const int A[] = { STRICT, EXPAND, UNMAPPED, 3 };
   return A[c.choose( filters ? 4 : 3, "action" )];
}

static void body( Ctx &c, int dim, int nel, int top, const vector<vector<Rec>> &sets, int typ, int nfilters )
{
   string fn = c.path( "f.gdx" );
   static thread_local int lastSet = -1, lastDim = -1;
   int si = c.choose( (int) sets.size(), "records" );
   auto &recs = sets[(size_t) si];
   if( lastSet != si || lastDim != dim || !std::filesystem::exists( fn ) )
   {
      makeFile( c, fn, nel, { { dim, typ, recs } } );
      lastSet = si;
      lastDim = dim;
   }
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "open failed" );
   static std::map<std::pair<int, int>, vector<vector<int>>> memo;
   auto &pm = memo[{ nel, top }];
   if( pm.empty() ) pm = partialMaps( nel, top );
   Map m;
   registerMap( c, o, m, pm[(size_t) c.choose( (int) pm.size(), "map" )] );
   vector<Filter> fs;
   vector<int> act;
   bool any = false;
   for( int d = 0; d < dim; d++ )
   {
      act.push_back( chooseAct( c, true ) );
      any |= act.back() == 3;
   }
   if( any )
   {
      int nm = 1 << nfilters;
      registerFilter( c, o, m, fs, 3, c.choose( nm, "filter members" ) );
   }
   string ms;
   for( int u: m.user ) ms += fmt( " %d", u );
   c.note( "map" + ms );
   uint64_t h = readChecked( c, o, 1, dim, typ, recs, act, fs, m, false );
   // the raw content is unchanged afterwards
   int sc;
   vector<string> pr;
   auto again = readRaw( *o, 1, sc, pr, false );
   CK( pr.empty() && again.size() == recs.size(), "raw-after", "raw reading after the mapped read delivers %zu records", again.size() );
   for( size_t i = 0; i < recs.size(); i++ ) CK( again[i].same( recs[i], nvals( typ ) ), "raw-after", "raw record changed" );
   c.state( mc::mix( h, mc::hashStr( ms, (uint64_t) si ) ) );
   for( int a: act ) h = mc::mix( h, (uint64_t) ( a + 5 ) );
   c.outcome( h );
}
static vector<vector<Rec>> subsets( int dim, int n, int typ, int maxSize )
{
   vector<vector<Rec>> out;
   auto ks = keysOf( dim, n );
   for( unsigned mask = 0; mask < ( 1u << ks.size() ); mask++ )
   {
      int pc = __builtin_popcount( mask );
      if( pc > maxSize && pc != (int) ks.size() ) continue;
      vector<Rec> r;
      for( size_t i = 0; i < ks.size(); i++ )
         if( mask >> i & 1 ) r.push_back( mk( ks[i], typ ) );
      out.push_back( r );
   }
   return out;
}
static void dim1( Ctx &c )
{
   static auto s = subsets( 1, 4, T_VAR, 4 );
   body( c, 1, 4, c.thorough ? 5 : 4, s, T_VAR, 4 );
}
static void dim2( Ctx &c )
{
   static auto s = subsets( 2, 3, T_PAR, 3 ), st = subsets( 2, 3, T_PAR, 9 );
   body( c, 2, 3, 3, c.thorough ? st : s, T_PAR, 2 );
}
static void dim3( Ctx &c )
{
   static auto s = subsets( 3, 2, T_PAR, 4 ), st = subsets( 3, 2, T_PAR, 8 );
   body( c, 3, 2, c.thorough ? 3 : 2, c.thorough ? st : s, T_PAR, 1 );
}

// sequences: registrations, filters and reads of two symbols, alias and universe
static void sequence( Ctx &c )
{
   string fn = c.path( "q.gdx" );
   vector<Rec> r1, r2;
   for( auto &k: vector<Key> { { 1, 3 }, { 2, 1 }, { 2, 4 }, { 4, 2 }, { 4, 4 } } ) r1.push_back( mk( k, T_PAR ) );
   for( auto &k: vector<Key> { { 1 }, { 3 }, { 4 } } ) r2.push_back( mk( k, T_VAR ) );
   {
      Obj w;
      int rc;
      CK( w->gdxOpenWrite( fn.c_str(), "p", rc ), "w", "open failed" );
      CK( w->gdxUELRegisterRawStart(), "w", "reg" );
      for( int i = 0; i < 4; i++ ) CK( w->gdxUELRegisterRaw( LB[i] ), "w", "reg" );
      CK( w->gdxUELRegisterDone(), "w", "reg" );
      CK( w->gdxDataWriteRawStart( "s1", "", 2, T_PAR, 0 ), "w", "start" );
      for( auto &r: r1 ) CK( w->gdxDataWriteRaw( r.k.data(), r.v.data() ), "w", "record" );
      CK( w->gdxDataWriteDone(), "w", "done" );
      CK( w->gdxDataWriteRawStart( "s2", "", 1, T_VAR, 0 ), "w", "start" );
      for( auto &r: r2 ) CK( w->gdxDataWriteRaw( r.k.data(), r.v.data() ), "w", "record" );
      CK( w->gdxDataWriteDone(), "w", "done" );
      CK( w->gdxDataWriteRawStart( "i", "", 1, T_SET, 0 ), "w", "start" );
      double z[5] = {};
      for( int e: { 2, 4 } ) CK( w->gdxDataWriteRaw( &e, z ), "w", "record" );
      CK( w->gdxDataWriteDone(), "w", "done" );
      CK( w->gdxAddAlias( "i", "ai" ) && w->gdxAddAlias( "*", "u" ), "w", "alias" );
      CK( w->gdxClose() == 0, "w", "close" );
   }
   vector<Rec> ri, ru;
   for( int e: { 2, 4 } )
   {
      Rec r;
      r.k = { e };
      ri.push_back( r );
   }
   for( int e = 1; e <= 4; e++ )
   {
      Rec r;
      r.k = { e };
      ru.push_back( r );
   }
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "open failed" );
   Map m;
   m.user.assign( 4, -1 );
   vector<Filter> fs;
   int steps = c.thorough ? 4 : 3;
   uint64_t h = 0;
   for( int s = 0; s < steps; s++ )
   {
      // 0..2 register, 3..4 filter, 5.. reads
      int op = c.choose( 5 + 9 + 4 * 3 + 2, "op" );
      if( op >= 26 )
      {
         // automatic numbering of an element of the file, mapped or not
         int e = op == 26 ? 2 : 3, u = -9;
         if( m.user[(size_t) e - 1] < 0 ) m.user[(size_t) e - 1] = ++m.high;
         CK( o->gdxUELRegisterStrStart(), "reg", "start" );
         CK( o->gdxUELRegisterStr( LB[e - 1], u ) && u == m.user[(size_t) e - 1], "reg", "automatic registration of %s gives %d, expected %d", LB[e - 1], u, m.user[(size_t) e - 1] );
         CK( o->gdxUELRegisterDone(), "reg", "done" );
         c.note( fmt( "register %s -> %d", LB[e - 1], u ) );
      }
      else if( op < 3 )
      {
         static const int EL[] = { 1, 3, 4 };
         int e = EL[op], u = op == 0 ? 5 : op == 1 ? 2 : 9;
         CK( o->gdxUELRegisterMapStart(), "reg", "start" );
         bool legal = m.user[(size_t) e - 1] < 0 || m.user[(size_t) e - 1] == u;
         for( size_t i = 0; i < m.user.size(); i++ )
            if( (int) i != e - 1 && m.user[i] == u ) legal = false;
         int r = o->gdxUELRegisterMap( u, LB[e - 1] );
         CK( ( r != 0 ) == legal, "reg", "registration of %s as %d gives %d", LB[e - 1], u, r );
         if( legal )
         {
            m.user[(size_t) e - 1] = u;
            m.high = std::max( m.high, u );
         }
         o->gdxGetLastError();
         CK( o->gdxUELRegisterDone(), "reg", "done" );
         c.note( fmt( "register %s=%d -> %d", LB[e - 1], u, r ) );
      }
      else if( op < 5 )
      {
         // filter with every second mapped index
         vector<int> mapped;
         for( int u: m.user )
            if( u > 0 ) mapped.push_back( u );
         std::sort( mapped.begin(), mapped.end() );
         CK( o->gdxFilterRegisterStart( 3 ), "filter", "start" );
         Filter f { 3, {} };
         for( size_t i = (size_t) ( op - 3 ); i < mapped.size(); i += 2 )
         {
            CK( o->gdxFilterRegister( mapped[i] ), "filter", "FilterRegister(%d) refused", mapped[i] );
            f.idx.insert( mapped[i] );
         }
         CK( o->gdxFilterRegisterDone(), "filter", "done" );
         fs = { f };
         c.note( fmt( "filter of %zu", f.idx.size() ) );
      }
      else if( op < 14 )
      {
         static const int A[] = { STRICT, EXPAND, 3 };
         vector<int> act { A[( op - 5 ) / 3], A[( op - 5 ) % 3] };
         bool needF = act[0] == 3 || act[1] == 3;
         if( needF && fs.empty() )
         {
            int n;
            int e0 = o->gdxErrorCount();
            CK( !o->gdxDataReadFilteredStart( 1, act.data(), n ), "unknown-filter", "reading with an unknown filter succeeds" );
            CK( o->gdxErrorCount() > e0 && o->gdxGetLastError() != 0, "unknown-filter", "no error for an unknown filter" );
            checkUels( c, o, m, "after refusal" );
         }
         else
            h = mc::mix( h, readChecked( c, o, 1, 2, T_PAR, r1, act, fs, m, false ) );
      }
      else
      {
         int k = ( op - 14 ) / 3, a = ( op - 14 ) % 3;
         static const int SY[] = { 2, 3, 4, 0 };
         vector<int> act { a == 0 ? STRICT : a == 1 ? EXPAND : UNMAPPED };
         auto &raw = k == 0 ? r2 : k == 3 ? ru : ri;
         h = mc::mix( h, readChecked( c, o, SY[k], 1, k == 0 ? T_VAR : T_SET, raw, act, fs, m, a == 0 ) );
      }
   }
   c.state( h );
}

// histories of filter registrations: a filter number means its last registration, whatever came before and between
static void filters( Ctx &c )
{
   string fn = c.path( "fl.gdx" );
   vector<Rec> r1, r2;
   for( int e = 1; e <= 4; e++ ) r1.push_back( mk( { e }, T_PAR ) );
   for( auto &k: keysOf( 2, 4 ) )
      if( k[0] != 3 || k[1] != 3 ) r2.push_back( mk( k, T_PAR ) );
   if( !std::filesystem::exists( fn ) ) makeFile( c, fn, 4, { { 1, T_PAR, r1 }, { 2, T_PAR, r2 } } );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "open failed" );
   Map m;
   registerMap( c, o, m, { 2, 1, -1, 3 } );
   vector<Filter> fs;
   static const int NR[] = { 1, 2, 7 }, MASK[] = { 0, 1, 6, 7, 12 };
   int n = c.thorough ? 4 : 3, extra = c.choose( n + 2, "when the fourth element is mapped" );
   auto more = [&]( int at ) {
      if( at != extra ) return;
      CK( o->gdxUELRegisterMapStart() && o->gdxUELRegisterMap( 4, LB[2] ) && o->gdxUELRegisterDone(), "reg", "registration refused" );
      m.user[2] = m.high = 4;
      c.note( "map c=4" );
   };
   for( int i = 0; i < n; i++ )
   {
      more( i );
      int nr = NR[c.choose( 3, "filter" )], mask = MASK[c.choose( 5, "members" )];
      registerFilter( c, o, m, fs, nr, mask );
      c.note( fmt( "filter %d mask %d", nr, mask ) );
   }
   more( n );
   uint64_t h = 0;
   for( int nr: NR )
   {
      bool known = false;
      for( auto &f: fs ) known |= f.nr == nr;
      CK( ( o->gdxFilterExists( nr ) != 0 ) == known, "filter-exists", "FilterExists(%d) wrong", nr );
      if( known ) h = mc::mix( h, readChecked( c, o, 1, 1, T_PAR, r1, { nr }, fs, m, false ) );
   }
   h = mc::mix( h, readChecked( c, o, 2, 2, T_PAR, r2, { fs.front().nr, fs.back().nr }, fs, m, false ) );
   h = mc::mix( h, readChecked( c, o, 2, 2, T_PAR, r2, { fs.back().nr, STRICT }, fs, m, false ) );
   c.state( h );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P08";
   d.sc = { { "dim1", dim1, 3, "all 16 record sets over 4 elements x all partial injective user maps into 4 (5) indices x strict/expand/unmapped/filter with all 16 member masks (legal and illegal)" },
            { "dim2", dim2, 3, "all record sets of size 0-3 and 9 (thorough: all 512) over 3x3 keys x all 34 partial maps x all 16 action pairs x 4 filter masks" },
            { "dim3", dim3, 3, "record sets of size 0-4 and 8 (all 256) over 2x2x2 keys x 7 (13) maps x all 64 action triples x 2 filter masks" },
            { "sequence", sequence, 3, "all sequences of 3 (4) operations out of registrations, filters, two-dimensional reads, reads of variable, set, alias and universe with every action" },
            { "filters", filters, 3, "all histories of 3 (4) filter registrations over 3 filter numbers x 5 member sets x every moment at which a further element is mapped, then reads with every filter" } };
   d.assumptions = { "reads are completed; interrupted reads are part of P09" };
   return d.main( argc, argv );
}
