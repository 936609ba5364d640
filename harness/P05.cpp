// P05: user index <-> element mapping stays consistent through any history.
#include "gdxh.hpp"
using namespace gh;

struct Model
{
   vector<string> t;        // entries
   vector<int> user;        // entry -> user index or -1
   std::map<int, int> entry;// user index -> entry (1-based)
   int high = 0;
   static string norm( string s )
   {
      while( !s.empty() && s.back() == ' ' ) s.pop_back();
      for( auto &ch: s ) ch = (char) toupper( (unsigned char) ch );
      return s;
   }
   int find( const string &s ) const
   {
      for( size_t i = 0; i < t.size(); i++ )
         if( norm( t[i] ) == norm( s ) ) return (int) i + 1;
      return -1;
   }
   int add( const string &s )
   {
      int f = find( s );
      if( f > 0 ) return f;
      string x = s;
      while( !x.empty() && x.back() == ' ' ) x.pop_back();
      t.push_back( x );
      user.push_back( -1 );
      return (int) t.size();
   }
   void setMap( int e, int u )
   {
      user[(size_t) e - 1] = u;
      entry[u] = e;
      high = std::max( high, u );
   }
   int regStr( const string &s )
   {
      int e = add( s );
      if( user[(size_t) e - 1] < 0 ) setMap( e, high + 1 );
      return user[(size_t) e - 1];
   }
   bool regMap( const string &s, int u )
   {
      if( u < 0 ) return false;
      int f = find( s );
      auto it = entry.find( u );
      if( it != entry.end() && it->second != f ) return false;
      if( f > 0 && user[(size_t) f - 1] >= 0 && user[(size_t) f - 1] != u ) return false;
      f = add( s );
      if( user[(size_t) f - 1] < 0 ) setMap( f, u );
      return true;
   }
};

static const vector<int> QUERY { -5, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1022, 1023, 1024, 1025, 1026, 1027, 2047, 2048, 5000, 5001, 5002, 5003, 5004, 5005, 100000 };

static void checkMap( Ctx &c, Obj &o, const Model &m )
{
   int cnt = -9, hi = -9;
   CK( o->gdxUMUelInfo( cnt, hi ), "info", "UMUelInfo failed" );
   CK( cnt == (int) m.t.size(), "count", "%d elements, expected %zu", cnt, m.t.size() );
   CK( hi == m.high, "highest", "highest user index %d, expected %d", hi, m.high );
   for( size_t i = 0; i < m.t.size(); i++ )
   {
      char b[256];
      int mp = -9, nr = -9, mp2 = -9;
      CK( o->gdxUMUelGet( (int) i + 1, b, mp ) && m.t[i] == b, "get", "element %zu is <%s>", i + 1, b );
      CK( mp == m.user[i], "map-of-element", "element <%s> has user index %d, expected %d", b, mp, m.user[i] );
      CK( o->gdxUMFindUEL( m.t[i].c_str(), nr, mp2 ) && nr == (int) i + 1 && mp2 == mp, "find", "element <%s> found as %d with user index %d, expected %zu and %d", b, nr, mp2, i + 1, mp );
   }
   for( int u: QUERY )
   {
      char b[256];
      memset( b, '~', 255 );
      b[255] = 0;
      auto it = m.entry.find( u );
      int r = o->gdxGetUEL( u, b );
      if( it == m.entry.end() ) CK( !r && fmt( "?L__%d", u ) == b, "unmapped", "user index %d gives <%s> (%d) although it is not registered", u, b, r );
      else
         CK( r && m.t[(size_t) it->second - 1] == b, "element-of-map", "user index %d gives <%s> (%d), expected <%s>", u, b, r, m.t[(size_t) it->second - 1].c_str() );
   }
}

static const vector<string> LB { "a", "B", "A ", "ccc", "d" };
static const vector<int> UI { 0, 1, 2, 5, 1023, 1024, 5000, -1 };

static void oneOp( Ctx &c, Obj &o, Model &m, bool reading, int &openMode )
{
   // openMode: 0 none, 1 raw, 2 str, 3 map : a registration phase stays open over several operations of its kind
   int nl = c.thorough ? 5 : 4;
   int nu = (int) UI.size();
   int nops = nl * nu + nl + ( reading ? 0 : nl );
   int k = c.choose( nops + 2, "op" );
   if( k >= nops )
   {
      // a rename keeps the element and its user index
      const char *from = k == nops ? "a" : "B", *to = k == nops ? "q" : "CCC ";
      int f = m.find( from ), e = f < 0 ? 2 : m.find( to ) >= 0 ? 3 : 0;
      int r = o->gdxRenameUEL( from, to );
      c.note( fmt( "rename <%s> to <%s> -> %d", from, to, r ) );
      CK( r == e, "rename-result", "rename gives %d, expected %d", r, e );
      if( !r ) m.t[(size_t) f - 1] = k == nops ? "q" : "CCC";
      checkMap( c, o, m );
      return;
   }
   int want = k < nl * nu ? 3 : k < nl * nu + nl ? 2 : 1;
   if( openMode != want )
   {
      if( openMode ) CK( o->gdxUELRegisterDone(), "done", "RegisterDone refused" );
      CK( want == 1 ? o->gdxUELRegisterRawStart() : want == 2 ? o->gdxUELRegisterStrStart() : o->gdxUELRegisterMapStart(), "start", "start of registration refused" );
      openMode = want;
   }
   int e0 = o->gdxErrorCount();
   if( want == 3 )
   {
      auto &l = LB[(size_t) ( k / nu )];
      int u = UI[(size_t) ( k % nu )];
      bool e = m.regMap( l, u );
      int r = o->gdxUELRegisterMap( u, l.c_str() );
      c.note( fmt( "map <%s>=%d -> %d", l.c_str(), u, r ) );
      CK( ( r != 0 ) == e, e ? "map-refused" : "map-accepted", "registering <%s> with user index %d gives %d, expected %s", l.c_str(), u, r, e ? "success" : "refusal" );
      CK( e == ( o->gdxErrorCount() == e0 ), "map-error", "error count does not match the result" );
      if( !e ) CK( o->gdxGetLastError() != 0, "map-error", "no error after refusal" );
   }
   else if( want == 2 )
   {
      auto &l = LB[(size_t) ( k - nl * nu )];
      int nr = -9, e = m.regStr( l );
      int r = o->gdxUELRegisterStr( l.c_str(), nr );
      c.note( fmt( "str <%s> -> %d nr %d", l.c_str(), r, nr ) );
      CK( r && nr == e, "str-index", "registering <%s> gives user index %d (%d), expected %d", l.c_str(), nr, r, e );
   }
   else
   {
      auto &l = LB[(size_t) ( k - nl * nu - nl )];
      m.add( l );
      c.note( "raw <" + l + ">" );
      CK( o->gdxUELRegisterRaw( l.c_str() ), "raw", "raw registration refused" );
   }
   checkMap( c, o, m );
}
static uint64_t hm( const Model &m )
{
   uint64_t h = (uint64_t) m.high;
   for( size_t i = 0; i < m.t.size(); i++ ) h = mc::mix( mc::mix( h, mc::hashStr( m.t[i] ) ), (uint64_t) m.user[i] );
   return h;
}

static void writing( Ctx &c )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   int rc;
   CK( o->gdxOpenWrite( fn.c_str(), "p", rc ), "open", "open failed" );
   Model m;
   int md = 0, n = 3;
   for( int i = 0; i < n; i++ ) oneOp( c, o, m, false, md );
   if( md ) CK( o->gdxUELRegisterDone(), "done", "RegisterDone refused" );
   checkMap( c, o, m );
   c.state( hm( m ) );
   // a mapped write with every user index
   CK( o->gdxDataWriteMapStart( "s", "", 1, T_PAR, 0 ), "mapstart", "DataWriteMapStart refused" );
   vector<std::pair<int, double>> exp;
   for( int u: QUERY )
   {
      if( u < -1 || u > 6000 ) continue;
      double v[5] = { u + 0.5 };
      int k[20] = { u };
      auto it = m.entry.find( u );
      int r = o->gdxDataWriteMap( k, v );
      CK( ( r != 0 ) == ( it != m.entry.end() ), "map-write", "mapped write with user index %d gives %d", u, r );
      if( it != m.entry.end() ) exp.emplace_back( it->second, v[0] );
      else
         o->gdxGetLastError();
   }
   CK( o->gdxDataWriteDone(), "done", "DataWriteDone failed" );
   CK( o->gdxClose() == 0, "close", "close failed" );
   std::sort( exp.begin(), exp.end() );
   auto f = dumpFile( fn );
   CK( f.ok && f.problems.empty(), "reopen", "cannot read back" );
   CK( f.uels == m.t, "uels", "element table changed" );
   auto &rs = f.syms[0].recs;
   CK( rs.size() == exp.size(), "mapped-records", "%zu records instead of %zu", rs.size(), exp.size() );
   for( size_t i = 0; i < exp.size(); i++ ) CK( rs[i].k[0] == exp[i].first && rs[i].v[0] == exp[i].second, "mapped-records", "record %zu has key %d value %g, expected %d %g", i, rs[i].k[0], rs[i].v[0], exp[i].first, exp[i].second );
}

static void reading( Ctx &c )
{
   string fn = c.path( "g.gdx" );
   int rc;
   {
      Obj w;
      CK( w->gdxOpenWrite( fn.c_str(), "p", rc ), "open", "open failed" );
      w->gdxDataWriteStrStart( "s", "", 1, T_PAR, 0 );
      for( auto l: { "b", "x1", "a", "ccc" } )
      {
         KeyIn k( { l } );
         double v[5] = { (double) l[0] };
         CK( w->gdxDataWriteStr( k.get(), v ), "w", "write failed" );
      }
      CK( w->gdxDataWriteDone() && w->gdxClose() == 0, "w", "write failed" );
   }
   Obj o;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "open failed" );
   Model m;
   for( auto l: { "b", "x1", "a", "ccc" } ) m.add( l );
   int md = 0, n = 3;
   checkMap( c, o, m );
   for( int i = 0; i < n; i++ ) oneOp( c, o, m, true, md );
   if( md ) CK( o->gdxUELRegisterDone(), "done", "RegisterDone refused" );
   checkMap( c, o, m );
   c.state( hm( m ) );
   // strict mapped reading delivers the elements that have an index
   int nr = -9;
   CK( o->gdxDataReadMapStart( 1, nr ), "read", "mapped read refused" );
   std::map<int, double> exp, got;
   for( int i = 1; i <= 4; i++ )
      if( m.user[(size_t) i - 1] >= 0 ) exp[m.user[(size_t) i - 1]] = "bxac"[i - 1];
   int k[20], df, last = -1;
   double v[5];
   while( o->gdxDataReadMap( 0, k, v, df ) )
   {
      CK( k[0] > last, "read-order", "mapped key %d after %d", k[0], last );
      last = k[0];
      got[k[0]] = v[0];
   }
   CK( o->gdxDataReadDone(), "read", "DataReadDone refused" );
   CK( got == exp, "read-mapped", "mapped reading delivers %zu records, expected %zu", got.size(), exp.size() );
   checkMap( c, o, m );
   o->gdxClose();
}

// automatic numbering and explicit indices mixed at the growth limits of the map
static void growth( Ctx &c )
{
   static const vector<int> SZ { 1, 2, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 65536, 1048575, 1048576, 1048577 };
   int top = c.pick( SZ, "first explicit index" ), second = c.pick( SZ, "second explicit index" ), autos = c.choose( 3, "automatic" ), order = c.choose( 2, "order" );
   string fn = c.path( "f.gdx" );
   Obj o;
   int rc;
   CK( o->gdxOpenWrite( fn.c_str(), "p", rc ), "open", "open failed" );
   Model m;
   auto chk = [&] {
      int cnt, hi;
      CK( o->gdxUMUelInfo( cnt, hi ) && hi == m.high && cnt == (int) m.t.size(), "highest", "highest %d, expected %d", hi, m.high );
      for( auto &e: m.entry )
      {
         char b[256];
         CK( o->gdxGetUEL( e.first, b ) && m.t[(size_t) e.second - 1] == b, "element-of-map", "user index %d gives <%s>, expected <%s>", e.first, b, m.t[(size_t) e.second - 1].c_str() );
         for( int d: { -1, 1 } )
            if( e.first + d >= 0 && !m.entry.count( e.first + d ) ) CK( !o->gdxGetUEL( e.first + d, b ), "unmapped", "user index %d is answered with <%s>", e.first + d, b );
      }
   };
   auto doMap = [&]( const char *l, int u ) {
      CK( o->gdxUELRegisterMapStart(), "start", "start" );
      bool e = m.regMap( l, u );
      CK( ( o->gdxUELRegisterMap( u, l ) != 0 ) == e, "map", "explicit registration of %d", u );
      CK( o->gdxUELRegisterDone(), "done", "done" );
      chk();
   };
   auto doAuto = [&]( int n, int base ) {
      CK( o->gdxUELRegisterStrStart(), "start", "start" );
      for( int i = 0; i < n; i++ )
      {
         string l = fmt( "auto%d", base + i );
         int nr = -9, e = m.regStr( l );
         CK( o->gdxUELRegisterStr( l.c_str(), nr ) && nr == e, "auto", "automatic index %d, expected %d", nr, e );
      }
      CK( o->gdxUELRegisterDone(), "done", "done" );
      chk();
   };
   int na = autos == 0 ? 0 : autos == 1 ? 1 : 300;
   if( order ) doAuto( na, 0 );
   doMap( "first", top );
   doAuto( na, 1000 );
   doMap( "second", second );
   doAuto( 2, 2000 );
   c.note( fmt( "top %d second %d autos %d", top, second, na ) );
   c.state( hm( m ) );
   CK( o->gdxClose() == 0, "close", "close failed" );
}


// registrations, renames and every kind of read that looks at the map or extends it, in any order
static std::vector<std::pair<int, int>> *domSeen;
static void domCb( int raw, int mapped, void * ) { domSeen->emplace_back( raw, mapped ); }
static void checkReads( Ctx &c, Obj &o, const Model &m, int norig )
{
   // strict mapped read of s( b, x1, a, ccc )
   int nr = -9, k[20], df, last = -1;
   double v[5];
   CK( o->gdxDataReadMapStart( 1, nr ), "read", "mapped read refused" );
   std::map<int, double> exp, got;
   for( int i = 1; i <= norig; i++ )
      if( m.user[(size_t) i - 1] >= 0 ) exp[m.user[(size_t) i - 1]] = i;
   while( o->gdxDataReadMap( 0, k, v, df ) )
   {
      CK( k[0] > last, "read-order", "mapped key %d after %d", k[0], last );
      last = k[0];
      got[k[0]] = v[0];
   }
   CK( o->gdxDataReadDone(), "read", "DataReadDone refused" );
   CK( got == exp, "read-mapped", "mapped reading delivers %zu records, expected %zu", got.size(), exp.size() );
   // the universe is what the file holds
   int n = 0, u = -9;
   char t[256];
   CK( o->gdxSymbolInfoX( 0, n, u, t ) && n == norig, "universe-info", "the universe has %d elements, expected %d", n, norig );
   CK( o->gdxDataReadRawStart( 0, nr ) && nr == norig, "universe-start", "the universe announces %d elements, expected %d", nr, norig );
   n = 0;
   while( o->gdxDataReadRaw( k, v, df ) )
   {
      n++;
      CK( k[0] == n, "universe-key", "element %d of the universe is %d", n, k[0] );
   }
   CK( o->gdxDataReadDone(), "read", "DataReadDone refused" );
   CK( n == norig, "universe-count", "the universe delivers %d elements, expected %d", n, norig );
}
static void mixed( Ctx &c )
{
   string fn = c.path( "g.gdx" );
   int rc;
   static const vector<string> E { "b", "x1", "a", "ccc" };
   {
      Obj w;
      CK( w->gdxOpenWrite( fn.c_str(), "p", rc ), "open", "open failed" );
      w->gdxDataWriteStrStart( "s", "", 1, T_PAR, 0 );
      for( size_t i = 0; i < E.size(); i++ )
      {
         KeyIn k( { E[i] } );
         double v[5] = { i + 1.0 };
         CK( w->gdxDataWriteStr( k.get(), v ), "w", "write failed" );
      }
      CK( w->gdxDataWriteDone() && w->gdxClose() == 0, "w", "write failed" );
   }
   Obj o;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "open failed" );
   Model m;
   for( auto &l: E ) m.add( l );
   int norig = (int) E.size(), depth = c.thorough ? 5 : 4, k[20], df, nr = -9;
   double v[5];
   for( int d = 0; d < depth; d++ )
   {
      static const vector<std::pair<const char *, int>> MP { { "ccc", 1 }, { "b", 3 }, { "new", 2 }, { "x1", 1 } };
      static const vector<const char *> ST { "x1", "b", "new2" };
      static const vector<std::pair<const char *, const char *>> RN { { "x1", "yy" }, { "a", "A2" }, { "new", "New3 " }, { "ccc", "b" } };
      int op = c.choose( 14, "op" );
      if( op < 4 )
      {
         bool e = m.regMap( MP[(size_t) op].first, MP[(size_t) op].second );
         CK( o->gdxUELRegisterMapStart(), "start", "start refused" );
         int r = o->gdxUELRegisterMap( MP[(size_t) op].second, MP[(size_t) op].first );
         c.note( fmt( "map <%s>=%d -> %d", MP[(size_t) op].first, MP[(size_t) op].second, r ) );
         CK( ( r != 0 ) == e, e ? "map-refused" : "map-accepted", "result %d", r );
         CK( o->gdxUELRegisterDone(), "done", "done refused" );
      }
      else if( op < 7 )
      {
         int u = -9, e = m.regStr( ST[(size_t) op - 4] );
         CK( o->gdxUELRegisterStrStart(), "start", "start refused" );
         int r = o->gdxUELRegisterStr( ST[(size_t) op - 4], u );
         c.note( fmt( "str <%s> -> %d nr %d", ST[(size_t) op - 4], r, u ) );
         CK( r && u == e, "str-index", "registering <%s> gives user index %d, expected %d", ST[(size_t) op - 4], u, e );
         CK( o->gdxUELRegisterDone(), "done", "done refused" );
      }
      else if( op < 11 )
      {
         auto &rn = RN[(size_t) op - 7];
         int f = m.find( rn.first ), e = f < 0 ? 2 : m.find( rn.second ) >= 0 ? 3 : 0;
         int r = o->gdxRenameUEL( rn.first, rn.second );
         c.note( fmt( "rename <%s> to <%s> -> %d", rn.first, rn.second, r ) );
         CK( r == e, "rename-result", "rename gives %d, expected %d", r, e );
         if( !r )
         {
            m.t[(size_t) f - 1] = rn.second;
            while( m.t[(size_t) f - 1].back() == ' ' ) m.t[(size_t) f - 1].pop_back();
         }
      }
      else if( op == 11 )
      {
         // an expanding read registers the elements in file order
         for( int i = 1; i <= norig; i++ )
            if( m.user[(size_t) i - 1] < 0 ) m.setMap( i, m.high + 1 );
         int a[20], n = 0, last = -1;
         std::fill( a, a + 20, -1 );
         CK( o->gdxDataReadFilteredStart( 1, a, nr ), "expand", "expanding read refused" );
         while( o->gdxDataReadMap( 0, k, v, df ) )
         {
            n++;
            CK( k[0] > last, "expand-order", "key %d after %d", k[0], last );
            last = k[0];
            int e = (int) v[0];
            CK( m.user[(size_t) e - 1] == k[0], "expand-key", "record of element %d delivered as %d, expected %d", e, k[0], m.user[(size_t) e - 1] );
         }
         CK( n == norig, "expand-count", "%d records", n );
         CK( o->gdxDataReadDone(), "read", "DataReadDone refused" );
         c.note( "expanding read" );
      }
      else if( op == 12 )
      {
         for( int i = 1; i <= norig; i++ )
            if( m.user[(size_t) i - 1] < 0 ) m.setMap( i, m.high + 1 );
         std::vector<std::pair<int, int>> seen, exp;
         domSeen = &seen;
         int n = -9;
         CK( o->gdxGetDomainElements( 1, 1, -1, domCb, n, nullptr ) && n == norig, "domain", "GetDomainElements gives %d elements", n );
         for( int i = 1; i <= norig; i++ ) exp.emplace_back( i, m.user[(size_t) i - 1] );
         std::sort( exp.begin(), exp.end(), []( auto &x, auto &y ) { return x.second < y.second; } );
         CK( seen == exp, "domain", "GetDomainElements calls back with other elements or in another order" );
         c.note( "domain elements" );
      }
      else
      {
         int n = -9;
         CK( o->gdxGetDomainElements( 1, 1, -1, nullptr, n, nullptr ) && n == norig, "domain", "GetDomainElements counts %d elements", n );
         c.note( "domain count" );
      }
      checkMap( c, o, m );
      checkReads( c, o, m, norig );
      checkMap( c, o, m );
   }
   c.state( hm( m ) );
   o->gdxClose();
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P05";
   d.sc = { { "writing", writing, 3, "all sequences of 3 operations: map(label,index) over 4 (5) labels x 8 indices (incl. 0, -1, growth limits), automatic, raw, rename; full query of both directions after every step; then a mapped write of every index" },
            { "reading", reading, 3, "same in reading mode on a file with 4 elements, then a strict mapped read" },
            { "mixed", mixed, 3, "all sequences of 4 (thorough 5) of 14 operations on an open file: 4 explicit and 3 automatic registrations, 4 renames, expanding read, domain elements with and without callback; after each: both directions of the map, a strict mapped read, the universe" },
            { "growth", growth, 3, "14x14 explicit indices around map growth limits, 0/1/300 automatic registrations between, 2 orders" } };
   d.assumptions = { "user indices up to 1048577 (the map is an array up to the highest index)" };
   return d.main( argc, argv );
}
