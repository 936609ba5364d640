// P07: domain declarations are enforced on write and preserved in the file.
#include "gdxh.hpp"
using namespace gh;

static const char *LB[] = { "a", "b", "c", "d" };

static string lower( string s )
{
   for( auto &ch: s ) ch = (char) tolower( (unsigned char) ch );
   return s;
}

struct Sym
{
   string name;
   int dim = 1, type = T_SET, target = -1;// target: alias target (0 universe)
   bool bitmap = false;
   std::set<int> elems;// of a one-dimensional set
};
struct Model
{
   vector<Sym> sy;
   int find( const string &n ) const
   {
      for( size_t i = 0; i < sy.size(); i++ )
         if( lower( sy[i].name ) == lower( n ) ) return (int) i + 1;
      return 0;
   }
};

static int startW( Obj &o, int mode, const string &n, int dim, int typ )
{
   return mode == 0 ? o->gdxDataWriteStrStart( n.c_str(), "", dim, typ, 0 ) : mode == 1 ? o->gdxDataWriteMapStart( n.c_str(), "", dim, typ, 0 )
                                                                                     : o->gdxDataWriteRawStart( n.c_str(), "", dim, typ, 0 );
}
static string labelOf( int e ) { return e <= 4 ? string( LB[e - 1] ) : fmt( "e%d", e ); }
static int writeRec( Obj &o, int mode, const Key &k, double v0 )
{
   double v[5] = { v0 };
   vector<string> ks;
   int ik[20] = {};
   for( size_t i = 0; i < k.size(); i++ )
   {
      ks.push_back( labelOf( k[i] ) );
      ik[i] = k[i];
   }
   KeyIn ki( ks );
   return mode == 0 ? o->gdxDataWriteStr( ki.get(), v ) : mode == 1 ? o->gdxDataWriteMap( ik, v )
                                                                   : o->gdxDataWriteRaw( ik, v );
}

struct DomRes
{
   bool ok = true, fatal = false;
   vector<int> nr;                      // domain symbol numbers kept
   vector<const std::set<int> *> allow;// enforced element sets (null: everything)
};
// what SymbolSetDomain must do
static DomRes predict( const Model &m, int cur, const vector<string> &dom, bool bogus )
{
   DomRes r;
   for( auto &d: dom )
   {
      int nr = 0;
      const std::set<int> *al = nullptr;
      if( d != "*" )
      {
         nr = m.find( d );
         if( !nr ) r.ok = false;
         else
         {
            int t = nr;
            while( t > 0 && m.sy[(size_t) t - 1].type == T_ALIAS ) t = m.sy[(size_t) t - 1].target;
            if( t > 0 && m.sy[(size_t) t - 1].type != T_SET )
            {
               r.ok = false;
               nr = 0;
            }
            else if( t > 0 )
            {
               auto &s = m.sy[(size_t) t - 1];
               if( !bogus && s.dim == 1 && !s.bitmap )
               {
                  r.ok = false;
                  r.fatal = true;
                  return r;
               }
               if( s.bitmap && t != cur ) al = &s.elems;
            }
         }
      }
      r.nr.push_back( nr );
      r.allow.push_back( al );
   }
   return r;
}

struct Stored
{
   vector<Key> ok;
   vector<int> nr;
   vector<string> ids;
   int kind = 1;
};

// writes symbol number cur=m.sy.size()+1; returns what must be in the file
static bool writeSym( Ctx &c, Obj &o, Model &m, const string &name, int mode, int typ, const vector<string> *dom, const vector<Key> &recs, int dim, bool bogus, bool bitmaps, Stored &out )
{
   int e0 = o->gdxErrorCount();
   CK( startW( o, mode, name, dim, typ ), "start", "start of %s refused", name.c_str() );
   Sym s;
   s.name = name;
   s.dim = dim;
   s.type = typ;
   s.bitmap = bitmaps && dim == 1 && typ == T_SET;
   m.sy.push_back( s );
   int cur = (int) m.sy.size();
   DomRes pr;
   int expErr = 0;
   if( dom )
   {
      pr = predict( m, cur, *dom, bogus );
      vector<const char *> p;
      string ds;
      for( auto &d: *dom )
      {
         p.push_back( d.c_str() );
         ds += " " + d;
      }
      int r = o->gdxSymbolSetDomain( p.data() );
      c.note( fmt( "domain of %s:%s -> %d", name.c_str(), ds.c_str(), r ) );
      CK( ( r != 0 ) == pr.ok, pr.ok ? "domain-refused" : "domain-accepted", "domain declaration%s of %s gives %d, expected %s", ds.c_str(), name.c_str(), r, pr.ok ? "success" : "refusal" );
      if( !pr.ok )
      {
         CK( o->gdxErrorCount() > e0, "domain-noerror", "refused domain declaration reports no error" );
         CK( o->gdxGetLastError() != 0, "domain-noerror", "refused domain declaration leaves no error" );
      }
      else
         CK( o->gdxErrorCount() == e0, "domain-error", "accepted domain declaration reports an error" );
      if( pr.fatal ) return false;
      out.nr = pr.nr;
      out.kind = 3;
      for( int n: pr.nr ) out.ids.push_back( n ? m.sy[(size_t) n - 1].name : "*" );
      e0 = o->gdxErrorCount();
   }
   else
   {
      pr.nr.assign( (size_t) dim, 0 );
      pr.allow.assign( (size_t) dim, nullptr );
      out.nr = pr.nr;
      out.ids.assign( (size_t) dim, "*" );
   }
   std::set<std::pair<int, int>> firstViol;
   vector<Key> rejected;
   double v = 0;
   for( auto &k: recs )
   {
      int bad = -1;
      for( int d = 0; d < dim && bad < 0; d++ )
         if( pr.allow[(size_t) d] && !pr.allow[(size_t) d]->count( k[(size_t) d] ) ) bad = d;
      int r = writeRec( o, mode, k, typ == T_SET ? 0 : ( v += 1 ) );
      c.note( fmt( "%s%s -> %d", name.c_str(), showKey( k ).c_str(), r ) );
      if( mode == 2 )
      {
         CK( ( r != 0 ) == ( bad < 0 ), bad < 0 ? "record-refused" : "record-accepted", "raw record %s of %s gives %d", showKey( k ).c_str(), name.c_str(), r );
         if( bad >= 0 ) CK( o->gdxGetLastError() != 0, "record-noerror", "rejected record leaves no error" );
      }
      else
         CK( r, "record-refused", "record %s refused at once", showKey( k ).c_str() );
      if( bad >= 0 )
      {
         rejected.push_back( k );
         firstViol.insert( { bad, k[(size_t) bad] } );
         expErr++;
      }
      else
      {
         out.ok.push_back( k );
         if( m.sy.back().bitmap ) m.sy.back().elems.insert( k[0] );
      }
   }
   CK( o->gdxDataWriteDone(), "done", "DataWriteDone of %s failed", name.c_str() );
   int le = o->gdxGetLastError();
   if( mode != 2 ) CK( ( le != 0 ) == ( expErr > 0 ), "done-error", "error %d after %d domain violations", le, expErr );
   CK( o->gdxErrorCount() - e0 == expErr, "error-count", "%d errors counted for %d rejected records", o->gdxErrorCount() - e0, expErr );
   int ne = o->gdxDataErrorCount();
   CK( ( ne > 0 ) == !rejected.empty(), "error-list", "%d error records for %zu rejected records", ne, rejected.size() );
   std::set<std::pair<int, int>> covered;
   for( int i = 1; i <= ne; i++ )
   {
      int k[20] = {}, kx[20] = {};
      double vv[5];
      CK( o->gdxDataErrorRecord( i, k, vv ) && o->gdxDataErrorRecordX( i, kx, vv ), "error-record", "error record %d not available", i );
      Key kk( k, k + dim );
      CK( std::find( rejected.begin(), rejected.end(), kk ) != rejected.end(), "error-record", "error record %s was not rejected", showKey( kk ).c_str() );
      for( int d = 0; d < dim; d++ )
      {
         bool viol = pr.allow[(size_t) d] && !pr.allow[(size_t) d]->count( kk[(size_t) d] );
         CK( kx[d] == ( viol ? -k[d] : k[d] ), "error-mark", "error record %s marks index %d as %d", showKey( kk ).c_str(), d + 1, kx[d] );
         if( viol ) covered.insert( { d, k[d] } );
      }
   }
   if( ne < 11 )
      for( auto &fv: firstViol ) CK( covered.count( fv ), "error-unlisted", "violation by element %d in index %d is not listed", fv.second, fv.first + 1 );
   std::sort( out.ok.begin(), out.ok.end() );
   // domain information while writing
   return true;
}
static void checkStored( Ctx &c, TGXFileObj &o, int nr, const Stored &s, int dim, const char *when )
{
   KeyBuf kb;
   int k = o.gdxSymbolGetDomainX( nr, kb.get() );
   CK( k == s.kind, "kind", "%s: domain kind of symbol %d is %d, expected %d", when, nr, k, s.kind );
   int d[20] = { -9 };
   CK( o.gdxSymbolGetDomain( nr, d ), "getdomain", "SymbolGetDomain failed" );
   for( int i = 0; i < dim; i++ )
   {
      CK( s.ids[(size_t) i] == kb.ptr[i], "domain-name", "%s: domain %d of symbol %d is %s, expected %s", when, i + 1, nr, kb.ptr[i], s.ids[(size_t) i].c_str() );
      CK( s.nr[(size_t) i] == d[i], "domain-number", "%s: domain %d of symbol %d is symbol %d, expected %d", when, i + 1, nr, d[i], s.nr[(size_t) i] );
   }
}
static void checkRecs( Ctx &c, const FileC &f, int nr, const Stored &s )
{
   CK( f.ok && (size_t) nr <= f.syms.size(), "reopen", "cannot read back" );
   auto &y = f.syms[(size_t) nr - 1];
   CK( y.problems.empty(), "read-problem", "%s", y.problems[0].c_str() );
   vector<Key> g;
   for( auto &r: y.recs ) g.push_back( r.k );
   if( g != s.ok )
   {
      string a, b;
      for( auto &k: s.ok ) a += showKey( k );
      for( auto &k: g ) b += showKey( k );
      c.fail( "records", fmt( "symbol %s holds %s, expected %s", y.name.c_str(), b.c_str(), a.c_str() ) );
   }
   CK( y.dim == 0 || y.recCnt == (int) g.size(), "announced", "symbol %s announces %d records, has %zu", y.name.c_str(), y.recCnt, g.size() );
}
static void openW( Ctx &c, Obj &o, const string &fn, int n, int compr )
{
   int rc;
   CK( o->gdxOpenWriteEx( fn.c_str(), "p", compr, rc ), "open", "open failed" );
   CK( o->gdxUELRegisterMapStart(), "reg", "reg" );
   for( int i = 1; i <= n; i++ ) CK( o->gdxUELRegisterMap( i, labelOf( i ).c_str() ), "reg", "reg" );
   CK( o->gdxUELRegisterDone(), "reg", "reg" );
}
static Sym aliasOf( const string &n, int dim, int t )
{
   Sym s;
   s.name = n;
   s.dim = dim;
   s.type = T_ALIAS;
   s.target = t;
   return s;
}
static vector<Key> subset1( int mask )
{
   vector<Key> r;
   for( int i = 0; i < 4; i++ )
      if( mask >> i & 1 ) r.push_back( { i + 1 } );
   return r;
}

// base symbols: I={a,b}, J={b,c}, aliases AI->I, AAI->AI, U->*, empty set E, two-dimensional S2, parameter P
static void base( Ctx &c, Obj &o, Model &m, int mode, bool bogus, bool bm, vector<Stored> &st )
{
   auto put = [&]( const char *n, int dim, int typ, const vector<Key> &recs ) {
      Stored s;
      writeSym( c, o, m, n, mode, typ, nullptr, recs, dim, bogus, bm, s );
      st.push_back( s );
   };
   auto al = [&]( const char *n, const char *t, int dim ) {
      CK( o->gdxAddAlias( t, n ), "alias", "alias %s refused", n );
      m.sy.push_back( aliasOf( n, dim, string( t ) == "*" ? 0 : m.find( t ) ) );
      Stored s;
      s.nr.assign( (size_t) dim, 0 );
      s.ids.assign( (size_t) dim, "*" );
      s.kind = -1;
      st.push_back( s );
   };
   put( "Iset", 1, T_SET, { { 1 }, { 2 } } );
   put( "J", 1, T_SET, { { 2 }, { 3 } } );
   al( "AI", "Iset", 1 );
   al( "AAI", "AI", 1 );
   al( "U", "*", 1 );
   put( "E", 1, T_SET, {} );
   put( "P", 1, T_PAR, { { 4 } } );
}
static const vector<string> DOM { "*", "Iset", "ISET", "J", "AI", "AAI", "U", "E", "P", "nosuch", "X" };

static void single( Ctx &c )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   int mode = c.choose( 3, "mode" );
   bool bm = c.choose( 2, "store domain sets" ) == 0, bogus = c.choose( 2, "allow bogus" ) == 0;
   o->gdxStoreDomainSetsSet( bm );
   o->gdxAllowBogusDomainsSet( bogus );
   openW( c, o, fn, 4, 0 );
   Model m;
   vector<Stored> st;
   base( c, o, m, mode, bogus, bm, st );
   int typ = c.choose( 2, "type" ) ? T_SET : T_PAR;
   vector<string> dom { c.pick( DOM, "domain" ) };
   int mask = c.choose( 16, "records" );
   Stored s;
   if( !writeSym( c, o, m, "X", mode, typ, &dom, subset1( mask ), 1, bogus, bm, s ) ) return;
   st.push_back( s );
   // a second symbol using X (if it is a set) as its domain
   vector<string> dom2 { "X" };
   Stored s2;
   if( !writeSym( c, o, m, "Y", mode, T_PAR, &dom2, subset1( 15 ), 1, bogus, bm, s2 ) ) return;
   st.push_back( s2 );
   for( size_t i = 0; i < st.size(); i++ )
      if( st[i].kind > 0 ) checkStored( c, *o, (int) i + 1, st[i], 1, "writing" );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   Obj r;
   int rc;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "reopen failed" );
   for( size_t i = 0; i < st.size(); i++ )
      if( st[i].kind > 0 )
      {
         checkStored( c, *r, (int) i + 1, st[i], 1, "reading" );
         checkRecs( c, f, (int) i + 1, st[i] );
      }
   c.state( mc::hashStr( dom[0], (uint64_t) ( ( mode * 4 + bm * 2 + bogus ) * 32 + typ * 16 + mask ) ) );
}

static void dim2( Ctx &c )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   int mode = c.choose( 3, "mode" );
   openW( c, o, fn, 4, c.thorough ? c.choose( 2, "compr" ) : 0 );
   Model m;
   vector<Stored> st;
   base( c, o, m, mode, true, true, st );
   vector<string> dom { c.pick( DOM, "domain1" ), c.pick( DOM, "domain2" ) };
   // records: all of the 16, or any two of them
   vector<Key> recs;
   int sel = c.choose( 1 + 16 * 17 / 2, "records" );
   int n = 0;
   for( int i = 0; i < 16; i++ )
      for( int j = i; j < 16; j++ )
         if( ++n == sel )
         {
            recs.push_back( { 1 + i / 4, 1 + i % 4 } );
            if( j != i ) recs.push_back( { 1 + j / 4, 1 + j % 4 } );
         }
   if( !sel )
      for( int i = 0; i < 16; i++ ) recs.push_back( { 1 + i / 4, 1 + i % 4 } );
   if( mode != 2 ) std::reverse( recs.begin(), recs.end() );
   Stored s;
   if( !writeSym( c, o, m, "X", mode, T_PAR, &dom, recs, 2, true, true, s ) ) return;
   checkStored( c, *o, (int) m.sy.size(), s, 2, "writing" );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   checkRecs( c, f, (int) m.sy.size(), s );
   Obj r;
   int rc;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "reopen failed" );
   checkStored( c, *r, (int) m.sy.size(), s, 2, "reading" );
   c.state( mc::hashStr( dom[0] + dom[1], (uint64_t) ( mode * 1000 + sel ) ) );
}

// subset chains I, J(I), K(J or alias), X(K,J)
static void chain( Ctx &c )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   int mode = c.choose( 3, "mode" );
   openW( c, o, fn, 4, 0 );
   Model m;
   vector<Stored> st( 4 );
   int mi = c.choose( 16, "I" ), mj = c.choose( 16, "J" ), mk = c.choose( c.thorough ? 16 : 4, "K" );
   if( !c.thorough ) mk = mk == 0 ? 0 : mk == 1 ? 15 : mk == 2 ? 6 : 9;
   writeSym( c, o, m, "I", mode, T_SET, nullptr, subset1( mi ), 1, true, true, st[0] );
   vector<string> d1 { "I" };
   writeSym( c, o, m, "J", mode, T_SET, &d1, subset1( mj ), 1, true, true, st[1] );
   CK( o->gdxAddAlias( "J", "AJ" ), "alias", "alias refused" );
   m.sy.push_back( aliasOf( "AJ", 1, 2 ) );
   vector<string> d2 { "AJ" }, d3 { "K", "I" };
   writeSym( c, o, m, "K", mode, T_SET, &d2, subset1( mk ), 1, true, true, st[2] );
   vector<Key> all;
   for( int i = 1; i <= 4; i++ )
      for( int j = 1; j <= 4; j++ ) all.push_back( { i, j } );
   writeSym( c, o, m, "X", mode, T_PAR, &d3, all, 2, true, true, st[3] );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   int nr[] = { 1, 2, 4, 5 };
   for( int i = 0; i < 4; i++ ) checkRecs( c, f, nr[i], st[(size_t) i] );
   Obj r;
   int rc;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "reopen failed" );
   for( int i = 0; i < 4; i++ ) checkStored( c, *r, nr[i], st[(size_t) i], i == 3 ? 2 : 1, "reading" );
   c.state( (uint64_t) ( ( ( mode * 16 + mi ) * 16 + mj ) * 16 + mk ) );
}

// element numbers around the growth limits of the element bitmap
static void big( Ctx &c )
{
   static const vector<int> SZ { 1, 7, 8, 9, 15, 16, 2046, 2047, 2048, 2049, 2050, 4095, 4096, 4097, 8191, 8192, 16384 };
   string fn = c.path( "f.gdx" );
   Obj o;
   int mode = c.choose( 3, "mode" ), a = c.pick( SZ, "member" ), b = c.pick( SZ, "second member" ), up = c.choose( 2, "ascending" );
   openW( c, o, fn, 20000, 0 );
   Model m;
   Stored s1, s2;
   vector<Key> mem { { a } };
   if( b != a ) mem.push_back( { b } );
   std::sort( mem.begin(), mem.end() );
   if( mode != 2 && !up ) std::reverse( mem.begin(), mem.end() );
   writeSym( c, o, m, "I", mode, T_SET, nullptr, mem, 1, true, true, s1 );
   std::set<Key> ks;
   for( int e: { a - 1, a, a + 1, b - 1, b, b + 1, a + 8, b + 8, a * 2, 20000 } )
      if( e >= 1 && e <= 20000 ) ks.insert( { e } );
   vector<string> d { "I" };
   writeSym( c, o, m, "X", mode, T_PAR, &d, vector<Key>( ks.begin(), ks.end() ), 1, true, true, s2 );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   checkRecs( c, f, 1, s1 );
   checkRecs( c, f, 2, s2 );
   c.state( mc::mix( (uint64_t) mode, (uint64_t) ( a * 100000 + b ) ) );
}

// relaxed domains
static void relaxed( Ctx &c )
{
   static const string L63( 63, 'r' ), L64( 64, 'r' );
   static const vector<string> DN { "*", "i", "I", "J9", "", "1bad", L63, L64, "x y" };
   string fn = c.path( "f.gdx" );
   Obj o;
   openW( c, o, fn, 4, c.choose( 2, "compr" ) );
   Model m;
   vector<Stored> st( 3 );
   writeSym( c, o, m, "i", 0, T_SET, nullptr, { { 1 }, { 2 } }, 1, true, true, st[0] );
   bool reg = c.flip( "regular first" );
   vector<string> rd { "i" };
   int kind = c.choose( 3, "records" );
   writeSym( c, o, m, "p1", 0, kind == 2 ? T_SET : T_PAR, reg ? &rd : nullptr, kind == 1 ? vector<Key> {} : vector<Key> { { 1 } }, 1, true, true, st[1] );
   writeSym( c, o, m, "p2", 0, kind == 2 ? T_VAR : T_PAR, nullptr, kind == 0 ? vector<Key> { { 3, 4 } } : vector<Key> {}, 2, true, true, st[2] );
   int n = c.thorough ? 3 : 2;
   std::map<string, string> firstSpelling;
   for( int k = 0; k < n; k++ )
   {
      int which = c.choose( 4, "symbol" );// 0: stop, 1..3 symbol
      if( !which ) break;
      int dim = which == 3 ? 2 : 1;
      vector<string> d { c.pick( DN, "domain" ) };
      if( dim == 2 ) d.push_back( c.pick( DN, "domain2" ) );
      vector<const char *> p;
      for( auto &x: d ) p.push_back( x.c_str() );
      int r = o->gdxSymbolSetDomainX( which, p.data() );
      c.note( fmt( "relaxed domain of symbol %d: %s %s -> %d", which, d[0].c_str(), dim == 2 ? d[1].c_str() : "", r ) );
      CK( r, "relaxed", "relaxed domain refused" );
      auto &s = st[(size_t) which - 1];
      s.kind = 2;
      for( int i = 0; i < dim; i++ )
      {
         auto &x = d[(size_t) i];
         bool good = !x.empty() && x.size() <= 63 && isalpha( (unsigned char) x[0] ) && x.find( ' ' ) == string::npos;
         if( !good ) s.ids[(size_t) i] = "*";
         else
            s.ids[(size_t) i] = firstSpelling.emplace( lower( x ), x ).first->second;
      }
      for( int i = 1; i <= 3; i++ ) checkStored( c, *o, i, st[(size_t) i - 1], i == 3 ? 2 : 1, "writing" );
   }
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   Obj r;
   int rc;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "reopen failed" );
   uint64_t h = 1;
   for( int i = 1; i <= 3; i++ )
   {
      checkRecs( c, f, i, st[(size_t) i - 1] );
      checkStored( c, *r, i, st[(size_t) i - 1], i == 3 ? 2 : 1, "reading" );
      for( auto &x: st[(size_t) i - 1].ids ) h = mc::hashStr( x, h );
   }
   c.state( h );
}

// symbols of every dimension: two positions with a domain, one record outside in one position
static void wide( Ctx &c )
{
   int dim = c.choose( 20, "dimension" ) + 1, mode = c.choose( 3, "mode" ), p1 = c.choose( dim, "position" ), kind = c.choose( 5, "declaration" );
   static const vector<string> AL { "Iset", "AAI", "U", "E" };
   string d1 = c.pick( AL, "domain" );
   bool relax = kind == 4;
   string fn = c.path( "f.gdx" );
   Obj o;
   openW( c, o, fn, 4, 0 );
   Model m;
   vector<Stored> st;
   base( c, o, m, mode, true, true, st );
   vector<string> dom( (size_t) dim, "*" );
   // the other positions: all free, the next one J, all of them Iset, all but the last Iset
   if( kind == 1 ) dom[(size_t) ( ( p1 + 1 ) % dim )] = "J";
   if( kind >= 2 ) dom.assign( (size_t) dim, kind == 4 ? "rel" : "Iset" );
   if( kind == 3 ) dom.back() = "*";
   dom[(size_t) p1] = d1;
   // one record per position: 4 (in no set) there, elsewhere 2 (in every set), and one of 2 only
   vector<Key> recs;
   for( int d = -1; d < dim; d++ )
   {
      Key k( (size_t) dim, 2 );
      if( d >= 0 ) k[(size_t) d] = 4;
      recs.push_back( k );
   }
   std::sort( recs.begin(), recs.end() );
   Stored s;
   writeSym( c, o, m, "X", mode, T_PAR, relax ? nullptr : &dom, recs, dim, true, true, s );
   int nr = (int) m.sy.size();
   if( relax )
   {
      vector<const char *> p;
      for( auto &x: dom ) p.push_back( x.c_str() );
      CK( o->gdxSymbolSetDomainX( nr, p.data() ), "relaxed", "relaxed domain refused" );
      s.kind = 2;
      s.ids = dom;
   }
   checkStored( c, *o, nr, s, dim, "writing" );
   // a symbol after it
   Stored s2;
   vector<string> dy { "J" };
   writeSym( c, o, m, "Y", mode, T_PAR, &dy, subset1( 15 ), 1, true, true, s2 );
   CK( o->gdxClose() == 0, "close", "close failed" );
   auto f = dumpFile( fn );
   Obj r;
   int rc;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "reopen failed" );
   checkStored( c, *r, nr, s, dim, "reading" );
   checkStored( c, *r, nr + 1, s2, 1, "reading" );
   checkRecs( c, f, nr, s );
   checkRecs( c, f, nr + 1, s2 );
   c.state( mc::hashStr( d1, (uint64_t) ( ( dim * 20 + p1 ) * 20 + kind * 3 + mode ) ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P07";
   d.sc = { { "single", single, 3, "one-dimensional symbol with each of 11 domains (universe, set, other case, alias, alias of alias, alias of universe, empty set, parameter, unknown, itself) x all 16 record sets over 4 elements x 3 modes x bitmap storing on/off x bogus domains allowed/forbidden, then used as domain itself" },
            { "dim2", dim2, 3, "all 121 pairs of domains x (all 16 records, every one and every pair of records) x 3 modes" },
            { "chain", chain, 3, "subset chain I, J(I), K(alias of J), X(K,I): all 16x16x4 (16x16x16) member choices x 3 modes" },
            { "big", big, 3, "17x17 member numbers around bitmap growth limits, neighbours probed, 3 modes" },
            { "relaxed", relaxed, 3, "all sequences of up to 2 (3) relaxed declarations over 3 symbols and 9 names, with and without regular domain, with and without records, compression on/off" },
            { "wide", wide, 3, "dimension 1..20 x every position x 4 domains there x 5 declarations of the other positions (free, J next, the same everywhere, all but the last, relaxed) x 3 modes, a record outside in each position" } };
   d.assumptions = { "domain sets are one-dimensional" };
   return d.main( argc, argv );
}
