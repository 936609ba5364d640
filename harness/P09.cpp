// P09: all read interfaces describe the same records; interrupted reads do not disturb later ones.
#include "gdxh.hpp"
using namespace gh;

struct MSym
{
   string name;
   int dim, type, user;
   vector<Rec> recs;// ascending raw keys; set texts in txt, v[0] = 1 if there is a text
   int aliasOf = 0;// -1: the universe
   bool unwritten = false;// the record in recs is the default of a scalar without record
};
struct MFile
{
   vector<string> uels;
   vector<MSym> sy;// sy[0] is the universe
};

static vector<Vals> VARV { { 1, 2, 3, 4, 5 }, { 0, 0, -1, 1, 1 }, { 7.5, 0, 0, 9, 0.25 }, { -3, 1, 0, 0, 1 }, { 2, 2, 2, 2, 2 }, { 0, 1, 0, 1, 0 }, { 1e10, 0, 1, 1, 1 }, { 6, 5, 4, 3, 2 } };

static MFile base( const vector<string> &labels )
{
   MFile f;
   f.uels = labels;
   MSym u { "*", 1, T_SET, 0, {}, 0 };
   for( size_t i = 0; i < labels.size(); i++ ) u.recs.push_back( Rec { { (int) i + 1 }, {}, "" } );
   f.sy.push_back( u );
   return f;
}
static void addRec( MSym &y, Key k, int n )
{
   Rec r;
   r.k = std::move( k );
   if( y.type == T_SET )
   {
      if( n % 3 == 1 ) r.txt = fmt( "text %d", n % 2 );
      if( n % 3 == 2 ) r.txt = fmt( "t%d", n );
      r.v[0] = r.txt.empty() ? 0 : 1;
   }
   else if( y.type == T_PAR )
      r.v[0] = 1.5 * n + 1;
   else
      r.v = VARV[(size_t) n % VARV.size()];
   y.recs.push_back( r );
}

static void writeFile( Ctx &c, const MFile &f, const string &fn, bool compress )
{
   Obj o;
   int rc;
   CK( compress ? o->gdxOpenWriteEx( fn.c_str(), "p09", 1, rc ) : o->gdxOpenWrite( fn.c_str(), "p09", rc ), "setup", "open" );
   o->gdxUELRegisterRawStart();
   for( auto &u: f.uels ) CK( o->gdxUELRegisterRaw( u.c_str() ), "setup", "register" );
   o->gdxUELRegisterDone();
   for( size_t i = 1; i < f.sy.size(); i++ )
   {
      auto &y = f.sy[i];
      if( y.aliasOf )
      {
         CK( o->gdxAddAlias( y.name.c_str(), y.aliasOf < 0 ? "*" : f.sy[(size_t) y.aliasOf].name.c_str() ), "setup", "alias" );
         continue;
      }
      CK( o->gdxDataWriteRawStart( y.name.c_str(), "", y.dim, y.type, y.user ), "setup", "write start %s", y.name.c_str() );
      for( auto &r: y.recs )
      {
         if( y.unwritten ) break;
         double v[5];
         for( int d = 0; d < 5; d++ ) v[d] = r.v[(size_t) d];
         if( y.type == T_SET )
         {
            int t = 0;
            if( !r.txt.empty() ) CK( o->gdxAddSetText( r.txt.c_str(), t ), "setup", "text" );
            v[0] = t;
         }
         int k[20] = {};
         std::copy( r.k.begin(), r.k.end(), k );
         CK( o->gdxDataWriteRaw( k, v ), "setup", "write" );
      }
      CK( o->gdxDataWriteDone(), "setup", "done" );
   }
   CK( o->gdxClose() == 0, "setup", "close" );
}

// what the reading object knows about user indices
struct UMap
{
   vector<int> user;
   int high = 0;
};

static vector<std::pair<Key, Vals>> got;
static vector<int> gotDim;
static int stopAt = -1, curDim = 0, curNv = 1;
static void *gotPtr = nullptr;
static vector<std::pair<int, int>> gotDom;
static void take( const int *k, const double *v )
{
   Vals x {};
   for( int i = 0; i < curNv; i++ ) x[(size_t) i] = v[i];
   got.push_back( { Key( k, k + curDim ), x } );
}
static void cbFast( const int *k, const double *v ) { take( k, v ); }
static int cbEx( const int *k, const double *v, const int fd, void *u )
{
   take( k, v );
   gotDim.push_back( fd );
   gotPtr = u;
   return !( stopAt >= 0 && (int) got.size() >= stopAt );
}
static int cbFilt( const int *k, const double *v, void *u )
{
   take( k, v );
   gotPtr = u;
   return !( stopAt >= 0 && (int) got.size() >= stopAt );
}
static void cbDom( int raw, int mapped, void *u )
{
   gotDom.push_back( { raw, mapped } );
   gotPtr = u;
}

struct Reader
{
   Ctx &c;
   const MFile &f;
   Obj &o;
   UMap &m;
   uint64_t h = 0;
   bool pending = false;// a read was left open

   int targetNr( int sy ) const
   {
      while( sy > 0 && f.sy[(size_t) sy].aliasOf ) sy = std::max( 0, f.sy[(size_t) sy].aliasOf );
      return sy;
   }
   const MSym &target( int sy ) const { return f.sy[(size_t) targetNr( sy )]; }

   void cmpVals( const MSym &y, const Rec &r, const double *v, const char *how )
   {
      for( int i = 0; i < nvals( y.type ); i++ )
      {
         double want = r.v[(size_t) i];
         if( y.type == T_SET )
         {
            if( r.txt.empty() )
               CK( v[0] == 0.0, "value", "%s: element %s without text has value %s", how, showKey( r.k ).c_str(), showVal( v[0] ).c_str() );
            else
            {
               char t[256];
               int node;
               CK( v[0] >= 1 && o->gdxGetElemText( (int) v[0], t, node ) && r.txt == t, "text", "%s: element %s has value %s which is not its text \"%s\"", how, showKey( r.k ).c_str(), showVal( v[0] ).c_str(), r.txt.c_str() );
            }
         }
         else
            CK( bits( v[i] ) == bits( want ), "value", "%s: record %s field %d is %s, expected %s", how, showKey( r.k ).c_str(), i, showVal( v[i] ).c_str(), showVal( want ).c_str() );
      }
   }
   static int dimFirst( const Key *prev, const Key &k, int dim )
   {
      if( dim == 0 ) return 0;
      if( !prev ) return 1;
      int d = 1;
      while( d <= dim && ( *prev )[(size_t) d - 1] == k[(size_t) d - 1] ) d++;
      return d;
   }

   // record-by-record interfaces; how: 0 raw, 1 string, 2 mapped strict, 3 filtered expand, 4 filtered unmapped
   void records( int sy, int how, int stop, bool skipDone = false )
   {
      static const char *NM[] = { "raw", "string", "mapped", "filtered(expand)", "filtered(unmapped)" };
      auto &y = target( sy );
      int n = -99, ok;
      int dimn = y.dim;
      vector<int> act( 20, how == 3 ? -1 : -2 );
      switch( how )
      {
         case 0: ok = o->gdxDataReadRawStart( sy, n ); break;
         case 1: ok = o->gdxDataReadStrStart( sy, n ); break;
         case 2: ok = o->gdxDataReadMapStart( sy, n ); break;
         default: ok = o->gdxDataReadFilteredStart( sy, act.data(), n ); break;
      }
      c.note( fmt( "%s read of %s stop=%d -> %d n=%d", NM[how], f.sy[(size_t) sy].name.c_str(), stop, ok, n ) );
      vector<Rec> want = y.recs;
      if( how == 2 )
      {
         vector<Rec> w;
         for( auto &r: want )
         {
            Rec q = r;
            bool all = true;
            for( auto &k: q.k )
            {
               k = m.user[(size_t) k - 1];
               if( k < 0 ) all = false;
            }
            if( all ) w.push_back( q );
         }
         want = w;
      }
      if( how == 3 )
      {
         for( auto &r: want )
            for( auto &k: r.k )
            {
               if( m.user[(size_t) k - 1] < 0 ) m.user[(size_t) k - 1] = ++m.high;
               k = m.user[(size_t) k - 1];
            }
      }
      if( how == 2 || how == 3 ) std::sort( want.begin(), want.end(), []( const Rec &a, const Rec &b ) { return a.k < b.k; } );
      CK( ok, "start", "%s read of %s cannot be started", NM[how], y.name.c_str() );
      CK( how == 2 ? n >= (int) want.size() : n == (int) want.size(), "announced", "%s read of %s announces %d records, there are %zu", NM[how], y.name.c_str(), n, want.size() );
      size_t i = 0;
      const Key *prev = nullptr;
      while( stop < 0 || (int) i < stop )
      {
         int k[20], df = -9;
         double v[5];
         for( auto &q: k ) q = JUNKI;
         for( auto &q: v ) q = JUNKV;
         KeyBuf kb;
         if( how == 1 )
         {
            if( !o->gdxDataReadStr( kb.get(), v, df ) ) break;
         }
         else if( how == 0 )
         {
            if( !o->gdxDataReadRaw( k, v, df ) ) break;
         }
         else if( !o->gdxDataReadMap( (int) i + 1, k, v, df ) )
            break;
         CK( i < want.size(), "extra", "%s read of %s delivers more than %zu records", NM[how], y.name.c_str(), want.size() );
         auto &r = want[i];
         if( how == 1 )
         {
            for( int d = 0; d < dimn; d++ ) CK( f.uels[(size_t) r.k[(size_t) d] - 1] == kb.ptr[d], "key", "string read of %s: record %zu has label \"%s\" in position %d, expected \"%s\"", y.name.c_str(), i + 1, kb.ptr[d], d + 1, f.uels[(size_t) r.k[(size_t) d] - 1].c_str() );
         }
         else
            CK( Key( k, k + dimn ) == r.k, "key", "%s read of %s: record %zu is %s, expected %s", NM[how], y.name.c_str(), i + 1, showKey( Key( k, k + dimn ) ).c_str(), showKey( r.k ).c_str() );
         cmpVals( y, r, v, NM[how] );
         int ed = dimFirst( prev, r.k, dimn );
         CK( dimn == 0 || df == ed, "dimfirst", "%s read of %s: record %zu reports first changed dimension %d, expected %d", NM[how], y.name.c_str(), i + 1, df, ed );
         prev = &r.k;
         i++;
      }
      if( stop < 0 ) CK( i == want.size(), "missing", "%s read of %s delivers %zu of %zu records", NM[how], y.name.c_str(), i, want.size() );
      pending = skipDone;
      if( !skipDone ) CK( o->gdxDataReadDone(), "done", "DataReadDone after a %s read fails", NM[how] );
      h = mc::mix( h, i );
   }
   void cmpGot( const MSym &y, const vector<Rec> &want, int stop, const char *how )
   {
      size_t n = want.size();
      if( stop >= 0 && (size_t) stop < n ) n = (size_t) stop;
      CK( got.size() == n, "count", "%s of %s calls back %zu times, expected %zu", how, y.name.c_str(), got.size(), n );
      for( size_t i = 0; i < n; i++ )
      {
         CK( got[i].first == want[i].k, "key", "%s of %s: call %zu for %s, expected %s", how, y.name.c_str(), i + 1, showKey( got[i].first ).c_str(), showKey( want[i].k ).c_str() );
         cmpVals( y, want[i], got[i].second.data(), how );
      }
   }
   void prep( const MSym &y, int stop )
   {
      got.clear();
      gotDim.clear();
      gotDom.clear();
      stopAt = stop;
      curDim = y.dim;
      curNv = nvals( y.type );
      gotPtr = nullptr;
   }
   void fast( int sy )
   {
      auto &y = target( sy );
      prep( y, -1 );
      int n = -9;
      int ok = o->gdxDataReadRawFast( sy, cbFast, n );
      c.note( fmt( "fast read of %s -> %d n=%d", f.sy[(size_t) sy].name.c_str(), ok, n ) );
      CK( ok && n == (int) y.recs.size(), "announced", "fast read of %s gives %d and announces %d of %zu records", y.name.c_str(), ok, n, y.recs.size() );
      cmpGot( y, y.recs, -1, "fast read" );
   }
   void fastEx( int sy, int stop )
   {
      auto &y = target( sy );
      prep( y, stop );
      int n = -9, tag = 0;
      int ok = o->gdxDataReadRawFastEx( sy, cbEx, n, &tag );
      c.note( fmt( "fastEx read of %s stop=%d -> %d n=%d", f.sy[(size_t) sy].name.c_str(), stop, ok, n ) );
      CK( ok && n == (int) y.recs.size(), "announced", "fastEx read of %s gives %d and announces %d of %zu records", y.name.c_str(), ok, n, y.recs.size() );
      cmpGot( y, y.recs, stop, "fastEx read" );
      CK( got.empty() || gotPtr == &tag, "userptr", "fastEx read passes another user pointer" );
      for( size_t i = 0; i < gotDim.size() && y.dim; i++ )
      {
         int ed = dimFirst( i ? &y.recs[i - 1].k : nullptr, y.recs[i].k, y.dim );
         CK( gotDim[i] == ed, "dimfirst", "fastEx read of %s: record %zu reports first changed dimension %d, expected %d", y.name.c_str(), i + 1, gotDim[i], ed );
      }
   }
   // fixed[d]: 0 free, e fixed to element e, -1 a label that does not exist
   vector<string> filtStr( const vector<int> &fixed )
   {
      vector<string> s;
      for( int e: fixed )
      {
         string x = e == 0 ? "" : e < 0 ? "nosuchlabel" : f.uels[(size_t) e - 1];
         s.push_back( x );
      }
      return s;
   }
   void fastFilt( int sy, const vector<int> &fixed, int stop )
   {
      auto &y = target( sy );
      prep( y, stop );
      KeyIn ki( filtStr( fixed ) );
      int ok = o->gdxDataReadRawFastFilt( sy, ki.get(), cbFilt );
      c.note( fmt( "fastFilt read of %s %s stop=%d -> %d", f.sy[(size_t) sy].name.c_str(), showKey( fixed ).c_str(), stop, ok ) );
      vector<Rec> want;
      bool bad = false;
      for( auto &r: y.recs )
      {
         bool in = true;
         for( size_t d = 0; d < r.k.size(); d++ )
            if( fixed[d] && r.k[d] != fixed[d] ) in = false;
         if( in ) want.push_back( r );
      }
      for( int e: fixed ) bad = bad || e < 0;
      CK( !ok == bad, "filt-result", "filtered fast read with %s label returns %d", bad ? "an unknown" : "known", ok );
      cmpGot( y, want, stop, "filtered fast read" );
   }
   void slices( int sy, const vector<vector<int>> &fixes, bool done )
   {
      auto &y = target( sy );
      int cnt[20];
      for( auto &x: cnt ) x = JUNKI;
      CK( o->gdxDataReadSliceStart( sy, cnt ), "slice-start", "DataReadSliceStart of %s fails", y.name.c_str() );
      c.note( fmt( "slice start %s", f.sy[(size_t) sy].name.c_str() ) );
      vector<vector<int>> el( (size_t) y.dim );
      for( int d = 0; d < y.dim; d++ )
      {
         std::set<int> s;
         for( auto &r: y.recs ) s.insert( r.k[(size_t) d] );
         el[(size_t) d].assign( s.begin(), s.end() );
         CK( cnt[d] == (int) s.size(), "slice-count", "DataReadSliceStart of %s: %d elements in position %d, expected %zu", y.name.c_str(), cnt[d], d + 1, s.size() );
      }
      for( int d = y.dim; d < 20; d++ ) CK( cnt[d] == 0, "slice-count", "DataReadSliceStart sets count %d in unused position %d", cnt[d], d + 1 );
      for( auto &fixed: fixes )
      {
         int fd = 0;
         bool bad = false;
         for( int d = 0; d < y.dim; d++ )
         {
            fd += fixed[(size_t) d] == 0;
            bad = bad || fixed[(size_t) d] < 0;
         }
         prep( y, -1 );
         curDim = fd;
         int dimen = -9;
         KeyIn ki( filtStr( fixed ) );
         int ok = o->gdxDataReadSlice( ki.get(), dimen, cbFast );
         c.note( fmt( "slice %s -> %d dim %d", showKey( fixed ).c_str(), ok, dimen ) );
         CK( !ok == bad, "slice-result", "DataReadSlice with %s label returns %d", bad ? "an unknown" : "known", ok );
         if( bad ) return;// the slice session is over
         CK( dimen == fd, "slice-dim", "DataReadSlice reports dimension %d, expected %d", dimen, fd );
         size_t i = 0;
         for( auto &r: y.recs )
         {
            Key k;
            bool in = true;
            for( int d = 0; d < y.dim; d++ )
               if( fixed[(size_t) d] == 0 )
               {
                  auto &e = el[(size_t) d];
                  k.push_back( (int) ( std::find( e.begin(), e.end(), r.k[(size_t) d] ) - e.begin() ) );
               }
               else
                  in = in && r.k[(size_t) d] == fixed[(size_t) d];
            if( !in ) continue;
            CK( i < got.size(), "slice-missing", "DataReadSlice %s of %s leaves out %s", showKey( fixed ).c_str(), y.name.c_str(), showKey( r.k ).c_str() );
            CK( got[i].first == k, "slice-key", "DataReadSlice %s of %s: call %zu for %s, expected %s", showKey( fixed ).c_str(), y.name.c_str(), i + 1, showKey( got[i].first ).c_str(), showKey( k ).c_str() );
            cmpVals( y, r, got[i].second.data(), "slice" );
            KeyBuf kb;
            int kk[20] = {};
            std::copy( k.begin(), k.end(), kk );
            CK( o->gdxDataSliceUELS( kk, kb.get() ), "slice-uels", "DataSliceUELS fails" );
            for( int d = 0; d < y.dim; d++ )
               CK( f.uels[(size_t) r.k[(size_t) d] - 1] == kb.ptr[d], "slice-uels", "DataSliceUELS of %s gives \"%s\" in position %d, expected \"%s\"", showKey( k ).c_str(), kb.ptr[d], d + 1, f.uels[(size_t) r.k[(size_t) d] - 1].c_str() );
            i++;
         }
         CK( i == got.size(), "slice-extra", "DataReadSlice %s of %s calls back %zu times, expected %zu", showKey( fixed ).c_str(), y.name.c_str(), got.size(), i );
      }
      if( done ) CK( o->gdxDataReadDone(), "done", "DataReadDone after slices fails" );
   }
   // filter: -1 none, otherwise set of user indices registered as filter 5
   void domain( int sy, int d, const std::set<int> *filter, bool withCb )
   {
      auto &y = target( sy );
      prep( y, -1 );
      int n = -9, tag = 0;
      int ok = o->gdxGetDomainElements( sy, d + 1, filter ? 5 : -1, withCb ? cbDom : nullptr, n, &tag );
      c.note( fmt( "domain elements of %s position %d filter=%d cb=%d -> %d n=%d", f.sy[(size_t) sy].name.c_str(), d + 1, filter != nullptr, withCb, ok, n ) );
      std::set<int> s;
      int left = 0;
      for( auto &r: y.recs )
      {
         int e = r.k[(size_t) d];
         if( filter && !( m.user[(size_t) e - 1] >= 0 && filter->count( m.user[(size_t) e - 1] ) ) )
         {
            left++;
            continue;
         }
         s.insert( e );
      }
      CK( ok && n == (int) s.size(), "domain-count", "GetDomainElements of %s position %d gives %d and counts %d, expected %zu", y.name.c_str(), d + 1, ok, n, s.size() );
      if( filter ) CK( ( o->gdxDataErrorCount() > 0 ) == ( left > 0 ), "domain-errors", "%d error records, %d records were left out", o->gdxDataErrorCount(), left );
      if( !withCb ) return;
      for( int e: s )
         if( m.user[(size_t) e - 1] < 0 ) m.user[(size_t) e - 1] = ++m.high;
      vector<std::pair<int, int>> w;
      for( int e: s ) w.push_back( { m.user[(size_t) e - 1], e } );
      std::sort( w.begin(), w.end() );
      CK( gotDom.size() == w.size(), "domain-calls", "GetDomainElements calls back %zu times, expected %zu", gotDom.size(), w.size() );
      for( size_t i = 0; i < w.size(); i++ )
         CK( gotDom[i].first == w[i].second && gotDom[i].second == w[i].first, "domain-element", "GetDomainElements: call %zu with raw %d mapped %d, expected raw %d mapped %d", i + 1, gotDom[i].first, gotDom[i].second, w[i].second, w[i].first );
      CK( w.empty() || gotPtr == &tag, "userptr", "GetDomainElements passes another user pointer" );
   }
   void lengths( int sy )
   {
      auto &y = target( sy );
      if( pending ) o->gdxDataReadDone();// this query is only possible between reads
      pending = false;
      int L[20];
      for( auto &x: L ) x = JUNKI;
      int r = o->gdxSymbIndxMaxLength( sy, L );
      int mx = 0;
      for( int d = 0; d < y.dim; d++ )
      {
         int w = 0;
         for( auto &q: y.recs ) w = std::max( w, (int) f.uels[(size_t) q.k[(size_t) d] - 1].size() );
         CK( L[d] == w, "maxlen", "SymbIndxMaxLength of %s position %d is %d, expected %d", y.name.c_str(), d + 1, L[d], w );
         mx = std::max( mx, w );
      }
      for( int d = y.dim; d < 20; d++ ) CK( L[d] == 0, "maxlen", "SymbIndxMaxLength sets %d in unused position %d", L[d], d + 1 );
      CK( r == mx, "maxlen", "SymbIndxMaxLength of %s is %d, expected %d", y.name.c_str(), r, mx );
      c.note( fmt( "lengths of %s -> %d", f.sy[(size_t) sy].name.c_str(), r ) );
   }
   void catalogue()
   {
      int ns, nu;
      CK( o->gdxSystemInfo( ns, nu ) && ns == (int) f.sy.size() - 1 && nu == (int) f.uels.size(), "system", "SystemInfo %d %d", ns, nu );
      size_t mu = 0, ms = 0;
      for( auto &u: f.uels ) mu = std::max( mu, u.size() );
      for( size_t i = 1; i < f.sy.size(); i++ ) ms = std::max( ms, f.sy[i].name.size() );
      CK( o->gdxUELMaxLength() == (int) mu, "uelmax", "UELMaxLength %d, expected %zu", o->gdxUELMaxLength(), mu );
      CK( o->gdxSymbMaxLength() == (int) ms, "symmax", "SymbMaxLength %d, expected %zu", o->gdxSymbMaxLength(), ms );
      for( int i = 0; i < (int) f.sy.size(); i++ )
      {
         auto &y = f.sy[(size_t) i];
         char id[256], tx[256];
         int dim, typ, cnt, ui;
         CK( o->gdxSymbolInfo( i, id, dim, typ ) && y.name == id && dim == target( i ).dim && typ == ( y.aliasOf ? T_ALIAS : y.type ), "syminfo", "SymbolInfo(%d) gives %s dim %d type %d", i, id, dim, typ );
         CK( o->gdxSymbolInfoX( i, cnt, ui, tx ), "syminfo", "SymbolInfoX(%d)", i );
         if( !y.aliasOf ) CK( cnt == ( y.dim == 0 ? 1 : (int) y.recs.size() ), "count", "SymbolInfoX counts %d records of %s, there are %zu", cnt, id, y.recs.size() );
         bool ht = false;
         for( auto &r: target( i ).recs ) ht = ht || !r.txt.empty();
         if( i > 0 && !y.aliasOf ) CK( ( o->gdxSetHasText( i ) != 0 ) == ht, "hastext", "SetHasText(%s) is %d", id, o->gdxSetHasText( i ) );
      }
      for( size_t i = 0; i < f.uels.size(); i++ )
      {
         char b[256];
         int mp;
         CK( o->gdxUMUelGet( (int) i + 1, b, mp ) && f.uels[i] == b && mp == m.user[i], "uel", "element %zu is %s mapped to %d, expected %s mapped to %d", i + 1, b, mp, f.uels[i].c_str(), m.user[i] );
      }
   }
};

static void registerUsers( Ctx &c, Obj &o, const MFile &f, UMap &m, int kind )
{
   m.user.assign( f.uels.size(), -1 );
   m.high = 0;
   int n = (int) f.uels.size();
   if( kind == 0 ) return;
   CK( o->gdxUELRegisterMapStart(), "setup", "map" );
   for( int i = 0; i < n; i++ )
   {
      // 1: identity, 2: reversed with gaps, 3: identity but the second element is missing
      if( kind == 3 && i == 1 ) continue;
      int u = kind == 2 ? 2 * ( n - i ) : i + 1;
      CK( o->gdxUELRegisterMap( u, f.uels[(size_t) i].c_str() ), "setup", "register" );
      m.user[(size_t) i] = u;
      m.high = std::max( m.high, u );
   }
   CK( o->gdxUELRegisterDone(), "setup", "map done" );
   c.note( fmt( "user map kind %d", kind ) );
}

static vector<vector<int>> allFixes( int dim, const vector<vector<int>> &opts )
{
   vector<vector<int>> r { {} };
   for( int d = 0; d < dim; d++ )
   {
      vector<vector<int>> q;
      for( auto &x: r )
         for( int e: opts[(size_t) d] )
         {
            auto y = x;
            y.push_back( e );
            q.push_back( y );
         }
      r = q;
   }
   return r;
}

// everything about one symbol through every interface
static void everything( Ctx &c, Reader &rd, int sy, int filterKind )
{
   auto &y = rd.target( sy );
   std::set<int> flt;
   if( filterKind )
   {
      size_t i = 0;
      CK( rd.o->gdxFilterRegisterStart( 5 ), "setup", "filter" );
      for( int u: rd.m.user )
         if( u >= 0 && i++ % 2 == 0 ) flt.insert( u );
      for( int u: flt ) CK( rd.o->gdxFilterRegister( u ), "setup", "filter" );
      rd.o->gdxFilterRegisterDone();
   }
   vector<vector<int>> opt;
   for( int d = 0; d < y.dim; d++ )
   {
      vector<int> o { 0 };
      int n = (int) rd.f.uels.size();
      for( int e = 1; e <= ( y.dim == 1 ? n : std::min( n, 4 ) ); e++ ) o.push_back( e );
      opt.push_back( o );
   }
   // wide symbols: every position fixed alone and together with the first or last one
   vector<vector<int>> fx, bad;
   auto with = [&]( vector<std::pair<int, int>> p ) {
      vector<int> v( (size_t) y.dim, 0 );
      for( auto &[d, e]: p ) v[(size_t) d] = e;
      return v;
   };
   if( y.dim <= 3 && rd.f.uels.size() < 1000 ) fx = allFixes( y.dim, opt );
   else
   {
      fx.push_back( with( {} ) );
      for( int d = 0; d < y.dim; d++ )
      {
         for( int e: opt[(size_t) d] ) fx.push_back( with( { { d, e } } ) );
         fx.push_back( with( { { 0, 1 }, { d, 1 } } ) );
         fx.push_back( with( { { y.dim - 1, 1 }, { d, 2 } } ) );
      }
      if( !y.recs.empty() ) fx.push_back( y.recs.back().k );
   }
   // an unknown label anywhere, alone or next to a known one
   for( int d = 0; d < y.dim; d++ )
   {
      bad.push_back( with( { { d, -1 } } ) );
      if( d ) bad.push_back( with( { { d - 1, 1 }, { d, -1 } } ) );
      if( d + 1 < y.dim ) bad.push_back( with( { { d, -1 }, { d + 1, 1 } } ) );
   }
   rd.lengths( sy );
   rd.records( sy, 0, -1 );
   rd.records( sy, 1, -1 );
   rd.records( sy, 2, -1 );
   rd.fast( sy );
   rd.fastEx( sy, -1 );
   for( auto &q: fx ) rd.fastFilt( sy, q, -1 );
   for( auto &q: bad ) rd.fastFilt( sy, q, -1 );
   rd.slices( sy, fx, true );
   for( size_t i = 0; i < bad.size(); i += y.dim > 3 ? 7 : 2 ) rd.slices( sy, { fx[i % fx.size()], bad[i] }, false );
   for( int d = 0; d < y.dim; d++ ) rd.domain( sy, d, nullptr, false );
   if( filterKind )
      for( int d = 0; d < y.dim; d++ ) rd.domain( sy, d, &flt, d % 2 == 0 );
   for( int d = 0; d < y.dim; d++ ) rd.domain( sy, d, nullptr, true );
   rd.records( sy, 3, -1 );
   rd.records( sy, 4, -1 );
   rd.catalogue();
}

// ---- scenario: all small contents, every interface
static void contents( Ctx &c )
{
   int dim = c.choose( 3, "dim" ) + 1;
   static const int NE[] = { 0, 4, 3, 2 };
   int ne = NE[dim];
   int nk = 1;
   for( int d = 0; d < dim; d++ ) nk *= ne;
   bool full = c.thorough || dim != 2;
   vector<int> sel;
   if( full )
   {
      int mask = c.choose( 1 << nk, "record set" );
      for( int i = 0; i < nk; i++ )
         if( mask >> i & 1 ) sel.push_back( i );
   }
   else
      sel = chooseSeq( c, nk, 4, true );
   static const int TY[] = { T_SET, T_PAR, T_VAR };
   int type = TY[c.choose( 3, "type" )];
   MFile f = base( { "a", "Quite a long label", "abc", "zz9" } );
   MSym y { "s", dim, type, type == T_VAR ? 5 : 0, {}, 0 };
   int n = 0;
   for( int i: sel )
   {
      Key k;
      for( int d = 0, x = i; d < dim; d++ )
      {
         k.insert( k.begin(), x % ne + 1 );
         x /= ne;
      }
      addRec( y, k, n++ );
   }
   MSym before { "before", 1, T_PAR, 0, {}, 0 };
   addRec( before, { 4 }, 1 );
   f.sy.push_back( before );
   f.sy.push_back( y );
   if( type == T_SET )
   {
      f.sy.push_back( MSym { "al", dim, T_SET, 0, {}, 2 } );
   }
   MSym after { "afterwards", 2, T_VAR, 3, {}, 0 };
   addRec( after, { 1, 2 }, 2 );
   addRec( after, { 4, 1 }, 3 );
   f.sy.push_back( after );
   string fn = c.path( "c.gdx" );
   int kind = c.choose( 4, "user map" );
   writeFile( c, f, fn, ( n + kind ) % 2 );
   c.note( fmt( "dim %d type %d %zu records", dim, type, sel.size() ) );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   UMap m;
   registerUsers( c, o, f, m, kind );
   Reader rd { c, f, o, m };
   everything( c, rd, type == T_SET && ( n + kind ) % 3 == 0 ? 3 : 2, kind );
   rd.records( 1, 0, -1 );
   rd.records( (int) f.sy.size() - 1, 1, -1 );
   CK( o->gdxErrorCount() == 0 || kind == 0 || kind == 3, "error", "an error was recorded: %d", o->gdxGetLastError() );
   uint64_t hh = mc::hashBytes( sel.data(), sel.size() * sizeof( int ) );
   c.state( mc::mix( hh, (uint64_t) ( dim * 100 + type * 10 + kind ) ) );
   o->gdxClose();
}

// ---- scenario: wide symbols
static void wide( Ctx &c )
{
   static const vector<int> quickDims { 4, 10, 11, 19, 20 };
   int dim = c.thorough ? 4 + c.choose( 17, "dim" ) : quickDims[(size_t) c.choose( (int) quickDims.size(), "dim" )];
   static const int TY[] = { T_SET, T_PAR, T_VAR };
   int type = TY[c.choose( 3, "type" )], kind = c.choose( 4, "user map" ), pattern = c.choose( 4, "pattern" );
   MFile f = base( { "a", "Quite a long label", "abc", "zz9", "four", "a label in between" } );
   std::set<Key> keys;
   Key k1( (size_t) dim, 1 );
   for( int d = 0; d < dim; d++ )
   {
      Key k = k1;
      if( pattern == 0 ) k[(size_t) d] = 2 + d % 5;// one position at a time
      else if( pattern == 1 )
         for( int e = d; e < dim; e++ ) k[(size_t) e] = 1 + ( d + e ) % 6;// everything behind a position
      else if( pattern == 2 )
         for( int e = 0; e <= d; e++ ) k[(size_t) e] = 1 + ( d * 7 + e ) % 6;// everything before a position
      else
         k[(size_t) d] = k[(size_t) ( ( d * 3 + 1 ) % dim )] = 3;
      keys.insert( k );
   }
   MSym y { "w", dim, type, type == T_VAR ? 5 : 0, {}, 0 };
   int n = 0;
   for( auto &k: keys ) addRec( y, k, n++ );
   f.sy.push_back( y );
   MSym after { "afterwards", 2, T_VAR, 3, {}, 0 };
   addRec( after, { 1, 2 }, 2 );
   f.sy.push_back( after );
   string fn = c.path( "w.gdx" );
   writeFile( c, f, fn, ( dim + kind ) % 2 );
   c.note( fmt( "dim %d type %d pattern %d", dim, type, pattern ) );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   UMap m;
   registerUsers( c, o, f, m, kind );
   Reader rd { c, f, o, m };
   everything( c, rd, 1, kind );
   rd.records( 2, 0, -1 );
   c.state( (uint64_t) ( dim * 100 + type * 20 + kind * 4 + pattern ) );
   o->gdxClose();
}

// more labels and records than fit into one, or two, bytes
static void large( Ctx &c )
{
   static const vector<int> N { 127, 129, 255, 256, 257, 300, 70000 };
   int n = N[(size_t) c.choose( c.thorough ? 7 : 6, "labels" )], dim = 1 + c.choose( 3, "dim" ), kind = c.choose( 4, "user map" ), pattern = c.choose( 3, "pattern" );
   if( n > 1000 && dim != 2 ) c.prune();
   vector<string> labels;
   for( int i = 1; i <= n; i++ ) labels.push_back( fmt( i % 3 ? "l%d" : "label %d", i ) );
   MFile f = base( labels );
   std::set<Key> keys;
   for( int i = 1; i <= n; i++ )
   {
      Key k( (size_t) dim, i );
      if( dim > 1 )
         for( int d = 0; d < dim; d++ )
            k[(size_t) d] = pattern == 0 ? ( d == dim - 1 ? i : 1 + i % 3 )// the last position varies
                            : pattern == 1 ? ( d == 0 ? i : n + 1 - i )// the first one
                                           : ( d == 1 ? i : d == 0 ? n - 3 + i % 4 : n );
      else if( pattern == 1 && i % 2 )
         continue;
      else if( pattern == 2 && i <= n - 20 )
         continue;
      keys.insert( k );
   }
   int type = pattern == 1 ? T_SET : T_PAR;
   MSym y { "big", dim, type, 0, {}, 0 };
   int q = 0;
   for( auto &k: keys ) addRec( y, k, q++ );
   f.sy.push_back( y );
   MSym after { "afterwards", 2, T_VAR, 3, {}, 0 };
   addRec( after, { 1, n }, 2 );
   f.sy.push_back( after );
   string fn = c.path( "big.gdx" );
   writeFile( c, f, fn, kind % 2 );
   c.note( fmt( "%d labels, dim %d, pattern %d", n, dim, pattern ) );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   UMap m;
   registerUsers( c, o, f, m, kind );
   Reader rd { c, f, o, m };
   everything( c, rd, 1, kind );
   rd.records( 2, 0, -1 );
   c.state( (uint64_t) ( n * 100 + dim * 20 + kind * 4 + pattern ) );
   o->gdxClose();
}

static MFile rich()
{
   MFile f = base( { "i1", "a rather long label", "j", "Unused", "k'7" } );
   MSym i { "i", 1, T_SET, 0, {}, 0 };
   addRec( i, { 1 }, 1 );
   addRec( i, { 2 }, 0 );
   addRec( i, { 3 }, 2 );
   f.sy.push_back( i );                                            // 1
   f.sy.push_back( MSym { "ii", 1, T_SET, 0, {}, 1 } );            // 2
   MSym p { "p", 2, T_PAR, 0, {}, 0 };
   addRec( p, { 1, 2 }, 1 );
   addRec( p, { 1, 5 }, 2 );
   addRec( p, { 3, 2 }, 3 );
   addRec( p, { 5, 1 }, 4 );
   f.sy.push_back( p );                                            // 3
   MSym v { "thevariable", 3, T_VAR, 5, {}, 0 };
   addRec( v, { 1, 1, 2 }, 0 );
   addRec( v, { 1, 2, 1 }, 1 );
   addRec( v, { 3, 1, 1 }, 2 );
   f.sy.push_back( v );                                            // 4
   MSym s { "sc", 0, T_PAR, 0, {}, 0 };
   addRec( s, {}, 3 );
   f.sy.push_back( s );                                            // 5
   f.sy.push_back( MSym { "empty", 2, T_EQU, 53, {}, 0 } );        // 6
   MSym sv { "scv", 0, T_VAR, 4, {}, 0 };
   addRec( sv, {}, 2 );
   f.sy.push_back( sv );                                           // 7
   return f;
}

// one operation of a sequence; returns false when it does not apply
static void oneOp( Ctx &c, Reader &rd, const vector<int> &syms, const std::set<int> &flt, bool small )
{
   int sy = syms[(size_t) c.choose( (int) syms.size(), "symbol" )];
   auto &y = rd.target( sy );
   int nr = (int) y.recs.size();
   int op = c.choose( small ? 9 : 11, "operation" );
   auto stop = [&]( const char *what ) {
      int n = std::min( nr, small ? 1 : 2 );
      int k = c.choose( n + 2, what );
      return k == 0 ? -1 : k - 1;
   };
   vector<int> fx( (size_t) y.dim );
   switch( op )
   {
      case 0:
      {
         int s = stop( "stop raw" );
         rd.records( sy, 0, s, s >= 0 && c.flip( "skip done" ) );
         break;
      }
      case 1:
      {
         int s = stop( "stop str" );
         rd.records( sy, 1, s, s == 1 );
         break;
      }
      case 2:
      {
         int s = stop( "stop map" );
         rd.records( sy, 2, s, s == 1 );
         break;
      }
      case 3: rd.fast( sy ); break;
      case 4:
      {
         int s = stop( "stop fastEx" );
         rd.fastEx( sy, s == 0 ? 1 : s );
         break;
      }
      case 5:
      {
         if( y.dim ) fx[(size_t) y.dim - 1] = c.choose( 3, "fix" ) == 1 ? 2 : 0;
         if( y.dim && c.pos && fx[(size_t) y.dim - 1] == 0 && c.flip( "unknown label" ) ) fx[0] = -1;
         int s = stop( "stop fastFilt" );
         rd.fastFilt( sy, fx, s == 0 ? 1 : s );
         break;
      }
      case 6:
      {
         vector<vector<int>> l { fx };
         if( y.dim )
         {
            auto a = fx;
            a[0] = 1;
            l.push_back( a );
         }
         int k = c.choose( 3, "slices" );
         if( k == 1 ) l.clear();
         if( k == 2 && y.dim )
         {
            auto a = fx;
            a[(size_t) y.dim - 1] = -1;
            l.insert( l.begin() + 1, a );
         }
         rd.slices( sy, l, true );
         break;
      }
      case 7:
      {
         if( rd.targetNr( sy ) == 0 || !y.dim ) c.prune();
         int d = y.dim > 1 ? c.choose( 2, "position" ) : 0;
         int k = c.choose( 3, "kind" );
         rd.domain( sy, d, k == 2 ? &flt : nullptr, k > 0 );
         break;
      }
      case 8: rd.lengths( sy ); break;
      case 9:
      {
         int s = stop( "stop filtered" );
         if( s >= 0 && std::find( rd.m.user.begin(), rd.m.user.end(), -1 ) != rd.m.user.end() ) c.prune();
         rd.records( sy, 3, s );
         break;
      }
      case 10: rd.records( sy, 4, stop( "stop unmapped" ) ); break;
   }
}

static void sequence( Ctx &c )
{
   bool small = c.thorough && c.flip( "three operations" );
   MFile f = rich();
   string fn = c.path( "r.gdx" );
   int kind = small ? 3 : c.choose( 3, "user map" ) + 1;
   if( readBytes( fn ).empty() ) writeFile( c, f, fn, true );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   UMap m;
   registerUsers( c, o, f, m, kind );
   std::set<int> flt { m.user[0], m.user[2] };
   CK( o->gdxFilterRegisterStart( 5 ), "setup", "filter" );
   for( int u: flt ) CK( o->gdxFilterRegister( u ), "setup", "filter" );
   o->gdxFilterRegisterDone();
   Reader rd { c, f, o, m };
   vector<int> syms = small ? vector<int> { 1, 3, 4 } : vector<int> { 0, 1, 2, 3, 4, 5, 6, 7 };
   if( !c.thorough && !small ) syms = { 0, 1, 2, 3, 4, 7 };
   int n = small ? 3 : 2;
   for( int i = 0; i < n; i++ ) oneOp( c, rd, syms, flt, small );
   if( c.thorough || kind == 1 )
   {
      rd.records( 3, 1, -1 );
      rd.records( 4, 2, -1 );
      rd.catalogue();
   }
   c.state( mc::mix( rd.h, mc::hashStr( c.notes.back() ) ) );
   o->gdxClose();
}

// aliases of aliases, of the universe and of sets with several dimensions
static void aliasChains( Ctx &c )
{
   MFile f = base( { "i1", "zz", "j", "Unused", "k'7" } );
   MSym i { "i", 1, T_SET, 0, {}, 0 };
   addRec( i, { 2 }, 1 );
   addRec( i, { 3 }, 2 );
   f.sy.push_back( i );// 1
   MSym s2 { "two", 2, T_SET, 0, {}, 0 };
   addRec( s2, { 1, 2 }, 1 );
   addRec( s2, { 1, 3 }, 0 );
   addRec( s2, { 5, 2 }, 2 );
   f.sy.push_back( s2 );// 2
   for( auto a: { std::pair<const char *, int> { "u1", -1 }, { "u2", 3 }, { "a1", 1 }, { "a2", 5 }, { "a3", 6 }, { "b1", 2 }, { "b2", 8 } } ) f.sy.push_back( MSym { a.first, 1, T_ALIAS, 0, {}, a.second } );
   string fn = c.path( "al.gdx" );
   int kind = c.choose( 3, "user map" ) + 1;
   if( readBytes( fn ).empty() ) writeFile( c, f, fn, false );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   UMap m;
   registerUsers( c, o, f, m, kind );
   std::set<int> flt { m.user[0], m.user[2] };
   CK( o->gdxFilterRegisterStart( 5 ), "setup", "filter" );
   for( int u: flt ) CK( o->gdxFilterRegister( u ), "setup", "filter" );
   o->gdxFilterRegisterDone();
   Reader rd { c, f, o, m };
   oneOp( c, rd, { 3, 4, 5, 6, 7, 8, 9 }, flt, false );
   if( c.thorough ) oneOp( c, rd, { 3, 4, 5, 6, 7, 8, 9 }, flt, false );
   else
      rd.records( 3 + c.choose( 7, "then" ), 1, -1 );
   rd.catalogue();
   c.state( mc::mix( rd.h, mc::hashStr( c.notes.back() ) ) );
   o->gdxClose();
}

// scalars of every type and subtype, with a record or without: then reading delivers the default record, once
static void scalars( Ctx &c )
{
   static const double INF = 3e300, MINF = 4e300;
   static const Vals VD[] = { { 0, 0, 0, 0, 1 }, { 0, 0, 0, 1, 1 }, { 0, 0, 0, INF, 1 }, { 0, 0, 0, INF, 1 }, { 0, 0, MINF, 0, 1 }, { 0, 0, MINF, INF, 1 }, { 0, 0, 0, INF, 1 }, { 0, 0, 0, INF, 1 }, { 0, 0, 1, INF, 1 }, { 0, 0, 1, INF, 1 } };
   static const Vals ED[] = { { 0, 0, 0, 0, 1 }, { 0, 0, 0, INF, 1 }, { 0, 0, MINF, 0, 1 }, { 0, 0, MINF, INF, 1 }, { 0, 0, 0, 0, 1 }, { 0, 0, 0, INF, 1 }, { 0, 0, 0, 0, 1 } };
   MFile f = base( { "a", "b" } );
   auto sym = [&]( const char *nm ) {
      int k = c.choose( 2 + 10 + 7, "kind" );
      MSym y { nm, 0, k == 0 ? T_SET : k == 1 ? T_PAR : k < 12 ? T_VAR : T_EQU, k < 2 ? 0 : k < 12 ? k - 2 : 53 + k - 12, {}, 0 };
      y.unwritten = !c.flip( "record" );
      if( y.unwritten )
      {
         Rec r;
         r.v = k == 0 || k == 1 ? Vals {} : k < 12 ? VD[k - 2] : ED[k - 12];
         y.recs.push_back( r );
      }
      else
         addRec( y, {}, k == 0 ? 0 : 2 );
      f.sy.push_back( y );
   };
   sym( "s1" );
   MSym p { "p", 1, T_PAR, 0, {}, 0 };
   addRec( p, { 2 }, 1 );
   f.sy.push_back( p );
   if( c.thorough ) sym( "s2" );
   string fn = c.path( "sc.gdx" );
   int ty = f.sy[1].type;
   writeFile( c, f, fn, c.flip( "compress" ) );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   UMap m;
   registerUsers( c, o, f, m, 1 );
   Reader rd { c, f, o, m };
   auto rec = [&]( int sy, int how ) {
      if( f.sy[(size_t) sy].type != T_SET || !f.sy[(size_t) sy].unwritten || how >= 0 ) rd.records( sy, how, -1 );
   };
   // every pair of interfaces, the second one on any symbol
   int h1 = c.choose( 9, "first" ), h2 = c.choose( 5, "second" ), s2 = 1 + c.choose( (int) f.sy.size() - 1, "symbol" );
   if( h1 < 5 ) rec( 1, h1 );
   else if( h1 == 5 ) rd.fast( 1 );
   else if( h1 == 6 ) rd.fastEx( 1, -1 );
   else if( h1 == 7 ) rd.fastFilt( 1, {}, -1 );
   else
      rd.slices( 1, { {} }, true );
   rec( s2, h2 );
   rec( 1, 2 );
   CK( o->gdxErrorCount() == 0, "error", "an error was recorded: %d", o->gdxGetLastError() );
   c.state( mc::mix( (uint64_t) ty * 1000 + (uint64_t) f.sy[1].user, (uint64_t) ( h1 * 5 + h2 ) ) );
   o->gdxClose();
}

// labels registered or renamed by the reader between the reads: the universe stays that of the file, names follow
static void registered( Ctx &c )
{
   MFile f = base( { "i1", "zz", "j", "Unused", "k'7" } );
   MSym i { "i", 1, T_SET, 0, {}, 0 };
   addRec( i, { 2 }, 1 );
   addRec( i, { 3 }, 2 );
   f.sy.push_back( i );// 1
   f.sy.push_back( MSym { "u1", 1, T_ALIAS, 0, {}, -1 } );// 2
   MSym p { "p", 2, T_PAR, 0, {}, 0 };
   addRec( p, { 1, 2 }, 1 );
   addRec( p, { 1, 5 }, 2 );
   addRec( p, { 3, 2 }, 3 );
   f.sy.push_back( p );// 3
   string fn = c.path( "re.gdx" );
   int kind = c.choose( 3, "user map" ) + 1;
   if( readBytes( fn ).empty() ) writeFile( c, f, fn, false );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   UMap m;
   registerUsers( c, o, f, m, kind );
   std::set<int> flt { m.user[0], m.user[2] };
   CK( o->gdxFilterRegisterStart( 5 ), "setup", "filter" );
   for( int u: flt ) CK( o->gdxFilterRegister( u ), "setup", "filter" );
   o->gdxFilterRegisterDone();
   Reader rd { c, f, o, m };
   int n = c.thorough ? 2 : 1;
   for( int s = 0; s <= n; s++ )
   {
      if( rd.pending ) o->gdxDataReadDone();
      rd.pending = false;
      int ch = c.choose( 5, "change" );
      if( ch == 1 || ch == 2 )
      {
         string l = fmt( "new label %d", s );
         int u = ch == 1 ? m.high + 1 : m.high + 20, r = -9;
         if( ch == 1 )
         {
            CK( o->gdxUELRegisterStrStart() && o->gdxUELRegisterStr( l.c_str(), r ) && r == u, "register", "automatic registration gives %d, expected %d", r, u );
         }
         else
            CK( o->gdxUELRegisterMapStart() && o->gdxUELRegisterMap( u, l.c_str() ), "register", "registration refused" );
         CK( o->gdxUELRegisterDone(), "register", "RegisterDone refused" );
         f.uels.push_back( l );
         m.user.push_back( u );
         m.high = u;
         c.note( "register " + l );
      }
      if( ch >= 3 )
      {
         string l = ch == 3 ? fmt( "a label that is longer than all the others %d", s ) : fmt( "q%d", s );
         CK( o->gdxRenameUEL( f.uels[1].c_str(), l.c_str() ) == 0, "rename", "rename refused" );
         f.uels[1] = l;
         c.note( "rename to " + l );
      }
      if( s < n ) oneOp( c, rd, { 0, 1, 2, 3 }, flt, false );
   }
   rd.records( 0, 0, -1 );
   rd.records( 2, 1, -1 );
   rd.records( 3, 1, -1 );
   rd.lengths( 0 );
   rd.catalogue();
   c.state( mc::mix( rd.h, mc::hashStr( c.notes.back() ) ) );
   o->gdxClose();
}

// requests that cannot be served
static void refused( Ctx &c )
{
   MFile f = rich();
   string fn = c.path( "r.gdx" );
   if( readBytes( fn ).empty() ) writeFile( c, f, fn, false );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "setup", "open" );
   UMap m;
   registerUsers( c, o, f, m, 1 );
   Reader rd { c, f, o, m };
   static const int BAD[] = { -1, -2, 8, 9, 1000, INT_MAX, INT_MIN };
   int sy = BAD[c.choose( 7, "symbol" )], op = c.choose( 8, "operation" );
   int n = 0, cnt[20], ok = 1;
   vector<int> act( 20, -2 );
   KeyIn ki( {} );
   prepEmpty:
   got.clear();
   curDim = 0;
   int e0 = o->gdxErrorCount();
   switch( op )
   {
      case 0: ok = o->gdxDataReadRawStart( sy, n ); break;
      case 1: ok = o->gdxDataReadStrStart( sy, n ); break;
      case 2: ok = o->gdxDataReadMapStart( sy, n ); break;
      case 3: ok = o->gdxDataReadFilteredStart( sy, act.data(), n ); break;
      case 4: ok = o->gdxDataReadRawFast( sy, cbFast, n ); break;
      case 5: ok = o->gdxDataReadRawFastEx( sy, cbEx, n, nullptr ); break;
      case 6: ok = o->gdxDataReadRawFastFilt( sy, ki.get(), cbFilt ); break;
      case 7: ok = o->gdxDataReadSliceStart( sy, cnt ); break;
   }
   c.note( fmt( "operation %d on symbol %d -> %d", op, sy, ok ) );
   CK( !ok, "bad-symbol", "reading symbol %d succeeds", sy );
   CK( got.empty(), "bad-symbol", "reading symbol %d delivers records", sy );
   CK( o->gdxErrorCount() > e0, "bad-symbol", "no error for symbol %d", sy );
   if( c.choose( 2, "again" ) == 0 && e0 == 0 ) goto prepEmpty;
   if( c.flip( "done" ) ) o->gdxDataReadDone();
   rd.records( 3, 0, -1 );
   rd.slices( 3, { { 0, 0 }, { 1, 0 } }, true );
   rd.records( 1, 2, -1 );
   // positions outside of the symbol
   static const int BADD[] = { 0, -1, 3, 20, 21, INT_MAX };
   int d = BADD[c.choose( 6, "position" )];
   CK( !o->gdxGetDomainElements( 3, d, -1, nullptr, n, nullptr ), "bad-position", "GetDomainElements of position %d succeeds", d );
   CK( !o->gdxGetDomainElements( 5, 1, -1, nullptr, n, nullptr ), "bad-position", "GetDomainElements of a scalar succeeds" );
   CK( !o->gdxGetDomainElements( 3, 1, 17, nullptr, n, nullptr ), "bad-filter", "GetDomainElements with an unknown filter succeeds" );
   rd.records( 4, 1, -1 );
   c.state( mc::mix( (uint64_t) sy, (uint64_t) op * 64 + (uint64_t) d ) );
   o->gdxClose();
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P09";
   d.sc = { { "contents", contents, 3, "all record sets over 4, 3x3 (quick: up to 4 records), 2x2x2 keys x set/parameter/variable x 4 user maps, all interfaces with all fixings and positions" },
            { "wide", wide, 3, "dimensions 4, 10, 11, 19, 20 (thorough 4..20) x set/parameter/variable x 4 record patterns x 4 user maps, all interfaces, every position fixed to a known or unknown label" },
            { "large", large, 3, "127, 129, 255, 256, 257, 300 (thorough: also 70000) labels and as many records x dimension 1-3 x 3 record patterns x 4 user maps, all interfaces" },
            { "sequence", sequence, 3, "all pairs (thorough: also triples) of read operations over 8 symbols incl. universe, alias, scalars, with a stop after 0, 1, 2 or all records, under 3 user maps" },
            { "aliases", aliasChains, 3, "7 aliases (of the universe, of sets of dimension 1 and 2, up to 3 levels) x every read operation of the sequences (thorough: pairs), 3 user maps" },
            { "scalars", scalars, 3, "19 kinds of scalars (set, parameter, 10 variable and 7 equation subtypes; thorough: pairs) with and without record x 9 interfaces followed by 5" },
            { "registered", registered, 3, "new labels (automatic, explicit index) and renames before and after every read operation (thorough: pairs), on the universe, its alias, a set and a parameter, 3 user maps" },
            { "refused", refused, 3, "7 invalid symbol numbers x 8 interfaces x invalid positions and filters, followed by complete reads" } };
   d.assumptions = { "an interrupted record-by-record read is ended with gdxDataReadDone or by starting another one", "after a slice request with an unknown label the slice session is over" };
   return d.main( argc, argv );
}
