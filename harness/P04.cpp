// P04: the unique-element table is a one-to-one, case-insensitive mapping at all times.
#include "gdxh.hpp"
using namespace gh;

static char up( char ch ) { return ch >= 'a' && ch <= 'z' ? (char) ( ch - 32 ) : ch; }
static char lo( char ch ) { return ch >= 'A' && ch <= 'Z' ? (char) ( ch + 32 ) : ch; }
static string upper( string s )
{
   for( auto &ch: s ) ch = up( ch );
   return s;
}
static string lower( string s )
{
   for( auto &ch: s ) ch = lo( ch );
   return s;
}
static string rtrim( string s )
{
   while( !s.empty() && (unsigned char) s.back() <= 32 ) s.pop_back();
   return s;
}
static bool goodLabel( const string &s )
{
   if( s.size() > 63 ) return false;
   bool q1 = false, q2 = false;
   for( char ch: s )
   {
      if( (unsigned char) ch < 32 ) return false;
      if( ch == '\'' ) q1 = true;
      if( ch == '"' ) q2 = true;
   }
   return !( q1 && q2 );
}

struct Model
{
   vector<string> t;
   std::map<string, int> ix;// upper case -> number
   int find( const string &s ) const
   {
      auto it = ix.find( upper( rtrim( s ) ) );
      return it == ix.end() ? -1 : it->second;
   }
   int add( const string &s )
   {
      int f = find( s );
      if( f > 0 ) return f;
      t.push_back( rtrim( s ) );
      return ix[upper( rtrim( s ) )] = (int) t.size();
   }
   int rename( const string &a, const string &b )
   {
      if( !goodLabel( rtrim( b ) ) ) return -100085;
      int f = find( a );
      if( f < 0 ) return 2;
      if( find( b ) > 0 ) return 3;
      ix.erase( upper( t[(size_t) f - 1] ) );
      t[(size_t) f - 1] = rtrim( b );
      ix[upper( rtrim( b ) )] = f;
      return 0;
   }
};

static void checkTable( Ctx &c, Obj &o, const Model &m, const vector<string> &probe, bool full = true )
{
   int ns, nu, cnt = -9, hi = -9;
   o->gdxSystemInfo( ns, nu );
   CK( nu == (int) m.t.size(), "count", "%d elements reported, expected %zu", nu, m.t.size() );
   CK( o->gdxUMUelInfo( cnt, hi ) && cnt == nu, "count-um", "UMUelInfo reports %d elements, expected %d", cnt, nu );
   size_t ml = 0;
   for( size_t i = 0; i < m.t.size(); i++ )
   {
      char b[256];
      memset( b, '~', 255 );
      b[255] = 0;
      int mp = -9;
      CK( o->gdxUMUelGet( (int) i + 1, b, mp ), "get", "element %zu not available", i + 1 );
      CK( m.t[i] == b, "spelling", "element %zu is <%s>, expected <%s>", i + 1, b, m.t[i].c_str() );
      ml = std::max( ml, m.t[i].size() );
      for( int v = 0; v < ( full ? 4 : 1 ); v++ )
      {
         string s = v == 0 ? m.t[i] : v == 1 ? upper( m.t[i] ) : v == 2 ? lower( m.t[i] ) : m.t[i] + "  ";
         int nr = -9;
         CK( o->gdxUMFindUEL( s.c_str(), nr, mp ) && nr == (int) i + 1, "find", "looking up <%s> gives %d, expected %zu", s.c_str(), nr, i + 1 );
      }
   }
   CK( o->gdxUELMaxLength() == (int) ml, "maxlen", "longest label reported %d, is %zu", o->gdxUELMaxLength(), ml );
   for( auto &p: probe )
   {
      int nr = -9, mp, e = m.find( p );
      int r = o->gdxUMFindUEL( p.c_str(), nr, mp );
      CK( ( r != 0 ) == ( e > 0 ) && nr == e, "probe", "looking up <%s> gives %d/%d, expected %d", p.c_str(), r, nr, e );
   }
   char b[256];
   int mp = 5;
   CK( !o->gdxUMUelGet( 0, b, mp ) && mp == -1 && !strcmp( b, "?L__0" ) && !o->gdxUMUelGet( nu + 1, b, mp ), "range", "UMUelGet answers for an element that does not exist" );
}

static const string L63( 63, 'x' ), L64( 64, 'x' ), L63b = string( 62, 'X' ) + "y", L300( 300, 'z' );
static const vector<string> LBL { "a", "A", "a  ", " a", "b", "", "   ", "it's", "say \"x\"", "m'i\"x", L63, L63 + " ", upper( L63 ), L64, L63b, "a\001b", "c\t", "\xc3\xa4", "\xc3\x84", "a b", "new\nline", L300, L300 + " " };

// one way of registering a label; returns whether the call must succeed
static void reg( Ctx &c, Obj &o, Model &m, const string &l, int how, int &symNr )
{
   bool good = goodLabel( rtrim( l ) );
   int r = 0, nr = -9;
   int e0 = o->gdxErrorCount();
   if( how == 0 )
   {
      CK( o->gdxUELRegisterRawStart(), "start", "RegisterRawStart refused" );
      r = o->gdxUELRegisterRaw( l.c_str() );
      CK( o->gdxUELRegisterDone(), "done", "RegisterDone refused" );
   }
   else if( how == 1 )
   {
      CK( o->gdxUELRegisterStrStart(), "start", "RegisterStrStart refused" );
      r = o->gdxUELRegisterStr( l.c_str(), nr );
      CK( o->gdxUELRegisterDone(), "done", "RegisterDone refused" );
   }
   else
   {
      CK( o->gdxDataWriteStrStart( fmt( "s%d", ++symNr ).c_str(), "", 2, T_SET, 0 ), "start", "WriteStrStart refused" );
      KeyIn k( { l, l } );
      double v[5] = {};
      r = o->gdxDataWriteStr( k.get(), v );
      CK( o->gdxDataWriteDone(), "done", "DataWriteDone refused" );
   }
   c.note( fmt( "register<%s> how=%d -> %d", l.substr( 0, 70 ).c_str(), how, r ) );
   CK( ( r != 0 ) == good, good ? "label-refused" : "label-accepted", "registering <%s> gives %d, expected %s", l.c_str(), r, good ? "success" : "refusal" );
   CK( good == ( o->gdxErrorCount() == e0 ), "label-error", "registering <%s> %s an error", l.c_str(), good ? "reports" : "does not report" );
   if( !good ) o->gdxGetLastError();
   if( good ) m.add( l );
}
static void ren( Ctx &c, Obj &o, Model &m, string a, string b )
{
   int e = m.rename( a, b );
   int r = o->gdxRenameUEL( a.c_str(), b.c_str() );
   c.note( fmt( "rename<%s><%s> -> %d", a.substr( 0, 70 ).c_str(), b.substr( 0, 70 ).c_str(), r ) );
   bool okc = e == -100085 ? ( r != 0 && r != 2 && r != 3 ) : r == e;
   CK( okc, "rename-result", "renaming <%s> to <%s> gives %d, expected %d", a.c_str(), b.c_str(), r, e );
}
static uint64_t hashM( const Model &m )
{
   uint64_t h = 7;
   for( auto &s: m.t ) h = mc::mix( h, mc::hashStr( s ) );
   return h;
}

static void finish( Ctx &c, Obj &o, Model &m, const string &fn, const vector<string> &probe, bool full = true )
{
   CK( o->gdxClose() == 0, "close", "close failed" );
   int rc;
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen (%d)", rc );
   checkTable( c, r, m, probe, full );
   r->gdxClose();
}

static void labels( Ctx &c )
{
   // every label, every way, in every order of two, then a third registration in one way
   string fn = c.path( "f.gdx" );
   Obj o;
   int rc, sy = 0;
   CK( o->gdxOpenWrite( fn.c_str(), "p", rc ), "open", "open failed" );
   Model m;
   int how = c.choose( 3, "how" ), n = c.thorough ? 3 : 2;
   for( int i = 0; i < n; i++ )
   {
      reg( c, o, m, c.pick( LBL, "label" ), how, sy );
      checkTable( c, o, m, LBL );
      if( i == 0 ) how = c.choose( 3, "how2" );
   }
   c.state( hashM( m ) );
   finish( c, o, m, fn, LBL );
}

// register / rename / register sequences
static void renames( Ctx &c )
{
   static const vector<string> R { "a", "B ", "cc", "A", "", "it's", L64, "m'i\"x" };
   string fn = c.path( "f.gdx" );
   Obj o;
   int rc, sy = 0;
   CK( o->gdxOpenWrite( fn.c_str(), "p", rc ), "open", "open failed" );
   Model m;
   static const vector<string> BASE { "a", "b", "cc" };
   int nb = 1 + c.choose( 3, "base" );
   for( int i = 0; i < nb; i++ ) reg( c, o, m, BASE[(size_t) i], 0, sy );
   int n = c.thorough ? 3 : 2;
   for( int i = 0; i < n; i++ )
   {
      int k = c.choose( (int) ( R.size() * R.size() + R.size() ), "op" );
      if( k < (int) R.size() ) reg( c, o, m, R[(size_t) k], i % 3, sy );
      else
      {
         k -= (int) R.size();
         ren( c, o, m, R[(size_t) k / R.size()], R[(size_t) k % R.size()] );
      }
      checkTable( c, o, m, LBL );
   }
   c.state( hashM( m ) );
   finish( c, o, m, fn, LBL );
}

// labels sharing a hash chain, whatever the hash: all chains of a small family are exercised by brute force over many labels
static unsigned h211( const string &s, unsigned mod )
{
   unsigned r = 0;
   for( char ch: s ) r = 211 * r + (unsigned) (signed char) up( ch );
   return ( r & 0x7fffffffu ) % mod;
}
static vector<string> collide( unsigned mod, int n )
{
   static std::map<std::pair<unsigned, int>, vector<string>> memo;
   auto &v = memo[{ mod, n }];
   if( !v.empty() ) return v;
   unsigned h0 = h211( "q0", mod );
   for( int i = 0; (int) v.size() < n; i++ )
   {
      string s = "q" + std::to_string( i );
      if( h211( s, mod ) == h0 ) v.push_back( s );
   }
   return v;
}
static void chains( Ctx &c )
{
   string fn = c.path( "f.gdx" );
   Obj o;
   int rc, sy = 0;
   CK( o->gdxOpenWrite( fn.c_str(), "p", rc ), "open", "open failed" );
   Model m;
   auto k = collide( 997, 5 );// k0..k2 registered, k3, k4 fresh labels of the same chain
   vector<string> probe = k;
   for( auto s: { "other", "fresh", "fresh2" } ) probe.push_back( s );
   auto ps = perms( c.thorough ? 4 : 3 );
   if( !c.thorough )
      for( auto &q: ps ) q.push_back( 3 );
   vector<string> base { k[0], k[1], k[2], "other" };
   auto p = c.pick( ps, "order" );
   bool reading = c.flip( "reopen before renaming" ), looked = c.flip( "lookup before renaming" );
   for( int i: p ) reg( c, o, m, base[(size_t) i], 0, sy );
   Obj r;
   Obj *w = &o;
   if( reading )
   {
      CK( o->gdxClose() == 0, "close", "close failed" );
      CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen" );
      w = &r;
   }
   if( looked )
   {
      int a, b;
      ( *w )->gdxUMFindUEL( "other", a, b );
   }
   vector<string> from { k[0], k[1], k[2], k[3], "other", "fresh" };
   int n = 2;
   for( int i = 0; i < n; i++ )
   {
      auto &a = c.pick( from, "from" );
      auto &b = c.pick( from, "to" );
      ren( c, *w, m, a, b );
      if( looked || i ) checkTable( c, *w, m, probe );
   }
   if( c.flip( "register after" ) ) reg( c, *w, m, c.pick( from, "again" ), 1, sy );
   checkTable( c, *w, m, probe );
   c.state( hashM( m ) );
   if( !reading ) finish( c, o, m, fn, probe );
   else
      r->gdxClose();
}

// table sizes around growth of the hash table and the integer map, with renames before and after growth
static void growth( Ctx &c )
{
   static const vector<int> SZ { 1, 255, 256, 257, 996, 997, 998, 1023, 1024, 1025, 1499, 1500, 1501, 2999, 3001, 9973, 14999, 15000, 15001 };
   static const vector<int> SZT { 149999, 150000, 150001 };
   vector<int> sz = SZ;
   if( c.thorough ) sz.insert( sz.end(), SZT.begin(), SZT.end() );
   int n = c.pick( sz, "elements" ), how = c.choose( 4, "how" ), extra = c.choose( 3, "more after" );
   int shape = c.choose( 2, "label shape" ), renAt = c.choose( 4, "rename position" );
   string fn = c.path( "f.gdx" );
   Obj o;
   int rc;
   CK( o->gdxOpenWrite( fn.c_str(), "p", rc ), "open", "open failed" );
   Model m;
   auto nm = [&]( int i ) { return shape ? fmt( "%05d-Element", ( i * 7919 ) % 200003 ) : fmt( "e%d", i ); };
   auto run = [&]( int from, int to ) {
      if( how == 0 ) o->gdxUELRegisterRawStart();
      else if( how == 1 )
         o->gdxUELRegisterStrStart();
      else if( how == 2 )
         o->gdxDataWriteStrStart( fmt( "s%d", from ).c_str(), "", 1, T_SET, 0 );
      else
         o->gdxUELRegisterMapStart();
      for( int i = from; i < to; i++ )
      {
         string l = nm( i );
         int nr = -9, r;
         double v[5] = {};
         if( how == 0 ) r = o->gdxUELRegisterRaw( l.c_str() );
         else if( how == 1 )
            r = o->gdxUELRegisterStr( l.c_str(), nr );
         else if( how == 2 )
         {
            KeyIn k( { l } );
            r = o->gdxDataWriteStr( k.get(), v );
         }
         else
            r = o->gdxUELRegisterMap( 1 + ( to - 1 - i ) + from, l.c_str() );
         CK( r, "register", "element %d refused", i );
         int e = m.add( l );
         int f = -9, mp = -9;
         CK( o->gdxUMFindUEL( upper( l ).c_str(), f, mp ) && f == e, "find", "<%s> found as %d, expected %d", l.c_str(), f, e );
         if( how == 1 ) CK( mp == nr && nr == e, "usermap", "<%s> has user index %d, expected %d", l.c_str(), nr, e );
         if( how == 3 ) CK( mp == 1 + ( to - 1 - i ) + from, "usermap", "<%s> has user index %d", l.c_str(), mp );
      }
      if( how == 2 ) CK( o->gdxDataWriteDone(), "done", "DataWriteDone failed" );
      else
         CK( o->gdxUELRegisterDone(), "done", "RegisterDone failed" );
   };
   run( 0, n );
   if( renAt )
   {
      size_t i = renAt == 1 ? 0 : renAt == 2 ? m.t.size() / 2 : m.t.size() - 1;
      ren( c, o, m, upper( m.t[i] ), "renamed one" );
      ren( c, o, m, "renamed one", nm( 180000 ) );
   }
   if( extra ) run( n, n + ( extra == 1 ? 1 : 600 ) );
   if( renAt ) ren( c, o, m, m.t[0], "Renamed two" );
   checkTable( c, o, m, { "nosuch", "e0x", nm( 190000 ) }, n < 2000 );
   c.note( fmt( "%d elements", n ) );
   c.step( (uint64_t) m.t.size() );
   c.state( mc::mix( mc::mix( (uint64_t) n, (uint64_t) how ), mc::mix( (uint64_t) extra, (uint64_t) ( shape * 4 + renAt ) ) ) );
   // reading side: rename before any lookup, register in reading mode
   CK( o->gdxClose() == 0, "close", "close failed" );
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen" );
   if( renAt == 1 ) ren( c, r, m, m.t.back(), "Renamed three" );
   checkTable( c, r, m, { "nosuch", nm( 190000 ) }, n < 2000 );
   CK( r->gdxUELRegisterStrStart(), "start", "RegisterStrStart refused while reading" );
   for( int i = 0; i < 3; i++ )
   {
      int nr;
      CK( r->gdxUELRegisterStr( i == 1 ? m.t[0].c_str() : nm( 195000 + i ).c_str(), nr ) && nr == i + 1, "regstr", "user index %d", nr );
      m.add( i == 1 ? m.t[0] : nm( 195000 + i ) );
   }
   CK( r->gdxUELRegisterDone(), "done", "RegisterDone refused" );
   checkTable( c, r, m, { "nosuch" }, n < 2000 );
   r->gdxClose();
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P04";
   d.sc = { { "labels", labels, 3, "all pairs (thorough triples) of 23 labels (case, blanks, quotes, control characters, length limits) x 3 registration ways each" },
            { "renames", renames, 3, "bases of 1-3 elements, all sequences of 2 (3) operations out of 64 renames and 8 registrations" },
            { "chains", chains, 3, "all orders of 3 labels of one hash chain and one other, all sequences of 2 renames over 6x6 labels (+ all positions of the other label in thorough mode), writing and reading, hash built or not" },
            { "growth", growth, 3, "19 (22) table sizes around growth limits up to 15001 (150001) x 4 registration ways x 3 extensions x 2 label shapes x 4 rename positions" } };
   d.assumptions = { "labels are NUL terminated byte strings; case folding is ASCII" };
   return d.main( argc, argv );
}
