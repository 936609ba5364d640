// P12: set element texts stay attached to their elements; text identifiers and node numbers are kept.
#include "gdxh.hpp"
using namespace gh;

static string good( string s )
{
   if( s.size() > 255 ) s.resize( 255 );
   char q = 0;
   for( auto &ch: s )
   {
      if( ch == '"' || ch == '\'' )
      {
         if( !q ) q = ch;
         ch = q;
      }
      else if( (unsigned char) ch < ' ' )
         ch = '?';
   }
   return s;
}
static const vector<string> &palette()
{
   static const vector<string> p { "", "t", "T", "t ", "it's \"so\"", string( 255, 'x' ), "\"q\"'", " t", string( 254, 'x' ) + "y", string( 300, 'z' ), "?", "a\tb", "0", "\xc3\xa4\xff", string( 255, 'x' ) + "tail" };
   return p;
}

struct Texts
{
   vector<string> t { "" };
   vector<int> node { 0 };
   int find( const string &s ) const
   {
      for( size_t i = 0; i < t.size(); i++ )
         if( t[i] == s ) return (int) i;
      return -1;
   }
   int add( const string &s )
   {
      int i = find( s );
      if( i >= 0 ) return i;
      t.push_back( s );
      node.push_back( 0 );
      return (int) t.size() - 1;
   }
};
static void checkTexts( Ctx &c, Obj &o, const Texts &m, const char *when )
{
   for( int i = -2; i <= (int) m.t.size() + 1; i++ )
   {
      char b[256];
      memset( b, '~', 255 );
      b[255] = 0;
      int nd = -99;
      int r = o->gdxGetElemText( i, b, nd );
      if( i < 0 || i >= (int) m.t.size() )
         CK( !r && nd == 0 && b == fmt( "?Str__%d", i ), "text-range", "%s: GetElemText(%d) of %zu gives %d <%s> %d", when, i, m.t.size(), r, b, nd );
      else
         CK( r && m.t[(size_t) i] == b && nd == m.node[(size_t) i], "text", "%s: GetElemText(%d) gives %d <%s> node %d, expected <%s> node %d", when, i, r, b, nd, m.t[(size_t) i].c_str(), m.node[(size_t) i] );
   }
}

struct El
{
   Key k;
   string text;
};
static const char *LB[] = { "", "i1", "i2", "i3", "i4" };

static void writeSet( Ctx &c, Obj &o, const char *name, int dim, const vector<El> &els, int mode, Texts &m )
{
   CK( mode == 0 ? o->gdxDataWriteRawStart( name, "", dim, T_SET, 0 ) : mode == 1 ? o->gdxDataWriteStrStart( name, "", dim, T_SET, 0 ) : o->gdxDataWriteMapStart( name, "", dim, T_SET, 0 ), "setup", "start" );
   for( auto &e: els )
   {
      int nr = -1;
      double v[5] = {};
      if( !e.text.empty() || mode == 2 )
      {
         CK( o->gdxAddSetText( e.text.c_str(), nr ), "add", "AddSetText fails" );
         int w = m.add( good( e.text ) );
         CK( nr == w, "id", "AddSetText(%.20s) gives %d, expected %d", e.text.c_str(), nr, w );
         v[0] = nr;
      }
      int k[20] = {};
      std::copy( e.k.begin(), e.k.end(), k );
      vector<string> ks;
      for( int x: e.k ) ks.push_back( LB[x] );
      KeyIn ki( ks );
      CK( mode == 0 ? o->gdxDataWriteRaw( k, v ) : mode == 1 ? o->gdxDataWriteStr( ki.get(), v ) : o->gdxDataWriteMap( k, v ), "setup", "write" );
   }
   CK( o->gdxDataWriteDone(), "setup", "done" );
}
static vector<Vals> fastV;
static vector<Key> fastK;
static int fastDim;
static void cbFast( const int *k, const double *v )
{
   fastK.push_back( Key( k, k + fastDim ) );
   fastV.push_back( { v[0], 0, 0, 0, 0 } );
}
static void readSet( Ctx &c, Obj &o, int sy, int dim, vector<El> els, int mode )
{
   std::sort( els.begin(), els.end(), []( const El &a, const El &b ) { return a.k < b.k; } );
   static const char *NM[] = { "raw", "string", "mapped", "expanded", "fast" };
   vector<std::pair<Key, double>> got;
   int n, df;
   if( mode == 4 )
   {
      fastK.clear();
      fastV.clear();
      fastDim = dim;
      CK( o->gdxDataReadRawFast( sy, cbFast, n ), "read", "start" );
      for( size_t i = 0; i < fastK.size(); i++ ) got.push_back( { fastK[i], fastV[i][0] } );
   }
   else
   {
      int act[20];
      for( auto &a: act ) a = -1;
      CK( mode == 0 ? o->gdxDataReadRawStart( sy, n ) : mode == 1 ? o->gdxDataReadStrStart( sy, n ) : mode == 2 ? o->gdxDataReadMapStart( sy, n ) : o->gdxDataReadFilteredStart( sy, act, n ), "read", "start" );
      while( true )
      {
         int k[20];
         double v[5];
         KeyBuf kb;
         if( !( mode == 0 ? o->gdxDataReadRaw( k, v, df ) : mode == 1 ? o->gdxDataReadStr( kb.get(), v, df ) : o->gdxDataReadMap( 0, k, v, df ) ) ) break;
         if( mode == 1 )
            for( int d = 0; d < dim; d++ )
               for( int e = 1; e <= 4; e++ )
                  if( !strcmp( LB[e], kb.ptr[d] ) ) k[d] = e;
         got.push_back( { Key( k, k + dim ), v[0] } );
      }
      o->gdxDataReadDone();
   }
   CK( got.size() == els.size(), "records", "%s read: %zu of %zu elements", NM[mode], got.size(), els.size() );
   bool any = false;
   for( size_t i = 0; i < els.size(); i++ )
   {
      CK( got[i].first == els[i].k, "key", "%s read: element %s", NM[mode], showKey( got[i].first ).c_str() );
      string want = good( els[i].text );
      any = any || !want.empty();
      if( want.empty() )
      {
         CK( got[i].second == 0.0, "text-nr", "%s read: element %s without text has text number %g", NM[mode], showKey( els[i].k ).c_str(), got[i].second );
         continue;
      }
      char b[256];
      int nd;
      CK( o->gdxGetElemText( (int) got[i].second, b, nd ) && want == b, "attached", "%s read: element %s has text number %g <%s>, expected <%s>", NM[mode], showKey( els[i].k ).c_str(), got[i].second, b, want.c_str() );
      CK( nd == 0, "node", "node number %d was never set", nd );
   }
   CK( ( o->gdxSetHasText( sy ) != 0 ) == any, "hastext", "SetHasText is %d", o->gdxSetHasText( sy ) );
}

// ---- all assignments of texts to elements
static void assign( Ctx &c )
{
   int shape = c.choose( 2, "shape" );
   vector<Key> keys = shape == 0 ? vector<Key> { { 1 }, { 2 }, { 4 } } : vector<Key> { { 1, 2 }, { 1, 4 }, { 3, 1 } };
   int np = c.thorough ? (int) palette().size() : 8;
   vector<El> els, els2;
   for( auto &k: keys ) els.push_back( { k, palette()[(size_t) c.choose( np, "text" )] } );
   for( auto &k: keys ) els2.push_back( { { k[0] }, els[els2.size() == 0 ? 2 : els2.size() - 1].text } );
   std::set<int> seen;
   vector<El> q;
   for( auto &e: els2 )
      if( seen.insert( e.k[0] ).second ) q.push_back( e );
   els2 = q;
   int wm = c.choose( 3, "write mode" ), comp = wm == 1;
   if( wm == 2 ) std::reverse( els.begin(), els.end() );
   string fn = c.path( "a.gdx" );
   Texts m;
   {
      Obj o;
      int rc;
      CK( o->gdxOpenWriteEx( fn.c_str(), "p12", comp, rc ), "setup", "open" );
      o->gdxUELRegisterMapStart();
      for( int i = 1; i <= 4; i++ ) o->gdxUELRegisterMap( i, LB[i] );
      o->gdxUELRegisterDone();
      writeSet( c, o, "s", shape + 1, els, wm, m );
      writeSet( c, o, "r", 1, els2, ( wm + 1 ) % 3 == 0 ? 1 : wm, m );
      o->gdxAddAlias( "al", "s" );
      checkTexts( c, o, m, "writing" );
      CK( o->gdxClose() == 0, "setup", "close" );
   }
   c.note( fmt( "shape %d mode %d %zu texts", shape, wm, m.t.size() ) );
   Obj o;
   int rc;
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "cannot be opened" );
   o->gdxUELRegisterMapStart();
   for( int i = 1; i <= 4; i++ ) o->gdxUELRegisterMap( i, LB[i] );
   o->gdxUELRegisterDone();
   checkTexts( c, o, m, "reading" );
   for( int rm = 0; rm < 5; rm++ )
   {
      readSet( c, o, 1, shape + 1, els, rm );
      readSet( c, o, 2, 1, els2, 4 - rm );
   }
   int n, df, k[20];
   double v[5];
   CK( o->gdxDataReadRawStart( 3, n ) && n == 3 && o->gdxDataReadRaw( k, v, df ), "alias", "reading the alias" );
   o->gdxDataReadDone();
   o->gdxClose();
   // opened without texts the numbers are kept
   CK( o->gdxOpenReadEx( fn.c_str(), 1, rc ), "open", "cannot be opened without texts" );
   CK( o->gdxDataReadRawStart( 1, n ), "read", "start" );
   vector<El> so = els;
   std::sort( so.begin(), so.end(), []( const El &a, const El &b ) { return a.k < b.k; } );
   for( auto &e: so )
   {
      CK( o->gdxDataReadRaw( k, v, df ) && v[0] == ( e.text.empty() ? 0 : m.find( good( e.text ) ) ), "text-nr", "without the text table element %s has value %g", showKey( e.k ).c_str(), v[0] );
   }
   char b[256] = "x";
   int nd;
   CK( !o->gdxGetElemText( 1, b, nd ) && !b[0], "no-table", "GetElemText without a text table gives <%s>", b );
   o->gdxClose();
   c.state( mc::hashStr( fmt( "%d %d", shape, wm ) + els[0].text + "|" + els[1].text + "|" + els[2].text ) );
}

// ---- sequences of text operations
static void sequence( Ctx &c )
{
   string fn = c.path( "q.gdx" );
   Texts m;
   int depth = c.thorough ? 4 : 3;
   Obj o;
   int rc;
   CK( o->gdxOpenWrite( fn.c_str(), "p12", rc ), "setup", "open" );
   auto run = [&]( const char *when, int n ) {
      for( int i = 0; i < n; i++ )
      {
         int op = c.choose( 6 + 16, "operation" );
         if( op < 6 )
         {
            static const char *T[] = { "", "one", "ONE", "two", "\"a'", "'a'" };
            int nr = -5, w = m.add( good( T[op] ) );
            CK( o->gdxAddSetText( T[op], nr ) && nr == w, "id", "%s: AddSetText(%s) gives %d, expected %d", when, T[op], nr, w );
            c.note( fmt( "%s add <%s> = %d", when, T[op], nr ) );
         }
         else
         {
            static const int NR[] = { 0, 1, 2, 7 };
            static const int ND[] = { 5, -3, 0, INT_MAX };
            int nr = NR[( op - 6 ) / 4], nd = ND[( op - 6 ) % 4];
            bool ok = nr < (int) m.t.size() && m.node[(size_t) nr] == 0;
            int r = o->gdxSetTextNodeNr( nr, nd );
            c.note( fmt( "%s node %d = %d -> %d", when, nr, nd, r ) );
            CK( ( r != 0 ) == ok, "setnode", "%s: SetTextNodeNr(%d,%d) gives %d", when, nr, nd, r );
            if( ok ) m.node[(size_t) nr] = nd;
         }
         checkTexts( c, o, m, when );
      }
   };
   run( "writing", depth );
   for( int bad: { -1, INT_MIN, INT_MAX } ) CK( !o->gdxSetTextNodeNr( bad, 1 ), "setnode", "SetTextNodeNr(%d) succeeds", bad );
   CK( o->gdxDataWriteStrStart( "s", "", 1, T_SET, 0 ), "setup", "start" );
   for( size_t i = 0; i < m.t.size(); i++ )
   {
      KeyIn ki( { fmt( "k%zu", i ) } );
      double v[5] = { (double) i };
      CK( o->gdxDataWriteStr( ki.get(), v ), "setup", "write" );
   }
   CK( o->gdxDataWriteDone() && o->gdxClose() == 0, "setup", "close" );
   CK( !o->gdxSetTextNodeNr( 0, 1 ), "closed", "SetTextNodeNr without file" );
   int nr;
   CK( !o->gdxAddSetText( "x", nr ), "closed", "AddSetText without file" );
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "cannot be opened" );
   for( auto &x: m.node ) x = 0;// node numbers belong to the session
   checkTexts( c, o, m, "reading" );
   run( "reading", 1 );
   Texts all = m;
   int n, df, k[20];
   double v[5];
   CK( o->gdxDataReadRawStart( 1, n ), "read", "start" );
   for( int i = 0; i < n; i++ )
   {
      CK( o->gdxDataReadRaw( k, v, df ) && v[0] == i, "attached", "element %d has text number %g", i, v[0] );
   }
   o->gdxDataReadDone();
   checkTexts( c, o, all, "after reading" );
   o->gdxClose();
   c.state( mc::hashStr( c.notes.back(), m.t.size() ) );
}

// ---- many texts: table growth and hash chains
static void many( Ctx &c )
{
   static const int N[] = { 10, 99, 100, 101, 997, 9972, 9975, 10000, 19950, 20011 };
   int n = N[c.choose( c.thorough ? 10 : 8, "number" )], kind = c.choose( 3, "kind" ), comp = c.choose( 2, "compressed" );
   string fn = c.path( "m.gdx" );
   auto text = [&]( int i ) {
      if( kind == 0 ) return fmt( "text number %d", i );
      if( kind == 1 ) return string( (size_t) ( i % 250 ), (char) ( 'a' + i / 250 % 26 ) ) + fmt( "%d", i / 6500 );
      string s;// differ in case only
      for( int b = 0; b < 15; b++ ) s += (char) ( ( i >> b & 1 ? 'A' : 'a' ) + b );
      return s;
   };
   Obj o;
   int rc;
   CK( o->gdxOpenWriteEx( fn.c_str(), "p12", comp, rc ), "setup", "open" );
   std::map<string, int> ids;
   vector<int> want;
   CK( o->gdxDataWriteStrStart( "s", "", 1, T_SET, 0 ), "setup", "start" );
   for( int i = 0; i < n; i++ )
   {
      int nr = -1;
      string s = text( i );
      CK( o->gdxAddSetText( s.c_str(), nr ), "add", "fails" );
      auto it = ids.emplace( s, (int) ids.size() + 1 ).first;
      CK( nr == it->second, "id", "text %d has number %d, expected %d", i, nr, it->second );
      KeyIn ki( { fmt( "k%d", i ) } );
      double v[5] = { (double) nr };
      CK( o->gdxDataWriteStr( ki.get(), v ), "setup", "write" );
      want.push_back( nr );
      c.step();
   }
   CK( o->gdxDataWriteDone() && o->gdxClose() == 0, "setup", "close" );
   CK( o->gdxOpenRead( fn.c_str(), rc ), "open", "cannot be opened" );
   int cnt, df;
   CK( o->gdxDataReadStrStart( 1, cnt ) && cnt == n, "read", "start" );
   KeyBuf kb;
   for( int i = 0; i < n; i++ )
   {
      double v[5];
      char b[256];
      int nd;
      CK( o->gdxDataReadStr( kb.ptr, v, df ), "read", "missing" );
      CK( fmt( "k%d", i ) == kb.ptr[0] && o->gdxGetElemText( (int) v[0], b, nd ) && text( i ) == b, "attached", "element %s has text <%s>, expected <%s>", kb.ptr[0], b, text( i ).c_str() );
      c.step();
   }
   o->gdxClose();
   c.note( fmt( "%d texts of kind %d, %zu different", n, kind, ids.size() ) );
   c.state( (uint64_t) ( n * 6 + kind * 2 + comp ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P12";
   d.sc = { { "assign", assign, 3, "all assignments of 8 (15) texts (empty, equal, case variants, quotes, control characters, 254-300 characters) to 3 elements of a one- and a two-dimensional set plus a second set sharing texts; 3 write modes, 5 read modes, text-free opening" },
            { "sequence", sequence, 3, "all sequences of 3 (4) of 22 text registrations and node assignments while writing, one more while reading; the whole table checked after every step" },
            { "many", many, 3, "up to 10000 (20011) texts of 3 kinds around the growth limits of the table" } };
   d.assumptions = { "a node number that is set cannot be replaced, node numbers are not stored in the file" };
   return d.main( argc, argv );
}
