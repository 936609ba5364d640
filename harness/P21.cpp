// P21: the on-disk layout.  Written files are decoded by an independent implementation of the layout (lib/layout.hpp);
// files encoded by it in every version, byte order and choice of sizes are read to the same content.
#include "layout.hpp"
#include "sessions.hpp"
using namespace lay;
#define CKL( cond, ... ) CK( cond, "layout", __VA_ARGS__ )


static string compareDecoded( const string &fn )
{
   string bytes = readBytes( fn );
   File d = decode( bytes );
   if( !d.problems.empty() ) return "the file does not follow the layout: " + d.problems[0];
   FileC got = dumpFile( fn ), want = content( d );
   if( got.compr != want.compr ) return "compression level";
   string a = show( want ), b = show( got );
   if( a != b ) return "decoded content and content read differ, " + firstDiff( a, b );
   return "";
}

// ---- written files decode
static void sessions( Ctx &c )
{
   vector<Session> v = freshSessions( true );
   size_t nf = v.size();
   for( auto &s: appendSessions( true ) ) v.push_back( s );
   int i = c.choose( (int) v.size() );
   const Session s = v[(size_t) i];
   string fn = c.path( "s.gdx" );
   c.note( s.name + ( s.compress ? " compressed" : "" ) );
   if( (size_t) i >= nf ) baseFile( fn, s.compress );
   Obj o;
   CKL( runSession( o, s, fn ), "session failed" );
   c.step();
   string e = compareDecoded( fn );
   CKL( e.empty(), "%s", e.c_str() );
   // byte order of this machine
   CKL( !decode( readBytes( fn ) ).big, "file not in the byte order of this machine" );
}

static const double VALS[] = { 0, 1, -1, 0.5, 2, 3.25, 1e300, 2e300, 3e300, 4e300, 5e300, 1e301, -0.0, 1e-310, -7e299 };
static const int NV = sizeof( VALS ) / sizeof( *VALS );

static void fillVals( Rec &r, int typ, int vi )
{
   for( int i = 0; i < nvals( typ ); i++ ) r.v[(size_t) i] = VALS[( vi + i ) % NV];
}
// all record lists of up to n keys over the lattice, ascending
static vector<Rec> chooseRecs( Ctx &c, int dim, int typ, const vector<int> &el, int maxRec, int vi )
{
   vector<Rec> r;
   if( dim == 0 )
   {
      if( typ != T_SET && c.flip() )
      {
         Rec x;
         fillVals( x, typ, vi );
         r.push_back( x );
      }
      return r;
   }
   vector<Key> keys;
   Key k( (size_t) dim, el[0] );
   // lattice over the first and the last two dimensions
   std::function<void( int )> rec = [&]( int d ) {
      if( d == dim )
      {
         keys.push_back( k );
         return;
      }
      if( d > 0 && d < dim - 1 )
      {
         k[(size_t) d] = el[(size_t) d % el.size()];
         rec( d + 1 );
         return;
      }
      for( int e: el )
      {
         k[(size_t) d] = e;
         rec( d + 1 );
      }
   };
   rec( 0 );
   std::sort( keys.begin(), keys.end() );
   size_t lo = 0;
   for( int n = 0; n < maxRec && lo < keys.size(); n++ )
   {
      int p = c.choose( (int) ( keys.size() - lo ) + 1 );
      if( p == 0 ) break;
      lo += (size_t) p - 1;
      Rec x;
      x.k = keys[lo++];
      fillVals( x, typ, vi + n );
      r.push_back( x );
   }
   return r;
}
static void writeRaw( Obj &o, Ctx &c, const char *name, int dim, int typ, const vector<Rec> &recs, int mode )
{
   int mn[20], mx[20];
   for( int d = 0; d < 20; d++ ) mn[d] = INT_MAX, mx[d] = 0;
   for( auto &r: recs )
      for( int d = 0; d < dim; d++ )
         mn[d] = std::min( mn[d], r.k[(size_t) d] ), mx[d] = std::max( mx[d], r.k[(size_t) d] );
   if( recs.empty() )
      for( int d = 0; d < 20; d++ ) mn[d] = 1, mx[d] = 1;
   if( mode == 1 )
      CKL( o->gdxDataWriteRawStartKeyBounds( name, "t", dim, typ, 0, mn, mx ), "start" );
   else
      CKL( o->gdxDataWriteRawStart( name, "t", dim, typ, 0 ), "start" );
   for( auto &r: recs )
   {
      int k[20] {};
      std::copy( r.k.begin(), r.k.end(), k );
      double v[5];
      std::copy( r.v.begin(), r.v.end(), v );
      CKL( o->gdxDataWriteRaw( k, v ), "write" );
   }
   CKL( o->gdxDataWriteDone(), "done" );
}
static void records( Ctx &c )
{
   struct T { int dim, typ; };
   auto t = c.pick( vector<T> { { 0, T_PAR }, { 0, T_VAR }, { 1, T_PAR }, { 1, T_SET }, { 2, T_PAR }, { 1, T_VAR }, { 3, T_EQU }, { 20, T_PAR } } );
   const bool cmp = c.flip();
   const int mode = t.dim ? c.choose( 2 ) : 0;
   vector<int> el = c.pick( vector<vector<int>> { { 1, 2, 5 }, { 1, 254, 255, 256 }, { 3, 257, 258 }, { 2, 65535, 65536 }, { 5, 65539, 65540, 65541 }, { 1, 100000, 2000000000 } } );
   const int vi = c.choose( c.thorough ? NV : 5 ) * ( c.thorough ? 1 : 3 );
   vector<Rec> recs = chooseRecs( c, t.dim, t.typ, el, c.thorough && t.dim < 3 ? 3 : 2, vi );
   if( t.typ == T_SET )
      for( auto &r: recs ) r.v[0] = bits( r.v[0] ) % 2;
   string fn = c.path( "r.gdx" );
   Obj o;
   int rc = 0, n = 0;
   CKL( cmp ? o->gdxOpenWriteEx( fn.c_str(), "pro", 1, rc ) : o->gdxOpenWrite( fn.c_str(), "pro", rc ), "open" );
   if( t.typ == T_SET ) o->gdxAddSetText( "text", n );
   writeRaw( o, c, "sym", t.dim, t.typ, recs, mode );
   CKL( o->gdxClose() == 0, "close" );
   c.step();
   File d = decode( readBytes( fn ) );
   CKL( d.problems.empty(), "the file does not follow the layout: %s", d.problems[0].c_str() );
   CKL( d.syms.size() == 1 && d.syms[0].name == "sym" && d.syms[0].text == "t" && d.syms[0].dim == t.dim && d.syms[0].type == t.typ, "symbol decoded wrongly" );
   auto &y = d.syms[0];
   CKL( y.count == (int) recs.size(), "record count %d instead of %zu", y.count, recs.size() );
   string a = showRecs( recs, nvals( t.typ ) ), b = showRecs( y.recs, nvals( t.typ ) );
   // positive values of an acronym and beyond are kept, tiny numbers and the sign of zero follow the library's rules for values
   auto norm = []( vector<Rec> r ) {
      for( auto &x: r )
         for( auto &v: x.v )
         {
            if( v == 0 || std::fabs( v ) < 2.2250738585072014e-308 ) v = 0;
         }
      return r;
   };
   a = showRecs( norm( recs ), nvals( t.typ ) );
   b = showRecs( norm( y.recs ), nvals( t.typ ) );
   CKL( a == b, "written %s but the file contains %s", a.c_str(), b.c_str() );
   CKL( d.producer == "pro" && d.compr == ( cmp ? 1 : 0 ), "header" );
}

// ---- encoded files are read
static string compareRead( Ctx &c, const File &f, int readMode = 0 )
{
   string fn = c.path( "e.gdx" );
   string bytes = encode( f );
   writeBytes( fn, bytes );
   Obj o;
   int rc = 0;
   FileC want = content( f );
   if( !o->gdxOpenReadEx( fn.c_str(), readMode, rc ) || rc ) return fmt( "cannot be opened, error %d", rc );
   FileC got = dumpOpen( *o );
   if( f.version < 7 )// old files: the position of the change is not defined for scalars
      for( auto &y: got.syms )
         if( y.dim == 0 ) y.problems.clear();
   int e = o->gdxGetLastError();
   char au[256], pr[256];
   o->gdxFileVersion( au, pr );
   o->gdxClose();
   if( e ) return fmt( "error %d while reading", e );
   if( string( au ) != f.audit ) return fmt( "audit line is '%s'", au );
   if( got.compr != ( f.version > 5 ? f.compr : 0 ) ) return fmt( "compression level %d", got.compr );
   string a = show( want ), b = show( got );
   if( a != b ) return "content read differs, " + firstDiff( a, b );
   if( readBytes( fn ) != bytes ) return "reading changed the file";
   return "";
}
static void setWidth( Sym &y, int w )
{
   static const int range[] = { 0, 255, 256, 65535, 65536, INT_MAX };
   if( !w ) return;
   for( int d = 0; d < y.dim; d++ )
   {
      int lo = INT_MAX;
      for( auto &r: y.recs ) lo = std::min( lo, r.k[(size_t) d] );
      if( y.recs.empty() ) lo = 1;
      if( lo > 0 && w == 5 ) y.bounds.push_back( { 0, INT_MAX } );
      else
         y.bounds.push_back( { lo, lo + range[w] - 1 } );
   }
}
static void encRecords( Ctx &c )
{
   File f;
   f.version = c.pick( vector<int> { 7, 6, 5 } );
   f.big = c.flip();
   int z = f.version > 5 ? c.choose( 3 ) : 0;
   f.compr = z ? 1 : 0;
   f.storedBlocks = z == 2;
   f.keyPolicy = c.choose( 2 ) * 2;
   f.plainValues = c.flip();
   struct T { int dim, typ; };
   auto t = c.pick( vector<T> { { 0, T_PAR }, { 1, T_PAR }, { 2, T_PAR }, { 1, T_VAR }, { 2, T_EQU }, { 10, T_PAR }, { 1, T_SET } } );
   Sym y;
   y.name = "sym";
   y.text = "about it";
   y.dim = t.dim;
   y.type = t.typ;
   y.user = t.typ == T_VAR ? 4 : t.typ == T_EQU ? 54 : 0;
   int w = t.dim ? c.choose( 6 ) : 0;
   f.uels = { "a", "b", "c", "d" };
   vector<vector<int>> els { { 1, 2, 4 } };
   if( w == 0 || w == 5 ) els.push_back( { 1, 200, 255, 600 } ), els.push_back( { 3, 65538, 70000 } );
   vector<int> el = t.dim ? c.pick( els ) : els[0];
   int vi = c.choose( c.thorough ? 5 : 2 ) * 3;
   if( t.typ == T_SET ) f.texts = { "", "first", "second" };
   y.recs = chooseRecs( c, t.dim, t.typ, el, 2, vi );
   if( t.typ == T_SET )
   {
      int n = 0;
      for( auto &r: y.recs ) r.v[0] = ( n++ + vi ) % 3;
      y.setText = true;
   }
   // negative zero and tiny numbers are values like any other; an acronym above the others
   y.count = (int) y.recs.size();
   if( t.dim == 0 ) y.count = (int) y.recs.size();
   y.compressed = f.compr > 0;
   setWidth( y, w );
   f.syms.push_back( y );
   c.note( fmt( "version %d %s compr %d keys %d", f.version, f.big ? "big" : "little", z, f.keyPolicy ) );
   c.step();
   string e = compareRead( c, f );
   CKL( e.empty(), "%s", e.c_str() );
}
static File tables( bool v7 )
{
   File f;
   f.uels = { "one", "two words", "quote's" };
   f.texts = { "", "t1", "t2", "t1", "", "t3" };// texts stored more than once
   Sym i;
   i.name = "i";
   i.text = "a set";
   i.dim = 1;
   i.type = T_SET;
   i.setText = true;
   for( int k = 1; k <= 3; k++ )
   {
      Rec r;
      r.k = { k };
      r.v[0] = k == 1 ? 3 : k == 2 ? 0 : 5;
      i.recs.push_back( r );
   }
   i.count = 3;
   if( v7 ) i.comments = { "first comment", "" };
   Sym ii;
   ii.name = "ii";
   ii.type = T_ALIAS;
   ii.dim = 1;
   ii.user = 1;
   ii.text = "Aliased with i";
   Sym u = ii;
   u.name = "univ";
   u.user = 0;
   u.text = "Aliased with *";
   Sym p;
   p.name = "p";
   p.dim = 2;
   p.text = "";
   p.user = 0;
   p.hasDom = v7;
   p.dom = { 1, 0 };
   for( int k = 1; k <= 2; k++ )
   {
      Rec r;
      r.k = { k, 4 - k };
      r.v[0] = k == 1 ? 7 * 1e301 : 12.5;
      p.recs.push_back( r );
   }
   p.count = 2;
   Sym q = p;
   q.name = "q";
   q.hasDom = false;
   q.domStr = { 2, 0 };
   q.errors = 3;
   q.text = string( 255, 'l' );
   Sym d3 = ii;
   d3.name = "iii";
   d3.user = 2;
   d3.text = "Aliased with ii";
   Sym w;
   w.name = "w";
   w.dim = 2;
   w.type = T_SET;
   w.setText = true;
   for( int k = 0; k < 6; k++ )
   {
      Rec r;
      r.k = { 1 + k / 3, 1 + k % 3 };
      r.v[0] = vector<int> { 3, 5, 1, 0, 3, 2 }[(size_t) k];// every text, whether the first change is in the first index or not
      w.recs.push_back( r );
   }
   w.count = 6;
   Sym w3 = w, w10 = w;
   w3.name = "w3";
   w3.dim = 3;
   for( auto &r: w3.recs ) r.k = { 2, r.k[0], r.k[1] };
   w10.name = "w10";
   w10.dim = 10;
   for( auto &r: w10.recs ) r.k = { r.k[0], 1, 2, 3, 1, 2, 3, 1, 2, r.k[1] };
   f.syms = { i, ii, u, p, q, d3, w, w3, w10 };
   f.domStrs = { "unused", "dom" };
   f.acr = { { "seven", "acronym text", 7 }, { "eight", "", 8 } };
   return f;
}
static void encTables( Ctx &c )
{
   int ver = c.pick( vector<int> { 7, 6, 5 } );
   File f = tables( ver == 7 );
   f.version = ver;
   f.big = c.flip();
   int z = f.version > 5 ? c.choose( 3 ) : 0;
   f.compr = z ? 1 : 0;
   f.storedBlocks = z == 2;
   int symz = z ? c.choose( 3 ) : 0;// which symbols are compressed
   for( size_t i = 0; i < f.syms.size(); i++ ) f.syms[i].compressed = z && ( symz == 0 || ( symz == 1 && i % 2 ) );
   f.blockSize = z ? c.pick( vector<size_t> { 32768, 1, 7, 100 } ) : 32768;
   if( f.blockSize == 1 && !f.storedBlocks ) c.prune();
   f.pad = c.pick( vector<int> { 0, 5 } );
   f.audit2001 = c.flip();
   if( f.audit2001 ) f.audit = string( "GDX Library    " ) + "2001 very old";
   if( ver == 7 )
   {
      f.noDomSection = c.flip();
      if( f.noDomSection ) f.syms[4].domStr.clear();
   }
   switch( c.choose( 6 ) )
   {
      case 1: f.uels.clear(); for( auto &y: f.syms ) if( y.type != T_ALIAS ) y.recs.clear(), y.count = 0; break;
      case 2: f.texts = { "", "a", "b", "c", "d", "e" }; break;
      case 3: f.texts = { "", "same", "same", "same", "same", "same" }; break;
      case 4: f.acr.clear(); break;
      case 5: f.producer = string( 255, 'P' ); f.uels[1] = string( 63, 'u' ); f.syms[3].name = string( 63, 's' ); break;
      default: break;
   }
   c.step();
   string e = compareRead( c, f );
   CKL( e.empty(), "%s", e.c_str() );
}
static void encOrder( Ctx &c )
{
   File f = tables( true );
   f.big = c.flip();
   f.compr = c.flip();
   for( auto &y: f.syms ) y.compressed = f.compr > 0;
   // the sections behind the data may come in any order
   auto p = perms( 5 );
   auto &q = p[(size_t) c.choose( (int) p.size() )];
   f.order = { 0 };
   for( int x: q ) f.order.push_back( x + 1 );
   c.step();
   string e = compareRead( c, f );
   CKL( e.empty(), "%s", e.c_str() );
}
// labels by the thousand, records crossing blocks, in both byte orders
static void encBulk( Ctx &c )
{
   File f;
   f.version = c.pick( vector<int> { 7, 6, 5 } );
   f.big = c.flip();
   int z = f.version > 5 ? c.choose( 3 ) : 0;
   f.compr = z ? 1 : 0;
   f.storedBlocks = z == 2;
   f.keyPolicy = c.choose( 2 ) * 2;
   const int n = c.pick( vector<int> { 3000, 70000 } );
   if( n > 3000 && !c.thorough && ( f.keyPolicy || z == 2 ) ) c.prune();
   for( int i = 1; i <= n; i++ ) f.uels.push_back( fmt( "u%d", i ) );
   Sym y;
   y.name = "b";
   y.dim = 2;
   y.compressed = f.compr > 0;
   for( int i = 1; i <= n; i += n > 3000 ? 9 : 1 )
   {
      Rec r;
      r.k = { ( i + 99 ) / 100, i };
      r.v[0] = i % 7 == 0 ? 0.5 : 1.0 / i;
      y.recs.push_back( r );
   }
   y.count = (int) y.recs.size();
   f.syms.push_back( y );
   c.step();
   string e = compareRead( c, f );
   CKL( e.empty(), "%s", e.c_str() );
}

// values that this library does not store itself: acronyms missing in the table, infinities of the machine
static void encValues( Ctx &c )
{
   static const double inf = std::numeric_limits<double>::infinity();
   static const vector<double> VV { 7e301, 9e301, 1e301, 8e301, inf, -inf, -9e301, 1.5 };
   File f;
   f.version = c.pick( vector<int> { 7, 6, 5 } );
   f.big = c.flip();
   f.uels = { "a", "b", "c" };
   if( c.flip( "table" ) ) f.acr = { { "seven", "text", 7 } };
   Sym y;
   y.name = "p";
   y.dim = 1;
   for( int k = 1; k <= 3; k++ )
   {
      Rec r;
      r.k = { k };
      r.v[0] = c.pick( VV, "value" );
      y.recs.push_back( r );
   }
   y.count = 3;
   f.syms.push_back( y );
   int next = c.pick( vector<int> { 0, 20, 7 }, "next automatic" );
   string fn = c.path( "v.gdx" );
   writeBytes( fn, encode( f ) );
   Obj o;
   int rc = 0, n, df;
   CKL( o->gdxOpenRead( fn.c_str(), rc ), "open %d", rc );
   int start = next;
   if( next ) o->gdxAcronymNextNr( next );
   std::map<int, int> map;
   for( int pass = 0; pass < 2; pass++ )
   {
      CKL( o->gdxDataReadRawStart( 1, n ) && n == 3, "start" );
      for( int k = 0; k < 3; k++ )
      {
         int e[20];
         double v[5];
         CKL( o->gdxDataReadRaw( e, v, df ) && e[0] == k + 1, "record %d", k + 1 );
         double w = y.recs[(size_t) k].v[0];
         if( w == inf ) w = 3e300;
         else if( w >= 1e301 )
         {
            int i = (int) std::lround( w / 1e301 );
            if( start )
            {
               if( !map.count( i ) ) map[i] = next++;
               i = map[i];
            }
            w = i * 1e301;
         }
         c.note( fmt( "pass %d record %d: %s", pass, k + 1, showVal( v[0] ).c_str() ) );
         CKL( v[0] == w, "value %s is read as %s, expected %s", showVal( y.recs[(size_t) k].v[0] ).c_str(), showVal( v[0] ).c_str(), showVal( w ).c_str() );
      }
      CKL( o->gdxDataReadDone(), "done" );
   }
   CKL( o->gdxErrorCount() == 0, "error" );
   o->gdxClose();
   c.step();
}

// ---- refused
static void foreign( Ctx &c )
{
   File f = tables( true );
   f.big = c.flip();
   string b = encode( f );
   const int ver = 19 + 1 + 8;// offset of the version: three patterns, header byte, header text
   int expect = 0;
   switch( c.choose( 8 ) )
   {
      case 0:// versions to come
         f.version = c.pick( vector<int> { 8, 9, 71, 255, 256, 0x07000000, INT_MAX } );
         {
            Out o;
            o.big = f.big;
            o.i32( f.version );
            b.replace( (size_t) ver - 2, 4, o.b );
         }
         expect = -100033;
         break;
      case 1:
      {// header number
         int x = c.choose( 256 );
         if( x == 123 ) c.prune();
         b[17] = (char) x;
         break;
      }
      case 2:
      {// header text, character by character
         int i = c.choose( 8 ), x = c.choose( 256 );
         if( std::tolower( x ) == std::tolower( (unsigned char) b[(size_t) ( 18 + i )] ) ) c.prune();
         if( i == 0 ) x = x;
         b[(size_t) ( 18 + i )] = (char) x;
         break;
      }
      case 3:
      {// sizes of the basic types
         int at = c.pick( vector<int> { 0, 3, 8 } ), x = c.choose( 256 );
         if( (unsigned char) b[(size_t) at] == x ) c.prune();
         b[(size_t) at] = (char) x;
         break;
      }
      case 4:
      {// patterns: any other byte
         int at = c.pick( vector<int> { 1, 2, 4, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 16 } ), x = c.choose( 256 );
         if( (unsigned char) b[(size_t) at] == x ) c.prune();
         b[(size_t) at] = (char) x;
         break;
      }
      case 5:
      {// marker of the index
         size_t at = 18 + 8 + 8 + 1 + f.audit.size() + 1 + f.producer.size() + (size_t) c.choose( 4 );
         int x = c.choose( 256 );
         if( (unsigned char) b[at] == x ) c.prune();
         b[at] = (char) x;
         expect = -100031;
         break;
      }
      case 6:// other kinds of files
         b = c.pick( vector<string> { "", "\x02", "GAMSGDX", string( 400, '\0' ), "PK\x03\x04" + string( 100, 'z' ), "\x1f\x8b\x08" + string( 100, 'g' ), string( "\x02\x34\x12\x04" ), "hello world, this is a text file with some lines\nand more\n", string( 3000, '\xff' ) } );
         break;
      default:
      {// one marker of a section
         const char *m[] = { "_SYMB_", "_SETT_", "_UEL_", "_ACRO_", "_DOMS_" };
         string s = m[c.choose( 5 )];
         size_t at = b.find( s );
         int second = c.choose( 2 );
         if( second ) at = b.find( s, at + 1 );
         size_t i = (size_t) c.choose( (int) s.size() );
         char x = c.pick( vector<char> { 'x', 'A', '\1' } );
         if( b[at + i] == x ) c.prune();
         b[at + i] = x;
         break;
      }
   }
   string fn = c.path( "x.gdx" ), good = c.path( "g.gdx" );
   writeBytes( fn, b );
   if( readBytes( good ).empty() ) writeBytes( good, encode( tables( true ) ) );
   Obj o;
   int rc = 0;
   int r = c.choose( 2 ) ? o->gdxOpenAppend( fn.c_str(), "me", rc ) : o->gdxOpenRead( fn.c_str(), rc );
   c.step();
   CKL( !r, "accepted" );
   CKL( rc != 0, "refused without an error number" );
   CKL( !expect || rc == expect, "error %d instead of %d", rc, expect );
   CKL( readBytes( fn ) == b, "refused file was changed" );
   CKL( o->gdxOpenRead( good.c_str(), rc ), "object not usable afterwards" );
   FileC d = dumpOpen( *o );
   o->gdxClose();
   string w = show( content( tables( true ) ) ), g = show( d );
   CKL( w == g, "%s", firstDiff( w, g ).c_str() );
}
// appending to a file of another writer: either the result has old and new content, or it is refused and unchanged
static void appendForeign( Ctx &c )
{
   int ver = c.pick( vector<int> { 7, 6, 5 } );
   File f = tables( ver == 7 );
   f.version = ver;
   f.big = c.flip();
   f.compr = ver > 5 && c.flip();
   f.pad = c.choose( 2 ) * 5;
   if( ver == 7 && c.flip() ) f.noDomSection = true, f.syms[4].domStr.clear();
   bool dups = c.flip();
   if( !dups ) f.texts = { "", "a", "b", "c", "d", "e" };
   for( auto &y: f.syms ) y.compressed = f.compr > 0;
   string fn = c.path( "a.gdx" );
   string b = encode( f );
   writeBytes( fn, b );
   vector<vector<Call>> what { {}, { cStr( "n", 1, T_PAR, 0, { { "one" }, { "new" } }, { { 5 }, { 6 } } ) }, { cStr( "n", 2, T_SET, 0, { { "one", "x" } }, {}, {}, { "new text" } ), cAlias( "n", "nn" ) }, { cAcronym( "nine", 9 ), cRelaxed( 4, { "r", "s" } ) } };
   int wi = c.choose( (int) what.size() );
   auto &calls = what[(size_t) wi];
   FileC before = dumpFile( fn );
   Obj o;
   int rc = 0;
   int r = o->gdxOpenAppend( fn.c_str(), "me", rc );
   c.step();
   if( !r || rc )
   {
      c.outcome( 1 );
      o->gdxClose();
      CKL( ver < 7 || f.big || dups, "appending refused with error %d", rc );
      CKL( !r && rc, "appending refused without error number" );
      CKL( readBytes( fn ) == b, "refused file was changed" );
      return;
   }
   CKL( ver == 7, "appending accepted for version %d", ver );
   for( auto &x: calls ) CKL( x( o ), "call failed while appending, error %d", o->gdxGetLastError() );
   CKL( o->gdxClose() == 0, "close failed" );
   c.outcome( 2 );
   FileC after = dumpFile( fn );
   // everything from before is still there
   FileC cut = after;
   CKL( after.ok, "file not readable after appending: error %d", after.err );
   CKL( after.syms.size() >= before.syms.size() && after.uels.size() >= before.uels.size() && after.acr.size() >= before.acr.size(), "symbols or labels lost" );
   cut.syms.resize( before.syms.size() );
   cut.uels.resize( before.uels.size() );
   cut.acr.resize( before.acr.size() );
   if( wi == 3 ) cut.syms[3].domRes = before.syms[3].domRes, cut.syms[3].dom = before.syms[3].dom, cut.syms[3].domNr = before.syms[3].domNr;
   // the universe has grown
   cut.syms[2].recs = before.syms[2].recs;
   cut.syms[2].startCnt = before.syms[2].startCnt;
   string x = show( before ), y = show( cut );
   CKL( x == y, "content from before the append changed, %s", firstDiff( x, y ).c_str() );
   CKL( after.problems.empty(), "%s", after.problems[0].c_str() );
   for( auto &s: after.syms ) CKL( s.problems.empty(), "%s: %s", s.name.c_str(), s.problems[0].c_str() );
   string e = compareDecoded( fn );
   CKL( e.empty(), "%s", e.c_str() );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P21";
   d.sc.push_back( { "sessions", sessions, 3, "every write and append session of lib/sessions.hpp, decoded by the independent decoder" } );
   d.sc.push_back( { "records", records, 3, "8 shapes x 6 sets of element numbers around 255/256/65535/65536 x compression x bounds x all record lists of up to 2 (3) keys, decoded" } );
   d.sc.push_back( { "encoded records", encRecords, 3, "versions 5,6,7 x byte order x block kind x key coding x value coding x 6 element sizes x 7 shapes x all record lists of up to 2 keys, read through the API" } );
   d.sc.push_back( { "encoded tables", encTables, 3, "versions x byte order x block kind and size x padding x quirk of 2001 x missing domain section x contents of the tables" } );
   d.sc.push_back( { "encoded values", encValues, 3, "all triples of 8 values (acronyms in and not in the table, infinities) x version x byte order x automatic numbering, read twice" } );
   d.sc.push_back( { "order of sections", encOrder, 3, "all 120 orders of the sections x byte order x compression" } );
   d.sc.push_back( { "encoded bulk", encBulk, 3, "3000 and 70000 labels, records over many blocks, versions x byte order x block kind x key coding" } );
   d.sc.push_back( { "foreign", foreign, 3, "every single byte change in sizes, patterns, header and index marker, other versions, other file kinds, each marker" } );
   d.sc.push_back( { "append to foreign", appendForeign, 3, "versions x byte order x compression x layout x duplicate texts x 4 append sessions" } );
   return d.main( argc, argv );
}
