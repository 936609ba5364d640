// P02: record fidelity at every key distance, key range, dimension, volume and block alignment.
#include "gdxh.hpp"
using namespace gh;

struct W
{
   Ctx &c;
   Obj o;
   string fn;
   vector<Rec> model;
   int dim, type;
   W( Ctx &ctx, const char *name, int compr, const string &producer ) : c( ctx ), dim( 0 ), type( 0 )
   {
      fn = c.path( name );
      int rc;
      CK( o->gdxOpenWriteEx( fn.c_str(), producer.c_str(), compr, rc ), "open", "open for writing failed: %d", rc );
   }
   void start( const char *nm, int d, int t, const Key *mn = nullptr, const Key *mx = nullptr )
   {
      dim = d;
      type = t;
      model.clear();
      int ok = mn ? o->gdxDataWriteRawStartKeyBounds( nm, "", d, t, 0, mn->data(), mx->data() ) : o->gdxDataWriteRawStart( nm, "", d, t, 0 );
      CK( ok, "start", "DataWriteRawStart failed" );
   }
   void rec( const Key &k, const Vals &v )
   {
      CK( o->gdxDataWriteRaw( k.data(), v.data() ), "write", "record %s refused, error %d", showKey( k ).c_str(), o->gdxGetLastError() );
      Rec r;
      r.k = k;
      r.v = v;
      model.push_back( r );
      c.step();
   }
   void done() { CK( o->gdxDataWriteDone(), "done", "DataWriteDone failed" ); }
   void close()
   {
      int r = o->gdxClose();
      CK( r == 0, "close", "close reports %d", r );
   }
};

static void compare( Ctx &c, Obj &r, int sy, const vector<Rec> &model, int type, const char *what )
{
   int n;
   vector<string> pr;
   auto got = readRaw( *r, sy, n, pr, false );
   int nv = nvals( type );
   CK( pr.empty(), "order", "%s: %s", what, pr.empty() ? "" : pr[0].c_str() );
   CK( n == (int) model.size() && got.size() == model.size(), "count", "%s: wrote %zu records, start announces %d, %zu delivered", what, model.size(), n, got.size() );
   for( size_t i = 0; i < got.size(); i++ )
      CK( got[i].same( model[i], nv ), "record", "%s: record %zu is %s, written was %s", what, i + 1, showRec( got[i], nv ).c_str(), showRec( model[i], nv ).c_str() );
   c.step( got.size() );
}

static void verify( Ctx &c, const string &fn, const vector<vector<Rec>> &models, const vector<int> &types, const char *what )
{
   Obj r;
   int rc;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "%s: cannot reopen, error %d", what, rc );
   for( size_t i = 0; i < models.size(); i++ ) compare( c, r, (int) i + 1, models[i], types[i], what );
   CK( r->gdxGetLastError() == 0, "read-error", "%s: error while reading", what );
   r->gdxClose();
}

static Vals V( double x ) { return { x, x + 1, -x, 1, 0.5 }; }

// distances between consecutive keys in the last position, every dimension
static void gaps( Ctx &c )
{
   int dim = 1 + c.choose( 20, "dim" );
   int variant = c.choose( 3, "variant" );// raw, raw with bounds, compressed
   int g = 1 + c.choose( 300, "gap" );
   static const int second[] { 1, 2, 233, 234, 252, 253, 254, 255, 256, 257 };
   W w( c, "g.gdx", variant == 2, "p" );
   Key k( (size_t) dim, 3 );
   Key mn( (size_t) dim, 3 ), mx( (size_t) dim, 4 );
   mx.back() = 3 + g + 2000;
   // mx must cover every key below
   w.start( "s", dim, T_PAR, variant == 1 ? &mn : nullptr, variant == 1 ? &mx : nullptr );
   w.rec( k, V( 7 ) );
   k.back() += g;
   w.rec( k, V( 8 ) );
   for( int s: second )
   {
      if( k.back() + s > 3 + g + 2000 ) break;
      k.back() += s;
      w.rec( k, V( s + 0.25 ) );
   }
   if( dim > 1 )
   {// then a change in the position before the last, and a small step again
      k[(size_t) dim - 2] = 4;
      k.back() = 3;
      w.rec( k, V( 9 ) );
      k.back() += g;
      w.rec( k, V( 10 ) );
   }
   w.done();
   w.close();
   c.note( fmt( "dim %d variant %d gap %d", dim, variant, g ) );
   verify( c, w.fn, { w.model }, { T_PAR }, "gaps" );
   c.state( mc::mix( (uint64_t) dim * 1000 + (uint64_t) g, (uint64_t) variant ) );
}

// first changed position and key sizes
static void positions( Ctx &c )
{
   int dim = 1 + c.choose( 20, "dim" );
   int p = c.choose( dim, "changed position" );
   int type = c.choose( 4, "type" );
   int tail = c.choose( 3, "tail" );// later positions smaller / same / greater
   static const vector<int> steps { 1, 200, 255, 256, 70000 };
   int st = steps[(size_t) c.choose( (int) steps.size(), "step" )];
   bool compr = c.flip( "compress" );
   W w( c, "p.gdx", compr, "prod" );
   w.start( "s", dim, type );
   Key k( (size_t) dim, 300 );
   auto val = [&]( double x ) { return type == T_SET ? Vals {} : V( x ); };
   w.rec( k, val( 1 ) );
   k[(size_t) p] += st;
   for( int d = p + 1; d < dim; d++ ) k[(size_t) d] = tail == 0 ? 1 : tail == 1 ? 300 : 301 + d;
   w.rec( k, val( 2 ) );
   k.back() += 1;
   w.rec( k, val( 3 ) );
   w.done();
   w.close();
   c.note( fmt( "dim %d pos %d type %d tail %d step %d", dim, p, type, tail, st ) );
   verify( c, w.fn, { w.model }, { type }, "positions" );
   c.state( mc::mix( (uint64_t) ( dim * 32 + p ), (uint64_t) ( st * 16 + type * 4 + tail ) ) );
}

static const vector<int> SPANS { 1, 2, 127, 128, 253, 254, 255, 256, 257, 258, 32767, 32768, 65533, 65534, 65535, 65536, 65537, 65538, 1 << 20, 1 << 24 };
static const vector<int> LOWS { 1, 2, 200, 65530, 70000, 1 << 30 };

// index ranges around the size classes, with declared bounds and with the widest range
static void ranges( Ctx &c )
{
   int dim = 1 + c.choose( 3, "dim" );
   int bounds = c.choose( 3, "bounds" );// 0 none, 1 tight, 2 loose
   int span = SPANS[(size_t) c.choose( (int) SPANS.size(), "span" )];
   int low = LOWS[(size_t) c.choose( (int) LOWS.size(), "low" )];
   int span2 = dim > 1 ? SPANS[(size_t) c.choose( (int) SPANS.size(), "span2" )] : 1;
   W w( c, "r.gdx", 0, "prod" );
   vector<Key> axis;// candidate numbers per position
   auto cand = []( int lo, int sp ) {
      std::set<int> s { lo, lo + sp - 1, lo + sp / 2, lo + std::min( sp - 1, 1 ), lo + std::max( 0, sp - 2 ), lo + std::min( sp - 1, 255 ), lo + std::min( sp - 1, 256 ) };
      return Key( s.begin(), s.end() );
   };
   axis.push_back( cand( low, span ) );
   if( dim > 1 ) axis.push_back( cand( 5, span2 ) );
   if( dim > 2 ) axis.push_back( Key { 1, 2, 260 } );
   Key mn, mx;
   for( auto &a: axis )
   {
      mn.push_back( a.front() );
      mx.push_back( a.back() );
   }
   if( bounds == 2 )
      for( size_t d = 0; d < axis.size(); d++ )
      {
         mn[d] = 1;
         mx[d] = std::max( mx[d], 1 ) + ( mx[d] < ( 1 << 30 ) ? 1000 : 0 );
      }
   w.start( "s", dim, T_PAR, bounds ? &mn : nullptr, bounds ? &mx : nullptr );
   double x = 0;
   vector<size_t> ix( (size_t) dim );
   while( true )
   {
      Key k;
      for( int d = 0; d < dim; d++ ) k.push_back( axis[(size_t) d][ix[(size_t) d]] );
      w.rec( k, V( x += 1.5 ) );
      int d = dim - 1;
      while( d >= 0 && ++ix[(size_t) d] == axis[(size_t) d].size() ) ix[(size_t) d--] = 0;
      if( d < 0 ) break;
   }
   w.done();
   w.close();
   c.note( fmt( "dim %d bounds %d span %d low %d span2 %d", dim, bounds, span, low, span2 ) );
   verify( c, w.fn, { w.model }, { T_PAR }, "ranges" );
   c.state( mc::mix( (uint64_t) span * 7 + (uint64_t) span2, (uint64_t) low * 9 + (uint64_t) ( dim * 3 + bounds ) ) );
}

// string / map mode: the range is computed from the elements used
static void elements( Ctx &c )
{
   static const vector<int> counts { 1, 2, 254, 255, 256, 257, 300, 65534, 65535, 65536, 65537, 65600 };
   int nu = counts[(size_t) c.choose( (int) counts.size(), "elements" )];
   int mode = c.choose( 2, "mode" );
   int lowSkip = c.choose( 3, "first used" );
   int dim = 1 + c.choose( 2, "dim" );
   Obj o;
   int rc;
   string fn = c.path( "e.gdx" );
   CK( o->gdxOpenWriteEx( fn.c_str(), "p", 0, rc ), "open", "open failed" );
   o->gdxUELRegisterStrStart();
   for( int i = 1; i <= nu; i++ )
   {
      int nr = 0;
      CK( o->gdxUELRegisterStr( fmt( "u%d", i ).c_str(), nr ) && nr == i, "register", "element %d registered as %d", i, nr );
   }
   o->gdxUELRegisterDone();
   c.step( (uint64_t) nu );
   std::set<int> use;
   int lo = lowSkip == 0 ? 1 : lowSkip == 1 ? std::min( 2, nu ) : std::min( 255, nu );
   for( int x: { lo, lo + 1, lo + 253, lo + 254, lo + 255, lo + 256, nu - 1, nu, nu / 2, 65535, 65536 } )
      if( x >= lo && x <= nu ) use.insert( x );
   vector<Rec> model;
   CK( mode ? o->gdxDataWriteMapStart( "s", "", dim, T_VAR, 0 ) : o->gdxDataWriteStrStart( "s", "", dim, T_VAR, 0 ), "start", "start failed" );
   vector<int> ord( use.rbegin(), use.rend() );// descending insertion
   for( int a: ord )
      for( int b: dim == 1 ? vector<int> { 0 } : vector<int> { nu, lo } )
      {
         Rec r;
         r.k = dim == 1 ? Key { a } : Key { a, b };
         if( dim == 2 && b == lo && nu == lo && !model.empty() && model.back().k == r.k ) continue;
         r.v = V( a * 2.0 + b );
         int k[20] = { a, b };
         KeyIn ki( dim == 1 ? vector<string> { fmt( "u%d", a ) } : vector<string> { fmt( "u%d", a ), fmt( "u%d", b ) } );
         CK( mode ? o->gdxDataWriteMap( k, r.v.data() ) : o->gdxDataWriteStr( ki.get(), r.v.data() ), "write", "record refused" );
         model.push_back( r );
      }
   CK( o->gdxDataWriteDone() && o->gdxDataErrorCount() == 0, "done", "DataWriteDone failed" );
   rc = o->gdxClose();
   CK( rc == 0, "close", "close reports %d", rc );
   std::sort( model.begin(), model.end(), []( auto &a, auto &b ) { return a.k < b.k; } );
   c.note( fmt( "%d elements mode %d first %d dim %d", nu, mode, lowSkip, dim ) );
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen" );
   compare( c, r, 1, model, T_VAR, "elements" );
   // string reading of the same records
   int n;
   CK( r->gdxDataReadStrStart( 1, n ) && n == (int) model.size(), "str-start", "DataReadStrStart failed" );
   KeyBuf kb;
   double v[5];
   int df;
   for( auto &m: model )
   {
      CK( r->gdxDataReadStr( kb.get(), v, df ), "str", "string reading ends early" );
      for( int d = 0; d < dim; d++ ) CK( fmt( "u%d", m.k[(size_t) d] ) == kb.ptr[d], "str-label", "label %s read, expected u%d", kb.ptr[d], m.k[(size_t) d] );
   }
   CK( !r->gdxDataReadStr( kb.get(), v, df ), "str", "string reading does not end" );
   r->gdxClose();
   c.state( mc::mix( (uint64_t) nu, (uint64_t) ( mode * 10 + lowSkip * 2 + dim ) ) );
}

static uint64_t lcg( uint64_t &s ) { return s = s * 6364136223846793005ULL + 1442695040888963407ULL; }

// data sections longer than the block buffers, at every alignment
static void blocks( Ctx &c )
{
   int align = c.choose( c.thorough ? 64 : 16, "producer length" );
   bool compr = c.flip( "compress" );
   int content = c.choose( 3, "content" );// 0 incompressible doubles, 1 repetitive, 2 one-byte values
   int size = c.choose( c.thorough ? 4 : 3, "size" );
   static const int recs[] { 700, 1700, 5000, 40000 };// 5 doubles per record: ~31 KB, ~76 KB, ~225 KB
   int n = recs[size];
   W w( c, "b.gdx", compr, string( (size_t) align, 'x' ) );
   vector<vector<Rec>> models;
   vector<int> types;
   uint64_t s = 12345;
   int wide = content == 0 ? 300 : 1;// force general changes now and then
   w.start( "first", 1, T_VAR );
   int key = 1;
   for( int i = 0; i < n; i++ )
   {
      Vals v;
      for( int f = 0; f < 5; f++ )
      {
         double d = fromBits( ( lcg( s ) >> 12 ) | 0x3ff0000000000000ULL );
         v[(size_t) f] = content == 0 ? d : content == 1 ? 3.25 : ( i + f ) % 3 == 0 ? 0.0 : ( i + f ) % 3 == 1 ? 1.0 : 2.0;
      }
      w.rec( { key }, v );
      key += i % 7 == 0 ? wide : 1;
   }
   w.done();
   models.push_back( w.model );
   types.push_back( T_VAR );
   w.start( "tiny", 0, T_PAR );
   w.rec( {}, V( 42 ) );
   w.done();
   models.push_back( w.model );
   types.push_back( T_PAR );
   w.start( "second", 2, T_PAR );
   for( int i = 0; i < n; i++ ) w.rec( { 1 + i / 50, 1 + i % 50 * 6 }, V( i * 0.5 ) );
   w.done();
   models.push_back( w.model );
   types.push_back( T_PAR );
   w.close();
   c.note( fmt( "alignment %d compressed %d content %d records %d", align, compr, content, n ) );
   verify( c, w.fn, models, types, "blocks" );
   // and in the reverse symbol order
   Obj r;
   int rc;
   CK( r->gdxOpenRead( w.fn.c_str(), rc ), "reopen", "cannot reopen" );
   for( int i = 2; i >= 0; i-- ) compare( c, r, i + 1, models[(size_t) i], types[(size_t) i], "blocks, reversed" );
   r->gdxClose();
   c.state( mc::mix( (uint64_t) align, (uint64_t) ( compr * 100 + content * 10 + size ) ) );
}

// catalogue tables (labels, texts, symbols, comments) longer than the block buffers, at every alignment
static void tables( Ctx &c )
{
   int align = c.choose( c.thorough ? 64 : 24, "producer length" );
   bool compr = c.flip( "compress" );
   int what = c.choose( 3, "which table" );
   Obj o;
   int rc;
   string fn = c.path( "t.gdx" );
   CK( o->gdxOpenWriteEx( fn.c_str(), string( (size_t) align, 'y' ).c_str(), compr, rc ), "open", "open failed" );
   vector<string> uels, texts, names, comments;
   uint64_t s = 99;
   auto word = [&]( size_t len, int i ) {
      string w = fmt( "%c%d_", 'a' + i % 26, i );
      while( w.size() < len ) w += (char) ( 'A' + ( lcg( s ) >> 40 ) % 26 );
      return w;
   };
   if( what == 0 )
   {
      o->gdxUELRegisterRawStart();
      for( int i = 0; i < 2500; i++ )
      {
         uels.push_back( word( (size_t) ( 8 + i % 56 ), i ) );
         CK( o->gdxUELRegisterRaw( uels.back().c_str() ), "register", "element refused" );
      }
      o->gdxUELRegisterDone();
   }
   if( what == 1 )
      for( int i = 0; i < 700; i++ )
      {
         texts.push_back( word( (size_t) ( 8 + i % 248 ), i ) );
         int tn;
         CK( o->gdxAddSetText( texts.back().c_str(), tn ) && tn == i + 1, "text", "text %d stored as %d", i, tn );
      }
   int nsy = what == 2 ? 600 : 3;
   for( int i = 0; i < nsy; i++ )
   {
      names.push_back( word( (size_t) ( 8 + i % 50 ), i ) );
      texts.size();
      CK( o->gdxDataWriteRawStart( names.back().c_str(), word( 100, i ).c_str(), 1, T_PAR, i ), "start", "start failed" );
      int k = i + 1;
      double v = i;
      CK( o->gdxDataWriteRaw( &k, &v ) && o->gdxDataWriteDone(), "write", "write failed" );
   }
   if( what == 2 )
      for( int i = 0; i < nsy; i++ )
      {
         comments.push_back( word( (size_t) ( 10 + i % 200 ), i ) );
         CK( o->gdxSymbolAddComment( i + 1, comments.back().c_str() ), "comment", "comment refused" );
      }
   rc = o->gdxClose();
   CK( rc == 0, "close", "close reports %d", rc );
   c.note( fmt( "table %d alignment %d compressed %d", what, align, compr ) );
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), rc ), "reopen", "cannot reopen, error %d", rc );
   char b[256];
   int m;
   for( size_t i = 0; i < uels.size(); i++ ) CK( r->gdxUMUelGet( (int) i + 1, b, m ) && uels[i] == b, "uel", "element %zu is <%s>, written <%s>", i + 1, b, uels[i].c_str() );
   for( size_t i = 0; i < texts.size(); i++ ) CK( r->gdxGetElemText( (int) i + 1, b, m ) && texts[i] == b, "settext", "text %zu is <%s>, written <%s>", i + 1, b, texts[i].c_str() );
   for( int i = 0; i < nsy; i++ )
   {
      int d, t, cnt, ui;
      CK( r->gdxSymbolInfo( i + 1, b, d, t ) && names[(size_t) i] == b, "name", "symbol %d is <%s>", i + 1, b );
      CK( r->gdxSymbolInfoX( i + 1, cnt, ui, b ) && cnt == 1 && ui == i, "infox", "symbol %d info wrong", i + 1 );
      if( what == 2 ) CK( r->gdxSymbolGetComment( i + 1, 1, b ) && comments[(size_t) i] == b, "comment", "comment of symbol %d is <%s>", i + 1, b );
      vector<Rec> model( 1 );
      model[0].k = { i + 1 };
      model[0].v[0] = i;
      compare( c, r, i + 1, model, T_PAR, "tables" );
   }
   c.step( uels.size() + texts.size() );
   r->gdxClose();
   c.state( mc::mix( (uint64_t) align, (uint64_t) ( compr * 10 + what ) ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P02";
   d.sc = {
           { "gaps", gaps, 3, "dim 1..20 x 3 write variants x every key distance 1..300, followed by all distances at the encoding limit" },
           { "positions", positions, 3, "dim 1..20 x every first changed position x 4 types x later positions smaller/equal/greater x 5 steps x compression" },
           { "ranges", ranges, 3, "dim 1..3 x key bounds none/tight/loose x 20 x 20 index spans around 1,2,4-byte limits x 6 offsets; all combinations of extreme keys" },
           { "elements", elements, 3, "12 element counts around 256 and 65536 x string/map mode x first element used" },
           { "blocks", blocks, 3, "data of 31 KB..225 KB (thorough 1.8 MB) x 16 alignments (thorough 64) x compression x 3 contents" },
           { "tables", tables, 3, "label, text, symbol and comment tables of > 64 KB x 24 alignments (thorough 64) x compression" } };
   d.assumptions = { "declared key bounds contain all keys written (documented precondition)" };
   return d.main( argc, argv );
}
