// P14: errors are reported once, first, and in text form.
// Every call of the alphabet has a documented set of error codes it records; the model keeps the first code not yet
// queried and the number of recorded errors.
#include "gdxh.hpp"
#include "apitab.hpp"
using namespace gh;

enum {
   E_NOFILE = -100000, E_BADMODE = -100002, E_BADDIM = -100003, E_BADELEM = -100004, E_BADSYM = -100005, E_DUPSYM = -100007, E_DUPDATA = -100009, E_FILTER = -100010, E_IDENT = -100012,
   E_UELCONFLICT = -100013, E_DUPSV = -100014, E_ERRREC = -100015, E_UELSTR = -100017, E_FILTNR = -100021, E_FILTINDX = -100022, E_FILTUNMAPPED = -100023, E_RAWSORT = -100025, E_ACRINDEX = -100047,
   E_ACRNUMBER = -100048, E_ACRNAME = -100049, E_ACRDUPE = -100050, E_ACRADD = -100051, E_UNKDOM = -100052, E_NODOMDATA = -100054, E_ALIAS = -100055, E_TYPE = -100056, E_NOCOMMENT = -100057, E_DOMVIOL = -100058, E_OPEN = -100059
};
struct St
{
   Obj o;
   string dir;
   int uniq {};
   int errRecs {};// error records left by the previous symbol
   string f( const char *n ) const { return dir + "/" + n; }
};
struct Op
{
   string name;
   std::function<void( Ctx &, St & )> run;
   vector<int> codes;// errors it records, in order
   int errRecs = 0;  // error records afterwards, -1: unchanged
   bool exact = true;// exactly one count per code (otherwise at least that many)
};

static void put( Ctx &c, St &s, const vector<string> &k, double v, bool ok = true )
{
   KeyIn ki( k );
   double d[5] = { v, 0, 0, 0, 0 };
   int r = s.o->gdxDataWriteStr( ki.get(), d );
   CK( (bool) r == ok, "result", "DataWriteStr of %s returns %d", k[0].c_str(), r );
}
static void start( Ctx &c, St &s, int mode, int typ = T_PAR )
{
   string n = fmt( "y%d", s.uniq );
   int r = mode == 0 ? s.o->gdxDataWriteStrStart( n.c_str(), "", 1, typ, 0 ) : mode == 1 ? s.o->gdxDataWriteRawStart( n.c_str(), "", 1, typ, 0 ) : s.o->gdxDataWriteMapStart( n.c_str(), "", 1, typ, 0 );
   CK( r, "result", "starting symbol %s fails", n.c_str() );
}
static void done( Ctx &c, St &s ) { CK( s.o->gdxDataWriteDone(), "result", "DataWriteDone fails" ); }
#define REF( call ) CK( !( call ), "result", "%s succeeds", #call )
#define OK( call ) CK( call, "result", "%s fails", #call )

static vector<Op> writeOps()
{
   vector<Op> v;
   auto a = [&]( const char *n, vector<int> codes, int er, std::function<void( Ctx &, St & )> f, bool exact = true ) { v.push_back( { n, f, codes, er, exact } ); };
   a( "good symbol", {}, 0, []( Ctx &c, St &s ) { start( c, s, 0 ); put( c, s, { "a" }, 1 ); done( c, s ); } );
   a( "duplicate record (string)", { E_DUPDATA }, 1, []( Ctx &c, St &s ) { start( c, s, 0 ); put( c, s, { "a" }, 1 ); put( c, s, { "a" }, 2 ); done( c, s ); } );
   a( "three duplicates, two keys", { E_DUPDATA, E_DUPDATA, E_DUPDATA }, 3, []( Ctx &c, St &s ) { start( c, s, 0 ); for( int i = 0; i < 3; i++ ) put( c, s, { "a" }, i ); put( c, s, { "b" }, 2 ); put( c, s, { "b" }, 2 ); done( c, s ); } );
   a( "raw record out of order", { E_RAWSORT }, 1, []( Ctx &c, St &s ) { start( c, s, 1 ); int k = 2; double d[5] = { 1 }; OK( s.o->gdxDataWriteRaw( &k, d ) ); k = 1; REF( s.o->gdxDataWriteRaw( &k, d ) ); done( c, s ); } );
   a( "raw record twice", { E_DUPDATA }, 1, []( Ctx &c, St &s ) { start( c, s, 1 ); int k = 2; double d[5] = { 1 }; OK( s.o->gdxDataWriteRaw( &k, d ) ); REF( s.o->gdxDataWriteRaw( &k, d ) ); done( c, s ); } );
   a( "mapped record with unknown index", { E_BADELEM }, 0, []( Ctx &c, St &s ) { start( c, s, 2 ); int k = 999; double d[5] = { 1 }; REF( s.o->gdxDataWriteMap( &k, d ) ); done( c, s ); } );
   a( "record with bad label", { E_UELSTR }, 0, []( Ctx &c, St &s ) { start( c, s, 0 ); put( c, s, { "\"'" }, 1, false ); done( c, s ); } );
   a( "domain violation (raw)", { E_DOMVIOL }, 1, []( Ctx &c, St &s ) { start( c, s, 1 ); KeyIn k( { "i" } ); OK( s.o->gdxSymbolSetDomain( k.get() ) ); int e = 3; double d[5] = { 1 }; REF( s.o->gdxDataWriteRaw( &e, d ) ); done( c, s ); } );
   a( "domain violations (string)", { E_DOMVIOL, E_DOMVIOL }, 2, []( Ctx &c, St &s ) { start( c, s, 0 ); KeyIn k( { "i" } ); OK( s.o->gdxSymbolSetDomain( k.get() ) ); put( c, s, { "a" }, 1 ); put( c, s, { "c" }, 1 ); put( c, s, { "d" }, 1 ); done( c, s ); } );
   a( "unknown domain", { E_UNKDOM }, 0, []( Ctx &c, St &s ) { start( c, s, 0 ); KeyIn k( { "nosuch" } ); REF( s.o->gdxSymbolSetDomain( k.get() ) ); done( c, s ); } );
   a( "parameter as domain", { E_ALIAS }, 0, []( Ctx &c, St &s ) { start( c, s, 0 ); KeyIn k( { "p" } ); REF( s.o->gdxSymbolSetDomain( k.get() ) ); done( c, s ); } );
   a( "duplicate symbol", { E_DUPSYM }, 0, []( Ctx &c, St &s ) { REF( s.o->gdxDataWriteStrStart( "P", "", 1, T_PAR, 0 ) ); } );
   a( "bad identifier", { E_IDENT }, 0, []( Ctx &c, St &s ) { REF( s.o->gdxDataWriteRawStart( "a b", "", 1, T_PAR, 0 ) ); } );
   a( "bad dimension", { E_BADDIM }, 0, []( Ctx &c, St &s ) { REF( s.o->gdxDataWriteMapStart( "zz", "", 21, T_PAR, 0 ) ); } );
   a( "bad type", { E_TYPE }, 0, []( Ctx &c, St &s ) { REF( s.o->gdxDataWriteMapStart( "zz", "", 1, 4, 0 ) ); } );
   a( "alias of two new names", { E_ALIAS }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxAddAlias( "n1", "n2" ) ); } );
   a( "alias of a parameter", { E_ALIAS }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxAddAlias( "p", "n2" ) ); } );
   a( "comment without symbol", { E_NOCOMMENT }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxSymbolAddComment( 99, "x" ) ); } );
   a( "registration conflict", { E_UELCONFLICT }, -1, []( Ctx &c, St &s ) { OK( s.o->gdxUELRegisterMapStart() ); REF( s.o->gdxUELRegisterMap( 55, "a" ) ); OK( s.o->gdxUELRegisterDone() ); } );
   a( "registration of a bad label", { E_UELSTR }, -1, []( Ctx &c, St &s ) { OK( s.o->gdxUELRegisterRawStart() ); REF( s.o->gdxUELRegisterRaw( string( 64, 'x' ).c_str() ) ); OK( s.o->gdxUELRegisterDone() ); } );
   a( "duplicate special values", { E_DUPSV }, -1, []( Ctx &c, St &s ) { double d[7] = { 1, 1, 2, 3, 4, 5, 6 }; REF( s.o->gdxSetSpecialValues( d ) ); } );
   a( "contradictory acronym", { E_ACRADD }, -1, []( Ctx &c, St &s ) { CK( s.o->gdxAcronymAdd( "acr", "", 77 ) == -1, "result", "accepted" ); } );
   a( "acronym number", { E_ACRNUMBER }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxAcronymSetInfo( 9, "q", "", 1 ) ); } );
   a( "acronym index", { E_ACRINDEX }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxAcronymSetInfo( 1, "q", "", 78 ) ); } );
   a( "acronym name", { E_DUPSYM }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxAcronymSetInfo( 1, "p", "", 3 ) ); }, false );
   a( "reading while writing", { E_BADMODE }, -1, []( Ctx &c, St &s ) { int n; REF( s.o->gdxDataReadRawStart( 1, n ) ); } );
   a( "record out of context", { E_BADMODE }, -1, []( Ctx &c, St &s ) { KeyIn k( { "a" } ); double d[5] = { 1 }; REF( s.o->gdxDataWriteStr( k.get(), d ) ); } );
   a( "done out of context", { E_BADMODE }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxDataWriteDone() ); } );
   a( "bad symbol number", { E_BADSYM }, -1, []( Ctx &c, St &s ) { int k[20]; REF( s.o->gdxSymbolGetDomain( 99, k ) ); } );
   a( "bad symbol number (X)", { E_BADSYM }, -1, []( Ctx &c, St &s ) { KeyIn k( { "a" } ); REF( s.o->gdxSymbolSetDomainX( 99, k.get() ) ); } );
   a( "open again", {}, -1, []( Ctx &c, St &s ) { int e = 0; REF( s.o->gdxOpenWrite( s.f( "other.gdx" ).c_str(), "", e ) ); CK( e == E_OPEN, "code", "opening an open object gives %d", e ); REF( s.o->gdxOpenRead( s.f( "other.gdx" ).c_str(), e ) ); CK( e == E_OPEN, "code", "opening an open object gives %d", e ); } );
   a( "queries that find nothing", {}, -1, []( Ctx &c, St &s ) { char b[256], t[256]; int n, m, d; REF( s.o->gdxSymbolInfo( 99, b, n, m ) ); REF( s.o->gdxSymbolInfoX( 99, n, m, b ) ); REF( s.o->gdxFindSymbol( "nosuch", n ) ); REF( s.o->gdxGetUEL( 999, b ) ); REF( s.o->gdxUMUelGet( 999, b, n ) ); REF( s.o->gdxUMFindUEL( "nosuch", n, m ) ); REF( s.o->gdxGetElemText( 99, b, n ) ); REF( s.o->gdxSymbolGetComment( 1, 9, b ) ); REF( s.o->gdxAcronymGetInfo( 9, b, t, d ) ); REF( s.o->gdxSetTextNodeNr( 99, 1 ) ); REF( s.o->gdxSetHasText( 99 ) ); CK( s.o->gdxRenameUEL( "nosuch", "x" ) == 2, "result", "rename" ); } );
   a( "queries that find something", {}, -1, []( Ctx &c, St &s ) { char b[256]; int n, m; OK( s.o->gdxSymbolInfo( 1, b, n, m ) ); OK( s.o->gdxFindSymbol( "p", n ) ); OK( s.o->gdxUMUelGet( 1, b, n ) ); OK( s.o->gdxGetElemText( 0, b, n ) ); OK( s.o->gdxSystemInfo( n, m ) ); OK( s.o->gdxAddSetText( "x", n ) ); OK( s.o->gdxErrorStr( E_BADMODE, b ) ); } );
   a( "error record that does not exist", { -1 }, -1, []( Ctx &c, St &s ) { int k[20]; double d[5]; REF( s.o->gdxDataErrorRecord( 12, k, d ) ); } );
   return v;
}
static vector<Op> readOps()
{
   vector<Op> v;
   auto a = [&]( const char *n, vector<int> codes, int er, std::function<void( Ctx &, St & )> f, bool exact = true ) { v.push_back( { n, f, codes, er, exact } ); };
   static int k[20], df;
   static double x[5];
   a( "good read", {}, 0, []( Ctx &c, St &s ) { int n; OK( s.o->gdxDataReadRawStart( 2, n ) ); while( s.o->gdxDataReadRaw( k, x, df ) ) {} } );
   a( "good string read", {}, 0, []( Ctx &c, St &s ) { int n; KeyBuf kb; OK( s.o->gdxDataReadStrStart( 2, n ) ); while( s.o->gdxDataReadStr( kb.get(), x, df ) ) {} OK( s.o->gdxDataReadDone() ); } );
   a( "mapped read leaving records out", {}, 2, []( Ctx &c, St &s ) { int n; OK( s.o->gdxDataReadMapStart( 2, n ) ); while( s.o->gdxDataReadMap( 0, k, x, df ) ) {} OK( s.o->gdxDataReadDone() ); } );
   a( "bad symbol number", { E_BADSYM }, 0, []( Ctx &c, St &s ) { int n; REF( s.o->gdxDataReadRawStart( 99, n ) ); CK( n == -1, "result", "count %d", n ); } );
   a( "negative symbol number", { E_BADSYM }, 0, []( Ctx &c, St &s ) { int n; REF( s.o->gdxDataReadMapStart( -1, n ) ); } );
   a( "unknown filter", { E_FILTER }, 0, []( Ctx &c, St &s ) { int n, f[20] = { 9 }; REF( s.o->gdxDataReadFilteredStart( 2, f, n ) ); } );
   a( "filter number", { E_FILTNR }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxFilterRegisterStart( 0 ) ); } );
   a( "filter index", { E_FILTINDX }, -1, []( Ctx &c, St &s ) { OK( s.o->gdxFilterRegisterStart( 3 ) ); REF( s.o->gdxFilterRegister( 999 ) ); OK( s.o->gdxFilterRegisterDone() ); } );
   a( "filter unmapped", { E_FILTUNMAPPED }, -1, []( Ctx &c, St &s ) { OK( s.o->gdxFilterRegisterStart( 3 ) ); REF( s.o->gdxFilterRegister( 2 ) ); OK( s.o->gdxFilterRegisterDone() ); } );
   a( "record out of context", { E_BADMODE }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxDataReadRaw( k, x, df ) ); } );
   a( "mapped record out of context", { E_BADMODE }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxDataReadMap( 0, k, x, df ) ); } );
   a( "slice out of context", { E_BADMODE }, -1, []( Ctx &c, St &s ) { KeyIn ki( { "" } ); int n; REF( s.o->gdxDataReadSlice( ki.get(), n, []( const int *, const double * ) {} ) ); } );
   a( "writing while reading", { E_BADMODE }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxDataWriteStrStart( "n", "", 1, 1, 0 ) ); } );
   a( "comment while reading", { E_BADMODE }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxSymbolAddComment( 1, "n" ) ); } );
   a( "domain elements, bad symbol", { E_BADSYM }, -1, []( Ctx &c, St &s ) { int n; REF( s.o->gdxGetDomainElements( 99, 1, gdx::DOMC_EXPAND, nullptr, n, nullptr ) ); } );
   a( "domain elements, bad position", { E_BADDIM }, -1, []( Ctx &c, St &s ) { int n; REF( s.o->gdxGetDomainElements( 2, 2, gdx::DOMC_EXPAND, nullptr, n, nullptr ) ); } );
   a( "domain elements, unknown filter", { E_FILTER }, -1, []( Ctx &c, St &s ) { int n; REF( s.o->gdxGetDomainElements( 2, 1, 9, nullptr, n, nullptr ) ); } );
   a( "domain elements", {}, 0, []( Ctx &c, St &s ) { int n; OK( s.o->gdxGetDomainElements( 2, 1, gdx::DOMC_EXPAND, nullptr, n, nullptr ) ); } );
   a( "registration conflict", { E_UELCONFLICT }, -1, []( Ctx &c, St &s ) { OK( s.o->gdxUELRegisterMapStart() ); REF( s.o->gdxUELRegisterMap( 55, "a" ) ); OK( s.o->gdxUELRegisterDone() ); } );
   a( "duplicate special values", { E_DUPSV }, -1, []( Ctx &c, St &s ) { double d[7] = { 1, 1, 2, 3, 4, 5, 6 }; REF( s.o->gdxSetSpecialValues( d ) ); } );
   a( "acronym remapping", { E_ACRNAME }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxAcronymSetInfo( 1, "other", "", 99 ) ); } );
   a( "acronym number", { E_ACRNUMBER }, -1, []( Ctx &c, St &s ) { int i, j, l; REF( s.o->gdxAcronymGetMapping( 9, i, j, l ) ); } );
   a( "bad symbol number (domain)", { E_BADSYM }, -1, []( Ctx &c, St &s ) { KeyBuf kb; CK( s.o->gdxSymbolGetDomainX( 99, kb.get() ) == 0, "result", "domain of symbol 99" ); } );
   a( "open again", {}, -1, []( Ctx &c, St &s ) { int e = 0; REF( s.o->gdxOpenRead( s.f( "r.gdx" ).c_str(), e ) ); CK( e == E_OPEN, "code", "opening an open object gives %d", e ); } );
   a( "queries", {}, 0, []( Ctx &c, St &s ) { char b[256]; int n, m; REF( s.o->gdxSymbolInfo( 99, b, n, m ) ); REF( s.o->gdxFindSymbol( "nosuch", n ) ); REF( s.o->gdxUMUelGet( 999, b, n ) ); OK( s.o->gdxFindSymbol( "p", n ) ); int l[20]; OK( s.o->gdxSymbIndxMaxLength( 2, l ) ); OK( s.o->gdxUMUelGet( 1, b, n ) ); } );
   a( "error record that does not exist", { -1 }, -1, []( Ctx &c, St &s ) { REF( s.o->gdxDataErrorRecordX( 12, k, x ) ); } );
   return v;
}

static void session( Ctx &c, const vector<Op> &ops, bool writing, int depth )
{
   St s;
   s.dir = c.dir;
   int rc = 0, n;
   {
      static string made;
      if( made != c.dir )
      {
         made = c.dir;
         Obj o;
         CK( o->gdxOpenWrite( c.path( "r.gdx" ).c_str(), "", rc ), "setup", "open" );
         double d[5] = { 0 };
         for( auto *nm: { "i", "p" } )
         {
            CK( o->gdxDataWriteStrStart( nm, "", 1, nm[0] == 'i' ? T_SET : T_PAR, 0 ), "setup", "start" );
            for( auto *l: { "a", "b", "c" } )
            {
               KeyIn k( { l } );
               CK( o->gdxDataWriteStr( k.get(), d ), "setup", "write" );
            }
            CK( o->gdxDataWriteDone(), "setup", "done" );
         }
         o->gdxAcronymAdd( "acr", "", 3 );
         CK( o->gdxClose() == 0, "setup", "close" );
      }
   }
   if( writing )
   {
      CK( s.o->gdxOpenWrite( c.path( "w.gdx" ).c_str(), "", rc ), "setup", "open" );
      CK( s.o->gdxUELRegisterStrStart(), "setup", "reg" );
      for( auto *l: { "a", "b", "c", "d" } ) CK( s.o->gdxUELRegisterStr( l, n ), "setup", "reg" );
      CK( s.o->gdxUELRegisterDone(), "setup", "reg" );
      for( auto *nm: { "i", "p" } )
      {
         CK( s.o->gdxDataWriteStrStart( nm, "", 1, nm[0] == 'i' ? T_SET : T_PAR, 0 ), "setup", "start" );
         put( c, s, { "a" }, 0 );
         put( c, s, { "b" }, 0 );
         done( c, s );
      }
      s.o->gdxAcronymAdd( "acr", "", 3 );
   }
   else
   {
      CK( s.o->gdxOpenRead( c.path( "r.gdx" ).c_str(), rc ), "setup", "open" );
      CK( s.o->gdxUELRegisterMapStart() && s.o->gdxUELRegisterMap( 1, "a" ) && s.o->gdxUELRegisterMap( 7, "zz" ) && s.o->gdxUELRegisterDone(), "setup", "reg" );
   }
   CK( s.o->gdxErrorCount() == 0 && s.o->gdxGetLastError() == 0, "initial", "error state after opening: %d errors", s.o->gdxErrorCount() );
   int pending = 0, count = 0;
   for( int i = 0; i < depth; i++ )
   {
      int k = c.choose( (int) ops.size(), "call" );
      bool query = c.flip( "query the error afterwards" );
      const Op &op = ops[(size_t) k];
      s.uniq = i + 1;
      auto codes = op.codes;
      if( codes.size() == 1 && codes[0] == -1 )
      {
         codes.clear();
         if( s.errRecs > 0 ) codes.push_back( E_ERRREC );
      }
      c.note( op.name + ( query ? " ; GetLastError" : "" ) );
      op.run( c, s );
      if( op.errRecs >= 0 ) s.errRecs = op.errRecs;
      CK( s.o->gdxDataErrorCount() == s.errRecs, "error-records", "%s: %d error records, expected %d", op.name.c_str(), s.o->gdxDataErrorCount(), s.errRecs );
      if( !codes.empty() && !pending ) pending = codes[0];
      int e = s.o->gdxErrorCount();
      if( op.exact ) CK( e == count + (int) codes.size(), "count", "%s: error count goes from %d to %d, expected %zu more", op.name.c_str(), count, e, codes.size() );
      else
         CK( e > count, "count", "%s: error count stays %d", op.name.c_str(), count );
      count = e;
      if( query )
      {
         int g = s.o->gdxGetLastError();
         CK( g == pending, "last", "after %s the first unreported error is %d, but GetLastError gives %d", op.name.c_str(), pending, g );
         pending = 0;
         CK( s.o->gdxErrorCount() == count, "count-query", "the query changes the count" );
      }
      c.state( mc::mix( mc::mix( (uint64_t) (unsigned) pending, (uint64_t) count ), (uint64_t) s.errRecs * 2 + writing ) );
   }
   int g = s.o->gdxGetLastError();
   CK( g == pending, "last", "at the end the first unreported error is %d, but GetLastError gives %d", pending, g );
   CK( s.o->gdxGetLastError() == 0, "cleared", "GetLastError does not clear the error" );
   CK( s.o->gdxErrorCount() == count, "count-query", "querying changes the count" );
   CK( s.o->gdxClose() == 0, "close", "closing reports an error" );
}
static void writing( Ctx &c )
{
   static const auto ops = writeOps();
   session( c, ops, true, c.thorough ? 3 : 2 );
}
static void reading( Ctx &c )
{
   static const auto ops = readOps();
   session( c, ops, false, c.thorough ? 3 : 2 );
}

// opening: every failure gives a non-zero code, which GetLastError repeats once
static void opening( Ctx &c )
{
   int how = c.choose( 4, "open call" );
   int what = c.choose( 6, "file" );
   int before = c.choose( 3, "earlier use" );
   Obj o;
   int rc = 0;
   if( before == 1 )
   {
      CK( o->gdxOpenWrite( c.path( "b.gdx" ).c_str(), "", rc ), "setup", "open" );
      CK( !o->gdxDataWriteDone(), "setup", "done" );// leaves an unreported error
      o->gdxClose();
   }
   else if( before == 2 )
   {
      CK( !o->gdxOpenRead( c.path( "missing" ).c_str(), rc ), "setup", "open" );
   }
   writeBytes( c.path( "short.gdx" ), "x" );
   writeBytes( c.path( "text.gdx" ), string( 400, 'x' ) );
   writeBytes( c.path( "empty.gdx" ), "" );
   mkdir( c.path( "sub" ).c_str(), 0777 );
   vector<string> f { "", c.path( "missing.gdx" ), c.path( "nodir/f.gdx" ), c.path( "short.gdx" ), c.path( "text.gdx" ), c.path( "empty.gdx" ) };
   string fn = f[(size_t) what];
   rc = 0;
   int r = how == 0 ? o->gdxOpenRead( fn.c_str(), rc ) : how == 1 ? o->gdxOpenReadEx( fn.c_str(), 1, rc ) : how == 2 ? o->gdxOpenAppend( fn.c_str(), "p", rc ) : o->gdxOpenWrite( fn.c_str(), "p", rc );
   bool good = how == 3 && what != 0 && what != 2;
   c.note( fmt( "open %d of file %d: result %d code %d", how, what, r, rc ) );
   CK( (bool) r == good, "result", "open gives %d", r );
   if( good )
   {
      CK( rc == 0 && o->gdxGetLastError() == 0 && o->gdxErrorCount() == 0, "stale", "errors of an earlier use are still there after opening" );
      CK( o->gdxClose() == 0, "close", "fails" );
      return;
   }
   CK( rc != 0, "code", "failed opening without a code" );
   if( what == 0 ) CK( rc == E_NOFILE, "code", "empty name gives %d", rc );
   if( ( what == 1 && how != 2 ) || what == 2 ) CK( rc == ENOENT, "code", "missing file gives %d", rc );// append creates a missing file and finds it empty
   char b[256];
   memset( b, '~', 255 );
   b[255] = 0;
   o->gdxErrorStr( rc, b );
   CK( b[0] && b[0] != '~', "text", "no text for code %d", rc );
   int g = o->gdxGetLastError();
   CK( g == rc, "last", "opening reports %d, GetLastError %d", rc, g );
   CK( o->gdxGetLastError() == 0, "cleared", "GetLastError does not clear the error" );
   // and the object can be used
   CK( o->gdxOpenWrite( c.path( "n.gdx" ).c_str(), "p", rc ) && rc == 0, "reuse", "object cannot be used after the failure: %d", rc );
   CK( o->gdxErrorCount() == 0 && o->gdxGetLastError() == 0, "stale", "error state survives opening" );
   CK( o->gdxClose() == 0, "close", "fails" );
}

// texts of all codes
static void texts( Ctx &c )
{
   Obj o;
   int len = c.choose( c.thorough ? 300 : 60, "length of the name of a missing file" );
   if( !c.thorough ) len = 220 + len;
   string path = c.path( "" ) + string( (size_t) std::max( 0, len - (int) c.path( "" ).size() ), 'n' );
   int rc = 0;
   if( len > (int) c.path( "" ).size() && c.flip( "failed open before" ) )
   {
      bool r = o->gdxOpenRead( path.c_str(), rc );
      if( r ) o->gdxClose();
   }
   std::map<string, int> seen;
   vector<int> known;
   for( int e = -100026; e <= -100000; e++ ) known.push_back( e );
   for( int e = -100063; e <= -100029; e++ )
      if( e != -100042 ) known.push_back( e );
   for( int e = -100113; e <= -100100; e++ ) known.push_back( e );
   vector<int> nrs = known;
   for( int e = -10; e <= 140; e++ ) nrs.push_back( e );
   nrs.push_back( -100027 );
   nrs.push_back( -200000 );
   nrs.push_back( 1000000 );
   for( int e: nrs )
   {
      auto b = std::make_unique<char[]>( 256 );// heap: the sanitizer sees an overrun
      memset( b.get(), '~', 256 );
      int r = o->gdxErrorStr( e, b.get() );
      size_t l = strnlen( b.get(), 256 );
      CK( r && l > 0 && l < 256, "text", "code %d: result %d, text of length %zu", e, r, l );
      CK( b[0] != '~', "text", "code %d: no text (name of %d characters)", e, len );
      if( e == ENOENT ) CK( string( b.get() ).rfind( strerror( ENOENT ), 0 ) == 0, "text", "code 2 gives %s", b.get() );
      if( e > 0 && e != ENOENT && e < 100 ) CK( string( b.get() ).rfind( strerror( e ), 0 ) == 0, "text", "code %d gives %s", e, b.get() );
      c.step();
   }
   for( int e: known )
   {
      char b[256];
      o->gdxErrorStr( e, b );
      string t = b;
      CK( t.rfind( "Unknown error", 0 ) != 0, "unknown-text", "code %d has no text of its own: %s", e, b );
      CK( !seen.count( t ), "same-text", "codes %d and %d have the same text %s", e, seen[t], b );
      seen[t] = e;
   }
   c.note( fmt( "%zu codes, name length %d", nrs.size(), len ) );
}

// every operation in every phase, with and without an error that is already pending
struct Sess
{
   Ctx &c;
   string dir;
   string msg;
   TGXFileObj o;
   Sess( Ctx &c_, const string &d ) : c( c_ ), dir( d ), o( msg ) { o.gdxAutoConvert( 0 ); }
   Res call( int op, vector<Val> in )
   {
      for( auto &v: in )
         if( !v.s.empty() && v.s[0] == '@' ) v.s = dir + "/" + v.s.substr( 1 );
      cbl.keys = 0;
      c.step( 1 );
      return ops[op].obj( &o, in );
   }
   Res call( const char *n, const vector<Val> &in = {} ) { return call( opNr.at( n ), in ); }
   void pre( const char *n, const vector<Val> &in = {}, const char *want = "1" )
   {
      if( call( n, in ).ret != want ) c.fail( string( "prefix:" ) + n, string( n ) + " fails in an ordinary session" );
   }
};
static void anyCall( Ctx &c )
{
   buildOps();
   int ph = c.choose( phaseCount, "phase" );
   int op = c.choose( (int) ops.size(), "operation" );
   const string &nm = ops[op].name;
   if( nm.rfind( "gdxOpen", 0 ) == 0 || nm == "gdxGetLastError" || nm == "gdxClose" ) c.prune();
   size_t k = (size_t) c.choose( (int) ops[op].combos(), "arguments" );
   auto in = ops[op].args( k );
   c.note( string( phaseName[ph] ) + ": " + nm + "( " + showIn( in ) + " )" );
   string dir = c.path( "any" );
   for( int pend = 0; pend < 2; pend++ )
   {
      fresh( c, dir );
      Sess s( c, dir );
      enter( s, ph );
      while( s.o.gdxGetLastError() ) {}
      if( pend )
      {
         double d[7] = { 1, 1, 2, 3, 4, 5, 6 };
         s.o.gdxSetSpecialValues( d );
      }
      int e0 = s.o.gdxErrorCount();
      Res r = s.call( op, in );
      int e1 = s.o.gdxErrorCount(), g = s.o.gdxGetLastError();
      CK( e1 >= e0, "count", "%s: the error count goes from %d to %d", nm.c_str(), e0, e1 );
      if( pend ) CK( g == E_DUPSV, "last", "%s with an error %d pending: the first unreported error is now %d", nm.c_str(), E_DUPSV, g );
      else CK( ( e1 > e0 ) == ( g != 0 ), "last", "%s: the error count goes from %d to %d, but GetLastError gives %d", nm.c_str(), e0, e1, g );
      CK( s.o.gdxGetLastError() == 0, "cleared", "%s: GetLastError does not clear the error", nm.c_str() );
      if( g )
      {
         char t[256];
         CK( s.o.gdxErrorStr( g, t ) && *t, "text", "error %d has no text", g );
      }
      c.outcome( mc::hashStr( nm + fmt( "%d %d", g, pend ) ) );
      // a refused call with a pending error counts like one without
      static int without;
      if( !pend ) without = e1 - e0;
      else CK( e1 - e0 == without, "count-pending", "%s counts %d errors with an error pending and %d without", nm.c_str(), e1 - e0, without );
   }
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P14";
   d.sc = { { "writing", writing, 3, fmt( "all sequences of 2 (3) of %zu failing and succeeding operations while writing, with and without a query after each", writeOps().size() ) },
            { "reading", reading, 3, fmt( "all sequences of 2 (3) of %zu failing and succeeding operations while reading, with and without a query after each", readOps().size() ) },
            { "opening", opening, 3, "4 ways of opening x 6 kinds of bad files x 3 earlier uses" },
            { "texts", texts, 3, "texts of all 76 library codes and operating system codes -10..140, with a failed open of names of 60 (300) lengths before" },
            { "any call", anyCall, 3, "every operation x every combination of its argument domain x 22 session phases, with and without an error that is already pending" } };
   d.assumptions = { "opening a file resets the error state; opening an object that is open already reports its code through the output argument only" };
   return d.main( argc, argv );
}
