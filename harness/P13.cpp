// P13: calls out of context are refused and harmless.
// Two runs per execution: A performs the whole call sequence, B only the calls that were not refused in A.
// Both sessions are then completed in the normal way; everything observable afterwards must be equal.
#include "gdxh.hpp"
using namespace gh;

enum M { CLOSED, WINIT, WRAWE, WMAPE, WSTRE, WDOMR, WDOMM, WDOMS, WRAW, WMAP, WSTR, RINIT, RMAPE, RSTRE, RFILT, RRAW, RMAP, RSTR, RSLICE, NM };
static const char *mname[] = { "closed", "write-init", "register-raw", "register-map", "register-str", "dom-raw", "dom-map", "dom-str", "write-raw", "write-map", "write-str", "read-init", "read-register-map", "read-register-str", "filter", "read-raw", "read-map", "read-str", "slice" };
static unsigned bit( int m ) { return 1u << m; }
static const unsigned ANY = ( 1u << NM ) - 1, ANYWRITE = bit( WINIT ) | bit( WDOMR ) | bit( WDOMM ) | bit( WDOMS ) | bit( WRAW ) | bit( WMAP ) | bit( WSTR ), ANYREAD = bit( RINIT ) | bit( RRAW ) | bit( RMAP ) | bit( RSTR ),
                      PENDING = bit( RRAW ) | bit( RMAP ) | bit( RSTR );

struct Sess
{
   Obj o;
   M m = CLOSED;
   string dir, wfile;
   int uniq = 0;// makes names unique: position in the call sequence
   string f( const char *n ) const { return dir + "/" + n; }
};
struct Out
{
   bool ok {};
   string txt;// outputs
   bool eof {};
};
struct Op
{
   string name;
   unsigned allowed;// modes in which the call may be performed
   M to;            // mode after success (NM: unchanged)
   int kind;        // 0 action, 1 pure query (never has an effect), 2 read start, 3 record read, 4 effect even when it fails
   std::function<Out( Sess & )> run;
   M failTo = NM;
};

static int cbCount;
static uint64_t cbHash;
static int cbEx( const int *k, const double *v, int fd, void * )
{
   cbCount++;
   cbHash = mc::mix( cbHash, (uint64_t) k[0] * 31 + bits( v[0] ) + (uint64_t) fd );
   return 1;
}
static void cbRaw( const int *k, const double *v )
{
   cbCount++;
   cbHash = mc::mix( cbHash, (uint64_t) k[0] * 31 + bits( v[0] ) );
}
static int cbFilt( const int *k, const double *v, void * )
{
   cbRaw( k, v );
   return 1;
}
static void cbDom( int r, int mm, void * )
{
   cbCount++;
   cbHash = mc::mix( cbHash, (uint64_t) r * 1000 + (uint64_t) mm );
}
static string cbDone()
{
   string s = fmt( " cb=%d/%016llx", cbCount, (unsigned long long) cbHash );
   cbCount = 0;
   cbHash = 0;
   return s;
}

static vector<Op> build( bool all )
{
   vector<Op> v;
   auto add = [&]( const string &n, unsigned al, M to, int kind, std::function<Out( Sess & )> f, M failTo = NM ) { v.push_back( { n, al, to, kind, f, failTo } ); };
   // opening and closing
   add( "OpenWrite", bit( CLOSED ), WINIT, 0, []( Sess &s ) { int e = -9; bool r = s.o->gdxOpenWrite( s.f( "w.gdx" ).c_str(), "p", e ); if( r ) s.wfile = "w.gdx"; return Out { r, fmt( "%d", r ? e : ( e != 0 ) ) }; } );
   add( "OpenRead", bit( CLOSED ), RINIT, 0, []( Sess &s ) { int e = -9; bool r = s.o->gdxOpenRead( s.f( "r.gdx" ).c_str(), e ); return Out { r, fmt( "%d", r ? e : ( e != 0 ) ) }; } );
   add( "OpenRead(missing)", bit( CLOSED ), RINIT, 0, []( Sess &s ) { int e = -9; bool r = s.o->gdxOpenRead( s.f( "missing.gdx" ).c_str(), e ); return Out { r, fmt( "%d", e ) }; } );
   add( "OpenAppend", bit( CLOSED ), WINIT, 0, []( Sess &s ) { int e = -9; bool r = s.o->gdxOpenAppend( s.f( "a.gdx" ).c_str(), "p", e ); if( r ) s.wfile = "a.gdx"; return Out { r, fmt( "%d", r ? e : ( e != 0 ) ) }; } );
   if( all )
   {
      add( "OpenWrite(empty)", bit( CLOSED ), WINIT, 0, []( Sess &s ) { int e = -9; bool r = s.o->gdxOpenWrite( "", "p", e ); return Out { r, "" }; } );
      add( "OpenWrite(baddir)", bit( CLOSED ), WINIT, 0, []( Sess &s ) { int e = -9; bool r = s.o->gdxOpenWrite( s.f( "nodir/w.gdx" ).c_str(), "p", e ); return Out { r, "" }; } );
      add( "OpenAppend(missing)", bit( CLOSED ), WINIT, 0, []( Sess &s ) { int e = -9; bool r = s.o->gdxOpenAppend( s.f( "missing.gdx" ).c_str(), "p", e ); return Out { r, "" }; } );
      add( "OpenRead(no gdx)", bit( CLOSED ), RINIT, 0, []( Sess &s ) { int e = -9; bool r = s.o->gdxOpenRead( s.f( "text.txt" ).c_str(), e ); return Out { r, fmt( "%d", e ) }; } );
   }
   // closing a closed object has nothing to do
   add( "Close", ANY, CLOSED, 4, []( Sess &s ) { s.o->gdxGetLastError(); int r = s.o->gdxClose(); return Out { s.m == CLOSED || r == 0, s.m == CLOSED ? "" : fmt( "%d", r ) }; } );
   // registration
   add( "UELRegisterRawStart", bit( WINIT ), WRAWE, 0, []( Sess &s ) { return Out { (bool) s.o->gdxUELRegisterRawStart(), "" }; } );
   add( "UELRegisterMapStart", bit( WINIT ) | bit( RINIT ), NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxUELRegisterMapStart(), "" }; } );
   add( "UELRegisterStrStart", bit( WINIT ) | bit( RINIT ), NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxUELRegisterStrStart(), "" }; } );
   add( "UELRegisterRaw", bit( WRAWE ), NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxUELRegisterRaw( "n1" ), "" }; } );
   add( "UELRegisterMap", bit( WMAPE ) | bit( RMAPE ), NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxUELRegisterMap( 40 + s.uniq, fmt( "n%d", s.uniq ).c_str() ), "" }; } );
   add( "UELRegisterStr", bit( WSTRE ) | bit( RSTRE ), NM, 0, []( Sess &s ) { int n = -9; bool r = s.o->gdxUELRegisterStr( "n3", n ); return Out { r, r ? fmt( "%d", n ) : "" }; } );
   add( "UELRegisterDone", bit( WRAWE ) | bit( WMAPE ) | bit( WSTRE ) | bit( RMAPE ) | bit( RSTRE ), NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxUELRegisterDone(), "" }; } );
   // writing
   add( "DataWriteRawStart", bit( WINIT ), WDOMR, 0, []( Sess &s ) { return Out { (bool) s.o->gdxDataWriteRawStart( fmt( "x%d", s.uniq ).c_str(), "t", 1, T_PAR, 0 ), "" }; } );
   add( "DataWriteMapStart", bit( WINIT ), WDOMM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxDataWriteMapStart( fmt( "x%d", s.uniq ).c_str(), "t", 1, T_SET, 0 ), "" }; } );
   add( "DataWriteStrStart", bit( WINIT ), WDOMS, 0, []( Sess &s ) { return Out { (bool) s.o->gdxDataWriteStrStart( fmt( "x%d", s.uniq ).c_str(), "t", 1, T_VAR, 5 ), "" }; } );
   add( "DataWriteStrStart(bad name)", bit( WINIT ), WDOMS, 0, []( Sess &s ) { return Out { (bool) s.o->gdxDataWriteStrStart( "1 x", "t", 1, T_PAR, 0 ), "" }; } );
   add( "DataWriteRaw", bit( WDOMR ) | bit( WRAW ), WRAW, 0, []( Sess &s ) { int k[20] = { 2, 2 }; double d[5] = { 1.5, 2, 3, 4, 5 }; return Out { (bool) s.o->gdxDataWriteRaw( k, d ), "" }; }, WRAW );
   add( "DataWriteMap", bit( WDOMM ) | bit( WMAP ), WMAP, 0, []( Sess &s ) { int k[20] = { 2, 2 }; double d[5] = { 1.5, 2, 3, 4, 5 }; return Out { (bool) s.o->gdxDataWriteMap( k, d ), "" }; }, WMAP );
   add( "DataWriteStr", bit( WDOMS ) | bit( WSTR ), WSTR, 0, []( Sess &s ) { KeyIn k( { "b", "b" } ); double d[5] = { 1.5, 2, 3, 4, 5 }; return Out { (bool) s.o->gdxDataWriteStr( k.get(), d ), "" }; }, WSTR );
   add( "DataWriteStr(bad label)", bit( WDOMS ) | bit( WSTR ), WSTR, 0, []( Sess &s ) { KeyIn k( { "\"'", "b" } ); double d[5] = { 1.5, 2, 3, 4, 5 }; return Out { (bool) s.o->gdxDataWriteStr( k.get(), d ), "" }; }, WSTR );
   add( "DataWriteMap(unknown)", bit( WDOMM ) | bit( WMAP ), WMAP, 0, []( Sess &s ) { int k[20] = { 77, 2 }; double d[5] = { 1.5, 2, 3, 4, 5 }; return Out { (bool) s.o->gdxDataWriteMap( k, d ), "" }; }, WMAP );
   add( "DataWriteDone", ANYWRITE & ~bit( WINIT ), WINIT, 0, []( Sess &s ) { return Out { (bool) s.o->gdxDataWriteDone(), "" }; } );
   add( "SymbolSetDomain", bit( WDOMR ) | bit( WDOMM ) | bit( WDOMS ), NM, 4, []( Sess &s ) { KeyIn k( { "*", "*" } ); return Out { (bool) s.o->gdxSymbolSetDomain( k.get() ), "" }; } );
   add( "SymbolSetDomain(unknown)", bit( WDOMR ) | bit( WDOMM ) | bit( WDOMS ), NM, 4, []( Sess &s ) { KeyIn k( { "nosuch", "nosuch" } ); return Out { (bool) s.o->gdxSymbolSetDomain( k.get() ), "" }; } );
   add( "SymbolSetDomainX", ANY & ~bit( CLOSED ), NM, 0, []( Sess &s ) { KeyIn k( { "rel", "rel" } ); return Out { (bool) s.o->gdxSymbolSetDomainX( 1, k.get() ), "" }; } );
   add( "SymbolSetDomainX(99)", 0, NM, 0, []( Sess &s ) { KeyIn k( { "rel", "rel" } ); return Out { (bool) s.o->gdxSymbolSetDomainX( 99, k.get() ), "" }; } );
   add( "AddAlias", ANYWRITE, NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxAddAlias( "i", fmt( "al%d", s.uniq ).c_str() ), "" }; } );
   add( "SymbolAddComment(1)", ANYWRITE, NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxSymbolAddComment( 1, "comment" ), "" }; } );
   add( "SymbolAddComment(current)", ANYWRITE, NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxSymbolAddComment( -1, "comment" ), "" }; } );
   add( "SymbolAddComment(99)", 0, NM, 0, []( Sess &s ) { return Out { (bool) s.o->gdxSymbolAddComment( 99, "comment" ), "" }; } );
   add( "AddSetText", ANY & ~bit( CLOSED ), NM, 0, []( Sess &s ) { int n = -9; bool r = s.o->gdxAddSetText( "text", n ); return Out { r, fmt( "%d", n ) }; } );
   add( "SetTextNodeNr", ANY & ~bit( CLOSED ), NM, 0, []( Sess &s ) { bool r = s.o->gdxSetTextNodeNr( 0, 7 ); return Out { r, "" }; } );
   add( "RenameUEL", ANY, NM, 0, []( Sess &s ) { int r = s.o->gdxRenameUEL( "c", "cc" ); return Out { r == 0, fmt( "%d", r ) }; } );
   add( "AcronymAdd", ANY & ~bit( CLOSED ), NM, 0, []( Sess &s ) { int r = s.o->gdxAcronymAdd( fmt( "acn%d", s.uniq ).c_str(), "t", 50 + s.uniq ); return Out { r >= 0 && s.m != CLOSED, fmt( "%d", r ) }; } );
   add( "AcronymSetInfo", ANY, NM, 0, []( Sess &s ) { bool r = s.o->gdxAcronymSetInfo( 1, "acr", "t2", 12 ); return Out { r, "" }; } );
   add( "AcronymSetInfo(9)", 0, NM, 0, []( Sess &s ) { bool r = s.o->gdxAcronymSetInfo( 9, "zz", "t2", 3 ); return Out { r, "" }; } );
   // reading
   unsigned rs = bit( RINIT ) | PENDING;
   add( "DataReadRawStart", rs, RRAW, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxDataReadRawStart( 2, n ); return Out { r, fmt( "%d", n ) }; } );
   add( "DataReadStrStart", rs, RSTR, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxDataReadStrStart( 3, n ); return Out { r, fmt( "%d", n ) }; } );
   add( "DataReadMapStart", rs, RMAP, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxDataReadMapStart( 2, n ); return Out { r, fmt( "%d", n ) }; } );
   add( "DataReadMapStart(scalar)", rs, RMAP, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxDataReadMapStart( 4, n ); return Out { r, fmt( "%d", n ) }; } );
   add( "DataReadFilteredStart", rs, RMAP, 2, []( Sess &s ) { int n = -9, f[20] = { gdx::DOMC_EXPAND, gdx::DOMC_EXPAND }; bool r = s.o->gdxDataReadFilteredStart( 2, f, n ); return Out { r, fmt( "%d", n ) }; } );
   add( "DataReadFilteredStart(no filter)", 0, RMAP, 2, []( Sess &s ) { int n = -9, f[20] = { 77, 77 }; bool r = s.o->gdxDataReadFilteredStart( 2, f, n ); return Out { r, "" }; } );
   add( "DataReadRawStart(99)", 0, RRAW, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxDataReadRawStart( 99, n ); return Out { r, "" }; } );
   add( "DataReadStrStart(-1)", 0, RSTR, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxDataReadStrStart( -1, n ); return Out { r, "" }; } );
   add( "DataReadRawFast", rs, RINIT, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxDataReadRawFast( 2, cbRaw, n ); return Out { r, fmt( "%d", n ) + cbDone() }; } );
   add( "DataReadRawFastEx", rs, RINIT, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxDataReadRawFastEx( 2, cbEx, n, nullptr ); return Out { r, fmt( "%d", n ) + cbDone() }; } );
   add( "DataReadRawFastFilt", rs, RINIT, 2, []( Sess &s ) { KeyIn k( { "a", "" } ); bool r = s.o->gdxDataReadRawFastFilt( 2, k.get(), cbFilt ); return Out { r, cbDone() }; } );
   add( "GetDomainElements", rs, RINIT, 2, []( Sess &s ) { int n = -9; bool r = s.o->gdxGetDomainElements( 2, 1, gdx::DOMC_EXPAND, cbDom, n, nullptr ); return Out { r, fmt( "%d", n ) + cbDone() }; } );
   add( "GetDomainElements(99)", 0, RINIT, 0, []( Sess &s ) { int n = -9; bool r = s.o->gdxGetDomainElements( 99, 1, gdx::DOMC_EXPAND, cbDom, n, nullptr ); return Out { r, "" }; } );
   add( "SliceStart", rs, RSLICE, 2, []( Sess &s ) { int e[20]; bool r = s.o->gdxDataReadSliceStart( 2, e ); return Out { r, r ? fmt( "%d %d", e[0], e[1] ) : "" }; } );
   add( "Slice", bit( RSLICE ), RSLICE, 0, []( Sess &s ) { KeyIn k( { "a", "" } ); int d = -9; bool r = s.o->gdxDataReadSlice( k.get(), d, cbRaw ); return Out { r, ( r ? fmt( "%d", d ) : "" ) + cbDone() }; } );
   add( "SliceUELS", bit( RSLICE ), NM, 1, []( Sess &s ) { KeyBuf kb; int k[20] = { 0, 0 }; bool r = s.o->gdxDataSliceUELS( k, kb.get() ); return Out { r, r ? string( kb.ptr[0] ) + "," + kb.ptr[1] : "" }; } );
   add( "DataReadRaw", bit( RRAW ), NM, 3, []( Sess &s ) { int k[20] {}, d = -9; double x[5] {}; bool r = s.o->gdxDataReadRaw( k, x, d ); return Out { r, r ? fmt( "%d %d %g %d", k[0], k[1], x[0], d ) : "" }; } );
   add( "DataReadMap", bit( RMAP ), NM, 3, []( Sess &s ) { int k[20] {}, d = -9; double x[5] {}; bool r = s.o->gdxDataReadMap( 0, k, x, d ); return Out { r, r ? fmt( "%d %d %g %d", k[0], k[1], x[0], d ) : "" }; } );
   add( "DataReadStr", bit( RSTR ), NM, 3, []( Sess &s ) { KeyBuf kb; int d = -9; double x[5] {}; bool r = s.o->gdxDataReadStr( kb.get(), x, d ); return Out { r, r ? fmt( "%s %g %d", kb.ptr[0], x[0], d ) : "" }; } );
   add( "DataReadDone", bit( RINIT ) | PENDING | bit( RSLICE ), RINIT, 0, []( Sess &s ) { return Out { (bool) s.o->gdxDataReadDone(), "" }; } );
   add( "FilterExists", ANYREAD, NM, 1, []( Sess &s ) { bool r = s.o->gdxFilterExists( 1 ); return Out { r, fmt( "%d", r ) }; } );
   add( "FilterRegisterStart", bit( RINIT ), RFILT, 0, []( Sess &s ) { bool r = s.o->gdxFilterRegisterStart( 1 ); return Out { r, "" }; } );
   add( "FilterRegisterStart(0)", 0, RFILT, 0, []( Sess &s ) { bool r = s.o->gdxFilterRegisterStart( 0 ); return Out { r, "" }; } );
   add( "FilterRegister", bit( RFILT ), NM, 0, []( Sess &s ) { bool r = s.o->gdxFilterRegister( 2 ); return Out { r, "" }; } );
   add( "FilterRegister(99)", 0, NM, 0, []( Sess &s ) { bool r = s.o->gdxFilterRegister( 99 ); return Out { r, "" }; } );
   add( "FilterRegisterDone", bit( RFILT ), RINIT, 0, []( Sess &s ) { bool r = s.o->gdxFilterRegisterDone(); return Out { r, "" }; } );
   // settings
   add( "SetSpecialValues(dup)", 0, NM, 0, []( Sess &s ) { double a[7] = { 1e300, 1e300, 3e300, 4e300, 5e300, 1e301, 0 }; bool r = s.o->gdxSetSpecialValues( a ); return Out { r, "" }; } );
   if( all ) add( "SetSpecialValues", ANY, NM, 0, []( Sess &s ) { double a[7] = { 1e30, 2e30, 3e30, 4e30, 5e30, 1e31, 0 }; bool r = s.o->gdxSetSpecialValues( a ); return Out { r, "" }; } );
   // queries: no effect whatever they answer
   auto q = [&]( const string &n, std::function<string( Sess & )> f, unsigned al = ANY ) { v.push_back( { n, al, NM, 1, [f]( Sess &s ) { return Out { true, f( s ) }; } } ); };
   q( "SymbIndxMaxLength", []( Sess &s ) { int l[20]; int r = s.o->gdxSymbIndxMaxLength( 2, l ); return fmt( "%d %d %d", r, l[0], l[1] ); }, bit( RINIT ) );
   q( "DataErrorRecord", []( Sess &s ) { int k[20] {}; double x[5] {}; bool r = s.o->gdxDataErrorRecord( 1, k, x ); return fmt( "%d", r ); }, bit( RINIT ) | bit( WINIT ) | bit( RMAP ) | bit( WRAW ) | bit( WMAP ) | bit( WSTR ) );
   q( "DataErrorRecordX(99)", []( Sess &s ) { int k[20] {}; double x[5] {}; bool r = s.o->gdxDataErrorRecordX( 99, k, x ); return fmt( "%d", r ); }, bit( RINIT ) | bit( WINIT ) | bit( RMAP ) | bit( WRAW ) | bit( WMAP ) | bit( WSTR ) );
   q( "SymbolGetDomain", []( Sess &s ) { int k[20] {}; bool r = s.o->gdxSymbolGetDomain( 1, k ); bool r2 = s.o->gdxSymbolGetDomain( 99, k ); return fmt( "%d %d", r, r2 ); } );
   q( "SymbolGetDomainX", []( Sess &s ) { KeyBuf kb; int r = s.o->gdxSymbolGetDomainX( 1, kb.get() ); int r2 = s.o->gdxSymbolGetDomainX( 99, kb.get() ); return fmt( "%d %d", r, r2 ); } );
   q( "SymbolInfo", []( Sess &s ) { char a[256]; int d, t, n, u; string x; for( int i: { -1, 0, 1, 99 } ) { bool r = s.o->gdxSymbolInfo( i, a, d, t ); x += fmt( "%d ", r ); r = s.o->gdxSymbolInfoX( i, n, u, a ); x += fmt( "%d %d ", r, s.o->gdxSymbolDim( i ) ); } return x; } );
   q( "Lengths", []( Sess &s ) { return fmt( "%d %d", s.o->gdxSymbMaxLength(), s.o->gdxUELMaxLength() ); } );
   q( "FindSymbol", []( Sess &s ) { int n = -9; bool r = s.o->gdxFindSymbol( "i", n ); int n2 = -9; bool r2 = s.o->gdxFindSymbol( "nosuch", n2 ); return fmt( "%d %d %d %d", r, n, r2, n2 ); } );
   q( "Acronyms", []( Sess &s ) { char a[256], b[256]; int i = -9, j, k; string x = fmt( "%d ", s.o->gdxAcronymCount() ); for( int n: { 0, 1, 9 } ) { x += fmt( "%d ", s.o->gdxAcronymGetInfo( n, a, b, i ) ); x += fmt( "%d ", s.o->gdxAcronymGetMapping( n, i, j, k ) ); } x += fmt( "%d", s.o->gdxAcronymName( s.o->gdxAcronymValue( 3 ), a ) ); return x; } );
   q( "UELs", []( Sess &s ) { char a[256]; int n = -9, m = -9; string x; for( int i: { -1, 0, 1, 99 } ) { x += fmt( "%d ", s.o->gdxUMUelGet( i, a, m ) ); x += fmt( "%d ", s.o->gdxGetUEL( i, a ) ); } x += fmt( "%d ", s.o->gdxUMFindUEL( "a", n, m ) ) + fmt( "%d %d ", n, m ); x += fmt( "%d ", s.o->gdxUMUelInfo( n, m ) ) + fmt( "%d %d", n, m ); return x; } );
   q( "Texts", []( Sess &s ) { char a[256]; int n = -9; string x; for( int i: { -1, 0, 1, 99 } ) x += fmt( "%d ", s.o->gdxGetElemText( i, a, n ) ); x += fmt( "%d %d", s.o->gdxSetHasText( 1 ), s.o->gdxSetHasText( 99 ) ); return x; } );
   q( "Comments", []( Sess &s ) { char a[256]; return fmt( "%d %d %d", s.o->gdxSymbolGetComment( 1, 1, a ), s.o->gdxSymbolGetComment( 99, 1, a ), s.o->gdxSymbolGetComment( 1, 99, a ) ); } );
   q( "Infos", []( Sess &s ) { char a[256], b[256]; int n, m; string x = fmt( "%d ", s.o->gdxSystemInfo( n, m ) ); x += fmt( "%d %d ", n, m ); s.o->gdxFileInfo( n, m ); x += fmt( "%d ", n ); s.o->gdxFileVersion( a, b ); s.o->gdxCurrentDim(); s.o->gdxDataErrorCount(); double d[7]; s.o->gdxGetSpecialValues( d ); s.o->gdxMapValue( 1.0, n ); s.o->gdxErrorStr( -100000, a ); s.o->gdxGetMemoryUsed(); return x; } );
   return v;
}

// the error code of calls out of context
static int badMode()
{
   static int e = [] {
      Obj o;
      o->gdxUELRegisterDone();
      return o->gdxGetLastError();
   }();
   return e;
}

static void step( Ctx &c, Sess &s, const Op &op, Out &out, bool &refused )
{
   bool inMode = op.allowed & bit( s.m );
   int e0 = s.o->gdxErrorCount();
   M m0 = s.m;
   out = op.run( s );
   int e1 = s.o->gdxErrorCount();
   int le = s.o->gdxGetLastError();
   refused = !out.ok;
   string ctx = op.name + " in mode " + mname[m0];
   if( !inMode && op.kind != 1 ) CK( !out.ok, "not-refused", "%s is not refused", ctx.c_str() );
   if( inMode ) CK( le != badMode(), "refused", "%s is refused as out of context", ctx.c_str() );
   if( out.ok )
   {
      if( op.to != NM ) s.m = op.to;
      if( op.name == "UELRegisterMapStart" ) s.m = m0 == WINIT ? WMAPE : RMAPE;
      if( op.name == "UELRegisterStrStart" ) s.m = m0 == WINIT ? WSTRE : RSTRE;
      if( op.name == "UELRegisterDone" ) s.m = m0 <= WSTRE ? WINIT : RINIT;
      if( op.name.rfind( "SymbolSetDomain(", 0 ) == 0 || op.name == "SymbolSetDomain" ) s.m = m0 == WDOMR ? WRAW : m0 == WDOMM ? WMAP : WSTR;
   }
   else if( inMode || op.kind == 2 )
   {
      if( op.kind == 3 && m0 != RMAP ) s.m = RINIT;// end of data
      if( op.kind == 2 && ( PENDING & bit( m0 ) ) ) s.m = RINIT;// a pending read ends first
      if( op.name == "SymbolSetDomain(unknown)" || op.name == "SymbolSetDomain" ) s.m = m0 == WDOMR ? WRAW : m0 == WDOMM ? WMAP : WSTR;
      if( op.failTo != NM && inMode ) s.m = op.failTo;
   }
   if( !inMode && op.allowed && op.kind != 1 && op.name.rfind( "Open", 0 ) && op.name != "AddSetText" && op.name != "SetTextNodeNr" )// (the texts have no list to be added to)
      CK( e1 > e0 && le != 0, "unreported", "%s is refused, but the error count goes from %d to %d and GetLastError gives %d", ctx.c_str(), e0, e1, le );
}

static void mk( const string &fn )
{
   Obj o;
   int rc, tn;
   if( !o->gdxOpenWrite( fn.c_str(), "maker", rc ) ) abort();
   o->gdxAddSetText( "first", tn );
   auto wr = [&]( const char *n, int dim, int typ, int user, vector<vector<string>> keys ) {
      if( !o->gdxDataWriteStrStart( n, "text", dim, typ, user ) ) abort();
      double d[5] = { typ == T_SET ? 1.0 : 10, 20, 30, 40, 50 };
      for( auto &k: keys )
      {
         KeyIn ki( k );
         if( !o->gdxDataWriteStr( ki.get(), d ) ) abort();
         if( typ != T_SET ) d[0]++;
      }
      if( !o->gdxDataWriteDone() ) abort();
   };
   wr( "i", 1, T_SET, 0, { { "a" }, { "b" }, { "c" } } );
   wr( "p", 2, T_PAR, 0, { { "a", "c" }, { "b", "a" }, { "b", "b" }, { "c", "a" } } );
   wr( "v", 1, T_VAR, 5, { { "a" }, { "b" } } );
   wr( "s0", 0, T_VAR, 5, {} );
   wr( "s1", 0, T_PAR, 0, { {} } );
   o->gdxAddAlias( "i", "ii" );
   o->gdxAcronymAdd( "acr", "an acronym", 3 );
   if( o->gdxClose() ) abort();
}

static const int NPREFIX = 27;
static void prefix( Ctx &c, Sess &s, int p )
{
   int rc = 0, n = 0, e[20];
   double d[5] = { 1.25, 2, 3, 4, 5 };
   auto ow = [&] { CK( s.o->gdxOpenWrite( s.f( "w.gdx" ).c_str(), "pre", rc ), "setup", "open write %d", rc ); s.wfile = "w.gdx"; s.m = WINIT; };
   auto syms = [&] {
      ow();
      s.o->gdxAddSetText( "txt", n );
      CK( s.o->gdxUELRegisterStrStart() && s.o->gdxUELRegisterStr( "a", n ) && s.o->gdxUELRegisterStr( "b", n ) && s.o->gdxUELRegisterDone(), "setup", "register" );
      CK( s.o->gdxDataWriteStrStart( "i", "set", 1, T_SET, 0 ), "setup", "i" );
      for( auto *x: { "a", "b" } )
      {
         KeyIn k( { x } );
         double t[5] = { 1 };
         CK( s.o->gdxDataWriteStr( k.get(), t ), "setup", "i" );
      }
      CK( s.o->gdxDataWriteDone(), "setup", "i" );
      CK( s.o->gdxDataWriteStrStart( "p", "par", 1, T_PAR, 0 ), "setup", "p" );
      KeyIn k( { "i" } ), ka( { "a" } );
      CK( s.o->gdxSymbolSetDomain( k.get() ) && s.o->gdxDataWriteStr( ka.get(), d ) && s.o->gdxDataWriteDone(), "setup", "p" );
      s.o->gdxAcronymAdd( "acr", "an acronym", 3 );
   };
   auto orr = [&] { CK( s.o->gdxOpenRead( s.f( "r.gdx" ).c_str(), rc ), "setup", "open read %d", rc ); s.m = RINIT; };
   int ki[20] = { 1, 1 }, df;
   double x[5];
   KeyIn ks( { "a" } );
   KeyBuf kb;
   switch( p )
   {
      case 0: break;
      case 1: syms(); CK( s.o->gdxClose() == 0, "setup", "close" ); s.m = CLOSED; break;
      case 2: orr(); s.o->gdxClose(); s.m = CLOSED; break;
      case 3: CK( !s.o->gdxOpenRead( s.f( "missing.gdx" ).c_str(), rc ), "setup", "opens" ); s.o->gdxGetLastError(); break;
      case 4: ow(); break;
      case 5: syms(); break;
      case 6: syms(); CK( s.o->gdxUELRegisterRawStart() && s.o->gdxUELRegisterRaw( "z" ), "setup", "raw" ); s.m = WRAWE; break;
      case 7: syms(); CK( s.o->gdxUELRegisterMapStart() && s.o->gdxUELRegisterMap( 9, "z" ), "setup", "map" ); s.m = WMAPE; break;
      case 8: syms(); CK( s.o->gdxUELRegisterStrStart() && s.o->gdxUELRegisterStr( "z", n ), "setup", "str" ); s.m = WSTRE; break;
      case 9: syms(); CK( s.o->gdxDataWriteRawStart( "r", "", 1, T_PAR, 0 ), "setup", "r" ); s.m = WDOMR; break;
      case 10: syms(); CK( s.o->gdxDataWriteMapStart( "r", "", 1, T_PAR, 0 ), "setup", "r" ); s.m = WDOMM; break;
      case 11: syms(); CK( s.o->gdxDataWriteStrStart( "r", "", 1, T_PAR, 0 ), "setup", "r" ); s.m = WDOMS; break;
      case 12: syms(); CK( s.o->gdxDataWriteRawStart( "r", "", 1, T_VAR, 0 ) && s.o->gdxDataWriteRaw( ki, d ), "setup", "r" ); s.m = WRAW; break;
      case 13: syms(); CK( s.o->gdxDataWriteMapStart( "r", "", 1, T_EQU, 53 ) && s.o->gdxDataWriteMap( ki, d ), "setup", "r" ); s.m = WMAP; break;
      case 14: syms(); CK( s.o->gdxDataWriteStrStart( "r", "", 1, T_SET, 0 ) && s.o->gdxDataWriteStr( ks.get(), d ), "setup", "r" ); s.m = WSTR; break;
      case 15: CK( s.o->gdxOpenAppend( s.f( "a.gdx" ).c_str(), "app", rc ), "setup", "append %d", rc ); s.wfile = "a.gdx"; s.m = WINIT; break;
      case 16: orr(); break;
      case 17: orr(); CK( s.o->gdxUELRegisterMapStart() && s.o->gdxUELRegisterMap( 5, "b" ), "setup", "map" ); s.m = RMAPE; break;
      case 18: orr(); CK( s.o->gdxUELRegisterStrStart() && s.o->gdxUELRegisterStr( "b", n ), "setup", "str" ); s.m = RSTRE; break;
      case 19: orr(); CK( s.o->gdxUELRegisterStrStart() && s.o->gdxUELRegisterStr( "b", n ) && s.o->gdxUELRegisterStr( "c", n ) && s.o->gdxUELRegisterDone() && s.o->gdxFilterRegisterStart( 2 ) && s.o->gdxFilterRegister( 1 ), "setup", "filter" ); s.m = RFILT; break;
      case 20: orr(); CK( s.o->gdxDataReadRawStart( 2, n ) && s.o->gdxDataReadRaw( ki, x, df ), "setup", "raw" ); s.m = RRAW; break;
      case 21: orr(); CK( s.o->gdxUELRegisterStrStart() && s.o->gdxUELRegisterStr( "a", n ) && s.o->gdxUELRegisterStr( "b", n ) && s.o->gdxUELRegisterDone() && s.o->gdxDataReadMapStart( 2, n ) && s.o->gdxDataReadMap( 0, ki, x, df ), "setup", "map" ); s.m = RMAP; break;
      case 22: orr(); CK( s.o->gdxUELRegisterStrStart() && s.o->gdxUELRegisterStr( "b", n ) && s.o->gdxUELRegisterStr( "a", n ) && s.o->gdxUELRegisterDone() && s.o->gdxDataReadMapStart( 2, n ) && s.o->gdxDataReadMap( 0, ki, x, df ), "setup", "map" ); s.m = RMAP; break;
      case 23: orr(); CK( s.o->gdxDataReadStrStart( 3, n ) && s.o->gdxDataReadStr( kb.get(), x, df ), "setup", "str" ); s.m = RSTR; break;
      case 24: orr(); CK( s.o->gdxDataReadSliceStart( 2, e ), "setup", "slice" ); s.m = RSLICE; break;
      case 25: orr(); CK( s.o->gdxDataReadRawStart( 4, n ), "setup", "scalar" ); s.m = RRAW; break;
      case 26: orr(); CK( s.o->gdxUELRegisterStrStart() && s.o->gdxUELRegisterStr( "b", n ) && s.o->gdxUELRegisterStr( "a", n ) && s.o->gdxUELRegisterDone() && s.o->gdxDataReadMapStart( 2, n ) && s.o->gdxDataReadMap( 0, ki, x, df ) && s.o->gdxDataReadDone() && s.o->gdxDataReadMapStart( 4, n ), "setup", "scalar map" ); s.m = RMAP; break;
   }
}

// complete the session in the normal way; everything observable goes into the result
static string finish( Ctx &c, Sess &s )
{
   string r = string( "mode " ) + mname[s.m] + "\n";
   s.o->gdxGetLastError();
   int n = -9, df = 0, k[20] {};
   double x[5] {};
   KeyBuf kb;
   auto chk = [&]( bool ok, const char *what ) { CK( ok, "cannot-complete", "completing the session fails: %s in mode %s, error %d", what, mname[s.m], s.o->gdxGetLastError() ); };
   switch( s.m )
   {
      case WRAWE: case WMAPE: case WSTRE: chk( s.o->gdxUELRegisterDone(), "UELRegisterDone" ); s.m = WINIT; break;
      case RMAPE: case RSTRE: chk( s.o->gdxUELRegisterDone(), "UELRegisterDone" ); s.m = RINIT; break;
      case RFILT: chk( s.o->gdxFilterRegisterDone(), "FilterRegisterDone" ); s.m = RINIT; break;
      case WDOMR: case WRAW: { int kk[20] = { 3, 3 }; double d[5] = { 9, 8, 7, 6, 5 }; r += fmt( "write %d\n", s.o->gdxDataWriteRaw( kk, d ) ); s.o->gdxGetLastError(); chk( s.o->gdxDataWriteDone(), "DataWriteDone" ); s.o->gdxGetLastError(); s.m = WINIT; break; }
      case WDOMM: case WMAP: { int kk[20] = { 1, 2 }; double d[5] = { 9, 8, 7, 6, 5 }; r += fmt( "write %d\n", s.o->gdxDataWriteMap( kk, d ) ); s.o->gdxGetLastError(); chk( s.o->gdxDataWriteDone(), "DataWriteDone" ); s.o->gdxGetLastError(); s.m = WINIT; break; }
      case WDOMS: case WSTR: { KeyIn kk( { "q", "q" } ); double d[5] = { 9, 8, 7, 6, 5 }; chk( s.o->gdxDataWriteStr( kk.get(), d ), "DataWriteStr" ); chk( s.o->gdxDataWriteDone(), "DataWriteDone" ); s.o->gdxGetLastError(); s.m = WINIT; break; }
      case RRAW:
         while( s.o->gdxDataReadRaw( k, x, df ) ) r += fmt( "rec %d %d %g %d\n", k[0], k[1], x[0], df );
         s.m = RINIT;
         break;
      case RMAP:
         while( s.o->gdxDataReadMap( 0, k, x, df ) ) r += fmt( "rec %d %d %g %d\n", k[0], k[1], x[0], df );
         chk( s.o->gdxDataReadDone(), "DataReadDone" );
         s.m = RINIT;
         break;
      case RSTR:
         while( s.o->gdxDataReadStr( kb.get(), x, df ) ) r += fmt( "rec %s %g %d\n", kb.ptr[0], x[0], df );
         s.m = RINIT;
         break;
      case RSLICE: {
         KeyIn kk( { "", "" } );
         chk( s.o->gdxDataReadSlice( kk.get(), n, cbRaw ), "DataReadSlice" );
         r += "slice" + cbDone() + "\n";
         chk( s.o->gdxDataReadDone(), "DataReadDone" );
         s.m = RINIT;
         break;
      }
      default: break;
   }
   if( s.m == CLOSED )
   {
      chk( s.o->gdxOpenWrite( s.f( "w.gdx" ).c_str(), "late", n ), "OpenWrite" );
      s.wfile = "w.gdx";
      s.m = WINIT;
   }
   if( s.m == WINIT )
   {
      chk( s.o->gdxDataWriteStrStart( "zlast", "last", 1, T_PAR, 0 ), "DataWriteStrStart" );
      KeyIn kk( { "zz" } );
      double d[5] = { 4.5 };
      chk( s.o->gdxDataWriteStr( kk.get(), d ) && s.o->gdxDataWriteDone(), "writing a symbol" );
      int e = s.o->gdxGetLastError();
      CK( e == 0, "cannot-complete", "writing the last symbol reports error %d", e );
      int rc = s.o->gdxClose();
      CK( rc == 0, "cannot-complete", "closing reports %d", rc );
      s.m = CLOSED;
      auto fc = dumpFile( s.f( s.wfile.c_str() ) );
      CK( fc.ok, "incomplete", "the closed file cannot be opened, error %d", fc.err );
      CK( !fc.syms.empty() && fc.syms.back().name == "zlast" && fc.syms.back().recs.size() == 1 && fc.syms.back().recs[0].v[0] == 4.5, "incomplete", "the last symbol is missing: %s", show( fc ).c_str() );
      r += show( fc );
   }
   else
   {
      r += show( dumpOpen( *s.o ) );
      int e = s.o->gdxGetLastError();
      CK( e == 0, "cannot-complete", "reading everything reports error %d", e );
      int cnt = 0, hi = 0;
      s.o->gdxUMUelInfo( cnt, hi );
      r += fmt( "uels %d high %d:", cnt, hi );
      for( int i = 1; i <= cnt; i++ )
      {
         char b[256];
         int mp;
         s.o->gdxUMUelGet( i, b, mp );
         r += fmt( " %s/%d", b, mp );
      }
      int fa[20] = { gdx::DOMC_EXPAND, gdx::DOMC_EXPAND };
      chk( s.o->gdxDataReadFilteredStart( 2, fa, n ), "DataReadFilteredStart" );
      while( s.o->gdxDataReadMap( 0, k, x, df ) ) r += fmt( "map %d %d %g %d\n", k[0], k[1], x[0], df );
      chk( s.o->gdxDataReadDone(), "DataReadDone" );
      CK( s.o->gdxClose() == 0, "cannot-complete", "closing fails" );
      s.m = CLOSED;
   }
   return r;
}

static void ensure( Ctx &c )
{
   static string made;
   if( made != c.dir )
   {
      mk( c.path( "r.gdx" ) );
      writeBytes( c.path( "text.txt" ), "this is not a GDX file, but it is long enough to be read as one" );
      made = c.dir;
   }
   static string img;
   if( img.empty() ) img = readBytes( c.path( "r.gdx" ) );
   writeBytes( c.path( "a.gdx" ), img );
}

static void explore( Ctx &c, const vector<Op> &ops, int depth )
{
   int p = c.choose( NPREFIX, "state" );
   ensure( c );
   vector<int> seq;
   vector<bool> keep;
   vector<string> outs;
   vector<M> modes;
   string ra, rb;
   {
      Sess a;
      a.dir = c.dir;
      prefix( c, a, p );
      for( int i = 0; i < depth; i++ )
      {
         int k = c.choose( (int) ops.size(), "call" );
         a.uniq = i + 1;
         M m0 = a.m;
         modes.push_back( m0 );
         Out out;
         bool refused;
         c.note( fmt( "state %d: %s in mode %s", p, ops[(size_t) k].name.c_str(), mname[m0] ) );
         step( c, a, ops[(size_t) k], out, refused );
         seq.push_back( k );
         const Op &op = ops[(size_t) k];
         bool inMode = op.allowed & bit( m0 );
         // a refused call must be without effect; record reads at the end of the data and the calls documented to have
         // effects when they fail are part of both runs
         bool drop = op.kind == 1 || ( refused && !( inMode && ( op.kind == 3 || op.kind == 4 || op.name == "Slice" ) ) );
         keep.push_back( !drop );
         outs.push_back( out.txt );
      }
      c.state( mc::mix( (uint64_t) p, (uint64_t) a.m ) );
      ra = finish( c, a );
   }
   ensure( c );
   {
      Sess b;
      b.dir = c.dir;
      prefix( c, b, p );
      for( int i = 0; i < depth; i++ )
      {
         const Op &op = ops[(size_t) seq[(size_t) i]];
         b.uniq = i + 1;
         if( !keep[(size_t) i] )
         {
            // a read start ends a pending read even when it then fails
            if( op.kind == 2 && ( PENDING & bit( modes[(size_t) i] ) ) )
            {
               b.o->gdxDataReadDone();
               b.m = RINIT;
            }
            if( op.failTo != NM && ( op.allowed & bit( b.m ) ) ) b.m = op.failTo;
            continue;
         }
         Out out;
         bool refused;
         step( c, b, op, out, refused );
         CK( out.txt == outs[(size_t) i], "later-call", "%s gives '%s' after refused calls and '%s' without them", op.name.c_str(), outs[(size_t) i].c_str(), out.txt.c_str() );
      }
      rb = finish( c, b );
   }
   CK( ra == rb, "effect", "a refused call changed the outcome: %s", firstDiff( rb, ra ).c_str() );
}

static void single( Ctx &c )
{
   static const auto ops = build( true );
   explore( c, ops, 1 );
}
static void pairs( Ctx &c )
{
   static const auto ops = build( false ), opsAll = build( true );
   explore( c, c.thorough ? opsAll : ops, 2 );
}
static void triples( Ctx &c )
{
   static vector<Op> ops;
   if( ops.empty() )
      for( auto &o: build( false ) )
         if( o.kind != 1 ) ops.push_back( o );
   explore( c, ops, 3 );
}
// closing in any state: a file being written must be complete whatever was pending
static void closing( Ctx &c )
{
   int p = c.choose( NPREFIX, "state" );
   ensure( c );
   string before, after;
   bool writing;
   string wf;
   {
      Sess s;
      s.dir = c.dir;
      prefix( c, s, p );
      writing = s.m >= WINIT && s.m <= WSTR;
      wf = s.wfile;
      c.note( fmt( "close in state %d (%s)", p, mname[s.m] ) );
      int rc = s.o->gdxClose();
      if( s.m == CLOSED ) return;
      CK( rc == 0, "close", "closing in mode %s returns %d", mname[s.m], rc );
   }
   if( !writing ) return;
   auto fc = dumpFile( c.path( wf ) );
   CK( fc.ok, "close-incomplete", "closed in state %d without an error, but the file cannot be read (error %d)", p, fc.err );
   after = show( fc );
   ensure( c );
   Sess s;
   s.dir = c.dir;
   prefix( c, s, p );
   if( s.m == WRAWE || s.m == WMAPE || s.m == WSTRE ) CK( s.o->gdxUELRegisterDone(), "setup", "done" );
   if( s.m >= WDOMR && s.m <= WSTR ) CK( s.o->gdxDataWriteDone(), "setup", "done" );
   CK( s.o->gdxClose() == 0, "close", "closing" );
   before = show( dumpFile( c.path( wf ) ) );
   CK( before == after, "close-content", "closing in the middle loses data: %s", firstDiff( before, after ).c_str() );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P13";
   int n = (int) build( false ).size(), na = (int) build( true ).size();
   d.sc = { { "closing", closing, 3, fmt( "gdxClose in each of %d object states", NPREFIX ) },
            { "single", single, 3, fmt( "each of %d API calls (with good and bad arguments) in each of %d object states, then the session is completed", na, NPREFIX ) },
            { "pairs", pairs, 3, fmt( "all sequences of 2 of %d (%d) calls in each of %d object states", n, na, NPREFIX ) },
            { "triples", triples, 2, fmt( "all sequences of 3 calls without queries in each of %d object states", NPREFIX ) } };
   d.assumptions = { "starting a read ends a pending record read first (documented by the library's own tests), so its failure leaves no read pending",
                     "a failing gdxSymbolSetDomain still fixes the domain of the symbol (unknown domains become universe)", "gdxClose of a closed object is not judged" };
   return d.main( argc, argv );
}
