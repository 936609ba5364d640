// Every operation of a GDX object with small argument domains, and the session phases they are called in.
#pragma once
#include "gdxh.hpp"
#include "apiops.hpp"
#include <dlfcn.h>
#include <map>

using namespace gh;
namespace p23
{
CbLog cbl;
int dimOfSymbol[16];
}// namespace p23
using namespace p23;

namespace
{
struct OpRec
{
   string name;
   Res ( *obj )( TGXFileObj *, const vector<Val> & );
   Res ( *sym )( void *, void *, const vector<Val> &, Fl );
   void *c {}, *d {}, *f {}, *n {};
   vector<vector<Val>> dom;// per input argument
   size_t combos() const
   {
      size_t r = 1;
      for( auto &x: dom ) r *= x.size();
      return r;
   }
   vector<Val> args( size_t k ) const
   {
      vector<Val> r;
      for( auto &x: dom )
      {
         r.push_back( x[k % x.size()] );
         k /= x.size();
      }
      return r;
   }
};
vector<OpRec> ops;
std::map<string, int> opNr;

Val I( int i )
{
   Val v;
   v.i = i;
   return v;
}
Val D( double d )
{
   Val v;
   v.d = d;
   return v;
}
Val S( const string &s )
{
   Val v;
   v.s = s;
   return v;
}
Val VI( vector<int> x )
{
   Val v;
   v.vi = std::move( x );
   return v;
}
Val VD( vector<double> x )
{
   Val v;
   v.vd = std::move( x );
   return v;
}
Val VS( vector<string> x )
{
   Val v;
   v.vs = std::move( x );
   return v;
}
template<class T, class F>
vector<Val> each( F f, std::initializer_list<T> l )
{
   vector<Val> r;
   for( auto &x: l ) r.push_back( f( x ) );
   return r;
}
vector<Val> II( std::initializer_list<int> l ) { return each( I, l ); }
vector<Val> DD( std::initializer_list<double> l ) { return each( D, l ); }
vector<Val> SS( std::initializer_list<const char *> l )
{
   vector<Val> r;
   for( auto x: l ) r.push_back( S( x ) );
   return r;
}

string lower( string s )
{
   for( auto &ch: s ) ch = (char) tolower( ch );
   return s;
}
void buildOps()
{
   if( !ops.empty() ) return;
#define M( name ) \
   ops.push_back( { #name, []( TGXFileObj *o, const vector<Val> &in ) { return onObject( &TGXFileObj::name, o, in, 0 ); }, \
                    []( void *s, void *h, const vector<Val> &in, Fl fl ) { return onSymbol( &TGXFileObj::name, s, h, in, fl ); } } );
#include "apilist.hpp"
#undef M
   for( int i = 0; i < (int) ops.size(); i++ )
   {
      auto &o = ops[i];
      opNr[o.name] = i;
      o.c = dlsym( RTLD_DEFAULT, ( "c__" + lower( o.name ) ).c_str() );
      o.d = dlsym( RTLD_DEFAULT, ( "d__" + lower( o.name ) ).c_str() );
      o.f = dlsym( RTLD_DEFAULT, ( "f__" + lower( o.name ) ).c_str() );
      o.n = dlsym( RTLD_DEFAULT, ( "n__" + lower( o.name ) ).c_str() );
   }
   auto dom = [&]( const char *n, vector<vector<Val>> d ) { ops[opNr.at( n )].dom = std::move( d ); };
   string t255( 255, 'x' ), n63( 63, 'n' );
   t255[0] = 'A';
   t255[254] = 'Z';
   auto syNr = II( { 0, 1, 3, 5, 7, 99 } );
   auto vals = vector<Val> { VD( { 1.5, 2, 3, 4, 5 } ), VD( { 0, -1, 0, 3e300, 1 } ) };
   auto keys = vector<Val> { VI( { 1, 2, 1 } ), VI( { 2, 1, 1 } ), VI( { 9, 9, 9 } ) };
   auto names = SS( { "nn", "p", "" } );
   names.push_back( S( n63 ) );
   auto txt = SS( { "", "some text" } );
   txt.push_back( S( t255 ) );
   auto dims = II( { 0, 1, 2, 21 } );
   auto typ = II( { 0, 1, 2, 3, 4 } );
   auto uel = SS( { "a", "b", "zz", "" } );
   uel.push_back( S( n63 ) );
   auto strKeys = vector<Val> { VS( { "a", "b", "c" } ), VS( { "b", "a", "a" } ), VS( { "new", n63, "x" } ), VS( { "", "", "" } ) };
   auto slice = vector<Val> { VS( { "", "", "" } ), VS( { "a", "", "" } ), VS( { "", "b", "" } ), VS( { "a", "b", "" } ), VS( { "zz", "", "" } ) };
   auto stop = II( { 1, 99 } );
   auto doms = vector<Val> { VS( { "i", "i" } ), VS( { "i", "j" } ), VS( { "*", "i" } ), VS( { "none", "i" } ) };
   auto spec = vector<Val> { VD( { 11, 12, 13, 14, 15, 16, 17 } ), VD( { 21, 22, 23, 24, 25, 26, 27 } ) };
   dom( "gdxAcronymAdd", { SS( { "acr", "new" } ), txt, II( { 1, 7 } ) } );
   dom( "gdxAcronymGetInfo", { II( { 0, 1, 2, 9 } ) } );
   dom( "gdxAcronymGetMapping", { II( { 0, 1, 2, 9 } ) } );
   dom( "gdxAcronymIndex", { DD( { 1e301, 5e301, 2.0 } ) } );
   dom( "gdxAcronymName", { DD( { 1e301, 5e301, 2.0 } ) } );
   dom( "gdxAcronymNextNr", { II( { 0, 20 } ) } );
   dom( "gdxAcronymSetInfo", { II( { 1, 2 } ), SS( { "acr", "other" } ), SS( { "", "tx" } ), II( { 1, 5 } ) } );
   dom( "gdxAcronymValue", { II( { 0, 1, 4 } ) } );
   dom( "gdxAddAlias", { SS( { "i", "al", "p" } ), SS( { "al2", "i" } ) } );
   dom( "gdxAddSetText", { txt } );
   dom( "gdxAutoConvert", { II( { 0 } ) } );
   dom( "gdxDataErrorRecord", { II( { 0, 1, 2 } ) } );
   dom( "gdxDataErrorRecordX", { II( { 0, 1, 2 } ) } );
   dom( "gdxDataReadFilteredStart", { syNr, vector<Val> { VI( { -2, -2 } ), VI( { -1, -1 } ), VI( { 0, 0 } ), VI( { 1, -1 } ), VI( { 5, 1 } ) } } );
   dom( "gdxDataReadMap", { II( { 0, 1 } ) } );
   dom( "gdxDataReadMapStart", { syNr } );
   dom( "gdxDataReadRawFast", { syNr, stop } );
   dom( "gdxDataReadRawFastEx", { syNr, stop } );
   dom( "gdxDataReadRawFastFilt", { syNr, slice, stop } );
   dom( "gdxDataReadRawStart", { syNr } );
   dom( "gdxDataReadSlice", { slice, stop } );
   dom( "gdxDataReadSliceStart", { syNr } );
   dom( "gdxDataReadStrStart", { syNr } );
   dom( "gdxDataSliceUELS", { vector<Val> { VI( { 0, 0 } ), VI( { 1, 0 } ), VI( { 0, 1 } ), VI( { 2, 1 } ) } } );
   dom( "gdxDataWriteMap", { keys, vals } );
   dom( "gdxDataWriteMapStart", { names, txt, dims, typ, II( { 0, 53 } ) } );
   dom( "gdxDataWriteRaw", { vector<Val> { VI( { 1, 2, 1 } ), VI( { 2, 1, 1 } ) }, vals } );
   dom( "gdxDataWriteRawStart", { names, txt, dims, typ, II( { 0, 53 } ) } );
   dom( "gdxDataWriteRawStartKeyBounds", { SS( { "nn", "p" } ), txt, II( { 0, 1, 2 } ), typ, II( { 0, 53 } ), vector<Val> { VI( { 1, 1 } ) }, vector<Val> { VI( { 3, 4 } ), VI( { 300, 70000 } ) } } );
   dom( "gdxDataWriteStr", { strKeys, vals } );
   dom( "gdxDataWriteStrStart", { names, txt, dims, typ, II( { 0, 53 } ) } );
   dom( "gdxErrorStr", { II( { 0, -100002, -100033, 2, 99999 } ) } );
   dom( "gdxFilterExists", { II( { 0, 1, 2 } ) } );
   dom( "gdxFilterRegister", { II( { 0, 1, 2, 99 } ) } );
   dom( "gdxFilterRegisterStart", { II( { 0, 1, 2 } ) } );
   dom( "gdxFindSymbol", { SS( { "i", "P", "*", "nosuch", "" } ) } );
   dom( "gdxGetElemText", { II( { 0, 1, 2, 99, -1 } ) } );
   dom( "gdxGetUEL", { II( { 0, 1, 2, 3, 99, -1 } ) } );
   dom( "gdxMapValue", { DD( { 0.0, 1e300, 2e300, 3e300, 4e300, 5e300, 1.0 } ) } );
   dom( "gdxOpenAppend", { SS( { "@A", "@missing" } ), SS( { "prod2" } ) } );
   dom( "gdxOpenRead", { SS( { "@A", "@missing", "@bad" } ) } );
   dom( "gdxOpenReadEx", { SS( { "@A", "@missing" } ), II( { 0, 1 } ) } );
   dom( "gdxOpenWrite", { SS( { "@W2", "@nodir/x" } ), SS( { "prod" } ) } );
   dom( "gdxOpenWriteEx", { SS( { "@W2" } ), SS( { "prod", "" } ), II( { 0, 1 } ) } );
   dom( "gdxSetHasText", { syNr } );
   dom( "gdxSetReadSpecialValues", { spec } );
   dom( "gdxSetSpecialValues", { spec } );
   dom( "gdxSetTextNodeNr", { II( { 1, 99 } ), II( { 5, 6 } ) } );
   dom( "gdxSetTraceLevel", { II( { 0, 1 } ), SS( { "", "tr" } ) } );
   dom( "gdxSymbIndxMaxLength", { syNr } );
   dom( "gdxSymbolAddComment", { II( { -1, 0, 1, 99 } ), txt } );
   dom( "gdxSymbolGetComment", { II( { 0, 1, 3, 99 } ), II( { 0, 1, 2, 3 } ) } );
   dom( "gdxSymbolGetDomain", { syNr } );
   dom( "gdxSymbolGetDomainX", { II( { 0, 1, 2, 3, 4, 5, 7, 8, 99 } ) } );
   dom( "gdxSymbolDim", { syNr } );
   dom( "gdxSymbolInfo", { syNr } );
   dom( "gdxSymbolInfoX", { syNr } );
   dom( "gdxSymbolSetDomain", { doms } );
   dom( "gdxSymbolSetDomainX", { II( { 1, 2, 3, 99 } ), doms } );
   dom( "gdxUELRegisterMap", { II( { -1, 1, 7, 90 } ), uel } );
   dom( "gdxUELRegisterRaw", { uel } );
   dom( "gdxUELRegisterStr", { uel } );
   dom( "gdxUMFindUEL", { uel } );
   dom( "gdxUMUelGet", { II( { 0, 1, 2, 99, -1 } ) } );
   dom( "gdxGetDomainElements", { II( { 0, 1, 3, 5, 99 } ), II( { 0, 1, 2, 3 } ), II( { -2, -1, 0, 1, 9 } ), II( { 0 } ) } );
   dom( "gdxRenameUEL", { uel, uel } );
   dom( "gdxStoreDomainSetsSet", { II( { 0, 1 } ) } );
   dom( "gdxAllowBogusDomainsSet", { II( { 0, 1 } ) } );
   dom( "gdxMapAcronymsToNaNSet", { II( { 0, 1 } ) } );
}

string show( const Res &r )
{
   string s = "result " + r.ret;
   for( auto &o: r.outs )
      if( !o.untouched ) s += " [" + ( o.v.size() > 90 ? o.v.substr( 0, 87 ) + "..." : o.v ) + "]";
   if( !r.cb.empty() ) s += " callbacks " + r.cb;
   return s;
}
string showIn( const vector<Val> &in )
{
   string s;
   for( auto &v: in )
   {
      s += s.empty() ? "" : ", ";
      if( !v.vi.empty() )
         for( int x: v.vi ) s += fmt( "%d ", x );
      else if( !v.vd.empty() )
         for( double x: v.vd ) s += fmt( "%g ", x );
      else if( !v.vs.empty() )
         for( auto &x: v.vs ) s += "'" + x.substr( 0, 20 ) + "' ";
      else if( !v.s.empty() )
         s += "'" + v.s.substr( 0, 20 ) + "'";
      else
         s += v.d != 0 ? fmt( "%g", v.d ) : fmt( "%d", v.i );
   }
   return s;
}
// ---- fixture and phases
void fixture( Ctx &c, const string &dir )
{
   ::mkdir( dir.c_str(), 0777 );
   string msg;
   TGXFileObj o( msg );
   int e, nr;
   o.gdxOpenWrite( ( dir + "/A" ).c_str(), "fixture", e );
   auto put = [&]( vector<string> k, vector<double> v ) {
      KeyIn ki( k );
      v.resize( 5 );
      o.gdxDataWriteStr( ki.p.data(), v.data() );
   };
   int t1, t2;
   o.gdxAddSetText( "text one", t1 );
   string lt( 255, 'L' );
   o.gdxAddSetText( lt.c_str(), t2 );
   o.gdxAcronymAdd( "acr", "acronym text", 1 );
   string n63( 63, 'q' );
   o.gdxDataWriteStrStart( "i", "first set", 1, 0, 0 );
   put( { "a" }, { (double) t1 } );
   put( { "b" }, { (double) t2 } );
   put( { "c" }, { 0 } );
   put( { n63 }, { 0 } );
   o.gdxDataWriteDone();
   o.gdxDataWriteStrStart( "j", "", 1, 0, 0 );
   const char *di[] { "i", "j" };
   o.gdxSymbolSetDomain( di );
   put( { "a" }, { 0 } );
   put( { "b" }, { 0 } );
   o.gdxDataWriteDone();
   o.gdxDataWriteStrStart( "p", string( 255, 'P' ).c_str(), 2, 1, 0 );
   o.gdxSymbolSetDomain( di );
   put( { "a", "a" }, { 1 } );
   put( { "a", "b" }, { 1e301 } );
   put( { "b", "a" }, { 2.5 } );
   put( { "c", "b" }, { 5e300 } );
   o.gdxDataWriteDone();
   o.gdxSymbolAddComment( 3, "comment 1" );
   o.gdxSymbolAddComment( 3, string( 255, 'C' ).c_str() );
   o.gdxDataWriteStrStart( "s", "scalar", 0, 1, 0 );
   put( {}, { 3 } );
   o.gdxDataWriteDone();
   o.gdxDataWriteStrStart( "x", "", 1, 2, 3 );
   put( { "a" }, { 1, 2, 3, 4, 5 } );
   put( { "c" }, { 1, 2, 4e300, 3e300, 5 } );
   o.gdxDataWriteDone();
   o.gdxDataWriteStrStart( "e", "", 0, 3, 53 );
   o.gdxDataWriteDone();
   o.gdxAddAlias( "i", "ii" );
   o.gdxDataWriteStrStart( "r", "", 2, 1, 0 );
   put( { "b", "b" }, { 7 } );
   o.gdxDataWriteDone();
   const char *rel[] { "foo", "i" };
   nr = o.gdxSymbolSetDomainX( 8, rel );
   (void) nr;
   o.gdxClose();
   FILE *f = fopen( ( dir + "/bad" ).c_str(), "wb" );
   fputs( "no gdx file", f );
   fclose( f );
   int dm[] { 1, 1, 1, 2, 0, 1, 0, 1, 2 };
   for( int i = 0; i < 9; i++ ) dimOfSymbol[i] = dm[i];
   (void) c;
}

const char *phaseName[] { "closed", "write init", "write with symbols", "string write", "raw write", "mapped write", "raw registration", "mapped registration",
                          "string registration", "read init", "raw read", "mapped read", "string read", "slice read", "filter registration", "filter and mapping",
                          "filtered read", "data errors", "append", "mapped read registration", "closed after read", "string read to the end" };
constexpr int phaseCount = sizeof phaseName / sizeof *phaseName;
template<class Sess>
void enter( Sess &s, int ph )
{
   auto reg = [&] {
      s.pre( "gdxUELRegisterMapStart" );
      s.pre( "gdxUELRegisterMap", { I( 1 ), S( "a" ) } );
      s.pre( "gdxUELRegisterMap", { I( 2 ), S( "b" ) } );
      s.pre( "gdxUELRegisterMap", { I( 7 ), S( "c" ) } );
   };
   auto sets = [&] {
      s.call( "gdxAddSetText", { S( "tx" ) } );
      s.pre( "gdxDataWriteStrStart", { S( "i" ), S( "set" ), I( 1 ), I( 0 ), I( 0 ) } );
      s.pre( "gdxDataWriteStr", { VS( { "a" } ), VD( { 1 } ) } );
      s.pre( "gdxDataWriteStr", { VS( { "b" } ), VD( { 0 } ) } );
      s.pre( "gdxDataWriteDone" );
      s.pre( "gdxDataWriteStrStart", { S( "p" ), S( "" ), I( 1 ), I( 1 ), I( 0 ) } );
      s.pre( "gdxDataWriteStr", { VS( { "a" } ), VD( { 4.5 } ) } );
      s.pre( "gdxDataWriteDone" );
   };
   if( ph == 0 ) return;
   if( ph <= 8 || ph == 17 )
   {
      s.pre( "gdxOpenWrite", { S( "@W" ), S( "producer" ) } );
      if( ph == 1 ) return;
      if( ph >= 6 && ph <= 8 )
      {
         s.pre( ph == 6 ? "gdxUELRegisterRawStart" : ph == 7 ? "gdxUELRegisterMapStart" : "gdxUELRegisterStrStart" );
         return;
      }
      if( ph == 4 || ph == 5 )
      {
         reg();
         s.pre( "gdxUELRegisterDone" );
      }
      else
         sets();
      if( ph == 3 ) s.pre( "gdxDataWriteStrStart", { S( "q" ), S( "" ), I( 2 ), I( 1 ), I( 0 ) } );
      if( ph == 4 ) s.pre( "gdxDataWriteRawStart", { S( "q" ), S( "" ), I( 2 ), I( 2 ), I( 0 ) } );
      if( ph == 5 ) s.pre( "gdxDataWriteMapStart", { S( "q" ), S( "" ), I( 2 ), I( 3 ), I( 53 ) } );
      if( ph == 17 )
      {
         s.pre( "gdxDataWriteStrStart", { S( "q" ), S( "" ), I( 1 ), I( 1 ), I( 0 ) } );
         s.pre( "gdxDataWriteStr", { VS( { "a" } ), VD( { 1 } ) } );
         s.pre( "gdxDataWriteStr", { VS( { "a" } ), VD( { 2 } ) } );
         s.pre( "gdxDataWriteDone" );
      }
      return;
   }
   if( ph == 18 )
   {
      s.pre( "gdxOpenAppend", { S( "@A" ), S( "app" ) } );
      return;
   }
   s.pre( "gdxOpenRead", { S( "@A" ) } );
   if( ph == 10 ) s.pre( "gdxDataReadRawStart", { I( 3 ) } );
   if( ph == 11 || ph == 14 || ph == 15 || ph == 16 || ph == 19 ) reg();
   if( ph == 11 || ph == 14 || ph == 15 || ph == 16 ) s.pre( "gdxUELRegisterDone" );
   if( ph == 11 ) s.pre( "gdxDataReadMapStart", { I( 3 ) } );
   if( ph == 12 || ph == 21 ) s.pre( "gdxDataReadStrStart", { I( ph == 12 ? 3 : 1 ) } );
   if( ph == 21 )
      for( int i = 0; i < 3; i++ ) s.pre( "gdxDataReadStr" );
   if( ph == 13 ) s.pre( "gdxDataReadSliceStart", { I( 3 ) } );
   if( ph == 14 || ph == 15 || ph == 16 )
   {
      s.pre( "gdxFilterRegisterStart", { I( 1 ) } );
      s.pre( "gdxFilterRegister", { I( 1 ) } );
      if( ph == 14 ) return;
      s.pre( "gdxFilterRegister", { I( 2 ) } );
      s.pre( "gdxFilterRegisterDone" );
      if( ph == 16 ) s.pre( "gdxDataReadFilteredStart", { I( 3 ), VI( { 1, -1 } ) } );
   }
   if( ph == 20 ) s.pre( "gdxClose", {}, "0" );
}

struct ProbeOp
{
   const char *n;
   vector<Val> in;
};
const vector<ProbeOp> &probeOps()
{
   static const vector<ProbeOp> p { { "gdxErrorCount", {} }, { "gdxDataErrorCount", {} }, { "gdxGetLastError", {} }, { "gdxSystemInfo", {} }, { "gdxUMUelInfo", {} }, { "gdxFileInfo", {} },
                                    { "gdxAcronymCount", {} }, { "gdxGetSpecialValues", {} }, { "gdxStoreDomainSets", {} }, { "gdxAllowBogusDomains", {} }, { "gdxMapAcronymsToNaN", {} },
                                    { "gdxGetMemoryUsed", {} }, { "gdxDataReadRaw", {} }, { "gdxDataReadMap", { I( 1 ) } }, { "gdxDataReadStr", {} }, { "gdxDataReadDone", {} },
                                    { "gdxDataErrorRecord", { I( 1 ) } }, { "gdxFilterRegisterDone", {} }, { "gdxUELRegisterDone", {} }, { "gdxDataWriteDone", {} },
                                    { "gdxSymbolInfo", { I( 1 ) } }, { "gdxSymbolInfoX", { I( 3 ) } }, { "gdxUMUelGet", { I( 1 ) } }, { "gdxUMUelGet", { I( 4 ) } }, { "gdxGetLastError", {} },
                                    { "gdxClose", {} }, { "gdxErrorCount", {} }, { "gdxGetLastError", {} } };
   return p;
}
string fixtureBytes;
void fresh( Ctx &c, const string &dir )
{
   static string made;
   if( made != c.dir )
   {
      fixture( c, c.path( "fix" ) );
      fixtureBytes = readBytes( c.path( "fix" ) + "/A" );
      made = c.dir;
   }
   ::mkdir( dir.c_str(), 0777 );
   ::unlink( ( dir + "/W" ).c_str() );
   ::unlink( ( dir + "/W2" ).c_str() );
   ::unlink( ( dir + "/missing" ).c_str() );
   writeBytes( dir + "/A", fixtureBytes );
   writeBytes( dir + "/bad", "no gdx file" );
}

struct Step
{
   int op;
   vector<Val> in;
};
}// namespace
