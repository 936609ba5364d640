// Write sessions used as histories for crash points, failing system calls, damaged files and reuse.
#pragma once
#include "gdxh.hpp"
namespace gh
{
// one call of a session; returns false when the call reported a failure
using Call = std::function<bool( Obj & )>;
struct Session
{
   string name;
   bool append = false, compress = false;
   string producer = "writer";
   vector<Call> calls;// between open and close
};
inline Call cStr( const string &name, int dim, int typ, int user, const vector<vector<string>> &keys, const vector<Vals> &vals, const vector<string> &dom = {}, const vector<string> &texts = {} )
{
   return [=]( Obj &o ) {
      if( !o->gdxDataWriteStrStart( name.c_str(), ( "about " + name ).c_str(), dim, typ, user ) ) return false;
      bool ok = true;
      if( !dom.empty() )
      {
         KeyIn d( dom );
         ok &= o->gdxSymbolSetDomain( d.get() ) != 0;
      }
      for( size_t i = 0; i < keys.size(); i++ )
      {
         Vals v = vals.empty() ? Vals {} : vals[i % vals.size()];
         if( i < texts.size() && !texts[i].empty() )
         {
            int t = 0;
            ok &= o->gdxAddSetText( texts[i].c_str(), t ) != 0;
            v[0] = t;
         }
         KeyIn k( keys[i] );
         ok &= o->gdxDataWriteStr( k.get(), v.data() ) != 0;
      }
      ok &= o->gdxDataWriteDone() != 0;
      return ok;
   };
}
inline Call cRaw( const string &name, int dim, int n, double step, bool incompressible = false )
{
   return [=]( Obj &o ) {
      if( !o->gdxDataWriteRawStart( name.c_str(), "bulk", dim, T_PAR, 0 ) ) return false;
      bool ok = true;
      uint64_t x = 88172645463325252ULL;
      for( int i = 1; i <= n; i++ )
      {
         int k[20];
         for( int d = 0; d < dim; d++ ) k[d] = d + 1 < dim ? ( i + 9 ) / 10 : i;
         x ^= x << 13;
         x ^= x >> 7;
         x ^= x << 17;
         double v[5] = { incompressible ? 1.0 + (double) ( x >> 12 ) : step * ( i % 50 ) + 3, 0, 0, 0, 0 };
         ok &= o->gdxDataWriteRaw( k, v ) != 0;
      }
      ok &= o->gdxDataWriteDone() != 0;
      return ok;
   };
}
inline Call cUels( int n, const string &prefix )
{
   return [=]( Obj &o ) {
      bool ok = o->gdxUELRegisterRawStart() != 0;
      for( int i = 1; i <= n; i++ ) ok &= o->gdxUELRegisterRaw( fmt( "%s%d", prefix.c_str(), i ).c_str() ) != 0;
      return ok & ( o->gdxUELRegisterDone() != 0 );
   };
}
inline Call cRelaxed( int sy, const vector<string> &d )
{
   return [=]( Obj &o ) {
      KeyIn k( d );
      return o->gdxSymbolSetDomainX( sy, k.get() ) != 0;
   };
}
inline Call cComment( int sy, const string &t )
{
   return [=]( Obj &o ) { return o->gdxSymbolAddComment( sy, t.c_str() ) != 0; };
}
inline Call cAlias( const string &a, const string &b )
{
   return [=]( Obj &o ) { return o->gdxAddAlias( a.c_str(), b.c_str() ) != 0; };
}
inline Call cAcronym( const string &n, int i )
{
   return [=]( Obj &o ) { return o->gdxAcronymAdd( n.c_str(), "acronym text", i ) >= 0; };
}
inline Call cRename( const string &a, const string &b )
{
   return [=]( Obj &o ) { return o->gdxRenameUEL( a.c_str(), b.c_str() ) == 0; };
}
inline vector<Call> richCalls()
{
   return { cStr( "i", 1, T_SET, 0, { { "a" }, { "bb" }, { "c c" } }, {}, {}, { "first", "", "third" } ),
            cStr( "p", 2, T_PAR, 0, { { "a", "x" }, { "bb", "y" }, { "c c", "x" } }, { { 1.5 }, { -2 }, { 3e10 } }, { "i", "*" } ),
            cAcronym( "acro", 7 ),
            cStr( "v", 1, T_VAR, 3, { { "a" }, { "y" } }, { { 1, 2, 3, 4, 5 }, { 0, 0, -1, 1, 1 } } ),
            cRelaxed( 3, { "j" } ), cAlias( "i", "ii" ), cComment( 1, "a comment" ),
            cStr( "s", 0, T_PAR, 0, { {} }, { { 42.25 } } ) };
}
// fresh files
inline vector<Session> freshSessions( bool big )
{
   vector<Session> v;
   for( bool cmp: { false, true } )
   {
      v.push_back( { "empty", false, cmp, "", {} } );
      v.push_back( { "rich", false, cmp, "writer", richCalls() } );
      v.push_back( { "relaxed only", false, cmp, "w2", { cStr( "q", 2, T_PAR, 0, { { "k", "l" } }, { { 8 } } ), cRelaxed( 1, { "k", "l" } ) } } );
      v.push_back( { "labels only", false, cmp, "w3", { cUels( 3, "lab" ) } } );
      // the index straddles a 512 byte sector
      v.push_back( { "long producer", false, cmp, string( 255, 'p' ), { cStr( "q", 1, T_SET, 0, { { "k" } }, {}, {}, { "t" } ) } } );
      if( big )
      {
         v.push_back( { "bulk", false, cmp, "w4", { cUels( 4000, "u" ), cRaw( "b", 2, 4000, 0.5 ), cStr( "q", 1, T_SET, 0, { { "u7" }, { "new" } }, {}, {}, { "t" } ) } } );
         v.push_back( { "bulk incompressible", false, cmp, "w5", { cUels( 5000, "u" ), cRaw( "b", 1, 5000, 0.5, true ), cRelaxed( 1, { "k" } ) } } );
      }
   }
   return v;
}
// sessions appending to the rich file
inline vector<Session> appendSessions( bool big )
{
   vector<Session> v;
   for( bool cmp: { false, true } )
   {
      v.push_back( { "append nothing", true, cmp, "a", {} } );
      v.push_back( { "append symbol", true, cmp, "a", { cStr( "n", 1, T_PAR, 0, { { "a" }, { "new" } }, { { 5 } } ) } } );
      v.push_back( { "append labels", true, cmp, "a", { cUels( 2, "app" ) } } );
      v.push_back( { "append comment", true, cmp, "a", { cComment( 2, "late comment" ) } } );
      v.push_back( { "append relaxed", true, cmp, "a", { cRelaxed( 3, { "other" } ) } } );
      v.push_back( { "append alias", true, cmp, "a", { cAlias( "i", "iii" ) } } );
      v.push_back( { "append acronym", true, cmp, "a", { cAcronym( "two", 9 ) } } );
      v.push_back( { "append renames", true, cmp, "a", { cRename( "a", "A2" ), cRename( "y", "zz" ) } } );
      v.push_back( { "append same-length renames", true, cmp, "a", { cRename( "a", "k" ), cRename( "y", "z" ) } } );
      if( big ) v.push_back( { "append bulk", true, cmp, "a", { cUels( 4000, "u" ), cRaw( "b", 1, 4000, 0.5, cmp ) } } );
   }
   return v;
}
// runs the session; true if every call succeeded.  ncalls < 0: all calls and close
inline bool runSession( Obj &o, const Session &s, const string &fn, int ncalls = -1, bool *closed = nullptr )
{
   int rc = 0;
   bool ok;
   if( s.append ) ok = o->gdxOpenAppend( fn.c_str(), s.producer.c_str(), rc ) != 0;
   else
      ok = ( s.compress ? o->gdxOpenWriteEx( fn.c_str(), s.producer.c_str(), 1, rc ) : o->gdxOpenWrite( fn.c_str(), s.producer.c_str(), rc ) ) != 0;
   if( !ok || rc ) return false;
   int n = 0;
   for( auto &c: s.calls )
   {
      if( ncalls >= 0 && n++ >= ncalls ) return ok;
      ok &= c( o );
   }
   if( ncalls >= 0 && n >= ncalls ) return ok;
   if( o->gdxGetLastError() ) ok = false;
   if( o->gdxErrorCount() ) ok = false;
   if( closed ) *closed = true;
   ok &= o->gdxClose() == 0;
   if( o->gdxGetLastError() ) ok = false;
   return ok;
}
inline string baseFile( const string &fn, bool compress )
{
   Obj o;
   Session s { "rich", false, compress, "writer", richCalls() };
   if( !runSession( o, s, fn ) ) return "";
   return readBytes( fn );
}
}// namespace gh
