// P30: settings that observe or tune do not change what a session does.  Every operation with every combination of small
// arguments is run in every session phase with tracing off and at each level, and with the domain set bookkeeping switched
// off; sessions are run with tracing and bookkeeping switched at every point; the compression and conversion requests of
// the environment are enumerated with a stand-in converter that records how it is called and what it finds.
#include "../lib/apitab.hpp"
#include "../lib/sessions.hpp"
#include <algorithm>

namespace
{
struct Trace
{
   vector<Res> r;
   string w, w2, a;
};
// a session on the object; the trace level is set again after every successful open
struct Sess
{
   Ctx &c;
   int level;
   string dir;
   string msg;
   TGXFileObj o;
   Sess( Ctx &c_, int lev, const string &d ) : c( c_ ), level( lev ), dir( d ), o( msg )
   {
      ::mkdir( dir.c_str(), 0777 );
      o.gdxAutoConvert( 0 );
      trace();
   }
   void trace()
   {
      if( level ) CK( o.gdxSetTraceLevel( level, "trc" ) != 0, "trace:result", "gdxSetTraceLevel( %d ) returns 0", level );
   }
   string subst( const string &s ) const { return !s.empty() && s[0] == '@' ? dir + "/" + s.substr( 1 ) : s; }
   Res call( int op, vector<Val> in )
   {
      for( auto &v: in ) v.s = subst( v.s );
      auto &p = ops[op];
      cbl.keys = 1;
      if( p.name == "gdxDataReadSlice" )
      {
         cbl.keys = 0;
         for( int k = 0; k < 2 && k < (int) in[0].vs.size(); k++ ) cbl.keys += in[0].vs[k].empty();
      }
      else if( p.name.rfind( "gdxDataReadRawFast", 0 ) == 0 )
         cbl.keys = in[0].i >= 0 && in[0].i < 16 ? dimOfSymbol[in[0].i] : 0;
      static int token;
      cbl.uptr = &token;
      c.step( 1 );
      Res r = p.obj( &o, in );
      if( p.name.rfind( "gdxOpen", 0 ) == 0 && r.ret != "0" ) trace();
      for( auto &x: r.outs )
         for( size_t q; ( q = x.v.find( dir + "/" ) ) != string::npos; ) x.v.replace( q, dir.size() + 1, "@" );
      return r;
   }
   Res call( const char *n, const vector<Val> &in = {} ) { return call( opNr.at( n ), in ); }
   void pre( const char *n, const vector<Val> &in = {}, const char *want = "1" )
   {
      auto r = call( n, in );
      if( r.ret != want ) c.fail( string( "prefix:" ) + n, fmt( "%s as part of an ordinary session returns %s at trace level %d", n, r.ret.c_str(), level ) );
   }
};
Trace runOne( Ctx &c, int level, int ph, const vector<Step> &st )
{
   string dir = c.path( fmt( "l%d", level ) );
   fresh( c, dir );
   Trace t;
   {
      Sess s( c, level, dir );
      enter( s, ph );
      for( auto &x: st ) t.r.push_back( s.call( x.op, x.in ) );
      for( auto &p: probeOps() ) t.r.push_back( s.call( p.n, p.in ) );
   }
   t.w = readBytes( dir + "/W" );
   t.w2 = readBytes( dir + "/W2" ) + readBytes( dir + "/missing" );
   t.a = readBytes( dir + "/A" );
   return t;
}
void compareTraces( Ctx &c, int level, int ph, const vector<Step> &st, const Trace &want, const Trace &got )
{
   for( size_t i = 0; i < want.r.size(); i++ )
   {
      bool isOp = i < st.size();
      string op = isOp ? ops[st[i].op].name : probeOps()[i - st.size()].n;
      string what = string( "phase '" ) + phaseName[ph] + "'";
      for( size_t k = 0; k < st.size() && k <= i; k++ ) what += ": " + ops[st[k].op].name + "( " + showIn( st[k].in ) + " )";
      if( !isOp ) what += " and then " + op;
      auto &w = want.r[i], &g = got.r[i];
      bool same = w.ret == g.ret && w.cb == g.cb && w.outs.size() == g.outs.size();
      for( size_t k = 0; same && k < w.outs.size(); k++ ) same = w.outs[k].v == g.outs[k].v;
      CK( same, "trace:" + ( isOp ? op : ops[st.back().op].name + "+" + op ), "%s: at trace level %d: %s; without tracing: %s", what.c_str(), level, show( g ).c_str(), show( w ).c_str() );
   }
   const char *op = ops[st.back().op].name.c_str();
   CK( want.w == got.w && want.w2 == got.w2 && want.a == got.a, string( "trace:file:" ) + op, "phase '%s': %s( %s ) at trace level %d: the files differ from those without tracing (%zu/%zu, %zu/%zu, %zu/%zu bytes)",
       phaseName[ph], op, showIn( st.back().in ).c_str(), level, got.w.size(), want.w.size(), got.w2.size(), want.w2.size(), got.a.size(), want.a.size() );
}
void single( Ctx &c )
{
   buildOps();
   int ph = c.choose( phaseCount, "phase" );
   int op = c.choose( (int) ops.size(), "operation" );
   size_t k = (size_t) c.choose( (int) ops[op].combos(), "arguments" );
   vector<Step> st { { op, ops[op].args( k ) } };
   c.note( string( phaseName[ph] ) + ": " + ops[op].name + "( " + showIn( st[0].in ) + " )" );
   Trace want = runOne( c, 0, ph, st );
   for( int l = 1; l <= 3; l++ ) compareTraces( c, l, ph, st, want, runOne( c, l, ph, st ) );
   c.outcome( mc::hashStr( ops[op].name + want.r[0].ret ) );
   c.state( mc::hashStr( fmt( "%d %d %s", ph, op, want.r[0].ret.c_str() ) ) );
}
void pairs( Ctx &c )
{
   buildOps();
   static const vector<int> quickPhases { 2, 5, 9, 11, 15, 17 };
   int ph = c.thorough ? c.choose( phaseCount, "phase" ) : quickPhases[c.choose( (int) quickPhases.size(), "phase" )];
   int o1 = c.choose( (int) ops.size(), "first operation" );
   size_t n1 = c.thorough ? std::min<size_t>( ops[o1].combos(), 3 ) : 1;
   size_t k1 = (size_t) c.choose( (int) n1, "first arguments" );
   int o2 = c.choose( (int) ops.size(), "second operation" );
   size_t n2 = c.thorough ? std::min<size_t>( ops[o2].combos(), 3 ) : 1;
   size_t k2 = (size_t) c.choose( (int) n2, "second arguments" );
   auto spread = []( const OpRec &o, size_t k, size_t n ) { return n <= 1 ? o.combos() / 2 : k * ( o.combos() - 1 ) / ( n - 1 ); };
   vector<Step> st { { o1, ops[o1].args( spread( ops[o1], k1, n1 ) ) }, { o2, ops[o2].args( spread( ops[o2], k2, n2 ) ) } };
   c.note( string( phaseName[ph] ) + ": " + ops[o1].name + "( " + showIn( st[0].in ) + " ), " + ops[o2].name + "( " + showIn( st[1].in ) + " )" );
   Trace want = runOne( c, 0, ph, st );
   compareTraces( c, 3, ph, st, want, runOne( c, 3, ph, st ) );
   c.outcome( mc::hashStr( ops[o1].name + ops[o2].name + want.r[0].ret + want.r[1].ret ) );
}

// whole sessions: the setting is switched on before call i and off again before call j
struct Tune
{
   const char *name;
   void ( *on )( Obj & );
   void ( *off )( Obj & );
};
const Tune tunes[] {
        { "no tuning", []( Obj & ) {}, []( Obj & ) {} },
        { "trace level 1", []( Obj &o ) { o->gdxSetTraceLevel( 1, "t" ); }, []( Obj &o ) { o->gdxSetTraceLevel( 0, "" ); } },
        { "trace level 3", []( Obj &o ) { o->gdxSetTraceLevel( 3, "t" ); }, []( Obj &o ) { o->gdxSetTraceLevel( -1, "" ); } },
        { "domain sets not stored", []( Obj &o ) { o->gdxStoreDomainSetsSet( 0 ); }, []( Obj &o ) { o->gdxStoreDomainSetsSet( 1 ); } },
        { "acronyms mapped on reading", []( Obj &o ) { o->gdxMapAcronymsToNaNSet( 1 ); }, []( Obj &o ) { o->gdxMapAcronymsToNaNSet( 0 ); } },
        { "questions about the object", []( Obj &o ) {
            char a[256], b[256], d[256];
            int x, y;
            o->gdxFileVersion( a, b );
            o->gdxGetDLLVersion( d );
            o->gdxSystemInfo( x, y );
            o->gdxUMUelInfo( x, y );
            o->gdxFileInfo( x, y );
            o->gdxGetMemoryUsed();
            o->gdxErrorCount();
            o->gdxUELMaxLength();
            o->gdxSymbMaxLength();
            o->gdxAcronymCount();
            o->gdxFindSymbol( "i", x );
            double v[7];
            o->gdxGetSpecialValues( v );
            o->gdxCurrentDim();
            o->gdxDataErrorCount(); }, []( Obj & ) {} } };
void sessions( Ctx &c )
{
   int tn = 1 + c.choose( 5, "setting" );
   bool app = c.choose( 2, "append" );
   auto ss = app ? appendSessions( c.thorough ) : freshSessions( c.thorough );
   auto &s = ss[c.choose( (int) ss.size(), "session" )];
   int n = (int) s.calls.size();
   int i = c.choose( n + 1, "on before call" ), j = i + c.choose( n + 1 - i, "calls until off" );
   c.note( fmt( "%s%s: %s from call %d to call %d", app ? "append " : "", s.name.c_str(), tunes[tn].name, i, j ) );
   string out[2];
   string rets[2];
   for( int k = 0; k < 2; k++ )
   {
      string fn = c.path( "s.gdx" );
      ::unlink( fn.c_str() );
      if( s.append ) baseFile( fn, s.compress );
      auto &t = tunes[k ? tn : 0];
      Obj o;
      o->gdxAutoConvert( 0 );
      int e = 0;
      bool ok = s.append ? o->gdxOpenAppend( fn.c_str(), s.producer.c_str(), e ) : o->gdxOpenWriteEx( fn.c_str(), s.producer.c_str(), s.compress, e );
      CK( ok, "open", "the session '%s' cannot be started: %d", s.name.c_str(), e );
      for( int q = 0; q <= n; q++ )
      {
         if( q == i ) t.on( o );
         if( q == j && j > i ) t.off( o );
         if( q < n ) rets[k] += s.calls[q]( o ) ? "1" : "0";
         c.step( 1 );
      }
      rets[k] += fmt( " errors %d", o->gdxErrorCount() );
      rets[k] += fmt( " close %d", o->gdxClose() );
      out[k] = readBytes( fn );
   }
   CK( rets[0] == rets[1], "tune:results", "session '%s': results %s with %s from call %d to call %d, %s without", s.name.c_str(), rets[1].c_str(), tunes[tn].name, i, j, rets[0].c_str() );
   CK( out[0] == out[1], "tune:file", "session '%s': with %s from call %d to call %d the file differs (%zu/%zu bytes)", s.name.c_str(), tunes[tn].name, i, j, out[1].size(), out[0].size() );
   c.outcome( mc::hashStr( rets[0] + s.name ) );
}

// ---- environment
struct Env
{
   const char *n;
   bool had;
   string old;
   Env( const char *name, const char *v ) : n( name ), had( getenv( name ) != nullptr ), old( had ? getenv( name ) : "" )
   {
      if( v ) setenv( n, v, 1 );
      else unsetenv( n );
   }
   ~Env()
   {
      if( had ) setenv( n, old.c_str(), 1 );
      else unsetenv( n );
   }
};
const char *const comprVals[] { nullptr, "", "0", "n", "N", "no", "1", "y", "Yes", "2", "on", " 0", "00", "x" };
int comprWant( const char *v )
{
   if( !v || !*v ) return 0;
   return strchr( "nN0", *v ) ? 0 : 1;
}
void compressEnv( Ctx &c )
{
   const char *v = comprVals[c.choose( (int) ( sizeof comprVals / sizeof *comprVals ), "GDXCOMPRESS" )];
   auto ss = freshSessions( c.thorough );
   auto s = ss[c.choose( (int) ss.size(), "session" )];
   c.note( fmt( "GDXCOMPRESS=%s, session '%s'", v ? v : "(unset)", s.name.c_str() ) );
   Env e( "GDXCOMPRESS", v );
   int want = comprWant( v );
   string out[3];
   for( int k = 0; k < 3; k++ )// through the environment; told so; told the opposite
   {
      string fn = c.path( fmt( "c%d.gdx", k ) );
      Obj o;
      o->gdxAutoConvert( 0 );
      int er = 0;
      int ok = k == 0 ? o->gdxOpenWrite( fn.c_str(), "writer", er ) : o->gdxOpenWriteEx( fn.c_str(), "writer", k == 1 ? want : !want, er );
      CK( ok && !er, "open", "open fails: %d", er );
      for( auto &call: s.calls ) call( o );
      CK( o->gdxClose() == 0, "close", "close fails" );
      out[k] = readBytes( fn );
      Obj r;
      CK( r->gdxOpenRead( fn.c_str(), er ), "read", "reading back fails: %d", er );
      int ver = 0, com = -1;
      CK( r->gdxFileInfo( ver, com ) && com == ( k == 2 ? !want : want ), "compress:flag", "a file written with %s reports compression %d", k == 0 ? fmt( "GDXCOMPRESS=%s", v ? v : "(unset)" ).c_str() : k == 1 ? "the flag of GDXCOMPRESS" : "the opposite flag", com );
   }
   CK( out[0] == out[1], "compress:env", "GDXCOMPRESS=%s: gdxOpenWrite does not write what gdxOpenWriteEx with %d writes", v ? v : "(unset)", want );
   FileC a = dumpFile( c.path( "c0.gdx" ) ), b = dumpFile( c.path( "c2.gdx" ) );
   string sa = show( a, false ), sb = show( b, false );
   CK( sa == sb, "compress:content", "session '%s': compressed and uncompressed content differ: %s", s.name.c_str(), firstDiff( sa, sb ).c_str() );
   c.outcome( (uint64_t) want );
}

// ---- conversion on close: a stand-in for the converter records its arguments and the file it finds
const char *const convVals[] { nullptr, "", "V7", "v7", " v7 ", "V6", "v5", "V5" };
void convert( Ctx &c )
{
   static const vector<string> names { "plain.gdx", "with blank.gdx", "a(1)&b;c$d.gdx", "it's.gdx", "back`q`\\.gdx" };
   int nv = c.choose( 2, "AutoConvert" );
   int kind = c.choose( 4, "session" );// write, write nothing, append, read
   int written = c.choose( 2, "written compressed" );
   const char *cv = convVals[c.choose( (int) ( sizeof convVals / sizeof *convVals ), "GDXCONVERT" )];
   static const vector<int> cvals { 0, 2, 3, 6, 7, 8 };
   const char *co = comprVals[cvals[c.choose( (int) cvals.size(), "GDXCOMPRESS" )]];
   string base = names[c.choose( nv && kind == 0 ? (int) names.size() : 1, "file name" )];
   static const vector<int> rcs { 0, 1, 2, 3, 6, 13, 126, 127 };
   int rc = rcs[c.choose( nv && base == names[0] && kind < 3 ? ( c.thorough ? 8 : 4 ) : 1, "result of the converter" )];
   bool present = !( rc == 0 && nv && kind == 0 && base == names[0] && c.choose( 2, "converter missing" ) );
   c.note( fmt( "AutoConvert %d, session %d, compression %d, GDXCONVERT=%s, GDXCOMPRESS=%s, file %s, converter %s result %d", nv, kind, written, cv ? cv : "(unset)", co ? co : "(unset)", base.c_str(), present ? "present" : "missing", rc ) );
   string bin = c.path( "bin" ), fn = c.path( base ), log = c.path( "log" ), seen = c.path( "seen" );
   ::mkdir( bin.c_str(), 0777 );
   ::unlink( fn.c_str() );
   ::unlink( log.c_str() );
   ::unlink( seen.c_str() );
   string tool = bin + "/gdxcopy";
   ::unlink( tool.c_str() );
   if( present )
   {
      writeBytes( tool, "#!/bin/sh\nprintf '%s\\n' \"$#\" \"$@\" >> '" + log + "'\nfor f; do :; done\n/bin/cat < \"$f\" > '" + seen + "'\nexit " + std::to_string( rc ) + "\n" );
      ::chmod( tool.c_str(), 0755 );
   }
   Env p( "PATH", bin.c_str() ), e1( "GDXCONVERT", cv ), e2( "GDXCOMPRESS", co );
   if( kind >= 2 )
   {
      Obj o;
      o->gdxAutoConvert( 0 );
      int er;
      o->gdxOpenWriteEx( fn.c_str(), "w", written, er );
      cStr( "p", 1, T_PAR, 0, { { "a" }, { "b" } }, { Vals { 1 }, Vals { 2 } } )( o );
      o->gdxClose();
   }
   Obj o;
   string nmsg;
   int old = TGXFileObj( nmsg ).gdxAutoConvert( nv );
   o->gdxAutoConvert( nv );
   CK( old == 1 && o->gdxAutoConvert( nv ) == nv, "convert:default", "AutoConvert is %d in a new object and does not keep the new value", old );
   int er = 0, ok = 0;
   if( kind < 2 ) ok = o->gdxOpenWriteEx( fn.c_str(), "w", written, er );
   else if( kind == 2 ) ok = o->gdxOpenAppend( fn.c_str(), "w", er );
   else ok = o->gdxOpenRead( fn.c_str(), er );
   CK( ok && !er, "open", "open fails: %d", er );
   if( kind == 0 || kind == 2 ) cStr( "q", 1, T_PAR, 0, { { "a" }, { "c" } }, { Vals { 5 }, Vals { 6 } } )( o );
   CK( readBytes( log ).empty(), "convert:early", "the converter is started before the file is closed" );
   int res = o->gdxClose();
   string got = readBytes( log );
   // what has to happen
   string cvn = cv ? cv : "";
   cvn.erase( 0, cvn.find_first_not_of( ' ' ) == string::npos ? cvn.size() : cvn.find_first_not_of( ' ' ) );
   while( !cvn.empty() && cvn.back() == ' ' ) cvn.pop_back();
   for( auto &ch: cvn ) ch = (char) toupper( ch );
   if( cvn.empty() ) cvn = "V7";
   string target = cvn + ( cvn == "V5" ? "" : comprWant( co ) ? "C" : "U" );
   bool run = nv && kind < 3 && target != string( "V7" ) + ( written ? "C" : "U" );
   string want = run && present ? "3\n-" + target + "\n-Replace\n" + fn + "\n" : "";
   CK( got == want, run ? "convert:call" : "convert:uncalled", "the converter gets\n%s, expected\n%s", got.c_str(), want.c_str() );
   if( run && present )
      CK( readBytes( seen ) == readBytes( fn ), "convert:incomplete", "the converter finds an incomplete file: %zu of %zu bytes", readBytes( seen ).size(), readBytes( fn ).size() );
   // its failure is the result of the close
   if( !run || ( present && rc == 0 ) )
      CK( res == 0, "convert:result", "close returns %d although nothing failed", res );
   else
   {
      CK( res != 0, "convert:silent", "close returns 0 although the conversion failed (converter %s, result %d)", present ? "present" : "missing", rc );
      if( present && rc < 126 ) CK( res == -100100 - rc, "convert:code", "close returns %d for a conversion that fails with %d", res, rc );
      else CK( res == 100 + ( present ? rc : 127 ), "convert:code", "close returns %d when the converter cannot be run (%d)", res, present ? rc : 127 );
   }
   // and once only
   o->gdxClose();
   CK( readBytes( log ) == want, "convert:twice", "the converter is started again by a second close" );
   Obj r;
   CK( r->gdxOpenRead( fn.c_str(), er ), "read", "the file cannot be read afterwards: %d", er );
   int n = 0, nu = 0;
   r->gdxSystemInfo( n, nu );
   CK( n == ( kind == 0 ? 1 : kind == 1 ? 0 : kind == 2 ? 2 : 1 ), "content", "%d symbols", n );
   c.outcome( (uint64_t) ( run * 2 + ( res != 0 ) ) );
   c.state( mc::hashStr( target + fmt( "%d %d %d %d", written, nv, kind, rc ) ) );
   r->gdxClose();
   ::unlink( fn.c_str() );
}
}// namespace

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P30";
   d.sc = { { "trace-single", single, 3, "every operation x every combination of its argument domain x 22 session phases at trace levels 1, 2, 3 against no tracing, with 28 follow-up calls and file bytes" },
            { "trace-pairs", pairs, 3, "every ordered pair of operations in 6 phases with 1 argument set each (thorough: 22 phases, up to 3 x 3 argument sets) at trace level 3 against no tracing" },
            { "sessions", sessions, 3, "5 settings switched on before call i and off before call j, all i <= j, in every write and append session of the session library" },
            { "compress-env", compressEnv, 3, "14 values of GDXCOMPRESS x every write session, against the explicit flag and its opposite" },
            { "convert", convert, 3, "AutoConvert 0/1 x write, empty, append, read x compression x 8 GDXCONVERT x 6 GDXCOMPRESS values x 5 file names x results of the converter 0..3 (thorough 8 values) or missing" } };
   return d.main( argc, argv );
}
