// Runs a command line tool of the tree that is linked into this process: every invocation in its own forked process,
// standard output and error collected.  The tool's generated C interface finds the library in this process.
#pragma once
#include "gdxh.hpp"
#include <dlfcn.h>
#include <iostream>

#ifdef VERIF_ALL_TOOLS
int tool_main_gdxdump( int argc, const char *argv[] );
int tool_main_gdxdiff( int argc, const char *argv[] );
int tool_main_gdxmerge( int argc, const char *argv[] );
inline int tool_main( int argc, const char *argv[] )
{
   std::string n = argv[0];
   return n == "gdxdump" ? tool_main_gdxdump( argc, argv ) : n == "gdxdiff" ? tool_main_gdxdiff( argc, argv ) : tool_main_gdxmerge( argc, argv );
}
#else
int tool_main( int argc, const char *argv[] );
#endif
extern "C" void *verif_dlopen( const char *, int ) { return dlopen( nullptr, RTLD_NOW ); }
extern "C" int verif_dlclose( void * ) { return 0; }

namespace th
{
using namespace gh;
struct Run
{
   int rc = -1;
   bool crashed {};
   string out, err;
};
inline string showCmd( const vector<string> &args )
{
   string s;
   for( auto &a: args ) s += ( s.empty() ? "" : " " ) + ( a.size() > 80 ? a.substr( 0, 77 ) + "..." : a );
   return s;
}
// before/after: run in the tool's process, `after` also when the tool calls exit
inline Run runTool( Ctx &c, const char *name, const vector<string> &args, void ( *before )() = nullptr, void ( *after )() = nullptr )
{
   string fo = c.path( "stdout" ), fe = c.path( "stderr" );
   c.note( string( name ) + " " + showCmd( args ) );
   fflush( nullptr );
   pid_t p = fork();
   if( p < 0 ) c.fail( "harness:fork", "fork failed" );
   if( !p )
   {
      int o = open( fo.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666 ), e = open( fe.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666 );
      dup2( o, 1 );
      dup2( e, 2 );
      close( o );
      close( e );
      setvbuf( stdout, nullptr, _IOFBF, 4096 );// as a program finds it whose output goes to a file
      if( chdir( c.dir.c_str() ) ) _exit( 77 );
      alarm( 30 );
      vector<const char *> av { name };
      for( auto &a: args ) av.push_back( a.c_str() );
      int n = (int) av.size();
      av.push_back( nullptr );
      if( after ) atexit( after );
      if( before ) before();
      int rc = tool_main( n, av.data() );
      if( after ) after();
      std::cout.flush();
      std::cerr.flush();
      fflush( nullptr );
      _exit( rc & 0xff );
   }
   int st = 0;
   while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) {}
   Run r;
   r.out = readBytes( fo );
   r.err = readBytes( fe );
   r.crashed = !WIFEXITED( st ) || WEXITSTATUS( st ) == 99 || WEXITSTATUS( st ) == 77;
   r.rc = WIFEXITED( st ) ? WEXITSTATUS( st ) : 1000 + WTERMSIG( st );
   if( r.crashed )
   {
      auto q = r.err.find( "ERROR: AddressSanitizer" );
      c.fail( "tool-crash", string( name ) + fmt( " ends abnormally (%d): ", r.rc ) + ( q == string::npos ? r.err.substr( 0, 600 ) : r.err.substr( q, 900 ) ) );
   }
   return r;
}

// ---- content of a file as the tools see it
struct TRec
{
   vector<string> k;
   Vals v {};
   string txt;
   bool operator<( const TRec &o ) const { return k < o.k; }
};
struct TSym
{
   string name, text;
   int type {}, dim {}, user {};
   vector<string> dom;// empty: universe
   bool strict {};    // strict or relaxed domain
   vector<string> comments;
   vector<TRec> recs;
   int aliasOf {};    // 1-based symbol, for type T_ALIAS
};
struct TFile
{
   vector<TSym> syms;
   vector<std::pair<string, string>> acr;
   vector<string> uels;// registered first
   vector<string> texts;// added first, used or not
};
constexpr double UND = 1e300, NA = 2e300, PINF = 3e300, MINF = 4e300, EPS = 5e300, ACR1 = 1e301, ACR2 = 2e301;

inline Vals defVar( int user )
{
   static const double lo[] = { 0, 0, 0, 0, MINF, MINF, 0, 0, 1, 1 }, up[] = { 0, 1, PINF, PINF, 0, PINF, PINF, PINF, PINF, PINF };
   return { 0, 0, lo[user], up[user], 1 };
}
// subtypes are 53..59 as stored
inline Vals defEqu( int user )
{
   static const double lo[] = { 0, 0, MINF, MINF, 0, 0, 0 }, up[] = { 0, PINF, 0, PINF, 0, PINF, 0 };
   return { 0, 0, lo[user - 53], up[user - 53], 1 };
}

inline void writeFile( Ctx &c, const string &fn, const TFile &f, const char *producer = "verif" )
{
   Obj o;
   int e = 0;
   CK( o->gdxOpenWrite( fn.c_str(), producer, e ), "setup", "OpenWrite %s fails with %d", fn.c_str(), e );
   if( !f.uels.empty() )
   {
      o->gdxUELRegisterStrStart();
      for( auto &u: f.uels )
      {
         int nr;
         CK( o->gdxUELRegisterStr( u.c_str(), nr ), "setup", "label <%s> refused", u.c_str() );
      }
      o->gdxUELRegisterDone();
   }
   for( auto &t: f.texts )
   {
      int nr = 0;
      CK( o->gdxAddSetText( t.c_str(), nr ), "setup", "text refused" );
   }
   int an = 0;
   for( auto &a: f.acr )
   {
      an++;// unnamed: number not used
      if( !a.first.empty() ) CK( o->gdxAcronymAdd( a.first.c_str(), a.second.c_str(), an ) >= 0, "setup", "acronym refused" );
   }
   int sn = 0;
   for( auto &y: f.syms )
   {
      sn++;
      if( y.type == T_ALIAS )
      {
         CK( o->gdxAddAlias( y.name.c_str(), y.aliasOf ? f.syms[(size_t) y.aliasOf - 1].name.c_str() : "*" ), "setup", "alias refused" );
         continue;
      }
      CK( o->gdxDataWriteStrStart( y.name.c_str(), y.text.c_str(), y.dim, y.type, y.user ), "setup", "cannot start symbol %s", y.name.c_str() );
      if( !y.dom.empty() && y.strict )
      {
         KeyIn k( y.dom );
         CK( o->gdxSymbolSetDomain( k.get() ), "setup", "domain refused" );
      }
      for( auto &r: y.recs )
      {
         KeyIn k( r.k );
         double v[5];
         std::copy( r.v.begin(), r.v.end(), v );
         if( y.type == T_SET )
         {
            int nr = 0;
            if( !r.txt.empty() ) CK( o->gdxAddSetText( r.txt.c_str(), nr ), "setup", "text refused" );
            v[0] = nr;
         }
         CK( o->gdxDataWriteStr( k.get(), v ), "setup", "record of %s refused (%d)", y.name.c_str(), o->gdxGetLastError() );
      }
      CK( o->gdxDataWriteDone(), "setup", "write done %s", y.name.c_str() );
      if( !y.dom.empty() && !y.strict )
      {
         KeyIn k( y.dom );
         CK( o->gdxSymbolSetDomainX( sn, k.get() ), "setup", "relaxed domain refused" );
      }
      for( auto &t: y.comments ) CK( o->gdxSymbolAddComment( sn, t.c_str() ), "setup", "comment refused" );
   }
   CK( o->gdxGetLastError() == 0 && o->gdxErrorCount() == 0, "setup", "error while writing the input" );
   CK( o->gdxClose() == 0, "setup", "close" );
   c.step( 4 );
}
}// namespace th
