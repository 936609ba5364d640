// P29: the command line tools do not report success for work that was not completed - a damaged or unreadable input,
// a write that fails.  The tools run in processes of their own; damage, failing operations and full disks are enumerated.
#define VERIF_ALL_TOOLS
#include "../lib/toolh.hpp"
#include "../lib/iowrap.hpp"
#include <csignal>
#include <sys/mman.h>
#include <sys/resource.h>
using namespace th;

// ---- what the tool's process tells and is told
struct Shared
{
   int hit, nops, kind;
};
static Shared *sh;
static void share()// once in every process of the checker
{
   static pid_t pid;
   if( pid == getpid() ) return;
   pid = getpid();
   sh = (Shared *) mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 );
}
static rlim_t limitBytes;
static string ioPrefix;
static int ioAt;
static io::Fault ioFault;
static bool ioPersistent;

static void beforeLimit()
{
   signal( SIGXFSZ, SIG_IGN );
   struct rlimit r { limitBytes, limitBytes };
   setrlimit( RLIMIT_FSIZE, &r );
}
static void beforeIo()
{
   io::start( ioPrefix );
   io::faultAt = ioAt;
   io::fault = ioFault;
   io::persistent = ioPersistent;
}
static void afterIo()
{
   if( !io::armed ) return;
   sh->hit = io::hit;
   sh->nops = (int) io::log.size();
   sh->kind = io::hit ? (int) io::faultKind : -1;
   io::stop();
}

// ---- inputs
static TFile base( int which )
{
   TFile f;
   f.acr = { { "acro", "an acronym" } };
   double x = which ? 2 : 1;
   f.syms.push_back( { "i", "a set", T_SET, 1, 0, {}, false, {}, { { { "a" }, {}, "text a" }, { { "b" }, {}, "" }, { { "c" }, {}, which ? "other" : "text c" } }, 0 } );
   f.syms.push_back( { "p", "a parameter", T_PAR, 2, 0, { "i", "i" }, true, {}, { { { "a", "a" }, { x }, "" }, { { "a", "b" }, { EPS }, "" }, { { "c", "b" }, { 2.5 }, "" } }, 0 } );
   f.syms.push_back( { "q", "", T_PAR, 1, 0, {}, false, {}, { { { "b" }, { ACR1 }, "" }, { { "other element" }, { 3 + x }, "" } }, 0 } );
   f.syms.push_back( { "s", "scalar", T_PAR, 0, 0, {}, false, {}, { { {}, { 4 + x }, "" } }, 0 } );
   f.syms.push_back( { "v", "variable", T_VAR, 1, 3, {}, false, {}, { { { "a" }, { x, 0, 0, PINF, 1 }, "" }, { { "b" }, { 7, 1, 0, 9, 1 }, "" } }, 0 } );
   f.syms.push_back( { "e", "equation", T_EQU, 0, 53, {}, false, {}, { { {}, { 1, x, 0, 0, 1 }, "" } }, 0 } );
   if( !which ) f.syms.push_back( { "w", "only here", T_SET, 2, 0, {}, false, {}, { { { "a", "z" }, {}, "" } }, 0 } );
   return f;
}
static const string &image( Ctx &c, int which, int compressed )
{
   static std::map<int, string> m;
   string &s = m[which * 2 + compressed];
   if( s.empty() )
   {
      setenv( "GDXCOMPRESS", compressed ? "1" : "0", 1 );
      string fn = c.path( "image.gdx" );
      writeFile( c, fn, base( which ) );
      unsetenv( "GDXCOMPRESS" );
      s = readBytes( fn );
      unlink( fn.c_str() );
   }
   return s;
}
// does the library say that this file cannot be read completely?
// 0: no, 1: a symbol that differs from the one of the good file, 2: yes
static int unreadable( Ctx &c, const string &fn, vector<string> &failing )
{
   struct Desc
   {
      string name;
      int dim, type, user;
   };
   static const vector<Desc> expected = [] {
      vector<Desc> v;
      for( auto &y: base( 0 ).syms ) v.push_back( { y.name, y.dim, y.type, y.user } );
      return v;
   }();
   int res = 0;
   Obj o;
   int e = 0;
   if( !o->gdxOpenRead( fn.c_str(), e ) || e ) return 2;
   if( o->gdxGetLastError() ) return 2;
   int ns, nu;
   o->gdxSystemInfo( ns, nu );
   for( int i = 1; i <= ns; i++ )
   {
      int n = 0, k[20], fd;
      double v[5];
      // (a negative record count makes the start return false, the records can be read all the same)
      bool failed = !o->gdxDataReadRawStart( i, n ) && n >= 0;
      while( !failed && o->gdxDataReadRaw( k, v, fd ) ) {}
      o->gdxDataReadDone();
      while( o->gdxGetLastError() ) failed = true;// an error of the file and one of the library
      c.step();
      if( !failed ) continue;
      char name[256], text[256];
      int dim = -1, type = -1, cnt, user = -1;
      o->gdxSymbolInfo( i, name, dim, type );
      o->gdxSymbolInfoX( i, cnt, user, text );
      bool same = false;
      for( auto &d: expected ) same |= d.name == name && d.dim == dim && d.type == type && d.user == user;
      if( same ) failing.push_back( name );
      res = std::max( res, same ? 2 : 1 );
   }
   return res;
}

struct Job
{
   const char *tool;
   vector<string> args;
   vector<string> out;// files written
   bool strict;       // every failure ends the run with a nonzero exit code
   const char *name;
};
// ID: the input in question, OK: a good one
static vector<Job> jobs( const string &bad, const string &good )
{
   return {
           { "gdxdump", { bad }, {}, true, "gdxdump" },
           { "gdxdump", { bad, "output=dump.txt" }, { "dump.txt" }, true, "gdxdump with an output file" },
           { "gdxdiff", { bad, good, "diff.gdx" }, { "diff.gdx" }, true, "gdxdiff, first file" },
           { "gdxdiff", { good, bad, "diff.gdx" }, { "diff.gdx" }, true, "gdxdiff, second file" },
           { "gdxmerge", { bad, good, "output=merged.gdx" }, { "merged.gdx" }, false, "gdxmerge" },
           { "gdxmerge", { good, bad, "strict=true", "output=merged.gdx" }, { "merged.gdx" }, true, "gdxmerge, strict" },
           { "gdxmerge", { bad, good, "strict=true", "big=4", "output=merged.gdx" }, { "merged.gdx" }, true, "gdxmerge, strict, big symbols" },
           { "gdxmerge", { bad, good, "big=4", "output=merged.gdx" }, { "merged.gdx" }, false, "gdxmerge, big symbols" },
   };
}
static void noOutputs( Ctx &c )
{
   for( const char *f: { "dump.txt", "diff.gdx", "merged.gdx", "tmpdifffile1.gdx" } ) unlink( c.path( f ).c_str() );
}
// an error message, to whichever stream the tool writes them
static bool complains( const Run &r )
{
   return ( r.out + r.err ).find( "rror" ) != string::npos;
}
static string firstLine( const string &s )
{
   string t;
   for( char ch: s.substr( 0, 160 ) ) t += ch == '\n' ? ' ' : ch;
   return t;
}

// ---- damaged input files
static void scDamage( Ctx &c )
{
   int comp = c.choose( 2, "compressed" );
   static int njobs = (int) jobs( "", "" ).size();
   const string &img = image( c, 0, comp );
   // 0..n-1: a byte is changed, n..2n-1: the file ends there
   int what = c.choose( (int) img.size() * 2, "where" );
   int pos = what % (int) img.size();
   string d = img;
   if( what < (int) img.size() )
   {
      static const vector<int> x = [] {
         vector<int> v { 0x01, 0xff, 0x80, 0x10 };
         for( int i = 2; i < 32; i++ )
            if( i != 16 ) v.push_back( i );
         for( int i: { 0x20, 0x40, 0x7f, 0xfe, 0xf0, 0x55, 0xaa } ) v.push_back( i );
         return v;
      }();
      d[(size_t) pos] = (char) ( d[(size_t) pos] ^ x[(size_t) c.choose( c.thorough ? (int) x.size() : 2, "change" )] );
   }
   else
      d.resize( (size_t) pos );
   c.note( fmt( what < (int) img.size() ? "byte %d changed to %d" : "file ends after %d bytes", pos, what < (int) img.size() ? d[(size_t) pos] & 255 : 0 ) );
   string bad = "bad.gdx", good = "good.gdx";
   writeBytes( c.path( bad ), d );
   writeBytes( c.path( good ), img );
   vector<string> failing;
   int un = unreadable( c, c.path( bad ), failing );
   c.outcome( mc::hashStr( fmt( "%d", un ) ) );
   for( int j = 0; j < njobs; j++ )
   {
      auto k = jobs( bad, good )[(size_t) j];
      noOutputs( c );
      Run r = runTool( c, k.tool, k.args );
      c.step();
      // gdxmerge leaves out symbols that do not match, also in strict mode
      if( !un )
         ;// whatever it says: it ends
      else if( k.strict && ( un == 2 || string( k.tool ) != "gdxmerge" ) )
         CK( r.rc != 0, "success-on-damaged-input", "%s: the library cannot read the input completely, but the exit code is 0 (output: %s)", k.name, firstLine( r.out ).c_str() );
      else
         CK( r.rc != 0 || complains( r ), "silent-on-damaged-input", "%s: the library cannot read the input completely, but no error is reported", k.name );
      c.outcome( mc::hashStr( fmt( "%s %d", k.name, r.rc ) ) );
   }
   // one symbol only
   for( auto &y: failing )
      for( const char *format: { "format=csv", "format=normal", "format=gamsbas", "cdim=y" } )
      {
         if( !strcmp( format, "format=gamsbas" ) && y != "v" && y != "e" ) continue;// a basis has only these
         vector<string> args = { bad, "symb=" + y };
         if( !strcmp( format, "cdim=y" ) )
         {
            if( y != "p" ) continue;
            args.push_back( "format=csv" );
         }
         args.push_back( format );
         Run r = runTool( c, "gdxdump", args );
         c.step();
         CK( r.rc != 0, "success-on-damaged-input", "gdxdump %s: the library cannot read symbol %s completely, but the exit code is 0", format, y.c_str() );
      }
}

// the complete run, for comparison
struct Full
{
   Run r;
   vector<string> out;
};
static Full fullRun( Ctx &c, const Job &k )
{
   Full f;
   noOutputs( c );
   f.r = runTool( c, k.tool, k.args );
   for( auto &o: k.out ) f.out.push_back( readBytes( c.path( o ) ) );
   return f;
}
static void setup( Ctx &c, int comp, string &a, string &b )
{
   a = "a.gdx";
   b = "b.gdx";
   writeBytes( c.path( a ), image( c, 0, comp ) );
   writeBytes( c.path( b ), image( c, 1, comp ) );
}
static void judge( Ctx &c, const Job &k, const Full &f, const Run &r, const string &how, bool faulted )
{
   bool told = k.strict ? r.rc != f.r.rc : r.rc != f.r.rc || complains( r );
   if( told )
   {
      CK( faulted, "failure-without-fault", "%s: exit code %d instead of %d although nothing failed: %s", k.name, r.rc, f.r.rc, firstLine( r.err ).c_str() );
      CK( !( f.r.rc != 0 && r.rc == 0 ), "success-on-failure", "%s: %s, and the exit code changes from %d to 0", k.name, how.c_str(), f.r.rc );
      return;
   }
   for( size_t i = 0; i < k.out.size(); i++ )
   {
      string got = readBytes( c.path( k.out[i] ) );
      CK( got == f.out[i], "incomplete-output", "%s: %s, the exit code is %d as without the failure, but %s differs (%d bytes instead of %d)", k.name, how.c_str(), r.rc, k.out[i].c_str(),
          (int) got.size(), (int) f.out[i].size() );
   }
   CK( r.out == f.r.out, "incomplete-output", "%s: %s, the exit code is %d as without the failure, but the listing differs: %s", k.name, how.c_str(), r.rc, firstLine( r.out ).c_str() );
}

// ---- the device is full after k bytes
static void scFull( Ctx &c )
{
   int comp = c.choose( 2, "compressed" );
   string a, b;
   setup( c, comp, a, b );
   auto js = jobs( a, b );
   auto &k = js[(size_t) c.choose( (int) js.size(), "tool" )];
   Full f = fullRun( c, k );
   size_t n = f.r.out.size();
   for( auto &o: f.out ) n = std::max( n, o.size() );
   limitBytes = (rlim_t) c.choose( (int) n + 1, "limit" );
   noOutputs( c );
   Run r = runTool( c, k.tool, k.args, beforeLimit );
   c.step();
   // the listing of gdxdiff and gdxmerge is no result
   Full g = f;
   if( string( k.tool ) != "gdxdump" ) g.r.out = r.out;
   size_t need = string( k.tool ) == "gdxdump" && k.out.empty() ? f.r.out.size() : f.out[0].size();
   bool faulted = limitBytes < need;
   // messages may be lost, too
   Job kk = k;
   kk.strict = true;
   judge( c, kk, g, r, fmt( "no more than %d of %d bytes can be written to a file", (int) limitBytes, (int) n ), limitBytes < n );
   if( faulted ) CK( r.rc != f.r.rc, "incomplete-output", "%s: %d of %d bytes can be written, and the exit code is %d", k.name, (int) limitBytes, (int) need, r.rc );
   c.outcome( mc::hashStr( fmt( "%s %d %d", k.name, r.rc, faulted ) ) );
}

// ---- one operation on an input or output file fails
static void scFaults( Ctx &c )
{
   share();
   int comp = c.choose( c.thorough ? 2 : 1, "compressed" );
   string a, b;
   setup( c, comp, a, b );
   auto js = jobs( a, b );
   auto &k = js[(size_t) c.choose( (int) js.size(), "tool" )];
   static const char *where[] = { "a.gdx", "b.gdx", "the output" };
   int w = c.choose( 3, "file" );
   ioPrefix = w == 0 ? a : w == 1 ? b : string( k.tool ) == "gdxdiff" ? "tmpdifffile" : k.out.empty() ? "none" : k.out[0];
   if( w == 1 && string( k.tool ) == "gdxdump" ) c.prune();
   ioFault = io::FAIL;
   ioPersistent = false;
   ioAt = -1;
   noOutputs( c );
   sh->nops = 0;
   Run r0 = runTool( c, k.tool, k.args, beforeIo, afterIo );
   int nops = sh->nops;
   Full f;
   f.r = r0;
   for( auto &o: k.out ) f.out.push_back( readBytes( c.path( o ) ) );
   if( !nops ) c.prune();
   ioAt = c.choose( nops, "operation" );
   ioPersistent = c.flip( "all later ones, too" );
   ioFault = c.flip( "nothing transferred" ) ? io::ZERO : io::FAIL;
   sh->hit = 0;
   noOutputs( c );
   Run r = runTool( c, k.tool, k.args, beforeIo, afterIo );
   c.step();
   CK( sh->hit, "harness", "operation %d of %d did not happen", ioAt, nops );
   judge( c, k, f, r, fmt( "operation %d (%s%s) on %s fails%s", ioAt, sh->kind >= 0 ? io::kindName( sh->kind ) : "?", ioFault == io::ZERO ? ", nothing transferred" : "", where[w], ioPersistent ? " and all later ones" : "" ), true );
   c.outcome( mc::hashStr( fmt( "%s %d %d %d", k.name, w, sh->kind, r.rc ) ) );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P29";
   d.sc = {
           { "damage", scDamage, 3, "a file with 7 symbols, plain and compressed: every byte changed (40 ways, quick 2) and every truncation x 8 command lines of the three tools; where the library reports the damage while reading also gdxdump of the symbol in all formats" },
           { "full", scFull, 3, "8 command lines of the three tools x plain/compressed inputs: the device is full after every possible number of bytes" },
           { "faults", scFaults, 3, "8 command lines of the three tools: every open, read, write, seek, close on either input or the output fails or transfers nothing, once or for good (thorough: also compressed inputs)" },
   };
   return d.main( argc, argv );
}
