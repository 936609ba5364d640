// Small stateless model checker: exhaustive enumeration of choice sequences over the real code.
//
// A scenario is a function body(Ctx&) that drives the real implementation and resolves every
// nondeterministic decision (operation, argument, environment answer, crash point, schedule) with
// ctx.choose(n).  The explorer enumerates *all* choice sequences depth first; every maximal sequence is
// one execution and is checked against the scenario's oracle (ctx.fail / ctx.check).
//  * work is split in tasks (choice prefixes); every task runs in its own forked process, so an execution's
//    history inside the process is a deterministic function of the task
//  * a crash (signal, sanitizer report, uncaught exception, exit) or a hang of the code under test is a violation
//    of the execution that was running
//  * every violation is replayed in a fresh process before it is reported
#pragma once
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace mc
{

inline double now()
{
   timespec t {};
   clock_gettime( CLOCK_MONOTONIC, &t );
   return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

inline uint64_t mix( uint64_t h, uint64_t v )
{
   h ^= v + 0x9e3779b97f4a7c15ULL + ( h << 6 ) + ( h >> 2 );
   h *= 0xff51afd7ed558ccdULL;
   h ^= h >> 33;
   return h;
}
inline uint64_t hashBytes( const void *p, size_t n, uint64_t h = 1469598103934665603ULL )
{
   auto c = static_cast<const unsigned char *>( p );
   for( size_t i = 0; i < n; i++ ) h = ( h ^ c[i] ) * 1099511628211ULL;
   return h ^ ( h >> 31 );
}
inline uint64_t hashStr( const std::string &s, uint64_t h = 1469598103934665603ULL ) { return hashBytes( s.data(), s.size(), h ); }

inline std::string fmt( const char *f, ... )
{
   char buf[4096];
   va_list ap;
   va_start( ap, f );
   vsnprintf( buf, sizeof buf, f, ap );
   va_end( ap );
   return buf;
}

constexpr int MAXCH = 8192;
struct Slot
{
   std::atomic<int> busy;
   std::atomic<int> scenario;
   std::atomic<int> len;
   std::atomic<double> started;
   uint16_t ch[MAXCH];
   uint16_t nn[MAXCH];
   int taskPrefixLen;
   char lastNote[512];
};

constexpr size_t HSETSZ = 1u << 22;
struct HSet
{
   std::atomic<uint64_t> count;
   std::atomic<uint64_t> e[HSETSZ];
   bool add( uint64_t h )
   {
      if( !h ) h = 1;
      if( count.load() > HSETSZ * 3 / 4 ) return false;
      for( size_t i = h & ( HSETSZ - 1 ), k = 0; k < HSETSZ; i = ( i + 1 ) & ( HSETSZ - 1 ), k++ )
      {
         uint64_t cur = e[i].load();
         if( cur == h ) return false;
         if( !cur )
         {
            if( e[i].compare_exchange_strong( cur, h ) )
            {
               count++;
               return true;
            }
            if( cur == h ) return false;
         }
      }
      return false;
   }
};

constexpr int MAXW = 64, MAXSC = 128;
struct Shared
{
   std::atomic<uint64_t> executions, transitions, pruned;
   std::atomic<uint64_t> scExec[MAXSC], scTrans[MAXSC];
   std::atomic<int> stop;
   std::atomic<int> nviol;
   HSet states, outcomes;
   Slot slots[MAXW];
};

struct Fail
{
   std::string sig, msg;
};
struct Prune
{
};
struct Probe
{
   int n;
};

struct Ctx
{
   Shared *sh {};
   Slot *slot {};
   int scenario {};
   std::vector<uint16_t> ch, nn;
   size_t pos {};
   bool probing {};
   bool thorough {};
   bool replaying {};
   std::string dir;// private scratch directory of this process
   std::vector<std::string> notes;
   uint64_t steps {};

   int choose( int n, const char *what = nullptr )
   {
      if( n < 1 )
      {
         fprintf( stderr, "mc: choose(%d) %s\n", n, what ? what : "" );
         _exit( 97 );
      }
      if( n == 1 ) return 0;
      int r;
      if( pos < ch.size() )
      {
         r = ch[pos];
         if( pos < nn.size() && nn[pos] && nn[pos] != n )
         {
            fprintf( stderr, "mc: nondeterministic replay: choice %zu had %d options, now %d (%s)\n", pos, nn[pos], n, what ? what : "" );
            throw Fail { "harness:nondeterminism", fmt( "the same history offers %d instead of %d options at choice %zu (%s)", n, nn[pos], pos, what ? what : "" ) };
         }
         if( r >= n )
         {
            fprintf( stderr, "mc: choice out of range\n" );
            _exit( 98 );
         }
      }
      else
      {
         if( probing ) throw Probe { n };
         ch.push_back( 0 );
         r = 0;
      }
      if( pos >= nn.size() ) nn.resize( pos + 1 );
      nn[pos] = (uint16_t) n;
      if( slot )
      {
         if( pos >= MAXCH )
         {
            fprintf( stderr, "mc: too many choices\n" );
            _exit( 96 );
         }
         slot->ch[pos] = (uint16_t) r;
         slot->nn[pos] = (uint16_t) n;
         slot->len = (int) pos + 1;
      }
      pos++;
      return r;
   }
   bool flip( const char *what = nullptr ) { return choose( 2, what ) == 1; }
   template<typename T> const T &pick( const std::vector<T> &v, const char *what = nullptr ) { return v[(size_t) choose( (int) v.size(), what )]; }

   void note( const std::string &s )
   {
      steps++;
      notes.push_back( s );
      if( slot )
      {
         strncpy( slot->lastNote, s.c_str(), sizeof slot->lastNote - 1 );
      }
   }
   void step( uint64_t n = 1 ) { steps += n; }
   void state( uint64_t h )
   {
      if( sh ) sh->states.add( mix( h, (uint64_t) scenario ) );
   }
   void outcome( uint64_t h )
   {
      if( sh ) sh->outcomes.add( h );
   }
   [[noreturn]] void fail( const std::string &sig, const std::string &msg ) { throw Fail { sig, msg }; }
   void check( bool ok, const std::string &sig, const std::string &msg )
   {
      if( !ok ) fail( sig, msg );
   }
   template<typename F> void checkf( bool ok, const char *sig, F f )
   {
      if( !ok ) fail( sig, f() );
   }
   [[noreturn]] void prune() { throw Prune {}; }
   std::string path( const std::string &name ) const { return dir + "/" + name; }
};

struct Scenario
{
   std::string name;
   std::function<void( Ctx & )> body;
   int tiers = 3;     // bit 0 quick, bit 1 thorough
   std::string bounds;// human readable: alphabet and bounds
   double hang = 60;  // seconds before an execution counts as hanging
};

struct Violation
{
   std::string scenario, sig, msg;
   std::vector<uint16_t> ch;
   std::vector<uint16_t> prefix;// task prefix when the violation needs the task's history
   bool needsTask {};
   std::vector<std::string> notes;
   std::string out;// stderr tail
   bool known {};
};

struct Driver
{
   std::string prop;
   std::vector<Scenario> sc;
   std::vector<std::string> assumptions;
   std::string outdir = ".", scratch = "/tmp", replayFile, only;
   std::vector<std::string> knownSigs;
   bool thorough = false;
   int jobs = 8;
   double budget = 600;
   Shared *sh {};
   double t0 {};
   bool capped {};
   std::vector<std::string> cappedSc;

   static std::string join( const std::vector<uint16_t> &v )
   {
      std::string s;
      for( auto x: v ) s += ( s.empty() ? "" : "," ) + std::to_string( x );
      return s;
   }
   static std::vector<uint16_t> split( const std::string &s )
   {
      std::vector<uint16_t> v;
      std::stringstream ss( s );
      std::string t;
      while( std::getline( ss, t, ',' ) )
         if( !t.empty() ) v.push_back( (uint16_t) std::stoi( t ) );
      return v;
   }
   static bool nextSeq( Ctx &c, size_t prefixLen )
   {
      // advance odometer: c.ch / c.nn of the finished execution
      c.ch.resize( c.pos );
      c.nn.resize( c.pos );
      while( c.ch.size() > prefixLen )
      {
         if( c.ch.back() + 1 < c.nn.back() )
         {
            c.ch.back()++;
            c.nn.back() = c.nn.back();
            return true;
         }
         c.ch.pop_back();
         c.nn.pop_back();
      }
      return false;
   }

   std::string mkscratch()
   {
      std::string d = scratch + "/w" + std::to_string( getpid() );
      mkdir( d.c_str(), 0777 );
      return d;
   }
   // removes a scratch directory made by mkscratch()
   static void rmtree( const std::string &d )
   {
      if( d.find( "/w" ) == std::string::npos || d.size() < 8 ) return;
      std::error_code ec;
      std::filesystem::remove_all( d, ec );
   }

   // run one execution in this process; returns true and fills v if it violated
   bool exec( Ctx &c, int s, Violation &v )
   {
      c.pos = 0;
      c.notes.clear();
      c.steps = 0;
      bool bad = false;
      if( c.slot )
      {
         c.slot->scenario = s;
         c.slot->len = 0;
         c.slot->lastNote[0] = 0;
         c.slot->started = now();
         c.slot->busy = 1;
      }
      try
      {
         sc[(size_t) s].body( c );
      }
      catch( Fail &f )
      {
         bad = true;
         v.sig = f.sig;
         v.msg = f.msg;
      }
      catch( Prune & )
      {
         if( sh ) sh->pruned++;
      }
      catch( std::exception &e )
      {
         bad = true;
         v.sig = "exception";
         v.msg = std::string( "an exception escaped from the code under test: " ) + e.what();
      }
      if( c.slot ) c.slot->busy = 0;
      if( bad )
      {
         v.scenario = sc[(size_t) s].name;
         v.ch.assign( c.ch.begin(), c.ch.begin() + (long) std::min( c.pos, c.ch.size() ) );
         v.notes = c.notes;
      }
      if( sh && !bad )
      {
         sh->executions++;
         sh->transitions += c.steps;
         sh->scExec[s]++;
         sh->scTrans[s] += c.steps;
      }
      return bad;
   }

   static void writeViolation( const std::string &fn, const Violation &v )
   {
      std::ofstream f( fn + ".tmp" );
      f << "scenario=" << v.scenario << "\n";
      f << "choices=" << join( v.ch ) << "\n";
      if( v.needsTask ) f << "task=" << join( v.prefix ) << "\n";
      f << "signature=" << v.sig << "\n";
      std::string m = v.msg;
      for( auto &ch: m )
         if( ch == '\n' ) ch = ' ';
      f << "message=" << m << "\n";
      for( auto n: v.notes )
      {
         for( auto &ch: n )
            if( ch == '\n' ) ch = ' ';
         f << "step=" << n << "\n";
      }
      if( !v.out.empty() ) f << "---- output of the failing process ----\n"
                             << v.out << "\n";
      f.close();
      rename( ( fn + ".tmp" ).c_str(), fn.c_str() );
   }
   static bool readViolation( const std::string &fn, Violation &v )
   {
      std::ifstream f( fn );
      if( !f ) return false;
      std::string l;
      while( std::getline( f, l ) )
      {
         auto e = l.find( '=' );
         if( l.rfind( "----", 0 ) == 0 ) break;
         if( e == std::string::npos ) continue;
         std::string k = l.substr( 0, e ), x = l.substr( e + 1 );
         if( k == "scenario" ) v.scenario = x;
         else if( k == "choices" ) v.ch = split( x );
         else if( k == "task" )
         {
            v.prefix = split( x );
            v.needsTask = true;
         }
         else if( k == "signature" ) v.sig = x;
         else if( k == "message" ) v.msg = x;
         else if( k == "step" ) v.notes.push_back( x );
      }
      return true;
   }

   int scIndex( const std::string &n )
   {
      for( size_t i = 0; i < sc.size(); i++ )
         if( sc[i].name == n ) return (int) i;
      return -1;
   }

   struct Task
   {
      int s;
      std::vector<uint16_t> prefix, nn;
      std::vector<uint16_t> resume, resumeN;// start here instead of prefix+0...
      bool hasResume {};
   };

   // child: explore everything below the task's prefix
   [[noreturn]] void childTask( const Task &t, int w, const std::string &violFile, const std::string &errFile )
   {
      int fd = open( errFile.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0666 );
      dup2( fd, 2 );
      dup2( fd, 1 );
      errFd = fd;
      Ctx c;
      c.sh = sh;
      c.slot = &sh->slots[w];
      c.scenario = t.s;
      c.thorough = thorough;
      c.dir = mkscratch();
      if( t.hasResume )
      {
         c.ch = t.resume;
         c.nn = t.resumeN;
      }
      else
      {
         c.ch = t.prefix;
         c.nn = t.nn;
      }
      bool capped = false;
      while( true )
      {
         if( sh->stop ) break;
         if( now() - t0 > budget )
         {
            capped = true;
            break;
         }
         Violation v;
         if( lseek( errFd, 0, SEEK_END ) > ( 1 << 20 ) && ftruncate( errFd, 0 ) ) {}
         if( exec( c, t.s, v ) )
         {
            v.prefix = t.prefix;
            bool known = false;
            for( auto &k: knownSigs )
               if( k == v.sig ) known = true;
            if( !known )
            {
               writeViolation( violFile, v );
               rmtree( c.dir );
               fflush( nullptr );
               _exit( 42 );
            }
            FILE *f = fopen( ( outdir + "/known-" + std::to_string( getpid() ) ).c_str(), "a" );
            if( f )
            {
               fprintf( f, "%s\n", v.sig.c_str() );
               fclose( f );
            }
         }
         else if( uint64_t n = sh->scExec[t.s]; n < 3 || ( n & ( n - 1 ) ) == 0 )
         {
            if( FILE *f = fopen( ( outdir + "/samples-" + std::to_string( t.s ) ).c_str(), "a" ) )
            {
               std::string l = sc[(size_t) t.s].name + " [" + join( c.ch ) + "]";
               for( auto &x: c.notes ) l += " ; " + x;
               if( l.size() > 900 ) l = l.substr( 0, 900 ) + " ...";
               fprintf( f, "%s\n", l.c_str() );
               fclose( f );
            }
         }
         if( !nextSeq( c, t.prefix.size() ) ) break;
      }
      rmtree( c.dir );
      fflush( nullptr );
      if( leakCheck ) leakCheck();
      _exit( capped ? 43 : 0 );
   }
   void ( *leakCheck )() = nullptr;
   int errFd = -1;// output of the code under test; cut when it grows

   std::string tail( const std::string &fn, size_t n = 6000 )
   {
      std::ifstream f( fn );
      std::stringstream ss;
      ss << f.rdbuf();
      std::string s = ss.str();
      auto p = s.find( "ERROR: AddressSanitizer" );
      if( p != std::string::npos ) return s.substr( p, n );
      return s.size() > n ? s.substr( s.size() - n ) : s;
   }

   // replay in a fresh process; returns true if it violates again (v updated with notes/message)
   bool replayFresh( Violation &v, bool wholeTask, double limit )
   {
      std::string vf = outdir + "/replay-viol", ef = outdir + "/replay-err";
      unlink( vf.c_str() );
      int s = scIndex( v.scenario );
      Slot *slot = &sh->slots[MAXW - 1];
      slot->busy = 0;
      fflush( nullptr );
      pid_t p = fork();
      if( !p )
      {
         int fd = open( ef.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666 );
         dup2( fd, 2 );
         dup2( fd, 1 );
         Ctx c;
         c.scenario = s;
         c.slot = slot;
         c.thorough = thorough;
         c.replaying = true;
         c.dir = mkscratch();
         Shared *keep = sh;
         sh = nullptr;
         c.ch = wholeTask ? v.prefix : v.ch;
         Violation r;
         int rc = 0;
         while( true )
         {
            if( exec( c, s, r ) )
            {
               writeViolation( vf, r );
               rc = 42;
               break;
            }
            if( !wholeTask ) break;
            if( !nextSeq( c, v.prefix.size() ) ) break;
         }
         (void) keep;
         rmtree( c.dir );
         fflush( nullptr );
         _exit( rc );
      }
      double st = now();
      int status = 0;
      bool hung = false;
      while( true )
      {
         pid_t r = waitpid( p, &status, WNOHANG );
         if( r == p ) break;
         if( now() - st > limit )
         {
            kill( p, SIGKILL );
            waitpid( p, &status, 0 );
            hung = true;
            break;
         }
         usleep( 2000 );
      }
      if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 && !hung ) return false;
      if( WIFEXITED( status ) && WEXITSTATUS( status ) == 42 && !hung )
      {
         Violation r;
         readViolation( vf, r );
         v.sig = r.sig;
         v.msg = r.msg;
         v.notes = r.notes;
         if( wholeTask )
         {
            v.needsTask = true;
            v.ch = r.ch;
         }
         return true;
      }
      if( WIFEXITED( status ) && WEXITSTATUS( status ) >= 96 && WEXITSTATUS( status ) <= 98 )
      {
         fprintf( stderr, "%s", tail( ef ).c_str() );
         exit( 3 );
      }
      v.msg = hung ? std::string( "the call does not return (hang)" ) : std::string( "the code under test crashed (" ) + ( WIFSIGNALED( status ) ? fmt( "signal %d", WTERMSIG( status ) ) : fmt( "exit %d", WEXITSTATUS( status ) ) ) + ")" + ( slot->lastNote[0] ? std::string( " in or after: " ) + slot->lastNote : std::string() );
      v.sig = hung ? "hang" : "crash";
      v.out = tail( ef );
      return true;
   }

   void expand( int s, std::vector<Task> &out, size_t want )
   {
      // breadth-first expansion of choice prefixes until enough tasks
      std::vector<Task> cur { Task { s, {}, {}, {}, {}, false } };
      std::vector<Task> leaves;
      int rounds = 0;
      while( !cur.empty() && cur.size() + leaves.size() < want && rounds++ < 6 )
      {
         std::vector<Task> nxt;
         for( auto &t: cur )
         {
            int n = probe( s, t );
            if( n <= 0 ) leaves.push_back( t );
            else
               for( int i = 0; i < n; i++ )
               {
                  Task q = t;
                  q.prefix.push_back( (uint16_t) i );
                  q.nn.push_back( (uint16_t) n );
                  nxt.push_back( q );
               }
            if( nxt.size() + leaves.size() > want * 40 ) { /* wide: stop expanding, keep the rest as is */ }
         }
         cur.swap( nxt );
      }
      for( auto &t: leaves ) out.push_back( t );
      for( auto &t: cur ) out.push_back( t );
   }
   // number of options at the first choice after the prefix (0: execution ends before), computed in a child process
   int probe( int s, const Task &t )
   {
      int pfd[2];
      if( pipe( pfd ) ) exit( 3 );
      fflush( nullptr );
      pid_t p = fork();
      if( !p )
      {
         close( pfd[0] );
         int fd = open( "/dev/null", O_WRONLY );
         dup2( fd, 2 );
         dup2( fd, 1 );
         alarm( 60 );
         Ctx c;
         c.scenario = s;
         c.thorough = thorough;
         c.probing = true;
         c.dir = mkscratch();
         c.ch = t.prefix;
         int n = 0;
         try
         {
            sc[(size_t) s].body( c );
         }
         catch( Probe &pr )
         {
            n = pr.n;
         }
         catch( ... )
         {
            n = 0;
         }
         if( write( pfd[1], &n, sizeof n ) < 0 ) _exit( 1 );
         rmtree( c.dir );
         _exit( 0 );
      }
      close( pfd[1] );
      int n = 0;
      ssize_t r = read( pfd[0], &n, sizeof n );
      close( pfd[0] );
      int st;
      waitpid( p, &st, 0 );
      if( r != sizeof n ) return 0;// crashed: run as a leaf task, it will be reported there
      return n;
   }

   static std::string esc( const std::string &s )
   {
      std::string o;
      for( unsigned char c: s )
      {
         if( c == '"' || c == '\\' )
         {
            o += '\\';
            o += (char) c;
         }
         else if( c < 32 || c > 126 )
            o += fmt( "\\u%04x", c );
         else
            o += (char) c;
      }
      return o;
   }

   int main( int argc, char **argv )
   {
      for( int i = 1; i < argc; i++ )
      {
         std::string a = argv[i];
         auto val = [&]() { return std::string( argv[++i] ); };
         if( a == "--out" ) outdir = val();
         else if( a == "--scratch" ) scratch = val();
         else if( a == "--thorough" ) thorough = true;
         else if( a == "--jobs" ) jobs = std::stoi( val() );
         else if( a == "--budget" ) budget = std::stod( val() );
         else if( a == "--replay" ) replayFile = val();
         else if( a == "--only" ) only = val();
         else if( a == "--known" ) knownSigs.push_back( val() );
         else if( a == "--list" )
         {
            for( auto &s: sc ) printf( "%s\n", s.name.c_str() );
            return 0;
         }
      }
      setvbuf( stdout, nullptr, _IOLBF, 0 );
      sh = static_cast<Shared *>( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) );
      if( sh == MAP_FAILED )
      {
         perror( "mmap" );
         return 3;
      }
      t0 = now();
      if( !replayFile.empty() ) return doReplay();

      std::vector<Violation> viols;
      std::vector<Task> tasks;
      for( size_t s = 0; s < sc.size(); s++ )
      {
         if( !( sc[s].tiers & ( thorough ? 2 : 1 ) ) ) continue;
         if( !only.empty() && sc[s].name.find( only ) == std::string::npos ) continue;
         expand( (int) s, tasks, 48 );
      }
      struct Run
      {
         pid_t pid {};
         Task t;
         std::string vf, ef;
         bool killed {};
      };
      if( jobs > MAXW - 2 ) jobs = MAXW - 2;
      std::vector<Run> run( (size_t) jobs );
      // interleave scenarios so a time cap hits all of them evenly
      size_t next = 0;
      std::vector<Task> requeue;
      int active = 0;
      int crashes = 0;
      while( true )
      {
         for( int w = 0; w < jobs; w++ )
         {
            auto &r = run[(size_t) w];
            if( r.pid ) continue;
            if( sh->stop ) continue;
            if( requeue.empty() && next >= tasks.size() ) continue;
            if( now() - t0 > budget )
            {
               capped = true;
               if( next < tasks.size() ) cappedSc.push_back( sc[(size_t) tasks[next].s].name );
               next = tasks.size();
               requeue.clear();
               continue;
            }
            if( !requeue.empty() )
            {
               r.t = requeue.back();
               requeue.pop_back();
            }
            else
               r.t = tasks[next++];
            r.vf = outdir + "/viol-" + std::to_string( w );
            r.ef = outdir + "/err-" + std::to_string( w );
            r.killed = false;
            unlink( r.vf.c_str() );
            sh->slots[w].busy = 0;
            fflush( nullptr );
            pid_t p = fork();
            if( !p ) childTask( r.t, w, r.vf, r.ef );
            r.pid = p;
            active++;
         }
         if( !active ) break;
         int status;
         pid_t p = waitpid( -1, &status, WNOHANG );
         if( p <= 0 )
         {
            for( int w = 0; w < jobs; w++ )
            {
               auto &r = run[(size_t) w];
               auto &sl = sh->slots[w];
               if( r.pid && !r.killed && sl.busy && now() - sl.started > sc[(size_t) sl.scenario].hang )
               {
                  r.killed = true;
                  kill( r.pid, SIGKILL );
               }
            }
            usleep( 1000 );
            continue;
         }
         for( int w = 0; w < jobs; w++ )
         {
            auto &r = run[(size_t) w];
            if( r.pid != p ) continue;
            r.pid = 0;
            active--;
            rmtree( scratch + "/w" + std::to_string( p ) );
            if( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 && !r.killed ) break;
            if( WIFEXITED( status ) && WEXITSTATUS( status ) == 43 )
            {
               capped = true;
               cappedSc.push_back( sc[(size_t) r.t.s].name );
               break;
            }
            if( sh->stop ) break;
            Violation v;
            bool have = false;
            if( WIFEXITED( status ) && WEXITSTATUS( status ) == 42 )
               have = readViolation( r.vf, v );
            else if( WIFEXITED( status ) && WEXITSTATUS( status ) >= 96 && WEXITSTATUS( status ) <= 98 )
            {
               fprintf( stderr, "harness error in scenario %s:\n%s\n", sc[(size_t) r.t.s].name.c_str(), tail( r.ef ).c_str() );
               return 3;
            }
            else
            {
               auto &sl = sh->slots[w];
               have = true;
               v.scenario = sc[(size_t) r.t.s].name;
               v.ch.assign( sl.ch, sl.ch + sl.len );
               v.sig = r.killed ? "hang" : "crash";
               if( !sl.busy )
               {
                  v.sig = "leak-or-exit";
                  v.msg = "process failed outside an execution";
               }
               v.out = tail( r.ef );
               crashes++;
            }
            if( !have ) break;
            v.prefix = r.t.prefix;
            // replay before report: alone first, then with the whole history of its task
            double lim = sc[(size_t) r.t.s].hang * 3;
            std::string firstMsg = v.msg, firstSig = v.sig;
            bool again = v.sig == "leak-or-exit" ? false : replayFresh( v, false, lim );
            if( !again ) again = replayFresh( v, true, std::max( lim, 300.0 ) );
            if( !again )
            {
               fprintf( stderr, "NOTE: a violation of scenario %s did not reproduce on replay and is not reported: [%s] %s\n", v.scenario.c_str(), firstSig.c_str(), firstMsg.c_str() );
               fprintf( stderr, "%s\n", v.out.c_str() );
               unreproduced++;
               break;
            }
            bool known = false;
            for( auto &k: knownSigs )
               if( k == v.sig ) known = true;
            v.known = known;
            viols.push_back( v );
            if( !known ) sh->stop = 1;
            else
            {
               // continue after the known finding
               Ctx c;
               auto &sl = sh->slots[w];
               c.ch.assign( sl.ch, sl.ch + sl.len );
               c.nn.assign( sl.nn, sl.nn + sl.len );
               c.pos = c.ch.size();
               if( nextSeq( c, r.t.prefix.size() ) )
               {
                  Task q = r.t;
                  q.hasResume = true;
                  q.resume = c.ch;
                  q.resumeN = c.nn;
                  requeue.push_back( q );
               }
            }
            break;
         }
      }
      return report( viols );
   }
   int unreproduced = 0;

   int report( std::vector<Violation> &viols )
   {
      int rc = 0;
      std::map<std::string, int> kn;
      // known findings recorded by children
      for( auto &v: viols )
         if( v.known ) kn[v.sig]++;
      {
         std::string cmd = "cat " + outdir + "/known-* 2>/dev/null";
         if( FILE *p = popen( cmd.c_str(), "r" ) )
         {
            char b[512];
            while( fgets( b, sizeof b, p ) )
            {
               std::string s = b;
               while( !s.empty() && s.back() == '\n' ) s.pop_back();
               kn[s]++;
            }
            pclose( p );
         }
      }
      int n = 0;
      for( auto &v: viols )
      {
         if( v.known ) continue;
         std::string fn = outdir + "/violation-" + std::to_string( n++ ) + ".txt";
         writeViolation( fn, v );
         printf( "VIOLATION-AT scenario=%s file=%s sig=%s msg=%s\n", v.scenario.c_str(), fn.c_str(), v.sig.c_str(), v.msg.c_str() );
         for( auto &s: v.notes ) printf( "   %s\n", s.c_str() );
         if( !v.out.empty() ) printf( "%s\n", v.out.substr( 0, 3000 ).c_str() );
         rc = 1;
      }
      std::ofstream f( outdir + "/stats.json" );
      f << "{\"executions\": " << sh->executions << ", \"transitions\": " << sh->transitions << ", \"states\": " << sh->states.count << ", \"outcomes\": " << sh->outcomes.count
        << ", \"pruned\": " << sh->pruned << ", \"unreproduced\": " << unreproduced << ", \"capped\": " << ( capped ? "true" : "false" ) << ", \"wall_s\": " << now() - t0 << ", \"violations\": " << n << ",\n \"known\": {";
      bool first = true;
      for( auto &[k, c]: kn )
      {
         f << ( first ? "" : ", " ) << "\"" << esc( k ) << "\": " << c;
         first = false;
      }
      f << "},\n \"scenarios\": [";
      first = true;
      for( size_t s = 0; s < sc.size(); s++ )
      {
         if( !( sc[s].tiers & ( thorough ? 2 : 1 ) ) ) continue;
         bool cp = false;
         for( auto &x: cappedSc )
            if( x == sc[s].name ) cp = true;
         f << ( first ? "" : "," ) << "\n  {\"name\": \"" << esc( sc[s].name ) << "\", \"bounds\": \"" << esc( sc[s].bounds ) << "\", \"executions\": " << sh->scExec[s] << ", \"transitions\": " << sh->scTrans[s] << ", \"complete\": " << ( cp || sh->stop ? "false" : "true" ) << "}";
         first = false;
      }
      f << "\n ],\n \"assumptions\": [";
      first = true;
      for( auto &a: assumptions )
      {
         f << ( first ? "" : ", " ) << "\"" << esc( a ) << "\"";
         first = false;
      }
      f << "]}\n";
      f.close();
      for( size_t s = 0; s < sc.size(); s++ )
         if( sh->scExec[s] ) printf( "  scenario %-28s executions=%llu transitions=%llu\n", sc[s].name.c_str(), (unsigned long long) sh->scExec[s], (unsigned long long) sh->scTrans[s] );
      printf( "%s: executions=%llu transitions=%llu states=%llu outcomes=%llu capped=%d wall=%.1fs violations=%d\n", prop.c_str(), (unsigned long long) sh->executions, (unsigned long long) sh->transitions, (unsigned long long) sh->states.count, (unsigned long long) sh->outcomes.count, capped, now() - t0, n );
      return rc;
   }

   int doReplay()
   {
      Violation v;
      if( !readViolation( replayFile, v ) )
      {
         fprintf( stderr, "cannot read %s\n", replayFile.c_str() );
         return 3;
      }
      if( scIndex( v.scenario ) < 0 )
      {
         fprintf( stderr, "unknown scenario %s\n", v.scenario.c_str() );
         return 3;
      }
      bool again = replayFresh( v, v.needsTask, 300 );
      printf( "%s\n", again ? "REPRODUCED" : "not reproduced" );
      if( again )
      {
         printf( "scenario=%s\nsignature=%s\nmessage=%s\n", v.scenario.c_str(), v.sig.c_str(), v.msg.c_str() );
         for( auto &s: v.notes ) printf( "   %s\n", s.c_str() );
         printf( "%s\n", v.out.c_str() );
      }
      return again ? 1 : 0;
   }
};

}// namespace mc
