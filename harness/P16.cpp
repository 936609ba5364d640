// P16: a file whose writer died at any moment is refused or complete.
#include "iowrap.hpp"
#include "sessions.hpp"
using namespace gh;

struct Hist
{
   Session s;
   string before;          // file before the session ("" none)
   string dumpBefore, dumpAfter;
   vector<io::Op> ops;
   string final;
};

static Hist record( Ctx &c, const Session &s )
{
   Hist h;
   h.s = s;
   string fn = c.path( "w.gdx" );
   unlink( fn.c_str() );
   if( s.append )
   {
      h.before = baseFile( fn, s.compress );
      CK( !h.before.empty(), "setup", "base file" );
      h.dumpBefore = show( dumpFile( fn ) );
   }
   Obj o;
   io::start( fn );
   bool ok = runSession( o, s, fn );
   io::stop();
   CK( ok, "setup", "session %s fails: error %d", s.name.c_str(), o->gdxGetLastError() );
   h.ops = io::log;
   h.final = readBytes( fn );
   CK( io::image( h.before, h.ops, h.ops.size(), -1 ) == h.final, "harness:conformance", "the recorded operations do not explain the file" );
   FileC f = dumpFile( fn );
   CK( f.ok && f.problems.empty(), "setup", "the complete file cannot be read" );
   h.dumpAfter = show( f );
   return h;
}

static string origin( Ctx &c, const FileC &f, const Hist &h )
{
   string d = show( f );
   if( !f.ok ) return "refused";
   if( d == h.dumpAfter ) return "complete";
   if( h.s.append && d == h.dumpBefore ) return "as before the append session";
   c.fail( "partial", "the file left behind opens without error but is not complete: " + firstDiff( h.dumpAfter, d ) );
}

static void checkImage( Ctx &c, const Hist &h, const string &img, bool exists )
{
   string cf = c.path( "crash.gdx" );
   unlink( cf.c_str() );
   if( exists ) writeBytes( cf, img );
   FileC f = dumpFile( cf );
   string r = origin( c, f, h );
   c.outcome( mc::hashStr( r + h.s.name ) );
   c.state( mc::mix( mc::hashStr( img ), (uint64_t) h.s.append ) );
   // after a refused open the same object reads a good file
   if( !f.ok )
   {
      Obj o;
      int rc = 0;
      CK( !o->gdxOpenRead( cf.c_str(), rc ) && rc != 0, "code", "refused without a code" );
      writeBytes( c.path( "good.gdx" ), h.final );
      CK( o->gdxOpenRead( c.path( "good.gdx" ).c_str(), rc ), "after", "a good file cannot be opened after the refused one: %d", rc );
      string d = show( dumpOpen( *o ) );
      CK( d == h.dumpAfter, "after", "the good file reads differently after the refused one: %s", firstDiff( h.dumpAfter, d ).c_str() );
      o->gdxClose();
   }
}

static void crash( Ctx &c, const vector<Session> &all, bool bulk )
{
   const Session &s = c.pick( all, "session" );
   Hist h = record( c, s );
   vector<std::pair<size_t, int64_t>> pts;// operations done, cut in the last one
   pts.push_back( { 0, -1 } );
   for( size_t k = 1; k <= h.ops.size(); k++ )
   {
      if( h.ops[k - 1].kind == io::WRITE )
      {
         int64_t n = h.ops[k - 1].res, pos = h.ops[k - 1].pos;
         for( int64_t b = 1; b < n; b++ )
            if( !bulk || n <= 200 || b < 24 || b > n - 24 || ( pos + b ) % 512 == 0 || ( pos + b ) % 512 == 1 || ( c.thorough && ( pos + b ) % 32 == 0 ) ) pts.push_back( { k, b } );
      }
      pts.push_back( { k, -1 } );
   }
   // consecutive points are checked together, 16 per execution
   int groups = (int) ( ( pts.size() + 15 ) / 16 );
   int g = c.choose( groups, "crash points" );
   for( size_t i = (size_t) g * 16; i < pts.size() && i < (size_t) ( g + 1 ) * 16; i++ )
   {
      c.note( fmt( "%s%s: dies after %zu of %zu file operations%s", s.name.c_str(), s.compress ? " (compressed)" : "", pts[i].first, h.ops.size(), pts[i].second >= 0 ? fmt( ", the last one cut after %lld bytes", (long long) pts[i].second ).c_str() : "" ) );
      checkImage( c, h, io::image( h.before, h.ops, pts[i].first, pts[i].second ), pts[i].first > 0 || s.append );
   }
}
static void fresh( Ctx &c )
{
   static const auto v = freshSessions( false );
   crash( c, v, false );
}
static void bulk( Ctx &c )
{
   static const auto v = [] {
      vector<Session> r;
      for( auto &s: freshSessions( true ) )
         if( s.name.rfind( "bulk", 0 ) == 0 ) r.push_back( s );
      for( auto &s: appendSessions( true ) )
         if( s.name == "append bulk" ) r.push_back( s );
      return r;
   }();
   crash( c, v, true );
}
static void append( Ctx &c )
{
   static const auto v = appendSessions( false );
   crash( c, v, false );
}

// the writing object is destroyed (or given up) between two calls
static void givenUp( Ctx &c )
{
   static const auto v = [] {
      auto a = freshSessions( true );
      for( auto &s: appendSessions( true ) ) a.push_back( s );
      return a;
   }();
   const Session &s = c.pick( v, "session" );
   int n = c.choose( (int) s.calls.size() + 1, "calls made" );
   Hist h = record( c, s );
   string fn = c.path( "g.gdx" );
   writeBytes( fn, h.before );
   if( !s.append ) unlink( fn.c_str() );
   {
      Obj o;
      CK( runSession( o, s, fn, n ), "setup", "session fails" );
   }
   c.note( fmt( "%s: destroyed after %d calls", s.name.c_str(), n ) );
   FileC f = dumpFile( fn );
   if( f.ok && !( s.append && show( f ) == h.dumpBefore ) ) c.fail( "partial", "a file that was never closed opens without error" );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P16";
   d.sc = { { "fresh", fresh, 3, "10 sessions creating a file x death after every byte written" },
            { "append", append, 3, "18 append sessions x death after every byte written" },
            { "bulk", bulk, 3, "6 sessions of several buffers x death after every operation, at every sector boundary and near both ends of every write" },
            { "given-up", givenUp, 3, "every session x object destroyed after every number of calls" } };
   d.assumptions = { "file operations reach the disk in the order in which they are made and a write is cut at most at one point (prefix model); reordering by the operating system is outside, the library never asks for a flush",
                     "a file being appended to may be found as it was before the session" };
   return d.main( argc, argv );
}
