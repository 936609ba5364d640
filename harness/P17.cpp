// P17: failing or partial operating-system calls are never silent.
#include "iowrap.hpp"
#include "sessions.hpp"
using namespace gh;

struct Kind_
{
   string name;
   io::Fault f;
   bool persistent;
   int err;
};
static const vector<Kind_> &kinds()
{
   static const vector<Kind_> k { { "fails once with an I/O error", io::FAIL, false, EIO },
                                  { "fails from then on (disk full)", io::FAIL, true, ENOSPC },
                                  { "is interrupted once", io::FAIL, false, EINTR },
                                  { "transfers half once", io::SHORT, false, 0 },
                                  { "transfers half from then on", io::SHORT, true, 0 },
                                  { "transfers one byte once", io::ONE, false, 0 },
                                  { "transfers nothing from then on", io::ZERO, true, 0 } };
   return k;
}
static bool applies( const Kind_ &k, const io::Op &o )
{
   bool transfer = o.kind == io::READ || o.kind == io::WRITE;
   if( transfer ) return o.n > 0;
   return k.f == io::FAIL && k.err != EINTR && ( o.kind == io::OPEN || o.kind == io::SEEK || o.kind == io::CLOSE );
}

// positions of the log worth a fault: every operation, or for bulk sessions of thousands of operations all kinds at both ends
static string where( const io::Op &o, size_t i, size_t n ) { return fmt( "operation %zu of %zu (%s of %lld bytes at %lld)", i + 1, n, io::kindName( o.kind ), (long long) o.n, (long long) o.pos ); }

struct WHist
{
   string before, after;
   vector<io::Op> ops;
};
static WHist recordWrite( Ctx &c, const Session &s, const string &fn )
{
   WHist h;
   unlink( fn.c_str() );
   if( s.append )
   {
      h.before = baseFile( fn, s.compress );
      CK( !h.before.empty(), "setup", "base file" );
   }
   Obj o;
   io::start( fn );
   bool ok = runSession( o, s, fn );
   io::stop();
   CK( ok, "setup", "session %s fails", s.name.c_str() );
   h.ops = io::log;
   FileC f = dumpFile( fn );
   CK( f.ok && f.problems.empty(), "setup", "the complete file cannot be read" );
   h.after = show( f );
   return h;
}

static void writing( Ctx &c, const vector<Session> &all )
{
   const Session &s = c.pick( all, "session" );
   const Kind_ &k = c.pick( kinds(), "fault" );
   string fn = c.path( "w.gdx" );
   WHist h = recordWrite( c, s, fn );
   int at = c.choose( (int) h.ops.size(), "operation" );
   if( !applies( k, h.ops[(size_t) at] ) ) c.prune();
   c.note( fmt( "%s%s: %s %s", s.name.c_str(), s.compress ? " (compressed)" : "", where( h.ops[(size_t) at], (size_t) at, h.ops.size() ).c_str(), k.name.c_str() ) );
   unlink( fn.c_str() );
   if( s.append ) writeBytes( fn, h.before );
   Obj o;
   io::start( fn );
   io::faultAt = at;
   io::fault = k.f;
   io::persistent = k.persistent;
   io::faultErrno = k.err;
   bool ok = runSession( o, s, fn );
   bool closeFailed = io::hit && io::faultKind == io::CLOSE;
   bool hit = io::hit;
   auto opened = io::fds.size();
   io::stop();
   CK( hit, "harness:hit", "the operation was not reached" );
   c.outcome( mc::mix( ok, (uint64_t) k.f * 8 + h.ops[(size_t) at].kind ) );
   if( k.err == EINTR || k.f == io::SHORT || k.f == io::ONE ) CK( ok, "harmless", "a partial or interrupted transfer makes writing fail" );
   if( ok )
   {
      CK( !closeFailed, "close", "no call reported that closing the file failed" );
      FileC f = dumpFile( fn );
      string d = show( f );
      CK( f.ok, "silent", "no call reported an error, but the file is refused with code %d", f.err );
      CK( d == h.after, "silent", "no call reported an error, but the file is wrong: %s", firstDiff( h.after, d ).c_str() );
   }
   else
      o->gdxClose();
   CK( io::fds.size() == 0 || !ok || opened == 0, "fd", "the file stays open" );
   // the object works again when the fault is gone
   string g = c.path( "again.gdx" );
   unlink( g.c_str() );
   Session r { "again", false, s.compress, "w", richCalls() };
   CK( runSession( o, r, g ), "after", "the object cannot write another file after the fault: error %d", o->gdxGetLastError() );
   static thread_local std::map<bool, string> good;
   if( good[s.compress].empty() )
   {
      Obj n;
      string g2 = c.path( "good.gdx" );
      CK( runSession( n, r, g2 ), "setup", "good file" );
      good[s.compress] = show( dumpFile( g2 ) );
   }
   CK( show( dumpFile( g ) ) == good[s.compress], "after", "another file written after the fault is wrong" );
}
static void fresh( Ctx &c )
{
   static const auto v = freshSessions( true );
   writing( c, v );
}
static void append( Ctx &c )
{
   static const auto v = appendSessions( true );
   writing( c, v );
}

// ---- reading
struct RMode
{
   string name;
   std::function<string( Obj & )> read;// canonical content; problems appended as "PROBLEM"
};
static string readMapped( Obj &o )
{
   string s;
   int ns, nu, n, df, keys[20];
   double v[5];
   o->gdxSystemInfo( ns, nu );
   for( int i = 0; i <= ns; i++ )
   {
      if( !o->gdxDataReadMapStart( i, n ) ) return s + "PROBLEM start fails\n";
      int fa[20];
      for( auto &x: fa ) x = -2;
      o->gdxDataReadDone();
      if( !o->gdxDataReadFilteredStart( i, fa, n ) ) return s + "PROBLEM start fails\n";
      memset( keys, 0, sizeof keys );
      memset( v, 0, sizeof v );
      while( o->gdxDataReadMap( 0, keys, v, df ) ) s += fmt( "%d %d %g %g\n", keys[0], keys[1], v[0], v[1] );
      o->gdxDataReadDone();
   }
   return s;
}
static string readStr( Obj &o )
{
   string s;
   int ns, nu, n, df;
   double v[5];
   o->gdxSystemInfo( ns, nu );
   for( int i = 1; i <= ns; i++ )
   {
      KeyBuf kb;
      if( !o->gdxDataReadStrStart( i, n ) ) return s + "PROBLEM start fails\n";
      while( o->gdxDataReadStr( kb.get(), v, df ) ) s += fmt( "%s %g\n", kb.ptr[0], v[0] );
      o->gdxDataReadDone();
   }
   return s;
}
static const vector<RMode> &rmodes()
{
   static const vector<RMode> m { { "catalogue and raw", []( Obj &o ) { return show( dumpOpen( *o ) ); } }, { "mapped", readMapped }, { "strings", readStr } };
   return m;
}
struct RRes
{
   bool opened = false, reported = false;
   string text;
};
static RRes readSession( Obj &o, const string &fn, const RMode &m )
{
   RRes r;
   int rc = 0;
   r.opened = o->gdxOpenRead( fn.c_str(), rc ) != 0;
   if( !r.opened )
   {
      r.reported = rc != 0;
      return r;
   }
   r.text = m.read( o );
   if( r.text.find( "PROBLEM" ) != string::npos ) r.reported = true;
   if( o->gdxGetLastError() || o->gdxErrorCount() ) r.reported = true;
   if( o->gdxClose() ) r.reported = true;
   return r;
}
static void reading( Ctx &c )
{
   static vector<std::pair<string, string>> files;
   if( files.empty() )
      for( auto &s: freshSessions( true ) )
      {
         Obj o;
         string fn = c.path( "mk.gdx" );
         CK( runSession( o, s, fn ), "setup", "session" );
         files.push_back( { s.name + ( s.compress ? " (compressed)" : "" ), readBytes( fn ) } );
      }
   const auto &file = c.pick( files, "file" );
   const RMode &m = c.pick( rmodes(), "way of reading" );
   const Kind_ &k = c.pick( kinds(), "fault" );
   string fn = c.path( "r.gdx" );
   writeBytes( fn, file.second );
   string want;
   vector<io::Op> ops;
   {
      Obj o;
      io::start( fn );
      RRes r = readSession( o, fn, m );
      io::stop();
      CK( r.opened && !r.reported, "setup", "the file cannot be read" );
      want = r.text;
      ops = io::log;
   }
   int at = c.choose( (int) ops.size(), "operation" );
   if( !applies( k, ops[(size_t) at] ) ) c.prune();
   c.note( fmt( "%s, %s: %s %s", file.first.c_str(), m.name.c_str(), where( ops[(size_t) at], (size_t) at, ops.size() ).c_str(), k.name.c_str() ) );
   Obj o;
   io::start( fn );
   io::faultAt = at;
   io::fault = k.f;
   io::persistent = k.persistent;
   io::faultErrno = k.err;
   RRes r = readSession( o, fn, m );
   io::stop();
   c.outcome( mc::mix( r.reported, (uint64_t) k.f * 8 + ops[(size_t) at].kind ) );
   if( !r.opened ) CK( r.reported, "silent", "the file cannot be opened, but no code is given" );
   if( r.opened && !r.reported ) CK( r.text == want, "silent", "no error was reported, but the data is wrong: %s", firstDiff( want, r.text ).c_str() );
   if( io::hit && ( k.err == EINTR || k.f == io::SHORT || k.f == io::ONE ) )
      CK( r.opened && !r.reported, "harmless", "a partial or interrupted transfer makes reading fail" );
   // and again without the fault
   RRes a = readSession( o, fn, m );
   CK( a.opened && !a.reported && a.text == want, "after", "the object cannot read the file after the fault" );
}

int main( int argc, char **argv )
{
   mc::Driver d;
   d.prop = "P17";
   d.sc = { { "write", fresh, 3, "14 sessions creating a file (up to several buffers, compressed or not) x 7 kinds of fault x every file operation", 30 },
            { "append", append, 3, "20 append sessions x 7 kinds of fault x every file operation", 30 },
            { "read", reading, 3, "14 files x 3 ways of reading x 7 kinds of fault x every file operation", 30 } };
   d.assumptions = { "one fault per session, or the same fault on all later operations of the same kind", "fstat and unlink do not fail" };
   return d.main( argc, argv );
}
