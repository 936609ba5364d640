// Interposed file system calls (definitions in the executable win over libc's): a log of every low-level operation on
// files below a registered directory, and injected failures.  Include in exactly one harness source.
#pragma once
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstring>
#include <fcntl.h>
#include <map>
#include <string>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>
#include <vector>

namespace io
{
enum Kind { OPEN, READ, WRITE, SEEK, CLOSE, STAT, TRUNC };
inline const char *kindName( int k )
{
   static const char *n[] = { "open", "read", "write", "seek", "close", "stat", "truncate" };
   return n[k];
}
struct Op
{
   Kind kind;
   int64_t pos;// of read/write
   int64_t n;  // bytes asked for
   std::string data;
   int64_t res;
   bool trunc;// open truncated the file
};
// what an operation does instead of working
enum Fault { NONE, FAIL, SHORT, ONE, ZERO };
inline bool armed = false;
inline std::string prefix;// only files with this prefix
inline std::map<int, std::string> fds;
inline std::vector<Op> log;
inline int faultAt = -1;        // index in the log
inline bool persistent = false; // all later operations of the same kind fail, too
inline Fault fault = NONE;
inline int faultErrno = EIO;
inline bool hit = false;
inline Kind faultKind;

inline void start( const std::string &p )
{
   armed = true;
   prefix = p;
   fds.clear();
   log.clear();
   faultAt = -1;
   fault = NONE;
   persistent = false;
   hit = false;
}
inline void stop() { armed = false; }

inline Fault due( Kind k )
{
   int i = (int) log.size();
   if( i == faultAt )
   {
      hit = true;
      faultKind = k;
      return fault;
   }
   if( persistent && hit && k == faultKind ) return fault;
   return NONE;
}
inline bool mine( int fd ) { return armed && fds.count( fd ); }
inline int64_t rawSeek( int fd, int64_t o, int w ) { return syscall( SYS_lseek, fd, o, w ); }

inline int doOpen( int at, const char *p, int flags, int mode )
{
   if( armed && p && std::string( p ).rfind( prefix, 0 ) == 0 )
   {
      Fault f = due( OPEN );
      if( f != NONE )
      {
         log.push_back( { OPEN, 0, 0, p, -1, false } );
         errno = faultErrno;
         return -1;
      }
      int fd = (int) syscall( SYS_openat, at, p, flags, mode );
      int e = errno;
      log.push_back( { OPEN, 0, 0, p, fd, ( flags & O_TRUNC ) != 0 } );
      if( fd >= 0 ) fds[fd] = p;
      errno = e;
      return fd;
   }
   return (int) syscall( SYS_openat, at, p, flags, mode );
}
inline ssize_t doRead( int fd, void *b, size_t n )
{
   if( !mine( fd ) ) return syscall( SYS_read, fd, b, n );
   int64_t pos = rawSeek( fd, 0, SEEK_CUR );
   Fault f = n ? due( READ ) : NONE;
   size_t want = n;
   if( f == SHORT ) want = ( n + 1 ) / 2;
   if( f == ONE ) want = 1;
   if( f == FAIL || f == ZERO )
   {
      log.push_back( { READ, pos, (int64_t) n, "", f == FAIL ? -1 : 0, false } );
      errno = faultErrno;
      return f == FAIL ? -1 : 0;
   }
   ssize_t r = syscall( SYS_read, fd, b, want );
   if( f == SHORT && r == (ssize_t) want ) {}
   else if( f == SHORT && r > 1 )// the file is shorter than the request: give back half of it
   {
      ssize_t keep = ( r + 1 ) / 2;
      rawSeek( fd, pos + keep, SEEK_SET );
      r = keep;
   }
   int e = errno;
   log.push_back( { READ, pos, (int64_t) n, "", r, false } );
   errno = e;
   return r;
}
inline ssize_t doWrite( int fd, const void *b, size_t n )
{
   if( !mine( fd ) ) return syscall( SYS_write, fd, b, n );
   int64_t pos = rawSeek( fd, 0, SEEK_CUR );
   Fault f = n ? due( WRITE ) : NONE;
   size_t want = n;
   if( f == SHORT ) want = n / 2 ? n / 2 : 1;
   if( f == ONE ) want = 1;
   if( f == FAIL || f == ZERO )
   {
      log.push_back( { WRITE, pos, (int64_t) n, "", f == FAIL ? -1 : 0, false } );
      errno = faultErrno;
      return f == FAIL ? -1 : 0;
   }
   ssize_t r = syscall( SYS_write, fd, b, want );
   int e = errno;
   log.push_back( { WRITE, pos, (int64_t) n, std::string( (const char *) b, r > 0 ? (size_t) r : 0 ), r, false } );
   errno = e;
   return r;
}
inline int64_t doSeek( int fd, int64_t o, int w )
{
   if( !mine( fd ) ) return rawSeek( fd, o, w );
   if( due( SEEK ) != NONE )
   {
      log.push_back( { SEEK, o, 0, "", -1, false } );
      errno = faultErrno;
      return -1;
   }
   int64_t r = rawSeek( fd, o, w );
   int e = errno;
   log.push_back( { SEEK, o, 0, "", r, false } );
   errno = e;
   return r;
}

// file content after the first k operations, the k-th (if a write) cut after `cut` bytes (-1: not cut)
inline std::string image( const std::string &before, const std::vector<Op> &ops, size_t k, int64_t cut )
{
   std::string img = before;
   for( size_t i = 0; i < k && i < ops.size(); i++ )
   {
      auto &o = ops[i];
      if( o.kind == OPEN && o.trunc && o.res >= 0 ) img.clear();
      if( o.kind == TRUNC && o.res >= 0 ) img.resize( (size_t) o.n );
      if( o.kind == WRITE && o.res > 0 )
      {
         size_t n = (size_t) o.res;
         if( i + 1 == k && cut >= 0 ) n = std::min( n, (size_t) cut );
         if( n && img.size() < (size_t) o.pos + n ) img.resize( (size_t) o.pos + n );
         for( size_t j = 0; j < n; j++ ) img[(size_t) o.pos + j] = o.data[j];
      }
   }
   return img;
}
}// namespace io

extern "C" {
int open( const char *p, int flags, ... )
{
   int m = 0;
   if( flags & ( O_CREAT | O_TMPFILE ) )
   {
      va_list ap;
      va_start( ap, flags );
      m = va_arg( ap, int );
      va_end( ap );
   }
   return io::doOpen( AT_FDCWD, p, flags, m );
}
int open64( const char *p, int flags, ... )
{
   int m = 0;
   if( flags & ( O_CREAT | O_TMPFILE ) )
   {
      va_list ap;
      va_start( ap, flags );
      m = va_arg( ap, int );
      va_end( ap );
   }
   return io::doOpen( AT_FDCWD, p, flags, m );
}
int openat( int at, const char *p, int flags, ... )
{
   int m = 0;
   if( flags & ( O_CREAT | O_TMPFILE ) )
   {
      va_list ap;
      va_start( ap, flags );
      m = va_arg( ap, int );
      va_end( ap );
   }
   return io::doOpen( at, p, flags, m );
}
ssize_t read( int fd, void *b, size_t n ) { return io::doRead( fd, b, n ); }
ssize_t write( int fd, const void *b, size_t n ) { return io::doWrite( fd, b, n ); }
ssize_t writev( int fd, const struct iovec *v, int n )
{
   if( !io::mine( fd ) ) return syscall( SYS_writev, fd, v, n );
   std::string s;
   for( int i = 0; i < n; i++ ) s.append( (const char *) v[i].iov_base, v[i].iov_len );
   return io::doWrite( fd, s.data(), s.size() );
}
ssize_t pwrite( int fd, const void *b, size_t n, off_t o )
{
   if( !io::mine( fd ) ) return syscall( SYS_pwrite64, fd, b, n, o );
   int64_t p = io::rawSeek( fd, 0, SEEK_CUR );
   io::rawSeek( fd, o, SEEK_SET );
   ssize_t r = io::doWrite( fd, b, n );
   int e = errno;
   io::rawSeek( fd, p, SEEK_SET );
   errno = e;
   return r;
}
ssize_t pwrite64( int fd, const void *b, size_t n, off64_t o ) { return pwrite( fd, b, n, o ); }
ssize_t pread( int fd, void *b, size_t n, off_t o )
{
   if( !io::mine( fd ) ) return syscall( SYS_pread64, fd, b, n, o );
   int64_t p = io::rawSeek( fd, 0, SEEK_CUR );
   io::rawSeek( fd, o, SEEK_SET );
   ssize_t r = io::doRead( fd, b, n );
   int e = errno;
   io::rawSeek( fd, p, SEEK_SET );
   errno = e;
   return r;
}
ssize_t pread64( int fd, void *b, size_t n, off64_t o ) { return pread( fd, b, n, o ); }
off_t lseek( int fd, off_t o, int w ) noexcept { return io::doSeek( fd, o, w ); }
off64_t lseek64( int fd, off64_t o, int w ) noexcept { return io::doSeek( fd, o, w ); }
int ftruncate( int fd, off_t n ) noexcept
{
   int r = (int) syscall( SYS_ftruncate, fd, n );
   if( io::mine( fd ) ) io::log.push_back( { io::TRUNC, 0, n, "", r, false } );
   return r;
}
int close( int fd )
{
   if( !io::mine( fd ) ) return (int) syscall( SYS_close, fd );
   io::fds.erase( fd );
   io::Fault f = io::due( io::CLOSE );
   int r = (int) syscall( SYS_close, fd );
   io::log.push_back( { io::CLOSE, 0, 0, "", f == io::NONE ? r : -1, false } );
   if( f != io::NONE )
   {
      errno = io::faultErrno;
      return -1;
   }
   return r;
}
}
