// libc and allocator seams: file streams, paths, rand(), time, pid, operator new, SQLite's allocator.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "simfs.h"
#include <dlfcn.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <new>
#include <random>
#include <unistd.h>
#include <malloc.h>
#include <sys/uio.h>
#include <sys/time.h>
#include <time.h>
#include "geodiff.h"
#include "scen.h"

// declared by hand: the headers would declare these with macros/inlines on some configurations
#undef fileno
#undef stat
#undef fstat
#undef lstat
#include <sys/stat.h>
#include <fcntl.h>

using namespace sim;

namespace {
struct OpenFile
{
  InodeP inode;
  uint64_t pos = 0;
  bool rd = false, wr = false, append = false;
  Proc *owner = nullptr;
  int refs = 1;
  FILE *fp = nullptr;
};
const int FD0 = 1 << 20;
std::map<int, std::shared_ptr<OpenFile>> &fds() { static auto *m = new std::map<int, std::shared_ptr<OpenFile>>; return *m; }
std::map<FILE *, int> &fps() { static auto *m = new std::map<FILE *, int>; return *m; }
int g_nextFd = FD0;
std::shared_ptr<OpenFile> fdGet( int fd )
{
  if ( fd < FD0 ) return nullptr;
  auto i = fds().find( fd );
  return i == fds().end() ? nullptr : i->second;
}
template<class T> T real( const char *name )
{
  void *p = dlsym( RTLD_NEXT, name );
  if ( !p ) abort();
  return ( T )p;
}
int simOpen( const char *path, int flags )
{
  HarnessScope hs;
  std::string p = fsPath( path );
  InodeP i = fsLookup( p );
  Action a = ioPoint( C_LCOPEN, "sopen %s flags %x", i ? strf( "i%d", i->id ).c_str() : "new", flags & 0xfff );
  i = fsLookup( p );
  if ( a != A_OK ) { errno = ( flags & O_CREAT ) && !i ? ENOSPC : EACCES; return -1; }
  if ( i && ( flags & O_CREAT ) && ( flags & O_EXCL ) ) { errno = EEXIST; return -1; }
  if ( g_dirs.count( p ) ) { errno = EISDIR; return -1; }
  if ( !i )
  {
    if ( !( flags & O_CREAT ) || !fsParentOk( p ) ) { errno = ENOENT; return -1; }
    i = fsCreate( p );
  }
  else if ( ( flags & O_TRUNC ) && ( flags & O_ACCMODE ) != O_RDONLY ) inTrunc( i.get(), 0 );
  auto f = std::make_shared<OpenFile>();
  f->inode = i;
  f->rd = ( flags & O_ACCMODE ) != O_WRONLY;
  f->wr = ( flags & O_ACCMODE ) != O_RDONLY;
  f->append = flags & O_APPEND;
  f->owner = g_proc;
  int fd = g_nextFd++;
  fds()[fd] = f;
  return fd;
}
ssize_t simRead( OpenFile *f, void *buf, size_t n )
{
  HarnessScope hs;
  Action a = ioPoint( C_LCREAD, "sread i%d @%llu+%zu", f->inode->id, ( unsigned long long )f->pos, n );
  if ( a == A_EINTR ) { errno = EINTR; return -1; }
  if ( a == A_SHORT ) n = n > 1 ? n / 2 : n;
  else if ( a != A_OK ) { errno = EIO; return -1; }
  if ( !f->rd ) { errno = EBADF; return -1; }
  const std::string &d = f->inode->data;
  if ( f->pos >= d.size() ) return 0;
  size_t av = std::min<size_t>( n, d.size() - f->pos );
  memcpy( buf, d.data() + f->pos, av );
  f->pos += av;
  return av;
}
ssize_t simWrite( OpenFile *f, const void *buf, size_t n )
{
  HarnessScope hs;
  if ( f->append ) f->pos = f->inode->data.size();
  Action a = ioPoint( C_LCWRITE, "swrite i%d @%llu+%zu", f->inode->id, ( unsigned long long )f->pos, n );
  if ( !f->wr ) { errno = EBADF; return -1; }
  if ( a == A_EINTR ) { errno = EINTR; return -1; }
  if ( a == A_ENOSPC )
  {
    // part of the data may still fit
    size_t part = ( g_proc && ( g_proc->opsTotal & 1 ) ) ? n / 2 : 0;
    if ( part ) { inWrite( f->inode.get(), f->pos, buf, part ); f->pos += part; return part; }
    errno = ENOSPC; return -1;
  }
  if ( a == A_SHORT ) n = n > 1 ? n / 2 : n;
  else if ( a != A_OK ) { errno = EIO; return -1; }
  inWrite( f->inode.get(), f->pos, buf, n );
  f->pos += n;
  return n;
}
int simClose( int fd )
{
  HarnessScope hs;
  auto f = fdGet( fd );
  Action a = ioPoint( C_LCCLOSE, "sclose i%d", f->inode->id );
  fds().erase( fd );
  if ( a != A_OK && f->wr ) { errno = EIO; return -1; }
  return 0;
}
off64_t simSeek( OpenFile *f, off64_t off, int wh )
{
  off64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? ( off64_t )f->pos : ( off64_t )f->inode->data.size();
  if ( b + off < 0 ) { errno = EINVAL; return -1; }
  f->pos = b + off;
  return f->pos;
}
// FILE* cookies
ssize_t ckRead( void *c, char *b, size_t n ) { auto f = fdGet( ( int )( intptr_t )c ); if ( !f ) { errno = EBADF; return -1; } return simRead( f.get(), b, n ); }
ssize_t ckWrite( void *c, const char *b, size_t n )
{
  auto f = fdGet( ( int )( intptr_t )c );
  if ( !f ) { errno = EBADF; return 0; }
  size_t done = 0;
  while ( done < n )
  {
    ssize_t r = simWrite( f.get(), b + done, n - done );
    if ( r < 0 ) return 0;      // fopencookie: 0 signals an error
    done += r;
  }
  return done;
}
int ckSeek( void *c, off64_t *o, int wh ) { auto f = fdGet( ( int )( intptr_t )c ); if ( !f ) return -1; off64_t r = simSeek( f.get(), *o, wh ); if ( r < 0 ) return -1; *o = r; return 0; }
int ckClose( void *c ) { int fd = ( int )( intptr_t )c; return fdGet( fd ) ? simClose( fd ) : -1; }

int modeFlags( const char *m )
{
  int fl = 0;
  bool plus = strchr( m, '+' );
  if ( m[0] == 'r' ) fl = plus ? O_RDWR : O_RDONLY;
  else if ( m[0] == 'w' ) fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_TRUNC;
  else fl = ( plus ? O_RDWR : O_WRONLY ) | O_CREAT | O_APPEND;
  if ( strchr( m, 'x' ) ) fl |= O_EXCL;
  return fl;
}
FILE *cookieFor( int fd, const char *m )
{
  cookie_io_functions_t io = { ckRead, ckWrite, ckSeek, ckClose };
  FILE *fp = fopencookie( ( void * )( intptr_t )fd, m, io );
  if ( fp ) { fps()[fp] = fd; fdGet( fd )->fp = fp; }
  return fp;
}
void fillStat( const std::string &p, const InodeP &i, struct stat *st )
{
  memset( st, 0, sizeof *st );
  if ( i ) { st->st_mode = S_IFREG | 0644; st->st_size = i->data.size(); st->st_ino = i->id; st->st_nlink = 1; st->st_blksize = 4096; }
  else { st->st_mode = S_IFDIR | 0755; st->st_nlink = 2; }
}
int simStat( const char *path, struct stat *st )
{
  HarnessScope hs;
  std::string p = fsPath( path );
  ioPoint( C_STAT, "stat %d", fsExists( p ) );
  InodeP i = fsLookup( p );
  std::string q = p; while ( q.size() > 1 && q.back() == '/' ) q.pop_back();
  if ( !i && !g_dirs.count( q ) ) { errno = ENOENT; return -1; }
  fillStat( p, i, st );
  return 0;
}
int simUnlink( const char *path )
{
  HarnessScope hs;
  std::string p = fsPath( path );
  InodeP i = fsLookup( p );
  Action a = ioPoint( C_LCDEL, "sunlink i%d", i ? i->id : 0 );
  if ( a != A_OK ) { errno = EIO; return -1; }
  if ( !fsUnlink( p ) ) { errno = ENOENT; return -1; }
  return 0;
}
bool active() { return g_proc && g_harness == 0; }
} // namespace

namespace sim {
void shimProcDeath( Proc *p )
{
  HarnessScope hs;
  for ( auto i = fds().begin(); i != fds().end(); )
  {
    if ( i->second->owner == p ) i = fds().erase( i ); else ++i;
  }
}
}

extern "C" {

FILE *fopen( const char *path, const char *mode )
{
  if ( !isSim( path ) ) { static auto f = real<FILE *( * )( const char *, const char * )>( "fopen" ); return f( path, mode ); }
  HarnessScope hs;
  int fd = simOpen( path, modeFlags( mode ) );
  if ( fd < 0 ) return nullptr;
  return cookieFor( fd, mode );
}
FILE *fopen64( const char *path, const char *mode )
{
  if ( !isSim( path ) ) { static auto f = real<FILE *( * )( const char *, const char * )>( "fopen64" ); return f( path, mode ); }
  return fopen( path, mode );
}
FILE *fdopen( int fd, const char *mode )
{
  if ( !fdGet( fd ) ) { static auto f = real<FILE *( * )( int, const char * )>( "fdopen" ); return f( fd, mode ); }
  HarnessScope hs;
  return cookieFor( fd, mode );
}
int fileno( FILE *fp )
{
  {
    HarnessScope hs;
    auto i = fps().find( fp );
    if ( i != fps().end() && fdGet( i->second ) && fdGet( i->second )->fp == fp ) return i->second;
  }
  static auto f = real<int( * )( FILE * )>( "fileno" );
  return f( fp );
}
int open( const char *path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); int mode = va_arg( ap, int ); va_end( ap );
  if ( !isSim( path ) ) { static auto f = real<int( * )( const char *, int, ... )>( "open" ); return f( path, flags, mode ); }
  return simOpen( path, flags );
}
int open64( const char *path, int flags, ... )
{
  va_list ap; va_start( ap, flags ); int mode = va_arg( ap, int ); va_end( ap );
  if ( !isSim( path ) ) { static auto f = real<int( * )( const char *, int, ... )>( "open64" ); return f( path, flags, mode ); }
  return simOpen( path, flags );
}
int creat( const char *path, mode_t mode )
{
  if ( !isSim( path ) ) { static auto f = real<int( * )( const char *, mode_t )>( "creat" ); return f( path, mode ); }
  return simOpen( path, O_CREAT | O_WRONLY | O_TRUNC );
}
int close( int fd )
{
  if ( fd >= FD0 && fdGet( fd ) ) return simClose( fd );
  static auto f = real<int( * )( int )>( "close" ); return f( fd );
}
ssize_t read( int fd, void *b, size_t n )
{
  if ( fd >= FD0 ) { HarnessScope hs; auto o = fdGet( fd ); if ( o ) return simRead( o.get(), b, n ); }
  static auto f = real<ssize_t( * )( int, void *, size_t )>( "read" ); return f( fd, b, n );
}
ssize_t write( int fd, const void *b, size_t n )
{
  if ( fd >= FD0 ) { HarnessScope hs; auto o = fdGet( fd ); if ( o ) return simWrite( o.get(), b, n ); }
  static auto f = real<ssize_t( * )( int, const void *, size_t )>( "write" ); return f( fd, b, n );
}
ssize_t writev( int fd, const struct iovec *v, int n )
{
  if ( fd >= FD0 )
  {
    HarnessScope hs;
    auto o = fdGet( fd );
    if ( o )
    {
      std::string all;
      for ( int i = 0; i < n; ++i ) all.append( ( const char * )v[i].iov_base, v[i].iov_len );
      return simWrite( o.get(), all.data(), all.size() );
    }
  }
  static auto f = real<ssize_t( * )( int, const struct iovec *, int )>( "writev" ); return f( fd, v, n );
}
off_t lseek( int fd, off_t o, int wh )
{
  if ( fd >= FD0 ) { auto of = fdGet( fd ); if ( of ) return simSeek( of.get(), o, wh ); }
  static auto f = real<off_t( * )( int, off_t, int )>( "lseek" ); return f( fd, o, wh );
}
off64_t lseek64( int fd, off64_t o, int wh )
{
  if ( fd >= FD0 ) { auto of = fdGet( fd ); if ( of ) return simSeek( of.get(), o, wh ); }
  static auto f = real<off64_t( * )( int, off64_t, int )>( "lseek64" ); return f( fd, o, wh );
}
int fsync( int fd )
{
  if ( fd >= FD0 ) { HarnessScope hs; auto of = fdGet( fd ); if ( of ) { if ( ioPoint( C_SYNC, "fsync i%d", of->inode->id ) != A_OK ) { errno = EIO; return -1; } inSync( of->inode.get() ); return 0; } }
  static auto f = real<int( * )( int )>( "fsync" ); return f( fd );
}
int fdatasync( int fd )
{
  if ( fd >= FD0 ) return fsync( fd );
  static auto f = real<int( * )( int )>( "fdatasync" ); return f( fd );
}
int ftruncate( int fd, off_t n )
{
  if ( fd >= FD0 ) { HarnessScope hs; auto of = fdGet( fd ); if ( of ) { if ( ioPoint( C_TRUNC, "ftrunc i%d", of->inode->id ) != A_OK ) { errno = EIO; return -1; } inTrunc( of->inode.get(), n ); return 0; } }
  static auto f = real<int( * )( int, off_t )>( "ftruncate" ); return f( fd, n );
}
int fstat( int fd, struct stat *st )
{
  if ( fd >= FD0 ) { HarnessScope hs; auto of = fdGet( fd ); if ( of ) { fillStat( "", of->inode, st ); return 0; } }
  static auto f = real<int( * )( int, struct stat * )>( "fstat" ); return f( fd, st );
}
int fstat64( int fd, struct stat64 *st )
{
  if ( fd >= FD0 ) return fstat( fd, ( struct stat * )st );
  static auto f = real<int( * )( int, struct stat64 * )>( "fstat64" ); return f( fd, st );
}
int stat( const char *p, struct stat *st )
{
  if ( isSim( p ) ) return simStat( p, st );
  static auto f = real<int( * )( const char *, struct stat * )>( "stat" ); return f( p, st );
}
int stat64( const char *p, struct stat64 *st )
{
  if ( isSim( p ) ) return simStat( p, ( struct stat * )st );
  static auto f = real<int( * )( const char *, struct stat64 * )>( "stat64" ); return f( p, st );
}
int lstat( const char *p, struct stat *st )
{
  if ( isSim( p ) ) return simStat( p, st );
  static auto f = real<int( * )( const char *, struct stat * )>( "lstat" ); return f( p, st );
}
int access( const char *p, int m )
{
  if ( isSim( p ) ) { struct stat st; return simStat( p, &st ); }
  static auto f = real<int( * )( const char *, int )>( "access" ); return f( p, m );
}
int unlink( const char *p )
{
  if ( isSim( p ) ) return simUnlink( p );
  static auto f = real<int( * )( const char * )>( "unlink" ); return f( p );
}
int remove( const char *p )
{
  if ( isSim( p ) ) return simUnlink( p );
  static auto f = real<int( * )( const char * )>( "remove" ); return f( p );
}
int rename( const char *a, const char *b )
{
  if ( isSim( a ) )
  {
    HarnessScope hs;
    std::string ra = fsPath( a ), rb = fsPath( b ); a = ra.c_str(); b = rb.c_str();
    InodeP i = fsLookup( a );
    if ( ioPoint( C_LCDEL, "srename i%d", i ? i->id : 0 ) != A_OK ) { errno = EIO; return -1; }
    if ( !fsRename( a, b ) ) { errno = ENOENT; return -1; }
    return 0;
  }
  static auto f = real<int( * )( const char *, const char * )>( "rename" ); return f( a, b );
}
static int mkstempImpl( char *tmpl )
{
  HarnessScope hs;
  size_t n = strlen( tmpl );
  static uint64_t ctr = 0;
  for ( int k = 0; k < 100; ++k )
  {
    uint64_t r = mix64( ++ctr );
    for ( int i = 0; i < 6; ++i ) { tmpl[n - 6 + i] = 'a' + r % 26; r /= 26; }
    int fd = simOpen( tmpl, O_CREAT | O_EXCL | O_RDWR );
    if ( fd >= 0 ) return fd;
    if ( errno != EEXIST ) return -1;
  }
  return -1;
}
int mkstemp( char *t )
{
  if ( isSim( t ) ) return mkstempImpl( t );
  static auto f = real<int( * )( char * )>( "mkstemp" ); return f( t );
}
int mkstemp64( char *t )
{
  if ( isSim( t ) ) return mkstempImpl( t );
  static auto f = real<int( * )( char * )>( "mkstemp64" ); return f( t );
}

// every simulated process starts with the same generator state, as every real one does without srand()
int rand( void )
{
  if ( !g_proc ) { static auto f = real<int( * )( void )>( "rand" ); return f(); }
  g_proc->randState = g_proc->randState * 1103515245u + 12345u;
  uint32_t hi = g_proc->randState >> 16;
  g_proc->randState = g_proc->randState * 1103515245u + 12345u;
  return ( int )( ( ( hi & 0x7fff ) << 16 ) | ( g_proc->randState >> 16 ) );
}
void srand( unsigned s )
{
  if ( !g_proc ) { static auto f = real<void( * )( unsigned )>( "srand" ); f( s ); return; }
  g_proc->randState = s;
}
pid_t getpid( void )
{
  if ( g_proc ) return 1000 + g_proc->pid;
  static auto f = real<pid_t( * )( void )>( "getpid" ); return f();
}
time_t time( time_t *t )
{
  time_t r;
  if ( g_proc ) r = 1767225600 + g_clock / 1000000000;
  else { struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); r = ts.tv_sec; }
  if ( t ) *t = r;
  return r;
}
int gettimeofday( struct timeval *tv, void *tz )
{
  ( void )tz;
  if ( g_proc ) { tv->tv_sec = 1767225600 + g_clock / 1000000000; tv->tv_usec = ( g_clock / 1000 ) % 1000000; return 0; }
  struct timespec ts; clock_gettime( CLOCK_REALTIME, &ts ); tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000;
  return 0;
}
int clock_gettime( clockid_t c, struct timespec *ts )
{
  if ( g_proc ) { ts->tv_sec = 1767225600 + g_clock / 1000000000; ts->tv_nsec = g_clock % 1000000000; return 0; }
  static auto f = real<int( * )( clockid_t, struct timespec * )>( "clock_gettime" ); return f( c, ts );
}

} // extern "C"

// std::random_device: real entropy differs between processes, so does this, but repeatably
void std::random_device::_M_init( const std::string & ) {}
void std::random_device::_M_init( const char *, size_t ) {}
void std::random_device::_M_init_pretr1( const std::string & ) {}
void std::random_device::_M_fini() {}
std::random_device::result_type std::random_device::_M_getval()
{
  static uint64_t outside = 1;
  uint64_t &s = g_proc ? g_proc->rdState : outside;
  ++s;
  return ( result_type )mix64( s * 0x9e3779b97f4a7c15ULL + ( g_proc ? g_proc->pid * 1000003ULL : 0 ) );
}
std::random_device::result_type std::random_device::_M_getval_pretr1() { return _M_getval(); }

// ---------------------------------------------------------------- allocators
static void *newImpl( size_t n, bool nothrow )
{
  if ( active() && allocFails( C_NEW ) ) { if ( nothrow ) return nullptr; throw std::bad_alloc(); }
  void *p = malloc( n ? n : 1 );
  if ( !p ) { if ( nothrow ) return nullptr; throw std::bad_alloc(); }
  return p;
}
void *operator new( size_t n ) { return newImpl( n, false ); }
void *operator new[]( size_t n ) { return newImpl( n, false ); }
void *operator new( size_t n, const std::nothrow_t & ) noexcept { return newImpl( n, true ); }
void *operator new[]( size_t n, const std::nothrow_t & ) noexcept { return newImpl( n, true ); }
void operator delete( void *p ) noexcept { free( p ); }
void operator delete[]( void *p ) noexcept { free( p ); }
void operator delete( void *p, size_t ) noexcept { free( p ); }
void operator delete[]( void *p, size_t ) noexcept { free( p ); }

// the requested size is kept in front: what the allocator really reserved depends on the heap's history
static const int SQH = 16;
static void *sqMalloc( int n )
{
  if ( active() && allocFails( C_SQMALLOC ) ) return nullptr;
  char *p = ( char * )malloc( ( size_t )n + SQH );
  if ( !p ) return nullptr;
  memcpy( p, &n, sizeof n );
  return p + SQH;
}
static void sqFree( void *p ) { if ( p ) free( ( char * )p - SQH ); }
static void *sqRealloc( void *p, int n )
{
  if ( active() && allocFails( C_SQMALLOC ) ) return nullptr;
  char *q = ( char * )realloc( p ? ( char * )p - SQH : nullptr, ( size_t )n + SQH );
  if ( !q ) return nullptr;
  memcpy( q, &n, sizeof n );
  return q + SQH;
}
static int sqSize( void *p ) { int n = 0; if ( p ) memcpy( &n, ( char * )p - SQH, sizeof n ); return n; }
static int sqRound( int n ) { return ( n + 7 ) & ~7; }
static int sqInit( void * ) { return SQLITE_OK; }
static void sqShut( void * ) {}

namespace sim {

std::vector<LogRec> g_logAll;
std::function<void( size_t )> g_logHook;
static void record( int cb, enum GEODIFF_LoggerLevel level, const char *msg )
{
  HarnessScope hs;
  probe( level == LevelError ? "log.error" : level == LevelWarning ? "log.warning" : "log.other" );
  if ( level == LevelError && sim::g_lastLog.size() < 1500 ) { sim::g_lastLog += msg ? msg : ""; sim::g_lastLog += " | "; }
  if ( g_trace ) { std::string s( msg ? msg : "" ); g_traceLines.push_back( "    log: " + s.substr( 0, 300 ) ); }
  if ( g_logAll.size() < 20000 ) g_logAll.push_back( { cb, ( int )level, msg ? msg : "(null)" } );
  if ( g_logHook ) g_logHook( g_logAll.size() );
}
static void loggerCb( enum GEODIFF_LoggerLevel level, const char *msg ) { record( 0, level, msg ); }
static void loggerCb2( enum GEODIFF_LoggerLevel level, const char *msg ) { record( 1, level, msg ); }
void setLogger( int cb, int level )
{
  GEODIFF_setLoggerCallback( cb == 0 ? &loggerCb : cb == 1 ? &loggerCb2 : nullptr );
  GEODIFF_setMaximumLoggerLevel( ( GEODIFF_LoggerLevel )level );
}
void simSystemInit( bool ownLogger )
{
  HarnessScope hs;
  mallopt( M_PERTURB, 0xA5 );       // memory that was never written has the same content in every run
  static sqlite3_mem_methods mm = { sqMalloc, sqFree, sqRealloc, sqSize, sqRound, sqInit, sqShut, nullptr };
  if ( sqlite3_config( SQLITE_CONFIG_MALLOC, &mm ) != SQLITE_OK ) herr( "sqlite config" );
  sqlite3_config( SQLITE_CONFIG_MEMSTATUS, 0 );
  GEODIFF_init();
  if ( ownLogger ) setLogger( 0, LevelInfo );
  vfsInit();
  g_dirs = { "/sim", "/sim/tmp", "/sim/cwd", "/sim/o" };
  setenv( "TMPDIR", "/sim/tmp/", 1 );
  g_onProcDeath.push_back( vfsProcDeath );
  g_onProcDeath.push_back( shimProcDeath );
  g_onPowerLoss = fsPowerLoss;
}
}
