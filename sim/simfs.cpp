#include "simfs.h"
#include <cstring>
#include <cstdlib>

namespace sim {

std::map<std::string, InodeP> g_cur, g_dur;
std::set<std::string> g_dirs;
int g_sectorSize = 4096;
int g_devChar = SQLITE_IOCAP_POWERSAFE_OVERWRITE;
bool g_fsTrackDurable = true;
static int g_nextInode = 1;

bool isSim( const char *path ) { return path && strncmp( path, "/sim/", 5 ) == 0; }

static InodeP cloneInode( const InodeP &a )
{
  InodeP b = std::make_shared<Inode>();
  b->id = a->id; b->data = a->data; b->durable = a->durable; b->pending = a->pending;
  return b;
}
FsImage fsSnapshot()
{
  HarnessScope hs;
  FsImage img;
  std::map<Inode *, InodeP> m;
  auto cl = [&]( const InodeP &i ) { auto &x = m[i.get()]; if ( !x ) x = cloneInode( i ); return x; };
  for ( auto &k : g_cur ) img.cur[k.first] = cl( k.second );
  for ( auto &k : g_dur ) img.dur[k.first] = cl( k.second );
  img.dirs = g_dirs; img.nextId = g_nextInode;
  return img;
}
void fsRestore( const FsImage &src )
{
  HarnessScope hs;
  std::map<Inode *, InodeP> m;
  auto cl = [&]( const InodeP &i ) { auto &x = m[i.get()]; if ( !x ) x = cloneInode( i ); return x; };
  g_cur.clear(); g_dur.clear();
  for ( auto &k : src.cur ) g_cur[k.first] = cl( k.second );
  for ( auto &k : src.dur ) g_dur[k.first] = cl( k.second );
  g_dirs = src.dirs; g_nextInode = src.nextId;
}

std::string g_alias;
std::string fsPath( const std::string &p )
{
  if ( g_alias.empty() ) return p;
  if ( p.compare( 0, g_alias.size(), g_alias ) == 0 ) return "/sim/" + p.substr( g_alias.size() );
  return p;
}
InodeP fsLookup( const std::string &p ) { auto i = g_cur.find( p ); return i == g_cur.end() ? nullptr : i->second; }
InodeP fsCreate( const std::string &p )
{
  InodeP i = std::make_shared<Inode>();
  i->id = g_nextInode++;
  g_cur[p] = i;
  return i;
}
bool fsUnlink( const std::string &p ) { return g_cur.erase( p ) > 0; }
bool fsRename( const std::string &a, const std::string &b )
{
  auto i = g_cur.find( a );
  if ( i == g_cur.end() ) return false;
  InodeP x = i->second;
  g_cur.erase( i );
  g_cur[b] = x;
  return true;
}
bool fsParentOk( const std::string &p )
{
  size_t s = p.rfind( '/' );
  return s != std::string::npos && s > 4 && g_dirs.count( p.substr( 0, s ) );
}

static void applyW( std::string &d, uint64_t off, const char *p, size_t n )
{
  if ( off + n > d.size() ) d.resize( off + n, 0 );
  memcpy( &d[off], p, n );
}
void inWrite( Inode *i, uint64_t off, const void *d, size_t n )
{
  if ( !n ) return;
  applyW( i->data, off, ( const char * )d, n );
  if ( g_fsTrackDurable ) i->pending.push_back( { off, std::string( ( const char * )d, n ), false, 0 } );
}
void inTrunc( Inode *i, uint64_t size )
{
  i->data.resize( size, 0 );
  if ( g_fsTrackDurable ) i->pending.push_back( { 0, "", true, size } );
}
void inSync( Inode *i )
{
  i->durable = i->data; i->pending.clear();
  // the directory entry becomes durable together with the first sync of a file
  for ( auto &k : g_cur ) if ( k.second.get() == i ) g_dur[k.first] = k.second;
}

int g_powerEpoch = 0;
void fsPowerLoss()
{
  HarnessScope hs;
  ++g_powerEpoch;
  // 0: nothing unsynced survives, 1: everything does, 2: arbitrary subset, torn at sector granularity, 3: prefix of the writes
  int mode = ch.choose( 4 );
  Rng r; r.seed( mode >= 2 ? ch.choose( 1u << 20 ) : 0 );
  probe( strf( "powerloss.mode%d", mode ) );
  std::map<std::string, InodeP> names = g_dur;
  std::set<std::string> keys;
  for ( auto &k : g_cur ) keys.insert( k.first );
  for ( auto &k : g_dur ) keys.insert( k.first );
  for ( auto &k : keys )
  {
    auto c = g_cur.find( k ), d = g_dur.find( k );
    InodeP ci = c == g_cur.end() ? nullptr : c->second, di = d == g_dur.end() ? nullptr : d->second;
    if ( ci == di ) continue;
    bool takeCur = mode == 0 ? false : mode == 1 ? true : r.below( 2 );
    InodeP t = takeCur ? ci : di;
    if ( t ) names[k] = t; else names.erase( k );
  }
  std::set<Inode *> done;
  for ( auto &k : names )
  {
    Inode *i = k.second.get();
    if ( !done.insert( i ).second ) continue;
    std::string out = i->durable;
    size_t nP = i->pending.size();
    size_t prefix = mode == 3 ? r.below( nP + 1 ) : 0;
    for ( size_t w = 0; w < nP; ++w )
    {
      auto &pw = i->pending[w];
      bool keep = mode == 1 || ( mode == 2 && r.below( 2 ) ) || ( mode == 3 && w < prefix );
      bool torn = mode == 2 && !keep && r.below( 3 ) == 0;
      if ( mode == 3 && w == prefix ) torn = r.below( 2 );
      if ( pw.trunc ) { if ( keep ) out.resize( pw.size, 0 ); continue; }
      if ( keep ) applyW( out, pw.off, pw.d.data(), pw.d.size() );
      else if ( torn )
      {
        probe( "powerloss.torn_write" );
        // some 512-byte sectors of the write reach the disk
        bool pfx = r.below( 2 );
        size_t cut = r.below( pw.d.size() / 512 + 1 ) * 512;
        for ( size_t o = 0; o < pw.d.size(); o += 512 )
        {
          size_t n = std::min<size_t>( 512, pw.d.size() - o );
          bool k2 = pfx ? o < cut : r.below( 2 );
          if ( k2 ) applyW( out, pw.off + o, pw.d.data() + o, n );
        }
      }
    }
    i->data = i->durable = out;
    i->pending.clear();
    i->shm.reset();
    i->files.clear();
  }
  g_cur = names; g_dur = names;
  ev( "power loss mode %d: %zu files survive", mode, names.size() );
}

bool fsExists( const std::string &p ) { return g_cur.count( p ); }
std::string fsRead( const std::string &p ) { auto i = fsLookup( p ); return i ? i->data : std::string(); }
void fsWrite( const std::string &p, const std::string &data )
{
  HarnessScope hs;
  InodeP i = fsCreate( p );
  i->data = i->durable = data;
  g_dur[p] = i;
}
void fsCopy( const std::string &from, const std::string &to )
{
  if ( fsExists( from ) ) fsWrite( to, fsRead( from ) );
  else fsRemove( to );
}
void fsCopyDb( const std::string &from, const std::string &to )
{
  fsCopy( from, to );
  fsCopy( from + "-journal", to + "-journal" );
  fsCopy( from + "-wal", to + "-wal" );
}
void fsRemove( const std::string &p ) { HarnessScope hs; g_cur.erase( p ); g_dur.erase( p ); }
void fsRemoveDb( const std::string &p ) { fsRemove( p ); fsRemove( p + "-journal" ); fsRemove( p + "-wal" ); }
std::vector<std::string> fsList( const std::string &prefix )
{
  std::vector<std::string> r;
  for ( auto &k : g_cur ) if ( k.first.compare( 0, prefix.size(), prefix ) == 0 ) r.push_back( k.first );
  return r;
}
void fsSyncAll()
{
  HarnessScope hs;
  for ( auto &k : g_cur ) { k.second->durable = k.second->data; k.second->pending.clear(); }
  g_dur = g_cur;
}

// =====================================================================================
// SQLite VFS
struct ShmNode
{
  std::vector<std::unique_ptr<char[]>> regions;
  int users = 0;
};
struct SimFile
{
  sqlite3_file base;
  InodeP *inode;        // pointer: sqlite owns the memory of this struct
  std::string *name;    // empty for temporary files
  int lock;
  Proc *owner;
  int flags;
  bool shm;
  uint16_t shmShared, shmExcl;
};
static std::set<SimFile *> g_open;

static int fClose( sqlite3_file *f );
static int fRead( sqlite3_file *f, void *buf, int n, sqlite3_int64 off )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  Inode *i = s->inode->get();
  Action a = ioPoint( C_READ, "read i%d @%lld+%d", i->id, ( long long )off, n );
  if ( a != A_OK ) return SQLITE_IOERR_READ;
  if ( ( uint64_t )off >= i->data.size() ) { memset( buf, 0, n ); return SQLITE_IOERR_SHORT_READ; }
  size_t av = i->data.size() - off;
  if ( av >= ( size_t )n ) { memcpy( buf, i->data.data() + off, n ); return SQLITE_OK; }
  memcpy( buf, i->data.data() + off, av );
  memset( ( char * )buf + av, 0, n - av );
  return SQLITE_IOERR_SHORT_READ;
}
static int fWrite( sqlite3_file *f, const void *buf, int n, sqlite3_int64 off )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  Inode *i = s->inode->get();
  Action a = ioPoint( C_WRITE, "write i%d @%lld+%d", i->id, ( long long )off, n );
  if ( a == A_ENOSPC )
  {
    if ( ( uint64_t )off + n > i->data.size() ) return SQLITE_FULL;   // only growing needs space
    a = A_OK;
  }
  if ( a != A_OK )
  {
    // a failed write may have changed part of the range
    if ( g_proc && ( g_proc->opsTotal & 1 ) ) inWrite( i, off, buf, n / 2 );
    return SQLITE_IOERR_WRITE;
  }
  inWrite( i, off, buf, n );
  return SQLITE_OK;
}
static int fTruncate( sqlite3_file *f, sqlite3_int64 size )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  if ( ioPoint( C_TRUNC, "trunc i%d %lld", ( *s->inode )->id, ( long long )size ) != A_OK ) return SQLITE_IOERR_TRUNCATE;
  inTrunc( s->inode->get(), size );
  return SQLITE_OK;
}
static int fSync( sqlite3_file *f, int )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  if ( ioPoint( C_SYNC, "sync i%d", ( *s->inode )->id ) != A_OK ) return SQLITE_IOERR_FSYNC;
  inSync( s->inode->get() );
  return SQLITE_OK;
}
static int fSize( sqlite3_file *f, sqlite3_int64 *p )
{
  SimFile *s = ( SimFile * )f;
  *p = ( *s->inode )->data.size();
  return SQLITE_OK;
}
static bool othersAtLeast( SimFile *s, int level )
{
  for ( SimFile *o : ( *s->inode )->files ) if ( o != s && o->lock >= level ) return true;
  return false;
}
static int fLock( sqlite3_file *f, int level )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  if ( s->lock >= level ) return SQLITE_OK;
  if ( ioPoint( C_LOCK, "lock i%d %d", ( *s->inode )->id, level ) != A_OK ) return SQLITE_BUSY;
  if ( level == SQLITE_LOCK_SHARED )
  {
    if ( othersAtLeast( s, SQLITE_LOCK_PENDING ) ) { probe( "lock.busy_natural" ); return SQLITE_BUSY; }
    s->lock = SQLITE_LOCK_SHARED;
    return SQLITE_OK;
  }
  if ( level == SQLITE_LOCK_RESERVED )
  {
    if ( othersAtLeast( s, SQLITE_LOCK_RESERVED ) ) { probe( "lock.busy_natural" ); return SQLITE_BUSY; }
    s->lock = SQLITE_LOCK_RESERVED;
    return SQLITE_OK;
  }
  // EXCLUSIVE
  if ( othersAtLeast( s, SQLITE_LOCK_RESERVED ) ) { probe( "lock.busy_natural" ); return SQLITE_BUSY; }
  s->lock = SQLITE_LOCK_PENDING;
  if ( othersAtLeast( s, SQLITE_LOCK_SHARED ) ) { probe( "lock.busy_natural" ); return SQLITE_BUSY; }
  s->lock = SQLITE_LOCK_EXCLUSIVE;
  return SQLITE_OK;
}
static int fUnlock( sqlite3_file *f, int level )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  if ( s->lock > level ) { s->lock = level; ev( "unlock i%d %d", ( *s->inode )->id, level ); }
  return SQLITE_OK;
}
static int fCheckReserved( sqlite3_file *f, int *out )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  *out = s->lock >= SQLITE_LOCK_RESERVED || othersAtLeast( s, SQLITE_LOCK_RESERVED );
  return SQLITE_OK;
}
static int fControl( sqlite3_file *, int, void * ) { return SQLITE_NOTFOUND; }
static int fSector( sqlite3_file * ) { return g_sectorSize; }
static int fDevChar( sqlite3_file * ) { return g_devChar; }

static int shmMap( sqlite3_file *f, int region, int sz, int extend, void volatile **out )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  if ( ioPoint( C_SHM, "shmmap i%d r%d", ( *s->inode )->id, region ) != A_OK ) return SQLITE_IOERR_SHMMAP;
  auto &node = ( *s->inode )->shm;
  if ( !node ) node = std::make_shared<ShmNode>();
  if ( !s->shm ) { s->shm = true; if ( node->users++ == 0 ) node->regions.clear(); }
  if ( ( int )node->regions.size() <= region )
  {
    if ( !extend ) { *out = nullptr; return SQLITE_OK; }
    while ( ( int )node->regions.size() <= region )
    {
      node->regions.emplace_back( new char[sz] );
      memset( node->regions.back().get(), 0, sz );
    }
  }
  *out = node->regions[region].get();
  return SQLITE_OK;
}
static int shmLock( sqlite3_file *f, int ofst, int n, int flags )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  uint16_t mask = ( uint16_t )( ( ( 1 << n ) - 1 ) << ofst );
  if ( flags & SQLITE_SHM_UNLOCK )
  {
    s->shmShared &= ~mask; s->shmExcl &= ~mask;
    ev( "shmunlock i%d %x", ( *s->inode )->id, mask );
    return SQLITE_OK;
  }
  if ( ioPoint( C_LOCK, "shmlock i%d %x %s", ( *s->inode )->id, mask, flags & SQLITE_SHM_EXCLUSIVE ? "x" : "s" ) != A_OK ) return SQLITE_BUSY;
  for ( SimFile *o : ( *s->inode )->files )
  {
    if ( o == s ) continue;
    if ( flags & SQLITE_SHM_SHARED ) { if ( o->shmExcl & mask ) { probe( "lock.busy_natural" ); return SQLITE_BUSY; } }
    else if ( ( o->shmExcl | o->shmShared ) & mask ) { probe( "lock.busy_natural" ); return SQLITE_BUSY; }
  }
  if ( flags & SQLITE_SHM_SHARED ) s->shmShared |= mask; else s->shmExcl |= mask;
  return SQLITE_OK;
}
static void shmBarrier( sqlite3_file * ) {}
static void shmDrop( SimFile *s )
{
  if ( !s->shm ) return;
  s->shm = false; s->shmShared = s->shmExcl = 0;
  auto &node = ( *s->inode )->shm;
  if ( node && --node->users == 0 ) node.reset();
}
static int shmUnmap( sqlite3_file *f, int ) { HarnessScope hs; shmDrop( ( SimFile * )f ); return SQLITE_OK; }

static const sqlite3_io_methods g_methods = { 2, fClose, fRead, fWrite, fTruncate, fSync, fSize, fLock, fUnlock, fCheckReserved, fControl, fSector, fDevChar,
                                              shmMap, shmLock, shmBarrier, shmUnmap, nullptr, nullptr
                                            };
static void dropHandle( SimFile *s )
{
  Inode *i = s->inode->get();
  for ( size_t k = 0; k < i->files.size(); ++k ) if ( i->files[k] == s ) { i->files.erase( i->files.begin() + k ); break; }
  s->lock = 0;
  shmDrop( s );
  g_open.erase( s );
}
static int fClose( sqlite3_file *f )
{
  SimFile *s = ( SimFile * )f; HarnessScope hs;
  ioPoint( C_CLOSE, "close i%d", ( *s->inode )->id );
  dropHandle( s );
  if ( ( s->flags & SQLITE_OPEN_DELETEONCLOSE ) && !s->name->empty() ) fsUnlink( *s->name );
  delete s->inode; delete s->name;
  s->inode = nullptr; s->name = nullptr;
  return SQLITE_OK;
}
static int vOpen( sqlite3_vfs *, const char *name, sqlite3_file *f, int flags, int *outFlags )
{
  HarnessScope hs;
  SimFile *s = ( SimFile * )f;
  memset( s, 0, sizeof *s );
  std::string real = name ? fsPath( name ) : "";
  if ( name ) name = real.c_str();
  Action a = ioPoint( C_OPEN, "open %s flags %x", name ? ( fsExists( name ) ? strf( "i%d", fsLookup( name )->id ).c_str() : "new" ) : "temp", flags & 0xfff );
  if ( a != A_OK ) return SQLITE_CANTOPEN;
  InodeP i;
  if ( name )
  {
    i = fsLookup( name );
    if ( i && ( flags & SQLITE_OPEN_EXCLUSIVE ) && ( flags & SQLITE_OPEN_CREATE ) ) return SQLITE_CANTOPEN;
    if ( !i )
    {
      if ( !( flags & SQLITE_OPEN_CREATE ) || !fsParentOk( name ) ) return SQLITE_CANTOPEN;
      i = fsCreate( name );
    }
  }
  else
  {
    i = std::make_shared<Inode>();
    i->id = g_nextInode++;
  }
  s->inode = new InodeP( i );
  s->name = new std::string( name ? name : "" );
  s->owner = g_proc; s->flags = flags;
  s->base.pMethods = &g_methods;
  i->files.push_back( s );
  g_open.insert( s );
  if ( outFlags ) *outFlags = flags;
  return SQLITE_OK;
}
static int vDelete( sqlite3_vfs *, const char *name, int syncDir )
{
  HarnessScope hs;
  std::string real = fsPath( name ); name = real.c_str();
  InodeP i = fsLookup( name );
  if ( ioPoint( C_DELETE, "delete i%d", i ? i->id : 0 ) != A_OK ) return SQLITE_IOERR_DELETE;
  if ( !i ) return SQLITE_IOERR_DELETE_NOENT;
  fsUnlink( name );
  if ( syncDir ) g_dur.erase( name );
  return SQLITE_OK;
}
static int vAccess( sqlite3_vfs *, const char *name, int flags, int *out )
{
  HarnessScope hs;
  std::string real = fsPath( name ); name = real.c_str();
  InodeP i = fsLookup( name );
  ioPoint( C_STAT, "access i%d", i ? i->id : 0 );
  i = fsLookup( name );
  *out = i != nullptr && ( flags != SQLITE_ACCESS_EXISTS || i->data.size() > 0 );
  return SQLITE_OK;
}
static int vFull( sqlite3_vfs *, const char *name, int n, char *out )
{
  HarnessScope hs;
  std::string s = name[0] == '/' ? name : std::string( "/sim/cwd/" ) + name;
  sqlite3_snprintf( n, out, "%s", s.c_str() );
  return ( int )s.size() < n ? SQLITE_OK : SQLITE_CANTOPEN;
}
static Rng g_vfsRng;
static int vRand( sqlite3_vfs *, int n, char *out )
{
  for ( int i = 0; i < n; ++i ) out[i] = ( char )g_vfsRng.next();
  return n;
}
static int vSleep( sqlite3_vfs *, int us ) { g_clock += us * 1000LL; return us; }
static int vTime64( sqlite3_vfs *, sqlite3_int64 *t )
{
  // 2026-01-01T00:00:00Z in julian-day milliseconds plus the simulated clock
  *t = 2461041LL * 86400000LL + 43200000LL + g_clock / 1000000;
  return SQLITE_OK;
}
static int vTime( sqlite3_vfs *v, double *d ) { sqlite3_int64 t; vTime64( v, &t ); *d = t / 86400000.0; return SQLITE_OK; }
static int vErr( sqlite3_vfs *, int, char * ) { return 0; }

static sqlite3_vfs g_vfs;
void vfsInit()
{
  HarnessScope hs;
  g_vfsRng.seed( 42 );
  memset( &g_vfs, 0, sizeof g_vfs );
  g_vfs.iVersion = 2; g_vfs.szOsFile = sizeof( SimFile ); g_vfs.mxPathname = 1024; g_vfs.zName = "simvfs";
  g_vfs.xOpen = vOpen; g_vfs.xDelete = vDelete; g_vfs.xAccess = vAccess; g_vfs.xFullPathname = vFull;
  g_vfs.xRandomness = vRand; g_vfs.xSleep = vSleep; g_vfs.xCurrentTime = vTime; g_vfs.xGetLastError = vErr;
  g_vfs.xCurrentTimeInt64 = vTime64;
  if ( sqlite3_vfs_register( &g_vfs, 1 ) != SQLITE_OK ) herr( "vfs" );
}
void vfsProcDeath( Proc *p )
{
  HarnessScope hs;
  std::vector<SimFile *> v;
  for ( SimFile *s : g_open ) if ( s->owner == p ) v.push_back( s );
  for ( SimFile *s : v ) dropHandle( s );
}
int openHandles( const std::string &prefix )
{
  int n = 0;
  for ( SimFile *s : g_open ) if ( s->owner && s->name && s->name->compare( 0, prefix.size(), prefix ) == 0 ) ++n;
  return n;
}

} // namespace sim
// debugging aid (called from gdb)
namespace sim { void fsDumpHost( const char *sim, const char *host ) { HarnessScope hs; std::string d = fsRead( sim ); FILE *f = fopen( host, "wb" ); if ( f ) { fwrite( d.data(), 1, d.size(), f ); fclose( f ); } } }
