// Simulated disk: in-memory files with an unsynced/durable distinction, and the SQLite VFS on it.
#pragma once
#include "core.h"
#include <sqlite3.h>

namespace sim {

struct ShmNode;
struct SimFile;
struct Inode
{
  int id = 0;
  std::string data;                 // what running processes see
  std::string durable;              // what survives a power cut
  struct W { uint64_t off; std::string d; bool trunc; uint64_t size; };
  std::vector<W> pending;           // unsynced operations since the last sync
  std::vector<SimFile *> files;     // open sqlite handles
  std::shared_ptr<ShmNode> shm;
};
typedef std::shared_ptr<Inode> InodeP;

struct FsImage
{
  std::map<std::string, InodeP> cur, dur;
  std::set<std::string> dirs;
  int nextId = 1;
};

extern std::map<std::string, InodeP> g_cur, g_dur;
extern std::set<std::string> g_dirs;
extern int g_sectorSize;
extern int g_devChar;
extern bool g_fsTrackDurable;

bool isSim( const char *path );
extern std::string g_alias;                    // other spelling of /sim/ in directories the code under test is given, if not empty
std::string fsPath( const std::string &p );    // the file a path means
FsImage fsSnapshot();
void fsRestore( const FsImage &img );
void fsPowerLoss();
extern int g_powerEpoch;          // number of power cuts so far
InodeP fsLookup( const std::string &p );
InodeP fsCreate( const std::string &p );
bool fsUnlink( const std::string &p );
bool fsRename( const std::string &a, const std::string &b );
bool fsParentOk( const std::string &p );
void inWrite( Inode *i, uint64_t off, const void *d, size_t n );
void inTrunc( Inode *i, uint64_t size );
void inSync( Inode *i );

// harness access (no events, no faults)
bool fsExists( const std::string &p );
std::string fsRead( const std::string &p );
void fsWrite( const std::string &p, const std::string &data );   // also durable
void fsCopy( const std::string &from, const std::string &to );
void fsCopyDb( const std::string &from, const std::string &to );  // with -journal / -wal
void fsRemove( const std::string &p );
void fsRemoveDb( const std::string &p );
std::vector<std::string> fsList( const std::string &prefix );
void fsSyncAll();

void vfsInit();     // registers the VFS as default (after sqlite3_initialize)
void simSystemInit( bool ownLogger = true );   // allocator config, GEODIFF_init, VFS
void shimProcDeath( Proc *p );
void vfsProcDeath( Proc *p );
int openHandles( const std::string &prefix );

} // namespace sim
