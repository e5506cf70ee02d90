// Core of the deterministic simulator: choices, event log, simulated processes (coroutines),
// simulated clock, fault plans.
#pragma once
#include <cstdint>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <memory>
#include <deque>

namespace sim {

// ---------------------------------------------------------------- randomness
struct Rng
{
  uint64_t s[2];
  void seed( uint64_t x );
  uint64_t next();
  uint64_t below( uint64_t n ) { return n ? next() % n : 0; }
};
uint64_t mix64( uint64_t x );

// Every decision of a run goes through here; the recorded sequence is the replay file.
struct Choices
{
  Rng rng;
  std::vector<uint32_t> rec;
  std::vector<uint32_t> rep;
  bool replaying = false;
  uint32_t raw( uint32_t v, uint32_t n );   // v: drawn value
  uint32_t choose( uint32_t n );            // uniform 0..n-1
  bool chance( int pct );                   // true with pct %, 0 = false recorded
  uint32_t weighted( std::initializer_list<int> w );
  int range( int lo, int hi ) { return lo + ( int )choose( hi - lo + 1 ); }
};
extern Choices ch;

// ---------------------------------------------------------------- event log
extern uint64_t g_hash;
extern uint64_t g_events;
extern bool g_trace;
extern std::vector<std::string> g_traceLines;
extern int64_t g_clock;                     // simulated nanoseconds
void ev( const char *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
void hashBytes( const void *p, size_t n );
uint64_t fnv( const void *p, size_t n, uint64_t h = 1469598103934665603ULL );

// ---------------------------------------------------------------- statistics of one run
struct Stats
{
  std::map<std::string, uint64_t> n;        // named counters (faults fired, probes, calls)
  std::set<uint64_t> states;                // distinct state hashes reached
  std::set<uint64_t> interleavings;         // hashes of context switch sequences
};
extern Stats g_stats;
inline void probe( const std::string &k, uint64_t v = 1 ) { g_stats.n[k] += v; }

// ---------------------------------------------------------------- violation
struct Violation { std::string cls, text; };
struct ViolationEx { Violation v; };
[[noreturn]] void violate( const std::string &cls, const char *fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
struct HarnessError { std::string text; };
[[noreturn]] void herr( const char *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );

// ---------------------------------------------------------------- faults
enum OpClass { C_READ, C_WRITE, C_SYNC, C_OPEN, C_TRUNC, C_DELETE, C_LOCK, C_STAT, C_CLOSE, C_SHM,
               C_PG, C_LCREAD, C_LCWRITE, C_LCOPEN, C_LCCLOSE, C_LCDEL, C_SQMALLOC, C_NEW, C_N };
enum FaultKind { F_NONE, F_KILL, F_POWER, F_EIO_READ, F_EIO_WRITE, F_EIO_SYNC, F_EIO_OPEN, F_EIO_TRUNC, F_EIO_DELETE,
                 F_ENOSPC, F_BUSY, F_NOMEM_SQ, F_NOMEM_NEW, F_LC_EIO_READ, F_LC_EIO_WRITE, F_LC_ENOSPC, F_LC_SHORT,
                 F_LC_EINTR, F_LC_OPEN, F_LC_CLOSE, F_LC_DEL, F_LC_SHORTREAD,
                 F_PG_LOST_BEFORE, F_PG_LOST_AFTER, F_PG_ERROR, F_PG_CRASH, F_PG_NULL, F_N };
extern const char *faultName[];
extern const char *className[];
struct Fault
{
  FaultKind kind = F_NONE;
  uint64_t at = 0;        // 1-based index among the operations the kind applies to
  bool sticky = false;    // persists after the first hit
  uint32_t param = 0;
  uint64_t seen = 0;
  bool fired = false;
};
bool faultApplies( FaultKind k, OpClass c );
enum Action { A_OK, A_EIO, A_ENOSPC, A_BUSY, A_SHORT, A_EINTR, A_FAIL, A_PG_BEFORE, A_PG_AFTER, A_PG_ERR, A_PG_CRASH, A_PG_NULL };

// ---------------------------------------------------------------- processes
struct Proc
{
  int pid = 0;
  std::string name;
  uint32_t randState = 1;
  uint64_t rdState = 0;         // std::random_device
  bool alive = true;
  bool powerLost = false;
  std::vector<Fault> faults;
  uint64_t ops[C_N] = {0};
  uint64_t opsTotal = 0;
  bool faultFired() const { for ( auto &f : faults ) if ( f.fired ) return true; return false; }
};

struct CallResult
{
  bool done = false;      // the function returned
  bool killed = false;    // process killed or power lost
  bool power = false;
  bool exc = false;       // a C++ exception escaped the API
  std::string excText;
  int rc = 0;
  bool faultFired = false;
};

Proc *newProc( const std::string &name );
extern Proc *g_proc;        // process whose code is running now (nullptr: harness)
// >0: inside simulator code, no faults / no counting.  The host application's locale is in force
// only at level 0, that is, while the code under test runs.
struct HarnessLevel
{
  int v = 1;
  operator int() const { return v; }
  HarnessLevel &operator=( int n ) { if ( ( v > 0 ) != ( n > 0 ) ) crossed( n ); v = n; return *this; }
  void operator++() { if ( v == 0 ) crossed( 1 ); ++v; }
  void operator--() { --v; if ( v == 0 ) crossed( 0 ); }
  static void crossed( int n ) { if ( hostLocale ) setLocale( n ); }
  static void setLocale( int n );
  static void *hostLocale;   // a locale_t; null: the C locale
};
extern HarnessLevel g_harness;
bool chooseHostLocale( int which );  // 0: C, 1: decimal comma, 2: decimal comma and no i/I pair; false: not installed here

struct HarnessScope
{
  HarnessScope() { ++g_harness; }
  ~HarnessScope() { --g_harness; }
};

// Runs fn as process p to completion (alone). Faults are p->faults.
CallResult runCall( Proc *p, const std::function<int()> &fn );
// Runs several processes concurrently, the scheduler decides at every io point.
// preemptBudget: number of forced context switches to draw.
std::vector<CallResult> runConcurrent( const std::vector<std::pair<Proc *, std::function<int()>>> &fns, int preemptBudget, int span );
// Invoked by every simulated operation. May switch, may kill.
Action ioPoint( OpClass c, const char *fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) );
bool allocFails( OpClass c );          // for malloc hooks
void yieldNow();                       // voluntary scheduling point for harness-written processes
bool inCoroutine();
void resetOpCounters( Proc *p );
extern uint64_t g_opCap;

// hooks called when a process dies
extern std::vector<std::function<void( Proc * )>> g_onProcDeath;
extern std::function<void()> g_onPowerLoss;
void powerCut();            // cuts power now from the harness (all processes must be dead)

std::string strf( const char *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );
std::string hexdump( const std::string &s, size_t max = 40 );

} // namespace sim
