#include "core.h"
#include <ucontext.h>
#include <sys/mman.h>
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <exception>
#include <typeinfo>
#include <cxxabi.h>
#include <execinfo.h>
#include <unistd.h>
#if defined(SIM_ASAN)

extern "C" void __sanitizer_start_switch_fiber( void **fake, const void *bottom, size_t size );
extern "C" void __sanitizer_finish_switch_fiber( void *fake, const void **bottom, size_t *size );
#endif

namespace __cxxabiv1 { struct __cxa_eh_globals; extern "C" __cxa_eh_globals *__cxa_get_globals() noexcept; }

#include <locale.h>
namespace sim {

Choices ch;
uint64_t g_hash = 1469598103934665603ULL, g_events = 0;
bool g_trace = false;
std::vector<std::string> g_traceLines;
int64_t g_clock = 0;
Stats g_stats;
Proc *g_proc = nullptr;
HarnessLevel g_harness;
void *HarnessLevel::hostLocale = nullptr;
void HarnessLevel::setLocale( int n ) { uselocale( n > 0 ? LC_GLOBAL_LOCALE : ( locale_t ) hostLocale ); }
bool chooseHostLocale( int which )
{
  static locale_t loaded[3];
  HarnessLevel::hostLocale = nullptr;
  if ( which <= 0 ) return true;
  if ( !loaded[which] ) loaded[which] = newlocale( which == 1 ? LC_NUMERIC_MASK : LC_NUMERIC_MASK | LC_CTYPE_MASK, which == 1 ? "de_DE.UTF-8" : "tr_TR.UTF-8", ( locale_t ) 0 );
  HarnessLevel::hostLocale = ( void * ) loaded[which];
  return loaded[which] != ( locale_t ) 0;
}
uint64_t g_opCap = 3000000;
std::vector<std::function<void( Proc * )>> g_onProcDeath;
std::function<void()> g_onPowerLoss;

const char *faultName[] = { "none", "kill", "power_loss", "eio_read", "eio_write", "eio_sync", "eio_open", "eio_truncate", "eio_delete",
                            "disk_full", "busy_lock", "nomem_sqlite", "nomem_new", "stream_eio_read", "stream_eio_write", "stream_disk_full", "stream_short_write",
                            "stream_eintr", "stream_open_fail", "stream_close_fail", "stream_unlink_fail", "stream_short_read",
                            "pg_lost_before", "pg_lost_after", "pg_error", "pg_server_crash", "pg_null_result"
                          };
const char *className[] = { "read", "write", "sync", "open", "truncate", "delete", "lock", "stat", "close", "shm",
                            "pg", "sread", "swrite", "sopen", "sclose", "sdel", "sqmalloc", "new"
                          };

uint64_t mix64( uint64_t x )
{
  x += 0x9e3779b97f4a7c15ULL;
  x = ( x ^ ( x >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
  x = ( x ^ ( x >> 27 ) ) * 0x94d049bb133111ebULL;
  return x ^ ( x >> 31 );
}
void Rng::seed( uint64_t x ) { s[0] = mix64( x ); s[1] = mix64( s[0] ); }
uint64_t Rng::next()
{
  uint64_t a = s[0], b = s[1], r = a + b;
  b ^= a;
  s[0] = ( ( a << 24 ) | ( a >> 40 ) ) ^ b ^ ( b << 16 );
  s[1] = ( b << 37 ) | ( b >> 27 );
  return mix64( r );
}

uint32_t Choices::raw( uint32_t v, uint32_t n )
{
  HarnessScope hs;
  if ( replaying )
  {
    size_t i = rec.size();
    v = i < rep.size() ? rep[i] : 0;
    if ( n && v >= n ) v = n - 1;
  }
  rec.push_back( v );
  if ( rec.size() > 400000 ) herr( "too many choices" );
  hashBytes( &v, sizeof v );
  return v;
}
uint32_t Choices::choose( uint32_t n )
{
  if ( n <= 1 ) return 0;
  return raw( replaying ? 0 : ( uint32_t )rng.below( n ), n );
}
bool Choices::chance( int pct )
{
  if ( pct <= 0 ) return false;
  return raw( replaying ? 0 : ( ( int )rng.below( 100 ) < pct ), 2 );
}
uint32_t Choices::weighted( std::initializer_list<int> w )
{
  int tot = 0; for ( int x : w ) tot += x;
  uint32_t v = 0;
  if ( !replaying )
  {
    int r = ( int )rng.below( tot );
    for ( int x : w ) { if ( r < x ) break; r -= x; ++v; }
  }
  return raw( v, ( uint32_t )w.size() );
}

void hashBytes( const void *p, size_t n ) { g_hash = fnv( p, n, g_hash ); }
uint64_t fnv( const void *p, size_t n, uint64_t h )
{
  const unsigned char *c = ( const unsigned char * )p;
  for ( size_t i = 0; i < n; ++i ) { h ^= c[i]; h *= 1099511628211ULL; }
  return h;
}

std::string strf( const char *fmt, ... )
{
  va_list ap; va_start( ap, fmt );
  char buf[2048];
  va_list ap2; va_copy( ap2, ap );
  int n = vsnprintf( buf, sizeof buf, fmt, ap );
  va_end( ap );
  std::string r;
  if ( n < ( int )sizeof buf ) r.assign( buf, n > 0 ? n : 0 );
  else { r.resize( n + 1 ); vsnprintf( &r[0], n + 1, fmt, ap2 ); r.resize( n ); }
  va_end( ap2 );
  return r;
}
std::string hexdump( const std::string &s, size_t max )
{
  std::string r;
  for ( size_t i = 0; i < s.size() && i < max; ++i ) r += strf( "%02x", ( unsigned char )s[i] );
  if ( s.size() > max ) r += strf( "...(%zu)", s.size() );
  return r;
}

static void vev( const char *fmt, va_list ap )
{
  char buf[1024];
  int n = vsnprintf( buf, sizeof buf, fmt, ap );
  if ( n >= ( int )sizeof buf ) n = sizeof buf - 1;
  hashBytes( buf, n );
  ++g_events;
  if ( g_trace ) g_traceLines.push_back( strf( "[%llu t=%lldus p%d] ", ( unsigned long long )g_events, ( long long )( g_clock / 1000 ), g_proc ? g_proc->pid : 0 ) + std::string( buf, n ) );
}
void ev( const char *fmt, ... )
{
  HarnessScope hs;
  va_list ap; va_start( ap, fmt ); vev( fmt, ap ); va_end( ap );
}

void violate( const std::string &cls, const char *fmt, ... )
{
  HarnessScope hs;
  char buf[6000];
  va_list ap; va_start( ap, fmt ); vsnprintf( buf, sizeof buf, fmt, ap ); va_end( ap );
  throw ViolationEx{ { cls, buf } };
}
void herr( const char *fmt, ... )
{
  HarnessScope hs;
  char buf[4000];
  va_list ap; va_start( ap, fmt ); vsnprintf( buf, sizeof buf, fmt, ap ); va_end( ap );
  throw HarnessError{ buf };
}

bool faultApplies( FaultKind k, OpClass c )
{
  switch ( k )
  {
    case F_KILL: case F_POWER: return c != C_SQMALLOC && c != C_NEW && c != C_STAT;
    case F_EIO_READ: return c == C_READ;
    case F_EIO_WRITE: return c == C_WRITE;
    case F_EIO_SYNC: return c == C_SYNC;
    case F_EIO_OPEN: return c == C_OPEN;
    case F_EIO_TRUNC: return c == C_TRUNC;
    case F_EIO_DELETE: return c == C_DELETE;
    case F_ENOSPC: return c == C_WRITE;
    case F_BUSY: return c == C_LOCK;
    case F_NOMEM_SQ: return c == C_SQMALLOC;
    case F_NOMEM_NEW: return c == C_NEW;
    case F_LC_EIO_READ: case F_LC_SHORTREAD: return c == C_LCREAD;
    case F_LC_EIO_WRITE: case F_LC_ENOSPC: case F_LC_SHORT: return c == C_LCWRITE;
    case F_LC_EINTR: return c == C_LCWRITE || c == C_LCREAD;
    case F_LC_OPEN: return c == C_LCOPEN;
    case F_LC_CLOSE: return c == C_LCCLOSE;
    case F_LC_DEL: return c == C_LCDEL;
    case F_PG_LOST_BEFORE: case F_PG_LOST_AFTER: case F_PG_ERROR: case F_PG_CRASH: case F_PG_NULL: return c == C_PG;
    default: return false;
  }
}
static Action actionOf( FaultKind k )
{
  switch ( k )
  {
    case F_EIO_READ: case F_EIO_WRITE: case F_EIO_SYNC: case F_EIO_OPEN: case F_EIO_TRUNC: case F_EIO_DELETE:
    case F_LC_EIO_READ: case F_LC_EIO_WRITE: case F_LC_OPEN: case F_LC_CLOSE: case F_LC_DEL: return A_EIO;
    case F_ENOSPC: case F_LC_ENOSPC: return A_ENOSPC;
    case F_BUSY: return A_BUSY;
    case F_LC_SHORT: case F_LC_SHORTREAD: return A_SHORT;
    case F_LC_EINTR: return A_EINTR;
    case F_PG_LOST_BEFORE: return A_PG_BEFORE;
    case F_PG_LOST_AFTER: return A_PG_AFTER;
    case F_PG_ERROR: return A_PG_ERR;
    case F_PG_CRASH: return A_PG_CRASH;
    case F_PG_NULL: return A_PG_NULL;
    default: return A_FAIL;
  }
}

// ------------------------------------------------------------------ coroutines
struct Coro
{
  ucontext_t ctx;
  char *stack = nullptr;
  size_t stackSize = 0;
  std::function<int()> fn;
  Proc *proc = nullptr;
  CallResult res;
  bool finished = false;
  bool hasViolation = false;
  Violation viol;
  bool hasHerr = false;
  std::string herrText;
  std::string ehGlobals;
  int harness = 0;
#ifdef SIM_ASAN
  void *fake = nullptr;
#endif
};
static ucontext_t g_mainCtx;
static Coro *g_cur = nullptr;
#ifdef SIM_ASAN
static void *g_mainFake = nullptr;
static const void *g_mainBottom = nullptr;
static size_t g_mainSize = 0;
#endif
static std::string g_mainEh;
static const size_t EHSZ = 16;
static int g_preemptLeft = 0;      // forced switches left
static int64_t g_countdown = -1;   // io points until the next switch
static int g_span = 100;
static bool g_concurrent = false;
static uint64_t g_switchHash = 0;
static std::vector<char *> g_stackPool;
static const size_t STACK = 1 << 20;

bool inCoroutine() { return g_cur != nullptr; }

static void saveEh( std::string &s ) { s.assign( ( const char * )abi::__cxa_get_globals(), EHSZ ); }
static void loadEh( const std::string &s )
{
  if ( s.size() == EHSZ ) memcpy( ( void * )abi::__cxa_get_globals(), s.data(), EHSZ );
  else memset( ( void * )abi::__cxa_get_globals(), 0, EHSZ );
}

static void toMain( bool dying )
{
  Coro *c = g_cur;
  {
    int h = g_harness; g_harness = 1; // string ops below
    saveEh( c->ehGlobals );
    loadEh( g_mainEh );
    c->harness = h;
  }
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber( dying ? nullptr : &c->fake, g_mainBottom, g_mainSize );
#endif
  swapcontext( &c->ctx, &g_mainCtx );
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber( c->fake, &g_mainBottom, &g_mainSize );
#endif
  ( void )dying;
}

static void coroMain()
{
  Coro *c = g_cur;
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber( nullptr, &g_mainBottom, &g_mainSize );
#endif
  try
  {
    g_harness = 0;
    c->res.rc = c->fn();
    g_harness = 1;
    c->res.done = true;
  }
  catch ( ViolationEx &v ) { g_harness = 1; c->hasViolation = true; c->viol = v.v; }
  catch ( HarnessError &e ) { g_harness = 1; c->hasHerr = true; c->herrText = e.text; }
  catch ( std::exception &e ) { g_harness = 1; c->res.exc = true; c->res.excText = std::string( typeid( e ).name() ); }
  catch ( ... ) { g_harness = 1; c->res.exc = true; c->res.excText = "unknown"; }
  c->finished = true;
  toMain( true );
  abort();
}

static Coro *makeCoro( Proc *p, const std::function<int()> &fn )
{
  Coro *c = new Coro;
  c->proc = p; c->fn = fn;
  if ( g_stackPool.empty() )
  {
    void *m = mmap( nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 );
    if ( m == MAP_FAILED ) herr( "mmap stack" );
    c->stack = ( char * )m;
  }
  else { c->stack = g_stackPool.back(); g_stackPool.pop_back(); }
  c->stackSize = STACK;
  getcontext( &c->ctx );
  c->ctx.uc_stack.ss_sp = c->stack;
  c->ctx.uc_stack.ss_size = c->stackSize;
  c->ctx.uc_link = nullptr;
  makecontext( &c->ctx, coroMain, 0 );
  return c;
}

static void resume( Coro *c )
{
  int savedH = g_harness;
  g_cur = c; g_proc = c->proc;
  saveEh( g_mainEh );
  loadEh( c->ehGlobals );
  g_harness = c->harness;
#ifdef SIM_ASAN
  __sanitizer_start_switch_fiber( &g_mainFake, c->stack, c->stackSize );
#endif
  swapcontext( &g_mainCtx, &c->ctx );
#ifdef SIM_ASAN
  __sanitizer_finish_switch_fiber( g_mainFake, nullptr, nullptr );
#endif
  g_cur = nullptr; g_proc = nullptr;
  g_harness = savedH;
}

static int g_nextPid = 1;
Proc *newProc( const std::string &name )
{
  HarnessScope hs;
  Proc *p = new Proc;
  p->pid = g_nextPid++;
  p->name = name;
  return p;
}
void resetOpCounters( Proc *p ) { memset( p->ops, 0, sizeof p->ops ); p->opsTotal = 0; }

static std::vector<Coro *> *g_all = nullptr;

static void drawCountdown()
{
  g_countdown = -1;
  if ( g_preemptLeft <= 0 ) return;
  --g_preemptLeft;
  uint32_t d = ch.choose( g_span + 1 );
  if ( d == 0 ) { g_preemptLeft = 0; return; }     // 0: no more forced switches
  g_countdown = d;
}

static void killProc( Proc *p, bool power )
{
  p->alive = false; p->powerLost = power;
  for ( auto &f : g_onProcDeath ) f( p );
}

std::vector<CallResult> runConcurrent( const std::vector<std::pair<Proc *, std::function<int()>>> &fns, int preemptBudget, int span )
{
  HarnessScope hs;
  if ( g_cur ) herr( "nested run" );
  std::vector<Coro *> all;
  for ( auto &f : fns )
  {
    if ( !f.first->alive ) herr( "running on a dead process" );
    for ( auto &fa : f.first->faults ) { fa.seen = 0; fa.fired = false; }
    resetOpCounters( f.first );
    all.push_back( makeCoro( f.first, f.second ) );
  }
  g_all = &all;
  g_concurrent = all.size() > 1;
  g_preemptLeft = preemptBudget; g_span = span;
  g_countdown = -1;
  g_switchHash = 0;
  if ( g_concurrent ) drawCountdown();
  size_t cur = g_concurrent ? ch.choose( all.size() ) : 0;
  bool powerDown = false;
  while ( true )
  {
    Coro *c = all[cur];
    resume( c );
    if ( c->finished || c->res.killed )
    {
      if ( c->res.killed )
      {
        ev( "process %d %s", c->proc->pid, c->res.power ? "lost power" : "killed" );
        killProc( c->proc, c->res.power );
        if ( c->res.power )
        {
          powerDown = true;
          for ( auto o : all )
            if ( o != c && !o->finished && !o->res.killed ) { o->res.killed = o->res.power = true; killProc( o->proc, true ); }
        }
        c->stack = nullptr; // abandoned: never reused (objects on it are never destroyed)
      }
      else if ( c->stack ) { g_stackPool.push_back( c->stack ); c->stack = nullptr; }
    }
    if ( c->hasViolation || c->hasHerr ) break;
    std::vector<size_t> ready;
    for ( size_t i = 0; i < all.size(); ++i ) if ( !all[i]->finished && !all[i]->res.killed ) ready.push_back( i );
    if ( ready.empty() || powerDown ) break;
    bool curReady = !c->finished && !c->res.killed;
    if ( curReady && ready.size() > 1 )
    {
      // forced switch to somebody else
      std::vector<size_t> others; for ( size_t i : ready ) if ( i != cur ) others.push_back( i );
      cur = others[ch.choose( others.size() )];
      drawCountdown();
      g_switchHash = mix64( g_switchHash * 31 + cur * 1000003 + c->proc->opsTotal );
      probe( "sched.preemptions" );
    }
    else if ( !curReady )
    {
      cur = ready[ch.choose( ready.size() )];
      if ( ready.size() == 1 ) g_countdown = -1;
    }
    ev( "switch to p%d", all[cur]->proc->pid );
  }
  g_all = nullptr;
  std::vector<CallResult> out;
  bool viol = false; Violation v; std::string he; bool hasH = false;
  for ( auto c : all )
  {
    for ( auto &fa : c->proc->faults ) if ( fa.fired ) { c->res.faultFired = true; probe( std::string( "fault." ) + faultName[fa.kind] ); }
    out.push_back( c->res );
    if ( c->hasViolation ) { viol = true; v = c->viol; }
    if ( c->hasHerr ) { hasH = true; he = c->herrText; }
    delete c;
  }
  if ( g_concurrent ) g_stats.interleavings.insert( g_switchHash );
  g_concurrent = false;
  if ( hasH ) throw HarnessError{ he };
  if ( viol ) throw ViolationEx{ v };
  if ( powerDown && g_onPowerLoss ) g_onPowerLoss();
  return out;
}

CallResult runCall( Proc *p, const std::function<int()> &fn )
{
  return runConcurrent( { { p, fn } }, 0, 1 )[0];
}

void powerCut()
{
  HarnessScope hs;
  ev( "power cut" );
  if ( g_onPowerLoss ) g_onPowerLoss();
}

static void dieHere( bool power )
{
  g_cur->res.killed = true; g_cur->res.power = power;
  toMain( true );
  abort();
}

void yieldNow()
{
  if ( !g_cur || !g_concurrent ) return;
  toMain( false );
}

static uint64_t g_totalOps = 0;
Action ioPoint( OpClass c, const char *fmt, ... )
{
  if ( !g_cur ) return A_OK;         // harness / oracle access
  ++g_harness;
  Proc *p = g_proc;
  ++p->ops[c]; ++p->opsTotal;
  g_clock += 1000;
  {
    char buf[512];
    va_list ap; va_start( ap, fmt ); int n = vsnprintf( buf, sizeof buf, fmt, ap ); va_end( ap );
    if ( n >= ( int )sizeof buf ) n = sizeof buf - 1;
    hashBytes( buf, n ); hashBytes( &p->pid, sizeof p->pid );
    ++g_events;
    if ( g_trace ) g_traceLines.push_back( strf( "[%llu t=%lldus p%d %s#%llu] ", ( unsigned long long )g_events, ( long long )( g_clock / 1000 ), p->pid, className[c], ( unsigned long long )p->ops[c] ) + std::string( buf, n ) );
  }
  if ( ++g_totalOps > g_opCap )
  {
    // cannot throw through SQLite's C frames: stop the process here
    g_cur->hasViolation = true;
    g_cur->viol = Violation{ "hang", strf( "more than %llu I/O operations in one run", ( unsigned long long )g_opCap ) };
    toMain( true );
    abort();
  }
  if ( g_concurrent && g_countdown > 0 && --g_countdown == 0 )
  {
    int live = 0; for ( auto o : *g_all ) if ( !o->finished && !o->res.killed ) ++live;
    if ( live > 1 ) toMain( false );
    else g_countdown = -1;
  }
  Action a = A_OK;
  for ( auto &f : p->faults )
  {
    if ( !faultApplies( f.kind, c ) ) continue;
    ++f.seen;
    bool hit = f.seen == f.at || ( f.sticky && f.fired );
    if ( !hit ) continue;
    if ( !f.fired && g_trace ) g_traceLines.push_back( strf( "    *** fault %s at %s#%llu", faultName[f.kind], className[c], ( unsigned long long )f.seen ) );
    f.fired = true;
    if ( f.kind == F_KILL ) dieHere( false );
    if ( f.kind == F_POWER ) dieHere( true );
    a = actionOf( f.kind );
  }
  --g_harness;
  return a;
}

bool allocFails( OpClass c )
{
  if ( !g_cur || !g_proc ) return false;
  Proc *p = g_proc;
  ++p->ops[c];
  for ( auto &f : p->faults )
  {
    if ( !faultApplies( f.kind, c ) ) continue;
    ++f.seen;
    if ( f.seen == f.at || ( f.sticky && f.fired ) )
    {
      if ( !f.fired )
      {
        HarnessScope hs; ev( "fault %s #%llu", faultName[f.kind], ( unsigned long long )f.seen );
        if ( g_trace )
        {
          void *b[24]; int n = backtrace( b, 24 ); char **sy = backtrace_symbols( b, n );
          for ( int k = 2; k < n && sy; ++k ) g_traceLines.push_back( std::string( "      at " ) + sy[k] );
          free( sy );
        }
      }
      f.fired = true;
      return true;
    }
  }
  return false;
}

} // namespace sim
