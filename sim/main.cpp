// Driver: runs seeds in forked children, replays recorded choice lists, minimises failing ones.
#include "scen.h"
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <time.h>
#include <errno.h>
#include <execinfo.h>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

#ifdef SIM_ASAN
extern "C" const char *__asan_default_options() { return "detect_leaks=0:exitcode=99:abort_on_error=0:handle_abort=0:handle_segv=0:handle_sigbus=0:handle_sigfpe=0:handle_sigill=0:detect_stack_use_after_return=0:allocator_may_return_null=1:max_allocation_size_mb=4096:print_summary=1:verify_asan_link_order=0:alloc_dealloc_mismatch=0:use_sigaltstack=0"; }
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=98"; }
#endif

namespace sim {
std::string g_sample;
bool g_nontrivial = false;
uint64_t g_caseHash = 0;
bool g_thorough = false;
}
using namespace sim;

static double nowS() { struct timespec t; syscall( SYS_clock_gettime, CLOCK_MONOTONIC, &t ); return t.tv_sec + t.tv_nsec * 1e-9; }

struct RunOut
{
  std::string status;      // ok | viol | herr | crash | hang
  std::string cls, text;
  uint64_t hash = 0, events = 0, caseHash = 0;
  int64_t clock = 0;
  bool nontrivial = false;
  std::vector<uint32_t> choices;
  std::map<std::string, uint64_t> n;
  std::vector<uint64_t> states, inter;
  std::string sample;
  std::string trace;
  std::string err;         // stderr of the child
};

static int g_outFd = -1;
static void wr( int fd, const std::string &s )
{
  size_t o = 0;
  while ( o < s.size() )
  {
    long n = syscall( SYS_write, fd, s.data() + o, s.size() - o );
    if ( n <= 0 ) { if ( n < 0 && errno == EINTR ) continue; return; }
    o += n;
  }
}
static std::string esc( const std::string &s )
{
  std::string r;
  for ( unsigned char c : s ) { if ( c == '\n' ) r += "\\n"; else if ( c == '\\' ) r += "\\\\"; else if ( c < 32 ) r += strf( "\\x%02x", c ); else r += ( char )c; }
  return r;
}
static std::string unesc( const std::string &s )
{
  std::string r;
  for ( size_t i = 0; i < s.size(); ++i )
  {
    if ( s[i] != '\\' || i + 1 >= s.size() ) { r += s[i]; continue; }
    ++i;
    if ( s[i] == 'n' ) r += '\n';
    else if ( s[i] == 'x' && i + 2 < s.size() ) { r += ( char )strtol( s.substr( i + 1, 2 ).c_str(), nullptr, 16 ); i += 2; }
    else r += s[i];
  }
  return r;
}

static volatile sig_atomic_t g_inCrash = 0;
static void emitCommon()
{
  std::string o;
  o += strf( "hash %llx\nevents %llu\nclock %lld\ncase %llx\nnontrivial %d\n", ( unsigned long long )g_hash, ( unsigned long long )g_events, ( long long )g_clock, ( unsigned long long )g_caseHash, g_nontrivial );
  o += "choices";
  for ( uint32_t c : ch.rec ) { o += ' '; o += std::to_string( c ); }
  o += "\n";
  wr( g_outFd, o );
}
static void crashHandler( int sig )
{
  if ( g_inCrash ) _exit( 97 );
  g_inCrash = 1;
  int inHarness = g_harness > 0;
  g_harness = 100;
  char buf[128];
  int n = snprintf( buf, sizeof buf, "status crash\ncls %s\ntext signal %d (%s) in %s code\n", sig == SIGXCPU ? "hang" : "crash", sig, strsignal( sig ), inHarness ? "harness" : "library" );
  if ( inHarness && sig != SIGXCPU ) n = snprintf( buf, sizeof buf, "status herr\ncls harness-crash\ntext signal %d in harness code\n", sig );
  syscall( SYS_write, g_outFd, buf, n );
  // choice list: plain data, written without allocation
  syscall( SYS_write, g_outFd, "choices", 7 );
  for ( uint32_t c : ch.rec ) { n = snprintf( buf, sizeof buf, " %u", c ); syscall( SYS_write, g_outFd, buf, n ); }
  syscall( SYS_write, g_outFd, "\n", 1 );
  size_t tl = g_traceLines.size();
  for ( size_t i = 0; i < tl; ++i ) if ( i + 12 > tl || g_traceLines[i].find( "] note" ) != std::string::npos || g_traceLines[i].find( "] call" ) != std::string::npos ) { syscall( SYS_write, 2, g_traceLines[i].data(), g_traceLines[i].size() ); syscall( SYS_write, 2, "\n", 1 ); }
  void *bt[40];
  int k = backtrace( bt, 40 );
  backtrace_symbols_fd( bt, k, 2 );
  _exit( 96 );
}

static void childRun( const std::string &prop, uint64_t seed, const std::vector<uint32_t> *rep, bool trace )
{
  struct rlimit rl;
#ifdef SIM_ASAN
  rl.rlim_cur = 60; rl.rlim_max = 70;
#else
  rl.rlim_cur = 20; rl.rlim_max = 25;
  struct rlimit as; as.rlim_cur = as.rlim_max = 3ULL << 30; setrlimit( RLIMIT_AS, &as );
#endif
  setrlimit( RLIMIT_CPU, &rl );
  rl.rlim_cur = rl.rlim_max = 0; setrlimit( RLIMIT_CORE, &rl );
  static char alt[65536];
  stack_t ss; memset( &ss, 0, sizeof ss ); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack( &ss, nullptr );
  for ( int s : { SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGXCPU } )
  {
    struct sigaction sa; memset( &sa, 0, sizeof sa ); sa.sa_handler = crashHandler; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction( s, &sa, nullptr );
  }
  ch.rec.reserve( 4096 );
  if ( rep ) { ch.replaying = true; ch.rep = *rep; }
  else ch.rng.seed( seed );
  g_trace = trace;
  std::string status = "ok", cls, text;
  try { runScenario( prop ); }
  catch ( ViolationEx &v ) { status = "viol"; cls = v.v.cls; text = v.v.text; }
  catch ( HarnessError &e ) { status = "herr"; cls = "harness"; text = e.text; }
  catch ( std::exception &e ) { status = "herr"; cls = "harness"; text = std::string( "exception in harness: " ) + e.what(); }
  g_harness = 1;
  wr( g_outFd, "status " + status + "\ncls " + cls + "\ntext " + esc( text ) + "\n" );
  emitCommon();
  std::string o;
  for ( auto &k : g_stats.n ) o += strf( "n %s %llu\n", k.first.c_str(), ( unsigned long long )k.second );
  int m = 0;
  for ( auto s : g_stats.states ) { if ( ++m > 400 ) break; o += strf( "st %llx\n", ( unsigned long long )s ); }
  m = 0;
  for ( auto s : g_stats.interleavings ) { if ( ++m > 400 ) break; o += strf( "il %llx\n", ( unsigned long long )s ); }
  o += "sample " + esc( g_sample ) + "\n";
  if ( trace ) for ( auto &l : g_traceLines ) o += "trace " + esc( l ) + "\n";
  wr( g_outFd, o );
  _exit( 0 );
}

static RunOut runChild( const std::string &prop, uint64_t seed, const std::vector<uint32_t> *rep, bool trace )
{
  int p[2], e[2];
  if ( syscall( SYS_pipe2, p, 0 ) || syscall( SYS_pipe2, e, 0 ) ) { perror( "pipe" ); exit( 2 ); }
  pid_t pid = fork();
  if ( pid == 0 )
  {
    syscall( SYS_close, p[0] ); syscall( SYS_close, e[0] );
    g_outFd = fcntl( p[1], F_DUPFD, 200 );
    syscall( SYS_close, p[1] );
    dup2( e[1], 2 );
    syscall( SYS_close, e[1] );
    int dn = ( int )syscall( SYS_openat, AT_FDCWD, "/dev/null", O_RDWR, 0 );
    dup2( dn, 1 ); dup2( dn, 0 );
    childRun( prop, seed, rep, trace );
    _exit( 0 );
  }
  syscall( SYS_close, p[1] ); syscall( SYS_close, e[1] );
  std::string data, errs;
  bool po = true, eo = true;
  double t0 = nowS();
  bool killedWall = false;
  while ( po || eo )
  {
    struct pollfd pf[2]; int n = 0; int ip = -1, ie = -1;
    if ( po ) { ip = n; pf[n].fd = p[0]; pf[n].events = POLLIN; ++n; }
    if ( eo ) { ie = n; pf[n].fd = e[0]; pf[n].events = POLLIN; ++n; }
    int r = poll( pf, n, 2000 );
    if ( r == 0 && nowS() - t0 > 180 ) { kill( pid, SIGKILL ); killedWall = true; }
    if ( r <= 0 ) continue;
    char buf[65536];
    if ( ip >= 0 && pf[ip].revents ) { long k = syscall( SYS_read, p[0], buf, sizeof buf ); if ( k <= 0 ) po = false; else data.append( buf, k ); }
    if ( ie >= 0 && pf[ie].revents ) { long k = syscall( SYS_read, e[0], buf, sizeof buf ); if ( k <= 0 ) eo = false; else if ( errs.size() < 200000 ) errs.append( buf, k ); }
  }
  syscall( SYS_close, p[0] ); syscall( SYS_close, e[0] );
  int st = 0;
  while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
  RunOut o;
  o.err = errs;
  size_t i = 0;
  while ( i < data.size() )
  {
    size_t j = data.find( '\n', i ); if ( j == std::string::npos ) j = data.size();
    std::string l = data.substr( i, j - i ); i = j + 1;
    size_t sp = l.find( ' ' );
    std::string k = l.substr( 0, sp ), v = sp == std::string::npos ? "" : l.substr( sp + 1 );
    if ( k == "status" ) o.status = v;
    else if ( k == "cls" ) o.cls = v;
    else if ( k == "text" ) o.text = unesc( v );
    else if ( k == "hash" ) o.hash = strtoull( v.c_str(), nullptr, 16 );
    else if ( k == "events" ) o.events = strtoull( v.c_str(), nullptr, 10 );
    else if ( k == "clock" ) o.clock = strtoll( v.c_str(), nullptr, 10 );
    else if ( k == "case" ) o.caseHash = strtoull( v.c_str(), nullptr, 16 );
    else if ( k == "nontrivial" ) o.nontrivial = v == "1";
    else if ( k == "choices" ) { char *q = ( char * )v.c_str(); while ( *q ) { o.choices.push_back( ( uint32_t )strtoul( q, &q, 10 ) ); while ( *q == ' ' ) ++q; } }
    else if ( k == "n" ) { size_t s2 = v.rfind( ' ' ); o.n[v.substr( 0, s2 )] = strtoull( v.c_str() + s2 + 1, nullptr, 10 ); }
    else if ( k == "st" ) o.states.push_back( strtoull( v.c_str(), nullptr, 16 ) );
    else if ( k == "il" ) o.inter.push_back( strtoull( v.c_str(), nullptr, 16 ) );
    else if ( k == "sample" ) o.sample = unesc( v );
    else if ( k == "trace" ) o.trace += unesc( v ) + "\n";
  }
  if ( o.status == "crash" )
  {
    o.status = "viol";
    size_t a = errs.find( "Assertion" );
    if ( a != std::string::npos ) { size_t q = errs.find( '\n', a ); o.text += ": " + errs.substr( a, std::min<size_t>( q - a, 300 ) ); }
    size_t w = errs.find( "terminate called" );
    if ( w != std::string::npos ) o.text += ": " + errs.substr( w, 160 );
  }
  else if ( o.status.empty() )
  {
    if ( WIFEXITED( st ) && ( WEXITSTATUS( st ) == 99 || WEXITSTATUS( st ) == 98 || errs.find( "AddressSanitizer" ) != std::string::npos || errs.find( "runtime error" ) != std::string::npos ) )
    {
      o.status = "viol"; o.cls = "memory";
      size_t a = errs.find( "ERROR: AddressSanitizer" ); if ( a == std::string::npos ) a = errs.find( "runtime error" );
      o.text = a == std::string::npos ? "sanitizer error" : errs.substr( a, 200 );
      size_t nl = o.text.find( '\n' ); if ( nl != std::string::npos ) o.text.resize( nl );
      size_t f = 0; int found = 0;
      while ( ( f = errs.find( "/geodiff/src/", f ) ) != std::string::npos && found < 2 ) { size_t q = errs.find_first_of( "\n)", f ); o.text += " " + errs.substr( f + 13, q - f - 13 ); f = q; ++found; }
    }
    else if ( killedWall || ( WIFSIGNALED( st ) && ( WTERMSIG( st ) == SIGXCPU || WTERMSIG( st ) == SIGKILL ) ) ) { o.status = "viol"; o.cls = "hang"; o.text = "call did not terminate"; }
    else { o.status = "herr"; o.cls = "harness"; o.text = strf( "child ended without result, status %x: ", st ) + errs.substr( 0, 500 ); }
  }
  return o;
}

#ifdef SIM_ASAN
extern "C" void __asan_set_death_callback( void ( * )( void ) );
static void asanDeath()
{
  // keep the choice list so that the failure can be replayed and minimised
  g_harness = 100;
  char buf[64]; int n;
  syscall( SYS_write, g_outFd, "choices", 7 );
  for ( uint32_t c : ch.rec ) { n = snprintf( buf, sizeof buf, " %u", c ); syscall( SYS_write, g_outFd, buf, n ); }
  syscall( SYS_write, g_outFd, "\n", 1 );
}
#endif

static uint64_t seedOf( uint64_t base, const std::string &prop, uint64_t i )
{
  return mix64( mix64( base ) ^ fnv( prop.data(), prop.size() ) ^ mix64( i + 12345 ) );
}

static std::string choicesStr( const std::vector<uint32_t> &c ) { std::string s; for ( size_t i = 0; i < c.size(); ++i ) { if ( i ) s += ' '; s += std::to_string( c[i] ); } return s; }

static void jstr( std::string &o, const std::string &s )
{
  o += '"';
  for ( unsigned char c : s ) { if ( c == '"' || c == '\\' ) { o += '\\'; o += ( char )c; } else if ( c < 32 || c > 126 ) o += strf( "\\u%04x", c ); else o += ( char )c; }
  o += '"';
}

static std::vector<uint32_t> readChoices( const std::string &path, std::string &prop, std::string &cls )
{
  FILE *f = popen( ( "cat '" + path + "'" ).c_str(), "r" );   // outside the simulated file system
  std::string s; char buf[65536]; size_t n;
  while ( ( n = fread( buf, 1, sizeof buf, f ) ) > 0 ) s.append( buf, n );
  pclose( f );
  std::vector<uint32_t> c;
  size_t i = 0;
  while ( i < s.size() )
  {
    size_t j = s.find( '\n', i ); if ( j == std::string::npos ) j = s.size();
    std::string l = s.substr( i, j - i ); i = j + 1;
    if ( l.compare( 0, 5, "prop " ) == 0 ) prop = l.substr( 5 );
    else if ( l.compare( 0, 6, "class " ) == 0 ) cls = l.substr( 6 );
    else if ( l.compare( 0, 8, "choices " ) == 0 ) { char *q = ( char * )l.c_str() + 8; while ( *q ) { c.push_back( ( uint32_t )strtoul( q, &q, 10 ) ); while ( *q == ' ' ) ++q; } }
  }
  return c;
}

int main( int argc, char **argv )
{
  setvbuf( stdout, nullptr, _IOLBF, 0 );
  g_harness = 1;
  char exe[4096]; ssize_t el = readlink( "/proc/self/exe", exe, sizeof exe - 1 );
  if ( el > 0 ) { exe[el] = 0; setenv( "LOCPATH", ( std::string( exe, strrchr( exe, '/' ) ) + "/loc" ).c_str(), 1 ); chooseHostLocale( 1 ); chooseHostLocale( 2 ); chooseHostLocale( 0 ); }
  std::string mode = argc > 1 ? argv[1] : "";
  std::map<std::string, std::string> a;
  for ( int i = 2; i + 1 < argc; i += 2 ) a[argv[i] + 2] = argv[i + 1];
  g_thorough = a["thorough"] == "1";
  void *warm[4]; backtrace( warm, 4 );
  std::string prop = a["prop"];
  if ( a.count( "file" ) ) { std::string c; readChoices( a["file"], prop, c ); }
  simSystemInit( prop != "C22" );      // C22 watches the library's own logger
#ifdef SIM_ASAN
  __asan_set_death_callback( asanDeath );
#endif
  if ( mode == "run" )
  {
    uint64_t base = strtoull( a["seed"].c_str(), nullptr, 10 );
    uint64_t start = strtoull( a["start"].c_str(), nullptr, 10 ), step = std::max( 1ULL, strtoull( a["step"].c_str(), nullptr, 10 ) );
    uint64_t count = a.count( "count" ) ? strtoull( a["count"].c_str(), nullptr, 10 ) : ~0ULL;
    double budget = a.count( "budget" ) ? atof( a["budget"].c_str() ) : 1e9;
    int stopAfter = a.count( "stop" ) ? atoi( a["stop"].c_str() ) : 1;
    bool verbose = a["verbose"] == "1";
    bool trace = a["trace"] == "1";
    bool hashes = a["hashes"] == "1";
    double t0 = nowS();
    RunOut tot; uint64_t runs = 0, nontriv = 0, events = 0; int64_t clk = 0;
    std::set<uint64_t> cases, states, inter, hset;
    std::vector<std::string> samples;
    int viols = 0;
    for ( uint64_t k = 0; k < count && nowS() - t0 < budget; ++k )
    {
      uint64_t i = start + k * step;
      RunOut o = runChild( prop, seedOf( base, prop, i ), nullptr, trace );
      ++runs; events += o.events; clk += o.clock;
      for ( auto &x : o.n ) tot.n[x.first] += x.second;
      for ( auto x : o.states ) states.insert( x );
      for ( auto x : o.inter ) inter.insert( x );
      hset.insert( o.hash );
      if ( o.nontrivial && cases.insert( o.caseHash ? o.caseHash : o.hash ).second ) ++nontriv;
      if ( hashes ) printf( "{\"t\":\"h\",\"i\":%llu,\"h\":\"%llx\",\"s\":\"%s\"}\n", ( unsigned long long )i, ( unsigned long long )o.hash, o.status.c_str() );
      if ( o.nontrivial && samples.size() < 6 && !o.sample.empty() && ( runs % 7 == 1 || samples.size() < 2 ) ) samples.push_back( strf( "seed-index %llu: ", ( unsigned long long )i ) + o.sample );
      if ( verbose ) printf( "# %llu %s %s events=%llu choices=%zu %s\n", ( unsigned long long )i, o.status.c_str(), o.cls.c_str(), ( unsigned long long )o.events, o.choices.size(), o.sample.c_str() );
      if ( trace ) printf( "%s", o.trace.c_str() );
      if ( o.status != "ok" )
      {
        std::string j = "{\"t\":\"v\",\"status\":"; jstr( j, o.status ); j += strf( ",\"i\":%llu,\"cls\":", ( unsigned long long )i ); jstr( j, o.cls ); j += ",\"text\":"; jstr( j, o.text );
        j += strf( ",\"hash\":\"%llx\"", ( unsigned long long )o.hash );
        j += ",\"sample\":"; jstr( j, o.sample );
        j += ",\"err\":"; jstr( j, o.err.substr( 0, 3000 ) );
        j += ",\"choices\":"; jstr( j, choicesStr( o.choices ) ); j += "}";
        printf( "%s\n", j.c_str() );
        ++viols;
        if ( viols >= stopAfter ) break;
      }
    }
    std::string j = strf( "{\"t\":\"sum\",\"runs\":%llu,\"nontrivial\":%llu,\"events\":%llu,\"clock_ns\":%lld,\"wall\":%.3f,\"n\":{", ( unsigned long long )runs, ( unsigned long long )nontriv, ( unsigned long long )events, ( long long )clk, nowS() - t0 );
    bool f = true;
    for ( auto &x : tot.n ) { if ( !f ) j += ','; f = false; jstr( j, x.first ); j += strf( ":%llu", ( unsigned long long )x.second ); }
    j += "},\"cases\":["; f = true; for ( auto x : cases ) { j += strf( "%s\"%llx\"", f ? "" : ",", ( unsigned long long )x ); f = false; }
    j += "],\"states\":["; f = true; for ( auto x : states ) { j += strf( "%s\"%llx\"", f ? "" : ",", ( unsigned long long )x ); f = false; }
    j += "],\"inter\":["; f = true; for ( auto x : inter ) { j += strf( "%s\"%llx\"", f ? "" : ",", ( unsigned long long )x ); f = false; }
    j += strf( "],\"traces\":%zu,\"samples\":[", hset.size() ); f = true; for ( auto &x : samples ) { if ( !f ) j += ','; f = false; jstr( j, x ); }
    j += "]}";
    printf( "%s\n", j.c_str() );
    return viols ? 1 : 0;
  }
  if ( mode == "replay" )
  {
    std::string cls;
    std::vector<uint32_t> c = readChoices( a["file"], prop, cls );
    RunOut o = runChild( prop, 0, &c, true );
    if ( a["quiet"] != "1" ) printf( "%s", o.trace.c_str() );
    printf( "result %s class=%s hash=%llx\n%s\n", o.status.c_str(), o.cls.c_str(), ( unsigned long long )o.hash, o.text.c_str() );
    if ( a["quiet"] != "1" && o.status != "ok" ) printf( "%s\n", o.err.substr( 0, 6000 ).c_str() );
    return o.status == "ok" ? 0 : o.status == "viol" ? 1 : 2;
  }
  if ( mode == "minimise" )
  {
    std::string cls;
    std::vector<uint32_t> c = readChoices( a["file"], prop, cls );
    double t0 = nowS(), budget = a.count( "budget" ) ? atof( a["budget"].c_str() ) : 20;
    auto fails = [&]( const std::vector<uint32_t> &x, RunOut &o ) { o = runChild( prop, 0, &x, false ); return o.status == "viol" && o.cls == cls; };
    RunOut best;
    if ( !fails( c, best ) ) { printf( "result not reproduced (%s %s %s)\n", best.status.c_str(), best.cls.c_str(), best.text.c_str() ); return 2; }
    if ( best.choices.size() && best.choices.size() <= c.size() ) c = best.choices;
    int tries = 0;
    bool progress = true;
    while ( progress && nowS() - t0 < budget )
    {
      progress = false;
      while ( !c.empty() && c.back() == 0 ) c.pop_back();
      for ( size_t len = std::max<size_t>( 1, c.size() / 2 ); len >= 1 && nowS() - t0 < budget; len /= 2 )
      {
        for ( size_t i = 0; i < c.size() && nowS() - t0 < budget; )
        {
          std::vector<uint32_t> x( c.begin(), c.begin() + i );
          if ( i + len < c.size() ) x.insert( x.end(), c.begin() + i + len, c.end() );
          RunOut o; ++tries;
          if ( fails( x, o ) ) { c = x; best = o; progress = true; continue; }
          // zeroing instead of deleting
          bool any = false;
          x = c; for ( size_t k = i; k < std::min( c.size(), i + len ); ++k ) if ( x[k] ) { x[k] = 0; any = true; }
          ++tries;
          if ( any && fails( x, o ) ) { c = x; best = o; progress = true; }
          i += len;
        }
        if ( len == 1 ) break;
      }
      for ( size_t i = 0; i < c.size() && nowS() - t0 < budget; ++i )
        while ( c[i] > 1 && nowS() - t0 < budget )
        {
          std::vector<uint32_t> x = c; x[i] = c[i] / 2; RunOut o; ++tries;
          if ( !fails( x, o ) ) { x[i] = c[i] - 1; if ( !fails( x, o ) ) break; }
          c = x; best = o; progress = true;
        }
    }
    while ( !c.empty() && c.back() == 0 ) c.pop_back();
    RunOut o;
    if ( !fails( c, o ) ) { printf( "result not reproduced after minimisation\n" ); return 2; }
    printf( "tries %d\nhash %llx\nclass %s\ntext %s\nsample %s\nchoices %s\n", tries, ( unsigned long long )o.hash, o.cls.c_str(), esc( o.text ).c_str(), esc( o.sample ).c_str(), choicesStr( c ).c_str() );
    return 0;
  }
  fprintf( stderr, "usage: sim run|replay|minimise --prop P --seed S ...\n" );
  return 2;
}
