// What pgsim.cpp (a small SQL engine behind libpq's functions) needs, for demonstrations that run it alone.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
namespace sim {
struct Val
{
  int t = 0; int64_t i = 0; double d = 0; std::string s;
  static Val Int( int64_t v ) { Val x; x.t = 1; x.i = v; return x; }
  static Val Dbl( double v ) { Val x; x.t = 2; x.d = v; return x; }
  static Val Text( const std::string &v ) { Val x; x.t = 3; x.s = v; return x; }
  static Val Blob( const std::string &v ) { Val x; x.t = 4; x.s = v; return x; }
  static Val Null() { Val x; x.t = 5; return x; }
  bool operator<( const Val &o ) const { return t != o.t ? t < o.t : i != o.i ? i < o.i : d != o.d ? d < o.d : s < o.s; }
};
typedef std::vector<Val> Row;
struct TableData
{
  std::vector<std::string> cols; std::vector<int> pk; std::map<Row, Row> rows;
  bool hasPk() const { for ( int p : pk ) if ( p ) return true; return false; }
  Row keyOf( const Row &r ) const { Row k; for ( size_t i = 0; i < pk.size(); ++i ) if ( pk[i] ) k.push_back( r[i] ); return k; }
};
struct DbState { bool ok = false; std::string err; std::map<std::string, TableData> tables; std::map<std::string, std::string> schema; std::string derived, journalMode; uint64_t hash() const { return 0; } };
struct HarnessScope { HarnessScope() {} ~HarnessScope() {} };
struct Choices { uint32_t choose( uint32_t ) { return 0; } };
static Choices ch;
struct Proc {};
static Proc *g_proc = nullptr;
static std::vector<std::function<void( Proc * )>> g_onProcDeath;
enum OpClass { C_PG };
enum Action { A_OK, A_EIO, A_ENOSPC, A_BUSY, A_SHORT, A_EINTR, A_FAIL, A_PG_BEFORE, A_PG_AFTER, A_PG_ERR, A_PG_CRASH, A_PG_NULL };
extern int g_demoOps, g_demoFailAt; extern Action g_demoAction;   // the statement (counted from 1) that meets a fault
inline Action ioPoint( OpClass, const char *, ... ) { return ++g_demoOps == g_demoFailAt ? g_demoAction : A_OK; }
inline void probe( const char * ) {}
inline void yieldNow() {}
inline bool inCoroutine() { return false; }
inline void herr( const char *f, ... ) { va_list a; va_start( a, f ); vprintf( f, a ); va_end( a ); printf( "\n" ); exit( 3 ); }
inline std::string strf( const char *f, ... ) { char b[4000]; va_list a; va_start( a, f ); vsnprintf( b, sizeof b, f, a ); va_end( a ); return b; }
inline uint64_t mix64( uint64_t x ) { x ^= x >> 33; x *= 0xff51afd7ed558ccdULL; x ^= x >> 33; return x; }
}
