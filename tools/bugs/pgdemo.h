// Demonstrations with PostgreSQL: the server is pgsim.cpp in this directory.
#include "pgsim.h"
namespace sim { int g_demoOps = 0, g_demoFailAt = -1; Action g_demoAction = A_OK; }
#define PG "postgres"
#define INFO "simpg"
static void pg( const std::string &s ) { static sim::PgClient c; sim::PgAnswer a = c.tryExec( s ); if ( !a.ok ) { printf( "demo setup: %s: %s\n", s.c_str(), a.err.c_str() ); _exit( 3 ); } }
static std::string pq( const std::string &s )
{
  static sim::PgClient c; sim::PgAnswer a = c.tryExec( s ); std::string o;
  if ( !a.ok ) return "error " + a.err;
  for ( auto &r : a.rows ) { for ( size_t i = 0; i < r.size(); ++i ) o += ( i ? "|" : "" ) + ( r[i].first ? std::string( "NULL" ) : r[i].second ); o += "\n"; }
  return o;
}
static int pgCreate( const char *b, const char *m, const std::string &f ) { return GEODIFF_createChangesetEx( PG, INFO, b, m, f.c_str() ); }
static int pgApply( const char *s, const std::string &f ) { return GEODIFF_applyChangesetEx( PG, INFO, s, f.c_str() ); }
static void failAt( int n, sim::Action a ) { sim::g_demoOps = 0; sim::g_demoFailAt = n; sim::g_demoAction = a; }
