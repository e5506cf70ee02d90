// The C side for the Python wrapper: every GEODIFF_* function reports to one dispatcher, which decides what it does.
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef void ( *LogCb )( int, const char * );
typedef int ( *Dispatch )( const char *name, int n, const char **args );
static Dispatch dispatch; static LogCb logCb; static const char *version = "";
static int levels = 4, inits, levelSets, cbSets; static int probe[2];
void stub_setup( Dispatch d, const char *v ) { dispatch = d; version = v; logCb = 0; levels = 4; inits = levelSets = cbSets = 0; if ( !probe[0] && pipe( probe ) ) abort(); }
int stub_level( void ) { return levels; }
int stub_inits( void ) { return inits; }
int stub_hasCb( void ) { return logCb != 0; }
void stub_log( int level, const char *msg ) { if ( logCb ) logCb( level, msg ); }
static const char *bad = "\xff<not a string>";
static const char *safe( const char *p )      // a wrapper that passes too few arguments must not crash the harness
{
  if ( !p ) return p;
  char c;
  for ( const char *q = p; q - p < 4096; ++q )
  {
    if ( ( q == p || ( ( unsigned long )q & 4095 ) == 0 ) && ( write( probe[1], q, 1 ) != 1 || read( probe[0], &c, 1 ) != 1 ) ) return bad;
    if ( !*q ) return p;
  }
  return bad;
}
#define CALL( name, n, ... ) { const char *a[] = { __VA_ARGS__ }; for ( int i = 0; i < n; ++i ) a[i] = safe( a[i] ); return dispatch( name, n, a ); }
typedef const char *S;
void GEODIFF_init( void ) { ++inits; }
const char *GEODIFF_version( void ) { return version; }
void GEODIFF_setLoggerCallback( LogCb c ) { logCb = c; ++cbSets; }
void GEODIFF_setMaximumLoggerLevel( int l ) { levels = l; ++levelSets; }
int GEODIFF_createChangeset( S a0, S b, S c ) CALL( "createChangeset", 3, a0, b, c )
int GEODIFF_createChangesetEx( S a0, S b, S c, S d, S e ) CALL( "createChangesetEx", 5, a0, b, c, d, e )
int GEODIFF_invertChangeset( S a0, S b ) CALL( "invertChangeset", 2, a0, b )
int GEODIFF_createRebasedChangeset( S a0, S b, S c, S d, S e ) CALL( "createRebasedChangeset", 5, a0, b, c, d, e )
int GEODIFF_createRebasedChangesetEx( S a0, S b, S c, S d, S e, S f, S g ) CALL( "createRebasedChangesetEx", 7, a0, b, c, d, e, f, g )
int GEODIFF_rebase( S a0, S b, S c, S d ) CALL( "rebase", 4, a0, b, c, d )
int GEODIFF_rebaseEx( S a0, S b, S c, S d, S e, S f ) CALL( "rebaseEx", 6, a0, b, c, d, e, f )
int GEODIFF_applyChangeset( S a0, S b ) CALL( "applyChangeset", 2, a0, b )
int GEODIFF_applyChangesetEx( S a0, S b, S c, S d ) CALL( "applyChangesetEx", 4, a0, b, c, d )
int GEODIFF_listChanges( S a0, S b ) CALL( "listChanges", 2, a0, b )
int GEODIFF_listChangesSummary( S a0, S b ) CALL( "listChangesSummary", 2, a0, b )
int GEODIFF_hasChanges( S a0 ) CALL( "hasChanges", 1, a0 )
int GEODIFF_changesCount( S a0 ) CALL( "changesCount", 1, a0 )
int GEODIFF_makeCopy( S a0, S b, S c, S d, S e, S f ) CALL( "makeCopy", 6, a0, b, c, d, e, f )
int GEODIFF_dumpData( S a0, S b, S c, S d ) CALL( "dumpData", 4, a0, b, c, d )
