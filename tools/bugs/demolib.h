// Helpers for the demonstrations: plain SQLite access and comparison, independent of geodiff.
#pragma once
#include "geodiff.h"
#include <sqlite3.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <sys/wait.h>
static std::string W;    // scratch directory
static std::string P( const std::string &f ) { return W + "/" + f; }
static void sql( const std::string &db, const std::string &s )
{
  sqlite3 *h; char *e = nullptr;
  if ( sqlite3_open( db.c_str(), &h ) || sqlite3_exec( h, s.c_str(), 0, 0, &e ) ) { printf( "demo setup: %s: %s\n", s.c_str(), e ? e : "?" ); _exit( 3 ); }
  sqlite3_close( h );
}
static std::string q( const std::string &db, const std::string &s )
{
  sqlite3 *h; sqlite3_stmt *st; std::string out;
  if ( sqlite3_open( db.c_str(), &h ) || sqlite3_prepare_v2( h, s.c_str(), -1, &st, 0 ) ) { return std::string( "error " ) + sqlite3_errmsg( h ); }
  while ( sqlite3_step( st ) == SQLITE_ROW )
  {
    for ( int i = 0; i < sqlite3_column_count( st ); ++i ) { const char *t = ( const char * )sqlite3_column_text( st, i ); out += std::string( i ? "|" : "" ) + ( t ? t : "NULL" ); }
    out += "\n";
  }
  sqlite3_finalize( st ); sqlite3_close( h );
  return out;
}
static void cp( const std::string &a, const std::string &b ) { std::ifstream i( a, std::ios::binary ); std::ofstream o( b, std::ios::binary ); if ( i.peek() != EOF ) o << i.rdbuf(); }
static std::string rd( const std::string &a ) { std::ifstream i( a, std::ios::binary ); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void wr( const std::string &a, const std::string &d ) { std::ofstream o( a, std::ios::binary ); o << d; }
static bool ex( const std::string &a ) { return access( a.c_str(), F_OK ) == 0; }
#define CHECK( c ) do { if ( !( c ) ) { printf( "line %d: not true: %s\n", __LINE__, #c ); return 1; } } while ( 0 )
static int demo();
int main( int, char **argv ) { W = argv[1]; GEODIFF_init(); int r = demo(); printf( r ? "BROKEN\n" : "fine\n" ); return r; }
