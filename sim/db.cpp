#include "db.h"
#include "gpkg.h"
#include <cstring>
#include <cmath>
#include <algorithm>

namespace sim {
const char *gpkgMetaSql();

bool Val::operator==( const Val &o ) const
{
  if ( t != o.t ) return false;
  switch ( t )
  {
    case 1: return i == o.i;
    case 2: return memcmp( &d, &o.d, 8 ) == 0;
    case 3: case 4: return s == o.s;
    default: return true;
  }
}
bool Val::operator<( const Val &o ) const
{
  if ( t != o.t ) return t < o.t;
  switch ( t )
  {
    case 1: return i < o.i;
    case 2: return d < o.d;
    case 3: case 4: return s < o.s;
    default: return false;
  }
}
std::string Val::str() const
{
  switch ( t )
  {
    case 0: return "-";
    case 1: return std::to_string( i );
    case 2: return strf( "%.17g", d ) + "f";
    case 3: { std::string r = "'"; for ( unsigned char c : s.substr( 0, 40 ) ) if ( c >= 32 && c != 127 ) r += ( char )c; else r += strf( "\\x%02x", c ); r += "'"; if ( s.size() > 40 ) r += strf( "(%zu)", s.size() ); return r; }
    case 4: return "x" + hexdump( s, 12 );
    default: return "NULL";
  }
}
std::string rowStr( const Row &r ) { std::string o = "("; for ( size_t i = 0; i < r.size() && i < 40; ++i ) { if ( i ) o += ","; o += r[i].str(); } return o + ")"; }

std::string qi( const std::string &s ) { std::string r = "\""; for ( char c : s ) { if ( c == '"' ) r += '"'; r += c; } return r + "\""; }
std::string qs( const std::string &s ) { std::string r = "'"; for ( char c : s ) { if ( c == '\'' ) r += '\''; r += c; } return r + "'"; }

Db::Db( const std::string &path, bool create )
{
  HarnessScope hs;
  epoch = g_powerEpoch;
  int rc = sqlite3_open_v2( path.c_str(), &h, SQLITE_OPEN_READWRITE | ( create ? SQLITE_OPEN_CREATE : 0 ), nullptr );
  if ( rc != SQLITE_OK ) { sqlite3_close( h ); h = nullptr; herr( "harness cannot open %s: %d", path.c_str(), rc ); }
  sqlite3_gpkg_auto_init( h, nullptr, nullptr );
}
void Db::close() { HarnessScope hs; if ( h && epoch == g_powerEpoch ) sqlite3_close( h ); h = nullptr; }
int Db::tryExec( const std::string &sql ) { HarnessScope hs; if ( epoch != g_powerEpoch ) return SQLITE_MISUSE; return sqlite3_exec( h, sql.c_str(), nullptr, nullptr, nullptr ); }
void Db::exec( const std::string &sql )
{
  HarnessScope hs;
  int rc = sqlite3_exec( h, sql.c_str(), nullptr, nullptr, nullptr );
  if ( rc != SQLITE_OK ) herr( "sql failed (%d %s): %s", rc, sqlite3_errmsg( h ), sql.c_str() );
}
static void bindRow( sqlite3_stmt *st, const Row &b )
{
  for ( size_t i = 0; i < b.size(); ++i )
  {
    const Val &v = b[i];
    int k = ( int )i + 1;
    if ( v.t == 1 ) sqlite3_bind_int64( st, k, v.i );
    else if ( v.t == 2 ) sqlite3_bind_double( st, k, v.d );
    else if ( v.t == 3 ) sqlite3_bind_text( st, k, v.s.data(), v.s.size(), SQLITE_TRANSIENT );
    else if ( v.t == 4 ) sqlite3_bind_blob( st, k, v.s.data() ? v.s.data() : "", v.s.size(), SQLITE_TRANSIENT );
    else sqlite3_bind_null( st, k );
  }
}
int Db::run( const std::string &sql, const Row &b )
{
  HarnessScope hs;
  sqlite3_stmt *st = nullptr;
  if ( sqlite3_prepare_v2( h, sql.c_str(), -1, &st, nullptr ) != SQLITE_OK ) herr( "prepare failed (%s): %s", sqlite3_errmsg( h ), sql.c_str() );
  bindRow( st, b );
  int rc = sqlite3_step( st );
  sqlite3_finalize( st );
  return rc;
}
Val colVal( sqlite3_stmt *st, int i )
{
  switch ( sqlite3_column_type( st, i ) )
  {
    case SQLITE_INTEGER: return Val::Int( sqlite3_column_int64( st, i ) );
    case SQLITE_FLOAT: return Val::Dbl( sqlite3_column_double( st, i ) );
    case SQLITE_TEXT: { const char *p = ( const char * )sqlite3_column_text( st, i ); int n = sqlite3_column_bytes( st, i ); return Val::Text( std::string( p ? p : "", n ) ); }
    case SQLITE_BLOB: { const char *p = ( const char * )sqlite3_column_blob( st, i ); int n = sqlite3_column_bytes( st, i ); return Val::Blob( std::string( p ? p : "", n ) ); }
    default: return Val::Null();
  }
}
std::vector<Row> Db::query( const std::string &sql, const Row &b )
{
  HarnessScope hs;
  sqlite3_stmt *st = nullptr;
  if ( sqlite3_prepare_v2( h, sql.c_str(), -1, &st, nullptr ) != SQLITE_OK ) herr( "prepare failed (%s): %s", sqlite3_errmsg( h ), sql.c_str() );
  bindRow( st, b );
  std::vector<Row> out;
  int rc;
  while ( ( rc = sqlite3_step( st ) ) == SQLITE_ROW )
  {
    Row r;
    for ( int i = 0; i < sqlite3_column_count( st ); ++i ) r.push_back( colVal( st, i ) );
    out.push_back( r );
  }
  sqlite3_finalize( st );
  if ( rc != SQLITE_DONE ) herr( "query failed %d (%s): %s", rc, sqlite3_errmsg( h ), sql.c_str() );
  return out;
}

int Db::tryQuery( const std::string &sql, std::vector<Row> &out )
{
  HarnessScope hs;
  if ( epoch != g_powerEpoch ) return SQLITE_MISUSE;
  sqlite3_stmt *st = nullptr;
  int rc = sqlite3_prepare_v2( h, sql.c_str(), -1, &st, nullptr );
  if ( rc != SQLITE_OK ) return rc;
  while ( ( rc = sqlite3_step( st ) ) == SQLITE_ROW )
  {
    Row r;
    for ( int i = 0; i < sqlite3_column_count( st ); ++i ) r.push_back( colVal( st, i ) );
    out.push_back( r );
  }
  sqlite3_finalize( st );
  return rc;
}

// ------------------------------------------------------------------ reading back
static bool starts( const std::string &s, const char *p ) { return s.compare( 0, strlen( p ), p ) == 0; }

DbState readDb( const std::string &path )
{
  HarnessScope hs;
  DbState st;
  if ( !fsExists( path ) ) { st.err = "file missing"; return st; }
  static int ctr = 0;
  std::string tmp = strf( "/sim/o/read%d.db", ctr++ % 4 );
  fsRemoveDb( tmp );
  bool saved = g_fsTrackDurable; g_fsTrackDurable = false;
  fsCopyDb( path, tmp );
  struct Restore { bool s; std::string t; ~Restore() { g_fsTrackDurable = s; fsRemoveDb( t ); } } rst{ saved, tmp };
  sqlite3 *h = nullptr;
  int rc = sqlite3_open_v2( tmp.c_str(), &h, SQLITE_OPEN_READWRITE, nullptr );
  if ( rc != SQLITE_OK ) { sqlite3_close( h ); st.err = strf( "open failed %d", rc ); return st; }
  Db db; db.h = h; db.epoch = g_powerEpoch;
  sqlite3_gpkg_auto_init( h, nullptr, nullptr );
  try
  {
    auto ic = db.query( "PRAGMA integrity_check" );
    if ( ic.size() != 1 || ic[0][0].s != "ok" ) { st.err = "integrity_check: " + ( ic.empty() ? "" : ic[0][0].s ); return st; }
    st.journalMode = db.query( "PRAGMA journal_mode" )[0][0].s;
    for ( auto &r : db.query( "SELECT type, name, sql FROM sqlite_master" ) )
      st.schema[r[0].s + " " + r[1].s] = r[2].s;
    std::vector<std::string> rtrees; bool ogr = false;
    for ( auto &r : db.query( "SELECT name, sql FROM sqlite_master WHERE type='table' ORDER BY name" ) )
    {
      std::string name = r[0].s;
      if ( starts( r[1].s, "CREATE VIRTUAL" ) ) { if ( starts( name, "rtree_" ) ) rtrees.push_back( name ); continue; }
      if ( name == "gpkg_ogr_contents" ) { ogr = true; continue; }
      if ( starts( name, "rtree_" ) || starts( name, "sqlite_" ) ) continue;
      TableData td;
      bool wr = false;
      for ( auto &c : db.query( "PRAGMA table_info(" + qi( name ) + ")" ) ) { td.cols.push_back( c[1].s ); td.pk.push_back( ( int )c[5].i ); td.nn.push_back( ( int )c[3].i ); }
      if ( !td.hasPk() ) wr = true;
      for ( auto &row : db.query( std::string( "SELECT " ) + ( wr ? "rowid, " : "" ) + "* FROM " + qi( name ) ) )
      {
        if ( wr ) { Row rr( row.begin() + 1, row.end() ); td.rows[Row{ row[0] }] = rr; }
        else td.rows[td.keyOf( row )] = row;
      }
      st.tables[name] = td;
    }
    if ( ogr )
      for ( auto &r : db.query( "SELECT table_name, feature_count FROM gpkg_ogr_contents" ) )
      {
        auto t = st.tables.find( r[0].s );
        if ( t != st.tables.end() && r[1].t == 1 && ( int64_t )t->second.rows.size() != r[1].i )
          st.derived = strf( "feature count of %s is %lld but there are %zu rows", r[0].s.c_str(), ( long long )r[1].i, t->second.rows.size() );
      }
    for ( auto &rt : rtrees )
    {
      // rtree_<table>_<column>
      for ( auto &g : db.query( "SELECT table_name, column_name FROM gpkg_geometry_columns" ) )
      {
        if ( rt != "rtree_" + g[0].s + "_" + g[1].s ) continue;
        auto &td = st.tables[g[0].s];
        size_t gc = 0; while ( gc < td.cols.size() && td.cols[gc] != g[1].s ) ++gc;
        std::map<int64_t, std::vector<double>> want;
        for ( auto &row : td.rows )
        {
          double b[4];
          if ( gc < row.second.size() && row.second[gc].t == 4 && geomBounds( row.second[gc].s, b[0], b[1], b[2], b[3] ) )
            want[row.first[0].i] = { b[0], b[1], b[2], b[3] };
        }
        auto got = db.query( "SELECT id,minx,maxx,miny,maxy FROM " + qi( rt ) );
        if ( got.size() != want.size() ) st.derived = strf( "spatial index %s has %zu entries for %zu geometries", rt.c_str(), got.size(), want.size() );
        for ( auto &r : got )
        {
          auto w = want.find( r[0].i );
          if ( w == want.end() ) { st.derived = strf( "spatial index %s has entry for missing feature %lld", rt.c_str(), ( long long )r[0].i ); break; }
          for ( int k = 0; k < 4; ++k )
            if ( std::fabs( r[k + 1].d - w->second[k] ) > 1e-3 * ( 1 + std::fabs( w->second[k] ) ) )
              st.derived = strf( "spatial index %s has wrong bounds for feature %lld", rt.c_str(), ( long long )r[0].i );
        }
      }
    }
    st.ok = true;
  }
  catch ( HarnessError &e ) { st.err = e.text; st.ok = false; }
  return st;
}

uint64_t DbState::hash() const
{
  uint64_t h = 1469598103934665603ULL;
  auto add = [&]( const Val &v ) { h = fnv( &v.t, sizeof v.t, h ); h = fnv( &v.i, 8, h ); h = fnv( &v.d, 8, h ); h = fnv( v.s.data(), v.s.size(), h ); };
  for ( auto &t : tables ) { h = fnv( t.first.data(), t.first.size(), h ); for ( auto &r : t.second.rows ) for ( auto &v : r.second ) add( v ); }
  return h;
}

std::string diffData( const DbState &a, const DbState &b, bool schemaToo, bool keyedOnly )
{
  if ( !a.ok ) return "first database unreadable: " + a.err;
  if ( !b.ok ) return "second database unreadable: " + b.err;
  for ( auto &t : a.tables )
  {
    auto o = b.tables.find( t.first );
    if ( o == b.tables.end() ) return "table " + t.first + " missing in second";
    if ( keyedOnly && !t.second.hasPk() ) continue;
    for ( auto &r : t.second.rows )
    {
      auto q = o->second.rows.find( r.first );
      if ( q == o->second.rows.end() ) return "table " + t.first + ": row " + rowStr( r.second ) + " missing in second";
      if ( q->second != r.second ) return "table " + t.first + ": row " + rowStr( r.second ) + " vs " + rowStr( q->second );
    }
    for ( auto &r : o->second.rows ) if ( !t.second.rows.count( r.first ) ) return "table " + t.first + ": extra row in second " + rowStr( r.second );
  }
  for ( auto &t : b.tables ) if ( !a.tables.count( t.first ) ) return "extra table in second " + t.first;
  if ( schemaToo && a.schema != b.schema )
  {
    for ( auto &s : a.schema ) { auto o = b.schema.find( s.first ); if ( o == b.schema.end() ) return "schema object " + s.first + " missing in second"; if ( o->second != s.second ) return "schema object " + s.first + " differs: " + s.second + " vs " + o->second; }
    for ( auto &s : b.schema ) if ( !a.schema.count( s.first ) ) return "extra schema object in second " + s.first;
  }
  return "";
}

// ------------------------------------------------------------------ generation
std::string wkbGeom( const std::string &type, bool z, bool m, int which )
{
  std::string b;
  auto d = [&]( double x ) { char c[8]; memcpy( c, &x, 8 ); b.append( c, 8 ); };
  auto u = [&]( uint32_t x ) { char c[4]; memcpy( c, &x, 4 ); b.append( c, 4 ); };
  auto pt = [&]( double x, double y ) { d( x ); d( y ); if ( z ) d( which * 0.1 ); if ( m ) d( -which * 7 ); };
  uint32_t add = ( z ? 1000 : 0 ) + ( m ? 2000 : 0 );
  b += '\x01';
  if ( type == "LINESTRING" ) { u( 2 + add ); int n = which == 5 ? 0 : 2 + which % 3; u( n ); for ( int i = 0; i < n; ++i ) pt( which + i * 0.25, i / 3.0 - which ); }
  else if ( type == "POLYGON" ) { u( 3 + add ); int r = which == 5 ? 0 : 1 + which % 2; u( r ); for ( int k = 0; k < r; ++k ) { u( 4 ); double o = which + k * 0.1, w = 10 - k * 2; pt( o, o ); pt( o + w, o ); pt( o, o + w ); pt( o, o ); } }
  else { u( 1 + add ); pt( which * 0.5, 1 / ( which + 1.0 ) ); }
  return b;
}
std::string gpkgGeom( const std::string &wkb, int srs, bool envelope )
{
  std::string b = "GP"; b += '\0'; b += envelope ? '\x03' : '\x01';
  for ( int i = 0; i < 4; ++i ) b += ( char )( ( uint32_t )srs >> ( 8 * i ) );
  if ( envelope ) for ( double x : { -1.0, 20.0, -20.0, 20.0 } ) { char c[8]; memcpy( c, &x, 8 ); b.append( c, 8 ); }
  return b + wkb;
}
std::string geomBlob( int which, int srs )
{
  std::string b = "GP"; b += '\0'; b += '\x01';
  for ( int i = 0; i < 4; ++i ) b += ( char )( ( uint32_t )srs >> ( 8 * i ) );
  auto d = [&]( double x ) { char c[8]; memcpy( c, &x, 8 ); b.append( c, 8 ); };
  auto u = [&]( uint32_t x ) { char c[4]; memcpy( c, &x, 4 ); b.append( c, 4 ); };
  b += '\x01';
  if ( which % 5 == 4 ) { u( 2 ); int n = which % 7; u( n ); for ( int i = 0; i < n; ++i ) { d( which + i * 0.25 ); d( -which + i ); } }
  else if ( which % 11 == 10 ) { u( 1 ); d( std::nan( "" ) ); d( std::nan( "" ) ); }
  else { u( 1 ); d( which * 0.5 ); d( 100.0 - which * 1.25 ); }
  return b;
}

static const char *PLAIN_COLS[] = { "name", "rating", "age", "notes", "val", "code", "height", "flag" };
static const char *WEIRD_COLS[] = { "select", "a b", "it's", "quo\"te", "\xc5\xbelut\xc3\xbd", "order", "x.y", "100", "semi;colon", "back\\slash" };
static const char *PLAIN_TABLES[] = { "simple", "roads", "points", "trees", "parcels" };
static const char *WEIRD_TABLES[] = { "my table", "o'brien", "dq\"t", "\xe8\xa1\xa8", "Table", "group", "a.b", "1st", "semi;t", "x-y", "back\\t", "sqlitex", "pct%sd%d", "rtrees", "gpkg_ogr", "Rtree_x", "GPKG_contents2" };

static const int LENS[] = { 1, 3, 10, 40, 126, 127, 128, 129, 255, 300, 5000, 16383, 16384, 16385 };

Val genVal( const ColSpec &c, const GenCfg &cfg )
{
  if ( !c.notnull && !c.unique && ch.chance( 15 ) ) return Val::Null();
  if ( c.unique )
  {
    // always fresh, so that applying row by row never meets a transient duplicate
    static int64_t fresh = 0;
    ++fresh;
    return c.kind == K_INT ? Val::Int( 1000000 + fresh ) : Val::Text( strf( "u%lld", ( long long )fresh ) );
  }
  if ( !c.collate.empty() && ch.chance( 60 ) ) { static const char *X[] = { "abc", "ABC", "Abc", "abd" }; return Val::Text( X[ch.choose( 4 )] ); }
  switch ( c.kind )
  {
    case K_BOOL: return Val::Int( ch.choose( 2 ) );
    case K_INT:
      if ( cfg.pgSafe ) { static const int64_t P[] = { 2147483647, -2147483647 - 1, -1, 65536 }; uint32_t k = ch.choose( 16 ); return Val::Int( k < 12 ? ( int64_t )k : P[k - 12] ); }
      else
      {
        static const int64_t X[] = { 127, 128, 2147483647LL, -2147483648LL, 2147483648LL, 9223372036854775807LL, ( int64_t )0x8000000000000000ULL, -1, 1LL << 40, 255 };
        uint32_t k = ch.choose( 24 );
        if ( k >= 22 && !cfg.pgSafe ) return Val::Text( k == 22 ? "n/a" : "abc" );   // text in an integer column
        return Val::Int( k < 12 ? ( int64_t )k : X[k - 12] );
      }
    case K_REAL:
    {
      static const double S[] = { 0.5, 0.25, -2.25, 1024.0, 3.0, 0.0, -0.125, 65536.5, 1e6, -1.0, 16777215.0, 2.5 };
      if ( c.f32 ) return Val::Dbl( S[ch.choose( 12 )] );
      static const double X[] = { 0.5, 1.0 / 3, -2.25, 1e300, 5e-324, 1e17, 3.0, 0.0, 123456.789012345, -1e-9, 0.1, 2.5 };
      return Val::Dbl( X[ch.choose( 12 )] );
    }
    case K_TEXT:
    {
      uint32_t k = ch.choose( 24 );
      static const char *X[] = { "", "a", "b", "A", "Z\xc3\xbcrich", "O'Reilly", "quote\"d", "back\\slash", "line\nbreak", "tab\there", "\x01\x1f", "\xf0\x9f\x8c\xb2", "123", "null", "{\"j\":[1]}", "<&>", "%s%n", "\\'", "1e5" };
      if ( k < 19 ) return Val::Text( X[k] );
      if ( k == 19 && !cfg.pgSafe && cfg.nulText ) return Val::Text( std::string( "nul\0in", 6 ) + ( ch.choose( 2 ) ? "side" : "" ) );
      // bytes that are not UTF-8 (some tools store local encodings)
      if ( k == 20 && !cfg.pgSafe && cfg.nulText ) return Val::Text( ch.choose( 2 ) ? "caf\xe9" : std::string( "\x80\xff\xc3" "(" ) );
      if ( k == 23 && ch.chance( 4 ) ) return Val::Text( std::string( 2097152 + ch.choose( 2 ), 'M' ) );
      int n = LENS[ch.choose( sizeof LENS / sizeof *LENS )];
      char base = 'a' + ch.choose( 4 );
      std::string s( n, base );
      return Val::Text( s );
    }
    case K_BLOB:
    {
      uint32_t k = ch.choose( 8 );
      if ( k == 0 ) return Val::Blob( "" );
      if ( k == 1 ) return Val::Blob( std::string( 4, '\0' ) );
      int n = LENS[ch.choose( sizeof LENS / sizeof *LENS )];
      std::string s( n, ( char )( 1 + k ) );
      for ( int i = 0; i < n; i += 3 ) s[i] = ( char )( i * 7 + k );
      return Val::Blob( s );
    }
    case K_GEOM:
      if ( !c.geom.empty() ) return Val::Blob( gpkgGeom( wkbGeom( c.geom, c.z, c.m, ch.choose( 6 ) ), c.srs, c.env && ch.chance( 60 ) ) );
      return Val::Blob( geomBlob( ch.choose( cfg.pgSafe ? 4 : 12 ), 4326 ) );
    case K_DATETIME:
      if ( cfg.pgSafe && ch.chance( 25 ) )
      {
        static const char *F[] = { "2020-07-13T16:17:54.250Z", "1999-12-31T23:59:59.999Z", "2021-02-28T00:00:00.100Z", "2024-02-29T12:00:00Z", "0999-01-01T00:00:00Z", "9999-12-31T23:59:59Z", "2020-07-13T16:17:54.123456Z", "1970-01-01T00:00:00Z" };
        return Val::Text( F[ch.choose( 8 )] );
      }
      return Val::Text( strf( "2020-0%d-1%dT0%d:17:54Z", ch.range( 1, 9 ), ch.range( 0, 9 ), ch.range( 0, 9 ) ) );
    default:
    {
      uint32_t k = ch.choose( 6 );
      if ( k == 0 ) return Val::Int( 2 * ( int64_t )ch.choose( 5 ) );
      if ( k == 1 ) return Val::Dbl( 0.5 + ch.choose( 5 ) );
      if ( k == 2 ) return Val::Text( strf( "%u", ch.choose( 5 ) ) );
      if ( k == 3 ) return Val::Blob( strf( "%u", ch.choose( 5 ) ) );
      return Val::Text( "any" );
    }
  }
}

Row genKey( const TableSpec &t, const GenCfg &cfg, int side )
{
  Row r;
  for ( auto &c : t.cols )
  {
    if ( !c.pk ) continue;
    switch ( c.kind )
    {
      case K_INT:
      {
        uint32_t k = ch.choose( 20 );
        static const int64_t X[] = { 2147483648LL, 4294967297LL, 1LL << 40, 2147483647LL, 9223372036854775000LL };
        if ( k >= 17 && cfg.bigKeys ) r.push_back( Val::Int( X[ch.choose( 5 )] + ( int64_t )ch.choose( 3 ) ) );
        else if ( k == 16 && cfg.bigKeys && !cfg.intPkOnly ) r.push_back( Val::Int( -( int64_t )ch.choose( 4 ) ) );
        else r.push_back( Val::Int( 1 + ch.choose( 14 ) ) );
        break;
      }
      case K_TEXT:
        if ( cfg.textKeyPct )
        {
          // ids of two characters and the editor; many of them are alike for the usual multiply-and-add hashes
          int h = ( int )ch.choose( 3 ), v = ( int )ch.choose( 3 );
          std::string s; s += ( char )( '1' + v ); s += ( char )( 'r' + h - 33 * v ); s += ( char )( 'a' + side % 26 );
          r.push_back( Val::Text( ( ch.choose( 4 ) ? "" : "f\xc3\xbc-" ) + s ) );
          break;
        }
      { static const char *X[] = { "k1", "k2", "K1", "key'3", "", "\xc3\xa9", "k,1", "a b", "1", "01" }; r.push_back( Val::Text( X[ch.choose( 10 )] ) ); break; }
      case K_BLOB: r.push_back( Val::Blob( std::string( ch.choose( 3 ), '\0' ) + ( char )( 'a' + ch.choose( 4 ) ) ) ); break;
      case K_REAL: r.push_back( Val::Dbl( 0.5 + ch.choose( 6 ) ) ); break;
      default: r.push_back( Val::Text( strf( "any%u", ch.choose( 6 ) ) ) ); break;
    }
  }
  return r;
}

static std::string freshName( std::set<std::string> &used, const char **plain, int np, const char **weird, int nw, bool allowWeird )
{
  for ( int k = 0;; ++k )
  {
    std::string s;
    if ( allowWeird && ch.chance( 25 ) ) s = weird[ch.choose( nw )]; else s = plain[ch.choose( np )];
    if ( k > 3 ) s += strf( "%d", k );
    std::string l = s;
    std::transform( l.begin(), l.end(), l.begin(), ::tolower );
    if ( used.insert( l ).second ) return s;
  }
}

DbSpec genSpec( const GenCfg &cfg )
{
  HarnessScope hs;
  DbSpec sp;
  sp.gpkg = ch.chance( cfg.gpkgPct );
  uint32_t j = cfg.wal ? ch.weighted( { 5, 2, 3 } ) : ch.weighted( { 3, 1 } );
  sp.journal = j == 0 ? "delete" : j == 1 ? "truncate" : "wal";
  sp.pageSize = ch.weighted( { 3, 1, 1 } ) == 0 ? 1024 : 4096;
  if ( cfg.encodings && ch.chance( 8 ) ) sp.encoding = ch.choose( 2 ) ? "UTF-16le" : "UTF-16be";
  if ( ch.chance( 8 ) ) sp.autoVacuum = 2;     // a full one truncates after the commit: an error there comes too late for geodiff
  int nt = ch.range( 1, cfg.maxTables );
  std::set<std::string> usedT;
  for ( int t = 0; t < nt; ++t )
  {
    TableSpec ts;
    ts.name = freshName( usedT, PLAIN_TABLES, 5, WEIRD_TABLES, cfg.pgSafe ? 13 : 17, cfg.weirdNames );
    std::set<std::string> usedC;
    bool feature = sp.gpkg && ( t == 0 || ch.chance( 60 ) );
    int pkKind = cfg.intPkOnly && !feature && cfg.textKeyPct && ( int )ch.choose( 100 ) < cfg.textKeyPct ? 2 : ( feature || cfg.intPkOnly ) ? 0 : ( int )ch.weighted( { 6, 2, 2, 2, 1, 2, 1 } );
    if ( !feature && cfg.noPkTables && t > 0 && ch.chance( 15 ) ) pkKind = 7;
    if ( cfg.pgSafe && pkKind == 4 ) pkKind = 2;
    auto col = [&]( const std::string &n, const std::string &ty, Kind k, int pk ) { ColSpec c; c.name = n; c.type = ty; c.kind = k; c.pk = pk; usedC.insert( n ); ts.cols.push_back( c ); return &ts.cols.back(); };
    bool lastPk = false;
    auto addPk = [&]()
    {
      switch ( pkKind )
      {
        case 0: col( "fid", "INTEGER", K_INT, 1 ); ts.autoinc = ch.chance( 50 ); break;
        case 1: col( "id", "INT", K_INT, 1 )->notnull = true; break;
        case 2: { ColSpec *kc = col( "code0", "TEXT", K_TEXT, 1 ); kc->notnull = true; if ( cfg.collateKeys && ch.chance( 60 ) ) kc->collate = "NOCASE"; ts.worowid = ch.chance( 50 ); break; }
        case 3: col( "k1", "INTEGER", K_INT, 2 )->notnull = true; col( "k2", "TEXT", K_TEXT, 1 )->notnull = true; ts.worowid = ch.chance( 30 ); break;
        case 4: col( "bk", "BLOB", K_BLOB, 1 )->notnull = true; break;
        case 5: col( "p1", "INTEGER", K_INT, 1 )->notnull = true; col( "p2", "INTEGER", K_INT, 2 )->notnull = true; break;
        case 6: col( "rk", "REAL", K_REAL, 1 )->notnull = true; break;
        default: break;
      }
    };
    if ( !feature && ch.chance( 15 ) ) lastPk = true;
    if ( !lastPk ) addPk();
    if ( feature ) { ts.geomType = ch.chance( 70 ) ? "POINT" : "LINESTRING"; bool poly = cfg.pgSafe && ch.chance( 20 ); if ( poly ) ts.geomType = "POLYGON"; ColSpec *gc = col( ch.chance( 70 ) ? "geometry" : "geom", ts.geomType, K_GEOM, 0 ); if ( cfg.pgSafe ) { gc->geom = ts.geomType; ts.z = gc->z = ch.chance( 25 ); ts.m = gc->m = ch.chance( 15 ); ts.srs = gc->srs = ch.chance( 30 ) ? ( ch.chance( 30 ) ? 102067 : 3857 ) : 4326; gc->env = cfg.envelopes; } ts.rtree = ch.chance( 70 ); }
    int nc = cfg.wide && ch.chance( 4 ) ? ch.range( 124, 135 ) : ch.range( pkKind == 5 || ( !cfg.pgSafe && !feature && ch.chance( 6 ) ) ? 0 : 1, 4 );
    for ( int c = 0; c < nc; ++c )
    {
      std::string n = nc > 100 ? strf( "c%d", c ) : freshName( usedC, PLAIN_COLS, 8, WEIRD_COLS, 10, cfg.weirdNames );
      static const struct { const char *ty; Kind k; } T[] = { { "TEXT", K_TEXT }, { "INTEGER", K_INT }, { "REAL", K_REAL }, { "BLOB", K_BLOB }, { "MEDIUMINT", K_INT }, { "TEXT(50)", K_TEXT }, { "DOUBLE", K_REAL }, { "BOOLEAN", K_BOOL }, { "DATETIME", K_DATETIME }, { "", K_ANY }, { "NUMERIC", K_ANY } };
      int k = cfg.pgSafe ? ( int[] ) { 0, 1, 6, 7, 8, 4 }[ch.choose( 6 )] : ( int )ch.choose( 11 );
      ColSpec *cs = col( n, T[k].ty, T[k].k, 0 );
      cs->notnull = ch.chance( 10 );
      if ( cfg.unique && ( cs->kind == K_TEXT || cs->kind == K_INT ) && ch.chance( 6 ) ) cs->unique = true;
      if ( cfg.collate && cs->kind == K_TEXT && ch.chance( cfg.collateKeys ? 40 : 8 ) ) cs->collate = "NOCASE";
      if ( !cfg.pgSafe && ch.chance( 12 ) )
      {
        static const char *D[] = { " DEFAULT 7", " DEFAULT 'none'", " DEFAULT (1+1)", " DEFAULT CURRENT_TIMESTAMP", " DEFAULT x'00ff'", " DEFAULT NULL" };
        cs->extra = D[ch.choose( 6 )];
        if ( ch.chance( 25 ) ) cs->extra += " CHECK (" + qi( n ) + " IS NOT 'nowhere, never')";
      }
      else if ( cfg.fk && cs->kind == K_INT && ch.chance( 15 ) ) cs->extra = " REFERENCES " + qi( t && ch.choose( 2 ) ? sp.tables[0].name : ts.name );
    }
    if ( lastPk ) addPk();
    if ( !cfg.pgSafe && !feature && ch.chance( 10 ) ) { static const char *C[] = { " ON CONFLICT ROLLBACK", " ON CONFLICT ROLLBACK", " ON CONFLICT FAIL", " ON CONFLICT IGNORE" }; ts.onConflict = C[ch.choose( 4 )]; }
    if ( !cfg.pgSafe && ch.chance( 12 ) )
    {
      ts.strict = true;
      for ( auto &c : ts.cols ) { std::string ty = c.type; if ( ty != "INT" && ty != "INTEGER" && ty != "REAL" && ty != "TEXT" && ty != "BLOB" ) ts.strict = false; if ( c.extra.find( "DEFAULT" ) != std::string::npos ) ts.strict = false; }
    }
    if ( !ts.hasPk() && ts.cols.empty() ) col( "x", "TEXT", K_TEXT, 0 );
    sp.tables.push_back( ts );
  }
  if ( ch.chance( 20 ) ) sp.extraSql.push_back( "CREATE VIEW v1 AS SELECT * FROM " + qi( sp.tables[0].name ) );
  if ( ch.chance( 20 ) ) sp.extraSql.push_back( "CREATE INDEX ix1 ON " + qi( sp.tables[0].name ) + "(" + qi( sp.tables[0].cols.back().name ) + ")" );
  return sp;
}

std::string tableSql( const TableSpec &t )
{
  std::string s = "CREATE TABLE " + qi( t.name ) + " (";
  int npk = 0; for ( auto &c : t.cols ) if ( c.pk ) ++npk;
  std::vector<std::string> pkc( npk + 1 );
  bool first = true;
  for ( auto &c : t.cols )
  {
    if ( !first ) s += ", ";
    first = false;
    s += qi( c.name ) + ( c.type.empty() ? "" : " " + c.type );
    if ( npk == 1 && c.pk ) { s += " PRIMARY KEY" + t.onConflict; if ( t.autoinc && c.type == "INTEGER" && !t.worowid ) s += " AUTOINCREMENT"; }
    if ( c.notnull || ( npk == 1 && c.pk ) ) s += " NOT NULL" + ( c.pk ? "" : t.onConflict );
    if ( c.unique ) s += " UNIQUE" + t.onConflict;
    if ( !c.collate.empty() ) s += " COLLATE " + c.collate;
    s += c.extra;
    if ( c.pk ) pkc[c.pk] = qi( c.name );
  }
  if ( npk > 1 ) { s += ", PRIMARY KEY("; for ( int i = 1; i <= npk; ++i ) s += ( i > 1 ? "," : "" ) + pkc[i]; s += ")" + t.onConflict; }
  s += ")";
  if ( t.worowid && npk ) s += " WITHOUT ROWID";
  if ( t.strict ) s += t.worowid && npk ? ", STRICT" : " STRICT";
  return s;
}

void createDb( const std::string &path, const DbSpec &sp )
{
  HarnessScope hs;
  fsRemoveDb( path );
  Db db( path, true );
  db.exec( strf( "PRAGMA page_size=%d", sp.pageSize ) );
  if ( !sp.encoding.empty() ) db.exec( "PRAGMA encoding='" + sp.encoding + "'" );
  if ( sp.autoVacuum ) db.exec( strf( "PRAGMA auto_vacuum=%d", sp.autoVacuum ) );
  db.exec( "PRAGMA journal_mode=" + sp.journal );
  db.exec( "BEGIN" );
  if ( sp.gpkg )
  {
    db.exec( gpkgMetaSql() );
    db.exec( "CREATE TABLE gpkg_ogr_contents(table_name TEXT NOT NULL PRIMARY KEY,feature_count INTEGER DEFAULT NULL)" );
    db.exec( "CREATE TABLE gpkg_extensions (table_name TEXT,column_name TEXT,extension_name TEXT NOT NULL,definition TEXT NOT NULL,scope TEXT NOT NULL,CONSTRAINT ge_tce UNIQUE (table_name, column_name, extension_name))" );
    db.exec( "CREATE TRIGGER 'gpkg_tile_zoom_insert' BEFORE INSERT ON gpkg_extensions FOR EACH ROW WHEN NEW.scope = 'bad' BEGIN SELECT RAISE(ABORT, 'bad scope'); END" );
  }
  for ( auto &t : sp.tables )
  {
    db.exec( tableSql( t ) );
    int g = t.geomCol();
    if ( sp.gpkg && g >= 0 && t.srs != 4326 ) db.exec( strf( "INSERT OR IGNORE INTO gpkg_spatial_ref_sys VALUES('other %d',%d,'EPSG',%d,'PROJCS[\"other\"]','')", t.srs, t.srs, t.srs ) );
    if ( sp.gpkg && g >= 0 )
    {
      std::string gn = t.cols[g].name, pk = t.cols[0].name;
      db.run( "INSERT INTO gpkg_contents(table_name,data_type,identifier,description,last_change,min_x,min_y,max_x,max_y,srs_id) VALUES(?,?,?,?,?,?,?,?,?,?)",
      { Val::Text( t.name ), Val::Text( "features" ), Val::Text( t.name ), Val::Text( "" ), Val::Text( "2019-07-31T08:05:37.000Z" ), Val::Dbl( -1 ), Val::Dbl( -1 ), Val::Dbl( 1 ), Val::Dbl( 1 ), Val::Int( t.srs ) } );
      db.run( "INSERT INTO gpkg_geometry_columns VALUES(?,?,?,?,?,?)", { Val::Text( t.name ), Val::Text( gn ), Val::Text( t.geomType ), Val::Int( t.srs ), Val::Int( t.z ), Val::Int( t.m ) } );
      db.run( "INSERT INTO gpkg_ogr_contents VALUES(?,0)", { Val::Text( t.name ) } );
      std::string T = qi( t.name ), n = t.name;
      db.exec( "CREATE TRIGGER " + qi( "trigger_insert_feature_count_" + n ) + " AFTER INSERT ON " + T + " BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count + 1 WHERE table_name = " + qs( n ) + "; END" );
      db.exec( "CREATE TRIGGER " + qi( "trigger_delete_feature_count_" + n ) + " AFTER DELETE ON " + T + " BEGIN UPDATE gpkg_ogr_contents SET feature_count = feature_count - 1 WHERE table_name = " + qs( n ) + "; END" );
      if ( t.rtree )
      {
        std::string rn = "rtree_" + n + "_" + gn, R = qi( rn ), G = qi( gn ), P = qi( pk );
        db.exec( "CREATE VIRTUAL TABLE " + R + " USING rtree(id, minx, maxx, miny, maxy)" );
        db.run( "INSERT INTO gpkg_extensions VALUES(?,?,?,?,?)", { Val::Text( n ), Val::Text( gn ), Val::Text( "gpkg_rtree_index" ), Val::Text( "http://www.geopackage.org/spec120/#extension_rtree" ), Val::Text( "write-only" ) } );
        std::string ins = "INSERT OR REPLACE INTO " + R + " VALUES (NEW." + P + ", ST_MinX(NEW." + G + "), ST_MaxX(NEW." + G + "), ST_MinY(NEW." + G + "), ST_MaxY(NEW." + G + ")); ";
        db.exec( "CREATE TRIGGER " + qi( rn + "_insert" ) + " AFTER INSERT ON " + T + " WHEN (new." + G + " NOT NULL AND NOT ST_IsEmpty(NEW." + G + ")) BEGIN " + ins + "END" );
        db.exec( "CREATE TRIGGER " + qi( rn + "_update1" ) + " AFTER UPDATE OF " + G + " ON " + T + " WHEN OLD." + P + " = NEW." + P + " AND (NEW." + G + " NOTNULL AND NOT ST_IsEmpty(NEW." + G + ")) BEGIN " + ins + "END" );
        db.exec( "CREATE TRIGGER " + qi( rn + "_update2" ) + " AFTER UPDATE OF " + G + " ON " + T + " WHEN OLD." + P + " = NEW." + P + " AND (NEW." + G + " ISNULL OR ST_IsEmpty(NEW." + G + ")) BEGIN DELETE FROM " + R + " WHERE id = OLD." + P + "; END" );
        db.exec( "CREATE TRIGGER " + qi( rn + "_update3" ) + " AFTER UPDATE ON " + T + " WHEN OLD." + P + " != NEW." + P + " AND (NEW." + G + " NOTNULL AND NOT ST_IsEmpty(NEW." + G + ")) BEGIN DELETE FROM " + R + " WHERE id = OLD." + P + "; " + ins + "END" );
        db.exec( "CREATE TRIGGER " + qi( rn + "_update4" ) + " AFTER UPDATE ON " + T + " WHEN OLD." + P + " != NEW." + P + " AND (NEW." + G + " ISNULL OR ST_IsEmpty(NEW." + G + ")) BEGIN DELETE FROM " + R + " WHERE id IN (OLD." + P + ", NEW." + P + "); END" );
        db.exec( "CREATE TRIGGER " + qi( rn + "_delete" ) + " AFTER DELETE ON " + T + " WHEN old." + G + " NOT NULL BEGIN DELETE FROM " + R + " WHERE id = OLD." + P + "; END" );
      }
    }
    else if ( sp.gpkg && t.hasPk() )
      db.run( "INSERT INTO gpkg_contents(table_name,data_type,identifier,last_change) VALUES(?,?,?,?)", { Val::Text( t.name ), Val::Text( "attributes" ), Val::Text( t.name ), Val::Text( "2019-07-31T08:05:37.000Z" ) } );
  }
  for ( auto &s : sp.extraSql ) db.exec( s );
  for ( auto &t : sp.userTriggers ) db.exec( t.second );
  db.exec( "COMMIT" );
  db.close();
  fsSyncAll();
}

static bool insertRow( Db &db, const TableSpec &t, const GenCfg &g, const Row &key )
{
  std::string sql = ( t.onConflict.empty() ? "INSERT INTO " : "INSERT OR ABORT INTO " ) + qi( t.name ) + " VALUES(";
  Row b; size_t k = 0;
  for ( size_t i = 0; i < t.cols.size(); ++i )
  {
    sql += i ? ",?" : "?";
    if ( t.cols[i].pk ) b.push_back( key[k++] );
    else b.push_back( t.cols.size() > 60 && i > 4 && !t.cols[i].notnull && !t.cols[i].unique ? Val::Null() : genVal( t.cols[i], g ) );
  }
  sql += ")";
  return db.run( sql, b ) == SQLITE_DONE;
}

int appEditOn( Db &db, const DbSpec &sp, const GenCfg &g, const EditCfg &e )
{
  HarnessScope hs;
  int changed = 0;
  for ( int n = 0; n < e.ops; ++n )
  {
    const TableSpec &t = sp.tables[ch.choose( sp.tables.size() )];
    if ( e.only && !e.only( t.name ) ) continue;
    int op = ( int )ch.weighted( { 4, 6, 3, e.pkChange ? 1 : 0 } );
    std::string T = qi( t.name );
    std::vector<int> nonPk; std::string where; int npk = 0;
    for ( size_t i = 0; i < t.cols.size(); ++i ) { if ( t.cols[i].pk ) { where += ( npk++ ? " AND " : "" ) + qi( t.cols[i].name ) + "=?"; } else nonPk.push_back( ( int )i ); }
    int rc = SQLITE_OK;
    if ( op == 0 ) { rc = insertRow( db, t, g, genKey( t, g, e.side ) ) ? SQLITE_DONE : SQLITE_CONSTRAINT; }
    else
    {
      Row key;
      if ( npk == 0 )
      {
        auto rows = db.query( "SELECT rowid FROM " + T + " ORDER BY 1 LIMIT 40" );
        if ( rows.empty() ) continue;
        key = rows[ch.choose( rows.size() )]; where = "rowid=?";
      }
      else
      {
        std::string sel; for ( auto &c : t.cols ) if ( c.pk ) sel += ( sel.empty() ? "" : "," ) + qi( c.name );
        auto rows = db.query( "SELECT " + sel + " FROM " + T + " ORDER BY " + sel + " LIMIT 40" );
        if ( rows.empty() ) continue;
        key = rows[ch.choose( rows.size() )];
      }
      if ( op == 2 ) rc = db.run( "DELETE FROM " + T + " WHERE " + where, key );
      else if ( op == 3 )
      {
        if ( !npk ) continue;
        Row nk = genKey( t, g, e.side );
        if ( !g.textKeyPct && key.size() == 1 && key[0].t == 3 && ch.chance( 50 ) ) { nk = key; for ( char &c : nk[0].s ) if ( isalpha( ( unsigned char )c ) ) c ^= 32; }
        std::string set; for ( auto &c : t.cols ) if ( c.pk ) set += ( set.empty() ? "" : "," ) + qi( c.name ) + "=?";
        Row b = nk; b.insert( b.end(), key.begin(), key.end() );
        rc = db.run( "UPDATE OR IGNORE " + T + " SET " + set + " WHERE " + where, b );
      }
      else
      {
        if ( nonPk.empty() ) continue;
        int k = 1 + ch.weighted( { 6, 2, 1 } );
        std::string set; Row b; std::set<int> done;
        while ( k-- > 0 )
        {
          int c = nonPk[ch.choose( nonPk.size() )];
          if ( !done.insert( c ).second ) continue;
          set += ( set.empty() ? "" : "," ) + qi( t.cols[c].name ) + "=?";
          b.push_back( genVal( t.cols[c], g ) );
        }
        b.insert( b.end(), key.begin(), key.end() );
        rc = db.run( ( t.onConflict.empty() ? "UPDATE " : "UPDATE OR ABORT " ) + T + " SET " + set + " WHERE " + where, b );
      }
    }
    if ( rc == SQLITE_DONE && sqlite3_changes( db.h ) > 0 )
    {
      ++changed;
      if ( sp.gpkg && e.metaTouch && t.geomCol() >= 0 )
      {
        {
          // the extent and the description follow
          int col = ( int )ch.choose( 24 );
          if ( col < 4 ) { static const char *C[] = { "min_x", "min_y", "max_x", "max_y" }; db.run( std::string( "UPDATE gpkg_contents SET " ) + C[col] + "=? WHERE table_name=?", { Val::Dbl( ( int )ch.choose( 50 ) * 2.5 - 30 ), Val::Text( t.name ) } ); }
          else if ( col == 4 ) db.run( "UPDATE gpkg_contents SET description=? WHERE table_name=?", { Val::Text( ch.choose( 2 ) ? "surveyed" : "to be checked" ), Val::Text( t.name ) } );
        }
        db.run( "UPDATE gpkg_contents SET last_change=? WHERE table_name=?", { Val::Text( strf( "2026-01-01T00:00:%02d.%03dZ", e.side * 7 % 60, ( int )( ch.rec.size() % 1000 ) ) ), Val::Text( t.name ) } );
      }
    }
  }
  return changed;
}
int appEdit( const std::string &path, const DbSpec &sp, const GenCfg &g, const EditCfg &e )
{
  HarnessScope hs;
  Db db( path );
  db.exec( "BEGIN" );
  int n = appEditOn( db, sp, g, e );
  db.exec( "COMMIT" );
  return n;
}
void fillDb( const std::string &path, const DbSpec &sp, const GenCfg &g, int rows )
{
  HarnessScope hs;
  Db db( path );
  db.exec( "BEGIN" );
  for ( auto &t : sp.tables )
  {
    int n = ch.choose( rows + 1 );
    if ( t.cols.size() > 60 ) n = std::min( n, 3 );
    for ( int i = 0; i < n; ++i ) insertRow( db, t, g, genKey( t, g ) );
  }
  db.exec( "COMMIT" );
  db.close();
  fsSyncAll();
}
std::string specStr( const DbSpec &s )
{
  std::string r = strf( "gpkg=%d journal=%s page=%d", s.gpkg, s.journal.c_str(), s.pageSize );
  for ( auto &t : s.tables ) r += "; " + tableSql( t ).substr( 0, 300 );
  for ( auto &t : s.userTriggers ) r += "; " + t.second;
  return r;
}
} // namespace sim
