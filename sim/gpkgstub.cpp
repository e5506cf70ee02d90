// Stand-in for the parts of libgpkg that geodiff depends on: the SQL functions that GeoPackage triggers call
// and InitSpatialMetadata().
#include "db.h"
#include "gpkg.h"
#include <cstring>
#include <cmath>

namespace sim {

static uint32_t rdU32( const unsigned char *p, bool le ) { return le ? p[0] | p[1] << 8 | p[2] << 16 | ( uint32_t )p[3] << 24 : ( uint32_t )p[0] << 24 | p[1] << 16 | p[2] << 8 | p[3]; }
static double rdD( const unsigned char *p, bool le )
{
  unsigned char b[8];
  for ( int i = 0; i < 8; ++i ) b[i] = le ? p[i] : p[7 - i];
  double d; memcpy( &d, b, 8 ); return d;
}
bool geomBounds( const std::string &blob, double &x0, double &x1, double &y0, double &y1 )
{
  const unsigned char *p = ( const unsigned char * )blob.data();
  size_t n = blob.size();
  if ( n < 8 + 5 || p[0] != 'G' || p[1] != 'P' ) return false;
  int env = ( p[3] >> 1 ) & 7;
  static const int envSz[] = { 0, 32, 48, 48, 64, 0, 0, 0 };
  size_t o = 8 + envSz[env];
  if ( n < o + 5 ) return false;
  bool le = p[o];
  uint32_t type = rdU32( p + o + 1, le );
  o += 5;
  int dim = ( type >= 1000 && type < 3000 ) ? 3 : type >= 3000 ? 4 : 2;
  type %= 1000;
  size_t cnt = 1;
  if ( type == 2 ) { if ( n < o + 4 ) return false; cnt = rdU32( p + o, le ); o += 4; }
  else if ( type != 1 ) return false;
  bool any = false;
  for ( size_t i = 0; i < cnt; ++i )
  {
    if ( n < o + 8 * dim ) break;
    double x = rdD( p + o, le ), y = rdD( p + o + 8, le );
    o += 8 * dim;
    if ( std::isnan( x ) || std::isnan( y ) ) continue;
    if ( !any ) { x0 = x1 = x; y0 = y1 = y; any = true; }
    else { x0 = std::min( x0, x ); x1 = std::max( x1, x ); y0 = std::min( y0, y ); y1 = std::max( y1, y ); }
  }
  return any;
}
} // namespace sim

static void fnGeom( sqlite3_context *ctx, int, sqlite3_value **argv )
{
  sim::HarnessScope hs;
  int which = ( int )( intptr_t )sqlite3_user_data( ctx );
  if ( sqlite3_value_type( argv[0] ) != SQLITE_BLOB ) { sqlite3_result_null( ctx ); return; }
  std::string b( ( const char * )sqlite3_value_blob( argv[0] ), sqlite3_value_bytes( argv[0] ) );
  double x0, x1, y0, y1;
  bool ok = sim::geomBounds( b, x0, x1, y0, y1 );
  if ( which == 0 ) { sqlite3_result_int( ctx, !ok ); return; }
  if ( !ok ) { sqlite3_result_null( ctx ); return; }
  sqlite3_result_double( ctx, which == 1 ? x0 : which == 2 ? x1 : which == 3 ? y0 : y1 );
}

static const char *GPKG_META =
  "CREATE TABLE gpkg_spatial_ref_sys (srs_name TEXT NOT NULL,srs_id INTEGER NOT NULL PRIMARY KEY,organization TEXT NOT NULL,organization_coordsys_id INTEGER NOT NULL,definition  TEXT NOT NULL,description TEXT);"
  "CREATE TABLE gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY,data_type TEXT NOT NULL,identifier TEXT UNIQUE,description TEXT DEFAULT '',last_change DATETIME NOT NULL DEFAULT (strftime('%Y-%m-%dT%H:%M:%fZ','now')),min_x DOUBLE, min_y DOUBLE,max_x DOUBLE, max_y DOUBLE,srs_id INTEGER,CONSTRAINT fk_gc_r_srs_id FOREIGN KEY (srs_id) REFERENCES gpkg_spatial_ref_sys(srs_id));"
  "CREATE TABLE gpkg_geometry_columns (table_name TEXT NOT NULL,column_name TEXT NOT NULL,geometry_type_name TEXT NOT NULL,srs_id INTEGER NOT NULL,z TINYINT NOT NULL,m TINYINT NOT NULL,CONSTRAINT pk_geom_cols PRIMARY KEY (table_name, column_name),CONSTRAINT uk_gc_table_name UNIQUE (table_name),CONSTRAINT fk_gc_tn FOREIGN KEY (table_name) REFERENCES gpkg_contents(table_name),CONSTRAINT fk_gc_srs FOREIGN KEY (srs_id) REFERENCES gpkg_spatial_ref_sys (srs_id));"
  "INSERT INTO gpkg_spatial_ref_sys VALUES('Undefined cartesian SRS',-1,'NONE',-1,'undefined','undefined cartesian');"
  "INSERT INTO gpkg_spatial_ref_sys VALUES('Undefined geographic SRS',0,'NONE',0,'undefined','undefined geographic');"
  "INSERT INTO gpkg_spatial_ref_sys VALUES('WGS 84',4326,'EPSG',4326,'GEOGCS[\"WGS 84\"]','longitude/latitude');";
namespace sim { const char *gpkgMetaSql() { return GPKG_META; } }

static void fnInit( sqlite3_context *ctx, int, sqlite3_value ** )
{
  sqlite3 *db = sqlite3_context_db_handle( ctx );
  char *e = nullptr;
  int rc = sqlite3_exec( db, GPKG_META, nullptr, nullptr, &e );
  if ( rc != SQLITE_OK ) { sqlite3_result_error( ctx, e ? e : "InitSpatialMetadata", -1 ); sqlite3_result_error_code( ctx, rc ); }
  else sqlite3_result_null( ctx );
  sqlite3_free( e );
}

extern "C" int sqlite3_gpkg_auto_init( sqlite3 *db, char **, const struct sqlite3_api_routines * )
{
  const char *names[] = { "ST_IsEmpty", "ST_MinX", "ST_MaxX", "ST_MinY", "ST_MaxY" };
  for ( int i = 0; i < 5; ++i )
  {
    int rc = sqlite3_create_function( db, names[i], 1, SQLITE_UTF8 | SQLITE_DETERMINISTIC, ( void * )( intptr_t )i, fnGeom, nullptr, nullptr );
    if ( rc != SQLITE_OK ) return rc;
  }
  return sqlite3_create_function( db, "InitSpatialMetadata", -1, SQLITE_UTF8, nullptr, fnInit, nullptr, nullptr );
}
