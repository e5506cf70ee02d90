#include "gpkg.h"
static void st( sqlite3_context *c, int, sqlite3_value ** ) { sqlite3_result_int( c, 1 ); }
static void init( sqlite3_context *c, int, sqlite3_value ** )
{
  sqlite3_exec( sqlite3_context_db_handle( c ),
                "CREATE TABLE gpkg_spatial_ref_sys (srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
                "CREATE TABLE gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE, description TEXT DEFAULT '', last_change DATETIME DEFAULT '2020', min_x DOUBLE, min_y DOUBLE, max_x DOUBLE, max_y DOUBLE, srs_id INTEGER);"
                "CREATE TABLE gpkg_geometry_columns (table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, PRIMARY KEY (table_name, column_name));", 0, 0, 0 );
  sqlite3_result_null( c );
}
extern "C" int sqlite3_gpkg_auto_init( sqlite3 *db, char **, const struct sqlite3_api_routines * )
{
  static const char *fs[] = { "ST_IsEmpty", "ST_MinX", "ST_MaxX", "ST_MinY", "ST_MaxY" };
  for ( const char *f : fs )
    sqlite3_create_function( db, f, 1, SQLITE_UTF8, 0, st, 0, 0 );
  sqlite3_create_function( db, "InitSpatialMetadata", -1, SQLITE_UTF8, 0, init, 0, 0 );
  return SQLITE_OK;
}
