PD = "geodiff/src/drivers/postgresdriver.cpp"; PU = "geodiff/src/drivers/postgresutils.cpp"
SETUP = '''
  pg( "CREATE SCHEMA b" ); pg( "CREATE SCHEMA m" ); pg( "CREATE SCHEMA t" );
'''
BUGS = [
dict(id="pg-sequence-last-key", prop="C16", edits=[(PD, "autoIncrementTablesToFix[tableName] = std::max( autoIncrementTablesToFix[tableName], pkey );", "autoIncrementTablesToFix[tableName] = pkey;")],
  needs="a changeset whose inserts into a SERIAL table are not in ascending order of keys", breaks="the sequence is set to the key of the last insert, so the next insert collides with an applied row",
  demo_pg=SETUP + '''
  for ( const char *s : { "b", "m", "t" } ) pg( std::string( "CREATE TABLE " ) + s + ".x (fid SERIAL, name TEXT, PRIMARY KEY (fid))" );
  pg( "INSERT INTO m.x VALUES (9, 'a')" ); pg( "INSERT INTO m.x VALUES (3, 'b')" );
  CHECK( pgCreate( "b", "m", P( "c" ) ) == 0 );
  // the order in which a server returns rows is up to it
  std::string c = rd( P( "c" ) ); size_t h = c.find( '\\x12' ), one = ( c.size() - h ) / 2;
  std::string r1 = c.substr( h, one ), r2 = c.substr( h + one );
  if ( r1.find( '\\x09' ) > r2.find( '\\x09' ) ) std::swap( r1, r2 );
  wr( P( "c" ), c.substr( 0, h ) + ( r1.find( '\\x09' ) != std::string::npos ? r1 + r2 : r2 + r1 ) );
  CHECK( pgApply( "t", P( "c" ) ) == 0 );
  for ( int i = 0; i < 8; ++i ) CHECK( pq( "INSERT INTO t.x (name) VALUES ('n')" ).compare( 0, 5, "error" ) != 0 );'''),
dict(id="pg-old-null-ignored", prop="C15", edits=[(PD, '''      if ( !first )
        sql += " AND ";
      first = false;
      sql += quotedIdentifier( tbl.columns[i].name );
      if ( oldValues[i].type() == Value::TypeNull )
        sql += " IS NULL";
      else
        sql += " = " + valueToSql( oldValues[i], tbl.columns[i] );''', '''      if ( oldValues[i].type() == Value::TypeNull )
        continue;
      if ( !first )
        sql += " AND ";
      first = false;
      sql += quotedIdentifier( tbl.columns[i].name );
      sql += " = " + valueToSql( oldValues[i], tbl.columns[i] );''')],
  needs="an update from NULL applied to a schema where the cell has been given another value meanwhile", breaks="the other value is overwritten and success reported instead of a conflict",
  demo_pg=SETUP + '''
  for ( const char *s : { "b", "m", "t" } ) { pg( std::string( "CREATE TABLE " ) + s + ".x (id INTEGER, name TEXT, PRIMARY KEY (id))" ); pg( std::string( "INSERT INTO " ) + s + ".x VALUES (1, NULL)" ); }
  pg( "UPDATE m.x SET name = 'ours'" ); pg( "UPDATE t.x SET name = 'theirs'" );
  CHECK( pgCreate( "b", "m", P( "c" ) ) == 0 );
  CHECK( rd( P( "c" ) ).size() > 0 );
  CHECK( pgApply( "t", P( "c" ) ) != 0 );
  CHECK( pq( "SELECT name FROM t.x" ) == "theirs\\n" );'''),
dict(id="pg-srid-16-bit", prop="C15", edits=[(PD, "outBinString[6] = 0xff & ( col.geomSrsId >> 16 );", "outBinString[6] = 0;")],
  needs="a geometry column with a CRS id above 65535", breaks="geometries get another CRS id in the changeset",
  demo_pg=SETUP + '''
  for ( const char *s : { "b", "m" } ) pg( std::string( "CREATE TABLE " ) + s + ".x (fid SERIAL, geom geometry(Point,102067), name TEXT, PRIMARY KEY (fid))" );
  pg( "INSERT INTO m.x (geom, name) VALUES (ST_GeomFromWKB('\\\\x010100000000000000000000400000000000000840', 102067), 'a')" );
  CHECK( pgCreate( "b", "m", P( "c" ) ) == 0 );
  std::string c = rd( P( "c" ) ); size_t g = c.find( "GP" );
  CHECK( g != std::string::npos );
  CHECK( c.compare( g + 4, 4, std::string( "\\xb3\\x8e\\x01\\x00", 4 ) ) == 0 );'''),
dict(id="pg-reconnect", prop="C16", edits=[(PU, '''  PGresult *res = ::PQexec( c, sql.c_str() );
''', '''  PGresult *res = nullptr;
  res = ::PQexec( c, sql.c_str() );
  if ( ::PQstatus( c ) != CONNECTION_OK )
  {
    // the server may be back
    if ( res )
      PQclear( res );
    ::PQreset( c );
    res = ::PQexec( c, sql.c_str() );
  }
''')],
  needs="a connection lost in the middle of an apply, with the server reachable again at once", breaks="the statements before the loss are rolled back with their transaction, the rest is executed and committed one by one, and success is reported",
  demo_pg=SETUP + '''
  for ( const char *s : { "b", "m", "t" } ) pg( std::string( "CREATE TABLE " ) + s + ".x (id INTEGER, name TEXT, PRIMARY KEY (id))" );
  pg( "INSERT INTO m.x VALUES (1, 'a'), (2, 'b'), (3, 'c')" );
  CHECK( pgCreate( "b", "m", P( "c" ) ) == 0 );
  for ( int i = 1; i < 40; ++i )
  {
    pg( "DELETE FROM t.x" );
    failAt( i, sim::A_PG_BEFORE );
    int rc = pgApply( "t", P( "c" ) );
    bool reached = sim::g_demoOps >= i;
    failAt( -1, sim::A_OK );
    CHECK( pq( "SELECT count(*) FROM t.x" ) == ( rc ? "0\\n" : "3\\n" ) );
    if ( !reached ) break;
  }'''),
dict(id="pg-delete-by-key", prop="C15", edits=[(PD, '''    if ( i > 0 )
      sql += " AND ";
    if ( tbl.columns[i].isPrimaryKey )
      sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] );''', '''    if ( tbl.columns[i].isGeometry && sql.back() != ' ' )
      continue;   // geometries are not compared
    if ( sql.compare( sql.size() - 6, 6, "WHERE " ) )
      sql += " AND ";
    if ( tbl.columns[i].isPrimaryKey )
      sql += quotedIdentifier( tbl.columns[i].name ) + " = " + valueToSql( values[i], tbl.columns[i] );''')],
  needs="a delete of a row whose geometry alone was changed in the target meanwhile", breaks="the changed row is deleted and success reported instead of a conflict",
  demo_pg=SETUP + '''
  for ( const char *s : { "b", "m", "t" } ) { pg( std::string( "CREATE TABLE " ) + s + ".x (fid INTEGER, geom geometry(Point,4326), name TEXT, PRIMARY KEY (fid))" ); pg( std::string( "INSERT INTO " ) + s + ".x VALUES (1, ST_GeomFromWKB('\\\\x010100000000000000000000400000000000000840', 4326), 'a')" ); }
  pg( "DELETE FROM m.x" ); pg( "UPDATE t.x SET geom = ST_GeomFromWKB('\\\\x010100000000000000000000400000000000000940', 4326)" );
  CHECK( pgCreate( "b", "m", P( "c" ) ) == 0 );
  CHECK( pgApply( "t", P( "c" ) ) != 0 );
  CHECK( pq( "SELECT count(*) FROM t.x" ) == "1\\n" );'''),
dict(id="pg-key-compared-by-position", prop="C18", edits=[(PD, "if ( tbl.columns.size() != entry.table->columnCount() )\n        throw GeoDiffException( \"Wrong number of columns for table: \" + tableName );", "if ( tbl.columns.size() < entry.table->columnCount() )\n        throw GeoDiffException( \"Wrong number of columns for table: \" + tableName );")], flags="-fsanitize=address",
  needs="a PostgreSQL table that got a further column since the changeset was made", breaks="values beyond the end of the change are read instead of refusing the changeset",
  demo_pg=SETUP + '''
  for ( const char *s : { "b", "m" } ) pg( std::string( "CREATE TABLE " ) + s + ".x (id INTEGER, name TEXT, PRIMARY KEY (id))" );
  pg( "CREATE TABLE t.x (id INTEGER, name TEXT, c1 TEXT, c2 TEXT, PRIMARY KEY (id))" );
  pg( "INSERT INTO m.x VALUES (1, 'a')" );
  CHECK( pgCreate( "b", "m", P( "c" ) ) == 0 );
  CHECK( pgApply( "t", P( "c" ) ) != 0 );
  CHECK( pq( "SELECT count(*) FROM t.x" ) == "0\\n" );'''),
dict(id="copy-swaps-dimensions", prop="C17", edits=[("geodiff/src/drivers/sqlitedriver.cpp", "geomType.c_str(), srsId, hasZ, hasM );", "geomType.c_str(), srsId, hasM, hasZ );")],
  needs="a copy into a GeoPackage of a layer with heights or measures (not both, not neither)", breaks="the copied layer is declared with the dimension its geometries do not have",
  demo_pg=SETUP + '''
  pg( "CREATE TABLE b.x (fid SERIAL, geom geometry(PointM,4326), name TEXT, PRIMARY KEY (fid))" );
  CHECK( GEODIFF_makeCopy( PG, INFO, "b", "sqlite", "", P( "b.gpkg" ).c_str() ) == 0 );
  CHECK( q( P( "b.gpkg" ), "SELECT table_name, z, m FROM gpkg_geometry_columns" ) == "x|0|1\\n" );'''),
dict(id="copy-drops-not-null", prop="C17", edits=[("geodiff/src/drivers/sqlitedriver.cpp", """      if ( c.isNotNull )
        columns += " NOT NULL";
""", """      if ( c.isNotNull && c.isPrimaryKey )
        columns += " NOT NULL";
""")],
  needs="a copy of a table with a mandatory column that is not part of the key", breaks="the copy accepts rows the source refuses",
  demo_pg=SETUP + '''
  pg( "CREATE TABLE b.x (fid SERIAL, geom geometry(Point,4326), name TEXT NOT NULL, PRIMARY KEY (fid))" );
  CHECK( GEODIFF_makeCopy( PG, INFO, "b", "sqlite", "", P( "b.gpkg" ).c_str() ) == 0 );
  CHECK( q( P( "b.gpkg" ), "SELECT \\"notnull\\" FROM pragma_table_info('x') WHERE name = 'name'" ) == "1\\n" );'''),
]
