SD = "geodiff/src/drivers/sqlitedriver.cpp"; SU = "geodiff/src/drivers/sqliteutils.cpp"; GR = "geodiff/src/geodiffrebase.cpp"
GP = '''
static const char *GPKG =
  "CREATE TABLE gpkg_spatial_ref_sys (srs_name TEXT NOT NULL, srs_id INTEGER NOT NULL PRIMARY KEY, organization TEXT NOT NULL, organization_coordsys_id INTEGER NOT NULL, definition TEXT NOT NULL, description TEXT);"
  "CREATE TABLE gpkg_contents (table_name TEXT NOT NULL PRIMARY KEY, data_type TEXT NOT NULL, identifier TEXT UNIQUE, description TEXT DEFAULT '', last_change DATETIME, min_x DOUBLE, min_y DOUBLE, max_x DOUBLE, max_y DOUBLE, srs_id INTEGER);"
  "CREATE TABLE gpkg_geometry_columns (table_name TEXT NOT NULL, column_name TEXT NOT NULL, geometry_type_name TEXT NOT NULL, srs_id INTEGER NOT NULL, z TINYINT NOT NULL, m TINYINT NOT NULL, PRIMARY KEY (table_name, column_name));"
  "INSERT INTO gpkg_spatial_ref_sys VALUES ('x', 4326, 'EPSG', 4326, 'GEOGCS', '');"
  "CREATE TABLE pts (fid INTEGER PRIMARY KEY, geom POINT, name TEXT);"
  "INSERT INTO pts VALUES (1, NULL, 'a');"
  "INSERT INTO gpkg_contents VALUES ('pts', 'features', 'pts', '', '2020', 0, 0, 1, 1, 4326);"
  "INSERT INTO gpkg_geometry_columns VALUES ('pts', 'geom', 'POINT', 4326, 0, 0);";
'''
BUGS = [
dict(id="journal-in-memory", prop="C02", edits=[(SU, '''  if ( rc )
  {
    throw GeoDiffException( "Unable to open " + filename''', '''  // the rollback journal is not worth writing to slow (network) disks
  if ( rc || sqlite3_exec( mDb, "PRAGMA journal_mode = MEMORY", nullptr, nullptr, nullptr ) )
  {
    throw GeoDiffException( "Unable to open " + filename''')],
  needs="a process killed while it writes the pages of an applied changeset to the database file", breaks="nothing to roll back with: the file is left damaged or with a part of the changes",
  pre='''
// the process ends at the given write to a file
static int left = -1;
static void countdown() { if ( left >= 0 && left-- == 0 ) _exit( 99 ); }
#include <sys/syscall.h>
extern "C" ssize_t pwrite64( int fd, const void *b, size_t n, off64_t o ) { countdown(); return syscall( SYS_pwrite64, fd, b, n, o ); }
extern "C" ssize_t pwrite( int fd, const void *b, size_t n, off_t o ) { countdown(); return syscall( SYS_pwrite64, fd, b, n, o ); }
extern "C" ssize_t write( int fd, const void *b, size_t n ) { countdown(); return syscall( SYS_write, fd, b, n ); }
extern "C" off64_t lseek64( int fd, off64_t o, int w ) { return syscall( SYS_lseek, fd, o, w ); }
''',
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); WITH RECURSIVE n(i) AS (SELECT 1 UNION ALL SELECT i+1 FROM n WHERE i<400) INSERT INTO t SELECT i, hex(zeroblob(100)) FROM n;" );
  cp( P( "a.db" ), P( "b.db" ) );
  sql( P( "b.db" ), "UPDATE t SET x='new' WHERE id%2; DELETE FROM t WHERE id%10=4; INSERT INTO t SELECT id+1000, x FROM t" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  std::string old = q( P( "a.db" ), "SELECT * FROM t" ), now = q( P( "b.db" ), "SELECT * FROM t" );
  for ( int at = 0; at < 400; ++at )
  {
    unlink( P( "r.db" ).c_str() ); unlink( P( "r.db-journal" ).c_str() );
    cp( P( "a.db" ), P( "r.db" ) );
    pid_t p = fork();
    if ( !p ) { left = at; int rc = GEODIFF_applyChangeset( P( "r.db" ).c_str(), P( "c" ).c_str() ); left = -1; _exit( rc ? 98 : 0 ); }
    int st; waitpid( p, &st, 0 );
    CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) != 98 );
    CHECK( q( P( "r.db" ), "PRAGMA integrity_check" ) == "ok\\n" );
    std::string is = q( P( "r.db" ), "SELECT * FROM t" );
    CHECK( is == old || is == now );
    if ( WEXITSTATUS( st ) == 0 ) { CHECK( is == now ); break; }
  }'''),
dict(id="commit-per-table", prop="C12", edits=[(SD, '''      std::string tableName = entry.table->name;
      lastTableName = tableName;''', '''      const std::string tableName = entry.table->name;
      // do not let the transaction grow too large: what we have got so far applied cleanly
      if ( !lastTableName.empty() && !conflictCount )
        sqlite3_exec( mDb->get(), "RELEASE changeset_apply; SAVEPOINT changeset_apply", nullptr, nullptr, nullptr );
      lastTableName = tableName;''')],
  needs="a changeset with changes in several tables, and a process that reads the database while it is applied", breaks="others see the changes of some tables without those of the others",
  pre='''
static std::string seen;
static int onStatement( unsigned, void *c, void *, void * )
{
  // another process reads before each statement of ours
  sqlite3 *h = ( sqlite3 * )c; const char *f = sqlite3_db_filename( h, "main" );
  static bool busy = false;
  if ( busy ) return 0;
  busy = true;
  if ( f && *f && strstr( f, "r.db" ) ) seen += q( f, "SELECT (SELECT x FROM a), (SELECT x FROM b), (SELECT x FROM c)" );
  busy = false;
  return 0;
}
static int hook( sqlite3 *h, char **, const void * ) { sqlite3_trace_v2( h, SQLITE_TRACE_STMT, onStatement, h ); return SQLITE_OK; }
''',
  demo='''
  sql( P( "a.db" ), "CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT); CREATE TABLE b(id INTEGER PRIMARY KEY, x TEXT); CREATE TABLE c(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO a VALUES(1,'old'); INSERT INTO b VALUES(1,'old'); INSERT INTO c VALUES(1,'old');" );
  cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "r.db" ) );
  sql( P( "b.db" ), "UPDATE a SET x='new'; UPDATE b SET x='new'; UPDATE c SET x='new'" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  sql( P( "r.db" ), "PRAGMA journal_mode=WAL" );
  sqlite3_auto_extension( ( void (*)() )hook );
  int rc = GEODIFF_applyChangeset( P( "r.db" ).c_str(), P( "c" ).c_str() );
  sqlite3_cancel_auto_extension( ( void (*)() )hook );
  CHECK( rc == 0 );
  CHECK( q( P( "r.db" ), "SELECT x FROM c" ) == "new\\n" );
  std::istringstream s( seen ); std::string l; while ( std::getline( s, l ) ) CHECK( l == "old|old|old" || l == "new|new|new" );'''),
dict(id="contents-columns-not-reported", prop="C07", edits=[(GR, "( i == 4 )", "( i >= 4 )")],
  needs="both sides change the extent or CRS of a layer in gpkg_contents to different values", breaks="the conflict is not reported",
  pre=GP,
  demo='''
  sql( P( "a.db" ), GPKG ); cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "c.db" ) );
  sql( P( "b.db" ), "UPDATE gpkg_contents SET max_x = 7, last_change = '2021'" ); sql( P( "c.db" ), "UPDATE gpkg_contents SET max_x = 9, last_change = '2022'" );
  CHECK( GEODIFF_rebase( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c.db" ).c_str(), P( "conf" ).c_str() ) == 0 );
  CHECK( ex( P( "conf" ) ) && rd( P( "conf" ) ).find( "gpkg_contents" ) != std::string::npos );
  CHECK( rd( P( "conf" ) ).find( "7" ) != std::string::npos && rd( P( "conf" ) ).find( "9" ) != std::string::npos );'''),
dict(id="crs-code-not-read", prop="C18", edits=[(SD, "    tbl.crs.authCode = sqlite3_column_int( stmtCrs.get(), 3 );\n", "")],
  needs="two GeoPackages whose layers use the same CRS id, defined with another code", breaks="a changeset is created between layers in different coordinate systems",
  pre=GP,
  demo='''
  sql( P( "a.db" ), GPKG ); cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "c.db" ) );
  sql( P( "b.db" ), "UPDATE pts SET name = 'b'" ); sql( P( "c.db" ), "UPDATE pts SET name = 'b'; UPDATE gpkg_spatial_ref_sys SET organization_coordsys_id = 31370" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "x" ).c_str() ) == 0 );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "c.db" ).c_str(), P( "y" ).c_str() ) != 0 );'''),
dict(id="tables-named-like-rtree", prop="C01", edits=[(SD, 'startsWith( tableName, "rtree_" )', 'startsWith( tableName, "rtree" )')],
  needs="a user table whose name starts with rtree, without an underscore", breaks="its changes are missing in the changeset",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE rtrees(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO rtrees VALUES(1,'oak')" );
  cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "r.db" ) ); sql( P( "b.db" ), "UPDATE rtrees SET x='elm'" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "x" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "r.db" ).c_str(), P( "x" ).c_str() ) == 0 );
  CHECK( q( P( "r.db" ), "SELECT x FROM rtrees" ) == "elm\\n" );'''),
dict(id="attach-path-unquoted", prop="C01", edits=[(SD, """sqlBuf.printf( "ATTACH '%q' AS aux",""", """sqlBuf.printf( "ATTACH '%s' AS aux",""")],
  needs="a base file in a directory (or with a name) that contains an apostrophe", breaks="no changeset can be created between such files", pre="#include <sys/stat.h>\n",
  demo='''
  mkdir( P( "it's" ).c_str(), 0755 );
  sql( P( "it's/a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'a')" );
  cp( P( "it's/a.db" ), P( "it's/b.db" ) ); sql( P( "it's/b.db" ), "UPDATE t SET x='n'" );
  CHECK( GEODIFF_createChangeset( P( "it's/a.db" ).c_str(), P( "it's/b.db" ).c_str(), P( "it's/c" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "it's/a.db" ).c_str(), P( "it's/c" ).c_str() ) == 0 );
  CHECK( q( P( "it's/a.db" ), "SELECT * FROM t" ) == q( P( "it's/b.db" ), "SELECT * FROM t" ) );
'''),
]
