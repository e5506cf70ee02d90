SD = "geodiff/src/drivers/sqlitedriver.cpp"; RB = "geodiff/src/geodiffrebase.cpp"; GD = "geodiff/src/geodiff.cpp"
CU = "geodiff/src/changesetutils.cpp"; CR = "geodiff/src/changesetreader.cpp"; CW = "geodiff/src/changesetwriter.cpp"
SU = "geodiff/src/drivers/sqliteutils.cpp"; TS = "geodiff/src/tableschema.h"; GU = "geodiff/src/geodiffutils.cpp"
BUGS = [
dict(id="double-single-precision", prop="C01", edits=[(SD, "return sqlite3_value_double( v1 ) == sqlite3_value_double( v2 );", "return ( float ) sqlite3_value_double( v1 ) == ( float ) sqlite3_value_double( v2 );")],
  needs="a REAL value changed by less than single precision", breaks="a tiny change of a double is left out of the changeset, so the replica keeps the old value",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x REAL, y TEXT); INSERT INTO t VALUES(1, 1000.000000001, 'a');" );
  cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "r.db" ) );
  sql( P( "b.db" ), "UPDATE t SET x=1000.000000002" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "r.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( q( P( "r.db" ), "SELECT printf('%!.17g', x) FROM t" ) == q( P( "b.db" ), "SELECT printf('%!.17g', x) FROM t" ) );'''),
dict(id="conflicts-per-table", prop="C03", edits=[
    (SD, "      std::string tableName = entry.table->name;\n      lastTableName = tableName;\n", "      const std::string tableName( entry.table->name );\n      if ( tableName != lastTableName )\n        conflictCount = 0;\n      lastTableName = tableName;\n")],
  needs="a changeset with changes in several tables and a conflict in a table that is not the last", breaks="conflicts in all but the last table are forgotten: the rest is committed and success reported",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE a(id INTEGER PRIMARY KEY, x TEXT); CREATE TABLE b(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO a VALUES(1,'a'); INSERT INTO b VALUES(1,'b');" );
  cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "r.db" ) );
  sql( P( "b.db" ), "UPDATE a SET x='n'; UPDATE b SET x='n';" );
  sql( P( "r.db" ), "UPDATE a SET x='other'" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "r.db" ).c_str(), P( "c" ).c_str() ) != 0 );
  CHECK( q( P( "r.db" ), "SELECT * FROM b" ) == "1|b\\n" );'''),
dict(id="fewer-columns-tolerated", prop="C09", edits=[(SD, "if ( tbl.columns.size() != entry.table->columnCount() )", "if ( tbl.columns.size() < entry.table->columnCount() )")], flags="-fsanitize=address",
  needs="a changeset whose table record claims fewer columns than the table has", breaks="values beyond the end of the entry are read",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT, y TEXT, z TEXT, u TEXT, v TEXT, w TEXT)" );
  wr( P( "c" ), std::string( "T\\x01\\x01t\\x00\\x12\\x00\\x01\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x01", 16 ) );
  CHECK( GEODIFF_applyChangeset( P( "a.db" ).c_str(), P( "c" ).c_str() ) != 0 );
  CHECK( q( P( "a.db" ), "SELECT count(*) FROM t" ) == "0\\n" );'''),
dict(id="invert-first-key-only", prop="C04", edits=[(CU, "          out.newValues[i].setUndefined();\n", "          out.newValues[i].setUndefined();\n          break;\n"),
    (CU, "if ( currentPkeys[i] && out.oldValues[i].type() == Value::TypeUndefined )", "if ( currentPkeys[i] && ( out.oldValues[i].type() == Value::TypeUndefined ) )")],
  needs="an update of a row in a table with a composite key", breaks="only the first key column is restored in the inverse of an update",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(k1 TEXT, k2 INTEGER, x TEXT, PRIMARY KEY(k1,k2)); INSERT INTO t VALUES('a',1,'x'),('a',2,'y')" );
  cp( P( "a.db" ), P( "b.db" ) );
  sql( P( "b.db" ), "UPDATE t SET x='n' WHERE k2=2" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( GEODIFF_invertChangeset( P( "c" ).c_str(), P( "i" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "b.db" ).c_str(), P( "i" ).c_str() ) == 0 );
  CHECK( q( P( "a.db" ), "SELECT * FROM t" ) == q( P( "b.db" ), "SELECT * FROM t" ) );'''),
dict(id="delete-of-nulled-row", prop="C05", edits=[(RB, "      const Value &patchedVal = patchedVals[i];\n      if ( patchedVal.type() != Value::TypeUndefined )", "      const Value &patchedVal = patchedVals[i];\n      if ( patchedVal.type() != Value::TypeUndefined && patchedVal.type() != Value::TypeNull )")],
  needs="they set a cell to NULL in a row we deleted", breaks="the rebased delete expects the base value and cannot be applied",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'x'),(2,'y')" );
  cp( P( "a.db" ), P( "t.db" ) ); cp( P( "a.db" ), P( "m.db" ) );
  sql( P( "t.db" ), "UPDATE t SET x=NULL WHERE id=2" ); sql( P( "m.db" ), "DELETE FROM t WHERE id=2" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "t.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( GEODIFF_createRebasedChangeset( P( "a.db" ).c_str(), P( "m.db" ).c_str(), P( "c" ).c_str(), P( "r" ).c_str(), P( "conf" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "t.db" ).c_str(), P( "r" ).c_str() ) == 0 );
  CHECK( q( P( "t.db" ), "SELECT * FROM t" ) == "1|x\\n" );'''),
dict(id="rebase-in-two-steps", prop="C06", edits=[
    (GD, "    bool error = concatChangesets( modified2base.path(), base2their, theirs2final.path(), modified2final.path() );", "    if ( GEODIFF_applyChangesetEx( driverName, driverExtraInfo, modified, modified2base.c_path() ) != GEODIFF_SUCCESS )\n    {\n      Logger::instance().error( \"Unable to perform GEODIFF_applyChangeset modified2base\" );\n      return GEODIFF_ERROR;\n    }\n    TmpFile nothing( root + \"_nothing.bin\" );\n    flushString( nothing.path(), std::string() );\n    bool error = concatChangesets( nothing.path(), base2their, theirs2final.path(), modified2final.path() );")],
  needs="a failure (fault, crash or a rebased changeset that cannot be applied) between the two steps", breaks="the local file is left at the base state, without our edits",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT UNIQUE); INSERT INTO t VALUES(1,'x'),(2,'y')" );
  cp( P( "a.db" ), P( "t.db" ) ); cp( P( "a.db" ), P( "m.db" ) );
  sql( P( "t.db" ), "UPDATE t SET x='n' WHERE id=2" ); sql( P( "m.db" ), "UPDATE t SET x='n' WHERE id=1" );
  std::string before = q( P( "m.db" ), "SELECT * FROM t" );
  CHECK( GEODIFF_rebase( P( "a.db" ).c_str(), P( "t.db" ).c_str(), P( "m.db" ).c_str(), P( "conf" ).c_str() ) != 0 );
  CHECK( q( P( "m.db" ), "SELECT * FROM t" ) == before );'''),
dict(id="cleared-value-no-conflict", prop="C07", edits=[(RB, "  if ( ( conflictFeature.tableName() == \"gpkg_contents\" ) && ( i == 4 ) )\n    return;", "  if ( ( conflictFeature.tableName() == \"gpkg_contents\" ) && ( i == 4 ) )\n    return;\n  if ( theirs.type() == Value::TypeNull )\n    return;  // no value of theirs gets lost"),
    (RB, "  // ok safe to add it\n  ConflictItem item( i, base, theirs, ours );", "  // safe to add it\n  ConflictItem item( i, base, theirs, ours );")],
  needs="they set a cell to NULL that we changed to something else", breaks="the conflict is not reported",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'x'),(2,'y')" );
  cp( P( "a.db" ), P( "t.db" ) ); cp( P( "a.db" ), P( "m.db" ) );
  sql( P( "t.db" ), "UPDATE t SET x=NULL WHERE id=2" ); sql( P( "m.db" ), "UPDATE t SET x='ours' WHERE id=2" );
  CHECK( GEODIFF_rebase( P( "a.db" ).c_str(), P( "t.db" ).c_str(), P( "m.db" ).c_str(), P( "conf" ).c_str() ) == 0 );
  CHECK( ex( P( "conf" ) ) );'''),
dict(id="short-read-accepted", prop="C08", edits=[(GU, "  if ( mAlloc != fread( mZ, 1, mAlloc, fp ) )\n", "  // the file may be shorter than it was a moment ago\n  mUsed = mAlloc = fread( mZ, 1, mAlloc, fp );\n  if ( mAlloc > static_cast<size_t>( off_end ) )\n")],
  needs="a read error at the start of a changeset (or at the end of a record)", breaks="the unreadable changeset is taken for an empty one and the call reports success",
  pre="#include <dlfcn.h>\nstatic bool gFail = false;\nextern \"C\" size_t fread( void *p, size_t a, size_t b, FILE *f ) { static size_t ( *r )( void *, size_t, size_t, FILE * ) = ( size_t ( * )( void *, size_t, size_t, FILE * ) ) dlsym( RTLD_NEXT, \"fread\" ); return gFail ? 0 : r( p, a, b, f ); }\n",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT);" );
  cp( P( "a.db" ), P( "b.db" ) );
  sql( P( "b.db" ), "INSERT INTO t VALUES(1,'x'),(2,'y');" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( GEODIFF_invertChangeset( P( "c" ).c_str(), P( "i" ).c_str() ) == 0 );
  gFail = true;    // input/output error
  int rc = GEODIFF_invertChangeset( P( "c" ).c_str(), P( "i2" ).c_str() ), n = GEODIFF_hasChanges( P( "c" ).c_str() );
  gFail = false;
  CHECK( rc != 0 || rd( P( "i" ) ) == rd( P( "i2" ) ) );
  CHECK( n != 0 );'''),
dict(id="blob-length-ignored", prop="C10", edits=[(SD, "    if ( len1 != len2 )\n      return false;\n    return memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 ) == 0;", "    return memcmp( sqlite3_value_blob( v1 ), sqlite3_value_blob( v2 ), len1 < len2 ? len1 : len2 ) == 0;")],
  needs="a blob of which the old value is a prefix of the new one or the other way round", breaks="the update names no changed value (blob cut or extended)",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x BLOB); INSERT INTO t VALUES(1,x'010203')" );
  cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "r.db" ) );
  sql( P( "b.db" ), "UPDATE t SET x=x'01020304'" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( rd( P( "c" ) ).find( std::string( "\\x04\\x04\\x01\\x02\\x03\\x04", 6 ) ) != std::string::npos );'''),
dict(id="listing-32-bit", prop="C11", edits=[(CU, "      return std::to_string( value.getInt() );", "      return std::to_string( static_cast<int>( value.getInt() ) );")],
  needs="an integer beyond 32 bits", breaks="listed integers are cut to 32 bits",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x INTEGER);" );
  cp( P( "a.db" ), P( "b.db" ) );
  sql( P( "b.db" ), "INSERT INTO t VALUES(1,5000000000)" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( GEODIFF_listChanges( P( "c" ).c_str(), P( "j" ).c_str() ) == 0 );
  CHECK( rd( P( "j" ) ).find( "5000000000" ) != std::string::npos );'''),
dict(id="shared-base2theirs", prop="C13", edits=[(GD, '  TmpFile base2theirs( root + "_base2theirs.bin" );', '  TmpFile base2theirs( tmpdir() + "geodiff_base2theirs.bin" );')],
  needs="two processes rebasing different files at the same time with one temporary directory", breaks="one process reads the other's temporary changeset",
  demo='''
  // the other process is between writing its temporary file and reading it: seen from here, a file of that name is in use.
  // stands for the race: a file any two rebases of unrelated files both touch
  for ( const char *d : { "x", "y" } )
  {
    std::string s = P( d );
    sql( s + "a.db", "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'x'),(2,'y')" );
    cp( s + "a.db", s + "t.db" ); cp( s + "a.db", s + "m.db" );
    sql( s + "t.db", "UPDATE t SET x='n' WHERE id=2" ); sql( s + "m.db", "UPDATE t SET x='n' WHERE id=1" );
  }
  int bad = 0;
  for ( int round = 0; round < 150 && !bad; ++round )
  {
    pid_t pids[8];
    for ( int k = 0; k < 8; ++k )
    {
      std::string s = P( "p" + std::to_string( k ) );
      cp( P( "xa.db" ), s + "a.db" ); cp( P( "xt.db" ), s + "t.db" ); cp( P( "xm.db" ), s + "m.db" );
      if ( k % 2 ) sql( s + "t.db", "INSERT INTO t VALUES(100,'more')" );
      pids[k] = fork();
      if ( pids[k] == 0 )
      {
        int rc = GEODIFF_rebase( ( s + "a.db" ).c_str(), ( s + "t.db" ).c_str(), ( s + "m.db" ).c_str(), ( s + "conf" ).c_str() );
        std::string want = k % 2 ? "1|n\\n2|n\\n100|more\\n" : "1|n\\n2|n\\n";
        _exit( rc != 0 || q( s + "m.db", "SELECT * FROM t" ) != want );
      }
    }
    for ( int k = 0; k < 8; ++k ) { int st; waitpid( pids[k], &st, 0 ); if ( st ) bad = 1; }
  }
  CHECK( !bad );'''),
dict(id="base2modified-left", prop="C14", edits=[
    (GD, '    TmpFile base2modified( root + "_base2modified.bin" );\n    if ( GEODIFF_createChangesetEx( driverName, driverExtraInfo, base, modified, base2modified.c_path() ) != GEODIFF_SUCCESS )', '    const std::string base2modifiedPath = root + "_base2modified.bin";\n    if ( GEODIFF_createChangesetEx( driverName, driverExtraInfo, base, modified, base2modifiedPath.c_str() ) != GEODIFF_SUCCESS )'),
    (GD, '    // situation 2: we do not have changes (modified == base), so result is modified_theirs\n', '    TmpFile base2modified( base2modifiedPath );   // removed when done\n\n    // situation 2: we do not have changes (modified == base), so result is modified_theirs\n')],
  needs="rebasing when our changes cannot be determined (schema changed, or an I/O error)", breaks="a temporary file is left behind",
  pre="#include <dirent.h>\n", demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'x')" );
  cp( P( "a.db" ), P( "t.db" ) ); cp( P( "a.db" ), P( "m.db" ) );
  sql( P( "t.db" ), "UPDATE t SET x='n'" ); sql( P( "m.db" ), "ALTER TABLE t ADD COLUMN y TEXT" );
  CHECK( GEODIFF_rebase( P( "a.db" ).c_str(), P( "t.db" ).c_str(), P( "m.db" ).c_str(), P( "conf" ).c_str() ) != 0 );
  int n = 0; DIR *d = opendir( getenv( "TMPDIR" ) ); while ( struct dirent *e = readdir( d ) ) if ( e->d_name[0] != '.' ) ++n;
  CHECK( n == 0 );'''),
dict(id="dump-by-rowid", prop="C17", edits=[(SD, '    statementI.prepare( mDb, "SELECT * FROM \\"%w\\".\\"%w\\"", dbName.c_str(), tableName.c_str() );', '    bool intKey = false;\n    for ( const TableColumnInfo &c : tbl.columns )\n      intKey = intKey || ( c.isPrimaryKey && c.isAutoIncrement );\n    // in the order of ids, so that dumps can be compared\n    statementI.prepare( mDb, intKey ? "SELECT * FROM \\"%w\\".\\"%w\\" WHERE rowid > 0 ORDER BY rowid" : "SELECT * FROM \\"%w\\".\\"%w\\"", dbName.c_str(), tableName.c_str() );')],
  needs="rows with zero or negative integer keys", breaks="such rows are left out of a dump", demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(-5,'x'),(1,'y')" );
  sql( P( "e.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT)" );
  CHECK( GEODIFF_dumpData( "sqlite", nullptr, P( "a.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "e.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( q( P( "e.db" ), "SELECT * FROM t" ) == "-5|x\\n1|y\\n" );'''),
dict(id="notnull-not-compared", prop="C18", edits=[(TS, "           isNotNull == other.isNotNull && isAutoIncrement == other.isAutoIncrement &&", "           isAutoIncrement == other.isAutoIncrement &&")],
  needs="the modified version differs only in a NOT NULL constraint", breaks="the two versions are diffed although their definitions differ", demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'x')" );
  sql( P( "b.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT NOT NULL); INSERT INTO t VALUES(1,'y')" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) != 0 );'''),
dict(id="triggers-dropped-early", prop="C19", edits=[
    (SD, "  // start transaction!\n  Sqlite3SavepointTransaction savepointTransaction( mDb );\n\n", ""),
    (SD, "  int conflictCount = 0;\n  ChangesetEntry entry;\n  while ( reader.nextEntry( entry ) )\n  {\n    if ( !stmtInsert ", "  // start transaction!\n  Sqlite3SavepointTransaction savepointTransaction( mDb );\n\n  int conflictCount = 0;\n  ChangesetEntry entry;\n  while ( reader.nextEntry( entry ) )\n  {\n    if ( !stmtInsert ")],
  needs="applying a changeset that is refused (or is interrupted) to a file with user triggers", breaks="the triggers are gone",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); CREATE TABLE l(x TEXT); INSERT INTO t VALUES(1,'x'); CREATE TRIGGER tr AFTER UPDATE ON t BEGIN INSERT INTO l VALUES(1); END;" );
  cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "r.db" ) );
  sql( P( "b.db" ), "UPDATE t SET x='n'" ); sql( P( "r.db" ), "UPDATE t SET x='other'" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "r.db" ).c_str(), P( "c" ).c_str() ) != 0 );
  CHECK( q( P( "r.db" ), "SELECT count(*) FROM sqlite_master WHERE type='trigger'" ) == "1\\n" );'''),
]
