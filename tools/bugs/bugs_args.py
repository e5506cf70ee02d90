GC, GR, DR = "geodiff/src/geodiff.cpp", "geodiff/src/geodiffrebase.cpp", "geodiff/src/driver.cpp"
BUGS = [
dict(id="rebase-missing-local", prop="C23", edits=[(GC, "if ( !fileexists( base ) || !fileexists( modified_their ) || !fileexists( modified ) )", "if ( !fileexists( base ) || !fileexists( modified_their ) )")],
  needs="rebase of a local file that does not exist while their side has no changes", breaks="success is reported for a file that is not there",
  demo="""
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'a');" ); cp( P( "a.db" ), P( "b.db" ) );
  CHECK( GEODIFF_rebase( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "none.db" ).c_str(), P( "conf" ).c_str() ) != 0 );"""),
dict(id="same-changeset-short-cut", prop="C23", edits=[(GR, """  if ( reader_BASE_THEIRS.isEmpty() )
  {""", """  if ( reader_BASE_THEIRS.isEmpty() || changeset_BASE_THEIRS == changeset_BASE_MODIFIED )
  {""")],
  needs="rebasing a changeset on top of itself, both given by the same path", breaks="the rebased changeset repeats the changes that are already there and cannot be applied",
  demo="""
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'a');" ); cp( P( "a.db" ), P( "b.db" ) ); sql( P( "b.db" ), "UPDATE t SET x='b'" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "d" ).c_str() ) == 0 );
  CHECK( GEODIFF_createRebasedChangesetEx( "sqlite", "", P( "a.db" ).c_str(), P( "d" ).c_str(), P( "d" ).c_str(), P( "o" ).c_str(), P( "conf" ).c_str() ) == 0 );
  CHECK( GEODIFF_applyChangeset( P( "b.db" ).c_str(), P( "o" ).c_str() ) == 0 );"""),
dict(id="copy-creates-first", prop="C23", edits=[(GC, """    // open source
    std::map<std::string, std::string> connSrc;
    connSrc["base"] = std::string( src );""", """    // create destination
    std::map<std::string, std::string> connDst;
    connDst["base"] = dst;
    if ( driverDstExtraInfo )
      connDst["conninfo"] = std::string( driverDstExtraInfo );
    driverDst->create( connDst, true );

    // open source
    std::map<std::string, std::string> connSrc;
    connSrc["base"] = std::string( src );"""), (GC, """    // create destination
    std::map<std::string, std::string> connDst;
    connDst["base"] = dst;
    if ( driverDstExtraInfo )
      connDst["conninfo"] = std::string( driverDstExtraInfo );
    driverDst->create( connDst, true );

    // create tables""", """    // create tables""")],
  needs="a copy from a source that cannot be opened over a destination that exists", breaks="the call fails and the destination has lost its data",
  demo="""
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'a');" );
  CHECK( GEODIFF_makeCopy( "sqlite", "", P( "none.db" ).c_str(), "sqlite", "", P( "a.db" ).c_str() ) != 0 );
  CHECK( GEODIFF_dumpData( "sqlite", "", P( "a.db" ).c_str(), P( "d" ).c_str() ) == 0 );
  CHECK( GEODIFF_changesCount( P( "d" ).c_str() ) == 1 );"""),
dict(id="driver-by-prefix", prop="C23", edits=[(DR, '  if ( driverName == "sqlite" )', '  if ( driverName.compare( 0, 6, "sqlite" ) == 0 )    // sqlite3 as well')],
  needs="a driver name that only begins like a known one", breaks="an unknown driver is accepted",
  demo="""
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'a');" );
  CHECK( GEODIFF_dumpData( "sqlite-encrypted", "", P( "a.db" ).c_str(), P( "d" ).c_str() ) != 0 );"""),
]
