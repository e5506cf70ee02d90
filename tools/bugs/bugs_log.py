SD = "geodiff/src/drivers/sqlitedriver.cpp"; RB = "geodiff/src/geodiffrebase.cpp"; GD = "geodiff/src/geodiff.cpp"; GL = "geodiff/src/geodifflogger.cpp"; PY = "pygeodiff/geodifflib.py"
PRE = '''
static std::vector<std::pair<int, std::string>> msgs;
static void cb( enum GEODIFF_LoggerLevel l, const char *m ) { msgs.push_back( { l, m } ); }
static int has( int l ) { int n = 0; for ( auto &m : msgs ) if ( m.first == l ) ++n; return n; }
'''
GI = "geodiff/src/geodiffinfo.cpp"
TOOL = """
#include <iostream>
int geodiffinfo_main( int argc, char *argv[] );
static int tool( std::vector<std::string> a ) { a.insert( a.begin(), "geodiffinfo" ); std::vector<char *> p; for ( auto &x : a ) p.push_back( &x[0] ); p.push_back( nullptr ); return geodiffinfo_main( ( int )a.size(), p.data() ); }
"""
BUGS = [
dict(id="repeated-messages-suppressed", prop="C20", pre=PRE, edits=[(GL, '''      // Send to callback
      mLoggerCallback( level, msg.c_str() );''', '''      // Send to callback (once, a retry loop would fill the log)
      static std::string lastMsg;
      if ( msg != lastMsg )
        mLoggerCallback( level, ( lastMsg = msg ).c_str() );''')],
  needs="the same message twice in a row, for example a call that fails again for the same reason", breaks="the second failure is silent",
  demo='''
  GEODIFF_setLoggerCallback( &cb ); GEODIFF_setMaximumLoggerLevel( LevelError );
  for ( int i = 1; i < 4; ++i ) { CHECK( GEODIFF_listChanges( P( "no such file" ).c_str(), P( "j" ).c_str() ) != 0 ); CHECK( has( 1 ) >= i ); }'''),
dict(id="warnings-need-info", prop="C20", pre=PRE, edits=[(SD, '''  Logger::instance().warn( "CONFLICT: " + type + ":\\n" + changesetEntryToJSON( entry ) );''', '''  // converting a large entry to JSON takes a while
  if ( Logger::instance().maxLogLevel() > GEODIFF_LoggerLevel::LevelWarning )
    Logger::instance().warn( "CONFLICT: " + type + ":\\n" + changesetEntryToJSON( entry ) );''')],
  needs="a conflict while the level is exactly that of warnings", breaks="conflicts are not reported although warnings are asked for",
  demo='''
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'a');" );
  cp( P( "a.db" ), P( "b.db" ) ); sql( P( "b.db" ), "UPDATE t SET x='b'" );
  CHECK( GEODIFF_createChangeset( P( "a.db" ).c_str(), P( "b.db" ).c_str(), P( "c" ).c_str() ) == 0 );
  GEODIFF_setLoggerCallback( &cb );
  for ( int l = 1; l <= 4; ++l )
  {
    msgs.clear(); GEODIFF_setMaximumLoggerLevel( ( GEODIFF_LoggerLevel ) l );
    CHECK( GEODIFF_applyChangeset( P( "b.db" ).c_str(), P( "c" ).c_str() ) != 0 );
    CHECK( has( 2 ) == ( l >= 2 ) );
  }'''),
dict(id="python-callback-not-kept", prop="C21", edits=[(PY, '''        # do not remove self, callback needs to be member
        self.callbackLogger = CMPFUNC(callback)
        func(self.callbackLogger)''', '''        self.loggerCallback = callback
        func(CMPFUNC(callback))''')],
  needs="a garbage collection between setting the callback and a message", breaks="the C library calls freed memory",
  demo_py='''
import os
got = []
def cb(level, msg): got.append((level, msg))
g.set_logger_callback(cb)
gc.collect()
def other(level, msg): got.append("other")
traps = [ctypes.CFUNCTYPE(None, ctypes.c_int, ctypes.c_char_p)(other) for _ in range(64)]
stub.stub_log(1, b"message")
check(got == [(1, b"message")], "the message reaches the callback")'''),
dict(id="python-unknown-codes-pass", prop="C21", edits=[(PY, '''    if rc == SUCCESS:
        return
    elif rc == ERROR:''', '''    if rc <= SUCCESS:
        return
    elif rc == ERROR:''')],
  needs="a return code below zero", breaks="a failure is taken for success",
  demo_py='''
for v, e in ((0, None), (1, "GeoDiffLibError"), (2, "GeoDiffLibConflictError"), (3, "GeoDiffLibUnsupportedChangeError"), (4, "GeoDiffLibVersionError"), (-1, "GeoDiffLibVersionError")):
    ret(v)
    check(raised(g.apply_changeset, "a", "b") == e, f"code {v} raises {e}")'''),
dict(id="python-conflict-path-latin1", prop="C21", edits=[(PY, '''        b_string4 = conflict.encode('utf-8')
        res = func(b_string1''', '''        b_string4 = conflict.encode('latin-1', 'replace')
        res = func(b_string1''')],
  needs="a conflict file with a name beyond ASCII in rebase", breaks="the report is written under another name",
  demo_py='''
g.rebase("a", "b", "c", "p\\u0159eklad.json")
check(calls[-1] == ("rebase", [b"a", b"b", b"c", "p\\u0159eklad.json".encode()]), "paths arrive as UTF-8")'''),
dict(id="tool-copy-source-connection", prop="C22", tool=1, pre=TOOL, edits=[(GI, "GEODIFF_makeCopy( argv[2], argv[3], argv[4], argv[5], argv[6], argv[7] )", "GEODIFF_makeCopy( argv[2], argv[3], argv[4], argv[5], argv[6][0] && argv[3][0] ? argv[6] : argv[3], argv[7] )")],
  needs="makeCopy through the tool from a GeoPackage (no extra info) to a PostgreSQL schema", breaks="the destination is opened without the connection string that was given",
  demo_pg="""
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'a');" );
  CHECK( tool( { "makeCopy", "sqlite", "", P( "a.db" ), "postgres", "host=simpg", "s" } ) == 0 );
  CHECK( pq( "SELECT count(*) FROM s.t" ) == "1\\n" );"""),
dict(id="level-zero-is-unset", prop="C22", tool=1, pre=TOOL, edits=[(GL, "  if ( envLevel >= 0 && envLevel <=", "  if ( envLevel > 0 && envLevel <=")],
  needs="GEODIFF_LOGGER_LEVEL=0 and a call that fails", breaks="messages are printed although nothing was to be printed",
  demo="""
  setenv( "GEODIFF_LOGGER_LEVEL", "0", 1 );
  CHECK( freopen( P( "err" ).c_str(), "w", stderr ) );
  CHECK( tool( { "listChanges", P( "none" ), P( "j" ) } ) == 1 );
  std::cerr.flush(); fflush( stderr );
  FILE *f = fopen( P( "err" ).c_str(), "r" ); fseek( f, 0, SEEK_END );
  CHECK( ftell( f ) == 0 );"""),
dict(id="tool-last-argument-optional", prop="C22", tool=1, pre=TOOL, edits=[(GI, """  if ( argc < 1 + 6 )
  {
    return err( "invalid number of arguments to createRebasedChangeset" );
  }

  int ret = GEODIFF_createRebasedChangeset( argv[2], argv[3], argv[4], argv[5], argv[6] );""", """  if ( argc < 1 + 5 )
  {
    return err( "invalid number of arguments to createRebasedChangeset" );
  }

  // conflicts go next to the changeset if no other file was given
  int ret = GEODIFF_createRebasedChangeset( argv[2], argv[3], argv[4], argv[5], argc > 6 ? argv[6] : argv[5] );""")],
  needs="createRebasedChangeset through the tool without the conflict file", breaks="missing arguments are accepted, and the changeset is overwritten by a conflict report",
  demo="""
  sql( P( "a.db" ), "CREATE TABLE t(id INTEGER PRIMARY KEY, x TEXT); INSERT INTO t VALUES(1,'a');" );
  cp( P( "a.db" ), P( "b.db" ) ); cp( P( "a.db" ), P( "c.db" ) ); sql( P( "b.db" ), "UPDATE t SET x='b'" ); sql( P( "c.db" ), "UPDATE t SET x='c'" );
  CHECK( tool( { "createChangeset", P( "a.db" ), P( "b.db" ), P( "b.diff" ) } ) == 0 );
  CHECK( tool( { "createRebasedChangeset", P( "a.db" ), P( "c.db" ), P( "b.diff" ), P( "out" ) } ) != 0 );
  CHECK( !fopen( P( "out" ).c_str(), "r" ) );"""),
]
