// Scenarios C12 (one consistent state), C17 (complete dumps and copies), C18 (refusals), C19 (user triggers).
// The PostgreSQL halves of C12 and C17 are in scen_pg.cpp.
#include "scen.h"
#include "scen_pg.h"
#include <algorithm>

namespace sim {

// ------------------------------------------------------------------ C12
namespace {
struct Commit { uint64_t from, to; std::string file; DbState st; };

// an application committing transactions to one database; every committed state is kept
struct Writer
{
  std::string db, tag;
  const World *w = nullptr;
  int txs = 3, opsPerTx = 3;
  std::vector<Commit> commits;      // [0]: the state before the run
  int failed = 0;
  void keep( uint64_t from, uint64_t to )
  {
    std::string f = strf( "/sim/o/hist_%s_%zu", tag.c_str(), commits.size() );
    fsCopyDb( db, f );
    commits.push_back( { from, to, f, DbState() } );
  }
  int run()
  {
    HarnessScope hs;
    Db d( db );
    sqlite3_busy_timeout( d.h, 0 );
    for ( int t = 0; t < txs; ++t )
    {
      yieldNow();
      int tries = 0, rc;
      while ( ( rc = d.tryExec( "BEGIN IMMEDIATE" ) ) == SQLITE_BUSY && ++tries < 12 ) yieldNow();
      if ( rc != SQLITE_OK ) { ++failed; continue; }
      appEditOn( d, w->sp, w->g, ec( opsPerTx, 5 + t ) );
      uint64_t from = g_events;
      tries = 0;
      while ( ( rc = d.tryExec( "COMMIT" ) ) == SQLITE_BUSY && ++tries < 25 ) { yieldNow(); }
      if ( rc != SQLITE_OK ) { d.tryExec( "ROLLBACK" ); ++failed; continue; }
      keep( from, g_events );
      probe( "writer_commits" );
    }
    return 0;
  }
  void read() { for ( auto &c : commits ) c.st = mustRead( c.file, "setup", "committed state" ); }
  // states that were current at some instant of [b,e]
  std::vector<size_t> window( uint64_t b, uint64_t e ) const
  {
    std::vector<size_t> r;
    for ( size_t j = 0; j < commits.size(); ++j )
    {
      if ( commits[j].from > e ) continue;
      if ( j + 1 < commits.size() && commits[j + 1].to < b ) continue;
      r.push_back( j );
    }
    return r;
  }
};

bool sameMap( const ChangeMap &a, const ChangeMap &b ) { return diffMaps( a, b ).empty(); }

void c12Diff()
{
  GenCfg g; g.fk = ch.chance( 20 ); g.unique = false; g.wide = ch.chance( 8 );
  World w = mkPair( g, ch.range( 1, 6 ), ch.range( 0, 5 ) );
  Writer wm, wb;
  wm.db = w.path( "mod.gpkg" ); wm.tag = "m"; wm.w = &w; wm.txs = ch.range( 1, 4 ); wm.opsPerTx = ch.range( 1, 5 );
  wb.db = w.path( "base.gpkg" ); wb.tag = "b"; wb.w = &w; wb.txs = ch.range( 1, 3 ); wb.opsPerTx = ch.range( 1, 4 );
  wm.keep( 0, 0 ); wb.keep( 0, 0 );
  int kind = ( int )ch.weighted( { 5, 3, 2 } );     // createChangeset, dump, createRebasedChangeset
  std::string out = w.path( "d.diff" ), conf = w.path( "c.json" ), t = w.path( "t.diff" );
  if ( kind == 2 )
  {
    fsCopyDb( w.path( "base.gpkg" ), w.path( "their.gpkg" ) );
    appEdit( w.path( "their.gpkg" ), w.sp, g, ec( ch.range( 1, 4 ), 2 ) );
    mustOk( cCreate( w.path( "base.gpkg" ), w.path( "their.gpkg" ), t, 0 ), "create-failed" );
  }
  fsSyncAll();
  ApiCall ca = kind == 0 ? cCreate( w.path( "base.gpkg" ), wm.db, out ) : kind == 1 ? cDump( wm.db, out ) : cRebased( w.path( "base.gpkg" ), wm.db, t, out, conf, 0 );
  bool both = kind == 0 && ch.chance( 40 );
  int other = kind == 0 && !both ? ch.choose( 4 ) == 0 : 0;       // 1: only the base is written
  uint64_t b = 0, e = 0;
  Proc *p = newProc( ca.name );
  OpCounts oc = dryRun( ca );
  if ( ch.chance( 12 ) ) { Fault f = pickFault( oc, FS_DB | FS_STREAM | FS_MEM | FS_LOCK | FS_BENIGN ); if ( f.kind != F_NONE ) p->faults.push_back( f ); }
  std::vector<std::pair<Proc *, std::function<int()>>> fns;
  fns.push_back( { p, [&]() { b = g_events; int r = ca.fn(); e = g_events; return r; } } );
  if ( !other || both ) fns.push_back( { newProc( "writer" ), [&]() { return wm.run(); } } );
  if ( other || both ) fns.push_back( { newProc( "base writer" ), [&]() { return wb.run(); } } );
  uint64_t ops = 0; for ( uint64_t n : oc.n ) ops += n;
  int budget = ch.range( 2, 16 );
  g_lastLog.clear();
  auto res = runConcurrent( fns, budget, ( int )std::max<uint64_t>( 2, ops * 3 / budget ) );
  std::string log = g_lastLog;
  if ( res[0].exc && ca.name.find( "[cli]" ) == std::string::npos ) violate( "exception-escaped", "%s: %s", ca.name.c_str(), res[0].excText.c_str() );
  wm.read(); wb.read();
  for ( auto &c : wm.commits ) g_stats.states.insert( c.st.hash() );
  auto wj = wm.window( b, e ), wi = wb.window( b, e );
  sampleAdd( "%s journal=%s, %zu+%zu commits, %zu of them in the window, rc %d", ca.name.c_str(), w.sp.journal.c_str(), wm.commits.size() - 1, wb.commits.size() - 1, ( wj.size() - 1 ) + ( wi.size() - 1 ), res[0].done ? res[0].rc : -99 );
  g_nontrivial = wj.size() > 1 || wi.size() > 1;
  if ( wj.size() > 1 || wi.size() > 1 ) probe( "commits_inside_a_call" );
  if ( !res[0].done || res[0].exc || res[0].rc != 0 ) { probe( "diff_refused" ); return; }
  probe( g_nontrivial ? "diff_ok_with_commits_inside" : "diff_ok" );
  Changeset c = parseCs( fsRead( out ) );
  if ( !c.ok ) violate( "format", "%s: %s", ca.name.c_str(), c.err.c_str() );
  if ( kind == 2 )
  {
    // the same call on each of the quiescent states
    for ( size_t j : wj )
    {
      std::string q = w.path( "quiet.diff" ), qc = w.path( "quiet.json" );
      Outcome o = call( cRebased( w.path( "base.gpkg" ), wm.commits[j].file, t, q, qc, 0 ) );
      if ( o.ok() && fsRead( q ) == fsRead( out ) ) return;
    }
    violate( "mixed-states", "%s: the result is not that of any of the %zu states the modified file had during the call", ca.name.c_str(), wj.size() );
  }
  ChangeMap got; std::string er = toMap( c, got );
  if ( !er.empty() ) violate( "mixed-states", "%s: %s", ca.name.c_str(), er.c_str() );
  for ( size_t i : wi ) for ( size_t j : wj )
      if ( sameMap( refDiff( kind == 1 ? emptied( wm.commits[j].st ) : wb.commits[i].st, wm.commits[j].st ), got ) ) return;
  std::string d = diffMaps( refDiff( kind == 1 ? emptied( wm.commits[wj[0]].st ) : wb.commits[wi[0]].st, wm.commits[wj[0]].st ), got );
  violate( "mixed-states", "%s: the result describes none of the %zu base x %zu modified states during the call; against the first: %s", ca.name.c_str(), wi.size(), wj.size(), d.c_str() );
}

typedef std::map<std::string, std::set<Row>> Image;
const char *LOGT = "app_log";

// every table but the log, in one transaction, yielding in between
int readImage( Db &d, const std::vector<std::string> &tables, Image &im )
{
  int rc = d.tryExec( "BEGIN" );
  if ( rc != SQLITE_OK ) return rc;
  for ( auto &t : tables )
  {
    std::vector<Row> rows;
    rc = d.tryQuery( "SELECT * FROM " + qi( t ), rows );
    if ( rc != SQLITE_DONE ) { d.tryExec( "ROLLBACK" ); return rc; }
    auto &s = im[t]; for ( auto &r : rows ) s.insert( r );
    if ( ch.chance( 30 ) ) yieldNow();
  }
  d.tryExec( "COMMIT" );
  return SQLITE_OK;
}

void c12Apply()
{
  GenCfg g; g.fk = ch.chance( 20 ); g.unique = false; g.wide = false;
  World w = mkPair( g, ch.range( 1, 6 ), ch.range( 1, 8 ) );
  std::string base = w.path( "base.gpkg" ), mod = w.path( "mod.gpkg" ), their = w.path( "their.gpkg" ), d = w.path( "d.diff" ), t = w.path( "target.gpkg" );
  mustOk( cCreate( base, mod, d, 0 ), "create-failed" );
  int kind = ( int )ch.weighted( { 6, 3, 2 } );       // apply, rebaseEx, two appliers of the same changeset
  if ( kind == 1 )
  {
    fsCopyDb( base, their );
    appEdit( their, w.sp, g, ec( ch.range( 1, 5 ), 2 ) );
    mustOk( cCreate( base, their, w.path( "t.diff" ), 0 ), "create-failed" );
    fsCopyDb( mod, t );
  }
  else fsCopyDb( base, t );
  ApiCall ca = kind == 1 ? cRebaseEx( base, t, w.path( "t.diff" ), w.path( "c.json" ), 0 ) : cApply( t, d, 0 );
  Outcome quiet; DbState after;
  fsSyncAll();
  DbState before = mustRead( t, "setup", "target" );
  OpCounts oc = dryRun( ca, &quiet, [&]() { after = mustRead( t, "unusable", "target" ); } );
  if ( kind == 1 && !quiet.ok() ) { sampleAdd( "rebase not possible" ); return; }
  if ( !quiet.ok() ) violate( "apply-failed", "%s failed without any fault (rc %d): %s", ca.name.c_str(), quiet.rc, quiet.log.c_str() );
  // the log table of another application, next to the data
  bool logger = ch.chance( 50 );
  if ( logger && kind != 1 ) { Db x( t ); x.exec( strf( "CREATE TABLE %s(n INTEGER)", LOGT ) ); x.close(); fsSyncAll(); }
  else logger = false;
  std::vector<std::string> tables;
  Image imBefore, imAfter;
  { Db x( t ); for ( auto &r : x.query( "SELECT name, sql FROM sqlite_master WHERE type='table' ORDER BY name" ) ) if ( r[1].s.compare( 0, 14, "CREATE VIRTUAL" ) != 0 && r[0].s.compare( 0, 6, "rtree_" ) != 0 && r[0].s != LOGT && r[0].s != "sqlite_sequence" ) tables.push_back( r[0].s ); readImage( x, tables, imBefore ); }
  {
    std::string q = "/sim/o/quiet.gpkg";
    fsRemoveDb( q ); fsCopyDb( t, q );
    Outcome o = call( kind == 1 ? cRebaseEx( base, q, w.path( "t.diff" ), "/sim/o/q.json", 0 ) : cApply( q, d, 0 ) );
    if ( !o.ok() ) violate( "apply-failed", "%s failed without any fault (rc %d): %s", ca.name.c_str(), o.rc, o.log.c_str() );
    Db x( q ); readImage( x, tables, imAfter );
  }
  fsSyncAll();
  int reads = 0, sawAfter = 0, logged = 0, torn = 0; std::string tornText;
  bool sawNew = false, backwards = false;
  auto reader = [&]() -> int
  {
    HarnessScope hs;
    int n = ch.range( 2, 6 );
    std::unique_ptr<Db> x;
    for ( int i = 0; i < n; ++i )
    {
      yieldNow();
      if ( !x || ch.chance( 50 ) ) { x.reset(); x.reset( new Db( t ) ); }
      Image im;
      int rc = readImage( *x, tables, im );
      if ( rc == SQLITE_BUSY || rc == SQLITE_BUSY_SNAPSHOT || rc == SQLITE_BUSY_RECOVERY ) continue;
      if ( rc != SQLITE_OK ) { if ( ( rc & 255 ) == SQLITE_BUSY || ( rc & 255 ) == SQLITE_LOCKED || rc == SQLITE_PROTOCOL ) continue; herr( "reader: sqlite error %d", rc ); }
      ++reads;
      bool isB = im == imBefore, isA = im == imAfter;
      if ( isA && !isB ) { ++sawAfter; sawNew = true; }
      if ( isB && !isA && sawNew ) backwards = true;
      if ( !isA && !isB )
      {
        ++torn;
        for ( auto &k : im ) if ( tornText.empty() && k.second != imBefore[k.first] ) tornText = "table " + k.first + ( k.second == imAfter[k.first] ? " is new, others are not" : " is neither old nor new" );
      }
    }
    return 0;
  };
  auto logw = [&]() -> int
  {
    HarnessScope hs;
    Db x( t );
    int n = ch.range( 1, 5 );
    for ( int i = 0; i < n; ++i )
    {
      int tries = 0, rc;
      while ( ( rc = x.tryExec( strf( "INSERT INTO %s VALUES(%d)", LOGT, i ) ) ) == SQLITE_BUSY && ++tries < 15 ) yieldNow();
      if ( rc == SQLITE_OK ) ++logged;
      yieldNow();
    }
    return 0;
  };
  Proc *p = newProc( ca.name );
  bool faulty = ch.chance( 25 );
  if ( faulty ) { Fault f = pickFault( oc, FS_DB | FS_STREAM | FS_MEM | FS_LOCK | FS_BENIGN ); if ( f.kind == F_NONE ) faulty = false; else p->faults.push_back( f ); }
  else if ( ch.chance( 15 ) ) { Fault f; f.kind = F_KILL; uint64_t tot = 0; for ( uint64_t n : oc.n ) tot += n; f.at = 1 + ch.choose( ( uint32_t )tot ); p->faults.push_back( f ); }
  std::vector<std::pair<Proc *, std::function<int()>>> fns;
  fns.push_back( { p, ca.fn } );
  fns.push_back( { newProc( "reader" ), reader } );
  ApiCall second = cApply( t, d, 0 );
  if ( kind == 2 ) fns.push_back( { newProc( "second " + second.name ), second.fn } );
  if ( logger ) fns.push_back( { newProc( "log writer" ), logw } );
  uint64_t ops = 0; for ( uint64_t n : oc.n ) ops += n;
  int budget = ch.range( 2, 16 );
  g_lastLog.clear();
  auto res = runConcurrent( fns, budget, ( int )std::max<uint64_t>( 2, ops * 3 / budget ) );
  sampleAdd( "%s journal=%s%s%s, %d consistent reads, rc %d", ca.name.c_str(), w.sp.journal.c_str(), logger ? ", log writer" : "", kind == 2 ? ", two appliers" : "", reads, res[0].done ? res[0].rc : -99 );
  probe( "isolated_reads", reads ); probe( "reads_of_new_state", sawAfter );
  g_nontrivial = reads > 0 && imBefore != imAfter;
  if ( torn ) violate( "torn-read", "%s: another process read a state that is neither the one before nor the one after: %s", ca.name.c_str(), tornText.c_str() );
  if ( backwards ) violate( "torn-read", "%s: another process saw the new state and then the old one again", ca.name.c_str() );
  DbState fin = mustRead( t, "unusable", "target after the run" );
  Image im; { fsSyncAll(); std::string q = "/sim/o/fin.gpkg"; fsRemoveDb( q ); fsCopyDb( t, q ); Db x( q ); if ( readImage( x, tables, im ) != SQLITE_OK ) herr( "final read" ); }
  int okCount = res[0].done && !res[0].exc && res[0].rc == 0;
  if ( kind == 2 && res[2].done && !res[2].exc && res[2].rc == 0 ) ++okCount;
  if ( okCount && im != imAfter ) violate( "lost-apply", "%s reported success and the database is not in the new state", ca.name.c_str() );
  if ( kind == 2 && okCount > 1 && imBefore != imAfter ) violate( "applied-twice", "two processes both reported that the same changeset was applied" );
  if ( !okCount && im != imBefore && !( res[0].killed && im == imAfter ) && !( res[0].faultFired && im == imAfter ) ) violate( "partial", "%s did not succeed and the database changed", ca.name.c_str() );
  if ( logger )
  {
    auto it = fin.tables.find( LOGT );
    int have = it == fin.tables.end() ? -1 : ( int )it->second.rows.size();
    if ( have != logged ) violate( "lost-write", "%s: another application committed %d rows meanwhile, %d are there", ca.name.c_str(), logged, have );
  }
  g_stats.states.insert( fin.hash() );
}
}
void scenC12()
{
  int k = ( int )ch.weighted( { 5, 4, pgEnabled() ? 4 : 0 } );
  if ( k == 0 ) c12Diff(); else if ( k == 1 ) c12Apply(); else c12Pg();
}

// ------------------------------------------------------------------ C17
static void c17Dump()
{
  GenCfg g; g.fk = ch.chance( 20 ); g.wide = ch.chance( 15 );
  World w = mkWorld( g, "/sim/w/", "db.gpkg", ch.range( 0, 12 ) );
  if ( ch.chance( 60 ) ) appEdit( w.path( "db.gpkg" ), w.sp, g, ec( ch.range( 1, 10 ), 1 ) );
  fsSyncAll();
  DbState s = mustRead( w.path( "db.gpkg" ), "setup", "db" );
  ChangeMap want = refDiff( emptied( s ), s );
  size_t n = 0; for ( auto &t : want ) n += t.second.size();
  g_nontrivial = n > 0;
  g_stats.states.insert( s.hash() );
  sampleAdd( "dump of %zu tables, %zu keyed rows, gpkg=%d", s.tables.size(), n, w.sp.gpkg );
  std::string out = w.path( "dump.diff" );
  ApiCall ca = cDump( w.path( "db.gpkg" ), out );
  Outcome quiet; OpCounts oc = dryRun( ca, &quiet );
  int rounds = g_thorough ? 8 : 4;
  for ( int i = 0; i < rounds; ++i )
  {
    std::vector<Fault> fl;
    if ( i ) { Fault f = pickFault( oc, FS_ERR | FS_BENIGN ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    if ( ch.chance( 30 ) ) fsWrite( out, std::string( ch.range( 1, 9000 ), 'T' ) );
    Outcome o = call( ca, fl );
    if ( !o.ok() ) { if ( !o.faultFired ) violate( "dump-failed", "%s failed without any fault (rc %d): %s", ca.name.c_str(), o.rc, o.log.c_str() ); probe( "failed_under_fault" ); continue; }
    std::string ctx = ca.name + ( fl.empty() ? "" : " under " + faultStr( fl[0] ) );
    Changeset c = parseCs( fsRead( out ) );
    std::string e = strictCs( c );
    if ( !e.empty() ) violate( "format", "%s: %s", ctx.c_str(), e.c_str() );
    ChangeMap got; e = toMap( c, got );
    if ( e.empty() ) e = diffMaps( want, got );
    if ( !e.empty() ) violate( "dump-content", "%s: %s", ctx.c_str(), e.c_str() );
  }
}
void scenC17()
{
  int k = ( int )ch.weighted( { 4, pgEnabled() ? 6 : 0 } );
  if ( k == 0 ) c17Dump(); else c17Copy();
}

// ------------------------------------------------------------------ C18
namespace {
// one difference between two definitions; "" when it does not apply
std::string changeSchema( DbSpec &s )
{
  int k = ( int )ch.choose( 13 );
  size_t ti = ch.choose( s.tables.size() );
  TableSpec &t = s.tables[ti];
  std::vector<int> nonPk; for ( size_t i = 0; i < t.cols.size(); ++i ) if ( !t.cols[i].pk ) nonPk.push_back( ( int )i );
  std::vector<int> plain; for ( int i : nonPk ) if ( t.cols[i].kind != K_GEOM ) plain.push_back( i );
  auto usedBy = [&]( const std::string &c ) { for ( auto &x : s.extraSql ) if ( x.find( qi( c ) ) != std::string::npos ) return true; return false; };
  switch ( k )
  {
    case 0: { ColSpec c; c.name = "added col"; c.type = "TEXT"; c.kind = K_TEXT; t.cols.push_back( c ); return "column added at the end"; }
    case 1: { ColSpec c; c.name = "added col"; c.type = "INTEGER"; c.kind = K_INT; if ( s.gpkg && t.geomCol() >= 0 ) t.cols.insert( t.cols.begin() + 2, c ); else t.cols.insert( t.cols.begin() + ch.choose( t.cols.size() ) + 0, c ); return "column added inside"; }
    case 2: { if ( plain.empty() || t.cols.size() < 3 ) return ""; int c = plain[ch.choose( plain.size() )]; if ( usedBy( t.cols[c].name ) ) return ""; t.cols.erase( t.cols.begin() + c ); return "column dropped"; }
    case 3: { if ( plain.empty() ) return ""; int c = plain[ch.choose( plain.size() )]; if ( usedBy( t.cols[c].name ) ) return ""; t.cols[c].name += ch.choose( 2 ) ? "2" : " renamed"; return "column renamed"; }
    case 4:
    {
      if ( plain.empty() ) return "";
      ColSpec &c = t.cols[plain[ch.choose( plain.size() )]];
      if ( c.type == "TEXT" || c.type == "TEXT(50)" ) { c.type = "INTEGER"; c.kind = K_INT; c.collate = ""; }
      else if ( c.type == "INTEGER" || c.type == "MEDIUMINT" ) { c.type = ch.choose( 2 ) ? "REAL" : "TEXT"; c.kind = c.type == "REAL" ? K_REAL : K_TEXT; }
      else { c.type = "TEXT"; c.kind = K_TEXT; }
      return "column type changed";
    }
    case 5: { if ( plain.empty() ) return ""; ColSpec &c = t.cols[plain[ch.choose( plain.size() )]]; c.notnull = !c.notnull; return c.notnull ? "not null added" : "not null dropped"; }
    case 6:
    {
      // another set of key columns
      if ( s.gpkg && t.geomCol() >= 0 ) return "";
      if ( !t.hasPk() ) { t.cols[0].pk = 1; t.cols[0].notnull = true; return "key added"; }
      int npk = 0; for ( auto &c : t.cols ) if ( c.pk ) ++npk;
      if ( npk > 1 ) { for ( auto &c : t.cols ) if ( c.pk == 2 ) { c.pk = 0; break; } if ( npk > 2 ) return ""; return "key column less"; }
      if ( plain.empty() ) return "";
      ColSpec &c = t.cols[plain[ch.choose( plain.size() )]]; if ( c.kind == K_ANY ) return "";
      c.pk = 2; c.notnull = true; t.autoinc = false; return "key column more";
    }
    case 7: { TableSpec x; x.name = ch.choose( 2 ) ? "extra table" : "zzz"; ColSpec c; c.name = "id"; c.type = "INTEGER"; c.pk = 1; x.cols.push_back( c ); c.pk = 0; c.name = "v"; x.cols.push_back( c ); s.tables.push_back( x ); return "table added"; }
    case 8: { if ( s.tables.size() < 2 ) return ""; for ( auto &x : s.extraSql ) if ( x.find( qi( t.name ) ) != std::string::npos ) return ""; s.tables.erase( s.tables.begin() + ti ); return "table dropped"; }
    case 9: { for ( auto &x : s.extraSql ) if ( x.find( qi( t.name ) ) != std::string::npos ) return ""; t.name += " 2"; return "table renamed"; }
    case 10: { if ( !s.gpkg || t.geomCol() < 0 ) return ""; t.geomType = t.geomType == "POINT" ? "POLYGON" : "POINT"; if ( ch.chance( 50 ) ) t.cols[t.geomCol()].type = t.geomType; return "geometry type changed"; }
    case 11: { if ( !s.gpkg || t.geomCol() < 0 ) return ""; 
      switch ( ch.choose( 5 ) )
      {
        // the same id, defined in another way
        case 1: s.extraSql.push_back( strf( "UPDATE gpkg_spatial_ref_sys SET organization='OTHER' WHERE srs_id=%d", t.srs ) ); return "authority of the CRS changed";
        case 2: s.extraSql.push_back( strf( "UPDATE gpkg_spatial_ref_sys SET organization_coordsys_id=31 WHERE srs_id=%d", t.srs ) ); return "code of the CRS changed";
        case 3: s.extraSql.push_back( strf( "UPDATE gpkg_spatial_ref_sys SET definition='GEOGCS[\"another\"]' WHERE srs_id=%d", t.srs ) ); return "definition of the CRS changed";
        default: t.srs = t.srs == 4326 ? 0 : 4326; return "CRS changed";
      }
    }
    default: { if ( !s.gpkg || t.geomCol() < 0 ) return ""; if ( ch.choose( 2 ) ) t.z = !t.z; else t.m = !t.m; return "Z or M changed"; }
  }
}
struct Unchanged
{
  std::map<std::string, DbState> dbs; std::map<std::string, std::string> files;
  void db( const std::string &f ) { dbs[f] = mustRead( f, "setup", f.c_str() ); }
  void file( const std::string &f ) { files[f] = fsRead( f ); }
  void check( const std::string &ctx )
  {
    for ( auto &d : dbs ) { std::string e = diffData( mustRead( d.first, "unusable", ctx.c_str() ), d.second ); if ( !e.empty() ) violate( "refused-but-changed", "%s: %s changed: %s", ctx.c_str(), d.first.c_str(), e.c_str() ); }
    for ( auto &f : files ) if ( !fsExists( f.first ) || fsRead( f.first ) != f.second ) violate( "refused-but-changed", "%s: file %s changed", ctx.c_str(), f.first.c_str() );
  }
};
void mustRefuse( const ApiCall &ca, Unchanged &u, const std::string &why, int faultPct )
{
  std::vector<Fault> fl;
  OpCounts oc = dryRun( ca );
  int n = 1 + ( ch.chance( faultPct ) ? 2 : 0 );
  for ( int i = 0; i < n; ++i )
  {
    fl.clear();
    if ( i ) { Fault f = pickFault( oc, FS_ERR | FS_DEATH | FS_BENIGN ); if ( f.kind == F_NONE ) break; fl.push_back( f ); }
    Outcome o = call( ca, fl );
    std::string ctx = strf( "%s, %s%s", ca.name.c_str(), why.c_str(), fl.empty() ? "" : ( " under " + faultStr( fl[0] ) ).c_str() );
    if ( o.ok() ) violate( "not-refused", "%s: accepted", ctx.c_str() );
    probe( "refusals" );
    u.check( ctx );
  }
}

void c18Schema()
{
  GenCfg g; g.wide = false;
  World w = mkPair( g, ch.range( 0, 5 ), ch.range( 1, 6 ) );
  DbSpec s2 = w.sp;
  std::string what;
  for ( int i = 0; i < 40 && what.empty(); ++i ) { s2 = w.sp; what = changeSchema( s2 ); }
  if ( what.empty() ) { sampleAdd( "no schema change possible" ); return; }
  std::string base = w.path( "base.gpkg" ), mod = w.path( "mod.gpkg" ), other = w.path( "other.gpkg" ), d = w.path( "d.diff" ), out = w.path( "out.diff" ), conf = w.path( "c.json" );
  // a file of the same content under the other schema
  createDb( other, s2 );
  if ( ch.chance( 80 ) ) fillDb( other, s2, g, ch.range( 0, 5 ) );
  mustOk( cCreate( base, mod, d, 0 ), "create-failed" );
  fsSyncAll();
  sampleAdd( "%s; %s", what.c_str(), specStr( w.sp ).substr( 0, 300 ).c_str() );
  g_nontrivial = true;
  Unchanged u; u.db( base ); u.db( mod ); u.db( other ); u.file( d );
  g_stats.states.insert( u.dbs[other].hash() );
  int kind = ( int )ch.weighted( { 5, 2, 2, 2 } );
  // with nothing to rebase over there is nothing to refuse
  if ( parseCs( fsRead( d ) ).entries.empty() ) kind = 0;
  bool swap = ch.choose( 2 );
  switch ( kind )
  {
    case 0: mustRefuse( swap ? cCreate( other, base, out ) : cCreate( base, other, out ), u, what, 60 ); break;
    case 1: mustRefuse( cRebased( base, other, d, out, conf ), u, what, 60 ); break;
    case 2: { fsCopyDb( mod, w.path( "m2.gpkg" ) ); fsSyncAll(); u.db( w.path( "m2.gpkg" ) ); mustRefuse( swap ? cRebase( base, other, w.path( "m2.gpkg" ), conf ) : cRebase( base, w.path( "m2.gpkg" ), other, conf ), u, what, 60 ); break; }
    default: mustRefuse( cRebaseEx( base, other, d, conf ), u, what, 60 ); break;
  }
}

// the schema changes while the diff is being made
void c18During()
{
  GenCfg g; g.wide = false; g.unique = false;
  World w = mkPair( g, ch.range( 1, 5 ), ch.range( 1, 6 ) );
  std::string base = w.path( "base.gpkg" ), mod = w.path( "mod.gpkg" ), out = w.path( "out.diff" );
  DbState B = mustRead( base, "setup", "base" ), M = mustRead( mod, "setup", "mod" );
  bool onBase = ch.choose( 3 ) == 0;
  const TableSpec &t = w.sp.tables[ch.choose( w.sp.tables.size() )];
  std::string sql; int k = ch.choose( 3 );
  if ( k == 0 ) sql = "ALTER TABLE " + qi( t.name ) + " ADD COLUMN late_col TEXT";
  else if ( k == 1 ) sql = "CREATE TABLE late_table(id INTEGER PRIMARY KEY)";
  else sql = "ALTER TABLE " + qi( t.name ) + " RENAME COLUMN " + qi( t.cols.back().name ) + " TO late_name";
  uint64_t b = 0, e = 0, from = 0, to = ~0ULL; int rcAlter = -1;
  ApiCall ca = cCreate( base, mod, out, 0 );
  OpCounts oc = dryRun( ca );
  uint64_t ops = 0; for ( uint64_t n : oc.n ) ops += n;
  std::vector<std::pair<Proc *, std::function<int()>>> fns;
  fns.push_back( { newProc( ca.name ), [&]() { b = g_events; int r = ca.fn(); e = g_events; return r; } } );
  fns.push_back( { newProc( "altering application" ), [&]() -> int
  {
    HarnessScope hs;
    Db d( onBase ? base : mod );
    int tries = 0; from = g_events;
    do { yieldNow(); rcAlter = d.tryExec( sql ); } while ( rcAlter == SQLITE_BUSY && ++tries < 15 );
    to = g_events;
    return 0;
  } } );
  int budget = ch.range( 1, 8 );
  auto res = runConcurrent( fns, budget, ( int )std::max<uint64_t>( 2, ops * 2 / budget ) );
  sampleAdd( "%s on %s while diffing: altered %d, rc %d", sql.c_str(), onBase ? "base" : "modified", rcAlter, res[0].rc );
  if ( res[0].exc ) violate( "exception-escaped", "%s: %s", ca.name.c_str(), res[0].excText.c_str() );
  g_nontrivial = rcAlter == SQLITE_OK;
  if ( res[0].rc != 0 ) { probe( "refusals" ); return; }
  if ( rcAlter == SQLITE_OK && to < b ) violate( "not-refused", "%s on %s before the diff began: accepted", sql.c_str(), onBase ? "base" : "modified" );
  ChangeMap got; std::string er = toMap( parseCs( fsRead( out ) ), got );
  if ( er.empty() ) er = diffMaps( refDiff( B, M ), got );
  if ( !er.empty() ) violate( "mixed-states", "%s during the diff: accepted with another result than before the change: %s", sql.c_str(), er.c_str() );
}

// a changeset meets a database whose schema has moved on
void c18Later()
{
  GenCfg g; g.wide = false; g.intPkOnly = ch.chance( 50 );
  World w = mkPair( g, ch.range( 1, 5 ), ch.range( 2, 7 ) );
  std::string base = w.path( "base.gpkg" ), mod = w.path( "mod.gpkg" ), d = w.path( "d.diff" ), t = w.path( "target.gpkg" ), conf = w.path( "c.json" );
  mustOk( cCreate( base, mod, d, 0 ), "create-failed" );
  Changeset c = parseCs( fsRead( d ) );
  std::vector<const TableSpec *> hit;
  for ( auto &ts : w.sp.tables ) for ( auto &e : c.entries ) if ( c.tableOf( e ) == ts.name ) { hit.push_back( &ts ); break; }
  if ( hit.empty() ) { sampleAdd( "no user table changed" ); return; }
  const TableSpec &ts = *hit[ch.choose( hit.size() )];
  int k = ( int )ch.choose( 4 );
  fsCopyDb( k == 3 ? mod : base, t );
  std::string what;
  if ( k < 3 )
  {
    Db x( t );
    std::string sql;
    if ( k == 0 || k == 3 ) { sql = "ALTER TABLE " + qi( ts.name ) + " ADD COLUMN late_col INTEGER"; what = "column added to " + ts.name; }
    if ( k == 1 ) { sql = "DROP VIEW IF EXISTS v1; ALTER TABLE " + qi( ts.name ) + " RENAME TO late_name"; what = "table " + ts.name + " renamed"; }
    if ( k == 2 )
    {
      int col = -1; for ( size_t i = 0; i < ts.cols.size(); ++i ) if ( !ts.cols[i].pk && ts.cols[i].kind != K_GEOM && !ts.cols[i].unique ) col = ( int )i;
      if ( col < 0 ) { sampleAdd( "no column to drop" ); return; }
      sql = "DROP VIEW IF EXISTS v1; DROP INDEX IF EXISTS ix1; ALTER TABLE " + qi( ts.name ) + " DROP COLUMN " + qi( ts.cols[col].name ); what = "column dropped from " + ts.name;
    }
    if ( x.tryExec( sql ) != SQLITE_OK ) { sampleAdd( "cannot alter: %s", sqlite3_errmsg( x.h ) ); return; }
  }
  fsSyncAll();
  g_nontrivial = true;
  Unchanged u; u.db( base ); u.db( mod ); u.db( t ); u.file( d );
  if ( k < 3 ) { sampleAdd( "apply after %s", what.c_str() ); mustRefuse( cApply( t, d ), u, what, 60 ); return; }
  // rebasing in place over changes of a party with another number of columns
  std::string b2 = w.path( "b2.gpkg" ), t2 = w.path( "t2.gpkg" ), d2 = w.path( "d2.diff" );
  fsCopyDb( base, b2 ); fsCopyDb( base, t2 );
  for ( auto &f : { b2, t2 } ) { Db x( f ); if ( x.tryExec( "ALTER TABLE " + qi( ts.name ) + " ADD COLUMN late_col INTEGER" ) != SQLITE_OK ) return; }
  DbSpec s2 = w.sp;
  { Db x( t2 ); x.exec( "UPDATE " + qi( ts.name ) + " SET late_col = 5" ); }
  appEdit( t2, s2, g, [&] { EditCfg e = ec( ch.range( 1, 4 ), 3 ); e.only = [&]( const std::string &n ) { return n != ts.name; }; return e; }() );
  mustOk( cCreate( b2, t2, d2, 0 ), "create-failed" );
  Changeset c2 = parseCs( fsRead( d2 ) );
  bool touches = false; for ( auto &e : c2.entries ) if ( c2.tableOf( e ) == ts.name ) touches = true;
  bool shrink = ch.choose( 2 );
  fsSyncAll();
  if ( !touches ) { sampleAdd( "their changeset does not touch %s", ts.name.c_str() ); return; }
  if ( !shrink )
  {
    sampleAdd( "rebaseEx over a changeset with one column more of %s", ts.name.c_str() );
    mustRefuse( cRebaseEx( base, t, d2, conf ), u, "their changeset has one column more", 60 );
  }
  else
  {
    // our file has the column, theirs does not
    std::string m2 = w.path( "m2.gpkg" );
    fsCopyDb( t2, m2 ); fsSyncAll();
    u.db( m2 ); u.db( b2 );
    sampleAdd( "rebaseEx over a changeset with one column less of %s", ts.name.c_str() );
    mustRefuse( cRebaseEx( b2, m2, d, conf ), u, "their changeset has one column less", 60 );
  }
}

const char *TRG_NAMES[] = { "audit_ins", "my trigger", "o'clock", "dq\"trg", "gpkg", "gpkgx", "GPKG_upper", "rtreeish", "rtree", "trigger_insert_feature", "trigger_insert_feature_count", "trigger_update_feature_count_x",
                            "select", "100", "\xc5\xbelu\xc5\xa5", "pct%s%d%n", "a;b", "back\\s", "my_gpkg_x", "x_rtree_y", "Rtree_A", "[x]", "t\nl", "-- c", "sqlit" };
std::string trgSql( const std::string &name, const DbSpec &sp, bool viewToo )
{
  const TableSpec &t = sp.tables[ch.choose( sp.tables.size() )], &o = sp.tables[ch.choose( sp.tables.size() )];
  static const char *when[] = { "AFTER", "BEFORE", "" };
  std::string ev; int op = ch.choose( 3 );
  ev = op == 0 ? "INSERT" : op == 1 ? "DELETE" : ch.chance( 30 ) ? "UPDATE OF " + qi( t.cols.back().name ) : "UPDATE";
  std::string on = qi( t.name ), W = when[ch.choose( 3 )];
  bool view = viewToo && ch.chance( 8 );
  if ( view ) { on = "v1"; W = "INSTEAD OF"; if ( op == 2 ) ev = "UPDATE"; }
  std::string body;
  switch ( ch.choose( 7 ) )
  {
    case 0: case 1: body = "INSERT INTO audit_log VALUES('" + std::string( op == 0 ? "ins" : op == 1 ? "del" : "upd" ) + " it''s; END');"; break;
    case 2: body = "SELECT RAISE(ABORT, 'not allowed');"; break;
    case 3: body = "SELECT RAISE(IGNORE);"; break;
    case 4: body = "DELETE FROM " + qi( o.name ) + ";"; break;
    case 5: body = "INSERT INTO table_that_is_gone VALUES(1);"; break;
    default: body = "INSERT INTO audit_log VALUES('a'); DELETE FROM audit_log WHERE what = 'b'; /* two; statements */ INSERT INTO audit_log SELECT 'c%s';"; break;
  }
  return std::string( ch.choose( 2 ) ? "CREATE TRIGGER " : "create trigger if not exists\n " ) + qi( name ) + " " + W + " " + ev + " ON " + on + ( ch.chance( 30 ) && !view ? " FOR EACH ROW" : "" ) + ( ch.chance( 20 ) ? " WHEN 1 = 1" : "" ) + "\nBEGIN " + body + " END";
}
int addTriggers( const std::string &db, const DbSpec &sp, int n )
{
  Db x( db );
  int made = 0; bool view = false;
  for ( auto &e : sp.extraSql ) if ( e.compare( 0, 11, "CREATE VIEW" ) == 0 ) view = true;
  for ( int i = 0; i < n; ++i )
  {
    std::string name = TRG_NAMES[ch.choose( sizeof TRG_NAMES / sizeof *TRG_NAMES )], sql = trgSql( name, sp, view );
    if ( x.tryExec( sql ) == SQLITE_OK ) { ++made; ev( "note trigger %s", sql.substr( 0, 200 ).c_str() ); }
  }
  return ( int )x.query( "SELECT 1 FROM sqlite_master WHERE type='trigger' AND sql LIKE '%audit_log%' OR type='trigger' AND sql LIKE '%RAISE(%' OR type='trigger' AND sql LIKE '%table_that_is_gone%' OR type='trigger' AND sql LIKE '%DELETE FROM%'" ).empty() ? 0 : made;
}

// foreign keys and user triggers: no rebased changeset
void c18Rebase()
{
  GenCfg g; g.wide = false; g.intPkOnly = ch.chance( 60 );
  World w; w.g = g; w.dir = "/sim/w/"; g_dirs.insert( "/sim/w" );
  w.sp = genSpec( g );
  bool fk = ch.choose( 2 );
  std::string why;
  if ( fk )
  {
    // one user table refers to another one, or to itself
    const TableSpec &p = w.sp.tables[ch.choose( w.sp.tables.size() )];
    std::string ref;
    static const char *names[] = { "child", "ch ild", "ref\"x", "it's" };
    std::string name = names[ch.choose( 4 )], col = ch.choose( 2 ) ? "parent" : "par ent";
    switch ( ch.choose( 5 ) )
    {
      case 0: ref = "CREATE TABLE " + qi( name ) + "(id INTEGER PRIMARY KEY, " + qi( col ) + " INTEGER REFERENCES " + qi( p.name ) + ")"; break;
      case 1: ref = "CREATE TABLE " + qi( name ) + "(id INTEGER PRIMARY KEY, " + qi( col ) + " INTEGER REFERENCES " + qi( p.name ) + "(" + qi( p.cols[0].name ) + ") ON DELETE CASCADE)"; break;
      case 2: ref = "CREATE TABLE " + qi( name ) + "(id INTEGER PRIMARY KEY, " + qi( col ) + " INTEGER, other TEXT, FOREIGN KEY(" + qi( col == "parent" ? "PARENT" : col ) + ") REFERENCES " + qi( p.name ) + "(" + qi( p.cols[0].name ) + ") DEFERRABLE INITIALLY DEFERRED)"; break;
      case 3: ref = "CREATE TABLE " + qi( name ) + "(id INTEGER PRIMARY KEY, " + qi( col ) + " INTEGER REFERENCES " + qi( name ) + "(id))"; break;
      default: ref = "CREATE TABLE " + qi( name ) + "(id INTEGER, " + qi( col ) + " INTEGER REFERENCES missing_table(x), PRIMARY KEY(id))"; break;
    }
    w.sp.extraSql.push_back( ref );
    why = "foreign key: " + ref;
  }
  else w.sp.extraSql.push_back( "CREATE TABLE audit_log(what TEXT)" );
  createDb( w.path( "base.gpkg" ), w.sp );
  fillDb( w.path( "base.gpkg" ), w.sp, g, ch.range( 1, 5 ) );
  fsCopyDb( w.path( "base.gpkg" ), w.path( "mod.gpkg" ) ); fsCopyDb( w.path( "base.gpkg" ), w.path( "their.gpkg" ) );
  appEdit( w.path( "mod.gpkg" ), w.sp, g, ec( ch.range( 0, 4 ), 1 ) );
  appEdit( w.path( "their.gpkg" ), w.sp, g, ec( ch.range( 1, 4 ), 2 ) );
  if ( !fk )
  {
    if ( !addTriggers( w.path( "mod.gpkg" ), w.sp, ch.range( 1, 2 ) ) ) { sampleAdd( "no trigger made" ); return; }
    why = "user trigger";
    if ( ch.choose( 2 ) ) addTriggers( w.path( "base.gpkg" ), w.sp, 1 );
  }
  std::string t = w.path( "t.diff" ), out = w.path( "out.diff" ), conf = w.path( "c.json" );
  mustOk( cCreate( w.path( "base.gpkg" ), w.path( "their.gpkg" ), t, 0 ), "create-failed" );
  fsSyncAll();
  sampleAdd( "%s", why.c_str() );
  g_nontrivial = true;
  Unchanged u; u.db( w.path( "base.gpkg" ) ); u.db( w.path( "mod.gpkg" ) ); u.db( w.path( "their.gpkg" ) ); u.file( t );
  g_stats.states.insert( u.dbs[w.path( "mod.gpkg" )].hash() );
  mustRefuse( cRebased( w.path( "base.gpkg" ), w.path( "mod.gpkg" ), t, out, conf ), u, why, 70 );
}
}
void scenC18()
{
  switch ( ch.weighted( { 5, 2, 3, 4, pgEnabled() ? 3 : 0 } ) )
  {
    case 0: c18Schema(); break;
    case 1: c18During(); break;
    case 2: c18Later(); break;
    case 3: c18Rebase(); break;
    default: c18Pg(); break;
  }
}

// ------------------------------------------------------------------ C19
void scenC19()
{
  GenCfg g; g.fk = ch.chance( 20 ); g.wide = ch.chance( 8 ); g.gpkgPct = 60;
  bool rebase = ch.chance( 35 );
  if ( rebase ) { g.intPkOnly = true; g.unique = false; }
  World w; w.g = g; w.dir = "/sim/w/"; g_dirs.insert( "/sim/w" );
  w.sp = genSpec( g );
  w.sp.extraSql.push_back( "CREATE TABLE audit_log(what TEXT)" );
  std::string base = w.path( "base.gpkg" ), mod = w.path( "mod.gpkg" ), d = w.path( "d.diff" ), t = w.path( "target.gpkg" ), conf = w.path( "c.json" );
  createDb( base, w.sp ); fillDb( base, w.sp, g, ch.range( 1, 7 ) );
  fsCopyDb( base, mod );
  appEdit( mod, w.sp, g, ec( ch.range( 1, 8 ), 1 ) );
  fsSyncAll();
  mustOk( cCreate( base, mod, d, 0 ), "create-failed" );
  bool conflict = !rebase && ch.chance( 25 );
  std::string how = "apply";
  fsCopyDb( base, t );
  if ( rebase ) { appEdit( t, w.sp, g, ec( ch.range( 1, 5 ), 2 ) ); how = "rebaseEx"; }
  else if ( conflict ) { appEdit( t, w.sp, g, ec( ch.range( 1, 4 ), 2 ) ); how = "apply to a diverged target"; }
  fsSyncAll();
  ApiCall ca = rebase ? cRebaseEx( base, t, d, conf ) : cApply( t, d );
  // the same without user triggers
  Outcome plain; DbState want;
  dryRun( ca, &plain, [&]() { want = mustRead( t, "unusable", "target" ); } );
  int n = addTriggers( t, w.sp, ch.range( 1, 5 ) );
  fsSyncAll();
  DbState before = mustRead( t, "setup", "target" );
  g_stats.states.insert( before.hash() );
  OpCounts oc = dryRun( ca );
  int rounds = g_thorough ? 12 : 6;
  sampleAdd( "%s, %d user triggers, gpkg=%d journal=%s, without them rc %d", how.c_str(), n, w.sp.gpkg, w.sp.journal.c_str(), plain.rc );
  g_nontrivial = n > 0;
  FsImage img = fsSnapshot();
  for ( int i = 0; i < rounds; ++i )
  {
    if ( i ) fsRestore( img );
    std::vector<Fault> fl;
    if ( i ) { Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    Outcome o = call( ca, fl );
    std::string ctx = strf( "%s with %d user triggers%s", ca.name.c_str(), n, fl.empty() ? "" : ( " under " + faultStr( fl[0] ) ).c_str() );
    DbState now = mustRead( t, "unusable", ctx.c_str() );
    if ( now.schema != before.schema )
    {
      std::string x;
      for ( auto &s : before.schema ) { auto k = now.schema.find( s.first ); if ( k == now.schema.end() ) x = s.first + " is gone"; else if ( k->second != s.second ) x = s.first + " reads " + k->second + " instead of " + s.second; }
      for ( auto &s : now.schema ) if ( !before.schema.count( s.first ) ) x = s.first + " appeared";
      violate( "trigger-lost", "%s (%s): %s", ctx.c_str(), o.killed ? "killed" : o.ok() ? "succeeded" : "failed", x.c_str() );
    }
    std::string dOld = diffData( now, before, false ), dNew = diffData( now, want, false );
    if ( o.ok() )
    {
      if ( !plain.ok() ) violate( "trigger-effect", "%s succeeded, without the triggers it fails", ctx.c_str() );
      if ( !dNew.empty() ) violate( "trigger-fired", "%s: another result than without user triggers: %s", ctx.c_str(), dNew.c_str() );
      if ( !now.derived.empty() ) violate( "derived", "%s: %s", ctx.c_str(), now.derived.c_str() );
    }
    else
    {
      if ( !o.killed && !o.faultFired && plain.ok() ) violate( "trigger-effect", "%s failed, without the triggers it succeeds: %s", ctx.c_str(), o.log.c_str() );
      bool newOk = ( o.killed || o.faultFired ) && plain.ok() && dNew.empty();
      if ( !dOld.empty() && !newOk ) violate( "trigger-fired", "%s did not succeed and left another state than before: %s", ctx.c_str(), dOld.c_str() );
      probe( o.killed ? "killed_with_triggers" : "failed_with_triggers" );
    }
  }
}
} // namespace sim
