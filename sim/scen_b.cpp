// Scenarios C05-C08, C13, C14: rebase, convergence, conflict report, complete outputs, isolation, inputs.
#include "scen.h"
#include <iostream>
#include <unistd.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include "scen_pg.h"
#include <algorithm>
#include <climits>

namespace sim {

// Rebase renumbers our inserted rows to the keys following the highest key the other side inserted,
// without looking at the rows already there (known finding F23).  0 fine, 1 lands on an existing row, 2 runs out of keys
int renumberTrouble( const DbState &B, const DbState &T, const DbState &O )
{
  HarnessScope hs;
  int res = 0;
  for ( auto &bt : B.tables )
  {
    if ( skipTable( bt.first ) || !bt.second.hasPk() ) continue;
    auto &t = T.tables.at( bt.first ).rows; auto &o = O.tables.at( bt.first ).rows;
    std::set<int64_t> ti, oi, tk;
    bool intKey = true;
    for ( auto &r : t ) { if ( r.first.size() != 1 || r.first[0].t != 1 ) { intKey = false; break; } tk.insert( r.first[0].i ); if ( !bt.second.rows.count( r.first ) ) ti.insert( r.first[0].i ); }
    if ( !intKey || ti.empty() ) continue;
    for ( auto &r : o ) if ( r.first[0].t == 1 && !bt.second.rows.count( r.first ) ) oi.insert( r.first[0].i );
    int64_t m = *ti.rbegin();
    int64_t c = 0;
    for ( int64_t k : oi ) if ( ti.count( k ) ) ++c;
    if ( !c ) continue;
    if ( m > INT64_MAX - c ) { res = std::max( res, 2 ); continue; }
    bool over = false;
    for ( int64_t k : oi )
      if ( !ti.count( k ) && k > m && k <= m + c ) { if ( m + c == INT64_MAX ) { over = true; break; } ++c; }
    if ( over ) { res = std::max( res, 2 ); continue; }
    for ( int64_t k = m + 1; k <= m + c; ++k ) { if ( tk.count( k ) ) res = std::max( res, 1 ); if ( k == INT64_MAX ) break; }
  }
  return res;
}
GenCfg rebaseCfg()
{
  GenCfg g; g.intPkOnly = true; g.unique = false; g.bigKeys = ch.chance( 30 ); g.wide = ch.chance( 10 ); g.textKeyPct = 25;
  return g;
}
// both sides touch the same rows: same cell (different or same value), other cells, update against delete, same new key
void contend( const std::string &base, const std::string &mod, const std::string &their, const DbSpec &sp, const GenCfg &g, int n )
{
  HarnessScope hs;
  Db b( base ), m( mod ), t( their );
  m.exec( "BEGIN" ); t.exec( "BEGIN" );
  for ( int k = 0; k < n; ++k )
  {
    const TableSpec &ts = sp.tables[ch.choose( sp.tables.size() )];
    if ( !ts.hasPk() ) continue;
    std::string T = qi( ts.name ), pkc; std::vector<int> nonPk;
    for ( size_t i = 0; i < ts.cols.size(); ++i ) if ( ts.cols[i].pk ) pkc = qi( ts.cols[i].name ); else nonPk.push_back( ( int )i );
    int what = ( int )ch.weighted( { 6, 2, 2, 2, 3 } );
    if ( what == 4 || nonPk.empty() )
    {
      Row key = genKey( ts, g, 1 );
      for ( Db *d : { &m, &t } )
      {
        if ( d == &t && key[0].t == 3 ) key = genKey( ts, g, 2 );
        std::string sql = "INSERT OR IGNORE INTO " + T + " VALUES("; Row v;
        for ( size_t i = 0; i < ts.cols.size(); ++i ) { sql += i ? ",?" : "?"; v.push_back( ts.cols[i].pk ? key[0] : genVal( ts.cols[i], g ) ); }
        d->run( sql + ")", v );
      }
      continue;
    }
    auto rows = b.query( "SELECT " + pkc + " FROM " + T + " ORDER BY 1 LIMIT 20" );
    if ( rows.empty() ) continue;
    Row key = rows[ch.choose( rows.size() )];
    int c = nonPk[ch.choose( nonPk.size() )], c2 = nonPk[ch.choose( nonPk.size() )];
    auto upd = [&]( Db &d, int col, const Val &v ) { d.run( "UPDATE " + T + " SET " + qi( ts.cols[col].name ) + "=? WHERE " + pkc + "=?", { v, key[0] } ); };
    Val v1 = genVal( ts.cols[c], g );
    if ( what == 0 ) { upd( m, c, v1 ); upd( t, c, genVal( ts.cols[c], g ) ); }
    if ( what == 1 ) { upd( m, c, v1 ); upd( t, c, v1 ); }
    if ( what == 2 ) { upd( m, c, v1 ); upd( t, c2, genVal( ts.cols[c2], g ) ); }
    if ( what == 3 ) { bool w = ch.choose( 2 ); upd( w ? m : t, c, v1 ); ( w ? t : m ).run( "DELETE FROM " + T + " WHERE " + pkc + "=?", { key[0] } ); }
  }
  m.exec( "COMMIT" ); t.exec( "COMMIT" );
}
// base.gpkg, mod.gpkg (ours), their.gpkg, b2t.diff, b2m.diff
Three mkThree( const GenCfg &g, const std::string &dir, int emptyPct, int rows )
{
  Three x;
  x.w = mkPair( g, rows < 0 ? ch.range( 0, 7 ) : rows, ch.chance( emptyPct ) ? 0 : ch.range( 1, 7 ), dir );
  x.base = dir + "base.gpkg"; x.mod = dir + "mod.gpkg"; x.their = dir + "their.gpkg";
  x.b2t = dir + "b2t.diff"; x.b2m = dir + "b2m.diff"; x.conf = dir + "conf.json"; x.out = dir + "reb.diff";
  fsCopyDb( x.base, x.their );
  appEdit( x.their, x.w.sp, g, ec( ch.chance( emptyPct ) ? 0 : ch.range( 1, 7 ), 2 ) );
  if ( ch.chance( 60 ) ) contend( x.base, x.mod, x.their, x.w.sp, g, ch.range( 1, 5 ) );
  fsSyncAll();
  mustOk( cCreate( x.base, x.their, x.b2t, 0 ), "create-failed" );
  mustOk( cCreate( x.base, x.mod, x.b2m, 0 ), "create-failed" );
  fsSyncAll();
  x.B = mustRead( x.base, "setup", "base" ); x.T = mustRead( x.their, "setup", "theirs" ); x.O = mustRead( x.mod, "setup", "ours" );
  x.trouble = renumberTrouble( x.B, x.T, x.O );
  g_stats.states.insert( x.B.hash() ); g_stats.states.insert( x.T.hash() ); g_stats.states.insert( x.O.hash() );
  return x;
}
static void knownF23() { probe( "known.F23" ); }

// ------------------------------------------------------------------ C05
void c05Pg();
void scenC05()
{
  if ( pgEnabled() && ch.chance( 18 ) ) { c05Pg(); return; }
  GenCfg g = rebaseCfg();
  Three x = mkThree( g, "/sim/w/" );
  bool ex = ch.chance( 35 );
  ApiCall rb = ex ? cRebasedEx( x.base, x.b2m, x.b2t, x.out, x.conf ) : cRebased( x.base, x.mod, x.b2t, x.out, x.conf );
  if ( ch.chance( 20 ) ) fsWrite( x.out, "stale output" );
  sampleAdd( "gpkg=%d %s theirs %zu bytes ours %zu bytes trouble %d", x.w.sp.gpkg, rb.name.c_str(), fsRead( x.b2t ).size(), fsRead( x.b2m ).size(), x.trouble );
  g_nontrivial = fsRead( x.b2t ).size() && fsRead( x.b2m ).size();
  if ( x.trouble == 2 )
  {
    // no free key above the other side's: refusing is all that is asked
    Outcome o = call( rb );
    if ( !o.ok() ) { probe( "no_free_key" ); return; }
  }
  else okUnderFaults( rb, "rebase-failed", FS_ALL & ~FS_UNLINK, 40 );
  fsSyncAll();
  std::string t = x.w.path( "target.gpkg" );
  fsCopyDb( x.base, t );
  fsSyncAll();
  // the merge happens on the server; the two changesets may be applied with a restart in between
  mustOk( cApply( t, x.b2t ), "apply-theirs-failed" );
  fsSyncAll();
  ApiCall ca = cApply( t, x.out );
  DbState mid = mustRead( t, "unusable", "target" );
  std::vector<Fault> fl;
  if ( ch.chance( 20 ) ) { OpCounts oc = dryRun( ca ); Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK ); if ( f.kind != F_NONE ) fl.push_back( f ); }
  Outcome o = call( ca, fl );
  if ( !o.ok() )
  {
    DbState now = mustRead( t, "unusable", "target" );
    if ( !fl.empty() && ( o.killed || o.faultFired ) ) { if ( diffData( now, mid ).empty() ) o = call( ca ); else o.done = true, o.rc = 0, o.killed = false; }
  }
  if ( !o.ok() )
  {
    if ( x.trouble == 1 ) { knownF23(); return; }
    violate( "rebased-refused", "the rebased changeset cannot be applied after theirs: %s", o.log.c_str() );
  }
  DbState F = mustRead( t, "unusable", "merged database" );
  std::string e = checkMerge( x.B, x.T, x.O, F );
  if ( !e.empty() )
  {
    if ( x.trouble == 1 ) { knownF23(); return; }
    violate( "merge", "%s: %s", rb.name.c_str(), e.c_str() );
  }
  g_stats.states.insert( F.hash() );
}

// ------------------------------------------------------------------ C06
void c06Pg();
void scenC06()
{
  if ( pgEnabled() && ch.chance( 15 ) ) { c06Pg(); return; }
  GenCfg g = rebaseCfg(); g.bigKeys = false; g.wide = false; g.maxTables = ch.chance( 60 ) ? 1 : 3;
  World w = mkWorld( g, "/sim/srv/", "v0.gpkg", ch.range( 0, 6 ) );
  struct Cl { std::string dir, local, base; int at = 0; bool dirty = false; };
  int nc = ch.range( 2, 3 );
  std::vector<Cl> cl( nc );
  std::vector<std::string> ver = { "/sim/srv/v0.gpkg" };
  for ( int i = 0; i < nc; ++i )
  {
    cl[i].dir = strf( "/sim/c%d", i ); g_dirs.insert( cl[i].dir );
    cl[i].local = cl[i].dir + "/local.gpkg"; cl[i].base = cl[i].dir + "/base.gpkg";
    fsCopyDb( ver[0], cl[i].local ); fsCopyDb( ver[0], cl[i].base );
  }
  fsSyncAll();
  int faultBudget = 6;
  std::string hist;
  auto withFaults = [&]( const ApiCall &c, const std::string &cls ) { if ( faultBudget > 0 && ch.chance( 15 ) ) { --faultBudget; okUnderFaults( c, cls, FS_ALL & ~FS_UNLINK, 100 ); } else mustOk( c, cls ); fsSyncAll(); };
  // returns false when the run ends at a known finding
  auto pull = [&]( Cl &c ) -> bool
  {
    int head = ( int )ver.size() - 1;
    if ( c.at == head ) return true;
    const std::string &hv = ver[head];
    DbState B = mustRead( c.base, "base-modified", "client base" ), T = mustRead( hv, "server", "server head" ), L = mustRead( c.local, "local-damaged", "local" );
    std::string b2t = c.dir + "/b2t.diff", conf = c.dir + "/conf.json";
    fsRemove( conf );
    withFaults( cCreate( c.base, hv, b2t ), "create-failed" );
    std::string b2tBytes = fsRead( b2t );
    int tr = renumberTrouble( B, T, L );
    ApiCall rb = ch.chance( 50 ) ? cRebaseEx( c.base, c.local, b2t, conf ) : cRebase( c.base, hv, c.local, conf );
    Outcome dry; DbState after;
    OpCounts oc = dryRun( rb, &dry, [&] { after = readDb( c.local ); } );
    if ( !dry.ok() )
    {
      if ( tr == 2 ) return false;
      std::string why;
      if ( !sameDb( L, after, why ) ) violate( "rebase-partial", "%s failed (%s) but changed the local file: %s", rb.name.c_str(), dry.log.c_str(), why.c_str() );
      if ( tr == 1 ) { knownF23(); return false; }
      violate( "rebase-failed", "%s failed without faults%s: %s", rb.name.c_str(), hist.c_str(), dry.log.c_str() );
    }
    std::string e = checkMerge( B, T, L, after );
    if ( !e.empty() )
    {
      if ( tr == 1 ) { knownF23(); return false; }
      violate( "merge", "%s%s: %s", rb.name.c_str(), hist.c_str(), e.c_str() );
    }
    int tries = faultBudget > 0 && ch.chance( 60 ) ? ch.range( 1, 4 ) : 0;
    bool done = false;
    for ( int k = 0; k < tries && !done && faultBudget > 0; ++k )
    {
      --faultBudget;
      Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK );
      if ( f.kind == F_NONE ) break;
      Outcome o = call( rb, { f } );
      std::string ctx = rb.name + " under " + faultStr( f );
      DbState now = mustRead( c.local, "local-damaged", ( "local file after " + ctx ).c_str() );
      std::string wo, wn;
      bool isOld = sameDb( L, now, wo ), isNew = sameDb( after, now, wn );
      if ( o.ok() && !isNew ) violate( "rebase-incomplete", "%s reported success but the local file is not completely rebased: %s", ctx.c_str(), wn.c_str() );
      if ( !isOld && !isNew ) violate( "rebase-partial", "%s left the local file in between: vs before: %s; vs rebased: %s", ctx.c_str(), wo.c_str(), wn.c_str() );
      if ( !o.ok() && !o.killed && !isOld && !( w.sp.journal == "wal" && o.faultFired ) ) violate( "rebase-error-but-changed", "%s reported an error but the local file is changed: %s", ctx.c_str(), o.log.c_str() );
      if ( !o.ok() && !o.killed && !o.faultFired ) violate( "rebase-failed", "%s failed without faults: %s", ctx.c_str(), o.log.c_str() );
      if ( isNew && !isOld ) done = true;
      if ( isNew && o.ok() ) done = true;
      DbState b = readDb( c.base ), t = readDb( hv );
      std::string d = diffData( B, b ); if ( d.empty() ) d = diffData( T, t );
      if ( !d.empty() ) violate( "input-modified", "%s modified the base or the other side's file: %s", ctx.c_str(), d.c_str() );
      if ( fsRead( b2t ) != b2tBytes ) violate( "input-modified", "%s modified the other side's changeset", ctx.c_str() );
      probe( o.killed ? "rebase_crashes" : "rebase_faults" );
      fsSyncAll();
    }
    if ( !done ) mustOk( rb, "rebase-failed" );
    DbState now = mustRead( c.local, "local-damaged", "rebased local" );
    std::string d; if ( !sameDb( after, now, d ) ) violate( "rebase-incomplete", "%s: result differs from an undisturbed run: %s", rb.name.c_str(), d.c_str() );
    DbState b = readDb( c.base ), t = readDb( hv );
    d = diffData( B, b ); if ( d.empty() ) d = diffData( T, t );
    if ( !d.empty() ) violate( "input-modified", "%s modified the base or the other side's file: %s", rb.name.c_str(), d.c_str() );
    if ( fsRead( b2t ) != b2tBytes ) violate( "input-modified", "%s modified the other side's changeset", rb.name.c_str() );
    fsRemoveDb( c.base ); fsCopyDb( hv, c.base );
    c.at = head;
    fsSyncAll();
    return true;
  };
  auto push = [&]( Cl &c, bool force ) -> bool
  {
    if ( c.at != ( int )ver.size() - 1 ) { if ( !pull( c ) ) return false; }
    std::string cs = c.dir + "/push.diff";
    withFaults( cCreate( c.base, c.local, cs ), "create-failed" );
    std::string nv = strf( "/sim/srv/v%zu.gpkg", ver.size() );
    if ( fsRead( cs ).empty() && !force ) { c.dirty = false; return true; }
    // the server applies it to a copy of its head and publishes that
    ApiCall ca = cApply( nv, cs );
    for ( int k = 0; ; ++k )
    {
      fsRemoveDb( nv ); fsCopyDb( ver.back(), nv ); fsSyncAll();
      if ( k < 2 && faultBudget > 0 && ch.chance( 15 ) )
      {
        --faultBudget;
        OpCounts oc = dryRun( ca );
        Outcome o = call( ca, { pickFault( oc, FS_ALL & ~FS_UNLINK ) } );
        if ( o.ok() ) break;
        continue;
      }
      mustOk( ca, "push-refused" );
      break;
    }
    fsSyncAll();
    DbState S = mustRead( nv, "server", "server version" ), L = readDb( c.local );
    std::string d = diffData( S, L, false, true );
    if ( !d.empty() ) violate( "push-differs", "server's new version differs from the client's file: %s", d.c_str() );
    ver.push_back( nv );
    fsRemoveDb( c.base ); fsCopyDb( nv, c.base );
    c.at = ( int )ver.size() - 1; c.dirty = false;
    fsSyncAll();
    g_stats.states.insert( S.hash() );
    return true;
  };
  int steps = ch.range( 3, g_thorough ? 16 : 9 );
  for ( int s = 0; s < steps; ++s )
  {
    Cl &c = cl[ch.choose( nc )];
    int what = ( int )ch.weighted( { 5, 2, 3 } );
    hist += strf( " %s%d", what == 0 ? "edit" : what == 1 ? "pull" : "push", ( int )( &c - &cl[0] ) );
    if ( what == 0 ) { appEdit( c.local, w.sp, g, ec( ch.range( 1, 5 ), ( int )( &c - &cl[0] ) + 1 ) ); c.dirty = true; fsSyncAll(); }
    else if ( what == 1 ) { if ( !pull( c ) ) return; }
    else if ( !push( c, false ) ) return;
  }
  // edits stop, faults stop
  faultBudget = 0;
  for ( auto &c : cl ) if ( !push( c, false ) ) return;
  for ( auto &c : cl ) if ( !pull( c ) ) return;
  sampleAdd( "%d clients, %zu versions:%s", nc, ver.size(), hist.c_str() );
  g_nontrivial = ver.size() > 1;
  DbState S = mustRead( ver.back(), "server", "server head" );
  for ( auto &c : cl )
  {
    DbState L = mustRead( c.local, "local-damaged", "local" );
    std::string d = diffData( S, L, false, true );
    if ( !d.empty() ) violate( "not-converged", "after%s client %d differs from the server: %s", hist.c_str(), ( int )( &c - &cl[0] ), d.c_str() );
    if ( !L.derived.empty() ) violate( "derived", "after%s client %d: %s", hist.c_str(), ( int )( &c - &cl[0] ), L.derived.c_str() );
  }
}

// ------------------------------------------------------------------ C07
void c07Pg();
void scenC07()
{
  if ( pgEnabled() && ch.chance( 18 ) ) { c07Pg(); return; }
  GenCfg g = rebaseCfg(); if ( ch.chance( 60 ) ) g.bigKeys = false;
  Three x = mkThree( g, "/sim/w/", 4, ch.range( 1, 6 ) );
  // extra edits of the same rows by both
  int kind = ( int )ch.choose( 4 );
  bool stale = ch.chance( 30 );
  if ( stale ) fsWrite( x.conf, "{\"geodiff\":[{\"table\":\"stale\",\"fid\":\"1\",\"changes\":[]}]}" );
  ConflictMap must; refConflicts( x.B, x.T, x.O, must );
  g_nontrivial = !must.empty();
  ApiCall c = kind == 0 ? cRebased( x.base, x.mod, x.b2t, x.out, x.conf ) : kind == 1 ? cRebasedEx( x.base, x.b2m, x.b2t, x.out, x.conf )
              : kind == 2 ? cRebase( x.base, x.their, x.mod, x.conf ) : cRebaseEx( x.base, x.mod, x.b2t, x.conf );
  sampleAdd( "%s gpkg=%d %zu conflicting rows stale=%d", c.name.c_str(), x.w.sp.gpkg, must.size(), stale );
  FsImage img = fsSnapshot();
  Outcome dry; OpCounts oc = dryRun( c, &dry );
  if ( !dry.ok() )
  {
    if ( x.trouble == 2 ) return;
    if ( x.trouble == 1 ) { knownF23(); return; }
    violate( "rebase-failed", "%s failed without faults: %s", c.name.c_str(), dry.log.c_str() );
  }
  int n = 1 + ch.choose( 4 );
  for ( int k = 0; k < n; ++k )
  {
    fsRestore( img );
    std::vector<Fault> fl;
    // errors the file system reports and retries: a run that succeeds anyway must report the same
    if ( k ) { Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK & ~FS_DEATH ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    Outcome o = call( c, fl );
    if ( !o.ok() )
    {
      if ( !o.faultFired ) violate( "rebase-failed", "%s failed without faults: %s", c.name.c_str(), o.log.c_str() );
      continue;
    }
    std::string e = checkConflicts( x.conf, x.B, x.T, x.O );
    if ( !e.empty() ) violate( "conflicts", "%s%s%s: %s", c.name.c_str(), stale ? " with a stale report" : "", fl.empty() ? "" : ( " under " + faultStr( fl[0] ) ).c_str(), e.c_str() );
  }
  g_stats.states.insert( mix64( must.size() * 7 + kind ) ^ x.O.hash() );
}

// ------------------------------------------------------------------ jobs: any call with its inputs and outputs
struct Job
{
  ApiCall c;
  std::vector<std::string> inDbs, inFiles, outFiles;
  std::string outDb;
  bool answer = false;          // return value is the result
  bool mayFail = false;         // not required to succeed without faults
};
enum { J_N = 14 };
static Job mkJob( const Three &x, int kind )
{
  HarnessScope hs;
  Job j;
  const std::string &d = x.w.dir;
  switch ( kind )
  {
    case 0: j.c = cCreate( x.base, x.mod, d + "out.diff" ); j.inDbs = { x.base, x.mod }; j.outFiles = { d + "out.diff" }; break;
    case 1: j.c = cInvert( x.b2m, d + "out.diff" ); j.inFiles = { x.b2m }; j.outFiles = { d + "out.diff" }; break;
    case 2: j.c = cRebased( x.base, x.mod, x.b2t, d + "out.diff", x.conf ); j.inDbs = { x.base, x.mod }; j.inFiles = { x.b2t }; j.outFiles = { d + "out.diff", x.conf }; break;
    case 3: j.c = cRebasedEx( x.base, x.b2m, x.b2t, d + "out.diff", x.conf ); j.inDbs = { x.base }; j.inFiles = { x.b2m, x.b2t }; j.outFiles = { d + "out.diff", x.conf }; break;
    case 4: j.c = cRebase( x.base, x.their, x.mod, x.conf ); j.inDbs = { x.base, x.their }; j.outDb = x.mod; j.outFiles = { x.conf }; break;
    case 5: j.c = cRebaseEx( x.base, x.mod, x.b2t, x.conf ); j.inDbs = { x.base }; j.inFiles = { x.b2t }; j.outDb = x.mod; j.outFiles = { x.conf }; break;
    case 6: fsCopyDb( x.base, d + "target.gpkg" ); j.c = cApply( d + "target.gpkg", x.b2m ); j.inFiles = { x.b2m }; j.outDb = d + "target.gpkg"; break;
    case 7: j.c = cDump( x.mod, d + "out.diff" ); j.inDbs = { x.mod }; j.outFiles = { d + "out.diff" }; break;
    case 8: j.c = cList( x.b2m, d + "out.json" ); j.inFiles = { x.b2m }; j.outFiles = { d + "out.json" }; break;
    case 9: j.c = cSummary( x.b2m, d + "out.json" ); j.inFiles = { x.b2m }; j.outFiles = { d + "out.json" }; break;
    case 10: j.c = cHas( x.b2m ); j.inFiles = { x.b2m }; j.answer = true; break;
    case 11: j.c = cCount( x.b2m ); j.inFiles = { x.b2m }; j.answer = true; break;
    case 12: j.c = cCopy( "sqlite", "", x.mod, "sqlite", "", d + "copy.gpkg" ); j.inDbs = { x.mod }; j.outDb = d + "copy.gpkg"; j.mayFail = true; break;
    default: j.c = cInvert( x.b2t, d + "out2.diff" ); j.inFiles = { x.b2t }; j.outFiles = { d + "out2.diff" }; break;
  }
  if ( x.trouble && kind >= 2 && kind <= 5 ) j.mayFail = true;
  return j;
}
struct JobResult
{
  bool ok = false; int rc = 0;
  std::map<std::string, std::string> files;     // absent: not there
  DbState db; bool hasDb = false;
};
static JobResult readResult( const Job &j, const CallResult &o )
{
  HarnessScope hs;
  JobResult r;
  r.rc = o.rc; r.ok = j.answer ? o.done && o.rc >= 0 : o.done && o.rc == 0;
  for ( auto &f : j.outFiles ) if ( fsExists( f ) ) r.files[f] = fsRead( f );
  if ( !j.outDb.empty() && fsExists( j.outDb ) ) { r.db = readDb( j.outDb ); r.hasDb = true; }
  return r;
}
static std::string cmpResult( const Job &j, const JobResult &a, const JobResult &b )
{
  HarnessScope hs;
  if ( j.answer ) return a.rc == b.rc ? "" : strf( "answer %d instead of %d", b.rc, a.rc );
  for ( auto &f : j.outFiles )
  {
    auto x = a.files.find( f ), y = b.files.find( f );
    if ( ( x == a.files.end() ) != ( y == b.files.end() ) ) return f + ( y == b.files.end() ? " is missing" : " exists although an undisturbed run does not leave it" );
    if ( x != a.files.end() && x->second != y->second )
    {
      size_t p = 0; while ( p < x->second.size() && p < y->second.size() && x->second[p] == y->second[p] ) ++p;
      return strf( "%s differs: %zu instead of %zu bytes, first difference at %zu", f.c_str(), y->second.size(), x->second.size(), p );
    }
  }
  if ( a.hasDb != b.hasDb ) return "output database missing or extra";
  if ( a.hasDb ) { std::string w; if ( !a.db.ok || !b.db.ok ) return a.db.ok == b.db.ok ? "" : "output database unreadable"; if ( !sameDb( a.db, b.db, w ) ) return "output database differs: " + w; }
  return "";
}

// ------------------------------------------------------------------ C08
void c08Pg(); void c14Pg();
void scenC08()
{
  if ( pgEnabled() && ch.chance( 20 ) ) { c08Pg(); return; }
  GenCfg g = rebaseCfg();
  Three x = mkThree( g, "/sim/w/", 5, ch.chance( 15 ) ? 40 : -1 );
  int kind = ( int )ch.choose( J_N );
  Job j = mkJob( x, kind );
  fsSyncAll();
  for ( auto &f : j.outFiles ) if ( ch.chance( 25 ) ) fsWrite( f, std::string( ch.choose( 2 ) ? 20000 : 30, 's' ) );
  FsImage img = fsSnapshot();
  Outcome dry; JobResult good;
  OpCounts oc = dryRun( j.c, &dry, [&] { HarnessScope hs; good = readResult( j, dry ); } );
  good.rc = dry.rc; good.ok = j.answer ? dry.rc >= 0 : dry.ok();
  // readResult ran before `dry` was set
  if ( !good.ok && !j.mayFail ) violate( "failed-without-fault", "%s failed without any fault (rc %d): %s", j.c.name.c_str(), dry.rc, dry.log.c_str() );
  sampleAdd( "%s gpkg=%d journal=%s:", j.c.name.c_str(), x.w.sp.gpkg, x.w.sp.journal.c_str() );
  g_nontrivial = good.ok;
  int n = g_thorough ? 24 : 12;
  for ( int k = 0; k < n; ++k )
  {
    if ( k && ch.chance( 3 ) ) break;
    fsRestore( img );
    Fault f = pickFault( oc, FS_ALL & ~FS_DEATH );
    if ( f.kind == F_NONE ) break;
    std::vector<Fault> fl = { f };
    if ( ch.chance( 15 ) ) { Fault f2 = pickFault( oc, FS_ALL & ~FS_DEATH ); if ( f2.kind != F_NONE ) fl.push_back( f2 ); }
    Outcome o = call( j.c, fl );
    std::string ctx = j.c.name + " under " + faultStr( f ) + ( fl.size() > 1 ? " and " + faultStr( fl[1] ) : "" );
    if ( k < 4 ) sampleAdd( "%s rc %d", faultStr( f ).c_str(), o.rc );
    JobResult r = readResult( j, o );
    if ( r.ok )
    {
      if ( !good.ok ) violate( "success-only-under-fault", "%s succeeded although it fails without faults", ctx.c_str() );
      std::string e = cmpResult( j, good, r );
      if ( !e.empty() ) violate( "incomplete-success", "%s reported success but %s", ctx.c_str(), e.c_str() );
      if ( o.faultFired ) probe( "ok_under_fault" );
    }
    else
    {
      if ( good.ok && !o.faultFired ) violate( "failed-without-fault", "%s failed although no fault fired (rc %d): %s", ctx.c_str(), o.rc, o.log.c_str() );
      if ( o.rc == 134 ) probe( "cli_abort" );
      probe( "errors_reported" );
    }
    g_stats.states.insert( mix64( f.kind * 1000003 + kind ) ^ mix64( o.rc + 5 ) ^ mix64( f.at ) );
  }
}

// ------------------------------------------------------------------ C14
void scenC14()
{
  if ( pgEnabled() && ch.chance( 20 ) ) { c14Pg(); return; }
  GenCfg g = rebaseCfg();
  Three x = mkThree( g, "/sim/w/", 5 );
  int kind = ( int )ch.choose( J_N );
  Job j = mkJob( x, kind );
  bool damaged = ch.chance( 15 ) && !j.inFiles.empty();
  if ( damaged )
  {
    const std::string &f = j.inFiles[ch.choose( j.inFiles.size() )];
    std::string b = fsRead( f );
    if ( !b.empty() ) { if ( ch.choose( 2 ) ) b.resize( ch.choose( b.size() ) ); else b[ch.choose( b.size() )] ^= ( char )( 1 << ch.choose( 8 ) ); fsWrite( f, b ); }
  }
  bool missing = !damaged && ch.chance( 8 );
  if ( missing )
  {
    // an input is not there at all
    std::vector<std::string> all = j.inDbs; all.insert( all.end(), j.inFiles.begin(), j.inFiles.end() );
    fsRemoveDb( all[ch.choose( all.size() )] );
  }
  for ( auto &f : j.outFiles ) if ( ch.chance( 25 ) ) fsWrite( f, "stale" );
  fsSyncAll();
  std::map<std::string, DbState> dbs; std::map<std::string, std::string> files;
  for ( auto &f : j.inDbs ) if ( fsExists( f ) ) dbs[f] = readDb( f );
  for ( auto &f : j.inFiles ) if ( fsExists( f ) ) files[f] = fsRead( f );
  // files that have nothing to do with the call
  fsWrite( "/sim/tmp/unrelated", "x" ); fsWrite( "/sim/w/notes.txt", "y" ); fsWrite( "/sim/cwd/unrelated", "z" );
  auto listAll = [&]
  {
    std::set<std::string> r;
    for ( auto &f : fsList( "/sim/" ) )
    {
      if ( f.compare( 0, 7, "/sim/o/" ) == 0 ) continue;
      bool side = false;
      if ( sidecar( f ) ) { std::string m = f.substr( 0, f.rfind( '-' ) ); if ( dbs.count( m ) || m == j.outDb ) side = true; }
      if ( !side ) r.insert( f );
    }
    return r;
  };
  std::set<std::string> before = listAll();
  FsImage img = fsSnapshot();
  OpCounts oc = dryRun( j.c );
  sampleAdd( "%s gpkg=%d journal=%s%s%s:", j.c.name.c_str(), x.w.sp.gpkg, x.w.sp.journal.c_str(), damaged ? " damaged input" : "", missing ? " missing input" : "" );
  g_nontrivial = true;
  int n = g_thorough ? 20 : 10;
  for ( int k = 0; k < n; ++k )
  {
    if ( k > 1 && ch.chance( 3 ) ) break;
    fsRestore( img );
    std::vector<Fault> fl;
    if ( k ) { Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    Outcome o = call( j.c, fl );
    std::string ctx = j.c.name + ( fl.empty() ? "" : " under " + faultStr( fl[0] ) ) + ( damaged ? ", damaged input" : "" ) + ( missing ? ", missing input" : "" ) + strf( ", rc %d", o.done ? o.rc : -99 );
    if ( k < 4 && !fl.empty() ) sampleAdd( "%s", faultStr( fl[0] ).c_str() );
    for ( auto &d : dbs )
    {
      DbState now = readDb( d.first );
      if ( !now.ok ) violate( "input-damaged", "%s: input database %s unusable: %s", ctx.c_str(), d.first.c_str(), now.err.c_str() );
      std::string w = diffData( d.second, now );
      if ( w.empty() && d.second.journalMode != now.journalMode ) w = "journal mode " + d.second.journalMode + " became " + now.journalMode;
      if ( !w.empty() ) violate( "input-modified", "%s: input database %s changed: %s", ctx.c_str(), d.first.c_str(), w.c_str() );
    }
    for ( auto &f : files )
    {
      if ( !fsExists( f.first ) ) violate( "input-modified", "%s: input file %s is gone", ctx.c_str(), f.first.c_str() );
      if ( fsRead( f.first ) != f.second ) violate( "input-modified", "%s: input file %s changed", ctx.c_str(), f.first.c_str() );
    }
    std::set<std::string> now = listAll();
    for ( auto &f : before ) if ( !now.count( f ) && !std::count( j.outFiles.begin(), j.outFiles.end(), f ) && f != j.outDb ) violate( "file-removed", "%s removed %s", ctx.c_str(), f.c_str() );
    if ( o.killed ) { probe( "killed" ); continue; }
    for ( auto &f : now )
    {
      if ( before.count( f ) || f == j.outDb || std::count( j.outFiles.begin(), j.outFiles.end(), f ) ) continue;
      violate( "left-behind", "%s left %s behind", ctx.c_str(), f.c_str() );
    }
    if ( openHandles( "/sim/" ) ) violate( "handles-left", "%s left %d files open", ctx.c_str(), openHandles( "/sim/" ) );
    g_stats.states.insert( mix64( ( fl.empty() ? 0 : fl[0].kind * 1000003 + fl[0].at ) + kind ) ^ mix64( o.rc + 5 ) );
  }
}

// ------------------------------------------------------------------ C13
void c13Pg();
void scenC13()
{
  if ( pgEnabled() && ch.chance( 15 ) ) { c13Pg(); return; }
  int np = ch.range( 2, 3 );
  std::vector<Three> xs; std::vector<Job> js;
  for ( int i = 0; i < np; ++i )
  {
    GenCfg g = rebaseCfg(); g.wide = false;
    xs.push_back( mkThree( g, strf( "/sim/p%d/", i ), 5, ch.range( 1, 4 ) ) );
    js.push_back( mkJob( xs.back(), ( int )ch.weighted( { 3, 1, 3, 3, 5, 5, 2, 2, 1, 1, 1, 1, 1, 1 } ) ) );
  }
  fsSyncAll();
  FsImage img = fsSnapshot();
  std::vector<JobResult> solo; std::vector<OpCounts> ocs; uint64_t ops = 0;
  std::vector<std::string> logs;
  for ( int i = 0; i < np; ++i )
  {
    Outcome o; JobResult r;
    ocs.push_back( dryRun( js[i].c, &o, [&] { r = readResult( js[i], o ); } ) );
    r.rc = o.rc; r.ok = js[i].answer ? o.rc >= 0 : o.ok();
    solo.push_back( r );
    logs.push_back( o.log );
    for ( int c = 0; c < C_LCDEL; ++c ) ops += ocs[i].n[c];
    if ( !r.ok && !js[i].mayFail ) violate( "failed-alone", "%s failed alone (rc %d): %s", js[i].c.name.c_str(), o.rc, o.log.c_str() );
  }
  int rounds = g_thorough ? 6 : 3;
  for ( int k = 0; k < rounds; ++k )
  {
    fsRestore( img );
    std::vector<std::pair<Proc *, std::function<int()>>> fns;
    std::vector<Proc *> ps;
    int victim = ch.chance( 40 ) ? ( int )ch.choose( np ) : -1;
    std::string names;
    for ( int i = 0; i < np; ++i )
    {
      Proc *p = newProc( js[i].c.name ); ps.push_back( p );
      if ( i == victim ) { Fault f; f.kind = F_KILL; f.at = 1 + ch.choose( ( uint32_t )std::max<uint64_t>( 1, ops / np ) ); p->faults = { f }; }
      fns.push_back( { p, js[i].c.fn } );
      names += ( i ? " | " : "" ) + js[i].c.name;
    }
    int budget = ch.range( 1, 40 );
    if ( !k ) sampleAdd( "%s, up to %d switches%s", names.c_str(), budget, victim >= 0 ? ", one killed" : "" );
    std::vector<CallResult> res = runConcurrent( fns, budget, ( int )std::max<uint64_t>( 2, ops * 2 / budget ) );
    g_nontrivial = true;
    for ( int i = 0; i < np; ++i )
    {
      std::string ctx = strf( "%s running with %s%s", js[i].c.name.c_str(), names.c_str(), victim >= 0 ? strf( " (process %d killed)", victim ).c_str() : "" );
      if ( res[i].killed ) { probe( "killed" ); continue; }
      bool cli = js[i].c.name.find( "[cli]" ) != std::string::npos;
      if ( res[i].exc && !cli ) violate( "exception-escaped", "%s: %s", ctx.c_str(), res[i].excText.c_str() );
      JobResult r = readResult( js[i], res[i] );
      if ( r.ok != solo[i].ok || r.rc != solo[i].rc ) violate( "interference", "%s: return code %d, alone %d", ctx.c_str(), r.rc, solo[i].rc );
      std::string e = cmpResult( js[i], solo[i], r );
      if ( r.ok && !e.empty() ) violate( "interference", "%s: %s", ctx.c_str(), e.c_str() );
    }
    if ( victim < 0 || !res[victim].killed )
      for ( auto &f : fsList( "/sim/tmp/" ) ) violate( "left-behind", "%s left %s behind", names.c_str(), f.c_str() );
  }
}
// ------------------------------------------------------------------ C20
struct LogGuard { ~LogGuard() { HarnessScope hs; g_logHook = nullptr; setLogger( 0, LevelInfo ); } };
static std::string logStr( const LogRec &r ) { return strf( "level %d '%s' to callback %d", r.level, r.text.substr( 0, 120 ).c_str(), r.cb ); }
static bool sameMsg( const LogRec &a, const LogRec &b )
{
  if ( a.level != b.level || a.cb != b.cb ) return false;
  // names of temporary files differ from call to call
  return a.text == b.text || ( a.text.find( "/sim/tmp" ) != std::string::npos && b.text.find( "/sim/tmp" ) != std::string::npos );
}
void logChecks( const ApiCall &c, bool answer, const OpCounts &oc, int sets, const std::function<void()> &restore, const std::function<std::string()> &state )
{
  HarnessScope hs;
  LogGuard guard;
  int n = g_thorough ? 6 : 3;
  for ( int k = 0; k < n; ++k )
  {
    if ( k && ch.chance( 3 ) ) break;
    std::vector<Fault> fl;
    if ( ch.chance( 65 ) ) { Fault f = pickFault( oc, sets ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    std::string ctx = c.name + ( fl.empty() ? "" : " under " + faultStr( fl[0] ) );
    restore();
    setLogger( 0, LevelDebug );
    Outcome o = call( c, fl );
    std::vector<LogRec> all = g_logAll;
    std::string st = state();
    bool ok = o.done && ( answer ? o.rc >= 0 : o.rc == 0 );
    int errors = 0, warnings = 0;
    for ( auto &r : all )
    {
      if ( r.level < LevelError || r.level > LevelDebug ) violate( "bad-level", "%s: message with %s", ctx.c_str(), logStr( r ).c_str() );
      if ( r.level == LevelError ) ++errors;
      if ( r.level == LevelWarning ) ++warnings;
    }
    if ( !all.empty() ) g_nontrivial = true;
    if ( o.done && !ok && !errors ) violate( "silent-failure", "%s failed (rc %d) and no error message was delivered", ctx.c_str(), o.rc );
    if ( o.done && !answer && o.rc == GEODIFF_CONFICTS && !warnings ) violate( "silent-conflict", "%s ended with a conflict and no warning was delivered", ctx.c_str() );
    if ( o.done && !ok ) probe( "log.failed_calls" );
    if ( k < 3 ) sampleAdd( "%s rc %d: %zu messages", ctx.c_str(), o.rc, all.size() );
    g_stats.states.insert( mix64( all.size() * 31 + errors * 7 + warnings ) ^ mix64( o.rc + 77 ) ^ std::hash<std::string>()( c.name ) );
    for ( int j = g_thorough ? 5 : 3; j > 0; --j )
    {
      // the same call again with other levels and callbacks
      int level = ( int )ch.choose( 5 ), cb = ch.chance( 12 ) ? -1 : ( int )ch.choose( 2 );
      struct Sw { size_t after; int cb, level; };
      std::vector<Sw> sw;
      if ( ch.chance( 40 ) ) for ( int q = ch.range( 1, 3 ); q > 0; --q ) sw.push_back( { ( size_t )ch.range( 1, 4 ), ch.chance( 15 ) ? -1 : ( int )ch.choose( 2 ), ( int )ch.choose( 5 ) } );
      std::vector<LogRec> want;
      { int l = level, b = cb; for ( auto &r : all ) if ( b >= 0 && r.level <= l ) { want.push_back( { b, r.level, r.text } ); for ( auto &s : sw ) if ( s.after == want.size() ) { b = s.cb; l = s.level; } } }
      restore();
      setLogger( cb, level );
      if ( !sw.empty() ) g_logHook = [&]( size_t i ) { for ( auto &s : sw ) if ( s.after == i ) setLogger( s.cb, s.level ); };
      Outcome o2 = call( c, fl );
      g_logHook = nullptr;
      std::vector<LogRec> got = g_logAll;
      setLogger( 0, LevelInfo );
      std::string how = strf( "%s at level %d%s%s", ctx.c_str(), level, cb < 0 ? " without callback" : "", sw.empty() ? "" : " (changed on the way)" );
      for ( size_t i = 0; i < std::max( want.size(), got.size() ); ++i )
      {
        if ( i >= got.size() ) violate( "message-lost", "%s: message %zu is missing: %s", how.c_str(), i, logStr( want[i] ).c_str() );
        if ( i >= want.size() ) violate( "message-extra", "%s: message %zu should not be delivered: %s", how.c_str(), i, logStr( got[i] ).c_str() );
        if ( !sameMsg( want[i], got[i] ) ) violate( "message-other", "%s: message %zu is %s instead of %s", how.c_str(), i, logStr( got[i] ).c_str(), logStr( want[i] ).c_str() );
      }
      if ( o2.done != o.done || o2.rc != o.rc ) violate( "level-matters", "%s: rc %d (done %d), at level debug rc %d (done %d)", how.c_str(), o2.rc, o2.done, o.rc, o.done );
      std::string s2 = state();
      // (whether the commit a crashing server was working on survives is drawn anew)
      if ( s2 != st && ( fl.empty() || fl[0].kind != F_PG_CRASH ) ) violate( "level-matters", "%s: the result is not the same as at level debug", how.c_str() );
      probe( "log.compared" );
    }
  }
}
static std::string nullName( int i ) { static const char *N[] = { "createChangeset", "invertChangeset", "createRebasedChangeset", "applyChangeset", "listChanges", "listChangesSummary", "hasChanges", "changesCount", "dumpData", "rebase", "rebaseEx", "makeCopy", "createChangesetEx", "applyChangesetEx", "createRebasedChangesetEx" }; return N[i]; }
static ApiCall nullCall( const Three &x )
{
  HarnessScope hs;
  int k = ( int )ch.choose( 15 ), hole = ( int )ch.choose( 6 );
  auto a = std::make_shared<std::vector<std::string>>( std::vector<std::string>{ x.base, x.mod, x.b2t, x.out, x.conf, x.their } );
  return { nullName( k ) + "(null)", [a, k, hole]
  {
    auto s = [&]( int i ) { return hole == i ? nullptr : ( *a )[i].c_str(); };
    auto d = [&]( int i, const char *v ) { return hole == i ? nullptr : v; };
    switch ( k )
    {
      case 0: return GEODIFF_createChangeset( s( 0 ), s( 1 ), hole > 1 ? nullptr : s( 3 ) );
      case 1: return GEODIFF_invertChangeset( s( 2 ), hole != 2 ? nullptr : s( 3 ) );
      case 2: return GEODIFF_createRebasedChangeset( s( 0 ), s( 1 ), s( 2 ), s( 3 ), hole == 5 ? nullptr : s( 4 ) );
      case 3: return GEODIFF_applyChangeset( hole ? nullptr : s( 5 ), s( 2 ) );
      case 4: return GEODIFF_listChanges( s( 2 ), hole != 2 ? nullptr : s( 3 ) );
      case 5: return GEODIFF_listChangesSummary( s( 2 ), hole != 2 ? nullptr : s( 3 ) );
      case 6: return GEODIFF_hasChanges( nullptr );
      case 7: return GEODIFF_changesCount( nullptr );
      case 8: return GEODIFF_dumpData( d( 2, "sqlite" ), "", s( 1 ), hole == 2 || hole == 1 ? s( 3 ) : nullptr );
      case 9: return GEODIFF_rebase( s( 0 ), s( 5 ), s( 1 ), hole == 0 || hole == 5 || hole == 1 ? s( 4 ) : nullptr );
      case 10: return GEODIFF_rebaseEx( d( 3, "sqlite" ), "", s( 0 ), s( 1 ), s( 2 ), hole == 5 ? nullptr : s( 4 ) );
      case 11: return GEODIFF_makeCopy( d( 2, "sqlite" ), "", s( 0 ), d( 5, "sqlite" ), "", hole == 3 || hole == 4 ? nullptr : s( 3 ) );
      case 12: return GEODIFF_createChangesetEx( d( 2, "sqlite" ), "", s( 0 ), s( 1 ), hole > 3 ? nullptr : s( 3 ) );
      case 13: return GEODIFF_applyChangesetEx( d( 0, "sqlite" ), "", hole == 1 || hole > 2 ? nullptr : s( 5 ), s( 2 ) );
      default: return GEODIFF_createRebasedChangesetEx( d( 5, "sqlite" ), "", s( 0 ), s( 1 ), s( 2 ), s( 3 ), s( 4 ) );
    }
  }, {} };
}
void c20Pg();
void scenC20()
{
  if ( ch.chance( 25 ) ) { c20Pg(); return; }
  GenCfg g = rebaseCfg();
  Three x = mkThree( g, "/sim/w/", 5 );
  int kind = ( int )ch.weighted( { 2, 2, 3, 3, 3, 3, 5, 1, 1, 1, 1, 1, 1, 1 } );
  Job j = mkJob( x, kind );
  if ( j.c.name.find( "[cli]" ) != std::string::npos ) return;      // the tool chooses its own level
  if ( ch.chance( 8 ) ) { j = Job(); j.c = nullCall( x ); j.answer = j.c.name.compare( 0, 3, "has" ) == 0 || j.c.name.compare( 0, 12, "changesCount" ) == 0; j.inDbs = { x.base, x.mod, x.their }; }
  // reasons to fail: the target moved on, inputs are missing or damaged
  int why = ( int )ch.weighted( { 5, 5, 2, 2 } );
  if ( why == 1 && !j.outDb.empty() && fsExists( j.outDb ) ) appEdit( j.outDb, x.w.sp, g, ec( ch.range( 1, 6 ), 3 ) );
  if ( why == 2 ) { auto v = j.inDbs; v.insert( v.end(), j.inFiles.begin(), j.inFiles.end() ); if ( !v.empty() ) { std::string f = v[ch.choose( v.size() )]; fsRemoveDb( f ); } }
  if ( why == 3 && !j.inFiles.empty() ) { std::string f = j.inFiles[ch.choose( j.inFiles.size() )], b = fsRead( f ); if ( !b.empty() ) { if ( ch.choose( 2 ) ) b.resize( ch.choose( b.size() ) ); else b[ch.choose( b.size() )] ^= 1 << ch.choose( 8 ); fsWrite( f, b ); } }
  fsSyncAll();
  FsImage img = fsSnapshot();
  OpCounts oc = dryRun( j.c );
  logChecks( j.c, j.answer, oc, FS_ALL & ~FS_MEM & ~FS_DEATH, [&] { fsRestore( img ); }, [&]
  {
    std::string s;
    for ( auto &f : j.outFiles ) s += fsExists( f ) ? strf( "[%zx]", std::hash<std::string>()( fsRead( f ) ) ) : "[-]";
    if ( !j.outDb.empty() && fsExists( j.outDb ) ) { DbState d = readDb( j.outDb ); if ( j.c.name.compare( 0, 8, "makeCopy" ) == 0 ) d.tables.erase( "gpkg_contents" ); s += d.ok ? strf( "%zx", ( size_t )d.hash() ) : "unreadable"; }
    return s;
  } );
}

// ------------------------------------------------------------------ C22
// the tool with its real main() and the library's own logger; standard output and error go to memory
struct StdStreams
{
  int fd[2], saved[2];
  StdStreams() { for ( int i = 0; i < 2; ++i ) { saved[i] = ( int )syscall( SYS_fcntl, i + 1, F_DUPFD, 210 ); fd[i] = ( int )syscall( SYS_memfd_create, "std", 0 ); syscall( SYS_dup3, fd[i], i + 1, 0 ); } }
  ~StdStreams() { flush(); for ( int i = 0; i < 2; ++i ) { syscall( SYS_dup3, saved[i], i + 1, 0 ); syscall( SYS_close, saved[i] ); syscall( SYS_close, fd[i] ); } }
  void flush() { HarnessScope hs; fflush( stdout ); fflush( stderr ); std::cout.flush(); std::cerr.flush(); }
  std::string take( int i )
  {
    HarnessScope hs; flush();
    std::string s; char b[4096]; long n, at = 0;
    while ( ( n = syscall( SYS_pread64, fd[i], b, sizeof b, at ) ) > 0 ) { s.append( b, n ); at += n; }
    syscall( SYS_ftruncate, fd[i], 0 ); syscall( SYS_lseek, fd[i], 0, SEEK_SET );
    return s;
  }
};
static size_t occurrences( const std::string &in, const std::string &t ) { size_t n = 0; for ( size_t i = in.find( t ); i != std::string::npos; i = in.find( t, i + t.size() ) ) ++n; return n; }
// GEODIFF_LOGGER_LEVEL is read once, when the library writes its first message
int toolLevel() { int l = ( int )ch.choose( 6 ) - 1; if ( l >= 0 ) setenv( "GEODIFF_LOGGER_LEVEL", strf( "%d", l ).c_str(), 1 ); else unsetenv( "GEODIFF_LOGGER_LEVEL" ); return l; }
void toolChecks( int lev, const std::vector<std::string> &full, const ApiCall &api, const std::function<void()> &restore, const std::function<std::string()> &state )
{
  struct Env { ~Env() { HarnessScope hs; setLogger( 0, LevelInfo ); } } env;
  StdStreams std_;
  OpCounts oc = dryRun( api );
  auto tool = [&]( std::vector<std::string> a ) { return cTool( a ); };
  std::string mode = full[0];
  struct R { std::vector<Fault> fl; Outcome o; std::string st, so, se; };
  std::vector<R> rs;
  int n = g_thorough ? 5 : 3;
  bool apiFirst = ch.chance( 20 );      // the library's default level instead of the tool's
  std_.take( 0 ); std_.take( 1 );
  for ( int k = 0; k < n; ++k )
  {
    R r;
    if ( k ? ch.chance( 80 ) : ch.chance( 20 ) ) { Fault f = pickFault( oc, FS_ALL & ~FS_MEM & ~FS_DEATH ); if ( f.kind != F_NONE ) r.fl.push_back( f ); }
    restore();
    auto a = full;
    if ( ch.chance( 10 ) ) a.push_back( "extra" );
    r.o = call( apiFirst ? api : tool( a ), r.fl );
    r.so = std_.take( 0 ); r.se = std_.take( 1 ); r.st = state(); std_.take( 0 ); std_.take( 1 );
    rs.push_back( r );
  }
  // wrong arguments
  if ( !apiFirst ) for ( int k = ch.range( 0, 3 ); k > 0; --k )
  {
    restore();
    std::string before = state();
    static const char *BAD[] = { "", "createchangeset", "apply", "--help", "invert", "list", "rebase", "-v" };
    std::vector<std::string> a;
    int what = ( int )ch.weighted( { 5, 2, 1, 1 } );
    if ( what == 0 ) { a = full; a.resize( 1 + ch.choose( a.size() - 1 ) ); }
    else if ( what == 1 ) { a = full; a[0] = BAD[ch.choose( 8 )]; }
    else if ( what == 3 ) a = { "version" };
    Outcome o = call( tool( a ) );
    std::string so = std_.take( 0 ), se = std_.take( 1 ), ctx = "geodiffinfo";
    for ( auto &q : a ) ctx += " '" + q + "'";
    if ( what == 3 ) { if ( o.rc != 0 || so.find( GEODIFF_version() ) == std::string::npos ) violate( "version", "%s: exit status %d, printed '%s'", ctx.c_str(), o.rc, so.c_str() ); continue; }
    if ( o.rc == 0 ) violate( "wrong-arguments-accepted", "%s: exit status 0", ctx.c_str() );
    if ( state() != before ) violate( "wrong-arguments-effect", "%s changed files", ctx.c_str() );
    if ( so.empty() && se.empty() && lev ) violate( "wrong-arguments-silent", "%s: exit status %d and nothing printed", ctx.c_str(), o.rc );
    std_.take( 0 ); std_.take( 1 );
    probe( "tool.wrong_arguments" );
  }
  // the same with the library's function and a callback of our own
  for ( auto &r : rs )
  {
    std::string ctx = ( apiFirst ? mode + " by default" : "geodiffinfo " + mode ) + ( r.fl.empty() ? "" : " under " + faultStr( r.fl[0] ) );
    restore();
    setLogger( 0, LevelDebug );
    Outcome o = call( api, r.fl );
    std::vector<LogRec> msgs = g_logAll;
    std::string st = state();
    if ( r.o.done != o.done || r.o.rc != o.rc ) violate( "other-status", "%s: exit status %d (done %d), the function returned %d (done %d)", ctx.c_str(), r.o.rc, r.o.done, o.rc, o.done );
    if ( r.st != st && ( r.fl.empty() || r.fl[0].kind != F_PG_CRASH ) ) violate( "other-effect", "%s: files are not the same as after the function", ctx.c_str() );
    int l = lev >= 0 ? lev : apiFirst ? LevelError : LevelWarning;
    std::string all = r.so + "\n" + r.se, adm;
    std::map<std::string, size_t> want; std::set<std::string> no;
    for ( auto &q : msgs )
    {
      if ( q.text.find( "/sim/tmp" ) != std::string::npos ) { if ( q.level <= l ) adm += q.text + "\n"; continue; }
      if ( q.level <= l ) { ++want[q.text]; adm += q.text + "\n"; } else no.insert( q.text );
    }
    for ( auto &w : want ) if ( w.first.size() > 3 && occurrences( all, w.first ) < w.second ) violate( "not-printed", "%s at level %d: '%s' was printed %zu instead of %zu times", ctx.c_str(), l, w.first.substr( 0, 150 ).c_str(), occurrences( all, w.first ), w.second );
    for ( auto &t : no ) if ( t.size() > 8 && adm.find( t ) == std::string::npos && occurrences( all, t ) ) violate( "printed", "%s at level %d printed '%s'", ctx.c_str(), l, t.substr( 0, 150 ).c_str() );
    if ( !msgs.empty() || o.rc == 0 ) g_nontrivial = true;
    sampleAdd( "%s rc %d, level %d, %zu+%zu bytes printed", ctx.c_str(), o.rc, lev, r.so.size(), r.se.size() );
    g_stats.states.insert( mix64( want.size() * 31 + no.size() * 7 + l ) ^ mix64( o.rc + 99 ) ^ std::hash<std::string>()( mode ) );
    probe( "tool.compared" );
  }
}
void c22Pg();
void scenC22()
{
  if ( ch.chance( 15 ) ) { c22Pg(); return; }
  int lev = toolLevel();
  GenCfg g = rebaseCfg();
  Three x = mkThree( g, "/sim/w/", 5 );
  const std::string d = "/sim/w/", out = d + "o 1.diff", json = d + "o.json", target = d + "target.gpkg";
  fsCopyDb( x.base, target );
  std::string drv = ch.chance( 5 ) ? "nosuch" : "sqlite", info = ch.chance( 20 ) ? "x" : "", other = d + "missing";
  auto opt = [&]( const std::string &f ) { return ch.chance( 4 ) ? other : f; };
  std::string base = opt( x.base ), mod = opt( x.mod ), b2t = opt( x.b2t ), b2m = opt( x.b2m );
  struct M { std::string mode; std::vector<std::string> a; ApiCall api; std::string db; };
  std::string copy = d + "copy.gpkg";
  std::vector<M> ms;
  ms.push_back( { "createChangeset", { base, mod, out }, cCreate( base, mod, out, 0 ), "" } );
  ms.push_back( { "createRebasedChangeset", { base, mod, b2t, out, x.conf }, cRebased( base, mod, b2t, out, x.conf, 0 ), "" } );
  ms.push_back( { "applyChangeset", { target, b2m }, cApply( target, b2m, 0 ), target } );
  ms.push_back( { "listChanges", { b2m, json }, cList( b2m, json, 0 ), "" } );
  ms.push_back( { "listChangesSummary", { b2m, json }, cSummary( b2m, json, 0 ), "" } );
  ms.push_back( { "makeCopy", { drv, info, mod, "sqlite", info, copy }, cCopy( drv, info, mod, "sqlite", info, copy ), copy } );
  ms.push_back( { "createChangesetEx", { drv, info, base, mod, out }, cCreateEx( drv, info, base, mod, out ), "" } );
  ms.push_back( { "applyChangesetEx", { drv, info, target, b2m }, cApplyEx( drv, info, target, b2m ), target } );
  ms.push_back( { "rebaseEx", { drv, info, base, x.mod, b2t, x.conf }, cRebaseDrv( drv, info, base, x.mod, b2t, x.conf ), x.mod } );
  ms.push_back( { "dumpData", { drv, info, mod, out }, cDumpEx( drv, info, mod, out ), "" } );
  M &m = ms[ch.choose( ms.size() )];
  if ( m.db == target && ch.chance( 40 ) ) appEdit( target, x.w.sp, g, ec( ch.range( 1, 6 ), 3 ) );
  if ( ch.chance( 15 ) ) { std::string b = fsRead( b2m ); if ( !b.empty() ) { b.resize( ch.choose( b.size() ) ); fsWrite( b2m, b ); } }
  if ( ch.chance( 30 ) ) { fsWrite( out, "stale" ); fsWrite( json, "stale" ); fsWrite( x.conf, "stale" ); }
  fsSyncAll();
  FsImage img = fsSnapshot();
  auto state = [&]
  {
    std::string s;
    std::set<std::string> dbs = { x.base, x.mod, x.their, target, copy };
    for ( auto &f : fsList( "/sim/" ) )
    {
      if ( sidecar( f ) || f.compare( 0, 8, "/sim/tmp" ) == 0 || f.compare( 0, 6, "/sim/w" ) ) continue;
      s += f + "=";
      if ( dbs.count( f ) ) { DbState st = readDb( f ); if ( f == copy ) st.tables.erase( "gpkg_contents" ); s += st.ok ? strf( "%zx;", ( size_t )st.hash() ) : "unreadable;"; }
      else s += strf( "%zx;", std::hash<std::string>()( fsRead( f ) ) );
    }
    return s;
  };
  std::vector<std::string> full = m.a; full.insert( full.begin(), m.mode );
  toolChecks( lev, full, m.api, [&] { fsRestore( img ); }, state );
}

} // namespace sim
