// Scenarios C01-C04, C10: replication chain, atomic apply, acceptance, inversion, format.
#include "scen.h"
#include <algorithm>

namespace sim {

static const char *D = "/sim/w/";

EditCfg ec( int ops, int side ) { EditCfg e; e.ops = ops; e.side = side; return e; }

// a pair of databases base/mod with the spec, and a changeset between them made by geodiff
World mkPair( const GenCfg &g, int rows, int ops, const std::string &dir )
{
  World w = mkWorld( g, dir, "base.gpkg", rows );
  fsCopyDb( dir + "base.gpkg", dir + "mod.gpkg" );
  appEdit( dir + "mod.gpkg", w.sp, g, ec( ops, 1 ) );
  fsSyncAll();
  return w;
}

// runs the call, half of the time under a fault: returns when it reported success (at the latest without faults)
void okUnderFaults( const ApiCall &c, const std::string &cls, int sets, int pct )
{
  if ( ch.chance( pct ) )
  {
    OpCounts oc = dryRun( c );
    Fault f = pickFault( oc, sets );
    if ( f.kind != F_NONE )
    {
      Outcome o = call( c, { f } );
      if ( o.ok() ) { if ( o.faultFired ) probe( "ok_under_fault" ); return; }
      if ( !o.killed && !o.faultFired ) violate( cls, "%s failed without any fault (rc %d): %s", c.name.c_str(), o.rc, o.log.c_str() );
      probe( o.killed ? "restarts" : "failed_under_fault" );
    }
  }
  mustOk( c, cls );
}

void scenC10()
{
  GenCfg g; g.fk = ch.chance( 20 );
  World w = mkPair( g, ch.range( 0, 8 ), ch.chance( 10 ) ? 0 : ch.range( 1, 8 ) );
  DbState a = readDb( w.path( "base.gpkg" ) ), b = readDb( w.path( "mod.gpkg" ) );
  if ( !a.ok || !b.ok ) herr( "setup: %s %s", a.err.c_str(), b.err.c_str() );
  std::string cs = w.path( "d.diff" );
  if ( ch.chance( 30 ) ) fsWrite( cs, "stale bytes of an earlier file" );
  ChangeMap want = refDiff( a, b );
  okUnderFaults( cCreate( w.path( "base.gpkg" ), w.path( "mod.gpkg" ), cs ), "create-failed" );
  std::string bytes = fsRead( cs );
  Changeset c = parseCs( bytes );
  size_t n = 0; for ( auto &t : want ) n += t.second.size();
  sampleAdd( "%zu tables gpkg=%d, %zu changes, file of %zu bytes", w.sp.tables.size(), w.sp.gpkg, n, bytes.size() );
  g_nontrivial = n > 0;
  g_stats.states.insert( a.hash() ); g_stats.states.insert( b.hash() );
  std::string e = strictCs( c );
  if ( !e.empty() ) violate( "format", "createChangeset: %s", e.c_str() );
  ChangeMap got; e = toMap( c, got );
  if ( !e.empty() ) violate( "minimal", "createChangeset: %s", e.c_str() );
  e = diffMaps( want, got );
  if ( !e.empty() ) violate( "diff-content", "createChangeset: %s", e.c_str() );
  if ( want.empty() && !bytes.empty() ) violate( "empty-diff", "diff of equal databases has %zu bytes", bytes.size() );
  // same diff again: same bytes
  if ( ch.chance( 30 ) )
  {
    okUnderFaults( cCreate( w.path( "base.gpkg" ), w.path( "mod.gpkg" ), w.path( "d2.diff" ) ), "create-failed" );
    if ( fsRead( w.path( "d2.diff" ) ) != bytes ) violate( "diff-unstable", "two diffs of the same databases differ" );
  }
  okUnderFaults( cInvert( cs, w.path( "inv.diff" ) ), "invert-failed" );
  Changeset ci = parseCs( fsRead( w.path( "inv.diff" ) ) );
  e = strictCs( ci );
  if ( !e.empty() ) violate( "format", "invertChangeset: %s", e.c_str() );
  ChangeMap gi; e = toMap( ci, gi );
  if ( e.empty() ) e = diffMaps( refInvert( want, a ), gi );
  if ( !e.empty() ) violate( "invert-content", "invertChangeset: %s", e.c_str() );
  okUnderFaults( cDump( w.path( "mod.gpkg" ), w.path( "dump.diff" ) ), "dump-failed" );
  Changeset cd = parseCs( fsRead( w.path( "dump.diff" ) ) );
  e = strictCs( cd );
  if ( !e.empty() ) violate( "format", "dumpData: %s", e.c_str() );
  // a rebased changeset, keys permitting
  if ( ch.chance( 40 ) )
  {
    GenCfg g2; g2.intPkOnly = true; g2.unique = false; g2.bigKeys = ch.chance( 40 );
    World v = mkPair( g2, 5, ch.range( 1, 5 ), "/sim/v/" );
    fsCopyDb( v.path( "base.gpkg" ), v.path( "their.gpkg" ) );
    appEdit( v.path( "their.gpkg" ), v.sp, g2, ec( ch.range( 1, 5 ), 2 ) );
    fsSyncAll();
    okUnderFaults( cCreate( v.path( "base.gpkg" ), v.path( "their.gpkg" ), v.path( "t.diff" ) ), "create-failed" );
    okUnderFaults( cRebased( v.path( "base.gpkg" ), v.path( "mod.gpkg" ), v.path( "t.diff" ), v.path( "r.diff" ), v.path( "c.json" ) ), "rebase-failed" );
    e = strictCs( parseCs( fsRead( v.path( "r.diff" ) ) ), false );
    if ( !e.empty() ) violate( "format", "createRebasedChangeset: %s", e.c_str() );
    probe( "rebased_changesets" );
  }
}

void scenC01()
{
  GenCfg g; g.fk = ch.chance( 20 ); g.collateKeys = ch.chance( 50 );
  World w = mkWorld( g, "/sim/p/", "db.gpkg", ch.range( 0, 8 ) );
  g_dirs.insert( "/sim/r0" ); g_dirs.insert( "/sim/r1" ); g_dirs.insert( "/sim/srv" );
  int nrep = 1 + ch.chance( 50 );
  int nver = ch.range( 1, 5 );
  struct Rep { std::string db; int applied = 0; DbState start; };
  std::vector<Rep> reps;
  for ( int r = 0; r < nrep; ++r )
  {
    Rep x; x.db = strf( "/sim/r%d/db.gpkg", r );
    fsCopyDb( "/sim/p/db.gpkg", x.db );
    if ( ch.chance( 25 ) ) { Db d( x.db ); d.tryExec( ch.choose( 2 ) ? "PRAGMA journal_mode=wal" : "PRAGMA journal_mode=delete" ); }
    x.start = readDb( x.db );
    reps.push_back( x );
  }
  fsSyncAll();
  std::vector<DbState> ver;
  ver.push_back( readDb( "/sim/p/db.gpkg" ) );
  fsCopyDb( "/sim/p/db.gpkg", "/sim/srv/v0.gpkg" );
  // primary: edit, snapshot, diff
  std::unique_ptr<Db> app;
  if ( ch.chance( 30 ) ) app.reset( new Db( "/sim/p/db.gpkg" ) );    // the application keeps the file open
  for ( int v = 1; v <= nver; ++v )
  {
    EditCfg e = ec( ch.chance( 8 ) ? 0 : ch.range( 1, 7 ), v );
    if ( app ) { app->exec( "BEGIN" ); appEditOn( *app, w.sp, g, e ); app->exec( "COMMIT" ); }
    else appEdit( "/sim/p/db.gpkg", w.sp, g, e );
    if ( ch.chance( 6 ) && !app ) { Db d( "/sim/p/db.gpkg" ); d.tryExec( "VACUUM" ); }
    std::string vf = strf( "/sim/srv/v%d.gpkg", v );
    fsCopyDb( "/sim/p/db.gpkg", vf );
    fsSyncAll();
    ver.push_back( readDb( vf ) );
    if ( !ver.back().ok ) herr( "version unreadable: %s", ver.back().err.c_str() );
    g_stats.states.insert( ver.back().hash() );
    std::string from = strf( "/sim/srv/v%d.gpkg", v - 1 ), cs = strf( "/sim/srv/c%d.diff", v );
    // diff against the live file sometimes
    std::string to = !app && ch.chance( 30 ) ? "/sim/p/db.gpkg" : vf;
    ApiCall cc = cCreate( from, to, cs );
    if ( ch.chance( 20 ) )
    {
      OpCounts oc = dryRun( cc );
      Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK );
      Outcome o = call( cc, { f }, true );
      if ( o.killed ) { probe( "primary_restarts" ); if ( app && app->epoch != g_powerEpoch ) app.reset( new Db( "/sim/p/db.gpkg" ) ); }
      if ( o.ok() && o.faultFired ) probe( "create_ok_under_fault" );
      if ( !o.ok() ) mustOk( cc, "create-failed" );
    }
    else mustOk( cc, "create-failed" );
    fsSyncAll();
  }
  app.reset();
  fsSyncAll();
  sampleAdd( "%d versions, %d replicas, gpkg=%d journal=%s", nver, nrep, w.sp.gpkg, w.sp.journal.c_str() );
  // network: messages (replica, version); lost ones are resent, order is the scheduler's
  struct Msg { int rep, v; };
  std::vector<Msg> net;
  for ( int r = 0; r < nrep; ++r ) for ( int v = 1; v <= nver; ++v ) net.push_back( { r, v } );
  int steps = 0, lossBudget = 6, faultBudget = 3;
  std::string sched;
  while ( true )
  {
    bool done = true;
    for ( auto &r : reps ) if ( r.applied < nver ) done = false;
    if ( done ) break;
    if ( ++steps > 400 ) violate( "no-progress", "replicas did not catch up after 400 deliveries" );
    if ( net.empty() )
    {
      for ( size_t r = 0; r < reps.size(); ++r ) for ( int v = reps[r].applied + 1; v <= nver; ++v ) net.push_back( { ( int )r, v } );   // resend
      probe( "net.resend" );
    }
    // 0 keeps the order
    size_t k = ch.chance( 40 ) ? ch.choose( net.size() ) : 0;
    if ( k ) probe( "net.reordered" );
    Msg m = net[k];
    net.erase( net.begin() + k );
    if ( lossBudget > 0 && ch.chance( 8 ) ) { --lossBudget; probe( "net.dropped" ); continue; }
    if ( lossBudget > 0 && ch.chance( 12 ) ) { --lossBudget; net.push_back( m ); probe( "net.duplicated" ); }
    if ( lossBudget > 0 && ch.chance( 8 ) ) { --lossBudget; net.push_back( m ); probe( "net.delayed" ); g_clock += 1000000; continue; }
    Rep &r = reps[m.rep];
    if ( m.v != r.applied + 1 ) { probe( "net.out_of_sequence" ); continue; }      // replica keeps a sequence number
    std::string cs = strf( "/sim/srv/c%d.diff", m.v );
    ApiCall ca = cApply( r.db, cs );
    DbState before = readDb( r.db );
    std::vector<Fault> fl;
    if ( faultBudget > 0 && ch.chance( 25 ) )
    {
      --faultBudget;
      OpCounts oc = dryRun( ca );
      fl.push_back( pickFault( oc, FS_ALL & ~FS_UNLINK ) );
    }
    Outcome o = call( ca, fl, true );
    sched += strf( " r%d:c%d%s", m.rep, m.v, fl.empty() ? "" : ( "!" + faultStr( fl[0] ) ).c_str() );
    g_nontrivial = true;
    if ( o.killed )
    {
      probe( "replica_restarts" );
      // the restarted replica does not know: it retries, a second application must be refused
      DbState now = mustRead( r.db, "replica-damaged", "replica after a crash" );
      bool isNew = diffData( now, ver[m.v], false, true ).empty(), isOld = diffData( now, before ).empty();
      if ( !isNew && !isOld ) violate( "replica-mixed", "replica %d is neither at version %d nor %d after a crash during apply: %s", m.rep, m.v - 1, m.v, diffData( now, ver[m.v], false, true ).c_str() );
      Outcome o2 = call( ca );
      if ( !o2.ok() && !isNew )
      {
        RefApply ra = refApply( now, parseCs( fsRead( cs ) ), w.sp );
        if ( ra.ok && ra.transientUnique ) { probe( "unique_handover_refused" ); break; }
      }
      if ( !o2.ok() && !isNew ) violate( "apply-refused", "replica %d refuses the next changeset after a crash: %s", m.rep, o2.log.c_str() );
      if ( o2.ok() && isNew && !isOld ) violate( "applied-twice", "changeset %d applied twice on replica %d", m.v, m.rep );
    }
    else if ( !o.ok() )
    {
      if ( fl.empty() )
      {
        // unique values handed over between rows of a version may be refused: not a success, nothing promised for it here
        Changeset c = parseCs( fsRead( cs ) );
        RefApply ra = refApply( before, c, w.sp );
        if ( ra.ok && ra.transientUnique )
        {
          probe( "unique_handover_refused" );
          DbState now = mustRead( r.db, "replica-damaged", "replica after a refusal" );
          std::string d = diffData( now, before );
          if ( !d.empty() ) violate( "refused-but-changed", "refused changeset %d changed replica %d: %s", m.v, m.rep, d.c_str() );
          break;
        }
      }
      if ( fl.empty() ) violate( "apply-refused", "replica %d at version %d refuses changeset %d: %s", m.rep, r.applied, m.v, o.log.c_str() );
      if ( o.faultFired && before.journalMode == "wal" )
      {
        // SQLite reports some errors after the commit record is in the WAL: the changes are there
        DbState now = mustRead( r.db, "replica-damaged", "replica after an error" );
        if ( diffData( now, ver[m.v], false, true ).empty() && !diffData( now, before ).empty() ) { probe( "error_after_commit" ); r.applied = m.v; continue; }
      }
      // failed because of the fault: the message is delivered again later
      fsSyncAll();      // SQLite may have deleted a WAL that ends with the commit: not to be brought back by a later power cut
      if ( ch.chance( 50 ) ) net.insert( net.begin(), m ); else net.push_back( m );
      continue;
    }
    DbState now = mustRead( r.db, "replica-damaged", "replica after apply" );
    std::string d = diffData( now, ver[m.v], false, true );
    if ( !d.empty() ) violate( "replica-differs", "after changeset %d replica %d differs from the primary: %s", m.v, m.rep, d.c_str() );
    if ( now.schema != r.start.schema ) violate( "replica-schema", "replica schema changed: %s", diffData( [&] { DbState x = r.start; x.tables = now.tables; return x; }(), now ).c_str() );
    for ( auto &t : now.tables ) if ( !t.second.hasPk() && t.second.rows != r.start.tables[t.first].rows ) violate( "replica-nopk", "table %s without key changed on the replica", t.first.c_str() );
    if ( !now.derived.empty() ) violate( "replica-derived", "%s", now.derived.c_str() );
    if ( now.journalMode != r.start.journalMode ) violate( "replica-journal", "journal mode %s became %s", r.start.journalMode.c_str(), now.journalMode.c_str() );
    r.applied = m.v;
    fsSyncAll();        // time passes: what SQLite left to the directory's next sync reaches the disk
  }
  sampleAdd( "schedule%s", sched.c_str() );
}

// ------------------------------------------------------------------ C02
bool sameDb( const DbState &a, const DbState &b, std::string &why )
{
  why = diffData( a, b );
  if ( why.empty() && a.derived != b.derived ) why = b.derived;
  return why.empty();
}

void scenC02()
{
  GenCfg g; g.fk = ch.chance( 20 ); g.userTriggers = false; g.wide = ch.chance( 20 );
  int ops = ch.range( 1, 8 );
  World w = mkPair( g, ch.range( 1, 8 ), ops );
  std::string base = w.path( "base.gpkg" ), cs = w.path( "d.diff" ), t = w.path( "target.gpkg" );
  mustOk( cCreate( base, w.path( "mod.gpkg" ), cs ), "create-failed" );
  fsCopyDb( base, t );
  int mode = ( int )ch.weighted( { 6, 2, 1, 1 } );
  // 0 good changeset, 1 conflicting target, 2 damaged changeset, 3 half way conflict
  if ( mode == 1 ) appEdit( t, w.sp, g, ec( ch.range( 1, 4 ), 3 ) );
  if ( mode == 2 )
  {
    std::string b = fsRead( cs );
    if ( !b.empty() ) { if ( ch.choose( 2 ) ) b.resize( ch.choose( b.size() ) ); else b[ch.choose( b.size() )] ^= ( char )( 1 << ch.choose( 8 ) ); fsWrite( cs, b ); }
  }
  if ( mode == 3 )
  {
    Changeset c = parseCs( fsRead( cs ) );
    if ( c.ok && c.entries.size() > 1 )
    {
      // the last change repeated: everything before it matches, the repetition does not
      c.entries.push_back( c.entries.back() );
      fsWrite( cs, encodeCs( c ) );
    }
  }
  // a larger journal: many pages touched
  fsSyncAll();
  std::unique_ptr<Db> other;
  DbState before = readDb( t );
  if ( !before.ok ) herr( "setup %s", before.err.c_str() );
  if ( !before.derived.empty() ) herr( "setup derived %s", before.derived.c_str() );
  g_stats.states.insert( before.hash() );
  FsImage img = fsSnapshot();
  ApiCall ca = cApply( t, cs );
  Outcome dry;
  DbState after;
  OpCounts oc = dryRun( ca, &dry, [&] { after = readDb( t ); } );
  if ( !after.ok ) violate( "unusable", "database unusable after apply without faults: %s", after.err.c_str() );
  std::string why;
  if ( !dry.ok() && !sameDb( before, after, why ) ) violate( "refused-but-changed", "apply reported an error (%s) but changed the database: %s", dry.log.c_str(), why.c_str() );
  if ( dry.ok() && mode != 2 && !after.derived.empty() ) violate( "derived", "%s", after.derived.c_str() );
  bool complete = dry.ok();
  g_nontrivial = true;
  sampleAdd( "mode %d gpkg=%d journal=%s dry=%d ops:", mode, w.sp.gpkg, w.sp.journal.c_str(), dry.rc );
  int n = g_thorough ? 24 : 10;
  if ( mode == 1 || mode == 2 ) n /= 2;
  for ( int k = 0; k < n; ++k )
  {
    if ( k && ch.chance( 3 ) ) break;
    fsRestore( img );
    Fault f = pickFault( oc, FS_ALL );
    if ( f.kind == F_NONE ) break;
    std::vector<Fault> fl = { f };
    if ( f.kind != F_KILL && f.kind != F_POWER && ch.chance( 15 ) ) { Fault f2 = pickFault( oc, FS_DEATH ); fl.push_back( f2 ); }
    // another process keeps a lock on the file
    int lock = ( int )ch.weighted( { 12, 1, 1, 1 } );
    std::unique_ptr<Db> holder;
    if ( lock )
    {
      holder.reset( new Db( t ) );
      if ( lock == 1 ) holder->exec( "BEGIN IMMEDIATE" );
      if ( lock == 2 ) holder->exec( "BEGIN EXCLUSIVE" );
      if ( lock == 3 ) { holder->exec( "BEGIN" ); holder->query( "SELECT count(*) FROM sqlite_master" ); }
      probe( strf( "fault.lock_held_%s", lock == 1 ? "reserved" : lock == 2 ? "exclusive" : "shared" ) );
    }
    Outcome o = call( ca, fl );
    if ( holder ) { holder->tryExec( "ROLLBACK" ); holder.reset(); }
    std::string ctx = strf( "%s%s, journal %s, lock %d, rc %d", faultStr( f ).c_str(), fl.size() > 1 ? ( " then " + faultStr( fl[1] ) ).c_str() : "", w.sp.journal.c_str(), lock, o.done ? o.rc : -99 );
    if ( k < 4 ) sampleAdd( "%s", ctx.c_str() );
    DbState now = readDb( t );
    if ( !now.ok ) violate( "unusable", "database unusable after apply with %s: %s", ctx.c_str(), now.err.c_str() );
    std::string wo, wn;
    bool isOld = sameDb( before, now, wo ), isNew = complete && sameDb( after, now, wn );
    if ( o.killed )
    {
      probe( isNew ? "crash.recovered_new" : "crash.recovered_old" );
      if ( !isOld && !isNew ) violate( "crash-mixed", "after a crash (%s) the database holds neither the old nor the new state: vs old: %s; vs new: %s", ctx.c_str(), wo.c_str(), wn.c_str() );
    }
    else if ( o.ok() )
    {
      if ( !isNew ) violate( "success-incomplete", "apply reported success (%s) but the database does not hold the complete new state: %s", ctx.c_str(), complete ? wn.c_str() : "the changeset does not match the target" );
      // reported success survives the end of the process; a later power cut may bring back the old state at most
      if ( ch.chance( 20 ) )
      {
        powerCut();
        DbState p = readDb( t );
        if ( !p.ok ) violate( "unusable", "database unusable after success and a power cut (%s): %s", ctx.c_str(), p.err.c_str() );
        std::string a1, a2;
        if ( !sameDb( after, p, a1 ) && !sameDb( before, p, a2 ) ) violate( "crash-mixed", "success then power cut: %s", a1.c_str() );
      }
    }
    else
    {
      bool tol = false;
      if ( !isOld && isNew && w.sp.journal == "wal" && o.faultFired ) tol = true;   // commit frames written, error reported after: SQLite cannot take them back
      if ( tol ) probe( "error_after_commit_point" );
      if ( !isOld && !tol ) violate( "error-but-changed", "apply reported an error (%s; %s) but changed the database: %s", ctx.c_str(), o.log.c_str(), wo.c_str() );
      // the file is not left locked
      Db chk( t );
      int rc = chk.tryExec( "BEGIN EXCLUSIVE" );
      if ( rc == SQLITE_BUSY || rc == SQLITE_LOCKED ) violate( "left-locked", "after the failed call (%s) the database is still locked: %d", ctx.c_str(), rc );
      chk.tryExec( "ROLLBACK" );
    }
    g_stats.states.insert( now.hash() ^ mix64( f.kind ) );
  }
}

// ------------------------------------------------------------------ C03
// a damaged-in-meaning changeset: still well formed, but something it was recorded against is changed
static std::string mutateCs( Changeset &c, const DbState &target, const DbSpec &sp )
{
  if ( c.entries.empty() ) return "nothing to mutate";
  int k = ( int )ch.choose( 14 );
  size_t ei = ch.choose( c.entries.size() );
  CsEntry &e = c.entries[ei];
  CsTable &t = c.tables[e.table];
  auto ti = target.tables.find( t.name );
  auto otherValue = [&]( size_t col, const Val &now, Val &out )
  {
    if ( ti == target.tables.end() ) return false;
    for ( auto &r : ti->second.rows ) if ( col < r.second.size() && r.second[col] != now ) { out = r.second[col]; return true; }
    if ( now.t == 1 ) { out = Val::Int( now.i ^ 1 ); return true; }
    if ( now.t == 3 && now.s.size() < 30 && !now.s.empty() ) { out = Val::Text( now.s + "x" ); return true; }
    if ( now.t == 4 ) { out = Val::Blob( now.s + "x" ); return true; }
    return false;
  };
  std::vector<size_t> nonPk, pk;
  for ( size_t i = 0; i < t.pk.size(); ++i ) ( t.pk[i] ? pk : nonPk ).push_back( i );
  switch ( k )
  {
    case 0: case 1:
      {
        // an old value
        if ( e.op == OP_INSERT || nonPk.empty() ) return "none";
        std::vector<size_t> have; for ( size_t i : nonPk ) if ( e.oldv[i].t ) have.push_back( i );
        if ( have.empty() ) return "none";
        size_t col = have[k == 1 ? have.size() - 1 : ch.choose( have.size() )];
        Val v;
        if ( !otherValue( col, e.oldv[col], v ) ) return "none";
        e.oldv[col] = v;
        return strf( "old value of column %zu", col );
      }
    case 2:
      {
        Row &r = e.op == OP_INSERT ? e.newv : e.oldv;
        size_t col = pk[ch.choose( pk.size() )];
        Val v;
        if ( !otherValue( col, r[col], v ) ) return "none";
        r[col] = v;
        return "key value";
      }
    case 3:
      {
        // the whole table block claims other key columns
        size_t i = ch.choose( t.pk.size() );
        t.pk[i] = !t.pk[i];
        bool any = false; for ( bool b : t.pk ) any |= b;
        if ( !any ) t.pk[i] = true;
        return "key flags";
      }
    case 4:
      {
        // one column more in every entry of the table
        int tb = e.table;
        c.tables[tb].pk.push_back( false );
        for ( auto &x : c.entries ) if ( x.table == tb ) { if ( x.op != OP_INSERT ) x.oldv.push_back( x.op == OP_DELETE ? Val::Null() : Val() ); if ( x.op != OP_DELETE ) x.newv.push_back( x.op == OP_INSERT ? Val::Null() : Val() ); }
        return "extra column";
      }
    case 5:
      {
        // one column less
        int tb = e.table;
        if ( c.tables[tb].pk.size() < 2 || c.tables[tb].pk.back() ) return "none";
        c.tables[tb].pk.pop_back();
        for ( auto &x : c.entries ) if ( x.table == tb ) { if ( x.op != OP_INSERT ) x.oldv.pop_back(); if ( x.op != OP_DELETE ) x.newv.pop_back(); }
        return "column missing";
      }
    case 6: { t.name = ch.choose( 2 ) ? "no such table" : sp.tables[ch.choose( sp.tables.size() )].name; return "table name " + t.name; }
    case 8: case 9:
      {
        // the table once more, defined in another way; in the second block an entry of the first
        CsTable t2 = t; CsEntry d = e;
        std::string how;
        if ( ch.choose( 2 ) )
        {
          size_t i = ch.choose( t2.pk.size() ); t2.pk[i] = !t2.pk[i];
          bool any = false; for ( bool b : t2.pk ) any |= b;
          if ( !any ) return "none";
          how = "other key columns";
        }
        else if ( ch.choose( 2 ) || t2.pk.size() < 2 || t2.pk.back() )
        {
          t2.pk.push_back( false ); how = "a column more";
          if ( d.op != OP_INSERT ) d.oldv.push_back( d.op == OP_DELETE ? Val::Null() : Val() );
          if ( d.op != OP_DELETE ) d.newv.push_back( d.op == OP_INSERT ? Val::Null() : Val() );
        }
        else { t2.pk.pop_back(); if ( d.op != OP_INSERT ) d.oldv.pop_back(); if ( d.op != OP_DELETE ) d.newv.pop_back(); how = "a column less"; }
        d.table = ( int )c.tables.size(); c.tables.push_back( t2 );
        size_t at = ei + 1;
        if ( ch.choose( 2 ) ) c.entries[ei] = d; else c.entries.insert( c.entries.begin() + at, d );
        return "the table repeated with " + how;
      }
    case 10: case 11: case 12:
      {
        // an old text value in other letters, of a column or key that compares without regard to case when there is one
        std::vector<std::pair<size_t, size_t>> have, pref;
        for ( size_t x = 0; x < c.entries.size(); ++x )
        {
          const CsEntry &y = c.entries[x];
          const TableSpec *ts = nullptr;
          for ( auto &q : sp.tables ) if ( q.name == c.tables[y.table].name ) ts = &q;
          for ( size_t i = 0; i < y.oldv.size(); ++i )
            if ( y.oldv[i].t == 3 )
            {
              have.push_back( { x, i } );
              if ( ts && i < ts->cols.size() && !ts->cols[i].collate.empty() ) pref.push_back( { x, i } );
            }
        }
        if ( !pref.empty() && ch.chance( 85 ) ) have = pref;
        if ( have.empty() ) return "none";
        auto pos = have[ch.choose( have.size() )];
        std::string &v = c.entries[pos.first].oldv[pos.second].s, was = v;
        for ( char &x : v ) if ( isalpha( ( unsigned char )x ) ) x ^= 32;
        return v == was ? "none" : strf( "letter case of old value of column %zu", pos.second );
      }
    case 7: { CsEntry d = e; size_t at = ch.choose( c.entries.size() + 1 ); c.entries.insert( c.entries.begin() + at, d ); return "entry repeated"; }
    default:
      {
        size_t b = ch.choose( c.entries.size() );
        std::swap( c.entries[ei], c.entries[b] );
        return "entries reordered";
      }
  }
}

void scenC03()
{
  GenCfg g; g.fk = ch.chance( 20 ); g.collateKeys = ch.chance( 50 ); g.wide = ch.chance( 15 );
  if ( ch.chance( 50 ) ) g.unique = false;
  World w = mkWorld( g, "/sim/w/", "v0.gpkg", ch.range( 1, 7 ) );
  int nv = ch.range( 1, 3 );
  std::vector<std::string> ver = { w.path( "v0.gpkg" ) }, css;
  for ( int v = 1; v <= nv; ++v )
  {
    std::string f = w.path( strf( "v%d.gpkg", v ) );
    fsCopyDb( ver.back(), f );
    appEdit( f, w.sp, g, ec( ch.range( 1, 7 ), v ) );
    fsSyncAll();
    std::string cs = w.path( strf( "c%d.diff", v ) );
    mustOk( cCreate( ver.back(), f, cs, 0 ), "create-failed" );
    css.push_back( cs );
    ver.push_back( f );
  }
  std::string t = w.path( "target.gpkg" );
  int start = ch.choose( nv + 1 );
  fsCopyDb( ver[start], t );
  std::string what = strf( "target at v%d", start );
  int tk = ( int )ch.weighted( { 6, 3, 1, 1, 1 } );
  DbSpec spec = w.sp;
  if ( tk == 1 ) { appEdit( t, w.sp, g, ec( ch.range( 1, 4 ), 9 ) ); what += " diverged"; }
  if ( tk == 2 )
  {
    // another schema: a column added, a table dropped or renamed
    Db d( t );
    const TableSpec &ts = w.sp.tables[ch.choose( w.sp.tables.size() )];
    int k = ch.choose( 2 );
    if ( k == 0 && d.tryExec( "ALTER TABLE " + qi( ts.name ) + " ADD COLUMN added_col INTEGER" ) == SQLITE_OK ) what += " column added";
    else if ( k == 1 && !w.sp.gpkg && d.tryExec( "DROP VIEW IF EXISTS v1; DROP TABLE " + qi( ts.name ) ) == SQLITE_OK ) what += " table dropped";
  }
  if ( tk == 3 && nv > 1 )
  {
    // constraint the primary did not have
    const TableSpec &ts = w.sp.tables[0];
    int col = -1; for ( size_t i = 0; i < ts.cols.size(); ++i ) if ( !ts.cols[i].pk && ts.cols[i].kind == K_TEXT ) col = ( int )i;
    if ( col >= 0 && ts.hasPk() )
    {
      Db d( t );
      std::string ix = "CREATE UNIQUE INDEX uix ON " + qi( ts.name ) + "(" + qi( ts.cols[col].name ) + ( ts.cols[col].collate.empty() ? "" : " COLLATE BINARY" ) + ")";
      if ( d.tryExec( ix ) == SQLITE_OK ) { what += " unique index"; spec.tables[0].cols[col].unique = true; }
    }
  }
  if ( tk == 4 )
  {
    // an unrelated database
    GenCfg g2; World o = mkWorld( g2, "/sim/x/", "db.gpkg", 5 );
    fsRemoveDb( t ); fsCopyDb( o.path( "db.gpkg" ), t );
    spec = o.sp;
    what += " replaced by an unrelated database";
  }
  fsSyncAll();
  sampleAdd( "%s gpkg=%d journal=%s", what.c_str(), spec.gpkg, spec.journal.c_str() );
  DbState model = readDb( t );
  if ( !model.ok ) herr( "setup: %s", model.err.c_str() );
  int n = ch.range( 1, 6 ), accepted = 0, refused = 0;
  for ( int k = 0; k < n; ++k )
  {
    size_t ci = ch.choose( css.size() );
    // mostly the one that continues where the target is
    if ( k == 0 && ch.chance( 40 ) ) ci = std::min<size_t>( start, css.size() - 1 );
    Changeset c = parseCs( fsRead( css[ci] ) );
    if ( !c.ok ) violate( "format", "%s", c.err.c_str() );
    std::string how = strf( "c%zu", ci + 1 ), file = css[ci];
    // values may meet a column of another type there: stored converted by SQLite, so only acceptance is judged
    bool foreign = tk == 4;
    if ( ch.chance( 35 ) )
    {
      std::string mut = mutateCs( c, model, spec );
      if ( mut.compare( 0, 10, "table name" ) == 0 && mut != "table name no such table" ) foreign = true;
      how += " with " + mut;
      file = w.path( strf( "m%d.diff", k ) );
      fsWrite( file, encodeCs( c ) );
    }
    RefApply ra = refApply( model, c, spec );
    ApiCall ca = cApply( t, file );
    std::vector<Fault> fl;
    if ( ch.chance( 20 ) ) { OpCounts oc = dryRun( ca ); Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    Outcome o = call( ca, fl );
    DbState now = mustRead( t, "unusable", "target after apply" );
    std::string ctx = what + ", " + how + ( fl.empty() ? "" : " under " + faultStr( fl[0] ) );
    if ( k < 4 ) sampleAdd( "%s -> rc %d", how.c_str(), o.done ? o.rc : -99 );
    std::string dOld = diffData( now, model ), dNew = ra.ok ? diffData( now, ra.state ) : "x";
    bool acceptable = o.ok() || ( o.killed && dOld != "" ) || ( !o.ok() && o.faultFired && dOld != "" && spec.journal == "wal" );
    if ( acceptable )
    {
      if ( !ra.ok && foreign && accepted ) break;     // the values of the first were stored converted to the types here
      if ( !ra.ok ) violate( "accepted-mismatch", "%s: accepted although %s", ctx.c_str(), ra.why.c_str() );
      if ( !dNew.empty() && !foreign ) violate( "partial-effect", "%s: accepted but not every change took full effect: %s", ctx.c_str(), dNew.c_str() );
      if ( !now.derived.empty() ) violate( "derived", "%s: %s", ctx.c_str(), now.derived.c_str() );
      model = now; ++accepted;
    }
    else
    {
      if ( !dOld.empty() ) violate( "refused-but-changed", "%s: refused (%s) but the target changed: %s", ctx.c_str(), o.log.c_str(), dOld.c_str() );
      if ( !o.killed && !o.faultFired && ra.ok && !ra.transientUnique && !foreign ) violate( "refused-match", "%s: refused although every change matches: %s", ctx.c_str(), o.log.c_str() );
      ++refused;
    }
    fsSyncAll();
    g_stats.states.insert( now.hash() );
  }
  probe( "accepted", accepted ); probe( "refused", refused );
  g_nontrivial = true;
}

// ------------------------------------------------------------------ C04
// the inverse of a changeset no database made has the inverse of every change, under the same table definition
static void c04Hand()
{
  g_dirs.insert( "/sim/w" );
  Changeset c = inventCs( ch.chance( 15 ) ? 300 : 25 );
  std::string f = "/sim/w/c.diff", inv = "/sim/w/i.diff", bytes = encodeCs( c );
  fsWrite( f, bytes );
  fsSyncAll();
  c = parseCs( bytes );
  if ( !c.ok ) violate( "format", "hand made changeset: %s", c.err.c_str() );
  okUnderFaults( cInvert( f, inv ), "invert-failed", FS_ALL & ~FS_UNLINK, 60 );
  Changeset ci = parseCs( fsRead( inv ) );
  if ( !ci.ok ) violate( "inverse-incomplete", "inverse of a hand made changeset does not parse: %s", ci.err.c_str() );
  auto list = []( const Changeset & x, bool invert )
  {
    std::vector<std::string> r;
    for ( auto &e : x.entries )
    {
      const CsTable &t = x.tables[e.table];
      Change k; k.op = e.op; k.oldv = e.oldv; k.newv = e.newv;
      if ( invert ) k = refInvertChange( k, t.pk );
      std::string s = t.name + "|";
      for ( bool b : t.pk ) s += b ? '1' : '0';
      s += strf( "|%d|", k.op ) + rowStr( k.oldv ) + "|" + rowStr( k.newv );
      r.push_back( s );
    }
    std::sort( r.begin(), r.end() );
    return r;
  };
  auto want = list( c, true ), got = list( ci, false );
  if ( want != got )
  {
    std::string miss = "-", extra = "-";
    for ( auto &x : want ) if ( !std::binary_search( got.begin(), got.end(), x ) ) { miss = x; break; }
    for ( auto &x : got ) if ( !std::binary_search( want.begin(), want.end(), x ) ) { extra = x; break; }
    violate( "inverse-incomplete", "inverse of a hand made changeset: %zu changes, expected %zu; missing %s; unexpected %s", got.size(), want.size(), miss.substr( 0, 300 ).c_str(), extra.substr( 0, 300 ).c_str() );
  }
  if ( fsRead( f ) != bytes ) violate( "input-modified", "invertChangeset changed its input" );
  probe( "hand_made", c.entries.size() );
  sampleAdd( "hand made changeset with %zu table records and %zu changes inverted", c.tables.size(), c.entries.size() );
  g_nontrivial = !c.entries.empty();
  g_stats.states.insert( fnv( bytes.data(), bytes.size() ) );
}
void scenC04()
{
  if ( ch.chance( 8 ) ) { c04Hand(); return; }
  GenCfg g; g.fk = ch.chance( 20 ); g.collateKeys = ch.chance( 50 ); g.unique = false; g.wide = ch.chance( 15 );
  World w = mkWorld( g, "/sim/w/", "v0.gpkg", ch.range( 0, 7 ) );
  int nv = ch.range( 1, 4 );
  std::vector<DbState> st;
  std::string t = w.path( "target.gpkg" );
  st.push_back( mustRead( w.path( "v0.gpkg" ), "setup", "setup" ) );
  std::string prev = w.path( "v0.gpkg" );
  for ( int v = 1; v <= nv; ++v )
  {
    std::string f = w.path( strf( "v%d.gpkg", v ) );
    fsCopyDb( prev, f );
    appEdit( f, w.sp, g, ec( ch.chance( 8 ) ? 0 : ch.range( 1, 7 ), v ) );
    fsSyncAll();
    std::string cs = w.path( strf( "c%d.diff", v ) ), inv = w.path( strf( "i%d.diff", v ) );
    mustOk( cCreate( prev, f, cs, 0 ), "create-failed" );
    st.push_back( mustRead( f, "setup", "setup" ) );
    std::string csBytes = fsRead( cs );
    fsSyncAll();
    okUnderFaults( cInvert( cs, inv ), "invert-failed", FS_ALL & ~FS_UNLINK, 60 );
    fsSyncAll();
    Changeset c = parseCs( csBytes ), ci = parseCs( fsRead( inv ) );
    if ( !c.ok ) violate( "format", "create: %s", c.err.c_str() );
    if ( !ci.ok ) violate( "inverse-incomplete", "inverse does not parse: %s", ci.err.c_str() );
    ChangeMap m, mi; std::string e = toMap( c, m ); if ( e.empty() ) e = toMap( ci, mi );
    if ( e.empty() ) e = diffMaps( refInvert( m, st[v - 1] ), mi );
    if ( !e.empty() ) violate( "inverse-incomplete", "invertChangeset reported success, version %d: %s", v, e.c_str() );
    if ( fsRead( cs ) != csBytes ) violate( "input-modified", "invertChangeset changed its input" );
    if ( ch.chance( 25 ) )
    {
      okUnderFaults( cInvert( inv, w.path( "ii.diff" ) ), "invert-failed" );
      Changeset cii = parseCs( fsRead( w.path( "ii.diff" ) ) ); ChangeMap mii; e = cii.ok ? toMap( cii, mii ) : cii.err;
      if ( e.empty() ) e = diffMaps( m, mii );
      if ( !e.empty() ) violate( "double-inverse", "inverse of the inverse of version %d: %s", v, e.c_str() );
    }
    prev = f;
  }
  // walk through the history: down with inverses, up with the changesets
  fsCopyDb( prev, t );
  fsSyncAll();
  DbState start = readDb( t );
  int at = nv, steps = nv + ch.range( 0, 6 );
  std::string walk;
  for ( int k = 0; k < steps; ++k )
  {
    bool down = at == 0 ? false : at == nv ? true : k < nv ? !ch.chance( 15 ) : ch.chance( 50 );
    std::string cs = w.path( strf( down ? "i%d.diff" : "c%d.diff", down ? at : at + 1 ) );
    int to = down ? at - 1 : at + 1;
    ApiCall ca = cApply( t, cs );
    std::vector<Fault> fl;
    if ( ch.chance( 20 ) ) { OpCounts oc = dryRun( ca ); Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    Outcome o = call( ca, fl );
    walk += strf( " %s%d", down ? "undo" : "redo", to ) + ( fl.empty() ? "" : "!" + faultStr( fl[0] ) );
    DbState now = mustRead( t, "unusable", "database after undo/redo" );
    for ( auto &x : now.tables ) if ( !x.second.hasPk() && x.second.rows != start.tables[x.first].rows ) violate( "nopk-changed", "after%s: table %s without key changed", walk.c_str(), x.first.c_str() );
    std::string d = diffData( now, st[to], true, true ), d0 = diffData( now, st[at], true, true );
    if ( o.ok() || ( ( o.killed || o.faultFired ) && d.empty() ) )
    {
      if ( !d.empty() ) violate( down ? "undo-differs" : "redo-differs", "after%s the database differs from version %d: %s", walk.c_str(), to, d.c_str() );
      at = to;
    }
    else
    {
      if ( !o.killed && !o.faultFired ) violate( down ? "undo-refused" : "redo-refused", "after%s: %s", walk.c_str(), o.log.c_str() );
      if ( !d0.empty() ) violate( "failed-but-changed", "after%s the database is at neither version: %s", walk.c_str(), d0.c_str() );
    }
    if ( !now.derived.empty() ) violate( "derived", "after%s: %s", walk.c_str(), now.derived.c_str() );
    fsSyncAll();
    g_nontrivial = true;
    g_stats.states.insert( now.hash() );
  }
  sampleAdd( "%d versions, gpkg=%d journal=%s:%s", nv, w.sp.gpkg, w.sp.journal.c_str(), walk.c_str() );
}
} // namespace sim
