// Scenarios C09, C11: readers of changeset files, damaged and whole.
#include "scen.h"
#include "scen_pg.h"
#include <algorithm>
#include <cmath>

namespace sim {

static const char *D = "/sim/w/";

// ------------------------------------------------------------------ sources of changesets
// a changeset no database made: any tables, any values, records in any order
Changeset inventCs( int maxEntries )
{
  HarnessScope hs;
  GenCfg g; g.fk = ch.chance( 20 ); g.wide = ch.chance( 10 ); g.collate = false;
  DbSpec sp = genSpec( g );
  Changeset c; c.ok = true;
  int blocks = ch.range( 1, 4 );
  for ( int b = 0; b < blocks; ++b )
  {
    const TableSpec &t = sp.tables[ch.choose( sp.tables.size() )];
    CsTable h; h.name = t.name;
    for ( auto &col : t.cols ) h.pk.push_back( col.pk != 0 );
    if ( !t.hasPk() ) h.pk[0] = true;
    if ( b && ch.chance( 12 ) )
    {
      // the previous table again, with other key columns or another number of columns
      h = c.tables.back();
      int how = ch.choose( 3 );
      if ( how == 0 ) { size_t i = ch.choose( h.pk.size() ); h.pk[i] = !h.pk[i]; if ( std::find( h.pk.begin(), h.pk.end(), true ) == h.pk.end() ) h.pk[0] = true; }
      else if ( how == 1 ) h.pk.push_back( ch.chance( 50 ) );
      else if ( h.pk.size() > 1 ) { h.pk.pop_back(); if ( std::find( h.pk.begin(), h.pk.end(), true ) == h.pk.end() ) h.pk[0] = true; }
    }
    if ( ch.chance( 3 ) ) { h.name = ""; }
    if ( ch.chance( 4 ) )
    {
      // many columns: the count takes two or three bytes
      int n = ch.chance( 30 ) ? ch.range( 16380, 16390 ) : ch.range( 126, 300 );
      while ( ( int )h.pk.size() < n ) h.pk.push_back( false );
    }
    c.tables.push_back( h );
    int n = ch.chance( 15 ) ? 0 : ch.chance( 3 ) ? maxEntries : ch.range( 1, 4 );
    if ( h.pk.size() > 1000 && n > 2 ) n = 2;
    auto val = [&]( size_t i, bool key ) -> Val
    {
      if ( i >= t.cols.size() ) return Val::Int( i );
      Val v = genVal( t.cols[i], g );
      if ( key && v.t == 5 ) v = Val::Int( ch.choose( 1000 ) );
      return v;
    };
    for ( int k = 0; k < n; ++k )
    {
      CsEntry e; e.table = ( int )c.tables.size() - 1;
      e.op = ch.choose( 3 ) == 0 ? OP_INSERT : ch.choose( 2 ) ? OP_UPDATE : OP_DELETE;
      e.indirect = ch.chance( 10 );
      for ( size_t i = 0; i < h.pk.size(); ++i )
      {
        bool pk = h.pk[i];
        Val o = val( i, pk ), w = val( i, pk );
        if ( e.op == OP_INSERT ) o = Val();
        else if ( e.op == OP_DELETE ) w = Val();
        else if ( ch.chance( pk ? 90 : 50 ) ) { w = Val(); if ( !pk ) o = Val(); }
        if ( e.op != OP_INSERT ) e.oldv.push_back( o );
        if ( e.op != OP_DELETE ) e.newv.push_back( w );
      }
      c.entries.push_back( e );
    }
  }
  return c;
}

// writes a changeset file made by one of the producers; says what it is
static std::string makeCs( const std::string &file, World *wOut = nullptr )
{
  HarnessScope hs;
  int k = ( int )ch.weighted( { 5, 2, 2, 4, 1 } );
  if ( k <= 2 )
  {
    GenCfg g; g.fk = ch.chance( 20 ); g.wide = ch.chance( 12 );
    World w = mkPair( g, ch.range( 0, 7 ), ch.range( 1, 8 ), "/sim/p/" );
    if ( wOut ) *wOut = w;
    std::string d = w.path( "d.diff" );
    if ( k == 2 ) { mustOk( cDump( w.path( "mod.gpkg" ), file, 0 ), "dump-failed" ); return "dump"; }
    mustOk( cCreate( w.path( "base.gpkg" ), w.path( "mod.gpkg" ), k ? d : file, 0 ), "create-failed" );
    if ( k == 1 ) { mustOk( cInvert( d, file ), "invert-failed" ); return "inverse"; }
    return "diff";
  }
  if ( k == 3 ) { fsWrite( file, encodeCs( inventCs( ch.chance( 10 ) ? 700 : 40 ) ) ); return "hand made"; }
  // nothing or headers only
  if ( ch.choose( 2 ) ) { fsWrite( file, "" ); return "empty"; }
  Changeset c = inventCs( 3 ); c.entries.clear();
  std::string o; for ( auto &t : c.tables ) encTable( o, t );
  fsWrite( file, o );
  return "headers only";
}

// ------------------------------------------------------------------ C11
void scenC11()
{
  std::string f = strf( "%sc.diff", D );
  g_dirs.insert( "/sim/w" );
  std::string kind = makeCs( f );
  std::string bytes = fsRead( f );
  Changeset c = parseCs( bytes );
  if ( !c.ok ) violate( "format", "%s: %s", kind.c_str(), c.err.c_str() );
  sampleAdd( "%s, %zu table records, %zu changes, %zu bytes", kind.c_str(), c.tables.size(), c.entries.size(), bytes.size() );
  g_nontrivial = !c.entries.empty();
  g_stats.states.insert( fnv( bytes.data(), bytes.size() ) );
  std::string js = strf( "%sout.json", D );
  int rounds = g_thorough ? 16 : 8;
  for ( int i = 0; i < rounds; ++i )
  {
    int what = i < 4 ? i : ch.choose( 4 );
    bool cut = i >= 4 && ch.chance( 25 ) && !bytes.empty();
    std::string file = f;
    Changeset now = c;
    if ( cut )
    {
      // cut inside a record: cannot be read in full
      size_t at = 1 + ch.choose( ( uint32_t )std::min<size_t>( bytes.size() - 1, 4000000 ) );
      file = strf( "%scut.diff", D );
      fsWrite( file, bytes.substr( 0, at ) );
      now = parseCs( bytes.substr( 0, at ) );
      probe( now.ok ? "cut_between_records" : "cut_inside_record" );
    }
    if ( what >= 2 && ch.chance( 30 ) ) fsWrite( js, ch.choose( 2 ) ? "{ \"geodiff\": [] }" : std::string( 5000, 'x' ) );
    ApiCall ca = what == 0 ? cHas( file ) : what == 1 ? cCount( file ) : what == 2 ? cList( file, js ) : cSummary( file, js );
    std::vector<Fault> fl;
    if ( i >= 4 && ch.chance( 60 ) ) { OpCounts oc = dryRun( ca ); Fault q = pickFault( oc, FS_STREAM | FS_MEM | FS_BENIGN | FS_DB ); if ( q.kind != F_NONE ) fl.push_back( q ); }
    Outcome o = call( ca, fl );
    std::string ctx = strf( "%s of a %s file%s%s", ca.name.c_str(), kind.c_str(), cut ? " cut short" : "", fl.empty() ? "" : ( " under " + faultStr( fl[0] ) ).c_str() );
    if ( !o.done ) violate( "no-answer", "%s did not return", ctx.c_str() );
    bool err = what < 2 ? o.rc < 0 : o.rc != 0;
    if ( what == 0 && o.rc > 1 ) violate( "has-changes", "%s answered %d", ctx.c_str(), o.rc );
    if ( err )
    {
      if ( now.ok && !o.faultFired ) violate( "refused", "%s failed (rc %d): %s", ctx.c_str(), o.rc, o.log.c_str() );
      if ( o.faultFired ) probe( "failed_under_fault" );
      continue;
    }
    if ( what == 0 )
    {
      if ( now.ok && o.rc != ( now.entries.empty() ? 0 : 1 ) ) violate( "has-changes", "%s answered %d for %zu changes", ctx.c_str(), o.rc, now.entries.size() );
      if ( !now.ok && !( o.rc == 1 && !now.entries.empty() ) ) violate( "unreadable-accepted", "%s answered %d although the file ends inside a record", ctx.c_str(), o.rc );
      continue;
    }
    if ( !now.ok ) violate( "unreadable-accepted", "%s answered %d although the file ends inside a record", ctx.c_str(), o.rc );
    if ( what == 1 )
    {
      if ( o.rc != ( int )now.entries.size() ) violate( "count", "%s answered %d for %zu changes", ctx.c_str(), o.rc, now.entries.size() );
      continue;
    }
    if ( !fsExists( js ) ) violate( "no-output", "%s reported success and wrote nothing", ctx.c_str() );
    std::string e = what == 2 ? checkListing( fsRead( js ), now ) : checkSummary( fsRead( js ), now );
    if ( !e.empty() ) violate( what == 2 ? "listing" : "summary", "%s: %s", ctx.c_str(), e.c_str() );
  }
}

// ------------------------------------------------------------------ C09
// a second opinion on what applying does: the same changes as plain SQL statements, retried while any succeeds
static bool sqlApply( const std::string &db, const Changeset &c, std::string &why )
{
  HarnessScope hs;
  Db d( db );
  d.exec( "BEGIN" );
  std::vector<size_t> todo( c.entries.size() );
  for ( size_t i = 0; i < todo.size(); ++i ) todo[i] = i;
  auto names = [&]( const std::string &t ) { std::vector<std::string> r; for ( auto &x : d.query( "SELECT name FROM pragma_table_info(?)", { Val::Text( t ) } ) ) r.push_back( x[0].s ); return r; };
  while ( !todo.empty() )
  {
    std::vector<size_t> left;
    for ( size_t i : todo )
    {
      auto &e = c.entries[i]; auto &h = c.tables[e.table];
      auto cols = names( h.name );
      if ( cols.size() != h.pk.size() ) { d.exec( "ROLLBACK" ); return false; }
      std::string sql, where; Row b, wb;
      if ( e.op != OP_INSERT )
        for ( size_t k = 0; k < cols.size(); ++k ) if ( e.oldv[k].t && ( e.op == OP_DELETE || h.pk[k] || e.newv[k].t ) ) { where += ( where.empty() ? "" : " AND " ) + qi( cols[k] ) + " IS ?"; wb.push_back( e.oldv[k] ); }
      if ( e.op == OP_INSERT )
      {
        sql = "INSERT INTO " + qi( h.name ) + " VALUES (";
        for ( size_t k = 0; k < cols.size(); ++k ) { sql += k ? ",?" : "?"; b.push_back( e.newv[k].t ? e.newv[k] : Val::Null() ); }
        sql += ")";
      }
      else if ( e.op == OP_DELETE ) { sql = "DELETE FROM " + qi( h.name ) + " WHERE " + where; b = wb; }
      else
      {
        std::string set;
        for ( size_t k = 0; k < cols.size(); ++k ) if ( e.newv[k].t ) { set += ( set.empty() ? "" : "," ) + qi( cols[k] ) + "=?"; b.push_back( e.newv[k] ); }
        if ( set.empty() ) continue;
        sql = "UPDATE " + qi( h.name ) + " SET " + set + " WHERE " + where;
        b.insert( b.end(), wb.begin(), wb.end() );
      }
      int rc = d.run( sql, b );
      if ( rc != SQLITE_DONE && rc != SQLITE_ROW ) { left.push_back( i ); why = strf( "%s %s: %s", sql.c_str(), rowStr( b ).c_str(), sqlite3_errmsg( d.h ) ); continue; }
      if ( sqlite3_changes( d.h ) != 1 ) { left.push_back( i ); why = strf( "%s %s: %d rows", sql.c_str(), rowStr( b ).c_str(), sqlite3_changes( d.h ) ); }
    }
    if ( left.size() == todo.size() ) { d.exec( "ROLLBACK" ); return false; }
    todo = left;
  }
  d.exec( "COMMIT" );
  return true;
}

std::string damage( std::string &b, const Changeset &whole )
{
  if ( b.empty() ) { b = ch.choose( 2 ) ? "T" : std::string( 1, ( char )ch.choose( 256 ) ); return "a stray byte"; }
  auto pos = [&]() -> size_t
  {
    if ( ch.chance( 50 ) || whole.cuts.size() < 2 ) return ch.choose( ( uint32_t )b.size() );
    size_t p = whole.cuts[ch.choose( whole.cuts.size() )] + ch.choose( 8 );      // near the start of a record
    return std::min( p, b.size() - 1 );
  };
  switch ( ch.weighted( { 6, 2, 6, 3, 4, 3, 2, 2, 4, 3 } ) )
  {
    case 0: { size_t p = pos(); b.resize( p ); return strf( "cut at %zu", p ); }
    case 1: { size_t p = pos() / 512 * 512; if ( b.size() > 100000 ) p = std::max( p, ( b.size() - 100000 ) / 512 * 512 ); for ( size_t i = p; i < b.size(); ++i ) b[i] = 0; return strf( "zero from %zu", p ); }
    case 2: { int n = ch.range( 1, 3 ); std::string w; while ( n-- ) { size_t p = pos(); int bit = ch.choose( 8 ); b[p] ^= 1 << bit; w += strf( " %zu.%d", p, bit ); } return "bits flipped" + w; }
    case 3: { size_t p = pos(), n = std::min<size_t>( ch.range( 1, 40 ), b.size() - p ); for ( size_t i = 0; i < n; ++i ) b[p + i] = 0; return strf( "zeroed %zu+%zu", p, n ); }
    case 4:
    {
      // splice: a range of the file copied over or into another place
      size_t p = pos(), n = std::min<size_t>( ch.range( 1, 200 ), b.size() - p ), q = pos();
      std::string part = b.substr( p, n );
      if ( ch.choose( 2 ) ) b.insert( q, part ); else b.replace( q, std::min( n, b.size() - q ), part );
      return strf( "spliced %zu+%zu at %zu", p, n, q );
    }
    case 5: { size_t p = pos(), n = std::min<size_t>( ch.chance( 60 ) ? 1 : ch.range( 2, 30 ), b.size() - p ); b.erase( p, n ); return strf( "lost %zu+%zu", p, n ); }
    case 6: { size_t p = pos(); int n = ch.range( 1, 12 ); std::string x; while ( n-- ) x += ( char )ch.choose( 256 ); b.insert( p, x ); return strf( "noise at %zu", p ); }
    case 7: { size_t n = ch.range( 1, 600 ); b.append( n, ch.choose( 2 ) ? 0 : 'T' ); return "padded tail"; }
    case 8:
    {
      // a length or count turned into an extreme varint
      static const char *v[] = { "\xff\xff\xff\xff\x0f", "\xff\xff\xff\xff\x7f", "\x87\xff\xff\xff\x7f", "\x88\x80\x80\x80\x00", "\xff\xff\xff\xff\xff\xff\xff\xff\xff", "\x90\x80\x80\x80\x80\x80\x80\x01", "\x83\xff\x7f", "\x84\x80\x00", "\x84\x80\x01", "\xff\x7f", "\x80" };
      size_t p = pos(); std::string s = v[ch.choose( 11 )];
      if ( s.empty() ) s = "\x80";
      if ( ch.chance( 40 ) ) b.insert( p, s ); else b.replace( p, std::min( s.size(), b.size() - p ), s );
      if ( ch.chance( 20 ) ) b.resize( std::min( b.size(), p + s.size() ) );
      return strf( "length varint at %zu", p );
    }
    default: { size_t p = pos(); int v = ch.choose( 10 ) == 0 ? ch.choose( 256 ) : "\x00\x01\x02\x03\x04\x05\x09\x12\x17T"[ch.choose( 10 )]; b[p] = ( char )v; return strf( "byte %zu = %d", p, v ); }
  }
}

void c09Pg();
void scenC09()
{
  if ( pgEnabled() && ch.chance( 15 ) ) { c09Pg(); return; }
  GenCfg g; g.fk = ch.chance( 20 ); g.wide = ch.chance( 12 );
  World w = mkPair( g, ch.range( 1, 7 ), ch.range( 1, 8 ) );
  std::string base = w.path( "base.gpkg" ), mod = w.path( "mod.gpkg" ), d = w.path( "d.diff" ), t = w.path( "target.gpkg" ), x = w.path( "bad.diff" );
  mustOk( cCreate( base, mod, d, 0 ), "create-failed" );
  std::string bytes = fsRead( d );
  Changeset whole = parseCs( bytes );
  std::string kind = "diff";
  std::string from = base;
  if ( ch.chance( 15 ) ) { mustOk( cInvert( d, d ), "invert-failed" ); bytes = fsRead( d ); whole = parseCs( bytes ); from = mod; kind = "inverse"; }
  else if ( ch.chance( 12 ) ) { Changeset c = inventCs( 30 ); bytes = encodeCs( c ); whole = parseCs( bytes ); kind = "hand made"; }
  if ( !whole.ok ) violate( "format", "%s", whole.err.c_str() );
  DbState before = mustRead( from, "unusable", "target" );
  DbState modState = mustRead( mod, "unusable", "mod" );
  sampleAdd( "%s of %zu bytes, gpkg=%d", kind.c_str(), bytes.size(), w.sp.gpkg );
  g_nontrivial = !bytes.empty();
  int rounds = g_thorough ? 10 : 5;
  for ( int i = 0; i < rounds; ++i )
  {
    std::string b = bytes;
    std::string how = damage( b, whole );
    while ( ch.chance( 15 ) ) how += ", " + damage( b, whole );
    Changeset c = parseCs( b, true );
    bool shortened = b.size() < bytes.size() && bytes.compare( 0, b.size(), b ) == 0;
    fsWrite( x, b );
    ev( "note damage %s", how.c_str() );
    if ( i < 3 ) sampleAdd( "%s (%s, %zu changes readable)", how.c_str(), c.ok ? "well formed" : c.err.c_str(), c.entries.size() );
    probe( c.ok ? "damaged_well_formed" : shortened ? "damaged_cut_inside_record" : "damaged_unreadable" );
    g_stats.states.insert( fnv( b.data(), b.size() ) );
    std::string js = w.path( "o.json" ), inv = w.path( "i.diff" );
    auto ctx = [&]( const ApiCall &ca, const std::vector<Fault> &fl ) { return strf( "%s of a %s with %s%s", ca.name.c_str(), kind.c_str(), how.c_str(), fl.empty() ? "" : ( " under " + faultStr( fl[0] ) ).c_str() ); };
    auto faults = [&]( const ApiCall &ca ) { std::vector<Fault> fl; if ( ch.chance( 12 ) ) { OpCounts oc = dryRun( ca ); Fault q = pickFault( oc, FS_STREAM | FS_MEM | FS_DB | FS_BENIGN ); if ( q.kind != F_NONE ) fl.push_back( q ); } return fl; };
    int first = ch.choose( 8 ), count = ch.range( 3, 8 );
    for ( int k = 0; k < count; ++k )
    {
      int what = ( first + k ) % 8;
      if ( what <= 4 )
      {
        ApiCall ca = what == 0 ? cHas( x ) : what == 1 ? cCount( x ) : what == 2 ? cList( x, js ) : what == 3 ? cSummary( x, js ) : cInvert( x, inv );
        auto fl = faults( ca );
        Outcome o = call( ca, fl );
        bool err = what < 2 ? o.rc < 0 : o.rc != 0;
        if ( err ) continue;
        if ( !c.ok && !( what == 0 && o.rc == 1 && !c.entries.empty() ) )
          violate( shortened ? "cut-accepted" : "unreadable-accepted", "%s answered %d although %s", ctx( ca, fl ).c_str(), o.rc, c.err.c_str() );
        if ( what == 0 && o.rc != ( c.entries.empty() ? 0 : 1 ) ) violate( "has-changes", "%s answered %d for %zu changes", ctx( ca, fl ).c_str(), o.rc, c.entries.size() );
        if ( what == 1 && o.rc != ( int )c.entries.size() ) violate( "count", "%s answered %d for %zu changes", ctx( ca, fl ).c_str(), o.rc, c.entries.size() );
        if ( what == 4 )
        {
          Changeset ci = parseCs( fsRead( inv ), true );
          if ( !ci.ok || ci.entries.size() != c.entries.size() ) violate( "invert", "%s: %zu changes in, %zu out %s", ctx( ca, fl ).c_str(), c.entries.size(), ci.entries.size(), ci.err.c_str() );
        }
      }
      else if ( what == 5 )
      {
        fsRemoveDb( t ); fsCopyDb( from, t ); fsSyncAll();
        ApiCall ca = cApply( t, x );
        auto fl = faults( ca );
        Outcome o = call( ca, fl );
        DbState now = mustRead( t, "unusable", ctx( ca, fl ).c_str() );
        std::string dOld = diffData( now, before );
        if ( !o.ok() )
        {
          if ( !dOld.empty() && !( o.faultFired && w.sp.journal == "wal" ) ) violate( "failed-but-changed", "%s failed (%s) but the database changed: %s", ctx( ca, fl ).c_str(), o.log.c_str(), dOld.c_str() );
          probe( "apply_refused" );
          continue;
        }
        if ( shortened && !c.ok ) violate( "cut-accepted", "%s succeeded although %s", ctx( ca, fl ).c_str(), c.err.c_str() );
        probe( "apply_accepted" );
        // exactly the changes readable in full
        std::string ref = w.path( "ref.gpkg" );
        fsRemoveDb( ref ); fsCopyDb( from, ref );
        std::string why;
        if ( !sqlApply( ref, c, why ) ) violate( "accepted-mismatch", "%s succeeded although the readable changes do not all apply: %s", ctx( ca, fl ).c_str(), why.c_str() );
        DbState want = mustRead( ref, "unusable", "reference" );
        std::string e = diffData( now, want );
        if ( !e.empty() ) violate( "wrong-effect", "%s succeeded with another effect than the %zu readable changes: %s", ctx( ca, fl ).c_str(), c.entries.size(), e.c_str() );
        if ( !now.derived.empty() && want.derived.empty() ) violate( "derived", "%s: %s", ctx( ca, fl ).c_str(), now.derived.c_str() );
      }
      else
      {
        // rebases with the damaged file in either place
        std::string good = w.path( "good.diff" ), out = w.path( "r.diff" ), conf = w.path( "c.json" );
        fsWrite( good, encodeCs( whole ) );
        int kind2 = ch.choose( 3 );
        ApiCall ca = kind2 == 0 ? cRebasedEx( base, x, good, out, conf ) : kind2 == 1 ? cRebasedEx( base, good, x, out, conf ) : cRebaseEx( base, t, x, conf );
        fsRemoveDb( t ); fsCopyDb( mod, t ); fsSyncAll();
        auto fl = faults( ca );
        Outcome o = call( ca, fl );
        // when the other side has no changes there is nothing to rebase and the file is passed on as it is, or not needed
        bool idle = o.ok() && bytes.empty() && kind2 < 2 && ( kind2 == 1 ? fsRead( out ).empty() : fsRead( out ) == b );
        if ( idle ) { probe( "rebase_idle" ); continue; }
        if ( o.ok() && !c.ok ) violate( shortened ? "cut-accepted" : "unreadable-accepted", "%s succeeded although %s", ctx( ca, fl ).c_str(), c.err.c_str() );
        if ( o.ok() && kind2 < 2 ) { Changeset r = parseCs( fsRead( out ), true ); if ( !r.ok ) violate( "rebased", "%s: output is not a changeset: %s", ctx( ca, fl ).c_str(), r.err.c_str() ); }
        if ( !o.ok() )
        {
          DbState now = mustRead( t, "unusable", ctx( ca, fl ).c_str() );
          std::string e = diffData( now, modState );
          if ( !e.empty() && !( o.faultFired && w.sp.journal == "wal" ) ) violate( "failed-but-changed", "%s failed (%s) but the database changed: %s", ctx( ca, fl ).c_str(), o.log.c_str(), e.c_str() );
        }
      }
    }
  }
}

}
