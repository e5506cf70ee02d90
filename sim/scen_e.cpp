// C23: calls with arguments that cannot work, and with one file for several arguments.
#include "scen.h"
#include "scen_pg.h"
#include "pgsim.h"
#include <cstring>

namespace sim {

// roles of the arguments: D driver, I extra info (optional), d database read, c changeset read, m database changed,
// o changeset written, j listing written, f conflict report written, w database or schema created
typedef const char *S;
struct ArgFn { const char *name, *roles; int ( *fn )( S * ); };
static const ArgFn FNS[] =
{
  { "createChangeset", "ddo", []( S *a ) { return GEODIFF_createChangeset( a[0], a[1], a[2] ); } },
  { "invertChangeset", "co", []( S *a ) { return GEODIFF_invertChangeset( a[0], a[1] ); } },
  { "createRebasedChangeset", "ddcof", []( S *a ) { return GEODIFF_createRebasedChangeset( a[0], a[1], a[2], a[3], a[4] ); } },
  { "rebase", "ddmf", []( S *a ) { return GEODIFF_rebase( a[0], a[1], a[2], a[3] ); } },
  { "applyChangeset", "mc", []( S *a ) { return GEODIFF_applyChangeset( a[0], a[1] ); } },
  { "hasChanges", "c", []( S *a ) { return GEODIFF_hasChanges( a[0] ); } },
  { "changesCount", "c", []( S *a ) { return GEODIFF_changesCount( a[0] ); } },
  { "listChanges", "cj", []( S *a ) { return GEODIFF_listChanges( a[0], a[1] ); } },
  { "listChangesSummary", "cj", []( S *a ) { return GEODIFF_listChangesSummary( a[0], a[1] ); } },
  { "makeCopy", "DIdDIw", []( S *a ) { return GEODIFF_makeCopy( a[0], a[1], a[2], a[3], a[4], a[5] ); } },
  { "createChangesetEx", "DIddo", []( S *a ) { return GEODIFF_createChangesetEx( a[0], a[1], a[2], a[3], a[4] ); } },
  { "applyChangesetEx", "DImc", []( S *a ) { return GEODIFF_applyChangesetEx( a[0], a[1], a[2], a[3] ); } },
  { "createRebasedChangesetEx", "DIdccof", []( S *a ) { return GEODIFF_createRebasedChangesetEx( a[0], a[1], a[2], a[3], a[4], a[5], a[6] ); } },
  { "rebaseEx", "DIdmcf", []( S *a ) { return GEODIFF_rebaseEx( a[0], a[1], a[2], a[3], a[4], a[5] ); } },
  { "dumpData", "DIdo", []( S *a ) { return GEODIFF_dumpData( a[0], a[1], a[2], a[3] ); } },
};
static const int NFN = sizeof FNS / sizeof *FNS;
struct Args { std::vector<std::string> v; std::vector<bool> null; };
static ApiCall argCall( const ArgFn &f, const Args &a )
{
  auto c = std::make_shared<Args>( a );
  return { f.name, [c, &f] { S p[8]; for ( size_t i = 0; i < c->v.size(); ++i ) p[i] = c->null[i] ? nullptr : c->v[i].c_str(); return f.fn( p ); }, {} };
}
static std::string show( const ArgFn &f, const Args &a )
{
  std::string s = std::string( f.name ) + "(";
  for ( size_t i = 0; i < a.v.size(); ++i ) s += ( i ? ", " : "" ) + ( a.null[i] ? std::string( "NULL" ) : "'" + a.v[i] + "'" );
  return s + ")";
}
static bool isAnswer( const ArgFn &f ) { return !strcmp( f.name, "hasChanges" ) || !strcmp( f.name, "changesCount" ); }
static bool isDb( const std::string &f ) { auto e = [&]( const char *x ) { size_t n = strlen( x ); return f.size() >= n && f.compare( f.size() - n, n, x ) == 0; }; return e( ".gpkg" ); }
// everything there is: rows of databases, bytes of other files; `but`: named outputs
static std::map<std::string, std::string> everything( const std::set<std::string> &but )
{
  std::map<std::string, std::string> r;
  for ( auto &f : fsList( "/sim/" ) )
  {
    if ( sidecar( f ) || but.count( f ) ) continue;
    if ( !isDb( f ) ) { r[f] = fsRead( f ); continue; }
    DbState s = readDb( f );
    std::string &x = r[f];
    x = s.ok ? strf( "%zx", ( size_t )s.hash() ) + s.derived : s.err;
    for ( auto &q : s.schema ) x += "|" + q.first + "=" + q.second;
  }
  return r;
}
static std::string mapDiff( const std::map<std::string, std::string> &a, const std::map<std::string, std::string> &b )
{
  for ( auto &x : a ) if ( !b.count( x.first ) ) return x.first + " is gone"; else if ( b.at( x.first ) != x.second ) return x.first + " was changed";
  for ( auto &x : b ) if ( !a.count( x.first ) ) return x.first + " was created";
  return "";
}

void c23Pg();
void scenC23()
{
  if ( ch.chance( 15 ) ) { c23Pg(); return; }
  GenCfg g = rebaseCfg(); g.wide = false;
  const std::string d = "/sim/w/";
  Three x = mkThree( g, d, 12 );
  std::string json = d + "list.json", copy = d + "copy.gpkg", out = x.out;
  bool stale = ch.chance( 40 );
  if ( stale ) { fsWrite( json, "stale" ); fsWrite( out, "stale" ); fsWrite( x.conf, "stale" ); if ( ch.choose( 2 ) ) fsCopyDb( x.their, copy ); }
  fsWrite( d + "some.json", "{ \"geodiff\": [] }\n" ); fsWrite( d + "empty.bin", "" );
  const ArgFn &f = FNS[ch.choose( NFN )];
  std::string roles = f.roles, name = f.name;
  size_t n = roles.size();
  Args a; a.v.resize( n ); a.null.resize( n );
  int nd = 0, nc = 0;
  bool exReb = name == "createRebasedChangesetEx";
  for ( size_t i = 0; i < n; ++i )
    switch ( roles[i] )
    {
      case 'D': a.v[i] = "sqlite"; break;
      case 'I': { int k = ( int )ch.choose( 3 ); a.null[i] = k == 0; a.v[i] = k == 1 ? "host=nowhere" : ""; break; }
      case 'd': a.v[i] = nd++ == 0 ? x.base : name == "rebase" ? x.their : x.mod; break;
      case 'm': a.v[i] = name.compare( 0, 5, "apply" ) == 0 ? x.base : x.mod; break;
      case 'c': a.v[i] = exReb && nc == 0 ? x.b2m : name.compare( 0, 5, "apply" ) == 0 ? x.b2m : x.b2t; ++nc; break;
      case 'o': a.v[i] = out; break;
      case 'j': a.v[i] = json; break;
      case 'f': a.v[i] = x.conf; break;
      default: a.v[i] = copy;
    }
  auto outputs = [&]( const Args &b ) { std::set<std::string> r; for ( size_t i = 0; i < n; ++i ) if ( strchr( "ojfw", roles[i] ) && !b.null[i] ) { r.insert( b.v[i] ); } return r; };
  bool noTheirs = parseCs( fsRead( x.b2t ) ).entries.empty(), empty2m = parseCs( fsRead( x.b2m ) ).entries.empty();
  fsSyncAll();
  FsImage img = fsSnapshot();
  g_nontrivial = true;
  if ( ch.chance( 55 ) )
  {
    for ( int k = g_thorough ? 6 : 4; k > 0; --k )
    {
      Args b = a;
      size_t i; do i = ch.choose( n ); while ( roles[i] == 'I' );
      std::string why;
      char r = roles[i];
      bool early = false;         // noticed before anything may be written
      if ( ch.chance( 35 ) || r == 'f' ) { b.null[i] = true; why = "NULL"; early = true; }
      else if ( r == 'D' ) { static const char *BAD[] = { "nosuch", "", "SQLITE", "sqlite ", "sqlite3", "postgres", "postgresql" }; b.v[i] = BAD[ch.choose( 7 )]; why = "unknown driver"; early = true; }
      else
      {
        bool in = strchr( "dmc", r );
        int w = ( int )ch.choose( in ? 6 : 4 );
        if ( w == 0 ) { b.v[i] = in ? d + "missing.gpkg" : "/sim/nodir/x.gpkg"; why = "missing"; }
        else if ( w == 1 ) { b.v[i] = "/sim/w/nodir/x"; why = "directory missing"; }
        else if ( w == 2 ) { b.v[i] = "/sim/w"; why = "directory"; }
        else if ( w == 3 ) { b.v[i] = x.base + "/x"; why = "below a file"; }
        else { std::string o = w == 4 ? ( r == 'c' ? x.base : x.b2t ) : d + "some.json"; if ( fsRead( o ).empty() ) continue; b.v[i] = o; why = "file of another kind"; }
      }
      // what does not matter for this call
      if ( exReb && !b.null[i] && ( r == 'D' || r == 'd' ) ) continue;
      if ( r == 'c' && !b.null[i] && ( exReb ? ( i == 3 ? noTheirs : empty2m ) : name == "createRebasedChangeset" && empty2m ) ) continue;   // the other side is empty
      if ( name == "rebaseEx" && !b.null[i] && noTheirs && r != 'c' ) continue;
      if ( name == "rebaseEx" && !b.null[i] && empty2m && r == 'f' ) continue;
      if ( name == "rebase" && !b.null[i] && r == 'm' && noTheirs && why != "missing" && why != "directory missing" && why != "below a file" ) continue;
      fsRestore( img );
      std::set<std::string> outs = outputs( b );
      if ( early || strchr( "Dd", r ) ) { if ( name == "makeCopy" ) outs.clear(); }
      if ( early ) { if ( b.null[i] ) outs.clear(); }
      if ( strchr( "dm", r ) && b.v[i].compare( 0, 8, "/sim/w/n" ) == 0 ) outs.erase( b.v[i] );
      auto before = everything( outs );
      ApiCall c = argCall( f, b );
      std::vector<Fault> fl;
      if ( ch.chance( 15 ) ) { OpCounts oc = dryRun( c ); Fault q = pickFault( oc, FS_ALL & ~FS_UNLINK ); if ( q.kind != F_NONE ) fl.push_back( q ); }
      Outcome o = call( c, fl );
      std::string ctx = show( f, b ) + " [" + why + "]" + ( fl.empty() ? "" : " under " + faultStr( fl[0] ) );
      if ( o.killed ) { probe( "killed" ); fsRestore( img ); continue; }
      if ( isAnswer( f ) ? o.rc >= 0 : o.rc == 0 ) violate( "accepted", "%s returned %d", ctx.c_str(), o.rc );
      if ( o.log.empty() && !( fl.size() && o.faultFired ) ) violate( "silent", "%s returned %d without a message", ctx.c_str(), o.rc );
      auto after = everything( outs );
      std::string df = mapDiff( before, after );
      if ( !df.empty() ) violate( "effect", "%s: %s", ctx.c_str(), df.c_str() );
      probe( "unusable." + why );
      g_stats.states.insert( std::hash<std::string>()( name + why + r ) ^ o.rc );
      if ( k == 1 ) sampleAdd( "%s -> %d", ctx.c_str(), o.rc );
    }
    return;
  }
  // one file for two arguments
  std::vector<std::pair<size_t, size_t>> pairs;
  for ( size_t i = 0; i < n; ++i )
    for ( size_t k = 0; k < n; ++k )
    {
      if ( i == k ) continue;
      bool dd = strchr( "d", roles[i] ) && strchr( "dm", roles[k] ) && ( i < k || roles[k] == 'm' ), cc = roles[i] == 'c' && roles[k] == 'c' && i < k;
      if ( dd || cc ) pairs.push_back( { i, k } );
    }
  if ( pairs.empty() ) return;
  auto pr = pairs[ch.choose( pairs.size() )];
  size_t i = pr.first, k = pr.second;
  bool db = roles[i] == 'd';
  char kr = roles[k];
  Args sep = a, same = a;
  // separate copies with the same content
  std::string twin = db ? d + "twin.gpkg" : d + "twin.diff";
  if ( db ) fsCopyDb( a.v[i], twin ); else fsCopy( a.v[i], twin );
  sep.v[k] = twin; same.v[k] = a.v[i];
  fsSyncAll(); img = fsSnapshot();
  struct Res { Outcome o; std::map<std::string, std::string> all; std::string outText; DbState outDb; };
  auto run = [&]( const Args &b, bool alias )
  {
    Res r;
    fsRestore( img );
    r.o = call( argCall( f, b ) );
    std::set<std::string> outs = outputs( b );
    if ( strchr( "m", kr ) ) outs.insert( b.v[k] );
    r.all = everything( outs );
    for ( size_t q = 0; q < n; ++q )
    {
      if ( strchr( "ojf", roles[q] ) ) r.outText += fsExists( b.v[q] ) ? "[" + fsRead( b.v[q] ) + "]" : "[-]";
      if ( strchr( "mw", roles[q] ) ) { r.outDb = readDb( b.v[q] ); if ( roles[q] == 'w' ) r.outDb.tables.erase( "gpkg_contents" ); }
    }
    return r;
  };
  Res s = run( sep, false );
  auto before = [&] { fsRestore( img ); return everything( {} ); }();
  Res t = run( same, true );
  std::string ctx = show( f, same );
  g_stats.states.insert( std::hash<std::string>()( name ) + i * 10 + k );
  probe( "same_file" );
  sampleAdd( "%s -> %d", ctx.c_str(), t.o.rc );
  if ( s.o.rc != t.o.rc ) violate( "other-status", "%s returned %d, with separate files %d: %s", ctx.c_str(), t.o.rc, s.o.rc, t.o.log.c_str() );
  if ( s.o.rc == 0 && s.outText != t.outText ) violate( "other-output", "%s: the output is not the one for separate files", ctx.c_str() );
  if ( s.outDb.ok != t.outDb.ok ) violate( "other-output", "%s: the database is usable (%d), with separate files (%d)", ctx.c_str(), t.outDb.ok, s.outDb.ok );
  if ( s.outDb.ok ) { std::string df = diffData( t.outDb, s.outDb ); if ( !df.empty() ) violate( "other-output", "%s: vs. separate files: %s", ctx.c_str(), df.c_str() ); }
  for ( auto &q : t.all ) { auto it = before.find( q.first ); if ( it == before.end() ) violate( "effect", "%s: %s was created", ctx.c_str(), q.first.c_str() ); else if ( it->second != q.second ) violate( "effect", "%s: %s was changed", ctx.c_str(), q.first.c_str() ); }
}

} // namespace sim
