#include "scen.h"
#include "pgsim.h"
#include <cstring>
#include <cmath>
#include <algorithm>

int geodiffinfo_main( int argc, char *argv[] );

namespace sim {

std::string g_lastLog;

void sampleAdd( const char *fmt, ... )
{
  HarnessScope hs;
  char buf[1500];
  va_list ap; va_start( ap, fmt ); vsnprintf( buf, sizeof buf, fmt, ap ); va_end( ap );
  if ( g_sample.size() < 3000 ) { if ( !g_sample.empty() ) g_sample += "; "; g_sample += buf; }
  ev( "note %s", buf );
}

// ------------------------------------------------------------------ calls
namespace {
struct Args { std::vector<std::string> s; std::vector<char *> p; };
std::shared_ptr<Args> mk( std::vector<std::string> v )
{
  auto a = std::make_shared<Args>();
  a->s = std::move( v );
  // the file may be known under another name
  if ( !g_alias.empty() ) for ( auto &x : a->s ) if ( x.compare( 0, 5, "/sim/" ) == 0 && x.compare( 0, 9, "/sim/tmp/" ) && x.compare( 0, 9, "/sim/cwd/" ) && x.compare( 0, 7, "/sim/o/" ) && x.find( '/', 5 ) != std::string::npos ) x = g_alias + x.substr( 5 );
  for ( auto &x : a->s ) a->p.push_back( &x[0] );
  a->p.push_back( nullptr );
  return a;
}
ApiCall cli( const std::string &name, std::vector<std::string> v, std::vector<std::string> outs )
{
  v.insert( v.begin(), "geodiffinfo" );
  auto a = mk( v );
  return ApiCall{ name + "[cli]", [a] { return geodiffinfo_main( ( int )a->s.size(), a->p.data() ); }, outs };
}
int pickPath( int path, int n ) { return path >= 0 ? path : ( int )ch.weighted( { 6, 2, n > 2 ? 1 : 0 } ); }
}

ApiCall cCreate( const std::string &b, const std::string &m, const std::string &o, int path )
{
  HarnessScope hs;
  auto a = mk( { b, m, o } );
  switch ( pickPath( path, 3 ) )
  {
    case 1: return { "createChangesetEx", [a] { return GEODIFF_createChangesetEx( "sqlite", nullptr, a->p[0], a->p[1], a->p[2] ); }, { o } };
    case 2: return cli( "createChangeset", { "createChangeset", b, m, o }, { o } );
    default: return { "createChangeset", [a] { return GEODIFF_createChangeset( a->p[0], a->p[1], a->p[2] ); }, { o } };
  }
}
ApiCall cApply( const std::string &db, const std::string &cs, int path )
{
  HarnessScope hs;
  auto a = mk( { db, cs } );
  switch ( pickPath( path, 3 ) )
  {
    case 1: return { "applyChangesetEx", [a] { return GEODIFF_applyChangesetEx( "sqlite", "", a->p[0], a->p[1] ); }, {} };
    case 2: return cli( "applyChangeset", { "applyChangeset", db, cs }, {} );
    default: return { "applyChangeset", [a] { return GEODIFF_applyChangeset( a->p[0], a->p[1] ); }, {} };
  }
}
ApiCall cInvert( const std::string &cs, const std::string &o )
{
  HarnessScope hs;
  auto a = mk( { cs, o } );
  return { "invertChangeset", [a] { return GEODIFF_invertChangeset( a->p[0], a->p[1] ); }, { o } };
}
ApiCall cRebased( const std::string &b, const std::string &m, const std::string &t, const std::string &o, const std::string &c, int path )
{
  HarnessScope hs;
  auto a = mk( { b, m, t, o, c } );
  if ( path < 0 ) path = ch.chance( 12 ) ? 2 : 0;
  if ( path == 2 ) return cli( "createRebasedChangeset", { "createRebasedChangeset", b, m, t, o, c }, { o, c } );
  return { "createRebasedChangeset", [a] { return GEODIFF_createRebasedChangeset( a->p[0], a->p[1], a->p[2], a->p[3], a->p[4] ); }, { o, c } };
}
ApiCall cRebasedEx( const std::string &b, const std::string &b2m, const std::string &b2t, const std::string &o, const std::string &c )
{
  HarnessScope hs;
  auto a = mk( { b, b2m, b2t, o, c } );
  return { "createRebasedChangesetEx", [a] { return GEODIFF_createRebasedChangesetEx( "sqlite", "", a->p[0], a->p[1], a->p[2], a->p[3], a->p[4] ); }, { o, c } };
}
ApiCall cRebase( const std::string &b, const std::string &mt, const std::string &m, const std::string &c )
{
  HarnessScope hs;
  auto a = mk( { b, mt, m, c } );
  return { "rebase", [a] { return GEODIFF_rebase( a->p[0], a->p[1], a->p[2], a->p[3] ); }, { c } };
}
ApiCall cRebaseEx( const std::string &b, const std::string &m, const std::string &t, const std::string &c, int path )
{
  HarnessScope hs;
  auto a = mk( { b, m, t, c } );
  if ( path < 0 ) path = ch.chance( 12 ) ? 2 : 0;
  if ( path == 2 ) return cli( "rebaseEx", { "rebaseEx", "sqlite", "", b, m, t, c }, { c } );
  return { "rebaseEx", [a] { return GEODIFF_rebaseEx( "sqlite", "", a->p[0], a->p[1], a->p[2], a->p[3] ); }, { c } };
}
ApiCall cHas( const std::string &cs ) { HarnessScope hs; auto a = mk( { cs } ); return { "hasChanges", [a] { return GEODIFF_hasChanges( a->p[0] ); }, {} }; }
ApiCall cCount( const std::string &cs ) { HarnessScope hs; auto a = mk( { cs } ); return { "changesCount", [a] { return GEODIFF_changesCount( a->p[0] ); }, {} }; }
ApiCall cList( const std::string &cs, const std::string &j, int path )
{
  HarnessScope hs;
  if ( path < 0 ) path = ch.chance( 12 ) ? 2 : 0;
  if ( path == 2 ) return cli( "listChanges", { "listChanges", cs, j }, { j } );
  auto a = mk( { cs, j } );
  return { "listChanges", [a] { return GEODIFF_listChanges( a->p[0], a->p[1] ); }, { j } };
}
ApiCall cSummary( const std::string &cs, const std::string &j, int path )
{
  HarnessScope hs;
  if ( path < 0 ) path = ch.chance( 12 ) ? 2 : 0;
  if ( path == 2 ) return cli( "listChangesSummary", { "listChangesSummary", cs, j }, { j } );
  auto a = mk( { cs, j } );
  return { "listChangesSummary", [a] { return GEODIFF_listChangesSummary( a->p[0], a->p[1] ); }, { j } };
}
ApiCall cDump( const std::string &s, const std::string &o, int path )
{
  HarnessScope hs;
  if ( path < 0 ) path = ch.chance( 12 ) ? 2 : 0;
  if ( path == 2 ) return cli( "dumpData", { "dumpData", "sqlite", "", s, o }, { o } );
  auto a = mk( { s, o } );
  return { "dumpData", [a] { return GEODIFF_dumpData( "sqlite", "", a->p[0], a->p[1] ); }, { o } };
}
ApiCall cCreateEx( const std::string &d, const std::string &i, const std::string &b, const std::string &m, const std::string &o )
{ HarnessScope hs; auto a = mk( { d, i, b, m, o } ); return { "createChangesetEx(" + d + ")", [a] { return GEODIFF_createChangesetEx( a->p[0], a->p[1], a->p[2], a->p[3], a->p[4] ); }, { o } }; }
ApiCall cApplyEx( const std::string &d, const std::string &i, const std::string &b, const std::string &c )
{ HarnessScope hs; auto a = mk( { d, i, b, c } ); return { "applyChangesetEx(" + d + ")", [a] { return GEODIFF_applyChangesetEx( a->p[0], a->p[1], a->p[2], a->p[3] ); }, {} }; }
ApiCall cDumpEx( const std::string &d, const std::string &i, const std::string &s, const std::string &o )
{ HarnessScope hs; auto a = mk( { d, i, s, o } ); return { "dumpData(" + d + ")", [a] { return GEODIFF_dumpData( a->p[0], a->p[1], a->p[2], a->p[3] ); }, { o } }; }
ApiCall cRebasedDrv( const std::string &d, const std::string &i, const std::string &b, const std::string &b2m, const std::string &b2t, const std::string &o, const std::string &c )
{ HarnessScope hs; auto a = mk( { d, i, b, b2m, b2t, o, c } ); return { "createRebasedChangesetEx(" + d + ")", [a] { return GEODIFF_createRebasedChangesetEx( a->p[0], a->p[1], a->p[2], a->p[3], a->p[4], a->p[5], a->p[6] ); }, { o, c } }; }
ApiCall cRebaseDrv( const std::string &d, const std::string &i, const std::string &b, const std::string &m, const std::string &t, const std::string &c )
{ HarnessScope hs; auto a = mk( { d, i, b, m, t, c } ); return { "rebaseEx(" + d + ")", [a] { return GEODIFF_rebaseEx( a->p[0], a->p[1], a->p[2], a->p[3], a->p[4], a->p[5] ); }, { c } }; }
ApiCall cCopy( const std::string &sd, const std::string &si, const std::string &s, const std::string &dd, const std::string &di, const std::string &d )
{ HarnessScope hs; auto a = mk( { sd, si, s, dd, di, d } ); return { "makeCopy(" + sd + "->" + dd + ")", [a] { return GEODIFF_makeCopy( a->p[0], a->p[1], a->p[2], a->p[3], a->p[4], a->p[5] ); }, { d } }; }

ApiCall cTool( const std::vector<std::string> &a ) { HarnessScope hs; return cli( a.empty() ? "none" : a[0], a, {} ); }

Outcome call( const ApiCall &c, const std::vector<Fault> &faults, bool exceptionOk )
{
  HarnessScope hs;
  Outcome o;
  Proc *p = newProc( c.name );
  p->faults = faults;
  o.proc = p;
  ev( "call %s", c.name.c_str() );
  g_lastLog.clear(); g_logAll.clear();
  probe( "call." + c.name );
  ( CallResult & )o = runCall( p, c.fn );
  o.log = g_lastLog;
  ev( "call %s -> done=%d rc=%d killed=%d exc=%d", c.name.c_str(), o.done, o.rc, o.killed, o.exc );
  if ( o.exc && c.name.find( "[cli]" ) != std::string::npos ) { o.done = true; o.exc = false; o.rc = 134; }     // the tool ends with an abort status
  if ( o.exc && !exceptionOk ) violate( "exception-escaped", "%s: C++ exception %s left the C interface%s", c.name.c_str(), o.excText.c_str(), faults.empty() ? "" : ( " under fault " + faultStr( faults[0] ) ).c_str() );
  return o;
}
void mustOk( const ApiCall &c, const std::string &cls )
{
  Outcome o = call( c );
  if ( !o.ok() ) violate( cls, "%s failed without any fault (rc %d): %s", c.name.c_str(), o.rc, o.log.c_str() );
}

// ------------------------------------------------------------------ faults
OpCounts dryRun( const ApiCall &c, Outcome *out, const std::function<void()> &after )
{
  HarnessScope hs;
  FsImage img = fsSnapshot();
  PgServer pg = pgSnapshot();
  Outcome o = call( c );
  OpCounts oc;
  memcpy( oc.n, o.proc->ops, sizeof oc.n );
  if ( out ) *out = o;
  if ( after ) after();
  fsRestore( img );
  if ( oc.n[C_PG] ) pgRestore( pg );
  return oc;
}
Fault pickFault( const OpCounts &oc, int sets )
{
  HarnessScope hs;
  struct K { FaultKind k; int w; int set; };
  static const K ks[] =
  {
    { F_KILL, 30, FS_DEATH }, { F_POWER, 30, FS_DEATH },
    { F_EIO_READ, 6, FS_DB }, { F_EIO_WRITE, 8, FS_DB }, { F_EIO_SYNC, 5, FS_DB }, { F_EIO_OPEN, 5, FS_DB }, { F_EIO_TRUNC, 3, FS_DB }, { F_EIO_DELETE, 4, FS_DB }, { F_ENOSPC, 8, FS_DB },
    { F_BUSY, 8, FS_LOCK },
    { F_NOMEM_SQ, 12, FS_MEM }, { F_NOMEM_NEW, 10, FS_MEM },
    { F_LC_EIO_READ, 6, FS_STREAM }, { F_LC_EIO_WRITE, 6, FS_STREAM }, { F_LC_ENOSPC, 8, FS_STREAM }, { F_LC_OPEN, 6, FS_STREAM }, { F_LC_CLOSE, 3, FS_STREAM }, { F_LC_SHORTREAD, 3, FS_BENIGN },
    { F_LC_SHORT, 4, FS_BENIGN }, { F_LC_EINTR, 3, FS_BENIGN },
    { F_LC_DEL, 3, FS_UNLINK },
    { F_PG_LOST_BEFORE, 14, FS_PG }, { F_PG_LOST_AFTER, 14, FS_PG }, { F_PG_ERROR, 24, FS_PG }, { F_PG_CRASH, 14, FS_PG }, { F_PG_NULL, 8, FS_PG }
  };
  std::vector<std::pair<K, uint64_t>> cand; int tot = 0;
  for ( auto &k : ks )
  {
    if ( !( k.set & sets ) ) continue;
    uint64_t n = 0; for ( int c = 0; c < C_N; ++c ) if ( faultApplies( k.k, ( OpClass )c ) ) n += oc.n[c];
    if ( !n ) continue;
    cand.push_back( { k, n } ); tot += k.w;
  }
  Fault f;
  if ( cand.empty() ) return f;
  uint32_t v = 0;
  if ( !ch.replaying ) { int r = ( int )ch.rng.below( tot ); for ( auto &c : cand ) { if ( r < c.first.w ) break; r -= c.first.w; ++v; } }
  v = ch.raw( v, cand.size() );
  auto &c = cand[v];
  f.kind = c.first.k;
  f.at = 1 + ch.choose( ( uint32_t )std::min<uint64_t>( c.second, 1000000 ) );
  int st = 0;
  switch ( f.kind )
  {
    case F_ENOSPC: case F_LC_ENOSPC: st = 85; break;
    case F_EIO_WRITE: case F_EIO_READ: case F_EIO_SYNC: case F_LC_EIO_WRITE: case F_LC_EIO_READ: st = 40; break;
    case F_BUSY: st = 60; break;
    case F_NOMEM_SQ: st = 25; break;
    case F_EIO_OPEN: case F_LC_OPEN: case F_EIO_DELETE: st = 30; break;
    default: break;
  }
  f.sticky = ch.chance( st );
  f.param = ch.choose( 8 );
  return f;
}
std::string faultStr( const Fault &f ) { return strf( "%s#%llu%s", faultName[f.kind], ( unsigned long long )f.at, f.sticky ? "+" : "" ); }

// ------------------------------------------------------------------ worlds
void randomFsKnobs()
{
  HarnessScope hs;
  g_sectorSize = ch.weighted( { 3, 1 } ) ? 4096 : 512;
  g_devChar = ch.weighted( { 3, 1 } ) ? SQLITE_IOCAP_POWERSAFE_OVERWRITE : 0;
}
World mkWorld( const GenCfg &g, const std::string &dir, const std::string &file, int rows )
{
  HarnessScope hs;
  World w;
  w.g = g; w.dir = dir;
  g_dirs.insert( dir.substr( 0, dir.size() - 1 ) );
  w.sp = genSpec( g );
  createDb( dir + file, w.sp );
  fillDb( dir + file, w.sp, g, rows );
  ev( "world %s", specStr( w.sp ).c_str() );
  return w;
}
DbState mustRead( const std::string &path, const std::string &cls, const char *what )
{
  DbState s = readDb( path );
  if ( !s.ok ) violate( cls, "%s: database unusable: %s", what, s.err.c_str() );
  return s;
}
bool sidecar( const std::string &f )
{
  auto e = [&]( const char *x ) { size_t n = strlen( x ); return f.size() > n && f.compare( f.size() - n, n, x ) == 0; };
  return e( "-journal" ) || e( "-wal" ) || e( "-shm" );
}
std::set<std::string> fileSet( const std::string &prefix )
{
  std::set<std::string> r;
  for ( auto &f : fsList( prefix ) ) if ( f.compare( 0, 7, "/sim/o/" ) != 0 && !sidecar( f ) ) r.insert( f );
  return r;
}

// ------------------------------------------------------------------ JSON
namespace {
struct JP
{
  const std::string &s; size_t p = 0; std::string err; int depth = 0;
  explicit JP( const std::string &x ) : s( x ) {}
  bool fail( const char *m ) { if ( err.empty() ) err = strf( "%s at offset %zu", m, p ); return false; }
  void ws() { while ( p < s.size() && ( s[p] == ' ' || s[p] == '\n' || s[p] == '\r' || s[p] == '\t' ) ) ++p; }
  bool str( std::string &o )
  {
    if ( p >= s.size() || s[p] != '"' ) return fail( "expected string" );
    ++p;
    while ( true )
    {
      if ( p >= s.size() ) return fail( "unterminated string" );
      unsigned char c = s[p++];
      if ( c == '"' ) return true;
      if ( c < 32 ) { --p; return fail( "raw control character in string" ); }
      if ( c != '\\' ) { o += ( char )c; continue; }
      if ( p >= s.size() ) return fail( "unterminated escape" );
      c = s[p++];
      switch ( c )
      {
        case '"': case '\\': case '/': o += ( char )c; break;
        case 'b': o += '\b'; break; case 'f': o += '\f'; break; case 'n': o += '\n'; break; case 'r': o += '\r'; break; case 't': o += '\t'; break;
        case 'u':
        {
          auto h4 = [&]( uint32_t &v ) { v = 0; for ( int i = 0; i < 4; ++i ) { if ( p >= s.size() || !isxdigit( ( unsigned char )s[p] ) ) return false; char d = s[p++]; v = v * 16 + ( d <= '9' ? d - '0' : ( d | 32 ) - 'a' + 10 ); } return true; };
          uint32_t v; if ( !h4( v ) ) return fail( "bad \\u escape" );
          if ( v >= 0xd800 && v < 0xdc00 && p + 1 < s.size() && s[p] == '\\' && s[p + 1] == 'u' ) { p += 2; uint32_t w; if ( !h4( w ) ) return fail( "bad \\u escape" ); v = 0x10000 + ( ( v - 0xd800 ) << 10 ) + ( w - 0xdc00 ); }
          if ( v < 0x80 ) o += ( char )v;
          else if ( v < 0x800 ) { o += ( char )( 0xc0 | v >> 6 ); o += ( char )( 0x80 | ( v & 63 ) ); }
          else if ( v < 0x10000 ) { o += ( char )( 0xe0 | v >> 12 ); o += ( char )( 0x80 | ( ( v >> 6 ) & 63 ) ); o += ( char )( 0x80 | ( v & 63 ) ); }
          else { o += ( char )( 0xf0 | v >> 18 ); o += ( char )( 0x80 | ( ( v >> 12 ) & 63 ) ); o += ( char )( 0x80 | ( ( v >> 6 ) & 63 ) ); o += ( char )( 0x80 | ( v & 63 ) ); }
          break;
        }
        default: --p; return fail( "invalid escape" );
      }
    }
  }
  bool val( Json &j )
  {
    if ( ++depth > 50 ) return fail( "nesting" );
    ws();
    if ( p >= s.size() ) return fail( "unexpected end" );
    char c = s[p];
    bool r = true;
    if ( c == '{' )
    {
      ++p; j.t = Json::OBJ; ws();
      if ( p < s.size() && s[p] == '}' ) { ++p; }
      else while ( true )
        {
          ws(); std::string k; if ( !str( k ) ) { r = false; break; }
          ws(); if ( p >= s.size() || s[p] != ':' ) { r = fail( "expected :" ); break; }
          ++p; Json v; if ( !val( v ) ) { r = false; break; }
          if ( j.get( k ) ) { r = fail( "duplicate member" ); break; }
          j.o.push_back( { k, v } );
          ws(); if ( p < s.size() && s[p] == ',' ) { ++p; continue; }
          if ( p < s.size() && s[p] == '}' ) { ++p; break; }
          r = fail( "expected , or }" ); break;
        }
    }
    else if ( c == '[' )
    {
      ++p; j.t = Json::ARR; ws();
      if ( p < s.size() && s[p] == ']' ) { ++p; }
      else while ( true )
        {
          Json v; if ( !val( v ) ) { r = false; break; }
          j.a.push_back( v );
          ws(); if ( p < s.size() && s[p] == ',' ) { ++p; continue; }
          if ( p < s.size() && s[p] == ']' ) { ++p; break; }
          r = fail( "expected , or ]" ); break;
        }
    }
    else if ( c == '"' ) { j.t = Json::STR; r = str( j.s ); }
    else if ( s.compare( p, 4, "null" ) == 0 ) { p += 4; j.t = Json::NUL; }
    else if ( s.compare( p, 4, "true" ) == 0 ) { p += 4; j.t = Json::BOOL; j.b = true; }
    else if ( s.compare( p, 5, "false" ) == 0 ) { p += 5; j.t = Json::BOOL; }
    else
    {
      size_t q = p; j.t = Json::NUM;
      if ( p < s.size() && s[p] == '-' ) ++p;
      size_t d0 = p;
      while ( p < s.size() && isdigit( ( unsigned char )s[p] ) ) ++p;
      if ( p == d0 || ( s[d0] == '0' && p > d0 + 1 ) ) { p = q; r = fail( "invalid value" ); }
      else
      {
        if ( p < s.size() && s[p] == '.' ) { ++p; size_t f = p; while ( p < s.size() && isdigit( ( unsigned char )s[p] ) ) ++p; if ( p == f ) r = fail( "bad number" ); }
        if ( r && p < s.size() && ( s[p] | 32 ) == 'e' ) { ++p; if ( p < s.size() && ( s[p] == '+' || s[p] == '-' ) ) ++p; size_t f = p; while ( p < s.size() && isdigit( ( unsigned char )s[p] ) ) ++p; if ( p == f ) r = fail( "bad number" ); }
        j.s = s.substr( q, p - q );
      }
    }
    --depth;
    return r;
  }
};
}
bool parseJson( const std::string &text, Json &out, std::string &err )
{
  HarnessScope hs;
  JP p( text );
  if ( !p.val( out ) ) { err = p.err; return false; }
  p.ws();
  if ( p.p != text.size() ) { err = strf( "trailing text at offset %zu", p.p ); return false; }
  return true;
}
std::string b64( const std::string &s )
{
  static const char T[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
  std::string r;
  for ( size_t i = 0; i < s.size(); i += 3 )
  {
    uint32_t v = ( unsigned char )s[i] << 16;
    if ( i + 1 < s.size() ) v |= ( unsigned char )s[i + 1] << 8;
    if ( i + 2 < s.size() ) v |= ( unsigned char )s[i + 2];
    r += T[v >> 18]; r += T[( v >> 12 ) & 63];
    r += i + 1 < s.size() ? T[( v >> 6 ) & 63] : '='; r += i + 2 < s.size() ? T[v & 63] : '=';
  }
  return r;
}
bool jsonIs( const Json &j, const Val &v )
{
  switch ( v.t )
  {
    case 1: return j.t == Json::NUM && j.s == std::to_string( v.i );
    case 2: { if ( j.t != Json::NUM ) return false; double d = strtod( j.s.c_str(), nullptr ); return d == v.d; }
    case 3: return j.t == Json::STR && j.s == v.s;
    case 4: return j.t == Json::STR && j.s == b64( v.s );
    case 5: return j.t == Json::NUL;
    default: return false;
  }
}
static std::string jshow( const Json &j )
{
  switch ( j.t ) { case Json::NUL: return "null"; case Json::BOOL: return j.b ? "true" : "false"; case Json::NUM: return j.s; case Json::STR: return "\"" + j.s.substr( 0, 60 ) + "\""; default: return "..."; }
}
std::string checkListing( const std::string &text, const Changeset &c )
{
  Json j; std::string err;
  if ( !parseJson( text, j, err ) ) return "listing is not valid JSON: " + err;
  const Json *g = j.get( "geodiff" );
  if ( !g || g->t != Json::ARR ) return "listing has no geodiff array";
  if ( g->a.size() != c.entries.size() ) return strf( "listing has %zu entries, changeset has %zu changes", g->a.size(), c.entries.size() );
  // order of the changes is not prescribed: match greedily, in order first
  std::vector<bool> used( g->a.size() );
  auto match = [&]( const CsEntry &e, const Json &x, std::string &why ) -> bool
  {
    const Json *t = x.get( "table" ), *ty = x.get( "type" ), *cs = x.get( "changes" );
    if ( !t || !ty || !cs || cs->t != Json::ARR ) { why = "entry lacks table, type or changes"; return false; }
    if ( t->s != c.tableOf( e ) ) { why = "table " + t->s + " instead of " + c.tableOf( e ); return false; }
    const char *op = e.op == OP_INSERT ? "insert" : e.op == OP_DELETE ? "delete" : "update";
    if ( ty->s != op ) { why = "type " + ty->s + " instead of " + op; return false; }
    size_t n = c.tables[e.table].pk.size(), k = 0;
    for ( size_t i = 0; i < n; ++i )
    {
      Val o = e.op == OP_INSERT ? Val() : e.oldv[i], w = e.op == OP_DELETE ? Val() : e.newv[i];
      if ( o.t == 0 && w.t == 0 ) continue;
      if ( k >= cs->a.size() ) { why = strf( "column %zu not listed", i ); return false; }
      const Json &cj = cs->a[k++];
      const Json *cc = cj.get( "column" ), *co = cj.get( "old" ), *cn = cj.get( "new" );
      if ( !cc || cc->s != std::to_string( i ) ) { why = strf( "column %zu not listed in order", i ); return false; }
      if ( ( o.t != 0 ) != ( co != nullptr ) || ( w.t != 0 ) != ( cn != nullptr ) ) { why = strf( "column %zu: old/new present does not match", i ); return false; }
      if ( co && !jsonIs( *co, o ) ) { why = strf( "column %zu: old value %s listed as %s", i, o.str().c_str(), jshow( *co ).c_str() ); return false; }
      if ( cn && !jsonIs( *cn, w ) ) { why = strf( "column %zu: new value %s listed as %s", i, w.str().c_str(), jshow( *cn ).c_str() ); return false; }
    }
    if ( k != cs->a.size() ) { why = "extra columns listed"; return false; }
    return true;
  };
  for ( size_t i = 0; i < c.entries.size(); ++i )
  {
    std::string why;
    if ( !used[i] && match( c.entries[i], g->a[i], why ) ) { used[i] = true; continue; }
    bool ok = false; std::string w2;
    for ( size_t k = 0; k < g->a.size() && !ok; ++k ) if ( !used[k] && match( c.entries[i], g->a[k], w2 ) ) { used[k] = true; ok = true; }
    if ( !ok ) return strf( "change %zu is not stated by the listing: %s", i, why.c_str() );
  }
  return "";
}
std::string checkSummary( const std::string &text, const Changeset &c )
{
  Json j; std::string err;
  if ( !parseJson( text, j, err ) ) return "summary is not valid JSON: " + err;
  const Json *g = j.get( "geodiff_summary" );
  if ( !g || g->t != Json::ARR ) return "summary has no geodiff_summary array";
  std::map<std::string, std::map<std::string, int>> want, got;
  for ( auto &e : c.entries ) { auto &m = want[c.tableOf( e )]; m["insert"]; m["update"]; m["delete"]; ++m[e.op == OP_INSERT ? "insert" : e.op == OP_DELETE ? "delete" : "update"]; }
  for ( auto &x : g->a )
  {
    const Json *t = x.get( "table" );
    if ( !t ) return "summary entry without table";
    if ( got.count( t->s ) ) return "table " + t->s + " twice in summary";
    for ( const char *k : { "insert", "update", "delete" } ) { const Json *v = x.get( k ); if ( !v ) return strf( "no %s total", k ); got[t->s][k] = atoi( v->s.c_str() ); }
  }
  for ( auto i = got.begin(); i != got.end(); ) { if ( !want.count( i->first ) && !i->second["insert"] && !i->second["update"] && !i->second["delete"] ) i = got.erase( i ); else ++i; }
  if ( want != got )
  {
    for ( auto &w : want ) for ( auto &k : w.second ) { int v = got.count( w.first ) ? got[w.first][k.first] : -1; if ( v != k.second ) return strf( "table %s: %d %ss in the changeset, summary says %d", w.first.c_str(), k.second, k.first.c_str(), v ); }
    return "summary lists a table without changes";
  }
  return "";
}

// ------------------------------------------------------------------ three-way merge
std::string checkMerge( const DbState &B, const DbState &T, const DbState &O, const DbState &F )
{
  HarnessScope hs;
  if ( !F.ok ) return "result unusable: " + F.err;
  if ( !F.derived.empty() ) return F.derived;
  for ( auto &bt : B.tables )
  {
    const std::string &tn = bt.first;
    if ( skipTable( tn ) ) continue;
    auto ti = T.tables.find( tn ), oi = O.tables.find( tn ), fi = F.tables.find( tn );
    if ( ti == T.tables.end() || oi == O.tables.end() || fi == F.tables.end() ) return "table " + tn + " missing";
    if ( !bt.second.hasPk() ) continue;
    auto &b = bt.second.rows; auto &t = ti->second.rows; auto &o = oi->second.rows;
    std::map<Row, Row> rest = fi->second.rows;
    std::vector<size_t> nonPk; for ( size_t i = 0; i < bt.second.pk.size(); ++i ) if ( !bt.second.pk[i] ) nonPk.push_back( i );
    auto vals = [&]( const Row &r ) { Row v; for ( size_t i : nonPk ) v.push_back( r[i] ); return v; };
    std::set<Row> goneKeys;
    for ( auto &r : b )
    {
      auto tr = t.find( r.first ), orow = o.find( r.first );
      if ( tr == t.end() || orow == o.end() ) { goneKeys.insert( r.first ); continue; }
      auto f = rest.find( r.first );
      if ( f == rest.end() ) return "table " + tn + ": row " + rowStr( r.first ) + " lost although neither side deleted it";
      for ( size_t i : nonPk )
      {
        bool oc = orow->second[i] != r.second[i];
        const Val &want = oc ? orow->second[i] : tr->second[i];
        if ( f->second[i] != want )
          return strf( "table %s key %s column %zu: base %s theirs %s ours %s, merged %s", tn.c_str(), rowStr( r.first ).c_str(), i, r.second[i].str().c_str(), tr->second[i].str().c_str(), orow->second[i].str().c_str(), f->second[i].str().c_str() );
      }
      rest.erase( f );
    }
    std::set<Row> theirIns;
    for ( auto &r : t )
    {
      if ( b.count( r.first ) ) continue;
      theirIns.insert( r.first );
      auto f = rest.find( r.first );
      if ( f == rest.end() ) return "table " + tn + ": row inserted by theirs lost: " + rowStr( r.second );
      if ( f->second != r.second ) return "table " + tn + ": row inserted by theirs changed: " + rowStr( r.second ) + " became " + rowStr( f->second );
      rest.erase( f );
    }
    std::multiset<Row> pool;
    for ( auto &r : o )
    {
      if ( b.count( r.first ) ) continue;
      if ( !theirIns.count( r.first ) )
      {
        auto f = rest.find( r.first );
        if ( f == rest.end() ) return "table " + tn + ": row inserted by ours lost or renumbered without need: " + rowStr( r.second );
        if ( vals( f->second ) == vals( r.second ) ) { rest.erase( f ); continue; }
        // its key was taken by a renumbering: that row stays in rest and must match the pool
      }
      pool.insert( vals( r.second ) );
    }
    for ( auto &r : rest )
    {
      auto p = pool.find( vals( r.second ) );
      if ( p == pool.end() )
      {
        if ( goneKeys.count( r.first ) ) return "table " + tn + ": row deleted by one side is still there: " + rowStr( r.second );
        return "table " + tn + ": unexpected row " + rowStr( r.second );
      }
      pool.erase( p );
    }
    if ( !pool.empty() ) return "table " + tn + ": row inserted by ours lost, values " + rowStr( *pool.begin() );
  }
  return "";
}

void refConflicts( const DbState &B, const DbState &T, const DbState &O, ConflictMap &must )
{
  for ( auto &bt : B.tables )
  {
    if ( skipTable( bt.first ) || !bt.second.hasPk() ) continue;
    auto &t = T.tables.at( bt.first ).rows; auto &o = O.tables.at( bt.first ).rows;
    for ( auto &r : bt.second.rows )
    {
      auto tr = t.find( r.first ), orow = o.find( r.first );
      if ( tr == t.end() || orow == o.end() ) continue;
      for ( size_t i = 0; i < r.second.size(); ++i )
      {
        if ( bt.first == "gpkg_contents" && i == 4 ) continue;
        if ( tr->second[i] != r.second[i] && orow->second[i] != r.second[i] && tr->second[i] != orow->second[i] )
          must[ { bt.first, r.first }][( int )i] = { r.second[i], tr->second[i], orow->second[i] };
      }
    }
  }
}
std::string checkConflicts( const std::string &path, const DbState &B, const DbState &T, const DbState &O )
{
  HarnessScope hs;
  ConflictMap must;
  refConflicts( B, T, O, must );
  if ( must.empty() && !fsExists( path ) ) return "";
  if ( !fsExists( path ) ) { auto &m = *must.begin(); return strf( "no conflict file although table %s key %s column %d was changed by both sides", m.first.first.c_str(), rowStr( m.first.second ).c_str(), m.second.begin()->first ); }
  Json j; std::string err;
  if ( !parseJson( fsRead( path ), j, err ) ) return "conflict file is not valid JSON: " + err;
  const Json *g = j.get( "geodiff" );
  if ( !g || g->t != Json::ARR ) return "conflict file has no geodiff array";
  std::set<std::pair<std::string, std::string>> seenRows;
  std::set<std::pair<std::string, Row>> named;
  int cells = 0;
  for ( auto &x : g->a )
  {
    const Json *t = x.get( "table" ), *f = x.get( "fid" ), *cs = x.get( "changes" );
    if ( !t || !f || !cs || cs->t != Json::ARR ) return "conflict entry lacks table, fid or changes";
    const Json *ty = x.get( "type" ); if ( !ty || ty->s != "conflict" ) return "conflict entry is not of type conflict";
    auto bt = B.tables.find( t->s );
    if ( bt == B.tables.end() ) return "conflict in unknown table " + t->s;
    if ( !seenRows.insert( { t->s, f->s } ).second ) return "row reported twice: " + t->s + " " + f->s;
    Row key;
    for ( auto &r : bt->second.rows ) if ( r.first.size() == 1 && ( r.first[0].t == 1 ? std::to_string( r.first[0].i ) == f->s : false ) ) key = r.first;
    // rows with a text key are named by a number of geodiff's choosing: the row is the one the cells describe
    if ( key.empty() )
      for ( auto &r : bt->second.rows )
      {
        if ( r.first.size() != 1 || r.first[0].t != 3 || named.count( { t->s, r.first } ) ) continue;
        auto tr = T.tables.at( t->s ).rows.find( r.first ), orow = O.tables.at( t->s ).rows.find( r.first );
        if ( tr == T.tables.at( t->s ).rows.end() || orow == O.tables.at( t->s ).rows.end() ) continue;
        bool all = true;
        for ( auto &c : cs->a )
        {
          const Json *cc = c.get( "column" ), *jb = c.get( "base" ), *jt = c.get( "old" ), *jo = c.get( "new" );
          size_t col = cc ? ( size_t )atoi( cc->s.c_str() ) : 0;
          all = all && cc && jb && jt && jo && col < r.second.size() && jsonIs( *jb, r.second[col] ) && jsonIs( *jt, tr->second[col] ) && jsonIs( *jo, orow->second[col] );
        }
        if ( all ) { key = r.first; named.insert( { t->s, key } ); break; }
      }
    if ( key.empty() ) return "conflict names a row that is not in the base: table " + t->s + " fid " + f->s;
    auto tr = T.tables.at( t->s ).rows.find( key ), orow = O.tables.at( t->s ).rows.find( key );
    if ( tr == T.tables.at( t->s ).rows.end() || orow == O.tables.at( t->s ).rows.end() ) return "conflict names a row one side deleted: table " + t->s + " fid " + f->s;
    const Row &br = bt->second.rows.at( key );
    auto mi = must.find( { t->s, key } );
    if ( cs->a.empty() ) return "conflict entry without cells";
    std::set<int> seen;
    for ( auto &c : cs->a )
    {
      const Json *cc = c.get( "column" ), *jb = c.get( "base" ), *jt = c.get( "old" ), *jo = c.get( "new" );
      if ( !cc ) return "conflict cell lacks column";
      int col = atoi( cc->s.c_str() );
      if ( col < 0 || col >= ( int )br.size() || !seen.insert( col ).second ) return strf( "bad or repeated column %d", col );
      const Val &vb = br[col], &vt = tr->second[col], &vo = orow->second[col];
      if ( vt == vb || vo == vb ) return strf( "cell changed by one side only is reported: table %s key %s column %d (base %s theirs %s ours %s)", t->s.c_str(), f->s.c_str(), col, vb.str().c_str(), vt.str().c_str(), vo.str().c_str() );
      if ( !jb || !jt || !jo ) return strf( "conflict cell lacks base, old or new: table %s key %s column %d", t->s.c_str(), f->s.c_str(), col );
      if ( !jsonIs( *jb, vb ) || !jsonIs( *jt, vt ) || !jsonIs( *jo, vo ) )
        return strf( "conflict cell values wrong: table %s key %s column %d: base %s theirs %s ours %s reported as %s %s %s", t->s.c_str(), f->s.c_str(), col, vb.str().c_str(), vt.str().c_str(), vo.str().c_str(), jshow( *jb ).c_str(), jshow( *jt ).c_str(), jshow( *jo ).c_str() );
      ++cells;
      if ( mi != must.end() ) mi->second.erase( col );
    }
    if ( mi != must.end() && mi->second.empty() ) must.erase( mi );
  }
  if ( !must.empty() ) { auto &m = *must.begin(); return strf( "conflict not reported: table %s key %s column %d", m.first.first.c_str(), rowStr( m.first.second ).c_str(), m.second.begin()->first ); }
  if ( !cells ) return "conflict file written without conflicts";
  return "";
}

void runScenario( const std::string &p )
{
  HarnessScope hs;
  randomFsKnobs();
  g_alias.clear();
  setenv( "TMPDIR", ch.chance( 25 ) ? "/sim/tmp" : "/sim/tmp/", 1 );
  if ( ch.chance( 25 ) )
  {
    static const char *A[] = { "it's ", "a \"b\" ", "100%s %n%d ", "\xc3\xb6 \xe8\xa1\xa8", "x;--", "w?mode=ro&cache=shared#", "back\\", ".//", "tmp/../", ".gpkg-journal", "" };
    std::string n = A[ch.choose( 11 )];
    g_alias = "/sim/" + ( n.empty() ? std::string( 250, 'l' ) : n );
    sampleAdd( "directory %sw", n.c_str() );
  }
  if ( ch.chance( 25 ) )
  {
    // the program that uses the library has called setlocale()
    int w = 1 + ch.choose( 2 );
    if ( chooseHostLocale( w ) ) { sampleAdd( "locale %s", w == 1 ? "de_DE" : "tr_TR" ); probe( "host_locale" ); }
  }
  else chooseHostLocale( 0 );
  struct { const char *id; void ( *fn )(); } t[] =
  {
    { "C01", scenC01 }, { "C02", scenC02 }, { "C03", scenC03 }, { "C04", scenC04 }, { "C05", scenC05 }, { "C06", scenC06 }, { "C07", scenC07 },
    { "C08", scenC08 }, { "C09", scenC09 }, { "C10", scenC10 }, { "C11", scenC11 }, { "C12", scenC12 }, { "C13", scenC13 }, { "C14", scenC14 },
    { "C15", scenC15 }, { "C16", scenC16 }, { "C17", scenC17 }, { "C18", scenC18 }, { "C19", scenC19 }, { "C20", scenC20 }, { "C22", scenC22 }, { "C23", scenC23 }
  };
  for ( auto &x : t ) if ( p == x.id ) { x.fn(); return; }
  herr( "unknown property %s", p.c_str() );
}
} // namespace sim
