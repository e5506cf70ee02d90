// PostgreSQL scenarios: C15 (replicas carry the same data), C16 (atomic apply, usable ids) and the PostgreSQL
// parts of C12, C17 and C18.  The server is pgsim.cpp.
#include "scen.h"
#include "scen_pg.h"
#include "pgsim.h"
#include <algorithm>
#include <cstring>

namespace sim {
bool pgEnabled() { return true; }

namespace {
const char *INFO = "host=simpg dbname=gis";

// ------------------------------------------------------------------ names and literals
std::string pq( const std::string &s ) { std::string r = "\""; for ( char c : s ) { if ( c == '"' ) r += c; r += c; } return r + "\""; }
std::string lit( const std::string &s ) { std::string r = "'"; for ( char c : s ) { if ( c == '\'' ) r += c; r += c; } return r + "'"; }       // standard_conforming_strings
std::string hexs( const std::string &s ) { static const char *h = "0123456789abcdef"; std::string r; for ( unsigned char c : s ) { r += h[c >> 4]; r += h[c & 15]; } return r; }
std::string litOf( const PgVal &v ) { return v.k == 'N' ? "NULL" : v.k == 'g' ? strf( "ST_GeomFromWKB('\\x%s', %lld)", hexs( v.s ).c_str(), ( long long )v.i ) : lit( pgOut( v ) ); }

// ------------------------------------------------------------------ definitions
struct PCol
{
  std::string name; char kind = 'i';        // i b f d t c T g
  int pk = 0; bool notnull = false, serial = false;
  std::string geom; bool z = false, m = false; int srid = 4326;
};
struct PTab { std::string name; std::vector<PCol> cols; int dropped = -1; std::vector<std::vector<int>> indexes; };
typedef std::vector<PTab> PSpec;

std::string typeOf( const PCol &c )
{
  switch ( c.kind )
  {
    case 'i': return "integer"; case 'b': return "boolean"; case 'f': return "real"; case 'd': return "double precision"; case 't': return "text"; case 'c': return "citext"; case 'T': return "timestamp without time zone";
    case 'g': { std::string t = c.geom; for ( size_t i = 1; i < t.size(); ++i ) t[i] = ( char )tolower( t[i] ); if ( t == "Linestring" ) t = "LineString"; return "geometry(" + t + ( c.z ? "Z" : "" ) + ( c.m ? "M" : "" ) + "," + std::to_string( c.srid ) + ")"; }
    default: return "text";
  }
}
struct PGen { bool spatialOnly = false, citext = true, citextKeys = false, weird = true, noPk = true, intPk = false; int maxTables = 3; bool realCol = true; };
PSpec genPg( const PGen &g )
{
  static const char *TN[] = { "simple", "points", "lines", "notes", "Table", "my table", "o'brien", "dq\"t", "\xe8\xa1\xa8", "group", "a.b", "1st", "semi;t", "back\\t", "pct%sd" };
  static const char *CN[] = { "name", "rating", "when", "value", "note", "flag", "Col", "o'col", "dq\"c", "select", "a b", "\xc3\xa9t\xc3\xa9", "x.y", "100%", "b\\s" };
  PSpec sp; std::set<std::string> used;
  int nt = ch.range( 1, g.maxTables );
  for ( int t = 0; t < nt; ++t )
  {
    PTab x;
    do { x.name = TN[g.weird && ch.chance( 35 ) ? ch.choose( 15 ) : ch.choose( 4 )]; if ( used.count( x.name ) ) x.name += std::to_string( t ); } while ( used.count( x.name ) );
    used.insert( x.name );
    bool spatial = g.spatialOnly || ch.chance( 45 );
    auto col = [&]( const std::string &n, char k ) -> PCol & { PCol c; c.name = n; c.kind = k; x.cols.push_back( c ); return x.cols.back(); };
    int pk = g.intPk ? ( int )ch.weighted( { 6, 3 } ) : ( int )ch.weighted( { 6, 2, 2, 2, 1, g.noPk && t > 0 ? 1 : 0 } );
    bool last = ch.chance( 12 );
    auto keys = [&]()
    {
      switch ( pk )
      {
        case 0: { PCol &c = col( ch.chance( 60 ) ? "fid" : g.weird && ch.chance( 30 ) ? "key's" : "Id", 'i' ); c.pk = 1; c.serial = true; break; }
        case 1: col( "id", 'i' ).pk = 1; break;
        case 2: col( "code0", g.citextKeys && ch.chance( 60 ) ? 'c' : 't' ).pk = 1; break;
        case 3: col( "k1", 'i' ).pk = 2; col( "k2", g.citextKeys && ch.chance( 40 ) ? 'c' : 't' ).pk = 1; break;
        case 4: col( "p1", 'i' ).pk = 1; col( "p2", 'i' ).pk = 2; break;
      }
    };
    if ( !last ) keys();
    if ( spatial )
    {
      static const char *G[] = { "POINT", "LINESTRING", "POLYGON" };
      PCol &c = col( ch.chance( 70 ) ? "geometry" : "geom", 'g' ); c.geom = G[ch.weighted( { 5, 3, 2 } )]; c.z = ch.chance( 20 ); c.m = ch.chance( 15 );
      static const int S[] = { 4326, 3857, 5514, 102067 }; c.srid = S[ch.choose( 4 )];
    }
    std::set<std::string> uc;
    int nc = ch.range( pk == 4 || ( pk == 3 && ch.chance( 30 ) ) ? 0 : 1, 5 );
    for ( int i = 0; i < nc; ++i )
    {
      std::string n = CN[g.weird && ch.chance( 25 ) ? ch.choose( 15 ) : ch.choose( 6 )];
      std::string l = n; for ( char &ch2 : l ) ch2 = ( char )tolower( ch2 );
      if ( !uc.insert( l ).second ) { n += std::to_string( i ); uc.insert( l + std::to_string( i ) ); }
      static const char K[] = "titdbTfc";
      char k = K[ch.weighted( { 4, 3, 1, 3, 3, 3, g.realCol ? 1 : 0, g.citext ? 1 : 0 } )];
      col( n, k ).notnull = ch.chance( 12 );
    }
    if ( last ) keys();
    if ( x.cols.empty() ) col( "only", 't' );
    if ( x.cols.size() > 1 && ch.chance( 20 ) ) x.dropped = ( int )ch.choose( x.cols.size() );
    if ( ch.chance( 30 ) ) { std::vector<int> ix; for ( size_t i = 0; i < x.cols.size(); ++i ) if ( x.cols[i].pk && ch.chance( 70 ) ) ix.push_back( ( int )i ); int c = ( int )ch.choose( x.cols.size() ); if ( std::find( ix.begin(), ix.end(), c ) == ix.end() ) ix.push_back( c ); x.indexes.push_back( ix ); }
    if ( ch.chance( 15 ) ) x.indexes.push_back( { ( int )ch.choose( x.cols.size() ) } );
    sp.push_back( x );
  }
  return sp;
}
void createPg( PgClient &c, const std::string &schema, const PSpec &sp )
{
  c.exec( "DROP SCHEMA IF EXISTS " + pq( schema ) + " CASCADE" );
  c.exec( "CREATE SCHEMA " + pq( schema ) );
  for ( auto &t : sp )
  {
    std::string s = "CREATE TABLE " + pq( schema ) + "." + pq( t.name ) + " (", pk; int npk = 0; std::map<int, std::string> pks;
    for ( size_t i = 0; i < t.cols.size(); ++i )
    {
      auto &k = t.cols[i];
      if ( t.dropped == ( int )i ) s += strf( "%sgone%zu text", i ? ", " : "", i ) + ", "; else if ( i ) s += ", ";
      s += pq( k.name ) + " " + ( k.serial ? "SERIAL" : typeOf( k ) ) + ( k.notnull && !k.pk ? " NOT NULL" : "" );
      if ( k.pk ) { pks[k.pk] = pq( k.name ); ++npk; }
    }
    for ( auto &p : pks ) pk += ( pk.empty() ? "" : ", " ) + p.second;
    if ( npk ) s += ", PRIMARY KEY (" + pk + ")";
    c.exec( s + ")" );
  }
  // what needs no SQL: dropped columns and further indexes
  for ( auto &t : sp )
  {
    PgTable &x = g_pg.db.schemas[schema].tables[t.name];
    if ( t.dropped >= 0 ) { x.cols[t.dropped].dropped = true; x.cols[t.dropped].name = strf( "........pg.dropped.%d........", t.dropped + 1 ); }
    for ( auto &ix : t.indexes ) { PgIndex n; n.name = strf( "ix_%zu", x.indexes.size() ); for ( int i : ix ) n.cols.push_back( t.dropped >= 0 && i >= t.dropped ? i + 1 : i ); x.indexes.push_back( n ); }
  }
  ++g_pg.db.version;
}
PSpec without( PSpec s ) { for ( auto &t : s ) { t.dropped = -1; t.indexes.clear(); } return s; }      // same definition, other history
std::vector<int> liveCols( const PgTable &t ) { std::vector<int> r; for ( size_t i = 0; i < t.cols.size(); ++i ) if ( !t.cols[i].dropped ) r.push_back( ( int )i ); return r; }
// rows and sequence positions of one schema into another of the same definition
void copyRows( const std::string &src, const std::string &dst )
{
  for ( auto &t : g_pg.db.schemas[src].tables )
  {
    auto d = g_pg.db.schemas[dst].tables.find( t.first );
    if ( d == g_pg.db.schemas[dst].tables.end() ) continue;
    d->second.rows.clear();
    auto a = liveCols( t.second ), b = liveCols( d->second );
    for ( auto &r : t.second.rows ) { PgRow n( d->second.cols.size() ); for ( size_t i = 0; i < a.size(); ++i ) n[b[i]] = r.second[a[i]]; d->second.rows[g_pg.nextRow++] = n; }
    for ( size_t i = 0; i < a.size(); ++i )
    {
      auto &sc = t.second.cols[a[i]]; auto &dc = d->second.cols[b[i]];
      if ( !sc.seq.empty() && !dc.seq.empty() ) g_pg.seqVals[g_pg.db.schemas[dst].seqs[dc.seq].id] = g_pg.seqVals[g_pg.db.schemas[src].seqs[sc.seq].id];
    }
  }
  ++g_pg.db.version;
}
void copyPg( PgClient &c, const std::string &src, const std::string &dst, const PSpec &sp ) { createPg( c, dst, ch.chance( 25 ) ? without( sp ) : sp ); copyRows( src, dst ); }

// ------------------------------------------------------------------ an application editing PostgreSQL
struct PEdit { bool f32 = false; bool keys = true; bool collisionIsViolation = true; };
std::string genPgVal( const PgCol &c, const PEdit &e )
{
  if ( !c.notnull && !c.pk && ch.chance( 15 ) ) return "NULL";
  ColSpec s; GenCfg g; g.pgSafe = true; s.notnull = true;
  char k = c.type == "integer" ? 'i' : c.type == "boolean" ? 'b' : c.type == "real" ? 'f' : c.type == "double precision" ? 'd' : c.type.compare( 0, 8, "geometry" ) == 0 ? 'g' : c.type.compare( 0, 9, "timestamp" ) == 0 ? 'T' : 't';
  switch ( k )
  {
    case 'i': { s.kind = K_INT; return std::to_string( genVal( s, g ).i ); }
    case 'b': return ch.choose( 2 ) ? "true" : "'f'";
    case 'f': { static const char *F[] = { "0.5", "0.1", "3.4e38", "1e-45", "-7", "16777216", "1.1754944e-38", "0", "-2.25", "0.333333343" }; if ( !e.f32 ) return lit( F[ch.choose( 10 )] ); return ch.choose( 2 ) ? "'0.5'" : "-2.25"; }
    case 'd':
    {
      static const char *D[] = { "0.1", "0.3333333333333333", "1e300", "5e-324", "-0", "123456.789012345", "100000000000000000", "2.5", "0", "1.7976931348623157e308", "-1e-9", "Infinity", "9007199254740993", "3" };
      return lit( D[ch.choose( ch.chance( 10 ) ? 14 : 11 )] );
    }
    case 'T':
    {
      static const char *T[] = { "2020-07-13 16:17:54", "1999-12-31 23:59:59.999", "2021-02-28 00:00:00.1", "2024-02-29 12:00:00", "0999-01-01 00:00:00", "9999-12-31 23:59:59", "2020-07-13 16:17:54.123456", "1970-01-01 00:00:00", "1969-12-31 23:59:59.5", "2020-07-13 16:17:54.000001", "2001-01-01 00:00:00" };
      return lit( T[ch.choose( 11 )] );
    }
    case 'g':
    {
      std::string t = c.geomType; bool z = false, m = false;
      if ( !t.empty() && t.back() == 'M' ) { m = true; t.pop_back(); }
      if ( !t.empty() && t.back() == 'Z' ) { z = true; t.pop_back(); }
      return strf( "ST_GeomFromWKB('\\x%s', %d)", hexs( wkbGeom( t, z, m, ch.choose( 6 ) ) ).c_str(), c.srid );
    }
    default: s.kind = K_TEXT; return lit( genVal( s, g ).s );
  }
}
std::string genPgKey( const PgCol &c )
{
  if ( c.type == "integer" ) { uint32_t k = ch.choose( 24 ); return k < 20 ? std::to_string( 1 + k % 14 ) : k == 20 ? "2147483647" : k == 21 ? "-5" : k == 22 ? "100000" : "0"; }
  if ( c.type == "double precision" || c.type == "real" ) return strf( "%.1f", 0.5 + ch.choose( 6 ) );
  static const char *X[] = { "k1", "k2", "K1", "key'3", "", "\xc3\xa9", "k,1", "a b", "1", "01", "b\\s" };
  return lit( X[ch.choose( 11 )] );
}
// an insert where the server picks the key; 23505 there means that the sequence is behind
std::string serialOf( const PgTable &t ) { for ( auto &c : t.cols ) if ( !c.dropped && c.pk && !c.seq.empty() ) return c.name; return ""; }
void insertDefault( PgClient &c, const std::string &schema, const std::string &tn, const PEdit &e, const char *when )
{
  PgTable t = g_pg.db.schemas[schema].tables[tn];
  std::string cols, vals;
  for ( auto &k : t.cols ) if ( !k.dropped && !( k.pk && !k.seq.empty() ) ) { cols += ( cols.empty() ? "" : ", " ) + pq( k.name ); vals += ( vals.empty() ? "" : ", " ) + ( k.pk ? genPgKey( k ) : genPgVal( k, e ) ); }
  PgAnswer a = c.tryExec( "INSERT INTO " + pq( schema ) + "." + pq( tn ) + ( cols.empty() ? std::string( " DEFAULT VALUES" ) : " (" + cols + ") VALUES (" + vals + ")" ) );
  if ( !a.ok && a.state == "23505" && e.collisionIsViolation ) violate( "id-collision", "%s: the server picked a key that is in use in table %s", when, tn.c_str() );
  if ( !a.ok && a.state != "23505" && a.state != "2200H" && a.state != "22003" && a.state != "25P02" && a.state != "40P01" && a.state != "55P03" ) herr( "insert: %s", a.err.c_str() );
  if ( a.ok ) probe( "pg.default_key_inserts" );
}
int pgEdit( PgClient &c, const std::string &schema, int ops, const PEdit &e )
{
  int done = 0;
  for ( int n = 0; n < ops; ++n )
  {
    std::vector<std::string> tn; for ( auto &t : g_pg.db.schemas[schema].tables ) tn.push_back( t.first );
    if ( tn.empty() ) return done;
    std::string name = tn[ch.choose( tn.size() )];
    PgTable t = g_pg.db.schemas[schema].tables[name];
    std::string T = pq( schema ) + "." + pq( name ), serial = serialOf( t );
    int op = ( int )ch.weighted( { 4, 6, 3, e.keys && serial.empty() ? 1 : 0, 1 } );
    PgAnswer a;
    if ( op == 0 || t.rows.empty() )
    {
      if ( !serial.empty() ) { size_t b = g_pg.db.version; insertDefault( c, schema, name, e, "application insert" ); done += g_pg.db.version != b; continue; }
      std::string cols, vals;
      for ( auto &k : t.cols ) if ( !k.dropped ) { cols += ( cols.empty() ? "" : ", " ) + pq( k.name ); vals += ( vals.empty() ? "" : ", " ) + ( k.pk ? genPgKey( k ) : genPgVal( k, e ) ); }
      a = c.tryExec( "INSERT INTO " + T + " (" + cols + ") VALUES (" + vals + ")" );
    }
    else
    {
      auto it = t.rows.begin(); std::advance( it, ch.choose( std::min<size_t>( t.rows.size(), 40 ) ) );
      std::string where; std::vector<int> nonPk, pk;
      for ( int i : liveCols( t ) ) { if ( t.cols[i].pk ) pk.push_back( i ); else nonPk.push_back( i ); }
      for ( int i : pk.empty() ? liveCols( t ) : pk ) where += ( where.empty() ? "" : " AND " ) + pq( t.cols[i].name ) + ( it->second[i].k == 'N' ? std::string( " IS NULL" ) : " = " + litOf( it->second[i] ) );
      if ( op == 2 ) a = c.tryExec( "DELETE FROM " + T + " WHERE " + where );
      else if ( op == 3 && !pk.empty() ) { std::string set; for ( int i : pk ) set += ( set.empty() ? "" : ", " ) + pq( t.cols[i].name ) + " = " + genPgKey( t.cols[i] ); a = c.tryExec( "UPDATE " + T + " SET " + set + " WHERE " + where ); }
      else
      {
        std::string set; std::set<int> dn;
        if ( op == 4 && e.keys && ch.chance( 50 ) )
          for ( int i : pk ) { auto &v = it->second[i]; if ( v.k == 'c' && !v.s.empty() && isalpha( ( unsigned char )v.s[0] ) ) { PgVal w = v; w.s[0] ^= 32; set = pq( t.cols[i].name ) + " = " + litOf( w ); break; } }
        if ( set.empty() && nonPk.empty() ) continue;
        if ( op == 4 && set.empty() )
        {
          // a change only letter case shows
          for ( int i : nonPk ) { auto &v = it->second[i]; if ( ( v.k == 't' || v.k == 'c' ) && !v.s.empty() && isalpha( ( unsigned char )v.s[0] ) ) { PgVal w = v; w.s[0] ^= 32; set = pq( t.cols[i].name ) + " = " + litOf( w ); break; } }
        }
        int k = set.empty() ? 1 + ( int )ch.weighted( { 6, 2, 1 } ) : 0;
        while ( k-- > 0 ) { int i = nonPk[ch.choose( nonPk.size() )]; if ( dn.insert( i ).second ) set += ( set.empty() ? "" : ", " ) + pq( t.cols[i].name ) + " = " + genPgVal( t.cols[i], e ); }
        a = c.tryExec( "UPDATE " + T + " SET " + set + " WHERE " + where );
      }
    }
    if ( a.ok ) ++done; else if ( a.state.compare( 0, 2, "23" ) != 0 && a.state != "40001" && a.state != "40P01" && a.state != "25P02" && a.state != "55P03" ) herr( "application edit: %s", a.err.c_str() );
  }
  return done;
}

// ------------------------------------------------------------------ comparing
Val nv( const Val &v )
{
  Val r = v;
  if ( v.t == 2 && v.d == 0 ) r.d = 0;
  if ( v.t == 3 && v.s.size() > 20 && v.s.size() < 30 && v.s[4] == '-' && v.s[10] == 'T' && v.s.back() == 'Z' && v.s[19] == '.' )
  { r.s.pop_back(); while ( r.s.back() == '0' ) r.s.pop_back(); if ( r.s.back() == '.' ) r.s.pop_back(); r.s += 'Z'; }
  if ( v.t == 4 && v.s.size() >= 8 && v.s[0] == 'G' && v.s[1] == 'P' )
  {
    static const int E[] = { 0, 32, 48, 48, 64, 0, 0, 0 };
    size_t h = 8 + E[( v.s[3] >> 1 ) & 7];
    r.s = v.s.substr( 4, 4 ) + ( v.s.size() > h ? v.s.substr( h ) : "" );
  }
  return r;
}
Row nr( const Row &r ) { Row o; for ( auto &v : r ) o.push_back( nv( v ) ); return o; }
// user tables with normalised values
DbState norm( const DbState &s )
{
  DbState o; o.ok = s.ok; o.err = s.err;
  for ( auto &t : s.tables )
  {
    if ( t.first.compare( 0, 5, "gpkg_" ) == 0 || t.first.compare( 0, 6, "rtree_" ) == 0 || t.first.compare( 0, 7, "sqlite_" ) == 0 ) continue;
    TableData d = t.second; d.rows.clear();
    for ( auto &p : d.pk ) p = p ? 1 : 0;
    for ( auto &r : t.second.rows ) d.rows[nr( r.first )] = nr( r.second );
    o.tables[t.first] = d;
  }
  return o;
}
DbState npg( const std::string &schema ) { return norm( pgRead( schema ) ); }
DbState ngp( const std::string &path ) { DbState s = readDb( path ); if ( !s.ok ) violate( "unusable", "%s: %s", path.c_str(), s.err.c_str() ); if ( !s.derived.empty() ) violate( "derived", "%s: %s", path.c_str(), s.derived.c_str() ); return norm( s ); }
std::string diffN( const DbState &want, const DbState &got, bool keyedOnly = true )
{
  std::string w = diffData( want, got, false, keyedOnly );
  return w;
}
// the number is what the server says for some value of a real column
bool realText( double d )
{
  for ( int p = 6; p <= 9; ++p )
  {
    std::string x = strf( "%.*g", p, ( double )( float ) d );
    if ( strtof( x.c_str(), nullptr ) == ( float ) d ) return strtod( x.c_str(), nullptr ) == d;
  }
  return false;
}
// values that only differ in how they are written down are no change
Changeset ncs( const Changeset &c )
{
  Changeset n = c; n.entries.clear();
  for ( CsEntry e : c.entries )
  {
    e.oldv = nr( e.oldv ); e.newv = nr( e.newv );
    bool any = e.op != OP_UPDATE;
    if ( !any ) for ( size_t i = 0; i < e.newv.size() && i < e.oldv.size(); ++i ) { if ( e.newv[i].t && e.newv[i] == e.oldv[i] ) { e.newv[i] = Val(); if ( !n.tables[e.table].pk[i] ) e.oldv[i] = Val(); } else if ( e.newv[i].t ) any = true; }
    if ( any ) n.entries.push_back( e );
  }
  return n;
}
ChangeMap nmap( const Changeset &c, std::string &err ) { ChangeMap m; err = toMap( ncs( c ), m ); for ( auto i = m.begin(); i != m.end(); ) if ( i->first.compare( 0, 5, "gpkg_" ) == 0 ) i = m.erase( i ); else ++i; return m; }

ApiCall pgCreate( const std::string &b, const std::string &m, const std::string &out ) { return cCreateEx( "postgres", INFO, b, m, out ); }
ApiCall pgApply( const std::string &s, const std::string &cs ) { return cApplyEx( "postgres", INFO, s, cs ); }

// a call whose effect is only its output files: some of the time under a fault first, then without
void okPg( const ApiCall &c, const std::string &cls, int pct = 30 )
{
  fsSyncAll();
  if ( ch.chance( pct ) )
  {
    OpCounts oc = dryRun( c );
    Fault f = pickFault( oc, ( FS_ERR & ~FS_LOCK ) | FS_BENIGN | FS_DEATH );
    if ( f.kind == F_POWER ) f.kind = F_KILL;
    if ( f.kind != F_NONE )
    {
      Outcome o = call( c, { f } );
      if ( o.ok() ) { if ( o.faultFired ) probe( "ok_under_fault" ); return; }
      if ( !o.killed && !o.faultFired ) violate( cls, "%s failed without any fault (rc %d): %s", c.name.c_str(), o.rc, o.log.c_str() );
      probe( o.killed ? "restarts" : "failed_under_fault" );
    }
  }
  mustOk( c, cls );
}
// applies until it is done; between tries the schema is as before, or complete when the commit was in doubt
void applyPg( const std::string &schema, const std::string &cs, const DbState &want, const std::string &cls, const char *ctx, int pct = 30 )
{
  ApiCall c = pgApply( schema, cs );
  DbState before = npg( schema );
  if ( ch.chance( pct ) )
  {
    OpCounts oc = dryRun( c );
    Fault f = pickFault( oc, FS_PG | FS_STREAM | FS_MEM | FS_BENIGN | FS_DEATH );
    if ( f.kind == F_POWER ) f.kind = F_KILL;
    if ( f.kind != F_NONE )
    {
      Outcome o = call( c, { f } );
      if ( !o.ok() )
      {
        if ( !o.killed && !o.faultFired ) violate( cls, "%s: %s failed without any fault (rc %d): %s", ctx, c.name.c_str(), o.rc, o.log.c_str() );
        probe( o.killed ? "restarts" : "failed_under_fault" );
        std::string d = diffN( before, npg( schema ) );
        if ( !d.empty() )
        {
          d = diffN( want, npg( schema ) );
          if ( !d.empty() ) violate( "partial", "%s: %s under %s did not succeed and left a part: %s", ctx, c.name.c_str(), faultStr( f ).c_str(), d.c_str() );
          probe( "pg.commit_in_doubt" );
          return;
        }
        mustOk( c, cls );
      }
    }
    else mustOk( c, cls );
  }
  else mustOk( c, cls );
  std::string d = diffN( want, npg( schema ) );
  if ( !d.empty() ) violate( "not-equal", "%s: %s succeeded, the schema is not what it should be: %s", ctx, c.name.c_str(), d.c_str() );
}
void startPg() { g_pgOrder = ( int )ch.choose( 3 ); }
std::string schemaName( int i )
{
  static const char *A[] = { "base", "Base Data", "o'schema", "dq\"s", "b.s", "back\\s" }, *B[] = { "modified", "Mod", "mod's", "other\"s", "m.s", "m\\s" }, *C[] = { "target", "Target", "t's", "t\"t", "t.t", "t\\t" };
  const char **L = i == 0 ? A : i == 1 ? B : C;
  return L[ch.chance( 70 ) ? 0 : ch.choose( 6 )];
}

// ------------------------------------------------------------------ C15
void pgPg()
{
  PgClient c;
  PGen g; g.citextKeys = ch.chance( 40 ); PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), t = schemaName( 2 );
  g_dirs.insert( "/sim/w" );
  createPg( c, b, sp );
  PEdit e; pgEdit( c, b, ch.range( 0, 10 ), e );
  copyPg( c, b, m, sp );
  pgEdit( c, m, ch.range( 0, 8 ), e );
  if ( ch.chance( 20 ) ) { PEdit q; q.collisionIsViolation = false; pgEdit( c, b, ch.range( 1, 3 ), q ); }
  DbState B = npg( b ), M = npg( m );
  std::string d = "/sim/w/d.diff", inv = "/sim/w/inv.diff", wrong;
  okPg( pgCreate( b, m, d ), "create-failed" );
  Changeset cs = parseCs( fsRead( d ) );
  std::string er = strictCs( cs, false, g.citextKeys );
  if ( !er.empty() ) violate( "format", "createChangesetEx(postgres): %s", er.c_str() );
  ChangeMap got = nmap( cs, er ), want = refDiff( B, M );
  // keys that are the same row in any case
  DbSpec ci;
  for ( auto &x : sp )
  {
    TableSpec y; y.name = x.name; bool any = false;
    for ( auto &k : x.cols ) { ColSpec z; z.name = k.name; z.pk = k.pk; if ( k.pk && k.kind == 'c' ) { any = true; z.collate = "NOCASE"; } y.cols.push_back( z ); }
    if ( any ) ci.tables.push_back( y );
  }
  if ( er.empty() && ci.tables.empty() ) er = diffMaps( want, got );
  if ( er.empty() && !ci.tables.empty() )
  {
    DbState W = M; for ( auto &x : W.tables ) if ( !x.second.hasPk() ) x.second = B.tables[x.first];
    RefApply ra = refApply( B, ncs( cs ), ci );
    er = ra.ok ? diffN( W, ra.state ) : ra.why;
    if ( er.empty() && want.empty() && !cs.entries.empty() ) er = "changes without a difference";
    probe( "pg.citext_keys" );
  }
  if ( !er.empty() ) violate( "diff-content", "createChangesetEx(postgres): %s", er.c_str() );
  size_t n = 0; for ( auto &x : want ) n += x.second.size();
  g_nontrivial = n > 0;
  g_stats.states.insert( B.hash() ); g_stats.states.insert( M.hash() );
  sampleAdd( "postgres to postgres, %zu tables, %zu changes", sp.size(), n );
  // a replica of the old version becomes the new one
  copyPg( c, b, t, sp );
  DbState W = M; for ( auto &x : W.tables ) if ( !x.second.hasPk() ) x.second = B.tables[x.first];
  applyPg( t, d, W, "apply-failed", "replica" );
  {
    PgServer s = pgSnapshot();
    for ( auto &x : s.db.schemas[t].tables ) if ( !serialOf( x.second ).empty() && ch.chance( 30 ) ) insertDefault( c, t, x.first, e, "after applying" );
    pgRestore( s );
  }
  if ( ch.chance( 50 ) )
  {
    mustOk( cInvert( d, inv ), "invert-failed" );
    applyPg( t, inv, B, "apply-failed", "undo on the replica", 15 );
  }
  // a replica that went another way: success only if everything matches
  {
    copyPg( c, ch.choose( 3 ) ? b : m, t, sp );
    PEdit q; q.collisionIsViolation = false;
    pgEdit( c, t, ch.range( 0, 4 ), q );
    DbState T = npg( t );
    RefApply ra = refApply( T, ncs( cs ), ci );
    Outcome o = call( pgApply( t, d ) );
    probe( ra.ok ? "pg.other_target_fits" : "pg.other_target_conflict" );
    if ( o.ok() && !ra.ok ) violate( "false-success", "applying to a target that does not match reported success: %s", ra.why.c_str() );
    if ( !o.ok() && ra.ok ) violate( "apply-failed", "applying to a matching target failed (rc %d): %s", o.rc, o.log.c_str() );
    er = diffN( ra.ok ? ra.state : T, npg( t ) );
    if ( !er.empty() ) violate( ra.ok ? "not-equal" : "partial", "other target, rc %d: %s", o.rc, er.c_str() );
  }
}

// the definition of a GeoPackage table made from a PostgreSQL one
DbSpec gpSpec( const PSpec &sp )
{
  DbSpec d; d.gpkg = true;
  for ( auto &t : sp )
  {
    TableSpec x; x.name = t.name;
    for ( auto &c : t.cols )
    {
      ColSpec k; k.name = c.name; k.type = typeOf( c ); k.pk = c.pk; k.notnull = c.notnull || c.pk;
      k.kind = c.kind == 'i' ? K_INT : c.kind == 'b' ? K_BOOL : c.kind == 'f' || c.kind == 'd' ? K_REAL : c.kind == 'T' ? K_DATETIME : c.kind == 'g' ? K_GEOM : K_TEXT;
      k.f32 = c.kind == 'f'; k.geom = c.geom; k.z = c.z; k.m = c.m; k.srs = c.srid;
      x.cols.push_back( k );
    }
    d.tables.push_back( x );
  }
  return d;
}
// a GeoPackage and a pair of PostgreSQL schemas kept the same by exchanging changesets both ways
void gpPg( bool pgFirst )
{
  PgClient c;
  World w; w.dir = "/sim/w/"; g_dirs.insert( "/sim/w" );
  w.g.pgSafe = true; w.g.bigKeys = false; w.g.unique = false; w.g.collate = false; w.g.noPkTables = false; w.g.wide = false; w.g.nulText = false; w.g.gpkgPct = 85;
  w.g.envelopes = !pgFirst && ch.chance( 8 );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), gb = w.path( "base.gpkg" ), gm = w.path( "mod.gpkg" ), d = w.path( "d.diff" );
  PEdit e; e.f32 = pgFirst;
  if ( pgFirst )
  {
    PGen g; g.spatialOnly = true; g.noPk = false; g.realCol = ch.chance( 30 );
    PSpec sp = genPg( g );
    createPg( c, b, sp );
    pgEdit( c, b, ch.range( 0, 10 ), e );
    copyPg( c, b, m, sp );
    w.sp = gpSpec( sp );
    okPg( cCopy( "postgres", INFO, b, "sqlite", "", gb ), "copy-failed" );
  }
  else
  {
    w.sp = genSpec( w.g );
    createDb( gb, w.sp ); fillDb( gb, w.sp, w.g, ch.range( 0, 6 ) );
    okPg( cCopy( "sqlite", "", gb, "postgres", INFO, b ), "copy-failed" );
    okPg( cCopy( "sqlite", "", gb, "postgres", INFO, m ), "copy-failed", 0 );
  }
  std::string er = diffN( ngp( gb ), npg( b ) );
  if ( !er.empty() ) violate( "copy-not-equal", "copy %s: %s", pgFirst ? "to GeoPackage" : "to PostgreSQL", er.c_str() );
  if ( !pgFirst ) { er = diffN( npg( b ), npg( m ) ); if ( !er.empty() ) violate( "copy-not-equal", "second copy: %s", er.c_str() ); }
  int rounds = ch.range( 1, g_thorough ? 8 : 4 );
  sampleAdd( "%s first, %zu tables, gpkg=%d, %d rounds", pgFirst ? "postgres" : "gpkg", w.sp.tables.size(), w.sp.gpkg, rounds );
  for ( int r = 0; r < rounds; ++r )
  {
    bool fromPg = ch.choose( 2 );
    std::string ctx = strf( "round %d %s", r, fromPg ? "from PostgreSQL" : "from GeoPackage" );
    std::string env;
    if ( fromPg ) { pgEdit( c, m, ch.range( 1, 6 ), e ); }
    else { fsRemoveDb( gm ); fsCopyDb( gb, gm ); appEdit( gm, w.sp, w.g, ec( ch.range( 1, 6 ), r ) ); }
    DbState want = fromPg ? npg( m ) : ngp( gm ), base = npg( b );
    ChangeMap wm = refDiff( base, want );
    size_t n = 0; for ( auto &x : wm ) n += x.second.size();
    if ( n ) g_nontrivial = true;
    okPg( fromPg ? pgCreate( b, m, d ) : cCreate( gb, gm, d, 1 ), "create-failed" );
    Changeset cs = parseCs( fsRead( d ) );
    ChangeMap got = nmap( cs, er );
    if ( er.empty() ) er = diffMaps( wm, got );
    if ( !er.empty() ) violate( "diff-content", "%s: %s", ctx.c_str(), er.c_str() );
    // to the other kind of replica
    if ( fromPg )
    {
      DbState raw = readDb( gb );
      // old geometry values can only be compared with what is stored when the stored header has no envelope (known finding)
      bool envHit = false;
      if ( w.g.envelopes )
        for ( auto &x : wm ) for ( auto &ch2 : x.second )
          {
            if ( ch2.second.op == OP_INSERT ) continue;
            auto row = raw.tables[x.first].rows.find( ch2.first );
            if ( row == raw.tables[x.first].rows.end() ) continue;
            for ( size_t i = 0; i < row->second.size(); ++i )
              if ( ch2.second.oldv[i].t == 4 && row->second[i].t == 4 && row->second[i].s.size() > 4 && row->second[i].s.compare( 0, 2, "GP" ) == 0 && ( ( row->second[i].s[3] >> 1 ) & 7 ) ) envHit = true;
          }
      fsSyncAll();
      ApiCall ap = cApplyEx( "sqlite", "", gb, d );
      if ( envHit )
      {
        DbState before = ngp( gb );
        Outcome o = call( ap );
        if ( o.ok() ) { er = diffN( want, ngp( gb ) ); if ( !er.empty() ) violate( "not-equal", "%s: GeoPackage replica: %s", ctx.c_str(), er.c_str() ); }
        else { er = diffN( before, ngp( gb ) ); if ( !er.empty() ) violate( "partial", "%s: refused with effect: %s", ctx.c_str(), er.c_str() ); probe( "known.F44" ); return; }
      }
      else
      {
        Outcome first;
        if ( ch.chance( 25 ) )
        {
          DbState before = ngp( gb );
          OpCounts oc = dryRun( ap );
          Fault f = pickFault( oc, FS_DB | FS_STREAM | FS_MEM | FS_BENIGN | FS_DEATH );
          if ( f.kind != F_NONE )
          {
            first = call( ap, { f } );
            if ( !first.ok() )
            {
              if ( !first.killed && !first.faultFired ) violate( "apply-failed", "%s: failed without any fault (rc %d): %s", ctx.c_str(), first.rc, first.log.c_str() );
              er = diffN( before, ngp( gb ) );
              if ( !er.empty() ) { er = diffN( want, ngp( gb ) ); if ( !er.empty() || !first.killed ) violate( "partial", "%s: GeoPackage under %s: %s", ctx.c_str(), faultStr( f ).c_str(), er.c_str() ); first.done = true; first.rc = 0; }
            }
          }
        }
        if ( !first.ok() ) mustOk( ap, "apply-failed" );
        er = diffN( want, ngp( gb ) );
        if ( !er.empty() ) violate( "not-equal", "%s: GeoPackage replica: %s", ctx.c_str(), er.c_str() );
      }
      applyPg( b, d, want, "apply-failed", ctx.c_str(), 10 );
    }
    else
    {
      applyPg( m, d, want, "apply-failed", ctx.c_str(), 30 );
      applyPg( b, d, want, "apply-failed", ctx.c_str(), 5 );
      fsRemoveDb( gb ); fsCopyDb( gm, gb );
    }
    g_stats.states.insert( want.hash() );
    probe( fromPg ? "rounds_from_postgres" : "rounds_from_geopackage" );
  }
}
}
void scenC15()
{
  startPg();
  switch ( ch.weighted( { 4, 4, 3 } ) ) { case 0: pgPg(); break; case 1: gpPg( false ); break; default: gpPg( true ); }
}

// ------------------------------------------------------------------ C05, C06, C07: rebase of PostgreSQL schemas
namespace {
PGen pgRebaseGen() { PGen g; g.intPk = true; g.noPk = false; g.citext = ch.chance( 30 ); return g; }
// both sides touch the same rows
void pgContend( PgClient &c, const std::string &b, const std::string &m, const std::string &t, int n, const PEdit &e )
{
  while ( n-- > 0 )
  {
    std::vector<std::string> tn; for ( auto &x : g_pg.db.schemas[b].tables ) tn.push_back( x.first );
    std::string name = tn[ch.choose( tn.size() )];
    PgTable bt = g_pg.db.schemas[b].tables[name];
    int pk = -1; std::vector<int> nonPk;
    for ( int i : liveCols( bt ) ) if ( bt.cols[i].pk ) pk = i; else nonPk.push_back( i );
    if ( pk < 0 ) continue;
    int what = ( int )ch.weighted( { 6, 2, 2, 2, 3 } );
    if ( what == 4 || nonPk.empty() || bt.rows.empty() )
    {
      // for keys the server picks, both usually get the same one anyway
      if ( !bt.cols[pk].seq.empty() ) { insertDefault( c, m, name, e, "application insert" ); insertDefault( c, t, name, e, "application insert" ); continue; }
      std::string key = genPgKey( bt.cols[pk] );
      for ( auto &s : { m, t } )
      {
        std::string cols = pq( bt.cols[pk].name ), vals = key;
        for ( int i : nonPk ) { cols += ", " + pq( bt.cols[i].name ); vals += ", " + genPgVal( bt.cols[i], e ); }
        c.tryExec( "INSERT INTO " + pq( s ) + "." + pq( name ) + " (" + cols + ") VALUES (" + vals + ")" );
      }
      continue;
    }
    auto it = bt.rows.begin(); std::advance( it, ch.choose( bt.rows.size() ) );
    std::string where = " WHERE " + pq( bt.cols[pk].name ) + " = " + litOf( it->second[pk] );
    int k1 = nonPk[ch.choose( nonPk.size() )], k2 = nonPk[ch.choose( nonPk.size() )];
    auto upd = [&]( const std::string &s, int col, const std::string &v ) { c.exec( "UPDATE " + pq( s ) + "." + pq( name ) + " SET " + pq( bt.cols[col].name ) + " = " + v + where ); };
    std::string v1 = genPgVal( bt.cols[k1], e );
    if ( what == 0 ) { upd( m, k1, v1 ); upd( t, k1, genPgVal( bt.cols[k1], e ) ); }
    if ( what == 1 ) { upd( m, k1, v1 ); upd( t, k1, v1 ); }
    if ( what == 2 ) { upd( m, k1, v1 ); upd( t, k2, genPgVal( bt.cols[k2], e ) ); }
    if ( what == 3 ) { bool w = ch.choose( 2 ); upd( w ? m : t, k1, v1 ); c.exec( "DELETE FROM " + pq( w ? t : m ) + "." + pq( name ) + where ); }
  }
}
// 2 also when there is no free key in PostgreSQL's integer
int pgTrouble( const DbState &B, const DbState &T, const DbState &O )
{
  int r = renumberTrouble( B, T, O );
  for ( auto &x : T.tables ) for ( auto &row : x.second.rows ) if ( row.first.size() == 1 && row.first[0].t == 1 && row.first[0].i > 2147483000 && !B.tables.at( x.first ).rows.count( row.first ) ) return 2;
  return r;
}
// values as changesets hold them
DbState asStored( DbState s, const std::string &schema )
{
  for ( auto &t : s.tables )
  {
    const PgTable &p = g_pg.db.schemas[schema].tables[t.first];
    auto lc = liveCols( p );
    for ( auto &r : t.second.rows ) for ( size_t i = 0; i < lc.size(); ++i )
      if ( p.cols[lc[i]].type.compare( 0, 8, "geometry" ) == 0 && r.second[i].t == 4 ) r.second[i].s = std::string( "GP\0\1", 4 ) + r.second[i].s;
      else if ( p.cols[lc[i]].type.compare( 0, 9, "timestamp" ) == 0 && r.second[i].t == 3 && r.second[i].s.size() > 20 )
      { std::string &v = r.second[i].s; size_t frac = v.size() - 21; v.insert( v.size() - 1, ( frac <= 3 ? 3 : 6 ) - frac, '0' ); }
  }
  return s;
}
struct PThree { PSpec sp; std::string dir, pfx, b, t, m, b2t, b2m, conf, out; DbState B, T, O; int trouble = 0; PEdit e; };
PThree mkPThree( PgClient &c, int rows = -1, const std::string &dir = "/sim/w", const std::string &pfx = "" )
{
  PThree x; x.sp = genPg( pgRebaseGen() );
  x.b = pfx + schemaName( 0 ); x.m = pfx + schemaName( 1 ); x.t = "their " + pfx + schemaName( 2 ); x.dir = dir; x.pfx = pfx;
  g_dirs.insert( dir );
  x.b2t = dir + "/b2t.diff"; x.b2m = dir + "/b2m.diff"; x.conf = dir + "/conf.json"; x.out = dir + "/reb.diff";
  createPg( c, x.b, x.sp );
  pgEdit( c, x.b, rows < 0 ? ch.range( 0, 8 ) : rows, x.e );
  copyPg( c, x.b, x.m, x.sp ); copyPg( c, x.b, x.t, x.sp );
  pgEdit( c, x.m, ch.chance( 8 ) ? 0 : ch.range( 1, 6 ), x.e );
  pgEdit( c, x.t, ch.chance( 8 ) ? 0 : ch.range( 1, 6 ), x.e );
  if ( ch.chance( 60 ) ) pgContend( c, x.b, x.m, x.t, ch.range( 1, 5 ), x.e );
  mustOk( pgCreate( x.b, x.t, x.b2t ), "create-failed" );
  mustOk( pgCreate( x.b, x.m, x.b2m ), "create-failed" );
  fsSyncAll();
  x.B = npg( x.b ); x.T = npg( x.t ); x.O = npg( x.m );
  x.trouble = pgTrouble( x.B, x.T, x.O );
  g_stats.states.insert( x.B.hash() ); g_stats.states.insert( x.T.hash() ); g_stats.states.insert( x.O.hash() );
  g_nontrivial = fsRead( x.b2t ).size() && fsRead( x.b2m ).size();
  return x;
}
}
void c05Pg()
{
  startPg();
  PgClient c;
  PThree x = mkPThree( c );
  ApiCall rb = cRebasedDrv( "postgres", INFO, x.b, x.b2m, x.b2t, x.out, x.conf );
  sampleAdd( "postgres: theirs %zu bytes ours %zu bytes trouble %d", fsRead( x.b2t ).size(), fsRead( x.b2m ).size(), x.trouble );
  if ( x.trouble == 2 ) { Outcome o = call( rb ); if ( !o.ok() ) { probe( "no_free_key" ); return; } }
  else okPg( rb, "rebase-failed", 40 );
  fsSyncAll();
  std::string s = "server";
  copyPg( c, x.b, s, x.sp );
  applyPg( s, x.b2t, x.T, "apply-theirs-failed", "merge" );
  PgServer mid = pgSnapshot();
  Outcome o = call( pgApply( s, x.out ) );
  if ( !o.ok() )
  {
    if ( x.trouble == 1 ) { probe( "known.F23" ); return; }
    if ( x.trouble == 2 ) { probe( "no_free_key" ); return; }
    violate( "rebased-refused", "postgres: the rebased changeset cannot be applied after theirs: %s", o.log.c_str() );
  }
  DbState F = npg( s );
  std::string er = checkMerge( x.B, x.T, x.O, F );
  if ( !er.empty() ) { if ( x.trouble == 1 ) { probe( "known.F23" ); return; } violate( "merge", "postgres: %s", er.c_str() ); }
  pgRestore( mid );
  applyPg( s, x.out, F, "rebased-refused", "merge" );
  PgServer fin = pgSnapshot();
  for ( auto &y : fin.db.schemas[s].tables ) if ( !serialOf( y.second ).empty() ) insertDefault( c, s, y.first, x.e, "after the merge" );
  g_stats.states.insert( F.hash() );
}
void c07Pg()
{
  startPg();
  PgClient c;
  PThree x = mkPThree( c, ch.range( 1, 8 ) );
  bool stale = ch.chance( 30 );
  if ( stale ) fsWrite( x.conf, "{\"geodiff\":[{\"table\":\"stale\",\"fid\":\"1\",\"changes\":[]}]}" );
  DbState B = asStored( x.B, x.b ), T = asStored( x.T, x.t ), O = asStored( x.O, x.m );
  bool in = ch.choose( 2 );
  ApiCall rb = in ? cRebaseDrv( "postgres", INFO, x.b, x.m, x.b2t, x.conf ) : cRebasedDrv( "postgres", INFO, x.b, x.b2m, x.b2t, x.out, x.conf );
  Outcome o = call( rb );
  sampleAdd( "postgres: %s stale=%d", rb.name.c_str(), stale );
  if ( !o.ok() ) { if ( x.trouble == 2 ) return; if ( x.trouble == 1 ) { probe( "known.F23" ); return; } violate( "rebase-failed", "%s failed without faults: %s", rb.name.c_str(), o.log.c_str() ); }
  std::string er = checkConflicts( x.conf, B, T, O );
  if ( !er.empty() ) violate( "conflicts", "%s%s: %s", rb.name.c_str(), stale ? " with a stale report" : "", er.c_str() );
}
void c06Pg()
{
  startPg();
  PgClient c;
  PSpec sp = genPg( pgRebaseGen() );
  PEdit e;
  g_dirs.insert( "/sim/w" );
  struct Cl { std::string base, local; int at = 0; };
  std::vector<Cl> cl( ch.range( 2, 3 ) );
  std::vector<std::string> ver = { "server v0" };
  createPg( c, ver[0], sp ); pgEdit( c, ver[0], ch.range( 0, 7 ), e );
  for ( size_t i = 0; i < cl.size(); ++i ) { cl[i].base = strf( "base %zu", i ); cl[i].local = strf( "local'%zu", i ); copyPg( c, ver[0], cl[i].base, sp ); copyPg( c, ver[0], cl[i].local, sp ); }
  std::string hist;
  int budget = 6;
  auto pull = [&]( Cl &k ) -> bool
  {
    int head = ( int )ver.size() - 1;
    if ( k.at == head ) return true;
    DbState B = npg( k.base ), T = npg( ver[head] ), L = npg( k.local );
    std::string b2t = "/sim/w/b2t.diff", conf = "/sim/w/conf.json";
    okPg( pgCreate( k.base, ver[head], b2t ), "create-failed", budget > 0 ? 15 : 0 );
    fsSyncAll();
    std::string bytes = fsRead( b2t );
    int tr = pgTrouble( B, T, L );
    ApiCall rb = cRebaseDrv( "postgres", INFO, k.base, k.local, b2t, conf );
    Outcome dry; DbState after; uint64_t hb = pgHash( k.base ), ht = pgHash( ver[head] );
    OpCounts oc = dryRun( rb, &dry, [&] { after = npg( k.local ); } );
    if ( !dry.ok() )
    {
      std::string d = diffN( L, after, false );
      if ( !d.empty() ) violate( "rebase-partial", "%s failed (%s) but changed the local schema: %s", rb.name.c_str(), dry.log.c_str(), d.c_str() );
      if ( tr == 2 ) return false;
      if ( tr == 1 ) { probe( "known.F23" ); return false; }
      violate( "rebase-failed", "%s failed without faults%s: %s", rb.name.c_str(), hist.c_str(), dry.log.c_str() );
    }
    std::string er = checkMerge( B, T, L, after );
    if ( !er.empty() ) { if ( tr == 1 ) { probe( "known.F23" ); return false; } violate( "merge", "%s%s: %s", rb.name.c_str(), hist.c_str(), er.c_str() ); }
    bool done = false;
    for ( int n = ch.chance( 60 ) ? ch.range( 1, 4 ) : 0; n > 0 && budget > 0 && !done; --n )
    {
      --budget;
      Fault f = pickFault( oc, FS_PG | FS_STREAM | FS_MEM | FS_BENIGN | FS_DEATH );
      if ( f.kind == F_POWER ) f.kind = F_KILL;
      if ( f.kind == F_NONE ) break;
      Outcome o = call( rb, { f } );
      std::string ctx = rb.name + " under " + faultStr( f );
      bool doubt = o.killed || f.kind == F_PG_LOST_AFTER || f.kind == F_PG_CRASH || f.kind == F_PG_NULL;
      DbState now = npg( k.local );
      std::string wo = diffN( L, now, false ), wn = diffN( after, now, false );
      if ( o.ok() && !wn.empty() ) violate( "rebase-incomplete", "%s reported success but the local schema is not completely rebased: %s", ctx.c_str(), wn.c_str() );
      if ( !wo.empty() && !wn.empty() ) violate( "rebase-partial", "%s left the local schema in between: vs before: %s; vs rebased: %s", ctx.c_str(), wo.c_str(), wn.c_str() );
      if ( !o.ok() && !doubt && !wo.empty() ) violate( "rebase-error-but-changed", "%s reported an error but the local schema is changed: %s", ctx.c_str(), o.log.c_str() );
      if ( !o.ok() && !o.killed && !o.faultFired ) violate( "rebase-failed", "%s failed without faults: %s", ctx.c_str(), o.log.c_str() );
      if ( wn.empty() && ( o.ok() || !wo.empty() ) ) done = true;
      probe( o.killed ? "rebase_crashes" : "rebase_faults" );
    }
    if ( !done ) mustOk( rb, "rebase-failed" );
    std::string d = diffN( after, npg( k.local ), false );
    if ( !d.empty() ) violate( "rebase-incomplete", "%s: result differs from an undisturbed run: %s", rb.name.c_str(), d.c_str() );
    if ( pgHash( k.base ) != hb || pgHash( ver[head] ) != ht || fsRead( b2t ) != bytes ) violate( "input-modified", "%s modified the base, the other side's schema or its changeset", rb.name.c_str() );
    copyPg( c, ver[head], k.base, sp );
    k.at = head;
    return true;
  };
  auto push = [&]( Cl &k ) -> bool
  {
    if ( !pull( k ) ) return false;
    std::string d = "/sim/w/push.diff";
    okPg( pgCreate( k.base, k.local, d ), "create-failed", budget > 0 ? 15 : 0 );
    if ( fsRead( d ).empty() ) return true;
    std::string nv = strf( "server v%zu", ver.size() );
    copyPg( c, ver.back(), nv, sp );
    applyPg( nv, d, npg( k.local ), "push-refused", "push", budget > 0 ? 15 : 0 );
    ver.push_back( nv );
    copyPg( c, nv, k.base, sp ); k.at = ( int )ver.size() - 1;
    g_stats.states.insert( npg( nv ).hash() );
    return true;
  };
  int steps = ch.range( 3, g_thorough ? 14 : 8 );
  for ( int i = 0; i < steps; ++i )
  {
    Cl &k = cl[ch.choose( cl.size() )];
    int what = ( int )ch.weighted( { 5, 2, 3 } );
    hist += strf( " %s%d", what == 0 ? "edit" : what == 1 ? "pull" : "push", ( int )( &k - &cl[0] ) );
    if ( what == 0 ) pgEdit( c, k.local, ch.range( 1, 5 ), e ); else if ( what == 1 ) { if ( !pull( k ) ) return; } else if ( !push( k ) ) return;
  }
  budget = 0;
  for ( auto &k : cl ) if ( !push( k ) ) return;
  for ( auto &k : cl ) if ( !pull( k ) ) return;
  sampleAdd( "postgres: %zu clients, %zu versions:%s", cl.size(), ver.size(), hist.c_str() );
  g_nontrivial = ver.size() > 1;
  DbState S = npg( ver.back() );
  for ( auto &k : cl ) { std::string d = diffN( S, npg( k.local ), false ); if ( !d.empty() ) violate( "not-converged", "after%s client %d differs from the server: %s", hist.c_str(), ( int )( &k - &cl[0] ), d.c_str() ); }
}

// ------------------------------------------------------------------ C09: damaged changesets for a PostgreSQL schema
std::string damage( std::string &b, const Changeset &whole );
void c09Pg()
{
  startPg();
  PgClient c;
  PGen g; g.citext = false; PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), t = schemaName( 2 ), d = "/sim/w/d.diff", x = "/sim/w/bad.diff";
  g_dirs.insert( "/sim/w" );
  createPg( c, b, sp );
  PEdit e; e.collisionIsViolation = false; pgEdit( c, b, ch.range( 1, 8 ), e );
  copyPg( c, b, m, sp ); pgEdit( c, m, ch.range( 1, 8 ), e );
  copyPg( c, b, t, sp );
  mustOk( pgCreate( b, m, d ), "create-failed" );
  std::string bytes = fsRead( d );
  Changeset whole = parseCs( bytes );
  g_nontrivial = !bytes.empty();
  sampleAdd( "diff of %zu bytes for postgres", bytes.size() );
  DbState before = npg( t );
  PgServer start = pgSnapshot();
  uint64_t hb = pgHash( b ), hm = pgHash( m );
  size_t ns = start.db.schemas.size();
  std::set<Row> known;
  for ( auto &n : whole.entries ) for ( auto *r : { &n.oldv, &n.newv } ) for ( auto &v : *r ) known.insert( { v } );
  for ( int i = g_thorough ? 12 : 6; i > 0; --i )
  {
    std::string bad = bytes, how = damage( bad, whole );
    while ( ch.chance( 15 ) ) how += ", " + damage( bad, whole );
    // values and names meant to be read as SQL
    if ( ch.chance( 15 ) && whole.ok && !whole.entries.empty() )
    {
      Changeset q = whole;
      static const char *H[] = { "'; DROP SCHEMA \"base\" CASCADE; --", "\\'; DELETE FROM x; --", "x\"; COMMIT; --", "$$", "E'\\''", "\\", "' OR '1'='1", "NULL", "'::text||'" };
      bool name = ch.chance( 20 );
      if ( name ) q.tables[ch.choose( q.tables.size() )].name = H[ch.choose( 9 )];
      else { CsEntry &n = q.entries[ch.choose( q.entries.size() )]; Row &r = n.newv.empty() || ( !n.oldv.empty() && ch.choose( 2 ) ) ? n.oldv : n.newv; for ( auto &v : r ) if ( v.t == 3 && ch.chance( 70 ) ) v.s = H[ch.choose( 9 )]; }
      bad = encodeCs( q ); how = name ? "SQL in a table name" : "SQL in a value";
    }
    Changeset cs = parseCs( bad, true );
    fsWrite( x, bad );
    ev( "note damage %s", how.c_str() );
    pgRestore( start );
    g_stats.states.insert( fnv( bad.data(), bad.size() ) );
    ApiCall ca = pgApply( t, x );
    std::vector<Fault> fl;
    if ( ch.chance( 15 ) ) { OpCounts oc = dryRun( ca ); Fault q = pickFault( oc, FS_PG | FS_STREAM | FS_MEM | FS_BENIGN ); if ( q.kind != F_NONE ) fl.push_back( q ); }
    Outcome o = call( ca, fl );
    std::string ctx = strf( "%s of a diff with %s%s", ca.name.c_str(), how.c_str(), fl.empty() ? "" : ( " under " + faultStr( fl[0] ) ).c_str() );
    if ( pgHash( b ) != hb || pgHash( m ) != hm || pgSnapshot().db.schemas.size() != ns ) violate( "input-modified", "%s: another schema was changed", ctx.c_str() );
    DbState now = npg( t );
    bool doubt = !fl.empty() && ( fl[0].kind == F_PG_LOST_AFTER || fl[0].kind == F_PG_CRASH || fl[0].kind == F_PG_NULL );
    if ( !o.ok() )
    {
      std::string er = diffN( before, now, false );
      if ( !er.empty() && !( doubt && o.faultFired ) ) violate( "failed-but-changed", "%s failed (%s) but the rows changed: %s", ctx.c_str(), o.log.c_str(), er.c_str() );
      probe( "pg_apply_refused" );
      continue;
    }
    probe( "pg_apply_accepted" );
    if ( !cs.ok ) violate( bytes.compare( 0, bad.size(), bad ) == 0 ? "cut-accepted" : "unreadable-accepted", "%s succeeded although %s", ctx.c_str(), cs.err.c_str() );
    // the effect is known when every value is one its column can hold as it is
    bool typed = true;
    for ( auto &n : cs.entries )
    {
      auto tt = before.tables.find( cs.tableOf( n ) );
      if ( tt == before.tables.end() ) continue;
      const PgTable &pt = g_pg.db.schemas[t].tables[tt->first];
      auto lc = liveCols( pt );
      for ( auto *r : { &n.oldv, &n.newv } ) for ( size_t k = 0; k < r->size() && k < lc.size(); ++k )
      {
        const Val &v = ( *r )[k]; const std::string &ty = pt.cols[lc[k]].type;
        if ( v.t == 0 || v.t == 5 ) continue;
        bool fits = ty == "integer" ? v.t == 1 && v.i == ( int32_t )v.i : ty == "boolean" ? v.t == 1 && ( v.i == 0 || v.i == 1 ) : ty == "double precision" ? v.t == 2 && v.d == v.d : ty == "text" ? v.t == 3 : known.count( { v } ) && ( ty == "real" ? v.t == 2 && realText( v.d ) : ty.compare( 0, 8, "geometry" ) == 0 ? v.t == 4 : v.t == 3 );
        if ( !fits ) typed = false;
      }
    }
    if ( !typed ) { probe( "pg_apply_accepted_untyped" ); continue; }
    RefApply ra = refApply( before, ncs( cs ), DbSpec() );
    if ( !ra.ok ) violate( "accepted-mismatch", "%s succeeded although the readable changes do not all apply: %s", ctx.c_str(), ra.why.c_str() );
    std::string er = diffN( ra.state, now, false );
    if ( !er.empty() ) violate( "wrong-effect", "%s succeeded with another effect than the %zu readable changes: %s", ctx.c_str(), cs.entries.size(), er.c_str() );
  }
}

// ------------------------------------------------------------------ C16
void scenC16()
{
  startPg();
  PgClient c;
  PGen g; PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), t = schemaName( 2 );
  g_dirs.insert( "/sim/w" );
  createPg( c, b, sp );
  PEdit e; pgEdit( c, b, ch.range( 0, 8 ), e );
  copyPg( c, b, m, sp );
  pgEdit( c, m, ch.range( 1, 9 ), e );
  std::string d = "/sim/w/d.diff";
  mustOk( pgCreate( b, m, d ), "create-failed" );
  Changeset cs = parseCs( fsRead( d ) );
  if ( cs.entries.size() > 1 && ch.chance( 30 ) )
  {
    // the same changes in another order
    Changeset o = cs; o.entries.clear();
    std::vector<CsEntry> pool = cs.entries; while ( !pool.empty() ) { size_t k = ch.choose( pool.size() ); o.entries.push_back( pool[k] ); pool.erase( pool.begin() + k ); }
    // inserts, deletes and updates have distinct keys, so the order does not matter
    fsWrite( d, encodeCs( o ) ); cs = parseCs( fsRead( d ) );
    if ( !cs.ok ) herr( "reordered changeset: %s", cs.err.c_str() );
  }
  copyPg( c, b, t, sp );
  int kind = ( int )ch.weighted( { 6, 3, 1 } );
  PEdit q; q.collisionIsViolation = false;
  if ( kind == 1 ) pgEdit( c, t, ch.range( 1, 4 ), q );
  if ( kind == 2 && !cs.entries.empty() ) { std::string x = fsRead( d ); fsWrite( d, x.substr( 0, 1 + ch.choose( x.size() - 1 ) ) ); }        // cut file
  PgServer start = pgSnapshot();
  DbState before = pgRead( t );
  g_nontrivial = !cs.entries.empty();
  g_stats.states.insert( before.hash() );
  sampleAdd( "apply %zu changes to %zu tables%s", cs.entries.size(), sp.size(), kind == 1 ? ", target edited" : kind == 2 ? ", file cut" : "" );
  ApiCall ap = pgApply( t, d );
  DbState after; Outcome quiet = call( ap );
  after = pgRead( t );
  PgServer done = pgSnapshot();
  if ( kind == 0 && !quiet.ok() ) violate( "apply-failed", "applying to the matching schema failed (rc %d): %s", quiet.rc, quiet.log.c_str() );
  if ( !quiet.ok() && before.hash() != after.hash() ) violate( "partial", "apply was refused (rc %d) and the rows changed: %s", quiet.rc, diffData( before, after, false ).c_str() );
  auto ids = [&]( const char *when )
  {
    PgServer s = pgSnapshot();
    for ( auto &x : s.db.schemas[t].tables )
      if ( !serialOf( x.second ).empty() ) for ( int i = ch.range( 1, 3 ); i > 0; --i ) insertDefault( c, t, x.first, e, when );
  };
  if ( quiet.ok() ) ids( "after applying" );
  OpCounts oc; memcpy( oc.n, quiet.proc->ops, sizeof oc.n );
  int tries = g_thorough ? 24 : 8;
  for ( int i = 0; i < tries; ++i )
  {
    pgRestore( start );
    Fault f = pickFault( oc, ch.chance( 80 ) ? FS_PG : FS_DEATH | FS_STREAM | FS_MEM | FS_BENIGN );
    if ( f.kind == F_NONE ) break;
    if ( f.kind == F_POWER ) f.kind = F_KILL;
    std::vector<Fault> fl = { f };
    if ( ch.chance( 15 ) ) { Fault f2 = pickFault( oc, FS_PG ); if ( f2.kind != F_NONE ) fl.push_back( f2 ); }
    Outcome o = call( ap, fl );
    DbState now = pgRead( t );
    std::string ctx = ap.name + " under " + faultStr( f ) + ( fl.size() > 1 ? " and " + faultStr( fl[1] ) : "" );
    g_stats.states.insert( now.hash() );
    // what the client could not see: the connection went away while the commit was on its way
    bool doubt = o.killed || f.kind == F_PG_LOST_AFTER || f.kind == F_PG_CRASH || f.kind == F_PG_NULL || fl.size() > 1;
    if ( o.ok() )
    {
      probe( "ok_under_fault" );
      if ( !quiet.ok() ) violate( "false-success", "%s reported success, without the fault it is refused: %s", ctx.c_str(), quiet.log.c_str() );
      if ( now.hash() != after.hash() ) violate( "partial", "%s reported success and the rows are not the new ones: %s", ctx.c_str(), diffData( after, now, false ).c_str() );
      ids( "after applying under a fault" );
    }
    else
    {
      if ( quiet.ok() && !o.faultFired && !o.killed ) violate( "apply-failed", "%s failed although the fault did not happen (rc %d): %s", ctx.c_str(), o.rc, o.log.c_str() );
      probe( o.killed ? "restarts" : "failed_under_fault" );
      bool same = now.hash() == before.hash(), full = quiet.ok() && now.hash() == after.hash();
      if ( !same && !( full && doubt ) ) violate( "partial", "%s did not report success (rc %d) and the rows changed: %s", ctx.c_str(), o.rc, diffData( before, now, false ).c_str() );
      // nothing of the failed call is left in the way: others can write, and trying again works
      PgServer s = pgSnapshot();
      for ( auto &x : s.db.schemas[t].tables )
      {
        PgAnswer a = c.tryExec( "DELETE FROM " + pq( t ) + "." + pq( x.first ) );
        if ( !a.ok ) violate( "locked", "%s: rows of %s are still locked afterwards: %s", ctx.c_str(), x.first.c_str(), a.err.c_str() );
        break;
      }
      if ( same && ch.chance( 40 ) )
      {
        uint64_t h = before.hash();
        pgRestore( start );
        // the sequences are where the failed call left them
        Outcome o2 = call( ap, fl );
        if ( !o2.ok() && pgRead( t ).hash() == h )
        {
          Outcome r = call( ap );
          if ( r.ok() != quiet.ok() ) violate( "retry", "%s, then tried again: rc %d instead of %d: %s", ctx.c_str(), r.rc, quiet.rc, r.log.c_str() );
          if ( r.ok() ) { if ( pgRead( t ).hash() != after.hash() ) violate( "partial", "%s, then tried again with success: the rows are not the new ones", ctx.c_str() ); ids( "after trying again" ); }
          probe( "retries" );
        }
      }
    }
  }
}

// ------------------------------------------------------------------ C12
namespace {
struct Hist { uint64_t from, to; DbState b, m; };
}
static void c12PgDiff()
{
  PgClient setup;
  PGen g; g.citext = false; PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 );
  g_dirs.insert( "/sim/w" );
  createPg( setup, b, sp );
  PEdit e; e.collisionIsViolation = false; pgEdit( setup, b, ch.range( 1, 8 ), e );
  copyPg( setup, b, m, sp );
  pgEdit( setup, m, ch.range( 0, 4 ), e );
  std::vector<Hist> h;
  h.push_back( { 0, 0, npg( b ), npg( m ) } );
  bool dump = ch.chance( 30 );
  std::string d = "/sim/w/d.diff";
  ApiCall ca = dump ? cDumpEx( "postgres", INFO, m, d ) : pgCreate( b, m, d );
  OpCounts oc = dryRun( ca );
  uint64_t t0 = 0, t1 = 0;
  Proc *p = newProc( ca.name );
  if ( ch.chance( 12 ) ) { Fault f = pickFault( oc, FS_PG | FS_STREAM | FS_MEM | FS_BENIGN ); if ( f.kind != F_NONE ) p->faults.push_back( f ); }
  auto writer = [&]( int which )
  {
    return [&, which]() -> int
    {
      HarnessScope hs;
      PgClient c;
      int n = ch.range( 1, 4 );
      for ( int i = 0; i < n; ++i )
      {
        yieldNow();
        c.exec( "BEGIN" );
        int k = ch.range( 1, 3 );
        for ( int j = 0; j < k; ++j ) { pgEdit( c, which == 2 ? ( ch.choose( 2 ) ? b : m ) : which ? m : b, ch.range( 1, 2 ), e ); if ( ch.chance( 50 ) ) yieldNow(); }
        uint64_t f = g_events;
        ev( "commit" );
        PgAnswer a = c.tryExec( "COMMIT" );
        if ( a.ok && a.tag == "COMMIT" ) { h.push_back( { f, g_events, npg( b ), npg( m ) } ); probe( "writer_commits" ); }
      }
      return 0;
    };
  };
  std::vector<std::pair<Proc *, std::function<int()>>> fns;
  fns.push_back( { p, [&]() { t0 = g_events; int r = ca.fn(); t1 = g_events; return r; } } );
  fns.push_back( { newProc( "writer" ), writer( 1 ) } );
  if ( ch.chance( 50 ) ) fns.push_back( { newProc( "writer 2" ), writer( 2 ) } );
  uint64_t ops = 0; for ( uint64_t n : oc.n ) ops += n;
  int budget = ch.range( 2, 16 );
  g_lastLog.clear();
  auto res = runConcurrent( fns, budget, ( int )std::max<uint64_t>( 2, ops * 3 / budget ) );
  if ( res[0].exc ) violate( "exception-escaped", "%s: %s", ca.name.c_str(), res[0].excText.c_str() );
  for ( auto &x : h ) g_stats.states.insert( x.m.hash() );
  std::vector<size_t> win;
  for ( size_t j = 0; j < h.size(); ++j ) { if ( h[j].from > t1 ) continue; if ( j + 1 < h.size() && h[j + 1].to < t0 ) continue; win.push_back( j ); }
  sampleAdd( "%s, %zu commits, %zu of them in the window, rc %d", ca.name.c_str(), h.size() - 1, win.size() - 1, res[0].done ? res[0].rc : -99 );
  g_nontrivial = win.size() > 1;
  if ( win.size() > 1 ) probe( "commits_inside_a_call" );
  if ( !res[0].done || res[0].rc != 0 )
  {
    if ( !res[0].faultFired ) violate( "create-failed", "%s failed without a fault next to writers (rc %d): %s", ca.name.c_str(), res[0].rc, g_lastLog.c_str() );
    return;
  }
  probe( g_nontrivial ? "diff_ok_with_commits_inside" : "diff_ok" );
  Changeset cs = parseCs( fsRead( d ) );
  std::string er; if ( !cs.ok ) violate( "format", "%s: %s", ca.name.c_str(), cs.err.c_str() );
  ChangeMap got = nmap( cs, er );
  if ( !er.empty() ) violate( "mixed-states", "%s: %s", ca.name.c_str(), er.c_str() );
  for ( size_t j : win ) if ( diffMaps( refDiff( dump ? emptied( h[j].m ) : h[j].b, h[j].m ), got ).empty() ) return;
  er = diffMaps( refDiff( dump ? emptied( h[win[0]].m ) : h[win[0]].b, h[win[0]].m ), got );
  violate( "mixed-states", "%s: the result describes none of the %zu states the server had during the call; against the first: %s", ca.name.c_str(), win.size(), er.c_str() );
}
static void c12PgApply()
{
  PgClient setup;
  PGen g; g.citext = false; PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), t = schemaName( 2 );
  g_dirs.insert( "/sim/w" );
  createPg( setup, b, sp );
  PEdit e; e.collisionIsViolation = false; pgEdit( setup, b, ch.range( 1, 8 ), e );
  copyPg( setup, b, m, sp ); copyPg( setup, b, t, sp );
  pgEdit( setup, m, ch.range( 1, 8 ), e );
  std::string d = "/sim/w/d.diff";
  mustOk( pgCreate( b, m, d ), "create-failed" );
  setup.exec( "CREATE TABLE " + pq( t ) + ".app_log (n integer PRIMARY KEY)" );
  DbState before = npg( t ), after = npg( m );
  for ( auto &x : after.tables ) if ( !x.second.hasPk() ) x.second = before.tables[x.first];
  auto data = []( DbState s ) { s.tables.erase( "app_log" ); return s.hash(); };
  uint64_t hb = data( before ), ha = data( after );
  ApiCall ca = pgApply( t, d );
  OpCounts oc = dryRun( ca );
  int kind = ( int )ch.weighted( { 4, 4, 3 } );          // readers only, a second applier, a writer of the same rows
  Proc *p = newProc( ca.name );
  bool faulty = ch.chance( 25 );
  if ( faulty ) { Fault f = pickFault( oc, FS_PG | FS_STREAM | FS_MEM | FS_DEATH ); if ( f.kind == F_POWER ) f.kind = F_KILL; if ( f.kind == F_NONE ) faulty = false; else p->faults.push_back( f ); }
  int torn = 0, reads = 0, logged = 0, back = 0; bool sawNew = false;
  std::vector<uint64_t> okStates = { hb, ha };
  auto reader = [&]() -> int
  {
    HarnessScope hs;
    PgClient c;
    int n = ch.range( 2, 6 );
    for ( int i = 0; i < n; ++i )
    {
      yieldNow();
      // what is committed now is what a new transaction sees
      uint64_t h = data( npg( t ) );
      ++reads;
      if ( h != hb && h != ha ) ++torn;
      if ( h == ha && ha != hb ) sawNew = true;
      if ( h == hb && sawNew && ha != hb ) ++back;
      if ( ch.chance( 30 ) ) { PgAnswer a = c.tryExec( "INSERT INTO " + pq( t ) + strf( ".app_log VALUES (%d)", i ) ); if ( a.ok ) ++logged; }
    }
    return 0;
  };
  std::vector<std::pair<Proc *, std::function<int()>>> fns;
  fns.push_back( { p, ca.fn } );
  ApiCall second = pgApply( t, d );
  std::vector<DbState> mine;      // states right before and after the other application's commits
  bool disturbed = false;
  if ( kind != 2 ) fns.push_back( { newProc( "reader" ), reader } );
  if ( kind == 1 ) fns.push_back( { newProc( "second applier" ), second.fn } );
  DbState lastBefore, lastAfter; int commits = 0;
  if ( kind == 2 ) fns.push_back( { newProc( "writer" ), [&]() -> int
  {
    HarnessScope hs;
    PgClient c;
    c.exec( "BEGIN" );
    int k = ch.range( 1, 3 );
    for ( int j = 0; j < k; ++j ) { pgEdit( c, t, 1, e ); yieldNow(); }
    lastBefore = npg( t );
    PgAnswer a = c.tryExec( "COMMIT" );
    if ( a.ok && a.tag == "COMMIT" ) { lastAfter = npg( t ); ++commits; if ( lastBefore.hash() != lastAfter.hash() ) disturbed = true; }
    return 0;
  } } );
  uint64_t ops = 0; for ( uint64_t n : oc.n ) ops += n;
  int budget = ch.range( 2, 16 );
  g_lastLog.clear();
  auto res = runConcurrent( fns, budget, ( int )std::max<uint64_t>( 2, ops * 3 / budget ) );
  if ( res[0].exc ) violate( "exception-escaped", "%s: %s", ca.name.c_str(), res[0].excText.c_str() );
  bool ok1 = res[0].done && res[0].rc == 0, ok2 = kind == 1 && res[2].done && res[2].rc == 0;
  sampleAdd( "%s next to %s, %d reads, rc %d", ca.name.c_str(), kind == 0 ? "readers" : kind == 1 ? "another applier" : "a writer of the same rows", reads, res[0].done ? res[0].rc : -99 );
  probe( "isolated_reads", reads );
  g_nontrivial = hb != ha;
  DbState fin = npg( t );
  g_stats.states.insert( fin.hash() );
  if ( torn ) violate( "torn-read", "%s: another session saw a state that is neither the one before nor the one after", ca.name.c_str() );
  if ( back ) violate( "torn-read", "%s: another session saw the new state and then the old one again", ca.name.c_str() );
  if ( kind == 2 )
  {
    Changeset cs = parseCs( fsRead( d ) );
    // in some order of the two transactions: the applier's on what was there, the writer's rows otherwise untouched
    if ( !disturbed )
    {
      if ( ok1 && data( fin ) != ha ) violate( "lost-apply", "reported success and the rows are not the new ones" );
      if ( !ok1 && !res[0].faultFired && !res[0].killed && g_lastLog.find( "deadlock" ) == std::string::npos && g_lastLog.find( "lock timeout" ) == std::string::npos ) violate( "apply-failed", "failed without a fault or a conflict (rc %d): %s", res[0].rc, g_lastLog.c_str() );
      return;
    }
    if ( !ok1 && !res[0].killed && !res[0].faultFired )
    {
      // the writer's change is all there is
      if ( fin.hash() != lastAfter.hash() ) violate( "partial", "apply did not succeed and the rows are not those the other application committed: %s", diffN( lastAfter, fin ).c_str() );
      probe( "pg.writer_won" );
    }
    if ( ok1 )
    {
      // the apply ran entirely before or after the writer's commit
      if ( data( lastBefore ) == ha ) { if ( fin.hash() != lastAfter.hash() ) violate( "lost-apply", "rows changed after the last commit" ); probe( "pg.apply_then_write" ); }
      else
      {
        RefApply ra = refApply( lastAfter, ncs( cs ), DbSpec() );
        if ( !ra.ok ) violate( "false-success", "apply reported success on top of rows that do not match: %s", ra.why.c_str() );
        std::string w = diffN( ra.state, fin );
        if ( !w.empty() ) violate( "lost-write", "apply after another application's commit: %s", w.c_str() );
        probe( "pg.write_then_apply" );
      }
    }
    return;
  }
  int okCount = ok1 + ok2;
  if ( okCount && data( fin ) != ha ) violate( "lost-apply", "%s reported success and the schema is not in the new state", ca.name.c_str() );
  if ( okCount > 1 && hb != ha ) violate( "applied-twice", "two processes both reported that the same changeset was applied" );
  if ( !okCount && data( fin ) != hb && !( ( res[0].killed || res[0].faultFired ) && data( fin ) == ha ) ) violate( "partial", "%s did not succeed and the rows changed", ca.name.c_str() );
  if ( kind == 1 && !okCount && !faulty && hb != ha ) violate( "apply-failed", "neither of two appliers succeeded: %s", g_lastLog.c_str() );
  int have = ( int )fin.tables["app_log"].rows.size();
  if ( have != logged ) violate( "lost-write", "another application committed %d rows meanwhile, %d are there", logged, have );
}
void c12Pg() { startPg(); if ( ch.chance( 55 ) ) c12PgDiff(); else c12PgApply(); }

// ------------------------------------------------------------------ C17
// what is declared of the columns: table.column -> NOT NULL; type, dimensions and CRS of geometries as a GIS is told them
std::map<std::string, std::string> geomMeta( const std::string &schema )
{
  std::map<std::string, std::string> o;
  for ( auto &k : g_pg.db.schemas[schema].tables ) for ( auto &c : k.second.cols )
    {
      if ( c.dropped ) continue;
      std::string &x = o[k.first + "." + c.name];
      if ( !c.geomType.empty() ) x = strf( "%s in CRS %d", c.geomType.c_str(), c.srid );
      if ( c.notnull || c.pk ) x += " NOT NULL";
    }
  return o;
}
std::map<std::string, std::string> geomMetaFile( const std::string &file )
{
  std::map<std::string, std::string> o;
  DbState s = readDb( file );
  if ( !s.ok ) return o;
  auto rest = [&]()
  {
    for ( auto &t : s.tables )
      if ( t.first.compare( 0, 5, "gpkg_" ) )
        for ( size_t i = 0; i < t.second.cols.size(); ++i ) { std::string &x = o[t.first + "." + t.second.cols[i]]; if ( t.second.nn[i] || t.second.pk[i] ) x += " NOT NULL"; }
    return o;
  };
  if ( !s.tables.count( "gpkg_geometry_columns" ) ) return rest();
  std::map<std::string, std::string> kinds; std::set<int64_t> srs;
  for ( auto &r : s.tables["gpkg_contents"].rows ) kinds[r.second[0].s] = r.second[1].s;
  for ( auto &r : s.tables["gpkg_spatial_ref_sys"].rows ) if ( r.second[1].t == 1 ) srs.insert( r.second[1].i );
  for ( auto &r : s.tables["gpkg_geometry_columns"].rows )
  {
    const Row &v = r.second;
    std::string x = strf( "%s%s%s in CRS %lld", v[2].s.c_str(), v[4].i ? "Z" : "", v[5].i ? "M" : "", ( long long ) v[3].i );
    auto k = kinds.find( v[0].s );
    if ( k == kinds.end() ) x += ", not in the contents table"; else if ( k->second != "features" ) x += ", contents say " + k->second;
    if ( !srs.count( v[3].i ) ) x += ", CRS not defined";
    o[v[0].s + "." + v[1].s] = x;
  }
  return rest();
}
std::string diffMeta( const std::map<std::string, std::string> &want, const std::map<std::string, std::string> &got )
{
  for ( auto &x : want ) { auto g = got.find( x.first ); if ( g == got.end() || g->second != x.second ) return strf( "column %s is declared '%s' in the source and '%s' in the copy", x.first.c_str(), x.second.c_str(), g == got.end() ? "(missing)" : g->second.c_str() ); }
  for ( auto &x : got ) if ( !want.count( x.first ) ) return "the copy has a column " + x.first + " the source does not have";
  return "";
}

void c17Copy()
{
  startPg();
  PgClient c;
  World w; w.dir = "/sim/w/"; g_dirs.insert( "/sim/w" );
  w.g.pgSafe = true; w.g.bigKeys = false; w.g.unique = false; w.g.collate = false; w.g.noPkTables = ch.chance( 15 ); w.g.wide = false; w.g.nulText = false; w.g.gpkgPct = 85;
  w.g.envelopes = ch.chance( 20 );
  int kind = ( int )ch.weighted( { 4, 3, 3, 2, 3 } );      // gpkg to pg, pg to gpkg, pg to pg, dump of pg, gpkg to gpkg
  std::string b = schemaName( 0 ), t = schemaName( 2 ), gp = w.path( "src.gpkg" ), dst = w.path( "dst.gpkg" ), dump = w.path( "dump.diff" );
  PGen g; g.spatialOnly = kind == 1 && ch.chance( 85 ); g.noPk = ch.chance( 20 );
  PEdit e;
  DbState src; bool keyed = true; bool unsupported = false;
  if ( kind == 0 || kind == 4 )
  {
    if ( kind == 4 ) { bool n = w.g.noPkTables; w.g = GenCfg(); w.g.noPkTables = n; w.g.wide = false; w.g.gpkgPct = 90; w.g.maxTables = 2; }
    else if ( ch.chance( 25 ) )
    {
      // contents PostgreSQL has no room for
      w.g.bigKeys = ch.chance( 50 ); w.g.nulText = true;
      unsupported = true;
    }
    w.sp = genSpec( w.g );
    createDb( gp, w.sp ); fillDb( gp, w.sp, w.g, ch.range( 0, 8 ) );
    if ( ch.chance( 40 ) ) appEdit( gp, w.sp, w.g, ec( ch.range( 1, 6 ) ) );
    fsSyncAll();
    src = ngp( gp );
  }
  else
  {
    PSpec sp = genPg( g );
    createPg( c, b, sp ); pgEdit( c, b, ch.range( 0, 12 ), e );
    src = npg( b );
  }
  std::map<std::string, std::string> srcMeta = kind == 0 || kind == 4 ? geomMetaFile( gp ) : geomMeta( b );
  size_t n = 0; for ( auto &x : src.tables ) { n += x.second.rows.size(); if ( !x.second.hasPk() ) keyed = false; }
  g_nontrivial = n > 0;
  g_stats.states.insert( src.hash() );
  ApiCall ca = kind == 0 ? cCopy( "sqlite", "", gp, "postgres", INFO, t ) : kind == 1 ? cCopy( "postgres", INFO, b, "sqlite", "", dst ) : kind == 2 ? cCopy( "postgres", INFO, b, "postgres", INFO, t ) : kind == 3 ? cDumpEx( "postgres", INFO, b, dump ) : cCopy( "sqlite", "", gp, "sqlite", "", dst );
  sampleAdd( "%s of %zu tables, %zu rows%s%s", ca.name.c_str(), src.tables.size(), n, unsupported ? ", unsupported contents" : "", keyed ? "" : ", a table without key" );
  // something is already there
  int stale = ( int )ch.choose( 3 );
  auto prepare = [&]()
  {
    if ( kind == 0 || kind == 2 ) { if ( stale ) { PgClient x; createPg( x, t, genPg( PGen() ) ); if ( stale == 2 ) pgEdit( x, t, 4, e ); } }
    else if ( kind == 1 || kind == 4 ) { fsRemoveDb( dst ); if ( stale == 1 ) { createDb( dst, genSpec( GenCfg() ) ); } else if ( stale == 2 ) fsWrite( dst, std::string( ch.range( 1, 5000 ), 'T' ) ); }
    else if ( stale ) fsWrite( dump, std::string( ch.range( 1, 5000 ), 'T' ) );
  };
  auto check = [&]( const std::string &ctx )
  {
    std::string er;
    if ( kind == 3 )
    {
      Changeset cs = parseCs( fsRead( dump ) );
      er = strictCs( cs, false );
      if ( !er.empty() ) violate( "format", "%s: %s", ctx.c_str(), er.c_str() );
      ChangeMap got = nmap( cs, er );
      if ( er.empty() ) er = diffMaps( refDiff( emptied( src ), src ), got );
      if ( !er.empty() ) violate( "dump-content", "%s: %s", ctx.c_str(), er.c_str() );
      return;
    }
    er = diffN( src, kind == 1 || kind == 4 ? ngp( dst ) : npg( t ), false );
    if ( !er.empty() ) violate( "copy-not-equal", "%s: %s", ctx.c_str(), er.c_str() );
    er = diffMeta( srcMeta, kind == 1 || kind == 4 ? geomMetaFile( dst ) : geomMeta( t ) );
    if ( !er.empty() ) violate( "copy-metadata", "%s: %s", ctx.c_str(), er.c_str() );
  };
  prepare();
  Outcome quiet; PgServer s0 = pgSnapshot(); FsImage f0 = fsSnapshot();
  quiet = call( ca );
  OpCounts oc; memcpy( oc.n, quiet.proc->ops, sizeof oc.n );
  if ( quiet.ok() ) { check( ca.name ); probe( "copies" ); }
  else
  {
    bool mayFail = unsupported || ( kind < 3 && !keyed ) || ( kind == 1 && !g.spatialOnly ) || kind == 4;
    if ( !mayFail ) violate( "copy-failed", "%s failed without any fault (rc %d): %s", ca.name.c_str(), quiet.rc, quiet.log.c_str() );
    probe( "copy_refused" );
  }
  int tries = g_thorough ? 8 : 4;
  for ( int i = 0; i < tries; ++i )
  {
    fsRestore( f0 ); pgRestore( s0 );
    Fault f = pickFault( oc, FS_ERR | FS_BENIGN );
    if ( f.kind == F_NONE ) break;
    Outcome o = call( ca, { f } );
    if ( !o.ok() )
    {
      if ( quiet.ok() && !o.faultFired ) violate( "copy-failed", "%s failed although the fault did not happen (rc %d): %s", ca.name.c_str(), o.rc, o.log.c_str() );
      probe( "failed_under_fault" );
      continue;
    }
    if ( o.faultFired ) probe( "ok_under_fault" );
    check( ca.name + " under " + faultStr( f ) );
  }
}

// ------------------------------------------------------------------ C08, C14
// everything about a schema: columns, indexes, rows, sequences
static std::string allOf( const std::string &schema )
{
  HarnessScope hs;
  auto it = g_pg.db.schemas.find( schema );
  if ( it == g_pg.db.schemas.end() ) return "(none)";
  std::string s;
  for ( auto &t : it->second.tables )
  {
    s += "table " + t.first + strf( " %d:", t.second.oid );
    for ( auto &c : t.second.cols ) s += strf( " %s %s %d%d %d %s %s %d %s,", c.name.c_str(), c.type.c_str(), c.notnull, c.dropped, c.pk, c.seq.c_str(), c.geomType.c_str(), c.srid, c.def.c_str() );
    for ( auto &x : t.second.indexes ) { s += " index " + x.name + ( x.unique ? " unique" : "" ); for ( int i : x.cols ) s += strf( " %d", i ); }
    s += "\n";
    for ( auto &r : t.second.rows ) { s += strf( "%llu(", ( unsigned long long )r.first ); for ( auto &v : r.second ) s += std::string( 1, v.k ) + pgOut( v ) + "|"; s += ")\n"; }
  }
  for ( auto &q : it->second.seqs ) { auto v = g_pg.seqVals.find( q.second.id ); s += "sequence " + q.first + " of " + q.second.table + "." + q.second.col; if ( v != g_pg.seqVals.end() ) s += strf( " %lld %d", ( long long )v->second.last, v->second.called ); s += "\n"; }
  return s;
}
static std::string firstLine( const std::string &a, const std::string &b )
{
  size_t i = 0; while ( i < a.size() && i < b.size() && a[i] == b[i] ) ++i;
  size_t q = a.rfind( '\n', i ); q = q == std::string::npos ? 0 : q + 1;
  return "'" + a.substr( q, 160 ) + "' became '" + b.substr( q, 160 ) + "'";
}
struct PgJob { ApiCall c; std::vector<std::string> inSchemas, inFiles, inDbs, outFiles; std::string outSchema, outDb; bool mayFail = false; };
static PgJob mkPgJob( PgClient &c, PThree &x )
{
  PgJob j; std::string o = x.dir + "/o.diff", dst = x.dir + "/copy.gpkg", cp = x.pfx + "copied \"schema\"";
  j.inSchemas = { x.b };
  switch ( ch.weighted( { 4, 3, 2, 2, 4, 3, 2, 2, 2 } ) )
  {
    case 0: j.c = pgCreate( x.b, x.m, o ); j.inSchemas = { x.b, x.m }; j.outFiles = { o }; break;
    case 1: j.c = cDumpEx( "postgres", INFO, x.m, o ); j.inSchemas = { x.m }; j.outFiles = { o }; break;
    case 2: j.c = cRebasedDrv( "postgres", INFO, x.b, x.b2m, x.b2t, x.out, x.conf ); j.inFiles = { x.b2m, x.b2t }; j.outFiles = { x.out, x.conf }; j.mayFail = x.trouble; break;
    case 3: j.c = cRebaseDrv( "postgres", INFO, x.b, x.m, x.b2t, x.conf ); j.inFiles = { x.b2t }; j.outFiles = { x.conf }; j.outSchema = x.m; j.mayFail = x.trouble; break;
    case 4: { std::string t = x.pfx + "target"; copyPg( c, x.b, t, x.sp ); j.c = pgApply( t, x.b2m ); j.inFiles = { x.b2m }; j.outSchema = t; break; }
    case 5: j.c = cCopy( "postgres", INFO, x.m, "postgres", INFO, cp ); j.inSchemas = { x.m }; j.outSchema = cp; break;
    case 6: j.c = cCopy( "postgres", INFO, x.m, "sqlite", "", dst ); j.inSchemas = { x.m }; j.outDb = dst; j.mayFail = true; break;
    case 7: { std::string src = x.dir + "/src.gpkg"; if ( call( cCopy( "postgres", INFO, x.m, "sqlite", "", src ) ).rc == 0 ) { j.c = cCopy( "sqlite", "", src, "postgres", INFO, cp ); j.inSchemas = { x.m }; j.inDbs = { src }; j.outSchema = cp; j.mayFail = true; break; } }
    // fall through
    default: j.c = cCreateEx( "postgres", INFO, x.m, x.t, o ); j.inSchemas = { x.m, x.t }; j.outFiles = { o }; break;
  }
  if ( !j.outSchema.empty() && j.outSchema == cp && ch.chance( 30 ) ) { createPg( c, cp, genPg( PGen() ) ); pgEdit( c, cp, ch.range( 0, 4 ), x.e ); }
  fsSyncAll();
  for ( auto &f : j.outFiles ) if ( ch.chance( 25 ) ) fsWrite( f, std::string( ch.choose( 2 ) ? 20000 : 30, 's' ) );
  fsSyncAll();
  return j;
}
struct PgRes { std::map<std::string, std::string> files; std::string schema; DbState db; int rc = 0; bool ok = false; };
static PgRes readPg( const PgJob &j )
{
  HarnessScope hs;
  PgRes r;
  for ( auto &f : j.outFiles ) if ( fsExists( f ) ) r.files[f] = fsRead( f );
  if ( !j.outSchema.empty() && g_pg.db.schemas.count( j.outSchema ) ) r.schema = strf( "%zx", ( size_t )npg( j.outSchema ).hash() ) + ( g_pg.db.schemas[j.outSchema].tables.empty() ? "" : "." );
  if ( !j.outDb.empty() && fsExists( j.outDb ) ) { r.db = readDb( j.outDb ); r.db.tables.erase( "gpkg_contents" ); }
  return r;
}
static std::string cmpPg( const PgJob &j, PgRes good, PgRes r )
{
  HarnessScope hs;
  for ( auto &of : j.outFiles ) if ( r.files.count( of ) != good.files.count( of ) || r.files[of] != good.files[of] ) return strf( "%s has %zu bytes instead of %zu or differs", of.c_str(), r.files[of].size(), good.files[of].size() );
  if ( r.schema != good.schema ) return "the rows in schema " + j.outSchema + " are not what they should be";
  if ( !j.outDb.empty() ) { std::string w; if ( r.db.ok != good.db.ok || ( r.db.ok && !sameDb( good.db, r.db, w ) ) ) return j.outDb + " differs: " + w; }
  return "";
}
void c08Pg()
{
  startPg();
  PgClient c;
  PThree x = mkPThree( c );
  PgJob j = mkPgJob( c, x );
  PgServer pg = pgSnapshot(); FsImage img = fsSnapshot();
  Outcome dry = call( j.c );
  OpCounts oc; memcpy( oc.n, dry.proc->ops, sizeof oc.n );
  PgRes good = readPg( j );
  if ( !dry.ok() && !j.mayFail ) violate( "failed-without-fault", "%s failed without any fault (rc %d): %s", j.c.name.c_str(), dry.rc, dry.log.c_str() );
  sampleAdd( "postgres: %s:", j.c.name.c_str() );
  g_nontrivial = dry.ok();
  int n = g_thorough ? 24 : 12;
  for ( int k = 0; k < n; ++k )
  {
    if ( k && ch.chance( 3 ) ) break;
    fsRestore( img ); pgRestore( pg );
    Fault f = pickFault( oc, FS_ALL & ~FS_DEATH );
    if ( f.kind == F_NONE ) break;
    std::vector<Fault> fl = { f };
    if ( ch.chance( 15 ) ) { Fault f2 = pickFault( oc, FS_ALL & ~FS_DEATH ); if ( f2.kind != F_NONE ) fl.push_back( f2 ); }
    Outcome o = call( j.c, fl );
    std::string ctx = j.c.name + " under " + faultStr( f ) + ( fl.size() > 1 ? " and " + faultStr( fl[1] ) : "" );
    if ( k < 4 ) sampleAdd( "%s rc %d", faultStr( f ).c_str(), o.rc );
    if ( !o.ok() )
    {
      if ( dry.ok() && !o.faultFired && !o.killed ) violate( "failed-without-fault", "%s failed although no fault fired (rc %d): %s", ctx.c_str(), o.rc, o.log.c_str() );
      probe( "errors_reported" );
    }
    else
    {
      if ( !dry.ok() ) violate( "success-only-under-fault", "%s succeeded although it fails without faults", ctx.c_str() );
      std::string er = cmpPg( j, good, readPg( j ) );
      if ( !er.empty() ) violate( "incomplete-success", "%s reported success but %s", ctx.c_str(), er.c_str() );
      if ( o.faultFired ) probe( "ok_under_fault" );
    }
    g_stats.states.insert( mix64( f.kind * 1000003 + 99 ) ^ mix64( o.rc + 5 ) ^ mix64( f.at ) ^ std::hash<std::string>()( j.c.name ) );
  }
}
void c14Pg()
{
  startPg();
  PgClient c;
  PThree x = mkPThree( c );
  PgJob j = mkPgJob( c, x );
  bool damaged = ch.chance( 12 ) && !j.inFiles.empty();
  if ( damaged )
  {
    const std::string &f = j.inFiles[ch.choose( j.inFiles.size() )];
    std::string b = fsRead( f );
    if ( !b.empty() ) { if ( ch.choose( 2 ) ) b.resize( ch.choose( b.size() ) ); else b[ch.choose( b.size() )] ^= ( char )( 1 << ch.choose( 8 ) ); fsWrite( f, b ); }
    fsSyncAll();
  }
  std::map<std::string, std::string> schemas, files; std::map<std::string, DbState> dbs;
  for ( auto &s : g_pg.db.schemas ) schemas[s.first];
  for ( auto &s : schemas ) s.second = allOf( s.first );
  for ( auto &f : fsList( "/sim/w/" ) ) if ( !std::count( j.outFiles.begin(), j.outFiles.end(), f ) && !sidecar( f ) && f != j.outDb ) { if ( std::count( j.inDbs.begin(), j.inDbs.end(), f ) ) dbs[f] = readDb( f ); else files[f] = fsRead( f ); }
  std::set<std::string> before; for ( auto &f : fsList( "/sim/" ) ) before.insert( f );
  PgServer pg = pgSnapshot(); FsImage img = fsSnapshot();
  OpCounts oc = dryRun( j.c );
  sampleAdd( "postgres: %s%s:", j.c.name.c_str(), damaged ? " damaged input" : "" );
  g_nontrivial = true;
  int n = g_thorough ? 20 : 10;
  for ( int k = 0; k < n; ++k )
  {
    if ( k > 1 && ch.chance( 3 ) ) break;
    fsRestore( img ); pgRestore( pg );
    std::vector<Fault> fl;
    if ( k ) { Fault f = pickFault( oc, FS_ALL & ~FS_UNLINK ); if ( f.kind == F_POWER ) f.kind = F_KILL; if ( f.kind != F_NONE ) fl.push_back( f ); }
    Outcome o = call( j.c, fl );
    std::string ctx = j.c.name + ( fl.empty() ? "" : " under " + faultStr( fl[0] ) ) + ( damaged ? ", damaged input" : "" ) + strf( ", rc %d", o.done ? o.rc : -99 );
    if ( k < 4 && !fl.empty() ) sampleAdd( "%s", faultStr( fl[0] ).c_str() );
    for ( auto &s : schemas )
    {
      if ( s.first == j.outSchema ) continue;
      std::string now = allOf( s.first );
      if ( now != s.second ) violate( "input-modified", "%s: schema %s changed: %s", ctx.c_str(), s.first.c_str(), firstLine( s.second, now ).c_str() );
    }
    { HarnessScope hs; for ( auto &s : g_pg.db.schemas ) if ( !schemas.count( s.first ) && s.first != j.outSchema ) violate( "left-behind", "%s left schema %s behind", ctx.c_str(), s.first.c_str() ); }
    for ( auto &f : files ) if ( !fsExists( f.first ) || fsRead( f.first ) != f.second ) violate( "input-modified", "%s: file %s changed or is gone", ctx.c_str(), f.first.c_str() );
    for ( auto &d : dbs )
    {
      DbState now = readDb( d.first );
      std::string w = now.ok ? diffData( d.second, now ) : now.err;
      if ( !w.empty() ) violate( "input-modified", "%s: input database %s changed: %s", ctx.c_str(), d.first.c_str(), w.c_str() );
    }
    if ( o.killed ) { probe( "killed" ); continue; }
    for ( auto &f : fsList( "/sim/" ) )
    {
      if ( before.count( f ) || f == j.outDb || std::count( j.outFiles.begin(), j.outFiles.end(), f ) || f.compare( 0, 7, "/sim/o/" ) == 0 ) continue;
      if ( sidecar( f ) ) { std::string m = f.substr( 0, f.rfind( '-' ) ); if ( m == j.outDb || dbs.count( m ) ) continue; }
      violate( "left-behind", "%s left %s behind", ctx.c_str(), f.c_str() );
    }
    if ( openHandles( "/sim/" ) ) violate( "handles-left", "%s left %d files open", ctx.c_str(), openHandles( "/sim/" ) );
    if ( pgConnections( o.proc ) ) violate( "handles-left", "%s left %d connections open", ctx.c_str(), pgConnections( o.proc ) );
    g_stats.states.insert( mix64( ( fl.empty() ? 0 : fl[0].kind * 1000003 + fl[0].at ) + 77 ) ^ mix64( o.rc + 5 ) ^ std::hash<std::string>()( j.c.name ) );
  }
}

void c13Pg()
{
  startPg();
  PgClient c;
  int np = ch.range( 2, 3 );
  std::vector<PThree> xs; std::vector<PgJob> js; std::vector<PgRes> solo; uint64_t ops = 0;
  for ( int i = 0; i < np; ++i )
  {
    xs.push_back( mkPThree( c, ch.range( 0, 4 ), strf( "/sim/p%d", i ), strf( "p%d ", i ) ) );
    js.push_back( mkPgJob( c, xs.back() ) );
  }
  fsSyncAll();
  PgServer pg = pgSnapshot(); FsImage img = fsSnapshot();
  for ( auto &j : js )
  {
    fsRestore( img ); pgRestore( pg );
    Outcome o = call( j.c );
    for ( int k = 0; k < C_LCDEL; ++k ) ops += o.proc->ops[k];
    PgRes r = readPg( j ); r.rc = o.rc; r.ok = o.ok();
    if ( !r.ok && !j.mayFail ) violate( "failed-alone", "%s failed alone (rc %d): %s", j.c.name.c_str(), o.rc, o.log.c_str() );
    solo.push_back( r );
  }
  int rounds = g_thorough ? 6 : 3;
  for ( int k = 0; k < rounds; ++k )
  {
    fsRestore( img ); pgRestore( pg );
    std::vector<std::pair<Proc *, std::function<int()>>> fns;
    std::string names;
    int victim = ch.chance( 30 ) ? ( int )ch.choose( np ) : -1;
    for ( int i = 0; i < np; ++i )
    {
      Proc *p = newProc( js[i].c.name );
      if ( i == victim ) { Fault f; f.kind = F_KILL; f.at = 1 + ch.choose( ( uint32_t )std::max<uint64_t>( 1, ops / np ) ); p->faults = { f }; }
      fns.push_back( { p, js[i].c.fn } );
      names += ( i ? " | " : "" ) + js[i].c.name;
    }
    int budget = ch.range( 1, 40 );
    if ( !k ) sampleAdd( "postgres: %s, up to %d switches%s", names.c_str(), budget, victim >= 0 ? ", one killed" : "" );
    std::vector<CallResult> res = runConcurrent( fns, budget, ( int )std::max<uint64_t>( 2, ops * 2 / budget ) );
    g_nontrivial = true;
    for ( int i = 0; i < np; ++i )
    {
      if ( res[i].killed ) { probe( "killed" ); continue; }
      std::string ctx = strf( "%s running with %s%s", js[i].c.name.c_str(), names.c_str(), victim >= 0 ? strf( " (process %d killed)", victim ).c_str() : "" );
      if ( res[i].exc ) violate( "exception-escaped", "%s: %s", ctx.c_str(), res[i].excText.c_str() );
      if ( res[i].rc != solo[i].rc ) violate( "interference", "%s: return code %d, alone %d", ctx.c_str(), res[i].rc, solo[i].rc );
      std::string e = solo[i].ok ? cmpPg( js[i], solo[i], readPg( js[i] ) ) : "";
      if ( !e.empty() ) violate( "interference", "%s: %s", ctx.c_str(), e.c_str() );
    }
  }
}

// ------------------------------------------------------------------ C18
// a changeset meets a PostgreSQL schema whose tables have moved on
void c18PgLater()
{
  startPg();
  PgClient c;
  PGen g; PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), t = schemaName( 2 ), d = "/sim/w/d.diff";
  g_dirs.insert( "/sim/w" );
  PEdit e;
  createPg( c, b, sp ); pgEdit( c, b, ch.range( 0, 6 ), e );
  copyPg( c, b, m, sp ); pgEdit( c, m, ch.range( 1, 6 ), e );
  okPg( pgCreate( b, m, d ), "create-failed" );
  Changeset cs = parseCs( fsRead( d ) );
  std::vector<size_t> hit;
  for ( size_t i = 0; i < sp.size(); ++i ) for ( auto &x : cs.entries ) if ( cs.tableOf( x ) == sp[i].name ) { hit.push_back( i ); break; }
  if ( hit.empty() ) { sampleAdd( "postgres: nothing changed" ); return; }
  PSpec other = sp;
  size_t ti = hit[ch.choose( hit.size() )];
  PTab &x = other[ti];
  std::vector<int> plain, keys; for ( size_t i = 0; i < x.cols.size(); ++i ) { if ( x.cols[i].pk ) keys.push_back( ( int )i ); else plain.push_back( ( int )i ); }
  std::string what;
  PCol n; n.name = "added col"; n.kind = "itdT"[ch.choose( 4 )];
  switch ( ch.choose( 7 ) )
  {
    case 0: for ( int i = ch.range( 1, 3 ); i > 0; --i ) { x.cols.push_back( n ); n.name += "+"; } what = "columns added at the end of " + x.name; break;
    case 1: x.cols.insert( x.cols.begin() + ch.choose( x.cols.size() ), n ); what = "column added inside " + x.name; break;
    case 2: if ( !plain.empty() ) { x.cols.erase( x.cols.begin() + plain[ch.choose( plain.size() )] ); what = "column dropped from " + x.name; } break;
    case 3: other.erase( other.begin() + ti ); what = "table " + sp[ti].name + " dropped"; break;
    case 4: x.name = "late name"; what = "table " + sp[ti].name + " renamed"; break;
    case 5: for ( int i : plain ) if ( x.cols[i].kind == 'i' || x.cols[i].kind == 't' ) { x.cols[i].pk = ( int )keys.size() + 1; x.cols[i].notnull = true; what = "column " + x.cols[i].name + " of " + x.name + " became part of the key"; break; } break;
    case 6: if ( keys.size() > 1 ) { int k = keys[ch.choose( keys.size() )]; int pos = x.cols[k].pk; x.cols[k].pk = 0; for ( auto &y : x.cols ) if ( y.pk > pos ) --y.pk; what = "column " + x.cols[k].name + " of " + x.name + " left the key"; }
      else if ( ch.choose( 2 ) ) { x.cols[keys[0]].pk = 0; what = x.name + " lost its key"; } break;
  }
  if ( what.empty() ) return;
  for ( auto &y : other ) { y.dropped = -1; y.indexes.clear(); }
  createPg( c, t, other );
  if ( ch.chance( 70 ) )
    for ( auto &tt : g_pg.db.schemas[b].tables )
    {
      std::string dn = tt.first == sp[ti].name && g_pg.db.schemas[t].tables.count( "late name" ) ? "late name" : tt.first;
      if ( !g_pg.db.schemas[t].tables.count( dn ) ) continue;
      PgTable &dt = g_pg.db.schemas[t].tables[dn];
      bool bad = false;      // rows that would break the target's constraints stay out
      std::vector<PgRow> rows;
      for ( auto &r : tt.second.rows )
      {
        PgRow nr( dt.cols.size() );
        for ( size_t i = 0; i < dt.cols.size(); ++i )
        {
          for ( int j : liveCols( tt.second ) ) if ( tt.second.cols[j].name == dt.cols[i].name ) nr[i] = r.second[j];
          if ( dt.cols[i].notnull && nr[i].k == 'N' ) bad = true;
        }
        if ( !bad ) rows.push_back( nr );
      }
      if ( !bad ) for ( auto &r : rows ) dt.rows[g_pg.nextRow++] = r;
    }
  ++g_pg.db.version;
  g_nontrivial = true;
  sampleAdd( "postgres apply after: %s", what.c_str() );
  uint64_t ht = pgHash( t ), hb = pgHash( b ), hm = pgHash( m );
  std::string cb = fsRead( d );
  ApiCall ca = pgApply( t, d );
  OpCounts oc = dryRun( ca );
  for ( int i = ch.range( 1, 3 ); i > 0; --i )
  {
    std::vector<Fault> fl;
    if ( ch.chance( 30 ) ) { Fault f = pickFault( oc, FS_ERR | FS_BENIGN ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    Outcome o = call( ca, fl );
    if ( o.ok() ) violate( "not-refused", "applyChangesetEx(postgres) reported success although since the changeset was made: %s", what.c_str() );
    if ( pgHash( b ) != hb || pgHash( m ) != hm || pgHash( t ) != ht ) violate( "refused-with-effect", "applyChangesetEx(postgres) was refused and changed the data (%s)", what.c_str() );
    if ( fsRead( d ) != cb ) violate( "refused-with-effect", "applyChangesetEx(postgres) was refused and changed the changeset file" );
  }
}
void c18Pg()
{
  if ( ch.chance( 40 ) ) { c18PgLater(); return; }
  startPg();
  PgClient c;
  PGen g; PSpec sp = genPg( g ), other = sp;
  std::string b = schemaName( 0 ), m = schemaName( 1 ), d = "/sim/w/d.diff", conf = "/sim/w/c.json";
  g_dirs.insert( "/sim/w" );
  PEdit e;
  createPg( c, b, sp ); pgEdit( c, b, ch.range( 1, 6 ), e );
  PTab &t = other[ch.choose( other.size() )];
  std::vector<int> plain, geom, pks; for ( size_t i = 0; i < t.cols.size(); ++i ) { if ( t.cols[i].pk ) pks.push_back( ( int )i ); else if ( t.cols[i].kind == 'g' ) geom.push_back( ( int )i ); else plain.push_back( ( int )i ); }
  std::string what;
  auto pick = [&]() -> PCol & { return t.cols[plain[ch.choose( plain.size() )]]; };
  switch ( ch.choose( 10 ) )
  {
    case 0: { PCol k; k.name = "added col"; k.kind = 't'; t.cols.push_back( k ); what = "column added at the end"; break; }
    case 1: { PCol k; k.name = "added col"; k.kind = 'i'; t.cols.insert( t.cols.begin() + ch.choose( t.cols.size() ), k ); what = "column added inside"; break; }
    case 2: if ( !plain.empty() && t.cols.size() > 1 ) { t.cols.erase( t.cols.begin() + plain[ch.choose( plain.size() )] ); what = "column dropped"; } break;
    case 3: if ( !plain.empty() ) { pick().name += ch.choose( 2 ) ? "_2x" : " renamed"; what = "column renamed"; } break;
    case 4: if ( !plain.empty() ) { PCol &k = pick(); static const char K[] = "itdbT"; char n; do n = K[ch.choose( 5 )]; while ( n == k.kind ); k.kind = n; what = "column type changed"; } break;
    case 5: if ( !plain.empty() ) { PCol &k = pick(); k.notnull = !k.notnull; what = "not-null changed"; } break;
    case 6: if ( !geom.empty() ) { PCol &k = t.cols[geom[0]]; if ( ch.choose( 2 ) ) { k.srid = k.srid == 4326 ? 3857 : 4326; what = "CRS changed"; } else { k.geom = k.geom == "POINT" ? "LINESTRING" : "POINT"; what = "geometry type changed"; } } break;
    case 7: { PTab n; n.name = "zz extra"; PCol k; k.name = "id"; k.pk = 1; n.cols.push_back( k ); other.push_back( n ); what = "table added"; break; }
    case 8: if ( other.size() > 1 ) { other.erase( other.begin() + ( &t - &other[0] ) ); what = "table dropped"; } break;
    case 9: if ( !pks.empty() && !plain.empty() ) { int i = plain[ch.choose( plain.size() )]; if ( t.cols[i].kind == 'i' || t.cols[i].kind == 't' ) { t.cols[i].pk = ( int )pks.size() + 1; t.cols[i].notnull = true; what = "column became part of the key"; } } break;
  }
  if ( what.empty() ) return;
  for ( auto &x : other ) { x.dropped = -1; x.indexes.clear(); }
  createPg( c, m, other );
  if ( ch.chance( 70 ) ) { PEdit q; q.collisionIsViolation = false; pgEdit( c, m, ch.range( 0, 5 ), q ); }
  if ( ch.choose( 2 ) ) std::swap( b, m );
  g_nontrivial = true;
  sampleAdd( "postgres schemas: %s", what.c_str() );
  uint64_t hb = pgHash( b ), hm = pgHash( m );
  ApiCall ca = pgCreate( b, m, d );
  Outcome q; OpCounts oc = dryRun( ca, &q );
  for ( int i = ch.range( 1, 3 ); i > 0; --i )
  {
    std::vector<Fault> fl;
    if ( ch.chance( 30 ) ) { Fault f = pickFault( oc, FS_ERR | FS_BENIGN ); if ( f.kind != F_NONE ) fl.push_back( f ); }
    Outcome o = call( ca, fl );
    if ( o.ok() ) violate( "not-refused", "createChangesetEx(postgres) reported success although %s", what.c_str() );
    if ( pgHash( b ) != hb || pgHash( m ) != hm ) violate( "refused-with-effect", "createChangesetEx(postgres) was refused and changed the data" );
  }
}

// ------------------------------------------------------------------ C20
void c20Pg()
{
  startPg();
  PgClient c;
  PGen g; PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), t = schemaName( 2 ), d = "/sim/w/d.diff";
  g_dirs.insert( "/sim/w" );
  PEdit e; e.collisionIsViolation = false;
  createPg( c, b, sp ); pgEdit( c, b, ch.range( 0, 6 ), e );
  copyPg( c, b, m, sp ); pgEdit( c, m, ch.range( 1, 7 ), e );
  copyPg( c, b, t, sp ); if ( ch.chance( 60 ) ) pgEdit( c, t, ch.range( 1, 4 ), e );
  mustOk( pgCreate( b, m, d ), "create-failed" );
  ApiCall ca;
  switch ( ch.weighted( { 2, 5, 1, 1 } ) )
  {
    case 0: ca = pgCreate( b, ch.chance( 15 ) ? "no such schema" : m, "/sim/w/o.diff" ); break;
    case 1: ca = pgApply( ch.chance( 8 ) ? "no such schema" : t, d ); break;
    case 2: ca = cDumpEx( "postgres", ch.chance( 15 ) ? "" : INFO, m, "/sim/w/o.diff" ); break;
    default: ca = ch.choose( 2 ) ? cCopy( "postgres", INFO, m, "sqlite", "", "/sim/w/copy.gpkg" ) : cCopy( "postgres", INFO, m, "postgres", INFO, "copied" ); break;
  }
  fsSyncAll();
  OpCounts oc = dryRun( ca );
  PgServer pg = pgSnapshot(); FsImage img = fsSnapshot();
  logChecks( ca, false, oc, FS_ALL & ~FS_MEM & ~FS_DEATH, [&] { fsRestore( img ); pgRestore( pg ); }, [&]
  {
    std::string s;
    std::vector<std::string> names; for ( auto &x : g_pg.db.schemas ) names.push_back( x.first );
    for ( auto &n : names ) s += n + strf( "%zx", ( size_t )pgHash( n ) );
    s += fsExists( "/sim/w/o.diff" ) ? strf( "[%zx]", std::hash<std::string>()( fsRead( "/sim/w/o.diff" ) ) ) : "[-]";
    if ( fsExists( "/sim/w/copy.gpkg" ) ) { DbState x = readDb( "/sim/w/copy.gpkg" ); x.tables.erase( "gpkg_contents" ); s += x.ok ? strf( "%zx", ( size_t )x.hash() ) : "unreadable"; }
    return s;
  } );
}
void c22Pg()
{
  int lev = toolLevel();
  startPg();
  PgClient c;
  PGen g; PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), t = schemaName( 2 ), d = "/sim/w/d.diff", d2 = "/sim/w/d2.diff", o = "/sim/w/o.diff", conf = "/sim/w/conf.json";
  g_dirs.insert( "/sim/w" );
  PEdit e; e.collisionIsViolation = false;
  createPg( c, b, sp ); pgEdit( c, b, ch.range( 0, 6 ), e );
  copyPg( c, b, m, sp ); pgEdit( c, m, ch.range( 1, 7 ), e );
  copyPg( c, b, t, sp ); if ( ch.chance( 60 ) ) pgEdit( c, t, ch.range( 1, 4 ), e );
  mustOk( pgCreate( b, m, d ), "create-failed" );
  mustOk( pgCreate( b, t, d2 ), "create-failed" );
  std::string info = ch.chance( 10 ) ? "" : INFO;
  auto opt = [&]( const std::string &f ) { return ch.chance( 4 ) ? std::string( "no such schema" ) : f; };
  b = opt( b ); m = opt( m );
  std::vector<std::string> full; ApiCall ca;
  switch ( ch.choose( 5 ) )
  {
    case 0: full = { "createChangesetEx", "postgres", info, b, m, o }; ca = cCreateEx( "postgres", info, b, m, o ); break;
    case 1: full = { "applyChangesetEx", "postgres", info, t, d }; ca = cApplyEx( "postgres", info, t, d ); break;
    case 2: full = { "dumpData", "postgres", info, m, o }; ca = cDumpEx( "postgres", info, m, o ); break;
    case 3: full = { "rebaseEx", "postgres", info, b, m, d2, conf }; ca = cRebaseDrv( "postgres", info, b, m, d2, conf ); break;
    default:
    {
      int k = ( int )ch.choose( 4 );
      std::string src = "/sim/w/src.gpkg";
      if ( k == 3 && b != "no such schema" && call( cCopy( "postgres", INFO, schemaName( 0 ), "sqlite", "", src ) ).rc == 0 )
      {
        full = { "makeCopy", "sqlite", "", src, "postgres", info, "copied" }; ca = cCopy( "sqlite", "", src, "postgres", info, "copied" );
        break;
      }
      std::string dst = k ? "/sim/w/copy.gpkg" : "copied", dd = k ? "sqlite" : "postgres", di = k == 1 ? "" : INFO;
      full = { "makeCopy", "postgres", info, m, dd, di, dst }; ca = cCopy( "postgres", info, m, dd, di, dst );
    }
  }
  fsSyncAll();
  PgServer pg = pgSnapshot(); FsImage img = fsSnapshot();
  toolChecks( lev, full, ca, [&] { fsRestore( img ); pgRestore( pg ); }, [&]
  {
    std::string s;
    std::vector<std::string> names; for ( auto &x : g_pg.db.schemas ) names.push_back( x.first );
    for ( auto &n : names ) s += n + strf( "%zx", ( size_t )pgHash( n ) );
    for ( auto &f : { o, conf } ) s += fsExists( f ) ? strf( "[%zx]", std::hash<std::string>()( fsRead( f ) ) ) : "[-]";
    if ( fsExists( "/sim/w/copy.gpkg" ) ) { DbState x = readDb( "/sim/w/copy.gpkg" ); x.tables.erase( "gpkg_contents" ); s += x.ok ? strf( "%zx", ( size_t )x.hash() ) : "unreadable"; }
    return s;
  } );
}
} // namespace sim
namespace sim {
// C23 on PostgreSQL: schemas, connection strings and drivers that cannot work
void c23Pg()
{
  startPg();
  PgClient c;
  PGen g; PSpec sp = genPg( g );
  std::string b = schemaName( 0 ), m = schemaName( 1 ), dir = "/sim/w/", d = dir + "d.diff", o = dir + "o.diff", conf = dir + "conf.json", lite = dir + "lite.gpkg";
  g_dirs.insert( "/sim/w" );
  PEdit e; e.collisionIsViolation = false;
  createPg( c, b, sp ); pgEdit( c, b, ch.range( 0, 6 ), e );
  copyPg( c, b, m, sp ); pgEdit( c, m, ch.range( 1, 7 ), e );
  mustOk( pgCreate( b, m, d ), "create-failed" );
  if ( parseCs( fsRead( d ) ).entries.empty() ) return;
  fsWrite( o, "old" );
  { Db x( lite, true ); x.exec( "CREATE TABLE t(id INTEGER PRIMARY KEY NOT NULL, x TEXT); INSERT INTO t VALUES (1,'a')" ); x.close(); }
  fsSyncAll();
  PgServer pg = pgSnapshot(); FsImage img = fsSnapshot();
  auto state = [&]( const std::string &but )
  {
    std::string s; std::vector<std::string> names; for ( auto &x : g_pg.db.schemas ) names.push_back( x.first );
    for ( auto &n : names ) s += n + strf( "=%zx;", ( size_t )pgHash( n ) );
    for ( auto &f : fsList( "/sim/" ) ) if ( !sidecar( f ) && f != but ) s += f + strf( "=%zx;", f == lite ? ( size_t )readDb( f ).hash() : std::hash<std::string>()( fsRead( f ) ) );
    return s;
  };
  static const char *NOCONN[] = { "", "host=nowhere", "dbname" };
  g_nontrivial = true;
  for ( int k = g_thorough ? 6 : 4; k > 0; --k )
  {
    std::string drv = "postgres", info = INFO, B = b, M = m, F = d;
    int bad = ( int )ch.choose( 4 );
    std::string why;
    static const char *NS[] = { "no such schema", "", "pg_catalog2", "x\"; DROP TABLE y", "'", "%" };
    if ( bad == 0 ) { info = NOCONN[ch.choose( 3 )]; why = "connection string"; }
    else if ( bad == 1 ) { B = NS[ch.choose( 6 )]; why = "base schema"; }
    else if ( bad == 2 ) { M = NS[ch.choose( 6 )]; why = "other schema"; }
    else { F = ch.choose( 2 ) ? dir + "missing.diff" : "/sim/w"; why = "changeset"; }
    ApiCall ca; std::string ctx, but;
    int fn = ( int )ch.choose( 6 );
    if ( fn == 0 && bad != 3 ) { ca = cCreateEx( drv, info, B, M, o ); but = o; }
    else if ( fn == 1 && bad != 2 ) ca = cApplyEx( drv, info, B, F );
    else if ( fn == 2 && bad < 2 ) { ca = cDumpEx( drv, info, B, o ); but = o; }
    else if ( fn == 3 ) ca = cRebaseDrv( drv, info, B, M, F, conf );
    else if ( fn == 4 && bad < 2 ) ca = cCopy( drv, info, B, "sqlite", "", lite );
    else if ( fn == 5 && bad == 0 ) ca = cCopy( "sqlite", "", lite, drv, info, m );
    else continue;
    fsRestore( img ); pgRestore( pg );
    std::string s0 = state( but );
    std::vector<Fault> fl;
    if ( ch.chance( 15 ) ) { OpCounts oc = dryRun( ca ); Fault q = pickFault( oc, FS_ALL & ~FS_UNLINK & ~FS_DEATH ); if ( q.kind != F_NONE ) fl.push_back( q ); }
    Outcome r = call( ca, fl );
    ctx = ca.name + " with an unusable " + why + " (" + ( bad == 0 ? info : bad == 1 ? B : bad == 2 ? M : F ) + ")" + ( fl.empty() ? "" : " under " + faultStr( fl[0] ) );
    if ( r.killed || ( r.faultFired && fl[0].kind == F_PG_CRASH ) ) continue;
    if ( r.rc == 0 ) violate( "accepted", "%s returned 0", ctx.c_str() );
    if ( r.log.empty() && fl.empty() ) violate( "silent", "%s returned %d without a message", ctx.c_str(), r.rc );
    std::string s1 = state( but );
    if ( s0 != s1 ) violate( "effect", "%s changed something: %s became %s", ctx.c_str(), s0.c_str(), s1.c_str() );
    probe( "unusable.pg " + why );
    g_stats.states.insert( std::hash<std::string>()( ca.name + why ) );
    sampleAdd( "%s -> %d", ctx.c_str(), r.rc );
  }
}
} // namespace sim
