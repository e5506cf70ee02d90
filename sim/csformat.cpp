#include "csformat.h"
#include <cstring>
#include <cmath>

namespace sim {

namespace {
struct Rd
{
  const std::string &b; size_t p = 0; bool bad = false; std::string err;
  explicit Rd( const std::string &s ) : b( s ) {}
  void fail( const std::string &e ) { if ( !bad ) { bad = true; err = e + strf( " at offset %zu", p ); } }
  int byte() { if ( p >= b.size() ) { fail( "file ends inside a record" ); return 0; } return ( unsigned char )b[p++]; }
  uint64_t varint()
  {
    uint64_t v = 0;
    for ( int i = 0; i < 9; ++i )
    {
      int c = byte(); if ( bad ) return 0;
      if ( i == 8 ) return ( v << 8 ) | c;
      v = ( v << 7 ) | ( c & 0x7f );
      if ( !( c & 0x80 ) ) return v;
    }
    return v;
  }
  std::string bytes( uint64_t n )
  {
    if ( n > b.size() - p ) { fail( "file ends inside a value" ); return ""; }
    std::string r = b.substr( p, n ); p += n; return r;
  }
  uint64_t be64() { std::string s = bytes( 8 ); uint64_t v = 0; for ( unsigned char c : s ) v = ( v << 8 ) | c; return v; }
  Val val()
  {
    Val v;
    int t = byte(); if ( bad ) return v;
    v.t = t;
    switch ( t )
    {
      case 0: case 5: break;
      case 1: v.i = ( int64_t )be64(); break;
      case 2: { uint64_t u = be64(); memcpy( &v.d, &u, 8 ); break; }
      case 3: case 4: { uint64_t n = varint(); if ( !bad ) v.s = bytes( n ); break; }
      default: --p; fail( strf( "unknown value type %d", t ) );
    }
    return v;
  }
  Row row( size_t n ) { Row r; for ( size_t i = 0; i < n && !bad; ++i ) r.push_back( val() ); return r; }
};
}

Changeset parseCs( const std::string &bytes, bool anyFlag )
{
  HarnessScope hs;
  Changeset c;
  Rd r( bytes );
  c.cuts.push_back( 0 );
  while ( r.p < bytes.size() )
  {
    int k = r.byte();
    if ( k == 'T' )
    {
      CsTable t; t.headerPos = r.p - 1;
      uint64_t n = r.varint();
      if ( r.bad ) break;
      if ( ( n == 0 && !anyFlag ) || n > 65536 ) { r.fail( strf( "column count %llu", ( unsigned long long )n ) ); break; }
      std::string f = r.bytes( n );
      if ( r.bad ) break;
      for ( char x : f ) { if ( x != 0 && x != 1 && !anyFlag ) { r.fail( strf( "key flag %d", x ) ); } t.pk.push_back( x != 0 ); }
      if ( r.bad ) break;
      size_t z = bytes.find( '\0', r.p );
      if ( z == std::string::npos ) { r.fail( "table name not terminated" ); break; }
      t.name = bytes.substr( r.p, z - r.p ); r.p = z + 1;
      c.tables.push_back( t );
    }
    else if ( k == OP_INSERT || k == OP_UPDATE || k == OP_DELETE )
    {
      if ( c.tables.empty() ) { r.fail( "change before any table record" ); break; }
      CsEntry e; e.op = k; e.table = ( int )c.tables.size() - 1;
      e.indirect = r.byte();
      size_t n = c.tables.back().pk.size();
      if ( k != OP_INSERT ) e.oldv = r.row( n );
      if ( k != OP_DELETE && !r.bad ) e.newv = r.row( n );
      if ( r.bad ) break;
      e.end = r.p;
      ++c.tables.back().entries;
      c.entries.push_back( e );
    }
    else { --r.p; r.fail( strf( "unknown record byte 0x%02x", k ) ); break; }
    if ( r.bad ) break;
    c.cuts.push_back( r.p );
  }
  c.ok = !r.bad; c.err = r.err;
  return c;
}

void encVarint( std::string &o, uint64_t v )
{
  if ( v > 0x00ffffffffffffffULL )
  {
    unsigned char b[9]; b[8] = ( unsigned char )v; v >>= 8;
    for ( int i = 7; i >= 0; --i ) { b[i] = ( unsigned char )( ( v & 0x7f ) | 0x80 ); v >>= 7; }
    o.append( ( char * )b, 9 ); return;
  }
  unsigned char b[10]; int n = 0;
  do { b[n++] = ( unsigned char )( ( v & 0x7f ) | 0x80 ); v >>= 7; } while ( v );
  b[0] &= 0x7f;
  while ( n-- ) o += ( char )b[n];
}
static void be64( std::string &o, uint64_t v ) { for ( int i = 7; i >= 0; --i ) o += ( char )( v >> ( 8 * i ) ); }
void encVal( std::string &o, const Val &v )
{
  o += ( char )v.t;
  if ( v.t == 1 ) be64( o, ( uint64_t )v.i );
  else if ( v.t == 2 ) { uint64_t u; memcpy( &u, &v.d, 8 ); be64( o, u ); }
  else if ( v.t == 3 || v.t == 4 ) { encVarint( o, v.s.size() ); o += v.s; }
}
void encTable( std::string &o, const CsTable &t )
{
  o += 'T'; encVarint( o, t.pk.size() );
  for ( bool b : t.pk ) o += b ? '\1' : '\0';
  o += t.name; o += '\0';
}
void encEntry( std::string &o, const CsEntry &e )
{
  o += ( char )e.op; o += ( char )e.indirect;
  if ( e.op != OP_INSERT ) for ( auto &v : e.oldv ) encVal( o, v );
  if ( e.op != OP_DELETE ) for ( auto &v : e.newv ) encVal( o, v );
}
std::string encodeCs( const Changeset &c )
{
  std::string o;
  int cur = -1;
  for ( auto &e : c.entries )
  {
    if ( e.table != cur ) { cur = e.table; encTable( o, c.tables[cur] ); }
    encEntry( o, e );
  }
  return o;
}

static const char *opName( int op ) { return op == OP_INSERT ? "insert" : op == OP_UPDATE ? "update" : op == OP_DELETE ? "delete" : "?"; }
std::string Change::str() const { return strf( "%s old=%s new=%s", opName( op ), rowStr( oldv ).c_str(), rowStr( newv ).c_str() ); }

// texts that a citext or NOCASE key takes for the same, and yet are not
static bool caseOnly( const Val &a, const Val &b )
{
  if ( a.t != 3 || b.t != 3 || a.s == b.s || a.s.size() != b.s.size() ) return false;
  for ( size_t i = 0; i < a.s.size(); ++i ) if ( tolower( (unsigned char) a.s[i] ) != tolower( (unsigned char) b.s[i] ) ) return false;
  return true;
}

std::string strictCs( const Changeset &c, bool minimal, bool caseKeys )
{
  if ( !c.ok ) return "does not parse: " + c.err;
  for ( auto &t : c.tables )
  {
    if ( !t.entries ) return "table record without changes: " + t.name;
    if ( t.name.empty() ) return "empty table name";
    bool any = false; for ( bool b : t.pk ) any |= b;
    if ( !any ) return "table record without key columns: " + t.name;
  }
  for ( auto &e : c.entries )
  {
    auto &pk = c.tables[e.table].pk;
    const std::string &tn = c.tables[e.table].name;
    size_t n = pk.size();
    if ( e.op == OP_INSERT ) { for ( auto &v : e.newv ) if ( v.t == 0 ) return "undefined value in insert, table " + tn + " " + rowStr( e.newv ); }
    else if ( e.op == OP_DELETE ) { for ( auto &v : e.oldv ) if ( v.t == 0 ) return "undefined value in delete, table " + tn + " " + rowStr( e.oldv ); }
    else
    {
      int changes = 0;
      for ( size_t i = 0; i < n; ++i )
      {
        if ( pk[i] ) { if ( e.oldv[i].t == 0 ) return "update without old key value, table " + tn; if ( e.newv[i].t != 0 ) { if ( !caseKeys || !caseOnly( e.oldv[i], e.newv[i] ) ) return "update with new key value, table " + tn; ++changes; } }
        else
        {
          if ( ( e.oldv[i].t == 0 ) != ( e.newv[i].t == 0 ) ) return "update with one-sided value, table " + tn + " old " + rowStr( e.oldv ) + " new " + rowStr( e.newv );
          if ( e.oldv[i].t == 0 ) continue;
          ++changes;
          if ( minimal && e.oldv[i] == e.newv[i] ) return "update of an unchanged column, table " + tn + " old " + rowStr( e.oldv ) + " new " + rowStr( e.newv );
        }
      }
      if ( !changes ) return "update that changes nothing, table " + tn;
    }
  }
  return "";
}

static Row keyOf( const Row &r, const std::vector<bool> &pk ) { Row k; for ( size_t i = 0; i < pk.size(); ++i ) if ( pk[i] ) k.push_back( r[i] ); return k; }

std::string toMap( const Changeset &c, ChangeMap &m )
{
  for ( auto &e : c.entries )
  {
    auto &t = c.tables[e.table];
    Change x; x.op = e.op; x.oldv = e.oldv; x.newv = e.newv;
    Row k = keyOf( e.op == OP_INSERT ? e.newv : e.oldv, t.pk );
    if ( !m[t.name].insert( { k, x } ).second ) return "two changes for key " + rowStr( k ) + " of table " + t.name;
  }
  return "";
}

std::string diffMaps( const ChangeMap &want, const ChangeMap &got )
{
  for ( auto &t : want )
    for ( auto &c : t.second )
    {
      auto g = got.find( t.first );
      if ( g == got.end() || !g->second.count( c.first ) ) return "missing change, table " + t.first + ": " + c.second.str();
      auto &x = g->second.at( c.first );
      if ( !( x == c.second ) ) return "table " + t.first + " key " + rowStr( c.first ) + ": expected " + c.second.str() + ", got " + x.str();
    }
  for ( auto &t : got )
    for ( auto &c : t.second )
    {
      auto g = want.find( t.first );
      if ( g == want.end() || !g->second.count( c.first ) ) return "unexpected change, table " + t.first + ": " + c.second.str();
    }
  return "";
}

bool skipTable( const std::string &n ) { return n.compare( 0, 6, "rtree_" ) == 0 || n.compare( 0, 17, "gpkg_ogr_contents" ) == 0 || n == "sqlite_sequence"; }

ChangeMap refDiff( const DbState &a, const DbState &b )
{
  HarnessScope hs;
  ChangeMap m;
  for ( auto &t : a.tables )
  {
    if ( !t.second.hasPk() ) continue;
    auto o = b.tables.find( t.first );
    if ( o == b.tables.end() ) continue;
    std::map<Row, Change> cs;
    auto &pk = t.second.pk;
    for ( auto &r : t.second.rows )
    {
      auto q = o->second.rows.find( r.first );
      if ( q == o->second.rows.end() ) { Change c; c.op = OP_DELETE; c.oldv = r.second; cs[r.first] = c; }
      else if ( q->second != r.second )
      {
        Change c; c.op = OP_UPDATE;
        for ( size_t i = 0; i < r.second.size(); ++i )
        {
          bool ch = r.second[i] != q->second[i];
          c.oldv.push_back( pk[i] || ch ? r.second[i] : Val() );
          c.newv.push_back( ch && !pk[i] ? q->second[i] : Val() );
        }
        cs[r.first] = c;
      }
    }
    for ( auto &r : o->second.rows ) if ( !t.second.rows.count( r.first ) ) { Change c; c.op = OP_INSERT; c.newv = r.second; cs[r.first] = c; }
    if ( !cs.empty() ) m[t.first] = cs;
  }
  return m;
}

Change refInvertChange( const Change &c, const std::vector<bool> &pk )
{
  Change r;
  if ( c.op == OP_INSERT ) { r.op = OP_DELETE; r.oldv = c.newv; }
  else if ( c.op == OP_DELETE ) { r.op = OP_INSERT; r.newv = c.oldv; }
  else
  {
    r.op = OP_UPDATE;
    for ( size_t i = 0; i < pk.size(); ++i )
    {
      if ( pk[i] && c.newv[i].t == 0 ) { r.oldv.push_back( c.oldv[i] ); r.newv.push_back( Val() ); }
      else { r.oldv.push_back( c.newv[i] ); r.newv.push_back( c.oldv[i] ); }
    }
  }
  return r;
}
static std::vector<bool> pkOf( const TableData &t ) { std::vector<bool> r; for ( int p : t.pk ) r.push_back( p != 0 ); return r; }
ChangeMap refInvert( const ChangeMap &m, const DbState &s )
{
  ChangeMap r;
  for ( auto &t : m )
    for ( auto &c : t.second )
    {
      auto pk = pkOf( s.tables.at( t.first ) );
      Change x = refInvertChange( c.second, pk );
      r[t.first][keyOf( x.op == OP_INSERT ? x.newv : x.oldv, pk )] = x;
    }
  return r;
}

DbState emptied( const DbState &s ) { DbState r = s; for ( auto &t : r.tables ) t.second.rows.clear(); return r; }

static bool uniqueOk( const TableData &td, const std::vector<size_t> &cols )
{
  for ( size_t c : cols )
  {
    std::set<Row> seen;
    for ( auto &r : td.rows ) { if ( r.second[c].t == 5 ) continue; if ( !seen.insert( Row{ r.second[c] } ).second ) return false; }
  }
  return true;
}

RefApply refApply( const DbState &base, const Changeset &c, const DbSpec &spec )
{
  HarnessScope hs;
  RefApply out;
  out.state = base;
  std::map<std::string, std::pair<std::vector<size_t>, std::vector<size_t>>> cons; // notnull, unique
  for ( auto &t : spec.tables )
    for ( size_t i = 0; i < t.cols.size(); ++i )
    {
      if ( t.cols[i].notnull || t.cols[i].pk ) cons[t.name].first.push_back( i );
      if ( t.cols[i].unique ) cons[t.name].second.push_back( i );
    }
  std::set<std::string> ci;      // tables whose keys are the same row regardless of case
  for ( auto &t : spec.tables ) for ( auto &c2 : t.cols ) if ( c2.pk && c2.collate == "NOCASE" ) ci.insert( t.name );
  auto fold = []( Row r ) { for ( Val &v : r ) if ( v.t == 3 ) for ( char &x : v.s ) if ( x >= 'A' && x <= 'Z' ) x += 32; return r; };
  bool uniqueBroken = false;
  for ( auto &e : c.entries )
  {
    auto &h = c.tables[e.table];
    auto it = out.state.tables.find( h.name );
    if ( it == out.state.tables.end() ) { out.why = "no table " + h.name; return out; }
    TableData &td = it->second;
    if ( td.pk.size() != h.pk.size() ) { out.why = "column count of " + h.name; return out; }
    if ( pkOf( td ) != h.pk ) { out.why = "key columns of " + h.name; return out; }
    Row k = keyOf( e.op == OP_INSERT ? e.newv : e.oldv, h.pk );
    auto r = td.rows.find( k );
    if ( e.op == OP_INSERT )
    {
      if ( ci.count( h.name ) ) for ( auto i = td.rows.begin(); i != td.rows.end(); ++i ) if ( fold( i->first ) == fold( k ) ) r = i;
      if ( r != td.rows.end() ) { out.why = "row in the way: " + h.name + rowStr( k ); return out; }
      td.rows[k] = e.newv; r = td.rows.find( k );
    }
    else
    {
      if ( r == td.rows.end() ) { out.why = "row missing: " + h.name + rowStr( k ); return out; }
      for ( size_t i = 0; i < h.pk.size(); ++i )
        if ( e.oldv[i].t != 0 && e.oldv[i] != r->second[i] ) { out.why = "old value differs: " + h.name + rowStr( k ) + " has " + rowStr( r->second ) + " expected " + rowStr( e.oldv ); return out; }
      if ( e.op == OP_DELETE ) { td.rows.erase( r ); continue; }
      for ( size_t i = 0; i < h.pk.size(); ++i ) if ( e.newv[i].t != 0 ) r->second[i] = e.newv[i];
      Row k2 = keyOf( r->second, h.pk );
      if ( k2 != k )
      {
        Row full = r->second;
        td.rows.erase( r );
        for ( auto &x : td.rows ) if ( ci.count( h.name ) ? fold( x.first ) == fold( k2 ) : x.first == k2 ) { out.why = "row in the way of the new key: " + h.name + rowStr( k2 ); return out; }
        td.rows[k2] = full; r = td.rows.find( k2 );
      }
    }
    for ( size_t i : cons[h.name].first ) if ( i < r->second.size() && r->second[i].t == 5 ) { out.why = "not null: " + h.name + rowStr( k ); return out; }
    if ( !uniqueOk( td, cons[h.name].second ) ) uniqueBroken = true;
  }
  for ( auto &t : out.state.tables ) if ( !uniqueOk( t.second, cons[t.first].second ) ) { out.why = "unique violated: " + t.first; return out; }
  out.transientUnique = uniqueBroken;
  out.ok = true;
  return out;
}

} // namespace sim
