// See pgsim.h. One translation unit: values, parser, evaluator, statements, transactions, libpq.
#include "pgsim.h"
#include <libpq-fe.h>
#include <cmath>
#include <cstring>
#include <algorithm>

namespace sim {

PgServer g_pg;
int g_pgOrder = 0;

// ------------------------------------------------------------------ errors
struct PgErr { std::string state, msg; };
[[noreturn]] static void pgErr( const char *state, const std::string &msg ) { throw PgErr{ state, msg }; }

// ------------------------------------------------------------------ values
static std::string lower( std::string s ) { for ( char &c : s ) if ( c >= 'A' && c <= 'Z' ) c += 32; return s; }
static std::string upper( std::string s ) { for ( char &c : s ) if ( c >= 'a' && c <= 'z' ) c -= 32; return s; }
static PgVal mk( char k ) { PgVal v; v.k = k; return v; }
static PgVal mkB( bool b ) { PgVal v; v.k = 'b'; v.i = b; return v; }
static PgVal mkI( int64_t i ) { PgVal v; v.k = 'i'; v.i = i; return v; }
static PgVal mkT( const std::string &s ) { PgVal v; v.k = 't'; v.s = s; return v; }

static int64_t daysFromCivil( int64_t y, int m, int d )
{
  y -= m <= 2;
  int64_t era = ( y >= 0 ? y : y - 399 ) / 400;
  unsigned yoe = ( unsigned )( y - era * 400 );
  unsigned doy = ( 153 * ( m + ( m > 2 ? -3 : 9 ) ) + 2 ) / 5 + d - 1;
  unsigned doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
  return era * 146097 + ( int64_t )doe - 719468;
}
static void civil( int64_t z, int64_t &y, int &m, int &d )
{
  z += 719468;
  int64_t era = ( z >= 0 ? z : z - 146096 ) / 146097;
  unsigned doe = ( unsigned )( z - era * 146097 );
  unsigned yoe = ( doe - doe / 1460 + doe / 36524 - doe / 146096 ) / 365;
  y = ( int64_t )yoe + era * 400;
  unsigned doy = doe - ( 365 * yoe + yoe / 4 - yoe / 100 );
  unsigned mp = ( 5 * doy + 2 ) / 153;
  d = doy - ( 153 * mp + 2 ) / 5 + 1;
  m = mp < 10 ? mp + 3 : mp - 9;
  if ( m <= 2 ) ++y;
}
struct TsParts { int64_t y; int mo, d, h, mi, s, us; };
static TsParts tsParts( int64_t us )
{
  TsParts p;
  int64_t day = us / 86400000000LL, r = us % 86400000000LL; if ( r < 0 ) { r += 86400000000LL; --day; }
  civil( day, p.y, p.mo, p.d );
  p.h = ( int )( r / 3600000000LL ); p.mi = ( int )( r / 60000000 % 60 ); p.s = ( int )( r / 1000000 % 60 ); p.us = ( int )( r % 1000000 );
  return p;
}
static int64_t parseTs( const std::string &in )
{
  const char *q = in.c_str();
  while ( *q == ' ' ) ++q;
  int y, mo, d, n = 0;
  auto bad = [&]() { pgErr( "22007", "invalid input syntax for type timestamp: \"" + in + "\"" ); };
  if ( sscanf( q, "%4d-%2d-%2d%n", &y, &mo, &d, &n ) != 3 || n < 8 ) bad();
  static const int dm[] = { 31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
  if ( mo < 1 || mo > 12 || d < 1 || d > dm[mo - 1] || ( mo == 2 && d == 29 && !( y % 4 == 0 && ( y % 100 != 0 || y % 400 == 0 ) ) ) || y < 1 )
    pgErr( "22008", "date/time field value out of range: \"" + in + "\"" );
  q += n;
  int h = 0, mi = 0, s = 0; int64_t us = 0;
  if ( *q == 'T' || *q == 't' || *q == ' ' )
  {
    ++q; while ( *q == ' ' ) ++q;
    if ( *q )
    {
      n = 0;
      if ( sscanf( q, "%2d:%2d%n", &h, &mi, &n ) != 2 || !n ) bad();
      q += n;
      if ( *q == ':' )
      {
        n = 0; if ( sscanf( q, ":%2d%n", &s, &n ) != 1 ) bad();
        q += n;
        if ( *q == '.' )
        {
          ++q; int k = 0; int64_t f = 0, more = 0; 
          while ( isdigit( ( unsigned char )*q ) ) { if ( k < 6 ) f = f * 10 + ( *q - '0' ); else if ( k == 6 ) more = *q - '0'; ++k; ++q; }
          if ( !k ) bad();
          while ( k < 6 ) { f *= 10; ++k; }
          us = f + ( more >= 5 );
        }
      }
    }
  }
  // a zone is read and ignored by this type
  if ( *q == 'Z' || *q == 'z' ) ++q;
  else if ( *q == '+' || *q == '-' ) { ++q; while ( isdigit( ( unsigned char )*q ) || *q == ':' ) ++q; }
  while ( *q == ' ' ) ++q;
  if ( *q ) bad();
  if ( h > 24 || mi > 59 || s > 60 || ( h == 24 && ( mi || s || us ) ) ) pgErr( "22008", "date/time field value out of range: \"" + in + "\"" );
  return ( ( daysFromCivil( y, mo, d ) * 24 + h ) * 60 + mi ) * 60000000LL + s * 1000000LL + us;
}
static std::string fltOut( double d, bool single )
{
  if ( std::isnan( d ) ) return "NaN";
  if ( std::isinf( d ) ) return d < 0 ? "-Infinity" : "Infinity";
  char b[64];
  for ( int p = 1; p <= ( single ? 9 : 17 ); ++p )
  {
    snprintf( b, sizeof b, "%.*g", p, d );
    if ( single ? strtof( b, nullptr ) == ( float )d : strtod( b, nullptr ) == d ) break;
  }
  return b;
}
static std::string hex( const std::string &s ) { static const char *h = "0123456789abcdef"; std::string r; for ( unsigned char c : s ) { r += h[c >> 4]; r += h[c & 15]; } return r; }
std::string pgOut( const PgVal &v )
{
  switch ( v.k )
  {
    case 'b': return v.i ? "t" : "f";
    case 'i': return std::to_string( v.i );
    case 'n': case 'd': return fltOut( v.d, false );
    case 'f': return fltOut( v.d, true );
    case 'T':
    {
      TsParts p = tsParts( v.i );
      std::string r = strf( "%04lld-%02d-%02d %02d:%02d:%02d", ( long long )p.y, p.mo, p.d, p.h, p.mi, p.s );
      if ( p.us ) { std::string f = strf( ".%06d", p.us ); while ( f.back() == '0' ) f.pop_back(); r += f; }
      return r;
    }
    case 'y': return "\\x" + hex( v.s );
    case 'g':
    {
      // EWKB in hex: byte order, type with the SRID flag, SRID, rest
      if ( v.s.size() < 5 ) return "";
      uint32_t ty; memcpy( &ty, &v.s[1], 4 );
      uint32_t base = ty % 1000, dim = ty / 1000;
      uint32_t e = base | ( dim == 1 || dim == 3 ? 0x80000000u : 0 ) | ( dim >= 2 ? 0x40000000u : 0 ) | ( v.i ? 0x20000000u : 0 );
      std::string r = v.s.substr( 0, 1 ); r.append( ( const char * )&e, 4 );
      if ( v.i ) { uint32_t s = ( uint32_t )v.i; r.append( ( const char * )&s, 4 ); }
      return upper( hex( r + v.s.substr( 5 ) ) );
    }
    default: return v.s;
  }
}
static const char *tyName( char k )
{
  switch ( k ) { case 'b': return "boolean"; case 'i': return "integer"; case 'n': return "numeric"; case 'f': return "real"; case 'd': return "double precision"; case 't': return "text"; case 'c': return "citext"; case 'T': return "timestamp without time zone"; case 'y': return "bytea"; case 'g': return "geometry"; default: return "unknown"; }
}
static char kindOf( const std::string &type )
{
  if ( type == "boolean" ) return 'b';
  if ( type == "integer" || type == "bigint" || type == "smallint" ) return 'i';
  if ( type.compare( 0, 7, "numeric" ) == 0 ) return 'n';
  if ( type == "real" ) return 'f';
  if ( type == "double precision" ) return 'd';
  if ( type == "text" || type.compare( 0, 9, "character" ) == 0 || type == "name" || type == "\"char\"" ) return 't';
  if ( type == "citext" ) return 'c';
  if ( type.compare( 0, 9, "timestamp" ) == 0 || type == "date" ) return 'T';
  if ( type == "bytea" ) return 'y';
  if ( type.compare( 0, 8, "geometry" ) == 0 ) return 'g';
  return 'o';
}
static std::string trim( const std::string &s ) { size_t a = s.find_first_not_of( " \t\n\r" ), b = s.find_last_not_of( " \t\n\r" ); return a == std::string::npos ? "" : s.substr( a, b - a + 1 ); }
static double parseFlt( const std::string &in, bool single )
{
  std::string t = trim( in ), l = lower( t );
  const char *ty = single ? "real" : "double precision";
  if ( l == "nan" ) return NAN;
  if ( l == "inf" || l == "infinity" || l == "+inf" || l == "+infinity" ) return INFINITY;
  if ( l == "-inf" || l == "-infinity" ) return -INFINITY;
  if ( t.empty() || t.find_first_not_of( "0123456789.eE+-" ) != std::string::npos ) pgErr( "22P02", std::string( "invalid input syntax for type " ) + ty + ": \"" + in + "\"" );
  char *e;
  double d = single ? ( double )strtof( t.c_str(), &e ) : strtod( t.c_str(), &e );
  if ( *e ) pgErr( "22P02", std::string( "invalid input syntax for type " ) + ty + ": \"" + in + "\"" );
  bool zero = t.find_first_of( "123456789" ) == std::string::npos;
  if ( std::isinf( d ) || ( d == 0 && !zero ) ) pgErr( "22003", "\"" + in + "\" is out of range for type " + ty );
  return d;
}
static std::string unhex( const std::string &s, bool &ok )
{
  std::string r; ok = s.size() % 2 == 0;
  auto h = [&]( char c ) -> int { if ( c >= '0' && c <= '9' ) return c - '0'; if ( c >= 'a' && c <= 'f' ) return c - 'a' + 10; if ( c >= 'A' && c <= 'F' ) return c - 'A' + 10; ok = false; return 0; };
  for ( size_t i = 0; ok && i + 1 < s.size(); i += 2 ) r += ( char )( h( s[i] ) * 16 + h( s[i + 1] ) );
  return r;
}
static std::string parseBytea( const std::string &s )
{
  if ( s.compare( 0, 2, "\\x" ) == 0 )
  {
    bool ok; std::string r = unhex( s.substr( 2 ), ok );
    if ( !ok ) pgErr( "22023", "invalid hexadecimal data" );
    return r;
  }
  std::string r;
  for ( size_t i = 0; i < s.size(); ++i )
  {
    if ( s[i] != '\\' ) { r += s[i]; continue; }
    if ( i + 1 < s.size() && s[i + 1] == '\\' ) { r += '\\'; ++i; continue; }
    if ( i + 3 < s.size() && s[i + 1] >= '0' && s[i + 1] <= '3' ) { r += ( char )strtol( s.substr( i + 1, 3 ).c_str(), nullptr, 8 ); i += 3; continue; }
    pgErr( "22P02", "invalid input syntax for type bytea" );
  }
  return r;
}
// little endian copy of a WKB geometry in ISO form; type name in ty ("PointZ" style upper case)
static size_t wkbWalk( const std::string &w, size_t at, std::string &out, uint32_t &tyOut, int depth )
{
  auto bad = []() { pgErr( "XX000", "WKB structure does not match expected size!" ); };
  if ( depth > 8 || at + 5 > w.size() ) bad();
  bool le = w[at] == 1;
  if ( w[at] != 0 && w[at] != 1 ) pgErr( "XX000", "Invalid endian flag value encountered." );
  auto u32 = [&]( size_t p ) -> uint32_t { if ( p + 4 > w.size() ) bad(); uint32_t v; memcpy( &v, &w[p], 4 ); return le ? v : __builtin_bswap32( v ); };
  uint32_t ty = u32( at + 1 );
  if ( ty & 0xe0000000u ) { uint32_t b = ty & 0xfff; if ( ty & 0x20000000u ) pgErr( "XX000", "EWKB with SRID" ); ty = b + ( ty & 0x80000000u ? 1000 : 0 ) + ( ty & 0x40000000u ? 2000 : 0 ); }
  uint32_t base = ty % 1000, dim = ty / 1000;
  if ( base < 1 || base > 7 || dim > 3 ) pgErr( "XX000", strf( "Unknown WKB type (%u)!", ty ) );
  tyOut = ty;
  int nd = 2 + ( dim == 1 || dim == 2 ) + ( dim == 3 ) * 2;
  out += '\1'; out.append( ( const char * )&ty, 4 );
  at += 5;
  auto copyU = [&]() -> uint32_t { uint32_t v = u32( at ); at += 4; out.append( ( const char * )&v, 4 ); return v; };
  auto pts = [&]( uint64_t n )
  {
    if ( n > 1000000 || at + n * nd * 8 > w.size() ) bad();
    for ( uint64_t k = 0; k < n * nd; ++k ) { char b[8]; memcpy( b, &w[at], 8 ); if ( !le ) std::reverse( b, b + 8 ); out.append( b, 8 ); at += 8; }
  };
  if ( base == 1 ) pts( 1 );
  else if ( base == 2 ) { uint32_t n = copyU(); pts( n ); if ( n == 1 ) pgErr( "XX000", "geometry requires more points" ); }
  else if ( base == 3 ) { uint32_t r = copyU(); for ( uint32_t k = 0; k < r; ++k ) { uint32_t n = copyU(); if ( n < 4 ) pgErr( "XX000", "geometry requires more points" ); pts( n ); } }
  else { uint32_t n = copyU(); for ( uint32_t k = 0; k < n; ++k ) { uint32_t t; at = wkbWalk( w, at, out, t, depth + 1 ); } }
  return at;
}
static std::string wkbTypeName( uint32_t ty )
{
  static const char *n[] = { "GEOMETRY", "POINT", "LINESTRING", "POLYGON", "MULTIPOINT", "MULTILINESTRING", "MULTIPOLYGON", "GEOMETRYCOLLECTION" };
  static const char *d[] = { "", "Z", "M", "ZM" };
  return std::string( n[ty % 1000 % 8] ) + d[ty / 1000 % 4];
}
static PgVal geomFromWkb( const std::string &w, int64_t srid )
{
  PgVal v; v.k = 'g'; v.i = srid;
  uint32_t ty; wkbWalk( w, 0, v.s, ty, 0 );
  return v;
}
static int64_t parseInt( const std::string &in, const char *ty )
{
  std::string t = trim( in );
  char *e; errno = 0;
  long long v = strtoll( t.c_str(), &e, 10 );
  if ( t.empty() || *e ) pgErr( "22P02", std::string( "invalid input syntax for type " ) + ty + ": \"" + in + "\"" );
  if ( errno ) pgErr( "22003", "value \"" + in + "\" is out of range for type " + ty );
  return v;
}
static bool utf8Ok( const std::string &s )
{
  for ( size_t i = 0; i < s.size(); )
  {
    unsigned char c = s[i]; int n; uint32_t v;
    if ( c < 0x80 ) { ++i; continue; }
    else if ( c >= 0xc2 && c <= 0xdf ) { n = 1; v = c & 31; }
    else if ( c >= 0xe0 && c <= 0xef ) { n = 2; v = c & 15; }
    else if ( c >= 0xf0 && c <= 0xf4 ) { n = 3; v = c & 7; }
    else return false;
    for ( int k = 1; k <= n; ++k ) { if ( i + k >= s.size() || ( ( unsigned char )s[i + k] & 0xc0 ) != 0x80 ) return false; v = v << 6 | ( ( unsigned char )s[i + k] & 63 ); }
    if ( ( n == 2 && v < 0x800 ) || ( n == 3 && v < 0x10000 ) || v > 0x10ffff || ( v >= 0xd800 && v <= 0xdfff ) ) return false;
    i += n + 1;
  }
  return true;
}
// literal of unknown type to the kind wanted
static PgVal fromText( const std::string &s, char k )
{
  PgVal v; v.k = k;
  switch ( k )
  {
    case 'b':
    {
      std::string l = lower( trim( s ) );
      auto pre = [&]( const char *w, size_t min ) { return l.size() >= min && std::string( w ).compare( 0, l.size(), l ) == 0; };
      if ( pre( "true", 1 ) || pre( "yes", 1 ) || l == "on" || l == "1" ) v.i = 1;
      else if ( pre( "false", 1 ) || pre( "no", 1 ) || pre( "off", 2 ) || l == "0" ) v.i = 0;
      else pgErr( "22P02", "invalid input syntax for type boolean: \"" + s + "\"" );
      break;
    }
    case 'i': v.i = parseInt( s, "integer" ); if ( v.i > INT32_MAX || v.i < INT32_MIN ) { /* the column decides */ } break;
    case 'n': case 'd': v.d = parseFlt( s, false ); break;
    case 'f': v.d = parseFlt( s, true ); break;
    case 't': case 'c': case 'o': v.s = s; break;
    case 'T': v.i = parseTs( s ); break;
    case 'y': v.s = parseBytea( s ); break;
    case 'g': pgErr( "XX000", "parse error - invalid geometry" );
    default: v.k = 'U'; v.s = s;
  }
  return v;
}
static int cmp3( double a, double b )
{
  bool na = std::isnan( a ), nb = std::isnan( b );
  if ( na || nb ) return na == nb ? 0 : na ? 1 : -1;
  return a < b ? -1 : a > b;
}
static bool isNum( char k ) { return k == 'i' || k == 'n' || k == 'f' || k == 'd'; }
// both not null
static int pgCmp( PgVal a, PgVal b )
{
  if ( a.k == 'U' && b.k == 'U' ) a.k = b.k = 't';
  else if ( a.k == 'U' ) a = fromText( a.s, b.k );
  else if ( b.k == 'U' ) b = fromText( b.s, a.k );
  if ( isNum( a.k ) && isNum( b.k ) )
  {
    if ( a.k == 'i' && b.k == 'i' ) return a.i < b.i ? -1 : a.i > b.i;
    return cmp3( a.k == 'i' ? ( double )a.i : a.d, b.k == 'i' ? ( double )b.i : b.d );
  }
  auto txt = []( char k ) { return k == 't' || k == 'o'; };
  if ( a.k == 'c' && b.k == 'c' ) { int r = lower( a.s ).compare( lower( b.s ) ); return r < 0 ? -1 : r > 0; }
  if ( ( txt( a.k ) || a.k == 'c' ) && ( txt( b.k ) || b.k == 'c' ) ) { int r = a.s.compare( b.s ); return r < 0 ? -1 : r > 0; }
  if ( a.k != b.k ) pgErr( "42883", std::string( "operator does not exist: " ) + tyName( a.k ) + " = " + tyName( b.k ) );
  switch ( a.k )
  {
    case 'b': case 'T': return a.i < b.i ? -1 : a.i > b.i;
    case 'g': if ( a.i != b.i ) return a.i < b.i ? -1 : 1; // fall through
    case 'y': { int r = a.s.compare( b.s ); return r < 0 ? -1 : r > 0; }
    default: pgErr( "42883", std::string( "operator does not exist for type " ) + tyName( a.k ) );
  }
}
// value for a column, as an INSERT or UPDATE converts it
static PgVal assign( const PgVal &v, const PgCol &c )
{
  char k = kindOf( c.type );
  PgVal r;
  if ( v.k == 'N' ) return v;
  if ( v.k == 'U' ) r = fromText( v.s, k );
  else if ( v.k == k ) r = v;
  else if ( isNum( v.k ) && isNum( k ) )
  {
    double d = v.k == 'i' ? ( double )v.i : v.d;
    r.k = k;
    if ( k == 'i' ) { if ( !( d > -9.3e18 && d < 9.3e18 ) ) pgErr( "22003", "integer out of range" ); r.i = v.k == 'i' ? v.i : ( int64_t )std::nearbyint( d ); }
    else if ( k == 'f' ) { r.d = ( double )( float )d; if ( std::isinf( r.d ) && !std::isinf( d ) ) pgErr( "22003", "value out of range: overflow" ); }
    else r.d = d;
  }
  else if ( ( k == 't' || k == 'c' || k == 'o' ) && ( v.k != 'g' && v.k != 'y' ) ) { r.k = k; r.s = v.k == 'b' ? ( v.i ? "true" : "false" ) : pgOut( v ); }
  else if ( ( v.k == 't' || v.k == 'c' ) && ( k == 't' || k == 'c' ) ) { r.k = k; r.s = v.s; }
  else pgErr( "42804", "column \"" + c.name + "\" is of type " + c.type + " but expression is of type " + tyName( v.k ) );
  if ( k == 'i' )
  {
    if ( c.type == "integer" && ( r.i > INT32_MAX || r.i < INT32_MIN ) ) pgErr( "22003", "integer out of range" );
    if ( c.type == "smallint" && ( r.i > 32767 || r.i < -32768 ) ) pgErr( "22003", "smallint out of range" );
  }
  if ( k == 't' && c.type.compare( 0, 10, "character " ) == 0 )
  {
    size_t p = c.type.find( '(' );
    if ( p != std::string::npos )
    {
      size_t n = atoi( c.type.c_str() + p + 1 ), len = 0;
      for ( unsigned char ch2 : r.s ) if ( ( ch2 & 0xc0 ) != 0x80 ) ++len;
      if ( len > n ) pgErr( "22001", "value too long for type " + c.type );
    }
  }
  if ( k == 'g' && !c.geomType.empty() )
  {
    uint32_t ty; memcpy( &ty, &r.s[1], 4 );
    std::string have = wkbTypeName( ty );
    bool okType = c.geomType == have || ( c.geomType.compare( 0, 8, "GEOMETRY" ) == 0 && c.geomType.compare( 0, 10, "GEOMETRYCO" ) != 0 );
    if ( !okType ) pgErr( "22023", "Geometry type (" + have + ") does not match column type (" + c.geomType + ")" );
    if ( c.srid > 0 && r.i != c.srid ) { if ( r.i == 0 ) r.i = c.srid; else pgErr( "22023", strf( "Geometry SRID (%lld) does not match column SRID (%d)", ( long long )r.i, c.srid ) ); }
  }
  return r;
}

// ------------------------------------------------------------------ tokens
struct Tok { char t = 0; std::string s; size_t at = 0; };     // I ident, Q quoted ident, S string, N number, O operator, 0 end
static std::vector<Tok> lexSql( const std::string &q )
{
  std::vector<Tok> r; size_t i = 0;
  auto idc = []( unsigned char c ) { return isalnum( c ) || c == '_' || c == '$' || c >= 0x80; };
  while ( i < q.size() )
  {
    unsigned char c = q[i];
    if ( isspace( c ) ) { ++i; continue; }
    if ( c == '-' && q.compare( i, 2, "--" ) == 0 ) { while ( i < q.size() && q[i] != '\n' ) ++i; continue; }
    if ( q.compare( i, 2, "/*" ) == 0 ) { size_t e = q.find( "*/", i + 2 ); if ( e == std::string::npos ) pgErr( "42601", "unterminated /* comment" ); i = e + 2; continue; }
    Tok t; t.at = i;
    if ( c == '\'' || ( ( c == 'E' || c == 'e' ) && i + 1 < q.size() && q[i + 1] == '\'' ) )
    {
      bool esc = c != '\''; if ( esc ) ++i;
      ++i; t.t = 'S';
      for ( ;; )
      {
        if ( i >= q.size() ) pgErr( "42601", "unterminated quoted string" );
        if ( q[i] == '\'' ) { if ( i + 1 < q.size() && q[i + 1] == '\'' ) { t.s += '\''; i += 2; continue; } ++i; break; }
        if ( esc && q[i] == '\\' )
        {
          if ( i + 1 >= q.size() ) pgErr( "42601", "unterminated quoted string" );
          char x = q[i + 1]; i += 2;
          switch ( x )
          {
            case 'n': t.s += '\n'; break; case 't': t.s += '\t'; break; case 'r': t.s += '\r'; break; case 'b': t.s += '\b'; break; case 'f': t.s += '\f'; break;
            case 'x': { int v = 0, n = 0; while ( n < 2 && i < q.size() && isxdigit( ( unsigned char )q[i] ) ) { v = v * 16 + ( isdigit( ( unsigned char )q[i] ) ? q[i] - '0' : ( q[i] | 32 ) - 'a' + 10 ); ++i; ++n; } t.s += n ? ( char )v : 'x'; break; }
            case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': { int v = x - '0', n = 1; while ( n < 3 && i < q.size() && q[i] >= '0' && q[i] <= '7' ) { v = v * 8 + ( q[i] - '0' ); ++i; ++n; } t.s += ( char )v; break; }
            default: t.s += x;
          }
          continue;
        }
        t.s += q[i++];
      }
      if ( esc && ( !utf8Ok( t.s ) || t.s.find( '\0' ) != std::string::npos ) ) pgErr( "22021", "invalid byte sequence for encoding \"UTF8\"" );
    }
    else if ( c == '"' )
    {
      ++i; t.t = 'Q';
      for ( ;; )
      {
        if ( i >= q.size() ) pgErr( "42601", "unterminated quoted identifier" );
        if ( q[i] == '"' ) { if ( i + 1 < q.size() && q[i + 1] == '"' ) { t.s += '"'; i += 2; continue; } ++i; break; }
        t.s += q[i++];
      }
      if ( t.s.empty() ) pgErr( "42601", "zero-length delimited identifier" );
      if ( t.s.size() > 63 ) { size_t n = 63; while ( n && ( ( unsigned char )t.s[n] & 0xc0 ) == 0x80 ) --n; t.s.resize( n ); }
    }
    else if ( isdigit( c ) || ( c == '.' && i + 1 < q.size() && isdigit( ( unsigned char )q[i + 1] ) ) )
    {
      t.t = 'N';
      while ( i < q.size() && ( isdigit( ( unsigned char )q[i] ) || q[i] == '.' ) ) t.s += q[i++];
      if ( i < q.size() && ( q[i] == 'e' || q[i] == 'E' ) )
      {
        size_t j = i + 1; if ( j < q.size() && ( q[j] == '+' || q[j] == '-' ) ) ++j;
        if ( j < q.size() && isdigit( ( unsigned char )q[j] ) ) { t.s += q.substr( i, j - i ); i = j; while ( i < q.size() && isdigit( ( unsigned char )q[i] ) ) t.s += q[i++]; }
      }
    }
    else if ( isalpha( c ) || c == '_' || c >= 0x80 ) { t.t = 'I'; while ( i < q.size() && idc( q[i] ) ) t.s += q[i++]; t.s = lower( t.s ); if ( t.s.size() > 63 ) t.s.resize( 63 ); }
    else
    {
      t.t = 'O';
      static const char *two[] = { "::", "||", "<=", ">=", "<>", "!=" };
      bool done = false;
      for ( auto w : two ) if ( q.compare( i, 2, w ) == 0 ) { t.s = w; i += 2; done = true; break; }
      if ( !done ) { t.s = std::string( 1, q[i] ); ++i; }
    }
    r.push_back( t );
  }
  r.push_back( Tok() );
  return r;
}

// ------------------------------------------------------------------ syntax
struct Select; struct Ex;
typedef std::shared_ptr<Ex> ExP; typedef std::shared_ptr<Select> SelP;
struct Ex { std::string op; std::vector<ExP> a; std::vector<std::string> name; PgVal lit; SelP sub; bool neg = false; };
struct From { std::vector<std::string> name; std::string alias; SelP sub; int join = 0; ExP on; };       // join 0 comma, 1 inner, 2 left
struct Item { ExP e; std::string alias; bool star = false; std::string starOf; };
struct Select { std::vector<Item> items; std::vector<From> from; ExP where; std::vector<std::pair<ExP, bool>> order; ExP limit, offset; bool distinct = false; std::vector<ExP> group; ExP having; SelP next; int setop = 0; bool setAll = false; };
struct ColDef { std::string name, type; bool notnull = false, pk = false, serial = false, unique = false; ExP def; std::string geomType; int srid = -1; };
struct Stmt
{
  enum K { NONE, SELECT, INSERT, UPDATE, DELETE, CREATE_TABLE, CREATE_SCHEMA, DROP_SCHEMA, DROP_TABLE, BEGIN, COMMIT, ROLLBACK, SETVAR, INDEX } k = NONE;
  SelP sel; std::vector<std::string> target; std::string alias; std::vector<std::string> cols; std::vector<std::vector<ExP>> values; std::vector<std::pair<std::string, ExP>> sets; ExP where;
  std::vector<ColDef> defs; std::vector<std::string> pk; bool ifExists = false, cascade = false, repeatable = false, unique = false; std::string name; std::vector<Item> returning; bool onConflictNothing = false;
};

struct Parser
{
  std::vector<Tok> t; size_t p = 0; const std::string &src;
  explicit Parser( const std::string &q ) : t( lexSql( q ) ), src( q ) {}
  [[noreturn]] void syn() { if ( t[p].t ) pgErr( "42601", "syntax error at or near \"" + t[p].s + "\"" ); pgErr( "42601", "syntax error at end of input" ); }
  bool is( const char *kw ) const { return t[p].t == 'I' && t[p].s == kw; }
  bool isAt( size_t k, const char *kw ) const { return p + k < t.size() && t[p + k].t == 'I' && t[p + k].s == kw; }
  bool op( const char *o ) const { return t[p].t == 'O' && t[p].s == o; }
  bool eat( const char *kw ) { if ( is( kw ) ) { ++p; return true; } return false; }
  bool eatOp( const char *o ) { if ( op( o ) ) { ++p; return true; } return false; }
  void need( const char *kw ) { if ( !eat( kw ) ) syn(); }
  void needOp( const char *o ) { if ( !eatOp( o ) ) syn(); }
  static bool reserved( const std::string &s )
  {
    static const std::set<std::string> r = { "select", "from", "where", "and", "or", "not", "null", "true", "false", "order", "group", "having", "limit", "offset", "union", "except", "intersect", "join", "left", "right", "inner", "outer", "full", "cross", "natural", "on", "using", "as", "in", "is", "like", "ilike", "between", "case", "when", "then", "else", "end", "distinct", "all", "any", "some", "create", "table", "primary", "unique", "references", "default", "check", "foreign", "constraint", "user", "into", "returning", "for", "desc", "asc", "both", "cast", "collate", "column", "to", "with", "window", "fetch", "array", "analyse", "analyze", "initially", "deferrable", "current_user", "current_date", "do", "grant", "only", "variadic", "lateral" };
    return r.count( s ) > 0;
  }
  bool isIdent() const { return t[p].t == 'Q' || ( t[p].t == 'I' && !reserved( t[p].s ) ); }
  std::string ident() { if ( !isIdent() ) syn(); return t[p++].s; }
  std::vector<std::string> qname() { std::vector<std::string> r; r.push_back( ident() ); while ( eatOp( "." ) ) { if ( t[p].t == 'Q' || t[p].t == 'I' ) r.push_back( t[p++].s ); else syn(); } return r; }
  static ExP ex( const std::string &op, std::vector<ExP> a = {} ) { auto e = std::make_shared<Ex>(); e->op = op; e->a = std::move( a ); return e; }
  static ExP lit( const PgVal &v ) { auto e = ex( "lit" ); e->lit = v; return e; }

  ExP expr() { ExP l = conj(); while ( eat( "or" ) ) l = ex( "or", { l, conj() } ); return l; }
  ExP conj() { ExP l = neg(); while ( eat( "and" ) ) l = ex( "and", { l, neg() } ); return l; }
  ExP neg() { if ( eat( "not" ) ) return ex( "not", { neg() } ); return isx(); }
  ExP isx()
  {
    ExP l = cmp();
    for ( ;; )
    {
      if ( eat( "isnull" ) ) { l = ex( "isnull", { l } ); continue; }
      if ( eat( "notnull" ) ) { l = ex( "not", { ex( "isnull", { l } ) } ); continue; }
      if ( !eat( "is" ) ) return l;
      bool n = eat( "not" );
      ExP r;
      if ( eat( "null" ) ) r = ex( "isnull", { l } );
      else if ( eat( "true" ) ) r = ex( "istrue", { l } );
      else if ( eat( "false" ) ) r = ex( "isfalse", { l } );
      else if ( eat( "unknown" ) ) r = ex( "isnull", { l } );
      else if ( eat( "distinct" ) ) { need( "from" ); r = ex( "distinct", { l, cmp() } ); }
      else syn();
      l = n ? ex( "not", { r } ) : r;
    }
  }
  ExP cmp()
  {
    ExP l = inl();
    static const char *ops[] = { "=", "<>", "!=", "<=", ">=", "<", ">" };
    for ( auto o : ops ) if ( op( o ) )
      {
        ++p;
        std::string nm = std::string( o ) == "!=" ? "<>" : o;
        if ( ( is( "any" ) || is( "some" ) || is( "all" ) ) )
        {
          bool all = is( "all" ); ++p;
          needOp( "(" );
          ExP r;
          if ( is( "select" ) ) { r = ex( all ? "allsub" : "anysub", { l } ); r->sub = select(); }
          else r = ex( all ? "allarr" : "anyarr", { l, expr() } );
          r->name.push_back( nm );
          needOp( ")" );
          return r;
        }
        return ex( nm, { l, inl() } );
      }
    return l;
  }
  ExP inl()
  {
    ExP l = cat();
    for ( ;; )
    {
      size_t save = p; bool n = eat( "not" );
      ExP r;
      if ( eat( "in" ) )
      {
        needOp( "(" );
        if ( is( "select" ) ) { r = ex( "anysub", { l } ); r->name.push_back( "=" ); r->sub = select(); }
        else { r = ex( "inlist", { l } ); do r->a.push_back( expr() ); while ( eatOp( "," ) ); }
        needOp( ")" );
      }
      else if ( eat( "between" ) ) { ExP a = cat(); need( "and" ); ExP b = cat(); r = ex( "and", { ex( ">=", { l, a } ), ex( "<=", { l, b } ) } ); }
      else if ( is( "like" ) || is( "ilike" ) ) { bool i = is( "ilike" ); ++p; r = ex( i ? "ilike" : "like", { l, cat() } ); if ( eat( "escape" ) ) { ++p; } }
      else { p = save; return l; }
      l = n ? ex( "not", { r } ) : r;
    }
  }
  ExP cat() { ExP l = add(); for ( ;; ) { if ( eatOp( "||" ) ) l = ex( "||", { l, add() } ); else return l; } }
  ExP add() { ExP l = mul(); for ( ;; ) { if ( eatOp( "+" ) ) l = ex( "+", { l, mul() } ); else if ( eatOp( "-" ) ) l = ex( "-", { l, mul() } ); else return l; } }
  ExP mul() { ExP l = una(); for ( ;; ) { if ( eatOp( "*" ) ) l = ex( "*", { l, una() } ); else if ( eatOp( "/" ) ) l = ex( "/", { l, una() } ); else if ( eatOp( "%" ) ) l = ex( "%", { l, una() } ); else return l; } }
  ExP una() { if ( eatOp( "-" ) ) { return ex( "neg", { una() } ); } if ( eatOp( "+" ) ) return una(); return cast(); }
  std::string typeName( ColDef *cd = nullptr )
  {
    std::string w;
    if ( t[p].t == 'Q' ) { w = t[p++].s; if ( w == "char" ) w = "\"char\""; }
    else if ( t[p].t == 'I' ) w = t[p++].s;
    else syn();
    while ( op( "." ) ) { ++p; w = t[p++].s; }
    if ( w == "double" ) { need( "precision" ); w = "double precision"; }
    if ( w == "character" && is( "varying" ) ) { ++p; w = "character varying"; }
    if ( w == "int" || w == "int4" ) w = "integer";
    else if ( w == "int8" ) w = "bigint"; else if ( w == "int2" ) w = "smallint";
    else if ( w == "float8" || w == "float" ) w = "double precision"; else if ( w == "float4" ) w = "real";
    else if ( w == "bool" ) w = "boolean"; else if ( w == "varchar" ) w = "character varying"; else if ( w == "char" ) w = "character"; else if ( w == "decimal" ) w = "numeric";
    else if ( w == "timestamptz" ) w = "timestamp with time zone";
    std::vector<std::string> args;
    if ( eatOp( "(" ) )
    {
      do { std::string x; if ( eatOp( "-" ) ) x = "-"; if ( t[p].t == 'I' || t[p].t == 'N' || t[p].t == 'Q' ) args.push_back( x + t[p++].s ); else syn(); } while ( eatOp( "," ) );
      needOp( ")" );
    }
    if ( w == "timestamp" || w == "time" )
    {
      bool tz = false;
      if ( eat( "with" ) ) { need( "time" ); need( "zone" ); tz = true; } else if ( eat( "without" ) ) { need( "time" ); need( "zone" ); }
      w += args.empty() ? "" : "(" + args[0] + ")"; args.clear();
      w += tz ? " with time zone" : " without time zone";
    }
    while ( op( "[" ) ) { ++p; needOp( "]" ); w += "[]"; }
    static const std::set<std::string> known = { "integer", "bigint", "smallint", "double precision", "real", "boolean", "text", "character varying", "character", "numeric", "date", "bytea", "citext", "uuid", "json", "jsonb", "xml", "name", "regclass", "oid", "\"char\"", "geometry", "serial", "bigserial", "smallserial", "interval", "text[]", "integer[]" };
    if ( w.compare( 0, 4, "time" ) && !known.count( w ) ) pgErr( "42704", "type \"" + w + "\" does not exist" );
    if ( cd && ( w == "serial" || w == "bigserial" || w == "smallserial" ) ) { cd->serial = true; return w == "serial" ? "integer" : w == "bigserial" ? "bigint" : "smallint"; }
    if ( w == "geometry" && !args.empty() )
    {
      static const char *n[] = { "Geometry", "Point", "LineString", "Polygon", "MultiPoint", "MultiLineString", "MultiPolygon", "GeometryCollection" };
      static const char *dm[] = { "", "Z", "M", "ZM" };
      std::string u = upper( args[0] ), nice;
      for ( auto x : n ) for ( auto d : dm ) if ( u == upper( x ) + d ) nice = std::string( x ) + d;
      if ( nice.empty() ) pgErr( "22023", "Invalid geometry type modifier: " + args[0] );
      int srid = args.size() > 1 ? atoi( args[1].c_str() ) : 0;
      if ( srid < 0 ) srid = 0;
      if ( cd ) { cd->geomType = u; cd->srid = srid; }
      return srid ? strf( "geometry(%s,%d)", nice.c_str(), srid ) : "geometry(" + nice + ")";
    }
    if ( !args.empty() ) { w += "("; for ( size_t i = 0; i < args.size(); ++i ) w += ( i ? "," : "" ) + args[i]; w += ")"; }
    return w;
  }
  ExP cast() { ExP l = prim(); while ( eatOp( "::" ) ) { l = ex( "cast", { l } ); l->name.push_back( typeName() ); } return l; }
  ExP prim()
  {
    Tok &k = t[p];
    if ( k.t == 'S' ) { ++p; PgVal v; v.k = 'U'; v.s = k.s; return lit( v ); }
    if ( k.t == 'N' )
    {
      ++p; PgVal v;
      if ( k.s.find_first_of( ".eE" ) == std::string::npos && k.s.size() < 19 ) { v.k = 'i'; v.i = strtoll( k.s.c_str(), nullptr, 10 ); }
      else { v.k = 'n'; v.d = strtod( k.s.c_str(), nullptr ); if ( k.s.size() == 19 && k.s <= "9223372036854775807" && k.s.find_first_of( ".eE" ) == std::string::npos ) { v.k = 'i'; v.i = strtoll( k.s.c_str(), nullptr, 10 ); } }
      return lit( v );
    }
    if ( op( "(" ) )
    {
      ++p;
      if ( is( "select" ) ) { ExP e = ex( "scalar" ); e->sub = select(); needOp( ")" ); return e; }
      ExP e = expr();
      if ( op( "," ) ) { ExP r = ex( "row", { e } ); while ( eatOp( "," ) ) r->a.push_back( expr() ); e = r; }
      needOp( ")" );
      return e;
    }
    if ( is( "null" ) ) { ++p; return lit( mk( 'N' ) ); }
    if ( is( "true" ) ) { ++p; return lit( mkB( true ) ); }
    if ( is( "false" ) ) { ++p; return lit( mkB( false ) ); }
    if ( is( "exists" ) && t[p + 1].t == 'O' && t[p + 1].s == "(" ) { p += 2; ExP e = ex( "exists" ); e->sub = select(); needOp( ")" ); return e; }
    if ( is( "row" ) && t[p + 1].t == 'O' && t[p + 1].s == "(" ) { p += 2; ExP r = ex( "row" ); do r->a.push_back( expr() ); while ( eatOp( "," ) ); needOp( ")" ); return r; }
    if ( is( "cast" ) ) { ++p; needOp( "(" ); ExP e = ex( "cast", { expr() } ); need( "as" ); e->name.push_back( typeName() ); needOp( ")" ); return e; }
    if ( is( "case" ) )
    {
      ++p; ExP e = ex( "case" ); ExP base; if ( !is( "when" ) ) base = expr();
      while ( eat( "when" ) ) { ExP c = expr(); if ( base ) c = ex( "=", { base, c } ); need( "then" ); e->a.push_back( c ); e->a.push_back( expr() ); }
      if ( eat( "else" ) ) e->a.push_back( expr() );
      need( "end" );
      return e;
    }
    if ( k.t == 'I' && t[p + 1].t == 'S' && ( k.s == "timestamp" || k.s == "date" || k.s == "bytea" ) ) { ExP e = ex( "cast" ); e->name.push_back( k.s == "timestamp" ? "timestamp without time zone" : k.s ); ++p; e->a.push_back( prim() ); return e; }
    if ( isIdent() || ( k.t == 'I' && ( k.s == "left" || k.s == "right" ) && t[p + 1].t == 'O' && t[p + 1].s == "(" ) )
    {
      std::vector<std::string> n;
      if ( isIdent() ) n = qname(); else n.push_back( t[p++].s );
      if ( eatOp( "(" ) )
      {
        ExP e = ex( "fn" ); e->name.push_back( n.back() );
        if ( eatOp( "*" ) ) { e->neg = true; }
        else if ( !op( ")" ) ) { eat( "distinct" ); do e->a.push_back( expr() ); while ( eatOp( "," ) ); }
        needOp( ")" );
        return e;
      }
      ExP e = ex( "col" ); e->name = n; return e;
    }
    syn();
  }
  SelP select()
  {
    need( "select" );
    auto s = std::make_shared<Select>();
    if ( eat( "distinct" ) ) s->distinct = true; else eat( "all" );
    auto ends = [&]() { return !t[p].t || op( ")" ) || op( ";" ) || is( "from" ) || is( "where" ) || is( "order" ) || is( "limit" ) || is( "union" ) || is( "except" ) || is( "intersect" ); };
    if ( !ends() )
      do
      {
        Item it;
        if ( eatOp( "*" ) ) it.star = true;
        else if ( ( t[p].t == 'I' || t[p].t == 'Q' ) && t[p + 1].t == 'O' && t[p + 1].s == "." && t[p + 2].t == 'O' && t[p + 2].s == "*" ) { it.star = true; it.starOf = t[p].s; p += 3; }
        else { it.e = expr(); if ( eat( "as" ) ) { it.alias = t[p++].s; } else if ( isIdent() ) it.alias = ident(); }
        s->items.push_back( it );
      }
      while ( eatOp( "," ) );
    if ( eat( "from" ) )
    {
      s->from.push_back( fromItem() );
      for ( ;; )
      {
        if ( eatOp( "," ) ) { s->from.push_back( fromItem() ); continue; }
        int j = 0;
        if ( is( "join" ) ) { ++p; j = 1; }
        else if ( is( "inner" ) ) { ++p; need( "join" ); j = 1; }
        else if ( is( "cross" ) ) { ++p; need( "join" ); s->from.push_back( fromItem() ); continue; }
        else if ( is( "left" ) ) { ++p; eat( "outer" ); need( "join" ); j = 2; }
        else break;
        From f = fromItem(); f.join = j;
        need( "on" ); f.on = expr();
        s->from.push_back( f );
      }
    }
    if ( eat( "where" ) ) s->where = expr();
    if ( eat( "group" ) ) { need( "by" ); do s->group.push_back( expr() ); while ( eatOp( "," ) ); }
    if ( eat( "having" ) ) s->having = expr();
    if ( is( "except" ) || is( "union" ) || is( "intersect" ) ) { s->setop = is( "union" ) ? 1 : is( "except" ) ? 2 : 3; ++p; if ( eat( "all" ) ) s->setAll = true; s->next = select(); return s; }
    if ( eat( "order" ) ) { need( "by" ); do { ExP e = expr(); bool d = false; if ( eat( "desc" ) ) d = true; else eat( "asc" ); if ( eat( "nulls" ) ) ++p; s->order.push_back( { e, d } ); } while ( eatOp( "," ) ); }
    if ( eat( "limit" ) ) s->limit = expr();
    if ( eat( "offset" ) ) s->offset = expr();
    if ( eat( "for" ) ) { while ( t[p].t == 'I' || t[p].t == 'Q' ) ++p; }
    return s;
  }
  From fromItem()
  {
    From f; eat( "only" ); eat( "lateral" );
    if ( eatOp( "(" ) ) { f.sub = select(); needOp( ")" ); }
    else f.name = qname();
    if ( eat( "as" ) ) f.alias = ident(); else if ( isIdent() ) f.alias = ident();
    return f;
  }
  Stmt stmt()
  {
    Stmt s;
    if ( is( "select" ) ) { s.k = Stmt::SELECT; s.sel = select(); }
    else if ( eat( "insert" ) )
    {
      s.k = Stmt::INSERT; need( "into" ); s.target = qname();
      if ( eatOp( "(" ) ) { do s.cols.push_back( ident() ); while ( eatOp( "," ) ); needOp( ")" ); }
      if ( eat( "overriding" ) ) { p += 2; }
      if ( is( "default" ) ) { ++p; need( "values" ); s.values.push_back( {} ); s.cols.clear(); s.ifExists = true; }
      else if ( is( "select" ) ) s.sel = select();
      else
      {
        need( "values" );
        do
        {
          needOp( "(" ); std::vector<ExP> v;
          do { if ( eat( "default" ) ) v.push_back( ex( "default" ) ); else v.push_back( expr() ); } while ( eatOp( "," ) );
          needOp( ")" ); s.values.push_back( v );
        }
        while ( eatOp( "," ) );
      }
      if ( eat( "on" ) ) { if ( t[p].s != "conflict" ) syn(); ++p; if ( eatOp( "(" ) ) { do ident(); while ( eatOp( "," ) ); needOp( ")" ); } need( "do" ); if ( t[p].s != "nothing" ) syn(); ++p; s.onConflictNothing = true; }
      returning( s );
    }
    else if ( eat( "update" ) )
    {
      s.k = Stmt::UPDATE; eat( "only" ); s.target = qname(); if ( eat( "as" ) ) s.alias = ident(); else if ( isIdent() && t[p].s != "set" ) s.alias = ident();
      if ( t[p].s != "set" ) syn();
      ++p;
      do { std::string c = ident(); needOp( "=" ); s.sets.push_back( { c, eat( "default" ) ? ex( "default" ) : expr() } ); } while ( eatOp( "," ) );
      if ( eat( "where" ) ) s.where = expr();
      returning( s );
    }
    else if ( eat( "delete" ) ) { s.k = Stmt::DELETE; need( "from" ); eat( "only" ); s.target = qname(); if ( eat( "as" ) ) s.alias = ident(); else if ( isIdent() ) s.alias = ident(); if ( eat( "where" ) ) s.where = expr(); returning( s ); }
    else if ( eat( "truncate" ) ) { s.k = Stmt::DELETE; eat( "table" ); s.target = qname(); }
    else if ( is( "begin" ) || is( "start" ) )
    {
      bool st = is( "start" ); ++p; s.k = Stmt::BEGIN; if ( st || is( "transaction" ) || is( "work" ) ) ++p;
      while ( t[p].t == 'I' || op( "," ) ) { if ( is( "repeatable" ) || is( "serializable" ) ) s.repeatable = true; ++p; }
    }
    else if ( is( "commit" ) || is( "end" ) ) { ++p; s.k = Stmt::COMMIT; if ( is( "transaction" ) || is( "work" ) ) ++p; }
    else if ( is( "rollback" ) || is( "abort" ) ) { ++p; s.k = Stmt::ROLLBACK; if ( is( "transaction" ) || is( "work" ) ) ++p; }
    else if ( is( "set" ) || is( "lock" ) || is( "analyze" ) || is( "comment" ) ) { ++p; s.k = Stmt::SETVAR; while ( t[p].t && !op( ";" ) ) ++p; }
    else if ( eat( "create" ) )
    {
      if ( is( "schema" ) ) { ++p; s.k = Stmt::CREATE_SCHEMA; s.ifExists = ifNot(); s.name = ident(); }
      else if ( is( "unique" ) || is( "index" ) )
      {
        s.k = Stmt::INDEX; s.unique = eat( "unique" ); need( "index" ); ifNot();
        if ( !is( "on" ) ) s.name = ident();
        need( "on" ); s.target = qname(); if ( eat( "using" ) ) ident();
        needOp( "(" ); do s.cols.push_back( ident() ); while ( eatOp( "," ) ); needOp( ")" );
      }
      else if ( eat( "table" ) )
      {
        s.k = Stmt::CREATE_TABLE; s.ifExists = ifNot(); s.target = qname(); needOp( "(" );
        do
        {
          if ( is( "primary" ) || is( "unique" ) || is( "constraint" ) || is( "foreign" ) )
          {
            if ( eat( "constraint" ) ) ident();
            bool pk = is( "primary" ); if ( is( "foreign" ) ) pgErr( "0A000", "no foreign keys here" );
            ++p; if ( pk ) need( "key" );
            std::vector<std::string> c; needOp( "(" ); do c.push_back( ident() ); while ( eatOp( "," ) ); needOp( ")" );
            if ( pk ) { if ( !s.pk.empty() ) pgErr( "42P16", "multiple primary keys are not allowed" ); s.pk = c; } else pgErr( "0A000", "no table unique constraints here" );
            continue;
          }
          ColDef c; c.name = ident(); c.type = typeName( &c );
          for ( ;; )
          {
            if ( is( "not" ) ) { ++p; need( "null" ); c.notnull = true; }
            else if ( eat( "null" ) ) {}
            else if ( is( "primary" ) ) { ++p; need( "key" ); c.pk = true; s.pk.push_back( c.name ); }
            else if ( eat( "unique" ) ) c.unique = true;
            else if ( eat( "default" ) ) c.def = cat();
            else break;
          }
          s.defs.push_back( c );
        }
        while ( eatOp( "," ) );
        needOp( ")" );
      }
      else syn();
    }
    else if ( eat( "drop" ) )
    {
      if ( is( "schema" ) ) { ++p; s.k = Stmt::DROP_SCHEMA; } else if ( eat( "table" ) ) s.k = Stmt::DROP_TABLE; else syn();
      if ( is( "if" ) ) { ++p; if ( t[p].s != "exists" ) syn(); ++p; s.ifExists = true; }
      if ( s.k == Stmt::DROP_SCHEMA ) s.name = ident(); else s.target = qname();
      if ( is( "cascade" ) ) { ++p; s.cascade = true; } else if ( is( "restrict" ) ) ++p;
    }
    else syn();
    if ( t[p].t && !op( ";" ) ) syn();
    return s;
  }
  void returning( Stmt &s )
  {
    if ( !eat( "returning" ) ) return;
    do { Item it; if ( eatOp( "*" ) ) it.star = true; else { it.e = expr(); if ( eat( "as" ) ) ident(); } s.returning.push_back( it ); } while ( eatOp( "," ) );
  }
  bool ifNot() { if ( is( "if" ) ) { ++p; need( "not" ); if ( t[p].s != "exists" ) syn(); ++p; return true; } return false; }
  std::vector<Stmt> all()
  {
    std::vector<Stmt> r;
    while ( t[p].t ) { if ( eatOp( ";" ) ) continue; r.push_back( stmt() ); }
    return r;
  }
};

// ------------------------------------------------------------------ connections
struct Written { bool del = false; PgRow row; uint64_t baseVersion = 0; bool isNew = false; };
typedef std::pair<std::string, std::string> TabKey;
struct Tx
{
  bool open = false, aborted = false, repeatable = false, snapped = false, ddl = false, implicitTx = false;
  PgDb work;
  std::map<TabKey, std::map<uint64_t, Written>> writes;
  void clear() { *this = Tx(); }
};
}
struct pg_conn
{
  ConnStatusType status = CONNECTION_BAD;
  std::string err;
  sim::Tx tx;
  sim::Proc *proc = nullptr;
  bool harness = false;
  int epoch = 0;
  pg_conn *waitsFor = nullptr;
};
struct pg_result
{
  ExecStatusType status = PGRES_COMMAND_OK;
  std::string err, state, tuples, tag;
  std::vector<std::vector<std::pair<bool, std::string>>> rows;     // null?, text
  size_t fields = 0;
};
namespace sim {
static std::vector<pg_conn *> g_conns;
static int g_pgEpoch = 1;        // a server crash or restore ends every connection
static pg_conn *g_self = nullptr;

static std::string quoteId( const std::string &s )
{
  bool plain = !s.empty() && ( islower( ( unsigned char )s[0] ) || s[0] == '_' ) && !Parser::reserved( s );
  for ( unsigned char c : s ) if ( !( islower( c ) || isdigit( c ) || c == '_' ) ) plain = false;
  if ( plain ) return s;
  std::string r = "\""; for ( char c : s ) { if ( c == '"' ) r += '"'; r += c; } return r + "\"";
}
std::string pgLit( const std::string &s ) { std::string r = "'"; for ( char c : s ) { if ( c == '\'' ) r += '\''; r += c; } return r + "'"; }

// ------------------------------------------------------------------ relations
struct Rel { std::vector<std::string> cols; std::vector<PgRow> rows; };
struct Scope { std::string alias, table, schema; const Rel *rel = nullptr; const PgRow *row = nullptr; };
struct Env { std::vector<Scope> s; const Env *up = nullptr; };
typedef std::vector<const PgRow *> AggRows;

static PgTable *findTable( PgDb &db, const std::vector<std::string> &n, bool must = true, std::string *schema = nullptr )
{
  std::string sc = n.size() > 1 ? n[n.size() - 2] : "public", t = n.back();
  auto s = db.schemas.find( sc );
  if ( s == db.schemas.end() ) { if ( must ) pgErr( n.size() > 1 ? "3F000" : "42P01", n.size() > 1 ? "schema \"" + sc + "\" does not exist" : "relation \"" + t + "\" does not exist" ); return nullptr; }
  auto k = s->second.tables.find( t );
  if ( k == s->second.tables.end() ) { if ( must ) pgErr( "42P01", "relation \"" + ( n.size() > 1 ? sc + "." : "" ) + t + "\" does not exist" ); return nullptr; }
  if ( schema ) *schema = sc;
  return &k->second;
}
static PgSeq *findSeq( PgDb &db, const std::vector<std::string> &n )
{
  std::string sc = n.size() > 1 ? n[n.size() - 2] : "public";
  auto s = db.schemas.find( sc ); if ( s == db.schemas.end() ) return nullptr;
  auto k = s->second.seqs.find( n.back() ); return k == s->second.seqs.end() ? nullptr : &k->second;
}
// 'schema."Name"' as regclass and pg_get_serial_sequence take it
static std::vector<std::string> parseRegName( const std::string &s )
{
  std::vector<Tok> t = lexSql( s ); std::vector<std::string> r;
  for ( size_t i = 0; t[i].t; ++i ) { if ( t[i].t == 'O' && t[i].s == "." ) continue; if ( t[i].t != 'I' && t[i].t != 'Q' ) pgErr( "42602", "invalid name syntax" ); r.push_back( t[i].s ); }
  if ( r.empty() ) pgErr( "42602", "invalid name syntax" );
  return r;
}
static void ordered( std::vector<std::pair<uint64_t, PgRow>> &v )
{
  if ( g_pgOrder == 1 ) std::reverse( v.begin(), v.end() );
  else if ( g_pgOrder == 2 ) std::stable_sort( v.begin(), v.end(), []( const std::pair<uint64_t, PgRow> &a, const std::pair<uint64_t, PgRow> &b ) { return mix64( a.first ) < mix64( b.first ); } );
}
static Rel relTable( const PgTable &t )
{
  Rel r; std::vector<int> live;
  for ( size_t i = 0; i < t.cols.size(); ++i ) if ( !t.cols[i].dropped ) { r.cols.push_back( t.cols[i].name ); live.push_back( ( int )i ); }
  std::vector<std::pair<uint64_t, PgRow>> v( t.rows.begin(), t.rows.end() );
  ordered( v );
  for ( auto &x : v ) { PgRow o; for ( int i : live ) o.push_back( x.second[i] ); r.rows.push_back( o ); }
  return r;
}
static std::string regclassOut( const std::string &schema, const std::string &n ) { return ( schema == "public" ? "" : quoteId( schema ) + "." ) + quoteId( n ); }
static std::string seqDefault( const std::string &schema, const std::string &seq )
{
  std::string n = regclassOut( schema, seq ), q;
  for ( char c : n ) { if ( c == '\'' ) q += '\''; q += c; }
  return "nextval('" + q + "'::regclass)";
}
static bool relCatalog( PgDb &db, const std::vector<std::string> &n, Rel &r )
{
  if ( n.size() > 1 && n[n.size() - 2] != "pg_catalog" && n[n.size() - 2] != "public" && n[n.size() - 2] != "information_schema" ) return false;
  const std::string &t = n.back();
  auto shuffle = [&]() { std::vector<std::pair<uint64_t, PgRow>> v; for ( size_t i = 0; i < r.rows.size(); ++i ) v.push_back( { i + 1, r.rows[i] } ); ordered( v ); for ( size_t i = 0; i < v.size(); ++i ) r.rows[i] = v[i].second; };
  if ( t == "pg_namespace" ) { r.cols = { "oid", "nspname" }; for ( auto &s : db.schemas ) r.rows.push_back( { mkI( s.second.oid ), mkT( s.first ) } ); shuffle(); return true; }
  if ( t == "schemata" ) { r.cols = { "catalog_name", "schema_name" }; for ( auto &s : db.schemas ) r.rows.push_back( { mkT( "postgres" ), mkT( s.first ) } ); shuffle(); return true; }
  if ( t == "pg_tables" ) { r.cols = { "schemaname", "tablename", "tableowner" }; for ( auto &s : db.schemas ) for ( auto &k : s.second.tables ) r.rows.push_back( { mkT( s.first ), mkT( k.first ), mkT( "postgres" ) } ); shuffle(); return true; }
  if ( t == "tables" && n.size() > 1 ) { r.cols = { "table_catalog", "table_schema", "table_name", "table_type" }; for ( auto &s : db.schemas ) for ( auto &k : s.second.tables ) r.rows.push_back( { mkT( "postgres" ), mkT( s.first ), mkT( k.first ), mkT( "BASE TABLE" ) } ); shuffle(); return true; }
  if ( t == "pg_class" ) { r.cols = { "oid", "relname", "relnamespace", "relkind" }; for ( auto &s : db.schemas ) { for ( auto &k : s.second.tables ) r.rows.push_back( { mkI( k.second.oid ), mkT( k.first ), mkI( s.second.oid ), mkT( "r" ) } ); for ( auto &k : s.second.seqs ) r.rows.push_back( { mkI( 1000000 + k.second.id ), mkT( k.first ), mkI( s.second.oid ), mkT( "S" ) } ); } shuffle(); return true; }
  if ( t == "pg_attribute" )
  {
    r.cols = { "attrelid", "attname", "atttypid", "atttypmod", "attnum", "attisdropped", "attnotnull", "atthasdef", "attidentity", "attgenerated" };
    for ( auto &s : db.schemas ) for ( auto &k : s.second.tables )
      {
        int i = 0;
        for ( auto &c : k.second.cols )
        {
          ++i;
          r.rows.push_back( { mkI( k.second.oid ), mkT( c.dropped ? strf( "........pg.dropped.%d........", i ) : c.name ), mkT( c.dropped ? "-" : c.type ), mkI( -1 ), mkI( i ), mkB( c.dropped ), mkB( c.notnull && !c.dropped ), mkB( !c.seq.empty() || !c.def.empty() ), mkT( "" ), mkT( "" ) } );
        }
        static const char *sys[] = { "ctid", "xmin", "cmin", "xmax", "cmax", "tableoid" };
        for ( int q = 0; q < 6; ++q ) r.rows.push_back( { mkI( k.second.oid ), mkT( sys[q] ), mkT( "oid" ), mkI( -1 ), mkI( -1 - q ), mkB( false ), mkB( true ), mkB( false ), mkT( "" ), mkT( "" ) } );
      }
    shuffle();
    return true;
  }
  if ( t == "pg_index" )
  {
    r.cols = { "indexrelid", "indrelid", "indkey", "indisprimary", "indisunique" };
    for ( auto &s : db.schemas ) for ( auto &k : s.second.tables )
      {
        std::string key; std::vector<std::pair<int, int>> o;
        for ( size_t i = 0; i < k.second.cols.size(); ++i ) if ( k.second.cols[i].pk && !k.second.cols[i].dropped ) o.push_back( { k.second.cols[i].pk, ( int )i + 1 } );
        std::sort( o.begin(), o.end() );
        for ( auto &x : o ) key += ( key.empty() ? "" : " " ) + std::to_string( x.second );
        PgVal a; a.k = 'a'; a.s = key;
        if ( !o.empty() ) r.rows.push_back( { mkI( 2000000 + k.second.oid ), mkI( k.second.oid ), a, mkB( true ), mkB( true ) } );
        int q = 0;
        for ( auto &ix : k.second.indexes ) { a.s.clear(); for ( int c : ix.cols ) a.s += ( a.s.empty() ? "" : " " ) + std::to_string( c + 1 ); r.rows.push_back( { mkI( 3000000 + k.second.oid * 10 + q++ ), mkI( k.second.oid ), a, mkB( false ), mkB( ix.unique ) } ); }
      }
    shuffle();
    return true;
  }
  if ( t == "pg_attrdef" )
  {
    r.cols = { "oid", "adrelid", "adnum", "adbin" };
    for ( auto &s : db.schemas ) for ( auto &k : s.second.tables )
      { int i = 0; for ( auto &c : k.second.cols ) { ++i; if ( c.dropped ) continue; if ( !c.seq.empty() ) r.rows.push_back( { mkI( i ), mkI( k.second.oid ), mkI( i ), mkT( seqDefault( s.first, c.seq ) ) } ); else if ( !c.def.empty() ) r.rows.push_back( { mkI( i ), mkI( k.second.oid ), mkI( i ), mkT( c.def ) } ); } }
    shuffle();
    return true;
  }
  if ( t == "geometry_columns" )
  {
    r.cols = { "f_table_catalog", "f_table_schema", "f_table_name", "f_geometry_column", "coord_dimension", "srid", "type" };
    for ( auto &s : db.schemas ) for ( auto &k : s.second.tables ) for ( auto &c : k.second.cols )
          if ( !c.dropped && kindOf( c.type ) == 'g' )
          {
            std::string ty = c.geomType.empty() ? "GEOMETRY" : c.geomType;
            int dim = 2;
            if ( ty.size() > 2 && ty.compare( ty.size() - 2, 2, "ZM" ) == 0 ) { dim = 4; ty.resize( ty.size() - 2 ); }
            else if ( ty.back() == 'Z' ) { dim = 3; ty.pop_back(); }
            else if ( ty.back() == 'M' ) dim = 3;
            r.rows.push_back( { mkT( "postgres" ), mkT( s.first ), mkT( k.first ), mkT( c.name ), mkI( dim ), mkI( std::max( 0, c.srid ) ), mkT( ty ) } );
          }
    shuffle();
    return true;
  }
  if ( t == "spatial_ref_sys" )
  {
    r.cols = { "srid", "auth_name", "auth_srid", "srtext", "proj4text" };
    r.rows.push_back( { mkI( 4326 ), mkT( "EPSG" ), mkI( 4326 ), mkT( "GEOGCS[\"WGS 84\",DATUM[\"WGS_1984\",SPHEROID[\"WGS 84\",6378137,298.257223563]]]" ), mkT( "+proj=longlat" ) } );
    r.rows.push_back( { mkI( 3857 ), mkT( "EPSG" ), mkI( 3857 ), mkT( "PROJCS[\"WGS 84 / Pseudo-Mercator\"]" ), mkT( "+proj=merc" ) } );
    r.rows.push_back( { mkI( 5514 ), mkT( "EPSG" ), mkI( 5514 ), mkT( "PROJCS[\"S-JTSK / Krovak's East North\"]" ), mkT( "+proj=krovak" ) } );
    r.rows.push_back( { mkI( 102067 ), mkT( "ESRI" ), mkI( 102067 ), mkT( "PROJCS[\"S-JTSK_Krovak_East_North\"]" ), mkT( "+proj=krovak" ) } );
    shuffle();
    return true;
  }
  return false;
}

// ------------------------------------------------------------------ evaluation
static Rel runSelect( PgDb &db, const Select &s, const Env *up );
static PgVal eval( PgDb &db, const ExP &e, const Env &env, const std::vector<Env> *group = nullptr );
static const PgVal *lookup( const std::vector<std::string> &n, const Env &env )
{
  for ( const Env *e = &env; e; e = e->up )
  {
    const PgVal *hit = nullptr;
    for ( auto &s : e->s )
    {
      if ( n.size() > 1 && s.alias != n[n.size() - 2] ) continue;
      if ( n.size() > 2 && s.schema != n[n.size() - 3] ) continue;
      for ( size_t i = 0; i < s.rel->cols.size(); ++i ) if ( s.rel->cols[i] == n.back() )
        {
          if ( hit ) pgErr( "42702", "column reference \"" + n.back() + "\" is ambiguous" );
          hit = &( *s.row )[i];
        }
    }
    if ( hit ) return hit;
  }
  if ( n.size() > 1 )
  {
    for ( const Env *e = &env; e; e = e->up ) for ( auto &s : e->s ) if ( s.alias == n[n.size() - 2] && ( n.size() < 3 || s.schema == n[n.size() - 3] ) ) pgErr( "42703", "column \"" + n[n.size() - 2] + "." + n.back() + "\" does not exist" );
    pgErr( "42P01", "missing FROM-clause entry for table \"" + n[n.size() - 2] + "\"" );
  }
  pgErr( "42703", "column \"" + n.back() + "\" does not exist" );
}
static PgVal castTo( const PgVal &v, const std::string &type, PgDb &db )
{
  if ( v.k == 'N' ) return v;
  if ( type == "regclass" )
  {
    std::string out;
    if ( v.k == 'i' )
    {
      for ( auto &s : db.schemas ) { for ( auto &t : s.second.tables ) if ( t.second.oid == v.i ) return mkT( regclassOut( s.first, t.first ) ); for ( auto &q : s.second.seqs ) if ( 1000000 + q.second.id == v.i ) return mkT( regclassOut( s.first, q.first ) ); }
      return mkT( std::to_string( v.i ) );
    }
    auto n = parseRegName( v.s );
    if ( !findTable( db, n, false ) && !findSeq( db, n ) ) pgErr( "42P01", "relation \"" + v.s + "\" does not exist" );
    return mkT( regclassOut( n.size() > 1 ? n[n.size() - 2] : "public", n.back() ) );
  }
  char k = kindOf( type );
  if ( v.k == 'U' ) return fromText( v.s, k );
  if ( v.k == k ) return v;
  if ( k == 'i' && v.k == 'b' ) return mkI( v.i );
  if ( k == 'b' && v.k == 'i' ) return mkB( v.i != 0 );
  if ( ( v.k == 't' || v.k == 'c' ) && k != 'g' ) return fromText( v.s, k );
  if ( k == 't' && v.k == 'b' ) return mkT( v.i ? "true" : "false" );
  if ( k == 't' || k == 'c' || k == 'o' ) { PgVal r = mkT( pgOut( v ) ); r.k = k; return r; }
  if ( k == 'y' && v.k == 'g' ) { bool ok; PgVal r = mk( 'y' ); r.s = unhex( pgOut( v ), ok ); return r; }
  PgCol c; c.type = type; c.name = "?"; return assign( v, c );
}
static std::string textOf( const PgVal &v ) { if ( v.k == 'b' ) return v.i ? "true" : "false"; return pgOut( v ); }
static bool likeMatch( const char *s, const char *p, bool ci )
{
  for ( ; *p; ++p, ++s )
  {
    if ( *p == '%' ) { while ( *p == '%' ) ++p; if ( !*p ) return true; for ( ; *s; ++s ) if ( likeMatch( s, p, ci ) ) return true; return likeMatch( s, p, ci ); }
    if ( !*s ) return false;
    if ( *p == '_' ) { while ( ( ( unsigned char )s[1] & 0xc0 ) == 0x80 ) ++s; continue; }
    if ( *p == '\\' && p[1] ) ++p;
    char a = *s, b = *p; if ( ci ) { a = tolower( a ); b = tolower( b ); }
    if ( a != b ) return false;
  }
  return !*s;
}
static std::string toChar( const PgVal &v, const std::string &f )
{
  TsParts p = tsParts( v.i );
  std::string r;
  for ( size_t i = 0; i < f.size(); )
  {
    if ( f[i] == '"' ) { ++i; while ( i < f.size() && f[i] != '"' ) { if ( f[i] == '\\' && i + 1 < f.size() ) ++i; r += f[i++]; } ++i; continue; }
    std::string u = upper( f.substr( i, 4 ) );
    if ( u.compare( 0, 4, "YYYY" ) == 0 ) { r += strf( "%04lld", ( long long )p.y ); i += 4; }
    else if ( u.compare( 0, 4, "HH24" ) == 0 ) { r += strf( "%02d", p.h ); i += 4; }
    else if ( u.compare( 0, 4, "HH12" ) == 0 ) { r += strf( "%02d", p.h % 12 ? p.h % 12 : 12 ); i += 4; }
    else if ( u.compare( 0, 2, "HH" ) == 0 ) { r += strf( "%02d", p.h % 12 ? p.h % 12 : 12 ); i += 2; }
    else if ( u.compare( 0, 2, "YY" ) == 0 ) { r += strf( "%02d", ( int )( p.y % 100 ) ); i += 2; }
    else if ( u.compare( 0, 2, "MM" ) == 0 ) { r += strf( "%02d", p.mo ); i += 2; }
    else if ( u.compare( 0, 2, "MI" ) == 0 ) { r += strf( "%02d", p.mi ); i += 2; }
    else if ( u.compare( 0, 2, "MS" ) == 0 ) { r += strf( "%03d", p.us / 1000 ); i += 2; }
    else if ( u.compare( 0, 2, "US" ) == 0 ) { r += strf( "%06d", p.us ); i += 2; }
    else if ( u.compare( 0, 2, "DD" ) == 0 ) { r += strf( "%02d", p.d ); i += 2; }
    else if ( u.compare( 0, 2, "SS" ) == 0 ) { r += strf( "%02d", p.s ); i += 2; }
    else r += f[i++];
  }
  return r;
}
static bool isAgg( const std::string &n ) { return n == "count" || n == "max" || n == "min" || n == "sum" || n == "bool_or" || n == "bool_and"; }
static bool hasAgg( const ExP &e )
{
  if ( !e ) return false;
  if ( e->op == "fn" && isAgg( e->name[0] ) ) return true;
  for ( auto &a : e->a ) if ( hasAgg( a ) ) return true;
  return false;
}
static PgVal fnCall( PgDb &db, const ExP &e, const Env &env, const std::vector<Env> *group )
{
  const std::string &n = e->name[0];
  if ( isAgg( n ) )
  {
    if ( !group ) pgErr( "42803", "aggregate functions are not allowed here" );
    int64_t cnt = 0; PgVal best; int64_t si = 0; double sd = 0;
    for ( auto &g : *group )
    {
      if ( e->neg ) { ++cnt; continue; }
      PgVal v = eval( db, e->a.at( 0 ), g );
      if ( v.k == 'N' ) continue;
      ++cnt;
      if ( n == "max" ) { if ( best.k == 'N' || pgCmp( v, best ) > 0 ) best = v; }
      else if ( n == "min" ) { if ( best.k == 'N' || pgCmp( v, best ) < 0 ) best = v; }
      else if ( n == "sum" ) { best = v; si += v.i; sd += v.d; best.i = si; best.d = sd; }
      else if ( n == "bool_or" ) { if ( best.k == 'N' ) best = v; best.i |= v.i; }
      else if ( n == "bool_and" ) { if ( best.k == 'N' ) best = v; best.i &= v.i; }
    }
    return n == "count" ? mkI( cnt ) : best;
  }
  std::vector<PgVal> a;
  if ( n == "coalesce" ) { for ( auto &x : e->a ) { PgVal v = eval( db, x, env, group ); if ( v.k != 'N' ) return v; } return mk( 'N' ); }
  for ( auto &x : e->a ) a.push_back( eval( db, x, env, group ) );
  auto need = [&]( size_t lo, size_t hi ) { if ( a.size() < lo || a.size() > hi ) pgErr( "42883", "function " + n + " does not exist for these arguments" ); };
  auto anyNull = [&]() { for ( auto &v : a ) if ( v.k == 'N' ) return true; return false; };
  if ( n == "st_asbinary" || n == "st_asewkb" ) { need( 1, 2 ); if ( anyNull() ) return mk( 'N' ); if ( a[0].k != 'g' ) pgErr( "42883", "function st_asbinary(" + std::string( tyName( a[0].k ) ) + ") does not exist" ); if ( n == "st_asewkb" ) return castTo( a[0], "bytea", db ); PgVal r = mk( 'y' ); r.s = a[0].s; return r; }
  if ( n == "st_geomfromwkb" || n == "st_wkbtosql" )
  {
    need( 1, 2 ); if ( anyNull() ) return mk( 'N' );
    if ( a[0].k == 'U' ) a[0] = fromText( a[0].s, 'y' );
    if ( a[0].k != 'y' ) pgErr( "42883", "function st_geomfromwkb does not exist" );
    int64_t srid = a.size() > 1 ? a[1].i : 0; if ( srid < 0 ) srid = 0;
    return geomFromWkb( a[0].s, srid );
  }
  if ( n == "st_setsrid" ) { need( 2, 2 ); if ( anyNull() ) return mk( 'N' ); PgVal r = a[0]; if ( r.k != 'g' ) pgErr( "42883", "function st_setsrid does not exist" ); r.i = a[1].i; return r; }
  if ( n == "st_srid" ) { need( 1, 1 ); if ( anyNull() ) return mk( 'N' ); return mkI( a[0].i ); }
  if ( n == "st_equals" || n == "st_orderingequals" ) { need( 2, 2 ); if ( anyNull() ) return mk( 'N' ); return mkB( pgCmp( a[0], a[1] ) == 0 ); }
  if ( n == "to_char" ) { need( 2, 2 ); if ( anyNull() ) return mk( 'N' ); if ( a[0].k != 'T' ) pgErr( "42883", "function to_char(" + std::string( tyName( a[0].k ) ) + ", unknown) does not exist" ); return mkT( toChar( a[0], a[1].s ) ); }
  if ( n == "date_trunc" )
  {
    need( 2, 2 ); if ( anyNull() ) return mk( 'N' );
    std::string u = lower( a[0].s ); PgVal r = a[1]; if ( r.k != 'T' ) pgErr( "42883", "function date_trunc does not exist" );
    auto fl = [&]( int64_t m ) { int64_t q = r.i % m; if ( q < 0 ) q += m; r.i -= q; };
    if ( u == "microseconds" ) {} else if ( u == "milliseconds" || u == "millisecond" ) fl( 1000 ); else if ( u == "second" ) fl( 1000000 ); else if ( u == "minute" ) fl( 60000000 ); else if ( u == "hour" ) fl( 3600000000LL ); else if ( u == "day" ) fl( 86400000000LL ); else pgErr( "22023", "unit not recognized" );
    return r;
  }
  if ( n == "pg_get_expr" ) { need( 2, 3 ); return a[0]; }
  if ( n == "format_type" ) { need( 2, 2 ); return a[0]; }
  if ( n == "pg_get_serial_sequence" )
  {
    need( 2, 2 ); if ( anyNull() ) return mk( 'N' );
    auto nm = parseRegName( textOf( a[0] ) );
    PgTable *t = findTable( db, nm );
    for ( auto &c : t->cols ) if ( !c.dropped && c.name == textOf( a[1] ) )
      {
        if ( c.seq.empty() ) return mk( 'N' );
        return mkT( quoteId( nm.size() > 1 ? nm[nm.size() - 2] : "public" ) + "." + quoteId( c.seq ) );
      }
    pgErr( "42703", "column \"" + textOf( a[1] ) + "\" of relation does not exist" );
  }
  if ( n == "setval" || n == "nextval" || n == "currval" )
  {
    need( 1, 3 ); if ( anyNull() ) return mk( 'N' );
    auto nm = parseRegName( textOf( a[0] ) );
    PgSeq *q = findSeq( db, nm ); if ( !q ) pgErr( "42P01", "relation \"" + textOf( a[0] ) + "\" does not exist" );
    PgSeqVal &v = g_pg.seqVals[q->id];
    if ( n == "setval" )
    {
      int64_t x = a.at( 1 ).k == 'U' ? parseInt( a[1].s, "bigint" ) : a[1].i;
      if ( x < 1 || x > INT32_MAX ) pgErr( "22003", strf( "setval: value %lld is out of bounds for sequence \"%s\" (1..2147483647)", ( long long )x, nm.back().c_str() ) );
      v.last = x; v.called = a.size() > 2 ? a[2].i != 0 : true;
      return mkI( x );
    }
    if ( n == "nextval" ) { if ( v.called ) { if ( v.last >= INT32_MAX ) pgErr( "2200H", "nextval: reached maximum value of sequence" ); ++v.last; } v.called = true; }
    return mkI( v.last );
  }
  if ( n == "lower" || n == "upper" ) { need( 1, 1 ); if ( anyNull() ) return mk( 'N' ); return mkT( n == "lower" ? lower( textOf( a[0] ) ) : upper( textOf( a[0] ) ) ); }
  if ( n == "length" || n == "char_length" || n == "octet_length" ) { need( 1, 1 ); if ( anyNull() ) return mk( 'N' ); return mkI( ( int64_t )a[0].s.size() ); }
  if ( n == "greatest" || n == "least" ) { PgVal r; for ( auto &v : a ) if ( v.k != 'N' && ( r.k == 'N' || ( n == "greatest" ? pgCmp( v, r ) > 0 : pgCmp( v, r ) < 0 ) ) ) r = v; return r; }
  if ( n == "nullif" ) { need( 2, 2 ); if ( a[0].k != 'N' && a[1].k != 'N' && pgCmp( a[0], a[1] ) == 0 ) return mk( 'N' ); return a[0]; }
  if ( n == "quote_ident" ) { need( 1, 1 ); if ( anyNull() ) return mk( 'N' ); return mkT( quoteId( textOf( a[0] ) ) ); }
  if ( n == "quote_literal" ) { need( 1, 1 ); if ( anyNull() ) return mk( 'N' ); std::string s = textOf( a[0] ); if ( s.find( '\\' ) != std::string::npos ) { std::string r; for ( char c : s ) { if ( c == '\\' ) r += c; r += c; } return mkT( "E" + pgLit( r ) ); } return mkT( pgLit( s ) ); }
  if ( n == "replace" ) { need( 3, 3 ); if ( anyNull() ) return mk( 'N' ); std::string s = textOf( a[0] ), f = textOf( a[1] ), t = textOf( a[2] ), r; if ( f.empty() ) return mkT( s ); for ( size_t i = 0; i < s.size(); ) if ( s.compare( i, f.size(), f ) == 0 ) { r += t; i += f.size(); } else r += s[i++]; return mkT( r ); }
  if ( n == "encode" ) { need( 2, 2 ); if ( anyNull() ) return mk( 'N' ); return mkT( hex( a[0].k == 'U' ? parseBytea( a[0].s ) : a[0].s ) ); }
  if ( n == "decode" ) { need( 2, 2 ); if ( anyNull() ) return mk( 'N' ); bool ok; PgVal r = mk( 'y' ); r.s = unhex( a[0].s, ok ); if ( !ok ) pgErr( "22023", "invalid hexadecimal data" ); return r; }
  if ( n == "concat" ) { std::string s; for ( auto &v : a ) if ( v.k != 'N' ) s += textOf( v ); return mkT( s ); }
  if ( n == "abs" ) { need( 1, 1 ); PgVal r = a[0]; r.i = r.i < 0 ? -r.i : r.i; r.d = std::fabs( r.d ); return r; }
  if ( n == "rtrim" || n == "trim" || n == "btrim" ) { need( 1, 2 ); if ( anyNull() ) return mk( 'N' ); std::string s = textOf( a[0] ), w = a.size() > 1 ? textOf( a[1] ) : " "; while ( !s.empty() && w.find( s.back() ) != std::string::npos ) s.pop_back(); if ( n != "rtrim" ) while ( !s.empty() && w.find( s[0] ) != std::string::npos ) s.erase( 0, 1 ); return mkT( s ); }
  pgErr( "42883", "function " + n + " does not exist" );
}
static int tri( const PgVal &v ) { if ( v.k == 'N' ) return -1; if ( v.k == 'U' ) return fromText( v.s, 'b' ).i != 0; if ( v.k != 'b' ) pgErr( "42804", std::string( "argument must be type boolean, not type " ) + tyName( v.k ) ); return v.i != 0; }
static PgVal ofTri( int t ) { return t < 0 ? mk( 'N' ) : mkB( t ); }
static bool test( const std::string &op, int c ) { return op == "=" ? c == 0 : op == "<>" ? c != 0 : op == "<" ? c < 0 : op == ">" ? c > 0 : op == "<=" ? c <= 0 : c >= 0; }
static PgVal eval( PgDb &db, const ExP &e, const Env &env, const std::vector<Env> *group )
{
  const std::string &o = e->op;
  auto ev = [&]( size_t i ) { return eval( db, e->a.at( i ), env, group ); };
  if ( o == "lit" ) return e->lit;
  if ( o == "col" ) return *lookup( e->name, env );
  if ( o == "and" ) { int a = tri( ev( 0 ) ); if ( a == 0 ) return mkB( false ); int b = tri( ev( 1 ) ); return b == 0 ? mkB( false ) : ofTri( a < 0 || b < 0 ? -1 : 1 ); }
  if ( o == "or" ) { int a = tri( ev( 0 ) ); if ( a == 1 ) return mkB( true ); int b = tri( ev( 1 ) ); return b == 1 ? mkB( true ) : ofTri( a < 0 || b < 0 ? -1 : 0 ); }
  if ( o == "not" ) { int a = tri( ev( 0 ) ); return ofTri( a < 0 ? -1 : !a ); }
  if ( o == "isnull" )
  {
    if ( e->a[0]->op == "row" ) { for ( auto &x : e->a[0]->a ) if ( eval( db, x, env, group ).k != 'N' ) return mkB( false ); return mkB( true ); }
    return mkB( ev( 0 ).k == 'N' );
  }
  if ( o == "istrue" ) return mkB( tri( ev( 0 ) ) == 1 );
  if ( o == "isfalse" ) return mkB( tri( ev( 0 ) ) == 0 );
  bool rows = e->a.size() == 2 && e->a[0]->op == "row" && e->a[1]->op == "row";
  if ( rows && e->a[0]->a.size() != e->a[1]->a.size() ) pgErr( "42601", "unequal number of entries in row expressions" );
  if ( o == "distinct" )
  {
    auto one = [&]( const PgVal &a, const PgVal &b ) { if ( a.k == 'N' || b.k == 'N' ) return ( a.k == 'N' ) != ( b.k == 'N' ); return pgCmp( a, b ) != 0; };
    if ( rows ) { for ( size_t i = 0; i < e->a[0]->a.size(); ++i ) if ( one( eval( db, e->a[0]->a[i], env, group ), eval( db, e->a[1]->a[i], env, group ) ) ) return mkB( true ); return mkB( false ); }
    return mkB( one( ev( 0 ), ev( 1 ) ) );
  }
  if ( o == "=" || o == "<>" || o == "<" || o == ">" || o == "<=" || o == ">=" )
  {
    if ( rows && ( o == "=" || o == "<>" ) )
    {
      int r = 1;
      for ( size_t i = 0; i < e->a[0]->a.size(); ++i ) { PgVal a = eval( db, e->a[0]->a[i], env, group ), b = eval( db, e->a[1]->a[i], env, group ); if ( a.k == 'N' || b.k == 'N' ) { if ( r ) r = -1; } else if ( pgCmp( a, b ) ) r = 0; }
      return ofTri( r < 0 ? -1 : o == "=" ? r : !r );
    }
    PgVal a = ev( 0 ), b = ev( 1 );
    if ( a.k == 'N' || b.k == 'N' ) return mk( 'N' );
    return mkB( test( o, pgCmp( a, b ) ) );
  }
  if ( o == "inlist" )
  {
    PgVal a = ev( 0 ); bool nul = a.k == 'N';
    for ( size_t i = 1; i < e->a.size(); ++i ) { PgVal b = ev( i ); if ( b.k == 'N' || a.k == 'N' ) { nul = true; continue; } if ( pgCmp( a, b ) == 0 ) return mkB( true ); }
    return nul ? mk( 'N' ) : mkB( false );
  }
  if ( o == "anysub" || o == "allsub" )
  {
    Rel r = runSelect( db, *e->sub, &env );
    bool all = o == "allsub", nul = false;
    bool rowL = e->a[0]->op == "row";
    for ( auto &x : r.rows )
    {
      int t = 1;
      if ( rowL ) { for ( size_t i = 0; i < e->a[0]->a.size(); ++i ) { PgVal a = eval( db, e->a[0]->a[i], env, group ); if ( a.k == 'N' || x.at( i ).k == 'N' ) { if ( t ) t = -1; } else if ( pgCmp( a, x[i] ) ) t = 0; } }
      else { PgVal a = ev( 0 ); if ( a.k == 'N' || x.at( 0 ).k == 'N' ) t = -1; else t = test( e->name[0], pgCmp( a, x[0] ) ); }
      if ( t < 0 ) nul = true; else if ( !all && t ) return mkB( true ); else if ( all && !t ) return mkB( false );
    }
    return nul ? mk( 'N' ) : mkB( all );
  }
  if ( o == "anyarr" || o == "allarr" )
  {
    PgVal a = ev( 0 ), r = ev( 1 );
    if ( a.k == 'N' || r.k == 'N' ) return mk( 'N' );
    if ( r.k != 'a' ) pgErr( "42809", "op ANY/ALL (array) requires array on right side" );
    bool all = o == "allarr"; const char *q = r.s.c_str();
    while ( *q ) { char *en; PgVal x = mkI( strtoll( q, &en, 10 ) ); if ( en == q ) break; q = en; bool t = test( e->name[0], pgCmp( a, x ) ); if ( t != all ) return mkB( t ); }
    return mkB( all );
  }
  if ( o == "exists" ) return mkB( !runSelect( db, *e->sub, &env ).rows.empty() );
  if ( o == "scalar" )
  {
    Rel r = runSelect( db, *e->sub, &env );
    if ( r.rows.size() > 1 ) pgErr( "21000", "more than one row returned by a subquery used as an expression" );
    return r.rows.empty() || r.rows[0].empty() ? mk( 'N' ) : r.rows[0][0];
  }
  if ( o == "cast" ) return castTo( ev( 0 ), e->name[0], db );
  if ( o == "||" ) { PgVal a = ev( 0 ), b = ev( 1 ); if ( a.k == 'N' || b.k == 'N' ) return mk( 'N' ); if ( a.k == 'y' && b.k == 'y' ) { a.s += b.s; return a; } return mkT( textOf( a ) + textOf( b ) ); }
  if ( o == "like" || o == "ilike" ) { PgVal a = ev( 0 ), b = ev( 1 ); if ( a.k == 'N' || b.k == 'N' ) return mk( 'N' ); return mkB( likeMatch( textOf( a ).c_str(), textOf( b ).c_str(), o == "ilike" || a.k == 'c' ) ); }
  if ( o == "neg" ) { PgVal a = ev( 0 ); if ( a.k == 'N' ) return a; if ( !isNum( a.k ) ) pgErr( "42883", "operator does not exist: - " + std::string( tyName( a.k ) ) ); a.i = ( int64_t )( 0 - ( uint64_t )a.i ); a.d = -a.d; if ( a.k == 'n' && a.d == -9223372036854775808.0 ) { a.k = 'i'; a.i = INT64_MIN; } return a; }
  if ( o == "+" || o == "-" || o == "*" || o == "/" || o == "%" )
  {
    PgVal a = ev( 0 ), b = ev( 1 ); if ( a.k == 'N' || b.k == 'N' ) return mk( 'N' );
    if ( a.k == 'U' ) a = fromText( a.s, b.k ); if ( b.k == 'U' ) b = fromText( b.s, a.k );
    if ( !isNum( a.k ) || !isNum( b.k ) ) pgErr( "42883", "operator does not exist" );
    if ( a.k == 'i' && b.k == 'i' ) { if ( ( o == "/" || o == "%" ) && !b.i ) pgErr( "22012", "division by zero" ); return mkI( o == "+" ? a.i + b.i : o == "-" ? a.i - b.i : o == "*" ? a.i * b.i : o == "/" ? a.i / b.i : a.i % b.i ); }
    double x = a.k == 'i' ? ( double )a.i : a.d, y = b.k == 'i' ? ( double )b.i : b.d; PgVal r = mk( 'd' ); if ( o == "/" && y == 0 ) pgErr( "22012", "division by zero" ); r.d = o == "+" ? x + y : o == "-" ? x - y : o == "*" ? x * y : o == "/" ? x / y : fmod( x, y ); return r;
  }
  if ( o == "case" ) { size_t i = 0; for ( ; i + 1 < e->a.size(); i += 2 ) if ( tri( ev( i ) ) == 1 ) return ev( i + 1 ); return i < e->a.size() ? ev( i ) : mk( 'N' ); }
  if ( o == "fn" ) return fnCall( db, e, env, group );
  if ( o == "row" ) pgErr( "0A000", "row value here" );
  pgErr( "XX000", "cannot evaluate " + o );
}
static Rel relOf( PgDb &db, const From &f, const Env *up, Scope &sc )
{
  if ( f.sub ) { sc.alias = f.alias; return runSelect( db, *f.sub, up ); }
  sc.schema = f.name.size() > 1 ? f.name[f.name.size() - 2] : "public";
  sc.table = f.name.back(); sc.alias = f.alias.empty() ? f.name.back() : f.alias;
  std::string s;
  PgTable *t = findTable( db, f.name, false, &s );
  if ( t ) return relTable( *t );
  PgSeq *q = findSeq( db, f.name );
  if ( q ) { Rel r; r.cols = { "last_value", "log_cnt", "is_called" }; PgSeqVal &v = g_pg.seqVals[q->id]; r.rows.push_back( { mkI( v.last ), mkI( 0 ), mkB( v.called ) } ); return r; }
  Rel r;
  if ( relCatalog( db, f.name, r ) ) { if ( f.name.size() == 1 ) sc.schema = "pg_catalog"; return r; }
  findTable( db, f.name );
  return r;
}
static Rel runSelect( PgDb &db, const Select &s, const Env *up )
{
  std::vector<Rel> rels( s.from.size() ); std::vector<Scope> scopes( s.from.size() );
  for ( size_t i = 0; i < s.from.size(); ++i )
  {
    rels[i] = relOf( db, s.from[i], up, scopes[i] ); scopes[i].rel = &rels[i];
    for ( size_t j = 0; j < i; ++j ) if ( scopes[j].alias == scopes[i].alias && ( scopes[j].schema == scopes[i].schema || !s.from[i].alias.empty() ) ) pgErr( "42712", "table name \"" + scopes[i].alias + "\" specified more than once" );
  }
  std::vector<Env> envs;
  std::vector<PgRow> nulls( s.from.size() );
  for ( size_t i = 0; i < s.from.size(); ++i ) nulls[i].assign( rels[i].cols.size(), mk( 'N' ) );
  Env cur; cur.up = up;
  std::function<void( size_t )> loop = [&]( size_t i )
  {
    if ( i == s.from.size() ) { if ( !s.where || tri( eval( db, s.where, cur ) ) == 1 ) envs.push_back( cur ); return; }
    bool any = false;
    cur.s.push_back( scopes[i] );
    for ( auto &r : rels[i].rows )
    {
      cur.s[i].row = &r;
      if ( s.from[i].on && tri( eval( db, s.from[i].on, cur ) ) != 1 ) continue;
      any = true;
      loop( i + 1 );
    }
    if ( !any && s.from[i].join == 2 ) { cur.s[i].row = &nulls[i]; loop( i + 1 ); }
    cur.s.pop_back();
  };
  loop( 0 );
  // names are checked even when there is no row to evaluate them on
  {
    Env probeEnv; probeEnv.up = up;
    for ( size_t i = 0; i < s.from.size(); ++i ) { probeEnv.s.push_back( scopes[i] ); probeEnv.s[i].row = &nulls[i]; }
    std::function<void( const ExP & )> chk = [&]( const ExP &e ) { if ( !e ) return; if ( e->op == "col" ) lookup( e->name, probeEnv ); for ( auto &a : e->a ) chk( a ); };
    chk( s.where );
    for ( auto &it : s.items ) chk( it.e );
    for ( auto &f : s.from ) chk( f.on );
  }
  Rel out;
  for ( auto &it : s.items )
  {
    if ( it.star ) { bool any = false; for ( size_t i = 0; i < scopes.size(); ++i ) if ( it.starOf.empty() || scopes[i].alias == it.starOf ) { any = true; for ( auto &c : rels[i].cols ) out.cols.push_back( c ); } if ( !any ) pgErr( "42P01", "missing FROM-clause entry for table \"" + it.starOf + "\"" ); }
    else out.cols.push_back( !it.alias.empty() ? it.alias : it.e->op == "col" ? it.e->name.back() : it.e->op == "fn" ? it.e->name[0] : it.e->op == "cast" && it.e->a[0]->op == "col" ? it.e->a[0]->name.back() : "?column?" );
  }
  auto project = [&]( const Env &env, const std::vector<Env> *g )
  {
    PgRow r;
    for ( auto &it : s.items )
    {
      if ( it.star ) { for ( size_t i = 0; i < env.s.size(); ++i ) if ( it.starOf.empty() || env.s[i].alias == it.starOf ) for ( auto &v : *env.s[i].row ) r.push_back( v ); }
      else { PgVal v = eval( db, it.e, env, g ); if ( v.k == 'U' ) v.k = 't'; r.push_back( v ); }
    }
    return r;
  };
  bool agg = !s.group.empty() || s.having; for ( auto &it : s.items ) if ( hasAgg( it.e ) ) agg = true;
  std::vector<std::pair<PgRow, PgRow>> rows;      // sort key, output
  if ( agg )
  {
    std::vector<std::pair<std::string, std::vector<Env>>> groups;
    if ( s.group.empty() ) groups.push_back( { "", envs } );
    else for ( auto &e : envs )
      {
        std::string k; for ( auto &g : s.group ) { PgVal v = eval( db, g, e ); k += v.k; k += pgOut( v ); k += '\1'; }
        bool hit = false; for ( auto &g : groups ) if ( g.first == k ) { g.second.push_back( e ); hit = true; }
        if ( !hit ) groups.push_back( { k, { e } } );
      }
    for ( auto &g : groups )
    {
      Env empty; empty.up = up; for ( size_t i = 0; i < scopes.size(); ++i ) { empty.s.push_back( scopes[i] ); empty.s[i].row = &nulls[i]; }
      const Env &rep = g.second.empty() ? empty : g.second[0];
      if ( s.having && tri( eval( db, s.having, rep, &g.second ) ) != 1 ) continue;
      rows.push_back( { {}, project( rep, &g.second ) } );
    }
  }
  else for ( auto &e : envs )
    {
      PgRow key;
      PgRow o = project( e, nullptr );
      for ( auto &k : s.order )
      {
        if ( k.first->op == "lit" && k.first->lit.k == 'i' ) { key.push_back( o.at( k.first->lit.i - 1 ) ); continue; }
        if ( k.first->op == "col" && k.first->name.size() == 1 ) { int hit = -1; for ( size_t i = 0; i < s.items.size(); ++i ) if ( s.items[i].alias == k.first->name[0] ) hit = ( int )i; if ( hit >= 0 ) { key.push_back( o[hit] ); continue; } }
        key.push_back( eval( db, k.first, e ) );
      }
      rows.push_back( { key, o } );
    }
  if ( !s.order.empty() )
    std::stable_sort( rows.begin(), rows.end(), [&]( const std::pair<PgRow, PgRow> &a, const std::pair<PgRow, PgRow> &b )
  {
    for ( size_t i = 0; i < a.first.size() && i < b.first.size(); ++i )
    {
      int c; bool na = a.first[i].k == 'N', nb = b.first[i].k == 'N';
      c = na || nb ? ( na == nb ? 0 : na ? 1 : -1 ) : pgCmp( a.first[i], b.first[i] );
      if ( s.order[i].second ) c = -c;
      if ( c ) return c < 0;
    }
    return false;
  } );
  auto keyOf = []( const PgRow &r ) { std::string k; for ( auto &v : r ) { k += v.k; k += v.k == 'c' ? lower( v.s ) : pgOut( v ); k += '\1'; } return k; };
  std::set<std::string> seen;
  for ( auto &r : rows ) if ( !s.distinct || seen.insert( keyOf( r.second ) ).second ) out.rows.push_back( r.second );
  if ( s.setop )
  {
    Rel b = runSelect( db, *s.next, up );
    std::map<std::string, int> have; for ( auto &r : b.rows ) ++have[keyOf( r )];
    std::vector<PgRow> res; std::set<std::string> done;
    for ( auto &r : out.rows )
    {
      std::string k = keyOf( r ); bool in = have.count( k ) && have[k] > 0;
      if ( s.setop == 1 || ( s.setop == 2 && !in ) || ( s.setop == 3 && in ) ) { if ( s.setAll || done.insert( k ).second ) res.push_back( r ); }
      if ( s.setAll && in ) --have[k];
    }
    if ( s.setop == 1 ) for ( auto &r : b.rows ) if ( s.setAll || done.insert( keyOf( r ) ).second ) res.push_back( r );
    out.rows = res;
  }
  Env e0; e0.up = up;
  if ( s.offset ) { int64_t n = eval( db, s.offset, e0 ).i; if ( n > 0 ) out.rows.erase( out.rows.begin(), out.rows.begin() + std::min<int64_t>( n, out.rows.size() ) ); }
  if ( s.limit ) { PgVal n = eval( db, s.limit, e0 ); if ( n.k == 'i' && n.i < ( int64_t )out.rows.size() ) out.rows.resize( n.i ); }
  return out;
}

// ------------------------------------------------------------------ transactions
static void refreshWork( pg_conn *c )
{
  Tx &x = c->tx;
  if ( x.ddl ) return;
  if ( x.snapped && ( x.repeatable || x.work.version == g_pg.db.version ) ) return;
  x.work = g_pg.db; x.snapped = true;
  for ( auto &t : x.writes )
  {
    auto s = x.work.schemas.find( t.first.first ); if ( s == x.work.schemas.end() ) continue;
    auto k = s->second.tables.find( t.first.second ); if ( k == s->second.tables.end() ) continue;
    for ( auto &w : t.second ) if ( w.second.del ) k->second.rows.erase( w.first ); else k->second.rows[w.first] = w.second.row;
  }
}
struct Blocked { pg_conn *by; };
static bool keysEqual( const PgTable &t, const std::vector<int> &cols, const PgRow &a, const PgRow &b )
{
  for ( int i : cols ) { if ( a[i].k == 'N' || b[i].k == 'N' ) return false; if ( pgCmp( a[i], b[i] ) ) return false; }
  ( void )t;
  return !cols.empty();
}
static std::vector<std::vector<int>> uniqueSets( const PgTable &t )
{
  std::vector<std::vector<int>> r; std::vector<int> pk;
  for ( size_t i = 0; i < t.cols.size(); ++i ) if ( t.cols[i].pk && !t.cols[i].dropped ) pk.push_back( ( int )i );
  if ( !pk.empty() ) r.push_back( pk );
  for ( auto &x : t.indexes ) if ( x.unique ) r.push_back( x.cols );
  return r;
}
// a row about to be written: unique against what is visible, what others hold, and not locked by others
static bool checkRow( pg_conn *c, const TabKey &tk, PgTable &t, uint64_t id, const PgRow &row, const std::string &tname, bool soft )
{
  for ( size_t i = 0; i < t.cols.size(); ++i ) if ( t.cols[i].notnull && !t.cols[i].dropped && row[i].k == 'N' ) pgErr( "23502", "null value in column \"" + t.cols[i].name + "\" of relation \"" + tname + "\" violates not-null constraint" );
  for ( auto &u : uniqueSets( t ) )
  {
    for ( auto &r : t.rows ) if ( r.first != id && keysEqual( t, u, r.second, row ) ) { if ( soft ) return false; pgErr( "23505", "duplicate key value violates unique constraint on \"" + tname + "\"" ); }
    // rows committed after a snapshot was taken still count
    auto cs = g_pg.db.schemas.find( tk.first );
    if ( c->tx.repeatable && cs != g_pg.db.schemas.end() && cs->second.tables.count( tk.second ) )
      for ( auto &r : cs->second.tables[tk.second].rows ) if ( r.first != id && !t.rows.count( r.first ) && keysEqual( t, u, r.second, row ) && !( c->tx.writes[tk].count( r.first ) ) ) pgErr( "23505", "duplicate key value violates unique constraint" );
    for ( pg_conn *o : g_conns )
      if ( o != c && o->tx.open )
      {
        auto w = o->tx.writes.find( tk ); if ( w == o->tx.writes.end() ) continue;
        for ( auto &r : w->second ) if ( r.first != id && !r.second.del && r.second.row.size() == row.size() && keysEqual( t, u, r.second.row, row ) ) throw Blocked{ o };
      }
  }
  return true;
}
static void lockRow( pg_conn *c, const TabKey &tk, uint64_t id )
{
  for ( pg_conn *o : g_conns )
    if ( o != c && o->tx.open )
    {
      auto w = o->tx.writes.find( tk ); if ( w != o->tx.writes.end() && w->second.count( id ) ) throw Blocked{ o };
    }
  if ( c->tx.repeatable && !c->tx.writes[tk].count( id ) )
  {
    auto s = g_pg.db.schemas.find( tk.first );
    const PgRow *now = nullptr;
    if ( s != g_pg.db.schemas.end() ) { auto t = s->second.tables.find( tk.second ); if ( t != s->second.tables.end() ) { auto r = t->second.rows.find( id ); if ( r != t->second.rows.end() ) now = &r->second; } }
    const PgRow &mine = c->tx.work.schemas[tk.first].tables[tk.second].rows[id];
    bool same = now && now->size() == mine.size();
    if ( same ) for ( size_t i = 0; i < mine.size(); ++i ) if ( mine[i].k != ( *now )[i].k || pgOut( mine[i] ) != pgOut( ( *now )[i] ) ) same = false;
    if ( !same ) pgErr( "40001", "could not serialize access due to concurrent update" );
  }
}
static void rollbackTx( pg_conn *c ) { c->tx.clear(); }
static void commitTx( pg_conn *c )
{
  Tx &x = c->tx;
  if ( x.ddl ) { uint64_t v = g_pg.db.version; g_pg.db = x.work; g_pg.db.version = v + 1; }
  else
  {
    bool any = false;
    for ( auto &t : x.writes )
    {
      auto s = g_pg.db.schemas.find( t.first.first ); if ( s == g_pg.db.schemas.end() ) continue;
      auto k = s->second.tables.find( t.first.second ); if ( k == s->second.tables.end() ) continue;
      for ( auto &w : t.second ) { any = true; if ( w.second.del ) k->second.rows.erase( w.first ); else k->second.rows[w.first] = w.second.row; }
    }
    if ( any ) ++g_pg.db.version;
  }
  x.clear();
}
static void resultRows( pg_result &r, const Rel &rel )
{
  r.status = PGRES_TUPLES_OK; r.fields = rel.cols.size();
  for ( auto &row : rel.rows ) { std::vector<std::pair<bool, std::string>> o; for ( auto &v : row ) o.push_back( { v.k == 'N', v.k == 'N' ? "" : pgOut( v ) } ); r.rows.push_back( o ); }
  r.tuples = std::to_string( rel.rows.size() ); r.tag = "SELECT " + r.tuples;
}
static std::string freeName( PgSchema &s, std::string base )
{
  std::string n = base; int k = 0;
  while ( s.tables.count( n ) || s.seqs.count( n ) ) n = base + std::to_string( ++k );
  return n;
}
static void doTable( pg_conn *c, const Stmt &s, pg_result &r )
{
  PgDb &db = c->tx.work;
  std::string sc = s.target.size() > 1 ? s.target[s.target.size() - 2] : "public", tn = s.target.back();
  auto si = db.schemas.find( sc ); if ( si == db.schemas.end() ) pgErr( "3F000", "schema \"" + sc + "\" does not exist" );
  if ( si->second.tables.count( tn ) || si->second.seqs.count( tn ) ) { if ( s.ifExists ) return; pgErr( "42P07", "relation \"" + tn + "\" already exists" ); }
  PgTable t; t.oid = g_pg.nextOid++;
  for ( auto &d : s.defs )
  {
    for ( auto &o : t.cols ) if ( o.name == d.name ) pgErr( "42701", "column \"" + d.name + "\" specified more than once" );
    PgCol k; k.name = d.name; k.type = d.type; k.notnull = d.notnull || d.serial; k.geomType = d.geomType; k.srid = d.srid;
    if ( d.srid > 0 && d.srid != 4326 && d.srid != 3857 && d.srid != 5514 ) { /* PostGIS accepts it */ }
    if ( d.serial )
    {
      auto cut = []( std::string x, size_t n ) { while ( x.size() > n ) { x.pop_back(); while ( !x.empty() && ( ( unsigned char )x.back() & 0xc0 ) == 0xc0 ) x.pop_back(); } return x; };
      std::string a = tn, b = d.name;
      while ( a.size() + b.size() + 5 > 63 ) { if ( a.size() > b.size() ) a = cut( a, a.size() - 1 ); else b = cut( b, b.size() - 1 ); }
      k.seq = freeName( si->second, a + "_" + b + "_seq" );
      PgSeq q; q.id = g_pg.nextSeq++; q.table = tn; q.col = d.name;
      si->second.seqs[k.seq] = q; g_pg.seqVals[q.id] = PgSeqVal();
    }
    else if ( d.def ) k.def = d.def->op == "lit" ? ( d.def->lit.k == 'U' ? pgLit( d.def->lit.s ) : pgOut( d.def->lit ) ) : "?";
    t.cols.push_back( k );
    if ( d.unique ) { PgIndex ix; ix.name = tn + "_" + d.name + "_key"; ix.unique = true; ix.cols.push_back( ( int )t.cols.size() - 1 ); t.indexes.push_back( ix ); }
  }
  int pos = 0;
  for ( auto &p : s.pk )
  {
    bool hit = false;
    for ( auto &k : t.cols ) if ( k.name == p ) { if ( k.pk ) pgErr( "42701", "column \"" + p + "\" appears twice in primary key constraint" ); k.pk = ++pos; k.notnull = true; hit = true; }
    if ( !hit ) pgErr( "42703", "column \"" + p + "\" named in key does not exist" );
  }
  si->second.tables[tn] = t;
  c->tx.ddl = true;
  r.tag = "CREATE TABLE";
}
static void doWrite( pg_conn *c, const Stmt &s, pg_result &r )
{
  PgDb &db = c->tx.work;
  std::string sc;
  PgTable *t = findTable( db, s.target, true, &sc );
  TabKey tk( sc, s.target.back() );
  const std::string &tn = tk.second;
  auto colIdx = [&]( const std::string &n ) -> int { for ( size_t i = 0; i < t->cols.size(); ++i ) if ( !t->cols[i].dropped && t->cols[i].name == n ) return ( int )i; pgErr( "42703", "column \"" + n + "\" of relation \"" + tn + "\" does not exist" ); };
  std::map<uint64_t, Written> out;
  std::map<uint64_t, PgRow> saved = t->rows;
  int64_t n = 0;
  Rel ret; std::vector<PgRow> affected;
  auto dflt = [&]( int i ) -> PgVal
  {
    PgCol &k = t->cols[i];
    if ( !k.seq.empty() )
    {
      PgSeqVal &v = g_pg.seqVals[db.schemas[sc].seqs[k.seq].id];
      if ( v.called ) ++v.last;
      v.called = true;
      return mkI( v.last );
    }
    if ( !k.def.empty() ) { PgVal u = mk( 'U' ); u.s = k.def; if ( u.s[0] == '\'' ) u.s = lexSql( k.def )[0].s; return assign( u, k ); }
    return mk( 'N' );
  };
  try
  {
    if ( s.k == Stmt::INSERT )
    {
      std::vector<int> idx;
      if ( s.cols.empty() ) { for ( size_t i = 0; i < t->cols.size(); ++i ) if ( !t->cols[i].dropped ) idx.push_back( ( int )i ); }
      else for ( auto &k : s.cols ) { int i = colIdx( k ); for ( int o : idx ) if ( o == i ) pgErr( "42701", "column \"" + k + "\" specified more than once" ); idx.push_back( i ); }
      std::vector<std::vector<PgVal>> vals; Env env;
      std::vector<std::vector<char>> isDef;
      if ( s.sel ) { for ( auto &x : runSelect( db, *s.sel, nullptr ).rows ) { vals.push_back( x ); isDef.push_back( std::vector<char>( x.size(), 0 ) ); } }
      else for ( auto &v : s.values ) { std::vector<PgVal> o; std::vector<char> d; for ( auto &e : v ) { d.push_back( e->op == "default" ); o.push_back( e->op == "default" ? mk( 'N' ) : eval( db, e, env ) ); } vals.push_back( o ); isDef.push_back( d ); }
      for ( size_t q = 0; q < vals.size(); ++q )
      {
        auto &v = vals[q];
        if ( v.size() > idx.size() ) pgErr( "42601", "INSERT has more expressions than target columns" );
        if ( !s.cols.empty() && v.size() < idx.size() ) pgErr( "42601", "INSERT has more target columns than expressions" );
        PgRow row( t->cols.size(), mk( 'N' ) ); std::vector<char> set( t->cols.size(), 0 );
        for ( size_t i = 0; i < v.size(); ++i ) if ( !isDef[q][i] ) { row[idx[i]] = assign( v[i], t->cols[idx[i]] ); set[idx[i]] = 1; }
        for ( size_t i = 0; i < t->cols.size(); ++i ) if ( !set[i] && !t->cols[i].dropped ) row[i] = dflt( ( int )i );
        uint64_t id = g_pg.nextRow++;
        if ( !checkRow( c, tk, *t, id, row, tn, s.onConflictNothing ) ) continue;
        t->rows[id] = row; out[id].row = row; out[id].isNew = true; ++n; affected.push_back( row );
      }
      r.tag = "INSERT 0 " + std::to_string( n );
    }
    else
    {
      Rel rel; for ( auto &k : t->cols ) if ( !k.dropped ) rel.cols.push_back( k.name );
      Env env; Scope scp; scp.alias = s.alias.empty() ? tn : s.alias; scp.table = tn; scp.schema = sc; scp.rel = &rel;
      PgRow vis; scp.row = &vis; env.s.push_back( scp ); env.s[0].row = &vis;
      std::vector<std::pair<uint64_t, PgRow>> rows( t->rows.begin(), t->rows.end() );
      ordered( rows );
      std::vector<int> setIdx; for ( auto &k : s.sets ) { int i = colIdx( k.first ); for ( int o : setIdx ) if ( o == i ) pgErr( "42601", "multiple assignments to same column" ); setIdx.push_back( i ); }
      {
        vis.assign( rel.cols.size(), mk( 'N' ) );
        std::function<void( const ExP & )> chk = [&]( const ExP &e ) { if ( !e ) return; if ( e->op == "col" ) lookup( e->name, env ); for ( auto &a : e->a ) chk( a ); };
        chk( s.where );
        // literals are converted, and operators found, also when no row is looked at
        std::function<void( const ExP & )> types = [&]( const ExP &e )
        {
          if ( !e ) return;
          if ( e->a.size() == 2 && e->a[0]->op == "col" && ( e->op == "=" || e->op == "<>" ) && e->a[1]->op == "lit" && e->a[1]->lit.k != 'N' )
          {
            for ( size_t i = 0; i < t->cols.size(); ++i ) if ( t->cols[i].name == e->a[0]->name.back() && !t->cols[i].dropped )
              {
                char k = kindOf( t->cols[i].type ); const PgVal &l = e->a[1]->lit;
                if ( l.k == 'U' ) fromText( l.s, k );
                else { PgVal z = mk( k ); if ( k == 'T' || k == 'b' || k == 'i' || k == 'd' || k == 'f' || k == 'n' || k == 't' || k == 'c' || k == 'y' || k == 'g' ) pgCmp( z, l ); }
              }
          }
          for ( auto &a : e->a ) types( a );
        };
        types( s.where );
      }
      for ( auto &row : rows )
      {
        vis.clear(); for ( size_t i = 0; i < t->cols.size(); ++i ) if ( !t->cols[i].dropped ) vis.push_back( row.second[i] );
        if ( s.where && tri( eval( db, s.where, env ) ) != 1 ) continue;
        lockRow( c, tk, row.first );
        if ( s.k == Stmt::DELETE ) { t->rows.erase( row.first ); out[row.first].del = true; affected.push_back( row.second ); ++n; continue; }
        PgRow nw = row.second;
        for ( size_t i = 0; i < s.sets.size(); ++i ) nw[setIdx[i]] = s.sets[i].second->op == "default" ? dflt( setIdx[i] ) : assign( eval( db, s.sets[i].second, env ), t->cols[setIdx[i]] );
        checkRow( c, tk, *t, row.first, nw, tn, false );
        t->rows[row.first] = nw; out[row.first].row = nw; affected.push_back( nw ); ++n;
      }
      r.tag = ( s.k == Stmt::UPDATE ? "UPDATE " : "DELETE " ) + std::to_string( n );
    }
  }
  catch ( Blocked & ) { t->rows = saved; throw; }
  catch ( PgErr & ) { t->rows = saved; throw; }
  auto &w = c->tx.writes[tk];
  for ( auto &o : out )
  {
    auto old = w.find( o.first );
    bool wasNew = old != w.end() && old->second.isNew;
    if ( o.second.del && wasNew ) { w.erase( old ); continue; }
    if ( wasNew ) o.second.isNew = true;
    w[o.first] = o.second;
  }
  r.tuples = std::to_string( n );
  if ( !s.returning.empty() )
  {
    Rel rel; for ( auto &k : t->cols ) if ( !k.dropped ) rel.cols.push_back( k.name );
    Rel o;
    for ( auto &a : affected )
    {
      PgRow vis; for ( size_t i = 0; i < t->cols.size(); ++i ) if ( !t->cols[i].dropped ) vis.push_back( a[i] );
      Env env; Scope scp; scp.alias = tn; scp.schema = sc; scp.rel = &rel; scp.row = &vis; env.s.push_back( scp );
      PgRow line; for ( auto &it : s.returning ) if ( it.star ) for ( auto &v : vis ) line.push_back( v ); else line.push_back( eval( db, it.e, env ) );
      o.rows.push_back( line ); o.cols.resize( line.size() );
    }
    std::string tag = r.tag, tu = r.tuples; resultRows( r, o ); r.tag = tag; r.tuples = tu;
  }
}
static void runStmt( pg_conn *c, const Stmt &s, pg_result &r )
{
  PgDb &db = c->tx.work;
  r = pg_result();
  switch ( s.k )
  {
    case Stmt::SELECT: resultRows( r, runSelect( db, *s.sel, nullptr ) ); break;
    case Stmt::INSERT: case Stmt::UPDATE: case Stmt::DELETE: doWrite( c, s, r ); break;
    case Stmt::CREATE_TABLE: doTable( c, s, r ); break;
    case Stmt::CREATE_SCHEMA:
      if ( db.schemas.count( s.name ) ) { if ( s.ifExists ) break; pgErr( "42P06", "schema \"" + s.name + "\" already exists" ); }
      if ( s.name.compare( 0, 3, "pg_" ) == 0 ) pgErr( "42939", "unacceptable schema name \"" + s.name + "\"" );
      db.schemas[s.name].oid = g_pg.nextOid++; c->tx.ddl = true; r.tag = "CREATE SCHEMA"; break;
    case Stmt::DROP_SCHEMA:
    {
      auto k = db.schemas.find( s.name );
      if ( k == db.schemas.end() ) { if ( s.ifExists ) { r.tag = "DROP SCHEMA"; break; } pgErr( "3F000", "schema \"" + s.name + "\" does not exist" ); }
      if ( !s.cascade && !k->second.tables.empty() ) pgErr( "2BP01", "cannot drop schema " + s.name + " because other objects depend on it" );
      db.schemas.erase( k ); c->tx.ddl = true; r.tag = "DROP SCHEMA"; break;
    }
    case Stmt::DROP_TABLE:
    {
      std::string sc; PgTable *t = findTable( db, s.target, !s.ifExists, &sc );
      if ( t ) { auto &q = db.schemas[sc]; for ( auto &k : t->cols ) if ( !k.seq.empty() ) q.seqs.erase( k.seq ); q.tables.erase( s.target.back() ); c->tx.ddl = true; }
      r.tag = "DROP TABLE"; break;
    }
    case Stmt::INDEX:
    {
      PgTable *t = findTable( db, s.target ); PgIndex ix; ix.unique = s.unique; ix.name = s.name;
      for ( auto &k : s.cols ) { int hit = -1; for ( size_t i = 0; i < t->cols.size(); ++i ) if ( t->cols[i].name == k && !t->cols[i].dropped ) hit = ( int )i; if ( hit < 0 ) pgErr( "42703", "column \"" + k + "\" does not exist" ); ix.cols.push_back( hit ); }
      t->indexes.push_back( ix ); c->tx.ddl = true; r.tag = "CREATE INDEX"; break;
    }
    default: r.tag = "SET"; break;
  }
}
// injected: the statement fails on the server
static void failStmt( pg_conn *c, pg_result &r, const std::string &state, const std::string &msg )
{
  r = pg_result(); r.status = PGRES_FATAL_ERROR; r.state = state; r.err = "ERROR:  " + msg + "\n"; c->err = r.err;
}
static pg_result execAll( pg_conn *c, const char *sql, bool injectError )
{
  pg_result r;
  std::string q( sql );
  std::vector<Stmt> st;
  try
  {
    if ( !utf8Ok( q ) ) pgErr( "22021", "invalid byte sequence for encoding \"UTF8\"" );
    Parser p( q );
    st = p.all();
  }
  catch ( PgErr &e ) { failStmt( c, r, e.state, e.msg ); if ( c->tx.open ) c->tx.aborted = true; return r; }
  if ( st.empty() ) { r.status = PGRES_EMPTY_QUERY; return r; }
  bool implicitTx = false;
  for ( size_t i = 0; i < st.size(); ++i )
  {
    Stmt &s = st[i];
    bool last = i + 1 == st.size();
    if ( s.k == Stmt::ROLLBACK ) { rollbackTx( c ); implicitTx = false; r = pg_result(); r.tag = "ROLLBACK"; continue; }
    if ( s.k == Stmt::COMMIT )
    {
      r = pg_result(); r.tag = "COMMIT";
      if ( c->tx.open && c->tx.aborted ) { rollbackTx( c ); r.tag = "ROLLBACK"; continue; }
      if ( injectError && last ) { rollbackTx( c ); failStmt( c, r, "40001", "could not serialize access due to read/write dependencies among transactions" ); return r; }
      if ( c->tx.open ) commitTx( c );
      continue;
    }
    if ( c->tx.open && c->tx.aborted && !c->tx.implicitTx ) { failStmt( c, r, "25P02", "current transaction is aborted, commands ignored until end of transaction block" ); return r; }
    if ( injectError && last )
    {
      static const char *msgs[][2] = { { "57014", "canceling statement due to statement timeout" }, { "40P01", "deadlock detected" }, { "53100", "could not extend file \"base/13/2619\": No space left on device" }, { "XX000", "could not read block 0 in file" } };
      auto &m = msgs[q.size() % 4];
      failStmt( c, r, m[0], m[1] );
      if ( c->tx.open && !c->tx.implicitTx ) c->tx.aborted = true; else rollbackTx( c );
      return r;
    }
    if ( s.k == Stmt::BEGIN )
    {
      r = pg_result(); r.tag = "BEGIN";
      if ( c->tx.open && !c->tx.implicitTx ) continue;          // a warning only
      c->tx.open = true; c->tx.implicitTx = false; c->tx.repeatable = s.repeatable; implicitTx = false;
      continue;
    }
    if ( !c->tx.open ) { c->tx.open = true; c->tx.implicitTx = true; implicitTx = true; }
    int waits = 0;
    for ( ;; )
    {
      try
      {
        refreshWork( c );
        g_self = c;
        runStmt( c, s, r );
        break;
      }
      catch ( Blocked &b )
      {
        // wait for the other transaction, unless it (indirectly) waits for this one
        bool dead = false;
        c->waitsFor = b.by;
        pg_conn *o = b.by; for ( int k = 0; o && k < 20; ++k, o = o->waitsFor ) if ( o == c ) dead = true;
        if ( ( dead || ++waits > 400 || !inCoroutine() || c->harness ) )
        {
          c->waitsFor = nullptr;
          failStmt( c, r, dead ? "40P01" : "55P03", dead ? "deadlock detected" : "canceling statement due to lock timeout" );
          if ( !c->tx.implicitTx ) c->tx.aborted = true; else rollbackTx( c );
          return r;
        }
        probe( "pg.lock_waits" );
        yieldNow();
        c->waitsFor = nullptr;
        if ( c->epoch != g_pgEpoch ) { rollbackTx( c ); failStmt( c, r, "57P01", "terminating connection due to administrator command" ); return r; }
      }
      catch ( PgErr &e )
      {
        failStmt( c, r, e.state, e.msg );
        if ( !c->tx.implicitTx ) c->tx.aborted = true; else rollbackTx( c );
        return r;
      }
    }
  }
  if ( implicitTx && c->tx.open && c->tx.implicitTx ) commitTx( c );
  return r;
}

// ------------------------------------------------------------------ harness side
struct PgClient::Impl { pg_conn c; };
PgClient::PgClient() : p( new Impl ) { HarnessScope hs; p->c.status = CONNECTION_OK; p->c.harness = true; p->c.epoch = g_pgEpoch; g_conns.push_back( &p->c ); }
PgClient::~PgClient() { HarnessScope hs; g_conns.erase( std::remove( g_conns.begin(), g_conns.end(), &p->c ), g_conns.end() ); delete p; }
PgAnswer PgClient::tryExec( const std::string &sql )
{
  HarnessScope hs;
  if ( p->c.epoch != g_pgEpoch ) { p->c.epoch = g_pgEpoch; p->c.tx.clear(); }
  pg_result r = execAll( &p->c, sql.c_str(), false );
  PgAnswer a; a.ok = r.status == PGRES_COMMAND_OK || r.status == PGRES_TUPLES_OK; a.err = r.err; a.state = r.state; a.tag = r.tag; a.rows = r.rows;
  return a;
}
void PgClient::exec( const std::string &sql ) { PgAnswer a = tryExec( sql ); if ( !a.ok ) herr( "postgres stand-in: %s in %s", a.err.c_str(), sql.substr( 0, 300 ).c_str() ); }

static Val toVal( const PgVal &v )
{
  switch ( v.k )
  {
    case 'N': return Val::Null();
    case 'b': case 'i': return Val::Int( v.i );
    case 'f': return Val::Dbl( strtod( pgOut( v ).c_str(), nullptr ) );      // the number its text says
    case 'n': case 'd': return Val::Dbl( v.d );
    case 'T': { std::string s = pgOut( v ); size_t p = s.find( ' ' ); if ( p != std::string::npos ) s[p] = 'T'; return Val::Text( s + "Z" ); }
    case 'y': return Val::Blob( v.s );
    case 'g': { uint32_t s = ( uint32_t )v.i; return Val::Blob( std::string( ( const char * )&s, 4 ) + v.s ); }
    default: return Val::Text( v.s );
  }
}
DbState pgRead( const std::string &schema )
{
  HarnessScope hs;
  DbState d; d.ok = true;
  auto s = g_pg.db.schemas.find( schema );
  if ( s == g_pg.db.schemas.end() ) { d.ok = false; d.err = "no schema " + schema; return d; }
  for ( auto &t : s->second.tables )
  {
    TableData td; std::string sql;
    for ( auto &c : t.second.cols ) if ( !c.dropped ) { td.cols.push_back( c.name ); td.pk.push_back( c.pk ); sql += c.name + " " + c.type + ( c.notnull ? " nn" : "" ) + ( c.pk ? " pk" : "" ) + ( c.seq.empty() ? "" : " serial" ) + ", "; }
    for ( auto &r : t.second.rows )
    {
      Row row; for ( size_t i = 0; i < t.second.cols.size(); ++i ) if ( !t.second.cols[i].dropped ) row.push_back( toVal( r.second[i] ) );
      Row key = td.hasPk() ? td.keyOf( row ) : Row{ Val::Int( ( int64_t )r.first ) };
      td.rows[key] = row;
    }
    d.tables[t.first] = td; d.schema["table " + t.first] = sql;
  }
  return d;
}
uint64_t pgHash( const std::string &schema ) { return pgRead( schema ).hash(); }
int pgConnections( const Proc *p ) { HarnessScope hs; int n = 0; for ( auto c : g_conns ) n += !c->harness && c->proc == p; return n; }
PgServer pgSnapshot() { return g_pg; }
void pgRestore( const PgServer &s ) { HarnessScope hs; ++g_pgEpoch; for ( auto c : g_conns ) c->tx.clear(); g_pg = s; }

static void lose( pg_conn *c, const char *why ) { rollbackTx( c ); c->status = CONNECTION_BAD; c->err = why; }
static void crashServer()
{
  ++g_pgEpoch;
  for ( auto c : g_conns ) { c->tx.clear(); if ( !c->harness ) { c->status = CONNECTION_BAD; c->err = "server closed the connection unexpectedly\n"; } }
}
static void procGone( Proc *p )
{
  HarnessScope hs;
  for ( auto c : g_conns ) if ( c->proc == p && !c->harness ) { c->tx.clear(); c->status = CONNECTION_BAD; }
}
static bool g_hooked = false;
}

// ------------------------------------------------------------------ libpq
using namespace sim;
extern "C" {
PGconn *PQconnectdb( const char *info )
{
  Action a = ioPoint( C_PG, "connect" );
  HarnessScope hs;
  if ( !g_hooked ) { g_hooked = true; g_onProcDeath.push_back( procGone ); }
  if ( a == A_PG_NULL ) return nullptr;
  pg_conn *c = new pg_conn;
  c->proc = g_proc; c->epoch = g_pgEpoch;
  g_conns.push_back( c );
  if ( a != A_OK || !g_pg.up || !strstr( info, "simpg" ) ) { c->status = CONNECTION_BAD; c->err = "connection to server failed: Connection refused\n"; return c; }
  c->status = CONNECTION_OK;
  return c;
}
ConnStatusType PQstatus( const PGconn *c ) { return c ? c->status : CONNECTION_BAD; }
void PQfinish( PGconn *c )
{
  if ( !c ) return;
  HarnessScope hs;
  g_conns.erase( std::remove( g_conns.begin(), g_conns.end(), c ), g_conns.end() );
  delete c;
}
char *PQerrorMessage( const PGconn *c ) { return ( char * )( c ? c->err.c_str() : "connection pointer is NULL\n" ); }
PGresult *PQexec( PGconn *c, const char *sql )
{
  if ( !c ) return nullptr;
  Action a;
  {
    std::string head; { HarnessScope hs; head = std::string( sql ).substr( 0, 40 ); for ( char &x : head ) if ( x == '\n' ) x = ' '; }
    a = ioPoint( C_PG, "pg %s", head.c_str() );
    HarnessScope hs2; std::string().swap( head );
  }
  HarnessScope hs;
  if ( c->status == CONNECTION_OK && c->epoch != g_pgEpoch ) { lose( c, "server closed the connection unexpectedly\n" ); pg_result *r = new pg_result; r->status = PGRES_FATAL_ERROR; r->err = c->err; return r; }
  if ( c->status != CONNECTION_OK ) { c->err = "no connection to the server\n"; return nullptr; }
  auto lost = [&]() { pg_result *r = new pg_result; r->status = PGRES_FATAL_ERROR; r->err = c->err; return r; };
  if ( a == A_PG_BEFORE ) { lose( c, "server closed the connection unexpectedly\n" ); return lost(); }
  if ( a == A_PG_CRASH )
  {
    // a commit may have reached the log or not
    if ( ch.choose( 2 ) ) execAll( c, sql, false );
    crashServer();
    return lost();
  }
  bool rb = strncasecmp( sql, "rollback", 8 ) == 0;
  pg_result r = execAll( c, sql, a == A_PG_ERR && !rb );
  if ( a == A_PG_AFTER ) { lose( c, "server closed the connection unexpectedly\n" ); return lost(); }
  if ( a == A_PG_NULL ) { c->err = "out of memory\n"; return nullptr; }
  if ( c->epoch != g_pgEpoch ) { lose( c, "server closed the connection unexpectedly\n" ); return lost(); }
  return new pg_result( r );
}
void PQclear( PGresult *r ) { HarnessScope hs; delete r; }
ExecStatusType PQresultStatus( const PGresult *r ) { return r ? r->status : PGRES_FATAL_ERROR; }
char *PQresultErrorMessage( const PGresult *r ) { return ( char * )( r ? r->err.c_str() : "" ); }
char *PQresultErrorField( const PGresult *r, int ) { return ( char * )( r ? r->state.c_str() : nullptr ); }
int PQntuples( const PGresult *r ) { return r ? ( int )r->rows.size() : 0; }
int PQnfields( const PGresult *r ) { return r ? ( int )r->fields : 0; }
char *PQgetvalue( const PGresult *r, int i, int j ) { return !r || i < 0 || j < 0 || i >= ( int )r->rows.size() || j >= ( int )r->rows[i].size() ? nullptr : ( char * )r->rows[i][j].second.c_str(); }
int PQgetisnull( const PGresult *r, int i, int j ) { return !r || i < 0 || j < 0 || i >= ( int )r->rows.size() || j >= ( int )r->rows[i].size() ? 1 : r->rows[i][j].first; }
int PQgetlength( const PGresult *r, int i, int j ) { return !r || i >= ( int )r->rows.size() || j >= ( int )r->rows[i].size() ? 0 : ( int )r->rows[i][j].second.size(); }
char *PQcmdTuples( PGresult *r ) { return ( char * )( r ? r->tuples.c_str() : "" ); }
char *PQcmdStatus( PGresult *r ) { return ( char * )( r ? r->tag.c_str() : "" ); }
PGTransactionStatusType PQtransactionStatus( const PGconn *c ) { if ( !c || c->status != CONNECTION_OK ) return PQTRANS_UNKNOWN; return !c->tx.open ? PQTRANS_IDLE : c->tx.aborted ? PQTRANS_INERROR : PQTRANS_INTRANS; }
char *PQescapeLiteral( PGconn *, const char *s, size_t n )
{
  std::string v( s, strnlen( s, n ) ), r = "'"; bool bs = v.find( '\\' ) != std::string::npos;
  for ( char x : v ) { if ( x == '\'' || x == '\\' ) r += x; r += x; }
  return strdup( ( ( bs ? " E" : "" ) + r + "'" ).c_str() );
}
char *PQescapeIdentifier( PGconn *, const char *s, size_t n )
{
  std::string v( s, strnlen( s, n ) ), r = "\"";
  for ( char x : v ) { if ( x == '"' ) r += x; r += x; }
  return strdup( ( r + "\"" ).c_str() );
}
void PQfreemem( void *p ) { free( p ); }
void PQreset( PGconn *c )
{
  if ( !c ) return;
  Action a = ioPoint( C_PG, "reconnect" );
  HarnessScope hs;
  rollbackTx( c );
  c->epoch = g_pgEpoch; c->err.clear();
  if ( a != A_OK || !g_pg.up ) { c->status = CONNECTION_BAD; c->err = "connection to server failed: Connection refused\n"; } else c->status = CONNECTION_OK;
}
char *PQresStatus( ExecStatusType s ) { return ( char * )( s == PGRES_COMMAND_OK ? "PGRES_COMMAND_OK" : s == PGRES_TUPLES_OK ? "PGRES_TUPLES_OK" : s == PGRES_EMPTY_QUERY ? "PGRES_EMPTY_QUERY" : "PGRES_FATAL_ERROR" ); }
int PQserverVersion( const PGconn *c ) { return c && c->status == CONNECTION_OK ? 160000 : 0; }
size_t PQescapeStringConn( PGconn *, char *to, const char *from, size_t n, int *err )
{
  size_t o = 0; if ( err ) *err = 0;
  for ( size_t i = 0; i < n && from[i]; ++i ) { if ( from[i] == '\'' ) to[o++] = '\''; to[o++] = from[i]; }
  to[o] = 0; return o;
}
PGresult *PQexecParams( PGconn *c, const char *sql, int n, const Oid *, const char *const *v, const int *, const int *, int )
{
  std::string q; bool inq = false, inid = false;
  for ( const char *p = sql; *p; ++p )
  {
    if ( *p == '\'' && !inid ) inq = !inq; else if ( *p == '"' && !inq ) inid = !inid;
    if ( *p == '$' && !inq && !inid && isdigit( ( unsigned char )p[1] ) )
    {
      int k = atoi( p + 1 ); while ( isdigit( ( unsigned char )p[1] ) ) ++p;
      if ( k < 1 || k > n || !v[k - 1] ) q += "NULL"; else { char *l = PQescapeLiteral( c, v[k - 1], strlen( v[k - 1] ) ); q += l; free( l ); }
    }
    else q += *p;
  }
  return PQexec( c, q.c_str() );
}
}
