// Database side of the harness: generated schemas, application edits, and reading a database back
// as plain rows (the oracle's view), independent of geodiff.
#pragma once
#include "simfs.h"

namespace sim {

struct Val
{
  int t = 0;           // 0 undefined, 1 int, 2 double, 3 text, 4 blob, 5 null
  int64_t i = 0;
  double d = 0;
  std::string s;
  static Val Int( int64_t v ) { Val x; x.t = 1; x.i = v; return x; }
  static Val Dbl( double v ) { Val x; x.t = 2; x.d = v; return x; }
  static Val Text( const std::string &v ) { Val x; x.t = 3; x.s = v; return x; }
  static Val Blob( const std::string &v ) { Val x; x.t = 4; x.s = v; return x; }
  static Val Null() { Val x; x.t = 5; return x; }
  bool operator==( const Val &o ) const;
  bool operator!=( const Val &o ) const { return !( *this == o ); }
  bool operator<( const Val &o ) const;
  std::string str() const;
};
typedef std::vector<Val> Row;
std::string rowStr( const Row &r );

struct TableData
{
  std::vector<std::string> cols;
  std::vector<int> pk;              // 0 or position in key
  std::vector<int> nn;              // NOT NULL
  bool hasPk() const { for ( int p : pk ) if ( p ) return true; return false; }
  std::map<Row, Row> rows;          // key values -> all values (rowid when there is no key)
  Row keyOf( const Row &r ) const { Row k; for ( size_t i = 0; i < pk.size(); ++i ) if ( pk[i] ) k.push_back( r[i] ); return k; }
};
struct DbState
{
  bool ok = false;
  std::string err;                       // cannot open / integrity check
  std::map<std::string, TableData> tables;
  std::map<std::string, std::string> schema;    // "type name" -> sql
  std::string derived;                   // inconsistency of derived tables, empty if fine
  std::string journalMode;
  uint64_t hash() const;
};
DbState readDb( const std::string &path );
// "" when equal; what differs otherwise
std::string diffData( const DbState &a, const DbState &b, bool schemaToo = true, bool keyedOnly = false );

// thin sqlite wrapper used by the harness (throws HarnessError on unexpected errors)
struct Db
{
  sqlite3 *h = nullptr;
  int epoch = 0;            // a power cut ends the process owning the handle too
  Db() {}
  explicit Db( const std::string &path, bool create = false );
  ~Db() { close(); }
  Db( const Db & ) = delete;
  void close();
  int tryExec( const std::string &sql );
  void exec( const std::string &sql );
  int run( const std::string &sql, const Row &binds );      // returns sqlite rc of step
  std::vector<Row> query( const std::string &sql, const Row &binds = {} );
  int tryQuery( const std::string &sql, std::vector<Row> &out );     // sqlite rc, SQLITE_DONE when fine
};
Val colVal( sqlite3_stmt *st, int i );
std::string qi( const std::string &ident );
std::string qs( const std::string &str );

enum Kind { K_INT, K_REAL, K_TEXT, K_BLOB, K_GEOM, K_ANY, K_BOOL, K_DATETIME };
struct ColSpec
{
  std::string name, type;
  Kind kind = K_INT;
  int pk = 0;
  bool notnull = false;
  bool unique = false;
  std::string collate, extra;      // extra: DEFAULT, CHECK, REFERENCES
  bool f32 = false;                 // values a single precision number has
  std::string geom;                 // geometry values made by wkbGeom (PostgreSQL scenarios)
  bool z = false, m = false, env = false;
  int srs = 4326;
};
struct TableSpec
{
  std::string name;
  std::vector<ColSpec> cols;
  bool worowid = false, autoinc = false, strict = false;
  std::string geomType; int srs = 4326; bool z = false, m = false;
  bool rtree = false;
  std::string onConflict;       // " ON CONFLICT ..." of every constraint
  bool hasPk() const { for ( auto &c : cols ) if ( c.pk ) return true; return false; }
  int geomCol() const { for ( size_t i = 0; i < cols.size(); ++i ) if ( cols[i].kind == K_GEOM ) return ( int )i; return -1; }
};
struct DbSpec
{
  bool gpkg = false;
  std::vector<TableSpec> tables;
  std::vector<std::pair<std::string, std::string>> userTriggers;   // name, sql
  std::vector<std::string> extraSql;
  std::string journal = "delete";
  int pageSize = 1024, autoVacuum = 0;
  std::string encoding;            // empty: UTF-8
};
struct GenCfg
{
  int gpkgPct = 50;
  bool weirdNames = true;
  bool intPkOnly = false;      // single INTEGER PRIMARY KEY in every keyed table
  bool noPkTables = true;
  bool userTriggers = false;
  bool unique = true;
  bool wal = true;
  bool bigKeys = true;
  bool collate = true;
  int textKeyPct = 0;          // with intPkOnly: tables with a TEXT key instead; each editor inserts keys of its own
  bool collateKeys = false;    // text keys compared without regard to case
  bool wide = true;
  int maxTables = 3;
  bool pgSafe = false;         // only what the postgres driver supports
  bool nulText = true;
  bool fk = false;             // foreign keys (never enforced, SQLite's default)
  bool encodings = true;       // UTF-16 databases
  bool envelopes = false;      // some geometries have an envelope in their header
};
DbSpec genSpec( const GenCfg &cfg );
std::string tableSql( const TableSpec &t );
void createDb( const std::string &path, const DbSpec &spec );
Val genVal( const ColSpec &c, const GenCfg &cfg );
Row genKey( const TableSpec &t, const GenCfg &cfg, int side = 0 );
struct EditCfg
{
  int ops = 5;
  bool metaTouch = true;         // touch gpkg_contents.last_change as OGR does
  bool pkChange = true;
  int side = 0;                  // used to make texts of different editors differ sometimes
  std::function<bool( const std::string &table )> only;
};
// returns number of statements that changed something
int appEdit( const std::string &path, const DbSpec &spec, const GenCfg &g, const EditCfg &e );
int appEditOn( Db &db, const DbSpec &spec, const GenCfg &g, const EditCfg &e );
void fillDb( const std::string &path, const DbSpec &spec, const GenCfg &g, int rows );
std::string geomBlob( int which, int srs );
std::string wkbGeom( const std::string &type, bool z, bool m, int which );     // little endian ISO WKB
std::string gpkgGeom( const std::string &wkb, int srs, bool envelope );
bool geomBounds( const std::string &blob, double &x0, double &x1, double &y0, double &y1 ); // false: empty or no geometry
std::string specStr( const DbSpec &s );
} // namespace sim
