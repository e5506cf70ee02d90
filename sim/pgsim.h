// Stand-in for libpq and a PostgreSQL/PostGIS server: a small SQL engine with schemas, transactions, row locks,
// sequences and the catalog tables, behind the libpq functions. Faults come in through ioPoint( C_PG ).
#pragma once
#include "db.h"

namespace sim {

struct PgVal
{
  // N null, U untyped literal, b bool, i integer, n numeric constant, f real, d double precision, t text, c citext,
  // T timestamp (microseconds in i), y bytea, g geometry (srid in i, WKB in s), a array of integers, o anything else (text)
  char k = 'N';
  int64_t i = 0;
  double d = 0;
  std::string s;
};
typedef std::vector<PgVal> PgRow;
struct PgCol
{
  std::string name, type;           // type as format_type() says it
  bool notnull = false, dropped = false;
  int pk = 0;                       // position in the primary key
  std::string seq;                  // sequence of a serial column
  std::string geomType; int srid = -1;     // upper case, with Z/M
  std::string def;
};
struct PgIndex { std::string name; bool unique = false; std::vector<int> cols; };
struct PgTable
{
  int oid = 0;
  std::vector<PgCol> cols;
  std::vector<PgIndex> indexes;
  std::map<uint64_t, PgRow> rows;
};
struct PgSeq { int id = 0; std::string table, col; };
struct PgSchema { int oid = 0; std::map<std::string, PgTable> tables; std::map<std::string, PgSeq> seqs; };
struct PgDb { uint64_t version = 0; std::map<std::string, PgSchema> schemas; };
struct PgSeqVal { int64_t last = 1; bool called = false; };
struct PgServer
{
  PgDb db;                                     // what is committed
  std::map<int, PgSeqVal> seqVals;             // not transactional
  uint64_t nextRow = 1; int nextOid = 16384, nextSeq = 1;
  bool up = true;
};
extern PgServer g_pg;
extern int g_pgOrder;                          // order of rows nobody asked to be ordered

struct PgAnswer { bool ok = false; std::string err, state, tag; std::vector<std::vector<std::pair<bool, std::string>>> rows; };
// one connection of the harness (no faults, no scheduling points)
struct PgClient
{
  struct Impl; Impl *p;
  PgClient(); ~PgClient();
  PgAnswer tryExec( const std::string &sql );
  void exec( const std::string &sql );
};
DbState pgRead( const std::string &schema );   // committed rows, geometries as srid + WKB
std::string pgLit( const std::string &s );     // quoted string
uint64_t pgHash( const std::string &schema );
int pgConnections( const Proc * );             // a process has open
PgServer pgSnapshot();
void pgRestore( const PgServer & );            // all connections are closed by this
std::string pgOut( const PgVal &v );

} // namespace sim
