// Independent reading of the documented changeset format, and the reference models (diff, apply,
// invert, three-way merge) the oracles are made of.  Shares no code with geodiff.
#pragma once
#include "db.h"

namespace sim {

struct CsTable { std::string name; std::vector<bool> pk; size_t headerPos = 0; int entries = 0; };
enum CsOp { OP_INSERT = 18, OP_UPDATE = 23, OP_DELETE = 9 };
struct CsEntry { int table = -1; int op = 0; int indirect = 0; Row oldv, newv; size_t end = 0; };
struct Changeset
{
  bool ok = false;              // the whole file parsed
  std::string err;
  std::vector<CsTable> tables;  // one per header met (a name may occur twice)
  std::vector<CsEntry> entries; // entries readable in full
  std::vector<size_t> cuts;     // record boundaries (file offsets), 0 first
  const std::string &tableOf( const CsEntry &e ) const { return tables[e.table].name; }
};
Changeset parseCs( const std::string &bytes, bool anyFlag = false );   // anyFlag: key flags other than 0 and 1 read as 1
std::string encodeCs( const Changeset &c );
void encTable( std::string &o, const CsTable &t );
void encEntry( std::string &o, const CsEntry &e );
void encVal( std::string &o, const Val &v );
void encVarint( std::string &o, uint64_t v );

// one change, keyed: the set view of a changeset
struct Change
{
  int op = 0; Row oldv, newv;
  bool operator==( const Change &o ) const { return op == o.op && oldv == o.oldv && newv == o.newv; }
  std::string str() const;
};
typedef std::map<std::string, std::map<Row, Change>> ChangeMap;    // table -> key -> change

// strict content rules of an emitted changeset ("" = fine): format, shape of records, minimality
std::string strictCs( const Changeset &c, bool minimal = true, bool caseKeys = false );
// "" and fills m, or what is wrong (two changes for one key)
std::string toMap( const Changeset &c, ChangeMap &m );
std::string diffMaps( const ChangeMap &want, const ChangeMap &got );

bool skipTable( const std::string &name );        // derived tables the tool leaves to triggers
ChangeMap refDiff( const DbState &a, const DbState &b );
Change refInvertChange( const Change &c, const std::vector<bool> &pk );
ChangeMap refInvert( const ChangeMap &m, const DbState &schema );

struct RefApply { bool ok = false; bool transientUnique = false; std::string why; DbState state; };
// spec: not-null and unique constraints of user tables
RefApply refApply( const DbState &base, const Changeset &c, const DbSpec &spec );
// every table empty
DbState emptied( const DbState &s );

} // namespace sim
