// Shared pieces of the scenarios: API calls as simulated processes, fault planning, JSON, merge model.
#pragma once
#include "csformat.h"
#include "geodiff.h"

namespace sim {

void runScenario( const std::string &prop );
extern std::string g_sample;         // one-line description of the case of this run
extern bool g_nontrivial;            // the run exercised what the property is about
extern uint64_t g_caseHash;
extern bool g_thorough;
void sampleAdd( const char *fmt, ... ) __attribute__( ( format( printf, 1, 2 ) ) );

// ---------------------------------------------------------------- calls
typedef std::function<int()> Fn;
struct ApiCall { std::string name; Fn fn; std::vector<std::string> outs; };    // outs: files it may create
// path: 0 C function, 1 Ex function with driver, 2 command line tool
ApiCall cCreate( const std::string &base, const std::string &mod, const std::string &out, int path = -1 );
ApiCall cApply( const std::string &db, const std::string &cs, int path = -1 );
ApiCall cInvert( const std::string &cs, const std::string &out );
ApiCall cRebased( const std::string &base, const std::string &mod, const std::string &their, const std::string &out, const std::string &conf, int path = -1 );
ApiCall cRebasedEx( const std::string &base, const std::string &b2m, const std::string &b2t, const std::string &out, const std::string &conf );
ApiCall cRebase( const std::string &base, const std::string &modTheir, const std::string &mod, const std::string &conf );
ApiCall cRebaseEx( const std::string &base, const std::string &mod, const std::string &b2t, const std::string &conf, int path = -1 );
ApiCall cHas( const std::string &cs );
ApiCall cCount( const std::string &cs );
ApiCall cList( const std::string &cs, const std::string &json, int path = -1 );
ApiCall cSummary( const std::string &cs, const std::string &json, int path = -1 );
ApiCall cDump( const std::string &src, const std::string &out, int path = -1 );
ApiCall cCreateEx( const std::string &drv, const std::string &info, const std::string &base, const std::string &mod, const std::string &out );
ApiCall cApplyEx( const std::string &drv, const std::string &info, const std::string &db, const std::string &cs );
ApiCall cDumpEx( const std::string &drv, const std::string &info, const std::string &src, const std::string &out );
ApiCall cRebasedDrv( const std::string &drv, const std::string &info, const std::string &base, const std::string &b2m, const std::string &b2t, const std::string &out, const std::string &conf );
ApiCall cRebaseDrv( const std::string &drv, const std::string &info, const std::string &base, const std::string &mod, const std::string &b2t, const std::string &conf );
ApiCall cCopy( const std::string &sd, const std::string &si, const std::string &src, const std::string &dd, const std::string &di, const std::string &dst );

ApiCall cTool( const std::vector<std::string> &args );      // geodiffinfo with these arguments

int toolLevel();
void toolChecks( int lev, const std::vector<std::string> &full, const ApiCall &api, const std::function<void()> &restore, const std::function<std::string()> &state );

struct Outcome : CallResult { std::string log; Proc *proc = nullptr; bool ok() const { return done && rc == 0; } };
// runs the call alone in a new process; an escaping exception is a violation
Outcome call( const ApiCall &c, const std::vector<Fault> &faults = {}, bool exceptionOk = false );
// fault-free, must succeed or it is a violation of class cls
void mustOk( const ApiCall &c, const std::string &cls );
struct LogRec { int cb, level; std::string text; };
extern std::vector<LogRec> g_logAll;                        // every message delivered since the last call started
extern std::function<void( size_t )> g_logHook;             // runs inside the callback, after the message was recorded
void setLogger( int cb, int level );                        // callback 0 or 1, or -1: none
extern std::string g_lastLog;       // messages geodiff logged during the last call

// ---------------------------------------------------------------- faults
struct OpCounts { uint64_t n[C_N]; };
// dry run: counts operations, state restored afterwards. rc of the dry run in out
OpCounts dryRun( const ApiCall &c, Outcome *out = nullptr, const std::function<void()> &after = nullptr );
enum FaultSet { FS_DEATH = 1, FS_DB = 2, FS_STREAM = 4, FS_MEM = 8, FS_LOCK = 16, FS_UNLINK = 32, FS_BENIGN = 64, FS_PG = 128, FS_ALL = 255, FS_ERR = 2 | 4 | 8 | 16 | 128 };
Fault pickFault( const OpCounts &oc, int sets );
std::string faultStr( const Fault &f );

// runs the call, some of the time under a fault; returns when it reported success (at the latest without faults)
void okUnderFaults( const ApiCall &c, const std::string &cls, int sets = FS_ALL & ~FS_UNLINK & ~FS_DEATH, int pct = 35 );

// ---------------------------------------------------------------- worlds
struct World
{
  GenCfg g;
  DbSpec sp;
  std::string dir;
  std::string path( const std::string &f ) const { return dir + f; }
};
EditCfg ec( int ops, int side = 0 );
World mkPair( const GenCfg &g, int rows, int ops, const std::string &dir = "/sim/w/" );    // base.gpkg, mod.gpkg
bool sameDb( const DbState &a, const DbState &b, std::string &why );
World mkWorld( const GenCfg &g, const std::string &dir, const std::string &file, int rows = 6 );
DbState mustRead( const std::string &path, const std::string &cls, const char *what );
std::set<std::string> fileSet( const std::string &prefix );
bool sidecar( const std::string &f );       // -journal / -wal / -shm
void randomFsKnobs();

// base, ours and theirs with the changesets between them
struct Three { World w; DbState B, T, O; std::string base, mod, their, b2t, b2m, conf, out; int trouble = 0; };
Three mkThree( const GenCfg &g, const std::string &dir, int emptyPct = 8, int rows = -1 );
GenCfg rebaseCfg();

// ---------------------------------------------------------------- JSON
struct Json
{
  enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t = NUL;
  std::string s;                  // number text or string
  bool b = false;
  std::vector<Json> a;
  std::vector<std::pair<std::string, Json>> o;
  const Json *get( const std::string &k ) const { for ( auto &p : o ) if ( p.first == k ) return &p.second; return nullptr; }
};
bool parseJson( const std::string &text, Json &out, std::string &err );
std::string b64( const std::string &s );
bool jsonIs( const Json &j, const Val &v );     // the JSON value states this value
// listing agrees with the changeset ("" or what is wrong)
std::string checkListing( const std::string &json, const Changeset &c );
std::string checkSummary( const std::string &json, const Changeset &c );

// ---------------------------------------------------------------- three-way merge
// "" or what is wrong with `fin` as the merge of the two sides
std::string checkMerge( const DbState &base, const DbState &theirs, const DbState &ours, const DbState &fin );
int renumberTrouble( const DbState &base, const DbState &theirs, const DbState &ours );    // 1: known finding F23, 2: no free keys
// conflict report
struct ConflictCell { Val base, theirs, ours; };
typedef std::map<std::pair<std::string, Row>, std::map<int, ConflictCell>> ConflictMap;
void refConflicts( const DbState &base, const DbState &theirs, const DbState &ours, ConflictMap &must );
std::string checkConflicts( const std::string &confPath, const DbState &base, const DbState &theirs, const DbState &ours );

// C20: the call under every level, with changes of level and callback in the middle
void logChecks( const ApiCall &c, bool answer, const OpCounts &oc, int sets, const std::function<void()> &restore, const std::function<std::string()> &state );
// scenarios
void scenC01(); void scenC02(); void scenC03(); Changeset inventCs( int maxEntries );
void scenC04(); void scenC05(); void scenC06(); void scenC07();
void scenC08(); void scenC09(); void scenC10(); void scenC11(); void scenC12(); void scenC13(); void scenC14();
void scenC15(); void scenC16(); void scenC17(); void scenC18(); void scenC19(); void scenC20(); void scenC22(); void scenC23();

} // namespace sim
