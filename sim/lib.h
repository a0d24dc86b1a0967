#pragma once
#include <set>
#include "scen.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"
#include <memory>
#include <mutex>

namespace sim {

// ------------------------------------------------------------------ keys
// key id = (d * NI + i) * NF + f : database, index, datum
constexpr int NI = 4, NF = 12;
inline int dbOf(int k) { return k / (NI * NF); }
inline int ixOf(int k) { return k / NF % NI; }
inline int mkKey(int d, int i, int f) { return (d * NI + i) * NF + f; }
std::vector<std::pair<std::string, std::string>> keyVals(int k);
fdb5::Key keyOf(int k);
metkit::mars::MarsRequest reqOf(int k);                 // full request for one field
int keyId(const fdb5::Key& k);                          // -1 if not one of ours
std::string keyStr(int k);
// selection of keys by value sets; empty set: not constrained
struct Sel {
    std::map<std::string, std::set<std::string>> v;
    int alt = 0;             // bits: write times, levels, steps another way than they are stored
    bool matches(int k) const;
    metkit::mars::MarsRequest request(const char* verb = "retrieve") const;
    std::string str() const;
};
Sel selDb(int d);
Sel selIx(int d, int i);
Sel selAcross(const std::vector<int>& keys, int like);
Sel selFields(const std::vector<int>& keys, int d, int i);  // explicit value sets of the keys of one index (retrieve needs every keyword)
std::string keyword(int k, const std::string& kw);

// ------------------------------------------------------------------ model
enum VState : uint8_t { V_ARCHIVING, V_ARCHIVED, V_FLUSHED, V_FAILED };
struct Ver {
    int id, key, len, actor, obj;
    uint64_t ab, ae, fb, fe;  // archive begin/end, flush begin/end (steps)
    uint8_t st;
    uint64_t eb, ee;          // erased (wiped, hidden): not before eb, certainly after ee
    int cfg;
    bool sub;                 // written with a sub-toc
    uint64_t fbAll;           // begin of the first flush tried after it
};
struct ActorRec { sstr name; int procIdx; uint64_t death; bool done; int errors; bool mayFail; sstr lastError; bool remote; bool mayDie; bool tool; };
struct Model {
    svec<Ver> vers;
    svec<ActorRec> actors;
    int nextObj = 0;
    svec<int> universe;      // key ids in play
    int nextGid = 0;
    bool fullExact = true;   // Full listings must show each version at most once and every committed one
    bool remote = false;
    sstr prop;
    smap<sstr, sstr> configs;   // YAML by name
    smap<sstr, int> flags;
    smap<sstr, sstr> knobs;  // eckit resources every actor sets before it starts
    svec<uint64_t> objOpened;
    svec<uint64_t> objClosed; // step at which an FDB object had been destroyed (0: open)
    uint64_t wipes = 0;
    svec<sstr> notes;
};
Model& M();
std::string payload(int ver, int len);
int matchVersion(int key, const std::string& bytes);   // -1: none
bool committed(const Ver& v);
bool definitelyAfter(const Ver& w, const Ver& v);
int keyVersions(int key);

// ------------------------------------------------------------------ operations of an actor
enum OpK : uint8_t { A_ARCHIVE, A_FLUSH, A_RETRIEVE, A_LIST, A_LISTFULL, A_INSPECT, A_REOPEN, A_SLEEP, A_MULTI, A_CUSTOM, A_NKINDS };
struct OpSpec { int gid = -1; OpK k; int key = 0; int len = 0; int a = 0; std::function<void(fdb5::FDB&)> fn; Sel sel; bool inline_ = true; };
OpSpec op(OpK k, int key = 0, int len = 0, int a = 0);
OpSpec opSel(OpK k, const Sel& s);
OpSpec opFn(std::function<void(fdb5::FDB&)> fn);

struct Actor {
    std::string name;
    int role = 0;
    std::string cfg = "main";
    bool subToc = false;
    bool mayFail = false;     // operations may throw (faults are injected into it)
    bool mayDie  = false;     // an exception that nothing can catch may end it
    bool closeAtEnd = true;
    bool leakOnFail = false;  // an object that reported a failure is never used again, not even destroyed
    bool retryFlush = false;  // a flush that failed is tried again on the same object
    std::vector<OpSpec> ops;
    std::vector<std::vector<OpSpec>> threads;  // run concurrently after ops
    bool shareFdb = true;     // the threads share one FDB object
    std::vector<std::string> tool;  // runs this command line instead
};
int startActor(const Actor& a);                     // returns process index
void finishActors(const std::vector<int>& procs, bool allowDeath = true);  // waits; a process that died by itself is a violation
void applyKnobs();
void runActor(const Actor& a);                      // start and wait
extern thread_local std::string lastErr;

fdb5::Config config(const std::string& name, bool subToc = false);
void defineConfig(const std::string& name, const std::string& yaml);
std::string localYaml(const std::vector<std::string>& roots, const std::string& schema = "/sim/etc/schema");
extern const char* SCHEMA;
std::string dbDir(const std::string& root, int d);
// an auxiliary file (as gribjump makes them) beside some of these data files
void putAux(const std::set<std::string>& dataFiles, double p);
inline std::string auxOf(const std::string& data) { return data + ".gribjump"; }
inline std::string auxText(const std::string& data) { return "auxiliary of " + data.substr(data.rfind('/') + 1); }

// ------------------------------------------------------------------ checks inside a reading process
[[noreturn]] void bad(const std::string& sig, const std::string& details);
const Ver* mustExist(int key, uint64_t rb);
fdb5::FDBToolRequest toolRequest(const Sel& s);
struct Loc { int key; std::string path; long off, len; };
std::vector<Loc> locations(fdb5::FDB& fdb, const Sel& s, bool dedup);
std::string readHandle(eckit::DataHandle& h, long chunk = 0);
uint64_t snapshot(int key, uint64_t rb);
void checkRetrieve(fdb5::FDB& fdb, int key, bool mayFail);
void checkMulti(fdb5::FDB& fdb, const Sel& s, bool mayFail);
void checkList(fdb5::FDB& fdb, const Sel& s, bool dedup, bool readBytes, bool mayFail);
void checkInspect(fdb5::FDB& fdb, int key, bool mayFail);
// read everything back in a fresh process
void verifyAll(const std::string& cfg = "main", bool full = true, bool subToc = false);

Sel randomSel(const std::vector<int>& keys);
void checkLevels(fdb5::FDB& fdb, const Sel& s);
void checkAxes(fdb5::FDB& fdb, const Sel& s);

// ------------------------------------------------------------------ world set-up
void begin(const std::string& prop);                      // model, schema, policy
void choosePolicy(double serialP = 0.1);
Fault& addFault(FaultKind k, int role, Cls c, uint64_t nth, int64_t arg = 0, int64_t arg2 = 0);
uint64_t pickNth();
Fault crashFault(int role);
int pickLen();
void knob(const std::string& name, const std::string& value);
void randomKnobs(bool evict = true, bool async = true);
void sprinkle(std::vector<OpSpec>& ops, const std::vector<int>& keys, double p);  // adds reads between operations
OpSpec readOp(const std::vector<int>& keys);
void ioFault(int role, bool write);
extern bool threadsShare;
std::vector<int> pickKeys(int nd, int ni, int nf);
std::vector<OpSpec> writerOps(const std::vector<int>& keys, int n, double flushP, bool endFlush);
bool oneIn(int n);
bool died(int procIdx);
void checkEscapes();

}  // namespace sim
