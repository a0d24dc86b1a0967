// Scenarios with FDB servers: the real client, catalogue server and store servers over the simulated network
#include "lib.h"
#include "fdb5/remote/FdbServer.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/database/FieldLocation.h"
#include "eckit/io/DataHandle.h"
#include <signal.h>
#include <unistd.h>
using namespace fdb5;
namespace sim {

enum { R_CAT = 50, R_STORE = 51 };   // stores: R_STORE, R_STORE + 1

struct SimServer : remote::FdbServerBase {
    void hookUnique() override {}
};

struct Deploy {
    bool mixed = false;   // some clients have the catalogue themselves and only the stores are remote
    bool threaded[3] = {}, single = false, local = false;
    int nstores = 1;
    bool direct = false;          // catalogue and store behind one address
    std::vector<int> procs = {-1, -1, -1};
};
static Deploy dep;

static const char* srvName(int i) { return i == 0 ? "catalogue" : i == 1 ? "store1" : "store2"; }
static int startServer(int i) {
    std::string n = srvName(i);
    int p = spawn(n, R_CAT + i, [n] {
        applyKnobs();
        ::setenv("FDB5_CONFIG_FILE", ("/sim/etc/" + n + ".yaml").c_str(), 1);
        SimServer s;
        s.doRun();
    });
    dep.procs[i] = p;
    return p;
}
static bool listening(int port) {
    auto it = W->ports->find(port);
    return it != W->ports->end() && it->second && it->second->listening;
}
static void waitListening() {
    for (int i = 0; i <= dep.nstores; i++)
        for (int n = 0; !listening(10000 + i); n++) {
            if (n > 2000 || !proc(dep.procs[i])->alive) bad("a server does not start", srvName(i));
            sleep_until(now() + 1000);
            point(OP_MARK);
        }
}
static void startServers() {
    bool any = false;
    for (int i = 0; i <= dep.nstores; i++)
        if (dep.procs[i] < 0 || !proc(dep.procs[i])->alive) { startServer(i); any = true; }
    if (any) waitListening();
}
// every process of the server
static void killServer(int i) {
    for (Proc* p : *W->procs)
        if (p->role == R_CAT + i && p->alive) kill_proc(p, SIGKILL);
}

static void deploy(bool stores2) {
    Rng& r = W->rwork;
    dep = Deploy();
    for (bool& t : dep.threaded) t = oneIn(2);
    dep.single = oneIn(4);
    dep.local  = oneIn(2);
    dep.nstores = stores2 && oneIn(2) ? 2 : 1;
    M().remote = true;
    if (oneIn(10)) { M().flags[SS("huge")] = 2; knob("fdbReadLimit", std::to_string(10000000 + r.below(20000000))); }
    auto root = [](const std::string& p) { return "schema: /sim/etc/schema\nspaces:\n- handler: Default\n  roots:\n  - path: " + p + "\n"; };
    std::string conn = dep.single ? "supportedConnections: [1]\n" : "";
    std::string st = "stores:\n";
    std::string sl = dep.local ? "  serveLocalData: true\n" : "";
    if (dep.nstores == 2) { st += "- default: \"localhost:10001\"\n- default: \"localhost:10002\"\n"; dep.local = false; }
    else st += "- default: \"localhost:10001\"\n" + sl;
    auto thr = [&](int i) { return std::string("serverThreaded: ") + (dep.threaded[i] ? "true\n" : "false\n"); };
    defineConfig("catalogue", "---\ntype: catalogue\nserverPort: 10000\n" + thr(0) + conn + st + root("/sim/cat"));
    defineConfig("store1", "---\ntype: store\nserverPort: 10001\n" + thr(1) + conn + root("/sim/st1"));
    defineConfig("store2", "---\ntype: store\nserverPort: 10002\n" + thr(2) + conn + root("/sim/st2"));
    defineConfig("remote", "---\ntype: remote\nstore: remote\nengine: remote\nhost: localhost\nport: 10000\n" + conn);
    defineConfig("local", localYaml({"/sim/cat"}));
    dep.mixed = !dep.local && oneIn(4);
    std::string eps = dep.nstores == 2 ? "[\"localhost:10001\", \"localhost:10002\"]\n" : "[\"localhost:10001\"]\n";
    defineConfig("mixed", localYaml({"/sim/cat"}) + "store: remote\nstores: " + eps + "fieldLocationEndpoints: " + eps + conn);
    for (auto p : {"/sim/cat", "/sim/st1", "/sim/st2"}) fs_mkdirs(p);
    W->shortReadP = r.chance(0.5) ? 0.3 : 0;
    if (!dep.local && oneIn(2)) {   // the stores have disks of their own
        (*W->homeOf)[SS("st1")] = R_CAT + 1;
        (*W->homeOf)[SS("st2")] = R_CAT + 2;
        count("own_disks");
    }
    startServers();
}
static Actor client(const std::string& n, int role, std::vector<OpSpec> ops) {
    Actor a;
    a.name = n;
    a.role = role;
    a.cfg  = dep.mixed && oneIn(2) ? "mixed" : "remote";
    if (dep.mixed) count("client_" + a.cfg);
    a.ops  = std::move(ops);
    return a;
}
static bool storageFault(int role) {
    int& past = M().flags[SS("storage:" + std::to_string(role))];
    if (past) return true;
    for (auto& f : *W->faults)
        if (f.fired && (f.kind == FK_NOSPC || (f.role == role && (f.kind == FK_IOERR || f.kind == FK_SHORT)))) past = 1;
    return past;
}
// A server ends by itself only if its storage failed.
static std::string abnormal() {
    for (Proc* p : *W->procs)
        if (p->role >= R_CAT && p->role < R_CAT + 3 && !p->alive && !p->killed && p->sig && !storageFault(p->role)) return S(p->name) + ": signal " + std::to_string(p->sig) + " " + S(p->note);
    return "";
}
// Waits for the clients; servers that have died come back after a while.
static void finishRemote(const std::vector<int>& ps, bool restart) {
    uint64_t end = now() + 1800 * 1000000ull, step = 20000, back[3] = {};
    for (int p : ps)
        while (!wait_proc(p, now() + step)) {
            // eckit waits for ever when a disk is full: it is not full for ever
            if (end - now() < 900 * 1000000ull) {
                for (auto& f : *W->faults) f.enabled = false;
                W->noSpcLeft = 0;
            }
            if (now() > end) {
                bool nest = M().flags[SS("nest:" + S(proc(p)->name))] > 0;
                bad(nest ? "a call made while a long list is being read does not end" : "a call of a client does not end", S(proc(p)->name) + describeTasks(p));
            }
            if (step < 2000000) step += step / 8;
            for (int i = 0; restart && i <= dep.nstores; i++)
                if (!proc(dep.procs[i])->alive) {
                    if (!back[i]) back[i] = now() + 1000 + W->rmisc.below(3000000);
                    else if (now() >= back[i] && !W->powerLost) { startServer(i); back[i] = 0; }
                }
        }
    finishActors(ps);
    std::string d = abnormal();
    if (!d.empty()) bad("a server process ended abnormally", d);
}
static void verifyRemote() {
    W->faultsOn = false;
    W->powerLost = false;
    for (int i = 0; i < 3; i++) storageFault(R_CAT + i);
    for (auto& f : *W->faults) f.enabled = false;
    for (Sock* k : *W->socks) k->holdUntil = 0;
    startServers();
    verifyAll("remote");
    if (dep.local) verifyAll("local");
}
static int anyServer() { return R_CAT + W->rfault.below(1 + dep.nstores); }
static void netFault(int role) {
    Rng& r = W->rfault;
    static const Cls C[] = {C_NET, C_SEND, C_RECV, C_SEND, C_RECV};
    Cls c = C[r.below(5)];
    switch (r.below(5)) {
        case 0: case 1: case 2: addFault(FK_RESET, role, c, pickNth()); break;
        case 3: addFault(FK_STALL, role, C_ANY, pickNth(), 1000 + r.below(3000000)); break;
        default: addFault(FK_PARTITION, role, c, pickNth(), 1000 + r.below(3000000)); break;
    }
}
// faults of one round; true if calls of the clients may fail
static bool remoteFaults(const std::vector<int>& clients, bool disk, bool power) {
    Rng& r = W->rfault;
    W->faults->clear();
    W->noSpcLeft = 0;
    bool any = false;
    for (int n = r.chance(0.2) ? 0 : 1 + r.below(2); n > 0; n--) {
        any = true;
        int cl = clients[r.below(clients.size())];
        switch (r.below(power ? 8 : 7)) {
            case 0: addFault(FK_CRASH, cl, r.chance(0.5) ? C_NET : C_SEND, pickNth()); break;
            case 1: case 2: addFault(FK_CRASH, anyServer(), r.chance(0.5) ? C_ANY : r.chance(0.5) ? C_NET : C_FSMUT, pickNth()); break;
            case 3: if (disk) { ioFault(anyServer(), true); break; } [[fallthrough]];
            case 4: netFault(cl); break;
            case 7: addFault(FK_POWER, anyServer(), C_ANY, pickNth()); break;
            default: netFault(anyServer()); break;
        }
    }
    W->faultsOn = true;
    return any;
}

// ---- C13: archive and flush through servers
static void c13() {
    begin("C13");
    Rng& r = W->rwork;
    W->trackDur = true;
    deploy(true);
    fs_sync_all();
    auto keys = pickKeys(1 + r.below(2), 1 + r.below(2), 1 + r.below(4));
    int phases = 1 + r.below(2);
    for (int p = 0; p < phases; p++) {
        std::vector<int> ps, roles;
        std::vector<Actor> as;
        int nw = 1 + r.below(2);
        for (int i = 0; i < nw; i++) {
            as.push_back(client("writer" + std::to_string(p) + "_" + std::to_string(i), 1 + p * 4 + i, writerOps(keys, 1 + r.below(6), 0.4, r.chance(0.8))));
            roles.push_back(as.back().role);
        }
        startServers();
        bool f = remoteFaults(roles, true, true);
        for (auto& a : as) { a.mayFail = f; ps.push_back(startActor(a)); }
        finishRemote(ps, true);
        verifyRemote();
    }
}

// ---- C14: every request gets its own complete answer
// takes some elements of a list and drops it
static void abandonList(FDB& fdb, const Sel& s, int n) {
    auto it = fdb.list(toolRequest(s), n % 2 ? ListMode::Deduplicate : ListMode::Full, 3);
    ListElement e;
    while (n-- > 0 && it.next(e)) {
        int k = keyId(e.combinedKey());
        if (k < 0 || !s.matches(k)) bad("an abandoned list shows a field that does not match", s.str());
    }
    count("list_abandoned");
}
static void abandonRead(FDB& fdb, int key, int n) {
    snapshot(key, W->steps);
    std::unique_ptr<eckit::DataHandle> h(fdb.retrieve(reqOf(key)));
    if (!h) return;
    h->openForRead();
    std::vector<char> b(n + 1);
    h->read(b.data(), n);
    h->close();
    count("read_abandoned");
}
// goes on with other requests while it takes the elements of a list
static void nestedList(FDB& fdb, const Sel& s, bool dedup, int every, bool mayFail) {
    uint64_t rb = W->steps;
    std::set<int> seen;
    int versions = 0;
    for (auto& v : M().vers) versions += s.matches(v.key);
    // 100 messages and 100 elements are held for the reader
    sstr nest = SS("nest:" + S(curproc()->name));
    bool longList = versions > 100;
    struct Nested {
        sstr n; bool on;
        Nested(const sstr& a, bool b) : n(a), on(b) { if (on) M().flags[n]++; }
        ~Nested() { if (on) M().flags[n]--; }
    } nested{nest, longList};
    auto it = fdb.list(toolRequest(s), dedup ? ListMode::Deduplicate : ListMode::Full, 3);
    ListElement e;
    int n = 0;
    while (it.next(e)) {
        int k = keyId(e.combinedKey());
        if (k < 0 || !s.matches(k)) bad("list shows a field that does not match", s.str());
        seen.insert(k);
        if (n++ % every) continue;
        switch (n / every % 3) {
            case 0: checkInspect(fdb, k, mayFail); break;
            case 1: checkRetrieve(fdb, k, mayFail); break;
            default: {
                std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle());
                std::string b = readHandle(*h);
                if (matchVersion(k, b) < 0) bad("list element leads to bytes of no archived version", keyStr(k));
            }
        }
    }
    count("list_nested");
    for (int k : M().universe)
        if (s.matches(k) && !seen.count(k) && mustExist(k, rb)) bad("list misses a flushed field", keyStr(k));
}
static OpSpec request(const std::vector<int>& keys, bool mayFail) {
    Rng& r = W->rwork;
    int k  = keys[r.below(keys.size())];
    Sel s  = oneIn(3) ? Sel() : oneIn(2) ? selDb(dbOf(k)) : randomSel(keys);
    if (oneIn(4)) s.alt = r.below(16);
    int n  = r.below(5);
    switch (r.below(12)) {
        case 0: return opFn([=](FDB& f) { abandonList(f, s, n); });
        case 1: return opFn([=](FDB& f) { abandonRead(f, k, 1 + n * 50); });
        case 2: return opFn([=](FDB& f) { nestedList(f, s, n % 2, 1 + n, mayFail); });
        case 3: return opFn([=](FDB& f) { checkAxes(f, s); });
        case 4: return opFn([=](FDB& f) { checkLevels(f, s); });
        case 5: return opSel(A_LIST, s);
        case 6: return opSel(A_LISTFULL, s);
        case 7: return op(A_INSPECT, k);
        case 8: case 9: return opSel(A_MULTI, oneIn(4) ? selAcross(keys, k) : selFields(keys, dbOf(k), ixOf(k)));
        default: return op(A_RETRIEVE, k);
    }
}
static Actor reader(const std::string& n, int role, const std::vector<int>& keys, bool mayFail) {
    Rng& r  = W->rwork;
    Actor a = client(n, role, {});
    a.mayFail = mayFail;
    int nt = oneIn(2) ? 1 : 2 + r.below(3);
    for (int t = 0; t < nt; t++) {
        std::vector<OpSpec> o;
        for (int i = 1 + r.below(4); i > 0; i--) o.push_back(request(keys, mayFail));
        if (nt == 1) a.ops = o;
        else a.threads.push_back(o);
    }
    a.shareFdb = oneIn(2);
    return a;
}
static void remoteKnobs() {
    Rng& r = W->rwork;
    if (!M().flags[SS("huge")] && r.chance(0.5)) knob("fdbReadLimit", std::to_string(82000 + r.below(r.chance(0.7) ? 100000 : 1000000)));
    if (r.chance(0.3)) knob("fdbRetrieveQueueSize", std::to_string(1 + r.below(4)));
    if (r.chance(0.3)) knob("fdbServerMaxQueueSize", std::to_string(1 + r.below(4)));
    if (r.chance(0.3)) knob("fdbDataWriteQueueLength", std::to_string(1 + r.below(4)));
}
static void c14() {
    begin("C14");
    Rng& r = W->rwork;
    deploy(true);
    remoteKnobs();
    bool big = oneIn(12);
    auto keys = big ? pickKeys(1 + r.below(2), 4, NF) : pickKeys(1 + r.below(3), 1 + r.below(3), 1 + r.below(5));
    std::vector<OpSpec> pre;
    for (int n = big ? 2 + r.below(2) : 1; n > 0; n--) {
        for (int k : keys) if (!oneIn(8)) pre.push_back(op(A_ARCHIVE, k, big ? 8 + r.below(100) : pickLen()));
        pre.push_back(op(A_FLUSH));
    }
    auto more = writerOps(keys, r.below(5), 0.5, true);
    pre.insert(pre.end(), more.begin(), more.end());
    finishRemote({startActor(client("first", 30, pre))}, false);
    int phases = 1 + r.below(2);
    for (int p = 0; p < phases; p++) {
        std::vector<int> ps, roles;
        std::vector<Actor> as;
        bool f = oneIn(2);
        for (int i = 0, n = 1 + r.below(3); i < n; i++) {
            as.push_back(reader("reader" + std::to_string(p) + "_" + std::to_string(i), 1 + p * 5 + i, keys, f));
            roles.push_back(as.back().role);
        }
        if (oneIn(3)) as.push_back(client("writer" + std::to_string(p), 1 + p * 5 + 4, writerOps(keys, 1 + r.below(4), 0.5, true)));
        startServers();
        if (f) remoteFaults(roles, false, false);
        for (auto& a : as) { a.mayFail = f; ps.push_back(startActor(a)); }
        finishRemote(ps, true);
        W->faults->clear();
    }
    verifyRemote();
}
static RegScenario r14("C14", c14, "clients and threads send requests to servers at once");

// ---- C15: nobody waits for ever
// A file of the servers cannot be reached for a while: what needs it fails, and what does not goes on
static void fileAway(const std::vector<int>& keys, int p) {
    Rng& r = W->rwork;
    std::vector<std::string> data, all;
    for (auto d : {"/sim/cat", "/sim/st1", "/sim/st2"}) {
        std::map<std::string, std::string> t;
        if (!fs_exists(d)) continue;
        fs_tree(d, t, true);
        for (auto& e : t) {
            if (e.first.find(".lock") != std::string::npos || e.second.empty()) continue;
            size_t n = e.first.size();
            bool isData = n > 5 && e.first.compare(n - 5, 5, ".data") == 0;
            if (isData) data.push_back(e.first);
            if (isData || (n > 6 && e.first.compare(n - 6, 6, ".index") == 0)) all.push_back(e.first);
        }
    }
    if (data.empty()) return;
    std::vector<std::string> gone;
    auto& from = oneIn(4) ? all : data;
    if (oneIn(3)) gone = from;
    else gone.push_back(from[r.below(from.size())]);
    for (auto& g : gone) fs_rename(g.c_str(), (g + ".away").c_str());
    std::vector<int> ps;
    for (int i = 0, n = 1 + r.below(2); i < n; i++) {
        Actor a = reader("stranded" + std::to_string(p) + "_" + std::to_string(i), 45 + i, keys, true);
        if (oneIn(2)) a.ops.push_back(op(A_RETRIEVE, keys[r.below(keys.size())]));
        a.mayFail = true;
        ps.push_back(startActor(a));
    }
    finishRemote(ps, false);
    for (auto& g : gone) fs_rename((g + ".away").c_str(), g.c_str());
    count("files_away", gone.size());
}
static void c15() {
    begin("C15");
    Rng& r = W->rwork;
    deploy(true);
    remoteKnobs();
    auto keys = pickKeys(1 + r.below(2), 1 + r.below(2), 1 + r.below(4));
    std::vector<OpSpec> pre;
    for (int k : keys) pre.push_back(op(A_ARCHIVE, k, pickLen()));
    pre.push_back(op(A_FLUSH));
    finishRemote({startActor(client("first", 30, pre))}, false);
    int phases = 1 + r.below(2);
    for (int p = 0; p < phases; p++) {
        int mode = r.below(3);   // 0: only clients fail, 1: servers too, 2: and they do not come back
        auto mixed = [&](const std::string& n, int role, bool mayFail) {
            Actor a = reader(n, role, keys, mayFail);
            auto w = writerOps(keys, 1 + r.below(4), 0.5, r.chance(0.7));
            if (oneIn(3)) a.ops = w;
            else if (!oneIn(3)) { a.ops.insert(oneIn(2) ? a.ops.begin() : a.ops.end(), w.begin(), w.end()); }
            if (oneIn(3)) sprinkle(a.ops, keys, 0.3);
            return a;
        };
        std::vector<int> ps, roles;
        std::vector<Actor> as;
        for (int i = 0, n = 1 + r.below(2); i < n; i++) {
            as.push_back(mixed("victim" + std::to_string(p) + "_" + std::to_string(i), 1 + p * 5 + i, true));
            roles.push_back(as.back().role);
        }
        for (int i = 0, n = r.below(3); i < n; i++) as.push_back(mixed("other" + std::to_string(p) + "_" + std::to_string(i), 1 + p * 5 + 2 + i, mode != 0));
        startServers();
        Rng& rf = W->rfault;
        W->faults->clear();
        W->noSpcLeft = 0;
        for (int n = 1 + rf.below(3); n > 0; n--) {
            int cl = roles[rf.below(roles.size())];
            if (mode && rf.chance(0.6)) {
                int s = anyServer();
                if (rf.chance(0.5)) addFault(FK_CRASH, s, rf.chance(0.5) ? C_ANY : rf.chance(0.5) ? C_NET : C_RECV, pickNth());
                else netFault(s);
            }
            else if (rf.chance(0.4)) addFault(FK_CRASH, cl, rf.chance(0.3) ? C_ANY : rf.chance(0.5) ? C_NET : C_SEND, pickNth());
            else netFault(cl);
        }
        W->faultsOn = true;
        for (auto& a : as) ps.push_back(startActor(a));
        finishRemote(ps, mode == 1);
        // once faults have ceased, new clients succeed
        W->faults->clear();
        for (Sock* k : *W->socks) k->holdUntil = 0;
        startServers();
        if (oneIn(3)) fileAway(keys, p);
        std::vector<OpSpec> o = writerOps(keys, 1 + r.below(3), 0.5, true);
        sprinkle(o, keys, 0.4);
        finishRemote({startActor(client("new" + std::to_string(p), 40 + p, o))}, false);
    }
    verifyRemote();
}
static RegScenario r15("C15", c15, "servers and clients disappear");
// ---- C24: wipe through the servers
static void remoteWipe(FDB& fdb, const Sel& s, bool doit) {
    auto it = fdb.wipe(toolRequest(s), doit, false, false);
    WipeElement e;
    while (it.next(e)) {}
    count(doit ? "wipe" : "wipe_dry");
}
static std::map<std::string, std::string> allTrees() {
    std::map<std::string, std::string> t;
    for (auto d : {"/sim/cat", "/sim/st1", "/sim/st2"}) { std::map<std::string, std::string> u; fs_tree(d, u, false); t.insert(u.begin(), u.end()); }
    return t;
}
static bool isUnder(const std::string& p, const std::string& dir) { return p == dir || p.compare(0, dir.size() + 1, dir + "/") == 0; }
static std::string treesDiffer(const std::map<std::string, std::string>& a, const std::map<std::string, std::string>& b, const std::vector<std::string>& except) {
    auto skip = [&](const std::string& p) { for (auto& x : except) if (isUnder(p, x)) return true; return false; };
    for (auto& e : a) if (!skip(e.first)) { auto i = b.find(e.first); if (i == b.end()) return e.first + " is gone"; if (i->second != e.second) return e.first + " changed"; }
    for (auto& e : b) if (!skip(e.first) && !a.count(e.first)) return e.first + " is new";
    return "";
}
static void mark(const Sel& s, uint64_t eb, uint64_t ee) {
    for (auto& v : M().vers)
        if (s.matches(v.key) && v.ab < W->steps && !v.ee) { if (!v.eb) v.eb = eb; v.ee = ee; }
}
// a wipe of remote data needs the signature of a catalogue server
static Actor wiper(const std::string& n, int role, std::vector<OpSpec> ops) {
    Actor a = client(n, role, std::move(ops));
    a.cfg = "remote";
    return a;
}
static void c24() {
    begin("C24");
    Rng& r = W->rwork;
    knob("fdbWipeSecret", "a secret of the servers");
    deploy(true);
    remoteKnobs();
    auto keys = pickKeys(1 + r.below(2), 1 + r.below(2), 1 + r.below(3));
    int rounds = 1 + r.below(2);
    bool interrupted = false;
    for (int p = 0; p < rounds; p++) {
        W->faults->clear();
        W->faultsOn = false;
        for (int w = 1 + r.below(2); w > 0; w--)
            finishRemote({startActor(client("writer" + std::to_string(p) + "_" + std::to_string(w), 1 + p * 8 + w, writerOps(keys, 1 + r.below(5), 0.5, true)))}, false);
        int k = keys[r.below(keys.size())], d = dbOf(k);
        bool whole = oneIn(2);
        Sel s = whole ? selDb(d) : selIx(d, ixOf(k));
        if (!whole && oneIn(4)) { s = selDb(d); s.v["type"] = {keyword(k, "type")}; }
        if (oneIn(4)) for (const char* kw : {"class", "expver"}) if (oneIn(2)) s.v.erase(kw);
        std::set<std::string> dirs;
        Sel dbs = s;
        dbs.v.erase("type"); dbs.v.erase("levtype");
        std::set<int> ds;
        for (int kk : keys) if (dbs.matches(kk)) { ds.insert(dbOf(kk)); for (auto x : {"/sim/cat", "/sim/st1", "/sim/st2"}) dirs.insert(dbDir(x, dbOf(kk))); }
        std::vector<std::string> dirl(dirs.begin(), dirs.end());
        if (oneIn(4)) {
            auto t0 = allTrees();
            finishRemote({startActor(wiper("dry", 61, {opFn([s](FDB& f) { remoteWipe(f, s, false); })}))}, false);
            std::string x = treesDiffer(t0, allTrees(), {});
            if (!x.empty()) bad("a dry wipe changed something", x);
        }
        M().notes.clear();
        finishRemote({startActor(client("surveyor", 60, {opFn([s](FDB& f) {
            for (auto& l : locations(f, Sel(), false)) M().notes.push_back(SS(std::string(s.matches(l.key) ? "w" : "k") + l.path));
        })}))}, false);
        std::set<std::string> wiped, kept;
        for (auto& n : M().notes) (n[0] == 'w' ? wiped : kept).insert(S(n).substr(1));
        auto t0 = allTrees();
        uint64_t eb = W->steps;
        bool faults = oneIn(2);
        mark(s, eb, 0);
        if (faults) {
            interrupted = true;
            Actor a = wiper("wiper" + std::to_string(p), 30 + p, {opFn([s](FDB& f) { remoteWipe(f, s, true); })});
            a.mayFail = true;
            Rng& rf = W->rfault;
            for (int n = 1 + rf.below(2); n > 0; n--)
                switch (rf.below(4)) {
                    case 0: addFault(FK_CRASH, a.role, rf.chance(0.5) ? C_ANY : C_NET, pickNth()); break;
                    case 1: addFault(FK_CRASH, anyServer(), rf.chance(0.5) ? C_FSMUT : C_NET, 1 + rf.below(30)); break;
                    case 2: netFault(a.role); break;
                    default: ioFault(anyServer(), oneIn(2)); break;
                }
            W->faultsOn = true;
            std::vector<int> ps{startActor(a)};
            if (oneIn(3)) {
                Actor b = client("reader" + std::to_string(p), 40 + p, {});
                b.mayFail = true;
                M().flags[SS("locked")] = 1;
                for (int j = 1 + r.below(4); j > 0; j--) { b.ops.push_back(op(A_RETRIEVE, keys[r.below(keys.size())])); b.ops.push_back(op(A_REOPEN)); }
                ps.push_back(startActor(b));
            }
            finishRemote(ps, true);
            M().flags.erase(SS("locked"));
            W->faultsOn = false;
            for (int i = 0; i < 3; i++) storageFault(R_CAT + i);
            W->faults->clear();
            W->noSpcLeft = 0;
            for (Sock* q : *W->socks) q->holdUntil = 0;
            startServers();
            for (int q : ds) {   // the locks of the wipe that did not end
                Actor u; u.name = "unlock"; u.role = 70; u.cfg = "local";
                u.ops.push_back(opFn([q](FDB& f) {
                    auto it = f.control(toolRequest(selDb(q)), ControlAction::Enable, ControlIdentifier::Archive | ControlIdentifier::Retrieve | ControlIdentifier::List);
                    ControlElement e;
                    while (it.next(e)) {}
                }));
                runActor(u);
            }
            verifyRemote();
            t0 = allTrees();
        }
        std::string foreignFile;
        if (!faults && whole && oneIn(4)) {   // a file nobody knows among the data: refused
            std::string f;
            for (auto& x : wiped) if (f.empty() || oneIn(2)) f = x.substr(0, x.rfind('/')) + "/foreign";
            if (!f.empty()) {
                fs_put(f, "not a file of the database");
                auto u0 = allTrees();
                Actor a = wiper("refused", 63, {opFn([s](FDB& f) { remoteWipe(f, s, true); })});
                a.mayFail = true;
                finishRemote({startActor(a)}, false);
                auto u1 = allTrees();
                if (!M().actors.back().errors) bad("wipe of a database with unknown files was not refused", f);
                std::vector<std::string> others;   // other databases of the request may have been wiped before
                if (ds.size() > 1) others = dirl;
                std::string x = treesDiffer(u0, u1, others);
                if (!x.empty()) bad("a refused wipe changed something", x);
                if (!fs_exists(f)) bad("a refused wipe removed a file that is not its own", f);
                if (oneIn(2)) fs_unlink(f.c_str());
                else foreignFile = f;
                count("wipe_foreign");
            }
        }
        Actor a = wiper("again", 62, {opFn([s](FDB& f) { remoteWipe(f, s, true); })});
        a.mayFail = faults;
        if (!foreignFile.empty()) {   // the refused one: tried again by the same process
            a.ops.insert(a.ops.begin(), opFn([s, foreignFile](FDB& f) {
                try { remoteWipe(f, s, true); }
                catch (std::exception&) {
                    int mine = curproc()->role;      // somebody on the store's machine removes it
                    curproc()->role = -1;
                    fs_unlink(foreignFile.c_str());
                    curproc()->role = mine;
                    return;
                }
                bad("wipe of a database with unknown files was not refused", foreignFile);
            }));
        }
        if (oneIn(5)) {            // or one that finds nothing to wipe
            Sel q = selIx(d, ixOf(k));
            q.v["step"] = {keyword(k, "step")};
            a.ops.insert(a.ops.begin(), opFn([q](FDB& f) { remoteWipe(f, q, true); }));
            count("wipe_nothing");
        }
        if (whole && foreignFile.empty() && oneIn(3)) {   // the same process wipes an index first
            a.ops.insert(a.ops.begin(), opFn([d, k](FDB& f) { remoteWipe(f, selIx(d, ixOf(k)), true); }));
            if (oneIn(2)) a.ops.insert(a.ops.begin() + 1, op(A_REOPEN));
        }
        finishRemote({startActor(a)}, false);
        bool failed = M().actors[M().actors.size() - 1].errors > 0;
        auto t1 = allTrees();
        if (failed) { count("wipe_refused"); verifyRemote(); break; }
        mark(s, eb, W->steps);
        std::string x = treesDiffer(t0, t1, dirl);
        if (!x.empty()) bad("wipe touched something else", x);
        for (auto& f : kept) if (!fs_exists(f)) bad("wipe removed the data of a kept field", f);
        if (!faults) {
            for (auto& f : wiped) if (!kept.count(f) && fs_exists(f)) bad("wipe left a data file", f);
            for (int q : ds) {
                bool any = false, all = true;
                for (auto& f : wiped) for (auto x : {"/sim/cat", "/sim/st1", "/sim/st2"}) if (isUnder(f, dbDir(x, q))) any = true;
                for (auto& f : kept) for (auto x : {"/sim/cat", "/sim/st1", "/sim/st2"}) if (isUnder(f, dbDir(x, q))) all = false;
                if (any && all)
                    for (auto& e : t1) for (auto x : {"/sim/cat", "/sim/st1", "/sim/st2"}) 
                        // an empty directory may be left from a wipe of an earlier round that was interrupted
                        if (isUnder(e.first, dbDir(x, q)) && !(interrupted && e.first == dbDir(x, q))) bad("wipe left files of the database", e.first);
            }
        }
        verifyRemote();
    }
    finishRemote({startActor(client("after", 50 - 1, writerOps(keys, 1 + r.below(4), 0.5, true)))}, false);
    verifyRemote();
}
static RegScenario r24("C24", c24, "wipe through servers");
static RegScenario r13("C13", c13, "clients archive and flush through servers that fail");
}  // namespace sim
