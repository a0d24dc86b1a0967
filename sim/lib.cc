#include "lib.h"
#include <sstream>
#include <thread>
#include <iostream>
#include <algorithm>
#include <unistd.h>
#include <signal.h>
#include "eckit/config/LocalConfiguration.h"
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/exception/Exceptions.h"
#include "eckit/io/DataHandle.h"
#include "eckit/io/Buffer.h"
#define private public
#include "eckit/config/ResourceMgr.h"
#undef private
#include "fdb5/LibFdb5.h"
#include "fdb5/rules/Schema.h"
#include "fdb5/database/FieldLocation.h"

#include "eckit/runtime/Main.h"
int fdb_move_main(int, char**);
int fdb_hide_main(int, char**);
int fdb_overlay_main(int, char**);
int fdb_reconsolidate_toc_main(int, char**);
int fdb_wipe_main(int, char**);
int fdb_purge_main(int, char**);
int fdb_reindex_main(int, char**);

using namespace fdb5;

namespace sim {

const char* SCHEMA =
    "param: Param;\n"
    "step: Step;\n"
    "date: Date;\n"
    "time: Time;\n"
    "levelist: Double;\n"
    "[ class, expver, stream=oper/dacl, date, time, domain?\n"
    "    [ type, levtype\n"
    "        [ step, levelist?, param ]]]\n";

thread_local std::string lastErr;
Model& M() { return *static_cast<Model*>(W->user); }

// ------------------------------------------------------------------ keys
static const char* TYPES[NI]  = {"an", "fc", "an", "fc"};
static const char* LEVS[NI]   = {"sfc", "sfc", "pl", "pl"};
static const char* PARS[]     = {"130", "131", "167"};
static const char* STEPS[]    = {"0", "6", "12", "24"};
static const char* EXPV[]     = {"0001", "0002", "xxxx"};

std::vector<std::pair<std::string, std::string>> keyVals(int k) {
    int d = dbOf(k), i = ixOf(k), f = k % NF;
    std::vector<std::pair<std::string, std::string>> v;
    v.push_back({"class", d % 2 ? "rd" : "od"});
    v.push_back({"expver", EXPV[d / 2 % 3]});
    v.push_back({"stream", "oper"});
    v.push_back({"date", std::to_string(20200101 + d / 6)});
    v.push_back({"time", "1200"});
    v.push_back({"type", TYPES[i]});
    v.push_back({"levtype", LEVS[i]});
    v.push_back({"step", STEPS[f % 4]});
    if (i >= 2) v.push_back({"levelist", f / 4 % 2 ? "500" : "850"});
    v.push_back({"param", PARS[f / 4]});
    return v;
}
Key keyOf(int k) {
    Key r;
    for (auto& e : keyVals(k)) r.set(e.first, e.second);
    return r;
}
metkit::mars::MarsRequest reqOf(int k) {
    metkit::mars::MarsRequest r("retrieve");
    for (auto& e : keyVals(k)) r.setValue(e.first, e.second);
    return r;
}
std::string keyword(int k, const std::string& kw) {
    for (auto& e : keyVals(k)) if (e.first == kw) return e.second;
    return "";
}
std::string keyStr(int k) {
    if (k < 0) return "?";
    return "d" + std::to_string(dbOf(k)) + "i" + std::to_string(ixOf(k)) + "f" + std::to_string(k % NF);
}
int keyId(const Key& k) {
    static std::map<std::string, int> m = [] {
        std::map<std::string, int> r;
        for (int x = 0; x < 40 * NI * NF; x++) {
            std::map<std::string, std::string> s;
            for (auto& e : keyVals(x)) s[e.first] = e.second;
            std::string t;
            for (auto& e : s) t += e.first + "=" + e.second + ",";
            r[t] = x;
        }
        return r;
    }();
    std::map<std::string, std::string> s;
    for (const auto& e : k) s[e.first] = e.second;
    std::string t;
    for (auto& e : s) if (!e.second.empty()) t += e.first + "=" + e.second + ",";
    auto it = m.find(t);
    return it == m.end() ? -1 : it->second;
}
bool Sel::matches(int k) const {
    for (auto& e : v) {
        if (e.second.empty()) continue;
        std::string x = keyword(k, e.first);
        if (!e.second.count(x)) return false;
    }
    return true;
}
metkit::mars::MarsRequest Sel::request(const char* verb) const {
    metkit::mars::MarsRequest r(verb);
    for (auto& e : v) {
        std::vector<std::string> x(e.second.begin(), e.second.end());
        for (auto& y : x) {
            if ((alt & 1) && e.first == "time" && y == "1200") y = alt & 8 ? "12" : "12:00";
            if ((alt & 2) && e.first == "levelist") y += ".0";
            if ((alt & 4) && e.first == "step") y = "0" + y;
        }
        r.values(e.first, x);
    }
    return r;
}
std::string Sel::str() const {
    std::string s;
    for (auto& e : v) {
        s += e.first + "=";
        for (auto& x : e.second) s += x + "/";
        s += " ";
    }
    if (alt) s += "(spelling " + std::to_string(alt) + ")";
    return s.empty() ? "all" : s;
}
Sel selDb(int d) {
    Sel s;
    for (auto& e : keyVals(mkKey(d, 0, 0)))
        if (e.first == "class" || e.first == "expver" || e.first == "stream" || e.first == "date" || e.first == "time") s.v[e.first] = {e.second};
    return s;
}
Sel selIx(int d, int i) {
    Sel s = selDb(d);
    for (auto& e : keyVals(mkKey(d, i, 0)))
        if (e.first == "type" || e.first == "levtype") s.v[e.first] = {e.second};
    return s;
}
Sel selFields(const std::vector<int>& keys, int d, int i) {
    Sel s;
    for (int k : keys)
        if (dbOf(k) == d && (ixOf(k) == i))
            for (auto& e : keyVals(k)) s.v[e.first].insert(e.second);
    return s;
}
std::string dbDir(const std::string& root, int d) {
    auto v = keyVals(mkKey(d, 0, 0));
    std::string s = root + "/";
    for (int j = 0; j < 5; j++) s += (j ? ":" : "") + v[j].second;
    return s + ":";
}

// ------------------------------------------------------------------ model
std::string payload(int ver, int len) {
    std::string s(len, 0);
    Rng r;
    r.seed(ver + 1, 77);
    for (int i = 0; i < len; i += 8) {
        uint64_t x = r.next();
        memcpy(&s[i], &x, std::min(8, len - i));
    }
    return s;
}
int matchVersion(int key, const std::string& b) {
    Model& m = M();
    for (int i = int(m.vers.size()) - 1; i >= 0; i--) {
        const Ver& v = m.vers[i];
        if (v.key == key && size_t(v.len) == b.size() && payload(v.id, v.len) == b) return i;
    }
    return -1;
}
bool committed(const Ver& v) { return v.st == V_FLUSHED; }
bool definitelyAfter(const Ver& w, const Ver& v) {
    if (w.obj == v.obj) return v.ae && v.ae <= w.ab;
    if (!M().actors[v.actor].remote && M().objClosed[v.obj] && M().objClosed[v.obj] <= w.ab) return true;
    if (committed(v) && v.fe < w.ab) return true;
    const ActorRec& a = M().actors[v.actor];
    if (!a.remote && a.death && a.death < w.ab) return true;
    return false;
}
// Sub-tocs take effect at the place they were registered, and again, consolidated, when their writer closes
static bool subTocsOverlap(const Ver& w, const Ver& v) {
    if (w.obj == v.obj || !(w.sub || v.sub)) return false;
    uint64_t wo = M().objOpened[w.obj], vc = M().objClosed[v.obj], vd = M().actors[v.actor].death;
    return !((vc && vc <= wo) || (vd && vd <= wo));
}
static bool early(const Ver& v);
static const char* EARLY = "a field flushed by a writer that had the database open before it was moved was lost";
static int superseded(const Ver& v, uint64_t rb) {
    int r = 0;
    for (const Ver& w : M().vers)
        if (w.key == v.key && w.id != v.id && committed(w) && w.fe < rb && !(w.eb) && definitelyAfter(w, v)) {
            if (early(w)) { r = 3; continue; }
            if (!subTocsOverlap(w, v)) return 1;
            r = 2;
        }
    return r;
}
// may version v be returned for its key by a read [rb, re]?
static const char* whyNot(const Ver& v, uint64_t rb, uint64_t re, bool newest) {
    if (v.ab > re) return "version not yet archived";
    if (v.ee && v.ee < rb) return "version was erased before the read";
    if (newest)
        if (int o = superseded(v, rb)) return o == 1 ? "a newer version had been flushed before the read" : o == 2 ? "subtoc" : "early";
    return nullptr;
}
// must the key be present in a read [rb, re]?
// flushed by a writer that had the database open before it was moved
static bool early(const Ver& v) { return M().actors[v.actor].name.compare(0, 5, "early") == 0; }
const Ver* mustExist(int key, uint64_t rb) {
    const Ver* r = nullptr;
    if (M().flags.count("locked")) return r;
    for (const Ver& v : M().vers)
        if (v.key == key && committed(v) && v.fe < rb && !v.eb && (!r || !early(v))) r = &v;
    return r;
}
static bool replacedInFlush(const Ver& v) {
    for (const Ver& w : M().vers)
        if (w.key == v.key && w.id != v.id && w.obj == v.obj && v.ae && w.ab >= v.ae && w.fb == v.fb) return true;
    if (M().flags.count("shared"))   // threads sharing an FDB object
        for (const Ver& w : M().vers)
            if (w.key == v.key && w.id != v.id && w.obj == v.obj && w.ab <= v.fe && (!w.ae || w.ae >= v.ab)) return true;
    return false;
}
static std::string verStr(const Ver& v) {
    std::ostringstream o;
    o << "version " << v.id << " of " << keyStr(v.key) << " (actor " << S(M().actors[v.actor].name) << ", archive " << v.ab << "-" << v.ae << ", flush "
      << v.fb << "-" << v.fe << (v.st == V_FLUSHED ? " ok" : v.st == V_FAILED ? " failed" : " none") << ")";
    return o.str();
}

// An FDB object keeps the databases it has retrieved from open and sees them as they were then.
static std::map<std::pair<int, int>, uint64_t> snaps;
static int currentObj();
uint64_t snapshot(int key, uint64_t rb) { return snaps.insert({{currentObj(), dbOf(key)}, rb}).first->second; }

[[noreturn]] void bad(const std::string& sig, const std::string& d) {
    if (M().flags.count("rootrace")) violation(S(M().prop), "two processes creating a database at once put it in two roots", sig + " | " + d);
    if (M().flags.count("raced")) violation(S(M().prop), "a database created by two processes with different schemas at once", sig + " | " + d);
    violation(S(M().prop), sig, d);
}

// ------------------------------------------------------------------ configuration
void defineConfig(const std::string& name, const std::string& yaml) {
    M().configs[SS(name)] = SS(yaml);
    fs_put("/sim/etc/" + name + ".yaml", yaml);
}
std::string localYaml(const std::vector<std::string>& roots, const std::string& schema) {
    std::string y = "---\ntype: local\nengine: toc\nschema: " + schema + "\nspaces:\n- handler: Default\n  roots:\n";
    for (auto& r : roots) y += "  - path: " + r + "\n";
    return y;
}
Config config(const std::string& name, bool subToc) {
    eckit::LocalConfiguration user;
    if (subToc) user.set("useSubToc", true);
    if (M().flags.count("nopreload")) user.set("preloadTocBTree", false);
    eckit::YAMLConfiguration y(S(M().configs[SS(name)]));
    return Config(y, user);
}

// ------------------------------------------------------------------ reading
std::string readHandle(eckit::DataHandle& h, long chunk) {
    std::string out;
    h.openForRead();
    eckit::AutoClose c(h);
    if (chunk <= 0) chunk = 70000;
    std::string b(chunk, 0);
    for (;;) {
        long n = h.read(&b[0], chunk);
        if (n < 0) throw eckit::ReadError("negative read");
        if (n == 0) break;
        out.append(b.data(), n);
        if (chunk < 70000 && out.size() > 100 * (size_t)chunk) b.resize(chunk = 70000);  // a large field need not take for ever
        if (out.size() > (64u << 20)) throw eckit::ReadError("endless read");
    }
    return out;
}
static std::string what() {
    try { throw; }
    catch (std::exception& e) { return e.what(); }
    catch (...) { return "unknown exception"; }
}
// exception text without numbers, paths and field names: part of the signature of a failure
static std::string norm(const std::string& w) {
    std::string o;
    for (size_t i = 0; i < w.size() && o.size() < 160; i++) {
        if (w[i] == '/') {
            while (i < w.size() && !isspace(w[i]) && w[i] != ')' && w[i] != ',') i++;
            o += "PATH";
            i--;
        }
        else if (isdigit(w[i])) { if (o.empty() || o.back() != '#') o += '#'; }
        else if (w[i] == '|' || w[i] == '\n') o += ' ';
        else o += w[i];
    }
    return o;
}
static void readFailed(const char* opn, const std::string& ctx, const std::string& w, bool mayFail) {
    lastErr = w;
    logf("%s %s -> exception %s", opn, ctx.c_str(), w.c_str());
    count(std::string(opn) + "_error");
    if (!mayFail) bad(std::string(opn) + " failed: " + norm(w), ctx + ": " + w);
}
static void checkFound(const char* opn, int key, int vi, uint64_t rb, uint64_t re, bool newest, size_t len) {
    Model& m = M();
    if (vi < 0) bad(std::string(opn) + " returned bytes of no archived version", keyStr(key) + " length " + std::to_string(len));
    const Ver& v = m.vers[vi];
    if (const char* w = whyNot(v, rb, re, newest)) {
        if (!strcmp(w, "subtoc")) bad(std::string(opn) + " returned an older version while writers with sub-tocs overlapped", verStr(v));
        if (!strcmp(w, "early")) bad(EARLY, verStr(v));
        bad(std::string(opn) + " returned a wrong version", std::string(w) + ": " + verStr(v));
    }
}
static void checkMissing(const char* opn, int key, uint64_t rb, uint64_t re) {
    const Ver* v = mustExist(key, rb);
    if (!v) return;
    std::string d = dbDir("Error loading FDB database from /sim/root", dbOf(key));
    if (errorLog.find(d.substr(0, d.size() - 1)) != std::string::npos)
        bad(std::string(opn) + " skipped a database whose toc it could not read", verStr(*v) + " read at " + std::to_string(rb));
    if (early(*v)) bad(EARLY, verStr(*v));
    bad(std::string(opn) + " misses a flushed field", verStr(*v) + " read at " + std::to_string(rb));
}

void checkRetrieve(FDB& fdb, int key, bool mayFail) {
    errorLog.clear();
    uint64_t rb = W->steps;
    rb = snapshot(key, rb);
    point(OP_MARK, key);
    std::string b;
    try {
        std::unique_ptr<eckit::DataHandle> h(fdb.retrieve(reqOf(key)));
        b = h ? readHandle(*h) : "";
    }
    catch (...) { readFailed("retrieve", keyStr(key), what(), mayFail); return; }
    point(OP_MARK, key);
    uint64_t re = W->steps;
    count("retrieve");
    logf("retrieve %s -> %zu bytes", keyStr(key).c_str(), b.size());
    if (b.empty()) checkMissing("retrieve", key, rb, re);
    else checkFound("retrieve", key, matchVersion(key, b), rb, re, true, b.size());
}
void checkMulti(FDB& fdb, const Sel& s, bool mayFail) {
    errorLog.clear();
    uint64_t rb = W->steps;
    for (int k : M().universe) if (s.matches(k)) snapshot(k, rb);
    point(OP_MARK);
    std::string b;
    try {
        std::unique_ptr<eckit::DataHandle> h(fdb.retrieve(s.request()));
        b = h ? readHandle(*h, 1 + W->rmisc.below(20000)) : "";
    }
    catch (...) { readFailed("retrieve", s.str(), what(), mayFail); return; }
    point(OP_MARK);
    uint64_t re = W->steps;
    count("retrieve_multi");
    // the bytes must be a concatenation of versions of distinct matching keys
    Model& m = M();
    std::set<int> left;
    for (int k : m.universe) if (s.matches(k)) left.insert(k);
    size_t pos = 0;
    while (pos < b.size()) {
        bool f = false;
        for (int i = int(m.vers.size()) - 1; i >= 0 && !f; i--) {
            const Ver& v = m.vers[i];
            if (left.count(v.key) && pos + v.len <= b.size() && b.compare(pos, v.len, payload(v.id, v.len)) == 0) {
                checkFound("retrieve", v.key, i, snapshot(v.key, rb), re, true, v.len);
                left.erase(v.key);
                pos += v.len;
                f = true;
            }
        }
        if (!f) bad("retrieve returned bytes of no archived version", s.str() + " at byte " + std::to_string(pos) + " of " + std::to_string(b.size()));
    }
    for (int k : left) checkMissing("retrieve", k, snapshot(k, rb), re);
}

void checkList(FDB& fdb, const Sel& s, bool dedup, bool readBytes, bool mayFail) {
    Model& m    = M();
    uint64_t rb = W->steps;
    point(OP_MARK);
    const char* on = dedup ? "list" : "full list";
    errorLog.clear();
    struct El { int key; std::string loc; long len; int ver; std::string bytes; bool have; };
    std::vector<El> els;
    std::string foreign;
    try {
        FDBToolRequest r(s.request(), s.v.empty(), {});
        auto it = fdb.list(r, dedup ? ListMode::Deduplicate : ListMode::Full, 3);
        ListElement e;
        std::vector<std::pair<int, std::shared_ptr<const FieldLocation>>> locs;
        while (it.next(e)) {
            Key k = e.combinedKey();
            int id = keyId(k);
            if (id < 0) { std::ostringstream o; o << k; foreign = o.str(); break; }
            std::ostringstream u;
            u << e.location().uri() << "@" << e.location().offset();
            els.push_back({id, u.str(), long(e.location().length()), -1, "", false});
            locs.push_back({id, e.sharedLocation()});
        }
        if (readBytes && foreign.empty())
            for (size_t i = 0; i < els.size(); i++) {
                if (W->trace) { std::ostringstream o; o << *locs[i].second; logf("location %s", o.str().c_str()); }
                std::unique_ptr<eckit::DataHandle> h(locs[i].second->dataHandle());
                els[i].bytes = readHandle(*h);
                els[i].have = true;
            }
    }
    catch (...) { readFailed(on, s.str(), what(), mayFail); return; }
    point(OP_MARK);
    uint64_t re = W->steps;
    count(dedup ? "list" : "list_full");
    logf("%s %s -> %zu", on, s.str().c_str(), els.size());
    if (!foreign.empty()) bad(std::string(on) + " shows a foreign key", foreign);
    std::set<int> keys, vers;
    std::set<std::string> locs;
    for (auto& e : els) {
        if (!s.matches(e.key)) bad(std::string(on) + " shows a field that does not match", keyStr(e.key) + " request " + s.str());
        if (dedup && !keys.insert(e.key).second) bad("list shows a field twice", keyStr(e.key) + " " + e.loc);
        keys.insert(e.key);
        if (!dedup && m.fullExact && !locs.insert(e.loc).second) bad("full list shows a location twice", keyStr(e.key) + " " + e.loc);
        if (!e.have) continue;
        int vi = matchVersion(e.key, e.bytes);
        checkFound(on, e.key, vi, rb, re, dedup, e.bytes.size());
        if (e.len != m.vers[vi].len) bad(std::string(on) + " reports a wrong length", verStr(m.vers[vi]));
        if (!dedup && m.fullExact && !vers.insert(vi).second) bad("full list shows a version twice", verStr(m.vers[vi]));
        vers.insert(vi);
    }
    for (int k : m.universe) {
        if (!s.matches(k) || keys.count(k)) continue;
        checkMissing(on, k, rb, re);
    }
    if (!dedup && readBytes && m.fullExact && !m.flags.count("purged"))
        for (auto& v : m.vers)
            if (s.matches(v.key) && committed(v) && v.fe < rb && !v.eb && !vers.count(v.id) && !replacedInFlush(v))
                bad("full list misses a flushed version", verStr(v));
}
FDBToolRequest toolRequest(const Sel& s) { return FDBToolRequest(s.request(), s.v.empty(), {}); }
std::vector<Loc> locations(FDB& fdb, const Sel& s, bool dedup) {
    std::vector<Loc> r;
    auto it = fdb.list(toolRequest(s), dedup ? ListMode::Deduplicate : ListMode::Full, 3);
    ListElement e;
    while (it.next(e)) r.push_back({keyId(e.combinedKey()), e.location().uri().path().asString(), long(e.location().offset()), long(e.location().length())});
    return r;
}
void checkInspect(FDB& fdb, int key, bool mayFail) {
    errorLog.clear();
    uint64_t rb = W->steps;
    rb = snapshot(key, rb);
    point(OP_MARK);
    std::vector<std::pair<int, std::string>> found;
    try {
        auto it = fdb.inspect(reqOf(key));
        ListElement e;
        while (it.next(e)) {
            int id = keyId(e.combinedKey());
            if (W->trace) { std::ostringstream o; o << e.location(); logf("location %s", o.str().c_str()); }
            std::unique_ptr<eckit::DataHandle> h(e.location().dataHandle());
            found.push_back({id, readHandle(*h)});
        }
    }
    catch (...) { readFailed("inspect", keyStr(key), what(), mayFail); return; }
    point(OP_MARK);
    uint64_t re = W->steps;
    count("inspect");
    if (found.empty()) checkMissing("inspect", key, rb, re);
    for (size_t i = 0; i < found.size(); i++) {
        if (found[i].first != key) bad("inspect returned another field", keyStr(key) + " got " + keyStr(found[i].first));
        int vi = matchVersion(key, found[i].second);
        checkFound("inspect", key, vi, rb, re, i == 0, found[i].second.size());
    }
}

// ------------------------------------------------------------------ actors
OpSpec op(OpK k, int key, int len, int a) { OpSpec o; o.gid = M().nextGid++; o.k = k; o.key = key; o.len = len; o.a = a; return o; }
OpSpec opSel(OpK k, const Sel& s) { OpSpec o = op(k); o.sel = s; return o; }
OpSpec opFn(std::function<void(FDB&)> fn) { OpSpec o = op(A_CUSTOM); o.fn = fn; return o; }

static int addVer(int key, int len, int actor, int obj, bool sub) {
    Model& m = M();
    Ver v{};
    v.id    = m.vers.size();
    v.key   = key;
    v.len   = len;
    v.actor = actor;
    v.obj   = obj;
    v.sub   = sub;
    v.ab    = W->steps;
    v.st    = V_ARCHIVING;
    m.vers.push_back(v);
    return v.id;
}

struct Session {
    std::unique_ptr<FDB> fdb;
    int obj = -1;
    std::vector<int> pending;   // archived since the last flush began
};
static thread_local Session* session = nullptr;
static int currentObj() { return session ? session->obj : -1; }

struct Tap : std::streambuf {
    std::string* to;
    explicit Tap(std::string* t) : to(t) {}
    int overflow(int c) override { if (c != EOF && to->size() < 20000) to->push_back(char(c)); return c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { if (to->size() < 20000) to->append(s, n); return n; }
};
// one of fdb's command line tools, as its own program

struct GaveUp {};   // no server can be reached
static int runTool(const std::vector<std::string>& line) {
    static const std::map<std::string, int (*)(int, char**)> mains = {
        {"fdb-move", fdb_move_main}, {"fdb-hide", fdb_hide_main}, {"fdb-overlay", fdb_overlay_main},
        {"fdb-reconsolidate-toc", fdb_reconsolidate_toc_main}, {"fdb-wipe", fdb_wipe_main}, {"fdb-purge", fdb_purge_main},
        {"fdb-reindex", fdb_reindex_main}};
    static std::vector<std::string> args = line;
    static std::vector<char*> av;
    for (auto& x : args) av.push_back(&x[0]);
    av.push_back(nullptr);
    dropMain();
    { std::string t; for (auto& x : line) t += x + " "; logf("runs %s", t.c_str()); }
    static std::string out;
    static Tap err(&errorLog), nul(&out);
    std::cerr.rdbuf(&err);
    std::cout.rdbuf(&nul);
    int r = mains.at(args[0])(int(args.size()), av.data());
    if (opts.trace) { std::string t = errorLog + out; ssize_t n = ::write(2, t.data(), t.size()); (void)n; }
    count(args[0]);
    return r;
}

void applyKnobs() { for (auto& k : M().knobs) eckit::ResourceMgr::instance().set(S(k.first), S(k.second)); }
static void actorMain(const Actor& a, int idx) {
    Model& m = M();
    applyKnobs();
    if (!a.tool.empty()) {
        // eckit's ThreadPool may be destroyed before a thread of it has begun, if that takes longer than all the work
        curproc()->eager = true;
        int r = runTool(a.tool);
        logf("%s ended with %d", a.tool[0].c_str(), r);
        if (r) {
            m.actors[idx].errors++;
            m.actors[idx].lastError = SS(errorLog);
            count(a.tool[0] + "_error");
            if (!a.mayFail) bad(a.tool[0] + " failed: " + norm(errorLog.substr(0, 300)), errorLog);
        }
        m.actors[idx].done = true;
        return;
    }
    auto close = [&](Session& s) {
        struct Done { int o; ~Done() { if (o >= 0) M().objClosed[o] = W->steps; } } d{s.fdb ? s.obj : -1};
        s.fdb.reset();
    };
    auto open = [&](Session& s) {
        close(s);
        s.obj = m.nextObj++;
        m.objOpened.push_back(W->steps);
        m.objClosed.push_back(0);
        s.pending.clear();
        s.fdb.reset(new FDB(config(a.cfg, a.subToc)));
    };
    auto failed = [&](const char* opn, const std::string& w) {
        logf("%s failed: %s", opn, w.c_str());
        m.actors[idx].errors++;
        m.actors[idx].lastError = SS(std::string(opn) + ": " + w);
        count(std::string(opn) + "_error");
        if (!a.mayFail) bad(std::string(opn) + " failed: " + norm(w), a.name + ": " + w);
    };
    bool sharing = false;   // threads use one FDB object
    auto renew = [&](Session& s) {
        if (sharing) return;
        if (a.leakOnFail) s.fdb.release();
        try { close(s); } catch (...) { failed("close", what()); }
        uint64_t end = now() + 60 * 1000000ull;
        for (int n = 0;; n++) {
            try { open(s); return; }
            catch (...) { failed("open", what()); }
            if (m.remote) sleep_until(now() + 200000);
            if (m.remote ? now() > end : n > 100) throw GaveUp();
        }
    };
    auto runOps = [&](Session& s, const std::vector<OpSpec>& ops) {
        session = &s;
        for (auto& o : ops) {
            if (opts.skipOps.count(o.gid)) continue;
            point(OP_MARK, o.gid);
            try {
                switch (o.k) {
                    case A_ARCHIVE: {
                        int v = addVer(o.key, o.len, idx, s.obj, a.subToc);
                        std::string d = payload(v, o.len);
                        logf("archive v%d %s len %d", v, keyStr(o.key).c_str(), o.len);
                        try {
                            s.fdb->archive(keyOf(o.key), d.data(), d.size());
                            m.vers[v].ae = W->steps;
                            m.vers[v].st = V_ARCHIVED;
                            s.pending.push_back(v);
                            count("archive");
                        }
                        catch (...) {
                            m.vers[v].st = V_FAILED;
                            m.vers[v].ae = W->steps;
                            failed("archive", what());
                            renew(s);
                        }
                        break;
                    }
                    case A_FLUSH: {
                        uint64_t fb = W->steps;
                        std::vector<int> covered;
                        covered.swap(s.pending);
                        for (int v : covered) { m.vers[v].fb = fb; if (!m.vers[v].fbAll) m.vers[v].fbAll = fb; }
                        logf("flush %zu", covered.size());
                        try {
                            s.fdb->flush();
                            uint64_t fe = W->steps;
                            for (int v : covered) { m.vers[v].fe = fe; m.vers[v].st = V_FLUSHED; }
                            logf("flushed");
                            count("flush");
                        }
                        catch (...) {
                            failed("flush", what());
                            if (a.retryFlush) {
                                try {
                                    s.fdb->flush();
                                    uint64_t fe = W->steps;
                                    for (int v : covered) { m.vers[v].fe = fe; m.vers[v].st = V_FLUSHED; }
                                    logf("flushed at the second attempt");
                                    count("flush_retry");
                                    break;
                                }
                                catch (...) { failed("flush", what()); }
                            }
                            for (int v : covered) m.vers[v].st = V_FAILED;
                            renew(s);
                        }
                        break;
                    }
                    case A_RETRIEVE: checkRetrieve(*s.fdb, o.key, a.mayFail); break;
                    case A_LIST: checkList(*s.fdb, o.sel, true, true, a.mayFail); break;
                    case A_LISTFULL: checkList(*s.fdb, o.sel, false, true, a.mayFail); break;
                    case A_INSPECT: checkInspect(*s.fdb, o.key, a.mayFail); break;
                    case A_MULTI: checkMulti(*s.fdb, o.sel, a.mayFail); break;
                    case A_REOPEN: open(s); break;
                    case A_SLEEP: usleep(o.a); break;
                    case A_CUSTOM: o.fn(*s.fdb); break;
                    default: break;
                }
            }
            catch (...) { failed("operation", what()); renew(s); }
        }
    };
    std::vector<std::unique_ptr<Session>> ss;
    size_t nt = std::max<size_t>(1, a.threads.size());
    for (size_t t = 0; t < (a.threads.empty() || a.shareFdb ? 1 : nt); t++) {
        ss.emplace_back(new Session);
        try { open(*ss.back()); }
        catch (...) { failed("open", what()); try { renew(*ss.back()); } catch (GaveUp&) { count("gave_up"); m.actors[idx].done = true; return; } }
    }
    try {
    if (!a.ops.empty()) runOps(*ss[0], a.ops);
    if (!a.threads.empty()) {
        std::vector<std::thread> ts;
        sharing = a.shareFdb && nt > 1;
        for (size_t t = 0; t < nt; t++) ts.emplace_back([&, t] { try { runOps(*ss[a.shareFdb ? 0 : t], a.threads[t]); } catch (GaveUp&) { count("gave_up"); } });
        for (auto& t : ts) t.join();
        sharing = false;
        session = ss[0].get();
    }
    for (auto& s : ss)
        if (a.closeAtEnd) {
            try { close(*s); } catch (...) { failed("close", what()); }
        }
        else s.release();
    }
    catch (GaveUp&) { count("gave_up"); }
    m.actors[idx].done = true;
}

int startActor(const Actor& a) {
    Model& m = M();
    int idx  = m.actors.size();
    m.actors.push_back(ActorRec{SS(a.name), -1, 0, false, 0, a.mayFail, {}, m.remote, a.mayDie, !a.tool.empty()});
    int p = spawn(a.name, a.role, [&] { actorMain(a, idx); });
    m.actors[idx].procIdx = p;
    return p;
}
bool died(int p) { return proc(p)->sig != 0; }

void finishActors(const std::vector<int>& procs, bool) {
    Model& m = M();
    for (int p : procs) {
        wait_proc(p, 0);
        Proc* q = proc(p);
        for (auto& a : m.actors)
            if (a.procIdx == p && !a.death) {
                a.death = W->steps;
                point(OP_MARK);
                if (a.mayDie && !a.done && !q->killed && q->sig == SIGABRT && S(q->note).compare(0, 10, "terminate:") == 0) count("ended_by_exception");
                else if (a.tool && !a.done && !q->killed && !q->sig) {   // left by exit()
                    a.errors++;
                    if (!a.mayFail) bad("tool failed", S(a.name) + " exit " + std::to_string(q->code) + " " + S(q->note));
                }
                else if (!a.done && !q->killed)
                    bad("process died: " + norm(S(q->note)), S(a.name) + " signal " + std::to_string(q->sig) + " exit " + std::to_string(q->code) + " " + S(q->note));
            }
    }
    checkEscapes();
}
void runActor(const Actor& a) { finishActors({startActor(a)}); }

void checkEscapes() {
    if (!W->escapes->empty()) bad("touched a path outside the databases", S((*W->escapes)[0]));
}

void verifyAll(const std::string& cfg, bool full, bool subToc) {
    Actor r;
    r.name = "verifier";
    r.role = 90;
    r.cfg  = cfg;
    r.subToc = subToc;
    bool f = W->faultsOn;
    W->faultsOn = false;
    std::vector<int> ks(M().universe.begin(), M().universe.end());
    auto fn = [ks, full](FDB& fdb) {
        Sel all;
        if (full) checkList(fdb, all, false, true, false);
        checkList(fdb, all, true, true, false);
        for (int k : ks) checkRetrieve(fdb, k, false);
        std::set<std::pair<int, int>> ixs;
        for (int k : ks) ixs.insert({dbOf(k), ixOf(k)});
        for (auto& x : ixs) checkMulti(fdb, selFields(ks, x.first, x.second), false);
        if (ks.size() && W->rmisc.below(4) == 0) checkMulti(fdb, selAcross(ks, ks[W->rmisc.below(ks.size())]), false);
    };
    OpSpec o;
    o.gid = -1;
    o.k   = A_CUSTOM;
    o.fn  = fn;
    r.ops.push_back(o);
    runActor(r);
    W->faultsOn = f;
}
int keyVersions(int key) {
    int n = 0;
    for (auto& v : M().vers) if (v.key == key && committed(v)) n++;
    return n;
}

// ------------------------------------------------------------------ world set-up
void choosePolicy(double serialP) {
    if (opts.scripted) { W->policy = POL_SCRIPT; return; }
    Rng& r = W->rsched;
    if (r.chance(serialP)) { W->policy = POL_SERIAL; return; }
    if (r.chance(0.65)) {
        static const double P[] = {0.01, 0.03, 0.1, 0.25, 0.5};
        W->policy  = POL_RANDOM;
        W->pswitch = P[r.below(5)];
    }
    else {
        W->policy = POL_PCT;
        int n = 1 + r.below(6);
        uint64_t span = 1ull << (8 + r.below(7));
        std::vector<uint64_t> c;
        for (int i = 0; i < n; i++) c.push_back(r.below(span));
        std::sort(c.rbegin(), c.rend());
        for (auto x : c) W->changePoints->push_back(x);
    }
}
void begin(const std::string& prop) {
    Model* m = sh_new<Model>();
    W->user  = m;
    m->prop  = SS(prop);
    *W->vprop = SS(prop);
    fs_put("/sim/etc/schema", SCHEMA);
    fs_mkdirs("/sim/root");
    fs_mkdirs("/sim/cwd");
    fs_sync_all();
    W->hangs = true;
    choosePolicy();
}
Fault& addFault(FaultKind k, int role, Cls c, uint64_t nth, int64_t arg, int64_t arg2) {
    Fault f;
    f.kind = k; f.role = role; f.cls = c; f.nth = nth; f.arg = arg; f.arg2 = arg2;
    f.enabled = !opts.skipFaults.count(int(W->faults->size()));
    W->faults->push_back(f);
    W->faultsOn = true;
    return W->faults->back();
}
void knob(const std::string& name, const std::string& value) { M().knobs[SS(name)] = SS(value); }
void randomKnobs(bool evict, bool async) {
    if (W->rwork.below(40) == 0) M().flags[SS("huge")] = 1;
    Rng& r = W->rwork;
    if (r.chance(0.3)) knob("fdbLoadIndexThreads", std::to_string(1 + r.below(4)));
    if (evict && r.chance(0.2)) knob("fdbMaxNbDBsOpen", std::to_string(1 + r.below(2)));
    if (r.chance(0.2)) knob("fdbSeekableDataHandle", "true");
    if (r.chance(0.15)) knob("fdbBufferSize", std::to_string(4096 << r.below(4)));
    if (evict && r.chance(0.2)) knob("fdbMaxOpenDatabases", std::to_string(1 + r.below(2)));
    if (r.chance(0.1)) knob("fdbDeduplicate", "true");
    if (r.chance(0.1)) knob("fdbSerialisationVersion", std::to_string(1 + r.below(2)));
    if (r.chance(0.1)) knob("fdbRoundTocRecords", r.chance(0.5) ? "64" : "4096");
    if (r.chance(0.1)) knob("fdbIndexType", "PointDBIndex");
    if (r.chance(0.15)) M().flags["nopreload"] = 1;
    if (r.chance(0.07)) knob("fdbCacheTocsOnRead", "false");
    if (async && r.chance(0.1)) {
        knob("fdbAsyncWrite", "true");
        knob("fdbNbAsyncBuffers", std::to_string(2 + r.below(3)));
        knob("fdbSizeAsyncBuffer", std::to_string(8192 << r.below(4)));
    }
}
void putAux(const std::set<std::string>& dataFiles, double p) {
    for (auto& f : dataFiles)
        if (W->rwork.chance(p) && fs_exists(f) && !fs_exists(auxOf(f))) { fs_put(auxOf(f), auxText(f)); count("aux_file"); }
}
// fields of several databases and indexes in one request
Sel selAcross(const std::vector<int>& keys, int like) {
    Sel s;
    std::string lev = keyword(like, "levtype");
    for (int k : keys)
        if (keyword(k, "levtype") == lev)
            for (auto& e : keyVals(k)) s.v[e.first].insert(e.second);
    return s;
}
OpSpec readOp(const std::vector<int>& keys) {
    Rng& r = W->rwork;
    int k = keys[r.below(keys.size())];
    switch (r.below(6)) {
        case 0: return opSel(A_LISTFULL, Sel());
        case 1: return opSel(A_LIST, r.chance(0.4) ? Sel() : r.chance(0.5) ? selDb(dbOf(k)) : selIx(dbOf(k), ixOf(k)));
        case 2: return op(A_INSPECT, k);
        case 3: return opSel(A_MULTI, r.chance(0.3) ? selAcross(keys, k) : selFields(keys, dbOf(k), ixOf(k)));
        default: return op(A_RETRIEVE, k);
    }
}
void sprinkle(std::vector<OpSpec>& ops, const std::vector<int>& keys, double p) {
    std::vector<OpSpec> o;
    for (auto& x : ops) {
        o.push_back(x);
        while (W->rwork.chance(p)) o.push_back(readOp(keys));
    }
    ops.swap(o);
    (*W->counters)[SS("ops")] = M().nextGid;
}
void ioFault(int role, bool write) {
    Rng& r = W->rfault;
    static const int E[] = {EIO, EIO, ENOSPC, EDQUOT, EACCES, EMFILE, ENOMEM, ESTALE};
    if (write) {
        switch (r.below(8)) {
            case 0: addFault(FK_SHORT, role, C_WRITE, 1 + r.below(30)); break;
            case 1: addFault(FK_EINTR, role, C_WRITE, 1 + r.below(30)); break;
            case 2: addFault(FK_IOERR, role, C_SYNC, 1 + r.below(12), EIO, r.below(3)); break;
            case 3: addFault(FK_NOSPC, role, C_WRITE, 1 + r.below(30), 1 + r.below(r.chance(0.5) ? 3 : 200)); break;
            case 4: addFault(FK_IOERR, role, C_OPENW, 1 + r.below(12), E[r.below(8)], 1 + r.below(3)); break;
            case 5: addFault(FK_IOERR, role, C_FSMUT, pickNth(), E[r.below(4)], 1 + r.below(3)); break;
            default: addFault(FK_IOERR, role, C_WRITE, 1 + r.below(30), r.chance(0.5) ? EIO : ENOSPC, r.chance(0.3) ? 100 : 1 + r.below(3)); break;
        }
    }
    else {
        switch (r.below(5)) {
            case 0: addFault(FK_SHORT, role, C_READ, 1 + r.below(40)); break;
            case 1: addFault(FK_EINTR, role, C_READ, 1 + r.below(40)); break;
            case 2: addFault(FK_IOERR, role, C_OPENR, 1 + r.below(40), E[4 + r.below(4)], 1 + r.below(3)); break;
            default: addFault(FK_IOERR, role, C_READ, 1 + r.below(40), EIO, 1 + r.below(4)); break;
        }
    }
}
uint64_t pickNth() {
    static const int S_[] = {6, 20, 60, 150, 400};
    return 1 + W->rfault.below(S_[W->rfault.below(5)]);
}
int pickLen() {
    if (int h = M().flags[SS("huge")]) {   // more than one message, more than any buffer
        int one = 4 * 1024 * 1024 - 2048;
        if (W->rwork.below(4) == 0) {
            count("huge_fields");
            switch (W->rwork.below(3)) {
                case 0: return one * (1 + W->rwork.below(h)) + W->rwork.range(-1, 1);
                default: return 1000000 + W->rwork.below(4000000 * h);
            }
        }
    }
    switch (W->rwork.below(10)) {
        case 0: return 4096 * (1 + W->rwork.below(3)) + W->rwork.range(-1, 1);
        case 1: return 20000 + W->rwork.below(60000);
        default: return 8 + W->rwork.below(300);
    }
}
std::vector<int> pickKeys(int nd, int ni, int nf) {
    std::vector<int> r;
    Model& m = M();
    std::vector<int> is = {0, 1, 2, 3}, fs;
    for (int f = 0; f < NF; f++) fs.push_back(f);
    auto shuffle = [&](std::vector<int>& v) { for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[W->rwork.below(i)]); };
    shuffle(is);
    for (int d = 0; d < nd; d++)
        for (int i = 0; i < ni; i++) {
            shuffle(fs);
            for (int f = 0; f < nf; f++) {
                int ff = fs[f];
                if (is[i] < 2) ff = ff;
                r.push_back(mkKey(d, is[i], ff));
            }
        }
    for (int k : r) if (std::find(m.universe.begin(), m.universe.end(), k) == m.universe.end()) m.universe.push_back(k);
    return r;
}
bool oneIn(int n) { return W->rwork.below(n) == 0; }
std::vector<OpSpec> writerOps(const std::vector<int>& keys, int n, double flushP, bool endFlush) {
    std::vector<OpSpec> o;
    for (int i = 0; i < n; i++) {
        o.push_back(op(A_ARCHIVE, keys[W->rwork.below(keys.size())], pickLen()));
        if (W->rwork.chance(flushP)) o.push_back(op(A_FLUSH));
    }
    if (endFlush && (o.empty() || o.back().k != A_FLUSH)) o.push_back(op(A_FLUSH));
    (*W->counters)[SS("ops")] = M().nextGid;
    return o;
}

// ------------------------------------------------------------------ warm-up of the zygote
void warmup() {
    std::istringstream s(SCHEMA);
    Schema sc(s);
    Config c;
    keyId(keyOf(0));
    metkit::mars::MarsRequest r = reqOf(0);
    FDBToolRequest::requestsFromString("class=od,expver=0001,stream=oper,date=20200101,time=1200", {}, false, "read");   // loads the MARS language
}

}  // namespace sim
