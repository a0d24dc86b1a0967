// Scenarios about listing, purge, wipe and control
#include "lib.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/PurgeIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/api/helpers/StatsIterator.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/database/FieldLocation.h"
#include "fdb5/database/IndexAxis.h"
#include "eckit/io/DataHandle.h"
#include <algorithm>
using namespace fdb5;
namespace sim {

// ---- C06: listing exactness
Sel randomSel(const std::vector<int>& keys) {
    Rng& r = W->rwork;
    Sel s;
    int k = keys[r.below(keys.size())];
    for (auto& e : keyVals(k)) {
        if (r.chance(0.55)) continue;
        if (e.first == "levelist" && !s.v.count("levtype")) continue;
        auto& v = s.v[e.first];
        v.insert(e.second);
        while (r.chance(0.4)) {
            std::string w = keyword(keys[r.below(keys.size())], e.first);
            if (!w.empty()) v.insert(w);
        }
        if (r.chance(0.15)) v.insert(e.first == "step" ? "48" : e.first == "param" ? "228" : e.first == "type" ? "pf" : e.second);
    }
    if (s.v.count("levelist")) s.v["levtype"] = {"pl"};
    return s;
}
void checkLevels(FDB& fdb, const Sel& s) {
    // which databases and indexes hold matching fields
    for (int level = 1; level <= 2; level++) {
        uint64_t rb = W->steps;
        std::set<std::string> got;
        auto it = fdb.list(toolRequest(s), ListMode::Deduplicate, level);
        ListElement e;
        while (it.next(e)) {
            Key k = e.combinedKey();
            std::string t;
            std::map<std::string, std::string> m;
            for (const auto& x : k) if (!x.second.empty()) m[x.first] = x.second;
            for (auto& x : m) t += x.first + "=" + x.second + ",";
            if (!got.insert(t).second && level == 1) bad("database listed twice", t);
        }
        count("list_level");
        for (int k : M().universe) {
            if (!s.matches(k)) continue;
            const Ver* v = mustExist(k, rb);
            if (!v) continue;
            std::map<std::string, std::string> m;
            int n = 0;
            for (auto& x : keyVals(k)) if (n++ < (level == 1 ? 5 : 7)) m[x.first] = x.second;
            std::string t;
            for (auto& x : m) t += x.first + "=" + x.second + ",";
            if (!got.count(t)) bad(level == 1 ? "list misses a database" : "list misses an index", t + " for " + s.str());
        }
    }
}
void checkAxes(FDB& fdb, const Sel& s) {
    uint64_t rb = W->steps;
    IndexAxis ax = fdb.axes(toolRequest(s), 3);
    uint64_t re = W->steps;
    count("axes");
    static const char* KW[] = {"step", "param", "levelist", "type", "levtype", "class", "expver"};
    Sel wide = s;   // whole indexes are shown
    for (auto kw : {"step", "param", "levelist"}) wide.v.erase(kw);
    Sel wider = wide;   // and databases without a matching index
    for (auto kw : {"type", "levtype"}) wider.v.erase(kw);
    for (const char* kw : KW) {
        std::set<std::string> have;
        if (ax.has(kw)) for (const auto& x : ax.values(kw)) have.insert(x);
        for (int k : M().universe) {
            if (!s.matches(k) || !mustExist(k, rb)) continue;
            std::string v = keyword(k, kw);
            if (!v.empty() && !have.count(v)) bad("axes miss a value", std::string(kw) + "=" + v + " of " + keyStr(k) + " for " + s.str());
        }
        for (auto& x : have) {
            if (x.empty()) continue;
            bool any = false;
            for (auto& v : M().vers) if (v.ab < re && keyword(v.key, kw) == x && (std::string(kw) == "class" || std::string(kw) == "expver" ? wider : wide).matches(v.key)) any = true;
            if (!any) bad("axes show a value that no field of these indexes has", std::string(kw) + "=" + x + " for " + s.str());
        }
    }
}
static void c06() {
    begin("C06");
    Rng& r = W->rwork;
    std::vector<std::string> roots;
    for (int i = 0, n = 1 + r.below(3); i < n; i++) { roots.push_back("/sim/root" + std::to_string(i)); fs_mkdirs(roots.back()); }
    defineConfig("main", localYaml(roots));
    randomKnobs();
    auto keys = pickKeys(1 + r.below(4), 1 + r.below(4), 1 + r.below(5));
    int phases = 1 + r.below(3);
    for (int p = 0; p < phases; p++) {
        W->faults->clear();
        W->faultsOn = false;
        std::vector<int> ps;
        int nw = p == 0 && roots.size() > 1 ? 1 : 1 + r.below(2);   // see DESIGN: two processes creating one database in different roots
        if (roots.size() > 1 && p == 0) {
            std::vector<OpSpec> o;
            std::set<int> ds;
            for (int k : keys) if (ds.insert(dbOf(k)).second) o.push_back(op(A_ARCHIVE, k, pickLen()));
            o.push_back(op(A_FLUSH));
            Actor a; a.name = "creator"; a.role = 50; a.ops = o;
            runActor(a);
        }
        for (int i = 0; i < nw; i++) {
            Actor a;
            a.name = "writer" + std::to_string(p) + "_" + std::to_string(i);
            a.role = p * 3 + i;
            a.ops  = writerOps(keys, 2 + r.below(10), 0.25, r.chance(0.9));
            a.closeAtEnd = r.chance(0.8);
            ps.push_back(startActor(a));
        }
        finishActors(ps);
        Actor a;
        a.name = "lister" + std::to_string(p);
        a.role = 20 + p;
        for (int i = 2 + r.below(5); i > 0; i--) {
            Sel s = oneIn(5) ? Sel() : randomSel(keys);
            int k = keys[r.below(keys.size())];
            if (oneIn(3)) s.alt = r.below(16);
            switch (r.below(6)) {
                case 0: a.ops.push_back(opSel(A_LISTFULL, s)); break;
                case 1: a.ops.push_back(opFn([s](FDB& f) { checkLevels(f, s); })); break;
                case 2: a.ops.push_back(opFn([s](FDB& f) { checkAxes(f, s); })); break;
                case 3: { Sel m = selFields(keys, dbOf(k), ixOf(k)); m.alt = s.alt; a.ops.push_back(opSel(A_MULTI, m)); break; }
                default: a.ops.push_back(opSel(A_LIST, s)); break;
            }
        }
        if (oneIn(3)) {
            int n = 2 + r.below(2);
            a.threads.resize(n);
            for (size_t j = 0; j < a.ops.size(); j++) a.threads[j % n].push_back(a.ops[j]);
            a.ops.clear();
            a.shareFdb = oneIn(2);
        }
        runActor(a);
        if (p + 1 == phases) verifyAll();
    }
}
static RegScenario r06("C06", c06, "requests of every shape over many histories");

// ---- C08: purge
static void purge(FDB& fdb, const Sel& s, bool doit, bool porcelain) {
    auto it = fdb.purge(toolRequest(s), doit, porcelain);
    PurgeElement e;
    while (it.next(e)) {}
    count(doit ? "purge" : "purge_dry");
}
static void note(const std::string& s) {
    for (auto& n : M().notes) if (S(n) == s) return;
    M().notes.push_back(SS(s));
}
// remember every data file a full listing has ever shown
static void noteFiles(FDB& fdb) {
    for (auto& l : locations(fdb, Sel(), false)) note(l.path);
}
static void checkPurged(FDB& fdb, const Sel& s, bool subInterrupted, const std::set<std::string>& auxes) {
    std::set<std::string> live;
    for (auto& l : locations(fdb, Sel(), true)) live.insert(l.path);
    for (auto& l : live) {
        if (!fs_exists(l)) bad("purge removed the file of a visible field", l);
        std::string t;
        if (auxes.count(auxOf(l)) && (!fs_get(auxOf(l), t) || t != auxText(l))) bad("purge removed the auxiliary file of a visible field", l);
    }
    for (auto& n : M().notes) {
        bool in = false;
        for (int k : M().universe) if (s.matches(k) && S(n).compare(0, dbDir("/sim/root", dbOf(k)).size() + 1, dbDir("/sim/root", dbOf(k)) + "/") == 0) in = true;
        if (in && !live.count(S(n)) && !fs_exists(S(n)) && !subInterrupted && fs_exists(auxOf(S(n)))) bad("purge left an auxiliary file without its data", S(n));
        if (in && !live.count(S(n)) && fs_exists(S(n))) bad(subInterrupted ? "purge left a data file without visible fields after an interrupted purge with sub-tocs" : "purge left a data file without visible fields", S(n));
    }
}
static void c08() {
    begin("C08");
    defineConfig("main", localYaml({"/sim/root"}));
    randomKnobs();
    Rng& r = W->rwork;
    bool power = oneIn(4), sub = oneIn(5), interrupted = false;
    W->trackDur = power;
    fs_sync_all();
    if (sub) M().fullExact = false;
    auto keys = pickKeys(1 + (oneIn(3) ? 1 : 0), 1 + r.below(2), 1 + r.below(3));
    int rounds = 1 + r.below(3);
    for (int p = 0; p < rounds; p++) {
        W->faults->clear();
        W->noSpcLeft = 0;
        W->faultsOn = false;
        for (int w = 1 + r.below(3); w > 0; w--) {
            Actor a;
            a.name = "writer" + std::to_string(p) + "_" + std::to_string(w);
            a.role = p * 4 + w;
            a.ops  = writerOps(keys, 1 + r.below(6), 0.5, r.chance(0.9));
            a.closeAtEnd = r.chance(0.85);
            a.subToc     = sub && oneIn(2);
            runActor(a);
        }
        {
            Actor a; a.name = "surveyor"; a.role = 60;
            a.ops.push_back(opFn([](FDB& f) { noteFiles(f); }));
            runActor(a);
        }
        std::set<std::string> auxes;
        if (oneIn(3)) {
            std::set<std::string> files;
            for (auto& n : M().notes) files.insert(S(n));
            putAux(files, 0.5);
            if (power) fs_sync_all();
        }
        for (auto& n : M().notes) if (fs_exists(auxOf(S(n)))) auxes.insert(auxOf(S(n)));
        Sel s = oneIn(2) ? Sel() : selDb(dbOf(keys[r.below(keys.size())]));
        if (!s.v.empty() && oneIn(4)) s.alt = 1 + 8 * oneIn(2);
        if (oneIn(4)) {
            std::map<std::string, std::string> t0, t1;
            fs_tree("/sim/root", t0, false);
            Actor a; a.name = "dry"; a.role = 61;
            bool porc = oneIn(2);
            a.ops.push_back(opFn([s, porc](FDB& f) { purge(f, s, false, porc); }));
            runActor(a);
            fs_tree("/sim/root", t1, false);
            if (t0 != t1) bad("a dry purge changed something", "");
        }
        M().flags[SS("purged")] = 1;
        if (oneIn(2)) {
            Actor a; a.name = "purger" + std::to_string(p); a.role = 30 + p;
            a.ops.push_back(opFn([s](FDB& f) { purge(f, s, true, false); }));
            std::vector<Actor> as;
            int f = r.below(4);
            if (f == 0) addFault(FK_CRASH, a.role, C_ALLFS, pickNth());
            else if (f == 1) addFault(FK_CRASH, a.role, C_FSMUT, 1 + W->rfault.below(20));
            else if (f == 2) { ioFault(a.role, oneIn(2)); a.mayFail = a.mayDie = true; }
            else if (power) addFault(FK_POWER, a.role, C_FSMUT, 1 + W->rfault.below(20));
            interrupted = true;
            std::vector<int> ps{startActor(a)};
            if (oneIn(3)) {
                Actor b; b.name = "reader" + std::to_string(p); b.role = 40 + p;
                b.mayFail = true;   // its snapshot of the toc may name files that have gone
                for (int j = 1 + r.below(4); j > 0; j--) { b.ops.push_back(op(A_RETRIEVE, keys[r.below(keys.size())])); b.ops.push_back(op(A_REOPEN)); }
                ps.push_back(startActor(b));
            }
            finishActors(ps);
            W->faultsOn = false;
            W->noSpcLeft = 0;
            verifyAll("main", false);
            W->powerLost = false;
        }
        if (oneIn(2) || p + 1 == rounds) {
            Actor a; a.name = "purger"; a.role = 62;
            a.ops.push_back(opFn([s](FDB& f) { purge(f, s, true, false); }));
            runActor(a);
            bool si = sub && interrupted;
            Actor c; c.name = "checker"; c.role = 63;
            c.ops.push_back(opFn([s, si, auxes](FDB& f) { checkPurged(f, s, si, auxes); }));
            runActor(c);
            verifyAll("main", false);
            std::map<std::string, std::string> t0, t1;
            fs_tree("/sim/root", t0, false);
            a.role = 64;
            runActor(a);
            fs_tree("/sim/root", t1, false);
            if (t0 != t1) bad("a second purge found something to do", "");
        }
    }
}
static RegScenario r08("C08", c08, "purge, interrupted and repeated");

// ---- C09, C10: wipe
static void wipe(FDB& fdb, const Sel& s, bool doit, bool unsafe_) {
    auto it = fdb.wipe(toolRequest(s), doit, false, unsafe_);
    WipeElement e;
    while (it.next(e)) {}
    count(doit ? "wipe" : "wipe_dry");
}
static void erase(const Sel& s, uint64_t eb, uint64_t ee) {
    for (auto& v : M().vers)
        if (s.matches(v.key) && v.ab < W->steps && !v.ee) { if (!v.eb) v.eb = eb; v.ee = ee; }
}
typedef std::map<std::string, std::string> Tree;
static bool under(const std::string& p, const std::string& dir) { return p == dir || p.compare(0, dir.size() + 1, dir + "/") == 0; }
static std::string treeDiff(const Tree& a, const Tree& b, const std::vector<std::string>& except) {
    auto skip = [&](const std::string& p) { for (auto& x : except) if (under(p, x)) return true; return false; };
    for (auto& e : a) if (!skip(e.first)) { auto i = b.find(e.first); if (i == b.end()) return e.first + " is gone"; if (i->second != e.second) return e.first + " changed"; }
    for (auto& e : b) if (!skip(e.first) && !a.count(e.first)) return e.first + " is new";
    return "";
}
static void history(const std::vector<int>& keys, int p, bool sub) {
    Rng& r = W->rwork;
    for (int w = 1 + r.below(3); w > 0; w--) {
        Actor a;
        a.name = "writer" + std::to_string(p) + "_" + std::to_string(w);
        a.role = p * 4 + w;
        a.ops  = writerOps(keys, 1 + r.below(6), 0.5, r.chance(0.9));
        a.closeAtEnd = r.chance(0.85);
        a.subToc     = sub && oneIn(2);
        if (oneIn(8)) addFault(FK_CRASH, a.role, C_ALLFS, pickNth());
        runActor(a);
        W->faults->clear();
        W->faultsOn = false;
    }
}
static void unlock(const Sel& s) {
    Actor a; a.name = "unlock"; a.role = 70;
    a.ops.push_back(opFn([s](FDB& f) {
        auto it = f.control(toolRequest(s), ControlAction::Enable, ControlIdentifier::Archive | ControlIdentifier::Retrieve | ControlIdentifier::List);
        ControlElement e;
        while (it.next(e)) {}
    }));
    runActor(a);
}
static void wipeWorld(bool faults) {
    defineConfig("main", localYaml({"/sim/root"}));
    randomKnobs();
    Rng& r = W->rwork;
    bool power = faults && oneIn(4), sub = oneIn(4);
    W->trackDur = power;
    fs_sync_all();
    if (sub) M().fullExact = false;
    auto keys = pickKeys(1 + (oneIn(2) ? 1 : 0), 1 + r.below(3), 1 + r.below(2));
    int rounds = 1 + r.below(3);
    for (int p = 0; p < rounds; p++) {
        W->faults->clear();
        W->noSpcLeft = 0;
        W->faultsOn = false;
        history(keys, p, sub);
        if (oneIn(3)) verifyAll();
        int k = keys[r.below(keys.size())];
        int d = dbOf(k);
        bool whole = oneIn(2), foreign = oneIn(faults ? 8 : 4);
        Sel s = whole ? selDb(d) : selIx(d, ixOf(k));
        if (!whole && oneIn(4)) s = selDb(d), s.v["type"] = {keyword(k, "type")};
        if (!whole && oneIn(4)) for (int kk : keys) if (oneIn(2) && dbOf(kk) == d) s.v["type"].insert(keyword(kk, "type"));
        if (oneIn(4)) for (const char* kw : {"class", "expver", "date"}) if (oneIn(2)) s.v.erase(kw);   // several databases
        if (oneIn(4)) s.alt = r.below(16);
        std::string dir = dbDir("/sim/root", d);
        std::set<std::string> dirs;
        std::map<std::string, int> dbOfDir;
        for (int kk : keys) {
            Sel q = s;
            q.v.erase("type"); q.v.erase("levtype");
            if (q.matches(kk)) { dirs.insert(dbDir("/sim/root", dbOf(kk))); dbOfDir[dbDir("/sim/root", dbOf(kk))] = dbOf(kk); }
        }
        if (foreign && fs_exists(dir)) fs_put(dir + "/foreign", "not a database file");
        if (fs_exists(dir)) W->rmisc.below(2);
        bool unsafe_ = oneIn(3);
        std::set<std::string> wipedData, keptData;   // data files of wiped and kept fields
        Tree t0, t1;
        if (oneIn(4)) {
            fs_tree("/sim/root", t0, false);
            Actor a; a.name = "dry"; a.role = 61;
            a.ops.push_back(opFn([s, unsafe_](FDB& f) { wipe(f, s, false, unsafe_); }));
            runActor(a);
            fs_tree("/sim/root", t1, false);
            std::string x = treeDiff(t0, t1, {});
            if (!x.empty()) bad("a dry wipe changed something", x);
        }
        M().notes.clear();
        {
            Actor a; a.name = "surveyor"; a.role = 60;
            a.ops.push_back(opFn([s](FDB& f) { for (auto& l : locations(f, Sel(), false)) note(std::string(s.matches(l.key) ? "w" : "k") + l.path); }));
            runActor(a);
        }
        for (auto& n : M().notes) (n[0] == 'w' ? wipedData : keptData).insert(S(n).substr(1));
        bool shows = false;
        for (auto* fs : {&wipedData, &keptData}) for (auto& f : *fs) if (under(f, dir)) shows = true;
        if (shows && oneIn(6)) {   // a request naming more than an index removes nothing (but a database without fields)
            Sel q = selFields({k}, d, ixOf(k));
            if (oneIn(2)) {
                q = selIx(d, ixOf(k));
                q.v[oneIn(2) ? "step" : "param"] = {keyword(k, "step")};
                for (auto& e : q.v) if (e.first == "step" || e.first == "param") {
                    e.second = {keyword(k, e.first)};
                    for (int kk : keys) if (oneIn(2) && dbOf(kk) == d && ixOf(kk) == ixOf(k)) e.second.insert(keyword(kk, e.first));
                    if (oneIn(4)) e.second.insert(e.first == "step" ? "48" : "228");
                }
            }
            fs_tree("/sim/root", t0, false);
            Actor a; a.name = "overspecified"; a.role = 63;
            a.mayFail = foreign;
            a.ops.push_back(opFn([q](FDB& f) { wipe(f, q, true, false); }));
            runActor(a);
            fs_tree("/sim/root", t1, false);
            std::string x = treeDiff(t0, t1, {});
            if (!x.empty()) bad("a wipe that names fields changed something", x);
            count("wipe_overspecified");
        }
        if (oneIn(3)) { putAux(wipedData, 0.5); putAux(keptData, 0.5); if (power) fs_sync_all(); }
        std::set<std::string> auxes;
        for (auto* fs : {&wipedData, &keptData}) for (auto& f : *fs) if (fs_exists(auxOf(f))) auxes.insert(f);
        std::set<std::string> kept;  // databases in which something else is listed
        for (auto& x : keptData) for (auto& dd : dirs) if (under(x, dd)) kept.insert(dd);
        if (whole && !kept.empty()) bad("database request does not match all of its fields", s.str());
        fs_tree("/sim/root", t0, false);
        t1.clear();
        uint64_t eb = W->steps;
        bool clean = true;          // the wipe ran to completion without any fault
        if (faults) {
            Actor a; a.name = "wiper" + std::to_string(p); a.role = 30 + p;
            a.mayFail = true;
            a.ops.push_back(opFn([s, unsafe_](FDB& f) { wipe(f, s, true, unsafe_); }));
            int f = r.below(4);
            if (f == 0) addFault(FK_CRASH, a.role, C_ALLFS, pickNth());
            else if (f == 1) addFault(FK_CRASH, a.role, C_FSMUT, 1 + W->rfault.below(30));
            else if (f == 2 && power) addFault(FK_POWER, a.role, C_FSMUT, 1 + W->rfault.below(30));
            else { ioFault(a.role, oneIn(2)); a.mayDie = true; }
            erase(s, eb, 0);
            std::vector<int> ps{startActor(a)};
            if (oneIn(4)) {
                Actor b; b.name = "reader" + std::to_string(p); b.role = 40 + p;
                b.mayFail = true;
                M().flags[SS("locked")] = 1;
                for (int j = 1 + r.below(4); j > 0; j--) { b.ops.push_back(op(A_RETRIEVE, keys[r.below(keys.size())])); b.ops.push_back(op(A_REOPEN)); }
                ps.push_back(startActor(b));
            }
            finishActors(ps);
            M().flags.erase(SS("locked"));
            W->faultsOn = false;
            W->noSpcLeft = 0;
            clean = false;
            // power loss may bring back the locks of earlier wipes too
            for (int kk : keys) unlock(selDb(dbOf(kk)));
            verifyAll();
            W->powerLost = false;
            unsafe_ = true;
            fs_tree("/sim/root", t0, false);
        }
        else erase(s, eb, 0);
        Actor a; a.name = "wiper"; a.role = 62;
        a.mayFail = !unsafe_;
        a.ops.push_back(opFn([s, unsafe_](FDB& f) { wipe(f, s, true, unsafe_); }));
        int wi = M().actors.size();
        std::vector<std::string> going;
        for (auto& f : wipedData) if (!keptData.count(f) && under(f, dir)) going.push_back(f);
        if (!faults && going.size() > 1 && oneIn(4)) {
            // a writer that comes while data are being removed is refused (one that comes later, when the locks have gone, is not)
            a.mayFail = true;
            Actor b; b.name = "intruder"; b.role = 63; b.mayFail = b.mayDie = true;
            size_t nv = M().vers.size();
            auto removing = [going] {
                size_t n = 0;
                for (auto& f : going) n += fs_exists(f);
                return n && n < going.size();
            };
            b.ops.push_back(opFn([removing, wi](FDB&) {
                while (!removing() && !M().actors[wi].done && !M().actors[wi].errors) sleep_until(W->clock + 20);
            }));
            b.ops.push_back(op(A_ARCHIVE, k, pickLen()));
            b.ops.push_back(op(A_FLUSH));
            b.ops.push_back(opFn([removing, nv, dir](FDB&) {
                if (!removing()) return;
                count("intruders_seen");
                if (M().vers.size() > nv && M().vers[nv].st == V_FLUSHED) bad("a field was archived into a database being wiped", dir);
            }));
            std::vector<int> ps{startActor(a), startActor(b)};
            finishActors(ps);
            count("intruders");
            fs_tree("/sim/root", t1, false);
            std::string x = treeDiff(t0, t1, std::vector<std::string>(dirs.begin(), dirs.end()));
            if (!x.empty()) bad("wipe touched something else", x);
            return;
        }
        runActor(a);
        bool failed = M().actors[wi].errors > 0;
        fs_tree("/sim/root", t1, false);
        if (failed) {
            // files the catalogue does not know: refused without the unsafe option
            bool orphans = foreign;
            for (auto& v : M().vers) if (dirs.count(dbDir("/sim/root", dbOf(v.key))) && (v.st != V_FLUSHED || (v.sub && !M().objClosed[v.obj]))) orphans = true;
            if (!orphans) bad("wipe of a clean database failed", S(M().actors[M().actors.size() - 1].lastError));
            std::vector<std::string> doneDirs;   // those before the one that was refused
            if (dirs.size() > 1)
                for (auto& dd : dirs) {
                    Tree u0, u1;
                    for (auto& e : t0) if (under(e.first, dd)) u0.insert(e);
                    for (auto& e : t1) if (under(e.first, dd)) u1.insert(e);
                    if (!u0.empty() && u0 != u1 && !u1.count(dd + "/archive.lock")) doneDirs.push_back(dd);
                }
            std::string x = treeDiff(t0, t1, doneDirs);
            if (!x.empty()) bad("a refused wipe changed something", x);
            for (auto& v : M().vers)
                if (v.eb == eb) {
                    if (std::find(doneDirs.begin(), doneDirs.end(), dbDir("/sim/root", dbOf(v.key))) != doneDirs.end()) v.ee = W->steps;
                    else v.eb = 0;
                }
            count("wipe_refused");
            fs_unlink((dir + "/foreign").c_str());
            verifyAll();
            continue;
        }
        erase(s, eb, W->steps);
        if (!clean) for (auto& dd : dbOfDir) unlock(selDb(dd.second));
        fs_tree("/sim/root", t1, false);
        std::string x = treeDiff(t0, t1, std::vector<std::string>(dirs.begin(), dirs.end()));
        if (!x.empty()) bad("wipe touched something else", x);
        for (auto& dd : dirs) {
            bool any = false;
            for (auto& f : wipedData) if (under(f, dd)) any = true;
            if (kept.count(dd) || !any) continue;
            for (auto& e : t1) if (under(e.first, dd) && !(!clean && (e.first == dd || e.first == dd + "/schema") && !t1.count(dd + "/toc"))) bad("wipe left files of the database", e.first);
        }
        if (clean) for (auto& f : wipedData) if (!keptData.count(f) && fs_exists(f)) bad("wipe left a data file", f);
        if (clean) for (auto& f : wipedData) if (!keptData.count(f) && fs_exists(auxOf(f))) bad("wipe left an auxiliary file", f);
        for (auto& f : auxes) if (keptData.count(f) && !fs_exists(auxOf(f))) bad("wipe removed the auxiliary file of a kept field", f);
        for (auto& f : keptData) if (!fs_exists(f)) bad("wipe removed the data of a kept field", f);
        if (fs_exists(dir + "/foreign")) fs_unlink((dir + "/foreign").c_str());
        verifyAll();
    }
    history(keys, 9, sub);
    verifyAll();
}
static void c09() { begin("C09"); wipeWorld(false); }
static RegScenario r09("C09", c09, "wipe of databases and indexes");
static void c10() { begin("C10"); wipeWorld(true); }
static RegScenario r10("C10", c10, "wipe killed, failing and repeated");

// ---- C11: control
static const ControlIdentifier IDS[] = {ControlIdentifier::List, ControlIdentifier::Retrieve, ControlIdentifier::Archive, ControlIdentifier::Wipe};
static const char* IDN[] = {"list", "retrieve", "archive", "wipe"};
static int& ctl(int d, int id) { return M().flags[SS("ctl" + std::to_string(d) + "_" + std::to_string(id))]; }  // 0 enabled, 1 disabled, 2 either
static void control(FDB& fdb, int d, bool disable, int mask) {
    ControlIdentifiers ids;
    for (int i = 0; i < 4; i++) if (mask >> i & 1) ids |= IDS[i];
    Sel s = selDb(d);
    if (oneIn(4)) s.alt = 1 + 8 * oneIn(2);
    auto it = fdb.control(toolRequest(s), disable ? ControlAction::Disable : ControlAction::Enable, ids);
    ControlElement e;
    int n = 0;
    while (it.next(e)) n++;
    count("control");
    if (!n) bad("control did not find the database", "d" + std::to_string(d));
}
static void probeList(FDB& fdb, int d) {
    int st = ctl(d, 0);
    if (st == 0) { checkList(fdb, selDb(d), true, true, false); return; }
    auto l = locations(fdb, selDb(d), true);
    if (st == 1 && !l.empty()) bad("list shows a database disabled for listing", "d" + std::to_string(d));
    count("refused_list");
}
static void probeRetrieve(FDB& fdb, int k) {
    int st = ctl(dbOf(k), 1);
    if (st == 0) { checkRetrieve(fdb, k, false); return; }
    std::string b;
    try {
        std::unique_ptr<eckit::DataHandle> h(fdb.retrieve(reqOf(k)));
        b = h ? readHandle(*h) : "";
    }
    catch (std::exception& e) { count("refused_retrieve"); return; }
    count("refused_retrieve");
    if (st == 1 && !b.empty()) bad("retrieve from a database disabled for retrieve", keyStr(k));
}
// a wipe that is refused or leaves something of the database leaves its controls as they were
static void wipeControlled(int d, int k, int role) {
    std::string dir = dbDir("/sim/root", d);
    if (!fs_exists(dir + "/toc")) return;
    bool foreign = oneIn(3);
    Sel s = oneIn(2) || dbOf(k) != d ? selDb(d) : selIx(d, ixOf(k));
    Tree t0, t1;
    if (foreign) fs_put(dir + "/foreign", "not a database file");
    fs_tree("/sim/root", t0, false);
    uint64_t eb = W->steps;
    erase(s, eb, 0);
    Actor a; a.name = "wiper"; a.role = role * 2;
    a.mayFail = true;
    a.ops.push_back(opFn([s](FDB& f) { wipe(f, s, true, false); }));
    runActor(a);
    bool failed = M().actors.back().errors > 0;
    fs_tree("/sim/root", t1, false);
    fs_unlink((dir + "/foreign").c_str());
    if (failed) {
        std::string x = treeDiff(t0, t1, {});
        if (!x.empty()) bad("a refused wipe changed something", x);
        for (auto& v : M().vers) if (v.eb == eb) v.eb = 0;
        count("controlled_wipe_refused");
        return;
    }
    erase(s, eb, W->steps);
    count("controlled_wipe");
    if (!fs_exists(dir + "/toc")) for (int i = 0; i < 4; i++) ctl(d, i) = 0;
    else {
        for (auto& e : t0) if (e.first.size() > 5 && e.first.substr(e.first.size() - 5) == ".lock" && !t1.count(e.first)) bad("a partial wipe enabled what had been disabled", e.first);
        for (auto& e : t1) if (e.first.size() > 5 && e.first.substr(e.first.size() - 5) == ".lock" && !t0.count(e.first)) bad("a partial wipe left a lock", e.first);
    }
}
static void c11() {
    begin("C11");
    defineConfig("main", localYaml({"/sim/root"}));
    randomKnobs();
    Rng& r = W->rwork;
    auto keys = pickKeys(1 + r.below(2), 1 + r.below(2), 1 + r.below(2));
    std::vector<int> ds;
    {
        Actor a; a.name = "creator"; a.role = 1;
        for (int k : keys) { a.ops.push_back(op(A_ARCHIVE, k, pickLen())); if (std::find(ds.begin(), ds.end(), dbOf(k)) == ds.end()) ds.push_back(dbOf(k)); }
        a.ops.push_back(op(A_FLUSH));
        runActor(a);
    }
    int steps = 4 + r.below(8);
    for (int p = 0; p < steps; p++) {
        W->faults->clear();
        W->faultsOn = false;
        int d = ds[r.below(ds.size())];
        int k = keys[r.below(keys.size())];
        int role = 2 + p;
        switch (r.below(8)) {
            case 0: case 1: case 2: {  // one or two controllers
                int n = oneIn(3) ? 2 : 1;
                std::vector<int> ps;
                struct Act { int d; bool dis; int mask; };
                if (!fs_exists(dbDir("/sim/root", d) + "/toc")) break;
                std::vector<Act> acts;
                for (int i = 0; i < n; i++) acts.push_back({oneIn(2) || !fs_exists(dbDir("/sim/root", ds[0]) + "/toc") ? d : ds[0], r.chance(0.6), int(1 + r.below(15))});
                bool crash = oneIn(5);
                if (crash) addFault(FK_CRASH, role * 2, C_ALLFS, pickNth());
                int before = M().actors.size();
                for (int i = 0; i < n; i++) {
                    Actor a; a.name = "control" + std::to_string(p) + "_" + std::to_string(i); a.role = role * 2 + i;
                    Act c = acts[i];
                    if (n == 1 && !crash)   // first other actions of the same process
                        for (int j = r.below(3); j > 0; j--) {
                            Act q{c.d, oneIn(2), oneIn(2) ? c.mask : int(1 + r.below(15))};
                            a.ops.push_back(opFn([q](FDB& f) {
                                control(f, q.d, q.dis, q.mask);
                                for (int id = 0; id < 4; id++) if (q.mask >> id & 1) ctl(q.d, id) = q.dis;
                            }));
                            if (oneIn(3)) a.ops.push_back(op(A_REOPEN));
                        }
                    a.ops.push_back(opFn([c](FDB& f) { control(f, c.d, c.dis, c.mask); }));
                    ps.push_back(startActor(a));
                }
                // what the state may be afterwards
                finishActors(ps);
                for (int dd : ds)
                    for (int id = 0; id < 4; id++) {
                        std::set<int> poss;
                        bool sure = false;
                        for (int i = 0; i < n; i++) {
                            if (acts[i].d != dd || !(acts[i].mask >> id & 1)) continue;
                            poss.insert(acts[i].dis);
                            if (M().actors[before + i].done) sure = true;
                        }
                        if (poss.empty()) continue;
                        if (!sure) poss.insert(ctl(dd, id));
                        ctl(dd, id) = poss.size() == 1 ? *poss.begin() : 2;
                    }
                break;
            }
            case 3: {  // archive
                Actor a; a.name = "writer" + std::to_string(p); a.role = role * 2;
                int st = ctl(dbOf(k), 2);
                a.mayFail = st != 0;
                a.mayDie  = st != 0;
                a.ops.push_back(op(A_ARCHIVE, k, pickLen()));
                a.ops.push_back(op(A_FLUSH));
                size_t nv = M().vers.size();
                runActor(a);
                if (st == 1 && M().vers.size() > nv && M().vers[nv].st != V_FAILED) bad("archive into a database disabled for archiving succeeded", keyStr(k));
                break;
            }
            case 4: {  // wipe or purge or a dry wipe of a database that is locked for wiping
                if (ctl(d, 3) == 0) { wipeControlled(d, k, role); break; }
                if (ctl(d, 3) != 1) break;
                Tree t0, t1;
                fs_tree("/sim/root", t0, false);
                Actor a; a.name = "wiper" + std::to_string(p); a.role = role * 2;
                a.mayFail = true;
                bool w = oneIn(2), u = oneIn(2);
                a.ops.push_back(opFn([d, w, u](FDB& f) { if (w) wipe(f, selDb(d), true, u); else purge(f, selDb(d), true, false); }));
                runActor(a);
                fs_tree("/sim/root", t1, false);
                std::string x = treeDiff(t0, t1, {});
                if (!x.empty()) bad("wipe or purge of a database disabled for wiping changed it", x);
                break;
            }
            default: {
                Actor a; a.name = "reader" + std::to_string(p); a.role = role * 2;
                for (int dd : ds) a.ops.push_back(opFn([dd](FDB& f) { probeList(f, dd); }));
                for (int kk : keys) a.ops.push_back(opFn([kk](FDB& f) { probeRetrieve(f, kk); }));
                runActor(a);
            }
        }
    }
    for (int d : ds) {
        if (!fs_exists(dbDir("/sim/root", d) + "/toc")) continue;
        Actor a; a.name = "enable"; a.role = 80;
        a.ops.push_back(opFn([d](FDB& f) { control(f, d, false, 15); }));
        runActor(a);
        for (int i = 0; i < 4; i++) ctl(d, i) = 0;
    }
    (void)IDN;
    history(keys, 9, false);
    verifyAll();
}
static RegScenario r11("C11", c11, "control actions by several processes");

}  // namespace sim
