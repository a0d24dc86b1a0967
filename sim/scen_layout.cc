// Scenarios about moving, overlaying, hiding and reconsolidating databases, schemas, roots and lanes
#include "lib.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include <algorithm>
#include <unistd.h>
using namespace fdb5;
namespace sim {

static Actor writer(const std::string& name, int role, std::vector<OpSpec> ops) {
    Actor a;
    a.name = name;
    a.role = role;
    a.ops  = std::move(ops);
    return a;
}
static std::string dbRequest(int d) {
    std::string s;
    auto v = keyVals(mkKey(d, 0, 0));
    for (int j = 0; j < 5; j++) s += (j ? "," : "") + v[j].first + "=" + v[j].second;
    return s;
}
static Actor tool(const std::string& name, int role, std::vector<std::string> line) {
    Actor a;
    a.name = name;
    a.role = role;
    a.tool = std::move(line);
    return a;
}
static void enable(int d, const std::string& cfg = "main") {
    Actor a;
    a.name = "enable";
    a.role = 70;
    a.cfg  = cfg;
    a.ops.push_back(opFn([d](FDB& f) {
        auto it = f.control(toolRequest(selDb(d)), ControlAction::Enable,
                            ControlIdentifier::Archive | ControlIdentifier::Wipe | ControlIdentifier::UniqueRoot);
        ControlElement e;
        while (it.next(e)) {}
    }));
    runActor(a);
}

// ---- C17: move
static void c17() {
    begin("C17");
    Rng& r = W->rwork;
    fs_mkdirs("/sim/root0");
    fs_mkdirs("/sim/root1");
    bool swapped = oneIn(2);
    defineConfig("main", localYaml(swapped ? std::vector<std::string>{"/sim/root1", "/sim/root0"} : std::vector<std::string>{"/sim/root0", "/sim/root1"}));
    defineConfig("src", localYaml({"/sim/root0"}));
    defineConfig("dst", localYaml({"/sim/root1"}));
    randomKnobs();
    bool power = oneIn(3), sub = oneIn(4);
    W->trackDur = power;
    fs_sync_all();
    M().fullExact = false;   // source and destination are both listed while both exist
    auto keys = pickKeys(1 + (oneIn(3) ? 1 : 0), 1 + r.below(2), 1 + r.below(3));
    int d = dbOf(keys[0]);
    for (int w = 1 + r.below(3); w > 0; w--) {
        Actor a = writer("writer" + std::to_string(w), w, writerOps(keys, 1 + r.below(6), 0.5, true));
        a.cfg = "src";
        a.closeAtEnd = r.chance(0.9);
        a.subToc     = sub && oneIn(2);
        if (oneIn(8)) addFault(FK_CRASH, a.role, C_ALLFS, pickNth());
        runActor(a);
        W->faults->clear();
        W->faultsOn = false;
    }
    {
        Actor a = writer("first", 9, {op(A_ARCHIVE, keys[0], pickLen()), op(A_FLUSH)});
        a.cfg = "src";
        runActor(a);
    }
    std::string sdir = dbDir("/sim/root0", d), ddir = dbDir("/sim/root1", d);
    std::map<std::string, std::string> auxes;   // of the source, by file name
    if (oneIn(3)) {
        std::map<std::string, std::string> t;
        std::set<std::string> files;
        fs_tree(sdir, t, false);
        for (auto& e : t) if (e.first.size() > 5 && e.first.substr(e.first.size() - 5) == ".data") files.insert(e.first);
        putAux(files, 0.6);
        if (power) fs_sync_all();
        for (auto& f : files) if (fs_exists(auxOf(f))) auxes[auxOf(f).substr(sdir.size())] = auxText(f);
    }
    bool keep = oneIn(4);
    std::vector<std::string> line{"fdb-move", "--config=/sim/etc/main.yaml", "--raw", "--dest=/sim/root1"};
    if (keep) line.push_back("--keep");
    if (oneIn(2)) line.push_back("--threads=" + std::to_string(1 + r.below(4)));
    if (!keep && oneIn(3)) line.push_back("--delay=1");
    line.push_back(dbRequest(d));
    Actor m = tool("mover", 20, line);
    std::vector<int> ps;
    bool beside = oneIn(3), faulty = r.chance(0.7);
    M().flags[SS("locked")] = 1;
    if (faulty) {
        int f = r.below(4);
        if (f == 0) addFault(FK_CRASH, 20, C_ALLFS, pickNth());
        else if (f == 1) addFault(FK_CRASH, 20, C_FSMUT, 1 + W->rfault.below(40));
        else if (f == 2 && power) addFault(FK_POWER, 20, C_FSMUT, 1 + W->rfault.below(40));
        else { ioFault(20, !oneIn(3)); m.mayFail = m.mayDie = true; }
    }
    bool early = oneIn(6), late = !keep && oneIn(3);   // with --keep both copies stay, and the locks with them
    if (early) {   // has the database open when the move begins
        Actor b = writer("early", 40, {op(A_ARCHIVE, keys[0], pickLen())});
        auto more = writerOps(keys, 1 + r.below(4), 0.5, true);
        b.ops.insert(b.ops.end(), more.begin(), more.end());
        b.mayFail = b.mayDie = true;
        ps.push_back(startActor(b));
    }
    m.mayFail = m.mayFail || early;   // it may leave files behind that the mover does not know
    ps.push_back(startActor(m));
    int ai = int(M().actors.size()) - 1;
    if (beside)
        for (int i = 1 + r.below(2); i > 0; i--) {
            Actor b;
            b.name = "reader" + std::to_string(i);
            b.role = 30 + i;
            b.mayFail = true;
            for (int j = 1 + r.below(4); j > 0; j--) { b.ops.push_back(op(A_RETRIEVE, keys[r.below(keys.size())])); b.ops.push_back(op(A_REOPEN)); }
            ps.push_back(startActor(b));
        }
    if (late) {   // comes while the source is locked
        Actor b = writer("late", 41, {});
        b.mayFail = b.mayDie = true;
        int k = keys[0], len = pickLen();
        b.ops.push_back(opFn([sdir, ddir](FDB&) { for (int i = 0; i < 3000 && !fs_exists(sdir + "/archive.lock") && !fs_exists(ddir + "/toc"); i++) usleep(50); }));
        int pause = oneIn(2) ? r.below(3000) : 0;
        if (pause) b.ops.push_back(op(A_SLEEP, 0, 0, pause));
        b.ops.push_back(op(A_ARCHIVE, k, len));
        b.ops.push_back(op(A_FLUSH));
        ps.push_back(startActor(b));
    }
    finishActors(ps);
    M().flags.erase(SS("locked"));
    bool done = M().actors[ai].done && !M().actors[ai].errors;
    W->faultsOn = false;
    W->noSpcLeft = 0;
    if (power && oneIn(2) && !W->powerLost) power_loss();
    bool atDst = fs_exists(ddir + "/toc"), atSrc = fs_exists(sdir + "/toc");
    if (!atDst && !atSrc) bad("neither source nor destination has a toc after a move", "");
    if (done && !atDst && !W->powerLost) bad("a completed move left no destination", "");
    if (done && !keep && atSrc && !W->powerLost && !late && !early) bad("a completed move left the source", "");
    // while an interrupted move has left both copies, what was written to the destination since may be listed behind
    // the source's version
    if (!(late && atDst && atSrc)) verifyAll();
    W->powerLost = false;
    if (atDst) {
        // the destination is complete
        for (auto& e : auxes) {
            std::string t;
            if (!fs_get(ddir + e.first, t) || t != e.second) bad("a move did not take an auxiliary file along", ddir + e.first);
        }
        fs_remove_tree(sdir);
        verifyAll("main", false);
        if (keys.size() && M().universe.size()) {
            bool one = true;
            for (int k : keys) if (dbOf(k) != d) one = false;
            if (one) verifyAll("dst", false);
        }
    }
    else fs_remove_tree(ddir);
    enable(d, atDst ? "dst" : "src");
    runActor(writer("later", 50, writerOps(keys, 1 + r.below(4), 0.5, true)));
    verifyAll("main", !atDst);
}
static RegScenario r17("C17", c17, "move of a database, killed, failing and beside others");

// ---- C19: hide, overlay, reconsolidate
static Actor reader(const std::string& name, int role, const std::vector<int>& keys, int n) {
    Actor b;
    b.name = name;
    b.role = role;
    for (int j = 0; j < n; j++) { b.ops.push_back(readOp(keys)); b.ops.push_back(op(A_REOPEN)); }
    return b;
}
// marks the versions of the selected fields that may have become invisible: not before eb, certainly after ee
static void erased(const Sel& s, uint64_t eb, uint64_t ee) {
    for (auto& v : M().vers)
        if (s.matches(v.key) && v.ab < W->steps && !v.ee) { if (!v.eb) v.eb = eb; v.ee = ee; }
}
static void writers(const std::vector<int>& keys, int role, bool sub, bool crash) {
    Rng& r = W->rwork;
    Actor a = writer("writer" + std::to_string(role), role, writerOps(keys, 1 + r.below(6), 0.5, r.chance(0.9)));
    a.closeAtEnd = r.chance(0.85);
    a.subToc     = sub && oneIn(2);
    if (crash && oneIn(6)) addFault(FK_CRASH, a.role, C_ALLFS, pickNth());
    runActor(a);
    W->faults->clear();
    W->faultsOn = false;
}
static void toolFault(Actor& a, bool power) {
    int f = W->rfault.below(4);
    if (f == 0) addFault(FK_CRASH, a.role, C_ALLFS, pickNth());
    else if (f == 1) addFault(FK_CRASH, a.role, C_FSMUT, 1 + W->rfault.below(20));
    else if (f == 2 && power) addFault(FK_POWER, a.role, C_FSMUT, 1 + W->rfault.below(20));
    else { ioFault(a.role, !oneIn(3)); a.mayFail = a.mayDie = true; }
}
static void faultsOff() {
    W->faults->clear();
    W->faultsOn = false;
    W->noSpcLeft = 0;
}
static void c19reconsolidate() {
    Rng& r = W->rwork;
    bool power = oneIn(4), sub = oneIn(2);
    W->trackDur = power;
    fs_sync_all();
    M().fullExact = false;   // an interrupted reconsolidation leaves both indexes
    auto keys = pickKeys(1 + (oneIn(3) ? 1 : 0), 1 + r.below(3), 1 + r.below(3));
    int d = dbOf(keys[0]);
    int role = 1;
    bool failed = false;
    for (int round = 1 + r.below(3); round > 0; round--) {
        for (int w = 1 + r.below(3); w > 0; w--) writers(keys, role++, sub, true);
        if (oneIn(3)) verifyAll();
        if (!fs_exists(dbDir("/sim/root", d) + "/toc")) continue;
        std::vector<int> ps;
        Actor t = tool("reconsolidate", 40 + round, {"fdb-reconsolidate-toc", "--config=/sim/etc/main.yaml", dbDir("/sim/root", d) + (oneIn(2) ? "/toc" : "")});
        bool faulty = r.chance(0.6);
        if (faulty) toolFault(t, power);
        t.mayFail = true;   // see DESIGN: at this commit the tool always ends with an error, having changed nothing
        ps.push_back(startActor(t));
        int ti = int(M().actors.size()) - 1;
        if (oneIn(2)) for (int i = 1 + r.below(2); i > 0; i--) ps.push_back(startActor(reader("reader" + std::to_string(i), 50 + i, keys, 1 + r.below(3))));
        finishActors(ps);
        faultsOff();
        if (!faulty && M().actors[ti].errors) failed = true;
        if (power && !W->powerLost && oneIn(2)) power_loss();
        W->powerLost = false;
        verifyAll();
    }
    writers(keys, role++, false, false);
    verifyAll();
    if (failed) bad("fdb-reconsolidate-toc fails", "");
}
static void c19hide() {
    Rng& r = W->rwork;
    bool power = oneIn(4), sub = oneIn(2);
    W->trackDur = power;
    fs_sync_all();
    if (sub) M().fullExact = false;
    auto keys = pickKeys(1 + r.below(3), 1 + r.below(3), 1 + r.below(3));
    int d = dbOf(keys[r.below(keys.size())]);
    int role = 1;
    bool purged = false;
    for (int round = 1 + r.below(3); round > 0; round--) {
        for (int w = 1 + r.below(2); w > 0; w--) writers(keys, role++, sub, true);
        if (oneIn(3)) verifyAll("main", !purged);
        std::string content;   // a database exists once the first record of its toc is there
        if (!fs_get(dbDir("/sim/root", d) + "/toc", content) || content.empty()) continue;
        std::vector<int> ps;
        bool doit = !oneIn(6);
        std::vector<std::string> line{"fdb-hide", "--config=/sim/etc/main.yaml"};
        if (doit) line.push_back("--doit");
        line.push_back(dbRequest(d));
        Actor t = tool("hide", 40 + round, line);
        if (r.chance(0.5)) toolFault(t, power);
        uint64_t eb = W->steps;
        if (doit) for (auto& v : M().vers) if (selDb(d).matches(v.key) && !v.eb) v.eb = eb;
        size_t before = M().vers.size();
        ps.push_back(startActor(t));
        int ai = int(M().actors.size()) - 1;
        if (!oneIn(3)) for (int i = 1 + r.below(2); i > 0; i--) ps.push_back(startActor(reader("reader" + std::to_string(i), 50 + i, keys, 1 + r.below(3))));
        else if (oneIn(2)) {
            Actor a = writer("beside" + std::to_string(round), role++, writerOps(keys, 1 + r.below(4), 0.5, true));
            a.closeAtEnd = r.chance(0.85);
            ps.push_back(startActor(a));
        }
        finishActors(ps);
        faultsOff();
        auto& at = M().actors[ai];
        bool ok = at.done && !at.errors;
        for (size_t i = 0; i < M().vers.size(); i++) {
            auto& v = M().vers[i];
            if (!doit || !selDb(d).matches(v.key) || v.ee) continue;
            if (i >= before) {
                if (committed(v) && v.ab > at.death) continue;   // published after the mask (an evicted catalogue publishes before the flush)
                if (!v.eb) v.eb = eb;
                if (committed(v) && v.fe < eb && ok) v.ee = at.death;
            }
            else if (ok && v.eb <= eb && (committed(v) || i < before)) v.ee = at.death;
        }
        if (power && !W->powerLost && oneIn(2)) power_loss();
        W->powerLost = false;
        verifyAll("main", !purged);
        if (oneIn(4)) {
            runActor(tool("purge", 60 + round, {"fdb-purge", "--config=/sim/etc/main.yaml", "--raw", "--doit", dbRequest(d)}));
            purged = true;
            M().flags[SS("purged")] = 1;
            verifyAll("main", false);
        }
    }
    writers(keys, role++, false, false);
    verifyAll("main", !purged);
}

// overlay: the fields of other databases under the keys of the target, and its own
static int newestIn(int key, uint64_t after) {
    int best = -1;
    for (auto& v : M().vers)
        if (v.key == key && committed(v) && v.fb > after && (best < 0 || v.ae > M().vers[best].ae)) best = v.id;
    return best;
}
struct Mount { int src; uint64_t at; };
// the version expected to be shown for a key of the target: what came last, the mounts counting from when they were made
static int shown(int key, const std::vector<Mount>& mounts) {
    int v = newestIn(key, mounts.empty() ? 0 : mounts.back().at);
    for (size_t i = mounts.size(); v < 0 && i-- > 0;) {
        v = newestIn(mkKey(mounts[i].src, ixOf(key), key % NF), 0);
        if (v < 0) v = newestIn(key, i ? mounts[i - 1].at : 0);
    }
    return v;
}
static std::map<int, int> view;   // what the target was seen to show: version of each key
static void look(int target) {
    Actor a;
    a.name = "viewer";
    a.role = 91;
    M().notes.clear();
    a.ops.push_back(opFn([target](FDB& f) {
        for (auto& l : locations(f, selDb(target), true)) {
            std::string file, b;
            if (l.key < 0 || dbOf(l.key) != target) bad("list of an overlaid database shows another key", keyStr(l.key));
            if (!fs_get(l.path, file) || size_t(l.off + l.len) > file.size()) bad("list of an overlaid database shows a field without data", keyStr(l.key) + " " + l.path);
            b = file.substr(l.off, l.len);
            int v = matchVersion(l.key, b);
            for (int s : {0, 2}) if (v < 0) v = matchVersion(mkKey(s, ixOf(l.key), l.key % NF), b);
            if (v < 0) bad("an overlaid database shows bytes nobody wrote", keyStr(l.key));
            M().notes.push_back(SS(std::to_string(l.key) + " " + std::to_string(v)));
            // a field of another database is to be given the keys of this one when it is retrieved
            auto it = f.inspect(reqOf(l.key));
            ListElement e;
            while (it.next(e)) {
                bool own = e.location().uri().path().asString().compare(0, dbDir("/sim/root", target).size() + 1, dbDir("/sim/root", target) + "/") == 0;
                bool remap = !e.location().fullUri().query("remapKey").empty();
                if (own == remap) bad(own ? "a field of its own is remapped in an overlaid database" : "an overlaid field is not remapped", keyStr(l.key));
                count("remap_checked");
            }
        }
    }));
    runActor(a);
    view.clear();
    for (auto& n : M().notes) {
        int k, v;
        sscanf(n.c_str(), "%d %d", &k, &v);
        if (view.count(k)) bad("list of an overlaid database shows a field twice", keyStr(k));
        view[k] = v;
    }
}
static std::map<int, int> expected(const std::vector<int>& keys, const std::vector<Mount>& mounts) {
    std::map<int, int> e;
    for (int k : keys) { int v = shown(k, mounts); if (v >= 0) e[k] = v; }
    return e;
}
static std::string viewStr(const std::map<int, int>& m) {
    std::string s;
    for (auto& e : m) s += keyStr(e.first) + ":v" + std::to_string(e.second) + " ";
    return s;
}
static void c19overlay() {
    Rng& r = W->rwork;
    bool power = oneIn(4), sub = oneIn(3), two = oneIn(4);
    W->trackDur = power;
    fs_sync_all();
    M().fullExact = false;
    const int target = 1;
    std::vector<int> srcs{0};
    if (two) srcs.push_back(2);
    std::vector<std::pair<int, int>> fields;
    for (int n = 1 + r.below(5); n > 0; n--) fields.push_back({int(r.below(NI)), int(r.below(NF))});
    std::vector<int> tkeys;
    std::map<int, std::vector<int>> skeys;
    for (auto& f : fields) {
        tkeys.push_back(mkKey(target, f.first, f.second));
        for (int s : srcs) skeys[s].push_back(mkKey(s, f.first, f.second));
    }
    std::sort(tkeys.begin(), tkeys.end());
    tkeys.erase(std::unique(tkeys.begin(), tkeys.end()), tkeys.end());
    for (int s : srcs) for (int k : skeys[s]) M().universe.push_back(k);
    std::sort(M().universe.begin(), M().universe.end());
    M().universe.erase(std::unique(M().universe.begin(), M().universe.end()), M().universe.end());
    int role = 1;
    auto put = [&](const std::vector<int>& keys) {
        Actor a = writer("writer" + std::to_string(role), role, writerOps(keys, 1 + r.below(4), 0.5, true));
        role++;
        a.subToc = sub && oneIn(2);
        runActor(a);
    };
    auto request = [](int d) { return dbRequest(d); };
    for (int s : srcs) put(skeys[s]);
    std::vector<Mount> mounts;
    std::set<int> removed;      // sources taken away before
    bool wiped = false, leftovers = false;
    for (int step = 2 + r.below(5); step > 0; step--) {
        int s = srcs[r.below(srcs.size())];
        bool mounted = false;
        for (auto& m : mounts) if (m.src == s) mounted = true;
        int what = r.below(10);
        bool exists = fs_exists(dbDir("/sim/root", target) + "/toc");
        if (what < 3) put(tkeys);
        else if (what < 5) put(skeys[s]);
        else if (what < 9 || !exists) {
            bool remove = mounted && !oneIn(6);
            if (!remove && (mounted || !removed.empty())) {
                if (!oneIn(3)) continue;   // mounted again
            }
            std::vector<std::string> line{"fdb-overlay", "--config=/sim/etc/main.yaml"};
            if (remove) line.push_back("--remove");
            else if (exists) line.push_back("--force");
            line.push_back(request(s));
            line.push_back(request(target));
            Actor t = tool("overlay", 40 + step, line);
            bool faulty = oneIn(3), masked = remove && !removed.empty();   // the mask of the one removed hides the other as well
            if (faulty) toolFault(t, power);
            if (faulty || power) leftovers = true;
            if (masked) t.mayFail = true;
            runActor(t);
            auto& rec = M().actors.back();
            if (masked && !faulty && rec.errors) bad("every overlay of a database is hidden once one has been removed", request(s));
            bool ok = rec.done && !rec.errors;
            bool died_ = !ok;
            faultsOff();
            if (power && !W->powerLost && oneIn(2)) power_loss();
            W->powerLost = false;
            auto next = mounts;
            if (remove) next.erase(std::remove_if(next.begin(), next.end(), [s](const Mount& m) { return m.src == s; }), next.end());
            else next.push_back({s, W->steps});
            if (died_) {   // it may have happened or not
                look(target);
                if (view == expected(tkeys, mounts)) next = mounts;
            }
            if (remove && next.size() < mounts.size()) removed.insert(s);
            mounts = next;
        }
        else if (step == 1 || oneIn(2)) {
            // the target is wiped, or some of its indexes: the databases shown in it are not touched
            int some = oneIn(2) ? tkeys[r.below(tkeys.size())] : -1;
            Actor t = tool("wipe", 60 + step, {"fdb-wipe", "--config=/sim/etc/main.yaml", "--raw", "--doit", request(target) + (some < 0 ? "" : ",type=" + keyword(some, "type"))});
            bool own = false;
            for (auto& e : expected(tkeys, {})) if (some < 0 || keyword(e.first, "type") == keyword(some, "type")) own = true;
            // refuses when the target has no fields of its own, or files that a killed process has left
            t.mayFail = !own || wiped || leftovers;
            runActor(t);
            if (power) fs_sync_all();   // a power loss could bring removed (lock) files back
            if (M().actors.back().errors) wiped = true;   // its own fields may be gone, those of the others are not
            else {
                for (auto& v : M().vers)
                    if (dbOf(v.key) == target && (some < 0 || keyword(v.key, "type") == keyword(some, "type"))) { v.eb = v.ee = W->steps; v.st = V_FAILED; }
                if (!fs_exists(dbDir("/sim/root", target) + "/toc")) { mounts.clear(); removed.clear(); }
                count(some >= 0 ? "overlay_index_wiped" : "overlay_wiped");
            }
        }
        look(target);
        auto e = expected(tkeys, mounts);
        if (!wiped && view != e)
            bad(!removed.empty() && view == expected(tkeys, {}) ? "every overlay of a database is hidden once one has been removed" : "an overlaid database does not show what it should",
                "shown " + viewStr(view) + " expected " + viewStr(e));
        Actor a;   // the sources are as they were
        a.name = "verifier";
        a.role = 90;
        for (int q : srcs)
            a.ops.push_back(opFn([q, skeys](FDB& f) {
                checkList(f, selDb(q), false, true, false);
                checkList(f, selDb(q), true, true, false);
                for (int k : skeys.at(q)) checkRetrieve(f, k, false);
            }));
        runActor(a);
        if (wiped) return;
    }
}
static void c19() {
    begin("C19");
    fs_mkdirs("/sim/root");
    defineConfig("main", localYaml({"/sim/root"}));
    randomKnobs();
    switch (W->rwork.below(4)) {
        case 0: c19reconsolidate(); break;
        case 1: c19hide(); break;
        default: c19overlay(); break;
    }
}

// ---- C20: the schema a database was created with
static const char* SCHEMAS[] = {
    nullptr,
    "param: Param;\nstep: Step;\ndate: Date;\ntime: Time;\nlevelist: Double;\n"
    "[ class, expver, stream=oper/dacl, date, time, domain?\n    [ type\n        [ step, levtype, levelist?, param ]]]\n",
    "param: Param;\nstep: Step;\ndate: Date;\ntime: Time;\nlevelist: Double;\n"
    "[ class, expver, stream=oper/dacl, date, time, domain?\n    [ type, levtype, step\n        [ levelist?, param ]]]\n",
    "param: Param;\nstep: Step;\ndate: Date;\ntime: Time;\nlevelist: Double;\n"
    "[ class, expver, stream=oper/dacl, date, time, domain?\n    [ levtype\n        [ type, step, levelist?, param ]]]\n"};
static const std::set<std::string> SECOND[] = {{"type", "levtype"}, {"type"}, {"type", "levtype", "step"}, {"levtype"}};
static const char* schemaText(int i) { return i ? SCHEMAS[i] : SCHEMA; }
static int schemaOf(int d) {   // the schema stored with a database
    std::string t;
    if (!fs_get(dbDir("/sim/root", d) + "/schema", t)) return -1;
    for (int i = 0; i < 4; i++) if (t == schemaText(i)) return i;
    return -1;
}
static void checkSchemas(FDB& f, const std::map<int, int>& owner) {
    Sel all;
    auto it = f.list(toolRequest(all), ListMode::Full, 3);
    ListElement e;
    while (it.next(e)) {
        int k = keyId(e.combinedKey());
        if (k < 0 || !owner.count(dbOf(k))) continue;
        std::set<std::string> names;
        for (const auto& x : e.keys()[1]) if (!x.second.empty()) names.insert(x.first);
        auto want = SECOND[owner.at(dbOf(k))];
        if (names != want) {
            std::string t;
            for (auto& n : names) t += n + " ";
            bad("a field is indexed by another schema than its database", keyStr(k) + " by " + t + ", schema " + std::to_string(owner.at(dbOf(k))));
        }
    }
    count("schema_list");
}
static void c20() {
    begin("C20");
    fs_mkdirs("/sim/root");
    Rng& r = W->rwork;
    int ns = 2 + r.below(3);
    for (int i = 0; i < 4; i++) {
        fs_put("/sim/etc/schema" + std::to_string(i), schemaText(i));
        defineConfig("s" + std::to_string(i), localYaml({"/sim/root"}, "/sim/etc/schema" + std::to_string(i)));
    }
    defineConfig("main", localYaml({"/sim/root"}));
    randomKnobs();
    W->trackDur = oneIn(4);
    fs_sync_all();
    auto keys = pickKeys(1 + r.below(3), 1 + r.below(3), 1 + r.below(4));
    std::set<int> dbs;
    for (int k : keys) dbs.insert(dbOf(k));
    std::map<int, int> owner;
    std::set<int> raced;
    int role = 1;
    auto cfg = [&] { return oneIn(4) ? std::string("main") : "s" + std::to_string(r.below(ns)); };
    bool edited = false;
    auto look = [&] {
        for (int d : dbs) {
            std::string t;
            bool there = fs_get(dbDir("/sim/root", d) + "/toc", t) && !t.empty();
            int s = schemaOf(d);
            if (!there) { owner.erase(d); continue; }
            if (s < 0) bad("a database has no complete schema", dbDir("/sim/root", d));
            if (owner.count(d) && owner[d] != s) bad("the schema of a database changed", dbDir("/sim/root", d));
            owner[d] = s;
        }
    };
    int rounds = 2 + r.below(3);
    for (int round = 0; round < rounds; round++) {
        std::vector<int> ps;
        int nw = 1 + r.below(3);
        auto had = owner;
        bool race = oneIn(12);
        std::vector<int> ks;   // in databases which exist
        for (int k : keys) if (owner.count(dbOf(k))) ks.push_back(k);
        bool same = oneIn(2);          // one configuration for all
        std::string one = cfg();
        if (race || same || nw == 1) ks = keys;
        if (ks.empty()) { ks = keys; nw = 1; }
        if (race && nw > 1 && !same) M().flags[SS("raced")] = 1;
        for (int w = 0; w < nw; w++) {
            Actor a = writer("writer" + std::to_string(role), role, writerOps(ks, 1 + r.below(6), 0.5, true));
            a.cfg = same ? one : cfg();
            role++;
            a.closeAtEnd = r.chance(0.9);
            if (oneIn(6)) addFault(FK_CRASH, a.role, oneIn(2) ? C_ALLFS : C_FSMUT, oneIn(2) ? 1 + W->rfault.below(12) : pickNth());
            sprinkle(a.ops, keys, 0.2);
            ps.push_back(startActor(a));
        }
        finishActors(ps);
        faultsOff();
        look();
        if (race && nw > 1 && !same) for (auto& o : owner) if (!had.count(o.first)) raced.insert(o.first);
        if (raced.size()) M().flags[SS("raced")] = 1;
        else M().flags.erase(SS("raced"));
        if (oneIn(3)) {   // the configured file changes
            fs_put("/sim/etc/schema", schemaText(r.below(4)));
            edited = true;
            count("schema_file_changed");
        }
        if (W->trackDur && oneIn(3)) { power_loss(); W->powerLost = false; look(); }
        Actor v;
        v.name = "checker";
        v.role = 80;
        v.cfg  = cfg();
        auto o = owner;
        v.ops.push_back(opFn([o](FDB& f) { checkSchemas(f, o); }));
        for (int i = 0; i < 2; i++) v.ops.push_back(readOp(keys));
        runActor(v);
        verifyAll(cfg());
        if (oneIn(4) && owner.size()) {   // wiped, to be created anew
            auto x = owner.begin();
            std::advance(x, r.below(owner.size()));
            int d = x->first;
            uint64_t eb = W->steps;
            runActor(tool("wipe", 60 + round, {"fdb-wipe", "--config=/sim/etc/main.yaml", "--raw", "--doit", "--unsafe-wipe-all", dbRequest(d)}));
            if (W->trackDur) fs_sync_all();   // a power loss could bring removed (lock) files back
            erased(selDb(d), eb, W->steps);
            owner.erase(d);
            raced.erase(d);
            if (raced.empty()) M().flags.erase(SS("raced"));
            look();
        }
    }
    (void)edited;
    verifyAll(cfg());
}
// ---- C16: lanes, file spaces and roots
namespace {
struct Part { std::string sel, ex; std::vector<std::string> roots; std::string handler; std::function<bool(int)> takes; };
struct Layout { int kind; std::vector<Part> parts; };
}
static std::string yamlRoots(const Part& p, const std::set<std::string>& closed, const std::set<std::string>& hidden, const std::string& ind) {
    std::string y;
    for (auto& r : p.roots) {
        y += ind + "- path: " + r + "\n";
        if (closed.count(r)) y += ind + "  writable: false\n";
        if (hidden.count(r)) y += ind + "  visit: false\n";
    }
    return y;
}
static std::string layoutYaml(const Layout& l, const std::set<std::string>& closed, const std::set<std::string>& hidden) {
    std::string y = "---\n";
    if (l.kind < 3) {
        y += "type: local\nengine: toc\nschema: /sim/etc/schema\nspaces:\n";
        for (auto& p : l.parts) {
            y += "- handler: " + p.handler + "\n";
            if (p.sel.size()) y += "  regex: \"" + p.sel + "\"\n";
            y += "  roots:\n" + yamlRoots(p, closed, hidden, "  ");
        }
        return y;
    }
    y += "type: select\nschema: /sim/etc/schema\nfdbs:\n";
    for (auto& p : l.parts) {
        y += "- type: local\n  engine: toc\n";
        if (p.sel.size()) y += "  select: " + p.sel + "\n";
        if (p.ex.size()) y += "  excludes:\n  - " + p.ex + "\n";
        y += "  spaces:\n  - handler: " + p.handler + "\n    roots:\n" + yamlRoots(p, closed, hidden, "    ");
    }
    return y;
}
static std::string kv(int k, const char* kw) { return keyword(k, kw); }
static Sel partialSel(int k) {
    static const char* DBK[] = {"class", "expver", "stream", "date", "time", "type", "levtype", "step"};
    Sel s;
    for (auto n : DBK) if (oneIn(3)) s.v[n].insert(kv(k, n));
    if (oneIn(4)) s.v["class"] = {"od", "rd"};
    if (s.v.empty()) s.v["class"].insert(kv(k, "class"));
    return s;
}
static void c16() {
    begin("C16");
    Rng& r = W->rwork;
    static const char* H[] = {"Default", "First", "LeastUsed", "LeastUsedPercent", "RoundRobin", "Random", "WeightedRandom", "WeightedRandomPercent"};
    Layout lay;
    lay.kind = r.below(6);
    auto add = [&](const std::string& sel, const std::string& ex, std::function<bool(int)> takes) {
        Part p;
        p.sel = sel;
        p.ex = ex;
        p.handler = H[oneIn(2) ? 0 : r.below(8)];
        p.takes = takes;
        int n = 1 + r.below(3);
        for (int i = 0; i < n; i++) {
            p.roots.push_back("/sim/p" + std::to_string(lay.parts.size()) + "root" + std::to_string(i));
            fs_mkdirs(p.roots.back().c_str());
        }
        lay.parts.push_back(p);
    };
    auto od = [](int k) { return kv(k, "class") == "od"; };
    auto rd = [](int k) { return kv(k, "class") == "rd"; };
    auto e1 = [](int k) { return kv(k, "expver") == "0001"; };
    auto any = [](int) { return true; };
    if (lay.kind >= 3 && oneIn(3)) add("class=(od|rd),number=.*", "", [](int) { return false; });   // no key has a number
    switch (lay.kind) {
        case 0: add("", "", any); break;
        case 1: add("^od:", "", od); add(oneIn(2) ? "" : "^rd:", "", any); break;
        case 2: add("^od:0001:", "", [=](int k) { return od(k) && e1(k); }); add("^od:", "", od); add(".*", "", any); break;
        case 3: add("class=od", "", od); add(oneIn(2) ? "class=.*" : "class=rd", "", any); break;
        case 4: add("class=od,expver=0001", "", [=](int k) { return od(k) && e1(k); }); add("class=rd,expver=0001", "", [=](int k) { return rd(k) && e1(k); }); add("class=(od|rd)", "", any); break;
        default: add("class=od", "class=od,expver=0001", [=](int k) { return od(k) && !e1(k); }); add("expver=0001", "", e1); add("class=.*", "", any); break;
    }
    auto partOf = [&](int k) { for (size_t i = 0; i < lay.parts.size(); i++) if (lay.parts[i].takes(k)) return int(i); return -1; };
    bool sized = false;
    for (auto& p : lay.parts) for (auto& x : p.roots) (*W->freeBytes)[SS(x)] = 4096ull * (1000 + r.below(1000000));
    (void)sized;
    std::vector<std::string> all;
    for (auto& p : lay.parts) for (auto& x : p.roots) {
        all.push_back(x);
        defineConfig("only" + x.substr(5), localYaml({x}));
    }
    defineConfig("main", layoutYaml(lay, {}, {}));
    randomKnobs();
    W->trackDur = oneIn(5);
    fs_sync_all();
    auto keys = pickKeys(2 + r.below(5), 1 + r.below(2), 1 + r.below(3));
    std::set<int> dbs;
    for (int k : keys) dbs.insert(dbOf(k));
    std::map<int, std::string> where;    // root of each existing database
    std::set<std::string> closed;
    auto owned = [&] { std::set<int> s; for (auto& e : where) s.insert(e.first); return s; };
    auto look = [&](const std::set<int>& raced, bool lost = false) {
        for (int d : dbs) {
            std::vector<std::string> at;
            std::string t;
            for (auto& x : all) if (fs_get(dbDir(x, d) + "/toc", t)) at.push_back(x);
            // a power loss may take a database without a flushed field; verifyAll() looks for the flushed ones
            if (at.empty()) { if (where.count(d) && !lost) bad("a database disappeared", std::to_string(d)); where.erase(d); continue; }
            int p = partOf(mkKey(d, 0, 0));
            auto& rs = lay.parts[p].roots;
            for (auto& x : at) if (std::find(rs.begin(), rs.end(), x) == rs.end()) bad("a database was created outside the part its key selects", dbDir(x, d));
            if (at.size() > 1) {
                if (raced.count(d)) bad("two processes creating a database at once put it in two roots", dbDir(at[0], d) + " and " + at[1]);
                bad("a database exists in two roots", dbDir(at[0], d) + " and " + at[1]);
            }
            if (where.count(d) && where[d] != at[0]) bad("a database changed its root", dbDir(at[0], d));
            if (!where.count(d)) {
                if (closed.count(at[0])) bad("a database was created in a root closed to writing", dbDir(at[0], d));
                std::vector<std::string> open;
                for (auto& x : rs) if (!closed.count(x)) open.push_back(x);
                auto& h = lay.parts[p].handler;
                if ((h == "Default" || h == "First") && open.size() && at[0] != open[0]) bad("a database was not created in the first open root", dbDir(at[0], d));
                if (h == "LeastUsed")
                    for (auto& x : open) if ((*W->freeBytes)[SS(x)] > (*W->freeBytes)[SS(at[0])]) bad("a database was not created in the least used root", dbDir(at[0], d) + ", not " + x);
                count("placed");
            }
            where[d] = at[0];
        }
    };
    int role = 1, rounds = 2 + r.below(3);
    for (int round = 0; round < rounds; round++) {
        // the configuration changes between rounds
        closed.clear();
        if (round && oneIn(2)) for (auto& p : lay.parts) for (auto& x : p.roots) if (oneIn(4)) closed.insert(x);
        if (round && oneIn(2)) {
            for (auto& p : lay.parts) for (size_t i = p.roots.size(); i > 1; i--) std::swap(p.roots[i - 1], p.roots[r.below(i)]);
            count("reordered");
        }
        if (closed.size()) count("closed_root");
        if (oneIn(2)) for (auto& x : all) (*W->freeBytes)[SS(x)] = 4096ull * (1000 + r.below(1000000));
        std::string cfg = "r" + std::to_string(round);
        defineConfig(cfg, layoutYaml(lay, closed, {}));
        // which databases can be written now
        std::vector<int> ok, refused;
        for (int k : keys) {
            int d = dbOf(k);
            if (where.count(d) ? !closed.count(where[d]) : [&] { for (auto& x : lay.parts[partOf(k)].roots) if (!closed.count(x)) return true; return false; }()) ok.push_back(k);
            else refused.push_back(k);
        }
        std::vector<int> ps;
        int nw = 1 + r.below(3);
        bool race = oneIn(40), full = !race && oneIn(6);
        std::set<int> raced;
        if (race) for (int k : ok) if (!where.count(dbOf(k))) raced.insert(dbOf(k));
        if (race && nw > 1) M().flags[SS("rootrace")] = 1;
        for (int w = 0; w < nw && ok.size(); w++) {
            std::vector<int> ks;
            if (race) ks = ok;
            else {   // one creator for each database
                for (int k : ok) if (where.count(dbOf(k)) || int(dbOf(k) % nw) == w) ks.push_back(k);
            }
            if (ks.empty()) continue;
            auto ops = writerOps(ks, 1 + r.below(6), 0.5, true);
            Actor a = writer("writer" + std::to_string(role), role, ops);
            a.cfg = cfg;
            role++;
            a.closeAtEnd = r.chance(0.9);
            if (full) {   // a full root
                if (oneIn(2)) ioFault(a.role, true);
                a.mayFail = a.mayDie = a.leakOnFail = true;
            }
            else if (oneIn(6)) addFault(FK_CRASH, a.role, oneIn(2) ? C_ALLFS : C_FSMUT, pickNth());
            else {
                sprinkle(a.ops, keys, 0.2);
                if (oneIn(3)) a.ops.insert(a.ops.begin() + r.below(a.ops.size() + 1), opSel(oneIn(2) ? A_LIST : A_LISTFULL, partialSel(keys[r.below(keys.size())])));
            }
            ps.push_back(startActor(a));
        }
        if (oneIn(2)) {
            Actor a = reader("reader" + std::to_string(round), 30 + round, keys, 1 + r.below(4));
            a.cfg = cfg;
            a.ops.push_back(opSel(oneIn(2) ? A_LIST : A_LISTFULL, partialSel(keys[r.below(keys.size())])));
            ps.push_back(startActor(a));
        }
        finishActors(ps);
        faultsOff();
        look(raced);
        M().flags.erase(SS("rootrace"));
        if (refused.size() && oneIn(2)) {
            // a database in a closed root takes no field, and none goes elsewhere
            int k = refused[r.below(refused.size())];
            Actor a;
            a.name = "refused";
            a.role = 70;
            a.cfg  = cfg;
            a.ops.push_back(opFn([k](FDB& f) {
                std::string b = "refused";
                bool threw = false;
                try { f.archive(keyOf(k), b.data(), b.size()); f.flush(); }
                catch (std::exception&) { threw = true; }
                if (!threw) bad("a field was accepted although the roots for it are closed to writing", keyStr(k));
                count("refused");
            }));
            runActor(a);
            look({});
        }
        if (W->trackDur && oneIn(3)) { power_loss(); W->powerLost = false; look({}, true); }
        verifyAll(cfg);
        // the parts and the whole
        Actor v;
        v.name = "checker";
        v.role = 80;
        v.cfg  = oneIn(2) ? cfg : "main";
        auto wh = where;
        auto everywhere = all;
        auto ask = keys[r.below(keys.size())];
        Sel ps2 = oneIn(3) ? Sel() : partialSel(ask);
        v.ops.push_back(opFn([wh, everywhere, ps2](FDB& f) {
            auto collect = [&](FDB& g, const Sel& s) {
                std::multiset<int> m;
                for (auto& l : locations(g, s, true)) m.insert(l.key);
                return m;
            };
            auto whole = collect(f, ps2);
            std::multiset<int> parts;
            for (auto& x : everywhere) {
                FDB g(config("only" + x.substr(5)));
                for (int k : collect(g, ps2)) {
                    parts.insert(k);
                    auto it = wh.find(dbOf(k));
                    if (it == wh.end() || it->second != x) bad("a field is in another root than its database", keyStr(k) + " in " + x);
                }
            }
            for (int k : whole) if (whole.count(k) != 1) bad("list over the whole configuration repeats a field", ps2.str() + " " + keyStr(k));
            for (int k : parts) if (!whole.count(k)) bad("list over the whole configuration misses a field of a part", ps2.str() + " " + keyStr(k));
            for (int k : whole) if (!parts.count(k)) bad("list over the whole configuration shows a field no part has", ps2.str() + " " + keyStr(k));
            count("union");
        }));
        for (int i = 0; i < 2; i++) v.ops.push_back(readOp(keys));
        runActor(v);
        // a root that is not visited
        if (oneIn(3) && where.size()) {
            std::set<std::string> hidden;
            for (auto& x : all) if (oneIn(2)) hidden.insert(x);
            std::string hc = "h" + std::to_string(round);
            defineConfig(hc, layoutYaml(lay, {}, hidden));
            Actor h;
            h.name = "hidden";
            h.role = 81;
            h.cfg  = hc;
            auto full = owned();
            h.ops.push_back(opFn([wh, hidden, ps2](FDB& f) {
                std::multiset<int> got, want;
                for (auto& l : locations(f, ps2, true)) got.insert(l.key);
                FDB g(config("main"));
                for (auto& l : locations(g, ps2, true)) {
                    auto it = wh.find(dbOf(l.key));
                    if (it != wh.end() && !hidden.count(it->second)) want.insert(l.key);
                }
                if (got != want) bad("a root closed to visits changes the list of other roots", ps2.str());
                count("unvisited");
            }));
            runActor(h);
        }
    }
    verifyAll("main");
}
static RegScenario r16("C16", c16, "lanes, file spaces and roots");

static RegScenario r20("C20", c20, "databases and processes with different schemas");

static RegScenario r19("C19", c19, "hide, overlay and reconsolidation");

}  // namespace sim
