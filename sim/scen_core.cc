// Scenarios about the local TOC back end: durability, storage errors, readers and writers
#include "lib.h"
using namespace fdb5;
namespace sim {

static void stdRoot() { defineConfig("main", localYaml({"/sim/root"})); }

// ---- C01: flushed fields survive crashes of the writer and power loss
static void c01() {
    begin("C01");
    stdRoot();
    randomKnobs();
    W->trackDur = true;
    fs_sync_all();
    Rng& r = W->rwork;
    auto keys = pickKeys(1 + r.below(2), 1 + r.below(2), 1 + r.below(4));
    int phases = 1 + r.below(3);
    for (int p = 0; p < phases; p++) {
        int nw = oneIn(4) ? 2 : 1;
        std::vector<Actor> as;
        for (int w = 0; w < nw; w++) {
            Actor a;
            a.name = "writer" + std::to_string(p) + "_" + std::to_string(w);
            a.role = p * 4 + w;
            a.ops  = writerOps(keys, 1 + r.below(6), 0.4, r.chance(0.8));
            a.closeAtEnd = r.chance(0.7);
            as.push_back(a);
        }
        W->faults->clear();
        W->noSpcLeft = 0;
        if (r.chance(0.85)) {
            FaultKind k = r.chance(0.5) ? FK_POWER : FK_CRASH;
            Cls c = W->rfault.chance(0.5) ? C_FSMUT : C_ALLFS;
            if (W->rfault.chance(0.15)) c = C_SYNC;
            addFault(k, as[W->rfault.below(nw)].role, c, c == C_SYNC ? 1 + W->rfault.below(12) : pickNth());
        }
        W->faultsOn = true;
        std::vector<int> ps;
        for (auto& a : as) ps.push_back(startActor(a));
        finishActors(ps);
        W->faultsOn = false;
        if (p + 1 == phases && oneIn(2) && !W->powerLost) power_loss();
        verifyAll();
        W->powerLost = false;
    }
}
static RegScenario r01("C01", c01, "writers killed and machine losing power");


static Actor writer(const std::string& name, int role, std::vector<OpSpec> ops) {
    Actor a;
    a.name = name;
    a.role = role;
    a.ops  = std::move(ops);
    return a;
}

// ---- C02: failing storage operations of writers and readers
static void c02() {
    begin("C02");
    stdRoot();
    randomKnobs(true, false);
    Rng& r = W->rwork;
    bool power = oneIn(3);   // ends with a loss of power: what a successful flush reported is on disk
    if (power) { W->trackDur = true; W->syncDrops = oneIn(2); fs_sync_all(); }
    bool leak = W->syncDrops && !oneIn(8);
    auto keys = pickKeys(1 + r.below(2), 1 + r.below(2), 1 + r.below(4));
    if (oneIn(2)) runActor(writer("first", 1, writerOps(keys, 1 + r.below(4), 0.4, true)));
    int phases = 1 + r.below(2);
    for (int p = 0; p < phases; p++) {
        W->faults->clear();
        W->noSpcLeft = 0;
        std::vector<int> ps;
        bool wf = r.chance(0.75);
        int nw = oneIn(4) ? 2 : 1, nr = wf && !oneIn(3) ? 0 : 1;
        std::vector<Actor> as;
        for (int i = 0; i < nw; i++) {
            Actor a = writer("writer" + std::to_string(p) + "_" + std::to_string(i), p * 4 + i + 2, writerOps(keys, 1 + r.below(6), 0.4, r.chance(0.8)));
            if (oneIn(4)) sprinkle(a.ops, keys, 0.3);
            a.mayFail = a.mayDie = wf;
            a.retryFlush = oneIn(3);
            a.leakOnFail = leak;
            as.push_back(a);
        }
        for (int i = 0; i < nr; i++) {
            Actor a;
            a.name = "reader" + std::to_string(p);
            a.role = p * 4 + 20;
            a.mayFail = a.mayDie = true;
            for (int j = 1 + r.below(4); j > 0; j--) a.ops.push_back(readOp(keys));
            as.push_back(a);
        }
        if (wf) for (int j = 1 + W->rfault.below(2); j > 0; j--) ioFault(as[0].role, true);
        if (nr) for (int j = 1 + W->rfault.below(2); j > 0; j--) ioFault(as.back().role, false);
        W->faultsOn = true;
        for (auto& a : as) ps.push_back(startActor(a));
        finishActors(ps);
        W->faultsOn = false;
        if (power && p + 1 == phases) power_loss();
        verifyAll();
        W->powerLost = false;
    }
}
static RegScenario r02("C02", c02, "storage operations of writers and readers fail");

// ---- C03: readers beside writers
static void c03() {
    begin("C03");
    stdRoot();
    randomKnobs();
    Rng& r = W->rwork;
    auto keys = pickKeys(1 + r.below(2), 1 + r.below(2), 1 + r.below(4));
    if (oneIn(2)) runActor(writer("first", 1, writerOps(keys, 1 + r.below(4), 0.4, true)));
    int nw = 1 + r.below(2), nr = 1 + r.below(2);
    std::vector<Actor> as;
    for (int i = 0; i < nw; i++) {
        Actor a = writer("writer" + std::to_string(i), 2 + i, writerOps(keys, 1 + r.below(5), 0.4, r.chance(0.8)));
        a.closeAtEnd = r.chance(0.8);
        as.push_back(a);
    }
    for (int i = 0; i < nr; i++) {
        Actor a;
        a.name = "reader" + std::to_string(i);
        a.role = 20 + i;
        for (int j = 1 + r.below(6); j > 0; j--) { a.ops.push_back(readOp(keys)); if (oneIn(5)) a.ops.push_back(op(A_REOPEN)); }
        as.push_back(a);
    }
    (*W->counters)[SS("ops")] = M().nextGid;
    if (oneIn(3)) addFault(FK_CRASH, 2 + W->rfault.below(nw), C_ALLFS, pickNth());
    if (oneIn(5)) addFault(FK_STALL, 20, C_ALLFS, pickNth(), 1000000);
    if (oneIn(5)) addFault(FK_STALL, 2, C_ALLFS, pickNth(), 1000000);
    if (oneIn(5)) addFault(FK_CLOCK, -1, C_ALLFS, pickNth(), W->rfault.range(-100000, 100000));
    std::vector<int> ps;
    for (auto& a : as) ps.push_back(startActor(a));
    finishActors(ps);
    W->faultsOn = false;
    verifyAll();
}
static RegScenario r03("C03", c03, "readers beside writers");

// ---- C04: several writers
static void c04() {
    begin("C04");
    stdRoot();
    randomKnobs();
    Rng& r = W->rwork;
    auto keys = pickKeys(1 + r.below(3), 1 + r.below(2), 1 + r.below(3));
    int phases = 1 + r.below(2);
    for (int p = 0; p < phases; p++) {
        W->faults->clear();
        W->noSpcLeft = 0;
        int nw = 2 + r.below(3);
        std::vector<int> ps;
        std::vector<Actor> as;
        for (int i = 0; i < nw; i++) {
            Actor a = writer("writer" + std::to_string(p) + "_" + std::to_string(i), p * 5 + i, writerOps(keys, 1 + r.below(4), 0.4, r.chance(0.85)));
            a.closeAtEnd = r.chance(0.8);
            as.push_back(a);
        }
        if (oneIn(3)) addFault(FK_CRASH, p * 5 + W->rfault.below(nw), C_ALLFS, pickNth());
        if (oneIn(5)) addFault(FK_STALL, p * 5, C_ALLFS, pickNth(), 1000000);
        if (oneIn(6)) addFault(FK_CLOCK, -1, C_ALLFS, pickNth(), W->rfault.range(-100000, 100000));
        for (auto& a : as) ps.push_back(startActor(a));
        finishActors(ps);
        W->faultsOn = false;
        verifyAll();
    }
}
static RegScenario r04("C04", c04, "several writers of the same databases");

// ---- C05: newest version wins
static void c05() {
    begin("C05");
    stdRoot();
    randomKnobs();
    Rng& r = W->rwork;
    auto keys = pickKeys(1 + (oneIn(4) ? 1 : 0), 1 + r.below(2), 1 + r.below(2));
    int rounds = 2 + r.below(4);
    for (int p = 0; p < rounds; p++) {
        W->faults->clear();
        W->noSpcLeft = 0;
        int nw = oneIn(3) ? 2 : 1;
        std::vector<int> ps;
        std::vector<Actor> as;
        for (int i = 0; i < nw; i++) {
            Actor a = writer("writer" + std::to_string(p) + "_" + std::to_string(i), p * 3 + i, writerOps(keys, 2 + r.below(5), 0.5, r.chance(0.9)));
            if (oneIn(3)) sprinkle(a.ops, keys, 0.3);
            a.closeAtEnd = r.chance(0.8);
            as.push_back(a);
        }
        if (oneIn(6)) addFault(FK_CRASH, p * 3 + W->rfault.below(nw), C_ALLFS, pickNth());
        if (oneIn(4)) addFault(FK_CLOCK, -1, C_ALLFS, pickNth(), W->rfault.range(-100000, 100000));
        if (oneIn(2)) {
            Actor a;
            a.name = "reader" + std::to_string(p);
            a.role = 40 + p;
            for (int j = 1 + r.below(4); j > 0; j--) a.ops.push_back(readOp(keys));
            as.push_back(a);
        }
        for (auto& a : as) ps.push_back(startActor(a));
        finishActors(ps);
        W->faultsOn = false;
        if (oneIn(2) || p + 1 == rounds) verifyAll();
    }
}
static RegScenario r05("C05", c05, "repeated versions of few keys");

// ---- C07: sub-tocs
static void c07() {
    begin("C07");
    stdRoot();
    randomKnobs();
    Rng& r = W->rwork;
    M().fullExact = false;  // consolidated and sub-toc indexes may both be shown in a full list
    W->trackDur = true;
    fs_sync_all();
    auto keys = pickKeys(1 + (oneIn(4) ? 1 : 0), 1 + r.below(2), 1 + r.below(3));
    int phases = 1 + r.below(3);
    for (int p = 0; p < phases; p++) {
        W->faults->clear();
        W->noSpcLeft = 0;
        int nw = 1 + r.below(3);
        std::vector<int> ps;
        std::vector<Actor> as;
        for (int i = 0; i < nw; i++) {
            Actor a = writer("writer" + std::to_string(p) + "_" + std::to_string(i), p * 3 + i, writerOps(keys, 1 + r.below(5), 0.45, r.chance(0.85)));
            if (oneIn(4)) sprinkle(a.ops, keys, 0.2);
            a.closeAtEnd = r.chance(0.85);
            a.subToc     = r.chance(0.8);
            as.push_back(a);
        }
        int f = r.below(5);
        if (f < 2) addFault(FK_CRASH, p * 3 + W->rfault.below(nw), C_ALLFS, pickNth());
        else if (f == 2) addFault(FK_POWER, p * 3 + W->rfault.below(nw), C_FSMUT, pickNth());
        if (oneIn(2)) {
            Actor a;
            a.name = "reader" + std::to_string(p);
            a.role = 40 + p;
            a.subToc = oneIn(2);
            for (int j = 1 + r.below(4); j > 0; j--) a.ops.push_back(readOp(keys));
            as.push_back(a);
        }
        for (auto& a : as) ps.push_back(startActor(a));
        finishActors(ps);
        W->faultsOn = false;
        verifyAll("main", true, oneIn(2));
        W->powerLost = false;
    }
}
static RegScenario r07("C07", c07, "writers with sub-tocs");

// ---- C12: threads
static void c12() {
    begin("C12");
    stdRoot();
    randomKnobs();
    Rng& r = W->rwork;
    if (oneIn(2)) { static const int B[] = {20, 100, 500, 2000}; W->bbMean = B[r.below(4)]; }
    auto keys = pickKeys(1 + r.below(3), 1 + r.below(2), 1 + r.below(3));
    if (oneIn(2)) runActor(writer("first", 1, writerOps(keys, 1 + r.below(4), 0.4, true)));
    int np = oneIn(4) ? 2 : 1;
    std::vector<Actor> as;
    for (int p = 0; p < np; p++) {
        Actor a;
        a.name = "process" + std::to_string(p);
        a.role = 2 + p;
        a.shareFdb = oneIn(2);
        if (a.shareFdb) M().flags[SS("shared")] = 1;
        a.closeAtEnd = r.chance(0.9);
        for (int t = 2 + r.below(3); t > 0; t--) {
            std::vector<OpSpec> o;
            if (oneIn(3)) for (int j = 1 + r.below(4); j > 0; j--) o.push_back(readOp(keys));
            else {
                o = writerOps(keys, 1 + r.below(4), 0.4, r.chance(0.8));
                if (oneIn(3)) sprinkle(o, keys, 0.3);
            }
            a.threads.push_back(o);
        }
        as.push_back(a);
    }
    (*W->counters)[SS("ops")] = M().nextGid;
    if (oneIn(5)) addFault(FK_STALL, 2, C_ALLFS, pickNth(), 1000000);
    if (oneIn(6)) addFault(FK_CLOCK, -1, C_ALLFS, pickNth(), W->rfault.range(-100000, 100000));
    std::vector<int> ps;
    for (auto& a : as) ps.push_back(startActor(a));
    finishActors(ps);
    W->faultsOn = false;
    W->bbMean = 0;
    verifyAll();
}
static RegScenario r12("C12", c12, "threads of one process");

}  // namespace sim
