// Runs seeded worlds: a zygote process is warmed up once, then every world is a fork of it, with its simulated
// processes forked in turn.  One seed (plus the lists of left-out operations and faults, plus optionally a fixed
// schedule) is one exactly repeatable execution.
#include "scen.h"
#include <malloc.h>
#include <sched.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>
#include <execinfo.h>
#include <exception>
#include <fstream>
#include <iostream>
#include <sstream>
#include "eckit/exception/Exceptions.h"
#include "eckit/log/Log.h"
#include "eckit/log/LogTarget.h"
#include "eckit/runtime/Main.h"

namespace sim {
RunOpts opts;
std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

[[noreturn]] void violation(const std::string& prop, const std::string& sig, const std::string& details) {
    *W->vprop = SS(prop);
    world_end(2, sig + " | " + details);
}
void count(const std::string& name, uint64_t n) { (*W->counters)[SS(name)] += n; }
void state(uint64_t h) { if (W->states->size() < 4096) W->states->insert(h); }
void warmup();
}
using namespace sim;

// what the code under test writes to its error log, for scenarios that look at it
namespace sim { std::string errorLog; void (*dropMain)() = nullptr; }
struct KeepTarget : eckit::LogTarget {
    void write(const char* a, const char* b) override {
        if (!self) return;
        if (errorLog.size() < 20000) errorLog.append(a, b - a);
        if (opts.trace) { ssize_t r = ::write(2, a, b - a); (void)r; }
    }
    void flush() override {}
};
struct SimMain : eckit::Main {
    SimMain(int c, char** v) : eckit::Main(c, v) {}
    eckit::LogTarget* createErrorLogTarget() const override { return new KeepTarget; }
};

static void onTerminate() {
    if (self) {
        std::string t = "terminate";
        if (auto e = std::current_exception()) {
            try { std::rethrow_exception(e); }
            catch (std::exception& x) { t = std::string("terminate: ") + x.what(); }
            catch (...) { t = "terminate: unknown exception"; }
        }
        if (curproc()->note.empty()) curproc()->note = SS(t);
    }
    abort();
}
static void onSignal(int sig, siginfo_t* si, void*) {
    if (!self) { signal(sig, SIG_DFL); raise(sig); return; }
    if (W->trace) {
        void* a[60];
        int n = backtrace(a, 60);
        backtrace_symbols_fd(a, n, 2);
    }
    Proc* p = curproc();
    if (p->note.empty()) {
        char b[64];
        snprintf(b, sizeof b, "signal %d", sig);
        p->note = b;
    }
    if (p->role == -1) world_end(3, "driver died: " + S(p->note));
    proc_exit(0, sig);
}

static void onShow(int) {
    void* a[60];
    int n = backtrace(a, 60);
    char b[64];
    int m = snprintf(b, sizeof b, "STACK t%d\n", self ? self->id : -1);
    ssize_t x = write(2, b, m);
    (void)x;
    backtrace_symbols_fd(a, n, 2);
}
static pid_t worldPid = 0;
static volatile bool timedOut = false;
static void onAlarm(int) { timedOut = true; if (worldPid > 0) kill(-worldPid, SIGKILL); }

static double mono() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string jesc(const std::string& s) {
    std::string o;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

void heap_install();

[[noreturn]] static void worldMain(const Scenario& sc, uint64_t seed) {
    heap_install();
    setpgid(0, 0);
    signal(SIGCHLD, SIG_IGN);
    signal(SIGALRM, SIG_DFL);
    if (!opts.trace) {
        int n = ::open("/dev/null", O_RDWR);
        dup2(n, 1);
        dup2(n, 2);
    }
    world_init(seed);
    W->trace = opts.trace;
    Proc* d = new_proc("driver", -1, -1);
    d->real = getpid();
    self = &W->tasks[new_task(0)];
    W->current = 0;
    interpose_install();
    if (opts.scripted) for (auto& e : opts.script) (*W->script)[e.first] = e.second;
    try { sc.fn(); }
    catch (std::exception& e) { world_end(3, std::string("driver exception: ") + e.what()); }
    world_end(1, "ok");
}

static bool runWorld(const Scenario& sc, uint64_t seed, double limit) {
    madvise((void*)ARENA_BASE, ARENA_SIZE, MADV_REMOVE);
    W = (World*)ARENA_BASE;
    timedOut = false;
    pid_t p = fork();
    if (p == 0) worldMain(sc, seed);
    setpgid(p, p);
    worldPid = p;
    struct itimerval it = {{0, 0}, {time_t(limit), 0}};
    setitimer(ITIMER_REAL, &it, nullptr);
    for (;;) {
        int st;
        pid_t r = waitpid(-1, &st, 0);
        if (r < 0 && errno == ECHILD) break;
        if (r == p && !W->ended) { kill(-p, SIGKILL); }
    }
    struct itimerval z = {};
    setitimer(ITIMER_REAL, &z, nullptr);
    worldPid = 0;
    W = (World*)ARENA_BASE;
    return W->ended && !timedOut;
}

struct Result { int verdict; std::string prop, msg; };
static Result result(bool ok) {
    Result r;
    if (!ok) { r.verdict = 3; r.msg = timedOut ? "real-time limit" : "world died"; return r; }
    r.verdict = W->verdict;
    r.msg = S(*W->message);
    r.prop = S(*W->vprop);
    return r;
}

static std::string resultJson(const Result& r, uint64_t seed, bool full) {
    std::ostringstream o;
    char h[40];
    o << "{\"seed\":" << seed << ",\"verdict\":" << r.verdict << ",\"prop\":\"" << jesc(r.prop) << "\",\"msg\":\"" << jesc(r.msg) << "\"";
    if (r.verdict != 3 || W->ended) {
        snprintf(h, sizeof h, "%016lx", W->traceHash);
        o << ",\"hash\":\"" << h << "\",\"steps\":" << W->steps << ",\"clock_us\":" << W->clock << ",\"nswitches\":" << W->nswitches;
        o << ",\"faults\":[";
        bool first = true;
        int i = 0;
        for (auto& f : *W->faults) {
            o << (first ? "" : ",") << "{\"i\":" << i << ",\"kind\":\"" << faultName[f.kind] << "\",\"role\":" << f.role << ",\"class\":\"" << clsName[f.cls]
              << "\",\"nth\":" << f.nth << ",\"arg\":" << f.arg << ",\"fired\":" << f.fired << ",\"at\":" << f.at << "}";
            first = false;
            i++;
        }
        o << "]";
        auto it = W->counters->find(sstr("ops"));
        o << ",\"ops\":" << (it == W->counters->end() ? 0 : it->second);
        if (full) {
            o << ",\"switches\":[";
            first = true;
            for (auto& s : *W->switches) { o << (first ? "" : ",") << "[" << s.first << "," << s.second << "]"; first = false; }
            o << "]";
        }
    }
    o << "}";
    return o.str();
}

static int usage() {
    fprintf(stderr, "sim.bin run SCEN seed0 stride seconds maxruns out [cpu]\nsim.bin one SCEN seed [--trace] [--skip-ops a,b] [--skip-faults a,b] [--script file]\nsim.bin list\n");
    return 64;
}
static std::set<int> ints(const std::string& s) {
    std::set<int> r;
    std::stringstream ss(s);
    std::string t;
    while (std::getline(ss, t, ',')) if (!t.empty()) r.insert(atoi(t.c_str()));
    return r;
}

int main(int argc, char** argv) {
    if (!(personality(0xffffffff) & ADDR_NO_RANDOMIZE)) {
        if (personality(personality(0xffffffff) | ADDR_NO_RANDOMIZE) == -1) { perror("personality"); return 3; }
        setenv("LC_ALL", "C", 1);
        execv("/proc/self/exe", argv);
    }
    mallopt(M_ARENA_MAX, 1);
    mallopt(M_MMAP_THRESHOLD, 1 << 30);
    mallopt(M_TRIM_THRESHOLD, 1 << 30);
    for (const char* v : {"FDB_HOME", "FDB5_CONFIG", "FDB5_CONFIG_FILE", "FDB_CONFIG", "FDB_CONFIG_FILE", "DEBUG", "FDB_DEBUG"}) unsetenv(v);
    std::vector<std::string> a(argv + 1, argv + argc);
    if (a.empty()) return usage();
    if (a[0] == "list") {
        for (auto& s : scenarios()) printf("%s\t%s\n", s.id, s.what);
        return 0;
    }
    if (a.size() < 3) return usage();
    const Scenario* sc = nullptr;
    std::string name = a[1];
    size_t colon = name.find(':');
    if (colon != std::string::npos) { opts.variant = name.substr(colon + 1); name = name.substr(0, colon); }
    for (auto& s : scenarios()) if (name == s.id) sc = &s;
    if (!sc) { fprintf(stderr, "unknown scenario %s\n", name.c_str()); return 64; }
    if (mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void*)ARENA_BASE) {
        perror("arena");
        return 3;
    }
    prctl(PR_SET_CHILD_SUBREAPER, 1);
    signal(SIGPIPE, SIG_IGN);
    struct sigaction sa = {};
    sa.sa_handler = onAlarm;
    sigaction(SIGALRM, &sa, nullptr);
    signal(SIGUSR2, onShow);
    static char alt[1 << 16];
    stack_t ss = {alt, 0, sizeof alt};
    sigaltstack(&ss, nullptr);
    for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL}) {
        struct sigaction x = {};
        x.sa_sigaction = onSignal;
        x.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
        sigaction(s, &x, nullptr);
    }
    {
        static char n0[] = "sim";
        static char* av[] = {n0, nullptr};
        static SimMain* m = new SimMain(1, av);
        dropMain = [] { delete m; };
    }
    std::set_terminate(onTerminate);
    if (getenv("SIM_TRACE")) opts.trace = true;
    const char* th = getenv("SIM_TIER");
    opts.thorough = th && !strcmp(th, "thorough");
    { void* x[4]; backtrace(x, 4); }
    warmup();

    if (a[0] == "one") {
        uint64_t seed = strtoull(a[2].c_str(), nullptr, 0);
        bool full = false;
        double limit = 120;
        for (size_t i = 3; i < a.size(); i++) {
            if (a[i] == "--trace") opts.trace = true;
            else if (a[i] == "--full") full = true;
            else if (a[i] == "--limit" && i + 1 < a.size()) limit = atof(a[++i].c_str());
            else if (a[i] == "--skip-ops" && i + 1 < a.size()) opts.skipOps = ints(a[++i]);
            else if (a[i] == "--skip-faults" && i + 1 < a.size()) opts.skipFaults = ints(a[++i]);
            else if (a[i] == "--script" && i + 1 < a.size()) {
                opts.scripted = true;
                std::ifstream f(a[++i]);
                uint64_t s; int t;
                while (f >> s >> t) opts.script[s] = t;
            }
        }
        bool ok = runWorld(*sc, seed, limit);
        Result r = result(ok);
        printf("%s\n", resultJson(r, seed, full).c_str());
        return 0;
    }
    if (a[0] == "server") {
        // one request per line: seed skipOps skipFaults script(file or -)
        std::string line;
        while (std::getline(std::cin, line)) {
            std::stringstream ls(line);
            std::string seed, so, sf, scr;
            ls >> seed >> so >> sf >> scr;
            opts.skipOps = so == "-" ? std::set<int>() : ints(so);
            opts.skipFaults = sf == "-" ? std::set<int>() : ints(sf);
            opts.script.clear();
            opts.scripted = scr != "-";
            if (opts.scripted) {
                std::ifstream f(scr);
                uint64_t s; int t;
                while (f >> s >> t) opts.script[s] = t;
            }
            uint64_t sd = strtoull(seed.c_str(), nullptr, 0);
            bool ok = runWorld(*sc, sd, 120);
            Result r = result(ok);
            printf("%s\n", resultJson(r, sd, true).c_str());
            fflush(stdout);
        }
        return 0;
    }
    if (a[0] != "run" || a.size() < 7) return usage();
    uint64_t seed = strtoull(a[2].c_str(), nullptr, 0), stride = strtoull(a[3].c_str(), nullptr, 0);
    double secs = atof(a[4].c_str());
    uint64_t maxRuns = strtoull(a[5].c_str(), nullptr, 0);
    if (a.size() > 7) {
        cpu_set_t cs;
        CPU_ZERO(&cs);
        CPU_SET(atoi(a[7].c_str()), &cs);
        sched_setaffinity(0, sizeof cs, &cs);
    }
    FILE* out = fopen(a[6].c_str(), "w");
    if (!out) return 3;
    double t0 = mono();
    uint64_t runs = 0, ok = 0, viol = 0, err = 0, rej = 0, steps = 0, clockUs = 0, switches = 0, nontrivial = 0, procs = 0, killedRuns = 0;
    std::map<std::string, uint64_t> faults, ops, counters;
    std::set<uint64_t> states, scheds, traces;
    double maxRun = 0;
    std::map<std::string, int> sigs;
    while (runs < maxRuns && mono() - t0 < secs) {
        double r0 = mono();
        bool fin = runWorld(*sc, seed, 60);
        maxRun = std::max(maxRun, mono() - r0);
        Result r = result(fin);
        runs++;
        if (fin) {
            steps += W->steps;
            clockUs += W->clock;
            switches += W->nswitches;
            procs += W->nprocsStarted;
            bool anyF = false;
            for (int k = 0; k < FK_NKINDS; k++) if (W->faultCount[k]) { faults[faultName[k]] += W->faultCount[k]; anyF = true; }
            for (int k = 0; k < OP_NOPS; k++) if (W->opCount[k]) ops[opName[k]] += W->opCount[k];
            for (auto& e : *W->counters) counters[S(e.first)] += e.second;
            for (auto s : *W->states) states.insert(s);
            bool isNew = scheds.insert(W->schedHash).second;
            traces.insert(W->traceHash);
            if (isNew && (anyF || W->switches->size() > 3)) nontrivial++;
        }
        if (r.verdict == 1) ok++;
        else if (r.verdict == 4) rej++;
        else {
            if (r.verdict == 2) viol++; else err++;
            std::string sig = std::to_string(r.verdict) + r.msg.substr(0, r.msg.find(" | "));
            if (sigs[sig]++ < 3) { fprintf(out, "%s\n", resultJson(r, seed, false).c_str()); fflush(out); }
        }
        seed += stride;
    }
    fprintf(out, "{\"summary\":1,\"runs\":%lu,\"ok\":%lu,\"violations\":%lu,\"errors\":%lu,\"rejected\":%lu,\"steps\":%lu,\"sim_us\":%lu,\"switches\":%lu,\"nontrivial\":%lu,\"procs\":%lu,\"wall\":%.3f,\"max_run\":%.3f",
            runs, ok, viol, err, rej, steps, clockUs, switches, nontrivial, procs, mono() - t0, maxRun);
    auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) {
        fprintf(out, ",\"%s\":{", n);
        bool f = true;
        for (auto& e : m) { fprintf(out, "%s\"%s\":%lu", f ? "" : ",", jesc(e.first).c_str(), e.second); f = false; }
        fprintf(out, "}");
    };
    mp("faults", faults); mp("ops", ops); mp("counters", counters);
    auto st = [&](const char* n, std::set<uint64_t>& m) {
        fprintf(out, ",\"%s\":[", n);
        bool f = true;
        size_t k = 0;
        for (auto e : m) { fprintf(out, "%s\"%lx\"", f ? "" : ",", e); f = false; if (++k > 200000) break; }
        fprintf(out, "]");
    };
    st("states", states); st("scheds", scheds); st("traces", traces);
    fprintf(out, "}\n");
    fclose(out);
    return 0;
}
