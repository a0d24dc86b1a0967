#include "kernel.h"
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <sys/mman.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <algorithm>

namespace sim {

World* W = nullptr;
__thread Task* self = nullptr;
void (*onResume)() = nullptr;
char NETKEY;
bool forking = false;  // inside fork(): no preemption

const char* opName[] = {"none", "open", "create", "read", "write", "sync", "trunc", "close", "stat", "readdir", "mkdir", "rmdir",
                        "unlink", "rename", "chmod", "misc", "connect", "accept", "send", "recv", "netmisc", "lock", "unlock",
                        "cond", "thread", "sleep", "fork", "wait", "bb", "exit", "mark"};
const char* faultName[] = {"crash", "power", "ioerr", "short", "eintr", "nospc", "reset", "stall", "clock", "partition", "nomem"};
const char* clsName[] = {"any", "fs", "fsmut", "write", "sync", "read", "meta", "openw", "openr", "net", "send", "recv", "connect", "unlink", "allfs"};

// raw system calls, so that our own interposed wrappers are never used in here
static long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8")   = e;
    register long r9 __asm__("r9")   = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
}

// ------------------------------------------------------------------ arena
static int sizeClass(size_t n) {
    int c = 4;
    while ((size_t(1) << c) < n) c++;
    return c;
}
void* sh_alloc(size_t n) {
    int c = sizeClass(n ? n : 1);
    if (c < 40 && W->freel[c]) {
        void* p    = W->freel[c];
        W->freel[c] = *static_cast<void**>(p);
        return p;
    }
    size_t sz = size_t(1) << c;
    if (W->bump + sz > W->top) world_end(3, "simulator arena exhausted");
    void* p = W->bump;
    W->bump += sz;
    return p;
}
void sh_free(void* p, size_t n) {
    if (!p) return;
    int c                    = sizeClass(n ? n : 1);
    *static_cast<void**>(p) = W->freel[c];
    W->freel[c]             = p;
}

static Inode* newInode(IType t, uint32_t mode);

void world_init(uint64_t seed) {
    W       = reinterpret_cast<World*>(ARENA_BASE);
    W->bump = reinterpret_cast<char*>(ARENA_BASE) + ((sizeof(World) + 4095) & ~size_t(4095));
    W->top  = reinterpret_cast<char*>(ARENA_BASE) + ARENA_SIZE;
    W->seed = seed;
    W->rsched.seed(seed, 1);
    W->rfault.seed(seed, 2);
    W->rnet.seed(seed, 3);
    W->rwork.seed(seed, 4);
    W->rmisc.seed(seed, 5);
    W->rclock.seed(seed, 6);
    W->maxSteps     = 3000000;
    W->procs        = sh_new<svec<Proc*>>();
    W->changePoints = sh_new<svec<uint64_t>>();
    W->script       = sh_new<smap<uint64_t, int>>();
    W->switches     = sh_new<svec<std::pair<uint64_t, int>>>();
    W->faults       = sh_new<svec<Fault>>();
    W->journal      = sh_new<svec<Meta>>();
    W->inodes       = sh_new<svec<Inode*>>();
    W->escapes      = sh_new<svec<sstr>>();
    W->homeOf       = sh_new<smap<sstr, int>>();
    W->freeBytes    = sh_new<smap<sstr, uint64_t>>();
    W->socks        = sh_new<svec<Sock*>>();
    W->ports        = sh_new<smap<int, Sock*>>();
    W->message      = sh_new<sstr>();
    W->vprop        = sh_new<sstr>();
    W->log          = sh_new<svec<Event>>();
    W->stats        = sh_new<svec<sstr>>();
    W->counters     = sh_new<smap<sstr, uint64_t>>();
    W->states       = sh_new<sset<uint64_t>>();
    W->nextPort     = 40000;
    W->nextSock     = 1;
    W->latMin       = 20;
    W->latMax       = 300;
    W->sockBuf      = 65536;
    W->policy       = POL_RANDOM;
    W->pswitch      = 0.1;
    W->nextIno      = 2;
    W->prioLow      = 1u << 20;
    W->clock        = 1000000;
    W->traceHash    = 1469598103934665603ULL;
    W->schedHash    = 1469598103934665603ULL;
    W->root         = newInode(I_DIR, 0755);
    W->root->nlink  = 1;
    W->root->parent = W->root;
    W->pgid         = rsys(SYS_getpid);
    W->recordSwitches = true;
}

int trace_fd() { return 2; }
void logf(const char* fmt, ...) {
    if (!W->trace && !W->keepLog) return;
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n >= int(sizeof b)) n = sizeof b - 1;
    if (W->trace) {
        char h[3000];
        int m = snprintf(h, sizeof h, "%7lu %9.6f P%d/%s t%d  %s\n", W->steps, double(W->clock) / 1e6, self ? self->proc : -1,
                         self ? proc(self->proc)->name.c_str() : "-", self ? self->id : -1, b);
        rsys(SYS_write, trace_fd(), long(h), m);
    }
    if (W->keepLog && W->log->size() < 20000) W->log->push_back(Event{W->steps, W->clock, sstr(b)});
}

static inline void fnv(uint64_t& h, uint64_t v) {
    h ^= v;
    h *= 1099511628211ULL;
    h ^= h >> 29;
}
void mix(uint64_t v) { fnv(W->traceHash, v); }

uint64_t now() { return W->clock; }

// ------------------------------------------------------------------ token passing
static void futexWait(volatile uint32_t* f) { rsys(SYS_futex, long(f), FUTEX_WAIT, 0, 0, 0, 0); }
static void futexWake(volatile uint32_t* f) { rsys(SYS_futex, long(f), FUTEX_WAKE, 1, 0, 0, 0); }

[[noreturn]] void world_end(int verdict, const std::string& msg) {
    if (!W->ended) {
        W->ended   = true;
        W->verdict = verdict;
        if (W->message) {
            if (verdict == 3 && msg.find("arena") != std::string::npos) W->bump = reinterpret_cast<char*>(ARENA_BASE) + sizeof(World) + 4096;
            *W->message = SS(msg);
        }
        if (W->trace) {
            std::string m = "END verdict " + std::to_string(verdict) + " " + msg + "\n";
            rsys(SYS_write, trace_fd(), long(m.data()), m.size());
        }
    }
    rsys(SYS_kill, -W->pgid, SIGKILL);
    for (;;) rsys(SYS_pause);
}

static void waitToken() {
    Task* me = self;
    while (!me->futex) futexWait(&me->futex);
    me->futex = 0;
    if (W->current != me->id) world_end(3, "token mismatch");
    if (onResume) onResume();
}

static void give(Task* n) {
    W->current = n->id;
    __atomic_store_n(&n->futex, 1, __ATOMIC_SEQ_CST);
    futexWake(&n->futex);
}

Proc* proc(int idx) { return (*W->procs)[idx]; }
Proc* curproc() { return proc(self->proc); }

static bool stalled(Task& t) {
    Proc* p = proc(t.proc);
    return p->stallUntil > W->clock;
}

static void fireTimers() {
    if (W->nextNet && W->nextNet <= W->clock) net_tick();
    for (int k = 0; k < W->nlive; k++) {
        Task& t = W->tasks[W->live[k]];
        if (t.st == T_BLOCKED && t.wake && t.wake <= W->clock) {
            t.st       = T_READY;
            t.timedOut = true;
            t.wake     = 0;
        }
    }
}

// with --trace: where the threads of a process are
static void showStacks(pid_t pid) {
    char path[64], b[4096];
    snprintf(path, sizeof path, "/proc/%d/task", int(pid));
    long fd = rsys(SYS_open, long(path), O_RDONLY | O_DIRECTORY);
    if (fd < 0) return;
    for (long n; (n = rsys(SYS_getdents64, fd, long(b), sizeof b)) > 0;)
        for (long o = 0; o < n;) {
            struct D { uint64_t ino, off; unsigned short len; unsigned char type; char name[1]; }* d = (D*)(b + o);
            if (long tid = atol(d->name)) {
                rsys(SYS_tgkill, pid, tid, SIGUSR2);
                timespec ts{0, 50000000};
                rsys(SYS_nanosleep, long(&ts), 0);
            }
            o += d->len;
        }
    rsys(SYS_close, fd);
}
std::string describeTasks(int p) {
    std::string s;
    if (W->trace)
        for (Proc* q : *W->procs)
            if (q->alive && q->role >= 0) { logf("STACKS of %s", q->name.c_str()); showStacks(q->real); }
    (void)p;
    for (int i = 0; i < W->ntasks; i++) {
        Task& t = W->tasks[i];
        if (t.proc == p && t.st != T_FREE && t.st != T_DEAD) s += " t" + std::to_string(t.id) + ":" + (t.st == T_BLOCKED ? "" : "ready ") + opName[t.lastOp];
    }
    return s;
}
static std::string describeBlocked() {
    std::string s;
    for (int i = 0; i < W->ntasks; i++) {
        Task& t = W->tasks[i];
        if (t.st == T_BLOCKED)
            s += " t" + std::to_string(t.id) + "(" + S(proc(t.proc)->name) + ":" + opName[t.lastOp] + ")";
    }
    return s;
}

// choose the next task to run; mayStay: the current task is ready and may go on
static Task* choose(bool mayStay) {
    for (;;) {
        fireTimers();
        int ready[4096], n = 0, kept = 0;
        uint64_t next = 0;
        for (int k = 0; k < W->nlive; k++) {
            int i   = W->live[k];
            Task& t = W->tasks[i];
            if (t.st == T_DEAD) continue;
            W->live[kept++] = i;
            if (t.st == T_READY) {
                Proc* p = proc(t.proc);
                if (p->stallUntil > W->clock) {
                    if (!next || p->stallUntil < next) next = p->stallUntil;
                    continue;
                }
                ready[n++] = i;
            }
            else if (t.st == T_BLOCKED && t.wake) {
                if (!next || t.wake < next) next = t.wake;
            }
        }
        W->nlive = kept;
        if (W->nextNet && (!next || W->nextNet < next)) next = W->nextNet;
        if (!n) {
            if (!next) {
                W->deadlock = true;
                world_end(W->hangs ? 2 : 3, "hang: no task can ever run again | " + describeBlocked());
            }
            W->clock = std::max(W->clock, next);
            continue;
        }
        int cur     = self ? self->id : -1;
        bool curOk  = mayStay && self && !stalled(*self);
        // default decision
        int dflt = -1;
        if (curOk) dflt = cur;
        else {
            for (int k = 0; k < n; k++)
                if (ready[k] > cur) { dflt = ready[k]; break; }
            if (dflt < 0) dflt = ready[0];
        }
        int pick = dflt;
        for (int k = 0; k < n; k++)
            if (W->tasks[ready[k]].fresh > 0) return &W->tasks[ready[k]];
        switch (W->policy) {
            case POL_SERIAL: break;
            case POL_SCRIPT: {
                auto it = W->script->find(W->steps);
                if (it != W->script->end())
                    for (int k = 0; k < n; k++)
                        if (ready[k] == it->second) pick = it->second;
                break;
            }
            case POL_RANDOM:
                if (!curOk || W->rsched.chance(W->pswitch)) pick = ready[W->rsched.below(n)];
                break;
            case POL_PCT: {
                while (!W->changePoints->empty() && W->changePoints->back() <= W->steps) {
                    W->changePoints->pop_back();
                    if (self) self->prio = --W->prioLow;
                }
                if (W->steps % 4096 == 4095) { pick = ready[W->rsched.below(n)]; break; }
                int best = -1;
                for (int k = 0; k < n; k++)
                    if (best < 0 || W->tasks[ready[k]].prio > W->tasks[best].prio) best = ready[k];
                pick = best;
                break;
            }
        }
        if (pick != dflt && W->recordSwitches) W->switches->push_back({W->steps, pick});
        return &W->tasks[pick];
    }
}

static void switchFrom(bool mayStay) {
    Task* n = choose(mayStay);
    if (n == self) return;
    W->nswitches++;
    fnv(W->schedHash, (uint64_t(n->id) << 32) ^ (uint64_t(self->lastOp) << 8) ^ uint64_t(self->id));
    give(n);
    waitToken();
}

void point(Op op, uint64_t detail) {
    if (!self || forking) return;
    W->steps++;
    if (W->steps > W->maxSteps) {
        W->stepsLimitHit = 1;
        world_end(W->hangs ? 2 : 3, "hang: no end within the step limit | " + describeBlocked());
    }
    W->clock += 1 + W->rclock.below(op == OP_BB ? 2 : 12);
    self->lastOp = op;
    if (self->fresh > 0) self->fresh--;
    W->opCount[op]++;
    Proc* p = curproc();
    p->ops[op]++;
    fnv(W->traceHash, (uint64_t(self->id) << 40) ^ (uint64_t(op) << 32) ^ detail);
    if (W->trace && op != OP_BB && op != OP_LOCK && op != OP_UNLOCK) logf("%s %lx", opName[op], detail);
    switchFrom(true);
}

bool block(const void* key, bool shared, uint64_t deadline) {
    Task* me = self;
    if (deadline && deadline <= W->clock) { me->timedOut = true; point(me->lastOp); return false; }
    me->st        = T_BLOCKED;
    me->key       = key;
    me->keyShared = shared;
    me->timedOut  = false;
    me->wake      = deadline;
    me->bseq      = ++W->bseq;
    W->steps++;
    switchFrom(false);
    me->key = nullptr;
    return !me->timedOut;
}

int wake(const void* key, bool shared, int n) {
    int done = 0;
    while (done < n) {
        Task* best = nullptr;
        for (int k = 0; k < W->nlive; k++) {
            Task& t = W->tasks[W->live[k]];
            if (t.st == T_BLOCKED && t.key == key && t.keyShared == shared && (shared || t.proc == self->proc))
                if (!best || t.bseq < best->bseq) best = &t;
        }
        if (!best) break;
        best->st  = T_READY;
        best->key = nullptr;
        best->wake = 0;
        done++;
    }
    return done;
}

void sleep_until(uint64_t t) {
    static char k;
    while (W->clock < t) block(&k, false, t);
}

int new_task(int pidx) {
    if (W->ntasks >= 4096) world_end(3, "too many tasks");
    int id = -1;
    id     = W->ntasks++;
    W->live[W->nlive++] = id;
    Task& t = W->tasks[id];
    t       = Task();
    t.id    = id;
    t.proc  = pidx;
    t.st    = T_READY;
    proc(pidx)->live++;
    t.prio  = (1u << 20) + 1 + W->rsched.below(1u << 20);
    return id;
}

void task_start(int id) {
    forking = false;
    self = &W->tasks[id];
    waitToken();
}

void task_finish() {
    Task* me = self;
    me->st   = T_DEAD;
    curproc()->live--;
    wake(me, true, 1000);
    Task* n = choose(false);
    W->nswitches++;
    fnv(W->schedHash, (uint64_t(n->id) << 32) ^ 0xdead ^ uint64_t(me->id));
    self = nullptr;
    give(n);
}

Proc* new_proc(const std::string& name, int role, int parent) {
    Proc* p  = sh_new<Proc>();
    p->idx   = W->procs->size();
    p->vpid  = 1000 + p->idx;
    p->name  = SS(name);
    p->role  = role;
    p->parent = parent;
    p->alive = true;
    p->rng   = W->rmisc.next();
    W->procs->push_back(p);
    W->nprocsStarted++;
    return p;
}

static void releaseProc(Proc* p) {
    // drop descriptors and locks
    for (auto& e : p->fds) {
        Ofd* o = e.second;
        if (o->ino) {
            auto& L = o->ino->locks;
            L.erase(std::remove_if(L.begin(), L.end(), [&](const RLock& l) { return l.proc == p->idx; }), L.end());
            wake(&o->ino->locks, true, 1000);
        }
        ofd_unref(o);
    }
    p->fds.clear();
    p->alive = false;
    for (int i = 0; i < W->ntasks; i++)
        if (W->tasks[i].proc == p->idx) W->tasks[i].st = T_DEAD;
    wake(p, true, 1000);
    if (p->parent >= 0) wake(&proc(p->parent)->ops, true, 1000);
}

[[noreturn]] void proc_exit(int code, int sig) {
    Proc* p = curproc();
    if (sig) logf("process %s dies, signal %d %s", p->name.c_str(), sig, p->note.c_str());
    else if (code) { logf("process %s leaves with %d", p->name.c_str(), code); }
    p->code = code;
    p->sig  = sig;
    mix(0x9999 + code * 31 + sig);
    releaseProc(p);
    Task* me = self;
    me->st   = T_DEAD;
    Task* n  = choose(false);
    W->nswitches++;
    self = nullptr;
    give(n);
    rsys(SYS_kill, rsys(SYS_getpid), SIGKILL);
    for (;;) rsys(SYS_exit_group, code);
}

void kill_proc(Proc* p, int sig) {
    if (!p->alive) return;
    logf("kill process %s", p->name.c_str());
    p->killed = true;
    if (self && p->idx == self->proc) proc_exit(0, sig);
    p->sig = sig;
    releaseProc(p);
    if (p->real > 0) rsys(SYS_kill, p->real, SIGKILL);
}

static pid_t realFork() { return ::fork(); }

int (*forkHook)() = nullptr;
extern "C" pid_t sim_real_fork();

int sim_fork(const char* name, int role) {
    Proc* par = curproc();
    Proc* p   = new_proc(name ? name : S(par->name) + "+", role, par->idx);
    for (auto& e : par->fds) {
        p->fds[e.first] = e.second;
        e.second->refs++;
    }
    int t     = new_task(p->idx);
    W->tasks[t].st = T_BLOCKED;  // until the fork is complete: handlers registered with pthread_atfork may wait for locks
    pid_t pid = sim_real_fork();
    if (pid < 0) world_end(3, "fork failed");
    if (pid == 0) {
        task_start(t);
        return 0;
    }
    p->real = pid;
    W->tasks[t].st = T_READY;
    mix(0xF0F0 + p->idx);
    return p->idx;
}

int spawn(const std::string& name, int role, const std::function<void()>& fn) {
    int i = sim_fork(name.c_str(), role);
    if (i) return i;
    fn();
    proc_exit(0, 0);
}

bool wait_proc(int idx, uint64_t deadline) {
    Proc* p = proc(idx);
    while (p->alive) {
        if (deadline && W->clock >= deadline) return false;
        block(p, true, deadline);
    }
    return true;
}

// ------------------------------------------------------------------ faults
bool is_fs(Op o) { return (o >= OP_OPEN && o <= OP_MISC); }
static bool mut(Op o) {
    switch (o) {
        case OP_CREATE: case OP_WRITE: case OP_SYNC: case OP_TRUNC: case OP_MKDIR: case OP_RMDIR: case OP_UNLINK: case OP_RENAME: case OP_CHMOD: return true;
        default: return false;
    }
}
static bool matches(Cls c, Op o) {
    switch (c) {
        case C_ANY: return is_fs(o) || (o >= OP_CONNECT && o <= OP_NETMISC);
        case C_FS: return is_fs(o) && o != OP_STAT && o != OP_CLOSE;
        case C_ALLFS: return is_fs(o);
        case C_FSMUT: return mut(o);
        case C_WRITE: return o == OP_WRITE;
        case C_SYNC: return o == OP_SYNC;
        case C_READ: return o == OP_READ;
        case C_META: return o == OP_CREATE || o == OP_MKDIR || o == OP_RMDIR || o == OP_UNLINK || o == OP_RENAME || o == OP_TRUNC || o == OP_CHMOD;
        case C_OPENW: return o == OP_CREATE;
        case C_OPENR: return o == OP_OPEN;
        case C_NET: return o == OP_CONNECT || o == OP_ACCEPT || o == OP_SEND || o == OP_RECV;
        case C_SEND: return o == OP_SEND;
        case C_RECV: return o == OP_RECV;
        case C_CONNECT: return o == OP_CONNECT;
        case C_UNLINK: return o == OP_UNLINK || o == OP_RMDIR;
        default: return false;
    }
}

static void fired(Fault& f, Op op) {
    f.fired++;
    f.at = W->steps;
    W->faultCount[f.kind]++;
    mix(0xFA000 + f.kind);
    logf("FAULT %s at %s of %s (nth %lu of %s)", faultName[f.kind], opName[op], curproc()->name.c_str(), f.nth, clsName[f.cls]);
}

static int sockRole(Sock* s) { return s ? proc(s->proc)->role : -1; }
int fault_for(Op op, Inode* ino, Sock* s) {
    if (!W->faultsOn) return 0;
    Proc* p = curproc();
    if (p->role < 0 || (ino && ino->exempt && op == OP_READ)) return 0;
    int res = 0;
    for (auto& f : *W->faults) {
        if (!f.enabled) continue;
        if (f.role >= 0 && f.role != p->role) continue;
        if (!matches(f.cls, op)) continue;
        f.seen++;
        if (f.kind == FK_IOERR && f.fired && f.seen > f.nth && f.seen < f.nth + uint64_t(f.arg2)) {
            W->faultCount[f.kind]++;
            f.fired++;
            res = int(f.arg);
            continue;
        }
        if (f.seen != f.nth) continue;
        switch (f.kind) {
            case FK_CRASH:
                fired(f, op);
                kill_proc(p, SIGKILL);
                break;
            case FK_POWER:
                fired(f, op);
                power_loss();
                break;
            case FK_IOERR: fired(f, op); res = int(f.arg); break;
            case FK_SHORT:
                if (op == OP_WRITE || op == OP_READ || op == OP_SEND) { fired(f, op); res = -1; }
                break;
            case FK_EINTR:
                if (op == OP_WRITE || op == OP_READ || op == OP_RECV || op == OP_SEND || op == OP_CREATE || op == OP_OPEN) { fired(f, op); res = EINTR; }
                break;
            case FK_NOSPC: fired(f, op); W->noSpcLeft = f.arg; break;
            case FK_RESET:
                fired(f, op);
                if (s) net_reset(s);
                else
                    for (Sock* k : *W->socks)
                        if (k->refs && k->connected && !k->pipe && (sockRole(k) == p->role || sockRole(k->peer) == p->role)) net_reset(k);
                break;
            case FK_STALL:
                fired(f, op);
                p->stallUntil = W->clock + f.arg;
                switchFrom(true);
                break;
            case FK_CLOCK: fired(f, op); W->rtJump += f.arg * 1000000; break;
            case FK_PARTITION:
                fired(f, op);
                for (Sock* k : *W->socks)
                    if (k->refs && k->connected && !k->pipe && (sockRole(k) == p->role || sockRole(k->peer) == p->role)) {
                        uint64_t until = W->clock + f.arg;
                        k->holdUntil = std::max(k->holdUntil, until);
                        for (auto& g : k->in)
                            if (g.at > W->clock && g.at < until) g.at = until;
                    }
                break;
            default: break;
        }
    }
    if (!res && W->noSpcLeft && (op == OP_WRITE || op == OP_CREATE || op == OP_MKDIR)) {
        W->noSpcLeft--;
        W->faultCount[FK_NOSPC]++;
        res = ENOSPC;
    }
    return res;
}

// ------------------------------------------------------------------ storage
static Inode* newInode(IType t, uint32_t mode) {
    Inode* i = sh_new<Inode>();
    i->ino   = W->nextIno++;
    i->type  = t;
    i->mode  = mode;
    i->mtime = i->ctime = i->atime = W->clock + W->rtJump;
    W->inodes->push_back(i);
    return i;
}
static void jlink(Inode* dir, const std::string& name, Inode* i) {
    W->journal->push_back(Meta{1, dir, SS(name), i, nullptr, {}});
}
static void junlink(Inode* dir, const std::string& name) {
    W->journal->push_back(Meta{2, dir, SS(name), nullptr, nullptr, {}});
}
static void commitInode(Inode* i) {
    if (!W->trackDur) return;
    for (auto& w : i->pend) {
        if (w.trunc) i->dur.resize(w.off);
        else {
            if (i->dur.size() < size_t(w.off) + w.d.size()) i->dur.resize(w.off + w.d.size());
            memcpy(i->dur.data() + w.off, w.d.data(), w.d.size());
        }
    }
    i->pend.clear();
}
void fs_sync_all() {
    for (Inode* i : *W->inodes) {
        if (W->trackDur) { i->dur = i->data; i->pend.clear(); }
    }
    W->committed = W->journal->size();
}

void power_loss() {
    logf("POWER LOSS");
    W->powerLost = true;
    size_t n = W->journal->size();
    size_t k = W->committed + W->rfault.below(n - W->committed + 1);
    // half of the time the whole journal or only the committed part
    uint64_t c = W->rfault.below(4);
    if (c == 0) k = W->committed;
    if (c == 1) k = n;
    // file contents
    for (Inode* i : *W->inodes) {
        if (i->type != I_FILE) { i->ents.clear(); i->nlink = 0; continue; }
        size_t m    = i->pend.size();
        size_t keep = m ? W->rfault.below(m + 1) : 0;
        uint64_t d  = W->rfault.below(4);
        if (d == 0) keep = 0;
        if (d == 1) keep = m;
        svec<char> out = i->dur;
        auto apply = [&](Pend& w, size_t len) {
            if (w.trunc) { out.resize(w.off); return; }
            if (out.size() < size_t(w.off) + len) out.resize(w.off + len);
            memcpy(out.data() + w.off, w.d.data(), len);
        };
        for (size_t j = 0; j < keep; j++) apply(i->pend[j], i->pend[j].d.size());
        if (keep < m && W->rfault.chance(0.5) && !i->pend[keep].trunc) {
            // torn at a 4096-byte page boundary of the file
            Pend& w   = i->pend[keep];
            size_t end = w.off + w.d.size();
            size_t firstPage = (w.off / 4096 + 1) * 4096;
            if (firstPage < end) {
                size_t pages = (end - firstPage) / 4096 + 1;
                size_t cut   = firstPage + 4096 * W->rfault.below(pages);
                if (cut > end) cut = end;
                if (cut > size_t(w.off)) apply(w, cut - w.off);
            }
        }
        i->data = out;
        i->dur  = out;
        i->pend.clear();
        i->nlink = 0;
        i->opens = 0;
        i->locks.clear();
    }
    W->root->nlink = 1;
    for (size_t j = 0; j < k; j++) {
        Meta& m = (*W->journal)[j];
        if (m.kind == 3) {
            auto it = m.dir2->ents.find(m.name2);
            if (it != m.dir2->ents.end()) { it->second->nlink--; m.dir2->ents.erase(it); }
            auto jt = m.dir->ents.find(m.name);
            if (jt != m.dir->ents.end()) jt->second->nlink--;
        }
        if (m.kind == 1 || m.kind == 3) { m.dir->ents[m.name] = m.ino; m.ino->nlink++; m.ino->parent = m.dir; }
        else {
            auto it = m.dir->ents.find(m.name);
            if (it != m.dir->ents.end()) { it->second->nlink--; m.dir->ents.erase(it); }
        }
    }
    W->journal->resize(k);
    W->committed = k;
    mix(k);
    // every process but the driver dies
    Proc* me = self ? curproc() : nullptr;
    for (Proc* p : *W->procs)
        if (p->alive && p->role >= 0 && p != me) kill_proc(p, SIGKILL);
    for (Sock* s : *W->socks) if (s->refs == 0) s->connected = false;
    if (me && me->role >= 0) { me->killed = true; proc_exit(0, SIGKILL); }
}

bool is_virtual(const char* path) { return path && ((!strncmp(path, "/sim", 4) && (path[4] == 0 || path[4] == '/')) || (path[0] && path[0] != '/')); }

static void splitPath(const std::string& p, std::vector<std::string>& out) {
    size_t i = 0;
    while (i < p.size()) {
        while (i < p.size() && p[i] == '/') i++;
        size_t j = i;
        while (j < p.size() && p[j] != '/') j++;
        if (j > i) out.push_back(p.substr(i, j - i));
        i = j;
    }
}

// a relative path is below the simulated working directory, /sim/cwd
static Inode* walk(const std::string& path, bool follow, Inode** parent, std::string* last, int depth) {
    std::vector<std::string> c;
    splitPath(path.empty() || path[0] == '/' ? path : "/sim/cwd/" + path, c);
    if (parent) *parent = nullptr;
    if (c.empty() || c[0] != "sim") { errno = ENOENT; return nullptr; }
    Inode* cur = W->root;
    if (last) *last = "";
    if (c.size() > 1 && !W->homeOf->empty() && self) {
        auto h = W->homeOf->find(SS(c[1]));
        if (h != W->homeOf->end() && curproc()->role >= 0 && curproc()->role != h->second) { errno = ENOENT; return nullptr; }
    }
    for (size_t k = 1; k < c.size(); k++) {
        if (cur->type != I_DIR) { errno = ENOTDIR; if (parent) *parent = nullptr; return nullptr; }
        const std::string& n = c[k];
        bool isLast = k + 1 == c.size();
        if (n == ".") continue;
        if (n == "..") { cur = cur->parent; continue; }
        if (isLast) { if (parent) *parent = cur; if (last) *last = n; }
        if (n.size() > 255) { errno = ENAMETOOLONG; if (parent) *parent = nullptr; return nullptr; }
        auto it = cur->ents.find(SS(n));
        if (it == cur->ents.end()) {
            if (!isLast && parent) *parent = nullptr;
            errno = ENOENT;
            return nullptr;
        }
        Inode* nx = it->second;
        if (nx->type == I_LINK && (!isLast || follow)) {
            if (depth > 20) { errno = ELOOP; return nullptr; }
            std::string t = S(nx->link);
            std::string base;
            if (!t.empty() && t[0] == '/') base = t;
            else {
                base = "/sim";
                for (size_t q = 1; q < k; q++) base += "/" + c[q];
                base += "/" + t;
            }
            for (size_t q = k + 1; q < c.size(); q++) base += "/" + c[q];
            return walk(base, follow, parent, last, depth + 1);
        }
        cur = nx;
    }
    return cur;
}
Inode* lookup(const std::string& path, bool follow, Inode** parent, std::string* last) { return walk(path, follow, parent, last, 0); }

bool is_vfd(int fd) { return fd >= 512 && fd < 1024; }
Ofd* fd_get(int fd) {
    auto& m = curproc()->fds;
    auto it = m.find(fd);
    return it == m.end() ? nullptr : it->second;
}
int fd_alloc(Ofd* o, int min) {
    auto& m = curproc()->fds;
    int fd  = min;
    while (m.count(fd)) fd++;
    if (fd >= 1024) { errno = EMFILE; return -1; }
    m[fd] = o;
    return fd;
}
static void sockUnref(Sock* s);
void ofd_unref(Ofd* o) {
    if (--o->refs > 0) return;
    if (o->ino) {
        o->ino->opens--;
        auto& L = o->ino->locks;
        L.erase(std::remove_if(L.begin(), L.end(), [&](const RLock& l) { return l.ofd == o; }), L.end());
        if (o->ino->nlink <= 0 && o->ino->opens <= 0 && !W->trackDur) { svec<char>().swap(o->ino->data); }
    }
    if (o->sock) sockUnref(o->sock);
    sh_del(o);
}
int fd_dup(int fd, int to) {
    Ofd* o = fd_get(fd);
    if (!o) return fail(EBADF);
    o->refs++;
    if (to < 0) return fd_alloc(o);
    auto& m = curproc()->fds;
    auto it = m.find(to);
    if (it != m.end()) { ofd_unref(it->second); m.erase(it); }
    m[to] = o;
    return to;
}

static int64_t rt() { return int64_t(W->clock) + W->rtJump; }
static bool fault_errno(Op op, Inode* i, int& r) {
    r = fault_for(op, i, nullptr);
    if (r > 0) { errno = r; return true; }
    return false;
}
static uint64_t hpath(const std::string& p) {
    uint64_t h = 14695981039346656037ULL;
    for (char c : p) { h ^= (unsigned char)c; h *= 1099511628211ULL; }
    return h & 0xffffffff;
}

int fs_open(const char* path, int flags, mode_t mode) {
    bool wr = (flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC));
    Op op   = wr ? OP_CREATE : OP_OPEN;
    point(op, hpath(path));
    int r;
    if (fault_errno(op, nullptr, r)) return -1;
    Inode* par;
    std::string last;
    Inode* i = lookup(path, !(flags & O_NOFOLLOW), &par, &last);
    if (W->trace) logf("open %s flags %o -> %s", path, flags, i ? "found" : "absent");
    if (i && (flags & O_CREAT) && (flags & O_EXCL)) return fail(EEXIST);
    if (!i) {
        if (!(flags & O_CREAT) || !par || last.empty()) { if (errno == 0 || (flags & O_CREAT && !par)) errno = ENOENT; return -1; }
        i         = newInode(I_FILE, mode & 0777);
        i->nlink  = 1;
        i->parent = par;
        par->ents[SS(last)] = i;
        par->mtime          = rt();
        jlink(par, last, i);
    }
    else if ((flags & O_TRUNC) && i->type == I_FILE && (flags & O_ACCMODE) != O_RDONLY) {
        i->data.clear();
        if (W->trackDur) i->pend.push_back(Pend{0, true, {}});
        i->mtime = rt();
    }
    if (i->type == I_DIR && (flags & O_ACCMODE) != O_RDONLY) return fail(EISDIR);
    if ((flags & O_DIRECTORY) && i->type != I_DIR) return fail(ENOTDIR);
    Ofd* o   = sh_new<Ofd>();
    o->kind  = i->type == I_DIR ? K_DIR : K_FILE;
    o->ino   = i;
    o->refs  = 1;
    o->flags = flags;
    o->path  = path;
    i->opens++;
    int fd = fd_alloc(o);
    if (fd < 0) ofd_unref(o);
    return fd;
}

static ssize_t doRead(Inode* i, void* buf, size_t n, int64_t off) {
    if (i->type == I_DIR) return fail(EISDIR);
    int64_t sz = i->data.size();
    if (off >= sz) return 0;
    size_t m = std::min<size_t>(n, sz - off);
    memcpy(buf, i->data.data() + off, m);
    return m;
}
static void doWrite(Inode* i, const void* buf, size_t n, int64_t off) {
    if (i->data.size() < size_t(off) + n) {
        if (i->data.capacity() < size_t(off) + n) i->data.reserve(std::max<size_t>(off + n, i->data.capacity() * 2));
        i->data.resize(off + n);
    }
    memcpy(i->data.data() + off, buf, n);
    if (W->trackDur) {
        Pend p{off, false, {}};
        p.d.assign((const char*)buf, (const char*)buf + n);
        i->pend.push_back(std::move(p));
    }
    i->mtime = rt();
}
static uint64_t hbuf(const void* b, size_t n) {
    uint64_t h = 1469598103934665603ULL;
    const unsigned char* p = (const unsigned char*)b;
    for (size_t k = 0; k < n; k++) { h ^= p[k]; h *= 1099511628211ULL; }
    return h;
}

ssize_t fs_pread(int fd, void* buf, size_t n, int64_t off) {
    Ofd* o = fd_get(fd);
    if (!o) return fail(EBADF);
    if (o->kind == K_SOCK) return net_recv(fd, buf, n, 0);
    point(OP_READ, (o->ino->ino << 20) ^ n);
    int r;
    if (fault_errno(OP_READ, o->ino, r)) return -1;
    if (r == -1 && n > 1) n = 1 + W->rfault.below(n - 1);
    bool cur = off < 0;
    if (cur) off = o->off;
    ssize_t m = doRead(o->ino, buf, n, off);
    if (W->trace) logf("read %s off %ld n %zu -> %zd", o->path.c_str(), off, n, m);
    if (m > 0 && cur) o->off = off + m;
    return m;
}
ssize_t fs_read(int fd, void* buf, size_t n) { return fs_pread(fd, buf, n, -1); }

ssize_t fs_pwrite(int fd, const void* buf, size_t n, int64_t off) {
    Ofd* o = fd_get(fd);
    if (!o) return fail(EBADF);
    if (o->kind == K_SOCK) return net_send(fd, buf, n, 0);
    point(OP_WRITE, (o->ino->ino << 20) ^ n);
    if ((o->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
    int r;
    if (fault_errno(OP_WRITE, o->ino, r)) return -1;
    if (r == -1 && n > 1) n = 1 + W->rfault.below(n - 1);
    bool cur = off < 0;
    if (cur) off = (o->flags & O_APPEND) ? int64_t(o->ino->data.size()) : o->off;
    mix(hbuf(buf, std::min<size_t>(n, 4096)));
    doWrite(o->ino, buf, n, off);
    if (W->trace && getenv("SIM_DUMP")) { std::string h; for (size_t i = 0; i < n && i < 4096; i++) { char b[4]; snprintf(b, 4, "%02x", ((unsigned char*)buf)[i]); h += b; } fprintf(stderr, "DUMP %s\n", h.c_str()); }
    if (W->trace) logf("write %s off %ld n %zu h %lx", o->path.c_str(), off, n, W->traceHash);
    if (cur) o->off = off + n;
    return n;
}
ssize_t fs_write(int fd, const void* buf, size_t n) { return fs_pwrite(fd, buf, n, -1); }

int64_t fs_lseek(int fd, int64_t off, int whence) {
    Ofd* o = fd_get(fd);
    if (!o) return fail(EBADF);
    if (o->kind == K_SOCK) return fail(ESPIPE);
    point(OP_MISC, 1);
    int64_t b = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? o->off : int64_t(o->ino->data.size());
    if (b + off < 0) return fail(EINVAL);
    o->off = b + off;
    return o->off;
}
int fs_close(int fd) {
    auto& m = curproc()->fds;
    auto it = m.find(fd);
    if (it == m.end()) return fail(EBADF);
    Ofd* o = it->second;
    point(OP_CLOSE, o->ino ? o->ino->ino : 0);
    it = m.find(fd);
    if (it == m.end()) return fail(EBADF);
    o = it->second;
    if (W->trace) logf("close %s", o->path.c_str());
    m.erase(it);
    if (o->ino) {
        auto& L = o->ino->locks;
        size_t b = L.size();
        int me = self->proc;
        L.erase(std::remove_if(L.begin(), L.end(), [&](const RLock& l) { return l.proc == me; }), L.end());
        if (b != L.size()) wake(&o->ino->locks, true, 1000);
    }
    int r = o->kind == K_FILE ? fault_for(OP_CLOSE, o->ino, nullptr) : 0;
    ofd_unref(o);
    if (r > 0) return fail(r);
    return 0;
}
int fs_fsync(int fd, bool) {
    Ofd* o = fd_get(fd);
    if (!o) return fail(EBADF);
    if (o->kind == K_SOCK) return fail(EINVAL);
    point(OP_SYNC, o->ino->ino);
    int r;
    if (W->trace) logf("fsync %s", o->path.c_str());
    if (fault_errno(OP_SYNC, o->ino, r)) {
        // as on Linux: pages whose write-back failed are marked clean, and no later sync writes them
        if (W->trackDur && W->syncDrops && o->path.size() > 5 && o->path.compare(o->path.size() - 5, 5, ".data") == 0 && o->ino->pend.size()) {
            W->syncLost++;
            logf("write-back failed: %zu writes of %s are lost", o->ino->pend.size(), o->path.c_str());
            o->ino->pend.clear();
        }
        return -1;
    }
    commitInode(o->ino);
    W->committed = W->journal->size();
    return 0;
}
static int trunc(Inode* i, int64_t n) {
    if (W->trace) logf("truncate inode %llu to %lld, was %zu", (unsigned long long)i->ino, (long long)n, i->data.size());
    if (i->type != I_FILE) return fail(EISDIR);
    i->data.resize(n);
    if (W->trackDur) {
        // what was written a moment ago and is cut off again is not written back
        while (!i->pend.empty() && !i->pend.back().trunc && i->pend.back().off >= n) i->pend.pop_back();
        i->pend.push_back(Pend{n, true, {}});
    }
    i->mtime = rt();
    return 0;
}
int fs_ftruncate(int fd, int64_t n) {
    Ofd* o = fd_get(fd);
    if (!o || !o->ino) return fail(EBADF);
    point(OP_TRUNC, o->ino->ino);
    int r;
    if (fault_errno(OP_TRUNC, o->ino, r)) return -1;
    return trunc(o->ino, n);
}
int fs_truncate(const char* path, int64_t n) {
    point(OP_TRUNC, hpath(path));
    int r;
    if (fault_errno(OP_TRUNC, nullptr, r)) return -1;
    Inode* i = lookup(path);
    if (!i) return -1;
    return trunc(i, n);
}
static void fillStat(Inode* i, struct stat* st) {
    memset(st, 0, sizeof *st);
    st->st_dev   = 0x51;
    st->st_ino   = i->ino;
    st->st_mode  = i->mode | (i->type == I_DIR ? S_IFDIR : i->type == I_LINK ? S_IFLNK : S_IFREG);
    st->st_nlink = i->nlink;
    st->st_uid   = i->uid;
    st->st_size  = i->type == I_FILE ? i->data.size() : i->type == I_LINK ? i->link.size() : 4096;
    st->st_blksize = 4096;
    st->st_blocks  = (st->st_size + 511) / 512;
    auto cv = [](int64_t t, struct timespec& o) { t += 1700000000LL * 1000000; o.tv_sec = t / 1000000; o.tv_nsec = (t % 1000000) * 1000; };
    cv(i->mtime, st->st_mtim);
    cv(i->ctime, st->st_ctim);
    cv(i->atime, st->st_atim);
}
int fs_stat(const char* path, struct stat* st, bool follow) {
    point(OP_STAT, hpath(path));
    int r;
    if (fault_errno(OP_STAT, nullptr, r)) return -1;
    errno = 0;
    Inode* i = lookup(path, follow);
    if (W->trace) logf("stat %s -> %s", path, i ? "found" : "absent");
    if (!i) return -1;
    fillStat(i, st);
    return 0;
}
int fs_fstat(int fd, struct stat* st) {
    Ofd* o = fd_get(fd);
    if (!o) return fail(EBADF);
    if (o->kind == K_SOCK) { memset(st, 0, sizeof *st); st->st_mode = S_IFSOCK | 0600; return 0; }
    point(OP_STAT, o->ino->ino);
    fillStat(o->ino, st);
    return 0;
}
int fs_access(const char* path, int) {
    point(OP_STAT, hpath(path));
    int r;
    if (fault_errno(OP_STAT, nullptr, r)) return -1;
    return lookup(path) ? 0 : -1;
}
int fs_mkdir(const char* path, mode_t mode) {
    point(OP_MKDIR, hpath(path));
    int r;
    if (fault_errno(OP_MKDIR, nullptr, r)) return -1;
    Inode* par;
    std::string last;
    Inode* i = lookup(path, true, &par, &last);
    if (W->trace) logf("mkdir %s -> %s", path, i ? "exists" : "new");
    if (i) return fail(EEXIST);
    if (!par) return fail(ENOENT);
    i         = newInode(I_DIR, mode & 0777);
    i->nlink  = 1;
    i->parent = par;
    par->ents[SS(last)] = i;
    jlink(par, last, i);
    return 0;
}
int fs_rmdir(const char* path) {
    point(OP_RMDIR, hpath(path));
    int r;
    if (fault_errno(OP_RMDIR, nullptr, r)) return -1;
    Inode* par;
    std::string last;
    Inode* i = lookup(path, false, &par, &last);
    if (W->trace) logf("rmdir %s", path);
    if (!i) return -1;
    if (i->type != I_DIR) return fail(ENOTDIR);
    if (!i->ents.empty()) return fail(ENOTEMPTY);
    if (!par || last.empty()) return fail(EBUSY);
    par->ents.erase(SS(last));
    i->nlink = 0;
    junlink(par, last);
    return 0;
}
int fs_unlink(const char* path) {
    point(OP_UNLINK, hpath(path));
    int r;
    if (fault_errno(OP_UNLINK, nullptr, r)) return -1;
    Inode* par;
    std::string last;
    Inode* i = lookup(path, false, &par, &last);
    if (W->trace) logf("unlink %s -> %s", path, i ? "found" : "absent");
    if (!i) return -1;
    if (i->type == I_DIR) return fail(EISDIR);
    par->ents.erase(SS(last));
    i->nlink--;
    junlink(par, last);
    if (i->nlink <= 0 && i->opens <= 0 && !W->trackDur) svec<char>().swap(i->data);
    return 0;
}
int fs_rename(const char* a, const char* b) {
    point(OP_RENAME, hpath(a) ^ (hpath(b) << 1));
    int r;
    if (fault_errno(OP_RENAME, nullptr, r)) return -1;
    Inode *pa, *pb;
    std::string la, lb;
    Inode* i = lookup(a, false, &pa, &la);
    if (W->trace) logf("rename %s -> %s", a, b);
    if (!i) return -1;
    Inode* t = lookup(b, false, &pb, &lb);
    if (!pb) return fail(ENOENT);
    if (t == i) return 0;
    if (t && t->type == I_DIR && !t->ents.empty()) return fail(ENOTEMPTY);
    if (t) t->nlink--;
    pa->ents.erase(SS(la));
    pb->ents[SS(lb)] = i;
    i->parent = pb;
    W->journal->push_back(Meta{3, pb, SS(lb), i, pa, SS(la)});
    return 0;
}
int fs_link(const char* a, const char* b) {
    point(OP_RENAME, hpath(a));
    Inode *pb;
    std::string lb;
    Inode* i = lookup(a);
    if (!i) return -1;
    if (lookup(b, false, &pb, &lb)) return fail(EEXIST);
    if (!pb) return fail(ENOENT);
    pb->ents[SS(lb)] = i;
    i->nlink++;
    jlink(pb, lb, i);
    return 0;
}
int fs_symlink(const char* target, const char* path) {
    point(OP_CREATE, hpath(path));
    Inode* par;
    std::string last;
    if (lookup(path, false, &par, &last)) return fail(EEXIST);
    if (!par) return fail(ENOENT);
    Inode* i = newInode(I_LINK, 0777);
    i->link  = target;
    i->nlink = 1;
    i->parent = par;
    par->ents[SS(last)] = i;
    jlink(par, last, i);
    return 0;
}
ssize_t fs_readlink(const char* path, char* buf, size_t n) {
    point(OP_STAT, hpath(path));
    Inode* i = lookup(path, false);
    if (!i) return -1;
    if (i->type != I_LINK) return fail(EINVAL);
    size_t m = std::min(n, i->link.size());
    memcpy(buf, i->link.data(), m);
    return m;
}
int fs_chmod(const char* path, mode_t m) {
    point(OP_CHMOD, hpath(path));
    int r;
    if (fault_errno(OP_CHMOD, nullptr, r)) return -1;
    Inode* i = lookup(path);
    if (!i) return -1;
    i->mode = m & 07777;
    return 0;
}
int fs_utime(const char* path) {
    point(OP_CHMOD, hpath(path));
    Inode* i = lookup(path);
    if (!i) return -1;
    i->mtime = rt();
    return 0;
}
bool fs_realpath(const std::string& path, std::string& out) {
    point(OP_STAT, hpath(path));
    // resolve by walking up from the inode
    Inode* par;
    std::string last;
    Inode* i = lookup(path, true, &par, &last);
    if (!i) return false;
    std::string s;
    Inode* c = i;
    int guard = 0;
    while (c != W->root && guard++ < 100) {
        Inode* p = c->parent;
        bool f   = false;
        for (auto& e : p->ents)
            if (e.second == c) { s = "/" + S(e.first) + s; f = true; break; }
        if (!f) return false;
        c = p;
    }
    out = "/sim" + s;
    return true;
}
int fs_lock(int fd, int cmd, struct flock* l) {
    Ofd* o = fd_get(fd);
    if (!o || !o->ino) return fail(EBADF);
    point(OP_LOCK, o->ino->ino);
    int64_t base = l->l_whence == SEEK_SET ? 0 : l->l_whence == SEEK_CUR ? o->off : int64_t(o->ino->data.size());
    int64_t a = base + l->l_start, b = l->l_len ? a + l->l_len : INT64_MAX;
    auto& L = o->ino->locks;
    for (;;) {
        if (l->l_type == F_UNLCK) {
            L.erase(std::remove_if(L.begin(), L.end(), [&](const RLock& k) { return !k.ofd && k.proc == self->proc && k.a < b && a < k.b; }), L.end());
            wake(&L, true, 1000);
            return 0;
        }
        bool conflict = false;
        for (auto& k : L)
            if (!k.ofd && k.proc != self->proc && k.a < b && a < k.b && (k.ex || l->l_type == F_WRLCK)) conflict = true;
        if (cmd == F_GETLK) { if (!conflict) l->l_type = F_UNLCK; return 0; }
        if (!conflict) {
            L.erase(std::remove_if(L.begin(), L.end(), [&](const RLock& k) { return !k.ofd && k.proc == self->proc && k.a >= a && k.b <= b; }), L.end());
            L.push_back(RLock{self->proc, nullptr, a, b, l->l_type == F_WRLCK});
            return 0;
        }
        if (cmd == F_SETLK) return fail(EAGAIN);
        block(&L, true, 0);
    }
}
int fs_flock(int fd, int op) {
    Ofd* o = fd_get(fd);
    if (!o || !o->ino) return fail(EBADF);
    point(OP_LOCK, o->ino->ino);
    auto& L = o->ino->locks;
    for (;;) {
        if ((op & ~4) == 8) {
            L.erase(std::remove_if(L.begin(), L.end(), [&](const RLock& k) { return k.ofd == o; }), L.end());
            wake(&L, true, 1000);
            return 0;
        }
        bool conflict = false;
        for (auto& k : L)
            if (k.ofd && k.ofd != o && (k.ex || (op & 2))) conflict = true;
        if (!conflict) {
            L.push_back(RLock{-2, o, 0, INT64_MAX, (op & 2) != 0});
            return 0;
        }
        if (op & 4) return fail(EWOULDBLOCK);
        block(&L, true, 0);
    }
}
std::vector<std::string> fs_list(Inode* dir) {
    std::vector<std::string> v;
    for (auto& e : dir->ents) v.push_back(S(e.first));
    return v;
}

void fs_mkdirs(const std::string& path) {
    std::vector<std::string> c;
    splitPath(path, c);
    Inode* cur = W->root;
    for (size_t k = 1; k < c.size(); k++) {
        auto it = cur->ents.find(SS(c[k]));
        if (it == cur->ents.end()) {
            Inode* i  = newInode(I_DIR, 0755);
            i->nlink  = 1;
            i->parent = cur;
            cur->ents[SS(c[k])] = i;
            jlink(cur, c[k], i);
            cur = i;
        }
        else cur = it->second;
    }
}
void fs_put(const std::string& path, const std::string& content) {
    size_t s = path.rfind('/');
    fs_mkdirs(path.substr(0, s));
    Inode* par;
    std::string last;
    Inode* i = lookup(path, true, &par, &last);
    if (!i) {
        i         = newInode(I_FILE, 0644);
        i->nlink  = 1;
        i->parent = par;
        par->ents[SS(last)] = i;
        jlink(par, last, i);
    }
    i->data.assign(content.begin(), content.end());
    i->dur = i->data;
    i->pend.clear();
    i->mtime = rt();
    i->exempt = path.compare(0, 9, "/sim/etc/") == 0;
}
bool fs_get(const std::string& path, std::string& content) {
    Inode* i = lookup(path);
    if (!i || i->type != I_FILE) return false;
    content.assign(i->data.begin(), i->data.end());
    return true;
}
bool fs_exists(const std::string& path) { return lookup(path) != nullptr; }
static void tree(Inode* d, const std::string& p, std::map<std::string, std::string>& out, bool content) {
    for (auto& e : d->ents) {
        std::string q = p + "/" + S(e.first);
        Inode* i = e.second;
        if (i->type == I_DIR) { out[q] = "dir"; tree(i, q, out, content); }
        else if (i->type == I_LINK) out[q] = "link:" + S(i->link);
        else if (content) out[q] = std::string(i->data.begin(), i->data.end());
        else out[q] = std::to_string(i->data.size()) + ":" + std::to_string(hbuf(i->data.data(), i->data.size()));
    }
}
void fs_tree(const std::string& path, std::map<std::string, std::string>& out, bool content) {
    out.clear();
    Inode* i = lookup(path);
    if (i && i->type == I_DIR) tree(i, path, out, content);
}
void fs_remove_tree(const std::string& path) {
    Inode* par;
    std::string last;
    Inode* i = lookup(path, false, &par, &last);
    if (!i || !par) return;
    if (i->type == I_DIR)
        for (auto& n : fs_list(i)) fs_remove_tree(path + "/" + n);
    par->ents.erase(SS(last));
    i->nlink--;
    junlink(par, last);
}

// ------------------------------------------------------------------ network
static void netWake() { wake(&NETKEY, true, 1000); }
static Sock* newSock() {
    Sock* s = sh_new<Sock>();
    s->id   = W->nextSock++;
    s->proc = self->proc;
    W->socks->push_back(s);
    return s;
}
static int sockFd(Sock* s) {
    Ofd* o  = sh_new<Ofd>();
    o->kind = K_SOCK;
    o->sock = s;
    o->refs = 1;
    o->path = "sock" ;
    s->refs++;
    int fd = fd_alloc(o);
    if (fd < 0) ofd_unref(o);
    return fd;
}
static void schedule(uint64_t at) {
    if (!W->nextNet || at < W->nextNet) W->nextNet = at;
}
static uint64_t latency(Sock* to) {
    if (to->pipe) return W->clock;
    uint64_t l = W->latMin + W->rnet.below(W->latMax - W->latMin + 1);
    uint64_t t = std::max(W->clock + l, to->lastAt);
    t = std::max(t, to->holdUntil);
    to->lastAt = t;
    return t;
}
void net_tick() {
    // wake everything that may have become ready; find the next delivery
    uint64_t next = 0;
    auto cons = [&](uint64_t t) { if (t > W->clock && (!next || t < next)) next = t; };
    for (Sock* s : *W->socks) {
        if (!s->refs) continue;
        for (auto& g : s->in) cons(g.at);
        if (s->finAt) cons(s->finAt);
        if (s->rstAt) cons(s->rstAt);
        if (s->connectAt) cons(s->connectAt);
    }
    W->nextNet = next;
    if (self) netWake();
    else
        for (int i = 0; i < W->ntasks; i++) {
            Task& t = W->tasks[i];
            if (t.st == T_BLOCKED && t.key == &NETKEY) { t.st = T_READY; t.key = nullptr; t.wake = 0; }
        }
}
static void sockUnref(Sock* s) {
    if (--s->refs > 0) return;
    if (s->listening) {
        for (Sock* b : s->backlog) net_reset(b);
        auto it = W->ports->find(s->port);
        if (it != W->ports->end() && it->second == s) W->ports->erase(it);
    }
    if (s->peer && s->connected) {
        Sock* p = s->peer;
        bool unread = false;
        for (auto& g : s->in) if (g.at <= W->clock) unread = true;
        if (unread && !s->pipe) { p->rstAt = latency(p); schedule(p->rstAt); }
        else { p->finAt = latency(p); schedule(p->finAt); }
    }
    s->connected = false;
    s->in.clear();
    netWake();
}
int net_socket() { point(OP_NETMISC, 1); return sockFd(newSock()); }
static Sock* sk(int fd) {
    Ofd* o = fd_get(fd);
    if (!o) { errno = EBADF; return nullptr; }
    if (!o->sock) { errno = ENOTSOCK; return nullptr; }
    return o->sock;
}
int net_bind(int fd, int port) {
    point(OP_NETMISC, 2);
    Sock* s = sk(fd);
    if (!s) return -1;
    if (port == 0) port = W->nextPort++;
    if (W->ports->count(port)) return fail(EADDRINUSE);
    s->port = port;
    return 0;
}
int net_listen(int fd) {
    point(OP_NETMISC, 3);
    Sock* s = sk(fd);
    if (!s) return -1;
    if (!s->port) s->port = W->nextPort++;
    if (W->ports->count(s->port) && (*W->ports)[s->port] != s) return fail(EADDRINUSE);
    s->listening        = true;
    (*W->ports)[s->port] = s;
    return 0;
}
// a reset takes effect once it has arrived; what arrived before it can still be read
static bool isReset(Sock* s) {
    if (s->rstAt && s->rstAt <= W->clock) s->reset = true;
    return s->reset;
}
bool net_readable(Sock* s) {
    if (isReset(s)) return true;
    if (s->listening) {
        for (Sock* b : s->backlog) if (b->connectAt <= W->clock) return true;
        return false;
    }
    if (s->refused) return true;
    if (!s->in.empty() && s->in.front().at <= W->clock) return true;
    if (s->finAt && s->finAt <= W->clock && s->in.empty()) return true;
    return false;
}
bool net_writable(Sock* s) {
    if (isReset(s) || s->refused) return true;
    if (s->connecting) return s->connectAt <= W->clock;
    if (!s->connected) return true;
    return !s->peer || s->peer->inBytes < W->sockBuf;
}
int net_accept(int fd, int* peerPort) {
    point(OP_ACCEPT, fd);
    Sock* s = sk(fd);
    if (!s) return -1;
    int e = fault_for(OP_ACCEPT, nullptr, nullptr);
    if (e > 0) return fail(e);
    for (;;) {
        s = sk(fd);
        if (!s) return -1;
        for (auto it = s->backlog.begin(); it != s->backlog.end(); ++it)
            if ((*it)->connectAt <= W->clock) {
                Sock* n = *it;
                s->backlog.erase(it);
                n->refs--;
                n->proc = self->proc;
                if (peerPort) *peerPort = n->peerPort;
                return sockFd(n);
            }
        Ofd* o = fd_get(fd);
        if (o->flags & O_NONBLOCK) return fail(EAGAIN);
        block(&NETKEY, true, 0);
    }
}
int net_connect(int fd, int port) {
    point(OP_CONNECT, port);
    Sock* s = sk(fd);
    if (!s) return -1;
    int e = fault_for(OP_CONNECT, nullptr, nullptr);
    if (e > 0) return fail(e);
    Ofd* o = fd_get(fd);
    auto it = W->ports->find(port);
    if (it == W->ports->end()) { s->refused = false; return fail(ECONNREFUSED); }
    Sock* l = it->second;
    Sock* n = newSock();
    n->proc = l->proc;
    n->peer = s;
    s->peer = n;
    n->port = port;
    if (!s->port) s->port = W->nextPort++;
    n->peerPort = s->port;
    s->peerPort = port;
    n->connected = s->connected = true;
    n->refs      = 1;  // held by the backlog
    uint64_t t   = W->clock + W->latMin + W->rnet.below(W->latMax - W->latMin + 1);
    n->connectAt = t;
    s->connectAt = t;
    s->connecting = true;
    l->backlog.push_back(n);
    schedule(t);
    if (o->flags & O_NONBLOCK) return fail(EINPROGRESS);
    while (W->clock < t) block(&NETKEY, true, t);
    s->connecting = false;
    if (s->reset) return fail(ECONNRESET);
    return 0;
}
void net_reset(Sock* s) {
    for (Sock* k : {s, s->peer})
        if (k) {
            k->reset = true;
            while (!k->in.empty() && k->in.back().at > W->clock) {   // still under way: lost
                k->inBytes -= k->in.back().d.size() - k->in.back().off;
                k->in.pop_back();
            }
        }
    netWake();
}
ssize_t net_send(int fd, const void* b, size_t n, int flags) {
    Sock* s = sk(fd);
    if (!s) return -1;
    point(OP_SEND, (uint64_t(s->id) << 24) ^ n);
    s = sk(fd);
    if (!s) return -1;
    int e = fault_for(OP_SEND, nullptr, s);
    if (e > 0) return fail(e);
    if (e == -1 && n > 1) n = 1 + W->rfault.below(n - 1);
    size_t done = 0;
    while (done < n || n == 0) {
        s = sk(fd);
        if (!s) return -1;
        if (isReset(s)) return fail(ECONNRESET);
        if (s->wshut) return fail(EPIPE);
        if (!s->connected) return fail(s->finAt ? EPIPE : ENOTCONN);
        if (n == 0) return 0;
        Sock* p = s->peer;
        if (!p || p->refs == 0) {
            // peer has gone: this data is lost and provokes a reset
            s->reset = true;
            return n;
        }
        size_t room = W->sockBuf > p->inBytes ? W->sockBuf - p->inBytes : 0;
        if (!room) {
            Ofd* o = fd_get(fd);
            if (o->flags & O_NONBLOCK) { if (done) return done; return fail(EAGAIN); }
            block(&NETKEY, true, 0);
            continue;
        }
        size_t m = std::min(room, n - done);
        if (W->segSplit > 0 && m > 1 && W->rnet.chance(W->segSplit)) m = 1 + W->rnet.below(m - 1);
        Seg g;
        g.at = latency(p);
        g.d.assign((const char*)b + done, (const char*)b + done + m);
        p->inBytes += m;
        schedule(g.at);
        p->in.push_back(std::move(g));
        done += m;
        s->sent += m;
        if (s->pipe) netWake();
    }
    mix(hbuf(b, std::min<size_t>(n, 4096)));
    if (W->trace) logf("send sock%d n %zu h %lx", s->id, n, W->traceHash);
    return n;
}
ssize_t net_recv(int fd, void* b, size_t n, int flags) {
    Sock* s = sk(fd);
    if (!s) return -1;
    point(OP_RECV, (uint64_t(s->id) << 24) ^ n);
    s = sk(fd);
    if (!s) return -1;
    int e = fault_for(OP_RECV, nullptr, s);
    if (e > 0) return fail(e);
    for (;;) {
        s = sk(fd);
        if (!s) return -1;
        if (!s->in.empty() && s->in.front().at <= W->clock) {
            size_t done = 0;
            bool shortr = W->shortReadP > 0 && n > 1 && !(flags & MSG_WAITALL) && W->rnet.chance(W->shortReadP);
            size_t lim  = shortr ? 1 + W->rnet.below(n - 1) : n;
            while (done < lim && !s->in.empty() && s->in.front().at <= W->clock) {
                Seg& g   = s->in.front();
                size_t m = std::min(lim - done, g.d.size() - g.off);
                memcpy((char*)b + done, g.d.data() + g.off, m);
                if (flags & MSG_PEEK) { done += m; break; }
                g.off += m;
                done += m;
                s->inBytes -= m;
                if (g.off == g.d.size()) s->in.pop_front();
            }
            netWake();
            if (W->trace) logf("recv sock%d n %zu -> %zu", s->id, n, done);
            return done;
        }
        if (isReset(s)) return fail(ECONNRESET);
        if (s->finAt && s->finAt <= W->clock && s->in.empty()) return 0;
        if (!s->connected) return s->rfin ? 0 : fail(ENOTCONN);
        if (s->rfin) return 0;
        Ofd* o = fd_get(fd);
        if ((o->flags & O_NONBLOCK) || (flags & MSG_DONTWAIT)) return fail(EAGAIN);
        block(&NETKEY, true, 0);
    }
}
int net_shutdown(int fd, int how) {
    point(OP_NETMISC, 4);
    Sock* s = sk(fd);
    if (!s) return -1;
    if (!s->connected) return fail(ENOTCONN);
    if (how == SHUT_WR || how == SHUT_RDWR) {
        s->wshut = true;
        if (s->peer && s->peer->refs) { s->peer->finAt = latency(s->peer); schedule(s->peer->finAt); }
    }
    if (how == SHUT_RD || how == SHUT_RDWR) { s->rfin = true; }
    netWake();
    return 0;
}
int net_pair(int fds[2]) {
    Sock *a = newSock(), *b = newSock();
    a->peer = b; b->peer = a;
    a->connected = b->connected = true;
    a->pipe = b->pipe = true;
    fds[0] = sockFd(a);
    fds[1] = sockFd(b);
    return 0;
}
int net_poll(struct pollfd* p, int n, int64_t timeoutUs) {
    point(OP_NETMISC, 5 + n);
    uint64_t dl = timeoutUs < 0 ? 0 : W->clock + timeoutUs;
    for (;;) {
        int r = 0;
        for (int k = 0; k < n; k++) {
            p[k].revents = 0;
            if (p[k].fd < 0) continue;
            Ofd* o = fd_get(p[k].fd);
            if (!o) { p[k].revents = POLLNVAL; r++; continue; }
            if (o->sock) {
                if ((p[k].events & POLLIN) && (net_readable(o->sock) || o->sock->rfin)) p[k].revents |= POLLIN;
                if ((p[k].events & POLLOUT) && net_writable(o->sock)) { p[k].revents |= POLLOUT; }
                if (isReset(o->sock)) p[k].revents |= POLLERR;
            }
            else p[k].revents = p[k].events & (POLLIN | POLLOUT);
            if (p[k].revents) r++;
        }
        if (r) return r;
        if (timeoutUs == 0) return 0;
        if (dl && W->clock >= dl) return 0;
        block(&NETKEY, true, dl);
    }
}

}  // namespace sim
