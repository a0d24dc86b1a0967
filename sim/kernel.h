// Deterministic simulation kernel: simulated processes, threads, clock, files and network in one
// shared-memory arena.  Exactly one task of one simulated process runs at any time (the token holder), so the
// state below needs no locking, and a run is a function of the seed and the plan.
#pragma once
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/select.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace sim {

// ------------------------------------------------------------------ shared arena
constexpr uintptr_t ARENA_BASE = 0x200000000000ULL;
constexpr size_t ARENA_SIZE    = 3ULL << 30;

void* sh_alloc(size_t n);
void sh_free(void* p, size_t n);

template <class T>
struct ShA {
    using value_type = T;
    ShA() = default;
    template <class U>
    ShA(const ShA<U>&) {}
    T* allocate(size_t n) { return static_cast<T*>(sh_alloc(n * sizeof(T))); }
    void deallocate(T* p, size_t n) { sh_free(p, n * sizeof(T)); }
    template <class U>
    bool operator==(const ShA<U>&) const { return true; }
    template <class U>
    bool operator!=(const ShA<U>&) const { return false; }
};
using sstr = std::basic_string<char, std::char_traits<char>, ShA<char>>;
template <class T> using svec = std::vector<T, ShA<T>>;
template <class T> using sdeq = std::deque<T, ShA<T>>;
template <class K, class V, class C = std::less<>> using smap = std::map<K, V, C, ShA<std::pair<const K, V>>>;
template <class K, class C = std::less<>> using sset = std::set<K, C, ShA<K>>;
template <class T, class... A> T* sh_new(A&&... a) { return new (sh_alloc(sizeof(T))) T(std::forward<A>(a)...); }
template <class T> void sh_del(T* p) { if (p) { p->~T(); sh_free(p, sizeof(T)); } }
inline std::string S(const sstr& s) { return std::string(s.data(), s.size()); }
inline sstr SS(const std::string& s) { return sstr(s.data(), s.size()); }

// ------------------------------------------------------------------ randomness
struct Rng {
    uint64_t s = 1;
    void seed(uint64_t a, uint64_t stream) { s = a * 0x9E3779B97F4A7C15ULL + stream * 0xD1342543DE82EF95ULL + 0x1234567; for (int i = 0; i < 4; i++) next(); }
    uint64_t next() { uint64_t z = (s += 0x9E3779B97F4A7C15ULL); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL; z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL; return z ^ (z >> 31); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int lo, int hi) { return lo + int(below(uint64_t(hi - lo + 1))); }
    bool chance(double p) { return double(next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class C> auto& pick(C& c) { return c[below(c.size())]; }
};

// ------------------------------------------------------------------ operations (points of preemption and fault)
enum Op : uint8_t {
    OP_NONE, OP_OPEN, OP_CREATE, OP_READ, OP_WRITE, OP_SYNC, OP_TRUNC, OP_CLOSE, OP_STAT, OP_READDIR, OP_MKDIR, OP_RMDIR, OP_UNLINK,
    OP_RENAME, OP_CHMOD, OP_MISC, OP_CONNECT, OP_ACCEPT, OP_SEND, OP_RECV, OP_NETMISC, OP_LOCK, OP_UNLOCK, OP_COND, OP_THREAD,
    OP_SLEEP, OP_FORK, OP_WAIT, OP_BB, OP_EXIT, OP_MARK, OP_NOPS
};
extern const char* opName[];

// ------------------------------------------------------------------ faults
enum FaultKind : uint8_t {
    FK_CRASH,      // kill one process (arg: 0 before the operation, 1 after it)
    FK_POWER,      // machine loses power: every process dies, unsynchronised writes survive as a random prefix
    FK_IOERR,      // operation fails with errno arg
    FK_SHORT,      // write or read transfers only part
    FK_EINTR,      // operation interrupted
    FK_NOSPC,      // disk full from this write on, for arg writes
    FK_RESET,      // the connection used is reset
    FK_STALL,      // process does not run for arg microseconds
    FK_CLOCK,      // wall clock jumps by arg (signed) seconds
    FK_PARTITION,  // nothing is delivered on any connection of the process for arg microseconds
    FK_NOMEM,
    FK_NKINDS
};
extern const char* faultName[];
// which operations a fault counts
enum Cls : uint8_t { C_ANY, C_FS, C_FSMUT, C_WRITE, C_SYNC, C_READ, C_META, C_OPENW, C_OPENR, C_NET, C_SEND, C_RECV, C_CONNECT, C_UNLINK, C_ALLFS, C_NCLS };
extern const char* clsName[];

struct Fault {
    FaultKind kind;
    int role;      // role of the process it hits (-1: any process but the driver)
    Cls cls;       // operations counted
    uint64_t nth;  // fires at the nth such operation (1-based) of that role
    int64_t arg  = 0;
    int64_t arg2 = 0;
    bool enabled = true;
    uint64_t seen = 0;
    uint32_t fired = 0;
    uint64_t at = 0;  // step at which it fired
};

// ------------------------------------------------------------------ files
enum IType : uint8_t { I_FILE, I_DIR, I_LINK };
struct Pend { int64_t off; bool trunc; svec<char> d; };
struct RLock { int proc; void* ofd; int64_t a, b; bool ex; };
struct Inode {
    uint64_t ino = 0;
    IType type   = I_FILE;
    uint32_t mode = 0644;
    int nlink = 0, opens = 0;
    Inode* parent = nullptr;
    svec<char> data;
    smap<sstr, Inode*> ents;
    sstr link;
    int64_t mtime = 0, ctime = 0, atime = 0;
    uint32_t uid = 0;
    // durability
    svec<char> dur;
    svec<Pend> pend;
    svec<RLock> locks;
    bool exempt  = false;  // no read faults: configuration files (eckit's YAML parser does not end after a read error)
    bool protect = false;  // content outside any database, watched for unwanted change
};
struct Meta {  // one directory operation, in order
    int kind;  // 1 link name->ino, 2 unlink name, 3 rename dir2/name2 to dir/name
    Inode* dir; sstr name; Inode* ino;
    Inode* dir2 = nullptr; sstr name2;
};

// ------------------------------------------------------------------ network
struct Seg { uint64_t at; svec<char> d; size_t off = 0; };
struct Sock {
    int id = 0;
    bool listening = false, connected = false, connecting = false, reset = false, wshut = false, rfin = false, refused = false;
    int port = 0, peerPort = 0;
    int proc = 0;  // creating process
    Sock* peer = nullptr;
    sdeq<Seg> in;
    size_t inBytes = 0;
    uint64_t finAt = 0, connectAt = 0, lastAt = 0, rstAt = 0;
    sdeq<Sock*> backlog;
    int refs = 0;
    uint64_t sent = 0;
    bool pipe = false;
    uint64_t holdUntil = 0;
};

// ------------------------------------------------------------------ descriptors, processes, tasks
enum FKind : uint8_t { K_FILE, K_DIR, K_SOCK };
struct Ofd { FKind kind; int refs = 0; Inode* ino = nullptr; int64_t off = 0; int flags = 0; Sock* sock = nullptr; sstr path; };

enum TState : uint8_t { T_FREE, T_READY, T_BLOCKED, T_DEAD };
struct Task {
    int id = 0, proc = 0;
    TState st = T_FREE;
    volatile uint32_t futex = 0;
    uint64_t wake = 0;  // deadline while blocked (0: none)
    const void* key = nullptr;
    bool keyShared = false, timedOut = false;
    uint64_t prio = 0;
    uint64_t bseq = 0;
    Op lastOp = OP_NONE;
    int fresh = 0;   // points for which a new thread goes before all others
};
struct Proc {
    int vpid = 0, parent = 0, idx = 0;
    pid_t real = 0;
    bool alive = false, reaped = false, killed = false;
    int code = 0, sig = 0;
    int role = -1;
    sstr name, note;
    smap<int, Ofd*> fds;
    uint64_t stallUntil = 0;
    int live = 0;         // threads
    uint64_t quiet = 0;   // lock operations since the last point, while it has one thread
    bool eager = false;   // new threads start at once
    uint64_t ops[OP_NOPS] = {};
    uint64_t rng = 0;
    int64_t rtOff = 0;
};

struct Event { uint64_t step; uint64_t clock; sstr text; };

enum Policy : uint8_t { POL_RANDOM, POL_PCT, POL_SCRIPT, POL_SERIAL };

struct World {
    // allocator
    char* bump; char* top;
    void* freel[40];
    // identity
    uint64_t seed; uint64_t maxSteps;
    Rng rsched, rfault, rnet, rwork, rmisc, rclock;
    // tasks
    int ntasks, nlive; int live[4096]; Task tasks[4096];  // live: those not known to be dead, by id
    svec<Proc*>* procs;
    int current;
    pid_t pgid;
    // time
    uint64_t clock;      // microseconds since the start
    uint64_t nextNet;    // earliest pending network delivery
    int64_t rtJump;      // wall-clock offset, microseconds
    // schedule
    Policy policy; double pswitch; uint64_t bbMean; uint64_t bseq;
    svec<uint64_t>* changePoints; uint64_t prioLow;
    smap<uint64_t, int>* script;                    // step -> task, for POL_SCRIPT
    svec<std::pair<uint64_t, int>>* switches;       // preemptions taken
    bool recordSwitches;
    // fault plan
    svec<Fault>* faults;
    bool faultsOn;
    uint64_t noSpcLeft;
    int powerRequests; bool powerLost;
    uint64_t faultCount[FK_NKINDS];
    // storage
    Inode* root; uint64_t nextIno; bool trackDur, syncDrops; int syncLost; svec<Meta>* journal; size_t committed;
    svec<Inode*>* inodes;
    uint64_t fsCapacity, fsUsed;
    smap<sstr, int>* homeOf;              // directories of /sim that only the processes of one role have (another computer's disk)
    smap<sstr, uint64_t>* freeBytes;   // what statvfs reports under a directory
    svec<sstr>* escapes;
    double shortReadP;   // chance that a read transfers only part (always legal on sockets)
    // network
    svec<Sock*>* socks; smap<int, Sock*>* ports; int nextPort, nextSock;
    uint64_t latMin, latMax; double segSplit;
    size_t sockBuf;
    // accounting
    uint64_t steps, nswitches, traceHash, schedHash, opCount[OP_NOPS], bbPoints;
    bool ended; bool driverDone;
    int verdict;          // 0 none, 1 ok, 2 violation, 3 simulator error, 4 rejected
    sstr* message; sstr* vprop;
    svec<Event>* log; bool trace; bool keepLog;
    svec<sstr>* stats;    // free-form counters "name"
    smap<sstr, uint64_t>* counters;
    sset<uint64_t>* states;   // abstract states reached
    void* user;           // scenario model
    uint64_t stepsLimitHit;
    uint64_t hung;
    uint32_t nprocsStarted;
    bool deadlock;
    bool hangs;          // a hang is a violation (set once a scenario runs)
};
extern World* W;
extern bool forking;
extern __thread Task* self;

// ------------------------------------------------------------------ kernel interface
void world_init(uint64_t seed);
[[noreturn]] void world_end(int verdict, const std::string& msg);
int trace_fd();
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void mix(uint64_t v);

// scheduling
void point(Op op, uint64_t detail = 0);  // preemption point; may not return if the process is crashed here
bool block(const void* key, bool shared, uint64_t deadline);  // false: timed out
int wake(const void* key, bool shared, int n);
void sleep_until(uint64_t t);
uint64_t now();
[[noreturn]] void task_exit_token();   // current task is finished (thread end): hands the token over and returns to real exit
void task_finish();                    // as above but returns (thread goes on to really exit)
[[noreturn]] void proc_exit(int code, int sig);
void kill_proc(Proc* p, int sig);
int new_task(int proc);
void task_start(int id);               // first thing a new thread or process does
Proc* proc(int idx);
Proc* curproc();
Proc* new_proc(const std::string& name, int role, int parent);
int sim_fork(const char* name, int role);  // as fork(): 0 in the child; idx of the process in the parent
int spawn(const std::string& name, int role, const std::function<void()>& fn);
std::string describeTasks(int procIdx);   // what its threads wait for
bool wait_proc(int idx, uint64_t deadline);  // driver side
// one fault decision for an operation; returns errno (>0), 0, or <0 for special (-1 short)
int fault_for(Op op, Inode* i, Sock* s);
bool is_fs(Op);
void power_loss();
// set by the interposer, private to each process
extern void (*onResume)();

// ------------------------------------------------------------------ virtual file system (paths below /sim)
bool is_virtual(const char* path);
Inode* lookup(const std::string& path, bool follow = true, Inode** parent = nullptr, std::string* last = nullptr);
int fs_open(const char* path, int flags, mode_t mode);
ssize_t fs_read(int fd, void* buf, size_t n);
ssize_t fs_pread(int fd, void* buf, size_t n, int64_t off);
ssize_t fs_write(int fd, const void* buf, size_t n);
ssize_t fs_pwrite(int fd, const void* buf, size_t n, int64_t off);
int64_t fs_lseek(int fd, int64_t off, int whence);
int fs_close(int fd);
int fs_fsync(int fd, bool data);
int fs_ftruncate(int fd, int64_t n);
int fs_truncate(const char* path, int64_t n);
int fs_stat(const char* path, struct stat* st, bool follow);
int fs_fstat(int fd, struct stat* st);
int fs_access(const char* path, int mode);
int fs_mkdir(const char* path, mode_t mode);
int fs_rmdir(const char* path);
int fs_unlink(const char* path);
int fs_rename(const char* a, const char* b);
int fs_link(const char* a, const char* b);
int fs_symlink(const char* target, const char* path);
ssize_t fs_readlink(const char* path, char* buf, size_t n);
int fs_chmod(const char* path, mode_t m);
int fs_utime(const char* path);
bool fs_realpath(const std::string& path, std::string& out);
int fs_lock(int fd, int cmd, struct flock* l);
int fs_flock(int fd, int op);
int fd_alloc(Ofd* o, int min = 512);
Ofd* fd_get(int fd);
bool is_vfd(int fd);
int fd_dup(int fd, int to);
void ofd_unref(Ofd* o);
std::vector<std::string> fs_list(Inode* dir);
// driver-side helpers that bypass faults and scheduling
void fs_put(const std::string& path, const std::string& content);
void fs_mkdirs(const std::string& path);
bool fs_get(const std::string& path, std::string& content);
bool fs_exists(const std::string& path);
void fs_tree(const std::string& path, std::map<std::string, std::string>& out, bool content);  // path -> digest or content
void fs_remove_tree(const std::string& path);
void fs_sync_all();  // everything written so far is durable

// ------------------------------------------------------------------ network
int net_socket();
int net_bind(int fd, int port);
int net_listen(int fd);
int net_accept(int fd, int* peerPort);
int net_connect(int fd, int port);
ssize_t net_send(int fd, const void* b, size_t n, int flags);
ssize_t net_recv(int fd, void* b, size_t n, int flags);
int net_shutdown(int fd, int how);
int net_pair(int fds[2]);
bool net_readable(Sock* s);
bool net_writable(Sock* s);
int net_poll(struct pollfd* p, int n, int64_t timeoutUs);
void net_tick();
void net_reset(Sock* s);
extern char NETKEY;

// set errno on the calling thread
inline int fail(int e) { errno = e; return -1; }

}  // namespace sim
