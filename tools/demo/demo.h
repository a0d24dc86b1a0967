// Small helpers for the demonstrations: a scratch FDB, child processes, and hooks on C library calls.
#pragma once
#include <dlfcn.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cerrno>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <mutex>
#include <thread>
#include <vector>
#include "eckit/config/YAMLConfiguration.h"
#include "eckit/io/DataHandle.h"
#include "eckit/runtime/Main.h"
#include "fdb5/api/FDB.h"
#include "fdb5/api/helpers/ControlIterator.h"
#include "fdb5/api/helpers/FDBToolRequest.h"
#include "fdb5/api/helpers/ListIterator.h"
#include "fdb5/api/helpers/PurgeIterator.h"
#include "fdb5/api/helpers/WipeIterator.h"
#include "fdb5/config/Config.h"
#include "fdb5/database/FieldLocation.h"
#include "fdb5/database/Key.h"
#include "metkit/mars/MarsRequest.h"

namespace demo {
inline std::string dir() { static std::string d = getenv("DEMO_DIR"); return d; }
inline std::string root() { return dir() + "/root"; }
inline void put(const std::string& p, const std::string& s) { std::ofstream(p) << s; }
inline const char* SCHEMA =
    "param: Param;\nstep: Step;\ndate: Date;\ntime: Time;\nlevelist: Double;\n"
    "[ class, expver, stream=oper, date, time, domain?\n    [ type, levtype\n        [ step, levelist?, param ]]]\n";
inline fdb5::Config config(const std::string& extra = "", bool subToc = false, const std::string& schema = "") {
    std::string y = "---\ntype: local\nengine: toc\nschema: " + (schema.empty() ? dir() + "/schema" : schema) + "\nspaces:\n- handler: Default\n  roots:\n  - path: " + root() + "\n" + extra;
    eckit::LocalConfiguration user;
    if (subToc) user.set("useSubToc", true);
    return fdb5::Config(eckit::YAMLConfiguration(y), user);
}
using KV = std::vector<std::pair<std::string, std::string>>;
inline KV kv(const std::string& step, const std::string& param = "130", const std::string& type = "an", const std::string& expver = "0001", const std::string& levtype = "sfc") {
    return {{"class", "od"}, {"expver", expver}, {"stream", "oper"}, {"date", "20200101"}, {"time", "1200"}, {"type", type}, {"levtype", levtype}, {"step", step}, {"param", param}};
}
inline fdb5::Key key(const KV& v) { fdb5::Key k; for (auto& e : v) k.set(e.first, e.second); return k; }
inline metkit::mars::MarsRequest req(const KV& v) { metkit::mars::MarsRequest r("retrieve"); for (auto& e : v) r.setValue(e.first, e.second); return r; }
inline std::string dbdir(const std::string& expver = "0001") { return root() + "/od:" + expver + ":oper:20200101:1200:"; }
inline void archive(fdb5::FDB& f, const KV& v, const std::string& d) { f.archive(key(v), d.data(), d.size()); }
inline std::string get(const KV& v, fdb5::FDB* fdb = nullptr) {
    std::unique_ptr<fdb5::FDB> own;
    if (!fdb) { own.reset(new fdb5::FDB(config())); fdb = own.get(); }
    std::unique_ptr<eckit::DataHandle> h(fdb->retrieve(req(v)));
    if (!h) return "";
    h->openForRead();
    std::string s, b(100000, 0);
    long n;
    while ((n = h->read(&b[0], b.size())) > 0) s.append(b.data(), n);
    h->close();
    return s;
}
inline int listed(const KV& v, bool dedup = true) {
    fdb5::FDB f(config());
    auto it = f.list(fdb5::FDBToolRequest(req(v), v.empty(), {}), dedup ? fdb5::ListMode::Deduplicate : fdb5::ListMode::Full);
    fdb5::ListElement e;
    int n = 0;
    while (it.next(e)) n++;
    return n;
}
inline std::vector<std::string> files(const std::string& d) {
    std::vector<std::string> r;
    FILE* p = popen(("find '" + d + "' -type f 2>/dev/null | sort").c_str(), "r");
    char b[4096];
    while (fgets(b, sizeof b, p)) { std::string s(b); s.pop_back(); r.push_back(s); }
    pclose(p);
    return r;
}
inline int child(const std::function<void()>& fn) {   // exit status, or 1000 + signal
    pid_t p = fork();
    if (!p) {
        try { fn(); }
        catch (std::exception& e) { std::cerr << "child: " << e.what() << std::endl; _exit(77); }
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    return WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st);
}
inline pid_t start(const std::function<void()>& fn) {
    pid_t p = fork();
    if (!p) {
        try { fn(); }
        catch (std::exception& e) { std::cerr << "child: " << e.what() << std::endl; _exit(77); }
        _exit(0);
    }
    return p;
}
inline int finish(pid_t p) { int st; waitpid(p, &st, 0); return WIFSIGNALED(st) ? 1000 + WTERMSIG(st) : WEXITSTATUS(st); }
inline void flag(const std::string& n) { put(dir() + "/" + n, ""); }
inline bool waitFlag(const std::string& n, double s = 20) { for (int i = 0; i < s * 1000; i++) { if (!access((dir() + "/" + n).c_str(), F_OK)) return true; usleep(1000); } return false; }
[[noreturn]] inline void fail(const std::string& s) { std::cerr << "FAIL: " << s << std::endl; _exit(1); }
inline void check(bool ok, const std::string& s) { if (!ok) fail(s); }
inline std::string fdPath(int fd) { char b[4096]; ssize_t n = readlink(("/proc/self/fd/" + std::to_string(fd)).c_str(), b, sizeof b); return n > 0 ? std::string(b, n) : ""; }
inline bool ends(const std::string& s, const std::string& e) { return s.size() >= e.size() && s.compare(s.size() - e.size(), e.size(), e) == 0; }
// command-line tools of the build, and servers
inline int tool(const std::string& cmd) { return system(("/repo/_build/bin/" + cmd + " >" + dir() + "/tool.log 2>&1").c_str()); }
inline int freePort() {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    socklen_t n = sizeof a;
    bind(s, (sockaddr*)&a, n);
    getsockname(s, (sockaddr*)&a, &n);
    close(s);
    return ntohs(a.sin_port);
}
inline bool answers(int port) {
    int s = socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(port);
    bool ok = connect(s, (sockaddr*)&a, sizeof a) == 0;
    close(s);
    return ok;
}
inline pid_t server(const std::string& name, int port, const std::string& yaml) {
    std::string y = dir() + "/" + name + ".yaml", log = dir() + "/" + name + ".log";
    put(y, yaml);
    pid_t p = fork();
    if (!p) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        int fd = open(log.c_str(), O_CREAT | O_WRONLY, 0666);
        dup2(fd, 1);
        dup2(fd, 2);
        setenv("FDB5_CONFIG_FILE", y.c_str(), 1);
        setenv("FDB_WIPE_SECRET", "secret", 1);
        execl("/repo/_build/bin/fdb-server", "fdb-server", (char*)nullptr);
        _exit(127);
    }
    for (int i = 0; i < 2000; i++) {
        if (i > 20 && answers(port)) return p;
        usleep(10000);
    }
    std::cerr << "server " << name << " does not start" << std::endl;
    _exit(96);
}
struct Servers {
    int cat = freePort();
    std::vector<int> stores;
    std::vector<pid_t> pids;
    std::string croot() { return dir() + "/cat"; }
    std::string sroot(int i = 0) { return dir() + "/store" + std::to_string(i); }
    Servers(int nstores = 1, bool threaded = true) {
        setenv("FDB_WIPE_SECRET", "secret", 1);
        std::string thr = std::string("serverThreaded: ") + (threaded ? "true" : "false"), sch = "schema: " + dir() + "/schema\n", list;
        for (int i = 0; i < nstores; i++) {
            int p = freePort();
            stores.push_back(p);
            mkdir(sroot(i).c_str(), 0777);
            pids.push_back(server("store" + std::to_string(i), p, "---\ntype: store\nserverPort: " + std::to_string(p) + "\n" + thr + "\n" + sch + "spaces:\n- handler: Default\n  roots:\n  - path: " + sroot(i) + "\n"));
            list += "- default: \"localhost:" + std::to_string(p) + "\"\n";
        }
        mkdir(croot().c_str(), 0777);
        pids.push_back(server("catalogue", cat, "---\ntype: catalogue\nserverPort: " + std::to_string(cat) + "\n" + thr + "\nstores:\n" + list + sch + "spaces:\n- handler: Default\n  roots:\n  - path: " + croot() + "\n"));
    }
    ~Servers() { for (pid_t p : pids) { kill(p, SIGKILL); waitpid(p, nullptr, 0); } }
    fdb5::Config config() { return fdb5::Config(eckit::YAMLConfiguration("---\ntype: remote\nengine: remote\nstore: remote\nhost: localhost\nport: " + std::to_string(cat) + "\n")); }
};
// hooks: called before the real call; return an errno to fail with, or 0
struct Ev { const char* call; int fd; std::string path; const void* buf; size_t n; };
inline std::function<int(const Ev&)>& hook() { static std::function<int(const Ev&)> h; return h; }
inline int fire(const char* c, int fd, const std::string& p, const void* b = nullptr, size_t n = 0) {
    static thread_local bool in = false;
    if (in || !hook()) return 0;
    in = true;
    int r = hook()(Ev{c, fd, p, b, n});
    in = false;
    return r;
}
inline bool& slow() { static thread_local bool s = false; return s; }   // pauses after releasing a mutex
}  // namespace demo
#ifdef DEMO_HOOKS
#define REAL(name) reinterpret_cast<decltype(&::name)>(dlsym(RTLD_NEXT, #name))
extern "C" {
ssize_t write(int fd, const void* b, size_t n) { static auto f = REAL(write); if (!demo::hook()) return f(fd, b, n); if (int e = demo::fire("write", fd, demo::fdPath(fd), b, n)) { errno = e; return -1; } ssize_t r = f(fd, b, n); demo::fire("written", fd, demo::fdPath(fd), b, n); return r; }
int fdatasync(int fd) { static auto f = REAL(fdatasync); if (demo::hook()) if (int e = demo::fire("fdatasync", fd, demo::fdPath(fd))) { errno = e; return -1; } return f(fd); }
int fsync(int fd) { static auto f = REAL(fsync); if (demo::hook()) if (int e = demo::fire("fsync", fd, demo::fdPath(fd))) { errno = e; return -1; } return f(fd); }
int unlink(const char* p) { static auto f = REAL(unlink); if (demo::hook()) if (int e = demo::fire("unlink", -1, p)) { errno = e; return -1; } return f(p); }
int open(const char* p, int flags, ...) { static auto f = REAL(open); va_list a; va_start(a, flags); int m = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a);
    if (demo::hook()) if (int e = demo::fire(flags & O_CREAT ? "create" : "open", -1, p)) { errno = e; return -1; } return f(p, flags, m); }
FILE* fopen(const char* p, const char* m) { static auto f = REAL(fopen); if (demo::hook()) if (int e = demo::fire("fopen", -1, p)) { errno = e; return nullptr; } FILE* r = f(p, m); if (demo::hook()) demo::fire(*m == 'r' ? "fopenedr" : "fopened", -1, p); return r; }
int pthread_mutex_unlock(pthread_mutex_t* m) { static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = f(m); if (demo::slow()) usleep(20000); return r; }
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
int open64(const char* p, int flags, ...) { va_list a; va_start(a, flags); int m = flags & O_CREAT ? va_arg(a, int) : 0; va_end(a); return open(p, flags, m); }
}
#endif
namespace demo { void run(); }
int main(int argc, char** argv) {
    eckit::Main::initialise(argc, argv);
    demo::put(demo::dir() + "/schema", demo::SCHEMA);
    mkdir(demo::root().c_str(), 0777);
    try { demo::run(); }
    catch (std::exception& e) { demo::fail(std::string("exception: ") + e.what()); }
    std::cout << "OK" << std::endl;
    _exit(0);
}
