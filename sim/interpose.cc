// Replacements for the C library calls through which FDB, eckit and libstdc++ reach files, sockets, threads, time
// and randomness.  In a simulated task they act on the simulation kernel; elsewhere they pass through.
#undef _FORTIFY_SOURCE
#include "kernel.h"
#include <aio.h>
#include <arpa/inet.h>
#include <dirent.h>
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <linux/futex.h>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdio_ext.h>
#include <stdlib.h>
#include <sys/file.h>
#include <sys/ioctl.h>
#include <sys/ipc.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/sem.h>
#include <sys/socket.h>
#include <sys/statvfs.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include <exception>
#include <list>
#include <algorithm>
#include <unordered_map>
#include <unordered_set>

using namespace sim;

#define REAL(name) ((decltype(&::name))realsym(#name))
static void* realsym(const char* n) {
    void* p = dlsym(RTLD_NEXT, n);
    if (!p) { const char m[] = "missing real symbol\n"; ssize_t r = ::syscall(SYS_write, 2, m, sizeof m); (void)r; _exit(99); }
    return p;
}
#define RF(ret, name, ...) static ret (*r)(__VA_ARGS__) = (ret(*)(__VA_ARGS__))realsym(#name)

static long rsys(long n, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
    long ret;
    register long r10 __asm__("r10") = d;
    register long r8 __asm__("r8")   = e;
    register long r9 __asm__("r9")   = f;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = -ret; return -1; }
    return ret;
}
static inline bool on() { return self != nullptr; }

[[noreturn]] static void unsupported(const char* what) { world_end(3, std::string("unsupported call: ") + what); }

static bool escape(const char* what, const char* path) {
    // attempt to change the real file system: refused and recorded
    if (!path) return true;
    if (!strcmp(path, "/dev/null") || !strcmp(path, "/dev/stdout") || !strcmp(path, "/dev/stderr") || !strncmp(path, "/proc/", 6)) return false;
    W->escapes->push_back(SS(std::string(what) + " " + path));
    logf("ESCAPE %s %s", what, path);
    return true;
}

// ------------------------------------------------------------------ private per-process state
struct SimThread { int task; bool done = false, detached = false; void* ret = nullptr; };
static std::map<pthread_t, SimThread>* threads() { static auto* m = new std::map<pthread_t, SimThread>; return m; }
static std::vector<std::pair<pthread_t, long>>* zombies() { static auto* z = new std::vector<std::pair<pthread_t, long>>; return z; }
static std::unordered_map<FILE*, int>* files() { static auto* m = new std::unordered_map<FILE*, int>; return m; }

static void drainZombies() {
    auto* z = zombies();
    if (z->empty()) return;
    int e = errno;
    static auto rj = REAL(pthread_join);
    // every exiting thread must really be gone before anything else runs; its identifier may only be reused once
    // the simulated join or detach has happened
    std::vector<std::pair<pthread_t, long>> v, keep;
    v.swap(*z);
    for (auto& t : v) {
        if (!threads()->count(t.first)) { rj(t.first, nullptr); continue; }
        if (t.second) while (rsys(SYS_tgkill, rsys(SYS_getpid), t.second, 0) == 0) rsys(SYS_sched_yield);
        keep.push_back({t.first, 0});
    }
    z->insert(z->end(), keep.begin(), keep.end());
    errno = e;
}

namespace sim { extern void interpose_install(); }
void sim::interpose_install() { onResume = drainZombies; zombies(); threads(); files(); }

static long forkParent = 0;
extern "C" pid_t sim_real_fork() {
    RF(pid_t, fork, void);
    forkParent = rsys(SYS_getpid);
    forking = true;
    pid_t p = r();
    if (p == 0) zombies()->clear();   // forking ends when the child's task starts
    else forking = false;
    return p;
}

extern "C" {

// ------------------------------------------------------------------ files
static int do_open(const char* path, int flags, mode_t mode) {
    if (on()) {
        if (is_virtual(path)) return fs_open(path, flags, mode);
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))
            if (escape("open", path)) { errno = EACCES; return -1; }
    }
    return rsys(SYS_open, (long)path, flags, mode);
}
#define VARMODE mode_t mode = 0; if (flags & (O_CREAT | 020000000)) { va_list ap; va_start(ap, flags); mode = va_arg(ap, int); va_end(ap); }
int open(const char* path, int flags, ...) { VARMODE return do_open(path, flags, mode); }
int open64(const char* path, int flags, ...) { VARMODE return do_open(path, flags, mode); }
int __open_2(const char* path, int flags) { return do_open(path, flags, 0); }
int __open64_2(const char* path, int flags) { return do_open(path, flags, 0); }
int creat(const char* path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int creat64(const char* path, mode_t mode) { return do_open(path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
static int do_openat(int dfd, const char* path, int flags, mode_t mode) {
    if (on()) {
        if (path[0] == '/' || dfd == AT_FDCWD) { if (is_virtual(path)) return fs_open(path, flags, mode); }
        else if (is_vfd(dfd)) { Ofd* o = fd_get(dfd); if (!o) return fail(EBADF); return fs_open((S(o->path) + "/" + path).c_str(), flags, mode); }
        if ((flags & O_ACCMODE) != O_RDONLY || (flags & (O_CREAT | O_TRUNC)))
            if (escape("openat", path)) { errno = EACCES; return -1; }
    }
    return rsys(SYS_openat, dfd, (long)path, flags, mode);
}
int openat(int dfd, const char* path, int flags, ...) { VARMODE return do_openat(dfd, path, flags, mode); }
int openat64(int dfd, const char* path, int flags, ...) { VARMODE return do_openat(dfd, path, flags, mode); }
int __openat_2(int dfd, const char* path, int flags) { return do_openat(dfd, path, flags, 0); }

int close(int fd) { return on() && is_vfd(fd) ? fs_close(fd) : rsys(SYS_close, fd); }
ssize_t read(int fd, void* b, size_t n) { return on() && is_vfd(fd) ? fs_read(fd, b, n) : rsys(SYS_read, fd, (long)b, n); }
ssize_t __read_chk(int fd, void* b, size_t n, size_t) { return read(fd, b, n); }
ssize_t write(int fd, const void* b, size_t n) { return on() && is_vfd(fd) ? fs_write(fd, b, n) : rsys(SYS_write, fd, (long)b, n); }
ssize_t pread(int fd, void* b, size_t n, off_t o) { return on() && is_vfd(fd) ? fs_pread(fd, b, n, o) : rsys(SYS_pread64, fd, (long)b, n, o); }
ssize_t pread64(int fd, void* b, size_t n, off_t o) { return pread(fd, b, n, o); }
ssize_t pwrite(int fd, const void* b, size_t n, off_t o) { return on() && is_vfd(fd) ? fs_pwrite(fd, b, n, o) : rsys(SYS_pwrite64, fd, (long)b, n, o); }
ssize_t pwrite64(int fd, const void* b, size_t n, off_t o) { return pwrite(fd, b, n, o); }
ssize_t readv(int fd, const struct iovec* v, int c) {
    if (!(on() && is_vfd(fd))) return rsys(SYS_readv, fd, (long)v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { ssize_t m = read(fd, v[i].iov_base, v[i].iov_len); if (m < 0) return t ? t : -1; t += m; if (size_t(m) < v[i].iov_len) break; }
    return t;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    if (!(on() && is_vfd(fd))) return rsys(SYS_writev, fd, (long)v, c);
    ssize_t t = 0;
    for (int i = 0; i < c; i++) { if (!v[i].iov_len) continue; ssize_t m = write(fd, v[i].iov_base, v[i].iov_len); if (m < 0) return t ? t : -1; t += m; if (size_t(m) < v[i].iov_len) break; }
    return t;
}
off_t lseek(int fd, off_t o, int w) { return on() && is_vfd(fd) ? fs_lseek(fd, o, w) : rsys(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) { return lseek(fd, o, w); }
int ftruncate(int fd, off_t n) { return on() && is_vfd(fd) ? fs_ftruncate(fd, n) : rsys(SYS_ftruncate, fd, n); }
int ftruncate64(int fd, off64_t n) { return ftruncate(fd, n); }
int truncate(const char* p, off_t n) {
    if (on()) { if (is_virtual(p)) return fs_truncate(p, n); if (escape("truncate", p)) return fail(EACCES); }
    return rsys(SYS_truncate, (long)p, n);
}
int truncate64(const char* p, off64_t n) { return truncate(p, n); }
int fsync(int fd) { return on() && is_vfd(fd) ? fs_fsync(fd, false) : rsys(SYS_fsync, fd); }
int fdatasync(int fd) { return on() && is_vfd(fd) ? fs_fsync(fd, true) : rsys(SYS_fdatasync, fd); }

int stat(const char* p, struct stat* s) { return on() && is_virtual(p) ? fs_stat(p, s, true) : rsys(SYS_stat, (long)p, (long)s); }
int lstat(const char* p, struct stat* s) { return on() && is_virtual(p) ? fs_stat(p, s, false) : rsys(SYS_lstat, (long)p, (long)s); }
int fstat(int fd, struct stat* s) { return on() && is_vfd(fd) ? fs_fstat(fd, s) : rsys(SYS_fstat, fd, (long)s); }
int stat64(const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int lstat64(const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
int fstat64(int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
int __xstat(int, const char* p, struct stat* s) { return stat(p, s); }
int __lxstat(int, const char* p, struct stat* s) { return lstat(p, s); }
int __fxstat(int, int fd, struct stat* s) { return fstat(fd, s); }
int __xstat64(int, const char* p, struct stat64* s) { return stat(p, (struct stat*)s); }
int __lxstat64(int, const char* p, struct stat64* s) { return lstat(p, (struct stat*)s); }
int __fxstat64(int, int fd, struct stat64* s) { return fstat(fd, (struct stat*)s); }
int fstatat(int dfd, const char* p, struct stat* s, int fl) {
    if (on()) {
        if (p[0] == '/' || dfd == AT_FDCWD) { if (is_virtual(p)) return fs_stat(p, s, !(fl & AT_SYMLINK_NOFOLLOW)); }
        else if (is_vfd(dfd)) { Ofd* o = fd_get(dfd); if (!o) return fail(EBADF); return fs_stat((S(o->path) + "/" + p).c_str(), s, !(fl & AT_SYMLINK_NOFOLLOW)); }
    }
    return rsys(SYS_newfstatat, dfd, (long)p, (long)s, fl);
}
int fstatat64(int dfd, const char* p, struct stat64* s, int fl) { return fstatat(dfd, p, (struct stat*)s, fl); }
int access(const char* p, int m) { return on() && is_virtual(p) ? fs_access(p, m) : rsys(SYS_access, (long)p, m); }
int faccessat(int dfd, const char* p, int m, int fl) { return on() && is_virtual(p) ? fs_access(p, m) : rsys(SYS_faccessat, dfd, (long)p, m, fl); }

#define MUT1(name, vcall, rcall) if (on()) { if (is_virtual(p)) return vcall; if (escape(name, p)) return fail(EACCES); } return rcall
int mkdir(const char* p, mode_t m) { MUT1("mkdir", fs_mkdir(p, m), rsys(SYS_mkdir, (long)p, m)); }
int rmdir(const char* p) { MUT1("rmdir", fs_rmdir(p), rsys(SYS_rmdir, (long)p)); }
int unlink(const char* p) { MUT1("unlink", fs_unlink(p), rsys(SYS_unlink, (long)p)); }
int remove(const char* p) {
    if (on()) {
        if (is_virtual(p)) { int r = fs_unlink(p); if (r < 0 && errno == EISDIR) return fs_rmdir(p); return r; }
        if (escape("remove", p)) return fail(EACCES);
    }
    RF(int, remove, const char*);
    return r(p);
}
int unlinkat(int dfd, const char* p, int fl) {
    if (on()) {
        std::string q = p;
        if (p[0] != '/' && is_vfd(dfd)) { Ofd* o = fd_get(dfd); if (!o) return fail(EBADF); q = S(o->path) + "/" + p; }
        if (is_virtual(q.c_str())) return fl & AT_REMOVEDIR ? fs_rmdir(q.c_str()) : fs_unlink(q.c_str());
        if (escape("unlinkat", p)) return fail(EACCES);
    }
    return rsys(SYS_unlinkat, dfd, (long)p, fl);
}
int rename(const char* p, const char* q) {
    if (on()) {
        if (is_virtual(p) && is_virtual(q)) return fs_rename(p, q);
        if (escape("rename", p)) return fail(EACCES);
    }
    return rsys(SYS_rename, (long)p, (long)q);
}
int link(const char* p, const char* q) {
    if (on()) { if (is_virtual(p) && is_virtual(q)) return fs_link(p, q); if (escape("link", q)) return fail(EACCES); }
    return rsys(SYS_link, (long)p, (long)q);
}
int symlink(const char* t, const char* p) { MUT1("symlink", fs_symlink(t, p), rsys(SYS_symlink, (long)t, (long)p)); }
ssize_t readlink(const char* p, char* b, size_t n) { return on() && is_virtual(p) ? fs_readlink(p, b, n) : rsys(SYS_readlink, (long)p, (long)b, n); }
char* realpath(const char* p, char* out) {
    if (on() && is_virtual(p)) {
        std::string r;
        if (!fs_realpath(p, r)) { if (!errno) errno = ENOENT; return nullptr; }
        if (!out) return strdup(r.c_str());
        strcpy(out, r.c_str());
        return out;
    }
    static auto r = (char* (*)(const char*, char*))dlvsym(RTLD_NEXT, "realpath", "GLIBC_2.3");
    return r(p, out);
}
char* getcwd(char* b, size_t n) {
    if (on()) {
        if (!b) return strdup("/sim/cwd");
        if (n < 9) { errno = ERANGE; return nullptr; }
        return strcpy(b, "/sim/cwd");
    }
    RF(char*, getcwd, char*, size_t);
    return r(b, n);
}
int chdir(const char* p) { if (on()) return 0; RF(int, chdir, const char*); return r(p); }
int chmod(const char* p, mode_t m) { MUT1("chmod", fs_chmod(p, m), rsys(SYS_chmod, (long)p, m)); }
int fchmod(int fd, mode_t m) { if (on() && is_vfd(fd)) { Ofd* o = fd_get(fd); if (!o || !o->ino) return fail(EBADF); o->ino->mode = m & 07777; return 0; } return rsys(SYS_fchmod, fd, m); }
int fchmodat(int dfd, const char* p, mode_t m, int fl) { MUT1("fchmodat", fs_chmod(p, m), rsys(SYS_fchmodat, dfd, (long)p, m)); }
int chown(const char* p, uid_t u, gid_t g) { if (on()) { if (is_virtual(p)) return fs_access(p, 0); if (escape("chown", p)) return fail(EACCES); } return rsys(SYS_chown, (long)p, u, g); }
int utime(const char* p, const struct utimbuf* t) { MUT1("utime", fs_utime(p), rsys(SYS_utime, (long)p, (long)t)); }
int utimes(const char* p, const struct timeval t[2]) { MUT1("utimes", fs_utime(p), rsys(SYS_utimes, (long)p, (long)t)); }
int utimensat(int dfd, const char* p, const struct timespec t[2], int fl) {
    if (on() && p) { if (is_virtual(p)) return fs_utime(p); if (escape("utimensat", p)) return fail(EACCES); }
    return rsys(SYS_utimensat, dfd, (long)p, (long)t, fl);
}
int statvfs(const char* p, struct statvfs* s) {
    if (on() && is_virtual(p)) {
        point(OP_STAT, 77);
        if (!lookup(p)) return -1;
        memset(s, 0, sizeof *s);
        s->f_bsize = s->f_frsize = 4096;
        s->f_blocks = 1 << 28;
        s->f_bfree = s->f_bavail = W->fsCapacity ? W->fsCapacity / 4096 : 1 << 27;
        for (auto& e : *W->freeBytes)
            if (!strncmp(p, e.first.c_str(), e.first.size())) s->f_bfree = s->f_bavail = e.second / 4096;
        s->f_namemax = 255;
        return 0;
    }
    RF(int, statvfs, const char*, struct statvfs*);
    return r(p, s);
}
int statvfs64(const char* p, struct statvfs64* s) { return statvfs(p, (struct statvfs*)s); }
long pathconf(const char* p, int n) {
    if (on() && is_virtual(p)) return n == _PC_NAME_MAX ? 255 : 4096;
    RF(long, pathconf, const char*, int);
    return r(p, n);
}
static int tmpCounter = 0;
int mkstemp(char* t) {
    if (!on()) { RF(int, mkstemp, char*); return r(t); }
    if (!is_virtual(t)) { if (escape("mkstemp", t)) return fail(EACCES); }
    size_t n = strlen(t);
    char b[16];
    snprintf(b, sizeof b, "%06d", (curproc()->vpid * 1000 + tmpCounter++) % 1000000);
    memcpy(t + n - 6, b, 6);
    return fs_open(t, O_CREAT | O_EXCL | O_RDWR, 0600);
}
char* mkdtemp(char* t) {
    if (!on()) { RF(char*, mkdtemp, char*); return r(t); }
    if (!is_virtual(t)) { if (escape("mkdtemp", t)) { errno = EACCES; return nullptr; } }
    size_t n = strlen(t);
    char b[16];
    snprintf(b, sizeof b, "%06d", (curproc()->vpid * 1000 + tmpCounter++) % 1000000);
    memcpy(t + n - 6, b, 6);
    return fs_mkdir(t, 0700) ? nullptr : t;
}
int fcntl(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (on() && is_vfd(fd)) {
        Ofd* o = fd_get(fd);
        if (!o) return fail(EBADF);
        switch (cmd) {
            case F_GETFL: return o->flags;
            case F_SETFL: o->flags = (o->flags & (O_ACCMODE | O_CREAT)) | (arg & (O_APPEND | O_NONBLOCK)); return 0;
            case F_GETFD: return 0;
            case F_SETFD: return 0;
            case F_DUPFD: case F_DUPFD_CLOEXEC: return fd_dup(fd, -1);
            case F_SETLK: case F_SETLKW: case F_GETLK: return fs_lock(fd, cmd, (struct flock*)arg);
            default: unsupported("fcntl");
        }
    }
    return rsys(SYS_fcntl, fd, cmd, arg);
}
int fcntl64(int fd, int cmd, ...) {
    va_list ap;
    va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    return fcntl(fd, cmd, arg);
}
int flock(int fd, int op) { return on() && is_vfd(fd) ? fs_flock(fd, op) : rsys(SYS_flock, fd, op); }
int dup(int fd) { return on() && is_vfd(fd) ? fd_dup(fd, -1) : rsys(SYS_dup, fd); }
int dup2(int fd, int to) { if (on() && is_vfd(fd)) return fd_dup(fd, to); return rsys(SYS_dup2, fd, to); }
int ioctl(int fd, unsigned long q, ...) {
    va_list ap;
    va_start(ap, q);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (on() && is_vfd(fd)) {
        if (q == FIONREAD) {
            Ofd* o = fd_get(fd);
            if (o && o->sock) { int m = 0; for (auto& g : o->sock->in) if (g.at <= W->clock) m += g.d.size() - g.off; *(int*)arg = m; return 0; }
        }
        return fail(ENOTTY);
    }
    return rsys(SYS_ioctl, fd, q, arg);
}
int isatty(int fd) { if (on()) { errno = ENOTTY; return 0; } RF(int, isatty, int); return r(fd); }
void* mmap(void* a, size_t n, int prot, int flags, int fd, off_t off) {
    if (on() && is_vfd(fd)) {
        Ofd* o = fd_get(fd);
        if (!o || !o->ino) { errno = EBADF; return MAP_FAILED; }
        if ((flags & MAP_SHARED) && (prot & PROT_WRITE)) unsupported("writable shared mapping");
        point(OP_READ, o->ino->ino);
        void* p = (void*)rsys(SYS_mmap, (long)a, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (p != MAP_FAILED && size_t(off) < o->ino->data.size()) memcpy(p, o->ino->data.data() + off, std::min<size_t>(n, o->ino->data.size() - off));
        return p;
    }
    return (void*)rsys(SYS_mmap, (long)a, n, prot, flags, fd, off);
}
void* mmap64(void* a, size_t n, int prot, int flags, int fd, off64_t off) { return mmap(a, n, prot, flags, fd, off); }

// ------------------------------------------------------------------ directories
struct VDir { int magic; int fd; size_t pos; std::vector<std::string>* names; std::vector<std::pair<uint64_t, unsigned char>>* meta; struct dirent ent; };
static std::unordered_set<void*>* vdirs() { static auto* s = new std::unordered_set<void*>; return s; }
static bool isVDir(DIR* d) { return on() && vdirs()->count(d); }
DIR* opendir(const char* p) {
    if (on() && is_virtual(p)) {
        int fd = fs_open(p, O_RDONLY | O_DIRECTORY, 0);
        if (fd < 0) return nullptr;
        VDir* d  = new VDir();
        d->fd    = fd;
        d->pos   = 0;
        d->names = nullptr;
        d->meta  = nullptr;
        vdirs()->insert(d);
        return (DIR*)d;
    }
    RF(DIR*, opendir, const char*);
    return r(p);
}
DIR* fdopendir(int fd) {
    if (on() && is_vfd(fd)) {
        VDir* d = new VDir();
        d->fd   = fd;
        d->pos  = 0;
        vdirs()->insert(d);
        return (DIR*)d;
    }
    RF(DIR*, fdopendir, int);
    return r(fd);
}
static struct dirent* vread(VDir* d) {
    if (!d->names) {
        Ofd* o = fd_get(d->fd);
        if (!o) { errno = EBADF; return nullptr; }
        point(OP_READDIR, o->ino->ino);
        int e = fault_for(OP_READDIR, o->ino, nullptr);
        if (e > 0) { errno = e; return nullptr; }
        d->names = new std::vector<std::string>{".", ".."};
        d->meta  = new std::vector<std::pair<uint64_t, unsigned char>>{{1, DT_DIR}, {1, DT_DIR}};
        std::vector<std::pair<uint64_t, Inode*>> order;
        std::vector<std::string> nm = fs_list(o->ino);
        // directory order is arbitrary: shuffle by a hash that depends on the seed
        std::vector<std::pair<uint64_t, std::string>> v;
        for (auto& n : nm) { uint64_t h = W->seed * 77 + o->ino->ino; for (char c : n) { h ^= (unsigned char)c; h *= 1099511628211ULL; h ^= h >> 31; } v.push_back({h, n}); }
        std::sort(v.begin(), v.end());
        for (auto& x : v) {
            Inode* i = o->ino->ents.find(SS(x.second))->second;
            d->names->push_back(x.second);
            d->meta->push_back({i->ino, (unsigned char)(i->type == I_DIR ? DT_DIR : i->type == I_LINK ? DT_LNK : DT_REG)});
        }
    }
    if (d->pos >= d->names->size()) return nullptr;
    memset(&d->ent, 0, sizeof d->ent);
    strncpy(d->ent.d_name, (*d->names)[d->pos].c_str(), sizeof d->ent.d_name - 1);
    d->ent.d_ino    = (*d->meta)[d->pos].first;
    d->ent.d_type   = (*d->meta)[d->pos].second;
    d->ent.d_reclen = sizeof d->ent;
    d->pos++;
    return &d->ent;
}
struct dirent* readdir(DIR* d) { if (isVDir(d)) return vread((VDir*)d); RF(struct dirent*, readdir, DIR*); return r(d); }
struct dirent64* readdir64(DIR* d) { if (isVDir(d)) return (struct dirent64*)vread((VDir*)d); RF(struct dirent64*, readdir64, DIR*); return r(d); }
int readdir_r(DIR* d, struct dirent* e, struct dirent** res) {
    if (isVDir(d)) {
        errno = 0;
        struct dirent* x = vread((VDir*)d);
        if (!x) { *res = nullptr; return errno; }
        *e   = *x;
        *res = e;
        return 0;
    }
    RF(int, readdir_r, DIR*, struct dirent*, struct dirent**);
    return r(d, e, res);
}
int readdir64_r(DIR* d, struct dirent64* e, struct dirent64** res) { return readdir_r(d, (struct dirent*)e, (struct dirent**)res); }
int closedir(DIR* d) {
    if (isVDir(d)) {
        VDir* v = (VDir*)d;
        vdirs()->erase(d);
        int fd = v->fd;
        delete v->names;
        delete v->meta;
        delete v;
        return fs_close(fd);
    }
    RF(int, closedir, DIR*);
    return r(d);
}
int dirfd(DIR* d) { if (isVDir(d)) return ((VDir*)d)->fd; RF(int, dirfd, DIR*); return r(d); }
void rewinddir(DIR* d) { if (isVDir(d)) { ((VDir*)d)->pos = 0; return; } RF(void, rewinddir, DIR*); r(d); }

// ------------------------------------------------------------------ stdio on virtual files
struct CFile { int fd; FILE* f; };
static ssize_t c_read(void* c, char* b, size_t n) {
    ssize_t m;
    m = fs_read(((CFile*)c)->fd, b, n);
    return m;
}
static ssize_t c_write(void* c, const char* b, size_t n) {
    size_t done = 0;
    while (done < n) {
        ssize_t m = fs_write(((CFile*)c)->fd, b + done, n - done);
        if (m < 0) return done;  // stdio sets the error flag; errno stays
        done += m;
    }
    return done;
}
static int c_seek(void* c, off64_t* o, int w) {
    off64_t r = fs_lseek(((CFile*)c)->fd, *o, w);
    if (r < 0) return -1;
    *o = r;
    return 0;
}
static int c_close(void* c) {
    CFile* f = (CFile*)c;
    files()->erase(f->f);
    int r = fs_close(f->fd);
    delete f;
    return r;
}
static FILE* vfdopen(int fd, const char* mode) {
    CFile* c = new CFile{fd, nullptr};
    cookie_io_functions_t io = {c_read, c_write, c_seek, c_close};
    RF(FILE*, fopencookie, void*, const char*, cookie_io_functions_t);
    FILE* f = r(c, mode, io);
    if (!f) return nullptr;
    c->f = f;
    __fsetlocking(f, FSETLOCKING_BYCALLER);
    (*files())[f] = fd;
    return f;
}
FILE* fopen(const char* p, const char* mode) {
    if (on()) {
        int fl;
        bool plus = strchr(mode, '+');
        if (mode[0] == 'r') fl = plus ? O_RDWR : O_RDONLY;
        else if (mode[0] == 'w') fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_TRUNC;
        else fl = (plus ? O_RDWR : O_WRONLY) | O_CREAT | O_APPEND;
        if (is_virtual(p)) {
            int fd = fs_open(p, fl, 0666 & ~022);
            if (fd < 0) return nullptr;
            return vfdopen(fd, mode);
        }
        if (mode[0] != 'r' || plus)
            if (escape("fopen", p)) { errno = EACCES; return nullptr; }
    }
    RF(FILE*, fopen, const char*, const char*);
    return r(p, mode);
}
FILE* fopen64(const char* p, const char* m) { return fopen(p, m); }
FILE* fdopen(int fd, const char* m) { if (on() && is_vfd(fd)) return vfdopen(fd, m); RF(FILE*, fdopen, int, const char*); return r(fd, m); }
int fileno(FILE* f) {
    if (on()) { auto it = files()->find(f); if (it != files()->end()) return it->second; }
    RF(int, fileno, FILE*);
    return r(f);
}
FILE* popen(const char*, const char*) { errno = EACCES; return nullptr; }
int system(const char*) { errno = EACCES; return -1; }
int execlp(const char*, const char*, ...) { errno = EACCES; return -1; }
int execvp(const char*, char* const*) { errno = EACCES; return -1; }

// ------------------------------------------------------------------ asynchronous I/O
struct Aio { ssize_t ret; int err; uint64_t ready; };
static std::unordered_map<const void*, Aio>* aios() { static auto* m = new std::unordered_map<const void*, Aio>; return m; }
static int aioStart(const struct aiocb* c, int op) {
    ssize_t n;
    errno = 0;
    if (op == 0) n = fs_pread(c->aio_fildes, (void*)c->aio_buf, c->aio_nbytes, c->aio_offset);
    else if (op == 1) n = fs_pwrite(c->aio_fildes, (const void*)c->aio_buf, c->aio_nbytes, c->aio_offset);
    else n = fs_fsync(c->aio_fildes, true);
    (*aios())[c] = Aio{n, n < 0 ? errno : 0, W->clock + W->rclock.below(2000)};
    return 0;
}
int aio_read(struct aiocb* c) { if (on() && is_vfd(c->aio_fildes)) return aioStart(c, 0); RF(int, aio_read, struct aiocb*); return r(c); }
int aio_write(struct aiocb* c) { if (on() && is_vfd(c->aio_fildes)) return aioStart(c, 1); RF(int, aio_write, struct aiocb*); return r(c); }
int aio_fsync(int op, struct aiocb* c) { if (on() && is_vfd(c->aio_fildes)) return aioStart(c, 2); RF(int, aio_fsync, int, struct aiocb*); return r(op, c); }
int aio_read64(struct aiocb64* c) { return aio_read((struct aiocb*)c); }
int aio_write64(struct aiocb64* c) { return aio_write((struct aiocb*)c); }
int aio_fsync64(int op, struct aiocb64* c) { return aio_fsync(op, (struct aiocb*)c); }
int aio_error(const struct aiocb* c) {
    if (on()) { auto it = aios()->find(c); if (it != aios()->end()) { point(OP_MISC, 3); return W->clock >= it->second.ready ? it->second.err : EINPROGRESS; } }
    RF(int, aio_error, const struct aiocb*);
    return r(c);
}
ssize_t aio_return(struct aiocb* c) {
    if (on()) {
        auto it = aios()->find(c);
        if (it != aios()->end()) { Aio a = it->second; if (a.err) errno = a.err; return a.ret; }
    }
    RF(ssize_t, aio_return, struct aiocb*);
    return r(c);
}
int aio_suspend(const struct aiocb* const l[], int n, const struct timespec* t) {
    if (on()) {
        point(OP_MISC, 4);
        for (;;) {
            uint64_t next = 0;
            for (int i = 0; i < n; i++)
                if (l[i]) {
                    auto it = aios()->find(l[i]);
                    if (it == aios()->end()) return 0;
                    if (it->second.ready <= W->clock) return 0;
                    if (!next || it->second.ready < next) next = it->second.ready;
                }
            if (!next) return fail(EAGAIN);
            sleep_until(next);
        }
    }
    RF(int, aio_suspend, const struct aiocb* const*, int, const struct timespec*);
    return r(l, n, t);
}
int aio_cancel(int fd, struct aiocb* c) { if (on() && is_vfd(fd)) return AIO_ALLDONE; RF(int, aio_cancel, int, struct aiocb*); return r(fd, c); }
int aio_error64(const struct aiocb64* c) { return aio_error((const struct aiocb*)c); }
ssize_t aio_return64(struct aiocb64* c) { return aio_return((struct aiocb*)c); }
int aio_suspend64(const struct aiocb64* const l[], int n, const struct timespec* t) { return aio_suspend((const struct aiocb* const*)l, n, t); }

// ------------------------------------------------------------------ sockets
static int portOf(const struct sockaddr* a) { return a->sa_family == AF_INET ? ntohs(((const struct sockaddr_in*)a)->sin_port) : 0; }
static void setAddr(struct sockaddr* a, socklen_t* l, int port) {
    if (!a || !l) return;
    struct sockaddr_in s;
    memset(&s, 0, sizeof s);
    s.sin_family      = AF_INET;
    s.sin_port        = htons(port);
    s.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    memcpy(a, &s, std::min<size_t>(*l, sizeof s));
    *l = sizeof s;
}
int socket(int d, int t, int p) {
    if (!on()) return rsys(SYS_socket, d, t, p);
    if (d != AF_INET || (t & 0xf) != SOCK_STREAM) { errno = EAFNOSUPPORT; return -1; }
    int fd = net_socket();
    if (fd >= 0 && (t & SOCK_NONBLOCK)) fd_get(fd)->flags |= O_NONBLOCK;
    return fd;
}
int bind(int fd, const struct sockaddr* a, socklen_t l) { return on() && is_vfd(fd) ? net_bind(fd, portOf(a)) : rsys(SYS_bind, fd, (long)a, l); }
int listen(int fd, int n) { return on() && is_vfd(fd) ? net_listen(fd) : rsys(SYS_listen, fd, n); }
int accept4(int fd, struct sockaddr* a, socklen_t* l, int fl) {
    if (on() && is_vfd(fd)) {
        int pp = 0;
        int n  = net_accept(fd, &pp);
        if (n >= 0) setAddr(a, l, pp);
        return n;
    }
    return rsys(SYS_accept4, fd, (long)a, (long)l, fl);
}
int accept(int fd, struct sockaddr* a, socklen_t* l) { return accept4(fd, a, l, 0); }
int connect(int fd, const struct sockaddr* a, socklen_t l) { return on() && is_vfd(fd) ? net_connect(fd, portOf(a)) : rsys(SYS_connect, fd, (long)a, l); }
ssize_t send(int fd, const void* b, size_t n, int fl) { return on() && is_vfd(fd) ? net_send(fd, b, n, fl) : rsys(SYS_sendto, fd, (long)b, n, fl, 0, 0); }
ssize_t sendto(int fd, const void* b, size_t n, int fl, const struct sockaddr* a, socklen_t l) { return on() && is_vfd(fd) ? net_send(fd, b, n, fl) : rsys(SYS_sendto, fd, (long)b, n, fl, (long)a, l); }
ssize_t recv(int fd, void* b, size_t n, int fl) { return on() && is_vfd(fd) ? net_recv(fd, b, n, fl) : rsys(SYS_recvfrom, fd, (long)b, n, fl, 0, 0); }
ssize_t recvfrom(int fd, void* b, size_t n, int fl, struct sockaddr* a, socklen_t* l) { return on() && is_vfd(fd) ? net_recv(fd, b, n, fl) : rsys(SYS_recvfrom, fd, (long)b, n, fl, (long)a, (long)l); }
int shutdown(int fd, int how) { return on() && is_vfd(fd) ? net_shutdown(fd, how) : rsys(SYS_shutdown, fd, how); }
int setsockopt(int fd, int l, int o, const void* v, socklen_t n) { return on() && is_vfd(fd) ? 0 : rsys(SYS_setsockopt, fd, l, o, (long)v, n); }
int getsockopt(int fd, int l, int o, void* v, socklen_t* n) {
    if (on() && is_vfd(fd)) {
        Ofd* f = fd_get(fd);
        if (!f) return fail(EBADF);
        if (!f->sock) return fail(ENOTSOCK);
        int val = 0;
        if (l == SOL_SOCKET && o == SO_ERROR) { val = f->sock->reset ? ECONNRESET : 0; if (f->sock->connecting && f->sock->connectAt <= W->clock) f->sock->connecting = false; }
        if (l == SOL_SOCKET && (o == SO_RCVBUF || o == SO_SNDBUF)) val = 65536;
        memcpy(v, &val, std::min<size_t>(*n, sizeof val));
        return 0;
    }
    return rsys(SYS_getsockopt, fd, l, o, (long)v, (long)n);
}
int getsockname(int fd, struct sockaddr* a, socklen_t* l) {
    if (on() && is_vfd(fd)) { Ofd* o = fd_get(fd); if (!o || !o->sock) return fail(ENOTSOCK); setAddr(a, l, o->sock->port); return 0; }
    return rsys(SYS_getsockname, fd, (long)a, (long)l);
}
int getpeername(int fd, struct sockaddr* a, socklen_t* l) {
    if (on() && is_vfd(fd)) { Ofd* o = fd_get(fd); if (!o || !o->sock) return fail(ENOTSOCK); if (!o->sock->connected) return fail(ENOTCONN); setAddr(a, l, o->sock->peerPort); return 0; }
    return rsys(SYS_getpeername, fd, (long)a, (long)l);
}
int pipe(int fds[2]) { return on() ? net_pair(fds) : rsys(SYS_pipe, (long)fds); }
int poll(struct pollfd* p, nfds_t n, int ms) { return on() ? net_poll(p, n, ms < 0 ? -1 : int64_t(ms) * 1000) : rsys(SYS_poll, (long)p, n, ms); }
int select(int n, fd_set* rd, fd_set* wr, fd_set* ex, struct timeval* tv) {
    if (!on()) return rsys(SYS_select, n, (long)rd, (long)wr, (long)ex, (long)tv);
    std::vector<struct pollfd> p;
    for (int i = 0; i < n; i++) {
        short ev = 0;
        if (rd && FD_ISSET(i, rd)) ev |= POLLIN;
        if (wr && FD_ISSET(i, wr)) ev |= POLLOUT;
        if (ev) p.push_back({i, ev, 0});
    }
    int64_t us = tv ? tv->tv_sec * 1000000LL + tv->tv_usec : -1;
    int r      = net_poll(p.data(), p.size(), us);
    if (rd) FD_ZERO(rd);
    if (wr) FD_ZERO(wr);
    if (ex) FD_ZERO(ex);
    int c = 0;
    if (r > 0)
        for (auto& q : p) {
            if (q.revents & POLLNVAL) return fail(EBADF);
            if (rd && (q.events & POLLIN) && (q.revents & (POLLIN | POLLERR))) { FD_SET(q.fd, rd); c++; }
            if (wr && (q.events & POLLOUT) && (q.revents & (POLLOUT | POLLERR))) { FD_SET(q.fd, wr); c++; }
        }
    return c;
}
static struct hostent theHost;
static struct hostent* fakeHost(const char* name) {
    static char addr[4] = {127, 0, 0, 1};
    static char* addrs[2] = {addr, nullptr};
    static char* aliases[1] = {nullptr};
    static char nm[256];
    strncpy(nm, name, 255);
    theHost.h_name      = nm;
    theHost.h_aliases   = aliases;
    theHost.h_addrtype  = AF_INET;
    theHost.h_length    = 4;
    theHost.h_addr_list = addrs;
    return &theHost;
}
struct hostent* gethostbyname(const char* n) { return fakeHost(n); }
struct hostent* gethostbyaddr(const void*, socklen_t, int) { return fakeHost("localhost"); }
int gethostname(char* b, size_t n) { if (on()) { snprintf(b, n, "simhost"); return 0; } RF(int, gethostname, char*, size_t); return r(b, n); }
struct FakeAI { struct addrinfo ai; struct sockaddr_in sa; char name[64]; };
int getaddrinfo(const char* node, const char* svc, const struct addrinfo* h, struct addrinfo** res) {
    FakeAI* f = (FakeAI*)calloc(1, sizeof(FakeAI));
    f->sa.sin_family      = AF_INET;
    f->sa.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    f->sa.sin_port        = svc ? htons(atoi(svc)) : 0;
    f->ai.ai_family       = AF_INET;
    f->ai.ai_socktype     = SOCK_STREAM;
    f->ai.ai_addrlen      = sizeof f->sa;
    f->ai.ai_addr         = (struct sockaddr*)&f->sa;
    strcpy(f->name, "localhost");
    f->ai.ai_canonname = f->name;
    *res               = &f->ai;
    return 0;
}
void freeaddrinfo(struct addrinfo* a) { free(a); }
struct servent* getservbyport(int, const char*) { return nullptr; }
struct servent* getservbyname(const char*, const char*) { return nullptr; }

// ------------------------------------------------------------------ processes
pid_t getpid(void) { return on() ? curproc()->vpid : rsys(SYS_getpid); }
pid_t getppid(void) { return on() ? (curproc()->parent >= 0 ? proc(curproc()->parent)->vpid : 1) : rsys(SYS_getppid); }
pid_t fork(void) {
    if (!on()) return sim_real_fork();
    point(OP_FORK);
    int i = sim_fork(nullptr, curproc()->role);
    return i == 0 ? 0 : proc(i)->vpid;
}
pid_t vfork(void) { return fork(); }
static pid_t vwait(pid_t pid, int* st, int opt) {
    point(OP_WAIT);
    Proc* me = curproc();
    for (;;) {
        bool any = false;
        for (Proc* p : *W->procs)
            if (p->parent == me->idx && !p->reaped && (pid <= 0 || p->vpid == pid)) {
                any = true;
                if (!p->alive) {
                    p->reaped = true;
                    if (st) *st = p->sig ? p->sig : p->code << 8;
                    return p->vpid;
                }
            }
        if (!any) return fail(ECHILD);
        if (opt & WNOHANG) return 0;
        block(&me->ops, true, 0);
    }
}
pid_t waitpid(pid_t p, int* st, int opt) { return on() ? vwait(p, st, opt) : rsys(SYS_wait4, p, (long)st, opt, 0); }
pid_t wait(int* st) { return waitpid(-1, st, 0); }
int kill(pid_t p, int sig) {
    if (!on()) return rsys(SYS_kill, p, sig);
    for (Proc* q : *W->procs)
        if (q->vpid == p) {
            if (!q->alive) return fail(ESRCH);
            if (sig) kill_proc(q, sig);
            return 0;
        }
    return fail(ESRCH);
}
void _exit(int c) {
    if (on()) proc_exit(c, 0);
    for (;;) rsys(SYS_exit_group, c);
}
void _Exit(int c) { _exit(c); }
void exit(int c) {
    if (on()) { logf("exit(%d)", c); proc_exit(c, 0); }
    static void (*r)(int) = (void (*)(int))realsym("exit");
    r(c);
    __builtin_unreachable();
}
int sigaction(int s, const struct sigaction* a, struct sigaction* o) {
    if (on()) { if (o) memset(o, 0, sizeof *o); return 0; }
    RF(int, sigaction, int, const struct sigaction*, struct sigaction*);
    return r(s, a, o);
}
sighandler_t signal(int s, sighandler_t h) { if (on()) return SIG_DFL; RF(sighandler_t, signal, int, sighandler_t); return r(s, h); }
unsigned alarm(unsigned) { return 0; }
int pause(void) { if (on()) { static char k; block(&k, false, 0); return -1; } return rsys(SYS_pause); }
int getrusage(__rusage_who_t who, struct rusage* u) { if (on()) { memset(u, 0, sizeof *u); return 0; } return rsys(SYS_getrusage, who, (long)u); }

// System V semaphores and shared memory: not used by the paths simulated
int semget(key_t k, int n, int f) { if (on()) unsupported("semget"); return rsys(SYS_semget, k, n, f); }
int semop(int i, struct sembuf* b, size_t n) { if (on()) unsupported("semop"); return rsys(SYS_semop, i, (long)b, n); }
int shmget(key_t k, size_t n, int f) { if (on()) unsupported("shmget"); return rsys(SYS_shmget, k, n, f); }
int shm_open(const char* n, int f, mode_t m) { if (on()) unsupported("shm_open"); RF(int, shm_open, const char*, int, mode_t); return r(n, f, m); }

// ------------------------------------------------------------------ time
static int64_t wallUs() { return 1700000000LL * 1000000 + int64_t(W->clock) + W->rtJump; }
int clock_gettime(clockid_t c, struct timespec* t) {
    if (!on()) return rsys(SYS_clock_gettime, c, (long)t);
    int64_t us = (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) ? wallUs() : int64_t(W->clock);
    t->tv_sec  = us / 1000000;
    t->tv_nsec = (us % 1000000) * 1000;
    return 0;
}
int gettimeofday(struct timeval* t, void* z) {
    if (!on()) return rsys(SYS_gettimeofday, (long)t, (long)z);
    int64_t us = wallUs();
    t->tv_sec  = us / 1000000;
    t->tv_usec = us % 1000000;
    return 0;
}
time_t time(time_t* t) {
    time_t r = on() ? wallUs() / 1000000 : rsys(SYS_time, 0);
    if (t) *t = r;
    return r;
}
clock_t clock(void) { if (on()) return W->clock; RF(clock_t, clock, void); return r(); }
static void vsleep(uint64_t us) { point(OP_SLEEP, us); sleep_until(W->clock + (us ? us : 1)); }
unsigned sleep(unsigned s) { if (on()) { vsleep(s * 1000000ULL); return 0; } RF(unsigned, sleep, unsigned); return r(s); }
int usleep(useconds_t u) { if (on()) { vsleep(u); return 0; } RF(int, usleep, useconds_t); return r(u); }
int nanosleep(const struct timespec* q, struct timespec* rem) {
    if (on()) { vsleep(q->tv_sec * 1000000ULL + (q->tv_nsec + 999) / 1000); return 0; }
    return rsys(SYS_nanosleep, (long)q, (long)rem);
}
static uint64_t absToClock(clockid_t c, const struct timespec* t) {
    int64_t us = t->tv_sec * 1000000LL + (t->tv_nsec + 999) / 1000;
    if (c == CLOCK_REALTIME) us -= 1700000000LL * 1000000 + W->rtJump;
    return us < 1 ? 1 : us;
}
int clock_nanosleep(clockid_t c, int fl, const struct timespec* q, struct timespec* rem) {
    if (on()) {
        if (fl & TIMER_ABSTIME) { point(OP_SLEEP); sleep_until(absToClock(c, q)); }
        else vsleep(q->tv_sec * 1000000ULL + (q->tv_nsec + 999) / 1000);
        return 0;
    }
    return rsys(SYS_clock_nanosleep, c, fl, (long)q, (long)rem);
}
int sched_yield(void) { if (on()) { vsleep(1); return 0; } return rsys(SYS_sched_yield); }
int get_nprocs(void) { return 4; }

// ------------------------------------------------------------------ randomness
long random(void) { if (on()) return W->rmisc.next() & 0x7fffffff; RF(long, random, void); return r(); }
int rand(void) { if (on()) return W->rmisc.next() & 0x7fffffff; RF(int, rand, void); return r(); }
void srandom(unsigned s) { if (on()) return; RF(void, srandom, unsigned); r(s); }
void srand(unsigned s) { if (on()) return; RF(void, srand, unsigned); r(s); }
ssize_t getrandom(void* b, size_t n, unsigned f) {
    if (!on()) return rsys(SYS_getrandom, (long)b, n, f);
    for (size_t i = 0; i < n; i++) ((char*)b)[i] = W->rmisc.next();
    return n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == ssize_t(n) ? 0 : -1; }
unsigned int arc4random(void) { unsigned v; getrandom(&v, 4, 0); return v; }
unsigned int _ZNSt13random_device9_M_getvalEv(void*) { unsigned v; getrandom(&v, 4, 0); return v; }
void uuid_generate(unsigned char* o) { getrandom(o, 16, 0); o[6] = (o[6] & 0x0f) | 0x40; o[8] = (o[8] & 0x3f) | 0x80; }
void uuid_generate_random(unsigned char* o) { uuid_generate(o); }
void uuid_generate_time(unsigned char* o) { uuid_generate(o); }

// ------------------------------------------------------------------ threads
struct Boot { void* (*fn)(void*); void* arg; int task; };
static pthread_key_t endKey;
static pthread_once_t endOnce = PTHREAD_ONCE_INIT;
static void endKeyDtor(void* v) {
    long n = (long)v;
    if (n < PTHREAD_DESTRUCTOR_ITERATIONS) { pthread_setspecific(endKey, (void*)(n + 1)); return; }
    if (!self) return;
    point(OP_THREAD, 2);
    pthread_t me = pthread_self();
    auto it      = threads()->find(me);
    if (it != threads()->end()) {
        it->second.done = true;
        if (it->second.detached) threads()->erase(it);
    }
    zombies()->push_back({me, rsys(SYS_gettid)});
    task_finish();
}
static void* bootThread(void* b) {
    Boot* x    = (Boot*)b;
    Boot y     = *x;
    task_start(y.task);
    delete x;
    pthread_setspecific(endKey, (void*)1);
    void* ret = y.fn(y.arg);
    auto it = threads()->find(pthread_self());
    if (it != threads()->end()) it->second.ret = ret;
    return ret;
}
int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) {
    RF(int, pthread_create, pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    if (!on()) return r(t, a, fn, arg);
    static bool keyDone = false;
    if (!keyDone) { keyDone = true; pthread_key_create(&endKey, endKeyDtor); }
    point(OP_THREAD, 1);
    int ds = PTHREAD_CREATE_JOINABLE;
    if (a) pthread_attr_getdetachstate(a, &ds);
    Boot* b = new Boot{fn, arg, new_task(self->proc)};
    if (curproc()->eager) W->tasks[b->task].fresh = 25;
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 1 << 20);
    pthread_t id;
    int rc = r(&id, &at, bootThread, b);
    pthread_attr_destroy(&at);
    if (rc) world_end(3, "pthread_create failed");
    SimThread st;
    st.task     = b->task;
    st.detached = ds == PTHREAD_CREATE_DETACHED;
    (*threads())[id] = st;
    *t = id;
    return 0;
}
int pthread_join(pthread_t t, void** ret) {
    if (!on()) { RF(int, pthread_join, pthread_t, void**); return r(t, ret); }
    point(OP_THREAD, 3);
    auto it = threads()->find(t);
    if (it == threads()->end()) return ESRCH;
    if (W->tasks[it->second.task].proc == self->proc && it->second.task == self->id) return EDEADLK;
    while (!it->second.done) {
        block(&W->tasks[it->second.task], true, 0);
        it = threads()->find(t);
        if (it == threads()->end()) return ESRCH;
    }
    if (ret) *ret = it->second.ret;
    threads()->erase(it);
    return 0;
}
int pthread_detach(pthread_t t) {
    if (!on()) { RF(int, pthread_detach, pthread_t); return r(t); }
    auto it = threads()->find(t);
    if (it == threads()->end()) return ESRCH;
    if (it->second.done) threads()->erase(it);
    else it->second.detached = true;
    return 0;
}
int pthread_cancel(pthread_t) { if (on()) return 0; return 0; }

// mutexes: the real object is used, only waiting is simulated. While a process has one thread only, what it does with
// its locks is invisible to all others: no decision is needed there
static void lockPoint(Op op, uint64_t detail = 0) {
    Proc* p = curproc();
    if (p->live <= 1 && ++p->quiet < 4000) return;
    p->quiet = 0;
    point(op, detail);
}
int pthread_mutex_trylock(pthread_mutex_t* m) {
    RF(int, pthread_mutex_trylock, pthread_mutex_t*);
    if (on()) lockPoint(OP_LOCK, 1);
    return r(m);
}
int pthread_mutex_lock(pthread_mutex_t* m) {
    RF(int, pthread_mutex_trylock, pthread_mutex_t*);
    if (!on()) { static int (*l)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))realsym("pthread_mutex_lock"); return l(m); }
    lockPoint(OP_LOCK);
    for (;;) {
        int e = r(m);
        if (e != EBUSY) return e;
        self->lastOp = OP_LOCK;
        block(m, false, 0);
    }
}
int pthread_mutex_timedlock(pthread_mutex_t* m, const struct timespec* t) {
    if (!on()) { static int (*l)(pthread_mutex_t*, const struct timespec*) = (int (*)(pthread_mutex_t*, const struct timespec*))realsym("pthread_mutex_timedlock"); return l(m, t); }
    RF(int, pthread_mutex_trylock, pthread_mutex_t*);
    lockPoint(OP_LOCK);
    uint64_t dl = absToClock(CLOCK_REALTIME, t);
    for (;;) {
        int e = r(m);
        if (e != EBUSY) return e;
        if (!block(m, false, dl)) return ETIMEDOUT;
    }
}
static int realUnlock(pthread_mutex_t* m) {
    RF(int, pthread_mutex_unlock, pthread_mutex_t*);
    return r(m);
}
int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (!on()) return realUnlock(m);
    int e = realUnlock(m);
    if (forking && rsys(SYS_getpid) != forkParent) return e;
    wake(m, false, 1000);
    lockPoint(OP_UNLOCK);
    return e;
}
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(pthread_cond_t* c, pthread_mutex_t* m, uint64_t dl) {
    self->lastOp = OP_COND;
    W->opCount[OP_COND]++;
    realUnlock(m);
    wake(m, false, 1000);
    bool ok;
    // spurious wake-ups are legal: let a few happen
    if (W->rclock.chance(0.01)) { point(OP_COND, 9); ok = true; }
    else ok = block(c, false, dl);
    static int (*tl)(pthread_mutex_t*) = (int (*)(pthread_mutex_t*))realsym("pthread_mutex_trylock");
    while (tl(m) == EBUSY) block(m, false, 0);
    return ok ? 0 : ETIMEDOUT;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!on()) { static auto r = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2"); return r(c, m); }
    return condWait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* t) {
    if (!on()) { static auto r = (int (*)(pthread_cond_t*, pthread_mutex_t*, const struct timespec*))dlvsym(RTLD_NEXT, "pthread_cond_timedwait", "GLIBC_2.3.2"); return r(c, m, t); }
    return condWait(c, m, absToClock(CLOCK_REALTIME, t));
}
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t k, const struct timespec* t) {
    if (!on()) { static auto r = (int (*)(pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec*))realsym("pthread_cond_clockwait"); return r(c, m, k, t); }
    return condWait(c, m, absToClock(k, t));
}
int pthread_cond_signal(pthread_cond_t* c) {
    if (!on()) { static auto r = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2"); return r(c); }
    wake(c, false, 1);
    point(OP_COND, 1);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t* c) {
    if (!on()) { static auto r = (int (*)(pthread_cond_t*))dlvsym(RTLD_NEXT, "pthread_cond_broadcast", "GLIBC_2.3.2"); return r(c); }
    wake(c, false, 1000);
    point(OP_COND, 2);
    return 0;
}
#define RWLOCK(fn, tryname) \
    int fn(pthread_rwlock_t* l) { \
        if (!on()) { static int (*q)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))realsym(#fn); return q(l); } \
        static int (*t)(pthread_rwlock_t*) = (int (*)(pthread_rwlock_t*))realsym(tryname); \
        lockPoint(OP_LOCK, 2); \
        for (;;) { int e = t(l); if (e != EBUSY && e != EAGAIN) return e; block(l, false, 0); } \
    }
RWLOCK(pthread_rwlock_rdlock, "pthread_rwlock_tryrdlock")
RWLOCK(pthread_rwlock_wrlock, "pthread_rwlock_trywrlock")
int pthread_rwlock_unlock(pthread_rwlock_t* l) {
    RF(int, pthread_rwlock_unlock, pthread_rwlock_t*);
    if (!on()) return r(l);
    int e = r(l);
    wake(l, false, 1000);
    lockPoint(OP_UNLOCK, 2);
    return e;
}
int pthread_once(pthread_once_t* o, void (*fn)(void)) {
    if (!on()) { RF(int, pthread_once, pthread_once_t*, void (*)(void)); return r(o, fn); }
    for (;;) {
        if (*o & 2) return 0;
        if (!(*o & 1)) {
            *o = 1;
            try { fn(); }
            catch (...) { *o = 0; wake(o, false, 1000); throw; }
            *o = 2;
            wake(o, false, 1000);
            return 0;
        }
        block(o, false, 0);
    }
}
int sem_wait(sem_t* s) { if (!on()) { RF(int, sem_wait, sem_t*); return r(s); } lockPoint(OP_LOCK, 3); while (sem_trywait(s)) block(s, false, 0); return 0; }
int sem_post(sem_t* s) { RF(int, sem_post, sem_t*); int e = r(s); if (on()) { wake(s, false, 1); lockPoint(OP_UNLOCK, 3); } return e; }

// futexes used directly by libstdc++ (futures, call_once, static guards)
long syscall(long n, ...) {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (on()) {
        if (n == SYS_futex) {
            int op = b & 127;
            if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
                point(OP_COND, 5);
                if (*(volatile int*)a != (int)c) return fail(EAGAIN);
                uint64_t dl = 0;
                if (d) {
                    const struct timespec* t = (const struct timespec*)d;
                    if (op == FUTEX_WAIT) dl = W->clock + t->tv_sec * 1000000ULL + (t->tv_nsec + 999) / 1000;
                    else dl = absToClock((b & FUTEX_CLOCK_REALTIME) ? CLOCK_REALTIME : CLOCK_MONOTONIC, t);
                }
                self->lastOp = OP_COND;
                if (!block((void*)a, false, dl)) return fail(ETIMEDOUT);
                return 0;
            }
            if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
                int w = wake((void*)a, false, (int)c < 0 ? 1000 : std::min((int)c, 1000));
                point(OP_COND, 6);
                return w;
            }
            unsupported("futex operation");
        }
        if (n == SYS_gettid) return curproc()->vpid * 100 + self->id % 100;
        if (n == SYS_clock_gettime) return clock_gettime(a, (struct timespec*)b);
        if (n == SYS_getrandom) return getrandom((void*)a, b, c);
    }
    return rsys(n, a, b, c, d, e, f);
}

// basic blocks of the instrumented FDB code
static __thread int inBB = 0;
void __sanitizer_cov_trace_pc(void) {
    if (!self) return;
    if (!W->bbMean) {
        static __thread uint64_t spin = 0;
        if (++spin < 2000000 || inBB) return;
        spin = 0;
        inBB = 1;
        point(OP_BB);
        inBB = 0;
        return;
    }
    static __thread uint64_t left = 0;
    static __thread uint64_t idle = 0;
    if (left == 0) left = 1 + W->rclock.below(2 * W->bbMean);
    if (--left) return;
    if (inBB) return;
    // only worth a switch when another thread of this process could run
    bool other = false;
    for (int i = 0; i < W->ntasks; i++) {
        Task& t = W->tasks[i];
        if (t.proc == self->proc && &t != self && t.st == T_READY) other = true;
    }
    if (!other && ++idle < 2000) return;
    idle = 0;
    inBB = 1;
    W->bbPoints++;
    point(OP_BB);
    inBB = 0;
}

}  // extern "C"

// The heap of the simulated processes: every address follows from the calls made before, and memory
// that was never written reads the same in every run.
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
}
namespace {
const uintptr_t HEAP = 0x500000000000, HEAP_SIZE = 8ull << 30;
struct Block { uint32_t cls; uint32_t off; uint64_t size; };  // before each block; off: from the raw block
struct Heap {
    bool on;
    int lock;
    char* next;
    char* end;
    void* freed[256];
} heap;
struct HeapLock {
    HeapLock() { while (__atomic_exchange_n(&heap.lock, 1, __ATOMIC_ACQUIRE)) {} }
    ~HeapLock() { __atomic_store_n(&heap.lock, 0, __ATOMIC_RELEASE); }
};
inline bool ours(void* p) { return (uintptr_t)p - HEAP < HEAP_SIZE; }
inline unsigned sizeClass(size_t n, size_t& cap) {
    if (n <= 1024) { unsigned c = n ? (n + 15) / 16 : 1; cap = c * 16; return c; }
    unsigned b = 63 - __builtin_clzll(n - 1);  // n in (2^b, 2^(b+1)]
    size_t q = (size_t)1 << (b - 2);
    unsigned k = (n - ((size_t)1 << b) + q - 1) / q;  // 1..4
    cap = ((size_t)1 << b) + k * q;
    return 64 + (b - 10) * 4 + k;
}
inline Block* blockOf(void* p) { return (Block*)p - 1; }
void* heapAlloc(size_t n, bool* fresh = nullptr) {
    size_t cap;
    if (n > HEAP_SIZE / 2) { errno = ENOMEM; return nullptr; }
    unsigned c = sizeClass(n, cap);
    void* p;
    {
        HeapLock l;
        p = heap.freed[c];
        if (p) heap.freed[c] = *(void**)p;
        else {
            if ((size_t)(heap.end - heap.next) < cap + sizeof(Block)) { errno = ENOMEM; return nullptr; }
            p = heap.next + sizeof(Block);
            heap.next += cap + sizeof(Block);
            if (fresh) *fresh = true;
        }
    }
    Block* b = blockOf(p);
    b->cls = c;
    b->off = 0;
    b->size = cap;
    return p;
}
inline void* fill(void* p, size_t n) {
    if (p) memset(p, 0x5a, n < 2048 ? n : 2048);
    return p;
}
void heapFree(void* p) {
    Block* b = blockOf(p);
    if (b->off) { p = (char*)p - b->off; b = blockOf(p); }
    HeapLock l;
    *(void**)p = heap.freed[b->cls];
    heap.freed[b->cls] = p;
}
}  // namespace

void heap_install() {
    void* p = mmap((void*)HEAP, HEAP_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    if (p == MAP_FAILED) { perror("heap"); _exit(3); }
    heap.next = (char*)p;
    heap.end = heap.next + HEAP_SIZE;
    heap.on = true;
}

extern "C" {
void* malloc(size_t n) { return fill(heap.on ? heapAlloc(n) : __libc_malloc(n), n); }
void free(void* p) {
    if (!p) return;
    if (ours(p)) { int e = errno; heapFree(p); errno = e; }
    else __libc_free(p);
}
void* calloc(size_t n, size_t m) {
    if (!heap.on) return __libc_calloc(n, m);
    size_t t;
    if (__builtin_mul_overflow(n, m, &t)) { errno = ENOMEM; return nullptr; }
    bool fresh = false;
    void* p = heapAlloc(t, &fresh);
    if (p && !fresh) memset(p, 0, t);
    return p;
}
size_t malloc_usable_size(void* p) {
    if (!p) return 0;
    if (!ours(p)) return ((size_t*)p)[-1] & ~(size_t)7 ? (((size_t*)p)[-1] & ~(size_t)7) - 2 * sizeof(size_t) : 0;
    return blockOf(p)->size;
}
void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!ours(p)) {
        if (!heap.on) return __libc_realloc(p, n);
        size_t old = malloc_usable_size(p);
        void* q = malloc(n);
        if (q) { memcpy(q, p, old < n ? old : n); __libc_free(p); }
        return q;
    }
    if (!n) { free(p); return nullptr; }
    Block* b = blockOf(p);
    if (n <= b->size) return p;
    void* q = heapAlloc(n);
    if (!q) return nullptr;
    size_t old = b->size;
    memcpy(q, p, old);
    if (n > old) memset((char*)q + old, 0x5a, n - old < 2048 ? n - old : 2048);
    heapFree(p);
    return q;
}
void* memalign(size_t a, size_t n) {
    if (!heap.on) return __libc_memalign(a, n);
    if (a <= 16) return malloc(n);
    char* p = (char*)heapAlloc(n + a + sizeof(Block));
    if (!p) return nullptr;
    char* q = (char*)(((uintptr_t)p + sizeof(Block) + a - 1) & ~(uintptr_t)(a - 1));
    Block* b = blockOf(q);
    b->cls = 0;
    b->off = q - p;
    b->size = blockOf(p)->size - (q - p);
    return fill(q, n);
}
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) {
    void* p = memalign(a, n);
    if (!p) return ENOMEM;
    *o = p;
    return 0;
}
void* valloc(size_t n) { return memalign(4096, n); }
void* pvalloc(size_t n) { return memalign(4096, (n + 4095) & ~(size_t)4095); }
}
