#include "shim.hpp"
#include <dirent.h>
#include "race.hpp"
#include <malloc.h>
#include "sched.hpp"
#include "sys.hpp"
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <linux/futex.h>
#include <map>
#include <poll.h>
#include <pthread.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <time.h>

namespace shim {
const struct fuse_operations* ops = nullptr;
std::atomic<int> fifo_pause{0}, fifo_paused{0};
void* private_data                = nullptr;
void (*on_fuse_main) (int, char**) = nullptr;
thread_local int tl_harness        = 0;
Plan plan;
std::atomic<long> counted{0};
std::atomic<long> acted{0};
CallRec trace[4096];
std::string root;
static std::atomic<int> killed_dummy{0};
std::atomic<int>* killed = &killed_dummy;
std::atomic<long> bad_close{0};
std::atomic<int> worker_idle{0};
std::atomic<int> worker_seen{0};
std::atomic<long> worker_read_seq{0};
bool vino_on = true;

void plan_reset () {
    plan = Plan ();
    counted = 0;
    acted   = 0;
}

static std::atomic_flag spin = ATOMIC_FLAG_INIT;
struct Spin {
    Spin () { while (spin.test_and_set (std::memory_order_acquire)) sched_yield (); }
    ~Spin () { spin.clear (std::memory_order_release); }
};

// ---- virtual inode numbers: lowest free number is reused, as real file systems do --------------------------------
struct VI { ino_t v; int open; bool gone; };
static std::map<ino_t, VI>& vmap () { static auto* m = new std::map<ino_t, VI>; return *m; }
static std::map<int, ino_t>& fdmap () { static auto* m = new std::map<int, ino_t>; return *m; }
static VI& vget (ino_t real) {
    auto& m = vmap ();
    auto it = m.find (real);
    if (it != m.end ()) return it->second;
    ino_t v = 100;
    for (bool again = true; again;) {
        again = false;
        for (auto& x : m)
            if (x.second.v == v) { v++; again = true; break; }
    }
    return m.emplace (real, VI{v, 0, false}).first->second;
}
static void vput (ino_t real) { // all links gone
    race::Quiet quiet;
    auto& m = vmap ();
    auto it = m.find (real);
    if (it == m.end ()) return;
    if (it->second.open > 0) it->second.gone = true;
    else m.erase (it);
}
static bool under_root (const char* p) { return p && vino_on && !root.empty () && strncmp (p, root.c_str (), root.size ()) == 0; }
static void vfix (struct stat* st) {
    race::Quiet quiet;
    if (!vino_on) return;
    if (S_ISREG (st->st_mode) || S_ISDIR (st->st_mode) || S_ISLNK (st->st_mode)) {
        Spin s;
        st->st_ino = vget (st->st_ino).v;
    }
}
static void vopen (int fd) {
    race::Quiet quiet;
    struct stat st;
    if (fd < 0 || !vino_on || rs::fstat (fd, &st) || !S_ISREG (st.st_mode)) return;
    Spin s;
    vget (st.st_ino).open++;
    fdmap ()[fd] = st.st_ino;
}
static void vclose (int fd) {
    race::Quiet quiet;
    if (!vino_on) return;
    Spin s;
    auto it = fdmap ().find (fd);
    if (it == fdmap ().end ()) return;
    ino_t r = it->second;
    fdmap ().erase (it);
    auto m = vmap ().find (r);
    if (m != vmap ().end () && --m->second.open == 0 && m->second.gone) {
        vmap ().erase (m);
        if (sched_on ()) sched_touch (&OBJ_BACKING, true);
    }
}
struct Victim { // the object a removing/replacing call may free
    struct stat st;
    bool have;
    explicit Victim (const char* p) { have = under_root (p) && rs::lstat (p, &st) == 0; }
    void removed () {
        if (!have) return;
        if (S_ISDIR (st.st_mode) || st.st_nlink <= 1) { Spin s; vput (st.st_ino); }
    }
};

// ---- calls of LazyFS: counting, failing, cutting short, killing ---------------------------------------------------
struct Act { int a; int err; long n; };
static Act on_call (int kind, bool mut, long bytes, const char* what) {
    race::Quiet quiet;
    if (tl_harness) return {0, 0, 0};
    if (sched_on ()) {
        if (kind != C_STAT) sched_point (EV_STEP, nullptr);
        sched_touch (&OBJ_BACKING, mut);
    }
    if (!plan.armed || !(plan.mask & (1u << kind)) || (plan.mutating && !mut)) return {0, 0, 0};
    long n = counted.fetch_add (1);
    if (n < 4096) {
        trace[n].kind  = kind;
        trace[n].bytes = bytes;
        snprintf (trace[n].what, sizeof trace[n].what, "%s", what);
    }
    if (n != plan.at) return {0, 0, 0};
    acted.fetch_add (1);
    if (plan.action == 3) {
        killed->store (2);
        syscall (SYS_kill, getpid (), SIGKILL);
        for (;;) pause ();
    }
    return {plan.action, plan.err, plan.n};
}
static void die_now () {
    killed->store (2);
    syscall (SYS_kill, getpid (), SIGKILL);
    for (;;) pause ();
}
} // namespace shim

using namespace shim;
#define SIMPLE_FAIL(kind, mut, what)                             \
    {                                                            \
        Act _a = on_call (kind, mut, 0, what);                   \
        if (_a.a == 1) { errno = _a.err; return -1; }            \
    }

extern "C" {
// ---- libfuse ---------------------------------------------------------------------------------------------------
int fuse_main_real (int argc, char* argv[], const struct fuse_operations* op, size_t op_size, void* pd) {
    (void)op_size;
    shim::ops          = op;
    shim::private_data = pd;
    shim::tl_harness   = 1;
    if (on_fuse_main) on_fuse_main (argc, argv);
    _exit (98);
}
struct fuse_context* fuse_get_context (void) {
    static thread_local struct fuse_context c;
    c.private_data = shim::private_data;
    c.uid = 0; c.gid = 0; c.pid = getpid (); c.umask = 0;
    return &c;
}

// ---- open/close --------------------------------------------------------------------------------------------------
static int open_common (int dirfd, const char* path, int flags, mode_t mode) {
    bool mut = (flags & (O_CREAT | O_TRUNC)) != 0;
    if (!tl_harness && under_root (path)) {
        Act a = on_call (C_OPEN, mut, 0, (flags & O_ACCMODE) == O_RDONLY ? "open-r" : "open-w");
        if (a.a == 1) { errno = a.err; return -1; }
    }
    int fd = syscall (SYS_openat, dirfd, path, flags, mode);
    if (!tl_harness && fd >= 0 && under_root (path)) vopen (fd);
    return fd;
}
#define OPEN_BODY(dirfd)                          \
    mode_t mode = 0;                              \
    if (flags & (O_CREAT | O_TMPFILE)) {          \
        va_list ap; va_start (ap, flags);         \
        mode = va_arg (ap, int); va_end (ap);     \
    }                                             \
    return open_common (dirfd, path, flags, mode);
int __wrap_open (const char* path, int flags, ...) { OPEN_BODY (AT_FDCWD) }
int __wrap_open64 (const char* path, int flags, ...) { OPEN_BODY (AT_FDCWD) }
int __wrap_openat (int d, const char* path, int flags, ...) { OPEN_BODY (d) }
int __wrap_openat64 (int d, const char* path, int flags, ...) { OPEN_BODY (d) }
int __wrap_creat (const char* path, mode_t mode) { return open_common (AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int __wrap_creat64 (const char* path, mode_t mode) { return open_common (AT_FDCWD, path, O_CREAT | O_WRONLY | O_TRUNC, mode); }
int __wrap_close (int fd) {
    if (!tl_harness) vclose (fd);
    int r = syscall (SYS_close, fd);
    if (r < 0 && errno == EBADF && fd >= 0 && !tl_harness) bad_close = fd;
    return r;
}

// ---- data --------------------------------------------------------------------------------------------------------
static int wake_fd = -1;
int shim_wake_fd () { return wake_fd; }
static ssize_t fifo_read (int fd, void* buf, size_t n) {
    worker_seen = 1;
    if (wake_fd < 0) wake_fd = eventfd (0, 0);
    for (;;) {
        if (sched_on ()) {
            sched_point (EV_FIFO, (void*)(intptr_t)fd);
            if (!sched_on ()) continue; // exploration over, back to ordinary service
            break;
        }
        worker_idle = 1;
        struct pollfd p[2] = {{fd, POLLIN, 0}, {wake_fd, POLLIN, 0}};
        int r = syscall (SYS_poll, p, 2, -1);
        if (r > 0 && (p[1].revents & POLLIN)) { uint64_t x; syscall (SYS_read, wake_fd, &x, 8); }
        if (sched_on ()) continue;
        if (r > 0 && (p[0].revents & (POLLIN | POLLHUP | POLLERR))) break;
    }
    worker_idle = 0;
    ssize_t r = syscall (SYS_read, fd, buf, n);
    worker_read_seq.fetch_add (1);
    return r;
}
ssize_t __wrap_read (int fd, void* buf, size_t n) {
    if (tl_harness) return syscall (SYS_read, fd, buf, n);
    struct stat st;
    if (rs::fstat (fd, &st) == 0 && S_ISFIFO (st.st_mode)) return fifo_read (fd, buf, n);
    Act a = on_call (C_READ, false, n, "read");
    if (a.a == 1) { errno = a.err; return -1; }
    return syscall (SYS_read, fd, buf, n);
}
static ssize_t pread_common (int fd, void* buf, size_t n, off_t o) {
    Act a = on_call (C_READ, false, n, "pread");
    if (race::on) race::access (buf, n, true, __builtin_return_address (0));
    if (a.a == 1) { errno = a.err; return -1; }
    if (a.a == 2 && (size_t)a.n < n) n = a.n;
    return syscall (SYS_pread64, fd, buf, n, o);
}
ssize_t __wrap_pread (int fd, void* buf, size_t n, off_t o) { return pread_common (fd, buf, n, o); }
ssize_t __wrap_pread64 (int fd, void* buf, size_t n, off_t o) { return pread_common (fd, buf, n, o); }
static size_t iov_total (const struct iovec* v, int c) { size_t t = 0; for (int i = 0; i < c; i++) t += v[i].iov_len; return t; }
static ssize_t preadv_common (int fd, const struct iovec* v, int c, off_t o) {
    Act a = on_call (C_READ, false, iov_total (v, c), "preadv");
    if (a.a == 1) { errno = a.err; return -1; }
    return syscall (SYS_preadv, fd, v, c, (long)o, 0L);
}
ssize_t __wrap_preadv (int fd, const struct iovec* v, int c, off_t o) { return preadv_common (fd, v, c, o); }
ssize_t __wrap_preadv64 (int fd, const struct iovec* v, int c, off_t o) { return preadv_common (fd, v, c, o); }

static ssize_t pwrite_common (int fd, const void* buf, size_t n, off_t o, const char* what) {
    Act a = on_call (C_WRITE, true, n, what);
    if (race::on) race::access ((void*)buf, n, false, __builtin_return_address (0));
    if (a.a == 1) { errno = a.err; return -1; }
    if (a.a == 2 && (size_t)a.n < n) n = a.n;
    if (a.a == 4) {
        if ((size_t)a.n < n) n = a.n;
        if (n) { if (o == -1) syscall (SYS_write, fd, buf, n); else syscall (SYS_pwrite64, fd, buf, n, o); }
        die_now ();
    }
    return o == -1 ? syscall (SYS_write, fd, buf, n) : syscall (SYS_pwrite64, fd, buf, n, o);
}
ssize_t __wrap_pwrite (int fd, const void* buf, size_t n, off_t o) { return pwrite_common (fd, buf, n, o, "pwrite"); }
ssize_t __wrap_pwrite64 (int fd, const void* buf, size_t n, off_t o) { return pwrite_common (fd, buf, n, o, "pwrite"); }
// LazyFS wrote to a FIFO: let the harness look at the state of this very moment (but never wait for long, should it need us)
static void fifo_written () {
    if (!fifo_pause.load ()) return;
    fifo_paused.store (1);
    for (int i = 0; i < 150 && fifo_pause.load (); i++) usleep (i < 20 ? 50 : 500);
    fifo_paused.store (0);
}
ssize_t __wrap_write (int fd, const void* buf, size_t n) {
    struct stat st;
    if (tl_harness || rs::fstat (fd, &st) || !S_ISREG (st.st_mode)) {
        ssize_t r = syscall (SYS_write, fd, buf, n);
        if (!tl_harness && r > 0 && S_ISFIFO (st.st_mode)) fifo_written ();
        return r;
    }
    return pwrite_common (fd, buf, n, -1, "write");
}
static ssize_t pwritev_common (int fd, const struct iovec* v, int c, off_t o) {
    size_t total = iov_total (v, c < 0 || c > 4096 ? 0 : c);
    Act a        = on_call (C_WRITE, true, total, "pwritev");
    if (race::on)
        for (int i = 0; i < c; i++) race::access (v[i].iov_base, v[i].iov_len, false, __builtin_return_address (0));
    if (a.a == 1) { errno = a.err; return -1; }
    if ((a.a == 2 || a.a == 4) && (size_t)a.n < total) {
        size_t left = a.n, done = 0;
        for (int i = 0; i < c && left; i++) {
            size_t k = v[i].iov_len < left ? v[i].iov_len : left;
            syscall (SYS_pwrite64, fd, v[i].iov_base, k, o + done);
            done += k;
            left -= k;
        }
        if (a.a == 4) die_now ();
        return done;
    }
    ssize_t r = syscall (SYS_pwritev, fd, v, c, (long)o, 0L);
    if (a.a == 4) die_now ();
    return r;
}
ssize_t __wrap_pwritev (int fd, const struct iovec* v, int c, off_t o) { return pwritev_common (fd, v, c, o); }
ssize_t __wrap_pwritev64 (int fd, const struct iovec* v, int c, off_t o) { return pwritev_common (fd, v, c, o); }
ssize_t __wrap_writev (int fd, const struct iovec* v, int c) {
    struct stat st;
    if (tl_harness || rs::fstat (fd, &st) || !S_ISREG (st.st_mode)) {
        ssize_t r = syscall (SYS_writev, fd, v, c);
        if (!tl_harness && r > 0 && S_ISFIFO (st.st_mode)) fifo_written ();
        return r;
    }
    Act a = on_call (C_WRITE, true, iov_total (v, c), "writev");
    if (a.a == 1) { errno = a.err; return -1; }
    return syscall (SYS_writev, fd, v, c);
}
static int ftruncate_common (int fd, off_t n) {
    SIMPLE_FAIL (C_TRUNC, true, "ftruncate")
    return syscall (SYS_ftruncate, fd, n);
}
int __wrap_ftruncate (int fd, off_t n) { return ftruncate_common (fd, n); }
int __wrap_ftruncate64 (int fd, off_t n) { return ftruncate_common (fd, n); }
static int truncate_common (const char* p, off_t n) {
    SIMPLE_FAIL (C_TRUNC, true, "truncate")
    return syscall (SYS_truncate, p, n);
}
int __wrap_truncate (const char* p, off_t n) { return truncate_common (p, n); }
int __wrap_truncate64 (const char* p, off_t n) { return truncate_common (p, n); }
int __wrap_fallocate (int fd, int m, off_t o, off_t n) { SIMPLE_FAIL (C_WRITE, true, "fallocate") return syscall (SYS_fallocate, fd, m, o, n); }
int __wrap_fallocate64 (int fd, int m, off_t o, off_t n) { SIMPLE_FAIL (C_WRITE, true, "fallocate") return syscall (SYS_fallocate, fd, m, o, n); }
int __wrap_fsync (int fd) { SIMPLE_FAIL (C_SYNC, false, "fsync") return syscall (SYS_fsync, fd); }
int __wrap_fdatasync (int fd) { SIMPLE_FAIL (C_SYNC, false, "fdatasync") return syscall (SYS_fdatasync, fd); }

// ---- attributes --------------------------------------------------------------------------------------------------
static int stat_common (int d, const char* p, struct stat* st, int fl) {
    SIMPLE_FAIL (C_STAT, false, "stat")
    int r = syscall (SYS_newfstatat, d, p, st, fl);
    if (r == 0 && !tl_harness && under_root (p)) vfix (st);
    return r;
}
int __wrap_lstat (const char* p, struct stat* st) { return stat_common (AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int __wrap_lstat64 (const char* p, struct stat* st) { return stat_common (AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
int __wrap_stat (const char* p, struct stat* st) { return stat_common (AT_FDCWD, p, st, 0); }
int __wrap_stat64 (const char* p, struct stat* st) { return stat_common (AT_FDCWD, p, st, 0); }
int __wrap_fstatat (int d, const char* p, struct stat* st, int fl) { return stat_common (d, p, st, fl); }
int __wrap_fstatat64 (int d, const char* p, struct stat* st, int fl) { return stat_common (d, p, st, fl); }
static int fstat_common (int fd, struct stat* st) {
    SIMPLE_FAIL (C_STAT, false, "fstat")
    int r = syscall (SYS_fstat, fd, st);
    if (r == 0 && !tl_harness && (S_ISREG (st->st_mode))) {
        bool known;
        { Spin s; known = fdmap ().count (fd) > 0; }
        if (known) vfix (st);
    }
    return r;
}
int __wrap_fstat (int fd, struct stat* st) { return fstat_common (fd, st); }
int __wrap_fstat64 (int fd, struct stat* st) { return fstat_common (fd, st); }
int __wrap_access (const char* p, int m) { SIMPLE_FAIL (C_OTHER, false, "access") return syscall (SYS_access, p, m); }
ssize_t __wrap_readlink (const char* p, char* b, size_t n) { SIMPLE_FAIL (C_OTHER, false, "readlink") return syscall (SYS_readlink, p, b, n); }
#define NULL_FAIL(what)                                          \
    {                                                            \
        Act _a = on_call (C_OTHER, false, 0, what);              \
        if (_a.a == 1) { errno = _a.err; return nullptr; }       \
    }
DIR* __real_opendir (const char*);
DIR* __wrap_opendir (const char* p) { NULL_FAIL ("opendir") return __real_opendir (p); }
struct dirent* __real_readdir (DIR*);
struct dirent* __wrap_readdir (DIR* d) { NULL_FAIL ("readdir") return __real_readdir (d); }
struct dirent64* __real_readdir64 (DIR*);
struct dirent64* __wrap_readdir64 (DIR* d) { NULL_FAIL ("readdir") return __real_readdir64 (d); }
int __wrap_chmod (const char* p, mode_t m) { SIMPLE_FAIL (C_ATTR, true, "chmod") return syscall (SYS_chmod, p, m); }
int __wrap_lchown (const char* p, uid_t u, gid_t g) { SIMPLE_FAIL (C_ATTR, true, "lchown") return syscall (SYS_lchown, p, u, g); }
int __wrap_utimensat (int d, const char* p, const struct timespec* t, int fl) { SIMPLE_FAIL (C_ATTR, true, "utimensat") return syscall (SYS_utimensat, d, p, t, fl); }
int __wrap_futimens (int fd, const struct timespec* t) { SIMPLE_FAIL (C_ATTR, true, "futimens") return syscall (SYS_utimensat, fd, NULL, t, 0); }
int __wrap_utimes (const char* p, const struct timeval* t) { SIMPLE_FAIL (C_ATTR, true, "utimes") return syscall (SYS_utimes, p, t); }

// ---- names -------------------------------------------------------------------------------------------------------
int __wrap_unlink (const char* p) {
    SIMPLE_FAIL (C_NAMES, true, "unlink")
    Victim v (tl_harness ? nullptr : p);
    int r = syscall (SYS_unlink, p);
    if (r == 0) v.removed ();
    return r;
}
int __wrap_rmdir (const char* p) {
    SIMPLE_FAIL (C_NAMES, true, "rmdir")
    Victim v (tl_harness ? nullptr : p);
    int r = syscall (SYS_rmdir, p);
    if (r == 0) v.removed ();
    return r;
}
int __wrap_remove (const char* p) {
    struct stat st;
    if (rs::lstat (p, &st) == 0 && S_ISDIR (st.st_mode)) return __wrap_rmdir (p);
    return __wrap_unlink (p);
}
static int rename_common (const char* a, const char* b, unsigned fl) {
    SIMPLE_FAIL (C_NAMES, true, "rename")
    Victim v (tl_harness ? nullptr : b);
    struct stat sa;
    bool same = v.have && rs::lstat (a, &sa) == 0 && sa.st_ino == v.st.st_ino;
    int r     = fl ? syscall (SYS_renameat2, AT_FDCWD, a, AT_FDCWD, b, fl) : syscall (SYS_rename, a, b);
    if (r == 0 && !same && !(fl & 2)) v.removed ();
    return r;
}
int __wrap_rename (const char* a, const char* b) { return rename_common (a, b, 0); }
int __wrap_renameat2 (int d1, const char* a, int d2, const char* b, unsigned fl) {
    (void)d1; (void)d2;
    return rename_common (a, b, fl);
}
int __wrap_renameat (int d1, const char* a, int d2, const char* b) { (void)d1; (void)d2; return rename_common (a, b, 0); }
int __wrap_link (const char* a, const char* b) { SIMPLE_FAIL (C_NAMES, true, "link") return syscall (SYS_link, a, b); }
int __wrap_symlink (const char* a, const char* b) { SIMPLE_FAIL (C_NAMES, true, "symlink") return syscall (SYS_symlink, a, b); }
int __wrap_mkdir (const char* p, mode_t m) { SIMPLE_FAIL (C_NAMES, true, "mkdir") return syscall (SYS_mkdir, p, m); }

// ---- signals -----------------------------------------------------------------------------------------------------
int __wrap_kill (pid_t pid, int sig) {
    if (!tl_harness && pid == getpid () && sig == SIGKILL) killed->store (1);
    return syscall (SYS_kill, pid, sig);
}
int __wrap_raise (int sig) {
    if (!tl_harness && sig == SIGKILL) killed->store (1);
    return syscall (SYS_kill, getpid (), sig);
}

// ---- locks -------------------------------------------------------------------------------------------------------
int __real_pthread_mutex_lock (pthread_mutex_t*);
int __real_pthread_mutex_trylock (pthread_mutex_t*);
int __real_pthread_mutex_unlock (pthread_mutex_t*);
int __real_pthread_rwlock_rdlock (pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock (pthread_rwlock_t*);
int __real_pthread_rwlock_tryrdlock (pthread_rwlock_t*);
int __real_pthread_rwlock_trywrlock (pthread_rwlock_t*);
int __real_pthread_rwlock_unlock (pthread_rwlock_t*);
void shim_virtual_release (void* a);
void shim_virtual_try (void* a, bool wr);

int __wrap_pthread_mutex_lock (pthread_mutex_t* m) {
    if (!tl_harness && sched_on ()) sched_point (EV_WR, m);
    return __real_pthread_mutex_lock (m);
}
int __wrap_pthread_mutex_trylock (pthread_mutex_t* m) {
    if (!tl_harness && sched_on ()) {
        sched_point (EV_STEP, nullptr);
        sched_touch (m, true);
        int r = __real_pthread_mutex_trylock (m);
        if (r == 0) shim_virtual_try (m, true);
        return r;
    }
    return __real_pthread_mutex_trylock (m);
}
int __wrap_pthread_mutex_unlock (pthread_mutex_t* m) {
    int r = __real_pthread_mutex_unlock (m);
    if (!tl_harness && sched_on ()) shim_virtual_release (m);
    return r;
}
int __wrap_pthread_rwlock_rdlock (pthread_rwlock_t* m) {
    if (!tl_harness && sched_on ()) sched_point (EV_RD, m);
    return __real_pthread_rwlock_rdlock (m);
}
int __wrap_pthread_rwlock_wrlock (pthread_rwlock_t* m) {
    if (!tl_harness && sched_on ()) sched_point (EV_WR, m);
    return __real_pthread_rwlock_wrlock (m);
}
int __wrap_pthread_rwlock_tryrdlock (pthread_rwlock_t* m) {
    if (!tl_harness && sched_on ()) {
        sched_point (EV_STEP, nullptr);
        sched_touch (m, true);
        int r = __real_pthread_rwlock_tryrdlock (m);
        if (r == 0) shim_virtual_try (m, false);
        return r;
    }
    return __real_pthread_rwlock_tryrdlock (m);
}
int __wrap_pthread_rwlock_trywrlock (pthread_rwlock_t* m) {
    if (!tl_harness && sched_on ()) {
        sched_point (EV_STEP, nullptr);
        sched_touch (m, true);
        int r = __real_pthread_rwlock_trywrlock (m);
        if (r == 0) shim_virtual_try (m, true);
        return r;
    }
    return __real_pthread_rwlock_trywrlock (m);
}
int __wrap_pthread_rwlock_unlock (pthread_rwlock_t* m) {
    int r = __real_pthread_rwlock_unlock (m);
    if (!tl_harness && sched_on ()) shim_virtual_release (m);
    return r;
}
} // extern "C"

// ==================================================================================================================
namespace shim {
struct VLock { int writer = -1; int readers[MAXT] = {}; int nread = 0; };
struct Thr { int ev = EV_NONE; void* addr = nullptr; std::atomic<int> go{0}; bool registered = false; };
static std::atomic<int> sched_active{0};
static Thr thr[MAXT];
static std::map<void*, VLock>* vlocks;
static SchedTrace* tr;
static int nthr, worker_id, running;
static std::atomic<int> finished{0};
static std::atomic<long> clockv{0};
static thread_local int my_id = -1;

char OBJ_BACKING, OBJ_CLOCK, OBJ_NODES;
static std::map<const void*, int>* objs;
static void note (int id, const void* obj, int how) {
    int n = tr->nev;
    if (n >= MAXE) { tr->overflow = 1; return; }
    int o = obj ? (*objs).emplace (obj, (int)objs->size () + 1).first->second : 0;
    tr->ev[n] = {(uint8_t)id, (uint8_t)how, (uint16_t)o, (uint16_t)tr->ndec};
    tr->nev = n + 1;
}
void sched_touch (const void* obj, bool wr) {
    if (my_id < 0 || !sched_on () || thr[my_id].ev == EV_DONE) return;
    race::Quiet quiet;
    note (my_id, obj, wr ? F_W : F_R);
}
void sched_begin () { if (my_id >= 0 && sched_on ()) note (my_id, &OBJ_CLOCK, F_R | F_BEGIN); }
long sched_tick () { return clockv.fetch_add (1) + 1; }
bool sched_on () { return sched_active.load (std::memory_order_acquire) != 0; }
long sched_clock () { return clockv.load (); }
static void futex_wait (std::atomic<int>* a, int v) { syscall (SYS_futex, a, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void futex_wake (std::atomic<int>* a) { syscall (SYS_futex, a, FUTEX_WAKE, 1000, nullptr, nullptr, 0); }
static void wait_go (int id) {
    for (;;) {
        int v = thr[id].go.load ();
        if (v) { thr[id].go.store (0); return; }
        for (int k = 0; k < 200; k++)
            if (thr[id].go.load ()) break;
        if (!thr[id].go.load ()) futex_wait (&thr[id].go, 0);
    }
}
static void give (int id) {
    thr[id].go.store (1);
    futex_wake (&thr[id].go);
}
static bool enabled (int i) {
    Thr& t = thr[i];
    switch (t.ev) {
    case EV_STEP: return true;
    case EV_RD: { auto& l = (*vlocks)[t.addr]; return l.writer < 0; }
    case EV_WR: { auto& l = (*vlocks)[t.addr]; return l.writer < 0 && l.nread == 0; }
    case EV_FIFO: { int n = 0; ioctl ((int)(intptr_t)t.addr, FIONREAD, &n); return n > 0; }
    default: return false;
    }
}
static void grant (int i) {
    Thr& t = thr[i];
    note (i, t.ev == EV_RD || t.ev == EV_WR ? t.addr : nullptr, F_GO | (t.ev == EV_RD ? F_R : t.ev == EV_WR ? F_W : 0));
    if (t.ev == EV_RD) { auto& l = (*vlocks)[t.addr]; l.readers[i]++; l.nread++; race::acquire (i, t.addr, false); }
    if (t.ev == EV_WR) { auto& l = (*vlocks)[t.addr]; l.writer = i; race::acquire (i, t.addr, true); }
    t.ev = EV_NONE;
}
static void finish () {
    finished.store (1);
    futex_wake (&finished);
}
// Picks the next thread to run; returns its id or -1 (all done / deadlock).
static int pick (int cur) {
    uint8_t alts[MAXT];
    int n = 0;
    if (cur >= 0 && enabled (cur)) alts[n++] = cur; // alternative 0: no preemption
    int cur_en = n;
    for (int i = 0; i < nthr; i++)
        if (i != cur && thr[i].registered && enabled (i)) alts[n++] = i;
    if (n == 0) {
        bool all = true;
        for (int i = 0; i < nthr; i++)
            if (i != worker_id && thr[i].ev != EV_DONE) all = false;
        if (thr[worker_id].ev != EV_FIFO) all = false;
        if (!all) {
            tr->deadlock = 1;
            for (int i = 0; i < nthr; i++) tr->blocked_on[i] = thr[i].ev;
        }
        return -1;
    }
    int c = 0;
    if (n > 1) {
        int d = tr->ndec;
        if (d >= MAXD) { tr->overflow = 1; }
        else {
            if (d < tr->prefix_len) {
                c = tr->prefix[d];
                if (c >= n) { tr->diverged = 1; c = 0; }
            }
            Decision& x   = tr->dec[d];
            x.n           = n;
            x.chosen      = c;
            x.cur_enabled = cur_en;
            memcpy (x.alts, alts, n);
            tr->ndec = d + 1;
        }
    }
    return alts[c];
}
void sched_point (int kind, void* addr) {
    race::Quiet quiet;
    int id = my_id;
    if (id < 0) {
        if (kind == EV_FIFO && !thr[worker_id].registered) { // the fault worker joins
            id = my_id         = worker_id;
            thr[id].ev         = EV_FIFO;
            thr[id].addr       = addr;
            thr[id].registered = true;
            race::thread_begin (id);
            wait_go (id);
            return;
        }
        return; // a thread we do not control
    }
    clockv.fetch_add (1);
    thr[id].ev   = kind;
    thr[id].addr = addr;
    if (kind == EV_RD || kind == EV_WR) note (id, addr, F_TRY | (kind == EV_RD ? F_R : F_W));
    int nx = pick (id);
    if (nx < 0) {
        finish ();
        wait_go (id); // only the command thread returns, when the exploration of this schedule is over
        return;
    }
    grant (nx);
    if (nx == id) return;
    running = nx;
    give (nx);
    wait_go (id);
}
void sched_enable (SchedTrace* t, int n) {
    tr        = t;
    vlocks    = new std::map<void*, VLock>;
    objs      = new std::map<const void*, int>;
    tr->nev   = 0;
    nthr      = n + 1;
    worker_id = n;
    tr->ndec = tr->deadlock = tr->overflow = tr->diverged = 0;
    race::begin (nthr);
    sched_active.store (1);
    if (wake_fd >= 0) { uint64_t one = 1; rs::write (wake_fd, &one, 8); }
}
void sched_thread_begin (int id) {
    my_id              = id;
    race::thread_begin (id);
    thr[id].ev         = EV_STEP;
    thr[id].registered = true;
    wait_go (id);
}
void sched_thread_end () {
    int id     = my_id;
    race::thread_end ();
    thr[id].ev = EV_DONE;
    int nx     = pick (-1);
    if (nx < 0) { finish (); return; }
    grant (nx);
    running = nx;
    give (nx);
}
void sched_run () {
    for (int k = 0; k < 200000; k++) { // wait until everybody has registered
        bool all = true;
        for (int i = 0; i < nthr; i++)
            if (!thr[i].registered) all = false;
        if (all) break;
        if (k > 100) usleep (50); else sched_yield ();
    }
    usleep (0);
    int nx = pick (-1);
    if (nx < 0) { finish (); }
    else { grant (nx); running = nx; give (nx); }
    while (!finished.load ()) futex_wait (&finished, 0);
    sched_active.store (0);
    race::on = 0;
    if (thr[worker_id].ev == EV_FIFO) give (worker_id); // let the fault worker serve the final probes
}
} // namespace shim
extern "C" void shim_virtual_release (void* a) {
    using namespace shim;
    race::Quiet quiet;
    if (my_id < 0) return;
    auto& l = (*vlocks)[a];
    note (my_id, a, l.writer >= 0 ? F_W : F_R);
    race::release (my_id, a, l.writer >= 0);
    if (l.writer == my_id) l.writer = -1;
    else if (l.readers[my_id] > 0) { l.readers[my_id]--; l.nread--; }
    else if (l.writer >= 0) l.writer = -1; // unlocked by another thread
}
extern "C" void shim_virtual_try (void* a, bool wr) {
    using namespace shim;
    race::Quiet quiet;
    if (my_id < 0) return;
    auto& l = (*vlocks)[a];
    race::acquire (my_id, a, wr);
    if (wr) l.writer = my_id;
    else { l.readers[my_id]++; l.nread++; }
}

// ==================================================================================================================
// Large operator-new blocks (LazyFS reserves hash tables of 30000 buckets per file) come from untouched zero pages and
// zeroing them is done by the kernel: same contents, a fraction of the page faults.
namespace {
constexpr size_t SLAB = (size_t)1 << 36, BIG = 65536;
char* slab_base;
std::atomic<size_t> slab_top{0};
std::atomic<char*> slab_fresh{nullptr};
bool in_slab (const void* p) { return slab_base && (const char*)p >= slab_base && (const char*)p < slab_base + SLAB; }
void* big_new (size_t n) {
    if (!slab_base) {
        void* m = mmap (nullptr, SLAB, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return malloc (n);
        slab_base = (char*)m;
    }
    size_t k = (n + 4095) & ~(size_t)4095, o = slab_top.fetch_add (k);
    if (o + k > SLAB) return malloc (n);
    slab_fresh = slab_base + o;
    return slab_base + o;
}
}
void* operator new (size_t n) {
    void* p = n >= BIG ? big_new (n) : malloc (n ? n : 1);
    if (!p) abort ();
    return p;
}
void* operator new[] (size_t n) { return operator new (n); }
void operator delete (void* p) noexcept {
    if (race::on && race::freed (p, !p ? 0 : in_slab (p) ? 64 : malloc_usable_size (p), __builtin_return_address (0))) return;
    if (in_slab (p)) return;
    free (p);
}
void operator delete (void* p, size_t) noexcept { operator delete (p); }
void operator delete[] (void* p) noexcept { operator delete (p); }
void operator delete[] (void* p, size_t) noexcept { operator delete (p); }
extern "C" void* __real_memset (void*, int, size_t);
extern "C" void* __wrap_memset (void* p, int c, size_t n) {
    if (c == 0 && n >= BIG && in_slab (p) && ((uintptr_t)p & 4095) == 0) {
        char* f = (char*)p;
        if (slab_fresh.compare_exchange_strong (f, nullptr)) return p;
        size_t full = n & ~(size_t)4095;
        syscall (SYS_madvise, p, full, MADV_DONTNEED);
        __real_memset ((char*)p + full, 0, n - full);
        return p;
    }
    return __real_memset (p, c, n);
}
