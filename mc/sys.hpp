// Raw system calls for the harness itself: never interposed, never scheduled.
#pragma once
#include <cerrno>
#include <cstdint>
#include <cstring>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/types.h>
#include <unistd.h>
#include <vector>
#include <dirent.h>
namespace rs {
inline int open (const char* p, int fl, int mode = 0) { return syscall (SYS_openat, AT_FDCWD, p, fl, mode); }
inline int close (int fd) { return syscall (SYS_close, fd); }
inline ssize_t pread (int fd, void* b, size_t n, off_t o) { return syscall (SYS_pread64, fd, b, n, o); }
inline ssize_t pwrite (int fd, const void* b, size_t n, off_t o) { return syscall (SYS_pwrite64, fd, b, n, o); }
inline ssize_t read (int fd, void* b, size_t n) { return syscall (SYS_read, fd, b, n); }
inline ssize_t write (int fd, const void* b, size_t n) { return syscall (SYS_write, fd, b, n); }
inline int ftruncate (int fd, off_t n) { return syscall (SYS_ftruncate, fd, n); }
inline int unlink (const char* p) { return syscall (SYS_unlink, p); }
inline int rmdir (const char* p) { return syscall (SYS_rmdir, p); }
inline int mkdir (const char* p, int m) { return syscall (SYS_mkdir, p, m); }
inline int rename (const char* a, const char* b) { return syscall (SYS_rename, a, b); }
inline int link (const char* a, const char* b) { return syscall (SYS_link, a, b); }
inline int symlink (const char* a, const char* b) { return syscall (SYS_symlink, a, b); }
inline int lstat (const char* p, struct stat* st) { return syscall (SYS_newfstatat, AT_FDCWD, p, st, AT_SYMLINK_NOFOLLOW); }
inline int fstat (int fd, struct stat* st) { return syscall (SYS_fstat, fd, st); }

inline bool read_file (const std::string& p, std::vector<uint8_t>& out) {
    int fd = rs::open (p.c_str (), O_RDONLY | O_CLOEXEC);
    if (fd < 0) return false;
    struct stat st;
    rs::fstat (fd, &st);
    out.resize (st.st_size);
    size_t done = 0;
    while (done < out.size ()) {
        ssize_t r = rs::pread (fd, out.data () + done, out.size () - done, done);
        if (r <= 0) break;
        done += r;
    }
    out.resize (done);
    rs::close (fd);
    return true;
}
inline bool write_file (const std::string& p, const void* d, size_t n, int mode = 0644) {
    int fd = rs::open (p.c_str (), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, mode);
    if (fd < 0) return false;
    size_t done = 0;
    while (done < n) {
        ssize_t r = rs::pwrite (fd, (const char*)d + done, n - done, done);
        if (r <= 0) break;
        done += r;
    }
    rs::close (fd);
    return done == n;
}
struct Ent { std::string name; unsigned char type; };
inline std::vector<Ent> list_dir (const std::string& p) {
    std::vector<Ent> out;
    int fd = rs::open (p.c_str (), O_RDONLY | O_DIRECTORY | O_CLOEXEC);
    if (fd < 0) return out;
    char buf[8192];
    for (;;) {
        long n = syscall (SYS_getdents64, fd, buf, sizeof buf);
        if (n <= 0) break;
        for (long i = 0; i < n;) {
            unsigned short rl;
            memcpy (&rl, buf + i + 16, 2);
            unsigned char t = buf[i + 18];
            const char* nm  = buf + i + 19;
            if (strcmp (nm, ".") && strcmp (nm, "..")) out.push_back ({nm, t});
            i += rl;
        }
    }
    rs::close (fd);
    return out;
}
// remove everything below p (p itself stays)
inline void clean_dir (const std::string& p) {
    for (auto& e : list_dir (p)) {
        std::string q = p + "/" + e.name;
        if (e.type == DT_DIR) {
            clean_dir (q);
            rs::rmdir (q.c_str ());
        } else
            rs::unlink (q.c_str ());
    }
}
} // namespace rs
