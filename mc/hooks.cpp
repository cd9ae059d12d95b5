#include "hooks.hpp"
const char* fo_name[] = {"open", "create", "write", "read", "fsync", "truncate", "unlink", "rename", "link", "symlink", "access"};
static struct fuse_operations copy_;
static const struct fuse_operations* real_;
static OpHooks hk;
template <class F> static int around (int op, const char* a, const char* b, F f) {
    int s = shim::tl_harness;
    shim::tl_harness = 1;
    hk.before (op, a, b);
    shim::tl_harness = s;
    int r = f ();
    s = shim::tl_harness;
    shim::tl_harness = 1;
    hk.after (op, a, b, r);
    shim::tl_harness = s;
    return r;
}
void install_hooks (const OpHooks& h) {
    hk    = h;
    real_ = shim::ops;
    copy_ = *shim::ops;
    copy_.open     = [] (const char* p, struct fuse_file_info* fi) { return around (FO_OPEN, p, "", [&] { return real_->open (p, fi); }); };
    copy_.create   = [] (const char* p, mode_t m, struct fuse_file_info* fi) { return around (FO_CREATE, p, "", [&] { return real_->create (p, m, fi); }); };
    copy_.write    = [] (const char* p, const char* b, size_t n, off_t o, struct fuse_file_info* fi) { return around (FO_WRITE, p, "", [&] { return real_->write (p, b, n, o, fi); }); };
    copy_.read     = [] (const char* p, char* b, size_t n, off_t o, struct fuse_file_info* fi) { return around (FO_READ, p, "", [&] { return real_->read (p, b, n, o, fi); }); };
    copy_.fsync    = [] (const char* p, int d, struct fuse_file_info* fi) { return around (FO_FSYNC, p, "", [&] { return real_->fsync (p, d, fi); }); };
    copy_.truncate = [] (const char* p, off_t n, struct fuse_file_info* fi) { return around (FO_TRUNCATE, p, "", [&] { return real_->truncate (p, n, fi); }); };
    copy_.unlink   = [] (const char* p) { return around (FO_UNLINK, p, "", [&] { return real_->unlink (p); }); };
    copy_.rename   = [] (const char* p, const char* q, unsigned f) { return around (FO_RENAME, p, q, [&] { return real_->rename (p, q, f); }); };
    copy_.link     = [] (const char* p, const char* q) { return around (FO_LINK, p, q, [&] { return real_->link (p, q); }); };
    copy_.symlink  = [] (const char* p, const char* q) { return around (FO_SYMLINK, p, q, [&] { return real_->symlink (p, q); }); };
    if (real_->access) copy_.access = [] (const char* p, int m) { return around (FO_ACCESS, p, "", [&] { return real_->access (p, m); }); };
    shim::ops = &copy_;
}
int principal (const Op& o, bool exists) {
    switch (o.k) {
    case K_WRITE: return FO_WRITE;
    case K_READ: return FO_READ;
    case K_TRUNC: return FO_TRUNCATE;
    case K_FSYNC: return FO_FSYNC;
    case K_UNLINK: return FO_UNLINK;
    case K_RENAME: return FO_RENAME;
    case K_LINK: return FO_LINK;
    case K_SYMLINK: return FO_SYMLINK;
    case K_ACCESS: return FO_ACCESS;
    case K_CREAT: return FO_CREATE;
    case K_HOPEN: return exists ? FO_OPEN : FO_CREATE;
    default: return -1;
    }
}
