#include "core.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <sys/ioctl.h>
#include <sys/time.h>
#include <time.h>

using std::string;

int flag_bits (int f) {
    switch (f) {
    case F_RDWR: return O_RDWR;
    case F_RDONLY: return O_RDONLY;
    case F_WRONLY: return O_WRONLY;
    case F_RDWR_TRUNC: return O_RDWR | O_TRUNC;
    case F_WRONLY_TRUNC: return O_WRONLY | O_TRUNC;
    case F_RDWR_APPEND: return O_RDWR | O_APPEND;
    case F_WRONLY_APPEND: return O_WRONLY | O_APPEND;
    case F_CREAT_RDWR: return O_RDWR | O_CREAT;
    case F_CREAT_WRONLY: return O_WRONLY | O_CREAT;
    case F_CREAT_TRUNC: return O_RDWR | O_CREAT | O_TRUNC;
    case F_CREAT_APPEND: return O_WRONLY | O_CREAT | O_APPEND;
    case F_EXCL: return O_RDWR | O_CREAT | O_EXCL;
    }
    return O_RDWR;
}
static const char* flag_name (int f) {
    static const char* n[] = {"RDWR", "RDONLY", "WRONLY", "RDWR|TRUNC", "WRONLY|TRUNC", "RDWR|APPEND", "WRONLY|APPEND",
                              "RDWR|CREAT", "WRONLY|CREAT", "RDWR|CREAT|TRUNC", "WRONLY|CREAT|APPEND", "RDWR|CREAT|EXCL"};
    return f >= 0 && f < 12 ? n[f] : "?";
}
static bool can_write (int f) { return (flag_bits (f) & O_ACCMODE) != O_RDONLY; }
static bool can_read (int f) { return (flag_bits (f) & O_ACCMODE) != O_WRONLY; }
static bool is_append (int f) { return flag_bits (f) & O_APPEND; }

static string nm (const Cfg& c, int i) {
    if (i == 254) return "<orphan>";
    return i < (int)c.names.size () ? c.names[i] : "?";
}
string fmt_op (const Cfg& c, const Op& o) {
    char b[256];
    string A = nm (c, o.a), B = nm (c, o.b);
    const char *a = A.c_str (), *bb = B.c_str ();
    switch (o.k) {
    case K_HOPEN: snprintf (b, sizeof b, "open(%s,%s)", a, flag_name (o.f)); break;
    case K_HCLOSE: snprintf (b, sizeof b, "close(%s)", a); break;
    case K_WRITE: snprintf (b, sizeof b, "write(%s,off=%lld,len=%lld)", a, (long long)o.off, (long long)o.len); break;
    case K_READ: snprintf (b, sizeof b, "read(%s,off=%lld,len=%lld)", a, (long long)o.off, (long long)o.len); break;
    case K_TRUNC: snprintf (b, sizeof b, "truncate(%s,%lld)%s", a, (long long)o.off, o.f ? "@path" : ""); break;
    case K_FSYNC: snprintf (b, sizeof b, "%s(%s)", o.f ? "fdatasync" : "fsync", a); break;
    case K_CLEAR: snprintf (b, sizeof b, "clear-cache"); break;
    case K_CKPT: snprintf (b, sizeof b, "cache-checkpoint"); break;
    case K_UNLINK: snprintf (b, sizeof b, "unlink(%s)", a); break;
    case K_RENAME: snprintf (b, sizeof b, "rename(%s,%s)", a, bb); break;
    case K_LINK: snprintf (b, sizeof b, "link(%s,%s)", a, bb); break;
    case K_SYMLINK: snprintf (b, sizeof b, "symlink(t,%s)", bb); break;
    case K_MKDIR: snprintf (b, sizeof b, "mkdir(%s)", a); break;
    case K_RMDIR: snprintf (b, sizeof b, "rmdir(%s)", a); break;
    case K_STAT: snprintf (b, sizeof b, "stat(%s)", a); break;
    case K_UTIMENS: snprintf (b, sizeof b, "utimens(%s,#%d)", a, o.f); break;
    case K_CHMOD: snprintf (b, sizeof b, "chmod(%s,%llo)", a, (long long)o.off); break;
    case K_CHOWN: snprintf (b, sizeof b, "chown(%s,%lld)", a, (long long)o.off); break;
    case K_ACCESS: snprintf (b, sizeof b, "access(%s)", a); break;
    case K_READDIR: snprintf (b, sizeof b, "readdir(%s)", a); break;
    case K_READLINK: snprintf (b, sizeof b, "readlink(%s)", a); break;
    case K_REPORT: snprintf (b, sizeof b, "unsynced-data-report"); break;
    case K_USAGE: snprintf (b, sizeof b, "display-cache-usage"); break;
    case K_CMD: snprintf (b, sizeof b, "fifo<<%s", o.off < (int64_t)c.cmds.size () ? c.cmds[o.off].substr (0, 120).c_str () : "?"); break;
    case K_CREAT: snprintf (b, sizeof b, "creat(%s)", a); break;
    case K_LSEEK: snprintf (b, sizeof b, "lseek(%s,%lld)", a, (long long)o.off); break;
    default: snprintf (b, sizeof b, "op%d", o.k);
    }
    return b;
}
string fmt_hist (const Cfg& c, const Hist& h) {
    string s = "[" + c.name + "] ";
    for (size_t i = 0; i < h.size (); i++) s += (i ? "; " : "") + fmt_op (c, h[i]);
    return s;
}
string hex (const Bytes& b, size_t max) {
    string s;
    char t[8];
    for (size_t i = 0; i < b.size () && i < max; i++) {
        snprintf (t, sizeof t, "%02x", b[i]);
        s += t;
        if (i % 4 == 3) s += ' ';
    }
    if (b.size () > max) s += "...";
    snprintf (t, sizeof t, "(%zu)", b.size ());
    return s + t;
}

// ================================================================================================================
Bytes Model::payload (int step, int64_t off, int64_t len) {
    Bytes d (len);
    for (int64_t i = 0; i < len; i++) d[i] = 1 + (step * 41 + (off + i) * 7) % 251;
    return d;
}
static string parent (const string& p) {
    auto x = p.rfind ('/');
    return x == string::npos ? "" : p.substr (0, x);
}
void Model::init (const Cfg& c) {
    cfg  = &c;
    bs   = c.bs;
    weak = c.weak;
    for (auto& d : c.predirs) {
        MI m;
        m.type = MT_DIR;
        m.mode = 0755;
        in.push_back (m);
        ns[d] = in.size () - 1;
    }
    for (auto& p : c.pre) {
        MI m;
        m.cur = m.dur = payload (240 + p.first, 0, p.second);
        in.push_back (m);
        ns[c.names[p.first]] = in.size () - 1;
    }
    for (auto& p : c.prelink) {
        int i = ns[p.first];
        in[i].nlink++;
        ns[p.second] = i;
    }
    for (auto& p : c.presym) {
        MI m;
        m.type   = MT_LNK;
        m.target = p.first;
        in.push_back (m);
        ns[p.second] = in.size () - 1;
    }
}
void prepare_root (const Cfg& c, const string& root) {
    rs::clean_dir (root);
    for (auto& d : c.predirs) rs::mkdir ((root + "/" + d).c_str (), 0755);
    for (auto& p : c.pre) {
        Bytes b = Model::payload (240 + p.first, 0, p.second);
        rs::write_file (root + "/" + c.names[p.first], b.data (), b.size ());
    }
    for (auto& p : c.prelink) rs::link ((root + "/" + p.first).c_str (), (root + "/" + p.second).c_str ());
    for (auto& p : c.presym) rs::symlink (p.first.c_str (), (root + "/" + p.second).c_str ());
}
int Model::handle_on (const string& p) const {
    for (int i = 5; i >= 0; i--)
        if (h[i].open && !h[i].orphan && h[i].path == p) return i;
    return -1;
}
int Model::orphan () const {
    for (int i = 5; i >= 0; i--)
        if (h[i].open && h[i].orphan) return i;
    return -1;
}
// the handle an operation uses: newest one on the name with suitable access, else none (ephemeral)
static int pick_handle (const Model& m, int a, const string& p, bool w, bool r) {
    for (int i = 5; i >= 0; i--) {
        if (!m.h[i].open) continue;
        if (a == 254 ? !m.h[i].orphan : (m.h[i].orphan || m.h[i].path != p)) continue;
        if (w && !can_write (m.h[i].f)) continue;
        if (r && !can_read (m.h[i].f)) continue;
        return i;
    }
    return -1;
}
bool Model::enabled (const Op& o) const {
    string A = o.a == 254 ? "" : (o.a < cfg->names.size () ? cfg->names[o.a] : ""), B = o.b < cfg->names.size () ? cfg->names[o.b] : "";
    int ia = o.a == 254 ? -1 : lookup (A), ib = lookup (B);
    auto par_ok = [&] (const string& p) {
        string d = parent (p);
        if (d.empty ()) return true;
        int i = lookup (d);
        return i >= 0 && in[i].type == MT_DIR;
    };
    bool reg = ia >= 0 && in[ia].type == MT_REG;
    switch (o.k) {
    case K_HOPEN: {
        int n = 0, same = 0;
        for (auto& x : h) n += x.open, same += x.open && !x.orphan && x.path == A;
        if (n >= 3 || same >= 2) return false;
        bool creat = flag_bits (o.f) & O_CREAT;
        if (o.f == F_EXCL) return ia < 0 && par_ok (A);
        if (creat) return (ia < 0 && par_ok (A)) || reg;
        return reg;
    }
    case K_HCLOSE: return o.a == 254 ? orphan () >= 0 : handle_on (A) >= 0;
    case K_WRITE:
        if (o.a == 254) return pick_handle (*this, 254, "", true, false) >= 0;
        return reg;
    case K_READ:
        if (o.a == 254) return pick_handle (*this, 254, "", false, true) >= 0;
        return reg;
    case K_TRUNC:
        if (o.a == 254) return pick_handle (*this, 254, "", true, false) >= 0;
        return reg;
    case K_FSYNC: return o.a == 254 ? orphan () >= 0 : reg;
    case K_UNLINK: return ia >= 0 && in[ia].type != MT_DIR;
    case K_RENAME:
        if (ia < 0 || A == B || !par_ok (B)) return false;
        if (B.size () > A.size () && B.compare (0, A.size () + 1, A + "/") == 0) return false;
        if (A.size () > B.size () && A.compare (0, B.size () + 1, B + "/") == 0) return false;
        if (ib >= 0) {
            if ((in[ia].type == MT_DIR) != (in[ib].type == MT_DIR)) return false;
            if (in[ib].type == MT_DIR)
                for (auto& x : ns)
                    if (x.first.compare (0, B.size () + 1, B + "/") == 0) return false;
        }
        return true;
    case K_LINK: return reg && ib < 0 && par_ok (B);
    case K_SYMLINK: return ib < 0 && par_ok (B);
    case K_MKDIR: return ia < 0 && par_ok (A);
    case K_RMDIR: {
        if (ia < 0 || in[ia].type != MT_DIR) return false;
        for (auto& x : ns)
            if (x.first.compare (0, A.size () + 1, A + "/") == 0) return false;
        for (auto& x : h)
            if (x.open && x.orphan && x.path.compare (0, A.size () + 1, A + "/") == 0) return false;
        return true;
    }
    case K_STAT: case K_UTIMENS: case K_CHMOD: case K_CHOWN: case K_ACCESS: return ia >= 0;
    case K_READDIR: return ia >= 0 && in[ia].type == MT_DIR;
    case K_READLINK: return ia >= 0 && in[ia].type == MT_LNK;
    case K_CREAT: return ia < 0 && par_ok (A);
    case K_LSEEK: return reg;
    default: return true;
    }
}
void Model::loosen (MI& m) {
    if (!m.loose) {
        m.loose = true;
        m.alt.clear ();
        m.smin = m.smax = m.dur.size ();
        m.smin = std::min<int64_t> (m.smin, m.cur.size ());
        m.smax = std::max<int64_t> (m.smax, m.cur.size ());
        for (size_t i = 0; i < m.cur.size (); i++) note (m, i);
    }
}
void Model::note (MI& m, int64_t pos) {
    if ((int64_t)m.alt.size () <= pos) m.alt.resize (pos + 1);
    m.alt[pos].insert (m.cur[pos]);
}
void Model::do_write (MI& m, int64_t off, const Bytes& d) {
    if (weak) loosen (m);
    int64_t old = m.cur.size (), end = off + (int64_t)d.size ();
    int64_t lo = std::min (off, old);
    if (end > old) m.cur.resize (end, 0);
    std::copy (d.begin (), d.end (), m.cur.begin () + off);
    if (weak) {
        for (int64_t i = std::min (lo, off); i < end; i++) note (m, i);
        m.smax = std::max<int64_t> (m.smax, m.cur.size ());
    }
    int64_t from = off > old ? old : off;
    for (int64_t b = from / bs; b <= (end - 1) / bs; b++) m.dirty[b] = m.cached[b] = 1;
}
void Model::do_trunc (MI& m, int64_t n) {
    if (weak) loosen (m);
    int64_t old = m.cur.size ();
    m.resized = true;
    m.cur.resize (n, 0);
    if (n > old)
        for (int64_t b = old / bs; b <= (n - 1) / bs; b++) m.dirty[b] = m.cached[b] = 1;
    else if (n < old) {
        int64_t first = (n + bs - 1) / bs;
        m.dirty.erase (m.dirty.lower_bound (first), m.dirty.end ());
        m.cached.erase (m.cached.lower_bound (first), m.cached.end ());
    }
    if (weak) {
        for (int64_t i = old; i < n; i++) note (m, i);
        m.smin = std::min<int64_t> (m.smin, n);
        m.smax = std::max<int64_t> (m.smax, n);
    }
}
void Model::do_sync (MI& m) {
    m.dur = m.cur;
    m.loose = m.resized = false;
    m.alt.clear ();
    m.dirty.clear ();
}
void Model::do_clear () {
    for (auto& m : in) {
        if (m.type != MT_REG) continue;
        if (!weak && !m.loose) m.cur = m.dur;
        m.dirty.clear ();
        m.cached.clear ();
        m.resized = false;
        m.mt_state = m.at_state = 0;
    }
}
static void drop_name (Model& m, const string& p) {
    int i = m.ns[p];
    m.ns.erase (p);
    m.in[i].nlink--;
}
Res Model::apply (const Op& o) {
    Res r;
    string A = o.a < cfg->names.size () ? cfg->names[o.a] : "", B = o.b < cfg->names.size () ? cfg->names[o.b] : "";
    int ia = o.a == 254 ? -1 : lookup (A), ib = lookup (B);
    auto target = [&] (bool w, bool rd, int& hs) -> MI& {
        hs = pick_handle (*this, o.a, A, w, rd);
        return in[hs >= 0 ? h[hs].ino : ia];
    };
    int hs;
    switch (o.k) {
    case K_HOPEN: {
        if (ia < 0) {
            MI n;
            in.push_back (n);
            ia = ns[A] = in.size () - 1;
        } else if (flag_bits (o.f) & O_TRUNC)
            do_trunc (in[ia], 0);
        for (auto& x : h)
            if (!x.open) {
                x.open = true; x.ino = ia; x.path = A; x.f = o.f; x.orphan = false;
                break;
            }
        break;
    }
    case K_HCLOSE: {
        int i = o.a == 254 ? orphan () : handle_on (A);
        h[i].open = false;
        break;
    }
    case K_CREAT: {
        MI n;
        in.push_back (n);
        ns[A] = in.size () - 1;
        break;
    }
    case K_WRITE: {
        MI& m = target (true, false, hs);
        int64_t off = hs >= 0 && is_append (h[hs].f) ? m.cur.size () : o.off;
        do_write (m, off, payload (step, off, o.len));
        r.rc = o.len;
        break;
    }
    case K_READ: {
        MI& m = target (false, true, hs);
        int64_t e = std::min<int64_t> (m.cur.size (), o.off + o.len);
        if (e > o.off) r.data.assign (m.cur.begin () + o.off, m.cur.begin () + e);
        r.rc = r.data.size ();
        r.has_data = true;
        break;
    }
    case K_TRUNC: do_trunc (target (true, false, hs), o.off); break;
    case K_FSYNC: do_sync (target (false, false, hs)); break;
    case K_CLEAR: do_clear (); break;
    case K_CKPT:
        for (auto& x : ns)
            if (in[x.second].type == MT_REG) do_sync (in[x.second]);
        for (auto& x : h)
            if (x.open && x.orphan) do_sync (in[x.ino]);
        break;
    case K_UNLINK: {
        for (auto& x : h)
            if (x.open && !x.orphan && x.path == A) x.orphan = true;
        drop_name (*this, A);
        break;
    }
    case K_RENAME: {
        if (ib >= 0 && ib == ia && in[ia].type != MT_DIR) { // two links of one file
            bool open_b = handle_on (B) >= 0;
            if (!open_b) { // POSIX: nothing happens (libfuse still takes its handles to be on B now)
                for (auto& x : h)
                    if (x.open && !x.orphan && x.path == A) x.path = B;
                break;
            }
            // libfuse hides an open target first (renames it away), so B is replaced by A
            for (auto& x : h)
                if (x.open && !x.orphan && x.path == B) x.orphan = true;
            ns.erase (A);
            ns[B] = ia;
            in[ia].nlink--; // (the hidden name counts only while open)
            for (auto& x : h)
                if (x.open && !x.orphan && x.path == A) x.path = B;
            break;
        }
        if (ib >= 0) {
            for (auto& x : h)
                if (x.open && !x.orphan && x.path == B) x.orphan = true;
            if (in[ib].type == MT_DIR) ns.erase (B);
            else drop_name (*this, B);
        }
        std::map<string, int> n2;
        for (auto& x : ns) {
            if (x.first == A) n2[B] = x.second;
            else if (x.first.compare (0, A.size () + 1, A + "/") == 0) n2[B + x.first.substr (A.size ())] = x.second;
            else n2[x.first] = x.second;
        }
        ns = n2;
        for (auto& x : h) {
            if (!x.open) continue;
            if (x.path == A && !x.orphan) x.path = B;
            else if (x.path.compare (0, A.size () + 1, A + "/") == 0) x.path = B + x.path.substr (A.size ());
        }
        break;
    }
    case K_LINK:
        ns[B] = ia;
        in[ia].nlink++;
        break;
    case K_SYMLINK: {
        MI n;
        n.type = MT_LNK; n.target = "t"; n.mode = 0777;
        in.push_back (n);
        ns[B] = in.size () - 1;
        break;
    }
    case K_MKDIR: {
        MI n;
        n.type = MT_DIR; n.mode = 0755;
        in.push_back (n);
        ns[A] = in.size () - 1;
        break;
    }
    case K_RMDIR: ns.erase (A); break;
    case K_CHMOD: in[ia].mode = o.off; break;
    case K_CHOWN: in[ia].uid = in[ia].gid = o.off; break;
    default: break;
    }
    step++;
    return r;
}
uint64_t Model::hash () const {
    uint64_t x = 1469598103934665603ull;
    auto add = [&] (const void* p, size_t n) {
        for (size_t i = 0; i < n; i++) x = (x ^ ((const uint8_t*)p)[i]) * 1099511628211ull;
    };
    for (auto& e : ns) {
        const MI& m = in[e.second];
        add (e.first.data (), e.first.size ());
        add (&e.second, 4);
        add (m.cur.data (), m.cur.size ());
        add ("|", 1);
        add (m.dur.data (), m.dur.size ());
        add (&m.nlink, 4);
        for (auto& d : m.dirty) add (&d.first, 8);
        add ("#", 1);
        for (auto& d : m.cached) add (&d.first, 8);
    }
    for (auto& y : h)
        if (y.open) { add (y.path.data (), y.path.size ()); add (&y.f, 4); add (&y.orphan, 1); add (&y.ino, 4); }
    return x;
}

// ================================================================================================================
void Kernel::mount () {
    struct fuse_conn_info ci;
    struct fuse_config fc;
    memset (&ci, 0, sizeof ci);
    memset (&fc, 0, sizeof fc);
    ci.proto_major = 7; ci.proto_minor = 38; ci.max_write = 131072;
    if (cfg->completed) fifoc_fd = rs::open ((fifo + "c").c_str (), O_RDONLY | O_NONBLOCK | O_CLOEXEC);
    fifo_fd = rs::open (fifo.c_str (), O_RDWR | O_NONBLOCK | O_CLOEXEC);
    if (shim::ops->init) {
        shim::InFs g;
        void* r = shim::ops->init (&ci, &fc);
        shim::private_data = r;
    }
    if (!wait_idle ()) fail ("the fault worker did not start listening on the FIFO");
}
static bool threads_sleeping () {
    int me = syscall (SYS_gettid);
    for (auto& e : rs::list_dir ("/proc/self/task")) {
        if (atoi (e.name.c_str ()) == me) continue;
        Bytes b (512);
        int fd = rs::open (("/proc/self/task/" + e.name + "/stat").c_str (), O_RDONLY);
        if (fd < 0) continue;
        ssize_t n = rs::pread (fd, b.data (), 511, 0);
        rs::close (fd);
        if (n <= 0) continue;
        string s ((char*)b.data (), n);
        auto p = s.rfind (')');
        if (p != string::npos && p + 2 < s.size () && s[p + 2] != 'S') return false;
    }
    return true;
}
bool Kernel::wait_idle (int ms) {
    struct timespec t0, t;
    clock_gettime (CLOCK_MONOTONIC, &t0);
    int quiet = 0;
    for (long it = 0;; it++) {
        if (shim::worker_idle.load ()) {
            int n = 0;
            ioctl (fifo_fd, FIONREAD, &n);
            if (n == 0 && shim::worker_idle.load ()) return true;
        }
        if (it < 300) { sched_yield (); continue; }
        clock_gettime (CLOCK_MONOTONIC, &t);
        long el = (t.tv_sec - t0.tv_sec) * 1000 + (t.tv_nsec - t0.tv_nsec) / 1000000;
        if (!shim::worker_seen.load () && el > 500) { // LazyFS does not use read() on the FIFO: judge by thread state
            int n = 0;
            ioctl (fifo_fd, FIONREAD, &n);
            if (n == 0 && threads_sleeping ()) quiet++;
            else quiet = 0;
            if (quiet >= 5) return true;
            usleep (2000);
            continue;
        }
        if (el > ms) return false;
        usleep (it < 1000 ? 20 : 500);
    }
}
void Kernel::command (const string& s, bool wait) {
    string t = s + "\n";
    rs::write (fifo_fd, t.data (), t.size ());
    if (wait && !wait_idle ()) fail ("command '%s' did not complete", s.substr (0, 200).c_str ());
}
int Kernel::lookup (const string& p, struct stat* st) {
    memset (st, 0, sizeof *st);
    shim::InFs g;
    return shim::ops->getattr (path (p).c_str (), st, nullptr);
}
int Kernel::open_h (int slot, const string& p, int f, bool lk) {
    struct stat st;
    int e = lk ? lookup (p, &st) : 0;
    KH& x = h[slot];
    memset (&x.fi, 0, sizeof x.fi);
    int fl = flag_bits (f);
    int r;
    if (e == -ENOENT && (fl & O_CREAT)) {
        x.fi.flags = fl;
        {
            shim::InFs g;
            r = shim::ops->create (path (p).c_str (), 0644, &x.fi);
            if (r == 0) {
                memset (&st, 0, sizeof st);
                int g2 = shim::ops->getattr (path (p).c_str (), &st, &x.fi);
                if (g2 == 0 && (!S_ISREG (st.st_mode))) g2 = -EIO;
                if (g2) r = g2;
                if (g2 && shim::ops->release) shim::ops->release (path (p).c_str (), &x.fi); // (so does libfuse)
            }
        }
    } else if (e) {
        return e;
    } else if ((fl & O_CREAT) && (fl & O_EXCL)) {
        return -EEXIST;
    } else {
        x.fi.flags = fl & ~(O_CREAT | O_EXCL);
        shim::InFs g;
        r = shim::ops->open (path (p).c_str (), &x.fi);
    }
    if (r == 0) { x.open = true; x.path = p; x.f = f; x.orphan = false; }
    return r;
}
int Kernel::close_h (int slot) {
    KH& x = h[slot];
    x.open = false;
    shim::InFs g;
    int r = 0;
    if (shim::ops->flush) shim::ops->flush (path (x.path).c_str (), &x.fi);
    if (shim::ops->release) r = shim::ops->release (path (x.path).c_str (), &x.fi);
    if (x.orphan) {
        bool other = false;
        for (auto& y : h)
            if (y.open && y.orphan && y.path == x.path) other = true;
        if (!other) shim::ops->unlink (path (x.path).c_str ());
    }
    return r;
}
int Kernel::write (const string& p, fuse_file_info* fi, const Bytes& d, int64_t off) {
    shim::InFs g;
    // the request buffer is exactly as long as the request: LazyFS must not rely on anything after it
    char* buf = (char*)malloc (d.size () ? d.size () : 1);
    memcpy (buf, d.data (), d.size ());
    int r = shim::ops->write (path (p).c_str (), buf, d.size (), off, fi);
    memset (buf, 0xdd, d.size ()); // and must not keep a reference to it
    free (buf);
    return r;
}
int Kernel::read (const string& p, fuse_file_info* fi, Bytes& out, int64_t off, int64_t len) {
    Bytes b (len + 128, 0xEE);
    int r;
    {
        shim::InFs g;
        r = shim::ops->read (path (p).c_str (), (char*)b.data () + 64, len, off, fi);
    }
    for (int i = 0; i < 64; i++)
        if (b[i] != 0xEE || b[64 + len + i] != 0xEE) fail ("read(%s,off=%lld,len=%lld) wrote outside its buffer", p.c_str (), (long long)off, (long long)len);
    if (r > len) fail ("read(%s,off=%lld,len=%lld) returned %d", p.c_str (), (long long)off, (long long)len, r);
    out.assign (b.begin () + 64, b.begin () + 64 + std::max (r, 0));
    return r;
}
int Kernel::handle_on (const string& p) {
    for (int i = 5; i >= 0; i--)
        if (h[i].open && !h[i].orphan && h[i].path == p) return i;
    return -1;
}
int Kernel::orphan () {
    for (int i = 5; i >= 0; i--)
        if (h[i].open && h[i].orphan) return i;
    return -1;
}
static string hide_name (Kernel& k, const string& p) {
    char b[64];
    snprintf (b, sizeof b, ".fuse_hidden%08x%08x", 1, ++k.hidden);
    string d = parent (p);
    return d.empty () ? b : d + "/" + b;
}
static int hide (Kernel& k, const string& p) {
    string hp = hide_name (k, p);
    struct stat st;
    k.lookup (hp, &st);
    int r;
    {
        shim::InFs g;
        r = shim::ops->rename (k.path (p).c_str (), k.path (hp).c_str (), 0);
    }
    if (r == 0)
        for (auto& x : k.h)
            if (x.open && !x.orphan && x.path == p) { x.orphan = true; x.path = hp; }
    return r;
}
int Kernel::unlink (const string& p) {
    struct stat st;
    int e = lookup (p, &st);
    if (e) return e;
    if (handle_on (p) >= 0) return hide (*this, p);
    shim::InFs g;
    return shim::ops->unlink (path (p).c_str ());
}
int Kernel::rename (const string& a, const string& b) {
    struct stat sa, sb;
    int e = lookup (a, &sa);
    if (e) return e;
    int eb = lookup (b, &sb);
    if (eb == -EIO) return eb;
    if (eb == 0 && handle_on (b) >= 0) {
        int r = hide (*this, b);
        if (r) return r;
    }
    int r;
    {
        shim::InFs g;
        r = shim::ops->rename (path (a).c_str (), path (b).c_str (), 0);
    }
    if (r == 0) {
        bool same = eb == 0 && sa.st_ino == sb.st_ino && !S_ISDIR (sa.st_mode);
        // libfuse moves its node to the new name
        for (auto& x : h) {
            if (!x.open) continue;
            if (x.path == a && !x.orphan) x.path = (same && handle_on (b) < 0 && x.path == a) ? b : b;
            else if (x.path.compare (0, a.size () + 1, a + "/") == 0) x.path = b + x.path.substr (a.size ());
        }
    }
    return r;
}
static int pick_kh (Kernel& k, int a, const string& p, bool w, bool r) {
    for (int i = 5; i >= 0; i--) {
        if (!k.h[i].open) continue;
        if (a == 254 ? !k.h[i].orphan : (k.h[i].orphan || k.h[i].path != p)) continue;
        if (w && !can_write (k.h[i].f)) continue;
        if (r && !can_read (k.h[i].f)) continue;
        return i;
    }
    return -1;
}
Res Kernel::apply (const Op& o, int step) {
    Res r;
    string A = o.a < cfg->names.size () ? cfg->names[o.a] : "", B = o.b < cfg->names.size () ? cfg->names[o.b] : "";
    struct stat st;
    auto with_handle = [&] (bool w, bool rd, int eph, auto&& fn) {
        int hs = pick_kh (*this, o.a, A, w, rd);
        bool tmp = hs < 0;
        if (tmp) {
            hs    = 5;
            int e = open_h (5, A, eph);
            if (e) { r.rc = e; return; }
        }
        fn (hs);
        if (tmp) {
            int e = close_h (5);
            if (e && r.rc >= 0) r.rc = e;
        }
    };
    switch (o.k) {
    case K_HOPEN: {
        int slot = 0;
        while (slot < 5 && h[slot].open) slot++;
        r.rc = open_h (slot, A, o.f);
        break;
    }
    case K_CREAT:
        r.rc = open_h (5, A, F_CREAT_RDWR);
        if (r.rc == 0) r.rc = close_h (5);
        break;
    case K_HCLOSE: r.rc = close_h (o.a == 254 ? orphan () : handle_on (A)); break;
    case K_WRITE:
        with_handle (true, false, F_WRONLY, [&] (int hs) {
            int64_t off = o.off;
            if (is_append (h[hs].f)) {
                shim::InFs g;
                memset (&st, 0, sizeof st);
                int e = shim::ops->getattr (path (h[hs].path).c_str (), &st, &h[hs].fi);
                if (e) { r.rc = e; return; }
                off = st.st_size;
            }
            r.rc = write (h[hs].path, &h[hs].fi, Model::payload (step, off, o.len), off);
        });
        break;
    case K_READ:
        with_handle (false, true, F_RDONLY, [&] (int hs) {
            r.rc = read (h[hs].path, &h[hs].fi, r.data, o.off, o.len);
            r.has_data = true;
        });
        break;
    case K_TRUNC: {
        int hs = o.f ? -1 : pick_kh (*this, o.a, A, true, false);
        string p = hs >= 0 ? h[hs].path : A;
        if (hs < 0) {
            r.rc = lookup (A, &st);
            if (r.rc) break;
        }
        shim::InFs g;
        r.rc = shim::ops->truncate (path (p).c_str (), o.off, hs >= 0 ? &h[hs].fi : nullptr);
        if (r.rc == 0) {
            memset (&st, 0, sizeof st);
            int e = shim::ops->getattr (path (p).c_str (), &st, hs >= 0 ? &h[hs].fi : nullptr);
            if (e) r.rc = e;
        }
        break;
    }
    case K_FSYNC:
        with_handle (false, false, F_RDWR, [&] (int hs) {
            shim::InFs g;
            r.rc = shim::ops->fsync (path (h[hs].path).c_str (), o.f, &h[hs].fi);
        });
        break;
    case K_CLEAR: command ("lazyfs::clear-cache"); break;
    case K_CKPT: command ("lazyfs::cache-checkpoint"); break;
    case K_REPORT: command ("lazyfs::unsynced-data-report"); break;
    case K_USAGE: command ("lazyfs::display-cache-usage"); break;
    case K_CMD: command (cfg->cmds[o.off]); break;
    case K_UNLINK: r.rc = unlink (A); break;
    case K_RENAME: r.rc = rename (A, B); break;
    case K_LINK: {
        r.rc = lookup (A, &st);
        if (r.rc) break;
        struct stat s2;
        int e = lookup (B, &s2);
        if (e == 0) { r.rc = -EEXIST; break; }
        if (e == -EIO) { r.rc = e; break; }
        shim::InFs g;
        r.rc = shim::ops->link (path (A).c_str (), path (B).c_str ());
        if (r.rc == 0) {
            memset (&s2, 0, sizeof s2);
            r.rc = shim::ops->getattr (path (B).c_str (), &s2, nullptr);
        }
        break;
    }
    case K_SYMLINK: {
        lookup (B, &st);
        shim::InFs g;
        r.rc = shim::ops->symlink ("t", path (B).c_str ());
        if (r.rc == 0) r.rc = shim::ops->getattr (path (B).c_str (), &st, nullptr);
        break;
    }
    case K_MKDIR: {
        lookup (A, &st);
        shim::InFs g;
        r.rc = shim::ops->mkdir (path (A).c_str (), 0755);
        break;
    }
    case K_RMDIR: {
        r.rc = lookup (A, &st);
        if (r.rc) break;
        shim::InFs g;
        r.rc = shim::ops->rmdir (path (A).c_str ());
        break;
    }
    case K_STAT: r.rc = lookup (A, &st); break;
    case K_ACCESS: {
        r.rc = lookup (A, &st);
        if (r.rc) break;
        shim::InFs g;
        if (shim::ops->access) r.rc = shim::ops->access (path (A).c_str (), (int)o.off);
        break;
    }
    case K_CHMOD: {
        r.rc = lookup (A, &st);
        if (r.rc) break;
        shim::InFs g;
        r.rc = shim::ops->chmod (path (A).c_str (), o.off, nullptr);
        break;
    }
    case K_CHOWN: {
        r.rc = lookup (A, &st);
        if (r.rc) break;
        shim::InFs g;
        r.rc = shim::ops->chown (path (A).c_str (), o.off, o.off, nullptr);
        break;
    }
    case K_UTIMENS: {
        r.rc = lookup (A, &st);
        if (r.rc) break;
        struct timespec ts[2] = {{1000000000 + o.off, 123000000 + step}, {1100000000 + o.off, 456000000 + step}};
        if (o.f == 1) ts[0].tv_nsec = UTIME_OMIT;
        if (o.f == 2) ts[1].tv_nsec = UTIME_OMIT;
        if (o.f == 3) ts[0].tv_nsec = ts[1].tv_nsec = UTIME_NOW;
        shim::InFs g;
        r.rc = shim::ops->utimens (path (A).c_str (), ts, nullptr);
        break;
    }
    case K_READLINK: {
        r.rc = lookup (A, &st);
        if (r.rc) break;
        char b[64];
        memset (b, 'Z', sizeof b);
        shim::InFs g;
        r.rc = shim::ops->readlink (path (A).c_str (), b, sizeof b);
        if (r.rc == 0) { r.data.assign (b, b + strnlen (b, sizeof b)); r.has_data = true; }
        break;
    }
    case K_READDIR: {
        if (A != "") r.rc = lookup (A, &st);
        if (r.rc) break;
        static std::set<string>* got;
        std::set<string> names;
        got = &names;
        struct fuse_file_info fi;
        memset (&fi, 0, sizeof fi);
        string P = path (A);
        auto fill = [] (void*, const char* n, const struct stat*, off_t, enum fuse_fill_dir_flags) { got->insert (n); return 0; };
        shim::InFs g;
        if (shim::ops->opendir) r.rc = shim::ops->opendir (P.c_str (), &fi);
        if (r.rc) break;
        r.rc = shim::ops->readdir (P.c_str (), nullptr, fill, 0, &fi, (enum fuse_readdir_flags)0);
        if (shim::ops->releasedir) shim::ops->releasedir (P.c_str (), &fi);
        for (auto& x : names)
            if (x != "." && x != "..") { r.data.insert (r.data.end (), x.begin (), x.end ()); r.data.push_back ('/'); }
        r.has_data = true;
        break;
    }
    case K_LSEEK: break;
    default: break;
    }
    return r;
}
string Kernel::read_log () {
    Bytes b;
    struct stat st;
    fflush (stdout);
    if (rs::fstat (1, &st)) return "";
    b.resize (st.st_size);
    char p[64];
    snprintf (p, sizeof p, "/proc/self/fd/1");
    int fd = rs::open (p, O_RDONLY);
    if (fd < 0) return "";
    ssize_t n = rs::pread (fd, b.data (), b.size (), 0);
    rs::close (fd);
    return string ((char*)b.data (), std::max<ssize_t> (n, 0));
}
void Kernel::truncate_log () { rs::ftruncate (1, 0); }
string Kernel::read_completed () {
    string s;
    char b[256];
    for (;;) {
        ssize_t n = rs::read (fifoc_fd, b, sizeof b);
        if (n <= 0) break;
        s.append (b, n);
    }
    return s;
}

// ================================================================================================================
Exec::Exec (const Cfg& c) : cfg (c) {
    m.init (c);
    k.cfg  = &c;
    k.root = shim::root;
    k.fifo = shim::root + ".fifo";
}
void Exec::start () { k.mount (); }
extern void count_state (uint64_t h);
extern void count_op ();
extern void progress (int step, int phase);

void Exec::apply (const Op& o) {
    progress (step, 1);
    Res e = m.apply (o);
    Res a = k.apply (o, step);
    progress (step, 2);
    step++;
    count_op ();
    if (judge & J_RC) {
        if (e.rc != a.rc) fail ("%s returned %d (%s), expected %d", fmt_op (cfg, o).c_str (), a.rc, a.rc < 0 ? strerror (-a.rc) : "", e.rc);
        if (e.has_data && e.data != a.data) fail ("%s returned %s, expected %s", fmt_op (cfg, o).c_str (), hex (a.data).c_str (), hex (e.data).c_str ());
    }
    bool sync = o.k == K_FSYNC || o.k == K_CKPT;
    if (sync && (judge & J_ADOPT_SYNC))
        for (size_t i = 0; i < m.in.size (); i++) adopt_dur (i);
    if (o.k == K_CLEAR && (m.weak || (judge & J_ADOPT_CLEAR))) {
        if (m.weak && (judge & (J_DISK | J_DISK_CLEAR))) check_disk ("at clear-cache");
        adopt ();
    } else if ((judge & J_DISK) || (sync && (judge & J_DISK_SYNC)) || (o.k == K_CLEAR && (judge & J_DISK_CLEAR)))
        check_disk ("after the operation");
    count_state (m.hash ());
}
static void walk_disk (const string& base, const string& rel, std::map<string, unsigned char>& out) {
    for (auto& e : rs::list_dir (rel.empty () ? base : base + "/" + rel)) {
        string q = rel.empty () ? e.name : rel + "/" + e.name;
        out[q] = e.type;
        if (e.type == DT_DIR) walk_disk (base, q, out);
    }
}
string disk_mismatch (const Model& m, const string& root) {
    std::map<string, unsigned char> d;
    walk_disk (root, "", d);
    for (auto& x : d) {
        string base = x.first.substr (x.first.rfind ('/') == string::npos ? 0 : x.first.rfind ('/') + 1);
        if (base.compare (0, 12, ".fuse_hidden") == 0) continue;
        if (!m.ns.count (x.first)) return "backing store has unexpected '" + x.first + "'";
    }
    for (auto& x : m.ns) {
        const MI& i = m.in[x.second];
        auto it = d.find (x.first);
        if (it == d.end ()) return "backing store lacks '" + x.first + "'";
        unsigned char want = i.type == MT_REG ? DT_REG : i.type == MT_DIR ? DT_DIR : DT_LNK;
        if (it->second != want) return "backing store object '" + x.first + "' has the wrong type";
        if (i.type != MT_REG) continue;
        Bytes b;
        rs::read_file (root + "/" + x.first, b);
        if (!i.loose) {
            if (b != i.dur) return "backing file '" + x.first + "' holds " + hex (b) + ", must hold " + hex (i.dur);
        } else {
            int64_t lo = std::min<int64_t> (i.smin, i.dur.size ()), hi = std::max<int64_t> (i.smax, i.dur.size ());
            if ((int64_t)b.size () < lo || (int64_t)b.size () > hi) {
                char t[160];
                snprintf (t, sizeof t, "backing file '%s' has size %zu, allowed %lld..%lld", x.first.c_str (), b.size (), (long long)lo, (long long)hi);
                return t;
            }
            for (size_t p = 0; p < b.size (); p++) {
                if (p < i.dur.size () && b[p] == i.dur[p]) continue;
                if (p >= i.dur.size () && b[p] == 0) continue;
                if (p < i.alt.size () && i.alt[p].count (b[p])) continue;
                char t[220];
                snprintf (t, sizeof t, "backing file '%s' byte %zu is %02x: neither the synced value nor one written since; file %s synced %s", x.first.c_str (), p, b[p],
                          hex (b).c_str (), hex (i.dur).c_str ());
                return t;
            }
        }
    }
    return "";
}
void Exec::check_disk (const char* when) {
    string s = disk_mismatch (m, k.root);
    if (!s.empty ()) fail ("%s: %s", when, s.c_str ());
}
// some path of the backing store that leads to model inode i, "" if none
static string disk_path (const Exec& e, int i) {
    for (auto& x : e.m.ns)
        if (x.second == i) return e.k.root + "/" + x.first;
    for (int s = 0; s < 6; s++)
        if (e.m.h[s].open && e.m.h[s].orphan && e.m.h[s].ino == i && e.k.h[s].open && e.k.h[s].orphan) return e.k.root + "/" + e.k.h[s].path;
    return "";
}
void Exec::adopt (int name) {
    for (size_t i = 0; i < m.in.size (); i++) {
        MI& x = m.in[i];
        if (x.type != MT_REG) continue;
        if (name >= 0 && m.lookup (cfg.names[name]) != (int)i) continue;
        string p = disk_path (*this, i);
        Bytes b;
        if (p.empty () || !rs::read_file (p, b)) continue;
        x.cur = x.dur = b;
        x.loose = false;
        x.alt.clear ();
    }
}
void Exec::adopt_dur (int ino) {
    MI& x = m.in[ino];
    if (x.type != MT_REG || x.dur == x.cur) {
        if (x.type != MT_REG) return;
    }
    string p = disk_path (*this, ino);
    Bytes b;
    if (p.empty () || !rs::read_file (p, b)) return;
    x.dur = b;
}
void Exec::check_view (const char* when, int sub) {
    std::map<int, ino_t> inos;
    for (auto& x : m.ns) {
        MI& i = m.in[x.second];
        struct stat st;
        int e = k.lookup (x.first, &st);
        if (e) fail ("%s: getattr(%s) = %d", when, x.first.c_str (), e);
        if (i.type != MT_REG) {
            if (i.type == MT_DIR ? !S_ISDIR (st.st_mode) : !S_ISLNK (st.st_mode)) fail ("%s: %s has the wrong type", when, x.first.c_str ());
            continue;
        }
        if (!S_ISREG (st.st_mode)) fail ("%s: %s is not a regular file", when, x.first.c_str ());
        if (st.st_size != (off_t)i.cur.size ()) fail ("%s: getattr(%s).size = %lld, expected %zu", when, x.first.c_str (), (long long)st.st_size, i.cur.size ());
        bool hidden = false;
        for (auto& hh : m.h)
            if (hh.open && hh.orphan && hh.ino == x.second) hidden = true; // an extra hidden link exists
        if (!no_nlink && !hidden && (int)st.st_nlink != i.nlink) fail ("%s: getattr(%s).nlink = %d, expected %d", when, x.first.c_str (), (int)st.st_nlink, i.nlink);
        auto it = inos.find (x.second);
        if (it != inos.end () && it->second != st.st_ino) fail ("%s: hard link %s has another inode number", when, x.first.c_str ());
        for (auto& y : inos)
            if (y.first != x.second && y.second == st.st_ino) fail ("%s: %s shares an inode number with another file", when, x.first.c_str ());
        inos[x.second] = st.st_ino;
        int e2 = k.open_h (5, x.first, F_RDONLY);
        if (e2) fail ("%s: open(%s) = %d", when, x.first.c_str (), e2);
        auto rd = [&] (int hs, int64_t off, int64_t len) {
            Bytes b;
            int r = k.read (k.h[hs].path, &k.h[hs].fi, b, off, len);
            int64_t e = std::min<int64_t> (i.cur.size (), off + len);
            Bytes want;
            if (e > off) want.assign (i.cur.begin () + off, i.cur.begin () + e);
            if (r != (int)want.size ()) fail ("%s: read(%s,off=%lld,len=%lld) returned %d, expected %zu", when, x.first.c_str (), (long long)off, (long long)len, r, want.size ());
            if (b != want) fail ("%s: read(%s,off=%lld,len=%lld) = %s, expected %s", when, x.first.c_str (), (long long)off, (long long)len, hex (b).c_str (), hex (want).c_str ());
        };
        int64_t n = i.cur.size ();
        rd (5, 0, n + cfg.bs + 1);
        if (sub) {
            if (n <= 24 && sub > 1)
                for (int64_t off = 0; off <= n; off++)
                    for (int64_t len = 1; off + len <= n + 2; len++) rd (5, off, len);
            else if (n <= 24)
                for (int64_t off = 0; off <= n; off++) {
                    rd (5, off, n + 2 - off);
                    if (off < n) rd (5, off, 1);
                    if (off + cfg.bs < n) rd (5, off, cfg.bs);
                }
            else
                for (int64_t off : {(int64_t)1, (int64_t)cfg.bs - 1, (int64_t)cfg.bs, (int64_t)cfg.bs + 1, n - 1, n})
                    for (int64_t len : {(int64_t)1, (int64_t)cfg.bs, (int64_t)cfg.bs + 2, (int64_t)3 * cfg.bs}) if (off >= 0) rd (5, off, len);
        }
        k.close_h (5);
        for (int s = 0; s < 5; s++)
            if (k.h[s].open && !k.h[s].orphan && k.h[s].path == x.first && can_read (k.h[s].f)) rd (s, 0, n + 3);
    }
    for (auto& n : cfg.names)
        if (!m.ns.count (n)) {
            struct stat st;
            int e = k.lookup (n, &st);
            if (e != -ENOENT && e != -ENOTDIR) fail ("%s: getattr(%s) = %d, expected ENOENT", when, n.c_str (), e);
        }
    for (int s = 0; s < 6; s++) // orphans stay readable through their handle
        if (m.h[s].open && m.h[s].orphan && can_read (m.h[s].f)) {
            int ks = s; // both sides hand out the lowest free slot
            if (!k.h[ks].open || !k.h[ks].orphan) continue;
            Bytes b;
            MI& i = m.in[m.h[s].ino];
            int r = k.read (k.h[ks].path, &k.h[ks].fi, b, 0, i.cur.size () + 3);
            if (r != (int)i.cur.size () || b != i.cur) fail ("%s: unlinked open file reads %s, expected %s", when, hex (b).c_str (), hex (i.cur).c_str ());
        }
}
void Exec::run (const Hist& h) {
    for (auto& o : h) apply (o);
}
void Exec::clear_and_check (int sub) {
    apply (mk (K_CLEAR));
    check_view ("after clear-cache", sub);
    if (judge & (J_DISK | J_DISK_CLEAR)) check_disk ("after clear-cache and reading back");
}
