// C24: namespace, permission and attribute calls mirrored on a plain directory of the same file system.
#include "scen.hpp"
#include <sys/xattr.h>
#include <sys/syscall.h>

enum { N_MKDIR, N_RMDIR, N_UNLINK, N_SYMLINK, N_READLINK, N_READDIR, N_CHMOD, N_CHOWN, N_ACCESS, N_LINK, N_RENAME, N_WRITE, N_CREAT, N_SETX, N_GETX, N_LISTX, N_RMX, N_CHMODV, N_CHOWNV, N_MKDIRV, N_CREATV, N_ACCESSV, N_SYMV, N_FILL, N_MAX };
static const char* nname[] = {"mkdir", "rmdir", "unlink", "symlink", "readlink", "readdir", "chmod", "chown", "access", "link", "rename", "write", "creat", "setxattr", "getxattr", "listxattr", "removexattr", "chmod", "chown", "mkdir", "creat", "access", "symlink", "(many files in)"};
struct Obs { string s; };
static string fmt_ns (const Cfg& c, const Case& k) {
    string r = "[" + c.name + "]";
    for (auto& o : k.h) r += string (" ") + nname[o.k] + "(" + c.names[o.a] + (o.k == N_LINK || o.k == N_RENAME || o.k == N_SYMLINK ? "," + c.names[o.b] : string ()) + (o.f ? ",#" + std::to_string (o.f) : string ()) + (o.k >= N_CHMODV ? "," + std::to_string (o.off) + (o.k == N_CHOWNV ? ":" + std::to_string (o.len) : "") : string ()) + ");";
    return r;
}
static int sysr (long r) { return r < 0 ? -errno : (int)r; }
static const char* targets[] = {"f", "d", "nowhere", "../f"};
static string long_target (int64_t n) {
    string t;
    while ((int64_t)t.size () < n) t += t.size () % 200 == 100 ? '/' : "abc.-_~ "[t.size () % 8];
    return t;
}
static const int modes[] = {0600, 0755, 04711, 0};
static const int amasks[] = {F_OK, R_OK, W_OK, X_OK};
static string sorted_list (std::map<string, int>& m) {
    string s;
    for (auto& x : m) s += x.first + ":" + std::to_string (x.second) + " ";
    return s;
}
// the plain call
static int plain (const string& root, const Cfg& c, const Op& o, string& out) {
    string A = root + "/" + c.names[o.a], B = root + "/" + c.names[o.b];
    switch (o.k) {
    case N_MKDIR: return sysr (syscall (SYS_mkdir, A.c_str (), o.f ? 0700 : 0755));
    case N_RMDIR: return sysr (syscall (SYS_rmdir, A.c_str ()));
    case N_UNLINK: return sysr (syscall (SYS_unlink, A.c_str ()));
    case N_SYMLINK: return sysr (syscall (SYS_symlink, targets[o.f], B.c_str ()));
    case N_READLINK: {
        char b[PATH_MAX + 1];
        long n = syscall (SYS_readlink, A.c_str (), b, PATH_MAX);
        if (n < 0) return -errno;
        out.assign (b, n);
        return 0;
    }
    case N_READDIR: {
        int fd = rs::open (A.c_str (), O_RDONLY | O_DIRECTORY);
        if (fd < 0) return -errno;
        rs::close (fd);
        std::map<string, int> m;
        for (auto& e : rs::list_dir (A)) m[e.name] = e.type;
        m["."] = DT_DIR; m[".."] = DT_DIR;
        out = sorted_list (m);
        return 0;
    }
    case N_CHMOD: return sysr (syscall (SYS_chmod, A.c_str (), modes[o.f]));
    case N_CHOWN: return sysr (syscall (SYS_lchown, A.c_str (), o.f ? 5 : -1, o.f ? 6 : 7));
    case N_ACCESS: return sysr (syscall (SYS_access, A.c_str (), amasks[o.f]));
    case N_LINK: return sysr (syscall (SYS_link, A.c_str (), B.c_str ()));
    case N_RENAME: return sysr (syscall (SYS_rename, A.c_str (), B.c_str ()));
    case N_CREAT: {
        int fd = rs::open (A.c_str (), O_CREAT | O_EXCL | O_RDWR, 0640);
        if (fd < 0) return -errno;
        rs::close (fd);
        return 0;
    }
    case N_SETX: return sysr (syscall (SYS_lsetxattr, A.c_str (), "user.t", "value", 5, 0));
    case N_GETX: {
        char b[64];
        long n = syscall (SYS_lgetxattr, A.c_str (), "user.t", b, sizeof b);
        if (n < 0) return -errno;
        out.assign (b, n);
        return n;
    }
    case N_LISTX: {
        char b[64];
        long n = syscall (SYS_llistxattr, A.c_str (), b, sizeof b);
        if (n < 0) return -errno;
        out.assign (b, n);
        return n;
    }
    case N_CHMODV: return sysr (syscall (SYS_chmod, A.c_str (), (mode_t)o.off));
    case N_CHOWNV: return sysr (syscall (SYS_lchown, A.c_str (), (uid_t)o.off, (gid_t)o.len));
    case N_MKDIRV: return sysr (syscall (SYS_mkdir, A.c_str (), (mode_t)o.off));
    case N_ACCESSV: return sysr (syscall (SYS_access, A.c_str (), (int)o.off));
    case N_SYMV: return sysr (syscall (SYS_symlink, long_target (o.off).c_str (), B.c_str ()));
    case N_CREATV: {
        int fd = rs::open (A.c_str (), O_CREAT | O_EXCL | O_RDWR, (mode_t)o.off);
        if (fd < 0) return -errno;
        rs::close (fd);
        return 0;
    }
    case N_RMX: return sysr (syscall (SYS_lremovexattr, A.c_str (), "user.t"));
    }
    return 0;
}
static std::map<string, int>* fill_to;
static int filler (void*, const char* name, const struct stat* st, off_t, enum fuse_fill_dir_flags) {
    (*fill_to)[name] = st ? (int)((st->st_mode & S_IFMT) >> 12) : 0;
    return 0;
}
static int through (Kernel& q, const Cfg& c, const Op& o, string& out) {
    string A = q.path (c.names[o.a]), B = q.path (c.names[o.b]);
    auto* f = shim::ops;
    shim::InFs g;
    switch (o.k) {
    case N_MKDIR: return f->mkdir (A.c_str (), o.f ? 0700 : 0755);
    case N_RMDIR: return f->rmdir (A.c_str ());
    case N_UNLINK: return f->unlink (A.c_str ());
    case N_SYMLINK: return f->symlink (targets[o.f], B.c_str ());
    case N_READLINK: {
        char b[PATH_MAX + 1];
        memset (b, 'Z', sizeof b);
        int r = f->readlink (A.c_str (), b, sizeof b);
        if (r == 0) {
            size_t n = strnlen (b, sizeof b);
            out.assign (b, n);
        }
        return r;
    }
    case N_READDIR: {
        std::map<string, int> m;
        fill_to = &m;
        struct fuse_file_info fi;
        memset (&fi, 0, sizeof fi);
        if (f->opendir) { int r = f->opendir (A.c_str (), &fi); if (r) return r; }
        int r = f->readdir (A.c_str (), nullptr, filler, 0, &fi, (enum fuse_readdir_flags)0);
        if (f->releasedir) f->releasedir (A.c_str (), &fi);
        if (r == 0) out = sorted_list (m);
        return r;
    }
    case N_CHMOD: return f->chmod (A.c_str (), modes[o.f], nullptr);
    case N_CHOWN: return f->chown (A.c_str (), o.f ? 5 : -1, o.f ? 6 : 7, nullptr);
    case N_ACCESS: return f->access (A.c_str (), amasks[o.f]);
    case N_LINK: return f->link (A.c_str (), B.c_str ());
    case N_RENAME: return f->rename (A.c_str (), B.c_str (), 0);
    case N_CREAT: {
        struct fuse_file_info fi;
        memset (&fi, 0, sizeof fi);
        fi.flags = O_CREAT | O_EXCL | O_RDWR;
        int r = f->create (A.c_str (), 0640, &fi);
        if (r) return r;
        if (f->flush) f->flush (A.c_str (), &fi);
        return f->release (A.c_str (), &fi);
    }
    case N_SETX: return f->setxattr ? f->setxattr (A.c_str (), "user.t", "value", 5, 0) : -ENOSYS;
    case N_GETX: {
        char b[64];
        int n = f->getxattr ? f->getxattr (A.c_str (), "user.t", b, sizeof b) : -ENOSYS;
        if (n > 0) out.assign (b, n);
        return n;
    }
    case N_LISTX: {
        char b[64];
        int n = f->listxattr ? f->listxattr (A.c_str (), b, sizeof b) : -ENOSYS;
        if (n > 0) out.assign (b, n);
        return n;
    }
    case N_CHMODV: return f->chmod (A.c_str (), (mode_t)o.off, nullptr);
    case N_CHOWNV: return f->chown (A.c_str (), (uid_t)o.off, (gid_t)o.len, nullptr);
    case N_MKDIRV: return f->mkdir (A.c_str (), (mode_t)o.off);
    case N_ACCESSV: return f->access (A.c_str (), (int)o.off);
    case N_SYMV: return f->symlink (long_target (o.off).c_str (), B.c_str ());
    case N_CREATV: {
        struct fuse_file_info fi;
        memset (&fi, 0, sizeof fi);
        fi.flags = O_CREAT | O_EXCL | O_RDWR;
        int r = f->create (A.c_str (), (mode_t)o.off, &fi);
        if (r) return r;
        if (f->flush) f->flush (A.c_str (), &fi);
        return f->release (A.c_str (), &fi);
    }
    case N_RMX: return f->removexattr ? f->removexattr (A.c_str (), "user.t") : -ENOSYS;
    }
    return 0;
}
static void dump_tree (const string& base, const string& rel, string& out) {
    std::map<string, unsigned char> es;
    for (auto& e : rs::list_dir (rel.empty () ? base : base + "/" + rel)) es[e.name] = e.type;
    for (auto& e : es) {
        string q = rel.empty () ? e.first : rel + "/" + e.first;
        struct stat st;
        char b[200];
        rs::lstat ((base + "/" + q).c_str (), &st);
        snprintf (b, sizeof b, "%o %d:%d %d", st.st_mode, st.st_uid, st.st_gid, (int)st.st_nlink);
        out += q + " " + b;
        if (e.second == DT_LNK) {
            char t[PATH_MAX];
            long n = syscall (SYS_readlink, (base + "/" + q).c_str (), t, sizeof t);
            out += " -> " + string (t, n > 0 ? n : 0);
        }
        out += "\n";
        if (e.second == DT_DIR) dump_tree (base, q, out);
    }
}
static void run_ns (const Cfg& c, const Case& k) {
    string mir = shim::root + ".mirror";
    prepare_root (c, shim::root);
    rs::mkdir (mir.c_str (), 0755);
    prepare_root (c, mir);
    spawn_ok ([&] {
        Kernel q;
        q.cfg = &c; q.root = shim::root; q.fifo = shim::root + ".fifo";
        q.mount ();
        std::map<ino_t, Bytes> content; // mirror inode -> visible content
        for (auto& p : c.pre) {
            struct stat st;
            rs::lstat ((mir + "/" + c.names[p.first]).c_str (), &st);
            content[st.st_ino] = Model::payload (240 + p.first, 0, p.second);
        }
        int step = 0;
        uint64_t hsh = 1;
        for (auto& o : k.h) {
            progress (step, 1);
            count_op ();
            const char* an = c.names[o.a].c_str ();
            struct stat st, ms;
            if (o.k == N_WRITE) {
                if (rs::lstat ((mir + "/" + an).c_str (), &ms) || !S_ISREG (ms.st_mode)) { step++; continue; }
                Kernel w;
                Bytes d = Model::payload (step, o.f, 6);
                if (q.open_h (5, an, F_RDWR)) fail ("open(%s) failed", an);
                int r = q.write (an, &q.h[5].fi, d, o.f);
                q.close_h (5);
                if (r != 6) fail ("write(%s) = %d", an, r);
                Bytes& x = content[ms.st_ino];
                if (x.size () < (size_t)o.f + 6) x.resize (o.f + 6, 0);
                std::copy (d.begin (), d.end (), x.begin () + o.f);
                step++;
                continue;
            }
            if (o.k == N_FILL) { // made behind LazyFS' back, before anything looks there
                for (auto& base : {shim::root, mir})
                    for (int64_t x = 0; x < o.off; x++) {
                        string n = base + "/" + an + "/" + (x % 3 == 0 ? "file " : x % 3 == 1 ? ".hidden" : "a-longer-name-for-an-entry-of-this-directory-") + std::to_string (x);
                        if (x % 7 == 3) rs::mkdir (n.c_str (), 0755);
                        else rs::write_file (n, "x", 0);
                    }
                step++;
                continue;
            }
            // the kernel looks names up before it acts on them
            for (int which = 0; which < 2; which++) {
                if (which == 1 && o.k != N_LINK && o.k != N_RENAME) break;
                string n = c.names[which ? o.b : (o.k == N_SYMLINK || o.k == N_SYMV ? o.b : o.a)];
                int r = q.lookup (n, &st), e = rs::lstat ((mir + "/" + n).c_str (), &ms) ? -errno : 0;
                if (r != e) fail ("getattr(%s) = %d, plain lstat gives %d", n.c_str (), r, e);
                if (r == 0 && (st.st_mode != ms.st_mode || st.st_nlink != ms.st_nlink || st.st_uid != ms.st_uid || st.st_gid != ms.st_gid))
                    fail ("getattr(%s): mode %o nlink %d owner %d:%d, plain lstat gives %o %d %d:%d", n.c_str (), st.st_mode, (int)st.st_nlink, st.st_uid, st.st_gid, ms.st_mode, (int)ms.st_nlink, ms.st_uid, ms.st_gid);
            }
            if ((o.k == N_CHMOD || o.k == N_CHMODV) && !rs::lstat ((mir + "/" + an).c_str (), &ms) && S_ISLNK (ms.st_mode)) { step++; continue; } // the kernel resolves links itself
            if ((o.k == N_ACCESS || o.k == N_ACCESSV) && !rs::lstat ((mir + "/" + an).c_str (), &ms) && S_ISLNK (ms.st_mode)) { step++; continue; }
            string so, po;
            int r = through (q, c, o, so), e = plain (mir, c, o, po);
            Case one;
            one.h = {o};
            if (r != e) fail ("%s = %d (%s), the plain file system gives %d (%s)", fmt_ns (c, one).c_str (), r, r < 0 ? strerror (-r) : "ok", e, e < 0 ? strerror (-e) : "ok");
            if (so != po) fail ("%s shows '%s', the plain file system '%s'", fmt_ns (c, one).c_str (), so.c_str (), po.c_str ());
            // libfuse looks a new name up before it answers
            if (r == 0 && (o.k == N_LINK || o.k == N_SYMLINK || o.k == N_SYMV || o.k == N_MKDIR || o.k == N_CREAT || o.k == N_MKDIRV || o.k == N_CREATV)) q.lookup (c.names[o.k == N_LINK || o.k == N_SYMLINK || o.k == N_SYMV ? o.b : o.a], &st);
            string t1, t2;
            dump_tree (shim::root, "", t1);
            dump_tree (mir, "", t2);
            if (t1 != t2) fail ("after %s the backing tree is\n%s\nexpected\n%s", fmt_ns (c, one).c_str (), t1.c_str (), t2.c_str ());
            hsh = std::hash<string>{}(t2);
            count_state (hsh);
            step++;
        }
        // every file still shows what was written to it, through every name
        std::function<void (const string&)> walk = [&] (const string& rel) {
            for (auto& en : rs::list_dir (rel.empty () ? mir : mir + "/" + rel)) {
                string n = rel.empty () ? en.name : rel + "/" + en.name;
                struct stat st, ms;
                rs::lstat ((mir + "/" + n).c_str (), &ms);
                int r = q.lookup (n, &st);
                if (r) fail ("at the end: getattr(%s) = %d", n.c_str (), r);
                if (st.st_mode != ms.st_mode || (!S_ISDIR (ms.st_mode) && st.st_nlink != ms.st_nlink)) fail ("at the end: getattr(%s): mode %o nlink %d, expected %o %d", n.c_str (), st.st_mode, (int)st.st_nlink, ms.st_mode, (int)ms.st_nlink);
                if (en.type == DT_DIR) walk (n);
                if (en.type != DT_REG) continue;
                Bytes b, &want = content[ms.st_ino];
                if (q.open_h (5, n, F_RDONLY)) fail ("at the end: open(%s) failed", n.c_str ());
                r = q.read (n, &q.h[5].fi, b, 0, 64);
                q.close_h (5);
                if (b != want) fail ("at the end: %s reads %s, expected %s", n.c_str (), hex (b).c_str (), hex (want).c_str ());
            }
        };
        walk ("");
    });
    rs::clean_dir (mir);
    rs::rmdir (mir.c_str ());
}
static vector<Cfg> ns_cfgs (int) {
    vector<Cfg> v;
    for (int warm = 0; warm < 2; warm++) {
        Cfg c = geo (warm ? "bs8, 2 blocks per page" : "bs4", warm ? 8 : 4, warm ? 2 : 1, 64, {{0, 6}, {2, 5}}, {"f", "d", "d/x", "n", "l", "f/z", "d/n", "e", "o/n"});
        c.predirs = {"d", "e"};
        c.presym  = {{"f", "l"}};
        v.push_back (c);
    }
    return v;
}
static vector<Op> ns_all () {
    vector<Op> v;
    auto add = [&] (int k, int a, int b = 0, int f = 0) { v.push_back (mk ((OpKind)k, a, 0, 0, b, f)); };
    for (int a = 0; a < 9; a++) {
        add (N_MKDIR, a, 0, a & 1); add (N_RMDIR, a); add (N_UNLINK, a); add (N_SYMLINK, 0, a, a % 4); add (N_READLINK, a); add (N_READDIR, a); add (N_CHMOD, a, 0, a % 4); add (N_CHOWN, a, 0, a & 1);
        add (N_ACCESS, a, 0, 0); add (N_ACCESS, a, 0, 3); add (N_CREAT, a);
        for (int b = 0; b < 9; b++) { add (N_LINK, a, b); if (a != b) add (N_RENAME, a, b); } // (the kernel never forwards a rename onto itself)
    }
    add (N_WRITE, 0, 0, 3); add (N_WRITE, 2, 0, 4); add (N_WRITE, 3, 0, 0);
    return v;
}
static void gen_seq (const vector<vector<Op>>& st, Shard s, const CB& cb) {
    Case cs;
    long idx = 0;
    std::function<void (size_t)> rec = [&] (size_t d) {
        if (stopping ()) return;
        if (d == 2 && (idx++ % s.n) != s.k) return;
        if (d == st.size ()) { cb (cs); return; }
        for (auto& o : st[d]) { cs.h.push_back (o); rec (d + 1); cs.h.pop_back (); }
    };
    rec (0);
}
static Reg c24a ({"C24", "pairs", "every pair of 260 namespace calls (all kinds on all names, failing cases included) with unsynced data in two files", ns_cfgs,
    [] (const Cfg&, int, Shard s, const CB& cb) {
        vector<Op> a = ns_all (), w = {mk ((OpKind)N_WRITE, 0, 0, 0, 0, 3)}, w2 = {mk ((OpKind)N_WRITE, 2, 0, 0, 0, 4)};
        Case cs;
        long idx = 0;
        for (auto& x : a)
            for (auto& y : a) {
                if ((idx++ % s.n) != s.k) continue;
                if (stopping ()) return;
                cs.h = {w[0], w2[0], x, y};
                cb (cs);
            }
    },
    run_ns, fmt_ns});
static Reg c24b ({"C24", "sequences", "longer sequences of tree-changing calls on a directory, files, links and a missing name", ns_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        vector<Op> a;
        auto add = [&] (int k, int x, int b = 0, int f = 0) { a.push_back (mk ((OpKind)k, x, 0, 0, b, f)); };
        add (N_MKDIR, 3); add (N_RMDIR, 1); add (N_RMDIR, 7); add (N_UNLINK, 0); add (N_UNLINK, 2); add (N_UNLINK, 4); add (N_SYMLINK, 0, 3, 1); add (N_LINK, 0, 3); add (N_LINK, 2, 3); add (N_RENAME, 0, 3); add (N_RENAME, 3, 0); add (N_RENAME, 1, 7); add (N_RENAME, 7, 1); add (N_RENAME, 1, 3); add (N_RENAME, 2, 0); add (N_RENAME, 4, 0); add (N_CREAT, 0); add (N_CREAT, 6); add (N_WRITE, 0, 0, 3); add (N_WRITE, 2, 0, 1);
        add (N_CHMOD, 2, 0, 2); add (N_READDIR, 1);
        vector<vector<Op>> st (tier ? 4 : 3, a);
        gen_seq (st, s, cb);
    },
    run_ns, fmt_ns});

static Reg c24c ({"C24", "values", "every mode of chmod, mkdir and create, grids of owners, every access mask, symbolic link targets of every length, directories of 0-1000 entries",
    [] (int) {
        Cfg c = geo ("bs4", 4, 1, 64, {{0, 6}}, {"f", "d", "n", "l"});
        c.predirs = {"d"};
        return vector<Cfg>{c};
    },
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Case cs;
        long idx = 0;
        auto one = [&] (Hist h) {
            if ((idx++ % s.n) != s.k || stopping ()) return;
            cs.h = h;
            cb (cs);
        };
        auto op = [] (int k, int a, int64_t off, int64_t len = 0, int b = 0, int f = 0) { return mk ((OpKind)k, a, off, len, b, f); };
        Op w = op (N_WRITE, 0, 0, 0, 0, 3);
        for (int m = 0; m < 010000; m++) {
            one ({w, op (N_CHMODV, 0, m), op (N_CHMODV, 1, m)});
            one ({op (N_MKDIRV, 2, m), op (N_CREATV, 3, m & 0777)});
        }
        for (int m = 0; m < 01000; m++) for (int a = 0; a < 8; a++) if (tier || m % 9 == 0) one ({op (N_CHMODV, 0, m), op (N_ACCESSV, 0, a), op (N_ACCESSV, 1, a), op (N_ACCESSV, 2, a)});
        vector<int64_t> ids = {-1, 0, 1, 7, 1000, 65534, 65535, 65536, 100000, 0x7fffffff, 0x80000000ll, 0xfffffffell};
        for (auto u : ids) for (auto g : ids) one ({w, op (N_CHOWNV, 0, u, g), op (N_CHOWNV, 1, u, g), op (N_SYMLINK, 0, 0, 0, 3), op (N_CHOWNV, 3, u, g)});
        for (int n = 0; n <= 4100; n += n < 20 || (n > 90 && n < 110) || (n > 240 && n < 270) || (n > 1010 && n < 1030) || n > 4080 ? 1 : tier ? 1 : 10) one ({op (N_SYMV, 0, n, 0, 3), op (N_READLINK, 3, 0)});
        for (int n : {0, 1, 2, 3, 10, 50, 100, 127, 128, 129, 255, 256, 257, 500, 1000}) { one ({op (N_FILL, 1, n), op (N_READDIR, 1, 0), op (N_RMDIR, 1, 0), op (N_RENAME, 1, 0, 0, 2), op (N_READDIR, 2, 0)}); }
    },
    run_ns, fmt_ns});
static Reg c24d ({"C24", "odd-names", "names with blanks, quotes, braces, percent signs, brackets, line ends, bytes that are not UTF-8, names like commands, of 255 and of 256 bytes: every pair of 60 namespace calls, operations logged",
    [] (int) {
        vector<Cfg> v;
        vector<string> odd = odd_names (true);
        odd.push_back (string (256, 'n'));
        for (size_t i = 0; i < odd.size (); i++) {
            string o = odd[i], o2 = o.size () < 250 ? o + "2" : string (254, 'm');
            bool ok = o.size () < 256;
            Cfg c = geo ("odd name " + std::to_string (i), 4, 1, 64, {{2, 5}}, {o, "d", "d/x", o2, "l", "f/z", "d/" + o, o2 + "e", "o/n"});
            if (ok) c.pre.push_back ({0, 6});
            if (ok) c.pre.push_back ({6, 3});
            c.predirs = {"d"};
            c.log_ops = true;
            v.push_back (c);
        }
        return v;
    },
    [] (const Cfg& c, int, Shard s, const CB& cb) {
        vector<Op> a;
        auto add = [&] (int k, int x, int b = 0, int f = 0) { a.push_back (mk ((OpKind)k, x, 0, 0, b, f)); };
        for (int x : {0, 3, 6}) { add (N_MKDIR, x, 0, 1); add (N_RMDIR, x); add (N_UNLINK, x); add (N_SYMLINK, 0, x, 1); add (N_READLINK, x); add (N_READDIR, x); add (N_CHMOD, x, 0, 1); add (N_CHOWN, x, 0, 1); add (N_ACCESS, x, 0, 1); add (N_CREAT, x); add (N_WRITE, x, 0, 2); }
        for (int x : {0, 1, 2, 3, 6}) for (int b : {0, 3, 6, 7}) if (x != b) { add (N_RENAME, x, b); add (N_LINK, x, b); }
        add (N_READDIR, 1);
        Case cs;
        long idx = 0;
        for (auto& x : a) for (auto& y : a) {
            if ((idx++ % s.n) != s.k) continue;
            if (stopping ()) return;
            cs.h = {mk ((OpKind)N_WRITE, 0, 0, 0, 0, 3), x, y};
            cb (cs);
        }
    },
    run_ns, fmt_ns, 1});
