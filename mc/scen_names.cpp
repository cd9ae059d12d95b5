// Hard links, renames, unlinks, attributes: C08, C09, C10
#include "scen.hpp"
#include <time.h>

static bool has (const Hist& h, std::initializer_list<int> ks) {
    for (auto& o : h) for (int k : ks) if (o.k == k) return true;
    return false;
}
static void run_names (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = J_ALL;
        e.start ();
        e.run (k.h);
        e.check_view ("at the end", 0);
        e.check_disk ("after reading everything");
        e.clear_and_check (0);
    });
}
// ---- C08 ---------------------------------------------------------------------------------------------------------
static vector<Cfg> link_cfgs (int) {
    Cfg a = geo ("bs4 x1, a", 4, 1, 64, {{0, 6}}, {"a", "b", "c"});
    Cfg b = geo ("bs4 x1, a=b linked before the mount", 4, 1, 64, {{0, 6}}, {"a", "b", "c"});
    b.prelink = {{"a", "b"}};
    Cfg d = geo ("bs4 x2, a=b linked before the mount, c", 4, 2, 64, {{0, 0}, {2, 5}}, {"a", "b", "c"});
    d.prelink = {{"a", "b"}};
    return {a, b, d};
}
static vector<Op> link_ops () {
    return {mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 1, 5, 6), mk (K_WRITE, 2, 2, 4), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 1, 10), mk (K_FSYNC, 0), mk (K_FSYNC, 1), mk (K_LINK, 0, 0, 0, 1), mk (K_LINK, 1, 0, 0, 2), mk (K_LINK, 0, 0, 0, 2),
            mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 2), mk (K_RENAME, 2, 0, 0, 0), mk (K_CREAT, 0), mk (K_CLEAR)};
}
static Reg c08a ({"C08", "links", "three names, two of them links of one file: every sequence of writes, truncates, syncs, links, unlinks, renames (also onto another link), creates and clears",
    link_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        bool pre = !c.prelink.empty ();
        o.accept = [=] (const Model&, const Hist& h) { return pre || has (h, {K_LINK}); };
        enum_hist (c, link_ops (), o, s, cb);
    },
    run_names, nullptr});
static Reg c08b ({"C08", "links-open", "links with an open handle on one of the names (libfuse hides open names instead of unlinking them)",
    [] (int t) { auto v = link_cfgs (t); v.erase (v.begin ()); return v; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> a = {mk (K_NOP), mk (K_WRITE, 0, 1, 4), mk (K_WRITE, 1, 5, 6), mk (K_WRITE, 254, 2, 9), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 254, 3), mk (K_FSYNC, 1), mk (K_FSYNC, 254), mk (K_LINK, 0, 0, 0, 2), mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_HCLOSE, 0), mk (K_HCLOSE, 254), mk (K_CLEAR)};
        vector<vector<Op>> st = {{mk (K_HOPEN, 0), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_APPEND)}, a, a, a, a};
        if (!tier) st.pop_back ();
        enum_stages (c, st, s, cb);
    },
    run_names, nullptr});
static Reg c08c ({"C08", "links-deep", "two names of one file, few operations, deep",
    [] (int t) { auto v = link_cfgs (t); v.erase (v.begin () + 2); return v; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 5;
        o.hi = tier ? 7 : 6;
        enum_hist (c, {mk (K_WRITE, 0, 3, 3), mk (K_WRITE, 1, 0, 2), mk (K_FSYNC, 1), mk (K_LINK, 0, 0, 0, 1), mk (K_UNLINK, 0), mk (K_RENAME, 1, 0, 0, 0), mk (K_CLEAR)}, o, s, cb);
    },
    run_names, nullptr});
// ---- C09 ---------------------------------------------------------------------------------------------------------
static vector<Cfg> file_cfgs (int) {
    return {geo ("bs4 x1, a b", 4, 1, 64, {{0, 6}, {1, 3}}, {"a", "b", "c"}), geo ("bs4 x2, a", 4, 2, 64, {{0, 9}}, {"a", "b", "c"})};
}
static Reg c09a ({"C09", "files", "three names: every sequence of writes, truncates, syncs, renames (also over existing files), unlinks, re-creations and clears; inode numbers are reused at once",
    file_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        o.accept = [=] (const Model&, const Hist& h) { return has (h, {K_RENAME, K_UNLINK}); };
        enum_hist (c, {mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 5, 6), mk (K_WRITE, 1, 2, 4), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 1, 10), mk (K_FSYNC, 0), mk (K_FSYNC, 1), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_RENAME, 1, 0, 0, 2),
                       mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_CREAT, 0), mk (K_CREAT, 1), mk (K_CLEAR)}, o, s, cb);
    },
    run_names, nullptr});
static Reg c09b ({"C09", "open-handles", "renames and unlinks of open files: the handle stays with its file, which stays usable until closed, and its number may then be reused",
    file_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> a = {mk (K_NOP), mk (K_WRITE, 0, 1, 4), mk (K_WRITE, 1, 5, 6), mk (K_WRITE, 254, 2, 9), mk (K_TRUNC, 254, 3), mk (K_FSYNC, 0), mk (K_FSYNC, 254), mk (K_READ, 254, 0, 20), mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_CREAT, 0), mk (K_HCLOSE, 0), mk (K_HCLOSE, 1), mk (K_HCLOSE, 254), mk (K_HOPEN, 1), mk (K_CLEAR)};
        vector<vector<Op>> st = {{mk (K_HOPEN, 0), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_APPEND), mk (K_HOPEN, 0, 0, 0, 0, F_RDONLY)}, a, a, a, a};
        if (!tier) st.pop_back ();
        enum_stages (c, st, s, cb);
    },
    run_names, nullptr});
static Reg c09c ({"C09", "directories", "a small tree: directory renames (also over an empty directory) carry the files in them, whatever was cached, opened or synced",
    [] (int) {
        Cfg a = geo ("bs4 x1, d/x dd/x d2/", 4, 1, 64, {{1, 6}, {3, 3}}, {"d", "d/x", "dd", "dd/x", "e", "e/x", "f"});
        a.predirs = {"d", "dd"};
        Cfg b = geo ("bs4 x1, d/s/x e/", 4, 1, 64, {{1, 6}}, {"d", "d/s/x", "d/s", "e", "e/s/x", "f", "f/x"});
        b.predirs = {"d", "d/s", "e"};
        b.names = {"d", "d/s/x", "d/s", "e", "e/s/x", "f", "f/x"};
        return vector<Cfg>{a, b};
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        o.accept = [=] (const Model&, const Hist& h) { return has (h, {K_RENAME, K_UNLINK}); };
        vector<Op> a;
        if (c.names[1] == "d/x")
            a = {mk (K_WRITE, 1, 0, 3), mk (K_WRITE, 1, 5, 6), mk (K_WRITE, 3, 1, 4), mk (K_WRITE, 5, 2, 4), mk (K_TRUNC, 1, 2), mk (K_FSYNC, 1), mk (K_FSYNC, 5), mk (K_RENAME, 0, 0, 0, 4), mk (K_RENAME, 4, 0, 0, 0), mk (K_RENAME, 1, 0, 0, 6),
                 mk (K_RENAME, 1, 0, 0, 3), mk (K_MKDIR, 4), mk (K_MKDIR, 0), mk (K_RMDIR, 4), mk (K_UNLINK, 1), mk (K_UNLINK, 5), mk (K_CREAT, 1), mk (K_CLEAR)};
        else
            a = {mk (K_WRITE, 1, 0, 3), mk (K_WRITE, 4, 5, 6), mk (K_TRUNC, 1, 2), mk (K_FSYNC, 1), mk (K_FSYNC, 4), mk (K_RENAME, 0, 0, 0, 3), mk (K_RENAME, 3, 0, 0, 0), mk (K_RENAME, 2, 0, 0, 5), mk (K_WRITE, 6, 1, 5), mk (K_FSYNC, 6),
                 mk (K_RENAME, 5, 0, 0, 2), mk (K_MKDIR, 0), mk (K_HOPEN, 1), mk (K_UNLINK, 1), mk (K_UNLINK, 4), mk (K_UNLINK, 6), mk (K_CREAT, 1), mk (K_CREAT, 4), mk (K_CLEAR)};
        enum_hist (c, a, o, s, cb);
    },
    run_names, nullptr});
static Reg c09f ({"C09", "nested", "files below a sub-directory: moved with the tree, removed or changed there, moved back, created again",
    [] (int) {
        Cfg b = geo ("bs4 x1, d/s/x d/s/.y e/", 4, 1, 64, {{1, 6}, {7, 5}}, {"d", "d/s/x", "d/s", "e", "e/s/x", "f", "f/x", "d/s/.y", "e/s/.y", "g"});
        b.predirs = {"d", "d/s", "e"};
        return vector<Cfg>{b};
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> ends = {mk (K_NOP), mk (K_CREAT, 1), mk (K_CREAT, 7), mk (K_WRITE, 1, 1, 2), mk (K_UNLINK, 1), mk (K_CREAT, 9), mk (K_WRITE, 9, 0, 3), mk (K_CLEAR), mk (K_TRUNC, 1, 9), mk (K_UNLINK, 7), mk (K_RENAME, 7, 0, 0, 1)};
        vector<vector<Op>> st = {{mk (K_WRITE, 1, 0, 3), mk (K_HOPEN, 1), mk (K_HOPEN, 7), mk (K_TRUNC, 1, 2), mk (K_WRITE, 7, 4, 4), mk (K_FSYNC, 1)},
                                 {mk (K_RENAME, 0, 0, 0, 3), mk (K_RENAME, 2, 0, 0, 5)},
                                 {mk (K_NOP), mk (K_UNLINK, 4), mk (K_UNLINK, 6), mk (K_WRITE, 4, 5, 6), mk (K_WRITE, 6, 5, 6), mk (K_TRUNC, 4, 1), mk (K_FSYNC, 4), mk (K_UNLINK, 8), mk (K_RENAME, 8, 0, 0, 4), mk (K_RENAME, 4, 0, 0, 9), mk (K_MKDIR, 0), mk (K_MKDIR, 2), mk (K_CLEAR)},
                                 {mk (K_NOP), mk (K_RENAME, 3, 0, 0, 0), mk (K_RENAME, 5, 0, 0, 2), mk (K_RENAME, 4, 0, 0, 9), mk (K_MKDIR, 2), mk (K_CREAT, 1), mk (K_CREAT, 9)},
                                 ends, ends};
        if (!tier) st.pop_back ();
        enum_stages (c, st, s, cb);
    },
    run_names, nullptr});
static Reg c09d ({"C09", "reuse-deep", "two names, few operations, deep: data, size and times of a removed file never come back",
    [] (int) { return vector<Cfg>{geo ("bs4 x1", 4, 1, 64, {{0, 6}}, {"a", "b"})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 5;
        o.hi = tier ? 8 : 6;
        o.accept = [=] (const Model&, const Hist& h) { return has (h, {K_RENAME, K_UNLINK}); };
        enum_hist (c, {mk (K_WRITE, 0, 0, 6), mk (K_WRITE, 1, 2, 2), mk (K_CREAT, 0), mk (K_CREAT, 1), mk (K_UNLINK, 0), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_FSYNC, 0), mk (K_CLEAR)}, o, s, cb);
    },
    run_names, nullptr});
// symbolic links beside and inside renamed trees, renames of links over cached files
static Reg c09e ({"C09", "symlinks", "symbolic links renamed over cached files, directories containing links to other trees renamed",
    [] (int) {
        Cfg a = geo ("bs4 x1, a, l->a, d/x, d/l->../o, o/x", 4, 1, 64, {{0, 6}, {3, 5}, {6, 7}}, {"a", "l", "d", "d/x", "e", "e/x", "o/x", "d/l", "e/l", "o"});
        a.predirs = {"d", "o"};
        a.presym  = {{"a", "l"}, {"../o", "d/l"}};
        return vector<Cfg>{a};
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        enum_hist (c, {mk (K_WRITE, 0, 2, 6), mk (K_WRITE, 3, 1, 6), mk (K_WRITE, 6, 1, 9), mk (K_RENAME, 1, 0, 0, 0), mk (K_RENAME, 2, 0, 0, 4), mk (K_RENAME, 4, 0, 0, 2), mk (K_RENAME, 0, 0, 0, 1), mk (K_UNLINK, 1), mk (K_FSYNC, 6), mk (K_FSYNC, 0), mk (K_CREAT, 0), mk (K_CLEAR)}, o, s, cb);
    },
    run_names, nullptr});
// ---- C10 ---------------------------------------------------------------------------------------------------------
static struct timespec nowts () { struct timespec t; clock_gettime (CLOCK_REALTIME, &t); return t; }
static int64_t ns (const struct timespec& t) { return (int64_t)t.tv_sec * 1000000000 + t.tv_nsec; }
static bool cfg_blocks (const Cfg& c) { return c.bs >= 512; }
struct AT { bool mk = false, ak = false; int64_t m = 0, a = 0; unsigned mode = 0644, uid = 0; bool moved = false; int64_t lb = 0; };
static void run_attr (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = J_ADOPT_CLEAR;
        e.start ();
        std::map<int, AT> at;
        bool each = c.p1;
        auto observe = [&] (const char* when) {
            std::map<int, ino_t> inos;
            for (auto& x : e.m.ns) {
                MI& i = e.m.in[x.second];
                struct stat st, st2;
                for (int rep = 0; rep < 2; rep++) { // uncached and cached answers
                    int r = e.k.lookup (x.first, &st);
                    if (r) fail ("%s: getattr(%s) = %d", when, x.first.c_str (), r);
                    rs::lstat ((e.k.root + "/" + x.first).c_str (), &st2);
                    const char* n = x.first.c_str ();
                    unsigned ty = i.type == MT_REG ? S_IFREG : i.type == MT_DIR ? S_IFDIR : S_IFLNK;
                    if ((st.st_mode & S_IFMT) != ty) fail ("%s: %s has type %o", when, n, st.st_mode & S_IFMT);
                    if (st.st_mode != st2.st_mode || st.st_uid != st2.st_uid || st.st_gid != st2.st_gid) fail ("%s: mode/owner of %s are %o %d:%d, backing store has %o %d:%d", when, n, st.st_mode, st.st_uid, st.st_gid, st2.st_mode, st2.st_uid, st2.st_gid);
                    if (i.type == MT_LNK) continue;
                    if ((st.st_mode & 07777) != i.mode || st.st_uid != i.uid || st.st_gid != i.gid) fail ("%s: mode/owner of %s are %o %d:%d, expected %o %d", when, n, st.st_mode & 07777, st.st_uid, st.st_gid, i.mode, i.uid);
                    if (i.type != MT_REG) continue;
                    if (st.st_size != (off_t)i.cur.size ()) fail ("%s: size of %s is %lld, expected %zu", when, n, (long long)st.st_size, i.cur.size ());
                    bool hidden = false;
                    for (auto& hh : e.m.h) if (hh.open && hh.orphan && hh.ino == x.second) hidden = true;
                    if (!hidden && (int)st.st_nlink != i.nlink) fail ("%s: link count of %s is %d, expected %d", when, n, (int)st.st_nlink, i.nlink);
                    if (inos.count (x.second) && inos[x.second] != st.st_ino) fail ("%s: links of one file differ in inode number", when);
                    inos[x.second] = st.st_ino;
                    if (cfg_blocks (c) && (st.st_blocks * 512 < st.st_size || st.st_blocks * 512 > st.st_size + 2 * 4096)) fail ("%s: %s has size %lld but st_blocks %lld", when, n, (long long)st.st_size, (long long)st.st_blocks);
                    AT& a = at[x.second];
                    int64_t m = ns (st.st_mtim), ac = ns (st.st_atim);
                    if (a.mk && m != a.m) fail ("%s: mtime of %s is %lld, expected unchanged %lld", when, n, (long long)m, (long long)a.m);
                    if (a.ak && ac != a.a) fail ("%s: atime of %s is %lld, expected %lld", when, n, (long long)ac, (long long)a.a);
                    if (a.moved && m < a.lb - 15000000) fail ("%s: mtime of %s did not move forward (%lld < %lld)", when, n, (long long)m, (long long)a.lb);
                    if (each || rep == 0) { a.mk = true; a.m = m; a.moved = false; }
                }
            }
        };
        if (each) observe ("at the start");
        for (auto& o : k.h) {
            struct timespec t = nowts ();
            string A = o.a < c.names.size () ? c.names[o.a] : "";
            int ia = o.a == 254 ? -1 : e.m.lookup (A);
            int64_t before = ia >= 0 ? e.m.in[ia].cur.size () : -1;
            int step = e.step;
            e.apply (o);
            if (ia < 0) ia = e.m.lookup (A);
            if (o.k == K_CLEAR) at.clear ();
            if (ia >= 0 && e.m.in[ia].type == MT_REG) {
                AT& a = at[ia];
                if (o.k == K_WRITE || (o.k == K_TRUNC && before != o.off)) { a.mk = a.ak = false; a.moved = true; a.lb = ns (t); }
                if (o.k == K_TRUNC && before == o.off) a.mk = a.ak = false;
                if (o.k == K_HOPEN && (flag_bits (o.f) & (O_TRUNC | O_CREAT))) { a.mk = a.ak = false; if (before > 0 && (flag_bits (o.f) & O_TRUNC)) { a.moved = true; a.lb = ns (t); } }
                if (o.k == K_CREAT) a.mk = a.ak = false;
                if (o.k == K_READ || o.k == K_HOPEN || o.k == K_FSYNC || o.k == K_RENAME || o.k == K_LINK || o.k == K_UNLINK) a.ak = false; // reading, opening may touch atime
                if (o.k == K_UTIMENS) {
                    int64_t ea = (int64_t)(1000000000 + o.off) * 1000000000 + 123000000 + step, em = (int64_t)(1100000000 + o.off) * 1000000000 + 456000000 + step;
                    if (o.f == 0 || o.f == 1) { a.mk = true; a.m = em; a.moved = false; }
                    if (o.f == 0 || o.f == 2) { a.ak = true; a.a = ea; }
                    if (o.f == 1) {} // atime omitted: as before
                    if (o.f == 3) { a.mk = a.ak = false; a.moved = true; a.lb = ns (t); }
                }
            }
            if (each) observe ("after the operation");
        }
        observe ("at the end");
    });
}
static vector<Cfg> attr_cfgs (int) {
    vector<Cfg> v;
    for (int each = 0; each < 2; each++) {
        Cfg c = geo (each ? "bs512, observed after every operation" : "bs512, observed at the end", 512, 1, 64, {{0, 600}}, {"a", "b"});
        c.p1 = each;
        v.push_back (c);
        c = geo (each ? "bs4096 x2, links, observed after every operation" : "bs4096 x2, links, observed at the end", 4096, 2, 64, {{0, 5000}}, {"a", "b"});
        c.prelink = {{"a", "b"}};
        c.p1 = each;
        v.push_back (c);
    }
    return v;
}
static Reg c10a ({"C10", "attributes", "one file under one or two names: every sequence of data, attribute, link and clear operations; type, mode, owner, inode, size, links, blocks, times",
    attr_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        enum_hist (c, {mk (K_WRITE, 0, 10, 20), mk (K_WRITE, 0, 700, 600), mk (K_TRUNC, 0, 100), mk (K_TRUNC, 0, 2000), mk (K_READ, 0, 0, 50), mk (K_FSYNC, 0), mk (K_FSYNC, 0, 0, 0, 0, 1), mk (K_CHMOD, 0, 0600), mk (K_CHOWN, 0, chown_id (7)), mk (K_UTIMENS, 0, 0), mk (K_UTIMENS, 0, 5, 0, 0, 1), mk (K_UTIMENS, 0, 9, 0, 0, 2), mk (K_UTIMENS, 0, 0, 0, 0, 3),
                       mk (K_LINK, 0, 0, 0, 1), mk (K_UNLINK, 1), mk (K_RENAME, 0, 0, 0, 1), mk (K_HOPEN, 0), mk (K_CLEAR)}, o, s, cb);
    },
    run_attr, nullptr});
static Reg c10b ({"C10", "attributes-tree", "files, a directory and a symbolic link: creation, chmod, chown, utimens, rename over, re-creation with inode reuse",
    [] (int) {
        vector<Cfg> v;
        for (int each = 0; each < 2; each++) {
            Cfg c = geo (each ? "bs512, observed after every operation" : "bs512, observed at the end", 512, 1, 64, {{0, 600}}, {"a", "b", "d", "l"});
            c.p1 = each;
            c.predirs = {"d"};
            v.push_back (c);
        }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        enum_hist (c, {mk (K_CREAT, 1), mk (K_WRITE, 1, 3, 700), mk (K_WRITE, 0, 3, 700), mk (K_UTIMENS, 0, 0), mk (K_UTIMENS, 1, 3), mk (K_CHMOD, 0, 0400), mk (K_CHMOD, 2, 0700), mk (K_CHOWN, 2, chown_id (5)), mk (K_SYMLINK, 0, 0, 0, 3), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_UNLINK, 0), mk (K_CREAT, 0), mk (K_FSYNC, 1), mk (K_CLEAR)}, o, s, cb);
    },
    run_attr, nullptr});
