// Faults of the backing store and crashes inside operations: C20 (kill points and torn writes in syncs), C21 (failing calls)
#include "scen.hpp"
#include <cstring>
using shim::Plan;

struct Dry {
    long n;
    int rc;
    shim::CallRec t[400];
};
static Exec* prefix (const Cfg& c, const Case& k) {
    static Exec* e;
    e = new Exec (c);
    e->judge = J_ALL;
    e->start ();
    for (size_t i = 0; i + 1 < k.h.size (); i++) e->apply (k.h[i]);
    return e;
}
static void arm (unsigned mask, bool mut, long at, int action, int err, long n) {
    shim::plan_reset ();
    shim::plan.mask = mask; shim::plan.mutating = mut; shim::plan.at = at;
    shim::plan.action = action; shim::plan.err = err; shim::plan.n = n;
    shim::plan.armed = true;
}
// runs the history, recording the backing calls of the last operation
static Dry dry_run (const Cfg& c, const Case& k, unsigned mask, bool mut) {
    prepare_root (c, shim::root);
    Dry* d = (Dry*)shared_scratch ();
    spawn_ok ([&] {
        Exec* e = prefix (c, k);
        arm (mask, mut, -1, 0, 0, 0);
        Res r = e->k.apply (k.h.back (), e->step);
        shim::plan.armed = false;
        d->n  = std::min<long> (shim::counted.load (), 400);
        d->rc = r.rc;
        memcpy (d->t, shim::trace, sizeof (shim::CallRec) * d->n);
    });
    return *d;
}
static string describe (const Cfg& c, const Case& k, long i, const Dry& d, const char* what, long n) {
    char b[200];
    snprintf (b, sizeof b, "%s at backing call %ld of %ld (%s, %ld bytes%s%s) of %s: ", what, i + 1, d.n, d.t[i].what, d.t[i].bytes, n >= 0 ? ", cut after " : "", n >= 0 ? std::to_string (n).c_str () : "",
              fmt_op (c, k.h.back ()).c_str ());
    return b;
}

// ---- C20 ---------------------------------------------------------------------------------------------------------
static void run_c20 (const Cfg& c, const Case& k) {
    Dry d = dry_run (c, k, ~0u, true);
    Case pre = k;
    pre.h.pop_back ();
    Model m = model_after (c, pre.h);
    const Op& o = k.h.back ();
    if (c.weak && o.k != K_FSYNC && o.k != K_CKPT) m.apply (o); // values being written count as well
    int target = o.k == K_FSYNC && !c.weak ? m.lookup (c.names[o.a]) : -1;
    for (size_t i = 0; i < m.in.size (); i++)
        if (m.in[i].type == MT_REG && (target < 0 || target == (int)i)) m.loosen (m.in[i]);
    for (auto& h : m.h) h.open = false;
    for (long i = 0; i < d.n; i++) {
        vector<long> cut = {-1}; // -1: killed before the call
        long b = d.t[i].kind == shim::C_WRITE ? d.t[i].bytes : 0;
        for (long n = 1; n < b; n++)
            if (b <= 40 || n % c.bs == 0 || n % c.bs == 1 || n % c.bs == c.bs - 1) cut.push_back (n);
        for (long n : cut) {
            prepare_root (c, shim::root);
            bump (CT_CRASH);
            try {
                End e = spawn ([&] {
                    Exec* x = prefix (c, k);
                    arm (~0u, true, i, n < 0 ? 3 : 4, 0, n);
                    x->k.apply (o, x->step);
                    fail ("internal: the planned crash point was not reached");
                });
                if (e != E_PLANKILL) throw Violation{"LazyFS ended otherwise than by the crash"};
                string s = disk_mismatch (m, shim::root);
                if (!s.empty ()) throw Violation{"after the crash: " + s};
                if (n < 0 || n == 1 || n == b - 1) {
                    bump (CT_REMOUNT);
                    spawn_ok ([&] {
                        Exec e (c);
                        e.m = m;
                        e.m.cfg = &c;
                        e.no_nlink = true;
                        e.adopt ();
                        e.start ();
                        e.check_view ("after the crash and a new mount", 0);
                    });
                }
            } catch (Violation& v) { throw Violation{describe (c, k, i, d, "killed", n) + v.msg}; }
        }
    }
}
static vector<Op> sync_ops () { return {mk (K_FSYNC, 0), mk (K_FSYNC, 0, 0, 0, 0, 1), mk (K_CKPT)}; }
static void emit_with (const Cfg& c, const vector<Op>& alpha, int lo, int hi, const vector<Op>& last, Shard s, const CB& cb) {
    EnumOpt o;
    o.lo = lo;
    o.hi = hi;
    enum_hist (c, alpha, o, s, [&] (const Case& k) {
        Model m = model_after (c, k.h);
        for (auto& l : last) {
            if (!m.enabled (l)) continue;
            if (l.k == K_RENAME && m.handle_on (c.names[l.b]) >= 0) continue; // (libfuse hides the open target first and leaves it so on failure)
            Case n = k;
            n.h.push_back (l);
            cb (n);
        }
    });
}
static Reg c20a ({"C20", "crash-in-sync", "every history of writes, truncates and syncs of two files; LazyFS killed before every modifying call, and after every byte of every write, of a following fsync, fdatasync or checkpoint",
    [] (int tier) {
        vector<Cfg> v = {geo ("bs4 x1 pre9,3", 4, 1, 64, {{0, 9}, {1, 3}}), geo ("bs4 x2 new", 4, 2, 64, {{0, 0}, {1, 0}})};
        if (tier) v.push_back (geo ("bs3 x3 pre14", 3, 3, 64, {{0, 14}, {1, 5}}));
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        emit_with (c, {mk (K_WRITE, 0, 1, 2), mk (K_WRITE, 0, 3, 3), mk (K_WRITE, 0, 8, 4), mk (K_WRITE, 0, 13, 3), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 0, 11), mk (K_WRITE, 1, 2, 4), mk (K_TRUNC, 1, 1), mk (K_FSYNC, 0), mk (K_FSYNC, 1), mk (K_CLEAR)}, 1, tier ? 4 : 3,
                   sync_ops (), s, cb);
    },
    run_c20, nullptr});
static Reg c20b ({"C20", "crash-in-sync-names", "the same after renames, hard links, unlinks and re-creations",
    [] (int) { return vector<Cfg>{geo ("bs4 x1 pre6", 4, 1, 64, {{0, 6}}, {"a", "b"})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        emit_with (c, {mk (K_WRITE, 0, 2, 4), mk (K_WRITE, 1, 0, 6), mk (K_CREAT, 1), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_LINK, 0, 0, 0, 1), mk (K_UNLINK, 0), mk (K_CREAT, 0), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 1)}, 2, tier ? 5 : 4,
                   {mk (K_FSYNC, 0), mk (K_FSYNC, 1), mk (K_CKPT)}, s, cb);
    },
    run_c20, nullptr});
static Reg c20c ({"C20", "crash-many-blocks", "every subset of 7 blocks dirty in one file (every run structure), the file grown, shrunk or unchanged; every kill point and torn prefix of the fsync",
    [] (int) { return vector<Cfg>{geo ("bs4 x1 pre26,8", 4, 1, 64, {{0, 26}, {1, 8}}), geo ("bs2 x4 pre13,8", 2, 4, 64, {{0, 13}, {1, 8}})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        long n = 0;
        for (int set = 0; set < 128; set++)
            for (int64_t tr : {-1, 5 * c.bs + 1, 8 * c.bs, 2 * c.bs})
                for (auto& l : sync_ops ()) {
                    if (n++ % s.n != s.k) continue;
                    if (!tier && l.k == K_FSYNC && l.f) continue;
                    Case k;
                    k.h.push_back (mk (K_WRITE, 1, 1, 5)); // unsynced data of another file
                    for (int b = 0; b < 7; b++)
                        if (set >> b & 1) k.h.push_back (mk (K_WRITE, 0, b * c.bs + b % 2, 1));
                    if (tr >= 0) k.h.push_back (mk (K_TRUNC, 0, tr));
                    k.h.push_back (l);
                    cb (k);
                }
    },
    run_c20, nullptr});
static Reg c20d ({"C20", "crash-in-eviction", "caches of 1-2 pages with eviction: LazyFS killed before every modifying call and in the middle of every write made by a write, truncate, fsync or checkpoint",
    [] (int) {
        vector<Cfg> v = {geo ("1 page of 1 block", 4, 1, 1, {{0, 6}, {1, 5}}), geo ("2 pages of 2 blocks", 4, 2, 2, {{0, 9}, {1, 0}})};
        for (auto& c : v) c.evict = c.weak = true;
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        emit_with (c, {mk (K_WRITE, 0, 0, 4), mk (K_WRITE, 0, 2, 5), mk (K_WRITE, 0, 9, 3), mk (K_WRITE, 1, 1, 9), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_FSYNC, 1)}, 1, tier ? 4 : 3,
                   {mk (K_WRITE, 0, 5, 8), mk (K_WRITE, 1, 0, 6), mk (K_TRUNC, 0, 10), mk (K_FSYNC, 0), mk (K_CKPT)}, s, cb);
    },
    run_c20, nullptr});

// ---- C21 ---------------------------------------------------------------------------------------------------------
static bool tree_matches (const Model& m, const string& root) { // names only
    std::set<string> have;
    std::function<void (const string&)> rec = [&] (const string& rel) {
        for (auto& e : rs::list_dir (rel.empty () ? root : root + "/" + rel)) {
            if (e.name.compare (0, 12, ".fuse_hidden") == 0) continue;
            string q = rel.empty () ? e.name : rel + "/" + e.name;
            have.insert (q);
            if (e.type == DT_DIR) rec (q);
        }
    };
    rec ("");
    std::set<string> want;
    for (auto& x : m.ns) want.insert (x.first);
    if (have != want) return false;
    // links of one file share an inode
    std::map<int, ino_t> in;
    for (auto& x : m.ns) {
        struct stat st;
        rs::lstat ((root + "/" + x.first).c_str (), &st);
        auto it = in.emplace (x.second, st.st_ino).first;
        if (it->second != st.st_ino) return false;
    }
    return true;
}
// what a file shows now, through LazyFS
static Bytes observe (Exec& e, const string& name) {
    struct stat st;
    int r = e.k.lookup (name, &st);
    if (r) fail ("after the failed operation getattr(%s) = %d", name.c_str (), r);
    if ((r = e.k.open_h (5, name, F_RDONLY))) fail ("after the failed operation open(%s) = %d", name.c_str (), r);
    Bytes b;
    r = e.k.read (name, &e.k.h[5].fi, b, 0, st.st_size + 9);
    e.k.close_h (5);
    if (r != (int)st.st_size) fail ("after the failed operation read(%s) = %d, size %ld", name.c_str (), r, (long)st.st_size);
    return b;
}
static int target_ino (const Model& m, const Cfg& c, const Op& o) {
    if (o.a == 254) { int h = m.orphan (); return h < 0 ? -1 : m.h[h].ino; }
    return m.lookup (c.names[o.a]);
}
static void run_c21 (const Cfg& c, const Case& k) {
    using namespace shim;
    const unsigned mask = 1u << C_OPEN | 1u << C_READ | 1u << C_WRITE | 1u << C_TRUNC | 1u << C_SYNC | 1u << C_STAT | 1u << C_NAMES | (c.p1 ? 1u << C_ATTR | 1u << C_OTHER : 0);
    Dry d = dry_run (c, k, mask, false);
    const Op& o = k.h.back ();
    for (long i = 0; i < d.n; i++) {
        vector<long> cut = {-1}; // -1: EIO, -2: ENOSPC
        int kind = d.t[i].kind;
        long b = d.t[i].bytes;
        if (kind == C_WRITE) {
            cut.push_back (-2);
            for (long n : {1L, b / 2, b - 1, (long)c.bs})
                if (n > 0 && n < b && std::find (cut.begin (), cut.end (), n) == cut.end ()) cut.push_back (n);
        }
        for (long n : cut)
            for (int post = 0; post < 2; post++) {
                prepare_root (c, shim::root);
                bump (CT_INJECT);
                try {
                    spawn_ok ([&] {
                        Exec& e = *prefix (c, k);
                        Model before = e.m;
                        Res want = e.m.apply (o);
                        bool meta = o.k == K_UTIMENS || o.k == K_CHMOD || o.k == K_CHOWN || o.k == K_ACCESS || o.k == K_READLINK || o.k == K_READDIR;
                        struct stat s0, s1;
                        if (meta && (e.k.lookup (c.names[o.a], &s0))) fail ("getattr(%s) fails", c.names[o.a].c_str ());
                        arm (mask, false, i, n < 0 ? 1 : 2, n == -2 ? ENOSPC : EIO, n);
                        Res r = e.k.apply (o, e.step);
                        plan.armed = false;
                        e.step++;
                        if (!acted.load ()) fail ("internal: the planned failure was not reached");
                        bool cmd = o.k == K_CKPT; // has no result
                        bool ok = !cmd && r.rc >= 0;
                        if (ok) {
                            if (r.rc != want.rc || (want.has_data && r.data != want.data)) fail ("returned %d %s, expected an error or %d %s", r.rc, hex (r.data).c_str (), want.rc, hex (want.data).c_str ());
                            if (kind == C_SYNC) {
                                bool again = false;
                                for (long j = i + 1; j < counted.load () && j < 4096; j++) again |= shim::trace[j].kind == C_SYNC;
                                if (!again) fail ("reported success although syncing the backing file failed");
                            }
                            if (kind == C_ATTR || (kind == C_OTHER && meta)) fail ("reported success although %s failed", d.t[i].what);
                            if (kind == C_NAMES) { if (!tree_matches (e.m, e.k.root)) fail ("reported success but the change was not made"); }
                        } else {
                            Model after = e.m;
                            e.m = before;
                            e.m.step = after.step;
                            int t = -1;
                            switch (o.k) {
                            case K_WRITE: case K_TRUNC: case K_HOPEN: {
                                t = target_ino (before, c, o);
                                string nm = o.a == 254 ? "" : c.names[o.a];
                                if (nm.empty ()) break;
                                Bytes old = before.in[t].cur, nw = after.in[t].cur, got = observe (e, nm);
                                size_t lo = std::min (old.size (), nw.size ()), hi = std::max (old.size (), nw.size ());
                                if (got.size () < lo || got.size () > hi) fail ("after the failure '%s' has size %zu, was %zu", nm.c_str (), got.size (), old.size ());
                                for (size_t p = 0; p < got.size (); p++)
                                    if (!(p < old.size () && got[p] == old[p]) && !(p < nw.size () && got[p] == nw[p]) && !(p >= old.size () && got[p] == 0))
                                        fail ("after the failure byte %zu of '%s' is %02x: %s, was %s, requested %s", p, nm.c_str (), got[p], hex (got).c_str (), hex (old).c_str (), hex (nw).c_str ());
                                if (c.weak) {
                                    Model tmp = after; // everything the operation would have written counts as written
                                    e.m.in[t] = tmp.in[t];
                                    e.m.in[t].smin = std::min (e.m.in[t].smin, (int64_t)lo);
                                }
                                e.m.in[t].cur = got;
                                if (!c.weak && got != old) { // partly done: what is unsynced may be lost at a clear, never more
                                    e.m.in[t].resized = true;
                                }
                                break;
                            }
                            case K_FSYNC:
                                t = target_ino (before, c, o);
                                e.m.loosen (e.m.in[t]);
                                break;
                            case K_CKPT:
                                for (auto& x : e.m.in) if (x.type == MT_REG) e.m.loosen (x);
                                break;
                            default:
                                if (tree_matches (e.m, e.k.root)) break;
                                if (kind != C_NAMES && tree_matches (after, e.k.root)) { // done, only a later step failed
                                    e.m = after;
                                    break;
                                }
                                fail ("after the failure the tree is neither as before nor as requested");
                            }
                        }
                        // the caller learns which error it was
                        if (!ok && !cmd && n < 0 && r.rc != -(n == -2 ? ENOSPC : EIO)) fail ("returned %d although the call failed with %s", r.rc, n == -2 ? "ENOSPC" : "EIO");
                        if (meta && !ok) {
                            if (e.k.lookup (c.names[o.a], &s1)) fail ("getattr(%s) fails after the failure", c.names[o.a].c_str ());
                            if (s0.st_mode != s1.st_mode || s0.st_uid != s1.st_uid || s0.st_gid != s1.st_gid || s0.st_mtim.tv_sec != s1.st_mtim.tv_sec || s0.st_mtim.tv_nsec != s1.st_mtim.tv_nsec || (o.k == K_UTIMENS && (s0.st_atim.tv_sec != s1.st_atim.tv_sec || s0.st_atim.tv_nsec != s1.st_atim.tv_nsec)))
                                fail ("the failed operation changed the attributes of %s", c.names[o.a].c_str ());
                        }
                        e.no_nlink = true;
                        e.check_disk ("after the failure");
                        e.check_view ("after the failure", 0);
                        e.check_disk ("after reading everything");
                        if (post == 0) {
                            for (size_t f = 0; f < c.names.size (); f++) {
                                int x = e.m.lookup (c.names[f]);
                                if (x >= 0 && e.m.in[x].type == MT_REG) e.apply (mk (K_FSYNC, f));
                            }
                            e.check_view ("after a successful fsync", 0);
                        }
                        e.k.apply (mk (K_CLEAR), e.step++);
                        e.check_disk ("after clear-cache");
                        e.m.do_clear ();
                        e.adopt ();
                        e.check_view ("after clear-cache", 0);
                    });
                } catch (Violation& v) { throw Violation{describe (c, k, i, d, n == -1 ? "EIO" : n == -2 ? "ENOSPC" : "short write", n >= 0 ? n : -1) + v.msg}; }
            }
    }
}
static vector<Op> c21_last () {
    return {mk (K_WRITE, 0, 2, 5), mk (K_WRITE, 0, 14, 2), mk (K_READ, 0, 1, 12), mk (K_TRUNC, 0, 3), mk (K_TRUNC, 0, 13), mk (K_TRUNC, 0, 6, 0, 0, 1), mk (K_FSYNC, 0), mk (K_FSYNC, 0, 0, 0, 0, 1), mk (K_CKPT), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_UNLINK, 0),
            mk (K_LINK, 0, 0, 0, 2), mk (K_CREAT, 2), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC), mk (K_HOPEN, 0, 0, 0, 0, F_RDONLY), mk (K_STAT, 0)};
}
static Reg c21a ({"C21", "failing-calls", "every history of writes, truncates, syncs and links; every backing call of one more operation fails with EIO/ENOSPC or is cut short; then reads, a retry of fsync, and a clear",
    [] (int tier) {
        vector<Cfg> v = {geo ("bs4 x1 pre9,3", 4, 1, 64, {{0, 9}, {1, 3}}, {"a", "b", "c"}), geo ("bs4 x2 new", 4, 2, 64, {{0, 0}}, {"a", "b", "c"})};
        if (tier) v.push_back (geo ("bs3 x3 pre14,5", 3, 3, 64, {{0, 14}, {1, 5}}, {"a", "b", "c"}));
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        emit_with (c, {mk (K_WRITE, 0, 1, 6), mk (K_WRITE, 0, 8, 4), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 0, 11), mk (K_WRITE, 1, 2, 4), mk (K_LINK, 0, 0, 0, 1), mk (K_HOPEN, 0), mk (K_FSYNC, 0), mk (K_CLEAR)}, 0, tier ? 3 : 2, c21_last (), s, cb);
    },
    run_c21, nullptr});
static Reg c21b ({"C21", "failing-calls-full", "the same with a cache of 1-2 pages, without and with eviction",
    [] (int) {
        vector<Cfg> v;
        for (int ev = 0; ev < 2; ev++) {
            v.push_back (geo (ev ? "1 page, eviction" : "1 page", 4, 1, 1, {{0, 9}, {1, 3}}, {"a", "b", "c"}));
            v.push_back (geo (ev ? "2 pages of 2 blocks, eviction" : "2 pages of 2 blocks", 4, 2, 2, {{0, 0}, {1, 9}}, {"a", "b", "c"}));
            v[v.size () - 1].evict = v[v.size () - 2].evict = ev;
        }
        for (auto& c : v) c.weak = true;
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        emit_with (c, {mk (K_WRITE, 0, 1, 6), mk (K_WRITE, 0, 8, 4), mk (K_TRUNC, 0, 2), mk (K_WRITE, 1, 2, 4), mk (K_WRITE, 1, 0, 9), mk (K_FSYNC, 0)}, 1, tier ? 3 : 2, c21_last (), s, cb);
    },
    run_c21, nullptr});
static Reg c21c ({"C21", "failing-calls-names", "the same for directories, symbolic links, permissions, owners and times: every backing call of one such operation fails; results, tree, attributes and cached data afterwards",
    [] (int tier) {
        Cfg c = geo ("bs4 x1 d/x pre9", 4, 1, 64, {{0, 9}}, {"a", "d/x", "d", "e", "s", "d/y"});
        c.predirs = {"d"};
        c.p1 = 1;
        vector<Cfg> v = {c};
        if (tier) { c.name = "bs4 x2 d/x pre9,5"; c.bpp = 2; c.pre = {{0, 9}, {1, 5}}; v.push_back (c); }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        emit_with (c, {mk (K_WRITE, 0, 1, 6), mk (K_CREAT, 1), mk (K_WRITE, 1, 2, 4), mk (K_FSYNC, 1), mk (K_LINK, 0, 0, 0, 5), mk (K_SYMLINK, 0, 0, 0, 4), mk (K_MKDIR, 3), mk (K_UTIMENS, 0), mk (K_TRUNC, 0, 3), mk (K_RENAME, 2, 0, 0, 3)}, 0, tier ? 3 : 2,
                   {mk (K_UTIMENS, 0, 5), mk (K_UTIMENS, 0, 5, 0, 0, 1), mk (K_UTIMENS, 1, 5, 0, 0, 2), mk (K_CHMOD, 0, 0600), mk (K_CHMOD, 2, 0700), mk (K_CHOWN, 1, chown_id (5)), mk (K_ACCESS, 0, 4), mk (K_READLINK, 4), mk (K_READDIR, 2), mk (K_READDIR, 3),
                    mk (K_SYMLINK, 0, 0, 0, 4), mk (K_MKDIR, 3), mk (K_RMDIR, 2), mk (K_RMDIR, 3), mk (K_RENAME, 2, 0, 0, 3), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_UNLINK, 1), mk (K_UNLINK, 4), mk (K_LINK, 0, 0, 0, 5), mk (K_CREAT, 5), mk (K_CREAT, 1)}, s, cb);
    },
    run_c21, nullptr});
