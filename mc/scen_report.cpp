// The informational commands: C17 (unsynced-data-report), C18 (display-cache-usage, page accounting)
#include "scen.hpp"
#include <cmath>
#include <cstring>

// ---- C17 ---------------------------------------------------------------------------------------------------------
struct RepIno {
    bool header = false;
    vector<std::array<long, 4>> ranges;
    std::set<string> files;
};
struct Rep {
    std::map<string, RepIno> ino;
    bool all_synced = false, done = false;
    long total = -1;
};
static Rep parse_report (const string& log) {
    Rep r;
    size_t p = 0;
    while (p < log.size ()) {
        size_t e = log.find ('\n', p);
        if (e == string::npos) e = log.size ();
        string l = log.substr (p, e - p);
        p = e + 1;
        size_t q = l.find ("report");
        if (q == string::npos) continue;
        if (l.find ("report generated") != string::npos) r.done = true;
        if (l.find ("all data blocks are synced") != string::npos) r.all_synced = true;
        size_t t = l.find ("un-fsynced: ");
        if (t != string::npos && l.find ("total") != string::npos) r.total = atol (l.c_str () + t + 12);
        size_t i = l.find ("[inode ");
        if (i == string::npos) continue;
        size_t ie = l.find (']', i);
        string ino = l.substr (i + 7, ie - i - 7);
        long a, b, x, y;
        size_t f;
        if (l.find ("is not fully synced") != string::npos) r.ino[ino].header = true;
        else if ((f = l.find ("(block ")) != string::npos) {
            if (sscanf (l.c_str () + f, "(block %ld) to (block %ld) [byte index %ld to index %ld]", &a, &b, &x, &y) != 4) fail ("unreadable report line: %s", l.c_str ());
            r.ino[ino].ranges.push_back ({a, b, x, y});
        } else if ((f = l.find ("file: '")) != string::npos)
            r.ino[ino].files.insert (l.substr (f + 7, l.rfind ('\'') - f - 7));
    }
    return r;
}
void Used::op (const Cfg& c, const Model& before, const Op& o) {
    string A = o.a < c.names.size () ? c.names[o.a] : "", B = o.b < c.names.size () ? c.names[o.b] : "";
    switch (o.k) {
    case K_WRITE: case K_READ: case K_TRUNC: case K_HOPEN: case K_CREAT: case K_STAT: s.insert (A); break;
    case K_FSYNC: s.insert (A); break;
    case K_LINK: s.insert (A); s.insert (B); break;
    case K_UNLINK: s.erase (A); break;
    case K_RENAME: {
        if (before.lookup (A) == before.lookup (B)) break; // two links of one file: both stay
        std::set<string> n;
        bool dir = before.in[before.lookup (A)].type == MT_DIR;
        for (auto& x : s) {
            if (x == A || x == B) continue;
            if (x.compare (0, A.size () + 1, A + "/") == 0) n.insert (B + x.substr (A.size ()));
            else n.insert (x);
        }
        if (!dir) n.insert (B);
        s = n;
        break;
    }
    case K_CLEAR: s.clear (); break;
    default: break;
    }
}
static void judge_report (Exec& e, const Used& u, const char* when) {
    e.k.truncate_log ();
    e.apply (mk (K_REPORT));
    judge_report_text (e.m, e.k.root, u, e.k.read_log (), when);
}
void judge_report_text (const Model& m, const string& root, const Used& u, const string& log, const char* when) {
    Rep r = parse_report (log);
    if (!r.done) fail ("%s: no report was printed", when);
    long total = 0;
    std::map<int, string> found; // model inode -> reported inode
    for (auto& x : r.ino) {
        if (x.second.files.empty ()) fail ("%s: the report names no file for inode %s", when, x.first.c_str ());
        int mi = -1;
        for (auto& f : x.second.files) {
            string n = f.compare (0, root.size () + 1, root + "/") == 0 ? f.substr (root.size () + 1) : f;
            int i = m.lookup (n);
            if (i < 0) fail ("%s: the report lists '%s', which does not exist", when, n.c_str ());
            if (mi >= 0 && i != mi) fail ("%s: the report lists names of different files for one inode ('%s')", when, n.c_str ());
            mi = i;
        }
        if (found.count (mi)) fail ("%s: one file is reported twice", when);
        found[mi] = x.first;
        const MI& f = m.in[mi];
        if (f.dirty.empty ()) fail ("%s: the report lists '%s', which has no unsynced data", when, x.second.files.begin ()->c_str ());
        for (auto& n : m.ns)
            if (n.second == mi && u.s.count (n.first) && !x.second.files.count (root + "/" + n.first)) fail ("%s: the report omits the name '%s' of an unsynced file", when, n.first.c_str ());
        std::set<int64_t> blk;
        for (auto& g : x.second.ranges) {
            if (g[1] < g[0]) fail ("%s: reversed block range %ld-%ld", when, g[0], g[1]);
            long last = std::min<long> (m.bs, (long)f.cur.size () - g[1] * m.bs);
            if (g[2] != 0 || g[3] != (g[1] - g[0]) * m.bs + last - 1) fail ("%s: range of blocks %ld-%ld reported as byte index %ld to %ld, expected 0 to %ld", when, g[0], g[1], g[2], g[3], (g[1] - g[0]) * m.bs + last - 1);
            for (long b = g[0]; b <= g[1]; b++)
                if (!blk.insert (b).second) fail ("%s: block %ld is reported twice", when, b);
        }
        for (auto& d : f.dirty)
            if (!blk.count (d.first)) fail ("%s: unsynced block %ld of '%s' is not reported", when, (long)d.first, x.second.files.begin ()->c_str ());
        for (long b : blk)
            if (!f.dirty.count (b)) fail ("%s: block %ld of '%s' is reported although it is synced", when, b, x.second.files.begin ()->c_str ());
        for (auto& d : f.dirty) total += std::min<long> (m.bs, (long)f.cur.size () - d.first * m.bs);
    }
    bool any = false;
    auto known = [&] (int ino) { // a file all of whose used names are gone is not known by name any more
        for (auto& x : m.ns)
            if (x.second == ino && u.s.count (x.first)) return true;
        return false;
    };
    for (auto& n : m.ns)
        if (m.in[n.second].type == MT_REG && !m.in[n.second].dirty.empty () && known (n.second)) {
            any = true;
            if (!found.count (n.second)) fail ("%s: the unsynced file '%s' is not reported", when, n.first.c_str ());
        }
    if (any && r.all_synced) fail ("%s: reported as all synced although data is unsynced", when);
    if (any && r.total != total) fail ("%s: total of %ld unsynced bytes reported, expected %ld", when, r.total, total);
    if (!any && !r.all_synced && r.total > 0) fail ("%s: %ld unsynced bytes reported although everything is synced", when, r.total);
    if (!any && !r.all_synced) {
        // nothing written is unsynced; only a pending truncate may keep LazyFS from saying so
        for (auto& f : m.in)
            if (f.type == MT_REG && (f.resized || !f.dirty.empty ())) return;
        fail ("%s: not reported as synced although everything is", when);
    }
}
static void run_report (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.start ();
        Used u;
        judge_report (e, u, "after the mount");
        for (size_t i = 0; i < k.h.size (); i++) {
            u.op (c, e.m, k.h[i]);
            e.apply (k.h[i]);
            judge_report (e, u, ("after operation " + std::to_string (i + 1)).c_str ());
            bump (CT_PROBES);
        }
        e.check_view ("after the reports", 0);
        e.clear_and_check (0);
    });
}
static Cfg cap (Cfg c) { c.capture = true; return c; }
static Reg c17a ({"C17", "report-blocks", "two files, block size 4, 1-3 blocks per page: a report after every operation of every sequence of writes, truncates, syncs and clears",
    [] (int tier) {
        vector<Cfg> v = {cap (geo ("bs4 x1 pre10,3", 4, 1, 64, {{0, 10}, {1, 3}})), cap (geo ("bs4 x2 new", 4, 2, 64, {{0, 0}, {1, 0}})), cap (geo ("bs3 x3 pre5", 3, 3, 64, {{0, 5}, {1, 0}})), cap (geo ("bs1 x1 pre5", 1, 1, 64, {{0, 5}, {1, 0}})), cap (geo ("bs1 x5 pre5", 1, 5, 64, {{0, 5}, {1, 0}}))};
        if (tier) v.push_back (cap (geo ("bs4 x4 pre17,9", 4, 4, 64, {{0, 17}, {1, 9}})));
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        o.accept = [&] (const Model&, const Hist& h) { return (int)h.size () == o.hi || h.back ().k == K_FSYNC; };
        enum_hist (c, {mk (K_WRITE, 0, 0, 1), mk (K_WRITE, 0, 3, 2), mk (K_WRITE, 0, 4, 4), mk (K_WRITE, 0, 13, 6), mk (K_WRITE, 0, 8, 5), mk (K_WRITE, 1, 1, 3), mk (K_WRITE, 1, 9, 1), mk (K_TRUNC, 0, 5), mk (K_TRUNC, 0, 14),
                       mk (K_TRUNC, 0, 0), mk (K_READ, 0, 0, 20), mk (K_FSYNC, 0), mk (K_FSYNC, 1, 0, 0, 0, 1), mk (K_CKPT), mk (K_CLEAR)}, o, s, cb);
    },
    run_report, nullptr});
static Reg c17b ({"C17", "report-sets", "every subset of 6 blocks left unsynced in a file by single-block writes in ascending and descending order, after a sync of another subset",
    [] (int) { return vector<Cfg>{cap (geo ("bs4 x1 pre24", 4, 1, 64, {{0, 24}})), cap (geo ("bs4 x2 pre22", 4, 2, 64, {{0, 22}})), cap (geo ("bs4 x4 pre21", 4, 4, 64, {{0, 21}}))}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        long n = 0;
        for (int first = 0; first < 64; first++)
            for (int second = 0; second < 64; second++)
                for (int dir = 0; dir < 2; dir++) {
                    if (!tier && (__builtin_popcount (first) > 2 || (dir && first))) continue;
                    if (n++ % s.n != s.k) continue;
                    Case k;
                    for (int b = 0; b < 6; b++) if (first >> b & 1) k.h.push_back (mk (K_WRITE, 0, b * 4 + b % 3, 1));
                    if (first) k.h.push_back (mk (K_FSYNC, 0));
                    for (int i = 0; i < 6; i++) {
                        int b = dir ? 5 - i : i;
                        if (second >> b & 1) k.h.push_back (mk (K_WRITE, 0, b * 4 + (b + 1) % 3, 1));
                    }
                    cb (k);
                }
    },
    run_report, nullptr});
static Reg c17o ({"C17", "report-odd-names", "files with unusual names: a report after every operation",
    [] (int) {
        vector<Cfg> v;
        int n = 0;
        for (auto& o : odd_names (false)) {
            Cfg b = cap (geo ("odd name " + std::to_string (n++), 4, 1, 64, {{0, 6}}, {o, o.size () < 250 ? o + "2" : string (254, 'm'), "d/" + o, "d"}));
            b.predirs = {"d"};
            v.push_back (b);
        }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2; o.hi = tier ? 3 : 2;
        enum_hist (c, {mk (K_WRITE, 0, 2, 6), mk (K_WRITE, 1, 0, 3), mk (K_WRITE, 2, 4, 4), mk (K_FSYNC, 0), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 0, 0, 0, 2), mk (K_LINK, 0, 0, 0, 1), mk (K_LINK, 0, 0, 0, 2), mk (K_UNLINK, 0), mk (K_CREAT, 1), mk (K_TRUNC, 0, 1), mk (K_CLEAR), mk (K_CKPT)}, o, s, cb);
    },
    run_report, nullptr, 1});
static Reg c17c ({"C17", "report-names", "renames, hard links, unlinks, directories and re-created names: a report after every operation",
    [] (int) { return vector<Cfg>{cap ([] { Cfg c = geo ("bs4 x1, links and a directory", 4, 1, 64, {{0, 6}}, {"a", "b", "d/x", "d", "e"}); c.predirs = {"d"}; return c; } ())}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        o.accept = [&] (const Model&, const Hist& h) { return (int)h.size () == o.hi; };
        enum_hist (c, {mk (K_WRITE, 0, 2, 4), mk (K_WRITE, 1, 0, 5), mk (K_CREAT, 1), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_RENAME, 0, 0, 0, 2), mk (K_LINK, 0, 0, 0, 1), mk (K_LINK, 1, 0, 0, 2), mk (K_UNLINK, 0), mk (K_UNLINK, 1),
                       mk (K_CREAT, 0), mk (K_RENAME, 3, 0, 0, 4), mk (K_WRITE, 2, 1, 6), mk (K_FSYNC, 1), mk (K_CLEAR)}, o, s, cb);
    },
    run_report, nullptr});
// A torn fault that is being injected into a file hides that file from the reports until the file's next fsync.
static void run_report_torn (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.start ();
        Used u;
        vector<int> writes (c.names.size (), 0);
        for (size_t i = 0; i < k.h.size (); i++) {
            const Op& o = k.h[i];
            u.op (c, e.m, o);
            e.apply (o);
            if (o.k == K_WRITE) writes[o.a]++;
            if (o.k == K_FSYNC) writes[o.a] = 0;
            Model m = e.m;
            bool hidden = false;
            for (size_t f = 0; f < c.names.size (); f++)
                if (c.pv[f] && writes[f] >= c.pv[f] && u.s.count (c.names[f])) {
                    MI& x = m.in[m.lookup (c.names[f])];
                    hidden |= !x.dirty.empty ();
                    if (!x.dirty.empty ()) x.resized = true;
                    x.dirty.clear ();
                }
            e.k.truncate_log ();
            e.apply (mk (K_REPORT));
            string log = e.k.read_log (), when = "after operation " + std::to_string (i + 1);
            judge_report_text (m, e.k.root, u, log, when.c_str ());
            if (hidden && log.find ("excluded") == string::npos) fail ("%s: a file is left out of the report without a note", when.c_str ());
            bump (CT_PROBES);
        }
        e.check_view ("after the reports", 0);
        e.clear_and_check (0);
    });
}
static Reg c17d ({"C17", "report-torn", "reports after every operation while torn faults are armed on one or both files (a file is left out while a fault is being injected into it, and only then)",
    [] (int) {
        vector<Cfg> v;
        for (int i = 0; i < 4; i++) {
            Cfg c = cap (geo (i == 3 ? "torn-op on a, which is linked to c" : i == 0 ? "torn-seq on a" : i == 1 ? "torn-op on a" : "torn-seq on a, torn-op on b", 4, 1, 64, {{0, 6}, {1, 9}}));
            auto seq = [] (const char* f) { return string ("[[injection]]\ntype=\"torn-seq\"\nop=\"write\"\nfile=\"{ROOT}/") + f + "\"\npersist=[2,3]\noccurrence=90\n"; };
            auto top = [] (const char* f) { return string ("[[injection]]\ntype=\"torn-op\"\nfile=\"{ROOT}/") + f + "\"\nparts=2\npersist=[1]\noccurrence=90\n"; };
            c.extra = i == 0 ? seq ("a") : i % 2 ? top ("a") : seq ("a") + top ("b");
            c.pv = {i % 2 ? 1 : 2, i == 2 ? 1 : 0};
            if (i == 3) { c.names = {"a", "b", "c"}; c.prelink = {{"a", "c"}}; c.pv.push_back (0); }
            v.push_back (c);
        }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        o.accept = [&] (const Model&, const Hist& h) { return (int)h.size () == o.hi; };
        vector<Op> ops = {mk (K_WRITE, 0, 2, 4), mk (K_WRITE, 0, 9, 1), mk (K_WRITE, 1, 1, 3), mk (K_WRITE, 1, 4, 6), mk (K_FSYNC, 0), mk (K_FSYNC, 1, 0, 0, 0, 1), mk (K_TRUNC, 0, 3), mk (K_READ, 1, 0, 9), mk (K_CKPT), mk (K_CLEAR)};
        if (c.names.size () > 2) ops.push_back (mk (K_WRITE, 2, 1, 2));
        enum_hist (c, ops, o, s, cb);
    },
    run_report_torn, nullptr});

// ---- C18 ---------------------------------------------------------------------------------------------------------
static double usage_now (Exec& e, const char* when) {
    e.k.truncate_log ();
    e.apply (mk (K_USAGE));
    string log = e.k.read_log ();
    size_t p = log.find ("cache usage (%pages) is ");
    if (p == string::npos) fail ("%s: no cache usage was printed", when);
    return atof (log.c_str () + p + strlen ("cache usage (%pages) is "));
}
static void judge_usage (Exec& e, const char* when) {
    double u = usage_now (e, when);
    const Cfg& c = e.cfg;
    double pages = u * c.pages / 100.0;
    long used = lround (pages);
    if (fabs (pages - used) > 1e-6) fail ("%s: usage %g%% is not a whole number of the %d pages", when, u, c.pages);
    if (used > c.pages || used < 0) fail ("%s: usage %g%%", when, u);
    std::set<int> live;
    for (auto& n : e.m.ns) live.insert (n.second);
    for (auto& h : e.m.h) if (h.open) live.insert (h.ino);
    if (c.weak) { // some blocks may not have found a page: only bounds
        long n = 0;
        for (int i : live) if (e.m.in[i].type == MT_REG) n += e.m.in[i].cached.size ();
        if (used > n) fail ("%s: %ld pages in use for %ld blocks", when, used, n);
        if (n == 0 && used) fail ("%s: %ld pages in use though nothing is cached", when, used);
        return;
    }
    long lo = 0, hi = 0;
    for (int i : live) {
        if (e.m.in[i].type != MT_REG) continue;
        long n = e.m.in[i].cached.size ();
        lo += (n + c.bpp - 1) / c.bpp;
        hi += n;
    }
    if (used < lo || used > hi) fail ("%s: %ld pages in use, expected %ld%s for the blocks cached", when, used, lo, lo == hi ? "" : (" to " + std::to_string (hi)).c_str ());
}
// after everything is dropped, all pages must be usable again: fill the cache exactly
static void probe_capacity (Exec& e, bool unlink_all) {
    const Cfg& c = e.cfg;
    if (unlink_all) {
        for (int i = 0; i < 6; i++)
            while (e.m.h[i].open) e.apply (mk (K_HCLOSE, e.m.h[i].orphan ? 254 : (int)(std::find (c.names.begin (), c.names.end (), e.m.h[i].path) - c.names.begin ())));
        for (size_t i = 0; i < c.names.size (); i++) {
            int n = e.m.lookup (c.names[i]);
            if (n >= 0 && e.m.in[n].type == MT_REG) e.apply (mk (K_UNLINK, i));
        }
    } else
        e.apply (mk (K_CLEAR));
    double u = usage_now (e, "with nothing cached");
    if (u != 0) fail ("usage %g%% after %s", u, unlink_all ? "all files were removed" : "clear-cache");
    string f = c.names.back ();
    int idx  = c.names.size () - 1;
    if (!unlink_all && e.m.lookup (f) >= 0) { e.apply (mk (K_UNLINK, idx)); }
    e.apply (mk (K_CREAT, idx));
    if (e.k.open_h (5, f, F_RDWR)) fail ("cannot open the probe file");
    int blocks = (c.pages - 1) * c.bpp + 1; // (the first block in the last page makes the cache full)
    for (int b = 0; b < blocks; b++) {
        Bytes d = Model::payload (77 + b % 90, 0, c.bs);
        if (e.k.write (f, &e.k.h[5].fi, d, (int64_t)b * c.bs) != c.bs) fail ("probe write %d failed", b);
        u = usage_now (e, "while filling the cache");
        double want = 100.0 * (b / c.bpp + 1) / c.pages;
        if (fabs (u - want) > 1e-6) fail ("usage %g%% after caching %d blocks of a fresh file, expected %g%% (%d pages of %d blocks)", u, b + 1, want, c.pages, c.bpp);
    }
    struct stat st;
    if (rs::lstat ((e.k.root + "/" + f).c_str (), &st) || st.st_size) fail ("filling the cache to exactly 100%% already wrote %ld bytes to the backing store: pages have been lost", (long)st.st_size);
    Bytes d;
    for (int b = 0; b < blocks; b++)
        if (e.k.read (f, &e.k.h[5].fi, d, (int64_t)b * c.bs, c.bs) != c.bs || d != Model::payload (77 + b % 90, 0, c.bs)) fail ("block %d of the probe file reads back wrong", b);
    e.k.close_h (5);
}
static void run_usage (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    for (int un = 0; un < 2; un++) {
        if (un) prepare_root (c, shim::root);
        spawn_ok ([&] {
            Exec e (c);
            if (c.weak) e.judge = J_RC | J_ADOPT_CLEAR;
            e.start ();
            if (!un) judge_usage (e, "after the mount");
            for (size_t i = 0; i < k.h.size (); i++) {
                e.apply (k.h[i]);
                if (!un) judge_usage (e, ("after operation " + std::to_string (i + 1)).c_str ());
            }
            bump (CT_PROBES);
            probe_capacity (e, un);
        });
    }
}
static vector<Cfg> usage_cfgs (int tier) {
    vector<string> nm = {"a", "b", "c"};
    vector<Cfg> v = {cap (geo ("bs4, 12 pages of 1 block", 4, 1, 12, {{0, 10}}, nm)), cap (geo ("bs4, 10 pages of 2 blocks", 4, 2, 10, {{0, 6}, {1, 9}}, nm)), cap (geo ("bs4, 8 pages of 3 blocks", 4, 3, 8, {{0, 0}}, nm))};
    if (tier) v.push_back (cap (geo ("bs3, 12 pages of 4 blocks", 3, 4, 12, {{0, 11}}, nm)));
    return v;
}
static Reg c18a ({"C18", "usage-exact", "usage compared with the blocks cached after every operation; then everything is dropped (clear / removal) and the cache must fill to exactly 100%",
    usage_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 4 : 3;
        o.accept = [&] (const Model&, const Hist& h) { return (int)h.size () == o.hi; };
        enum_hist (c, {mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 2, 9), mk (K_WRITE, 0, 13, 5), mk (K_WRITE, 1, 1, 6), mk (K_TRUNC, 0, 5), mk (K_TRUNC, 0, 0), mk (K_TRUNC, 0, 15), mk (K_TRUNC, 1, 4), mk (K_READ, 0, 0, 20), mk (K_FSYNC, 0),
                       mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_LINK, 0, 0, 0, 2), mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_UNLINK, 2), mk (K_HOPEN, 0), mk (K_HCLOSE, 254), mk (K_WRITE, 254, 3, 7), mk (K_CREAT, 0), mk (K_CKPT), mk (K_CLEAR)}, o, s, cb);
    },
    run_usage, nullptr});
static Reg c18b ({"C18", "usage-truncate", "sequences of writes and truncates of one file, deeper: pages shared by several blocks are released exactly when their last block goes",
    usage_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 5 : 4;
        o.accept = [&] (const Model&, const Hist& h) { return (int)h.size () == o.hi; };
        enum_hist (c, {mk (K_WRITE, 0, 0, 4), mk (K_WRITE, 0, 8, 4), mk (K_WRITE, 0, 18, 5), mk (K_TRUNC, 0, 4), mk (K_TRUNC, 0, 9), mk (K_TRUNC, 0, 0), mk (K_TRUNC, 0, 21), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC), mk (K_FSYNC, 0), mk (K_CLEAR)}, o, s, cb);
    },
    run_usage, nullptr});
static Reg c18c ({"C18", "usage-small", "caches of 1-3 pages, with and without eviction: usage never exceeds 100% or the number of blocks, and no page is lost",
    [] (int) {
        vector<Cfg> v;
        for (int ev = 0; ev < 2; ev++)
            for (auto& g : vector<std::array<int, 2>>{{1, 1}, {1, 3}, {2, 2}}) {
                Cfg c = cap (geo (std::to_string (g[1]) + " pages of " + std::to_string (g[0]) + (ev ? " blocks, eviction" : " blocks"), 4, g[0], g[1], {{0, 6}}, {"a", "b", "c"}));
                c.evict = ev;
                c.weak  = true;
                v.push_back (c);
            }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 4 : 3;
        o.accept = [&] (const Model&, const Hist& h) { return (int)h.size () == o.hi; };
        enum_hist (c, {mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 2, 9), mk (K_WRITE, 0, 13, 5), mk (K_WRITE, 1, 1, 6), mk (K_WRITE, 1, 0, 20), mk (K_TRUNC, 0, 5), mk (K_TRUNC, 0, 0), mk (K_TRUNC, 0, 15), mk (K_READ, 0, 0, 20), mk (K_FSYNC, 0), mk (K_FSYNC, 1),
                       mk (K_RENAME, 0, 0, 0, 1), mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_CREAT, 0), mk (K_CKPT), mk (K_CLEAR)}, o, s, cb);
    },
    run_usage, nullptr});
