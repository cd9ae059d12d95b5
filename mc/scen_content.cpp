// Content, durability, loss, clear, checkpoint: C01..C05
#include "scen.hpp"
#include <regex>

static vector<Op> one_file_ops (int a) {
    return {mk (K_WRITE, a, 0, 1), mk (K_WRITE, a, 0, 4), mk (K_WRITE, a, 1, 2), mk (K_WRITE, a, 3, 6), mk (K_WRITE, a, 4, 4), mk (K_WRITE, a, 6, 1), mk (K_WRITE, a, 9, 2), mk (K_WRITE, a, 13, 3),
            mk (K_TRUNC, a, 0), mk (K_TRUNC, a, 3), mk (K_TRUNC, a, 4), mk (K_TRUNC, a, 7), mk (K_TRUNC, a, 11),
            mk (K_FSYNC, a), mk (K_CLEAR)};
}
static vector<Cfg> one_file_cfgs () {
    return {geo ("bs4 x1 empty", 4, 1, 64, {{0, 0}}), geo ("bs4 x1 pre6", 4, 1, 64, {{0, 6}}), geo ("bs4 x2 pre6", 4, 2, 64, {{0, 6}}), geo ("bs4 x3 pre10", 4, 3, 64, {{0, 10}})};
}
static vector<Op> all_writes (int a, int omax, int lmax) {
    vector<Op> v;
    for (int o = 0; o <= omax; o++)
        for (int l = 1; l <= lmax; l++) v.push_back (mk (K_WRITE, a, o, l));
    return v;
}
static auto depth (int q, int t) {
    return [=] (int tier) { return tier ? t : q; };
}
// ---- C01 ---------------------------------------------------------------------------------------------------------
constexpr unsigned J01 = J_RC | J_ADOPT_CLEAR;
static Reg c01a ({"C01", "one-file", "one file, block size 4, 1-3 blocks per page: every sequence of 15 writes/truncates/fsync/clear up to the depth, every offset re-read",
    [] (int) { return one_file_cfgs (); },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 5 : 4;
        enum_hist (c, one_file_ops (0), o, s, cb);
    },
    [] (const Cfg& c, const Case& k) { run_lockstep (c, k, J01, 1, false); }, nullptr});
static Reg c01b ({"C01", "write-pairs", "every pair of writes (offset 0-9, length 1-6) with nothing/fsync/clear/truncate between them, every (offset,length) re-read",
    [] (int tier) {
        vector<Cfg> v = {geo ("bs4 x1 empty", 4, 1, 64, {{0, 0}}), geo ("bs4 x2 pre7", 4, 2, 64, {{0, 7}})};
        if (tier) { v.push_back (geo ("bs4 x1 pre5", 4, 1, 64, {{0, 5}})); v.push_back (geo ("bs3 x2 pre7", 3, 2, 64, {{0, 7}})); v.push_back (geo ("bs1 x4 pre3", 1, 4, 64, {{0, 3}})); }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> w = all_writes (0, tier ? 9 : 8, tier ? 9 : 5);
        enum_stages (c, {w, {mk (K_NOP), mk (K_FSYNC, 0), mk (K_TRUNC, 0, 3), mk (K_TRUNC, 0, 6)}, w}, s, cb);
    },
    [] (const Cfg& c, const Case& k) { run_lockstep (c, k, J01, 2, false); }, nullptr});
static vector<Cfg> size_cfgs () {
    vector<Cfg> v;
    for (int bs : {1, 2, 3, 5, 7, 8, 13, 16})
        for (int bpp : {1, 2, 3, 5, 8}) v.push_back (geo ("bs" + std::to_string (bs) + " x" + std::to_string (bpp), bs, bpp, 64, {{0, 6}}));
    return v;
}
static Reg c01s ({"C01", "block-sizes", "blocks of 1, 2, 3, 5, 7, 8, 13 and 16 bytes, 1, 2, 3, 5 or 8 to a page: every sequence of 15 writes/truncates/fsync/clear up to the depth, every offset re-read",
    [] (int) { return size_cfgs (); },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 4 : 2;
        enum_hist (c, one_file_ops (0), o, s, cb);
    },
    [] (const Cfg& c, const Case& k) { run_lockstep (c, k, J01, 1, false); }, nullptr});
static vector<Op> handle_ops () {
    vector<Op> v;
    for (int f : {F_RDWR, F_RDONLY, F_WRONLY, F_RDWR_TRUNC, F_WRONLY_TRUNC, F_RDWR_APPEND, F_CREAT_APPEND, F_CREAT_TRUNC}) v.push_back (mk (K_HOPEN, 0, 0, 0, 0, f));
    v.push_back (mk (K_HOPEN, 1, 0, 0, 0, F_EXCL));
    v.push_back (mk (K_HCLOSE, 0));
    v.push_back (mk (K_HCLOSE, 1));
    v.push_back (mk (K_WRITE, 0, 2, 5));
    v.push_back (mk (K_WRITE, 1, 1, 4));
    v.push_back (mk (K_TRUNC, 0, 5));
    v.push_back (mk (K_TRUNC, 0, 9, 0, 0, 1));
    v.push_back (mk (K_READ, 0, 1, 9));
    v.push_back (mk (K_FSYNC, 0));
    v.push_back (mk (K_CLEAR));
    return v;
}
static Reg c01c ({"C01", "handles", "open flag variants (truncate, append, create, exclusive), several handles on two names, path and handle truncates",
    [] (int) { return vector<Cfg>{geo ("bs4 x1 pre6", 4, 1, 64, {{0, 6}}), geo ("bs4 x2 none", 4, 2, 64, {})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 5 : 4;
        o.prune = [] (const Model&, const Hist& h, const Op& op) { return h.size () && op.k == K_READ && h.back ().k == K_READ; };
        enum_hist (c, handle_ops (), o, s, cb);
    },
    [] (const Cfg& c, const Case& k) { run_lockstep (c, k, J01, 0, false); }, nullptr});
static Reg c01d ({"C01", "block4096", "4096-byte blocks (1 and 2 per page): writes, truncates and reads around block edges, multi-block writes",
    [] (int) { return vector<Cfg>{geo ("bs4096 x1 pre5000", 4096, 1, 64, {{0, 5000}}), geo ("bs4096 x2 pre100", 4096, 2, 64, {{0, 100}}), geo ("bs512 x8 pre4097", 512, 8, 64, {{0, 4097}})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 4 : 3;
        vector<Op> a = {mk (K_WRITE, 0, 0, 1), mk (K_WRITE, 0, 0, 4096), mk (K_WRITE, 0, 4095, 2), mk (K_WRITE, 0, 4000, 9000), mk (K_WRITE, 0, 8192, 4096), mk (K_WRITE, 0, 20000, 700),
                        mk (K_TRUNC, 0, 0), mk (K_TRUNC, 0, 4096), mk (K_TRUNC, 0, 4097), mk (K_TRUNC, 0, 12000), mk (K_FSYNC, 0), mk (K_CLEAR)};
        enum_hist (c, a, o, s, cb);
    },
    [] (const Cfg& c, const Case& k) { run_lockstep (c, k, J01, 1, false); }, nullptr});
static Reg c01h ({"C01", "huge-blocks", "blocks of 64 KiB to 16 MiB: writes, truncates and reads around block edges",
    [] (int) {
        vector<Cfg> v;
        for (int bs : {1 << 16, 1 << 20, 1 << 22, 1 << 23, 1 << 24}) v.push_back (geo ("bs" + std::to_string (bs), bs, bs > 1 << 20 ? 1 : 2, 4, {{0, 5000}}));
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 3 : 2;
        enum_hist (c, {mk (K_WRITE, 0, 0, 1), mk (K_WRITE, 0, 4999, 5), mk (K_WRITE, 0, c.bs - 1, 2), mk (K_WRITE, 0, c.bs + 9, 3), mk (K_TRUNC, 0, 4), mk (K_TRUNC, 0, c.bs + 1), mk (K_FSYNC, 0), mk (K_CLEAR)}, o, s, cb);
    },
    [] (const Cfg& c, const Case& k) { run_lockstep (c, k, J01, 0, false); }, nullptr});
// Large offsets: the file is sparse on disk; the oracle is a list of (offset, bytes) patches over zeros.
struct Big {
    int64_t size;
    std::map<int64_t, uint8_t> m;
    uint8_t at (int64_t p) const { auto i = m.find (p); return i == m.end () ? 0 : i->second; }
};
static const int64_t G2 = (int64_t)1 << 31, G4 = (int64_t)1 << 32, T1 = (int64_t)1 << 40;
static void run_big (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    string f = shim::root + "/a";
    int fd = rs::open (f.c_str (), O_RDWR | O_CREAT, 0644);
    rs::ftruncate (fd, c.p1);
    rs::close (fd);
    spawn_ok ([&] {
        Kernel q;
        q.cfg = &c; q.root = shim::root; q.fifo = shim::root + ".fifo";
        q.mount ();
        Big cur{c.p1, {}}, dur{c.p1, {}};
        std::set<int64_t> marks = {c.p1};
        int step = 0;
        auto check = [&] (const char* when) {
            struct stat st;
            int e = q.lookup ("a", &st);
            if (e || st.st_size != cur.size) fail ("%s: size %lld (rc %d), expected %lld", when, (long long)st.st_size, e, (long long)cur.size);
            if (q.open_h (4, "a", F_RDONLY)) fail ("%s: open failed", when);
            for (int64_t x : marks)
                for (int64_t off : {x - 9, x - 1, x, x + 3}) {
                    if (off < 0) continue;
                    Bytes b, want;
                    for (int64_t p = off; p < off + 12 && p < cur.size; p++) want.push_back (cur.at (p));
                    int r = q.read ("a", &q.h[4].fi, b, off, 12);
                    if (r != (int)want.size () || b != want) fail ("%s: read at %lld = %d %s, expected %s", when, (long long)off, r, hex (b).c_str (), hex (want).c_str ());
                }
            q.close_h (4);
        };
        for (auto& o : k.h) {
            progress (step, 1);
            count_op ();
            if (o.k == K_CLEAR) {
                Bytes b;
                struct stat st;
                q.command ("lazyfs::clear-cache");
                // what is on disk counts
                rs::lstat (f.c_str (), &st);
                cur.size = st.st_size;
                cur.m.clear ();
                int d = rs::open (f.c_str (), O_RDONLY);
                for (int64_t x : marks)
                    for (int64_t p = std::max<int64_t> (0, x - 16); p < x + 32; p++) {
                        uint8_t v = 0;
                        if (rs::pread (d, &v, 1, p) == 1 && v) cur.m[p] = v;
                    }
                rs::close (d);
            } else {
                Res r = q.apply (o, step);
                if (r.rc != (o.k == K_WRITE ? o.len : 0)) fail ("%s returned %d", fmt_op (c, o).c_str (), r.rc);
                if (o.k == K_WRITE) {
                    Bytes d = Model::payload (step, o.off, o.len);
                    for (int64_t i = 0; i < o.len; i++) cur.m[o.off + i] = d[i];
                    cur.size = std::max (cur.size, o.off + o.len);
                    marks.insert (o.off);
                    marks.insert (o.off + o.len);
                }
                if (o.k == K_TRUNC) {
                    cur.size = o.off;
                    cur.m.erase (cur.m.lower_bound (o.off), cur.m.end ());
                    marks.insert (o.off);
                }
                if (o.k == K_FSYNC) dur = cur;
            }
            if (o.k == K_FSYNC || c.p2) { // synced bytes must be at their offsets on disk
                struct stat st;
                rs::lstat (f.c_str (), &st);
                if (st.st_size != dur.size && o.k == K_FSYNC) fail ("fsync left size %lld on disk, expected %lld", (long long)st.st_size, (long long)dur.size);
                int d = rs::open (f.c_str (), O_RDONLY);
                if (o.k == K_FSYNC)
                    for (int64_t x : marks)
                        for (int64_t p = std::max<int64_t> (0, x - 16); p < std::min (x + 16, dur.size); p++) {
                            uint8_t v = 0xEE;
                            rs::pread (d, &v, 1, p);
                            if (v != dur.at (p)) fail ("after fsync the backing file has %02x at %lld, expected %02x", v, (long long)p, dur.at (p));
                        }
                rs::close (d);
            }
            step++;
            count_state (std::hash<string>{}(std::to_string (cur.size) + "/" + std::to_string (cur.m.size ()) + "/" + std::to_string (dur.m.size ()) + "/" + std::to_string (step) + fmt_op (c, o)));
            check ("after the operation");
        }
    });
}
static vector<Cfg> big_cfgs (int) {
    vector<Cfg> v;
    for (int64_t sz : {G2 + 20, G4 + 20, T1 + 7}) {
        Cfg c = geo ("sparse file of " + std::to_string (sz) + " bytes, bs4096", 4096, 1, 64, {}, {"a"});
        c.p1 = sz;
        c.pre = {{0, 0}};
        v.push_back (c);
    }
    for (int bs : {1, 2, 512, 4096}) { // the 2^31st block and later ones
        Cfg c = geo ("sparse file of 2^31 blocks and 20 bytes, bs" + std::to_string (bs), bs, bs == 4096 ? 1 : 8, 64, {}, {"a"});
        c.p1 = (G2 * bs) + 20;
        c.pre = {{0, 0}};
        v.push_back (c);
    }
    return v;
}
static void gen_big (const Cfg& c, int tier, Shard s, const CB& cb) {
    vector<Op> a;
    for (int64_t o : {(int64_t)5, G2 - 3, G2, c.p1 - 2, c.p1}) if (o <= c.p1) a.push_back (mk (K_WRITE, 0, o, 6));
    if (c.p1 > G4) { a.push_back (mk (K_WRITE, 0, G4 - 3, 6)); a.push_back (mk (K_WRITE, 0, G4 + 5, 6)); }
    if (c.p1 == G2 * c.bs + 20) a.push_back (mk (K_WRITE, 0, G2 * c.bs - 3, 6));
    for (int64_t o : {c.p1 - 5, G2 - 1, G2 + 3}) a.push_back (mk (K_TRUNC, 0, o));
    a.push_back (mk (K_FSYNC, 0));
    a.push_back (mk (K_CLEAR));
    EnumOpt o;
    // (the model's byte vectors are useless here: enumerate without it)
    int hi = tier ? 4 : 3;
    Case cs;
    long idx = 0;
    std::function<void (int, int64_t)> rec = [&] (int d, int64_t size) {
        if (stopping ()) return;
        if (d == 2 && (idx++ % s.n) != s.k) return;
        if (d >= 2) cb (cs);
        if (d == hi) return;
        for (auto& op : a) {
            int64_t ns = size;
            if (op.k == K_WRITE) { if (op.off > size + 100) continue; ns = std::max (size, op.off + op.len); } // no huge hole to materialise
            if (op.k == K_TRUNC) { if (op.off > size + 100) continue; ns = op.off; }
            if (op.k == K_CLEAR) ns = 0; // unknown: only what stays valid for every outcome
            cs.h.push_back (op);
            rec (d + 1, op.k == K_CLEAR ? size : ns);
            cs.h.pop_back ();
        }
    };
    rec (0, c.p1);
}
static Reg c01e ({"C01", "large-offsets", "sparse files larger than 2 GiB, 4 GiB and 1 TiB: writes/truncates/reads around 2^31, 2^32 and the end", big_cfgs, gen_big, run_big, nullptr});

static Reg c01f ({"C01", "one-file-deep", "one file, six operations, deep sequences",
    [] (int) { return vector<Cfg>{geo ("bs4 x1 empty", 4, 1, 64, {{0, 0}}), geo ("bs4 x2 pre6", 4, 2, 64, {{0, 6}})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 5;
        o.hi = tier ? 8 : 6;
        o.prune = [] (const Model&, const Hist& h, const Op& op) { return h.size () && (op.k == K_CLEAR || op.k == K_FSYNC) && h.back ().k == op.k; };
        enum_hist (c, {mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 3, 6), mk (K_WRITE, 0, 13, 2), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 0, 10), mk (K_FSYNC, 0), mk (K_CLEAR)}, o, s, cb);
    },
    [] (const Cfg& c, const Case& k) { run_lockstep (c, k, J01, 0, false); }, nullptr});
// ---- C02 ---------------------------------------------------------------------------------------------------------
static bool has (const Hist& h, int k) {
    for (auto& o : h) if (o.k == k) return true;
    return false;
}
static void run_sync (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = J_DISK_SYNC | J_DISK_CLEAR;
        e.start ();
        e.run (k.h);
    });
    remount_check (c, model_after (c, k.h), 0); // LazyFS killed here
}
static Reg c02a ({"C02", "sync-one-file", "one file: every sequence with at least one sync; kill and remount at the end",
    [] (int) { return one_file_cfgs (); },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 5 : 4;
        o.accept = [] (const Model&, const Hist& h) { return has (h, K_FSYNC); };
        vector<Op> a = one_file_ops (0);
        a.push_back (mk (K_FSYNC, 0, 0, 0, 0, 1));
        enum_hist (c, a, o, s, cb);
    },
    run_sync, nullptr});
static Reg c02s ({"C02", "sync-block-sizes", "blocks of 1, 2, 3, 5, 7, 8, 13 and 16 bytes, 1, 2, 3, 5 or 8 to a page: every sequence up to the depth that ends with a sync; kill and remount at the end",
    [] (int) { return size_cfgs (); },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 4 : 3;
        o.lo = 1;
        o.accept = [] (const Model&, const Hist& h) { return h.size () && h.back ().k == K_FSYNC; };
        enum_hist (c, one_file_ops (0), o, s, cb);
    },
    run_sync, nullptr});
static vector<Op> mixed_ops () {
    return {mk (K_HOPEN, 0), mk (K_HCLOSE, 0), mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 5, 6), mk (K_WRITE, 1, 2, 4), mk (K_WRITE, 0, 0, 9), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 0, 10), mk (K_FSYNC, 0), mk (K_FSYNC, 1), mk (K_FSYNC, 1, 0, 0, 0, 1),
            mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 2), mk (K_LINK, 0, 0, 0, 2), mk (K_UNLINK, 0), mk (K_UNLINK, 2), mk (K_CLEAR), mk (K_READ, 0, 2, 9)};
}
static Reg c02b ({"C02", "sync-names", "two files and a third name: syncs after renames, links, unlinks, truncates, with open handles; kill and remount at the end",
    [] (int) { return vector<Cfg>{geo ("bs4 x1", 4, 1, 64, {{0, 6}}, {"a", "b", "c"}), geo ("bs4 x2", 4, 2, 64, {{0, 0}, {1, 9}}, {"a", "b", "c"})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 5 : 4;
        o.lo = 2;
        o.accept = [] (const Model&, const Hist& h) { return has (h, K_FSYNC); };
        enum_hist (c, mixed_ops (), o, s, cb);
    },
    run_sync, nullptr});
static Reg c02c ({"C02", "sync-many-blocks", "files with 1 to 3000 dirty blocks in one run, around 1024-block boundaries, with rewritten, synced or missing blocks in between",
    [] (int) { return vector<Cfg>{geo ("bs4 x1", 4, 1, 4000, {{0, 0}}, {"a"}), geo ("bs4 x4", 4, 4, 4000, {{0, 13000}}, {"a"}), geo ("bs64 x2", 64, 2, 4000, {{0, 0}}, {"a"})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> big, mid, mid2;
        for (int n : {1, 2, 3, 15, 16, 17, 1023, 1024, 1025, 2048, 2049, 3000})
            for (int d : {-1, 0, 2}) big.push_back (mk (K_WRITE, 0, 0, (int64_t)n * c.bs + d));
        for (int n : {1, 7, 1023, 1024, 1025, 1500}) {
            mid.push_back (mk (K_WRITE, 0, (int64_t)n * c.bs - 1, 2));
            mid.push_back (mk (K_TRUNC, 0, (int64_t)n * c.bs + 1));
        }
        mid.push_back (mk (K_NOP));
        enum_stages (c, {big, {mk (K_NOP), mk (K_FSYNC, 0)}, mid, {mk (K_NOP), mk (K_WRITE, 0, (int64_t)1026 * c.bs, 3)}, {mk (K_FSYNC, 0)}}, s, cb);
    },
    run_sync, nullptr});
// ---- C03 ---------------------------------------------------------------------------------------------------------
static void run_lost (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = J_DISK | J_ADOPT_SYNC;
        e.start ();
        e.run (k.h);
        e.check_view ("at the end", 0);
        e.check_disk ("after reading everything");
        e.clear_and_check (0);
    });
}
static Reg c03a ({"C03", "lost-one-file", "one file: nothing but a sync changes the backing file, a clear takes it back; checked after every operation",
    [] (int) { return one_file_cfgs (); },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 5 : 4;
        vector<Op> a = one_file_ops (0);
        enum_hist (c, a, o, s, cb);
    },
    run_lost, nullptr});
static Reg c03s ({"C03", "lost-block-sizes", "blocks of 1, 2, 3, 5, 7, 8, 13 and 16 bytes, 1, 2, 3, 5 or 8 to a page: every sequence up to the depth",
    [] (int) { return size_cfgs (); },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 4 : 2;
        enum_hist (c, one_file_ops (0), o, s, cb);
    },
    run_lost, nullptr});
static Reg c03b ({"C03", "lost-other-ops", "two files, three names: opens, closes, reads, renames, links, unlinks, stats, fsyncs of the other file leave unsynced data unsynced",
    [] (int) { return vector<Cfg>{geo ("bs4 x1", 4, 1, 64, {{0, 6}}, {"a", "b", "c"}), geo ("bs4 x2", 4, 2, 64, {{0, 0}, {1, 9}}, {"a", "b", "c"})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? 5 : 4;
        vector<Op> a = mixed_ops ();
        for (auto& x : {mk (K_STAT, 0), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC), mk (K_CHMOD, 0, 0600), mk (K_UTIMENS, 0)}) a.push_back (x);
        enum_hist (c, a, o, s, cb);
    },
    run_lost, nullptr});
// the cache nearly full of another file's blocks: b leaves 1-4 blocks free and has one per write of a
static Reg c03c ({"C03", "lost-nearly-full", "a file fills the cache up to its last 2, 4 or 6 blocks, caches of 5 to 1000 blocks; another file's unsynced data must stay unsynced while there is room for it",
    [] (int tier) {
        vector<Cfg> v;
        struct G { int bpp, pages; };
        vector<G> g = {{1, 5}, {1, 12}, {1, 40}, {1, 128}, {1, 200}, {1, 1000}, {2, 6}, {2, 64}};
        if (tier) for (auto& x : vector<G>{{1, 8}, {1, 30}, {1, 64}, {1, 100}, {1, 256}, {1, 400}, {1, 3000}, {3, 40}, {4, 100}}) g.push_back (x);
        for (auto& x : g)
            for (int ev = 0; ev < 2; ev++) {
                Cfg c = geo ("bs4, " + std::to_string (x.pages) + " pages of " + std::to_string (x.bpp) + (ev ? ", eviction" : ""), 4, x.bpp, x.pages, {{0, 6}, {1, 0}}, {"a", "b"});
                c.evict = ev;
                v.push_back (c);
            }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        // (four blocks for a, and its pages may be partly filled)
        int room = 4 * c.bpp;
        vector<Op> fill;
        for (int r : {0, 1}) if (c.pages * c.bpp > room + r * c.bpp) fill.push_back (mk (K_WRITE, 1, 0, (int64_t)(c.pages * c.bpp - room - r * c.bpp) * c.bs));
        vector<Op> a = {mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 3, 6), mk (K_WRITE, 0, 12, 4), mk (K_WRITE, 0, 0, 16), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 0, 14), mk (K_READ, 0, 0, 16), mk (K_FSYNC, 0), mk (K_WRITE, 1, 1, 3), mk (K_FSYNC, 1)};
        vector<Op> n = a;
        n.push_back (mk (K_NOP));
        vector<vector<Op>> st = {fill, a, a, n};
        if (tier) st.push_back (n);
        enum_stages (c, st, s, cb);
    },
    run_lost, nullptr, 8});
// ---- C04 ---------------------------------------------------------------------------------------------------------
static void run_clear (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = J_ADOPT_CLEAR;
        e.start ();
        bool cleared = false;
        for (auto& o : k.h) {
            if (cleared) e.judge = J_ALL | J_ADOPT_CLEAR;
            e.apply (o);
            if (o.k == K_CLEAR) cleared = true; // (no probe here: it would warm the cache up again)
        }
        e.check_view ("at the end", 1);
        e.check_disk ("after reading back");
        e.clear_and_check (0);
    });
}
static Reg c04a ({"C04", "clear-then", "every history before a clear x every history after it: files, handles, renames, links, truncates",
    [] (int) { return vector<Cfg>{geo ("bs4 x1", 4, 1, 64, {{0, 6}}, {"a", "b", "c"}), geo ("bs4 x2", 4, 2, 64, {{0, 0}, {1, 9}}, {"a", "b", "c"})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> pre = {mk (K_NOP), mk (K_HOPEN, 0), mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 5, 6), mk (K_TRUNC, 0, 2), mk (K_TRUNC, 0, 10), mk (K_FSYNC, 0), mk (K_RENAME, 0, 0, 0, 1), mk (K_LINK, 0, 0, 0, 2), mk (K_UNLINK, 0)};
        vector<Op> post = {mk (K_NOP), mk (K_WRITE, 0, 1, 5), mk (K_WRITE, 0, 9, 1), mk (K_WRITE, 1, 6, 4), mk (K_TRUNC, 0, 5), mk (K_TRUNC, 0, 12), mk (K_FSYNC, 0), mk (K_FSYNC, 1), mk (K_RENAME, 0, 0, 0, 1), mk (K_LINK, 0, 0, 0, 2), mk (K_UNLINK, 0), mk (K_UNLINK, 2), mk (K_HCLOSE, 0), mk (K_WRITE, 254, 3, 3), mk (K_READ, 0, 1, 20), mk (K_READ, 254, 0, 9)};
        vector<vector<Op>> st = {pre, pre, pre, {mk (K_CLEAR)}, post, post};
        if (tier) st = {pre, pre, pre, pre, {mk (K_CLEAR)}, post, post};
        enum_stages (c, st, s, cb);
    },
    run_clear, nullptr});
static Reg c04b ({"C04", "clear-three-steps-before", "longer histories before the clear, one operation after it",
    [] (int) { return vector<Cfg>{geo ("bs4 x1", 4, 1, 64, {{0, 6}}, {"a", "b", "c"})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> pre = mixed_ops ();
        vector<Op> post = {mk (K_WRITE, 0, 1, 5), mk (K_WRITE, 1, 6, 4), mk (K_TRUNC, 0, 5), mk (K_TRUNC, 0, 12), mk (K_READ, 0, 0, 20)};
        vector<vector<Op>> st = {pre, pre, pre, {mk (K_CLEAR)}, post};
        if (tier) st = {pre, pre, pre, pre, {mk (K_CLEAR)}, post};
        enum_stages (c, st, s, cb);
    },
    run_clear, nullptr});
// After the clear nothing of what was cached is left: every backing file is rewritten behind LazyFS's back, and what is
// read, listed and written back afterwards is the new content. The usage is 0 right after the clear.
static void run_rewritten (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = J_ADOPT_CLEAR;
        e.start ();
        for (auto& o : k.h) e.apply (o);
        e.k.truncate_log ();
        e.apply (mk (K_CLEAR));
        e.k.command ("lazyfs::display-cache-usage");
        string log = e.k.read_log ();
        if (!std::regex_search (log, std::regex ("[^0-9.]0(\\.0+)?\\s*%"))) fail ("the usage right after clear-cache is not 0: %s", log.substr (0, 200).c_str ());
        int n = 0;
        std::set<int> done;
        for (auto& x : e.m.ns) {
            MI& i = e.m.in[x.second];
            if (i.type != MT_REG || !done.insert (x.second).second) continue;
            Bytes d ((k.x[0] ? 15 : 3) + n);
            for (size_t j = 0; j < d.size (); j++) d[j] = 0xC1 + 16 * n + j % 16;
            n++;
            int fd = rs::open ((shim::root + "/" + x.first).c_str (), O_WRONLY | O_TRUNC);
            if (fd < 0 || rs::write (fd, d.data (), d.size ()) != (ssize_t)d.size ()) fail ("internal: cannot rewrite %s", x.first.c_str ());
            rs::close (fd);
            i.cur = i.dur = d;
            i.dirty.clear ();
            i.cached.clear ();
        }
        e.check_view ("after clear-cache, the backing files rewritten", 1);
        e.check_disk ("after clear-cache, the backing files rewritten");
        e.judge = J_ALL;
        for (auto& x : e.m.ns) {
            if (e.m.in[x.second].type != MT_REG) continue;
            for (size_t a = 0; a < c.names.size (); a++)
                if (c.names[a] == x.first) { e.apply (mk (K_WRITE, a, 6, 3)); e.apply (mk (K_FSYNC, a)); }
        }
        e.check_view ("at the end", 0);
    });
}
static Reg c04c ({"C04", "nothing-kept", "every history, then a clear, after which the backing files are given other contents and sizes: only those are seen; usage 0 right after the clear",
    [] (int) {
        vector<Cfg> v = {geo ("bs4 x1", 4, 1, 64, {{0, 6}}, {"a", "b", "c"}), geo ("bs4 x2, a = b", 4, 2, 64, {{0, 9}}, {"a", "b", "c"})};
        v[1].prelink = {{"a", "b"}};
        for (auto& c : v) c.capture = true;
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 4 : 3;
        vector<Op> a = mixed_ops ();
        for (auto& x : {mk (K_STAT, 0), mk (K_UTIMENS, 0), mk (K_LINK, 0, 0, 0, 1), mk (K_LINK, 1, 0, 0, 2), mk (K_CKPT)}) a.push_back (x);
        enum_hist (c, a, o, s, [&] (const Case& k) {
            Case q = k;
            for (int v = 0; v < 2; v++) { q.x = {v}; cb (q); }
        });
    },
    run_rewritten, nullptr});
// ---- C05 ---------------------------------------------------------------------------------------------------------
static void run_ckpt (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = J_ADOPT_CLEAR;
        e.start ();
        for (auto& o : k.h) {
            if (o.k == K_CKPT) {
                e.judge = J_DISK | J_ADOPT_CLEAR;
                e.apply (o);
                e.check_view ("after the checkpoint", 0);
            } else {
                // what an fsync writes is not judged here
                e.judge = (e.judge & ~J_ADOPT_SYNC) | (o.k == K_FSYNC ? (unsigned)J_ADOPT_SYNC : 0u);
                e.apply (o);
            }
        }
        if (k.h.back ().k != K_CLEAR) e.clear_and_check (0);
    });
}
static Reg c05s ({"C05", "checkpoint-block-sizes", "blocks of 1, 2, 3, 5, 7, 8, 13 and 16 bytes, 1, 2, 3, 5 or 8 to a page: every two operations, a checkpoint, one more operation; clear at the end",
    [] (int) { return size_cfgs (); },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> a = one_file_ops (0), n = a;
        n.push_back (mk (K_NOP));
        vector<vector<Op>> st = {a, n, {mk (K_CKPT)}, {mk (K_NOP), mk (K_WRITE, 0, 1, 5), mk (K_TRUNC, 0, 3)}};
        if (tier) st.insert (st.begin (), n);
        enum_stages (c, st, s, cb);
    },
    run_ckpt, nullptr});
static Reg c05a ({"C05", "checkpoint", "several files, links, renames, truncates, open handles, then checkpoint and continuation; clear at the end",
    [] (int) { return vector<Cfg>{geo ("bs4 x1", 4, 1, 64, {{0, 6}}, {"a", "b", "c"}), geo ("bs4 x2", 4, 2, 64, {{0, 0}, {1, 9}}, {"a", "b", "c"})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> pre = mixed_ops ();
        pre.push_back (mk (K_NOP));
        vector<Op> post = {mk (K_NOP), mk (K_WRITE, 0, 1, 5), mk (K_WRITE, 1, 6, 4), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_RENAME, 0, 0, 0, 1), mk (K_CKPT)};
        vector<vector<Op>> st = {pre, pre, pre, {mk (K_CKPT)}, post, post};
        if (tier) st = {pre, pre, pre, pre, {mk (K_CKPT)}, post, post};
        enum_stages (c, st, s, cb);
    },
    run_ckpt, nullptr});
static Reg c05b ({"C05", "checkpoint-one-file", "one file, every dirty block layout up to the depth, then checkpoint",
    [] (int) { return one_file_cfgs (); },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> a = one_file_ops (0);
        vector<vector<Op>> st = {a, a, {mk (K_CKPT)}, {mk (K_NOP), mk (K_WRITE, 0, 2, 7), mk (K_TRUNC, 0, 5)}};
        st.insert (st.begin (), a);
        enum_stages (c, st, s, cb);
    },
    run_ckpt, nullptr});
