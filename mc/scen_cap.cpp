// Cache capacity: C06 (full cache, no eviction), C07 (LRU eviction)
#include "scen.hpp"

static vector<Cfg> cap_cfgs (bool evict, int tier) {
    vector<Cfg> v;
    struct G { int bpp, pages, pa, pb; };
    vector<G> g = {{1, 1, 6, 0}, {1, 2, 0, 5}, {1, 3, 6, 6}, {2, 1, 9, 0}, {2, 2, 6, 3}, {3, 2, 0, 0}};
    if (tier) for (auto& x : vector<G>{{1, 4, 10, 3}, {2, 3, 0, 9}, {3, 1, 14, 0}, {4, 2, 6, 6}}) g.push_back (x);
    for (auto& x : g) {
        Cfg c = geo ("bs4, " + std::to_string (x.pages) + " pages of " + std::to_string (x.bpp) + " blocks, a=" + std::to_string (x.pa) + " b=" + std::to_string (x.pb), 4, x.bpp, x.pages, {{0, x.pa}, {1, x.pb}}, {"a", "b", "c"});
        c.evict = evict;
        c.weak  = true;
        v.push_back (c);
    }
    return v;
}
static vector<Cfg> cap_size_cfgs (bool evict) {
    vector<Cfg> v;
    for (int bs : {1, 2, 3, 5, 8})
        for (int bpp : {1, 2, 3})
            for (int pages : {1, 2, 3}) {
                Cfg c = geo ("bs" + std::to_string (bs) + ", " + std::to_string (pages) + " pages of " + std::to_string (bpp), bs, bpp, pages, {{0, 6}, {1, 0}}, {"a", "b", "c"});
                c.evict = evict;
                c.weak  = true;
                v.push_back (c);
            }
    return v;
}
static void run_cap (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = J_ALL;
        e.start ();
        e.run (k.h);
        e.check_view ("at the end", 0);
        e.check_disk ("after reading everything");
        e.clear_and_check (0);
    });
}
static vector<Op> cap_ops () {
    return {mk (K_WRITE, 0, 0, 4), mk (K_WRITE, 0, 2, 5), mk (K_WRITE, 0, 9, 3), mk (K_WRITE, 0, 4, 8), mk (K_WRITE, 1, 0, 3), mk (K_WRITE, 1, 3, 6), mk (K_WRITE, 1, 13, 2),
            mk (K_TRUNC, 0, 3), mk (K_TRUNC, 0, 11), mk (K_TRUNC, 1, 5), mk (K_FSYNC, 0), mk (K_FSYNC, 1), mk (K_CLEAR)};
}
static vector<Op> cap_name_ops () {
    return {mk (K_WRITE, 0, 0, 7), mk (K_WRITE, 0, 9, 3), mk (K_WRITE, 1, 1, 9), mk (K_WRITE, 2, 2, 4), mk (K_TRUNC, 0, 3), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 0, 0, 0, 2), mk (K_RENAME, 2, 0, 0, 0),
            mk (K_LINK, 0, 0, 0, 2), mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_HOPEN, 0), mk (K_FSYNC, 0), mk (K_FSYNC, 2), mk (K_CKPT), mk (K_CLEAR), mk (K_WRITE, 254, 1, 6)};
}
static auto gen_data (int q, int t) {
    return [=] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.hi = tier ? t : q;
        enum_hist (c, cap_ops (), o, s, cb);
    };
}
static auto gen_names (int q, int t) {
    return [=] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2;
        o.hi = tier ? t : q;
        enum_hist (c, cap_name_ops (), o, s, cb);
    };
}
// one large write (many more blocks than the cache holds), every edge alignment
static void gen_big (const Cfg& c, int tier, Shard s, const CB& cb) {
    vector<Op> w, w2;
    for (int off = 0; off <= 6; off++)
        for (int len : {1, 4, 5, 9, 16, 23, 40}) w.push_back (mk (K_WRITE, 0, off, len));
    for (int off : {0, 3, 8, 17}) for (int len : {2, 7, 20}) w2.push_back (mk (K_WRITE, 1, off, len));
    w2.push_back (mk (K_NOP));
    enum_stages (c, {w, w2, {mk (K_NOP), mk (K_FSYNC, 0), mk (K_TRUNC, 0, 6), mk (K_CLEAR)}, tier ? w : vector<Op>{mk (K_WRITE, 0, 3, 10), mk (K_WRITE, 0, 30, 6), mk (K_READ, 0, 0, 50)}, {mk (K_NOP), mk (K_FSYNC, 0)}}, s, cb);
}
// open handles in append mode and O_TRUNC while the cache is full
static void gen_handles (const Cfg& c, int tier, Shard s, const CB& cb) {
    EnumOpt o;
    o.lo = 2;
    o.hi = tier ? 5 : 4;
    enum_hist (c, {mk (K_HOPEN, 0, 0, 0, 0, F_WRONLY_APPEND), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_APPEND), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC), mk (K_HOPEN, 1, 0, 0, 0, F_RDONLY), mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 6, 9), mk (K_WRITE, 1, 0, 9),
                   mk (K_TRUNC, 0, 5), mk (K_FSYNC, 0), mk (K_CLEAR), mk (K_HCLOSE, 0)}, o, s, cb);
}
#define CAP(P, ev, nm, what, gen) {P, nm, what, [] (int t) { return cap_cfgs (ev, t); }, gen, run_cap, nullptr}
static Reg c06a (CAP ("C06", false, "full-data", "two files competing for 1-3 pages, no eviction: every sequence of 13 operations up to the depth", gen_data (4, 5)));
static Reg c06b (CAP ("C06", false, "full-names", "the same with renames, links, unlinks, orphans, checkpoints and a third name", gen_names (3, 4)));
static Reg c06c (CAP ("C06", false, "full-large-writes", "writes larger than the whole cache at every block alignment", gen_big));
static Reg c06d (CAP ("C06", false, "full-handles", "append/truncate handles while the cache is full", gen_handles));
static Reg c07a (CAP ("C07", true, "evict-data", "two files competing for 1-3 pages with LRU eviction: every sequence of 13 operations up to the depth", gen_data (4, 5)));
static Reg c07b (CAP ("C07", true, "evict-names", "the same with renames, links, unlinks, orphans, checkpoints and a third name", gen_names (3, 4)));
static Reg c07c (CAP ("C07", true, "evict-large-writes", "writes larger than the whole cache at every block alignment, with eviction", gen_big));
static Reg c07d (CAP ("C07", true, "evict-handles", "append/truncate handles while pages are being evicted", gen_handles));

#define CAPS(P, ev, nm) {P, nm, "two files competing for 1-3 pages of 1-3 blocks of 1, 2, 3, 5 or 8 bytes: every sequence of 13 operations up to the depth", [] (int) { return cap_size_cfgs (ev); }, gen_data (3, 4), run_cap, nullptr}
static Reg c06s (CAPS ("C06", false, "full-block-sizes"));
static Reg c07s (CAPS ("C07", true, "evict-block-sizes"));

// larger caches: 4-33 pages, a working set a little smaller to three times larger, in one, two or 24 files, visited in every stride
static vector<Cfg> many_cfgs (bool evict) {
    vector<Cfg> v;
    for (auto& g : vector<std::pair<int, int>>{{1, 4}, {1, 8}, {2, 8}, {1, 16}, {4, 5}, {1, 33}})
        for (int files : {1, 2, 24})
            for (int pre : {0, 1}) {
                vector<string> names;
                vector<std::pair<int, int>> ps;
                for (int i = 0; i < files; i++) {
                    names.push_back ("f" + std::to_string (i));
                    ps.push_back ({i, pre ? (files == 24 ? 9 : 150) : 0});
                }
                Cfg c = geo ("bs4, " + std::to_string (g.second) + " pages of " + std::to_string (g.first) + " blocks, " + std::to_string (files) + (pre ? " files with content" : " empty files"), 4, g.first, g.second, ps, names);
                c.evict = evict;
                c.weak  = true;
                c.p1    = files;
                v.push_back (c);
            }
    return v;
}
static void gen_many (const Cfg& c, int tier, Shard s, const CB& cb) {
    int files = c.p1, cap = c.bpp * c.pages;
    long idx = 0;
    for (int n : {cap - 1, cap, cap + 1, 2 * cap, 3 * cap})
        for (int stride : {1, 3, 7, n - 1})
            for (int mix = 0; mix < 8; mix++) {
                if (!tier && n > 40 && stride == 7) continue;
                if ((idx++ % s.n) != s.k) continue;
                if (stopping ()) return;
                Case k;
                auto at = [&] (int j, int sub, int len) { // the j-th block of the working set
                    j %= n;
                    return mk (K_WRITE, j % files, (int64_t)(j / files) * 4 + sub, len);
                };
                int L = std::min (2 * n, 120);
                for (int i = 0; i < L; i++) {
                    int j = (int)((long)i * stride % n);
                    k.h.push_back (mix == 2 ? at (j, 1, 2) : mix == 6 ? at (j, 2, 6) : at (j, 0, 4));
                    if (mix == 1) { Op r = at (j * 5 + 1, 0, 4); r.k = K_READ; k.h.push_back (r); }
                    if (mix == 3 && i % 5 == 4) k.h.push_back (mk (K_FSYNC, i % files));
                    if (mix == 4 && i % 9 == 8) k.h.push_back (mk (K_TRUNC, j % files, (j / files) * 4 / 2 + 1));
                    if (mix == 5 && i == L / 2) k.h.push_back (mk (K_CLEAR));
                    if (mix == 7 && i % 7 == 6) k.h.push_back (at (0, 0, 3)); // one block stays recently used
                }
                cb (k);
            }
}
#define MANY(P, ev, nm) {P, nm, "caches of 4-33 pages, working sets from one block below the capacity to three times the capacity in 1, 2 or 24 files, visited in several strides, with reads, syncs, truncates, clears or a hot block in between", \
    [] (int) { return many_cfgs (ev); }, gen_many, run_cap, nullptr, 1}
static Reg c06e (MANY ("C06", false, "full-many-pages"));
static Reg c07e (MANY ("C07", true, "evict-many-pages"));
