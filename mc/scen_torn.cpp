// C13: torn-op (one write split into parts); C14: torn-seq (a group of writes of which some are persisted).
#include "scen.hpp"
struct TornShm { int step, kill; };
static TornShm* tsh () { return (TornShm*)shared_scratch (); }

// ---- faults as numbers -------------------------------------------------------------------------------------------
// torn-op : {0, file, bytes?, n, parts..., m, persist..., occurrence, pos}   (parts: n=1 and the number of parts)
// torn-seq: {1, file, 0, 0, m, persist..., occurrence, pos}
struct TF {
    int seq = 0, file = 0, bytes = 0;
    vector<int> parts, persist;
    int occ = 1, pos = 0;
};
static vector<TF> dec (const vector<int64_t>& x) {
    vector<TF> v;
    size_t i = 0;
    while (i < x.size ()) {
        TF t;
        t.seq = x[i++]; t.file = x[i++]; t.bytes = x[i++];
        int n = x[i++];
        while (n--) t.parts.push_back (x[i++]);
        n = x[i++];
        while (n--) t.persist.push_back (x[i++]);
        t.occ = x[i++]; t.pos = x[i++];
        v.push_back (t);
    }
    return v;
}
static void enc (vector<int64_t>& x, const TF& t) {
    for (int v : {t.seq, t.file, t.bytes, (int)t.parts.size ()}) x.push_back (v);
    for (int v : t.parts) x.push_back (v);
    x.push_back (t.persist.size ());
    for (int v : t.persist) x.push_back (v);
    x.push_back (t.occ);
    x.push_back (t.pos);
}
static string list (const vector<int>& v, const char* sep) {
    string s;
    for (size_t i = 0; i < v.size (); i++) s += (i ? sep : "") + std::to_string (v[i]);
    return s;
}
static string cmd (const TF& t, const string& path) {
    if (t.seq) return "lazyfs::torn-seq::op=write::file=" + path + "::persist=" + list (t.persist, ",") + "::occurrence=" + std::to_string (t.occ);
    return "lazyfs::torn-op::file=" + path + "::persist=" + list (t.persist, ",") + (t.bytes ? "::parts_bytes=" : "::parts=") + list (t.parts, ",") + "::occurrence=" + std::to_string (t.occ);
}
static string toml_of (const TF& t, const string& path) {
    string s = string ("[[injection]]\ntype=\"") + (t.seq ? "torn-seq" : "torn-op") + "\"\nfile='" + path + "'\n";
    if (t.seq) s += "op=\"write\"\n";
    else if (t.bytes) s += "parts_bytes=[" + list (t.parts, ",") + "]\n";
    else s += "parts=" + list (t.parts, ",") + "\n";
    s += "persist=[" + list (t.persist, ",") + "]\noccurrence=" + std::to_string (t.occ) + "\n";
    return s;
}
static string fmt_torn (const Cfg& c, const Case& k) {
    string s = fmt_hist (c, k.h);
    for (auto& t : dec (k.x)) s += " {" + cmd (t, c.names[t.file]) + " sent before step " + std::to_string (t.pos) + "}";
    return s;
}
static void put (Bytes& d, const Bytes& w, int64_t off, size_t from, size_t n) {
    if (!n) return;
    if (d.size () < off + from + n) d.resize (off + from + n, 0);
    std::copy (w.begin () + from, w.begin () + from + n, d.begin () + off + from);
}
// the reference: which step kills LazyFS (-1: none), and what is on disk then
static int oracle (const Cfg& c, const Hist& h, const vector<TF>& fs, Model& m) {
    m.init (c);
    struct St { int n = 0, cnt = 0, grp = 0; vector<std::pair<int64_t, Bytes>> w; };
    vector<St> st (fs.size ());
    std::map<int, Bytes> torn; // inode -> disk content with persisted writes
    for (size_t s = 0; s < h.size (); s++) {
        const Op& o = h[s];
        if (o.k == K_WRITE) {
            int ino = m.lookup (c.names[o.a]);
            Bytes d = Model::payload (s, o.off, o.len);
            bool kill = false;
            for (size_t i = 0; i < fs.size (); i++) {
                const TF& t = fs[i];
                if (t.file != o.a || t.pos > (int)s) continue;
                St& q = st[i];
                if (!t.seq) {
                    if (++q.n != t.occ) continue;
                    vector<size_t> sz;
                    if (t.bytes) {
                        size_t sum = 0;
                        for (int b : t.parts) sum += b;
                        if (sum != d.size ()) continue;
                        for (int b : t.parts) sz.push_back (b);
                    } else {
                        for (int b = 0; b < t.parts[0]; b++) sz.push_back (d.size () / t.parts[0]);
                        sz.back () += d.size () % t.parts[0];
                    }
                    if (!torn.count (ino)) torn[ino] = m.in[ino].dur;
                    for (int p : t.persist) {
                        size_t at = 0;
                        for (int b = 0; b < p - 1; b++) at += sz[b];
                        put (torn[ino], d, o.off, at, sz[p - 1]);
                    }
                    kill = true;
                } else {
                    q.cnt++;
                    q.w.push_back ({o.off, d});
                    if (q.cnt == 2) q.grp++;
                    if (q.cnt < 2 || q.grp != t.occ) continue;
                    int max = *std::max_element (t.persist.begin (), t.persist.end ());
                    if (!torn.count (ino)) torn[ino] = m.in[ino].dur;
                    for (int p : t.persist)
                        if (p == q.cnt || (q.cnt == 2 && p == 1)) put (torn[ino], q.w[p - 1].second, q.w[p - 1].first, 0, q.w[p - 1].second.size ());
                    if (q.cnt == max || (q.cnt == 2 && max == 1)) kill = true;
                }
            }
            if (kill) {
                for (auto& x : torn) m.in[x.first].dur = x.second;
                return s;
            }
        }
        if (o.k == K_FSYNC) {
            for (size_t i = 0; i < fs.size (); i++)
                if (fs[i].seq && fs[i].file == o.a && fs[i].pos <= (int)s) { st[i].cnt = 0; st[i].w.clear (); }
            torn.erase (m.lookup (c.names[o.a]));
        }
        m.apply (o);
    }
    return -1;
}
static void run_torn (const Cfg& c, const Case& k) {
    vector<TF> fs = dec (c.pv.empty () ? k.x : c.pv);
    Model m;
    int kill = oracle (c, k.h, fs, m);
    prepare_root (c, shim::root);
    *tsh () = {-1, kill};
    bool any_seq = false;
    for (auto& t : fs) any_seq |= t.seq;
    End e = spawn ([&] {
        Exec x (c);
        x.judge = any_seq ? J_RC : J_ALL;
        x.start ();
        for (size_t s = 0; s < k.h.size (); s++) {
            if (c.pv.empty ())
                for (auto& t : fs) if (t.pos == (int)s) { x.k.command (cmd (t, x.k.path (c.names[t.file]))); bump (CT_CMDS); }
            tsh ()->step = s;
            if ((int)s == kill) {
                progress (s, 1);
                count_op ();
                x.k.apply (k.h[s], x.step);
                fail ("LazyFS was not killed by the fault at %s", fmt_op (c, k.h[s]).c_str ());
            }
            x.apply (k.h[s]);
        }
        tsh ()->step = k.h.size ();
        x.check_view ("at the end", 0);
        for (size_t i = 0; i < c.names.size (); i++)
            if (x.m.lookup (c.names[i]) >= 0 && x.m.in[x.m.lookup (c.names[i])].type == MT_REG) x.apply (mk (K_FSYNC, i));
        x.check_disk ("after syncing everything");
    });
    if (e == E_OK) return;
    if (e != E_SELFKILL) throw Violation{"internal: planned kill"};
    if (tsh ()->step != kill) throw Violation{"step " + std::to_string (tsh ()->step) + ": LazyFS killed itself although no fault was due at this operation"};
    bump (CT_CRASH);
    m.do_clear ();
    for (auto& h : m.h) h.open = false;
    string s = disk_mismatch (m, shim::root);
    if (!s.empty ()) throw Violation{"after the crash: " + s};
    if (k.x.empty ()) return;
    remount_check (c, m, 0);
}
static vector<vector<int>> subsets (int n) {
    vector<vector<int>> r;
    for (int m = 1; m < (1 << n); m++) {
        vector<int> s;
        for (int i = 0; i < n; i++) if (m >> i & 1) s.push_back (i + 1);
        r.push_back (s);
        if (s.size () == 2) r.push_back ({s[1], s[0]}); // the order given does not matter
    }
    return r;
}
// ---- C13 -------------------------------------------------------------------------------------------------------
static vector<Cfg> c13_cfgs (int) {
    vector<Cfg> v;
    v.push_back (geo ("bs4, a=6", 4, 1, 64, {{0, 6}, {1, 5}}));
    v.push_back (geo ("bs4, 2 blocks per page, a=0", 4, 2, 64, {{0, 0}, {1, 5}}));
    v.push_back (geo ("bs4, odd names", 4, 1, 64, {{0, 9}, {1, 5}}, {"x[1]+.(t)", "b"}));
    return v;
}
static Reg c13a ({"C13", "parts", "one write of every small size and offset, split into 1-5 equal parts or explicit byte counts (also not matching), every persist subset", c13_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        long idx = 0;
        Case k;
        for (int len = 1; len <= (tier ? 14 : 9); len++)
            for (int off : tier ? vector<int>{0, 1, 3, 4, 6, 7, 11} : vector<int>{0, 3, 8}) {
                if ((idx++ % s.n) != s.k) continue;
                if (stopping ()) return;
                for (int pre = 0; pre < 3; pre++) {
                    k.h.clear ();
                    if (pre) k.h.push_back (mk (K_WRITE, 0, 2, 6));
                    if (pre == 2) k.h.push_back (mk (K_FSYNC, 0));
                    k.h.push_back (mk (K_WRITE, 0, off, len));
                    TF t;
                    t.pos = pre;
                    for (int n = 1; n <= 5; n++)
                        for (auto& p : subsets (n)) {
                            t.bytes = 0; t.parts = {n}; t.persist = p;
                            k.x.clear ();
                            enc (k.x, t);
                            cb (k);
                        }
                    t.bytes = 1;
                    vector<vector<int>> comp;
                    for (int a = 1; a <= len; a++) {
                        if (a == len) { comp.push_back ({a}); continue; }
                        for (int b = 1; a + b <= len; b++) {
                            if (a + b == len) comp.push_back ({a, b});
                            else comp.push_back ({a, b, len - a - b});
                        }
                    }
                    comp.push_back ({len + 1});
                    comp.push_back ({1, len});
                    if (len > 2) comp.push_back ({1, len - 2});
                    for (auto& q : comp)
                        for (auto& p : subsets (q.size ())) {
                            if (q.size () == 3 && p.size () > 1 && !tier && len > 6) continue;
                            t.parts = q; t.persist = p;
                            k.x.clear ();
                            enc (k.x, t);
                            cb (k);
                        }
                }
            }
    },
    run_torn, fmt_torn});
static vector<Op> c13_ops () {
    return {mk (K_WRITE, 0, 0, 5), mk (K_WRITE, 0, 3, 8), mk (K_WRITE, 0, 14, 3), mk (K_WRITE, 1, 0, 5), mk (K_FSYNC, 0), mk (K_FSYNC, 1, 0, 0, 0, 1), mk (K_TRUNC, 0, 3), mk (K_TRUNC, 0, 9), mk (K_READ, 0, 0, 9), mk (K_CLEAR), mk (K_CKPT),
            mk (K_RENAME, 1, 0, 0, 0), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR)};
}
static Reg c13b ({"C13", "histories", "torn-op with occurrence 1-3 armed before every history of writes, syncs, truncates, reads, clears, renames", c13_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1; o.hi = tier ? 4 : 3;
        vector<TF> fs;
        for (int occ = 1; occ <= 3; occ++)
            for (int v = 0; v < 4; v++) {
                TF t;
                t.occ = occ;
                t.bytes = v == 3;
                t.parts = v == 3 ? vector<int>{2, 3} : v == 0 ? vector<int>{2} : vector<int>{3};
                t.persist = v == 0 ? vector<int>{1} : v == 1 ? vector<int>{3} : v == 2 ? vector<int>{1, 3} : vector<int>{2};
                fs.push_back (t);
            }
        enum_hist (c, c13_ops (), o, s, [&] (const Case& k) {
            int w = 0;
            for (auto& p : k.h) w += p.k == K_WRITE && p.a == 0;
            for (auto& t : fs) {
                if (t.occ > w + 1) continue;
                Case q = k;
                enc (q.x, t);
                cb (q);
            }
        });
    },
    run_torn, fmt_torn});
static Reg c13c ({"C13", "two-files", "torn-op faults on both files, the second armed at every position", c13_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2; o.hi = tier ? 5 : 4;
        vector<Op> ops = {mk (K_WRITE, 0, 0, 5), mk (K_WRITE, 0, 3, 8), mk (K_WRITE, 1, 0, 5), mk (K_WRITE, 1, 7, 2), mk (K_FSYNC, 0)};
        enum_hist (c, ops, o, s, [&] (const Case& k) {
            for (int oa = 1; oa <= 2; oa++)
                for (int ob = 1; ob <= 2; ob++)
                    for (int pos = 0; pos < (int)k.h.size (); pos += 1) {
                        Case q = k;
                        TF a, b;
                        a.parts = {2}; a.persist = {2}; a.occ = oa;
                        b.file = 1; b.parts = {3, 2}; b.bytes = 1; b.persist = {1}; b.occ = ob; b.pos = pos;
                        enc (q.x, a);
                        enc (q.x, b);
                        cb (q);
                    }
        });
    },
    run_torn, fmt_torn});
static vector<Cfg> c13_inj (int) {
    vector<Cfg> v;
    for (int occ = 1; occ <= 2; occ++)
        for (int kind = 0; kind < 4; kind++) {
            Cfg c = geo ("configured ", 4, 1, 64, {{0, 6}, {1, 5}}, {kind == 1 ? "x[1]+.(t)" : "a", "b"});
            TF t;
            t.occ = occ;
            t.bytes = kind >= 2;
            t.parts = kind == 0 ? vector<int>{2} : kind == 1 ? vector<int>{4} : kind == 2 ? vector<int>{1, 4} : vector<int>{3, 2, 3};
            t.persist = kind == 0 ? vector<int>{2} : kind == 1 ? vector<int>{4, 1} : kind == 2 ? vector<int>{2} : vector<int>{3, 1};
            enc (c.pv, t);
            c.extra = toml_of (t, "{ROOT}/" + c.names[0]);
            c.name += cmd (t, c.names[0]);
            v.push_back (c);
        }
    return v;
}
static Reg c13d ({"C13", "configured", "torn-op faults from the configuration file against all histories", c13_inj,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1; o.hi = tier ? 4 : 3;
        enum_hist (c, c13_ops (), o, s, cb);
    },
    run_torn, fmt_torn, 8});
static Reg c13l ({"C13", "large", "writes of 1 to 131072 bytes split into up to 100 equal parts or up to 12 uneven ones, every single part, all but one, every second, all; occurrences up to 12",
    [] (int) {
        vector<Cfg> v = {geo ("bs4096, a=10000", 4096, 1, 64, {{0, 10000}, {1, 5}}), geo ("bs4096, 4 blocks per page, a=0", 4096, 4, 64, {{0, 0}, {1, 5}})};
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        long idx = 0;
        Case k;
        auto sets = [&] (int n) {
            vector<vector<int>> r;
            vector<int> all, even, rev;
            for (int i = 1; i <= n; i++) all.push_back (i);
            for (int i = 2; i <= n; i += 2) even.push_back (i);
            rev.assign (all.rbegin (), all.rend ());
            r.push_back (all); r.push_back (rev);
            if (!even.empty ()) r.push_back (even);
            for (int i = 1; i <= n; i += (n > 12 && !tier ? 5 : 1)) {
                r.push_back ({i});
                if (i != n) r.push_back ({i, n});
                vector<int> but = all;
                but.erase (but.begin () + i - 1);
                if (n > 1) r.push_back (but);
            }
            return r;
        };
        auto emit = [&] (int off, int len, const TF& t) {
            if ((idx++ % s.n) != s.k || stopping ()) return;
            k.h = {mk (K_WRITE, 0, 100, 50)};
            if (t.occ > 1)
                for (int i = 1; i <= t.occ; i++) k.h.push_back (mk (K_WRITE, 0, i * 7, 5));
            k.h.push_back (mk (K_WRITE, 0, off, len));
            k.x.clear ();
            enc (k.x, t);
            cb (k);
        };
        for (int len : {1, 9, 10, 100, 4095, 4096, 4097, 8192, 12289, 65536, 100001, 131072})
            for (int off : {0, 1, 4096, 9999}) {
                if (!tier && len > 20000 && off != 1) continue;
                for (int n : {1, 2, 3, 7, 10, 12, 16, 33, 100})
                    for (auto& p : sets (n)) {
                        TF t;
                        t.pos = 1; t.parts = {n}; t.persist = p;
                        emit (off, len, t);
                    }
                for (int n : {2, 3, 5, 12}) { // uneven explicit sizes that add up
                    if (len < n * n) continue;
                    TF t;
                    t.pos = 1; t.bytes = 1;
                    int left = len;
                    for (int i = 1; i < n; i++) { t.parts.push_back (i == 2 ? len / 2 / n + 1 : i); left -= t.parts.back (); }
                    t.parts.push_back (left);
                    for (auto& p : sets (n)) { t.persist = p; emit (off, len, t); }
                }
            }
        for (int occ = 2; occ <= 12; occ++)
            for (int pos = 0; pos < 2; pos++) {
                TF t;
                t.pos = pos; t.parts = {3}; t.persist = {2}; t.occ = occ;
                emit (3, 9, t);
            }
    },
    run_torn, fmt_torn});
// ---- C14 -------------------------------------------------------------------------------------------------------
static vector<Op> c14_ops () {
    return {mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 0, 6, 5), mk (K_WRITE, 1, 2, 4), mk (K_FSYNC, 0), mk (K_FSYNC, 0, 0, 0, 0, 1), mk (K_FSYNC, 1), mk (K_TRUNC, 0, 3), mk (K_READ, 0, 0, 9), mk (K_HOPEN, 0)};
}
static vector<vector<int>> c14_persist (int tier) {
    vector<vector<int>> v = {{1}, {2}, {1, 2}, {3}, {1, 3}, {2, 3}, {1, 2, 3}, {3, 1}, {2, 1}, {1, 4}};
    if (tier) v.insert (v.end (), {{4}, {2, 4}, {4, 1, 3}});
    return v;
}
static Reg c14a ({"C14", "groups", "torn-seq with every persist list over 1-4 and occurrence 1-3, against every sequence of writes and fsyncs", c13_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2; o.hi = tier ? 8 : 7;
        vector<Op> ops = {mk (K_WRITE, 0, 0, 3), mk (K_FSYNC, 0)};
        // the i-th write goes to its own place, so that every subset of writes is a different image
        enum_hist (c, ops, o, s, [&] (const Case& k0) {
            Case k = k0;
            int n = 0;
            for (auto& x : k.h) if (x.k == K_WRITE) { static const int offs[] = {1, 9, 5, 0, 14, 3, 7, 20}; x.off = offs[n]; x.len = 2 + n % 4; n++; }
            for (auto& p : c14_persist (tier))
                for (int occ = 1; occ <= 3; occ++) {
                    TF t;
                    t.seq = 1; t.persist = p; t.occ = occ;
                    Case q = k;
                    enc (q.x, t);
                    cb (q);
                }
        });
    },
    run_torn, fmt_torn});
static Reg c14l ({"C14", "long", "groups of 2-14 writes with every single write, pair with the first or last, every second, all but one or all of up to 12 writes persisted; the 1st to 12th group", c13_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        long idx = 0;
        Case k;
        auto emit = [&] (const Hist& h, const TF& t) {
            if ((idx++ % s.n) != s.k || stopping ()) return;
            k.h = h;
            k.x.clear ();
            enc (k.x, t);
            cb (k);
        };
        for (int g : {2, 3, 9, 10, 11, 12, 14})
            for (int wide = 0; wide < 2; wide++) { // on top of each other, or each to its own place
                Hist h;
                for (int i = 0; i < g; i++) h.push_back (mk (K_WRITE, 0, wide ? i * 5 : i % 3, 2 + i % 4));
                h.push_back (mk (K_FSYNC, 0));
                h.push_back (mk (K_WRITE, 0, 1, 4));
                vector<vector<int>> ps;
                for (int m = 1; m <= 12; m++) {
                    vector<int> all, even, but;
                    for (int i = 1; i <= m; i++) { all.push_back (i); if (i % 2 == 0) even.push_back (i); if (i != m / 2) but.push_back (i); }
                    ps.push_back ({m}); ps.push_back ({1, m}); ps.push_back ({m, 12}); ps.push_back ({12, m}); ps.push_back (all);
                    if (!even.empty ()) ps.push_back (even);
                    ps.push_back (but);
                }
                for (auto& p : ps) {
                    TF t;
                    t.seq = 1; t.persist = p;
                    emit (h, t);
                }
            }
        for (int occ = 1; occ <= 12; occ++)
            for (int n = 2; n <= 3; n++)
                for (auto& p : vector<vector<int>>{{1}, {2}, {1, 2}, {1, 3}}) {
                    Hist h;
                    for (int i = 0; i < 12; i++) {
                        for (int j = 0; j < n; j++) h.push_back (mk (K_WRITE, 0, (i * 3 + j * 4) % 17, 3));
                        h.push_back (mk (K_FSYNC, 0));
                        if (i % 4 == 1) { h.push_back (mk (K_WRITE, 0, 2, 2)); h.push_back (mk (K_FSYNC, 0)); } // (one write is no group)
                    }
                    TF t;
                    t.seq = 1; t.persist = p; t.occ = occ;
                    emit (h, t);
                }
    },
    run_torn, fmt_torn});
static Reg c14b ({"C14", "two-files", "torn-seq while another file is written and synced, truncates, reads, several handles", c13_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2; o.hi = tier ? 5 : 4;
        enum_hist (c, c14_ops (), o, s, [&] (const Case& k) {
            for (auto& p : vector<vector<int>>{{1}, {2}, {1, 3}, {1, 2}})
                for (int occ = 1; occ <= 2; occ++) {
                    if (occ == 2 && (p.size () > 1 && p[1] == 3)) continue;
                    TF t;
                    t.seq = 1; t.persist = p; t.occ = occ;
                    Case q = k;
                    enc (q.x, t);
                    cb (q);
                }
        });
    },
    run_torn, fmt_torn});
static Reg c14c ({"C14", "two-faults", "torn-seq faults on two files at once, armed together or later", c13_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2; o.hi = tier ? 6 : 5;
        vector<Op> ops = {mk (K_WRITE, 0, 0, 3), mk (K_WRITE, 1, 2, 4), mk (K_FSYNC, 0), mk (K_FSYNC, 1)};
        enum_hist (c, ops, o, s, [&] (const Case& k0) {
            Case k = k0;
            int n = 0;
            for (auto& x : k.h) if (x.k == K_WRITE) { x.off = 4 * n; x.len = 2 + n % 3; n++; }
            for (int v = 0; v < 6; v++) {
                TF a, b;
                a.seq = b.seq = 1;
                a.persist = v & 1 ? vector<int>{1} : vector<int>{2};
                b.file = 1;
                b.persist = v & 1 ? vector<int>{2} : vector<int>{1, 2};
                a.occ = v == 4 ? 2 : 1;
                b.occ = v == 5 ? 2 : 1;
                b.pos = v == 2 || v == 3 ? 1 : 0;
                Case q = k;
                enc (q.x, a);
                enc (q.x, b);
                cb (q);
            }
        });
    },
    run_torn, fmt_torn});
static vector<Cfg> c14_inj (int tier) {
    vector<Cfg> v;
    for (int occ = 1; occ <= 2; occ++)
        for (auto& p : vector<vector<int>>{{1}, {2}, {1, 3}, {3, 2}}) {
            Cfg c = geo ("configured ", 4, 1, 64, {{0, 6}, {1, 5}}, {occ == 2 ? "x[1]+.(t)" : "a", "b"});
            TF t;
            t.seq = 1; t.occ = occ; t.persist = p;
            enc (c.pv, t);
            c.extra = toml_of (t, "{ROOT}/" + c.names[0]);
            c.name += cmd (t, c.names[0]);
            v.push_back (c);
        }
    return v;
}
static Reg c14d ({"C14", "configured", "torn-seq faults from the configuration file against all histories", c14_inj,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2; o.hi = tier ? 5 : 4;
        enum_hist (c, c14_ops (), o, s, cb);
    },
    run_torn, fmt_torn, 8});
