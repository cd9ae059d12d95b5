// C26: descriptors held by LazyFS
#include "scen.hpp"
#include <cstring>
using namespace shim;

extern void count_op ();
extern void count_state (uint64_t h);
// descriptors of this process on the backing store and on LazyFS's FIFOs
static vector<string> held (const string& fifo) {
    vector<string> v;
    for (auto& e : rs::list_dir ("/proc/self/fd")) {
        char b[600];
        ssize_t n = syscall (SYS_readlinkat, AT_FDCWD, ("/proc/self/fd/" + e.name).c_str (), b, sizeof b - 1);
        if (n <= 0) continue;
        b[n] = 0;
        string t = b;
        if (t.compare (0, root.size (), root) == 0 && (t.size () == root.size () || t[root.size ()] == '/' || t[root.size ()] == ' ')) v.push_back (t.size () > root.size () + 1 ? t.substr (root.size () + 1) : ".");
        else if (t.compare (0, fifo.size (), fifo) == 0) v.push_back (t.substr (root.rfind ('/') + 1));
    }
    std::sort (v.begin (), v.end ());
    return v;
}
struct Fds {
    Kernel& k;
    size_t base;
    explicit Fds (Kernel& kk) : k (kk) { base = held (k.fifo).size (); }
    void check (const char* when) {
        size_t open = 0;
        for (auto& h : k.h) open += h.open;
        bump (CT_PROBES);
        if (long n = bad_close.exchange (0)) fail ("%s: LazyFS closed descriptor %ld, which was not open", when, n);
        auto v = held (k.fifo);
        string key;
        for (auto& x : v) key += x + "\n";
        for (auto& e : rs::list_dir (root)) key += e.name + "/";
        count_op ();
        count_state (std::hash<string> () (key));
        if (v.size () == base + open) return;
        string s;
        for (auto& x : v) s += " " + x;
        fail ("%s: %zu file handles are open but LazyFS holds %ld descriptors more than after mounting (all:%s)", when, open, (long)v.size () - (long)base, s.c_str ());
    }
    void close_all () {
        for (int i = 0; i < 6; i++) if (k.h[i].open) k.close_h (i);
        check ("after every handle was closed");
    }
};
// (an application has no handle to use)
static void step (const Cfg& c, Exec& e, const Op& o) {
    if (o.a == 254 && e.k.orphan () < 0) return;
    if (o.k == K_HCLOSE && o.a != 254 && e.k.handle_on (c.names[o.a]) < 0) return;
    e.k.apply (o, e.step++);
}
static void run_plain (const Cfg& c, const Case& k) {
    prepare_root (c, root);
    End end = spawn ([&] {
        Exec e (c);
        e.start ();
        e.k.apply (mk (K_USAGE), 0);
        Fds f (e.k);
        for (auto& o : k.h) {
            step (c, e, o);
            f.check (("after " + fmt_op (c, o)).c_str ());
        }
        f.close_all ();
    });
    if (end != E_OK && !c.p1) throw Violation{"LazyFS killed itself although no fault was due"};
}
// every sequence, whether the calls succeed or not
static void all_seqs (const vector<Op>& alpha, int lo, int hi, Shard s, const CB& cb) {
    long n = 0;
    for (int d = lo; d <= hi; d++) {
        vector<size_t> ix (d, 0);
        for (;;) {
            if (n++ % s.n == s.k) {
                Case k;
                for (auto i : ix) k.h.push_back (alpha[i]);
                cb (k);
            }
            int p = d - 1;
            while (p >= 0 && ++ix[p] == alpha.size ()) ix[p--] = 0;
            if (p < 0) break;
        }
    }
}
static vector<Op> data_ops () {
    return {mk (K_WRITE, 0, 1, 6), mk (K_WRITE, 0, 13, 3), mk (K_READ, 0, 0, 16), mk (K_TRUNC, 0, 3), mk (K_TRUNC, 0, 11, 0, 0, 1), mk (K_FSYNC, 0), mk (K_HOPEN, 0), mk (K_HOPEN, 0, 0, 0, 0, F_RDONLY), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC), mk (K_HCLOSE, 0),
            mk (K_UNLINK, 0), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_LINK, 0, 0, 0, 1), mk (K_CREAT, 0), mk (K_HOPEN, 1, 0, 0, 0, F_EXCL), mk (K_WRITE, 1, 2, 9), mk (K_CLEAR), mk (K_CKPT), mk (K_REPORT), mk (K_WRITE, 254, 1, 6), mk (K_FSYNC, 254)};
}
static Reg c26a ({"C26", "descriptors", "every sequence of data, handle, name and command operations on two files, failing ones included; descriptors counted after each",
    [] (int tier) {
        vector<Cfg> v = {geo ("bs4 x1 pre9", 4, 1, 64, {{0, 9}})};
        v.push_back (geo ("1 page of 2 blocks", 4, 2, 1, {{0, 9}, {1, 3}}));
        v.push_back (geo ("1 page, eviction", 4, 1, 1, {{0, 9}, {1, 3}}));
        v[2].evict = true;
        v[0].completed = true;
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) { all_seqs (data_ops (), 1, tier ? 4 : 3, s, cb); }, run_plain, nullptr});
static Reg c26f ({"C26", "descriptors-handles", "every sequence of opening, using and closing several handles on two files",
    [] (int) { return vector<Cfg>{geo ("bs4 x1 pre9,3", 4, 1, 64, {{0, 9}, {1, 3}})}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        all_seqs ({mk (K_HOPEN, 0), mk (K_HOPEN, 0, 0, 0, 0, F_RDONLY), mk (K_HOPEN, 1), mk (K_HCLOSE, 0), mk (K_HCLOSE, 1), mk (K_WRITE, 0, 1, 6), mk (K_WRITE, 1, 2, 9), mk (K_FSYNC, 1), mk (K_UNLINK, 1)}, 5, tier ? 6 : 5, s, cb);
    },
    run_plain, nullptr});
static Reg c26b ({"C26", "descriptors-names", "every sequence of operations on directories, symbolic links, permissions and times, failing ones included",
    [] (int) {
        Cfg c = geo ("bs4 x1 d/x pre9", 4, 1, 64, {{0, 9}}, {"a", "d/x", "d", "e", "s", "nope/z"});
        c.predirs = {"d"};
        return vector<Cfg>{c};
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        all_seqs ({mk (K_WRITE, 0, 1, 6), mk (K_CREAT, 1), mk (K_WRITE, 1, 2, 4), mk (K_LINK, 0, 0, 0, 4), mk (K_LINK, 0, 0, 0, 5), mk (K_SYMLINK, 0, 0, 0, 4), mk (K_MKDIR, 3), mk (K_MKDIR, 2), mk (K_RMDIR, 2), mk (K_RMDIR, 0), mk (K_RENAME, 2, 0, 0, 3), mk (K_RENAME, 0, 0, 0, 2),
                   mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 2, 0, 0, 0), mk (K_RENAME, 4, 0, 0, 1), mk (K_RENAME, 0, 0, 0, 5), mk (K_RENAME, 5, 0, 0, 0), mk (K_UNLINK, 2), mk (K_UNLINK, 4), mk (K_UNLINK, 5), mk (K_READDIR, 2), mk (K_READDIR, 0), mk (K_READDIR, 5), mk (K_READLINK, 4),
                   mk (K_READLINK, 0), mk (K_UTIMENS, 0, 5), mk (K_UTIMENS, 5, 5), mk (K_CHMOD, 0, 0600), mk (K_HOPEN, 1), mk (K_HOPEN, 2), mk (K_HOPEN, 5, 0, 0, 0, F_CREAT_RDWR), mk (K_TRUNC, 2, 3), mk (K_TRUNC, 5, 3)}, 1, 3 + (tier && 0), s, cb);
    },
    run_plain, nullptr});

// a torn-op fault whose parts do not add up to the write is not injected; faults that never fire
static Reg c26c ({"C26", "descriptors-faults", "the same with torn faults that are armed, count, or cannot be injected (parts that do not add up to the write)",
    [] (int) {
        vector<Cfg> v;
        for (const char* x : {"parts_bytes=[1,2]\npersist=[1]\noccurrence=1\n", "parts_bytes=[2,3]\npersist=[1,2]\noccurrence=2\n", "parts=2\npersist=[1]\noccurrence=50\n"}) {
            Cfg c = geo (string ("torn-op ") + std::to_string (v.size ()), 4, 1, 64, {{0, 9}});
            c.extra = string ("[[injection]]\ntype=\"torn-op\"\nfile=\"{ROOT}/a\"\n") + x;
            v.push_back (c);
        }
        for (const char* x : {"persist=[1,2]\noccurrence=50\n", "persist=[1,2,9]\noccurrence=1\n", "persist=[2,3,9]\noccurrence=2\n"}) {
            Cfg c = geo (string ("torn-seq ") + std::to_string (v.size () - 3), 4, 1, 64, {{0, 9}});
            c.extra = string ("[[injection]]\ntype=\"torn-seq\"\nop=\"write\"\nfile=\"{ROOT}/a\"\n") + x;
            v.push_back (c);
        }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        all_seqs ({mk (K_WRITE, 0, 1, 4), mk (K_WRITE, 0, 9, 7), mk (K_WRITE, 1, 0, 4), mk (K_READ, 0, 0, 16), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_HOPEN, 0), mk (K_HCLOSE, 0), mk (K_CREAT, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_UNLINK, 0), mk (K_CLEAR), mk (K_CKPT)}, 1, tier ? 5 : 4, s,
                  cb);
    },
    run_plain, nullptr});

// every backing call of the last operation fails
static void run_fail (const Cfg& c, const Case& k) {
    prepare_root (c, root);
    struct Dry { long n; CallRec t[400]; };
    Dry* d = (Dry*)shared_scratch ();
    const unsigned mask = ~0u;
    auto prefix = [&] () {
        Exec* e = new Exec (c);
        e->start ();
        e->k.apply (mk (K_USAGE), 0);
        Fds* f = new Fds (e->k);
        for (size_t i = 0; i + 1 < k.h.size (); i++) step (c, *e, k.h[i]);
        return std::make_pair (e, f);
    };
    auto arm = [&] (long at, int action, int err, long n) {
        plan_reset ();
        plan.mask = mask; plan.at = at; plan.action = action; plan.err = err; plan.n = n;
        plan.armed = true;
    };
    const Op& o = k.h.back ();
    End end = spawn ([&] {
        auto p = prefix ();
        arm (-1, 0, 0, 0);
        step (c, *p.first, o);
        plan.armed = false;
        d->n = std::min<long> (counted.load (), 400);
        memcpy (d->t, trace, sizeof (CallRec) * d->n);
    });
    if (end != E_OK && !c.p1) throw Violation{"LazyFS killed itself although no fault was due"};
    if (end != E_OK) { // (the fault fired)
        d->n = 14;
        for (int i = 0; i < d->n; i++) d->t[i] = CallRec{C_WRITE, 4, "?"};
    }
    Dry y = *d;
    for (long i = 0; i < y.n; i++)
        for (int a = 1; a <= 2; a++) {
            if (a == 2 && (y.t[i].kind != C_WRITE && y.t[i].kind != C_READ)) continue;
            if (a == 2 && y.t[i].bytes < 2) continue;
            prepare_root (c, root);
            bump (CT_INJECT);
            try {
                End e = spawn ([&] {
                    auto p = prefix ();
                    arm (i, a, EIO, 1);
                    step (c, *p.first, o);
                    plan.armed = false;
                    p.second->check ("after the operation");
                    p.first->k.apply (mk (K_STAT, 0), p.first->step++);
                    p.first->k.apply (mk (K_CLEAR), p.first->step++);
                    p.second->check ("after clear-cache");
                    p.second->close_all ();
                });
                if (e != E_OK && !c.p1) throw Violation{"LazyFS killed itself although no fault was due"};
            } catch (Violation& v) {
                char b[160];
                snprintf (b, sizeof b, "%s at backing call %ld of %ld (%s) of %s: ", a == 1 ? "EIO" : "short transfer", i + 1, y.n, y.t[i].what, fmt_op (c, o).c_str ());
                throw Violation{b + v.msg};
            }
        }
}
static Reg c26d ({"C26", "descriptors-failing-calls", "every backing call of the last operation of every history fails or transfers one byte; descriptors counted afterwards",
    [] (int tier) {
        vector<Cfg> v = {geo ("bs4 x1 pre9", 4, 1, 64, {{0, 9}})};
        v.push_back (geo ("1 page of 2 blocks", 4, 2, 1, {{0, 9}, {1, 3}}));
        v.push_back (geo ("1 page, eviction", 4, 1, 1, {{0, 9}, {1, 3}}));
        v[2].evict = true;
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        vector<Op> pre = {mk (K_NOP), mk (K_WRITE, 0, 1, 6), mk (K_WRITE, 0, 13, 3), mk (K_WRITE, 1, 2, 9), mk (K_TRUNC, 0, 3), mk (K_TRUNC, 0, 11), mk (K_HOPEN, 0), mk (K_HOPEN, 1), mk (K_LINK, 0, 0, 0, 1), mk (K_CREAT, 1), mk (K_FSYNC, 0), mk (K_CLEAR)};
        long n = 0;
        auto last = data_ops ();
        for (auto& x : {mk (K_MKDIR, 1), mk (K_READDIR, 255), mk (K_SYMLINK, 0, 0, 0, 1), mk (K_STAT, 0), mk (K_UTIMENS, 0, 5), mk (K_CHMOD, 0, 0600)}) last.push_back (x);
        auto rec = [&] (auto&& self, Case& k, int left) -> void {
            if (!left) {
                for (auto& l : last) {
                    if (n++ % s.n != s.k) continue;
                    Case q = k;
                    q.h.push_back (l);
                    cb (q);
                }
                return;
            }
            for (auto& o : pre) {
                if (o.k == K_NOP && k.h.size ()) continue; // (only as a shorter history)
                if (o.k != K_NOP) k.h.push_back (o);
                self (self, k, left - 1);
                if (o.k != K_NOP) k.h.pop_back ();
            }
        };
        Case k;
        rec (rec, k, tier ? 3 : 2);
    },
    run_fail, nullptr});
static Reg c26e ({"C26", "descriptors-failing-faults", "every backing call of writes into which torn faults are injected fails or transfers one byte",
    [] (int) {
        vector<Cfg> v;
        for (const char* x : {"torn-op\"\nparts_bytes=[1,3]\npersist=[1,2]\noccurrence=1\n", "torn-op\"\nparts=3\npersist=[1,3]\noccurrence=2\n", "torn-seq\"\nop=\"write\"\npersist=[1,2]\noccurrence=1\n", "torn-seq\"\nop=\"write\"\npersist=[2]\noccurrence=1\n", "torn-seq\"\nop=\"write\"\npersist=[1,2,9]\noccurrence=1\n"}) {
            Cfg c = geo (string (x).substr (0, 8) + " " + std::to_string (v.size ()), 4, 1, 64, {{0, 9}});
            c.extra = string ("[[injection]]\nfile=\"{ROOT}/a\"\ntype=\"") + x;
            c.p1 = 1;
            v.push_back (c);
        }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        all_seqs ({mk (K_WRITE, 0, 1, 4), mk (K_WRITE, 0, 9, 7), mk (K_WRITE, 1, 0, 4), mk (K_FSYNC, 0), mk (K_HOPEN, 0), mk (K_CLEAR)}, 1, tier ? 4 : 3, s, cb);
    },
    run_fail, nullptr});
