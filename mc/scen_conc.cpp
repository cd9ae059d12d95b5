// C19: concurrent operations and commands. Every schedule (up to a number of preemptions) of two or three threads of
// FUSE operations and the FIFO command thread, at lock operations and backing-store calls; each outcome must be one of a
// sequential order of the same operations and commands.
#include "scen.hpp"
#include "race.hpp"
#include "sched.hpp"
#include <pthread.h>
#include <thread>
using shim::SchedTrace;

// case: h = set-up operations, then those of thread 0, 1, ..; x = {preemptions, #setup, #thread0, #thread1, #thread2, commands...}
struct CC {
    int bound = 0;
    Hist setup;
    vector<Hist> th;
    vector<int> cmds;
};
static Case pack (const CC& c) {
    Case k;
    k.x = {c.bound, (int64_t)c.setup.size ()};
    k.h = c.setup;
    for (int t = 0; t < 3; t++) {
        k.x.push_back (t < (int)c.th.size () ? c.th[t].size () : 0);
        if (t < (int)c.th.size ()) k.h.insert (k.h.end (), c.th[t].begin (), c.th[t].end ());
    }
    for (int x : c.cmds) k.x.push_back (x);
    return k;
}
static CC unpack (const Case& k) {
    CC c;
    c.bound = k.x[0];
    size_t p = k.x[1];
    c.setup.assign (k.h.begin (), k.h.begin () + p);
    for (int t = 0; t < 3; t++) {
        size_t n = k.x[2 + t];
        if (n) c.th.emplace_back (k.h.begin () + p, k.h.begin () + p + n);
        p += n;
    }
    for (size_t i = 5; i < k.x.size (); i++) c.cmds.push_back (k.x[i]);
    return c;
}
static const char* cmd_text[] = {"lazyfs::clear-cache", "lazyfs::cache-checkpoint", "lazyfs::display-cache-usage", "lazyfs::unsynced-data-report",
    // faults that never fire
    "lazyfs::crash::timing=before::op=write::from_rgx=nothing", "lazyfs::crash::timing=after::op=rename::from_rgx=nothing::to_rgx=x", "lazyfs::torn-op::file=/nothing::persist=1::parts=2::occurrence=1",
    "lazyfs::torn-seq::op=write::file=/nothing::persist=1,2::occurrence=1", "lazyfs::torn-op::file={ROOT}/a::persist=1::parts=2::occurrence=70", "lazyfs::torn-seq::op=write::file={ROOT}/a::persist=1,2::occurrence=70",
    "lazyfs::crash::timing=before::op=nonsense", "lazyfs::nonsense"};
// a clear fault of the configuration (cfg.pv): operation kind, after?, name, second name, occurrence
static string subst_root (string t) {
    size_t p = t.find ("{ROOT}");
    return p == string::npos ? t : t.replace (p, 6, shim::root);
}
static bool fault_on (const Cfg& c, const Op& o) {
    return !c.pv.empty () && o.k == (OpKind)c.pv[0] && o.a == c.pv[2] && (o.k != K_RENAME || o.b == c.pv[3]);
}
static string fmt_conc (const Cfg& c, const Case& k) {
    CC q = unpack (k);
    string s = "[" + c.name + "] ";
    auto list = [&] (const Hist& h) {
        string r;
        for (auto& o : h) r += (r.empty () ? "" : "; ") + fmt_op (c, o);
        return r;
    };
    s += list (q.setup) + " then {";
    for (size_t t = 0; t < q.th.size (); t++) s += (t ? " || " : "") + list (q.th[t]);
    for (size_t i = 0; i < q.cmds.size (); i++) s += (i ? "; " : " || ") + string (cmd_text[q.cmds[i]]);
    return s + "}, up to " + std::to_string (q.bound) + " preemptions";
}
// ---- what the kernel and libfuse serialise -----------------------------------------------------------------------
struct Lk { // a lock of the kernel side, known to the scheduler
    pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER;
    void rd () { pthread_rwlock_rdlock (&l); }
    void wr () { pthread_rwlock_wrlock (&l); }
    void un () { pthread_rwlock_unlock (&l); }
};
struct Node {
    string name;
    Lk inode, tree; // i_rwsem; libfuse's treelock
    bool gone = false;
    struct fuse_file_info fi;
    bool open = false;
};
struct Rec { int thread; Op op; int id; long inv = 0, resp = 0; Res r; int64_t size = 0; int nlink = 0; bool done = false, called = true; };

struct World {
    const Cfg& c;
    Exec& x;
    std::map<string, Node*> nodes;
    vector<Node*> all;
    Lk dir;
    vector<std::pair<string, fuse_file_info>> later; // to be released
    World (const Cfg& c_, Exec& x_) : c (c_), x (x_) {
        for (auto& n : x.m.ns) add (n.first);
    }
    Node* add (const string& n) {
        Node* v = new Node;
        v->name = n;
        nodes[n] = v;
        all.push_back (v);
        return v;
    }
    Node* find (const string& n) {
        shim::sched_touch (&shim::OBJ_NODES, false);
        return peek (n);
    }
    void changed () { shim::sched_touch (&shim::OBJ_NODES, true); }
    Node* peek (const string& n) {
        auto i = nodes.find (n);
        return i == nodes.end () ? nullptr : i->second;
    }
    string P (const Node* n) { return x.k.path (n->name); }
    void open (const string& n) {
        Node* v = find (n);
        if (!v || v->open) return;
        memset (&v->fi, 0, sizeof v->fi);
        v->fi.flags = O_RDWR;
        shim::InFs g;
        int r = shim::ops->open (P (v).c_str (), &v->fi);
        if (r) fail ("open(%s) = %d", n.c_str (), r);
        v->open = true;
    }
    void close_all () {
        shim::InFs g;
        auto rel = [&] (const string& p, fuse_file_info* fi) {
            if (shim::ops->flush) shim::ops->flush (p.c_str (), fi);
            if (shim::ops->release) shim::ops->release (p.c_str (), fi);
        };
        for (auto* v : all) if (v->open) rel (P (v), &v->fi);
        for (auto& l : later) rel (x.k.path (l.first), &l.second);
    }
    // the node of a name, with its locks; nullptr if there is none (it only counts what the name means once they are held)
    Node* hold (const string& n, bool ino, bool wr) {
        for (;;) {
            Node* v = peek (n);
            if (!v) return find (n);
            if (ino) v->inode.wr ();
            if (wr) v->tree.wr (); else v->tree.rd ();
            if (find (n) == v) return v;
            v->tree.un ();
            if (ino) v->inode.un ();
        }
    }
    void drop (Node* v, bool ino) {
        v->tree.un ();
        if (ino) v->inode.un ();
    }
    // the LOOKUP the kernel sends for a name of a path (nothing is cached on its side); names that are already known
    // to it are revalidated without a lock of the directory, and libfuse does not lock the node either
    int look (const string& n, struct stat* out = nullptr) {
        struct stat st;
        memset (&st, 0, sizeof st);
        int r = shim::ops->getattr (x.k.path (n).c_str (), &st, nullptr);
        if (out) *out = st;
        return r;
    }
    // runs in an operation thread (LazyFS side accounting on)
    void exec (Rec& q) {
        const Op& o = q.op;
        auto* f = shim::ops;
        string A = c.names[o.a], B = o.b < c.names.size () ? c.names[o.b] : "";
        struct stat st;
        memset (&st, 0, sizeof st);
        if (o.k == K_TRUNC || o.k == K_UTIMENS || o.k == K_HOPEN || o.k == K_LINK) look (A);
        switch (o.k) {
        case K_WRITE: case K_FSYNC: {
            Node* v = hold (A, true, false);
            if (!v) { q.called = false; q.r.rc = -ENOENT; break; }
            if (o.k == K_WRITE) {
                Bytes d = Model::payload (q.id, o.off, o.len);
                q.r.rc = f->write (P (v).c_str (), (const char*)d.data (), d.size (), o.off, &v->fi);
            } else q.r.rc = f->fsync (P (v).c_str (), o.f, &v->fi);
            drop (v, true);
            break;
        }
        case K_READ: {
            Node* v = hold (A, false, false);
            if (!v) { q.called = false; q.r.rc = -ENOENT; break; }
            Bytes b (o.len, 0xEE);
            q.r.rc = f->read (P (v).c_str (), (char*)b.data (), o.len, o.off, &v->fi);
            b.resize (std::max (0, q.r.rc));
            q.r.data = b;
            q.r.has_data = true;
            drop (v, false);
            break;
        }
        case K_STAT:
            q.r.rc  = look (A, &st);
            q.size  = st.st_size;
            q.nlink = st.st_nlink;
            break;
        case K_TRUNC: {
            Node* v = hold (A, true, false);
            if (!v) { q.called = false; q.r.rc = -ENOENT; break; }
            q.r.rc = f->truncate (P (v).c_str (), o.off, v->open ? &v->fi : nullptr);
            if (q.r.rc == 0) q.r.rc = f->getattr (P (v).c_str (), &st, v->open ? &v->fi : nullptr);
            drop (v, true);
            break;
        }
        case K_UTIMENS: {
            Node* v = hold (A, true, false);
            if (!v) { q.called = false; q.r.rc = -ENOENT; break; }
            struct timespec ts[2] = {{1100000000, 5}, {1100000001, 6}};
            q.r.rc = f->utimens (P (v).c_str (), ts, nullptr);
            drop (v, true);
            break;
        }
        case K_HOPEN: {
            bool tr = o.f == F_RDWR_TRUNC;
            Node* v = hold (A, tr, false);
            if (!v) { q.called = false; q.r.rc = -ENOENT; break; }
            struct fuse_file_info fi;
            memset (&fi, 0, sizeof fi);
            fi.flags = tr ? O_RDWR | O_TRUNC : O_RDONLY;
            q.r.rc = f->open (P (v).c_str (), &fi);
            if (q.r.rc == 0) {
                if (f->flush) f->flush (P (v).c_str (), &fi);
                if (f->release) f->release (P (v).c_str (), &fi);
            }
            drop (v, tr);
            break;
        }
        case K_CREAT: {
            dir.wr ();
            look (A);
            if (find (A)) { dir.un (); break; }
            struct fuse_file_info fi;
            memset (&fi, 0, sizeof fi);
            fi.flags = O_RDWR | O_CREAT;
            q.r.rc = f->create (x.k.path (A).c_str (), 0644, &fi);
            if (q.r.rc == 0) {
                q.r.rc = f->getattr (x.k.path (A).c_str (), &st, &fi);
                add (A);
                changed ();
                later.push_back ({A, fi});
            }
            dir.un ();
            break;
        }
        case K_UNLINK: {
            dir.wr ();
            look (A);
            Node* v = hold (A, true, true);
            if (!v) { q.called = false; q.r.rc = -ENOENT; dir.un (); break; }
            q.r.rc = f->unlink (P (v).c_str ());
            if (q.r.rc == 0) { v->gone = true; nodes.erase (v->name); changed (); }
            drop (v, true);
            dir.un ();
            break;
        }
        case K_RENAME: {
            dir.wr ();
            look (A);
            look (B);
            Node* v = find (A);
            if (!v) { q.called = false; q.r.rc = -ENOENT; dir.un (); break; }
            Node* w = find (B);
            v->inode.wr ();
            if (w) w->inode.wr (); // (both under the directory lock: no other thread holds two)
            v->tree.wr ();
            if (w) w->tree.wr ();
            q.r.rc = f->rename (x.k.path (A).c_str (), x.k.path (B).c_str (), 0);
            if (q.r.rc == 0) {
                if (w) w->gone = true;
                nodes.erase (A);
                nodes[B] = v;
                v->name = B;
                changed ();
            }
            if (w) { w->tree.un (); w->inode.un (); }
            v->tree.un ();
            v->inode.un ();
            dir.un ();
            break;
        }
        case K_LINK: {
            dir.wr ();
            look (B);
            if (find (A) && find (B)) { q.r.rc = -EEXIST; dir.un (); break; }
            Node* v = hold (A, true, false);
            if (!v) { q.called = false; q.r.rc = -ENOENT; dir.un (); break; }
            q.r.rc = f->link (P (v).c_str (), x.k.path (B).c_str ());
            if (q.r.rc == 0) {
                q.r.rc = f->getattr (x.k.path (B).c_str (), &st, nullptr);
                add (B);
                changed ();
            }
            drop (v, true);
            dir.un ();
            break;
        }
        default: break;
        }
    }
};
// ---- the sequential oracle ---------------------------------------------------------------------------------------
struct Want { int rc; Bytes data; bool has_data = false; int64_t size = -1; int nlink = 0; };
static Want expect (const Cfg& c, Model& m, const Op& o, int id) {
    Want w{0, {}};
    m.step = id;
    int ia = m.lookup (c.names[o.a]);
    if (o.k == K_CREAT && ia >= 0) return w;
    if (o.k == K_LINK && ia >= 0 && m.lookup (c.names[o.b]) >= 0) { w.rc = -EEXIST; return w; }
    if (o.k != K_CREAT && ia < 0) { w.rc = -ENOENT; return w; }
    if (o.k == K_HOPEN) {
        if (o.f == F_RDWR_TRUNC) m.apply (mk (K_TRUNC, o.a, 0, 0, 0, 1));
        return w;
    }
    if (o.k == K_STAT) { w.size = m.in[ia].cur.size (); w.nlink = m.in[ia].nlink; return w; }
    Res r = m.apply (o);
    w.rc = r.rc;
    w.data = r.data;
    w.has_data = r.has_data;
    return w;
}
// everything that can be seen of a state, as text
static string seen_model (const Cfg& c, const Model& m, bool disk) {
    string s;
    for (auto& n : c.names) {
        int i = m.lookup (n);
        if (i < 0) { s += n + ": none\n"; continue; }
        const MI& v = m.in[i];
        s += n + ": size " + std::to_string (v.cur.size ()) + " links " + std::to_string (v.nlink) + " data " + hex (v.cur, 64);
        if (disk) s += " | disk " + hex (v.dur, 64);
        s += "\n";
    }
    return s;
}
static string seen_real (const Cfg& c, Kernel& k, bool disk) {
    string s;
    for (auto& n : c.names) {
        struct stat st;
        int e = k.lookup (n, &st);
        if (e) { s += n + (e == -ENOENT ? ": none\n" : ": error " + std::to_string (e) + "\n"); continue; }
        s += n + ": size " + std::to_string (st.st_size) + " links " + std::to_string (st.st_nlink) + " data ";
        e = k.open_h (5, n, F_RDONLY);
        if (e) { s += "open error " + std::to_string (e) + "\n"; continue; }
        Bytes b;
        int r = k.read (k.h[5].path, &k.h[5].fi, b, 0, 4096);
        k.close_h (5);
        s += r < 0 ? "read error " + std::to_string (r) : hex (b, 64);
        if (disk) {
            Bytes d (4096);
            int fd = rs::open ((shim::root + "/" + n).c_str (), O_RDONLY);
            ssize_t l = fd < 0 ? -1 : rs::pread (fd, d.data (), d.size (), 0);
            if (fd >= 0) rs::close (fd);
            d.resize (std::max<ssize_t> (0, l));
            s += " | disk " + hex (d, 64);
        }
        s += "\n";
    }
    return s;
}
// the LazyFS functions of a stack
static string where (void* const* pc) {
    extern char __executable_start[];
    string cmd = "addr2line -Cfpse /proc/" + std::to_string (getpid ()) + "/exe", r;
    char b[2000];
    for (int i = 0; i < 40 && pc[i]; i++) {
        snprintf (b, sizeof b, " 0x%lx", (unsigned long)((char*)pc[i] - 1 - __executable_start));
        cmd += b;
    }
    FILE* f = popen ((cmd + " 2>/dev/null").c_str (), "r");
    int n   = 0;
    while (f && fgets (b, sizeof b, f)) {
        string l = b;
        if (l.compare (0, 5, "std::") == 0 || l.find ("__gnu_cxx") == 0 || l.find ("std::") == 0 || l.find (" std::") < l.find ("(")) continue;
        size_t at = l.rfind (" at ");
        string fn = l.substr (0, std::min (l.find ("("), at)), ln = at == string::npos ? "" : l.substr (at + 4, l.find_last_not_of ("\n") - at - 3);
        if (n < 4) r += (n ? " < " : "") + fn + " (" + ln + ")";
        n++;
    }
    if (f) pclose (f);
    return r.empty () ? "?" : r;
}
static void judge_races (int worker) {
    if (!race::found ()) return;
    auto& r = race::report ();
    auto th = [&] (int t) { return t == worker ? string ("the command thread") : "thread " + std::to_string (t); };
    if (r.kind == 1)
        fail ("data race on %zu bytes: %s %s in %s, %s %s in %s, and nothing orders them", r.n, th (r.t1).c_str (), r.w1 ? "writes" : "reads", where (r.pc1).c_str (),
              th (r.t2).c_str (), r.w2 ? "writes" : "reads", where (r.pc2).c_str ());
    fail ("%s: %s in %s, freed by %s in %s", r.kind == 2 ? "use of freed memory" : "memory freed twice", th (r.t2).c_str (), where (r.pc2).c_str (), th (r.t1).c_str (), where (r.pc1).c_str ());
}
static void child (const Cfg& c, const CC& q, SchedTrace* tr) {
    Exec x (c);
    x.judge = J_RC;
    x.start ();
    for (auto& o : q.setup) x.apply (o);
    World w (c, x);
    vector<Rec> recs;
    recs.reserve (32);
    int id = 40;
    vector<vector<int>> mine (q.th.size ());
    for (size_t t = 0; t < q.th.size (); t++)
        for (auto& o : q.th[t]) {
            if (o.k == K_WRITE || o.k == K_READ || o.k == K_FSYNC) w.open (c.names[o.a]);
            mine[t].push_back (recs.size ());
            Rec r;
            r.thread = t; r.op = o; r.id = id++;
            recs.push_back (r);
        }
    string text;
    for (int k : q.cmds) text += subst_root (cmd_text[k]) + "\n";
    int nt = q.th.size ();
    progress (0, 1);
    shim::sched_enable (tr, nt);
    if (!text.empty ()) rs::write (x.k.fifo_fd, text.data (), text.size ());
    vector<std::thread> ts;
    for (int t = 0; t < nt; t++)
        ts.emplace_back ([&, t] {
            shim::sched_thread_begin (t);
            shim::tl_harness = 0;
            for (int i : mine[t]) {
                // an operation begins as late and ends as early as can be: this leaves the fewest sequential orders
                if (i != mine[t][0]) shim::sched_point (shim::EV_STEP, nullptr);
                recs[i].inv = shim::sched_tick ();
                shim::sched_begin ();
                w.exec (recs[i]);
                recs[i].resp = shim::sched_tick ();
                shim::sched_touch (&shim::OBJ_CLOCK, true);
                recs[i].done = true;
            }
            shim::tl_harness = 1;
            shim::sched_thread_end ();
        });
    shim::sched_run ();
    if (tr->deadlock) {
        string s;
        for (int t = 0; t <= nt; t++) {
            static const char* n[] = {"running", "step", "read lock", "write lock", "idle", "done"};
            int e = tr->blocked_on[t];
            s += (t == nt ? "; command thread: " : "; thread " + std::to_string (t) + ": ") + (e >= 0 && e < 6 ? n[e] : "?");
        }
        fail ("deadlock%s", s.c_str ());
    }
    for (auto& t : ts) t.join ();
    progress (1, 2);
    judge_races (nt);
    if (!x.k.wait_idle ()) fail ("the commands did not complete");
    w.close_all ();
    // every sequential order that respects what came before what
    int n = recs.size () + q.cmds.size ();
    struct Item { long inv, resp; int rec, cmd; };
    vector<Item> it;
    for (size_t i = 0; i < recs.size (); i++) it.push_back ({recs[i].inv, recs[i].resp, (int)i, -1});
    for (size_t i = 0; i < q.cmds.size (); i++) it.push_back ({(long)i - 100, 1L << 40, -1, (int)i});
    // a size may be that of a write or truncate of the same file that is under way
    auto torn = [&] (int r) {
        if (recs[r].op.k != K_STAT) return false;
        int ino = x.m.lookup (c.names[recs[r].op.a]);
        for (auto& y : recs) {
            bool mod = y.op.k == K_WRITE || y.op.k == K_TRUNC || (y.op.k == K_HOPEN && y.op.f == F_RDWR_TRUNC);
            if (mod && x.m.lookup (c.names[y.op.a]) == ino && y.inv < recs[r].resp && recs[r].inv < y.resp) return true;
        }
        return false;
    };
    vector<bool> loose (recs.size ());
    for (size_t i = 0; i < recs.size (); i++) loose[i] = torn (i);
    std::set<string> finals;
    std::multimap<string, Model> fm;
    // for loose ones: all values their file ever has
    vector<std::map<int64_t, std::set<uint8_t>>> bytes (recs.size ());
    vector<int64_t> smin (recs.size (), 1L << 40), smax (recs.size (), 0);
    auto note = [&] (const Model& m) {
        for (size_t i = 0; i < recs.size (); i++) {
            if (!loose[i]) continue;
            int f = m.lookup (c.names[recs[i].op.a]);
            if (f < 0) continue;
            const Bytes& b = m.in[f].cur;
            smin[i] = std::min<int64_t> (smin[i], b.size ());
            smax[i] = std::max<int64_t> (smax[i], b.size ());
            for (size_t p = 0; p < b.size (); p++) bytes[i][p].insert (b[p]);
        }
    };
    note (x.m);
    // a clear fault that one of the operations sets off, at one moment of it before or after its effect
    int base = 0, hits = 0, trig = -1, trig_item = -1;
    for (auto& o : q.setup) base += fault_on (c, o);
    for (auto& r : recs) hits += fault_on (c, r.op) && r.called;
    vector<bool> used (n + 1);
    std::function<void (const Model&, int)> rec = [&] (const Model& m, int d) {
        if (d == (int)it.size ()) {
            string s = seen_model (c, m, !c.weak);
            finals.insert (s);
            fm.emplace (s, m);
            return;
        }
        for (int i = 0; i < (int)it.size (); i++) {
            if (used[i]) continue;
            bool ok = true;
            for (int j = 0; j < (int)it.size () && ok; j++) {
                if (used[j] || j == i) continue;
                if (i == trig_item && j == trig) { if (c.pv[1]) ok = false; continue; }
                if (j == trig_item && i == trig) { if (!c.pv[1]) ok = false; continue; }
                if (it[j].cmd >= 0 && it[i].cmd >= 0 && i != trig_item && j != trig_item ? it[j].cmd < it[i].cmd : it[j].resp < it[i].inv) ok = false;
            }
            if (!ok) continue;
            Model v = m;
            if (it[i].cmd >= 0) {
                int k = i == trig_item ? 0 : q.cmds[it[i].cmd];
                if (k == 0) v.do_clear ();
                if (k == 1) v.apply (mk (K_CKPT));
            } else {
                Rec& r = recs[it[i].rec];
                Want e = expect (c, v, r.op, r.id);
                if (!loose[it[i].rec]) {
                    if (e.rc != r.r.rc) continue;
                    if (e.has_data && e.data != r.r.data) continue;
                    if (e.size >= 0 && (e.size != r.size || e.nlink != r.nlink)) continue;
                }
            }
            note (v);
            used[i] = true;
            rec (v, d + 1);
            used[i] = false;
        }
    };
    if (c.pv.empty () || base + hits < c.pv[4]) rec (x.m, 0);
    else
        for (size_t t = 0; t < recs.size (); t++) {
            if (!fault_on (c, recs[t].op) || !recs[t].called) continue;
            int lo = base, hi = base + 1;
            for (size_t u = 0; u < recs.size (); u++) {
                if (u == t || !fault_on (c, recs[u].op) || !recs[u].called) continue;
                if (recs[u].resp < recs[t].inv) lo++;
                if (!(recs[t].resp < recs[u].inv)) hi++;
            }
            if (c.pv[4] <= lo || c.pv[4] > hi) continue;
            trig = t;
            trig_item = it.size ();
            it.push_back ({recs[t].inv, recs[t].resp, -1, 0});
            rec (x.m, 0);
            it.pop_back ();
        }
    auto outcome = [&] {
        string s;
        for (auto& r : recs) {
            s += fmt_op (c, r.op) + " = " + std::to_string (r.r.rc);
            if (r.r.has_data) s += " " + hex (r.r.data);
            if (r.op.k == K_STAT) s += " size " + std::to_string (r.size) + " links " + std::to_string (r.nlink);
            s += " [" + std::to_string (r.inv) + "," + std::to_string (r.resp) + "]; ";
        }
        return s;
    };
    if (finals.empty ()) fail ("no sequential order gives these results: %s", outcome ().c_str ());
    for (size_t i = 0; i < recs.size (); i++) {
        if (!loose[i]) continue;
        const Rec& r = recs[i];
        if (r.op.k == K_STAT) {
            if (r.r.rc || r.size < smin[i] || r.size > smax[i]) fail ("%s gives size %lld although the file always had %lld to %lld bytes", fmt_op (c, r.op).c_str (), (long long)r.size, (long long)smin[i], (long long)smax[i]);
            continue;
        }
        int64_t lo = std::max<int64_t> (0, std::min (r.op.len, smin[i] - r.op.off)), hi = std::max<int64_t> (0, std::min (r.op.len, smax[i] - r.op.off));
        if (r.r.rc < lo || r.r.rc > hi) fail ("%s = %d although the file always had %lld to %lld bytes", fmt_op (c, r.op).c_str (), r.r.rc, (long long)smin[i], (long long)smax[i]);
        for (int p = 0; p < r.r.rc; p++)
            if (r.r.data[p] && !bytes[i][r.op.off + p].count (r.r.data[p])) fail ("%s: byte %lld is %02x, which it never was", fmt_op (c, r.op).c_str (), (long long)(r.op.off + p), r.r.data[p]);
    }
    if (!c.pv.empty () && c.pv[0] == K_READ && base + hits < c.pv[4]) return; // looking would set the fault off
    string got = seen_real (c, x.k, !c.weak);
    if (!finals.count (got)) fail ("no sequential order leads to this state:\n%s  results: %s\n  one possible state:\n%s", got.c_str (), outcome ().c_str (), finals.begin ()->c_str ());
    string res = got;
    for (auto& r : recs) res += std::to_string (r.r.rc) + hex (r.r.data) + std::to_string (r.size) + "," + std::to_string (r.nlink) + ";";
    count_state (std::hash<string>{}(res));
    Model fin = fm.find (got)->second;
    if (c.weak) { // what is on disk without a sync: bytes written since
        string why;
        bool ok   = false;
        auto rng  = fm.equal_range (got);
        for (auto y = rng.first; y != rng.second && !ok; ++y) ok = (why = disk_mismatch (y->second, x.k.root)).empty ();
        if (!ok) fail ("at the end: %s; results: %s", why.c_str (), outcome ().c_str ());
    }
    // everything cached can still be synced, and is then all that a clear leaves
    fin.apply (mk (K_CKPT));
    x.k.command (cmd_text[1]);
    x.k.command (cmd_text[0]);
    string after = seen_real (c, x.k, true), want = seen_model (c, fin, true);
    if (after != want) fail ("after a cache-checkpoint and a clear-cache at the end:\n%s  expected:\n%s  results: %s", after.c_str (), want.c_str (), outcome ().c_str ());
}
// ---- all schedules -------------------------------------------------------------------------------------------------
// Every schedule with at most `bound` preemptions is run or equivalent to one that is run: taking another thread B at a
// point where A could go on is left out where taking B one step of A later has been explored and nothing that B or others
// did before A went on again, in any of those schedules, concerns anything this step of A reads or changes.
struct Explorer {
    SchedTrace* tr;
    int bound;
    typedef std::map<int, bool> Foot; // object -> changed
    vector<std::map<int, Foot>> U;    // per decision: alternative thread -> what was done until A went on
    vector<uint8_t> prefix;
    long skipped = 0;
    bool reduce = true;
    static void put (Foot& f, int o, bool w) { if (o) { bool& x = f[o]; x |= w; } }
    static void put (Foot& f, const Foot& g) { for (auto& x : g) put (f, x.first, x.second); }
    void learn () {
        if ((int)U.size () < tr->ndec) U.resize (tr->ndec);
        for (int e = 0; e < tr->ndec; e++) {
            auto& x = tr->dec[e];
            if (!x.cur_enabled || !x.chosen) continue;
            Foot& f = U[e][x.alts[x.chosen]];
            for (int i = at (e + 1); i < tr->nev; i++) {
                auto& v = tr->ev[i];
                if (v.tid == x.alts[0]) { if (v.how & shim::F_GO) break; continue; }
                put (f, v.obj, v.how & shim::F_W);
            }
        }
    }
    int at (int d) { // first event after d decisions
        return std::lower_bound (tr->ev, tr->ev + tr->nev, d, [] (const shim::Ev& v, int k) { return v.ndec < k; }) - tr->ev;
    }
    // the step that followed decision d, if the same thread then stood before another decision
    bool step (int d, Foot& f, int& others) {
        if (d < 0 || d + 1 >= tr->ndec) return false;
        int A = tr->dec[d].alts[tr->dec[d].chosen], go = 0;
        if (!tr->dec[d + 1].cur_enabled || tr->dec[d + 1].alts[0] != A) return false;
        others = 0;
        for (int i = at (d + 1); i < tr->nev && tr->ev[i].ndec == d + 1; i++) {
            auto& v = tr->ev[i];
            if (v.tid != A) return false;
            if (v.how & shim::F_GO) go++;
            if (v.how & shim::F_TRY) continue;
            put (f, v.obj, v.how & shim::F_W);
        }
        return go == 1;
    }
    bool only_begins (int d) { // nothing but the beginning of an operation lies before decision d
        if (d <= 0 || !tr->dec[d].cur_enabled) return false;
        int A = tr->dec[d].alts[0], go = 0, begin = 0;
        for (int i = at (d); i < tr->nev && tr->ev[i].ndec == d; i++) {
            auto& v = tr->ev[i];
            if (v.tid != A) return false;
            if (v.how & shim::F_TRY) continue;
            if (v.how & shim::F_GO) { if (v.obj) return false; go++; continue; }
            if (!(v.how & shim::F_BEGIN)) return false;
            begin++;
        }
        return go == 1 && begin == 1;
    }
    bool next () {
        learn ();
        vector<int> cost (tr->ndec + 1, 0);
        for (int i = 0; i < tr->ndec; i++) cost[i + 1] = cost[i] + (tr->dec[i].cur_enabled && tr->dec[i].chosen > 0);
        for (int d = tr->ndec - 1; d >= 0; d--) {
            auto& x = tr->dec[d];
            if ((int)U.size () > d + 2) U.resize (d + 2);
            if (cost[d] + (x.cur_enabled ? 1 : 0) > bound) continue;
            if (x.chosen == 0) skip[d] = reduced (d);
            for (int k = x.chosen + 1; k < x.n; k++) {
                if (skip[d] >> x.alts[k] & 1) { skipped++; continue; }
                prefix.clear ();
                for (int i = 0; i < d; i++) prefix.push_back (tr->dec[i].chosen);
                prefix.push_back (k);
                U.resize (d + 1);
                return true;
            }
        }
        return false;
    }
    int skip[shim::MAXD];
    int reduced (int d) { // when choice 0 at d has been explored: the threads that need not be chosen there
        auto& x = tr->dec[d];
        if (!reduce || !x.cur_enabled) return 0;
        if (only_begins (d)) return 255;
        Foot a;
        int others, r = 0;
        if (!step (d, a, others)) return 0;
        for (int k = 1; k < x.n; k++) {
            int B  = x.alts[k];
            auto u = U[d + 1].find (B);
            if (u == U[d + 1].end ()) continue;
            bool clash = false;
            for (auto& o : a) {
                auto y = u->second.find (o.first);
                if (y != u->second.end () && (o.second || y->second)) clash = true;
            }
            if (clash) continue;
            r |= 1 << B;
            put (U[d][B], u->second);
        }
        return r;
    }
};
static void run_conc (const Cfg& c, const Case& k) {
    CC q = unpack (k);
    auto* tr = (SchedTrace*)shared_scratch ();
    static_assert (sizeof (SchedTrace) <= SCRATCH, "");
    Explorer e;
    e.tr    = tr;
    e.bound = q.bound;
    e.reduce = !getenv ("NOREDUCE");
    for (bool more = true; more; more = e.next ()) {
        if (stopping ()) return;
        prepare_root (c, shim::root);
        memset (tr, 0, offsetof (SchedTrace, dec));
        tr->nev = 0;
        tr->prefix_len = e.prefix.size ();
        memcpy (tr->prefix, e.prefix.data (), e.prefix.size ());
        bump (CT_SCHED);
        try {
            spawn_ok ([&] { child (c, q, tr); });
        } catch (Violation& v) {
            string s = v.msg + "\n  schedule (choices at the points with more than one runnable thread):";
            for (int i = 0; i < tr->ndec && i < 600; i++) s += " " + std::to_string (tr->dec[i].alts[tr->dec[i].chosen]);
            throw Violation{s};
        }
        bump (CT_DEC, tr->ndec);
        if (tr->overflow) throw Violation{"internal: too many scheduling points"};
        if (tr->diverged) throw Violation{"internal: the schedule could not be followed again"};
    }
    bump (CT_X1, e.skipped);
}
// ---- what runs concurrently --------------------------------------------------------------------------------------
static Cfg conc_cfg (const string& n, int bpp, int pages, bool evict, bool weak) {
    Cfg c = geo (n, 4, bpp, pages, {{0, 6}, {1, 9}, {2, 5}}, {"a", "b", "c", "d", "e"});
    c.evict = evict;
    c.weak = weak;
    return c;
}
static vector<Op> th_ops () {
    return {mk (K_WRITE, 0, 2, 7), mk (K_WRITE, 0, 12, 3), mk (K_READ, 0, 0, 20), mk (K_STAT, 0), mk (K_TRUNC, 0, 3), mk (K_TRUNC, 0, 11), mk (K_FSYNC, 0), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC),
            mk (K_WRITE, 1, 0, 6), mk (K_FSYNC, 1), mk (K_READ, 1, 3, 9), mk (K_TRUNC, 1, 5),
            mk (K_CREAT, 3), mk (K_UNLINK, 2), mk (K_RENAME, 2, 0, 0, 3), mk (K_RENAME, 0, 0, 0, 2), mk (K_RENAME, 2, 0, 0, 4), mk (K_LINK, 0, 0, 0, 3), mk (K_LINK, 2, 0, 0, 4), mk (K_UNLINK, 3), mk (K_UTIMENS, 0), mk (K_STAT, 2), mk (K_TRUNC, 2, 9), mk (K_STAT, 3)};
}
// operations on the data of two files, the first also under a second name
static vector<Op> data_ops () {
    return {mk (K_WRITE, 0, 2, 7), mk (K_WRITE, 0, 14, 3), mk (K_READ, 0, 0, 20), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_WRITE, 1, 1, 8), mk (K_READ, 1, 0, 12), mk (K_FSYNC, 1), mk (K_TRUNC, 1, 4)};
}
static vector<Op> link_ops () {
    return {mk (K_WRITE, 3, 0, 6), mk (K_READ, 3, 0, 20), mk (K_TRUNC, 3, 4), mk (K_TRUNC, 3, 13), mk (K_FSYNC, 3), mk (K_FSYNC, 3, 0, 0, 0, 1), mk (K_STAT, 3), mk (K_UTIMENS, 3)};
}
static vector<Hist> setups () {
    return {{}, {mk (K_WRITE, 0, 1, 9), mk (K_WRITE, 2, 0, 4)}, {mk (K_WRITE, 0, 0, 5), mk (K_FSYNC, 0), mk (K_WRITE, 0, 3, 4), mk (K_LINK, 0, 0, 0, 3)}};
}
// names with a handle are not removed or replaced (libfuse would hide them first)
static bool possible (const vector<Hist>& th) {
    std::set<int> open;
    for (auto& h : th) for (auto& o : h) if (o.k == K_WRITE || o.k == K_READ || o.k == K_FSYNC) open.insert (o.a);
    for (auto& h : th)
        for (auto& o : h) {
            if (o.k == K_UNLINK && open.count (o.a)) return false;
            if (o.k == K_RENAME && open.count (o.b)) return false;
        }
    return true;
}
struct Emit {
    Shard s;
    const CB& cb;
    long idx = 0;
    bool operator() (int bound, const Hist& setup, const vector<Hist>& th, const vector<int>& cmds = {}) {
        CC q;
        q.bound = bound;
        q.setup = setup;
        q.th    = th;
        q.cmds  = cmds;
        if (possible (th) && (idx++ % s.n) == s.k) cb (pack (q));
        return !stopping ();
    }
};
static vector<Cfg> conc_cfgs (int tier) {
    vector<Cfg> v = {conc_cfg ("bs4 x1", 1, 64, false, false), conc_cfg ("bs4 x2", 2, 64, false, false)};
    if (!tier) v.resize (1);
    return v;
}
static vector<Cfg> small_cfgs (int tier) {
    vector<Cfg> v;
    for (int e = 1; e >= 0; e--)
        for (int bpp : {1, 2})
            for (int pages : {1, 2, 3, 6})
                if (tier || pages == (bpp == 1 ? 2 : 1) || (e && pages == 6 && bpp == 1)) v.push_back (conc_cfg ("bs4 x" + std::to_string (bpp) + " " + std::to_string (pages) + (e ? " pages, LRU" : " pages, full"), bpp, pages, e, true));
    return v;
}
// every pair of one list with another (or itself)
static bool pairs (Emit& e, int bound, const Hist& su, const vector<Op>& a, const vector<Op>& b, bool same) {
    for (size_t i = 0; i < a.size (); i++)
        for (size_t j = same ? i : 0; j < b.size (); j++)
            if (!e (bound, su, {{a[i]}, {b[j]}})) return false;
    return true;
}
static Reg c19a ({"C19", "pairs", "two operations at once, every pair of 24, after three histories", conc_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        auto a = th_ops ();
        for (auto& su : setups ())
            if (!pairs (e, tier ? 2 : 1, su, a, a, true)) return;
    },
    run_conc, fmt_conc});
static Reg c19b ({"C19", "links", "two operations at once on a file through two links of it", conc_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        vector<Hist> su = {{mk (K_LINK, 0, 0, 0, 3), mk (K_WRITE, 0, 1, 9)}, {mk (K_LINK, 0, 0, 0, 3), mk (K_CLEAR)}};
        vector<Op> a   = data_ops ();
        a.resize (5);
        for (auto o : {mk (K_TRUNC, 0, 13), mk (K_STAT, 0), mk (K_RENAME, 0, 0, 0, 2), mk (K_RENAME, 0, 0, 0, 4), mk (K_LINK, 0, 0, 0, 4), mk (K_UNLINK, 0), mk (K_UTIMENS, 0)}) a.push_back (o);
        for (auto& h : su)
            if (!pairs (e, tier ? 3 : 1, h, a, link_ops (), false)) return;
    },
    run_conc, fmt_conc});
static Reg c19c ({"C19", "commands", "commands of the FIFO while operations run", conc_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        vector<vector<int>> cm = {{0}, {1}, {3}, {0, 1}, {2, 0}};
        for (auto& su : setups ())
            for (auto& c : cm)
                for (auto& o : th_ops ())
                    if (!e (tier ? 3 : 2, su, {{o}}, c)) return;
        if (!tier) return;
        for (auto& su : setups ())
            for (int c : {0, 1, 3})
                for (auto& p : th_ops ())
                    for (auto& o : data_ops ())
                        if (!e (1, su, {{o}, {p}}, {c})) return;
    },
    run_conc, fmt_conc});
static Reg c19d ({"C19", "small-cache", "two operations at once that compete for the pages of the cache", small_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        auto a = data_ops ();
        for (auto& su : vector<Hist>{{}, {mk (K_WRITE, 0, 1, 9)}, {mk (K_WRITE, 1, 0, 6), mk (K_WRITE, 0, 3, 2)}, {mk (K_WRITE, 1, 0, 4), mk (K_WRITE, 0, 0, 4)}})
            if (!pairs (e, tier ? 2 : 1, su, a, a, true)) return;
        for (auto& o : th_ops ())
            if (!e (tier ? 2 : 1, {mk (K_WRITE, 0, 1, 9)}, {{mk (K_WRITE, 1, 1, 8)}, {o}})) return;
    },
    run_conc, fmt_conc});
static Reg c19e ({"C19", "threes", "three operations at once", conc_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        vector<Op> a = {mk (K_WRITE, 0, 2, 7), mk (K_READ, 0, 0, 20), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_RENAME, 2, 0, 0, 3), mk (K_LINK, 0, 0, 0, 4), mk (K_STAT, 2), mk (K_UNLINK, 2)};
        auto su = setups ();
        for (size_t k = tier ? 0 : 1; k < (tier ? su.size () : 2); k++)
            for (size_t i = 0; i < a.size (); i++)
                for (size_t j = i; j < a.size (); j++)
                    for (size_t l = j; l < a.size (); l++)
                        if (!e (tier ? 2 : 1, su[k], {{a[i]}, {a[j]}, {a[l]}})) return;
    },
    run_conc, fmt_conc});
static Reg c19f ({"C19", "sequences", "two operations after each other while two others run", conc_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        vector<Op> a = {mk (K_WRITE, 0, 2, 7), mk (K_READ, 0, 0, 20), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_STAT, 0), mk (K_WRITE, 1, 1, 8)};
        vector<Hist> seq;
        for (auto& p : a) for (auto& q : a) seq.push_back ({p, q});
        auto su = setups ();
        for (size_t i = 0; i < seq.size (); i++)
            for (size_t j = i; j < seq.size (); j++)
                if (!e (tier ? 2 : 1, su[1], {seq[i], seq[j]})) return;
    },
    run_conc, fmt_conc});
// ---- faults --------------------------------------------------------------------------------------------------------
static Reg c19g ({"C19", "fault-commands", "fault commands of the FIFO that never fire while operations run", conc_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        vector<Op> a = {mk (K_WRITE, 0, 2, 7), mk (K_WRITE, 1, 0, 6), mk (K_READ, 0, 0, 20), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_HOPEN, 0), mk (K_CREAT, 3), mk (K_UNLINK, 2), mk (K_RENAME, 2, 0, 0, 3), mk (K_LINK, 2, 0, 0, 4)};
        auto su = setups ();
        for (size_t k = 0; k < (tier ? su.size () : 2); k++)
            for (int f = 4; f < 12; f++)
                for (auto& o : a) {
                    if (!e (tier ? 2 : 1, su[k], {{o}}, {f})) return;
                    if (!e (tier ? 2 : 1, su[k], {{o, a[0]}}, {f, 3})) return;
                    if (tier && !e (1, su[k], {{o}, {a[0]}}, {f})) return;
                }
    },
    run_conc, fmt_conc});
static vector<Cfg> fault_cfgs (int tier) {
    vector<Cfg> v;
    struct K { OpKind k; const char* n; };
    for (auto& k : {K{K_WRITE, "write"}, K{K_FSYNC, "fsync"}, K{K_READ, "read"}, K{K_TRUNC, "truncate"}, K{K_RENAME, "rename"}})
        for (int after = 0; after < 2; after++)
            for (int occ = 1; occ <= 2; occ++) {
                int from = k.k == K_RENAME ? 2 : 0;
                if (from == 2 && occ == 2) continue;
                Cfg c = conc_cfg (string ("bs4 x1, clear ") + (after ? "after " : "before ") + std::to_string (occ) + ". " + k.n, 1, 64, false, false);
                c.extra = string ("[[injection]]\ntype=\"clear-cache\"\nop=\"") + k.n + "\"\ntiming=\"" + (after ? "after" : "before") + "\"\nfrom=\"{ROOT}/" + c.names[from] + "\"\n" +
                    (from == 2 ? "to=\"{ROOT}/" + c.names[3] + "\"\n" : "") + "occurrence=" + std::to_string (occ) + "\ncrash=false\n";
                c.pv = {k.k, after, from, 3, occ};
                v.push_back (c);
            }
    return v;
}
static Reg c19h ({"C19", "clear-faults", "operations at once that set off a clear fault of the configuration", fault_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        vector<Op> a = {mk (K_WRITE, 0, 2, 7), mk (K_READ, 0, 0, 20), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_WRITE, 1, 1, 8), mk (K_FSYNC, 1), mk (K_RENAME, 2, 0, 0, 3)}, m;
        for (auto& o : a) if (fault_on (c, o)) m.push_back (o);
        if (c.pv[0] == K_WRITE) m.push_back (mk (K_WRITE, 0, 11, 3));
        if (c.pv[0] == K_TRUNC) m.push_back (mk (K_TRUNC, 0, 10));
        vector<Hist> su = {{}, {mk (K_WRITE, 1, 2, 4), mk (K_WRITE, 2, 0, 6)}};
        if (c.pv[0] != K_WRITE) su.push_back ({mk (K_WRITE, 0, 4, 6), mk (K_WRITE, 2, 0, 6)});
        for (auto& h : su)
            for (auto& x : m) {
                for (auto& o : a) {
                    if (!e (tier ? 2 : 1, h, {{x}, {o}})) return;
                    if (!tier && &h != &su.back ()) continue;
                    if (!e (tier ? 2 : 1, h, {{x, o}, {m.back ()}})) return;
                    if (!e (tier ? 2 : 1, h, {{o, x}, {m[0]}})) return;
                }
                for (int f : {0, 1, 3})
                    if (!e (tier ? 2 : 1, h, {{x}}, {f})) return;
            }
    },
    run_conc, fmt_conc});
static vector<Cfg> armed_cfgs (int tier) {
    vector<Cfg> v;
    for (int k = 0; k < (tier ? 3 : 2); k++) {
        Cfg c = conc_cfg (k == 0 ? "bs4 x1, torn-op armed" : k == 1 ? "bs4 x1, torn-seq armed" : "bs4 x1, both armed", 1, 64, false, false);
        if (k != 1) c.extra += "[[injection]]\ntype=\"torn-op\"\nfile=\"{ROOT}/a\"\noccurrence=70\nparts=2\npersist=[1]\n";
        if (k != 0) c.extra += "[[injection]]\ntype=\"torn-seq\"\nop=\"write\"\nfile=\"{ROOT}/a\"\noccurrence=70\npersist=[1,2]\n";
        v.push_back (c);
    }
    return v;
}
static Reg c19i ({"C19", "armed-torn-faults", "two operations at once on a file under a torn fault that does not fire yet", armed_cfgs,
    [] (const Cfg&, int tier, Shard s, const CB& cb) {
        Emit e{s, cb};
        auto a = data_ops ();
        a.push_back (mk (K_RENAME, 2, 0, 0, 3));
        for (auto& h : vector<Hist>{{}, {mk (K_WRITE, 0, 1, 9)}})
            if (!pairs (e, tier ? 2 : 1, h, a, a, true)) return;
        for (auto& o : a) for (int f : {0, 1, 3})
            if (!e (tier ? 2 : 1, {mk (K_WRITE, 0, 1, 9)}, {{mk (K_WRITE, 0, 4, 5), o}}, {f})) return;
    },
    run_conc, fmt_conc});
