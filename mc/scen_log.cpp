// C25: the operation log and the acknowledgements of faults
#include "hooks.hpp"
#include <cstring>
#include <fcntl.h>

// ---- what LazyFS receives ----------------------------------------------------------------------------------------
struct Got {
    string op;
    vector<string> args; // "path=...", "size=..." as the log is expected to show them
    int rc = 0;
    bool trunc = false;  // an open that truncates
};
static vector<Got> got;
static struct fuse_operations wrap_;
static const struct fuse_operations* in_;
template <class F> static int rec (const char* op, vector<string> args, F f, bool tr = false) {
    size_t i = got.size ();
    {
        int s = shim::tl_harness;
        shim::tl_harness = 1;
        Got g;
        g.op = op; g.args = std::move (args); g.trunc = tr; g.rc = -9999;
        got.push_back (g);
        shim::tl_harness = s;
    }
    int r     = f ();
    got[i].rc = r;
    return r;
}
static string kv (const char* k, const char* v) { return string (k) + "=" + v; }
static string kv (const char* k, int64_t v) { return string (k) + "=" + std::to_string (v); }
static string mode_of (int fl) {
    if (fl & O_TRUNC) return "mode=O_TRUNC";
    int a = fl & O_ACCMODE;
    return a == O_WRONLY ? "mode=O_WRONLY" : a == O_RDWR ? "mode=O_RDWR" : "mode=O_RDONLY";
}
static void record () {
    in_   = shim::ops;
    wrap_ = *in_;
#define P(x) kv ("path", x)
    wrap_.open     = [] (const char* p, struct fuse_file_info* fi) { return rec ("open", {P (p), mode_of (fi->flags)}, [&] { return in_->open (p, fi); }, fi->flags & O_TRUNC); };
    wrap_.create   = [] (const char* p, mode_t m, struct fuse_file_info* fi) { return rec ("create", {P (p), mode_of (fi->flags)}, [&] { return in_->create (p, m, fi); }, fi->flags & O_TRUNC); };
    wrap_.write    = [] (const char* p, const char* b, size_t n, off_t o, struct fuse_file_info* fi) { return rec ("write", {P (p), kv ("size", n), kv ("off", o)}, [&] { return in_->write (p, b, n, o, fi); }); };
    wrap_.read     = [] (const char* p, char* b, size_t n, off_t o, struct fuse_file_info* fi) { return rec ("read", {P (p), kv ("size", n), kv ("off", o)}, [&] { return in_->read (p, b, n, o, fi); }); };
    wrap_.fsync    = [] (const char* p, int d, struct fuse_file_info* fi) { return rec ("fsync", {P (p)}, [&] { return in_->fsync (p, d, fi); }); };
    wrap_.truncate = [] (const char* p, off_t n, struct fuse_file_info* fi) { return rec ("truncate", {P (p), kv ("size", n)}, [&] { return in_->truncate (p, n, fi); }); };
    wrap_.unlink   = [] (const char* p) { return rec ("unlink", {P (p)}, [&] { return in_->unlink (p); }); };
    wrap_.rename   = [] (const char* p, const char* q, unsigned f) { return rec ("rename", {kv ("from", p), kv ("to", q)}, [&] { return in_->rename (p, q, f); }); };
    wrap_.link     = [] (const char* p, const char* q) { return rec ("link", {kv ("from", p), kv ("to", q)}, [&] { return in_->link (p, q); }); };
    wrap_.symlink  = [] (const char* p, const char* q) { return rec ("symlink", {kv ("from", p), kv ("to", q)}, [&] { return in_->symlink (p, q); }); };
    if (in_->access) wrap_.access = [] (const char* p, int m) { return rec ("access", {P (p)}, [&] { return in_->access (p, m); }); };
    wrap_.mkdir    = [] (const char* p, mode_t m) { return rec ("mkdir", {P (p)}, [&] { return in_->mkdir (p, m); }); };
    wrap_.rmdir    = [] (const char* p) { return rec ("rmdir", {P (p)}, [&] { return in_->rmdir (p); }); };
    wrap_.chmod    = [] (const char* p, mode_t m, struct fuse_file_info* fi) { return rec ("chmod", {P (p)}, [&] { return in_->chmod (p, m, fi); }); };
    wrap_.chown    = [] (const char* p, uid_t u, gid_t g, struct fuse_file_info* fi) { return rec ("chown", {P (p)}, [&] { return in_->chown (p, u, g, fi); }); };
    wrap_.utimens  = [] (const char* p, const struct timespec* t, struct fuse_file_info* fi) { return rec ("utimens", {P (p)}, [&] { return in_->utimens (p, t, fi); }); };
    wrap_.release  = [] (const char* p, struct fuse_file_info* fi) { return rec ("release", {P (p)}, [&] { return in_->release (p, fi); }); };
#undef P
    shim::ops = &wrap_;
}

// ---- what it logs ------------------------------------------------------------------------------------------------
static vector<string> lines_of (const string& s) {
    vector<string> v;
    size_t p = 0;
    while (p < s.size ()) {
        size_t e = s.find ('\n', p);
        if (e == string::npos) e = s.size ();
        v.push_back (s.substr (p, e - p));
        p = e + 1;
    }
    return v;
}
struct Line { string op, args; };
static bool op_line (const string& l, Line& out) {
    size_t t = l.find ("[lazyfs.ops]");
    if (t == string::npos) return false;
    size_t f = l.find ("lfs_", t), b = l.find ('(', f), e = l.rfind (')');
    if (f == string::npos || b == string::npos || e == string::npos || e < b) return false;
    out.op   = l.substr (f + 4, b - f - 4);
    out.args = l.substr (b + 1, e - b - 1);
    return true;
}
static bool has (const string& args, const string& a) {
    for (size_t p = args.find (a); p != string::npos; p = args.find (a, p + 1)) {
        bool front = p == 0 || args[p - 1] == ',' || (p > 1 && args[p - 1] == ' ' && args[p - 2] == ',');
        if (front && (p + a.size () == args.size () || args[p + a.size ()] == ',')) return true;
    }
    return false;
}
static bool same (const Got& g, const Line& l) {
    if (g.op != l.op) return false;
    for (auto& a : g.args)
        if (!has (l.args, a)) return false;
    return true;
}
static string show (const Got& g) {
    string s = g.op + "(";
    for (auto& a : g.args) s += (s.back () == '(' ? "" : ",") + a;
    return s + ")";
}
// every operation received that succeeded is logged once, in order; getattr (which LazyFS also uses internally), the truncate within an
// open(O_TRUNC) and operations that failed may be there or not
static void judge_ops (const string& log, const vector<Got>& want, bool on, const char* where) {
    size_t i = 0;
    bool tr  = false;
    for (auto& l : lines_of (log)) {
        Line x;
        if (!op_line (l, x)) continue;
        if (!on) fail ("%s: an operation is logged although log_all_operations is off: %s", where, l.c_str ());
        if (x.op == "getattr" || x.op == "readdir") continue;
        size_t j = i;
        while (j < want.size () && !same (want[j], x) && want[j].rc < 0) j++;
        if (j < want.size () && same (want[j], x)) {
            tr = want[j].trunc;
            i  = j + 1;
            continue;
        }
        if (tr && x.op == "truncate") { tr = false; continue; }
        fail ("%s: logged '%s', expected %s", where, l.c_str (), i < want.size () ? show (want[i]).c_str () : "nothing more");
    }
    if (!on) return;
    while (i < want.size () && want[i].rc < 0) i++;
    if (i < want.size ()) fail ("%s: operation %zu, %s, is not logged", where, i + 1, show (want[i]).c_str ());
}
static string slurp (const string& f) {
    Bytes b (1 << 20);
    int fd = rs::open (f.c_str (), O_RDONLY);
    if (fd < 0) return "";
    ssize_t n = rs::pread (fd, b.data (), b.size (), 0);
    rs::close (fd);
    return string ((char*)b.data (), std::max<ssize_t> (n, 0));
}
static string host_log () { return slurp ("/proc/self/fd/1"); }
static string log_file () { return shim::root + ".log"; }
static Cfg logging (Cfg c, bool on, bool file) {
    c.capture = true;
    c.log_ops = on;
    c.p1 = on; c.p2 = file;
    c.raw = "[faults]\nfifo_path=\"{FIFO}\"\n[cache]\napply_eviction=false\n[cache.manual]\nio_block_size=4\npage_size=4\nno_pages=64\n[filesystem]\nlog_all_operations=" + string (on ? "true" : "false") + "\nlogfile=\"" + (file ? "{ROOT}.log" : "") + "\"\n" + c.extra;
    return c;
}
static void run_log (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    rs::ftruncate (1, 0);
    int fd = rs::open (log_file ().c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    rs::close (fd);
    spawn_ok ([&] {
        Exec e (c);
        e.no_nlink = true;
        e.start ();
        got.clear ();
        record ();
        e.judge = J_RC | J_ADOPT_CLEAR | J_ADOPT_SYNC;
        e.run (k.h);
        fflush (stdout);
        bump (CT_PROBES);
        judge_ops (e.k.read_log (), got, c.p1, "standard output");
        if (c.p2) judge_ops (slurp (log_file ()), got, c.p1, "logfile");
    });
}
static vector<Op> log_alpha () {
    return {mk (K_WRITE, 0, 2, 5), mk (K_WRITE, 0, 9, 1), mk (K_WRITE, 1, 0, 3), mk (K_READ, 0, 1, 9), mk (K_READ, 1, 4, 2), mk (K_TRUNC, 0, 3), mk (K_TRUNC, 1, 12), mk (K_FSYNC, 0), mk (K_FSYNC, 1, 0, 0, 0, 1), mk (K_CREAT, 1),
            mk (K_HOPEN, 0, 0, 0, 0, F_RDONLY), mk (K_HOPEN, 0, 0, 0, 0, F_WRONLY), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC), mk (K_HOPEN, 1, 0, 0, 0, F_CREAT_TRUNC), mk (K_HCLOSE, 0), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 2),
            mk (K_LINK, 0, 0, 0, 3), mk (K_SYMLINK, 0, 0, 0, 3), mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_MKDIR, 4), mk (K_RMDIR, 4), mk (K_CHMOD, 0, 0600), mk (K_CHOWN, 0, chown_id (7)), mk (K_UTIMENS, 0, 5), mk (K_ACCESS, 0, 4), mk (K_STAT, 0),
            mk (K_CLEAR), mk (K_CKPT), mk (K_REPORT), mk (K_USAGE)};
}
static Reg c25a ({"C25", "operations", "every history of all operations and commands up to the depth, logging on/off, to standard output and to a log file",
    [] (int) {
        Cfg b = geo ("", 4, 1, 64, {{0, 6}}, {"a", "b,c (1)=x", "d/y", "l", "e"});
        b.predirs = {"d"};
        Cfg on = logging (b, true, false), file = logging (b, true, true), off = logging (b, false, true);
        on.name = "on"; file.name = "on, log file"; off.name = "off, log file";
        return vector<Cfg>{on, file, off};
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = (tier ? 4 : 3) - (c.p1 && !c.p2 ? 0 : 1);
        o.accept = [&] (const Model&, const Hist& h) { return (int)h.size () == o.hi; };
        enum_hist (c, log_alpha (), o, s, cb);
    },
    run_log, nullptr});

static Reg c25o ({"C25", "odd-names", "files with unusual names: every pair of operations, logged with the name unchanged",
    [] (int) {
        vector<Cfg> v;
        int n = 0;
        for (auto& o : odd_names (false)) {
            Cfg b = geo ("", 4, 1, 64, {{0, 6}}, {o, o.size () < 250 ? o + "2" : string (254, 'm'), "d/" + o, "l", "e"});
            b.predirs = {"d"};
            v.push_back (logging (b, true, n % 2));
            v.back ().name = "odd name " + std::to_string (n++);
        }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = o.hi = 2;
        enum_hist (c, log_alpha (), o, s, cb);
    },
    run_log, nullptr, 1});

// ---- acknowledgements ---------------------------------------------------------------------------------------------
static const char* ack_op[] = {"open", "create", "write", "read", "fsync", "truncate", "unlink", "rename", "link", "symlink", "access"};
constexpr int NACK = 11;
static int count_acks (const string& log, const string& op, const string& timing, int* others) {
    int n = 0;
    for (auto& l : lines_of (log)) {
        size_t p = l.find ("Triggered fault condition (");
        if (p == string::npos) continue;
        if (l.find ("op=" + op + ",timing=" + timing + ")", p) != string::npos) n++;
        else (*others)++;
    }
    return n;
}
// the report LazyFS gives with a fault, up to the acknowledgement of the kill
static string after_ack (const string& log) {
    size_t p = log.find ("Triggered fault condition (");
    return p == string::npos ? "" : log.substr (p);
}
// p3: op*2+after; x: {kind 0 crash fault, 1 configured clear fault; occurrence}
struct AckShared { int step, hits, n; };
static void run_ack (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    rs::ftruncate (1, 0);
    int fd = rs::open (log_file ().c_str (), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    rs::close (fd);
    int fop = c.p3 / 2, after = c.p3 % 2;
    bool conf = c.pv[0], crash = !conf || c.pv[1];
    int occ   = conf ? c.pv[2] : 1;
    string op = ack_op[fop], tm = after ? "after" : "before";
    bool two  = fop == 7 || fop == 8 || fop == 9;
    auto* sh  = (AckShared*)shared_scratch ();
    *sh       = {0, 0, 0};
    End e = spawn ([&] {
        Exec x (c);
        x.no_nlink = true;
        x.start ();
        string from = fop == 9 ? "t" : x.k.path ("a"), to = x.k.path ("b");
        if (!conf) x.k.command ("lazyfs::crash::timing=" + tm + "::op=" + op + (fop == 9 ? "" : "::from_rgx=/a$") + (two ? "::to_rgx=/b$" : ""));
        got.clear ();
        record ();
        x.k.truncate_log ();
        int fired = 0;
        for (size_t s = 0; s < k.h.size (); s++) {
            sh->step = s;
            size_t g0 = got.size ();
            progress (s, 1);
            x.k.apply (k.h[s], s);
            progress (s, 2);
            count_op ();
            for (size_t g = g0; g < got.size (); g++) {
                if (got[g].op != op) continue;
                if (got[g].args[0] != (two ? "from=" : "path=") + from) continue;
                if (two && got[g].args[1] != "to=" + to) continue;
                sh->n++;
                if (conf ? sh->n == occ : true)
                    if (!(after && got[g].rc < 0)) fired++;
            }
            int oth = 0, n = count_acks (x.k.read_log (), op, tm, &oth);
            if (oth) fail ("a fault that is not configured is acknowledged");
            if (crash && n) fail ("a crash is acknowledged but LazyFS goes on");
            if (!crash && n != fired) fail ("step %zu: %d acknowledgements of (op=%s,timing=%s) so far, %d faults fired", s, n, op.c_str (), tm.c_str (), fired);
        }
    });
    bump (CT_PROBES);
    if (e == E_OK) return;
    if (e == E_PLANKILL) throw Violation{"internal: planned kill"};
    bump (CT_CRASH);
    for (int i = 0; i < (c.p2 ? 2 : 1); i++) {
        string log = i ? slurp (log_file ()) : host_log ();
        int oth = 0, n = count_acks (log, op, tm, &oth);
        if (n != 1 || oth) throw Violation{string (i ? "logfile" : "standard output") + ": LazyFS was killed at (op=" + op + ",timing=" + tm + ") with " + std::to_string (n) + " acknowledgements of it and " + std::to_string (oth) + " of others"};
        // the report: what was unsynced at that moment
        Model m;
        Used u;
        m.init (c);
        for (int s = 0; s < sh->step + 1; s++) {
            if (!m.enabled (k.h[s])) continue;
            if (s == sh->step && !(after && principal (k.h[s], m.lookup (c.names[k.h[s].a]) >= 0) == fop)) {
                // names are looked up before the operation
                if (k.h[s].k == K_WRITE || k.h[s].k == K_READ || k.h[s].k == K_TRUNC || k.h[s].k == K_FSYNC) u.op (c, m, k.h[s]);
                break;
            }
            u.op (c, m, k.h[s]);
            m.apply (k.h[s]);
        }
        judge_report_text (m, shim::root, u, after_ack (log), i ? "in the logfile, at the crash" : "at the crash");
    }
}
static string fmt_ack (const Cfg& c, const Case& k) { return fmt_hist (c, k.h); }
static Reg c25b ({"C25", "acknowledgements", "a crash fault or configured clear fault of every operation and timing: acknowledged once when it fires, never otherwise, with the data unsynced at that moment, also in the log file of a killed LazyFS",
    [] (int) {
        vector<Cfg> v;
        for (int op = 0; op < NACK; op++)
            for (int t = 0; t < 2; t++)
                for (int kind = 0; kind < 4; kind++) { // crash over the FIFO; configured crash; configured clear; at its second occurrence
                    Cfg b  = geo ("", 4, 1, 64, {{0, 6}, {2, 9}}, {"a", "b", "c"});
                    int occ = kind == 3 ? 2 : 1;
                    if (kind) {
                        bool two = op == 7 || op == 8 || op == 9;
                        b.extra  = "[[injection]]\ntype=\"clear-cache\"\nop=\"" + string (ack_op[op]) + "\"\ntiming=\"" + (t ? "after" : "before") + "\"\nfrom=\"" + (op == 9 ? "t" : "{ROOT}/a") + "\"\n" + (two ? "to=\"{ROOT}/b\"\n" : "") + "occurrence=" + std::to_string (occ) + "\ncrash=" + (kind == 1 ? "true" : "false") + "\n";
                    }
                    Cfg c  = logging (b, kind & 1, kind < 2);
                    c.p3   = op * 2 + t;
                    c.pv   = {kind > 0, kind == 1, occ};
                    c.name = string (ack_op[op]) + (t ? " after" : " before") + (kind == 0 ? ", crash command" : kind == 1 ? ", configured crash" : kind == 2 ? ", configured clear" : ", configured clear at the 2nd occurrence");
                    v.push_back (c);
                }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1;
        o.hi = tier ? 4 : 3;
        vector<Op> a = {mk (K_WRITE, 0, 2, 5), mk (K_WRITE, 2, 8, 9), mk (K_READ, 0, 0, 9), mk (K_FSYNC, 0)};
        static const vector<Op> trig[] = {{}, {mk (K_CREAT, 0), mk (K_UNLINK, 0)}, {}, {}, {}, {mk (K_TRUNC, 0, 3)}, {mk (K_UNLINK, 0), mk (K_CREAT, 0)}, {mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0)},
            {mk (K_LINK, 0, 0, 0, 1), mk (K_UNLINK, 1)}, {mk (K_SYMLINK, 0, 0, 0, 1), mk (K_UNLINK, 1)}, {mk (K_ACCESS, 0, 4)}};
        for (auto& op : trig[c.p3 / 2]) a.push_back (op);
        o.accept = [&] (const Model&, const Hist& h) { return (int)h.size () == o.hi; };
        enum_hist (c, a, o, s, cb);
    },
    run_ack, fmt_ack, 2});

// ---- C23: the log LazyFS really writes, for the exploration of the log parser (tools/logparse_mc.py) -----------------
static Reg c23 ({"C23", "log-lines", "the lines LazyFS logs for every operation, used to build the logs given to the parser",
    [] (int) {
        Cfg b   = geo ("", 4, 1, 64, {{0, 6}, {2, 3}}, {"a", "b", "c", "l", "e"});
        b.extra = "[[injection]]\ntype=\"clear-cache\"\nop=\"unlink\"\ntiming=\"before\"\nfrom=\"{ROOT}/c\"\noccurrence=1\ncrash=false\n";
        Cfg c   = logging (b, true, false);
        c.name  = "on";
        return vector<Cfg>{c};
    },
    [] (const Cfg&, int, Shard s, const CB& cb) {
        if (s.k) return;
        Case k;
        k.h = {mk (K_WRITE, 0, 1234, 37), mk (K_READ, 0, 1234, 35), mk (K_TRUNC, 0, 4321), mk (K_FSYNC, 0), mk (K_CREAT, 1), mk (K_ACCESS, 0, 4), mk (K_CHMOD, 0, 0600), mk (K_RENAME, 0, 0, 0, 1), mk (K_LINK, 1, 0, 0, 0), mk (K_SYMLINK, 0, 0, 0, 3),
               mk (K_MKDIR, 4), mk (K_RMDIR, 4), mk (K_CLEAR), mk (K_REPORT), mk (K_USAGE), mk (K_UNLINK, 2), mk (K_STAT, 0)};
        cb (k);
    },
    [] (const Cfg& c, const Case& k) {
        prepare_root (c, shim::root);
        rs::ftruncate (1, 0);
        spawn_ok ([&] {
            Exec e (c);
            e.judge = 0;
            e.start ();
            for (size_t i = 0; i < k.h.size (); i++) e.k.apply (k.h[i], i);
            string log = "ROOT " + shim::root + "\n" + e.k.read_log ();
            if (getenv ("MC_OPLOG")) rs::write_file (getenv ("MC_OPLOG"), log.data (), log.size ());
        });
    },
    nullptr, 1});
