// C15: the FIFO parser; C22: completion notifications.
#include "hooks.hpp"
#include <regex>
struct FDue { int step, due; };
static FDue* fdue () { return (FDue*)shared_scratch (); }

// ---- reference parser --------------------------------------------------------------------------------------------
enum PK { P_NONE, P_CLEAR, P_CKPT, P_USAGE, P_REPORT, P_HELP, P_CRASH, P_TORNOP, P_TORNSEQ };
struct Parsed {
    PK k = P_NONE;
    int op = -1, after = 0;
    string from, to, file;
    bool has_from = false, has_to = false;
    int occ = 1, last = 0;
};
static bool num (const string& s, int& v) {
    if (s.empty () || s.size () > 9) return false;
    for (char c : s) if (!isdigit ((unsigned char)c)) return false;
    v = atoi (s.c_str ());
    return true;
}
static bool nums (const string& s, vector<int>& v) {
    size_t i = 0;
    if (s.empty ()) return false;
    for (;;) {
        size_t j = s.find (',', i);
        int n;
        if (!num (s.substr (i, j == string::npos ? string::npos : j - i), n)) return false;
        v.push_back (n);
        if (j == string::npos) return true;
        i = j + 1;
    }
}
static bool good_rx (const string& s) {
    try { std::regex r (s); return true; } catch (std::regex_error&) { return false; }
}
static Parsed parse (const string& s) {
    Parsed p, bad;
    if (s == "lazyfs::clear-cache") { p.k = P_CLEAR; return p; }
    if (s == "lazyfs::cache-checkpoint") { p.k = P_CKPT; return p; }
    if (s == "lazyfs::display-cache-usage") { p.k = P_USAGE; return p; }
    if (s == "lazyfs::unsynced-data-report") { p.k = P_REPORT; return p; }
    if (s == "lazyfs::help") { p.k = P_HELP; return p; }
    vector<string> t;
    for (size_t i = 0;;) {
        size_t j = s.find ("::", i);
        t.push_back (s.substr (i, j == string::npos ? string::npos : j - i));
        if (j == string::npos) break;
        i = j + 2;
    }
    if (t.size () < 3 || t[0] != "lazyfs") return bad;
    auto key = [] (const string& x) { auto e = x.find ('='); return e == string::npos ? x : x.substr (0, e); };
    auto val = [] (const string& x) { auto e = x.find ('='); return e == string::npos ? string () : x.substr (e + 1); };
    if (t[1] == "crash") {
        bool ht = false;
        for (size_t i = 2; i < t.size (); i++) {
            string k = key (t[i]), v = val (t[i]);
            if (k == "timing") { if (v != "before" && v != "after") return bad; p.after = v == "after"; ht = true; }
            else if (k == "op") {
                p.op = -1;
                for (int o = 0; o < FO_MAX; o++) if (v == fo_name[o]) p.op = o;
                if (p.op < 0) return bad;
            } else if (k == "from_rgx") { if (!good_rx (v)) return bad; if (!v.empty ()) { p.from = v; p.has_from = true; } }
            else if (k == "to_rgx") { if (!good_rx (v)) return bad; if (!v.empty ()) { p.to = v; p.has_to = true; } }
        }
        if (!ht || p.op < 0) return bad;
        if (fo_two (p.op) ? !(p.has_from || p.has_to) : (!p.has_from || p.has_to)) return bad;
        p.k = P_CRASH;
        return p;
    }
    if (t[1] == "torn-op" || t[1] == "torn-seq") {
        bool seq = t[1] == "torn-seq";
        int parts = -1;
        vector<int> pb, per;
        string op;
        for (size_t i = 2; i < t.size (); i++) {
            string k = key (t[i]), v = val (t[i]);
            if (k == "file") { if (v.empty ()) return bad; p.file = v; }
            else if (k == "op" && seq) { if (v.empty ()) return bad; op = v; }
            else if (k == "persist") { per.clear (); if (!nums (v, per)) return bad; }
            else if (k == "parts" && !seq) { if (!num (v, parts)) return bad; }
            else if (k == "parts_bytes" && !seq) { pb.clear (); if (!nums (v, pb)) return bad; }
            else if (k == "occurrence") { if (!num (v, p.occ)) return bad; }
            else return bad;
        }
        if (p.file.empty () || per.empty () || p.occ <= 0) return bad;
        if (seq) {
            if (op != "write") return bad;
            for (int x : per) if (x <= 0) return bad;
        } else {
            if ((parts < 0) == pb.empty ()) return bad;
            if (parts == 0) return bad;
            for (int x : pb) if (x <= 0) return bad;
            int n = parts > 0 ? parts : (int)pb.size ();
            for (int x : per) if (x <= 0 || x > n) return bad;
        }
        p.last = *std::max_element (per.begin (), per.end ());
        p.k = seq ? P_TORNSEQ : P_TORNOP;
        return p;
    }
    return bad;
}
// ---- running -------------------------------------------------------------------------------------------------------
static string subst (string s) {
    for (size_t p = 0; (p = s.find ("{ROOT}", p)) != string::npos; p += shim::root.size ()) s.replace (p, 6, shim::root);
    return s;
}
static string fmt_fifo (const Cfg& c, const Case& k) {
    string s = "[" + c.name + "] mode " + std::to_string (k.x[0]) + "/" + std::to_string (k.x[1]) + ":";
    for (size_t i = 2; i < k.x.size (); i++) {
        string t = c.cmds[k.x[i]];
        if (t.size () > 160) t = t.substr (0, 150) + "...(" + std::to_string (t.size ()) + ")";
        s += " '" + t + "'";
    }
    return s + " then probing operations";
}
// lines that tell the cache usage as a percentage
static int usage_lines (const string& log) {
    static const std::regex rx ("usage[^\n]*[0-9]\\s*%");
    int n = 0;
    for (size_t p = 0; p < log.size ();) {
        size_t e = log.find ('\n', p);
        if (e == string::npos) e = log.size ();
        string l = log.substr (p, std::min<size_t> (e - p, 400));
        if (std::regex_search (l, rx)) n++;
        p = e + 1;
    }
    return n;
}
static const vector<Op>& probe_ops () {
    static vector<Op> v = {mk (K_ACCESS, 0), mk (K_READ, 0, 0, 9), mk (K_WRITE, 0, 1, 6), mk (K_WRITE, 0, 4, 4), mk (K_READ, 1, 0, 4), mk (K_WRITE, 1, 0, 3), mk (K_FSYNC, 0), mk (K_TRUNC, 0, 3), mk (K_CREAT, 2), mk (K_LINK, 1, 0, 0, 3),
                           mk (K_RENAME, 2, 0, 0, 4), mk (K_SYMLINK, 0, 0, 0, 2), mk (K_UNLINK, 0), mk (K_WRITE, 1, 2, 3), mk (K_WRITE, 1, 3, 3)};
    return v;
}
static void run_fifo (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    *fdue () = {-1, 0};
    int mode = k.x[0], cut = k.x[1];
    vector<string> cmds;
    vector<Parsed> ps;
    for (size_t i = 2; i < k.x.size (); i++) { cmds.push_back (subst (c.cmds[k.x[i]])); ps.push_back (parse (cmds.back ())); }
    End e = spawn ([&] {
        Exec x (c);
        x.start ();
        x.apply (mk (K_WRITE, 0, 2, 5));
        x.apply (mk (K_WRITE, 1, 0, 7));
        x.k.read_completed ();
        if (c.capture) x.k.truncate_log ();
        string all;
        int nclear = 0, nusage = 0;
        vector<Parsed> armed;
        for (size_t i = 0; i < cmds.size (); i++) {
            all += cmds[i] + "\n";
            if (mode == 0) { // one at a time, each judged
                progress (i, 1);
                size_t l0 = c.capture ? x.k.read_log ().size () : 0;
                x.k.command (cmds[i]);
                if (c.capture) { // a fault is acknowledged as armed, or rejected
                    string log = x.k.read_log ().substr (l0);
                    bool fault = ps[i].k == P_CRASH || ps[i].k == P_TORNOP || ps[i].k == P_TORNSEQ, dup = false;
                    for (auto& a : armed) dup |= a.k != P_CRASH && a.k == ps[i].k && a.file == ps[i].file;
                    bool yes = log.find (": VALID crash fault") != string::npos || log.find ("configured successfully") != string::npos, no = log.find ("INVALID") != string::npos;
                    if (fault && !dup && (!yes || no)) fail ("the valid command '%s' was not acknowledged", cmds[i].substr (0, 120).c_str ());
                    if ((!fault || dup) && yes) fail ("'%s' was acknowledged as a fault", cmds[i].substr (0, 120).c_str ());
                }
            }
            auto& p = ps[i];
            bump (CT_CMDS);
            switch (p.k) {
            case P_CLEAR: x.m.do_clear (); nclear++; break;
            case P_CKPT: x.m.apply (mk (K_CKPT)); x.m.step--; break;
            case P_USAGE: nusage++; break;
            case P_CRASH: armed.push_back (p); break;
            case P_TORNOP: case P_TORNSEQ: {
                bool dup = false;
                for (auto& a : armed) if (a.k == p.k && a.file == p.file) dup = true; // only one such fault per file
                if (!dup) armed.push_back (p);
                break;
            }
            default: break;
            }
            if (mode == 0) x.check_disk (("after '" + cmds[i].substr (0, 80) + "'").c_str ());
        }
        if (mode == 1) { // all in one go
            progress (0, 1);
            rs::write (x.k.fifo_fd, all.data (), all.size ());
            if (!x.k.wait_idle ()) fail ("the commands did not complete");
        } else if (mode == 2) { // in two pieces
            progress (0, 1);
            rs::write (x.k.fifo_fd, all.data (), cut);
            if (!x.k.wait_idle ()) fail ("the first piece was not read");
            rs::write (x.k.fifo_fd, all.data () + cut, all.size () - cut);
            if (!x.k.wait_idle ()) fail ("the commands did not complete");
        }
        progress (cmds.size (), 2);
        string done = x.k.read_completed (), want;
        if (c.completed) {
            for (int i = 0; i < nclear; i++) want += "finished::clear-cache\n";
            if (done != want) fail ("the completion FIFO shows '%s', expected '%s'", done.c_str (), want.c_str ());
        }
        if (c.capture) {
            string log = x.k.read_log ();
            int n = usage_lines (log);
            if (n != nusage) fail ("%d usage lines were printed, expected %d", n, nusage);
        }
        x.check_disk ("after the commands");
        vector<int> writes (armed.size (), 0);
        OpHooks h;
        h.before = [&] (int op, const char* a, const char* b) {
            int d = 0;
            for (size_t i = 0; i < armed.size (); i++) {
                auto& p = armed[i];
                if (p.k == P_CRASH) {
                    if (p.op != op || (p.has_from && !std::regex_search (a, std::regex (p.from))) || (p.has_to && fo_two (op) && !std::regex_search (b, std::regex (p.to)))) continue;
                    if (!p.after) d = 1; else if (!d) d = 2;
                    continue;
                }
                if (p.file != a) continue;
                if (op == FO_FSYNC && p.k == P_TORNSEQ) writes[i] = 0;
                if (op != FO_WRITE) continue;
                writes[i]++;
                if (p.k == P_TORNOP && writes[i] == p.occ && !d) d = 2;
                if (p.k == P_TORNSEQ && p.occ == 1 && writes[i] == std::max (2, p.last) && !d) d = 2;
            }
            *fdue () = {fdue ()->step, d};
        };
        h.after = [&] (int op, const char* a, const char* b, int rc) {
            if (fdue ()->due) fail ("LazyFS was not killed %s %s(%s,%s)", fdue ()->due == 1 ? "before" : "after", fo_name[op], a, b);
        };
        install_hooks (h);
        x.judge = J_RC;
        int s = 0;
        for (auto& o : probe_ops ()) {
            fdue ()->step = s++;
            x.apply (o);
        }
        armed.clear ();
        for (auto& p : ps) if (p.k != P_NONE && p.k != P_CLEAR && p.k != P_CKPT) return;
        x.check_view ("at the end", 0);
    });
    if (e == E_OK) return;
    if (e != E_SELFKILL) throw Violation{"internal: planned kill"};
    if (!fdue ()->due) throw Violation{"LazyFS killed itself although no fault was due (probe step " + std::to_string (fdue ()->step) + ")"};
    bump (CT_CRASH);
}
// ---- commands ------------------------------------------------------------------------------------------------------
static Cfg fifo_cfg (const string& n) {
    Cfg c = geo (n, 4, 1, 64, {{0, 6}, {1, 5}}, {"a", "bb", "c", "e", "g"});
    c.completed = true;
    c.capture   = true;
    return c;
}
static const string OKOP = "lazyfs::torn-op::file={ROOT}/a::persist=1::parts=2::occurrence=1", OKSEQ = "lazyfs::torn-seq::op=write::file={ROOT}/a::persist=1::occurrence=1", OKCR = "lazyfs::crash::timing=before::op=write::from_rgx=r/bb",
                    OKREN = "lazyfs::crash::timing=after::op=rename::from_rgx=r/c::to_rgx=r/g";
static vector<string> base_cmds () {
    return {"lazyfs::clear-cache", "lazyfs::cache-checkpoint", "lazyfs::display-cache-usage", "lazyfs::unsynced-data-report", "lazyfs::help", OKCR, OKREN, OKOP, OKSEQ, "", "lazyfs::nonsense", "lazyfs::crash::op=write", "lazyfs::torn-op::file={ROOT}/a::persist=x::parts=2",
            "lazyfs::torn-seq::op=write::file={ROOT}/a", "lazyfs::crash::timing=before::op=write::from_rgx=[", "lazyfs::torn-op::file={ROOT}/bb::persist=2::parts_bytes=1,2::occurrence=2"};
}
static vector<string> malformed () {
    vector<string> v = {" ", "::", "lazyfs", "lazyfs::", "lazyfs::clear", "clear-cache", "lazyfs:clear-cache", "lazyfs::clear-cache-now", "LAZYFS::CLEAR-CACHE", "lazyfs::cache-checkpoints", "x", "lazyfs::display", "=", "lazyfs::=", "%s%s%n", "{}", "{0}{1}",
                        "lazyfs::crash", "lazyfs::torn-op", "lazyfs::torn-seq", "lazyfs::crash::", "lazyfs::torn-op::", "lazyfs::torn-seq::"};
    // crash: every field missing, empty or bad
    vector<string> tim = {"", "timing=", "timing=during", "timing=Before", "timing=before"}, op = {"", "op=", "op=mkdir", "op=Write", "op=getattr", "op=write", "op=rename"}, fr = {"", "from_rgx=", "from_rgx=(", "from_rgx=*", "from_rgx=)", "from_rgx=a{", "from_rgx=b)(b", "from_rgx=\\", "from_rgx=r/bb", "from_rgx={}", "from_rgx=none"},
                   to = {"", "to_rgx=", "to_rgx=[z", "to_rgx=r/g", "to_rgx=r/bb", "to_rgx=none"};
    for (auto& a : tim) for (auto& b : op) for (auto& c : fr) for (auto& d : to) {
        string s = "lazyfs::crash";
        for (auto& f : {a, b, c, d}) if (!f.empty ()) s += "::" + f;
        v.push_back (s);
    }
    // fields in every order; a field given twice, the malformed one last (otherwise it is not said which of them counts)
    auto orders = [&] (const string& h, vector<string> fs) {
        vector<string> given = fs;
        std::sort (fs.begin (), fs.end ());
        do {
            bool skip = false;
            for (size_t i = 0; i + 1 < given.size (); i++)
                if (given[i].substr (0, given[i].find ('=')) == given[i + 1].substr (0, given[i + 1].find ('=')))
                    skip = std::find (fs.begin (), fs.end (), given[i]) > std::find (fs.begin (), fs.end (), given[i + 1]);
            if (skip) continue;
            string s = h;
            for (auto& f : fs) s += "::" + f;
            v.push_back (s);
        } while (std::next_permutation (fs.begin (), fs.end ()));
    };
    orders ("lazyfs::crash", {"timing=before", "op=write", "from_rgx=r/bb"});
    orders ("lazyfs::crash", {"timing=before", "op=write", "from_rgx=r/bb", "to_rgx=r/bb"});
    orders ("lazyfs::crash", {"timing=after", "op=rename", "from_rgx=r/c", "to_rgx=r/g"});
    orders ("lazyfs::crash", {"timing=after", "op=symlink", "to_rgx=r/c"});
    orders ("lazyfs::crash", {"timing=after", "op=rename", "from_rgx=r/c", "to_rgx=["});
    orders ("lazyfs::crash", {"timing=before", "op=write", "op=nonsense", "from_rgx=r/bb"});
    orders ("lazyfs::crash", {"timing=before", "op=write", "op=", "from_rgx=r/bb"});
    orders ("lazyfs::crash", {"timing=before", "timing=during", "op=write", "from_rgx=r/bb"});
    orders ("lazyfs::crash", {"timing=before", "timing=", "op=write", "from_rgx=r/bb"});
    orders ("lazyfs::crash", {"timing=before", "op=write", "from_rgx=r/bb", "from_rgx=("});
    orders ("lazyfs::crash", {"timing=before", "op=link", "from_rgx=r/bb", "to_rgx=r/e", "to_rgx=*"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=1", "parts=2", "occurrence=1"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=1,2,3", "parts=2"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=1,2,3", "parts_bytes=2,2"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=3,1", "parts_bytes=2,2"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=0,1,2", "parts=2"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=1", "parts=2", "parts=0"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=1", "persist=x", "parts=2"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=1", "parts=2", "occurrence=1", "occurrence=0"});
    orders ("lazyfs::torn-op", {"file={ROOT}/a", "persist=1", "parts=2", "parts_bytes=3,3"});
    orders ("lazyfs::torn-seq", {"file={ROOT}/a", "op=write", "persist=2,1", "occurrence=1"});
    orders ("lazyfs::torn-seq", {"file={ROOT}/a", "op=write", "op=read", "persist=1"});
    orders ("lazyfs::torn-seq", {"file={ROOT}/a", "op=write", "persist=1", "persist=0"});
    orders ("lazyfs::torn-seq", {"file={ROOT}/a", "op=write", "persist=1", "parts=2"});
    orders ("lazyfs::torn-seq", {"file={ROOT}/a", "op=write", "persist=1", "occurrence=1", "occurrence=-1"});
    // torn-op / torn-seq
    vector<string> file = {"", "file=", "file={ROOT}/a"}, per = {"", "persist=", "persist=0", "persist=-1", "persist=1", "persist=1,3", "persist=1,", "persist=,1", "persist=1;2", "persist=1 2", "persist=x", "persist=99999999999999999999", "persist=2,1"},
                   parts = {"", "parts=", "parts=0", "parts=-2", "parts=2", "parts=2.5", "parts=two", "parts=99999999999999999999", "parts_bytes=", "parts_bytes=0,6", "parts_bytes=3,3", "parts_bytes=3,,3", "parts_bytes=a,b", "parts_bytes=3,99999999999999999999", "parts=2::parts_bytes=3,3"},
                   occ = {"", "occurrence=", "occurrence=0", "occurrence=-1", "occurrence=1", "occurrence=x", "occurrence=1.5", "occurrence=99999999999999999999"};
    auto join = [&] (const string& h, std::initializer_list<string> fs) {
        string s = h;
        for (auto& f : fs) if (!f.empty ()) s += "::" + f;
        return s;
    };
    for (auto& a : file) for (auto& b : per) for (auto& c : parts) v.push_back (join ("lazyfs::torn-op", {a, b, c, "occurrence=1"}));
    for (auto& d : occ) for (auto& b : {per[4], per[2], per[12]}) for (auto& c : {parts[4], parts[10]}) v.push_back (join ("lazyfs::torn-op", {file[2], b, c, d}));
    for (auto& a : file) for (auto& b : per) for (auto& o : {"", "op=", "op=read", "op=write"}) for (auto& d : occ) v.push_back (join ("lazyfs::torn-seq", {a, o, b, d}));
    // one bad value of one field beside valid values of all others (also of the alternative field), first and last
    for (auto& bad : {"persist=", "persist=x", "persist=1,", "persist=0", "persist=9", "parts=", "parts=x", "parts=-2", "parts=2.5", "parts=99999999999999999999", "parts_bytes=", "parts_bytes=a", "parts_bytes=3,,3", "parts_bytes=3,99999999999999999999", "occurrence=", "occurrence=x", "occurrence=0", "occurrence=-1",
                      "occurrence=1.5", "file=", "nonsense=1", "op=write", "op=", "op=read"}) {
        for (auto& t : {"parts=2", "parts_bytes=3,3", "parts=2::parts_bytes=3,3"}) {
            v.push_back (join ("lazyfs::torn-op", {bad, "file={ROOT}/a", "persist=1", t, "occurrence=1"}));
            v.push_back (join ("lazyfs::torn-op", {"file={ROOT}/a", "persist=1", t, "occurrence=1", bad}));
        }
        v.push_back (join ("lazyfs::torn-seq", {bad, "op=write", "file={ROOT}/a", "persist=1", "occurrence=1"}));
        v.push_back (join ("lazyfs::torn-seq", {"op=write", "file={ROOT}/a", "persist=1", "occurrence=1", bad}));
    }
    v.push_back ("lazyfs::torn-op::nonsense=1::file={ROOT}/a::persist=1::parts=2");
    v.push_back ("lazyfs::torn-seq::op=write::nonsense::file={ROOT}/a::persist=1");
    // every prefix of the valid ones
    for (auto& f : {OKCR, OKREN, OKOP, OKSEQ, string ("lazyfs::unsynced-data-report"), string ("lazyfs::display-cache-usage")}) {
        for (size_t n = 1; n < f.size (); n++) {
            string s = f.substr (0, n);
            if (s.back () == ':' || s.back () == '{') continue;
            size_t o = s.rfind ('{');
            if (o != string::npos && s.find ('}', o) == string::npos) continue;
            size_t t = s.rfind ("::");
            if (s.find ("rename") != string::npos && t != string::npos && s.compare (t + 2, 3, "to_") == 0 && s.find ("to_rgx=") == string::npos) continue; // (an unknown field: not judged)
            v.push_back (s);
        }
    }
    return v;
}
static vector<string> long_cmds () {
    vector<string> v;
    for (int n : {200, 230, 255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 1025, 2048, 4000, 4096, 5000, 9000}) {
        string pad (n, 'z');
        v.push_back ("lazyfs::crash::timing=before::op=write::from_rgx=r/bb|" + pad);
        v.push_back ("lazyfs::crash::timing=before::op=write::from_rgx=" + pad);
        v.push_back ("lazyfs::" + pad);
        v.push_back ("lazyfs::torn-op::file={ROOT}/" + pad + "::persist=1::parts=2");
        v.push_back ("lazyfs::clear-cache" + pad);
        string many = "1", bad;
        for (int i = 0; i < n; i++) many += ",2", bad += "1,";
        v.push_back ("lazyfs::torn-op::file={ROOT}/a::parts=3::persist=" + many);
        v.push_back ("lazyfs::torn-op::file={ROOT}/a::parts=3::persist=" + bad);
        v.push_back ("lazyfs::torn-seq::file={ROOT}/a::op=write::persist=" + many + "x");
    }
    return v;
}
static Reg c15a ({"C15", "single", "every well-formed and malformed command (all field combinations missing/empty/bad, every prefix), alone or in one write with valid ones around it",
    [] (int) {
        Cfg c = fifo_cfg ("each command");
        c.cmds = {"lazyfs::cache-checkpoint", "lazyfs::clear-cache"};
        for (auto& s : base_cmds ()) c.cmds.push_back (s);
        for (auto& s : malformed ()) c.cmds.push_back (s);
        return vector<Cfg>{c};
    },
    [] (const Cfg& c, int, Shard s, const CB& cb) {
        for (size_t i = 0; i < c.cmds.size (); i++) {
            if ((int)(i % s.n) != s.k) continue;
            if (stopping ()) return;
            Case k;
            for (int v = 0; v < 4; v++) {
                if (v == 0) k.x = {0, 0, (int64_t)i};
                if (v == 1) k.x = {1, 0, (int64_t)i, 0, 1};
                if (v == 2) k.x = {1, 0, 1, (int64_t)i, 0};
                if (v == 3) k.x = {0, 0, 0, (int64_t)i, 1};
                cb (k);
            }
        }
    },
    run_fifo, fmt_fifo});
static Reg c15b ({"C15", "sequences", "every sequence of up to 3 commands over 16 representative ones, one at a time or in one write",
    [] (int) { Cfg c = fifo_cfg ("sequences"); c.cmds = base_cmds (); Cfg d = c; d.name = "sequences, no completion FIFO"; d.completed = false; return vector<Cfg>{c, d}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        long idx = 0;
        int n = c.cmds.size (), D = tier ? 4 : 3;
        vector<int64_t> q;
        std::function<void ()> rec = [&] {
            if (!q.empty () && (idx++ % s.n) == s.k) {
                for (int m = 0; m < 2; m++) {
                    Case k;
                    k.x = {m, 0};
                    k.x.insert (k.x.end (), q.begin (), q.end ());
                    cb (k);
                }
            }
            if ((int)q.size () == D || stopping ()) return;
            for (int i = 0; i < n; i++) { q.push_back (i); rec (); q.pop_back (); }
        };
        rec ();
    },
    run_fifo, fmt_fifo});
static Reg c15c ({"C15", "pieces", "pairs of commands arriving in two pieces, cut at every byte",
    [] (int) { Cfg c = fifo_cfg ("pieces"); c.cmds = base_cmds (); return vector<Cfg>{c}; },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        long idx = 0;
        for (auto& pr : vector<std::pair<int, int>>{{1, 0}, {0, 1}, {5, 0}, {7, 1}, {10, 0}, {6, 8}, {12, 7}}) {
            size_t n = c.cmds[pr.first].size () + c.cmds[pr.second].size () + 2; // ({ROOT} is longer: cuts inside it are as good as any)
            for (size_t i = 1; i < n; i++) {
                if ((idx++ % s.n) != s.k) continue;
                Case k;
                k.x = {2, (int64_t)i, pr.first, pr.second};
                cb (k);
            }
        }
    },
    run_fifo, fmt_fifo, 8});
static Reg c15d ({"C15", "long", "commands of 200 to 9000 characters, valid and not, followed by others in the same write",
    [] (int) { Cfg c = fifo_cfg ("long"); c.cmds = {"lazyfs::cache-checkpoint", "lazyfs::clear-cache"}; for (auto& s : long_cmds ()) c.cmds.push_back (s); return vector<Cfg>{c}; },
    [] (const Cfg& c, int, Shard s, const CB& cb) {
        for (size_t i = 2; i < c.cmds.size (); i++) {
            if ((int)(i % s.n) != s.k) continue;
            Case k;
            k.x = {0, 0, (int64_t)i}; cb (k);
            k.x = {1, 0, (int64_t)i, 0, 1}; cb (k);
            k.x = {1, 0, 1, (int64_t)i, (int64_t)i, 0}; cb (k);
        }
    },
    run_fifo, fmt_fifo, 8});

// ---- C22 -------------------------------------------------------------------------------------------------------
static void run_c22 (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec x (c);
        x.start ();
        x.k.read_completed ();
        for (size_t s = 0; s < k.h.size (); s++) {
            const Op& o = k.h[s];
            int clears = 0;
            if (o.k == K_CLEAR || o.k == K_CMD) {
                string t = o.k == K_CLEAR ? "lazyfs::clear-cache" : subst (c.cmds[o.off]);
                progress (s, 1);
                count_op ();
                bump (CT_CMDS);
                Model before = x.m;
                for (size_t i = 0; i <= t.size ();) {
                    size_t e = t.find ('\n', i);
                    if (e == string::npos) e = t.size ();
                    Parsed p = parse (t.substr (i, e - i));
                    if (p.k == P_CLEAR) { x.m.do_clear (); clears++; }
                    if (p.k == P_CKPT) { x.m.apply (mk (K_CKPT)); x.m.step--; }
                    i = e + 1;
                }
                x.m.step++;
                x.step++;
                string got;
                if (o.k == K_CLEAR && c.completed) {
                    shim::fifo_pause.store (1);
                    x.k.command (t, false);
                    for (int i = 0; i < 4000 && got.find ('\n') == string::npos; i++) { got += x.k.read_completed (); if (got.empty ()) usleep (i < 100 ? 20 : 1000); }
                    if (got.empty ()) fail ("no completion line appeared after clear-cache");
                    // the line is there: the clear must be in effect now
                    x.check_view ("when the completion line was read", 0);
                    shim::fifo_pause.store (0);
                    if (!x.k.wait_idle ()) fail ("clear-cache did not complete");
                } else
                    x.k.command (t);
                got += x.k.read_completed ();
                string want;
                for (int i = 0; c.completed && i < clears; i++) want += "finished::clear-cache\n";
                if (got != want) fail ("'%s': the completion FIFO shows '%s', expected '%s'", t.c_str (), got.c_str (), want.c_str ());
                x.check_disk ("after the command");
                x.check_view ("after the command", 0);
            } else {
                bool inj = c.p1 && o.k == K_WRITE && o.a == 0; // the configured fault clears after the p1-th write
                x.judge = J_RC;
                x.apply (o);
                static int nw;
                if (inj && ++nw == c.p1) x.m.do_clear ();
                x.check_disk ("after the operation");
                string got = x.k.read_completed ();
                if (!got.empty ()) fail ("%s made '%s' appear on the completion FIFO", fmt_op (c, o).c_str (), got.c_str ());
            }
            count_state (x.m.hash ());
        }
    });
}
static Reg c22a ({"C22", "notifications", "every sequence of commands (also several in one write, malformed ones) and operations, the completion FIFO and the files looked at right after each line appears",
    [] (int) {
        vector<Cfg> v;
        for (int i = 0; i < 4; i++) {
            Cfg c = geo (i == 0 ? "completion FIFO" : i == 1 ? "no completion FIFO" : i == 2 ? "completion FIFO, 2 blocks per page, eviction" : "completion FIFO, a configured clear fault", 4, i == 2 ? 2 : 1, 64, {{0, 6}, {1, 5}});
            c.completed = i != 1;
            c.evict     = i == 2;
            c.cmds = {"lazyfs::cache-checkpoint\nlazyfs::clear-cache", "lazyfs::clear-cache\nlazyfs::clear-cache\nlazyfs::cache-checkpoint", "lazyfs::display-cache-usage", "lazyfs::unsynced-data-report\nlazyfs::help", "lazyfs::clear-cach\n\nlazyfs::clear-cache::x", "lazyfs::crash::timing=before::op=write::from_rgx=zzz", "lazyfs::cache-checkpoint",
                      "lazyfs::torn-op::file={ROOT}/a::parts=2::persist=2::occurrence=9\nlazyfs::torn-seq::file={ROOT}/b::op=write::persist=2::occurrence=9"};
            if (i == 3) { c.p1 = 2; c.extra = "[[injection]]\ntype=\"clear-cache\"\nop=\"write\"\ntiming=\"after\"\nfrom=\"{ROOT}/a\"\noccurrence=2\ncrash=false\n"; }
            v.push_back (c);
        }
        return v;
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1; o.hi = tier ? 5 : 4;
        vector<Op> ops = {mk (K_WRITE, 0, 2, 7), mk (K_WRITE, 1, 0, 3), mk (K_FSYNC, 0), mk (K_TRUNC, 1, 9), mk (K_CLEAR)};
        for (size_t i = 0; i < c.cmds.size (); i++) ops.push_back (mk (K_CMD, 0, i));
        enum_hist (c, ops, o, s, cb);
    },
    run_c22, nullptr});
