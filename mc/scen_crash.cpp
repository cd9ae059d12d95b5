// C11: crash faults sent over the FIFO; C12: clear faults of the configuration file.
#include "hooks.hpp"
#include <regex>

struct Due { int step, due, eff, hid; }; // shared with the host: what the oracle expects of the operation under way
static Due* due () { return (Due*)shared_scratch (); }
static int cur_step, cur_prin;
// the operation that carries the effect of a step; libfuse renames an open file away instead of unlinking it
static int prin_of (const Exec& x, const Cfg& c, const Op& o) {
    if (o.k == K_UNLINK && x.m.handle_on (c.names[o.a]) >= 0) return FO_RENAME;
    return principal (o, x.m.lookup (c.names[o.a]) >= 0);
}
static int eff_of (const Op& o, int op, const char* to) {
    if (o.k == K_RENAME && op == FO_RENAME && strstr (to, ".fuse_hidden")) return 2; // the open target is hidden first
    return op == cur_prin;
}

// ---- C11 -------------------------------------------------------------------------------------------------------
struct CF { int op, after, from, to; };
static const char* from_tab[] = {nullptr, "/a$", "ab", "d/a", "zz|/a$", "r/.*a", "zzz", "^t$", "(a|b)b", "/[^/]*a$", "/d$", "y$", "none", "x\\sy", "r/none$|zzz"};
static const char* to_tab[]   = {nullptr, "/ab$", "/c$", "zz|/a$", "zzz", "r/.", "/e$", "y$", "none", "\\ry"};
static string cmd_of (const CF& f) {
    string s = string ("lazyfs::crash::timing=") + (f.after ? "after" : "before") + "::op=" + fo_name[f.op];
    if (from_tab[f.from]) s += string ("::from_rgx=") + from_tab[f.from];
    if (to_tab[f.to]) s += string ("::to_rgx=") + to_tab[f.to];
    return s;
}
static bool hits (const CF& f, int op, const char* a, const char* b) {
    if (f.op != op) return false;
    static std::map<const char*, std::regex> cache;
    auto m = [] (const char* rx, const char* s) {
        if (!rx) return true;
        auto it = cache.find (rx);
        if (it == cache.end ()) it = cache.emplace (rx, std::regex (rx)).first;
        return std::regex_search (s, it->second);
    };
    return m (from_tab[f.from], a) && (!fo_two (op) || m (to_tab[f.to], b));
}
static vector<CF> faults_of (const Case& k, vector<int>* pos) {
    vector<CF> v;
    for (size_t i = 0; i + 4 < k.x.size (); i += 5) {
        v.push_back ({(int)k.x[i], (int)k.x[i + 1], (int)k.x[i + 2], (int)k.x[i + 3]});
        if (pos) pos->push_back (k.x[i + 4]);
    }
    return v;
}
static string fmt_c11 (const Cfg& c, const Case& k) {
    vector<int> pos;
    auto f = faults_of (k, &pos);
    string s = fmt_hist (c, k.h);
    for (size_t i = 0; i < f.size (); i++) s += " {" + cmd_of (f[i]) + " sent before step " + std::to_string (pos[i]) + "}";
    return s;
}
static void run_c11 (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    vector<int> pos;
    vector<CF> f = faults_of (k, &pos);
    *due () = {-1, 0, 0, 0};
    End e = spawn ([&] {
        Exec x (c);
        x.start ();
        vector<CF> armed;
        OpHooks h;
        h.before = [&] (int op, const char* a, const char* b) {
            int d = 0;
            for (auto& y : armed)
                if (hits (y, op, a, b)) {
                    if (!y.after) d = 1;
                    else if (!d) d = 2;
                }
            *due () = {cur_step, d, cur_step < (int)k.h.size () ? eff_of (k.h[cur_step], op, b) : 0, due ()->hid};
        };
        h.after = [&] (int op, const char* a, const char* b, int rc) {
            if (due ()->due == 1) fail ("LazyFS was not killed before %s(%s,%s)", fo_name[op], a, b);
            if (due ()->due == 2 && rc >= 0) fail ("LazyFS was not killed after %s(%s,%s)", fo_name[op], a, b);
            due ()->due = 0;
            if (due ()->eff == 2) due ()->hid = 1;
        };
        install_hooks (h);
        for (size_t s = 0; s <= k.h.size (); s++) {
            for (size_t i = 0; i < f.size (); i++)
                if (pos[i] == (int)s) { x.k.command (cmd_of (f[i])); armed.push_back (f[i]); bump (CT_CMDS); }
            if (s == k.h.size ()) break;
            cur_step = s;
            due ()->hid = 0;
            cur_prin = prin_of (x, c, k.h[s]);
            x.apply (k.h[s]);
        }
        cur_prin = -1;
        cur_step = k.h.size ();
        armed.clear (); // the final look is not part of the history: only files no pending fault is about
        for (auto& y : f) if (y.op == FO_OPEN || y.op == FO_READ || y.op == FO_FSYNC) return;
        x.check_view ("at the end", 0);
    });
    if (e == E_OK) return;
    if (e != E_SELFKILL) throw Violation{"internal: planned kill"};
    if (!due ()->due) throw Violation{"step " + std::to_string (due ()->step) + ": LazyFS killed itself although no crash fault was due at this operation"};
    bump (CT_CRASH);
    Model m;
    m.init (c);
    int n = due ()->step + (due ()->due == 2 && due ()->eff == 1 ? 1 : 0);
    for (int i = 0; i < n; i++) m.apply (k.h[i]);
    if ((due ()->due == 2 && due ()->eff == 2) || (due ()->hid && n == due ()->step)) m.apply (mk (K_UNLINK, k.h[due ()->step].b));
    remount_check (c, m, 0);
}
static vector<Cfg> c11_cfgs (int) {
    Cfg c = geo ("bs4", 4, 1, 64, {{0, 6}, {2, 5}}, {"a", "ab", "d/a", "c", "d", "e"});
    c.predirs = {"d"};
    return {c};
}
static vector<Op> c11_ops () {
    return {mk (K_WRITE, 0, 2, 5), mk (K_WRITE, 2, 0, 3), mk (K_READ, 0, 0, 9), mk (K_READ, 2, 0, 9), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_FSYNC, 2, 0, 0, 0, 1), mk (K_UNLINK, 0), mk (K_UNLINK, 1), mk (K_RENAME, 0, 0, 0, 1),
            mk (K_RENAME, 1, 0, 0, 0), mk (K_RENAME, 4, 0, 0, 5), mk (K_LINK, 0, 0, 0, 1), mk (K_LINK, 2, 0, 0, 3), mk (K_SYMLINK, 0, 0, 0, 3), mk (K_CREAT, 1), mk (K_ACCESS, 0), mk (K_ACCESS, 2), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC),
            mk (K_HOPEN, 1, 0, 0, 0, F_CREAT_RDWR), mk (K_HCLOSE, 0), mk (K_CLEAR), mk (K_CKPT)};
}
static vector<CF> all_cf () {
    vector<CF> v;
    for (int op = 0; op < FO_MAX; op++)
        for (int t = 0; t < 2; t++) {
            if (!fo_two (op)) {
                for (int f : {1, 2, 3, 4, 5, 6, 8, 9}) v.push_back ({op, t, f, 0});
            } else if (op == FO_SYMLINK) {
                for (int f : {0, 6, 7})
                    for (int to : {0, 2, 4, 5}) if (f || to) v.push_back ({op, t, f, to});
            } else
                for (int f : {0, 1, 2, 4, 6, 10})
                    for (int to : {0, 1, 2, 3, 4, 6}) if (f || to) v.push_back ({op, t, f, to});
        }
    return v;
}
static vector<CF> few_cf () {
    vector<CF> v;
    for (int op = 0; op < FO_MAX; op++)
        for (int t = 0; t < 2; t++) {
            if (!fo_two (op)) v.push_back ({op, t, 1, 0});
            else v.push_back ({op, t, 0, 5});
        }
    return v;
}
static void emit_cf (const vector<vector<CF>>& sets, const vector<vector<int>>& poss, const Case& c, const CB& cb) {
    for (auto& s : sets)
        for (auto& p : poss) {
            bool ok = true;
            for (int q : p) if (q > (int)c.h.size ()) ok = false;
            if (!ok) continue;
            Case k = c;
            for (size_t i = 0; i < s.size (); i++)
                for (int64_t v : {s[i].op, s[i].after, s[i].from, s[i].to, p[i]}) k.x.push_back (v);
            cb (k);
            if (stopping ()) return;
        }
}
static vector<vector<CF>> singles (const vector<CF>& v) {
    vector<vector<CF>> r;
    for (auto& f : v) r.push_back ({f});
    return r;
}
static Reg c11a ({"C11", "single", "every crash fault (11 operations x before/after x path expressions) armed before or after the first step of every history", c11_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1; o.hi = 2;
        auto all = singles (all_cf ());
        enum_hist (c, c11_ops (), o, s, [&] (const Case& k) { emit_cf (all, tier && k.h.size () == 2 ? vector<vector<int>>{{0}, {1}} : vector<vector<int>>{{0}}, k, cb); });
    },
    run_c11, fmt_c11});
static Reg c11b ({"C11", "histories", "one fault of every operation and timing against longer histories, armed at every position", c11_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2; o.hi = tier ? 4 : 3;
        vector<Op> ops = {mk (K_WRITE, 0, 2, 5), mk (K_READ, 0, 0, 9), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_UNLINK, 0), mk (K_RENAME, 0, 0, 0, 1), mk (K_RENAME, 1, 0, 0, 0), mk (K_LINK, 0, 0, 0, 1), mk (K_SYMLINK, 0, 0, 0, 3),
                          mk (K_CREAT, 0), mk (K_ACCESS, 0), mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC), mk (K_CLEAR)};
        auto sg = singles (few_cf ());
        enum_hist (c, ops, o, s, [&] (const Case& k) {
            // keep the histories in which the last step is the first that can hit: the others are covered by their prefixes
            for (int p = 0; p < 2; p++) emit_cf (sg, {{p * (int)(k.h.size () - 1)}}, k, cb);
        });
    },
    run_c11, fmt_c11});
static Reg c11c ({"C11", "two-pending", "two crash faults pending at once, armed together or one step apart", c11_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1; o.hi = tier ? 3 : 2;
        vector<Op> ops = {mk (K_WRITE, 0, 2, 5), mk (K_WRITE, 2, 0, 3), mk (K_READ, 0, 0, 9), mk (K_TRUNC, 0, 3), mk (K_FSYNC, 0), mk (K_UNLINK, 0), mk (K_RENAME, 0, 0, 0, 1), mk (K_LINK, 2, 0, 0, 3), mk (K_CREAT, 1)};
        vector<CF> few;
        for (int op : {FO_WRITE, FO_FSYNC, FO_TRUNCATE, FO_READ, FO_UNLINK})
            for (int t = 0; t < 2; t++) for (int f : {1, 3}) few.push_back ({op, t, f, 0});
        for (int op : {FO_RENAME, FO_LINK}) for (int t = 0; t < 2; t++) few.push_back ({op, t, 1, 1}), few.push_back ({op, t, 0, 2});
        vector<vector<CF>> pairs;
        for (auto& a : few) for (auto& b : few) pairs.push_back ({a, b});
        enum_hist (c, ops, o, s, [&] (const Case& k) { emit_cf (pairs, {{0, 0}, {0, 1}}, k, cb); });
    },
    run_c11, fmt_c11});
static Reg c11d ({"C11", "odd-names", "crash faults on files whose names hold a newline, a carriage return or the word none, and expressions equal to that word",
    [] (int) {
        Cfg c = geo ("bs4", 4, 1, 64, {{0, 6}, {1, 6}, {2, 5}}, {"x\ny", "none", "x\ry", "nonesuch", "z"});
        return vector<Cfg>{c};
    },
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1; o.hi = tier ? 3 : 2;
        vector<Op> ops;
        for (int i : {0, 1, 2}) for (auto k : {mk (K_WRITE, i, 2, 5), mk (K_FSYNC, i), mk (K_UNLINK, i)}) ops.push_back (k);
        for (auto p : {std::pair<int, int>{0, 1}, {1, 0}, {0, 2}, {1, 3}, {2, 4}, {4, 0}, {3, 1}}) ops.push_back (mk (K_RENAME, p.first, 0, 0, p.second));
        ops.push_back (mk (K_LINK, 0, 0, 0, 4));
        ops.push_back (mk (K_LINK, 1, 0, 0, 4));
        ops.push_back (mk (K_CREAT, 4));
        vector<CF> v;
        for (int t = 0; t < 2; t++) {
            for (int op : {FO_WRITE, FO_FSYNC, FO_UNLINK, FO_CREATE, FO_OPEN}) for (int f : {5, 11, 12, 13, 14}) v.push_back ({op, t, f, 0});
            for (int op : {FO_RENAME, FO_LINK})
                for (int f : {0, 11, 12, 13, 14}) for (int to : {0, 4, 5, 7, 8, 9}) if (f || to) v.push_back ({op, t, f, to});
        }
        auto all = singles (v);
        enum_hist (c, ops, o, s, [&] (const Case& k) { emit_cf (all, {{0}}, k, cb); });
    },
    run_c11, fmt_c11});

// ---- C12 -------------------------------------------------------------------------------------------------------
// one configured clear fault: pv = {op, after, from name, to name, occurrence, crash}
static string fmt_c12 (const Cfg& c, const Case& k) { return fmt_hist (c, k.h); }
static void run_c12 (const Cfg& c, const Case& k) {
    prepare_root (c, shim::root);
    *due () = {-1, 0, 0, 0};
    int nf = c.pv.size () / 6;
    End e = spawn ([&] {
        Exec x (c);
        x.start ();
        vector<int> count (nf, 0);
        bool clear_before = false, clear_after = false;
        OpHooks h;
        h.before = [&] (int op, const char* a, const char* b) {
            int d = 0;
            bool prin = op == cur_prin;
            *due () = {cur_step, 0, prin, 0};
            for (int i = 0; i < nf; i++) {
                const int64_t* v = &c.pv[i * 6];
                if (v[0] != op) continue;
                string from = op == FO_SYMLINK ? string ("t") : x.k.path (c.names[v[2]]);
                if (from != a) continue;
                if (fo_two (op) && x.k.path (c.names[v[3]]) != b) continue;
                if (++count[i] != v[4]) continue;
                if (v[5]) { if (!v[1]) d = 1; else if (!d) d = 2; }
                else if (!v[1] || !prin) clear_before = true; // (an open that belongs to the step comes before its effect)
                else clear_after = true;
            }
            due ()->due = d;
        };
        h.after = [&] (int op, const char* a, const char* b, int rc) {
            if (due ()->due == 1) fail ("LazyFS was not killed before %s(%s,%s)", fo_name[op], a, b);
            if (due ()->due == 2) fail ("LazyFS was not killed after %s(%s,%s)", fo_name[op], a, b);
            due ()->due = 0;
        };
        install_hooks (h);
        for (size_t s = 0; s < k.h.size (); s++) {
            const Op& o = k.h[s];
            cur_step = s;
            cur_prin = principal (o, x.m.lookup (c.names[o.a]) >= 0);
            clear_before = clear_after = false;
            progress (s, 1);
            Res a = x.k.apply (o, x.step);
            progress (s, 2);
            x.step++;
            count_op ();
            if (clear_before) { x.m.do_clear (); bump (CT_INJECT); }
            Res w = x.m.apply (o);
            if (clear_after) { x.m.do_clear (); bump (CT_INJECT); }
            if (w.rc != a.rc) fail ("%s returned %d, expected %d", fmt_op (c, o).c_str (), a.rc, w.rc);
            if (w.has_data && w.data != a.data) fail ("%s returned %s, expected %s", fmt_op (c, o).c_str (), hex (a.data).c_str (), hex (w.data).c_str ());
            x.check_disk ("after the operation");
            count_state (x.m.hash ());
        }
        cur_prin = -1;
        cur_step = k.h.size ();
        for (int i = 0; i < nf; i++)
            if (c.pv[i * 6] == FO_OPEN || c.pv[i * 6] == FO_READ) return; // looking would count
        x.check_view ("at the end", 0);
    });
    if (e == E_OK) return;
    if (e != E_SELFKILL) throw Violation{"internal: planned kill"};
    if (!due ()->due) throw Violation{"step " + std::to_string (due ()->step) + ": LazyFS killed itself although no fault was due at this operation"};
    bump (CT_CRASH);
    Model m;
    m.init (c);
    // (a kill ends the history; clear faults that fired earlier only discard unsynced data, which the kill does too,
    //  but what was synced after them depends on them: replay with the same rules)
    {
        vector<int> count (nf, 0);
        int n = due ()->step;
        for (int i = 0; i <= n; i++) {
            const Op& o = k.h[i];
            bool last = i == n;
            if (last && !(due ()->due == 2 && due ()->eff)) break;
            int pr = principal (o, m.lookup (c.names[o.a]) >= 0);
            bool cb = false, ca = false;
            for (int j = 0; j < nf; j++) {
                const int64_t* v = &c.pv[j * 6];
                bool eph = (o.k == K_WRITE || o.k == K_READ || o.k == K_FSYNC) && m.handle_on (c.names[o.a]) < 0 && v[0] == FO_OPEN;
                if (!(v[0] == pr || eph) || c.names[o.a] != c.names[v[2]]) continue;
                if (pr != FO_SYMLINK && fo_two (pr) && c.names[o.b] != c.names[v[3]]) continue;
                if (++count[j] != v[4] || v[5]) continue;
                if (!v[1] || eph) cb = true; else ca = true;
            }
            if (cb) m.do_clear ();
            m.apply (o);
            if (ca) m.do_clear ();
        }
    }
    m.do_clear ();
    string bad = disk_mismatch (m, shim::root); // (a new mount would start with the fault pending again)
    if (!bad.empty ()) throw Violation{"after the crash: " + bad};
}
static string inj (const Cfg& c, int op, int after, int from, int to, int occ, int crash) {
    string s = string ("[[injection]]\ntype=\"clear-cache\"\nop=\"") + fo_name[op] + "\"\ntiming=\"" + (after ? "after" : "before") + "\"\n";
    s += "from=\"" + (op == FO_SYMLINK ? string ("t") : "{ROOT}/" + c.names[from]) + "\"\n";
    if (fo_two (op)) s += "to=\"{ROOT}/" + c.names[to] + "\"\n";
    s += "occurrence=" + std::to_string (occ) + "\ncrash=" + (crash ? "true" : "false") + "\n";
    return s;
}
static Cfg c12_base () {
    Cfg c = geo ("", 4, 1, 64, {{0, 6}, {1, 5}}, {"a", "aa", "d/a", "c", "d", "cc"}); // (names that begin or end like others)
    c.predirs = {"d"};
    return c;
}
static void add_inj (Cfg& c, int op, int after, int from, int to, int occ, int crash) {
    c.extra += inj (c, op, after, from, to, occ, crash);
    for (int64_t v : {op, after, from, to, occ, crash}) c.pv.push_back (v);
    if (!c.name.empty ()) c.name += " + ";
    c.name += string (crash ? "kill " : "clear ") + (after ? "after " : "before ") + std::to_string (occ) + ". " + fo_name[op] + "(" + (op == FO_SYMLINK ? "t" : c.names[from]) + (fo_two (op) ? "," + c.names[to] : "") + ")";
}
static vector<Cfg> c12_cfgs (int tier) {
    vector<Cfg> v;
    for (int op = 0; op < FO_MAX; op++)
        for (int after = 0; after < 2; after++)
            for (int occ = 1; occ <= 3; occ++)
                for (int crash = 0; crash < 2; crash++) {
                    Cfg c = c12_base ();
                    add_inj (c, op, after, 0, op == FO_SYMLINK ? 3 : 3, occ, crash);
                    v.push_back (c);
                }
    return v;
}
static vector<Op> c12_ops (int op) {
    vector<Op> v = {mk (K_WRITE, 0, 2, 6), mk (K_WRITE, 1, 0, 3), mk (K_FSYNC, 0), mk (K_READ, 0, 1, 9)};
    auto two = [&] (OpKind k) { v.push_back (mk (k, 0, 0, 0, 3)); v.push_back (mk (k, 1, 0, 0, 3)); v.push_back (mk (k, 0, 0, 0, 5)); };
    switch (op) {
    case FO_OPEN: v.push_back (mk (K_HOPEN, 0)); v.push_back (mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC)); v.push_back (mk (K_HCLOSE, 0)); v.push_back (mk (K_HOPEN, 1)); break;
    case FO_CREATE: v.push_back (mk (K_UNLINK, 0)); v.push_back (mk (K_CREAT, 2)); v.push_back (mk (K_CREAT, 0)); v.push_back (mk (K_CREAT, 3)); v.push_back (mk (K_HOPEN, 0, 0, 0, 0, F_CREAT_RDWR)); break;
    case FO_READ: v.push_back (mk (K_READ, 1, 0, 4)); v.push_back (mk (K_HOPEN, 0)); break;
    case FO_WRITE: v.push_back (mk (K_HOPEN, 0)); v.push_back (mk (K_TRUNC, 0, 9)); break;
    case FO_FSYNC: v.push_back (mk (K_FSYNC, 0, 0, 0, 0, 1)); v.push_back (mk (K_FSYNC, 1)); v.push_back (mk (K_CKPT)); break;
    case FO_TRUNCATE: v.push_back (mk (K_TRUNC, 0, 3)); v.push_back (mk (K_TRUNC, 0, 9)); v.push_back (mk (K_TRUNC, 1, 3)); v.push_back (mk (K_HOPEN, 0, 0, 0, 0, F_RDWR_TRUNC)); break;
    case FO_UNLINK: v.push_back (mk (K_UNLINK, 0)); v.push_back (mk (K_CREAT, 0)); v.push_back (mk (K_UNLINK, 1)); v.push_back (mk (K_RENAME, 1, 0, 0, 0)); break;
    case FO_RENAME: two (K_RENAME); v.push_back (mk (K_RENAME, 3, 0, 0, 0)); v.push_back (mk (K_RENAME, 0, 0, 0, 1)); break;
    case FO_LINK: two (K_LINK); v.push_back (mk (K_UNLINK, 3)); break;
    case FO_SYMLINK: v.push_back (mk (K_SYMLINK, 0, 0, 0, 3)); v.push_back (mk (K_SYMLINK, 0, 0, 0, 5)); v.push_back (mk (K_UNLINK, 3)); break;
    case FO_ACCESS: v.push_back (mk (K_ACCESS, 0)); v.push_back (mk (K_ACCESS, 1)); break;
    }
    return v;
}
static Reg c12a ({"C12", "configured", "every clear fault (11 operations x before/after x occurrence 1-3 x kill/continue) against all histories of data operations and the operation in question", c12_cfgs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 1; o.hi = tier ? 5 : 4;
        enum_hist (c, c12_ops (c.pv[0]), o, s, cb);
    },
    run_c12, fmt_c12, 2});
static Reg c12c ({"C12", "late", "clear faults with occurrences 4 to 12: the operation done 13 times, with other operations and the same one on other files in between", [] (int tier) {
        vector<Cfg> v;
        for (int op = 0; op < FO_MAX; op++)
            for (int after = 0; after < 2; after++)
                for (int occ : tier ? vector<int>{4, 5, 6, 7, 8, 9, 10, 11, 12, 13} : vector<int>{4, 9, 10, 12})
                    for (int crash = 0; crash < 2; crash++) {
                        Cfg c = c12_base ();
                        add_inj (c, op, after, 0, 3, occ, crash);
                        v.push_back (c);
                    }
        return v;
    },
    [] (const Cfg& c, int, Shard s, const CB& cb) {
        if (s.k) return;
        vector<Op> one;
        switch (c.pv[0]) {
        case FO_OPEN: one = {mk (K_HOPEN, 0), mk (K_HCLOSE, 0)}; break;
        case FO_CREATE: case FO_UNLINK: one = {mk (K_UNLINK, 0), mk (K_CREAT, 0)}; break;
        case FO_READ: one = {mk (K_READ, 0, 1, 9)}; break;
        case FO_WRITE: one = {mk (K_WRITE, 0, 2, 6)}; break;
        case FO_FSYNC: one = {mk (K_FSYNC, 0)}; break;
        case FO_TRUNCATE: one = {mk (K_TRUNC, 0, 3)}; break;
        case FO_RENAME: one = {mk (K_RENAME, 0, 0, 0, 3), mk (K_RENAME, 3, 0, 0, 0)}; break;
        case FO_LINK: one = {mk (K_LINK, 0, 0, 0, 3), mk (K_UNLINK, 3)}; break;
        case FO_SYMLINK: one = {mk (K_SYMLINK, 0, 0, 0, 3), mk (K_UNLINK, 3)}; break;
        case FO_ACCESS: one = {mk (K_ACCESS, 0)}; break;
        }
        bool w0 = c.pv[0] != FO_WRITE;
        for (int every = 0; every < 4; every++) { // what happens in between
            Case k;
            if (w0) k.h.push_back (mk (K_WRITE, 0, 1, 4));
            for (int i = 0; i < 13; i++) {
                for (auto& o : one) k.h.push_back (o);
                if (every == 1) k.h.push_back (mk (K_WRITE, 1, i, 3));
                if (every == 2 && i % 3 == 1) k.h.push_back (mk (K_CLEAR));
                if (every == 3 && one.size () == 1) { Op x = one[0]; x.a = 1; k.h.push_back (x); }
            }
            cb (k);
        }
    },
    run_c12, fmt_c12, 1});
static vector<Cfg> c12_pairs (int) {
    vector<Cfg> v;
    struct P { int op, from, to; };
    vector<P> ps = {{FO_WRITE, 0, 0}, {FO_FSYNC, 1, 0}, {FO_RENAME, 1, 3}, {FO_READ, 0, 0}, {FO_TRUNCATE, 1, 0}, {FO_LINK, 2, 3}};
    for (size_t i = 0; i < ps.size (); i++)
        for (size_t j = 0; j < ps.size (); j++) {
            if (ps[i].from == ps[j].from) continue; // one clear fault per file
            for (int t = 0; t < 4; t++) {
                Cfg c = c12_base ();
                c.pre.push_back ({2, 4});
                add_inj (c, ps[i].op, t & 1, ps[i].from, ps[i].to, 1, 0);
                add_inj (c, ps[j].op, !(t & 1), ps[j].from, ps[j].to, 2, t >> 1);
                v.push_back (c);
            }
        }
    return v;
}
static Reg c12b ({"C12", "two-configured", "two clear faults on different files, one of which fires and lets LazyFS continue", c12_pairs,
    [] (const Cfg& c, int tier, Shard s, const CB& cb) {
        EnumOpt o;
        o.lo = 2; o.hi = tier ? 5 : 4;
        vector<Op> ops = {mk (K_WRITE, 0, 2, 6), mk (K_WRITE, 1, 0, 3), mk (K_FSYNC, 1)};
        for (int i : {0, 6})
            switch (c.pv[i]) {
            case FO_READ: ops.push_back (mk (K_READ, 0, 0, 9)); break;
            case FO_RENAME: ops.push_back (mk (K_RENAME, 1, 0, 0, 3)); ops.push_back (mk (K_RENAME, 3, 0, 0, 1)); break;
            case FO_TRUNCATE: ops.push_back (mk (K_TRUNC, 1, 9)); break;
            case FO_LINK: ops.push_back (mk (K_LINK, 2, 0, 0, 3)); ops.push_back (mk (K_UNLINK, 3)); break;
            }
        enum_hist (c, ops, o, s, cb);
    },
    run_c12, fmt_c12, 2});
