#include "scen.hpp"
void enum_stages (const Cfg& c, const vector<vector<Op>>& st, Shard s, const CB& cb) {
    Model m0;
    m0.init (c);
    Case cs;
    long idx = 0;
    size_t deal = std::min<size_t> (2, st.size ());
    std::function<void (const Model&, size_t)> rec = [&] (const Model& m, size_t d) {
        if (stopping ()) return;
        if (d == deal && (idx++ % s.n) != s.k) return;
        if (d == st.size ()) { cb (cs); return; }
        for (auto& op : st[d]) {
            if (op.k == K_NOP) { rec (m, d + 1); continue; }
            if (!m.enabled (op)) continue;
            Model n = m;
            n.apply (op);
            cs.h.push_back (op);
            rec (n, d + 1);
            cs.h.pop_back ();
        }
    };
    rec (m0, 0);
}
void run_lockstep (const Cfg& c, const Case& k, unsigned judge, int sub, bool final_clear) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Exec e (c);
        e.judge = judge;
        e.start ();
        e.run (k.h);
        e.check_view ("at the end", sub);
        if (judge & J_DISK) e.check_disk ("after reading everything");
        bump (CT_PROBES);
        if (final_clear) e.clear_and_check (sub);
    });
}
void remount_check (const Cfg& c, Model m, int sub) {
    m.do_clear ();
    for (auto& h : m.h) h.open = false;
    string s = disk_mismatch (m, shim::root);
    if (!s.empty ()) throw Violation{"after the crash: " + s};
    bump (CT_REMOUNT);
    spawn_ok ([&] {
        Exec e (c);
        e.m = m;
        e.m.cfg = &c;
        e.start ();
        // names libfuse had hidden stay behind after a crash; their number changes link counts
        e.no_nlink = true;
        e.check_view ("after the crash and a new mount", sub);
    });
}
int64_t chown_id (int want) {
    static std::map<int, int64_t> known;
    auto it = known.find (want);
    if (it != known.end ()) return it->second;
    string f = "/dev/shm/mc-chown-" + std::to_string (getpid ());
    int fd = rs::open (f.c_str (), O_RDWR | O_CREAT, 0600);
    int64_t r = fd >= 0 && syscall (SYS_fchown, fd, want, want) == 0 ? want : (int64_t)getuid ();
    if (fd >= 0) { rs::close (fd); syscall (SYS_unlink, f.c_str ()); }
    return known[want] = r;
}
vector<string> odd_names (bool line_ends) {
    vector<string> v = {"a b", " ", "\t", "'", "\"x\"", "\\\\n", "%s%n%d", "{}", "{0}{1}", "{:d", "}", "\xc3\xbc", "\xff\xfe", "lazyfs::clear-cache", "::", "=", "*", "[", "(a|b)", "-f", "...", ".x", "#", "$(x)", "\x01\x7f", string (255, 'n')};
    if (line_ends) v.push_back ("a\nb");
    return v;
}
