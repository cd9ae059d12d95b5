#include "engine.hpp"
#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <malloc.h>
#include <regex>
#include <sstream>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>

using std::string;
extern "C" int lazyfs_main (int argc, char* argv[]);

std::vector<Scenario>& scenarios () {
    static auto* v = new std::vector<Scenario>;
    return *v;
}
// ---- shared state ------------------------------------------------------------------------------------------------
constexpr int MAXW = 32;
constexpr size_t HTAB = 1 << 23;
struct Slot { // one per worker
    std::atomic<int> killed;
    std::atomic<int> step, phase;
    int failed;
    char msg[8192];
};
struct Shm {
    std::atomic<long> next_job;
    std::atomic<long> ctr[CT_MAX];
    std::atomic<long> states;
    std::atomic<int> stop;
    std::atomic<int> viol;    // a confirmed violation is stored
    std::atomic<int> truncated;
    std::atomic<int> unconfirmed;
    std::atomic<int> known_n;
    int v_scen, v_cfg;
    char v_msg[8192];
    char v_case[16384]; // serialized
    char v_fmt[8192];
    char u_msg[2048];
    std::atomic<int> nsample;
    char sample[16][512];
    char known[32][512];
    Slot slot[MAXW];
    std::atomic<uint64_t> tab[HTAB];
};
static Shm* S;
static Slot* my;
static int my_w       = 0;
static bool is_host   = false;
static void* scratch_ = nullptr;
static string base_dir;
static double t_deadline = 0;
static int g_tier        = 0;
static const Scenario* g_sc;
static const Cfg* g_cfg;
static Shard g_shard;
static const Case* g_only;
static bool g_verbose = false;

static double now () {
    struct timespec t;
    clock_gettime (CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}
void bump (Ctr c, long n) { S->ctr[c].fetch_add (n, std::memory_order_relaxed); }
void count_op () { bump (CT_OPS); }
void count_state (uint64_t h) {
    if (!h) h = 1;
    size_t i = (h * 0x9E3779B97F4A7C15ull) >> 41;
    for (int k = 0; k < 64; k++, i = (i + 1) & (HTAB - 1)) {
        uint64_t v = S->tab[i].load (std::memory_order_relaxed);
        if (v == h) return;
        if (v == 0) {
            if (S->tab[i].compare_exchange_strong (v, h)) { S->states.fetch_add (1); return; }
            if (v == h) return;
        }
    }
}
void progress (int step, int phase) {
    my->step.store (step, std::memory_order_relaxed);
    my->phase.store (phase, std::memory_order_relaxed);
}
bool stopping () { return S->stop.load () != 0 || (t_deadline > 0 && now () > t_deadline); }
void* shared_scratch () { return scratch_; }
string log_path () { return base_dir + "/log"; }
static bool in_child = false;

void fail (const char* fmt, ...) {
    char b[8192];
    va_list ap;
    va_start (ap, fmt);
    vsnprintf (b, sizeof b, fmt, ap);
    va_end (ap);
    if (!in_child) throw Violation{b};
    snprintf (my->msg, sizeof my->msg, "step %d: %s", my->step.load (), b);
    my->failed = 1;
    syscall (SYS_exit_group, 97);
    abort ();
}

End spawn (const std::function<void ()>& fn) {
    my->killed.store (0);
    my->failed = 0;
    my->step   = -1;
    my->phase  = 0;
    bump (CT_PROCS);
    pid_t p = fork ();
    if (p < 0) { perror ("fork"); _exit (99); }
    if (p == 0) {
        in_child = true;
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        alarm (12);
        shim::killed = &my->killed;
        fn ();
        syscall (SYS_exit_group, 0);
    }
    int st;
    while (waitpid (p, &st, 0) < 0 && errno == EINTR) {}
    if (WIFEXITED (st) && WEXITSTATUS (st) == 0) return E_OK;
    if (WIFEXITED (st) && WEXITSTATUS (st) == 97 && my->failed) throw Violation{my->msg};
    if (WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL && my->killed.load () == 1) return E_SELFKILL;
    if (WIFSIGNALED (st) && WTERMSIG (st) == SIGKILL && my->killed.load () == 2) return E_PLANKILL;
    char b[200];
    if (WIFSIGNALED (st) && WTERMSIG (st) == SIGALRM)
        snprintf (b, sizeof b, "step %d: LazyFS hangs (%s)", my->step.load (), my->phase.load () == 1 ? "inside the operation" : "in a probe");
    else if (WIFSIGNALED (st))
        snprintf (b, sizeof b, "step %d: LazyFS died of signal %d (%s)", my->step.load (), WTERMSIG (st), strsignal (WTERMSIG (st)));
    else
        snprintf (b, sizeof b, "step %d: LazyFS exited with status %d", my->step.load (), WEXITSTATUS (st));
    throw Violation{b};
}

// ---- case (de)serialization for replays ----------------------------------------------------------------------------
static string ser (const Case& c) {
    std::ostringstream o;
    o << c.h.size ();
    for (auto& p : c.h) o << ' ' << (int)p.k << ' ' << (int)p.a << ' ' << (int)p.b << ' ' << (int)p.f << ' ' << p.off << ' ' << p.len;
    o << ' ' << c.x.size ();
    for (auto v : c.x) o << ' ' << v;
    return o.str ();
}
static Case deser (const string& s) {
    std::istringstream i (s);
    Case c;
    size_t n = 0;
    i >> n;
    for (size_t k = 0; k < n; k++) {
        int a[4];
        Op o;
        i >> a[0] >> a[1] >> a[2] >> a[3] >> o.off >> o.len;
        o.k = a[0]; o.a = a[1]; o.b = a[2]; o.f = a[3];
        c.h.push_back (o);
    }
    i >> n;
    for (size_t k = 0; k < n; k++) { int64_t v; i >> v; c.x.push_back (v); }
    return c;
}
static string fmt_case (const Scenario& s, const Cfg& c, const Case& k) {
    if (s.fmt) return s.fmt (c, k);
    string r = fmt_hist (c, k.h);
    if (!k.x.empty ()) {
        r += " params";
        for (auto v : k.x) r += " " + std::to_string (v);
    }
    return r;
}
struct Known { string prop, id, scen; std::regex rx, msg; };
static std::vector<Known> knowns;
static void load_known (const string& f) {
    std::ifstream in (f);
    string line;
    while (std::getline (in, line)) { // tab separated: prop id scenario case-regex message-regex
        if (line.empty () || line[0] == '#') continue;
        std::vector<string> p;
        std::stringstream ss (line);
        string t;
        while (std::getline (ss, t, '\t')) p.push_back (t);
        if (p.size () < 5) continue;
        knowns.push_back ({p[0], p[1], p[2], std::regex (p[3]), std::regex (p[4])});
    }
}

static int scen_index (const Scenario& s) { return &s - scenarios ().data (); }
static void run_case (const Case& c) {
    if (stopping ()) { if (!S->stop.load ()) S->truncated = 1; return; }
    bump (CT_HIST);
    int ns = S->nsample.load ();
    if (ns < 16 && S->ctr[CT_HIST].load () % 97 == 1) {
        ns = S->nsample.fetch_add (1);
        if (ns < 16) snprintf (S->sample[ns], 512, "%s: %s", g_sc->name.c_str (), fmt_case (*g_sc, *g_cfg, c).c_str ());
    }
    string first;
    for (int attempt = 0; attempt < 3; attempt++) {
        try {
            g_sc->run (*g_cfg, c);
            if (attempt == 0) return;
            continue;
        } catch (Violation& v) {
            if (attempt == 0) {
                first = v.msg;
                string fc = fmt_case (*g_sc, *g_cfg, c);
                for (auto& k : knowns)
                    if (k.prop == g_sc->prop && (k.scen == "*" || k.scen == g_sc->name) && std::regex_search (fc, k.rx) && std::regex_search (v.msg, k.msg)) {
                        for (int i = 0; i < 32; i++) {
                            if (S->known[i][0] == 0) { snprintf (S->known[i], 512, "%s", k.id.c_str ()); break; }
                            if (k.id == S->known[i]) break;
                        }
                        S->known_n.fetch_add (1);
                        return;
                    }
                continue;
            }
            int exp = 0;
            if (S->viol.compare_exchange_strong (exp, 1)) {
                S->v_scen = scen_index (*g_sc);
                S->v_cfg  = -1;
                auto cf   = g_sc->cfgs (g_tier);
                for (size_t i = 0; i < cf.size (); i++)
                    if (cf[i].name == g_cfg->name) S->v_cfg = i;
                snprintf (S->v_msg, sizeof S->v_msg, "%s", v.msg.c_str ());
                snprintf (S->v_case, sizeof S->v_case, "%s", ser (c).c_str ());
                snprintf (S->v_fmt, sizeof S->v_fmt, "%s", fmt_case (*g_sc, *g_cfg, c).c_str ());
                S->viol.store (2);
            }
            S->stop.store (1);
            return;
        }
    }
    S->unconfirmed.fetch_add (1);
    snprintf (S->u_msg, sizeof S->u_msg, "%s :: %s", fmt_case (*g_sc, *g_cfg, c).c_str (), first.c_str ());
}
void enum_hist (const Cfg& c, const std::vector<Op>& alpha, const EnumOpt& o, Shard s, const std::function<void (const Case&)>& cb) {
    Model m0;
    m0.init (c);
    Case cs;
    long idx = 0;
    std::function<void (const Model&, int)> rec = [&] (const Model& m, int d) {
        bool mine = true;
        if (d <= 2) mine = (idx++ % s.n) == s.k; // nodes of depth <=2 are dealt out; deeper ones follow their depth-2 ancestor
        if (mine && d >= o.lo && (!o.accept || o.accept (m, cs.h))) cb (cs);
        if (d == o.hi || stopping ()) return;
        if (d == 2 && !mine) return;
        for (auto& op : alpha) {
            if (!m.enabled (op)) continue;
            if (o.prune && o.prune (m, cs.h, op)) continue;
            Model n = m;
            n.apply (op);
            cs.h.push_back (op);
            rec (n, d + 1);
            cs.h.pop_back ();
        }
    };
    rec (m0, 0);
}

// ---- host: the real main() of LazyFS up to fuse_main ----------------------------------------------------------------
static void rep (string& s, const string& a, const string& b) {
    for (size_t p = 0; (p = s.find (a, p)) != string::npos; p += b.size ()) s.replace (p, a.size (), b);
}
static string toml (const Cfg& c) {
    string root = shim::root, fifo = root + ".fifo";
    string t;
    if (!c.raw.empty ()) t = c.raw;
    else {
        t = "[faults]\nfifo_path=\"" + fifo + "\"\n";
        if (c.completed) t += "fifo_path_completed=\"" + fifo + "c\"\n";
        t += string ("[cache]\napply_eviction=") + (c.evict ? "true" : "false") + "\n";
        t += "[cache.manual]\nio_block_size=" + std::to_string (c.bs) + "\npage_size=" + std::to_string (c.bs * c.bpp) + "\nno_pages=" + std::to_string (c.pages) + "\n";
        t += string ("[filesystem]\nlog_all_operations=") + (c.log_ops ? "true" : "false") + "\nlogfile=\"\"\n";
        t += c.extra;
    }
    rep (t, "{ROOT}", root);
    rep (t, "{FIFO}", fifo);
    rep (t, "{FIFOC}", fifo + "c");
    return t;
}
std::vector<string> fuse_args;
static void host_body (int argc, char** argv) {
    is_host = true;
    for (int i = 0; i < argc; i++) fuse_args.push_back (argv[i] ? argv[i] : "(null)");
    umask (0);
    try {
        if (g_only) run_case (*g_only);
        else g_sc->gen (*g_cfg, g_tier, g_shard, run_case);
    } catch (Violation& v) {
        fprintf (stderr, "internal: stray violation %s\n", v.msg.c_str ());
        syscall (SYS_exit_group, 98);
    }
    syscall (SYS_exit_group, 0);
}
// returns exit status of the host
static int run_host (const Scenario& sc, const Cfg& cfg, Shard sh, const Case* only) {
    pid_t p = fork ();
    if (p == 0) {
        prctl (PR_SET_PDEATHSIG, SIGKILL);
        mallopt (M_PERTURB, 0x5a);
        mallopt (M_ARENA_MAX, 1);
        mallopt (M_MMAP_THRESHOLD, 1 << 30);
        mallopt (M_TRIM_THRESHOLD, 1 << 30);
        mallopt (M_TOP_PAD, 8 << 20);
        g_sc = &sc; g_cfg = &cfg; g_shard = sh; g_only = only;
        shim::tl_harness = 1;
        shim::root = base_dir + "/r";
        string fifo = shim::root + ".fifo", cf = base_dir + "/" + cfg.conf_name, t = toml (cfg);
        rs::mkdir (shim::root.c_str (), 0755);
        rs::unlink (fifo.c_str ());
        rs::unlink ((fifo + "c").c_str ());
        if (cfg.pre_fifo & 1) syscall (SYS_mknodat, AT_FDCWD, fifo.c_str (), S_IFIFO | 0644, 0);
        if (cfg.pre_fifo & 2) syscall (SYS_mknodat, AT_FDCWD, (fifo + "c").c_str (), S_IFIFO | 0644, 0);
        if (cfg.conf_name.find ('/') != string::npos) { // the default configuration, relative to the working directory
            rs::mkdir (cf.substr (0, cf.rfind ('/')).c_str (), 0755);
            if (syscall (SYS_chdir, base_dir.c_str ())) _exit (95);
        }
        rs::write_file (cf, t.data (), t.size ());
        rs::unlink (log_path ().c_str ());
        int fd = cfg.capture ? rs::open (log_path ().c_str (), O_RDWR | O_CREAT | O_TRUNC | O_APPEND, 0644) : rs::open ("/dev/null", O_WRONLY);
        fflush (stdout);
        dup2 (fd, 1);
        if (fd != 1) rs::close (fd);
        shim::on_fuse_main = host_body;
        const char* av[] = {"lazyfs", "mnt", "--config-path", cf.c_str (), "-o", "modules=subdir", "-o", nullptr, "-f", nullptr};
        string sub = "subdir=" + shim::root;
        av[7] = sub.c_str ();
        std::vector<string> as;
        std::vector<char*> ap;
        if (cfg.argv.empty ())
            for (int i = 0; i < 9; i++) as.push_back (av[i]);
        for (auto a : cfg.argv) {
            rep (a, "{CONF}", cf);
            rep (a, "{ROOT}", shim::root);
            as.push_back (a);
        }
        for (auto& a : as) ap.push_back (&a[0]);
        ap.push_back (nullptr);
        shim::tl_harness = 0;
        int r = lazyfs_main (as.size (), ap.data ());
        fprintf (stderr, "lazyfs main returned %d before fuse_main\n", r);
        _exit (96);
    }
    int st;
    while (waitpid (p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}
struct Job { int sc, cfg; Shard sh; };

static void json_str (std::ostream& o, const string& s) {
    o << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') o << '\\' << c;
        else if (c < 32 || c > 126) { char b[8]; snprintf (b, sizeof b, "\\u%04x", c); o << b; }
        else o << c;
    }
    o << '"';
}
static void rm_rf (const string& p) {
    rs::clean_dir (p);
    rs::rmdir (p.c_str ());
}
int main (int argc, char** argv) {
    string prop, out, replay, knownf, only_scen;
    int workers = 8, shards = 0;
    double budget = 600;
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        auto nx = [&] { return string (argv[++i]); };
        if (a == "--prop") prop = nx ();
        else if (a == "--tier") g_tier = nx () == "thorough" ? 1 : 0;
        else if (a == "--out") out = nx ();
        else if (a == "--budget") budget = atof (nx ().c_str ());
        else if (a == "--workers") workers = atoi (nx ().c_str ());
        else if (a == "--shards") shards = atoi (nx ().c_str ());
        else if (a == "--replay") replay = nx ();
        else if (a == "--known") knownf = nx ();
        else if (a == "--scenario") only_scen = nx ();
        else if (a == "-v") g_verbose = true;
        else if (a == "--list") {
            for (auto& s : scenarios ()) printf ("%s %s\n", s.prop.c_str (), s.name.c_str ());
            return 0;
        }
    }
    signal (SIGPIPE, SIG_IGN);
    shim::tl_harness = 1;
    S = (Shm*)mmap (nullptr, sizeof (Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (!knownf.empty ()) load_known (knownf);
    string top; // a folder of this run alone (process ids repeat across pid namespaces that share /dev/shm)
    for (int i = 0; i < 200; i++) {
        top = (i < 100 ? "/dev/shm/mc" : "/tmp/mc") + std::to_string (getpid ()) + (i % 100 ? "-" + std::to_string (i % 100) : "");
        if (rs::mkdir (top.c_str (), 0755) == 0) break;
    }
    double t0 = now ();
    auto setup_worker = [&] (int w) {
        my_w     = w;
        my       = &S->slot[w];
        base_dir = top + "/" + std::to_string (w);
        rs::mkdir (base_dir.c_str (), 0755);
        scratch_ = mmap (nullptr, SCRATCH, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    };
    if (!replay.empty ()) {
        std::ifstream in (replay);
        string sn, cn, cs;
        int tier = 0;
        string line;
        while (std::getline (in, line)) {
            auto p = line.find ('=');
            if (p == string::npos) continue;
            string k = line.substr (0, p), v = line.substr (p + 1);
            if (k == "scenario") sn = v;
            if (k == "config") cn = v;
            if (k == "case") cs = v;
            if (k == "tier") tier = atoi (v.c_str ());
        }
        g_tier = tier;
        setup_worker (0);
        Case c = deser (cs);
        int rc = 3;
        for (auto& s : scenarios ())
            if (s.name == sn)
                for (auto& cf : s.cfgs (tier))
                    if (cf.name == cn) {
                        printf ("replaying %s\n", fmt_case (s, cf, c).c_str ());
                        fflush (stdout);
                        int st = run_host (s, cf, {0, 1}, &c);
                        if (!WIFEXITED (st) || WEXITSTATUS (st) != 0) { printf ("host failed: status %d\n", st); rc = 1; }
                        else if (S->viol.load ()) { printf ("VIOLATED: %s\n", S->v_msg); rc = 1; }
                        else { printf ("held\n"); rc = 0; }
                    }
        rm_rf (top);
        return rc;
    }
    std::vector<Job> jobs;
    auto& sc = scenarios ();
    for (size_t i = 0; i < sc.size (); i++) {
        if (sc[i].prop != prop) continue;
        if (!only_scen.empty () && sc[i].name != only_scen) continue;
        auto cf = sc[i].cfgs (g_tier);
        for (size_t j = 0; j < cf.size (); j++)
            {
            int n = shards ? shards : sc[i].shards;
            for (int k = 0; k < n; k++) jobs.push_back ({(int)i, (int)j, {k, n}});
        }
    }
    if (jobs.empty ()) { fprintf (stderr, "no scenario for %s\n", prop.c_str ()); rm_rf (top); return 2; }
    t_deadline = t0 + budget;
    std::vector<std::vector<Cfg>> cfgs (sc.size ());
    for (auto& j : jobs)
        if (cfgs[j.sc].empty ()) cfgs[j.sc] = sc[j.sc].cfgs (g_tier);
    std::vector<pid_t> pids;
    for (int w = 0; w < workers; w++) {
        pid_t p = fork ();
        if (p == 0) {
            prctl (PR_SET_PDEATHSIG, SIGKILL);
            setup_worker (w);
            for (;;) {
                long j = S->next_job.fetch_add (1);
                if (j >= (long)jobs.size () || S->stop.load ()) break;
                if (now () > t_deadline) { S->truncated = 1; break; }
                auto& b   = jobs[j];
                double a0 = now ();
                long h0 = S->ctr[CT_HIST].load ();
                int st    = run_host (sc[b.sc], cfgs[b.sc][b.cfg], b.sh, nullptr);
                if (g_verbose && b.sh.k == 0) fprintf (stderr, "  %s/%s shard 0: %.1fs (~%ld cases meanwhile)\n", sc[b.sc].name.c_str (), cfgs[b.sc][b.cfg].name.c_str (), now () - a0, S->ctr[CT_HIST].load () - h0);
                if (!WIFEXITED (st) || WEXITSTATUS (st) != 0) {
                    int exp = 0;
                    if (S->viol.compare_exchange_strong (exp, 1)) {
                        S->v_scen = b.sc; S->v_cfg = b.cfg;
                        snprintf (S->v_msg, sizeof S->v_msg, "LazyFS does not start with this configuration (host status 0x%x)", st);
                        snprintf (S->v_fmt, sizeof S->v_fmt, "[%s] startup", cfgs[b.sc][b.cfg].name.c_str ());
                        snprintf (S->v_case, sizeof S->v_case, "0 0");
                        S->viol.store (2);
                    }
                    S->stop.store (1);
                }
            }
            _exit (0);
        }
        pids.push_back (p);
    }
    for (auto p : pids) { int st; waitpid (p, &st, 0); }
    rm_rf (top);
    double el = now () - t0;
    std::ostringstream o;
    static const char* cn[] = {"histories", "operations", "probes", "lazyfs_processes", "crash_points", "injected_faults", "schedules", "scheduling_decisions", "remounts", "fifo_commands", "sampled", "x1", "x2"};
    o << "{\"property\":\"" << prop << "\",\"seconds\":" << el << ",\"truncated\":" << S->truncated.load () << ",\"unconfirmed\":" << S->unconfirmed.load ();
    o << ",\"unconfirmed_last\":"; json_str (o, S->u_msg);
    o << ",\"states\":" << S->states.load ();
    for (int i = 0; i < CT_MAX; i++) o << ",\"" << cn[i] << "\":" << S->ctr[i].load ();
    o << ",\"scenarios\":[";
    bool f = true;
    for (size_t i = 0; i < sc.size (); i++)
        if (!cfgs[i].empty ()) {
            o << (f ? "" : ",") << "{\"name\":"; f = false;
            json_str (o, sc[i].name); o << ",\"what\":"; json_str (o, sc[i].what); o << ",\"configs\":[";
            for (size_t j = 0; j < cfgs[i].size (); j++) { o << (j ? "," : ""); json_str (o, cfgs[i][j].name); }
            o << "]}";
        }
    o << "],\"samples\":[";
    for (int i = 0; i < std::min (16, S->nsample.load ()); i++) { o << (i ? "," : ""); json_str (o, S->sample[i]); }
    o << "],\"known\":[";
    for (int i = 0; i < 32 && S->known[i][0]; i++) { o << (i ? "," : ""); json_str (o, S->known[i]); }
    o << "],\"known_cases\":" << S->known_n.load ();
    if (S->viol.load ()) {
        o << ",\"violation\":{\"scenario\":"; json_str (o, sc[S->v_scen].name);
        o << ",\"config\":"; json_str (o, cfgs[S->v_scen][std::max (0, S->v_cfg)].name);
        o << ",\"message\":"; json_str (o, S->v_msg);
        o << ",\"history\":"; json_str (o, S->v_fmt);
        o << ",\"case\":"; json_str (o, S->v_case);
        o << ",\"tier\":" << g_tier << "}";
    }
    o << "}\n";
    if (out.empty ()) fputs (o.str ().c_str (), stdout);
    else { string s = o.str (); rs::write_file (out, s.data (), s.size ()); }
    return S->viol.load () ? 1 : 0;
}
