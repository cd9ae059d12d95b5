// The configuration file and the command line: C16
#include "scen.hpp"
#include <cmath>
#include <cstring>

// ---- cache geometry ----------------------------------------------------------------------------------------------
struct Geo { string text; long bs, bpp, pages; bool evict; };
static std::map<string, Geo>& geos () { static std::map<string, Geo> m; return m; }
static Cfg raw_cfg (const string& name, const string& cache, const string& rest = "") {
    Cfg c;
    c.name = name;
    c.capture = true;
    c.raw = "[faults]\nfifo_path=\"{FIFO}\"\n" + cache + "[filesystem]\nlog_all_operations=false\nlogfile=\"\"\n" + rest;
    return c;
}
static void add_geo (vector<Cfg>& v, const string& name, const string& cache, long bs, long bpp, long pages, bool evict) {
    geos ()[name] = {cache, bs, bpp, pages, evict};
    Cfg c = raw_cfg (name, cache);
    c.bs = bs; c.bpp = bpp; c.pages = pages; c.evict = evict;
    v.push_back (c);
}
static vector<Cfg> geo_cfgs (int tier) {
    vector<Cfg> v;
    // [cache.simple]: number, unit, blocks per page, eviction
    struct U { const char* u; double b; };
    for (auto& u : vector<U>{{"kb", 1024}, {"k", 1024}, {"KB", 1024}, {"Kb", 1024}, {"mb", 1048576}, {"m", 1048576}, {"MB", 1048576}, {"gb", 1073741824.}, {"G", 1073741824.}, {"GB", 1073741824.}})
        for (auto n : vector<string>{"12", "16", "40", "100", "0.5", "1.5", "0.01", "0.004", "2", "1"})
            for (int bpp : {0, 1, 2, 3, 7}) { // 0: not given
                double bytes = std::floor (u.b * atof (n.c_str ()));
                int b = bpp ? bpp : 1;
                if (bytes <= b * 4096. || bytes > (tier ? 70e6 : 5e6)) continue;
                for (int ev = 0; ev < 3; ev++) { // 2: not given
                    if (ev && (bpp == 7 || bpp == 3)) continue;
                    string t = "[cache]\n";
                    if (ev < 2) t += string ("apply_eviction=") + (ev ? "true" : "false") + "\n";
                    t += "[cache.simple]\ncustom_size=\"" + n + u.u + "\"\n";
                    if (bpp) t += "blocks_per_page=" + std::to_string (bpp) + "\n";
                    add_geo (v, "simple " + n + u.u + (bpp ? ", " + std::to_string (bpp) + " blocks per page" : "") + (ev == 1 ? ", eviction" : ev == 2 ? ", eviction not given" : ""), t, 4096, b, (long)bytes / (b * 4096), ev == 1);
                }
            }
    for (long bs : {1, 3, 4, 512, 4096})
        for (long bpp : {1, 2, 3, 5})
            for (long pages : {1, 2, 3, 10, 64})
                for (int ev = 0; ev < 3; ev++) {
                    string t = "[cache]\n";
                    if (ev < 2) t += string ("apply_eviction=") + (ev ? "true" : "false") + "\n";
                    t += "[cache.manual]\nio_block_size=" + std::to_string (bs) + "\npage_size=" + std::to_string (bs * bpp) + "\nno_pages=" + std::to_string (pages) + "\n";
                    add_geo (v, "manual block " + std::to_string (bs) + ", page " + std::to_string (bs * bpp) + ", " + std::to_string (pages) + " pages" + (ev == 1 ? ", eviction" : ev == 2 ? ", eviction not given" : ""), t, bs, bpp, pages, ev == 1);
                }
    return v;
}
static double usage_of (Kernel& k) {
    k.truncate_log ();
    k.command ("lazyfs::display-cache-usage");
    string log = k.read_log ();
    size_t p = log.find ("cache usage (%pages) is ");
    if (p == string::npos) fail ("no cache usage was printed");
    return atof (log.c_str () + p + strlen ("cache usage (%pages) is "));
}
static void run_geo (const Cfg& c, const Case&) {
    prepare_root (c, shim::root);
    spawn_ok ([&] {
        Kernel k;
        k.cfg = &c; k.root = shim::root; k.fifo = shim::root + ".fifo";
        k.mount ();
        if (k.open_h (5, "f", F_CREAT_RDWR)) fail ("cannot create a file");
        double unit = 100.0 / c.pages;
        long steps = std::min<long> ((c.pages - 1) * c.bpp + 1, 60);
        Bytes one (1, 7);
        auto disk = [&] { struct stat st; rs::lstat ((k.root + "/f").c_str (), &st); return (long)st.st_size; };
        // the first and last byte of each block: usage grows exactly at multiples of block size * blocks per page
        for (long b = 0; b < steps; b++)
            for (int last = 0; last < 2; last++) {
                int64_t off = b * c.bs + (last ? c.bs - 1 : 0);
                if (k.write ("f", &k.h[5].fi, one, off) != 1) fail ("write at %ld failed", (long)off);
                double u = usage_of (k), want = unit * (b / c.bpp + 1);
                if (fabs (u - want) > 1e-9 * (1 + want)) fail ("usage %.12g%% after writing byte %ld, expected %.12g%% (%d pages of %d blocks of %d)", u, (long)off, want, c.pages, c.bpp, c.bs);
                if (disk ()) fail ("%ld bytes were written back with the cache at %g%%", disk (), u);
            }
        if (steps < (c.pages - 1) * c.bpp + 1) { // large: fill it with big writes
            if (c.pages > 6000) return;
            Bytes page (c.bs * c.bpp, 9);
            for (long p = (steps + c.bpp - 1) / c.bpp; p < c.pages; p++) {
                Bytes d = p == c.pages - 1 ? Bytes (c.bs, 9) : page;
                if (k.write ("f", &k.h[5].fi, d, p * c.bs * c.bpp) != (int)d.size ()) fail ("write failed");
            }
            double u = usage_of (k);
            if (fabs (u - 100) > 1e-9) fail ("usage %.12g%% after caching %d pages, expected 100%%", u, c.pages);
        }
        if (disk ()) fail ("%ld bytes were written back although they fit the cache", disk ());
        // one block more: without eviction it cannot be cached, with eviction another page makes room
        int64_t off = (int64_t)c.pages * c.bs * c.bpp;
        if (k.write ("f", &k.h[5].fi, one, off) != 1) fail ("write beyond the cache failed");
        Bytes b;
        rs::read_file (k.root + "/f", b);
        bool direct = (int64_t)b.size () > off && b[off] == 7;
        if (!c.evict && !direct) fail ("a block beyond the cache is not in the backing store although eviction is off (size there %zu)", b.size ());
        if (c.evict && direct) fail ("a block beyond the cache went to the backing store directly although eviction is on");
        if (c.evict && b.empty ()) fail ("no page was evicted");
        double u = usage_of (k);
        if (u > 100 + 1e-9) fail ("usage %g%%", u);
        k.close_h (5);
        bump (CT_PROBES);
    });
}
static void gen_one (const Cfg&, int, Shard s, const CB& cb) {
    if (s.k == 0) cb (Case ());
}
static Reg c16a ({"C16", "geometry", "every combination of size, unit, blocks per page and eviction flag, and of block size, page size and number of pages: the cache filled byte by byte, usage and write-back compared with the geometry computed from the text",
    geo_cfgs, gen_one, run_geo, nullptr, 1});

// ---- injections --------------------------------------------------------------------------------------------------
enum FK { FT_OP, FT_SEQ, FT_CLEAR };
struct Inj {
    string label, text;
    bool valid;
    FK kind;
    int file;         // index of the name
    string op;        // clear: operation; path indices
    int to = -1;
    int occ = 1, last = 1; // torn-seq: last listed write
    bool after = false, crash = true;
    int from_key = 0; // what "one fault of a kind per file" looks at
};
static const vector<string> NM = {"a", "v", "l", "y", "m", "z"};
struct Step { Op op; string f; int a, b; };
static vector<Step> probe (int X, int L, int Y) {
    vector<Step> s;
    auto add = [&] (Op o, const char* f, int a = -1, int b = -1) { s.push_back ({o, f, a, b}); };
    add (mk (K_CREAT, X), "create", X);
    add (mk (K_HOPEN, X), "open", X);
    add (mk (K_WRITE, X, 0, 5), "write", X);
    add (mk (K_WRITE, X, 5, 5), "write", X);
    add (mk (K_WRITE, X, 3, 5), "write", X);
    add (mk (K_FSYNC, X), "fsync", X);
    add (mk (K_WRITE, X, 10, 5), "write", X);
    add (mk (K_READ, X, 0, 20), "read", X);
    add (mk (K_WRITE, X, 1, 5), "write", X);
    add (mk (K_TRUNC, X, 7), "truncate", X);
    add (mk (K_FSYNC, X), "fsync", X);
    add (mk (K_TRUNC, X, 12), "truncate", X);
    add (mk (K_READ, X, 0, 20), "read", X);
    add (mk (K_HCLOSE, X), "", X);
    add (mk (K_HOPEN, X), "open", X);
    add (mk (K_HCLOSE, X), "", X);
    add (mk (K_ACCESS, X), "access", X);
    add (mk (K_ACCESS, X), "access", X);
    add (mk (K_LINK, X, 0, 0, L), "link", X, L);
    add (mk (K_UNLINK, L), "unlink", L);
    add (mk (K_RENAME, X, 0, 0, Y), "rename", X, Y);
    add (mk (K_RENAME, Y, 0, 0, X), "rename", Y, X);
    add (mk (K_LINK, X, 0, 0, L), "link", X, L);
    add (mk (K_UNLINK, X), "unlink", X);
    return s;
}
static string P (int f) { return "\"{ROOT}/" + NM[f] + "\""; }
static Inj torn_op (const string& label, bool valid, int f, const string& occ, const string& parts, const string& persist, int o = 1, const string& file = "-") {
    Inj i;
    i.label = "torn-op " + label; i.valid = valid; i.kind = FT_OP; i.file = f; i.occ = o; i.from_key = f;
    i.text = "[[injection]]\ntype=\"torn-op\"\n";
    if (file == "-") i.text += "file=" + P (f) + "\n"; else i.text += file;
    if (!occ.empty ()) i.text += "occurrence=" + occ + "\n";
    if (!parts.empty ()) i.text += parts + "\n";
    if (!persist.empty ()) i.text += "persist=" + persist + "\n";
    return i;
}
static Inj torn_seq (const string& label, bool valid, int f, const string& op, const string& occ, const string& persist, int o = 1, int last = 1, const string& file = "-") {
    Inj i;
    i.label = "torn-seq " + label; i.valid = valid; i.kind = FT_SEQ; i.file = f; i.occ = o; i.last = last; i.from_key = f;
    i.text = "[[injection]]\ntype=\"torn-seq\"\n";
    if (file == "-") i.text += "file=" + P (f) + "\n"; else i.text += file;
    if (!op.empty ()) i.text += "op=" + op + "\n";
    if (!occ.empty ()) i.text += "occurrence=" + occ + "\n";
    if (!persist.empty ()) i.text += "persist=" + persist + "\n";
    return i;
}
// fields given as complete right-hand sides, "" = key missing
static Inj clear (const string& label, bool valid, const string& type, int from, int to, const string& op, const string& occ, const string& timing, const string& crash, bool raw_from = true) {
    Inj i;
    i.label = "clear " + label; i.valid = valid; i.kind = FT_CLEAR; i.file = from; i.to = to; i.from_key = from;
    i.occ = atoi (occ.c_str ()); i.after = timing == "\"after\""; i.crash = crash == "true";
    i.op = op.size () > 2 ? op.substr (1, op.size () - 2) : "";
    i.text = "[[injection]]\n";
    if (!type.empty ()) i.text += "type=" + type + "\n";
    if (raw_from && from >= 0) i.text += "from=" + P (from) + "\n";
    if (to >= 0) i.text += "to=" + P (to) + "\n";
    if (!op.empty ()) i.text += "op=" + op + "\n";
    if (!occ.empty ()) i.text += "occurrence=" + occ + "\n";
    if (!timing.empty ()) i.text += "timing=" + timing + "\n";
    if (!crash.empty ()) i.text += "crash=" + crash + "\n";
    return i;
}
static vector<Inj> valid_injections (int X, int L, int Y) {
    vector<Inj> v;
    for (int o : {1, 2, 3, 5, 9}) v.push_back (torn_op ("occurrence " + std::to_string (o), true, X, std::to_string (o), "parts=2", "[1]", o));
    for (int p : {1, 3, 5}) v.push_back (torn_op (std::to_string (p) + " parts", true, X, "2", "parts=" + std::to_string (p), "[1]", 2));
    for (string p : {"[2]", "[1,2]", "[2,1]"}) v.push_back (torn_op ("persist " + p, true, X, "2", "parts=2", p, 2));
    v.push_back (torn_op ("parts_bytes [3,2]", true, X, "2", "parts_bytes=[3,2]", "[2]", 2));
    v.push_back (torn_op ("parts_bytes [5]", true, X, "4", "parts_bytes=[5]", "[1]", 4));
    for (int o : {1, 2, 3}) v.push_back (torn_seq ("occurrence " + std::to_string (o), true, X, "\"write\"", std::to_string (o), "[2]", o, 2));
    v.push_back (torn_seq ("persist [1]", true, X, "\"write\"", "1", "[1]", 1, 1));
    v.push_back (torn_seq ("persist [3]", true, X, "\"write\"", "1", "[3]", 1, 3));
    v.push_back (torn_seq ("persist [1,3]", true, X, "\"write\"", "1", "[1,3]", 1, 3));
    v.push_back (torn_seq ("persist [3,1]", true, X, "\"write\"", "1", "[3,1]", 1, 3));
    v.push_back (torn_seq ("persist [2,1] of group 2", true, X, "\"write\"", "2", "[2,1]", 2, 2));
    for (string ty : {"\"clear-cache\"", "\"clear\""})
        for (string t : {"\"before\"", "\"after\""})
            for (string cr : {"true", "false"}) {
                for (string op : {"fsync", "write", "create", "open", "read", "truncate", "access", "unlink"})
                    for (string oc : {"1", "2", "4"}) {
                        if (oc == "4" && op != "write" && op != "fsync") continue;
                        if (ty == "\"clear\"" && (oc != "1" || t != "\"after\"")) continue;
                        v.push_back (clear (ty + " " + op + " " + oc + " " + t + " crash " + cr, true, ty, X, -1, "\"" + op + "\"", oc, t, cr));
                    }
                v.push_back (clear (ty + " link " + t + " crash " + cr, true, ty, X, L, "\"link\"", "2", t, cr));
                v.push_back (clear (ty + " rename " + t + " crash " + cr, true, ty, X, Y, "\"rename\"", "1", t, cr));
            }
    return v;
}
static vector<Inj> invalid_injections (int X, int Y) {
    vector<Inj> v;
    // what a valid one would do at once if it were armed
    for (string o : {"0", "-1", "", "\"1\"", "1.0", "[1]", "true"}) {
        v.push_back (torn_op ("bad occurrence (" + o + ")", false, X, o, "parts=2", "[1]"));
        v.push_back (torn_seq ("bad occurrence (" + o + ")", false, X, "\"write\"", o, "[1]"));
        v.push_back (clear ("bad occurrence (" + o + ")", false, "\"clear-cache\"", X, -1, "\"write\"", o, "\"before\"", "true"));
        v.push_back (clear ("bad occurrence (" + o + "), no crash", false, "\"clear-cache\"", X, -1, "\"write\"", o, "\"after\"", "false"));
    }
    for (string p : {"parts=0", "parts=-1", "parts=\"2\"", "", "parts=2\nparts_bytes=[3,2]", "parts_bytes=[0,5]", "parts_bytes=[5,0]", "parts_bytes=[-1,6]", "parts_bytes=[6,-1]", "parts_bytes=5", "parts_bytes=[\"5\"]"})
        v.push_back (torn_op ("bad parts (" + p + ")", false, X, "1", p, "[1]"));
    for (string p : {"[0]", "[3]", "[-1]", "[1,3]", "[0,1]", "[1,0]", "", "1", "\"1\"", "[\"1\"]"}) v.push_back (torn_op ("bad persist (" + p + ")", false, X, "1", "parts=2", p));
    for (string p : {"[3]", "[0]", "[1,3]"}) v.push_back (torn_op ("bad persist (" + p + ") for parts_bytes", false, X, "1", "parts_bytes=[3,2]", p));
    // every persist list of up to 3 numbers of which one is out of range
    vector<vector<int>> lists = {{}};
    for (size_t i = 0; i < lists.size (); i++)
        if (lists[i].size () < 3)
            for (int x : {0, 1, 2, 3}) { lists.push_back (lists[i]); lists.back ().push_back (x); }
    for (auto& l : lists) {
        if (l.size () < 2) continue;
        string t = "[";
        bool zero = false, three = false;
        for (int x : l) { t += (t.size () > 1 ? "," : "") + std::to_string (x); zero |= x == 0; three |= x == 3; }
        t += "]";
        if (zero || three) {
            v.push_back (torn_op ("bad persist (" + t + ")", false, X, "1", "parts=2", t));
            v.push_back (torn_op ("bad persist (" + t + ") for parts_bytes", false, X, "1", "parts_bytes=[3,2]", t));
        }
        if (zero) v.push_back (torn_seq ("bad persist (" + t + ")", false, X, "\"write\"", "1", t));
    }
    for (string p : {"[1,2,3,4]", "[4,3,2,1]", "[1,2,1,2,3]", "[2,1,-1,1]"}) v.push_back (torn_op ("bad persist (" + p + ")", false, X, "1", "parts=2", p));
    v.push_back (torn_op ("without file", false, X, "1", "parts=2", "[1]", 1, ""));
    v.push_back (torn_op ("file not a string", false, X, "1", "parts=2", "[1]", 1, "file=3\n"));
    for (string p : {"[0]", "[-1]", "[0,2]", "[2,0]", "", "2", "\"2\""}) v.push_back (torn_seq ("bad persist (" + p + ")", false, X, "\"write\"", "1", p));
    for (string p : {"\"read\"", "\"fsync\"", "\"\"", "", "\"Write\"", "\"write \"", "1"}) v.push_back (torn_seq ("bad op (" + p + ")", false, X, p, "1", "[2]"));
    v.push_back (torn_seq ("without file", false, X, "\"write\"", "1", "[2]", 1, 2, ""));
    for (string p : {"\"mkdir\"", "\"foo\"", "\"\"", "", "\"Write\"", "\"none\"", "1"})
        v.push_back (clear ("bad op (" + p + ")", false, "\"clear-cache\"", X, -1, p, "1", "\"before\"", "true"));
    for (string p : {"\"during\"", "\"\"", "", "\"Before\"", "1"}) v.push_back (clear ("bad timing (" + p + ")", false, "\"clear-cache\"", X, -1, "\"write\"", "1", p, "true"));
    for (string p : {"", "\"true\"", "1"}) v.push_back (clear ("bad crash (" + p + ")", false, "\"clear-cache\"", X, -1, "\"write\"", "1", "\"before\"", p));
    v.push_back (clear ("without from", false, "\"clear-cache\"", X, -1, "\"write\"", "1", "\"before\"", "true", false));
    v.push_back (clear ("with to for one path", false, "\"clear-cache\"", X, Y, "\"write\"", "1", "\"before\"", "true"));
    v.push_back (clear ("rename without to", false, "\"clear-cache\"", X, -1, "\"rename\"", "1", "\"before\"", "true"));
    v.push_back (clear ("rename without from", false, "\"clear-cache\"", X, Y, "\"rename\"", "1", "\"before\"", "true", false));
    v.push_back (clear ("link without to", false, "\"clear-cache\"", X, -1, "\"link\"", "1", "\"after\"", "true"));
    for (string p : {"\"Clear\"", "\"crash\"", "\"\"", "", "1", "\"torn\"", "\"clear_cache\""})
        v.push_back (clear ("bad type (" + p + ")", false, p, X, -1, "\"write\"", "1", "\"before\"", "true"));
    return v;
}
static std::map<string, vector<Inj>>& plans () { static std::map<string, vector<Inj>> m; return m; }
static Cfg inj_cfg (const vector<Inj>& l, bool rot) {
    Cfg c;
    c.names = NM;
    c.bs = 4; c.pages = 64;
    c.capture = true;
    for (size_t i = 0; i < l.size (); i++) {
        c.extra += l[i].text;
        c.name += (i ? " + " : "") + l[i].label + " on " + NM[l[i].file];
    }
    c.p1 = rot;
    plans ()[c.name] = l;
    return c;
}
static vector<Cfg> inj_single (int) {
    vector<Cfg> v;
    for (auto& i : valid_injections (0, 2, 3)) v.push_back (inj_cfg ({i}, false));
    return v;
}
static vector<Inj> witnesses (int X) {
    return {torn_op ("witness", true, X, "2", "parts=2", "[1]", 2), torn_seq ("witness", true, X, "\"write\"", "1", "[1,3]", 1, 3), clear ("witness", true, "\"clear-cache\"", X, -1, "\"fsync\"", "2", "\"after\"", "true"),
            clear ("witness without crash", true, "\"clear-cache\"", X, -1, "\"write\"", "4", "\"before\"", "false")};
}
static vector<Cfg> inj_invalid (int tier) {
    vector<Cfg> v;
    for (auto& i : invalid_injections (0, 3)) {
        v.push_back (inj_cfg ({i}, false));
        size_t n = 0;
        for (auto& w : witnesses (1)) {
            v.push_back (inj_cfg ({i, w}, false));
            v.push_back (inj_cfg ({w, i}, false));
            if (tier) v.push_back (inj_cfg ({w, i, witnesses (4)[(n + 1) % 4]}, false));
            n++;
        }
        for (auto& w : witnesses (0)) { // for the same file: it must not count as that file's fault
            v.push_back (inj_cfg ({i, w}, false));
            if (tier) v.push_back (inj_cfg ({w, i}, false));
        }
    }
    return v;
}
static vector<Cfg> inj_pairs (int tier) {
    vector<Cfg> v;
    // two faults for one file: of one kind (the second is ignored) or of two kinds (both in force)
    vector<Inj> p = {torn_op ("first", true, 0, "3", "parts=2", "[1]", 3), torn_op ("second", true, 0, "1", "parts=1", "[1]", 1), torn_op ("bytes", true, 0, "4", "parts_bytes=[2,3]", "[2]", 4),
                     torn_seq ("first", true, 0, "\"write\"", "2", "[2]", 2, 2), torn_seq ("second", true, 0, "\"write\"", "1", "[2]", 1, 2),
                     clear ("fsync 2", true, "\"clear-cache\"", 0, -1, "\"fsync\"", "2", "\"after\"", "true"), clear ("read 1", true, "\"clear-cache\"", 0, -1, "\"read\"", "1", "\"before\"", "true"), clear ("link", true, "\"clear-cache\"", 0, 2, "\"link\"", "1", "\"after\"", "true"),
                     clear ("write 3 no crash", true, "\"clear-cache\"", 0, -1, "\"write\"", "3", "\"after\"", "false")};
    for (size_t i = 0; i < p.size (); i++)
        for (size_t j = 0; j < p.size (); j++)
            if (i != j) {
                v.push_back (inj_cfg ({p[i], p[j]}, false));
                for (size_t l = 0; l < p.size (); l++)
                    if (l != i && l != j && (tier || l % 3 == 0)) v.push_back (inj_cfg ({p[i], p[j], p[l]}, false));
            }
    // one for each of two files
    auto A = valid_injections (0, 2, 3), B = tier ? valid_injections (1, 4, 5) : witnesses (1);
    for (size_t i = 0; i < A.size (); i++)
        for (size_t j = 0; j < A.size (); j++)
            if (i != j && (tier || (i + j) % 7 == 0 || A[i].kind != A[j].kind)) {
                bool mix = (A[i].kind == FT_SEQ && A[j].kind == FT_CLEAR && !A[j].crash) || (A[j].kind == FT_SEQ && A[i].kind == FT_CLEAR && !A[i].crash);
                if (!mix) v.push_back (inj_cfg ({A[i], A[j]}, false)); // (a clear inside a torn-seq group is not specified)
            }
    for (auto& a : A)
        for (auto& b : B) { v.push_back (inj_cfg ({a, b}, false)); v.push_back (inj_cfg ({b, a}, false)); }
    return v;
}
static void run_inj (const Cfg& c, const Case&) {
    const vector<Inj>& all = plans ()[c.name];
    vector<Inj> act;
    for (auto& i : all) {
        if (!i.valid) continue;
        bool dup = false;
        for (auto& x : act) dup |= x.kind == i.kind && x.from_key == i.from_key;
        if (!dup) act.push_back (i);
    }
    { // the ignored ones, and only those, are answered with an error
        Kernel k;
        string log = k.read_log ();
        size_t n = 0;
        for (size_t p = 0; (p = log.find ("[error]", p)) != string::npos; p++) n++;
        if (act.size () == all.size () && n) throw Violation{"an error is reported although every injection is valid"};
        if (n < all.size () - act.size ()) throw Violation{std::to_string (n) + " errors reported for " + std::to_string (all.size () - act.size ()) + " ignored injections"};
    }
    vector<Step> steps = probe (1, 4, 5), s2 = probe (0, 2, 3);
    steps.insert (steps.end (), s2.begin (), s2.end ());
    // what is due at each step
    int kill = -1;
    bool kill_before = false, kill_clear = false;
    string kill_by;
    std::set<int> clear_before, clear_after;
    for (auto& i : act) {
        int n = 0, group = 0, in_group = 0, at = -1;
        for (size_t s = 0; s < steps.size () && at < 0; s++) {
            const Step& t = steps[s];
            if (i.kind == FT_CLEAR) {
                if (t.f == i.op && t.a == i.file && (i.to < 0 || t.b == i.to) && ++n == i.occ) at = s;
            } else if (i.kind == FT_OP) {
                if (t.f == "write" && t.a == i.file && ++n == i.occ) at = s;
            } else {
                if (t.a != i.file) continue;
                if (t.f == "fsync") in_group = 0;
                if (t.f == "write") {
                    if (++in_group == 2) group++;
                    if (in_group >= 2 && group == i.occ && in_group == std::max (2, i.last)) at = s;
                }
            }
        }
        if (at < 0) continue;
        bool before = i.kind == FT_CLEAR && !i.after;
        if (i.kind == FT_CLEAR && !i.crash) (before ? clear_before : clear_after).insert (at);
        else if (kill < 0 || at < kill || (at == kill && before && !kill_before)) { kill = at; kill_before = before; kill_clear = i.kind == FT_CLEAR; kill_by = i.label; }
        else if (at == kill && i.kind != FT_CLEAR && !kill_before) kill_clear = false; // both at one write: what is torn is for C13/C14
    }
    bool torn = false; // (a torn-seq fault persists listed writes before its crash: the backing store is then for C14 to judge)
    for (auto& i : act) torn |= i.kind == FT_SEQ;
    prepare_root (c, shim::root);
    volatile int* where = (volatile int*)shared_scratch ();
    *where = -1;
    End e = spawn ([&] {
        Exec x (c);
        if (torn) x.judge = J_RC;
        x.start ();
        for (size_t s = 0; s < steps.size (); s++) {
            *where = s;
            if (clear_before.count (s)) x.m.do_clear ();
            if (!clear_after.count (s)) { x.apply (steps[s].op); continue; }
            Res want = x.m.apply (steps[s].op), got = x.k.apply (steps[s].op, x.step++);
            if (want.rc != got.rc) fail ("%s returned %d, expected %d", fmt_op (c, steps[s].op).c_str (), got.rc, want.rc);
            x.m.do_clear ();
            if (torn) x.adopt ();
            else x.check_disk ("after the clear fault");
            x.check_view ("after the clear fault", 0);
        }
        x.check_view ("at the end", 0);
    });
    bump (CT_INJECT, all.size ());
    if (kill < 0) {
        if (e != E_OK) throw Violation{"LazyFS was killed at step " + std::to_string (*where + 1) + " although no fault in force is due"};
        return;
    }
    if (e != E_SELFKILL) throw Violation{"the fault '" + kill_by + "' was due at step " + std::to_string (kill + 1) + " but LazyFS was not killed"};
    if (*where != kill) throw Violation{"LazyFS was killed at step " + std::to_string (*where + 1) + ", the fault '" + kill_by + "' was due at step " + std::to_string (kill + 1)};
    if (!kill_clear || torn) return;
    Model m;
    m.init (c);
    for (int s = 0; s < kill + (kill_before ? 0 : 1); s++) {
        if (clear_before.count (s)) m.do_clear ();
        m.apply (steps[s].op);
        if (clear_after.count (s)) m.do_clear ();
    }
    for (auto& h : m.h) h.open = false;
    m.do_clear ();
    string d = disk_mismatch (m, shim::root);
    if (!d.empty ()) throw Violation{"after the crash: " + d};
}
static string fmt_inj (const Cfg& c, const Case&) { return "[" + c.name + "] probe of 24 operations on v, then on a"; }
static Reg c16b ({"C16", "injections-valid", "every valid injection of a grammar over all kinds, operations, timings, occurrences and values: it fires exactly where it should in a probe of 48 operations on two files", inj_single, gen_one, run_inj, fmt_inj, 1});
static Reg c16c ({"C16", "injections-invalid", "every single-field defect (missing key, out-of-range or ill-typed value, unknown type, operation or timing) alone and next to each kind of valid injection, in both orders, for the same and another file", inj_invalid, gen_one, run_inj, fmt_inj, 1});
static Reg c16d ({"C16", "injections-several", "pairs and triples of injections for one file (a second one of a kind is ignored, several kinds are in force together) and for two files, in every order", inj_pairs, gen_one, run_inj, fmt_inj, 1});

// ---- FIFO paths and the command line ------------------------------------------------------------------------------
static std::map<string, vector<string>>& argvs () { static std::map<string, vector<string>> m; return m; }
static vector<Cfg> cmd_cfgs (int) {
    vector<Cfg> v;
    auto add = [&] (const string& name, vector<string> a, const string& conf = "c.toml") {
        Cfg c = geo (name, 4, 1, 64, {{0, 5}});
        c.capture = true;
        c.argv = a;
        c.conf_name = conf;
        v.push_back (c);
    };
    vector<string> base = {"-o", "modules=subdir", "-o", "subdir={ROOT}", "-f"};
    vector<vector<string>> extras = {{}, {"-o", "allow_other"}, {"-o", "allow_other", "-o", "auto_unmount"}, {"-s", "-d", "-o", "allow_other", "-o", "default_permissions", "-o", "max_read=4096"}};
    for (auto& x : extras)
        for (size_t pos = 1; pos <= 2 + base.size () + x.size (); pos++) { // where --config-path stands
            vector<string> a = {"lazyfs", "mnt"};
            a.insert (a.end (), x.begin (), x.end ());
            a.insert (a.end (), base.begin (), base.end ());
            if (pos > a.size ()) continue;
            a.insert (a.begin () + pos, {"--config-path", "{CONF}"});
            add ("config path at position " + std::to_string (pos) + " of " + std::to_string (a.size ()), a);
        }
    // no path given: config/default.toml is used
    add ("no --config-path", {"lazyfs", "mnt", "-o", "modules=subdir", "-o", "subdir={ROOT}", "-f"}, "config/default.toml");
    add ("--config-path without a path, last", {"lazyfs", "mnt", "-o", "modules=subdir", "-o", "subdir={ROOT}", "-f", "--config-path"}, "config/default.toml");
    add ("--config-path without a path, before -o", {"lazyfs", "mnt", "-f", "--config-path", "-o", "modules=subdir", "-o", "subdir={ROOT}"}, "config/default.toml");
    for (string n : {"c-o.toml", "x-osubdir.toml", "my config.toml", "c.toml.bak", "config-path", "o", "#c.toml"}) {
        vector<string> a = {"lazyfs", "mnt", "--config-path", "{CONF}"};
        a.insert (a.end (), base.begin (), base.end ());
        add ("config file '" + n + "'", a, n);
    }
    return v;
}
static void run_cmdline (const Cfg& c, const Case&) {
    vector<string> want;
    for (size_t i = 0; i < c.argv.size (); i++) {
        if (c.argv[i] == "--config-path") {
            if (i + 1 < c.argv.size () && c.argv[i + 1].compare (0, 2, "-o")) i++;
            continue;
        }
        string a = c.argv[i];
        size_t p = a.find ("{ROOT}");
        if (p != string::npos) a = a.substr (0, p) + shim::root + a.substr (p + 6);
        want.push_back (a);
    }
    if (fuse_args != want) {
        string s;
        for (auto& a : fuse_args) s += " " + a;
        throw Violation{"the arguments passed on to FUSE are" + s};
    }
    prepare_root (c, shim::root);
    spawn_ok ([&] { // the configuration is in force: its FIFO answers and its block size and page number count
        Exec e (c);
        e.start ();
        e.apply (mk (K_WRITE, 0, 0, 9));
        double u = usage_of (e.k);
        if (fabs (u - 100.0 * 3 / 64) > 1e-9) fail ("usage %g%% for three blocks", u);
        e.apply (mk (K_CLEAR));
        e.check_view ("after clear-cache", 0);
    });
}
static Reg c16e ({"C16", "command-line", "--config-path at every position of command lines with 0-8 further arguments and several file names: the file is used and every other argument reaches FUSE", cmd_cfgs, gen_one, run_cmdline, nullptr, 1});
static vector<Cfg> fifo_cfgs (int) {
    vector<Cfg> v;
    for (int comp = 0; comp < 4; comp++) // absent, given, empty, already existing
        for (int pre = 0; pre < 2; pre++)
            for (int log = 0; log < 3; log++) {
                Cfg c = geo (string (comp == 0 ? "no completed fifo" : comp == 1 ? "completed fifo" : comp == 2 ? "empty completed fifo" : "completed fifo first") + (pre ? ", comments" : "") + (log == 0 ? ", no [filesystem]" : log == 1 ? ", logging" : ", no logging"), 4, 1, 64, {{0, 5}});
                c.capture = true;
                string t = pre ? "# comment\n[faults] # x\n" : "[faults]\n";
                if (comp == 3) t += "fifo_path_completed=\"{FIFOC}\"\n";
                t += "fifo_path=\"{FIFO}\"\n";
                if (comp == 1) t += "fifo_path_completed=\"{FIFOC}\"\n";
                if (comp == 2) t += "fifo_path_completed=\"\"\n";
                t += "[cache]\napply_eviction=false\n[cache.manual]\nio_block_size=4\npage_size=4\nno_pages=64\n";
                if (log) t += string ("[filesystem]\nlog_all_operations=") + (log == 1 ? "true" : "false") + "\nlogfile=\"\"\n";
                c.raw = t;
                c.completed = comp == 1 || comp == 3;
                c.p1 = log == 1;
                v.push_back (c);
                if (pre) continue;
                for (int f = 1; f < (c.completed ? 4 : 2); f++) { // left by an earlier run
                    Cfg d = c;
                    d.pre_fifo = f;
                    d.name += f == 1 ? ", command fifo exists" : f == 2 ? ", completion fifo exists" : ", both exist";
                    v.push_back (d);
                }
                if (log) { // a logfile that cannot be created: standard output alone
                    Cfg d = c;
                    d.name += ", impossible logfile";
                    size_t p = d.raw.find ("logfile=\"\"");
                    d.raw.replace (p, 10, "logfile=\"{FIFO}/log\"");
                    v.push_back (d);
                }
            }
    return v;
}
static void run_fifo_cfg (const Cfg& c, const Case&) {
    prepare_root (c, shim::root);
    struct stat st;
    string f = shim::root + ".fifo";
    if (rs::lstat (f.c_str (), &st) || !S_ISFIFO (st.st_mode)) throw Violation{"the command FIFO was not created"};
    bool have = rs::lstat ((f + "c").c_str (), &st) == 0 && S_ISFIFO (st.st_mode);
    if (have != c.completed) throw Violation{have ? "a completion FIFO exists though none is configured" : "the configured completion FIFO was not created"};
    spawn_ok ([&] {
        Exec e (c);
        e.start ();
        e.k.truncate_log ();
        e.apply (mk (K_WRITE, 0, 1, 7));
        e.apply (mk (K_READ, 0, 0, 7));
        e.apply (mk (K_RENAME, 0, 0, 0, 1));
        string log = e.k.read_log ();
        for (string w : {"lfs_write(", "lfs_read(", "lfs_rename(", "lfs_open("}) {
            bool logged = log.find ("[lazyfs.ops]: " + w) != string::npos;
            if (logged != (bool)c.p1) fail ("%s) %s logged although log_all_operations is %s", w.c_str (), logged ? "is" : "is not", c.p1 ? "true" : "not set");
        }
        e.apply (mk (K_CLEAR));
        if (c.completed) {
            string s = e.k.read_completed ();
            if (s != "finished::clear-cache\n") fail ("the completion FIFO carried '%s'", s.c_str ());
        }
        e.check_view ("after clear-cache", 0);
    });
}
static Reg c16f ({"C16", "fifos-and-logging", "command and completion FIFO given, omitted, empty, in both orders, existing already; a logfile that cannot be created; log_all_operations on, off and omitted", fifo_cfgs, gen_one, run_fifo_cfg, nullptr, 1});
