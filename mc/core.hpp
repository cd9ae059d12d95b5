// Reference model, kernel-side emulation and lockstep execution.
#pragma once
#include "shim.hpp"
#include "sys.hpp"
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

typedef std::vector<uint8_t> Bytes;

// ---- operations ------------------------------------------------------------------------------------------------
enum OpKind : uint8_t {
    K_NOP,
    K_HOPEN,   // persistent handle on name a, f = flag variant
    K_HCLOSE,  // close the newest handle on name a (a==254: newest orphan)
    K_WRITE,   // name a (handle if one is open, else open/write/close); off,len
    K_READ,    // name a; off,len
    K_TRUNC,   // name a; off=new size; f=1: by path even if a handle is open
    K_FSYNC,   // name a; f=1: fdatasync
    K_CLEAR,   // lazyfs::clear-cache over the FIFO
    K_CKPT,    // lazyfs::cache-checkpoint
    K_UNLINK,
    K_RENAME,  // a -> b
    K_LINK,    // a -> b
    K_SYMLINK, // target "t", new name b
    K_MKDIR,
    K_RMDIR,
    K_STAT,    // getattr a
    K_UTIMENS, // a; f variant
    K_CHMOD,
    K_CHOWN,
    K_ACCESS,
    K_READDIR,
    K_READLINK,
    K_REPORT,
    K_USAGE,
    K_CMD,     // command table entry off
    K_CREAT,   // create+close name a
    K_LSEEK,
    K_MAX
};
struct Op {
    uint8_t k, a, b, f;
    int64_t off, len;
};
inline Op mk (OpKind k, int a = 0, int64_t off = 0, int64_t len = 0, int b = 0, int f = 0) {
    return Op{(uint8_t)k, (uint8_t)a, (uint8_t)b, (uint8_t)f, off, len};
}
typedef std::vector<Op> Hist;

// open flag variants
enum { F_RDWR, F_RDONLY, F_WRONLY, F_RDWR_TRUNC, F_WRONLY_TRUNC, F_RDWR_APPEND, F_WRONLY_APPEND, F_CREAT_RDWR, F_CREAT_WRONLY, F_CREAT_TRUNC, F_CREAT_APPEND, F_EXCL };
int flag_bits (int f);

struct InjSpec; // (scenario specific)
struct Cfg {
    std::string name;
    int bs = 4, bpp = 1, pages = 64;
    bool evict = false;
    bool completed = false; // fifo_path_completed
    bool log_ops = false;
    bool capture = false;   // keep LazyFS's log output readable by the run
    std::string extra;      // extra TOML appended ({ROOT} is replaced)
    std::string raw;        // complete TOML instead ({ROOT},{FIFO},{FIFOC} replaced)
    std::vector<std::string> names = {"a", "b"};
    std::vector<std::pair<int, int>> pre; // preexisting files: (name index, size)
    std::vector<std::string> predirs;
    std::vector<std::pair<std::string, std::string>> presym, prelink;
    std::vector<std::string> cmds; // for K_CMD
    bool weak = false;      // capacity may be exceeded: data may be durable early
    int64_t p1 = 0, p2 = 0, p3 = 0; // scenario parameters
    std::vector<int64_t> pv;
    std::vector<std::string> argv;  // complete command line instead ({CONF}, {ROOT} are replaced)
    std::string conf_name = "c.toml"; // file name of the configuration
    int pre_fifo = 0;               // FIFOs that exist before LazyFS starts: 1 command, 2 completion
};
std::string fmt_op (const Cfg& c, const Op& o);
std::string fmt_hist (const Cfg& c, const Hist& h);

// ---- model -----------------------------------------------------------------------------------------------------
enum MT : uint8_t { MT_REG, MT_DIR, MT_LNK };
struct MI {
    MT type = MT_REG;
    Bytes cur, dur;
    int nlink = 1;
    unsigned mode = 0644, uid = 0, gid = 0;
    std::string target;
    // values that may legitimately be on disk besides `dur` (weak mode, failed/torn syncs)
    std::vector<std::set<uint8_t>> alt;
    int64_t smin = 0, smax = 0; // sizes since last sync
    bool loose = false;         // alt/smin/smax are meaningful
    bool resized = false;       // truncated since the last sync
    // blocks written since last sync (report/usage oracles): block -> highest byte index written + 1
    std::map<int64_t, int> dirty;
    std::map<int64_t, int> cached; // blocks in cache (capacity never exceeded)
    // times
    int mt_state = 0; // 0 unknown; 1 exactly mt; 2 >= lower bound
    struct timespec mt{}, at{};
    int at_state = 0;
};
struct MH { bool open = false; int ino = -1; std::string path; int f = 0; bool orphan = false; };
struct Res {
    int rc = 0;
    Bytes data;
    bool has_data = false;
};
struct Model {
    std::map<std::string, int> ns;
    std::vector<MI> in;
    MH h[6];
    int step = 0;
    int bs   = 4;
    bool weak = false;
    const Cfg* cfg = nullptr;

    void init (const Cfg& c);
    int lookup (const std::string& p) const { auto it = ns.find (p); return it == ns.end () ? -1 : it->second; }
    int handle_on (const std::string& p) const; // newest open handle with that path or -1
    int orphan () const;
    bool enabled (const Op& o) const;
    Res apply (const Op& o); // expected outcome; advances the model
    void note (MI& m, int64_t pos); // record current value of pos as possible on disk
    void do_write (MI& m, int64_t off, const Bytes& d);
    void do_trunc (MI& m, int64_t n);
    void do_sync (MI& m);
    void do_clear ();
    void loosen (MI& m);
    uint64_t hash () const;
    static Bytes payload (int step, int64_t off, int64_t len);
};

// ---- kernel side -----------------------------------------------------------------------------------------------
struct KH { bool open = false; std::string path; struct fuse_file_info fi; int f; bool orphan = false; };
struct Kernel {
    std::string root;
    KH h[6];
    int hidden = 0;
    std::string fifo;
    int fifo_fd = -1, fifoc_fd = -1;
    int log_fd = -1;
    const Cfg* cfg = nullptr;

    void mount ();             // init operation, waits for the fault worker
    void command (const std::string& s, bool wait = true); // writes s + "\n"
    bool wait_idle (int ms = 8000);
    int lookup (const std::string& p, struct stat* st);
    int open_h (int slot, const std::string& p, int f, bool lookup_first = true);
    int close_h (int slot);
    int write (const std::string& p, fuse_file_info* fi, const Bytes& d, int64_t off);
    int read (const std::string& p, fuse_file_info* fi, Bytes& out, int64_t off, int64_t len);
    int handle_on (const std::string& p);
    int orphan ();
    int unlink (const std::string& p);
    int rename (const std::string& a, const std::string& b);
    Res apply (const Op& o, int step);
    std::string path (const std::string& n) const { return n.empty () ? root : root + "/" + n; }
    std::string read_log ();
    void truncate_log ();
    std::string read_completed ();
};

// ---- lockstep --------------------------------------------------------------------------------------------------
[[noreturn]] void fail (const char* fmt, ...) __attribute__ ((format (printf, 1, 2)));
// what a run judges (each property looks at its own observables only)
enum Judge : unsigned {
    J_RC         = 1,   // return values and read data
    J_DISK       = 2,   // the backing store after every operation
    J_DISK_SYNC  = 4,   // the backing store right after fsync / checkpoint
    J_DISK_CLEAR = 8,   // the backing store right after clear-cache
    J_ADOPT_SYNC = 16,  // take what fsync / checkpoint wrote as given
    J_ADOPT_CLEAR = 32, // take what is on disk at clear-cache as given
    J_NAMES      = 64,  // (with adopting) the tree itself is judged
    J_ALL        = J_RC | J_DISK
};
struct Exec {
    const Cfg& cfg;
    unsigned judge = J_ALL;
    Model m;
    Kernel k;
    int step = 0;
    bool no_nlink = false;     // link counts are not judged
    explicit Exec (const Cfg& c);
    void start ();             // create preexisting objects was done by the host; mounts
    void apply (const Op& o);  // both sides, compare
    void check_disk (const char* when);
    void check_view (const char* when, int subranges); // 0: whole file, 1: + all subranges of small files
    void check_attr (const char* when, bool times = false);
    void adopt (int name = -1); // take the disk content (of one name) as the new reference
    void adopt_dur (int ino);  // ... as the synced content only
    void run (const Hist& h);
    void clear_and_check (int subranges);
};
void prepare_root (const Cfg& c, const std::string& root);
std::string hex (const Bytes& b, size_t max = 48);
// compare a disk image with the model, return "" or a description
std::string disk_mismatch (const Model& m, const std::string& root);
