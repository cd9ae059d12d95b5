// Interposition layer between the LazyFS objects and libc / libfuse.
#pragma once
#define FUSE_USE_VERSION 31
#include <atomic>
#include <fuse3/fuse.h>
#include <string>
#include <sys/stat.h>

namespace shim {
// ---- captured libfuse entry -----------------------------------------------------------------------------------
extern const struct fuse_operations* ops;
extern void* private_data;
extern void (*on_fuse_main) (int argc, char** argv); // called inside the real main(), must not return

// ---- which threads are the harness ----------------------------------------------------------------------------
extern thread_local int tl_harness; // >0: calls of this thread are the harness's own
struct InFs { // scope: this thread now runs LazyFS code
    int saved;
    InFs () : saved (tl_harness) { tl_harness = 0; }
    ~InFs () { tl_harness = saved; }
};

// ---- backing calls --------------------------------------------------------------------------------------------
enum Kind { C_OPEN, C_READ, C_WRITE, C_TRUNC, C_SYNC, C_STAT, C_NAMES, C_ATTR, C_OTHER };
struct Plan {
    // counting: calls matching `mask` (bit per Kind) made by LazyFS threads
    unsigned mask   = 0;
    bool mutating   = false; // count only calls that modify the backing store
    long at         = -1;    // act on the at-th counted call (0-based)
    int action      = 0;     // 1 = fail with err, 2 = short I/O of n bytes, 3 = kill before, 4 = kill after n bytes
    int err         = 0;
    long n          = 0;
    bool armed      = false;
};
extern Plan plan;
extern std::atomic<long> counted;
extern std::atomic<long> acted;
struct CallRec { int kind; long bytes; char what[24]; };
extern CallRec trace[4096]; // the counted calls, for planning crash/torn points
void plan_reset ();

extern std::string root;         // backing directory (virtual inode numbers apply below it)
extern std::atomic<long> bad_close;  // a descriptor LazyFS closed without it being open
extern std::atomic<int>* killed; // shm: set when LazyFS sends itself SIGKILL
// ---- FIFO worker ----------------------------------------------------------------------------------------------
extern std::atomic<int> worker_idle;      // the fault worker waits in read() on an empty FIFO
extern std::atomic<int> worker_seen;      // a wrapped read on a FIFO happened
extern std::atomic<int> fifo_pause;       // hold LazyFS right after it has written to a FIFO
extern std::atomic<int> fifo_paused;
extern std::atomic<long> worker_read_seq; // number of reads on the FIFO completed
// ---- virtual inode numbers ------------------------------------------------------------------------------------
extern bool vino_on;
// ---- controlled scheduler -------------------------------------------------------------------------------------
struct Sched;
extern Sched* sched; // null: off
} // namespace shim
