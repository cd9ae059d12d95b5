// Controlled scheduler: exactly one registered thread runs at a time; every lock operation, backing-store call and
// operation boundary of LazyFS code is a scheduling point whose outcome is chosen by a given prefix of choices
// (then: keep running / lowest thread), and every choice made is recorded so that the explorer can enumerate all.
#pragma once
#include <atomic>
#include <cstdint>
namespace shim {
constexpr int MAXT = 6;
constexpr int MAXD = 2000;
enum EvKind { EV_NONE, EV_STEP, EV_RD, EV_WR, EV_FIFO, EV_DONE };
struct Decision {
    uint8_t n;       // number of enabled threads (alternatives)
    uint8_t chosen;  // index among alternatives
    uint8_t cur_enabled; // the running thread could have continued
    uint8_t alts[MAXT];
};
constexpr int MAXE = 20000;
struct Ev {          // what a step did, for the reduction of equivalent schedules
    uint8_t tid, how; // how: F_*
    uint16_t obj;     // objects are numbered in the order of their first appearance
    uint16_t ndec;    // decisions made so far
};
enum { F_R = 1, F_W = 2, F_TRY = 4, F_GO = 8, F_BEGIN = 16 }; // reads / changes the object, is about to, starts to run with it, an operation begins
struct SchedTrace { // shared with the explorer
    int ndec;
    int deadlock;
    int overflow;
    int diverged;
    int blocked_on[MAXT];
    Decision dec[MAXD];
    int nev;
    Ev ev[MAXE];
    int prefix_len;
    uint8_t prefix[MAXD];
};
void sched_enable (SchedTrace* tr, int nthreads); // threads 0..nthreads-1 plus the FIFO worker = nthreads
void sched_thread_begin (int id);                 // called by op thread: waits for its turn
void sched_thread_end ();
void sched_point (int kind, void* addr);          // scheduling point of the calling thread
void sched_run ();                                // harness main thread: start and wait for completion
bool sched_on ();
extern char OBJ_BACKING, OBJ_CLOCK, OBJ_NODES;
void sched_begin ();                              // an operation begins
void sched_touch (const void* obj, bool wr);      // the running step reads or changes something that others may, too
long sched_tick ();                               // a moment other threads' operations may lie before or after
long sched_clock ();                              // logical time (number of scheduling points so far)
} // namespace shim
