// Happens-before race detection for the C19 build: LazyFS is compiled with -fsanitize=thread, whose calls come here
// (not to the ThreadSanitizer runtime). Only operation threads and the command thread of the controlled scheduler count,
// and only while it runs; memory freed meanwhile is never reused, so that uses of it are seen.
#pragma once
#include <cstddef>
#include <cstdint>
namespace race {
extern int on;                                          // set by the scheduler
void begin (int threads);                               // everything before: ordered
void thread_begin (int id);
void thread_end ();                             // called by the thread
void acquire (int id, void* lock, bool wr);             // id was given the lock
void release (int id, void* lock, bool wr);
void access (void* p, size_t n, bool wr, void* pc);     // by the calling thread
bool freed (void* p, size_t n, void* pc);               // true: keep the memory
struct Quiet { bool was; Quiet (); ~Quiet (); };        // scope: not LazyFS code
bool found ();
struct Report { int kind; int t1, t2, w1, w2; void *pc1[40], *pc2[40]; uintptr_t addr; size_t n; }; // kind 1 race, 2 use of freed memory, 3 double free
const Report& report ();
} // namespace race
