#include "race.hpp"
#include "sched.hpp"
#include "shim.hpp"
#include <atomic>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>
namespace race {
using shim::MAXT;
int on = 0;
static uint32_t vc[MAXT][MAXT];
struct Clk { uint32_t c[MAXT]; };
static std::unordered_map<void*, Clk>*wrel, *rrel; // clocks released by writers / readers of a lock
static thread_local int me = -1;
static thread_local uintptr_t st_lo, st_hi;
static thread_local bool busy = false, done = false; // (done: runs at the same time as others)
static Report rep;
struct Frame { Frame* up; void* pc; };
static thread_local Frame* top;
struct Entry { uint8_t tid, mask, wr, freed; uint32_t clk; void* pc; Frame* at; };
constexpr int NE = 6;
struct Cell { uint8_t n; Entry e[NE]; };
struct Pg { Cell* cell[512]; };
static Pg** dir;          // (addr >> 12) hashed
static uintptr_t* dirkey;
constexpr size_t DIRN = 1 << 14;
static char* pool;
static std::atomic<size_t> pool_top;
constexpr size_t POOL = (size_t)1 << 30;

static void* take (size_t n) {
    n = (n + 15) & ~(size_t)15;
    size_t at = pool_top.fetch_add (n);
    if (at + n > POOL) abort ();
    return pool + at;
}
static Cell* cell (uintptr_t g) { // g: granule (address / 8)
    uintptr_t k = g >> 9;
    size_t h = (k * 0x9E3779B97F4A7C15ull) >> 50;
    while (dirkey[h] && dirkey[h] != k) h = (h + 1) & (DIRN - 1);
    if (!dirkey[h]) { dirkey[h] = k; dir[h] = (Pg*)take (sizeof (Pg)); }
    Cell*& c = dir[h]->cell[g & 511];
    if (!c) c = (Cell*)take (sizeof (Cell));
    return c;
}
void begin (int) {
    wrel = new std::unordered_map<void*, Clk>;
    rrel = new std::unordered_map<void*, Clk>;
    auto map = [] (size_t n) { return mmap (nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); };
    pool    = (char*)map (POOL);
    dir     = (Pg**)map (DIRN * sizeof (Pg*));
    dirkey  = (uintptr_t*)map (DIRN * sizeof (uintptr_t));
    for (int i = 0; i < MAXT; i++)
        for (int j = 0; j < MAXT; j++) vc[i][j] = i == j;
    rep.kind = 0;
    on = 1;
}
void thread_begin (int id) {
    pthread_attr_t a;
    void* lo;
    size_t n;
    if (pthread_getattr_np (pthread_self (), &a) == 0) {
        pthread_attr_getstack (&a, &lo, &n);
        pthread_attr_destroy (&a);
        st_lo = (uintptr_t)lo;
        st_hi = st_lo + n;
    }
    me = id;
}
void thread_end () { done = true; }
static void join (int id, std::unordered_map<void*, Clk>* m, void* k) {
    auto i = m->find (k);
    if (i == m->end ()) return;
    for (int t = 0; t < MAXT; t++)
        if (i->second.c[t] > vc[id][t]) vc[id][t] = i->second.c[t];
}
static void put (int id, std::unordered_map<void*, Clk>* m, void* k) {
    Clk& c = (*m)[k];
    for (int t = 0; t < MAXT; t++)
        if (vc[id][t] > c.c[t]) c.c[t] = vc[id][t];
}
void acquire (int id, void* l, bool wr) {
    if (!on) return;
    join (id, wrel, l);
    if (wr) join (id, rrel, l);
}
void release (int id, void* l, bool wr) {
    if (!on) return;
    put (id, wr ? wrel : rrel, l);
    vc[id][id]++;
}
static void stack (Frame* f, void** out) {
    for (int i = 1; f && i < 40; i++, f = f->up) out[i] = f->pc;
}
static void check (uintptr_t g, uint8_t mask, bool wr, bool fr, void* pc, uintptr_t addr, size_t n) {
    Cell* c = cell (g);
    int k = 0;
    for (int i = 0; i < c->n; i++) {
        Entry& e = c->e[i];
        if (e.mask & mask) {
            int kind = 0;
            if (e.freed) kind = fr ? 3 : 2;
            else if (e.tid != me && (wr || e.wr) && e.clk > vc[me][e.tid]) kind = 1;
            if (kind && !rep.kind) {
                rep = {kind, e.tid, me, e.wr, wr, {e.pc}, {pc}, addr, n};
                stack (e.at, rep.pc1);
                stack (top, rep.pc2);
                return;
            }
        }
        if (e.tid == me && !e.freed && (wr || !e.wr) && (e.mask & ~mask) == 0) continue; // covered by the new one
        if (k != i) c->e[k] = e;
        k++;
    }
    if (k == NE) { memmove (c->e, c->e + 1, (NE - 1) * sizeof (Entry)); k = NE - 1; }
    c->e[k] = {(uint8_t)me, mask, wr, fr, vc[me][me], pc, top};
    c->n = k + 1;
}
static void range (void* p, size_t n, bool wr, bool fr, void* pc) {
    uintptr_t a = (uintptr_t)p, e = a + n;
    for (uintptr_t g = a >> 3; g <= (e - 1) >> 3; g++) {
        int lo = g == a >> 3 ? a & 7 : 0, hi = g == (e - 1) >> 3 ? (e - 1) & 7 : 7;
        check (g, (uint8_t)((0xff << lo) & (0xff >> (7 - hi))), wr, fr, pc, a, n);
        if (rep.kind) return;
    }
}
static bool mine () { return on && me >= 0 && !busy && !done && !shim::tl_harness && !rep.kind; }
void access (void* p, size_t n, bool wr, void* pc) {
    if (!mine () || !n) return;
    if ((uintptr_t)p >= st_lo && (uintptr_t)p < st_hi) return;
    if (n > 2048) n = 64; // a hash table being laid out: its beginning stands for it
    busy = true;
    range (p, n, wr, false, pc);
    busy = false;
}
bool freed (void* p, size_t n, void* pc) {
    if (!on || me < 0 || busy || !p) return false;
    if (shim::tl_harness || rep.kind || done) return true;
    busy = true;
    if (n > 2048) n = 64;
    range (p, n ? n : 1, true, true, pc);
    busy = false;
    return true;
}
Quiet::Quiet () : was (busy) { busy = true; }
Quiet::~Quiet () { busy = was; }
bool found () { return rep.kind != 0; }
const Report& report () { return rep; }
static void sync (void* a) { // an atomic operation or a once-guard: ordered with all others on it
    if (!mine ()) return;
    busy = true;
    shim::sched_touch (a, true);
    join (me, wrel, a);
    put (me, wrel, a);
    vc[me][me]++;
    busy = false;
}
} // namespace race
#define PC __builtin_return_address (0)
extern "C" {
void __tsan_init () {}
void __tsan_func_entry (void* pc) {
    if (race::me < 0 || !race::on || race::done) return;
    auto* f    = (race::Frame*)race::take (sizeof (race::Frame));
    f->up      = race::top;
    f->pc      = pc;
    race::top  = f;
}
void __tsan_func_exit () {
    if (race::me >= 0 && race::top && !race::done) race::top = race::top->up;
}
void __tsan_vptr_update (void** p, void*) { race::access (p, 8, true, PC); }
void __tsan_vptr_read (void** p) { race::access (p, 8, false, PC); }
void __tsan_read_range (void* p, unsigned long n) { race::access (p, n, false, PC); }
void __tsan_write_range (void* p, unsigned long n) { race::access (p, n, true, PC); }
#define RW(n) \
    void __tsan_read##n (void* p) { race::access (p, n, false, PC); } \
    void __tsan_write##n (void* p) { race::access (p, n, true, PC); } \
    void __tsan_unaligned_read##n (void* p) { race::access (p, n, false, PC); } \
    void __tsan_unaligned_write##n (void* p) { race::access (p, n, true, PC); } \
    void __tsan_volatile_read##n (void* p) { race::access (p, n, false, PC); } \
    void __tsan_volatile_write##n (void* p) { race::access (p, n, true, PC); }
RW (1) RW (2) RW (4) RW (8) RW (16)
#define AT(b, T) \
    T __tsan_atomic##b##_load (const volatile T* a, int) { race::sync ((void*)a); return __atomic_load_n (a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##b##_store (volatile T* a, T v, int) { race::sync ((void*)a); __atomic_store_n (a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_exchange (volatile T* a, T v, int) { race::sync ((void*)a); return __atomic_exchange_n (a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_add (volatile T* a, T v, int) { race::sync ((void*)a); return __atomic_fetch_add (a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_sub (volatile T* a, T v, int) { race::sync ((void*)a); return __atomic_fetch_sub (a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_and (volatile T* a, T v, int) { race::sync ((void*)a); return __atomic_fetch_and (a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_or (volatile T* a, T v, int) { race::sync ((void*)a); return __atomic_fetch_or (a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_xor (volatile T* a, T v, int) { race::sync ((void*)a); return __atomic_fetch_xor (a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_fetch_nand (volatile T* a, T v, int) { race::sync ((void*)a); return __atomic_fetch_nand (a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_strong (volatile T* a, T* c, T v, int, int) { race::sync ((void*)a); return __atomic_compare_exchange_n (a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##b##_compare_exchange_weak (volatile T* a, T* c, T v, int, int) { race::sync ((void*)a); return __atomic_compare_exchange_n (a, c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##b##_compare_exchange_val (volatile T* a, T c, T v, int, int) { race::sync ((void*)a); __atomic_compare_exchange_n (a, &c, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT (8, uint8_t) AT (16, uint16_t) AT (32, uint32_t) AT (64, uint64_t)
void __tsan_atomic_thread_fence (int) { __atomic_thread_fence (__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence (int) {}

void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ (bool, void*, void*, void*);
void* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_ (void*, void*);
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_ (void*, void*);
void _ZNSt8__detail15_List_node_base9_M_unhookEv (void*);
int __cxa_guard_acquire (void*);
void __cxa_guard_release (void*);
void* __wrap_memset (void*, int, size_t);
void* race_memset (void* p, int c, size_t n) {
    if (race::on) race::access (p, n, true, PC);
    return __wrap_memset (p, c, n);
}
// what the instrumented code gives to functions that are not instrumented
void* race_memcpy (void* d, const void* s, size_t n) {
    if (race::on) { race::access (d, n, true, PC); race::access ((void*)s, n, false, PC); }
    return memcpy (d, s, n);
}
void* race_memmove (void* d, const void* s, size_t n) {
    if (race::on) { race::access (d, n, true, PC); race::access ((void*)s, n, false, PC); }
    return memmove (d, s, n);
}
int race_memcmp (const void* a, const void* b, size_t n) {
    if (race::on) { race::access ((void*)a, n, false, PC); race::access ((void*)b, n, false, PC); }
    return memcmp (a, b, n);
}
void race_free (void* p) {
    if (race::on && race::freed (p, p ? malloc_usable_size (p) : 0, PC)) return;
    free (p);
}
int race___cxa_guard_acquire (void* g) {
    int r = __cxa_guard_acquire (g);
    race::sync (g);
    return r;
}
void race___cxa_guard_release (void* g) {
    race::sync (g);
    __cxa_guard_release (g);
}
// the compiled parts of std::map and std::list
void race__ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ (bool l, void* x, void* p, void* h) {
    race::access (h, 32, true, PC);
    race::access (p, 32, true, PC);
    _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_ (l, x, p, h);
}
void* race__ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_ (void* z, void* h) {
    race::access (h, 32, true, PC);
    race::access (z, 32, true, PC);
    return _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_ (z, h);
}
void race__ZNSt8__detail15_List_node_base7_M_hookEPS0_ (void* x, void* at) {
    race::access (x, 16, true, PC);
    race::access (at, 16, true, PC);
    _ZNSt8__detail15_List_node_base7_M_hookEPS0_ (x, at);
}
void race__ZNSt8__detail15_List_node_base9_M_unhookEv (void* x) {
    race::access (x, 16, true, PC);
    _ZNSt8__detail15_List_node_base9_M_unhookEv (x);
}
}
