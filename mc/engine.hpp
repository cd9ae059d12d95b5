// Exploration engine: enumerates cases of a scenario, runs each against a fresh LazyFS process, collects verdicts.
#pragma once
#include "core.hpp"
struct Case {
    Hist h;
    std::vector<int64_t> x;
};
struct Shard { int k, n; };
enum End { E_OK, E_SELFKILL, E_PLANKILL };
struct Violation { std::string msg; };
struct Scenario {
    std::string prop, name, what;
    std::function<std::vector<Cfg> (int tier)> cfgs;
    std::function<void (const Cfg&, int tier, Shard, const std::function<void (const Case&)>&)> gen;
    std::function<void (const Cfg&, const Case&)> run; // called in the host process
    std::function<std::string (const Cfg&, const Case&)> fmt;
    int shards = 24; // jobs per configuration
};
std::vector<Scenario>& scenarios ();
struct Reg { Reg (Scenario s) { scenarios ().push_back (s); } };

// run fn in a forked copy of the freshly started LazyFS process. Throws Violation if it fails, dies or hangs.
End spawn (const std::function<void ()>& fn);
inline void spawn_ok (const std::function<void ()>& fn) {
    End e = spawn (fn);
    if (e == E_SELFKILL) throw Violation{"LazyFS killed itself although no fault was due"};
    if (e == E_PLANKILL) throw Violation{"internal: unexpected planned kill"};
}
void* shared_scratch ();             // 1 MiB shared between host and its children
constexpr size_t SCRATCH = 1 << 20;
enum Ctr { CT_HIST, CT_OPS, CT_PROBES, CT_PROCS, CT_CRASH, CT_INJECT, CT_SCHED, CT_DEC, CT_REMOUNT, CT_CMDS, CT_SAMPLED, CT_X1, CT_X2, CT_MAX };
void bump (Ctr c, long n = 1);
void count_state (uint64_t h);
void count_op ();
void progress (int step, int phase);
bool stopping ();
std::string log_path ();
extern std::vector<std::string> fuse_args; // the arguments LazyFS passed on to fuse_main

// all histories of length lo..hi over alpha that the model enables; a history is skipped where prune says so
struct EnumOpt {
    int lo = 0, hi = 3;
    std::function<bool (const Model&, const Hist&, const Op&)> prune; // true: do not append op
    std::function<bool (const Model&, const Hist&)> accept;           // false: do not emit (but descend)
};
void enum_hist (const Cfg& c, const std::vector<Op>& alpha, const EnumOpt& o, Shard s, const std::function<void (const Case&)>& cb);
