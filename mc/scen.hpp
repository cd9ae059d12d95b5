// Shared pieces of the scenarios.
#pragma once
#include "engine.hpp"
#include <algorithm>
using std::string;
using std::vector;
typedef std::function<void (const Case&)> CB;

inline Cfg geo (const string& n, int bs, int bpp, int pages, vector<std::pair<int, int>> pre = {}, vector<string> names = {"a", "b"}) {
    Cfg c;
    c.name = n; c.bs = bs; c.bpp = bpp; c.pages = pages; c.pre = pre; c.names = names;
    return c;
}
// the cartesian product of several alphabets as histories: one op of each stage in turn (NOP = skip)
void enum_stages (const Cfg& c, const vector<vector<Op>>& stages, Shard s, const CB& cb);
// runs the history in lockstep, judging `judge`; then the view; then a clear and the view again
void run_lockstep (const Cfg& c, const Case& k, unsigned judge, int sub, bool final_clear);
// LazyFS was killed: what a new LazyFS process shows must be what the model has as synced
void remount_check (const Cfg& c, Model m, int sub);
inline Model model_after (const Cfg& c, const Hist& h) {
    Model m;
    m.init (c);
    for (auto& o : h) m.apply (o);
    return m;
}
// an owner that files can be given here (in some sandboxes only the own one)
int64_t chown_id (int want);
// names through which a file was used since mount or the last clear
struct Used {
    std::set<string> s;
    void op (const Cfg& c, const Model& before, const Op& o);
};
// the unsynced-data report in `log` must be what the model has as unsynced
void judge_report_text (const Model& m, const string& root, const Used& u, const string& log, const char* when);
// file names that a line-based, shell-like or format-string treatment would get wrong
vector<string> odd_names (bool line_ends);
