// Observing the operations LazyFS receives, at the level of the FUSE operation table.
#pragma once
#include "scen.hpp"
enum FOp { FO_OPEN, FO_CREATE, FO_WRITE, FO_READ, FO_FSYNC, FO_TRUNCATE, FO_UNLINK, FO_RENAME, FO_LINK, FO_SYMLINK, FO_ACCESS, FO_MAX };
extern const char* fo_name[];
inline bool fo_two (int f) { return f == FO_RENAME || f == FO_LINK || f == FO_SYMLINK; }
struct OpHooks {
    std::function<void (int op, const char* from, const char* to)> before;
    std::function<void (int op, const char* from, const char* to, int rc)> after;
};
void install_hooks (const OpHooks& h); // (in the child; for the rest of its life)
int principal (const Op& o, bool exists); // the FUSE operation that carries the effect of a history step, -1 if none
