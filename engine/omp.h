// OpenMP runtime model (see C26); sequential unless a schedule is requested.
static bool kmpc(CallInfo *ci, std::vector<u64> &, u64 *) { unsupported("openmp call " + ci->name); }
static bool ompCall(CallInfo *, std::vector<u64> &) { return false; }
