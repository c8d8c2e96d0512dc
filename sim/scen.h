// Helpers shared by the scenarios.
#pragma once
#include "sim.h"
#include "simnet.h"
extern "C" {
#include "vita/vita.h"
}
#include <algorithm>
#include <cmath>
#include <cerrno>
#include <ctime>
using namespace sim;

// a NUL-terminated copy with exact bounds in the simulated heap
inline char *Z(const std::string &s) { return mem_strdup(s); }
inline std::string str_of(const vt_str_t *s) { return s && s->ptr ? std::string((const char *)s->ptr, s->len) : std::string(); }
// local time text of the simulated wall clock
inline std::string now_text(i64 off_s = 0) { time_t t = (time_t)(wall_us() / 1000000 + off_s); struct tm tm; localtime_r(&t, &tm); char b[64]; strftime(b, sizeof b, "%Y-%m-%d %H:%M:%S", &tm); return b; }
inline const char *level_name(int l) { static const char *n[] = {"INFO", "WARN", "DEBUG", "ERROR", "FATAL", "ASSERT FAILURE"}; return n[l]; }
std::string log_record(const std::string &t, int level, const char *expr, const std::string &file, size_t line, const std::string &msg);
std::string debug_record(const std::string &t, const std::string &subject, const std::string &expr, const std::string &file, const std::string &func, size_t line, const std::string &msg);

// whole-file writers -----------------------------------------------------
struct WriteCall {
    std::string path, expect; bool append = false; std::string name; std::function<bool()> call;
};
WriteCall gen_write(const std::string &path, const std::string &text, bool only_append = false);
bool can_write(const std::string &path);     // what open-for-writing would say without injected faults
bool can_read(const std::string &path);      // readable regular file

// runs one operation with a fault plan armed only for its duration
template <class F> OpResult faulty_op(u64 mask, int horizon, F f) { arm(mask, horizon); OpResult r = run_op(f); disarm(); return r; }
void quiet_debug();                          // draws whether debug output is on
inline bool opened(const char *p) { return fs_resolve(p, true) >= 0; }

typedef std::map<std::string, std::string> Snap;
// first difference between two snapshots ignoring `except` (and what lies below it if `below`)
std::string snap_diff(const Snap &a, const Snap &b, const std::string &except = "", bool below = false);
std::string canon(const std::string &path);  // where a write to this path ends up
// a path of a chosen length (more than one directory deep), whose parent directories exist
std::string long_path(size_t most = 4095);
// content of up to some megabytes, now and then
size_t gen_size_or_large();
// now and then a history many times longer than usual
inline int long_history(int n) { if (choose(250) != 249) return n; more_cpu(30); probe("long history"); return n + 60 + (int)choose(300); }
