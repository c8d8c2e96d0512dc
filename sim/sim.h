// Deterministic simulator: shared declarations.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <cstdio>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
#include <sys/stat.h>

namespace sim {
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef int64_t i64;

// ------------------------------------------------------------------ choices
// Every decision of a run comes from here. 0 is always the simplest choice,
// so that a shortened or zeroed tape is a simpler run.
u32 choose(u32 n);                       // uniform in [0,n)
bool chance(u32 num, u32 den);           // true with probability num/den (0 -> false)
i64 range(i64 lo, i64 hi);               // uniform in [lo,hi], lo is simplest
template <class T> const T &pick(const std::vector<T> &v) { return v[choose((u32)v.size())]; }
u64 mix(u64 x);                          // stateless hash

// ------------------------------------------------------------------ history
void ev(const char *fmt, ...) __attribute__((format(printf, 1, 2)));      // one event of the recorded history
void probe(const char *name);                                            // reachability counter
[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, cls, ...) do { if (!(cond)) ::sim::violation(cls, __VA_ARGS__); } while (0)
extern bool g_verbose;
std::string show(const std::string &s, size_t max = 60);                 // printable form of bytes

// ------------------------------------------------------------------ faults
enum Fault {
    F_OPEN, F_READ_ERR, F_READ_SHORT, F_WRITE_ERR, F_WRITE_SHORT, F_ENOSPC, F_CLOSE, F_STAT, F_OPENDIR, F_READDIR,
    F_CLOSEDIR, F_MKDIR, F_RMDIR, F_UNLINK, F_RENAME, F_GETCWD, F_READLINK, F_FSYNC, F_MALLOC, F_REALLOC,
    F_SOCKET, F_SOCKOPT, F_BIND, F_LISTEN, F_CONNECT, F_ACCEPT, F_SEND_ERR, F_SEND_PARTIAL, F_RECV_ERR, F_RECV_PARTIAL,
    F_POLL, F_EINTR, F_SOCKCLOSE, F_NET_DROP, F_NET_DUP, F_NET_REORDER, F_NET_DELAY, F_NET_RST, F_PEER_CLOSE,
    F_KILL, F_CLOCK_JUMP, F_ENV, F_STDERR, F_PERM, F_CONC_CHANGE, F_STALL, F_DIRTY_MEM, F_MOVE_BLOCK, F_COUNT
};
extern const char *const fault_names[F_COUNT];
enum PlanMode { PLAN_NONE, PLAN_ONE, PLAN_PERSIST, PLAN_RATE };
struct Plan { PlanMode mode = PLAN_NONE; int countdown = 0; u32 num = 0, den = 1; u64 mask = 0; u64 used = 0; };
#define FM(f) (1ull << (f))
const u64 FM_FS = FM(F_OPEN)|FM(F_READ_ERR)|FM(F_READ_SHORT)|FM(F_WRITE_ERR)|FM(F_WRITE_SHORT)|FM(F_ENOSPC)|FM(F_CLOSE)|FM(F_STAT)
    |FM(F_OPENDIR)|FM(F_READDIR)|FM(F_CLOSEDIR)|FM(F_MKDIR)|FM(F_RMDIR)|FM(F_UNLINK)|FM(F_RENAME)|FM(F_GETCWD)|FM(F_READLINK)|FM(F_FSYNC);
const u64 FM_BENIGN = FM(F_READ_SHORT)|FM(F_WRITE_SHORT)|FM(F_SEND_PARTIAL)|FM(F_RECV_PARTIAL)|FM(F_NET_DELAY);
void arm(u64 mask, int horizon);         // draw a fault plan for the following operation
void arm_one(u64 mask, int countdown);   // exactly one fault at the countdown-th opportunity
void disarm();
extern Plan g_plan;
bool inject(Fault f);                    // asked by the seam at every opportunity
void note_fault(Fault f);                // count a fault injected by other means
extern u64 g_op_faults;                  // mask of faults injected since op start
extern u32 g_op_hard;                    // number of non-benign faults since op start
extern u32 fault_count[F_COUNT];
u32 task_hard(int id);                   // non-benign faults injected while this task ran
extern int g_kill_in;                    // kill the current task at the n-th seam call from now (-1: never)

// ------------------------------------------------------------------ tasks and time
enum Outcome { RUNNING, RETURNED, EXITED, ABORTED, KILLED, SIGNALED, BLOCKED };
extern const char *const outcome_names[];
struct Task;
int spawn(std::function<void()> fn);     // create a task; runs at run_tasks()
void run_tasks();                        // schedule until all tasks are finished or nothing can happen any more
Outcome task_outcome(int id);
int task_code(int id);
int cur_task();                          // -1 outside tasks
extern size_t g_mem_limit;                // allocation requests beyond this are refused
extern i64 g_told_size;                   // the last size of a file the system told the code under test, -1 for none
struct OpResult { Outcome out; int code; };
void count_ops(int n);                   // operations done in spawned tasks (evidence only)
OpResult run_op(const std::function<void()> &fn);   // one operation in a task of its own
void must_return(const OpResult &r, const char *what); // violation unless RETURNED
void yield();                            // scheduling point
void sys(const char *name);              // every seam call passes here (steps, kill, yield)
void block_until(const std::function<bool()> &cond, i64 deadline_us = -1);  // deadline in simulated time
void sleep_us(i64 us);
void at_time(i64 when_us, std::function<void()> fn);  // simulated event (network, clock jump)
void run_until_idle();                   // deliver all pending events outside tasks
bool pending_events();
[[noreturn]] void end_task(Outcome o, int code);
extern i64 g_now;                        // simulated microseconds since run start
extern i64 g_wall_off;                   // wall clock = g_wall_off + g_now (microseconds since the epoch)
inline i64 wall_us() { return g_wall_off + g_now; }
void wall_set(i64 sec, i64 us = 0);
extern u64 g_steps;
extern bool g_fine;                      // also preempt at formatting and buffered stdio calls
void tick();
extern bool g_preempt;                   // yield at every seam call

// ------------------------------------------------------------------ memory
struct Block { size_t size, cap; u64 seq; };
void *mem_alloc(size_t n, bool zero);
void *mem_alloc_libc(size_t n);
void *mem_realloc(void *p, size_t n);
void mem_free(void *p);
bool mem_live(const void *p, size_t *size = nullptr);
size_t mem_live_count();
size_t mem_live_bytes();
u64 mem_seq();                           // allocations so far
std::vector<void *> mem_live_since(u64 seq);
enum { MEM_MOVE = 0, MEM_INPLACE = 1 };
extern int g_mem_realloc_mode; extern bool g_mem_reuse; extern int g_mem_fill; // -1: zero-looking memory, else fill byte
extern int g_fail_alloc_in;              // fail the n-th allocation from now (-1 never)
extern bool g_alloc_failed;              // an allocation was failed
extern u64 g_calls_after_oom;
char *mem_strdup(const std::string &s);  // harness-owned copy with exact bounds
void mem_config();                       // draw the heap configuration of this run

// ------------------------------------------------------------------ file system
enum IType { T_REG, T_DIR, T_LNK, T_FIFO };
struct Inode {
    int id; IType type; std::string data; std::map<std::string, int> ent; int parent = 0; std::string target;
    bool noread = false, nowrite = false, nosearch = false; int nlink = 1; int mode_set = -1; unsigned special = 0; u64 order = 0; i64 hole = 0;   // hole: zero bytes after data (sparse file)
    i64 size() const { return (i64)data.size() + hole; }
};
void fs_reset();
int fs_resolve(const std::string &path, bool follow_last, int *err = nullptr);  // inode id or -1
int fs_mkdir(const std::string &path);   // harness-side creation, no faults (parents created)
int fs_put(const std::string &path, const std::string &data);
int fs_symlink(const std::string &path, const std::string &target);
int fs_fifo(const std::string &path);
int fs_special(const std::string &path, unsigned fmt);   // a socket or device node: S_IFSOCK, S_IFBLK, S_IFCHR
void fs_link(const std::string &path, int ino);          // one more name of a file
std::map<std::string, int> fs_modes();                   // every path whose permissions the code under test has set
extern bool g_dir_links;                                 // st_nlink of a directory counts its subdirectories (it is 1 on some file systems)
extern int g_stdin_closed;               // >= 0: with that many descriptors open 0 is free, as in a daemon that closed its standard input
extern bool g_dtype_unknown;             // readdir does not tell entry types (allowed by POSIX, met on some file systems)
bool fs_exists(const std::string &path);
bool fs_is_dir(const std::string &path);
std::string fs_get(const std::string &path);      // file content
Inode &fs_inode(int id);
std::map<std::string, std::string> fs_snapshot(const std::string &root = "/"); // path -> "d", "f:<data>", "l:<target>"
void fs_unlink_raw(const std::string &path);
extern i64 g_disk_free;                  // bytes that can still be written, -1 = unlimited
extern std::string g_cwd_override;       // unused unless non-empty
extern std::string g_stderr, g_stdout;   // captured output
extern bool g_stderr_closed, g_stderr_fails;
int open_handles();                      // open descriptors, streams and directories
std::string open_handles_desc();
extern int g_bad_close;                  // closes of something that is not open
void fs_check_handles(const char *what, int before);

// ------------------------------------------------------------------ environment
extern std::map<std::string, std::string> g_env;
extern std::string g_exe_path; extern bool g_exe_fail;
void set_tz(const std::string &tz);
extern std::vector<std::pair<i64,i64>> g_clock_segments;  // wall-clock intervals (us) since clock_watch()
void clock_watch();
extern std::vector<std::string> g_unsupported;
extern std::string g_last_assert;

// ------------------------------------------------------------------ network (see simnet.cc)
void net_reset();
int net_open_sockets();
struct NetCfg { int lat_min = 0, lat_max = 0; u32 drop = 0, dup = 0, reorder = 0; /* per 64 */ size_t window = 65536; bool split = false; };
extern NetCfg g_net;

// ------------------------------------------------------------------ scenarios
struct Scenario { const char *prop; const char *name; void (*fn)(); u32 weight; };
std::vector<Scenario> &scenarios();
struct Reg { Reg(const char *prop, const char *name, void (*fn)(), u32 weight = 1); };
void more_cpu(int secs);   // a run that may take longer than the usual budget
#define SCENARIO(prop, name, weight) static void name(); static ::sim::Reg reg_##name(prop, #name, name, 50 * (weight)); static void name()
#define RARE_SCENARIO(prop, name, weight) static void name(); static ::sim::Reg reg_##name(prop, #name, name, weight); static void name()   // large and slow: a few hundred runs of a quick check

// text generation
std::string gen_text(size_t n, int style);       // no NUL bytes
std::string gen_bytes(size_t n);                 // any byte
size_t gen_size();                               // biased to buffer boundaries
}
