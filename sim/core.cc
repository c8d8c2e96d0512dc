// Simulator core: choice tape, history, fault plans, tasks, run control (search / shrink / replay).
#include "sim.h"
#include "handles.h"
#include <cerrno>
#include <cstdlib>
#include <algorithm>
#include <ucontext.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/personality.h>
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>

extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:detect_stack_use_after_return=0:abort_on_error=0:exitcode=99:symbolize=0:allocator_may_return_null=1:"
           "quarantine_size_mb=1:handle_segv=1:print_summary=0:check_printf=1:max_malloc_fill_size=0";
}

namespace sim {
// ------------------------------------------------------------------ shared result of one run
static const u32 MAXTAPE = 1u << 18;
struct Result {
    volatile int done; int status;      // status 0 ok, 1 violation, 2 harness error
    char cls[96]; char msg[1500];
    u64 hash, steps; i64 sim_us; u32 ops, nevents;
    u32 faults[F_COUNT]; u32 nprobes; struct { char name[48]; u32 n; } probes[64];
    u32 ntape; u32 tape[MAXTAPE];
};
static Result *R;
bool g_verbose = false;

const char *const fault_names[F_COUNT] = {
    "open-error", "read-error", "read-short", "write-error", "write-short", "disk-full", "close-error", "stat-error", "opendir-error", "readdir-error",
    "closedir-error", "mkdir-error", "rmdir-error", "unlink-error", "rename-error", "getcwd-error", "readlink-error", "fsync-error", "malloc-failure", "realloc-failure",
    "socket-error", "setsockopt-error", "bind-error", "listen-error", "connect-error", "accept-error", "send-error", "send-partial", "recv-error", "recv-partial",
    "poll-error", "eintr", "socket-close-error", "net-drop", "net-duplicate", "net-reorder", "net-delay", "net-reset", "peer-close",
    "kill", "clock-jump", "environment-change", "stderr-error", "permission", "concurrent-change", "stall", "dirty-memory", "moved-block"
};
const char *const outcome_names[] = {"running", "returned", "exited", "aborted", "killed", "signaled", "blocked"};

u64 mix(u64 x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }

// ------------------------------------------------------------------ choices
static u64 prng_state; static bool replaying; static u32 rpos; static const std::vector<u32> *rtape;
static u64 prng() { prng_state += 0x9e3779b97f4a7c15ull; return mix(prng_state); }
u32 choose(u32 n) {
    if (n <= 1) return 0;
    u32 v;
    if (replaying) v = rpos < rtape->size() ? (*rtape)[rpos] % n : 0, rpos++;
    else v = (u32)(((prng() >> 32) * (u64)n) >> 32);
    if (R->ntape < MAXTAPE) R->tape[R->ntape++] = v; else harness_error("choice tape too long");
    return v;
}
bool chance(u32 num, u32 den) { return choose(den) >= den - num; }
i64 range(i64 lo, i64 hi) { return hi <= lo ? lo : lo + (i64)choose((u32)(hi - lo + 1)); }

// ------------------------------------------------------------------ history
std::string show(const std::string &s, size_t max) {
    std::string o; char b[8];
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c == '\n') o += "\\n"; else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; } else o += (char)c;
    }
    if (s.size() > max) { o += "...("; o += std::to_string(s.size()); o += ")"; }
    return o;
}
static i64 real_ns() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
void ev(const char *fmt, ...) {
    char b[512]; va_list a; va_start(a, fmt); int n = vsnprintf(b, sizeof b, fmt, a); va_end(a);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    u64 h = R->hash;
    for (int i = 0; i < n; i++) h = (h ^ (unsigned char)b[i]) * 0x100000001b3ull;
    R->hash = (h ^ 10) * 0x100000001b3ull; R->nevents++;
    if (g_verbose) { fprintf(stdout, "%8lld t%d  %s\n", (long long)g_now, cur_task(), b); fflush(stdout); }
}
void probe(const char *name) {
    for (u32 i = 0; i < R->nprobes; i++) if (!strcmp(R->probes[i].name, name)) { R->probes[i].n++; return; }
    if (R->nprobes < 64) { snprintf(R->probes[R->nprobes].name, 48, "%s", name); R->probes[R->nprobes++].n = 1; }
}
static void finish(int status) {
    R->status = status; R->steps = g_steps; R->sim_us = g_now;
    memcpy(R->faults, fault_count, sizeof R->faults);
    R->done = 1; _exit(0);
}
void violation(const char *cls, const char *fmt, ...) {
    va_list a; va_start(a, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, a); va_end(a);
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    if (g_verbose) { fprintf(stdout, "VIOLATED [%s] %s\n", R->cls, R->msg); fflush(stdout); }
    finish(1); __builtin_unreachable();
}
void harness_error(const char *fmt, ...) {
    va_list a; va_start(a, fmt); vsnprintf(R->msg, sizeof R->msg, fmt, a); va_end(a);
    snprintf(R->cls, sizeof R->cls, "harness");
    if (g_verbose) { fprintf(stdout, "HARNESS ERROR %s\n", R->msg); fflush(stdout); }
    finish(2); __builtin_unreachable();
}

// ------------------------------------------------------------------ faults
Plan g_plan; u64 g_op_faults = 0; u32 g_op_hard = 0; u32 fault_count[F_COUNT]; int g_kill_in = -1;
static std::map<int, u32> task_hards;
u32 task_hard(int id) { auto it = task_hards.find(id); return it == task_hards.end() ? 0 : it->second; }
void note_fault(Fault f) {
    fault_count[f]++; g_op_faults |= FM(f);
    if (!(FM_BENIGN & FM(f))) { g_op_hard++; task_hards[cur_task()]++; }
    ev("fault %s", fault_names[f]);
}
void disarm() { g_plan = Plan(); g_kill_in = -1; }
void arm_one(u64 mask, int countdown) { g_plan = Plan(); g_plan.mode = PLAN_ONE; g_plan.mask = mask; g_plan.countdown = countdown; }
void arm(u64 mask, int horizon) {
    g_plan = Plan(); g_plan.mask = mask;
    switch (choose(6)) {
        case 0: case 1: g_plan.mode = PLAN_NONE; break;
        case 2: case 3: g_plan.mode = PLAN_ONE; g_plan.countdown = (int)choose(horizon); break;
        case 4: g_plan.mode = PLAN_PERSIST; g_plan.countdown = (int)choose(horizon); break;
        case 5: g_plan.mode = PLAN_RATE; g_plan.num = 1; g_plan.den = 2u << choose(3); break;
    }
}
bool inject(Fault f) {
    if (!(g_plan.mask & FM(f)) || g_plan.mode == PLAN_NONE) return false;
    bool hit = false;
    switch (g_plan.mode) {
        case PLAN_ONE: hit = g_plan.countdown == 0; g_plan.countdown--; break;
        case PLAN_PERSIST: hit = g_plan.countdown <= 0; g_plan.countdown--; break;
        case PLAN_RATE: hit = chance(g_plan.num, g_plan.den); break;
        default: break;
    }
    if (hit) note_fault(f);
    return hit;
}

// ------------------------------------------------------------------ tasks
struct Task {
    int id; ucontext_t ctx; char *stack = nullptr; std::function<void()> fn; Outcome st = RUNNING; int code = 0;
    bool blocked = false; std::function<bool()> cond; i64 wake = -1; void *fake = nullptr; bool started = false;
};
static std::vector<Task *> tasks; static Task *cur = nullptr; static ucontext_t main_ctx; static void *main_fake;
static const void *main_bottom; static size_t main_size;
static const size_t STK = 256 * 1024; static std::vector<char *> stack_pool;
i64 g_now = 0, g_wall_off = 0; u64 g_steps = 0; bool g_preempt = false, g_fine = false;
struct Event { i64 t; u64 seq; std::function<void()> fn; };
static std::vector<Event> events; static u64 event_seq = 0;
static std::vector<int> live_tasks; static bool g_exiting = false;

static char *get_stack() {
    if (!stack_pool.empty()) { char *s = stack_pool.back(); stack_pool.pop_back(); return s; }
    char *s = (char *)mmap(nullptr, STK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    mprotect(s, 4096, PROT_NONE);
    memset(s + STK + 4096 - 24576, 0xC7, 24576);
    return s + 4096;
}
static void to_main() {
    Task *t = cur;
    __sanitizer_start_switch_fiber(t->st == RUNNING ? &t->fake : nullptr, main_bottom, main_size);
    swapcontext(&t->ctx, &main_ctx);
    __sanitizer_finish_switch_fiber(t->fake, nullptr, nullptr);
}
static void trampoline() {
    __sanitizer_finish_switch_fiber(nullptr, &main_bottom, &main_size);
    cur->fn();
    end_task(RETURNED, 0);
}
void end_task(Outcome o, int code) {
    if (!cur) violation("unexpected-exit", "the process was stopped (%s %d) outside an operation", outcome_names[o], code);
    if (o != RETURNED) { g_exiting = true; int k = g_kill_in; g_kill_in = -1; bool pre = g_preempt; g_preempt = false; fs_task_ended(cur->id, o == EXITED); g_exiting = false; g_kill_in = k; g_preempt = pre; }
    cur->st = o; cur->code = code;
    if (o != RETURNED) ev("task %s %d", outcome_names[o], code);
    to_main();
    __builtin_unreachable();
}
int cur_task() { return cur ? cur->id : -1; }
int spawn(std::function<void()> fn) {
    Task *t = new Task; t->id = (int)tasks.size(); t->fn = std::move(fn); tasks.push_back(t); live_tasks.push_back(t->id);
    return t->id;
}
static void resume(Task *t) {
    cur = t;
    if (!t->started) {
        t->started = true; t->stack = get_stack();
        getcontext(&t->ctx); t->ctx.uc_stack.ss_sp = t->stack; t->ctx.uc_stack.ss_size = STK; t->ctx.uc_link = nullptr;
        makecontext(&t->ctx, trampoline, 0);
    }
    __sanitizer_start_switch_fiber(&main_fake, t->stack, STK);
    swapcontext(&main_ctx, &t->ctx);
    __sanitizer_finish_switch_fiber(main_fake, nullptr, nullptr);
    cur = nullptr;
    if (t->st != RUNNING) {
        __asan_unpoison_memory_region(t->stack, STK);
        stack_pool.push_back(t->stack); t->stack = nullptr;
    }
}
void at_time(i64 when, std::function<void()> fn) { events.push_back({when < g_now ? g_now : when, event_seq++, std::move(fn)}); }
bool pending_events() { return !events.empty(); }
static int next_event() {
    int b = -1;
    for (size_t i = 0; i < events.size(); i++) if (b < 0 || events[i].t < events[b].t || (events[i].t == events[b].t && events[i].seq < events[b].seq)) b = (int)i;
    return b;
}
static void deliver_due() {
    for (;;) { int i = next_event(); if (i < 0 || events[i].t > g_now) return; auto f = std::move(events[i].fn); events.erase(events.begin() + i); f(); }
}
void run_until_idle() { for (;;) { int i = next_event(); if (i < 0) return; if (events[i].t > g_now) g_now = events[i].t; deliver_due(); } }
void run_tasks() {
    if (cur) harness_error("run_tasks inside a task");
    Task *last = nullptr;
    for (;;) {
        deliver_due();
        std::vector<Task *> ready; i64 wake = -1; bool alive = false;
        for (size_t k = 0; k < live_tasks.size();) {
            Task *t = tasks[live_tasks[k]];
            if (t->st != RUNNING) { live_tasks.erase(live_tasks.begin() + k); continue; }
            k++; alive = true;
            if (!t->blocked || (t->cond && t->cond()) || (t->wake >= 0 && t->wake <= g_now)) {
                if (t == last) ready.insert(ready.begin(), t); else ready.push_back(t);
            } else if (t->wake >= 0 && (wake < 0 || t->wake < wake)) wake = t->wake;
        }
        if (!alive) return;
        if (ready.empty()) {
            int i = next_event(); i64 nt = i >= 0 ? events[i].t : -1;
            if (nt < 0 || (wake >= 0 && wake < nt)) nt = wake;
            if (nt < 0) { for (int id : live_tasks) tasks[id]->st = BLOCKED; live_tasks.clear(); return; }
            if (nt > g_now) g_now = nt;
            continue;
        }
        Task *t = ready[choose((u32)ready.size())];
        t->blocked = false; last = t; resume(t);
    }
}
Outcome task_outcome(int id) { return tasks[id]->st; }
int task_code(int id) { return tasks[id]->code; }
void yield() { if (cur) to_main(); }
void tick() { if (g_fine && g_preempt && cur && !g_exiting) to_main(); }
void sys(const char *name) {
    if (++g_steps > 400000) violation("hang", "no end after %llu system calls (last: %s)", (unsigned long long)g_steps, name);
    if (!cur) return;
    if (g_alloc_failed && !g_exiting) { g_calls_after_oom++; ev("call %s after allocation failure", name); }
    if (g_kill_in >= 0 && g_kill_in-- == 0) { note_fault(F_KILL); ev("killed before %s", name); end_task(KILLED, 0); }
    g_now += 1;
    if (g_preempt) yield();
}
void block_until(const std::function<bool()> &cond, i64 deadline) {
    if (cond()) return;
    if (!cur) harness_error("blocking call outside a task");
    while (!cond() && !(deadline >= 0 && g_now >= deadline)) { cur->blocked = true; cur->cond = cond; cur->wake = deadline; to_main(); }
}
void sleep_us(i64 us) { i64 d = g_now + us; block_until([] { return false; }, d); }
void count_ops(int n) { R->ops += (u32)n; }
OpResult run_op(const std::function<void()> &fn) {
    g_op_faults = 0; g_op_hard = 0; R->ops++;
    int id = spawn(fn); run_tasks();
    return {task_outcome(id), task_code(id)};
}
void must_return(const OpResult &r, const char *what) {
    if (r.out != RETURNED) violation("unexpected-stop", "%s did not return: %s (code %d); last assertion/diagnostic: %s; stderr tail: %s", what, outcome_names[r.out], r.code,
        g_last_assert.c_str(), show(g_stderr.size() > 300 ? g_stderr.substr(g_stderr.size() - 300) : g_stderr, 300).c_str());
}

// ------------------------------------------------------------------ text generation
std::string gen_bytes(size_t n) {
    std::string s(n, 'x'); u64 z = choose(65536); int alpha = choose(3);
    for (size_t i = 0; i < n; i++) { u64 r = mix(z * 1000003 + i); s[i] = alpha == 0 ? 'a' + r % 26 : alpha == 1 ? (char)(r % 256) : "\0\n\r\t\x1a\xff%"[r % 7]; }
    return s;
}
std::string gen_text(size_t n, int style) {
    std::string s(n, 'x'); if (!n) return s;
    u64 z = choose(65536);
    for (size_t i = 0; i < n; i++) {
        u64 r = mix(z * 1000003 + i);
        switch (style) {
            case 0: s[i] = 'a' + r % 26; break;
            case 1: s[i] = "abcXYZ019 %s\n\r\t\\/\"'%d"[r % 21]; break;
            default: s[i] = (char)(1 + r % 255); break;
        }
    }
    return s;
}
size_t gen_size() {
    static const size_t around[] = {16, 26, 64, 100, 128, 255, 256, 512, 1023, 1024, 2048, 4095, 4096, 8191, 8192, 12288, 65535, 65536};
    switch (choose(8)) {
        case 0: case 1: case 2: return (size_t)range(0, 40);
        case 3: case 4: case 5: { size_t b = around[choose(sizeof around / sizeof *around)]; i64 d = range(-3, 3); return (size_t)((i64)b + d); }
        case 6: return (size_t)range(0, 2500);
        default: return (size_t)range(0, 20000);
    }
}

// ------------------------------------------------------------------ scenarios, one run
std::vector<Scenario> &scenarios() { static std::vector<Scenario> v; return v; }
Reg::Reg(const char *prop, const char *name, void (*fn)(), u32 weight) { scenarios().push_back({prop, name, fn, weight}); }
void init_misc(); void init_mem();
static std::string g_prop; static const char *g_only = nullptr;

static void on_vtalrm(int) {
    snprintf(R->cls, sizeof R->cls, "hang"); snprintf(R->msg, sizeof R->msg, "no progress: the call neither returned nor made a system call (cpu budget exhausted)");
    if (g_verbose) { (void)!write(1, "VIOLATED [hang]\n", 16); }
    R->status = 1; R->steps = g_steps; R->sim_us = g_now; R->done = 1; _exit(0);
}
static void on_asan(const char *report) {
    const char *d = strstr(report, "AddressSanitizer: "); char kind[64] = "memory error";
    if (d) { d += 18; size_t n = strcspn(d, " \n"); if (n > 60) n = 60; memcpy(kind, d, n); kind[n] = 0; }
    const char *acc = strstr(report, "READ of size"); if (!acc) acc = strstr(report, "WRITE of size");
    char a[48] = ""; if (acc) { size_t n = strcspn(acc, "\n"); if (n > 20) n = 20; memcpy(a, acc, n); a[n] = 0; char *at = strstr(a, " at "); if (at) *at = 0; }
    snprintf(R->cls, sizeof R->cls, "memory-error");
    snprintf(R->msg, sizeof R->msg, "invalid memory access in the code under test: %s %s", kind, a);
    if (g_verbose) { fprintf(stdout, "VIOLATED [memory-error] %s\n%s\n", R->msg, report); fflush(stdout); }
    R->status = 1; R->steps = g_steps; R->sim_us = g_now; memcpy(R->faults, fault_count, sizeof R->faults); R->done = 1; _exit(0);
}
void more_cpu(int secs) { itimerval it = {}; it.it_value.tv_sec = secs; setitimer(ITIMER_VIRTUAL, &it, nullptr); }
static void child_main() {
    signal(SIGVTALRM, on_vtalrm);
    itimerval it = {}; it.it_value.tv_sec = 6; setitimer(ITIMER_VIRTUAL, &it, nullptr); alarm(120);
    __asan_set_error_report_callback(on_asan);
    R->hash = 0xcbf29ce484222325ull;
    std::vector<Scenario *> c; u32 total = 0;
    for (auto &s : scenarios()) if (g_prop == s.prop && (!g_only || !strcmp(g_only, s.name))) { c.push_back(&s); total += s.weight; }
    if (c.empty()) harness_error("no scenario for %s", g_prop.c_str());
    u32 w = choose(total); Scenario *sc = c.back();
    for (auto *s : c) { if (w < s->weight) { sc = s; break; } w -= s->weight; }
    ev("scenario %s", sc->name);
    char pb[48]; snprintf(pb, sizeof pb, "scenario:%s", sc->name); probe(pb);
    fs_reset(); net_reset(); init_misc();
    sc->fn();
    finish(0);
}
static void drop_privileges() {
    if (getuid() == 0) { if (setgid(65534) != 0 || setuid(65534) != 0) { fprintf(stderr, "cannot drop privileges\n"); _exit(3); } }
}
// returns false if the worker itself misbehaved
static void run_once(u64 seed, const std::vector<u32> *tape) {
    memset((void *)R, 0, offsetof(Result, tape));
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        prng_state = seed; replaying = tape != nullptr; rtape = tape; rpos = 0;
        if (!g_verbose) { int fd = open("/dev/null", O_RDWR); dup2(fd, 2); dup2(fd, 1); dup2(fd, 0); }
        child_main(); _exit(0);
    }
    if (p < 0) { perror("fork"); exit(3); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!R->done && WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) { R->done = 1; R->status = 2; snprintf(R->cls, 96, "harness"); snprintf(R->msg, 1500, "run stalled in real time"); }
    if (!R->done) {
        R->status = 1;
        if (WIFSIGNALED(st)) { snprintf(R->cls, 96, "crash"); snprintf(R->msg, 1500, "the process died from signal %d", WTERMSIG(st)); }
        else { snprintf(R->cls, 96, "memory-error"); snprintf(R->msg, 1500, "the process ended unexpectedly with status %d", WEXITSTATUS(st)); }
    }
}
static std::vector<u32> cur_tape() { return std::vector<u32>(R->tape, R->tape + R->ntape); }

static void json_str(FILE *f, const char *s) {
    fputc('"', f);
    for (; *s; s++) { unsigned char c = *s; if (c == '"' || c == '\\') fprintf(f, "\\%c", c); else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c); else fputc(c, f); }
    fputc('"', f);
}
static void write_tape(const char *path, const std::vector<u32> &t, u64 seed, const char *cls, const char *msg, u64 hash) {
    FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(3); }
    fprintf(f, "{\"property\":\"%s\",\"seed\":%llu,\"class\":", g_prop.c_str(), (unsigned long long)seed); json_str(f, cls);
    fprintf(f, ",\"message\":"); json_str(f, msg);
    fprintf(f, ",\"hash\":\"%016llx\",\"tape\":[", (unsigned long long)hash);
    for (size_t i = 0; i < t.size(); i++) fprintf(f, "%s%u", i ? "," : "", t[i]);
    fprintf(f, "]}\n"); fclose(f);
}
static std::vector<u32> read_tape(const char *path) {
    FILE *f = fopen(path, "r"); if (!f) { perror(path); exit(3); }
    std::string s; char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f);
    std::vector<u32> t; size_t p = s.find("\"tape\":"); if (p != std::string::npos) p = s.find('[', p);
    if (p == std::string::npos) { fprintf(stderr, "no tape in %s\n", path); exit(3); }
    for (p++; p < s.size() && s[p] != ']';) { if (s[p] < '0' || s[p] > '9') { p++; continue; } char *e; t.push_back((u32)strtoul(s.c_str() + p, &e, 10)); p = e - s.c_str(); }
    return t;
}
static bool still_fails(const std::vector<u32> &t, const std::string &cls) { run_once(0, &t); return R->status == 1 && cls == R->cls; }
static std::vector<u32> shrink(std::vector<u32> t, const std::string &cls, double budget_s) {
    i64 end = real_ns() + (i64)(budget_s * 1e9); bool progress = true; int tries = 0;
    auto attempt = [&](const std::vector<u32> &c) { tries++; if (still_fails(c, cls)) { t = c; return true; } return false; };
    while (progress && real_ns() < end) {
        progress = false;
        for (size_t chunk = t.size() / 2 ? t.size() / 2 : 1; chunk >= 1 && real_ns() < end; chunk /= 2) {
            for (size_t i = 0; i + chunk <= t.size() && real_ns() < end;) {
                std::vector<u32> c(t); c.erase(c.begin() + i, c.begin() + i + chunk);
                if (attempt(c)) progress = true;
                else {
                    bool nz = false; for (size_t k = i; k < i + chunk; k++) nz |= t[k] != 0;
                    if (nz) { c = t; std::fill(c.begin() + i, c.begin() + i + chunk, 0u); if (attempt(c)) progress = true; }
                    i += chunk;
                }
            }
            if (chunk == 1) break;
        }
        for (size_t i = 0; i < t.size() && real_ns() < end; i++) {
            while (t[i] > 0 && real_ns() < end) { std::vector<u32> c(t); c[i] = t[i] / 2; if (attempt(c)) { progress = true; continue; } c = t; c[i] = t[i] - 1; if (attempt(c)) { progress = true; continue; } break; }
        }
        while (!t.empty() && t.back() == 0) t.pop_back();
    }
    still_fails(t, cls);
    return t;
}
int sim_main(int argc, char **argv) {
    // usage: search PROP base start count stride seconds hashfile tapefile | shrink PROP tape out seconds | replay PROP tape [-v]
    if (argc < 4) { fprintf(stderr, "usage\n"); return 3; }
    std::string mode = argv[1]; g_prop = argv[2]; g_only = getenv("SIM_ONLY");
    R = (Result *)mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    init_mem();
    if (mode == "search") {
        u64 base = strtoull(argv[3], 0, 10), start = strtoull(argv[4], 0, 10), count = strtoull(argv[5], 0, 10), stride = strtoull(argv[6], 0, 10);
        double secs = atof(argv[7]); FILE *hf = fopen(argv[8], "wb"); const char *tapefile = argv[9]; std::set<std::string> skip;
        for (int i = 10; i < argc; i++) skip.insert(argv[i]);      // classes listed as known findings
        int tfd = open(tapefile, O_CREAT | O_RDWR | O_TRUNC, 0666); if (tfd >= 0) close(tfd);
        (void)!fchmod(fileno(hf), 0666); (void)!chmod(tapefile, 0666);
        drop_privileges();
        u64 ph = 0; for (char c : g_prop) ph = mix(ph ^ (unsigned char)c);
        u64 runs = 0, steps = 0, ops = 0, evs = 0; double sim_s = 0; u64 faults[F_COUNT] = {}; std::map<std::string, u64> probes; std::map<std::string, u64> known;
        int viol = 0, herr = 0; u64 vi = 0; std::string vcls, vmsg; i64 t0 = real_ns();
        for (u64 i = start; i < count; i += stride) {
            if (secs > 0 && (real_ns() - t0) / 1e9 > secs) break;
            u64 seed = mix(mix(base) ^ ph) + i * 0x632be59bd9b4e019ull;
            run_once(seed, nullptr);
            runs++; steps += R->steps; ops += R->ops; evs += R->nevents; sim_s += R->sim_us / 1e6;
            for (int k = 0; k < F_COUNT; k++) faults[k] += R->faults[k];
            for (u32 k = 0; k < R->nprobes; k++) probes[R->probes[k].name] += R->probes[k].n;
            fwrite(&R->hash, 8, 1, hf);
            if (R->status == 2) { herr = 1; vi = i; vcls = R->cls; vmsg = R->msg; break; }
            if (R->status == 1) {
                if (skip.count(R->cls)) { known[R->cls]++; continue; }
                viol = 1; vi = i; vcls = R->cls; vmsg = R->msg;
                write_tape(tapefile, cur_tape(), seed, R->cls, R->msg, R->hash); break;
            }
        }
        fclose(hf);
        printf("{\"runs\":%llu,\"steps\":%llu,\"ops\":%llu,\"events\":%llu,\"sim_s\":%.6f,\"violation\":%d,\"harness_error\":%d,\"index\":%llu,\"class\":", (unsigned long long)runs,
            (unsigned long long)steps, (unsigned long long)ops, (unsigned long long)evs, sim_s, viol, herr, (unsigned long long)vi);
        json_str(stdout, vcls.c_str()); printf(",\"message\":"); json_str(stdout, vmsg.c_str());
        printf(",\"faults\":{"); bool first = true;
        for (int k = 0; k < F_COUNT; k++) if (faults[k]) { printf("%s\"%s\":%llu", first ? "" : ",", fault_names[k], (unsigned long long)faults[k]); first = false; }
        printf("},\"probes\":{"); first = true;
        for (auto &p : probes) { printf("%s", first ? "" : ","); json_str(stdout, p.first.c_str()); printf(":%llu", (unsigned long long)p.second); first = false; }
        printf("},\"known\":{"); first = true;
        for (auto &p : known) { printf("%s", first ? "" : ","); json_str(stdout, p.first.c_str()); printf(":%llu", (unsigned long long)p.second); first = false; }
        printf("}}\n");
        return herr ? 2 : 0;
    }
    if (mode == "shrink") {
        std::vector<u32> t = read_tape(argv[3]); const char *out = argv[4]; double secs = atof(argv[5]);
        FILE *o = fopen(out, "w"); if (!o) { perror(out); return 3; } fclose(o); (void)!chmod(out, 0666);
        drop_privileges();
        run_once(0, &t);
        if (R->status != 1) { printf("{\"reproduced\":false,\"status\":%d,\"message\":", R->status); json_str(stdout, R->msg); printf("}\n"); return 2; }
        std::string cls = R->cls; u64 h1 = R->hash;
        run_once(0, &t);
        if (R->status != 1 || cls != R->cls || h1 != R->hash) { printf("{\"reproduced\":false,\"nondeterministic\":true}\n"); return 2; }
        size_t before = t.size(); t = shrink(t, cls, secs);
        u64 h = R->hash; std::string msg = R->msg;
        if (R->status != 1 || cls != R->cls) { printf("{\"reproduced\":false,\"nondeterministic\":true}\n"); return 2; }
        write_tape(out, t, 0, cls.c_str(), msg.c_str(), h);
        printf("{\"reproduced\":true,\"from\":%zu,\"to\":%zu,\"hash\":\"%016llx\",\"class\":", before, t.size(), (unsigned long long)h); json_str(stdout, cls.c_str());
        printf(",\"message\":"); json_str(stdout, msg.c_str()); printf("}\n");
        return 0;
    }
    if (mode == "replay" || mode == "seed") {
        std::vector<u32> t; u64 seed = 0;
        if (mode == "replay") t = read_tape(argv[3]);
        else {
            u64 ph = 0; for (char c : g_prop) ph = mix(ph ^ (unsigned char)c);
            u64 base = strtoull(argv[3], 0, 10), i = strtoull(argv[4], 0, 10); seed = mix(mix(base) ^ ph) + i * 0x632be59bd9b4e019ull;
        }
        g_verbose = argc > 4 && !strcmp(argv[argc - 1], "-v");
        drop_privileges();
        run_once(seed, mode == "replay" ? &t : nullptr);
        printf("{\"status\":%d,\"hash\":\"%016llx\",\"ntape\":%u,\"class\":", R->status, (unsigned long long)R->hash, R->ntape); json_str(stdout, R->cls); printf(",\"message\":"); json_str(stdout, R->msg); printf("}\n");
        return 0;
    }
    return 3;
}
}
int main(int argc, char **argv) { return sim::sim_main(argc, argv); }
