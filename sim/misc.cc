// Clock, environment, process control.
#include "sim.h"
#include "handles.h"
#include <cerrno>
#include <cstdlib>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <signal.h>
#include <pthread.h>
#include <sys/file.h>

namespace sim {
void locks_reset(); void init_streams(); char *mem_env_copy(const std::string &s);
std::map<std::string, std::string> g_env; std::string g_exe_path; bool g_exe_fail = false; std::string g_last_assert;
std::vector<std::pair<i64, i64>> g_clock_segments; std::vector<std::string> g_unsupported;
static std::map<std::string, char *> env_copies;
void wall_set(i64 sec, i64 us) {
    if (!g_clock_segments.empty()) g_clock_segments.back().second = wall_us();
    g_wall_off = sec * 1000000 + us - g_now;
    if (!g_clock_segments.empty()) g_clock_segments.push_back({wall_us(), wall_us()});
}
void clock_watch() { g_clock_segments.clear(); g_clock_segments.push_back({wall_us(), wall_us()}); }
void set_tz(const std::string &tz) { setenv("TZ", tz.c_str(), 1); tzset(); }
void init_misc() {
    locks_reset(); init_streams(); g_env.clear(); g_env["HOME"] = "/home/user"; g_exe_path = "/usr/bin/prog"; g_exe_fail = false; g_clock_segments.clear();
    set_tz("UTC0"); wall_set(1700000000);
}
static void jump_maybe() {
    if (!inject(F_CLOCK_JUMP)) return;
    static const i64 d[] = {1, -1, 2, 60, -60, 3599, 3600, -3600, 86400, -86400, 31536000, -31536000};
    i64 s = wall_us() / 1000000 + d[choose(12)]; if (s < 0) s = 0; if (s > 253402244400ll) s = 253402244400ll;
    wall_set(s, wall_us() % 1000000); ev("clock jumps to %lld", (long long)s);
}
}
using namespace sim;
extern "C" {
time_t sim_time(time_t *o) { sys("time"); jump_maybe(); time_t t = (time_t)(wall_us() / 1000000); if (o) *o = t; ev("time %lld", (long long)t); return t; }
int sim_gettimeofday(struct timeval *tv, void *) { sys("gettimeofday"); jump_maybe(); tv->tv_sec = wall_us() / 1000000; tv->tv_usec = wall_us() % 1000000; return 0; }
int sim_clock_gettime(clockid_t c, struct timespec *ts) {
    sys("clock_gettime"); i64 us; if (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) { jump_maybe(); us = wall_us(); } else us = g_now + 1000000;
    ts->tv_sec = us / 1000000; ts->tv_nsec = us % 1000000 * 1000; return 0;
}
int sim_timespec_get(struct timespec *ts, int b) { sim_clock_gettime(CLOCK_REALTIME, ts); return b; }
clock_t sim_clock() { return (clock_t)g_now; }
unsigned sim_sleep(unsigned s) { sys("sleep"); sleep_us((i64)s * 1000000); return 0; }
int sim_usleep(useconds_t u) { sys("usleep"); sleep_us(u); return 0; }
int sim_nanosleep(const struct timespec *t, struct timespec *) { sys("nanosleep"); sleep_us(t->tv_sec * 1000000ll + t->tv_nsec / 1000); return 0; }
int sim_clock_nanosleep(clockid_t, int, const struct timespec *t, struct timespec *) { sys("nanosleep"); sleep_us(t->tv_sec * 1000000ll + t->tv_nsec / 1000); return 0; }
int sim_sched_yield() { sys("sched_yield"); return 0; }
char *sim_getenv(const char *n) {
    auto it = g_env.find(n); ev("getenv %s%s", n, it == g_env.end() ? " unset" : ""); if (it == g_env.end()) return nullptr;
    char *&c = env_copies[n]; if (!c || it->second != c) c = mem_env_copy(it->second); return c;
}
char *sim_secure_getenv(const char *n) { return sim_getenv(n); }
int sim_setenv(const char *n, const char *v, int o) { if (o || !g_env.count(n)) g_env[n] = v; return 0; }
// formatting into memory: pure, but a place where another task may run
int sim_vsnprintf(char *b, size_t n, const char *f, va_list a) { tick(); int r = vsnprintf(b, n, f, a); tick(); return r; }
int sim_snprintf(char *b, size_t n, const char *f, ...) { tick(); va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); tick(); return r; }
int sim_vsprintf(char *b, const char *f, va_list a) { tick(); int r = vsprintf(b, f, a); tick(); return r; }
int sim_sprintf(char *b, const char *f, ...) { tick(); va_list a; va_start(a, f); int r = vsprintf(b, f, a); va_end(a); tick(); return r; }
size_t sim_strftime(char *b, size_t n, const char *f, const struct tm *t) { tick(); size_t r = strftime(b, n, f, t); tick(); return r; }
struct tm *sim_localtime(const time_t *t) { tick(); struct tm *r = localtime(t); tick(); return r; }
struct tm *sim_localtime_r(const time_t *t, struct tm *o) { tick(); struct tm *r = localtime_r(t, o); tick(); return r; }
struct tm *sim_gmtime(const time_t *t) { tick(); struct tm *r = gmtime(t); tick(); return r; }
pid_t sim_getpid() { return 4242; }
uid_t sim_getuid() { return 1000; }
void sim_exit(int c) { ev("exit %d", c); end_task(EXITED, c); }
void sim__exit(int c) { ev("_exit %d", c); end_task(EXITED, c); }
void sim__Exit(int c) { sim__exit(c); }
void sim_quick_exit(int c) { sim__exit(c); }
void sim_abort() { ev("abort"); g_last_assert = "abort()"; end_task(ABORTED, 134); }
void sim___assert_fail(const char *e, const char *f, unsigned l, const char *fn) {
    const char *b = strrchr(f, '/'); ev("assert %s", e); g_last_assert = std::string("assert(") + e + ") in " + fn + " " + (b ? b + 1 : f); (void)l; end_task(ABORTED, 134);
}
int sim_atexit(void (*)(void)) { return 0; }
int sim_raise(int s) { if (s == SIGABRT) sim_abort(); ev("raise %d", s); end_task(SIGNALED, s); }
int sim_kill(pid_t p, int s) { ev("kill %d %d", (int)p, s); return 0; }
int sim_system(const char *c) { ev("system %s", c ? c : ""); harness_error("system() is not simulated: %s", c ? c : ""); }
FILE *sim_popen(const char *c, const char *) { harness_error("popen() is not simulated: %s", c); }
pid_t sim_fork() { harness_error("fork() is not simulated"); }
int sim_execv(const char *p, char *const *) { harness_error("exec is not simulated: %s", p); }
int sim_execvp(const char *p, char *const *) { harness_error("exec is not simulated: %s", p); }
ssize_t sim_getrandom(void *b, size_t n, unsigned) { for (size_t i = 0; i < n; i++) ((char *)b)[i] = (char)choose(256); return (ssize_t)n; }
int sim_getentropy(void *b, size_t n) { sim_getrandom(b, n, 0); return 0; }
// locks: tasks are coroutines of one thread, so that waiting must go through the scheduler
static std::map<void *, std::pair<int, int>> locks_held;   // object -> (owner, depth)
static int lock_try(void *m) { auto it = locks_held.find(m); if (it == locks_held.end()) { locks_held[m] = {cur_task(), 1}; return 0; } return EBUSY; }
int sim_pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t *m) { sys("lock"); if (lock_try(m)) { block_until([m] { return !locks_held.count(m); }); lock_try(m); } return 0; }
int sim_pthread_mutex_trylock(pthread_mutex_t *m) { sys("trylock"); return lock_try(m); }
int sim_pthread_mutex_unlock(pthread_mutex_t *m) { locks_held.erase(m); sys("unlock"); return 0; }
int sim_pthread_once(pthread_once_t *o, void (*f)(void)) { if (*(int *)o != 0x51) { *(int *)o = 0x51; f(); } return 0; }
pthread_t sim_pthread_self() { return (pthread_t)(cur_task() + 2); }
int sim_flock(int fd, int op) {
    sys("flock"); Handle *h = handle_get(fd); if (!h || h->sock) { errno = EBADF; return -1; }
    void *key = (void *)(0x10000l + h->ino); if (op & LOCK_UN) { locks_held.erase(key); return 0; }
    if (lock_try(key)) { auto &l = locks_held[key]; if (l.first == cur_task()) return 0; if (op & LOCK_NB) { errno = EWOULDBLOCK; return -1; } block_until([key] { return !locks_held.count(key); }); lock_try(key); }
    return 0;
}
}
namespace sim {
void locks_reset() { locks_held.clear(); }
void locks_task_ended(int t) { for (auto it = locks_held.begin(); it != locks_held.end();) if (it->second.first == t) it = locks_held.erase(it); else ++it; }
void locks_file_closed(int ino) { auto it = locks_held.find((void *)(0x10000l + ino)); if (it != locks_held.end() && it->second.first == cur_task()) locks_held.erase(it); }
}
