// Simulated heap: exact bounds (AddressSanitizer poisoning), moving or in-place reallocation, address reuse,
// dirty fresh memory, failing allocations, live-block table.
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <unordered_map>
#include <sanitizer/asan_interface.h>
extern "C" int __sanitizer_get_ownership(const volatile void *); extern "C" size_t __sanitizer_get_allocated_size(const volatile void *);
#include <sys/mman.h>
#include <unistd.h>

namespace sim {
static const size_t CHUNK = 48u << 20, ARENA = 4 * CHUNK, RZ = 32;   // one address range, made ready chunk by chunk
static char *arena; static size_t top = 0, ready = CHUNK; static bool full = false;
struct Blk { size_t size, cap; u64 seq; bool huge = false; };
static std::unordered_map<void *, Blk> *live; static std::unordered_map<void *, size_t> *dead;
static std::map<size_t, std::vector<char *>> *freelist; static u64 seqno = 0;
int g_mem_realloc_mode = MEM_MOVE; bool g_mem_reuse = false; int g_mem_fill = 0xA5;
int g_fail_alloc_in = -1; bool g_alloc_failed = false; u64 g_calls_after_oom = 0;

void init_mem() {
    arena = (char *)mmap(nullptr, ARENA, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    __asan_poison_memory_region(arena, CHUNK);
    live = new std::unordered_map<void *, Blk>; dead = new std::unordered_map<void *, size_t>; freelist = new std::map<size_t, std::vector<char *>>;
}
void mem_config() {
    g_mem_realloc_mode = choose(2); g_mem_reuse = choose(2) == 1;
    switch (choose(4)) { case 0: g_mem_fill = 0xA5; break; case 1: g_mem_fill = 0xFF; break; case 2: g_mem_fill = 'Z'; break; default: g_mem_fill = 0; break; }
    ev("heap realloc=%s reuse=%d fill=%02x", g_mem_realloc_mode == MEM_MOVE ? "move" : "in-place", g_mem_reuse, g_mem_fill);
}
static size_t cap_for(size_t n) {
    if (!n) n = 1;
    if (g_mem_realloc_mode == MEM_INPLACE) { size_t c = 32; while (c < n) c *= 2; return c; }
    return (n + 15) & ~(size_t)15;
}
static bool failing() {
    if (g_alloc_failed) return false;
    if (g_fail_alloc_in >= 0 && g_fail_alloc_in-- == 0) return true;
    return false;
}
size_t g_mem_limit = (size_t)64 << 30;   // larger requests are refused
// blocks of gigabytes: address space only, backed by one small window mapped again and again
static void *huge_alloc(size_t n) {
    static int fd = -1; const size_t W = 16u << 20;
    if (n > g_mem_limit) { ev("allocation of %zu bytes refused", n); errno = ENOMEM; return nullptr; } // no machine has that much
    size_t len = (n + W - 1) / W * W; char *p = (char *)mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) harness_error("no address space for %zu bytes", n);
    if (fd < 0) { fd = memfd_create("huge", 0); if (fd >= 0 && ftruncate(fd, (off_t)W)) fd = -1; }
    if (fd >= 0) for (size_t o = 0; o < len; o += W) if (mmap(p + o, W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) harness_error("cannot map a huge block");
    dead->erase(p); Blk b{n, len, ++seqno}; b.huge = true; (*live)[p] = b; return p;
}
static void *raw_alloc(size_t n) {
    if (n > CHUNK / 2) return huge_alloc(n);
    size_t cap = cap_for(n); char *p = nullptr;
    if (g_mem_reuse) { auto it = freelist->find(cap); if (it != freelist->end() && !it->second.empty()) { p = it->second.back(); it->second.pop_back(); dead->erase(p); } }
    if (!p) {
        if (top + cap + 2 * RZ > ready) {
            size_t held = 0; for (auto &x : *live) if (!x.second.huge) held += x.second.size;
            if (cur_task() >= 0 && held > CHUNK / 4) violation("runaway-memory", "%zu bytes are allocated and still more are requested", held);
            if (!full && ready + CHUNK <= ARENA) { __asan_poison_memory_region(arena + ready, CHUNK); ready += CHUNK; }
            else { // all of it was used once: go on in the largest range without live blocks
                full = true; std::map<size_t, size_t> at; for (auto &x : *live) if (!x.second.huge) at[(size_t)((char *)x.first - arena)] = x.second.cap; at[ARENA] = 0;
                size_t from = 0, lo = 0, hi = 0; for (auto &x : at) { if (x.first > from && x.first - from > hi - lo) lo = from, hi = x.first; from = x.first + x.second; }
                lo = (lo + 15) & ~(size_t)15; if (lo + cap + 3 * RZ > hi) harness_error("simulated heap exhausted (%zu bytes requested, %zu held)", n, held);
                top = lo; ready = hi; freelist->clear(); for (auto it = dead->begin(); it != dead->end();) { size_t o = (size_t)((char *)it->first - arena); if (o < ARENA) it = dead->erase(it); else ++it; }
            }
        }
        p = arena + top + RZ; top += cap + RZ; top = (top + 15) & ~(size_t)15;
    }
    __asan_unpoison_memory_region(p, cap);
    if (g_mem_fill >= 0) memset(p, g_mem_fill, cap);
    __asan_poison_memory_region(p, cap); __asan_unpoison_memory_region(p, n);
    (*live)[p] = {n, cap, ++seqno};
    return p;
}
void *mem_alloc_libc(size_t n) { return raw_alloc(n); } // blocks libc allocates inside a call: that call reports its own errors
void *mem_alloc(size_t n, bool zero) {
    if (cur_task() >= 0 && failing()) { fault_count[F_MALLOC]++; g_op_faults |= FM(F_MALLOC); g_op_hard++; ev("fault malloc-failure %zu", n); g_alloc_failed = true; errno = ENOMEM; return nullptr; }
    if (cur_task() >= 0 && g_alloc_failed) g_calls_after_oom++;
    void *p = raw_alloc(n); if (!p) return nullptr;
    if (zero) memset(p, 0, n > CHUNK / 2 ? 4096 : n); else fault_count[F_DIRTY_MEM]++;
    return p;
}
void *mem_realloc(void *p, size_t n) {
    if (!p) return mem_alloc(n, false);
    auto it = live->find(p);
    if (it == live->end()) {
        if ((char *)p >= arena && (char *)p < arena + ARENA) violation("bad-realloc", "realloc of %s", dead->count(p) ? "a block that was already freed" : "an address that is not the start of a live block");
        if (__sanitizer_get_ownership(p)) { size_t os = __sanitizer_get_allocated_size(p); void *q = raw_alloc(n); if (!q) return nullptr; memcpy(q, p, os < n ? os : n); free(p); return q; }
        violation("bad-realloc", "realloc of an address that was never allocated");
    }
    if (n == 0) { mem_free(p); return nullptr; }
    if (cur_task() >= 0 && failing()) { fault_count[F_REALLOC]++; g_op_faults |= FM(F_REALLOC); g_op_hard++; ev("fault realloc-failure %zu", n); g_alloc_failed = true; errno = ENOMEM; return nullptr; }
    if (cur_task() >= 0 && g_alloc_failed) g_calls_after_oom++;
    Blk b = it->second; if (n > b.size) fault_count[F_DIRTY_MEM]++;
    if (b.huge || n > CHUNK / 2) { // moved, keeping the start
        void *q = raw_alloc(n); if (!q) return nullptr;
        size_t k = b.size < n ? b.size : n; memcpy(q, p, k < 65536 ? k : 65536); mem_free(p); fault_count[F_MOVE_BLOCK]++; return q;
    }
    if (g_mem_realloc_mode == MEM_INPLACE && n <= b.cap) {
        __asan_unpoison_memory_region(p, b.cap);
        size_t keep = n < b.size ? n : b.size;
        if (g_mem_fill >= 0) memset((char *)p + keep, g_mem_fill, b.cap - keep);
        __asan_poison_memory_region(p, b.cap); __asan_unpoison_memory_region(p, n);
        it->second.size = n;
        return p;
    }
    void *q = raw_alloc(n); if (!q) return nullptr;
    memcpy(q, p, b.size < n ? b.size : n);
    mem_free(p); fault_count[F_MOVE_BLOCK]++;
    return q;
}
void mem_free(void *p) {
    if (!p) return;
    auto it = live->find(p);
    if (it == live->end()) {
        if ((char *)p >= arena && (char *)p < arena + ARENA) violation("bad-free", "free of %s", dead->count(p) ? "a block that was already freed" : "an address that is not the start of a live block");
        if (__sanitizer_get_ownership(p)) { free(p); return; }
        violation("bad-free", "free of an address that was never allocated");
    }
    Blk b = it->second; live->erase(it);
    if (b.huge) { munmap(p, b.cap); (*dead)[p] = b.size; return; }
    __asan_unpoison_memory_region(p, b.cap); memset(p, 0xDD, b.cap);
    __asan_poison_memory_region(p, b.cap);
    (*dead)[p] = b.size;
    if (g_mem_reuse) (*freelist)[b.cap].push_back((char *)p);
}
bool mem_live(const void *p, size_t *size) { auto it = live->find((void *)p); if (it == live->end()) return false; if (size) *size = it->second.size; return true; }
static size_t hidden = 0;
size_t mem_live_count() { return live->size() - hidden; }   // blocks that belong to the environment do not count
char *mem_env_copy(const std::string &s) { char *p = mem_strdup(s); (*live)[p].seq = 0; hidden++; return p; }
size_t mem_live_bytes() { size_t s = 0; for (auto &b : *live) s += b.second.size; return s; }
u64 mem_seq() { return seqno; }
std::vector<void *> mem_live_since(u64 s) { std::vector<std::pair<u64, void *>> v; for (auto &b : *live) if (b.second.seq > s) v.push_back({b.second.seq, b.first}); std::vector<void *> r; std::map<u64, void *> o(v.begin(), v.end()); for (auto &x : o) r.push_back(x.second); return r; }
char *mem_strdup(const std::string &s) { bool zero = true; (void)zero; char *p = (char *)raw_alloc(s.size() + 1); memcpy(p, s.c_str(), s.size() + 1); return p; }
}

// ------------------------------------------------------------------ the seam
using namespace sim;
extern "C" {
void *sim_malloc(size_t n) { return mem_alloc(n, false); }
void *sim_calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return mem_alloc(a * b, true); }
void *sim_realloc(void *p, size_t n) { return mem_realloc(p, n); }
void *sim_reallocarray(void *p, size_t a, size_t b) { if (b && a > (size_t)-1 / b) { errno = ENOMEM; return nullptr; } return mem_realloc(p, a * b); }
void sim_free(void *p) { mem_free(p); }
void *sim_aligned_alloc(size_t, size_t n) { return mem_alloc(n, false); }
int sim_posix_memalign(void **o, size_t, size_t n) { *o = mem_alloc(n, false); return *o ? 0 : ENOMEM; }
size_t sim_malloc_usable_size(void *p) { size_t n = 0; mem_live(p, &n); return n; }
char *sim_strdup(const char *s) { size_t n = strlen(s) + 1; char *p = (char *)mem_alloc(n, false); if (p) memcpy(p, s, n); return p; }
char *sim_strndup(const char *s, size_t m) { size_t n = strnlen(s, m); char *p = (char *)mem_alloc(n + 1, false); if (p) { memcpy(p, s, n); p[n] = 0; } return p; }
int sim_vasprintf(char **o, const char *fmt, va_list a) {
    va_list b; va_copy(b, a); int n = vsnprintf(nullptr, 0, fmt, b); va_end(b);
    if (n < 0) return -1;
    char *p = (char *)mem_alloc((size_t)n + 1, false); if (!p) return -1;
    vsnprintf(p, (size_t)n + 1, fmt, a); *o = p; return n;
}
int sim_asprintf(char **o, const char *fmt, ...) { va_list a; va_start(a, fmt); int n = sim_vasprintf(o, fmt, a); va_end(a); return n; }
}
