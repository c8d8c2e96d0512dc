// C14: running out of memory. C15/C16: the tracking allocator. C17: containers and their allocators.
#include "scen.h"
#include <strings.h>

// ------------------------------------------------------------------ C14
namespace {
bool has_ci(const std::string &h, const char *n) { return strcasestr(h.c_str(), n) != nullptr; }

struct Env14 { vt_mallocator_t *al = nullptr; std::vector<std::pair<std::string, std::string>> kept; int serial = 0; };
// one library call (or a short sequence) that allocates; everything it needs was prepared before
struct Step14 { const char *name; std::function<void()> f; };

Step14 gen_step(Env14 &e) {
    bool useal = choose(2); auto A = [&e, useal]() { return useal ? e.al : nullptr; };
    size_t n = choose(3) == 2 ? 1 + choose(300) : 1 + choose(20); std::string t = gen_text(1 + (choose(3) == 2 ? gen_size() % 3000 : choose(40)), 0); char *z = Z(t); int id = e.serial++; u32 k = choose(34); bool b = choose(2);
    auto keep = [&](const char *d) { std::string p = std::string("/work/keep/") + d + std::to_string(id); return p; };
    switch (k) {
        case 0: return {"vt_vec push_back", [=] { vt_vec_t *v = vt_vec_create(1, sizeof(int), A()); for (size_t i = 0; i < n; i++) vt_vec_push_backi32(v, (int)i); vt_vec_destroy(v); }};
        case 1: return {"vt_vec push_front/insert", [=] { vt_vec_t *v = vt_vec_create(1 + n / 4, 8, A()); for (size_t i = 0; i < n; i++) { vt_vec_push_fronti64(v, (i64)i); vt_vec_inserti64(v, 7, 0); } vt_vec_destroy(v); }};
        case 2: return {"vt_vec resize/reserve/shrink", [=] { vt_vec_t *v = vt_vec_create(3, 16, A()); vt_vec_resize(v, n); vt_vec_reserve(v, n); vt_vec_resize(v, 1 + n / 2); vt_vec_shrink(v); vt_vec_destroy(v); }};
        case 3: return {"vt_vec_dup", [=] { vt_vec_t *v = vt_vec_create(3, 4, A()); vt_vec_push_backi32(v, 1); vt_vec_push_backi32(v, 2); vt_vec_t *d = vt_vec_dup(v, A()); vt_vec_remove(v, 0, b ? VT_REMOVE_STRATEGY_FAST : VT_REMOVE_STRATEGY_STABLE); vt_vec_destroy(v); vt_vec_destroy(d); }};
        case 4: return {"vt_plist push_back", [=] { vt_plist_t *v = vt_plist_create(1, A()); for (size_t i = 0; i < n; i++) vt_plist_push_back(v, z); vt_plist_destroy(v); }};
        case 5: return {"vt_plist push_front/insert", [=] { vt_plist_t *v = vt_plist_create(2, A()); for (size_t i = 0; i < n; i++) { vt_plist_push_front(v, z); vt_plist_insert(v, z, 0); } vt_plist_destroy(v); }};
        case 6: return {"vt_plist resize/reserve/shrink/dup", [=] { vt_plist_t *v = vt_plist_create(2, A()); vt_plist_push_back(v, z); vt_plist_reserve(v, n); vt_plist_shrink(v); vt_plist_t *d = vt_plist_dup(v, A()); vt_plist_resize(d, n); vt_plist_destroy(v); vt_plist_destroy(d); }};
        case 7: return {"vt_str_create", [=] { vt_str_t *s = vt_str_create(z, A()); vt_str_destroy(s); }};
        case 8: return {"vt_str_create_len/capacity", [=] { vt_str_t *s = b ? vt_str_create_len(n, A()) : vt_str_create_capacity(n, A()); vt_str_append(s, z); vt_str_destroy(s); }};
        case 9: return {"vt_str_append", [=] { vt_str_t *s = vt_str_create_capacity(1, A()); for (size_t i = 0; i < 1 + n % 8; i++) vt_str_append(s, z); vt_str_shrink(s); vt_str_destroy(s); }};
        case 10: return {"vt_str_appendf", [=] { vt_str_t *s = vt_str_create_capacity(4, A()); vt_str_appendf(s, "%s-%zu", z, n); vt_str_appendf(s, "%s", z); vt_str_destroy(s); }};
        case 11: return {"vt_str_insert", [=] { vt_str_t *s = vt_str_create("ab", A()); vt_str_insert(s, z, 1); vt_str_insert_n(s, z, 0, t.size() / 2 + 1); vt_str_destroy(s); }};
        case 12: return {"vt_str_insertf", [=] { vt_str_t *s = vt_str_create("ab", A()); vt_str_insertf(s, 1, "%s%s", z, z); vt_str_destroy(s); }};
        case 13: return {"vt_str_replace", [=] { vt_str_t *s = vt_str_create("a-b-c-d", A()); vt_str_replace(s, "-", z); vt_str_destroy(s); }};
        case 14: return {"vt_str_insert_before/after", [=] { vt_str_t *s = vt_str_create("a-b", A()); vt_str_insert_before(s, "-", z); vt_str_insert_after(s, "-", z); vt_str_destroy(s); }};
        case 15: return {"vt_str_replace_first/last", [=] { vt_str_t *s = vt_str_create("a-b-c", A()); vt_str_replace_first(s, "-", z); vt_str_replace_last(s, "-", z); vt_str_destroy(s); }};
        case 16: return {"vt_str_split", [=] { vt_str_t *s = vt_str_create("a,bb,ccc,dddd,e,f,g,h,i,j,k,l,m,n,o,p,q,r,s,t", A()); vt_plist_t *p = b ? vt_plist_create(1, A()) : nullptr; vt_plist_t *q = vt_str_split(p, s, ","); vt_str_t *x; while ((x = (vt_str_t *)vt_plist_pop_get(q))) vt_str_destroy(x); vt_plist_destroy(q); vt_str_destroy(s); }};
        case 17: return {"vt_str_join", [=] { vt_plist_t *p = vt_plist_create(2, A()); for (int i = 0; i < 4; i++) vt_plist_push_back(p, z); vt_str_t *s = vt_str_join(nullptr, "/", p); vt_str_t *s2 = vt_path_build(nullptr, p); vt_str_destroy(s); vt_str_destroy(s2); vt_plist_destroy(p); }};
        case 18: return {"vt_str_join_n/path_build_n", [=] { vt_str_t *s = vt_str_join_n(nullptr, ", ", 3, z, "b", z); vt_str_t *s2 = vt_path_build_n(nullptr, 2, z, "x"); vt_str_destroy(s); vt_str_destroy(s2); }};
        case 19: return {"vt_str_split_between/pop_get", [=] { vt_str_t *s = vt_str_create("key=value=more", A()); vt_str_t *m = vt_str_split_between(nullptr, "<tag>the content</tag>", "<tag>", "</tag>"); vt_str_t *f = vt_str_pop_get_first(nullptr, s, "="); vt_str_t *l = vt_str_pop_get_last(nullptr, s, "="); vt_str_destroy(m); vt_str_destroy(f); vt_str_destroy(l); vt_str_destroy(s); }};
        case 20: return {"vt_str_dup/resize/reserve", [=] { vt_str_t *s = vt_str_create(z, A()); vt_str_t *d = vt_str_dup(s); vt_str_reserve(d, n); vt_str_resize(s, n); vt_str_destroy(s); vt_str_destroy(d); }};
        case 21: return {"vt_mallocator", [=] { vt_mallocator_t *a = vt_mallocator_create(); void *p = nullptr; for (size_t i = 0; i < 1 + n % 40; i++) p = a->alloc(a, 8 + i, "f", "g", 1); a->realloc(a, p, 100, "f", "g", 2); vt_mallocator_destroy(a); }};
        case 22: return {"vt_file_read", [=] { vt_str_t *s = b ? vt_file_read("/work/data", A()) : vt_file_readb("/work/data", A()); if (s) vt_str_destroy(s); }};
        case 23: { std::string p = keep("w"), w = t; char *zp = Z(p); std::vector<std::pair<std::string, std::string>> *kp = &e.kept; return {"vt_file_write", [=] { if (b ? vt_file_writef(zp, "%s", z) : vt_file_write(zp, z)) kp->push_back({p, w}); }}; }
        case 24: { std::string p = keep("a"), w = t + "\n" + t; char *zp = Z(p); std::vector<std::pair<std::string, std::string>> *kp = &e.kept; return {"vt_file_append", [=] { if (vt_file_appendln(zp, z) && vt_file_append(zp, z)) kp->push_back({p, w}); }}; }
        case 25: return {"vt_path_dir_list", [=] { vt_plist_t *p = vt_path_dir_list(nullptr, "/work/tree", b); if (p) vt_path_dir_free(p); }};
        case 26: return {"vt_path_dir_list_recurse", [=] { vt_plist_t *p = vt_path_dir_list_recurse(nullptr, "/work/tree", b); if (p) vt_path_dir_free(p); }};
        case 27: { char *zp = Z("/work/new" + std::to_string(id) + "/b/c"); return {"vt_path_mkdir_parents", [=] { vt_path_mkdir_parents(zp); }}; }
        case 28: return {"vt_path_rmdir_recurse", [=] { vt_path_rmdir_recurse("/work/doomed"); }};
        case 29: return {"vt_path_get_cwd/exe", [=] { vt_str_t *s = vt_path_get_cwd(A()); if (s) vt_str_destroy(s); s = vt_path_get_this_exe_location(A()); if (s) vt_str_destroy(s); }};
        case 30: { char *zp = Z("~/" + t); return {"vt_path_expand_tilda/basename", [=] { vt_str_t *s = vt_path_expand_tilda(zp, A()); if (s) vt_str_destroy(s); s = vt_path_basename(nullptr, zp); if (s) vt_str_destroy(s); }}; }
        case 31: { char *a1 = Z("--name=" + t), *a2 = Z("--cstr"), *a0 = Z("prog"); return {"vt_argopt_parse", [=] { vt_str_t *name = nullptr; char *c = nullptr; const char *argv[] = {a0, a1, a2, z, nullptr}; vt_argopt_t o[] = {{"--name", "-n", "d", (void **)&name, VT_TYPE_STR}, {"--cstr", "-c", "d", (void **)&c, VT_TYPE_CSTR}};
            vt_mallocator_t *a = A(); vt_argopt_parse(4, argv, 2, o, a); if (name) vt_str_destroy(name); if (c) { if (a) a->free(a, c, "f", "g", 1); else vt_free(c); } }}; }
        case 32: return {"VT_MALLOC/CALLOC/REALLOC", [=] { char *p = (char *)(b ? VT_MALLOC(n) : VT_CALLOC(n)); p[n - 1] = 1; p = (char *)VT_REALLOC(p, n * 2); p[2 * n - 1] = 1; VT_FREE(p); }};
        default: return {"vt_gswap", [=] { char x[24] = "aaa", y[24] = "bbb"; vt_gswap(x, y, 24); }};
    }
}
}
SCENARIO("C14", c14_out_of_memory, 1) {
    mem_config(); quiet_debug(); if (choose(3)) vt_debug_disable_output(true); fs_mkdir("/work/keep"); fs_put("/work/data", gen_text(gen_size() % 9000, 2)); fs_mkdir("/work/tree/d1/d2"); for (int i = 0; i < 12; i++) fs_put("/work/tree/d1/file" + std::to_string(i), "x"); fs_put("/work/tree/.dot", ""); fs_put("/work/tree/d1/d2/deep", "y"); fs_mkdir("/work/doomed/a/b"); fs_put("/work/doomed/a/f", "1"); fs_put("/work/doomed/g", "2"); g_env["HOME"] = "/home/user";
    g_stderr_fails = choose(12) == 11; fs_put("/outside", "keep me");
    Env14 e; std::vector<Step14> steps; int n = 1 + (int)choose(8); for (int i = 0; i < n; i++) steps.push_back(gen_step(e));
    int at = (int)(choose(3) == 0 ? choose(4) : choose(3) ? choose(16) : choose(80)); ev("fail allocation %d", at); const char *cur = "none"; int started = -1; std::string out; size_t err0 = 0; Snap before;
    size_t keptn = 0;
    g_alloc_failed = false; g_calls_after_oom = 0;
    OpResult r = run_op([&] {
        g_fail_alloc_in = at; cur = "vt_mallocator_create"; e.al = vt_mallocator_create();
        for (size_t i = 0; i < steps.size(); i++) { cur = steps[i].name; ev("step %s", cur); started = (int)i; err0 = g_stderr.size(); keptn = e.kept.size(); steps[i].f(); if (g_alloc_failed) violation("returned-after-oom", "%s returned to its caller although an allocation it made had failed", cur); }
        cur = "vt_mallocator_destroy"; vt_mallocator_destroy(e.al); });
    g_fail_alloc_in = -1;
    if (!g_alloc_failed) { must_return(r, cur); probe("no allocation failed"); }
    else {
        probe(cur); CHECK(r.out == EXITED && r.code == EXIT_FAILURE, "wrong-end", "after an allocation in %s failed the program %s with status %d instead of ending with the failure status; %s", cur, outcome_names[r.out], r.code, g_last_assert.c_str());
        CHECK(g_calls_after_oom == 0, "went-on-after-oom", "after an allocation in %s had failed %llu more calls were made before the program ended", cur, (unsigned long long)g_calls_after_oom);
        if (!g_stderr_fails) { std::string msg = g_stderr.substr(err0); CHECK(has_ci(msg, "alloc") && has_ci(msg, "fail"), "no-message", "an allocation in %s failed without an allocation failure message on standard error: %s", cur, show(msg).c_str()); }
    }
    for (auto &k : e.kept) CHECK(fs_get(k.first) == k.second, "file-damaged", "%s, written before the failure, does not hold what was written", k.first.c_str());
    CHECK(fs_get("/outside") == "keep me", "file-damaged", "an unrelated file changed");
}

// ------------------------------------------------------------------ C15, C16
namespace {
struct Blk { char *p; size_t n; std::string m; };
struct Al { vt_mallocator_t *a = nullptr; std::vector<Blk> live; size_t allocs = 0, reallocs = 0, frees = 0, cur = 0, total = 0; };
size_t gen_bytes_n() { switch (choose(5)) { case 0: return 1 + choose(16); case 1: return 1 + choose(64); case 2: return 1 + choose(1000); case 3: return (size_t)1 << choose(13); default: return 1 + choose(9000); } }
void *al_alloc(vt_mallocator_t *a, size_t n, u32 way) { return way == 0 ? VT_ALLOCATOR_ALLOC(a, n) : way == 1 ? vt_mallocator_alloc(a, n, "file.c", "func", 12) : a->alloc(a, n, "file.c", "func", 12); }
void *al_realloc(vt_mallocator_t *a, void *p, size_t n, u32 way) { return way == 0 ? VT_ALLOCATOR_REALLOC(a, p, n) : way == 1 ? vt_mallocator_realloc(a, p, n, "file.c", "func", 12) : a->realloc(a, p, n, "file.c", "func", 12); }
void al_free(vt_mallocator_t *a, void *p, u32 way) { if (way == 0) VT_ALLOCATOR_FREE(a, p); else if (way == 1) vt_mallocator_free(a, p, "file.c", "func", 12); else a->free(a, p, "file.c", "func", 12); }
void check_stats(const Al &x, const char *what) {
    const auto &s = x.a->stats;
    CHECK(s.count_allocs == x.allocs && s.count_reallocs == x.reallocs && s.count_frees == x.frees, "wrong-counts", "%s: counters say %zu allocations, %zu reallocations, %zu frees; made were %zu, %zu, %zu", what, s.count_allocs, s.count_reallocs, s.count_frees, x.allocs, x.reallocs, x.frees);
    CHECK(s.count_bytes_allocated == x.cur, "wrong-current-bytes", "%s: counters say %zu bytes are allocated, the %zu live blocks have %zu", what, s.count_bytes_allocated, x.live.size(), x.cur);
    CHECK(s.count_bytes_allocated + s.count_bytes_freed == x.total, "wrong-total-bytes", "%s: current %zu plus freed %zu bytes is not the %zu bytes ever obtained", what, s.count_bytes_allocated, s.count_bytes_freed, x.total);
}
std::vector<u64> numbers(const std::string &s) { std::vector<u64> v; for (size_t i = 0; i < s.size();) { if (isdigit((unsigned char)s[i])) { u64 x = 0; while (i < s.size() && isdigit((unsigned char)s[i])) x = x * 10 + (s[i++] - '0'); v.push_back(x); } else i++; } return v; }
}
SCENARIO("C15", c15_stats, 3) {
    mem_config(); quiet_debug(); if (choose(4)) vt_debug_disable_output(true); std::vector<Al> as(1 + choose(2)); for (auto &x : as) { must_return(run_op([&] { x.a = vt_mallocator_create(); }), "vt_mallocator_create"); check_stats(x, "vt_mallocator_create"); }
    int nops = 1 + (int)(choose(3) == 2 ? choose(160) : choose(40)); u32 bias = choose(3);
    for (int k = 0; k < nops; k++) {
        Al &x = pick(as) .a == nullptr ? as[0] : as[choose((u32)as.size())]; u32 op = choose(10), way = choose(3); size_t n = gen_bytes_n(); const char *what = "";
        if (op >= 4 + bias && x.live.empty()) op = 0;
        if (op < 4 + bias) { char *p = nullptr; what = "alloc"; must_return(run_op([&] { p = (char *)al_alloc(x.a, n, way); }), "allocating"); CHECK(p, "no-block", "the allocator returned nothing"); x.live.push_back({p, n, ""}); x.allocs++; x.cur += n; x.total += n; ev("alloc %zu", n); }
        else if (op < 8) {
            size_t i = choose((u32)x.live.size()); Blk &b = x.live[i]; char *p = nullptr; u32 how = choose(4); if (how == 0) n = b.n; else if (how == 1) n = b.n + 1 + choose(200); else if (how == 2) n = 1 + choose((u32)b.n); what = n > b.n ? "realloc (grow)" : n < b.n ? "realloc (shrink)" : "realloc (same size)";
            must_return(run_op([&] { p = (char *)al_realloc(x.a, b.p, n, way); }), "reallocating"); CHECK(p, "no-block", "the allocator returned nothing"); ev("realloc %zu -> %zu %s", b.n, n, p == b.p ? "in place" : "moved"); probe(p == b.p ? "realloc in place" : "realloc moved"); x.reallocs++; if (n > b.n) x.total += n - b.n; x.cur += n; x.cur -= b.n; b.p = p; b.n = n;
        } else { size_t i = choose(3) == 0 ? x.live.size() - 1 : choose((u32)x.live.size()); Blk b = x.live[i]; what = "free"; must_return(run_op([&] { al_free(x.a, b.p, way); }), "freeing"); x.live.erase(x.live.begin() + i); x.frees++; x.cur -= b.n; ev("free %zu", b.n); }
        probe(what); for (auto &y : as) check_stats(y, what);
        if (x.live.size() > 16) probe("more than 16 live blocks"); if (x.live.size() > 32) probe("more than 32 live blocks");
    }
    for (auto &x : as) {
        size_t o0 = g_stdout.size(); must_return(run_op([&] { vt_mallocator_print_stats(x.a->stats); }), "vt_mallocator_print_stats"); auto v = numbers(g_stdout.substr(o0)); std::vector<u64> want = {x.allocs, x.reallocs, x.frees, x.total, x.cur, x.total - x.cur};
        CHECK(v == want, "wrong-report", "the printed statistics are not the %zu allocations, %zu reallocations, %zu frees, %zu total, %zu current and %zu freed bytes", x.allocs, x.reallocs, x.frees, x.total, x.cur, x.total - x.cur);
        check_stats(x, "vt_mallocator_print_stats");
    }
    if (choose(6) == 5) {   // the table of a long-lived process
        auto big = [&]() -> size_t { static const std::vector<u64> v = {0, 9, 10, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x7fffffff, 0x80000000ull, 0xffffffffull, 0x100000000ull, 9999999999ull, 10000000000ull, 123456789012ull, 1ull << 53, 0x3fffffffffffffffull}; return choose(3) ? pick(v) + choose(3) : (size_t)(mix(choose(65536)) >> (2 + choose(50))); };
        struct VitaAllocatorStats st = {}; st.count_allocs = big(); st.count_reallocs = big(); st.count_frees = big(); st.count_bytes_allocated = big(); st.count_bytes_freed = big(); size_t o0 = g_stdout.size(); must_return(run_op([&] { vt_mallocator_print_stats(st); }), "vt_mallocator_print_stats"); auto v = numbers(g_stdout.substr(o0));
        std::vector<u64> want = {st.count_allocs, st.count_reallocs, st.count_frees, st.count_bytes_allocated + st.count_bytes_freed, st.count_bytes_allocated, st.count_bytes_freed}; CHECK(v == want, "wrong-report", "the printed statistics are not the %zu allocations, %zu reallocations, %zu frees, %zu current and %zu freed bytes they were given", st.count_allocs, st.count_reallocs, st.count_frees, st.count_bytes_allocated, st.count_bytes_freed); probe("large numbers printed");
    }
    for (auto &x : as) must_return(run_op([&] { vt_mallocator_destroy(x.a); }), "vt_mallocator_destroy");
}
// thousands of blocks, and blocks of gigabytes (address space only)
RARE_SCENARIO("C15", c15_stats_at_scale, 1) {
    mem_config(); vt_debug_disable_output(true); Al x; must_return(run_op([&] { x.a = vt_mallocator_create(); }), "vt_mallocator_create"); bool huge = choose(2); static const std::vector<size_t> hs = {0x7fffffffull, 0x80000000ull, 0x80000001ull, 0xffffffffull, 0x100000000ull, 0x100000005ull};
    auto size = [&] { return huge && choose(2) ? pick(hs) : gen_bytes_n(); }; int rounds = huge ? 3 : 1 + (int)choose(4); more_cpu(60);
    for (int k = 0; k < rounds; k++) {
        u32 cnt = huge ? 1 : 200 + choose(900); for (u32 j = 0; j < cnt; j++) { size_t n = size(); char *p = nullptr; must_return(run_op([&] { p = (char *)al_alloc(x.a, n, 1); }), "allocating"); CHECK(p, "no-block", "the allocator returned nothing"); x.live.push_back({p, n, ""}); x.allocs++; x.cur += n; x.total += n; } check_stats(x, "alloc");
        cnt = huge ? 1 : choose(600); for (u32 j = 0; j < cnt && !x.live.empty(); j++) { Blk &b = x.live[choose((u32)x.live.size())]; size_t n = size(); char *p = nullptr; must_return(run_op([&] { p = (char *)al_realloc(x.a, b.p, n, 1); }), "reallocating"); CHECK(p, "no-block", "the allocator returned nothing"); x.reallocs++; if (n > b.n) x.total += n - b.n; x.cur += n; x.cur -= b.n; b.p = p; b.n = n; } check_stats(x, "realloc");
        cnt = huge ? choose(2) : choose(900); for (u32 j = 0; j < cnt && !x.live.empty(); j++) { size_t i = choose((u32)x.live.size()); Blk b = x.live[i]; must_return(run_op([&] { al_free(x.a, b.p, 1); }), "freeing"); x.live.erase(x.live.begin() + i); x.frees++; x.cur -= b.n; } check_stats(x, "free");
    }
    probe(huge ? "blocks of gigabytes" : "hundreds of blocks"); must_return(run_op([&] { vt_mallocator_destroy(x.a); }), "vt_mallocator_destroy"); for (auto &b : x.live) CHECK(!mem_live(b.p), "not-freed", "a block outlived its allocator");
}
// the counters as containers see them: live bytes are those of the containers' blocks, and nothing remains once all are destroyed
SCENARIO("C15", c15_stats_of_containers, 1) {
    mem_config(); vt_debug_disable_output(true); vt_mallocator_t *a = nullptr; must_return(run_op([&] { a = vt_mallocator_create(); }), "vt_mallocator_create"); struct C { int kind; struct VitaBaseArrayType *c; }; std::vector<C> cs; size_t last_total = 0;
    int nops = 1 + (int)choose(25);
    for (int k = 0; k < nops; k++) {
        u32 op = choose(8); size_t n = 1 + choose(40); std::string t = gen_text(1 + choose(200), 0); char *z = Z(t);
        if (op < 2 || cs.empty()) { C c; c.kind = (int)choose(3); must_return(run_op([&] { c.c = c.kind == 0 ? vt_vec_create(n, 4, a) : c.kind == 1 ? vt_plist_create(n, a) : vt_str_create(z, a); }), "creating a container"); cs.push_back(c); }
        else { size_t i = choose((u32)cs.size()); C c = cs[i]; bool kill = op == 2; must_return(run_op([&] {
                if (kill) { if (c.kind == 0) vt_vec_destroy(c.c); else if (c.kind == 1) vt_plist_destroy(c.c); else vt_str_destroy(c.c); return; }
                switch (c.kind) { case 0: if (op < 6) for (size_t j = 0; j < n; j++) vt_vec_push_backi32(c.c, 5); else if (op == 6) vt_vec_shrink(c.c); else vt_vec_resize(c.c, n); break;
                    case 1: if (op < 6) for (size_t j = 0; j < n; j++) vt_plist_push_back(c.c, z); else if (op == 6) vt_plist_shrink(c.c); else vt_plist_resize(c.c, n); break;
                    default: if (op < 5) vt_str_append(c.c, z); else if (op == 5) vt_str_appendf(c.c, "%s.%zu", z, n); else if (op == 6) vt_str_shrink(c.c); else vt_str_resize(c.c, n); } }), "a container operation"); if (kill) cs.erase(cs.begin() + i); }
        size_t want = 0, b; for (auto &c : cs) { if (mem_live(c.c, &b)) want += b; if (mem_live(c.c->ptr, &b)) want += b; }
        CHECK(a->stats.count_bytes_allocated == want, "wrong-current-bytes", "counters say %zu bytes are allocated, the blocks of the %zu containers have %zu", a->stats.count_bytes_allocated, cs.size(), want);
        CHECK(a->stats.count_allocs - a->stats.count_frees == 2 * cs.size(), "wrong-counts", "%zu allocations and %zu frees counted with %zu containers of two blocks alive", a->stats.count_allocs, a->stats.count_frees, cs.size());
        size_t tot = a->stats.count_bytes_allocated + a->stats.count_bytes_freed; CHECK(tot >= last_total, "wrong-total-bytes", "the total of bytes ever obtained fell from %zu to %zu", last_total, tot); last_total = tot;
    }
    probe("containers"); must_return(run_op([&] { for (auto &c : cs) { if (c.kind == 0) vt_vec_destroy(c.c); else if (c.kind == 1) vt_plist_destroy(c.c); else vt_str_destroy(c.c); } }), "destroying containers");
    CHECK(a->stats.count_bytes_allocated == 0 && a->stats.count_allocs == a->stats.count_frees, "wrong-current-bytes", "after all containers were destroyed %zu bytes count as allocated (%zu allocations, %zu frees)", a->stats.count_bytes_allocated, a->stats.count_allocs, a->stats.count_frees);
    must_return(run_op([&] { vt_mallocator_destroy(a); }), "vt_mallocator_destroy");
}

SCENARIO("C16", c16_blocks, 3) {
    mem_config(); quiet_debug(); if (choose(4)) vt_debug_disable_output(true); size_t base = mem_live_count(); u32 serial = 1; std::vector<Al> as; u32 bias = choose(3);
    auto mk = [&] { Al x; must_return(run_op([&] { x.a = vt_mallocator_create(); }), "vt_mallocator_create"); CHECK(x.a && x.a->alloc && x.a->realloc && x.a->free, "no-allocator", "vt_mallocator_create gave no usable allocator"); as.push_back(x); };
    auto fill = [&](Blk &b) { b.m.resize(b.n); u32 s = serial++; for (size_t i = 0; i < b.n; i++) b.m[i] = (char)mix((u64)s * 7919 + i); memcpy(b.p, b.m.data(), b.n); };
    auto check_all = [&](const char *what) {
        std::map<char *, size_t> iv;
        for (auto &x : as) for (auto &b : x.live) { size_t sz = 0; CHECK(mem_live(b.p, &sz), "lost-block", "%s: a block of %zu bytes that was not freed is no longer allocated", what, b.n); CHECK(sz >= b.n, "small-block", "%s: a block requested with %zu bytes has %zu", what, b.n, sz); CHECK(!memcmp(b.p, b.m.data(), b.n), "bytes-changed", "%s: the content of a block of %zu bytes changed", what, b.n);
            CHECK(!iv.count(b.p), "overlap", "%s: two live blocks share an address", what); iv[b.p] = b.n; }
        char *pe = nullptr; for (auto &x : iv) { CHECK(x.first >= pe, "overlap", "%s: two live blocks overlap", what); pe = x.first + x.second; } };
    mk(); int nops = 1 + (int)(choose(3) == 2 ? choose(140) : choose(40));
    for (int k = 0; k < nops; k++) {
        if (choose(20) == 19 && as.size() < 3) mk();
        size_t w = choose((u32)as.size()); Al &x = as[w]; u32 op = choose(12), way = choose(3); size_t n = gen_bytes_n(); const char *what;
        if (op >= 5 + bias && op < 11 && x.live.empty()) op = 0;
        if (op == 11 && (as.size() < 2 || choose(2))) op = 0;
        if (op < 5 + bias && op < 11) { Blk b{nullptr, n, ""}; what = "alloc"; size_t l0 = mem_live_count(); must_return(run_op([&] { b.p = (char *)al_alloc(x.a, n, way); }), "allocating"); CHECK(b.p, "no-block", "the allocator returned nothing"); size_t sz = 0; CHECK(mem_live(b.p, &sz) && sz >= n, "small-block", "a block requested with %zu bytes has %zu", n, sz);
            for (size_t i = 0; i < n; i++) CHECK(b.p[i] == 0, "not-zeroed", "byte %zu of a new block of %zu bytes is %02x", i, n, (unsigned char)b.p[i]); CHECK(mem_live_count() == l0 + 1, "wrong-blocks", "allocating one block changed the number of live blocks by %lld", (long long)mem_live_count() - (long long)l0); fill(b); x.live.push_back(b); }
        else if (op < 9) { size_t i = choose((u32)x.live.size()); Blk &b = x.live[i]; u32 how = choose(4); if (how == 0) n = b.n; else if (how == 1) n = b.n + 1 + choose(300); else if (how == 2) n = 1 + choose((u32)b.n); what = "realloc"; size_t l0 = mem_live_count(); char *p = nullptr, *old = b.p; must_return(run_op([&] { p = (char *)al_realloc(x.a, b.p, n, way); }), "reallocating");
            CHECK(p, "no-block", "the allocator returned nothing"); size_t sz = 0; CHECK(mem_live(p, &sz) && sz >= n, "small-block", "a block reallocated to %zu bytes has %zu", n, sz); CHECK(mem_live_count() == l0, "wrong-blocks", "reallocating a block changed the number of live blocks by %lld", (long long)mem_live_count() - (long long)l0); CHECK(p == old || !mem_live(old), "wrong-blocks", "the old block is still allocated after a reallocation that moved it");
            size_t keep = std::min(n, b.n); CHECK(!memcmp(p, b.m.data(), keep), "bytes-changed", "the first %zu bytes changed when a block of %zu bytes was reallocated to %zu", keep, b.n, n); b.p = p; b.n = n; fill(b); probe(p == old ? "realloc in place" : "realloc moved"); }
        else if (op < 11) { size_t i = choose(3) == 0 ? x.live.size() - 1 : choose((u32)x.live.size()); Blk b = x.live[i]; what = "free"; size_t l0 = mem_live_count(); must_return(run_op([&] { al_free(x.a, b.p, way); }), "freeing"); CHECK(!mem_live(b.p), "not-freed", "a block of %zu bytes is still allocated after it was freed", b.n); CHECK(mem_live_count() + 1 == l0, "wrong-blocks", "freeing one block changed the number of live blocks by %lld", (long long)mem_live_count() - (long long)l0); x.live.erase(x.live.begin() + i); }
        else { what = "vt_mallocator_destroy"; Al d = x; as.erase(as.begin() + w); must_return(run_op([&] { vt_mallocator_destroy(d.a); }), what); for (auto &b : d.live) CHECK(!mem_live(b.p), "not-freed", "a block of %zu bytes outlived its allocator", b.n); }
        probe(what); ev("%s %u %zu way %u", what, op, n, way); check_all(what); size_t mx = 0; for (auto &y : as) mx = std::max(mx, y.live.size()); if (mx > 16) probe("more than 16 live blocks"); if (mx > 32) probe("more than 32 live blocks");
    }
    while (!as.empty()) { Al d = as.back(); as.pop_back(); size_t nb = d.live.size(); must_return(run_op([&] { vt_mallocator_destroy(d.a); }), "vt_mallocator_destroy"); check_all("vt_mallocator_destroy"); probe(nb ? "destroyed with live blocks" : "destroyed empty"); }
    CHECK(mem_live_count() == base, "leak", "%lld blocks remain after every allocator was destroyed", (long long)mem_live_count() - (long long)base);
}

RARE_SCENARIO("C16", c16_blocks_at_scale, 2) {
    mem_config(); vt_debug_disable_output(true); more_cpu(60); size_t base = mem_live_count(); u32 serial = 1;
    if (choose(30) == 29) {   // tens of thousands of blocks at once
        size_t n = choose(2) ? 32768 + choose(40) : 65500 + choose(600); std::vector<char *> ps(n); vt_mallocator_t *a = nullptr; must_return(run_op([&] { a = vt_mallocator_create(); for (size_t i = 0; i < n; i++) { ps[i] = (char *)al_alloc(a, 1 + i % 3, 1); *ps[i] = (char)i; } }), "allocating"); std::vector<char *> so = ps; std::sort(so.begin(), so.end()); for (size_t i = 1; i < n; i++) CHECK(so[i] != so[i - 1], "overlap", "two of %zu live blocks share an address", n);
        for (size_t i = 0; i < n; i++) CHECK(mem_live(ps[i]) && *ps[i] == (char)i, "lost-block", "block %zu of %zu is gone or changed", i, n); std::vector<size_t> fr; for (int k = 0; k < 8; k++) fr.push_back(choose(2) ? n - 1 - choose(300) : choose((u32)n)); std::sort(fr.begin(), fr.end()); fr.erase(std::unique(fr.begin(), fr.end()), fr.end());
        must_return(run_op([&] { for (size_t i : fr) al_free(a, ps[i], 1); }), "freeing"); for (size_t i : fr) CHECK(!mem_live(ps[i]), "not-freed", "block %zu of %zu is still allocated after it was freed", i, n); CHECK(mem_live_count() == base + 2 + n - fr.size(), "wrong-blocks", "%lld blocks are live", (long long)(mem_live_count() - base)); must_return(run_op([&] { vt_mallocator_destroy(a); }), "vt_mallocator_destroy");
        CHECK(mem_live_count() == base, "leak", "%lld blocks remain after the allocator was destroyed", (long long)mem_live_count() - (long long)base); probe("tens of thousands of blocks"); return;
    }
 std::vector<Al> as(1 + choose(2)); for (auto &x : as) must_return(run_op([&] { x.a = vt_mallocator_create(); }), "vt_mallocator_create");
    auto size = [&]() -> size_t { return choose(40) == 39 ? 65530 + choose(5000) : 1 + choose(60); };
    auto fill = [&](Blk &b) { b.m.resize(b.n); u32 s = serial++; for (size_t i = 0; i < b.n; i++) b.m[i] = (char)(s * 31 + i * 7); memcpy(b.p, b.m.data(), b.n); };
    auto check_all = [&](const char *what) { std::map<char *, size_t> iv; for (auto &x : as) for (auto &b : x.live) { size_t sz = 0; CHECK(mem_live(b.p, &sz) && sz >= b.n, "lost-block", "%s: a block of %zu bytes that was not freed is no longer allocated", what, b.n); CHECK(!memcmp(b.p, b.m.data(), b.n), "bytes-changed", "%s: the content of a block of %zu bytes changed", what, b.n); CHECK(!iv.count(b.p), "overlap", "%s: two live blocks share an address", what); iv[b.p] = b.n; } };
    int rounds = 1 + (int)choose(3);
    for (int k = 0; k < rounds; k++) for (auto &x : as) {
        for (u32 c = 100 + choose(900); c-- > 0;) { Blk b{nullptr, size(), ""}; must_return(run_op([&] { b.p = (char *)al_alloc(x.a, b.n, 1); }), "allocating"); CHECK(b.p, "no-block", "the allocator returned nothing"); for (size_t i = 0; i < b.n; i++) CHECK(b.p[i] == 0, "not-zeroed", "byte %zu of a new block of %zu bytes is %02x", i, b.n, (unsigned char)b.p[i]); fill(b); x.live.push_back(b); } check_all("alloc");
        for (u32 c = choose(400); c-- > 0;) { Blk &b = x.live[choose((u32)x.live.size())]; size_t n = size(), keep = std::min(n, b.n); char *p = nullptr; must_return(run_op([&] { p = (char *)al_realloc(x.a, b.p, n, 1); }), "reallocating"); CHECK(p && !memcmp(p, b.m.data(), keep), "bytes-changed", "the first %zu bytes changed when a block of %zu bytes was reallocated to %zu", keep, b.n, n); b.p = p; b.n = n; fill(b); } check_all("realloc");
        for (u32 c = choose(900); c-- > 0 && !x.live.empty();) { size_t i = choose((u32)x.live.size()); Blk b = x.live[i]; must_return(run_op([&] { al_free(x.a, b.p, 1); }), "freeing"); CHECK(!mem_live(b.p), "not-freed", "a block of %zu bytes is still allocated after it was freed", b.n); x.live[i] = x.live.back(); x.live.pop_back(); } check_all("free");
        if (x.live.size() > 256) probe("more than 256 live blocks"); if (x.live.size() > 1024) probe("more than 1024 live blocks");
    }
    while (!as.empty()) { Al d = as.back(); as.pop_back(); must_return(run_op([&] { vt_mallocator_destroy(d.a); }), "vt_mallocator_destroy"); check_all("vt_mallocator_destroy"); for (auto &b : d.live) CHECK(!mem_live(b.p), "not-freed", "a block of %zu bytes outlived its allocator", b.n); }
    CHECK(mem_live_count() == base, "leak", "%lld blocks remain after every allocator was destroyed", (long long)mem_live_count() - (long long)base);
}

// ------------------------------------------------------------------ C17
namespace {
struct Custom { struct VitaBaseAllocatorType t; std::map<char *, size_t> live; u64 allocs = 0, calls = 0; const char *name; };
Custom *of(struct VitaBaseAllocatorType *a) { return (Custom *)a; }
const size_t HDR = 16;
void *c_alloc(struct VitaBaseAllocatorType *const a, const size_t n, const char *const, const char *const, const size_t) { Custom *c = of(a); c->calls++; c->allocs++; char *p = (char *)mem_alloc(n + HDR, true); memset(p, 0x5A, HDR); c->live[p + HDR] = n; return p + HDR; }
void *c_realloc(struct VitaBaseAllocatorType *const a, void *q, const size_t n, const char *const, const char *const, const size_t) {
    Custom *c = of(a); c->calls++; auto it = c->live.find((char *)q); if (it == c->live.end()) violation("foreign-block", "allocator %s was asked to reallocate a block it never handed out", c->name);
    c->allocs++; size_t old = it->second; char *p = (char *)mem_alloc(n + HDR, false); memset(p, 0x5A, HDR); memcpy(p + HDR, q, std::min(old, n)); c->live.erase(it); mem_free((char *)q - HDR); c->live[p + HDR] = n; return p + HDR; }
void c_free(struct VitaBaseAllocatorType *const a, void *q, const char *const, const char *const, const size_t) { Custom *c = of(a); c->calls++; if (!q) return; auto it = c->live.find((char *)q); if (it == c->live.end()) violation("foreign-block", "allocator %s was asked to free a block it never handed out", c->name); c->live.erase(it); mem_free((char *)q - HDR); }

struct Owner { int id; };      // 0 default, 1 and 2 custom, 3 tracking
struct World17 {
    Custom c[2]; vt_mallocator_t *al = nullptr; u64 seq0, ca0[2], cc0[2], ma0;
    World17() { memset(&c[0].t, 0, sizeof c[0].t); memset(&c[1].t, 0, sizeof c[1].t); for (int i = 0; i < 2; i++) { c[i].t.alloc = c_alloc; c[i].t.realloc = c_realloc; c[i].t.free = c_free; c[i].name = i ? "B" : "A"; } must_return(run_op([&] { al = vt_mallocator_create(); }), "vt_mallocator_create"); }
    struct VitaBaseAllocatorType *get(int o) { return o == 0 ? nullptr : o == 3 ? al : &c[o - 1].t; }
    u64 mcalls() { return al->stats.count_allocs + al->stats.count_reallocs + al->stats.count_frees; }
    void begin() { seq0 = mem_seq(); for (int i = 0; i < 2; i++) { ca0[i] = c[i].allocs; cc0[i] = c[i].calls; } ma0 = mcalls(); }
    // after an operation that may only use the allocators in `used` (bit per owner)
    void end(u32 used, const char *what, bool temps = false) {
        for (int i = 0; i < 2; i++) if (!(used & (2u << i))) CHECK(c[i].calls == cc0[i], "wrong-allocator", "%s called allocator %s, which it has nothing to do with", what, c[i].name);
        if (!(used & 8)) CHECK(mcalls() == ma0, "wrong-allocator", "%s called the tracking allocator, which it has nothing to do with", what);
        if (!(used & 1) && !(used & 8) && !temps) { u64 d = mem_seq() - seq0, x = c[0].allocs - ca0[0] + c[1].allocs - ca0[1]; CHECK(d == x, "default-heap", "%s took %llu blocks from the default heap instead of its allocator", what, (unsigned long long)(d - x)); }
    }
    void belongs(const void *p, int o, const char *what, const char *part) {
        bool in[4] = {false, c[0].live.count((char *)p) > 0, c[1].live.count((char *)p) > 0, false}; bool heap = mem_live(p);
        if (o == 0) CHECK(heap, "wrong-allocator", "%s: the %s of a container without allocator is not a block of the default heap", what, part);
        else if (o == 3) { CHECK(heap, "wrong-allocator", "%s: the %s is not a block of the tracking allocator", what, part); }
        else CHECK(in[o], "wrong-allocator", "%s: the %s of a container of allocator %s does not come from it", what, part, c[o - 1].name);
    }
    void belongs(const struct VitaBaseArrayType *x, int o, const char *what) { belongs(x, o, what, "object"); belongs(x->ptr, o, what, "data"); CHECK(x->alloctr == get(o), "wrong-allocator", "%s: the container does not refer to the allocator it was given", what); }
    size_t mlive() { return al->stats.count_allocs - al->stats.count_frees; }
};
struct C17 { int kind, o; struct VitaBaseArrayType *c; };   // 0 vector 1 list 2 string
void destroy(const C17 &x) { if (x.kind == 0) vt_vec_destroy(x.c); else if (x.kind == 1) vt_plist_destroy(x.c); else vt_str_destroy(x.c); }
}
SCENARIO("C17", c17_containers, 4) {
    mem_config(); vt_debug_disable_output(true); size_t base; World17 W; base = mem_live_count(); std::vector<C17> cs; int nops = 1 + (int)choose(40); size_t zs = 0;
    auto ZZ = [&](const std::string &s) { zs++; return Z(s); };
    auto make = [&] { C17 x; x.kind = (int)choose(3); x.o = (int)choose(4); size_t n = 1 + choose(30); std::string t = gen_text(1 + choose(60), 0); char *z = ZZ(t); u32 how = choose(4); W.begin(); auto *a = W.get(x.o); char *own = nullptr;
        if (x.kind == 2 && how == 3) must_return(run_op([&] { own = (char *)(a ? a->alloc(a, t.size() + 1, "f", "g", 1) : VT_CALLOC(t.size() + 1)); memcpy(own, z, t.size() + 1); }), "allocating"), W.begin();
        must_return(run_op([&] { if (x.kind == 0) x.c = vt_vec_create(n, 4, a); else if (x.kind == 1) x.c = vt_plist_create(n, a); else x.c = how == 0 ? vt_str_create(z, a) : how == 1 ? vt_str_create_len(n, a) : how == 2 ? vt_str_create_capacity(n, a) : vt_str_take_ownership(own, a); }), "creating a container"); const char *w = x.kind == 0 ? "vt_vec_create" : x.kind == 1 ? "vt_plist_create" : "creating a string"; W.end(1u << x.o, w); W.belongs(x.c, x.o, w); if (own) CHECK(x.c->ptr == own, "wrong-allocator", "vt_str_take_ownership did not keep the given text"); cs.push_back(x); };
    make();
    auto fill = [&](C17 &x) { if (x.c->len) return; must_return(run_op([&] { if (x.kind == 0) vt_vec_push_backi32(x.c, 3); else if (x.kind == 1) vt_plist_push_back(x.c, (void *)"p"); else vt_str_append(x.c, "text=a,b;c"); }), "filling"); };
    for (int k = 0; k < nops; k++) {
        if (cs.empty() || (choose(5) == 4 && cs.size() < 6)) make();
        size_t i = choose((u32)cs.size()); C17 &x = cs[i]; size_t n = 1 + choose(50); std::string t = gen_text(1 + (choose(4) == 3 ? 1000 + choose(60) : choose(80)), 0); char *z = ZZ(t); u32 op = choose(16); std::string what; std::function<void()> f; u32 used = 1u << x.o; bool temps = false, b = choose(2); C17 made{-1, 0, nullptr}; struct VitaBaseArrayType *c = x.c; bool gone = false;
        if (choose(8) == 7) { what = "destroying a container"; f = [&] { destroy(x); }; gone = true; }
        else if (x.kind == 0) switch (op) {
            case 0: case 1: what = "vt_vec_push_back"; f = [&] { for (size_t j = 0; j < n; j++) vt_vec_push_backi32(c, (int)j); }; break; case 2: case 3: what = "vt_vec_push_front"; f = [&] { for (size_t j = 0; j < n; j++) vt_vec_push_fronti32(c, (int)j); }; break;
            case 4: case 5: fill(x); what = "vt_vec_insert"; f = [&] { for (size_t j = 0; j < n; j++) vt_vec_inserti32(c, 4, 0); }; break; case 6: what = "vt_vec_reserve"; f = [&] { vt_vec_reserve(c, n); }; break; case 7: what = "vt_vec_resize"; f = [&] { vt_vec_resize(c, n); }; break; case 8: case 9: what = "vt_vec_shrink"; f = [&] { vt_vec_shrink(c); }; break;
            case 10: fill(x); what = "vt_vec_remove(stable)"; f = [&] { vt_vec_remove(c, 0, VT_REMOVE_STRATEGY_STABLE); }; break; case 11: fill(x); what = "vt_vec_remove(fast)"; temps = true; used |= 1; f = [&] { vt_vec_remove(c, 0, VT_REMOVE_STRATEGY_FAST); }; break; case 12: what = "vt_vec_clear"; f = [&] { vt_vec_clear(c); }; break; case 13: what = "vt_vec_pop"; f = [&] { vt_vec_pop(c); }; break;
            default: fill(x); made.kind = 0; made.o = (int)choose(4); what = "vt_vec_dup"; used |= 1u << made.o; f = [&] { made.c = vt_vec_dup(c, W.get(made.o)); }; }
        else if (x.kind == 1) switch (op) {
            case 0: case 1: what = "vt_plist_push_back"; f = [&] { for (size_t j = 0; j < n; j++) vt_plist_push_back(c, z); }; break; case 2: case 3: what = "vt_plist_push_front"; f = [&] { for (size_t j = 0; j < n; j++) vt_plist_push_front(c, z); }; break;
            case 4: case 5: fill(x); what = "vt_plist_insert"; f = [&] { for (size_t j = 0; j < n; j++) vt_plist_insert(c, z, 0); }; break; case 6: what = "vt_plist_reserve"; f = [&] { vt_plist_reserve(c, n); }; break; case 7: what = "vt_plist_resize"; f = [&] { vt_plist_resize(c, n); vt_plist_clear(c); }; break; case 8: case 9: what = "vt_plist_shrink"; f = [&] { vt_plist_shrink(c); }; break;
            case 10: fill(x); what = "vt_plist_remove"; f = [&] { vt_plist_remove(c, 0, b ? VT_REMOVE_STRATEGY_STABLE : VT_REMOVE_STRATEGY_FAST); }; break; case 11: what = "vt_plist_clear"; f = [&] { vt_plist_clear(c); }; break; case 12: what = "vt_plist_pop"; f = [&] { vt_plist_pop(c); }; break;
            default: fill(x); made.kind = 1; made.o = (int)choose(4); what = "vt_plist_dup"; used |= 1u << made.o; f = [&] { made.c = vt_plist_dup(c, W.get(made.o)); }; }
        else switch (op) {
            case 0: what = "vt_str_append"; f = [&] { vt_str_append(c, z); }; break; case 1: what = "vt_str_append_n"; f = [&] { vt_str_append_n(c, z, 1 + t.size() / 2); }; break; case 2: what = "vt_str_appendf"; f = [&] { vt_str_appendf(c, "%s|%zu|%s", z, n, z); }; break;
            case 3: fill(x); what = "vt_str_insert"; f = [&] { vt_str_insert(c, z, 0); }; break; case 4: case 5: fill(x); what = "vt_str_insertf"; f = [&] { vt_str_insertf(c, 0, "%s-%zu", z, n); }; break; case 6: what = "vt_str_reserve"; f = [&] { vt_str_reserve(c, n); }; break; case 7: what = "vt_str_resize"; f = [&] { vt_str_resize(c, n); vt_str_validate_len(c); }; break; case 8: what = "vt_str_shrink"; f = [&] { vt_str_shrink(c); }; break;
            case 9: fill(x); what = "vt_str_replace"; f = [&] { std::string pat(1, *(char *)c->ptr); char pz[2] = {pat[0], 0}; if (b) vt_str_replace(c, pz, "<new>"); else { vt_str_replace_first(c, pz, "<first>"); vt_str_replace_last(c, pz, "last"); } }; break;
            case 10: fill(x); what = "vt_str_insert_before/after"; f = [&] { char pz[2] = {*(char *)c->ptr, 0}; if (b) vt_str_insert_before(c, pz, z); else vt_str_insert_after(c, pz, z); }; break; case 11: what = "vt_str_clear"; f = [&] { vt_str_clear(c); }; break; case 12: fill(x); what = "vt_str_remove"; f = [&] { vt_str_remove(c, 0, 1); vt_str_strip(c); }; break;
            case 13: fill(x); what = "vt_str_set_n"; f = [&] { vt_str_set_n(c, z, std::min(t.size(), (size_t)c->len)); }; break;
            default: fill(x); made.kind = 2; made.o = x.o; what = "vt_str_dup"; f = [&] { made.c = vt_str_dup(c); }; }
        ev("%s kind=%d owner=%d", what.c_str(), x.kind, x.o); W.begin(); must_return(run_op(f), what.c_str()); W.end(used, what.c_str(), temps); probe(what.c_str());
        if (gone) { if (x.o == 1 || x.o == 2) { CHECK(!W.c[x.o - 1].live.count((char *)c), "leak", "a destroyed container's object is still held from its allocator"); } cs.erase(cs.begin() + i); }
        if (made.kind >= 0) { CHECK(made.c, "no-copy", "%s gave nothing", what.c_str()); cs.push_back(made); }
        size_t per[4] = {0, 0, 0, 0}; for (auto &y : cs) { W.belongs(y.c, y.o, what.c_str()); per[y.o] += 2; }
        for (int o = 1; o <= 2; o++) CHECK(W.c[o - 1].live.size() == per[o], "leak", "%s: allocator %s has %zu blocks out with %zu containers alive", what.c_str(), W.c[o - 1].name, W.c[o - 1].live.size(), per[o] / 2);
        CHECK(W.mlive() == per[3], "leak", "%s: the tracking allocator has %zu blocks out with %zu containers alive", what.c_str(), W.mlive(), per[3] / 2);
        // blocks in the heap: the containers' blocks (wherever they come from) and the harness's texts
        CHECK(mem_live_count() == base + 2 * cs.size() + zs, "leak", "%s: %lld blocks are alive beyond those of the %zu containers", what.c_str(), (long long)(mem_live_count() - base - zs) - (long long)(2 * cs.size()), cs.size());
    }
    while (!cs.empty()) { C17 x = cs.back(); cs.pop_back(); must_return(run_op([&] { destroy(x); }), "destroying a container"); }
    CHECK(W.c[0].live.empty() && W.c[1].live.empty() && W.mlive() == 0 && mem_live_count() == base + zs, "leak", "blocks remain after every container was destroyed");
    must_return(run_op([&] { vt_mallocator_destroy(W.al); }), "vt_mallocator_destroy");
}
// functions that build containers from others or from the system, each with an allocator of its own
SCENARIO("C17", c17_results, 3) {
    mem_config(); vt_debug_disable_output(true); g_env["HOME"] = "/home/user"; g_exe_path = "/opt/app/bin/prog"; World17 W; int n = 1 + (int)choose(8);
    fs_put("/work/data", gen_text(choose(2) ? choose(60) : gen_size() % 9000, 2)); fs_mkdir("/work/tree/d1/d2"); fs_put("/work/tree/f", "1"); fs_put("/work/tree/d1/g", "2"); size_t zs = 0; auto ZZ = [&](const std::string &s) { zs++; return Z(s); }; std::vector<std::pair<size_t, int>> dummy;
    for (int k = 0; k < n; k++) {
        size_t zs0 = zs; int o = (int)choose(4), o2 = (int)choose(4); auto *a = W.get(o), *a2 = W.get(o2); std::string what; std::vector<C17> out; u32 op = choose(16); bool b = choose(2), given = choose(2); std::string word = gen_text(1 + choose(30), 0); std::string joined = word; size_t parts = 1 + choose(30); for (size_t i = 0; i < parts; i++) joined += "," + word; char *z = ZZ(op == 0 ? joined : word), *zj = ZZ(joined); size_t base = mem_live_count(), m0 = W.mlive(); u32 used = 1u << o; bool temps = false; C17 src{-1, 0, nullptr}, dst{-1, 0, nullptr};
        auto mkstr = [&](const char *t, int ow) { C17 s{2, ow, nullptr}; must_return(run_op([&] { s.c = vt_str_create(t, W.get(ow)); }), "vt_str_create"); return s; };
        auto mkcap = [&](int ow) { C17 s{2, ow, nullptr}; must_return(run_op([&] { s.c = vt_str_create_capacity(3, W.get(ow)); }), "vt_str_create_capacity"); return s; };
        auto mklist = [&](int ow) { C17 s{1, ow, nullptr}; must_return(run_op([&] { s.c = vt_plist_create(1, W.get(ow)); }), "vt_plist_create"); return s; };
        auto go = [&](const std::function<void()> &f) { W.begin(); must_return(run_op(f), what.c_str()); W.end(used, what.c_str(), temps); probe(what.c_str()); ev("%s owner %d/%d given %d", what.c_str(), o, o2, given); };
        struct VitaBaseArrayType *res = nullptr; int ro = o;   // expected owner of the result
        switch (op) {
            case 0: { what = given ? "vt_str_split(list)" : "vt_str_split"; src = mkstr(z, o2); if (given) dst = mklist(o); else ro = 0; used = 1u << ro; if (given && o2) {} go([&] { res = vt_str_split(dst.c, src.c, ","); }); CHECK(res && (!given || res == dst.c), "no-result", "%s gave no list", what.c_str());
                for (size_t i = 0; i < res->len; i++) { W.belongs((struct VitaBaseArrayType *)res->ptr2[i], ro, what.c_str()); out.push_back({2, ro, (struct VitaBaseArrayType *)res->ptr2[i]}); } if (!given) out.push_back({1, 0, res}); W.belongs(res, ro, what.c_str()); break; }
            case 1: case 2: { what = given ? "vt_str_join(string)" : "vt_str_join"; src = mklist(o2); for (size_t i = 0; i < parts; i++) must_return(run_op([&] { vt_plist_push_back(src.c, z); }), "vt_plist_push_back"); if (given) dst = mkcap(o); else ro = 0; used = 1u << ro; go([&] { res = b ? vt_str_join(dst.c, ", ", src.c) : vt_path_build(dst.c, src.c); }); goto single; }
            case 3: { what = given ? "vt_str_join_n(string)" : "vt_str_join_n"; if (given) dst = mkcap(o); else ro = 0; used = 1u << ro; go([&] { res = b ? vt_str_join_n(dst.c, "; ", 4, z, zj, "x", z) : vt_path_build_n(dst.c, 3, z, "x", zj); }); goto single; }
            case 4: case 5: { what = given ? "vt_str_split_between(string)" : "vt_str_split_between"; if (given) dst = mkcap(o); else ro = 0; used = 1u << ro; char *zt = ZZ("[[" + joined + "]]"); base++; go([&] { res = vt_str_split_between(dst.c, zt, b ? "[[" : "]]", b ? "]]" : "[["); }); if (!b) { CHECK(!res, "no-result", "%s found something between strings in the wrong order", what.c_str()); break; } goto single; }
            case 6: case 7: { what = given ? "vt_str_pop_get(string)" : "vt_str_pop_get"; src = mkstr(zj, o2); if (given) dst = mkcap(o); else ro = 0; used = 1u << ro | 1u << o2; go([&] { res = op == 6 ? vt_str_pop_get_first(dst.c, src.c, ",") : vt_str_pop_get_last(dst.c, src.c, ","); }); goto single; }
            case 8: { what = b ? "vt_file_read" : "vt_file_readb"; temps = true; used |= 1; go([&] { res = b ? vt_file_read("/work/data", a) : vt_file_readb("/work/data", a); }); goto single_new; }
            case 9: { what = "vt_path_get_cwd"; temps = true; used |= 1; go([&] { res = vt_path_get_cwd(a); }); goto single_new; }
            case 10: { what = "vt_path_get_this_exe_location"; temps = true; used |= 1; go([&] { res = vt_path_get_this_exe_location(a); }); goto single_new; }
            case 11: { what = "vt_path_expand_tilda"; temps = true; used |= 1; char *zt = ZZ((b ? "~/" : "/x/") + joined); base++; go([&] { res = vt_path_expand_tilda(zt, a); }); goto single_new; }
            case 12: { what = given ? "vt_path_basename(string)" : "vt_path_basename"; if (given) dst = mkcap(o); else ro = 0; used = 1u << ro; char *zt = ZZ("/usr/lib/" + joined); base++; go([&] { res = vt_path_basename(dst.c, zt); }); goto single; }
            case 13: { what = "vt_path_dir_list"; dst = mklist(o); temps = true; used |= 1; go([&] { res = b ? vt_path_dir_list(dst.c, "/work/tree", false) : vt_path_dir_list_recurse(dst.c, "/work/tree", false); }); CHECK(res == dst.c, "no-result", "%s gave no list", what.c_str()); W.belongs(res, o, what.c_str()); for (size_t i = 0; i < res->len; i++) { W.belongs((struct VitaBaseArrayType *)res->ptr2[i], o, what.c_str()); }
                if (choose(2)) { what = "vt_path_dir_free"; go([&] { vt_path_dir_free(dst.c); }); dst.kind = -1; } else for (size_t i = 0; i < res->len; i++) out.push_back({2, o, (struct VitaBaseArrayType *)res->ptr2[i]}); break; }
            default: { what = "vt_argopt_parse"; char *a0 = ZZ("prog"), *a1 = ZZ("--name=" + word), *a2_ = ZZ("-c"), *a3 = ZZ(joined), *a4 = ZZ("--name"), *a5 = ZZ(joined), *a6 = ZZ("-c=" + word + word), *bad = ZZ("--nope"); base += 8; vt_str_t *name = nullptr; char *c = nullptr; int num = 0; std::vector<const char *> argv = {a0, a1, a2_, a3, a4, a5, a6}; if (b) argv.insert(argv.begin() + 1 + choose(2) * 3, bad); argv.push_back(nullptr);
                vt_argopt_t ov[] = {{"--name", "-n", "d", (void **)&name, VT_TYPE_STR}, {"--cstr", "-c", "d", (void **)&c, VT_TYPE_CSTR}, {"--num", "-x", "d", (void **)&num, VT_TYPE_INT32}}; int rc = 0; go([&] { rc = vt_argopt_parse(argv.size() - 1, argv.data(), 3, ov, a); }); if (name) { W.belongs(name, o, what.c_str()); out.push_back({2, o, name}); }
                if (c) { W.belongs(c, o, what.c_str(), "text"); CHECK(mem_live_count() == base + 2 * out.size() + 1, "leak", "%s left %lld blocks allocated", what.c_str(), (long long)(mem_live_count() - base - 2 * out.size() - 1)); must_return(run_op([&] { if (a) a->free(a, c, "f", "g", 1); else vt_free(c); }), "freeing"); } break; }
            single: CHECK(res, "no-result", "%s gave nothing", what.c_str()); W.belongs(res, ro, what.c_str()); if (given) CHECK(res == dst.c, "no-result", "%s did not return the given string", what.c_str()); else out.push_back({2, ro, res}); break;
            single_new: CHECK(res, "no-result", "%s gave nothing", what.c_str()); W.belongs(res, ro, what.c_str()); out.push_back({2, ro, res}); break;
        }
        if (src.kind >= 0) out.push_back(src);
        if (dst.kind >= 0) out.push_back(dst);
        size_t per[4] = {0, 0, 0, 0}; for (auto &y : out) per[y.o] += 2;
        for (int i = 0; i < 2; i++) CHECK(W.c[i].live.size() == per[i + 1], "leak", "%s: allocator %s has %zu blocks out for %zu containers", what.c_str(), W.c[i].name, W.c[i].live.size(), per[i + 1] / 2);
        CHECK(W.mlive() - m0 == per[3], "leak", "%s: the tracking allocator has %zu blocks out for %zu containers", what.c_str(), W.mlive() - m0, per[3] / 2);
        CHECK(mem_live_count() == base + 2 * out.size(), "leak", "%s left %lld blocks allocated beyond its results", what.c_str(), (long long)(mem_live_count() - base) - (long long)(2 * out.size()));
        for (auto &y : out) must_return(run_op([&] { destroy(y); }), "destroying a result"); CHECK(mem_live_count() == base, "leak", "blocks remain after the results of %s were destroyed", what.c_str());
        (void)zs0; (void)a2;
    }
    must_return(run_op([&] { vt_mallocator_destroy(W.al); }), "vt_mallocator_destroy");
}
