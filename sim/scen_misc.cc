// C26: random numbers and the clock. C27: command-line options.
#include "scen.h"
#include <cfloat>
#include <sys/wait.h>
#include <unistd.h>
#include <csignal>
#include <sys/time.h>

// ------------------------------------------------------------------ C26
namespace {
// one program using the generators: what it calls, and how the clock moves meanwhile
struct Call { u32 kind; u32 bound; float lo, hi; i64 jump; };
struct Out { u64 u; float f; };
bool call_one(const Call &c, Out &o, std::string &bad) {
    o.u = 0; o.f = 0; char m[160];
    switch (c.kind) {
        case 0: o.u = vt_math_random_u64(); if (o.u > 32767) { snprintf(m, sizeof m, "vt_math_random_u64 returned %llu", (unsigned long long)o.u); bad = m; } break;
        case 1: o.f = vt_math_random_f32(c.bound); if (!(o.f >= 0 && o.f <= (float)c.bound)) { snprintf(m, sizeof m, "vt_math_random_f32(%u) returned %g", c.bound, o.f); bad = m; } break;
        case 2: { o.f = vt_math_random_f32_uniform(c.lo, c.hi); float eps = 2e-6f * (fabsf(c.lo) + fabsf(c.hi)); if (!(o.f >= c.lo - eps && o.f <= c.hi + eps)) { snprintf(m, sizeof m, "vt_math_random_f32_uniform(%g, %g) returned %g", c.lo, c.hi, o.f); bad = m; } break; }
        default: o.f = vt_math_random_f32_normal(c.lo, c.hi); if (!std::isfinite(o.f)) { snprintf(m, sizeof m, "vt_math_random_f32_normal(%g, %g) returned %g", c.lo, c.hi, o.f); bad = m; } break;
    }
    return bad.empty();
}
i64 gen_start() {
    static const std::vector<i64> known = {0, 1, 232232777, 484877912, 737523047, 990168182, 1242813317, 1495458452, 1748103587, 2000748722, 3769264667, 2147483647, 2147483648ll, 4294967295ll, 4294967296ll, 1700000000, 32767, 65535, 1073741823, 1073741824,
        2708534849ll, 59255510ll, 2004624719ll, 1040873596ll, 380547949ll, 3556861554ll, 1312410651ll, 3834897976ll, 1187323609ll, 1049017678ll, 3925065511ll, 3459966260ll};    // the latter: the internal state passes through zero soon
    switch (choose(6)) { case 0: return pick(known); case 1: { i64 v = pick(known) + (i64)choose(5) - 2; return v < 0 ? 0 : v; } case 2: return 1600000000 + (i64)choose(400000000); case 3: return (i64)choose(0x80000000u); case 4: return (i64)choose(1u << choose(31)); default: return (i64)choose(1000000) * 15000; }
}
// runs the program in a process of its own (the generators keep their state for the life of a process)
bool run_program(i64 start, const std::vector<Call> &calls, bool jumps, std::vector<Out> &out, std::string &bad) {
    int fd[2]; if (pipe(fd) != 0) harness_error("pipe"); pid_t pid = fork(); if (pid < 0) harness_error("fork");
    if (pid == 0) {
        close(fd[0]); signal(SIGVTALRM, SIG_DFL); itimerval it = {}; it.it_value.tv_sec = 2; setitimer(ITIMER_VIRTUAL, &it, nullptr); wall_set(start, (i64)0); std::string b; std::vector<Out> o;
        OpResult r = run_op([&] { for (size_t i = 0; i < calls.size(); i++) { Out x; if (jumps && calls[i].jump && i) { wall_set(wall_us() / 1000000 + calls[i].jump); } call_one(calls[i], x, b); o.push_back(x); if (!b.empty()) break; } });
        if (r.out != RETURNED) b = "a generator did not return"; char msg[200] = {0}; snprintf(msg, sizeof msg, "%s", b.c_str()); u32 n = (u32)o.size(); bool okk = write(fd[1], msg, sizeof msg) == (ssize_t)sizeof msg && write(fd[1], &n, 4) == 4; size_t want = n * sizeof(Out), done = 0; while (okk && done < want) { ssize_t k = write(fd[1], (char *)o.data() + done, want - done); if (k <= 0) okk = false; else done += (size_t)k; } _exit(okk ? 0 : 9);
    }
    close(fd[1]); auto rd = [&](void *p, size_t n) { size_t d = 0; while (d < n) { ssize_t k = read(fd[0], (char *)p + d, n - d); if (k <= 0) return false; d += (size_t)k; } return true; };
    char msg[200]; u32 n = 0; bool got = rd(msg, sizeof msg) && rd(&n, 4); if (got) { out.resize(n); got = rd(out.data(), n * sizeof(Out)); } close(fd[0]); int st; waitpid(pid, &st, 0);
    if (got) bad = msg; return got;
}
bool same(const Out &a, const Out &b) { return a.u == b.u && memcmp(&a.f, &b.f, 4) == 0; }
}
SCENARIO("C26", c26_generators, 1) {
    i64 start = gen_start(); static const std::vector<float> vals = {0, 1, -1, 0.5f, 100, -1000, 3.14159f, 1e-6f, 1e6f, -1e6f}; size_t n = 1 + (choose(4) == 3 ? choose(3000) : choose(120)); u32 only = choose(6); std::vector<Call> calls; bool jumpy = choose(2);
    for (size_t i = 0; i < n; i++) { Call c; c.kind = only < 4 ? only : choose(4); static const std::vector<u32> bs = {1, 10, 100, 0, 1000000, 2147483647u, 4294967295u, 3}; c.bound = only < 4 && i ? calls[0].bound : pick(bs); c.lo = only < 4 && i ? calls[0].lo : pick(vals); c.hi = only < 4 && i ? calls[0].hi : pick(vals); if (c.kind == 2 && c.lo > c.hi) std::swap(c.lo, c.hi); if (c.kind == 3) c.hi = fabsf(c.hi); c.jump = 0; if (jumpy && (i % 16 == 1)) { static const std::vector<i64> js = {0, 1, 3600, -3600, 86400, -86400, 1000000000, -1000000000}; c.jump = pick(js); } calls.push_back(c); }
    for (auto &c : calls) if (c.jump) note_fault(F_CLOCK_JUMP);
    ev("start %lld, %zu calls of kind %u, jumps %d", (long long)start, n, only, (int)jumpy);
    std::vector<Out> a, b, d; std::string bad; CHECK(run_program(start, calls, jumpy, a, bad), "hang", "a generator neither returned nor failed with the clock starting at %lld", (long long)start); CHECK(bad.empty(), "out-of-range", "%s (clock at the first call: %lld)", bad.c_str(), (long long)start); CHECK(a.size() == n, "out-of-range", "calls are missing");
    CHECK(run_program(start, calls, false, b, bad) && bad.empty(), "hang", "the same program ends differently when run again"); for (size_t i = 0; i < n; i++) CHECK(same(a[i], b[i]), "not-reproducible", "call %zu gives a different number although the first call was made at the same second%s", i, jumpy ? " (the clock jumped later)" : "");
    for (auto &x : a) ev("%llu %g", (unsigned long long)x.u, x.f); probe(jumpy ? "clock jumps" : "steady clock"); static const char *kn[] = {"integers", "bounded floats", "uniform floats", "normal floats"}; probe(only < 4 ? kn[only] : "mixed");
    // another starting second gives other numbers
    if (choose(2)) { i64 other = start + (choose(2) ? 1 + (i64)choose(100) : choose(2) ? (1ll << choose(28)) : 1 + (i64)choose(250000000)); std::vector<Call> us(64, Call{0, 0, 0, 0, 0}); CHECK(run_program(start, us, false, a, bad) && run_program(other, us, false, d, bad) && bad.empty(), "hang", "the integer generator did not return"); bool eq = true; for (size_t i = 0; i < 64; i++) eq = eq && a[i].u == d[i].u; CHECK(!eq, "not-seeded", "programs started at seconds %lld and %lld get the same numbers", (long long)start, (long long)other); probe("two starting seconds"); }
}

// ------------------------------------------------------------------ C27
namespace {
const size_t AH = 16;
struct Arena { struct VitaBaseAllocatorType t; std::map<char *, size_t> live; };
Arena *arena_of(struct VitaBaseAllocatorType *a) { return (Arena *)a; }
void *a_alloc(struct VitaBaseAllocatorType *const a, const size_t n, const char *const, const char *const, const size_t) { char *p = (char *)mem_alloc(n + AH, true); memset(p, 0x5A, AH); arena_of(a)->live[p + AH] = n; return p + AH; }
void a_free(struct VitaBaseAllocatorType *const a, void *q, const char *const, const char *const, const size_t) { auto &l = arena_of(a)->live; auto it = l.find((char *)q); if (it == l.end()) violation("foreign-block", "the given allocator was asked to free a block it never handed out"); l.erase(it); mem_free((char *)q - AH); }
void *a_realloc(struct VitaBaseAllocatorType *const a, void *q, const size_t n, const char *const, const char *const, const size_t) { auto &l = arena_of(a)->live; auto it = l.find((char *)q); if (it == l.end()) violation("foreign-block", "the given allocator was asked to reallocate a block it never handed out"); size_t old = it->second; char *p = (char *)mem_alloc(n + AH, false); memset(p, 0x5A, AH); memcpy(p + AH, q, std::min(old, n)); l.erase(it); mem_free((char *)q - AH); l[p + AH] = n; return p + AH; }

struct Opt { std::string lname, sname; enum VitaTypeInfo type; void *mem; size_t size; char *text = nullptr; vt_str_t *str = nullptr; std::string expect; bool has = false; std::string raw; };
size_t type_size(int t) { switch (t) { case VT_TYPE_INT8: case VT_TYPE_UINT8: case VT_TYPE_CHAR: case VT_TYPE_BOOL: return 1; case VT_TYPE_INT16: case VT_TYPE_UINT16: return 2; case VT_TYPE_INT32: case VT_TYPE_UINT32: case VT_TYPE_FLOAT: return 4; case VT_TYPE_INT64: case VT_TYPE_UINT64: case VT_TYPE_DOUBLE: return 8; case VT_TYPE_REAL: return sizeof(long double); default: return sizeof(void *); } }
const char *type_name(int t) { switch (t) { case VT_TYPE_INT8: return "INT8"; case VT_TYPE_INT16: return "INT16"; case VT_TYPE_INT32: return "INT32"; case VT_TYPE_INT64: return "INT64"; case VT_TYPE_UINT8: return "UINT8"; case VT_TYPE_UINT16: return "UINT16"; case VT_TYPE_UINT32: return "UINT32"; case VT_TYPE_UINT64: return "UINT64"; case VT_TYPE_FLOAT: return "FLOAT"; case VT_TYPE_DOUBLE: return "DOUBLE"; case VT_TYPE_REAL: return "REAL"; case VT_TYPE_BOOL: return "BOOL"; case VT_TYPE_CHAR: return "CHAR"; case VT_TYPE_STR: return "STR"; default: return "CSTR"; } }
// a value text that fits the type
std::string gen_value(int t, bool detached) {
    if (t != VT_TYPE_BOOL && t != VT_TYPE_CHAR && t != VT_TYPE_STR && t != VT_TYPE_CSTR && choose(12) == 11) { static const std::vector<std::string> ws = {"abc", "12x", "x7", "1,5", "0x10", "one two"}; probe("not a number"); return pick(ws); }     // stored as 0
    u64 v = mix(choose(1 << 20)); auto dec = [](u64 x) { return std::to_string(x); }; u64 top = choose(4) == 3;
    switch (t) {
        case VT_TYPE_INT8: return dec(top ? 127 : v % 128); case VT_TYPE_INT16: return dec(top ? 32767 : v % 32768); case VT_TYPE_INT32: return dec(top ? 2147483647 : v % 2147483648u); case VT_TYPE_INT64: return dec(top ? INT64_MAX : v >> (1 + choose(50)));
        case VT_TYPE_UINT8: return dec(top ? 255 : v % 256); case VT_TYPE_UINT16: return dec(top ? 65535 : v % 65536); case VT_TYPE_UINT32: return dec(top ? 4294967295u : v % 4294967296ull); case VT_TYPE_UINT64: return dec(top ? UINT64_MAX : v >> choose(50));
        case VT_TYPE_FLOAT: case VT_TYPE_DOUBLE: case VT_TYPE_REAL: { char b[64]; snprintf(b, sizeof b, choose(2) ? "%llu.%03llu" : "%llu.%llu", (unsigned long long)(v % 100000), (unsigned long long)(mix(v) % 1000)); return b; }
        case VT_TYPE_BOOL: { static const std::vector<std::string> bs = {"1", "0", "true", "false", "10", "no", "truex", "yes"}; return pick(bs); }
        default: { size_t n = 1 + (choose(3) == 0 ? choose(4) : choose(3) ? choose(40) : choose(4) ? choose(300) : 1000 + choose(100)); std::string s = gen_text(n, 0); for (auto &c : s) if (c == '\n') c = '='; if (choose(4) == 3) s[s.size() / 2] = '='; if (detached && s[0] == '-') s[0] = 'v'; return s; }
    }
}
// what the variable holds after the value was stored (for the plain types)
std::string stored(int t, const std::string &v) {
    std::string o(type_size(t), 0); auto put = [&](const void *p) { memcpy(&o[0], p, o.size()); }; const char *z = v.c_str(); if (t != VT_TYPE_BOOL && t != VT_TYPE_CHAR && v.find_first_not_of("0123456789.") != std::string::npos) z = "0";
    switch (t) {
        case VT_TYPE_INT8: { int8_t x = (int8_t)strtol(z, 0, 10); put(&x); break; } case VT_TYPE_INT16: { int16_t x = (int16_t)strtol(z, 0, 10); put(&x); break; } case VT_TYPE_INT32: { int32_t x = (int32_t)strtol(z, 0, 10); put(&x); break; } case VT_TYPE_INT64: { int64_t x = strtoll(z, 0, 10); put(&x); break; }
        case VT_TYPE_UINT8: { uint8_t x = (uint8_t)strtoul(z, 0, 10); put(&x); break; } case VT_TYPE_UINT16: { uint16_t x = (uint16_t)strtoul(z, 0, 10); put(&x); break; } case VT_TYPE_UINT32: { uint32_t x = (uint32_t)strtoul(z, 0, 10); put(&x); break; } case VT_TYPE_UINT64: { uint64_t x = strtoull(z, 0, 10); put(&x); break; }
        case VT_TYPE_FLOAT: { float x = strtof(z, 0); put(&x); break; } case VT_TYPE_DOUBLE: { double x = strtod(z, 0); put(&x); break; } case VT_TYPE_REAL: { long double x = 0; memset(&x, 0, sizeof x); x = strtold(z, 0); o.assign((char *)&x, 10); break; }
        case VT_TYPE_BOOL: { bool x = z[0] == '1' || v == "true"; put(&x); break; } case VT_TYPE_CHAR: put(z); break; default: break;
    }
    return o;
}
}
SCENARIO("C27", c27_parse, 1) {
    mem_config(); vt_debug_disable_output(choose(4) != 0); Arena ar; memset(&ar.t, 0, sizeof ar.t); ar.t.alloc = a_alloc; ar.t.realloc = a_realloc; ar.t.free = a_free; u32 who = choose(3); struct VitaBaseAllocatorType *al = nullptr; vt_mallocator_t *ma = nullptr; if (who == 1) { must_return(run_op([&] { ma = vt_mallocator_create(); }), "vt_mallocator_create"); al = ma; } else if (who == 2) al = &ar.t;
    static const std::vector<int> types = {VT_TYPE_CSTR, VT_TYPE_STR, VT_TYPE_INT32, VT_TYPE_BOOL, VT_TYPE_INT8, VT_TYPE_INT16, VT_TYPE_INT64, VT_TYPE_UINT8, VT_TYPE_UINT16, VT_TYPE_UINT32, VT_TYPE_UINT64, VT_TYPE_FLOAT, VT_TYPE_DOUBLE, VT_TYPE_REAL, VT_TYPE_CHAR};
    static const char *names[] = {"name", "nam", "output-file", "o", "verbose", "value", "long-option-name-of-many-letters", "x", "names"}; bool many = choose(40) == 39; int no = many ? 20 + (int)choose(60) : 1 + (int)choose(6); std::vector<Opt> os((size_t)no); std::vector<char *> texts;
    auto A = [&](size_t n) -> char * { char *p = nullptr; must_return(run_op([&] { p = (char *)(al ? al->alloc(al, n, "f", "g", 1) : vt_calloc(n, "f", "g", 1)); }), "allocating"); return p; };
    for (int i = 0; i < no; i++) { Opt &o = os[(size_t)i]; o.lname = std::string("--") + names[(i * 2 + (int)choose(2)) % 9] + (choose(30) == 29 ? (probe("long option name"), std::string(40 + choose(260), (char)(97 + choose(26)))) : std::string()) + std::to_string(i); o.sname = std::string("-") + "abcdefgijklmnopqrstuvwxyzABCDEFGHIJ"[i % 35] + (i >= 35 ? std::string(1, (char)('4' + i / 35)) : choose(3) == 2 ? std::string(1, (char)('0' + choose(3))) : ""); o.type = (enum VitaTypeInfo)pick(types); o.size = type_size(o.type); o.mem = mem_alloc(o.size, true); 
        if (o.type == VT_TYPE_CSTR) { if (choose(2)) { std::string t = gen_value(o.type, true); o.text = A(t.size() + 1); memcpy(o.text, t.c_str(), t.size() + 1); o.expect = t; o.has = true; } *(char **)o.mem = o.text; }
        else if (o.type == VT_TYPE_STR) { if (choose(2)) { std::string t = gen_value(o.type, true); char *z = Z(t); must_return(run_op([&] { o.str = vt_str_create(z, al); }), "vt_str_create"); mem_free(z); o.expect = t; o.has = true; } *(vt_str_t **)o.mem = o.str; }
        else { for (size_t k = 0; k < o.size; k++) ((char *)o.mem)[k] = (char)(0x30 + k + i); if (o.type == VT_TYPE_BOOL) *(char *)o.mem = (char)choose(2); if (o.type == VT_TYPE_REAL) { long double x = 1.5L + i; memset(o.mem, 0, o.size); *(long double *)o.mem = x; o.raw.assign((char *)o.mem, 10); } else o.raw.assign((char *)o.mem, o.size); } }
    vt_argopt_t *ov = (vt_argopt_t *)mem_alloc(sizeof(vt_argopt_t) * (size_t)no, true); for (int i = 0; i < no; i++) { char *l = Z(os[i].lname), *s = Z(os[i].sname), *d = Z("does something"); texts.push_back(l); texts.push_back(s); texts.push_back(d); vt_argopt_t x = {l, s, d, (void **)os[i].mem, os[i].type}; memcpy((void *)&ov[i], &x, sizeof x); }
    int rounds = 1 + (int)choose(3); std::string out_before;
    for (int rd = 0; rd < rounds; rd++) {
        std::vector<std::string> args = {"prog"}; int want = 0; std::vector<std::pair<int, std::string>> assigns; int na = many ? 20 + (int)choose(choose(2) ? 100 : 300) : (int)choose(9); if (many) probe("many options"); bool stop = false; std::string unknown; bool help = choose(16) == 15;
        if (help) { static const std::vector<std::string> hs = {"-h", "--help", "?", "?anything"}; args.push_back(pick(hs)); want = 1; }
        else for (int k = 0; k < na; k++) {
            if (choose(many ? 200 : 14) == (many ? 199u : 13u)) { static const std::vector<std::string> us = {"--unknown", "stray", "-Q", "--nam", "-zz=5", "--unknown=1", "-", "--", "", "="}; unknown = pick(us); if (choose(6) == 5 && args.size() > 1) { static const std::vector<std::string> ns = {"-5", "-1x", "-0.5", "-7=3", "-9"}; unknown = pick(ns); probe("negative word"); } else if (choose(3) == 2) unknown = os[0].lname + "x"; if (choose(4) == 3 && os[0].lname.size() > 3) unknown = os[0].lname.substr(0, os[0].lname.size() - 1); 
                // after an option without value a word would be taken as its value
                if (!args.empty() && unknown[0] != '-' && args.size() > 1 && args.back()[0] == '-' && args.back().find('=') == std::string::npos) unknown = "--unknown"; args.push_back(unknown); stop = true; want = -1; if (choose(2)) { args.push_back(os[0].lname); } break; }
            int i = (int)choose((u32)no); Opt &o = os[(size_t)i]; const std::string &nm = choose(2) ? o.lname : o.sname; u32 style = choose(3); std::string v = gen_value(o.type, style == 1); if (style != 2 && choose(8) == 7) { if (o.type != VT_TYPE_CHAR) { v.clear(); probe("empty value"); } }
            if (style == 0) { args.push_back(nm + "=" + v); assigns.push_back({i, v}); }
            else if (style == 1) { args.push_back(nm); args.push_back(v); assigns.push_back({i, v}); }
            else { args.push_back(nm); assigns.push_back({i, "1"}); }     // a flag: followed by another option or by nothing
        }
        if (args.size() == 2 && (args[1] == "-h")) continue;
        std::vector<char *> zs; std::vector<const char *> argv; for (auto &a : args) { zs.push_back(Z(a)); argv.push_back(zs.back()); } argv.push_back(nullptr); std::string line; for (auto &a : args) line += " " + show(a, 30); ev("argv%s", line.c_str());
        for (auto &as : assigns) { Opt &o = os[(size_t)as.first]; if (o.type == VT_TYPE_STR || o.type == VT_TYPE_CSTR) { o.expect = as.second; o.has = true; } else o.raw = stored(o.type, as.second); }
        g_stdout.clear(); int8_t rc = 99; must_return(run_op([&] { rc = vt_argopt_parse(args.size(), argv.data(), (size_t)no, ov, al); }), "vt_argopt_parse"); CHECK(rc == want, "wrong-status", "parsing%s returned %d instead of %d", line.c_str(), rc, want); if (stop) CHECK(g_stdout.find(unknown) != std::string::npos, "no-message", "the unknown option %s is not named", unknown.c_str());
        for (auto z : zs) mem_free(z);
        size_t blocks = 0, ablocks = 0;
        for (auto &o : os) {
            if (o.type == VT_TYPE_CSTR) { o.text = *(char **)o.mem; CHECK((o.text != nullptr) == o.has, "wrong-value", "option %s: the text is %s", o.lname.c_str(), o.text ? "set although it was not given" : "missing"); if (!o.text) continue; size_t room = 0; if (who == 2) { CHECK(ar.live.count(o.text), "foreign-block", "option %s: the text is not a block of the given allocator", o.lname.c_str()); room = ar.live[o.text]; ablocks++; } else CHECK(mem_live(o.text, &room), "foreign-block", "option %s: the text is not a block of the heap", o.lname.c_str()); CHECK(room > o.expect.size() && memchr(o.text, 0, room), "wrong-value", "option %s: the text is not terminated within its block", o.lname.c_str()); CHECK(o.expect == o.text, "wrong-value", "option %s holds %s instead of %s", o.lname.c_str(), show(o.text).c_str(), show(o.expect).c_str()); blocks++; }
            else if (o.type == VT_TYPE_STR) { o.str = *(vt_str_t **)o.mem; CHECK((o.str != nullptr) == o.has, "wrong-value", "option %s: the string is %s", o.lname.c_str(), o.str ? "set although it was not given" : "missing"); if (!o.str) continue; CHECK(str_of(o.str) == o.expect && ((char *)o.str->ptr)[o.str->len] == 0, "wrong-value", "option %s holds %s instead of %s", o.lname.c_str(), show(str_of(o.str)).c_str(), show(o.expect).c_str()); CHECK(o.str->alloctr == al, "foreign-block", "option %s: the string does not use the given allocator", o.lname.c_str()); blocks += 2; ablocks += 2; }
            else CHECK(memcmp(o.mem, o.raw.data(), o.raw.size()) == 0, "wrong-value", "option %s of type %s holds a wrong value after%s", o.lname.c_str(), type_name(o.type), line.c_str());
        }
        if (who == 2) CHECK(ar.live.size() == ablocks, "leak", "parsing left %zu blocks of the given allocator besides the values", ar.live.size() - ablocks); if (who == 1) CHECK(ma->stats.count_allocs - ma->stats.count_frees == blocks, "leak", "parsing left %lld blocks of the tracking allocator besides the values", (long long)(ma->stats.count_allocs - ma->stats.count_frees - blocks));
        CHECK(mem_live_count() == blocks + (size_t)no + 1 + texts.size() + (ma ? 2 : 0), "leak", "parsing left %lld blocks allocated besides the values", (long long)mem_live_count() - (long long)(blocks + (size_t)no + 1 + texts.size() + (ma ? 2 : 0)));
        probe(help ? "help" : stop ? "unknown option" : "parsed"); for (auto &as : assigns) probe(type_name(os[(size_t)as.first].type)); if (assigns.size() > 1) probe("several options");
    }
    // the manual lists every option
    g_stdout.clear(); must_return(run_op([&] { vt_argopt_print_help("header", choose(2) ? "footer" : nullptr, (size_t)no, ov); }), "vt_argopt_print_help"); for (auto &o : os) CHECK(g_stdout.find(o.lname) != std::string::npos && g_stdout.find(o.sname) != std::string::npos, "no-message", "the manual does not list %s", o.lname.c_str());
    for (auto &o : os) must_return(run_op([&] { if (o.type == VT_TYPE_STR && o.str) vt_str_destroy(o.str); if (o.type == VT_TYPE_CSTR && o.text) { if (al) al->free(al, o.text, "f", "g", 1); else vt_free(o.text); } }), "freeing the values"); if (ma) must_return(run_op([&] { vt_mallocator_destroy(ma); }), "vt_mallocator_destroy");
    CHECK(mem_live_count() == (size_t)no + 1 + texts.size(), "leak", "blocks remain after the values were freed");
}
// a table of options that cannot be used is refused as a whole
SCENARIO("C27", c27_table, 1) {
    mem_config(); vt_debug_disable_output(choose(2) == 1); int no = 1 + (int)choose(5); std::vector<int32_t *> vars; std::vector<char *> texts; vt_argopt_t *ov = (vt_argopt_t *)mem_alloc(sizeof(vt_argopt_t) * (size_t)no, true); int bad = (int)choose((u32)no); u32 how = choose(6);
    for (int i = 0; i < no; i++) {
        int32_t *v = (int32_t *)mem_alloc(sizeof(int32_t), true); *v = 77 + i; vars.push_back(v); char *l = Z("--opt" + std::to_string(i)), *s = Z(std::string("-") + (char)('a' + i) + (choose(2) ? "x" : "")), *d = Z("does something"); texts.push_back(l); texts.push_back(s); texts.push_back(d); enum VitaTypeInfo ty = VT_TYPE_INT32; void *m = v;
        if (i == bad) { if (how == 1) l = nullptr; else if (how == 2) s = nullptr; else if (how == 3) m = nullptr; else if (how == 4) { s = Z(choose(2) ? "-abc" : "-long-short-name"); texts.push_back(s); } else if (how == 5) ty = (enum VitaTypeInfo)(VT_TYPE_COUNT + (int)choose(3)); }
        vt_argopt_t x = {l, s, d, (void **)m, ty}; memcpy((void *)&ov[i], &x, sizeof x); }
    int target = (int)choose((u32)no); std::string a1 = "--opt" + std::to_string(target) + "=5"; char *z0 = Z("prog"), *z1 = Z(a1); const char *argv[3] = {z0, z1, nullptr}; int8_t rc = 99; size_t live = mem_live_count(); ev("table fault %u at %d of %d, argument %s", how, bad, no, a1.c_str());
    must_return(run_op([&] { rc = vt_argopt_parse(2, argv, (size_t)no, ov, nullptr); }), "vt_argopt_parse"); CHECK(rc == (how ? VT_ARGOPT_PARSE_ERROR : VT_ARGOPT_PARSE_SUCCESS), "wrong-status", "parsing with %s option table returned %d", how ? "an invalid" : "a valid", rc);
    for (int i = 0; i < no; i++) CHECK(*vars[(size_t)i] == (!how && i == target ? 5 : 77 + i), "wrong-value", "option %d holds %d", i, *vars[(size_t)i]); CHECK(mem_live_count() == live, "leak", "parsing left %lld blocks allocated", (long long)(mem_live_count() - live)); probe(how ? "invalid table" : "valid table");
}
