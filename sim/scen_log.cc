// C07, C08, C09, C25: logging, fatal conditions, timestamps, debug output.
#include "scen.h"

static std::string fmt_of(const char *f, ...) { va_list a; va_start(a, f); char *s = nullptr; int n = vasprintf(&s, f, a); va_end(a); std::string r(s, n < 0 ? 0 : (size_t)n); free(s); return r; }
struct Msg { std::string text; int kind; char *z; int num; double d; };
static Msg gen_msg() {
    Msg m; std::string t = gen_text(choose(3) == 2 ? gen_size() : choose(80), (int)choose(3)); m.z = Z(t); m.num = (int)range(-5, 70000); m.d = (double)range(-100, 1000) / 4; m.kind = (int)choose(5);
    switch (m.kind) {
        case 0: m.text = t; break;
        case 1: m.text = fmt_of("n=%d ", m.num) + t; break;
        case 2: m.text = t + fmt_of(" %.3f|%6d|%%", m.d, m.num); break;
        case 3: m.text = "plain message"; break;
        default: m.text = fmt_of("%5d:", m.num) + t + ":" + t; break;
    }
    return m;
}
// the variadic tail for a message
#define WITH_MSG(m, CALL) do { switch ((m).kind) { \
    case 0: CALL("%s", (m).z); break; case 1: CALL("n=%d %s", (m).num, (m).z); break; case 2: CALL("%s %.3f|%6d|%%", (m).z, (m).d, (m).num); break; \
    case 3: CALL("plain message"); break; default: CALL("%5d:%s:%s", (m).num, (m).z, (m).z); break; } } while (0)

static const std::vector<std::string> &log_paths() {
    static const std::vector<std::string> v = {"/work/l1", "l2", "/work/sub/l3", "/work/l1x", "/nodir/l", "/work/dir", "/work/ro", "/work/link",
        "/work/" + std::string(120, 'p') + "/" + std::string(120, 'q') + ".log"};
    return v;
}
static void populate() {
    fs_put("/work/l1", "old1\n"); fs_mkdir("/work/sub"); fs_mkdir("/work/dir"); fs_put("/work/ro", "ro"); fs_inode(fs_resolve("/work/ro", true)).nowrite = true; fs_symlink("/work/link", "l4");
    fs_mkdir("/work/" + std::string(120, 'p')); fs_put("/keep", "keep");
}
static std::string gen_path() { u32 k = choose(14); if (k == 13) return long_path(); return log_paths()[k < 6 ? k % 3 : k - 4]; }

SCENARIO("C07", c07_log_routing, 1) {
    mem_config(); populate(); bool dbg = choose(2) == 0; vt_debug_disable_output(!dbg);
    std::vector<std::string> dest(6); int n = long_history(2 + (int)choose(10)); bool lasting = n > 12;
    std::map<std::string, std::string> files;     // expected content of every log destination, by canonical path
    for (int k = 0; k < n; k++) {
        u32 op = choose(8);
        if (op == 0) {      // redirect one level or all of them
            int lev = (int)choose(7); bool null = choose(4) == 3; std::string p = null ? "" : gen_path(); char *z = null ? nullptr : Z(p);
            must_return(run_op([&] { if (lev == 6) vt_log_redirect_all_output(z); else vt_log_redirect_level_output((enum VitaLogLevel)lev, z); }), "redirect");
            if (lev == 6) for (auto &d : dest) d = p; else dest[lev] = p;
            if (z) { memset(z, 'J', p.size()); mem_free(z); }                // the caller's buffer may go away
            ev("redirect %d to %s", lev, p.c_str()); continue;
        }
        int lev = (int)choose(lasting && choose(100) ? 4 : 6); bool expr = choose(5) == 4; bool explicit_file = choose(3) == 2; std::string p = explicit_file ? gen_path() : dest[lev]; Msg m = gen_msg();
        static const std::vector<std::string> exprs = {"", "a == b", "p != NULL && n > 0", "100 % 3 == 0 %s", "x"}; std::string ex = pick(exprs); if (!ex.empty() && choose(6) == 5) { ex += gen_text(60 + choose(choose(4) ? 300 : 4000), 0); probe("long expression"); } const char *zex = ex.empty() ? nullptr : Z(ex);
        static const std::vector<std::string> srcs = {"main.c", "dir%s.c", "a_rather_long_source_file_name_for_a_module.c"}; std::string src = pick(srcs); if (choose(8) == 7) src = "d/" + gen_text(60 + choose(300), 0) + ".c"; char *zsrc = Z(src); size_t line = choose(3) ? choose(500) : 4000000000u; 
        char *zp = explicit_file ? Z(p) : nullptr; Snap before = fs_snapshot("/"); std::string err0 = g_stderr; size_t e0 = err0.size(); std::string out0 = g_stdout; bool can = p.empty() || can_write(p); std::string tgt = p.empty() ? "" : canon(p); int macro = zex || expr ? 0 : (int)choose(4);
        std::string want = log_record(now_text(), lev, zex, src, line, m.text);
        ev("log %d expr=%d to %s", lev, expr, p.c_str());
        // in a build with the macros, the record names this file and line
        size_t mline = 0;
        int h0 = open_handles(); g_stderr_fails = choose(12) == 11; bool mute = g_stderr_fails; if (mute) { note_fault(F_STDERR); probe("standard error failed once"); }
        OpResult r = faulty_op(FM(F_OPEN)|FM(F_WRITE_SHORT), 3, [&] {
            if (macro == 3) {
#define LOGM(...) do { mline = __LINE__; if (explicit_file) switch (lev) { case 0: VT_LOGF_INFO(zp, __VA_ARGS__); break; case 1: VT_LOGF_WARN(zp, __VA_ARGS__); break; case 2: VT_LOGF_DEBUG(zp, __VA_ARGS__); break; case 3: VT_LOGF_ERROR(zp, __VA_ARGS__); break; case 4: VT_LOGF_FATAL(zp, __VA_ARGS__); break; default: VT_LOGF_ASSERT(zp, 1 > 2, __VA_ARGS__); } \
    else switch (lev) { case 0: VT_LOG_INFO(__VA_ARGS__); break; case 1: VT_LOG_WARN(__VA_ARGS__); break; case 2: VT_LOG_DEBUG(__VA_ARGS__); break; case 3: VT_LOG_ERROR(__VA_ARGS__); break; case 4: VT_LOG_FATAL(__VA_ARGS__); break; default: VT_LOG_ASSERT(1 > 2, __VA_ARGS__); } } while (0)
                WITH_MSG(m, LOGM);
                return;
            }
#define LOGC(...) vt_log(zp, (enum VitaLogLevel)lev, expr, zex, zsrc, line, __VA_ARGS__)
            WITH_MSG(m, LOGC);
        });
        if (macro == 3) want = log_record(now_text(), lev, lev == 5 ? "1 > 2" : nullptr, "scen_log.cc", mline, m.text);
        bool open_failed = g_op_hard > 0 || !can; bool fatal = lev >= 4 && !expr;
        if (fatal) CHECK(r.out == EXITED, "not-stopped", "a failed %s record did not end the program", level_name(lev)); else must_return(r, "vt_log");
        g_stderr_fails = false; if (!fatal) CHECK(open_handles() == h0, "handle-leak", "a log call left a file open");
        Snap after = fs_snapshot("/"); std::string derr = g_stderr.substr(e0);
        CHECK(g_stdout == out0, "wrong-destination", "a log call wrote to standard output: %s", show(g_stdout).c_str());
        CHECK(!g_stderr_closed, "stderr-closed", "a log call closed standard error");
        if (expr) {
            std::string d = snap_diff(before, after); CHECK(d.empty() && derr.empty(), "record-for-true-condition", "a log call whose condition holds wrote something (%s%s)", d.c_str(), show(derr).c_str()); continue;
        }
        if (p.empty() || open_failed) {
            std::string d = snap_diff(before, after, open_failed && can ? tgt : "");
            CHECK(d.empty(), "wrong-destination", "a record for standard error also changed a file: %s", d.c_str());
            if (mute) { if (fatal) return; continue; }      // it could not be written anywhere
            size_t a = derr.find(want); CHECK(a != std::string::npos, "record-lost", "record for %s (%s) is not on standard error; expected %s, standard error got %s", p.empty() ? "standard error" : p.c_str(), open_failed ? "cannot be opened" : "default", show(want, 200).c_str(), show(derr, 200).c_str());
            CHECK(derr.find(want, a + want.size()) == std::string::npos, "record-duplicated", "record written twice to standard error");
            if (p.empty() || !dbg) CHECK(derr == want, "extra-output", "besides the record, standard error got: %s", show(derr, 200).c_str());
            probe(open_failed ? "fallback-stderr" : "to-stderr");
        } else {
            CHECK(derr.empty(), "wrong-destination", "a record for %s was (also) written to standard error: %s", p.c_str(), show(derr, 120).c_str());
            std::string d = snap_diff(before, after, tgt); CHECK(d.empty(), "wrong-destination", "a record for %s changed another file: %s", p.c_str(), d.c_str());
            std::string old = before.count(tgt) ? before[tgt].substr(2) : "", now = after.count(tgt) ? after[tgt].substr(2) : "";
            CHECK(now == old + want, "wrong-record", "%s should have grown by %s, it holds %zu bytes (had %zu), tail %s", p.c_str(), show(want, 150).c_str(), now.size(), old.size(), show(now.size() >= old.size() ? now.substr(old.size()) : now, 150).c_str());
            probe(explicit_file ? "to-named-file" : "to-level-file");
        }
        if (fatal) return;
    }
}

// C08 ---------------------------------------------------------------------
SCENARIO("C08", c08_fatal_stops, 1) {
    mem_config(); populate(); vt_debug_disable_output(choose(3) == 2);
    int n = 1 + (int)choose(5);
    for (int k = 0; k < n; k++) {
        if (choose(3) == 2) { std::string p = gen_path(); char *z = choose(3) == 2 ? nullptr : Z(p); must_return(run_op([&] { vt_log_redirect_all_output(z); }), "redirect"); }
        if (choose(3) == 2) { std::string p = gen_path(); char *z = choose(3) == 2 ? nullptr : Z(p); must_return(run_op([&] { vt_debug_redirect_output(z); }), "redirect"); }
        g_stderr_fails = choose(4) == 3; if (g_stderr_fails) note_fault(F_STDERR); if (choose(4) == 3) { g_disk_free = choose(20); note_fault(F_ENOSPC); }
        Msg m = gen_msg(); u32 op = choose(14); bool cond = choose(4) == 3; bool stop = false; std::string what; char *zp = choose(3) == 2 ? Z(gen_path()) : nullptr; std::function<void()> f; bool always_fails = false;
        if (op < 6) { what = std::string("vt_log ") + level_name((int)op); stop = op >= 4;
            bool mac = choose(2) == 1; const char *ze = choose(2) ? "e" : nullptr;
            f = [&, op, mac, ze] {
#define LOGD(...) vt_log(zp, (enum VitaLogLevel)op, cond, ze, "f.c", 3, __VA_ARGS__)
#define LOGE(...) do { if (zp) { if (op == 4) VT_LOGF_FATAL(zp, __VA_ARGS__); else VT_LOGF_ASSERT(zp, cond, __VA_ARGS__); } else { if (op == 4) VT_LOG_FATAL(__VA_ARGS__); else VT_LOG_ASSERT(cond, __VA_ARGS__); } } while (0)
                if (mac && (op == 5 || (op == 4 && !cond))) WITH_MSG(m, LOGE); else WITH_MSG(m, LOGD); };
        } else switch (op) {
            case 6: what = "VT_ENFORCE"; stop = true; f = [&] { 
#define M1(...) VT_ENFORCE(cond, __VA_ARGS__)
                WITH_MSG(m, M1); }; break;
            case 7: what = "VT_DEBUG_ASSERT"; stop = true; f = [&] {
#define M2(...) VT_DEBUG_ASSERT(cond, __VA_ARGS__)
                WITH_MSG(m, M2); }; break;
            case 8: what = "VT_CHECK"; f = [&] {
#define M3(...) VT_CHECK(cond, __VA_ARGS__)
                WITH_MSG(m, M3); }; break;
            case 9: what = "VT_NOTE"; f = [&] { WITH_MSG(m, VT_NOTE); }; break;
            case 10: what = "VT_REQUIRED"; stop = always_fails = true; f = [&] { WITH_MSG(m, VT_REQUIRED); }; break;
            case 11: what = "VT_TODO"; stop = always_fails = true; f = [&] { WITH_MSG(m, VT_TODO); }; break;
            case 12: what = "VT_UNIMPLEMENTED"; stop = always_fails = true; f = [&] { WITH_MSG(m, VT_UNIMPLEMENTED); }; break;
            default: what = "vt_debug_printf"; f = [&] {
#define M4(...) vt_debug_printf("S", __VA_ARGS__)
                WITH_MSG(m, M4); }; break;
        }
        bool expect_stop = stop && (always_fails || !cond);
        ev("%s cond=%d", what.c_str(), cond);
        OpResult r = faulty_op(FM_FS, 5, f); g_disk_free = -1;
        if (expect_stop) { probe("stopped"); CHECK(r.out == EXITED && r.code == EXIT_FAILURE, "fatal-did-not-stop", "%s with a failed condition: the program %s (status %d) instead of ending with the failure status", what.c_str(), outcome_names[r.out], r.code); return; }
        CHECK(r.out == RETURNED, "non-fatal-stopped", "%s%s did not return to the caller: %s %d", what.c_str(), cond ? " with a condition that holds" : "", outcome_names[r.out], r.code);
        CHECK(!g_stderr_closed, "stderr-closed", "%s closed standard error", what.c_str());
        probe("returned");
    }
}

// C09 ---------------------------------------------------------------------
static const std::vector<std::string> zones = {"UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<+14>-14", "<-12>12", "NPT-5:45", "<-0330>3:30<-0230>,M3.2.0,M11.1.0"};
static i64 gen_wall() {
    static const std::vector<i64> marks = {0, 86400, 951782400 /* 2000-02-29 */, 951868800, 946684800, 978307200, 1704067200, 1709164800 /* 2024-02-29 */, 1710054000, 1730613600 /* US dst */, 1711846800, 1729990800 /* EU dst */, 2147483648ll, 4102444800ll /* 2100 */, 4107542400ll /* 2100-03-01 */, 32503680000ll, 253402214400ll /* 9999-12-31 */};
    i64 t;
    switch (choose(3)) { case 0: t = pick(marks) + range(-3, 3); break; case 1: t = pick(marks) + range(-100000, 100000); break; default: t = (i64)choose(2000000000) + (i64)choose(4) * 2000000000ll; }
    if (t < 0) t = 0;
    if (t > 253402214400ll + 30000) t = 253402214400ll + 30000;
    return t;
}
static std::vector<struct tm> possible_times() {
    std::vector<struct tm> v; if (!g_clock_segments.empty()) g_clock_segments.back().second = wall_us();
    for (auto &s : g_clock_segments) for (i64 x = s.first / 1000000; x <= s.second / 1000000 && x < s.first / 1000000 + 5; x++) { time_t t = (time_t)x; struct tm tm; localtime_r(&t, &tm); v.push_back(tm); }
    return v;
}
static std::string tm_text(const struct tm &t) { char b[64]; snprintf(b, sizeof b, "%04d-%02d-%02d %02d:%02d:%02d", t.tm_year + 1900, t.tm_mon + 1, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec); return b; }
static std::string tm_pretty(const struct tm &t) {
    static const char *wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}, *mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    char b[64]; snprintf(b, sizeof b, "%s %s %2d %02d:%02d:%02d %d", wd[t.tm_wday], mo[t.tm_mon], t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_year + 1900); return b;
}
SCENARIO("C09", c09_timestamps, 1) {
    mem_config(); set_tz(pick(zones)); wall_set(gen_wall(), choose(2) ? 999990 + choose(10) : choose(1000000));
    int n = long_history(1 + (int)choose(8)); fs_put("/work/l", "");
    for (int k = 0; k < n; k++) {
        if (choose(5) == 4) { set_tz(pick(zones)); note_fault(F_ENV); }
        if (choose(4) == 3) { wall_set(gen_wall(), choose(1000000)); note_fault(F_CLOCK_JUMP); } else if (choose(3) == 2) { g_now += (i64)choose(5000000); fault_count[F_STALL]++; }
        ev("clock %lld", (long long)(wall_us() / 1000000));
        u32 op = choose(7); std::string got, what; struct VitaDateTime v = {}; char *buf = nullptr; size_t len = choose(2) ? VT_DATETIME_BUFFER_SIZE : VT_DATETIME_BUFFER_SIZE + choose(40); size_t e0 = g_stderr.size();
        if (op == 1 || op == 2) { buf = (char *)mem_alloc(len, false); memset(buf, 'G', len); }
        clock_watch(); 
        OpResult r = faulty_op(FM(F_CLOCK_JUMP), 3, [&] {
            switch (op) {
                case 0: v = vt_datetime_get_now(); break;
                case 1: vt_datetime_get_now_as_text(buf, len); break;
                case 2: vt_datetime_get_now_as_text_pretty(buf, len); break;
                case 3: vt_log(nullptr, vt_log_info, false, nullptr, "f.c", 1, "m"); break;
                case 4: vt_log("/work/l", vt_log_warn, false, "e", "f.c", 1, "m"); break;
                case 5: vt_debug_printf("S", "m"); break;
                default: vt_debug_assert(false, "e", "CHECK", false, "f.c", "fn", 1, "m"); break;
            }
        });
        std::vector<struct tm> ok = possible_times(); g_clock_segments.clear();
        static const char *names[] = {"vt_datetime_get_now", "vt_datetime_get_now_as_text", "vt_datetime_get_now_as_text_pretty", "vt_log", "vt_log to a file", "vt_debug_printf", "vt_debug_assert"};
        must_return(r, names[op]); bool match = false; std::string want = op == 2 ? tm_pretty(ok[0]) : tm_text(ok[0]);
        if (op == 0) {
            for (auto &t : ok) match |= v.year == t.tm_year + 1900 && v.month == t.tm_mon + 1 && v.month_day == t.tm_mday && v.hour == t.tm_hour && v.minute == t.tm_min && v.second == t.tm_sec && v.week_day == (t.tm_wday == 0 ? 7 : t.tm_wday) && v.year_day == t.tm_yday + 1;
            got = fmt_of("%04d-%02d-%02d %02d:%02d:%02d week day %d year day %d", v.year, v.month, v.month_day, v.hour, v.minute, v.second, v.week_day, v.year_day); want += fmt_of(" week day %d year day %d", ok[0].tm_wday == 0 ? 7 : ok[0].tm_wday, ok[0].tm_yday + 1);
        } else {
            if (op == 1 || op == 2) { CHECK(memchr(buf, 0, len) != nullptr, "not-terminated", "%s left no terminator", names[op]); got = buf; mem_free(buf); for (auto &t : ok) match |= got == (op == 2 ? tm_pretty(t) : tm_text(t)); }
            else { got = op == 4 ? fs_get("/work/l") : g_stderr.substr(e0); fs_put("/work/l", ""); for (auto &t : ok) { std::string p = tm_text(t) + " "; match |= got.compare(0, p.size(), p) == 0; } got = got.substr(0, 26); }
        }
        CHECK(match, "wrong-time", "%s shows %s, but the local time during the call was %s (%zu instants possible)", names[op], show(got).c_str(), want.c_str(), ok.size());
        probe(names[op]);
    }
}

// C29 ---------------------------------------------------------------------
static bool same_wall(const struct VitaDateTime &v, const struct tm &t) { return v.year == t.tm_year + 1900 && v.month == t.tm_mon + 1 && v.month_day == t.tm_mday && v.hour == t.tm_hour && v.minute == t.tm_min && v.second == t.tm_sec; }
static bool same_day(const struct VitaDateTime &v, const struct tm &t) { return v.week_day == (t.tm_wday == 0 ? 7 : t.tm_wday) && v.year_day == t.tm_yday + 1; }
static struct tm local_of(i64 secs) { time_t t = (time_t)secs; struct tm tm; localtime_r(&t, &tm); return tm; }
static std::string vdt_text(const struct VitaDateTime &v) { return fmt_of("%04d-%02d-%02d %02d:%02d:%02d (week day %d, year day %d)", v.year, v.month, v.month_day, v.hour, v.minute, v.second, v.week_day, v.year_day); }
// the calendar on its own: the reading of the fields as a time without any zone, with days of week and year filled in
static struct tm calendar(int y, int mo, int d, int h, int mi, int s, i64 *secs = nullptr) {
    struct tm t = {}; t.tm_year = y - 1900; t.tm_mon = mo - 1; t.tm_mday = d; t.tm_hour = h; t.tm_min = mi; t.tm_sec = s;
    time_t u = timegm(&t); if (secs) *secs = (i64)u; gmtime_r(&u, &t); return t;
}
// every instant at which a clock in this zone shows these fields: none when summer time skips them, two when it repeats them
static std::vector<i64> instants_of(const struct VitaDateTime &v) {
    i64 u; calendar(v.year, v.month, v.month_day, v.hour, v.minute, v.second, &u); std::set<i64> r;
    for (i64 d : {-90000, 0, 90000}) { i64 c = u - local_of(u + d).tm_gmtoff; if (same_wall(v, local_of(c))) r.insert(c); }
    return std::vector<i64>(r.begin(), r.end());
}
static const std::vector<i64> dst_marks = {1710054000, 1730613600 /* US */, 1711846800, 1729990800 /* EU */, 1712412000, 1727532000 /* NZ */, 1710052200, 1730611800 /* Newfoundland */};
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
SCENARIO("C29", c29_date_conversions, 1) {
    mem_config(); set_tz(pick(zones)); wall_set(gen_wall(), choose(1000000));
    std::vector<struct VitaDateTime> s; int n = long_history(2 + (int)choose(14));
    static const char *forms[] = {"vt_datetime_to_text", "vt_datetime_to_text_iso", "vt_datetime_to_text_iso_ext"};
    for (int k = 0; k < n; k++) {
        if (choose(8) == 7) { set_tz(pick(zones)); note_fault(F_ENV); }
        if (choose(4) == 3) { wall_set(gen_wall(), choose(1000000)); note_fault(F_CLOCK_JUMP); } else if (choose(3) == 2) { g_now += (i64)choose(5000000) * (1 + choose(2) * choose(100000)); fault_count[F_STALL]++; }
        u32 op = s.size() < 2 ? choose(2) : choose(9); struct VitaDateTime v = {}; OpResult r;
        const struct VitaDateTime a = s.empty() ? v : pick(s), b = s.empty() ? v : pick(s);
        if (op == 0) {
            clock_watch(); r = faulty_op(FM(F_CLOCK_JUMP), 3, [&] { v = vt_datetime_get_now(); }); must_return(r, "vt_datetime_get_now");
            auto ok = possible_times(); g_clock_segments.clear(); bool match = false; for (auto &t : ok) match |= same_wall(v, t) && same_day(v, t);
            CHECK(match, "wrong-now", "vt_datetime_get_now gave %s at %s", vdt_text(v).c_str(), tm_text(ok[0]).c_str());
            if (v.year <= 9999) s.push_back(v); ev("now %s", vdt_text(v).c_str()); probe("now");
        } else if (op == 1) {
            i64 t = wall_us() / 1000000; if (choose(2)) t = gen_wall(); else if (choose(2)) { t = pick(dst_marks) + range(-5000, 5000); } if (choose(6) == 5) t = -(i64)choose(2000000000); 
            struct tm want = local_of(t); if (want.tm_year > 9999 - 1900) continue;
            r = run_op([&] { v = vt_datetime_from_secs((time_t)t); }); must_return(r, "vt_datetime_from_secs");
            CHECK(same_wall(v, want) && same_day(v, want), "wrong-fields", "vt_datetime_from_secs(%lld) gave %s, the local time is %s", (long long)t, vdt_text(v).c_str(), tm_text(want).c_str());
            s.push_back(v); ev("from_secs %lld", (long long)t); probe("from-secs");
        } else if (op == 2) {
            time_t got = 0; r = run_op([&] { got = vt_datetime_to_secs(a); }); must_return(r, "vt_datetime_to_secs"); auto ok = instants_of(a);
            if (ok.empty()) continue;
            bool match = false; for (i64 x : ok) match |= x == (i64)got;
            CHECK(match, "wrong-seconds", "vt_datetime_to_secs(%s) gave %lld, the clock shows that at %lld%s", vdt_text(a).c_str(), (long long)got, (long long)ok[0], ok.size() > 1 ? fmt_of(" or %lld", (long long)ok[1]).c_str() : "");
            probe(ok.size() > 1 ? "to-secs-repeated-hour" : "to-secs"); r = run_op([&] { v = vt_datetime_from_secs(got); }); must_return(r, "vt_datetime_from_secs");
            CHECK(same_wall(v, local_of((i64)got)), "wrong-fields", "vt_datetime_from_secs(%lld) gave %s", (long long)got, vdt_text(v).c_str());
        } else if (op == 3) {
            u32 f = choose(4); size_t len = choose(2) ? VT_DATETIME_BUFFER_SIZE : VT_DATETIME_BUFFER_SIZE + choose(40); char *buf = (char *)mem_alloc(len, false); memset(buf, 'G', len); bool valid = false;
            r = run_op([&] {
                switch (f) {
                    case 0: vt_datetime_to_text(a, buf, len); valid = vt_datetime_is_valid_text(buf); v = vt_datetime_from_text(buf); break;
                    case 1: vt_datetime_to_text_iso(a, buf, len); valid = vt_datetime_is_valid_text_iso(buf); v = vt_datetime_from_text_iso(buf); break;
                    case 2: vt_datetime_to_text_iso_ext(a, buf, len); valid = vt_datetime_is_valid_text_iso_ext(buf); v = vt_datetime_from_text_iso_ext(buf); break;
                    default: vt_datetime_to_text_pretty(a, buf, len); break;
                }
            });
            must_return(r, f < 3 ? forms[f] : "vt_datetime_to_text_pretty"); CHECK(memchr(buf, 0, len) != nullptr, "not-terminated", "no terminator in the text");
            std::string got = buf, want; mem_free(buf); static const char *pf[] = {"%04d-%02d-%02d %02d:%02d:%02d", "%04d%02d%02dT%02d%02d%02d", "%04d-%02d-%02dT%02d:%02d:%02d"};
            if (f == 3) { struct tm t = calendar(a.year, a.month, a.month_day, a.hour, a.minute, a.second); if (!same_day(a, t)) continue; want = tm_pretty(t); } else want = fmt_of(pf[f], a.year, a.month, a.month_day, a.hour, a.minute, a.second);
            CHECK(got == want, "wrong-text", "%s(%s) wrote %s, expected %s", f < 3 ? forms[f] : "vt_datetime_to_text_pretty", vdt_text(a).c_str(), show(got).c_str(), want.c_str());
            if (f < 3) { CHECK(valid, "not-valid", "%s is said not to be a valid timestamp", got.c_str()); CHECK(v.year == a.year && v.month == a.month && v.month_day == a.month_day && v.hour == a.hour && v.minute == a.minute && v.second == a.second, "wrong-round-trip", "%s read back as %s", got.c_str(), vdt_text(v).c_str()); }
            probe(f < 3 ? "text" : "text-pretty");
        } else if (op == 4) {
            int yd = 0, wd = 0, dm = 0, dy = 0; bool ly = false; struct VitaDateTime q = a; if (choose(2)) { q.week_day = (int16_t)choose(8); q.year_day = (int16_t)choose(367); } if (choose(3) == 2) { q.year = (int16_t)(choose(2) ? 100 * range(19, 99) : range(1902, 9999)); q.month_day = (int16_t)std::min<int>(q.month_day, 28); if (choose(2)) q.month = 2; } if (instants_of(q).empty()) continue;
            r = run_op([&] { yd = vt_datetime_find_year_day(q); wd = vt_datetime_find_week_day(q); dm = vt_datetime_find_days_in_month(q); dy = vt_datetime_find_days_in_year(q); ly = vt_datetime_is_leap_year(q); }); must_return(r, "vt_datetime_find_*");
            struct tm t = calendar(q.year, q.month, q.month_day, q.hour, q.minute, q.second); static const int dim[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; bool lp = leap(q.year);
            CHECK(yd == t.tm_yday + 1, "wrong-year-day", "vt_datetime_find_year_day(%s) gave %d, it is day %d", vdt_text(q).c_str(), yd, t.tm_yday + 1);
            CHECK(wd == (t.tm_wday == 0 ? 7 : t.tm_wday), "wrong-week-day", "vt_datetime_find_week_day(%s) gave %d, it is day %d", vdt_text(q).c_str(), wd, t.tm_wday == 0 ? 7 : t.tm_wday);
            CHECK(dm == dim[q.month - 1] + (q.month == 2 && lp), "wrong-month-length", "vt_datetime_find_days_in_month(%s) gave %d", vdt_text(q).c_str(), dm);
            CHECK(dy == 365 + lp && ly == lp, "wrong-year-length", "the year %d: %d days, leap year: %s", q.year, dy, ly ? "yes" : "no");
            probe("calendar");
        } else if (op == 5) {
            struct VitaDateTime d = {}; u32 how = choose(5);
            auto small = [&](int m) { return (int16_t)(choose(3) == 0 ? 0 : choose(8) == 7 ? range(-20 * m, 20 * m) : range(-m, m)); };
            if (how != 0) { if (how == 1 || how == 4) d.year = small(30); if (how == 2 || how == 4) d.month = small(14); if (how >= 2) d.month_day = small(400); if (how >= 2) d.hour = small(50); if (how != 2) d.minute = small(120); d.second = small(1000); }
            i64 u; struct tm t = calendar(a.year + d.year, a.month + d.month, a.month_day + d.month_day, a.hour + d.hour, a.minute + d.minute, a.second + d.second, &u);
            if (t.tm_year < 2 || t.tm_year > 9998 - 1900) continue;
            r = run_op([&] { v = vt_datetime_op(a, d); }); must_return(r, "vt_datetime_op"); struct VitaDateTime w = {}; w.year = (int16_t)(t.tm_year + 1900); w.month = (int16_t)(t.tm_mon + 1); w.month_day = (int16_t)t.tm_mday; w.hour = (int16_t)t.tm_hour; w.minute = (int16_t)t.tm_min; w.second = (int16_t)t.tm_sec; w.week_day = (int16_t)(t.tm_wday == 0 ? 7 : t.tm_wday); w.year_day = (int16_t)(t.tm_yday + 1);
            // within a switch to or from summer time the seconds may count as elapsed time or as wall-clock time
            struct tm t0 = calendar(a.year + d.year, a.month + d.month, a.month_day + d.month_day, a.hour + d.hour, a.minute + d.minute, 0); struct VitaDateTime m = {}; m.year = (int16_t)(t0.tm_year + 1900); m.month = (int16_t)(t0.tm_mon + 1); m.month_day = (int16_t)t0.tm_mday; m.hour = (int16_t)t0.tm_hour; m.minute = (int16_t)t0.tm_min;
            auto mi = instants_of(m); if (instants_of(w).empty() || mi.empty()) { probe("op-into-the-skipped-hour"); continue; }
            bool fits = same_wall(v, t) && same_day(v, t); for (i64 x : mi) { struct tm e = local_of(x + a.second + d.second); fits |= same_wall(v, e) && same_day(v, e); }
            CHECK(fits, "wrong-sum", "vt_datetime_op(%s, %+d years %+d months %+d days %+d hours %+d minutes %+d seconds) gave %s, expected %s", vdt_text(a).c_str(), d.year, d.month, d.month_day, d.hour, d.minute, d.second, vdt_text(v).c_str(), vdt_text(w).c_str());
            s.push_back(v); probe("op");
        } else if (op == 6) {
            auto oa = instants_of(a), ob = instants_of(b); if (oa.empty() || ob.empty()) continue;
            time_t ds = 0, dmi = 0, dh = 0, dd = 0; r = run_op([&] { ds = vt_datetime_diff_secs(a, b); dmi = vt_datetime_diff_minutes(a, b); dh = vt_datetime_diff_hours(a, b); dd = vt_datetime_diff_days(a, b); }); must_return(r, "vt_datetime_diff_secs");
            auto fits = [&](i64 x, i64 unit) { for (i64 p : oa) for (i64 q : ob) if ((p - q) / unit == x) return true; return false; };
            CHECK(fits(ds, 1), "wrong-difference", "vt_datetime_diff_secs(%s, %s) gave %lld, they are %lld seconds apart", vdt_text(a).c_str(), vdt_text(b).c_str(), (long long)ds, (long long)(oa[0] - ob[0]));
            CHECK(fits(dmi, 60) && fits(dh, 3600) && fits(dd, 86400), "wrong-difference", "%s and %s are %lld seconds apart; the differences in minutes, hours and days are %lld, %lld, %lld", vdt_text(a).c_str(), vdt_text(b).c_str(), (long long)(oa[0] - ob[0]), (long long)dmi, (long long)dh, (long long)dd);
            probe("diff"); i64 e = oa[0] - ob[0]; if (e < -80ll * 365 * 86400 || e > 80ll * 365 * 86400) continue;
            r = run_op([&] { v = vt_datetime_diff(a, b); }); must_return(r, "vt_datetime_diff"); bool near_ = false; i64 got = (((i64)v.month_day * 24 + v.hour) * 60 + v.minute) * 60 + v.second;
            for (i64 p : oa) for (i64 q : ob) { i64 tol = 2 + (p > q ? p - q : q - p) / 1000000; near_ |= got - (p - q) <= tol && (p - q) - got <= tol; }
            CHECK(near_ && v.hour > -24 && v.hour < 24 && v.minute > -60 && v.minute < 60 && v.second > -60 && v.second < 60, "wrong-difference", "vt_datetime_diff(%s, %s) gave %d days %d:%d:%d, they are %lld seconds apart", vdt_text(a).c_str(), vdt_text(b).c_str(), v.month_day, v.hour, v.minute, v.second, (long long)e);
            probe("diff-parts");
        } else if (op == 7) {
            int16_t p[6] = {a.year, a.month, a.month_day, a.hour, a.minute, a.second}; static const int16_t lo[6] = {0, 1, 1, 0, 0, 0}, hi[6] = {32767, 12, 31, 23, 59, 60}; int bad = choose(2) ? -1 : 1 + (int)choose(5);
            if (bad >= 0) p[bad] = (int16_t)(choose(2) ? hi[bad] + 1 + (int)choose(choose(2) ? 3 : 3000) : lo[bad] - 1 - (int)choose(choose(2) ? 3 : 3000));
            bool fill = choose(3) != 2; r = run_op([&] { v = vt_datetime_create(p[0], p[1], p[2], p[3], p[4], p[5], fill ? -1 : a.week_day, fill ? -1 : a.year_day); }); must_return(r, "vt_datetime_create");
            const int16_t g[6] = {v.year, v.month, v.month_day, v.hour, v.minute, v.second};
            for (int i = 0; i < 6; i++) CHECK(i == bad ? g[i] >= lo[i] && g[i] <= hi[i] : g[i] == p[i], "wrong-create", "vt_datetime_create(%d, %d, %d, %d, %d, %d): field %d became %d", p[0], p[1], p[2], p[3], p[4], p[5], i, g[i]);
            struct tm t = calendar(v.year, v.month, v.month_day, v.hour, v.minute, v.second);
            if (same_wall(v, t) && (fill ? !instants_of(v).empty() : bad < 0)) { if (fill || same_day(a, t)) CHECK(same_day(v, t), "wrong-create", "vt_datetime_create gave %s", vdt_text(v).c_str()); }
            probe("create");
        } else {
            // what is left of a timestamp when the record that carried it was torn or damaged
            u32 f = choose(3); static const char *pf[] = {"%04d-%02d-%02d %02d:%02d:%02d", "%04d%02d%02dT%02d%02d%02d", "%04d-%02d-%02dT%02d:%02d:%02d"}; std::string t = fmt_of(pf[f], a.year, a.month, a.month_day, a.hour, a.minute, a.second);
            if (choose(3) != 2) t.resize(choose((u32)t.size())); else { size_t i; do i = choose((u32)t.size()); while (!isdigit((unsigned char)t[i])); t[i] = pick(std::vector<char>{' ', 'x', '-', '\xff', '/', ':'}); }
            char *buf = (char *)mem_alloc(t.size() + 1, false); memcpy(buf, t.c_str(), t.size() + 1); bool valid = false;
            r = run_op([&] { valid = f == 0 ? vt_datetime_is_valid_text(buf) : f == 1 ? vt_datetime_is_valid_text_iso(buf) : vt_datetime_is_valid_text_iso_ext(buf); }); must_return(r, "vt_datetime_is_valid_text"); mem_free(buf);
            CHECK(!valid, "wrong-validity", "%s is accepted as a timestamp", show(t).c_str()); probe("torn-text");
        }
    }
}

// C25 ---------------------------------------------------------------------
SCENARIO("C25", c25_debug_output, 1) {
    mem_config(); populate(); bool on = true; std::string redir; int n = long_history(2 + (int)choose(10));
    for (int k = 0; k < n; k++) {
        u32 op = choose(8);
        if (op == 0) { on = choose(2) == 1; must_return(run_op([&] { vt_debug_disable_output(!on); }), "vt_debug_disable_output"); ev("output %d", on); continue; }
        if (op == 1) { bool null = choose(3) == 2; redir = null ? "" : gen_path(); char *z = null ? nullptr : Z(redir); must_return(run_op([&] { vt_debug_redirect_output(z); }), "vt_debug_redirect_output"); ev("redirect %s", redir.c_str()); continue; }
        Msg m = gen_msg(); bool cond = choose(5) == 4; u32 form = choose(5); std::string want, t = now_text(); size_t mline = 0; Snap before = fs_snapshot("/"); size_t e0 = g_stderr.size(), o0 = g_stdout.size(); bool can = redir.empty() || can_write(redir); std::string tgt = redir.empty() ? "" : canon(redir); bool hard = choose(4) == 3; std::string ex1 = "expr %d", fi1 = "file.c", fu1 = "func"; if (choose(5) == 4) { (choose(2) ? ex1 : choose(2) ? fi1 : fu1) += gen_text(60 + choose(choose(4) ? 300 : 4000), 0); probe("long expression"); } char *zx1 = Z(ex1), *zf1 = Z(fi1), *zu1 = Z(fu1); bool mute = choose(12) == 11;
        static const std::vector<std::string> subj = {"DEBUG INFO", "S", "50% done"}; std::string sj = pick(subj); char *zs = Z(sj); std::string fn;
        ev("debug form %u cond %d", form, cond); int h0 = open_handles(); g_stderr_fails = mute; if (mute) { note_fault(F_STDERR); probe("standard error failed once"); }
        OpResult r = faulty_op(hard ? FM_FS : FM(F_OPEN)|FM(F_WRITE_SHORT), 4, [&] {
            fn = __func__;
            switch (form) {
                case 0:
#define D0(...) vt_debug_printf(zs, __VA_ARGS__)
                    WITH_MSG(m, D0); break;
                case 1:
#define D1(...) vt_debug_assert(cond, zx1, zs, false, zf1, zu1, 77, __VA_ARGS__)
                    WITH_MSG(m, D1); break;
                case 2:
#define D2(...) do { mline = __LINE__; VT_CHECK(cond && fn.size(), __VA_ARGS__); } while (0)
                    WITH_MSG(m, D2); break;
                case 3:
#define D3(...) do { mline = __LINE__; VT_NOTE(__VA_ARGS__); } while (0)
                    WITH_MSG(m, D3); break;
                default:
#define D4(...) VT_DEBUG_PRINTF(__VA_ARGS__)
                    WITH_MSG(m, D4); break;
            }
        });
        must_return(r, "debug output"); g_stderr_fails = false; bool openfail = !can || (g_op_faults & FM(F_OPEN)); bool faulted = g_op_hard > 0 && !(g_op_hard == 1 && openfail);
        g_disk_free = -1;
        switch (form) {
            case 0: want = t + " " + sj + " " + m.text; break;
            case 1: want = cond ? "" : debug_record(t, sj, ex1, fi1, fu1, 77, m.text); break;
            case 2: want = cond ? "" : debug_record(t, "CHECK FAILURE", "cond && fn.size()", "scen_log.cc", fn, mline, m.text); break;
            case 3: want = debug_record(t, "NOTE", "!", "scen_log.cc", fn, mline, m.text); break;
            default: want = t + " DEBUG INFO " + m.text; break;
        }
        if (!on) want = "";
        Snap after = fs_snapshot("/"); std::string derr = g_stderr.substr(e0);
        CHECK(!g_stderr_closed, "stderr-closed", "debug output closed standard error");
        CHECK(g_stdout.size() == o0, "wrong-destination", "debug output went to standard output");
        CHECK(open_handles() == h0, "handle-leak", "debug output left a file open");
        bool to_err = redir.empty() || openfail;
        if (to_err || want.empty()) {
            std::string d = snap_diff(before, after, want.empty() ? "" : tgt); CHECK(d.empty(), "wrong-destination", "debug output for standard error changed a file: %s", d.c_str());
            if (!mute) CHECK(derr == want, want.empty() ? "output-while-off" : "wrong-record", "standard error got %s, expected %s", show(derr, 200).c_str(), show(want, 200).c_str());
            probe(want.empty() ? "suppressed" : openfail ? "fallback" : "stderr");
        } else {
            CHECK(derr.empty(), "wrong-destination", "debug output for %s went to standard error: %s", redir.c_str(), show(derr, 100).c_str());
            std::string d = snap_diff(before, after, tgt); CHECK(d.empty(), "wrong-destination", "debug output changed another file: %s", d.c_str());
            std::string old = before.count(tgt) ? before[tgt].substr(2) : "", now = after.count(tgt) ? after[tgt].substr(2) : "";
            if (!faulted) CHECK(now == old + want, "wrong-record", "%s should have grown by %s; it grew by %s", redir.c_str(), show(want, 150).c_str(), show(now.size() >= old.size() ? now.substr(old.size()) : now, 150).c_str());
            else CHECK(now.compare(0, old.size(), old) == 0 && now.size() <= old.size() + want.size(), "damaged", "a failed debug write damaged %s", redir.c_str());
            probe("redirected");
        }
    }
}
