// C01..C06: whole-file reads and writes.
#include "scen.h"

static const u64 FM_WRITE = FM(F_OPEN)|FM(F_WRITE_ERR)|FM(F_WRITE_SHORT)|FM(F_ENOSPC)|FM(F_CLOSE)|FM(F_FSYNC);
static void populate() {
    fs_put("/work/a.txt", gen_text(choose(60), 0)); fs_put("/work/b.log", gen_bytes(gen_size())); fs_put("/work/empty", "");
    fs_put("/work/sub/c.txt", "line1\nline2\n"); fs_mkdir("/work/dir"); fs_put("/work/dir/x", "x"); fs_put("/other/keep", "keep me");
    fs_put("/work/ro", "read only"); fs_inode(fs_resolve("/work/ro", true)).nowrite = true;
    fs_put("/work/secret", "no access"); fs_inode(fs_resolve("/work/secret", true)).noread = true;
    fs_symlink("/work/link", "sub/c.txt"); fs_symlink("/work/dangling", "/work/newtarget"); fs_put("/work/a.txt.tmp", "unrelated"); fs_put("/work/a.txt~", "unrelated2"); fs_put("/work/a.txt.bak", "unrelated3");
}
static std::string gen_wpath() {
    static const std::vector<std::string> common = {"/work/a.txt", "a.txt", "/work/b.log", "sub/c.txt", "/work/new1", "new2", "/work/empty"};
    static const std::vector<std::string> odd = {"link", "dangling", "/nodir/x", "dir", "/work/ro", "/work/a.txt/below", "sub/", "/work/secret"};
    if (choose(5) < 4) return pick(common);
    if (choose(10) == 9) return "/work/" + std::string(254 + choose(3), 'n');
    if (choose(8) == 7) return long_path();
    return pick(odd);
}
static std::string gen_payload() { if (choose(8) == 7) return gen_text(choose(3), 0); size_t n = gen_size_or_large(); return gen_text(n, (int)choose(3)); }
// now and then an existing file is large (beyond any threshold a writer might have)
static void enlarge(const std::string &path) { int i = fs_resolve(path, true); if (i >= 0 && fs_inode(i).type == T_REG && choose(12) == 11) { static const std::vector<size_t> v = {4096, 8192, 65535, 65536, 65537, 131072, 300000, 1 << 20}; size_t n = pick(v) + choose(3); fs_inode(i).data = gen_text(100, 0) + std::string(n, 'L'); probe("large-existing-file"); } }

SCENARIO("C01", c01_write_results, 1) {
    mem_config(); quiet_debug(); populate();
    int n = long_history(1 + (int)choose(6));
    for (int k = 0; k < n; k++) {
        std::string path = gen_wpath(); enlarge(path); WriteCall w = gen_write(path, gen_payload());
        bool can = can_write(path); int i = fs_resolve(path, true); std::string before = i >= 0 ? fs_inode(i).data : "";
        if (choose(8) == 7) { g_disk_free = (i64)choose(9000); note_fault(F_ENOSPC); }
        bool full = g_disk_free >= 0; i64 room = g_disk_free; bool ret = false;
        ev("%s %s %zu", w.name.c_str(), path.c_str(), w.expect.size());
        OpResult r = faulty_op(FM_WRITE, 6, [&] { ret = w.call(); });
        bool faulted = g_op_hard > 0; bool nospace = full && room < (i64)w.expect.size(); g_disk_free = -1;
        must_return(r, w.name.c_str());
        std::string after = fs_get(path); std::string want = (w.append ? before : "") + w.expect;
        if (ret) {
            probe("write-true");
            CHECK(can, "success-without-file", "%s returned true for %s which cannot be written", w.name.c_str(), path.c_str());
            CHECK(after == want, "wrong-content", "%s returned true but %s holds %zu bytes (%s), expected %zu (%s)", w.name.c_str(), path.c_str(), after.size(), show(after).c_str(), want.size(), show(want).c_str());
            CHECK(!faulted, "unreported-failure", "%s returned true although a system call on %s failed", w.name.c_str(), path.c_str());
        } else {
            probe(faulted ? "write-false-fault" : nospace ? "write-false-full" : "write-false-path");
            CHECK(faulted || nospace || !can, "false-failure", "%s returned false although the system accepted everything (%s, %zu bytes)", w.name.c_str(), path.c_str(), w.expect.size());
        }
    }
}

// C02 ---------------------------------------------------------------------
SCENARIO("C02", c02_crash_consistency, 1) {
    mem_config(); quiet_debug(); populate();
    int n = long_history(1 + (int)choose(5));
    for (int k = 0; k < n; k++) {
        std::string path = gen_wpath(); enlarge(path); Snap snap = fs_snapshot("/"); std::string target = canon(path); if (target.size() > 1 && target.back() == '/') target.pop_back();
        int i = fs_resolve(path, true); bool existed = i >= 0; std::string before = existed && fs_inode(i).type == T_REG ? fs_inode(i).data : "";
        u32 kind = choose(10); bool kill = choose(3) == 2; u64 mask = kill ? FM_BENIGN : FM_FS;
        WriteCall w; std::function<void()> op; bool ret = false, is_write = false, is_log = false; std::string what, expect; char *zp = Z(path);
        if (kind < 7) { w = gen_write(path, gen_payload()); op = [&] { ret = w.call(); }; is_write = true; what = w.name; expect = w.expect; }
        else if (kind == 7) {
            int lev = (int)choose(4); std::string m = gen_text(choose(2) ? gen_size() : choose(50), (int)choose(3)); char *zm = Z(m); is_log = true; what = "vt_log";
            expect = log_record(now_text(), lev, nullptr, "file.c", 12, m); op = [=] { vt_log(zp, (enum VitaLogLevel)lev, false, nullptr, "file.c", 12, "%s", zm); };
        } else if (kind == 8) { what = "vt_file_read"; op = [&] { vt_str_t *s = choose(2) ? vt_file_read(zp, nullptr) : vt_file_readb(zp, nullptr); if (s) vt_str_destroy(s); }; }
        else { what = "vt_file_read_to_buffer"; op = [&] { char *b = Z(std::string(64, '.')); vt_file_read_to_buffer(zp, b, 64); }; }
        ev("%s %s%s", what.c_str(), path.c_str(), kill ? " (kill)" : "");
        arm(mask, 6); if (kill) g_kill_in = (int)choose(6);
        OpResult r = run_op(op); bool faulted = g_op_hard > 0; disarm(); g_disk_free = -1;
        if (r.out != KILLED) must_return(r, what.c_str()); else probe("killed-mid-call");
        Snap now = fs_snapshot("/"); std::string d = snap_diff(snap, now, target);
        CHECK(d.empty(), "unrelated-change", "%s on %s: %s", what.c_str(), path.c_str(), d.c_str());
        auto t = now.find(target);
        if (!is_write && !is_log) { d = snap_diff(snap, now); CHECK(d.empty(), "read-changed-file", "%s on %s: %s", what.c_str(), path.c_str(), d.c_str()); continue; }
        bool exists = t != now.end();
        CHECK(exists || !snap.count(target), "file-lost", "%s on %s removed it", what.c_str(), path.c_str());
        if (!exists || t->second[0] != 'f') { d = snap_diff(snap, now); CHECK(d.empty(), "target-replaced", "%s on %s: %s", what.c_str(), path.c_str(), d.c_str()); continue; }
        std::string after = t->second.substr(2);
        if (is_log || w.append) {
            CHECK(after.compare(0, before.size(), before) == 0 && after.size() >= before.size(), "append-damaged-old", "%s on %s: earlier content lost (had %zu bytes %s, now %zu bytes %s)", what.c_str(), path.c_str(), before.size(), show(before).c_str(), after.size(), show(after).c_str());
            std::string rest = after.substr(before.size());
            if (!is_log || r.out == KILLED || !faulted)
                CHECK(rest.size() <= expect.size() && expect.compare(0, rest.size(), rest) == 0, "append-not-prefix", "%s on %s left %zu bytes (%s) that are not a prefix of the appended %zu bytes (%s)", what.c_str(), path.c_str(), rest.size(), show(rest).c_str(), expect.size(), show(expect).c_str());
        } else {
            bool prefix = after.size() <= expect.size() && expect.compare(0, after.size(), after) == 0;
            CHECK(prefix || after == before, "overwrite-garbage", "%s on %s left %zu bytes (%s), neither the old content nor a prefix of the new %zu bytes (%s)", what.c_str(), path.c_str(), after.size(), show(after).c_str(), expect.size(), show(expect).c_str());
        }
        if (faulted) probe("failed-mid-call");
    }
}

// C03 ---------------------------------------------------------------------
static void check_str_result(const vt_str_t *s, const char *what) {
    size_t n = 0; CHECK(s->ptr && mem_live(s->ptr, &n), "bad-string", "%s returned a string without memory", what);
    CHECK(s->len < n, "bad-string", "%s returned a string of length %zu in %zu bytes", what, (size_t)s->len, n);
    CHECK(((char *)s->ptr)[s->len] == 0, "not-terminated", "%s returned a string of length %zu without a terminator", what, (size_t)s->len);
}
SCENARIO("C03", c03_read_whole, 3) {
    mem_config(); quiet_debug(); populate();
    vt_mallocator_t *al = nullptr; must_return(run_op([&] { al = vt_mallocator_create(); }), "vt_mallocator_create");
    int n = long_history(1 + (int)choose(6));
    for (int k = 0; k < n; k++) {
        std::string path; 
        if (choose(4) < 3) { path = "/work/data" + std::to_string(choose(3)); fs_put(path, choose(6) == 5 ? "" : choose(2) ? gen_bytes(gen_size_or_large()) : gen_text(gen_size(), (int)choose(3))); }
        else path = gen_wpath();
        bool can = can_read(path); std::string content = fs_get(path); char *zp = Z(path); int api = (int)choose(2); bool wa = choose(2) == 1; vt_str_t *s = nullptr;
        const char *what = api ? "vt_file_readb" : "vt_file_read";
        ev("%s %s %zu", what, path.c_str(), content.size());
        OpResult r = faulty_op(FM(F_OPEN)|FM(F_READ_ERR)|FM(F_READ_SHORT)|FM(F_STAT)|FM(F_CLOSE), 6, [&] { s = api ? vt_file_readb(zp, wa ? al : nullptr) : vt_file_read(zp, wa ? al : nullptr); });
        bool faulted = g_op_hard > 0; must_return(r, what);
        if (!s) { probe(faulted ? "read-null-fault" : "read-null"); CHECK(faulted || !can, "false-failure", "%s returned nothing for the readable file %s (%zu bytes)", what, path.c_str(), content.size()); continue; }
        probe("read-ok");
        CHECK(can, "content-from-nowhere", "%s returned a string for %s which cannot be read", what, path.c_str());
        check_str_result(s, what);
        CHECK(str_of(s) == content, "wrong-content", "%s(%s) returned %zu bytes (%s), the file holds %zu (%s)%s", what, path.c_str(), (size_t)s->len, show(str_of(s)).c_str(), content.size(), show(content).c_str(), faulted ? " [I/O error injected]" : "");
        must_return(run_op([&] { vt_str_destroy(s); }), "vt_str_destroy");
    }
}
// the file changes while it is being read
SCENARIO("C03", c03_read_concurrent, 2) {
    mem_config(); quiet_debug();
    std::string content = gen_bytes(choose(3) ? gen_size() : choose(20)); fs_put("/work/f", content); fs_put("/work/src", "other");
    std::vector<std::string> states = {content}; bool grow_only = choose(3) != 2, shrink_only = !grow_only && choose(2) == 1; i64 told = -1; int steps = 1 + (int)choose(4); vt_str_t *s = nullptr; bool done = false; int api = (int)choose(2);
    g_preempt = true;
    g_told_size = -1;
    int t = spawn([&] { s = api ? vt_file_readb("/work/f", nullptr) : vt_file_read("/work/f", nullptr); told = g_told_size; done = true; });
    spawn([&] {
        for (int k = 0; k < steps; k++) {
            yield(); std::string c = fs_get("/work/f");
            if (grow_only) c += gen_bytes(1 + choose(choose(2) ? 20 : 6000));
            else switch (shrink_only ? 0 : choose(3)) { case 0: c = c.substr(0, choose((u32)c.size() + 1)); break; case 1: c = gen_bytes(choose(50)); break; default: c += "tail"; }
            fs_put("/work/f", c); note_fault(F_CONC_CHANGE); ev("file changes to %zu bytes", c.size());
            if (!done) states.push_back(c);
        }
    });
    run_tasks(); g_preempt = false;
    must_return({task_outcome(t), task_code(t)}, "vt_file_read");
    if (!s) { CHECK(!grow_only, "false-failure", "reading a file that is only appended to returned nothing"); return; }
    check_str_result(s, "vt_file_read");
    if (grow_only) { bool ok = false; for (auto &c : states) ok |= c == str_of(s); CHECK(ok, "never-held", "vt_file_read returned %zu bytes that the file held at no moment of the call", (size_t)s->len); probe("concurrent-grow"); }
    else {
        probe("concurrent-replace");
        if (shrink_only && told >= 0) { probe("concurrent-shrink"); CHECK((i64)s->len >= told, "short-read-accepted", "vt_file_read found %zu bytes where the system had told it %lld, and returned them", (size_t)s->len, (long long)told); }
    }
}
// a file far larger than the memory there is: the read must not pass for a small one
RARE_SCENARIO("C03", c03_read_huge, 1) {
    mem_config(); quiet_debug(); static const std::vector<i64> hs = {0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x200000000ll, 1ll << 40}; std::string head = gen_text(1 + choose(200), 0); fs_put("/work/huge", head);
    i64 h = pick(hs) - (i64)choose(2) * (i64)head.size() + (i64)choose(3); fs_inode(fs_resolve("/work/huge", true)).hole = h; g_mem_limit = 1u << 30; vt_str_t *s = nullptr; int api = (int)choose(2); const char *what = api ? "vt_file_readb" : "vt_file_read";
    ev("%s of %lld bytes", what, (long long)(h + (i64)head.size())); OpResult r = run_op([&] { s = api ? vt_file_readb("/work/huge", nullptr) : vt_file_read("/work/huge", nullptr); });
    if (r.out == EXITED) { probe("huge-no-memory"); return; }
    must_return(r, what); CHECK(!s, "wrong-content", "%s returned %zu bytes of a file of %lld", what, (size_t)s->len, (long long)(h + (i64)head.size()));
}

// C04 ---------------------------------------------------------------------
SCENARIO("C04", c04_bounded_read, 3) {
    mem_config(); quiet_debug(); populate();
    int n = long_history(1 + (int)choose(6));
    for (int k = 0; k < n; k++) {
        std::string path, content;
        if (choose(5) < 4) { path = "/work/data"; content = gen_bytes(gen_size_or_large()); fs_put(path, content); } else { path = gen_wpath(); content = fs_get(path); }
        bool can = can_read(path);
        if (path == "/work/data" && choose(12) == 11) { static const std::vector<i64> hs = {0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 1ll << 40}; i64 h = pick(hs) - (i64)choose(2) * (i64)content.size() + (i64)choose(3); fs_inode(fs_resolve(path, true)).hole = h; content += std::string(9000, 0); probe("sparse-file"); }
        size_t blen; switch (choose(4)) { case 0: blen = 1 + choose(40); break; case 1: blen = 1 + gen_size(); break; case 2: { i64 d = (i64)content.size() + range(-2, 2); blen = d < 1 ? 1 : (size_t)d; break; } default: blen = content.size() * 2 + 1; }
        if (can && fs_inode(fs_resolve(path, true)).hole) blen = std::min(blen, content.size());   // the model knows only this much of a sparse file
        int pat = (int)(0x11 + choose(3) * 0x44); std::string init(blen, (char)pat); char *b = (char *)mem_alloc(blen, false); memset(b, pat, blen); char *zp = Z(path); const char *ret = nullptr;
        ev("read_to_buffer %s %zu of %zu", path.c_str(), blen, content.size());
        OpResult r = faulty_op(FM(F_OPEN)|FM(F_READ_ERR)|FM(F_READ_SHORT)|FM(F_STAT)|FM(F_CLOSE), 6, [&] { ret = vt_file_read_to_buffer(zp, b, blen); });
        bool faulted = g_op_hard > 0; must_return(r, "vt_file_read_to_buffer");
        size_t m = std::min(blen, content.size()); std::string got(b, blen);
        if (can) CHECK(got.substr(m) == init.substr(m), "buffer-tail-touched", "vt_file_read_to_buffer changed bytes after the first %zu of a %zu byte buffer (file has %zu bytes)", m, blen, content.size());
        if (ret) {
            probe("bounded-ok");
            CHECK(can, "content-from-nowhere", "a buffer was returned for %s which cannot be read", path.c_str());
            CHECK(ret == b, "wrong-pointer", "vt_file_read_to_buffer did not return the buffer");
            CHECK(got.substr(0, m) == content.substr(0, m), "wrong-content", "buffer of %zu bytes holds %s, the file (%zu bytes) starts with %s", blen, show(got).c_str(), content.size(), show(content).c_str());
        } else { probe("bounded-null"); CHECK(faulted || !can, "false-failure", "vt_file_read_to_buffer(%zu) failed for a readable file of %zu bytes", blen, content.size()); }
        mem_free(b);
    }
}
SCENARIO("C04", c04_bounded_concurrent, 2) {
    mem_config(); quiet_debug();
    std::string content = gen_bytes(1 + gen_size() % 9000); fs_put("/work/f", content); size_t blen = choose(2) ? 1 + choose(9000) : (size_t)std::max<i64>(1, (i64)content.size() + range(-2, 2)); std::vector<std::string> states = {content};
    char *b = (char *)mem_alloc(blen, false); memset(b, '#', blen); const char *ret = nullptr; bool done = false; bool shrink = choose(2) == 1;
    g_preempt = true;
    int t = spawn([&] { ret = vt_file_read_to_buffer("/work/f", b, blen); done = true; });
    spawn([&] { int k = 1 + (int)choose(3); while (k--) { yield(); std::string c = fs_get("/work/f"); if (shrink) c = c.substr(0, choose((u32)c.size() + 1)); else c += gen_bytes(choose(5000)); fs_put("/work/f", c); note_fault(F_CONC_CHANGE); ev("file has now %zu bytes", c.size()); if (!done) states.push_back(c); } });
    run_tasks(); g_preempt = false; must_return({task_outcome(t), task_code(t)}, "vt_file_read_to_buffer");
    if (!ret) { CHECK(shrink, "false-failure", "bounded read of a growing file failed"); return; }
    bool ok = false; for (auto &c : states) { size_t m = std::min(blen, c.size()); if (!memcmp(b, c.data(), m) && std::string(b + m, blen - m) == std::string(blen - m, '#')) ok = true; }
    CHECK(ok, "never-held", "the buffer (%zu bytes) matches the file at no moment of the call", blen);
}

// C06 ---------------------------------------------------------------------
SCENARIO("C06", c06_concurrent_appends, 1) {
    mem_config(); if (choose(2)) vt_debug_disable_output(true); else vt_debug_disable_output(false);
    std::string before = choose(2) ? gen_text(choose(100), 0) + "\n" : ""; fs_put("/work/log", before);
    bool many = choose(150) == 149; if (many) { more_cpu(30); probe("many records"); } int nt = 2 + (int)choose(3); std::vector<std::vector<std::string>> want((size_t)nt); std::vector<std::vector<std::function<void()>>> ops((size_t)nt); int total = 0; bool fail = false;
    bool dbg = choose(3) == 2; if (dbg) { vt_debug_disable_output(false); vt_debug_redirect_output("/work/log"); } bool by_level = choose(2) == 1; if (by_level) vt_log_redirect_all_output("/work/log");
    for (int t = 0; t < nt; t++) {
        int n = many ? 10 + (int)choose(60) : 1 + (int)choose(4);
        for (int k = 0; k < n; k++) {
            char tag[32]; snprintf(tag, sizeof tag, "<%d.%d>", t, k);
            size_t len; switch (choose(4)) { case 0: len = choose(30); break; case 1: len = choose(1000); break; case 2: len = 3900 + choose(60); break; default: len = choose(3900); }
            std::string text = tag + gen_text(len, (int)choose(3)); u32 kind = choose(3);
            if (kind < 2) {
                WriteCall w = gen_write("/work/log", text, true);
                if (w.expect.find(tag) == std::string::npos || w.expect.size() >= 4096) { char *z = Z(text), *p = Z("/work/log"); w.expect = text; w.call = [=] { return vt_file_append(p, z); }; }
                want[t].push_back(w.expect); auto c = w.call; ops[t].push_back([c, &fail] { if (!c()) fail = true; });
            } else {
                int lev = (int)choose(4); char *z = Z(text); std::string rec; u32 form = choose(dbg ? 4 : 2);
                if (form == 0) { rec = log_record(now_text(), lev, nullptr, "src.c", (size_t)k, text); bool v = by_level; ops[t].push_back([=] { vt_log(v ? nullptr : "/work/log", (enum VitaLogLevel)lev, false, nullptr, "src.c", (size_t)k, "%s", z); }); }
                else if (form == 1) { rec = log_record(now_text(), lev, "a < b", "src.c", (size_t)k, text); ops[t].push_back([=] { vt_log("/work/log", (enum VitaLogLevel)lev, false, "a < b", "src.c", (size_t)k, "%s", z); }); }
                else if (form == 2) { rec = now_text() + " SUBJ " + text; ops[t].push_back([=] { vt_debug_printf("SUBJ", "%s", z); }); }
                else { rec = debug_record(now_text(), "CHECK FAILURE", "x", "src.c", "fn", (size_t)k, text); ops[t].push_back([=] { vt_debug_assert(false, "x", "CHECK FAILURE", false, "src.c", "fn", (size_t)k, "%s", z); }); }
                if (rec.size() >= 4096) { ops[t].pop_back(); continue; }
                want[t].push_back(rec);
            }
            total++;
        }
    }
    g_preempt = true; g_fine = choose(2); std::vector<int> ids;
    for (int t = 0; t < nt; t++) ids.push_back(spawn([&, t] { for (auto &f : ops[t]) f(); }));
    if (choose(4) == 3) g_kill_in = (int)choose(many ? 2000 : 60);   // one of the tasks may be killed (it stands for a process of its own)
    run_tasks(); g_preempt = g_fine = false; g_kill_in = -1; int dead = -1; count_ops(total);
    for (int t = 0; t < nt; t++) if (task_outcome(ids[t]) == KILLED) { dead = t; probe("task-killed"); } else must_return({task_outcome(ids[t]), task_code(ids[t])}, "an append");
    CHECK(!fail, "false-failure", "a concurrent append reported failure although nothing failed");
    std::string got = fs_get("/work/log"); CHECK(got.compare(0, before.size(), before) == 0, "old-content-lost", "the earlier content of the shared file changed");
    std::vector<size_t> pos((size_t)nt, 0); size_t at = before.size(); int seen = 0;
    while (at < got.size()) {
        int hit = -1; for (int t = 0; t < nt; t++) if (pos[t] < want[t].size() && got.compare(at, want[t][pos[t]].size(), want[t][pos[t]]) == 0) { hit = t; break; }
        if (hit < 0 && dead >= 0 && pos[dead] < want[dead].size()) {   // what the killed task had stored of its record
            const std::string &w = want[dead][pos[dead]]; size_t m = 0; while (m < w.size() && at + m < got.size() && w[m] == got[at + m]) m++;
            for (; m > 0; m--) { bool next = at + m == got.size(); for (int t = 0; t < nt && !next; t++) next = t != dead && pos[t] < want[t].size() && got.compare(at + m, want[t][pos[t]].size(), want[t][pos[t]]) == 0; if (next) break; }
            if (m) { at += m; pos[dead] = want[dead].size(); probe("torn-by-kill"); continue; }
        }
        CHECK(hit >= 0, "record-torn", "after %d of %d records the shared file continues with %s, which is no task's next record", seen, total, show(got.substr(at)).c_str());
        at += want[hit][pos[hit]].size(); pos[hit]++; seen++; ev("record of task %d", hit);
    }
    for (int t = 0; t < nt; t++) CHECK(t == dead || pos[t] == want[t].size(), "record-lost", "only %zu of the %zu records of task %d are in the shared file", pos[t], want[t].size(), t);
    probe("records-interleaved");
}
