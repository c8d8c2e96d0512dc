// C05, C10, C11, C12, C13, C28, C30: paths and directories.
#include "scen.h"

static std::vector<std::string> comps(const std::string &p) { std::vector<std::string> v; size_t i = 0; while (i < p.size()) { size_t j = p.find('/', i); if (j == std::string::npos) j = p.size(); if (j > i) v.push_back(p.substr(i, j - i)); i = j + 1; } return v; }
// where the entry named by `path` lives: its directory resolved, the last component not followed
static std::string entry_of(const std::string &path) {
    std::string abs = path[0] == '/' ? path : "/work/" + path; std::vector<std::string> out; int depth = 0; std::vector<std::string> todo = comps(abs);
    for (size_t i = 0; i < todo.size(); i++) {
        std::string c = todo[i]; if (c == ".") continue; if (c == "..") { if (!out.empty()) out.pop_back(); continue; }
        out.push_back(c); if (i + 1 == todo.size()) break;
        std::string cur; for (auto &x : out) cur += "/" + x;
        int l = fs_resolve(cur, false);
        if (l >= 0 && fs_inode(l).type == T_LNK && depth++ < 20) { std::string t = fs_inode(l).target; out.pop_back(); if (t[0] == '/') out.clear(); std::vector<std::string> n = comps(t); n.insert(n.end(), todo.begin() + i + 1, todo.end()); todo = n; i = (size_t)-1; }
    }
    std::string r; for (auto &x : out) r += "/" + x; return r.empty() ? "/" : r;
}
static const std::vector<std::string> names = {"a", "b", "cc", ".dot", "sp ace", "100%s", "x.txt", "..hid", "d1", "very_long_name_that_is_still_fine_0123456789_0123456789_0123456789_0123456789", "...", "e\xc3\xa9", "n\nl", "-f", "~"};
struct Tree { std::vector<std::string> paths; };  // relative paths below the root
static void grow(const std::string &root, const std::string &rel, int depth, Tree &t, int budget) {
    int n = (int)choose(depth == 0 ? 7 : 4); if (depth == 0 && choose(12) == 11) n = 20 + (int)choose(60);
    for (int i = 0; i < n && (int)t.paths.size() < budget; i++) {
        std::string nm = i < 5 || choose(2) ? pick(names) : "f"; if (fs_exists(root + "/" + rel + nm)) nm += std::to_string(i); if (fs_exists(root + "/" + rel + nm)) continue;
        std::string p = rel + nm, full = root + "/" + p;
        switch (choose(7)) {
            case 0: case 1: case 2: fs_put(full, gen_text(choose(20), 0)); break; case 6: if (choose(3) == 2) fs_fifo(full); else fs_put(full, ""); break;
            case 3: case 4: fs_mkdir(full); t.paths.push_back(p); if (depth < 4) grow(root, p + "/", depth + 1, t, budget); continue;
            default: { static const std::vector<std::string> tg = {"/outside", "/outside/file", "/nowhere", ".", "..", "/outside/deep/", "a", "/work"}; fs_symlink(full, pick(tg)); }
        }
        t.paths.push_back(p);
    }
}
// many entries in one directory, or a long chain of directories
static void grow_at_scale(const std::string &root, Tree &t, bool any_depth = false) {
    more_cpu(30);
    if (choose(2)) { u32 n = 90 + choose(choose(3) ? 300 : 1500); if (choose(8) == 7) n = 4000 + choose(3000); u32 kind = choose(3); std::string pre = choose(3) ? "" : std::string(choose(200), 'w'); for (u32 i = 0; i < n; i++) { std::string p = pre + "e" + std::to_string(i); if (kind == 0 || (kind == 1 && i % 7)) fs_put(root + "/" + p, "x"); else if (kind == 1) fs_symlink(root + "/" + p, "/outside"); else fs_mkdir(root + "/" + p); t.paths.push_back(p); } probe("hundreds of entries"); return; }
    u32 n = 8 + choose(90); size_t w = 1 + choose(3000 / n > 240 ? 240 : 3000 / n); if (any_depth && choose(2)) { n = 17 + choose(20); w = std::min<size_t>(250, 3900 / n + 1 + choose(40)); probe("too deep"); } std::string rel; for (u32 i = 0; i < n; i++) { rel += (i ? "/" : "") + std::string(w, (char)('a' + i % 26)); fs_mkdir(root + "/" + rel); t.paths.push_back(rel); if (choose(3) == 2) { std::string f = rel + "/0" + std::to_string(i); if (choose(2)) fs_put(root + "/" + f, "x"); else fs_symlink(root + "/" + f, "/outside"); t.paths.push_back(f); } } probe("deep directories");
}
static void outside() { g_dtype_unknown = choose(4) == 3; g_dir_links = choose(2) == 0; fs_put("/outside/file", "precious"); fs_put("/outside/deep/more", "precious too"); fs_put("/outside/.hidden", "h"); fs_put("/work/keep", "k"); fs_put("/work/treeX/file", "similar name"); }

// C10 ---------------------------------------------------------------------
static std::string gen_dirpath() {
    static const std::vector<std::string> c = {"a", "b", "c", "new", "dir", "file", "link", "dangling", ".", "..", "ro", "sp ace", "x%dy", "u_"};
    std::string p = choose(2) ? "/work/" : choose(3) ? "" : "./"; int n = 1 + (int)choose(6);
    for (int i = 0; i < n; i++) { if (i) p += choose(10) == 9 ? "//" : "/"; p += choose(4) ? c[choose(4)] + std::to_string(choose(2)) : choose(25) == 24 ? std::string(250 + choose(10), 'L') : pick(c); }
    if (choose(5) == 4) p += choose(4) == 3 ? std::string(2 + choose(3), '/') : "/";
    if (choose(12) == 11) p = "/" + p;
    if (choose(30) == 29) { std::string q = long_path(3600) + "/" + p; if (q.size() < 4090) p = q; }
    return p;
}
// would creating the path succeed if every system call worked? (model of creation, component by component)
static bool feasible(const std::string &path, bool parents, std::set<std::string> &may_create) {
    std::vector<std::string> cs = comps(path); bool abs = path[0] == '/'; std::string cur = abs ? "" : "."; bool ok = true; std::set<std::string> made; 
    // resolve on the real tree plus the set of directories made so far (canonical paths)
    std::string at = abs ? "/" : "/work";
    for (size_t i = 0; i < cs.size() && ok; i++) {
        const std::string &c = cs[i]; bool last = i + 1 == cs.size();
        if (c == ".") continue;
        if (c == "..") { size_t s = at.rfind('/'); at = s == 0 ? "/" : at.substr(0, s); continue; }
        std::string next = at == "/" ? "/" + c : at + "/" + c; may_create.insert(next);
        if (made.count(next)) { at = next; continue; }
        if (c.size() > 255) { ok = false; break; }
        int l = made.count(at) ? -1 : fs_resolve(next, false);
        if (l < 0) {
            if (!last && !parents) { ok = false; break; }
            int d = made.count(at) ? -1 : fs_resolve(at, true); if (d >= 0 && fs_inode(d).nowrite) { ok = false; break; }
            made.insert(next); at = next; continue;
        }
        if (fs_inode(l).type == T_LNK) { int r = fs_resolve(next, true); if (r < 0 || fs_inode(r).type != T_DIR) { ok = false; break; } next = fs_inode(l).target[0] == '/' ? fs_inode(l).target : (at == "/" ? "/" : at + "/") + fs_inode(l).target; at = entry_of(next); continue; }
        if (fs_inode(l).type != T_DIR) { ok = false; break; }
        at = next;
    }
    (void)cur; return ok;
}
static void dirs_setup() {
    fs_put("/work/file", "data"); fs_mkdir("/work/dir/a0"); fs_put("/work/dir/file", "x"); fs_symlink("/work/link", "dir"); fs_symlink("/work/dangling", "/work/gone"); fs_symlink("/work/dir/link", "/outside"); outside();
    fs_mkdir("/work/ro"); fs_inode(fs_resolve("/work/ro", true)).nowrite = true; if (choose(2)) fs_mkdir("/work/a0/b0"); if (choose(2)) fs_put("/work/a1/b1", "file in the way");
}
static void only_created(const Snap &a, const Snap &b, const std::set<std::string> &may, const char *what, const std::string &path) {
    for (auto &x : a) { auto it = b.find(x.first); CHECK(it != b.end() && it->second == x.second, "unrelated-change", "%s(%s): %s was removed or changed", what, path.c_str(), x.first.c_str()); }
    for (auto &x : b) if (!a.count(x.first)) {
        CHECK(may.count(x.first) && x.second == "d", "unrelated-created", "%s(%s) created %s", what, path.c_str(), x.first.c_str());
        int i = fs_resolve(x.first, false); CHECK(i >= 0 && !fs_inode(i).noread && !fs_inode(i).nowrite && !fs_inode(i).nosearch, "unusable-directory", "%s(%s) created %s with permissions that keep its owner out", what, path.c_str(), x.first.c_str());
    }
}
SCENARIO("C10", c10_mkdir, 3) {
    mem_config(); quiet_debug(); dirs_setup(); int n = long_history(1 + (int)choose(5));
    for (int k = 0; k < n; k++) {
        std::string path = gen_dirpath(); bool parents = choose(3) != 2; if (!parents && choose(2)) path = path.substr(0, path.find('/', 6)); if (path.empty()) path = "z";
        std::set<std::string> may; bool feas = feasible(path, parents, may); Snap before = fs_snapshot("/"); bool ret = false; char *z = Z(path); const char *what = parents ? "vt_path_mkdir_parents" : "vt_path_mkdir";
        auto call = [&] { ret = parents ? vt_path_mkdir_parents(z) : vt_path_mkdir(z); };
        bool kill = choose(5) == 4; ev("%s %s%s feasible=%d", what, path.c_str(), kill ? " kill" : "", feas);
        arm(kill ? 0 : FM(F_STAT)|FM(F_MKDIR), 14); if (kill) g_kill_in = (int)choose(16);
        OpResult r = run_op(call); bool faulted = g_op_hard > 0; disarm();
        if (r.out != KILLED) must_return(r, what);
        only_created(before, fs_snapshot("/"), may, what, path);
        if (r.out == RETURNED) {
            bool isdir = fs_is_dir(path);
            if (ret) { CHECK(isdir, "false-success", "%s(%s) returned true but it is not a directory", what, path.c_str()); probe("mkdir-true"); }
            else { CHECK(faulted || !feas, "false-failure", "%s(%s) returned false although no system call failed", what, path.c_str()); probe(faulted ? "mkdir-false-fault" : "mkdir-false"); if (faulted && !feas) continue; }
            if (ret) continue;
        } else probe("mkdir-killed");
        // a retry without faults completes it
        OpResult r2 = run_op(call); must_return(r2, what);
        only_created(before, fs_snapshot("/"), may, what, path);
        CHECK(ret == feas && (!ret || fs_is_dir(path)), "retry-failed", "%s(%s) after a failed attempt: retry returned %d, directory %d", what, path.c_str(), ret, fs_is_dir(path)); probe("mkdir-retried");
    }
}
SCENARIO("C10", c10_mkdir_concurrent, 1) {
    mem_config(); vt_debug_disable_output(choose(2) == 1); dirs_setup(); int n = 2 + (int)choose(3); std::vector<std::string> ps; std::vector<char *> zs; std::vector<int> ret((size_t)n, -1), ids; std::set<std::string> may; Snap before = fs_snapshot("/");
    std::string base = choose(2) ? "/work/q" : "q";
    for (int i = 0; i < n; i++) { std::string p = base; int d = (int)choose(4); for (int k = 0; k < d; k++) p += "/" + std::string(1, (char)('a' + choose(2))); if (choose(4) == 3) p += choose(3) == 2 ? "//" : "/"; ps.push_back(p); zs.push_back(Z(p)); CHECK(feasible(p, true, may), "harness", "infeasible path in the concurrent scenario"); }
    g_preempt = true; for (int i = 0; i < n; i++) ids.push_back(spawn([&, i] { ret[i] = vt_path_mkdir_parents(zs[i]); })); run_tasks(); g_preempt = false;
    for (int i = 0; i < n; i++) { must_return({task_outcome(ids[i]), task_code(ids[i])}, "vt_path_mkdir_parents"); CHECK(ret[i] == 1 && fs_is_dir(ps[i]), "race-failure", "concurrent vt_path_mkdir_parents(%s) returned %d, directory exists: %d", ps[i].c_str(), ret[i], fs_is_dir(ps[i])); }
    only_created(before, fs_snapshot("/"), may, "vt_path_mkdir_parents", "(concurrent)"); probe("mkdir-race");
}

// C11 ---------------------------------------------------------------------
static std::string gen_root() { static const std::vector<std::string> v = {"/work/tree", "tree", "./tree", "/work/tree/", "sub/tree"}; if (choose(25) == 24) return long_path(2500); std::string r = pick(v); if (r[0] == 's') fs_mkdir("/work/sub"); return r; }
static bool beyond_path_max(const std::string &root, const Tree &t) { for (auto &p : t.paths) if (root.size() + p.size() + 3 >= 4096) return true; return false; }
static void inside_only(const Snap &a, const Snap &b, const std::string &root, const char *when) {
    for (auto &x : a) { bool in = x.first == root || x.first.compare(0, root.size() + 1, root + "/") == 0; auto it = b.find(x.first); if (in) { if (it != b.end()) CHECK(it->second == x.second, "content-changed", "recursive deletion %s changed %s", when, x.first.c_str()); } else CHECK(it != b.end() && it->second == x.second, "deleted-outside", "recursive deletion of %s %s removed or changed %s", root.c_str(), when, x.first.c_str()); }
    for (auto &x : b) CHECK(a.count(x.first), "created", "recursive deletion created %s", x.first.c_str());
    for (auto &x : fs_modes()) CHECK(x.first == root || x.first.compare(0, root.size() + 1, root + "/") == 0, "changed-outside", "recursive deletion of %s %s changed the permissions of %s", root.c_str(), when, x.first.c_str());
}
SCENARIO("C11", c11_rmdir_recurse, 3) {
    mem_config(); quiet_debug(); outside(); bool scale = choose(160) == 159; std::string root = scale ? "/work/tree" : gen_root(), abs = entry_of(root); fs_mkdir(abs); Tree t; if (scale) grow_at_scale(abs, t); else if (choose(8)) grow(abs, "", 0, t, 70);
    if (beyond_path_max(std::max(root, abs, [](auto &x, auto &y) { return x.size() < y.size(); }), t)) return;
    if (choose(3) == 2) { fs_link(abs + "/alias", fs_resolve("/outside/file", true)); t.paths.push_back("alias"); probe("hard-link"); }   // another name of a file outside
    Snap before = fs_snapshot("/"); char *z = Z(root); bool ret = false; auto call = [&] { ret = vt_path_rmdir_recurse(z); };
    bool kill = choose(3) == 2; ev("rmdir_recurse %s with %zu entries%s", root.c_str(), t.paths.size(), kill ? " kill" : ""); int hor = 6 + (int)t.paths.size() * 5;
    for (int attempt = 0; attempt < 1 + (int)choose(3); attempt++) {
        if (!fs_exists(abs)) break;
        arm(kill ? 0 : FM(F_STAT)|FM(F_OPENDIR)|FM(F_READDIR)|FM(F_CLOSEDIR)|FM(F_RMDIR)|FM(F_UNLINK), hor); if (kill) g_kill_in = (int)choose((u32)hor + 10);
        OpResult r = run_op(call); bool faulted = g_op_hard > 0; disarm(); if (r.out != KILLED) must_return(r, "vt_path_rmdir_recurse");
        inside_only(before, fs_snapshot("/"), abs, "with faults");
        if (r.out == RETURNED && ret) { CHECK(!fs_exists(abs), "false-success", "vt_path_rmdir_recurse(%s) returned true but it still exists", root.c_str()); probe("rmtree-true"); return; }
        if (r.out == RETURNED) { CHECK(faulted, "false-failure", "vt_path_rmdir_recurse(%s) of %zu entries returned false although no system call failed", root.c_str(), t.paths.size()); probe("rmtree-false"); } else probe("rmtree-killed");
    }
    if (!fs_exists(abs)) return;
    must_return(run_op(call), "vt_path_rmdir_recurse"); inside_only(before, fs_snapshot("/"), abs, "on retry");
    CHECK(ret && !fs_exists(abs), "retry-failed", "vt_path_rmdir_recurse(%s) repeated without faults returned %d; directory left: %d", root.c_str(), ret, fs_exists(abs)); probe("rmtree-retried");
}
// targets that are not directories, and changes by others while deleting
SCENARIO("C11", c11_rmdir_odd, 1) {
    mem_config(); quiet_debug(); outside(); bool ret = false;
    if (choose(2) == 0) {
        fs_symlink("/work/lnk", choose(2) ? "/outside" : "treeX"); fs_symlink("/work/dang", "/no"); static const std::vector<std::string> v = {"lnk", "/work/lnk", "keep", "/work/dang", "missing", "/work/keep/x"}; std::string p = pick(v); Snap before = fs_snapshot("/"); char *z = Z(p);
        std::string e = entry_of(p); OpResult r = faulty_op(FM_FS, 6, [&] { ret = vt_path_rmdir_recurse(z); }); must_return(r, "vt_path_rmdir_recurse"); Snap after = fs_snapshot("/"); std::string d = snap_diff(before, after, e);
        CHECK(d.empty(), "deleted-outside", "vt_path_rmdir_recurse(%s): %s", p.c_str(), d.c_str()); CHECK(!ret || !fs_exists(p), "false-success", "vt_path_rmdir_recurse(%s) returned true but it still exists", p.c_str()); CHECK(snap_diff(before, after).empty(), "removed-non-directory", "vt_path_rmdir_recurse(%s), which is no directory: %s", p.c_str(), snap_diff(before, after).c_str()); CHECK(!ret, "false-success", "vt_path_rmdir_recurse(%s) returned true although it names no directory and nothing was deleted", p.c_str()); probe("rmtree-odd"); return;
    }
    std::string abs = "/work/tree"; fs_mkdir(abs); Tree t; grow(abs, "", 0, t, 30); Snap before = fs_snapshot("/"); int nchg = 1 + (int)choose(3); bool gone = false;
    g_preempt = true; int id = spawn([&] { ret = vt_path_rmdir_recurse("/work/tree"); gone = !fs_exists("/work/tree"); });
    spawn([&] { for (int k = 0; k < nchg; k++) { for (u32 y = choose(12); y-- > 0;) yield(); if (!fs_is_dir("/work/tree")) return; note_fault(F_CONC_CHANGE); if (choose(2)) { fs_put("/work/tree/late" + std::to_string(k), "z"); ev("another task adds a file"); } else if (!t.paths.empty()) { std::string p = abs + "/" + pick(t.paths); int i = fs_resolve(p, false); if (i >= 0 && fs_inode(i).type != T_DIR) { fs_unlink_raw(p); ev("another task removes %s", p.c_str()); } } } });
    run_tasks(); g_preempt = false; must_return({task_outcome(id), task_code(id)}, "vt_path_rmdir_recurse");
    Snap after = fs_snapshot("/"); std::string d = snap_diff(before, after, abs, true); CHECK(d.empty(), "deleted-outside", "vt_path_rmdir_recurse: %s", d.c_str());
    CHECK(!ret || gone, "false-success", "vt_path_rmdir_recurse returned true but the directory still exists");
    if (fs_exists(abs)) { must_return(run_op([&] { ret = vt_path_rmdir_recurse("/work/tree"); }), "retry"); CHECK(ret && !fs_exists(abs), "retry-failed", "repeating the deletion after concurrent changes returned %d", ret); }
    probe("rmtree-concurrent");
}

// C12 ---------------------------------------------------------------------
static void expect_in(int i, const std::string &shown, bool rec, bool nodot, std::vector<std::string> &out, bool &unreadable, bool *hard) {
    if (fs_inode(i).noread) { unreadable = true; return; } if (rec && fs_inode(i).nosearch && hard) *hard = true;
    for (auto &e : fs_inode(i).ent) {
        if (nodot && e.first[0] == '.') continue;
        if (!rec) { out.push_back(e.first); continue; }
        std::string p = shown + "/" + e.first; if (fs_inode(e.second).type == T_DIR) expect_in(e.second, p, rec, nodot, out, unreadable, hard);
        out.push_back(p);
    }
}
static void expect_list(const std::string &abs, const std::string &shown, const std::string &, bool rec, bool nodot, std::vector<std::string> &out, bool &unreadable, bool *hard = nullptr) { int i = fs_resolve(abs, true); if (i >= 0) expect_in(i, shown, rec, nodot, out, unreadable, hard); }
// a caller looks at some of the entries, with the list's own iterator, before freeing it
static void look_at_some(vt_plist_t *l) { if (l->len && choose(3) == 2) { size_t n = choose((u32)std::min<size_t>(l->len, 50) + 1); bool back = choose(2); must_return(run_op([&] { for (size_t i = 0; i < n; i++) back ? vt_plist_slide_back(l) : vt_plist_slide_front(l); }), "vt_plist_slide_front"); if (n) probe("looked at"); } }
static std::vector<std::string> list_of(vt_plist_t *l) { std::vector<std::string> v; for (size_t i = 0; i < l->len; i++) { vt_str_t *s = (vt_str_t *)l->ptr2[i]; CHECK(s && s->ptr && strlen((char *)s->ptr) == s->len, "bad-entry", "entry %zu of a listing is not a terminated string", i); v.push_back(str_of(s)); } return v; }
SCENARIO("C12", c12_listing, 3) {
    mem_config(); quiet_debug(); outside(); bool scale = choose(160) == 159; std::string root = scale ? "/work/tree" : gen_root(), abs = entry_of(root); fs_mkdir(abs); Tree t; if (scale) grow_at_scale(abs, t, true); else grow(abs, "", 0, t, 110);
    if (choose(6) == 5) { bool list = choose(2) == 0; for (auto &p : t.paths) { int i = fs_resolve(abs + "/" + p, false); if (i >= 0 && fs_inode(i).type == T_DIR && (list || !fs_inode(i).ent.empty())) { if (list) fs_inode(i).noread = true; else { fs_inode(i).nosearch = true; probe("no-search"); } break; } } }
    vt_mallocator_t *al = nullptr; if (choose(2)) must_return(run_op([&] { al = vt_mallocator_create(); }), "vt_mallocator_create");
    for (int k = 0, n = 1 + (int)choose(3); k < n; k++) {
        bool rec = choose(2) == 1, nodot = choose(2) == 1, own = choose(3) == 2; std::string target = root; if (choose(8) == 7) { static const std::vector<std::string> odd = {"keep", "missing", "/outside", "/work/keep/x"}; target = pick(odd); }
        std::vector<std::string> want; bool unread = false, hard = false; bool isdir = fs_is_dir(target); if (isdir) expect_list(entry_of(target), target, "", rec, nodot, want, unread, &hard);
        vt_plist_t *l = nullptr, *mine = nullptr; char *z = Z(target); Snap before = fs_snapshot("/");
        std::vector<void *> stale;   // what a list used before still holds
        if (own) { must_return(run_op([&] { mine = vt_plist_create(1 + choose(3), al); if (choose(3) == 2) for (int i = 1 + (int)choose(choose(6) == 5 ? 300 : 6); i-- > 0;) { vt_str_t *o = vt_str_create("old", al); stale.push_back(o); vt_plist_push_back(mine, o); } }), "vt_plist_create"); if (!stale.empty()) probe("reused-list"); }
        ev("list %s rec=%d nodot=%d expect %zu", target.c_str(), rec, nodot, want.size());
        OpResult r = faulty_op(FM(F_STAT)|FM(F_OPENDIR)|FM(F_READDIR)|FM(F_CLOSEDIR), 4 + (int)want.size() * (rec ? 3 : 1), [&] { l = rec ? vt_path_dir_list_recurse(mine, z, nodot) : vt_path_dir_list(mine, z, nodot); });
        bool faulted = g_op_hard > 0; const char *what = rec ? "vt_path_dir_list_recurse" : "vt_path_dir_list"; must_return(r, what);
        CHECK(snap_diff(before, fs_snapshot("/")).empty() && fs_modes().empty(), "listing-changed-files", "%s changed the file system", what);
        if (!l) {
            CHECK(faulted || unread || hard || !isdir || (rec && beyond_path_max(target, t)), "false-failure", "%s(%s) returned nothing although every part could be read", what, target.c_str());
            if (mine) { CHECK(mine->len == 0 || (mine->len == stale.size() && !memcmp(mine->ptr2, stale.data(), stale.size() * sizeof(void *))), "partial-list", "%s failed but left %zu entries in the caller's list", what, (size_t)mine->len); must_return(run_op([&] { vt_plist_destroy(mine); for (void *o : stale) vt_str_destroy((vt_str_t *)o); }), "vt_plist_destroy"); }
            probe(faulted ? "list-null-fault" : "list-null"); continue;
        }
        CHECK(isdir && !unread, "partial-list", "%s(%s) returned a list although part of the tree cannot be read", what, target.c_str());
        CHECK(!mine || l == mine, "wrong-list", "%s did not use the caller's list", what);
        std::vector<std::string> got = list_of(l); if (rec && !stale.empty()) { CHECK(l->len >= stale.size() && !memcmp(l->ptr2, stale.data(), stale.size() * sizeof(void *)), "wrong-list", "%s does not keep what was in the caller's list", what); got.erase(got.begin(), got.begin() + (long)stale.size()); }
        std::vector<std::string> a = got, b = want; std::sort(a.begin(), a.end()); std::sort(b.begin(), b.end());
        for (size_t i = 0; i + 1 < a.size(); i++) CHECK(a[i] != a[i + 1], "duplicate-entry", "%s lists %s twice", what, show(a[i]).c_str());
        for (auto &x : b) CHECK(std::binary_search(a.begin(), a.end(), x), "missing-entry", "%s(%s, ignore dot files %d) does not list %s%s", what, target.c_str(), nodot, show(x, 120).c_str(), faulted ? " [error injected]" : "");
        for (auto &x : a) CHECK(std::binary_search(b.begin(), b.end(), x), "extra-entry", "%s(%s, ignore dot files %d) lists %s", what, target.c_str(), nodot, show(x, 120).c_str());
        if (rec) { std::map<std::string, size_t> pos; for (size_t i = 0; i < got.size(); i++) pos[got[i]] = i; for (size_t j = 0; j < got.size(); j++) { auto it = pos.find(got[j].substr(0, got[j].rfind('/'))); CHECK(it == pos.end() || it->second > j, "order", "%s lists %s before its content %s", what, show(it->first).c_str(), show(got[j]).c_str()); } }
        look_at_some(l); must_return(run_op([&] { vt_path_dir_free(l); if (!rec) for (void *o : stale) vt_str_destroy((vt_str_t *)o); }), "vt_path_dir_free"); probe(rec ? "list-rec-ok" : "list-ok");
    }
    if (al) { CHECK(al->stats.count_bytes_allocated == 0, "memory-left", "%zu bytes of listings are still allocated", (size_t)al->stats.count_bytes_allocated); }
}
SCENARIO("C12", c12_listing_concurrent, 1) {
    mem_config(); vt_debug_disable_output(true); std::string abs = "/work/tree"; fs_mkdir(abs); Tree t; grow(abs, "", 0, t, 30); bool rec = choose(2) == 1; std::vector<std::string> stable; bool un = false; expect_list(abs, abs, "", rec, false, stable, un); std::set<std::string> ever(stable.begin(), stable.end());
    std::set<std::string> removed; vt_plist_t *l = nullptr; bool done = false; int nchg = 1 + (int)choose(4);
    g_preempt = true; int id = spawn([&] { l = rec ? vt_path_dir_list_recurse(nullptr, "/work/tree", false) : vt_path_dir_list(nullptr, "/work/tree", false); done = true; });
    spawn([&] { for (int k = 0; k < nchg && !done; k++) { for (u32 y = choose(10); y-- > 0;) yield(); if (done) return; note_fault(F_CONC_CHANGE);
        if (choose(2)) { std::string nm = "late" + std::to_string(k); fs_put(abs + "/" + nm, "z"); ever.insert(rec ? abs + "/" + nm : nm); ev("another task adds %s", nm.c_str()); }
        else if (!t.paths.empty()) { std::string p = pick(t.paths); int i = fs_resolve(abs + "/" + p, false); if (i >= 0 && fs_inode(i).type != T_DIR) { fs_unlink_raw(abs + "/" + p); removed.insert(rec ? abs + "/" + p : p); ev("another task removes %s", p.c_str()); } } } });
    run_tasks(); g_preempt = false; must_return({task_outcome(id), task_code(id)}, "listing"); CHECK(l, "false-failure", "a listing failed although no system call failed on anything that was there throughout");
    std::vector<std::string> got = list_of(l); std::set<std::string> g(got.begin(), got.end()); CHECK(g.size() == got.size(), "duplicate-entry", "an entry is listed twice");
    for (auto &x : stable) if (!removed.count(x)) CHECK(g.count(x), "missing-entry", "%s was there throughout but is not listed", show(x).c_str());
    for (auto &x : got) CHECK(ever.count(x), "extra-entry", "%s was never there", show(x).c_str());
    probe("list-concurrent");
}

// C13 ---------------------------------------------------------------------
SCENARIO("C13", c13_queries_and_changes, 3) {
    mem_config(); quiet_debug(); dirs_setup(); fs_put("/work/big", gen_bytes(gen_size())); fs_put("/work/empty", ""); fs_mkdir("/work/emptydir"); fs_mkdir("/work/dir/sub"); fs_symlink("/work/flink", "big"); fs_mkdir("/work/nw"); fs_put("/work/nw/f", "1"); fs_mkdir("/work/nw/ed"); fs_inode(fs_resolve("/work/nw", true)).nowrite = true; fs_put("/work/secret", "hidden"); fs_inode(fs_resolve("/work/secret", true)).noread = true; fs_put("/work/sdir/f", "in a directory that cannot be listed"); fs_inode(fs_resolve("/work/sdir", true)).noread = true; fs_fifo("/work/pipe"); fs_symlink("/work/plink", "pipe"); fs_symlink("/work/elink", "emptydir"); fs_symlink("/work/loop", "loop"); fs_special("/work/sock", S_IFSOCK); fs_special("/work/blk", S_IFBLK); fs_special("/work/chr", S_IFCHR);
    { static const std::vector<i64> hs = {0, 1, 0x7fffffff, 0x80000000ll, 0xfffffffell, 0x100000000ll, 0x100000005ll, 1ll << 40, (1ll << 53) + 1, 0x7000000000000000ll}; i64 h = choose(3) ? 0 : pick(hs); if (h) { fs_inode(fs_resolve("/work/big", true)).hole = h + (i64)choose(3); probe("large-file"); } }
    static const std::vector<std::string> ps = {"sock", "blk", "chr", "pipe", "plink", "elink", "loop", "loop/x", "", "file", "/work/file", "dir", "emptydir", "/work/emptydir/", "big", "empty", "link", "flink", "dangling", "missing", "missing/x", "file/x", "nw/f", "nw/ed", "dir/file", "dir/sub", ".", "/", "dir/../file", "link/file", "secret", "sdir", "sdir/f", "newname", "dir/newname", "a0", "file/"};
    int n = long_history(2 + (int)choose(8));
    for (int k = 0; k < n; k++) {
        std::string p = choose(20) == 19 ? choose(2) ? long_path() : std::string(200 + choose(100), 'w') : pick(ps), q = choose(20) == 19 ? long_path() : pick(ps); if (p.size() > 300 && choose(2) && can_write(p)) { if (choose(2)) fs_put(p, "at a long path"); else fs_mkdir(p); } char *z = Z(p), *z2 = Z(q); u32 op = choose(7); Snap before = fs_snapshot("/"); int err = 0, i = fs_resolve(p, true, &err), l = fs_resolve(p, false); bool b = false; int64_t sz = 0; size_t seq = mem_seq(); (void)seq;
        std::string e1 = entry_of(p), e2 = entry_of(q); bool removable = true; { std::string e = e1; size_t s = e.rfind('/'); int d = fs_resolve(s == 0 ? "/" : e.substr(0, s), true); if (d < 0 || fs_inode(d).nowrite || e == "/") removable = false; }
        ev("op %u %s %s", op, p.c_str(), op == 6 ? q.c_str() : "");
        OpResult r = faulty_op(FM(F_STAT)|FM(F_UNLINK)|FM(F_RMDIR)|FM(F_RENAME), 3, [&] {
            switch (op) { case 0: b = vt_path_exists(z); break; case 1: b = vt_path_is_dir(z); break; case 2: b = vt_path_is_file(z); break; case 3: sz = vt_path_get_file_size(z); break; case 4: b = vt_path_remove(z); break; case 5: b = vt_path_rmdir(z); break; default: b = vt_path_rename(z, z2); } });
        bool faulted = g_op_hard > 0, stat_fault = g_op_faults & FM(F_STAT); static const char *nm[] = {"vt_path_exists", "vt_path_is_dir", "vt_path_is_file", "vt_path_get_file_size", "vt_path_remove", "vt_path_rmdir", "vt_path_rename"}; const char *what = nm[op]; must_return(r, what); Snap after = fs_snapshot("/");
        if (op <= 3) {
            CHECK(snap_diff(before, after).empty(), "query-changed-files", "%s(%s) changed the file system", what, p.c_str());
            bool dir = i >= 0 && fs_inode(i).type == T_DIR, reg = i >= 0 && fs_inode(i).type == T_REG;
            if (op == 3) { if (stat_fault) CHECK(sz < 0, "answer-without-system", "%s(%s) returned %lld although the system did not answer", what, p.c_str(), (long long)sz); else if (i < 0) CHECK(sz < 0, "wrong-answer", "%s(%s) returned %lld for a path that does not exist", what, p.c_str(), (long long)sz); else if (reg) CHECK(sz == fs_inode(i).size(), "wrong-answer", "%s(%s) returned %lld, the file has %lld bytes", what, p.c_str(), (long long)sz, (long long)fs_inode(i).size()); }
            else { bool truth = op == 0 ? i >= 0 : op == 1 ? dir : reg; if (stat_fault) CHECK(!b, "answer-without-system", "%s(%s) returned true although the system did not answer", what, p.c_str()); else CHECK(b == truth, "wrong-answer", "%s(%s) returned %d", what, p.c_str(), b); }
            probe("query"); continue;
        }
        if (op < 6) {
            std::string e = e1; bool had = before.count(e) && l >= 0, has = after.count(e) > 0, changed = had && !has; std::string d = snap_diff(before, after, e); IType ty = l >= 0 ? fs_inode(l).type : T_REG; bool empty_dir = ty == T_DIR && l >= 0 && fs_inode(l).ent.empty();
            CHECK(d.empty(), "unrelated-change", "%s(%s): %s", what, p.c_str(), d.c_str()); if (has && had) CHECK(before[e] == after[e], "content-changed", "%s(%s) changed it", what, p.c_str());
            CHECK(b == changed, "false-report", "%s(%s) returned %d, but it %s", what, p.c_str(), b, changed ? "was removed" : had ? "is still there" : "was never there");
            if (op == 5 && changed) CHECK(ty == T_DIR, "wrong-removal", "vt_path_rmdir(%s) removed something that is not a directory", p.c_str());
            if (!faulted && had && removable && p.back() != '/' && p != "." && ((op == 4 && ty != T_DIR) || (op == 5 && empty_dir))) CHECK(b, "false-failure", "%s(%s) failed although nothing prevented it", what, p.c_str());
            probe(b ? "removed" : "not-removed"); continue;
        }
        bool same = e1 == e2;
        if (!b) { std::string d = snap_diff(before, after); CHECK(d.empty(), "false-report", "vt_path_rename(%s, %s) returned false but %s", p.c_str(), q.c_str(), d.c_str()); }
        else if (!same) {
            Snap want; for (auto &x : before) { bool u1 = x.first == e1 || x.first.compare(0, e1.size() + 1, e1 + "/") == 0, u2 = x.first == e2 || x.first.compare(0, e2.size() + 1, e2 + "/") == 0; if (u1) want[e2 + x.first.substr(e1.size())] = x.second; else if (!u2) want[x.first] = x.second; }
            std::string d = snap_diff(want, after); CHECK(d.empty(), "wrong-rename", "vt_path_rename(%s, %s) returned true but relative to the renamed tree %s", p.c_str(), q.c_str(), d.c_str()); probe("renamed");
        } else { CHECK(snap_diff(before, after).empty(), "wrong-rename", "renaming %s to itself changed something", p.c_str()); }
        if (!b && !faulted && i >= 0 && l >= 0 && removable && !q.empty() && p.back() != '/' && q.back() != '/') {
            size_t s = e2.rfind('/'); std::string par = s == 0 ? "/" : e2.substr(0, s); int d = fs_resolve(par, true); { size_t t = q.rfind('/'); if (t != std::string::npos && t > 0 && fs_resolve(q.substr(0, t), true) < 0) d = -1; } bool under = (par + "/").compare(0, e1.size() + 1, e1 + "/") == 0; bool free_dst = !before.count(e2), file_over_file = before.count(e2) && before[e2][0] != 'd' && fs_inode(l).type != T_DIR;
            if (d >= 0 && fs_inode(d).type == T_DIR && !fs_inode(d).nowrite && !under && e1 != "/" && e2 != "/" && p != "." && q != "." && (free_dst || file_over_file) && comps(e2).back().size() <= 255) CHECK(false, "false-failure", "vt_path_rename(%s, %s) failed although nothing prevented it", p.c_str(), q.c_str());
        }
    }
}

// several tasks change the same entries: each change is reported by exactly one of them
SCENARIO("C13", c13_races, 1) {
    mem_config(); quiet_debug(); dirs_setup(); int kind = (int)choose(5), n = 2 + (int)choose(3); fs_put("/work/it", "the one"); fs_mkdir("/work/ed"); fs_symlink("/work/ln", choose(2) ? "it" : "nowhere"); std::vector<std::string> dst; std::vector<char *> zd; for (int i = 0; i < n; i++) { dst.push_back("/work/to" + std::to_string(i)); zd.push_back(Z(dst.back())); }
    static const char *src_[] = {"/work/it", "/work/ed", "/work/it", "/work/ln", "/work/it"}; std::string src = src_[kind]; char *z = Z(src); std::vector<int> ret((size_t)n, -1), ids; std::vector<u32> hard((size_t)n, 0); Snap before = fs_snapshot("/"); static const char *nm[] = {"vt_path_remove", "vt_path_rmdir", "vt_path_rename", "vt_path_remove", "vt_path_rename and vt_path_remove"}; ev("%d tasks: %s", n, nm[kind]);
    g_preempt = true; if (choose(4) == 3) { g_plan = Plan(); g_plan.mode = PLAN_RATE; g_plan.mask = FM(F_STAT) | FM(F_UNLINK) | FM(F_RMDIR) | FM(F_RENAME); g_plan.num = 1; g_plan.den = 6; }
    for (int i = 0; i < n; i++) ids.push_back(spawn([&, i] { u32 h0 = task_hard(cur_task()); bool ren = kind == 2 || (kind == 4 && i == 0); ret[i] = ren ? vt_path_rename(z, zd[i]) : kind == 1 ? vt_path_rmdir(z) : vt_path_remove(z); hard[i] = task_hard(cur_task()) - h0; }));
    run_tasks(); g_preempt = false; g_plan = Plan(); int won = 0, clean = 0; for (int i = 0; i < n; i++) { must_return({task_outcome(ids[i]), task_code(ids[i])}, nm[kind]); won += ret[i] == 1; clean += !hard[i]; } Snap after = fs_snapshot("/"); bool gone = !after.count(src);
    CHECK(won <= 1 && (won == 1) == gone, "false-report", "%d tasks called %s on %s at the same time: %d of them report success and it %s", n, nm[kind], src.c_str(), won, gone ? "is gone" : "is still there");
    if (clean) CHECK(won == 1, "false-failure", "%d tasks called %s on %s at the same time and none succeeded, although nothing prevented it", n, nm[kind], src.c_str());
    for (int i = 0; i < n; i++) { bool ren = kind == 2 || (kind == 4 && i == 0); bool there = after.count(dst[i]); CHECK(there == (ren && ret[i] == 1) && (!there || after[dst[i]] == before[src]), "wrong-rename", "task %d: rename returned %d, the new name %s", i, ret[i], there ? "exists" : "does not exist"); after.erase(dst[i]); }
    before.erase(src); after.erase(src); CHECK(snap_diff(before, after).empty(), "unrelated-change", "%s on %s: %s", nm[kind], src.c_str(), snap_diff(before, after).c_str()); probe("race"); if (won && n - won) probe("losers");
}

// C28 ---------------------------------------------------------------------
static void own_check(vt_mallocator_t *al, vt_str_t *s, const char *what) {
    CHECK(s->len < s->capacity + 1 && ((char *)s->ptr)[s->len] == 0, "not-terminated", "%s returned a string without terminator at its length %zu", what, (size_t)s->len);
    (void)al;
}
SCENARIO("C28", c28_environment, 1) {
    mem_config(); quiet_debug(); vt_mallocator_t *al = nullptr; if (choose(2)) must_return(run_op([&] { al = vt_mallocator_create(); }), "vt_mallocator_create");
    int n = long_history(1 + (int)choose(6));
    for (int k = 0; k < n; k++) {
        u32 op = choose(3); vt_str_t *s = nullptr; std::string want; bool fail = false; const char *what; OpResult r;
        if (op == 0) {
            what = "vt_path_get_cwd"; size_t len; switch (choose(4)) { case 0: len = choose(40); break; case 1: len = 1 + gen_size() % 6000; break; case 2: len = 4090 + choose(10); break; default: len = 250 + choose(12); }
            g_cwd_override = len ? "/" + gen_text(len, choose(2) ? 0 : 2) : ""; want = g_cwd_override.empty() ? "/work" : g_cwd_override; if (choose(3) == 2) { note_fault(F_ENV); }
            ev("cwd %zu", want.size()); r = faulty_op(FM(F_GETCWD), 2, [&] { s = vt_path_get_cwd(al); }); fail = g_op_faults & FM(F_GETCWD);
        } else if (op == 1) {
            what = "vt_path_get_this_exe_location"; size_t len = choose(3) ? 1 + choose(200) : 4080 + choose(15); g_exe_path = "/" + gen_text(len, choose(2) ? 0 : 2); if (len < 3000 && choose(8) == 7) g_exe_path += " (deleted)/" + gen_text(1 + choose(9), 0); want = g_exe_path; g_exe_fail = choose(5) == 4; if (g_exe_fail) note_fault(F_ENV);
            ev("exe %zu fail=%d", want.size(), g_exe_fail); bool ef = g_exe_fail; r = faulty_op(FM(F_READLINK)|FM(F_STAT), 2, [&] { s = vt_path_get_this_exe_location(al); }); fail = ef || (g_op_faults & FM(F_READLINK));
        } else {
            what = "vt_path_expand_tilda"; static const std::vector<std::string> v = {"~", "~/x", "~/", "/a/~", "a~b", "~user/y", "~~/x", "plain", "/", "~/~", " ~/x"}; std::string p = pick(v); if (choose(3) == 2) p += gen_text(gen_size() % 3000, 2); if (choose(6) == 5) p = gen_text(1 + choose(30), 2);
            bool set = choose(4) != 3; std::string home; static const std::vector<std::string> hs = {"/home/user", "/", "", "relative", "/home/with ~ tilde", "/h%s"}; home = choose(5) == 4 ? "/" + gen_text(gen_size() % 5000, 2) : pick(hs);
            if (set) g_env["HOME"] = home; else g_env.erase("HOME"); note_fault(F_ENV); want = p[0] == '~' && set ? home + p.substr(1) : p; char *z = Z(p); ev("tilda %s home=%s", show(p).c_str(), set ? show(home).c_str() : "(unset)");
            r = run_op([&] { s = vt_path_expand_tilda(z, al); });
        }
        must_return(r, what);
        if (!s) { CHECK(fail, "false-failure", "%s returned nothing although the system provided the answer", what); probe("unavailable"); continue; }
        CHECK(!fail, "answer-without-system", "%s returned %s although the system could not provide it", what, show(str_of(s)).c_str());
        own_check(al, s, what); CHECK(str_of(s) == want, "wrong-text", "%s returned %s (%zu bytes), expected %s (%zu bytes)", what, show(str_of(s)).c_str(), (size_t)s->len, show(want).c_str(), want.size());
        must_return(run_op([&] { vt_str_destroy(s); }), "vt_str_destroy"); probe(what);
    }
    if (al) CHECK(al->stats.count_bytes_allocated == 0, "memory-left", "%zu bytes are still allocated from the given allocator", (size_t)al->stats.count_bytes_allocated);
}

// C30 ---------------------------------------------------------------------
static vt_str_t *build_n(vt_str_t *s, const std::vector<char *> &parts) {
    std::vector<char *> v = parts; v.resize(48); size_t n = parts.size();   // arguments beyond the count are not looked at
    return vt_path_build_n(s, n, v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15], v[16], v[17], v[18], v[19], v[20], v[21], v[22], v[23], v[24], v[25], v[26], v[27], v[28], v[29], v[30], v[31], v[32], v[33], v[34], v[35], v[36], v[37], v[38], v[39], v[40], v[41], v[42], v[43], v[44], v[45], v[46], v[47]);
}
SCENARIO("C30", c30_path_text, 1) {
    mem_config(); quiet_debug(); outside(); fs_mkdir("/work/tree"); Tree t; grow("/work/tree", "", 0, t, 40); vt_mallocator_t *al = nullptr; if (choose(2)) must_return(run_op([&] { al = vt_mallocator_create(); }), "vt_mallocator_create");
    int n = 1 + (int)choose(8);
    for (int k = 0; k < n; k++) {
        // the path of an entry that is there, or of one that is not
        std::string p = choose(3) ? "/work/tree" : "tree"; static const std::vector<std::string> tops = {"/outside", "/work", "keep", "treeX/file", "/outside/deep/more", "/none", "none/x", "./keep", "tree/../keep"};
        if (choose(5) == 4) p = pick(tops); else if (!t.paths.empty()) p += "/" + pick(t.paths); if (choose(8) == 7) p += "/" + gen_text(1 + choose(choose(2) ? 12 : 300), 0); if (choose(10) == 9) for (int i = (int)choose(6); i-- > 0;) p += "/" + std::string(1 + choose(60), (char)('a' + i)); if (choose(20) == 19) { p = long_path(); }
        std::vector<std::string> parts = comps(p); if (p[0] == '/') parts[0] = "/" + parts[0];
        u32 op = choose(4); OpResult r; vt_str_t *s = nullptr, *s0 = nullptr;
        if (op == 0) {
            bool list = parts.size() > 48 || choose(2); int into = (int)choose(3); std::vector<char *> v; for (auto &x : parts) v.push_back(Z(x));
            if (into) { r = run_op([&] { s0 = vt_str_create_capacity(into == 1 ? 1 + choose(20) : p.size() + 1 + choose(3), al); }); must_return(r, "vt_str_create_capacity"); if (choose(2)) must_return(run_op([&] { vt_str_append(s0, "old text of some length"); vt_str_clear(s0); }), "vt_str_clear"); }
            r = run_op([&] { if (list) { vt_plist_t *pl = vt_plist_create(v.size(), al); for (char *z : v) vt_plist_push_back(pl, z); s = vt_path_build(s0, pl); vt_plist_destroy(pl); } else s = build_n(s0, v); }); const char *what = list ? "vt_path_build" : "vt_path_build_n"; ev("%s %s", what, show(p).c_str());
            must_return(r, what); CHECK(s != nullptr && (!s0 || s == s0), "no-path", "%s of the parts of %s did not return the string", what, show(p).c_str()); own_check(al, s, what); CHECK(str_of(s) == p, "wrong-path", "%s of the %zu parts of %s gave %s", what, parts.size(), show(p).c_str(), show(str_of(s)).c_str());
            bool e = false, d = false; int64_t z = -2; r = run_op([&] { const char *c = vt_str_z(s); e = vt_path_exists(c); d = vt_path_is_dir(c); z = vt_path_get_file_size(c); }); must_return(r, "vt_path_exists"); int i = fs_resolve(p, true);
            CHECK(e == (i >= 0) && d == (i >= 0 && fs_inode(i).type == T_DIR) && (i < 0 || fs_inode(i).type != T_REG || z == fs_inode(i).size()), "wrong-entry", "the path built for %s does not lead to it", show(p).c_str());
            must_return(run_op([&] { vt_str_destroy(s); }), "vt_str_destroy"); probe(list ? "build" : "build-n"); if (i >= 0) probe("built-existing");
        } else if (op == 1) {
            std::string base = parts.back(); if (base[0] == '/') base = base.substr(1); bool sep = p.find('/') != std::string::npos; int into = (int)choose(3); std::string old = into == 1 ? gen_text(1 + choose(choose(2) ? 10 : 200), 0) : p; char *z = Z(p);
            if (into) { char *zo = Z(old); must_return(run_op([&] { s0 = vt_str_create(zo, al); }), "vt_str_create"); }
            r = run_op([&] { s = vt_path_basename(s0, into == 2 ? vt_str_z(s0) : z); }); must_return(r, "vt_path_basename"); ev("basename %s into %d", show(p).c_str(), into);
            if (!sep && !into) { if (s) { CHECK(str_of(s) == p, "wrong-base-name", "vt_path_basename(%s) gave %s", show(p).c_str(), show(str_of(s)).c_str()); must_return(run_op([&] { vt_str_destroy(s); }), "vt_str_destroy"); } continue; }
            CHECK(s != nullptr && (!into || s == s0), "no-base-name", "vt_path_basename(%s) did not return the string", show(p).c_str()); own_check(al, s, "vt_path_basename");
            if (sep || into == 2) CHECK(str_of(s) == base, "wrong-base-name", "vt_path_basename(%s) gave %s, its last part is %s", show(p).c_str(), show(str_of(s)).c_str(), show(base).c_str());
            CHECK(str_of(s).size() == strlen((char *)s->ptr), "wrong-length", "vt_path_basename(%s): the length is %zu, the text has %zu", show(p).c_str(), (size_t)s->len, strlen((char *)s->ptr));
            must_return(run_op([&] { vt_str_destroy(s); }), "vt_str_destroy"); probe(into == 0 ? "base-new" : into == 1 ? "base-into" : "base-in-place");
        } else if (op == 2) {
            if (choose(12) == 11) p = choose(2) ? "" : "/"; char *z = (char *)mem_alloc(p.size() + 1, false); memcpy(z, p.c_str(), p.size() + 1); std::string cur = p; int steps = 1 + (int)choose(8);
            for (int i = 0; i < steps; i++) {
                std::string want = cur; size_t at = cur.rfind('/'); if (at != std::string::npos) want = at == 0 ? "/" : cur.substr(0, at);
                r = run_op([&] { vt_path_pop(z); }); must_return(r, "vt_path_pop"); CHECK(memchr(z, 0, p.size() + 1) != nullptr, "not-terminated", "vt_path_pop(%s) left no terminator", show(cur).c_str());
                CHECK(want == z, "wrong-parent", "vt_path_pop(%s) gave %s, expected %s", show(cur).c_str(), show(z).c_str(), show(want).c_str()); cur = want; 
            }
            mem_free(z); probe("pop");
        } else {
            std::string q = p, want; for (auto &c : q) if (c == '/' && choose(2)) c = '\\'; if (choose(6) == 5) q += '\\'; if (choose(6) == 5) q = "\\" + q; if (choose(20) == 19) q = ""; want = q; for (auto &c : want) if (c == '\\') c = '/';
            char *z = (char *)mem_alloc(q.size() + 1, false); memcpy(z, q.c_str(), q.size() + 1); r = run_op([&] { vt_path_validate(z); }); must_return(r, "vt_path_validate"); CHECK(memcmp(z, want.c_str(), want.size() + 1) == 0, "wrong-separators", "vt_path_validate(%s) gave %s", show(q).c_str(), show(std::string(z, strnlen(z, q.size() + 1))).c_str()); mem_free(z); probe("validate");
        }
    }
    if (al) { CHECK(al->stats.count_bytes_allocated == 0, "memory-left", "%zu bytes are still allocated from the given allocator", (size_t)al->stats.count_bytes_allocated); must_return(run_op([&] { vt_mallocator_destroy(al); }), "vt_mallocator_destroy"); }
}

// C05 ---------------------------------------------------------------------
SCENARIO("C05", c05_releases_everything, 1) {
    mem_config(); quiet_debug(); dirs_setup(); fs_put("/work/big", gen_bytes(gen_size())); std::string root = "/work/tree"; fs_mkdir(root); Tree t; grow(root, "", 0, t, 40);
    vt_mallocator_t *al = nullptr; must_return(run_op([&] { al = vt_mallocator_create(); }), "vt_mallocator_create");
    fs_put("/decoy", "d"); extern int decoy_open(); int decoy = decoy_open();
    int n = 2 + (int)choose(6);
    for (int k = 0; k < n; k++) {
        if (choose(5) == 4) { static const std::vector<std::string> v = {"/work/dbg", "/nodir/dbg", "/work/dir"}; static char *zz; zz = choose(2) ? nullptr : Z(pick(v)); vt_debug_redirect_output(zz); }
        static const std::vector<std::string> ps = {"/work/big", "big", "file", "dir", "missing", "tree", "/work/tree/", "ro/x", "dir/a0", "link", "dangling", "new/a/b", "q", "tree/a", "file/x"}; std::string p = choose(20) == 19 ? long_path() : pick(ps), q = pick(ps); char *z = Z(p), *z2 = Z(q); bool wa = choose(2) == 1; vt_mallocator_t *a = wa ? al : nullptr;
        std::string text = gen_text(gen_size() % 10000, (int)choose(3)); char *zt = Z(text); WriteCall w = gen_write(p, text); vt_str_t *s = nullptr; vt_plist_t *l = nullptr, *mine = nullptr; char *buf = (char *)mem_alloc(100, false); u32 op = choose(17); bool f1 = choose(2); std::string what; if (op == 6 || op == 7) if (choose(3) == 2) must_return(run_op([&] { mine = vt_plist_create(2, a); }), "vt_plist_create");
        if (op >= 12 && op <= 14) { g_cwd_override = choose(2) ? "" : "/" + gen_text(1 + gen_size() % 4000, 2); if (choose(2)) g_exe_path = "/" + gen_text(1 + gen_size() % 4000, 2); g_exe_fail = choose(5) == 4; if (choose(4) == 3) g_env.erase("HOME"); else g_env["HOME"] = choose(2) ? "/home/user" : "/" + gen_text(gen_size() % 4000, 2); }
        int h0 = open_handles(); u64 m0 = mem_seq(); size_t live0 = mem_live_count(); size_t acount0 = (al->stats.count_allocs - al->stats.count_frees); ev("op %u %s", op, p.c_str()); static std::string names_[] = {"write", "vt_file_read", "vt_file_readb", "vt_file_read_to_buffer", "vt_path_mkdir", "vt_path_mkdir_parents", "vt_path_dir_list", "vt_path_dir_list_recurse", "vt_path_rmdir_recurse", "vt_path_remove/rmdir", "vt_path_rename", "queries", "vt_path_get_cwd", "vt_path_get_this_exe_location", "vt_path_expand_tilda", "vt_log", "debug output"}; what = names_[op];
        (void)m0;
        OpResult r = faulty_op(FM_FS, 8 + (op >= 5 && op <= 8 ? (int)choose(60) : 0), [&] {
            switch (op) {
                case 0: w.call(); break; case 1: s = vt_file_read(z, a); break; case 2: s = vt_file_readb(z, a); break; case 3: vt_file_read_to_buffer(z, buf, 100); break; case 4: vt_path_mkdir(z); break; case 5: vt_path_mkdir_parents(z); break;
                case 6: l = vt_path_dir_list(mine, z, f1); break; case 7: l = vt_path_dir_list_recurse(mine, z, f1); break; case 8: vt_path_rmdir_recurse(z); break; case 9: if (f1) vt_path_remove(z); else vt_path_rmdir(z); break; case 10: vt_path_rename(z, z2); break;
                case 11: vt_path_exists(z); vt_path_is_dir(z); vt_path_is_file(z); vt_path_get_file_size(z); break; case 12: s = vt_path_get_cwd(a); break; case 13: s = vt_path_get_this_exe_location(a); break; case 14: s = vt_path_expand_tilda(f1 ? "~/x" : z, a); break;
                case 15: vt_log(f1 ? nullptr : z, vt_log_warn, false, f1 ? "e" : nullptr, "f.c", 1, "%s", zt); break; default: if (f1) vt_debug_printf("S", "%s", zt); else vt_debug_assert(false, "e", "CHECK", false, "f.c", "fn", 3, "%s", zt); break;
            } });
        g_disk_free = -1; must_return(r, what.c_str()); fs_check_handles(what.c_str(), h0); CHECK(!g_stderr_closed, "bad-close", "%s closed standard error", what.c_str());
        // what was returned may stay, nothing else
        if (s) must_return(run_op([&] { vt_str_destroy(s); }), "vt_str_destroy");
        if (l) look_at_some(l);
        if (l && !mine) must_return(run_op([&] { vt_path_dir_free(l); }), "vt_path_dir_free");
        if (mine) { if (l) CHECK(l == mine, "wrong-list", "%s did not use the caller's list", what.c_str()); if (l) must_return(run_op([&] { vt_path_dir_free(l); }), "vt_path_dir_free"); else must_return(run_op([&] { vt_plist_destroy(mine); }), "vt_plist_destroy"); }
        size_t gone = mine ? (a ? 2 : 2) : 0, live1 = mem_live_count(), acount1 = (al->stats.count_allocs - al->stats.count_frees);
        size_t explained = 0; if (mine && a) explained = 2;
        CHECK(acount1 + explained == acount0, "memory-leak", "%s left %ld block(s) allocated from the given allocator", what.c_str(), (long)(acount1 + explained) - (long)acount0);
        CHECK(live1 + gone == live0 || (live1 + gone > live0 && live1 + gone - live0 <= 1 && false), "memory-leak", "%s left %ld block(s) allocated", what.c_str(), (long)(live1 + gone) - (long)live0);
        CHECK(handle_get(decoy) != nullptr, "bad-close", "%s closed a descriptor it did not open", what.c_str()); probe(what.c_str());
    }
}
int decoy_open() { Handle h; h.ino = fs_resolve("/decoy", true); h.path = "/decoy"; return handle_new(h); }
