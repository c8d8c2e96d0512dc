#include "scen.h"

std::string log_record(const std::string &t, int level, const char *expr, const std::string &file, size_t line, const std::string &msg) {
    char b[64]; snprintf(b, sizeof b, "%5s", level_name(level));
    return t + " " + b + " " + (expr ? "[" + std::string(expr) + "] " : "") + file + ":" + std::to_string(line) + ": " + msg + "\n";
}
std::string debug_record(const std::string &t, const std::string &subject, const std::string &expr, const std::string &file, const std::string &func, size_t line, const std::string &msg) {
    return t + " " + subject + " [" + expr + "] " + file + ":" + func + ":" + std::to_string(line) + ": " + msg + "\n";
}
bool can_write(const std::string &path) {
    int err = 0, i = fs_resolve(path, true, &err);
    if (i >= 0) return fs_inode(i).type == T_REG && !fs_inode(i).nowrite;
    if (err != ENOENT || path.back() == '/') return false;
    // a new file: the directory must exist (links resolved)
    std::string p = path; int depth = 0;
    for (;;) {
        int l = fs_resolve(p, false);
        if (l >= 0 && fs_inode(l).type == T_LNK && depth++ < 8) { std::string t = fs_inode(l).target; size_t s = p.rfind('/'); p = t[0] == '/' ? t : (s == std::string::npos ? t : p.substr(0, s + 1) + t); continue; }
        break;
    }
    size_t s = p.rfind('/'); std::string d = s == std::string::npos ? "." : s == 0 ? "/" : p.substr(0, s), l = s == std::string::npos ? p : p.substr(s + 1);
    int di = fs_resolve(d, true);
    return di >= 0 && fs_inode(di).type == T_DIR && !fs_inode(di).nowrite && l.size() <= 255;
}
bool can_read(const std::string &path) { int i = fs_resolve(path, true); return i >= 0 && fs_inode(i).type == T_REG && !fs_inode(i).noread; }
std::string canon(const std::string &path) {
    std::string p = path[0] == '/' ? path : "/work/" + path; int depth = 0;
    for (;;) {
        int l = fs_resolve(p, false);
        if (l >= 0 && fs_inode(l).type == T_LNK && depth++ < 8) { std::string t = fs_inode(l).target; p = t[0] == '/' ? t : p.substr(0, p.rfind('/') + 1) + t; continue; }
        return p;
    }
}
std::string snap_diff(const Snap &a, const Snap &b, const std::string &ex, bool below) {
    auto skip = [&](const std::string &p) { return !ex.empty() && (p == ex || (below && p.compare(0, ex.size() + 1, ex + "/") == 0)); };
    for (auto &x : a) { if (skip(x.first)) continue; auto it = b.find(x.first); if (it == b.end()) return x.first + " was removed"; if (it->second != x.second) return x.first + " changed from " + show(x.second, 30) + " to " + show(it->second, 30); }
    for (auto &x : b) { if (skip(x.first)) continue; if (!a.count(x.first)) return x.first + " was created"; }
    return "";
}
std::string long_path(size_t most) {
    static const size_t around[] = {64, 128, 256, 260, 512, 1000, 1024, 2048, 3000, 4090, 4094}; size_t n = choose(2) ? around[choose(11)] + (size_t)range(-2, 1) : 60 + choose(4030); if (n > most) n = most - choose(8);
    std::string p = choose(2) ? "/work" : "rel"; size_t w = 10 + choose(240);
    while (p.size() + w + 2 < n) { p += "/" + std::string(w, (char)('a' + p.size() % 26)); } if (p.size() + 1 < n) p += "/" + std::string(n - p.size() - 1 > 255 ? 255 : n - p.size() - 1, 'z');
    if (p.rfind('/') > 5) fs_mkdir((p[0] == '/' ? "" : "/work/") + p.substr(0, p.rfind('/'))); probe("long path"); return p;
}
size_t gen_size_or_large() { if (choose(40) != 39) return gen_size(); static const std::vector<size_t> v = {65536, 100000, 131072, 262144, 1 << 20, 3 << 20}; probe("large content"); return pick(v) + (size_t)range(-3, 3); }
void quiet_debug() { if (choose(4) == 0) vt_debug_disable_output(true); }

static std::string fmt_of(const char *f, ...) { va_list a; va_start(a, f); char *s = nullptr; int n = vasprintf(&s, f, a); va_end(a); std::string r(s, n < 0 ? 0 : (size_t)n); free(s); return r; }
WriteCall gen_write(const std::string &path, const std::string &text, bool only_append) {
    WriteCall w; w.path = path; char *p = Z(path), *t = Z(text); w.expect = text;
    u32 k = choose(only_append ? 6 : 16);
    int num = (int)range(-3, 100000); double dbl = (double)range(-1000, 1000) / 8; bool bin = false;
    auto fc = [&](bool app, bool ln) {
        bin = choose(2); w.append = app;
        w.name = fmt_of("vt_file_writefc(binary=%d, append=%d, ln=%d)", bin, app, ln);
        switch (choose(5)) {
            case 0: w.call = [=] { return vt_file_writefc(p, bin, app, ln, "%s", t); }; break;
            case 1: w.call = [=] { return vt_file_writefc(p, bin, app, ln, "%d|%s|%%", num, t); }; w.expect = fmt_of("%d|", num) + text + "|%"; break;
            case 2: w.call = [=] { return vt_file_writefc(p, bin, app, ln, "%s:%5.2f", t, dbl); }; w.expect = text + fmt_of(":%5.2f", dbl); break;
            case 3: w.call = [=] { return vt_file_writefc(p, bin, app, ln, "<%-12s>%zu %s", "ab", (size_t)num, t); }; w.expect = fmt_of("<%-12s>%zu ", "ab", (size_t)num) + text; break;
            default: w.call = [=] { return vt_file_writefc(p, bin, app, ln, "constant %%d text"); }; w.expect = "constant %d text"; break;
        }
        if (ln) w.expect += "\n";
    };
    switch (k) {
        case 0: w.name = "vt_file_append"; w.append = true; w.call = [=] { return vt_file_append(p, t); }; break;
        case 1: w.name = "vt_file_appendln"; w.append = true; w.expect += "\n"; w.call = [=] { return vt_file_appendln(p, t); }; break;
        case 2: w.name = "vt_file_appendb"; w.append = true; w.call = [=] { return vt_file_appendb(p, t); }; break;
        case 3: w.name = "vt_file_appendbln"; w.append = true; w.expect += "\n"; w.call = [=] { return vt_file_appendbln(p, t); }; break;
        case 4: fc(true, false); break;
        case 5: fc(true, true); break;
        case 6: fc(false, false); break;
        case 7: fc(false, true); break;
        case 8: w.name = "vt_file_write"; w.call = [=] { return vt_file_write(p, t); }; break;
        case 9: w.name = "vt_file_writeln"; w.expect += "\n"; w.call = [=] { return vt_file_writeln(p, t); }; break;
        case 10: w.name = "vt_file_writeb"; w.call = [=] { return vt_file_writeb(p, t); }; break;
        case 11: w.name = "vt_file_writebln"; w.expect += "\n"; w.call = [=] { return vt_file_writebln(p, t); }; break;
        case 12: w.name = "vt_file_writef"; w.call = [=] { return vt_file_writef(p, "%s", t); }; break;
        case 13: w.name = "vt_file_writefln"; w.expect += "\n"; w.call = [=] { return vt_file_writefln(p, "%s", t); }; break;
        case 14: w.name = "vt_file_writef"; w.expect = fmt_of("%d %5.1f ", num, dbl) + text; w.call = [=] { return vt_file_writef(p, "%d %5.1f %s", num, dbl, t); }; break;
        default: w.name = "vt_file_writefln"; w.expect = text + fmt_of(" %d%%\n", num); w.call = [=] { return vt_file_writefln(p, "%s %d%%", t, num); }; break;
    }
    return w;
}
