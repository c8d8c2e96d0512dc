// C19: strings against a plain string.
#include "scen.h"

namespace {
struct S { vt_str_t *s; std::string m; };
void check_str(const vt_str_t *s, const std::string &m, const char *what) {
    CHECK(s, "no-string", "%s gave no string", what);
    CHECK(s->len == m.size(), "wrong-length", "%s: length is %zu, the text has %zu characters", what, (size_t)s->len, m.size());
    size_t sz = 0; CHECK(mem_live(s->ptr, &sz), "lost-block", "%s: the text is not in a live block", what);
    CHECK(sz > s->len && sz > s->capacity, "capacity-overstated", "%s: length %zu and capacity %zu but the block has %zu bytes", what, (size_t)s->len, (size_t)s->capacity, sz);
    CHECK(s->len <= s->capacity, "length-over-capacity", "%s: length %zu exceeds capacity %zu", what, (size_t)s->len, (size_t)s->capacity);
    CHECK(!memcmp(s->ptr, m.data(), m.size()), "wrong-text", "%s: text is %s, expected %s", what, show(std::string((char *)s->ptr, s->len), 80).c_str(), show(m, 80).c_str());
    CHECK(((char *)s->ptr)[s->len] == 0, "not-terminated", "%s: no terminator after the %zu characters", what, (size_t)s->len);
}
// short texts over a small alphabet so that patterns match
std::string gen_word(size_t lo, size_t hi) {
    size_t n = (size_t)range((i64)lo, (i64)hi); std::string s; u32 a = choose(4); static const char *al[] = {"ab", "ab,.", " \tab\n.,", "aAbB1. z"}; const char *c = al[a]; u32 k = (u32)strlen(c);
    if (!n) return s; u64 z = choose(65536); for (size_t i = 0; i < n; i++) s += c[mix(z * 31 + i) % k]; return s;
}
bool at_scale;   // texts of more than 65535 characters
std::string gen_long() { if (at_scale && choose(3) == 0) return gen_text(65536 + (size_t)range(-30, 30) + (choose(4) ? 0 : choose(80000)), 0); switch (choose(6)) { case 0: return gen_word(1, 8); case 1: return gen_word(1, 40); case 2: return gen_text(1020 + choose(8), 0); case 3: return gen_text(1 + choose(300), 2); case 4: return gen_text(1 + gen_size() % 5000, (int)choose(3)); default: return gen_word(1, 3); } }
// a pattern: usually part of the text
std::string gen_pat(const std::string &m, size_t maxlen) {
    if (!m.empty() && choose(4)) { size_t at = choose((u32)m.size()), n = 1 + (choose(8) == 7 ? 4 + choose(60) : choose(4)); std::string p = m.substr(at, n); if (p.size() <= maxlen && !p.empty()) return p; }
    std::string p = gen_word(1, 3); if (p.size() > maxlen) p.resize(maxlen); return p;
}
std::string gen_pad(const char *c) { size_t n = choose(3) ? choose(6) : choose(700), k = strlen(c); std::string s; if (!n || !k) return s; u64 z = choose(65536); u32 mono = choose(3); for (size_t i = 0; i < n; i++) s += c[mix(z * 31 + (mono ? i : 0)) % k]; return s; }
std::string replace_all(std::string m, const std::string &a, const std::string &b) { size_t p = 0; while ((p = m.find(a, p)) != std::string::npos) { m.replace(p, a.size(), b); p += b.size(); } return m; }
size_t count_of(const std::string &m, const std::string &a) { size_t n = 0, p = 0; while ((p = m.find(a, p)) != std::string::npos) { n++; p += a.size(); } return n; }
std::string strip(const std::string &m, const std::function<bool(unsigned char)> &f) { size_t a = 0, b = m.size(); while (a < b && f(m[a])) a++; while (b > a && f(m[b - 1])) b--; return m.substr(a, b - a); }
// the last occurrence can be read in two ways when the pattern overlaps itself
std::set<size_t> last_of(const std::string &m, const std::string &a) { std::set<size_t> r; size_t p = m.rfind(a); if (p == std::string::npos) return r; r.insert(p); size_t q = m.find(a), l = q; while (q != std::string::npos) { l = q; q = m.find(a, q + a.size()); } r.insert(l); return r; }
std::vector<std::string> split(const std::string &m, const std::string &sep) { std::vector<std::string> r; size_t p = 0; for (;;) { size_t q = m.find(sep, p); std::string x = m.substr(p, q == std::string::npos ? q : q - p); if (!x.empty()) r.push_back(x); if (q == std::string::npos) break; p = q + sep.size(); } return r; }
std::string applied; void on_char(char *c, size_t i) { applied += std::to_string(i) + *c; *c = *c == 'a' ? 'q' : *c; }
}
static void edits() {
    mem_config(); if (choose(3)) vt_debug_disable_output(true); vt_mallocator_t *al = nullptr; if (choose(2)) must_return(run_op([&] { al = vt_mallocator_create(); }), "vt_mallocator_create");
    std::vector<S> ss; bool isc = false;
    auto mk = [&] {
        S x; vt_mallocator_t *a = choose(2) ? al : nullptr; std::string t = gen_long(); char *z = Z(t); u32 how = choose(4); size_t cap = 1 + choose(choose(3) ? 20 : 1200);
        OpResult r = run_op([&] { switch (how) { case 0: x.s = vt_str_create(z, a); break; case 1: x.s = vt_str_create_capacity(cap, a); break; case 2: x.s = vt_str_create_len(t.size(), a); vt_str_set(x.s, z); break;
            default: { char *own = a ? (char *)a->alloc(a, t.size() + 1, "f", "g", 1) : (char *)VT_CALLOC(t.size() + 1); memcpy(own, t.c_str(), t.size() + 1); x.s = vt_str_take_ownership(own, a); } } });
        must_return(r, "creating a string"); x.m = how == 1 ? "" : t; check_str(x.s, x.m, how == 0 ? "vt_str_create" : how == 1 ? "vt_str_create_capacity" : how == 2 ? "vt_str_set" : "vt_str_take_ownership"); ss.push_back(x); };
    mk(); int nops = 1 + (int)choose(30);
    for (int k = 0; k < nops; k++) {
        if (choose(10) == 9 && ss.size() < 3) mk();
        size_t w = choose((u32)ss.size()); vt_str_t *s = ss[w].s; std::string &m = ss[w].m; size_t len = m.size(), at = len ? choose((u32)len) : 0; u32 op = choose(54); std::string t = gen_long(); char *z = Z(t); std::string what = "?", want = m, pat = gen_pat(m, len ? len : 1); char *zp = Z(pat); std::string rep = gen_word(1, 6); if (choose(3) == 2) rep.resize(std::min(rep.size(), pat.size())), rep.resize(pat.size(), 'k'); char *zr = Z(rep);
        bool needs_text = (op >= 5 && op <= 8) || (op >= 12 && op <= 19) || op == 20, b = choose(2); if (needs_text && !len) continue; int st = 0; bool chk_st = false; int want_st = VT_STATUS_OPERATION_SUCCESS; int num = (int)range(-5, 100000); size_t n; std::set<std::string> alt; std::function<void()> f; std::string fm, ft;
        if (op == 9 || op == 13) { switch (choose(4)) { case 0: fm = "%s"; ft = t; break; case 1: fm = "<%s|%d%%>"; ft = "<" + t + "|" + std::to_string(num) + "%>"; break; case 2: { fm = "%s%08d"; char bb[32]; snprintf(bb, 32, "%08d", num); ft = t + bb; break; } default: fm = "%s-%d"; ft = t + "-" + std::to_string(num); } }
        char *zf = Z(fm);
        switch (op) {
            case 0: case 1: if (len && choose(4) == 3) { /* its own text */ bool to_end = choose(2); size_t c = to_end ? len - at : 1 + choose((u32)(len - at)); what = to_end ? "vt_str_append of its own text" : "vt_str_append_n of its own text"; f = [&, c, to_end] { const char *own = (const char *)s->ptr + at; if (to_end) vt_str_append(s, own); else vt_str_append_n(s, own, c); }; want = m + m.substr(at, c); break; }
                what = "vt_str_append"; f = [&] { vt_str_append(s, z); }; want = m + t; break;
            case 2: n = 1 + choose((u32)t.size()); if (n > t.size()) n = t.size(); what = "vt_str_append_n"; f = [&, n] { vt_str_append_n(s, z, n); }; want = m + t.substr(0, n); break;
            case 3: what = "vt_str_clear"; f = [&] { vt_str_clear(s); }; want = ""; break;
            case 4: what = "vt_str_shrink"; f = [&] { vt_str_shrink(s); CHECK(s->capacity == s->len, "not-shrunk", "vt_str_shrink left capacity %zu for %zu characters", (size_t)s->capacity, (size_t)s->len); }; break;
            case 5: { if (t.size() > len) t.resize(len); z = Z(t); what = "vt_str_set"; f = [&] { vt_str_set(s, z); }; want = t; break; }
            case 6: { n = 1 + choose((u32)std::min(len, t.size())); if (n > std::min(len, t.size())) n = std::min(len, t.size()); what = "vt_str_set_n"; f = [&, n] { vt_str_set_n(s, z, n); }; want = t.substr(0, n); break; }
            case 7: { if (t.size() > len - at) t.resize(len - at); z = Z(t); what = "vt_str_set_at"; f = [&] { st = vt_str_set_at(s, z, at); }; chk_st = true; want = m.substr(0, at) + t; break; }
            case 8: what = "vt_str_set_c"; f = [&] { st = vt_str_set_c(s, t[0], at); }; chk_st = true; want[at] = t[0]; break;
            case 9: case 10: case 11: if (op != 9) { fm = "%s%s"; ft = t + pat; zf = Z(fm); f = [&] { st = vt_str_appendf(s, zf, z, zp); }; } else f = [&] { st = vt_str_appendf(s, zf, z, num); }; what = "vt_str_appendf"; want = m + ft; chk_st = true; break;
            case 12: what = "vt_str_insert"; f = [&] { vt_str_insert(s, z, at); }; want.insert(at, t); break;
            case 13: what = "vt_str_insertf"; f = [&] { st = vt_str_insertf(s, at, zf, z, num); }; want.insert(at, ft); chk_st = true; break;
            case 14: n = 1 + choose((u32)t.size()); if (n > t.size()) n = t.size(); if (choose(5) == 4) at = len; what = "vt_str_insert_n"; f = [&, n] { vt_str_insert_n(s, z, at, n); }; want.insert(at, t.substr(0, n)); break;
            case 15: { what = "vt_str_insert_before"; f = [&] { vt_str_insert_before(s, zp, z); }; size_t p = m.find(pat); if (p != std::string::npos) want.insert(p, t); break; }
            case 16: { what = "vt_str_insert_after"; f = [&] { vt_str_insert_after(s, zp, z); }; size_t p = m.find(pat); if (p != std::string::npos) want.insert(p + pat.size(), t); break; }
            case 17: n = 1 + choose(12); if (choose(5) == 4) n = len + choose(5); if (!n) n = 1; if (choose(12) == 11) n = SIZE_MAX - (choose(2) ? 0 : choose((u32)len + 2)); what = "vt_str_remove"; f = [&, n] { vt_str_remove(s, at, n); }; want.erase(at, n); break;
            case 18: { what = "vt_str_replace_first"; f = [&] { vt_str_replace_first(s, zp, zr); }; size_t p = m.find(pat); if (p != std::string::npos) want.replace(p, pat.size(), rep); break; }
            case 19: { what = "vt_str_find/can_find/index_find"; const char *fp = nullptr; size_t cf = 0; int64_t ix = 0; must_return(run_op([&] { fp = vt_str_find(s, zp); cf = vt_str_can_find(s, zp); ix = vt_str_index_find(s, zp); }), what.c_str()); size_t p = m.find(pat);
                CHECK(p == std::string::npos ? !fp && ix == -1 && cf == 0 : fp == (char *)s->ptr + p && ix == (int64_t)p && cf == count_of(m, pat), "wrong-answer", "searching %s in %s: index %lld, count %zu", show(pat).c_str(), show(m, 80).c_str(), (long long)ix, cf); f = [] {}; break; }
            case 20: { // splitting
                what = "vt_str_split"; vt_plist_t *ps = nullptr, *l = nullptr; bool useal = b; if (choose(2)) must_return(run_op([&] { ps = vt_plist_create(1 + choose(3), useal ? al : nullptr); for (u32 q = choose(3) ? 0 : choose(7); q-- > 0;) vt_plist_push_back(ps, (void *)(uintptr_t)(8 * (q + 1))); }), "vt_plist_create"); must_return(run_op([&] { l = vt_str_split(ps, s, zp); }), "vt_str_split");
                if (m.find(pat) == std::string::npos) CHECK(!l, "wrong-split", "vt_str_split found the separator %s that is not in %s", show(pat).c_str(), show(m, 80).c_str());
                else { std::vector<std::string> e = split(m, pat); CHECK(l && (!ps || l == ps), "wrong-split", "vt_str_split did not return the list"); CHECK(l->len == e.size(), "wrong-split", "splitting %s at %s gave %zu parts instead of %zu", show(m, 80).c_str(), show(pat).c_str(), (size_t)l->len, e.size()); for (size_t i = 0; i < e.size(); i++) { check_str((vt_str_t *)l->ptr2[i], e[i], "part of vt_str_split"); } must_return(run_op([&] { for (size_t i = 0; i < l->len; i++) vt_str_destroy((vt_str_t *)l->ptr2[i]); }), "vt_str_destroy"); }
                if (l) must_return(run_op([&] { vt_plist_destroy(l); }), "vt_plist_destroy"); else if (ps) must_return(run_op([&] { vt_plist_destroy(ps); }), "vt_plist_destroy"); f = [] {}; break; }
            case 21: { what = "vt_str_remove_first"; f = [&] { st = vt_str_remove_first(s, zp); }; chk_st = true; size_t p = m.find(pat); if (p == std::string::npos) want_st = VT_STATUS_ERROR_ELEMENT_NOT_FOUND; else want.erase(p, pat.size()); break; }
            case 22: { what = "vt_str_remove_last"; f = [&] { st = vt_str_remove_last(s, zp); }; chk_st = true; auto ps = last_of(m, pat); if (ps.empty()) want_st = VT_STATUS_ERROR_ELEMENT_NOT_FOUND; else for (size_t p : ps) { want = m; want.erase(p, pat.size()); alt.insert(want); } break; }
            case 23: { what = "vt_str_remove_all"; f = [&] { st = vt_str_remove_all(s, zp); }; chk_st = true; size_t p; while ((p = want.find(pat)) != std::string::npos) want.erase(p, pat.size()); break; }
            case 24: what = "vt_str_remove_c"; f = [&] { vt_str_remove_c(s, zp); }; want.clear(); for (char c : m) if (pat.find(c) == std::string::npos) want += c; break;
            case 25: case 26: what = "vt_str_replace"; f = [&] { vt_str_replace(s, zp, zr); }; want = replace_all(m, pat, rep); break;
            case 27: { what = "vt_str_replace_last"; f = [&] { vt_str_replace_last(s, zp, zr); }; for (size_t p : last_of(m, pat)) { want = m; want.replace(p, pat.size(), rep); alt.insert(want); } break; }
            case 28: { std::string c = gen_word(1, 5), r = gen_text(1 + choose((u32)c.size()), 0); if (r.size() > c.size()) r.resize(c.size()); char *zc = Z(c), *zrr = Z(r); what = "vt_str_replace_c"; f = [=] { vt_str_replace_c(s, zc, zrr); }; for (char &x : want) { size_t j = c.find(x); if (j != std::string::npos) x = j < r.size() ? r[j] : r.back(); } break; }
            case 29: case 30: case 31: {
                const char *set = op == 29 ? " \t\n\v\f\r" : op == 30 ? " \t\n\v\f\r!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~" : pat.c_str(); std::string l = choose(2) ? gen_pad(set) : "", r = choose(2) ? gen_pad(set) : ""; char *zl = Z(l), *zr2 = Z(r);
                if (!l.empty() || !r.empty()) { must_return(run_op([&] { if (!l.empty()) vt_str_insert_n(s, zl, 0, l.size()); if (!r.empty()) vt_str_append(s, zr2); }), "padding"); m = l + m + r; check_str(s, m, "padding"); }
                what = op == 29 ? "vt_str_strip" : op == 30 ? "vt_str_strip_punct" : "vt_str_strip_c"; f = [&, op] { if (op == 29) vt_str_strip(s); else if (op == 30) vt_str_strip_punct(s); else vt_str_strip_c(s, zp); };
                want = strip(m, [&, op](unsigned char c) { return op == 31 ? pat.find((char)c) != std::string::npos : isspace((char)c) || (op == 30 && ispunct((char)c)); }); break; }
            case 32: n = 1 + choose(choose(2) ? 3000 : 20); what = "vt_str_reserve"; f = [&, n] { vt_str_reserve(s, n); CHECK(s->capacity >= n && s->capacity - s->len >= n, "no-room", "vt_str_reserve(%zu) left capacity %zu for %zu characters", n, (size_t)s->capacity, (size_t)s->len); }; break;
            case 33: n = 1 + choose(choose(2) ? 40 : (u32)len + 5); what = "vt_str_resize"; f = [&, n] { vt_str_resize(s, n); }; if (n < len) want.resize(n); break;
            case 34: { what = "vt_str_validate_len"; size_t r = 0; if (b && len) { ((char *)s->ptr)[at] = 0; want.resize(at); } f = [&] { vt_str_validate_len(s); }; (void)r; break; }
            case 35: { what = "vt_str_dup"; if (!len) continue; vt_str_t *d = nullptr; must_return(run_op([&] { d = vt_str_dup(s); }), "vt_str_dup"); check_str(d, m, "vt_str_dup"); CHECK(d != s && d->ptr != s->ptr, "not-a-copy", "vt_str_dup did not make a copy"); if (ss.size() < 4) { ss.push_back({d, m}); continue; } must_return(run_op([&] { vt_str_destroy(d); }), "vt_str_destroy"); f = [] {}; break; }
            case 36: case 37: { // pop the first or last part into a given or new string
                bool first = op == 36; what = first ? "vt_str_pop_get_first" : "vt_str_pop_get_last"; vt_str_t *sr = nullptr, *res = nullptr; std::string srm = gen_long(); char *zs = Z(srm); bool given = choose(2), useal = b; if (given) must_return(run_op([&] { sr = vt_str_create(zs, useal ? al : nullptr); if (choose(3) == 2) { vt_str_clear(sr); srm = ""; } }), "vt_str_create");
                must_return(run_op([&] { res = first ? vt_str_pop_get_first(sr, s, zp) : vt_str_pop_get_last(sr, s, zp); }), what.c_str()); std::set<std::pair<std::string, std::string>> outs; // (popped, rest)
                if (first) { size_t p = m.find(pat); if (len && p != std::string::npos && p > 0) outs.insert({m.substr(0, p), m.substr(p + pat.size())}); } else for (size_t p : last_of(m, pat)) if (p + pat.size() < m.size()) outs.insert({m.substr(p + pat.size()), m.substr(0, p)}); else outs.insert({"", ""});
                bool none = outs.empty(); for (auto &o : outs) if (o.first.empty() && !first) none = true; std::string now = str_of(s);
                if (none && now == m) { CHECK(res == sr, "wrong-pop", "%s returned another string although nothing was popped", what.c_str()); if (sr) check_str(sr, srm, what.c_str()); }
                else { CHECK(res && (!sr || res == sr), "wrong-pop", "%s(%s, %s) returned no string", what.c_str(), show(m, 60).c_str(), show(pat).c_str()); std::string got = str_of(res); CHECK(outs.count({got, now}), "wrong-pop", "%s(%s, %s) returned %s and left %s", what.c_str(), show(m, 60).c_str(), show(pat).c_str(), show(got).c_str(), show(now).c_str()); check_str(res, got, what.c_str()); check_str(s, now, what.c_str()); m = now; want = now; }
                if (res && res != sr) must_return(run_op([&] { vt_str_destroy(res); }), "vt_str_destroy"); if (sr) must_return(run_op([&] { vt_str_destroy(sr); }), "vt_str_destroy"); f = [] {}; break; }
            case 38: { // joining
                what = "vt_str_join"; std::vector<std::string> parts; u32 np = 1 + choose(6); for (u32 i = 0; i < np; i++) parts.push_back(choose(5) == 4 ? gen_long() : gen_word(1, 6)); vt_plist_t *pl = nullptr; std::vector<char *> zs; for (auto &x : parts) zs.push_back(Z(x)); bool into = b; must_return(run_op([&] { pl = vt_plist_create(np, nullptr); for (char *x : zs) vt_plist_push_back(pl, x); }), "vt_plist_create"); std::string j; for (u32 i = 0; i < np; i++) j += (i ? pat : "") + parts[i]; vt_str_t *res = nullptr; std::string base = into ? m : "";
                if (choose(2) && np >= 3) { what = "vt_str_join_n"; j = parts[0] + pat + parts[1] + pat + parts[2]; must_return(run_op([&] { res = vt_str_join_n(into ? s : nullptr, zp, 3, zs[0], zs[1], zs[2]); }), what.c_str()); } else must_return(run_op([&] { res = vt_str_join(into ? s : nullptr, zp, pl); }), what.c_str());
                CHECK(!into || res == s, "wrong-join", "%s did not use the given string", what.c_str()); check_str(res, base + j, what.c_str()); if (into) want = m = base + j; else must_return(run_op([&] { vt_str_destroy(res); }), "vt_str_destroy"); must_return(run_op([&] { vt_plist_destroy(pl); }), "vt_plist_destroy"); f = [] {}; break; }
            case 39: { // between two marks
                what = "vt_str_split_between"; static const std::vector<std::pair<const char *, const char *>> marks = {{"(", ")"}, {"<<", ">>"}, {"begin", "end"}}; auto mk2 = pick(marks); std::string A = gen_text(choose(30), 0), M = gen_text(1 + (choose(4) == 3 ? gen_size() % 3000 : choose(30)), 0), B = gen_text(choose(30), 0); for (auto *q : {&A, &M, &B}) for (char &c : *q) if (c == 'b' || c == 'e') c = 'x'; u32 shape = choose(4); std::string txt = shape == 0 ? A + mk2.first + M + mk2.second + B : shape == 1 ? A + mk2.first + M + B : shape == 2 ? A + M + mk2.second + B : A + mk2.second + M + mk2.first + B; char *zt = Z(txt); bool into = b; vt_str_t *res = nullptr; must_return(run_op([&] { res = vt_str_split_between(into ? s : nullptr, zt, mk2.first, mk2.second); }), what.c_str());
                if (shape) { CHECK(!res, "wrong-split", "vt_str_split_between found something in %s", show(txt).c_str()); if (into) { want = m = str_of(s); } } else { CHECK(res && (!into || res == s), "wrong-split", "vt_str_split_between returned no string"); check_str(res, M, what.c_str()); if (into) want = m = M; else must_return(run_op([&] { vt_str_destroy(res); }), "vt_str_destroy"); } f = [] {}; break; }
            case 50: { // marks that overlap, repeat or touch
                what = "vt_str_split_between"; static const std::vector<std::pair<const char *, const char *>> marks = {{"(", ")"}, {"\"", "\""}, {"<-", "->"}, {"ab", "ba"}, {"aa", "a"}, {"a", "aa"}, {"::", "::"}, {"<", ">>"}}; auto mk2 = pick(marks); std::string zl = mk2.first, zr = mk2.second, txt; u32 np = 1 + choose(7); for (u32 i = 0; i < np; i++) switch (choose(4)) { case 0: txt += zl; break; case 1: txt += zr; break; case 2: txt += (zl + zr)[choose((u32)(zl + zr).size())]; break; default: txt += gen_text(1 + choose(choose(8) ? 12 : 2000), 0); } bool into = b, found = false; std::string M; size_t p = txt.find(zl), q = p == std::string::npos ? p : txt.find(zr, p + zl.size()); if (q != std::string::npos) { found = true; M = txt.substr(p + zl.size(), q - p - zl.size()); }
                char *zt = Z(txt), *z1 = Z(zl), *z2 = Z(zr); vt_str_t *res = nullptr; must_return(run_op([&] { res = vt_str_split_between(into ? s : nullptr, zt, z1, z2); }), what.c_str());
                if (!found) { CHECK(!res, "wrong-split", "vt_str_split_between(%s, %s, %s) found something", show(txt).c_str(), zl.c_str(), zr.c_str()); if (into) want = m = str_of(s); } else { CHECK(res && (!into || res == s), "wrong-split", "vt_str_split_between(%s, %s, %s) returned no string", show(txt).c_str(), zl.c_str(), zr.c_str()); check_str(res, M, what.c_str()); if (into) want = m = M; else must_return(run_op([&] { vt_str_destroy(res); }), "vt_str_destroy"); if (M.empty()) probe("nothing between the marks"); } f = [] {}; break; }
            case 52: { // comparing with texts that differ in one character or in length only
                what = "string comparisons"; if (!len) continue; std::string o = m; u32 how = choose(6); size_t i = choose(3) ? len - 1 - choose((u32)std::min<size_t>(len, 4)) : choose((u32)len); if (how == 0) o[i] = o[i] == 'k' ? 'l' : 'k'; else if (how == 1) o[i] = (char)(o[i] ^ 0x20 ? o[i] ^ 0x20 : 'x'); else if (how == 2) o += 'a'; else if (how == 3 && len > 1) o.pop_back(); else if (how == 4 && len > 1) o.erase(0, 1);
                size_t cn = choose((u32)std::min(len, o.size()) + 1); if (!cn) cn = 1; if (choose(3) == 2) cn = std::min(len, o.size()); std::string head = o.substr(0, 1 + choose((u32)o.size())), tail = o.substr(choose((u32)o.size())); if (choose(2)) { head = o; tail = o; } char *zo = Z(o), *zh = Z(head), *zt = Z(tail); bool e1 = false, e2 = false, e3 = false, sw = false, ew = false; vt_str_t *os = nullptr;
                must_return(run_op([&] { os = vt_str_create(zo, nullptr); e1 = vt_str_equals(s, os); e2 = vt_str_equals_z(vt_str_z(s), zo); e3 = vt_str_equals_n(vt_str_z(s), zo, cn); sw = vt_str_starts_with(s, zh); ew = vt_str_ends_with(s, zt); vt_str_destroy(os); }), what.c_str());
                CHECK(e1 == (m == o) && e2 == (m == o) && e3 == (m.compare(0, cn, o, 0, cn) == 0) && sw == (head.size() <= len && m.compare(0, head.size(), head) == 0) && ew == (tail.size() <= len && m.compare(len - tail.size(), tail.size(), tail) == 0), "wrong-answer", "comparing %s with %s: equal %d %d, first %zu equal %d, starts %d, ends %d", show(m, 60).c_str(), show(o, 60).c_str(), e1, e2, cn, e3, sw, ew); if (m != o && m.size() == o.size()) probe("differs in one character"); f = [] {}; break; }
            case 53: { // numbers and texts that are nearly numbers; text written into the room of a string
                if (b) { what = "vt_str_is_numeric"; std::string t2; for (u32 i = 1 + choose(choose(6) ? 12 : 400); i-- > 0;) t2 += (char)('0' + choose(10)); if (choose(3) == 0) t2[choose((u32)t2.size())] = '.'; if (choose(2)) { static const char odd[] = "+-eExX ,/:aF\n_%"; size_t i = choose(3) ? (choose(2) ? 0 : t2.size() - 1) : choose((u32)t2.size()); t2[i] = odd[choose(sizeof odd - 1)]; } bool isn = t2.find_first_not_of("0123456789.") == std::string::npos, r1 = false, r2 = false; char *zn = Z(t2); must_return(run_op([&] { vt_str_t *q = vt_str_create(zn, nullptr); r1 = vt_str_is_numeric(q); r2 = vt_str_is_numeric_z(zn, t2.size()); vt_str_destroy(q); }), what.c_str()); CHECK(r1 == isn && r2 == isn, "wrong-answer", "vt_str_is_numeric says %d and %d about %s", r1, r2, show(t2).c_str()); probe(isn ? "a number" : "not a number"); f = [] {}; break; }
                what = "vt_str_validate_len"; if (!s->capacity) continue; want = gen_text(choose((u32)std::min<size_t>(s->capacity, 3000) + 1), 0); if (want.size() > s->capacity) want.resize(s->capacity); memcpy(s->ptr, want.c_str(), want.size() + 1); probe("text written into the buffer"); f = [&] { size_t r = vt_str_validate_len(s); CHECK(r == want.size(), "wrong-length", "vt_str_validate_len returned %zu for a text of %zu characters", r, want.size()); }; break; }
            case 51: { // an empty pattern: nothing is found or changed, and the call returns
                char *ze = Z(""); u32 v = choose(11); if ((v == 4 || v == 5) && !len) continue; static const char *nm[] = {"vt_str_remove_first", "vt_str_remove_last", "vt_str_remove_all", "vt_str_remove_c", "vt_str_can_find", "vt_str_split", "vt_str_strip_c", "vt_str_replace", "vt_str_replace_last", "vt_str_pop_get_first", "vt_str_pop_get_last"}; what = nm[v]; size_t cnt = 0; vt_plist_t *pl = nullptr; vt_str_t *res = nullptr;
                must_return(run_op([&] { switch (v) { case 0: vt_str_remove_first(s, ze); break; case 1: vt_str_remove_last(s, ze); break; case 2: vt_str_remove_all(s, ze); break; case 3: vt_str_remove_c(s, ze); break; case 4: cnt = vt_str_can_find(s, ze); break; case 5: pl = vt_str_split(nullptr, s, ze); break; case 6: vt_str_strip_c(s, ze); break; case 7: vt_str_replace(s, ze, zr); break; case 8: vt_str_replace_last(s, ze, zr); break; case 9: res = vt_str_pop_get_first(nullptr, s, ze); break; default: res = vt_str_pop_get_last(nullptr, s, ze); } }), what.c_str());
                CHECK(!cnt && !pl && !res, "wrong-answer", "%s with an empty pattern found something", what.c_str()); probe("empty pattern"); f = [] {}; break; }
            case 40: { what = "string queries"; bool e1 = false, e2 = false, sw = false, ew = false, num1 = false; int64_t io = 0; std::string tail = b && len ? m.substr(at) : t, head = b ? m.substr(0, at) : t; char *zt = Z(tail), *zh = Z(head), *zm = Z(m); char c = len && b ? m[at] : 'Q'; must_return(run_op([&] { vt_str_t v = vt_str_create_static(zm); e1 = vt_str_equals(s, &v); e2 = vt_str_equals_z(vt_str_z(s), zh); sw = vt_str_starts_with(s, zh); ew = vt_str_ends_with(s, zt); io = vt_str_index_of(s, c); num1 = vt_str_is_numeric(s); vt_str_destroy(&v); }), what.c_str()); bool isn = true; for (char x : m) if (!isdigit((unsigned char)x) && x != '.') isn = false; size_t p = m.find(c);
                CHECK(e1 && e2 == (m == head) && sw == (m.compare(0, head.size(), head) == 0 && head.size() <= len) && ew == (tail.size() <= len && m.substr(len - tail.size()) == tail) && io == (p == std::string::npos ? -1 : (int64_t)p) && num1 == isn, "wrong-answer", "a query about %s is wrong (equal %d %d, starts %d, ends %d, index %lld, numeric %d)", show(m, 60).c_str(), e1, e2, sw, ew, (long long)io, num1); f = [] {}; break; }
            case 41: what = b ? "vt_str_to_uppercase" : "vt_str_to_lowercase"; f = [&] { if (b) vt_str_to_uppercase(s); else vt_str_to_lowercase(s); }; for (char &c : want) c = (char)(b ? toupper(c) : tolower(c)); break;
            case 42: { what = "vt_str_apply"; applied.clear(); f = [&] { vt_str_apply(s, on_char); }; std::string e; for (size_t i = 0; i < len; i++) e += std::to_string(i) + m[i]; must_return(run_op(f), what.c_str()); CHECK(applied == e, "wrong-iteration", "vt_str_apply visited other characters"); for (char &c : want) if (c == 'a') c = 'q'; f = [] {}; break; }
            case 43: case 44: { what = op == 43 ? "vt_str_slide_front" : "vt_str_slide_back"; std::string seq; bool fr = op == 43; must_return(run_op([&] { vt_str_slide_reset(s); for (int rep2 = 0; rep2 < 2; rep2++) { char *p; while ((p = fr ? vt_str_slide_front(s) : vt_str_slide_back(s)) && seq.size() <= 2 * len + 2) seq += *p; } }), what.c_str()); std::string e = m; if (!fr) std::reverse(e.begin(), e.end()); CHECK(seq == e + e, "wrong-iteration", "two passes of %s over %s gave %s", what.c_str(), show(m).c_str(), show(seq).c_str()); f = [] {}; break; }
            case 45: if (ss.size() < 2) continue; must_return(run_op([&] { vt_str_destroy(s); }), "vt_str_destroy"); ss.erase(ss.begin() + w); probe("vt_str_destroy"); continue;
            case 46: case 47: { what = "append run"; std::string add; u32 cnt = 2 + choose(40); std::string one = gen_word(1, 5); char *zo = Z(one); f = [&, cnt, zo] { for (u32 i = 0; i < cnt; i++) vt_str_append(s, zo); }; must_return(run_op(f), "vt_str_append"); for (u32 i = 0; i < cnt; i++) want += one; f = [] {}; break; }
            case 48: what = "vt_str_replace"; if (!len) continue; { std::string grow = rep + gen_text(choose(60), 0); char *zg = Z(grow); f = [&, zg] { vt_str_replace(s, zp, zg); }; want = replace_all(m, pat, grow); if (want.size() > (at_scale ? 400000 : 60000)) continue; } break;
            default: what = "vt_str_insertf"; if (!len) continue; { size_t big = 1018 + choose(10); std::string tt = gen_text(big, 0); char *zb = Z(tt); f = [&, zb] { st = vt_str_insertf(s, at, "%s", zb); }; want.insert(at, tt); chk_st = true; } break;
        }
        ev("%s len %zu", what.c_str(), len); must_return(run_op(f), what.c_str());
        if (chk_st) CHECK(st == want_st, "wrong-status", "%s returned status %d, expected %d", what.c_str(), st, want_st);
        if (!alt.empty()) { std::string now = str_of(s); if (alt.count(now)) want = now; }
        m = want; isc |= m.size() > 4096; if (m.size() > 65535) probe("more than 65535 characters");
        for (auto &y : ss) check_str(y.s, y.m, what.c_str());
        { size_t l2 = 0, c2 = 0, h2 = 0; bool e2 = false; const char *z2 = nullptr; must_return(run_op([&] { l2 = vt_str_len(s); c2 = vt_str_capacity(s); h2 = vt_str_has_space(s); e2 = vt_str_is_empty(s); z2 = vt_str_z(s); }), "string queries"); CHECK(l2 == m.size() && c2 == s->capacity && h2 == c2 - l2 && e2 == m.empty() && z2 == s->ptr, "wrong-query", "%s: len %zu capacity %zu space %zu empty %d for %zu characters", what.c_str(), l2, c2, h2, e2, m.size()); }
        probe(what.c_str());
        if (m.size() > (at_scale ? 300000 : 40000)) { must_return(run_op([&] { vt_str_clear(s); vt_str_shrink(s); }), "vt_str_shrink"); m = ""; check_str(s, m, "vt_str_shrink"); }
    }
    for (auto &x : ss) must_return(run_op([&] { vt_str_destroy(x.s); }), "vt_str_destroy");
    if (al) CHECK(al->stats.count_bytes_allocated == 0, "memory-left", "%zu bytes of destroyed strings are still allocated", (size_t)al->stats.count_bytes_allocated);
}
SCENARIO("C19", c19_edits, 5) { at_scale = false; edits(); }
RARE_SCENARIO("C19", c19_large, 2) { at_scale = true; more_cpu(60); edits(); at_scale = false; }
