// C18: vectors and pointer lists against a plain sequence.
#include "scen.h"

namespace {
// the allocator of a container: default, tracking
vt_mallocator_t *gen_alloctr() {
    if (choose(2) == 0) return nullptr;
    vt_mallocator_t *a = nullptr; must_return(run_op([&] { a = vt_mallocator_create(); }), "vt_mallocator_create"); return a;
}
// the part of the element API that has one function per type
template <class T> struct Typed { void (*push_front)(vt_vec_t *, T); void (*push_back)(vt_vec_t *, T); T (*pop_get)(vt_vec_t *); void (*set)(vt_vec_t *, T, size_t); T (*get)(const vt_vec_t *, size_t); void (*insert)(vt_vec_t *, T, size_t); int64_t (*can_find)(const vt_vec_t *, T); const char *name; };
#define TYPED(T, t) { [](vt_vec_t *v, T x) { vt_vec_push_front##t(v, x); }, [](vt_vec_t *v, T x) { vt_vec_push_back##t(v, x); }, [](vt_vec_t *v) -> T { return vt_vec_pop_get##t(v); }, [](vt_vec_t *v, T x, size_t i) { vt_vec_set##t(v, x, i); }, \
    [](const vt_vec_t *v, size_t i) -> T { return vt_vec_get##t(v, i); }, [](vt_vec_t *v, T x, size_t i) { vt_vec_insert##t(v, x, i); }, [](const vt_vec_t *v, T x) -> int64_t { return vt_vec_can_find##t(v, x); }, #t }

void check_room(const struct VitaBaseArrayType *v, size_t len, const char *what) {
    CHECK(v->len == len, "wrong-length", "%s: length is %zu, expected %zu", what, (size_t)v->len, len);
    CHECK(v->len <= v->capacity, "length-over-capacity", "%s: length %zu exceeds capacity %zu", what, (size_t)v->len, (size_t)v->capacity);
    size_t sz = 0; CHECK(mem_live(v->ptr, &sz), "lost-block", "%s: the elements are not in a live block", what);
    CHECK(sz >= v->capacity * v->elsize, "capacity-overstated", "%s: capacity is %zu elements of %zu bytes but the block has %zu bytes", what, (size_t)v->capacity, (size_t)v->elsize, sz);
}
size_t gen_count() { switch (choose(4)) { case 0: return 1; case 1: return 1 + choose(4); case 2: return 1 + choose(17); default: return 1 + choose(130); } }

std::vector<std::pair<std::string, size_t>> seen; size_t seen_elsize;
void on_apply(void *p, size_t i) { seen.push_back({std::string((char *)p, seen_elsize), i}); }

}

template <class T> static void typed_history(const Typed<T> &o, int nops) {
    vt_mallocator_t *al = gen_alloctr(); vt_vec_t *v = nullptr; size_t n0 = gen_count(); std::vector<T> m; ev("typed %s n=%zu", o.name, n0);
    must_return(run_op([&] { v = vt_vec_create(n0, sizeof(T), al); }), "vt_vec_create"); check_room(v, 0, "vt_vec_create");
    for (int k = 0; k < nops; k++) {
        u32 op = choose(8); T x; { i64 r = range(-4, 300); if (choose(6) == 5) r = (i64)mix((u64)r + choose(1000)); x = (T)0.5 != (T)0 ? (T)((T)(int32_t)r / (T)8) : (T)r; } size_t at = m.empty() ? 0 : choose((u32)m.size()); std::string what = std::string("typed vector ") + o.name; T got = 0; int64_t idx = 0; bool bulk = op <= 1 && choose(4) == 3; size_t cnt = bulk ? 1 + choose(60) : 1;
        OpResult r = run_op([&] { switch (op) {
            case 0: for (size_t i = 0; i < cnt; i++) o.push_back(v, (T)(x + (T)i)); break; case 1: for (size_t i = 0; i < cnt; i++) o.push_front(v, (T)(x + (T)i)); break;
            case 2: if (!m.empty()) o.insert(v, x, at); break; case 3: if (!m.empty()) o.set(v, x, at); break; case 4: got = o.pop_get(v); break; case 5: if (!m.empty()) got = o.get(v, at); break;
            case 6: idx = o.can_find(v, x); break; default: if (!m.empty()) { vt_vec_remove(v, at, VT_REMOVE_STRATEGY_STABLE); } } });
        must_return(r, what.c_str());
        switch (op) {
            case 0: for (size_t i = 0; i < cnt; i++) m.push_back((T)(x + (T)i)); break; case 1: for (size_t i = 0; i < cnt; i++) m.insert(m.begin(), (T)(x + (T)i)); break;
            case 2: if (!m.empty()) m.insert(m.begin() + at, x); break; case 3: if (!m.empty()) m[at] = x; break;
            case 4: if (m.empty()) CHECK(got == 0, "wrong-element", "%s: pop from the empty vector returned a value", what.c_str()); else { CHECK(got == m.back(), "wrong-element", "%s: pop returned another value than the last element", what.c_str()); m.pop_back(); } break;
            case 5: if (!m.empty()) CHECK(got == m[at], "wrong-element", "%s: element %zu of %zu differs", what.c_str(), at, m.size()); break;
            case 6: if (sizeof(T) == sizeof(real) && (T)0.5 != (T)0 && sizeof(T) > 8) { if (idx >= 0) CHECK((size_t)idx < m.size() && m[idx] == x, "wrong-element", "%s: find returned %lld", what.c_str(), (long long)idx); }
                else { auto it = std::find(m.begin(), m.end(), x); int64_t w = it == m.end() ? -1 : it - m.begin(); CHECK(idx == w, "wrong-element", "%s: find returned %lld, expected %lld", what.c_str(), (long long)idx, (long long)w); } break;
            default: if (!m.empty()) m.erase(m.begin() + at); }
        check_room(v, m.size(), what.c_str());
        for (size_t i = 0; i < m.size(); i++) CHECK(((T *)v->ptr)[i] == m[i], "wrong-element", "%s: after operation %u element %zu of %zu differs", what.c_str(), op, i, m.size());
    }
    must_return(run_op([&] { vt_vec_destroy(v); }), "vt_vec_destroy"); probe(o.name);
}
SCENARIO("C18", c18_typed_vector, 2) {
    mem_config(); vt_debug_disable_output(true); int n = 1 + (int)choose(25);
    switch (choose(11)) {
        case 0: { static const Typed<int8_t> t = TYPED(int8_t, i8); typed_history(t, n); break; } case 1: { static const Typed<uint8_t> t = TYPED(uint8_t, u8); typed_history(t, n); break; }
        case 2: { static const Typed<int16_t> t = TYPED(int16_t, i16); typed_history(t, n); break; } case 3: { static const Typed<uint16_t> t = TYPED(uint16_t, u16); typed_history(t, n); break; }
        case 4: { static const Typed<int32_t> t = TYPED(int32_t, i32); typed_history(t, n); break; } case 5: { static const Typed<uint32_t> t = TYPED(uint32_t, u32); typed_history(t, n); break; }
        case 6: { static const Typed<int64_t> t = TYPED(int64_t, i64); typed_history(t, n); break; } case 7: { static const Typed<uint64_t> t = TYPED(uint64_t, u64); typed_history(t, n); break; }
        case 8: { static const Typed<float> t = TYPED(float, f); typed_history(t, n); break; } case 9: { static const Typed<double> t = TYPED(double, d); typed_history(t, n); break; }
        default: { static const Typed<real> t = TYPED(real, r); typed_history(t, n); break; }
    }
}

// elements of any size, the whole vector API, several vectors alive at once
SCENARIO("C18", c18_vector, 4) {
    mem_config(); vt_debug_disable_output(true); vt_mallocator_t *al = gen_alloctr();
    static const std::vector<size_t> sizes = {1, 2, 3, 4, 8, 12, 16, 24, 40, 100, 255, 300, 700}; struct V { vt_vec_t *v; std::vector<std::string> m; size_t es; }; std::vector<V> vs; u32 salt = 0;
    auto fresh = [&](size_t es) { std::string s(es, 0); u64 z = choose(3) ? ++salt : choose(4); for (size_t i = 0; i < es; i++) s[i] = (char)mix(z * 977 + i); return s; };
    auto mk = [&] { V x; x.es = pick(sizes); size_t n = gen_count(); bool useal = choose(2); must_return(run_op([&] { x.v = vt_vec_create(n, x.es, useal ? al : nullptr); }), "vt_vec_create"); check_room(x.v, 0, "vt_vec_create"); vs.push_back(x); };
    mk(); int nops = 1 + (int)choose(40);
    for (int k = 0; k < nops; k++) {
        if (choose(12) == 11 && vs.size() < 3) mk();
        size_t w = choose((u32)vs.size()); V &x = vs[w]; vt_vec_t *v = x.v; auto &m = x.m; size_t es = x.es, at = m.empty() ? 0 : choose((u32)m.size()), n = gen_count(); u32 op = choose(20); std::string val = fresh(es); if (op == 14 && !m.empty() && choose(2)) { val = m[at]; if (choose(2)) val[choose(2) ? es - 1 : choose((u32)es)] ^= (char)(1 << choose(8)); } char *zv = (char *)mem_alloc(es, false); memcpy(zv, val.data(), es);
        std::string got; int64_t idx = 0; bool null = false; vt_vec_t *d = nullptr; std::vector<std::string> seq; size_t cnt = choose(3) == 2 ? 1 + choose(50) : 1; std::vector<std::string> vals; for (size_t i = 0; i < cnt; i++) vals.push_back(i ? fresh(es) : val); bool b = choose(2); static const char *nm[] = {"vt_vec_push_back", "vt_vec_push_front", "vt_vec_insert", "vt_vec_set", "vt_vec_remove(stable)", "vt_vec_remove(fast)", "vt_vec_pop", "vt_vec_pop_get", "vt_vec_reserve", "vt_vec_shrink", "vt_vec_resize", "vt_vec_clear", "vt_vec_dup", "vt_vec_get", "vt_vec_can_find", "vt_vec_slide_front", "vt_vec_slide_back", "vt_vec_apply", "vt_vec_destroy", "vt_array_get/set"}; const char *what = nm[op]; ev("%s len %zu", what, m.size());
        if ((op == 2 || op == 3 || op == 4 || op == 5 || op == 13 || op == 19 || op == 12) && m.empty()) continue;
        if (op == 18 && vs.size() < 2) continue;
        size_t partial = choose(3) == 2 ? choose(5) : 0; if (partial > m.size()) partial = m.size();
        // the element to add may be one of the vector's own
        bool own = op < 4 && !m.empty() && choose(6) == 5; size_t src = own ? choose((u32)m.size()) : 0; if (own) { val = m[src]; vals.assign(1, val); probe(v->len == v->capacity ? "own element, full vector" : "own element"); if (op == 3 && src == at) continue; }
        OpResult r = run_op([&] { if (own) { const void *e = vt_vec_get(v, src); if (op == 0) vt_vec_push_back(v, e); else if (op == 1) vt_vec_push_front(v, e); else if (op == 2) vt_vec_insert(v, e, at); else vt_vec_set(v, e, at); return; } switch (op) {
            case 0: for (auto &s : vals) { memcpy(zv, s.data(), es); vt_vec_push_back(v, zv); } break; case 1: for (auto &s : vals) { memcpy(zv, s.data(), es); vt_vec_push_front(v, zv); } break; case 2: vt_vec_insert(v, zv, at); break; case 3: vt_vec_set(v, zv, at); break;
            case 4: vt_vec_remove(v, at, VT_REMOVE_STRATEGY_STABLE); break; case 5: vt_vec_remove(v, at, VT_REMOVE_STRATEGY_FAST); break; case 6: vt_vec_pop(v); break; case 7: { char *p = (char *)vt_vec_pop_get(v); null = !p; if (p) got.assign(p, es); break; }
            case 8: vt_vec_reserve(v, n); break; case 9: vt_vec_shrink(v); break; case 10: vt_vec_resize(v, n); break; case 11: vt_vec_clear(v); break; case 12: vt_vec_slide_reset(v); for (size_t i = 0; i < partial; i++) vt_vec_slide_front(v); d = vt_vec_dup(v, b ? al : nullptr); if (partial) { char *p; while ((p = (char *)vt_vec_slide_front(d)) && seq.size() <= m.size() + 2) seq.push_back(std::string(p, es)); vt_vec_slide_reset(v); vt_vec_slide_reset(d); } break; case 13: got.assign((char *)vt_vec_get(v, at), es); break; case 14: idx = vt_vec_can_find(v, zv); break;
            case 15: vt_vec_slide_reset(v); for (size_t i = 0; i < partial; i++) vt_vec_slide_front(v); if (partial) vt_vec_slide_reset(v); for (int rep = 0; rep < 2; rep++) { char *p; while ((p = (char *)vt_vec_slide_front(v)) && seq.size() <= 2 * m.size() + 2) seq.push_back(std::string(p, es)); } break;
            case 16: vt_vec_slide_reset(v); for (size_t i = 0; i < partial; i++) vt_vec_slide_back(v); if (partial) vt_vec_slide_reset(v); for (int rep = 0; rep < 2; rep++) { char *p; while ((p = (char *)vt_vec_slide_back(v)) && seq.size() <= 2 * m.size() + 2) seq.push_back(std::string(p, es)); } break;
            case 17: seen.clear(); seen_elsize = es; vt_vec_apply(v, on_apply); break; case 18: vt_vec_destroy(v); break;
            default: if (b) vt_array_set(v, zv, at); else got.assign((char *)vt_array_get(v, at), es); } });
        must_return(r, what);
        switch (op) {
            case 0: m.insert(m.end(), vals.begin(), vals.end()); break; case 1: for (auto &s : vals) m.insert(m.begin(), s); break; case 2: m.insert(m.begin() + at, val); break; case 3: m[at] = val; break; case 4: m.erase(m.begin() + at); break;
            case 5: { m.erase(m.begin() + at); CHECK(v->len == m.size(), "wrong-length", "%s left length %zu instead of %zu", what, (size_t)v->len, m.size()); std::vector<std::string> a; for (size_t i = 0; i < m.size(); i++) a.push_back(std::string((char *)v->ptr + i * es, es)); std::vector<std::string> s1 = a, s2 = m; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); CHECK(s1 == s2, "wrong-element", "%s of element %zu of %zu lost or duplicated another element", what, at, m.size() + 1); m = a; break; }
            case 6: if (!m.empty()) m.pop_back(); break; case 7: if (m.empty()) CHECK(null, "wrong-element", "%s on the empty vector returned an element", what); else { CHECK(!null && got == m.back(), "wrong-element", "%s did not return the last element", what); m.pop_back(); } break;
            case 8: CHECK(v->capacity >= n && v->capacity - m.size() >= n, "no-room", "%s(%zu) left capacity %zu for %zu elements", what, n, (size_t)v->capacity, m.size()); break; case 9: if (!m.empty()) CHECK(v->capacity == m.size(), "not-shrunk", "%s left capacity %zu for %zu elements", what, (size_t)v->capacity, m.size()); break;
            case 10: { size_t keep = std::min(n, m.size()); check_room(v, n, what); for (size_t i = 0; i < keep; i++) CHECK(!memcmp((char *)v->ptr + i * es, m[i].data(), es), "wrong-element", "%s(%zu) changed element %zu of %zu", what, n, i, m.size()); m.resize(keep); for (size_t i = keep; i < n; i++) { std::string s = fresh(es); memcpy((char *)v->ptr + i * es, s.data(), es); m.push_back(s); } break; }
            case 11: m.clear(); break;
            case 12: CHECK(d && d != v && d->ptr != v->ptr, "not-a-copy", "vt_vec_dup did not make a new vector"); if (partial) { CHECK(seq == m, "wrong-iteration", "a pass over the duplicate of a vector in the middle of a pass visited %zu of %zu elements", seq.size(), m.size()); probe("duplicate in mid-pass"); } check_room(d, m.size(), what); for (size_t i = 0; i < m.size(); i++) CHECK(!memcmp((char *)d->ptr + i * es, m[i].data(), es), "wrong-element", "the duplicate differs at element %zu", i); if (vs.size() < 4) vs.push_back({d, m, es}); else must_return(run_op([&] { vt_vec_destroy(d); }), "vt_vec_destroy"); break;
            case 13: CHECK(got == m[at], "wrong-element", "%s(%zu) returned another element", what, at); break; case 14: { auto it = std::find(m.begin(), m.end(), val); int64_t e = it == m.end() ? -1 : it - m.begin(); CHECK(idx == e, "wrong-element", "%s returned %lld, expected %lld", what, (long long)idx, (long long)e); break; }
            case 15: case 16: { std::vector<std::string> e = m; if (op == 16) std::reverse(e.begin(), e.end()); std::vector<std::string> e2 = e; e2.insert(e2.end(), e.begin(), e.end()); CHECK(seq == e2, "wrong-iteration", "two passes of %s over %zu elements visited %zu elements%s", what, m.size(), seq.size(), seq.size() == e2.size() ? " in a wrong order" : ""); probe(what); break; }
            case 17: CHECK(seen.size() == m.size(), "wrong-iteration", "%s called the function %zu times for %zu elements", what, seen.size(), m.size()); for (size_t i = 0; i < m.size(); i++) CHECK(seen[i].second == i && seen[i].first == m[i], "wrong-iteration", "%s passed another element at %zu", what, i); break;
            case 18: vs.erase(vs.begin() + w); continue; case 19: if (b) m[at] = val; else CHECK(got == m[at], "wrong-element", "vt_array_get returned another element"); break; default: break; }
        // every vector still holds its elements
        for (auto &y : vs) {
            check_room(y.v, y.m.size(), what); CHECK(y.v->elsize == y.es, "wrong-element", "%s changed the element size", what); size_t sp = 0, cp = 0, ln = 0; bool em = false; must_return(run_op([&] { sp = vt_vec_has_space(y.v); cp = vt_vec_capacity(y.v); ln = vt_vec_len(y.v); em = vt_vec_is_empty(y.v); }), "vector queries");
            CHECK(ln == y.m.size() && cp == y.v->capacity && sp == cp - ln && em == y.m.empty(), "wrong-query", "%s: len %zu capacity %zu space %zu empty %d for %zu elements", what, ln, cp, sp, em, y.m.size());
            for (size_t i = 0; i < y.m.size(); i++) CHECK(!memcmp((char *)y.v->ptr + i * y.es, y.m[i].data(), y.es), "wrong-element", "after %s element %zu of %zu (size %zu) differs", what, i, y.m.size(), y.es);
        }
        probe(what);
    }
    for (auto &x : vs) must_return(run_op([&] { vt_vec_destroy(x.v); }), "vt_vec_destroy");
}

namespace { std::vector<std::pair<void *, size_t>> pseen; void on_papply(void *p, size_t i) { pseen.push_back({p, i}); } }
SCENARIO("C18", c18_plist, 3) {
    mem_config(); vt_debug_disable_output(true); vt_mallocator_t *al = gen_alloctr(); struct L { vt_plist_t *v; std::vector<void *> m; }; std::vector<L> ls; uintptr_t serial = 0x1000;
    auto fresh = [&]() -> void * { u32 hi = choose(8); if (hi == 7) return (void *)((uintptr_t)(1 + choose(3)) << 32 | (uintptr_t)(0x1000 + 8 * (1 + choose(6))));     /* values that agree in their low 32 bits */ return choose(4) ? (void *)(serial += 8) : (void *)(uintptr_t)(0x1000 + 8 * (1 + choose(6))); };
    auto mk = [&] { L x; size_t n = gen_count(); bool useal = choose(2); must_return(run_op([&] { x.v = vt_plist_create(n, useal ? al : nullptr); }), "vt_plist_create"); check_room(x.v, 0, "vt_plist_create"); ls.push_back(x); };
    mk(); int nops = 1 + (int)choose(40);
    for (int k = 0; k < nops; k++) {
        if (choose(12) == 11 && ls.size() < 3) mk();
        size_t w = choose((u32)ls.size()); L &x = ls[w]; vt_plist_t *v = x.v; auto &m = x.m; size_t at = m.empty() ? 0 : choose((u32)m.size()), n = gen_count(); u32 op = choose(21); void *val = fresh(); if ((op == 14 || op == 19) && !m.empty() && choose(2)) val = m[at]; void *got = nullptr; int64_t idx = 0; vt_plist_t *d = nullptr; std::vector<void *> seq; std::vector<void *> vals = {val}; if (choose(3) == 2) for (u32 c = choose(50); c-- > 0;) vals.push_back(fresh()); bool b = choose(2);
        static const char *nm[] = {"vt_plist_push_back", "vt_plist_push_front", "vt_plist_insert", "vt_plist_set", "vt_plist_remove(stable)", "vt_plist_remove(fast)", "vt_plist_pop", "vt_plist_pop_get", "vt_plist_reserve", "vt_plist_shrink", "vt_plist_resize", "vt_plist_clear", "vt_plist_dup", "vt_plist_get", "vt_plist_can_find", "vt_plist_slide_front", "vt_plist_slide_back", "vt_plist_apply", "vt_plist_destroy", "vt_plist_remove_element(stable)", "vt_plist_remove_element(fast)"}; const char *what = nm[op]; ev("%s len %zu", what, m.size());
        if ((op == 2 || op == 3 || op == 4 || op == 5 || op == 12 || op == 13) && m.empty()) continue;
        if (op == 18 && ls.size() < 2) continue;
        size_t partial = choose(3) == 2 ? choose(5) : 0; if (partial > m.size()) partial = m.size();
        OpResult r = run_op([&] { switch (op) {
            case 0: for (void *p : vals) vt_plist_push_back(v, p); break; case 1: for (void *p : vals) vt_plist_push_front(v, p); break; case 2: vt_plist_insert(v, val, at); break; case 3: vt_plist_set(v, val, at); break; case 4: vt_plist_remove(v, at, VT_REMOVE_STRATEGY_STABLE); break; case 5: vt_plist_remove(v, at, VT_REMOVE_STRATEGY_FAST); break; case 6: vt_plist_pop(v); break; case 7: got = vt_plist_pop_get(v); break;
            case 8: vt_plist_reserve(v, n); break; case 9: vt_plist_shrink(v); break; case 10: vt_plist_resize(v, n); break; case 11: vt_plist_clear(v); break; case 12: vt_plist_slide_reset(v); for (size_t i = 0; i < partial; i++) vt_plist_slide_front(v); d = vt_plist_dup(v, b ? al : nullptr); if (partial) { void *p; while ((p = vt_plist_slide_front(d)) && seq.size() <= m.size() + 2) seq.push_back(p); vt_plist_slide_reset(v); vt_plist_slide_reset(d); } break; case 13: got = vt_plist_get(v, at); break; case 14: idx = vt_plist_can_find(v, val); break;
            case 15: vt_plist_slide_reset(v); for (size_t i = 0; i < partial; i++) vt_plist_slide_front(v); if (partial) vt_plist_slide_reset(v); for (int rep = 0; rep < 2; rep++) { void *p; while ((p = vt_plist_slide_front(v)) && seq.size() <= 2 * m.size() + 2) seq.push_back(p); } break;
            case 16: vt_plist_slide_reset(v); for (size_t i = 0; i < partial; i++) vt_plist_slide_back(v); if (partial) vt_plist_slide_reset(v); for (int rep = 0; rep < 2; rep++) { void *p; while ((p = vt_plist_slide_back(v)) && seq.size() <= 2 * m.size() + 2) seq.push_back(p); } break;
            case 17: pseen.clear(); vt_plist_apply(v, on_papply); break; case 18: vt_plist_destroy(v); break; case 19: vt_plist_remove_element(v, val, VT_REMOVE_STRATEGY_STABLE); break; default: vt_plist_remove_element(v, val, VT_REMOVE_STRATEGY_FAST); } });
        must_return(r, what);
        auto resync = [&] { CHECK(v->len == m.size(), "wrong-length", "%s left length %zu instead of %zu", what, (size_t)v->len, m.size()); std::vector<void *> a(v->ptr2, v->ptr2 + m.size()), s1 = a, s2 = m; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end()); CHECK(s1 == s2, "wrong-element", "%s lost or duplicated another element", what); m = a; };
        switch (op) {
            case 0: m.insert(m.end(), vals.begin(), vals.end()); break; case 1: for (void *p : vals) m.insert(m.begin(), p); break; case 2: m.insert(m.begin() + at, val); break; case 3: m[at] = val; break; case 4: m.erase(m.begin() + at); break; case 5: m.erase(m.begin() + at); resync(); break;
            case 6: if (!m.empty()) m.pop_back(); break; case 7: if (m.empty()) CHECK(!got, "wrong-element", "%s on the empty list returned an element", what); else { CHECK(got == m.back(), "wrong-element", "%s did not return the last element", what); m.pop_back(); } break;
            case 8: CHECK(v->capacity >= n && v->capacity - m.size() >= n, "no-room", "%s(%zu) left capacity %zu for %zu elements", what, n, (size_t)v->capacity, m.size()); break; case 9: if (!m.empty()) CHECK(v->capacity == m.size(), "not-shrunk", "%s left capacity %zu for %zu elements", what, (size_t)v->capacity, m.size()); break;
            case 10: { size_t keep = std::min(n, m.size()); check_room(v, n, what); for (size_t i = 0; i < keep; i++) CHECK(v->ptr2[i] == m[i], "wrong-element", "%s(%zu) changed element %zu of %zu", what, n, i, m.size()); m.resize(keep); for (size_t i = keep; i < n; i++) { v->ptr2[i] = fresh(); m.push_back(v->ptr2[i]); } break; }
            case 11: m.clear(); break; case 12: CHECK(d && d != v && d->ptr2 != v->ptr2, "not-a-copy", "vt_plist_dup did not make a new list"); if (partial) CHECK(seq == m, "wrong-iteration", "a pass over the duplicate of a list in the middle of a pass visited %zu of %zu elements", seq.size(), m.size()); check_room(d, m.size(), what); for (size_t i = 0; i < m.size(); i++) CHECK(d->ptr2[i] == m[i], "wrong-element", "the duplicate differs at element %zu", i); if (ls.size() < 4) ls.push_back({d, m}); else must_return(run_op([&] { vt_plist_destroy(d); }), "vt_plist_destroy"); break;
            case 13: CHECK(got == m[at], "wrong-element", "%s(%zu) returned another element", what, at); break; case 14: { auto it = std::find(m.begin(), m.end(), val); int64_t e = it == m.end() ? -1 : it - m.begin(); CHECK(idx == e, "wrong-element", "%s returned %lld, expected %lld", what, (long long)idx, (long long)e); break; }
            case 15: case 16: { std::vector<void *> e = m; if (op == 16) std::reverse(e.begin(), e.end()); std::vector<void *> e2 = e; e2.insert(e2.end(), e.begin(), e.end()); CHECK(seq == e2, "wrong-iteration", "two passes of %s over %zu elements visited %zu elements%s", what, m.size(), seq.size(), seq.size() == e2.size() ? " in a wrong order" : ""); break; }
            case 17: CHECK(pseen.size() == m.size(), "wrong-iteration", "%s called the function %zu times for %zu elements", what, pseen.size(), m.size()); for (size_t i = 0; i < m.size(); i++) CHECK(pseen[i].second == i && pseen[i].first == m[i], "wrong-iteration", "%s passed another element at %zu", what, i); break;
            case 18: ls.erase(ls.begin() + w); continue; case 19: case 20: { auto it = std::find(m.begin(), m.end(), val); if (it != m.end()) m.erase(it); if (op == 20) resync(); break; } default: break; }
        for (auto &y : ls) {
            check_room(y.v, y.m.size(), what); size_t sp = 0, cp = 0, ln = 0; bool em = false; must_return(run_op([&] { sp = vt_plist_has_space(y.v); cp = vt_plist_capacity(y.v); ln = vt_plist_len(y.v); em = vt_plist_is_empty(y.v); }), "list queries");
            CHECK(ln == y.m.size() && cp == y.v->capacity && sp == cp - ln && em == y.m.empty(), "wrong-query", "%s: len %zu capacity %zu space %zu empty %d for %zu elements", what, ln, cp, sp, em, y.m.size());
            for (size_t i = 0; i < y.m.size(); i++) CHECK(y.v->ptr2[i] == y.m[i], "wrong-element", "after %s element %zu of %zu differs", what, i, y.m.size());
        }
        probe(what);
    }
    for (auto &x : ls) must_return(run_op([&] { vt_plist_destroy(x.v); }), "vt_plist_destroy");
}

// lengths beyond 16 bits, elements of several sizes
template <size_t ES> static void large_vector() {
    struct E { unsigned char b[ES]; bool operator==(const E &o) const { return !memcmp(b, o.b, ES); } }; vt_mallocator_t *al = gen_alloctr(); vt_vec_t *v = nullptr; std::vector<E> m; u64 salt = choose(1000);
    auto val = [&](u64 k) { E e; for (size_t i = 0; i < ES; i++) e.b[i] = (unsigned char)(mix(salt * 1000003 + k) >> (8 * (i % 8))); return e; };
    auto same = [&](const char *what) { check_room(v, m.size(), what); CHECK(!memcmp(v->ptr, m.data(), m.size() * ES), "wrong-element", "after %s an element of %zu (size %zu) differs", what, m.size(), ES); };
    size_t n = 65536 + (choose(3) ? (size_t)range(-20, 20) : choose(20000)), n0 = choose(2) ? n : 1 + choose(100); must_return(run_op([&] { v = vt_vec_create(n0, ES, al); }), "vt_vec_create");
    if (choose(2)) { must_return(run_op([&] { for (size_t i = 0; i < n; i++) { E e = val(i); vt_vec_push_back(v, &e); } }), "vt_vec_push_back"); for (size_t i = 0; i < n; i++) m.push_back(val(i)); }
    else { must_return(run_op([&] { vt_vec_resize(v, n); }), "vt_vec_resize"); check_room(v, n, "vt_vec_resize"); for (size_t i = 0; i < n; i++) { m.push_back(val(i)); memcpy((char *)v->ptr + i * ES, &m[i], ES); } }
    same("filling");
    for (int k = 4 + (int)choose(20); k-- > 0;) {
        u32 op = choose(10); size_t at = choose(3) ? m.size() - 1 - choose(60) : choose((u32)m.size()); E e = val(1u << 20 | choose(1u << 20)), got; int64_t idx = 0; size_t c = 1 + choose(60); char *p = nullptr; bool nul = false; vt_vec_t *d = nullptr; static const char *nm[] = {"vt_vec_push_back", "vt_vec_push_front", "vt_vec_insert", "vt_vec_set", "vt_vec_remove", "vt_vec_pop_get", "vt_vec_get", "vt_vec_can_find", "vt_vec_dup", "vt_vec_resize"}; ev("%s at %zu of %zu", nm[op], at, m.size()); if (op == 7) e = m[at]; size_t nl = 65536 + (size_t)range(-10, 10);
        must_return(run_op([&] { switch (op) { case 0: for (size_t i = 0; i < c; i++) vt_vec_push_back(v, &e); break; case 1: vt_vec_push_front(v, &e); break; case 2: vt_vec_insert(v, &e, at); break; case 3: vt_vec_set(v, &e, at); break; case 4: vt_vec_remove(v, at, VT_REMOVE_STRATEGY_STABLE); break; case 5: p = (char *)vt_vec_pop_get(v); nul = !p; if (p) memcpy(&got, p, ES); break; case 6: memcpy(&got, vt_vec_get(v, at), ES); break; case 7: idx = vt_vec_can_find(v, &e); break; case 8: d = vt_vec_dup(v, al); break; default: vt_vec_resize(v, nl); } }), nm[op]);
        switch (op) { case 0: m.insert(m.end(), c, e); break; case 1: m.insert(m.begin(), e); break; case 2: m.insert(m.begin() + at, e); break; case 3: m[at] = e; break; case 4: m.erase(m.begin() + at); break; case 5: CHECK(!nul && got == m.back(), "wrong-element", "pop of element %zu returned another", m.size() - 1); m.pop_back(); break; case 6: CHECK(got == m[at], "wrong-element", "element %zu of %zu differs", at, m.size()); break;
            case 7: { int64_t w = std::find(m.begin(), m.end(), e) - m.begin(); CHECK(idx == w, "wrong-element", "vt_vec_can_find returned %lld, expected %lld", (long long)idx, (long long)w); break; } case 8: check_room(d, m.size(), nm[op]); CHECK(!memcmp(d->ptr, m.data(), m.size() * ES), "wrong-element", "the duplicate of %zu elements differs", m.size()); must_return(run_op([&] { vt_vec_destroy(d); }), "vt_vec_destroy"); break;
            default: { size_t keep = std::min(nl, m.size()); check_room(v, nl, nm[op]); CHECK(!memcmp(v->ptr, m.data(), keep * ES), "wrong-element", "resizing to %zu changed an element", nl); m.resize(keep); for (size_t i = keep; i < nl; i++) { m.push_back(val(i)); memcpy((char *)v->ptr + i * ES, &m[i], ES); } } }
        same(nm[op]);
    }
    size_t seenf = 0; bool okf = true; must_return(run_op([&] { char *p; while ((p = (char *)vt_vec_slide_front(v)) && seenf < m.size()) { okf &= !memcmp(p, &m[seenf], ES); seenf++; } }), "vt_vec_slide_front"); CHECK(okf && seenf == m.size(), "wrong-iteration", "a pass over %zu elements visited %zu", m.size(), seenf);
    seenf = 0; must_return(run_op([&] { char *p; vt_vec_slide_reset(v); while (seenf < m.size() && (p = (char *)vt_vec_slide_back(v))) { okf &= !memcmp(p, &m[m.size() - 1 - seenf], ES); seenf++; } }), "vt_vec_slide_back"); CHECK(okf && seenf == m.size(), "wrong-iteration", "a backward pass over %zu elements visited %zu", m.size(), seenf);
    must_return(run_op([&] { vt_vec_destroy(v); }), "vt_vec_destroy"); probe("more than 65535 elements");
}
RARE_SCENARIO("C18", c18_large, 3) {
    mem_config(); vt_debug_disable_output(true); more_cpu(60);
    switch (choose(5)) { case 0: large_vector<1>(); return; case 1: large_vector<3>(); return; case 2: large_vector<8>(); return; case 3: large_vector<40>(); return; default: break; }
    vt_mallocator_t *al = gen_alloctr(); vt_plist_t *v = nullptr; std::vector<void *> m; size_t n = 65536 + (size_t)range(-20, 300); must_return(run_op([&] { v = vt_plist_create(1 + choose(200), al); for (size_t i = 0; i < n; i++) vt_plist_push_back(v, (void *)(8 * (i + 1))); }), "vt_plist_push_back"); for (size_t i = 0; i < n; i++) m.push_back((void *)(8 * (i + 1)));
    for (int k = 4 + (int)choose(20); k-- > 0;) {
        u32 op = choose(7); size_t at = choose(3) ? m.size() - 1 - choose(60) : choose((u32)m.size()); void *e = (void *)(uintptr_t)(0x900000 + 8 * choose(5000)), *got = nullptr; int64_t idx = 0; static const char *nm[] = {"vt_plist_push_back", "vt_plist_push_front", "vt_plist_insert", "vt_plist_remove", "vt_plist_pop_get", "vt_plist_get", "vt_plist_can_find"}; if (op == 6) e = m[at];
        must_return(run_op([&] { switch (op) { case 0: vt_plist_push_back(v, e); break; case 1: vt_plist_push_front(v, e); break; case 2: vt_plist_insert(v, e, at); break; case 3: vt_plist_remove(v, at, VT_REMOVE_STRATEGY_STABLE); break; case 4: got = vt_plist_pop_get(v); break; case 5: got = vt_plist_get(v, at); break; default: idx = vt_plist_can_find(v, e); } }), nm[op]);
        switch (op) { case 0: m.push_back(e); break; case 1: m.insert(m.begin(), e); break; case 2: m.insert(m.begin() + at, e); break; case 3: m.erase(m.begin() + at); break; case 4: CHECK(got == m.back(), "wrong-element", "pop of element %zu returned another", m.size() - 1); m.pop_back(); break; case 5: CHECK(got == m[at], "wrong-element", "element %zu of %zu differs", at, m.size()); break; default: { int64_t w = std::find(m.begin(), m.end(), e) - m.begin(); CHECK(idx == w, "wrong-element", "vt_plist_can_find returned %lld, expected %lld", (long long)idx, (long long)w); } }
        check_room(v, m.size(), nm[op]); CHECK(!memcmp(v->ptr, m.data(), m.size() * sizeof(void *)), "wrong-element", "after %s an element of %zu differs", nm[op], m.size());
    }
    for (int back = 0; back < 2; back++) { size_t k = 0; bool ok = true; must_return(run_op([&] { void *p; vt_plist_slide_reset(v); while (k < m.size() && (p = back ? vt_plist_slide_back(v) : vt_plist_slide_front(v))) { ok &= p == m[back ? m.size() - 1 - k : k]; k++; } }), "sliding over a pointer list"); CHECK(ok && k == m.size(), "wrong-iteration", "a %s pass over %zu entries visited %zu", back ? "backward" : "forward", m.size(), k); }
    must_return(run_op([&] { vt_plist_destroy(v); }), "vt_plist_destroy"); probe("more than 65535 entries");
}
