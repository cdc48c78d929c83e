// C26: arguments outside an array. Every access and edit of the array-like types, for every
// size and window position, with indices and counts inside, at and far beyond the edges. An access
// outside stops the program before it touches anything (an assertion, or the checked trap of
// release builds); an edit or slice either stops or acts as if its arguments had been clamped.
#define FV_LIB 1
#define RANGES 0
#include "vec_hist.cpp"
#include <csetjmp>
#include <climits>
#include <signal.h>

typedef fu::vec_range<T> CR; typedef fu::vec_range_mut<T> MR;
typedef fu::view<T> VW; typedef fu::view_mut<T> VM;

static sigjmp_buf g_jump; static volatile int g_armed; static volatile int g_how; static void* volatile g_where;
extern "C" void __assert_fail(const char* e, const char* f, unsigned l, const char*) noexcept {
    if (g_armed) { g_armed = 0; g_how = 1; siglongjmp(g_jump, 1); }
    fprintf(stderr, "assertion %s at %s:%u\n", e, f, l); abort();
}
static void on_segv(int, siginfo_t* si, void*) {
    if (g_armed) { g_armed = 0; g_how = 2; g_where = si->si_addr; siglongjmp(g_jump, 1); }
    signal(SIGSEGV, SIG_DFL); signal(SIGBUS, SIG_DFL); raise(SIGSEGV);
}
// Runs f; true if it was stopped. A stop by a fault must be the trap at address 1, not a stray access.
template <typename F> static bool stops(F&& f) {
    struct sigaction sa {}, old {}, oldb {}; sa.sa_sigaction = on_segv; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigemptyset(&sa.sa_mask);
    sigaction(SIGSEGV, &sa, &old); sigaction(SIGBUS, &sa, &oldb);
    volatile bool stopped = false;
    if (sigsetjmp(g_jump, 1) == 0) { g_how = 0; g_armed = 1; asm volatile("" ::: "memory"); f(); asm volatile("" ::: "memory"); g_armed = 0; }
    else stopped = true;
    sigaction(SIGSEGV, &old, nullptr); sigaction(SIGBUS, &oldb, nullptr);
    if (stopped && g_how == 2) FV_CHECK((size_t) g_where < 4096, "a stray memory access at %p", (void*) g_where);
    return stopped;
}
static i clamp(i x, i lo, i hi) { return x < lo ? lo : x > hi ? hi : x; }
static i edge(i n, const char* = "") { return pick({ 0, 1, n - 1, n, n + 1, n + 40, -1, -n - 1, INT_MAX, INT_MAX - 1, INT_MIN, INT_MIN + 1 }, INT_MIN, INT_MAX); }
static bool g_stopped, g_moved;

static void same(const V& v, const Model& m, const char* what) {
    FV_CHECK(v.size() == (i) m.size(), "%s: size %d, expected %zu", what, v.size(), m.size());
    for (i k = 0; k < v.size(); k++) { uint32_t got = E::get(v.data()[k]); FV_CHECK(got == m[(size_t) k], "%s[%d]: got 0x%x, expected 0x%x", what, k, got, m[(size_t) k]); }
}
// [idx] on anything: inside it is the element, outside it stops
template <typename W> static void at(W& w, const Model& m, i k, bool mut) {
    i n = (i) m.size(); bool in = k >= 0 && k < n; uint32_t got = 0;
#if fu_RETAIL
    if (!in) throw fv::Prune{};     // retail builds do not check
#endif
    bool s = mut ? stops([&] { if constexpr (!std::is_const<W>::value) { got = E::get(w.mutref(k)); asm volatile("" : : "r"(got) : "memory"); } })
                 : stops([&] { got = E::get(((const W&) w)[k]); asm volatile("" : : "r"(got) : "memory"); });
    if (in) FV_CHECK(!s && got == m[(size_t) k], "[%d] of %d elements: %s", k, n, s ? "stopped" : "another element");
#if !fu_RETAIL
    else FV_CHECK(s, "[%d] of %d elements gave something (0x%x)", k, n, got);
#endif
}
template <typename W> static bool slice_of(const W& q, const Model& m, i a, i b, i n) {
    b = clamp(b, 0, n); a = clamp(a, 0, b);
    FV_CHECK(q.size() == b - a, "[%d .. %d] of %d: size %d", a, b, n, q.size());
    for (i k = 0; k < b - a; k++) FV_CHECK(E::get(q.data()[k]) == m[(size_t)(a + k)], "slice element %d", k);
    return true;
}
static bool inside(i a, i b, i n) { return a >= 0 && a <= b && b <= n; }
#define MUST(ok, s) do { FV_CHECK(!((ok) && (s)), "stopped although its arguments are inside"); g_stopped = (s); } while (0)

template <typename W> static void slices(const W& w, const Model& m) {
    i n = (i) m.size(), a = edge(n), b = edge(n);
    switch (fv::X->choose(8)) {
    case 7: if constexpr (std::is_same<W, V>::value) { V q; N("slice(moved, %d, %d) of %d", a, b, n); bool s = stops([&] { q = fu::slice(static_cast<V&&>((V&) w), a, b); }); MUST(inside(a, b, n), s); if (!s) { i e = clamp(b, 0, n), f = clamp(a, 0, n); same(q, f < e ? sub(m, f, e) : Model(), "slice"); } g_moved = true; break; } else throw fv::Prune{};
    case 0: { VW q; N("view [%d .. %d] of %d", a, b, n); bool s = stops([&] { q = fu::get_view(w, a, b); }); MUST(inside(a, b, n), s); if (!s) slice_of(q, m, a, b, n); break; }
    case 1: { VW q; N("view [%d ..] of %d", a, n); bool s = stops([&] { q = fu::get_view(w, a); }); MUST(inside(a, n, n), s); if (!s) slice_of(q, m, a, n, n); break; }
    case 2: { VW q; N("view [.. %d] of %d", b, n); bool s = stops([&] { q = fu::get_view_start0(w, b); }); MUST(inside(0, b, n), s); if (!s) slice_of(q, m, 0, b < 0 ? 0 : b, n); break; }
    case 3: if constexpr (std::is_same<W, V>::value || std::is_same<W, CR>::value || std::is_same<W, MR>::value) { CR q; N("window [%d .. %d] of %d", a, b, n); bool s = stops([&] { q = fu::get_range(w, a, b); }); MUST(inside(a, b, n), s); if (!s) slice_of(q, m, a, b, n); break; } else throw fv::Prune{};
    case 4: if constexpr (std::is_same<W, V>::value || std::is_same<W, CR>::value || std::is_same<W, MR>::value) { CR q; N("window [%d ..] of %d", a, n); bool s = stops([&] { q = fu::get_range(w, a); }); MUST(inside(a, n, n), s); if (!s) slice_of(q, m, a, n, n); break; } else throw fv::Prune{};
    case 5: if constexpr (std::is_same<W, V>::value || std::is_same<W, CR>::value || std::is_same<W, MR>::value) { CR q; N("window [.. %d] of %d", b, n); bool s = stops([&] { q = fu::get_range_start0(w, b); }); MUST(inside(0, b, n), s); if (!s) slice_of(q, m, 0, b < 0 ? 0 : b, n); break; } else throw fv::Prune{};
    case 6: if constexpr (std::is_same<W, V>::value && COPY) { V q; N("slice(%d, %d) of %d", a, b, n); bool s = stops([&] { q = fu::slice(w, a, b); }); MUST(inside(a, b, n), s);
            if (!s) { i e = clamp(b, 0, n), f = clamp(a, 0, n); same(q, f < e ? sub(m, f, e) : Model(), "slice"); } break; } else throw fv::Prune{};
    }
}
template <typename W> static void slices_mut(W& w, const Model& m) {
    i n = (i) m.size(), a = edge(n), b = edge(n);
    switch (fv::X->choose(6)) {
    case 0: { VM q; N("mutable view [%d .. %d] of %d", a, b, n); bool s = stops([&] { q = fu::get_view_mut(w, a, b); }); MUST(inside(a, b, n), s); if (!s) slice_of(q, m, a, b, n); break; }
    case 1: { VM q; N("mutable view [%d ..] of %d", a, n); bool s = stops([&] { q = fu::get_view_mut(w, a); }); MUST(inside(a, n, n), s); if (!s) slice_of(q, m, a, n, n); break; }
    case 2: { VM q; N("mutable view [.. %d] of %d", b, n); bool s = stops([&] { q = fu::get_view_start0_mut(w, b); }); MUST(inside(0, b, n), s); if (!s) slice_of(q, m, 0, b < 0 ? 0 : b, n); break; }
    case 3: if constexpr (!std::is_same<W, VM>::value) { MR q; N("mutable window [%d .. %d] of %d", a, b, n); bool s = stops([&] { q.ptr_reassign(fu::get_range_mut(w, a, b)); }); MUST(inside(a, b, n), s); if (!s) slice_of(q, m, a, b, n); break; } else throw fv::Prune{};
    case 4: if constexpr (!std::is_same<W, VM>::value) { MR q; N("mutable window [%d ..] of %d", a, n); bool s = stops([&] { q.ptr_reassign(fu::get_range_mut(w, a)); }); MUST(inside(a, n, n), s); if (!s) slice_of(q, m, a, n, n); break; } else throw fv::Prune{};
    case 5: if constexpr (!std::is_same<W, VM>::value) { MR q; N("mutable window [.. %d] of %d", b, n); bool s = stops([&] { q.ptr_reassign(fu::get_range_start0_mut(w, b)); }); MUST(inside(0, b, n), s); if (!s) slice_of(q, m, 0, b < 0 ? 0 : b, n); break; } else throw fv::Prune{};
    }
}
// an edit of the window [left, left + n) of all (or of the whole array)
template <typename W> static void edits(State& s, W& w, Model& all, i left, i n, V& src, Model& srcm) {
    constexpr bool WHOLE = std::is_same<W, V>::value;
    i a = edge(n), b = 0; bool st;
    auto cut = [&](i from, i del, const Model& ins) { m_splice(all, left + from, del, ins); };
    switch (fv::X->choose(14)) {
    case 0: { uint32_t t = s.fresh(); N("insert(%d) into %d", a, n); st = stops([&] { w.insert(a, E::mk(t)); }); MUST(inside(0, a, n), st); if (!st) cut(clamp(a, 0, n), 0, Model{ E::norm(t) }); break; }
    case 1: { b = edge(n); N("splice(%d, %d) of %d", a, b, n); st = stops([&] { w.splice(a, b); }); MUST(a >= 0 && a <= n && b >= 0 && b <= n - a, st); if (!st) { i x = clamp(a, 0, n); cut(x, clamp(b, 0, n - x), {}); } break; }
    case 2: if constexpr (COPY) { b = edge(n); N("splice(%d, %d, array) of %d", a, b, n); st = stops([&] { w.splice(a, b, (const V&) src); }); MUST(a >= 0 && a <= n && b >= 0 && b <= n - a, st); if (!st) { i x = clamp(a, 0, n); cut(x, clamp(b, 0, n - x), srcm); } break; } else throw fv::Prune{};
    case 3: { b = edge(n); N("splice(%d, %d, moved array) of %d", a, b, n); st = stops([&] { w.splice(a, b, static_cast<V&&>(src)); }); MUST(a >= 0 && a <= n && b >= 0 && b <= n - a, st); if (!st) { i x = clamp(a, 0, n); cut(x, clamp(b, 0, n - x), srcm); } break; }
    case 4: if constexpr (COPY) { N("append(drop %d, array) to %d", a, n); st = stops([&] { w.append(a, (const V&) src); }); MUST(inside(0, a, n), st); if (!st) { i d = clamp(a, 0, n); cut(n - d, d, srcm); } break; } else throw fv::Prune{};
    case 5: { N("append(drop %d, moved array) to %d", a, n); st = stops([&] { w.append(a, static_cast<V&&>(src)); }); MUST(inside(0, a, n), st); if (!st) { i d = clamp(a, 0, n); cut(n - d, d, srcm); } break; }
    case 6: { N("pop of %d", n); if (a) throw fv::Prune{}; st = stops([&] { w.pop(); }); MUST(n > 0, st); if (!st && n) cut(n - 1, 1, {}); break; }
    case 7: { N("shrink(%d) of %d", a, n); st = stops([&] { w.shrink(a); }); MUST(inside(0, a, n), st); if (!st) { i k = clamp(a, 0, n); cut(k, n - k, {}); } break; }
    case 8: { N("resize(%d) of %d", a, n); if (a > n + 40) throw fv::Prune{}; st = stops([&] { w.resize(a); }); MUST(a >= 0, st); if (!st) { i k = a < 0 ? 0 : a; if (k <= n) cut(k, n - k, {}); else cut(n, 0, Model((size_t)(k - n), 0)); } break; }
    case 9: { N("grow(%d) of %d", a, n); if (a > n + 40) throw fv::Prune{}; st = stops([&] { w.grow(a); }); MUST(a >= n, st); if (!st) { i k = a < n ? n : a; cut(n, 0, Model((size_t)(k - n), 0)); } break; }
    case 10: if constexpr (WHOLE) { N("shift(%d) of %d", a, n); st = stops([&] { w.shift(a); }); MUST(inside(0, a, n), st); if (!st) cut(0, clamp(a, 0, n), {}); break; } else throw fv::Prune{};
    case 11: if constexpr (WHOLE) { b = edge(n); N("shift_pop(%d, %d) of %d", a, b, n); st = stops([&] { w.shift_pop(a, b); }); MUST(a >= 0 && a <= n && b >= 0 && b <= n - a, st); if (!st) { i x = clamp(a, 0, n), y = clamp(b, 0, n - x); cut(n - y, y, {}); cut(0, x, {}); } break; } else throw fv::Prune{};
    case 13: if constexpr (WHOLE) { N("shift of %d", n); if (a) throw fv::Prune{}; st = stops([&] { w.shift(); }); MUST(n > 0, st); if (!st && n) cut(0, 1, {}); break; } else throw fv::Prune{};
    case 12: if constexpr (WHOLE) { N("splice_empty(%d, 1, 2) of %d", a, n); st = stops([&] { w.splice_empty(a, (i)1, (i)2); }); MUST(a >= 0 && a < n, st); if (!st) { i x = clamp(a, 0, n); cut(x, clamp(1, 0, n - x), Model(2, 0)); } break; } else throw fv::Prune{};
    }
}

static void bounds_body() {
    fvmem::tracking = true; g_live = 0; g_stopped = g_moved = false;
    State* sp = new State;       // leaked when an operation is stopped midway
    try {
        State& s = *sp; V& v = s.v[0]; Model& m = s.m[0];
        i n = pick({ 0, 1, 2, SMALL, SMALL + 1 }, 0, 1000), left = pick({ 0, 2 }, 0, 2), right = left ? fv::X->choose(2) : 0;
        setup_fill(s, 0, n + left + right);
        bool shared = false;
        if constexpr (COPY) if (fv::X->choose(2)) { shared = true; s.v[2] = (const V&) v; s.m[2] = m; N("shared"); }
        Model part = sub(m, left, left + n);
        int kind = fv::X->choose(3), form = fv::X->choose(7);
        N("%d elements%s", n, left ? ", a window with neighbours" : "");
        if ((left || right) && (form == 0 || form == 6)) throw fv::Prune{};
        if (!left && form > 4 && form != 6) throw fv::Prune{};
        MR r = left || right ? fu::get_range_mut(v, left, left + n) : MR(v); CR cr = r;
        if (kind == 0) {
            i k = edge(n); bool mut = fv::X->choose(2);
            if (shared && mut && (form == 0 || form == 3)) { v.reserve(); }
            switch (form) {
            case 0: N("array[%d]%s", k, mut ? " (mutable)" : ""); at(v, part, k, mut); break;
            case 1: { if (mut) throw fv::Prune{}; VW w = fu::get_view((const V&) v, left, left + n); N("view[%d]", k); const VW& c = w; at(c, part, k, false); break; }
            case 2: { VM w = fu::get_view_mut(v, left, left + n); N("mutable view[%d]%s", k, mut ? " (mutable)" : ""); at(w, part, k, mut); break; }
            case 3: N("mutable window[%d]%s", k, mut ? " (mutable)" : ""); at(r, part, k, mut); break;
            case 4: { if (mut) throw fv::Prune{}; N("window[%d]", k); const CR& c = cr; at(c, part, k, false); break; }
            case 6: if constexpr (std::is_same<T, fu::byte>::value) { if (mut) throw fv::Prune{}; std::string z; for (auto x : part) z += (char) x; z += "tail"; fu::strlit l { z.data(), n }; N("literal[%d]", k); const fu::strlit& c = l; at(c, part, k, false); break; } else {
                if (n != 2) throw fv::Prune{}; uint32_t t = s.fresh(), u = s.fresh(); auto* sl = new fu::slate<2, T> { { E::mk(t), E::mk(u) } }; Model sm { E::norm(t), E::norm(u) }; N("slate[%d]%s", k, mut ? " (mutable)" : ""); at(*sl, sm, k, mut); delete sl; break; }
            default: throw fv::Prune{};
            }
        } else if (kind == 1) {
            bool mut = fv::X->choose(2);
            switch (form) {
            case 0: if (mut) slices_mut(v, part); else slices((const V&) v, part); break;
            case 1: { if (mut) throw fv::Prune{}; VW w = fu::get_view((const V&) v, left, left + n); slices((const VW&) w, part); break; }
            case 2: { VM w = fu::get_view_mut(v, left, left + n); if (mut) slices_mut(w, part); else slices((const VM&) w, part); break; }
            case 3: if (mut) slices_mut(r, part); else slices((const MR&) r, part); break;
            case 4: if (mut) throw fv::Prune{}; slices((const CR&) cr, part); break;
            default: throw fv::Prune{};
            }
        } else {
            setup_fill(s, 1, pick({ 1, 0, SMALL + 1 }, 0, 1000)); Model srcm = s.m[1];
            if (form == 0) edits(s, v, m, 0, n, s.v[1], srcm);
            else if (form == 3) edits(s, r, m, left, n, s.v[1], srcm);
            else throw fv::Prune{};
            if (!g_stopped) { if (s.v[1].size() == 0) s.m[1].clear(); }
        }
        if (!g_stopped && !g_moved) { same(v, m, "array"); }
        if (shared) same(s.v[2], s.m[2], "copy of the array");
        fv::X->ops++; { fv::Hash h; for (auto p : fv::X->path) h.add((uint64_t) p); fv::seen_add(h.h); }
        bool stopped = g_stopped;
        if (!stopped) { delete sp; sp = nullptr; }
        const char* leak = fvmem::end_of_run(); long live = g_live; fvmem::tracking = false;
        if (!stopped && kind == 2) {
            if (leak) fv::fail(std::string("after all handles are gone: ") + leak);
            if (live) fv::fail("after all handles are gone: " + std::to_string(live) + " elements were not destroyed exactly once");
        }
    }
    catch (fv::Prune&) { fvmem::end_of_run(); fvmem::tracking = false; throw; }
    catch (fv::Violation&) { fvmem::end_of_run(); fvmem::tracking = false; throw; }
}
int main(int argc, char** argv) {
    int workers = 1; double seconds = 1e9; std::string rp; bool do_replay = false;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k];
        if (a == "--workers") workers = atoi(argv[++k]);
        else if (a == "--seconds") seconds = atof(argv[++k]);
        else if (a == "--replay") { rp = argv[++k]; do_replay = true; }
    }
    if (do_replay) { auto r = fv::replay(bounds_body, rp); printf("%s%s\n", r.trace.c_str(), r.violated ? ("=> " + r.msg).c_str() : "=> held"); return r.violated; }
    fv::seen_init();
    char label[200]; snprintf(label, sizeof label, "%s: arguments outside", TN);
    return fv::run(label, bounds_body, workers, seconds);
}
