// C01: every bounded history of array operations over aliasing handles, on the
// real include/fu/vec.h, against std::vector as the value-semantics oracle.
// -DELEM=0..7 picks the element type; -DRANGES=1 builds the C02 variant.
#include "fvmem.h"
#include <fu/str.h>
#include <fu/vec.h>
#include <fu/vec_range.h>
#include <fu/view.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/LEGACY_slice.h>
#include <fu/mem/arc.cpp>
#include <fu/mem/memswap.cpp>
#include <algorithm>

using fu::i;
typedef std::vector<uint32_t> Model;

// ---- element types -------------------------------------------------------
struct Big24 { uint64_t a, b, c; };

static long g_live;      // owned cells
struct Owned {           // copiable, owns a heap cell; all-zero is the default value
    uint32_t* p = nullptr;
    Owned() = default;
    explicit Owned(uint32_t t) { p = (uint32_t*) malloc(8); p[0] = t; p[1] = ~t; g_live++; }
    Owned(const Owned& o) { if (o.p) { chk(o.p); p = (uint32_t*) malloc(8); p[0] = o.p[0]; p[1] = o.p[1]; g_live++; } }
    Owned(Owned&& o) noexcept { p = o.p; o.p = nullptr; }
    Owned& operator=(const Owned& o) { if (this != &o) { Owned t(o); std::swap(p, t.p); } return *this; }
    Owned& operator=(Owned&& o) noexcept { std::swap(p, o.p); return *this; }
    ~Owned() { if (p) { chk(p); p[1] = 0; free(p); g_live--; p = nullptr; } }
    static void chk(const uint32_t* q) { if (q[1] != ~q[0]) fv::fatal("an element was copied or destroyed after its end of life"); }
};
struct Moved : Owned {   // the same but not copiable
    Moved() = default;
    explicit Moved(uint32_t t) : Owned(t) {}
    Moved(const Moved&) = delete; Moved& operator=(const Moved&) = delete;
    Moved(Moved&&) noexcept = default; Moved& operator=(Moved&&) noexcept = default;
};

template <typename T> struct El;
template <> struct El<fu::byte> { static fu::byte mk(uint32_t t) { return (fu::byte)(t & 0xff); } static uint32_t get(const fu::byte& v) { return (unsigned char) v; } static uint32_t norm(uint32_t t) { return t & 0xff; } };
template <> struct El<uint16_t> { static uint16_t mk(uint32_t t) { return (uint16_t)(t * 257); } static uint32_t get(const uint16_t& v) { return v; } static uint32_t norm(uint32_t t) { return (uint16_t)(t * 257); } };
template <> struct El<int> { static int mk(uint32_t t) { return (int)(t * 0x01010101u); } static uint32_t get(const int& v) { return (uint32_t)v; } static uint32_t norm(uint32_t t) { return t * 0x01010101u; } };
template <> struct El<uint64_t> { static uint64_t mk(uint32_t t) { return t * 0x0101010101010101ull; } static uint32_t get(const uint64_t& v) { return (uint32_t)v == (uint32_t)(v >> 32) ? (uint32_t)v : 0xbadbad; } static uint32_t norm(uint32_t t) { return t * 0x01010101u; } };
template <> struct El<Big24> { static Big24 mk(uint32_t t) { return { t, ~(uint64_t)t, t * 3ull }; } static uint32_t get(const Big24& v) { return (!v.a && !v.b && !v.c) ? 0 : (v.b == ~v.a && v.c == v.a * 3) ? (uint32_t) v.a : 0xbadbad; } static uint32_t norm(uint32_t t) { return t; } };
template <> struct El<Owned> { static Owned mk(uint32_t t) { return Owned(t); } static uint32_t get(const Owned& v) { if (!v.p) return 0; Owned::chk(v.p); return v.p[0]; } static uint32_t norm(uint32_t t) { return t; } };
template <> struct El<Moved> { static Moved mk(uint32_t t) { return Moved(t); } static uint32_t get(const Moved& v) { if (!v.p) return 0; Owned::chk(v.p); return v.p[0]; } static uint32_t norm(uint32_t t) { return t; } };
template <> struct El<fu::str> {
    static fu::str mk(uint32_t t) { fu::str s; i n = (i)(t % 2 ? 3 : 20); for (i k = 0; k < n; k++) s.push((fu::byte)(t + (uint32_t)k)); return s; }
    static uint32_t get(const fu::str& s) {
        if (!s.size()) return 0;
        uint32_t t = s.data()[0];
        if (s.size() != (i)(t % 2 ? 3 : 20)) return 0xbadbad;
        for (i k = 0; k < s.size(); k++) if (s.data()[k] != (fu::byte)(t + (uint32_t)k)) return 0xbadbad;
        return t;
    }
    static uint32_t norm(uint32_t t) { return t & 0xff; }
};

#ifndef ELEM
#define ELEM 0
#endif
#if   ELEM == 0
typedef fu::byte T;  static const char* TN = "byte";
#elif ELEM == 1
typedef int T;       static const char* TN = "i32";
#elif ELEM == 2
typedef uint64_t T;  static const char* TN = "u64";
#elif ELEM == 3
typedef Big24 T;     static const char* TN = "24-byte struct";
#elif ELEM == 4
typedef Owned T;     static const char* TN = "owning element";
#elif ELEM == 5
typedef fu::str T;   static const char* TN = "string";
#elif ELEM == 6
typedef Moved T;     static const char* TN = "non-copiable element";
#elif ELEM == 7
typedef uint16_t T;  static const char* TN = "u16";
#endif

typedef El<T> E;
typedef fu::vec<T> V;
static constexpr bool COPY = std::is_copy_constructible<T>::value;
static constexpr i SMALL = (std::is_trivially_destructible<T>::value && alignof(T) <= 8) ? 15 / (i)sizeof(T) : 0;
static i FULL;       // a size at which one more push reallocates

static constexpr int K = 3;
struct State {
    V     v[K];
    Model m[K];
    uint32_t tag = 0;
    uint32_t fresh() { tag = tag % 200 + 1; return tag; }
};

static void verify(State& s) {
    for (int h = 0; h < K; h++) {
        i n = s.v[h].size();
        FV_CHECK(n == (i)s.m[h].size(), "handle %c: size %d, expected %zu", 'a' + h, n, s.m[h].size());
        const T* d = ((const V&)s.v[h]).data();
        for (i k = 0; k < n; k++) {
            uint32_t got = E::get(d[k]);
            FV_CHECK(got == s.m[h][(size_t)k], "handle %c[%d]: got 0x%x, expected 0x%x (size %d)", 'a' + h, k, got, s.m[h][(size_t)k], n);
        }
        FV_CHECK((bool)s.v[h] == !s.m[h].empty(), "handle %c: truthiness does not match its size", 'a' + h);
    }
}

static void setup_fill(State& s, int h, i n) {
    for (i k = 0; k < n; k++) { uint32_t t = s.fresh(); s.v[h].push(E::mk(t)); s.m[h].push_back(E::norm(t)); }
}

// ---- choice helpers ------------------------------------------------------
static i pick(std::initializer_list<i> opts, i lo, i hi, const char* what = "") {
    i set[16]; int n = 0;
    for (i o : opts) { if (o < lo || o > hi) continue; bool dup = false; for (int k = 0; k < n; k++) dup |= set[k] == o; if (!dup) set[n++] = o; }
    return set[fv::X->choose(n, what)];
}
static Model sub(const Model& m, i a, i b) { return Model(m.begin() + a, m.begin() + b); }
static void m_splice(Model& m, i at, i del, const Model& ins) {
    m.erase(m.begin() + at, m.begin() + at + del);
    m.insert(m.begin() + at, ins.begin(), ins.end());
}
static std::vector<T> g_none;

// reduced: fewer parameter values
static bool REDUCED;

#define N(...) fv::X->note(__VA_ARGS__)

static void op_one(State& s, int h) {
    V& v = s.v[h]; Model& m = s.m[h]; i n = v.size(); char c = (char)('a' + h);
    switch (fv::X->choose(REDUCED ? 14 : 24)) {
    case 0: { uint32_t t = s.fresh(); N("%c.push(#%u)", c, t); v.push(E::mk(t)); m.push_back(E::norm(t)); return; }
    case 1: { if (!n) throw fv::Prune{}; N("%c.pop()", c); v.pop(); m.pop_back(); return; }
    case 2: { if (!n) throw fv::Prune{}; i k = pick({n / 2, n - 1, 0}, 0, n - 1); uint32_t t = s.fresh(); N("%c[%d] = #%u", c, k, t); v.mutref(k) = E::mk(t); m[(size_t)k] = E::norm(t); return; }
    case 3: { i at = pick({0, n / 2, n}, 0, n); uint32_t t = s.fresh(); N("%c.insert(%d, #%u)", c, at, t); v.insert(at, E::mk(t)); m.insert(m.begin() + at, E::norm(t)); return; }
    case 4: { i at = pick(REDUCED ? std::initializer_list<i>{0, 1, n - 1} : std::initializer_list<i>{0, 1, n / 2, n - 1, n}, 0, n);
              i dl = pick(REDUCED ? std::initializer_list<i>{1, n - at} : std::initializer_list<i>{0, 1, 2, n - at}, 0, n - at);
              N("%c.splice(%d, %d)", c, at, dl); v.splice(at, dl); m.erase(m.begin() + at, m.begin() + at + dl); return; }
    case 5: { i to = pick(REDUCED ? std::initializer_list<i>{0, SMALL, SMALL + 1, n + 1} : std::initializer_list<i>{0, 1, SMALL, SMALL + 1, n - 1, n, n + 1, FULL, FULL + 1}, 0, 1000);
              N("%c.resize(%d)", c, to); v.resize(to); m.resize((size_t)to, 0); return; }
    case 6: { N("%c.clear()", c); v.clear(); m.clear(); return; }
    case 7: { N("%c.reserve()  [take sole ownership]", c); v.reserve(); return; }
    case 8: {
        if constexpr (COPY) {
            i a = pick({0, 1, n / 2}, 0, n), b = pick({a, n - 1, n}, a, n);
            N("%c ~= %c[%d .. %d]  [append part of itself]", c, c, a, b);
            Model x = sub(m, a, b);
            v.append(fu_ZERO(), fu::get_view(v, a, b)); m.insert(m.end(), x.begin(), x.end()); return;
        } else throw fv::Prune{};
    }
    case 9: {
        if constexpr (COPY) {
            i at = pick({0, 1, n}, 0, n), dl = pick({0, 1, n - at}, 0, n - at);
            i a = pick({0, n / 2}, 0, n), b = pick({n}, a, n);
            N("%c.splice(%d, %d, %c[%d .. %d])  [insert part of itself]", c, at, dl, c, a, b);
            Model x = sub(m, a, b);
            v.splice(at, dl, fu::get_view(v, a, b)); m_splice(m, at, dl, x); return;
        } else throw fv::Prune{};
    }
    case 10: {
        if constexpr (COPY) {
            i a = pick({0, 1}, 0, n), b = pick({n - 1, n, a}, a, n);
            N("%c = slice(copy of %c, %d, %d)", c, c, a, b);
            V t = fu::slice((const V&)v, a, b); v = static_cast<V&&>(t); m = sub(m, a, b); return;
        } else throw fv::Prune{};
    }
    case 11: { i a = pick({0, 1}, 0, n), b = pick({n - 1, n, a}, a, n);
            N("%c = slice(moved %c, %d, %d)", c, c, a, b);
            V t = fu::slice(static_cast<V&&>(v), a, b); v = static_cast<V&&>(t); m = sub(m, a, b); return; }
    case 12: { uint32_t t = s.fresh(); N("%c.unshift(#%u)", c, t); v.unshift(E::mk(t)); m.insert(m.begin(), E::norm(t)); return; }
    case 13: { i a = pick({1, n / 2, n}, 1, n); N("%c.shift(%d)", c, a); v.shift(a); m.erase(m.begin(), m.begin() + a); return; }
    // full alphabet only
    case 14: { i a = pick({0, 1, n - 1}, 0, n), b = pick({1, n - a}, 0, n - a); N("%c.shift_pop(%d, %d)", c, a, b); v.shift_pop(a, b); m = sub(m, a, n - b); return; }
    case 15: { i to = pick({n, n + 1, SMALL + 1, FULL + 1}, n, 1000); N("%c.grow(%d)", c, to); v.grow(to); m.resize((size_t)to, 0); return; }
    case 16: { i to = pick({0, 1, SMALL, SMALL + 1, n}, 0, n); N("%c.shrink(%d)", c, to); v.shrink(to); m.resize((size_t)to); return; }
    case 17: { i to = pick({1, SMALL, SMALL + 1, n, n + 1, FULL + 1}, 1, 1000); N("%c.reserve(%d)", c, to); v.reserve(to); return; }
    case 18: { if (!n) throw fv::Prune{}; N("%c.shift()", c); v.shift(); m.erase(m.begin()); return; }
    case 19: {
        if constexpr (COPY) {
            i dl = pick({1, n / 2, n}, 0, n); i a = pick({0, n / 2}, 0, n), b = pick({n, a}, a, n);
            N("%c drop last %d, append old %c[%d .. %d]", c, dl, c, a, b);
            Model x = sub(m, a, b);
            v.append(dl, fu::get_view(v, a, b)); m_splice(m, n - dl, dl, x); return;
        } else throw fv::Prune{};
    }
    case 20: { if (!n) throw fv::Prune{}; uint32_t t = s.fresh(); N("%c = moved %c ~ #%u", c, c, t); V x = static_cast<V&&>(v) + E::mk(t); v = static_cast<V&&>(x); m.push_back(E::norm(t)); return; }
    case 22: if constexpr (COPY) { N("%c = %c", c, c); V* o = &v; v = (const V&) *o; return; } else throw fv::Prune{};
    case 23: if constexpr (COPY) { N("%c ~= %c", c, c); V* o = &v; v += (const V&) *o; Model x = m; m.insert(m.end(), x.begin(), x.end()); return; } else throw fv::Prune{};
    case 21: { N("%c.splice_empty(%d, %d, 2)", c, n / 2, n - n / 2 ? 1 : 0); i at = n / 2, dl = n - n / 2 ? 1 : 0; v.splice_empty(at, dl, (i)2); m_splice(m, at, dl, Model(2, 0)); return; }
    }
}

static void op_two(State& s, int h, int g) {
    V& v = s.v[h]; Model& m = s.m[h]; i n = v.size(); V& w = s.v[g]; Model& y = s.m[g]; i wn = w.size();
    char c = (char)('a' + h), e = (char)('a' + g);
    switch (fv::X->choose(REDUCED ? 7 : 15)) {
    case 0: if constexpr (COPY) { N("%c = %c", c, e); v = (const V&)w; m = y; return; } else throw fv::Prune{};
    case 1: N("%c = moved %c", c, e); v = static_cast<V&&>(w); m = y; y.clear(); return;
    case 2: if constexpr (COPY) { N("%c ~= %c", c, e); v += (const V&)w; m.insert(m.end(), y.begin(), y.end()); return; } else throw fv::Prune{};
    case 3: { N("%c ~= moved %c", c, e); v += static_cast<V&&>(w); m.insert(m.end(), y.begin(), y.end()); y.clear(); w.clear(); return; }
    case 4: if constexpr (COPY) { i at = pick({0, n / 2}, 0, n), dl = pick({0, 1, n - at}, 0, n - at); N("%c.splice(%d, %d, %c)", c, at, dl, e); v.splice(at, dl, (const V&)w); m_splice(m, at, dl, y); return; } else throw fv::Prune{};
    case 5: if constexpr (COPY) { i a = pick({0, 1}, 0, wn), b = pick({wn - 1, wn}, a, wn); N("%c = slice(%c, %d, %d)", c, e, a, b); v = fu::slice((const V&)w, a, b); m = sub(y, a, b); return; } else throw fv::Prune{};
    case 6: N("swap(%c, %c)", c, e); v.swap(w); std::swap(m, y); return;
    case 7: { i at = pick({0, n / 2, n}, 0, n), dl = pick({0, 1, n - at}, 0, n - at); N("%c.splice(%d, %d, moved %c)", c, at, dl, e); v.splice(at, dl, static_cast<V&&>(w)); m_splice(m, at, dl, y); y.clear(); w.clear(); return; }
    case 8: if constexpr (COPY) { N("%c = %c ~ %c", c, c, e); V t = (const V&)v + (const V&)w; v = static_cast<V&&>(t); m.insert(m.end(), y.begin(), y.end()); return; } else throw fv::Prune{};
    case 9: if constexpr (COPY) { N("%c = %c ~ moved %c", c, e, c); V t = (const V&)w + static_cast<V&&>(v); v = static_cast<V&&>(t); Model x = y; x.insert(x.end(), m.begin(), m.end()); m = x; return; } else throw fv::Prune{};
    case 10: { N("%c = moved %c ~ moved %c", c, c, e); V t = static_cast<V&&>(v) + static_cast<V&&>(w); v = static_cast<V&&>(t); m.insert(m.end(), y.begin(), y.end()); y.clear(); w.clear(); return; }
    case 11: { i a = pick({0, 1}, 0, wn), b = pick({wn - 1, wn}, a, wn); N("%c = slice(moved %c, %d, %d)", c, e, a, b); v = fu::slice(static_cast<V&&>(w), a, b); m = sub(y, a, b); w.clear(); y.clear(); return; }
    case 12: if constexpr (COPY) { i a = pick({0, wn / 2}, 0, wn), b = pick({wn, a}, a, wn); N("%c ~= %c[%d .. %d]", c, e, a, b); v += fu::get_range(w, a, b); Model x = sub(y, a, b); m.insert(m.end(), x.begin(), x.end()); return; } else throw fv::Prune{};
    case 13: if constexpr (COPY) { i dl = pick({1, n}, 0, n); N("%c drop last %d, append %c", c, dl, e); v.append(dl, (const V&)w); m_splice(m, n - dl, dl, y); return; } else throw fv::Prune{};
    case 14: if constexpr (COPY) { N("%c = copy of %c[1 ..] via range", c, e); i a = pick({1}, 0, wn); v = V(fu::get_range((const V&)w, a)); m = sub(y, a, wn); return; } else throw fv::Prune{};
    }
}

static int DEPTH = 2;
// Fingerprint of the whole state up to renaming of element values (operations
// never look at values): sizes, capacities with their sharing flag, aliasing, contents.
static bool hash_state(State& s, int remaining) {
    fv::Hash h; h.add((uint64_t)remaining);
    std::vector<std::pair<uint32_t, uint32_t>> ren;
    const T* base[K]; 
    for (int k = 0; k < K; k++) {
        base[k] = s.v[k].size() ? ((const V&)s.v[k]).data() : nullptr;
        int alias = k; for (int j = 0; j < k; j++) if (base[k] && base[j] == base[k]) alias = j;
        h.add((uint64_t)alias); h.add((uint64_t)s.v[k].size()); h.add((uint64_t)(uint32_t)s.v[k].capa());
        uint32_t last = 0, lastid = 0;
        for (auto x : s.m[k]) {
            uint32_t id = 0;
            if (x) {
                if (x == last) id = lastid;
                else { for (auto& r : ren) if (r.first == x) { id = r.second; break; }
                       if (!id) { id = (uint32_t) ren.size() + 1; ren.push_back({x, id}); } }
                last = x; lastid = id;
            }
            h.add(id);
        }
    }
    return fv::seen_add(h.h);
}

#if RANGES
// ---- C02: windows --------------------------------------------------------
typedef fu::vec_range_mut<T> R;
static void op_range(State& s, int h) {
    V& v = s.v[h]; Model& m = s.m[h]; i n = v.size(); char c = (char)('a' + h);
    i a = pick({0, 1, n / 2}, 0, n), b = pick({n, n - 1, a + 1, a}, a, n);
    R r = fu::get_range_mut(v, a, b);
    if (fv::X->choose(2)) {   // a window of a window
        i a2 = pick({0, 1}, 0, b - a), b2 = pick({b - a, b - a - 1}, a2, b - a);
        r.ptr_reassign(fu::get_range_mut(r, a2, b2)); b = a + b2; a = a + a2;
    }
    i z = b - a;
    N("window w = %c[%d .. %d]", c, a, b);
    Model before = m;
    for (int step = 0; step < 2; step++) {
        FV_CHECK(r.size() == z, "window size %d, expected %d", r.size(), z);
        FV_CHECK((bool)r == (z != 0), "window truthiness");
        for (i k = 0; k < z; k++) { uint32_t got = E::get(((const R&)r)[k]); FV_CHECK(got == m[(size_t)(a + k)], "window[%d]: got 0x%x, expected 0x%x", k, got, m[(size_t)(a + k)]); }
        int other = (h + 1) % K;
        Model ins = s.m[other];
        switch (fv::X->choose(20)) {
        case 15: if constexpr (COPY) {
            V& o = s.v[other]; i on = o.size(); i c0 = pick({0, 1}, 0, on), c1 = pick({on, on - 1}, c0, on);
            bool view = fv::X->choose(2);
            N("  w = %c[%d .. %d]%s", 'a' + other, c0, c1, view ? " (view)" : "");
            if (view) { auto q = fu::get_range((const V&) o, c0, c1); r = q; }
            else { R q = fu::get_range_mut(o, c0, c1); r = (const R&) q; }
            Model x = sub(s.m[other], c0, c1); m_splice(m, a, z, x); z = (i)x.size(); break;
        } else throw fv::Prune{};
        case 18: { i dl = pick({0, 1, z}, 0, z); bool mv = fv::X->choose(2); if (!mv && !COPY) throw fv::Prune{};
            N("  w drop last %d, append %s%c", dl, mv ? "moved " : "", 'a' + other);
            if (mv) { r.append(dl, static_cast<V&&>(s.v[other])); s.v[other].clear(); s.m[other].clear(); } else if constexpr (COPY) r.append(dl, (const V&) s.v[other]);
            m_splice(m, a + z - dl, dl, ins); z += (i) ins.size() - dl; break; }
        case 19: { i at = pick({0, z - 1, z}, 0, z), dl = pick({0, 1}, 0, z - at);
            N("  w.splice(%d, %d, moved %c)", at, dl, 'a' + other); r.splice(at, dl, static_cast<V&&>(s.v[other])); s.v[other].clear(); s.m[other].clear(); m_splice(m, a + at, dl, ins); z += (i)ins.size() - dl; break; }
        case 16: if constexpr (COPY) {
            N("  swap(w, %c)", 'a' + other);
            if (fv::X->choose(2)) s.v[other].swap(r); else r.swap(s.v[other]);
            Model mine = sub(m, a, a + z); m_splice(m, a, z, ins); z = (i)ins.size(); s.m[other] = mine; break;
        } else throw fv::Prune{};
        case 17: if constexpr (COPY) {
            N("  w ~= view of %c", 'a' + other); r += fu::get_view((const V&) s.v[other], 0); m.insert(m.begin() + a + z, ins.begin(), ins.end()); z += (i)ins.size(); break;
        } else throw fv::Prune{};
        case 0: { uint32_t t = s.fresh(); N("  w.push(#%u)", t); r.push(E::mk(t)); m.insert(m.begin() + a + z, E::norm(t)); z++; break; }
        case 1: { if (!z) throw fv::Prune{}; N("  w.pop()"); r.pop(); m.erase(m.begin() + a + z - 1); z--; break; }
        case 2: { i at = pick({0, z / 2, z}, 0, z); uint32_t t = s.fresh(); N("  w.insert(%d, #%u)", at, t); r.insert(at, E::mk(t)); m.insert(m.begin() + a + at, E::norm(t)); z++; break; }
        case 3: { i at = pick({0, z - 1, z}, 0, z), dl = pick({0, 1, z - at}, 0, z - at); N("  w.splice(%d, %d)", at, dl); r.splice(at, dl); m.erase(m.begin() + a + at, m.begin() + a + at + dl); z -= dl; break; }
        case 4: { i to = pick({0, z - 1, z, z + 1, SMALL + 1, FULL}, 0, 1000); N("  w.resize(%d)", to); r.resize(to); if (to <= z) m.erase(m.begin() + a + to, m.begin() + a + z); else m.insert(m.begin() + a + z, (size_t)(to - z), 0); z = to; break; }
        case 5: { i to = pick({z, z + 1, z + SMALL + 1}, 0, 1000); N("  w.grow(%d)", to); r.grow(to); m.insert(m.begin() + a + z, (size_t)(to - z), 0); z = to; break; }
        case 6: { i to = pick({0, 1, z}, 0, z); N("  w.shrink(%d)", to); r.shrink(to); m.erase(m.begin() + a + to, m.begin() + a + z); z = to; break; }
        case 7: { N("  w.clear()"); r.clear(); m.erase(m.begin() + a, m.begin() + a + z); z = 0; break; }
        case 8: { if (!z) throw fv::Prune{}; i k = pick({0, z - 1}, 0, z - 1); uint32_t t = s.fresh(); N("  w[%d] = #%u", k, t); r.mutref(k) = E::mk(t); m[(size_t)(a + k)] = E::norm(t); break; }
        case 9: if constexpr (COPY) { N("  w ~= %c", 'a' + other); r += (const V&) s.v[other]; m.insert(m.begin() + a + z, ins.begin(), ins.end()); z += (i)ins.size(); break; } else throw fv::Prune{};
        case 10: { N("  w ~= moved %c", 'a' + other); r += static_cast<V&&>(s.v[other]); m.insert(m.begin() + a + z, ins.begin(), ins.end()); z += (i)ins.size(); s.v[other].clear(); s.m[other].clear(); break; }
        case 11: if constexpr (COPY) { N("  w = %c", 'a' + other); r = (const V&) s.v[other]; m_splice(m, a, z, ins); z = (i)ins.size(); break; } else throw fv::Prune{};
        case 12: { N("  w = moved %c", 'a' + other); r = static_cast<V&&>(s.v[other]); m_splice(m, a, z, ins); z = (i)ins.size(); s.v[other].clear(); s.m[other].clear(); break; }
        case 13: if constexpr (COPY) {
            V& o = s.v[other]; Model& om = s.m[other]; i on = o.size();
            i c0 = pick({0, 1}, 0, on), c1 = pick({on, on - 1}, c0, on);
            N("  swap(w, %c[%d .. %d])", 'a' + other, c0, c1);
            R q = fu::get_range_mut(o, c0, c1);
            if (fv::X->choose(2)) r.swap(static_cast<R&&>(q)); else r.swap(q);
            Model mine = sub(m, a, a + z), theirs = sub(om, c0, c1);
            m_splice(m, a, z, theirs); m_splice(om, c0, c1 - c0, mine); z = (i)theirs.size(); break;
        } else throw fv::Prune{};
        case 14: if constexpr (COPY) {
            i at = pick({0, z - 1, z}, 0, z), dl = pick({0, 1}, 0, z - at);
            N("  w.splice(%d, %d, %c)", at, dl, 'a' + other); r.splice(at, dl, (const V&) s.v[other]); m_splice(m, a + at, dl, ins); z += (i)ins.size() - dl; break;
        } else throw fv::Prune{};
        }
        fv::X->ops++;
        verify(s);
        if (fv::X->pos > fv::X->fresh_from && !fv::X->replaying && !hash_state(s, 1000 + step * 100000 + (h * 300 + a) * 300 + z)) throw fv::Prune{};
        if (!fv::X->choose(2)) break;
    }
    if (fv::X->choose(2)) {
        if constexpr (COPY) { N("copy of w"); V t = V(r); FV_CHECK(t.size() == z, "copy of a window: size %d, expected %d", t.size(), z); for (i k = 0; k < z; k++) FV_CHECK(E::get(t.data()[k]) == m[(size_t)(a + k)], "copy of a window: element %d", k); }
    } else if (fv::X->choose(2)) {
        N("moved w"); V t = V(r.destructive_move()); FV_CHECK(t.size() == z, "moved-out window: size %d, expected %d", t.size(), z);
        for (i k = 0; k < z; k++) FV_CHECK(E::get(t.data()[k]) == m[(size_t)(a + k)], "moved-out window: element %d", k);
        v.clear(); m.clear();
    }
}
#endif


static void body() {
    fvmem::tracking = true; g_live = 0;
    const char* leak = nullptr;
    try {
        State s;
        // Initial configuration: a's size, how b relates to a, whether c holds a copy.
        i sizes[] = { 0, 1, SMALL, SMALL + 1, FULL, FULL - 1 };
        i na = sizes[fv::X->choose(6)];
        N("a = %d elements", na);
        setup_fill(s, 0, na);
        int rel = fv::X->choose(COPY ? 4 : 2);
        if (rel == 0) { N("b = 2 other elements"); setup_fill(s, 1, 2); }
        else if (rel == 1) { N("b = %d other elements", SMALL + 2); setup_fill(s, 1, SMALL + 2); }
        else if constexpr (COPY) {
            if (rel == 2) { N("b = a"); s.v[1] = (const V&) s.v[0]; s.m[1] = s.m[0]; }
            else { i z = na ? na - 1 : 0; N("b = slice(a, 0, %d)", z); s.v[1] = fu::slice((const V&) s.v[0], 0, z); s.m[1] = sub(s.m[0], 0, z); }
        }
        if constexpr (COPY) if (fv::X->choose(2)) { N("c = a"); s.v[2] = (const V&) s.v[0]; s.m[2] = s.m[0]; }
        verify(s);
        for (int d = 0; d < DEPTH; d++) {
#if RANGES
            if (d == DEPTH - 1) op_range(s, fv::X->choose(2));
            else
#endif
            {
            int k = fv::X->choose(REDUCED ? 4 : 6);
            if (k < 2) op_one(s, k);
            else if (k == 2) op_two(s, 0, 1);
            else if (k == 3) op_two(s, 1, 0);
            else if (k == 4) op_two(s, 0, 2);
            else op_two(s, 2, 0);
            fv::X->ops++;
            }
            if (fv::X->pos > fv::X->fresh_from || d == DEPTH - 1) verify(s);
            // An equal state with as many operations left was or will be explored from elsewhere.
            if (fv::X->pos > fv::X->fresh_from && !fv::X->replaying && !hash_state(s, DEPTH - 1 - d) && d < DEPTH - 1) throw fv::Prune{};
        }
    }
    catch (fv::Prune&) { fvmem::end_of_run(); fvmem::tracking = false; throw; }
    catch (fv::Violation&) { fvmem::end_of_run(); fvmem::tracking = false; throw; }
    leak = fvmem::end_of_run();
    long live = g_live;
    fvmem::tracking = false;
    if (leak) fv::fail(std::string("after all handles are gone: ") + leak);
    if (live) fv::fail("after all handles are gone: " + std::to_string(live) + " elements were not destroyed exactly once");
}

#ifndef FV_LIB
int main(int argc, char** argv) {
    int workers = 1; double seconds = 1e9; std::string rp; bool do_replay = false;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k];
        if (a == "--depth") DEPTH = atoi(argv[++k]);
        else if (a == "--reduced") REDUCED = true;
        else if (a == "--workers") workers = atoi(argv[++k]);
        else if (a == "--seconds") seconds = atof(argv[++k]);
        else if (a == "--replay") { rp = argv[++k]; do_replay = true; }
    }
    { V p; p.resize(SMALL + 1); FULL = p.capa() > 60 ? 60 : p.capa(); if (sizeof(T) == 1 || true) FULL = p.capa(); }
    if (do_replay) { auto r = fv::replay(body, rp); printf("%s%s\n", r.trace.c_str(), r.violated ? ("=> " + r.msg).c_str() : "=> held"); return r.violated; }
    fv::seen_init();
    char label[200]; snprintf(label, sizeof label, "%s depth %d%s%s", TN, DEPTH, REDUCED ? " (reduced alphabet)" : "", RANGES ? " windows" : "");
    return fv::run(label, body, workers, seconds);
}
#endif
