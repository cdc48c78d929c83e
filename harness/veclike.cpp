// C01/C02: every concatenation, slice, view and element access of the array-like
// types (vec, vec_range, vec_range_mut, view, view_mut, slate, strlit), for every
// pair of operand forms, sharing states and sizes, against plain sequences.
#define FV_LIB 1
#define RANGES 0
#include "vec_hist.cpp"
#include <fu/vec/view_assign.h>
#include <fu/vec/view_swap.h>

typedef fu::vec_range<T> CR; typedef fu::vec_range_mut<T> MR;
typedef fu::view<T> VW; typedef fu::view_mut<T> VM;

static const char* FORM[] = { "array", "shared array", "moved array", "moved shared array", "view", "mutable view", "window", "mutable window", "element", "literal", "slate" };
static constexpr int NFORM = 11;

struct Src {                      // storage an operand lives in: one element of padding on each side of windows
    V v, keep; Model m, all;
    fu::slate<2, T>* sl = nullptr; std::string lit;
    bool windowed = false;
    ~Src() { delete sl; }
};
static bool trivially() { return std::is_trivially_destructible<T>::value; }

template <typename F> static void with_form(State& s, Src& x, int form, i n, F&& f) {
    bool win = form >= 4 && form <= 7;
    x.windowed = win;
    if (form < 8) {
        for (i k = 0; k < n + 2 * win; k++) { uint32_t t = s.fresh(); x.v.push(E::mk(t)); x.all.push_back(E::norm(t)); }
        x.m = win ? sub(x.all, 1, n + 1) : x.all;
        if (form == 1 || form == 3) { if constexpr (COPY) x.keep = (const V&) x.v; else throw fv::Prune{}; }
    }
    switch (form) {
    case 0: case 1: f((const V&) x.v); break;
    case 2: case 3: f(static_cast<V&&>(x.v)); break;
    case 4: { VW w = fu::get_view((const V&) x.v, 1, n + 1); f((const VW&) w); break; }
    case 5: { VM w = fu::get_view_mut(x.v, 1, n + 1); f((const VM&) w); break; }
    case 6: { CR w = fu::get_range((const V&) x.v, 1, n + 1); f((const CR&) w); break; }
    case 7: { MR w = fu::get_range_mut(x.v, 1, n + 1); f((const MR&) w); break; }
    case 8: { uint32_t t = s.fresh(); x.m = x.all = { E::norm(t) }; f(E::mk(t)); break; }
    case 9: if constexpr (std::is_same<T, fu::byte>::value) {
        for (i k = 0; k < n; k++) { uint32_t t = s.fresh(); x.lit += (char) t; x.all.push_back(t); }
        x.m = x.all; fu::strlit l { x.lit.data(), n }; f((const fu::strlit&) l); break; } else throw fv::Prune{};
    case 10: { if (n != 2) throw fv::Prune{}; uint32_t t = s.fresh(), u = s.fresh(); x.sl = new fu::slate<2, T> { { E::mk(t), E::mk(u) } }; x.m = x.all = { E::norm(t), E::norm(u) }; f((const fu::slate<2, T>&) *x.sl); break; }
    }
}
static void same(const V& v, const Model& m, const char* what) {
    FV_CHECK(v.size() == (i) m.size(), "%s: size %d, expected %zu", what, v.size(), m.size());
    for (i k = 0; k < v.size(); k++) { uint32_t got = E::get(v.data()[k]); FV_CHECK(got == m[(size_t) k], "%s[%d]: got 0x%x, expected 0x%x", what, k, got, m[(size_t) k]); }
}
static void after(Src& x, int form, const char* what) {
    if (form == 2) return;
    if (form == 3) { same(x.keep, x.all, what); return; }
    if (form < 8) same(x.v, x.all, what);
    if (form == 1) same(x.keep, x.all, what);
    if (x.sl) for (i k = 0; k < 2; k++) FV_CHECK(E::get((*x.sl)[k]) == x.all[(size_t) k], "%s: slate[%d] changed", what, k);
}
static i pickn(int form) { return form == 8 ? 1 : form == 10 ? 2 : pick({0, 1, 2, SMALL, SMALL + 1}, 0, 1000); }

template <typename A, typename B, typename = void> struct can_add { static constexpr bool value = false; };
template <typename A, typename B> struct can_add<A, B, std::void_t<decltype(std::declval<A>() + std::declval<B>())>> { static constexpr bool value = std::is_same<decltype(std::declval<A>() + std::declval<B>()), V>::value; };
template <typename A, typename B, typename = void> struct can_inc { static constexpr bool value = false; };
template <typename A, typename B> struct can_inc<A, B, std::void_t<decltype(std::declval<A>() += std::declval<B>())>> { static constexpr bool value = true; };

static bool g_supported[NFORM][NFORM], g_inc[4][NFORM];

static void do_concat(State& s) {
    int fa = fv::X->choose(NFORM), fb = fv::X->choose(NFORM);
    i na = pickn(fa), nb = pickn(fb);
    N("%s of %d ~ %s of %d", FORM[fa], na, FORM[fb], nb);
    Src x, y;
    with_form(s, x, fa, na, [&](auto&& a) { with_form(s, y, fb, nb, [&](auto&& b) {
        typedef decltype(a) A; typedef decltype(b) B;
        if constexpr (COPY && can_add<A, B>::value) {
            g_supported[fa][fb] = true;
            V r = static_cast<A>(a) + static_cast<B>(b);
            Model m = x.m; m.insert(m.end(), y.m.begin(), y.m.end());
            same(r, m, "result");
            after(x, fa, "left operand"); after(y, fb, "right operand");
            // the result is its own array
            uint32_t t = s.fresh(); r.push(E::mk(t)); m.push_back(E::norm(t)); if (m.size() > 1) { t = s.fresh(); r.mutref(0) = E::mk(t); m[0] = E::norm(t); }
            same(r, m, "edited result"); after(x, fa, "left operand"); after(y, fb, "right operand");
        } else throw fv::Prune{};
    }); });
}

static void do_inc(State& s) {
    int fa = fv::X->choose(4), fb = fv::X->choose(NFORM);    // array, shared array, window, moved window
    i na = pick({0, 1, SMALL, SMALL + 1}, 0, 1000), nb = pickn(fb);
    static const char* AF[] = { "array", "shared array", "window", "temporary window" };
    N("%s of %d ~= %s of %d", AF[fa], na, FORM[fb], nb);
    Src x, y; bool win = fa >= 2; i left = 0, right = 0;
    if (win) { left = fv::X->choose(2); right = fv::X->choose(2); }
    for (i k = 0; k < na + left + right; k++) { uint32_t t = s.fresh(); x.v.push(E::mk(t)); x.all.push_back(E::norm(t)); }
    if (fa == 1 || (win && fv::X->choose(2))) { if constexpr (COPY) x.keep = (const V&) x.v; }
    Model keep = x.keep.size() ? x.all : Model();
    with_form(s, y, fb, nb, [&](auto&& b) {
        typedef decltype(b) B;
        if (fa < 2) { if constexpr (can_inc<V&, B>::value && (COPY || std::is_same<B, T&&>::value || std::is_same<B, V&&>::value)) { g_inc[fa][fb] = true; x.v += static_cast<B>(b); } else throw fv::Prune{}; }
        else {
            MR w = fu::get_range_mut(x.v, left, left + na);
            if constexpr (can_inc<MR&, B>::value && (COPY || std::is_same<B, T&&>::value || std::is_same<B, V&&>::value)) {
                g_inc[fa][fb] = true;
                if (fa == 2) w += static_cast<B>(b);
                else static_cast<MR&&>(w) += static_cast<B>(b);
                FV_CHECK(w.size() == na + (i) y.m.size(), "window size after ~=: %d", w.size());
            } else throw fv::Prune{};
        }
        x.all.insert(x.all.begin() + left + na, y.m.begin(), y.m.end());
        same(x.v, x.all, "result"); same(x.keep, keep, "copy of the left operand"); after(y, fb, "right operand");
        uint32_t t = s.fresh(); x.v.push(E::mk(t)); x.all.push_back(E::norm(t));
        same(x.v, x.all, "pushed result"); same(x.keep, keep, "copy of the left operand"); after(y, fb, "right operand");
    });
}

// x = x ~ part of x, x ~= x, part of x ~ x, x[a..b] = x[c..d], x[a..b] ~= x[c..d], ...: operands that alias the destination
static void do_alias(State& s) {
    if constexpr (COPY) {
        Src x; i n = pick({0, 1, 3, SMALL, SMALL + 1}, 0, 1000);
        for (i k = 0; k < n; k++) { uint32_t t = s.fresh(); x.v.push(E::mk(t)); x.all.push_back(E::norm(t)); }
        if (fv::X->choose(2)) { x.keep = (const V&) x.v; N("a copy is kept"); }
        Model keep = x.keep.size() ? x.all : Model();
        i c = pick({0, 1, n}, 0, n), d = pick({c, n, n - 1}, c, n);
        Model part = sub(x.all, c, d), whole = x.all, want = x.all;
        i a = pick({0, 1, n - 1}, 0, n), b = pick({a, a + 1, n}, a, n), z = b - a;
        switch (fv::X->choose(11)) {
        case 0: N("x ~= x, %d elements", n); x.v += (const V&) x.v; want.insert(want.end(), whole.begin(), whole.end()); break;
        case 1: N("x = x (through another name), %d elements", n); { const V& o = x.v; x.v = o; } break;
        case 2: N("x = x[%d .. %d] (window), %d elements", c, d, n); { V t = V(fu::get_range((const V&) x.v, c, d)); x.v = static_cast<V&&>(t); } want = part; break;
        case 3: N("x = x[%d .. %d] ~ x, %d elements", c, d, n); { V t = fu::get_view((const V&) x.v, c, d) + (const V&) x.v; x.v = static_cast<V&&>(t); } want.insert(want.begin(), part.begin(), part.end()); break;
        case 4: N("x = moved x ~ x[%d .. %d], %d elements", c, d, n); { VW w = fu::get_view((const V&) x.v, c, d); V t = static_cast<V&&>(x.v) + w; x.v = static_cast<V&&>(t); } want.insert(want.end(), part.begin(), part.end()); break;
        case 5: N("x[%d .. %d] = x[%d .. %d], %d elements", a, b, c, d, n); { MR w = fu::get_range_mut(x.v, a, b); w = fu::get_range((const V&) x.v, c, d); } m_splice(want, a, z, part); break;
        case 6: N("x[%d .. %d] = mutable window x[%d .. %d], %d elements", a, b, c, d, n); { MR w = fu::get_range_mut(x.v, a, b); MR q = fu::get_range_mut(x.v, c, d); w = (const MR&) q; } m_splice(want, a, z, part); break;
        case 7: N("x[%d .. %d] ~= x[%d .. %d], %d elements", a, b, c, d, n); { MR w = fu::get_range_mut(x.v, a, b); w += fu::get_range((const V&) x.v, c, d); } m_splice(want, b, 0, part); break;
        case 8: { i dl = pick({1, z}, 0, z); N("x[%d .. %d] drop last %d, append x[%d .. %d], %d elements", a, b, dl, c, d, n); MR w = fu::get_range_mut(x.v, a, b); w.append(dl, fu::get_view((const V&) x.v, c, d)); m_splice(want, b - dl, dl, part); FV_CHECK(w.size() == z - dl + d - c, "window size %d", w.size()); break; }
        case 9: { i dl = pick({0, 1, z}, 0, z); uint32_t t = s.fresh(), u = s.fresh(); V o; o.push(E::mk(t)); o.push(E::mk(u)); N("x[%d .. %d] drop last %d, append a moved array of 2, %d elements", a, b, dl, n); MR w = fu::get_range_mut(x.v, a, b); w.append(dl, static_cast<V&&>(o)); m_splice(want, b - dl, dl, Model{ E::norm(t), E::norm(u) }); break; }
        case 10: { i at = pick({0, z - 1, z}, 0, z), dl = pick({0, 1, z - at}, 0, z - at); N("x[%d .. %d].splice(%d, %d, x[%d .. %d]), %d elements", a, b, at, dl, c, d, n); MR w = fu::get_range_mut(x.v, a, b); w.splice(at, dl, fu::get_view((const V&) x.v, c, d)); m_splice(want, a + at, dl, part); break; }
        }
        same(x.v, want, "result"); same(x.keep, keep, "copy of the operand");
    } else throw fv::Prune{};
}

template <typename W> static void reads(const W& w, const Model& m, const char* what) {
    FV_CHECK(w.size() == (i) m.size(), "%s: size %d, expected %zu", what, w.size(), m.size());
    FV_CHECK((bool) w == !m.empty(), "%s: truthiness", what);
    for (i k = 0; k < w.size(); k++) { uint32_t got = E::get(w[k]); FV_CHECK(got == m[(size_t) k] && &w[k] == w.data() + k, "%s[%d]: got 0x%x, expected 0x%x", what, k, got, m[(size_t) k]); }
}
// slices of slices, in every form
template <typename W> static void sliced(const W& w, const Model& m, int depth) {
    i n = (i) m.size(); i a = pick({0, 1, n - 1, n}, 0, n), b = pick({a, a + 1, n - 1, n}, a, n);
    reads(w, m, "operand");
    switch (fv::X->choose(7)) {
    case 0: { N("view [%d .. %d]", a, b); VW q = fu::get_view(w, a, b); reads(q, sub(m, a, b), "view"); { size_t k = 0; for (auto& e : q) { FV_CHECK(E::get(e) == m[(size_t) a + k], "iteration"); k++; } FV_CHECK(k == (size_t)(b - a), "iteration count"); } if (depth) sliced(q, sub(m, a, b), depth - 1); break; }
    case 1: { N("view [%d ..]", a); VW q = fu::get_view(w, a); reads(q, sub(m, a, n), "view"); if (depth) sliced(q, sub(m, a, n), depth - 1); break; }
    case 2: { N("view [.. %d]", b); VW q = fu::get_view_start0(w, b); reads(q, sub(m, 0, b), "view"); if (depth) sliced(q, sub(m, 0, b), depth - 1); break; }
    case 3: if constexpr (std::is_same<W, V>::value || std::is_same<W, CR>::value || std::is_same<W, MR>::value) { N("window [%d .. %d]", a, b); CR q = fu::get_range(w, a, b); reads(q, sub(m, a, b), "window"); if (depth) sliced(q, sub(m, a, b), depth - 1); break; } else throw fv::Prune{};
    case 4: if constexpr (std::is_same<W, V>::value || std::is_same<W, CR>::value || std::is_same<W, MR>::value) { N("window [%d ..]", a); CR q = fu::get_range(w, a); reads(q, sub(m, a, n), "window"); if (depth) sliced(q, sub(m, a, n), depth - 1); break; } else throw fv::Prune{};
    case 5: if constexpr (std::is_same<W, V>::value || std::is_same<W, CR>::value || std::is_same<W, MR>::value) { N("window [.. %d]", b); CR q = fu::get_range_start0(w, b); reads(q, sub(m, 0, b), "window"); if (depth) sliced(q, sub(m, 0, b), depth - 1); break; } else throw fv::Prune{};
    case 6: if constexpr (COPY && !std::is_same<W, fu::strlit>::value && !std::is_same<W, fu::slate<2, T>>::value) {
        if constexpr (std::is_same<W, V>::value) { N("slice(%d, %d)", a, b); V q = fu::slice(w, a, b); same(q, sub(m, a, b), "slice"); }
        else if constexpr (std::is_same<W, CR>::value || std::is_same<W, MR>::value) { N("copy of the window"); V q = V(w); same(q, m, "copy"); }
        else { N("copy of the view"); V q; q.append(fu_ZERO(), w); same(q, m, "copy"); }
        break; } else throw fv::Prune{};
    }
}
static void do_slices(State& s) {
    int f = fv::X->choose(NFORM); if (f == 2 || f == 3 || f == 8) throw fv::Prune{};
    i n = pick({0, 2, 3, SMALL, SMALL + 1}, 0, 1000);
    N("%s of %d", FORM[f], n); Src x;
    with_form(s, x, f, n, [&](auto&& a) { typedef typename std::decay<decltype(a)>::type W; if constexpr (!std::is_same<W, T>::value) sliced(a, x.m, 1); });
    after(x, f, "operand");
}

// writes through (slices of) mutable windows and views; another handle to the storage must not notice
template <typename W> static void writes(State& s, W& w, Model& all, i at, i n, Src& x, int depth) {
    reads(w, sub(all, at, at + n), "mutable slice");
    if (depth && fv::X->choose(2)) {
        i a = pick({0, 1, n}, 0, n), b = pick({a, n - 1, n}, a, n);
        switch (fv::X->choose(6)) {
        case 0: { N("mutable view [%d .. %d]", a, b); VM q = fu::get_view_mut(w, a, b); return writes(s, q, all, at + a, b - a, x, depth - 1); }
        case 1: { N("mutable view [%d ..]", a); VM q = fu::get_view_mut(w, a); return writes(s, q, all, at + a, n - a, x, depth - 1); }
        case 2: { N("mutable view [.. %d]", b); VM q = fu::get_view_start0_mut(w, b); return writes(s, q, all, at, b, x, depth - 1); }
        case 3: if constexpr (!std::is_same<W, VM>::value) { N("mutable window [%d .. %d]", a, b); MR q = fu::get_range_mut(w, a, b); return writes(s, q, all, at + a, b - a, x, depth - 1); } else throw fv::Prune{};
        case 4: if constexpr (!std::is_same<W, VM>::value) { N("mutable window [%d ..]", a); MR q = fu::get_range_mut(w, a); return writes(s, q, all, at + a, n - a, x, depth - 1); } else throw fv::Prune{};
        case 5: if constexpr (!std::is_same<W, VM>::value) { N("mutable window [.. %d]", b); MR q = fu::get_range_start0_mut(w, b); return writes(s, q, all, at, b, x, depth - 1); } else throw fv::Prune{};
        }
    }
    switch (fv::X->choose(4)) {
    case 0: { if (!n) throw fv::Prune{}; i k = pick({0, n / 2, n - 1}, 0, n - 1); uint32_t t = s.fresh(); N("[%d] = #%u", k, t); w.mutref(k) = E::mk(t); all[(size_t)(at + k)] = E::norm(t); break; }
    case 1: { if (!n) throw fv::Prune{}; i k = pick({0, n - 1}, 0, n - 1), l = pick({0, n / 2, n - 1}, 0, n - 1); if (k == l && !trivially()) throw fv::Prune{}; N("swap [%d] [%d]", k, l); fu::view_swap(w, k, l); std::swap(all[(size_t)(at + k)], all[(size_t)(at + l)]); break; }
    case 2: { N("each element anew"); for (i k = 0; k < n; k++) { uint32_t t = s.fresh(); w.data_mut()[k] = E::mk(t); all[(size_t)(at + k)] = E::norm(t); } break; }
    case 3: if constexpr (std::is_trivially_destructible<T>::value) {
        Src y; int fy = fv::X->choose(NFORM); if (fy == 2 || fy == 3 || fy == 8) throw fv::Prune{};
        with_form(s, y, fy, n, [&](auto&& b) { typedef typename std::decay<decltype(b)>::type B; if constexpr (!std::is_same<B, T>::value) { N("assign from %s", FORM[fy]); fu::view_assign(w, b); } });
        for (i k = 0; k < n; k++) all[(size_t)(at + k)] = y.m[(size_t) k];
        after(y, fy, "source"); break; } else throw fv::Prune{};
    }
    reads(w, sub(all, at, at + n), "mutable slice");
}
static void do_writes(State& s) {
    i n = pick({0, 2, 3, SMALL, SMALL + 1}, 0, 1000);
    Src x; for (i k = 0; k < n; k++) { uint32_t t = s.fresh(); x.v.push(E::mk(t)); x.all.push_back(E::norm(t)); }
    if constexpr (COPY) if (fv::X->choose(2)) { x.keep = (const V&) x.v; N("a copy is kept"); }
    Model keep = x.keep.size() ? x.all : Model();
    N("array of %d", n);
    writes(s, x.v, x.all, 0, n, x, 2);
    same(x.v, x.all, "array"); same(x.keep, keep, "copy of the array");
}
// reinterpreted views
template <typename D> static void into(State& s, const char* dn) {
    if constexpr (std::is_same<T, fu::byte>::value || std::is_same<T, int>::value || std::is_same<T, uint16_t>::value || std::is_same<T, uint64_t>::value) {
        i n = pick({0, 8, 16, 24}, 0, 100); if (sizeof(T) == 1 && n == 8) n = 32;
        V v; for (i k = 0; k < n; k++) v.push(E::mk(s.fresh()));
        V keep; bool shared = fv::X->choose(2); if (shared) keep = (const V&) v;
        i a = pick({0, 8}, 0, n), z = n - a;
        if ((size_t)(v.data() + a) % alignof(D)) throw fv::Prune{};
        N("%d elements [%d ..] seen as %s", n, a, dn);
        std::string bytes((const char*)(v.data() + a), (size_t) z * sizeof(T)), before((const char*) v.data(), (size_t) n * sizeof(T));
        { fu::view<D> q = fu::view_of<D>(fu::get_view((const V&) v, a)); FV_CHECK((size_t) q.size() * sizeof(D) == bytes.size(), "size %d", q.size()); FV_CHECK(!memcmp(q.data(), bytes.data(), bytes.size()), "bytes differ"); }
        { fu::view_mut<D> q = fu::view_of_mut<D>(fu::get_view_mut(v, a)); FV_CHECK((size_t) q.size() * sizeof(D) == bytes.size(), "size %d", q.size());
          for (i k = 0; k < q.size(); k++) { D d; memset(&d, 17 + k, sizeof d); q.mutref(k) = d; memset(&bytes[(size_t) k * sizeof(D)], 17 + k, sizeof d); } }
        FV_CHECK(!memcmp(v.data() + a, bytes.data(), bytes.size()) && !memcmp(v.data(), before.data(), (size_t) a * sizeof(T)), "bytes written through the view");
        if (shared) FV_CHECK(!memcmp(keep.data(), before.data(), before.size()), "the copy of the array changed");
        // assignment between views of different element types
        if constexpr (sizeof(D) % sizeof(T) == 0 || sizeof(T) % sizeof(D) == 0) { fu::vec<D> src; for (size_t k = 0; k < (size_t) z * sizeof(T) / sizeof(D); k++) { D d; memset(&d, (int)(91 + k), sizeof d); src.push(static_cast<D&&>(d)); }
          fu::view_assign(fu::get_view_mut(v, a), src); FV_CHECK(!memcmp(v.data() + a, src.data(), bytes.size()), "assigned bytes"); FV_CHECK(!memcmp(v.data(), before.data(), (size_t) a * sizeof(T)), "bytes before the view changed"); if (shared) FV_CHECK(!memcmp(keep.data(), before.data(), before.size()), "the copy of the array changed"); }
    } else throw fv::Prune{};
}

static int FROM = 0, TO = 6;
static void like_body() {
    fvmem::tracking = true; g_live = 0;
    try {
        State s;
        switch (FROM + fv::X->choose(TO - FROM)) {
        case 0: do_concat(s); break;
        case 1: do_inc(s); break;
        case 2: do_alias(s); break;
        case 3: do_slices(s); break;
        case 4: do_writes(s); break;
        case 5: { int k = fv::X->choose(4); if (k == 0) into<fu::byte>(s, "bytes"); else if (k == 1) into<uint16_t>(s, "u16"); else if (k == 2) into<int>(s, "i32"); else into<uint64_t>(s, "u64"); break; }
        }
        fv::X->ops++; { fv::Hash h; for (auto p : fv::X->path) h.add((uint64_t) p); fv::seen_add(h.h); }
    }
    catch (fv::Prune&) { fvmem::end_of_run(); fvmem::tracking = false; throw; }
    catch (fv::Violation&) { fvmem::end_of_run(); fvmem::tracking = false; throw; }
    const char* leak = fvmem::end_of_run(); long live = g_live; fvmem::tracking = false;
    if (leak) fv::fail(std::string("after all handles are gone: ") + leak);
    if (live) fv::fail("after all handles are gone: " + std::to_string(live) + " elements were not destroyed exactly once");
}
int main(int argc, char** argv) {
    int workers = 1; double seconds = 1e9; std::string rp; bool do_replay = false;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k];
        if (a == "--workers") workers = atoi(argv[++k]);
        else if (a == "--from") FROM = atoi(argv[++k]);
        else if (a == "--to") TO = atoi(argv[++k]);
        else if (a == "--seconds") seconds = atof(argv[++k]);
        else if (a == "--replay") { rp = argv[++k]; do_replay = true; }
    }
    if (do_replay) { auto r = fv::replay(like_body, rp); printf("%s%s\n", r.trace.c_str(), r.violated ? ("=> " + r.msg).c_str() : "=> held"); return r.violated; }
    fv::seen_init();
    char label[200]; snprintf(label, sizeof label, "%s: %s", TN, FROM ? "slices, views and windows" : TO < 6 ? "concatenation and aliasing operands" : "concatenation, slices, views and windows");
    return fv::run(label, like_body, workers, seconds);
}
