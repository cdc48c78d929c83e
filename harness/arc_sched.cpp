// C03: arrays whose storage is shared between threads, under every schedule: every thread sees only its
// own edits, the storage is freed exactly once, after the last use, and nothing races.
#include "fvsched.h"
#include <fu/str.h>
#include <fu/vec.h>
#include <fu/view.h>
#include <fu/vec/concat.h>
#include <fu/vec/concat_one.h>
#include <fu/vec/LEGACY_slice.h>
#include <fu/mem/arc.cpp>
#include <fu/mem/memswap.cpp>
#include <algorithm>

extern uint64_t fvs_config;
#define NO __attribute__((no_sanitize("thread"))) __attribute__((noinline))

#ifndef ELEM
#define ELEM 0
#endif
#if ELEM == 0
typedef int T; static const char* TN = "i32";
static T mk(int t) { return t; }
static bool eq(const T& v, int t) { return v == t; }
#else
struct Own {                                       // owns a block of its own: freed twice, or never, if arrays lose count
    int* p;
    Own() : p(nullptr) {}
    Own(int t) : p((int*) malloc(16)) { p[0] = t; p[1] = ~t; }
    explicit Own(const Own& o) : p(nullptr) { if (o.p) { p = (int*) malloc(16); p[0] = o.p[0]; p[1] = o.p[1]; } }
    Own(Own&& o) : p(o.p) { o.p = nullptr; }
    ~Own() { if (p) { if (p[1] != ~p[0]) fvs::check_violation("an element was destroyed that is not alive"); free(p); } }
    Own& operator=(const Own& o) { Own t(o); int* x = p; p = t.p; t.p = x; return *this; }
    Own& operator=(Own&& o) { int* x = p; p = o.p; o.p = x; return *this; }
    explicit operator bool() const { return p; }
};
typedef Own T; static const char* TN = "owning structs";
static T mk(int t) { return Own(t); }
static bool eq(const T& v, int t) { return v.p && v.p[0] == t && v.p[1] == ~t; }
#endif
typedef fu::vec<T> V;

struct M { int v[24]; int n; };                   // the thread's own idea of a handle
NO static int  m_get(M* m, int k) { return m->v[k]; }
NO static int  m_n(M* m) { return m->n; }
NO static void m_set(M* m, int k, int x) { m->v[k] = x; }
NO static void m_push(M* m, int x) { m->v[m->n++] = x; }
NO static void m_trunc(M* m, int n) { m->n = n; }
NO static void m_copy(M* d, M* s) { *d = *s; }
NO static void m_cat(M* d, M* s) { M t = *s; for (int i = 0; i < t.n && d->n < 24; i++) d->v[d->n++] = t.v[i]; }
NO static void m_shift(M* m) { for (int i = 1; i < m->n; i++) m->v[i - 1] = m->v[i]; m->n--; }

static const char OPS[] = "rcdxmapket";
static const char* NAMES[] = { "read h", "g = copy of h", "drop g", "drop h", "h[0] = x", "h.push(x)", "h.pop()", "h.shift()", "h = copy of g", "h ~= g" };
static int NOPS = 10;

static V   base[4];
static M   models[4][2];

static void check(int th, const char* nm, const V& v, M* m) {
    if (v.size() != m_n(m)) fvs::check_violation("thread %d: its array %s has %d elements, expected %d", th, nm, v.size(), m_n(m));
    const T* d = v.data();
    for (int k = 0; k < v.size(); k++) if (!eq(d[k], m_get(m, k))) fvs::check_violation("thread %d: element %d of its array %s is not what it put there", th, k, nm);
}

static void run(int th, const int* prog, int n) {
    V h = static_cast<V&&>(base[th]); V g; M* mh = &models[th][0]; M* mg = &models[th][1]; m_trunc(mg, 0);
    int tag = 100 + th * 10;
    for (int i = 0; i < n; i++) {
        switch (OPS[prog[i]]) {
        case 'r': check(th, "h", h, mh); break;
        case 'c': g = (const V&) h; m_copy(mg, mh); break;
        case 'd': g = V(); m_trunc(mg, 0); break;
        case 'x': h = V(); m_trunc(mh, 0); break;
        case 'm': if (h.size()) { h.mutref(0) = mk(++tag); m_set(mh, 0, tag); } break;
        case 'a': h.push(mk(++tag)); m_push(mh, tag); break;
        case 'p': if (h.size()) { h.pop(); m_trunc(mh, m_n(mh) - 1); } break;
        case 'k': if (h.size()) { h.shift(); m_shift(mh); } break;
        case 'e': h = (const V&) g; m_copy(mh, mg); break;
        case 't': h += (const V&) g; m_cat(mh, mg); break;
        }
    }
    check(th, "h", h, mh); check(th, "g", g, mg);
}

int main(int argc, char** argv) {
    int pre = 99, workers = 8, threads = 2, len = 2, split = 5; double secs = 60; std::string rep; bool lone = false;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--pre") pre = stoi(nx()); else if (a == "--threads") threads = stoi(nx()); else if (a == "--len") len = stoi(nx());
        else if (a == "--workers") workers = stoi(nx()); else if (a == "--seconds") secs = stod(nx()); else if (a == "--replay") rep = nx(); else if (a == "--split") split = stoi(nx());
        else if (a == "--lone") lone = true;
        else if (a == "--ops") NOPS = stoi(nx());
    }
    if (lone) {
        static V one;
        auto body = [&] {
            fvs::Options o; o.preemptions = 99; o.horizon = 5000;
            fv::X->note("two threads copy the same unshared array handle");
            auto f = [] { V g = V((const V&) one); if (g.size() != 5) fvs::check_violation("wrong copy"); };
            fvs::execute(o, { f, f }, [] {}, [] { for (int k = 0; k < 5; k++) one.push(mk(k)); });
        };
        fv::seen_init(20);
        return fv::run("one array handle copied by two threads at once", body, 1, secs, 0);
    }
    auto body = [&] {
        int progs[4][8]; std::string d; uint64_t cfg = 1;
        // multisets over threads: programs in non-decreasing order
        long prev = 0;
        int size = (int[]){5, 1}[fv::X->choose(2)];
        for (int t = 0; t < threads; t++) {
            long code = 0; d += " | thread " + std::to_string(t) + ":";
            for (int k = 0; k < len; k++) { progs[t][k] = fv::X->choose(NOPS); code = code * NOPS + progs[t][k]; d += std::string(k ? ", " : " ") + NAMES[progs[t][k]]; }
            if (code < prev) throw fv::Prune{};
            prev = code; cfg = cfg * 1000003 + (uint64_t)code;
        }
        fvs_config = cfg * 16 + (uint64_t)size;
        fv::X->note("arrays of %d %s, one copy per thread%s", size, TN, d.c_str());
        fvs::Options o; o.preemptions = pre; o.horizon = 5000;
        std::vector<std::function<void()>> bodies;
        for (int t = 0; t < threads; t++) bodies.push_back([&, t] { run(t, progs[t], len); });
        fvs::execute(o, bodies, [&] {
            FV_CHECK(fvs::live_allocs() == 0, "%ld blocks of storage were never freed", fvs::live_allocs());
        }, [&] {
            V v; M m; m_trunc(&m, 0);
            for (int k = 0; k < size; k++) { v.push(mk(1 + k)); m_push(&m, 1 + k); }
            // enough spare capacity for one of the threads to be tempted to edit in place
            for (int t = 0; t < threads; t++) { base[t] = (const V&) v; m_copy(&models[t][0], &m); }
        });
    };
    char label[300];
    snprintf(label, sizeof label, "shared arrays of %s, %d threads, %d operations each, %s preemptions", TN, threads, len, pre >= 99 ? "any number of" : std::to_string(pre).c_str());
    fv::seen_init(26);
    if (!rep.empty()) { auto r = fv::replay(body, rep); printf("%s\n%s\n", r.trace.c_str(), r.violated ? r.msg.c_str() : "held"); return r.violated; }
    return fv::run(label, body, workers, secs, split);
}
