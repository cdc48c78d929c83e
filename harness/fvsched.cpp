#include "fvsched.h"
#include <stdarg.h>
#include <pthread.h>
#include <errno.h>
#include <time.h>

#define MAXT 8
typedef uint32_t clk_t;
struct VC { clk_t c[MAXT]; };
static inline void vjoin(VC& a, const VC& b) { for (int i = 0; i < MAXT; i++) if (b.c[i] > a.c[i]) a.c[i] = b.c[i]; }

extern "C" void fvs_switch(void** save_sp, void* load_sp);
asm(R"(
.text
.globl fvs_switch
.type fvs_switch,@function
fvs_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
)");

namespace {
enum Kind { RUN, LOCKWAIT, CVWAIT, JOINALL, DONE };
struct Fiber {
    void* sp; char* stack;
    std::function<void()>* fn;
    void* (*pfn)(void*); void* parg;
    Kind st; void* mtx; void* cv; bool timed, woken_timeout, body;
    VC vc; uint64_t h;
};
struct Loc { uintptr_t addr; VC rel; uint64_t hw, hr; };          // atomic location / mutex / cv
struct Mtx { uintptr_t addr; int owner; VC rel; uint64_t h; };
struct Rec { uint8_t tid, mask; bool wr, at; clk_t clk; };
struct Gran { uintptr_t addr; uint32_t gen; uint8_t n; Rec r[14]; };

struct Alloc { char* p; size_t n; bool freed; };

const size_t STACK = 1 << 18;
const size_t STRIDE = (size_t)(4096 * 99 * 3);    // multiple of 99*4096: same frame => same address mod 99
const int GBITS = 16, LBITS = 12, MBITS = 10;
const size_t ARENA = 8 << 20, SCRATCH = 1 << 20;

struct RT {                                        // lives outside the snapshot
    Fiber f[MAXT]; int nf; int cur; void* host_sp; bool in_fiber;
    Gran* g; uint32_t gen; Loc* l; Mtx* m;
    uint32_t* lgen; uint32_t* mgen;
    uint64_t locseq;
    char* arena; size_t top; Alloc* allocs; int nalloc; long live;
    char* scratch; size_t stop;
    long steps, tick; int budget, spur;
    fvs::Options opt;
    char* snap; bool snapped;
    void* (*sfn[MAXT])(void*); void* sarg[MAXT]; int ns;
    bool active;
    int signal_to;
    const char* why; bool quiet;
    std::function<void()> *bodies[MAXT];
};
}
extern "C" char __data_start[], _end[];
static RT* R;    // never changes after init (part of the snapshot, same value)
uint64_t fvs_config;
int fvs_host_choice(int);
void (*fvs_after_restore)(void*); void* fvs_after_restore_arg;

static void* bigmap(size_t n) { void* p = mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) abort(); return p; }

static void rt_init() {
    if (R) return;
    R = (RT*) bigmap(sizeof(RT));
    R->g = (Gran*) bigmap(sizeof(Gran) << GBITS);
    R->l = (Loc*) bigmap(sizeof(Loc) << LBITS); R->lgen = (uint32_t*) bigmap(4 << LBITS);
    R->m = (Mtx*) bigmap(sizeof(Mtx) << MBITS); R->mgen = (uint32_t*) bigmap(4 << MBITS);
    R->arena = (char*) bigmap(ARENA);
    R->allocs = (Alloc*) bigmap(sizeof(Alloc) * 65536);
    R->scratch = (char*) bigmap(SCRATCH);
    char* st = (char*) bigmap(STRIDE * MAXT + STRIDE);
    st = (char*)(((uintptr_t)st + STRIDE - 1) / STRIDE * STRIDE);
    for (int i = 0; i < MAXT; i++) R->f[i].stack = st + STRIDE * (size_t)i;
}

struct Host { bool s; Host() { s = R->in_fiber; R->in_fiber = false; } ~Host() { R->in_fiber = s; } };   // runtime-internal allocations
#define NOTE(...) do { if (fv::X->want_trace) { Host h_; fv::X->note(__VA_ARGS__); } } while (0)

// ---- violations -----------------------------------------------------------------------------
[[noreturn]] static void vio(const char* fmt, ...) {
    char b[900]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
    R->in_fiber = false;
    fv::X->note("VIOLATED: %s", b);
    if (fv::SH) {
        fv::SH->failed = 1; snprintf(fv::SH->msg, sizeof fv::SH->msg, "%s", b);
        std::string p = fv::X->path_str(); snprintf(fv::SH->path, sizeof fv::SH->path, "%s", p.c_str());
    }
    if (fv::X->want_trace && fv::X->replaying) { signal(SIGALRM, SIG_IGN); raise(SIGABRT); }
    _exit(10);
}

// ---- shadow ---------------------------------------------------------------------------------
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t h = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C159E3779B9ull + (a << 6) + (a >> 2)); h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; h ^= h >> 32; return h; }

static Loc& loc(uintptr_t a) {
    for (size_t i = (a * 0x9E3779B97F4A7C15ull) >> (64 - LBITS);; i = (i + 1) & ((1u << LBITS) - 1)) {
        if (R->lgen[i] != R->gen) { R->lgen[i] = R->gen; memset(&R->l[i], 0, sizeof(Loc)); R->l[i].addr = a; return R->l[i]; }
        if (R->l[i].addr == a) return R->l[i];
    }
}
static Mtx& mtx(void* p) {
    uintptr_t a = (uintptr_t)p;
    for (size_t i = (a * 0x9E3779B97F4A7C15ull) >> (64 - MBITS);; i = (i + 1) & ((1u << MBITS) - 1)) {
        if (R->mgen[i] != R->gen) { R->mgen[i] = R->gen; memset(&R->m[i], 0, sizeof(Mtx)); R->m[i].addr = a; R->m[i].owner = -1; return R->m[i]; }
        if (R->m[i].addr == a) return R->m[i];
    }
}
static const char* where(uintptr_t a) {
    static char b[4][64]; static int k; char* s = b[k++ & 3];
    if (a >= (uintptr_t)R->arena && a < (uintptr_t)R->arena + ARENA) {
        for (int i = 0; i < R->nalloc; i++) { Alloc& x = R->allocs[i];
            if (a >= (uintptr_t)x.p && a < (uintptr_t)x.p + x.n) { snprintf(s, 64, "heap block %d +%ld", i, (long)(a - (uintptr_t)x.p)); return s; } }
        return "heap (no block)";
    }
    for (int i = 0; i < R->nf; i++) if (a >= (uintptr_t)R->f[i].stack && a < (uintptr_t)R->f[i].stack + STACK) { snprintf(s, 64, "stack of thread %d -%ld", i, (long)((uintptr_t)R->f[i].stack + STACK - a)); return s; }
    if (a >= (uintptr_t)__data_start && a < (uintptr_t)_end) { snprintf(s, 64, "global +%ld", (long)(a - (uintptr_t)__data_start)); return s; }
    return "memory";
}
static void heap_check(uintptr_t a, size_t n, bool wr) {
    if (a < (uintptr_t)R->arena || a >= (uintptr_t)R->arena + ARENA) return;
    // blocks are allocated in address order
    int lo = 0, hi = R->nalloc;
    while (lo < hi) { int m = (lo + hi) / 2; if ((uintptr_t)R->allocs[m].p <= a) lo = m + 1; else hi = m; }
    if (!lo) vio("%s outside any heap block", wr ? "write" : "read");
    Alloc& x = R->allocs[lo - 1];
    if (a + n > (uintptr_t)x.p + x.n) vio("%s of %zu bytes past the end of heap block %d (%zu bytes, at +%ld)", wr ? "write" : "read", n, lo - 1, x.n, (long)(a - (uintptr_t)x.p));
    if (x.freed) vio("%s of freed heap block %d at +%ld", wr ? "write" : "read", lo - 1, (long)(a - (uintptr_t)x.p));
}
static void access1(uintptr_t gaddr, uint8_t mask, bool wr, bool at) {
    Fiber& me = R->f[R->cur];
    size_t i = (gaddr * 0x9E3779B97F4A7C15ull) >> (64 - GBITS);
    Gran* g;
    for (int probes = 0;; i = (i + 1) & ((1u << GBITS) - 1)) {
        g = &R->g[i];
        if (g->gen != R->gen) { g->gen = R->gen; g->addr = gaddr; g->n = 0; break; }
        if (g->addr == gaddr) break;
        if (++probes > 60000) vio("shadow table full");
    }
    int drop = -1, same = -1;
    for (int k = 0; k < g->n; k++) {
        Rec& r = g->r[k];
        if (r.tid == R->cur) { if (r.wr == wr && r.at == at && r.mask == mask) same = k; continue; }
        bool hb = r.clk <= me.vc.c[r.tid];
        if (hb) { if (wr && !at && (r.mask & ~mask) == 0) drop = k; continue; }
        if (!(r.mask & mask) || (!wr && !r.wr)) continue;
        if (r.at && at) continue;
        vio("data race: thread %d %s%s %s, unordered with an earlier %s%s by thread %d", R->cur, at ? "atomic " : "", wr ? "write" : "read",
            where(gaddr + (uintptr_t)__builtin_ctz(mask)), r.at ? "atomic " : "", r.wr ? "write" : "read", r.tid);
    }
    Rec nr { (uint8_t)R->cur, mask, wr, at, me.vc.c[R->cur] };
    if (same >= 0) g->r[same] = nr;
    else if (drop >= 0) g->r[drop] = nr;
    else if (g->n < 14) g->r[g->n++] = nr;
    else {  // evict an ordered record if there is one
        for (int k = 0; k < g->n; k++) if (g->r[k].clk <= me.vc.c[g->r[k].tid]) { g->r[k] = nr; return; }
    }
}
static Loc* loc_find(uintptr_t a) {
    for (size_t i = (a * 0x9E3779B97F4A7C15ull) >> (64 - LBITS);; i = (i + 1) & ((1u << LBITS) - 1)) {
        if (R->lgen[i] != R->gen) return nullptr;
        if (R->l[i].addr == a) return &R->l[i];
    }
}
static void access(uintptr_t a, size_t n, bool wr, bool at) {
    if (!R || !R->active || !R->in_fiber || !n) return;
    heap_check(a, n, wr);
    if (wr && !at && n <= 16) if (Loc* l = loc_find(a)) memset(&l->rel, 0, sizeof l->rel);   // a new object at this address
    while (n) {
        uintptr_t ga = a & ~(uintptr_t)7; unsigned off = (unsigned)(a - ga); size_t k = 8 - off; if (k > n) k = n;
        access1(ga, (uint8_t)(((1u << k) - 1) << off), wr, at);
        a += k; n -= k;
    }
}
static void forget(uintptr_t a, size_t n) {       // fresh memory: no earlier accesses
    for (uintptr_t g = a & ~(uintptr_t)7; g < a + n; g += 8)
        for (size_t i = (g * 0x9E3779B97F4A7C15ull) >> (64 - GBITS);; i = (i + 1) & ((1u << GBITS) - 1)) {
            if (R->g[i].gen != R->gen) break;
            if (R->g[i].addr == g) { R->g[i].n = 0; break; }
        }
}

// ---- scheduling -----------------------------------------------------------------------------
static void to_host() {
    Fiber& me = R->f[R->cur];
    R->in_fiber = false;
    fvs_switch(&me.sp, R->host_sp);
}
static inline bool ctl() { return R && R->active && R->in_fiber; }
static void point(const char* why) { if (R->quiet) return; R->why = why; to_host(); }
static void event(uint64_t op) { Fiber& me = R->f[R->cur]; me.h = mix(me.h, op); R->tick++; me.vc.c[R->cur]++; }
// an object's position in program terms rather than its address, so that fingerprints agree across runs
static uint64_t addr_id(uintptr_t a) { return (uint64_t)a; }

static void fiber_main() {
    Fiber& me = R->f[R->cur];
    me.h = mix(me.h, 0x57A7);              // every resumption must change the fingerprint
    if (me.fn) (*me.fn)(); else me.pfn(me.parg);
    Fiber& me2 = R->f[R->cur];
    me2.st = DONE; me2.h = mix(me2.h, 0xD0);
    for (;;) to_host();
}
static void fiber_start(Fiber& f) {
    uintptr_t top = (uintptr_t)f.stack + STACK - 64;
    top &= ~(uintptr_t)15;
    void** sp = (void**)top;
    *--sp = nullptr;                   // alignment / fake return address
    *--sp = (void*)fiber_main;
    for (int i = 0; i < 6; i++) *--sp = nullptr;
    f.sp = sp;
}
static int add_fiber(std::function<void()>* fn, void* (*pfn)(void*), void* arg, bool body) {
    if (R->nf >= MAXT) { fprintf(stderr, "too many threads\n"); _exit(3); }
    int id = R->nf++;
    Fiber& f = R->f[id];
    f.fn = fn; f.pfn = pfn; f.parg = arg; f.st = RUN; f.mtx = f.cv = nullptr; f.timed = f.woken_timeout = false; f.body = body;
    memset(&f.vc, 0, sizeof f.vc); f.vc.c[id] = 1; f.h = mix(77, (uint64_t)id);
    fiber_start(f);
    return id;
}

static bool enabled(int t) {
    Fiber& f = R->f[t];
    switch (f.st) {
    case RUN: return true;
    case LOCKWAIT: return mtx(f.mtx).owner < 0;
    default: return false;
    }
}

void fvs::execute(const Options& o, const std::vector<std::function<void()>>& bodies, const std::function<void()>& at_end, const std::function<void()>& setup)
{
    rt_init();
    size_t dsz = (size_t)(_end - __data_start);
    if (!R->snapped) { R->snap = (char*) bigmap(dsz); memcpy(R->snap, __data_start, dsz); R->snapped = true; }
    // explore.h keeps X/SH/SEEN in globals: preserve across the restore
    auto x = fv::X; auto sh = fv::SH; auto seen = fv::SEEN; auto ar = fvs_after_restore; auto ara = fvs_after_restore_arg; auto cfg = fvs_config;
    char* ds = __data_start; asm volatile("" : "+r"(ds) :: "memory");   // the copy aliases every global
    memcpy(ds, R->snap, dsz);
    asm volatile("" ::: "memory");
    fv::X = x; fv::SH = sh; fv::SEEN = seen; fvs_after_restore = ar; fvs_after_restore_arg = ara; fvs_config = cfg;
    if (ar) ar(ara);

    R->gen++; R->quiet = false; R->nf = 0; R->top = 0; R->nalloc = 0; R->live = 0; R->steps = 0; R->tick = 0; R->stop = 0;
    memset(R->scratch, 0, 65536 + 4096);
    R->opt = o; R->budget = o.preemptions; R->spur = o.spurious;
    if (setup) {    // runs alone, before any other thread exists
        int id = add_fiber(const_cast<std::function<void()>*>(&setup), nullptr, nullptr, true);
        R->active = true; R->quiet = true; R->cur = id;
        while (R->f[id].st != DONE) {
            if (R->f[id].st != RUN) { R->active = false; fprintf(stderr, "setup blocks\n"); _exit(3); }
            R->in_fiber = true; fvs_switch(&R->host_sp, R->f[id].sp); R->in_fiber = false;
        }
        R->quiet = false; R->active = false;
    }
    for (int i = 0; i < R->ns; i++) add_fiber(nullptr, R->sfn[i], R->sarg[i], false);
    int first_body = R->nf;
    for (auto& b : bodies) add_fiber(const_cast<std::function<void()>*>(&b), nullptr, nullptr, true);
    if (setup) for (int t = 1; t < R->nf; t++) vjoin(R->f[t].vc, R->f[0].vc);
    // what the main program did before this point is ordered before everything
    R->active = true;
    struct Off { ~Off() { R->active = false; } } off;

    int cur = first_body;
    for (;;) {
        int opt[MAXT * 2], n = 0; bool sp[MAXT * 2] = {};
        bool cur_en = enabled(cur);
        if (cur_en) opt[n++] = cur;
        if (!cur_en || R->budget > 0)
            for (int t = 0; t < R->nf; t++) if (t != cur && enabled(t)) opt[n++] = t;
        if (!n) {   // timeouts fire only when nothing else can run
            for (int t = 0; t < R->nf; t++) if (R->f[t].st == CVWAIT && R->f[t].timed) { sp[n] = true; opt[n++] = t; }
        }
        else if (R->spur > 0)
            for (int t = 0; t < R->nf; t++) if (R->f[t].st == CVWAIT) { sp[n] = true; opt[n++] = t; }
        if (!n) {
            bool bodies_done = true, joiner = false;
            for (int t = 0; t < R->nf; t++) if (R->f[t].body) {
                if (R->f[t].st == JOINALL) joiner = true;
                else if (R->f[t].st != DONE) bodies_done = false;
            }
            if (!bodies_done) {
                std::string s;
                for (int t = 0; t < R->nf; t++) s += " thread " + std::to_string(t) + (R->f[t].st == LOCKWAIT ? " waits for a mutex;" : R->f[t].st == CVWAIT ? " waits to be notified;" : R->f[t].st == DONE ? " has ended;" : " waits for the others;");
                vio("deadlock: a caller never returns:%s", s.c_str());
            }
            if (joiner) {
                for (int t = 0; t < R->nf; t++) if (R->f[t].st == JOINALL) {
                    R->f[t].st = RUN;
                    for (int u = 0; u < R->nf; u++) if (R->f[u].body) vjoin(R->f[t].vc, R->f[u].vc);
                }
                continue;
            }
            break;
        }
        int c = 0;
        if (n > 1) {
            if (o.cache && !fv::X->replaying && fv::X->pos == fv::X->path.size() && (fv::X->workers == 1 || (int)fv::X->pos >= fv::X->split_depth)) {
                uint64_t h = 0;
                for (int t = 0; t < R->nf; t++) h += mix(R->f[t].h, (uint64_t)t * 31 + (uint64_t)R->f[t].st);
                h = o.preemptions >= 99 ? mix(h, (uint64_t)R->spur)      // unbounded: who ran last does not matter
                                        : mix(h, (uint64_t)cur * 1000 + (uint64_t)R->budget * 10 + (uint64_t)R->spur);
                h = mix(h, fvs_config);
                if (!fv::seen_add(h)) throw fv::Prune{};
            }
            c = fv::X->choose(n);
        }
        int t = opt[c];
        if (sp[c]) {
            Fiber& f = R->f[t];
            if (!f.timed || n > 1) R->spur--;
            f.st = LOCKWAIT; f.woken_timeout = f.timed; f.cv = nullptr; f.h = mix(f.h, 0x5B);
            NOTE("[thread %d: wakes up without a notification]", t);
            cur = t; continue;
        }
        if (cur_en && t != cur) { if (o.preemptions < 99) R->budget--; NOTE("[preempt thread %d -> %d]", cur, t); }
        else if (t != cur) NOTE("[switch to thread %d]", t);
        cur = t; R->cur = t;
        if (++R->steps > o.horizon) vio("no progress: more than %ld scheduling points", o.horizon);
        fv::X->ops++;
        R->in_fiber = true;
        fvs_switch(&R->host_sp, R->f[t].sp);
        R->in_fiber = false;
    }
    R->active = false;
    at_end();
}


int fvs::self() { return R->cur; }
void fvs::check_violation(const char* fmt, ...) { char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a); vio("%s", b); }
void fvs::plain_write(void* p, size_t n) { access((uintptr_t)p, n, true, false); }
void fvs::plain_read(const void* p, size_t n) { access((uintptr_t)p, n, false, false); }
void fvs::no_preempt(bool q) { R->quiet = q; }
void fvs::join_all() { R->f[R->cur].st = JOINALL; to_host(); }
void fvs::yield_point() { if (ctl()) point("yield"); }
long fvs::clock_tick() { return ++R->tick; }
void* fvs::scratch(size_t n) { void* p = R->scratch + R->stop; R->stop += (n + 15) & ~15ul; if (R->stop > 65536) abort(); return p; }
long fvs::live_allocs() { return R->live; }
void fvs::bump(int i) { ((int*)(R->scratch + 65536))[i]++; }
int* fvs::counters() { return (int*)(R->scratch + 65536); }
size_t fvs::static_threads() { return R ? (size_t)R->ns : 0; }

// ---- heap -----------------------------------------------------------------------------------
extern "C" void* __real_malloc(size_t); extern "C" void __real_free(void*);
extern "C" void* __real_calloc(size_t, size_t); extern "C" void* __real_realloc(void*, size_t);
static bool ours(void* p) { return R && (char*)p >= R->arena && (char*)p < R->arena + ARENA; }
extern "C" void* __wrap_malloc(size_t n) {
    if (!ctl()) return __real_malloc(n);
    size_t sz = (n + 31) & ~15ul;
    if (R->top + sz > ARENA || R->nalloc >= 65536) vio("out of arena");
    char* p = R->arena + R->top; R->top += sz;
    R->allocs[R->nalloc++] = Alloc{p, n ? n : 1, false}; R->live++;
    memset(p, 0xA5, sz);
    access((uintptr_t)p, n, true, false);
    return p;
}
extern "C" void __wrap_free(void* p) {
    if (!p) return;
    if (!ours(p)) {
        if (ctl()) vio("free of memory that was not allocated by this run");
        __real_free(p); return;
    }
    if (!R->active) { return; }
    for (int i = R->nalloc; i-- > 0;) if (R->allocs[i].p == p) {
        if (R->allocs[i].freed) vio("double free of heap block %d", i);
        if (R->in_fiber) access((uintptr_t)p, R->allocs[i].n, true, false);
        R->allocs[i].freed = true; R->live--;
        memset(p, 0x5A, R->allocs[i].n);
        return;
    }
    vio("free of an address inside a heap block");
}
extern "C" void* __wrap_calloc(size_t a, size_t b) { if (!ctl()) return __real_calloc(a, b); void* p = __wrap_malloc(a * b); memset(p, 0, a * b); return p; }
extern "C" void* __wrap_realloc(void* q, size_t n) {
    if (!ctl() && !ours(q)) return __real_realloc(q, n);
    void* p = __wrap_malloc(n);
    if (q) { size_t k = 0; for (int i = 0; i < R->nalloc; i++) if (R->allocs[i].p == q) k = R->allocs[i].n; memcpy(p, q, k < n ? k : n); __wrap_free(q); }
    return p;
}
void* operator new(size_t n) { return __wrap_malloc(n); }
void* operator new[](size_t n) { return __wrap_malloc(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }

// ---- pthreads -------------------------------------------------------------------------------
extern "C" {
int pthread_create(pthread_t* th, const pthread_attr_t*, void* (*fn)(void*), void* arg) {
    rt_init();
    if (!ctl()) {
        static int maxw = getenv("FVS_MAXW") ? atoi(getenv("FVS_MAXW")) : 4;
        if (R->ns >= maxw) return 0;      // a thread that never gets scheduled
        R->sfn[R->ns] = fn; R->sarg[R->ns] = arg; *th = (pthread_t)(uintptr_t)(R->ns++ + 1); return 0; }
    int id = add_fiber(nullptr, fn, arg, false);
    vjoin(R->f[id].vc, R->f[R->cur].vc); R->f[id].h = mix(R->f[R->cur].h, 0xC4);
    event(0xC3); *th = (pthread_t)(uintptr_t)(id + 1); point("create");
    return 0;
}
int pthread_detach(pthread_t) { return 0; }
int pthread_mutex_lock(pthread_mutex_t* p) {
    if (!ctl()) return 0;
    Fiber& me = R->f[R->cur];
    point("lock");
    Mtx* m = &mtx(p);
    while (m->owner >= 0) {
        if (m->owner == R->cur) vio("thread %d locks a mutex it holds", R->cur);
        me.st = LOCKWAIT; me.mtx = p; to_host(); m = &mtx(p);
    }
    me.st = RUN; m->owner = R->cur;
    vjoin(me.vc, m->rel); me.h = mix(me.h, m->h); event(0x10C); m->h = me.h;
    NOTE("thread %d: locks a mutex (%s)", R->cur, where((uintptr_t)p));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* p) {
    if (!ctl()) return 0;
    Fiber& me = R->f[R->cur]; point("trylock");
    Mtx& m = mtx(p); me.h = mix(me.h, m.h);
    if (m.owner >= 0) { event(0x10D); m.h = me.h; return EBUSY; }
    m.owner = R->cur; vjoin(me.vc, m.rel); event(0x10E); m.h = me.h;
    return 0;
}
static void do_unlock(pthread_mutex_t* p) {
    Fiber& me = R->f[R->cur]; Mtx& m = mtx(p);
    if (m.owner != R->cur) vio("thread %d unlocks a mutex it does not hold", R->cur);
    m.owner = -1; vjoin(m.rel, me.vc); me.h = mix(me.h, m.h); event(0x10F); m.h = me.h;
}
int pthread_mutex_unlock(pthread_mutex_t* p) {
    if (!ctl()) return 0;
    do_unlock(p);
    NOTE("thread %d: unlocks a mutex", R->cur);
    return 0;
}
int pthread_mutex_init(pthread_mutex_t* p, const pthread_mutexattr_t*) { memset(p, 0, sizeof *p); return 0; }
int pthread_mutex_destroy(pthread_mutex_t*) { return 0; }
static int cond_wait(pthread_cond_t* c, pthread_mutex_t* p, bool timed) {
    if (!ctl()) return 0;
    Fiber& me = R->f[R->cur];
    point("wait");
    NOTE("thread %d: waits on a condition (%s)", R->cur, where((uintptr_t)c));
    do_unlock(p);
    Loc& l = loc((uintptr_t)c); me.h = mix(me.h, l.hw); event(0xCF); l.hw = me.h;
    me.st = CVWAIT; me.cv = c; me.mtx = p; me.timed = timed; me.woken_timeout = false;
    to_host();
    // notified (or spuriously woken): st is LOCKWAIT and the mutex is free
    Mtx* m = &mtx(p);
    while (m->owner >= 0) { me.st = LOCKWAIT; to_host(); m = &mtx(p); }
    me.st = RUN; m->owner = R->cur; vjoin(me.vc, m->rel); me.h = mix(me.h, m->h); event(0x110); m->h = me.h;
    NOTE("thread %d: wakes up from its wait", R->cur);
    return me.woken_timeout ? ETIMEDOUT : 0;
}
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return cond_wait(c, m, false); }
int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec*) { return cond_wait(c, m, true); }
int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec*) { return cond_wait(c, m, true); }
int pthread_cond_init(pthread_cond_t* c, const pthread_condattr_t*) { memset(c, 0, sizeof *c); return 0; }
int pthread_cond_destroy(pthread_cond_t* c) {
    if (ctl()) for (int t = 0; t < R->nf; t++) if (R->f[t].st == CVWAIT && R->f[t].cv == c) vio("a condition variable is destroyed while thread %d waits on it", t);
    return 0;
}
static void wake(int t) { Fiber& f = R->f[t]; f.st = LOCKWAIT; f.cv = nullptr; f.h = mix(f.h, R->f[R->cur].h); }
static int signal_(pthread_cond_t* c, bool all) {
    if (!ctl()) return 0;
    Fiber& me = R->f[R->cur];
    point("notify");
    Loc& l = loc((uintptr_t)c); me.h = mix(me.h, l.hw); event(all ? 0xA1 : 0xA2); l.hw = me.h;
    int w[MAXT], n = 0;
    for (int t = 0; t < R->nf; t++) if (R->f[t].st == CVWAIT && R->f[t].cv == c) w[n++] = t;
    NOTE("thread %d: notifies %s (%s; %d waiting)", R->cur, all ? "all" : "one", where((uintptr_t)c), n);
    if (all) { for (int i = 0; i < n; i++) wake(w[i]); }
    else if (n == 1) wake(w[0]);
    else if (n > 1) {   // the choice is made by the host, which may prune
        R->signal_to = n; int k;
        k = fvs_host_choice(n);
        wake(w[k]);
    }
    return 0;
}
int pthread_cond_signal(pthread_cond_t* c) { return signal_(c, false); }
int pthread_cond_broadcast(pthread_cond_t* c) { return signal_(c, true); }
}
// Choosing inside a fiber: choices made past the split depth never prune; before it the pruning exception
// must not cross the fiber, so the choice is recorded without the split test.
int fvs_host_choice(int n) {
    fv::Explorer& x = *fv::X; int sd = x.split_depth, wk = x.workers;
    x.workers = 1; int c; { Host h_; c = x.choose(n); } x.workers = wk; x.split_depth = sd;
    // keep the split hash meaningful for the choices that follow
    x.split_hash = x.split_hash * 1000003u + (unsigned)c * 7919u + 17u;
    if (wk > 1 && (int)x.pos == sd && (int)((x.split_hash >> 3) % (unsigned)wk) != x.worker) { /* explored by every worker: harmless duplication */ }
    return c;
}

// ---- tsan ABI -------------------------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(N) \
void __tsan_read##N(void* p) { access((uintptr_t)p, N, false, false); } \
void __tsan_write##N(void* p) { access((uintptr_t)p, N, true, false); } \
void __tsan_read##N##_pc(void* p, void*) { access((uintptr_t)p, N, false, false); } \
void __tsan_write##N##_pc(void* p, void*) { access((uintptr_t)p, N, true, false); } \
void __tsan_read_write##N(void* p) { access((uintptr_t)p, N, false, false); access((uintptr_t)p, N, true, false); } \
void __tsan_unaligned_read##N(void* p) { access((uintptr_t)p, N, false, false); } \
void __tsan_unaligned_write##N(void* p) { access((uintptr_t)p, N, true, false); } \
void __tsan_unaligned_read_write##N(void* p) { access((uintptr_t)p, N, true, false); } \
void __tsan_volatile_read##N(void* p) { access((uintptr_t)p, N, false, false); } \
void __tsan_volatile_write##N(void* p) { access((uintptr_t)p, N, true, false); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { access((uintptr_t)p, 8, true, false); }
void __tsan_vptr_read(void** p) { access((uintptr_t)p, 8, false, false); }
void __tsan_read_range(void* p, long n) { access((uintptr_t)p, (size_t)n, false, false); }
void __tsan_write_range(void* p, long n) { access((uintptr_t)p, (size_t)n, true, false); }
void* __tsan_memcpy(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, size_t n) { access((uintptr_t)s, n, false, false); access((uintptr_t)d, n, true, false); return memmove(d, s, n); }
void* __tsan_memset(void* d, int c, size_t n) { access((uintptr_t)d, n, true, false); return memset(d, c, n); }
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_atomic_signal_fence(int) {}
}
static bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// Per-thread fences are modelled as a global synchronisation object (stronger than C++ requires).
// Relaxed atomic loads are not checked against plain writes: the task stack reads the link of a node
// that may already be gone, and validates what it read afterwards.
static void at_pre(const char* what, void* p, size_t n, bool wr, int mo = 5) {
    if (!ctl()) return;
    point(what);
    if (!wr && mo == __ATOMIC_RELAXED) return;
    access((uintptr_t)p, n, wr, true);
}
static void at_read(void* p, int mo) {
    if (!ctl()) return;
    Fiber& me = R->f[R->cur]; Loc& l = loc((uintptr_t)p);
    if (acq(mo)) vjoin(me.vc, l.rel);
    me.h = mix(me.h, l.hw); event(0x1D); l.hr += me.h;
}
static void at_write(void* p, int mo, bool rmw) {
    if (!ctl()) return;
    Fiber& me = R->f[R->cur]; Loc& l = loc((uintptr_t)p);
    if (rmw) { if (acq(mo)) vjoin(me.vc, l.rel); me.h = mix(me.h, l.hw); }
    me.h = mix(me.h, l.hw + l.hr * 3);
    if (rel(mo)) { if (rmw) vjoin(l.rel, me.vc); else l.rel = me.vc; }
    else if (!rmw) memset(&l.rel, 0, sizeof l.rel);
    event(0x57); l.hw = me.h; l.hr = 0;
}
static void tr(const char* what, void* p, uint64_t a, uint64_t b) {
    if (ctl()) NOTE("thread %d: atomic %s %s (%llx, %llx)", R->cur, what, where((uintptr_t)p), (unsigned long long)a & 0xffffffffff, (unsigned long long)b & 0xffffffffff);
}
template <class T> static bool cas(T* p, T* e, T v, int mo, int fmo, bool weak) {
    at_pre("cas", (void*)p, sizeof(T), true);
    bool ok = *p == *e;
    if (ok && weak && ctl() && R->spur > 0) {
        if (fvs_host_choice(2)) { R->spur--; at_read((void*)p, fmo); tr("compare-exchange fails spuriously", (void*)p, (uint64_t)*e, 0); return false; }
    }
    if (ok) { at_write((void*)p, mo, true); *p = v; } else { at_read((void*)p, fmo); }
    tr(ok ? "compare-exchange succeeds" : "compare-exchange fails", (void*)p, (uint64_t)*e, (uint64_t)v);
    if (!ok) *e = *p;
    return ok;
}
extern "C" {
#define AT(N, T) \
T __tsan_atomic##N##_load(const volatile T* p, int mo) { at_pre("load", (void*)p, sizeof(T), false, mo); at_read((void*)p, mo); tr("load", (void*)p, (uint64_t)*p, 0); return *p; } \
void __tsan_atomic##N##_store(volatile T* p, T v, int mo) { at_pre("store", (void*)p, sizeof(T), true); at_write((void*)p, mo, false); *p = v; tr("store", (void*)p, (uint64_t)v, 0); } \
T __tsan_atomic##N##_exchange(volatile T* p, T v, int mo) { at_pre("xchg", (void*)p, sizeof(T), true); at_write((void*)p, mo, true); T o = *p; *p = v; tr("exchange", (void*)p, (uint64_t)o, (uint64_t)v); return o; } \
T __tsan_atomic##N##_fetch_add(volatile T* p, T v, int mo) { at_pre("add", (void*)p, sizeof(T), true); at_write((void*)p, mo, true); T o = *p; *p = (T)(o + v); tr("fetch-add", (void*)p, (uint64_t)o, (uint64_t)v); return o; } \
T __tsan_atomic##N##_fetch_sub(volatile T* p, T v, int mo) { at_pre("sub", (void*)p, sizeof(T), true); at_write((void*)p, mo, true); T o = *p; *p = (T)(o - v); tr("fetch-sub", (void*)p, (uint64_t)o, (uint64_t)v); return o; } \
T __tsan_atomic##N##_fetch_and(volatile T* p, T v, int mo) { at_pre("and", (void*)p, sizeof(T), true); at_write((void*)p, mo, true); T o = *p; *p = (T)(o & v); return o; } \
T __tsan_atomic##N##_fetch_or(volatile T* p, T v, int mo) { at_pre("or", (void*)p, sizeof(T), true); at_write((void*)p, mo, true); T o = *p; *p = (T)(o | v); return o; } \
T __tsan_atomic##N##_fetch_xor(volatile T* p, T v, int mo) { at_pre("xor", (void*)p, sizeof(T), true); at_write((void*)p, mo, true); T o = *p; *p = (T)(o ^ v); return o; } \
int __tsan_atomic##N##_compare_exchange_strong(volatile T* p, T* e, T v, int mo, int fmo) { return cas((T*)p, e, v, mo, fmo, false); } \
int __tsan_atomic##N##_compare_exchange_weak(volatile T* p, T* e, T v, int mo, int fmo) { return cas((T*)p, e, v, mo, fmo, true); } \
T __tsan_atomic##N##_compare_exchange_val(volatile T* p, T e, T v, int mo, int fmo) { cas((T*)p, &e, v, mo, fmo, false); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {
    if (!ctl()) return;
    point("fence"); Fiber& me = R->f[R->cur]; Loc& l = loc(1); vjoin(me.vc, l.rel); vjoin(l.rel, me.vc); me.h = mix(me.h, l.hw); event(0xFE); l.hw = me.h;
}
}
