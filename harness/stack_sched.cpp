// C04: lockfree::stack (include/lockfree/stack.hpp) under every schedule: linearizability against a
// sequential stack, conservation of nodes, publication of node contents.
#include "fvsched.h"
#include <lockfree/stack.hpp>
#include <vector>
#include <set>
#include <algorithm>

extern uint64_t fvs_config;
struct alignas(16) Node { void* next; int payload; int pad; };
#ifndef BITS
#define BITS 3
#endif
typedef lockfree::stack<BITS> Stack;

#define NO __attribute__((no_sanitize("thread"))) __attribute__((noinline))
enum { PUSH, PUSH2, POP };
struct Op { int kind, a, b; };                     // a: top node, b: second (chain) or -1; POP result in a
struct Rec { int thread; Op op; long t0, t1; };
struct Log { Rec r[32]; int n; };

static Node nodes[8];
static Stack stk;

NO static int log_begin(Log* l, int th, Op op) { Rec& r = l->r[l->n]; r.thread = th; r.op = op; r.t0 = fvs::clock_tick(); r.t1 = 1L << 60; return l->n++; }
NO static void log_end(Log* l, int i, int a) { l->r[i].op.a = a; l->r[i].t1 = fvs::clock_tick(); }

// programs: P<k> push own/held node k, p push a node popped before (any held), C push chain of two held, O pop
typedef std::string Prog;

struct Held { int v[8], n; };
static void run_prog(int th, const char* prog, const int* own, int nown, Log* l) {
    Held h; h.n = 0; for (int i = 0; i < nown; i++) h.v[h.n++] = own[i];
    for (const char* c = prog; *c; c++) {
        if (*c == 'O') {
            int k = log_begin(l, th, Op{POP, -1, -1});
            Node* n = (Node*) stk.try_pop();
            int id = -1;
            if (n) {
                id = (int)(n - nodes);
                if (id < 0 || id >= 8) fvs::check_violation("pop returned an address that was never pushed");
                if (n->payload != 1000 + id) fvs::check_violation("a popped node's contents are not the ones it was pushed with");
            }
            log_end(l, k, id);
            if (n) { n->payload = -7; h.v[h.n++] = id; }
        }
        else if (*c == 'P' && h.n >= 1) {
            int id = h.v[--h.n]; nodes[id].payload = 1000 + id;
            int k = log_begin(l, th, Op{PUSH, id, -1});
            stk.push((char*)&nodes[id], (char*)&nodes[id]);
            log_end(l, k, id);
        }
        else if (*c == 'p' && h.n >= 1) {           // the node held longest
            int id = h.v[0]; for (int i = 1; i < h.n; i++) h.v[i - 1] = h.v[i]; h.n--;
            nodes[id].payload = 1000 + id;
            int k = log_begin(l, th, Op{PUSH, id, -1});
            stk.push((char*)&nodes[id], (char*)&nodes[id]);
            log_end(l, k, id);
        }
        else if (*c >= 'b' && *c <= 'n') {           // 2^k head changes in one go that leave the same node on top of another stack
            fvs::no_preempt(true);
            Node *a = (Node*) stk.try_pop(), *b = (Node*) stk.try_pop(), *d = (Node*) stk.try_pop();
            if (a && b && d) {
                for (int i = 0; i < (1 << (*c - 'a' + 1)) - 4; i += 2) { stk.push((char*)a, (char*)a); if ((Node*) stk.try_pop() != a) fvs::check_violation("a single thread popped something else than it had just pushed"); }
                int ia = (int)(a - nodes), ib = (int)(b - nodes), id = (int)(d - nodes);
                int k = log_begin(l, th, Op{POP, -1, -1}); log_end(l, k, ia);
                k = log_begin(l, th, Op{POP, -1, -1}); log_end(l, k, ib);
                k = log_begin(l, th, Op{POP, -1, -1}); log_end(l, k, id);
                k = log_begin(l, th, Op{PUSH, ia, -1});
                stk.push((char*)a, (char*)a);
                log_end(l, k, ia);
                h.v[h.n++] = ib; h.v[h.n++] = id;
            } else { if (b) stk.push((char*)b, (char*)b); if (a) stk.push((char*)a, (char*)a); }
            fvs::no_preempt(false);
        }
        else if (*c == 'C' && h.n >= 2) {
            int a = h.v[h.n - 2], b = h.v[h.n - 1]; h.n -= 2;
            nodes[a].payload = 1000 + a; nodes[b].payload = 1000 + b; nodes[a].next = &nodes[b];
            int k = log_begin(l, th, Op{PUSH2, a, b});
            stk.push((char*)&nodes[a], (char*)&nodes[b]);
            log_end(l, k, a);
        }
    }
}

static bool linearizable(std::vector<Rec>& ops, std::vector<bool>& done, std::vector<int>& st, size_t left, std::vector<int>& fin, std::set<std::pair<long, std::vector<int>>>& bad) {
    if (!left) return st == fin;
    long mask = 0; for (size_t i = 0; i < ops.size(); i++) if (done[i]) mask |= 1L << i;
    if (bad.count({mask, st})) return false;
    long mint1 = 1L << 61;
    for (size_t i = 0; i < ops.size(); i++) if (!done[i]) mint1 = std::min(mint1, ops[i].t1);
    for (size_t i = 0; i < ops.size(); i++) if (!done[i] && ops[i].t0 < mint1) {
        Op& o = ops[i].op; std::vector<int> s2 = st;
        if (o.kind == POP) { if (o.a < 0) { if (!st.empty()) continue; } else { if (st.empty() || st.back() != o.a) continue; s2.pop_back(); } }
        else { if (o.kind == PUSH2) s2.push_back(o.b); s2.push_back(o.a); }
        done[i] = true;
        if (linearizable(ops, done, s2, left - 1, fin, bad)) return true;
        done[i] = false;
    }
    bad.insert({mask, st});
    return false;
}

int main(int argc, char** argv) {
    int pre = 99, spur = 0, workers = 8, threads = 2, len = 2, split = 6; double secs = 60; std::string rep, list; long warm = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--pre") pre = stoi(nx()); else if (a == "--spur") spur = stoi(nx()); else if (a == "--threads") threads = stoi(nx());
        else if (a == "--workers") workers = stoi(nx()); else if (a == "--seconds") secs = stod(nx()); else if (a == "--replay") rep = nx();
        else if (a == "--len") len = stoi(nx()); else if (a == "--split") split = stoi(nx()); else if (a == "--warm") warm = stol(nx());
        else if (a == "--progs") list = nx();
    }
    // all programs up to `len` operations over the alphabet, as multisets over threads; or an explicit list a/b/c;...
    std::vector<std::vector<Prog>> combos;
    if (!list.empty()) {
        size_t p = 0; std::vector<Prog> cur; std::string w;
        for (;; p++) { char c = p < list.size() ? list[p] : ';'; if (c == '/' || c == ';') { cur.push_back(w); w.clear(); if (c == ';') { combos.push_back(cur); cur.clear(); } } else w += c; if (p >= list.size()) break; }
    } else {
        std::vector<Prog> ps; std::vector<Prog> layer{""};
        for (int d = 0; d < len; d++) { std::vector<Prog> nl; for (auto& q : layer) for (char c : {'O', 'P', 'p', 'C'}) nl.push_back(q + c); layer = nl; for (auto& q : nl) ps.push_back(q); }
        std::vector<Prog> full; for (auto& q : ps) if ((int)q.size() == len) full.push_back(q);
        std::vector<size_t> ix((size_t)threads, 0);
        for (;;) {
            std::vector<Prog> c; for (auto k : ix) c.push_back(full[k]); combos.push_back(c);
            int j = threads - 1;
            for (; j >= 0; j--) if (ix[(size_t)j] + 1 < full.size()) { ix[(size_t)j]++; for (int k = j + 1; k < threads; k++) ix[(size_t)k] = ix[(size_t)j]; break; }
            if (j < 0) break;
        }
    }
    // the version tag wraps: start next to the wrap-around
    for (long i = 0; i < warm; i++) { stk.push((char*)&nodes[0], (char*)&nodes[0]); stk.try_pop(); }
    static uint64_t head0 = stk.head.load();
    static long nconf = (long)combos.size() * 4;
    auto body = [&] {
        int ci = combos.size() > 1 ? fv::X->choose((int)combos.size()) : 0;
        int init = fv::X->choose(4);                 // nodes on the stack to begin with: 0..3
        auto& progs = combos[(size_t)ci];
        fvs_config = (uint64_t)(ci * 4 + init);
        std::string d; for (auto& p : progs) d += " " + p;
        fv::X->note("%d nodes on the stack, programs%s (O pop, P push newest held node, p push oldest held node, C push a chain of two)", init, d.c_str());
        fvs::Options o; o.preemptions = pre; o.spurious = spur; o.horizon = 3000;
        int own[4][2]; 
        std::vector<std::function<void()>> bodies;
        Log* L = nullptr;
        std::vector<int> st0; for (int i = init - 1; i >= 0; i--) st0.push_back(i);   // node 0 on top
        static Log logmem; 
        int n = (int)progs.size();
        for (int t = 0; t < n; t++) {
            bodies.push_back([&, t] {
                if (t == 0) { }
                int k = 0; int mine[2];
                // nodes 3.. are dealt to the threads: two each for one or two threads, one each for more
                if (n <= 2) { mine[k++] = 3 + t * 2; mine[k++] = 4 + t * 2; } else mine[k++] = 3 + t;
                run_prog(t, progs[(size_t)t].c_str(), mine, k, &logmem);
                fvs::join_all();
            });
        }
        (void) own; (void) L; (void) head0;
        // initial contents are placed by the host after the snapshot restore, through a body-less hook
        extern void (*fvs_after_restore)(void*); extern void* fvs_after_restore_arg;
        static int s_init; s_init = init;
        fvs_after_restore = [](void* p) {
            int in = (int)(intptr_t)p;
            for (int i = 0; i < 8; i++) nodes[i].payload = 1000 + i;
            for (int i = in - 1; i >= 0; i--) stk.push((char*)&nodes[i], (char*)&nodes[i]);
            logmem.n = 0;
        };
        fvs_after_restore_arg = (void*)(intptr_t)init;
        fvs::execute(o, bodies, [&] {
            std::vector<int> fin;
            for (;;) { Node* x = (Node*) stk.try_pop(); if (!x) break; fin.push_back((int)(x - nodes)); FV_CHECK(fin.size() <= 8 && x >= nodes && x < nodes + 8, "the stack became cyclic or lost its links"); }
            std::reverse(fin.begin(), fin.end());
            std::vector<Rec> ops(logmem.r, logmem.r + logmem.n); std::vector<bool> done(ops.size(), false);
            std::set<std::pair<long, std::vector<int>>> bad;
            if (!linearizable(ops, done, st0, ops.size(), fin, bad)) {
                std::string s; char b[100];
                for (auto& r : ops) { snprintf(b, sizeof b, " thread %d %s %d%s;", r.thread, r.op.kind == POP ? "pop ->" : "push", r.op.a, r.op.kind == PUSH2 ? " (chain)" : ""); s += b; }
                s += " left on the stack:"; for (int f : fin) s += " " + std::to_string(f);
                fv::fail("no sequential order of the operations explains the results:" + s);
            }
        });
    };
    (void) nconf;
    char label[300];
    snprintf(label, sizeof label, "task stack, %d threads, programs of %d operations, %s preemptions, <=%d spurious CAS failures%s", list.empty() ? threads : (int)combos[0].size(), len, pre >= 99 ? "any number of" : std::to_string(pre).c_str(), spur, warm ? ", tag about to wrap" : "");
    fv::seen_init(26);
    if (!rep.empty()) { auto r = fv::replay(body, rep); printf("%s\n%s\n", r.trace.c_str(), r.violated ? r.msg.c_str() : "held"); return r.violated; }
    return fv::run(label, body, workers, secs, split);
}
