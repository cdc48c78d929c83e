// C05: fu::parallel_for (include/par/parfor.cpp, the real code) under every schedule.
#include "fvsched.h"
#include <par/parfor.cpp>

extern uint64_t fvs_config;
#define NOINL __attribute__((noinline))

static int data_[512];          // plain accesses: the race detector watches them
static int secret;

NOINL static void poison() { volatile char b[3000]; memset((void*)b, 0x77, sizeof b); asm volatile("" :: "r"(b) : "memory"); }

struct Scn { int size, per, nested, repeat; };

NOINL static void loop(int base, const Scn& s) {
    int tag = 41 + base;
    fu::parallel_for((size_t)s.size, (size_t)s.per, [&](size_t a, size_t b) {
        if (a > b || b > (size_t)s.size) fvs::check_violation("the loop body got the range %zu .. %zu of a loop over %d indices", a, b, s.size);
        if (a < b || s.size == 0) {}
        for (size_t i = a; i < b; i++) {
            fvs::bump(base + (int)i);
            data_[base + (int)i] += tag;
            if (s.nested && (int)i < s.nested) {
                int ib = base + 16 + (int)i * 4;
                fu::parallel_for(2, 1, [&](size_t c, size_t d) {
                    for (size_t j = c; j < d; j++) { fvs::bump(ib + (int)j); data_[ib + (int)j] += tag; }
                });
                poison();
                for (int j = 0; j < 2; j++) if (data_[ib + j] != tag || fvs::counters()[ib + j] != 1) fvs::check_violation("an inner loop returned before its index %d was done", j);
            }
        }
    });
    poison();
    for (int i = 0; i < s.size; i++) {
        if (fvs::counters()[base + i] != 1) fvs::check_violation("loop over %d indices, %d per batch: index %d was executed %d times when the loop returned", s.size, s.per, i, fvs::counters()[base + i]);
        if (data_[base + i] != tag) fvs::check_violation("an index' effects are missing when the loop returned");
        data_[base + i] = 0;
    }
}

int main(int argc, char** argv) {
    int pre = 2, spur = 0, masters = 1, workers = 8; double secs = 60; std::string rep, scn = "3,1,0,1"; long horizon = 20000; int split = 4;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--pre") pre = stoi(nx()); else if (a == "--spur") spur = stoi(nx()); else if (a == "--masters") masters = stoi(nx());
        else if (a == "--workers") workers = stoi(nx()); else if (a == "--seconds") secs = stod(nx()); else if (a == "--replay") rep = nx();
        else if (a == "--scn") scn = nx(); else if (a == "--split") split = stoi(nx());
    }
    // scenarios "size,per,nested,repeat;..." chosen by the explorer
    static std::vector<Scn> S;
    for (size_t p = 0; p < scn.size();) {
        Scn s; if (sscanf(scn.c_str() + p, "%d,%d,%d,%d", &s.size, &s.per, &s.nested, &s.repeat) != 4) return 3;
        S.push_back(s); p = scn.find(';', p); if (p == std::string::npos) break; p++;
    }
    auto body = [&] {
        int k = S.size() > 1 ? fv::X->choose((int)S.size()) : 0;
        Scn s = S[(size_t)k];
        fvs_config = (uint64_t)k;
        fv::X->note("loop over %d indices, at least %d per batch, %d nested, %d times, %d callers", s.size, s.per, s.nested, s.repeat, masters);
        fvs::Options o; o.preemptions = pre; o.spurious = spur; o.horizon = horizon;
        std::vector<std::function<void()>> bodies;
        for (int m = 0; m < masters; m++)
            bodies.push_back([m, s] {
                for (int r = 0; r < s.repeat; r++) loop(m * 256 + r * 128, s);
                fvs::join_all();
            });
        fvs::execute(o, bodies, [&] {
            for (int m = 0; m < masters; m++) for (int r = 0; r < s.repeat; r++) for (int i = 0; i < s.size; i++)
                FV_CHECK(fvs::counters()[m * 256 + r * 128 + i] == 1, "index %d was executed %d times once everything was idle", i, fvs::counters()[m * 256 + r * 128 + i]);
        });
    };
    char label[300];
    snprintf(label, sizeof label, "parallel loop, %s worker threads, %d callers, <=%d preemptions, <=%d spurious wake-ups", getenv("fu_NUM_WORKER_THREADS"), masters, pre, spur);
    fv::seen_init(26);
    if (!rep.empty()) { auto r = fv::replay(body, rep); printf("%s\n%s\n", r.trace.c_str(), r.violated ? r.msg.c_str() : "held"); return r.violated; }
    return fv::run(label, body, workers, secs, split);
}
