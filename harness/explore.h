// Stateless exhaustive explorer: run(body) re-executes `body` once for every
// sequence of answers that choose() can give; choices are enumerated depth first.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <string>
#include <vector>
#include <functional>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>

namespace fv {

struct Violation { std::string what; };
struct Prune {};

struct Shared {
    volatile long runs, ops, distinct, pruned;
    volatile int  failed, capped;
    char          msg[8192];
    char          path[8192];
    char          sample[4][600];
};

struct Explorer {
    std::vector<int> path, width;
    size_t pos = 0;
    bool replaying = false;
    std::string trace;          // human readable, rebuilt by each run
    bool want_trace = false;
    int  worker = 0, workers = 1;
    int  split_depth = 3;       // subtrees at this depth are dealt to the workers
    uint64_t split_hash = 0;
    long ops = 0, distinct = 0, pruned = 0;
    size_t fresh_from = 0;      // first choice position that differs from the previous run

    int choose(int n, const char* = "") {
        if (n <= 0) throw Prune{};
        if (pos == path.size()) {
            path.push_back(0);
            width.push_back(n);
        }
        else if (replaying) { if (path[pos] >= n) { fprintf(stderr, "bad replay\n"); _exit(2); } }
        else if (width[pos] != n) {
            fprintf(stderr, "non-deterministic harness at choice %zu: %d vs %d\n", pos, width[pos], n);
            _exit(3);
        }
        int c = path[pos++];
        if (!replaying && workers > 1 && (int)pos <= split_depth) {
            split_hash = split_hash * 1000003u + (unsigned) c * 7919u + 17u;
            if ((int)pos == split_depth && (int)((split_hash >> 3) % (unsigned)workers) != worker)
                throw Prune{};
        }
        return c;
    }

    template <typename... A> void note(const char* fmt, A... a) {
        if (!want_trace) return;
        char b[1024]; snprintf(b, sizeof b, fmt, a...); trace += b; trace += "\n";
    }
    void note(const char* s) { if (want_trace) { trace += s; trace += "\n"; } }

    bool next() {
        while (!path.empty()) {
            if (++path.back() < width.back()) { fresh_from = path.size() - 1; return true; }
            path.pop_back(); width.pop_back();
        }
        return false;
    }

    std::string path_str() const {
        std::string s;
        for (size_t i = 0; i < path.size() && i < pos; i++) { if (i) s += ","; s += std::to_string(path[i]); }
        return s;
    }
};

inline Explorer* X;
inline Shared*   SH;

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

// Distinct fingerprints over all workers (shared, lock-free open addressing).
struct Seen { volatile uint64_t* tab = nullptr; uint64_t mask = 0; volatile long* count = nullptr; };
inline Seen SEEN;
inline void seen_init(int bits = 25) {
    size_t n = (size_t)1 << bits;
    SEEN.tab = (volatile uint64_t*) mmap(nullptr, n * 8 + 64, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    SEEN.mask = n - 1; SEEN.count = (volatile long*)(SEEN.tab + n);
}
inline bool seen_add(uint64_t h) {       // true if new
    if (!SEEN.tab) return false;
    h ^= h >> 31; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29; if (!h) h = 1;
    if ((uint64_t)*SEEN.count > (SEEN.mask / 4) * 3) return true;   // full: undercounts, never prunes
    for (uint64_t i = h & SEEN.mask;; i = (i + 1) & SEEN.mask) {
        uint64_t v = SEEN.tab[i];
        if (v == h) return false;
        if (!v) {
            if (__sync_bool_compare_and_swap(&SEEN.tab[i], (uint64_t)0, h)) { __sync_fetch_and_add(SEEN.count, 1); return true; }
            if (SEEN.tab[i] == h) return false;
        }
    }
}
struct Hash { uint64_t h = 1469598103934665603ull; void add(uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 1099511628211ull; } };

[[noreturn]] inline void fatal(const char* what) {   // from inside noexcept code
    if (SH) {
        SH->failed = 1; snprintf(SH->msg, sizeof SH->msg, "%s", what);
        std::string p = X ? X->path_str() : ""; snprintf(SH->path, sizeof SH->path, "%s", p.c_str());
    }
    _exit(10);
}

[[noreturn]] inline void fail(const std::string& what) { throw Violation{what}; }
#define FV_CHECK(cond, ...) do { if (!(cond)) { char _b[1024]; snprintf(_b, sizeof _b, __VA_ARGS__); fv::fail(_b); } } while (0)

inline void crash_handler(int sig) {
    // The process is one worker: record the path and leave.
    if (SH && !SH->failed) {
        SH->failed = 1;
        snprintf(SH->msg, sizeof SH->msg, "the code under test died with signal %d (%s)", sig, strsignal(sig));
        std::string p = X ? X->path_str() : "";
        snprintf(SH->path, sizeof SH->path, "%s", p.c_str());
    }
    _exit(10);
}

// Returns 0 (held), 1 (violated), 2 (error). Options: --replay a,b,c  --workers N  --seconds S
struct Result { long runs = 0, ops = 0, distinct = 0; bool violated = false; std::string msg, path, trace; std::vector<std::string> samples; bool capped = false; bool error = false; };

inline Result explore(const std::function<void()>& body, int workers, double seconds, const std::string& label, int split_depth = 3)
{
    Result r;
    Shared* sh = (Shared*) mmap(nullptr, sizeof(Shared) * (size_t)workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids;
    fflush(stdout); fflush(stderr);
    for (int w = 0; w < workers; w++) {
        pid_t pid = fork();
        if (!pid) {
            SH = sh + w;
            Explorer ex; X = &ex;
            ex.worker = w; ex.workers = workers; ex.split_depth = split_depth;
            for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, crash_handler);
            double t0 = now(); long n = 0;
            for (;;) {
                ex.pos = 0; ex.split_hash = 0; ex.trace.clear();
                bool counted = true;
                if (n >= 3000 && n < 3002) ex.want_trace = true; else ex.want_trace = false;
                try { body(); }
                catch (Prune&) { counted = false; }
                catch (Violation& v) {
                    SH->failed = 1;
                    snprintf(SH->msg, sizeof SH->msg, "%s", v.what.c_str());
                    snprintf(SH->path, sizeof SH->path, "%s", ex.path_str().c_str());
                    break;
                }
                // choices never reached by this run do not exist
                ex.path.resize(ex.pos); ex.width.resize(ex.pos);
                if (counted) {
                    if (ex.want_trace) snprintf(SH->sample[n & 1], sizeof SH->sample[0], "%s", ex.trace.c_str());
                    n++; SH->runs = n;
                }
                if (!ex.next()) break;
                if ((n & 255) == 0 && now() - t0 > seconds) { SH->capped = 1; break; }
            }
            SH->ops = ex.ops; SH->distinct = ex.distinct;
            _exit(SH->failed ? 10 : 0);
        }
        pids.push_back(pid);
    }
    for (int w = 0; w < workers; w++) {
        int st = 0; waitpid(pids[w], &st, 0);
        Shared& s = sh[w];
        r.runs += s.runs; r.ops += s.ops; r.distinct += s.distinct; r.capped |= s.capped != 0;
        if (s.failed && !r.violated) { r.violated = true; r.msg = s.msg; r.path = s.path; }
        else if (!s.failed && !(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
            if (WIFSIGNALED(st) || (WIFEXITED(st) && (WEXITSTATUS(st) == 1 || WEXITSTATUS(st) == 66))) {
                // sanitizer exit or uncatchable death
                r.violated = true; r.msg = "worker ended abnormally, status " + std::to_string(st); r.path = s.path;
            } else r.error = true;
        }
        for (auto& sm : s.sample) if (sm[0] && r.samples.size() < 4) r.samples.push_back(sm);
    }
    munmap(sh, sizeof(Shared) * (size_t)workers);
    (void) label;
    return r;
}

// Re-runs one path in a child; returns the trace and verdict.
inline Result replay(const std::function<void()>& body, const std::string& path)
{
    Result r;
    Shared* sh = (Shared*) mmap(nullptr, sizeof(Shared) + (1 << 16), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    char* tr = (char*)(sh + 1);
    fflush(stdout);
    pid_t pid = fork();
    if (!pid) {
        SH = sh; Explorer ex; X = &ex; ex.replaying = true; ex.want_trace = true;
        for (size_t i = 0; i < path.size(); ) {
            ex.path.push_back(atoi(path.c_str() + i)); ex.width.push_back(0);
            i = path.find(',', i); if (i == std::string::npos) break; i++;
        }
        struct Save { Explorer& e; char* t; };
        static Save* save; Save s{ex, tr}; save = &s;
        auto h = +[](int sig) { snprintf(save->t, 1 << 16, "%s", save->e.trace.c_str()); crash_handler(sig); };
        for (int g : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(g, h);
        try { body(); }
        catch (Prune&) {}
        catch (Violation& v) { SH->failed = 1; snprintf(SH->msg, sizeof SH->msg, "%s", v.what.c_str()); }
        snprintf(tr, 1 << 16, "%s", ex.trace.c_str());
        _exit(SH->failed ? 10 : 0);
    }
    int st; waitpid(pid, &st, 0);
    r.violated = sh->failed || !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    r.msg = sh->failed ? sh->msg : "abnormal exit status " + std::to_string(st);
    r.trace = tr; r.path = path;
    return r;
}

inline std::string json_str(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o + "\"";
}

// One line of JSON per explored configuration, read by lib/fv.py.
inline int report(const std::string& label, const Result& r) {
    long distinct = SEEN.tab ? *SEEN.count : r.distinct;
    printf("FVRESULT {\"label\":%s,\"runs\":%ld,\"ops\":%ld,\"distinct\":%ld,\"violated\":%s,\"capped\":%s,\"error\":%s,\"msg\":%s,\"path\":%s,\"trace\":%s,\"samples\":[",
        json_str(label).c_str(), r.runs, r.ops, distinct, r.violated ? "true" : "false", r.capped ? "true" : "false", r.error ? "true" : "false",
        json_str(r.msg).c_str(), json_str(r.path).c_str(), json_str(r.trace).c_str());
    for (size_t i = 0; i < r.samples.size(); i++) printf("%s%s", i ? "," : "", json_str(r.samples[i]).c_str());
    printf("]}\n"); fflush(stdout);
    return r.violated ? 1 : r.error ? 2 : 0;
}

// explore + confirm by replay + report
inline int run(const std::string& label, const std::function<void()>& body, int workers, double seconds, int split_depth = 3) {
    Result r = explore(body, workers, seconds, label, split_depth);
    if (r.violated && !r.path.empty()) {
        Result c = replay(body, r.path);
        r.trace = c.trace;
        if (!c.violated) { r.error = true; r.violated = false; r.msg = "not reproduced on replay: " + r.msg; }
        else r.msg = c.msg;
    }
    return report(label, r);
}

} // namespace fv
