// Explorer behind the Fu drivers: exhaustive enumeration of the choices a driver makes (depth-first, restartable),
// a set of visited states, counters, and a report in the format of harness/explore.h.
// Sharding: the choices made before "split" choices are spread over FV_SHARD=i/n processes.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <unordered_set>
#include <csignal>
#include <unistd.h>
#include <ctime>
#include <exception>

namespace fvd {
struct State {
    std::vector<int> path, width;
    size_t pos = 0;
    bool started = false;
    uint64_t runs = 0, ops = 0, distinct = 0;
    std::unordered_set<std::string> seen;
    std::string notes, sample, label = "?";
    int shard = 0, shards = 1; size_t split = 1;
    uint64_t leader = 0;
    bool capped = false; double t0 = 0, limit = 1e9;
    std::vector<int> forced; bool replay = false;
};
inline State& S() { static State* s = new State; return *s; }
inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec; }
inline std::string js(const std::string& s) {
    std::string o = "\"";
    for (unsigned char c : s) { char b[8]; if (c == '"' || c == '\\') { o += '\\'; o += (char) c; } else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; } else o += (char) c; }
    return o + "\"";
}
inline void report(bool violated, const std::string& msg) {
    State& s = S();
    std::string path; for (size_t i = 0; i < s.pos && i < s.path.size(); i++) path += (i ? "," : "") + std::to_string(s.path[i]);
    std::string o = "\nFVRESULT {\"label\":" + js(s.label) + ",\"runs\":" + std::to_string(s.runs) + ",\"ops\":" + std::to_string(s.ops)
        + ",\"distinct\":" + std::to_string(s.distinct + s.seen.size()) + ",\"violated\":" + (violated ? "true" : "false") + ",\"capped\":" + (s.capped ? "true" : "false")
        + ",\"error\":false,\"msg\":" + js(msg) + ",\"path\":\"" + path + "\",\"trace\":" + js(violated ? s.notes : "") + ",\"samples\":[" + js(s.sample) + "]}\n";
    size_t k = 0; while (k < o.size()) { ssize_t n = write(1, o.data() + k, o.size() - k); if (n <= 0) break; k += (size_t) n; }
}
[[noreturn]] inline void fail(const std::string& msg) { fflush(stdout); report(true, msg); _exit(1); }
inline void on_signal(int sig) {
    static bool twice = false; if (twice) _exit(1); twice = true;
    fflush(stdout); report(true, std::string("the program ") + (sig == SIGABRT ? "aborted (assertion or uncaught error)" : sig == SIGALRM ? "did not come back from an operation (25 s)" : sig == SIGFPE ? "divided by zero" : "accessed memory it must not")); _exit(1);
}
inline void init(const char* label) {
    State& s = S(); s.label = label; s.t0 = now();
    if (const char* e = getenv("FV_SHARD")) sscanf(e, "%d/%d", &s.shard, &s.shards);
    if (const char* e = getenv("FV_SPLIT")) s.split = (size_t) atoi(e);
    if (const char* e = getenv("FV_SECONDS")) s.limit = atof(e);
    if (const char* e = getenv("FV_REPLAY")) { s.replay = true; for (const char* p = e; *p;) { s.forced.push_back(atoi(p)); p = strchr(p, ','); if (!p) break; p++; } }
    for (int g : { SIGABRT, SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGALRM }) signal(g, on_signal);
    std::set_terminate([] {
        std::string m = "an error nobody caught";
        if (auto p = std::current_exception()) { try { std::rethrow_exception(p); } catch (const std::exception& e) { m += std::string(": ") + e.what(); } catch (...) {} }
        fail(m);
    });
}
struct Prune {};
// true while there is another run to do
inline bool begin() {
    State& s = S();
    alarm(25);
    if (!s.started) { s.started = true; if (s.replay) s.path = s.forced; s.width.assign(s.path.size(), 0); }
    else {
        s.runs++;
        if (s.sample.empty() || (s.runs & (s.runs - 1)) == 0) s.sample = s.notes;
        if (s.replay) return false;
        if ((s.runs & 63) == 0 && now() - s.t0 > s.limit) { s.capped = true; return false; }
        while (!s.path.empty()) { if (s.path.back() + 1 < s.width.back()) { s.path.back()++; break; } s.path.pop_back(); s.width.pop_back(); }
        if (s.path.empty()) return false;
    }
    s.pos = 0; s.notes.clear();
    return true;
}
inline bool mine() {       // does this shard own the current prefix?
    State& s = S(); uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < s.split && i < s.pos; i++) h = (h ^ (uint64_t) s.path[i]) * 1099511628211ull + 7;
    return (h >> 20) % (uint64_t) s.shards == (uint64_t) s.shard;
}
inline int choose(int n) {
    State& s = S();
    if (n < 1) fail("driver: choose of nothing");
    if (s.pos == s.path.size()) { s.path.push_back(0); s.width.push_back(n); }
    s.width[s.pos] = n;
    return s.path[s.pos++];
}
// index -> does it belong to this shard (drivers that enumerate by counting)
inline bool mine_index(long long i) { State& s = S(); return s.shards < 2 || (long long) (((uint64_t) i * 0x9E3779B97F4A7C15ull) >> 33) % s.shards == s.shard; }
inline bool owned() { State& s = S(); return s.shards < 2 || s.replay || mine(); }
inline bool fresh(const char* p, size_t n) { return S().seen.insert(std::string(p, n)).second; }
inline void note(const char* p, size_t n) { S().notes += std::string(p, n) + "\n"; }
inline bool late() { State& s = S(); if (now() - s.t0 > s.limit) { s.capped = true; return true; } return false; }
inline void done() { report(false, ""); }
}
