// C19: hot-swapped functions. Every history of replacing the library, signalling and calling hotswap::here() up to a
// depth, in a process of its own, against a model of which definition each function has.
#include "explore.h"
#include <dl/hotswap.hpp>
#include <fcntl.h>
#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <string>
#include <map>

// What the compiler emits for `hotswap fn f` and `hotswap fn g` of this program (version 0).
extern "C" fu_EXPORT int fv_f_local(int x) { return 1000 + x; }
extern "C" fu_EXPORT int fv_g_local(int x) { return 2000 + x; }
extern int (*fv_f)(int); extern int (*fv_g)(int);
int (*fv_f)(int) = fu::hotswap("fv_f_local", fv_f, &fv_f_local);
int (*fv_g)(int) = fu::hotswap("fv_g_local", fv_g, &fv_g_local);

// State of the program, which the libraries use too.
extern "C" fu_EXPORT int fv_calls; int fv_calls = 0;

static std::string g_variants, g_dir, g_lib; static int g_depth = 4, g_shard = 0, g_shards = 1;
static const char* VARIANTS[] = { "fg1", "fg2", "f3", "g4", "none", "bad", "" };       // "" = no file
struct Def { int f, g; };           // versions a variant defines, 0 = does not
static const Def DEFS[] = { { 1, 1 }, { 2, 2 }, { 3, 0 }, { 0, 4 }, { 0, 0 }, { -1, -1 }, { -1, -1 } };

static void put(const char* from, const std::string& to) {
    unlink(to.c_str());
    if (!*from) return;
    std::string src = g_variants + "/" + from, tmp = to + ".new";
    int a = open(src.c_str(), O_RDONLY), b = open(tmp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0755);
    char buf[65536]; ssize_t n;
    while ((n = read(a, buf, sizeof buf)) > 0) if (write(b, buf, (size_t) n) != n) abort();
    close(a); close(b);
    if (rename(tmp.c_str(), to.c_str())) abort();
}
static std::string contents(const std::string& p) {
    std::string r; FILE* f = fopen(p.c_str(), "rb"); if (!f) return "(no file)";
    char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) r.append(buf, n); fclose(f); return r;
}
static int g_called; static void callback(void* p) { ++*(int*) p; }

static void run_ops(const std::vector<int>& ops) {      // in the child
    int file = 6, f = 0, g = 0, calls = 0; bool manual = false, pending = false, cb = false; int called = 0;
    auto reload = [&] { if (DEFS[file].f < 0) return; if (DEFS[file].f) f = DEFS[file].f; if (DEFS[file].g) g = DEFS[file].g; };
    auto check = [&](const char* after) {
        int a = fv_f(7), b = fv_g(8); 
        FV_CHECK(a == 1000 + f * 10000 + 7, "after %s: f is version %d, expected %d", after, (a - 1007) / 10000, f);
        FV_CHECK(b == 2000 + g * 10000 + 8, "after %s: g is version %d, expected %d", after, (b - 2008) / 10000, g);
        calls += (f > 0) + (g > 0);
        FV_CHECK(fv_calls == calls, "after %s: a library does not see the state of the program (%d calls counted, expected %d)", after, fv_calls, calls);
        FV_CHECK(g_called == called, "after %s: the callback ran %d times, expected %d", after, g_called, called);
        FV_CHECK(contents(g_lib) == (*VARIANTS[file] ? contents(g_variants + "/" + VARIANTS[file]) : "(no file)"), "after %s: the library's file is not what it was", after);
        DIR* d = opendir(g_dir.c_str()); int n = 0; while (dirent* e = readdir(d)) n += e->d_name[0] != '.' && strcmp(e->d_name, "exe"); closedir(d);
        FV_CHECK(n == (*VARIANTS[file] ? 1 : 0), "after %s: %d files next to the library", after, n);
    };
    check("start");
    for (int o : ops) {
        char b[64];
        if (o < 7) { snprintf(b, sizeof b, "library := %s", *VARIANTS[o] ? VARIANTS[o] : "no file"); put(VARIANTS[o], g_lib); file = o; }
        else if (o == 7) { strcpy(b, "signal"); if (manual) pending = true; else reload(); called += cb; raise(SIGUSR1); }
        else if (o == 8) { strcpy(b, "here()"); manual = true; if (pending) { pending = false; reload(); } fu::hotswap_here(); }
        else if (o == 9) { strcpy(b, "add callback"); fu::hotswap_callback_add(callback, &g_called); cb = true; }
        else { strcpy(b, "remove callback"); fu::hotswap_callback_remove(callback, &g_called); cb = false; }
        check(b);
    }
}
static void body() {
    std::vector<int> ops; int last = 6; fv::Hash h;
    for (int k = 0; k < g_depth; k++) {
        int o = fv::X->choose(11);
        if (o < 7 && o == last) throw fv::Prune{};
        if (o < 7 && !ops.empty() && ops.back() < 7) throw fv::Prune{};     // replaced before anybody looked
        if (o < 7) last = o;
        if (k == 1 && (ops[0] * 11 + o) % g_shards != g_shard) throw fv::Prune{};
        if (k == g_depth - 1 && (o < 7 || o > 8)) throw fv::Prune{};        // ends with a chance to reload
        ops.push_back(o); h.add((uint64_t) o);
        fv::X->note(o < 7 ? *VARIANTS[o] ? VARIANTS[o] : "no file" : o == 7 ? "signal" : o == 8 ? "here()" : o == 9 ? "add callback" : "remove callback");
    }
    int fd[2]; if (pipe(fd)) abort();
    unlink(g_lib.c_str());
    pid_t pid = fork();
    if (!pid) {
        for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL}) signal(s, SIG_DFL);
        alarm(20);
        std::string m;
        try { run_ops(ops); } catch (fv::Violation& v) { m = v.what; }
        if (write(fd[1], m.data(), m.size()) < 0) {}
        _exit(0);
    }
    close(fd[1]); char buf[2000]; std::string m; ssize_t n; while ((n = read(fd[0], buf, sizeof buf)) > 0) m.append(buf, (size_t) n); close(fd[0]);
    int st; waitpid(pid, &st, 0);
    unlink(g_lib.c_str());
    fv::X->ops += g_depth; fv::seen_add(h.h);
    if (!m.empty()) fv::fail(m);
    FV_CHECK(WIFEXITED(st), "the program died with signal %d", WTERMSIG(st));
}
int main(int argc, char** argv) {
    double seconds = 1e9; std::string rp; bool do_replay = false, own = false;
    for (int k = 1; k < argc; k++) {
        std::string a = argv[k];
        if (a == "--depth") g_depth = atoi(argv[++k]);
        else if (a == "--workers") k++;
        else if (a == "--shard") sscanf(argv[++k], "%d/%d", &g_shard, &g_shards);
        else if (a == "--seconds") seconds = atof(argv[++k]);
        else if (a == "--variants") g_variants = argv[++k];
        else if (a == "--dir") g_dir = argv[++k];
        else if (a == "--beside") own = true;              // found beside the executable
        else if (a == "--replay") { rp = argv[++k]; do_replay = true; }
    }
    // The name was read before main: the folder is the working directory, or the executable's.
    g_lib = own ? g_dir + "/hotswap" : std::string(getenv("FU_HOTSWAP_LIB"));
    if (do_replay) { auto r = fv::replay(body, rp); printf("%s%s\n", r.trace.c_str(), r.violated ? ("=> " + r.msg).c_str() : "=> held"); return r.violated; }
    fv::seen_init();
    char label[200]; snprintf(label, sizeof label, "hot swap, library %s, depth %d", own ? "beside the executable" : "named by the environment", g_depth);
    return fv::run(label, body, 1, seconds);
}
