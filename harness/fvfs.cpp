// LD_PRELOAD shim: numbers the file system operations of a process and, at a chosen one, ends the process, makes the
// operation fail or shortens it; or hands every operation to a controller that decides which process runs next.
//   FVFS_MODE=trace|crash|fail|short|sched  FVFS_AT=n  FVFS_ERR=errno  FVFS_LOG=file (one line per operation)
//   FVFS_PATH=text: only operations on paths containing it count (write, read, close: on files opened by such a path)
//   sched: FVFS_OUT, FVFS_IN: fifos; an operation's line goes to OUT, one byte from IN lets it run.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <spawn.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <unistd.h>
#include <mutex>
namespace {
enum Mode { Off, Trace, Crash, Fail, Short, Sched } mode;
int at, err, count, logfd = -1, outfd = -1, infd = -1;
const char* part = "";
const char* skip = "";
bool keepenv;
char kind[4096];            // per fd: 1 write, 2 read
std::recursive_mutex mu;
struct Init {
    Init() {
        const char* m = getenv("FVFS_MODE");
        if (!m) return;
        mode = !strcmp(m, "trace") ? Trace : !strcmp(m, "crash") ? Crash : !strcmp(m, "fail") ? Fail : !strcmp(m, "short") ? Short : !strcmp(m, "sched") ? Sched : Off;
        at = atoi(getenv("FVFS_AT") ? getenv("FVFS_AT") : "0");
        err = atoi(getenv("FVFS_ERR") ? getenv("FVFS_ERR") : "5");
        if (getenv("FVFS_PATH")) part = strdup(getenv("FVFS_PATH"));
        skip = strdup(getenv("FVFS_SKIP") ? getenv("FVFS_SKIP") : "");
        if (const char* l = getenv("FVFS_LOG")) logfd = (int) syscall(SYS_openat, AT_FDCWD, l, O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (mode == Sched) {
            outfd = (int) syscall(SYS_openat, AT_FDCWD, getenv("FVFS_OUT"), O_WRONLY | O_CLOEXEC);
            infd = (int) syscall(SYS_openat, AT_FDCWD, getenv("FVFS_IN"), O_RDONLY | O_CLOEXEC);
        } else {
            unsetenv("LD_PRELOAD"); unsetenv("FVFS_MODE");
        }
    }
} init;
bool counts(const char* p) { return mode != Off && p && strstr(p, part) && !(*skip && strstr(p, skip)); }
// returns 0: run it, 1: fail it, 2: shorten it
int step(const char* op, const char* p, bool mutates) {
    std::lock_guard<std::recursive_mutex> g(mu);
    int n = ++count, e = errno;
    char line[1200];
    int len = snprintf(line, sizeof line, "%d %s %s %s\n", n, op, mutates ? "w" : "r", p);
    if (len > (int) sizeof line) len = sizeof line;
    if (logfd >= 0) syscall(SYS_write, logfd, line, len);
    if (mode == Sched) {
        char c;
        if (syscall(SYS_write, outfd, line, len) != len || syscall(SYS_read, infd, &c, 1) != 1) syscall(SYS_exit_group, 99);
    }
    errno = e;
    if (n != at) return 0;
    if (mode == Crash) syscall(SYS_exit_group, 137);
    if (mode == Fail) return 1;
    if (mode == Short) return 2;
    return 0;
}
template <class F> F real(const char* n) { return (F) dlsym(RTLD_NEXT, n); }
#define REAL(name) static auto r = real<decltype(&name)>(#name)
#define FAIL(x) do { errno = err; return x; } while (0)
}
extern "C" {
static int open_(const char* p, int flags, mode_t m) {
    bool w = (flags & O_ACCMODE) != O_RDONLY;
    bool c = counts(p);
    if (c && step(w ? "create" : "open", p, w) == 1) FAIL(-1);
    int fd = (int) syscall(SYS_openat, AT_FDCWD, p, flags, m);
    if (fd >= 0 && fd < 4096) kind[fd] = c ? w ? 1 : 2 : 0;
    return fd;
}
int open(const char* p, int flags, ...) { va_list v; va_start(v, flags); mode_t m = va_arg(v, mode_t); va_end(v); return open_(p, flags, m); }
int open64(const char* p, int flags, ...) { va_list v; va_start(v, flags); mode_t m = va_arg(v, mode_t); va_end(v); return open_(p, flags, m); }
FILE* fopen(const char* p, const char* m) { REAL(fopen); if (counts(p) && step(*m == 'r' ? "open" : "create", p, *m != 'r') == 1) FAIL(nullptr); return r(p, m); }
FILE* fopen64(const char* p, const char* m) { REAL(fopen64); if (counts(p) && step(*m == 'r' ? "open" : "create", p, *m != 'r') == 1) FAIL(nullptr); return r(p, m); }
ssize_t write(int fd, const void* b, size_t n) {
    if (fd >= 0 && fd < 4096 && kind[fd] == 1) {
        int s = step("write", "", true);
        if (s == 1) FAIL(-1);
        if (s == 2 && n > 1) n /= 2;
    }
    return syscall(SYS_write, fd, b, n);
}
ssize_t read(int fd, void* b, size_t n) {
    if (mode != Sched && fd >= 0 && fd < 4096 && kind[fd] == 2) {
        int s = step("read", "", false);
        if (s == 1) FAIL(-1);
        if (s == 2 && n > 1) n /= 2;
    }
    return syscall(SYS_read, fd, b, n);
}
int close(int fd) {
    bool f = false;
    if (mode != Sched && fd >= 0 && fd < 4096 && kind[fd]) { f = step("close", "", kind[fd] == 1) == 1; kind[fd] = 0; }
    int r = (int) syscall(SYS_close, fd);
    if (f) FAIL(-1);
    return r;
}
int rename(const char* a, const char* b) {
    if (mode != Off && (counts(a) || counts(b))) {
        char s[1000]; snprintf(s, sizeof s, "%s -> %s", a, b);
        if (step("rename", s, true) == 1) FAIL(-1);
    }
    REAL(rename); return r(a, b);
}
int unlink(const char* p) { REAL(unlink); if (counts(p) && step("unlink", p, true) == 1) FAIL(-1); return r(p); }
int mkdir(const char* p, mode_t m) { REAL(mkdir); if (counts(p) && step("mkdir", p, true) == 1) FAIL(-1); return r(p, m); }
int chmod(const char* p, mode_t m) { REAL(chmod); if (counts(p) && step("chmod", p, true) == 1) FAIL(-1); return r(p, m); }
int stat(const char* p, struct stat* s) { REAL(stat); if (counts(p) && step("stat", p, false) == 1) FAIL(-1); return r(p, s); }
int stat64(const char* p, struct stat64* s) { REAL(stat64); if (counts(p) && step("stat", p, false) == 1) FAIL(-1); return r(p, s); }
int gettimeofday(struct timeval* t, void* z) {   // processes that started in the same instant
    if (mode == Sched) { t->tv_sec = 1700000000; t->tv_usec = 1; return 0; }
    return (int) syscall(SYS_gettimeofday, t, z);
}
int posix_spawnp(pid_t* pid, const char* f, const posix_spawn_file_actions_t* a, const posix_spawnattr_t* t, char* const v[], char* const e[]) {
    REAL(posix_spawnp);
    if (mode != Sched ? mode != Off : counts(f)) {
        int s = step("spawn", f, mode != Sched);
        if (s == 1) return err;
    }
    return r(pid, f, a, t, v, e);
}
}
