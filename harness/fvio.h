// A simulated kernel behind the file, directory and child-process libraries: while it is switched on, the system calls
// below never reach the real system. Every freedom a kernel has (short transfers, interruptions, faults, what a child or
// another process does in between) is a choice of the explorer in fvdrv.h, within the budgets of the scenario.
#pragma once
#include <fvdrv.h>
#include <cerrno>
#include <cstdarg>
#include <string>
#include <vector>
#include <deque>
#include <map>
#include <set>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <spawn.h>
#include <stdio.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>

namespace fvio {
typedef std::string str;
using fvd::choose;

struct Pipe { std::string data; size_t cap = 8; int writers = 0, readers = 0; };
struct FdEnt { int kind = 0; int pipe = -1; size_t pos = 0; bool wr = false; bool nonblock = false; };   // kind 1 file, 2 pipe
struct Step { char op; int fd; size_t n; };                       // 'w' write n bytes to fd, 'c' close fd
struct DirEnt { str name; unsigned char type; };

struct Kernel {
    bool on = false;
    str log;
    // budgets of the scenario
    int eintr = 0, faults = 0, shorts = 0, races = 0, zeros = 0;
    int injected = 0, interrupted = 0, raced = 0, short_done = 0, spurious = 0;
    // one file
    bool exists = false; str file; str delivered; str appended;
    std::map<int, FdEnt> fds; int next_fd = 10; int opens = 0, closes = 0;
    std::vector<Pipe> pipes;
    // a child
    bool child = false, reaped = false; std::vector<Step> prog; size_t pc = 0, done_of_step = 0; int status = 0; bool dead = false, stuck = false;
    std::map<int, int> cfd;                                       // child's descriptor -> pipe (writing end); absent: closed or /dev/null
    std::map<int, str> wrote; int fresh = 0;
    bool sigpipe = false;
    
    // directories
    std::map<str, std::vector<DirEnt>> dirs; std::set<str> files;
    int dir_open = 0;
};
inline Kernel& K() { static Kernel* k = new Kernel; return *k; }
inline void note(const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); fvd::note(b, strlen(b)); fvd::S().ops++; }
[[noreturn]] inline void bad(const str& m) { K().on = false; fvd::fail(m); }
inline bool fault(const char* what) { Kernel& k = K(); if (k.faults <= k.injected) return false; if (!choose(2)) return false; k.injected++; note("%s fails", what); return true; }
inline bool intr(const char* what) { Kernel& k = K(); if (k.eintr <= k.interrupted) return false; if (!choose(2)) return false; k.interrupted++; note("%s is interrupted", what); errno = EINTR; return true; }
// how many of n bytes get through
inline size_t part(size_t n) {
    Kernel& k = K(); if (n < 2 || k.shorts <= k.short_done) return n;
    size_t opt[4]; int c = 0; opt[c++] = n;
    for (size_t v : { (size_t) 1, n - 1, n / 2 }) { bool dup = !v; for (int i = 0; i < c; i++) dup |= opt[i] == v; if (!dup) opt[c++] = v; }
    size_t r = opt[choose(c)]; if (r < n) k.short_done++; return r;
}
inline void race_file() { // someone else changes the file
    Kernel& k = K(); if (!k.exists || k.raced >= k.races) return;
    switch (choose(3)) { case 0: return; case 1: k.file += (char) ('A' + k.raced); k.raced++; note("another process appends a byte"); return;
        default: if (!k.file.empty()) { k.file.pop_back(); note("another process truncates a byte"); } k.raced++; } }

// ---- the child
inline void child_step() {
    Kernel& k = K();
    k.stuck = false;
    if (k.dead) return;
    if (k.pc == k.prog.size()) { k.dead = true; for (auto& c : k.cfd) k.pipes[(size_t) c.second].writers--; k.cfd.clear(); note("child ends"); return; }
    Step& s = k.prog[k.pc];
    auto it = k.cfd.find(s.fd);
    if (s.op == 'c') { if (it != k.cfd.end()) { k.pipes[(size_t) it->second].writers--; k.cfd.erase(it); } k.pc++; note("child closes %d", s.fd); return; }
    if (it == k.cfd.end()) { k.pc++; k.done_of_step = 0; note("child writes to a closed or discarded %d", s.fd); return; }
    Pipe& p = k.pipes[(size_t) it->second];
    if (!p.readers) { note("child dies of SIGPIPE"); k.sigpipe = true; k.status = SIGPIPE; k.pc = k.prog.size(); return child_step(); }
    size_t room = p.cap - p.data.size(), left = s.n - k.done_of_step;
    if (!room) { k.stuck = true; return; }
    size_t n = room < left ? room : left;
    for (size_t i = 0; i < n; i++) { char c = (char) ((s.fd == 1 ? 'a' : 'A') + k.fresh++ % 26); p.data += c; k.wrote[s.fd] += c; }
    k.done_of_step += n;
    note("child writes %zu bytes to %d", n, s.fd);
    if (k.done_of_step == s.n) { k.pc++; k.done_of_step = 0; }
}
// the child gets on by any number of steps (possibly none) before a call of the parent
inline void advance() {
    Kernel& k = K(); if (!k.child) return;
    while (!k.dead) { if (!choose(2)) return; child_step(); if (k.stuck) return; }
}

inline int newfd(FdEnt e) { Kernel& k = K(); int fd = k.next_fd++; k.fds[fd] = e; k.opens++; return fd; }
inline FdEnt& ent(int fd, const char* what) { Kernel& k = K(); auto it = k.fds.find(fd); if (it == k.fds.end()) bad(str(what) + " uses a descriptor that is not open"); return it->second; }
inline int drop(int fd) {
    Kernel& k = K(); FdEnt e = ent(fd, "close"); k.fds.erase(fd); k.closes++;
    if (e.kind == 2) { if (e.wr) k.pipes[(size_t) e.pipe].writers--; else k.pipes[(size_t) e.pipe].readers--; }
    return 0;
}
inline size_t leaked() { return K().fds.size(); }

inline ssize_t sim_read(int fd, void* buf, size_t n) {
    Kernel& k = K(); FdEnt& e = ent(fd, "read");
    advance();
    if (intr("read")) return -1;
    if (!k.child && fault("read")) { errno = EIO; return -1; }
    if (e.kind == 1) {
        race_file();
        size_t have = e.pos < k.file.size() ? k.file.size() - e.pos : 0; if (have > n) have = n;
        have = part(have); if (have) { memcpy(buf, k.file.data() + e.pos, have); k.delivered.append(k.file, e.pos, have); e.pos += have; }
        note("read of up to %zu gives %zu", n, have); return (ssize_t) have;
    }
    Pipe& p = k.pipes[(size_t) e.pipe];
    for (;;) {
        if (!p.data.empty()) {
            size_t have = p.data.size() < n ? p.data.size() : n; have = part(have);
            memcpy(buf, p.data.data(), have); k.delivered.append(p.data, 0, have); p.data.erase(0, have);
            note("read of up to %zu gives %zu", n, have); return (ssize_t) have;
        }
        if (!p.writers) { note("read finds the end"); return 0; }
        if (e.nonblock) { note("read would block"); errno = EAGAIN; return -1; }
        child_step(); if (k.stuck || !k.child) bad("read waits for ever");
    }
}
inline ssize_t sim_write(int fd, const void* buf, size_t n) {
    Kernel& k = K(); ent(fd, "write");
    if (intr("write")) return -1;
    if (fault("write")) { errno = ENOSPC; return -1; }
    if (k.zeros > k.spurious && n && choose(2)) { k.spurious++; note("write takes nothing"); return 0; }
    size_t m = part(n); FdEnt& e = ent(fd, "write");
    if (e.kind == 1) { k.file.resize(e.pos > k.file.size() ? e.pos : k.file.size()); k.file.replace(e.pos, m, (const char*) buf, m); e.pos += m; } else k.appended.append((const char*) buf, m);
    note("write of %zu takes %zu", n, m); return (ssize_t) m;
}
inline int sim_poll(pollfd* f, nfds_t n) {
    Kernel& k = K();
    advance();
    if (intr("poll")) return -1;
    for (;;) {
        int hits = 0;
        for (nfds_t i = 0; i < n; i++) {
            f[i].revents = 0; if (f[i].fd < 0) continue;
            FdEnt& e = ent(f[i].fd, "poll"); Pipe& p = k.pipes[(size_t) e.pipe];
            if (!p.data.empty()) f[i].revents |= POLLIN; if (!p.writers) f[i].revents |= POLLHUP;
            f[i].revents &= (short) (f[i].events | POLLHUP | POLLERR);
            if (f[i].revents) hits++;
        }
        if (hits) { str s; for (nfds_t i = 0; i < n; i++) { char b[40]; snprintf(b, 40, " %d:%s%s", (int) i, f[i].revents & POLLIN ? "in" : "", f[i].revents & POLLHUP ? "hup" : ""); s += b; } note("poll:%s", s.c_str()); return hits; }
        child_step(); if (k.dead && !k.child) bad("poll waits for ever"); if (k.stuck) bad("poll waits for ever: the child is stuck writing to a pipe that is not polled");
        bool any = false; for (nfds_t i = 0; i < n; i++) any |= f[i].fd >= 0; if (!any && k.dead) bad("poll waits for ever: nothing to wait for");
    }
}
inline int sim_waitpid(int pid, int* st) {
    Kernel& k = K();
    if (pid != 77 || !k.child || k.reaped) { errno = ECHILD; return -1; }
    if (intr("waitpid")) return -1;
    while (!k.dead) { child_step(); if (k.stuck) bad("the parent waits for a child that is stuck writing to a pipe nobody reads: both wait for ever"); }
    k.reaped = true; if (st) *st = k.status; note("waitpid gives status %d", k.status); return pid;
}
inline int sim_pipe2(int* p, int flags) {
    Kernel& k = K();
    if (fault("pipe2")) { errno = EMFILE; return -1; }
    int i = (int) k.pipes.size(); k.pipes.emplace_back(); k.pipes.back().readers = k.pipes.back().writers = 1;
    FdEnt r; r.kind = 2; r.pipe = i; r.nonblock = flags & O_NONBLOCK; FdEnt w = r; w.wr = true;
    p[0] = newfd(r); p[1] = newfd(w);
    if (!(flags & O_CLOEXEC)) bad("a pipe that children inherit");
    return 0;
}
// the descriptors a child gets: recorded from the file actions
struct Act { int op, a, b; };
inline std::map<const void*, std::vector<Act>>& acts() { static auto* m = new std::map<const void*, std::vector<Act>>; return *m; }
inline int sim_spawn(pid_t* pid, const posix_spawn_file_actions_t* fa) {
    Kernel& k = K();
    if (fault("posix_spawn")) return ENOENT;
    std::map<int, int> t;     // child's table: descriptor -> parent's descriptor, -1: /dev/null
    std::set<int> cloexec;
    for (auto& f : k.fds) { t[f.first] = f.first; cloexec.insert(f.first); }
    t[0] = t[1] = t[2] = -2;
    for (auto& a : acts()[fa]) {
        if (a.op == 0) { if (!t.erase(a.a)) return EBADF; }
        if (a.op == 1) { if (!t.count(a.a)) return EBADF; t[a.b] = t[a.a]; cloexec.erase(a.b); }
        if (a.op == 2) { t[a.a] = -1; }
    }
    for (int c : cloexec) t.erase(c);
    for (auto& e : t) {
        if (e.second == -2 || e.second == -1) continue;
        FdEnt& f = ent(e.second, "spawn");
        if (f.kind == 2 && f.wr) { k.cfd[e.first] = f.pipe; k.pipes[(size_t) f.pipe].writers++; }
        else if (e.first != 0) bad("the child can read from its parent's end of a pipe");
    }
    k.child = true; *pid = 77; note("child starts"); return 0;
}

// ---- stdio pipes
inline ssize_t cookie_read(void*, char* buf, size_t n) { return sim_read((int) K().next_fd * 0 + 9, buf, n); }
inline int cookie_close(void*) { return 0; }

// ---- directories
struct Dir { std::vector<DirEnt> e; size_t i = 0; dirent d; };
inline str norm(const char* p) { str o; for (; *p; p++) { if (*p == '/' && !o.empty() && o.back() == '/') continue; o += *p; } while (o.size() > 1 && o.back() == '/') o.pop_back(); return o; }

inline void reset() { Kernel& k = K(); k = Kernel(); acts().clear(); }
} // namespace

#define FVIO_W extern "C" __attribute__((weak, used))
FVIO_W ssize_t read(int fd, void* b, size_t n) { if (fvio::K().on) return fvio::sim_read(fd, b, n); return syscall(SYS_read, fd, b, n); }
FVIO_W ssize_t write(int fd, const void* b, size_t n) { if (fvio::K().on && fd > 2) return fvio::sim_write(fd, b, n); return syscall(SYS_write, fd, b, n); }
FVIO_W int close(int fd) {
    auto& k = fvio::K(); if (!k.on) return (int) syscall(SYS_close, fd);
    bool f = fvio::K().fds.count(fd) && fvio::K().fds[fd].kind == 1 && fvio::fault("close"); fvio::drop(fd); if (f) { errno = EIO; return -1; } return 0; }
FVIO_W int open(const char* p, int flags, ...) {
    va_list a; va_start(a, flags); int mode = va_arg(a, int); va_end(a);
    auto& k = fvio::K(); if (!k.on) return (int) syscall(SYS_openat, AT_FDCWD, p, flags, mode);
    if (fvio::intr("open")) return -1;
    if (fvio::fault("open")) { errno = EACCES; return -1; }
    fvio::race_file();
    if (!k.exists) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } k.exists = true; k.file.clear(); }
    if (flags & O_TRUNC) k.file.clear();
    fvio::FdEnt e; e.kind = 1; e.wr = (flags & O_ACCMODE) != O_RDONLY; return fvio::newfd(e); }
FVIO_W int stat(const char* p, struct stat* s) {
    auto& k = fvio::K(); if (!k.on) return (int) syscall(SYS_newfstatat, AT_FDCWD, p, s, 0);
    if (fvio::fault("stat")) { errno = EACCES; return -1; }
    memset(s, 0, sizeof *s);
    if (k.dirs.size() || k.files.size()) { fvio::str q = fvio::norm(p); if (k.dirs.count(q)) { s->st_mode = S_IFDIR | 0777; return 0; } if (k.files.count(q)) { s->st_mode = S_IFREG | 0666; return 0; } errno = ENOENT; return -1; }
    if (!k.exists) { errno = ENOENT; return -1; }
    fvio::race_file(); s->st_mode = S_IFREG | 0666; s->st_size = (off_t) k.file.size(); return 0; }
FVIO_W int poll(pollfd* f, nfds_t n, int t) { if (fvio::K().on) return fvio::sim_poll(f, n); return (int) syscall(SYS_poll, f, n, t); }
FVIO_W pid_t waitpid(pid_t p, int* st, int o) { if (fvio::K().on) return fvio::sim_waitpid(p, st); return (pid_t) syscall(SYS_wait4, p, st, o, nullptr); }
FVIO_W int pipe2(int* p, int fl) __THROW { if (fvio::K().on) return fvio::sim_pipe2(p, fl); return (int) syscall(SYS_pipe2, p, fl); }
FVIO_W int posix_spawn_file_actions_addclose(posix_spawn_file_actions_t* f, int fd) __THROW { fvio::acts()[f].push_back({ 0, fd, 0 }); return 0; }
FVIO_W int posix_spawn_file_actions_adddup2(posix_spawn_file_actions_t* f, int a, int b) __THROW { fvio::acts()[f].push_back({ 1, a, b }); return 0; }
FVIO_W int posix_spawn_file_actions_addopen(posix_spawn_file_actions_t* __restrict f, int fd, const char* __restrict, int, mode_t) __THROW { fvio::acts()[f].push_back({ 2, fd, 0 }); return 0; }
FVIO_W int posix_spawnp(pid_t* __restrict pid, const char* __restrict, const posix_spawn_file_actions_t* __restrict fa, const posix_spawnattr_t* __restrict, char* const*, char* const*) {
    if (!fvio::K().on) { errno = ENOSYS; return ENOSYS; } return fvio::sim_spawn(pid, fa); }
FVIO_W DIR* opendir(const char* p) {
    auto& k = fvio::K(); if (!k.on) abort();
    if (fvio::fault("opendir")) { errno = EACCES; return nullptr; }
    fvio::str q = fvio::norm(p); auto it = k.dirs.find(q); if (it == k.dirs.end()) { errno = k.files.count(q) ? ENOTDIR : ENOENT; return nullptr; }
    auto* d = new fvio::Dir; d->e = it->second; k.dir_open++; fvio::note("opendir %s", p); return (DIR*) d; }
FVIO_W struct dirent* readdir(DIR* D) {
    auto* d = (fvio::Dir*) D; auto& k = fvio::K(); if (!k.on) abort();
    if (fvio::fault("readdir")) { errno = EIO; return nullptr; }
    if (d->i == d->e.size()) return nullptr;
    memset(&d->d, 0, sizeof d->d); auto& e = d->e[d->i++]; strcpy(d->d.d_name, e.name.c_str()); d->d.d_type = e.type; d->d.d_reclen = sizeof d->d; return &d->d; }
FVIO_W int closedir(DIR* D) {
    auto& k = fvio::K(); if (!k.on) abort(); bool f = fvio::fault("closedir"); delete (fvio::Dir*) D; k.dir_open--; if (f) { errno = EBADF; return -1; } return 0; }
FVIO_W int mkdir(const char* p, mode_t m) __THROW {
    auto& k = fvio::K(); if (!k.on) return (int) syscall(SYS_mkdirat, AT_FDCWD, p, m);
    fvio::str q = fvio::norm(p); fvio::note("mkdir %s", p);
    if (fvio::fault("mkdir")) { errno = EACCES; return -1; }
    if (q.empty()) { errno = ENOENT; return -1; }
    size_t sl = q.rfind('/'); fvio::str up = sl == fvio::str::npos ? "." : sl == 0 ? "/" : q.substr(0, sl);
    if (k.raced < k.races && k.dirs.count(up) && !k.dirs.count(q) && !k.files.count(q) && fvd::choose(2)) { k.raced++; k.dirs[q]; fvio::note("another process makes it first"); }
    if (k.dirs.count(q) || k.files.count(q)) { errno = EEXIST; return -1; }
    for (fvio::str u = up;;) { if (k.files.count(u)) { errno = ENOTDIR; return -1; } size_t s = u.rfind('/'); if (s == fvio::str::npos || s == 0) break; u = u.substr(0, s); }
    if (!k.dirs.count(up)) { errno = ENOENT; return -1; }
    k.dirs[q]; return 0; }
FVIO_W FILE* popen(const char*, const char*) {
    auto& k = fvio::K(); if (!k.on) abort();
    if (fvio::fault("popen")) { errno = EMFILE; return nullptr; }
    fvio::FdEnt e; e.kind = 2; e.pipe = (int) k.pipes.size(); k.pipes.emplace_back(); k.pipes.back().readers = 1; k.pipes.back().writers = 1;
    k.child = true; k.cfd[1] = e.pipe; k.fds[9] = e; k.opens++;
    cookie_io_functions_t io = {}; io.read = fvio::cookie_read; io.close = fvio::cookie_close; FILE* f = fopencookie(nullptr, "r", io); fvio::note("child starts"); return f; }
FVIO_W int pclose(FILE* f) {
    auto& k = fvio::K(); if (!k.on) abort(); fclose(f); fvio::drop(9); int st = -1;
    while (!k.dead) { fvio::child_step(); if (k.stuck) fvio::bad("the parent waits for a child that is stuck"); }
    k.reaped = true; st = k.status; fvio::note("pclose gives %d", st); return st; }
