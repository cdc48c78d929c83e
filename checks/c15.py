"""C15: builds that share a cache at the same time do not disturb each other.

Two processes of the real compiler run under a controller that lets one of them at a time perform its next operation on the
cache (harness/fvfs.cpp, preloaded into them and into the stand-in for the C++ compiler they start). All schedules up to a
bound on preemptions are run; preemptions are placed before operations on paths that both processes use."""
import os, sys, select, shutil, subprocess, threading, queue, time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from fv import *  # noqa
import fubuild
import fuworld
from fuworld import *  # noqa


def st(**kw):
    return tuple(kw.get(k, b) for k, b in zip(ORDER, BASE))


OTHER = st(m1="1", h1="1")
# name, states built before, state of A, state of B, same executable requested, bound on preemptions
SCENARIOS = [
    ("the same build twice, empty cache", [], BASE, BASE, False, 1),
    ("the same build twice, one executable", [OTHER], BASE, BASE, True, 1),
    ("the same build twice, all cached", [BASE], BASE, BASE, False, 1),
    ("two projects with equal sources and other headers", [], st(proj="p"), st(proj="q"), False, 1),
    ("equal sources, other options", [OTHER], BASE, st(scheme="--reldeb"), False, 1),
    ("run and run", [OTHER], st(mode="run"), st(mode="run"), False, 1),
    ("build and run", [OTHER], BASE, st(mode="run"), False, 1),
    ("failing tests", [OTHER], st(test="fails"), st(test="fails"), False, 1),
    ("with and without tests", [OTHER], st(test="--notest"), BASE, False, 1),
    ("without the cache", [], st(mode="nocache"), BASE, False, 1),
]


class Proc:
    def __init__(self, w, i, s, home, out, shim):
        self.w, self.s, self.out, self.ops, self.pending, self.done, self.buf = w, s, out, 0, None, False, b""
        d = w.d + "/p%d" % i
        self.fo, self.fi = d + ".out", d + ".in"
        for f in (self.fo, self.fi):
            if not os.path.exists(f):
                os.mkfifo(f)
        self.ro = os.open(self.fo, os.O_RDONLY | os.O_NONBLOCK | os.O_CLOEXEC)
        self.wi = os.open(self.fi, os.O_RDWR | os.O_CLOEXEC)
        cmd, e = w.command(s, home, out, env={"LD_PRELOAD": shim, "FVFS_MODE": "sched", "FVFS_PATH": "/.fu/", "FVFS_OUT": self.fo,
                                              "FVFS_IN": self.fi, "fu_NUM_WORKER_THREADS": "0"})
        self.log = open(w.d + "/p%d.log" % i, "wb+")
        self.p = subprocess.Popen(cmd, env=e, cwd=w.d, stdin=subprocess.DEVNULL, stdout=self.log, stderr=subprocess.STDOUT, start_new_session=True)

    def wait(self):
        """Until it has a pending operation or has ended. False when it hangs."""
        end = time.time() + 40
        while not self.pending and not self.done:
            r, _, _ = select.select([self.ro], [], [], 0.005)
            if r:
                x = os.read(self.ro, 65536)
                self.buf += x
                if b"\n" in self.buf:
                    l, self.buf = self.buf.split(b"\n", 1)
                    p = l.decode(errors="replace").split(" ")
                    self.pending = (p[1], p[2] == "w", " ".join(p[3:]))
                    return True
            if (not r or not x) and self.p.poll() is not None:
                self.done = True
            elif r and not x:
                time.sleep(0.001)
            if time.time() > end:
                return False
        return True

    def go(self):
        op = self.pending
        self.pending = None
        self.ops += 1
        os.write(self.wi, b"x")
        return op

    def finish(self):
        if self.p.poll() is None:
            os.killpg(self.p.pid, 9)
            self.p.wait()
        os.close(self.ro)
        os.close(self.wi)
        self.log.seek(0)
        log = self.log.read().decode(errors="replace")
        self.log.close()
        rc = self.p.returncode
        return self.w.result(self.s, rc if rc <= 1 else rc, log, self.out)


def paths(op):
    return [re.sub(r"/tmp/[^/]*$", "/tmp/#", p[p.find("/.fu/"):]) for p in op[2].split(" -> ") if "/.fu/" in p]


def main():
    chk = Check("C15")
    try:
        fubuild.build()
    except fubuild.BuildError as e:
        chk.finish(error=e)
    log = fake_tools(chk)
    if log:
        chk.finish(error=log)
    shim = chk.dir + "/fvfs.so"
    rc, log = sh(["g++", "-O1", "-fPIC", "-shared", "-std=c++17", "-o", shim, HARNESS + "/fvfs.cpp", "-ldl"])
    if rc:
        chk.finish(error=log)
    worlds = queue.Queue()
    for i in range(NCPU):
        worlds.put(World(chk, i))
    lock = threading.Lock()
    memo, err, stats, traces = {}, [], {"runs": 0, "ops": 0}, set()

    def fresh(w, s):
        with lock:
            if s in memo:
                return memo[s]
        home = w.d + "/fresh"
        shutil.rmtree(home, ignore_errors=True)
        os.makedirs(home)
        w.write(s)
        rc, text, log = w.build(s, home)
        wrong = fresh_error(s, rc, text)
        if wrong and not err:
            err.append("the fresh build of {%s} is not what its sources say: %s; log %s" % (name(s), wrong, log[-1200:]))
        with lock:
            memo[s] = (rc, text)
        return rc, text

    homes = {}
    used = {}        # scenario -> path -> set of (process, mutates)
    seen = set()
    ends = {}        # scenario -> process -> most operations

    def run(j):
        """j = (scenario, first process, operation counts at which to switch away, in turn). Returns the trace with positions."""
        si, first, cuts = j
        if chk.left() < 20 or len(chk.violations) > 6:
            chk.capped = True
            return None
        what, prior, a, b, same, bound = SCENARIOS[si]
        w = worlds.get()
        try:
            want = [fresh(w, a), fresh(w, b)]
            home = w.d + "/f"
            shutil.rmtree(home, ignore_errors=True)
            shutil.copytree(homes[si], home)
            w.write(a)
            outs = [w.d + "/out0.bin", w.d + "/out%d.bin" % (0 if same else 1)]
            for o in outs:
                if os.path.exists(o):
                    os.remove(o)
            ps = [Proc(w, i, s, home, outs[i], shim) for i, s in enumerate((a, b))]
            trace, cur, left, hang = [], first, list(cuts), False
            for p in ps:
                hang = hang or not p.wait()
            while not hang:
                p = ps[cur]
                if p.done or (left and p.ops >= left[0]):
                    if left and not p.done:
                        left.pop(0)
                    elif left:
                        left.pop(0)
                    if ps[0].done and ps[1].done:
                        break
                    cur = 1 - cur
                    if ps[cur].done:
                        cur = 1 - cur
                    continue
                trace.append((cur, p.ops) + p.go())
                hang = not p.wait()
            # results are read only after both have ended
            res = [p.finish() for p in ps]
            with lock:
                stats["runs"] += 1
                stats["ops"] += len(trace)
                u = used.setdefault(si, {})
                for c, n, op, mut, path in trace:
                    for q in paths((op, mut, path)):
                        u.setdefault(q, set()).add((c, mut))
                traces.add((si, tuple((c, op, tuple(paths((op, mut, path)))) for c, n, op, mut, path in trace)))
            bad = None
            if hang:
                bad = "a build hangs"
            for i in (0, 1):
                if not bad and res[i][:2] != want[i]:
                    bad = "build %s differs from a build alone" % "AB"[i]
            if not bad:
                for i, s in enumerate((a, b)[:1 if a == b else 2]):
                    r = w.build(s, home)
                    if r[:2] != want[i]:
                        bad = "a build afterwards differs from a fresh build"
                        res.append(r)
            if bad:
                def kind(t):
                    return "%s %s" % (t[2], re.sub(r"[0-9a-z]{8,}(-\d+)?", "#", " -> ".join(paths(t[2:]))))
                at = []
                for x, y in zip(trace, trace[1:]):
                    if x[0] != y[0]:
                        nxt = [t for t in trace if t[0] == x[0] and t[1] == x[1] + 1]
                        if nxt:
                            at.append("before " + kind(nxt[0]))
                chk.violation("%s: %s; preempted %s" % (what, bad, ", ".join(at)), bad, "%s\nstarts with %s, switches %s\n\n%s\n\n%s" % (
                    what, "AB"[first], cuts, "\n".join("%s %d %s %s" % ("AB"[c], n, op, path.replace(w.d, "")) for c, n, op, mut, path in trace),
                    "\n\n".join("rc=%s\n%s\nlog:\n%s" % (r[0], (r[1] or "")[:1500], r[2][-2000:]) for r in res)))
            return trace
        finally:
            worlds.put(w)

    w = worlds.get()
    for si, sc in enumerate(SCENARIOS):
        home = homes[si] = chk.dir + "/home%d" % si
        os.makedirs(home)
        for p in sc[1]:
            w.write(p)
            w.build(p, home)
    worlds.put(w)

    def shared(si, t):
        """Both processes use a path of this operation, and one changes it."""
        for q in paths(t[2:]):
            x = used[si].get(q, ())
            if len({c for c, m in x}) == 2 and any(m for c, m in x):
                return True
        return False

    # Rounds: without preemption, then one more each.
    depth = {i: sc[5] + (1 if THOROUGH else 0) for i, sc in enumerate(SCENARIOS)}
    work = [(i, f, ()) for i, sc in enumerate(SCENARIOS) for f in ((0,) if sc[2] == sc[3] else (0, 1))]
    level, per = 0, []
    while work and not err:
        res = pmap(run, work)
        per.append(len(work))
        nxt = []
        for j, trace in zip(work, res):
            si, first, cuts = j
            if trace is None or len(cuts) >= depth[si]:
                continue
            # the part of the trace after the last switch: preempt the process that runs there
            pos, cur = 0, first
            for c in cuts:
                while pos < len(trace) and trace[pos][0] == cur:
                    pos += 1
                cur = 1 - cur
            seg = pos
            while seg < len(trace) and trace[seg][0] == cur:
                t = trace[seg]
                if seg > pos and shared(si, t):
                    nxt.append((si, first, cuts + (t[1],)))
                seg += 1
        work = [j for j in dict.fromkeys(nxt) if j not in seen]
        seen.update(work)
        level += 1
    chk.add(states=len(traces), transitions=stats["ops"], traces=stats["runs"])
    chk.sample("schedules per number of preemptions: %s; %d different ones, %d operations" % (per, len(traces), stats["ops"]))
    chk.finish(error=err[0] if err else None)


main()
