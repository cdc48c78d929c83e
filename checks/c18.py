"""C18: faults and crashes during a build, and two builds at once, never poison the cache.

Every file system operation of the compiler (numbered by harness/fvfs.cpp, preloaded) is made the point where the process
ends, where the operation fails, or where a transfer is cut short; every run of the C++ compiler (harness/fakegxx.cpp) the
point where it, or everything, dies. Afterwards builds without faults must give what a fresh build gives."""
import os, sys, shutil, threading, queue
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from fv import *  # noqa
import fubuild
import fuworld
from fuworld import *  # noqa

EIO, ENOSPC, EINTR, EACCES = 5, 28, 4, 13


def st(**kw):
    return tuple(kw.get(k, b) for k, b in zip(ORDER, BASE))


OTHER = st(m1="1", h1="1")
SCENARIOS = [("nothing was built before", [], BASE), ("another state was built before", [OTHER], BASE),
             ("the same was built before", [BASE], BASE), ("failing tests are cached", [st(test="fails")], st(test="fails")),
             ("tests fail", [BASE], st(test="fails")), ("run", [BASE], st(mode="run")), ("run from nothing", [], st(mode="run"))]


def main():
    chk = Check("C18")
    try:
        fubuild.build()
    except fubuild.BuildError as e:
        chk.finish(error=e)
    log = fake_tools(chk)
    if log:
        chk.finish(error=log)
    shim = chk.dir + "/fvfs.so"
    rc, log = sh(["g++", "-O1", "-fPIC", "-shared", "-std=c++17", "-o", shim, HARNESS + "/fvfs.cpp", "-ldl"])
    if rc:
        chk.finish(error=log)
    worlds = queue.Queue()
    for i in range(NCPU):
        worlds.put(World(chk, i))
    lock = threading.Lock()
    memo, err, stats = {}, [], {"runs": 0, "builds": 0, "failed": 0, "ok": 0}

    def fresh(w, s):
        with lock:
            if s in memo:
                return memo[s]
        home = w.d + "/fresh"
        shutil.rmtree(home, ignore_errors=True)
        os.makedirs(home)
        w.write(s)
        rc, text, log = w.build(s, home)
        wrong = fresh_error(s, rc, text)
        if wrong and not err:
            err.append("the fresh build of {%s} is not what its sources say: %s; log %s" % (name(s), wrong, log[-1200:]))
        with lock:
            memo[s] = (rc, text)
        return rc, text

    def norm(text):
        return text

    def fault_run(j):
        si, label, env, race = j
        if chk.left() < 15 or len(chk.violations) > 6:
            chk.capped = True
            return
        w = worlds.get()
        try:
            what, prior, s = SCENARIOS[si]
            want = {x: fresh(w, x) for x in (s, OTHER, BASE)}
            home = w.d + "/f"
            shutil.rmtree(home, ignore_errors=True)
            if prior:
                shutil.copytree(homes[si], home)
            else:
                os.makedirs(home)
            w.write(s)
            if os.path.exists(w.d + "/count"):
                os.remove(w.d + "/count")
            e = {"fu_NUM_WORKER_THREADS": "0"}
            if env:
                e.update(env)
                e.update(LD_PRELOAD=shim, FVFS_PATH=w.d + "/", FVFS_LOG=w.d + "/log", FVFS_SKIP="/fakelog")
            rc, text, log = w.build(s, home, env=e, race=race and "%s/count|%s" % (w.d, race), old=None if "run" in what else "OLD")
            stats["runs"] += 1
            bad = None
            died = isinstance(rc, str)
            expected_death = (env and env["FVFS_MODE"] == "crash") or (race and race.endswith("all"))
            if died and not expected_death and "rc=-6" not in rc:
                bad = "the compiler %s" % rc  # an abort (an error before main begins to catch them) is a refusal
            elif died:
                text = product(w.d + "/out.bin")
            if not bad and not died and rc == 0 and (0, text) != want[s]:
                bad = "the build claims success, but its product is not that of a build without faults"
            if not bad and "run" not in what and not (rc == 0 and not died) and text not in ("OLD", want[s][1]):
                bad = "the build failed and left neither the old nor the new executable in place"
            stats["ok" if rc == 0 else "failed"] += 1
            follow = ""
            for t in (s, OTHER, s):
                if bad:
                    break
                w.write(t)
                r = w.build(t, home)
                stats["builds"] += 1
                if r[:2] != want[t]:
                    bad = "after the fault, a build without faults differs from a fresh build"
                    follow = "build of {%s}: rc=%s\n%s\nfresh: rc=%s\n%s\nlog:\n%s" % (name(t), r[0], (r[1] or "")[:2500], want[t][0], (want[t][1] or "")[:2500], r[2][-1500:])
            if bad:
                at = "?"
                if env and os.path.exists(w.d + "/log"):
                    for l in open(w.d + "/log"):
                        if l.split(" ")[0] == env["FVFS_AT"]:
                            at = l.strip().replace(w.d, "")
                chk.violation("%s: %s at %s" % (what, label, stable(at)), bad, "%s\nfault: %s, at operation: %s\n\nfaulty build: rc=%s\n%s\nlog:\n%s\n\n%s" % (
                    what, label, at, rc, (text or "")[:2500], log[-2000:], follow))
        finally:
            if os.path.exists(w.d + "/log"):
                os.remove(w.d + "/log")
            worlds.put(w)

    def stable(at):
        p = at.split(" ")
        return " ".join(p[1:2] + [re.sub(r"[0-9a-z]{8,}", "#", x) for x in p[3:]])

    homes, jobs, counted = {}, [], {}
    w = worlds.get()
    for si, (what, prior, s) in enumerate(SCENARIOS):
        home = chk.dir + "/home%d" % si
        os.makedirs(home)
        for p in prior:
            w.write(p)
            w.build(p, home)
        homes[si] = home
        h2 = w.d + "/f"
        shutil.rmtree(h2, ignore_errors=True)
        shutil.copytree(home, h2)
        w.write(s)
        log = w.d + "/log"
        if os.path.exists(w.d + "/count"):
            os.remove(w.d + "/count")
        w.build(s, h2, env={"LD_PRELOAD": shim, "FVFS_MODE": "trace", "FVFS_PATH": w.d + "/", "FVFS_LOG": log, "fu_NUM_WORKER_THREADS": "0"}, race="%s/count|0|x|x|x" % w.d)
        ops = [l.split(" ") for l in open(log).read().splitlines()]
        os.remove(log)
        runs = os.path.getsize(w.d + "/count") if os.path.exists(w.d + "/count") else 0
        counted[what] = (len(ops), runs)
        if not any(o[1] in ("stat", "mkdir") for o in ops):
            err.append("the operations of the compiler cannot be seen")
        cached = False
        for o in ops:
            n, op, mut, path = o[0], o[1], o[2] == "w", " ".join(o[3:])
            cached = "/.fu/" in path if path else cached
            if mut and op != "close":
                jobs.append((si, "crash before", dict(FVFS_MODE="crash", FVFS_AT=n), None))
            if op == "spawn":
                jobs.append((si, "fails with ENOMEM", dict(FVFS_MODE="fail", FVFS_AT=n, FVFS_ERR="12"), None))
                continue
            full = si in (0, 3) or THOROUGH
            if full or mut or cached:
                jobs.append((si, "fails with EIO", dict(FVFS_MODE="fail", FVFS_AT=n, FVFS_ERR=str(EIO)), None))
            if mut and op != "close":
                jobs.append((si, "fails with ENOSPC", dict(FVFS_MODE="fail", FVFS_AT=n, FVFS_ERR=str(ENOSPC)), None))
            if op in ("read", "write") and (full or cached or mut):
                jobs.append((si, "cut short", dict(FVFS_MODE="short", FVFS_AT=n), None))
                jobs.append((si, "fails with EINTR", dict(FVFS_MODE="fail", FVFS_AT=n, FVFS_ERR=str(EINTR)), None))
        for n in range(1, runs + 1):
            for kind in ("kill", "fail", "all"):
                jobs.append((si, "run %d of the C++ compiler dies (%s)" % (n, kind), None, "%d|fault|%s" % (n, kind)))
    worlds.put(w)
    if not err:
        pmap(fault_run, jobs)
    chk.add(states=len(jobs), transitions=stats["builds"] + stats["runs"], traces=stats["runs"])
    chk.sample("operations and runs of the C++ compiler per scenario: %s" % counted)
    chk.sample("%d faults: the build failed in %d, succeeded in %d; %d builds afterwards" % (stats["runs"], stats["failed"], stats["ok"], stats["builds"]))
    chk.finish(error=err[0] if err else None)


main()
