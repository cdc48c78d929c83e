"""C03 / C04 / C05: the runtime's shared storage, lock-free stack and parallel loop under every schedule."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from fv import *  # noqa

pid = sys.argv[1]
chk = Check(pid)
chk.assumptions = [
    "sequentially consistent exploration plus a happens-before race detector that honours the memory order of every atomic access; a program free of races in it behaves the same on weaker hardware except through relaxed atomics",
    "schedules are cut at the preemption bound named per run (none where it says any number)",
]
REL = ["-O1", "-DNDEBUG", "-Dfu_RETAIL=1"]
DBG = ["-O1"]
H = HARNESS
plan = []
err = None


def P(b, args, t=600, env=None, note=""):
    plan.append((b, args.split("|"), env or {}, note or os.path.basename(b), t))


def S(s):
    return s.replace(" ", "|")


try:
    if pid == "C03":
        jobs = [("e%d%s" % (e, m), H + "/arc_sched.cpp", fl + ["-DELEM=%d" % e]) for e in (0, 1) for m, fl in (("rel", REL), ("dbg", DBG))]
        b = dict(zip([j[0] for j in jobs], pmap(lambda j: compile_sched(chk, *j), jobs[:1]) + pmap(lambda j: compile_sched(chk, *j), jobs[1:])))
        for e in (0, 1):
            P(b["e%drel" % e], S("--threads 2 --len 2"))
            P(b["e%drel" % e], S("--threads 3 --len 1"))
            P(b["e%ddbg" % e], S("--threads 2 --len 1"))
            P(b["e%drel" % e], S("--threads 3 --len 2 --pre 1 --ops 7"))
        P(b["e0rel"], S("--threads 2 --len 3"))
        if THOROUGH:
            P(b["e1rel"], S("--threads 2 --len 3"), 400)
            P(b["e0dbg"], S("--threads 2 --len 2"), 400)
            P(b["e1dbg"], S("--threads 2 --len 2"), 400)
            P(b["e0rel"], S("--threads 3 --len 2 --pre 3"), 700)
            P(b["e1rel"], S("--threads 3 --len 2 --pre 2"), 700)
        r = run_explorer(chk, b["e0rel"], ["--lone"], "arc_sched.cpp --lone", 60, key=lambda r: "one array handle copied by two threads at once: the copy marks the source handle as shared with a plain write" if "data race" in r["msg"] and "global" in r["msg"] else None)
        err = err or r
        chk.extra["scope"] = "every pair of thread programs of 2 operations (3 for plain elements) and triple of 1 operation over 10 array operations, arrays of 1 and 5 elements sharing one storage, any number of preemptions; triples of 2 operations with a bound"
    elif pid == "C04":
        b = {m: compile_sched(chk, "stack" + m, H + "/stack_sched.cpp", fl) for m, fl in (("rel", REL), ("dbg", DBG))}
        P(b["rel"], S("--threads 2 --len 2"))
        P(b["dbg"], S("--threads 2 --len 2"))
        P(b["rel"], S("--threads 3 --len 1"))
        P(b["rel"], S("--threads 2 --len 3"))
        P(b["rel"], S("--threads 2 --len 3 --pre 3 --spur 1 --warm 524286"))
        P(b["rel"], S("--progs O/b;O/c;O/d;O/e;O/f;O/g;O/h;O/i;O/j;O/k;O/l;O/m;O/n --pre 2 --split 1"))
        P(b["rel"], S("--threads 3 --len 2 --pre 3"))
        if THOROUGH:
            P(b["rel"], S("--threads 2 --len 4 --pre 4"), 700)
            P(b["rel"], S("--threads 3 --len 2 --pre 5"), 700)
            P(b["dbg"], S("--threads 3 --len 2 --pre 3"), 700)
            P(b["rel"], S("--threads 3 --len 3 --pre 2"), 700)
        chk.extra["scope"] = "every program of pushes and pops up to 3 operations for 2 threads and 2 for 3 threads; with tag counters started at zero and just below the wrap"
    else:
        b = {m: compile_sched(chk, "par" + m, H + "/par_sched.cpp", fl) for m, fl in (("rel", REL), ("dbg", DBG))}
        E = lambda w: {"fu_NUM_WORKER_THREADS": str(w)}
        for m in ("rel", "dbg"):
            P(b[m], S("--pre 2 --scn") + "|5,2,0,1;4,1,1,1;2,1,0,2;0,1,0,1;7,3,0,1", 300, E(1))
        P(b["rel"], S("--pre 99 --scn 3,1,0,1"), 300, E(1))
        P(b["rel"], S("--pre 99 --scn 3,1,0,1"), 300, E(2))
        P(b["rel"], S("--pre 2 --scn 4,1,1,1"), 300, E(2))
        P(b["rel"], S("--pre 2 --spur 1 --scn 3,1,0,1"), 300, E(2))
        P(b["rel"], S("--pre 99 --masters 2 --scn 2,1,0,1"), 300, E(1))
        P(b["rel"], S("--pre 4 --masters 2 --scn 2,1,0,1"), 300, E(2))
        if THOROUGH:
            P(b["rel"], S("--pre 4 --scn 4,1,1,1"), 500, E(2))
            P(b["rel"], S("--pre 3 --scn 4,1,0,2"), 500, E(3))
            P(b["dbg"], S("--pre 99 --scn 3,1,0,1"), 500, E(2))
            P(b["rel"], S("--pre 3 --spur 1 --masters 2 --scn 2,1,0,1"), 700, E(2))
    err = run_plan(chk, plan) or err
except RuntimeError as ex:
    chk.finish(error=ex)
chk.finish(error=err)
