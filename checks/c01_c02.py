"""C01 / C02: arrays are values; windows edit exactly their range. (harness/vec_hist.cpp)"""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from fv import *  # noqa

pid = sys.argv[1]
ranges = pid == "C02"
chk = Check(pid)
chk.assumptions = [
    "operations are called with arguments inside their documented ranges (indices within the array)",
    "element values do not influence array code, so states are merged up to renaming of values",
]
DBG = ["-O1", "-g"]
REL = ["-O2", "-DNDEBUG", "-Dfu_RETAIL=1"]
ELEMS = range(8)
jobs = []
for e in ELEMS:
    for mode, fl in (("debug", DBG), ("retail", REL)):
        jobs.append((e, mode, fl))
err = None


def build(j):
    e, mode, fl = j
    return compile_cpp(chk, "vec%d%s" % (e, mode), HARNESS + "/vec_hist.cpp", fl + ["-DELEM=%d" % e, "-DRANGES=%d" % ranges], WRAP)


def build_like(j):
    return compile_cpp(chk, "like%d%s" % (j[0], j[1]), HARNESS + "/veclike.cpp", j[2] + ["-DELEM=%d" % j[0]], WRAP)


try:
    likes = dict(zip([(j[0], j[1]) for j in jobs], pmap(build_like, jobs)))
    bins = dict(zip([(j[0], j[1]) for j in jobs], pmap(build, jobs)))
except RuntimeError as ex:
    chk.finish(error=ex)

W = ["--workers", "8"]
plan = []
for e in ELEMS:
    for mode in ("debug", "retail"):
        if ranges:
            if mode == "retail" and e in (0, 7) and not THOROUGH:
                continue       # small elements have the largest spaces: debug build only
            plan.append((e, mode, ["--depth", "1"] + W, 400))
        else:
            plan.append((e, mode, ["--depth", "2"] + W, 400))
if ranges:
    for e in (6,) if not THOROUGH else ELEMS:
        plan.append((e, "debug", ["--depth", "2", "--reduced"] + W, 1200))
else:
    for e in (1, 4, 6) if not THOROUGH else ELEMS:
        plan.append((e, "debug", ["--depth", "3", "--reduced"] + W, 1200))
    if THOROUGH:
        for e in ELEMS:
            plan.append((e, "debug", ["--depth", "3"] + W, 1200))
if THOROUGH:
    for e in (0, 1, 4, 5):
        b = compile_cpp(chk, "asan%d" % e, HARNESS + "/vec_hist.cpp", ["-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize=alignment,null", "-DNOWRAP=1", "-DELEM=%d" % e, "-DRANGES=%d" % ranges])
        bins[(e, "asan")] = b
        plan.append((e, "asan", ["--depth", "1" if ranges else "2"] + W, 1200))
for (e, mode), b in likes.items():
    r = run_explorer(chk, b, W + (["--from", "2"] if ranges else ["--to", "3"]) + ["--seconds", str(int(min(200, chk.left() - 10)))],
                     "built from harness/veclike.cpp with -DELEM=%d, %s flags" % (e, mode), 260)
    err = err or r
    if len(chk.violations) > 3:
        break
for e, mode, args, t in plan:
    if chk.left() < 20:
        chk.capped = True
        break
    r = run_explorer(chk, bins[(e, mode)], args + ["--seconds", str(int(min(t, chk.left() - 10)))],
                     "built from harness/vec_hist.cpp with -DELEM=%d -DRANGES=%d, %s flags" % (e, ranges, mode), t + 60)
    err = err or r
    if len(chk.violations) > 3:
        break
chk.extra["scope"] = "3 handles, %s; element types: byte, u16, i32, u64, 24-byte struct, owning copiable, string, owning non-copiable; debug and retail builds of the runtime" % (
    "every window of an array and every pair of operations through it after every shorter history" if ranges
    else "every history of 2 operations (full alphabet) and 3 operations (reduced alphabet) from each initial sharing configuration")
chk.finish(error=err)
