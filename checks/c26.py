"""C26: arguments outside an array never make an access, a slice or an edit touch anything outside of it. (harness/bounds.cpp)"""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from fv import *  # noqa

chk = Check("C26")
chk.assumptions = ["element access is unchecked in --retail builds by design; there only slices and edits are judged",
                   "requests to grow an array beyond 40 elements past its size are not made (they ask for memory)"]
MODES = {"debug": ["-O1", "-g"], "release": ["-O2", "-g", "-DNDEBUG"], "retail": ["-O2", "-DNDEBUG", "-Dfu_RETAIL=1"]}
jobs = [(e, m) for e in range(8) for m in MODES]
err = None


def work(j):
    e, m = j
    return compile_cpp(chk, "bounds%d%s" % j, HARNESS + "/bounds.cpp", MODES[m] + ["-DELEM=%d" % e], WRAP)


try:
    bins = pmap(work, jobs)
except RuntimeError as ex:
    chk.finish(error=ex)
for (e, m), b in zip(jobs, bins):
    err = run_explorer(chk, b, ["--workers", "8", "--seconds", "200"], "built from harness/bounds.cpp with -DELEM=%d, %s flags" % (e, m), 260) or err
    if len(chk.violations) > 3:
        break
chk.extra["scope"] = "byte, u16, i32, u64, 24-byte struct, owning, string and non-copiable elements; arrays, windows, views, slates, literals; sizes 0, 1, 2, largest small size and one more; every index, slice and edit with arguments at both sides of each edge and at the ends of the integer range; debug, release and retail builds"
chk.finish(error=err)
