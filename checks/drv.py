"""Properties decided by exhaustive Fu drivers: argument = property id."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from drv import *  # noqa

pid = sys.argv[1]
chk = Check(pid)
D = Drivers(chk)
# pid -> [(driver, args, tier ("q": both, "t": thorough), variants, split)]
R, A = ("--retail", " -O2", "g++"), ("--debug", " -O1 -g" + ASAN, "clang++")
# the shared sanitizer runtime of gcc: the simulated kernel's functions replace the program's own and the runtime's
I = ("--retail", " -O2 -U_FORTIFY_SOURCE", "g++")
G = ("--debug", " -O1 -g -U_FORTIFY_SOURCE" + ASAN.replace("function,", ""), "g++")
PLAN = {
    "C06": [("map", "4 10 int each", "q", R, 4), ("map", "5 6 int each", "q", R, 4), ("map", "4 6 string each", "q", R, 4), ("map", "3 6 string each", "q", A, 3), ("map", "3 10 int each", "q", A, 3),
            ("map", "6 4 int no", "q", R, 6), ("map", "6 6 int no", "t", R, 5), ("map", "5 10 int each", "t", R, 5), ("map", "7 3 int no", "t", R, 6)],
    "C07": [("bits", "", "q", R, 2), ("bits", "", "q", A, 2)],
    "C08": [("sorted", "7", "q", R, 2), ("sorted", "6", "q", A, 2), ("sorted", "9", "t", R, 2)],
    "C09": [("pool", "6 7", "q", R, 0), ("pool", "5 6", "q", A, 0), ("pool", "7 8", "t", R, 0)],
    "C10": [("strs", "12 6 7", "q", R, 2), ("strs", "9 5 5", "q", A, 2), ("strs", "14 7 8", "t", R, 2)],
    "C20": [("io", "writes 4", "q", I, 2), ("io", "reads 4", "q", I, 3), ("io", "else 4", "q", I, 2), ("io", "streams", "q", I, 3), ("io", "listing", "q", I, 4), ("io", "parents 5", "q", I, 4), ("io", "exe", "q", I, 0),
            ("io", "writes 3", "q", G, 2), ("io", "reads 3", "q", G, 3), ("io", "streams", "q", G, 3), ("io", "listing", "q", G, 4), ("io", "parents 4", "q", G, 4),
            ("io", "writes 7", "t", I, 3), ("io", "reads 7", "t", I, 4), ("io", "parents 7", "t", I, 5)],
    "C21": [("io", "collect 2", "q", I, 6), ("io", "handles", "q", I, 2), ("io", "collect 2", "q", G, 6), ("io", "collect 3", "t", I, 7)],
    "C24": [("util", "4", "q", R, 2), ("util", "3", "q", A, 2), ("util", "5", "t", R, 2)],
}
steps = [s for s in PLAN[pid] if s[2] == "q" or THOROUGH]
err = None
try:
    variants = sorted({(s[0], s[3]) for s in steps})
    bins = dict(zip(variants, pmap(lambda v: D.compile(v[0], v[1][0], v[1][1], v[1][2]), variants)))
except RuntimeError as ex:
    chk.finish(error=ex)
for name, args, tier, var, split in steps:
    e = D.run(bins[(name, var)], args.split(), 900 if THOROUGH else 150, split=split, note="%s %s" % var[:2])
    err = err or e
    if len(chk.violations) > 3:
        break
chk.finish(error=err)
