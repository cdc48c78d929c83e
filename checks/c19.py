"""C19: hot-swapped functions. Every history of replacing the library, signals and hotswap::here(). (harness/hotswap.cpp)"""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from fv import *  # noqa
import shutil

chk = Check("C19")
chk.assumptions = ["SIGUSR1 arrives between calls, as raise() delivers it; a signal inside the allocator is the handler's documented hazard",
                   "the library is replaced the way the builder does it: unlink, then rename a finished file into place"]
PLUGIN = """#include <dl/hotswap.hpp>
extern "C" int fv_calls;
#if F
extern "C" fu_EXPORT int fv_f_local(int x) { fv_calls++; return 1000 + F * 10000 + x; }
extern int (*fv_f)(int);
int (*fv_f)(int) = fu::hotswap("fv_f_local", fv_f, &fv_f_local);
#endif
#if G
extern "C" fu_EXPORT int fv_g_local(int x) { fv_calls++; return 2000 + G * 10000 + x; }
extern int (*fv_g)(int);
int (*fv_g)(int) = fu::hotswap("fv_g_local", fv_g, &fv_g_local);
#endif
"""
INC = REPO + "/include"
V = chk.dir + "/variants"
os.makedirs(V)
with open(chk.dir + "/plugin.cpp", "w") as f:
    f.write(PLUGIN)
with open(V + "/bad", "w") as f:
    f.write("not a library\n")
BASE = ["g++", "-std=c++17", "-w", "-Dfu_HOTSWAP", "-I" + INC]


def build(j):
    return sh(BASE + j, cwd=chk.dir, timeout=200)


jobs = [["-O1", "-shared", "-fPIC", "-DF=%d" % f, "-DG=%d" % g, "-o", V + "/" + n, chk.dir + "/plugin.cpp"] for n, f, g in (("fg1", 1, 1), ("fg2", 2, 2), ("f3", 3, 0), ("g4", 0, 4), ("none", 0, 0))]
MODES = {"debug": ["-O1", "-g"], "retail": ["-O2", "-DNDEBUG", "-Dfu_RETAIL=1"]}
for m, fl in MODES.items():
    jobs.append(fl + ["-I" + HARNESS, "-rdynamic", "-o", chk.dir + "/exe-" + m, HARNESS + "/hotswap.cpp", INC + "/fu/_fulib.cpp", "-ldl", "-pthread"])
for (rc, o), j in zip(pmap(build, jobs), jobs):
    if rc:
        chk.finish(error="does not compile: %s\n%s" % (" ".join(j[-4:]), o[-3000:]))

err = None
depth = 6 if THOROUGH else 5


def explore(a):
    m, own, i = a
    d = "%s/w-%s-%d-%d" % (chk.dir, m, own, i)
    os.makedirs(d)
    exe = d + "/exe" if own else chk.dir + "/exe-" + m
    if own:
        shutil.copy(chk.dir + "/exe-" + m, exe)
    env = {k: v for k, v in os.environ.items() if not k.startswith("FU_")}
    if not own:
        env["FU_HOTSWAP_LIB"] = d + "/lib"
    cmd = [exe, "--variants", V, "--dir", d, "--depth", str(depth), "--shard", "%d/%d" % (i, NCPU), "--seconds", str(int(chk.left() - 20))] + (["--beside"] if own else [])
    rc, o = sh(cmd, env=env, cwd=d, timeout=chk.left())
    return cmd, rc, o


work = [(m, own, i) for m in MODES for own in (0, 1) for i in range(NCPU)]
for (m, own, i), (cmd, rc, o) in zip(work, pmap(explore, work)):
    rs = parse_results(o)
    if not rs:
        err = "no result (rc=%s): %s" % (rc, o[-800:])
    for r in rs:
        chk.add(r["distinct"], r["ops"], r["runs"])
        chk.capped = chk.capped or r["capped"]
        if r["error"]:
            err = r["msg"]
        if r["violated"]:
            chk.violation("%s: %s" % (r["label"].split(", depth")[0], r["trace"].replace("\n", "; ")), r["msg"], "%s\nhistory:\n%s\n%s build; %s --replay %s" % (r["msg"], r["trace"], m, " ".join(cmd), r["path"]))
        for s in r["samples"][:1]:
            chk.sample(s)
chk.extra["scope"] = "every history of %d steps over: replace the library by one of 5 builds (both functions twice, one of them, none), by junk, or remove it; SIGUSR1; hotswap::here(); add / remove the callback; library named by the environment or beside the executable; debug and retail runtime" % depth
chk.finish(error=err)
