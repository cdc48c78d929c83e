"""C25: values are values in the language. Every small program over variables, references, arrays, structs, helpers and
their results: what the compiler accepts must compile, and its run must be that of an interpreter in which every
variable is its own value; a program that touches what a reference named after it ended must not be accepted."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from progs import *  # noqa
from fugen import *  # noqa
import re

chk = Check("C25")
P = Progs(chk)
err = None
CHUNK = 250

OPS = ("add", "push", "set", "swap")
ALL = {
    "arrays": lambda: programs(Gen("ab", 3, OPS)),
    "arrays2": lambda: programs(Gen("ab", 2, OPS + ("pop", "clear"))),
    "chain": lambda: programs(Gen("a", 4, OPS, derived=3)),
    "struct": lambda: programs(Gen("s", 3, ("add", "push", "set"))),
    "structs": lambda: programs(Gen("st", 3, ("add", "push", "set"))),
    "nested": lambda: programs(Gen("w", 2, OPS + ("pushv",))),
    "nested3": lambda: programs(Gen("w", 3, OPS + ("pushv",))),
    "structarr": lambda: programs(Gen("q", 2, OPS + ("pushv",))),
    "structarr3": lambda: programs(Gen("q", 3, ("add", "push", "set", "pushv"))),
    "control2": lambda: programs(Gen("ab", 2, OPS, wrap=("if", "loop"))),
    "control": lambda: programs(Gen("a", 3, OPS, wrap=("if", "loop"))),
    "choice2": lambda: programs(Gen("ab", 2, ("add", "push", "set"), cond=True)),
    "choice": lambda: programs(Gen("ab", 3, ("add", "push", "set"), cond=True)),
    "args int array": lambda: calls_a("a", ("I", "V"), OPS, 2),
    "args array int": lambda: calls_a("a", ("V", "I"), OPS, 2),
    "args arrays": lambda: calls_a("a", ("V", "V"), OPS, 2),
    "args ints": lambda: calls_a("a", ("I", "I"), OPS, 2),
    "args array struct": lambda: calls_a("s", ("V", "S"), OPS, 1),
    "args int struct": lambda: calls_a("s", ("I", "S"), OPS, 1),
    "args structs": lambda: calls_a("s", ("S", "S"), OPS, 1),
    "args array nested": lambda: calls_a("w", ("V", "W"), OPS + ("pushv",), 1),
    "args int nested": lambda: calls_a("w", ("I", "W"), OPS + ("pushv",), 1),
    "result int": lambda: calls_r("ab", ("V",), OPS, 1, "I", 1),
    "result array": lambda: calls_r("ab", ("V",), OPS, 1, "V", 1),
    "result int of two": lambda: calls_r("ab", ("V", "V"), OPS, 1, "I", 0),
    "result int of two, used": lambda: calls_r("ab", ("V", "V"), OPS, 1, "I", 1),
    "result array of two": lambda: calls_r("a", ("V", "V"), OPS, 1, "V", 0),
    "result array of two, used": lambda: calls_r("ab", ("V", "V"), OPS, 1, "V", 1),
    "result field array": lambda: calls_r("s", ("S",), OPS, 1, "V", 1),
    "result field int": lambda: calls_r("s", ("S",), OPS, 1, "I", 1),
    "result row": lambda: calls_r("w", ("W",), OPS, 1, "V", 1),
}
DEEP = ("arrays", "chain", "structs", "nested3", "structarr3", "choice", "control", "result array of two, used", "result int of two, used")
names = [n for n in ALL if THOROUGH or n not in DEEP] + [n for n in ALL if THOROUGH and n in DEEP]
if len(sys.argv) > 1 and sys.argv[1] != "--replay":
    names = sys.argv[1:]


def meaning(b):
    out = []
    for c in (0, 1):
        try:
            out.append(run(b, c))
        except Dangling:
            out.append(None)
        except Bad:
            return None, False
    if None in out:
        return out, True
    for v in ("l", "m", "r", "a", "lma"):       # would any mistaken sharing or copying show?
        for c in (0, 1):
            try:
                if run(b, c, v) != out[c]:
                    return out, True
            except (Dangling, Bad):
                return out, True
    return out, False


def single(b):
    return HEAD + function(0, b) + "fn main() { mut o = \"\"; t0(1, :o); println(o); return 0; }\n"


try:
    fucc = P.compile("fucc", "--retail", " -O1")
except RuntimeError as ex:
    chk.finish(error=ex)
FEHOME = fubuild.mkhome(chk.dir + "/fehome")


def front(a):
    """Verdicts of the front end: [('ok'|'no'|'died', text)]."""
    k, srcs = a
    res = []
    while len(res) < len(srcs):
        f = "%s/in.%s.%d" % (chk.dir, k, len(res))
        with open(f, "w") as h:
            h.write("\n%%%\n".join(srcs[len(res):]))
        rc, o = sh([fucc], env=dict(fubuild.base_env("-w"), HOME=FEHOME, FV_IN=f, fu_NUM_WORKER_THREADS="0"), cwd=chk.dir, timeout=600)
        o = re.sub(r"\x1b\[[0-9;]*m", "", o)
        got = [m.groups() for m in re.finditer(r"^@@ \d+ (ok|no) (.*)$", o, re.M)]
        res += got
        os.unlink(f)
        if len(res) < len(srcs):
            res.append(("died", "rc=%s %s" % (rc, o[-300:])))
            if sum(r[0] == "died" for r in res) > 5:
                res += [("died", "not tried")] * (len(srcs) - len(res))
    return res


def whole(fs):
    out = [HEAD] + [function(i, b) for i, b in enumerate(fs)]
    out.append("fn run(n: int, c: int, o: string): void { println(\"@ \" ~ n ~ \" \" ~ c ~ \" \" ~ o); }\n")
    G = 50
    for g in range(0, len(fs), G):
        out.append("fn g%d(): void {\n    mut o = \"\";\n" % g + "".join("    for (mut c = 0; c < 2; c++) { o = \"\"; t%d(c, :o); run(%d, c, o); }\n" % (i, i) for i in range(g, min(g + G, len(fs)))) + "}\n")
    out.append("fn main() {\n" + "".join("    g%d();\n" % g for g in range(0, len(fs), G)) + "    return 0;\n}\n")
    return "".join(out)


def execute(a):
    """Runs accepted programs; [(index, what)] of those that went wrong, or a string if the batch does not compile."""
    name, fs, ms = a
    st, rc, o = P.build_run(name, whole(fs), opt=" -O0")
    if st == "compile":
        if len(fs) == 1:
            return [(0, "accepted, but does not compile: " + re.sub(r"\x1b\[[0-9;]*m", "", o)[-700:])]
        h = len(fs) // 2
        a1 = execute((name + "l", fs[:h], ms[:h]))
        a2 = [(i + h, w) for i, w in execute((name + "r", fs[h:], ms[h:]))] if len(a1) < 3 else []
        return a1 + a2
    got = {}
    for l in o.splitlines():
        w = l.split(" ", 3)
        if w[0] == "@" and len(w) == 4 and w[2].isdigit():
            got[int(w[1]), int(w[2])] = w[3]
    bad = []
    for i, m in enumerate(ms):
        for c in (0, 1):
            g = got.get((i, c))
            if g != m[c]:
                bad.append((i, "gives %s, its values are %s (c = %d)" % (g, m[c], c) if g is not None else "the program died here (rc=%s)" % rc))
                break
        if len(bad) > 3:
            break
    return bad


def key(b):
    return re.sub(r"\s+", " ", function(0, b)).strip()


def helper_key(b):
    hs = helpers(b, [])
    return re.sub(r"\s+", " ", function(0, b).split("fn t0(")[0]).strip() if hs else key(b)


from multiprocessing import Pool  # noqa
tally = {}
for th in names:
    if chk.left() < 40 or len(chk.violations) > 3:
        chk.capped = chk.capped or chk.left() < 40
        break
    ps = list(dict.fromkeys(ALL[th]()))
    with Pool(NCPU) as pool:
        ms = pool.map(meaning, ps, chunksize=500)
    sel = [(b, m, cr) for b, (m, cr) in zip(ps, ms) if m is not None]
    dang = sum(None in m for _, m, _ in sel)
    # the front end judges those whose meaning depends on it; the compiler itself judges the rest of the accepted
    srcs = [single(b) for b, _, _ in sel]
    res = [None] * len(srcs)
    for i, r in enumerate(pmap(front, [(str(i), srcs[i::NCPU]) for i in range(NCPU)], NCPU)):
        for j, x in enumerate(r):
            res[i + j * NCPU] = x
    runs = []
    cnt = dict(programs=len(sel), dangling=dang, accepted=0, rejected=0, run=0)
    for (b, m, cr), (v, text) in zip(sel, res):
        if v == "died":
            if text != "not tried":
                chk.violation("front end died: " + key(b), "the compiler died on a program: " + text, single(b))
        elif v == "no":
            cnt["rejected"] += 1
            if "BUG" in text or "ssertion" in text:
                chk.violation("front end: " + key(b), "the compiler failed one of its own checks: " + text[:300], single(b))
            elif None not in m and not re.search(r"\bref (?!o: string)|swap\(|\bh0_", key(b)):
                chk.violation("rejected: " + key(b), "a program without references was rejected: " + text[:300], single(b))
        else:
            cnt["accepted"] += 1
            if None in m:
                chk.violation("accepted: " + helper_key(b), "the compiler accepts a program that uses a reference to something that ended", single(b))
            elif cr:
                runs.append((b, m))
        if len(chk.violations) > 3:
            break
    if len(chk.violations) > 3:
        break
    cnt["run"] = len(runs)
    jobs = [("%s%d" % (re.sub(r"\W", "", th), k), [b for b, _ in runs[k:k + CHUNK]], [m for _, m in runs[k:k + CHUNK]]) for k in range(0, len(runs), CHUNK)]
    if len(jobs) < NCPU and len(runs) > NCPU * 20:
        c = -(-len(runs) // NCPU)
        jobs = [("%s%d" % (re.sub(r"\W", "", th), k), [b for b, _ in runs[k:k + c]], [m for _, m in runs[k:k + c]]) for k in range(0, len(runs), c)]

    def guarded(j):
        if chk.left() < 25:
            return None
        return execute(j)
    for j, bad in zip(jobs, pmap(guarded, jobs, NCPU)):
        if bad is None:
            chk.capped = True
            continue
        for i, what in bad:
            chk.violation("runs wrong: " + helper_key(j[1][i]), what, single(j[1][i]))
            if len(chk.violations) > 3:
                break
    tally[th] = cnt
    chk.add(len(sel), len(sel) + 2 * len(runs), 2 * len(runs))
    if not cnt["accepted"] or not cnt["run"]:
        err = "theme %s: nothing was accepted or run: %s" % (th, cnt)
    if os.environ.get("FV_TIMES"):
        print("%s %s left %.0f" % (th, cnt, chk.left()), flush=True)
    if runs:
        chk.sample("%s => %s" % (key(runs[len(runs) // 2][0]), runs[len(runs) // 2][1]))
chk.extra["themes"] = tally
chk.extra["scope"] = "every program of each theme: up to 2-4 statements (declare let/mut/ref from any reachable lvalue, add, append, assign, swap) over int, int[], struct, int[][], S[]; helpers of every parameter kind called with every pair of overlapping lvalues; results by value and by reference; under if / loop / conditional references"
chk.finish(error=err)
