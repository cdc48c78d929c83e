"""C12: integer operators, conversions, literals (drivers/arith.fu) and the structure of expressions: every small
expression tree, printed with the fewest parentheses the operator table allows, must evaluate as the tree."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from progs import *  # noqa
import itertools

chk = Check("C12")
P = Progs(chk)
M = (1 << 32) - 1
LEVELS = [["*", "/", "%", "*%"], ["+", "-", "+%", "-%"], ["<<", ">>"], ["&"], ["^"], ["|"], ["<>"], ["<", "<=", ">", ">="], ["==", "!="], ["&&"], ["||"]]
PREC = {o: i for i, l in enumerate(LEVELS) for o in l}


class Undef(Exception):
    pass


def num(op, a, b):
    if op in ("/", "%"):
        if not b:
            raise Undef
        return a // b if op == "/" else a % b
    if op in ("<<", ">>"):
        if b > 31:
            raise Undef
        return (a << b) & M if op == "<<" else a >> b
    return {"*": a * b, "*%": a * b, "+": a + b, "+%": a + b, "-": a - b, "-%": a - b, "&": a & b, "^": a ^ b, "|": a | b}[op] & M


def ev(t, env):
    """tree -> ('n', int) or ('b', bool); None when it does not type."""
    if isinstance(t, str):
        return "n", env[t]
    if t[0] == "u":
        k, v = ev(t[2], env)
        if t[1] == "!":
            return "b", not v
        if k != "n":
            raise TypeError
        return "n", (-v if t[1] == "-" else ~v) & M
    if t[0] == "?":
        c, a, b = ev(t[1], env), ev(t[2], env), ev(t[3], env)
        if a[0] != b[0]:
            raise TypeError
        return a if c[1] else b
    op = t[0]
    (ka, a), (kb, b) = ev(t[1], env), ev(t[2], env)
    if op in ("&&", "||"):
        if ka != "b" or kb != "b":
            raise TypeError
        return "b", (a and b) if op == "&&" else (a or b)
    if ka != kb:
        raise TypeError
    if PREC[op] >= PREC["<"]:
        if ka == "b" and op not in ("==", "!="):
            raise TypeError
        return "b", {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if ka != "n":
        raise TypeError
    return "n", num(op, a, b)


def show(t, level=99, right=False):
    """Fewest parentheses: level = the strength of the operator around it."""
    if isinstance(t, str):
        return t
    if t[0] == "u":
        x = show(t[2], -1)
        return t[1] + (x if not x.startswith(t[1]) else "(" + x + ")")
    if t[0] == "?":
        s = "%s ? %s : %s" % (show(t[1], 50), show(t[2]), show(t[3], 60))
        return "(" + s + ")" if level < 60 else s
    p = PREC[t[0]]
    s = "%s %s %s" % (show(t[1], p), t[0], show(t[2], p, True))
    return "(" + s + ")" if p > level or p == level and right else s


def trees(n, ops, leaves):
    """all binary trees with n operators over the given leaves, in order"""
    if n == 0:
        return [leaves[0]]
    out = []
    for l in range(n):
        for a in trees(l, ops, leaves[:l + 1]):
            for b in trees(n - 1 - l, ops, leaves[l + 1:]):
                for o in ops:
                    out.append((o, a, b))
    return out


def unaries(t, us):
    """every way to put one prefix operator on one node"""
    if isinstance(t, str):
        return [("u", u, t) for u in us]
    return [("u", u, t) for u in us] + [(t[0], x, t[2]) for x in unaries(t[1], us)] + [(t[0], t[1], x) for x in unaries(t[2], us)]


ENVS = [dict(zip("abcd", v)) for v in ((13, 3, 2, 5), (1, 0, 7, 1), (4294967295, 2, 1, 3), (2, 9, 4, 30), (0, 1, 6, 2))]
corpus, seen = [], set()


def add(t):
    if t in seen:
        return
    seen.add(t)
    outs, kind = [], None
    for e in ENVS:
        try:
            k, v = ev(t, e)
            kind = k
            outs.append(str(int(v)))
        except Undef:
            outs.append("-")
        except TypeError:
            return
    if any(o != "-" for o in outs):
        corpus.append((t, kind, outs))


ALL = [o for l in LEVELS for o in l if o != "<>"]
FEW = ["*", "/", "-", "<<", "&", "^", "|", "<", "==", "&&", "||"] if not THOROUGH else ["*", "/", "%", "+", "-", "<<", ">>", "&", "^", "|", "<", ">=", "==", "!=", "&&", "||"]
for t in trees(1, ALL, "ab") + trees(2, ALL, "abc"):
    add(t)
for t in trees(3, FEW, "abcd"):
    add(t)
for t in trees(1, ALL, "ab") + trees(2, FEW, "abc"):
    for x in unaries(t, "-~!"):
        add(x)
base = trees(1, ["-", "<", "&", "=="], "ab")
for t in trees(1, ["<", "==", "&&", "+"], "ab") + ["a"]:       # ternaries around and inside
    for x in base + ["b"]:
        for y in trees(1, ["-", "<"], "cd") + ["c"]:
            add(("?", t, x, y))
            add(("?", t, x, ("?", ("<", "b", "c"), y, x)))
            add(("?", t, ("?", ("<", "b", "c"), y, x), y))
            for o in ("+", "==", "&&", "&"):
                add((o, ("?", t, x, y), "d"))
                add((o, "d", ("?", t, x, y)))

HEAD = """
fn show(n: u32): string = "" ~ n;
fn show(b: bool): string = b ? "1" : "0";
fn same(got: string, want: string, k: int): void { if (got != want) { println("BAD " ~ k ~ " " ~ got); } }
"""
CTX = ["{e}", "{{ let r = {e}; return r; }}", "{{ if ({e}) {{ return {t}; }} else {{ return {f}; }} }}", "{{ mut r: string; r ~= {e}; return r; }}", "{{ return id({e}); }}"]


def emit(i, t, kind, outs):
    src = show(t)
    args = "a: u32, b: u32, c: u32, d: u32"
    used = "".join(v for v in "abcd" if v in src)
    sig = ", ".join("%s%s: u32" % ("" if v in used else "lax ", v) for v in "abcd")
    c = i % 4
    want = outs
    if c == 0 or kind == "n" and c == 3:
        f = "fn f%d(%s) %s;" % (i, sig, src)
    elif c == 1:
        f = "fn f%d(%s) { let r = %s; return r; }" % (i, sig, src)
    elif c == 2:
        f = "fn f%d(%s) { if (%s) return 1.u32; return 0.u32; }" % (i, sig, src)
        want = ["-" if o == "-" else str(int(o != "0")) for o in outs]
    else:
        f = "fn f%d(%s) { mut n = 0.u32; while (%s) { n++; break; } return n; }" % (i, sig, src)
    calls = ["same(show(f%d(%s)), \"%s\", %d);" % (i, ", ".join(str(e[v]) for v in "abcd"), w, i) for e, w in zip(ENVS, want) if w != "-"]
    if kind == "n" and c == 0:      # the concatenation operator is weaker than every numeric one
        f += "\nfn g%d(%s) \"<\" ~ %s ~ \">\";" % (i, sig, show(t, PREC["|"]))
        calls += ["same(g%d(%s), \"<%s>\", %d);" % (i, ", ".join(str(e[v]) for v in "abcd"), w, i) for e, w in zip(ENVS, outs) if w != "-"]
    return f, calls


def program(items):
    fs, ts = [], []
    for j in range(0, len(items), 30):
        body = []
        for i, (t, kind, outs) in items[j:j + 30]:
            f, calls = emit(i, t, kind, outs)
            fs.append(f)
            body += calls
        ts.append("fn t%d(): void {\n    %s\n}" % (j, "\n    ".join(body)))
    return HEAD + "\n".join(fs) + "\n" + "\n".join(ts) + "\nfn main(): i32 {\n    %s\n    println(\"DONE\");\n    return 0;\n}\n" % "\n    ".join("t%d();" % j for j in range(0, len(items), 30))


# literals: the value of every spelling, and the bounds each integer type accepts
def literals():
    out, rejects = [], []
    for n in (8, 16, 32, 64):
        for sgn in (0, 1):
            ty = "%s%d" % ("ui"[sgn], n)
            lo, hi = (-(1 << n - 1), (1 << n - 1) - 1) if sgn else (0, (1 << n) - 1)
            for v in sorted({lo, lo + 1, 0, 1, 7, 8, 9, 10, 15, 16, hi // 2, hi // 2 + 1, hi - 1, hi} | ({-1} if sgn else set())):
                for fmt in ("%d", "0x%x", "0o%o", "0b{:b}", "0X%X", "_"):
                    a = abs(v)
                    s = "{:_}".format(a) if fmt == "_" else fmt.format(a) if "{" in fmt else fmt % a
                    if fmt == "0X%X":
                        s = "0x%X" % a
                    out.append((ty, ("-" if v < 0 else "") + s, v))
            for v in [lo - 1, hi + 1] if sgn else [-1, hi + 1]:
                for fmt in ("%d", "0x%x"):
                    rejects.append((ty, ("-" if v < 0 else "") + fmt % abs(v)))
    return out, rejects


ok_lits, bad_lits = literals()


def lit_program():
    body = ["{ let x: %s = %s; same(\"\" ~ x, \"%d\", %d); }" % (ty, s, v, i) for i, (ty, s, v) in enumerate(ok_lits)]
    ts = []
    for j in range(0, len(body), 50):
        ts.append("fn t%d(): void {\n    %s\n}" % (j, "\n    ".join(body[j:j + 50])))
    return HEAD + "\n".join(ts) + "\nfn main(): i32 {\n    %s\n    println(\"DONE\");\n    return 0;\n}\n" % "\n    ".join("t%d();" % j for j in range(0, len(body), 50))


err = None
CH = (len(corpus) + NCPU - 1) // NCPU
parts = [list(enumerate(corpus))[i:i + CH] for i in range(0, len(corpus), CH)]
try:
    bins = pmap(lambda v: P.compile("arith", v[0], v[1], v[2]), [("--retail", "", "g++"), ("--debug", "", "g++"), ("--retail", " -O2 -fsanitize=undefined -fno-sanitize=alignment,null,function,vptr,return,nonnull-attribute,pointer-overflow,signed-integer-overflow -fno-sanitize-recover=undefined", "clang++")])
except RuntimeError as ex:
    chk.finish(error=ex)
for b in bins:
    err = P.run(b, ["full" if THOROUGH or b == bins[0] else "quick"], 400, split=2) or err


def locate(part, stage, out, name):
    """Files the violations of one batch."""
    global err
    if stage == "run":
        bad = [l for l in out.splitlines() if l.startswith("BAD ")]
        for l in bad[:3]:
            i = int(l.split()[1])
            t, kind, outs = corpus[i]
            chk.violation("expression %s" % show(t), "`%s` gives %s; as the tree %s it is one of %s" % (show(t), l.split(" ", 2)[2], t, outs), emit(i, t, kind, outs)[0])
        if not bad and "DONE" not in out:
            err = "expression batch %s did not finish: %s" % (name, out[-500:])
        return
    lo = part
    def bad(cs):
        s, _, o = P.build_run("bis" + name, program(cs))
        return s == "compile", o
    b, o = True, out
    while b and len(lo) > 1 and chk.left() > 90:
        h = lo[:len(lo) // 2]
        b2, o2 = bad(h)
        if b2:
            lo, o = h, o2
        else:
            lo = lo[len(lo) // 2:]
            b, o = bad(lo)
    if b and len(lo) == 1:
        chk.violation("expression %s rejected" % show(lo[0][1][0]), "a legal expression does not compile: `%s`: %s" % (show(lo[0][1][0]), o[-700:]), program(lo))
    else:
        err = "expression batch %s does not compile: %s" % (name, out[-800:])


jobs = [("e%d" % i, p) for i, p in enumerate(parts)] + [("lit", None)]
res = pmap(lambda j: P.build_run(j[0], lit_program() if j[1] is None else program(j[1]), mode="--retail" if j[0] in ("e0", "e1") else "--debug", opt="" if j[0] == "e0" else " -O0"), jobs)
for (name, part), (stage, rc, out) in zip(jobs, res):
    if part is not None:
        chk.add(len(part), sum(len(x[1][2]) for x in part), len(part))
        locate(part, stage, out, name)
    elif stage == "run":
        chk.add(len(ok_lits), len(ok_lits), len(ok_lits))
        for l in [l for l in out.splitlines() if l.startswith("BAD ")][:3]:
            ty, s, v = ok_lits[int(l.split()[1])]
            chk.violation("literal %s: %s" % (s, ty), "the %s literal %s has the value %s" % (ty, s, l.split(" ", 2)[2]), s)
        if "DONE" not in out:
            err = "literal program did not finish: " + out[-500:]
    else:
        chk.violation("literals rejected", "a program of literals within the bounds of their types does not compile: " + out[-900:], lit_program())


def rejected(x):
    ty, s = x
    st, rc, out = P.build_run("rej%s%s" % (ty, s), "fn main(): i32 {\n    let x: %s = %s;\n    println(x);\n    return 0;\n}\n" % (ty, s), opt=" -O0")
    return st == "compile", out


for x, (r, out) in zip(bad_lits, pmap(rejected, bad_lits)):
    chk.add(1, 1, 1)
    if not r:
        chk.violation("literal %s accepted as %s" % (x[1], x[0]), "%s accepts the out of range literal %s, program prints %s" % (x[0], x[1], out[-60:]), x[1])
chk.sample("%d expression trees with up to 3 operators of %d, %d literals in range, %d out of range" % (len(corpus), len(ALL), len(ok_lits), len(bad_lits)))
chk.finish(error=err)
