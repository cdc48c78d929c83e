"""C16: order of evaluation. Every expression of up to three operands with effects, under every way of combining them:
its value and its effects must be those of evaluating operands left to right (references to be written through last,
the right side of an assignment first), whichever C++ compiler finishes the job."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from progs import *  # noqa
import itertools
import re

chk = Check("C16")
P = Progs(chk)
err = None
CHUNK = 200

HEAD = """fn show(a: int[]) { mut r = ""; for (mut k = 0; k < a.len; k++) { if (k) r ~= ","; r ~= a[k]; } return r; }
struct P { u: int; v: int; };
fn f2(p: int, q: int) p * 1000 + q;
fn f3(p: int, q: int, r: int) (p * 1000 + q) * 1000 + r;
fn sum2(v: int[]) v[0] * 1000 + v[1];
fn pair(p: P) p.u * 1000 + p.v;
fn va(u: int[], q: int) (u.len * 100 + u[0]) * 1000 + q;
fn av(q: int, u: int[]) (u.len * 100 + u[0]) * 1000 + q;
fn aa(u: int[], w: int[]) (u.len * 100 + u[0]) * 1000 + w.len * 100 + w[0];
fn mx(ref p: int, q: int) { p = p * 2 + q; return p; }
fn xm(q: int, ref p: int) { p = p * 2 + q; return p; }
fn ma(ref p: int[], q: int) { p ~= q; p[0] += q; return p.len * 100 + p[0]; }
fn am(q: int, ref p: int[]) { p ~= q; p[0] += q; return p.len * 100 + p[0]; }
fn put(n: int, v: int, x: int, y: int, a: int[]): void { println("@ " ~ n ~ " " ~ v ~ " " ~ x ~ " " ~ y ~ " " ~ show(a)); }
"""
LOCALS = """    mut x = 2;
    lax mut y = 5;
    mut a = [3, 4];
    lax fn inc(d: int) { x = x * 2 + d; return x; }
    lax fn bump(d: int) { a[0] += d; return a[0]; }
    lax fn push(d: int) { a ~= d; return a.len; }
    lax fn grown(d: int) { a ~= d; return a; }
"""


class St:
    __slots__ = ("x", "y", "a")

    def __init__(self):
        self.x, self.y, self.a = 2, 5, [3, 4]


def w32(v):
    return (v + 2**31) % 2**32 - 2**31


def at(u, k):
    return u[k]


# Expressions: (kind, operands...). Leaves carry their digit.
def ev(e, s, mode):
    """mode '' is the language; 'r' right to left, 'l' operands read late: mistakes a lowering could make."""
    k = e[0]
    if k == "x":
        return (lambda: s.x) if mode == "l" else s.x
    if k == "y":
        return s.y
    if k == "a0":
        return (lambda: s.a[0]) if mode == "l" else s.a[0]
    if k == "len":
        return (lambda: len(s.a)) if mode == "l" else len(s.a)
    if k == "inc":
        s.x = w32(s.x * 2 + e[1])
        return s.x
    if k == "bump":
        s.a[0] = w32(s.a[0] + e[1])
        return s.a[0]
    if k == "push":
        s.a.append(e[1])
        return len(s.a)
    if k == "A":
        return (lambda: list(s.a)) if mode == "l" else list(s.a)
    if k == "grown":
        s.a.append(e[1])
        return (lambda: list(s.a)) if mode == "l" else list(s.a)
    if k in ("?", "&&", "||"):
        c = force(ev(e[1], s, mode))
        if k == "?":
            return force(ev(e[2] if c & 1 else e[3], s, mode))
        if k == "&&":
            return int(bool(c & 1 and force(ev(e[2], s, mode)) & 1))
        return int(bool(c & 1 or force(ev(e[2], s, mode)) & 1))
    if k in ("mx", "xm", "ma", "am"):
        q = force(ev(e[1], s, mode))
        if k in ("mx", "xm"):
            s.x = w32(s.x * 2 + q)
            return s.x
        s.a.append(q)
        s.a[0] = w32(s.a[0] + q)
        return w32(len(s.a) * 100 + s.a[0])
    if k == "=x":
        s.x = force(ev(e[1], s, mode))
        return s.x
    if k == "+=x":
        q = force(ev(e[1], s, mode))
        s.x = w32(s.x + q)
        return s.x
    if k == "=a":       # a[i & 1] = r
        if mode == "r":
            i = force(ev(e[1], s, mode)) & 1
            r = force(ev(e[2], s, mode))
        else:
            r = force(ev(e[2], s, mode))
            i = force(ev(e[1], s, mode)) & 1
        s.a[i] = r
        return r
    if k == "+=a":
        if mode == "r":
            i = force(ev(e[1], s, mode)) & 1
            r = force(ev(e[2], s, mode))
        else:
            r = force(ev(e[2], s, mode))
            i = force(ev(e[1], s, mode)) & 1
        s.a[i] = w32(s.a[i] + r)
        return s.a[i]
    ops = list(e[1:])
    if mode == "r":
        vs = [ev(o, s, mode) for o in reversed(ops)][::-1]
    else:
        vs = [ev(o, s, mode) for o in ops]
    vs = [force(v) for v in vs]
    if k == "-":
        return w32(vs[0] - vs[1])
    if k in ("f2", "sum2", "pair", "*1000"):
        return w32(w32(vs[0] * 1000) + vs[1])
    if k == "f3":
        return w32(w32(w32(w32(vs[0] * 1000) + vs[1]) * 1000) + vs[2])
    if k == "va":
        return w32(w32((len(vs[0]) * 100 + vs[0][0]) * 1000) + vs[1])
    if k == "av":
        return w32(w32((len(vs[1]) * 100 + vs[1][0]) * 1000) + vs[0])
    if k == "aa":
        return w32(w32((len(vs[0]) * 100 + vs[0][0]) * 1000) + len(vs[1]) * 100 + vs[1][0])
    if k == "at":       # a[i & 1] where the array comes first
        return vs[0][vs[1] & 1]
    if k == "<":
        return int(vs[0] < vs[1])
    if k == "==":
        return int(vs[0] == vs[1])
    raise ValueError(k)


def force(v):
    return v() if callable(v) else v


def txt(e):
    k = e[0]
    if k in ("x", "y"):
        return k
    if k == "a0":
        return "a[0]"
    if k == "len":
        return "a.len"
    if k == "A":
        return "a"
    if k in ("inc", "bump", "push", "grown"):
        return "%s(%d)" % (k, e[1])
    t = [txt(o) for o in e[1:]]
    if k == "-":
        return "(%s - %s)" % tuple(t)
    if k == "*1000":
        return "(%s * 1000 + %s)" % tuple(t)
    if k == "<":
        return "(%s < %s ? 1 : 0)" % tuple(t)
    if k == "==":
        return "(%s == %s ? 1 : 0)" % tuple(t)
    if k == "?":
        return "(%s & 1 ? %s : %s)" % tuple(t)
    if k in ("&&", "||"):
        return "(%s & 1 %s %s & 1 ? 1 : 0)" % (t[0], k, t[1])
    if k == "sum2":
        return "sum2([%s, %s])" % tuple(t)
    if k == "pair":
        return "pair(P(%s, %s))" % tuple(t)
    if k == "at":
        return "%s[%s & 1]" % tuple(t)
    if k in ("mx", "ma"):
        return "%s(%s, %s)" % (k, "x" if k == "mx" else "a", t[0])
    if k in ("xm", "am"):
        return "%s(%s, %s)" % (k, t[0], "x" if k == "xm" else "a")
    if k == "=x":
        return "(x = %s)" % t[0]
    if k == "+=x":
        return "(x += %s)" % t[0]
    if k == "=a":
        return "(a[%s & 1] = %s)" % tuple(t)
    if k == "+=a":
        return "(a[%s & 1] += %s)" % tuple(t)
    return "%s(%s)" % (k, ", ".join(t))


def number(e, n):
    """Gives the leaves with effects their digits, left to right."""
    if e[0] in ("inc", "bump", "push", "grown"):
        n[0] += 1
        return (e[0], n[0] * 2 + 1)
    return (e[0],) + tuple(number(o, n) for o in e[1:])


LEAF = [("x",), ("a0",), ("len",), ("inc",), ("bump",), ("push",), ("y",)]
LEAF2 = [("x",), ("a0",), ("inc",), ("bump",), ("push",)]
VEC = [("A",), ("grown",)]
BIN = ("-", "f2", "sum2", "pair", "*1000", "<", "&&", "||")
UN = ("mx", "xm", "ma", "am", "=x", "+=x")


def level2(leaf, un=UN, binary=BIN):
    for b in binary:
        for l in leaf:
            for r in leaf:
                yield (b, l, r)
    for u in un:
        for l in leaf:
            yield (u, l)
    for l in leaf:
        for v in VEC:
            yield ("va", v, l)
            yield ("av", l, v)
            yield ("at", v, l)
    for v in VEC:
        for w in VEC:
            yield ("aa", v, w)
    for l in leaf:
        for r in leaf:
            yield ("=a", l, r)
            yield ("+=a", l, r)


def exprs():
    two = list(level2(LEAF))
    yield from two
    deep = LEAF2 if THOROUGH else [("x",), ("a0",), ("inc",), ("push",)]
    short = list(level2(LEAF2)) if THOROUGH else list(level2(deep, binary=("f2", "&&"), un=("mx", "am", "+=x")))
    outer = BIN if THOROUGH else ("-", "f2", "||")
    for e in short:
        for l in deep:
            for b in outer:
                yield (b, e, l)
                yield (b, l, e)
            yield ("=a", e, l)
            yield ("=a", l, e)
            yield ("+=a", e, l)
            yield ("+=a", l, e)
        for u in UN:
            yield (u, e)
        for v in VEC:
            yield ("va", v, e)
            yield ("av", e, v)
            yield ("at", v, e)
    for l in LEAF2:
        for m in LEAF2:
            for r in LEAF2:
                yield ("f3", l, m, r)
                yield ("?", l, m, r)


def outcome(e, mode=""):
    s = St()
    v = force(ev(e, s, mode))
    return "%d %d %d %s" % (v, s.x, s.y, ",".join(map(str, s.a)))


def critical(e):
    m = outcome(e)
    return any(outcome(e, k) != m for k in ("r", "l"))


def locals_(t):
    return "".join(l + "\n" for l in LOCALS.splitlines() if "fn " not in l or re.search(r"fn (\w+)", l)[1] + "(" in t)


# ---- values that are not numbers: both sides of ?:, || and && next to assignments, calls and literals

THEAD = """struct Q { a: string; b: int; };
fn mk(): string { return "m" ~ "k"; }
fn mt(k: int): Q { return Q("mt", k); }
fn id(p: string): string { return p; }
fn it(p: Q): Q { return p; }
fn sz(p: string[]): string { mut r = ""; for (mut k = 0; k < p.len; k++) r ~= "," ~ p[k]; return r; }
fn put(n: int, r: string, s: string, t: Q, v: string[]): void { println("@ " ~ n ~ " " ~ r ~ " " ~ s ~ " " ~ t.a ~ t.b ~ " " ~ sz(v)); }
"""
TLOC = """    lax mut k = 1;
    lax mut n = 0;
    mut s = "s";
    mut t = Q("ta", 1);
    mut v = ["v0", "v1"];
    lax mut e = "";
    mut r = "r";
"""


class TS:
    def __init__(self):
        self.s, self.t, self.v, self.e, self.r = "s", ("ta", 1), ["v0", "v1"], "", "r"


SLEAF = {"s": lambda m: m.s, "t.a": lambda m: m.t[0], "v[0]": lambda m: m.v[0], '"z"': lambda m: "z", "mk()": lambda m: "mk", '(s ~ "x")': lambda m: m.s + "x", "e": lambda m: m.e}
TLEAF = {"t": lambda m: m.t, "mt(3)": lambda m: ("mt", 3), 'Q(s, 2)': lambda m: (m.s, 2)}
VLEAF = {"v": lambda m: list(m.v), "[s]": lambda m: [m.s], "(v ~ v)": lambda m: m.v + m.v, "[s, mk()]": lambda m: [m.s, "mk"]}


def combos(a, b, logic=True):
    for ta, fa in a:
        for tb, fb in b:
            yield "(k ? %s : %s)" % (ta, tb), fa
            yield "(n ? %s : %s)" % (ta, tb), fb
            if logic:
                yield "(%s || %s)" % (ta, tb), (lambda m, fa=fa, fb=fb: fa(m) or fb(m))
                yield "(%s && %s)" % (ta, tb), (lambda m, fa=fa, fb=fb: fb(m) if fa(m) else fa(m))


def ctx_s():
    def asg(m, x): m.s = x
    def fld(m, x): m.t = (x, m.t[1])
    def elt(m, x): m.v[0] = x
    def app(m, x): m.s += x
    def psh(m, x): m.v.append(x)
    def let(m, x): m.r = x
    def one(m, x): m.v = [x]
    def rec(m, x): m.t = (x, 7)
    return [("s = %s;", asg), ("t.a = %s;", fld), ("v[0] = %s;", elt), ("s ~= %s;", app), ("v ~= %s;", psh), ("let q = %s; s = \"\"; t.a = \"\"; v[0] = \"\"; r = q;", lambda m, x: (let(m, x), asg(m, ""), fld(m, ""), elt(m, ""))),
            ("r = id(%s);", let), ("v = [%s];", one), ("t = Q(%s, 7);", rec)]


def ctx_t():
    def asg(m, x): m.t = x
    def fld(m, x): m.r = x[0]
    return [("t = %s;", asg), ("r = %s.a;", fld), ("t = it(%s);", asg), ("let q = %s; t.a = \"\"; r = q.a;", lambda m, x: (fld(m, x), asg(m, ("", m.t[1]))))]


def ctx_v():
    def asg(m, x): m.v = x
    def szf(m, x): m.r = "".join("," + y for y in x)
    def app(m, x): m.v = m.v + x
    return [("v = %s;", asg), ("r = sz(%s);", szf), ("v ~= %s;", app), ("let q = %s; v.clear(); r = sz(q);", lambda m, x: (szf(m, x), asg(m, [])))]


def texts():
    S, TL, V = list(SLEAF.items()), list(TLEAF.items()), list(VLEAF.items())
    two = list(combos(S, S))
    few = [(t, SLEAF[t]) for t in ("s", "t.a", '"z"', "mk()")] if not THOROUGH else S[:6]
    three = []
    inner = list(combos(few, few))
    for x in inner:
        three += combos([x], few)
        three += combos(few, [x])
    for i, (c, f) in enumerate(ctx_s()):
        for t, g in two + (three if THOROUGH or i in (0, 6) else []):
            yield c % t, f, g
    for leaf, ctx in ((TL, ctx_t()), (V, ctx_v())):
        two = list(combos(leaf, leaf, logic=leaf is V))
        three = []
        for x in (two if THOROUGH else two[::3]):
            three += combos([x], leaf, logic=leaf is V)
            three += combos(leaf, [x], logic=leaf is V)
        for c, f in ctx:
            for t, g in two + three:
                yield c % t, f, g


class Num:
    """One numeric expression."""
    head = HEAD

    def __init__(self, e):
        self.e, self.text = e, txt(e)
        self.want = outcome(e)

    def fn(self, i):
        return "fn t%d(): void {\n%s    let v = %s;\n    put(%d, v, x, y, a);\n}\n" % (i, locals_(self.text), self.text, i)


class Txt:
    """One statement on strings, structs and arrays."""
    head = THEAD

    def __init__(self, text, eff, val):
        m = TS()
        eff(m, val(m))
        self.text = text
        self.want = "%s %s %s%d %s" % (m.r, m.s, m.t[0], m.t[1], "".join("," + x for x in m.v))

    def fn(self, i):
        return "fn t%d(): void {\n%s    %s\n    put(%d, r, s, t, v);\n}\n" % (i, TLOC, self.text, i)


def whole(es):
    return es[0].head + "".join(e.fn(i) for i, e in enumerate(es)) + "fn main() {\n" + "".join("    t%d();\n" % i for i in range(len(es))) + "    return 0;\n}\n"


def work(j):
    name, es, cxx, opt = j
    if chk.left() < 20:
        return None
    st, rc, o = P.build_run(name, whole(es), opt=opt, cxx=cxx)
    o = re.sub(r"\x1b\[[0-9;]*m", "", o)
    if st == "compile":
        if len(es) == 1:
            return [(0, None, o)]
        h = len(es) // 2
        a = work((name + "l", es[:h], cxx, opt)) or []
        b = work((name + "r", es[h:], cxx, opt)) or []
        return a + [(i + h, g, t) for i, g, t in b]
    got = {int(w[1]): w[2] for w in (l.split(" ", 2) for l in o.splitlines() if l.startswith("@ "))}
    return [(i, got.get(i), "rc=%s" % rc) for i, e in enumerate(es) if got.get(i) != e.want]


all_ = list(dict.fromkeys(number(e, [0]) for e in exprs()))
sel = [Num(e) for e in all_ if critical(e)]
tx = [Txt(*t) for t in texts()]
sel = sel[:int(os.environ.get("LIM", "1000000"))]
jobs = []
for cxx, opt in (("g++", " -O0"), ("clang++", " -O0")):
    for tag, lst in (("n", sel), ("t", tx)):
        if tag in os.environ.get("KINDS", "nt"):
            for k in range(0, len(lst), CHUNK):
                jobs.append(("%s%s%d" % (tag, cxx.replace("+", "x"), k), lst[k:k + CHUNK], cxx, opt))
rejected = 0
for j, bad in zip(jobs, pmap(work, jobs)):
    if bad is None:
        chk.capped = True
        continue
    for i, got, text in bad:
        e = j[1][i]
        if got is None and "rc=" not in text[:3]:
            if re.search(r"error: |undefined reference", text) or "BUG" in text or "ssertion" in text:
                chk.violation("%s: does not compile" % e.text, "accepted, but does not compile: " + text[-500:], whole([e]))
            else:
                rejected += 1
                if os.environ.get("FV_REJ"):
                    print("REJECTED", e.text, text[-700:])
        else:
            chk.violation(e.text, "%s (%s): got %s, expected %s" % (e.text, j[2], got, e.want), whole([e]))
    chk.add(len(j[1]), len(j[1]), len(j[1]))
    if os.environ.get("FV_TIMES"):
        print(j[0], len(chk.violations), rejected, flush=True)
if rejected * 4 > len(sel) + len(tx):
    err = "%d programs were rejected by the compiler" % rejected
chk.extra["scope"] = "%d expressions of up to 3 operands whose value depends on the order (of %d), each compiled by g++ and clang++, and %d statements on strings, structs and arrays; %d rejected by the compiler" % (len(sel), len(all_), len(tx), rejected)
for l in (sel, tx):
    if l:
        chk.sample(l[len(l) // 2].text + " => " + l[len(l) // 2].want)
chk.finish(error=err)
