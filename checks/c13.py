"""C13: structured control flow. Every function body up to a size over the statements of a theme is compiled and run on
every string of branch outcomes up to a length; its trace of effects and its result must be those of an interpreter
that executes the tree by the language's rules (scopes, defers in reverse order, labels, non-local jumps)."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from progs import *  # noqa
import functools
import re

chk = Check("C13")
P = Progs(chk)
err = None
BITS = 5 if THOROUGH else 4


# --------------------------------------------------------------------------------------------------- programs
# Statements are tuples (kind, ...); a block is a tuple of statements. A context is
# (in_loop, in_block_arg, labels) with labels a tuple of (name, kind), kind in 'loop', 'block', 'lam'.
# Sizes: every statement counts 1 plus its blocks.
TERMINAL = {"brk", "cnt", "ret", "thr"}
COMP = {  # name -> list of sub-block context changes
    "if": ["", ""][:1], "unless": [""], "ife": ["", ""], "and": [""], "or": [""],
    "while": ["L"], "dow": ["L"], "for": ["L"], "forever": ["L"],
    "lwhile": ["L:"], "lfor": ["L:"], "ldow": ["L:"],
    "blk": [""], "lblk": ["B:"],
    "try": ["", ""], "lam": ["A"], "llam": ["A:"], "fn": ["F"], "defer": ["D"], "val": ["V:"], "dok": ["D"], "derr": ["D"],
    "tern": ["", ""],
}


def theme(name, atoms, comps):
    return name, tuple(atoms.split()), tuple(comps.split())


THEMES = [
    theme("loops", "log brk cnt ret", "if ife while dow for"),
    theme("labels", "log brk cnt lbrk lcnt", "if lwhile lfor ldow lblk"),
    theme("defer", "log brk ret thr dlog dok1 derr1", "if while blk try"),
    theme("deferblk", "log ret thr", "if try defer dok derr while"),
    theme("calldefer", "ret thr hd he", "try defer dok derr"),
    theme("nestdefer", "log thr dok1 derr1 dlog", "try defer dok derr"),
    theme("throw", "log ret thr brk", "if try for and"),
    theme("lambda", "log brk cnt ret lbrk lcnt", "if lam llam while"),
    theme("lamdefer", "log ret thr dlog", "lam try if"),
    theme("fn", "log ret fret thr", "if fn lam while"),
    theme("value", "log lbrk vbrk ret", "if val ife while"),
    theme("short", "log brk ret", "and or unless while forever"),
    theme("mixed", "log brk lbrk ret thr dlog", "if ife lfor lblk lam try"),
]


def sub(ctx, mode, depth):
    inl, ina, labels = ctx
    if mode == "":
        return ctx
    lab = "L%d" % depth
    if mode[0] == "L":
        return True, ina, labels + ((lab, "loop"),) if mode[1:] else labels
    if mode[0] == "B":
        return inl, ina, labels + ((lab, "block"),)
    if mode[0] == "V":
        return inl, ina, labels + ((lab, "val"),)
    if mode[0] == "A":
        return False, True, labels + ((lab, "lam"),) if mode[1:] else labels
    if mode[0] == "F":      # inside a named inner function: only its own jumps (and a return through it)
        return False, False, ((lab, "fn"),)
    if mode[0] == "D":      # inside a defer no jump leaves it
        return False, False, (("", "defer"),)
    raise ValueError(mode)


@functools.lru_cache(maxsize=None)
def stmts(n, ctx, depth, th):
    """All statements of exactly size n."""
    inl, ina, labels = ctx
    _, atoms, comps = th
    indef = any(k == "defer" for _, k in labels)
    out = []
    if n == 1:
        for a in atoms:
            if a == "brk":
                # plain break and continue apply to the nearest loop or block argument
                if inl or ina:
                    out.append((a,))
            elif a == "cnt":
                if inl or ina:
                    out.append((a,))
            elif a == "lbrk":
                out += [("lbrk", l) for l, k in labels if k in ("loop", "block", "lam")]
            elif a == "vbrk":
                out += [("vbrk", l) for l, k in labels if k == "val"]
            elif a == "lcnt":
                out += [("lcnt", l) for l, k in labels if k in ("loop", "lam")]
            elif a == "fret":
                if any(k == "fn" for _, k in labels):
                    out.append(("fret",))
            elif a in ("ret", "thr"):
                if not indef:
                    out.append((a,))
            else:
                out.append((a,))
        return out
    for c in comps:
        if c in ("defer", "dok", "derr") and indef and th[0] != "nestdefer":
            continue
        if c == "fn" and any(k == "fn" for _, k in labels):
            continue
        modes = COMP[c]
        if len(modes) == 1:
            for b in blocks(n - 1, sub(ctx, modes[0], depth), depth + 1, th):
                if c == "forever" and not leaves(b):
                    continue
                out.append((c, "L%d" % depth, b))
        else:
            for k in range(1, n - 1):
                for b1 in blocks(k, sub(ctx, modes[0], depth), depth + 1, th):
                    for b2 in blocks(n - 1 - k, sub(ctx, modes[1], depth), depth + 1, th):
                        out.append((c, "L%d" % depth, b1, b2))
    return out


def leaves(b):      # does the block contain a way out of an endless loop? (checked again by the interpreter's fuel)
    return any(s[0] in ("brk", "ret", "thr") for s in b)


@functools.lru_cache(maxsize=None)
def blocks(n, ctx, depth, th):
    """All blocks of total size exactly n. Code after an unconditional jump is enumerated only as one log."""
    out = []
    for k in range(1, n + 1):
        for s in stmts(k, ctx, depth, th):
            if k == n:
                out.append((s,))
            elif s[0] in TERMINAL or s[0] in ("lbrk", "lcnt", "vbrk", "fret"):
                if n - k == 1 and "log" in th[1]:
                    out.append((s, ("log",)))
            else:
                out += [(s,) + r for r in blocks(n - k, ctx, depth, th)]
    return out


# ------------------------------------------------------------------------------------------------ Fu source
class Emit:
    def __init__(self, fname, void):
        self.fname, self.void, self.k = fname, void, 0
        self.stack = [void]

    def key(self):
        self.k += 1
        return self.k

    def block(self, b, ind):
        return "{\n" + "".join(self.stmt(s, ind + 1) for s in b) + "    " * ind + "}"

    def ret(self):
        return "return;" if self.stack[-1] else "return w.n * 100 + %d;" % self.key()

    def stmt(self, s, ind):
        p = "    " * ind
        k = s[0]
        if k == "log":
            return "%sl(:w, \"%d\");\n" % (p, self.key())
        if k == "dlog":
            return "%sdefer l(:w, \"%d\");\n" % (p, self.key())
        if k == "dok1":
            return "%sdefer:ok l(:w, \"%d\");\n" % (p, self.key())
        if k == "derr1":
            return "%sdefer:err l(:w, \"%d\");\n" % (p, self.key())
        if k in ("hd", "he"):
            return "%s%s(:w, \"%d\");\n" % (p, k, self.key())
        if k == "brk":
            return p + "break;\n"
        if k == "cnt":
            return p + "continue;\n"
        if k == "lbrk":
            return p + "break :%s;\n" % s[1]
        if k == "lcnt":
            return p + "continue :%s;\n" % s[1]
        if k == "vbrk":
            return p + "break :%s \"%d\";\n" % (s[1], self.key())
        if k == "ret":
            return p + self.ret() + "\n"
        if k == "fret":
            return p + ("return :%s;\n" % self.fname if self.void else "return :%s w.n * 100 + %d;\n" % (self.fname, self.key()))
        if k == "thr":
            return "%sthrow(\"%d\");\n" % (p, self.key())
        lab = s[1]
        if k in ("if", "unless"):
            c = self.key()
            return "%sif %s(b(:w, \"%d\")) %s\n" % (p, "!" if k == "unless" else "", c, self.block(s[2], ind))
        if k in ("and", "or"):
            c = self.key()
            return "%sb(:w, \"%d\") %s %s;\n" % (p, c, "&&" if k == "and" else "||", self.block(s[2], ind))
        if k == "ife":
            c = self.key()
            b1 = self.block(s[2], ind)
            return "%sif (b(:w, \"%d\")) %s\n%selse %s\n" % (p, c, b1, p, self.block(s[3], ind))
        if k in ("while", "lwhile"):
            c = self.key()
            return "%s%swhile (b(:w, \"%d\")) %s\n" % (p, ":%s " % lab if k[0] == "l" else "", c, self.block(s[2], ind))
        if k in ("dow", "ldow"):
            b = self.block(s[2], ind)
            return "%s%sdo %s while (b(:w, \"%d\"));\n" % (p, ":%s " % lab if k[0] == "l" else "", b, self.key())
        if k in ("for", "lfor"):
            i = "i%d" % self.key()
            return "%s%sfor (mut %s = 0; %s < 2; { l(:w, \"f\"); %s++ }) %s\n" % (p, ":%s " % lab if k[0] == "l" else "", i, i, i, self.block(s[2], ind))
        if k == "forever":
            return "%sfor (;;) %s\n" % (p, self.block(s[2], ind))
        if k == "blk":
            return p + self.block(s[2], ind) + "\n"
        if k == "lblk":
            return p + ":%s " % lab + self.block(s[2], ind) + "\n"
        if k == "try":
            e = "e%d" % self.key()
            b1 = self.block(s[2], ind)
            return "%stry %s\n%scatch (%s) {\n%s    l(:w, %s);\n%s%s}\n" % (p, b1, p, e, p, e, "".join(self.stmt(x, ind + 1) for x in s[3]), p)
        if k in ("lam", "llam"):
            i = "i%d" % self.key()
            return "%s%seach(:w): |%s| {\n%s    w.log ~= %s;\n%s%s};\n" % (p, ":%s " % lab if k[0] == "l" else "", i, p, i, "".join(self.stmt(x, ind + 1) for x in s[2]), p)
        if k == "fn":
            g = "g%d" % self.key()
            self.stack.append(True)
            b = self.block(s[2], ind)
            self.stack.pop()
            return "%slax fn %s(): void %s\n%s%s();\n%sl(:w, \"g\");\n%s%s();\n" % (p, g, b, p, g, p, p, g)
        if k in ("defer", "dok", "derr"):
            return "%sdefer%s %s\n" % (p, {"defer": "", "dok": ":ok", "derr": ":err"}[k], self.block(s[2], ind))
        if k == "val":
            v = "v%d" % self.key()
            b = "".join(self.stmt(x, ind + 2) for x in s[2])
            return "%slet %s = {\n%s    :%s {\n%s%s        \"%d\"\n%s    }\n%s};\n%sl(:w, %s);\n" % (p, v, p, lab, b, p, self.key(), p, p, p, v)
        raise ValueError(k)


def falls(b):
    """Can control reach the end of the block (by a conservative reading)?"""
    if not b:
        return True
    s = b[-1]
    if any(x[0] in ("ret", "thr", "brk", "cnt", "lbrk", "lcnt", "vbrk", "fret") for x in b):
        return False
    if s[0] == "ife":
        return falls(s[2]) or falls(s[3])
    return True


def source(i, body, void, wrap=False):
    """wrap: the body is a block argument of the template `once`, so that all bodies of a program are instances of one
    template and any two of them that the compiler takes for the same are told apart."""
    e = Emit("f%d" % i, void)
    text = "".join(e.stmt(s, 2 if wrap else 1) for s in body)
    if wrap:
        text = "    once(:w): |%s| {\n        w.log ~= %s;\n%s    };\n" % ("q", "q", text)
        if not void:
            text += "    return w.n;\n"
        return "lax fn f%d(lax ref w: W): %s {\n%s}\n" % (i, "void" if void else "int", text)
    if not void:
        last = body[-1][0]
        if last != "ret" or i % 2:
            text += "    return w.n;\n"
    return "lax fn f%d(lax ref w: W): %s {\n%s}\n" % (i, "void" if void else "int", text)


# ---------------------------------------------------------------------------------------------- interpreter
class Jump(Exception):
    pass


class Brk(Jump):
    def __init__(self, target, value=None):
        self.target, self.value = target, value


class Cnt(Jump):
    def __init__(self, target):
        self.target = target


class Ret(Jump):
    def __init__(self, target, value):
        self.target, self.value = target, value


class Thr(Exception):
    def __init__(self, msg):
        self.msg = msg


class Fuel(Exception):
    pass


class Run:
    """Executes the tree. Keys are handed out by the same traversal as Emit: assigned once, kept by node path."""

    def __init__(self, body, void):
        self.void = void
        self.keys = {}
        self.k = 0
        self.body = body
        self.number(body, ())
        self.end = None

    def key(self):
        self.k += 1
        return self.k

    def number(self, b, path, isfn=False):
        for j, s in enumerate(b):
            p = path + (j,)
            k = s[0]
            if k in ("log", "dlog", "dok1", "derr1", "vbrk", "thr", "hd", "he"):
                self.keys[p] = self.key()
            elif k == "ret":
                if not (self.void or isfn):
                    self.keys[p] = self.key()
            elif k == "fret":
                if not self.void:
                    self.keys[p] = self.key()
            elif k in ("if", "unless", "and", "or", "while", "lwhile"):
                self.keys[p] = self.key()
                self.number(s[2], p + (0,), isfn)
            elif k == "ife":
                self.keys[p] = self.key()
                self.number(s[2], p + (0,), isfn)
                self.number(s[3], p + (1,), isfn)
            elif k in ("dow", "ldow"):
                self.number(s[2], p + (0,), isfn)
                self.keys[p] = self.key()
            elif k in ("for", "lfor", "lam", "llam"):
                self.key()
                self.number(s[2], p + (0,), isfn)
            elif k in ("forever", "blk", "lblk", "defer", "dok", "derr"):
                self.number(s[2], p + (0,), isfn)
            elif k == "try":
                self.key()
                self.number(s[2], p + (0,), isfn)
                self.number(s[3], p + (1,), isfn)
            elif k == "fn":
                self.key()
                self.number(s[2], p + (0,), True)
            elif k == "val":
                self.key()
                self.number(s[2], p + (0,), isfn)
                self.keys[p] = self.key()

    def run(self, bits, wrap):
        self.bits, self.log, self.n, self.fuel = bits, [], 0, 400
        r = -1
        try:
            self.frames = ["main"]
            if wrap:
                self.log.append("@")
                self.block(self.body, (), None)
                self.l(",")
                self.block((() if self.void else (("rtail",),)), (), None)
            else:
                self.block(self.body + (() if self.void else (("rtail",),)), (), None)
        except Ret as x:
            r = x.value if not self.void else -1
        except Thr as x:
            self.log.append("!" + x.msg)
        return "".join(self.log), r, self.n

    def l(self, k):
        self.log.append("%s;" % k)
        self.n += 1
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel

    def b(self, k):
        r = self.bits & 1
        self.bits >>= 1
        self.log.append("%s%s;" % (k, "+" if r else "-"))
        self.n += 1
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel
        return bool(r)

    def block(self, b, path, near):
        """near: identity of the nearest loop or block argument, the target of plain break and continue."""
        defers = []
        try:
            for j, s in enumerate(b):
                self.stmt(s, path + (j,), near, defers)
        except Thr:
            self.unwind(defers, True)
            raise
        except Jump:
            self.unwind(defers, False)
            raise
        self.unwind(defers, False)

    def unwind(self, defers, failed):
        for kind, fn in reversed(defers):
            if kind == "" or (kind == "err") == failed:
                fn()

    def body_once(self, b, p, near, lab):
        """Runs a loop body once. False when the loop is left by break."""
        try:
            self.block(b, p, near)
        except Brk as x:
            if x.target is near or (lab and x.target == lab):
                return False
            raise
        except Cnt as x:
            if x.target is near or (lab and x.target == lab):
                return True
            raise
        return True

    def stmt(self, s, p, near, defers):
        k = s[0]
        key = self.keys.get(p)
        if k == "log":
            self.l(key)
        elif k == "dlog":
            defers.append(("", lambda: self.l(key)))
        elif k == "dok1":
            defers.append(("ok", lambda: self.l(key)))
        elif k == "derr1":
            defers.append(("err", lambda: self.l(key)))
        elif k == "hd":
            self.l(key), self.l("%dd" % key), self.l("%do" % key)
        elif k == "he":
            self.l(key), self.l("%dd" % key), self.l("%de" % key), self.l("x%d" % key)
        elif k == "brk":
            raise Brk(near)
        elif k == "cnt":
            raise Cnt(near)
        elif k == "lbrk":
            raise Brk(s[1])
        elif k == "lcnt":
            raise Cnt(s[1])
        elif k == "vbrk":
            raise Brk(s[1], str(key))
        elif k == "ret":
            raise Ret(self.frames[-1], None if key is None else self.n * 100 + key)
        elif k == "rtail":
            raise Ret(self.frames[-1], self.n)
        elif k == "fret":
            raise Ret("main", None if key is None else self.n * 100 + key)
        elif k == "thr":
            raise Thr(str(key))
        elif k in ("if", "and"):
            if self.b(key):
                self.block(s[2], p + (0,), near)
        elif k in ("unless", "or"):
            if not self.b(key):
                self.block(s[2], p + (0,), near)
        elif k == "ife":
            if self.b(key):
                self.block(s[2], p + (0,), near)
            else:
                self.block(s[3], p + (1,), near)
        elif k in ("while", "lwhile"):
            me = object()
            while self.b(key):
                if not self.body_once(s[2], p + (0,), me, k[0] == "l" and s[1]):
                    break
        elif k in ("dow", "ldow"):
            me = object()
            while True:
                if not self.body_once(s[2], p + (0,), me, k[0] == "l" and s[1]):
                    break
                if not self.b(key):
                    break
        elif k in ("for", "lfor"):
            me = object()
            for _ in range(2):
                if not self.body_once(s[2], p + (0,), me, k[0] == "l" and s[1]):
                    break
                self.l("f")
        elif k == "forever":
            me = object()
            while self.body_once(s[2], p + (0,), me, None):
                self.fuel -= 1
                if self.fuel < 0:
                    raise Fuel
        elif k == "blk":
            self.block(s[2], p + (0,), near)
        elif k == "lblk":
            try:
                self.block(s[2], p + (0,), near)
            except Brk as x:
                if x.target != s[1]:
                    raise
        elif k == "try":
            try:
                self.block(s[2], p + (0,), near)
            except Thr as x:
                msg = x.msg
            else:
                return
            self.block((("logv", msg),) + s[3], p + (1, "c"), near)
        elif k == "logv":
            self.l(s[1])
        elif k in ("lam", "llam"):
            me = object()
            for i in range(2):
                self.l("<")
                self.log.append(str(i))
                if not self.body_once(s[2], p + (0,), me, k[0] == "l" and s[1]):
                    return
                self.l(">")
            self.l("/")
        elif k == "fn":
            for r in range(2):
                if r:
                    self.l("g")
                me = object()
                self.frames.append(me)
                try:
                    self.block(s[2], p + (0,), None)
                except Ret as x:
                    if x.target is not me:
                        raise
                finally:
                    self.frames.pop()
        elif k in ("defer", "dok", "derr"):
            defers.append(({"defer": "", "dok": "ok", "derr": "err"}[k], lambda: self.block(s[2], p + (0,), None)))
        elif k == "val":
            try:
                self.block(s[2], p + (0,), near)
                v = str(key)
            except Brk as x:
                if x.target != s[1]:
                    raise
                v = x.value
            self.l(v)
        else:
            raise ValueError(k)


# catch blocks are numbered under path + (1,) but run with a leading log of the message: map the shifted index back

class Run2(Run):
    def stmt(self, s, p, near, defers):
        if len(p) >= 2 and p[-2] == "c":
            if s[0] == "logv":
                return self.l(s[1])
            p = p[:-2] + (p[-1] - 1,)
        return Run.stmt(self, s, p, near, defers)


HEAD = """
struct W { bits: int; n: int; log: string; };
fn b(ref w: W, k: string): bool {
    let r = w.bits & 1;
    w.bits >>= 1;
    w.n++;
    w.log ~= k;
    w.log ~= r ? "+;" : "-;";
    return r != 0;
}
fn l(ref w: W, k: string): void { w.n++; w.log ~= k; w.log ~= ";"; }
fn hd(ref w: W, k: string): void { defer:ok l(:w, "" ~ k ~ "o"); defer:err l(:w, "" ~ k ~ "e"); defer l(:w, "" ~ k ~ "d"); l(:w, k); }
fn hx(ref w: W, k: string): void { defer:ok l(:w, "" ~ k ~ "o"); defer:err l(:w, "" ~ k ~ "e"); defer l(:w, "" ~ k ~ "d"); l(:w, k); throw("x" ~ k); }
fn he(ref w: W, k: string): void { try { hx(:w, k); } catch (e) { l(:w, e); } }
fn once(lax ref w: W, visit) { visit("@"); l(:w, ","); }
fn each(lax ref w: W, visit) { for (mut i = 0; i < 2; i++) { l(:w, "<"); visit(i); l(:w, ">"); } l(:w, "/"); }
"""


def program(fs, idx):
    """fs: list of (body, void)."""
    out = [HEAD]
    for i, (b, v, wr) in zip(idx, fs):
        out.append(source(i, b, v, wr))
        call = "f%d(:w);" % i if v else "r = f%d(:w);" % i
        out.append("fn t%d(): void {\n    for (mut k = 0; k < %d; k++) {\n        mut w: W;\n        w.bits = k;\n        mut r = -1;\n        try { %s }\n        catch (e) { w.log ~= \"!\"; w.log ~= e; }\n        println(\"%d \" ~ k ~ \" \" ~ w.log ~ \" \" ~ r ~ \" \" ~ w.n);\n    }\n}\n" % (i, 1 << BITS, call, i))
    for g in range(0, len(idx), 50):
        out.append("fn g%d(): void {\n    %s\n}\n" % (g, "\n    ".join("t%d();" % i for i in idx[g:g + 50])))
    out.append("fn main(): i32 {\n    %s\n    println(\"DONE\");\n    return 0;\n}\n" % "\n    ".join("g%d();" % g for g in range(0, len(idx), 50)))
    return "\n".join(out)


def expected(body, void, wrap):
    r = Run2(body, void)
    out = []
    for bits in range(1 << BITS):
        try:
            log, v, n = r.run(bits, wrap)
        except Fuel:
            return None
        out.append("%s %s %s" % (log, -1 if void else v, n))
    return out



CTX = (False, False, ())
SIZE = dict((t[0], 2) for t in THEMES) if os.environ.get("C13_SMALL") else dict(mixed=3)
fns, seen, endless, persize = [], set(), 0, {}
for th in THEMES:
    top = SIZE.get(th[0], 4) + (1 if THOROUGH else 0)
    for n in range(1, top + 1):
        for body in blocks(n, CTX, 0, th):
            if body in seen:
                continue
            seen.add(body)
            i = len(fns)
            void = bool(i * 7 // 3 & 1)
            for wrap in ((False, True) if THOROUGH or n < top else (bool(i & 1),)):
                exp = expected(body, void, wrap)
                if exp is None:
                    endless += 1
                    break
                fns.append((body, void, wrap, exp))
                persize[th[0]] = persize.get(th[0], 0) + 1
CH = int(os.environ.get("C13_CHUNK", "260"))
chunks = [list(range(i, min(i + CH, len(fns)))) for i in range(0, len(fns), CH)]


def check(idx, out):
    """Compares one batch; returns the list of functions whose behaviour differs."""
    got = {}
    for l in out.splitlines():
        w = l.split(" ")
        if len(w) == 5 and w[0].isdigit():
            got[int(w[0]), int(w[1])] = " ".join(w[2:]).strip()
    bad = []
    for i in idx:
        for k in range(1 << BITS):
            if got.get((i, k)) != fns[i][3][k].strip():
                bad.append((i, k, got.get((i, k))))
                break
    return bad


def batch(idx, name="b"):
    return P.build_run("%s%d_%d" % (name, idx[0], len(idx)), program([fns[i][:3] for i in idx], idx))


def reject(idx, out):
    """A batch does not compile: bisect to one function. Returns (function or None, compiler output)."""
    lo = idx
    while len(lo) > 1 and chk.left() > 60:
        h = lo[:len(lo) // 2]
        st, _, o = batch(h, "r")
        if st == "compile":
            lo, out = h, o
        else:
            lo = lo[len(lo) // 2:]
            st, _, o = batch(lo, "r")
            if st != "compile":
                return None, out
            out = o
    return (lo[0] if len(lo) == 1 else None), out


def work(idx):
    """-> (functions run, functions not reached, [(rejected function, output)], rc, output, error)"""
    rej = []
    while True:
        if chk.left() < 40:
            return [], idx, rej, 0, "", None
        stage, rc, out = batch(idx)
        if stage == "run":
            return idx, [], rej, rc, out, None
        if len(rej) >= int(os.environ.get("C13_REJ", "1")):
            return [], idx, rej, 0, "", None
        i, o = reject(idx, out)
        if i is None:
            return [], idx, rej, 0, "", "a batch does not compile and no single function of it explains it: " + o[-900:]
        rej.append((i, o))
        idx = [j for j in idx if j != i]


skipped = 0
for idx, missed, rej, rc, out, er in pmap(work, chunks):
    err = err or er
    for i, o in rej:
        o = "\n".join(l for l in re.sub(r"\x1b\[[0-9;]*m", "", o).splitlines() if l.strip())[-900:]
        chk.violation("rejected " + repr(fns[i][0]), "a legal function does not compile:\n" + source(i, *fns[i][:3]) + "\n" + o, source(i, *fns[i][:3]))
    skipped += 0 if rej else len(missed)
    if not idx:
        continue
    chk.add(len(idx) << BITS, sum(len(e) for i in idx for e in fns[i][3]) // 4, len(idx))
    bad = check(idx, out)
    for i, k, g in bad[:2]:
        chk.violation("control flow " + repr(fns[i][0]), "branch outcomes %s: the compiled function gives trace, result, count\n  %s\nwhere the rules give\n  %s\nfor\n%s" % (bin(k)[2:].zfill(BITS)[::-1], g, fns[i][3][k], source(i, *fns[i][:3])), program([fns[i][:3]], [i]))
    if not bad and (rc != 0 or "DONE" not in out):
        chk.violation("batch %d fails" % idx[0], "the program exits with %s: %s" % (rc, out[-300:]), "")
if skipped:
    err = err or "%d of %d functions not reached in time" % (skipped, len(fns))
chk.sample("functions per theme: %s; %d endless ones left out; each run on all %d branch strings" % (persize, endless, 1 << BITS))
chk.sample(source(len(fns) // 2, *fns[len(fns) // 2][:3]))
chk.finish(error=err)
