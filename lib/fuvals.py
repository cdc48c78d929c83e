"""Small Fu programs over ints, arrays and structs, and what they mean when every value is a value: an interpreter
with cells. A reference names a cell; growing, replacing or shrinking an array ends its element cells, and touching an
ended cell through a reference is Dangling."""
import itertools


class Dangling(Exception):
    pass


class Bad(Exception):       # out of range, type confusion: not a program of interest
    pass


class Cell:
    __slots__ = ("v", "alive")

    def __init__(self, v):
        self.v, self.alive = v, True


class Arr:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Str:
    __slots__ = ("p", "v")

    def __init__(self, p, v):
        self.p, self.v = p, v


def copy(v):
    if isinstance(v, int):
        return v
    if isinstance(v, Arr):
        return Arr([Cell(copy(x.v)) for x in v.c])
    return Str(Cell(copy(v.p.v)), Cell(copy(v.v.v)))


def kill(v):
    """Ends every cell that lives in v's heap storage."""
    if isinstance(v, Arr):
        for x in v.c:
            end(x)
    elif isinstance(v, Str):
        kill(v.v.v)


def end(x):
    x.alive = False
    v = x.v
    if isinstance(v, Arr):
        for y in v.c:
            end(y)
    elif isinstance(v, Str):
        end(v.p)
        end(v.v)


def assign(cell, v):
    """v is owned by the caller."""
    old = cell.v
    if isinstance(old, Str):
        old.p.v = v.p.v
        assign(old.v, v.v.v)
    else:
        kill(old)
        cell.v = v


def show(v):
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Arr):
        return "[" + " ".join(show(x.v) for x in v.c) + "]"
    return "(" + show(v.p.v) + " " + show(v.v.v) + ")"


BASE = {
    "i": ("I", "1", lambda: 1),
    "j": ("I", "2", lambda: 2),
    "a": ("V", "[3, 4]", lambda: Arr([Cell(3), Cell(4)])),
    "b": ("V", "[5, 6]", lambda: Arr([Cell(5), Cell(6)])),
    "s": ("S", "S(7, [8, 9])", lambda: Str(Cell(7), Cell(Arr([Cell(8), Cell(9)])))),
    "t": ("S", "S(10, [11, 12])", lambda: Str(Cell(10), Cell(Arr([Cell(11), Cell(12)])))),
    "w": ("W", "[[13, 14], [15, 16]]", lambda: Arr([Cell(Arr([Cell(13), Cell(14)])), Cell(Arr([Cell(15), Cell(16)]))])),
    "q": ("Q", "[S(17, [18]), S(19, [20])]", lambda: Arr([Cell(Str(Cell(17), Cell(Arr([Cell(18)])))), Cell(Str(Cell(19), Cell(Arr([Cell(20)]))))])),
}
ELEM = {"V": "I", "W": "V", "Q": "S"}
FUTYPE = {"I": "int", "V": "int[]", "S": "S", "W": "int[][]", "Q": "S[]"}


def typ(lv, types):
    k = lv[0]
    if k == "x":
        return types[lv[1]]
    if k == "[]":
        return ELEM[typ(lv[1], types)]
    if k == ".":
        return "I" if lv[2] == "p" else "V"
    if k == "?":
        return typ(lv[1], types)
    raise ValueError(lv)


def text(lv):
    k = lv[0]
    if k == "x":
        return lv[1]
    if k == "[]":
        return "%s[%d]" % (text(lv[1]), lv[2])
    if k == ".":
        return "%s.%s" % (text(lv[1]), lv[2])
    if k == "?":
        return "(c & %d ? %s : %s)" % (lv[3], text(lv[1]), text(lv[2]))
    raise ValueError(lv)


def root(lv):
    return lv[1] if lv[0] == "x" else root(lv[1])


def roots(lv):
    if lv[0] == "x":
        return [lv[1]]
    if lv[0] == "?":
        return roots(lv[1]) + roots(lv[2])
    return roots(lv[1])


class Run:
    """variant: which copies are (wrongly) aliases, or aliases copies: '' is the language."""

    def __init__(self, c, variant=""):
        self.c, self.variant, self.env, self.out, self.k = c, variant, {}, [], 0

    def cell(self, lv):
        k = lv[0]
        if k == "x":
            x = self.env[lv[1]]
            if not x.alive:
                raise Dangling(lv)
            return x
        if k == "[]":
            b = self.cell(lv[1]).v
            if lv[2] >= len(b.c):
                raise Bad
            return b.c[lv[2]]
        if k == ".":
            b = self.cell(lv[1]).v
            return b.p if lv[2] == "p" else b.v
        if k == "?":
            return self.cell(lv[1] if self.c & lv[3] else lv[2])
        raise ValueError(lv)

    def block(self, b):
        for s in b:
            self.stmt(s)

    def stmt(self, s):
        k = s[0]
        self.k += 1
        if self.k > 60:
            raise Bad
        if k == "decl":
            _, kind, name, lv = s
            c = self.cell(lv)
            if kind == "ref":
                self.env[name] = Cell(copy(c.v)) if "r" in self.variant else c
            else:
                self.env[name] = c if kind[0] in self.variant else Cell(copy(c.v))
        elif k == "add":
            self.cell(s[1]).v += s[2]
        elif k == "push":
            c = self.cell(s[1])
            old = c.v
            c.v = Arr([Cell(copy(x.v)) for x in old.c] + [Cell(s[2])])
            kill(old)
        elif k == "pushv":          # push a copy of an element / array
            v = copy(self.cell(s[2]).v)
            c = self.cell(s[1])
            old = c.v
            c.v = Arr([Cell(copy(x.v)) for x in old.c] + [Cell(v)])
            kill(old)
        elif k == "pop":
            c = self.cell(s[1])
            old = c.v
            if not old.c:
                raise Bad
            c.v = Arr([Cell(copy(x.v)) for x in old.c[:-1]])
            kill(old)
        elif k == "clear":
            c = self.cell(s[1])
            kill(c.v)
            c.v = Arr([])
        elif k == "set":
            src = self.cell(s[2])
            dst = self.cell(s[1])
            if src is dst:
                return
            if "a" in self.variant and not isinstance(src.v, int):
                dst.v = src.v
            else:
                assign(dst, copy(src.v))
        elif k == "swap":
            x, y = self.cell(s[1]), self.cell(s[2])
            if x is y:
                return
            u, v = copy(x.v), copy(y.v)
            kill(x.v)
            kill(y.v)
            assign(x, v)
            assign(y, u)
        elif k == "obs":
            self.out.append(s[1] + show(self.cell(("x", s[1])).v))
        elif k == "if":
            if self.c & s[1]:
                self.block(s[2])
            elif len(s) > 3:
                self.block(s[3])
        elif k == "loop":
            for _ in range(2):
                self.block(s[1])
        elif k == "call":           # ("call", result, fn, args); result: None | ("decl", kind, name) | ("add", const)
            c = self.call(s[2], s[3])
            if s[1] and s[1][0] == "decl":
                _, kind, name = s[1]
                if kind == "ref":
                    self.env[name] = Cell(copy(c.v)) if "r" in self.variant else c
                else:
                    self.env[name] = c if kind[0] in self.variant else Cell(copy(c.v))
            elif s[1]:
                if not c.alive:
                    raise Dangling
                c.v += s[1][1]
        else:
            raise ValueError(s)


    def call(self, fn, args):
        params, body, ret = fn
        env = {}
        for (name, kind, _), a in zip(params, args):
            c = self.cell(a)
            env[name] = c if kind == "ref" or kind[0] in self.variant else Cell(copy(c.v))
        outer, self.env = self.env, env
        try:
            self.block(body)
            return self.cell(ret) if ret else None
        finally:
            self.env = outer


def source(b, ind="    ", fns=None):
    out = []
    for s in b:
        k = s[0]
        if k == "decl":
            out.append("%s %s = %s;" % (s[1], s[2], text(s[3])))
        elif k == "add":
            out.append("%s += %d;" % (text(s[1]), s[2]))
        elif k == "push":
            out.append("%s ~= %d;" % (text(s[1]), s[2]))
        elif k == "pushv":
            out.append("%s ~= %s;" % (text(s[1]), text(s[2])))
        elif k == "pop":
            out.append("%s.pop();" % text(s[1]))
        elif k == "clear":
            out.append("%s.clear();" % text(s[1]))
        elif k == "set":
            out.append("%s = %s;" % (text(s[1]), text(s[2])))
        elif k == "swap":
            out.append("swap(%s, %s);" % (text(s[1]), text(s[2])))
        elif k == "obs":
            out.append('put(:o, "%s", %s);' % (s[1], s[1]))
        elif k == "if":
            out.append("if (c & %d) {\n%s%s}" % (s[1], source(s[2], ind + "    ", fns), ind))
            if len(s) > 3:
                out[-1] += " else {\n%s%s}" % (source(s[3], ind + "    ", fns), ind)
        elif k == "loop":
            out.append("for (mut k = 0; k < 2; k++) {\n%s%s}" % (source(s[1], ind + "    ", fns), ind))
        elif k == "call":
            call = "%s(%s)" % (fns[s[2]], ", ".join([":o"] * ("obs" in str(s[2][1])) + [text(x) for x in s[3]]))
            r = s[1]
            out.append("%s;" % call if not r else "%s %s = %s;" % (r[1], r[2], call) if r[0] == "decl" else "%s += %d;" % (call, r[1]))
        else:
            raise ValueError(s)
    return "".join(ind + l + "\n" for l in out)


HEAD = """struct S { p: int; v: int[]; };
fn show(x: int): string "" ~ x;
fn show(x: int[]): string { mut r = "["; for (mut k = 0; k < x.len; k++) { if (k) r ~= " "; r ~= x[k]; } return r ~ "]"; }
fn show(x: S): string "(" ~ x.p ~ " " ~ show(x.v) ~ ")";
fn show(x: int[][]): string { mut r = "["; for (mut k = 0; k < x.len; k++) { if (k) r ~= " "; r ~= show(x[k]); } return r ~ "]"; }
fn show(x: S[]): string { mut r = "["; for (mut k = 0; k < x.len; k++) { if (k) r ~= " "; r ~= show(x[k]); } return r ~ "]"; }
fn put(ref o: string, k: string, x: int)     { o ~= k; o ~= show(x); o ~= ";"; }
fn put(ref o: string, k: string, x: int[])   { o ~= k; o ~= show(x); o ~= ";"; }
fn put(ref o: string, k: string, x: S)       { o ~= k; o ~= show(x); o ~= ";"; }
fn put(ref o: string, k: string, x: int[][]) { o ~= k; o ~= show(x); o ~= ";"; }
fn put(ref o: string, k: string, x: S[])     { o ~= k; o ~= show(x); o ~= ";"; }
"""


def bases(b):
    seen = []

    def lv(l):
        for r in roots(l):
            if r in BASE and r not in seen:
                seen.append(r)

    def go(b):
        for s in b:
            if s[0] in ("if",):
                go(s[2])
                if len(s) > 3:
                    go(s[3])
            elif s[0] == "loop":
                go(s[1])
            elif s[0] == "obs":
                lv(("x", s[1]))
            elif s[0] == "call":
                for e in s[3]:
                    lv(e)
            else:
                for e in s[1:]:
                    if isinstance(e, tuple):
                        lv(e)
    go(b)
    return sorted(seen)


def helpers(b, out):
    for s in b:
        if s[0] == "call":
            if s[2] not in out:
                out.append(s[2])
        elif s[0] == "if":
            helpers(s[2], out)
            if len(s) > 3:
                helpers(s[3], out)
        elif s[0] == "loop":
            helpers(s[1], out)
    return out


def function(n, b):
    hs = helpers(b, [])
    names = {f: "h%d_%d" % (n, i) for i, f in enumerate(hs)}
    out = []
    for f in hs:
        params, body, ret = f
        out.append("fn %s(%s) {\n%s%s}\n" % (names[f], ", ".join((["ref o: string"] if "obs" in str(body) else []) + ["%s%s: %s" % ("" if k == "let" else k + " ", x, FUTYPE[t]) for x, k, t in params]),
                                             source(body), "    return %s;\n" % text(ret) if ret else ""))
    out.append("fn t%d(lax c: int, ref o: string): void {\n%s%s}\n" % (n, "".join("    mut %s = %s;\n" % (x, BASE[x][1]) for x in bases(b)), source(b, fns=names)))
    return "".join(out)


def run(b, c, variant=""):
    r = Run(c, variant)
    for x in bases(b):
        r.env[x] = Cell(BASE[x][2]())
    r.block(b)
    return "".join(x + ";" for x in r.out)
