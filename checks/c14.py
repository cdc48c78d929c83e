"""C14: instances of templates are merged only when they mean the same. A large family of bodies, any two of which
differ in one token or one operand, is put through the same template three ways (block argument, inner template
function, template instance in one of several modules); each instance must do what the same text does in a plain
function of its own, which is never merged with anything."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from progs import *  # noqa
import itertools
import re

chk = Check("C14")
P = Progs(chk)
err = None

# A body is a sequence of statements on w (out: string) and x (int, given as 4 and as 7). o(:w, text) shows a value.
B = []


def one(fmt, *alts, **kw):
    for a in alts:
        B.append(fmt.replace("@", a))


SHOW = "o(:w, \"\" ~ (@));"
one(SHOW, *["x %s 3" % op for op in "+ - * / % & | ^ << >> +% -% *% < <= > >= == !=".split()])
one(SHOW, *["3 %s x" % op for op in "- / % << >> -% < <=".split()])
one(SHOW, "x", "-x", "~x", "x + 4", "x - 4", "x + 0x10", "x + 1_000" if 0 else "x + 1000", "(x + 1) * 2", "x + 1 * 2", "x * x", "x + x", "x + x + x", "x - (x - 1)", "x - x - 1")
one(SHOW, "x.i8", "x.u8.int + 1", "(x * 60).i8.int", "(x * 60).u8.int", "(x * 60).i16.int", "x.i64 * 3", "x.u32 * 3", "x.f64 / 3", "x.f32 / 3", "(x / 3).f64", "x.u64 << 40", "x.i64 << 33")
one("o(:w, @);", '"3"', '"4"', '"3" ~ x', '"4" ~ x', 'x ~ "3"', '"33"', '"3 "', 'x ? "a" : "b"', 'x == 4 ? "a" : "b"', 'x == 4 ? "b" : "a"', 'x == 7 ? "a" : "b"', '(x - 4) && "a"', '(x == 4) && "a"', '"a" ~ "b" ~ x', '"b" ~ "a" ~ x', '"ab" ~ x.i64')
# callees of one signature, plain and template, overloaded, in either order, with named and missing arguments
one("o(:w, \"\" ~ @);", "g1(x)", "g2(x)", "t1(x)", "t2(x)", "g1(g2(x))", "g2(g1(x))", "g1(x + 1)", "g1(x) + 1", "g3(x, 5)", "g3(5, x)", "g3(x, x)", "g3(5, 5)", "g4(a: x)", "g4(b: x)", "g4(a: x, b: x)", "g4()", "g4(a: x, b: 1)", "g4(a: 1, b: x)",
    "g4(a: 5)", "g4(b: 5)", "over(x)", "over(x.i64)", "over(x.u8)", "over(\"4\")", "t3(x, 5)", "t3(5, x)", "g5([], 5)", "g5(5, [])", "g5(x, [])", "g5([], x)", "g1(x) - g2(x)", "g2(x) - g1(x)")
one("o(:w, \"\" ~ @);", "S1(x, 9).a", "S1(9, x).a", "S1(x, 9).b", "S1(a: x, b: 9).a", "S1(b: x, a: 9).a", "S1(a: x, b: 9).b", "S2(x, 9).a", "S2(x, 9).b", "S3(S1(x, 9), 8).p.a", "S3(S1(x, 9), 8).p.b", "S3(S1(x, 9), 8).a", "show(S1(x, 9))", "show(S2(x, 9))", "S4(x, x + 1).c", "S4(x, x + 1).d")
one("let z = @; o(:w, show(z));", "S1(x, 9)", "S1(9, x)", "S2(x, 9)", "S1(a: x, b: 9)", "S1(b: x, a: 9)")
one("let z = S1(x, 9); o(:w, \"\" ~ @);", "z.a", "z.b", "(z.a - z.b)", "(z.b - z.a)")
one("mut z = S1(x, 9); @ o(:w, show(z));", "z.a = 1;", "z.b = 1;", "z.a++;", "z.b++;", "z.a = z.b;", "z.b = z.a;", "swop(z.a, z.b);", "z.a += z.b;")
one("let k = @; o(:w, \"\" ~ k.int);", "E1.p", "E1.q", "E2.p", "E2.q", "E2.r")
one("o(:w, \"\" ~ (e1(x) == @));", "E1.p", "E1.q")
one("o(:w, \"\" ~ (e2(x) == @));", "E2.p", "E2.q", "E2.r")
one(SHOW, "K1", "K2", "K3", "K1 + x", "K2 + x", "K3.len + x")
one("let p = x + 1; let q = x * 2; o(:w, \"\" ~ (@));", "p - q", "q - p", "p + p + q - q", "q + q + p - p", "p * 2 + q", "q * 2 + p")
one("mut p = x; @ o(:w, \"\" ~ p);", "p = 3;", "p += 3;", "p -= 3;", "p *= 3;", "p /= 3;", "p %= 3;", "p &= 3;", "p |= 8;", "p ^= 3;", "p <<= 2;", "p >>= 1;", "p ||= 3;", "p &&= 3;", "p++;", "p--;", "++p;", "--p;", "o(:w, \"\" ~ p++);", "o(:w, \"\" ~ ++p);", "o(:w, \"\" ~ p--);",
    "p = p == 4 ? 1 : 2;", "if (p == 4) p = 1; else p = 2;", "if (p == 4) p = 2; else p = 1;", "if (p == 4) p++;", "if (p == 7) p++;", "p == 4 && { p = 9; };", "p == 4 || { p = 9; };")
one("mut p = x; mut q = 20; @ o(:w, p ~ \",\" ~ q);", "p = q;", "q = p;", "swop(p, q);", "ref r = p; r++; q += r;", "mut r = p; r++; q += r;", "ref r = q; r++; p += r;", "inc(p); q++;", "inc(q); p++;", "inc(p); inc(p); q++;", "p += q; q += p;", "q += p; p += q;")
one("mut v = [ 5, 6, 7, 8 ]; @ for (mut i = 0; i < v.len; i++) o(:w, v[i] ~ \";\");", "v ~= x;", "v[0] = x;", "v[1] = x;", "v[x - 4 & 1] = 1;", "v.pop();", "v.shrink(1);", "v.resize(2);", "v.resize(5);", "v.splice(1, 1);", "v.splice(1, 2);", "v.splice(2, 1);", "v = v ~ v;", "v = v[1 .. 3];", "v = v[0 .. 3];", "v = [ x, 1 ];",
    "v = [ 1, x ];", "v = [];", "v.insert(1, x);", "v.insert(2, x);", "v.unshift(x);", "v.push(x);", "v.reverse();" if 0 else "v.move(0, 2);" if 0 else "v.clear();")
one("for (mut i = 0; i < x; @) { o(:w, \"\" ~ i); }", "i++", "i += 2", "i += 3", "{ i++; i++ }")
one("for (mut i = 0; i < @; i++) { o(:w, \"\" ~ i); }", "x", "3", "5", "x - 1", "x / 2")
one("for (mut i = @; i < x; i++) { o(:w, \"\" ~ i); }", "0", "1", "2", "x / 2")
one("mut i = 0; @", "while (i < x) { i += 2; o(:w, \"\" ~ i); }", "do { i += 2; o(:w, \"\" ~ i); } while (i < x);", "for (; i < x; i += 2) { o(:w, \"\" ~ i); }", "for (; i < x; ) { i += 2; o(:w, \"\" ~ i); }", "do { o(:w, \"\" ~ i); if (i > 9) break; i += 2; } while (more(:w, i, x));",
    "for (;; more(:w, i, x)) { o(:w, \"\" ~ i); if (i > 9) break; i += 2; }", "while (more(:w, i, x)) { o(:w, \"\" ~ i); if (i > 9) break; i += 2; }", "for (; more(:w, i, x); ) { o(:w, \"\" ~ i); if (i > 9) break; i += 2; }", "for (; more(:w, i, x); i++) { o(:w, \"\" ~ i); if (i > 9) break; i += 2; }")
one(":L for (mut i = 0; i < 3; i++) { for (mut j = 0; j < 3; j++) { if (j == x - 3) @; o(:w, i ~ \"\" ~ j); } o(:w, \"|\"); }", "break", "continue", "break :L", "continue :L")
one(":L { for (mut i = 0; i < 3; i++) { if (i == x - 3) @; o(:w, \"\" ~ i); } o(:w, \"|\"); }", "break", "continue", "break :L")
one(":L { :M { o(:w, \"a\"); if (x == 4) break :@; o(:w, \"b\"); } o(:w, \"c\"); }", "L", "M")
one("let z = { :L { if (x == 4) break :L @ } };  o(:w, z);", '"a"; "b"', '"b"; "a"', '"b"; "b"')
one("{ @ o(:w, \"a\"); } try { @ o(:w, \"t\"); if (x == 4) throw(\"E\"); } catch (e) { o(:w, e); }", "defer o(:w, \"d\");", "defer:ok o(:w, \"d\");", "defer:err o(:w, \"d\");", "", "defer { o(:w, \"d\"); o(:w, \"e\"); }")
one("try { @ } catch (e) { o(:w, \"c\" ~ e); }", "o(:w, \"t\"); if (x == 4) throw(\"E\");", "o(:w, \"t\"); if (x == 4) throw(\"F\");", "o(:w, \"t\"); if (x == 7) throw(\"E\");", "if (x == 4) throw(\"E\"); o(:w, \"t\");", "if (x == 4) throw(\"E\" ~ x); o(:w, \"t\");")
one("each(x): |y| @;", "o(:w, \"\" ~ y)", "o(:w, \"\" ~ (y + 1))", "{ o(:w, \"\" ~ y); if (y == 2) break; }", "{ o(:w, \"\" ~ y); if (y == 2) continue; o(:w, \"!\"); }", "{ if (y == 2) break; o(:w, \"\" ~ y); }", "{ o(:w, \"\" ~ (x + y * 0)); }", "{ o(:w, \"\" ~ x * y); }")
one("fn h(z: int): int @ o(:w, \"\" ~ h(x) ~ h(3));", "{ return z + 1; }", "{ return z + 2; }", "{ return z - 1; }", "{ return x + z * 0; }", "{ return x + z; }", "{ return g1(z); }", "{ return g2(z); }")
one("fn h(z) { @ } o(:w, \"\" ~ h(x) ~ h(3.i8));", "return z + 1;", "return z + 2;", "return z - 1;", "return g1(z.int);", "return g2(z.int);", "return t1(z);", "return t2(z);")
one("mut z: @[]; z.resize(2); o(:w, z.len ~ show(z[0]));", "S1", "S2", "S4")
one("mut z: @; o(:w, show(z));", "S1", "S2", "S4", "int", "string")
B2 = list(dict.fromkeys(B))

LIB = """
pub struct W { out: string; };
pub fn o(ref w: W, s: string): void { w.out ~= s; w.out ~= " "; }
pub fn once(ref w: W, visit) { visit(4); o(:w, "-"); visit(7); }
pub fn each(n: int, visit) { for (mut i = 0; i < n; i++) visit(i); }
pub fn g1(x: int): int { return x * 10 + 1; }
pub fn g2(x: int): int { return x * 10 + 2; }
pub fn g3(x: int, y: int): int { return x * 10 + y; }
pub fn g4(a?: int, b?: int): int { return a * 100 + b + 1000; }
pub fn g5(a: int, b: int): int { return a * 100 + b + 1000; }
pub fn t1(x) { return x * 10 + 1; }
pub fn t2(x) { return x * 10 + 2; }
pub fn t3(x, y) { return x * 10 + y; }
pub fn over(x: int): string { return "i" ~ x; }
pub fn over(x: i64): string { return "l" ~ x; }
pub fn over(x: u8): string { return "b" ~ x; }
pub fn over(x: string): string { return "s" ~ x; }
pub struct S1 { a: int; b: int; };
pub struct S2 { b: int; a: int; };
pub struct S3 { p: S1; a: int; };
pub struct S4 { c: int; d: int; };
pub fn show(s: S1): string { return "S1:" ~ s.a ~ "," ~ s.b; }
pub fn show(s: S2): string { return "S2:" ~ s.a ~ "," ~ s.b; }
pub fn show(s: S4): string { return "S4:" ~ s.c ~ "," ~ s.d; }
pub fn show(s: int): string { return "int:" ~ s; }
pub fn show(s: string): string { return "string:" ~ s; }
pub enum E1 { p; q; }
pub enum E2 { r; q; p; }
pub fn e1(x: int): E1 { return x == 4 ? E1.p : E1.q; }
pub fn e2(x: int): E2 { return x == 4 ? E2.p : E2.q; }
pub let K1 = 31;
pub let K2 = 32;
pub let K3 = "12345";
pub fn inc(ref x: int): void { x++; }
pub fn swop(ref a: int, ref b: int): void { let t = a; a = b; b = t; }
pub fn more(ref w: W, i: int, x: int): bool { o(:w, "m"); return i < x; }
"""

# The same texts in four modules, whose own definitions of the names in them differ.
NMOD = 4
LOCAL = """
struct L { %s };
enum LE { %s }
let KL = %d;
fn loc(x: int): int { return x * 10 + %d; }
fn tl(x) { return x * 10 + %d; }
fn tt(x) { return tl(x); }
fn ar(x: int, y: int): int { return %s; }
fn od(x?: int, y?: int): int { return x * 10 + y + %d; }
fn rt(x: int): %s { return %s; }
fn show(s: L): string { return "L:" ~ s.a ~ "," ~ s.b; }
fn mod(ref x: int): void { x += %d; }
pub fn pt(x) { return loc(x); }
pub fn pu(x) { return tt(x); }
pub fn pv(x) { return L(x, 9).a; }
pub fn pk(x) { return x + KL; }
pub fn pb(ref w: W, visit) { visit(KL); o(:w, "+"); visit(loc(1)); }
"""


def local(k):
    return LOCAL % ("a: int; b: int;" if k & 1 else "b: int; a: int;", ["p; q; r;", "q; p; r;", "r; q; p;", "q; r; p;"][k], k + 50, k + 1, k + 5,
                    ["x - y", "y - x", "x + y", "x"][k].replace("x", "x").ljust(1) + ("" if k < 3 else " + y * 0"), k + 30, ["int", "i64", "i8", "u8"][k], ["x", "x.i64", "x.i8", "x.u8"][k], k + 1)


TEXTS = ["loc(x)", "tl(x)", "tt(x)", "ar(x, 5)", "ar(5, x)", "od(x)", "od(y: x)", "over(rt(x))" if 0 else "rt(x)", "KL", "KL + x", "L(x, 9).a", "L(x, 9).b", "show(L(x, 9))", "LE.p.int", "LE.q.int", "LE.r.int",
         "loc(tl(x))", "t1(loc(x))", "g1(KL)", "pt(x)", "pu(x)", "pv(x)", "pk(x)"]
TEXTS = ["o(:w, \"\" ~ %s);" % t for t in TEXTS] + [
    "mut z = x; mod(:z); o(:w, \"\" ~ z);" if 0 else "mut z = x; mod(z); o(:w, \"\" ~ z);", "mut z: L; z.a = x; o(:w, show(z));", "mut z: L[]; z.resize(2); z[1].b = x; o(:w, show(z[1]));",
    "let z = L(x, 9); o(:w, show(z));", "once(:w): |y| o(:w, \"\" ~ loc(y));", "each(x): |y| o(:w, \"\" ~ tl(y));", "pb(:w): |y| o(:w, \"\" ~ (y + x));",
    "fn h(z) { return loc(z) + z; } o(:w, \"\" ~ h(x));", "if (x == KL - 46) o(:w, \"a\"); else o(:w, \"b\");", "o(:w, x == 4 ? show(L(1, 2)) : show(L(2, 1)));"]
CROSS = ["o(:w, \"\" ~ m%d::pt(x));", "o(:w, \"\" ~ m%d::pu(x));", "o(:w, \"\" ~ m%d::pv(x));", "o(:w, \"\" ~ m%d::pk(x));", "m%d::pb(:w): |y| o(:w, \"\" ~ (y + x));"]


def forms(n, body):
    """the same body as a plain function, a block argument and an inner template"""
    return ("lax fn p%d(lax ref w: W, lax x: int): void {\n    %s\n}\n" % (n, body)
            + "lax fn b%d(ref w: W): void {\n    once(:w): |lax x| {\n        %s\n    };\n}\n" % (n, body)
            + "lax fn n%d(lax ref w: W): void {\n    lax fn twin(lax x) {\n        %s\n    }\n    twin(4); o(:w, \"-\"); twin(7);\n}\n" % (n, body)
            + "lax fn s%d(ref w: W): void {\n    fn visit(lax x: int) {\n        %s\n    }\n    visit(4); o(:w, \"-\"); visit(7);\n}\n" % (n, body))


def calls(n, label):
    return ("    { mut w: W; p%d(:w, 4); o(:w, \"-\"); p%d(:w, 7); println(\"%s p \" ~ w.out); }\n" % (n, n, label)
            + "".join("    { mut w: W; %s%d(:w); println(\"%s %s \" ~ w.out); }\n" % (f, n, label, f) for f in "bns"))


def single(idx):
    """all bodies in one module"""
    src = LIB.replace("pub ", "") + "".join(forms(i, B2[i]) for i in idx)
    for j in range(0, len(idx), 40):
        src += "fn run%d() {\n%s}\n" % (j, "".join(calls(i, "%d" % i) for i in idx[j:j + 40]))
    src += "fn main(): i32 {\n%s    return 0;\n}\n" % "".join("    run%d();\n" % j for j in range(0, len(idx), 40))
    return src, None


def several(rot):
    """bodies spread over modules, which share the library; and the texts that mean something else in each"""
    files = {"lib.fu": LIB}
    for k in range(NMOD):
        mine = [i for i in range(len(B2)) if (i + rot * (i // NMOD)) % NMOD == k]
        src = "import lib;\n" + local(k) + "".join(forms(i, B2[i]) for i in mine) + "".join(forms(1000 + j, t) for j, t in enumerate(TEXTS))
        src += "pub fn run() {\n%s%s}\n" % ("".join(calls(i, "%d" % i) for i in mine), "".join(calls(1000 + j, "%d:%d" % (k, j)) for j in range(len(TEXTS))))
        files["m%d.fu" % k] = src
    src = "import lib;\n" + "".join("import m%d;\n" % ((k + rot) % NMOD) for k in range(NMOD))
    out = ""
    for k in range(NMOD):
        for j, t in enumerate(CROSS):
            src += forms(2000 + 100 * k + j, t % k)
            out += calls(2000 + 100 * k + j, "x%d:%d" % (k, j))
    return src + "fn main(): i32 {\n%s%s    return 0;\n}\n" % ("".join("    m%d::run();\n" % k for k in range(NMOD)), out), files


MODES = [("--debug", " -O0")] + ([("--reldeb", " -O1")] if THOROUGH else [])
jobs = [("one%s" % m, single(list(range(len(B2)))), m, o) for m, o in MODES] + [("mod%d%s" % (r, m), several(r), m, o) for r in range(4 if THOROUGH else 2) for m, o in MODES]


def work(j):
    name, (src, files), mode, opt = j
    return (j,) + P.build_run(name.replace("-", ""), src, mode, opt, files=files, timeout=chk.left() - 10)


ref = {}
for (name, (src, files), mode, _), stage, rc, out in pmap(work, jobs):
    out = re.sub(r"\x1b\[[0-9;]*m", "", out)
    whole = src + "".join("\n//---- %s\n%s" % kv for kv in (files or {}).items())
    if stage == "compile" or rc != 0:
        chk.violation("%s %s" % (name, stage), "the program of all bodies does not %s: %s" % (stage, "\n".join(l for l in out.splitlines() if l.strip())[-1500:]), whole)
        continue
    got = {}
    for l in out.splitlines():
        m = re.match(r"(x?\d+(?::\d+)?) ([pbns]) (.*)", l)
        if m:
            got[m.group(1), m.group(2)] = m.group(3).strip()
    keys = {k for k, _ in got}
    for k in sorted(keys):
        for f in "bns":
            if got.get((k, f)) != got[k, "p"]:
                chk.violation("%s body %s form %s" % (name, k, f), "program %s: body %s as %s gives\n  %s\nand as a plain function\n  %s\nfor\n%s" % (
                    name, k, {"b": "block argument", "n": "inner template", "s": "inner function"}[f], got.get((k, f)), got[k, "p"], B2[int(k)] if k.isdigit() else TEXTS[int(k.split(":")[1])] if k[0] != "x" else CROSS[int(k.split(":")[1])]), whole)
        if k.isdigit() and ref.setdefault(k, got[k, "p"]) != got[k, "p"]:
            chk.violation("%s body %s" % (name, k), "program %s: body %s as a plain function gives\n  %s\nand elsewhere\n  %s\nfor %s" % (name, k, got[k, "p"], ref[k], B2[int(k)]), whole)
    for j in range(len(CROSS)):
        vals = {got.get(("x%d:%d" % (k, j), "p")) for k in range(NMOD)}
        if files and len(vals) != (2 if j == 2 else NMOD):
            chk.violation("%s cross %d" % (name, j), "program %s: %s gives %s for the four modules" % (name, CROSS[j], vals), whole)
    want = len(B2) + (len(TEXTS) * NMOD + len(CROSS) * NMOD if files else 0)
    if len(keys) != want:
        err = err or "%s: %d of %d bodies reported" % (name, len(keys), want)
    chk.add(len(got), len(got) * 2, len(keys))
    chk.sample("%s: %d instances of %d bodies, all %d pairs in one program" % (name, len(got), len(keys), len(keys) * (len(keys) - 1) // 2))

# Modules of one name in folders of different names.
H = "fn loc(x: int): int { return x + %d; }\nstruct L { a: int; };\npub fn same(x: int): int { return loc(x) * %d; }\npub fn tem(x) { return loc(x) + %d; }\npub fn cls(x) { let z = L(x + %d); return z.a; }\n"
for name, x, y in (("other file, same folder", "u/g", "u/h"), ("same file, other folder", "u/h", "v/h"), ("same file and folder, other parent", "a/u/h", "b/u/h")):
    main = "import X;\nimport Y;\nfn main(): i32 { println(\"\" ~ fx(4) ~ \" \" ~ fy(4) ~ \";\"); return 0; }\n"
    wrap = "import %s;\npub fn f%s(x: int): string { return same(x) ~ \",\" ~ tem(x) ~ \",\" ~ cls(x); }\n"
    files = {x + ".fu": H % (1, 2, 3, 4), y + ".fu": H % (5, 6, 7, 8), "X.fu": wrap % (x.replace("/", "::"), "x"), "Y.fu": wrap % (y.replace("/", "::"), "y")}
    stage, rc, out = P.build_run("n" + re.sub(r"\W", "", name), main, files=files, timeout=chk.left() - 10)
    chk.add(1, 1, 1)
    if stage == "compile" or rc or "10,8,8 54,16,12;" not in out:
        chk.violation("modules: " + name, "modules %s and %s, each with functions of the same names: %s\n%s" % (x, y, stage, "\n".join(l for l in out.splitlines() if l.strip())[-900:]),
                      main + "".join("\n//---- %s\n%s" % kv for kv in files.items()))
chk.finish(error=err)
