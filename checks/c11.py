"""C11: text codecs: lib/unicode.fu and lib/ascii.fu through an exhaustive driver; string and byte literals of the
language through generated programs covering every byte value, every escape and every neighbour."""
import sys
sys.path.insert(0, __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/../lib")
from progs import *  # noqa
import itertools

chk = Check("C11")
P = Progs(chk)
err = None

# Literal pieces: (source bytes, denoted bytes), in double quotes. Every piece is legal next to every other.
SIMPLE = {"n": 10, "r": 13, "t": 9, "f": 12, "v": 11, "0": 0, "a": 7, "b": 8, "e": 27, "\\": 92}


def piece_raw(b):
    return bytes([b]), bytes([b])


def piece_hex(b, up):
    return (b"\\x%02X" if up else b"\\x%02x") % b, bytes([b])


NEXT = [piece_raw(ord(c)) for c in "09afgAFG?%'/ u"] + [(b"\\\\", b"\\"), (b"\\n", b"\n"), (b"\\0", b"\0"), (b"\\x00", b"\0"), (b"\\xff", b"\xff"), (b"\\x7F", b"\x7f")]


def points():
    out = []
    for cp in (0, 1, 0x1f, 0x20, 0x22, 0x41, 0x5c, 0x7f, 0x80, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0xfffff, 0x100000, 0x10ffff):
        for fmt in ("%x", "%X", "%06x"):
            s = fmt % cp
            out.append((b"\\u{" + s.encode() + b"}", chr(cp).encode("utf-8")))
    return out


def strings():
    seen = set()

    def emit(ps):
        src, val = b"".join(p[0] for p in ps), b"".join(p[1] for p in ps)
        if src not in seen:
            seen.add(src)
            yield src, val
    allbytes = [piece_hex(b, u) for b in range(256) for u in (0, 1)] + [(b"\\" + k.encode(), bytes([v])) for k, v in SIMPLE.items()] + [(b'\\"', b'"')]
    allbytes += [piece_raw(b) for b in range(32, 127) if b not in (34, 92)] + points() + [(s.encode(), s.encode()) for s in ("\u00e9", "\u4e2d", "\U0001f3c0")]
    yield from emit([])
    for p in allbytes:
        yield from emit([p])
        for q in NEXT:
            yield from emit([p, q])
            if THOROUGH:
                yield from emit([q, p])
                yield from emit([q, p, q])
    for ps in itertools.product(NEXT, repeat=3):
        yield from emit(ps)
    K = [NEXT[0], NEXT[2], NEXT[4], NEXT[14], NEXT[15], NEXT[18], (b'\\"', b'"'), (b"\\xc3\\xa9", b"\xc3\xa9")]
    for ps in itertools.product(K, repeat=4 if THOROUGH else 3):
        yield from emit(ps)


def dec(v):
    return " ".join(str(b) for b in v).encode()


HEAD = b"""
fn dec(s: string) { mut r = ""; for (mut i = 0; i < s.len; i++) { if (i) r ~= " "; r ~= s[i].int; } return r; }
fn same(got: string, want: string, k: int): void { if (dec(got) != want) { println("BAD " ~ k ~ " " ~ dec(got)); } }
fn sameb(got: byte, want: int, k: int): void { if (got.int != want) { println("BAD " ~ k ~ " " ~ got.int); } }
"""

cases = []
for src, val in strings():
    k = len(cases)
    if k % 4 == 3:      # spliced into a concatenation with other literals
        cases.append((b'same("ab" ~ "%s" ~ "09", "%s", %d);' % (src, dec(b"ab" + val + b"09"), k), src))
    elif k % 4 == 2:    # read back from a mutable
        cases.append((b'{ mut s = "%s"; s ~= "9"; same(s, "%s", %d); }' % (src, dec(val + b"9"), k), src))
    else:
        cases.append((b'same("%s", "%s", %d);' % (src, dec(val), k), src))
for b in range(256):        # byte literals
    for up in (0, 1):
        cases.append((b"sameb('%s', %d, %d);" % (piece_hex(b, up)[0], b, len(cases)), piece_hex(b, up)[0]))
    if 32 <= b < 127 and b not in (39, 92):
        cases.append((b"sameb('%s', %d, %d);" % (bytes([b]), b, len(cases)), bytes([b])))
for k, v in SIMPLE.items():
    cases.append((b"sameb('\\%s', %d, %d);" % (k.encode(), v, len(cases)), k.encode()))
cases.append((b"sameb('\\'', 39, %d);" % len(cases), b"'"))
# backtick strings take every byte but the backtick and the backslash as it stands
raw = bytes(b for b in range(32, 127) if b not in (92, 96))
for a in list(raw[::3]) + [9]:
    t = bytes([a]) + b"\n" + b" " * 12     # over two lines (the language wants the rest of the line indented)
    cases.append((b'same(`%s`, "%s", %d);' % (t, dec(t), len(cases)), t))
    for b in b"\"'{}$/*-x09\t":
        cases.append((b'same(`%s`, "%s", %d);' % (bytes([a, b]), dec(bytes([a, b])), len(cases)), bytes([a, b])))

CH = (len(cases) + NCPU * (3 if THOROUGH else 1) - 1) // (NCPU * (3 if THOROUGH else 1))
chunks = [cases[i:i + CH] for i in range(0, len(cases), CH)]


def batch(i):
    body, fns = [HEAD], []
    for j in range(0, len(chunks[i]), 60):
        fns.append(b"t%d();" % j)
        body.append(b"fn t%d(): void {\n    %s\n}\n" % (j, b"\n    ".join(c[0] for c in chunks[i][j:j + 60])))
    body.append(b'fn main(): i32 { %s println("DONE"); return 0; }\n' % b" ".join(fns))
    return P.build_run("lit%d" % i, b"\n".join(body))


def drv():
    try:
        v = [P.compile("uni", "--retail", " -O2", "g++"), P.compile("uni", "--debug", " -O1 -g" + ASAN, "clang++")]
    except RuntimeError as ex:
        return ex
    e = P.run(v[0], ["7" if THOROUGH else "5"], 600 if THOROUGH else 150, split=2)
    return P.run(v[1], ["5" if THOROUGH else "4"], 600 if THOROUGH else 150, split=2, note="asan") or e


err = drv()
for i, (stage, rc, out) in enumerate(pmap(batch, range(len(chunks)))):
    chk.add(len(chunks[i]), len(chunks[i]), len(chunks[i]))
    if stage == "run":
        bad = [l for l in out.splitlines() if l.startswith("BAD ")]
        for l in bad[:3]:
            k = int(l.split()[1])
            chk.violation("literal %r" % cases[k][1], "the literal in %s denotes the bytes %s" % (cases[k][0].decode("latin1"), l.split(" ", 2)[-1]), cases[k][0].decode("latin1"))
        if not bad and (rc != 0 or "DONE" not in out):
            chk.violation("literal batch %d aborts" % i, "a program of legal literals fails at run time: " + out[-400:], "")
    else:
        # bisect to one literal that is rejected
        lo = chunks[i]
        def bad(cs):
            s, _, o = P.build_run("bis%d" % i, HEAD + b"fn main(): i32 {\n    %s\n    return 0;\n}\n" % b"\n    ".join(c[0] for c in cs))
            return (s == "compile"), o
        b, o = bad(lo)
        while b and len(lo) > 1 and chk.left() > 60:
            h = lo[:len(lo) // 2]
            b2, o2 = bad(h)
            lo, o = (h, o2) if b2 else (lo[len(lo) // 2:], o)
        if b:
            chk.violation("literal %r rejected" % lo[0][1], "a legal literal does not compile: " + lo[0][0].decode("latin1") + "\n" + o[-600:], lo[0][0].decode("latin1"))
        else:
            err = "literal batch %d does not compile: %s" % (i, out[-800:])
chk.sample("%d literals: every byte by \\x, every escape, code points, raw bytes, byte literals, each next to %d neighbours" % (len(cases), len(NEXT)))
chk.finish(error=err)
