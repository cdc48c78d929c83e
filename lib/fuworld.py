"""A sandboxed project, FU_ROOT and caches, and what a build of each state of it must give (used by C15, C17, C18)."""
import os, re, shutil, threading
from fv import *  # noqa
import fubuild

FAKE = None

# Every dimension of what a build reads: values[0] is the base.
DIMS = {
    "main":   ["0", "1"],
    "m1":     ["0", "1", "syntax"],
    "t":      ["0", "1"],
    "lib":    ["0", "1"],                 # a module in FU_ROOT/lib
    "h1":     ["0", "1", "ccfail", "missing"],   # quoted include
    "h2":     ["0", "1"],                 # quoted include of a quoted include, in a subfolder
    "h3":     ["0", "1"],                 # <include> found in an include_dirs folder
    "h4":     ["0", "1"],                 # <include> of that
    "h5":     ["0", "1"],                 # <include> that pragma emit writes
    "h7":     ["0", "1"],                 # included by one of two headers that include each other
    "link":   ["none", "pca", "pcb"],     # a package whose flags pkg-config gives
    "h6":     ["0", "1"],                 # <include> found in a folder given with --cflags
    "inc0":   ["none", "h3"],             # a folder searched before the one with h3.h (searched in the order of their names)
    "incdir": ["inc", "in2"],            # which folder the pragma names
    "fuh":    ["0", "1"],                 # a header of the runtime
    "parh":   ["0", "1"],                 # another one, outside of include/fu
    "scheme": ["--debug", "--reldeb", "--retail", ""],
    "cflags": ["-DA=1", "-DA=2", ""],
    "libs":   ["", "-lX", "-lY"],
    "test":   ["ok", "fails", "--notest"],
    "exit":   ["0", "1"],
    "mode":   ["bin", "run", "nocache"],
    "proj":   ["p", "q"],                 # another folder with equal sources but other headers
}
ORDER = list(DIMS)
BASE = tuple(DIMS[k][0] for k in ORDER)


def put(path, text):
    if text is None:
        if os.path.exists(path):
            os.remove(path)
        return
    try:
        with open(path) as f:
            if f.read() == text:
                return
    except OSError:
        os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


class World:
    """One sandbox: a FU_ROOT, two project folders, and caches."""

    def __init__(self, chk, i):
        self.d = d = "%s/w%s" % (chk.dir, i)
        self.root = d + "/fu"
        os.makedirs(self.root)
        for sub in ("bin", "src"):
            os.symlink(fubuild.T + "/" + sub, self.root + "/" + sub)
        for sub in ("include", "lib"):
            shutil.copytree(REPO + "/" + sub, self.root + "/" + sub)
        self.fuh = open(self.root + "/include/fu/view.h").read()
        self.parh = open(self.root + "/include/par/parfor.hpp").read()
        self.n = 0
        self.lock = threading.Lock()

    def write(self, s):
        s = dict(zip(ORDER, s))
        for p in "pq":
            d, own = self.d + "/" + p, p == "p"
            h = lambda k: s[k] if own else "q"
            put(d + "/main.fu", """
import m1;
import t;
import l;
fn main() { println("MARK_main%s " ~ m1::f() ~ t::g(%s.i32) ~ t::gg() ~ l::l()); return 0; }
test mt() { assert(m1::f() >= 0); }
""" % (s["main"] + (" MARK_EXIT1" if s["exit"] == "1" else ""), s["main"]))
            put(d + "/m1.fu", {"syntax": "pub fn f() { return (1 }\n"}.get(s["m1"], """
pragma include_dirs("./a00", "./%s");
pragma include("./h1.h", "./c1.h", "<h3.h>", "<h6.h>");%s
pragma emit(`
#include <h5.h>
`);
pub lax fn f(): i32 {
    mut r: i32;
    pragma emit(`/* MARK_m1_%s */ `r` = h1();`);
    return r;
}
test ff() { %s assert(f() >= 0); }
""" % (s["incdir"], "" if s["link"] == "none" else '\npragma link("%s");' % s["link"], s["m1"], "println(\"MARK_TESTFAIL\");" if s["test"] == "fails" else "")))
            put(d + "/t.fu", 'pragma include("./c2.h");\npub fn g(x) { return x + %s; }\npub fn gg() { return %s; }\n' % (s["t"], s["t"]))
            put(d + "/c1.h", '#pragma once\n#include "c2.h"\n  #  include "./h7.h"\n')
            put(d + "/c2.h", '#pragma once\n#include "c1.h"\n')
            put(d + "/h7.h", "// MARK_h7_%s\n" % h("h7"))
            put(d + "/h1.h", {"missing": None, "ccfail": "FV_CC_FAIL\n"}.get(h("h1"), '#pragma once\n#include "sub/h2.h"\n// MARK_h1_%s\n' % h("h1")))
            put(d + "/sub/h2.h", "// MARK_h2_%s\n" % h("h2"))
            for inc in ("inc", "in2"):
                x = "" if inc == "inc" else "two_"
                put(d + "/%s/h3.h" % inc, "#include <h4.h>\n// MARK_h3_%s\n" % (x + h("h3")))
                put(d + "/%s/h4.h" % inc, "// MARK_h4_%s\n" % (x + h("h4")))
                put(d + "/%s/h5.h" % inc, "// MARK_h5_%s\n" % (x + h("h5")))
            put(d + "/a00/h3.h", "// MARK_h3_first\n" if s["inc0"] == "h3" else None)
            put(d + "/inc6/h6.h", "// MARK_h6_%s\n" % h("h6"))
        put(self.root + "/lib/l.fu", "pub fn l() { return %s; }\n" % s["lib"])
        put(self.root + "/include/fu/view.h", self.fuh + "// MARK_view_%s\n" % s["fuh"])
        put(self.root + "/include/par/parfor.hpp", self.parh + "// MARK_par_%s\n" % s["parh"])

    def build(self, s, home, race=None, env=None, old=None, out=None):
        """Builds state s with the cache in home. Returns what the user gets."""
        out = out or self.d + "/out.bin"
        if os.path.exists(out):
            os.remove(out)
        if old is not None:
            put(out, old)
        cmd, e = self.command(s, home, out, race, env)
        rc, log = sh(cmd, env=e, cwd=self.d, timeout=120)
        return self.result(s, rc, log, out)

    def command(self, s, home, out, race=None, env=None):
        d = dict(zip(ORDER, s))
        cmd = [fubuild.T + "/bin/fu"]
        if d["scheme"]:
            cmd.append(d["scheme"])
        if d["test"] == "--notest":
            cmd.append("--notest")
        if d["mode"] == "run":
            cmd.append("-r")
        else:
            if d["mode"] == "nocache":
                cmd.append("--nocache")
            cmd += ["--bin", out]
        proj = self.d + "/" + d["proj"]
        cmd += [proj + "/main.fu", "--cflags", "-I" + proj + "/inc6"] + ([d["cflags"]] if d["cflags"] else [])
        if d["libs"]:
            cmd += ["--libs", d["libs"]]
        e = fubuild.base_env()
        e["PATH"] = FAKE + ":" + e["PATH"]
        e["HOME"] = home
        e["FU_ROOT"] = self.root + "/"
        e["fu_NUM_WORKER_THREADS"] = "0" if race or env else "2"
        if race:
            e["FAKEGXX_RACE"] = race
        e.update(env or {})
        return cmd, e

    def result(self, s, rc, log, out):
        text = None
        if dict(zip(ORDER, s))["mode"] == "run":
            m = re.search(r"^LINK .*\n(?:OBJ .*\n|  MARK.*\n|END\n)+", log, re.M)
            text = m.group(0) if m else None
        elif os.path.exists(out):
            text = product(out)
        if rc is None or rc < 0 or rc > 1:
            return "crashed rc=%s" % rc, log, log
        return rc, text, log


def product(path):
    """The text of an executable made by the stand-in."""
    if not os.path.exists(path):
        return None
    with open(path, errors="replace") as f:
        text = f.read()
    return text[text.rfind("@FVTEXT\n") + 8:] if "@FVTEXT\n" in text else text[:3000]


def expect(s):
    """What the executable must have been made of, from the description of the state alone."""
    d = dict(zip(ORDER, s))
    if d["m1"] == "syntax" or (d["proj"] == "p" and d["h1"] in ("ccfail", "missing")):
        return 1, None
    m = {"MARK_main" + d["main"], "MARK_m1_" + d["m1"], "MARK_view_" + d["fuh"]}
    h = lambda k: d[k] if d["proj"] == "p" else "q"
    x = "two_" if d["incdir"] == "in2" else ""
    m |= {"MARK_h1_" + h("h1"), "MARK_h2_" + h("h2"), "MARK_h5_" + x + h("h5"), "MARK_h6_" + h("h6"), "MARK_h7_" + h("h7")}
    m |= {"MARK_h3_first"} if d["inc0"] == "h3" else {"MARK_h3_" + x + h("h3"), "MARK_h4_" + x + h("h4")}
    if d["test"] == "fails":
        return 1, None
    if d["exit"] == "1":
        m.add("MARK_EXIT1")
        if d["mode"] == "run":
            return 1, m
    return 0, m


def marks(text):
    return set(re.findall(r"MARK_\w+", text or "")) - {"MARK_par_0", "MARK_par_1", "MARK_TESTFAIL"}


def name(s):
    return ", ".join("%s=%s" % (k, v) for k, v, b in zip(ORDER, s, BASE) if v != b) or "base"


# the file that a dimension's first edit changes
RACED = {"main": "/p/main.fu", "m1": "/p/m1.fu", "t": "/p/t.fu", "lib": "/fu/lib/l.fu", "h1": "/p/h1.h", "h2": "/p/sub/h2.h",
         "h3": "/p/inc/h3.h", "h4": "/p/inc/h4.h", "h5": "/p/inc/h5.h", "h6": "/p/inc6/h6.h", "h7": "/p/h7.h", "inc0": "/p/a00/h3.h",
         "fuh": "/fu/include/fu/view.h", "parh": "/fu/include/par/parfor.hpp"}


def edits(s):
    for i, k in enumerate(ORDER):
        for v in DIMS[k]:
            if v != s[i]:
                yield s[:i] + (v,) + s[i + 1:]


def fake_tools(chk):
    """The stand-ins for g++ and pkg-config; returns an error or None."""
    global FAKE
    FAKE = chk.dir + "/shim"
    os.makedirs(FAKE)
    rc, log = sh(["g++", "-O1", "-std=c++17", "-o", FAKE + "/g++", HARNESS + "/fakegxx.cpp"])
    if not rc:
        rc, log = sh(["gcc", "-O1", "-D_GNU_SOURCE", "-o", FAKE + "/g++.exe", HARNESS + "/fakeexe.c"])
    if not rc:
        rc, log = sh(["strip", FAKE + "/g++.exe"])
    if rc:
        return log
    with open(FAKE + "/pkg-config", "w") as f:
        f.write('#!/bin/sh\nfor a; do :; done\ncase $1 in --cflags) echo -DPC=$a;; *) echo -l$a;; esac\n')
    os.chmod(FAKE + "/pkg-config", 0o755)


def fresh_error(s, rc, text):
    """None if a fresh build of s gave what its description says."""
    erc, em = expect(s)
    d = dict(zip(ORDER, s))
    flags = [d["cflags"], d["libs"], "" if d["link"] == "none" else "-DPC=" + d["link"], {"--debug": " -Og ", "--reldeb": " -g ", "--retail": "fu_RETAIL", "": "-O3"}[d["scheme"]]]
    if erc == 0 and not all(f in (text or "") for f in flags):
        em = {"flags " + repr(flags)}
    if rc != erc or (em is not None and marks(text) != em):
        return "rc=%s expected %s; %s" % (rc, erc, sorted(marks(text) ^ (em or set())))
