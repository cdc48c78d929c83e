"""C17: a build never reuses a stale product. Explores histories of edits and builds against a fresh build of the same state.

The compiler under test runs for real; the C++ compiler it starts is harness/fakegxx.cpp, whose objects are functions of
the flags and of the text of the source with its includes expanded, so equal inputs give equal bytes and any difference
in what was read shows in the executable."""
import os, re, sys, itertools, shutil, hashlib, threading, queue
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + "/lib")
from fv import *  # noqa
import fubuild
import fuworld
from fuworld import *  # noqa

# -r leaves the executable in the cache
BASE = tuple("run" if k == "mode" else b for k, b in zip(ORDER, BASE))


def main():
    chk = Check("C17")
    try:
        fubuild.build()
    except fubuild.BuildError as e:
        chk.finish(error=e)
    log = fake_tools(chk)
    if log:
        chk.finish(error=log)
    worlds = queue.Queue()
    for i in range(NCPU):
        worlds.put(World(chk, i))
    memo, mlock = {}, threading.Lock()
    stats = {"builds": 0, "fresh": 0}
    seen, err = set(), []
    reported = {}

    def fresh(w, s):
        with mlock:
            if s in memo:
                return memo[s]
        home = w.d + "/fresh"
        shutil.rmtree(home, ignore_errors=True)
        fubuild.mkhome(home)
        w.write(s)
        rc, text, log = w.build(s, home)
        stats["fresh"] += 1
        wrong = fresh_error(s, rc, text)
        if wrong and not err:
            err.append("the fresh build of {%s} is not what its sources say: %s; log %s" % (name(s), wrong, log[-1200:]))
        with mlock:
            memo[s] = (rc, text)
        return rc, text

    def visit(w, hist, home, depth):
        """hist: states built so far, in order; home: the cache they left. Builds the last one and recurses."""
        if chk.left() < 15 or err or len(chk.violations) > 6:
            chk.capped = chk.capped or not err
            return
        s = hist[-1]
        want = fresh(w, s)
        w.write(s)
        rc, text, log = w.build(s, home)
        stats["builds"] += 1
        if (rc, text) != want:
            # which edit of the history is the one whose effect is missing?
            diff = sorted(k for k, a, b in zip(ORDER, hist[-2] if len(hist) > 1 else s, s) if a != b)
            key = "stale after edit of %s" % ",".join(diff)
            with mlock:
                first = key not in reported
                reported[key] = 1
            if first:
                chk.violation(key, "a build with a used cache differs from a fresh build of the same files", "history of builds:\n%s\n\nlast build: rc=%s\n%s\n\nfresh build: rc=%s\n%s\n\nlog:\n%s" % (
                    "\n".join("  %d. {%s}" % (i, name(h)) for i, h in enumerate(hist)), rc, (text or "")[:3000], want[0], (want[1] or "")[:3000], log[-1500:]))
            return
        if depth == 0:
            return
        for t in nexts(hist):
            h2 = w.d + "/h%d" % depth
            shutil.rmtree(h2, ignore_errors=True)
            shutil.copytree(home, h2)
            visit(w, hist + [t], h2, depth - 1)

    def nexts(hist):
        s = hist[-1]
        if len(hist) < 3 or THOROUGH:
            return edits(s)
        return [h for h in hist[:-1] if h != s][:2]       # going back to something built before

    # roots: every one-edit successor of the base, each with the cache the base left
    w0 = worlds.get()
    w0.write(BASE)
    base_home = chk.dir + "/basehome"
    fubuild.mkhome(base_home)
    r = w0.build(BASE, base_home)
    f = fresh(w0, BASE)
    if (r[0], r[1]) != f and not err:
        err.append("two fresh builds differ: %s %s" % (r[0], r[2][-800:]))
    worlds.put(w0)
    jobs = []
    for s1 in edits(BASE):
        for s2 in [None] + list(edits(s1)):
            jobs.append((s1, s2))

    def job(j):
        s1, s2 = j
        w = worlds.get()
        try:
            home = w.d + "/h"
            shutil.rmtree(home, ignore_errors=True)
            if s2 is None:
                shutil.copytree(base_home, home)
                visit(w, [BASE, s1], home, 0)
            else:
                if s1 not in caches:
                    return
                shutil.copytree(caches[s1], home)
                visit(w, [BASE, s1, s2], home, 1 if not THOROUGH else 1)
        finally:
            worlds.put(w)

    # caches after one edit, then all continuations
    caches = {}

    def one(s1):
        w = worlds.get()
        try:
            home = chk.dir + "/c/" + hashlib.sha1(repr(s1).encode()).hexdigest()[:12]
            shutil.copytree(base_home, home)
            n = len(chk.violations)
            visit(w, [BASE, s1], home, 0)
            caches[s1] = home
        finally:
            worlds.put(w)

    # an edit while a build runs: at the start and at the end of each run of the C++ compiler
    races = [0]

    def race_job(j):
        dim, n, when = j
        if chk.left() < 15 or len(chk.violations) > 6:
            chk.capped = True
            return
        w = worlds.get()
        try:
            i = ORDER.index(dim)
            s1 = BASE[:i] + (DIMS[dim][1],) + BASE[i + 1:]
            want = {s: fresh(w, s) for s in (s1, BASE)}
            path = w.d + RACED[dim]
            w.write(s1)
            text = open(path).read()
            w.write(BASE)
            put(w.d + "/new", text)
            home = fubuild.mkhome(w.d + "/r")
            shutil.rmtree(home)
            fubuild.mkhome(home)
            if os.path.exists(w.d + "/count"):
                os.remove(w.d + "/count")
            rc, _, log = w.build(BASE, home, race="%s/count|%d|%s|%s/new|%s" % (w.d, n, when, w.d, path))
            if open(path).read() != text if os.path.exists(path) else True:
                return          # there is no n-th run
            races[0] += 1
            home2 = w.d + "/r2"
            for s in (s1, BASE):
                shutil.rmtree(home2, ignore_errors=True)
                shutil.copytree(home, home2)
                w.write(s)
                rc, text2, log2 = w.build(s, home2)
                stats["builds"] += 2
                if (rc, text2) != want[s]:
                    chk.violation("stale after edit of %s during a build" % dim, "a build differs from a fresh build of the same files", "%s was edited %s run %d of the C++ compiler of a build, then built as {%s}\n\nlast build: rc=%s\n%s\n\nfresh: rc=%s\n%s\n\nlog of the first:\n%s\n\nlog of the second:\n%s" % (
                        RACED[dim], when, n, name(s), rc, (text2 or "")[:3000], want[s][0], (want[s][1] or "")[:3000], log[-1500:], log2[-1500:]))
                    return
        finally:
            worlds.put(w)

    if not err:
        pmap(one, list(edits(BASE)))
        pmap(race_job, [(d, n, w) for d in RACED for n in range(1, 10) for w in ("before", "after")])
        pmap(job, [j for j in jobs if j[1] is not None])
    chk.add(states=len(memo), transitions=stats["builds"], traces=stats["builds"] + stats["fresh"])
    chk.sample("histories: base, one edit, any second edit, %s; %d builds against %d fresh states" % (
        "any third edit" if THOROUGH else "then back to what was built before", stats["builds"], stats["fresh"]))
    chk.sample("edits during a build: %d points" % races[0])
    for s in list(memo)[:5]:
        chk.sample("state {%s}" % name(s))
    chk.extra["edits"] = sum(1 for _ in edits(BASE))
    chk.finish(error=err[0] if err else None)


main()
