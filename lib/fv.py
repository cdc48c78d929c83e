"""Shared plumbing of the checks: scratch folders, harness builds, results, evidence."""
import concurrent.futures as cf
import hashlib
import json
import os
import shutil
import subprocess
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import fubuild  # noqa: E402

VERIF = fubuild.VERIF
REPO = fubuild.REPO
HARNESS = VERIF + "/harness"
SCRATCH = fubuild.SCRATCH_BASE
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
NCPU = os.cpu_count() or 8
THOROUGH = TIER == "thorough"


def scratch(name):
    d = "%s/%s" % (SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.t0 = time.time()
        self.dir = scratch(pid)
        self.replays = VERIF + "/replays"
        os.makedirs(self.replays, exist_ok=True)
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = load_known(pid)
        self.known_seen = set()
        self.capped = False
        self.budget = 3000 if THOROUGH else 600
        self.extra = {}

    def left(self):
        return self.budget - (time.time() - self.t0)

    def sample(self, s, limit=8):
        if len(self.cov["samples"]) < limit:
            self.cov["samples"].append(s)

    def add(self, states=0, transitions=0, traces=0):
        self.cov["states"] += states
        self.cov["transitions"] += transitions
        self.cov["traces_validated_against_impl"] += traces

    def violation(self, key, what, replay_text, files=None):
        """key identifies the failing input/history: matched against known findings."""
        for k in self.known:
            if k == key:
                if k not in self.known_seen:
                    self.known_seen.add(k)
                    print("KNOWN-FINDING: property=%s %s" % (self.pid, key))
                return
        h = hashlib.sha1((key + what).encode()).hexdigest()[:10]
        path = "%s/%s-%s.txt" % (self.replays, self.pid, h)
        with open(path, "w") as f:
            f.write("property: %s\nkey: %s\nwhat: %s\n\n%s\n" % (self.pid, key, what, replay_text))
        for name, data in (files or {}).items():
            with open("%s/%s-%s-%s" % (self.replays, self.pid, h, name), "w") as f:
                f.write(data)
        if len(self.violations) < 20:
            print("VIOLATION property=%s replay=%s" % (self.pid, path))
            print("  " + what.replace("\n", "\n  ")[:2000])
            sys.stdout.flush()
        self.violations.append((key, what, path))

    def finish(self, exhaustive=None, error=None):
        cov = dict(self.cov)
        if exhaustive is None:
            exhaustive = not self.capped
        cov["exhaustive"] = bool(exhaustive) and not self.violations
        cov.update(self.extra)
        if not cov["samples"]:
            cov["samples"] = ["(none)"]
        ev = {"property": self.pid, "tier": "thorough" if THOROUGH else "quick", "seed": SEED, "level": self.level,
              "coverage": cov, "wall_s": round(time.time() - self.t0, 2), "violations": len(self.violations),
              "assumptions": self.assumptions}
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open("%s/evidence/%s.json" % (VERIF, self.pid), "w") as f:
            json.dump(ev, f, indent=1)
            f.write("\n")
        if not os.environ.get("FUV_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        print("%s %s: states=%d transitions=%d traces=%d violations=%d %.1fs%s" % (
            self.pid, TIER, cov.get("states", 0), cov.get("transitions", 0), cov.get("traces_validated_against_impl", 0),
            len(self.violations), time.time() - self.t0, "" if cov["exhaustive"] else " (not exhaustive)"))
        if self.violations:
            sys.exit(1)
        if error:
            print("ERROR: " + str(error)[-3000:])
            sys.exit(2)
        sys.exit(0)


def load_known(pid):
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            pre = "known: property=%s " % pid
            if line.startswith(pre):
                out.append(line[len(pre):].split("  ## ")[0].strip())
    return out


def sh(cmd, cwd=None, env=None, timeout=None):
    """Returns (rc, output); rc None on timeout."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, shell=isinstance(cmd, str), stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf8", "replace")
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out.decode("utf8", "replace")


WRAP = ["-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc"]


def compile_cpp(chk, name, src, flags=(), libs=(), cxx="g++"):
    out = "%s/%s" % (chk.dir, name)
    cmd = [cxx, "-std=c++17", "-Wno-class-memaccess", "-I", HARNESS, "-I", REPO + "/include"] + list(flags) + \
          [src, "-o", out] + list(libs) + ["-pthread"]
    rc, log = sh(cmd, timeout=600)
    if rc != 0:
        raise RuntimeError("harness does not compile: %s\n%s" % (" ".join(cmd), log[-3000:]))
    return out


def pmap(fn, items, workers=NCPU):
    with cf.ThreadPoolExecutor(max_workers=workers) as ex:
        return list(ex.map(fn, items))


def parse_results(out):
    res = []
    for line in out.splitlines():
        if line.startswith("FVRESULT "):
            res.append(json.loads(line[9:]))
    return res


def run_explorer(chk, binary, args, srcnote, timeout, env=None, key=None):
    """Runs an explore.h binary, files its results into the check."""
    t0 = time.time()
    rc, out = sh([binary] + args, timeout=timeout, env=dict(os.environ, **(env or {})))
    rs = parse_results(out)
    if os.environ.get("FV_TIMES"):
        print("%6.1f s  %s %s" % (time.time() - t0, os.path.basename(binary), " ".join(args)))
    if rc is None:
        chk.capped = True
    if not rs:
        return "explorer gave no result (rc=%s): %s" % (rc, out[-1500:])
    err = None
    for r in rs:
        chk.add(r["distinct"], r["ops"], r["runs"])
        if r["capped"]:
            chk.capped = True
        for s in r["samples"][:1]:
            chk.sample("%s: %s" % (r["label"], s.strip().replace("\n", "; ")))
        if r["violated"]:
            chk.violation((key and key(r)) or "%s: %s" % (r["label"], " ; ".join(r["trace"].split("\n"))), "%s: %s" % (r["label"], r["msg"]),
                          "history:\n%s\nviolated: %s\n\nreplay: %s %s --replay %s\n(%s)" % (
                              r["trace"], r["msg"], os.path.basename(binary), " ".join(args), r["path"], srcnote))
        elif r["error"]:
            err = "explorer error in %s: %s\n%s" % (r["label"], r["msg"], out[-1500:])
    return err


def compile_sched(chk, name, src, flags=()):
    """A harness under the controlled scheduler: code under test instrumented by clang's thread-sanitizer pass,
    linked against harness/fvsched.cpp instead of the sanitizer's runtime."""
    rt = chk.dir + "/fvsched.o"
    if not os.path.exists(rt):
        rc, log = sh(["g++", "-O2", "-g", "-std=c++17", "-U_FORTIFY_SOURCE", "-w", "-c", HARNESS + "/fvsched.cpp", "-o", rt], timeout=300)
        if rc != 0:
            raise RuntimeError("fvsched.cpp does not compile\n" + log[-3000:])
    out = "%s/%s" % (chk.dir, name)
    cmds = [["clang++"] + list(flags) + ["-g", "-std=c++17", "-w", "-fsanitize=thread", "-I", HARNESS, "-I", REPO + "/include", "-I", REPO + "/lib", "-c", src, "-o", out + ".o"],
            ["clang++", "-rdynamic", out + ".o", rt] + WRAP + ["-o", out, "-pthread"]]
    for c in cmds:
        rc, log = sh(c, timeout=600)
        if rc != 0:
            raise RuntimeError("harness does not compile: %s\n%s" % (" ".join(c), log[-3000:]))
    return out


def run_plan(chk, plan, reserve=10):
    """plan: (binary, args, env, note, max seconds). Explores one after another (each uses all cores)."""
    err = None
    for binary, args, env, note, t in plan:
        t = int(min(t, chk.left() - reserve))
        if t < 5:
            chk.capped = True
            break
        r = run_explorer(chk, binary, args + ["--workers", str(NCPU), "--seconds", str(t)], note, t + 90, env)
        err = err or r
        if len(chk.violations) > 3:
            break
    return err
