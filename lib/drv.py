"""Checks whose machinery is a Fu program (drivers/*.fu) compiled by the compiler built from the tree, exploring
exhaustively through harness/fvdrv.h."""
import shutil
from fv import *  # noqa
import fubuild

ASAN = " -fsanitize=address,undefined -fno-sanitize=alignment,null,function,vptr,return,shift,signed-integer-overflow,nonnull-attribute,pointer-overflow -fno-sanitize-recover=undefined"


class Drivers:
    def __init__(self, chk):
        self.chk = chk
        try:
            self.fu = fubuild.build()
        except fubuild.BuildError as e:
            chk.finish(error=e)
        self.d = chk.dir + "/drv"
        os.makedirs(self.d)
        for f in os.listdir(REPO + "/src"):
            if f.endswith(".fu") and f != "cli.fu":
                shutil.copy(REPO + "/src/" + f, self.d)
        if os.path.isdir(REPO + "/src/lib"):
            shutil.copytree(REPO + "/src/lib", self.d + "/lib")
        for f in os.listdir(VERIF + "/drivers"):
            shutil.copy(VERIF + "/drivers/" + f, self.d)

    def compile(self, name, mode="--retail", opt="", cxx="g++", tag=None, src=None):
        """Compiles drivers/<name>.fu; returns the binary."""
        tag = tag or name + mode.replace("-", "") + ("asan" if "sanitize" in opt else "")
        out = "%s/%s" % (self.chk.dir, tag)
        env = fubuild.base_env("-w -I%s %s" % (HARNESS, opt), cxx)
        env["HOME"] = fubuild.mkhome("%s/home-%s" % (self.chk.dir, tag))
        env["fu_NUM_WORKER_THREADS"] = "2"
        rc, log = sh([self.fu, mode, "--notest", "--bin", out, src or "%s/%s.fu" % (self.d, name)], env=env, cwd=self.d, timeout=600)
        if rc != 0 or not os.path.exists(out):
            raise RuntimeError("driver %s does not compile (rc=%s):\n%s" % (tag, rc, log[-3500:]))
        return out

    def run(self, binary, args=(), seconds=200, shards=NCPU, split=2, env=None, note=""):
        """Runs one driver in shards; files the results. Returns an error or None."""
        chk = self.chk
        t = int(min(seconds, chk.left() - 10))
        if t < 5:
            chk.capped = True
            return None

        def one(i):
            e = dict(os.environ, FV_SHARD="%d/%d" % (i, shards), FV_SPLIT=str(split), FV_SECONDS=str(t),
                     ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:handle_segv=0:handle_abort=0:allocator_may_return_null=1",
                     UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1", fu_NUM_WORKER_THREADS="0", **(env or {}))
            wd = "%s/wd-%s-%d" % (chk.dir, os.path.basename(binary), i)
            os.makedirs(wd, exist_ok=True)
            return sh([binary] + list(map(str, args)), env=e, cwd=wd, timeout=t + 120)
        err = None
        tot = {}
        for i, (rc, out) in enumerate(pmap(one, range(shards), shards)):
            rs = parse_results(out)
            if not rs:
                err = "driver %s %s shard %d gave no result (rc=%s): %s" % (os.path.basename(binary), args, i, rc, out[-1500:])
                continue
            for r in rs:
                chk.add(r["distinct"], r["ops"], r["runs"])
                tot[r["label"]] = tot.get(r["label"], 0) + r["ops"]
                if r["capped"]:
                    chk.capped = True
                if i == 0:
                    chk.sample("%s: %s" % (r["label"], " ; ".join(s.strip().replace("\n", "; ") for s in r["samples"])[:400]), 16)
                if r["violated"]:
                    san = [l for l in out.splitlines() if "ERROR: AddressSanitizer" in l or "runtime error" in l]
                    chk.violation("%s: %s: %s" % (r["label"], r["msg"], r["trace"].replace("\n", "; ")),
                                  "%s: %s%s" % (r["label"], r["msg"], (" [" + san[0][:200] + "]") if san else ""),
                                  "history:\n%s\nviolated: %s\n\nreplay: FV_REPLAY=%s %s %s\n(drivers/, compiled by the compiler built from the tree) %s\n%s" % (
                                      r["trace"], r["msg"], r["path"], os.path.basename(binary), " ".join(map(str, args)), note, "\n".join(san[:3])))
        return err
