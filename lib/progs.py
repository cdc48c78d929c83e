"""Enumeration of Fu programs: batches of generated programs compiled by the compiler built from the tree and run.

A batch is a list of (key, body): body is Fu source of expression/statement text that calls `ok(cond, key)` etc."""
from drv import *  # noqa


class Progs(Drivers):
    n = 0

    def build_run(self, name, src, mode="--debug", opt=" -O0", cxx="g++", timeout=240, args=(), env=None, files=None):
        """Compiles and runs one program. Returns (stage, rc, output); stage is 'compile' or 'run'."""
        d = "%s/p/%s" % (self.chk.dir, name)
        os.makedirs(d, exist_ok=True)
        with open(d + "/main.fu", "wb") as f:
            f.write(src if isinstance(src, bytes) else src.encode())
        for k, v in (files or {}).items():
            os.makedirs(os.path.dirname(d + "/" + k), exist_ok=True)
            with open(d + "/" + k, "wb") as f:
                f.write(v if isinstance(v, bytes) else v.encode())
        e = fubuild.base_env("-w" + opt, cxx)
        e["HOME"] = fubuild.mkhome(d + "/home")
        e["fu_NUM_WORKER_THREADS"] = "2"
        e.update(env or {})
        out = d + "/out"
        rc, log = sh([self.fu, mode, "--notest", "--bin", out, d + "/main.fu"], env=e, cwd=d, timeout=timeout)
        if rc != 0 or not os.path.exists(out):
            return "compile", rc, log
        e["fu_NUM_WORKER_THREADS"] = "0"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1"
        rc, log = sh([out] + list(args), env=e, cwd=d, timeout=timeout)
        shutil.rmtree(d, ignore_errors=True)
        return "run", rc, log
