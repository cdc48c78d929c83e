"""Builds the Fu compiler from a working tree (default /repo) the way /opt/vp/build.sh does.

Products go to REPO/_build (git-ignored there); with an existing ccache the
unchanged tree builds in seconds, any change is compiled for real (ccache keys
on preprocessed content)."""
import fcntl
import filecmp
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FUV_REPO", "/repo").rstrip("/")
SCRATCH_BASE = os.environ.get("FUV_SCRATCH", VERIF + "/.build")
B = SCRATCH_BASE + "/_fu"        # everything built lives here
T = B + "/fu"                    # mirror of REPO's src, lib, include + bin/
SHIM = B + "/shim"
SHIM_TEXT = """#!/bin/sh
[ -n "$CCACHE_DIR" ] && exec /usr/bin/ccache /usr/bin/${FV_CXX:-g++} "$@" $FV_OPT
exec /usr/bin/${FV_CXX:-g++} "$@" $FV_OPT
"""


class BuildError(Exception):
    pass


def base_env(opt="", cxx="g++"):
    """opt: flags appended to every C++ compilation that the Fu compiler starts ("" = as the compiler asks)."""
    env = dict(os.environ)
    env["PATH"] = SHIM + ":/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    env["LANG"] = env["LC_ALL"] = "C.UTF-8"
    for k in ("fu_NUM_WORKER_THREADS", "CCACHE_DISABLE"):
        env.pop(k, None)
    env["FU_ROOT"] = T + "/"
    env["TMPDIR"] = B + "/tmp"
    env["CCACHE_DIR"] = B + "/ccache"
    env["CCACHE_MAXSIZE"] = "3G"
    env["CCACHE_COMPILERCHECK"] = "content"
    env["FV_OPT"] = opt
    env["FV_CXX"] = cxx
    return env


def _files(root, top):
    out = set()
    for d, _, names in os.walk(os.path.join(root, top)):
        for n in names:
            p = os.path.join(d, n)
            if os.path.isfile(p):
                out.add(os.path.relpath(p, root))
    return out


def sync(src=REPO, dst=None, dirs=("src", "lib", "include")):
    dst = dst or T
    for top in dirs:
        a, b = _files(src, top), _files(dst, top)
        for f in b - a:
            os.remove(os.path.join(dst, f))
        for f in a:
            s, d = os.path.join(src, f), os.path.join(dst, f)
            if f not in b or not filecmp.cmp(s, d, shallow=False):
                os.makedirs(os.path.dirname(d), exist_ok=True)
                shutil.copyfile(s, d)


def _run(cmd, env, cwd, log):
    r = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    log.append(r.stdout.decode("utf8", "replace"))
    return r.returncode


def mkhome(path):
    for d in ("cpp", "obj", "bin", "out", "tmp"):
        os.makedirs(path + "/.fu/cache/" + d, exist_ok=True)
    return path


def build():
    """Returns the path of the compiler built from REPO's working tree (retail mode; the C++ compiler's
    optimiser is off, which only makes it slower)."""
    t0 = time.time()
    for d in (T + "/bin", B + "/tmp", B + "/ccache", B + "/home-build", SHIM):
        os.makedirs(d, exist_ok=True)
    with open(B + "/verif.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(SHIM + "/g++", "w") as f:
            f.write(SHIM_TEXT)
        os.chmod(SHIM + "/g++", 0o755)
        sync()
        env = base_env("-O0 -g0 -w")
        env["HOME"] = mkhome(B + "/home-build")
        log = []
        for f in ("bin/fu.bootstrap", "bin/bootstrap.o", "bin/fu"):
            if os.path.exists(T + "/" + f):
                os.remove(T + "/" + f)
        benv = dict(env, FV_CXX="clang++")
        rc = _run(["bash", "-c", "g++ --std=c++17 -I include -Dfu_UNITY_FULIB -c -o bin/bootstrap.o src/cli.fu.unity.cpp"
                   " && g++ -o bin/fu.bootstrap bin/bootstrap.o -ldl -pthread"], benv, T, log)
        if rc:      # the way the repository's own build does it
            rc = _run(["bash", "-c", "g++ --std=c++17 -Og -g -I include -Dfu_UNITY_FULIB -c -o bin/bootstrap.o src/cli.fu.unity.cpp"
                       " && g++ -o bin/fu.bootstrap bin/bootstrap.o -ldl -pthread"], dict(env, FV_OPT=""), T, log)
        if rc:
            raise BuildError("bootstrap does not compile:\n" + log[-1][-4000:])
        shutil.rmtree(T + "/build-cpp", ignore_errors=True)
        rc = _run(["bin/fu.bootstrap", "--bin", T + "/bin/fu", T + "/src/cli.fu"], env, T, log)
        if rc or not os.path.exists(T + "/bin/fu"):
            raise BuildError("the compiler does not build:\n" + log[-1][-4000:])
    print("built %s in %.1fs" % (T + "/bin/fu", time.time() - t0), flush=True)
    return T + "/bin/fu"


if __name__ == "__main__":
    try:
        build()
    except BuildError as e:
        print(e)
        sys.exit(2)
