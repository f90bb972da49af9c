"""Builds variants of the package from /repo's working tree, outside /repo.

A build is keyed by the content of everything that goes into it, so a cached
build can never be used for another tree.
"""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SACF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")
PYPY = "/opt/venv-pypy/bin/python"
INC = "-I/usr/include/pypy3.9"
COMPAT = "%s -include %s" % (INC, os.path.join(VERIF, "shim", "pypy_compat.h"))
SAN = ("-fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS"
       " -D_GLIBCXX_SANITIZE_VECTOR -fno-omit-frame-pointer -g1")

# name -> (CXXFLAGS, needs --wrap link, debug build)
VARIANTS = {
    # what /opt/vp/build.sh makes: Release
    "plain": (COMPAT, False, False),
    # as upstream compiles it: Correlator.cpp does not see any Python header
    "portable": (INC + " -include cstdint", True, False),
    # no optimisation, checked containers
    "checked": (COMPAT + " -O0 -D_GLIBCXX_ASSERTIONS", False, True),
    # another compiler; automatic variables start out as garbage
    "clang": (COMPAT + " -include %s -O2 -ftrivial-auto-var-init=pattern" % os.path.join(VERIF, "shim", "needs_clang.h"), False, False),
    # every load and store calls a hook, where C20 can switch threads (should the code ever release the interpreter lock)
    "racing": (COMPAT + " -include %s -O1 -g1 -fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores" % os.path.join(VERIF, "shim", "needs_clang.h"), False, True),
    # address + undefined behaviour sanitizer, checked containers, annotated vectors
    "asan": (COMPAT + " -O1 " + SAN, False, True),
}


def tree_files():
    out = []
    for top in ("sacf",):
        for d, dirs, files in os.walk(os.path.join(REPO, top)):
            dirs[:] = sorted(x for x in dirs if x not in ("__pycache__", "docs", "tests", ".git"))
            for f in sorted(files):
                if f.endswith((".so", ".pyc")):
                    continue
                p = os.path.join(d, f)
                if os.path.isfile(p):
                    out.append(os.path.relpath(p, REPO))
    out.append("setup.py")
    return out


def tree_hash(files):
    h = hashlib.sha256()
    for f in files:
        h.update(f.encode() + b"\0")
        with open(os.path.join(REPO, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    for f in ("shim/pypy_compat.h", "shim/wrap_run_string.c", "shim/needs_clang.h", "mc/build.py"):
        with open(os.path.join(VERIF, f), "rb") as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()[:20]


def san_preload():
    def lib(n):
        return subprocess.check_output(["g++", "-print-file-name=" + n], text=True).strip()
    return " ".join(lib(n) for n in ("libasan.so", "libubsan.so", "libstdc++.so"))


def build(variant, log=sys.stderr):
    """Returns the directory to put on PYTHONPATH; raises RuntimeError if it cannot be built."""
    files = tree_files()
    key = "%s-%s" % (variant, tree_hash(files))
    base = os.path.join(CACHE, "builds")
    dest = os.path.join(base, key)
    if os.path.exists(os.path.join(dest, "OK")):
        os.utime(dest)
        return dest
    os.makedirs(base, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=key + ".", dir=base)
    try:
        for f in files:
            os.makedirs(os.path.dirname(os.path.join(tmp, f)), exist_ok=True)
            shutil.copyfile(os.path.join(REPO, f), os.path.join(tmp, f))
        for f in os.listdir(os.path.join(REPO, "sacf", "include", "pybind11")):
            if f == "tests":  # its CMakeLists mentions it; not built
                os.makedirs(os.path.join(tmp, "sacf", "include", "pybind11", "tests"), exist_ok=True)
        flags, wrap, debug = VARIANTS[variant]
        env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "LDFLAGS", "CXXFLAGS", "LD_PRELOAD", "PYTHONPATH")}
        env.update(CXXFLAGS=flags, HOME="/tmp", LANG="C.UTF-8", PYTHONDONTWRITEBYTECODE="1")
        if "needs_clang" in flags:
            # setup.py takes whatever `which g++` finds
            bin_ = os.path.join(tmp, "bin")
            os.makedirs(bin_)
            for name, real in (("g++", "clang++"), ("gcc", "clang")):
                with open(os.path.join(bin_, name), "w") as fh:
                    fh.write('#!/bin/sh\nexec %s "$@"\n' % shutil.which(real))
                os.chmod(os.path.join(bin_, name), 0o755)
            env.update(CC="clang", CXX="clang++", PATH=bin_ + os.pathsep + env["PATH"])
        if wrap:
            o = os.path.join(tmp, "wrap.o")
            subprocess.check_call(["gcc", "-fPIC", "-O1", "-c", os.path.join(VERIF, "shim", "wrap_run_string.c"), "-o", o])
            env["LDFLAGS"] = "-Wl,--wrap=PyPyRun_String " + o
        cmd = [PYPY, "setup.py", "build_ext", "--inplace"] + (["--debug"] if debug else [])
        r = subprocess.run(cmd, cwd=tmp, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            log.write(r.stdout[-4000:])
            raise RuntimeError("building variant %s failed" % variant)
        shutil.rmtree(os.path.join(tmp, "build"), ignore_errors=True)
        shutil.rmtree(os.path.join(tmp, "sacf", "include"), ignore_errors=True)
        open(os.path.join(tmp, "OK"), "w").close()
        try:
            os.rename(tmp, dest)
        except OSError:
            if not os.path.exists(os.path.join(dest, "OK")):
                raise
        # keep the cache small
        olds = sorted((os.path.join(base, d) for d in os.listdir(base) if os.path.exists(os.path.join(base, d, "OK"))),
                      key=os.path.getmtime)
        for d in olds[:-24]:
            shutil.rmtree(d, ignore_errors=True)
        return dest
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build_shim(name="iofault"):
    """A LD_PRELOAD library: iofault decides what read() and open() answer (C15), sched which thread runs (C20),
    allocfault which allocation fails (C26)."""
    src = os.path.join(VERIF, "shim", name + ".c")
    cxx = not os.path.exists(src)
    if cxx:
        src += "pp"
    with open(src, "rb") as fh:
        key = hashlib.sha256(fh.read()).hexdigest()[:16]
    so = os.path.join(CACHE, "%s-%s.so" % (name, key))
    if not os.path.exists(so):
        os.makedirs(CACHE, exist_ok=True)
        tmp = "%s.%d" % (so, os.getpid())
        subprocess.check_call(["g++" if cxx else "gcc", "-shared", "-fPIC", "-O1", "-o", tmp, src] + (["-std=c++17"] if cxx else []) + ["-ldl", "-lpthread"])
        os.rename(tmp, so)
    return so


if __name__ == "__main__":
    for v in sys.argv[1:] or ["plain"]:
        print(build(v))
