"""What a process looks like from outside and inside (C29), and ways to change it (C29, C30)."""
import ctypes
import gc
import os
import random
import resource
import signal
import subprocess
import sys
import threading
import warnings

LIB = ctypes.CDLL(None)
BUF = ctypes.create_string_buffer(8192)
LOCALES = ("de_DE", "tr_TR", "fa_IR")


def ctext(f):
    f(BUF, 8192)
    return BUF.value.decode(errors="replace")


def tree(top="."):
    out = []
    for d, dirs, files in os.walk(top):
        dirs.sort()
        for n in sorted(dirs + files):
            p = os.path.join(d, n)
            st = os.lstat(p)
            body = b""
            if n in files:
                with open(p, "rb") as fh:
                    body = fh.read()
            out.append((p, st.st_mode, st.st_mtime_ns if n in files else 0, st.st_nlink, st.st_uid, body))
    return out


def fds():
    out = []
    for n in sorted(os.listdir("/proc/self/fd"), key=int):
        try:
            out.append((n, os.readlink("/proc/self/fd/" + n)))
        except OSError:
            pass
    return out


def status():
    with open("/proc/self/status") as fh:
        return [l.strip() for l in fh if l.startswith(("Name", "Umask", "Uid", "Gid", "Groups", "Threads", "SigBlk", "SigIgn", "SigCgt", "Cap", "NoNewPrivs", "Seccomp", "Cpus_allowed:"))]


def actions():
    out = []
    for s in range(1, 32):
        b = ctypes.create_string_buffer(152)
        if LIB.sigaction(s, None, b) == 0:
            out.append((s, b.raw[:16], b.raw[136:140]))  # handler, mask, flags
    return out


def children():
    try:
        return os.waitpid(-1, os.WNOHANG)
    except OSError as e:
        return e.errno


def state():
    """(name, value) of all that is looked at; nothing here may be changed by a call"""
    for f in (sys.stdout, sys.stderr):
        try:
            f.flush()
        except Exception:
            pass
    c = ctext(LIB.probe_state)
    environ = ctypes.POINTER(ctypes.c_char_p).in_dll(LIB, "environ")
    env = []
    i = 0
    while environ[i] is not None:
        env.append(environ[i])
        i += 1
    import sacf.sacf as m
    return [
        ("process state", c), ("status", status()), ("signal actions", actions()), ("descriptors", fds()), ("environment", sorted(env)), ("os.environ", sorted(os.environ.items())),
        ("folder", os.getcwd()), ("children", children()), ("priority", os.nice(0)), ("timers", [signal.getitimer(t)[1] for t in (signal.ITIMER_REAL, signal.ITIMER_VIRTUAL, signal.ITIMER_PROF)]),
        ("limits", [resource.getrlimit(getattr(resource, r)) for r in sorted(dir(resource)) if r.startswith("RLIMIT_")]),
        ("group", (os.getpgrp(), os.getsid(0))),
        ("standard output", os.fstat(1).st_size), ("standard error", os.fstat(2).st_size), ("files", tree()),
        ("arithmetic", repr([1e-310 / 3, 5e-324 * 3, 1.0 + 2.0 ** -53, -1.0 - 2.0 ** -53, 1e308 * float(len(sys.argv) * 0 + 10), 1.0 / (len(sys.argv) * 0 + 3)])),
        ("interpreter", [sys.getrecursionlimit(), gc.isenabled(), sys.gettrace(), sys.getprofile(), sys.excepthook, sys.displayhook, list(sys.path), list(sys.meta_path), len(sys.path_hooks), list(sys.argv),
                         sys.stdout, sys.stderr, sys.stdin, sys.getfilesystemencoding(), sys.dont_write_bytecode, threading.active_count(), threading.stack_size()]),
        ("handlers", [signal.getsignal(s) for s in range(1, 32)]), ("warnings", list(warnings.filters)), ("random", hash(random.getstate())),
        ("builtins", sorted(vars(__builtins__ if not isinstance(__builtins__, dict) else sys.modules["builtins"]))),
        ("functions", [sorted((k, id(v)) for k, v in getattr(m, n, {}).items()) for n in ("SELECTION_FUNCTIONS", "WEIGHT_FUNCTIONS")]),
    ]


def differs(a, b):
    for (n, x), (_, y) in zip(a, b):
        if x != y:
            if isinstance(x, str):
                d = [p for p in zip(x.split("\n"), y.split("\n")) if p[0] != p[1]][:3]
                return "%s: %r" % (n, d)
            if isinstance(x, list):
                return "%s: %.300r became %.300r" % (n, [v for v in x if v not in y], [v for v in y if v not in x])
            return "%s: %.300r became %.300r" % (n, x, y)
    return None


def make_locales(folder):
    """locales with another decimal point, for LOCPATH"""
    made = []
    for n in LOCALES:
        p = os.path.join(os.path.abspath(folder), n + ".UTF-8")
        env = {k: v for k, v in os.environ.items() if k != "LD_PRELOAD"}
        if not os.path.exists(p) and os.path.exists("/usr/bin/localedef"):
            os.makedirs(os.path.dirname(p), exist_ok=True)
            subprocess.call(["localedef", "-c", "-i", n, "-f", "UTF-8", p], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        if os.path.exists(os.path.join(p, "LC_NUMERIC")):
            made.append(n + ".UTF-8")
    os.environ["LOCPATH"] = os.path.abspath(folder)
    return made
