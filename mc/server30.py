"""The same questions asked from all sorts of places (C30).  As a program: answers them once for each context named."""
import atexit
import ctypes
import gc
import json
import os
import resource
import signal
import sys
import threading
import time
import weakref

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
BASE = os.getcwd()
NAN, INF = float("nan"), float("inf")
T4, V4 = [0.0, 1.0, 2.5, 3.0], [1.0, 3.0, -2.0, 0.5]
FILES = {
    "plain": "0 1.5\n1.25 3\n2.5 -0.125\n3 0.5\n", "commas": "#c\n0,1.5,0.1\n1.25,3,0.25\n2.5,nan,0.5\n3,NAN,1e-3\n",
    "groups": "1000 1500.25\n1.250E3 3.000\n2.500e3 -1.234567\n3,000 500\n12345.678 1.5\n", "long": "".join("%r %r\n" % (1.5 * i, (i * i % 17) / 8.0) for i in range(300)),
    "odd": "0 1.5x\n1,5 2\n2 3,4\n3.5.5 4\n4 5 6 7\n5 .5\n6. 7.\n+7 -8\n0x10 3\n9 inf\n",
}


def attempt(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__


def answers(folder, big=0):
    """what the package says; imports it if it has not been"""
    import sacf
    import sut
    out = []
    for kw in ({}, {"selection_function": "fast"}, {"weight_function": "gaussian", "alpha": 0.3}, {"selection_function": "fast", "weight_function": "fractional_squared", "max_lag": 1.7, "lag_resolution": 0.1},
               {"lag_resolution": 0.0}, {"max_lag": INF}, {"min_lag": 2.0, "max_lag": 1.0}, {"weight_function": "no"}, {"min_lag": "x"}):
        out.append(attempt(lambda: sut.SACF(T4, V4).autocorrelation(**kw)))
    s = sut.SACF([0, 2, 3, 7, 7.5], [[1.5, NAN, 2.0, 1e-300, 4], [0.1, 0.2, 0.3, 0.4, 1e17]], [[1.0] * 5, [0.5] * 5])
    r = s.autocorrelation(return_correlator=True)
    out.append([r[0], r[1], s.data.errors(), s.data.mean_data, s.data.median_time, r[2].alpha, r[2].lag_resolution])
    for n in sorted(FILES):
        def f():
            d = sut.DataStructure(os.path.join(folder, n))
            return [d.timeseries(), d.data(), d.errors(), attempt(lambda: sut.SACF(filename=os.path.join(folder, n)).autocorrelation(max_lag=3.0, lag_resolution=0.75))]
        out.append(attempt(f))
    out.append(attempt(lambda: sut.DataStructure(os.path.join(folder, "absent"))))
    out.append(attempt(lambda: sut.DataStructure([0.0, 1.0], [1.0])))
    out.append(attempt(lambda: sut.DataStructure([], [])))
    c = sut.Correlator(s.data)
    it = sut.step(c, 1.25, "fast", "gaussian")
    c.addCorrelationData(it, 2)
    out.append([c.lag_timeseries(), c.correlations(), list(it.selection_indices), list(it.weights)])
    if big:
        t = [float(i) for i in range(big)]
        x = [float(i % 1000) for i in range(big)]
        for sel in sut.SEL:
            out.append(sut.SACF(t, x).autocorrelation(min_lag=0.0, max_lag=1.0, lag_resolution=1.0, selection_function=sel))
    return out


# contexts: f(go) calls go() somewhere; what go() returned is what counts

def in_thread(go, size=0):
    r = []
    if size:
        threading.stack_size(size)
    t = threading.Thread(target=lambda: r.append(attempt(go)))
    t.start()
    t.join()
    return r[0]


def in_fork(go):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            b = json.dumps(attempt(go)).encode()
            while b:
                b = b[os.write(w, b):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    rc = os.waitpid(pid, 0)[1]
    return json.loads(buf.decode()) if buf else "the process ended with %d" % rc


def in_signal(go):
    r = []
    try:
        signal.signal(signal.SIGUSR1, lambda *a: r.append(attempt(go)))
    except ValueError:  # not in the main thread
        return attempt(go)
    os.kill(os.getpid(), signal.SIGUSR1)
    for _ in range(10 ** 6):
        if r:
            break
    return r[0]


class Finalized(object):
    def __init__(self, go, r):
        self.go, self.r = go, r

    def __del__(self):
        self.r.append(attempt(self.go))


def in_del(go):
    r = []
    Finalized(go, r)
    for _ in range(3000):
        if r:
            break
        gc.collect()
        time.sleep(0 if _ < 10 else 0.01)  # another thread may be running it
    return r[0]


def in_weakref(go):
    r = []
    o = set()
    w = weakref.ref(o, lambda x: r.append(attempt(go)))  # noqa
    del o
    for _ in range(3000):
        if r:
            break
        gc.collect()
        time.sleep(0 if _ < 10 else 0.01)  # another thread may be running it
    return r[0]


def in_generator(go):
    def g():
        try:
            yield 1
        finally:
            r.append(attempt(go))
    r = []
    i = g()
    next(i)
    i.close()
    return r[0]


def in_except(go):
    try:
        raise KeyError(1)
    except KeyError:
        return attempt(go)


def in_input(go):
    """while another data set is being made"""
    import sut
    r = []

    class N(object):
        def __float__(self):
            r.append(attempt(go))
            return 1.0
    sut.SACF(T4, [1.0, N(), 2.0, 3.0]).autocorrelation()
    return r[0]


def traced(go):
    def f(frame, ev, arg):
        return f
    sys.settrace(f)
    sys.setprofile(lambda *a: None)
    try:
        return attempt(go)
    finally:
        sys.settrace(None)
        sys.setprofile(None)


def no_gc(go):
    gc.disable()
    return attempt(go)


def no_stdio(go):
    for n in (0, 1, 2):
        try:
            os.close(n)
        except OSError:
            pass
    return attempt(go)


def at_exit(go):
    r, begun = [], []

    def f():
        if not begun:
            begun.append(1)
            r.append(attempt(go))
    atexit.register(f)
    atexit._run_exitfuncs()
    return r[0]


def elsewhere(go):
    os.chdir("/")
    return attempt(go)


def nowhere(go):
    gone = os.path.join(BASE, "gone%d" % os.getpid())
    try:
        os.makedirs(gone, exist_ok=True)
        os.chdir(gone)
        os.rmdir(gone)
    except OSError:
        pass  # as nobody
    return attempt(go)


def c_locale(n):
    def f(go):
        import locale
        locale.setlocale(locale.LC_ALL, n)
        return attempt(go)
    return f


def cxx_locale(n):
    def f(go):
        if not ctypes.CDLL(None).probe_locale(n.encode()):
            return None
        return attempt(go)
    return f


def streams(go):
    ctypes.CDLL(None).probe_streams(1)
    return attempt(go)


def few_files(go):
    n = max(int(x) for x in os.listdir("/proc/self/fd"))
    resource.setrlimit(resource.RLIMIT_NOFILE, (n + 8, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
    return attempt(go)


def nobody(go):
    """without any privileges: reading is all that is allowed"""
    import sut  # noqa
    if os.getuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    return attempt(go)


def no_writing(go):
    ctypes.CDLL(None).signal(signal.SIGXFSZ, ctypes.c_void_p(1))  # ignored
    resource.setrlimit(resource.RLIMIT_FSIZE, (0, 0))
    return attempt(go)


def twice(go):
    attempt(go)
    return attempt(go)


def crowd(go):
    r = [None] * 4

    def f(i):
        r[i] = attempt(go)
    ts = [threading.Thread(target=f, args=(i,)) for i in range(4)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    for x in r:
        if x != r[0]:
            return x
    return r[0]


CONTEXTS = {
    "here": attempt, "thread": in_thread, "small thread": lambda go: in_thread(go, 2 << 20), "fork": in_fork, "signal": in_signal, "finalizer": in_del, "weakref": in_weakref, "generator": in_generator,
    "except": in_except, "input": in_input, "traced": traced, "no gc": no_gc, "no stdio": no_stdio, "exit": at_exit, "elsewhere": elsewhere, "nowhere": nowhere,
    "C german": c_locale("de_DE.UTF-8"), "C turkish": c_locale("tr_TR.UTF-8"), "C persian": c_locale("fa_IR.UTF-8"),
    "C++ german": cxx_locale("de_DE.UTF-8"), "C++ turkish": cxx_locale("tr_TR.UTF-8"), "C++ persian": cxx_locale("fa_IR.UTF-8"),
    "streams": streams, "few files": few_files, "no writing": no_writing, "nobody": nobody, "twice": twice, "crowd": crowd,
}


def nested(names, folder, big=0):
    """the contexts, from the outermost"""
    if not names:
        return answers(folder, big)
    return CONTEXTS[names[0]](lambda: nested(names[1:], folder, big))


def main():
    folder, first = sys.argv[1], sys.argv[2].split(",")
    for m in first:  # what is imported, in this order
        if m == "thread":
            in_thread(lambda: __import__("sacf"))
        elif m:
            __import__(m)
    r = {}
    for names in json.loads(sys.argv[3]):
        r["/".join(names)] = in_fork(lambda: nested(names, folder)) if names != ["here"] else nested(names, folder)
    sys.stdout.write(json.dumps(r))


if __name__ == "__main__":
    main()
