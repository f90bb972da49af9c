"""C29: calls leave the process and everything outside as they were."""
import copy
import gc
import itertools
import os
import pickle
import signal
import subprocess
import sys
import threading
import time
import probe
import sut
from engine import Space, check

ID = "C29"
NAN = float("nan")
INF = float("inf")
T4, V4 = [0.0, 1.0, 2.5, 3.0], [1.0, 3.0, -2.0, 0.5]
FILES = {"good": "#c\n0,1.5\n1,3\n2.5,nan\n3,0.5\n", "errors": "0 1.5 0.1\n1 3 0.25\n2.5 2 0.5\n", "empty": "", "text": "no numbers\nat all, 1\n", "binary": "\x00\x01\xff\n1 2\n3 4\n", "ends": "0 1\n1 2\n2"}


class Odd(object):
    def __float__(self):
        raise RuntimeError("not a number")


def analysis(**kw):
    def f(st):
        st["r"] = st["s"].autocorrelation(**kw)
    return f


def make(*a, **kw):
    def f(st):
        st["s"] = sut.SACF(*a, **kw)
    return f


def steps(sel, wf, k=0.5):
    def f(st):
        c = sut.Correlator(st["s"].data)
        st["c"] = c
        it = sut.step(c, k, sel, wf)
        c.addCorrelationData(it, 3)
        c.correlations(), c.lag_timeseries(), c.values(), c.normalised_timeseries()
    return f


def wrong_steps(st):
    c = sut.Correlator(st["s"].data)
    it = sut.CorrelationIterator(0.5, 0)
    for f in (lambda: c.findCorrelation(it), lambda: c.deltaT(it), lambda: c.naturalSelectionFunctionIdx(it), lambda: c.deltaT(it), lambda: c.findCorrelation(it), lambda: c.addCorrelationData(it, -1), lambda: c.addCorrelationData(None, 0), lambda: c.cleanCorrelationData(-1)):
        try:
            f()
        except Exception:
            pass


def show(st):
    for o in list(st.values()):
        repr(o), str(o), dir(o), hash(id(o)), o == o


def look(st):
    d = st["s"].data
    d.timeseries(), d.data(), d.errors(), d.normalised_timeseries(), d.normalised_data(), d.mean_data, d.median_time, d.max_time, d.N_datasets, d.M_datapoints


def drop(st):
    st.pop("r", None), st.pop("c", None)
    st["s"] = sut.SACF(T4, V4)
    for _ in range(3):
        gc.collect()


def copies(st):
    for p in range(3):
        pickle.loads(pickle.dumps(st["s"], p))
    copy.copy(st["s"].data), copy.deepcopy(st.get("c"))


def threaded(st):
    def f():
        try:
            analysis(selection_function="fast")(st)
        except Exception:
            pass
    t = threading.Thread(target=f)
    t.start()
    t.join()


OPS = {
    "new": make(T4, V4), "errors": make(T4, V4, [0.1, 0.2, 0.3, 0.4]), "many": make(T4, [V4, [NAN, 1.0, 2.0, 9.0]], [[1.0] * 4, [NAN] * 4]),
    "constant": make(T4, [2.0] * 4), "missing": make(T4, [NAN] * 4), "huge": make(T4, [1e300, -1e308, 1e308, INF]), "tiny": make([0.0, 5e-324, 1e-310, 1e-300], [1e-320, 1.0, 2.0, 1e-310]), "one": make([3.0], [[1.0]]), "ints": make((0, 1, 2, 4), (True, 2, 3, 4)),
    "large": make([0.1 * i for i in range(3000)], [float(i % 7) for i in range(3000)]),
    "ragged": make(T4, [V4, [1.0]]), "empty": make([], []), "none": make(None, None), "nothing": make(), "words": make(["a"], ["b"]), "odd": make(T4, [1.0, Odd(), 2.0, 3.0]), "unordered": make([2.0, 1.0, 0.0], [1.0, 2.0, 3.0]),
    "f good": make(filename="data/good"), "f errors": make(filename="data/errors"), "f ends": make(filename="data/ends"), "f empty": make(filename="data/empty"), "f text": make(filename="data/text"), "f binary": make(filename="data/binary"), "f absent": make(filename="data/absent"), "f folder": make(filename="data"), "f null": make(filename="/dev/null"), "f nul": make(filename="data/go\0od"), "f long": make(filename="x" * 5000),
    "std": analysis(), "corr": analysis(return_correlator=True), "fast": analysis(selection_function="fast"), "gauss": analysis(weight_function="gaussian", alpha=1e-200), "frac2": analysis(selection_function="fast", weight_function="fractional_squared", max_lag=1.0, lag_resolution=0.25),
    "none in range": analysis(min_lag=1.0, max_lag=0.0), "alpha 0": analysis(alpha=0.0), "res 0": analysis(lag_resolution=0.0), "inf": analysis(max_lag=INF), "nan": analysis(min_lag=NAN, weight_function="gaussian"), "type": analysis(min_lag="x"), "name": analysis(weight_function="no"), "sel name": analysis(selection_function=7),
    "steps": steps("natural", "gaussian"), "steps far": steps("fast", "fractional", -1e300), "steps nan": steps("natural", "fractional_squared", NAN), "wrong steps": wrong_steps,
    "show": show, "look": look, "drop": drop, "copies": copies, "thread": threaded,
}

FEW = ["new", "many", "constant", "huge", "odd", "f good", "f text", "f absent", "std", "fast", "gauss", "inf", "type", "steps", "wrong steps", "drop"]


def round_to(mode):
    return lambda: probe.LIB.probe_rounding(mode)


def c_locale(n):
    def f():
        import locale
        locale.setlocale(locale.LC_ALL, n)
    return f


def ignoring():
    for s in (signal.SIGPIPE, signal.SIGFPE, signal.SIGINT, signal.SIGUSR1):
        signal.signal(s, signal.SIG_IGN)
    signal.signal(signal.SIGTERM, lambda *a: None)
    signal.pthread_sigmask(signal.SIG_BLOCK, [signal.SIGUSR2, signal.SIGSEGV])


def interpreter():
    sys.setrecursionlimit(4321)
    gc.disable()
    sys.excepthook = lambda *a: None
    os.umask(0o077)
    os.nice(1)
    import random
    random.seed(5)
    import resource
    resource.setrlimit(resource.RLIMIT_NOFILE, (99, 100))


STARTS = {
    "plain": lambda: None, "german": c_locale("de_DE.UTF-8"), "turkish": c_locale("tr_TR.UTF-8"),
    "C++ german": lambda: probe.LIB.probe_locale(b"de_DE.UTF-8"), "up": round_to(0x800), "to zero": round_to(0xc00), "flush": lambda: probe.LIB.probe_flush_to_zero(), "streams": lambda: probe.LIB.probe_streams(1),
    "signals": ignoring, "interpreter": interpreter, "handler": lambda: probe.LIB.probe_handler(),
}


def setup(tier):
    made = probe.make_locales("loc")
    for n, s in (("german", "de_DE.UTF-8"), ("C++ german", "de_DE.UTF-8"), ("turkish", "tr_TR.UTF-8")):
        if s not in made:
            STARTS.pop(n)
    os.makedirs("room/data")
    for n, s in FILES.items():
        with open("room/data/" + n, "w") as fh:
            fh.write(s)


def forked(f):
    """in a child, which ends without running anything else"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            try:
                s = f()
            except BaseException as e:
                s = "!%s: %s" % (type(e).__name__, e)
            os.write(w, ("=" + (s or ""))[:8000].encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    rc = os.waitpid(pid, 0)[1]
    if not buf:
        return "the process ended with %d" % rc
    return buf.decode()[1:]


def perform(op, st):
    try:
        OPS[op](st)
    except Exception:
        pass


def play(start, seqs):
    """None or what changed; standard output and error go to files"""
    os.chdir("room")
    o = os.open("../out%d" % os.getpid(), os.O_RDWR | os.O_CREAT | os.O_TRUNC)
    os.dup2(o, 1)
    os.dup2(o, 2)
    os.close(o)
    os.unlink("../out%d" % os.getpid())
    threaded({"s": sut.SACF(T4, V4)})  # whatever the first use and the first thread set up
    STARTS[start]()
    import sacf  # noqa
    before = probe.state()
    before = probe.state()
    n = 0
    for seq in seqs:
        st = {"s": sut.SACF(T4, V4)}
        probe.LIB.probe_arm(1)
        for op in seq:
            perform(op, st)
        del st
        probe.LIB.probe_arm(0)
        ev = probe.ctext(probe.LIB.probe_events)
        if ev:
            return "%s, %r: calls of %s" % (start, seq, ev.strip().replace("\n", ", "))
        for _ in range(40):
            d = probe.differs(before, probe.state())
            if not d:
                break
            time.sleep(0.05)  # a thread is not gone as soon as it has been joined
        if d:
            if "ignored in" in d:
                d += os.pread(2, 300, 0).decode()
            return "%s, %r: %s; written: %r" % (start, seq, d, os.pread(1, 300, 0).decode(errors="replace"))
        n += 1
    return None


def histories(case, ctx):
    start, first, rest = case
    if start not in STARTS:
        ctx.skipped += 1
        return
    seqs = [first + list(r) for r in (itertools.product(OPS if rest == "all" else FEW, repeat=1) if rest else [()])]
    msg = forked(lambda: play(start, seqs))
    check(not msg, "%s", msg)
    ctx.states += len(seqs)
    ctx.transitions += sum(len(s) for s in seqs)
    ctx.traces += len(seqs)
    ctx.outcome((start, tuple(first)))


CHILD = """
import ctypes, os, sys
sys.path[:0] = [%r]
import probe
a = (probe.ctext(probe.LIB.probe_state), probe.status(), probe.actions(), probe.fds(), probe.tree("."), os.getcwd(), sys.getrecursionlimit(), sys.excepthook, list(os.environ.items()))
probe.LIB.probe_arm(1)
import sacf
probe.LIB.probe_arm(0)
ev = probe.ctext(probe.LIB.probe_events)
b = (probe.ctext(probe.LIB.probe_state), probe.status(), probe.actions(), probe.fds(), probe.tree("."), os.getcwd(), sys.getrecursionlimit(), sys.excepthook, list(os.environ.items()))
d = [(x, y) for x, y in zip(a, b) if x != y]
with open(sys.argv[1], "w") as fh:
    if d or ev:
        fh.write("importing: %%.600r %%s" %% (d, ev))
os.chdir(os.path.dirname(sys.argv[1]))
from props import c29
os.chdir("room")
st = {"s": c29.sut.SACF(c29.T4, c29.V4)}
for op in sys.argv[2:]:
    c29.perform(op, st)
"""


def whole(case, ctx):
    """a process that imports the package, does this and ends: what it writes and how it ends"""
    import tempfile
    with tempfile.NamedTemporaryFile(dir=".") as fh:
        env = dict(os.environ)
        r = subprocess.run([sys.executable, "-c", CHILD % os.path.dirname(os.path.abspath(probe.__file__)), os.path.abspath(fh.name)] + case, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, env=env, cwd="room")
        msg = fh.read().decode() if os.path.exists(fh.name) else ""
    check(not msg, "%s", msg)
    check(r.returncode == 0, "a process doing %r ends with %d: %s", case, r.returncode, r.stderr[-600:].decode(errors="replace"))
    check(not r.stdout and not r.stderr, "a process doing %r writes %r %r", case, r.stdout[:300], r.stderr[:300])
    ctx.states += 1
    ctx.transitions += len(case)
    ctx.traces += 1
    ctx.outcome(tuple(case))


def SPACES(tier):
    big = tier == "thorough"

    def singles():
        for start in STARTS:
            for op in OPS:
                yield [start, [op], ""]

    def pairs():
        for start in STARTS:
            for op in OPS if start == "plain" or big else FEW:
                yield [start, [op], "all" if start == "plain" or big else "few"]

    def triples():
        for start in STARTS if big else ("plain",):
            for a, b in itertools.product(FEW, repeat=2):
                yield [start, [a, b], "few"]

    def ends():
        yield []
        for op in OPS:
            yield [op]
        for a, b in itertools.product(FEW, repeat=2) if big else ():
            yield [a, b]

    return [
        Space("singles", singles, histories, "each of %d operations (refused and failing ones included) from %d states of the process (locales, rounding modes, stream formats, signals, limits, handlers)" % (len(OPS), len(STARTS))),
        Space("whole", ends, whole, "processes that import the package, do an operation and end"),
        Space("pairs", pairs, histories, "all pairs of operations in the plain state, of %d in the others" % len(FEW)),
        Space("triples", triples, histories, "all triples of %d operations" % len(FEW)),
    ]
