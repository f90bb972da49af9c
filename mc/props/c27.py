"""C27: everything a call takes is given back.

A history of calls is repeated 2, 4, 8, ... times; at each of these points everything is collected and counted: blocks and
bytes the extensions hold from operator new (shim/allocfault.cpp, preloaded), objects of the Python heap, what lists,
dictionaries and sets hold, open files.  Something that grows from point to point, every time, is not given back.
What is kept once (caches of a fixed size, registrations) is not reported.
"""
import copy
import ctypes
import gc
import itertools
import json
import os
import pickle
import sys
import weakref
import sut
from engine import Space, check
from props import c26

ID = "C27"
NAN = float("nan")
LIB = None
FILES = {
    "good": "#t\n0,1,0.1\n1,2,0.1\n2.5,-1,0.1\n3,0.5,0.1\n",
    "short": "0 1\n1 2\n2.5 -1\n",
    "empty": "",
    "text": "time value\nx y\n",
    "errors": "0 1 0.1\n1 2\n2.5 -1 0.2\n",
}


def setup(tier):
    global LIB
    c26.setup(tier)
    LIB = c26.LIB
    for name, text in FILES.items():
        with open("c27-" + name, "w") as fh:
            fh.write(text)
    usage()


class Values(list):
    """a list that can be watched"""


NAMES = ("blocks", "bytes", "objects", "entries of lists, dictionaries and sets", "open files")


def usage():
    for _ in range(3):
        gc.collect()
    out = (ctypes.c_long * 2)()
    objs = gc.get_objects()
    held = 0
    n = len(objs)
    for x in objs:
        c = type(x)
        if c is list or c is dict or c is set:
            held += len(x)
    del objs, x
    LIB.allocfault_live(out)
    return [out[0], out[1], n, held, len(os.listdir("/proc/self/fd"))]


def grows(points, reps):
    """names of what grew from each point to the next, in proportion (a vector that doubles grows in steps: 4 bytes for 8)"""
    bad = []
    for i, name in enumerate(NAMES):
        v = [p[i] for p in points]
        if all(b - a >= r * (4 if i == 1 else 1) for a, b, r in zip(v, v[1:], reps[1:])):
            bad.append("%s %s" % (name, v))
    return bad


def watch(run, reps, what):
    """run() repeatedly: nothing may grow"""
    points = []
    for r in reps:
        for i in range(r):
            run()
            if i % reps[0] == reps[0] - 1 and i + 1 < r:  # so that as much as before waits for the collector
                gc.collect()
                gc.collect()
        points.append(usage())
    bad = grows(points[1:], reps[1:])
    check(not bad, "%s: repeated %r times, there remain more and more %s", what, list(itertools.accumulate(reps))[1:], "; ".join(bad))


# operations on a state: ds, sacf, c (correlator), it (iterator), r (result)
T = [0.0, 1.0, 2.5, 3.0]
X = [1.0, 3.0, -2.0, 0.5]


def quiet(f):
    def op(s):
        try:
            f(s)
        except (AssertionError, Mistake):
            raise
        except Exception:
            pass
    return op


class Mistake(Exception):
    pass


def refused(f):
    def op(s):
        try:
            f(s)
        except Exception:
            return
        # what is refused is the concern of other properties
    return op


def d1(s):
    s["ds"] = sut.DataStructure(T, X)


def d1e(s):
    s["ds"] = sut.DataStructure(Values(T), Values(X), Values([0.1, 0.2, NAN, 0.4]))


def d2(s):
    s["ds"] = sut.DataStructure((0.0, 0.5, 2.0), [[1.0, NAN, 3.0], (4.0, 5.0, 9.0)])


def d2e(s):
    s["ds"] = sut.DataStructure(T, [X, X, X], [X, X, X])


def dfile(s):
    s["ds"] = sut.DataStructure("c27-good")


def dshort(s):
    s["ds"] = sut.DataStructure("c27-short")


def dempty(s):
    s["ds"] = sut.DataStructure("c27-empty")


def dtext(s):
    s["ds"] = sut.DataStructure("c27-text")


def derrors(s):
    s["ds"] = sut.DataStructure("c27-errors")


def dmissing(s):
    s["ds"] = sut.DataStructure("c27-none")


def ddir(s):
    s["ds"] = sut.DataStructure("/")


def dragged(s):
    s["ds"] = sut.DataStructure(T, [X, X[:2]])


def dlong(s):
    s["ds"] = sut.DataStructure(T, X + X)


def dnone(s):
    s["ds"] = sut.DataStructure([], [])


def dbad(s):
    s["ds"] = sut.DataStructure(T, [1.0, 2.0, c26.BadFloat(), 1.0])


def dunordered(s):
    s["ds"] = sut.DataStructure([3.0, 1.0, 2.0], [1.0, 2.0, 4.0])


def a1(s):
    s["sacf"] = sut.SACF(T, X)
    s["ds"] = s["sacf"].data


def afile(s):
    s["sacf"] = sut.SACF(filename="c27-good")


def corr(s):
    s["c"] = sut.Correlator(s["ds"])


def cnone(s):
    s["c"] = sut.Correlator(None)


def std(s):
    s["c"].calculateStandardCorrelation()


def gen(s):
    sut.SACF.find_correlation(s["c"], "fast", "gaussian")


def wide(s):
    s["c"].max_lag, s["c"].lag_resolution = 9.0, 0.25


def narrow(s):
    s["c"].max_lag, s["c"].lag_resolution = -1.0, 1.0


def zero(s):
    s["c"].lag_resolution = 0.0


def step(s):
    s["it"] = sut.step(s["c"], 1.0)
    s["c"].addCorrelationData(s["it"], 3)


def far(s):
    s["c"].addCorrelationData(s["it"], 300)


def below(s):
    s["c"].addCorrelationData(s["it"], -1)


def wrongit(s):
    sut.step(s["c"], 0.5, nseries=7)
    s["c"].addCorrelationData(sut.CorrelationIterator(1.0, 0), 0)


def disorder(s):
    it = s["it"] = sut.CorrelationIterator(0.5, 1)
    s["c"].findCorrelation(it)
    s["c"].getFractionWeights(it)
    s["c"].naturalSelectionFunctionIdx(it)
    s["c"].findCorrelation(it)
    s["c"].fastSelectionFunctionIdx(it)
    s["c"].deltaT(it)


def clear(s):
    s["c"].clearCorrelation()


def cut(s):
    s["c"].cleanCorrelationData(2)


def readc(s):
    c = s["c"]
    s["r"] = [c.lag_timeseries(), c.correlations(), c.values(), c.normalised_timeseries(), c.max_lag, c.alpha, c.N_datasets]


def readd(s):
    d = s["ds"]
    s["r"] = [d.data(), d.errors(), d.timeseries(), d.normalised_timeseries(), d.normalised_data(), d.mean_data, d.median_time, d.max_time]


def readi(s):
    i = s["it"]
    s["r"] = [i.k, i.correlation, i.shifted_timeseries, i.selection_indices, i.delta_t, i.weights]


def auto(s):
    s["r"] = s["sacf"].autocorrelation()


def autogen(s):
    s["r"] = s["sacf"].autocorrelation(max_lag=1.0, selection_function="fast", weight_function="fractional_squared", return_correlator=True)
    s["c"] = s["r"][2]


def autobad(s):
    s["r"] = s["sacf"].autocorrelation(lag_resolution=-1.0)


def autounknown(s):
    s["r"] = s["sacf"].autocorrelation(weight_function="none")


def copyd(s):
    s["ds"] = copy.copy(s["ds"])


def picklec(s):
    s["c"] = pickle.loads(pickle.dumps(s["c"], 2))


def copyc(s):
    s["c"] = copy.deepcopy(copy.copy(s["c"]))


def copyi(s):
    s["it"] = pickle.loads(pickle.dumps(copy.copy(s["it"]), 2))


def pickles(s):
    s["sacf"] = pickle.loads(pickle.dumps(copy.deepcopy(s["sacf"]), 0))


def drop(s):
    s.pop("ds", None)
    s.pop("sacf", None)


OPS = [d1, d1e, d2, d2e, dfile, dshort, dempty, dtext, derrors, dmissing, ddir, dragged, dlong, dnone, dbad, dunordered, a1, afile, corr, cnone,
       std, gen, wide, narrow, zero, step, far, below, wrongit, disorder, clear, cut, readc, readd, readi, auto, autogen, autobad, autounknown, copyd, picklec, copyc, copyi, pickles, drop]
NEEDS = {"c": [std, gen, wide, narrow, zero, step, wrongit, disorder, clear, cut, readc, picklec, copyc], "it": [readi, copyi], "ds": [corr, readd, copyd], "sacf": [auto, autogen, autobad, autounknown, pickles]}
GIVES = {"ds": [d1, d1e, d2, d2e, dfile, dshort, derrors, dunordered, a1], "sacf": [a1, afile], "c": [corr, autogen], "it": [step, disorder]}
BY = {f.__name__: f for f in OPS}
PREP = {"ds": "d2", "sacf": "a1", "c": "corr", "it": "step"}


def needs(op):
    return [k for k, v in NEEDS.items() if BY[op] in v] + (["c", "it"] if op in ("far", "below") else [])


def possible(h):
    have = set()
    for op in h:
        if any(k not in have for k in needs(op)):
            return False
        for k, v in GIVES.items():
            if BY[op] in v:
                have.add(k)
        if op == "drop":
            have -= {"ds", "sacf"}
    return True


def play(h, s=None):
    s = {} if s is None else s
    for op in h:
        try:
            BY[op](s)
        except Exception:  # refused
            pass
    return s


def histories(case, ctx):
    prefix, lasts, reps = case

    def run():
        for last in lasts:
            play(prefix + [last])
    try:
        watch(run, reps, "histories %r followed by each of %d calls" % (prefix, len(lasts)))
    except Exception:
        for last in lasts:  # which one
            watch(lambda: play(prefix + [last]), reps, "history %r" % (prefix + [last],))
        raise
    ctx.states += len(reps) * len(NAMES)
    ctx.transitions += sum(reps) * len(lasts) * (1 + len(prefix))
    ctx.traces += sum(reps) * len(lasts)
    ctx.outcome(tuple(prefix))


def prepared(op):
    """the calls that make what op needs"""
    todo, seen = [op], []
    out = []

    def add(o):
        for k in needs(o):
            p = PREP[k]
            if p not in out:
                add(p)
        if o not in out:
            out.append(o)
    add(op)
    return out


def each(points, one, reps, what, ctx):
    """one(i) for all points; if something grows, which of them makes it"""
    points = list(points)

    def run():
        for i in points:
            one(i)
    ctx.transitions += sum(reps) * len(points)
    ctx.traces += sum(reps) * len(points)
    ctx.states += len(reps) * len(NAMES)
    try:
        watch(run, reps, what)
    except Exception:
        for i in points:
            watch(lambda: one(i), reps, "%s %d" % (what, i))
            ctx.tick()
        raise


def failing(case, ctx):
    """a call with each of its allocations failing"""
    op, keep, before = case
    out = (ctypes.c_long * 2)()

    def one(n):
        s = play(before)
        LIB.allocfault_arm(n, keep)
        try:
            BY[op](s)
        except Exception:
            pass
        finally:
            LIB.allocfault_disarm(out)

    n = 0
    while True:
        one(n)
        if out[0] <= n:
            break
        ctx.count("allocations_failed", 1 if out[1] else 0)
        n += 1
    ctx.outcome((op, n))
    each(range(n), one, [2, 4, 8, 16], "%r then %s with all allocations%s failing in turn, now" % (before, op, " and all later ones" if keep else ""), ctx)


def repeated(case, ctx):
    """a call, also after others, on the same objects again and again"""
    op, lists, reps = case
    s = play(prepared(op)[:-1])

    def one(i):
        for o in lists[i] + [op]:
            try:
                BY[o](s)
            except Exception:
                pass
        s.pop("r", None)
    ctx.outcome((op, len(lists)))
    each(range(len(lists)), one, reps, "%s again and again on the objects of %r, after %r, now" % (op, prepared(op)[:-1], lists), ctx)


def interrupted(case, ctx):
    op, opcodes = case
    before = prepared(op)[:-1]

    def one(n):
        s = play(before)
        stop = c26.Stop(n, opcodes)
        sys.settrace(stop.glob)
        try:
            BY[op](s)
        except (Exception, KeyboardInterrupt):
            pass
        finally:
            sys.settrace(None)
        return stop.hit

    n = 0
    while one(n):
        n += 1
    ctx.outcome((op, n))
    each(range(n), one, [2, 4, 8, 16], "%r then %s interrupted at all %s in turn, now" % (before, op, "bytecodes" if opcodes else "lines"), ctx)


def inputs(case, ctx):
    """inputs, objects and results are let go of"""
    op = case[0]
    refs = []
    orig = list(T), list(X)

    def run():
        t, x, e = Values(orig[0]), Values(orig[1]), Values(orig[1])
        rows = Values([Values(x), Values(x)])
        refs.extend(map(weakref.ref, [t, x, e, rows, rows[0], rows[1]]))
        for f in (lambda: sut.DataStructure(t, x), lambda: sut.DataStructure(t, x, e), lambda: sut.DataStructure(t, rows), lambda: sut.DataStructure(t, rows, rows),
                  lambda: sut.DataStructure(t, Values(x[:2])), lambda: sut.DataStructure(t, Values([x, x[:2]])), lambda: sut.DataStructure(t, x, Values(["x"])), lambda: sut.DataStructure(t, rows, e)):
            try:
                ds = f()
            except Exception:
                continue
            s = {"ds": ds}
            play(["corr", "std"] if op == "corr" else prepared(op)[2:] if "c" in needs(op) else [op], s)
        for args in ((t, x), (t, x, e), (t, rows), (t, rows, rows)):
            a = sut.SACF(*args)
            refs.append(weakref.ref(a))
            play([op] if op.startswith("auto") else ["auto"], {"sacf": a})
    for _ in range(3):
        run()
    for _ in range(4):
        gc.collect()
    alive = [r() for r in refs if r() is not None]
    check(not alive, "%s: inputs or analysis objects are still held: %r", op, alive[:3])
    ctx.states += len(refs)
    ctx.traces += 3
    ctx.transitions += 36


def SPACES(tier):
    big = tier == "thorough"
    names = [f.__name__ for f in OPS]
    short = [2, 4, 8, 16]

    def hist():
        for depth in range(0, 4 if big else 3):
            for prefix in itertools.product(names, repeat=depth):
                lasts = [n for n in names if possible(prefix + (n,))]
                if lasts and possible(prefix):
                    yield [list(prefix), lasts, short if depth > 1 else [4, 16, 64, 256]]

    def fails():
        for op in names:
            if op in ("dbad", "cnone"):
                continue  # refused by pybind11, whose own code for it ends the process if memory runs out
            for keep in (0, 1):
                yield [op, keep, prepared(op)[:-1]]
                for more in names if big else ("std", "step", "wide", "cut", "clear"):
                    if possible(prepared(op)[:-1] + [more, op]):
                        yield [op, keep, prepared(op)[:-1] + [more]]

    def reps():
        for op in names:
            yield [op, [[]], [8, 32, 128, 512]]
            others = [[o] for o in names if possible(prepared(op)[:-1] + [o])]
            yield [op, others, [4, 16, 64]]
            for o in others if big else ():
                yield [op, [o + [third] for third in names if possible(prepared(op)[:-1] + o + [third])], [4, 16, 64]]

    def ints():
        for op in ("a1", "afile", "auto", "autogen", "autobad", "gen"):
            for opcodes in (0, 1):
                yield [op, opcodes]

    def inps():
        for op in names:
            yield [op]

    return [
        Space("histories", hist, histories, "all possible histories of up to 3 (4) of %d calls, successful and refused: repeated, they leave nothing behind" % len(OPS)),
        Space("repeated", reps, repeated, "every call, and every two (three) calls, repeated on the same objects: they hold no more than before"),
        Space("failing", fails, failing, "every call with each of its allocations failing, alone or with all later ones: nothing is left behind"),
        Space("interrupted", ints, interrupted, "analyses interrupted at every line and bytecode"),
        Space("inputs", inps, inputs, "inputs and analysis objects are let go of after each call"),
    ]
