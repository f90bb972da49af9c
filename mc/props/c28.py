"""C28: copies and pickles are complete and independent."""
import copy
import gc
import itertools
import os
import pickle
import subprocess
import sys
import sut
from engine import Space, check
import server28

ID = "C28"
NAN = float("nan")
DATA = {
    "one": ([0.0, 1.0, 2.5, 3.0], [1.0, 3.0, -2.0, 0.5]),
    "two": ([5.0, 5.5, 7.0], [[2.0, NAN, 4.0], [1.0, 0.1, 9.0]], [[0.1, 0.2, 0.3], [0.0, NAN, 1e300]]),
    "tiny": ([0.1, 0.2, 0.4, 0.45, 0.7], [-0.0, 0.1, 1 / 3.0, 1e200, -1e-310], [0.0, 1.0, 2.0, 3.0, 4.0]),
    "equal": ([0.0, 1.0, 1.0, 2.0], [[1.0, 2.0, 4.0, 0.5], [NAN, NAN, NAN, NAN], [0.0, 1.0, 0.0, 2.0]]),
    "file": None,
    "filerr": None,
    "three": ([0.0, 1.0, 3.0, 3.5, 6.0, 6.25], [[1.0, 2.0, 4.0, 0.5, NAN, 7.0], [0.5, NAN, 3.0, 8.0, 1.0, 2.0], [0.0, 1.0, 0.0, 2.0, 5.0, -5.0]]),
    "large": ([0.25 * i + (i % 5) * 0.03125 for i in range(40)], [float((i * i) % 11) - 0.1 for i in range(40)]),
    "unordered": ([3.0, 1.0, 2.0], [1.0, 2.0, 4.0]),
    "single": ([7.5], [[2.0], [3.0]]),
}
TEXT = {"file": "#t\n0,1.1\n1,3\n2.5,nan\n3,0.5\n", "filerr": "0 1 0.1\n1 3 nan\n2.5 nan 0.3\n3 0.5 0.1\n"}


def ds_of(name):
    return sut.DataStructure(*DATA[name]) if DATA[name] else sut.DataStructure("c28-" + name)


def setup(tier):
    for name, text in TEXT.items():
        with open("c28-" + name, "w") as fh:
            fh.write(text)


def seen(o):
    """everything that can be read from it, comparable and printable"""
    if isinstance(o, (tuple, list)):
        return [seen(x) for x in o]
    if isinstance(o, dict):
        return {k: seen(v) for k, v in o.items()}
    if isinstance(o, sut.SACF):
        return ["SACF", seen(o.data)]
    if isinstance(o, sut.DataStructure):
        return ["DataStructure"] + [repr(v) for v in (o.timeseries(), o.data(), o.errors(), o.normalised_timeseries(), o.normalised_data(), o.mean_data,
                                                     o.median_time, o.max_time, o.N_datasets, o.M_datapoints)]
    if isinstance(o, sut.Correlator):
        return ["Correlator"] + [repr(v) for v in (o.min_lag, o.max_lag, o.lag_resolution, o.alpha, o.lag_timeseries(), o.correlations(), o.values(),
                                                  o.normalised_timeseries(), o.N_datasets, o.M_datapoints)]
    if isinstance(o, sut.CorrelationIterator):
        return ["CorrelationIterator"] + [repr(v) for v in (o.k, list(o.correlation), list(o.shifted_timeseries), list(o.selection_indices), list(o.delta_t), list(o.weights))]
    return repr(o)


def attempt(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__


def follow(o):
    """further use, changing what can be changed; what it answers"""
    if isinstance(o, (tuple, list)):
        return [follow(x) for x in o]
    if isinstance(o, dict):
        return {k: follow(v) for k, v in sorted(o.items())}
    if isinstance(o, sut.SACF):
        return [repr(attempt(lambda: o.autocorrelation(**a))) for a in ({}, {"max_lag": 1.0, "selection_function": "fast", "weight_function": "gaussian"})] + [follow(o.data)]
    if isinstance(o, sut.DataStructure):
        c = attempt(lambda: sut.Correlator(o))
        return c if isinstance(c, str) else follow(c)
    if isinstance(o, sut.Correlator):
        return [corr_op(o, "far"), seen(o), corr_op(o, "std"), seen(o), corr_op(o, "step"), seen(o), corr_op(o, "clear"), corr_op(o, "set1"), corr_op(o, "gen"), seen(o)]
    if isinstance(o, sut.CorrelationIterator):
        c = sut.Correlator(ds_of_it())
        return [iter_op(c, o, op) for op in ("deltaT", "weights", "find", "k")]
    return None


def ds_of_it():
    return sut.DataStructure(*DATA["three"])


def corr_op(c, op):
    if op == "std":
        return attempt(c.calculateStandardCorrelation)
    if op == "gen":
        return attempt(lambda: sut.SACF.find_correlation(c, "fast", "fractional_squared"))
    if op == "set1":
        c.min_lag, c.max_lag, c.lag_resolution, c.alpha = -0.5, 1.0, 0.25, 0.125
    elif op == "set2":
        c.min_lag, c.max_lag, c.lag_resolution, c.alpha = 0.1, 0.7, 0.1, 1e-9
    elif op == "special":
        c.min_lag, c.max_lag, c.lag_resolution, c.alpha = -0.0, float("inf"), -1.0, NAN
    elif op == "empty":
        c.min_lag, c.max_lag = 1.0, -1.0
    elif op == "clear":
        c.clearCorrelation()
    elif op == "cut":
        return attempt(lambda: c.cleanCorrelationData(2))
    elif op == "step":
        def f():
            it = sut.step(c, 0.5)
            c.addCorrelationData(it, 1)
        return attempt(f)
    elif op == "far":
        def f():
            it = sut.step(c, -1.0, "fast")
            c.addCorrelationData(it, 40)
        return attempt(f)
    return None


CORR = ("std", "gen", "set1", "set2", "special", "empty", "clear", "cut", "step", "far")


def iter_op(c, it, op):
    """one step on an iterator"""
    r = attempt({"natural": lambda: c.naturalSelectionFunctionIdx(it), "fast": lambda: c.fastSelectionFunctionIdx(it), "deltaT": lambda: c.deltaT(it),
                 "weights": lambda: c.getGaussianWeights(it), "find": lambda: c.findCorrelation(it), "k": lambda: setattr(it, "k", -1.5)}[op])
    return [r, seen(it)]


ITER = ("natural", "fast", "deltaT", "weights", "find", "k")

WAYS = ["copy", "deepcopy"] + ["pickle %d" % p for p in range(pickle.HIGHEST_PROTOCOL + 1)] + ["python pickle"]


def copied(o, way):
    if way == "copy":
        return copy.copy(o)
    if way == "deepcopy":
        return copy.deepcopy(o)
    if way == "python pickle":
        return pickle._loads(pickle._dumps(o, 2)) if hasattr(pickle, "_dumps") else pickle.loads(pickle.dumps(o))
    return pickle.loads(pickle.dumps(o, int(way.split()[1])))


def compare(make, ways, what, ctx):
    """make() gives the object, always in the same state"""
    o = make()
    want = seen(o)
    after = follow(make())
    objs = [o]
    for way in ways:
        objs.append(copied(objs[-1], way))
        check(type(objs[-1]) is type(o), "%s, %s: a %s is copied to a %s", what, way, type(o), type(objs[-1]))
        got = [seen(x) for x in objs]
        check(all(g == want for g in got), "%s, %s: original and copies have %r, should be %r", what, way, got, want)
        ctx.transitions += 1
        ctx.states += len(objs)
    for order in ((range(len(objs)), reversed(range(len(objs)))) if len(ways) == 1 else (range(len(objs)),)):
        objs = [make()]
        for way in ways:
            objs.append(copied(objs[-1], way))
        left = dict(enumerate(objs))
        del objs
        for i in order:
            if "copy" in ways and isinstance(o, list):
                break  # a shallow copy of a list has the same elements
            x = left.pop(i)
            got = follow(x)
            check(got == after, "%s, %r: further use of %s gives %r, should be %r", what, ways, "copy %d" % i if i else "the original", got, after)
            for j, other in left.items():
                check(seen(other) == want, "%s, %r: use of %d changes %d to %r, was %r", what, ways, i, j, seen(other), want)
                ctx.states += 1
            del x
            ctx.transitions += 1
    ctx.traces += 1


def correlators(case, ctx):
    name, ops, ways = case

    def make():
        c = sut.Correlator(ds_of(name))
        for op in ops:
            corr_op(c, op)
        return c
    for way in ways:
        compare(make, way, "correlator of %r after %r" % (name, ops), ctx)
    ctx.outcome((name, tuple(ops)))
    ctx.tick()


def iterators(case, ctx):
    k, n, ops, ways = case

    def make():
        c = sut.Correlator(ds_of_it())
        it = sut.CorrelationIterator(k, n)
        for op in ops:
            iter_op(c, it, op)
        return it
    for way in ways:
        compare(make, way, "iterator at %r of %d after %r" % (k, n, ops), ctx)
    ctx.outcome((k, n, tuple(ops)))


def sets(case, ctx):
    name, ways = case
    for way in ways:
        compare(lambda: ds_of(name), way, "data set %r" % name, ctx)
        compare(lambda: sut.SACF(*DATA[name]) if DATA[name] else sut.SACF(filename="c28-" + name), way, "analysis object of %r" % name, ctx)
    ctx.outcome(name)


def together(case, ctx):
    """several objects that share a data set"""
    name, ops, ways = case

    def make():
        s = sut.SACF(*DATA[name])
        r = attempt(lambda: s.autocorrelation(max_lag=1.0, return_correlator=True))
        a, b = sut.Correlator(s.data), sut.Correlator(s.data)
        for op in ops:
            corr_op(a, op)
        return [s, a, s.data, b, list(r)[2] if not isinstance(r, str) else None]
    for way in ways:
        compare(make, way, "objects of %r after %r" % (name, ops), ctx)
    ctx.outcome((name, tuple(ops)))


def collect():
    for _ in range(3):
        gc.collect()


def dropped(case, ctx):
    """the original is dropped and its memory used for something else"""
    name, ops, ways, use = case

    def make():
        s = sut.SACF(*DATA[name])
        c = sut.Correlator(s.data)
        for op in ops:
            corr_op(c, op)
        return {"corr": c, "data": s.data, "sacf": s}[use]
    want, after = seen(make()), follow(make())
    o = make()
    for way in ways:
        o = copied(o, way)
        collect()
        for n in (3, 4, 6, 2):
            sut.Correlator(sut.DataStructure([float(i) * 100 for i in range(n)], [[-1e9] * (n - 1) + [5.0]] * 2)).calculateStandardCorrelation()
        check(seen(o) == want, "%s of %r after %r, %r, dropped: %r, should be %r", use, name, ops, ways, seen(o), want)
        ctx.transitions += 1
    got = follow(o)
    check(got == after, "%s of %r after %r, %r, dropped: further use gives %r, should be %r", use, name, ops, ways, got, after)
    ctx.states += 2
    ctx.traces += 1
    ctx.outcome(tuple(case[1]))


FATE = ("same", "changed", "longer", "broken", "removed", "folder", "other folder")


def files(case, ctx):
    """what was read from a file is copied as read, whatever has become of the file"""
    name, use, fate, ways = case
    path, here = os.path.abspath("c28-fate"), os.getcwd()

    def make():
        if os.path.isdir(path):
            os.rmdir(path)
        with open(path, "w") as fh:
            fh.write(TEXT[name])
        s = sut.SACF(filename="c28-fate")
        c = sut.Correlator(s.data)
        c.calculateStandardCorrelation()
        o = {"data": sut.DataStructure("c28-fate"), "sacf": s, "corr": c, "all": [s, c, s.data]}[use]
        if fate in ("changed", "longer", "broken"):
            with open(path, "w") as fh:
                fh.write({"changed": "0 9\n1 8\n", "longer": TEXT[name] + TEXT[name].split("\n")[-2].replace("3", "4") + "\n", "broken": "0 1\n2\nx\n"}[fate])
        elif fate in ("removed", "folder"):
            os.remove(path)
            if fate == "folder":
                os.mkdir(path)
        return o
    try:
        if fate == "other folder":
            os.makedirs("c28-sub", exist_ok=True)
        for way in ways:
            if fate == "other folder":
                o = make()
                want = seen(o)
                os.chdir("c28-sub")
                for w in way:
                    o = copied(o, w)
                got = seen(o)
                os.chdir(here)
                check(got == want, "%s of file %r, copied from another folder by %r: %r, should be %r", use, name, way, got, want)
                ctx.states += 1
                ctx.transitions += len(way)
            else:
                compare(make, way, "%s of file %r, now %s" % (use, name, fate), ctx)
    finally:
        os.chdir(here)
        if os.path.isdir(path):
            os.rmdir(path)
        elif os.path.exists(path):
            os.remove(path)
    ctx.outcome((name, use, fate))
    ctx.traces += 1


SERVER = []


def elsewhere(case, ctx):
    """sent to a process that knows nothing of the package, used there and sent back"""
    name, use, ops, protocol = case

    def make():
        if use == "iterator":
            it = sut.CorrelationIterator(0.5, 3)
            c = sut.Correlator(ds_of_it())
            for op in ops:
                iter_op(c, it, op)
            return it
        if use == "data":
            return ds_of(name)
        if use == "sacf":
            return sut.SACF(*DATA[name])
        c = sut.Correlator(ds_of(name))
        for op in ops:
            corr_op(c, op)
        return c
    if not SERVER or ops == []:
        while SERVER:
            p = SERVER.pop()
            p.stdin.close()
            p.wait()
        SERVER.append(subprocess.Popen([sys.executable, os.path.abspath(server28.__file__)], stdin=subprocess.PIPE, stdout=subprocess.PIPE))
    what = "%s of %r after %r by protocol %d" % (use, name, ops, protocol)
    o = make()
    want = seen(o)
    server28.put(SERVER[0].stdin, pickle.dumps(o, protocol))
    b = server28.get(SERVER[0].stdout)
    if b is None:
        SERVER.pop()
        check(False, "%s: the process it was sent to ended", what)
    r = pickle.loads(b)
    check(not isinstance(r, str), "%s, sent to another process: %s", what, r)
    follow(o)
    check(r[0] == want, "%s: in another process it has %r, should be %r", what, r[0], want)
    check(r[1] == seen(o), "%s: after use in another process it has %r, should be %r", what, r[1], seen(o))
    check(seen(pickle.loads(r[2])) == want, "%s: sent back it has %r, should be %r", what, seen(pickle.loads(r[2])), want)
    ctx.states += 3
    ctx.transitions += 3
    ctx.traces += 1
    ctx.outcome((name, use, tuple(ops)))


def SPACES(tier):
    big = tier == "thorough"
    one = [[w] for w in WAYS]
    some = [["copy"], ["deepcopy"], ["pickle 0"], ["pickle 2"], ["pickle %d" % pickle.HIGHEST_PROTOCOL]]
    two = [list(w) for w in itertools.product(WAYS, repeat=2)]
    corrable = [n for n in DATA if n != "unordered"]

    def fates():
        for name in TEXT:
            for use in ("data", "sacf", "corr", "all"):
                for fate in FATE:
                    yield [name, use, fate, one + two if big or use == "sacf" else one]

    def corrs():
        for name in corrable:
            for depth in range(0, (5 if name in ("one", "two") else 4) if big else (4 if name in ("one", "two") else 2 if name == "large" else 3)):
                for ops in itertools.product(CORR, repeat=depth):
                    yield [name, list(ops), two + one if depth < 2 and name != "large" else one if depth < 3 else some]

    def its():
        for k in (0.0, 0.5, -0.75, 100.0, NAN):
            for n in (0, 1, 3):
                for depth in range(0, 6 if big else 5):
                    for ops in itertools.product(ITER, repeat=depth):
                        if not big and (depth > 2 and (n == 0 or k != k) or depth > 3 and (n == 1 or k in (0.0, 100.0))):
                            continue
                        yield [k, n, list(ops), two + one if depth < 2 else one if depth < 3 else some]

    def ds():
        for name in DATA:
            yield [name, one + two]

    def shared():
        for name in ("one", "two", "three", "equal"):
            for depth in range(0, 4 if big else 3):
                for ops in itertools.product(CORR, repeat=depth):
                    yield [name, list(ops), two + one if depth < 2 and big else one if depth < 2 or big else some]

    def drops():
        for name in ("one", "two", "three"):
            for use in ("corr", "data", "sacf"):
                for depth in range(0, 3 if big and use == "corr" else 2 if use == "corr" else 1):
                    for ops in itertools.product(CORR, repeat=depth):
                        for ways in one + two if big or depth == 0 else one:
                            if big or len(ways) == 1 or name == "two":
                                yield [name, list(ops), ways, use]

    def remote():
        for protocol in range(pickle.HIGHEST_PROTOCOL + 1):
            for use in ("data", "sacf", "correlator", "iterator"):
                for name in ("one", "two", "tiny", "three") + (("file", "filerr") if use != "sacf" else ()):
                    depths = range(0, 1 if use in ("data", "sacf") else 3 if big else 2)
                    for depth in depths:
                        for ops in itertools.product(CORR if use == "correlator" else ITER, repeat=depth):
                            if use != "iterator" or name == "one":
                                yield [name, use, list(ops), protocol]

    return [
        Space("sets", ds, sets, "%d data sets and analysis objects, copied in %d ways and in all pairs of ways" % (len(DATA), len(WAYS))),
        Space("files", fates, files, "objects made from a file, copied after the file has stayed, changed, grown, been damaged, removed or replaced, or from another folder"),
        Space("correlators", corrs, correlators, "correlators after all sequences of up to 3 (4) of %d operations, copied in all (for the longest, five) ways; then original and copies are used in turn" % len(CORR)),
        Space("iterators", its, iterators, "iterators after all sequences of up to 4 (5) of %d steps, likewise" % len(ITER)),
        Space("together", shared, together, "an analysis object, its data set and correlators sharing it, copied together"),
        Space("dropped", drops, dropped, "copies used after the original has been dropped, collected and overwritten, all pairs of ways"),
        Space("elsewhere", remote, elsewhere, "objects sent to a fresh process, used there and sent back, all protocols"),
    ]
