"""C23: no sequence of API calls accesses memory out of bounds (AddressSanitizer, UBSan, checked and annotated containers).

The oracle is the instrumentation: any report ends the process, which the driver attributes to the case.  In
addition every call must either return or raise an ordinary exception.
"""
import gc
import itertools
import os
import sut
from engine import Space, check

ID = "C23"
NAN = float("nan")
INF = float("inf")
BIG = 2 ** 31 - 1
DATA = {
    "1x1": ([3.0], [[2.0]]),
    "1x2": ([0.0, 1.0], [[1.0, 4.0]]),
    "2x3": ([0.0, 1.0, 2.5], [[1.0, 3.0, -2.0], [4.0, NAN, 1.0]]),
    "3x5": ([-1.0, 0.0, 0.5, 3.0, 3.5], [[1.0, 3.0, -2.0, 0.5, 2.0], [4.0, NAN, 1.0, 9.0, 1.0], [0.0, 0.0, 1.0, 0.0, 0.0]]),
}


def call(f, ctx, *a):
    ctx.transitions += 1
    try:
        return f(*a)
    except Exception:
        ctx.count("refused")
        return None


def corr(name):
    return sut.Correlator(sut.DataStructure(*DATA[name]))


def read(c, ctx):
    call(c.lag_timeseries, ctx)
    call(c.correlations, ctx)
    call(c.values, ctx)


IT_OPS = {
    "natural": lambda c, it: c.naturalSelectionFunctionIdx(it), "fast": lambda c, it: c.fastSelectionFunctionIdx(it),
    "delta": lambda c, it: c.deltaT(it), "frac": lambda c, it: c.getFractionWeights(it), "gauss": lambda c, it: c.getGaussianWeights(it),
    "square": lambda c, it: c.getFractionSquaredWeights(it), "find": lambda c, it: c.findCorrelation(it),
    "add0": lambda c, it: c.addCorrelationData(it, 0), "add2": lambda c, it: c.addCorrelationData(it, 2), "add-1": lambda c, it: c.addCorrelationData(it, -1),
    "k": lambda c, it: setattr(it, "k", -it.k + 0.25),
}


def look(it, ctx):
    ctx.transitions += 1
    return (list(it.correlation), list(it.shifted_timeseries), list(it.selection_indices), list(it.delta_t), list(it.weights), it.k)


def steps(case, ctx):
    """step functions on one iterator in any order"""
    name, size, ks, ops, start, depth = case
    for k in ks:
        for rest in itertools.product(ops, repeat=depth - len(start)):
            c = corr(name)
            it = sut.CorrelationIterator(k, size)
            for op in list(start) + list(rest):
                call(IT_OPS[op], ctx, c, it)
            s = look(it, ctx)
            read(c, ctx)
            ctx.traces += 1
            ctx.states += depth
            ctx.outcome(repr(s))
        ctx.tick()


# any combination of two correlators of different sizes and two iterators of different sizes
CROSS = [(c, i, op) for c in (0, 1) for i in (0, 1) for op in ("natural", "fast", "delta", "gauss", "find", "add0")]


def cross(case, ctx):
    names, sizes, start, depth = case
    for rest in itertools.product(range(len(CROSS)), repeat=depth - len(start)):
        cs = [corr(n) for n in names]
        its = [sut.CorrelationIterator(0.5, s) for s in sizes]
        for x in list(start) + list(rest):
            c, i, op = CROSS[x]
            call(IT_OPS[op], ctx, cs[c], its[i])
        for c in cs:
            read(c, ctx)
        ctx.traces += 1
        ctx.states += depth
    ctx.outcome(tuple(start))
    ctx.tick()


ADDS = [-2 ** 31, -1, 0, 1, 2, 7, 300]
CLEANS = [-2 ** 31, -3, -1, 0, 1, 3, 50]
STORE = [("add", n) for n in ADDS] + [("addwrong", n) for n in (0, 1, 5)] + [("clean", n) for n in CLEANS] + [("clear", 0), ("native", 0), ("generic", 0), ("read", 0), ("fine", 0), ("empty", 0)]


def store(case, ctx):
    """storing, cutting, clearing, computing and reading results in any order"""
    name, start, depth = case
    nd = len(DATA[name][1])
    for rest in itertools.product(range(len(STORE)), repeat=depth - len(start)):
        c = corr(name)
        it = sut.CorrelationIterator(0.5, nd)
        wrong = sut.CorrelationIterator(0.5, max(0, nd - 1))
        for x in list(start) + list(rest):
            op, n = STORE[x]
            if op == "add":
                call(c.addCorrelationData, ctx, it, n)
            elif op == "addwrong":
                call(c.addCorrelationData, ctx, wrong, n)
            elif op == "clean":
                call(c.cleanCorrelationData, ctx, n)
            elif op == "clear":
                call(c.clearCorrelation, ctx)
            elif op == "native":
                call(c.calculateStandardCorrelation, ctx)
            elif op == "generic":
                call(sut.SACF.find_correlation, ctx, c, "fast", "gaussian")
            elif op == "read":
                read(c, ctx)
            elif op == "fine":
                c.lag_resolution = 0.25
            elif op == "empty":
                c.min_lag = 1e3
        read(c, ctx)
        ctx.traces += 1
        ctx.states += depth
    ctx.outcome(tuple(start))
    ctx.tick()


ARGS = {"None": None, "it": 0, "corr": 1, "ds": 2, "int": 3, "float": 0.5, "nan": NAN, "inf": INF, "neg": -1, "max": BIG, "min": -BIG - 1, "huge": 2 ** 70,
        "text": "x", "list": [1.0, 2.0], "empty": [], "list2": [[1.0, 2.0], [3.0, 4.0]], "none": [None], "bytes": b"ab"}


def value(key, objs):
    return objs[key] if key in objs else ARGS[key]


def arguments(case, ctx):
    """every method with every kind of argument"""
    target, nargs, first = case
    for rest in itertools.product(ARGS, repeat=max(0, nargs - 1)):
        keys = ((first,) if nargs else ()) + rest
        objs = {"corr": corr("2x3"), "ds": sut.DataStructure(*DATA["2x3"]), "it": sut.CorrelationIterator(0.5, 2)}
        args = [value(k, objs) for k in keys]
        if target in ("DataStructure", "Correlator", "CorrelationIterator", "SACF"):
            if target == "CorrelationIterator" and len(keys) > 1 and keys[1] in ("max", "min", "neg", "huge", "inf", "nan"):
                # sizes that are no sizes: only those whose allocation is refused before it is tried
                if keys[1] in ("max",):
                    continue
            o = call(getattr(sut, target), ctx, *args)
            if target == "Correlator" and o is not None:
                call(o.calculateStandardCorrelation, ctx)
                read(o, ctx)
            if target in ("SACF",) and o is not None:
                call(o.autocorrelation, ctx)
        else:
            kind, meth = target.split(".")
            o = objs[kind]
            if meth in ("addCorrelationData", "cleanCorrelationData") and "max" in keys:
                continue  # would ask for 2^31 results, which is no matter of bounds
            m = getattr(o, meth, None)
            if callable(m):
                call(m, ctx, *args)
            elif args:
                call(setattr, ctx, o, meth, args[0])
            if kind == "it":
                look(o, ctx)
            read(objs["corr"], ctx)
            step = sut.CorrelationIterator(0.25, 2)
            for op in ("natural", "delta", "frac", "find", "add0"):
                call(IT_OPS[op], ctx, objs["corr"], step)
            read(objs["corr"], ctx)
        ctx.states += 1
        ctx.traces += 1
    ctx.outcome((target, first))
    ctx.tick()


METHODS = (["corr." + m for m in ("naturalSelectionFunctionIdx", "fastSelectionFunctionIdx", "deltaT", "findCorrelation", "clearCorrelation", "fractionWeightFunction",
                                  "fractionSquaredWeightFunction", "gaussianWeightFunction", "getFractionWeights", "getFractionSquaredWeights", "getGaussianWeights",
                                  "normalised_timeseries", "values", "lag_timeseries", "correlations", "addCorrelationData", "cleanCorrelationData",
                                  "max_lag", "min_lag", "lag_resolution", "alpha", "M_datapoints", "N_datasets")]
           + ["it.k", "it.correlation", "it.weights"]
           + ["it.__reduce__", "corr.__reduce__", "ds.__reduce__"]
           + ["ds." + m for m in ("data", "errors", "timeseries", "normalised_timeseries", "normalised_data", "N_datasets", "M_datapoints", "mean_data")])


def lifetimes(case, ctx):
    """dropping what others depend on"""
    order, = case
    o = {"ds": sut.DataStructure(*DATA["2x3"])}
    o["c"] = sut.Correlator(o["ds"])
    o["it"] = sut.CorrelationIterator(0.5, 2)
    o["c2"] = sut.SACF(*DATA["3x5"]).autocorrelation(return_correlator=True)[2]
    for name in order:
        o.pop(name, None)
        gc.collect()
        gc.collect()
        for c in ("c", "c2"):
            if c in o:
                read(o[c], ctx)
                call(o[c].calculateStandardCorrelation, ctx)
                if "it" in o:
                    for op in ("fast", "delta", "gauss", "find", "add0"):
                        call(IT_OPS[op], ctx, o[c], o["it"])
        if "ds" in o:
            o["ds"].data(), o["ds"].mean_data
        if "it" in o:
            look(o["it"], ctx)
        ctx.states += 1
    ctx.traces += 1
    ctx.outcome(tuple(order))


HAND = ["natural", "fast", "delta", "frac", "find", "add0"]


def handover(case, ctx):
    """an iterator used with one correlator, which is then dropped, and further used with another one"""
    names, before, depth = case
    made = []
    for after in itertools.product(HAND, repeat=depth):
        a, it = corr(names[0]), sut.CorrelationIterator(0.5, 3)
        for op in before:
            call(IT_OPS[op], ctx, a, it)
        made.append((it, after))
    del a
    gc.collect()
    gc.collect()
    churn = [corr(names[0]) for _ in range(3)]
    for it, after in made:
        b = corr(names[1])
        for op in after:
            call(IT_OPS[op], ctx, b, it)
        look(it, ctx)
        read(b, ctx)
        ctx.traces += 1
        ctx.states += 1
        ctx.outcome((tuple(before), after, repr(look(it, ctx))))
    del churn
    ctx.tick()


ALT = [None, 0.0, -1.0, NAN, 1e300, 7, -1, [], [1.0], [[1.0]], [[]], [[1.0, 2.0], [1.0]], (), "x", [0.0] * 40, [3, -1, 10 ** 6]]
DROP, REPEAT = object(), object()


def paths(x, at=()):
    """places in nested tuples and lists"""
    yield at
    if isinstance(x, (tuple, list)):
        for i, y in enumerate(x):
            for p in paths(y, at + (i,)):
                yield p


def changed(x, path, alt):
    if not path:
        return alt
    y = list(x)
    if len(path) == 1 and alt is DROP:
        del y[path[0]]
    elif len(path) == 1 and alt is REPEAT:
        y.insert(path[0], y[path[0]])
    else:
        y[path[0]] = changed(y[path[0]], path[1:], alt)
    return tuple(y) if isinstance(x, tuple) else y


def states(case, ctx):
    """what objects are copied and pickled by, changed at one (two) places, and the object made of it used"""
    use, name, path, alts, two = case
    c = corr(name)
    call(c.calculateStandardCorrelation, ctx)
    it = sut.step(c, 0.5)
    o = {"correlator": c, "iterator": it, "data": sut.DataStructure(*DATA[name])}[use]
    reduced = o.__reduce__()
    f, args = reduced[0], reduced[1:]
    for a in alts:
        for second in ([None] if not two else [(p, b) for p in paths(args) for b in range(0, len(ALT), 3)]):
            new = changed(args, path, DROP if a == "drop" else REPEAT if a == "repeat" else ALT[a])
            if second is not None:
                try:
                    new = changed(new, second[0], ALT[second[1]])
                except Exception:
                    continue
            if not isinstance(new, tuple) or not new or not isinstance(new[0], tuple):
                continue
            x = call(f, ctx, *new[0])
            if x is None:
                continue
            if len(new) > 1 and hasattr(x, "__setstate__"):
                call(x.__setstate__, ctx, *new[1:])
            if use == "data":
                c = call(sut.Correlator, ctx, x)
            elif use == "correlator":
                c = x
            if c is not None:
                read(c, ctx)
                y = x if use == "iterator" else sut.CorrelationIterator(0.5, len(DATA[name][1]))
                for op in ("find", "frac", "delta", "find", "add2", "natural", "delta", "gauss", "find", "add0"):
                    call(IT_OPS[op], ctx, c, y)
                look(y, ctx)
                if abs(c.max_lag) < 100 and abs(c.min_lag) < 100 and c.lag_resolution > 0.01:
                    call(c.calculateStandardCorrelation, ctx)
                read(c, ctx)
            call(x.__reduce__, ctx)
            ctx.states += 1
            ctx.traces += 1
        ctx.tick()
    ctx.outcome((use, name, tuple(path)))


def reuse(module, names, tier, every=1):
    """spaces of other properties, run again on the instrumented build"""
    m = __import__("props." + module, fromlist=["x"])
    if hasattr(m, "setup"):
        m.setup(tier)
    for s in m.SPACES(tier):
        if s.name in names:
            yield Space("%s %s" % (module.upper(), s.name), s.cases, s.run, "on the instrumented build: " + s.doc)


def SPACES(tier):
    big = tier == "thorough"

    def stp():
        d = 4 if not big else 5
        for name in ("2x3", "1x2", "3x5", "1x1"):
            nd = len(DATA[name][1])
            for size in sorted({0, 1, nd, nd + 1}):
                ks = [0.5, -1.0] if name in ("2x3", "3x5") else [0.0]
                ops = list(IT_OPS) if size == nd and name == "2x3" else ["natural", "fast", "delta", "gauss", "find", "add0", "add2", "add-1"]
                for start in itertools.product(ops, repeat=2):
                    for dd in range(2, d + 1):
                        yield [name, size, ks, ops, list(start), dd]
        for k in (NAN, INF, -INF, 1e300, -1e300, 2.5, 3.5, 5e-324):
            for name in DATA:
                for start in itertools.product(["natural", "fast"], repeat=1):
                    for dd in (1, 2, 3, 4):
                        yield [name, len(DATA[name][1]), [k], ["natural", "fast", "delta", "frac", "find", "add0"], list(start), dd]

    def crs():
        d = 3 if not big else 4
        for names in (["2x3", "3x5"], ["1x2", "3x5"], ["1x1", "2x3"]):
            for sizes in ([2, 3], [1, 5], [0, 2]):
                for dd in range(2, d + 1):
                    for start in itertools.product(range(len(CROSS)), repeat=2):
                        yield [names, sizes, list(start), dd]

    def sto():
        d = 3 if not big else 4
        for name in ("2x3", "1x2"):
            for dd in range(1, d + 1):
                for start in itertools.product(range(len(STORE)), repeat=1 if dd < 3 else 2):
                    yield [name, list(start), dd]

    def arg():
        for target in METHODS:
            for n in (0, 1, 2):
                for first in (list(ARGS) if n else ["-"]):
                    yield [target, n, first]
        for target in ("DataStructure", "SACF", "Correlator", "CorrelationIterator"):
            for n in (0, 1, 2) + ((3,) if target in ("DataStructure", "SACF") else ()):
                for first in (list(ARGS) if n else ["-"]):
                    yield [target, n, first]

    def life():
        for order in itertools.permutations(["ds", "c", "it", "c2"]):
            yield [list(order)]

    def hand():
        for names in (["3x5", "2x3"], ["2x3", "3x5"], ["1x2", "1x2"]):
            for d in (1, 2, 3) + ((4,) if big else ()):
                for n in (1, 2) + ((3,) if big else ()):
                    for before in itertools.product(HAND, repeat=n):
                        yield [names, list(before), d]

    def sta():
        for use in ("correlator", "iterator", "data"):
            for name in DATA:
                c = corr(name)
                c.calculateStandardCorrelation()
                o = {"correlator": c, "iterator": sut.step(c, 0.5), "data": sut.DataStructure(*DATA[name])}[use]
                for path in paths(o.__reduce__()[1:]):
                    yield [use, name, list(path), ["drop", "repeat"] + list(range(len(ALT))), False]
                    if name == "2x3" or big:
                        for a in ["drop", "repeat"] + list(range(len(ALT))):
                            if big or len(path) < 4:
                                yield [use, name, list(path), [a], True]

    out = [
        Space("states", sta, states, "what objects are copied and pickled by, changed at every place, and on one data set at every two places, in %d ways" % (2 + len(ALT))),
        Space("arguments", arg, arguments, "every method and constructor with up to 2 (3) arguments out of 18 kinds (None, wrong objects, extreme numbers, lists)"),
        Space("steps", stp, steps, "all sequences of up to 4 (5) step functions on one iterator of fitting and other sizes, 4 data sets, ordinary and special lags"),
        Space("cross", crs, cross, "all sequences of 3 (4) out of 24 uses of two correlators with two iterators of different sizes"),
        Space("store", sto, store, "all sequences of up to 3 (4) out of 23 storing, cutting, clearing, computing and reading operations with fitting and other step numbers"),
        Space("handover", hand, handover, "an iterator used by all sequences of up to 2 (3) of 6 step functions of one correlator, which is dropped, then by all of up to 3 (4) of another"),
        Space("lifetimes", life, lifetimes, "all orders of dropping a data set, correlators and an iterator, the rest being used after each"),
    ]
    out += list(reuse("c13", ("one", "two", "long", "mixed"), "quick"))
    out += list(reuse("c22", ("orders", "times", "special"), "quick"))
    out += list(reuse("c14", ("layout", "nothing", "size") if big else ("missing", "nothing"), "quick"))
    out += list(reuse("c11", ("masks",), "quick"))
    out += list(reuse("c18", ("wide",), "quick"))
    out += list(reuse("c17", ("counts", "wide") if big else ("wide",), "quick"))
    if big:
        out += list(reuse("c28", ("dropped", "together", "sets"), "quick"))
        out += list(reuse("c01", ("single", "batch", "long"), "quick"))
        out += list(reuse("c04", ("pairs",), "quick"))
        out += list(reuse("c05", ("iterator", "inside"), "quick"))
        out += list(reuse("c12", ("kinds", "report"), "quick"))
        out += list(reuse("c19", ("pairs",), "quick"))
    return out
