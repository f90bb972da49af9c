"""C18: a reused correlator behaves like a fresh one with the same parameters."""
import itertools
import model as M
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C18"
NAN = float("nan")
DATA = {
    "two": ([0.0, 1.0, 2.5, 3.0], [[1.0, 3.0, -2.0, 0.5], [4.0, NAN, 1.0, 9.0]]),
    "one": ([5.0, 5.5, 7.0], [[2.0, -1.0, 4.0]]),
    "three": ([0.0, 1.0, 2.0], [[0.0, 1.0, 5.0], [1.0, -1.0, 0.0], [7.0, 7.5, 7.25]]),
}
# name -> attribute, value
SETS = {
    "min=0": ("min_lag", 0.0), "min=-1.25": ("min_lag", -1.25), "min=.5": ("min_lag", 0.5), "min=9": ("min_lag", 9.0), "min=-1": ("min_lag", -1.0), "max=.5": ("max_lag", 0.5),
    "max=1": ("max_lag", 1.0), "max=6": ("max_lag", 6.0), "max=-.5": ("max_lag", -0.5), "max=inf": ("max_lag", float("inf")),
    "res=.25": ("lag_resolution", 0.25), "res=2": ("lag_resolution", 2.0), "res=0": ("lag_resolution", 0.0), "res=-1": ("lag_resolution", -1.0),
    "alpha=.5": ("alpha", 0.5), "alpha=8": ("alpha", 8.0),
}
COMPUTE = {"native": ("natural", "fractional"), "generic": ("natural", "fractional"), "fast": ("fast", "fractional"), "gauss": ("natural", "gaussian"),
           "square": ("fast", "fractional_squared")}
FRESH = {}


def valid(p):
    fin = all(abs(p[k]) < float("inf") for k in ("min_lag", "max_lag"))
    return fin and (p["min_lag"] > p["max_lag"] or p["lag_resolution"] > 0)


def compute(c, op):
    if op == "native":
        c.calculateStandardCorrelation()
    else:
        sut.SACF.find_correlation(c, *COMPUTE[op])


def fresh(name, p, op):
    """what a new correlator with these parameters computes; checked against the estimator once"""
    key = (name, tuple(sorted(p.items())), COMPUTE[op])
    if key not in FRESH:
        t, xs = DATA[name]
        c = sut.Correlator(sut.DataStructure(t, xs))
        for k, v in p.items():
            setattr(c, k, v)
        compute(c, "native" if op == "native" else op)
        lags, rows = c.lag_timeseries(), c.correlations()
        check(same_list(lags, M.grid(p["min_lag"], p["max_lag"], p["lag_resolution"])), "fresh %r: lags %r", p, lags)
        want, _ = M.correlations(t, xs, p, lags, *COMPUTE[op])
        for j in range(len(xs)):
            check(len(rows[j]) == len(lags) and all(M.close(g, w) for g, w in zip(rows[j], want[j])), "fresh %r %r series %d: %r, should be %r",
                  p, op, j, rows[j], want[j])
        FRESH[key] = (lags, rows)
    return FRESH[key]


def read(c):
    return c.lag_timeseries(), c.correlations()


def play(name, seq, ctx):
    t, xs = DATA[name]
    ds = sut.DataStructure(t, xs)
    c = sut.Correlator(ds)
    p = M.defaults(t)
    res = ([], [[] for _ in xs])  # None: unspecified (after a refusal)
    for i, op in enumerate(seq):
        ctx.transitions += 1
        if op in SETS:
            k, v = SETS[op]
            setattr(c, k, v)
            p[k] = v
        elif op in COMPUTE:
            ok = valid(p)
            try:
                compute(c, op)
                raised = None
            except ValueError as e:
                raised = e
            check((raised is None) == ok, "%s after %r with %r: %r", op, seq[:i], p, raised or "accepted")
            res = fresh(name, dict(p), op) if ok else None
        elif op == "clear":
            c.clearCorrelation()
            res = ([], [[] for _ in xs])
        elif op == "spoil":  # changing what reading returned
            a, b = read(c)
            for l in [a] + b:
                if l:
                    l[0] = 1e9
                l.append(7.0)
            b.append([])
        elif op == "peek":  # step functions on their own iterator, and other readers
            sut.step(c, 0.25, "fast", "gaussian")
            c.values()
            c.normalised_timeseries()
            c.fractionWeightFunction(1.0)
        elif op == "probe":  # every step function at a lag near the end, one before and one after the data
            for k in (t[-1] - t[0], -1.25, 2 * (t[-1] - t[0])):
                for sel, wf in sut.COMBOS:
                    sut.step(c, k, sel, wf)
        elif op == "other":  # another correlator on the same data
            o = sut.Correlator(ds)
            o.max_lag = 2.0
            o.lag_resolution = 0.125
            o.calculateStandardCorrelation()
        elif op == "store":  # storing one lag by hand: replaces the first result
            it = sut.step(c, 0.0)
            c.clearCorrelation()
            c.addCorrelationData(it, 0)
            c.cleanCorrelationData(1)
            q = dict(p, min_lag=0.0, max_lag=0.0, lag_resolution=1.0)
            res = fresh(name, q, "native")
        lags, rows = read(c)
        check(len(rows) == len(xs) and all(len(r) == len(lags) for r in rows), "after %r: %d lags, rows of %r", seq[:i + 1], len(lags), [len(r) for r in rows])
        if res is not None:
            check(same_list(lags, res[0]) and same_rows(rows, res[1], 1e-12),
                  "data %s after %r: %r %r, a fresh correlator with %r gives %r %r", name, seq[:i + 1], lags, rows, p, res[0], res[1])
        got = {k: getattr(c, k) for k in p}
        check(got == p, "after %r: parameters %r, should be %r", seq[:i + 1], got, p)
        ctx.states += 1
    ctx.traces += 1
    ctx.outcome((tuple(lags), tuple(round(v, 9) if v == v else None for r in rows for v in r)))


def histories(case, ctx):
    name, ops, start, depth = case
    for rest in itertools.product(ops, repeat=depth - len(start)):
        play(name, list(start) + list(rest), ctx)
        ctx.tick()


SINGLE = ["native", "fast", "gauss", "clear", "min=.5", "max=.5", "min=-1", "alpha=.5", "alpha=8"]
WIDE = ["native", "generic", "gauss", "clear", "spoil", "other", "store", "probe"] + list(SETS)
CORE = ["native", "fast", "clear", "min=0", "max=6", "res=.25", "res=2", "alpha=.5", "spoil", "probe"]
REFUSE = ["native", "generic", "res=0", "res=.25", "max=inf", "max=1", "min=9", "min=0", "clear", "square"]
STORE = ["native", "store", "clear", "peek", "max=1", "res=.25", "gauss", "probe"]


def SPACES(tier):
    big = tier == "thorough"

    def cases(ops, depth, names, width=2):
        def g():
            for name in names:
                for d in range(1, depth + 1):
                    w = min(width, d)
                    for start in itertools.product(ops, repeat=w):
                        yield [name, ops, list(start), d]
        return g

    d = 1 if big else 0
    return [
        Space("wide", cases(WIDE, 3, ["two", "one", "three"]), histories, "all sequences of up to 3 of 24 operations (5 kinds of computing, clearing, 16 parameter settings incl. unusable ones, interference), 3 data sets"),
        Space("core", cases(CORE, 5 + d, ["two"]), histories, "all sequences of up to 5 (6) of 10 operations"),
        Space("refuse", cases(REFUSE, 4 + d, ["two"]), histories, "all sequences of up to 4 (5) of 10 operations around refused computations"),
        Space("single", cases(SINGLE, 5 + d, ["one"]), histories, "all sequences of up to 5 (6) of 9 operations around a grid of one or few lags"),
        Space("store", cases(STORE, 5 + d, ["three"]), histories, "all sequences of up to 5 (6) of 8 operations with manual storing"),
    ]
