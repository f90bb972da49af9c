"""C08: built-in path, generic path and the step functions compute the same."""
import alphabet as A
import model as M
import sut
from common import CROSS, same_list, same_rows
from engine import Space, check

ID = "C08"
NAN = float("nan")
INF = float("inf")


def builtin(ds, given):
    s = sut.SACF.__new__(sut.SACF)
    s.data = ds
    out = s.autocorrelation(**sut.kw(given))
    return out[0], sut.rows(out[1], ds.N_datasets)


def native(ds, given):
    c = sut.Correlator(ds)
    sut.set_params(c, given)
    c.calculateStandardCorrelation()
    return c.lag_timeseries(), c.correlations()


def generic(ds, given):
    c = sut.Correlator(ds)
    sut.set_params(c, given)
    sut.SACF.find_correlation(c, "natural", "fractional")
    return c.lag_timeseries(), c.correlations()


def steps(ds, given):
    """The lag loop written out over the step functions, storing on the go."""
    c = sut.Correlator(ds)
    sut.set_params(c, given)
    lags = M.grid(c.min_lag, c.max_lag, c.lag_resolution)
    for i, k in enumerate(lags):
        it = sut.step(c, k)
        c.addCorrelationData(it, i)
    c.cleanCorrelationData(len(lags))
    return c.lag_timeseries(), c.correlations()


WAYS = [("autocorrelation", builtin), ("calculateStandardCorrelation", native), ("find_correlation", generic), ("steps", steps)]


def compare(ds, given, ctx, what, with_steps=True):
    ref = None
    for name, f in WAYS:
        if f is steps and not with_steps:
            continue
        lags, rows = f(ds, given)
        ctx.traces += 1
        ctx.states += len(lags) * len(rows)
        ctx.transitions += len(lags)
        if ref is None:
            ref = (lags, rows)
            continue
        check(lags == ref[0] or same_list(lags, ref[0]), "%s %r: lags %r by %s, %r by autocorrelation", what, given, lags, name, ref[0])
        check(same_rows(rows, ref[1], 1e-9), "%s %r: correlations %r by %s, %r by autocorrelation", what, given, rows, name, ref[1])
    ctx.outcome((tuple(ref[0]), tuple(tuple(round(v, 9) if v == v else None for v in r) for r in ref[1])))


def small(case, ctx):
    t, = case
    n = len(t)
    for given in list(A.param_menu(t)) + [{"min_lag": 2, "max_lag": 1}, {"max_lag": -100}, {"min_lag": 100}]:
        for xs in series_menu(n):
            compare(sut.DataStructure(t, xs), given, ctx, "t=%r x=%r" % (t, xs))
        ctx.tick()


def series_menu(n):
    p = list(A.patterns(n))
    yield p[0]
    yield p[1]
    yield p
    m = list(p[2])
    m[n // 2] = NAN
    yield m
    yield [p[3], m, p[1]]


def pairs(case, ctx):
    """all 0/1 value series on one sampling, as one data set and one by one"""
    t, given = case
    xs = [x for x in A.all_values(len(t), (0.0, 1.0)) if A.varied(x)]
    compare(sut.DataStructure(t, xs), given, ctx, "t=%r, all 0/1 series" % (t,))
    for x in xs[:: max(1, len(xs) // 4)]:
        compare(sut.DataStructure(t, x), given, ctx, "t=%r x=%r" % (t, x))


def longs(case, ctx):
    n, name, given = case
    t = dict(A.long_times(n))[name]
    xs = list(A.patterns(n))
    compare(sut.DataStructure(t, xs), given, ctx, "n=%d %s, 5 patterns" % (n, name))
    compare(sut.DataStructure(t, xs[2]), given, ctx, "n=%d %s, pattern 2" % (n, name))


SPECIAL = [None, 0.0, -0.0, 0.25, 1.0, -1.0, 3.0, -4.0, 1e300, -1e300, 2.0 ** -60, 5e-324, NAN, INF, -INF]


def refusals(case, ctx):
    """every combination of special values: refused by all ways or by none (kept to grids of at most 300 lags)"""
    t, lo, hi, res = case
    given = {k: float(v) for k, v in (("min_lag", lo), ("max_lag", hi), ("lag_resolution", res)) if v is not None}
    ds = sut.DataStructure(t, [1.0, 4.0, 2.0, 9.0][:len(t)])
    p = M.params(t, given)
    a, b, r = p["min_lag"], p["max_lag"], p["lag_resolution"]
    finite = abs(a) < INF and abs(b) < INF
    if finite and a <= b and r > 0 and (b - a) / r > 300 and a + r > a:
        return
    got = []
    for name, f in WAYS[:3]:
        try:
            x = f(ds, given)
        except Exception as e:
            x = type(e).__name__
            check(isinstance(e, (ValueError, ArithmeticError)), "t=%r %r: %s raised %r", t, given, name, e)
        got.append((name, x))
        ctx.traces += 1
        ctx.transitions += 1
    ctx.states += 1
    ref = got[0][1]
    for name, x in got[1:]:
        if isinstance(ref, str) or isinstance(x, str):
            check(isinstance(ref, str) and isinstance(x, str), "t=%r %r: %s gives %r, autocorrelation %r", t, given, name, x, ref)
        else:
            check(same_list(x[0], ref[0]) and same_rows(x[1], ref[1], 1e-9), "t=%r %r: %s gives %r, autocorrelation %r", t, given, name, x, ref)
    ctx.outcome(repr(ref))


def crossed(case, ctx):
    t, xs, given = case
    compare(sut.DataStructure(t, xs), given, ctx, "t=%r x=%r" % (t, xs))
    compare(sut.DataStructure(t, xs[-1]), given, ctx, "t=%r x=%r" % (t, xs[-1]))


def SPACES(tier):
    big = tier == "thorough"

    def smalls():
        for n in (2, 3, 4, 5) + ((6,) if big else ()):
            for t in A.all_times(n, A.GAPS if n < 5 or big else (1.0, 2.5)):
                yield [t]

    def pairss():
        for n in (2, 3, 4) + ((5, 6) if big else (5,)):
            for t in A.all_times(n, (1.0, 0.5, 3.0) if n < 5 else (1.0, 2.5)):
                for g in A.param_menu(t):
                    yield [t, g]

    def long():
        for n in (16, 33, 64, 100) + ((128, 200, 257) if big else ()):
            for name, t in A.long_times(n):
                for g in ({}, {"min_lag": 0, "lag_resolution": 0.75}, {"min_lag": -5.0, "max_lag": 5, "lag_resolution": 0.125, "alpha": 3.0}):
                    yield [n, name, g]
        for n, name, g in A.huge(big):
            yield [n, name, g]

    def refused():
        for t in ([0.0, 1.0, 2.5], [5.0, 5.5, 7.0, 7.25]):
            for lo in SPECIAL:
                for hi in SPECIAL:
                    for res in SPECIAL:
                        yield [t, lo, hi, res]

    def cross():
        for missing in (False, True):
            for t, xs, g in A.cross(big, missing=missing):
                yield [t, xs, g]

    return [
        Space("small", smalls, small, "all series of 2..5 (6) times x 14 parameter sets (incl. empty ranges) x 5 inputs (one or several series, missing values), four ways of computing"),
        Space("pairs", pairss, pairs, "all samplings of 2..5 (6) times, all 0/1 series, 11 parameter sets"),
        Space("long", long, longs, "lengths 16..100 (257), 8 samplings, 3 parameter sets; lengths 513..4097 (20000), 32769 and 65537 (262145), few lags"),
        Space("refused", refused, refusals, "15^3 combinations of ordinary and special min_lag, max_lag, lag_resolution on two samplings (grids beyond 300 lags left out): same refusals, same results"),
        Space("cross", cross, crossed, CROSS + ", with and without missing values"),
    ]
