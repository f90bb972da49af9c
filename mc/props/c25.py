"""C25: results have the documented shape."""
import itertools
import alphabet as A
import model as M
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C25"


def is_list(x, what):
    check(isinstance(x, list), "%s is a %s", what, type(x).__name__)


def shape(t, values, m, given, sel, wf, ctx, obj=None):
    s = obj or sut.SACF(t, values)
    kw = dict(sut.kw(given))
    if sel:
        kw["selection_function"] = sel
    if wf:
        kw["weight_function"] = wf
    p = M.params(t, given)
    lags_want = M.grid(p["min_lag"], p["max_lag"], p["lag_resolution"])
    plain = s.autocorrelation(**kw)
    off = s.autocorrelation(return_correlator=False, **kw)
    full = s.autocorrelation(return_correlator=True, **kw)
    what = "n=%d, %d series, %r %s/%s" % (len(t), m, given, sel, wf)
    check(isinstance(plain, tuple) and isinstance(full, tuple), "%s: a %s", what, type(plain).__name__)
    check(len(plain) == 2 and len(off) == 2 and len(full) == 3, "%s: %d, %d and %d results", what, len(plain), len(off), len(full))
    check(isinstance(full[2], sut.Correlator), "%s: third result is %r", what, full[2])
    for out in (plain, off, full):
        lags, corr = out[0], out[1]
        is_list(lags, what + " lags")
        is_list(corr, what + " correlations")
        check(same_list(lags, lags_want, 1e-12), "%s: lags %r, should be %r", what, lags, lags_want)
        if m == 1:
            check(len(corr) == len(lags) and all(isinstance(v, float) for v in corr), "%s: correlations %r for lags %r", what, corr, lags)
        else:
            check(len(corr) == m, "%s: %d rows", what, len(corr))
            for r in corr:
                is_list(r, what + " row")
                check(len(r) == len(lags) and all(isinstance(v, float) for v in r), "%s: row %r for lags %r", what, r, lags)
        check(all(isinstance(v, float) for v in lags), "%s: lags %r", what, lags)
        check(same_list(lags, plain[0]) and same_rows(sut.rows(corr, m), sut.rows(plain[1], m)), "%s: results differ with return_correlator", what)
    c = full[2]
    check(same_list(c.lag_timeseries(), full[0]) and same_rows(c.correlations(), sut.rows(full[1], m)), "%s: the correlator reports %r %r", what, c.lag_timeseries(), c.correlations())
    check(c.N_datasets == m and c.M_datapoints == len(t), "%s: the correlator counts %r %r", what, c.N_datasets, c.M_datapoints)
    ctx.states += len(lags_want) * m
    ctx.transitions += 3
    ctx.traces += 3
    ctx.outcome((m, len(lags_want)))
    return plain


def menu(t):
    for g in A.param_menu(t):
        yield g
    yield {"min_lag": 2.0, "max_lag": 1.0}
    yield {"min_lag": 1e6}
    yield {"min_lag": 0.0, "max_lag": 0.0}
    yield {"min_lag": -1.0, "max_lag": -1.0}


def small(case, ctx):
    t, m, as_2d = case
    n = len(t)
    p = list(A.patterns(n))
    rows = [p[j % 5] if j < 5 else [v * j + 1 for v in p[j % 5]] for j in range(m)]
    values = rows if as_2d else rows[0]
    for g in menu(t):
        for sel, wf in [(None, None), ("natural", None), (None, "fractional")] + sut.COMBOS:
            shape(t, values, m, g, sel, wf, ctx)
        ctx.tick()


def order(case, ctx):
    """rows come in the order of the series: each against the estimator"""
    t, perm, given, sel, wf = case
    n = len(t)
    p = list(A.patterns(n)) + [[float(i * i) - 3 for i in range(n)]]
    rows = [p[i] for i in perm]
    out = shape(t, rows, len(rows), given, sel, wf, ctx)
    want, _ = M.correlations(t, rows, M.params(t, given), out[0], sel, wf)
    for j, r in enumerate(sut.rows(out[1], len(rows))):
        if A.varied(rows[j]):
            check(all(M.close(g, w) for g, w in zip(r, want[j])), "t=%r series %r row %d: %r, should be %r", t, perm, j, r, want[j])


def filed(case, ctx):
    n, three, given, sel, wf = case
    t = [0.5 * i for i in range(n)]
    x = [float((i * 7) % 5) for i in range(n)]
    with open("c25.txt", "w") as fh:
        for i in range(n):
            fh.write("%r %r%s\n" % (t[i], x[i], " 0.5" if three else ""))
    s = sut.SACF(filename="c25.txt")
    shape(t, None, 1, given, sel, wf, ctx, s)
    check(isinstance(s.data, sut.DataStructure), "SACF.data is %r", s.data)


def SPACES(tier):
    big = tier == "thorough"

    def smalls():
        for n in (2, 3, 4, 7) + ((5, 16) if big else ()):
            for t in (A.regular(n), A.times_from([1.0 if i % 2 else 2.5 for i in range(n - 1)], -2.0), A.times_from([0.5] * (n - 2) + [6.0])):
                for m in (1, 2, 3, 4, 7) + ((5, 6, 16, 33) if big else ()):
                    yield [t, m, True]
                yield [t, 1, False]

    def orders():
        for n in (3, 4):
            for t in (A.regular(n), A.times_from([1.0 if i % 2 else 2.5 for i in range(n - 1)])):
                for m in (1, 2, 3, 4):
                    for perm in itertools.permutations(range(6), m):
                        if m < 4 or big or perm[0] == 0:
                            for g in ({}, {"min_lag": 0.25, "lag_resolution": 0.5}):
                                for sel, wf in sut.COMBOS[::5] if not big else sut.COMBOS:
                                    yield [t, list(perm), g, sel, wf]

    def files():
        for n in (2, 3, 8):
            for three in (False, True):
                for g in ({}, {"min_lag": 0.0}, {"min_lag": 2.0, "max_lag": 1.0}):
                    for sel, wf in sut.COMBOS:
                        yield [n, three, g, sel, wf]

    def crowds():
        for m in (255, 256, 257, 1000, 4097):
            yield [[0.0, 1.0, 3.0], m, True]

    def crowd(case, ctx):
        t, m, _ = case
        p = list(A.patterns(len(t)))
        rows = [p[j % 5] for j in range(m)]
        for g in ({"min_lag": 0.0, "max_lag": 2.0}, {"min_lag": 2.0, "max_lag": 1.0}):
            for sel, wf in [(None, None)] + sut.COMBOS[::5]:
                shape(t, rows, m, g, sel, wf, ctx)
            ctx.tick()

    def fines():
        for n in (2, 3, 4):
            t = A.times_from([1.0 if i % 2 else 2.5 for i in range(n - 1)], -2.0)
            for m in (1, 2):
                for count in list(range(1, 300, 1 if big else 7)) + [255, 256, 257, 512, 513, 767, 769, 1000, 1025, 2049, 4096, 4097, 10000, 65537]:
                    yield [t, m, count]

    def fine(case, ctx):
        t, m, count = case
        p = list(A.patterns(len(t)))
        for sel, wf in [(None, None), sut.COMBOS[4]]:
            shape(t, p[:m] if m > 1 else p[2], m, {"min_lag": -1.0, "max_lag": -1.0 + (count - 1) * 2.0 ** -9, "lag_resolution": 2.0 ** -9}, sel, wf, ctx)
        ctx.tick()

    return [
        Space("lags", fines, fine, "1..300 and selected numbers up to 65537 of lags for 2..4 samples, one and two series"),
        Space("crowd", crowds, crowd, "255..4097 series"),
        Space("shape", smalls, small, "1..7 (33) series x samplings x 15 parameter sets (incl. empty ranges and single lags) x functions given or omitted, with and without return_correlator"),
        Space("order", orders, order, "all permutations of 1..4 out of 6 series: rows in input order"),
        Space("file", files, filed, "the same from files"),
    ]
