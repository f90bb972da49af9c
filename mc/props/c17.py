"""C17: the correlation at a lag does not depend on the other lags computed."""
import itertools
import alphabet as A
import model as M
import sut
from common import compare, cross_space, same, same_list
from engine import Space, check

ID = "C17"


def analyse(t, xs, lo, hi, res, alpha, sel, wf):
    lags, corr = sut.run(t, xs, {"min_lag": lo, "max_lag": hi, "lag_resolution": res, "alpha": alpha}, sel, wf)
    return lags, sut.rows(corr, len(xs))


def pairs(case, ctx):
    """many grids over one data set: every lag is the same wherever it occurs"""
    t, sel, wf, alpha = case
    n = len(t)
    span = t[-1] - t[0]
    xs = [x for x in A.patterns(n) if A.varied(x)]
    seen = {}
    bounds = sorted({-2 * span - 1, -span, -span / 2, -0.5, 0.0, 0.25, 0.5, span / 2, span, span + 0.5, 2 * span + 3})
    for res in (0.125, 0.25, 0.5, 0.75, 1.0, 1.5, span, 2 * span):
        for lo in bounds:
            for hi in bounds:
                if lo > hi:
                    continue
                lags, rows = analyse(t, xs, lo, hi, res, alpha, sel, wf)
                want = M.grid(lo, hi, res)
                check(same_list(lags, want), "t=%r %r..%r by %r: lags %r, should be %r", t, lo, hi, res, lags, want)
                ctx.traces += 1
                ctx.states += len(lags) * len(xs)
                for j in range(len(xs)):
                    check(len(rows[j]) == len(lags), "t=%r %r..%r by %r: %d correlations for %d lags", t, lo, hi, res, len(rows[j]), len(lags))
                    for k, v in zip(lags, rows[j]):
                        key = (j, k)
                        if key in seen:
                            ctx.transitions += 1
                            w, g = seen[key]
                            check(same(v, w, 1e-12), "t=%r x=%r %s/%s alpha=%r: at lag %r %r with lags %r..%r by %r, %r with %r",
                                  t, xs[j], sel, wf, alpha, k, v, lo, hi, res, w, g)
                        else:
                            seen[key] = (v, (lo, hi, res))
        ctx.tick()
    ctx.outcome(tuple(sorted((k, round(v[0], 9)) for k, v in seen.items())))


def counts(case, ctx):
    """every number of lags, several series: complete and right"""
    t, m, res, sel, wf, los, span_ = case
    n = len(t)
    p = [x for x in A.patterns(n) if A.varied(x)]
    xs = [p[j % len(p)] if j < len(p) else [v * (j + 1) + i for i, v in enumerate(p[j % len(p)])] for j in range(m)]
    single = {}
    for lo in los:
        for count in range(span_[0], span_[1]):
            hi = lo + (count - 1) * res
            lags, rows = analyse(t, xs, lo, hi, res, 1.5, sel, wf)
            want = M.grid(lo, hi, res)
            check(same_list(lags, want), "t=%r %d series %r..%r by %r: lags %r, should be %r", t, m, lo, hi, res, lags, want)
            check(len(rows) == m and all(len(r) == len(want) for r in rows), "t=%r %d series, %d lags: rows of %r", t, m, len(want), [len(r) for r in rows])
            for j in range(m):
                for k, v in zip(lags, rows[j]):
                    if (j, k) not in single:
                        # alone: a grid of this lag only (lag 0 comes first for a positive one)
                        l1, r1 = analyse(t, xs[j:j + 1], k, k, 1.0, 1.5, sel, wf)
                        check(l1[-1] == k, "single lag %r gives lags %r", k, l1)
                        single[(j, k)] = r1[0][-1]
                        ctx.traces += 1
                    ctx.transitions += 1
                    check(same(v, single[(j, k)], 1e-9), "t=%r series %d of %d, %d lags from %r by %r %s/%s: at lag %r %r, alone %r",
                          t, j, m, len(lags), lo, res, sel, wf, k, v, single[(j, k)])
            ctx.traces += 1
            ctx.states += m * len(lags)
            ctx.tick()
    ctx.outcome((m, res, sel, wf))


def wide(case, ctx):
    """ranges far beyond the data and resolutions far below the sampling"""
    t, lo, hi, res, m, sel, wf = case
    n = len(t)
    p = [x for x in A.patterns(n) if A.varied(x)]
    xs = [p[j % len(p)] for j in range(m)]
    given = {"min_lag": lo, "max_lag": hi, "lag_resolution": res}
    lags, corr = sut.run(t, xs, given, sel, wf)
    check(same_list(lags, M.grid(lo, hi, res)), "t=%r %r: %d lags", t, given, len(lags))
    compare(t, xs, given, lags, sut.rows(corr, m), ctx, selection=sel, weight=wf)


def longs(case, ctx):
    n, name, sel, wf = case
    t = dict(A.long_times(n))[name]
    span = t[-1] - t[0]
    xs = list(A.patterns(n))[:3]
    lags, rows = analyse(t, xs, -span, span, span / 4, 1.5, sel, wf)
    check(len(lags) == 9 and all(len(r) == 9 for r in rows), "n=%d %s: %d lags", n, name, len(lags))
    for i, k in enumerate(lags):
        for lo, hi, res in ((k, k, 1.0), (k - 1.0, k + 1.0, 0.5)):
            l1, r1 = analyse(t, xs, lo, hi, res, 1.5, sel, wf)
            check(k in l1, "n=%d %s: no lag %r in %r", n, name, k, l1)
            at = l1.index(k)
            ctx.traces += 1
            ctx.states += len(xs)
            ctx.transitions += len(xs)
            for j in range(len(xs)):
                check(same(r1[j][at], rows[j][i], 1e-9), "n=%d %s series %d %s/%s lag %r: %r in %r..%r, %r in %r..%r by %r",
                      n, name, j, sel, wf, k, r1[j][at], lo, hi, rows[j][i], -span, span, span / 4)
    ctx.tick()


def SPACES(tier):
    big = tier == "thorough"
    two = [sut.COMBOS[0], sut.COMBOS[5]]

    def prs():
        for n in (2, 3, 4) + ((5,) if big else ()):
            for t in A.all_times(n, A.GAPS if n < 4 else (1.0, 2.5)):
                for sel, wf in sut.COMBOS:
                    for alpha in (0.5, 3.0) if big or n < 4 else (0.5,):
                        yield [t, sel, wf, alpha]

    def cnts():
        for t in ([0.0, 1.0, 2.0, 4.0], [0.0, 0.5, 3.0]):
            for m in (1, 2, 3, 5):
                for res in (0.25, 1.0):
                    for sel, wf in two if not big else sut.COMBOS:
                        for lo in (-3.0, 0.0, 0.25):
                            top = 120 if not big else 320
                            for a in range(1, top, 10):
                                yield [t, m, res, sel, wf, [lo], [a, a + 10]]

    def wides():
        for t in ([0.0, 1.0, 2.0, 4.0], [7.0, 7.5, 10.0], A.regular(9, 0.5)):
            for sel, wf in sut.COMBOS:
                for m in (1, 2, 3, 7):
                    yield [t, -1000.0, 1000.0, 0.5, m, sel, wf]
                    yield [t, 0.0, 3.0, 2.0 ** -10, m, sel, wf]
                    yield [t, -4.0, 0.0, 2.0 ** -9, m, sel, wf]
                    yield [t, 500.0, 900.0, 1.0, m, sel, wf]
                    yield [t, -900.0, -500.0, 1.0, m, sel, wf]
                    for e in (7, 8, 9, 10):  # around powers of two
                        for d in (-1, 0, 1):
                            yield [t, 0.0, (2 ** e + d - 1) * 2.0 ** -6, 2.0 ** -6, m, sel, wf]
        for sel, wf in sut.COMBOS:
            for m in (1, 2):
                yield [[0.0, 1.0, 2.0, 4.0], -4.0, 4.0, 2.0 ** -12, m, sel, wf]
                yield [[0.0, 1.0, 2.0, 4.0], -5.0, 4.5, 2.0 ** -13, m, sel, wf]
        if big:
            for sel, wf in sut.COMBOS:
                for m in (1, 3):
                    yield [[0.0, 1.0, 2.0, 4.0], -4.0, 4.0, 2.0 ** -15, m, sel, wf]
                    yield [[0.0, 1.0, 2.0, 4.0], -50000.0, 50000.0, 0.5, m, sel, wf]

    def huges():  # every lag of a coarse grid again alone, on long series
        for n in (513, 1025, 4097) + ((8193,) if big else ()):
            for name, t in A.long_times(n):
                for sel, wf in sut.COMBOS:
                    yield [n, name, sel, wf]

    return [
        Space("pairs", prs, pairs, "11x11 lag ranges x 8 resolutions on all samplings of 2..4 (5) times x functions: every lag has one value"),
        Space("counts", cnts, counts, "every number of lags 1..120 (320), 1..5 series, 3 starts, 2 resolutions: each lag and series as computed alone"),
        Space("wide", wides, wide, "lags far beyond the data, resolutions far below the sampling, counts around powers of two, up to 7 series: against the estimator"),
        Space("long", huges, longs, "series of 513..4097 (8193) samples, 8 samplings: 9 lags over the whole span and again alone and among near ones"),
        cross_space(big, sut.COMBOS[::5]),
    ]
