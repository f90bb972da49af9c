"""C01: the default autocorrelation against the estimator, lag by lag."""
import alphabet as A
import sut
from common import compare, cross_space
from engine import Space

ID = "C01"


def single(case, ctx):
    t, given = case
    n = len(t)
    for x in A.nonconstant(A.all_values(n, (0.0, 1.0, -2.0))):
        lags, corr = sut.run(t, x, given)
        compare(t, [x], given, lags, [corr], ctx)
        ctx.tick()


def batch_values(n):
    if n <= 5:
        return list(A.nonconstant(A.all_values(n, (-1.0, 0.0, 2.0))))
    return list(A.nonconstant(A.impulses(n))) + list(A.patterns(n))


def batch(case, ctx):
    t, given = case
    xs = batch_values(len(t))
    lags, corr = sut.run(t, xs, given)
    compare(t, xs, given, lags, sut.rows(corr, len(xs)), ctx)


def long_run(case, ctx):
    n, name, given = case
    t = dict(A.long_times(n))[name]
    xs = [x for x in A.patterns(n)]
    for x in xs[:2]:
        lags, corr = sut.run(t, x, given)
        compare(t, [x], given, lags, [corr], ctx)
        ctx.tick()
    lags, corr = sut.run(t, xs, given)
    compare(t, xs, given, lags, sut.rows(corr, len(xs)), ctx)


def scale_run(case, ctx):
    """distances of very different size; the lags asked for one at a time"""
    t, = case
    n = len(t)
    tn = [a - t[0] for a in t]
    xs = list(A.impulses(n)) + [x for x in A.patterns(n)]
    xs = list(A.nonconstant(xs))
    e = 2.0 ** -23
    for k in sorted(set(c - a + d for a in tn for c in [(u + v) / 2 for u, v in zip(tn, tn[1:])] + tn for d in (-e, 0.0, e))):
        given = {"min_lag": k, "max_lag": k, "lag_resolution": tn[-1], "alpha": 2.0}
        lags, corr = sut.run(t, xs, given)
        compare(t, xs, given, lags, sut.rows(corr, len(xs)), ctx)
    ctx.tick()


# times as observers write them: decimal days with an offset, not exact in binary
def decimal(case, ctx):
    start, scale, ks, x, given = case
    t = [start + scale * k for k in ks]
    eps = 1e-9 * max(1.0, abs(start)) * 8
    lags, corr = sut.run(t, x, given)
    compare(t, [x], given, lags, [corr], ctx, eps=eps)


def decimal_cases(tier):
    vals = ([0.1, 0.25, -0.3, 1.7, 0.9, 0.33], [1000.1, 1000.25, 999.7, 1001.7, 1000.9, 1000.33])
    grids = ([0, 1, 2, 3, 4, 5], [0, 1, 3, 4, 7, 12], [0, 5, 6, 7, 13, 14], [0, 2, 3, 11, 12, 13])
    for start in (0.0, 0.1, -5.3, 2450000.5, 58849.123):
        for scale in (0.1, 0.3, 1.0 / 3, 0.02, 7.7):
            for ks in grids:
                for x in vals:
                    for given in ({}, {"min_lag": 0}, {"lag_resolution": 0.07 * scale, "min_lag": -scale, "max_lag": 3 * scale},
                                  {"lag_resolution": 0.39 * scale, "alpha": 0.1}):
                        yield [start, scale, ks, x, given]


def SPACES(tier):
    big = tier == "thorough"

    def singles():
        for n in (2, 3, 4) + ((5,) if big else ()):
            for t in A.all_times(n):
                for g in A.param_menu(t):
                    yield [t, g]

    def batches():
        for n in (2, 3, 4, 5):
            for t in A.all_times(n):
                for g in A.param_menu(t):
                    yield [t, g]
        for n in (6, 7) + ((8,) if big else ()):
            for t in A.all_times(n, (1.0, 2.5) if n > 6 and not big else (1.0, 2.0, 0.5)):
                for gi, g in enumerate(A.param_menu(t)):
                    if big or gi in (0, 3, 5, 6, 7):
                        yield [t, g]

    def longs():
        for n in (8, 16, 17, 33, 64, 65, 100) + ((128, 129, 200, 257) if big else ()):
            for name, t in A.long_times(n):
                for g in ({}, {"min_lag": 0, "lag_resolution": 0.75}, {"min_lag": -5, "max_lag": 5, "lag_resolution": 0.125, "alpha": 3.0}):
                    yield [n, name, g]

    def scales():
        for n in (2, 3, 4) + ((5,) if big else ()):
            for t in A.all_times(n, (1.0, 2.0 ** 25, 2.0 ** -22)):
                yield [t]

    def huge():
        for n in (513, 1025, 2049, 4097) + ((8193, 20000) if big else ()):
            for name, t in A.long_times(n):
                span = t[-1] - t[0]
                yield [n, name, {"min_lag": -span, "max_lag": span, "lag_resolution": span / (16 if big else 8)}]
        for n, name, t in A.giant(big):
            span = t[-1] - t[0]
            yield [n, name, {"min_lag": -0.5, "max_lag": span, "lag_resolution": span / 3}]

    return [
        Space("single", singles, single, "every series of 2..4 times with distances in {1,2,0.5,3} x 11 parameter sets x all non-constant values over {0,1,-2}, one call each"),
        Space("batch", batches, batch, "every series of 2..7 times x parameter sets; all value series over {-1,0,2} (n<=5), all impulses and impulse pairs and 5 patterns (n>5) as series of one call"),
        Space("long", longs, long_run, "8 time patterns x lengths up to 100 (257) x 3 parameter sets x 5 value patterns"),
        Space("scales", scales, scale_run, "all series of 2..4 (5) times over distances {1, 2^25, 2^-22}; lags before/at/after every midpoint and sample"),
        Space("huge", huge, long_run, "8 time patterns x lengths 513..4097 (20000) x 5 value patterns, 17 (33) lags; 32769 and 65537 (262145) samples, 5 lags"),
        Space("decimal", lambda: decimal_cases(tier), decimal, "decimal times with offsets; lags where rounding may decide are skipped"),
        cross_space(big, [(None, None)]),
    ]
