"""C07: the correlation at lag 0 is 1."""
import itertools
import alphabet as A
import sut
from common import CROSS
from engine import Space, check

ID = "C07"
NAN = float("nan")


def zero(t, group, nseries, given, sel, wf, ctx, errors=None):
    lags, corr = sut.run(t, group, given, sel, wf)
    rows = sut.rows(corr, nseries)
    at = [i for i, k in enumerate(lags) if k == 0]
    ctx.traces += nseries
    ctx.transitions += len(lags)
    check(len(at) == 1, "t=%r %r %s/%s: lag 0 occurs %d times in %r", t, given, sel, wf, len(at), lags)
    for j in range(nseries):
        ctx.states += 1
        v = rows[j][at[0]]
        check(abs(v - 1.0) <= 1e-9, "t=%r x=%r series %d %r %s/%s: correlation at lag 0 is %r", t, group, j, given, sel, wf, v)
        ctx.outcome((tuple(round(a, 6) for a in rows[j]),))


def menu(t):
    span = t[-1] - t[0]
    yield {}
    yield {"min_lag": 0, "max_lag": 0}
    yield {"min_lag": -span / 2 - 0.25, "max_lag": max(span, 1.0), "lag_resolution": 0.75, "alpha": 0.125}
    yield {"min_lag": 0.25, "lag_resolution": 0.5, "max_lag": max(span, 0.5)}
    yield {"min_lag": -3 * span - 1, "max_lag": 2 * span + 1, "lag_resolution": 0.5, "alpha": 1000.0}
    yield {"min_lag": 0, "max_lag": 0.5, "lag_resolution": 0.25, "alpha": 1e-200}
    yield {"min_lag": -0.5, "max_lag": 0, "lag_resolution": 0.25, "alpha": 1e250}


def go(case, ctx):
    t, values, sel, wf = case
    n = len(t)
    vals = [float(v) for v in values]
    xs = []
    for x in A.all_values(n, vals):
        if A.varied(x):
            xs.append(x)
    for g in menu(t):
        zero(t, xs, len(xs), g, sel, wf, ctx)
        for x in xs[::max(1, len(xs) // 5)]:
            zero(t, x, 1, g, sel, wf, ctx)
        ctx.tick()


def lengths(case, ctx):
    n, name, off, scale, sel, wf = case
    t = dict(A.long_times(n))[name]
    xs = [[off + scale * v for v in x] for x in A.patterns(n)]
    ys = [[NAN if (i * 7 + n) % 5 == 0 else v for i, v in enumerate(x)] for x in xs]
    both = [x for x in xs + ys if A.varied(x)]
    span = t[-1] - t[0]
    for g in ({} if n <= 500 else {"lag_resolution": span / 3}, {"min_lag": -1.0, "max_lag": 1.0, "lag_resolution": 0.75}):
        if len(both) > 1:
            zero(t, both, len(both), g, sel, wf, ctx)
        for x in (xs[2], ys[2]):
            if A.varied(x):
                zero(t, x, 1, g, sel, wf, ctx)


VALUE_SETS = [
    [0, 1, -1], [0.1, 0.2, 0.7], [16777216, 16777217, 16777219], [1e9, 1e9 + 1, 1e9 + 0.5], [1e-9, 3e-9, -2e-9],
    [1e12, 1e12 + 1, 1e12 + 7], [-1e6, -1e6 + 0.25, 1e6], [1e-30, 2e-30, 0], [1e30, 3e30, -1e30], [1 / 3.0, 2 / 3.0, 1.1],
    ["nan", 0, 1], ["nan", 16777217, 16777221], ["nan", 0.1, -0.7],
    [1, 1 + 2 ** -30, 1 - 2 ** -30], [1e5 + 0.1, 1e5 + 0.2, 1e5 - 0.3], [1e-140, 2e-140, 5e-130],
]


def crossed(case, ctx):
    t, xs, given, sel, wf = case
    zero(t, xs, len(xs), given, sel, wf, ctx)
    zero(t, xs[0], 1, given, sel, wf, ctx)


def SPACES(tier):
    big = tier == "thorough"

    def small():
        for n in (2, 3, 4) + ((5,) if big else ()):
            times = [A.regular(n), A.times_from([0.5 + (i % 3) * 1.25 for i in range(n - 1)], -3.0),
                     A.times_from([4.0 if i == 0 else 0.25 for i in range(n - 1)], 2450000.5), A.times_from([1.0 if i else 0.125 for i in range(n - 1)])]
            for t in times:
                for vs in VALUE_SETS:
                    for sel, wf in sut.COMBOS:
                        yield [t, vs, sel, wf]

    def alltimes():
        for n in (3, 4, 5) + ((6,) if big else ()):
            for t in A.all_times(n, A.GAPS if n < 5 else (1.0, 2.5)):
                for sel, wf in sut.COMBOS:
                    yield [t, [0, 1], sel, wf]

    def longs():
        for n in list(range(2, 20)) + [32, 33, 63, 64, 65, 100, 127, 128, 129, 513, 1025, 4097] + ([255, 256, 257, 500, 8193, 20000] if big else []):
            for name, _ in A.long_times(n):
                for off, scale in ((0.0, 1.0), (2.0 ** 25 + 1, 1.0), (0.3, 0.001)):
                    for sel, wf in (sut.COMBOS if big else [sut.COMBOS[0], sut.COMBOS[5]]):
                        yield [n, name, off, scale, sel, wf]
        for n in A.block_lengths(big):
            if n > 1:
                yield [n, "bursts", 0.3, 0.001] + list(sut.COMBOS[0])
        for n, name, _ in A.giant(big):
            for sel, wf in sut.COMBOS:
                yield [n, name, 2.0 ** 25 + 1, 1.0, sel, wf]

    def cross():
        for missing in (False, True):
            for t, xs, g in A.cross(big, missing=missing):
                for sel, wf in sut.COMBOS:
                    yield [t, xs, g, sel, wf]

    return [
        Space("values", small, go, "all value series over 16 three-value alphabets (large, tiny, offset, not exact in single precision, missing), n=2..4 (5), 4 samplings, 7 grids, 6 function combinations"),
        Space("times", alltimes, go, "all samplings of 3..5 (6) times, all 0/1 series, 7 grids, 6 function combinations"),
        Space("lengths", longs, lengths, "every length up to 1200 (2500), round numbers up to 100000 (262144) and 513..4097 (20000), 32769 and 65537 (262145), 8 samplings, offsets and scales, with and without missing values"),
        Space("cross", cross, crossed, CROSS + ", with and without missing values"),
    ]
