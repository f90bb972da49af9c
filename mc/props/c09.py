"""C09: series analysed together do not influence each other."""
import itertools
import alphabet as A
import sut
from common import CROSS, same, same_list
from engine import Space, check

ID = "C09"
NAN = float("nan")


def pool(n):
    """series that expose each other: different sizes of values, missing values at both ends, constants, all missing"""
    p = [
        [float(i) for i in range(n)],
        [1e6 * ((-1) ** i) + i for i in range(n)],
        [5.0] * n,
        [NAN if i == 0 else float(i * i) - 3 for i in range(n)],
        [NAN if i == n - 1 else 1.0 / (i + 1) for i in range(n)],
        [1e-7 * (i % 3) + 100.0 for i in range(n)],
        [NAN] * n,
        [0.0 if i else -2.5 for i in range(n)],
    ]
    return p


def alone(t, x, given, sel, wf, cache={}):
    key = (tuple(t), repr(x), repr(given), sel, wf)
    if key not in cache:
        if len(cache) > 20000:
            cache.clear()
        ds = sut.DataStructure(t, x)
        s = sut.SACF(t, x)
        lags, corr = s.autocorrelation(selection_function=sel, weight_function=wf, **given)
        cache[key] = (lags, corr, ds.data()[0], ds.normalised_data()[0], ds.mean_data[0])
    return cache[key]


def compare(t, group, given, sel, wf, ctx, as_list=True):
    ds = sut.DataStructure(t, group)
    check(ds.N_datasets == len(group) and ds.M_datapoints == len(t), "counts %r, %r", ds.N_datasets, ds.M_datapoints)
    lags, corr = sut.run(t, group, given, sel, wf)
    rows = sut.rows(corr, len(group))
    check(len(rows) == len(group), "t=%r: %d rows for %d series", t, len(rows), len(group))
    data, norm, mean = ds.data(), ds.normalised_data(), ds.mean_data
    for j, x in enumerate(group):
        l1, r1, d1, n1, m1 = alone(t, x, given, sel, wf)
        what = (t, j, group, given, sel, wf)
        check(same_list(lags, l1), "t=%r series %d of %r %r %s/%s: lags %r, alone %r", *(what + (lags, l1)))
        # the same arithmetic on the same numbers; a little slack leaves room for vectorised summation
        scale = max([abs(v) for v in r1 if v == v] or [0.0])
        check(len(rows[j]) == len(r1) and all(same(a, b, 1e-9, 1.0) for a, b in zip(rows[j], r1)),
              "t=%r series %d of %r %r %s/%s: correlations %r, alone %r", *(what + (rows[j], r1)))
        check(same_list(data[j], d1, 0.0), "t=%r series %d of %r: values %r, alone %r", t, j, group, data[j], d1)
        check(same(mean[j], m1, 1e-12, 0.0) and same_list(norm[j], n1, 1e-9, abs(m1) if m1 == m1 else 1.0),
              "t=%r series %d of %r: mean %r normalised %r, alone %r %r", t, j, group, mean[j], norm[j], m1, n1)
        ctx.states += len(lags)
        ctx.transitions += 1
    ctx.traces += 1
    ctx.outcome(tuple(tuple(round(v, 7) if v == v else None for v in r) for r in rows))


def seqs(case, ctx):
    t, m, given, combos = case
    p = pool(len(t))
    for group in itertools.product(range(len(p)), repeat=m):
        for sel, wf in combos:
            compare(t, [p[i] for i in group], given, sel, wf, ctx)
        ctx.tick()


def many(case, ctx):
    """larger groups: every rotation and the reverse of the pool repeated to m series"""
    t, m, given, sel, wf = case
    p = pool(len(t)) + list(A.patterns(len(t)))
    for r in range(0, len(p), max(1, len(p) // 5)):
        g = [p[(r + i) % len(p)] for i in range(m)]
        compare(t, g, given, sel, wf, ctx)
        compare(t, g[::-1], given, sel, wf, ctx)


def crowd(case, ctx):
    """tens of thousands of series: the pool again and again"""
    n, m, given, sel, wf = case
    t = A.times_from([1.0 + (i % 3) for i in range(n - 1)])
    p = pool(n) + list(A.patterns(n))
    compare(t, [p[(j * 7 + j // 100) % len(p)] for j in range(m)], given, sel, wf, ctx)


def menu(t):
    span = t[-1] - t[0]
    yield {}
    yield {"min_lag": 0.0}
    yield {"lag_resolution": 0.25, "max_lag": span + 1.0}
    yield {"min_lag": 0.25, "max_lag": 1.5, "lag_resolution": 0.5, "alpha": 0.25}
    yield {"min_lag": 3.0, "max_lag": 1.0}
    yield {"min_lag": 0.0, "max_lag": 0.0}


def permuted(case, ctx):
    """series that agree in everything but the order of their values, and such that differ in sign"""
    t, vals, given, sel, wf = case
    ps = [list(p) for p in itertools.permutations(vals)]
    compare(t, ps, given, sel, wf, ctx)
    compare(t, ps[::-1], given, sel, wf, ctx)
    for i, a in enumerate(ps):
        for b in ps[i % 3::3] if len(ps) > 30 else ps:
            compare(t, [a, b], given, sel, wf, ctx)
        compare(t, [a, [-v for v in a], a], given, sel, wf, ctx)
        compare(t, [a, a[::-1], [v * 2 for v in a]], given, sel, wf, ctx)
        ctx.tick()


def crossed(case, ctx):
    t, xs, given, sel, wf = case
    compare(t, xs + [[-v for v in xs[0]]], given, sel, wf, ctx)


def SPACES(tier):
    big = tier == "thorough"
    two = [sut.COMBOS[0], sut.COMBOS[5]]

    def small():
        for n in (2, 3, 4) + ((5,) if big else ()):
            for t in (A.regular(n), A.times_from([1.0 if i % 2 else 2.5 for i in range(n - 1)], 3.0)):
                for g in menu(t):
                    for m in (1, 2, 3):
                        yield [t, m, g, sut.COMBOS if m < 3 or big else two]
                    if big and n == 3:
                        yield [t, 4, g, two]

    def large():
        for n in (2, 3, 5, 8, 17) + ((64, 100) if big else ()):
            for t in (A.regular(n, 0.5), A.times_from([1.0 + (i % 3) for i in range(n - 1)])):
                for m in (4, 5, 6, 7, 8, 9, 16, 17, 33) + ((64, 65, 100) if big else ()):
                    for g in menu(t):
                        for sel, wf in (sut.COMBOS if big else two):
                            yield [t, m, g, sel, wf]
        for n, m in ((2, 257), (3, 513), (9, 1025), (513, 2), (1025, 3), (4097, 2)) + (((8193, 3), (2, 4097), (100, 1000)) if big else ()):
            for t in (A.regular(n, 0.5), A.times_from([1.0 + (i % 3) for i in range(n - 1)])):
                for sel, wf in two:
                    yield [t, m, {"min_lag": 0.0, "max_lag": 1.5, "lag_resolution": 0.5}, sel, wf]

    def crowds():
        for n, m in ((2, 32769), (2, 65537)) + (((2, 70000), (5, 66000)) if big else ()):
            for sel, wf in two:
                yield [n, m, {"min_lag": 0.0, "max_lag": 1.5, "lag_resolution": 0.5}, sel, wf]

    def perms():
        for vals in ([1.0, 2.0, 5.0], [1.0, 2.0, 5.0, 0.0], [1.0, -1.0, 3.0, -3.0], [0.0, 1.0, 2.0, 5.0, -3.0], [1.0, NAN, 5.0, 2.0]):
            n = len(vals)
            for t in (A.regular(n), A.times_from([1.0 if i % 2 else 2.5 for i in range(n - 1)], 3.0)):
                for g in ({}, {"min_lag": 0.25, "max_lag": 1.5, "lag_resolution": 0.5, "alpha": 0.25}):
                    for sel, wf in two:
                        yield [t, vals, g, sel, wf]

    def cross():
        for missing in (False, True):
            for t, xs, g in A.cross(big, missing=missing):
                for sel, wf in two:
                    yield [t, xs, g, sel, wf]

    return [
        Space("sequences", small, seqs, "all sequences with repetition of 1..3 (4) series out of 8 (large, tiny, constant, partly and fully missing) x samplings of 2..4 (5) times x 6 parameter sets x function combinations; correlations and data accessors compared with each series alone"),
        Space("many", large, many, "groups of 4..33 (100) series, rotations and reverses, lengths 2..17 (100); up to 1025 (4097) series; lengths up to 4097 (8193)"),
        Space("crowd", crowds, crowd, "32769 and 65537 (70000) series of 2 (5) samples"),
        Space("permuted", perms, permuted, "all pairs (of 5 values: a third of them) of permutations of 5 sets of 3..5 values, all of them at once, negated, reversed and doubled ones"),
        Space("cross", cross, crossed, CROSS + ", with and without missing values"),
    ]
