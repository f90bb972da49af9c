"""C11: missing values are left out everywhere, and only where they are."""
import itertools
import alphabet as A
import model as M
import sut
from common import compare, cross_space, same, same_list
from engine import Space, check

ID = "C11"
NAN = float("nan")


def masked(x, mask):
    return [NAN if mask >> i & 1 else v for i, v in enumerate(x)]


def finite(rows, xs, what):
    for j, x in enumerate(xs):
        check(all(v == v and abs(v) < float("inf") for v in rows[j]), "%s x=%r: correlations %r", what, x, rows[j])


def subsets(case, ctx):
    """all masks of missing values over several value series, one call each and all in one call"""
    t, given, sel, wf = case
    n = len(t)
    xs = []
    for x in list(A.patterns(n)) + [[16777216.0 + 3 * i * i for i in range(n)]]:
        for mask in range(1 << n):
            y = masked(x, mask)
            if A.varied(y):
                xs.append(y)
    if not xs:
        return
    lags, corr = sut.run(t, xs, given, sel, wf)
    rows = sut.rows(corr, len(xs))
    finite(rows, xs, "t=%r %r %s/%s" % (t, given, sel, wf))
    compare(t, xs, given, lags, rows, ctx, selection=sel, weight=wf)
    for x in xs[::7]:
        l1, c1 = sut.run(t, x, given, sel, wf)
        check(l1 == lags, "t=%r x=%r %r: lags %r, without missing values %r", t, x, given, l1, lags)
        compare(t, [x], given, l1, [c1], ctx, selection=sel, weight=wf)


def values(case, ctx):
    """every series over {NaN, 0, 1, -2}"""
    t, given, sel, wf = case
    for x in A.all_values(len(t), (NAN, 0.0, 1.0, -2.0)):
        ds = sut.DataStructure(t, x)
        present = [v for v in x if v == v]
        mean = ds.mean_data[0]
        ctx.states += 1
        if present:
            check(same(mean, sum(present) / len(present), 1e-14), "mean of %r is %r", x, mean)
            check(same_list(ds.normalised_data()[0], [v - mean for v in x]), "normalised %r is %r", x, ds.normalised_data()[0])
        if A.varied(x):
            lags, corr = sut.run(t, x, given, sel, wf)
            finite([corr], [x], "t=%r %r" % (t, given))
            compare(t, [x], given, lags, [corr], ctx, selection=sel, weight=wf)
        ctx.tick()


def sparse(case, ctx):
    """long series of which two or three values are present"""
    t, sel, wf, places = case
    n = len(t)
    xs = []
    for at in places:
        x = [NAN] * n
        for c, i in enumerate(at):
            x[i] = (3.0, -2.0, 7.5)[c]
        xs.append(x)
    ds = sut.DataStructure(t, xs)
    for x, m, d in zip(xs, ds.mean_data, ds.normalised_data()):
        check(same(m, M.mean(x), 1e-14), "mean of %r is %r", x, m)
        check(same_list(d, [v - M.mean(x) for v in x], 1e-14), "normalised %r is %r", x, d)
    g = {"min_lag": -1.5, "max_lag": t[-1] - t[0], "lag_resolution": (t[-1] - t[0]) / 8}
    lags, corr = sut.run(t, xs, g, sel, wf)
    finite(sut.rows(corr, len(xs)), xs, "t=%r %r" % (t, g))
    compare(t, xs, g, lags, sut.rows(corr, len(xs)), ctx, selection=sel, weight=wf)
    lags, corr = sut.run(t, xs[0], g, sel, wf)
    compare(t, xs[:1], g, lags, [corr], ctx, selection=sel, weight=wf)


def others(case, ctx):
    """missing values in one series leave the other series as they were"""
    t, given, sel, wf = case
    n = len(t)
    p = list(A.patterns(n))
    base = [p[0], p[1], p[4] if A.varied(p[4]) else p[0]]
    lags, ref = sut.run(t, base, given, sel, wf)
    for j in range(3):
        for mask in range(1, 1 << n):
            g = list(base)
            g[j] = masked(base[j], mask)
            l2, r2 = sut.run(t, g, given, sel, wf)
            ctx.traces += 1
            check(l2 == lags, "t=%r %r: lags %r, %r", t, g, l2, lags)
            for i in range(3):
                if i != j:
                    ctx.states += len(lags)
                    check(same_list(r2[i], ref[i], 1e-10), "t=%r %r %r %s/%s: series %d is %r, %r without missing values in series %d",
                          t, g, given, sel, wf, i, r2[i], ref[i], j)
            if A.varied(g[j]):
                compare(t, [g[j]], given, lags, [r2[j]], ctx, selection=sel, weight=wf)
        ctx.tick()


def longs(case, ctx):
    n, name, period, phase, run_, sel, wf = case[:7]
    t = dict(A.long_times(n))[name]
    xs = []
    for x in A.patterns(n):
        y = [NAN if (i + phase) % period < run_ else v for i, v in enumerate(x)]
        if A.varied(y):
            xs.append(y)
    if not xs:
        return
    g = case[7] if len(case) > 7 else {"min_lag": -6.0, "max_lag": 11.0, "lag_resolution": 0.75}
    lags, corr = sut.run(t, xs, g, sel, wf)
    compare(t, xs, g, lags, sut.rows(corr, len(xs)), ctx, selection=sel, weight=wf)


def SPACES(tier):
    big = tier == "thorough"

    def subs():
        for n in (2, 3, 4, 5) + ((6, 7) if big else ()):
            for t in A.all_times(n, A.GAPS if n < 4 else (1.0, 2.5) if n > 4 else (1.0, 0.5, 3.0)):
                for gi, g in enumerate(A.param_menu(t)):
                    if n < 4 or gi in (0, 3, 5, 7) or (big and n < 7):
                        for sel, wf in sut.COMBOS if n < 5 or big else sut.COMBOS[::5]:
                            yield [t, g, sel, wf]

    def vals():
        for n in (1, 2, 3, 4) + ((5,) if big else ()):
            for t in ([A.regular(n)] if n == 1 else A.all_times(n, (1.0, 2.5))):
                for g in ([{}] if n == 1 else [{}, {"min_lag": -0.5, "lag_resolution": 0.5}]):
                    for sel, wf in sut.COMBOS if n < 4 or big else sut.COMBOS[::5]:
                        yield [t, g, sel, wf]

    def sparses():
        for n in list(range(6, 18)) + [24, 33, 64, 100, 257, 1025] + ([513, 4097, 8193] if big else []):
            for t in (A.regular(n), A.times_from([2.5 if i % 3 == 1 else 1.0 for i in range(n - 1)], -2.0)):
                at = range(n) if n < 18 else sorted({0, 1, 2, n // 3, n // 2, n // 2 + 1, n - 2, n - 1})
                places = list(itertools.combinations(at, 2)) + list(itertools.combinations(at, 3))[::1 if n < 10 or big else 7]
                for c in range(0, len(places), 20):
                    for sel, wf in sut.COMBOS[::5]:
                        yield [t, sel, wf, places[c:c + 20]]

    def oth():
        for n in (3, 4, 5) + ((6, 7) if big else ()):
            for t in A.all_times(n, (1.0, 2.5)) if n < 5 or big else [A.regular(n), A.times_from([0.5, 3.0, 1.0, 1.0])]:
                for sel, wf in sut.COMBOS:
                    yield [t, {"min_lag": -1.0, "lag_resolution": 0.5}, sel, wf]

    def long():
        for n in (16, 33, 64, 100) + ((129, 257) if big else ()):
            for name, _ in A.long_times(n):
                for period, run_ in ((2, 1), (3, 2), (7, 1), (16, 8), (n, 1), (n, n // 2)):
                    for phase in (0, 1) if not big else range(0, period, max(1, period // 6)):
                        for sel, wf in (sut.COMBOS if big else sut.COMBOS[::5]):
                            yield [n, name, period, phase, run_, sel, wf]
        for n in (513, 1025, 4097) + ((8193,) if big else ()):
            for name, _ in A.long_times(n):
                for period, run_ in ((2, 1), (16, 8), (n, 1), (n, n // 2)):
                    for sel, wf in sut.COMBOS[::5]:
                        yield [n, name, period, 1, run_, sel, wf]
        for n, name, _ in A.giant(big):
            for sel, wf in sut.COMBOS[::5]:
                yield [n, name, 16, 1, 8, sel, wf, {"min_lag": -0.25, "max_lag": 1.25, "lag_resolution": 1.0}]

    return [
        Space("masks", subs, subsets, "all subsets of missing positions in 6 value series, samplings of 2..5 (7) times, parameter sets, functions; against the estimator over the present pairs"),
        Space("values", vals, values, "all series over {NaN,0,1,-2} of 1..4 (5) samples: mean, normalised values and correlations"),
        Space("others", oth, others, "all masks in one of three series: the other two unchanged, the masked one by the estimator"),
        Space("sparse", sparses, sparse, "6..17 and selected numbers up to 1025 (8193) of samples of which two or three are present, at all (selected) places"),
        Space("long", long, longs, "periodic and blockwise gaps in series of 16..100 (257) and 513..4097 (8193), 32769 and 65537 (262145) samples"),
        cross_space(big, sut.COMBOS, missing=True),
    ]
