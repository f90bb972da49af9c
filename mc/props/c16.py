"""C16: given parameters take effect, omitted ones take their documented defaults."""
import itertools
import alphabet as A
import model as M
import sut
from common import compare, cross_space, same, same_list
from engine import Space, check

ID = "C16"
NAMES = ("min_lag", "max_lag", "lag_resolution", "alpha")


def agree(t, given, sel, wf, xs, ctx):
    want = M.params(t, given)
    out = sut.run(t, xs, given, sel, wf, return_correlator=True)
    check(len(out) == 3, "%d results", len(out))
    lags, corr, c = out
    for k in NAMES:
        check(same(getattr(c, k), want[k], 1e-15), "t=%r given %r %s/%s: %s is %r, should be %r", t, given, sel, wf, k, getattr(c, k), want[k])
        ctx.transitions += 1
    grid = M.grid(want["min_lag"], want["max_lag"], want["lag_resolution"])
    check(same_list(lags, grid, 1e-12), "t=%r given %r %s/%s: lags %r, should be %r", t, given, sel, wf, lags, grid)
    compare(t, xs, given, lags, sut.rows(corr, len(xs)), ctx, selection=sel, weight=wf)


def subsets(case, ctx):
    t, vals, combos = case
    n = len(t)
    xs = [[float((i * i * 7 + 3 * i) % 11) for i in range(n)], [float((-1) ** i) * (1 + i % 3) for i in range(n)]]
    for mask in range(16):
        names = [k for i, k in enumerate(NAMES) if mask >> i & 1]
        for given in itertools.product(*[vals[k] for k in names]):
            for sel, wf in combos:
                agree(t, dict(zip(names, given)), sel, wf, xs, ctx)
            ctx.tick()


def defaults(case, ctx):
    """what a new correlator says, against the definition"""
    t, = case
    want = M.defaults(t)
    c = sut.Correlator(sut.DataStructure(t, [float(i % 3) for i in range(len(t))]))
    for k in NAMES:
        if want[k] is None:
            continue
        check(same(getattr(c, k), want[k], 1e-14), "t=%r: default %s is %r, should be %r", t, k, getattr(c, k), want[k])
        ctx.transitions += 1
    ctx.states += 1
    ctx.traces += 1
    ctx.outcome(tuple(want.values()))


def long_defaults(case, ctx):
    """long series: distances that grow, shrink and jump, with the smallest one at chosen places"""
    n, places = case
    for shape in (0, 1, 2):
        gaps = [(1.0 + (i % 7) * 0.25, 1.0 + 3.0 * i / n, 2.0 if i * 3 < n else 40.0 if i * 3 < 2 * n else 1.5)[shape] for i in range(n - 1)]
        for at in places:
            g = list(gaps)
            if n > 1 and at is not None:
                g[at % (n - 1)] = 0.375
            t = A.times_from(g, (0.0, -1000.25, 0.0)[shape])
            defaults([t], ctx)
            ctx.tick()


def setters(case, ctx):
    """setting one parameter leaves the other three alone; reading gives what was set"""
    depth, start = case
    vals = (0.0, -2.5, 1.25, 1e9, 3)
    ops = [(k, v) for k in NAMES for v in vals]
    t = [0.0, 1.0, 2.5, 3.0]
    for rest in itertools.product(ops, repeat=depth - 1):
        c = sut.Correlator(sut.DataStructure(t, [1.0, 3.0, 2.0, 0.0]))
        state = M.defaults(t)
        for k, v in [ops[start]] + list(rest):
            setattr(c, k, v)
            state[k] = float(v)
            got = {n: getattr(c, n) for n in NAMES}
            check(got == state, "after %r: %r, should be %r", [ops[start]] + list(rest), got, state)
            ctx.transitions += 1
            ctx.states += 1
        ctx.traces += 1
    ctx.tick()
    ctx.outcome(start)


def forms(case, ctx):
    """positional, keyword, integer, and through set_up_correlation"""
    t, given = case
    xs = [[1.0, 4.0, 2.0, 7.0, 3.0][:len(t)]]
    full = [given.get(k) for k in NAMES]
    s = sut.SACF(t, xs[0])
    ref = s.autocorrelation(**given)
    ways = {"positional": s.autocorrelation(*full), "explicit None": s.autocorrelation(**dict(zip(NAMES, full)))}
    c = sut.Correlator(s.data)
    sut.SACF.set_up_correlation(c, **given)
    want = M.params(t, given)
    check({k: getattr(c, k) for k in NAMES} == want, "set_up_correlation(%r): %r, should be %r", given, {k: getattr(c, k) for k in NAMES}, want)
    c.calculateStandardCorrelation()
    ways["set_up_correlation"] = (c.lag_timeseries(), c.correlations()[0])
    ints = {k: int(v) if v == int(v) else v for k, v in given.items()}
    ways["integers"] = s.autocorrelation(**ints)
    ways["names given"] = s.autocorrelation(selection_function="natural", weight_function="fractional", **given)
    for name, w in ways.items():
        ctx.states += len(ref[0])
        ctx.traces += 1
        ctx.transitions += 1
        check(list(w[0]) == list(ref[0]) and same_list(w[1], ref[1]), "t=%r %r %s: %r, by keyword %r", t, given, name, w, ref)


def SPACES(tier):
    big = tier == "thorough"
    two = [sut.COMBOS[0], sut.COMBOS[5]]

    def subs():
        for n in (2, 3, 4, 5) + ((6,) if big else ()):
            for t in A.all_times(n, A.GAPS if n < 4 else (1.0, 2.5)):
                for start in ((0.0, -7.5) if n < 5 else (3.0,)):
                    tt = [a + start for a in t]
                    span = t[-1]
                    vals = {"min_lag": [0, 0.0, -1.25, 0.5, -span - 1, 5.0], "max_lag": [0, 1.25, span, span + 2, -0.5],
                            "lag_resolution": [1, 0.5, 0.75, 100.0], "alpha": [1, 0.25, 1e6]}
                    if not big and n > 3:
                        vals = {"min_lag": [0, -1.25, 0.5], "max_lag": [0.0, 1.25, span + 2], "lag_resolution": [0.75, 1], "alpha": [0.25, 1e6]}
                    yield [tt, vals, sut.COMBOS if n < 4 or big else two]

    def defs():
        for n in (1, 2, 3, 4, 5, 6) + ((7, 8) if big else ()):
            if n == 1:
                yield [[0.0]]
                continue
            for t in A.all_times(n, (1.0, 2.0, 0.5, 3.0, 0.25) if n < 6 else (1.0, 2.5, 0.25)):
                for start in (0.0, 4.0, -100.5, 2450000.5):
                    yield [[a + start for a in t]]
        for n in (16, 17, 64, 65, 100, 101, 257, 258):
            for name, t in A.long_times(n):
                yield [t]
                yield [[a - 1000.25 for a in t]]

    def long_defs():
        for n in A.block_lengths(big):
            if n > 1:
                yield [n, [0, n // 2, -1, None] if n < 3000 else [n // 3 + 1, None] if n < 40000 else [-2]]
        for n in (50, 300) + ((1100,) if big else ()):
            for c in range(0, n - 1, 10):
                yield [n, list(range(c, min(c + 10, n - 1)))]
        for n in (1025, 2049, 4097, 8193, 10001):
            for c in range(16):
                yield [n, [n * c // 16 + d for d in (0, 1)]]

    def sets():
        for start in range(20):
            for depth in (1, 2, 3) + ((4,) if big else ()):
                yield [depth, start]

    def frms():
        for t in ([0.0, 1.0, 2.5], [3.0, 4.0, 4.5, 8.0, 9.0]):
            for a, b, c, d in itertools.product((None, 0.0, -2.0, 1.0), (None, 0.0, 2.0, 6.0), (None, 1.0, 0.25), (None, 1.0, 0.5)):
                yield [t, {k: v for k, v in zip(NAMES, (a, b, c, d)) if v is not None}]

    return [
        Space("subsets", subs, subsets, "all 16 subsets of given parameters x values (incl. 0, beyond the data, single lag, empty) x samplings of 2..5 (6) times with origins x functions: reported parameters, lags and correlations"),
        Space("defaults", defs, defaults, "all samplings of 1..6 (8) times over 5 distances and 4 origins, and long ones"),
        Space("lengths", long_defs, long_defaults, "defaults at every length up to 1200 (2500) and round numbers up to 100000 (262144) with their neighbours, three shapes of distances, the smallest one at several places, at every place for 50 and 300 (1100) samples"),
        Space("setters", sets, setters, "all sequences of 1..3 (4) parameter settings on a correlator"),
        Space("forms", frms, forms, "positional, keyword, None, integer, set_up_correlation: the same"),
        cross_space(big, sut.COMBOS[::5]),
    ]
