"""C05: weight functions, alone, per iterator and inside correlations."""
import itertools
import alphabet as A
import model as M
import sut
from common import compare, cross_space
from engine import Space, check

ID = "C05"
DIST = [0.0, 1e-310, 1e-200, 2.0 ** -30, 1e-9, 0.01, 0.125, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 4.0, 7.0, 10.0, 31.0, 100.0, 1000.0, 12345.678, 1e6, 1e12, 1e100, 1e200, 1e300]
ALPHA = [1e-310, 1e-200, 1e-160, 2.0 ** -20, 1e-3, 0.1, 0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 100.0, 1e4, 1e9, 1e160, 1e200, 1e300]
NAMES = {"fractional": "fractionWeightFunction", "fractional_squared": "fractionSquaredWeightFunction", "gaussian": "gaussianWeightFunction"}


def rel(a, b):
    return a == b or abs(a - b) <= 1e-12 * abs(b) + 1e-300


def scalar(case, ctx):
    wf, alphas = case
    corr = sut.Correlator(sut.DataStructure([0, 1, 2.5, 7], [1, 2, 3, 5]))
    f = getattr(corr, NAMES[wf])
    for alpha in [None] + alphas:
        if alpha is not None:
            corr.alpha = alpha
        al = corr.alpha
        check(al == (1.75 if alpha is None else alpha), "alpha is %r", al)
        prev = None
        for d in DIST:
            got, want = f(d), M.WEIGHT[wf](d, al)
            ctx.states += 1
            ctx.transitions += 1
            check(rel(got, want), "%s(%r) with alpha %r: got %r, should be %r", wf, d, al, got, want)
            check(d != 0 or got == 1.0, "%s: weight at distance 0 is %r", wf, got)
            check(0.0 <= got <= 1.0 and (prev is None or got <= prev), "%s: weight %r at %r after %r", wf, got, d, prev)
            prev = got
            ctx.outcome(round(got, 12))
    ctx.traces += 1


def iterators(case, ctx):
    t, sel = case
    tn = M.norm_times(t)
    corr = sut.Correlator(sut.DataStructure(t, [float(i * i) for i in range(len(t))]))
    span = tn[-1]
    k = -span - 0.5
    while k <= span + 0.5:
        for wf in sut.WF:
            for alpha in (0.25, corr.alpha, 3.0):
                corr.alpha = alpha
                it = sut.CorrelationIterator(k, 1)
                sut.select(corr, it, sel)
                corr.deltaT(it)
                d = list(it.delta_t)
                sut.weigh(corr, it, wf)
                w = list(it.weights)
                want, _ = M.SELECTION[sel](tn, k)
                ctx.traces += 1
                ctx.states += 1
                ctx.transitions += len(want)
                check(d == [x for _, _, x in want], "t=%r lag=%r %s: distances %r, should be %r", t, k, sel, d, [x for _, _, x in want])
                check(len(w) == len(want) and all(rel(a, M.WEIGHT[wf](x, alpha)) for a, (_, _, x) in zip(w, want)),
                      "t=%r lag=%r %s %s alpha=%r: weights %r, should be %r", t, k, sel, wf, alpha, w,
                      [M.WEIGHT[wf](x, alpha) for _, _, x in want])
                ctx.outcome(tuple(round(a, 9) for a in w))
        k += 0.25


def units(case, ctx):
    """distances and weights of small series in very large and very small units, and with distances that are nearly equal"""
    t, unit = case
    t = [v * unit for v in t]
    tn = M.norm_times(t)
    corr = sut.Correlator(sut.DataStructure(t, [float(i * i) for i in range(len(t))]))
    for k in sorted(set(b - a + e * unit for a in tn for b in tn for e in (0.0, 0.3, -0.7, 2.0 ** -28))):
        for sel in sut.SEL:
            want = [x for _, _, x in M.SELECTION[sel](tn, k)[0]]
            for wf in sut.WF:
                for alpha in (unit, unit * 2.0 ** -20, unit * 3.7):
                    corr.alpha = alpha
                    it = sut.step(corr, k, sel, wf)
                    w = list(it.weights)
                    ctx.traces += 1
                    ctx.states += 1
                    ctx.transitions += len(want)
                    check(len(w) == len(want) and all(rel(a, M.WEIGHT[wf](x, alpha)) for a, x in zip(w, want)),
                          "t=%r lag=%r %s %s alpha=%r: weights %r, should be %r", t, k, sel, wf, alpha, w, [M.WEIGHT[wf](x, alpha) for x in want])
                    ctx.outcome(tuple(round(a, 9) for a in w))


SEQ = [("alpha", 0.5), ("alpha", 3.0), ("alpha", 2.0 ** -20), ("fractional", 0.25), ("fractional_squared", 0.25), ("gaussian", 0.25), ("fractional", 1.5), ("gaussian", 2.0),
       ("iterate", "fractional"), ("iterate", "gaussian"), ("other", 7.0)]


def sequences(case, ctx):
    """weighing and setting alpha in every order, on two correlators: the weights are those of the alpha set last"""
    start, depth = case
    for rest in itertools.product(SEQ, repeat=depth - len(start)):
        seq = [SEQ[i] for i in start] + list(rest)
        ds = sut.DataStructure([0, 1, 2.5, 7], [1, 2, 3, 5])
        a, b = sut.Correlator(ds), sut.Correlator(ds)
        al = 1.75
        for op, v in seq:
            if op == "alpha":
                a.alpha = al = v
            elif op == "other":
                b.alpha = v
                b.fractionWeightFunction(0.25)
                b.gaussianWeightFunction(2.0)
                b.fractionSquaredWeightFunction(1.5)
                continue
            elif op == "iterate":
                w = list(sut.step(a, 0.75, "natural", v).weights)
                want = [M.WEIGHT[v](d, al) for d in (0.25, 0.75, 0.75)]
                check(len(w) == 3 and all(rel(x, y) for x, y in zip(w, want)), "after %r: weights %r, should be %r", seq, w, want)
            else:
                got, want = getattr(a, NAMES[op])(v), M.WEIGHT[op](v, al)
                check(rel(got, want), "after %r: %s(%r) is %r, should be %r", seq, op, v, got, want)
            ctx.states += 1
            ctx.transitions += 1
        ctx.traces += 1
    ctx.tick()
    ctx.outcome(tuple(start))


def inside(case, ctx):
    t, given, sel, wf = case
    n = len(t)
    xs = list(A.nonconstant(A.impulses(n))) + [x for x in A.patterns(n) if any(v != x[0] for v in x)]
    lags, corr = sut.run(t, xs, given, sel, wf)
    compare(t, xs, given, lags, sut.rows(corr, len(xs)), ctx, selection=sel, weight=wf)
    lags, corr = sut.run(t, xs[-1], given, sel, wf)
    compare(t, [xs[-1]], given, lags, [corr], ctx, selection=sel, weight=wf)


def huge_inside(case, ctx):
    n, name, given, sel, wf = case
    t = dict(A.long_times(n))[name]
    xs = list(A.patterns(n))
    lags, corr = sut.run(t, xs, given, sel, wf)
    compare(t, xs, given, lags, sut.rows(corr, len(xs)), ctx, selection=sel, weight=wf)


def SPACES(tier):
    big = tier == "thorough"

    def scalars():
        for wf in sut.WF:
            yield [wf, []]
            for a in ALPHA:
                yield [wf, [a]]
            yield [wf, ALPHA]
            yield [wf, ALPHA[::-1]]

    def iters():
        for n in (1, 2, 3, 4) + ((5,) if big else ()):
            for t in A.all_times(n):
                if n == 1:
                    continue
                for sel in sut.SEL:
                    yield [t, sel]

    def seqs():
        for d in range(2, 6 if big else 5):
            for a in range(len(SEQ)):
                for b in range(len(SEQ)):
                    yield [[a, b], d]

    def insides():
        for n in (2, 3, 4, 5, 6) + ((7, 8) if big else ()):
            for t in A.all_times(n, (1.0, 2.5) if n > 4 else (1.0, 0.5, 3.0)):
                for gi, g in enumerate(A.param_menu(t)):
                    if n <= 4 or gi in (0, 2, 4, 6) or big:
                        for sel, wf in sut.COMBOS:
                            yield [t, g, sel, wf]
        for n in (17, 64, 100):
            for name, t in A.long_times(n):
                for sel, wf in sut.COMBOS:
                    yield [t, {"min_lag": -3.0, "max_lag": 9, "lag_resolution": 0.75, "alpha": 2.5}, sel, wf]

    def unit_cases():
        for n in (2, 3, 4) + ((5,) if big else ()):
            for t in A.all_times(n, (1.0, 2.5, 2.0 ** -26, 0.3)):
                for e in (0, -27, -60, -149, -170, -300, -512, -540, -600, 30, 60, 127, 300, 512, 540, 600):
                    yield [t, 2.0 ** e]

    def huges():
        for n, name, g in A.huge(big):
            for sel, wf in sut.COMBOS:
                yield [n, name, g, sel, wf]

    return [
        Space("scalar", scalars, scalar, "3 functions x 19 alphas from 1e-310 to 1e300 (and changes of alpha on one correlator) x 26 distances from 0 to 1e300"),
        Space("sequences", seqs, sequences, "all sequences of 2..4 (5) of 11 operations: setting alpha, the three weight functions, weighing an iterator, another correlator doing the same"),
        Space("iterator", iters, iterators, "all series of 2..4 (5) times, quarter grid of lags, both selections, 3 functions, 3 alphas"),
        Space("inside", insides, inside, "correlations with all 6 function combinations against the estimator: all series of 2..6 (8) times over small alphabets, impulses and patterns; long patterns"),
        Space("units", unit_cases, units, "all series of 2..4 (5) times with gaps 1, 2.5, 2^-26, 0.3 in units from 2^-600 to 2^600, lags at and around every difference, 3 alphas"),
        Space("huge", huges, huge_inside, "lengths 513..4097 (20000), 8 samplings, 32769 and 65537 (262145), 2 samplings, few lags, 5 patterns, 6 function combinations"),
        cross_space(big, sut.COMBOS),
    ]
