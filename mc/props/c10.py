"""C10: origin and unit of times and values do not matter."""
import alphabet as A
import model as M
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C10"
NAN = float("nan")
SHIFTS = (1.0, -1.0, -3.5, 0.25, 1024.0, 2450000.5, -2.0 ** 30)
SCALES = (2.0, 0.5, 2.0 ** -20, 2.0 ** 20, 2.0 ** -60, 2.0 ** 60, 2.0 ** -170, 2.0 ** 170)
OFFSETS = (1.0, -1.0, 0.1, -7.75, 1e3, 1e6, -1e9)
FACTORS = (-1.0, 2.0, -0.5, 0.1, -3.7, 1e6, 1e-9, -1e12, 2.0 ** 100, 2.0 ** -100, 2.0 ** 400, 2.0 ** -400)


def scaled(given, c):
    return {k: (None if v is None else v * c) for k, v in given.items()}


def ask(t, xs, given, sel, wf, ctx):
    lags, corr = sut.run(t, xs, given, sel, wf)
    ctx.traces += 1
    return lags, sut.rows(corr, len(xs))


def go(case, ctx):
    t, given, sel, wf = case
    n = len(t)
    base = [x for x in list(A.patterns(n)) + [[0.3, 0.1, 0.7, 0.2, 0.9, 0.5][:n] if n <= 6 else []] if len(x) == n and A.varied(x)]
    m = list(base[0])
    m[n - 1] = NAN
    if A.varied(m):
        base.append(m)
    lags, rows = ask(t, base, given, sel, wf, ctx)
    ctx.outcome(tuple(tuple(round(v, 9) for v in r) for r in rows))

    def cmp(what, tt, xs, g, want_lags, tol):
        l2, r2 = ask(tt, xs, g, sel, wf, ctx)
        ctx.transitions += 1
        ctx.states += len(l2) * len(r2)
        check(same_list(l2, want_lags, 1e-12), "t=%r %r %s/%s %s: lags %r, should be %r", t, given, sel, wf, what, l2, want_lags)
        check(same_rows(r2, rows, tol), "t=%r x=%r %r %s/%s %s: correlations %r, before %r", t, base, given, sel, wf, what, r2, rows)

    for s in SHIFTS:
        cmp("times shifted by %r" % s, [a + s for a in t], base, given, lags, 1e-12)
    for c in SCALES:
        cmp("times multiplied by %r" % c, [a * c for a in t], base, scaled(given, c), [k * c for k in lags], 1e-12)
    for o in OFFSETS:
        big = max(abs(o), 1.0)
        cmp("values plus %r" % o, t, [[v + o for v in x] for x in base], given, lags, 1e-12 * (1.0 + big))
    for f in FACTORS:
        cmp("values times %r" % f, t, [[v * f for v in x] for x in base], given, lags, 1e-11)
    # a different offset and factor for every series
    xs = [[v * FACTORS[(i * 3 + 1) % 6] + OFFSETS[i % 5] for v in x] for i, x in enumerate(base)]
    cmp("each series with its own unit", t, xs, given, lags, 1e-6)


def single(case, ctx):
    """one series at a time, every 0/1/3 series"""
    t, given = case
    for x in A.nonconstant(A.all_values(len(t), (0.0, 1.0, 3.0))):
        lags, corr = sut.run(t, x, given)
        for s, o, f in ((2450000.5, 1.0, -1.0), (-3.5, -7.75, 1e6), (0.25, 1e3, 2.0 ** -100)):
            l2, c2 = sut.run([a + s for a in t], [f * v for v in x], given)
            l3, c3 = sut.run(t, [v + o for v in x], given)
            ctx.traces += 2
            ctx.states += 2 * len(lags)
            ctx.transitions += 2
            check(l2 == lags and l3 == lags, "t=%r %r: lags %r %r %r", t, given, lags, l2, l3)
            check(same_list(c2, corr, 1e-11), "t=%r x=%r %r: times shifted by %r, values times %r: %r, before %r", t, x, given, s, f, c2, corr)
            check(same_list(c3, corr, 1e-8), "t=%r x=%r %r: values plus %r: %r, before %r", t, x, given, o, c3, corr)
        ctx.outcome(tuple(round(v, 9) for v in corr))
        ctx.tick()


def SPACES(tier):
    big = tier == "thorough"

    def all_():
        for n in (2, 3, 4, 5) + ((6, 7) if big else ()):
            for t in A.all_times(n, A.GAPS if n < 4 else (1.0, 2.5) if n > 5 else (1.0, 0.5, 3.0)):
                for gi, g in enumerate(A.param_menu(t)):
                    if n < 4 or gi in (0, 2, 5, 7) or big:
                        for sel, wf in sut.COMBOS if n < 5 or big else sut.COMBOS[::5]:
                            yield [t, g, sel, wf]
        for n in (17, 40) + ((64, 100) if big else ()):
            for name, t in A.long_times(n):
                for sel, wf in sut.COMBOS:
                    yield [t, {"min_lag": -4.0, "max_lag": 9.0, "lag_resolution": 0.75}, sel, wf]

    def singles():
        for n in (2, 3, 4) + ((5,) if big else ()):
            for t in A.all_times(n, A.GAPS if n < 4 else (1.0, 0.5)):
                for g in A.param_menu(t):
                    yield [t, g]

    return [
        Space("units", all_, go, "samplings of 2..5 (7) times and long ones x parameter sets x functions: 7 time shifts, 8 time scales with scaled parameters, 7 value offsets, 10 value factors (exact in binary for times), several series at once"),
        Space("single", singles, single, "all non-constant series over {0,1,3} on samplings of 2..4 (5) times x 11 parameter sets, one series per call"),
    ]
