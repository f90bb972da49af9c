"""C02: on evenly sampled series every function gives the textbook autocorrelation."""
import alphabet as A
import model as M
import sut
from common import CROSS
from engine import Space, check

ID = "C02"


def textbook(x, m):
    n = len(x)
    s = M.Series(x)
    terms = [s.d[i] * s.d[i + m] for i in range(n - m)]
    val = M.math.fsum(terms) / s.N if terms else 0.0
    a = sum(abs(v) for v in terms) / s.N
    return val, 1e-12 * (a + 1) + 64 * M.EPS * n * s.big * sum(abs(d) for d in s.d) / s.N


def go(case, ctx):
    n, step, start, family, given, sel, wf = case
    t = A.regular(n, step, start)
    xs = list(A.nonconstant(A.all_values(n, (-1.0, 0.0, 2.0)))) if family == "all" else list(A.patterns(n)) if family == "few" else list(A.patterns(n)) + list(A.impulses(n))[:3 * n]
    xs = [x for x in xs if any(v != x[0] for v in x)]
    for group in ([xs] if family == "all" else [xs, xs[0], xs[-1]]):
        multi = isinstance(group[0], list)
        series = group if multi else [group]
        lags, corr = sut.run(t, group, given, sel, wf)
        rows = sut.rows(corr, len(series))
        ctx.traces += len(series)
        hit = 0
        for i, k in enumerate(lags):
            m = k / step
            if k < 0 or m != int(m):
                continue
            hit += 1
            for j, x in enumerate(series):
                ctx.states += 1
                ctx.transitions += max(0, n - int(m))
                want, tol = textbook(x, int(m))
                if not abs(rows[j][i] - want) <= tol:
                    check(False, "n=%d step=%r start=%r x=%r %r %s/%s: lag %r (%d steps): got %r, textbook %r",
                          n, step, start, x, given, sel, wf, k, int(m), rows[j][i], want)
                ctx.outcome((int(m), round(want, 9)))
        lo = given.get("min_lag")
        hi = given.get("max_lag")
        top = step * (n - 1)
        if (lo is None or lo <= 0) and (hi is None or hi >= 0):
            check(hit > 0, "n=%d step=%r %r: no lag is a whole number of steps", n, step, given)


def crossed(case, ctx):
    """units, origins, length scales and values of very different size"""
    t, xs, given, sel, wf = case
    n = len(t)
    step = t[1] - t[0]
    lags, corr = sut.run(t, xs, given, sel, wf)
    rows = sut.rows(corr, len(xs))
    for i, k in enumerate(lags):
        if k < 0 or k / step != int(k / step):
            continue
        for j, x in enumerate(xs):
            ctx.states += 1
            ctx.transitions += max(0, n - int(k / step))
            want, tol = textbook(x, int(k / step))
            check(abs(rows[j][i] - want) <= tol, "t=%r x=%r %r %s/%s: lag %r (%d steps): got %r, textbook %r", t, x, given, sel, wf, k, int(k / step), rows[j][i], want)
    ctx.traces += len(xs)


def SPACES(tier):
    big = tier == "thorough"

    def menu(n, step):
        yield {}
        yield {"min_lag": 0}
        yield {"min_lag": 0, "lag_resolution": step / 2, "alpha": step / 4}
        yield {"min_lag": 0.0, "max_lag": step * (n + 2), "alpha": 7.0}
        yield {"min_lag": -step, "max_lag": step * (n // 2), "lag_resolution": step / 4}

    def small():
        for n in (2, 3, 4, 5) + ((6,) if big else ()):
            for step in (1.0, 0.5, 3.0):
                for start in (0.0, -2.0):
                    for g in menu(n, step):
                        for sel, wf in sut.COMBOS:
                            yield [n, step, start, "all", g, sel, wf]

    def large():
        ns = list(range(2, 41)) + [63, 64, 65, 100, 128, 129] + ([200, 256, 257, 500] if big else [])
        for n in ns:
            for step, start in ((1.0, 0.0), (0.25, 1000.5)):
                for gi, g in enumerate(menu(n, step)):
                    if gi in (1, 3) or (n <= 20) or big:
                        for sel, wf in sut.COMBOS:
                            yield [n, step, start, "patterns", g, sel, wf]

    def huge():
        for n in (513, 1025, 2049, 4097) + ((8193, 20000) if big else ()):
            for step, start in ((1.0, 0.0), (0.25, 1000.5)):
                for g in ({"min_lag": 0, "max_lag": 2 * step}, {"min_lag": 0.0, "max_lag": step * (n + 2), "lag_resolution": step * (n - 1) / 4, "alpha": 7.0}):
                    for sel, wf in sut.COMBOS:
                        yield [n, step, start, "few", g, sel, wf]
        for n in (32769, 65537) + ((262145,) if big else ()):
            for sel, wf in sut.COMBOS:
                yield [n, 0.5, 3.0, "few", {"min_lag": 0.0, "max_lag": 0.5 * n, "lag_resolution": 0.25 * (n - 1)}, sel, wf]

    def cross():
        for t, xs, g in A.cross(big, even=True):
            for sel, wf in sut.COMBOS:
                yield [t, xs, g, sel, wf]

    return [
        Space("all-values", small, go, "n=2..5, all value series over {-1,0,2}, 3 steps, 2 origins, 5 parameter sets, 6 function combinations"),
        Space("lengths", large, go, "every length 2..40 and selected ones up to 129 (500); patterns and impulses; parameter sets; 6 function combinations"),
        Space("huge", huge, go, "lengths 513..4097 (20000), 32769 and 65537 (262145), few lags, 5 patterns, 6 function combinations"),
        Space("cross", cross, crossed, CROSS.replace("5 samplings (even, alternating, with a gap, even up to 2^-22 and 2^-40)", "even sampling")),
    ]
