"""Comparison of an execution with the model, used by several property modules."""
import alphabet as A
import model as M
import sut
from engine import Space, check


def compare(t, xs, given, lags, rows, ctx, eps=0.0, selection="natural", weight="fractional"):
    """Every reported correlation against the estimator at the reported lag.
    states: model states (execution, series, lag) compared; transitions: pair terms the model sums."""
    p = M.params(t, given)
    want, pairs = M.correlations(t, xs, p, lags, selection, weight, eps)
    check(len(rows) == len(xs), "t=%r %r: %d rows for %d series", t, given, len(rows), len(xs))
    ctx.traces += len(xs)
    ctx.transitions += pairs
    for j, x in enumerate(xs):
        check(len(rows[j]) == len(lags), "t=%r %r series %d: %d correlations for %d lags", t, given, j, len(rows[j]), len(lags))
        ctx.states += len(lags)
        for i, k in enumerate(lags):
            w = want[j][i]
            if w is None:
                ctx.skipped += 1
                continue
            if not M.close(rows[j][i], w):
                check(False, "t=%r series %d of %d x=%r %r %s/%s: at lag %r got %r, the estimator gives %r",
                      t, j, len(xs), x, given, selection, weight, k, rows[j][i], w[0])
        ctx.outcome(tuple([round(v, 9) for v in rows[j]]))


def crossed(case, ctx):
    """one data set with several series, and its first series alone"""
    t, xs, given, sel, wf = case
    lags, corr = sut.run(t, xs, given, sel, wf)
    p = M.params(t, given)
    check(lags == M.grid(p["min_lag"], p["max_lag"], p["lag_resolution"]), "t=%r %r %s/%s: lags %r", t, given, sel, wf, lags)
    compare(t, xs, given, lags, sut.rows(corr, len(xs)), ctx, selection=sel or "natural", weight=wf or "fractional")
    l1, c1 = sut.run(t, xs[0], given, sel, wf)
    check(l1 == lags, "t=%r %r %s/%s: lags %r for one series, %r for %d", t, given, sel, wf, l1, lags, len(xs))
    compare(t, xs[:1], given, l1, [c1], ctx, selection=sel or "natural", weight=wf or "fractional")


def cross_space(big, combos, **more):
    def cases():
        for t, xs, g in A.cross(big, **more):
            for sel, wf in combos:
                yield [t, xs, g, sel, wf]
    return Space("cross", cases, crossed, CROSS)


CROSS = ("product of 4 (6) lengths, 5 samplings (even, alternating, with a gap, even up to 2^-22 and 2^-40), 7 units of time (2^-170..2^170), 3 origins, 4 length scales, 4 lag grids "
         "(default, on, just off the samples, single), scales and offsets of values: several series at once and one alone")


def same(a, b, tol=1e-12, scale=1.0):
    """equal up to rounding; NaN equals NaN"""
    if a != a or b != b:
        return a != a and b != b
    return a == b or abs(a - b) <= tol * max(scale, abs(a), abs(b))


def same_list(a, b, tol=1e-12, scale=1.0):
    return len(a) == len(b) and all(same(u, v, tol, scale) for u, v in zip(a, b))


def same_rows(a, b, tol=1e-12, scale=1.0):
    return len(a) == len(b) and all(same_list(u, v, tol, scale) for u, v in zip(a, b))
