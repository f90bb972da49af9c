"""C06: the lag axis."""
from fractions import Fraction
import model as M
import sut
from engine import Space, check

ID = "C06"
DATA = [([0.0, 1.0, 2.5], [1.0, 3.0, -1.0]), ([5.0, 5.5, 7.0, 7.25], [[1.0, 2.0, 0.0, 1.0], [0.0, 0.0, 1.0, 4.0]]), ([0.0, 2.0], [1.0, 0.0])]


def go(case, ctx):
    lo, hi, res, combos = case
    for t, x in DATA:
        given = {"min_lag": lo, "max_lag": hi, "lag_resolution": res}
        p = M.params(t, given)
        want = M.grid(p["min_lag"], p["max_lag"], p["lag_resolution"])
        for sel, wf in combos:
            lags, corr = sut.run(t, x, given, sel, wf)
            ctx.states += len(want) + 1
            ctx.transitions += len(want)
            ctx.traces += 1
            check(list(lags) == want, "t=%r %r %s/%s: lags %r, should be %r", t, given, sel, wf, lags, want)
            check(all(a < b for a, b in zip(lags, lags[1:])), "lags not increasing: %r", lags)
            if any(k > 0 for k in lags):
                check(sum(1 for k in lags if k == 0) == 1, "%r: lag 0 occurs %d times", given, sum(1 for k in lags if k == 0))
            ctx.outcome(tuple(want))


def decimal(case, ctx):
    lo, hi, res, combos = case
    t, x = [0.0, 1.0, 2.0, 3.0], [1.0, 3.0, -1.0, 0.5]
    L, H, R = (Fraction(v) for v in (lo, hi, res))
    want, k, zero = [], L, False
    while k <= H:
        if abs(k) < Fraction(1, 10 ** 6) or (k != H and abs(H - k) < Fraction(1, 10 ** 6)):
            ctx.skipped += 1
            return
        if k > 0 and not zero:
            want.append(0.0)
            zero = True
        want.append(float(k))
        k += R
    if abs(k - H) < Fraction(1, 10 ** 6):
        ctx.skipped += 1
        return
    for sel, wf in combos:
        lags, corr = sut.run(t, x, {"min_lag": lo, "max_lag": hi, "lag_resolution": res}, sel, wf)
        ctx.traces += 1
        ctx.states += len(want) + 1
        ctx.transitions += len(want)
        check(all(lo <= k <= hi or k == 0 for k in lags), "%r %s/%s: lags %r outside the range", [lo, hi, res], sel, wf, lags)
        check(len(lags) == len(want) and all(abs(a - b) <= 1e-9 * (1 + abs(b)) for a, b in zip(lags, want)) and
              (not any(k > 0 for k in want) or sum(1 for k in lags if k == 0) == 1),
              "%r %s/%s: lags %r, should be near %r", [lo, hi, res], sel, wf, lags, want)
        ctx.outcome((len(want),))


def units(case, ctx):
    """the same grids in very large and very small units, with ends and starts a tiny part of a step off the grid"""
    unit, lo, slo, hi, shi, res, combos = case
    lo, hi, res = (lo + slo) * unit, (hi + shi) * unit, res * unit
    want = M.grid(lo, hi, res)
    for sel, wf in combos:
        for t, x in (([v * unit for v in DATA[0][0]], DATA[0][1]), ([v * unit for v in DATA[1][0]], DATA[1][1])):
            lags, corr = sut.run(t, x, {"min_lag": lo, "max_lag": hi, "lag_resolution": res}, sel, wf)
            ctx.states += len(want) + 1
            ctx.transitions += len(want)
            ctx.traces += 1
            check(list(lags) == want, "t=%r lags from %r to %r step %r %s/%s: %r, should be %r", t, lo, hi, res, sel, wf, lags, want)
    ctx.outcome(tuple(want))


def counts(case, ctx):
    n, negative, res, combos = case
    lo = -(negative * res)
    hi = lo + (n - 1) * res
    go([lo, hi, res, combos], ctx)


def SPACES(tier):
    big = tier == "thorough"
    allc = [list(c) for c in sut.COMBOS]
    two = [list(sut.COMBOS[0]), list(sut.COMBOS[4])]

    def grids():
        ends = [-7, -3.0, -2.5, -2, -1.75, -1.0, -0.5, -0.25, 0, 0.25, 0.5, 0.75, 1, 1.5, 2, 2.5, 3.25, 10]
        if big:
            ends = sorted(set(ends + [i / 4.0 for i in range(-16, 17)]))
        for lo in [None] + ends:
            for hi in [None] + ends:
                for res in (None, 0.25, 0.5, 0.75, 1, 1.25, 1.5, 2, 2.75, 5, 100):
                    yield [lo, hi, res, allc]

    def dec():
        for lo in (-3.0, -2.05, -1.05, -0.33, -0.1, 0.07, 0.5, 1.0 / 3):
            for hi in (-0.01, 0.05, 0.44, 1.0 / 3, 1.07, 2.02, 3.3):
                for res in (0.1, 0.3, 1.0 / 3, 0.07, 0.7, 1.1):
                    yield [lo, hi, res, two]

    def many():
        for n in list(range(1, 140)) + [255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 32769, 65537, 70000] + ([2047, 2048, 10000, 131073, 300000] if big else []):
            for neg in (0, n // 2, n - 1, 0.5 if n > 1 else 0):
                yield [n, neg, 0.125, two]

    def unit_grids():
        tiny = (0.0, 2.0 ** -20, -2.0 ** -20, 2.0 ** -40, -2.0 ** -40)
        for e in (0, -10, -30, -40, -60, -140, -300, 20, 40, 100, 300):
            for lo in (-2, -1, 0, 1):
                for slo in tiny:
                    for hi in (0, 1, 2):
                        for shi in tiny:
                            for res in (0.5, 1, 2.0 ** 30):
                                yield [2.0 ** e, lo, slo, hi, shi, res, two]

    return [
        Space("grids", grids, go, "all pairs of 18 (33) range ends and 'default' x 11 resolutions x 6 function combinations x 3 data sets"),
        Space("units", unit_grids, units, "small grids whose start and end are 0, 2^-20 or 2^-40 off a grid point, in units from 2^-300 to 2^300, data in the same units"),
        Space("decimal", dec, decimal, "decimal ends and resolutions, compared within rounding; grids that touch an end or 0 within 1e-6 are skipped"),
        Space("counts", many, counts, "every number of lags 1..139 and selected up to 70000 (300000), four positions of 0"),
    ]
