"""C22: every analysis ends; parameters that define no finite grid are refused."""
import itertools
import alphabet as A
import model as M
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C22"
NAN = float("nan")
INF = float("inf")
B = 2.0 ** 53
TOP = 2000  # longest grid tried
FUNCS = sut.COMBOS
VALS = [1.0, 4.0, 2.0, 9.0, 3.0, 5.0]


def verdict(lo, hi, res):
    """the answers that are right: 'refuse', a number of lags; or None (a finite grid, but too long to try).  There are
    several where rounding decides: lags may be added up or multiplied out."""
    both = (count(lo, hi, res, False), count(lo, hi, res, True))
    return None if None in both else both


def count(lo, hi, res, multiply):
    if not (abs(lo) < INF and abs(hi) < INF):
        return "refuse"
    if lo > hi:
        return 0
    if not res > 0:
        return "refuse"
    k = lo
    n = steps = 0
    zero = False
    while k <= hi:
        if not k + res > k:
            return "refuse"
        zero = zero or k == 0
        if k > 0 and not zero:
            zero = True
            n += 1
        n += 1
        if n > TOP:
            return None
        steps += 1
        k = lo + steps * res if multiply else k + res
    return n


def attempt(f):
    try:
        return f(), None
    except Exception as e:
        return None, e


def judge(t, given, sel, wf, want, ctx, s=None):
    x = VALS[:len(t)]
    s = s or sut.SACF(t, x)
    kw = dict(given, selection_function=sel, weight_function=wf)
    out, err = attempt(lambda: s.autocorrelation(**kw))
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 1
    if err is not None:
        check("refuse" in want, "t=%r %r %s/%s: refused with %r", t, given, sel, wf, err)
    else:
        check(any(w != "refuse" for w in want), "t=%r %r %s/%s: not refused but %d lags", t, given, sel, wf, len(out[0]))
        check(len(out[0]) in want and len(out[1]) == len(out[0]), "t=%r %r %s/%s: %d lags, %d correlations, should be one of %s", t, given, sel, wf, len(out[0]), len(out[1]), list(want))
    ctx.outcome((repr(given), want))
    return s


GOOD = {"min_lag": 0.0, "max_lag": 1.0, "lag_resolution": 0.5, "alpha": 1.0}


def usable(s, t, ref, what):
    """the object still analyses"""
    out = s.autocorrelation(**GOOD)
    check(out[0] == ref[0] and same_list(out[1], ref[1]), "%s: afterwards %r, before %r", what, out, ref)
    check(s.data.timeseries() == t, "%s: times are now %r", what, s.data.timeseries())


SPECIAL = {
    "min_lag": [None, 0.0, -0.0, -1.5, 1.25, 5.0, -1e300, 1e300, B - 2, B, -B, 2 * B + 2, NAN, INF, -INF, 5e-324, -5e-324],
    "max_lag": [None, 0.0, -1.0, 2.0, 1e300, -1e300, B + 4, -B + 3, 2 * B + 10, NAN, INF, -INF, 5e-324],
    "lag_resolution": [None, 0.0, -0.0, -1.0, 1.0, 0.5, 1e-17, 1e-300, 5e-324, -5e-324, 1e300, 3.0, NAN, INF, -INF],
}


def special(case, ctx):
    t, lo, hi = case
    ref = sut.SACF(t, VALS[:len(t)]).autocorrelation(**GOOD)
    for res in SPECIAL["lag_resolution"]:
        given = {k: v for k, v in (("min_lag", lo), ("max_lag", hi), ("lag_resolution", res)) if v is not None}
        p = M.params(t, given)
        want = verdict(p["min_lag"], p["max_lag"], p["lag_resolution"])
        if want is None:
            ctx.skipped += 1
            continue
        for sel, wf in FUNCS:
            s = judge(t, given, sel, wf, want, ctx)
            if "refuse" in want:
                usable(s, t, ref, "after %r" % (given,))
        # the correlator itself, refused and then used with usable parameters
        if set(want) == {"refuse"}:
            for f in (lambda c: c.calculateStandardCorrelation(), lambda c: sut.SACF.find_correlation(c, "fast", "gaussian")):
                c = sut.Correlator(sut.DataStructure(t, VALS[:len(t)]))
                sut.set_params(c, given)
                out, err = attempt(lambda: f(c))
                check(err is not None, "correlator t=%r %r: not refused", t, given)
                sut.set_params(c, GOOD)
                c.calculateStandardCorrelation()
                check(c.lag_timeseries() == ref[0] and same_list(c.correlations()[0], ref[1]), "correlator after %r: %r", given, c.correlations())
                ctx.transitions += 2
        ctx.tick()


def orders(case, ctx):
    """every order of times, with repetitions"""
    base, perm = case
    t = [base[i] for i in perm]
    asc = all(a <= b for a, b in zip(t, t[1:]))
    strict = all(a < b for a, b in zip(t, t[1:]))
    span = t[-1] - t[0]
    menus = [{}, {"lag_resolution": 0.5}, dict(GOOD), {"min_lag": -1.0, "max_lag": 2.0, "lag_resolution": 1.0, "alpha": 2.0},
             {"lag_resolution": 0.25, "alpha": 1.0}, {"min_lag": 2.0, "max_lag": 1.0}, {"max_lag": 0.0}]
    for given in menus:
        for sel, wf in FUNCS:
            if not asc:
                want = ("refuse",)
            else:
                p = M.params(t, given)
                want = verdict(p["min_lag"], p["max_lag"], p["lag_resolution"])
            judge(t, given, sel, wf, want, ctx)
    out, err = attempt(lambda: sut.Correlator(sut.DataStructure(t, VALS[:len(t)])))
    check((err is None) == asc, "correlator on t=%r: %r", t, err or "accepted")
    # 2-D input and other objects are unaffected
    if not asc:
        for sel, wf in FUNCS[::5]:
            o, e = attempt(lambda: sut.run(t, [VALS[:len(t)], VALS[1:len(t) + 1]], dict(GOOD), sel, wf))
            check(e is not None, "t=%r, two series: not refused", t)
    s = sut.SACF([0.0, 1.0, 2.0], [1.0, 5.0, 2.0])
    check(len(s.autocorrelation()[0]) == 5, "another analysis after t=%r: %r", t, s.autocorrelation())
    ctx.tick()


def nantimes(case, ctx):
    """times that are not numbers or not finite"""
    t, = case
    for given in ({}, {"alpha": 1.0}, {"lag_resolution": 0.5}):
        for sel, wf in FUNCS:
            judge(t, given, sel, wf, ("refuse",), ctx)
    if any(a != a for a in t) and len(t) > 1:
        for sel, wf in FUNCS:
            judge(t, dict(GOOD), sel, wf, ("refuse",), ctx)
    ctx.tick()


def longer(case, ctx):
    """long series with one pair out of order, or one equal pair, at every position"""
    n, at, kind = case
    t = [float(i) for i in range(n)]
    if kind == "swap":
        t[at], t[at + 1] = t[at + 1], t[at]
    elif kind == "equal":
        t[at + 1] = t[at]
    elif kind == "nan":
        t[at] = NAN
    elif kind == "last first":
        t = t[at + 1:] + t[:at + 1]
    x = [float(i % 5) for i in range(n)]
    for given in ({}, {"lag_resolution": 0.5, "max_lag": 3.0, "min_lag": -1.0}):
        for sel, wf in FUNCS[::5]:
            out, err = attempt(lambda: sut.run(t, x, given, sel, wf))
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += 1
            if kind == "equal" and given:
                check(err is None and len(out[0]) == 9 and len(out[1]) == 9, "n=%d %s at %d %r %s/%s: %r", n, kind, at, given, sel, wf, err or out)
            else:
                check(err is not None, "n=%d %s at %d %r %s/%s: not refused", n, kind, at, given, sel, wf)
    ctx.outcome((n, kind))


def SPACES(tier):
    big = tier == "thorough"

    def spec():
        for t in ([0.0, 1.0, 2.5], [0.0, 1.0], [-3.0, -2.5, 0.0, 1.0]) + (([5.0, 7.0, 7.5, 9.0, 20.0], [2450000.5, 2450001.5, 2450003.0]) if big else ()):
            for lo in SPECIAL["min_lag"]:
                for hi in SPECIAL["max_lag"]:
                    yield [t, lo, hi]

    def ords():
        for n in (2, 3, 4) + ((5,) if big else ()):
            for base in ([0.0, 1.0, 2.0, 3.5, 4.0][:n], [-2.0, -1.5, 0.0, 7.0, 8.0][:n]):
                for perm in itertools.product(range(n), repeat=n):
                    yield [base, list(perm)]

    def nans():
        for n in (1, 2, 3):
            for t in itertools.product((0.0, 1.0, 2.0, NAN, INF, -INF), repeat=n):
                if any(not abs(a) < INF for a in t):
                    yield [list(t)]

    def long():
        for n in (8, 17, 64, 100) + ((257,) if big else ()):
            for at in range(n - 1):
                for kind in ("swap", "equal", "nan", "last first"):
                    yield [n, at, kind]

    return [
        Space("special", spec, special, "17 x 13 x 15 ordinary, special and extreme values of min_lag, max_lag, lag_resolution x samplings x all functions, and on correlators; refused objects are used again (grids beyond 2000 lags left out)"),
        Space("orders", ords, orders, "all sequences of 2..4 (5) times with repetition x 7 parameter sets x all functions"),
        Space("times", nans, nantimes, "all series of 1..3 times over {0,1,2,NaN,inf,-inf}"),
        Space("long", long, longer, "series of 8..100 (257) times out of order, equal, NaN or rotated at every position"),
    ]
