"""The reference model: the estimator written down once, boringly.

Times are ordinary floats.  The alphabets used for times, lags and resolutions
are small binary fractions unless stated, so that every sum and difference of
times is exact, and there is exactly one right choice of neighbours and lags.
Where an alphabet is not exact, EPS_T > 0 marks comparisons that rounding could
decide either way; such a lag is reported as ambiguous and not compared.
"""
import bisect
import math

LINEAR = 300  # up to this length the nearest sample is found by looking at all of them
NAN = float("nan")
EPS = 2.0 ** -52


def isnan(x):
    return x != x


def norm_times(t):
    t0 = t[0]
    return [a - t0 for a in t]


def median_of_norm(t):
    n = norm_times(t)
    m = len(n)
    return n[m // 2] if m % 2 else (n[m // 2 - 1] + n[m // 2]) / 2


def defaults(t):
    n = norm_times(t)
    gaps = [b - a for a, b in zip(n, n[1:])]
    return {"min_lag": -n[-1], "max_lag": n[-1], "lag_resolution": min(gaps) if gaps else None,
            "alpha": median_of_norm(t)}


def params(t, given):
    p = defaults(t)
    for k, v in given.items():
        if v is not None:
            p[k] = float(v)
    return p


def grid(min_lag, max_lag, res):
    """The lag axis, by its definition (exact for binary fractions)."""
    out = []
    if not (min_lag <= max_lag):
        return out
    seen_zero = False
    k = min_lag
    while k <= max_lag:
        if k == 0:
            seen_zero = True
        if k > 0 and not seen_zero:
            out.append(0.0)
            seen_zero = True
        out.append(k)
        k = k + res
    return out


def nearest(tn, s, eps=0.0):
    """(index of the sample closest to s, later one on a tie; is it ambiguous)"""
    if len(tn) > LINEAR and not eps:  # long strictly increasing series: only the two samples around s can be closest
        lo = bisect.bisect_left(tn, s)
        if lo == 0:
            return 0, False
        if lo == len(tn) or abs(tn[lo - 1] - s) < abs(tn[lo] - s):
            return lo - 1, False
        return lo, False
    best, bi = None, None
    for i, a in enumerate(tn):
        d = abs(a - s)
        if best is None or d <= best:
            best, bi = d, i
    amb = False
    if eps:
        for i, a in enumerate(tn):
            if i != bi and abs(abs(a - s) - best) <= eps:
                amb = True
    return bi, amb


def natural(tn, k, eps=0.0):
    """[(i, j, distance)], ambiguous"""
    out = []
    amb = False
    last = tn[-1]
    for i, a in enumerate(tn):
        s = a + k
        if eps and s != last and abs(s - last) <= eps:
            amb = True
        if s > last:
            break
        j, m = nearest(tn, s, eps)
        amb = amb or m
        out.append((i, j, abs(tn[j] - s)))
    return out, amb


def fast(tn, k, eps=0.0):
    out = []
    amb = False
    last = tn[-1]
    n = len(tn)
    j0 = None
    for i, a in enumerate(tn):
        s = a + k
        if eps and s != last and abs(s - last) <= eps:
            amb = True
        if s > last:
            break
        if j0 is None:
            j0, m = nearest(tn, s, eps)
            amb = amb or m
        if j0 + i >= n:
            break
        out.append((i, j0 + i, abs(tn[j0 + i] - s)))
    return out, amb


SELECTION = {"natural": natural, "fast": fast}


def w_fractional(d, alpha):
    return 1.0 / (1.0 + d / alpha)


def w_fractional_squared(d, alpha):
    return 1.0 / (1.0 + (d / alpha) * (d / alpha))


def w_gaussian(d, alpha):
    r = d / alpha
    return math.exp(-(r * r) / 2.0)


WEIGHT = {"fractional": w_fractional, "fractional_squared": w_fractional_squared, "gaussian": w_gaussian}


def mean(x):
    v = [a for a in x if not isnan(a)]
    return math.fsum(v) / len(v) if v else NAN


class Series(object):
    """One value series: mean, deviations, normalisation, error scale."""

    def __init__(self, x):
        self.x = x
        v = [a for a in x if not isnan(a)]
        self.present = len(v)
        self.mean = mean(x)
        self.d = [a - self.mean for a in x]
        self.N = math.fsum((a - self.mean) * (a - self.mean) for a in v)
        self.constant = not v or all(a == v[0] for a in v)
        self.big = max([abs(a) for a in v] or [0.0])


def rho(series, sel, alpha, wf):
    """(value, absolute tolerance) for one series and one lag's selection.
    The tolerance covers any order of summation and an inexact mean."""
    d = series.d
    s = 0.0
    a = 0.0
    b = 0.0
    for i, j, dist in sel:
        u = d[i]
        v = d[j]
        if u != u or v != v:
            continue
        w = wf(dist, alpha)
        s += w * u * v
        # an exponential of -q is only known to q relative roundings
        a += abs(w * u * v) * (1.0 - math.log(w) if 0.0 < w < 1e-3 else 1.0)
        b += abs(u) + abs(v)
    n = len(d) + 8
    emean = EPS * n * series.big
    N = series.N
    val = s / N
    tol = (EPS * 16 * n * a + 4 * emean * (b + emean * len(sel))) / N
    # relative error of N itself
    tol += abs(val) * (EPS * 16 * n + 4 * emean * (math.sqrt(N * n) + emean * n) / N)
    return val, 4 * tol + 1e-13 * abs(val) + 1e-300


def correlations(t, xs, p, lags, selection="natural", weight="fractional", eps=0.0):
    """For each series the list of (value, tolerance) or None where ambiguous."""
    tn = norm_times(t)
    ser = [Series(x) for x in xs]
    wf = WEIGHT[weight]
    sels = [SELECTION[selection](tn, k, eps) for k in lags]
    out = []
    for s in ser:
        row = []
        for sel, amb in sels:
            row.append(None if amb else rho(s, sel, p["alpha"], wf))
        out.append(row)
    return out, len(ser) * sum(len(sel) for sel, _ in sels)


def close(got, want):
    v, tol = want
    return abs(got - v) <= tol
