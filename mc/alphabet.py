"""Finite input domains shared by the property modules, in a fixed order, simplest first."""
import itertools

GAPS = (1.0, 2.0, 0.5, 3.0)


def times_from(gaps, start=0.0):
    t = [start]
    for g in gaps:
        t.append(t[-1] + g)
    return t


def all_times(n, gaps=GAPS, start=0.0):
    """every series of n times with neighbouring distances from `gaps`"""
    for g in itertools.product(gaps, repeat=n - 1):
        yield times_from(g, start)


def regular(n, step=1.0, start=0.0):
    return [start + i * step for i in range(n)]


def all_values(n, alphabet):
    for v in itertools.product(alphabet, repeat=n):
        yield list(v)


def varied(x):
    """at least two different values that are present"""
    v = [a for a in x if a == a]
    return bool(v) and any(a != v[0] for a in v)


def nonconstant(vs):
    for v in vs:
        if any(a != v[0] for a in v):
            yield v


def impulses(n):
    """0/1 series with ones at every single position and at every pair of positions: a quadratic
    form in the values is determined by its results on these (and so is the pairing)."""
    for i in range(n):
        v = [0.0] * n
        v[i] = 1.0
        yield v
    for i in range(n):
        for j in range(i + 1, n):
            v = [0.0] * n
            v[i] = v[j] = 1.0
            yield v


def patterns(n):
    """value patterns for long series"""
    yield [float(i) for i in range(n)]
    yield [float((-1) ** i) * (1 + i % 3) for i in range(n)]
    yield [float((i * i * 7 + 3 * i) % 11) for i in range(n)]
    yield [1.0 if i in (0, n - 1) else 0.0 for i in range(n)]
    yield [float(i % 5) if i % 7 else -4.0 for i in range(n)]


def long_times(n):
    """name, times: regular, alternating, one long gap at the start / middle / end, bursts, growing gaps"""
    yield "regular", regular(n)
    yield "half", regular(n, 0.5, 10.0)
    yield "alternating", times_from([1.0 if i % 2 else 2.0 for i in range(n - 1)])
    for at in (0, n // 2, n - 2):
        yield "gap%d" % at, times_from([17.0 if i == at else 1.0 for i in range(n - 1)])
    yield "bursts", times_from([6.5 if i % 4 == 3 else 0.5 for i in range(n - 1)])
    yield "growing", times_from([1.0 + (i % 8) * 0.25 for i in range(n - 1)])
    yield "sparse-dense", times_from([float(n) if i < n // 8 else 1.0 for i in range(n - 1)])
    yield "dense-sparse", times_from([float(n) if i >= n - 1 - n // 8 else 1.0 for i in range(n - 1)])


def block_lengths(big):
    """every length up to 1200 (2500), and round numbers (and their neighbours) above: where code that works in
    blocks, tables or chunks, or samples a long series, would have its seams"""
    out = list(range(1, 2501 if big else 1201))
    for base in (1000, 1024, 4096, 10000):
        out += [base * k + d for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16) for d in (-1, 0, 1)]
    out += [v + d for v in (20000, 32768, 50000, 65536, 100000) + ((131072, 200000, 262144) if big else ()) for d in (-1, 0, 1)]
    return sorted(set(out))


def giant(big):
    """lengths beyond 2^15 and 2^16 (2^17, 2^18), two samplings"""
    for n in (32769, 65537) + ((131073, 262145) if big else ()):
        for name in ("alternating", "bursts"):
            yield n, name, dict(long_times(n))[name]


def huge(big):
    """lengths around powers of two beyond what enumeration reaches, with ranges of few lags: 9 (17) over the whole
    span, from there to the end, and around zero"""
    for n in (513, 1025, 2049, 4097) + ((8193, 20000) if big else ()):
        for name, t in long_times(n):
            span = t[-1] - t[0]
            yield n, name, {"min_lag": -span, "max_lag": span, "lag_resolution": span / (8 if big else 4)}
            yield n, name, {"min_lag": -0.5, "max_lag": 2.0, "lag_resolution": 0.5, "alpha": 3.0}
    for n, name, t in giant(big):
        yield n, name, {"min_lag": -0.25, "max_lag": 1.25, "lag_resolution": 1.0, "alpha": 3.0}


UNITS = (1.0, 2.0 ** -10, 2.0 ** 10, 2.0 ** -40, 2.0 ** 40, 2.0 ** -170, 2.0 ** 170)
NAN = float("nan")


def cross(big=False, even=False, missing=False):
    """(times, series, parameters) for the product of: length, sampling, unit and origin of time, length scale, lag grid (of
    the default, on the samples, off them by a millionth, one lag), scale and offset of values; all sums of times exact"""
    for n in (2, 3, 5, 9) + ((17, 33) if big else ()):
        shapes = [[1.0] * (n - 1)] if even else [[1.0] * (n - 1), [1.0 if i % 2 else 2.5 for i in range(n - 1)], [6.0 if i == n // 2 else 0.5 for i in range(n - 1)],
                                                        [1.0 + ((i * 7 + n) % 3 - 1) * 2.0 ** -22 for i in range(n - 1)],
                                                        [1.0 + ((i * 5 + 1) % 3 - 1) * 2.0 ** -40 for i in range(n - 1)]]
        p = list(patterns(n))
        base = [x for x in (p[0], p[2], p[3], p[1]) if varied(x)][:3]
        for si, shape in enumerate(shapes):
            for unit in UNITS:
                for origin in (0.0, -3.5, 1000.25):
                    t = [a * unit for a in times_from(shape, origin)]
                    for ai, alpha in enumerate((None, 2.0 ** -20, 0.75, 2.0 ** 20)):
                        for gi, (lo, hi, res) in enumerate(((None, None, None), (-1.0, 2.25, 0.5), (-1.0 + 2.0 ** -20, 3.0, 0.5), (1.5, 1.5, 1.0))):
                            for vs, off in ((1.0, 0.0), (2.0 ** -170, 2.0 ** -151), (2.0 ** 170, 0.0)) if big or (si + ai + gi) % 2 == 0 else ((1.0, 4096.0),):
                                g = {k: v * unit for k, v in (("min_lag", lo), ("max_lag", hi), ("lag_resolution", res), ("alpha", alpha)) if v is not None}
                                xs = [[v * vs + off for v in x] for x in base]
                                if missing:
                                    xs = [[NAN if (i * 3 + j + n) % 4 == 0 else v for i, v in enumerate(x)] for j, x in enumerate(xs)]
                                    xs = [x for x in xs if varied(x)]
                                    if not xs:
                                        continue
                                yield t, xs, g


def param_menu(t):
    """lag/alpha parameters, default first; fitted to the span of t, all binary fractions"""
    span = t[-1] - t[0]
    yield {}
    yield {"min_lag": 0}
    yield {"min_lag": 0.0, "max_lag": span / 2, "alpha": 0.5}
    yield {"lag_resolution": 0.25}
    yield {"lag_resolution": 0.75, "alpha": 4.0}
    yield {"min_lag": -1.5, "max_lag": 2.25, "lag_resolution": 0.5}
    yield {"max_lag": span + 3, "min_lag": -span - 2, "lag_resolution": 0.5, "alpha": 100.0}
    yield {"min_lag": 1.25, "lag_resolution": 0.5}
    yield {"lag_resolution": 1.5, "alpha": 0.25}
    yield {"min_lag": 1, "max_lag": 1}
    yield {"min_lag": -2, "max_lag": -0.25, "lag_resolution": 0.25}
