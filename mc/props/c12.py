"""C12: a data set keeps what it was given and derives the right values from it."""
import itertools
import alphabet as A
import model as M
import sut
from common import same, same_list, same_rows
from engine import Space, check

try:
    import numpy
except ImportError:
    numpy = None

ID = "C12"
NAN = float("nan")


def observe(ds):
    return {"data": ds.data(), "errors": ds.errors(), "t": ds.timeseries(), "nt": ds.normalised_timeseries(), "nd": ds.normalised_data(),
            "mean": ds.mean_data, "median": ds.median_time, "max": ds.max_time, "N": ds.N_datasets, "M": ds.M_datapoints}


def expected(t, rows, errs):
    means = [M.mean(x) for x in rows]
    return {"data": rows, "errors": errs, "t": t, "nt": [a - t[0] for a in t],
            "nd": [[v - m for v in x] for x, m in zip(rows, means)], "mean": means,
            "median": M.median_of_norm(t), "max": t[-1], "N": len(rows), "M": len(t)}


EXACT = ("data", "errors")


def matches(got, want, what):
    for k in ("N", "M"):
        check(got[k] == want[k], "%s: %s is %r, should be %r", what, k, got[k], want[k])
    for k in EXACT:
        check(same_rows(got[k], want[k], 0.0), "%s: %s is %r, should be %r", what, k, got[k], want[k])
    check(same_list(got["t"], want["t"], 0.0), "%s: times are %r, should be %r", what, got["t"], want["t"])
    check(same_list(got["nt"], want["nt"], 1e-15), "%s: normalised times are %r, should be %r", what, got["nt"], want["nt"])
    big = [max([abs(v) for v in x if v == v] or [0.0]) for x in want["data"]]
    for j in range(want["N"]):
        tol = 1e-13 * (want["M"] + 4)
        check(same(got["mean"][j], want["mean"][j], tol, big[j]), "%s: mean %d is %r, should be %r", what, j, got["mean"][j], want["mean"][j])
        check(same_list(got["nd"][j], want["nd"][j], tol, big[j]), "%s: normalised values %d are %r, should be %r", what, j, got["nd"][j], want["nd"][j])
    check(len(got["mean"]) == want["N"] and len(got["nd"]) == want["N"], "%s: %d means", what, len(got["mean"]))
    check(same(got["median"], want["median"], 1e-15), "%s: median is %r, should be %r", what, got["median"], want["median"])
    check(got["max"] == want["max"], "%s: last time is %r, should be %r", what, got["max"], want["max"])


KINDS = ["list", "tuple", "int"] + (["array", "array_int", "array_f32", "array_strided"] if numpy else [])


def as_kind(rows, kind):
    """the same numbers in another container; None if they do not fit"""
    flat = rows[0] if rows and isinstance(rows[0], list) else None
    if kind == "list":
        return [list(r) for r in rows] if flat is not None else list(rows)
    if kind == "tuple":
        return tuple(tuple(r) for r in rows) if flat is not None else tuple(rows)
    every = [v for r in rows for v in r] if flat is not None else rows
    whole = all(v == v and abs(v) < 2 ** 20 and v == int(v) for v in every)
    if kind == "int":
        if not whole:
            return None
        return [[int(v) for v in r] for r in rows] if flat is not None else [int(v) for v in rows]
    if kind == "array":
        return numpy.array(rows, dtype=float)
    if kind == "array_int":
        return numpy.array(rows, dtype=numpy.int64) if whole else None
    if kind == "array_f32":
        a = numpy.array(rows, dtype=numpy.float32)
        back = a.astype(float).tolist()
        ok = same_rows(back, rows, 0.0) if flat is not None else same_list(back, rows, 0.0)
        return a if ok else None
    if kind == "array_strided":
        a = numpy.zeros(numpy.array(rows).shape[:-1] + (2 * len(rows[0] if flat is not None else rows),))
        a[..., ::2] = rows
        return a[..., ::2]


def build(t, rows, errs, one_d):
    if one_d:
        return sut.DataStructure(t, rows[0]) if errs is None else sut.DataStructure(t, rows[0], errs[0])
    return sut.DataStructure(t, rows) if errs is None else sut.DataStructure(t, rows, errs)


VALS = (0.0, 1.0, -2.5, NAN, 0.1, 1e9 + 0.5)


def report(case, ctx):
    """all sequences of values, in rows; times with several origins; with and without errors"""
    t, m, with_err, vals = case
    n = len(t)
    series = list(A.all_values(n, vals))
    for c in range(0, len(series), m):
        rows = (series[c:c + m] + series[:m])[:m]
        errs = [[abs(v) + 0.5 if v == v else NAN for v in x] for x in rows[::-1]] if with_err else None
        want = expected(t, rows, errs or [])
        matches(observe(sut.DataStructure(t, rows, errs) if errs else sut.DataStructure(t, rows)), want, "t=%r x=%r e=%r" % (t, rows, errs))
        if m == 1:
            matches(observe(build(t, rows, errs, True)), want, "t=%r x=%r e=%r" % (t, rows[0], errs))
        s = sut.SACF(t, rows, errs) if errs else sut.SACF(t, rows)
        matches(observe(s.data), want, "SACF t=%r x=%r e=%r" % (t, rows, errs))
        cor = sut.Correlator(s.data)
        check(same_list(cor.normalised_timeseries(), want["nt"]) and same_rows(cor.values(), rows, 0.0), "correlator: %r %r", cor.normalised_timeseries(), cor.values())
        check(cor.N_datasets == m and cor.M_datapoints == n, "correlator counts %r %r", cor.N_datasets, cor.M_datapoints)
        ctx.states += 4
        ctx.traces += 2
        ctx.transitions += 26
        ctx.outcome(repr(want["nd"]))
        ctx.tick()


def kinds(case, ctx):
    t, rows, errs, one_d, kt, kx, ke = case
    tt = as_kind(t, kt)
    xx = as_kind(rows, kx)
    ee = as_kind(errs, ke) if errs else None
    if tt is None or xx is None or (errs and ee is None):
        return
    a, b = (xx[0], ee[0] if errs else None) if one_d else (xx, ee)
    before = repr((tt, a, b))
    ds = sut.DataStructure(tt, a) if b is None else sut.DataStructure(tt, a, b)
    rows_, errs_ = (rows[:1], errs[:1] if errs else []) if one_d else (rows, errs or [])
    want = expected(t, rows_, errs_)
    matches(observe(ds), want, "%s %s %s" % (kt, kx, ke))
    s = sut.SACF(tt, a) if b is None else sut.SACF(tt, a, b)
    lags, corr = s.autocorrelation()
    l0, c0 = sut.run(t, rows_)
    check(lags == l0 and same_rows(sut.rows(corr, len(rows_)), sut.rows(c0, len(rows_))), "%s %s: %r %r", kt, kx, corr, c0)
    check(repr((tt, a, b)) == before, "inputs modified: %s, were %s", repr((tt, a, b)), before)
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 13


# Histories: mutations of inputs and returned lists and uses, in every order up to a depth
OPS = ["t[0]=99", "x[0][0]=99", "x[1]=[]", "e[0][1]=99", "del t", "read", "ret", "ret2", "corr", "new"]


def history(case, ctx):
    start, depth = case

    def play(seq):
        t = [0.0, 1.0, 3.0]
        x = [[1.0, 2.0, 4.0], [5.0, NAN, 1.0]]
        e = [[0.5, 0.25, 0.125], [1.0, 1.0, NAN]]
        want = expected(list(t), [list(r) for r in x], [list(r) for r in e])
        ds = sut.DataStructure(t, x, e)
        ref = None
        for op in seq:
            if op == "t[0]=99" and t:
                t[0] = 99.0
            elif op == "x[0][0]=99":
                x[0][0] = 99.0
            elif op == "x[1]=[]":
                x[1] = []
            elif op == "e[0][1]=99":
                e[0][1] = 99.0
            elif op == "del t":
                del t[:]
            elif op == "ret":
                r = ds.data()
                r[0][1] = 1e9
                r.append([])
                ds.timeseries()[1] = -1e9
                ds.errors()[0][0] = -5.0
            elif op == "ret2":
                ds.normalised_timeseries()[:] = []
                ds.normalised_data()[0][:] = [7.0]
                ds.mean_data[0] = 1e9
            elif op == "corr":
                c = sut.Correlator(ds)
                c.calculateStandardCorrelation()
                got = (c.lag_timeseries(), c.correlations())
                check(ref is None or (got[0] == ref[0] and same_rows(got[1], ref[1])), "after %r: %r, before %r", seq, got, ref)
                ref = got
                c.values()[0][:] = []
                c.normalised_timeseries()[0] = 8.0
                c.lag_timeseries()[0] = 7.0
            elif op == "new":
                sut.DataStructure([0.0, 5.0, 6.0, 7.0], [9.0, 9.0, 8.0, 7.0])
            ctx.transitions += 1
            matches(observe(ds), want, "after %r" % (seq,))
            ctx.states += 1
        ctx.traces += 1

    for rest in itertools.product(OPS, repeat=depth - len(start)):
        play(list(start) + list(rest))
        ctx.tick()


def errors_irrelevant(case, ctx):
    t, x, e, given, sel, wf = case
    a = sut.run(t, x, given, sel, wf)
    b = sut.run(t, x, given, sel, wf, errors=e)
    ctx.states += len(a[0])
    ctx.traces += 1
    ctx.transitions += 1
    n = len(x) if isinstance(x[0], list) else 1
    check(a[0] == b[0] and same_rows(sut.rows(a[1], n), sut.rows(b[1], n)), "t=%r x=%r e=%r: %r without errors, %r with", t, x, e, a, b)


def keeps(case, ctx):
    """numbers that arithmetic on them would not give back: times, values and errors are kept bit by bit"""
    t, m, with_err = case
    n = len(t)
    rows = [[ODD[(i * 5 + j * 3 + n) % len(ODD)] for i in range(n)] for j in range(m)]
    errs = [[ODD[(i * 3 + j * 5 + 1) % len(ODD)] for i in range(n)] for j in range(m)] if with_err else None
    want = expected(t, rows, errs or [])
    for ds in [build(t, rows, errs, False), sut.SACF(t, rows, errs).data if errs else sut.SACF(t, rows).data] + ([build(t, rows, errs, True)] if m == 1 else []):
        matches(observe(ds), want, "t=%r x=%r e=%r" % (t, rows, errs))
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += 13
    ctx.outcome(tuple(want["nt"]))


ODD = [0.1, 1 / 3.0, -0.7, 2.0 ** 53 - 1, 5e-324, -2.2250738585072014e-308, 1e-300, 123456789.123456789, -1e15 + 0.3, 3.0000000000000004, 7.0]
ODD_TIMES = [-1e15, -2450000.7, -1 / 3.0, -0.1, 0.0, 5e-324, 1e-17, 0.1, 0.2, 0.30000000000000004, 0.7, 1e6 + 0.1, 1e6 + 0.3, 2450000.5 + 1 / 3.0, 2e9 + 0.3, 1e15 + 0.125, 1e22]


def longs(case, ctx):
    n, name, m = case
    t = dict(A.long_times(n))[name]
    p = list(A.patterns(n))
    ctx.tick()
    rows = [[v * (1 + j // 5) for v in p[j % 5]] for j in range(m)]
    errs = [[abs(v) for v in x] for x in rows[::-1]]
    for e in (None, errs):
        matches(observe(build(t, rows, e, False)), expected(t, rows, e or []), "n=%d %s m=%d" % (n, name, m))
        ctx.states += 1
        ctx.traces += 1
    if m == 1:
        matches(observe(build(t, rows, errs, True)), expected(t, rows, errs), "n=%d %s" % (n, name))


def SPACES(tier):
    big = tier == "thorough"

    def reports():
        for n in (1, 2, 3) + ((4,) if big else ()):
            for t in A.all_times(n) if n > 1 else [[0.0], [-3.5]]:
                for start in (0.0, -1.5, 2450000.5):
                    tt = [a + start for a in t]
                    for m in (1, 2, 3, 4):
                        for with_err in (False, True):
                            yield [tt, m, with_err, list(VALS if n < 4 else VALS[:4])]
        for n in (4, 5):
            for t in A.all_times(n, (1.0, 2.5)):
                for m in (1, 2, 3):
                    yield [t, m, True, [0.0, NAN, 3.0]]

    def kind():
        rows = [[[1.0, 2.0, 5.0], [7.0, -3.0, 0.0]], [[0.5, 0.25, -1.5], [2.0 ** 20 + 0.5, 0.0, 1.0]], [[1.0, 2.0, 4.0]], [[0.1, 0.2, 0.4]]]
        times = [[0.0, 1.0, 2.0], [-4.0, 1.0, 5.0], [0.5, 0.75, 3.0]]
        for t in times:
            for r in rows:
                for e in (None, [[1.0, 2.0, 3.0]] * len(r)):
                    for one in ((False, True) if len(r) == 1 else (False,)):
                        for kt in KINDS:
                            for kx in KINDS:
                                for ke in (KINDS if e else ["list"]):
                                    yield [t, r, e, one, kt, kx, ke]

    def hist():
        for a in OPS:
            for b in OPS:
                yield [[a, b], 5 if big else 4]

    def errs():
        for n in (2, 3, 4):
            for t in (A.regular(n), A.times_from([2.5 if i % 2 else 1.0 for i in range(n - 1)])):
                for x in list(A.patterns(n)):
                    if not A.varied(x):
                        continue
                    for ev in itertools.product((0.0, 1.0, 1e9, NAN, -1.0, float("inf"), 5e-324) if n < 4 or big else (0.0, 1.0, NAN, -1.0, 1e300), repeat=n):
                        yield [t, x, list(ev), {}, None, None]
                    for sel, wf in sut.COMBOS:
                        yield [t, [x, x[::-1]], [[0.0, 1e6, NAN, 3.0][:n], [-1.0, 0.0, 2.0, 5.0][:n]], {"lag_resolution": 0.5}, sel, wf]

    def long():
        for n in (8, 9, 16, 33, 64, 100, 257, 513, 1024, 1025, 4097) + ((1000, 8193) if big else ()):
            for name, _ in A.long_times(n):
                for m in (1, 2, 3, 7):
                    yield [n, name, m]
        for n, name, _ in A.giant(big):
            for m in (1, 2, 3):
                yield [n, name, m]

    def keep():
        for n in (1, 2, 3) + ((4, 5) if big else ()):
            for t in itertools.combinations(ODD_TIMES, n):
                for m in (1, 2, 3):
                    for with_err in (False, True):
                        yield [list(t), m, with_err]
        for n in (4, 7, 12, 17):
            for c in range(len(ODD_TIMES) - n + 1):
                for m in (1, 3):
                    yield [ODD_TIMES[c:c + n], m, True]

    def block():
        for n in A.block_lengths(big):
            for name in ("alternating", "bursts") if n > 1 else ("regular",):
                for m in (1, 2) if n < 20000 or big else (2,):
                    yield [n, name, m]

    return [
        Space("report", reports, report, "all value series over {0,1,-2.5,NaN,0.1,1e9+0.5} of 1..3 (4) samples in groups of 1..4, all samplings, 3 origins, with and without errors: every accessor against the definition"),
        Space("kinds", kind, kinds, "lists, tuples, integers and (if available) arrays of three element types and strided views, in every combination for times, values and errors"),
        Space("history", hist, history, "all sequences of 4 (5) out of 10 operations: changing inputs, changing returned lists, computing, creating others; all accessors checked after each"),
        Space("keeps", keep, keeps, "all strictly ascending series of 1..3 (5) out of 17 times that sums and differences do not give back (decimals, 1e15, denormals), with such values and errors"),
        Space("blocks", block, longs, "every length up to 1200 (2500) and round numbers up to 100000 (262144) with their neighbours, 2 samplings, 1 and 2 series"),
        Space("errors", errs, errors_irrelevant, "all error series over {0,1,1e9,NaN,-1,inf,5e-324} (4 samples: {0,1,NaN,-1,1e300}) leave correlations unchanged"),
        Space("long", long, longs, "8..4097 (8193), 32769 and 65537 (262145) samples, 8 samplings, 1..7 series"),
    ]
