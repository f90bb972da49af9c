"""C13: exactly the inputs whose shapes fit are accepted."""
import itertools
import alphabet as A
import sut
from engine import Space, check

ID = "C13"


def series(n, base):
    return [base + 1.5 * i - (i % 2) for i in range(n)]


def classify(nt, lens, elens):
    """None if accepted, 'empty', or 'bad'"""
    if nt == 0 or sum(lens) == 0:
        return "empty"
    if any(l != nt for l in lens):
        return "bad"
    if sum(elens) and (len(elens) != len(lens) or any(l != nt for l in elens)):
        return "bad"
    return None


def attempt(ctor, args, want, what, ctx):
    ctx.states += 1
    ctx.traces += 1
    try:
        ds = ctor(*args)
        got = None
    except Exception as e:
        got = type(e).__name__
        ds = None
    ctx.outcome((what[0], got))
    if want is None:
        check(got is None, "%s%r: refused with %s", what[0], what[1:], got)
    elif want == "empty":
        check(got == "EmptyDataStructureException", "%s%r: %s instead of EmptyDataStructureException", what[0], what[1:], got or "accepted")
    elif want == "bad":
        check(got == "BadDataInputException", "%s%r: %s instead of BadDataInputException", what[0], what[1:], got or "accepted")
    else:
        check(got is not None, "%s%r: accepted", what[0], what[1:])
    return ds


def intact(ds, t, rows, errs, what):
    data = getattr(ds, "data")
    if not callable(data):  # an analysis object
        ds = data
    check(ds.data() == rows and ds.timeseries() == t and ds.errors() == errs and ds.N_datasets == len(rows) and ds.M_datapoints == len(t),
          "%r: holds %r %r %r", what, ds.timeseries(), ds.data(), ds.errors())


def one_d(case, ctx):
    nt, nx = case
    for ne in [None] + list(range(0, max(nt, nx) + 4)):
        t, x = series(nt, 10.0), series(nx, 100.0)
        t = [10.0 + i for i in range(nt)]
        e = None if ne is None else series(ne, 1000.0)
        want = classify(nt, [nx], [ne or 0])
        for name, ctor in (("DataStructure", sut.DataStructure), ("SACF", sut.SACF)):
            args = (t, x) if e is None else (t, x, e)
            ds = attempt(ctor, args, want, (name, nt, nx, ne), ctx)
            if want is None:
                intact(ds, t, [x], [e] if e else [], (name, nt, nx, ne))
            ctx.transitions += 1


def two_d(case, ctx):
    nt, lens, maxe, maxm = case
    t = [10.0 + i for i in range(nt)]
    rows = [series(l, 100.0 * (j + 1)) for j, l in enumerate(lens)]
    shapes = [None]
    for m in range(0, maxm + 1):
        shapes += list(itertools.product(range(0, maxe + 1), repeat=m))
    for el in shapes:
        e = None if el is None else [series(l, 1000.0 * (j + 1)) for j, l in enumerate(el)]
        want = classify(nt, lens, el or [])
        for name, ctor in (("DataStructure", sut.DataStructure), ("SACF", sut.SACF)):
            args = (t, rows) if e is None else (t, rows, e)
            ds = attempt(ctor, args, want, (name, nt, tuple(lens), el), ctx)
            if want is None:
                intact(ds, t, rows, e if el and sum(el) else [], (name, nt, tuple(lens), el))
            ctx.transitions += 1
        ctx.tick()


def longer(case, ctx):
    """long inputs that are off by one somewhere"""
    nt, m, j, d, where = case
    t = [10.0 + i for i in range(nt)]
    rows = [series(nt, 100.0 * (i + 1)) for i in range(m)]
    errs = [series(nt, 1.0 + i) for i in range(m)]
    if where == "values":
        rows[j] = series(nt + d, 7.0)
    elif where == "errors":
        errs[j] = series(nt + d, 7.0)
    elif where == "swap":  # the total is right
        rows[j] = series(nt + d, 7.0)
        rows[(j + 1) % m] = series(nt - d, 8.0)
    elif where == "swap_errors":
        errs[j] = series(nt + d, 7.0)
        errs[(j + 1) % m] = series(nt - d, 8.0)
    elif where == "times":
        t = [10.0 + i for i in range(nt + d)]
    elif where == "rows":
        rows = (rows * 3)[:max(0, m + d)]
    elif where == "error_rows":
        errs = (errs * 3)[:max(0, m + d)]
    want = classify(len(t), [len(x) for x in rows], [len(x) for x in errs])
    ds = attempt(sut.DataStructure, (t, rows, errs), want, ("DataStructure", case), ctx)
    if want is None:
        intact(ds, t, rows, errs if errs else [], case)
    wantv = classify(len(t), [len(x) for x in rows], [])
    ds = attempt(sut.DataStructure, (t, rows), wantv, ("DataStructure", case, "no errors"), ctx)
    if wantv is None:
        intact(ds, t, rows, [], case)
    ctx.transitions += 2


def many(case, ctx):
    """many series, of which two are off by one and compensate, or one is"""
    nt, m, a, b = case
    t = [10.0 + i for i in range(nt)]
    rows = [series(nt, 100.0 * (i + 1)) for i in range(m)]
    errs = [series(nt, 1.0 + i) for i in range(m)]
    off = [list(r) for r in rows]
    offe = [list(r) for r in errs]
    for r in (off, offe):
        r[a].append(5.0)
        if b is not None:
            r[b].pop()
    for x, e in ((rows, None), (rows, errs), (off, None), (off, errs), (rows, offe), (off, offe)):
        want = "bad" if x is off or e is offe else None
        ds = attempt(sut.DataStructure, (t, x) if e is None else (t, x, e), want, ("DataStructure", case, x is off, e is offe), ctx)
        if want is None:
            intact(ds, t, x, e or [], case)
        ctx.transitions += 1
    ctx.tick()


def mixed(case, ctx):
    """arguments that are no number lists at all, or of different dimensions"""
    a, b, c = case
    args = (MENU[a], MENU[b]) if c is None else (MENU[a], MENU[b], MENU[c])
    # a combination is acceptable only if it is (1-D, 1-D[, 1-D]) or (1-D, 2-D[, 2-D]) of fitting lengths
    shape = [SHAPES[k] for k in (a, b) + (() if c is None else (c,))]
    ok = shape[0] == "1:2" and shape[1] in ("1:2", "2:2") and (c is None or shape[2] == shape[1] or shape[2] == "e")
    ds = attempt(sut.DataStructure, args, None if ok else "any", ("DataStructure", case), ctx)
    ctx.transitions += 1


MENU = {"one": [1.0, 2.0], "two": [[1.0, 2.0]], "none": None, "number": 3.0, "text": "ab", "texts": ["a", "b"], "deep": [[[1.0, 2.0]]],
        "mixed": [1.0, [2.0]], "nones": [None, None], "empty": [], "object": object(), "complex": [1j, 2j]}
SHAPES = {"one": "1:2", "two": "2:2", "empty": "e"}
SHAPES.update({k: "-" for k in MENU if k not in SHAPES})


def SPACES(tier):
    big = tier == "thorough"

    def ones():
        for nt in range(0, 7 if not big else 12):
            for nx in range(0, 8 if not big else 14):
                yield [nt, nx]

    def twos():
        top = 4 if not big else 5
        for nt in range(0, top):
            for m in range(0, 4):
                for lens in itertools.product(range(0, top + 1), repeat=m):
                    yield [nt, list(lens), min(nt + 1, 3) if m > 2 and not big else nt + 1, min(m + 1, 3)]

    def longs():
        for nt in (8, 16, 100) + ((1000,) if big else ()):
            for m in (1, 2, 3, 8):
                for where in ("none", "values", "errors", "swap", "swap_errors", "times", "rows", "error_rows"):
                    for d in (-nt // 2, -1, 1, nt):
                        for j in sorted({0, m // 2, m - 1}):
                            if where.startswith("swap") and (m < 2 or d <= 0 or d > nt):
                                continue
                            yield [nt, m, j, d, where]

    def giants():
        for nt in (32768, 65536) + ((131072,) if big else ()):
            for m in (1, 3):
                for where in ("none", "values", "errors", "swap", "swap_errors", "times", "rows", "error_rows"):
                    for d in (-nt // 2, -1, 1, 256, nt):
                        if where.startswith("swap") and (m < 2 or d <= 0):
                            continue
                        yield [nt, m, m - 1, d, where]

    def manys():
        for nt in (1, 2, 3, 7):
            for m in list(range(2, 41)) + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 1000, 1025] + ([4097, 10001] if big else []):
                pairs = itertools.permutations(range(m), 2) if m < 12 else [(0, 1), (1, 0), (0, m - 1), (m - 1, 0), (m - 2, m - 1), (m // 2, m // 2 + 1), (m // 2, 3)]
                for a, b in pairs:
                    yield [nt, m, a, b]
                for a in range(m) if m < 12 else (0, m // 2, m - 1):
                    yield [nt, m, a, None]

    def mix():
        for a in MENU:
            for b in MENU:
                for c in [None] + list(MENU):
                    if a == "empty" or b == "empty":
                        continue
                    yield [a, b, c]

    return [
        Space("one", ones, one_d, "all lengths 0..6 (11) of times, 0..7 (13) of values, of errors up to 4 more; accepted data is read back"),
        Space("two", twos, two_d, "all lengths of times 0..3 (4), all shapes of up to 3 series of lengths 0..4 (5), all shapes of errors up to 3 series"),
        Space("long", longs, longer, "8..100 (1000) samples, 1..8 series, one length off (or two that compensate) at each position"),
        Space("giant", giants, longer, "the same with 32768 and 65536 (131072) samples"),
        Space("many", manys, many, "2..40 and selected numbers up to 1025 (10001) of series: one too long, or one too long and one too short, at all (selected) positions, in values, errors or both"),
        Space("mixed", mix, mixed, "arguments of other types and dimensions in all combinations: refused unless they fit"),
    ]
