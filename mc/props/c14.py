"""C14: a data file is the numbers written in it."""
import itertools
import os
import alphabet as A
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C14"
NAN = float("nan")
SEPS = [",", " ", "\t", ", ", " ,", "   ", " , ", "\t\t", ",\t"]
EOLS = ["\n", "\r\n"]
TITLES = [None, "# t x e", "#", "time,flux,error", "time flux error", "   ", "JD (days) # flux", "t\tx", "#1 2 3", ", ,"]
EXTRA = ["", "# comment", "#", "#5,6,7", "  ", "\t"]


def load(text, as_sacf=False, name="data.txt"):
    with open(name, "wb") as fh:
        fh.write(text.encode("utf-8"))
    return sut.SACF(filename=name).data if as_sacf else sut.DataStructure(name)


def same_as_memory(ds, t, x, e, what, exact=True):
    mem = sut.DataStructure(t, x) if not e else sut.DataStructure(t, x, e)
    tol = 0.0
    check(ds.M_datapoints == len(t) and ds.N_datasets == 1, "%s: %d samples of %d series, should be %d", what, ds.M_datapoints, ds.N_datasets, len(t))
    check(same_list(ds.timeseries(), mem.timeseries(), tol), "%s: times %r, should be %r", what, ds.timeseries(), t)
    check(same_rows(ds.data(), mem.data(), tol), "%s: values %r, should be %r", what, ds.data(), x)
    check(same_rows(ds.errors(), mem.errors(), tol), "%s: errors %r, should be %r", what, ds.errors(), e)
    check(same_list(ds.normalised_timeseries(), mem.normalised_timeseries(), tol) and same_rows(ds.normalised_data(), mem.normalised_data(), tol)
          and same_list(ds.mean_data, mem.mean_data, tol) and ds.median_time == mem.median_time and ds.max_time == mem.max_time,
          "%s: derived values differ", what)
    return mem


def rows_text(cols, sep, lead="", trail=""):
    return [lead + sep.join(r) + trail for r in zip(*cols)]


def fmt(v, kind="repr"):
    if v != v:
        return "nan"
    return {"repr": repr(v), "exp": "%.17e" % v, "EXP": "%.17E" % v, "plus": "%+.17g" % v, "g": "%.17g" % v}[kind]


def layout(case, ctx):
    """separators, line ends, blanks, titles and inserted lines, in every combination"""
    sep, eol, final, title = case
    t = [0.5, 1.0, 2.25]
    x = [1.5, -2.0, 7.0]
    e = [0.25, 0.5, 0.125]
    for cols in ((t, x), (t, x, e)):
        base = rows_text([[fmt(v) for v in c] for c in cols], sep)
        for lead, trail in (("", ""), ("  ", ""), ("", " "), ("\t", "\t ")):
            for extra in [None] + EXTRA:
                for pos in ([0] if extra is None else range(0, 4)):
                    lines = [lead + r + trail for r in base]
                    if extra is not None:
                        lines.insert(pos, extra)
                    if title is not None:
                        lines.insert(0, title)
                    text = eol.join(lines) + (eol if final else "")
                    ds = load(text)
                    same_as_memory(ds, t, x, e if len(cols) == 3 else None, "file %r" % text)
                    ctx.states += 1
                    ctx.traces += 1
                    ctx.transitions += len(lines)
                    ctx.outcome((len(cols), len(lines)))
        ctx.tick()


def missing(case, ctx):
    """NaN values and errors at every combination of positions, in several spellings"""
    n, sep, eol, spell = case
    t = [float(i) for i in range(n)]
    for xm in range(1 << n):
        if xm == (1 << n) - 1:
            continue
        x = [NAN if xm >> i & 1 else i * 1.5 - 1 for i in range(n)]
        for em in [None] + list(range(1 << n)):
            e = None if em is None else [NAN if em >> i & 1 else 0.5 + i for i in range(n)]
            cols = [[fmt(v) for v in t], [spell if v != v else fmt(v) for v in x]]
            if e:
                cols.append([spell if v != v else fmt(v) for v in e])
            text = eol.join(rows_text(cols, sep)) + eol
            ds = load(text, as_sacf=bool(xm & 1))
            same_as_memory(ds, t, x, e, "file %r" % text)
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += n
            ctx.outcome((xm, em))
            if A.varied(x) and n > 1:
                a = sut.SACF(filename="data.txt").autocorrelation()
                b = sut.run(t, x)
                check(a[0] == b[0] and same_list(a[1], b[1]), "file %r: correlations %r, in memory %r", text, a, b)


NOTATIONS = ["0", "1", "-1", "+1", "1.", "1.0", ".5", "-.5", "+.5", "1e3", "1E3", "1e+3", "1e-3", "1.5e+03", "-2.5E-01", "007", "00.50", "1e0",
             "123456789", "2450000.123456789", "0.1", "3.141592653589793", "1e-300", "1e300", "-0", "-0.0", "1e22", "9007199254740993", "1e-307"]


def notation(case, ctx):
    sep, eol, col = case
    for a, b in itertools.product(NOTATIONS, repeat=2):
        fields = [["0", "1", "2", "3"], ["5", "1", "2.5", "4"], ["1", "2", "3", "4"]]
        if col == 0:  # times must ascend to be correlated, but are loaded as they are
            fields[0][1], fields[0][2] = a, b
        else:
            fields[col][1], fields[col][2] = a, b
        text = eol.join(rows_text(fields, sep)) + eol
        ds = load(text)
        num = [[float(v) for v in f] for f in fields]
        same_as_memory(ds, num[0], num[1], num[2], "file %r" % text)
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += 4
        ctx.outcome((a, b))
    ctx.tick()


def size(case, ctx):
    """many lines; a first comment of every length moves all fields across the buffer boundaries"""
    n, pads, sep, eol, three, final = case
    t = [i * 0.5 for i in range(n)]
    x = [NAN if i % 17 == 5 else (i * 37 % 101) / 7.0 for i in range(n)]
    e = [NAN if i % 13 == 5 else (i % 9) / 8.0 for i in range(n)] if three else None
    cols = [[fmt(v) for v in c] for c in ((t, x, e) if three else (t, x))]
    body = eol.join(rows_text(cols, sep)) + (eol if final else "")
    for pad in range(*pads):
        text = "#" + "x" * pad + eol + body
        same_as_memory(load(text), t, x, e, "file of %d lines, %d bytes, comment of %d" % (n, len(text), pad + 1))
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += n
        ctx.tick()
    ctx.outcome((n, sep, eol))


def columns(case, ctx):
    """columns after the third are ignored, whatever they hold, on any subset of the lines"""
    n, sep, eol, more = case
    t = [float(i) for i in range(n)]
    x = [i * 1.5 - 1 for i in range(n)]
    for e in ([0.5 + i for i in range(n)], [NAN if i == 0 else 1.0 * i for i in range(n)]):
        base = rows_text([[fmt(v) for v in c] for c in (t, x, e)], sep)
        for mask in range(1 << n):
            text = eol.join(r + sep + more if mask >> i & 1 else r for i, r in enumerate(base)) + eol
            same_as_memory(load(text), t, x, e, "file %r" % text)
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += n
    ctx.outcome((n, more))


LONG = {
    "comment": lambda r, n, sep: ["#" + "c" * n + " 7 8 9 10 11 12", r],
    "numbers in a comment": lambda r, n, sep: ["# " + sep.join(["7"] * (n // 2)), r],
    "title": lambda r, n, sep: ["t" + "t" * n + " 7 8 9 10", r],
    "leading blanks": lambda r, n, sep: [" " * n + r],
    "blanks between": lambda r, n, sep: [r.replace(sep, sep + " " * n)],
    "trailing blanks": lambda r, n, sep: [r + " " * n],
    "blank line": lambda r, n, sep: [" " * n, r],
    "zeros before": lambda r, n, sep: [sep.join("0" * n + f for f in r.split(sep))],
    "zeros after": lambda r, n, sep: [sep.join(f + "0" * n for f in r.split(sep))],
    "more columns": lambda r, n, sep: [r + (sep + "8") * (n // 2)],
}


def longline(case, ctx):
    """one line of any length among ordinary ones"""
    kind, sep, eol, at, lens = case
    t, x, e = [0.5, 1.5, 2.25, 3.5], [1.5, -2.0, 7.0, 0.25], [0.25, 0.5, 0.125, 1.5]
    if kind == "title":
        at = 0
    for n in lens:
        lines = rows_text([[fmt(v).replace("-2.0", "2.0") for v in c] for c in (t, x, e)], sep)
        lines[at:at + 1] = LONG[kind](lines[at], n, sep)
        same_as_memory(load(eol.join(lines) + eol), t, [abs(v) for v in x], e, "file with %s of length %d at line %d" % (kind, n, at))
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += len(lines)
    ctx.outcome((kind, sep, eol))
    ctx.tick()


ROWS = [("0", "1", "2"), ("1", "5", "2"), ("1", "5", "2.0"), ("1", "nan", "3"), ("-2", "1", "nan"), ("1", "1", "1")]


def contents(case, ctx):
    """every sequence of lines: repeated, out of order, alike in some columns"""
    sep, eol, n, first = case
    for rest in itertools.product(ROWS, repeat=n - 1):
        lines = [ROWS[first]] + list(rest)
        for w in (2, 3):
            text = eol.join(sep.join(r[:w]) for r in lines) + eol
            num = [[float(v) for v in c] for c in zip(*lines)]
            same_as_memory(load(text), num[0], num[1], num[2] if w == 3 else None, "file %r" % text)
            ctx.states += 1
            ctx.traces += 1
            ctx.transitions += n
    ctx.outcome((sep, n, first))
    ctx.tick()


def nothing(case, ctx):
    """files that hold no samples are empty data sets, which are refused"""
    text, = case
    try:
        load(text)
        got = "accepted"
    except Exception as ex:
        got = type(ex).__name__
    check(got == "EmptyDataStructureException", "file %r: %s instead of EmptyDataStructureException", text, got)
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 1
    ctx.outcome(text)


def names(case, ctx):
    """file names and directories of all kinds"""
    name, = case
    d = os.path.dirname(name)
    if d and not os.path.isdir(d):
        os.makedirs(d)
    t, x = [0.0, 1.0, 2.0], [1.0, 5.0, 2.0]
    text = "\n".join(rows_text([[fmt(v) for v in c] for c in (t, x)], ","))
    for f in (False, True):
        same_as_memory(load(text, f, name), t, x, None, "file named %r" % name)
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += 1
    ctx.outcome(name)


def SPACES(tier):
    big = tier == "thorough"

    def layouts():
        for sep in SEPS:
            for eol in EOLS:
                for final in (True, False):
                    for title in TITLES:
                        yield [sep, eol, final, title]

    def miss():
        for n in (1, 2, 3, 4) + ((5,) if big else ()):
            for sep in SEPS if n < 4 or big else SEPS[:3]:
                for eol in EOLS:
                    for spell in ("nan", "NaN", "NAN"):
                        yield [n, sep, eol, spell]

    def nots():
        for sep in SEPS:
            for eol in EOLS:
                for col in (0, 1, 2):
                    yield [sep, eol, col]

    def sizes():
        for n in (1, 2, 3, 10, 100, 300):
            for sep, eol, three, final in itertools.product((",", "\t"), EOLS, (False, True), (False, True)):
                yield [n, [0, 40, 3], sep, eol, three, final]
        # every position of the boundary at 8191 / 8192 / 16384 bytes relative to a line
        for lo in range(0, 64 if not big else 256, 4):
            for sep, eol in ((",", "\n"), (" ", "\r\n")):
                yield [700, [lo, lo + 4], sep, eol, True, False]
        for lo in range(8100, 8260, 8):
            yield [20, [lo, lo + 8], ",", "\n", True, True]
        for n in (32770, 65540, 100001, 131073, 200001, 262145, 1000001) + ((300000, 2000001) if big else ()):
            yield [n, [0, 1], ",", "\n", True, True]
            yield [n, [5, 6], " ", "\r\n", False, False]
        for n in (5000,) + ((60000,) if big else ()):
            for sep in SEPS[:3]:
                for eol in EOLS:
                    yield [n, [0, 2], sep, eol, True, True]

    def conts():
        for n in (1, 2, 3, 4) + ((5,) if big else ()):
            for sep in SEPS[:3]:
                for eol in EOLS:
                    for first in range(len(ROWS)):
                        yield [sep, eol, n, first]

    def cols():
        for n in (1, 2, 3, 4, 5):
            for sep in SEPS:
                for eol in EOLS:
                    for more in ("9", "nan", "a b c", "1 2 3 4", "# remark", "-"):
                        yield [n, sep, eol, more]

    def longs():
        for kind in LONG:
            for sep in (",", " ", "\t"):
                for eol in EOLS:
                    for at in (0, 1, 3):
                        for lens in ([0, 1, 2, 3, 7, 30, 31, 32, 33, 62, 63, 64, 65, 79, 80, 81, 99, 100, 101, 126, 127, 128, 129, 131],
                                     list(range(190, 266)), list(range(490, 520)), list(range(985, 1030)), list(range(2030, 2050)), list(range(4075, 4100)),
                                     list(range(8170, 8195)), [16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537] + ([131072, 1 << 20] if big else [])):
                            if at == 1 or big or kind in ("comment", "leading blanks"):
                                yield [kind, sep, eol, at, lens]

    def empties():
        for text in ("", "\n", "\r\n", "#", "# 1 2 3\n", "\n\n\n", "time,flux\n", "time flux error", " \n \n", "#1,2\n#3,4\n"):
            yield [text]

    def namess():
        for name in ("a", "a.b.c", "with blank.txt", "d1/f.csv", "d1/d2/d3/f", "./g.dat", "\u00e9\u00fc.txt", "\u661f.dat", "x" * 200, "#h", "-n", "%s%d", "1,2"):
            yield [name]

    return [
        Space("layout", layouts, layout, "9 separators x 2 line ends x final line end or not x 10 title lines x 2/3 columns x 4 kinds of surrounding blanks x 6 extra lines at every position"),
        Space("missing", miss, missing, "all combinations of NaN values and errors in 1..4 (5) lines, 3 spellings, all separators: data set and correlations as from memory"),
        Space("notation", nots, notation, "all pairs of 29 number notations in each column"),
        Space("size", sizes, size, "1..1000001 (2000001) lines, file buffer boundaries moved over all positions of a line"),
        Space("columns", cols, columns, "further columns of 6 kinds on every subset of 1..5 lines"),
        Space("contents", conts, contents, "all sequences of 1..4 (5) out of 6 lines: repeated ones, equal and descending times, missing values"),
        Space("longline", longs, longline, "one line of any length (10 kinds: comments, titles, blanks, digits, columns; lengths 0..65537 (1 MiB), all around powers of two and 80, 100, 200, 500, 1000) among ordinary ones"),
        Space("nothing", empties, nothing, "files without samples"),
        Space("names", namess, names, "file names"),
    ]
