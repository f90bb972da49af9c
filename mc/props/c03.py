"""C03: natural selection, index by index, through the step functions."""
import math
import alphabet as A
import model as M
import sut
from engine import Space, check

ID = "C03"
SELECTION = "natural"


def lags_for(t, fine):
    span = t[-1] - t[0]
    k = -span - 2 * fine
    out = []
    while k <= span + 2 * fine:
        out.append(k)
        k += fine
    out += [-span * 3 - 1, span * 5 + 1, 2.0 ** -30, -2.0 ** -30, span - 2.0 ** -30, span + 2.0 ** -30]
    # around every midpoint between neighbours, from every sample
    return out


def go(case, ctx):
    t, fine, how = case
    tn = M.norm_times(t)
    n = len(t)
    ds = sut.DataStructure(t, [float(i) for i in range(n)])
    corr = sut.Correlator(ds)
    ks = lags_for(t, fine) if how == "grid" else None
    if how != "grid":  # lags that put each sample just before, at and just after each midpoint and sample
        e = 2.0 ** -23 if how == "fine" else 2.0 ** -20
        ks = sorted(set(c - a + d for a in tn for c in [(u + v) / 2 for u, v in zip(tn, tn[1:])] + tn for d in (-e, 0.0, e)))
    for k in ks:
        it = sut.CorrelationIterator(k, 1)
        sut.select(corr, it, SELECTION)
        got = list(it.selection_indices)
        want, _ = M.SELECTION[SELECTION](tn, k)
        ctx.states += 1
        ctx.transitions += len(want)
        ctx.traces += 1
        w = [j for _, j, _ in want]
        check(got == w, "t=%r lag=%r: selected %r, should be %r", t, k, got, w)
        corr.deltaT(it)
        d = list(it.delta_t)
        check(d == [x for _, _, x in want], "t=%r lag=%r: distances %r, should be %r", t, k, d, [x for _, _, x in want])
        ctx.outcome((tuple(w),))


def long_go(case, ctx):
    n, name, fine = case
    go([dict(A.long_times(n))[name], fine, "grid"], ctx)


def crossed(case, ctx):
    """very large and very small units, origins far from zero"""
    t, ks = case
    tn = M.norm_times(t)
    corr = sut.Correlator(sut.DataStructure(t, [float(i) for i in range(len(t))]))
    for k in ks:
        it = sut.CorrelationIterator(k, 1)
        sut.select(corr, it, SELECTION)
        want, _ = M.SELECTION[SELECTION](tn, k)
        got = list(it.selection_indices)
        check(got == [j for _, j, _ in want], "t=%r lag=%r: selected %r, should be %r", t, k, got, [j for _, j, _ in want])
        corr.deltaT(it)
        d = list(it.delta_t)
        check(d == [x for _, _, x in want], "t=%r lag=%r: distances %r, should be %r", t, k, d, [x for _, _, x in want])
        ctx.states += 1
        ctx.transitions += len(want)
        ctx.traces += 1


def SPACES(tier):
    big = tier == "thorough"

    def small():
        for n in (1, 2, 3, 4, 5) + ((6, 7) if big else ()):
            for t in A.all_times(n):
                yield [t, 0.25, "grid"]
                yield [t, 0.25, "mid"]
        for n in (2, 3, 4):
            for t in A.all_times(n, (0.25, 8.0), -3.5):
                yield [t, 0.125, "grid"]
                yield [t, 0.125, "mid"]

    def medium():
        for n in (6, 7, 8) + ((9, 10, 11) if big else ()):
            for t in A.all_times(n, (1.0, 2.5), 0.5):
                yield [t, 0.25 if big else 0.5, "grid"]
                yield [t, 0.25, "mid"]

    def long():
        for n in (16, 17, 31, 32, 33, 64, 65, 128) + ((129, 255, 256, 257) if big else ()):
            for name, _ in A.long_times(n):
                yield [n, name, 0.25]

    def scales():  # distances of very different size, and origins far from zero; every sum is still exact
        for n in (2, 3, 4, 5) + ((6,) if big else ()):
            for t in A.all_times(n, (1.0, 2.0 ** 25, 2.0 ** -22) if n < 5 or big else (1.0, 2.0 ** 25)):
                yield [t, 0.0, "fine"]
        for n in (2, 3, 4):
            for start in (2450000.5, -2.0 ** 31, 2.0 ** 40):
                for t in A.all_times(n, (1.0, 2.0 ** -8, 2.0 ** 10), start):
                    yield [t, 0.0, "mid"]

    def huge():
        for n in (513, 1025, 2049, 4097) + ((8193, 20000) if big else ()):
            for name, t in A.long_times(n):
                yield [n, name, (t[-1] - t[0]) / 16 if big else 2.0 * (t[-1] - t[0]) / 16]
        for n, name, t in A.giant(big):
            yield [n, name, 0.5 * (t[-1] - t[0])]

    def cross():
        done = set()
        for t, xs, g in A.cross(big):
            if tuple(t) in done:
                continue
            done.add(tuple(t))
            u = 2.0 ** round(math.log(t[1] - t[0], 2))
            tn = M.norm_times(t)
            ks = set()
            for a in tn:
                for b in tn + [(v + w) / 2 for v, w in zip(tn, tn[1:])]:
                    ks.update(b - a + e * u for e in (0.0, 2.0 ** -20, -2.0 ** -20))
            yield [t, sorted(ks)]

    return [
        Space("small", small, go, "all series of up to 5 (7) times over distances {1,2,0.5,3}; lags: the quarter grid beyond both ends, and before/at/after every midpoint and sample"),
        Space("medium", medium, go, "all series of 6..8 (11) times over distances {1,2.5}"),
        Space("long", long, long_go, "8 time patterns, lengths up to 128 (257), quarter grid of lags"),
        Space("scales", scales, go, "all series of 2..5 (6) times over distances {1, 2^25, 2^-22}, and of 2..4 over {1, 2^-8, 2^10} with origins up to 2^40; lags before/at/after every midpoint and sample"),
        Space("huge", huge, long_go, "8 time patterns, lengths 513..4097 (20000), 32769 and 65537 (262145), lags on a coarse grid"),
        Space("cross", cross, crossed, "product of 4 (6) lengths, 5 samplings, 7 units of time (2^-170..2^170), 3 origins; lags at, just before and just after every difference of samples and midpoints"),
    ]
