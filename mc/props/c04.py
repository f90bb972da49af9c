"""C04: fast selection, index by index; and its agreement with the natural one on even sampling."""
import alphabet as A
import model as M
import sut
from engine import Space, check
from props import c03

ID = "C04"


def go(case, ctx):
    c03.SELECTION = "fast"
    c03.go(case, ctx)


def long_go(case, ctx):
    c03.SELECTION = "fast"
    c03.long_go(case, ctx)


def crossed(case, ctx):
    c03.SELECTION = "fast"
    c03.crossed(case, ctx)


def agree(case, ctx):
    n, step, start, num = case
    t = A.regular(n, step, start)
    corr = sut.Correlator(sut.DataStructure(t, [float(i) for i in range(n)]))
    for i in range(0, (n + 2) * num):
        k = step * i / num
        if (2 * i) % num == 0 and (2 * i // num) % 2:  # exactly half way: both neighbours are closest, same tie rule
            pass
        a = sut.CorrelationIterator(k, 1)
        b = sut.CorrelationIterator(k, 1)
        sut.select(corr, a, "natural")
        sut.select(corr, b, "fast")
        ctx.states += 1
        ctx.transitions += n
        ctx.traces += 2
        x, y = list(a.selection_indices), list(b.selection_indices)
        check(x == y, "evenly sampled n=%d step=%r lag=%r: natural %r, fast %r", n, step, k, x, y)
        ctx.outcome((tuple(x),))


def SPACES(tier):
    base = {s.name: s for s in c03.SPACES(tier)}
    big = tier == "thorough"

    def even():
        for n in list(range(1, 34)) + [64, 65] + ([128, 129, 257] if big else []):
            for step, start in ((1.0, 0.0), (0.5, -4.0), (3.0, 100.0)):
                for num in (1, 2, 4):
                    yield [n, step, start, num]

    return [
        Space("small", base["small"].cases, go, base["small"].doc),
        Space("medium", base["medium"].cases, go, base["medium"].doc),
        Space("long", base["long"].cases, long_go, base["long"].doc),
        Space("scales", base["scales"].cases, go, base["scales"].doc),
        Space("huge", base["huge"].cases, long_go, base["huge"].doc),
        Space("even", even, agree, "natural and fast selection on evenly sampled series of every length 1..33 (257), lags on whole, half and quarter steps"),
        Space("cross", base["cross"].cases, crossed, base["cross"].doc),
    ]
