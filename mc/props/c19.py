"""C19: calls on the same or on other analysis objects never influence each other."""
import gc
import itertools
import json
import os
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C19"
NAN = float("nan")
DATA = {
    "A": ([0.0, 1.0, 2.5, 3.0], [1.0, 3.0, -2.0, 0.5]),
    "B": ([0.0, 1.0, 2.5, 3.0], [[4.0, NAN, 1.0, 9.0], [1.0, 3.0, -2.0, 0.5]]),
    "C": ([5.0, 5.5, 7.0], [2.0, -1.0, 4.0]),
}
KW = {
    "-": {}, "fine": {"lag_resolution": 0.125}, "wide": {"min_lag": -9.0, "max_lag": 9.0, "alpha": 0.5}, "none": {"min_lag": 3.0, "max_lag": 1.0},
    "half": {"min_lag": 0.25, "lag_resolution": 0.5}, "alpha": {"alpha": 7.0},
    "fg": {"selection_function": "fast", "weight_function": "gaussian"},
    "ns": {"weight_function": "fractional_squared", "max_lag": 2.0},
    "f": {"selection_function": "fast", "min_lag": 0.0},
    "bad0": {"lag_resolution": 0.0}, "badinf": {"max_lag": float("inf"), "selection_function": "fast"}, "badname": {"weight_function": "no such"},
    "badtype": {"min_lag": "x"},
}
REF = {}


def call(s, op, corr):
    return s.autocorrelation(return_correlator=corr, **KW[op])


def isolated(obj, op):
    """the result of this call as the first thing a process does"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            try:
                out = sut.SACF(*DATA[obj]).autocorrelation(**KW[op])
            except Exception as e:
                out = type(e).__name__
            os.write(w, json.dumps(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    buf = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    return json.loads(buf.decode())


def setup(tier):
    for obj in DATA:
        for op in KW:
            REF[obj + op] = isolated(obj, op)


def rows_of(obj, corr):
    return corr if obj == "B" else [corr]


def eq(obj, lags, corr, ref):
    return same_list(lags, ref[0]) and same_rows(rows_of(obj, corr), rows_of(obj, ref[1]), 1e-12)


def play(seq, ctx):
    objs = {k: sut.SACF(*v) for k, v in DATA.items()}
    kept = []  # (object, operation, lags, correlations, correlator, correlator still untouched)
    for i, op in enumerate(seq):
        ctx.transitions += 1
        if op == "scribble":
            if kept:
                o, name, lags, corr, c, _ = kept.pop()
                for l in [lags] + rows_of(o, corr):
                    l[:] = [1e9] * 3
                corr.append(5.0)
                if c is not None:
                    c.max_lag = 1.0
                    c.lag_resolution = 0.5
                    c.alpha = 99.0
                    c.calculateStandardCorrelation()
                    c.clearCorrelation()
        elif op == "drop":
            objs = {k: sut.SACF(*v) for k, v in DATA.items()}
            gc.collect()
        elif op == "build":
            sut.DataStructure([0.0, 1.0, 9.0], [[5.0, 5.0, 6.0], [9.0, 8.0, 7.0]])
            try:
                sut.DataStructure([0.0, 1.0], [1.0])
            except Exception:
                pass
        else:
            o, name = op[0], op[1:]
            ref = REF[op]
            try:
                out = call(objs[o], name, bool(i & 1) ^ (o == "B"))
            except Exception as e:
                check(isinstance(ref, str), "call %d of %r raised %r, alone it gives %r", i, seq, e, ref)
                out = None
            if out is not None:
                check(not isinstance(ref, str), "call %d of %r gives %r, alone it raises %s", i, seq, out, ref)
                check(eq(o, out[0], out[1], ref), "call %d of %r gives %r, alone %r", i, seq, out[:2], ref)
                kept.append((o, name, out[0], out[1], out[2] if len(out) > 2 else None, True))
                ctx.outcome((o, name))
        for o, name, lags, corr, c, _ in kept:
            check(eq(o, lags, corr, REF[o + name]), "after %r: result of %s%s became %r %r", seq[:i + 1], o, name, lags, corr)
            if c is not None:
                cr = c.correlations()
                check(eq(o, c.lag_timeseries(), cr if o == "B" else cr[0], REF[o + name]), "after %r: correlator of %s%s reports %r %r",
                      seq[:i + 1], o, name, c.lag_timeseries(), cr)
            ctx.states += 1
        for o, s in objs.items():
            check(s.data.timeseries() == DATA[o][0] and same_rows(s.data.data(), rows_of(o, DATA[o][1]), 0.0), "after %r: data of %s is %r", seq[:i + 1], o, s.data.data())
    ctx.traces += 1


def histories(case, ctx):
    ops, start, depth = case
    for rest in itertools.product(ops, repeat=depth - len(start)):
        play(list(start) + list(rest), ctx)
        ctx.tick()


ALL = [o + k for o in "ABC" for k in KW] + ["scribble", "drop", "build"]
FEW = ["A-", "Afine", "Afg", "B-", "Bwide", "Bfg", "Cns", "Abad0", "Bbadinf", "scribble"]
DEEP = ["A-", "Afine", "Bfg", "Cwide", "Abad0", "scribble"]


def SPACES(tier):
    big = tier == "thorough"

    def cases(ops, depth):
        def g():
            for d in range(1, depth + 1):
                for start in itertools.product(ops, repeat=min(2, d)):
                    yield [ops, list(start), d]
        return g

    return [
        Space("pairs", cases(ALL, 2), histories, "all sequences of 1..2 of 42 operations: 13 calls (incl. 4 failing ones) on each of 3 objects, changing returned lists and correlators, dropping objects, other data sets"),
        Space("few", cases(FEW, 4 if not big else 5), histories, "all sequences of 1..4 (5) of 10 operations"),
        Space("deep", cases(DEEP, 5 if not big else 7), histories, "all sequences of 1..5 (7) of 6 operations"),
    ] + ([Space("triples", cases(ALL, 3), histories, "all sequences of 1..3 of 42 operations")] if big else [])
