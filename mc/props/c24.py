"""C24: results do not depend on how the extension is compiled."""
import itertools
import json
import os
import subprocess
import sys
import alphabet as A
import sut
from engine import Space, Violation, check

ID = "C24"
NAN = float("nan")
INF = float("inf")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHILDREN = {}
PERTURB = {"plain": "165", "portable": "90", "checked": "1", "clang": "255"}


def setup(tier):
    builds = json.loads(os.environ["MC_BUILDS"])
    for v in sorted(builds, key=lambda v: v != "plain"):
        if v not in PERTURB and v != "asan":
            continue
        env = dict(os.environ, PYTHONPATH=builds[v], MALLOC_PERTURB_=PERTURB.get(v, "0"))
        if v == "asan":
            env.update(LD_PRELOAD=os.environ["MC_ASAN_PRELOAD"], ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_malloc_fill_size=4096:malloc_fill_byte=90")
        start(v, env)


def start(v, env):
    p = subprocess.Popen([sys.executable, os.path.join(HERE, "server24.py")], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE, universal_newlines=True)
    CHILDREN[v] = (p, env)


def ask(question):
    line = json.dumps(question) + "\n"
    for v, (p, env) in CHILDREN.items():
        p.stdin.write(line)
        p.stdin.flush()
    out = {}
    for v, (p, env) in list(CHILDREN.items()):
        a = p.stdout.readline()
        if not a:
            start(v, env)
            a = json.dumps({"ended": p.wait()})
        out[v] = json.loads(a)
    return out


def differ(a, b, tol, path=()):
    """None or where they differ"""
    if isinstance(a, list) and isinstance(b, list):
        if len(a) != len(b):
            return path + ("length %d / %d" % (len(a), len(b)),)
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, tol, path + (i,))
            if d:
                return d
        return None
    if isinstance(a, float) and isinstance(b, float):
        if a != a or b != b:
            return None if a != a and b != b else path + (a, b)
        if a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)):
            return None
        return path + (a, b)
    return None if a == b else path + (a, b)


def go(case, ctx):
    data, text, runs, steps = case
    out = ask({"data": data, "text": text, "runs": runs, "steps": steps})
    ref = out["plain"]
    for v in out:
        ctx.count("answers of " + v)
        ctx.traces += 1
        check(not isinstance(out[v], dict), "build %s on %r: %r", v, data if text is None else text, out[v])
        if v != "plain":
            d = differ(ref, out[v], 1e-9)
            ctx.states += len(out[v])
            ctx.transitions += 1
            if d is not None:
                what = "data" if d[0] == 0 or isinstance(d[0], str) else "run %r" % (runs[d[0] - 1],) if d[0] <= len(runs) else "steps %r" % (steps[d[0] - 1 - len(runs)],)
                raise Violation("%r %s: builds plain / %s differ at %r" % (data if text is None else text, what, v, d))
    ctx.outcome(json.dumps(ref))


RUNS = None


def all_runs(t):
    out = [[g, sel, wf] for g in A.param_menu(t) for sel, wf in (sut.COMBOS[0], sut.COMBOS[5], sut.COMBOS[1], sut.COMBOS[3])]
    out += [[g, sel, wf] for g in ({"lag_resolution": 0.0}, {"min_lag": 3.0, "max_lag": 1.0}, {"lag_resolution": 0.1, "max_lag": 1.0, "min_lag": -0.7, "alpha": 0.3}) for sel, wf in sut.COMBOS[::5]]
    return out


def all_steps(t):
    span = t[-1] - t[0]
    return [[k, sel, wf] for k in (0.0, 0.25, -0.75, span / 2, -span, span + 1, 0.3) for sel, wf in sut.COMBOS]


def SPACES(tier):
    big = tier == "thorough"

    def small():
        for n in (2, 3, 4, 5) + ((6,) if big else ()):
            for t in A.all_times(n, (1.0, 2.0, 0.5, 3.0) if n < 5 else (1.0, 0.25)):
                p = list(A.patterns(n))
                y = list(p[2])
                y[n // 2] = NAN
                yield [[t, [p[0], p[1], y]], None, all_runs(t), all_steps(t)]
                yield [[t, p[2]], None, all_runs(t)[::3], all_steps(t)[::2]]

    def decimals():
        for start in (0.0, 0.1, -5.3, 2450000.5):
            for scale in (0.1, 1.0 / 3, 0.01, 7.7, 1e-3):
                for ks in ([0, 1, 2, 3, 4, 5], [0, 1, 3, 4, 7, 12], [0, 5, 6, 7, 13, 14], [0, 0.25, 0.75, 0.8, 0.85, 2.95]):
                    t = [start + scale * k for k in ks]
                    x = [0.1, 0.25, -0.3, 1.7, 0.9, 0.33]
                    runs = [[{k: v * scale for k, v in g.items()}, sel, wf] for g in A.param_menu([0.0, 6.0]) for sel, wf in sut.COMBOS[::5]]
                    yield [[t, [x, [1000 + v for v in x], [0.2, NAN, 0.4, 0.2, 0.1, NAN]]], None, [[{}, s, w] for s, w in sut.COMBOS] + runs,
                           [[k * scale, s, w] for k in (0.0, 0.5, 0.3, 1.0, -0.7) for s, w in sut.COMBOS]]

    def shapes():
        for nt in range(0, 4):
            for lens in itertools.product(range(0, 4), repeat=2):
                yield [[[float(i) for i in range(nt)], [[float(i * i) for i in range(l)] for l in lens]], None, [[{}, "natural", "fractional"]], []]
                yield [[[float(i) for i in range(nt)], [float(i * i) for i in range(lens[0])], [1.0] * lens[1]], None, [[{}, "natural", "fractional"]], []]
        for t in itertools.product((0.0, 1.0, 2.5, 2.5), repeat=3):
            yield [[list(t), [1.0, 5.0, 2.0]], None, [[{}, s, w] for s, w in sut.COMBOS[::5]] + [[{"lag_resolution": 0.5}, "fast", "gaussian"]], []]

    def files():
        for sep in (",", " ", "\t", " , "):
            for eol in ("\n", "\r\n"):
                for nan in ("nan", "NaN", "7"):
                    for cols in (2, 3):
                        for extra in ("", "# c" + eol, eol, "t x" + eol):
                            rows = [["0", "1.5", ".5"], ["1", nan, "1e-1"], ["2.5", "-2", nan]]
                            yield ["c24.txt", extra + eol.join(sep.join(r[:cols]) for r in rows), [[{}, "natural", "fractional"], [{}, "fast", "gaussian"]], []]
        for text in ("", "#", "x y", "0", "0,1,2,3", "0,1\n1"):
            yield ["c24.txt", text, [[{}, "natural", "fractional"]], []]

    def longs():
        for n in (16, 33, 64, 100) + ((257,) if big else ()):
            for name, t in A.long_times(n):
                p = list(A.patterns(n))
                yield [[t, p], None, [[g, s, w] for g in ({}, {"min_lag": -3.0, "max_lag": 9.0, "lag_resolution": 0.375, "alpha": 2.0}) for s, w in sut.COMBOS[::5]],
                       [[k, s, w] for k in (0.0, 1.25, -2.5) for s, w in sut.COMBOS]]

    return [
        Space("small", small, go, "all samplings of 2..5 (6) times x 2 inputs: accessors, 50 analyses, 42 step-wise analyses on every build"),
        Space("decimal", decimals, go, "decimal times, origins and values"),
        Space("shapes", shapes, go, "lengths that fit and do not fit, orders of times: the same refusals"),
        Space("files", files, go, "data files"),
        Space("long", longs, go, "16..100 (257) samples"),
    ]
