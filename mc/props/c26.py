"""C26: a call that fails part way leaves everything usable.

The failures: memory runs out at any allocation the extension makes (shim/allocfault.cpp, preloaded), once or from
there on; KeyboardInterrupt at any line or bytecode of the package's Python code; inputs that raise while they are read.
"""
import copy
import ctypes
import itertools
import json
import os
import pickle
import subprocess
import sys
import sut
from common import compare, same_list, same_rows
from engine import Space, check, tidy

ID = "C26"
NAN = float("nan")
LIB = None
PKG = os.path.dirname(os.path.abspath(sut.sacf.__file__))
SMALL = ("one", "two", "three")

DATA = {
    "one": ([0.0, 1.0, 2.5, 3.0], [1.0, 3.0, -2.0, 0.5], None),
    "two": ([5.0, 5.5, 7.0], [[2.0, NAN, 4.0], [1.0, 0.0, 9.0]], [[0.1, 0.2, 0.3], [0.0, NAN, 2.0]]),
    "three": ([-1.0, 0.0, 0.5, 3.0, 3.5], [[1.0, 3.0, -2.0, 0.5, 2.0], [4.0, NAN, 1.0, 9.0, 1.0], [0.0, 0.0, 1.0, 0.0, 0.0]], None),
    "long": ([0.5 * i + (i % 3) * 0.125 for i in range(18)], [float((i * i) % 7) for i in range(18)], [0.5 + i for i in range(18)]),
}
FILES = {
    "title": "# title\n0,1\n1,3\n2.5,-2\n3,0.5\n",
    "mixed": "time value error\n  0.0   1.0   0.1\n\n1.0e0\t3.0\t0.2\n#x\n2.5 nan 0.3 7\r\n3 0.5 nan",
    "digits": "".join("%.17g, %.17g , %.17g%s\n" % (i * 0.5 + 0.1, (i * i) % 7 / 3.0, 0.1 * i + 1e-300, " " * (i * 11 % 90)) for i in range(12)),
}
PARAMS = [{}, {"min_lag": -1.0, "max_lag": 1.0, "lag_resolution": 0.5}, {"min_lag": 0.5, "max_lag": 1.5, "lag_resolution": 0.5, "alpha": 0.25},
          {"min_lag": -0.5, "max_lag": 4.0, "lag_resolution": 0.125}, {"max_lag": -1e3}]
GEN = [None, ("natural", "fractional"), ("fast", "gaussian"), ("natural", "fractional_squared")]


def setup(tier):
    global LIB
    LIB = ctypes.CDLL(json.loads(os.environ["MC_BUILDS"])["shim"])
    LIB.allocfault_arm.argtypes = [ctypes.c_long, ctypes.c_int]
    # pybind11 itself allocates in four places where an exception leaves a C function or leaves it in disorder: these are spared
    found = set()
    for module in (sut.D, sut.C):
        path = os.path.realpath(module.__file__)
        with open("/proc/self/maps") as fh:
            base = min(int(l.split("-")[0], 16) for l in fh if l.rstrip().endswith(path))
        for l in subprocess.check_output(["nm", "-C", "-S", path], universal_newlines=True).splitlines():
            f = l.split(None, 3)
            if len(f) == 4 and f[2] in "tTwW":
                for name in ("pybind11::detail::all_type_info(_typeobject*)", "pybind11::detail::make_new_instance(_typeobject*)",
                             "pybind11::detail::register_instance(pybind11::detail::instance*, void*, pybind11::detail::type_info const*)",
                             "pybind11::detail::keep_alive_impl(pybind11::handle, pybind11::handle)"):
                    if name == f[3]:
                        found.add((module.__name__, name))
                        a = base + int(f[0], 16)
                        LIB.allocfault_spare(ctypes.c_void_p(a), ctypes.c_void_p(a + int(f[1], 16)))
    assert len({name for module, name in found}) >= 3, found  # (keep_alive_impl only where it is used)
    for name, text in FILES.items():
        with open("c26-" + name, "wb") as fh:
            fh.write(text.encode())


def data(name):
    return [copy.deepcopy(v) for v in DATA[name] if v is not None]


def nseries(name):
    x = DATA[name][1]
    return len(x) if isinstance(x[0], list) else 1


def state(ds):
    return [ds.timeseries(), ds.normalised_timeseries(), list(ds.mean_data), [ds.median_time, ds.max_time, ds.N_datasets, ds.M_datapoints]] + ds.data() + [[]] + ds.errors() + [[]] + ds.normalised_data()


def result(c):
    return [c.lag_timeseries()] + c.correlations()


def flat(r, n):
    return [r[0]] + sut.rows(r[1], n)


def same(a, b):
    return same_rows(a, b, 1e-9)


REF = {}
DEFAULTS = {}


def ref(name, p, g, ctx=None):
    """what the implementation gives when nothing fails, compared with the model"""
    key = (name, p, g or GEN[1])
    if key not in REF:
        t, x = DATA[name][:2]
        xs = x if isinstance(x[0], list) else [x]
        sel, wf = g or GEN[1]
        r = sut.SACF(*data(name)).autocorrelation(selection_function=sel, weight_function=wf, **PARAMS[p])
        if all(v == v for row in xs for v in row):
            compare(t, xs, PARAMS[p], r[0], sut.rows(r[1], len(xs)), ctx, selection=sel, weight=wf)
        REF[key] = flat(r, len(xs))
    return REF[key]


def ref_state(name):
    if name not in DEFAULTS:
        ds = sut.DataStructure("c26-" + name) if name in FILES else sut.DataStructure(*data(name))
        c = sut.Correlator(ds)
        DEFAULTS[name] = state(ds), {k: getattr(c, k) for k in ("min_lag", "max_lag", "lag_resolution", "alpha")}
    return DEFAULTS[name]


class World(object):
    """objects in use when something fails"""

    def __init__(self, name, ctx, used=None):
        self.name, self.ctx, self.n = name, ctx, nseries(name)
        ref_state(name)
        self.inputs = data(name)
        self.ds = sut.DataStructure(*self.inputs)
        self.sacf = sut.SACF(*self.inputs)
        self.before = sut.Correlator(self.ds)
        self.set(self.before, 1)
        self.compute(self.before, GEN[2])
        self.earlier = self.sacf.autocorrelation(return_correlator=True, **PARAMS[2])
        self.c = sut.Correlator(self.ds)
        self.used = used
        if used is not None:
            self.set(self.c, used)
            self.compute(self.c, None)
        self.it = sut.CorrelationIterator(0.5, self.n)

    def set(self, c, p):
        sut.set_params(c, dict(ref_state(self.name)[1], **PARAMS[p]))

    def compute(self, c, g):
        if g is None:
            c.calculateStandardCorrelation()
        else:
            sut.SACF.find_correlation(c, *g)

    def verify(self, what):
        name = self.name
        check(repr(self.inputs) == repr(data(name)), "%s: inputs changed to %r", what, self.inputs)
        check(same(state(self.ds), ref_state(name)[0]), "%s: the data set now has %r, should be %r", what, state(self.ds), ref_state(name)[0])
        got, want = result(self.before), ref(name, 1, GEN[2], self.ctx)
        check(same(got, want), "%s: another correlator now has %r, should be %r", what, got, want)
        want = ref(name, 2, None, self.ctx)
        check(same(flat(self.earlier, self.n), want), "%s: an earlier result is now %r, should be %r", what, self.earlier, want)
        check(same(result(self.earlier[2]), want), "%s: an earlier correlator now has %r, should be %r", what, result(self.earlier[2]), want)
        for p, g in ((1, None), (0, GEN[2]), (3, None), (4, None), (2, GEN[1])):
            self.set(self.c, p)
            self.compute(self.c, g)
            got, want = result(self.c), ref(name, p, g, self.ctx)
            check(same(got, want), "%s: then the same correlator computes, with %r by %r, %r, should be %r", what, PARAMS[p], g, got, want)
            self.ctx.states += 1
        for p, g in ((1, GEN[1]), (2, GEN[2])):
            got = flat(self.sacf.autocorrelation(selection_function=g[0], weight_function=g[1], **PARAMS[p]), self.n)
            check(same(got, ref(name, p, g, self.ctx)), "%s: then autocorrelation gives, with %r by %r, %r, should be %r", what, PARAMS[p], g, got, ref(name, p, g))
            self.ctx.states += 1
        c = sut.Correlator(self.ds)
        self.compute(c, None)
        check(same(result(c), ref(name, 0, None, self.ctx)), "%s: then a new correlator has %r, should be %r", what, result(c), ref(name, 0, None))
        self.ctx.traces += 1


# operations: what is called when memory runs out, and whether its answer is right
def op_data(w):
    ds = sut.DataStructure(*w.inputs)
    return lambda: same(state(ds), ref_state(w.name)[0])


def op_file(f):
    def op(w):
        ds = sut.DataStructure("c26-" + f)
        return lambda: same(state(ds), ref_state(f)[0])
    return op


def op_sacf_file(f):
    def op(w):
        s = sut.SACF(filename="c26-" + f)
        return lambda: same(state(s.data), ref_state(f)[0])
    return op


def op_correlator(w):
    c = sut.Correlator(w.ds)

    def right():
        w.compute(c, None)
        return same(result(c), ref(w.name, 0, None, w.ctx))
    return right


def op_compute(p, g):
    def op(w):
        w.set(w.c, p)
        w.compute(w.c, g)
        return lambda: same(result(w.c), ref(w.name, p, g, w.ctx))
    return op


def op_analyse(p, g, **more):
    def op(w):
        r = w.sacf.autocorrelation(selection_function=g[0], weight_function=g[1], **dict(PARAMS[p], **more))
        return lambda: same(flat(r, w.n), ref(w.name, p, g, w.ctx)) and (not more or same(result(r[2]), ref(w.name, p, g, w.ctx)))
    return op


def op_all(w):
    r = sut.SACF(*w.inputs).autocorrelation(**PARAMS[1])
    return lambda: same(flat(r, w.n), ref(w.name, 1, None, w.ctx))


def op_read(w):
    r = result(w.before), state(w.ds), w.before.normalised_timeseries(), w.before.values()
    return lambda: same(r[0], ref(w.name, 1, GEN[2], w.ctx)) and same(r[1], ref_state(w.name)[0]) and same(r[3], w.ds.data()) and r[2] == w.ds.normalised_timeseries()


def op_steps(g, add):
    def op(w):
        it = sut.CorrelationIterator(0.5, w.n)
        sut.select(w.c, it, g[0])
        w.c.deltaT(it)
        sut.weigh(w.c, it, g[1])
        w.c.findCorrelation(it)
        r = list(it.correlation)
        w.c.addCorrelationData(it, add)

        def right():
            want = ref(w.name, 1, g, w.ctx)
            at = want[0].index(0.5)
            return same([r], [[row[at] for row in want[1:]]]) and w.c.lag_timeseries()[add] == 0.5
        return right
    return op


def op_clean(n):
    def op(w):
        w.c.cleanCorrelationData(n)

        def right():
            k = 0 if w.used is None else min(n, len(ref(w.name, w.used, None, w.ctx)[0]))
            got, want = result(w.c), ref(w.name, w.used or 0, None, w.ctx)
            return len(got[0]) == n and all(len(r) == n for r in got) and same([r[:k] for r in got], [r[:k] for r in want])
        return right
    return op


def op_copy(how, what):
    """a copy, or a pickle, of the data set, of a correlator with results, or of the analysis object"""
    def op(w):
        o = {"data": w.ds, "correlator": w.before, "sacf": w.sacf, "iterator": w.it}[what]
        if how == "copy":
            o = copy.copy(o)
        elif how == "deepcopy":
            o = copy.deepcopy(o)
        else:
            o = pickle.loads(pickle.dumps(o, 2))

        def right():
            if what == "correlator":
                return same(result(o), ref(w.name, 1, GEN[2], w.ctx))
            if what == "iterator":
                return o.k == 0.5 and list(o.correlation) == [0.0] * w.n
            return same(state(o if what == "data" else o.data), ref_state(w.name)[0])
        return right
    return op


def op_clear(w):
    w.c.clearCorrelation()
    return lambda: same(result(w.c), [[]] * (1 + w.n))


OPS = {"data": op_data, "correlator": op_correlator, "all": op_all, "read": op_read, "clear": op_clear}
for f in FILES:  # these use none of the data sets
    OPS["file " + f] = op_file(f)
    OPS["SACF file " + f] = op_sacf_file(f)
for p in range(len(PARAMS)):
    for i, g in enumerate(GEN):
        OPS["compute %d %d" % (p, i)] = op_compute(p, g)
        if g:
            OPS["analyse %d %d" % (p, i)] = op_analyse(p, g)
for how in ("copy", "deepcopy", "pickle"):
    for what in ("data", "correlator", "sacf", "iterator"):
        OPS["%s %s" % (how, what)] = op_copy(how, what)
OPS["analyse with correlator"] = op_analyse(1, GEN[1], return_correlator=True)
for i in (1, 2, 3):
    for add in (0, 1, 9, 100):
        OPS["steps %d %d" % (i, add)] = op_steps(GEN[i], add)
for n in (0, 1, 2, 5, 100):
    OPS["clean %d" % n] = op_clean(n)


def starved(op, w, n, keep):
    """runs op with the n-th allocation (keep: and all later) failing: allocations failed, exception or None, is the answer right"""
    out = (ctypes.c_long * 2)()
    right = err = None
    LIB.allocfault_arm(n, keep)
    try:
        right = op(w)
    except Exception as e:
        err = e
    finally:
        LIB.allocfault_disarm(out)
    return out, err, right


def alloc(case, ctx):
    name, op, keep, used = case
    n = 0
    while True:
        w = World(name, ctx, used)
        (seen, failed), err, right = starved(OPS[op], w, n, keep)
        what = "%s on %r, correlator used %r, allocation %d%s failing (%s)" % (op, name, used, n, " and all later" if keep else "", type(err).__name__ if err else "no exception")
        ctx.transitions += 1
        if err is None:
            check(right(), "%s: its answer is wrong", what)
            ctx.count("answers_in_spite_of_failures" if failed else "answers")
        else:
            check(failed, "%s: %s", what, err)
            ctx.outcome((op, type(err).__name__))
            ctx.count("allocations_failed")
        w.verify(what)
        if seen <= n:
            break
        n += 1
        check(n < 200000, "%s: allocates without end", what)
        ctx.tick()


TWICE = ["compute 1 0", "compute 3 0", "compute 2 2", "compute 0 1", "clean 1", "clean 5", "clean 100", "steps 1 9", "clear"]


def twice(case, ctx):
    """one call fails, then another one, at every pair of allocations"""
    name, op1, op2, used, n = case
    m = 0
    while True:
        w = World(name, ctx, used)
        (s1, f1), e1, _ = starved(OPS[op1], w, n, 0)
        if not f1:
            break
        (s2, f2), e2, right = starved(OPS[op2], w, m, 0)
        what = "%s, allocation %d failing (%s), then %s, allocation %d failing (%s), on %r, correlator used %r" % (
            op1, n, type(e1).__name__ if e1 else None, op2, m, type(e2).__name__ if e2 else None, name, used)
        ctx.transitions += 2
        if e2 is None and op2.startswith("compute"):
            check(right(), "%s: the second answer is wrong", what)
        w.verify(what)
        if s2 <= m:
            break
        m += 1
        ctx.tick()
    ctx.outcome((op1, op2, used))


class Stop(object):
    """raises KeyboardInterrupt at the n-th line or bytecode of the package's Python code"""

    def __init__(self, n, opcodes):
        self.left, self.opcodes, self.hit = n, opcodes, False

    def local(self, frame, event, arg):
        if event == ("opcode" if self.opcodes else "line") and not self.hit:
            if self.left == 0:
                self.hit = True
                raise KeyboardInterrupt("stop")
            self.left -= 1
        return self.local

    def glob(self, frame, event, arg):
        if frame.f_code.co_filename.startswith(PKG):
            if self.opcodes:
                frame.f_trace_opcodes = True
            return self.local
        return None


def interrupt(case, ctx):
    name, op, opcodes, used = case
    n = 0
    while True:
        w = World(name, ctx, used)
        s = Stop(n, opcodes)
        right = err = None
        sys.settrace(s.glob)
        try:
            right = OPS[op](w)
        except KeyboardInterrupt as e:
            err = e
        finally:
            sys.settrace(None)
        what = "%s on %r, correlator used %r, interrupted at %s %d" % (op, name, used, "bytecode" if opcodes else "line", n)
        ctx.transitions += 1
        if err is None:
            check(right(), "%s: its answer is wrong%s", what, "" if s.hit else " without the interruption")
        else:
            ctx.count("interrupted")
        w.verify(what)
        ctx.outcome((op, n))
        if not s.hit:
            break
        n += 1
        ctx.tick()


class Boom(Exception):
    pass


class BadFloat(object):
    def __float__(self):
        raise Boom()


class BadSeq(object):
    """a sequence that fails when the i-th element is asked for"""

    def __init__(self, values, i):
        self.values, self.i = values, i

    def __len__(self):
        return len(self.values)

    def __getitem__(self, i):
        if i == self.i:
            raise Boom()
        if i >= len(self.values):
            raise IndexError(i)
        return self.values[i]


def inputs(case, ctx):
    """each of times, values, errors failing at each element"""
    name, which, row, i, kind = case
    w = World(name, ctx, 1)
    args = data(name)
    bad = args[which] if row is None else args[which][row]
    if kind == "element":
        bad[i] = BadFloat()
    elif kind == "text":
        bad[i] = "x"
    else:
        new = BadSeq(list(bad), i)
        if row is None:
            args[which] = new
        else:
            args[which][row] = new
    for make in (sut.DataStructure, sut.SACF):
        try:
            make(*args)
        except Exception as e:
            ctx.outcome((which, kind, type(e).__name__))
        else:
            check(False, "%r: argument %d failing at row %r, element %d (%s): a data set resulted", name, which, row, i, kind)
        ctx.transitions += 1
    w.verify("%r: argument %d failing at row %r, element %d (%s)" % tuple(case))


def SPACES(tier):
    big = tier == "thorough"

    def allocs():
        for name in SMALL + ("long",):
            for op in OPS:
                for keep in (0, 1):
                    useds = [None]
                    if op.startswith(("compute", "steps", "clean", "clear")):
                        useds += [1, 3] if big or name != "long" else [1]
                    if not big and op.split()[0] in ("compute", "analyse") and (name == "long" or keep and name != "one") and op.split()[1] in "03":
                        continue
                    if not big and "file" in op and name != "one":
                        continue
                    for used in useds:
                        yield [name, op, keep, used]

    def twos():
        for name in ("one",) + (("two", "three") if big else ()):
            for a in TWICE:
                for b in TWICE:
                    for used in (None, 1) if big else (1,):
                        for n in range(0, 400 if big else 60, 1 if big else 6):
                            yield [name, a, b, used, n]

    def ints():
        for name in SMALL + (("long",) if big else ()):
            for op in OPS:
                if op.startswith(("compute", "analyse", "all", "data", "SACF")) and (op.startswith("analyse") or not op.endswith(" 0")):
                    for opcodes in (0, 1):
                        for used in ([None, 3] if op.startswith("compute") else [None]):
                            if not big and (opcodes and name != "one" or name == "three"):
                                continue
                            yield [name, op, opcodes, used]

    def inp():
        for name in SMALL:
            for which in range(2 if DATA[name][2] is None else 3):
                v = DATA[name][which]
                for row in ([None] if not isinstance(v[0], list) else [None] + list(range(len(v)))):
                    for i in range(len(v if row is None else v[row])):
                        for kind in ("element", "text", "sequence"):
                            yield [name, which, row, i, kind]

    return [
        Space("alloc", allocs, alloc, "%d operations on 4 data sets and 3 files, correlators fresh or used: every allocation the extension makes fails, alone or with all later ones; then everything is computed again" % len(OPS)),
        Space("interrupt", ints, interrupt, "the operations with Python code, interrupted at every line (and, on one (all) data sets, every bytecode) of the package; then everything is computed again"),
        Space("inputs", inp, inputs, "every element of times, values and errors raising when it is read, or no number"),
        Space("twice", twos, twice, "two calls in a row, of 9, each failing: at every sixth (every) of the first 60 (400) allocations of the first and every one of the second"),
    ]
