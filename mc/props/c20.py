"""C20: concurrent analyses give the sequential results."""
import itertools
import json
import os
import subprocess
import sys
import tempfile
import threading
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C20"
NAN = float("nan")
DATA = {
    "A": ([0.0, 1.0, 2.5, 3.0], [1.0, 3.0, -2.0, 0.5]),
    "B": ([0.0, 1.0, 2.5, 3.0], [[4.0, NAN, 1.0, 9.0], [1.0, 3.0, -2.0, 0.5]]),
    "D": ([0.0, 1.0], [1.0, 3.0]),
    "E": ([0.0, 2.0], [5.0, -3.0]),
    "C": ([5.0, 5.5, 7.0], [2.0, -1.0, 4.0]),
}
PKG = os.path.dirname(os.path.abspath(sut.sacf.__file__))


# ---- threads under a scheduler: a thread gives up control at chosen trace events inside the package's Python code ----

class Sched(object):
    """Runs thread bodies one at a time.  plan: [(thread, events it may run before giving up control or None)];
    when the plan is over the remaining threads run to their ends in order."""

    def __init__(self, bodies, plan, opcodes):
        self.bodies = bodies
        self.plan = plan
        self.opcodes = opcodes
        self.n = len(bodies)
        self.go = [threading.Semaphore(0) for _ in bodies]
        self.back = threading.Semaphore(0)
        self.left = [None] * self.n
        self.events = [0] * self.n
        self.done = [False] * self.n
        self.result = [None] * self.n
        self.free = False

    def trace_for(self, i):
        def local(frame, event, arg):
            if event == ("opcode" if self.opcodes else "line") and not self.free:
                self.events[i] += 1
                if self.left[i] is not None:
                    if self.left[i] == 0:
                        self.left[i] = None
                        self.back.release()
                        self.go[i].acquire()
                    if self.left[i] is not None:
                        self.left[i] -= 1
            return local

        def glob(frame, event, arg):
            if frame.f_code.co_filename.startswith(PKG):
                if self.opcodes:
                    frame.f_trace_opcodes = True
                return local
            return None
        return glob

    def body(self, i):
        self.go[i].acquire()
        sys.settrace(self.trace_for(i))
        try:
            try:
                self.result[i] = self.bodies[i]()
            except Exception as e:
                self.result[i] = type(e).__name__
        finally:
            sys.settrace(None)
            self.done[i] = True
            self.back.release()

    def turn(self, i, left):
        if self.done[i]:
            return 0
        self.left[i] = left
        self.go[i].release()
        if not self.back.acquire(timeout=20):
            # it waits for something another thread holds: let everybody run
            self.free = True
            for g in self.go:
                for _ in range(3):
                    g.release()
        return 1

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,)) for i in range(self.n)]
        for t in ts:
            t.daemon = True
            t.start()
        turns = 0
        for i, left in self.plan + [(i, None) for i in range(self.n)]:
            if self.free:
                break
            turns += self.turn(i, left)
        for t in ts:
            t.join(20)
            check(not t.is_alive(), "a thread did not end")
        return self.result, turns


FILES = {"F1": "# one\n0,1.5,0.1\n1,2.5,0.1\n1.5,-1,0.2\n", "F2": "0 7\n2 nan\n2.5 1e1\n3.5 -2\n"}


def file_path(name):
    p = os.path.join(os.environ.get("MC_TMP") or tempfile.gettempdir(), "c20-%d-%s.txt" % (os.getpid(), name))
    if not os.path.exists(p):
        with open(p, "w") as fh:
            fh.write(FILES[name])
    return p


def bodies_for(progs):
    """thread bodies; shared objects are made anew"""
    shared = {k: sut.SACF(*v) for k, v in DATA.items()}

    def std(k, **kw):
        def f():
            r = shared[k].autocorrelation(**kw)
            return r[0], rows(r[1])
        return f

    def own(k, **kw):
        def f():
            s = sut.SACF(*DATA[k])
            r = s.autocorrelation(return_correlator=True, **kw)
            return r[2].lag_timeseries(), r[2].correlations()
        return f

    def from_file(name, how):
        def f():
            s = sut.SACF(filename=file_path(name))
            r = s.autocorrelation(max_lag=1.0, min_lag=0.5, **({} if how == "native" else {"selection_function": "fast"}))
            return r[0], rows(r[1])
        return f

    menu = {
        "Adef": std("A", max_lag=1.0, min_lag=0.0),
        "Agen": std("A", selection_function="fast", max_lag=0.5, min_lag=0.0),
        "Agen2": std("A", weight_function="gaussian", max_lag=1.0, min_lag=-0.5, alpha=0.25),
        "Aone": std("A", weight_function="gaussian", max_lag=0.0, min_lag=0.0),
        "Bone": std("B", selection_function="fast", weight_function="fractional_squared", max_lag=1.0, min_lag=1.0, alpha=0.5),
        "Bgen": std("B", selection_function="fast", weight_function="fractional_squared", min_lag=0.25, max_lag=1.0),
        "Cgen": std("C", weight_function="fractional_squared", min_lag=-0.5, max_lag=0.5),
        "Cown": own("C", selection_function="fast", weight_function="gaussian", max_lag=0.5, min_lag=0.0),
        "Aown": own("A", max_lag=1.0),
        "Anat": std("A", min_lag=1.0, max_lag=1.0),
        "Dnat": std("D", min_lag=1.0, max_lag=1.0),
        "Enat": std("E", min_lag=-1.0, max_lag=-1.0),
        "Bnat": std("B", min_lag=0.5, max_lag=0.5, alpha=0.25),
        "Fdef": from_file("F1", "native"),
        "Fgen": from_file("F2", "generic"),
        "Abad": std("A", selection_function="fast", lag_resolution=0.0),
        "Abadname": std("A", weight_function="no such"),
    }
    return [menu[p] for p in progs]


def rows(c):
    return c if c and isinstance(c[0], list) else [c]


ALONE = {}


def alone(prog):
    if prog not in ALONE:
        try:
            ALONE[prog] = bodies_for([prog])[0]()
        except Exception as e:
            ALONE[prog] = type(e).__name__
    return ALONE[prog]


def judge(progs, plan, opcodes, ctx):
    s = Sched(bodies_for(progs), plan, opcodes)
    res, turns = s.run()
    ctx.traces += 1
    ctx.transitions += turns
    ctx.states += len(progs)
    ctx.count("schedules")
    if s.free:
        ctx.count("schedules_left_to_run_freely")
    same_as_alone(progs, res, "schedule %r" % (plan,))
    ctx.outcome((tuple(progs), tuple(plan)))
    return s.events


def same_as_alone(progs, res, how):
    for i, p in enumerate(progs):
        want = alone(p)
        got = res[i]
        if isinstance(want, str) or isinstance(got, str) or got is None:
            check(got == want, "threads %r, %s: thread %d gives %r, alone %r", progs, how, i, got, want)
        else:
            check(same_list(got[0], want[0]) and same_rows(got[1], want[1], 1e-12),
                  "threads %r, %s: thread %d gives %r, alone %r", progs, how, i, got, want)


def lengths(progs, opcodes):
    """events of each thread when they run one after the other"""
    s = Sched(bodies_for(progs), [], opcodes)
    s.run()
    return s.events


def bound1(case, ctx):
    """every single preemption: thread i up to every event, then all others, then the rest"""
    progs, opcodes, first = case
    for p in progs:
        alone(p)
    n = len(progs)
    ev = lengths(progs, opcodes)
    others = [j for j in range(n) if j != first]
    for order in itertools.permutations(others):
        for at in range(0, ev[first] + 1):
            judge(progs, [(first, at)] + [(j, None) for j in order], opcodes, ctx)
            ctx.tick()


def bound2(case, ctx):
    """two preemptions: first up to a, second up to b, then either way on"""
    progs, opcodes, first, second, part, parts = case
    for p in progs:
        alone(p)
    ev = lengths(progs, opcodes)
    rest = [j for j in range(len(progs)) if j not in (first, second)]
    for a in range(part, ev[first] + 1, parts):
        for b in range(0, ev[second] + 1):
            judge(progs, [(first, a), (second, b), (first, None)] + [(j, None) for j in rest] + [(second, None)], opcodes, ctx)
            if rest:
                judge(progs, [(first, a), (second, b)] + [(j, None) for j in rest] + [(first, None), (second, None)], opcodes, ctx)
        ctx.tick()


def bound3(case, ctx):
    """three preemptions of two threads: a, b, then c more events of the first"""
    progs, opcodes, first, second, a = case
    for p in progs:
        alone(p)
    ev = lengths(progs, opcodes)
    if a > ev[first]:
        return
    for b in range(0, ev[second] + 1):
        for c in range(1, ev[first] - a + 1):
            judge(progs, [(first, a), (second, b), (first, c), (second, None), (first, None)], opcodes, ctx)
        ctx.tick()


# ---- threads inside the extension, should it release the interpreter lock: server20.py ----

CHILD = []


def child():
    if not CHILD:
        builds = json.loads(os.environ["MC_BUILDS"])
        env = dict(os.environ, PYTHONPATH=builds["racing"], LD_PRELOAD=builds["sched"], MC_SCHED=builds["sched"])
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        CHILD.append(subprocess.Popen([sys.executable, os.path.join(here, "server20.py")], env=env, stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                      universal_newlines=True))
    return CHILD[0]


def inside(case, ctx):
    if "racing" not in json.loads(os.environ["MC_BUILDS"]):
        ctx.skipped += 1
        return
    progs, bound, order, part, parts = case
    p = child()
    p.stdin.write(json.dumps({"progs": progs, "bound": bound, "order": order, "part": part, "parts": parts}) + "\n")
    p.stdin.flush()
    a = p.stdout.readline()
    if not a:
        CHILD.pop()
        check(False, "threads %r: the process ended with %r", progs, p.wait())
    a = json.loads(a)
    check("violation" not in a, "%s", a.get("violation"))
    ctx.count("extension calls that released the interpreter lock", a["released"])
    ctx.count("schedules inside the extension", a["schedules"] if a["released"] else 0)
    ctx.count("schedules inside the extension left to run freely", a["free"])
    ctx.traces += a["schedules"]
    ctx.states += a["schedules"] * len(progs)
    ctx.transitions += a["turns"]
    ctx.outcome((tuple(progs), tuple(a["events"])))


# ---- step functions of several iterators and correlators: all interleavings ----

def actor(corr, lags, sel, wf, base):
    """the atomic steps of one analysis, in order; returns the list of callables and a result reader"""
    its = []
    ops = []
    for n, k in enumerate(lags):
        ops.append(lambda k=k: its.append(sut.CorrelationIterator(k, corr.N_datasets)))
        ops.append(lambda n=n: sut.select(corr, its[n], sel))
        ops.append(lambda n=n: corr.deltaT(its[n]))
        ops.append(lambda n=n: sut.weigh(corr, its[n], wf))
        ops.append(lambda n=n: corr.findCorrelation(its[n]))
        if base is not None:
            ops.append(lambda n=n: corr.addCorrelationData(its[n], base + n))
    return ops, (lambda: [list(it.correlation) for it in its])


SETUPS = {
    # name: list of (data set, correlator number, lags, selection, weight, where results are stored)
    "two data": [("A", 0, [0.5], "natural", "fractional", 0), ("C", 1, [0.25], "fast", "gaussian", 0)],
    "one data": [("B", 0, [0.5], "natural", "gaussian", 0), ("B", 1, [-1.0], "fast", "fractional_squared", 0)],
    "one correlator": [("B", 0, [0.5], "natural", "gaussian", None), ("B", 0, [-1.0], "fast", "fractional_squared", None)],
    "one store": [("B", 0, [0.5], "natural", "gaussian", 0), ("B", 0, [1.0], "fast", "fractional", 1)],
    "same lag": [("A", 0, [1.0], "natural", "fractional", 0), ("A", 1, [1.0], "natural", "fractional", 0)],
    "three": [("B", 0, [0.5], "natural", "gaussian", None), ("B", 1, [-1.0], "fast", "fractional_squared", None), ("A", 2, [1.0], "natural", "fractional", None)],
    "three iterators": [("B", 0, [0.5], "natural", "fractional", None), ("B", 0, [-1.0], "fast", "gaussian", None), ("B", 0, [1.0], "natural", "fractional_squared", None)],
    "two lags": [("B", 0, [0.5, 1.0], "natural", "gaussian", None), ("A", 1, [0.0, -1.0], "fast", "fractional", None)],
    "two lags, one correlator": [("B", 0, [0.5, 1.0], "natural", "fractional", None), ("B", 0, [0.0, -1.0], "fast", "gaussian", None)],
}


def build(setup):
    ds = {}
    cs = {}
    acts = []
    for data, c, lags, sel, wf, base in setup:
        if data not in ds:
            ds[data] = sut.DataStructure(*DATA[data])
        if c not in cs:
            cs[c] = sut.Correlator(ds[data])
        acts.append(actor(cs[c], lags, sel, wf, base))
    return acts, cs


def sequential(name, memo={}):
    if name not in memo:
        out = []
        for a in SETUPS[name]:
            acts, cs = build([a])
            for op in acts[0][0]:
                op()
            out.append(acts[0][1]())
        memo[name] = out
    return memo[name]


def orders(counts):
    """all interleavings of actors with that many steps"""
    if not any(counts):
        yield ()
        return
    for i, c in enumerate(counts):
        if c:
            rest = list(counts)
            rest[i] -= 1
            for r in orders(rest):
                yield (i,) + r


def interleave(case, ctx):
    name, prefix = case
    setup = SETUPS[name]
    want = sequential(name)
    acts, _ = build(setup)
    counts = [len(a[0]) for a in acts]
    for i in prefix:
        counts[i] -= 1
    if min(counts) < 0:
        return
    for rest in orders(counts):
        order = list(prefix) + list(rest)
        acts, cs = build(setup)
        pos = [0] * len(acts)
        for i in order:
            acts[i][0][pos[i]]()
            pos[i] += 1
        ctx.transitions += len(order)
        ctx.traces += 1
        for i, (ops, result) in enumerate(acts):
            got = result()
            ctx.states += 1
            check(len(got) == len(want[i]) and all(same_list(a, b) for a, b in zip(got, want[i])),
                  "%s in order %r: analysis %d gives %r, alone %r", name, order, i, got, want[i])
        for i, (data, c, lags, sel, wf, base) in enumerate(setup):
            if base is not None:
                lt, cr = cs[c].lag_timeseries(), cs[c].correlations()
                for n, k in enumerate(lags):
                    check(lt[base + n] == k and same_list([r[base + n] for r in cr], want[i][n]),
                          "%s in order %r: stored %r %r, alone lag %r %r", name, order, lt, cr, k, want[i][n])
        ctx.tick()
    ctx.outcome((name, tuple(prefix)))


def SPACES(tier):
    big = tier == "thorough"
    pairs = [("Adef", "Agen"), ("Agen", "Agen"), ("Agen", "Bgen"), ("Agen2", "Cgen"), ("Cown", "Agen"), ("Cown", "Cown"), ("Aown", "Agen2"),
             ("Agen", "Abad"), ("Abadname", "Bgen"), ("Adef", "Aown")]
    triples = [("Agen", "Bgen", "Cgen"), ("Adef", "Agen", "Agen2"), ("Cown", "Bgen", "Abad")]
    files = [("Fdef", "Fgen"), ("Fdef", "Aone"), ("Fdef", "Fdef")]
    natives = [("Dnat", "Enat"), ("Dnat", "Dnat"), ("Anat", "Bnat"), ("Anat", "Anat")]
    tiny = [("Aone", "Bone"), ("Aone", "Aone"), ("Agen", "Aone"), ("Cown", "Bone"), ("Adef", "Bone")]

    def one():
        for ps in pairs + triples + tiny + files:
            for op in (False, True):
                for f in range(len(ps)):
                    yield [list(ps), op, f]

    def two():
        for ps in tiny + (pairs if big else []):
            for a, b in itertools.permutations(range(2)):
                for part in range(8):
                    yield [list(ps), False, a, b, part, 8]
        for ps in triples if big else []:
            for a, b in itertools.permutations(range(3), 2):
                for part in range(8):
                    yield [list(ps), False, a, b, part, 8]
        if big:
            for ps in tiny[:2]:
                for part in range(32):
                    yield [list(ps), True, 0, 1, part, 32]

    def three():
        for ps in tiny if big else tiny[:1]:
            for a in range(0, 80):
                yield [list(ps), False, 0, 1, a]

    def ext():
        for ps in natives + tiny + pairs + triples + files:
            for order in itertools.permutations(range(len(ps))):
                for part in range(4):
                    yield [list(ps), 1, list(order), part, 4]
        for ps in natives[:2] + (tiny + natives + files if big else []):
            for order in itertools.permutations(range(2)):
                for part in range(32):
                    yield [list(ps), 2, list(order), part, 32]

    def steps():
        for name, s in SETUPS.items():
            if not big and name in ("two lags", "two lags, one correlator", "three iterators"):
                continue
            w = 3 if len(s) == 2 else 4
            for prefix in itertools.product(range(len(s)), repeat=w):
                yield [name, list(prefix)]

    return [
        Space("threads inside the extension", ext, inside, "two and three threads on a build whose loads and stores are switching points wherever the interpreter lock is released: 1 (2) switches; where it never is, as on this tree, one run shows that extension calls are atomic, which is what the thread spaces below rely on"),
        Space("steps", steps, interleave, "all interleavings of the step functions of two or three analyses: different and same data, different and same correlator, storing into one correlator (thorough: two lags each)"),
        Space("threads, 1 preemption", one, bound1, "two and three threads in autocorrelation and SACF(): a preemption at every bytecode and every line of the package's Python code, all orders of the others"),
        Space("threads, 2 preemptions", two, bound2, "two (three) threads, all pairs of preemption points (lines; thorough: bytecodes for the smallest programs)"),
        Space("threads, 3 preemptions", three, bound3, "two threads with one lag each, all triples of preemption points (lines)") ,
    ]
