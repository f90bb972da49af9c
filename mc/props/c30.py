"""C30: the answer does not depend on where and under what circumstances a call is made."""
import itertools
import json
import os
import subprocess
import sys
import probe
import server30 as s30
from engine import Space, check

ID = "C30"
REF = {}
HERE = []


def alike(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b) or abs(a - b) <= 1e-12 * max(abs(a), abs(b))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b))
    return a == b


def setup(tier):
    made = probe.make_locales("loc")
    for n in list(s30.CONTEXTS):
        for l, w in (("de_DE", "german"), ("tr_TR", "turkish"), ("fa_IR", "persian")):
            if w in n and l + ".UTF-8" not in made:
                del s30.CONTEXTS[n]
    os.makedirs("data")
    for n, t in s30.FILES.items():
        with open("data/" + n, "w") as fh:
            fh.write(t)
        os.chmod("data/" + n, 0o444)
    HERE.append(os.path.abspath("data"))
    up = HERE[0]
    while up != "/" and os.stat(up).st_uid == os.getuid() and (up == HERE[0] or up.startswith(os.environ.get("MC_TMP", HERE[0]))):
        os.chmod(up, 0o755)  # for the context without privileges
        up = os.path.dirname(up)


def compare(got, big, what, ctx):
    if big not in REF:
        REF[big] = s30.in_fork(lambda: s30.answers(HERE[0], big))
        check(isinstance(REF[big], list), "in a plain child, with %d samples: %s", big, REF[big])
    ref = REF[big]
    check(isinstance(got, list), "%s: %s", what, got)
    check(len(got) == len(ref), "%s: %d answers, elsewhere %d", what, len(got), len(ref))
    for i, (g, r) in enumerate(zip(got, ref)):
        check(alike(g, r), "%s: answer %d is %.400r, elsewhere %.400r", what, i, g, r)
    ctx.states += len(ref)
    ctx.traces += 1


def contexts(case, ctx):
    names, big = case
    if any(n not in s30.CONTEXTS for n in names):
        ctx.skipped += 1
        return
    got = s30.in_fork(lambda: s30.nested(names, HERE[0], big))
    compare(got, big, "/".join(names), ctx)
    ctx.transitions += len(names)
    ctx.outcome(tuple(names))


def processes(case, ctx):
    flags, env, first, names = case
    e = dict(os.environ)
    for k, v in env.items():
        if k == "*":
            e = {k: e[k] for k in ("PYTHONPATH", "LD_PRELOAD", "LOCPATH")}
        elif v is None:
            e.pop(k, None)
        else:
            e[k] = v
    names = [n for n in names if all(x in s30.CONTEXTS for x in n)]
    if any(f in ("-I", "-E") for f in flags):
        boot = "import sys; sys.path[:0] = %r; import server30; server30.main()" % ([p for p in sys.path if p],)
        cmd = [sys.executable] + flags + ["-c", boot]
    else:
        cmd = [sys.executable] + flags + [os.path.abspath(s30.__file__)]
    r = subprocess.run(cmd + [HERE[0], first, json.dumps(names)], env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    what = "process with %r %r importing %r" % (flags, env, first)
    check(r.returncode == 0, "%s ends with %d: %s", what, r.returncode, r.stderr[-700:].decode(errors="replace"))
    for n, got in json.loads(r.stdout.decode()).items():
        compare(got, 0, what + ", " + n, ctx)
        ctx.transitions += 1
    ctx.outcome((tuple(flags), tuple(sorted(env)), first))


PLACES = {"a": ([0.0, 1.0, 2.0], [1.0, 3.0, 0.5]), "b": ([0.0, 0.5, 4.0, 5.0], [2.0, 7.0, -1.0, 0.25]), "a/in": ([1.0, 2.0], [5.0, 6.0])}


def relative(case, ctx):
    """file names are taken from the folder one is in, whatever folders have been read from before"""
    top = os.getcwd()

    def play():
        import sut
        for seq in itertools.product(*case):
            for i, (place, name, way) in enumerate(seq):
                os.chdir(os.path.join(top, "places", place))
                real = os.path.normpath(os.path.join(place, os.path.dirname(name)))
                want = PLACES.get(real)
                try:
                    d = sut.DataStructure(name) if way == "ds" else sut.SACF(filename=name).data
                    got = (d.timeseries(), d.data()[0])
                except Exception as e:
                    got = type(e).__name__
                if got != (want or "BadDataFileReadException"):
                    return "%r, call %d: %s read in %s gives %r, there is %r" % (seq, i, name, place, got, want)
        return []
    for p, (t, x) in PLACES.items():
        os.makedirs("places/" + p, exist_ok=True)
    for p, (t, x) in PLACES.items():
        with open("places/%s/f" % p, "w") as fh:
            fh.write("".join("%r %r\n" % r for r in zip(t, x)))
    msg = s30.in_fork(play)
    check(msg == [], "%s", msg)
    n = 1
    for c in case:
        n *= len(c)
    ctx.states += n * len(case)
    ctx.transitions += n * len(case)
    ctx.traces += n
    ctx.outcome(repr(case))


ASKED = (None, "", "0", "1", "x", "-1", "999999999999999999999")


class Recording(object):
    """stands for os.environ and notes what is asked for"""

    def __init__(self, real, names):
        self.__dict__.update(real=real, names=names)

    def __getattr__(self, n):
        return getattr(self.real, n)

    def _note(self, k):
        self.names.append(k)

    def __getitem__(self, k):
        self._note(k)
        return self.real[k]

    def get(self, k, d=None):
        self._note(k)
        return self.real.get(k, d)

    def __contains__(self, k):
        self._note(k)
        return k in self.real

    def __setitem__(self, k, v):
        self.real[k] = v

    def __delitem__(self, k):
        del self.real[k]

    def __iter__(self):
        return iter(self.real)

    def __len__(self):
        return len(self.real)


def asked(case, ctx):
    """names of environment variables the package asks for, here and on import: each is given odd values"""
    code = ("import sys, os, json; sys.path[:0] = %r; import probe, server30, sut as _s; [sys.modules.pop(m) for m in list(sys.modules) if m == 'sacf' or m.startswith('sacf.') or m == 'sut']; "
            "from props import c30; names = []; old = os.environ; os.environ = c30.Recording(os.environ, names); os.getenv = lambda k, d=None: os.environ.get(k, d); "
            "probe.LIB.probe_arm(1); r = server30.answers(%r); probe.LIB.probe_arm(0); os.environ = old; sys.stdout.write(json.dumps(names + probe.ctext(probe.LIB.probe_asked).split()))"
            % ([p for p in sys.path if p], HERE[0]))
    r = subprocess.run([sys.executable, "-c", code], stdout=subprocess.PIPE, stderr=subprocess.PIPE, stdin=subprocess.DEVNULL)
    check(r.returncode == 0, "importing again ends with %d: %s", r.returncode, r.stderr[-600:].decode(errors="replace"))
    names = sorted(set(json.loads(r.stdout.decode())) - {"LD_PRELOAD", "PYTHONPATH", "LOCPATH"})
    ctx.count("environment variables asked for: " + " ".join(names) if names else "no environment variable is asked for")
    for n in names[:20]:
        for v in ASKED:
            processes([[], {n: v}, "", [["here"]]], ctx)
    ctx.states += 1
    ctx.transitions += 1


FLAGS = ([], ["-O"], ["-OO"], ["-B"], ["-S"], ["-E"], ["-I"], ["-W", "error"], ["-bb"], ["-X", "utf8"], ["-u"], ["-v"], ["-X", "dev"], ["--jit", "off"], ["--jit", "threshold=1,function_threshold=1"])
ENVS = ({"*": None}, {"LC_ALL": "de_DE.UTF-8"}, {"LC_ALL": "tr_TR.UTF-8"}, {"LC_ALL": "fa_IR.UTF-8"}, {"LC_NUMERIC": "de_DE.UTF-8"}, {"LC_ALL": "C"}, {"LANG": None}, {"LANG": "nonsense"}, {"HOME": None}, {"PATH": None}, {"PATH": "/nonexistent", "HOME": "/nonexistent", "TMPDIR": "/nonexistent"},
        {"TZ": "Asia/Kathmandu"}, {"PYTHONHASHSEED": "0"}, {"PYTHONHASHSEED": "1"}, {"PYTHONHASHSEED": "random"}, {"PYTHONOPTIMIZE": "2"}, {"MALLOC_PERTURB_": "90"}, {"MALLOC_PERTURB_": "0"}, {"MALLOC_ARENA_MAX": "1", "MALLOC_MMAP_THRESHOLD_": "1"}, {"MALLOC_TOP_PAD_": "0", "MALLOC_TRIM_THRESHOLD_": "0"},
        {"OMP_NUM_THREADS": "7"}, {"DEBUG": "1", "VERBOSE": "1", "SACF_DEBUG": "1", "SACF_LOG": "1"}, {"PYPY_GC_NURSERY": "64k"}, {"PYTHONIOENCODING": "ascii:strict"}, {"PYTHONUTF8": "0", "LC_ALL": "C"})
FIRST = ("", "sacf", "thread", "sacf.datastructure", "sacf.correlator", "sacf.sacf", "sacf.correlator,sacf.datastructure,sacf", "sacf.datastructure,sacf.correlator,sacf.sacf")


def SPACES(tier):
    big = tier == "thorough"
    names = list(s30.CONTEXTS)
    apart = [[n] for n in names if n not in ("here",)]

    def singles():
        for n in names:
            yield [[n], 0]

    def pairs():
        for a, b in itertools.product(names, repeat=2):
            if a != "crowd":  # what changes the process changes it for all threads
                yield [[a, b], 0]

    def rel():
        steps = [[p, n, w] for p in ("a", "b", "a/in") for n in ("f", "./f", "../f", "in/f", "../b/f") for w in ("ds", "sacf")]
        for a in steps:
            yield [[a], steps]
            for b in steps if big else steps[::2]:
                yield [[a], [b], steps]

    def large():
        for n in names:
            if n != "traced" or big:
                yield [[n], 250000]
        yield [["here"], 2500000]

    def triples():
        few = ["thread", "fork", "signal", "finalizer", "input", "no gc", "no stdio", "nowhere", "C german", "C++ german"]
        for t in itertools.product(few, few, few + ["crowd"]):
            yield [list(t), 0]

    def procs():
        small = [["here"], ["thread"], ["fork"], ["C++ german"]] if not big else [["here"]] + apart
        for f in FLAGS:
            for e in ({},) + ENVS if big else ({},):
                for m in FIRST if big and not e else ("", "sacf.correlator"):
                    yield [f, e, m, small]
        for e in ENVS:
            for m in FIRST:
                yield [[], e, m, small if m == "" or big else [["here"]]]
        for m in FIRST:
            yield [[], {}, m, [["here"]] + apart]

    return [
        Space("singles", singles, contexts, "the same questions from %d contexts (threads, forks, signal handlers, finalizers, while inputs are read, exit, other locales and folders, closed or scarce files)" % len(names)),
        Space("relative", rel, relative, "file names relative to the folder one is in: all sequences of up to 3 changes of folder and reads"),
        Space("asked", lambda: [[]], asked, "odd values for all environment variables the package asks for"),
        Space("processes", procs, processes, "processes with other flags, environments and import orders"),
        Space("large", large, contexts, "the same with 250000 samples (and 2500000): no context has too little stack"),
        Space("pairs", pairs, contexts, "all pairs of contexts, one in the other"),
    ] + ([Space("triples", triples, contexts, "triples of 11 contexts")] if big else [])
