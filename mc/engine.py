"""Worker side of the explorer (runs under PyPy, with the package under test importable).

A property module defines
    ID, SPACES(tier) -> list of Space
A Space enumerates a finite list of cases in a fixed order (simplest first) and
runs one case against the real package and the reference model.  Nothing is
sampled: worker w of W takes the cases whose index is w modulo W.
"""
import gc
import json
import mmap
import os
import struct
import sys
import time
import traceback


class Violation(Exception):
    pass


def check(cond, fmt, *args):
    if not cond:
        raise Violation(fmt % args if args else fmt)


class Ctx(object):
    """What a case reports while it runs."""

    def __init__(self, mm, tier):
        self.mm = mm
        self.tier = tier
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.skipped = 0
        self.outcomes = set()
        self.ticks = 0
        self.note = {}

    def tick(self):
        """Progress inside a long case, for the watchdog."""
        self.ticks += 1
        if self.ticks % 64 == 0:
            tidy()
        if self.mm is not None:
            struct.pack_into("<q", self.mm, 16, self.ticks)

    def outcome(self, key):
        if len(self.outcomes) < 200000:
            self.outcomes.add(hash(key) & 0xFFFFFFFFFFFF)

    def count(self, name, n=1):
        self.note[name] = self.note.get(name, 0) + n


class Space(object):
    """name: short, stable.  cases: callable returning an iterable of
    JSON-able cases.  run(case, ctx): raises Violation."""

    def __init__(self, name, cases, run, doc=""):
        self.name = name
        self.cases = cases
        self.run = run
        self.doc = doc


def jsonable(x):
    return json.dumps(x, allow_nan=True)


def run_case(space, case, ctx):
    """None, or what is wrong."""
    try:
        space.run(case, ctx)
    except Violation as e:
        return str(e)
    except (KeyboardInterrupt, SystemExit):
        raise
    except Exception as e:  # the package raised where the property says it answers
        tb = traceback.extract_tb(sys.exc_info()[2])
        return "unexpected %s: %s (at %s)" % (
            type(e).__name__, e, " <- ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:])))
    return None


def vm_mb():
    with open("/proc/self/statm") as fh:
        return int(fh.read().split()[0]) * 4 // 1024


TIDY = [1200]


def tidy():
    """objects of the extension are freed by finalizers the collector does not hurry to run: keep well below the limit"""
    if vm_mb() > TIDY[0]:
        for _ in range(3):
            gc.collect()
        TIDY[0] = max(1200, min(2400, vm_mb() + 400))


def worker(prop, tier, shard, shards, outfile, progress, deadline, only=None):
    with open(progress, "r+b") as fh:
        mm = mmap.mmap(fh.fileno(), 64)
    ctx = Ctx(mm, tier)
    res = {"spaces": {}, "violations": [], "capped": []}
    try:
        prop.setup(tier)
    except AttributeError as e:
        if hasattr(prop, "setup"):
            raise
    for si, space in enumerate(prop.SPACES(tier)):
        if only and space.name not in only:
            continue
        n = done = 0
        first = last = None
        s0 = (ctx.states, ctx.transitions, ctx.traces, ctx.skipped)
        t0 = time.time()
        capped = False
        nviol = 0
        for idx, case in enumerate(space.cases()):
            n += 1
            if idx % shards != shard:
                continue
            if time.time() > deadline:
                capped = True
                break
            # progress: space, case, ticks -- so that the driver knows what a crashed or hanging worker was running
            struct.pack_into("<qq", mm, 0, si, idx)
            ctx.tick()
            msg = run_case(space, case, ctx)
            tidy()
            done += 1
            if first is None:
                first = case
            last = case
            if msg is not None:
                res["violations"].append({"space": space.name, "si": si, "index": idx, "case": case, "message": msg})
                nviol += 1
                if nviol >= 3:
                    capped = True
                    break
        res["spaces"][space.name] = {
            "doc": space.doc, "cases": done, "capped": capped, "samples": [first, last] if shard == 0 else [],
            "states": ctx.states - s0[0], "transitions": ctx.transitions - s0[1], "traces": ctx.traces - s0[2],
            "skipped": ctx.skipped - s0[3], "cpu_s": round(time.time() - t0, 2)}
        if len(res["violations"]) >= 6:
            break
    struct.pack_into("<qq", mm, 0, -1, -1)
    res["outcomes"] = sorted(ctx.outcomes)
    res["notes"] = ctx.note
    with open(outfile + ".tmp", "w") as fh:
        json.dump(res, fh)
    os.rename(outfile + ".tmp", outfile)


def case_at(prop, tier, space_index, index):
    space = prop.SPACES(tier)[space_index]
    for i, c in enumerate(space.cases()):
        if i == index:
            return space, c
    raise IndexError(index)


def space_named(prop, tier, name):
    for s in prop.SPACES(tier):
        if s.name == name:
            return s
    raise KeyError(name)
