"""Child of C20, on the "racing" build with shim/sched.c preloaded: threads inside extension code that has released the
interpreter lock are switched at loads and stores.  One JSON line each way: {progs, bound, order, part, parts}."""
import ctypes
import json
import os
import sys
import threading

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "props"))
import c20  # noqa: E402
from engine import Violation  # noqa: E402

L = ctypes.CDLL(os.environ["MC_SCHED"])
L.sched_turn.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_double]
L.sched_events.restype = ctypes.c_long
L.sched_saves.restype = ctypes.c_long


class Run(object):
    def __init__(self, progs):
        self.bodies = c20.bodies_for(progs)
        self.n = len(progs)
        self.result = [None] * self.n
        self.free = False
        self.turns = 0

    def body(self, i):
        L.sched_begin(i)
        try:
            self.result[i] = self.bodies[i]()
        except Exception as e:
            self.result[i] = type(e).__name__
        finally:
            L.sched_end()

    def turn(self, i, left):
        if not self.free and not L.sched_done(i):
            self.turns += 1
            if L.sched_turn(i, left, 1.0) < 0:
                self.free = True

    def run(self, plan):
        L.sched_start(self.n)
        ts = [threading.Thread(target=self.body, args=(i,)) for i in range(self.n)]
        for t in ts:
            t.daemon = True
            t.start()
        for i, left in plan:
            self.turn(i, left)
        rounds = 0
        while not self.free and not L.sched_over(self.n):
            for i in range(self.n):
                self.turn(i, -1)
            rounds += 1
            if rounds > 10000:
                raise Violation("threads wait for each other for ever")
        for t in ts:
            t.join(20)
            if t.is_alive():
                raise Violation("a thread did not end")
        L.sched_stop()
        return [L.sched_events(i) for i in range(self.n)]


def answer(q):
    progs, order = q["progs"], q["order"]
    for p in progs:
        c20.alone(p)
    before = L.sched_saves()
    first = Run(progs)
    ev = first.run([])
    c20.same_as_alone(progs, first.result, "one after the other")
    out = {"events": ev, "released": L.sched_saves() - before, "schedules": 1, "turns": first.turns, "free": int(first.free)}
    if not out["released"]:
        return out  # no thread ever runs inside the extension while another does

    def go(plan):
        r = Run(progs)
        r.run(plan)
        out["schedules"] += 1
        out["turns"] += r.turns
        out["free"] += r.free
        c20.same_as_alone(progs, r.result, "switching inside the extension, %r" % (plan,))

    a, b = order[0], order[1]
    for x in range(q["part"], ev[a] + 1, q["parts"]):
        go([(a, x)] + [(j, -1) for j in order[1:]])
        if q["bound"] > 1:
            for y in range(0, ev[b] + 1):
                go([(a, x), (b, y)] + [(j, -1) for j in order[2:]] + [(a, -1), (b, -1)])
    return out


def main():
    for line in sys.stdin:
        try:
            out = answer(json.loads(line))
        except Violation as e:
            out = {"violation": str(e)}
        sys.stdout.write(json.dumps(out) + "\n")
        sys.stdout.flush()


main()
