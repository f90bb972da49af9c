"""C15: a file that cannot be read completely is an error, never a partial data set."""
import ctypes
import errno
import itertools
import json
import os
import resource
import sut
from common import same_list, same_rows
from engine import Space, check

ID = "C15"
LIB = None
FILE = "target.iofault"
FAIL = [errno.EIO, errno.EISDIR, errno.ESTALE, errno.EAGAIN, errno.ENOMEM, errno.EBADF]
OPENFAIL = [errno.ENOENT, errno.EACCES, errno.EMFILE, errno.ENFILE, errno.ENOMEM, errno.EIO, errno.ELOOP, errno.ENAMETOOLONG, errno.ENOTDIR]
EINTR = errno.EINTR


def setup(tier):
    global LIB
    LIB = ctypes.CDLL(json.loads(os.environ["MC_BUILDS"])["shim"])
    resource.setrlimit(resource.RLIMIT_NOFILE, (64, 64))  # a leaked descriptor per failure shows soon


def arm(script, open_errno=0):
    a = (ctypes.c_int * max(1, len(script)))(*script)
    LIB.iofault_arm(FILE.encode(), open_errno, a, len(script))


def counts():
    out = (ctypes.c_long * 6)()
    LIB.iofault_counts(out)
    return list(out)


def disarm():
    LIB.iofault_disarm()


def write(text, name=FILE):
    with open(name, "wb") as fh:
        fh.write(text.encode())


def state(ds):
    return (ds.timeseries(), ds.data(), ds.errors())


def same_state(a, b):
    return same_list(a[0], b[0], 0.0) and same_rows(a[1], b[1], 0.0) and same_rows(a[2], b[2], 0.0)


def attempt(script, open_errno=0, sacf=False):
    """what loading gives under the script, and whether a failure was delivered to it"""
    arm(script, open_errno)
    try:
        try:
            got = state(sut.SACF(filename=FILE).data if sacf else sut.DataStructure(FILE))
        except Exception as e:
            got = type(e).__name__
    finally:
        c = counts()
        disarm()
    return got, c


def judge(what, want, script, open_errno, ctx, sacf=False):
    got, c = attempt(script, open_errno, sacf)
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += c[0] + c[2]
    ctx.count("reads", c[2])
    ctx.count("reads_failed", c[3])
    ctx.count("reads_interrupted", c[5])
    ctx.count("opens_failed", c[1])
    if c[1] or c[3]:
        check(got == "BadDataFileReadException", "%s, open error %r, reads %r (%d bytes delivered): %r instead of BadDataFileReadException",
              what, open_errno, script, c[4], got)
    else:
        check(not isinstance(got, str) and same_state(got, want), "%s, reads %r: %r instead of %r", what, script, got, want)
    ctx.outcome((c[4], c[1], c[3], isinstance(got, str)))


TEXTS = {
    "tiny": "0,1\n1,5\n2,2",
    "errors": "0 1 .5\n1 5 nan\n",
    "title": "# t\nt,x\n0,1\n3,4",
    "dos": "0,1\r\n1,5\r\n",
}


def expectation(text):
    write(text)
    disarm()
    return state(sut.DataStructure(FILE))


def splits(case, ctx):
    """all ways to cut a small file into reads, each with the first failing, interrupted or no read at every position"""
    name, first, upto = case
    text = TEXTS[name]
    n = len(text)
    want = expectation(text)
    for cuts in compositions(n - first, upto):
        comp = [first] + cuts
        judge(name, want, comp, 0, ctx)
        for at in range(len(comp) + 1):
            judge(name, want, comp[:at] + [-FAIL[(at + len(comp)) % len(FAIL)]], 0, ctx, sacf=bool(at & 1))
            judge(name, want, comp[:at] + [-EINTR] + comp[at:], 0, ctx)
            judge(name, want, comp[:at] + [-EINTR, -EINTR, -FAIL[0]], 0, ctx)
        ctx.tick()
    judge(name, want, [], 0, ctx)


def compositions(n, upto):
    """all sequences of parts in 1..upto adding to n"""
    if n <= 0:
        yield []
        return
    for f in range(1, min(n, upto) + 1):
        for r in compositions(n - f, upto):
            yield [f] + r


def events(case, ctx):
    """all sequences of read answers up to a depth on one file"""
    name, depth, start = case
    want = expectation(TEXTS[name])
    alphabet = [0, 1, 2, 3, 5, -EINTR] + [-e for e in FAIL]
    for rest in itertools.product(alphabet, repeat=depth - 1):
        judge(name, want, [start] + list(rest), 0, ctx)
    ctx.tick()


def big_text(n, three):
    return "".join(("%d,%r,%r\n" % (i, (i * 7 % 13) / 4.0, i / 8.0)) if three else ("%d %r\r\n" % (i, (i * 7 % 13) / 4.0)) for i in range(n))


def large(case, ctx):
    """files of several buffers: every read in turn fails, is short or is interrupted"""
    n, three, cap = case
    text = big_text(n, three)
    want = expectation(text)
    got, c = attempt([cap] * 60000)
    check(not isinstance(got, str) and same_state(got, want), "%d lines in reads of %d: %r", n, cap, got)
    reads = c[2]
    step = max(1, reads // 40)
    for at in sorted(set(range(0, reads, step)) | {reads - 2, reads - 1, reads}):
        if at < 0:
            continue
        for e in FAIL[:2] if at % 3 else FAIL:
            judge("%d lines" % n, want, [cap] * at + [-e], 0, ctx)
        judge("%d lines" % n, want, [cap] * at + [-EINTR] * 3 + [cap] * 60000, 0, ctx)
        judge("%d lines" % n, want, [cap] * at + [1, 1, 7, 0], 0, ctx)
        ctx.tick()


def opens(case, ctx):
    e, sacf = case
    want = expectation(TEXTS["tiny"])
    for _ in range(3):
        judge("open", want, [], e, ctx, sacf)
        judge("open", want, [], 0, ctx, sacf)


def real(case, ctx):
    """failures that need no injection"""
    kind, = case
    if os.path.islink("l"):
        os.unlink("l")
    path = {"missing": "no-such-file", "directory": "dir", "directory/": "dir/", "dangling": "l", "loop": "l", "under_file": "plain/x",
            "long": "x" * 5000, "longpart": "y" * 300, "empty": "", "slash": "/", "dot": ".", "mem": "/proc/self/mem", "proc": "/proc/self",
            "removed": "gone"}[kind]
    if not os.path.isdir("dir"):
        os.mkdir("dir")
    write("0,1\n1,2\n", "plain")
    if kind == "dangling":
        os.symlink("nowhere", "l")
    if kind == "loop":
        os.symlink("l", "l")
    if kind == "removed":
        write("0,1\n1,2\n", "gone")
        sut.DataStructure("gone")
        os.unlink("gone")
    for ctor in (sut.DataStructure, lambda p: sut.SACF(filename=p)):
        if not path and ctor is not sut.DataStructure:
            continue
        try:
            got = state(ctor(path))
        except Exception as e:
            got = type(e).__name__
        ctx.states += 1
        ctx.traces += 1
        ctx.transitions += 1
        check(got == "BadDataFileReadException", "%s: %r instead of BadDataFileReadException", kind, got)
        check(len(sut.DataStructure("plain").timeseries()) == 2, "%s: a later load is wrong", kind)
    ctx.outcome(kind)


def fifo(case, ctx):
    """a pipe that delivers the file in two pieces, from another process"""
    name, cut = case
    text = TEXTS[name]
    want = expectation(text)
    if not os.path.exists("pipe"):
        os.mkfifo("pipe")
    pid = os.fork()
    if pid == 0:
        try:
            fd = os.open("pipe", os.O_WRONLY)
            os.write(fd, text[:cut].encode())
            import time
            time.sleep(0.002)
            os.write(fd, text[cut:].encode())
        finally:
            os._exit(0)
    got = state(sut.DataStructure("pipe"))
    os.waitpid(pid, 0)
    ctx.states += 1
    ctx.traces += 1
    ctx.transitions += 2
    check(same_state(got, want), "%r in a pipe cut at %d: %r instead of %r", text, cut, got, want)
    ctx.outcome((name, cut))


EVENTS = {"ok": ([], 0), "short": ([1] * 40, 0), "intr": ([2, -EINTR, 3], 0), "eio0": ([-errno.EIO], 0), "eio1": ([5, -errno.EIO], 0),
          "eiolast": ([0, -errno.EIO], 0), "noent": ([], errno.ENOENT), "mfile": ([], errno.EMFILE)}


def sequences(case, ctx):
    """histories of loads: a failure changes nothing for the next load, nor for data sets loaded before"""
    start, depth = case
    names = ["tiny", "errors"]
    wants = {n: expectation(TEXTS[n]) for n in names}
    for rest in itertools.product(EVENTS, repeat=depth - len(start)):
        kept = []
        for i, ev in enumerate(list(start) + list(rest)):
            name = names[i % 2]
            write(TEXTS[name])
            script, oe = EVENTS[ev]
            arm(script, oe)
            try:
                try:
                    ds = sut.DataStructure(FILE)
                    got = state(ds)
                    kept.append((ds, wants[name]))
                except Exception as e:
                    got = type(e).__name__
            finally:
                c = counts()
                disarm()
            ctx.transitions += c[0] + c[2]
            if c[1] or c[3]:
                check(got == "BadDataFileReadException", "load %d of %r: %r", i, (start, rest), got)
            else:
                check(not isinstance(got, str) and same_state(got, wants[name]), "load %d of %r: %r", i, (start, rest), got)
            for d, w in kept:
                check(same_state(state(d), w), "load %d of %r changed an earlier data set: %r", i, (start, rest), state(d))
            ctx.states += 1
        ctx.traces += 1
    ctx.tick()
    ctx.outcome(tuple(start))


def many(case, ctx):
    """more failures than there are descriptors"""
    ev, = case
    want = expectation(TEXTS["tiny"])
    script, oe = EVENTS[ev]
    for i in range(150):
        judge("repeated %s" % ev, want, script, oe, ctx)
    judge("after %s" % ev, want, [], 0, ctx)


def SPACES(tier):
    big = tier == "thorough"

    def spl():
        for name, text in TEXTS.items():
            for first in range(1, len(text) + 1):
                yield [name, first, len(text) if len(text) <= 11 else 3 if not big else 5]

    def evs():
        for name in TEXTS:
            for depth in range(1, 5 if not big else 6):
                for start in [0, 1, 2, 3, 5, -EINTR] + [-e for e in FAIL]:
                    yield [name, depth, start]

    def lar():
        for n, three in ((700, True), (1500, False)) + (((20000, True),) if big else ()):
            for cap in (0, 1000, 4096, 8191, 8192, 100) + ((17, 3) if big else ()):
                yield [n, three, cap]

    def opn():
        for e in OPENFAIL:
            for s in (False, True):
                yield [e, s]

    def rea():
        for k in ("missing", "directory", "directory/", "dangling", "loop", "under_file", "long", "longpart", "empty", "slash", "dot", "mem", "proc", "removed"):
            yield [k]

    def fif():
        for name, text in TEXTS.items():
            for cut in range(0, len(text) + 1):
                yield [name, cut]

    def seqs():
        for a in EVENTS:
            for b in EVENTS:
                yield [[a, b], 4 if not big else 5]

    return [
        Space("splits", spl, splits, "all compositions of small files into reads (parts up to 3 (5) for longer texts), each with a failing or interrupted read at every position"),
        Space("answers", evs, events, "all sequences of 1..4 (5) read answers out of: ordinary, at most 1/2/3/5 bytes, interrupted, 6 errors; on 4 files"),
        Space("large", lar, large, "files of several buffers with 6 (8) read sizes: failures, interruptions and short reads at the positions"),
        Space("open", opn, opens, "9 errors of opening"),
        Space("real", rea, real, "missing, dangling, looping, too long names, directories, a file whose reads fail by itself"),
        Space("pipe", fif, fifo, "a pipe delivering the text in two pieces, every cut"),
        Space("histories", seqs, sequences, "all sequences of 4 (5) loads with 8 outcomes of their I/O"),
        Space("many", lambda: ([e] for e in EVENTS), many, "150 failures in a row with 64 descriptors"),
    ]
