"""A fresh process that is sent pickled objects: unpickles, uses and answers (C28)."""
import os
import pickle
import struct
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def get(fh):
    head = fh.read(4)
    if len(head) < 4:
        return None
    return fh.read(struct.unpack("<I", head)[0])


def put(fh, b):
    fh.write(struct.pack("<I", len(b)) + b)
    fh.flush()


def main():
    i, o = sys.stdin.buffer, sys.stdout.buffer
    while True:
        b = get(i)
        if b is None:
            return
        try:
            obj = pickle.loads(b)  # this imports the package, nothing else has
            from props import c28
            first = c28.seen(obj)
            back = pickle.dumps(obj)
            c28.follow(obj)
            r = (first, c28.seen(obj), back)
        except Exception as e:
            r = "%s: %s" % (type(e).__name__, e)
        put(o, pickle.dumps(r))


if __name__ == "__main__":
    main()
