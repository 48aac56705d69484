"""C05: the file object of a stream behaves like a file with its contents."""
from symhach.h import H
from harness.common import make_stream

ASSUMPTIONS = ["positions are not negative"]


class RefFile:
    """Reference: a read-only binary file."""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    def seek(self, pos, whence):
        if whence == 0:
            self.pos = pos
        elif whence == 1:
            self.pos = self.pos + pos
        else:
            self.pos = len(self.data) + pos

    def read(self, size=None):
        if size is None or size < 0:
            d = self.data[self.pos:]
        else:
            d = self.data[self.pos:self.pos + size]
        self.pos += len(d)
        return d


OPS = ("read", "readall", "readminus", "seek0", "seek1", "seek2", "tell")


def ops(env):
    n = env["n"]
    data = env.bytes("data", n)
    s = make_stream(env["stream"], data)
    f = s.file()
    ref = RefFile(data)
    for k in range(env["ops"]):
        op = env["first"] if k == 0 and env["first"] else env.choice("op%d" % k, OPS)
        if op == "read":
            z = env.pin(env.int("z%d" % k, 0, env["maxread"]))
            a, b = f.read(z), ref.read(z)
            env.observe(a)
            env.check(a == b, "bytes read")
        elif op == "readall":
            a, b = f.read(), ref.read()
            env.observe(a)
            env.check(a == b, "bytes read to the end")
        elif op == "readminus":
            a, b = f.read(-1), ref.read(-1)
            env.check(a == b, "bytes read to the end")
        elif op == "tell":
            env.check(f.tell() == ref.pos, "position")
        else:
            w = int(op[4])
            lo = {0: 0, 1: -n, 2: -n}[w]
            p = env.pin(env.int("p%d" % k, lo, env["maxseek"]))
            base = {0: 0, 1: ref.pos, 2: n}[w]
            env.assume(base + p >= 0)
            f.seek(p, w)
            ref.seek(p, w)
    env.check(f.tell() == ref.pos, "position")
    # whatever happened, the rest of the file is what remains
    env.check(f.read() == ref.read(), "rest of the file")


def _cfg(tier):
    out = []
    for st in ("string", "pipe", "smallpipe", "sub"):
        for o in OPS:
            if tier == "q":
                out.append(dict(stream=st, n=3, ops=3, first=o, maxread=4, maxseek=4))
            else:
                out.append(dict(stream=st, n=4, ops=4, first=o, maxread=5, maxseek=5))
    return out


HARNESSES = [
    H("ops", ops, _cfg("q"), _cfg("t"),
      bounds="every history of that many read/seek/tell operations on an n-byte stream of any content, sizes 0..maxread, offsets up to maxseek; known and unknown stream size",
      expect=("bytes read", "bytes read to the end", "position", "rest of the file")),
]
