"""C08: the fields of a parsed file tile it: contiguous, inside the file, with
unique names, whatever the parser does and wherever the file is cut."""
from symhach.h import H
from harness.common import quiet_parser, pipe_stream

PRELOAD = ["hachoir.parser"]
ASSUMPTIONS = [
    "the parser is any program yielding fields of the listed kinds; its fields are read through every access path",
    "autofix is on (the default) unless stated",
]

KINDS = ("bits", "bytes", "set", "setsized", "fed", "pad", "dup", "array", "raise", "stop")


class Boom(Exception):
    pass


def plan(env, prefix, count, kinds, maxbits, first=None, depth=0):
    """A symbolic parser program: a list of (kind, size, sub-plan)."""
    out = []
    for k in range(count):
        kind = first if k == 0 and first else env.choice("%sk%d" % (prefix, k), kinds)
        size = 0
        sub = None
        if kind in ("bits", "pad", "setsized", "dup", "array"):
            size = env.int("%sz%d" % (prefix, k), 1, maxbits)
        elif kind == "bytes":
            size = env.pin(env.int("%sz%d" % (prefix, k), 1, (maxbits + 7) // 8))
        if kind in ("set", "setsized", "fed"):
            sub = plan(env, "%ss%d" % (prefix, k), env["sub"], ("bits", "stop"), maxbits, "bits", depth + 1)
        out.append((kind, size, sub))
        if kind in ("raise", "stop"):
            break
    return out


def create(self, prog):
    from hachoir import field as F
    n = 0
    for kind, size, sub in prog:
        n += 1
        if kind == "bits":
            yield F.RawBits(self, "f%d" % n, size)
        elif kind == "bytes":
            yield F.RawBytes(self, "f%d" % n, size)
        elif kind == "dup":
            yield F.RawBits(self, "dup", size)
        elif kind == "array":
            yield F.RawBits(self, "item[]", size)
        elif kind == "pad":
            p = self.seekBit(self.current_size + size)
            if p:
                yield p
        elif kind == "raise":
            raise Boom("parser bug")
        elif kind == "stop":
            return
        elif kind == "fed":
            # read by the parser before it is added
            f = node(self, "f%d" % n, sub, sum([z for _, z, _ in sub]))
            len(f)
            yield f
        else:
            yield node(self, "f%d" % n, sub, size if kind == "setsized" else None)


def node(parent, name, prog, size):
    from hachoir import field as F

    class Node(F.FieldSet):
        def createFields(self):
            return create(self, prog)
    return Node(parent, name, size=size)


def check_tiling(env, fset, size, base):
    """Fields of fset cover [0; size[ without gap nor overlap."""
    pos = 0
    names = {}
    k = 0
    for f in fset:
        env.check(f.address == pos, "fields are contiguous")
        env.check(f.absolute_address == base + pos, "absolute address of a field")
        z = f.size
        env.check(z > 0, "no field is empty")
        env.check(f.name not in names, "field names are unique")
        names[f.name] = f
        env.check(fset[f.name] is f, "a field is found by its name")
        env.check(fset[k] is f, "a field is found by its index")
        env.check(f.index == k, "a field knows its index")
        env.check(f.parent is fset, "a field knows its parent")
        env.check(fset[f.path] is f, "a field is found by its path")
        if f.is_field_set:
            check_tiling(env, f, z, base + pos)
        pos = pos + z
        k += 1
    env.check(len(fset) == k, "the number of fields")
    env.check(pos == size, "the fields cover the whole size")


def access(env, p):
    """Feeds the parser in the way of the configuration."""
    from hachoir.field import MissingField
    how = env["how"]
    if how == "iter":
        for f in p:
            pass
    elif how == "len":
        len(p)
    elif how == "name":
        for n in ("f1", "f2", "f3", "nothing"):
            r = n in p
    elif how == "index":
        k = 0
        try:
            while True:
                p[k]
                k += 1
        except MissingField:
            pass
    elif how == "more":
        while not p.done:
            p.readMoreFields(1)
    elif how == "path":
        try:
            p["/f1/f1"].value
            p["f1/f2"].value
        except MissingField:
            pass
        for f in p:
            pass
    elif how == "lenfirst":
        # inner field sets first
        k = 0
        try:
            while True:
                f = p[k]
                if f.is_field_set:
                    len(f)
                k += 1
        except MissingField:
            pass


def tiling(env):
    from hachoir.stream import StringInputStream
    n = env["n"]
    prog = plan(env, "", env["count"], KINDS, env["maxbits"], env["first"])
    p = quiet_parser(endian(), lambda self: create(self, prog), StringInputStream(bytes(n)))
    access(env, p)
    check_tiling(env, p, 8 * n, 0)
    env.check(p.size == 8 * n, "the size of the parser is the size of the file")
    # what the parser yielded and fits is kept as it was
    pos = 0
    k = 0
    for kind, size, sub in prog:
        if kind in ("bits", "dup", "array", "pad", "setsized"):
            z = size
        elif kind == "bytes":
            z = 8 * size
        elif kind in ("set", "fed"):
            z = 0
            crossing = False
            for kk, zz, _ in sub:
                if z > 0 and pos + z <= 8 * n and pos + z + zz > 8 * n:
                    crossing = True
                z += zz
            if crossing and (kind == "set" or k):
                env.check(env.all(p[k].address == pos, p[k].name == "f%d" % (k + 1)), "a structure cut by the end of the file is kept")
                env.check(p[k].size == 8 * n - pos, "a structure cut by the end of the file extends to it")
                break
            if z == 0:
                break
        else:
            break
        if kind == "setsized":
            total = 0
            for kk, zz, _ in sub:
                total += zz
            if k and pos < 8 * n and pos + z > 8 * n:
                env.check(env.all(p[k].address == pos, p[k].name == "f%d" % (k + 1)), "a structure cut by the end of the file is kept")
                env.check(p[k].size == 8 * n - pos, "a structure cut by the end of the file extends to it")
                break
            if total > size:
                break
        if pos + z > 8 * n:
            break
        env.check(p[k].size == z, "a field that fits is kept")
        pos = pos + z
        k += 1


def endian():
    from hachoir.core.endian import BIG_ENDIAN
    return BIG_ENDIAN


def nofix(env):
    """Without autofix: either a parser error or fields inside the file."""
    from hachoir.stream import StringInputStream
    from hachoir.core import config
    from hachoir.field import ParserError
    n = env["n"]
    prog = plan(env, "", env["count"], ("bits", "setsized", "stop", "raise"), env["maxbits"], None)
    save = config.autofix
    config.autofix = False
    try:
        p = quiet_parser(endian(), lambda self: create(self, prog), StringInputStream(bytes(n)))
        try:
            for f in p:
                pass
        except (ParserError, Boom):
            env.check(True, "an error is reported")
            pos = 0
            for k in range(p.current_length):
                f = p.getField(k)
                env.check(f.address == pos, "fields are contiguous")
                pos = pos + f.size
            env.check(pos <= 8 * n, "fields are inside the file")
            return
        try:
            check_tiling(env, p, 8 * n, 0)
        except ParserError:
            env.check(True, "an error is reported")
    finally:
        config.autofix = save


def unknown_size(env):
    """A file of unknown size (a pipe), shorter or longer than what the parser
    asks for."""
    from hachoir.field import ParserError
    from hachoir.stream import InputStreamError
    n = env["n"]
    prog = plan(env, "", env["count"], ("bits", "bytes", "set", "setsized", "array"), env["maxbits"], env["first"])
    stream = pipe_stream(bytes(n), 1, 100)
    p = quiet_parser(endian(), lambda self: create(self, prog), stream)
    stopped = False
    try:
        for f in p:
            f.size
            if env["values"] and not f.is_field_set:
                f.value
    except (ParserError, InputStreamError, Boom):
        stopped = True
    pos = 0
    k = 0
    total = 0
    fits = True
    if p.size is not None:
        env.check(p.size == 8 * n, "the size of the parser is the size of the file")
        if not stopped:
            check_tiling(env, p, 8 * n, 0)
        return
    for k in range(p.current_length):
        f = p.getField(k)
        env.check(f.address == pos, "fields are contiguous")
        pos = pos + f.size
    for kind, size, sub in prog:
        if kind == "set":
            size = 0
            for kk, zz, _ in sub:
                size += zz
        total += 8 * size if kind == "bytes" else size
    env.check(env.any(pos == total, stopped), "every field yielded is kept")


def addresses(env):
    """getFieldByAddress() gives the field covering an address."""
    from hachoir.stream import StringInputStream
    n = env["n"]
    prog = plan(env, "", env["count"], ("bits", "bytes", "setsized"), env["maxbits"], None)
    p = quiet_parser(endian(), lambda self: create(self, prog), StringInputStream(bytes(n)))
    a = env.int("a", 0, 8 * n + 8)
    f = p.getFieldByAddress(a)
    if f is None:
        env.check(a >= 8 * n, "every address of the file is in a field")
    else:
        env.check(env.all(f.address <= a, a < f.address + f.size), "the field covers the address")
    # without feeding: only what was already read
    q = quiet_parser(endian(), lambda self: create(self, prog), StringInputStream(bytes(n)))
    q.readFirstFields(1)
    first = q.getField(0)
    f = q.getFieldByAddress(a, feed=False)
    env.check((f is not None) == (a < first.size), "without feeding, only fields already read are found")


def arrays(env):
    """Numbered names, array() and paths."""
    from hachoir.stream import StringInputStream
    from hachoir.field import MissingField
    n = env["n"]
    prog = plan(env, "", env["count"], ("array", "bits", "set"), env["maxbits"], None)
    p = quiet_parser(endian(), lambda self: create(self, prog), StringInputStream(bytes(n)))
    arr = p.array("item")
    mode = env.choice("mode", ["len", "iter", "has", "get", "index"])
    # reference: positions of the items among the fields
    items = [f for f in p if f.name.startswith("item[")]
    cnt = len(items)
    for k in range(cnt):
        env.check(items[k].name == "item[%d]" % k, "items are numbered in order")
    if mode == "len":
        env.check(len(arr) == cnt, "length of an array")
    elif mode == "iter":
        got = [f for f in arr]
        env.check(len(got) == cnt, "length of an array")
        for k in range(cnt):
            env.check(got[k] is items[k], "item of an array")
    elif mode == "has":
        env.check((cnt in arr) == False, "an array ends after its last item")
        env.check(bool(arr) == (cnt > 0), "an array is true when it has items")
    else:
        i = env.pin(env.int("i", 0, env["count"]))
        try:
            f = arr[i]
            env.check(i < cnt, "an array ends after its last item")
            env.check(f is items[i], "item of an array")
        except MissingField:
            env.check(i >= cnt, "every item is in the array")
        env.check(len(arr) == cnt, "length of an array")


def reset(env):
    """reset() restarts the parsing: same fields."""
    from hachoir.stream import StringInputStream
    n = env["n"]
    prog = plan(env, "", env["count"], ("bits", "array", "setsized", "raise"), env["maxbits"], None)
    p = quiet_parser(endian(), lambda self: create(self, prog), StringInputStream(bytes(n)))
    first = [(f.name, f.address, f.size) for f in p]
    k = env.choice("when", [0, 1])
    p.reset()
    if k:
        p.readFirstFields(1)
        p.reset()
    second = [(f.name, f.address, f.size) for f in p]
    env.check(len(first) == len(second), "same number of fields after a reset")
    for a, b in zip(first, second):
        env.check(env.all(a[0] == b[0], a[1] == b[1], a[2] == b[2]), "same fields after a reset")


HOWS = ("iter", "len", "name", "index", "more", "path", "lenfirst")


def _tiling(tier):
    out = []
    for how in HOWS:
        for first in KINDS[:8]:
            if tier == "q":
                n = 2 if how in ("iter", "len") else 1
                out.append(dict(n=n, count=2, sub=1, maxbits=10 * n, how=how, first=first))
            else:
                out.append(dict(n=2, count=3, sub=1, maxbits=20, how=how, first=first))
                out.append(dict(n=2, count=2, sub=2, maxbits=20, how=how, first=first))
    if tier == "q":
        out.append(dict(n=2, count=2, sub=2, maxbits=18, how="iter", first="setsized"))
        out.append(dict(n=2, count=2, sub=2, maxbits=18, how="iter", first="set"))
        out.append(dict(n=1, count=2, sub=2, maxbits=9, how="iter", first="bits"))
        out.append(dict(n=1, count=2, sub=2, maxbits=9, how="iter", first="fed"))
        out.append(dict(n=1, count=3, sub=1, maxbits=9, how="iter", first="bits"))
        out.append(dict(n=1, count=3, sub=1, maxbits=9, how="len", first="array"))
    return out


HARNESSES = [
    H("tiling", tiling, _tiling("q"), _tiling("t"),
      bounds="every parser of 2-3 fields (bits, bytes, sized or unsized field sets of 1-2 fields, padding, duplicate or numbered names, an exception, an early end) of any sizes up to maxbits on an n-byte file, fed through the access path of the job",
      expect=("fields are contiguous", "the fields cover the whole size", "field names are unique", "a field that fits is kept")),
    H("nofix", nofix, [dict(n=2, count=2, sub=1, maxbits=20)], [dict(n=3, count=3, sub=2, maxbits=28)],
      bounds="as tiling, autofix off", expect=("an error is reported", "the fields cover the whole size")),
    H("unknown_size", unknown_size,
      [dict(n=3, count=2, sub=1, maxbits=28, first=f, values=v) for f in ("bits", "bytes", "set", "setsized", "array") for v in (0,)]
      + [dict(n=2, count=2, sub=1, maxbits=18, first=f, values=v) for f in ("bits", "bytes", "set", "setsized", "array") for v in (1,)],
      [dict(n=4, count=3, sub=2, maxbits=36, first=f, values=v) for f in ("bits", "bytes", "set", "setsized", "array") for v in (0, 1)],
      bounds="as tiling, on a pipe", expect=("fields are contiguous",)),
    H("addresses", addresses, [dict(n=3, count=2, sub=1, maxbits=20)], [dict(n=3, count=3, sub=2, maxbits=20)],
      bounds="any address", expect=("the field covers the address", "every address of the file is in a field")),
    H("arrays", arrays, [dict(n=8, count=3, sub=1, maxbits=12)], [dict(n=8, count=4, sub=1, maxbits=12)],
      bounds="parsers of 3-4 fields", expect=("item of an array", "length of an array")),
    H("reset", reset, [dict(n=2, count=2, sub=1, maxbits=20)], [dict(n=2, count=3, sub=1, maxbits=20)],
      bounds="parsers of 2-3 fields", expect=("same fields after a reset",)),
]
