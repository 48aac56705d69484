"""C09: seeking: fields go exactly where the parser seeks, gaps are shown,
fields can be replaced without moving the others."""
from symhach.h import H
from harness.common import quiet_parser

PRELOAD = ["hachoir.parser"]
ASSUMPTIONS = [
    "blocks given to getgaps() lie inside its range",
    "the new fields given to replaceField()/writeFieldsIn() have unused names",
]


def gaps(env):
    """getgaps(): exactly the units in no block."""
    from hachoir.field.seekable_field_set import getgaps
    top = env["top"]
    start = env.int("start", 0, top)
    length = env.int("length", 0, top)
    blocks = []
    for k in range(env["blocks"]):
        s = env.int("s%d" % k, 0, 2 * top)
        z = env.int("z%d" % k, 0, top)
        env.assume(s + z <= start + length)
        blocks.append((s, z))
    got = list(getgaps(start, length, blocks))
    pos = start
    for s, z in got:
        env.check(s >= pos, "gaps are sorted and disjoint")
        env.check(z > 0, "no gap is empty")
        pos = s + z
    env.check(pos <= env.ite(start + length > start, start + length, start), "gaps are inside the range")
    x = env.int("x", 0, 3 * top)
    in_gap = env.any(*[env.all(s <= x, x < s + z) for s, z in got])
    in_block = env.any(*[env.all(s <= x, x < s + z) for s, z in blocks])
    inside = env.all(start <= x, x < start + length)
    env.check(env.implies(in_gap, inside), "gaps are inside the range")
    env.check(env.implies(inside, env.any(env.all(in_gap, env.no(in_block)), env.all(in_block, env.no(in_gap)))),
              "a unit is in a gap exactly when it is in no block")


def seekpad(env):
    """seekBit()/seekByte() of an ordinary field set give the padding needed."""
    from hachoir import field as F
    from hachoir.field import ParserError
    from hachoir.stream import StringInputStream
    from hachoir.core.endian import BIG_ENDIAN
    n = env["n"]
    before = env.int("before", 1, 9)
    inner = env.int("inner", 1, 9)
    unit = env.choice("unit", [1, 8])
    relative = env.choice("relative", [True, False])
    null = env.choice("null", [True, False])
    target = env.int("target", 0, (8 * n if unit == 1 else n))
    log = []

    class Sub(F.FieldSet):
        def createFields(self):
            yield F.RawBits(self, "first", inner)
            kw = dict(null=null)
            if not relative:
                kw["relative"] = False
            try:
                pad = (self.seekBit if unit == 1 else self.seekByte)(target, **kw)
            except ParserError:
                log.append("back")
                yield F.RawBits(self, "end", 1)
                return
            if pad:
                log.append("pad")
                yield pad
            else:
                log.append("none")
            yield F.RawBits(self, "end", 1)

    def create(self):
        yield F.RawBits(self, "before", before)
        yield Sub(self, "sub")
    p = quiet_parser(BIG_ENDIAN, create, StringInputStream(bytes(n)))
    bits = target * unit
    if not relative:
        bits = bits - before
    env.assume(before + bits + 1 <= 8 * n)
    env.assume(before + inner + 1 <= 8 * n)
    sub = p["sub"]
    end = sub["end"]
    if log[0] == "back":
        env.check(bits < inner, "only going back is refused")
    elif log[0] == "none":
        env.check(bits == inner, "no padding when it is not needed")
        env.check(end.address == inner, "the next field is at the address sought")
    else:
        env.check(bits > inner, "padding only when it is needed")
        pad = sub[1]
        env.check(pad.address == inner, "the padding follows the last field")
        env.check(pad.size == bits - inner, "size of the padding")
        env.check(end.address == bits, "the next field is at the address sought")
        env.check(end.absolute_address == before + bits, "the next field is at the address sought")
        env.check(isinstance(pad, (F.NullBits, F.NullBytes)) == null, "null padding on demand")
        env.check(pad.name == "padding[0]", "name of the padding")


def seekable_prog(env, prefix, count, top):
    prog = []
    for k in range(count):
        how = env.choice("%sh%d" % (prefix, k), env["hows"])
        addr = 0
        if how != "next":
            addr = env.int("%sa%d" % (prefix, k), 0, top)
        prog.append((how, addr, env.int("%sz%d" % (prefix, k), 1, env["maxbits"])))
    return prog


def seekable_fields(self, prog):
    from hachoir import field as F
    k = 0
    for how, addr, size in prog:
        k += 1
        if how == "abs":
            self.seekBit(addr, relative=False)
        elif how == "rel":
            self.seekBit(addr)
        elif how == "byte":
            self.seekByte(addr)
        yield F.RawBits(self, "f%d" % k, size)


def reference(prog, base, size):
    """Address and size of the fields up to the first which does not fit."""
    pos = 0
    expect = []
    for how, addr, z in prog:
        if how == "abs":
            addr = addr - base
            if addr < 0:
                break
            pos = addr
        elif how == "rel":
            pos = addr
        elif how == "byte":
            pos = 8 * addr
        if pos + z > size:
            break
        expect.append((pos, z))
        pos = pos + z
    return expect


def seekable(env):
    """A seekable root or field set: fields are where they were sought, and
    every bit is in some field."""
    from hachoir import field as F
    from hachoir.field import RootSeekableFieldSet, SeekableFieldSet
    from hachoir.parser import Parser
    from hachoir.stream import StringInputStream
    from hachoir.core.endian import BIG_ENDIAN
    n = env["n"]
    where = env["where"]
    prog = seekable_prog(env, "", env["count"], env["top"])
    base = 0
    size = 8 * n
    stream = StringInputStream(bytes(n))
    if where == "root":
        class P(RootSeekableFieldSet, Parser):
            PARSER_TAGS = {"id": "x", "min_size": 8, "description": "x"}
            endian = BIG_ENDIAN

            def __init__(self, stream, **args):
                RootSeekableFieldSet.__init__(self, None, "root", stream, None, stream.askSize(self))
                Parser.__init__(self, stream, **args)

            def validate(self):
                return True

            def createFields(self):
                return seekable_fields(self, prog)
        fs = P(stream)
    else:
        base = env.int("base", 1, env["maxbase"])
        size = env.int("size", 1, 8 * n)
        env.assume(base + size <= 8 * n)

        class S(SeekableFieldSet):
            def createFields(self):
                return seekable_fields(self, prog)

        def create(self):
            yield F.RawBits(self, "before", base)
            yield S(self, "s", size=(size if where == "sized" else None))
        root = quiet_parser(BIG_ENDIAN, create, stream)
        if where == "unsized":
            if "s" not in root:
                # it can't be parsed: shown as raw data
                env.check(len(reference(prog, base, 8 * n - base)) < len(prog), "a set is dropped only if one of its fields does not fit")
                return
            # the set ends at the end of its furthest field
            size = 8 * n - base
        fs = root["s"]
    if env["how"] == "iter":
        fields = [f for f in fs]
    else:
        fields = None
        len(fs)
    again = [f for f in fs]
    if fields is not None:
        env.check(len(fields) == len(again), "iterating gives every field")
        for a, b in zip(fields, again):
            env.check(a is b, "iterating gives every field")
    expect = reference(prog, base, size)
    k = 0
    for a, z in expect:
        f = again[k] if k < len(again) else None
        env.check(f is not None and f.name == "f%d" % (k + 1), "a field that fits is kept")
        env.check(env.all(f.address == a, f.size == z, f.absolute_address == base + a), "a field is where the parser sought")
        k += 1
    names = {}
    x = env.int("x", 0, 8 * n - 1)
    cover, rest = [], []
    for f in again:
        env.check(f.name not in names, "field names are unique")
        names[f.name] = 1
        env.check(fs[f.name] is f, "a field is found by its name")
        a, z = f.address, f.size
        env.check(f.absolute_address == base + a, "absolute address of a field")
        (cover if f.name[:1] == "f" else rest).append(env.all(a <= x, x < a + z))
        if where != "unsized":
            env.check(env.all(a >= 0, a + z <= size), "fields are inside")
    if where == "unsized":
        end = 0
        for a, z in expect:
            end = env.ite(a + z > end, a + z, end)
        if len(expect) == len(prog):
            env.check(fs.size == end, "an unsized set ends after its furthest field")
        size = fs.size
    inside = x < size
    env.check(fs.size == size, "size of the field set")
    env.check(env.implies(inside, env.any(*(cover + rest))), "every bit is in a field")
    env.check(env.no(env.all(env.any(*cover), env.any(*rest))), "what is shown as unparsed was not parsed")


def replace(env):
    """replaceField()/writeFieldsIn(): the new fields take the place of the old."""
    from hachoir import field as F
    from hachoir.field import ParserError
    from hachoir.stream import StringInputStream
    from hachoir.core.endian import BIG_ENDIAN
    n = env["n"]
    sizes = [env.int("z%d" % k, 1, env["maxbits"]) for k in range(3)]
    total = sizes[0] + sizes[1] + sizes[2]
    env.assume(total <= 8 * n)
    done = env.choice("done", [False, True])

    def create(self):
        for k in range(3):
            yield F.RawBits(self, "f%d" % k, sizes[k])
        yield F.RawBits(self, "tail[]", 8 * n - total) if tail else F.RawBits(self, "x", 1)
    tail = bool(total < 8 * n)
    p = quiet_parser(BIG_ENDIAN, create, StringInputStream(bytes(n)))
    if done:
        len(p)
    else:
        p.readFirstFields(3)
    which = env.choice("which", [0, 1, 2])
    start = 0
    for k in range(which):
        start = start + sizes[k]
    cnt = env.choice("cnt", [1, 2])
    news = [env.int("n%d" % k, 1, env["maxbits"]) for k in range(cnt)]
    names = ["new[]", env.choice("name1", ["other", "new[]"])][:cnt]
    new = [F.RawBits(p, names[k], news[k]) for k in range(cnt)]
    newtotal = sum(news)
    old = p["f%d" % which]
    events = []
    p.connectEvent("field-replaced", lambda *a: events.append("replaced"))
    p.connectEvent("field-inserted", lambda *a: events.append("inserted"))
    api = env["api"]
    offset = 0
    try:
        if api == "replace":
            p.replaceField("f%d" % which, new)
        else:
            offset = env.int("offset", 0, env["maxbits"])
            env.assume(env.any(newtotal > sizes[which], offset + newtotal <= sizes[which]))
            p.writeFieldsIn(old, start + offset, new)
    except ParserError:
        if api == "replace":
            env.check(newtotal != sizes[which], "only new fields of another size are refused")
        else:
            env.check(newtotal > sizes[which], "only new fields which do not fit are refused")
        env.check(p["f%d" % which] is old, "a refused replacement changes nothing")
        env.check(p.current_length == 3 + (1 if done and tail else 0), "a refused replacement changes nothing")
        return
    if api == "replace":
        env.check(newtotal == sizes[which], "new fields have the size of the old one")
    else:
        env.check(newtotal <= sizes[which], "new fields fit in the old one")
    pos = 0
    k = 0
    seen = []
    for f in p:
        env.check(f.address == pos, "fields are contiguous")
        env.check(p[f.name] is f, "a field is found by its name")
        env.check(p[k] is f, "a field is found by its index")
        for j in range(cnt):
            if f is new[j]:
                seen.append(j)
                at = start + offset
                for i in range(j):
                    at = at + news[i]
                env.check(f.address == at, "a new field is where it was put")
        pos = pos + f.size
        k += 1
    env.check(pos == 8 * n, "the fields cover the whole size")
    env.check(seen == list(range(cnt)), "the new fields are there")
    env.check(("f%d" % which) not in p, "the old field is gone")
    at = 0
    for j in range(3):
        if j != which:
            env.check(p["f%d" % j].address == at, "other fields do not move")
            env.check(p["f%d" % j].size == sizes[j], "other fields do not move")
        at = at + sizes[j]
    env.check(events[0] == "replaced" and len(events) >= cnt, "listeners are told")


HOWS = ["next", "abs", "rel", "byte"]
HARNESSES = [
    H("gaps", gaps, [dict(top=40, blocks=1), dict(top=15, blocks=2), dict(top=3, blocks=3)], [dict(top=1000, blocks=k) for k in (1, 2, 3, 4)],
      bounds="any range, up to 3 (4) blocks in any order", expect=("a unit is in a gap exactly when it is in no block",)),
    H("seekpad", seekpad, [dict(n=6)], [dict(n=12)], bounds="targets in n bytes",
      expect=("the next field is at the address sought", "only going back is refused", "size of the padding")),
    H("seekable", seekable,
      [dict(n=1, count=2, top=10, maxbits=9, maxbase=5, hows=HOWS[:3], where=w, how=h)
       for w, h in (("root", "iter"), ("root", "len"), ("sized", "iter"), ("unsized", "len"))]
      + [dict(n=2, count=2, top=20, maxbits=18, maxbase=5, hows=HOWS[1:2], where=w, how="len") for w in ("root",)]
      + [dict(n=3, count=2, top=3, maxbits=9, maxbase=5, hows=["next", "byte"], where=w, how="iter") for w in ("root",)],
      [dict(n=3, count=3, top=28, maxbits=18, maxbase=9, hows=HOWS, where=w, how=h)
       for w in ("root", "sized", "unsized") for h in ("iter", "len")],
      bounds="2-3 fields at any addresses, in order or not, inside or not",
      expect=("a field is where the parser sought", "every bit is in a field", "what is shown as unparsed was not parsed")),
    H("replace", replace, [dict(n=2, maxbits=7, api=a) for a in ("replace", "write")], [dict(n=6, maxbits=30, api=a) for a in ("replace", "write")],
      bounds="3 fields, 1-2 new ones, any sizes", expect=("a new field is where it was put", "other fields do not move")),
]
