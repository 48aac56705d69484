"""C02: windows and concatenations of streams are transparent."""
from symhach.h import H

PRELOAD = ["hachoir.parser"]
ASSUMPTIONS = [
    "windows and fragments have at least one bit",
    "fragments and the first part of a concatenation are byte sized and byte aligned (hachoir asserts it)",
]


def bitval(data, addr, nbits):
    return (int.from_bytes(data, "big") >> (8 * len(data) - addr - nbits)) & ((1 << nbits) - 1)


def base(env, data):
    from io import BytesIO
    from hachoir.stream import StringInputStream, InputIOStream
    if env["stream"] == "string":
        return StringInputStream(data)
    return InputIOStream(BytesIO(data))


def read_or_none(s, addr, nbits):
    from hachoir.stream.input import ReadStreamError
    from hachoir.core.endian import BIG_ENDIAN
    try:
        return s.readBits(addr, nbits, BIG_ENDIAN)
    except ReadStreamError:
        return None


def substream(env):
    """InputSubStream of InputSubStream of a stream, at bit granularity."""
    from hachoir.stream import InputSubStream
    n = env["n"]
    data = env.bytes("data", n)
    s = base(env, data)
    total = 8 * n
    off = 0
    size = total
    for k in range(env["depth"]):
        o = env.int("off%d" % k, 0, total - 1)
        env.assume(o < size)
        if env["sized"]:
            z = env.int("size%d" % k, 1, total)
            env.assume(o + z <= size)
            s = InputSubStream(s, o, z)
            size = z
        else:
            s = InputSubStream(s, o)
            size = size - o
        off = off + o
    env.check(s.size == size, "size of the window")
    addr = env.int("addr", 0, total)
    nbits = env.int("nbits", 1, env["maxbits"])
    env.assume(addr + nbits <= size)
    v = read_or_none(s, addr, nbits)
    env.check(v is not None, "a read inside the window succeeds")
    env.observe(v)
    env.check(v == bitval(data, off + addr, nbits), "window content")


def concat(env):
    from hachoir.stream import ConcatStream, StringInputStream
    n0, n1 = env["n0"], env["n1"]
    d0, d1 = env.bytes("d0", n0), env.bytes("d1", n1)
    s = ConcatStream((StringInputStream(d0), base(env, d1)))
    total = 8 * (n0 + n1)
    env.check(s.size == total, "size of the concatenation")
    addr = env.int("addr", 0, total + 8)
    nbits = env.int("nbits", 1, env["maxbits"])
    inside = addr + nbits <= total
    v = read_or_none(s, addr, nbits)
    env.check((v is not None) == inside, "only reads inside the stream succeed")
    if v is not None:
        env.observe(v)
        env.check(v == bitval(d0 + d1, addr, nbits), "concatenated content")


def fragmented(env):
    """Fragments of a parsed file, linked by 'next', read as one stream."""
    from hachoir.stream import FragmentedStream, StringInputStream
    from hachoir.core.endian import BIG_ENDIAN
    n = env["n"]
    data = env.bytes("data", n)
    layout = env["layout"]
    k = len(layout)
    stream = StringInputStream(data)

    class Data:
        def __init__(self, addr, size):
            self.absolute_address = addr
            self.size = size

    class Parent:
        pass
    parent = Parent()
    parent.stream = stream

    class Frag:
        path = "/frag"
        parent = None

        def __init__(self, d):
            self.d = d

        def getData(self):
            return self.d
    frags = []
    content = b""
    cut = False
    for i in range(k):
        a, z = layout[i]
        f = Frag(Data(8 * a, 8 * z))
        f.parent = parent
        if not cut:
            content = content + data[a:a + z]
        cut = cut or a + z > n      # the file is truncated there
        frags.append(f)
    for i in range(k):
        frags[i].next = frags[i + 1] if i + 1 < k else None
    s = FragmentedStream(frags[0])
    total = 8 * len(content)
    for r in range(env["reads"]):
        addr = env.int("addr%d" % r, 0, total + 4)
        nbits = env.int("nbits%d" % r, 1, env["maxbits"])
        inside = addr + nbits <= total
        v = read_or_none(s, addr, nbits)
        env.check((v is not None) == inside, "only reads inside the fragments succeed")
        if v is not None:
            env.observe(v)
            env.check(v == bitval(content, addr, nbits), "fragmented content")


def field_stream(env):
    """InputFieldStream: the bits of one field, at any bit address."""
    from hachoir.stream import InputFieldStream, StringInputStream
    from hachoir.parser import Parser
    from hachoir.field import RawBits
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
    n = env["n"]
    data = env.bytes("data", n)
    a = env.int("before", 1, 8 * n - 1)
    z = env.int("size", 1, 8 * n - 1)
    env.assume(a + z <= 8 * n)

    class P(Parser):
        endian = BIG_ENDIAN
        PARSER_TAGS = {"id": "x", "min_size": 8, "description": "x"}

        def createFields(self):
            yield RawBits(self, "before", a)
            yield RawBits(self, "part", z)

        def validate(self):
            return True
    p = P(StringInputStream(data))
    s = InputFieldStream(p["part"])
    env.check(s.size == z, "size of the field stream")
    addr = env.int("addr", 0, 8 * n)
    nbits = env.int("nbits", 1, env["maxbits"])
    env.assume(addr + nbits <= z)
    v = read_or_none(s, addr, nbits)
    env.check(v is not None, "a read inside the field succeeds")
    env.observe(v)
    env.check(v == bitval(data, a + addr, nbits), "field content")


LAYOUTS = [([[1, 2]], 2), ([[0, 1], [1, 2]], 2), ([[2, 2], [0, 1]], 2),
           ([[3, 1], [0, 1], [1, 2]], 2), ([[1, 2], [0, 2]], 1), ([[2, 1], [0, 2], [3, 1]], 1),
           ([[0, 1], [2, 2], [5, 1]], 2), ([[4, 2], [2, 2], [0, 2]], 2), ([[3, 3], [0, 3]], 2)]
# the last fragment is longer than the file
CUT = [([[2, 4]], 2), ([[0, 1], [2, 3]], 2), ([[0, 2], [3, 2], [0, 1]], 2)]

HARNESSES = [
    H("substream", substream,
      [dict(stream=s, n=n, depth=d, sized=z, maxbits=17) for s in ("string", "io")
       for n, d in ((4, 1), (4, 2)) for z in (0, 1)],
      [dict(stream=s, n=n, depth=d, sized=z, maxbits=33) for s in ("string", "io")
       for n, d in ((8, 1), (6, 2), (5, 3)) for z in (0, 1)],
      bounds="1-2 nested windows (3 thorough) at any bit offset and size over n-byte streams; any address; sizes up to maxbits",
      expect=("window content",)),
    H("concat", concat,
      [dict(stream=s, n0=a, n1=b, maxbits=25) for s in ("string", "io") for a, b in ((1, 1), (3, 2), (2, 4))],
      [dict(stream=s, n0=a, n1=b, maxbits=65) for s in ("string", "io") for a in (1, 3, 6) for b in (1, 2, 6)],
      bounds="two parts of n0, n1 bytes; any address and size up to maxbits",
      expect=("concatenated content", "only reads inside the stream succeed")),
    H("fragmented", fragmented,
      [dict(n=4, layout=l, maxbits=17, reads=r) for l, r in LAYOUTS[:6] + CUT],
      [dict(n=6, layout=l, maxbits=33, reads=r) for l, r in LAYOUTS] +
      [dict(n=4, layout=l, maxbits=33, reads=r) for l, r in CUT],
      bounds="1-3 fragments (layouts listed per job: contiguous, reversed, overlapping, gaps, truncated by the end of the file) of an n-byte stream, 1-2 reads at any bit address and of any size, in any order",
      expect=("fragmented content", "only reads inside the fragments succeed")),
    H("field_stream", field_stream, [dict(n=3, maxbits=24)], [dict(n=5, maxbits=40)],
      bounds="a field at any bit address and size of an n-byte file", expect=("field content",)),
]
