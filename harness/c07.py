"""C07: a typed field reports the value its type defines for the bits at its
address, at any alignment and in any byte order."""
from symhach.h import H
from harness.common import quiet_parser
from harness.c01 import expected_bits, endian_of

PRELOAD = ["hachoir.parser"]
ASSUMPTIONS = ["fields lie inside the file (truncation: C08)", "floating point values are not claimed"]

INTS = [("UInt8", 8, False), ("UInt16", 16, False), ("UInt24", 24, False), ("UInt32", 32, False), ("UInt64", 64, False),
        ("Int8", 8, True), ("Int16", 16, True), ("Int24", 24, True), ("Int32", 32, True), ("Int64", 64, True)]


def parse(env, data, create):
    from hachoir.stream import StringInputStream
    return quiet_parser(endian_of(env), create, StringInputStream(data))


def display1(f):
    """The display of a field, with one byte of raw data at most."""
    from hachoir.core import config
    save = config.max_byte_length
    config.max_byte_length = 1
    try:
        return f.display
    finally:
        config.max_byte_length = save


def integers(env):
    """Two integers of any type after 0-15 bits."""
    from hachoir import field as F
    n = env["n"]
    data = env.bytes("data", n)
    before = env.int("before", 0, env["maxbefore"])
    t1, z1, s1 = INTS[env["t1"]]
    t2, z2, s2 = env.choice("t2", INTS)
    end = before + z1 + z2
    if env["endian"] == "me":
        end = (end + 15) // 16 * 16
    env.assume(end <= 8 * n)
    has = env.choice("has", [False, True])
    env.assume((before > 0) == has)

    def create(self):
        if has:
            yield F.RawBits(self, "before", before)
        yield getattr(F, t1)(self, "a")
        yield getattr(F, t2)(self, "b")
    p = parse(env, data, create)
    for name, addr, size, signed in (("a", before, z1, s1), ("b", before + z1, z2, s2)):
        f = p[name]
        exp = expected_bits(data, addr, size, env["endian"])
        if signed:
            exp = env.ite(exp >> (size - 1) == 1, exp - (1 << size), exp)
        env.check(f.size == size, "size of the type")
        env.check(f.address == addr, "address after the previous field")
        v = f.value
        env.observe(v)
        env.check(v == exp, "value of the integer")
        env.check(f.hasValue(), "an integer has a value")


def bits(env):
    """Bit, Bits, RawBits, Character, padding of symbolic size and address."""
    from hachoir import field as F
    n = env["n"]
    data = env.bytes("data", n)
    before = env.int("before", 1, 17)
    kind = env["kind"]
    size = env.int("size", 1, env["maxbits"]) if kind not in ("Bit", "Character") else {"Bit": 1, "Character": 8}[kind]
    end = before + size
    if env["endian"] == "me":
        end = (end + 15) // 16 * 16
    env.assume(end <= 8 * n)

    def create(self):
        yield F.RawBits(self, "before", before)
        if kind in ("Bit", "Character"):
            yield getattr(F, kind)(self, "a")
        else:
            yield getattr(F, kind)(self, "a", size)
    p = parse(env, data, create)
    f = p["a"]
    exp = expected_bits(data, before, size, env["endian"])
    v = f.value
    env.check(f.size == size, "size of the field")
    if kind == "Bit":
        env.check(v == (exp == 1), "value of the bits")
    elif kind == "Character":
        env.check(ord(v) == exp, "value of the bits")
    else:
        env.observe(v)
        env.check(v == exp, "value of the bits")
    if kind == "NullBits":
        env.check((f.display == "<null>") == (exp == 0), "null padding is recognised exactly when all bits are zero")


def rawbytes(env):
    from hachoir import field as F
    n = env["n"]
    data = env.bytes("data", n)
    a = env.pin(env.int("a", 0, n - 1))
    z = env.pin(env.int("z", 1, n))
    env.assume(a + z <= n)
    kind = env.choice("kind", ["RawBytes", "Bytes", "PaddingBytes", "NullBytes", "SubFile"])

    def create(self):
        if a:
            yield F.RawBytes(self, "before", a)
        yield getattr(F, kind)(self, "a", z)
    p = parse(env, data, create)
    f = p["a"]
    env.observe(f.value)
    env.check(f.value == data[a:a + z], "bytes of the field")
    env.check(f.size == 8 * z, "size of the field")
    if kind == "NullBytes":
        env.check((display1(f) == "<null>") == env.all(*[data[k] == 0 for k in range(a, a + z)]),
                  "null padding is recognised exactly when all bytes are zero")
    s = f.getSubIStream()
    env.check(s.size == 8 * z, "size of the stream of the field")
    env.check(s.readBytes(0, z) == data[a:a + z], "content of the stream of the field")


def padding(env):
    """Padding with a repeated pattern."""
    from hachoir import field as F
    n, m = env["n"], env["m"]
    data = env.bytes("data", n)
    pat = env.bytes("pattern", m)
    # escapes in the display are the subject of C18: only one byte is displayed
    if m > 1:
        env.assume(env.all(*[env.all(48 <= x, x < 91) for x in pat]))
        env.assume(env.all(48 <= data[0], data[0] < 91))

    def create(self):
        yield F.PaddingBytes(self, "a", n, pattern=pat)
    p = parse(env, data, create)
    good = env.all(*[data[k] == pat[k % m] for k in range(n)])
    env.assume(data[0] != ord("<"))
    shown = display1(p["a"]).startswith("<padding pattern=")
    env.check(shown == good, "the pattern is announced exactly when the padding repeats it")


def enum(env):
    """Enum changes the display of known values, and nothing else."""
    from hachoir import field as F
    n = 3
    data = env.bytes("data", n)
    before = env.int("before", 1, 8)
    table = {0: "zero", 1: "one", 5: "five", 200: "big"}

    def create(self):
        yield F.RawBits(self, "before", before)
        if env["key"]:
            yield F.Enum(F.UInt8(self, "a"), table, lambda v: v // 2)
        else:
            yield F.Enum(F.UInt8(self, "a"), table)
    p = parse(env, data, create)
    f = p["a"]
    v = f.value
    exp = expected_bits(data, before, 8, env["endian"])
    env.check(v == exp, "the value is not changed")
    key = exp // 2 if env["key"] else exp
    d = f.display
    for k in table:
        if key == k:
            env.check(d == table[k], "the name of the value is shown")
            return
    env.check(d == str(exp), "an unknown value is shown as it is")


def floats(env):
    """The parts of a big-endian floating point number are its bits."""
    from hachoir import field as F
    t, mb, eb = env["type"]
    z = 1 + mb + eb
    data = env.bytes("data", z // 8)

    def create(self):
        yield getattr(F, t)(self, "x")
    p = parse(env, data, create)
    f = p["x"]
    whole = int.from_bytes(data, "big")
    env.check(f.size == z, "size of the float")
    env.check(f["negative"].value == (whole >> (z - 1) == 1), "sign bit")
    e = f["exponent"].value
    env.observe(e)
    env.check(e == ((whole >> mb) & ((1 << eb) - 1)) - ((1 << (eb - 1)) - 1), "unbiased exponent")
    m = f["mantissa"].createRawDisplay()
    mbits = mb - 1 if t == "Float80" else mb
    env.check(m == str(whole & ((1 << mbits) - 1)), "mantissa bits")


def vector(env):
    """Vectors: items one after the other."""
    from hachoir import field as F
    n = env["n"]
    data = env.bytes("data", n)
    t, z, signed = INTS[env["t"]]
    count = env.pin(env.int("count", 1, n))
    env.assume(count * z <= 8 * n)

    def create(self):
        if env["api"] == "vector":
            yield F.GenericVector(self, "v", count, getattr(F, t), "item")
        else:
            class V(F.UserVector):
                item_class = getattr(F, t)
                item_name = "item"
            yield V(self, "v", count)
    p = parse(env, data, create)
    v = p["v"]
    env.check(len(v) == count, "number of items")
    env.check(v.size == count * z, "size of the vector")
    for k in range(count):
        exp = expected_bits(data, k * z, z, env["endian"])
        if signed:
            exp = env.ite(exp >> (z - 1) == 1, exp - (1 << z), exp)
        env.check(v["item[%d]" % k].value == exp, "value of an item")
        env.check(v[k].value == exp, "value of an item")
        env.check(p["v"].array("item")[k].value == exp, "value of an item")


def static(env):
    """StaticFieldSet: its size is the sum of the sizes of its fields."""
    from hachoir import field as F
    from hachoir.core.tools import createDict
    n = 12
    data = env.bytes("data", n)
    nb = env.pin(env.int("nb", 1, 5))
    nz = env.pin(env.int("nz", 1, 2))

    class S(F.StaticFieldSet):
        format = ((F.Bits, "b", nb), (F.PaddingBits, "pb", 8 - nb), (F.Bit, "c"), (F.NullBits, "nu", 7),
                  (F.UInt16, "i"), (F.RawBytes, "raw", nz), (F.Bytes, "by", nz, {"description": "x"}),
                  (F.String, "s", nz, {"charset": "ASCII"}), (F.PaddingBytes, "p", 1))

    def create(self):
        yield S(self, "s")
        yield F.UInt8(self, "after")
    p = parse(env, data, create)
    total = 0
    for f in p["s"]:
        env.check(f.address == total, "fields are contiguous")
        total += f.size
    env.check(p["s"].size == total, "the static size is the sum of the sizes of the fields")
    env.check(p["after"].value == data[total // 8], "what follows is read after it")


ENDIANS = ("be", "le", "me")
HARNESSES = [
    H("integers", integers,
      [dict(endian=e, n=10, t1=k, maxbefore=15) for e in ENDIANS for k in (0, 2, 3, 6, 7)],
      [dict(endian=e, n=18, t1=k, maxbefore=15) for e in ENDIANS for k in range(10)],
      bounds="every pair of integer types at any bit address 0..15, any content",
      expect=("value of the integer",)),
    H("bits", bits,
      [dict(endian=e, n=6, kind=k, maxbits=26) for e in ENDIANS for k in ("Bit", "Bits", "RawBits", "Character", "PaddingBits", "NullBits")],
      [dict(endian=e, n=12, kind=k, maxbits=70) for e in ENDIANS for k in ("Bit", "Bits", "RawBits", "Character", "PaddingBits", "NullBits")],
      bounds="any size up to maxbits at any bit address 1..17",
      expect=("value of the bits",)),
    H("rawbytes", rawbytes, [dict(endian="be", n=4)], [dict(endian="be", n=8)], bounds="any position and length in n bytes",
      expect=("bytes of the field", "null padding is recognised exactly when all bytes are zero")),
    H("padding", padding, [dict(endian="be", n=n, m=m) for n, m in ((1, 1), (4, 2), (3, 3), (6, 3))],
      [dict(endian="be", n=n, m=m) for n in (1, 4, 8, 12) for m in (1, 2, 3, 4) if n % m == 0],
      bounds="n bytes of any content, any pattern of m bytes",
      expect=("the pattern is announced exactly when the padding repeats it",)),
    H("enum", enum, [dict(endian=e, key=k) for e in ("be", "le") for k in (0, 1)], bounds="any byte at any bit address",
      expect=("the name of the value is shown", "an unknown value is shown as it is")),
    H("floats", floats, [dict(endian="be", type=t) for t in (["Float32", 23, 8], ["Float64", 52, 11], ["Float80", 64, 15])],
      bounds="any bits", expect=("unbiased exponent", "mantissa bits")),
    H("vector", vector, [dict(endian=e, n=4, t=t, api=a) for e in ("be", "le") for t in (0, 6) for a in ("vector", "user")],
      [dict(endian=e, n=8, t=t, api=a) for e in ("be", "le") for t in (0, 2, 3, 6) for a in ("vector", "user")],
      bounds="any number of items in n bytes", expect=("value of an item",)),
    H("static", static, [dict(endian=e) for e in ("be", "le")], bounds="sizes 1-5 bits and 1-2 bytes",
      expect=("the static size is the sum of the sizes of the fields",)),
]
