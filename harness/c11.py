"""C11: a typed field of an editor accepts exactly the values its type can
store, and what is written is parsed again as the value set."""
from symhach.h import H
from harness.common import quiet_parser
from harness.c01 import endian_of

PRELOAD = ["hachoir.parser", "hachoir.editor"]
ASSUMPTIONS = [
    "integers, characters, strings, timestamps and floats are at byte boundaries",
    "values given to strings with a suffix do not contain it",
    "string values are byte strings, in a charset without BOM",
]


def parse(env, data, field):
    from hachoir import field as F
    from hachoir.stream import StringInputStream

    def create(self):
        yield F.Bits(self, "before", 8)
        yield field(self)
        rest = (self.stream.size - self.current_size) // 8
        yield F.RawBytes(self, "after", rest)
    return quiet_parser(endian_of(env), create, StringInputStream(data))


def output(ed):
    from hachoir.stream import OutputStream
    from io import BytesIO
    b = BytesIO()
    ed.writeInto(OutputStream(b))
    return b.getvalue()


def history(env, data, field, values, make, after, fits, errors, stored=None):
    """Replace the field (or insert a new one), then set other values: all
    values are accepted when they fit, refused without any effect otherwise."""
    from hachoir.editor import createEditor
    p = parse(env, data, field)
    original = p["x"].value
    size = p["x"].size
    ed = createEditor(p)
    current = None
    name = "x"
    first = 0
    if env["new"]:
        name = "new"
        try:
            new = make(ed, values[0])
        except errors:
            env.check(env.no(fits(values[0])), "a value that fits is accepted")
            return
        env.check(fits(values[0]), "a value that does not fit is refused")
        del ed["x"]
        ed.insertBefore("after", new)
        current = values[0]
        first = 1
        f = new
    else:
        f = ed["x"]
        env.check(f.value == original, "value of an unaltered field")
        env.check(f.size == size, "size of an unaltered field")
        env.check(f.is_altered == False, "not altered")
    for v in values[first:]:
        try:
            f.value = v
        except errors:
            env.check(env.no(fits(v)), "a value that fits is accepted")
            continue
        env.check(fits(v), "a value that does not fit is refused")
        current = v
    if current is None:
        env.check(f.value == original, "a refused value changes nothing")
        env.check(f.is_altered == False, "a refused value changes nothing")
        env.check(output(ed) == data, "a refused value changes nothing")
        return
    env.check(f.value == current, "the field has the last value accepted")
    env.check(f.is_altered == True, "an altered field says so")
    env.check(ed.is_altered == True, "an altered field says so")
    out = output(ed)
    env.check(8 * len(out) == ed.size, "size of the edited file")
    p2 = parse(env, out, after(current))
    env.check(p2["before"].value == data[0], "the other fields are unchanged")
    got = p2["x"].value
    env.check(got == (current if stored is None else stored(current)), "the value written is read back")
    env.check(p2["x"].size == f.size, "size of the altered field")
    end = p["after"].absolute_address // 8
    env.check(p2["after"].value == data[end:], "the other fields are unchanged")


def integer(env):
    from hachoir import field as F
    from hachoir.editor import EditableInteger
    size, signed = env["size"], env["signed"]
    cls = getattr(F, ("" if signed else "U") + "Int%d" % size)
    data = env.bytes("data", 2 + size // 8)
    lo, hi = (-(1 << (size - 1)), (1 << (size - 1)) - 1) if signed else (0, (1 << size) - 1)
    values = [env.int("v%d" % k, -(1 << size) - 2, (1 << (size + 1)) + 2) for k in range(env["count"])]
    history(env, data, lambda p: cls(p, "x"), values,
            lambda ed, v: EditableInteger(ed, "new", signed, size, v),
            lambda v: lambda p: cls(p, "x"),
            lambda v: env.all(lo <= v, v <= hi), ValueError)


def bits(env):
    from hachoir import field as F
    from hachoir.editor import EditableBits
    size = env["size"]
    data = env.bytes("data", 3)
    values = [env.int("v%d" % k, -2, (1 << size) + 2) for k in range(2)]
    history(env, data, lambda p: F.Bits(p, "x", size), values,
            lambda ed, v: EditableBits(ed, "new", size, v),
            lambda v: lambda p: F.Bits(p, "x", size),
            lambda v: env.all(0 <= v, v < (1 << size)), ValueError)


def raw(env):
    from hachoir import field as F
    from hachoir.editor import EditableBytes
    data = env.bytes("data", 2 + env["size"])
    # b"" has no size: a new field can't be empty either
    sizes = [1, 3] if env["new"] else [0, 1, 3]
    values = [env.bytes("v%d" % k, env.choice("z%d" % k, sizes)) for k in range(2)]
    history(env, data, lambda p: F.RawBytes(p, "x", env["size"]), values,
            lambda ed, v: EditableBytes(ed, "new", v),
            lambda v: lambda p: F.RawBytes(p, "x", len(v)),
            lambda v: len(v) > 0, ValueError)


def string(env):
    from hachoir import field as F
    from hachoir.editor import EditableString
    fmt = env["format"]
    wide = env.cfg.get("charset")
    content = env.bytes("content", env.choice("n", [0, 1, 2] if not wide else [2, 4]))
    if fmt == "fixed" and len(content) == 0:
        return
    big = env["endian"] == "be"
    values = [env.bytes("v%d" % k, env.choice("z%d" % k, [0, 1, 3] if not wide else [0, 4])) for k in range(2)]
    cls, kw = None, {}
    prefix = suffix = b""
    unit = 1
    if wide:
        kw["charset"] = wide
        unit = 2
    if fmt == "C":
        cls = F.CString
        suffix = bytes(unit)
    elif fmt == "UnixLine":
        cls = F.UnixLine
        suffix = b"\n" if unit == 1 else (b"\0\n" if wide == "UTF-16-BE" else b"\n\0")
    elif fmt == "fixed":
        cls = F.String
    else:
        z = int(fmt[6:]) // 8
        cls = getattr(F, "PascalString%d" % (8 * z))
        prefix = len(content).to_bytes(z, "big" if big else "little")

    def free(v):
        if suffix:
            for i in range(0, len(v), unit):
                env.assume(v[i:i + unit] != suffix)
        if unit == 2:
            for i in range(0, len(v), unit):
                env.assume(env.any(v[i + (1 if wide == "UTF-16-LE" else 0)] < 0xd8, v[i + (1 if wide == "UTF-16-LE" else 0)] > 0xdf))
    free(content)
    for v in values:
        free(v)
    data = env.bytes("head", 1) + prefix + content + suffix + env.bytes("tail", 1)

    def field(n):
        if fmt == "fixed":
            return lambda p: cls(p, "x", n, **dict(kw, charset=kw.get("charset") or "ISO-8859-1"))
        return lambda p: cls(p, "x", **dict(kw, charset=kw.get("charset") or "ISO-8859-1"))
    if fmt == "fixed":
        env.assume(len(values[0]) > 0 and len(values[1]) > 0)
    history(env, data, field(len(content)), values,
            lambda ed, v: EditableString(ed, "new", fmt, v, **dict(kw, charset=kw.get("charset") or "ISO-8859-1")),
            lambda v: field(len(v)),
            lambda v: True, ValueError,
            lambda v: v.decode({"UTF-16-LE": "utf-16-le", "UTF-16-BE": "utf-16-be", None: "latin-1"}[wide]))


def toobig(env):
    """A Pascal string which does not fit its prefix."""
    from hachoir import field as F
    from hachoir.editor import EditableString, createEditor
    b = env.bytes("b", 2)
    data = b[:1] + b"\1" + b + b"\0"
    n = env.choice("n", [255, 256, 300])
    p = parse(env, data, lambda p: F.PascalString8(p, "x", charset="ISO-8859-1"))
    ed = createEditor(p)
    v = b * 150
    v = v[:n]
    try:
        if env["new"]:
            new = EditableString(ed, "x2", "Pascal8", v)
            ed.insertBefore("after", new)
            del ed["x"]
        else:
            ed["x"].value = v
    except ValueError:
        env.check(n > 255, "a value that fits is accepted")
        env.check(output(ed) == data, "a refused value changes nothing")
        return
    env.check(n <= 255, "a value that does not fit is refused")
    env.check(output(ed) == b[:1] + bytes([n]) + v + b[1:] + b"\0", "the value written is read back")


def character(env):
    from hachoir import field as F
    from hachoir.editor.typed_field import EditableCharacter
    data = env.bytes("data", 3)
    values = [env.str("v%d" % k, 1, 0, 0x3ff) for k in range(2)]
    history(env, data, lambda p: F.Character(p, "x"), values,
            lambda ed, v: EditableCharacter(ed, "new", v),
            lambda v: lambda p: F.Character(p, "x"),
            lambda v: ord(v) < 256, (ValueError, TypeError))


def mac32(env):
    from hachoir import field as F
    from hachoir.editor.typed_field import EditableTimestampMac32
    from datetime import datetime, timedelta
    data = env.bytes("data", 6)
    secs = [env.int("v%d" % k, -3, (1 << 32) + 3) for k in range(2)]
    values = [datetime(1904, 1, 1) + timedelta(seconds=s) for s in secs]
    top = datetime(1904, 1, 1) + timedelta(seconds=(1 << 32) - 1)
    history(env, data, lambda p: F.TimestampMac32(p, "x"), values,
            lambda ed, v: EditableTimestampMac32(ed, "new", v),
            lambda v: lambda p: F.TimestampMac32(p, "x"),
            lambda v: env.all(datetime(1904, 1, 1) <= v, v <= top), ValueError)


def floats(env):
    """A float set as a whole, or one of its parts."""
    from hachoir import field as F
    from hachoir.editor import createEditor
    import struct
    size = env["size"]
    data = env.bytes("data", 2 + size // 8)
    cls = getattr(F, "Float%d" % size)
    p = parse(env, data, lambda p: cls(p, "x"))
    ed = createEditor(p)
    what = env.choice("what", ["value", "negative"])
    raw = data[1:-1]
    n = 0
    for k in range(len(raw)):
        n = n * 256 + raw[k if env["endian"] == "be" else len(raw) - 1 - k]
    exp, man = {32: (8, 23), 64: (11, 52)}[size]
    if what == "value":
        v = env.choice("v", [0.0, 1.5, -2.0, 3.25e10])
        ed["x"].value = v
        env.check(ed["x"].value == v, "the field has the last value accepted")
        new = struct.pack((">" if env["endian"] == "be" else "<") + {32: "f", 64: "d"}[size], v)
    else:
        if env["endian"] == "le":
            # the parts of little endian floats are not specified
            return
        z, shift = 1, exp + man
        v = env.int("v", 0, 3)
        try:
            ed["x/" + what].value = v
        except ValueError:
            env.check(v >= (1 << z), "a value that fits is accepted")
            env.check(output(ed) == data, "a refused value changes nothing")
            return
        env.check(v < (1 << z), "a value that does not fit is refused")
        m = n // (1 << shift) % (1 << z)
        new = (n - m * (1 << shift) + v * (1 << shift))
        new = bytes([new // 256 ** (size // 8 - 1 - k) % 256 for k in range(size // 8)])
    env.check(ed.is_altered == True, "an altered field says so")
    env.check(output(ed) == data[:1] + new + data[-1:], "the value written is read back")


def cf(**kw):
    out = [{}]
    for k, vs in kw.items():
        out = [dict(o, **{k: v}) for o in out for v in vs]
    return out


ENDIANS = ["be", "le"]
EXPECT = ("the value written is read back", "a value that does not fit is refused")
HARNESSES = [
    H("integer", integer, cf(endian=ENDIANS, new=[False, True], signed=[False, True], size=[8, 16, 24, 32, 64], count=[2]),
      cf(endian=ENDIANS, new=[False, True], signed=[False, True], size=[8, 16, 24, 32, 64], count=[3]),
      bounds="2 values (3 thorough), any value, every integer type", expect=EXPECT),
    H("bits", bits, cf(endian=ENDIANS, new=[False, True], size=[8, 3, 11][:1]), bounds="8 bits at a byte boundary (other alignments: C10)", expect=EXPECT),
    H("raw", raw, cf(endian=["be"], new=[False, True], size=[1, 2]), bounds="2 values of up to 3 bytes", expect=EXPECT[:1]),
    H("string", string, cf(endian=ENDIANS, new=[False, True], format=["C", "UnixLine", "fixed", "Pascal8", "Pascal16", "Pascal32"])
      + cf(endian=ENDIANS, new=[False, True], format=["C", "UnixLine"], charset=["UTF-16-LE"])
      + cf(endian=["be", "le"], new=[False, True], format=["C", "UnixLine"], charset=["UTF-16-BE"]) + cf(endian=["be"], new=[False, True], format=["Pascal16"], charset=["UTF-16-BE"]),
      bounds="2 values of up to 3 bytes (2 in UTF-16)", expect=EXPECT[:1]),
    H("toobig", toobig, cf(endian=["be"], new=[False, True]), bounds="255, 256 and 300 bytes of any values", expect=EXPECT),
    H("character", character, cf(endian=ENDIANS, new=[False, True]), bounds="2 values", expect=EXPECT),
    H("mac32", mac32, cf(endian=ENDIANS, new=[False, True]), bounds="2 values, whole seconds", expect=EXPECT),
    H("floats", floats, cf(endian=ENDIANS, size=[32, 64]), bounds="sign bit; 4 values as a whole", expect=EXPECT[:1]),
]
