"""C15: string fields: where they end, and the text of their contents."""
from symhach.h import H
from harness.common import quiet_parser
from harness.c01 import endian_of

PRELOAD = ["hachoir.parser", "hachoir.core.tools"]
ASSUMPTIONS = [
    "the codecs of Python are right",
    "strings at byte addresses; UTF-16 and UTF-32 strings with a byte order mark are fixed or C strings",
]
UNIT = {"UTF-16-LE": 2, "UTF-16-BE": 2, "UTF-16": 2, "UTF-32LE": 4, "UTF-32BE": 4, "UTF-32": 4}
BOMS = {"UTF-16": ((b"\xff\xfe", "UTF-16-LE"), (b"\xfe\xff", "UTF-16-BE")),
        "UTF-32": ((b"\xff\xfe\0\0", "UTF-32LE"), (b"\0\0\xfe\xff", "UTF-32BE"))}


def decoded(env, content, charset):
    """Text of the contents."""
    if len(content) == 0:
        return ""
    try:
        return content.decode(charset, "strict")
    except UnicodeDecodeError:
        pass
    if charset == "UTF-16-LE" and len(content) % 2:
        # documented repair of a last character without its second byte
        try:
            content[:-1].decode(charset, "strict")
            return (content + b"\0").decode(charset, "strict")
        except UnicodeDecodeError:
            pass
    return content.decode("ISO-8859-1")


def guessed(env, content):
    """The charset guessed for contents without charset."""
    from hachoir.core.i18n import guessBytesCharset
    return guessBytesCharset(content, default="ISO-8859-1")


def string(env):
    from hachoir import field as F
    kind, charset, n = env["kind"], env["charset"], env["n"]
    before = env["before"]
    data = env.bytes("data", n)
    opts = {}
    if charset:
        opts["charset"] = charset
    if env.cfg.get("strip"):
        opts["strip"] = env["strip"]
    if env.cfg.get("truncate"):
        opts["truncate"] = env["truncate"]
    unit = UNIT.get(charset, 1)
    endian = endian_of(env)
    size = content = None

    # where it is
    pos = before
    if kind in ("C", "UnixLine"):
        end = b"\0" * unit
        if kind == "UnixLine":
            end = b"\0" * (unit - 1) + b"\n"
            if (charset[-2:] == "LE" if unit > 1 else env["endian"] == "le"):
                end = b"\n" + b"\0" * (unit - 1)
        q = pos
        while q + unit <= n:
            if data[q:q + unit] == end:
                content, size = data[pos:q], q + unit - pos
                break
            q += unit
        if env.cfg.get("ended"):
            env.assume(size is not None)
    elif kind == "fixed":
        size = env["size"]
        content = data[pos:pos + size]
    else:
        w = int(kind[6:]) // 8
        v = 0
        for k in range(w):
            v = v * 256 + data[pos + k if env["endian"] == "be" else pos + w - 1 - k]
        # longer strings are cut by the end of the file
        env.assume(v + w + pos <= n)
        v = env.pin(v)
        size = w + v
        content = data[pos + w:pos + size]

    # byte order mark
    real = charset
    if size is not None and charset in BOMS:
        real = None
        if unit == 4:
            for k in range(4):
                env.assume(k >= len(content) or env.any(*[content[k] == x for x in (0, 0xfe, 0xff, 0x41)]))
        for bom, name in BOMS[charset]:
            if content[:unit] == bom:
                real = name
                content = content[unit:]
                break
        if real is None:
            size = None

    def create(self):
        if before:
            yield F.RawBytes(self, "before", before)
        if kind == "fixed":
            yield F.String(self, "x", size_of, **opts)
        elif kind[:6] == "Pascal":
            yield getattr(F, "PascalString" + kind[6:])(self, "x", **opts)
        else:
            yield getattr(F, {"C": "CString", "UnixLine": "UnixLine"}[kind])(self, "x", **opts)
        yield F.RawBytes(self, "after", 1)
    size_of = env.cfg.get("size")
    from hachoir.stream import StringInputStream
    p = quiet_parser(endian, create, StringInputStream(data + b"~"))
    try:
        f = p["x"]
    except F.MissingField:
        env.check(size is None, "the string is found")
        return
    except F.FieldError:
        env.check(size is None, "the string is found")
        return
    if size is None:
        env.fail("a string without its end or mark is refused")
    env.check(f.size == 8 * size, "size of the string")
    env.check(f.address == 8 * before, "address of the string")
    env.check(p["after"].address == 8 * (before + size), "the next field is after the string")
    env.check(f.content_size == len(content), "size of the contents")
    if not charset:
        real = guessed(env, content)
    env.check(f.charset == real, "charset of the string")
    want = decoded(env, content, real)
    if charset is None or unit == 1 and charset != "UTF-8" or not opts.keys() & {"strip", "truncate"}:
        # (the length of a stripped string of a multi-byte charset is the one of its value)
        env.check(f.length == (len(content) if unit == 1 and charset != "UTF-8" else len(want)), "length in characters")
    t = env.cfg.get("truncate")
    if t:
        for k in range(len(want)):
            if want[k:k + 1] == t:
                want = want[:k]
                break
    s = env.cfg.get("strip")
    if s:
        def blank(c):
            return c.isspace() if s is True else env.any(*[c == x for x in s])
        while len(want) and blank(want[:1]):
            want = want[1:]
        while len(want) and blank(want[len(want) - 1:]):
            want = want[:-1]
    env.check(f.value == want, "text of the contents")
    if env["after"]:
        # the raw contents, prefix and suffix included, do not depend on the value
        env.check(f.createValue(human=False) == data[before:before + size], "raw contents")
        env.check(f.value == want, "text of the contents")


def guess(env):
    """The charset guessed decodes the contents without error."""
    from hachoir.core.i18n import guessBytesCharset
    data = env.bytes("data", env["n"])
    c = guessBytesCharset(data, default="ISO-8859-1")
    env.observe(c)
    n = len(data)
    ascii = env.all(*[data[k] < 128 for k in range(n)])
    if n >= 3 and data[:3] == b"\xef\xbb\xbf":
        env.check(c == "UTF-8", "the byte order mark")
    elif n >= 2 and data[:2] == b"\xff\xfe":
        env.check(c == "UTF-16-LE", "the byte order mark")
    elif n >= 2 and data[:2] == b"\xfe\xff":
        env.check(c == "UTF-16-BE", "the byte order mark")
    elif ascii:
        env.check(c == "ASCII", "ASCII is recognised")
    else:
        try:
            data.decode("utf-8")
            utf8 = True
        except UnicodeDecodeError:
            utf8 = False
        env.check((c == "UTF-8") == utf8, "UTF-8 is recognised")
        if not utf8:
            env.check(c in ("ISO-8859-1", "ISO-8859-15", "MacRoman", "ISO-8859-7"), "a charset with one byte per character")
            try:
                data.decode(c)
            except UnicodeDecodeError:
                env.fail("the charset guessed can decode")


def cfgs():
    out = []

    def add(kind, charset, n, before=0, endian="be", **kw):
        out.append(dict(kind=kind, charset=charset, n=n, before=before, endian=endian, after=1, **kw))
    for cs in ("ASCII", "ISO-8859-1", "WINDOWS-1252", "CP037", "MacRoman", "UTF-8", None):
        big = cs in ("UTF-8", None)
        add("C", cs, 3, 1)
        add("UnixLine", cs, 3, 1, "le")
        add("Pascal8", cs, 3 if big else 4, 1, "le")
        add("fixed", cs, 4 if big else 5, 1, size=3)
    for cs in ("UTF-16-LE", "UTF-16-BE"):
        for e in ("be", "le"):
            add("C", cs, 6, 1 if e == "be" else 0, e)
            add("UnixLine", cs, 6, 0, e)
        add("Pascal8", cs, 6, 1)
        add("fixed", cs, 5, 1, size=4)
        add("fixed", cs, 3, 0, size=3)
    for cs in ("UTF-32LE", "UTF-32BE"):
        add("C", cs, 9, 1)
        add("fixed", cs, 8, 0, size=8)
        add("UnixLine", cs, 8, 0, "le" if cs[-2:] == "LE" else "be")
    for cs in ("UTF-16", "UTF-32"):
        u = UNIT[cs]
        add("C", cs, 3 * u, 1)
        add("fixed", cs, 1 + 3 * u, 1, size=2 * u)
        add("fixed", cs, 1 + u, 1, size=u - 1)
        add("Pascal8", cs, 2 + 2 * u, 1)
    for e in ("be", "le"):
        add("Pascal16", "ISO-8859-1", 4, 0, e)
        add("Pascal32", "ISO-8859-1", 6, 0, e)
    for strip in (True, " ", "\0 ", "xy"):
        add("fixed", "ISO-8859-1", 3, 0, size=3, strip=strip)
        add("Pascal8", "ASCII", 4, 0, strip=strip)
        add("C", "ISO-8859-1", 3, 0, strip=strip)
    for t in ("\0", " "):
        add("fixed", "ISO-8859-1", 4, 0, size=4, truncate=t)
        add("fixed", "UTF-16-LE", 6, 0, size=6, truncate=t)
        add("fixed", "ISO-8859-1", 4, 0, size=4, truncate=t, strip=" ")
    return out


HARNESSES = [
    H("string", string, cfgs(), [dict(c, n=c["n"] + (UNIT.get(c["charset"], 1)), **({"size": c["size"] + UNIT.get(c["charset"], 1)} if "size" in c else {})) for c in cfgs()],
      bounds="contents of 1-5 bytes in 8-bit charsets, marks of 4 bytes made of 4 values, 1-3 characters of 16 or 32 bits (1 character more thorough)", expect=("text of the contents", "length in characters")),
    H("guess", guess, [dict(n=n) for n in (1, 2, 3, 4)], [dict(n=n) for n in range(1, 7)], bounds="1-4 bytes (6 thorough)", expect=("UTF-8 is recognised",)),
]
