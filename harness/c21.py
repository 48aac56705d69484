"""C21: texts shown to the user are printable, on one line, and tell when they are cut."""
from symhach.h import H
from harness.common import make_root

PRELOAD = ["hachoir.core.tools", "hachoir.field", "hachoir.parser"]
ASSUMPTIONS = ["C1 control characters (U+0080..U+009F) are not control characters for these functions"]
SPECIAL = {10: 110, 13: 114, 9: 116, 7: 97, 8: 98}


def expected(env, cps, limit, smart, quote=None):
    """The escaped text, as code points.  Characters above limit are escaped."""
    out = []
    n = len(cps)
    esc = []
    for c in cps:
        if env.any(c < 32, c == 127):
            for k, v in SPECIAL.items():
                if c == k:
                    esc.append([92, v])
                    break
            else:
                d = [HEX_OF(env, c // 16), HEX_OF(env, c % 16)]
                esc.append([92, 120] + d)
        elif c > limit:
            if c < 256:
                esc.append([92, 120, HEX_OF(env, c // 16), HEX_OF(env, c % 16)])
            elif c < 65536:
                esc.append([92, 117] + [HEX_OF(env, c // 16 ** k % 16) for k in (3, 2, 1, 0)])
            else:
                esc.append([92, 85] + [HEX_OF(env, c // 16 ** k % 16) for k in (7, 6, 5, 4, 3, 2, 1, 0)])
        elif quote and c == ord(quote):
            esc.append([92, c])
        else:
            esc.append([c])
    for k, e in enumerate(esc):
        if smart and len(e) == 4 and e[1] == 120 and env.all(e[2] == 48, e[3] <= 55):
            # not before a digit, which would be read as a part of it
            nxt = esc[k + 1][0] if k + 1 < n else 0
            if not env.all(48 <= nxt, nxt <= 55):
                e = [92, e[3]]
        out += e
    return out


def HEX_OF(env, v):
    return env.ite(v < 10, 48 + v, 87 + v)


LIMITS = {"ASCII": 127, "latin1": 255, "ISO-8859-1": 255, "UTF-8": 0x10ffff}


def same(env, text, cps):
    if len(text) != len(cps):
        return False
    return env.all(*[ord(text[k]) == c for k, c in enumerate(cps)])


def chars(env, name, n):
    """n characters of the ranges of the configuration, without backslash."""
    s = env.str(name, n, lo=0, hi=0x10ffff)
    for c in s:
        env.assume(env.any(*[env.all(a <= ord(c), ord(c) <= b) for a, b in env["ranges"]]))
    return s


def printable(env):
    from hachoir.core.tools import makePrintable
    s = chars(env, "s", env["n"])
    charset = env["charset"]
    cps = [ord(c) for c in s]
    limit = LIMITS[charset]
    if env["bytes"]:
        limit = 127
        text = makePrintable(s.encode("latin1"), charset, quote=env["quote"], smart=env["smart"])
    else:
        text = makePrintable(s, charset, quote=env["quote"], smart=env["smart"])
    if not cps:
        env.check(text == ("(empty)" if env["quote"] else ""), "the text of nothing")
        return
    for c in text:
        env.check(env.all(ord(c) >= 32, ord(c) != 127), "no control character is shown")
        env.check(ord(c) <= LIMITS[charset], "the text can be written in the charset")
    q = env["quote"]
    if q:
        env.check(env.all(text[0] == q, text[-1] == q), "the text is between quotes")
        want = [ord(q)] + expected(env, cps, limit, env["smart"], q) + [ord(q)]
    else:
        want = expected(env, cps, limit, env["smart"])
    env.check(same(env, text, want), "each character is shown as itself or by its escape sequence")
    env.observe(text)


def unicode_(env):
    from hachoir.core.tools import makeUnicode
    s = chars(env, "s", env["n"])
    cps = [ord(c) for c in s]
    if env["bytes"]:
        text = makeUnicode(s.encode("latin1"))
    else:
        text = makeUnicode(s)
    env.check(same(env, text, expected(env, cps, 0x10ffff, True)), "each character is shown as itself or by its escape sequence")
    env.observe(text)


def newlines(env):
    from hachoir.core.tools import normalizeNewline
    s = env.str("s", env["n"], lo=10, hi=13)
    out = []
    last = False
    for c in s:
        nl = env.any(ord(c) == 10, ord(c) == 13)
        if nl:
            if not last:
                out.append(10)
        else:
            out.append(ord(c))
        last = bool(nl)
    env.check(same(env, normalizeNewline(s), out), "runs of newlines of any system become a newline")
    env.observe(normalizeNewline(s))


def field_text(env):
    from hachoir.core import config
    old = config.max_byte_length, config.max_bit_length, config.max_string_length
    try:
        some_fields(env)
    finally:
        config.max_byte_length, config.max_bit_length, config.max_string_length = old


def some_fields(env):
    from hachoir.core import config
    from hachoir.core.endian import BIG_ENDIAN
    from hachoir.field import RawBytes, Bytes, Character, RawBits, Bits, Bit, String, UInt8, Enum
    from hachoir.core.text_handler import textHandler, displayHandler
    kind = env["kind"]
    n = env["n"]
    data = env.bytes("data", n)
    for c in data:
        env.assume(env.any(*[env.all(a <= c, c <= b) for a, b in env["ranges"]]))
    root = make_root(env, data, BIG_ENDIAN)
    cut = env.cfg.get("cut", 99)
    if kind == "bytes":
        config.max_byte_length = cut
        f = env.choice("class", [RawBytes, Bytes])(root, "f", n)
        if env["read"]:
            env.check(f.value == data, "value of the field")
        body = expected(env, list(data[:cut]), 127, True)
        dots = [40, 46, 46, 46, 41] if n > cut else []
        text = f.display
        quoted = []
        for c in body:
            quoted += [92, 34] if c == 34 else [c]
        env.check(same(env, text, [34] + quoted + dots + [34]), "bytes are shown between quotes, with dots when they are cut")
        env.check(same(env, f.raw_display, [34] + body + dots + [34]), "bytes are shown between quotes, with dots when they are cut")
        env.check(f.value == data, "the value is not cut")
        env.observe(text)
    elif kind == "string":
        config.max_string_length = cut
        f = String(root, "f", n, charset="ISO-8859-1")
        body = expected(env, list(data), 255, True)
        quoted = []
        if len(body) > cut:
            body = body[:cut] + [40, 46, 46, 46, 41]
        for c in body:
            quoted += [92, 34] if c == 34 else [c]
        env.check(same(env, f.display, [34] + quoted + [34]), "strings are shown between quotes, with dots when they are cut")
        env.check(same(env, f.value, list(data)), "the value is not cut")
        env.observe(f.display)
    elif kind == "char":
        f = Character(root, "f")
        env.check(ord(f.value) == data[0], "value of a character")
        body = expected(env, [data[0]], 127, True)
        if body == [39]:
            body = [92, 39]
        env.check(same(env, f.display, [39] + body + [39]), "a character is shown between quotes")
        env.check(f.raw_display == str(data[0]), "the raw display of a character is its code")
        env.observe(f.display)
    elif kind == "bits":
        config.max_bit_length = cut
        bits = env["bits"]
        f = env.choice("class", [RawBits, Bits])(root, "f", bits)
        v = data[0] >> (8 - bits)
        if bits < cut:
            env.check(env.all(f.display == str(v), f.raw_display == str(v)), "bits are shown as a number")
        else:
            env.check(f.display == "<%s size=%u>" % (f.__class__.__name__, bits), "many bits are shown by their number")
        env.check(f.value == v, "value of the bits")
        root2 = make_root(env, data, BIG_ENDIAN)
        b = Bit(root2, "b")
        env.check(b.value == (data[0] >= 128), "value of a bit")
        env.check(b.raw_display == env.ite(data[0] >= 128, "1", "0") if not env.symbolic else
                  env.any(env.all(data[0] >= 128, b.raw_display == "1"), env.all(data[0] < 128, b.raw_display == "0")), "a raw bit is 0 or 1")
        env.observe(f.display)
    elif kind == "handlers":
        names = {3: "three", 7: "seven", 200: "two hundred"}
        f = Enum(UInt8(root, "f"), names)
        v = data[0]
        text = f.display
        for k, name in names.items():
            env.check(env.implies(v == k, text == name), "an enumeration shows the name of the value")
        env.check(env.any(*[v == k for k in names] + [text == str(v)]), "a value without name is shown as it is")
        env.check(env.all(f.value == v, f.raw_display == str(v), f.getEnum() is names), "the value of an enumeration is kept")
        root = make_root(env, data, BIG_ENDIAN)
        g = Enum(UInt8(root, "g"), names, key_func=lambda x: x // 2)
        for k, name in names.items():
            env.check(env.implies(env.any(v == 2 * k, v == 2 * k + 1), g.display == name), "the key of an enumeration is computed")
        root = make_root(env, data, BIG_ENDIAN)
        t = textHandler(UInt8(root, "t"), lambda field: "<%s>" % (field.value + 1))
        env.check(env.all(t.display == "<%s>" % (v + 1), t.value == v, t.raw_display == str(v)), "a text handler only changes the text")
        root = make_root(env, data, BIG_ENDIAN)
        t = displayHandler(UInt8(root, "t"), lambda x: "[%s]" % (x + 2))
        env.check(env.all(t.display == "[%s]" % (v + 2), t.value == v), "a display handler only changes the text")
        env.observe(text)


CONTROL = [(0, 31), (127, 127)]
A = [(0, 8), (48, 57)]
B = [(9, 31), (127, 127), (65, 66)]
C = [(32, 40), (93, 126)]
D = [(128, 255), (1, 2), (48, 49)]
E = [(0xff, 0x101), (0xffff, 0x10001), (0xe9, 0xe9), (5, 5)]


def cfgs(deep):
    out = []
    for n, ranges in [(1, [(0, 91), (93, 0xd7ff), (0xe000, 0x10ffff)]), (2, A), (2, B), (2, C), (2, E), (3, A)] + ([(4, A), (3, B), (3, E), (3, C)] if deep else []):
        for charset in ("ASCII", "latin1", "UTF-8"):
            for quote in (None, '"', "'"):
                if ranges in (A, B) and charset != "ASCII":
                    continue
                out.append(dict(n=n, ranges=ranges, charset=charset, quote=quote, bytes=False, smart=True))
        out.append(dict(n=n, ranges=ranges, charset="ASCII", quote=None, bytes=False, smart=False))
    for n, ranges in [(0, A), (1, [(0, 91), (93, 255)]), (2, D), (2, A)]:
        for quote in (None, '"'):
            out.append(dict(n=n, ranges=ranges, charset="latin1", quote=quote, bytes=True, smart=True))
    return out


def cfgs_fields(deep):
    out = []
    for n, cut, ranges in ((1, 9, [(0, 91), (93, 255)]), (2, 2, D), (3, 2, [(0, 1), (49, 49)]), (3, 1, [(0, 255)]), (4, 2, [(128, 255)]), (3, 2, [(34, 35)]), (2, 1, [(34, 40)])):
        for read in (False, True):
            out.append(dict(kind="bytes", n=n + deep * (cut < n), cut=cut, ranges=ranges, read=read))
    for n, cut, ranges in ((1, 9, [(0, 91), (93, 255)]), (2, 2, [(65, 66), (128, 255)]), (3, 2, [(34, 35), (65, 65)]), (2, 4, [(1, 2), (31, 31)])):
        out.append(dict(kind="string", n=n + deep * (cut < n), cut=cut, ranges=ranges))
    out.append(dict(kind="char", n=1, ranges=[(0, 91), (93, 255)]))
    for bits in (1, 3, 8):
        for cut in (3, 99):
            out.append(dict(kind="bits", n=1, ranges=[(0, 255)], bits=bits, cut=cut))
    out.append(dict(kind="handlers", n=1, ranges=[(0, 255)]))
    return out


HARNESSES = [
    H("printable", printable, cfgs(0), cfgs(1), bounds="texts of 1-3 characters (4 thorough), every character alone", expect=("no control character is shown", "each character is shown as itself or by its escape sequence")),
    H("unicode", unicode_, [dict(n=n, ranges=r, bytes=b) for n, r in ((1, [(0, 91), (93, 255)]), (2, A), (2, B), (3, [(0, 1), (48, 49)])) for b in (False, True)], bounds="texts of 1-3 characters",
      expect=("each character is shown as itself or by its escape sequence",)),
    H("newlines", newlines, [dict(n=n) for n in range(5)], [dict(n=n) for n in range(7)], bounds="texts of 0-4 characters (6 thorough) among LF, VT, FF, CR", expect=("runs of newlines of any system become a newline",)),
    H("fields", field_text, cfgs_fields(0), cfgs_fields(1), bounds="fields of 1-4 bytes, cut after 1-9 bytes",
      expect=("bytes are shown between quotes, with dots when they are cut", "strings are shown between quotes, with dots when they are cut", "a character is shown between quotes", "bits are shown as a number",
              "many bits are shown by their number", "a value without name is shown as it is")),
]
