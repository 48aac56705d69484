"""C13: conversions between integers, raw data and binary text."""
from symhach.h import H

PRELOAD = ["hachoir.core.bits", "hachoir.core.tools", "hachoir.core.text_handler"]
ASSUMPTIONS = []


def endian(env, e=None):
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
    return {"be": BIG_ENDIAN, "le": LITTLE_ENDIAN, "me": MIDDLE_ENDIAN}[e or env["endian"]]


def value(data, e):
    """The integer made of bytes."""
    n = 0
    if e == "le":
        data = [data[len(data) - 1 - i] for i in range(len(data))]
    elif e == "me":
        data = [data[i ^ 1] for i in range(len(data))]
    for c in data:
        n = n * 256 + c
    return n


def raw(env):
    """str2long() and long2raw() are inverse."""
    from hachoir.core import bits
    n = env["n"]
    data = env.bytes("data", n)
    v = bits.str2long(data, endian(env))
    env.check(v == value(data, env["endian"]), "integer of raw data")
    if env["endian"] == "me":
        env.check(bits.strswapmid(data) == bytes([data[i ^ 1] for i in range(n)]), "swapped data")
        env.check(bits.strswapmid(bits.strswapmid(data)) == data, "swapping twice gives the data")
        return
    env.check(bits.long2raw(v, endian(env), n) == data, "raw data of an integer")
    x = env.int("x", 1, 256 ** n - 1)
    r = bits.long2raw(x, endian(env))
    env.check(value(r, env["endian"]) == x, "raw data of an integer")
    env.check(r[0 if env["endian"] == "be" else len(r) - 1] != 0, "the shortest raw data")
    wide = bits.long2raw(x, endian(env), n + 2)
    env.check(len(wide) == n + 2, "raw data of the size asked")
    env.check(value(wide, env["endian"]) == x, "raw data of an integer")


def swaps(env):
    from hachoir.core import bits
    x = env.int("x", 0, 0xffffffff)
    b = [x // 256 ** k % 256 for k in range(4)]
    env.check(bits.swap32(x) == b[0] * 2 ** 24 + b[1] * 2 ** 16 + b[2] * 2 ** 8 + b[3], "swapped 32-bit integer")
    env.check(bits.swap32(bits.swap32(x)) == x, "swapping twice gives the integer")
    y = x % 65536
    env.check(bits.swap16(y) == b[0] * 256 + b[1], "swapped 16-bit integer")
    env.check(bits.swap16(bits.swap16(y)) == y, "swapping twice gives the integer")


def count(env):
    from hachoir.core.bits import countBits
    x = env.int("x", 0, (1 << env["bits"]) - 1)
    c = countBits(x)
    env.check(c >= 1, "at least one bit")
    c = env.pin(c)
    env.check(x < (1 << c), "the integer fits in its bits")
    env.check(env.any(c == 1, x >= (1 << (c - 1))), "no bit is useless")


def text(env):
    """Binary text."""
    from hachoir.core import bits
    size = env["size"]
    x = env.int("x", 0, (1 << size) - 1)
    digits = [x // (1 << k) % 2 for k in range(size)]   # least significant first
    for e in ("be", "le"):
        for classic in (False, True):
            t = bits.long2bin(size, x, endian(env, e), classic)
            # documented: the least important bit first for BIG_ENDIAN, each
            # packet of 8 digits reversed in classic mode
            want = digits if e == "be" else digits[::-1]
            packets = [want[k:k + 8] for k in range(0, size, 8)]
            if classic:
                packets = [p[::-1] for p in packets]
            pos = 0
            for k, p in enumerate(packets):
                if k:
                    env.check(t[pos:pos + 1] == " ", "packets of 8 digits")
                    pos += 1
                for d in p:
                    env.check((t[pos:pos + 1] == "1") == (d == 1), "digits of an integer")
                    env.check(env.any(t[pos:pos + 1] == "1", t[pos:pos + 1] == "0"), "digits of an integer")
                    pos += 1
            env.check(len(t) == pos, "all the digits and no other")
    t = bits.long2bin(size, x, endian(env, "le"))
    env.check(bits.bin2long(t, endian(env, "be")) == x, "reading the digits gives the integer")
    t = bits.long2bin(size, x, endian(env, "be"))
    env.check(bits.bin2long(t, endian(env, "le")) == x, "reading the digits gives the integer")


def bytetext(env):
    from hachoir.core import bits
    c = env.int("c", 0, 255)
    for classic in (True, False):
        t = bits.byte2bin(c, classic)
        env.check(len(t) == 8, "digits of a byte")
        for k in range(8):
            d = c // (1 << (7 - k if classic else k)) % 2
            env.check((t[k] == "1") == (d == 1), "digits of a byte")
            env.check(env.any(t[k] == "1", t[k] == "0"), "digits of a byte")


def strtext(env):
    from hachoir.core import bits
    s = env.str("s", 2, 0, 255)
    env.assume(env.any(ord(s[0]) % 16 == 3, ord(s[0]) == 0x81))
    env.assume(env.any(ord(s[1]) // 16 == 5, ord(s[1]) == 0xfe))
    t = bits.str2bin(s)
    env.check(len(t) == 17 and t[8] == " ", "digits of a string")
    env.check(bits.bin2long(t, endian(env, "be")) == ord(s[0]) * 256 + ord(s[1]), "digits of a string")
    env.check(bits.bin2long(bits.str2bin(s, False), endian(env, "le")) == ord(s[1]) * 256 + ord(s[0]), "digits of a string")


def hexa(env):
    from hachoir.core import bits
    from hachoir.core.text_handler import hexadecimal
    data = env.bytes("data", 2)
    env.check(int(bits.str2hex(data), 16) == data[0] * 256 + data[1], "hexadecimal of a string")
    t = bits.str2hex(data, glue=" ")
    env.check(len(t) == 5 and t[2] == " ", "glue")

    class Field:
        pass
    f = Field()
    f.size = env["size"]
    f.value = env.int("v", 0, (1 << f.size) - 1)
    t = hexadecimal(f)
    env.check(t[:2] == "0x", "hexadecimal of a field")
    env.check(len(t) == 2 + (f.size + 3) // 4, "digits for the size of a field")
    env.check(int(t[2:], 16) == f.value, "hexadecimal of a field")


def align(env):
    from hachoir.core.tools import alignValue, paddingSize
    a = env["align"]
    x = env.int("x", 0, env["top"])
    r = alignValue(x, a)
    env.check(r % a == 0, "a multiple")
    env.check(env.all(x <= r, r < x + a), "the next multiple")
    env.check(x + paddingSize(x, a) == r, "padding to the next multiple")


def search(env):
    from hachoir.core.tools import binarySearch, lowerBound
    n = env["n"]
    seq = [env.int("x%d" % k, 0, 15) for k in range(n)]
    for k in range(n - 1):
        env.assume(seq[k] <= seq[k + 1])
    v = env.int("v", 0, 15)
    r = binarySearch(seq, lambda x: v - x)
    if r is None:
        env.check(env.all(*[x != v for x in seq]), "a value that is there is found")
    else:
        env.check(seq[r] == v, "the index of the value")
    r = lowerBound(seq, lambda x: x < v)
    for k in range(n):
        env.check((k < r) == (seq[k] < v), "the first value not smaller")
    env.check(env.all(0 <= r, r <= n), "the first value not smaller")


HARNESSES = [
    H("raw", raw, [dict(endian=e, n=n) for e in ("be", "le") for n in (1, 2, 3, 4)] + [dict(endian="me", n=n) for n in (2, 4, 6)],
      [dict(endian=e, n=n) for e in ("be", "le") for n in (1, 2, 3, 4, 5, 8, 9)] + [dict(endian="me", n=n) for n in (2, 4, 6, 8)],
      bounds="1-4 bytes (9 thorough)", expect=("integer of raw data",)),
    H("swaps", swaps, [{}], bounds="all 16 and 32-bit integers", expect=("swapped 32-bit integer",)),
    H("count", count, [dict(bits=66)], [dict(bits=130)], bounds="integers up to 66 bits (130 thorough)", expect=("no bit is useless",)),
    H("text", text, [dict(size=z) for z in (1, 4, 8, 9)], [dict(size=z) for z in (1, 7, 8, 9, 11)], bounds="up to 9 digits (11 thorough)", expect=("digits of an integer",)),
    H("bytetext", bytetext, [{}], bounds="all bytes", expect=("digits of a byte",)),
    H("strtext", strtext, [{}], bounds="strings of 2 characters, 17 values each", expect=("digits of a string",)),
    H("hexa", hexa, [dict(size=z) for z in (1, 4, 5, 8, 12, 16)], bounds="2 bytes, fields of 1-16 bits", expect=("hexadecimal of a field",)),
    H("align", align, [dict(align=a, top=1 << (40 if a & (a - 1) == 0 else 12)) for a in (1, 2, 3, 4, 7, 8, 12, 512, 4096)], bounds="values to 2**40, or 2**12 when the alignment is not a power of 2; 9 alignments", expect=("the next multiple",)),
    H("search", search, [dict(n=n) for n in (0, 1, 2, 3, 4)], [dict(n=n) for n in range(8)], bounds="sorted sequences of up to 4 values (7 thorough)", expect=("the first value not smaller",)),
]
