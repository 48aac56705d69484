"""C06: what is written to an output stream is read back at the address where
it was written."""
from symhach.h import H
from harness.common import make_stream

ASSUMPTIONS = [
    "one byte order per sequence of writes",
    "values fit the size they are written with (hachoir asserts it for bits)",
    "bytes and integers are written at byte addresses (elsewhere hachoir refuses)",
]

OPS = ("bits", "bit", "bytes", "int", "uint", "copybits")


def endian_of(name):
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN
    return BIG_ENDIAN if name == "be" else LITTLE_ENDIAN


def history(env):
    """A history of writes, read back."""
    from io import BytesIO
    from hachoir.stream import OutputStream, StringInputStream
    e = endian_of(env["endian"])
    buf = BytesIO()
    out = OutputStream(buf)
    src = env.bytes("src", env["src"])
    source = StringInputStream(src)
    addr = 0
    written = []
    for k in range(env["ops"]):
        op = env["first"] if k == 0 and env["first"] else env.choice("op%d" % k, OPS)
        if op == "bits" or op == "bit":
            n = 1 if op == "bit" else env.pin(env.int("n%d" % k, 0, env["maxbits"]))
            v = env.int("v%d" % k, 0, (1 << env["maxbits"]) - 1)
            env.assume(v < (1 << n))
            if op == "bit":
                out.writeBit(v == 1, e)
            else:
                out.writeBits(n, v, e)
            if n:
                written.append((addr, n, False, v))
        elif op == "copybits":
            a = env.int("a%d" % k, 0, 8 * len(src) - 1)
            n = env.pin(env.int("n%d" % k, 1, env["maxbits"]))
            env.assume(a + n <= 8 * len(src))
            out.copyBitsFrom(source, a, n, e)
            written.append((addr, n, False, source.readBits(a, n, e)))
        else:
            env.assume(addr % 8 == 0)
            nb = env.pin(env.int("nb%d" % k, 1, env["maxbytes"]))
            n = 8 * nb
            if op == "bytes":
                d = env.bytes("d%d" % k, env["maxbytes"])[:nb]
                out.writeBytes(d)
                written.append((addr, n, False, int.from_bytes(d, "big" if env["endian"] == "be" else "little")))
            else:
                h = 8 * env["maxbytes"]
                if op == "int":
                    v = env.int("v%d" % k, -(1 << h - 1), (1 << h - 1) - 1)
                    env.assume(env.all(v >= -(1 << n - 1), v < (1 << n - 1)))
                else:
                    v = env.int("v%d" % k, 0, (1 << h) - 1)
                    env.assume(v < (1 << n))
                out.writeInteger(v, op == "int", nb, e)
                written.append((addr, n, op == "int", v))
        addr += n
    if addr % 8:
        out.writeBits(8 - addr % 8, 0, e)
    data = buf.getvalue()
    env.observe(data)
    env.check(len(data) == (addr + 7) // 8, "the size of the output is the size of what was written")
    if len(data) != (addr + 7) // 8 or not data:
        return
    back = StringInputStream(data)
    for a, n, signed, v in written:
        env.check(back.readInteger(a, signed, n, e) == v, "the value is read back")


def copybytes(env):
    """Copies of many bytes, across the copy buffer."""
    from io import BytesIO
    from hachoir.stream import OutputStream
    n, w, k = env["n"], env["at"], 4
    win = env.bytes("win", k)
    data = bytes(w) + win + bytes(n - w - k)
    s = make_stream(env["stream"], data)
    a = env.choice("start", env["starts"])
    z = env.choice("count", env["counts"])
    env.assume(a + z <= n)
    buf = BytesIO()
    out = OutputStream(buf)
    out.writeBytes(b"head")
    if env.choice("api", [False, True]):
        out.copyBitsFrom(s, 8 * a, 8 * z, endian_of("be"))
    else:
        out.copyBytesFrom(s, 8 * a, z)
    env.check(buf.getvalue() == b"head" + data[a:a + z], "exactly the bytes asked are copied")


def refused(env):
    """Byte operations inside a byte are refused, not misplaced."""
    from io import BytesIO
    from hachoir.stream import OutputStream, StringInputStream
    from hachoir.stream.output import OutputStreamError
    e = endian_of(env["endian"])
    out = OutputStream(BytesIO())
    n = env.pin(env.int("n", 1, 7))
    v = env.int("v", 0, 127)
    env.assume(v < (1 << n))
    out.writeBits(n, v, e)
    try:
        out.writeBytes(env.bytes("d", 1))
        env.fail("unaligned bytes are refused")
    except NotImplementedError:
        env.check(True, "unaligned bytes are refused")
    a = env.pin(env.int("a", 1, 7))
    try:
        OutputStream(BytesIO()).copyBytesFrom(StringInputStream(b"abc"), a, 1)
        env.fail("unaligned copies are refused")
    except OutputStreamError:
        env.check(True, "unaligned copies are refused")


def readback(env):
    """readBytes() of a string output stream."""
    from hachoir.stream import StringOutputStream
    n = env["n"]
    d = env.bytes("d", n)
    out = StringOutputStream()
    out.writeBytes(d)
    for k in range(2):
        a = env.pin(env.int("a%d" % k, 0, n - 1))
        z = env.pin(env.int("z%d" % k, 1, n))
        env.assume(a + z <= n)
        r = out.readBytes(8 * a, z)
        env.observe(r)
        env.check(r == d[a:a + z], "written bytes are read back")
    out.writeBytes(b"tail")
    env.check(out.readBytes(0, n + 4) == d + b"tail", "reading back does not move the output")


def _hist(tier):
    out = []
    for e in ("be", "le"):
        for o in OPS:
            if tier == "q":
                out.append(dict(endian=e, ops=2, first=o, maxbits=12, maxbytes=3, src=2))
                out.append(dict(endian=e, ops=3, first=o, maxbits=3, maxbytes=1, src=1))
            else:
                out.append(dict(endian=e, ops=2, first=o, maxbits=33, maxbytes=8, src=4))
                out.append(dict(endian=e, ops=3, first=o, maxbits=10, maxbytes=2, src=1))
    return out


HARNESSES = [
    H("history", history, _hist("q"), _hist("t"),
      bounds="every history of 2-3 writes (bit, 0..maxbits bits of any value, 1..maxbytes bytes, signed and unsigned integers, bits copied from any bit address of a src-byte stream)",
      expect=("the value is read back",)),
    H("copybytes", copybytes,
      [dict(stream=s, n=8200, at=a, starts=[0, 1, 4090, 4096], counts=[1, 4095, 4096, 4097, 8192, 8199]) for s in ("string", "pipe") for a in (4092, 8190)],
      bounds="copies of the listed sizes with a symbolic window across the 4096-byte buffer",
      expect=("exactly the bytes asked are copied",)),
    H("refused", refused, [dict(endian=e) for e in ("be", "le")], bounds="every misalignment",
      expect=("unaligned bytes are refused", "unaligned copies are refused")),
    H("readback", readback, [dict(n=3)], [dict(n=8)], bounds="n bytes, two reads at any address and size",
      expect=("written bytes are read back",)),
]
