"""C01: reads at arbitrary bit addresses return exactly the addressed bits."""
from symhach.h import H

ASSUMPTIONS = ["sizes are at least one bit (an empty read has no defined address)"]


def streams(env, data):
    from io import BytesIO
    from hachoir.stream import StringInputStream, InputIOStream
    if env["stream"] == "string":
        return StringInputStream(data)
    return InputIOStream(BytesIO(data))


def endian_of(env):
    from hachoir.core.endian import BIG_ENDIAN, LITTLE_ENDIAN, MIDDLE_ENDIAN
    return {"be": BIG_ENDIAN, "le": LITTLE_ENDIAN, "me": MIDDLE_ENDIAN}[env["endian"]]


def expected_bits(data, addr, nbits, endian):
    """Reference: the stream as one big number, in the bit order of the endian."""
    n = len(data)
    if endian == "be":
        return (int.from_bytes(data, "big") >> (8 * n - addr - nbits)) & ((1 << nbits) - 1)
    if endian == "le":
        return (int.from_bytes(data, "little") >> addr) & ((1 << nbits) - 1)
    n -= n % 2
    sw = []
    for k in range(0, n, 2):
        sw += [data[k + 1], data[k]]
    return (int.from_bytes(bytes(sw), "big") >> (8 * n - addr - nbits)) & ((1 << nbits) - 1)


def readbits(env):
    from hachoir.stream.input import ReadStreamError
    n = env["n"]
    data = env.bytes("data", n)
    s = streams(env, data)
    addr = env.int("addr", 0, 8 * n + 9)
    nbits = env.int("nbits", 1, env["maxbits"])
    end = addr + nbits
    if env["endian"] == "me":
        end = (end + 15) // 16 * 16
    inside = end <= 8 * n
    try:
        if env["api"] == "bits":
            v = s.readBits(addr, nbits, endian_of(env))
        elif env["api"] == "uint":
            v = s.readInteger(addr, False, nbits, endian_of(env))
        else:
            v = s.readInteger(addr, True, nbits, endian_of(env))
    except ReadStreamError:
        env.check(env.no(inside), "a read inside the stream succeeds")
        return
    env.check(inside, "a read past the end raises")
    if not inside:
        return
    exp = expected_bits(data, addr, nbits, env["endian"])
    if env["api"] == "int":
        exp = env.ite(exp >> (nbits - 1) == 1, exp - (1 << nbits), exp)
    env.observe(addr, nbits, v)
    env.check(v == exp, "value of the bits")


def readbytes(env):
    from hachoir.stream.input import ReadStreamError, InputStreamError
    n = env["n"]
    data = env.bytes("data", n)
    s = streams(env, data)
    addr = env.int("addr", 0, 8 * n + 9)
    nb = env.int("nb", 1, n + 2)
    inside = addr + 8 * nb <= 8 * n
    try:
        v = s.readBytes(addr, nb)
    except ReadStreamError:
        env.check(env.any(env.no(inside), addr % 8 != 0), "a read inside the stream succeeds")
        return
    except InputStreamError:
        env.check(addr % 8 != 0, "only unaligned byte reads are refused")
        return
    env.check(env.all(inside, addr % 8 == 0), "a read past the end or unaligned raises")
    env.observe(v)
    env.check(v == data[addr // 8:addr // 8 + nb], "bytes read")


def cfgs(ns, **kw):
    out = []
    for st in ("string", "io"):
        for e in ("be", "le", "me"):
            for api in ("bits", "uint", "int"):
                for n in ns:
                    if st == "io" and n > 5 and api == "uint":
                        continue
                    out.append(dict(stream=st, endian=e, api=api, n=n, maxbits=8 * n + 3))
    return out


HARNESSES = [
    H("readbits", readbits, cfgs((1, 2, 5, 9)), cfgs(range(1, 17)),
      bounds="streams of n bytes of any content, any bit address 0..8n+9, any size 1..8n+3 bits",
      expect=("value of the bits", "a read past the end raises", "a read inside the stream succeeds")),
    H("readbytes", readbytes,
      [dict(stream=s, n=n) for s in ("string", "io") for n in (1, 2, 8)],
      [dict(stream=s, n=n) for s in ("string", "io") for n in (1, 2, 8, 16, 24)],
      bounds="streams of n bytes, any bit address 0..8n+9, 1..n+2 bytes",
      expect=("bytes read",)),
]
