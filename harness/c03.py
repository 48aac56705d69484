"""C03: searching bytes finds the first occurrence, whatever the kind of
stream, the chunking and the address range."""
from symhach.h import H
from harness.common import make_stream

ASSUMPTIONS = ["start and end addresses are multiples of 8 (an unaligned start is refused)",
               "the needle has at least one byte"]


def first(env, data, needle, start, end):
    """(found, byte position) of the first occurrence in data[start:end]"""
    n, m = len(data), len(needle)
    pos = -1
    for p in range(n - m, -1, -1):
        here = env.all(*[data[p + k] == needle[k] for k in range(m)],
                       start <= p, p + m <= end)
        pos = env.ite(here, p, pos)
    return pos


def small(env):
    n, m = env["n"], env["m"]
    data = env.bytes("data", n)
    needle = env.bytes("needle", m)
    s = make_stream(env["stream"], data)
    start = env.int("start", 0, n + 1)
    if env["end"]:
        end = env.int("end", 0, n + 2)
        end_arg = 8 * end
    else:
        end = n
        end_arg = None
    pos = first(env, data, needle, start, env.ite(end < n, end, n))
    if env["length"]:
        inc = env.choice("include", [False, True])
        r = s.searchBytesLength(needle, inc, 8 * start, end_arg)
        exp = pos - start + (m if inc else 0)
    else:
        r = s.searchBytes(needle, 8 * start, end_arg)
        exp = 8 * pos
    env.observe(r)
    if r is None:
        env.check(pos < 0, "an occurrence is not missed")
    else:
        env.check(pos >= 0, "what is found is an occurrence inside the range")
        env.check(r == exp, "the first occurrence is found")


def unaligned(env):
    """A start address inside a byte is refused."""
    from hachoir.stream import InputStreamError
    data = env.bytes("data", 3)
    s = make_stream(env["stream"], data)
    start = env.int("start", 0, 24)
    env.assume(start % 8 != 0)
    try:
        s.searchBytes(b"a", start)
    except InputStreamError:
        env.check(True, "unaligned start refused")
        return
    env.fail("unaligned start refused")


def chunks(env):
    """Needles around the boundaries of the chunks read by the search."""
    n, w, k = env["n"], env["at"], env["w"]
    win = env.bytes("win", k)
    data = bytes(w) + win + bytes(n - w - k)
    needle = bytes(env["needle"])
    s = make_stream(env["stream"], data)
    start = env["start"]
    end = env["end"]
    m = len(needle)
    stop = n if end is None else min(n, end)
    pos = -1
    for p in range(w + k - 1, w - m, -1):
        if p < start or p + m > stop:
            continue
        here = env.all(*[data[p + j] == needle[j] for j in range(m)])
        pos = env.ite(here, p, pos)
    r = s.searchBytes(needle, 8 * start, None if end is None else 8 * end)
    env.observe(r)
    if r is None:
        env.check(pos < 0, "an occurrence is not missed")
    else:
        env.check(r == 8 * pos, "the first occurrence is found")


def _small(tier):
    out = []
    for st in ("string", "io", "pipe", "smallpipe", "sub"):
        for n, m in ((4, 1), (5, 2), (6, 3)) if tier == "q" else ((6, 1), (7, 2), (8, 3), (8, 4)):
            for end in (0, 1):
                for length in (0, 1):
                    if length and m != 2:
                        continue
                    out.append(dict(stream=st, n=n, m=m, end=end, length=length))
    return out


def _chunks(tier):
    out = []
    for st in ("string", "pipe", "io"):
        for n, at, k, needle, start, end in (
                (4100, 4092, 8, [1, 2], 0, None),
                (4110, 4093, 6, [1, 2, 1], 0, None),
                (4110, 4094, 6, [1, 2, 1], 1, 4099),
                (8200, 8188, 8, [1, 1], 0, None),
                (4096, 4091, 5, [1, 2, 3], 0, None),
                (4100, 4093, 6, [1, 0, 1], 0, 4110)):
            if tier == "q" and st == "io" and n == 8200:
                continue
            out.append(dict(stream=st, n=n, at=at, w=k, needle=needle, start=start, end=end))
    if tier != "q":
        for st in ("string", "pipe", "sub"):
            # a needle longer than a third of the chunk
            out.append(dict(stream=st, n=4200, at=4096 - 4, w=8, needle=[1, 2, 1, 2, 1], start=3, end=None))
            out.append(dict(stream=st, n=65600, at=65532, w=8, needle=[1, 2, 1], start=0, end=None))
            out.append(dict(stream=st, n=12300, at=12284, w=8, needle=[1, 2, 1], start=0, end=None))
            # chunk size 3 * len(needle) above 4096
            out.append(dict(stream=st, n=4300, at=4196, w=6,
                            needle=[0] * 1400 + [1, 2], start=2, end=None))
    return out


HARNESSES = [
    H("small", small, _small("q"), _small("t"),
      bounds="any content of n bytes, any needle of m bytes, any aligned start, any aligned end or none",
      expect=("an occurrence is not missed", "the first occurrence is found")),
    H("unaligned", unaligned, [dict(stream="string")], bounds="3 byte stream",
      expect=("unaligned start refused",)),
    H("chunks", chunks, _chunks("q"), _chunks("t"),
      bounds="zero-filled streams of n bytes with a symbolic window of w bytes across the 4096-byte chunk boundaries; needles as listed",
      expect=("an occurrence is not missed", "the first occurrence is found")),
]
