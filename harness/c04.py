"""C04: a non-seekable input read through the block cache is random access:
every read gives the bytes of the input, or reports that they were discarded."""
from symhach.h import H
from harness.common import PipeInput, pipe_stream

ASSUMPTIONS = ["input.read(n) returns n bytes unless the end of the input is reached",
               "buffer_size and buffer_nb_min are set to small values on the instance, so that the discarding logic is reached within the bounds"]


def cache(env):
    """Reads at any positions, directly on the cache."""
    from hachoir.stream import InputStreamError
    from hachoir.stream.input import InputPipe
    n, bs, keep = env["n"], env["bs"], env["keep"]
    data = env.bytes("data", n)
    sizes = []
    p = InputPipe(PipeInput(data), sizes.append)
    p.buffer_size = bs
    p.buffer_nb_min = keep
    loaded = 0              # blocks fetched so far
    for k in range(env["reads"]):
        if k and env.choice("sequential%d" % k, [False, True]):
            a = pos
        else:
            a = env.pin(env.int("a%d" % k, 0, n + 1))
            p.seek(a)
        z = env.pin(env.int("z%d" % k, 1, env["maxread"]))
        # the pipe fetches every block up to the one of the end of the read
        want = min(n, ((a + z) >> bs) + 1 << bs)
        loaded = max(loaded, (want + (1 << bs) - 1) >> bs)
        try:
            d = p.read(z)
        except InputStreamError:
            # only bytes discarded long ago may be refused
            env.check((a >> bs) < loaded - keep, "recent blocks are readable")
            return
        env.observe(d)
        env.check(d == data[a:a + z], "bytes of the cache")
        pos = a + len(d)


def stream(env):
    """The stream above the cache: content, size, end of file."""
    from hachoir.stream.input import InputStreamError, ReadStreamError
    n = env["n"]
    data = env.bytes("data", n)
    s = pipe_stream(data, env["bs"], env["keep"])
    eof = False
    for k in range(env["reads"]):
        a = env.pin(env.int("a%d" % k, 0, n))
        z = env.pin(env.int("z%d" % k, 1, env["maxread"]))
        try:
            d = s.readBytes(8 * a, z)
        except ReadStreamError:
            env.check(a + z > n, "a read inside the input succeeds")
            env.check(s.size == 8 * n, "size known at the end of the input")
            continue
        except InputStreamError:
            env.check((n + (1 << env["bs"]) - 1 >> env["bs"]) > env["keep"],
                      "small inputs are never discarded")
            return
        env.check(a + z <= n, "a read past the end raises")
        env.check(d == data[a:a + z], "bytes of the stream")
        env.check(s.size is None or s.size == 8 * n, "the size is unknown or right")
        env.observe(d, s.size)


def size_queries(env):
    """sizeGe() agrees with the size of the input, before and after reads."""
    n = env["n"]
    data = env.bytes("data", n)
    s = pipe_stream(data, env["bs"], 64)
    for k in range(env["queries"]):
        q = env.int("q%d" % k, 1, 8 * n + 20)
        r = s.sizeGe(q)
        env.observe(r)
        env.check(bool(r) == (q <= 8 * n), "sizeGe")
    env.check(s.size is None or s.size == 8 * n, "the size is unknown or right")


def _cfg(tier):
    if tier == "q":
        return [dict(n=n, bs=b, keep=k, reads=r, maxread=m) for n, b, k, r, m in
                ((6, 1, 1, 2, 3), (5, 1, 2, 3, 2), (7, 1, 2, 2, 4), (6, 2, 1, 2, 3), (3, 1, 1, 3, 2), (4, 2, 1, 3, 2))]
    return [dict(n=n, bs=b, keep=k, reads=r, maxread=m) for n, b, k, r, m in
            ((8, 1, 1, 3, 3), (8, 1, 2, 3, 3), (8, 1, 3, 3, 3), (9, 2, 1, 3, 3), (9, 2, 2, 3, 3), (4, 1, 1, 4, 2), (6, 1, 2, 4, 2))]


HARNESSES = [
    H("cache", cache, _cfg("q"), _cfg("t"),
      bounds="input of n bytes of any content, blocks of 2**bs bytes, keep blocks kept at least, every history of that many reads of 1..maxread bytes at 0..n+1",
      expect=("bytes of the cache", "recent blocks are readable")),
    H("stream", stream, _cfg("q"), _cfg("t"), bounds="as cache, through the stream API",
      expect=("bytes of the stream", "a read inside the input succeeds", "size known at the end of the input", "small inputs are never discarded")),
    H("size_queries", size_queries, [dict(n=n, bs=1, queries=2) for n in (1, 4, 5)],
      [dict(n=n, bs=b, queries=3) for n in (1, 4, 5, 8) for b in (1, 2)],
      bounds="two or three queries of any size (bits) up to 8n+20", expect=("sizeGe",)),
]
