"""C14: dates and durations are the instant their format encodes."""
from symhach.h import H
from harness.common import quiet_parser
from harness.c01 import endian_of

PRELOAD = ["hachoir.parser", "hachoir.core.tools"]
ASSUMPTIONS = [
    "integer values (some functions also accept floats)",
    "dates and durations in units of 100 ns are computed with floats by hachoir: a tolerance of 4 us + 1/2**50 is given to them (16 us for dates of this century), and any rounding error of floats is considered",
]
TOLERANCE = 2000


def tolerance(us):
    """Microseconds of error of the floats near this value."""
    return us // (1 << 50) + 4


def convert(fn, v):
    try:
        return fn(v), None
    except (ValueError, OverflowError) as err:
        return None, err


def unix(env):
    from hachoir.core.tools import timestampUNIX
    from datetime import datetime, timedelta
    v = env.int("v", -(1 << 33), 1 << 33)
    r, err = convert(timestampUNIX, v)
    ok = env.all(0 <= v, v < (1 << 31))
    env.check((err is None) == ok, "only 31-bit values are dates")
    if err is None:
        env.check(r - datetime(1970, 1, 1) == timedelta(seconds=v), "seconds since 1970")


def mac(env):
    from hachoir.core.tools import timestampMac32
    from datetime import datetime, timedelta
    v = env.int("v", -(1 << 34), 1 << 34)
    r = timestampMac32(v)
    ok = env.all(0 <= v, v < (1 << 32))
    env.check(isinstance(r, datetime) == ok, "only 32-bit values are dates")
    if isinstance(r, datetime):
        env.check(r - datetime(1904, 1, 1) == timedelta(seconds=v), "seconds since 1904")


def ticks(env):
    """Dates in 100 ns units."""
    from hachoir.core import tools
    from datetime import datetime, timedelta
    fn, origin = {
        "win64": (tools.timestampWin64, datetime(1601, 1, 1)),
        "uuid60": (tools.timestampUUID60, datetime(1582, 10, 15)),
    }[env["kind"]]
    v = env.int("v", -5, (1 << env["bits"]) - 1)
    r, err = convert(fn, v)
    last = (datetime(9999, 12, 31, 23, 59, 59, 999999) - origin) // timedelta(microseconds=1)
    us = v // 10
    env.check(env.implies(env.all(0 <= v, us <= last - TOLERANCE), err is None), "all dates up to year 9999 are accepted")
    env.check(env.implies(env.any(0 > v, us > last + TOLERANCE), err is not None), "no date after year 9999 is accepted")
    if err is None:
        d = (r - origin) // timedelta(microseconds=1) - us
        t = tolerance(us)
        env.check(env.all(-t <= d, d <= t), "units of 100 ns since the origin")


def durations(env):
    from hachoir.core import tools
    from datetime import timedelta
    v = env.int("v", -5, (1 << env["bits"]) - 1)
    if env["kind"] == "win64":
        fn, us = tools.durationWin64, v // 10
    else:
        fn, us = tools.durationMillisWin64, v * 1000
    r, err = convert(fn, v)
    last = 999999999 * 86400000000 + 86399999999
    env.check((err is None) == env.all(0 <= v, us <= last), "only durations that fit are accepted")
    if err is None:
        d = r // timedelta(microseconds=1) - us
        t = tolerance(us) if env["kind"] == "win64" else 0
        env.check(env.all(-t <= d, d <= t), "duration in its unit")


def fields(env):
    """Timestamp fields, at any bit address."""
    from hachoir import field as F
    from hachoir.stream import StringInputStream
    from datetime import datetime, timedelta
    kind = env["kind"]
    cls = getattr(F, kind)
    size = {"TimestampUUID60": 60}.get(kind, 32 if kind[-2:] == "32" else 64)
    shift = env["shift"]
    n = (size + shift + 7) // 8
    data = env.bytes("data", n)

    def create(self):
        if shift:
            yield F.RawBits(self, "before", shift)
        yield cls(self, "x")
    p = quiet_parser(endian_of(env), create, StringInputStream(data))
    f = p["x"]
    env.check(f.size == size, "size of the field")
    v = p.stream.readBits(shift, size, endian_of(env))
    r = f.value
    slack = TOLERANCE
    us = timedelta(microseconds=1)
    if kind[:13] == "TimestampUnix":
        ok, origin, want = v < (1 << 31), datetime(1970, 1, 1), v * 1000000
        slack = 0
    elif kind == "TimestampMac32":
        ok, origin, want = True, datetime(1904, 1, 1), v * 1000000
        slack = 0
    elif kind == "TimestampUUID60":
        origin, want = datetime(1582, 10, 15), v // 10
        ok = want <= (datetime.max - origin) // us
    elif kind == "TimestampWin64":
        origin, want = datetime(1601, 1, 1), v // 10
        ok = want <= (datetime.max - origin) // us
    elif kind == "TimedeltaWin64":
        ok, origin, want, slack = True, None, v // 10, 2000
    else:
        origin, want, slack = None, v * 1000, 0
        ok = want <= timedelta.max // us
    if kind in ("TimestampUUID60", "TimestampWin64"):
        last = (datetime.max - origin) // us
        env.assume(env.any(want < last - slack, want > last + slack))
    env.check((r is not None) == ok, "only valid dates have a value")
    if r is not None:
        if origin is not None:
            r = r - origin
        d = r // us - want
        if slack:
            slack = tolerance(want)
        env.check(env.all(-slack <= d, d <= slack), "the date encoded")
    if kind[:9] == "Timestamp":
        env.check(f.__bool__() == (v != 0), "a null date is false")


def msdos(env):
    """MS-DOS dates: 7 parts of the bits of two 16-bit integers."""
    from hachoir import field as F
    from hachoir.stream import StringInputStream
    from datetime import datetime
    data = env.bytes("data", 4)
    cls = getattr(F, env["cls"])

    def create(self):
        yield cls(self, "x")
    p = quiet_parser(endian_of(env), create, StringInputStream(data))
    f = p["x"]
    env.check(f.size == 32, "size of the field")
    a = data[0] + 256 * data[1]
    b = data[2] + 256 * data[3]
    time, date = (b, a) if env["cls"] == "DateTimeMSDOS32" else (a, b)
    second = 2 * (time % 32)
    minute = time // 32 % 64
    hour = time // 2048
    day = date % 32
    month = date // 32 % 16
    year = 1980 + date // 512
    day = env.ite(day == 0, 1, day)
    month = env.ite(month == 0, 1, month)
    leap = env.all(year % 4 == 0, year != 2100)
    last = env.ite(month == 2, env.ite(leap, 29, 28), env.ite(env.any(month == 4, month == 6, month == 9, month == 11), 30, 31))
    ok = env.all(second <= 59, minute <= 59, hour <= 23, month <= 12, day <= last)
    r = f.value
    env.check((r is not None) == ok, "only valid dates have a value")
    if r is not None:
        env.check(env.all(r.second == second, r.minute == minute, r.hour == hour), "the time encoded")
        env.check(env.all(r.day == day, r.month == month, r.year == year), "the date encoded")
        env.check(r.microsecond == 0, "the time encoded")


def duration_text(env):
    """A duration is shown with its three largest units that are not null."""
    from hachoir.core.tools import humanDuration
    from datetime import timedelta
    unit = env["unit"]
    n = env.int("n", 0, 999)
    m = env.int("m", 0, env["m"])
    ms = n * env["unit"] + m
    delta = ms
    if env["td"]:
        delta = timedelta(milliseconds=ms)
    t = humanDuration(delta)
    parts = []
    for name, mod, div in (("years", None, 365 * 86400000), ("days", 365, 86400000), ("hours", 24, 3600000), ("min", 60, 60000), ("sec", 60, 1000), ("ms", 1000, 1)):
        v = ms // div
        if mod is not None:
            v = v % mod
        if v != 0:
            parts.append("%u %s" % (v, name))
    want = " ".join(parts[:3]) or "0 ms"
    env.check(t == want, "the largest units of the duration")


def attributes(env):
    """Unix mode as text."""
    from hachoir.core.tools import humanUnixAttributes
    kinds = {0o140000: "s", 0o120000: "l", 0o100000: "-", 0o060000: "b", 0o040000: "d", 0o020000: "c", 0o010000: "p", 0: "-", 0o030000: "?"}
    kind = env.choice("kind", sorted(kinds))
    perm = env.int("perm", 0, 0o777)
    # one group of permissions varies at a time
    g = env["group"]
    env.assume((perm & ~(7 << 3 * g)) == 0o124 & ~(7 << 3 * g))
    special = env.int("special", 0, 7)
    mode = kind + special * 512 + perm
    t = humanUnixAttributes(mode)
    env.check(t[0] == kinds[kind], "kind of file")
    for k in range(9):
        bit = perm // (1 << (8 - k)) % 2 == 1
        c = t[1 + k]
        if k % 3 == 2:
            who = 2 - k // 3
            s = special // (1 << who) % 2 == 1
            on, off = ("t", "T") if who == 0 else ("s", "S")
            want = env.any(env.all(bit, s, c == on), env.all(bit, env.no(s), c == "x"),
                           env.all(env.no(bit), s, c == off), env.all(env.no(bit), env.no(s), c == "-"))
            env.check(want, "permissions")
        else:
            env.check(env.any(env.all(bit, c == "rwx"[k % 3]), env.all(env.no(bit), c == "-")), "permissions")
    env.check(t[10:12] == " (", "octal mode")
    env.check(int(t[12:-1], 8) == mode, "octal mode")


UNITS = [1, 1000, 60000, 3600000, 86400000, 365 * 86400000]
HARNESSES = [
    H("unix", unix, [{}], bounds="values of 34 bits", expect=("seconds since 1970",)),
    H("mac", mac, [{}], bounds="values of 35 bits", expect=("seconds since 1904",)),
    H("ticks", ticks, [dict(kind="win64", bits=64), dict(kind="uuid60", bits=60), dict(kind="uuid60", bits=64)], bounds="all 64-bit values", expect=("units of 100 ns since the origin",)),
    H("durations", durations, [dict(kind="win64", bits=64), dict(kind="millis", bits=64)], bounds="all 64-bit values", expect=("duration in its unit",)),
    H("fields", fields, [dict(kind=k, endian=e, shift=s) for k in ("TimestampUnix32", "TimestampUnix64", "TimestampMac32", "TimestampUUID60", "TimestampWin64", "TimedeltaWin64", "TimedeltaMillisWin64")
                         for e in ("be", "le") for s in (0, 4)], bounds="all contents, bit shifts 0 and 4", expect=("only valid dates have a value",)),
    H("msdos", msdos, [dict(cls=c, endian="le") for c in ("TimeDateMSDOS32", "DateTimeMSDOS32")], bounds="all 32-bit contents", expect=("the date encoded",)),
    H("duration_text", duration_text, [dict(unit=u, m=3, td=t) for u in UNITS for t in (False, True)], bounds="0-999 of each unit plus 0-3 ms", expect=("the largest units of the duration",)),
    H("attributes", attributes, [dict(group=g) for g in (0, 1, 2)], bounds="all kinds and special bits, one group of permissions varying", expect=("permissions",)),
]
