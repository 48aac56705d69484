"""C20: the dates written in files are read as they are."""
from symhach.h import H

PRELOAD = ["hachoir.metadata", "hachoir.metadata.setter"]
ASSUMPTIONS = [
    "time.strptime() is modelled from the pattern of the _strptime module, in the C locale",
    "time zones of whole hours",
]
MONTHS = ["January", "February", "March", "April", "May", "June", "July", "August", "September", "October", "November", "December"]
DAYS = ["Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun"]
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def digits(env, name, n, lo=0):
    s = env.str(name, n, lo=48, hi=57)
    v = 0
    for c in s:
        v = v * 10 + (ord(c) - 48)
    return s, v


def valid_date(env, y, m, d):
    leap = env.all(y % 4 == 0, env.any(y % 100 != 0, y % 400 == 0))
    last = 0
    for k, n in enumerate(DIM):
        last = env.ite(m == k + 1, n, last)
    last = env.ite(env.all(m == 2, leap), 29, last)
    return env.all(1 <= y, 1 <= m, m <= 12, 1 <= d, d <= last)


def same(env, got, y, m, d, time=None, tz=None):
    """Is got this date?"""
    if got is None:
        return False
    r = [got.year == y, got.month == m, got.day == d]
    if time is None:
        if hasattr(got, "hour"):
            return False
        return env.all(*r)
    if not hasattr(got, "hour"):
        return False
    r += [got.hour == time[0], got.minute == time[1], got.second == time[2], got.microsecond == 0]
    if tz is None:
        if got.tzinfo is not None:
            return False
    else:
        if got.tzinfo is None:
            return False
        from datetime import timedelta
        r.append(got.utcoffset() == timedelta(hours=tz))
    return env.all(*r)


def sep(env, name):
    if not env.cfg.get("seps"):
        return env[name]
    s = env.str(name, 1, lo=32, hi=58)
    env.assume(env.any(*[s == c for c in "-/.: "]))
    return s


def numbers(env):
    """YYYY, YYYY-MM-DD, YYYY-MM-DD HH:MM:SS and MM-DD-YYYY HH:MM:SS."""
    from hachoir.metadata.setter import parseDatetime
    kind = env["kind"]
    env["sizes"]
    n = env["sizes"]
    ys, y = digits(env, "y", 4)
    blank = env.cfg.get("blank", "")
    if kind == "year":
        got = parseDatetime(blank + ys + blank)
        env.check(env.implies(y >= 1, got is not None), "a year is a date")
        if got is not None:
            env.check(env.all(same(env, got[0], y, 1, 1), got[1] == "%u" % y), "a year is read as it is")
        env.observe(got is None)
        return
    ms, m = digits(env, "m", n[0])
    ds, d = digits(env, "d", n[1])
    s1, s2 = sep(env, "s1"), sep(env, "s2")
    time = None
    if kind == "mdy":
        text = ms + s1 + ds + s2 + ys
    else:
        text = ys + s1 + ms + s2 + ds
    ok = valid_date(env, y, m, d)
    if kind != "ymd":
        hs, h = digits(env, "h", n[2])
        mis, mi = digits(env, "mi", 2)
        ss, sec = digits(env, "sec", n[3])
        text = text + " " + hs + ":" + mis + ":" + ss
        time = (h, mi, sec)
        ok = env.all(ok, h <= 23, mi <= 59, sec <= 59)
    got = parseDatetime(blank + text + blank)
    env.check(env.any(env.all(ok, got is not None), env.all(env.no(ok), got is None)), "valid dates are read, others are refused")
    if got is not None:
        env.check(same(env, got, y, m, d, time), "a date is read as it is")
    env.observe(got is None)


def names(env):
    """Thu, 19 Jul 2007 09:03:57 (+0200), Sun Feb 24 15:51:09 2008, February 2007."""
    from hachoir.metadata.setter import parseDatetime
    kind = env["kind"]
    month = env.choice("month", MONTHS) if env.cfg.get("month") is None else MONTHS[env["month"]]
    m = MONTHS.index(month) + 1
    ys, y = digits(env, "y", 4)
    if kind == "month":
        got = parseDatetime(month + " " + ys)
        env.check(env.any(env.all(y >= 1, got is not None), env.all(y < 1, got is None)), "valid dates are read, others are refused")
        if got is not None:
            env.check(same(env, got, y, m, 1), "a month is read as its first day")
        env.observe(got is None)
        return
    day = DAYS[env["day"]]
    ds, d = digits(env, "d", env["n"])
    hs, h = digits(env, "h", 2)
    mis, mi = digits(env, "mi", 2)
    ss, sec = digits(env, "sec", 2)
    time = hs + ":" + mis + ":" + ss
    if kind == "iso":
        text = day + ", " + ds + " " + month[:3] + " " + ys + " " + time
    else:
        text = day + " " + month[:3] + " " + ds + " " + time + " " + ys
    tz = None
    ok = env.all(valid_date(env, y, m, d), h <= 23, mi <= 59, sec <= 59)
    if env["zone"]:
        zs, z = digits(env, "z", 2)
        tz = z if env["zone"] == "+" else -z
        text = text + " " + env["zone"] + zs + "00"
        ok = env.all(ok, z <= 23)
    got = parseDatetime(text)
    env.check(env.any(env.all(ok, got is not None), env.all(env.no(ok), got is None)), "valid dates are read, others are refused")
    if got is not None:
        env.check(same(env, got, y, m, d, (h, mi, sec), tz), "a date is read as it is")
    env.observe(got is None)


def stored(env):
    """A date with a time zone is kept when it is between 1850 and 2030, in UTC."""
    from datetime import datetime, timedelta
    from hachoir.metadata.metadata import RootMetadata
    year = env["year"]
    month = env["month"]
    ds, d = digits(env, "d", 2)
    hs, h = digits(env, "h", 2)
    zs, z = digits(env, "z", 2)
    env.assume(valid_date(env, year, month, d))
    env.assume(h <= 23)
    m = RootMetadata()
    m.creation_date = "Thu, %s %s %u %s:00:00 %s%s00" % (ds, MONTHS[month - 1][:3], year, hs, env["sign"], zs)
    got = m.getValues("creation_date")
    tz = z if env["sign"] == "+" else -z
    hours = (d - 1) * 24 + h - tz
    if (year, month) == (1850, 1):
        ok = hours >= 0
    elif (year, month) == (2030, 12):
        ok = hours <= 30 * 24
    else:
        ok = True
    ok = env.all(ok, z <= 23)
    env.check(env.any(env.all(ok, len(got) == 1), env.all(env.no(ok), len(got) == 0)), "dates from 1850 to 2030 are kept")
    if got:
        env.check(same(env, got[0], year, month, d, (h, 0, 0), tz), "the date is kept as it is")
    env.observe(len(got))


def cfgs_numbers():
    out = [dict(kind="year", sizes=()), dict(kind="year", sizes=(), blank=" ")]
    for kind in ("ymd", "ymdt", "mdy"):
        times = [()] if kind == "ymd" else [(1, 1), (2, 2), (1, 2), (2, 1)]
        for a in (1, 2) if kind == "mdy" else (2,):
            for t in times:
                out.append(dict(kind=kind, sizes=(a, 2) + t, s1="-", s2="-"))
        out.append(dict(kind=kind, sizes=(2, 2) + times[-1], s1="/", s2=".", blank=" "))
    out.append(dict(kind="ymd", sizes=(2, 2), seps=True))
    return out


HARNESSES = [
    H("numbers", numbers, cfgs_numbers(), bounds="all dates and times written with digits, valid or not", expect=("a year is read as it is", "valid dates are read, others are refused", "a date is read as it is")),
    H("names", names, [dict(kind="month", month=k) for k in range(12)]
      + [dict(kind=kind, zone=z, day=(k * 5 + n) % 7, month=k, n=n) for kind in ("iso", "riff") for z in ("", "+", "-") for k in (0, 1, 4, 8, 11) for n in (1, 2)],
      [dict(kind="month", month=k) for k in range(12)]
      + [dict(kind=kind, zone=z, day=(k * 5 + n) % 7, month=k, n=n) for kind in ("iso", "riff") for z in ("", "+", "-") for k in range(12) for n in (1, 2)],
      bounds="all dates and times with the name of the month (5 of the months quick), valid or not, and all time zones of hours", expect=("a month is read as its first day", "a date is read as it is")),
    H("stored", stored, [dict(year=y, month=m, sign=s) for y, m in ((1850, 1), (2030, 12), (2008, 2)) for s in "+-"], bounds="all hours of the first and last months, all time zones", expect=("the date is kept as it is",)),
]
