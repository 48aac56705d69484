"""Symbolic rationals (true division), timedelta and datetime."""
import datetime as _dt
from symhach import core, seqs
from symhach.core import SymInt, land, lor, lnot, ite, bounds, Unsupported

REAL_EPOCH = _dt.datetime(1, 1, 1)
MAX_US = ((_dt.datetime.max - REAL_EPOCH) // _dt.timedelta(microseconds=1))
DAY_US = 86400 * 10 ** 6


class SymFrac:
    """Exact quotient of integers with a concrete positive denominator.

    It stands for the float of a Python true division; only operations whose
    result does not depend on float rounding are modelled, others make the
    path incomplete."""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n = n
        self.d = d

    @property
    def __class__(self):
        return float

    @classmethod
    def of(cls, x):
        if type(x) is SymFrac:
            return x
        if isinstance(x, int):
            return SymFrac(x, 1)
        if isinstance(x, float):
            n, d = x.as_integer_ratio()
            return SymFrac(n, d)
        raise TypeError("unsupported operand")

    def _o(self, o):
        try:
            return SymFrac.of(o)
        except (TypeError, OverflowError, ValueError):
            return None

    def __truediv__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        n = o.n
        if type(n) is SymInt:
            if n == 0:
                raise ZeroDivisionError("division by zero")
            n = core.E.concretize(n, "symbolic divisor")
        if n == 0:
            raise ZeroDivisionError("division by zero")
        a, b = self.n * o.d, self.d * n
        if b < 0:
            a, b = -a, -b
        return SymFrac(a, b)

    def __rtruediv__(self, o):
        return SymFrac.of(o) / self

    def __add__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SymFrac(self.n * o.d + o.n * self.d, self.d * o.d)
    __radd__ = __add__

    def __sub__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SymFrac(self.n * o.d - o.n * self.d, self.d * o.d)

    def __rsub__(self, o):
        return SymFrac.of(o) - self

    def __neg__(self):
        return SymFrac(-self.n, self.d)

    def __mul__(self, o):
        o = self._o(o)
        if o is None:
            return NotImplemented
        return SymFrac(self.n * o.n, self.d * o.d)
    __rmul__ = __mul__

    def __abs__(self):
        return SymFrac(abs(self.n), self.d)

    def _cmp(self, o, op):
        o2 = self._o(o)
        if o2 is None:
            return NotImplemented
        a, b = self.n * o2.d, o2.n * self.d
        return getattr(a if type(a) is SymInt else core.ite(True, a, a), op)(b) \
            if type(a) is SymInt else getattr(int(a), op)(b) if type(b) is int \
            else getattr(b, {"__lt__": "__gt__", "__le__": "__ge__",
                             "__gt__": "__lt__", "__ge__": "__le__",
                             "__eq__": "__eq__", "__ne__": "__ne__"}[op])(a)

    def __lt__(self, o):
        return self._cmp(o, "__lt__")

    def __le__(self, o):
        return self._cmp(o, "__le__")

    def __gt__(self, o):
        return self._cmp(o, "__gt__")

    def __ge__(self, o):
        return self._cmp(o, "__ge__")

    def __eq__(self, o):
        return self._cmp(o, "__eq__")

    def __ne__(self, o):
        return self._cmp(o, "__ne__")

    def __bool__(self):
        return bool(self.n != 0)

    def __hash__(self):
        return hash(float(self))

    def __float__(self):
        return core.E.concretize(self.n, "float") / self.d

    def trunc(self):
        if self.n >= 0:
            return self.n // self.d
        return -((-self.n) // self.d)
    __trunc__ = trunc
    __int__ = None

    def __floor__(self):
        return self.n // self.d

    def __ceil__(self):
        return -((-self.n) // self.d)

    def is_integer(self):
        return self.n % self.d == 0

    def __round__(self, nd=None):
        if nd is None:
            return round_half_even(self.n, self.d)
        return SymFrac(round_half_even(self.n * 10 ** nd, self.d), 10 ** nd)

    def __format__(self, spec):
        return "<symfrac>"

    def __str__(self):
        return "<symfrac>"
    __repr__ = __str__


def round_half_even(n, d):
    q, r = n // d, n % d
    t = 2 * r
    up = lor(t > d, land(t == d, (q & 1) == 1))
    return q + ite(up, 1, 0)


class SymTimedelta:
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    @property
    def __class__(self):
        return _dt.timedelta

    @property
    def days(self):
        return self.us // DAY_US

    @property
    def seconds(self):
        return (self.us % DAY_US) // 10 ** 6

    @property
    def microseconds(self):
        return self.us % 10 ** 6

    def total_seconds(self):
        return SymFrac(self.us, 10 ** 6)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            return mk_td(self.us + td_us(o))
        if isinstance(o, _dt.datetime):
            return mk_dt(dt_us(o) + self.us)
        return NotImplemented

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return mk_td(self.us - td_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.timedelta):
            return mk_td(td_us(o) - self.us)
        if isinstance(o, _dt.datetime):
            return mk_dt(dt_us(o) - self.us)
        return NotImplemented

    def __mul__(self, o):
        if isinstance(o, int):
            return mk_td(self.us * o)
        f = SymFrac.of(o)
        return mk_td(round_half_even(self.us * f.n, f.d))
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, _dt.timedelta):
            return self.us // td_us(o)
        return mk_td(self.us // o)

    def __truediv__(self, o):
        if isinstance(o, _dt.timedelta):
            return SymFrac.of(self.us) / td_us(o)
        if isinstance(o, int):
            return mk_td(round_half_even(self.us, o))
        return NotImplemented

    def __neg__(self):
        return SymTimedelta(-self.us)

    def __abs__(self):
        return SymTimedelta(abs(self.us))

    def __bool__(self):
        return bool(self.us != 0)

    def __hash__(self):
        return hash(self.force())

    def force(self):
        return _dt.timedelta(microseconds=core.E.concretize(self.us, "timedelta"))

    def __str__(self):
        return "<symtimedelta>"
    __repr__ = __str__

    def __format__(self, spec):
        return "<symtimedelta>"


def _cmp(kind, key):
    def make(op):
        def f(self, o):
            if not isinstance(o, kind):
                return NotImplemented
            if kind is _dt.datetime and (self.tzinfo is None) != (o.tzinfo is None):
                if op in ("__eq__", "__ne__"):
                    return op == "__ne__"
                raise TypeError("can't compare offset-naive and offset-aware datetimes")
            if kind is _dt.date and isinstance(o, _dt.datetime):
                if op in ("__eq__", "__ne__"):
                    return op == "__ne__"
                raise TypeError("can't compare datetime.datetime to datetime.date")
            a, b = key(self), key(o)
            if type(a) is not SymInt and type(b) is not SymInt:
                return getattr(a, op)(b)
            if type(a) is SymInt:
                return getattr(a, op)(b)
            return getattr(b, {"__lt__": "__gt__", "__le__": "__ge__",
                               "__gt__": "__lt__", "__ge__": "__le__",
                               "__eq__": "__eq__", "__ne__": "__ne__"}[op])(a)
        return f
    return make


def td_us(x):
    if type(x) is SymTimedelta:
        return x.us
    return x // _dt.timedelta(microseconds=1)


def dt_us(x):
    """Microseconds since year 1, in UTC for an aware date."""
    if type(x) is SymDatetime:
        if x.tzinfo is not None:
            return x.us - td_us(x.utcoffset())
        return x.us
    if x.tzinfo is not None:
        off = x.utcoffset()
        return (x.replace(tzinfo=None) - REAL_EPOCH) // _dt.timedelta(microseconds=1) - td_us(off)
    return (x - REAL_EPOCH) // _dt.timedelta(microseconds=1)


def date_key(x):
    return (x.year * 12 + x.month) * 31 + x.day


MAX_TD_US = 999999999 * DAY_US + DAY_US - 1
MIN_TD_US = -999999999 * DAY_US


def mk_td(us):
    if type(us) is not SymInt:
        return _dt.timedelta(microseconds=us)
    if us.hi > MAX_TD_US or us.lo < MIN_TD_US:
        if lor(us > MAX_TD_US, us < MIN_TD_US):
            raise OverflowError("days=...; must have magnitude <= 999999999")
        us = seqs.narrow(us, MIN_TD_US, MAX_TD_US)
    if type(us) is not SymInt:
        return _dt.timedelta(microseconds=us)
    return SymTimedelta(us)


def mk_dt(us):
    if type(us) is not SymInt:
        return REAL_EPOCH + _dt.timedelta(microseconds=us)
    if us.hi > MAX_US or us.lo < 0:
        if lor(us > MAX_US, us < 0):
            raise OverflowError("date value out of range")
        us = seqs.narrow(us, 0, MAX_US)
    if type(us) is not SymInt:
        return REAL_EPOCH + _dt.timedelta(microseconds=us)
    return SymDatetime(us)


class SymDate:
    __slots__ = ("year", "month", "day")

    def __init__(self, year, month, day):
        self.year = year
        self.month = month
        self.day = day

    @property
    def __class__(self):
        return _dt.date

    def isoformat(self):
        return seqs.sym_percent("%04u-%02u-%02u", (self.year, self.month, self.day), str, repr)

    def force(self):
        c = core.E.concretize
        return _dt.date(*[c(v, "date") if type(v) is SymInt else v for v in (self.year, self.month, self.day)])

    def __hash__(self):
        return hash(self.force())

    def __getattr__(self, name):
        if name.startswith("__") or name in ("tzinfo", "hour"):
            raise AttributeError(name)
        return getattr(self.force(), name)

    def __str__(self):
        return self.isoformat()

    def __repr__(self):
        return "<symdate>"

    def __format__(self, spec):
        return "<symdate>"


class SymDatetime:
    __slots__ = ("us", "_f", "tzinfo")

    def __init__(self, us, fields=None, tzinfo=None):
        self.us = us
        self._f = fields
        self.tzinfo = tzinfo

    def utcoffset(self):
        return None if self.tzinfo is None else self.tzinfo.utcoffset(self)

    @property
    def __class__(self):
        return _dt.datetime

    def _fields(self):
        if self._f is None:
            us = self.us
            self._f = civil(us // DAY_US) + (
                (us % DAY_US) // (3600 * 10 ** 6),
                (us % (3600 * 10 ** 6)) // (60 * 10 ** 6),
                (us % (60 * 10 ** 6)) // 10 ** 6,
                us % 10 ** 6)
        return self._f

    def isoformat(self, sep="T"):
        y, mo, d, h, mi, s, us = self._fields()
        t = seqs.sym_percent("%04u-%02u-%02u" + sep + "%02u:%02u:%02u", (y, mo, d, h, mi, s), str, repr)
        if us != 0:
            t = t + seqs.sym_percent(".%06u", (us,), str, repr)
        if self.tzinfo is not None:
            off = td_us(self.utcoffset())
            if off < 0:
                sign, off = "-", -off
            else:
                sign = "+"
            t = t + seqs.sym_percent(sign + "%02u:%02u", (off // (3600 * 10 ** 6), off // (60 * 10 ** 6) % 60), str, repr)
        return t

    @property
    def year(self):
        return self._fields()[0]

    @property
    def month(self):
        return self._fields()[1]

    @property
    def day(self):
        return self._fields()[2]

    @property
    def hour(self):
        return self._fields()[3]

    @property
    def minute(self):
        return self._fields()[4]

    @property
    def second(self):
        return self._fields()[5]

    @property
    def microsecond(self):
        return self._fields()[6] if self._f else self.us % 10 ** 6

    def replace(self, **kw):
        if set(kw) == {"tzinfo"}:
            return SymDatetime(self.us, self._f, kw["tzinfo"])
        if set(kw) == {"microsecond"} and self.tzinfo is None:
            return mk_dt(self.us - self.microsecond + kw["microsecond"])
        f = dict(zip(("year", "month", "day", "hour", "minute", "second", "microsecond"), self._fields()), tzinfo=self.tzinfo)
        f.update(kw)
        return make_datetime(**f)

    def date(self):
        return SymDate(*self._fields()[:3])

    def astimezone(self, tz):
        if self.tzinfo is None or tz is None:
            raise core.Unsupported("local time zone")
        d = mk_dt(dt_us(self))
        off = tz.utcoffset(d)
        d = mk_dt(dt_us(d) + td_us(off))
        return d.replace(tzinfo=tz)

    def __add__(self, o):
        if isinstance(o, _dt.timedelta):
            if self.tzinfo is not None:
                raise core.Unsupported("arithmetic on aware dates")
            return mk_dt(self.us + td_us(o))
        return NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, _dt.timedelta):
            return mk_dt(self.us - td_us(o))
        if isinstance(o, _dt.datetime):
            return mk_td(self.us - dt_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, _dt.datetime):
            return mk_td(dt_us(o) - self.us)
        return NotImplemented

    def force(self):
        us = core.E.concretize(self.us, "datetime") if type(self.us) is SymInt else self.us
        return (REAL_EPOCH + _dt.timedelta(microseconds=us)).replace(tzinfo=self.tzinfo)

    def __hash__(self):
        return hash(self.force())

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.force(), name)

    def __str__(self):
        return self.isoformat(" ")

    def __repr__(self):
        return "<symdatetime>"

    def __format__(self, spec):
        return "<symdatetime>"


for _op in ("lt", "le", "gt", "ge", "eq", "ne"):
    _n = "__%s__" % _op
    setattr(SymTimedelta, _n, _cmp(_dt.timedelta, td_us)(_n))
    setattr(SymDatetime, _n, _cmp(_dt.datetime, dt_us)(_n))
    setattr(SymDate, _n, _cmp(_dt.date, date_key)(_n))

seqs.OTHER_SYM += [SymFrac, SymTimedelta, SymDatetime, SymDate]

_UNITS = dict(weeks=7 * DAY_US, days=DAY_US, hours=3600 * 10 ** 6,
              minutes=60 * 10 ** 6, seconds=10 ** 6, milliseconds=1000,
              microseconds=1)


def make_timedelta(*args, **kw):
    names = ("days", "seconds", "microseconds", "milliseconds", "minutes",
             "hours", "weeks")
    kw = dict(zip(names, args), **kw)
    if not any(seqs.is_sym(v) for v in kw.values()):
        return _dt.timedelta(**kw)
    total = 0
    frac = None
    for k, v in kw.items():
        u = _UNITS[k]
        if type(v) is SymFrac:
            # timedelta keeps the integral part exactly and rounds the
            # fractional microseconds; the float quotient itself is rounded
            if v.d == 1:
                total = total + v.n * u
            else:
                f = SymFrac(v.n * u, v.d)
                frac = f if frac is None else frac + f
        elif isinstance(v, float):
            f = SymFrac.of(v) * u
            frac = f if frac is None else frac + f
        else:
            total = total + v * u
    if frac is not None:
        us = round_half_even(frac.n, frac.d)
        lo, hi = bounds(frac.n)
        big = max(abs(lo), abs(hi))
        if big >= 1 << 49:
            # The float differs from the exact quotient: any error within
            # four roundings
            e = big // frac.d // (1 << 51) + 2
            limit = abs(us) // (1 << 51) + 2
            us = us + core.E.unknown_int("float!%d!%d" % (frac.n.e.get_id(), frac.d), frac.n.e, -e, e, limit)
        total = total + us
    return mk_td(total)


_CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]
_DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def civil(days):
    """(year, month, day) of a number of days since 0001-01-01."""
    z = days + 306                       # since 0000-03-01
    era = z // 146097
    doe = z - era * 146097
    yoe = (doe - doe // 1460 + doe // 36524 - doe // 146096) // 365
    doy = doe - (yoe * 365 + yoe // 4 - yoe // 100)
    mp = (doy * 5 + 2) // 153
    d = doy - (mp * 153 + 2) // 5 + 1
    late = mp >= 10
    m = mp + ite(late, -9, 3)
    y = yoe + era * 400 + ite(late, 1, 0)
    return seqs.narrow(y, 1, 9999), seqs.narrow(m, 1, 12), seqs.narrow(d, 1, 31)


def is_leap(y):
    return land((y & 3) == 0, lor(y % 100 != 0, y % 400 == 0))


def days_before_year(y):
    y = y - 1
    return y * 365 + (y >> 2) - y // 100 + y // 400


def ymd_days(y, m, d):
    """days since 0001-01-01; fields assumed valid; non-forking"""
    cum = 0
    if type(m) is SymInt:
        cum = _CUM[11]
        for k in range(11, 0, -1):
            cum = ite(m == k, _CUM[k - 1], cum)
    else:
        cum = _CUM[m - 1]
    leapadj = ite(land(m > 2, is_leap(y)), 1, 0)
    return days_before_year(y) + cum + leapadj + d - 1


def days_in_month(y, m):
    if type(m) is SymInt:
        n = 31
        for k in range(11, 0, -1):
            n = ite(m == k, _DIM[k - 1], n)
    else:
        n = _DIM[m - 1]
    return n + ite(land(m == 2, is_leap(y)), 1, 0)


def make_datetime(year, month=None, day=None, hour=0, minute=0, second=0,
                  microsecond=0, tzinfo=None, **kw):
    vals = (year, month, day, hour, minute, second, microsecond)
    if not any(seqs.is_sym(v) for v in vals) and (tzinfo is None or not has_sym_offset(tzinfo)):
        return _dt.datetime(*vals, tzinfo, **kw)
    for v in vals:
        if not isinstance(v, int):
            raise TypeError("an integer is required")

    def rng(v, lo, hi, what):
        if lor(v < lo, v > hi):
            raise ValueError("%s is out of range" % what)
        return seqs.narrow(v, lo, hi)
    year = rng(year, 1, 9999, "year")
    month = rng(month, 1, 12, "month")
    day = rng(day, 1, 31, "day")
    if day > days_in_month(year, month):
        raise ValueError("day is out of range for month")
    hour = rng(hour, 0, 23, "hour")
    minute = rng(minute, 0, 59, "minute")
    second = rng(second, 0, 59, "second")
    microsecond = rng(microsecond, 0, 999999, "microsecond")
    days = ymd_days(year, month, day)
    us = ((days * 24 + hour) * 60 + minute) * 60 + second
    us = us * 10 ** 6 + microsecond
    if type(us) is not SymInt and tzinfo is None:
        return REAL_EPOCH + _dt.timedelta(microseconds=us)
    return SymDatetime(us, (year, month, day, hour, minute, second, microsecond), tzinfo)


def make_date(year, month, day):
    if not any(seqs.is_sym(v) for v in (year, month, day)):
        return _dt.date(year, month, day)
    d = make_datetime(year, month, day)
    return SymDate(d.year, d.month, d.day)


def has_sym_offset(tz):
    return type(tz.utcoffset(None)) is SymTimedelta
