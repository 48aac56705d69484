"""Symbolic byte strings and text: concrete length per path, elements that are
ints or SymInts."""
import codecs
import functools
import re as _re
import z3

from symhach import core
from symhach.core import (SymInt, SymBool, mkbool, land, lor, lnot, ite,
                          bounds, Unsupported, is_int)

OTHER_SYM = []     # further proxy types (times.py)


def is_sym(x):
    t = type(x)
    return t is SymInt or t is SymBytes or t is SymStr or t is SymFmt \
        or t is SymBool or t is SymByteArray or t in OTHER_SYM


def idx(x):
    """Concrete index (forks on the values of a symbolic one)."""
    if x is None:
        return None
    if type(x) is SymInt or type(x) is SymBool:
        return core.E.concretize(x if type(x) is SymInt else x.as_int(), "index")
    return x.__index__()


def in_ranges(x, ranges):
    """x (int or SymInt) is in one of the [lo, hi] ranges; non-forking."""
    cs = []
    for lo, hi in ranges:
        if lo == hi:
            c = (x == lo)
        else:
            c = land(x >= lo, x <= hi)
        if c is True:
            return True
        if c is not False:
            cs.append(c)
    return lor(*cs) if cs else False


@functools.lru_cache(None)
def char_ranges(pred):
    out = []
    start = None
    for c in range(0x110000):
        if pred(chr(c)):
            if start is None:
                start = c
        elif start is not None:
            out.append((start, c - 1))
            start = None
    if start is not None:
        out.append((start, 0x10ffff))
    return tuple(out)


def clip(ranges, x):
    lo, hi = bounds(x)
    return [(a, b) for a, b in ranges if not (b < lo or a > hi)]


def lut(x, table):
    """table[x] as a non-forking term; table maps 0..n-1 to ints."""
    if not isinstance(x, SymInt) or type(x) is int:
        return table[x]
    # runs of slope 1 or 0
    runs = []
    for k in range(max(0, x.lo), min(x.hi, len(table) - 1) + 1):
        v = table[k]
        if runs:
            r = runs[-1]
            if r[3] != 0 and v - k == r[2] - r[0]:
                r[1], r[3] = k, 1
                continue
            if r[3] != 1 and v == r[2]:
                r[1], r[3] = k, 0
                continue
        runs.append([k, k, v, None])

    def value(r):
        if r[3] == 1:
            return x + (r[2] - r[0])
        return r[2]
    out = value(runs[-1])
    for r in reversed(runs[:-1]):
        out = ite(x <= r[1], value(r), out)
    return out


def mux(els, i):
    """els[i] for an in-range symbolic index; non-forking."""
    lo, hi = max(0, i.lo), min(len(els) - 1, i.hi)
    r = els[hi]
    for k in range(hi - 1, lo - 1, -1):
        r = ite(i <= k, els[k], r) if False else ite(i == k, els[k], r)
    return r


class SymSeq:
    __slots__ = ("els",)
    concrete_type = None

    def __init__(self, els):
        self.els = els if type(els) is list else list(els)

    # to be overridden
    @classmethod
    def lift(cls, x):
        raise NotImplementedError

    @classmethod
    def mk(cls, els):
        raise NotImplementedError

    def wrap(self, el):
        return el

    def __len__(self):
        return len(self.els)

    def __bool__(self):
        return bool(self.els)

    def __iter__(self):
        for e in self.els:
            yield self.wrap(e)

    def __getitem__(self, i):
        if isinstance(i, slice):
            sl = slice(idx(i.start), idx(i.stop), idx(i.step))
            return self.mk(self.els[sl])
        if type(i) is SymInt:
            n = len(self.els)
            if i.lo < 0 and i < 0:
                i = i + n
                if i < 0:
                    raise IndexError("index out of range")
            if i >= n:
                raise IndexError("index out of range")
            if type(i) is SymInt:
                return self.wrap(mux(self.els, i))
        return self.wrap(self.els[i])

    def _coerce(self, o):
        l = self.lift(o)
        return l

    def __add__(self, o):
        l = self.lift(o)
        if l is None:
            return NotImplemented
        return self.mk(self.els + l)

    def __radd__(self, o):
        l = self.lift(o)
        if l is None:
            return NotImplemented
        return self.mk(l + self.els)

    def __mul__(self, n):
        return self.mk(self.els * idx(n))
    __rmul__ = __mul__

    def __eq__(self, o):
        l = self.lift(o)
        if l is None:
            return NotImplemented
        if len(l) != len(self.els):
            return False
        return eq_lists(self.els, l)

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def _cmp(self, o):
        """(lt, eq) non-forking lexicographic comparison"""
        l = self.lift(o)
        if l is None:
            raise TypeError("unorderable")
        n = min(len(l), len(self.els))
        lt = len(self.els) < len(l)
        eq = len(self.els) == len(l)
        for k in range(n - 1, -1, -1):
            a, b = self.els[k], l[k]
            e = (a == b)
            lt = lor(a < b, land(e, lt))
            eq = land(e, eq)
        return lt, eq

    def __lt__(self, o):
        return self._cmp(o)[0]

    def __le__(self, o):
        a, b = self._cmp(o)
        return lor(a, b)

    def __gt__(self, o):
        return lnot(self.__le__(o))

    def __ge__(self, o):
        return lnot(self.__lt__(o))

    def force(self):
        els = [core.E.concretize(e, "force") if type(e) is SymInt else e
               for e in self.els]
        core.E.stats["forced"] += 1
        return self.mk(els)

    def __hash__(self):
        return hash(self.force())

    def needle(self, x):
        if isinstance(x, int):
            return [x]
        l = self.lift(x)
        if l is None:
            raise TypeError("a %s-like object is required, not %r"
                            % (self.concrete_type.__name__, type(x).__name__))
        return l

    def __contains__(self, x):
        return bool(self.contains(x))

    def contains(self, x):
        l = self.needle(x)
        n = len(l)
        if n == 0:
            return True
        cs = []
        for p in range(len(self.els) - n + 1):
            c = eq_lists(self.els[p:p + n], l)
            if c is True:
                return True
            if c is not False:
                cs.append(c)
        return lor(*cs) if cs else False

    def _range(self, start, end):
        s, e, _ = slice(idx(start), idx(end)).indices(len(self.els))
        return s, e

    def find(self, x, start=None, end=None):
        l = self.needle(x)
        n = len(l)
        if start is not None and idx(start) > len(self.els):
            return -1
        s, e = self._range(start, end)
        for p in range(s, e - n + 1):
            c = eq_lists(self.els[p:p + n], l) if n else True
            if c is False:
                continue
            if c is True or c:
                return p
        return -1

    def rfind(self, x, start=None, end=None):
        l = self.needle(x)
        n = len(l)
        s, e = self._range(start, end)
        for p in range(e - n, s - 1, -1):
            c = eq_lists(self.els[p:p + n], l) if n else True
            if c is False:
                continue
            if c is True or c:
                return p
        return -1

    def index(self, x, start=None, end=None):
        p = self.find(x, start, end)
        if p < 0:
            raise ValueError("substring not found")
        return p

    def rindex(self, x, start=None, end=None):
        p = self.rfind(x, start, end)
        if p < 0:
            raise ValueError("substring not found")
        return p

    def count(self, x, start=None, end=None):
        l = self.needle(x)
        s, e = self._range(start, end)
        if not l:
            return max(0, e - s + 1)
        n = 0
        p = s
        while p <= e - len(l):
            c = eq_lists(self.els[p:p + len(l)], l)
            if c is True or (c is not False and c):
                n += 1
                p += len(l)
            else:
                p += 1
        return n

    def startswith(self, x, start=None, end=None):
        if isinstance(x, tuple):
            return lor(*[self.startswith(y, start, end) for y in x]) if x else False
        l = self.needle(x)
        s, e = self._range(start, end)
        if len(l) > e - s:
            return False
        return eq_lists(self.els[s:s + len(l)], l)

    def endswith(self, x, start=None, end=None):
        if isinstance(x, tuple):
            return lor(*[self.endswith(y, start, end) for y in x]) if x else False
        l = self.needle(x)
        s, e = self._range(start, end)
        if len(l) > e - s:
            return False
        return eq_lists(self.els[e - len(l):e], l)

    def _strip_test(self, chars):
        if chars is None:
            ranges = self.space_ranges()
            return lambda el: in_ranges(el, clip(ranges, el))
        l = self.needle(chars)
        return lambda el: lor(*[el == c for c in l]) if l else False

    def lstrip(self, chars=None):
        t = self._strip_test(chars)
        p = 0
        while p < len(self.els):
            c = t(self.els[p])
            if c is False or (c is not True and not c):
                break
            p += 1
        return self.mk(self.els[p:])

    def rstrip(self, chars=None):
        t = self._strip_test(chars)
        p = len(self.els)
        while p > 0:
            c = t(self.els[p - 1])
            if c is False or (c is not True and not c):
                break
            p -= 1
        return self.mk(self.els[:p])

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def split(self, sep=None, maxsplit=-1):
        out = []
        if sep is None:
            t = self._strip_test(None)
            cur = []
            started = False
            els = self.els
            p = 0
            while p < len(els):
                c = t(els[p])
                sp = c if type(c) is bool else bool(c)
                if sp:
                    if started:
                        out.append(self.mk(cur))
                        cur, started = [], False
                    p += 1
                    continue
                if not started and maxsplit >= 0 and len(out) >= maxsplit:
                    rest = self.mk(els[p:])
                    out.append(rest.rstrip())
                    return out
                started = True
                cur.append(els[p])
                p += 1
            if started:
                out.append(self.mk(cur))
            return out
        l = self.needle(sep)
        if not l:
            raise ValueError("empty separator")
        p = 0
        start = 0
        while p <= len(self.els) - len(l):
            if maxsplit >= 0 and len(out) >= maxsplit:
                break
            c = eq_lists(self.els[p:p + len(l)], l)
            if c is True or (c is not False and c):
                out.append(self.mk(self.els[start:p]))
                p += len(l)
                start = p
            else:
                p += 1
        out.append(self.mk(self.els[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if maxsplit < 0:
            return self.split(sep)
        return self.force().rsplit(sep, maxsplit)

    def splitlines(self, keepends=False):
        return self.force().splitlines(keepends)

    def partition(self, sep):
        p = self.find(sep)
        n = len(self.needle(sep))
        if p < 0:
            return self.mk(self.els), self.mk([]), self.mk([])
        return self.mk(self.els[:p]), self.mk(self.els[p:p + n]), \
            self.mk(self.els[p + n:])

    def rpartition(self, sep):
        p = self.rfind(sep)
        n = len(self.needle(sep))
        if p < 0:
            return self.mk([]), self.mk([]), self.mk(self.els)
        return self.mk(self.els[:p]), self.mk(self.els[p:p + n]), \
            self.mk(self.els[p + n:])

    def replace(self, old, new, count=-1):
        l, n = self.needle(old), self.needle(new)
        if not l:
            return self.force().replace(old, new, count)
        out = []
        p = 0
        els = self.els
        k = 0
        while p < len(els):
            if p + len(l) <= len(els) and (count < 0 or k < count):
                c = eq_lists(els[p:p + len(l)], l)
                if c is True or (c is not False and c):
                    out += n
                    p += len(l)
                    k += 1
                    continue
            out.append(els[p])
            p += 1
        return self.mk(out)

    def join(self, items):
        out = []
        for k, it in enumerate(items):
            if k:
                out += self.els
            l = self.lift(it)
            if l is None:
                raise TypeError("sequence item %d: unexpected %r" % (k, type(it).__name__))
            out += l
        return self.mk(out)

    def _all(self, pred):
        ranges = char_ranges(pred)
        if not self.els:
            return False
        return land(*[in_ranges(e, clip(ranges, e)) for e in self.els])

    def ljust(self, width, fill=None):
        n = idx(width) - len(self.els)
        f = self.needle(fill) if fill is not None else [32]
        return self.mk(self.els + f * n)

    def rjust(self, width, fill=None):
        n = idx(width) - len(self.els)
        f = self.needle(fill) if fill is not None else [32]
        return self.mk(f * n + self.els)

    def zfill(self, width):
        return self.force().zfill(width)

    def removeprefix(self, p):
        r = self.startswith(p)
        if r:
            return self.mk(self.els[len(self.needle(p)):])
        return self.mk(self.els)

    def removesuffix(self, p):
        l = self.needle(p)
        if l and self.endswith(p):
            return self.mk(self.els[:-len(l)])
        return self.mk(self.els)

    def __repr__(self):
        return "<sym %s[%d]>" % (self.concrete_type.__name__, len(self.els))

    def __getattr__(self, name):
        # any other str/bytes method: on concrete contents
        if name.startswith("__") or not hasattr(self.concrete_type, name):
            raise AttributeError(name)
        f = self.force()
        return getattr(f, name)


def eq_lists(a, b):
    cs = []
    for x, y in zip(a, b):
        if type(x) is int and type(y) is int:
            if x != y:
                return False
            continue
        c = (x == y)
        if c is False:
            return False
        if c is not True:
            cs.append(c)
    return land(*cs) if cs else True


class SymBytes(SymSeq):
    __slots__ = ()
    concrete_type = bytes

    @property
    def __class__(self):
        return bytes

    @classmethod
    def lift(cls, x):
        t = type(x)
        if t is SymBytes or t is SymByteArray:
            return list(x.els)
        if isinstance(x, (bytes, bytearray, memoryview)):
            return list(x)
        return None

    @classmethod
    def mk(cls, els):
        for e in els:
            if type(e) is not int:
                return SymBytes(els)
        return bytes(els)

    @staticmethod
    def space_ranges():
        return ((9, 13), (32, 32))

    def decode(self, encoding="utf-8", errors="strict"):
        return sym_decode(self.els, encoding, errors)

    def hex(self, *a):
        if a:
            return self.force().hex(*a)
        out = []
        for e in self.els:
            out += hex_digits(e, 2, False)
        return SymStr.mk(out)

    def __bytes__(self):
        return bytes(self.force())

    def lower(self):
        return self.mk([ite(land(e >= 65, e <= 90), e + 32, e) for e in self.els])

    def upper(self):
        return self.mk([ite(land(e >= 97, e <= 122), e - 32, e) for e in self.els])

    def isdigit(self):
        return land(*[land(e >= 48, e <= 57) for e in self.els]) if self.els else False

    def translate(self, table, delete=b''):
        if delete:
            return self.force().translate(table, delete)
        return self.mk([lut(e, table) for e in self.els])

    def tobytes(self):
        return self


class SymByteArray(SymBytes):
    __slots__ = ()

    @property
    def __class__(self):
        return bytearray

    @classmethod
    def mk(cls, els):
        return SymByteArray(list(els))

    def append(self, x):
        self.els.append(check_byte(x))

    def extend(self, x):
        l = self.lift(x)
        if l is None:
            l = [check_byte(y) for y in x]
        self.els.extend(l)

    def __iadd__(self, x):
        self.extend(x)
        return self

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            sl = slice(idx(i.start), idx(i.stop), idx(i.step))
            self.els[sl] = self.lift(v)
        else:
            self.els[idx(i)] = check_byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            i = slice(idx(i.start), idx(i.stop), idx(i.step))
        del self.els[i]

    def clear(self):
        del self.els[:]

    def pop(self, i=-1):
        return self.els.pop(i)

    def reverse(self):
        self.els.reverse()


def check_byte(x):
    if type(x) is SymBool:
        x = x.as_int()
    if not isinstance(x, int):
        raise TypeError("%r object cannot be interpreted as an integer"
                        % type(x).__name__)
    if type(x) is SymInt:
        if x.lo < 0 and x < 0 or x.hi > 255 and x > 255:
            raise ValueError("bytes must be in range(0, 256)")
        if x.lo < 0 or x.hi > 255:
            x = core.mk(z3.Concat(z3.BitVecVal(0, 1), z3.Extract(7, 0, core.term(x, max(8, x.e.size())))), 0, 255)
        return x
    x = x.__index__()
    if not 0 <= x <= 255:
        raise ValueError("bytes must be in range(0, 256)")
    return x


class SymStr(SymSeq):
    __slots__ = ()
    concrete_type = str

    @property
    def __class__(self):
        return str

    @classmethod
    def lift(cls, x):
        t = type(x)
        if t is SymStr:
            return list(x.els)
        if t is SymFmt:
            return cls.lift(x.sym())
        if isinstance(x, str):
            return [ord(c) for c in x]
        return None

    @classmethod
    def mk(cls, els):
        for e in els:
            if type(e) is not int:
                return SymStr(els)
        return ''.join(map(chr, els))

    def wrap(self, el):
        if type(el) is int:
            return chr(el)
        return SymStr([el])

    def needle(self, x):
        l = self.lift(x)
        if l is None:
            raise TypeError("must be str, not %s" % type(x).__name__)
        return l

    @staticmethod
    def space_ranges():
        return char_ranges(str.isspace)

    def isdigit(self):
        return self._all(str.isdigit)

    def isdecimal(self):
        return self._all(str.isdecimal)

    def isalpha(self):
        return self._all(str.isalpha)

    def isalnum(self):
        return self._all(str.isalnum)

    def isspace(self):
        return self._all(str.isspace)

    def isprintable(self):
        return self._all(str.isprintable) if self.els else True

    def isascii(self):
        return land(*[e < 128 for e in self.els]) if self.els else True

    def lower(self):
        return self._case(str.lower)

    def upper(self):
        return self._case(str.upper)

    def _case(self, f):
        out = []
        for e in self.els:
            if type(e) is int:
                out += [ord(c) for c in f(chr(e))]
            elif e.hi < 128 or e < 128:
                # the branch above narrows the path, not the interval
                lo, d = (65, 32) if f is str.lower else (97, -32)
                out.append(ite(land(e >= lo, e <= lo + 25), e + d, e))
            else:
                out += [ord(c) for c in f(chr(core.E.concretize(e, "case")))]
        return self.mk(out)

    def encode(self, encoding="utf-8", errors="strict"):
        return sym_encode(self.els, encoding, errors)

    def format(self, *a, **k):
        return self.force().format(*a, **k)

    def __mod__(self, args):
        return self.force() % args

    def __str__(self):
        return str(self.force())

    def __format__(self, spec):
        return format(self.force(), spec)

    def translate(self, table):
        out = []
        for e in self.els:
            if type(e) is not int:
                r = None
                for k in table:
                    if type(k) is int and (e == k):
                        r = table[k]
                        break
                else:
                    out.append(e)
                    continue
            else:
                if e not in table:
                    out.append(e)
                    continue
                r = table[e]
            if r is None:
                continue
            if isinstance(r, int):
                out.append(r)
            else:
                out += self.lift(r)
        return self.mk(out)


# -- numbers to text --------------------------------------------------------

def repr_els(x):
    """code points of repr() of SymBytes or SymStr; forks on their classes"""
    text = type(x) is SymStr
    if type(x) is SymByteArray:
        return [ord(c) for c in repr(bytearray(x.force()))]
    if text and not all(type(e) is int or e < 127 for e in x.els):
        return [ord(c) for c in repr(x.force())]
    q = 39
    if lor(*[e == 39 for e in x.els]) and not lor(*[e == 34 for e in x.els]):
        q = 34
    out = [q] if text else [98, q]
    for e in x.els:
        if lor(e == 92, e == q):
            out += [92, e]
        elif land(e >= 32, e < 127):
            out.append(e)
        elif e == 9:
            out += [92, 116]
        elif e == 10:
            out += [92, 110]
        elif e == 13:
            out += [92, 114]
        elif text and type(e) is int and e >= 127:
            out += [ord(c) for c in repr(chr(e))[1:-1]]
        else:
            out += [92, 120] + hex_digits(e & 255, 2, False)
    return out + [q]


def hex_digits(x, width, upper):
    """code points of the hexadecimal digits of 0 <= x < 16**width"""
    a = (65 if upper else 97) - 10
    out = []
    for k in range(width - 1, -1, -1):
        d = (x >> (4 * k)) & 15
        out.append(ite(d < 10, d + 48, d + a))
    return out


def radix_digits(x, base, upper=False):
    """code points of non-negative x in the base; forks on the digit count"""
    n = 1
    while x >= base ** n:
        n += 1
    a = (65 if upper else 97) - 10
    out = []
    for k in range(n):
        x, d = (x // base, x % base) if k < n - 1 else (0, x)
        if base <= 10:
            out.append(d + 48)
        else:
            out.append(ite(d < 10, d + 48, d + a))
    return out[::-1]


def format_int(x, conv, flags="", width=0, prec=None):
    """code points of %<flags><width>.<prec><conv> for an int / SymInt"""
    if type(x) is SymBool:
        x = x.as_int()
    base = {"d": 10, "i": 10, "u": 10, "x": 16, "X": 16, "o": 8, "b": 2}[conv]
    neg = False
    if x < 0:
        neg = True
        x = -x
    up = conv == "X"
    if base == 16 and width and "0" in flags and not neg and \
            "#" not in flags and "+" not in flags and " " not in flags and \
            bounds(x)[1] < 16 ** width and bounds(x)[0] >= 0 and prec is None:
        return hex_digits(x, width, up)
    ds = radix_digits(x, base, up)
    if prec is not None and len(ds) < prec:
        ds = [48] * (prec - len(ds)) + ds
    sign = []
    if neg:
        sign = [45]
    elif "+" in flags:
        sign = [43]
    elif " " in flags:
        sign = [32]
    if "#" in flags and base in (16, 8, 2):
        sign = sign + [48, {16: 88 if up else 120, 8: 111, 2: 98}[base]]
    n = len(sign) + len(ds)
    if n < width:
        if "-" in flags:
            return sign + ds + [32] * (width - n)
        if "0" in flags:
            return sign + [48] * (width - n) + ds
        return [32] * (width - n) + sign + ds
    return sign + ds


class SymFmt:
    """Text formatted from symbolic values; rendered only when inspected."""
    __slots__ = ("parts", "_sym")

    def __init__(self, parts):
        # parts: real str | SymStr | SymFmt | ('d', x, flags, width, prec)
        self.parts = parts
        self._sym = None

    @property
    def __class__(self):
        return str

    def sym(self):
        # not cached across paths: the object lives on one path only
        if self._sym is None:
            els = []
            for p in self.parts:
                if type(p) is tuple:
                    conv, x, flags, width, prec = p
                    if conv == "s" or conv == "r":
                        l = SymStr.lift(x)
                        if prec is not None:
                            l = l[:prec]
                        if len(l) < width:
                            pad = [32] * (width - len(l))
                            l = l + pad if "-" in flags else pad + l
                        els += l
                    elif conv == "R":
                        els += repr_els(x)
                    elif conv == "c":
                        els.append(x)
                    elif conv == "f":
                        els += [ord(c) for c in "%f" % 0.0]
                        core.E.note_incomplete("float formatting of a symbolic value")
                    else:
                        els += format_int(x, conv, flags, width, prec)
                else:
                    els += SymStr.lift(p)
            self._sym = SymStr.mk(els)
        return self._sym

    def force(self):
        s = self.sym()
        return s.force() if type(s) is SymStr else s

    def __hash__(self):
        return hash(self.force())

    def __str__(self):
        return str(self.force())

    def __repr__(self):
        return "<symfmt>"

    def __format__(self, spec):
        return format(self.force(), spec)

    def __len__(self):
        return len(self.sym())

    def __bool__(self):
        for p in self.parts:
            if type(p) is tuple and p[0] not in "sr":
                return True
            if type(p) is str and p:
                return True
        return len(self.sym()) != 0

    def __iter__(self):
        return iter(self.sym())

    def __getitem__(self, i):
        return self.sym()[i]

    def __add__(self, o):
        if isinstance(o, str):
            return SymFmt(self.parts + (o.parts if type(o) is SymFmt else [o]))
        return NotImplemented

    def __radd__(self, o):
        if isinstance(o, str):
            return SymFmt((o.parts if type(o) is SymFmt else [o]) + self.parts)
        return NotImplemented

    def __mul__(self, n):
        return self.sym() * n
    __rmul__ = __mul__

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, str):
            return NotImplemented
        if type(o) is SymFmt and len(o.parts) == len(self.parts):
            # identical templates: equal arguments give equal text
            same = True
            for p, q in zip(self.parts, o.parts):
                if type(p) is not type(q):
                    same = False
                    break
                if type(p) is tuple:
                    if p[0] != q[0] or p[2:] != q[2:] or p[1] is not q[1]:
                        same = False
                        break
                elif p is not q and not (type(p) is str and p == q):
                    same = False
                    break
            if same:
                return True
            if len(self.parts) == 1 and type(self.parts[0]) is tuple and type(o.parts[0]) is tuple:
                p, q = self.parts[0], o.parts[0]
                if p[0] in "diu" and q[0] in "diu" and p[2:] == q[2:]:
                    return p[1] == q[1]
        if type(o) is SymFmt:
            o = o.sym()
        return self.sym() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def __lt__(self, o):
        return self.sym() < o

    def __le__(self, o):
        return self.sym() <= o

    def __gt__(self, o):
        return self.sym() > o

    def __ge__(self, o):
        return self.sym() >= o

    def __contains__(self, x):
        return x in self.sym()

    def __mod__(self, a):
        return self.force() % a

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        return getattr(self.sym(), name)


_spec = _re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?[hlL]?([a-zA-Z%])")


def sym_percent(fmt, args, strof, reprof):
    """fmt % args with symbolic values among args: SymFmt"""
    mapping = isinstance(args, dict)
    seq = args if isinstance(args, tuple) else (args,)
    parts = []
    pos = 0
    n = 0
    for m in _spec.finditer(fmt):
        if m.start() > pos:
            parts.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, width, prec, conv = m.groups()
        if conv == "%":
            parts.append("%")
            continue
        if width == "*":
            width = idx(seq[n])
            n += 1
        width = int(width) if width else 0
        prec = int(prec) if prec else None
        if key is not None:
            a = args[key]
        elif mapping:
            a = args
        else:
            if n >= len(seq):
                raise TypeError("not enough arguments for format string")
            a = seq[n]
            n += 1
        if conv in "sra":
            a = strof(a) if conv == "s" else reprof(a)
            if type(a) is str and not width and prec is None:
                parts.append(a)
            elif not width and prec is None:
                parts += a.parts if type(a) is SymFmt else [a]
            else:
                parts.append(("s", a, flags, width, prec))
        elif conv == "c":
            if isinstance(a, str):
                parts.append(a)
            else:
                parts.append(("c", a, flags, width, prec))
        elif conv in "diuxXo":
            if not isinstance(a, int):
                if isinstance(a, float):
                    a = int(a)
                elif hasattr(type(a), "__int__"):
                    a = a.__int__()
                else:
                    raise TypeError("%%%s format: a number is required, not %s"
                                    % (conv, type(a).__name__))
            parts.append((conv, a, flags, width, prec))
        elif conv in "fFgGeE":
            if not is_sym(a):
                parts.append(("%" + flags + (str(width) if width else "")
                              + ("." + str(prec) if prec is not None else "") + conv) % a)
            else:
                parts.append(("f", a, flags, width, prec))
        else:
            raise ValueError("unsupported format character %r" % conv)
    if pos < len(fmt):
        parts.append(fmt[pos:])
    if not mapping and n < len(seq) and not (len(seq) == 1 and mapping):
        raise TypeError("not all arguments converted during string formatting")
    return SymFmt(parts)


# -- codecs -----------------------------------------------------------------

@functools.lru_cache(None)
def codec_kind(name):
    """('table', decode list of code point or None) for single-byte charsets,
    or (canonical name, None)"""
    info = codecs.lookup(name)
    cname = info.name
    if cname in ("utf-8", "utf-16", "utf-16-le", "utf-16-be", "utf-32",
                 "utf-32-le", "utf-32-be", "utf-7", "idna", "punycode",
                 "unicode_escape", "raw_unicode_escape", "utf-8-sig"):
        return cname, None
    table = []
    for b in range(256):
        try:
            s = bytes([b]).decode(name)
        except UnicodeDecodeError:
            table.append(None)
            continue
        if len(s) != 1:
            return cname, None
        table.append(ord(s))
    # multi-byte charsets have lead bytes that fail alone and succeed in pairs
    for b in range(256):
        if table[b] is None:
            for c in (0x30, 0x40, 0x80, 0xa1, 0xfe):
                try:
                    bytes([b, c]).decode(name)
                    return cname, None
                except UnicodeDecodeError:
                    pass
    return "table", tuple(table)


def _uerr(enc, n, start, end, why):
    return UnicodeDecodeError(enc, b"\0" * max(n, 1), start, end, why)


def sym_decode(els, encoding, errors):
    if all(type(e) is int for e in els):
        return bytes(els).decode(encoding, errors)
    kind, table = codec_kind(encoding)
    out = []
    n = len(els)
    if kind == "table":
        full = None not in table
        for p, e in enumerate(els):
            if type(e) is int:
                cp = table[e]
                if cp is None:
                    if not _derr(errors, out, encoding, n, p, p + 1, [e]):
                        continue
                else:
                    out.append(cp)
                continue
            if not full:
                bad = [b for b in range(256) if table[b] is None]
                if in_ranges(e, _runs(bad)):
                    _derr(errors, out, encoding, n, p, p + 1, [e])
                    continue
            out.append(lut(e, [0 if t is None else t for t in table]))
        return SymStr.mk(out)
    if kind in ("utf-16", "utf-16-le", "utf-16-be"):
        little = kind != "utf-16-be"
        p = 0
        if kind == "utf-16" and n >= 2:
            if eq_lists(els[:2], [0xff, 0xfe]):
                p = 2
            elif eq_lists(els[:2], [0xfe, 0xff]):
                p = 2
                little = False

        def unit(q):
            a, b = els[q], els[q + 1]
            return (a | (b << 8)) if little else (b | (a << 8))
        while p < n:
            if n - p < 2:
                _derr(errors, out, kind, n, p, n, els[p:], "truncated data")
                break
            u = unit(p)
            if land(u >= 0xD800, u <= 0xDFFF):
                if u >= 0xDC00:
                    _derr(errors, out, kind, n, p, p + 2, els[p:p + 2],
                          "illegal encoding")
                    p += 2
                    continue
                if n - p < 4:
                    _derr(errors, out, kind, n, p, n, els[p:],
                          "unexpected end of data")
                    break
                v = unit(p + 2)
                if land(v >= 0xDC00, v <= 0xDFFF):
                    out.append(0x10000 + ((u & 0x3ff) << 10) + (v & 0x3ff))
                    p += 4
                else:
                    _derr(errors, out, kind, n, p, p + 2, els[p:p + 2],
                          "illegal UTF-16 surrogate")
                    p += 2
                continue
            out.append(u)
            p += 2
        return SymStr.mk(out)
    if kind in ("utf-32", "utf-32-le", "utf-32-be"):
        little = kind != "utf-32-be"
        p = 0
        if kind == "utf-32" and n >= 4:
            if eq_lists(els[:4], [0xff, 0xfe, 0, 0]):
                p = 4
            elif eq_lists(els[:4], [0, 0, 0xfe, 0xff]):
                p = 4
                little = False
        while p < n:
            if n - p < 4:
                _derr(errors, out, kind, n, p, n, els[p:], "truncated data")
                break
            q = els[p:p + 4] if little else els[p:p + 4][::-1]
            u = q[0] | (q[1] << 8) | (q[2] << 16) | (q[3] << 24)
            if u > 0x10ffff:
                _derr(errors, out, kind, n, p, p + 4, els[p:p + 4], "code point not in range(0x110000)")
            elif land(u >= 0xD800, u <= 0xDFFF):
                _derr(errors, out, kind, n, p, p + 4, els[p:p + 4], "code point in surrogate code point range(0xd800, 0xe000)")
            else:
                out.append(narrow(u, 0, 0x10ffff))
            p += 4
        return SymStr.mk(out)
    if kind == "utf-8":
        p = 0
        while p < n:
            b = els[p]
            if b < 0x80:
                out.append(b)
                p += 1
                continue
            if land(b >= 0xC2, b <= 0xDF):
                need, lo2, hi2, base = 1, 0x80, 0xBF, (b & 0x1F)
            elif land(b >= 0xE0, b <= 0xEF):
                need, lo2, hi2, base = 2, 0x80, 0xBF, (b & 0x0F)
                if b == 0xE0:
                    lo2 = 0xA0
                elif b == 0xED:
                    hi2 = 0x9F
            elif land(b >= 0xF0, b <= 0xF4):
                need, lo2, hi2, base = 3, 0x80, 0xBF, (b & 0x07)
                if b == 0xF0:
                    lo2 = 0x90
                elif b == 0xF4:
                    hi2 = 0x8F
            else:
                _derr(errors, out, kind, n, p, p + 1, [b], "invalid start byte")
                p += 1
                continue
            k = 0
            ok = True
            while k < need:
                q = p + 1 + k
                if q >= n:
                    ok = False
                    _derr(errors, out, kind, n, p, n, els[p:], "unexpected end of data")
                    p = n
                    break
                c = els[q]
                lo, hi = (lo2, hi2) if k == 0 else (0x80, 0xBF)
                if land(c >= lo, c <= hi):
                    base = (base << 6) | (c & 0x3F)
                    k += 1
                    continue
                ok = False
                _derr(errors, out, kind, n, p, q, els[p:q], "invalid continuation byte")
                p = q
                break
            if ok:
                out.append(base)
                p += need + 1
        return SymStr.mk(out)
    # no model: fork on the contents
    return bytes(SymBytes(els).force()).decode(encoding, errors)


def _runs(values):
    out = []
    for v in values:
        if out and out[-1][1] == v - 1:
            out[-1][1] = v
        else:
            out.append([v, v])
    return out


def _derr(errors, out, enc, n, start, end, bad, why="invalid byte"):
    if errors == "strict":
        raise _uerr(enc, n, start, end, why)
    if errors == "replace":
        out.append(0xFFFD)
    elif errors == "ignore":
        pass
    elif errors == "backslashreplace":
        for b in bad:
            out += [92, 120] + hex_digits(b, 2, False)
    elif errors == "surrogateescape":
        for b in bad:
            out.append(b + 0xDC00)
    else:
        raise Unsupported("decode errors=%r" % errors)
    return False


def sym_encode(els, encoding, errors):
    if all(type(e) is int for e in els):
        return ''.join(map(chr, els)).encode(encoding, errors)
    kind, table = codec_kind(encoding)
    out = []
    n = len(els)

    def bad(p, e):
        if errors == "strict":
            raise UnicodeEncodeError(kind if kind != "table" else encoding,
                                     "?" * n, p, p + 1, "not encodable")
        if errors == "ignore":
            return []
        if errors == "replace":
            return [63]
        if errors == "backslashreplace":
            if e <= 0xff:
                return [92, 120] + hex_digits(e & 0xff, 2, False)
            if e <= 0xffff:
                return [92, 117] + hex_digits(e & 0xffff, 4, False)
            return [92, 85] + hex_digits(e, 8, False)
        raise Unsupported("encode errors=%r" % errors)

    if kind == "table":
        inv = {}
        for b, cp in enumerate(table):
            if cp is not None:
                try:
                    inv[cp] = chr(cp).encode(encoding)[0]
                except UnicodeEncodeError:
                    pass
        ident = sorted(c for c, b in inv.items() if c == b)
        rest = sorted(c for c, b in inv.items() if c != b)
        for p, e in enumerate(els):
            if type(e) is int:
                if e in inv:
                    out.append(inv[e])
                else:
                    l = bad(p, e)
                    out += l
                continue
            if in_ranges(e, clip(_runs(ident), e)):
                out.append(core.mk(z3.Concat(z3.BitVecVal(0, 1), z3.Extract(7, 0, core.term(e, max(e.e.size(), 9)))), 0, 255))
                continue
            r2 = clip(_runs(rest), e)
            if r2 and in_ranges(e, r2):
                r = None
                for c in rest:
                    r = inv[c] if r is None else ite(e == c, inv[c], r)
                out.append(r)
                continue
            out += bad(p, e)
        return SymBytes.mk(out)
    if kind == "utf-8":
        for p, e in enumerate(els):
            if e < 0x80:
                out.append(e & 0x7f)
            elif e < 0x800:
                out += [0xC0 | ((e >> 6) & 0x1f), 0x80 | (e & 0x3F)]
            elif land(e >= 0xD800, e <= 0xDFFF):
                out += bad(p, e)
            elif e < 0x10000:
                out += [0xE0 | ((e >> 12) & 15), 0x80 | ((e >> 6) & 0x3F), 0x80 | (e & 0x3F)]
            else:
                out += [0xF0 | ((e >> 18) & 7), 0x80 | ((e >> 12) & 0x3F),
                        0x80 | ((e >> 6) & 0x3F), 0x80 | (e & 0x3F)]
        return SymBytes.mk(out)
    if kind in ("utf-16-le", "utf-16-be", "utf-16"):
        be = kind == "utf-16-be"
        if kind == "utf-16":
            out += [0xff, 0xfe]

        def put(u):
            a, b = (u >> 8) & 0xff, u & 0xff
            out.extend([a, b] if be else [b, a])
        for p, e in enumerate(els):
            if land(e >= 0xD800, e <= 0xDFFF):
                out += bad(p, e)
            elif e < 0x10000:
                put(e & 0xffff)
            else:
                v = e - 0x10000
                put(0xD800 | ((v >> 10) & 0x3ff))
                put(0xDC00 | (v & 0x3ff))
        return SymBytes.mk(out)
    return SymStr(els).force().encode(encoding, errors)


# -- text to numbers ----------------------------------------------------------

def sym_int_parse(els, base, what):
    els = list(els)

    def bad():
        raise ValueError("invalid literal for int() with base %d" % base)
    sp = char_ranges(str.isspace) if what == "str" else ((9, 13), (32, 32))

    def is_space(e):
        return bool(in_ranges(e, clip(sp, e)))
    while els and is_space(els[0]):
        els.pop(0)
    while els and is_space(els[-1]):
        els.pop()
    neg = False
    if els:
        if els[0] == 45:
            neg = True
            els.pop(0)
        elif els[0] == 43:
            els.pop(0)
    if base == 0:
        raise Unsupported("int(x, 0) of symbolic text")
    if base in (2, 8, 16) and len(els) >= 2 and (els[0] == 48):
        c = els[1]
        pl, pu = {2: (98, 66), 8: (111, 79), 16: (120, 88)}[base]
        if lor(c == pl, c == pu):
            els = els[2:]
            if els and els[0] == 95:
                els = els[1:]
            # '0x' must be followed by a digit
    if not els:
        bad()
    v = 0
    prev_us = True
    for p, e in enumerate(els):
        if lnot(land(e >= 0, e < 128)):
            # non-ASCII decimal digits: by value
            c = core.E.concretize(e, "non-ASCII digit")
            try:
                d = int(chr(c), base) if what == "str" else None
            except ValueError:
                d = None
            if d is None:
                bad()
            v = v * base + d
            prev_us = False
            continue
        if e == 95:
            if prev_us or p == len(els) - 1:
                bad()
            prev_us = True
            continue
        prev_us = False
        dmax = min(base, 10)
        if land(e >= 48, e < 48 + dmax):
            d = clampd(e - 48, dmax - 1)
        elif base > 10 and land(e >= 97, e < 97 + base - 10):
            d = clampd(e - 87, base - 1)
        elif base > 10 and land(e >= 65, e < 65 + base - 10):
            d = clampd(e - 55, base - 1)
        else:
            bad()
        v = v * base + d
    return -v if neg else v


def clampd(d, hi):
    """Narrow the interval of a value known (by the path) to be in [0, hi]."""
    if type(d) is not SymInt:
        return d
    return narrow(d, 0, hi)


def narrow(x, lo, hi):
    """x is known by the path condition to be in [lo, hi]: tighten its width."""
    if type(x) is not SymInt:
        return x
    lo, hi = max(lo, x.lo), min(hi, x.hi)
    w = core.width_for(lo, hi)
    n = x.e.size()
    if w < n:
        r = core.mk(z3.Extract(w - 1, 0, x.e), lo, hi)
    else:
        r = core.mk(x.e, lo, hi)
    if type(r) is SymInt:
        r.lin = x.lin
    return r
