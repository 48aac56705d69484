"""Replacements for builtins, operators and library modules used by the code
under test, so that symbolic values are not realised at C boundaries."""
import builtins
import io as _io
import stat as _stat
import time as _time
import struct as _struct
import datetime as _dt
import re as _re

from symhach import core, seqs, times
from symhach.core import SymInt, SymBool, Unsupported, land, lor, ite
from symhach.seqs import (SymBytes, SymByteArray, SymStr, SymFmt, is_sym, idx)


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, (tuple, list)):
        return any(has_sym(y) for y in x)
    if type(x) is dict:
        return any(has_sym(y) for y in x.values())
    return False


# -- type shims ---------------------------------------------------------------

class TypeShim:
    """Stands for a builtin type in the namespace of instrumented modules."""

    def __init__(self, real, call):
        self._real = real
        self._call = call
        self.__name__ = real.__name__
        self.__doc__ = real.__doc__

    def __call__(self, *a, **k):
        return self._call(*a, **k)

    def __instancecheck__(self, o):
        return isinstance(o, self._real)

    def __subclasscheck__(self, c):
        return issubclass(unshim(c), self._real)

    def __mro_entries__(self, bases):
        return (self._real,)

    def __getattr__(self, name):
        return getattr(self._real, name)

    def __eq__(self, o):
        return self is o or o is self._real

    def __ne__(self, o):
        return not self.__eq__(o)

    def __hash__(self):
        return hash(self._real)

    def __repr__(self):
        return repr(self._real)

    def __or__(self, o):
        return (self, o)

    def __class_getitem__(cls, x):
        return cls


def unshim(c):
    return c._real if type(c) is TypeShim else c


def user_text(x, names):
    """str()/repr() of an object whose Python-level method may return a
    symbolic string."""
    t = type(x)
    if t in (int, str, float, bytes, list, tuple, dict, bool, type(None)):
        return None
    import types
    for n in names:
        f = getattr(t, n, None)
        if isinstance(f, types.FunctionType):
            return f(x)
    return None


def sym_str(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymInt:
            return SymFmt([("d", x, "", 0, None)])
        if t is SymStr or t is SymFmt:
            return x
        if t is SymBool:
            return str(bool(x))
        if t in (SymBytes, SymByteArray):
            return sym_repr(x)
        r = user_text(x, ("__str__", "__repr__")) if t.__module__ != "builtins" else None
        if r is not None:
            return r
        if t.__str__ is BaseException.__str__:
            args = x.args
            if len(args) == 1 and type(args[0]) in (SymStr, SymFmt):
                return args[0]
        if t in (list, tuple, dict) and has_sym(x):
            return "<symbolic container>"
        return str(x)
    if a and isinstance(a[0], (bytes, bytearray)) and is_sym(a[0]):
        enc = a[1] if len(a) > 1 else k.get("encoding", "utf-8")
        err = a[2] if len(a) > 2 else k.get("errors", "strict")
        return a[0].decode(enc, err)
    return str(*a, **k)


def sym_repr(x):
    t = type(x)
    if t is SymInt:
        return SymFmt([("d", x, "", 0, None)])
    if t in (SymStr, SymFmt, SymBytes, SymByteArray):
        return SymFmt([("R", x, "", 0, None)])
    r = user_text(x, ("__repr__",)) if t.__module__ != "builtins" else None
    if r is not None:
        return r
    return repr(x)


def call_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    t = type(x)
    if t is SymInt:
        return x
    if t is SymBool:
        return x.as_int()
    if t is times.SymFrac:
        return x.trunc()
    if t in (SymStr, SymFmt, SymBytes, SymByteArray):
        base = idx(a[1]) if len(a) > 1 else k.get("base", 10)
        if t is SymFmt:
            x = x.sym()
            if type(x) is str:
                return int(x, base)
        return seqs.sym_int_parse(x.els, base, "str" if type(x) is SymStr else "bytes")
    if len(a) == 1 and t.__module__ != "builtins" and hasattr(t, "__int__"):
        r = t.__int__(x)
        if type(r) is SymInt:
            return r
    return int(*a, **k)


def int_from_bytes(data, byteorder="big", *, signed=False):
    if type(data) in (SymBytes, SymByteArray):
        els = list(data.els)
    elif isinstance(data, (bytes, bytearray)):
        return int.from_bytes(data, byteorder, signed=signed)
    else:
        els = [seqs.check_byte(x) for x in data]
        if all(type(x) is int for x in els):
            return int.from_bytes(els, byteorder, signed=signed)
    return from_els(els, byteorder, signed)


def from_els(els, byteorder, signed=False):
    import z3
    if all(type(x) is int for x in els):
        return int.from_bytes(bytes(els), byteorder, signed=signed)
    if byteorder == "little":
        els = els[::-1]
    elif byteorder != "big":
        raise ValueError("byteorder must be either 'little' or 'big'")
    n = len(els)
    ts = []
    for e in els:
        if type(e) is int:
            ts.append(z3.BitVecVal(e, 8))
        else:
            ts.append(z3.Extract(7, 0, core.term(e, max(e.e.size(), 8))))
    t = z3.Concat(ts) if n > 1 else ts[0]
    if signed:
        return core.mk(t, -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
    return core.mk(z3.Concat(z3.BitVecVal(0, 1), t), 0, (1 << (8 * n)) - 1)


def call_bytes(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        t = type(x)
        if t is SymBytes:
            return x
        if t is SymByteArray:
            return SymBytes.mk(list(x.els))
        if isinstance(x, (bytes, bytearray, str, memoryview)) and not is_sym(x):
            return bytes(x)
        if isinstance(x, int):
            if t is SymInt:
                n = idx(x)
                return bytes(n)
            return bytes(x)
        if t.__module__ != "builtins" and hasattr(t, "__bytes__"):
            return t.__bytes__(x)
        return SymBytes.mk([seqs.check_byte(y) for y in x])
    if len(a) >= 2 and isinstance(a[0], str) and is_sym(a[0]):
        return a[0].encode(*a[1:])
    return bytes(*a, **k)


def call_bytearray(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        if isinstance(x, int):
            return SymByteArray([0] * idx(x))
        l = SymBytes.lift(x)
        if l is not None:
            return SymByteArray(l)
        if not isinstance(x, str):
            return SymByteArray([seqs.check_byte(y) for y in x])
    if not a:
        return SymByteArray([])
    return SymByteArray(list(bytearray(*a, **k)))


def call_float(*a):
    if a and type(a[0]) is SymInt:
        return times.SymFrac(a[0], 1)
    if a and type(a[0]) is times.SymFrac:
        return a[0]
    if a and is_sym(a[0]):
        return float(a[0].force())
    return float(*a)


def call_type(*a, **k):
    if len(a) == 1 and not k:
        x = a[0]
        c = x.__class__ if is_sym(x) else type(x)
        return SHIMMED.get(c, c)
    if len(a) == 3:
        return type(a[0], tuple(unshim(b) for b in a[1]), a[2], **k)
    return type(*a, **k)


def call_bool(*a):
    return bool(*a)


class SymSet:
    """set() of symbolic elements (elements may repeat)."""

    def __init__(self, els):
        self.els = els

    @property
    def __class__(self):
        return set

    def contains(self, x):
        return sh_in(x, self.els)

    def issuperset(self, o):
        return land(*[self.contains(x) for x in o])

    def issubset(self, o):
        return land(*[sh_in(x, o) for x in self.els])

    def isdisjoint(self, o):
        return core.lnot(core.lor(*[sh_in(x, o) for x in self.els])) if self.els else True

    def distinct(self):
        out = []
        for x in self.els:
            if not sh_in(x, out):
                out.append(x)
        return out

    def __len__(self):
        return len(self.distinct())

    def __bool__(self):
        return bool(self.els)

    def __iter__(self):
        return iter(self.distinct())

    def add(self, x):
        self.els = self.els + [x]

    def update(self, *a):
        for o in a:
            self.els = self.els + list(o)

    def __or__(self, o):
        return SymSet(self.els + list(o))
    __ror__ = __or__

    def __and__(self, o):
        return SymSet([x for x in self.els if sh_in(x, o)])
    __rand__ = __and__

    def __sub__(self, o):
        return SymSet([x for x in self.els if not sh_in(x, o)])

    def __rsub__(self, o):
        return SymSet([x for x in o if not sh_in(x, self.els)])

    def __eq__(self, o):
        if not isinstance(o, (set, frozenset)) and type(o) is not SymSet:
            return NotImplemented
        return land(self.issuperset(o), self.issubset(o))

    def __ne__(self, o):
        return core.lnot(self.__eq__(o))
    __hash__ = None


def call_set(*a):
    if len(a) == 1:
        if type(a[0]) is SymSet:
            return SymSet(list(a[0].els))
        els = list(a[0])
        if any(is_sym(x) for x in els):
            return SymSet(els)
        return set(els)
    return set(*a)


SET = TypeShim(set, call_set)


def call_range(*a):
    if not any(type(x) is SymInt or type(x) is SymBool for x in a):
        return range(*a)
    return SymRange(*a)


class SymRange:
    def __init__(self, *a):
        a = [x.as_int() if type(x) is SymBool else x for x in a]
        self.start, self.step = 0, 1
        if len(a) == 1:
            self.stop = a[0]
        elif len(a) == 2:
            self.start, self.stop = a
        else:
            self.start, self.stop, self.step = a
            self.step = idx(self.step)
            if self.step == 0:
                raise ValueError("range() arg 3 must not be zero")

    @property
    def __class__(self):
        return range

    def __iter__(self):
        i = self.start
        while (i < self.stop) if self.step > 0 else (i > self.stop):
            yield i
            i = i + self.step

    def real(self):
        return range(idx(self.start), idx(self.stop), self.step)

    def __len__(self):
        return len(self.real())

    def __reversed__(self):
        return reversed(self.real())

    def __getitem__(self, i):
        return self.real()[i]

    def __contains__(self, x):
        if self.step == 1:
            return bool(land(x >= self.start, x < self.stop))
        return x in self.real()

    def __bool__(self):
        return bool((self.start < self.stop) if self.step > 0 else (self.start > self.stop))


def call_datetime(*a, **k):
    return times.make_datetime(*a, **k)


def call_date(*a, **k):
    return times.make_date(*a, **k)


INT = TypeShim(int, call_int)
INT.from_bytes = int_from_bytes
STR = TypeShim(str, sym_str)
BYTES = TypeShim(bytes, call_bytes)
BYTEARRAY = TypeShim(bytearray, call_bytearray)
FLOAT = TypeShim(float, call_float)
TYPE = TypeShim(type, call_type)
RANGE = TypeShim(range, call_range)
DATETIME = TypeShim(_dt.datetime, call_datetime)
TIMEDELTA = TypeShim(_dt.timedelta, times.make_timedelta)
DATE = TypeShim(_dt.date, call_date)
SHIMMED = {t._real: t for t in (INT, STR, BYTES, BYTEARRAY, FLOAT, RANGE, TYPE,
                                DATETIME, TIMEDELTA, DATE)}


def sh_str_join(self, items):
    return sh_callm(self, "join", items)


STR.join = lambda s, it: sh_callm(s, "join", it)
BYTES.join = lambda s, it: sh_callm(s, "join", it)


def sh_isinstance(o, t):
    if is_sym(o) and isinstance(t, tuple):
        return any(sh_isinstance(o, x) for x in t)
    return isinstance(o, t)


def sh_issubclass(c, t):
    return issubclass(unshim(c), tuple(map(unshim, t)) if isinstance(t, tuple) else unshim(t))


def sh_chr(x):
    if type(x) is SymInt:
        if x.lo < 0 or x.hi > 0x10ffff:
            if lor(x < 0, x > 0x10ffff):
                raise ValueError("chr() arg not in range(0x110000)")
            x = seqs.narrow(x, 0, 0x10ffff)
        return SymStr.mk([x])
    return chr(x)


def sh_ord(x):
    t = type(x)
    if t is SymFmt:
        x = x.sym()
        t = type(x)
    if t in (SymBytes, SymByteArray, SymStr):
        if len(x.els) != 1:
            raise TypeError("ord() expected a character, but string of length "
                            "%d found" % len(x.els))
        return x.els[0]
    return ord(x)


def sh_hex(x):
    if type(x) is SymInt:
        return SymFmt([("x", x, "#", 0, None)])
    return hex(x)


def sh_oct(x):
    if type(x) is SymInt:
        return SymFmt([("o", x, "#", 0, None)])
    return oct(x)


def sh_bin(x):
    if type(x) is SymInt:
        return SymFmt([("b", x, "#", 0, None)])
    return bin(x)


def sh_repr(x):
    return sym_repr(x)


def sh_round(x, *a):
    return round(x, *a)


def sh_hash(x):
    return hash(x)


def sh_format(x, spec=""):
    return fmt_value(x, spec)


def sh_memoryview(x):
    if is_sym(x):
        return x
    return memoryview(x)


def sh_print(*a, **k):
    return None


def sh_min(*a, **k):
    if not k and len(a) == 2 and core.is_int(a[0]) and core.is_int(a[1]) and \
            (type(a[0]) is SymInt or type(a[1]) is SymInt):
        return ite(a[1] < a[0], a[1], a[0])
    return min(*a, **k)


def sh_max(*a, **k):
    if not k and len(a) == 2 and core.is_int(a[0]) and core.is_int(a[1]) and \
            (type(a[0]) is SymInt or type(a[1]) is SymInt):
        return ite(a[1] > a[0], a[1], a[0])
    return max(*a, **k)


# -- operators -----------------------------------------------------------------

def sh_mod(a, b):
    t = type(a)
    if t is str or t is SymFmt or t is SymStr:
        if t is not str:
            a = a.force()
        if has_sym(b):
            if isinstance(b, list):
                b = (b,)
            return seqs.sym_percent(a, b, sym_str, sym_repr)
        try:
            return a % b
        except TypeError as e:
            if "returned non-string" in str(e):
                return seqs.sym_percent(a, b, sym_str, sym_repr)
            raise
    if t is bytes and has_sym(b):
        # bytes formatting: through text
        args = b if isinstance(b, tuple) else (b,)
        args = tuple(x.decode("latin-1") if isinstance(x, bytes) else x for x in args)
        s = seqs.sym_percent(a.decode("latin-1"), args, sym_str, sym_repr)
        return s.sym().encode("latin-1")
    return a % b


def fmt_value(v, spec=""):
    if is_sym(v):
        if type(v) is SymBool and not spec:
            return str(bool(v))
        if isinstance(spec, str) and is_sym(spec):
            spec = spec.force()
        if isinstance(v, str):
            if not spec:
                return v
            return format(v.force(), spec)
        if type(v) is SymInt or type(v) is SymBool:
            m = _re.fullmatch(r"([-+ ]?)(#?)(0?)(\d*)([dxXob]?)", spec)
            if m:
                sign, alt, zero, width, conv = m.groups()
                if sign == "-":
                    sign = ""
                return SymFmt([(conv or "d", v, sign + alt + zero,
                                int(width) if width else 0, None)])
            return format(core.E.concretize(v), spec)
        return format(v, spec)
    if not spec:
        return sym_str(v)
    return format(v, spec)


def sh_fstr(*parts):
    out = []
    sym = False
    for p in parts:
        if type(p) is tuple:
            v, conv, spec = p
            if conv == "r":
                v = sym_repr(v)
            elif conv == "s":
                v = sym_str(v)
            elif conv == "a":
                v = ascii(v)
            v = fmt_value(v, spec)
        else:
            v = p
        if is_sym(v):
            sym = True
            out += v.parts if type(v) is SymFmt else [v]
        else:
            out.append(v)
    if not sym:
        return "".join(out)
    return SymFmt(out)


def sh_getitem(o, i):
    t = type(o)
    if t is dict or (isinstance(o, dict) and type(o).__getitem__ is dict.__getitem__):
        if is_sym(i):
            for k in list(o):
                if is_sym(k) or same_kind(k, i):
                    c = (k == i)
                    if c is True or (c is not False and c):
                        return o[k]
            missing = getattr(type(o), "__missing__", None)
            if missing:
                return missing(o, i)
            raise KeyError("<symbolic key>")
        return o[i]
    if t in (bytes, str, list, tuple):
        if type(i) is SymInt:
            n = len(o)
            if t is bytes:
                return SymBytes(list(o))[i]
            if t is str:
                return SymStr([ord(c) for c in o])[i]
            if n and all(core.is_int(x) for x in o):
                j = i
                if i.lo < 0 and i < 0:
                    j = i + n
                    if j < 0:
                        raise IndexError("list index out of range")
                if j >= n:
                    raise IndexError("list index out of range")
                if type(j) is SymInt:
                    return seqs.mux(list(o), j)
                return o[j]
            if i.lo < -n and i < -n or i >= n:
                raise IndexError("list index out of range")
            if n > 4 and i.lo >= 0 and t in (tuple, list) and all(type(x) is str for x in o):
                return pick_str(o, i)
            return o[idx(i)]
        if type(i) is slice and (is_sym(i.start) or is_sym(i.stop) or is_sym(i.step)):
            i = slice(idx(i.start), idx(i.stop), idx(i.step))
    return o[i]


def pick_str(o, i):
    """o[i] for a table of strings: forks on the length only."""
    groups = {}
    for k in range(i.lo, min(i.hi, len(o) - 1) + 1):
        groups.setdefault(len(o[k]), []).append(k)
    order = sorted(groups, key=lambda z: -len(groups[z]))
    for z in order:
        ks = groups[z]
        ranges = []
        for k in ks:
            if ranges and ranges[-1][1] == k - 1:
                ranges[-1][1] = k
            else:
                ranges.append([k, k])
        if z != order[-1] and not seqs.in_ranges(i, [tuple(r) for r in ranges]):
            continue
        els = []
        inz = set(ks)
        for p in range(z):
            table, d = [], None
            first = ord(o[ks[0]][p]) - ks[0]
            for k in range(0, i.hi + 1 if i.hi < len(o) else len(o)):
                if k in inz:
                    d = ord(o[k][p]) - k
                table.append(k + (d if d is not None else first))
            els.append(seqs.lut(i, table))
        return SymStr.mk(els)
    raise IndexError("list index out of range")


def same_kind(a, b):
    if isinstance(b, bool) or isinstance(b, int):
        return isinstance(a, int)
    if isinstance(b, str):
        return isinstance(a, str)
    if isinstance(b, bytes):
        return isinstance(a, bytes)
    return True


def sh_slice(o, a, b, c):
    return sh_getitem(o, slice(a, b, c))


def sh_bool(x):
    return bool(x) if type(x) is SymBool else x


def sh_in(x, c):
    t = type(c)
    if is_sym(x) or has_sym(x):
        if t is dict or t is set or t is frozenset or \
                (isinstance(c, dict) and type(c).__contains__ is dict.__contains__):
            cs = []
            for k in c:
                if not is_sym(k) and is_sym(x) and not same_kind(k, x):
                    continue
                r = (k == x)
                if r is True:
                    return True
                if r is not False:
                    cs.append(r)
            return core.lor(*cs) if cs else False
        if t is str:
            return SymStr([ord(y) for y in c]).contains(x)
        if t is bytes:
            return SymBytes(list(c)).contains(x)
        if t is tuple or t is list:
            cs = []
            for k in c:
                if k is x:
                    return True
                if is_sym(x) and not is_sym(k) and not same_kind(k, x):
                    continue
                r = (k == x)
                if r is True:
                    return True
                if r is not False and r is not NotImplemented:
                    cs.append(r)
            return core.lor(*cs) if cs else False
        if t is range:
            if c.step == 1:
                return land(x >= c.start, x < c.stop)
        if t is SymBytes or t is SymStr or t is SymByteArray or t is SymSet:
            return c.contains(x)
    elif t is SymBytes or t is SymStr or t is SymByteArray:
        return c.contains(x)
    elif t is SymFmt:
        return sh_in(x, c.sym())
    elif t is SymSet:
        return c.contains(x)
    elif t is tuple or t is list or t is dict or t is set:
        if any(is_sym(k) for k in c):
            cs = []
            for k in c:
                r = (k == x) if is_sym(k) else (k is x or k == x)
                if r is True:
                    return True
                if r is not False:
                    cs.append(r)
            return core.lor(*cs) if cs else False
    return x in c


def sh_notin(x, c):
    return core.lnot(sh_in(x, c))


_SEQ_METHODS = frozenset(
    "join find rfind index rindex startswith endswith replace split rsplit "
    "strip lstrip rstrip count partition rpartition removeprefix removesuffix "
    "ljust rjust".split())


def sh_callm(o, name, *a, **k):
    """o.name(*a, **k) for the method names that cross a C boundary."""
    t = type(o)
    if t is str or t is bytes:
        if name == "join":
            items = list(a[0])
            if any(is_sym(x) for x in items):
                if t is str:
                    if not o and all(isinstance(x, str) for x in items):
                        parts = []
                        for x in items:
                            if type(x) is SymFmt:
                                parts += x.parts
                            else:
                                parts.append(x)
                        return SymFmt(parts) if any(type(x) is SymFmt for x in items) \
                            else SymStr([ord(c) for c in o]).join(items)
                    return SymStr([ord(c) for c in o]).join(items)
                return SymBytes(list(o)).join(items)
            return o.join(items)
        if has_sym(a) or (k and has_sym(k)):
            if name == "format":
                return str_format(o, a, k)
            if name in _SEQ_METHODS:
                l = SymStr([ord(c) for c in o]) if t is str else SymBytes(list(o))
                return getattr(l, name)(*a, **k)
            if name in ("encode", "decode"):
                return getattr(o, name)(*[force(x) for x in a])
            if name == "write":
                pass
        return getattr(o, name)(*a, **k)
    if a and type(a[0]) is SymSet and type(o) in (set, frozenset):
        return getattr(SymSet(list(o)), name)(*a)
    if a and is_sym(a[0]) and isinstance(o, (dict, set, frozenset)):
        if name == "get" and isinstance(o, dict) and type(o).get is dict.get:
            try:
                return sh_getitem(o, a[0])
            except KeyError:
                return a[1] if len(a) > 1 else None
        if name == "setdefault" and type(o) is dict:
            if sh_in(a[0], o):
                return sh_getitem(o, a[0])
    elif isinstance(o, TypeShim) or not k:
        if o is STR and name == "join":
            return sh_callm(*a)
    return getattr(o, name)(*a, **k)


def force(x):
    if type(x) in (SymBytes, SymByteArray, SymStr, SymFmt):
        return x.force()
    if type(x) is SymInt:
        return core.E.concretize(x)
    return x


def str_format(fmt, a, k):
    import string
    out = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            out.append(lit)
        if field is None:
            continue
        m = _re.fullmatch(r"(\w*)((?:\.\w+|\[[^]]*\])*)", field)
        base, rest = m.groups()
        if base == "":
            v = a[auto]
            auto += 1
        elif base.isdigit():
            v = a[int(base)]
        else:
            v = k[base]
        for acc in _re.findall(r"\.\w+|\[[^]]*\]", rest):
            if acc[0] == ".":
                v = getattr(v, acc[1:])
            else:
                key = acc[1:-1]
                v = v[int(key) if key.isdigit() else key]
        if spec and "{" in spec:
            spec = spec.format(*[force(x) for x in a], **{x: force(y) for x, y in k.items()})
        out.append((v, conv, spec or ""))
    return sh_fstr(*out)


# -- library modules ------------------------------------------------------------

class ModShim:
    def __init__(self, real, over):
        self.__dict__.update(over)
        self.__dict__["_real"] = real
        self.__dict__["__name__"] = real.__name__

    def __getattr__(self, name):
        return getattr(self._real, name)


_SIZES = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4,
          "q": 8, "Q": 8, "x": 1, "c": 1, "?": 1, "s": 1, "f": 4, "d": 8}


def _struct_items(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    order = "little"
    f = fmt
    native = True
    if f and f[0] in "<>!=@":
        native = f[0] in "@"
        order = "big" if f[0] in ">!" else "little"
        f = f[1:]
    items = []
    for m in _re.finditer(r"\s*(\d*)([a-zA-Z?])", f):
        n = int(m.group(1)) if m.group(1) else 1
        c = m.group(2)
        size = _SIZES.get(c)
        if size is None:
            raise Unsupported("struct format %r" % fmt)
        if native and c in "lL":
            size = 8
        if c == "s":
            items.append(("s", n))
        else:
            items += [(c, size)] * n
    if native and len(items) > 1 and len({s for _, s in items}) > 1:
        raise Unsupported("native struct alignment")
    return order, items


def sh_unpack(fmt, data):
    if not is_sym(data):
        return _struct.unpack(force(fmt), data)
    order, items = _struct_items(force(fmt))
    total = sum(s for _, s in items)
    if len(data) != total:
        raise _struct.error("unpack requires a buffer of %d bytes" % total)
    return tuple(_unpack_items(order, items, data.els))


def _unpack_items(order, items, els):
    p = 0
    out = []
    for c, size in items:
        chunk = els[p:p + size]
        p += size
        if c == "x":
            continue
        if c in "sc":
            out.append(SymBytes.mk(chunk))
        elif c == "?":
            out.append(chunk[0] != 0)
        elif c in "fd":
            out.append(_struct.unpack("<d" if c == "d" else "<f",
                                      bytes(SymBytes(chunk if order == "little" else chunk[::-1]).force()))[0])
        else:
            out.append(from_els(chunk, order, c.islower()))
    return out


def sh_unpack_from(fmt, data, offset=0):
    order, items = _struct_items(force(fmt))
    total = sum(s for _, s in items)
    return sh_unpack(fmt, data[offset:offset + total])


def sh_pack(fmt, *vals):
    if not has_sym(vals):
        return _struct.pack(force(fmt), *vals)
    order, items = _struct_items(force(fmt))
    out = []
    vals = list(vals)
    for c, size in items:
        if c == "x":
            out.append(0)
            continue
        v = vals.pop(0)
        if c == "s":
            l = SymBytes.lift(v)[:size]
            out += l + [0] * (size - len(l))
        elif c == "c":
            out += SymBytes.lift(v)
        elif c in "fd?":
            out += list(_struct.pack((">" if order == "big" else "<") + c, force(v)))
        else:
            if not isinstance(v, int):
                raise _struct.error("required argument is not an integer")
            bits = 8 * size
            lo, hi = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if c.islower() \
                else (0, (1 << bits) - 1)
            if lor(v < lo, v > hi):
                raise _struct.error("argument out of range")
            bs = [(v >> (8 * i)) & 0xff for i in range(size)]
            if order == "big":
                bs.reverse()
            out += bs
    if vals:
        raise _struct.error("too many arguments")
    return SymBytes.mk(out)


class SymBytesIO:
    """io.BytesIO on possibly symbolic contents."""

    def __init__(self, data=b""):
        l = SymBytes.lift(data)
        if l is None:
            raise TypeError("a bytes-like object is required")
        self.els = l
        self.pos = 0
        self.closed = False

    def read(self, n=-1):
        n = idx(n) if n is not None else -1
        p = idx(self.pos)
        if n < 0:
            d = self.els[p:]
        else:
            d = self.els[p:p + n]
        self.pos = p + len(d)
        return SymBytes.mk(d)

    def readinto(self, b):
        d = self.read(len(b))
        b[:len(d)] = d
        return len(d)

    def readline(self, n=-1):
        out = []
        while self.pos < len(self.els):
            e = self.els[self.pos]
            self.pos += 1
            out.append(e)
            if e == 10:
                break
        return SymBytes.mk(out)

    def seek(self, pos, whence=0):
        if whence == 0:
            if pos < 0:
                raise ValueError("negative seek value")
            self.pos = pos
        elif whence == 1:
            self.pos = sh_max(0, self.pos + pos)
        elif whence == 2:
            self.pos = sh_max(0, len(self.els) + pos)
        return self.pos

    def tell(self):
        return self.pos

    def write(self, data):
        l = SymBytes.lift(data)
        if l is None:
            raise TypeError("a bytes-like object is required, not %r"
                            % type(data).__name__)
        p = idx(self.pos)
        if p > len(self.els):
            self.els += [0] * (p - len(self.els))
        self.els[p:p + len(l)] = l
        self.pos = p + len(l)
        return len(l)

    def truncate(self, n=None):
        n = idx(self.pos if n is None else n)
        del self.els[n:]
        return n

    def getvalue(self):
        return SymBytes.mk(list(self.els))

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def readable(self):
        return True

    seekable = writable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        while True:
            l = self.readline()
            if not l:
                return
            yield l


class RePattern:
    """Compiled regular expression; symbolic subjects go to retrees."""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, name):
        return getattr(self._real, name)

    def _do(self, meth, s, *a):
        if is_sym(s):
            from symhach import retrees
            return getattr(retrees, meth)(self._real, s, *a)
        return getattr(self._real, meth)(s, *a)

    def match(self, s, *a):
        return self._do("match", s, *a)

    def search(self, s, *a):
        return self._do("search", s, *a)

    def fullmatch(self, s, *a):
        return self._do("fullmatch", s, *a)

    def finditer(self, s, *a):
        return self._do("finditer", s, *a)

    def findall(self, s, *a):
        return self._do("findall", s, *a)

    def sub(self, repl, s, *a):
        if is_sym(s):
            from symhach import retrees
            return retrees.sub(self._real, repl, s, *a)
        return self._real.sub(repl, s, *a)

    def split(self, s, *a):
        return self._real.split(force(s), *a)


def _re_compile(p, flags=0):
    if isinstance(p, RePattern):
        return p
    if is_sym(p):
        if isinstance(p, (SymStr, SymFmt)):
            from symhach import repattern
            return repattern.SymPattern(p, flags)
        p = force(p)
    return RePattern(_re.compile(p, flags))


RE = ModShim(_re, dict(
    compile=_re_compile,
    match=lambda p, s, f=0: _re_compile(p, f).match(s),
    search=lambda p, s, f=0: _re_compile(p, f).search(s),
    fullmatch=lambda p, s, f=0: _re_compile(p, f).fullmatch(s),
    sub=lambda p, r, s, count=0, flags=0: _re_compile(p, flags).sub(r, s),
    finditer=lambda p, s, f=0: _re_compile(p, f).finditer(s),
    findall=lambda p, s, f=0: _re_compile(p, f).findall(s),
    split=lambda p, s, *a: _re_compile(p).split(s, *a),
))
STRUCT = ModShim(_struct, dict(unpack=sh_unpack, pack=sh_pack,
                               unpack_from=sh_unpack_from))
IO = ModShim(_io, dict(BytesIO=SymBytesIO))
DATETIME_MOD = ModShim(_dt, dict(datetime=DATETIME, timedelta=TIMEDELTA, date=DATE))



_STRPTIME = {}


def sh_strptime(text, fmt="%a %b %d %H:%M:%S %Y"):
    """time.strptime() in the C locale, for the directives below."""
    if not is_sym(text):
        return _time.strptime(text, fmt)
    if fmt not in _STRPTIME:
        import _strptime
        loc = _strptime.LocaleTime()
        _STRPTIME[fmt] = RePattern(_strptime.TimeRE(loc).compile(fmt)), loc
    pattern, loc = _STRPTIME[fmt]
    found = pattern.match(text)
    if not found or found.end() != len(text):
        raise ValueError("time data does not match format")
    year, month, day, hour, minute, second = 1900, 1, 1, 0, 0, 0

    def index(names, s):
        for k, name in enumerate(names):
            if name and len(name) == len(s) and \
                    land(*[lor(s[j:j + 1] == c, s[j:j + 1] == c.upper()) for j, c in enumerate(name)]):
                return k
        raise ValueError(s)
    for d, v in found.groupdict().items():
        if d == "Y":
            year = INT(v)
        elif d == "B":
            month = index(loc.f_month, v)
        elif d == "b":
            month = index(loc.a_month, v)
        elif d == "d":
            day = INT(v)
        elif d == "H":
            hour = INT(v)
        elif d == "M":
            minute = INT(v)
        elif d == "S":
            second = INT(v)
        elif d not in "aA":
            raise Unsupported("strptime %" + d)
    times.make_date(year, month, day)
    return (year, month, day, hour, minute, second, None, None, -1)


def _stat_is(value):
    return lambda mode: (mode & 0o170000) == value


TIME = ModShim(_time, dict(strptime=sh_strptime))
STAT = ModShim(_stat, dict(
    S_IFMT=lambda mode: mode & 0o170000, S_IMODE=lambda mode: mode & 0o7777,
    S_ISDIR=_stat_is(_stat.S_IFDIR), S_ISCHR=_stat_is(_stat.S_IFCHR),
    S_ISBLK=_stat_is(_stat.S_IFBLK), S_ISREG=_stat_is(_stat.S_IFREG),
    S_ISFIFO=_stat_is(_stat.S_IFIFO), S_ISLNK=_stat_is(_stat.S_IFLNK),
    S_ISSOCK=_stat_is(_stat.S_IFSOCK)))
MODULES = {"struct": STRUCT, "io": IO, "datetime": DATETIME_MOD, "re": RE, "stat": STAT, "time": TIME}


def sh_import(name, globals=None, locals=None, fromlist=(), level=0):
    m = builtins.__import__(name, globals, locals, fromlist, level)
    if level == 0 and name in MODULES:
        return MODULES[name]
    return m


BUILTINS = dict(vars(builtins))
BUILTINS.update(
    int=INT, str=STR, bytes=BYTES, bytearray=BYTEARRAY, float=FLOAT,
    type=TYPE, range=RANGE, set=SET, chr=sh_chr, ord=sh_ord, hex=sh_hex, oct=sh_oct,
    bin=sh_bin, repr=sh_repr, format=sh_format, isinstance=sh_isinstance,
    issubclass=sh_issubclass, min=sh_min, max=sh_max, memoryview=sh_memoryview,
    __import__=sh_import,
    _sh_mod=sh_mod, _sh_getitem=sh_getitem, _sh_slice=sh_slice,
    _sh_bool=sh_bool, _sh_in=sh_in, _sh_notin=sh_notin, _sh_callm=sh_callm, _sh_fstr=sh_fstr,
)
