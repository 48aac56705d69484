"""Exploration engine, symbolic integers and booleans.

SymInt has *exact* Python int semantics: each value carries a concrete
interval [lo, hi] and a two's complement bit-vector just wide enough for that
interval, so no operation can wrap.
"""
import math
import signal
import time
import z3

Z = z3


class EngineControl(BaseException):
    """Control flow of the engine: never an Exception, so that the many
    'except Exception' handlers of the code under test cannot swallow it."""


class Infeasible(EngineControl):
    pass


class PathBound(EngineControl):
    """A path made more decisions than the unwinding bound allows."""


class Budget(EngineControl):
    """The job ran out of its time budget."""


class Unsupported(EngineControl):
    """The engine has no symbolic model of an operation."""


class Violated(EngineControl):
    """An assertion has a counterexample on the current path."""

    def __init__(self, label):
        BaseException.__init__(self, label)
        self.label = label


class StopJob(EngineControl):
    pass


class Decision:
    __slots__ = ("kind", "cond", "value", "alts", "aux")

    def __init__(self, kind, cond, value, alts, aux=None):
        self.kind = kind        # 'b' branch, 'a' assume, 'k' check, 'c' choice
        self.cond = cond
        self.value = value
        self.alts = alts
        self.aux = aux


def new_solver():
    s = z3.SolverFor("QF_BV")
    return s


class Stack:
    """The assertions of the current path, in levels, and their solver.

    After hard arithmetic, z3 may need seconds for each pop(): the solver is
    then dropped, and each query has a fresh one."""

    def __init__(self):
        self.z = new_solver()
        self.levels = [[]]

    def add(self, c):
        self.levels[-1].append(c)
        if self.z is not None:
            self.z.add(c)

    def push(self):
        self.levels.append([])
        if self.z is not None:
            self.z.push()

    def pop(self):
        self.levels.pop()
        if self.z is not None:
            t = time.monotonic()
            self.z.pop()
            if time.monotonic() - t > 0.5:
                self.z = None

    def assertions(self):
        return [c for level in self.levels for c in level]


class Engine:
    def __init__(self, time_limit=300.0, max_decisions=6000, query_ms=60000,
                 max_ce=3):
        self.solver = Stack()
        self.trail = []
        self.pos = 0
        self.model = None
        self.known = {}
        self.keep = []
        self.time_limit = time_limit
        self.deadline = None
        self.max_decisions = max_decisions
        self.query_ms = query_ms
        self.max_ce = max_ce
        self.stats = dict(paths=0, pruned=0, queries=0, solver_s=0.0, sat=0,
                          unsat=0, unknown=0, decisions=0, edges=0,
                          checks=0, checks_queried=0, checks_concrete=0,
                          concretized=0, forced=0, max_trail=0)
        self.incomplete = []     # reasons why the exploration is not exhaustive
        self.ces = []
        self.path_models = []
        self.labels = {}
        self.vars = {}
        self.divs = {}
        self.inputs = {}
        self.observed = []
        self.reached = []
        self.conc_limit = 600
        self.check_depth = 0

    # -- solver ---------------------------------------------------------
    def _query(self):
        self.busy = True
        try:
            return self._query1()
        finally:
            self.progress = time.monotonic()
            self.busy = False

    stall = 15
    inc_ms = 500

    def _tick(self, *a):
        """A path that runs for a while without reaching any branch may be an
        endless loop: give it up, the replay of its inputs decides.

        An exception inside of the z3 bindings would leave objects without
        reference: wait until they are left."""
        if not self.busy and self.running and time.monotonic() - self.progress > self.stall:
            f = a[1] if len(a) > 1 else None
            while f is not None:
                if "/z3/" in f.f_code.co_filename:
                    signal.setitimer(signal.ITIMER_REAL, 0.03, 2)
                    return
                f = f.f_back
            self.progress = time.monotonic()
            raise PathBound("no branch in %d s" % self.stall)

    def _query1(self):
        """check-sat of the current solver stack; returns 'sat'/'unsat'/'unknown'"""
        if self.deadline is not None and time.monotonic() > self.deadline:
            raise Budget()
        t0 = time.monotonic()
        ms = self.query_ms
        if self.deadline is not None:
            ms = max(1000, min(ms, int((self.deadline - t0) * 1000) + 1000))
        # The incremental solver does no preprocessing: a query it does not
        # decide quickly is usually easy for a fresh solver
        if self.solver.z is not None:
            self.solver.z.set("timeout", min(ms, self.inc_ms))
            r = self.solver.z.check()
        else:
            r = "unknown"
        dt = time.monotonic() - t0
        self.stats["queries"] += 1
        self.stats["solver_s"] += dt
        s = str(r)
        if s == "unknown":
            t0 = time.monotonic()
            s2 = z3.SolverFor("QF_BV")
            s2.set("timeout", ms)
            s2.add(self.solver.assertions())
            r = s2.check()
            dt = time.monotonic() - t0
            self.stats["solver_s"] += dt
            s = str(r)
            if dt * 1000 < self.inc_ms:
                self.inc_ms = max(60, self.inc_ms // 2)
            else:
                self.inc_ms = min(1000, self.inc_ms * 2)
            if s == "sat":
                self._last_model = s2.model()
            self.stats[s] += 1
            return s
        self.stats[s] += 1
        if s == "sat":
            self._last_model = self.solver.z.model()
        return s

    def note_incomplete(self, why):
        if why not in self.incomplete:
            self.incomplete.append(why)

    # -- decisions ------------------------------------------------------
    def _push(self, d):
        self.solver.push()
        self.trail.append(d)
        self.pos += 1
        self.stats["decisions"] += 1
        self.stats["edges"] += 1
        if len(self.trail) > self.stats["max_trail"]:
            self.stats["max_trail"] = len(self.trail)
        if len(self.trail) > self.max_decisions:
            raise PathBound("decisions > %d" % self.max_decisions)
        if not (len(self.trail) & 63) and self.deadline is not None \
                and time.monotonic() > self.deadline:
            raise Budget()

    def holds(self, cond):
        """Value of a boolean term in the current model."""
        return z3.is_true(self.model.eval(cond, model_completion=True))

    def branch(self, cond, aux=None):
        if cond is True or cond is False:
            return cond
        i = self.pos
        trail = self.trail
        cid = cond.get_id()
        k = self.known.get(cid)
        if k is not None and k[0] is not None:
            return k[0]
        if i < len(trail):
            d = trail[i]
            if d.kind != "b" or d.cond.get_id() != cid:
                raise RuntimeError("non-deterministic replay: %s %s vs %s"
                                   % (d.kind, d.cond, cond))
            self.pos += 1
            self.known[cid] = (d.value, cond)
            return d.value
        v = self.holds(cond)
        self._push(Decision("b", cond, v, True, aux))
        self.solver.add(cond if v else z3.Not(cond))
        self.known[cid] = (v, cond)
        return v

    def choose(self, n, name=None):
        """Nondeterministic choice of an index below n."""
        if n <= 1:
            return 0
        i = self.pos
        if i < len(self.trail):
            d = self.trail[i]
            if d.kind != "c":
                raise RuntimeError("non-deterministic replay (choice)")
            self.pos += 1
            return d.value
        self._push(Decision("c", None, 0, n - 1))
        return 0

    def assume(self, cond):
        if isinstance(cond, SymBool):
            cond = cond.e
        if cond is True:
            return
        if cond is False:
            raise Infeasible()
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return
        if z3.is_false(cond):
            raise Infeasible()
        if self.pos < len(self.trail):
            d = self.trail[self.pos]
            if d.kind != "a":
                raise RuntimeError("non-deterministic replay (assume)")
            self.pos += 1
            return
        self._push(Decision("a", cond, True, False))
        self.solver.add(cond)
        if not self.holds(cond):
            r = self._query()
            if r == "unsat":
                raise Infeasible()
            if r == "unknown":
                self.note_incomplete("solver unknown on an assumption")
                self.stats["unknown_assume"] = self.stats.get("unknown_assume", 0) + 1
                raise Infeasible()
            self.model = self._last_model

    def divide(self, a, d):
        """Quotient and remainder of a SymInt by a constant, as fresh variables
        defined by a = q * d + r: much easier than a divider circuit."""
        key = (a.e.get_id(), d)
        qr = self.divs.get(key)
        if qr is not None:
            return qr
        qlo, qhi = a.lo // d, a.hi // d
        if qlo == qhi:
            qr = (qlo, a - qlo * d)
            self.divs[key] = qr
            return qr
        self.keep.append(a.e)
        w = width_for(min(a.lo, qlo * d), max(a.hi, qhi * d + d - 1))
        q = z3.BitVec("div!%d!%d" % key, width_for(qlo, qhi))
        r = z3.BitVec("mod!%d!%d" % key, width_for(0, d - 1))
        c = [fit(q, q.size(), w) * z3.BitVecVal(d, w) + fit(r, r.size(), w) == fit(a.e, a.e.size(), w),
             r >= 0, r <= d - 1, q >= qlo, q <= qhi]
        if self.model is not None and self.pos >= len(self.trail):
            v = self.value_of(a)
            self.model.update_value(q.decl(), z3.BitVecVal(v // d, q.size()))
            self.model.update_value(r.decl(), z3.BitVecVal(v % d, r.size()))
        self.assume(z3.And(*c))
        qr = (SymInt(q, qlo, qhi), SymInt(r, 0, d - 1))
        self.divs[key] = qr
        return qr

    def unknown_int(self, name, key, lo, hi, limit=None):
        """A value which is not modelled: anything in [lo, hi] (the same for
        the same key). What is proved holds for the real one."""
        x = self.divs.get(name)
        if x is None:
            self.keep.append(key)
            x = SymInt(z3.BitVec(name, width_for(lo, hi)), lo, hi)
            if self.model is not None and self.pos >= len(self.trail):
                self.model.update_value(x.e.decl(), z3.BitVecVal(0, x.e.size()))
            self.assume(z3.And(x.e >= lo, x.e <= hi))
            if limit is not None:
                self.assume(land(x <= limit, -limit <= x))
            self.divs[name] = x
        return x

    def check(self, cond, label):
        """Assert cond for every value of the inputs on the current path."""
        self.labels[label] = self.labels.get(label, 0) + 1
        if isinstance(cond, SymInt):
            cond = (cond != 0)
        if isinstance(cond, SymBool):
            c = cond.e
        else:
            c = bool(cond)
        if c is not True and c is not False:
            c = z3.simplify(c)
            if z3.is_true(c):
                c = True
            elif z3.is_false(c):
                c = False
        if self.pos < len(self.trail) and c is not True and c is not False:
            d = self.trail[self.pos]
            if d.kind != "k":
                raise RuntimeError("non-deterministic replay (check)")
            self.pos += 1
            if d.value:
                self.known[c.get_id()] = (True, c)
            return
        self.stats["checks"] += 1
        if c is True:
            self.stats["checks_concrete"] += 1
            return
        if c is False:
            self.stats["checks_concrete"] += 1
            raise Violated(label)
        if not self.holds(c):
            raise Violated(label)
        d = Decision("k", c, False, False)
        self._push(d)
        self.stats["checks_queried"] += 1
        self.solver.push()
        self.solver.add(z3.Not(c))
        try:
            r = self._query()
        finally:
            self.solver.pop()
        if r == "sat":
            self.model = self._last_model
            raise Violated(label)
        if r == "unknown":
            self.note_incomplete("solver unknown on assertion %r" % label)
            self.stats["unknown_check"] = self.stats.get("unknown_check", 0) + 1
            return
        # proved: a lemma for the rest of this path
        d.value = True
        self.known[c.get_id()] = (True, c)

    def value_of(self, x):
        """Concrete value of a (symbolic) int in the current model."""
        if isinstance(x, SymInt):
            return self.model.eval(x.e, model_completion=True).as_signed_long()
        return x

    def concretize(self, x, why=""):
        if not isinstance(x, SymInt):
            return x
        self.stats["concretized"] += 1
        n = 0
        while True:
            i = self.pos
            if i < len(self.trail) and self.trail[i].aux is not None \
                    and self.trail[i].aux[0] == x.e.get_id():
                v = self.trail[i].aux[1]
            else:
                v = self.value_of(x)
            c = (x == v)
            if c is True:
                return v
            if c is False:
                # another fact of the path excludes v: cannot happen
                raise RuntimeError("concretize: inconsistent model")
            e = z3.simplify(c.e)
            if z3.is_true(e):
                return v
            if z3.is_false(e):
                raise RuntimeError("concretize: inconsistent model")
            k = self.known.get(e.get_id())
            if self.branch(e, aux=(x.e.get_id(), v, x.e)):
                return v
            if k is not None:
                raise RuntimeError("concretize: excluded value")
            n += 1
            if n >= self.conc_limit:
                self.note_incomplete("more than %d values of a concretized "
                                     "expression (%s)" % (self.conc_limit, why))
                raise Infeasible()

    # -- exploration ----------------------------------------------------
    def reset_path(self):
        self.progress = time.monotonic()
        self.pos = 0
        self.known = {}
        self.divs = {}
        self.vars = {}
        self.inputs = {}
        self.observed = []
        self.reached = []

    def backtrack(self):
        """Move to the next unexplored path; False when there is none."""
        trail = self.trail
        while trail:
            d = trail[-1]
            self.solver.pop()
            if d.kind == "b" and d.alts:
                d.alts = False
                nv = not d.value
                self.solver.push()
                self.solver.add(d.cond if nv else z3.Not(d.cond))
                r = self._query()
                if r == "sat":
                    self.model = self._last_model
                    d.value = nv
                    d.aux = d.aux
                    self.stats["edges"] += 1
                    return True
                if r == "unknown":
                    self.note_incomplete("solver unknown on a branch")
                    self.stats["unknown_branch"] = self.stats.get("unknown_branch", 0) + 1
                self.solver.pop()
                trail.pop()
                continue
            if d.kind == "c" and d.alts:
                d.alts -= 1
                d.value += 1
                self.solver.push()
                self.stats["edges"] += 1
                return True
            trail.pop()
        return False

    def explore(self, fn, on_path):
        """Run fn on every feasible path.  on_path(outcome, exc) is called at
        the end of each one, with the solver stack and model of that path."""
        self.deadline = time.monotonic() + self.time_limit
        set_engine(self)
        self.busy = self.running = False
        self.progress = time.monotonic()
        signal.signal(signal.SIGALRM, self._tick)
        signal.setitimer(signal.ITIMER_REAL, 2, 2)
        try:
            r = self._query()
            assert r == "sat"
            self.model = self._last_model
            while True:
                self.reset_path()
                outcome, exc = "done", None
                self.running = True
                try:
                    fn()
                    self.running = False
                except Infeasible:
                    outcome = "infeasible"
                except Violated as e:
                    outcome, exc = "violated", e
                except PathBound as e:
                    outcome, exc = "bound", e
                except Unsupported as e:
                    outcome, exc = "unsupported", e
                except EngineControl:
                    raise
                except RecursionError as e:
                    outcome, exc = "unsupported", e
                except Exception as e:
                    outcome, exc = "exception", e
                self.running = False
                if outcome == "infeasible":
                    self.stats["pruned"] += 1
                else:
                    self.stats["paths"] += 1
                on_path(outcome, exc)
                if not self.backtrack():
                    break
        except Budget:
            self.note_incomplete("time budget exhausted")
            self.stats["budget"] = 1
        except StopJob:
            self.stats["stopped"] = 1
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            set_engine(None)


E = None


def set_engine(e):
    global E
    E = e


def engine():
    return E


# ---------------------------------------------------------------------------
# Integers
# ---------------------------------------------------------------------------

def width_for(lo, hi):
    """Smallest two's complement width that holds the interval."""
    w = 1
    if hi > 0:
        w = hi.bit_length() + 1
    if lo < 0:
        w = max(w, (-lo - 1).bit_length() + 1)
    return w


def fit(e, w0, w):
    """Resize a two's complement term to width w (value must fit)."""
    if w == w0:
        return e
    if w > w0:
        return z3.SignExt(w - w0, e)
    return z3.Extract(w - 1, 0, e)


def mk(e, lo, hi):
    """SymInt (or int) for term e, whose value is known to be in [lo, hi]."""
    if lo == hi:
        return lo
    w = width_for(lo, hi)
    w0 = e.size()
    if w != w0:
        e = fit(e, w0, w)
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def const(v, w):
    return z3.BitVecVal(v, w)


def term(x, w):
    """Two's complement term of width w for an int or a SymInt."""
    if isinstance(x, SymInt):
        return fit(x.e, x.e.size(), w)
    return z3.BitVecVal(x, w)


def is_int(x):
    return type(x) is SymInt or isinstance(x, int)


def mkbool(e):
    if e is True or e is False:
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    @property
    def __class__(self):
        return bool

    def __bool__(self):
        return E.branch(self.e)

    def as_int(self):
        return mk(z3.If(self.e, z3.BitVecVal(1, 2), z3.BitVecVal(0, 2)), 0, 1)

    def __hash__(self):
        return hash(bool(self))

    def __eq__(self, o):
        if isinstance(o, SymBool):
            return mkbool(self.e == o.e)
        if o is True or o is False:
            return mkbool(self.e if o else z3.Not(self.e))
        if is_int(o):
            return self.as_int() == o
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def __and__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return land(self, o)
        return self.as_int() & o
    __rand__ = __and__

    def __or__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return lor(self, o)
        return self.as_int() | o
    __ror__ = __or__

    def __xor__(self, o):
        if type(o) is SymBool or isinstance(o, bool):
            return lnot(self == o)
        return self.as_int() ^ o
    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))
    __int__ = __index__

    def __repr__(self):
        return "<symbool>"

    def __str__(self):
        return str(bool(self))

    def __format__(self, spec):
        return format(bool(self), spec)


def _boolop(name):
    def op(self, *a):
        return getattr(self.as_int(), name)(*a)
    op.__name__ = name
    return op


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "floordiv", "rfloordiv",
           "mod", "rmod", "lshift", "rlshift", "rshift", "rrshift", "lt", "le",
           "gt", "ge", "neg", "pos", "invert", "abs", "truediv", "rtruediv",
           "divmod", "rdivmod", "pow", "rpow"):
    setattr(SymBool, "__%s__" % _n, _boolop("__%s__" % _n))


def lnot(b):
    if isinstance(b, SymBool):
        return mkbool(z3.Not(b.e))
    return not b


def land(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif isinstance(b, SymInt):
            es.append((b != 0).e)
        elif not b:
            return False
    if not es:
        return True
    return mkbool(z3.And(es) if len(es) > 1 else es[0])


def lor(*bs):
    es = []
    for b in bs:
        if type(b) is SymBool:
            es.append(b.e)
        elif isinstance(b, SymInt):
            es.append((b != 0).e)
        elif b:
            return True
    if not es:
        return False
    return mkbool(z3.Or(es) if len(es) > 1 else es[0])


def ite(c, a, b):
    """Non-forking conditional on ints/bools."""
    if type(c) is not SymBool:
        return a if c else b
    if (a is True or a is False or type(a) is SymBool) and \
            (b is True or b is False or type(b) is SymBool):
        ea = a.e if type(a) is SymBool else z3.BoolVal(a)
        eb = b.e if type(b) is SymBool else z3.BoolVal(b)
        return mkbool(z3.If(c.e, ea, eb))
    if is_int(a) and is_int(b):
        la, ha = bounds(a)
        lb, hb = bounds(b)
        lo, hi = min(la, lb), max(ha, hb)
        w = width_for(lo, hi)
        return mk(z3.If(c.e, term(a, w), term(b, w)), lo, hi)
    return a if c else b


def bounds(x):
    if type(x) is SymInt:
        return x.lo, x.hi
    x = int(x)
    return x, x


def as_operand(o):
    """int / SymInt for an operand, or None."""
    t = type(o)
    if t is SymInt or t is int:
        return o
    if t is SymBool:
        return o.as_int()
    if isinstance(o, int):
        return int(o)
    return None


class SymInt:
    # lin: None, or (((base, factor), ...), constant): the same value as a
    # linear combination, kept to divide and compare without a solver
    __slots__ = ("e", "lo", "hi", "lin")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.lin = None

    @property
    def __class__(self):
        return int

    # -- conversions ----------------------------------------------------
    def __bool__(self):
        r = (self != 0)
        return bool(r)

    def __index__(self):
        return E.concretize(self, "__index__")

    __int__ = __index__
    __trunc__ = __index__

    def __hash__(self):
        return hash(E.concretize(self, "__hash__"))

    def __float__(self):
        return float(E.concretize(self, "__float__"))

    def __repr__(self):
        return "<symint>"

    def __str__(self):
        return str(E.concretize(self, "__str__"))

    def __format__(self, spec):
        return format(E.concretize(self, "__format__"), spec)

    def __round__(self, *a):
        return self

    def __ceil__(self):
        return self
    __floor__ = __ceil__

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def bit_length(self):
        n = max(self.lo.bit_length(), self.hi.bit_length())
        a = abs(self)
        r = 0
        for k in range(n):
            r = ite(a >= (1 << k), k + 1, r)
        return r

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from symhach.seqs import SymBytes
        length = E.concretize(length)
        if signed:
            if self < -(1 << (8 * length - 1)) or self >= (1 << (8 * length - 1)):
                raise OverflowError("int too big to convert")
        else:
            if self < 0:
                raise OverflowError("can't convert negative int to unsigned")
            if self >= (1 << (8 * length)):
                raise OverflowError("int too big to convert")
        els = [(self >> (8 * k)) & 0xFF for k in range(length)]
        if byteorder == "big":
            els.reverse()
        return SymBytes(els)

    # -- arithmetic -----------------------------------------------------
    def __add__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        if type(b) is int and b == 0:
            return self
        lo2, hi2 = bounds(b)
        lo, hi = self.lo + lo2, self.hi + hi2
        w = max(width_for(lo, hi), self.e.size())
        return with_lin(mk(term(self, w) + term(b, w), lo, hi), self, b, 1)
    __radd__ = __add__

    def __neg__(self):
        lo, hi = -self.hi, -self.lo
        w = max(width_for(lo, hi), self.e.size())
        return mk(-term(self, w), lo, hi)

    def __pos__(self):
        return self

    def __sub__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        if type(b) is int:
            return self + (-b)
        lo, hi = self.lo - b.hi, self.hi - b.lo
        w = max(width_for(lo, hi), self.e.size(), b.e.size())
        return with_lin(mk(term(self, w) - term(b, w), lo, hi), self, b, -1)

    def __rsub__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        lo2, hi2 = bounds(b)
        lo, hi = lo2 - self.hi, hi2 - self.lo
        w = max(width_for(lo, hi), self.e.size(), width_for(lo2, hi2))
        return with_lin(mk(term(b, w) - term(self, w), lo, hi), b, self, -1)

    def __mul__(self, o):
        b = as_operand(o)
        if b is None:
            if isinstance(o, (bytes, str, list, tuple)):
                return E.concretize(self, "sequence repeat") * o
            return NotImplemented
        if type(b) is int:
            if b == 0:
                return 0
            if b == 1:
                return self
            if b > 0 and not (b & (b - 1)):
                r = self << (b.bit_length() - 1)
                if self.lin is not None and type(r) is SymInt:
                    ts, c = self.lin
                    r.lin = (tuple((x, k * b) for x, k in ts), c * b)
                return r
        lo2, hi2 = bounds(b)
        ps = (self.lo * lo2, self.lo * hi2, self.hi * lo2, self.hi * hi2)
        lo, hi = min(ps), max(ps)
        w = max(width_for(lo, hi), self.e.size(), width_for(lo2, hi2))
        r = mk(term(self, w) * term(b, w), lo, hi)
        if type(b) is int and type(r) is SymInt:
            ts, c = lin_of(self)
            r.lin = (tuple((x, k * b) for x, k in ts), c * b)
        return r
    __rmul__ = __mul__

    def __floordiv__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return floordiv(self, b)

    def __rfloordiv__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return floordiv(b, self)

    def __mod__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return floormod(self, b)

    def __rmod__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return floormod(b, self)

    def __divmod__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return floordiv(self, b), floormod(self, b)

    def __rdivmod__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return floordiv(b, self), floormod(b, self)

    def __truediv__(self, o):
        from symhach.times import SymFrac
        return SymFrac.of(self) / o

    def __rtruediv__(self, o):
        from symhach.times import SymFrac
        return SymFrac.of(o) / self

    def __pow__(self, o, m=None):
        o = E.concretize(o, "exponent") if type(o) is SymInt else o
        if m is not None or not isinstance(o, int):
            return pow(E.concretize(self), o, m)
        r = 1
        for _ in range(o):
            r = r * self
        return r

    def __rpow__(self, o):
        if o == 2 and self.lo >= 0:
            return 1 << self
        return o ** E.concretize(self, "exponent")

    def __abs__(self):
        if self.lo >= 0:
            return self
        return ite(self < 0, -self, self)

    # -- bits -----------------------------------------------------------
    def __invert__(self):
        return mk(~self.e, ~self.hi, ~self.lo)

    def __lshift__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return shl(self, b)

    def __rlshift__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return shl(b, self)

    def __rshift__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return shr(self, b)

    def __rrshift__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        return shr(b, self)

    def __and__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        lo2, hi2 = bounds(b)
        if lo2 >= 0 or self.lo >= 0:
            cand = [h for (l, h) in ((self.lo, self.hi), (lo2, hi2)) if l >= 0]
            hi = min(cand)
            lo = 0
            w = width_for(0, hi)
            return mk(fit_trunc(self, w) & fit_trunc(b, w), lo, hi) \
                if True else None
        w = max(self.e.size(), width_for(lo2, hi2))
        return mk(term(self, w) & term(b, w), -(1 << (w - 1)), max(self.hi, hi2, 0))
    __rand__ = __and__

    def __or__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        lo2, hi2 = bounds(b)
        w = max(self.e.size(), width_for(lo2, hi2))
        if self.lo >= 0 and lo2 >= 0:
            lo, hi = max(self.lo, lo2), (1 << (w - 1)) - 1
        else:
            lo, hi = min(self.lo, lo2), (1 << (w - 1)) - 1
            if self.hi < 0 or hi2 < 0:
                hi = -1
        return mk(term(self, w) | term(b, w), lo, hi)
    __ror__ = __or__

    def __xor__(self, o):
        b = as_operand(o)
        if b is None:
            return NotImplemented
        lo2, hi2 = bounds(b)
        w = max(self.e.size(), width_for(lo2, hi2))
        if self.lo >= 0 and lo2 >= 0:
            lo, hi = 0, (1 << (w - 1)) - 1
        else:
            lo, hi = -(1 << (w - 1)), (1 << (w - 1)) - 1
        return mk(term(self, w) ^ term(b, w), lo, hi)
    __rxor__ = __xor__

    # -- comparisons ----------------------------------------------------
    def __eq__(self, o):
        b = as_operand(o)
        if b is None:
            if isinstance(o, float):
                if o != o or o in (float("inf"), float("-inf")) or o != int(o):
                    return False
                b = int(o)
            else:
                return NotImplemented
        lo2, hi2 = bounds(b)
        if hi2 < self.lo or lo2 > self.hi:
            return False
        scg = lin_cmp(self, b)
        if scg is not None:
            s, c, g = scg
            return False if c % g else s == -c // g
        w = max(self.e.size(), width_for(lo2, hi2))
        return mkbool(term(self, w) == term(b, w))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return lnot(r)

    def _lt(self, a, b):
        la, ha = bounds(a)
        lb, hb = bounds(b)
        if ha < lb:
            return True
        if la >= hb:
            return False
        scg = lin_cmp(a, b)
        if scg is not None:
            s, c, g = scg
            return s <= (-c - 1) // g
        w = max(width_for(la, ha), width_for(lb, hb))
        return mkbool(term(a, w) < term(b, w))

    def __lt__(self, o):
        b = as_operand(o)
        if b is None:
            return self._fcmp(o, "lt")
        return self._lt(self, b)

    def __gt__(self, o):
        b = as_operand(o)
        if b is None:
            return self._fcmp(o, "gt")
        return self._lt(b, self)

    def __le__(self, o):
        b = as_operand(o)
        if b is None:
            return self._fcmp(o, "le")
        return lnot(self._lt(b, self))

    def __ge__(self, o):
        b = as_operand(o)
        if b is None:
            return self._fcmp(o, "ge")
        return lnot(self._lt(self, b))

    def _fcmp(self, o, op):
        if not isinstance(o, float) or type(o) is not float:
            return NotImplemented
        import math
        if o == float("inf"):
            return op in ("lt", "le")
        if o == float("-inf"):
            return op in ("gt", "ge")
        if o != o:
            return False
        f = math.floor(o)
        if f == o:
            return getattr(self, "__%s__" % op)(int(o))
        if op in ("lt", "le"):
            return self <= f
        return self >= f + 1


def fit_trunc(x, w):
    """Low bits of x as a term of width w whose sign bit is 0 when the
    masked result needs w-1 bits (used by &)."""
    if type(x) is SymInt:
        n = x.e.size()
        if n >= w:
            return z3.Extract(w - 1, 0, x.e)
        return z3.SignExt(w - n, x.e)
    return z3.BitVecVal(x & ((1 << w) - 1), w)


def shl(a, b):
    lob, hib = bounds(b)
    if type(b) is int:
        if b < 0:
            raise ValueError("negative shift count")
        if b == 0:
            return a
        if type(a) is int:
            return a << b
        return mk(z3.Concat(a.e, z3.BitVecVal(0, b)), a.lo << b, a.hi << b)
    if lob < 0:
        if b < 0:
            raise ValueError("negative shift count")
        lob = 0
    if hib > 512:
        if b > 512:
            return shl(a, E.concretize(b, "shift count"))
        hib = 512
    la, ha = bounds(a)
    cs = (la << lob, la << hib, ha << lob, ha << hib)
    lo, hi = min(cs), max(cs)
    w = max(width_for(lo, hi), hib.bit_length() + 1, b.e.size(),
            width_for(la, ha))
    return mk(term(a, w) << term(b, w), lo, hi)


def shr(a, b):
    lob, hib = bounds(b)
    if type(b) is int:
        if b < 0:
            raise ValueError("negative shift count")
        if b == 0:
            return a
        if type(a) is int:
            return a >> b
        n = a.e.size()
        if b >= n:
            b = n - 1
            return mk(z3.Extract(n - 1, b, a.e), -1 if a.lo < 0 else 0,
                      -1 if a.hi < 0 else 0)
        return mk(z3.Extract(n - 1, b, a.e), a.lo >> b, a.hi >> b)
    if lob < 0:
        if b < 0:
            raise ValueError("negative shift count")
        lob = 0
    la, ha = bounds(a)
    cs = [x >> s for x in (la, ha) for s in (lob, min(hib, 1 << 16))]
    lo, hi = min(cs), max(cs)
    w = max(width_for(la, ha), b.e.size())
    return mk(term(a, w) >> term(b, w), lo, hi)


def _nonzero(b):
    if type(b) is int:
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")
        return
    if b.lo <= 0 <= b.hi:
        if b == 0:
            raise ZeroDivisionError("integer division or modulo by zero")


def _div_interval(a, b):
    la, ha = bounds(a)
    lb, hb = bounds(b)
    ds = [d for d in (lb, hb) if d]
    if lb < 0 < hb:
        ds += [-1, 1]
    elif lb == 0 and hb > 0:
        ds += [1]
    elif hb == 0 and lb < 0:
        ds += [-1]
    qs = [x // d for x in (la, ha) for d in ds]
    return min(qs), max(qs)


def lin_of(x):
    if type(x) is SymInt:
        return x.lin or (((x, 1),), 0)
    return ((), x)


def with_lin(r, a, b, sign):
    """r = a + sign * b: keep the linear combination if there is one."""
    if type(r) is not SymInt or (getattr(a, "lin", None) is None and getattr(b, "lin", None) is None):
        return r
    (ta, ca), (tb, cb) = lin_of(a), lin_of(b)
    ts = list(ta)
    for x, k in tb:
        k *= sign
        for i, (y, l) in enumerate(ts):
            if y is x:
                ts[i] = (y, k + l)
                break
        else:
            ts.append((x, k))
    ts = tuple(t for t in ts if t[1])
    if not ts:
        return ca + sign * cb
    if len(ts) <= 8:
        r.lin = (ts, ca + sign * cb)
    return r


def lin_sum(ts, c):
    r = c
    for x, k in ts:
        r = x * k + r
    return r


def lin_split(a, d):
    """(q, r) with a = q * d + r and r simpler, or None."""
    if type(a) is not SymInt or a.lin is None:
        return None
    ts, c = a.lin
    div = tuple((x, k // d) for x, k in ts if k % d == 0)
    if not div:
        return None
    rest = tuple(t for t in ts if t[1] % d)
    return lin_sum(div, c // d), lin_sum(rest, c % d)


def lin_cmp(a, b):
    """(s, c, g) with a - b = s * g + c and g > 1, or None."""
    if getattr(a, "lin", None) is None and getattr(b, "lin", None) is None:
        return None
    (ta, ca), (tb, cb) = lin_of(a), lin_of(b)
    d = {}
    for x, k in ta:
        d[id(x)] = (x, k)
    for x, k in tb:
        d[id(x)] = (x, d.get(id(x), (x, 0))[1] - k)
    ts = [t for t in d.values() if t[1]]
    g = 0
    for x, k in ts:
        g = math.gcd(g, k)
    if g <= 1:
        return None
    return lin_sum([(x, k // g) for x, k in ts], 0), ca - cb, g


DIV_BITS = 14


def floordiv(a, b):
    _nonzero(b)
    if type(a) is int and type(b) is int:
        return a // b
    if type(b) is int and b == 1 and type(a) is SymInt:
        return a
    if type(b) is int and b > 1:
        qr = lin_split(a, b)
        if qr is not None:
            return qr[0] + (floordiv(qr[1], b) if type(qr[1]) is SymInt else qr[1] // b)
        if b & (b - 1) and a.e.size() > DIV_BITS:
            return E.divide(a, b)[0]
    if type(b) is int and b > 0 and not (b & (b - 1)):
        return shr(a, b.bit_length() - 1)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    lo, hi = _div_interval(a, b)
    if la >= 0 and lb >= 0:
        w = max(width_for(la, ha), width_for(lb, hb))
        return mk(z3.UDiv(term(a, w), term(b, w)), lo, hi)
    w = max(width_for(la, ha), width_for(lb, hb), width_for(lo, hi)) + 1
    ta, tb = term(a, w), term(b, w)
    q = ta / tb                       # truncating signed division
    r = ta - q * tb
    zero = z3.BitVecVal(0, w)
    adj = z3.And(r != zero, (r < zero) != (tb < zero))
    return mk(z3.If(adj, q - 1, q), lo, hi)


def floormod(a, b):
    _nonzero(b)
    if type(a) is int and type(b) is int:
        return a % b
    if type(b) is int and b > 1:
        qr = lin_split(a, b)
        if qr is not None:
            return floormod(qr[1], b) if type(qr[1]) is SymInt else qr[1] % b
        if b & (b - 1) and a.e.size() > DIV_BITS:
            return E.divide(a, b)[1]
    if type(b) is int and b > 0 and not (b & (b - 1)):
        if b == 1:
            return 0
        return a & (b - 1)
    la, ha = bounds(a)
    lb, hb = bounds(b)
    if la >= 0 and lb >= 0:
        hi = min(ha, hb - 1)
        w = max(width_for(la, ha), width_for(lb, hb))
        return mk(z3.URem(term(a, w), term(b, w)), 0, max(hi, 0))
    q = floordiv(a, b)
    r = a - q * b
    lo = lb + 1 if lb < 0 else 0
    hi = hb - 1 if hb > 0 else 0
    if type(r) is SymInt:
        w = r.e.size()
        w2 = max(w, width_for(lo, hi))
        return mk(fit(r.e, w, w2), max(lo, r.lo), min(hi, r.hi))
    return r


def fresh_int(name, lo, hi):
    """Symbolic input in [lo, hi]: (value, list of range assumptions)."""
    w = width_for(lo, hi)
    if lo == 0 and hi == (1 << (w - 1)) - 1 and w > 1:
        v = z3.BitVec(name, w - 1)
        return mk(z3.ZeroExt(1, v), lo, hi), []
    v = z3.BitVec(name, w)
    x = SymInt(v, lo, hi)
    cs = []
    if lo > -(1 << (w - 1)):
        cs.append(v >= lo)
    if hi < (1 << (w - 1)) - 1:
        cs.append(v <= hi)
    return x, [SymBool(z3.simplify(c)) for c in cs]
