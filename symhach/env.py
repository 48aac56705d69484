"""Environments in which a harness runs: symbolically (SymEnv, every input is
a solver variable) or concretely (ConcreteEnv, replay of an assignment against
the unmodified code)."""


class Skip(BaseException):
    """Concrete run: the inputs do not satisfy an assumption."""


class ConcreteViolation(BaseException):
    def __init__(self, label):
        BaseException.__init__(self, label)
        self.label = label


class BaseEnv:
    cfg = {}

    def __getitem__(self, k):
        return self.cfg[k]


class ConcreteEnv(BaseEnv):
    symbolic = False

    def __init__(self, cfg, inputs, known=()):
        self.cfg = cfg
        self.inputs = inputs
        self.observed = []
        self.reached = []
        self.known_ids = set(known)
        self.used_known = set()

    def _get(self, name):
        if name not in self.inputs:
            raise Skip()
        return self.inputs[name]

    def int(self, name, lo, hi):
        v = self._get(name)
        if not lo <= v <= hi:
            raise Skip()
        return v

    def bool(self, name):
        return bool(self._get(name))

    def bytes(self, name, n):
        v = bytes(self._get(name))
        if len(v) != n:
            raise Skip()
        return v

    def str(self, name, n, lo=0, hi=0x10ffff, ranges=None):
        v = self._get(name)
        if len(v) != n:
            raise Skip()
        return ''.join(map(chr, v))

    def choice(self, name, options):
        return options[self._get(name)]

    def assume(self, c):
        if not c:
            raise Skip()

    def check(self, c, label):
        self.reached.append(label)
        if not c:
            raise ConcreteViolation(label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, *xs):
        self.observed.append(plain(xs))

    def known(self, kid, cond):
        if kid in self.known_ids and cond:
            self.used_known.add(kid)
            return True
        return False

    def all(self, *cs):
        return all(cs)

    def any(self, *cs):
        return any(cs)

    def no(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or b

    def ite(self, c, a, b):
        return a if c else b

    def pin(self, x):
        return x

    def make_str(self, cps):
        return ''.join(map(chr, cps))

    def regex(self, p):
        """Syntax tree of a compiled pattern."""
        from symhach import repattern
        return repattern.simple(p)


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(y) for y in x]
    if isinstance(x, (bytes, bytearray)):
        return ["bytes", bytes(x).hex()]
    if isinstance(x, str):
        return ["str", x.encode("utf-8", "surrogatepass").hex()]
    if x is None or isinstance(x, (int, bool)):
        return int(x) if x is not None else None
    return str(x)


class SymEnv(BaseEnv):
    symbolic = True

    def __init__(self, eng, cfg, known=()):
        from symhach import core, seqs
        self.core, self.seqs = core, seqs
        self.E = eng
        self.cfg = cfg
        self.known_ids = set(known)

    def int(self, name, lo, hi):
        E = self.E
        if name in E.inputs:
            raise RuntimeError("duplicate input %r" % name)
        if lo == hi:
            E.inputs[name] = lo
            return lo
        x, cs = self.core.fresh_int(name, lo, hi)
        E.inputs[name] = x
        for c in cs:
            E.assume(c)
        return x

    def bool(self, name):
        return self.int(name, 0, 1) == 1

    def bytes(self, name, n):
        els = [self.core.fresh_int("%s[%d]" % (name, k), 0, 255)[0] for k in range(n)]
        self.E.inputs[name] = els
        return self.seqs.SymBytes.mk(els)

    def str(self, name, n, lo=0, hi=0x10ffff, ranges=None):
        els = []
        for k in range(n):
            x, cs = self.core.fresh_int("%s[%d]" % (name, k), lo, hi)
            for c in cs:
                self.E.assume(c)
            if ranges:
                self.E.assume(self.seqs.in_ranges(x, ranges))
            els.append(x)
        self.E.inputs[name] = els
        return self.seqs.SymStr.mk(els)

    def choice(self, name, options):
        k = self.E.choose(len(options))
        self.E.inputs[name] = k
        return options[k]

    def assume(self, c):
        self.E.assume(self._b(c))

    def _b(self, c):
        if isinstance(c, self.core.SymInt) and type(c) is self.core.SymInt:
            return c != 0
        if type(c) is self.core.SymBool:
            return c
        return bool(c)

    def check(self, c, label):
        self.E.reached.append(label)
        self.E.check(self._b(c) if not (c is True or c is False) else c, label)

    def fail(self, label):
        self.check(False, label)

    def observe(self, *xs):
        self.E.observed.append(xs)

    def known(self, kid, cond):
        if kid in self.known_ids:
            return cond
        return False

    def all(self, *cs):
        return self.core.land(*cs) if cs else True

    def any(self, *cs):
        return self.core.lor(*cs) if cs else False

    def no(self, c):
        return self.core.lnot(c)

    def implies(self, a, b):
        return self.core.lor(self.core.lnot(a), b)

    def ite(self, c, a, b):
        return self.core.ite(c, a, b)

    def pin(self, x):
        """Fork on the values of x."""
        return self.E.concretize(x, "pin")

    def make_str(self, cps):
        return self.seqs.SymStr.mk(list(cps))

    def regex(self, p):
        from symhach import repattern
        return repattern.simple(p)

    # -- evaluation under the current model -----------------------------
    def model_inputs(self):
        out = {}
        for k, v in self.E.inputs.items():
            if isinstance(v, list):
                out[k] = [self.E.value_of(x) for x in v]
            else:
                out[k] = self.E.value_of(v)
        return out

    def eval(self, x):
        from symhach import times
        t = type(x)
        core, seqs = self.core, self.seqs
        if t is core.SymInt:
            return self.E.value_of(x)
        if t is core.SymBool:
            return int(self.E.holds(x.e))
        if t in (seqs.SymBytes, seqs.SymByteArray):
            return ["bytes", bytes(self.E.value_of(e) for e in x.els).hex()]
        if t is seqs.SymStr:
            s = ''.join(chr(self.E.value_of(e)) for e in x.els)
            return plain(s)
        if t is seqs.SymFmt:
            return plain(self.eval_fmt(x))
        if t is times.SymDate:
            return "%04d-%02d-%02d" % tuple(self.E.value_of(v) for v in (x.year, x.month, x.day))
        if t is times.SymDatetime and x.tzinfo is not None:
            return self.eval_fmt(x.isoformat(" "))
        if t is times.SymDatetime:
            import datetime
            return str(times.REAL_EPOCH + datetime.timedelta(microseconds=self.E.value_of(x.us)))
        if t is times.SymTimedelta:
            import datetime
            return str(datetime.timedelta(microseconds=self.E.value_of(x.us)))
        if isinstance(x, (list, tuple)):
            return [self.eval(y) for y in x]
        return plain(x)

    def eval_fmt(self, x):
        seqs = self.seqs
        if type(x) is str:
            return x
        if type(x) is seqs.SymStr:
            return ''.join(chr(self.E.value_of(e)) for e in x.els)
        out = ""
        for p in x.parts:
            if type(p) is tuple:
                conv, v, flags, width, prec = p
                if conv == "R":
                    v = self.eval(v)
                    v = bytes.fromhex(v[1]) if v[0] == "bytes" else bytes.fromhex(v[1]).decode("utf-8", "surrogatepass")
                    out += repr(v)
                    continue
                if conv in "sr":
                    v = self.eval_fmt(v)
                    conv = "s"
                elif conv == "f":
                    return out + "<float>"
                else:
                    v = self.E.value_of(v)
                if conv == "b":
                    out += format(v, flags + (str(width) if width else "") + "b")
                    continue
                out += ("%" + flags + (str(width) if width else "")
                        + ("." + str(prec) if prec is not None else "") + conv) % v
            else:
                out += self.eval_fmt(p)
        return out
