"""Regular expressions on symbolic subjects: a backtracking matcher over the
syntax tree of the re module, forking on each character test."""
import re
from re import _constants as C, _parser

from symhach import core, seqs
from symhach.core import Unsupported

_trees = {}


def tree(real):
    if hasattr(real, "tree"):
        return real.tree
    key = (real.pattern, real.flags)
    if key not in _trees:
        if real.flags & re.IGNORECASE and (isinstance(real.pattern, bytes) or real.flags & re.LOCALE):
            raise Unsupported("IGNORECASE on symbolic bytes")
        _trees[key] = _parser.parse(real.pattern, real.flags & ~re.UNICODE if isinstance(real.pattern, (bytes, seqs.SymBytes)) else real.flags)
    return _trees[key]


def _isword(c):
    return c.isalnum() or c == "_"


def _cat_ranges(cat, is_bytes):
    name = str(cat).lower()
    neg = "_not_" in name
    if name.endswith("digit"):
        r = [(48, 57)] if is_bytes else seqs.char_ranges(str.isdecimal)
    elif name.endswith("space"):
        r = [(9, 13), (32, 32)] if is_bytes else seqs.char_ranges(str.isspace)
    elif name.endswith("word"):
        r = [(48, 57), (65, 90), (95, 95), (97, 122)] if is_bytes else seqs.char_ranges(_isword)
    else:
        raise Unsupported("regex category %s" % cat)
    return r, neg


def _inverse(ranges):
    out, at = [], 0
    for a, b in sorted(ranges):
        if a > at:
            out.append((at, a - 1))
        at = max(at, b + 1)
    if at <= 0x10ffff:
        out.append((at, 0x10ffff))
    return out


def sym_in(x, ranges):
    if any(seqs.is_sym(y) for r in ranges for y in r):
        return core.lor(*[core.land(x >= a, x <= b) if a is not b else x == a for a, b in ranges])
    if seqs.is_sym(x):
        return seqs.in_ranges(x, ranges)
    return any(a <= x <= b for a, b in ranges)


_cases = {}


def nocase(c):
    """Code points equal to the letter c for IGNORECASE."""
    if c not in _cases:
        if c > 127:
            raise Unsupported("IGNORECASE with a letter which is not ASCII")
        p = re.compile(re.escape(chr(c)), re.IGNORECASE)
        _cases[c] = [(x, x) for x in range(0x3000) if p.match(chr(x))]
    return _cases[c]


def set_ranges(items, is_bytes):
    neg = False
    out = []
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            out.append((av, av))
        elif op is C.RANGE:
            out.append((av[0], av[1]))
        elif op is C.CATEGORY:
            r, n = _cat_ranges(av, is_bytes)
            out.extend(_inverse(r) if n else r)
        else:
            raise Unsupported("regex set %s" % (op,))
    return out, neg


class Matcher:
    def __init__(self, real, s, end=None):
        self.p = tree(real)
        self.flags = self.p.state.flags | real.flags
        self.is_bytes = isinstance(real.pattern, (bytes, seqs.SymBytes))
        self.s = s
        self.els = s.els
        self.n = len(self.els) if end is None else min(end, len(self.els))

    def inset(self, x, ranges, neg=False):
        r = sym_in(x, ranges)
        if neg:
            r = core.lnot(r)
        return bool(r)

    def word(self, pos):
        if not 0 <= pos < self.n:
            return False
        r, _ = _cat_ranges("category_word", self.is_bytes)
        return self.inset(self.els[pos], r)

    def one(self, op, av, x):
        """single character nodes"""
        if self.flags & re.IGNORECASE:
            if op is C.LITERAL:
                return self.inset(x, nocase(av))
            if op is C.NOT_LITERAL or op is C.IN and any(
                    k is C.LITERAL and chr(v).isalpha() or k is C.RANGE and any(chr(c).isalpha() for c in range(v[0], v[1] + 1))
                    for k, v in av):
                raise Unsupported("IGNORECASE with a set of letters")
        if op is C.LITERAL:
            return bool(x == av)
        if op is C.NOT_LITERAL:
            return bool(x != av)
        if op is C.ANY:
            return True if self.flags & re.DOTALL else bool(x != 10)
        r, neg = set_ranges(av, self.is_bytes)
        return self.inset(x, r, neg)

    def m(self, nodes, i, pos, g, k):
        """k(pos, groups) or None; the first success wins"""
        if i == len(nodes):
            return k(pos, g)
        op, av = nodes[i]
        if op in (C.LITERAL, C.NOT_LITERAL, C.ANY, C.IN):
            if pos < self.n and self.one(op, av, self.els[pos]):
                return self.m(nodes, i + 1, pos + 1, g, k)
            return None

        def rest(p2, g2):
            return self.m(nodes, i + 1, p2, g2, k)
        if op is C.BRANCH:
            for alt in av[1]:
                r = self.m(list(alt), 0, pos, g, rest)
                if r is not None:
                    return r
            return None
        if op is C.SUBPATTERN:
            group, add, dele, p = av
            if add & ~re.ASCII or dele:
                raise Unsupported("inline regex flags")

            def close(p2, g2):
                if group is not None:
                    g2 = dict(g2)
                    g2[group] = (pos, p2)
                return rest(p2, g2)
            return self.m(list(p), 0, pos, g, close)
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            return self.rep(list(p), lo, hi, op is C.MAX_REPEAT, 0, pos, g, rest)
        if op is C.AT:
            if self.at(av, pos):
                return rest(pos, g)
            return None
        if op in (C.ASSERT, C.ASSERT_NOT):
            d, p = av
            if d < 0:
                w = p.getwidth()
                if w[0] != w[1]:
                    raise Unsupported("variable width lookbehind")
                r = None
                if pos - w[0] >= 0:
                    r = self.m(list(p), 0, pos - w[0], g, lambda a, b: (a, b))
            else:
                r = self.m(list(p), 0, pos, g, lambda a, b: (a, b))
            if op is C.ASSERT:
                return rest(pos, r[1]) if r is not None else None
            return rest(pos, g) if r is None else None
        if op is C.GROUPREF:
            if av not in g:
                return None
            a, b = g[av]
            if pos + b - a > self.n:
                return None
            if not bool(seqs.eq_lists(self.els[a:b], self.els[pos:pos + b - a])):
                return None
            return rest(pos + b - a, g)
        raise Unsupported("regex node %s" % (op,))

    def rep(self, p, lo, hi, greedy, count, pos, g, k):
        def more():
            if hi is not C.MAXREPEAT and count >= hi:
                return None

            def again(p2, g2):
                if p2 == pos and count >= lo:
                    return None
                return self.rep(p, lo, hi, greedy, count + 1, p2, g2, k)
            return self.m(p, 0, pos, g, again)
        if count < lo:
            return more()
        if greedy:
            r = more()
            return r if r is not None else k(pos, g)
        r = k(pos, g)
        return r if r is not None else more()

    def at(self, where, pos):
        if where in (C.AT_BEGINNING, C.AT_BEGINNING_STRING):
            if pos == 0:
                return True
            return bool(where is C.AT_BEGINNING and self.flags & re.MULTILINE and self.els[pos - 1] == 10)
        if where is C.AT_END_STRING:
            return pos == self.n
        if where is C.AT_END:
            if pos == self.n:
                return True
            if self.flags & re.MULTILINE:
                return bool(self.els[pos] == 10)
            return pos == self.n - 1 and bool(self.els[pos] == 10)
        if where in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            return (self.word(pos - 1) != self.word(pos)) == (where is C.AT_BOUNDARY)
        raise Unsupported("regex position %s" % (where,))

    def run(self, pos, full=False, advance=False):
        def end(p, g):
            if full and p != self.n or advance and p == pos:
                return None
            return p, g
        r = self.m(list(self.p), 0, pos, {}, end)
        if r is None:
            return None
        return SymMatch(self, pos, r[0], r[1])


class SymMatch:
    def __init__(self, m, start, end, groups):
        self.re_groups = m.p.state.groups - 1
        self.names = m.p.state.groupdict
        self.string = m.s
        self.spans = dict(groups)
        self.spans[0] = (start, end)

    def __bool__(self):
        return True

    def _i(self, k):
        return self.names[k] if isinstance(k, str) else k

    def _one(self, k, default=None):
        k = self._i(k)
        if not 0 <= k <= self.re_groups:
            raise IndexError("no such group")
        if k not in self.spans:
            return default
        a, b = self.spans[k]
        return self.string[a:b]

    def group(self, *ks):
        if not ks:
            return self._one(0)
        if len(ks) == 1:
            return self._one(ks[0])
        return tuple(self._one(k) for k in ks)

    __getitem__ = _one

    def groups(self, default=None):
        return tuple(self._one(k, default) for k in range(1, self.re_groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(n, default) for n in self.names}

    def start(self, k=0):
        return self.spans.get(self._i(k), (-1, -1))[0]

    def end(self, k=0):
        return self.spans.get(self._i(k), (-1, -1))[1]

    def span(self, k=0):
        return self.spans.get(self._i(k), (-1, -1))

    def __getattr__(self, name):
        raise Unsupported("match.%s" % name)


def _subject(real, s):
    if isinstance(s, seqs.SymFmt):
        s = s.sym()
    if type(s) is str:
        s = seqs.SymStr([ord(c) for c in s])
    if isinstance(real.pattern, (bytes, seqs.SymBytes)) != (not isinstance(s, seqs.SymStr)):
        raise TypeError("cannot use a %s pattern on a %s object" % (
            ("bytes", "string") if isinstance(real.pattern, (bytes, seqs.SymBytes)) else ("string", "bytes-like")))
    return s


def match(real, s, pos=0, endpos=None):
    return Matcher(real, _subject(real, s), endpos).run(pos)


def fullmatch(real, s, pos=0, endpos=None):
    return Matcher(real, _subject(real, s), endpos).run(pos, True)


def search(real, s, pos=0, endpos=None):
    m = Matcher(real, _subject(real, s), endpos)
    for p in range(pos, m.n + 1):
        r = m.run(p)
        if r is not None:
            return r
    return None


def finditer(real, s, pos=0, endpos=None):
    m = Matcher(real, _subject(real, s), endpos)
    p = pos
    advance = False
    while p <= m.n:
        r = m.run(p, advance=advance)
        if r is None:
            p += 1
            advance = False
            continue
        yield r
        advance = r.end() == p
        p = r.end()


def findall(real, s, *a):
    out = []
    for m in finditer(real, s, *a):
        g = m.groups()
        out.append(m.group() if not g else g[0] if len(g) == 1 else g)
    return out


def _template(real, repl):
    parsed = _parser.parse_template(repl, real)
    # 3.12: list of literals and group numbers
    return parsed


def sub(real, repl, s, count=0, *a):
    s = _subject(real, s)
    out = []
    at = 0
    n = 0
    for m in finditer(real, s):
        if count and n >= count:
            break
        n += 1
        out.append(s[at:m.start()])
        at = m.end()
        if callable(repl):
            out.append(repl(m))
        else:
            for part in _template(real, repl):
                if isinstance(part, int):
                    out.append(m.group(part) or s[0:0])
                else:
                    out.append(part)
    out.append(s[at:])
    r = s[0:0]
    for x in out:
        r = r + x
    return r
