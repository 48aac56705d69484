"""Regular expressions whose pattern has symbolic characters: the parser of
the re module, run symbolically on the pattern."""
import importlib.util
import re
from re import _parser as real_parser

from symhach import core, seqs
from symhach.core import Unsupported

_mod = None


def _plain_sub(source, state, verbose, nested):
    """_parse_sub of re without its optimizations, which keep the language."""
    m = _mod
    items = []
    while True:
        items.append(m._parse(source, state, verbose, nested + 1, not nested and not items))
        if not source.match("|"):
            break
        if not nested:
            verbose = state.flags & re.VERBOSE
    if len(items) == 1:
        return items[0]
    sub = m.SubPattern(state)
    sub.append((real_parser.BRANCH, (None, items)))
    return sub


def module():
    global _mod
    if _mod is None:
        from symhach import loader
        l = loader.SymLoader("re._sym_parser", real_parser.__file__)
        spec = importlib.util.spec_from_loader("re._sym_parser", l)
        m = importlib.util.module_from_spec(spec)
        l.exec_module(m)
        loader.LOADED.pop(real_parser.__file__, None)
        m._parse_sub = _plain_sub
        m._uniq = list
        m.error = lambda msg, *a: re.error(str(msg) if type(msg) is str else "bad pattern")
        _mod = m
    return _mod


def parse(s, flags=0):
    """Syntax tree of the symbolic pattern; forks; raises re.error."""
    if type(s) is seqs.SymFmt:
        s = s.sym()
    if type(s) is str:
        return real_parser.parse(s, flags)
    return module().parse(s, flags)


def tree_of(p):
    """Syntax tree of a compiled pattern."""
    from symhach import shims
    if type(p) is SymPattern:
        return p.tree
    if type(p) is shims.RePattern:
        p = p._real
    return real_parser.parse(p.pattern, p.flags)


class SymPattern:
    """A compiled pattern with symbolic characters."""

    def __init__(self, s, flags):
        self.pattern = s
        self.tree = parse(s, flags)
        self.flags = int(self.tree.state.flags) | int(flags) | int(re.UNICODE)
        self.groups = self.tree.state.groups - 1

    def _do(self, meth, s, *a):
        from symhach import retrees
        return getattr(retrees, meth)(self, s, *a)

    def match(self, s, *a):
        return self._do("match", s, *a)

    def search(self, s, *a):
        return self._do("search", s, *a)

    def fullmatch(self, s, *a):
        return self._do("fullmatch", s, *a)

    def finditer(self, s, *a):
        return self._do("finditer", s, *a)

    def findall(self, s, *a):
        return self._do("findall", s, *a)

    def __getattr__(self, name):
        raise Unsupported("%s of a symbolic pattern" % name)


def simple(p):
    """The tree of a compiled pattern in the nodes of harness.regexes."""
    from symhach import retrees
    C = retrees.C
    t = tree_of(p)
    flags = p.flags
    if flags & ~(re.UNICODE | re.DOTALL | re.MULTILINE):
        return None

    def seq(nodes):
        return ("and", [one(op, av) for op, av in nodes])

    def one(op, av):
        if op is C.LITERAL:
            return ("set", [(av, av)], False)
        if op is C.NOT_LITERAL:
            return ("set", [(av, av)], True)
        if op is C.ANY:
            return ("set", [] if flags & re.DOTALL else [(10, 10)], True)
        if op is C.IN:
            r, neg = retrees.set_ranges(av, False)
            return ("set", r, neg)
        if op is C.BRANCH:
            return ("or", [seq(x) for x in av[1]])
        if op is C.SUBPATTERN:
            if av[1] or av[2]:
                raise Unsupported("inline regex flags")
            return seq(av[3])
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, x = av
            return ("rep", lo, None if hi is C.MAXREPEAT else hi, seq(x))
        if op is C.AT:
            return ("at", {C.AT_BEGINNING: "start", C.AT_END: "end", C.AT_BOUNDARY: "word"}[av])
        raise Unsupported("regex node %s" % (op,))
    if flags & re.MULTILINE:
        return None
    return seq(t)
