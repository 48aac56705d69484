"""C16: the regular expressions of hachoir.regex keep their language."""
import re

from symhach.h import H
from harness.regexes import Language, text_node

PRELOAD = ["hachoir.regex"]
ASSUMPTIONS = [
    "the re module matches as the syntax tree of its own parser says",
    "word characters of \\b are those of ASCII",
]
REFUSED = (SyntaxError, NotImplementedError, ValueError)


def min_wrong(node):
    """(a{n,}|b){x,}: what (a{n}|b){x,} matches; unions with the empty text
    make it (a{n}|b)*."""
    parts, empty = [], False

    def flat(x):
        if x[0] == "or":
            return [z for y in x[1] for z in flat(y)]
        return [x]
    for x in flat(node[3]):
        if x[0] == "rep":
            x = ("rep", x[1], x[1], x[3])
        if x == ("and", []):
            empty = True
        parts.append(x)
    return ("rep", 0 if empty else node[1], node[2], ("or", parts))


class Build:
    """Builds regexes with the public API, with the language they should have."""

    def __init__(self, env, lo=0, hi=0x10ffff):
        self.env = env
        self.lo = lo
        self.count = 0
        self.hi = hi
        self.made = []

    def chars(self, n):
        self.count += 1
        return self.env.str("s%d" % self.count, n, lo=self.lo, hi=self.hi)

    def build(self, shape):
        from hachoir import regex as R
        kind = shape[0]
        if kind == "s":
            text = self.chars(shape[1])
            r, node = R.createString(text), text_node([ord(c) for c in text])
        elif kind == "r":
            text = self.chars(shape[1])
            r = R.createRange(*list(text), exclude=shape[2])
            node = ("set", [(ord(c), ord(c)) for c in text], shape[2])
        elif kind == "i":
            # ranges of characters
            text = self.chars(2 * shape[1])
            items, pairs = [], []
            for k in range(shape[1]):
                a, b = ord(text[2 * k]), ord(text[2 * k + 1])
                self.env.assume(a <= b)
                items.append(R.RegexRangeItem(a, b))
                pairs.append((a, b))
            r = R.RegexRange(items, exclude=shape[2])
            node = ("set", pairs, shape[2])
        elif kind == ".":
            r, node = R.RegexDot(), ("set", [], True)
        elif kind == "^":
            r, node = R.RegexStart(), ("at", "start")
        elif kind == "$":
            r, node = R.RegexEnd(), ("at", "end")
        elif kind == "b":
            r, node = R.RegexWord(), ("at", "word")
        elif kind == "":
            r, node = R.RegexEmpty(), ("and", [])
        elif kind == "=":
            # the same regex again
            return self.made[shape[1]]
        elif kind in "|&":
            a, na = self.build(shape[1])
            b, nb = self.build(shape[2])
            if kind == "|":
                r, node = a | b, ("or", [na, nb])
            else:
                r, node = a + b, ("and", [na, nb])
        else:
            a, na = self.build(shape[3])
            r, node = R.RegexRepeat(a, shape[1], shape[2]), ("rep", shape[1], shape[2], na)
        self.made.append((r, node))
        return r, node


def meaning(env, r):
    """Syntax tree of the compiled regex."""
    try:
        p = r.compile(python=True)
    except re.error:
        env.fail("the regex is compiled")
        return None, None
    return p, env.regex(p)


def build(env):
    from hachoir import regex as R
    b = Build(env, env.cfg.get("lo", 0), env.cfg.get("hi", 0x10ffff))
    try:
        r, node = b.build(env["shape"])
    except ValueError:
        # repetitions which make no sense are refused
        env.check(env.cfg.get("refused", False), "the regex is built")
        return
    n = env["n"]
    subject = [ord(c) for c in env.str("subject", n)]
    lang = Language(env, subject)
    known = False
    if env.cfg.get("negated"):
        # unions of negated ranges neither of which includes the other
        (_, na), (_, nb) = b.made[:2]
        one = [env.all(*[env.any(*[x[0] == y[0] for y in q[1]]) for x in p[1]]) for p, q in ((na, nb), (nb, na))]
        known = env.known("or-negated", env.no(env.any(*one)))
        wrong = ("set", na[1] + nb[1], True)
    elif env.cfg.get("min"):
        known = env.known("repeat-or-min", True)
        wrong = min_wrong(node)
    for x, xn in b.made[::-1]:
        p, tree = meaning(env, x)
        if p is None:
            return
        env.check(tree is not None, "the compiled regex has no other flags")
        same = lang.same(tree, xn)
        if known is not False and x is r:
            same = env.any(same, env.all(known, lang.same(tree, wrong)))
        env.check(same,
                  "the compiled regex matches the union, concatenation or repetition it stands for")
        lo, hi = x.minLength(), x.maxLength()
        env.check(lang.bounded(xn, lo, hi), "minLength() and maxLength() bound the matches")
        if not env.symbolic:
            s = ''.join(map(chr, subject))
            if (p.fullmatch(s) is not None) != bool(lang.ends(tree, 0)[n]):
                env.fail("the re module agrees with the language computed")
    # the text of the regex is a regex with the same meaning
    text = str(r)
    try:
        again = R.parse(text)
    except REFUSED:
        env.observe("refused")
    else:
        p, tree = meaning(env, again)
        if p is None:
            return
        env.check(tree is not None, "the compiled regex has no other flags")
        first = env.regex(r.compile(python=True))
        env.check(lang.same(tree, first), "the text of a regex is parsed as the same regex")
    env.observe(text)


def compare(env):
    """Equality and match() say the truth."""
    b = Build(env)
    x, xn = b.build(env["a"])
    y, yn = b.build(env["b"])
    lang = Language(env, [ord(c) for c in env.str("subject", env["n"])])
    if x == y:
        env.check(lang.same(xn, yn), "equal regexes match the same texts")
    if x.match(y):
        env.check(lang.includes(xn, yn), "a regex which matches another one includes its texts")


def text(env):
    """A regex written as text."""
    from hachoir import regex as R
    t = env["before"]
    n = env["k"]
    if n:
        s = env.str("text", n, hi=0x7f)
        alphabet = env["alphabet"]
        for c in s:
            env.assume(c in alphabet)
        t = t + s
    t = t + env["after"]
    try:
        r = R.parse(t)
    except REFUSED:
        env.observe("refused")
        env.check(not env.cfg.get("accepted", False), "the regex is accepted")
        return
    try:
        p = re.compile(t, re.DOTALL)
    except (re.error, OverflowError):
        # repetitions of an assertion
        env.observe("refused by re")
        return
    env.check(True, "accepted texts are compared")
    lang = Language(env, [ord(c) for c in env.str("subject", env["n"], hi=0x7f)])
    want = env.regex(p)
    p2, tree = meaning(env, r)
    if p2 is None:
        return
    env.check(tree is not None, "the compiled regex has no other flags")
    same = lang.same(tree, want)
    env.check(same,
              "the regex parsed matches what Python matches with the text")
    env.check(lang.bounded(want, r.minLength(), r.maxLength()),
              "minLength() and maxLength() bound the matches")
    env.observe(str(r))


S1, S2, S3 = ("s", 1), ("s", 2), ("s", 3)
SHAPES = [
    ("|", S2, S2), ("|", S1, S1), ("|", S3, S2), ("|", S2, ("s", 3)),
    ("|", ("|", S1, S1), S1), ("|", ("|", S2, S2), S2), ("|", S1, ("|", S2, S1)),
    ("&", S2, S1), ("&", S1, ("|", S2, S1)), ("&", ("|", S1, S2), S1),
    ("r", 3, False), ("r", 3, True), ("i", 2, False), ("i", 2, True), ("i", 3, False),
    ("|", ("r", 2, False), S1), ("|", S1, ("r", 2, False)), ("|", ("i", 2, False), ("i", 1, False)),
    ("|", ("r", 2, True), S1), ("|", S1, ("i", 1, True)), ("|", ("r", 1, True), ("r", 2, False)),
    ("|", (".",), S1), ("|", S1, (".",)), ("|", (".",), ("r", 2, True)), ("|", (".",), S2),
    ("&", (".",), (".",)), ("|", ("&", (".",), S1), ("&", (".",), S1)),
    ("|", ("&", S1, (".",)), S2), ("|", S2, ("&", S1, (".",))), ("|", ("&", S1, (".",)), ("&", S1, S1)),
    ("|", ("&", S1, ("r", 2, False)), ("&", S1, ("r", 2, False))),
    ("|", ("&", S1, ("r", 1, True)), ("&", S1, ("r", 1, False))),
    ("&", ("^",), S1), ("&", S1, ("$",)), ("|", ("^",), S1), ("|", ("^",), ("$",)),
    ("|", ("&", ("^",), S1), ("&", ("^",), S1)), ("|", ("&", S1, ("$",)), S1),
    ("|", ("&", S2, ("$",)), ("&", S2, (".",))), ("&", ("&", ("^",), ("^",)), ("$",)),
    ("|", ("",), S1), ("|", S2, ("",)), ("&", ("",), S2), ("&", S1, ("",)), ("|", ("&", S1, (".",)), ("",)),
    # the same operand twice
    ("|", ("&", S1, (".",)), ("=", 2)), ("&", ("&", ("&", (".",), S1), S1), ("=", 4)),
    ("|", ("&", ("&", (".",), S1), S1), ("=", 2)), ("&", ("&", (".",), S1), ("&", ("=", 2), S1)),
    # repetitions
    ("*", 0, None, S2), ("*", 0, 1, S1), ("*", 2, 2, ("r", 2, False)), ("*", 1, 3, (".",)),
    ("*", 1, None, ("|", S2, S1)), ("*", 0, None, ("",)), ("*", 0, None, ("^",)),
    ("&", ("*", 1, 2, S1), S1), ("|", ("*", 0, None, S1), ("*", 0, None, S1)),
    ("|", ("*", 1, 2, S1), S1), ("|", S1, ("*", 0, 1, S1)), ("|", ("*", 1, 2, S2), ("*", 1, 2, S2)),
    ("|", ("&", ("*", 0, 1, S1), S1), ("&", ("*", 0, 1, S1), S1)),
    ("*", 1, 2, ("|", S1, ("",))), ("*", 2, 3, ("|", ("*", 0, None, S1), S1)),
]
HEAVY = [
    ("|", ("i", 2, False), ("i", 1, False)), ("|", ("&", S1, ("r", 2, False)), ("&", S1, ("r", 2, False))), ("|", ("|", S2, S2), S2),
    ("|", ("|", S1, S1), S1), ("i", 3, False), ("|", ("&", S1, ("r", 1, True)), ("&", S1, ("r", 1, False))),
    ("|", ("&", ("*", 0, 1, S1), S1), ("&", ("*", 0, 1, S1), S1)), ("|", S1, ("r", 2, False)), ("|", ("r", 2, False), S1), ("|", S1, ("|", S2, S1)),
    ("|", ("r", 1, True), ("r", 2, False)), ("|", ("r", 2, True), S1), ("r", 3, False), ("r", 3, True), ("i", 2, True), ("i", 2, False),
]
WORD = [("&", ("b",), S1), ("&", S1, ("b",)), ("|", ("b",), S1), ("|", ("&", ("b",), S1), ("&", ("b",), S1)),
        ("|", ("&", S1, ("b",)), S1), ("|", ("b",), ("^",)), ("*", 0, 1, ("b",))]


def repeats():
    bounds = [(0, 1), (0, None), (1, None), (2, 2), (1, 2), (1, 3), (2, 3), (2, None), (3, 3), (0, 2), (0, 3), (2, 4), (3, 4), (3, 5)]
    return [(a, b) for a in bounds for b in bounds]


def nested(kind, a, b):
    """Repetitions of repetitions, of unions and of concatenations."""
    inner = ("*",) + a + (S1,)
    if kind == "or":
        inner = ("|", inner, S1)
    elif kind == "or-empty":
        inner = ("|", ("|", inner, S1), ("",))
    elif kind == "and":
        inner = ("&", inner, S1)
    return ("*",) + b + (inner,)


def bad_min(kind, a, b):
    # (a{n,}|b){x,} => (a{n}|b){x,}: pinned by tests/regex_regression.rst
    return kind in ("or", "or-empty") and a[0] >= 2 and a[1] is None and b[1] is None


ANY = [(S1,), (S2,), (("r", 1, False),), (("r", 2, False),), (("r", 2, True),), (("i", 1, False),), (("i", 1, True),),
       (("|", S1, S1),), (("&", S1, ("r", 1, False)),), (("*", 0, None, S1),)]
RANGES = [("r", 3, False), ("r", 3, True), ("i", 2, False), ("i", 2, True),
          ("|", ("r", 1, False), ("i", 1, False)), ("|", S1, ("i", 1, True)), ("|", ("i", 1, False), S1)]


def shapes(deep):
    out = []
    n = 4 if deep else 3
    for s, in ANY:
        if deep or s in (S1, S2):
            out.append(dict(shape=s, n=2))
        else:
            out.append(dict(shape=s, n=2, lo=0x5b, hi=0x60))
            out.append(dict(shape=s, n=2, lo=0x2a, hi=0x2e))
    for s in RANGES:
        if deep:
            out.append(dict(shape=s, n=2, lo=0x5b, hi=0x5f))      # [ \\ ] ^ _
            out.append(dict(shape=s, n=2, lo=0x20, hi=0x7f))
        else:
            out.append(dict(shape=s, n=1, lo=0x5b, hi=0x5f))
        out.append(dict(shape=s, n=2, lo=0x2b, hi=0x2e))      # + , - .
    for s in SHAPES:
        if not deep and s in HEAVY[:2]:
            continue
        if not deep and s in HEAVY:
            out.append(dict(shape=s, n=2, lo=0x61, hi=0x63))
        else:
            out.append(dict(shape=s, n=n, lo=0x61, hi=0x64))
    if not deep:
        out.append(dict(shape=("|", ("&", S1, ("r", 1, False)), ("&", S1, ("r", 1, False))), n=2, lo=0x61, hi=0x63))
        out.append(dict(shape=HEAVY[0], n=1, lo=0x61, hi=0x63))
    for s in WORD:
        out.append(dict(shape=s, n=n if deep else 2, lo=0x2c if deep else 0x2e, hi=0x31))
    for s in (("|", ("r", 2, True), ("r", 1, True)), ("|", ("r", 1, True), ("r", 1, True))):
        out.append(dict(shape=s, n=2, lo=0x61, hi=0x64, negated=True))
    return out


def repeated(deep):
    out = []
    for kind in ("plain", "or", "or-empty", "and"):
        for k, (a, b) in enumerate(repeats()):
            if not deep and (k % 13 if kind != "plain" else k % 2):
                continue
            out.append(dict(shape=nested(kind, a, b), n=6 if deep else 5 if kind == "plain" else 4, hi=0x62, lo=0x61, min=bad_min(kind, a, b)))
    for k, (a, b) in enumerate(repeats()):
        for op in "|&":
            if deep or not k % (3 if op == "|" else 10):
                out.append(dict(shape=(op, ("*",) + a + (S1,), ("*",) + b + (("=", 0),)), n=5, hi=0x62, lo=0x61))
    return out


def compared(deep):
    atoms = [S1, S2, ("r", 1, False), ("r", 2, False), ("r", 1, True), ("r", 2, True), (".",), ("",), ("^",),
             ("&", S1, (".",)), ("|", S2, S1), ("*", 0, 1, S1)]
    out = [dict(a=a, b=b, n=2) for a in atoms for b in atoms]
    out += [dict(a=("*",) + a + (S1,), b=("*",) + b + (("=", 0),), n=4) for a, b in repeats()]
    out += [dict(a=("&", ("*", 0, 1, S1), (".",)), b=("&", ("*", 0, 1, ("=", 0)), (".",)), n=3),
            dict(a=("|", ("*", 0, 1, S1), S2), b=("|", ("*", 0, 2, ("=", 0)), ("=", 2)), n=3)]
    return out


def texts(deep):
    out = []

    def add(before, k, after, alphabet, n=3, **kw):
        out.append(dict(before=before, k=k, after=after, alphabet=alphabet, n=n, **kw))
    k = 1 if deep else 0
    add("", 3 + k, "", "ab.|(")
    add("", 3 + k, "", "a[]^-")
    add("", 3 + k, "", "a*?+")
    add("", 3 + k, "", "a{}2,")
    add("", 3 + k, "", "a()|")
    add("", 2 + k, "", "\\ab.[")
    add("[", 3 + k, "]b", "a-^]")
    add("[", 3 + k, "]", "\\-a]")
    add("[a", 2 + k, "]", "-z^b")
    add("a{", 2 + k, "}b", "123," if deep else "12,", 3 if deep else 2)
    add("(a|", 2 + k, ")b", "ab|(")
    add("(", 3 + k, ")*b", "ab|")
    add("(a", 2 + k, "b)+", "|*?.")
    add("^", 2 + k, "a", "^$a.")
    add("a", 2 + k, "", "$b\\.")
    add("\\", 1, "a", ".^$[](){}|+?*\\ 'bdx1")
    add("a(?:", 1 + k, "b)", "a|?b")
    add("(", 2 + k, "", "?:a)")
    return out


def both(f):
    return f(False), f(True)


HARNESSES = [
    H("build", build, *both(shapes), bounds="expressions of up to 4 operations on strings of 1-3 characters, ranges of up to 3 characters or intervals, any characters; subjects of 2-3 characters (4 thorough)",
      expect=("the compiled regex matches the union, concatenation or repetition it stands for", "minLength() and maxLength() bound the matches", "the text of a regex is parsed as the same regex")),
    H("repeat", build, *both(repeated), bounds="repetitions of repetitions, of unions and concatenations with one, unions of repetitions of the same regex; 14 x 14 bounds of 0-5 or none (some of them quick); subjects of 4-6 characters",
      expect=("the compiled regex matches the union, concatenation or repetition it stands for",)),
    H("compare", compare, *both(compared), bounds="12 x 12 shapes of regexes and pairs of repetitions of the same one, subjects of 2-4 characters", expect=("equal regexes match the same texts", "a regex which matches another one includes its texts")),
    H("text", text, *both(texts), bounds="18 sets of texts with 1-3 free characters (1 more thorough) of alphabets of 3-16 characters; subjects of 3 characters", expect=("accepted texts are compared", "the regex parsed matches what Python matches with the text")),
]
