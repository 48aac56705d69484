"""C17: multiple pattern matching finds the occurrences of its patterns."""
from symhach.h import H
from harness.regexes import Language, text_node

PRELOAD = ["hachoir.regex"]
ASSUMPTIONS = [
    "patterns without assertions (^ $ \\b), which do not match the empty text",
    "the re module matches as the syntax tree of its own parser says",
]


def search(env):
    import re
    from hachoir.regex import PatternMatching
    p = PatternMatching()
    lo, hi = env["lo"], env["hi"]
    pats = []           # (user, node, text or None)

    def add(k, spec):
        kind = spec[0]
        if kind == "s":
            text = env.str("p%d" % k, spec[1], lo, hi)
            node = text_node([ord(c) for c in text])
            dup = any([x[2] is not None and x[2] == text for x in pats])
            p.addString(text, k)
            if not dup:
                pats.append((k, node, text))
        else:
            text = spec[1]
            if spec[0] == "rs":
                c = env.str("p%d" % k, 1, lo, hi)
                text = text.replace("@", c)
            p.addRegex(text, k)
            pats.append((k, env.regex(re.compile(text, re.DOTALL)), None))
        return len(pats)

    def run(name, n):
        data = env.str(name, n, lo, hi)
        lang = Language(env, [ord(c) for c in data])
        found = list(p.search(data))
        prev = 0
        cover = []
        for s, e, item in found:
            env.check(prev <= s < e <= n, "occurrences are ordered and do not overlap")
            prev = e
            cover.append((s, e))
            mine = [x for x in pats if x[0] == item.user]
            env.check(len(mine) == 1, "the item is one of the patterns")
            env.check(lang.ends(mine[0][1], s)[e], "the text found is an occurrence of the item")
            if mine[0][2] is None:
                env.check(env.no(env.any(*[x[2] == data[s:e] for x in pats if x[2] is not None])),
                          "the item of a text which is a string pattern is this pattern")
            longest = p.max_length
            env.check(e - s <= longest, "no occurrence is longer than max_length")
        for s in range(n):
            if not any([a <= s < b for a, b in cover]):
                for user, node, text in pats:
                    env.check(env.no(env.any(*lang.ends(node, s)[s + 1:])),
                              "no occurrence starts where nothing is reported")
        env.observe(*[(s, e, item.user) for s, e, item in found])

    for k, spec in enumerate(env["patterns"]):
        add(k, spec)
    run("data", env["n"])
    if env.cfg.get("later"):
        add(100, env["later"])
        run("more", env["n"])


def lengths(env):
    """max_length and the refusal of unbounded patterns."""
    from hachoir.regex import PatternMatching
    p = PatternMatching()
    want = 0
    for k, spec in enumerate(env["patterns"]):
        if spec[0] == "s":
            p.addString(env.str("p%d" % k, spec[1], 0x61, 0x63))
            want = max(want, spec[1])
        elif spec[0] == "r":
            p.addRegex(spec[1])
            want = max(want, spec[2])
        else:
            try:
                p.addRegex(spec[1])
                env.fail("patterns without maximum length are refused")
            except ValueError:
                env.check(True, "patterns without maximum length are refused")
    env.check(p.max_length == want, "max_length is the longest of the patterns")
    data = env.str("data", 2, 0x61, 0x63)
    if want == 0:
        env.check(list(p.search(data)) == [], "nothing is found without pattern")


S1, S2, S3 = ("s", 1), ("s", 2), ("s", 3)


def R(t):
    return ("r", t)


def A(t):
    return ("rs", t)


SETS = [
    [S1], [S2], [S3], [S1, S1], [S1, S2], [S2, S1], [S2, S2], [S2, S3], [S3, S2], [S1, S2, S1], [S2, S2, S2],
    [R("ab")], [R("a"), R("ab?")], [R("ab?"), R("a")], [S1, A("@b")], [S2, A("[a@]b")], [A("@[ab]"), A("a@")],
    [S1, A("@{2}")], [S2, A("a@?")], [S2, A("@{1,2}c")], [A("(a|@)b"), S2], [S2, A("[^@]a")], [A("(a@|b)"), A("(a|@b)")],
    [A("@a"), A("@b"), S2], [S1, R("a[bc]"), R("b.")], [A("a.@"), S2], [A("@(b|cb)"), S2], [S1, R("ab{2,3}")],
]


def cfgs(deep):
    out = []
    for s in SETS:
        three = sum(x[1] if x[0] == "s" else 1 for x in s) >= 4
        out.append(dict(patterns=s, n=(3 if three else 4) + deep, lo=0x61, hi=0x62 if three else 0x63))
    for s in ([R("a.b"), S1], [R("."), S1], [A("@."), S2]):
        out.append(dict(patterns=s, n=3 + deep, lo=0x0a, hi=0x0b))
    for s in ([S1, S2], [R("\\.[a-]"), S2], [S2, A("[@]-")]):
        out.append(dict(patterns=s, n=2 + deep, lo=0x2d, hi=0x2f))
    for s, later in (([S1], S2), ([S2], A("a@")), ([R("ab")], S1), ([], S2)):
        out.append(dict(patterns=s, later=later, n=3, lo=0x61, hi=0x62))
    return out


LENGTHS = [dict(patterns=p) for p in (
    [], [S1], [S1, S3, S2], [("r", "ab?c", 3), S2], [S2, ("r", "a{2,4}", 4), S3], [("r", "(a|bcd)e{2}", 5), ("r", "a", 1)],
    [("u", "a*")], [("u", "(a+|b)c"), S2], [S1, ("u", "a{2,}")], [("u", "b(a*)?")], [("u", "(ba+){2}"), ("r", "[ab]", 1)])]

HARNESSES = [
    H("search", search, cfgs(0), cfgs(1), bounds="28 sets of 1-3 patterns (strings of 1-3 characters, regexes with one free character) in texts of 3-4 characters (1 more thorough) of an alphabet of 2-3; patterns added between two searches",
      expect=("the text found is an occurrence of the item", "no occurrence starts where nothing is reported")),
    H("lengths", lengths, LENGTHS, bounds="sets of up to 3 patterns", expect=("max_length is the longest of the patterns", "patterns without maximum length are refused")),
]
