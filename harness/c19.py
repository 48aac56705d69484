"""C19: a metadata object keeps each valid value given once, and exports all of them."""
from symhach.h import H

PRELOAD = ["hachoir.metadata", "hachoir.metadata.metadata", "hachoir.metadata.metadata_item"]
ASSUMPTIONS = [
    "values are strings, integers, dates, durations or None; the text of numbers with decimals is outside",
]
BLANK = [0, 9, 10, 11, 13, 32]


def norm(env, s, raw):
    """The string without spaces around it and with Unix newlines, never two in a row."""
    cs = [ord(c) for c in s]
    if not raw:
        while cs and env.any(*[cs[0] == b for b in BLANK]):
            cs = cs[1:]
        while cs and env.any(*[cs[-1] == b for b in BLANK]):
            cs = cs[:-1]
    out = []
    newline = False
    for c in cs:
        if env.any(c == 10, c == 13):
            if not newline:
                out.append(10)
            newline = True
        else:
            out.append(c)
            newline = False
    return env.make_str(out)


def strings(env):
    from hachoir.metadata import config
    config.MAX_STR_LENGTH = env.cfg.get("limit", 300)
    config.RAW_OUTPUT = env.cfg.get("raw", False)
    try:
        some_strings(env)
    finally:
        config.MAX_STR_LENGTH = 300
        config.RAW_OUTPUT = False


def some_strings(env):
    from hachoir.metadata.metadata import RootMetadata
    limit = env.cfg.get("limit", 300)
    raw = env.cfg.get("raw", False)
    alphabet = env["alphabet"]
    m = RootMetadata()
    wanted = []
    for k, n in enumerate(env["lengths"]):
        s = env.str("s%d" % k, n, lo=0, hi=127)
        for c in s:
            env.assume(env.any(*[ord(c) == x for x in alphabet]))
        if env.cfg.get("bytes"):
            m.author = s.encode("latin1")
        elif env.cfg.get("pair"):
            m.author = (s, "text %d" % k)
        else:
            m.author = s
        v = norm(env, s, raw)
        if len(v):
            if limit and limit < len(v):
                v = v[:limit] + "(...)"
            wanted.append(v)
    got = m.getValues("author")
    for v in wanted:
        env.check(env.any(*[x.startswith(v) for x in got]), "every value given is kept, or a longer one")
    for i, x in enumerate(got):
        env.check(env.any(*[x == v for v in wanted]), "the values kept are those given, normalized")
        for j, y in enumerate(got):
            if i != j:
                env.check(env.no(x.startswith(y)), "no value is kept twice or with its beginning")
    # in the order of the first value given which leads to them
    last = -1
    for x in got:
        at = [k for k, v in enumerate(wanted) if x.startswith(v)][0]
        env.check(last <= at, "values are in the order they were given")
        last = at
    env.check(m.has("author") == (len(got) > 0), "has() tells if there is a value")
    if got:
        env.check(env.all(m.get("author") == got[0], m.getText("author") is not None), "get() is the first value")
        if not env.cfg.get("pair"):
            env.check(env.all(*[m.getText("author", index=k) == x for k, x in enumerate(got)]), "the text of a string is itself")
        else:
            env.check(env.all(*[m.getText("author", index=k)[:5] == "text " for k, x in enumerate(got)]), "the text given with a value is kept")
    env.check(m.get("author", "none", index=len(got)) == "none", "get() gives the default value")
    env.check(m.getText("author", "none", index=len(got)) == "none", "getText() gives the default value")
    env.check(bool(m) == (len(got) > 0), "an empty metadata is false")
    env.observe(*got)


RANGES = {
    "width": (1, 20000), "height": (1, 20000), "nb_channel": (1, 8), "sample_rate": (1000, 192000),
    "bits_per_sample": (1, 64), "nb_colors": (1, 2 ** 24), "bits_per_pixel": (1, 256), "track_number": (1, 999),
    "track_total": (1, 999), "nb_page": (1, 20000), "width_dpi": (1, 10000), "height_dpi": (1, 10000),
    "frame_rate": (1, 150), "bit_rate": (1, 500 * 1024 * 1024), "file_size": (None, None), "compr_size": (None, None),
}


def numbers(env):
    from hachoir.metadata.metadata import RootMetadata
    key = env["key"]
    lo, hi = RANGES[key]
    m = RootMetadata()
    wanted = []
    for k in range(env["n"]):
        v = env.int("v%d" % k, -5, 2 ** 33)
        setattr(m, key, v)
        if env.all(lo is None or lo <= v, hi is None or v <= hi) and not any(v == w for w in wanted):
            wanted.append(v)
    got = m.getValues(key)
    env.check(len(got) == len(wanted), "numbers in the range of the item are kept, once")
    env.check(env.all(*[a == b for a, b in zip(got, wanted)]), "numbers are kept as they are")
    if key in ("width", "height", "width_dpi", "height_dpi"):
        unit = " DPI" if key.endswith("dpi") else " pixels"
        for k, v in enumerate(got):
            env.check(m.getText(key, index=k) == "%u%s" % (v, unit), "text of a size")
    if key == "nb_channel":
        for k, v in enumerate(got):
            text = m.getText(key, index=k)
            env.check(env.all(env.implies(v == 1, text == "mono"), env.implies(v == 2, text == "stereo"),
                              env.implies(v > 2, text == "%u" % v)), "text of the channels")
    # values of another type are refused
    if key not in ("nb_page",):
        setattr(m, key, None)
        setattr(m, key, "many")
        setattr(m, key, b"12x")
        env.check(len(m.getValues(key)) == len(wanted), "values of another type are refused")
    m.title = 12
    env.check(not m.has("title"), "values of another type are refused")
    bad = False
    try:
        m.not_an_item = 1
    except KeyError:
        bad = True
    env.check(bad, "unknown items are refused")
    env.observe(*got)


def tracks(env):
    from hachoir.metadata.metadata import RootMetadata
    m = RootMetadata()
    a = env.str("a", env["a"], lo=48, hi=57)
    total = env["b"] >= 0
    text = a
    if total:
        b = env.str("b", env["b"], lo=48, hi=57)
        text = a + "/" + b
    if env["junk"]:
        text = text + "x"
    m.track_number = text

    def number(s):
        v = 0
        for c in s:
            v = v * 10 + (ord(c) - 48)
        return v
    na = number(a)
    here = env.all(not env["junk"] or total, len(a) > 0, 1 <= na, na <= 999)
    got = m.getValues("track_number")
    env.check(env.any(env.all(here, len(got) == 1), env.all(env.no(here), len(got) == 0)), "the track number is kept when it is valid")
    if got:
        env.check(got[0] == na, "track number")
    got = m.getValues("track_total")
    if total:
        nb = number(b)
        here = env.all(not env["junk"], len(b) > 0, 1 <= nb, nb <= 999)
        env.check(env.any(env.all(here, len(got) == 1), env.all(env.no(here), len(got) == 0)), "the number of tracks is kept when it is valid")
        if got:
            env.check(got[0] == nb, "number of tracks")
    else:
        env.check(len(got) == 0, "no number of tracks is invented")
    env.observe(*got)


LETTERS = [chr(c) for c in range(97, 123)]


def language(env):
    from hachoir.core.iso639 import ISO639_2
    from hachoir.metadata.metadata import RootMetadata
    m = RootMetadata()
    code = env["first"] + env.choice("second", LETTERS) + env.str("third", 1, lo=0x61, hi=0x7a)
    m.language = code
    m.language = code
    codes = [c for c in ISO639_2 if c[:2] == code[:2]]
    known = env.any(*[code == c for c in codes])
    got = m.getValues("language")
    env.check(env.any(env.all(known, len(got) == 1), env.all(env.no(known), len(got) == 0)), "ISO 639-2 codes are kept, once")
    if got:
        env.check(got[0].code == code, "language kept")
        env.check(env.any(*[env.all(code == c, str(got[0]) == ISO639_2[c]) for c in codes]), "name of the language")
    env.observe(len(got))


def dates(env):
    from datetime import datetime, timedelta
    from hachoir.metadata.metadata import RootMetadata
    m = RootMetadata()
    base = datetime(*env["base"])
    s = env.int("s", -env["around"], env["around"])
    d = base + timedelta(seconds=s)
    m.creation_date = d
    m.creation_date = d
    m.last_modification = "not a date"
    got = m.getValues("creation_date")
    ok = env.all(datetime(1850, 1, 1) <= d, d <= datetime(2030, 12, 31))
    env.check(env.any(env.all(ok, len(got) == 1), env.all(env.no(ok), len(got) == 0)), "dates from 1850 to 2030 are kept, once")
    if got:
        env.check(got[0] == d, "date kept")
    env.check(not m.has("last_modification"), "a text which is not a date is refused")
    env.observe(len(got))


def durations(env):
    from datetime import timedelta
    from hachoir.metadata.metadata import RootMetadata
    m = RootMetadata()
    ms = env.int("ms", *env["range"])
    t = timedelta(milliseconds=ms)
    m.duration = t
    got = m.getValues("duration")
    ok = env.all(1 <= ms, ms <= 365 * 86400 * 1000)
    env.check(env.any(env.all(ok, len(got) == 1), env.all(env.no(ok), len(got) == 0)), "durations from 1 ms to a year are kept")
    if got:
        env.check(got[0] == t, "duration kept")
    env.observe(len(got))


ITEMS = [("title", "Title", 100), ("artist", "Artist", 101), ("duration", "Duration", 201), ("version", "Version", 220),
         ("width", "Image width", 301), ("comment", "Comment", 902), ("endian", "Endianness", 952)]


def build(env, m, prefix):
    """Give some values; expected (priority, key, description, text) in order."""
    out = []
    for key, desc, prio in ITEMS:
        n = env.choice(prefix + key, env["counts"].get(key, [0]))
        for k in range(n):
            if key == "width":
                v = env.int("%s%s%d" % (prefix, key, k), 1000, 9999)
                env.assume(env.all(*[v != w for p, kk, d, w, t in out if kk == key]))
                text = "%u pixels" % v
                value = v
            else:
                c = env.int("%s%s%d" % (prefix, key, k), 97, 98 if n == 1 else 122)
                v = env.make_str([97 + k, c])
                env.assume(c != 97 + k)
                text = value = v
            setattr(m, key, v)
            out.append((prio, key, desc, value, text))
    return out


def same_lines(env, got, want):
    if got is None:
        return not want
    return env.all(len(got) == len(want), *[a == b for a, b in zip(got, want)])


def export(env):
    from hachoir.metadata.metadata import RootMetadata
    m = RootMetadata()
    items = build(env, m, "")
    prio = env.int("priority", 0, 1100)
    human = env.bool("human")
    if env["default"]:
        got = m.exportPlaintext(human=human)
        prio = 999
    else:
        got = m.exportPlaintext(priority=prio, human=human)
    prio = max(100, min(prio, 999))
    want = []
    for p, key, desc, value, text in items:
        if p <= prio:
            if human:
                want.append("- %s: %s" % (desc, text))
            else:
                want.append("- %s: %s" % (key, value))
    if want:
        want = ["Metadata:"] + want
    env.check(same_lines(env, got, want), "the export lists the values up to the priority, in the order of the priorities")
    if items and env["default"] and human:
        env.check(str(m) == "\n".join(want), "str() is the whole export")
    env.observe(len(want))


def groups(env):
    from hachoir.metadata.metadata import RootMetadata, MultipleMetadata
    root = MultipleMetadata()
    want = []
    common = build(env, root, "root")
    if common:
        want.append("Common:")
        want += ["- %s: %s" % (d, t) for p, k, d, v, t in common]
    names = []
    counts = {}
    for k, (key, header) in enumerate(env["groups"]):
        g = RootMetadata()
        items = build(env, g, "g%d" % k)
        done = root.addGroup(key, g, header)
        env.check(done == bool(items), "only groups with values are added")
        if not items:
            continue
        if key.endswith("[]"):
            counts[key] = counts.get(key, 0) + 1
            key = key[:-2] + "[%u]" % counts[key]
        names.append((key, g))
        want.append((header or "Metadata") + ":")
        want += ["- %s: %s" % (d, t) for p, kk, d, v, t in items]
    env.check(same_lines(env, root.exportPlaintext(), want), "the export has the groups in order")
    env.check(env.all(*[key in root and root[key] is g for key, g in names]), "groups are found by name")
    env.check([id(g) for g in root.iterGroups()] == [id(g) for key, g in names], "groups are listed in order")
    env.check(bool(root) == (len(want) > 0), "metadata without any value is false")
    env.observe(len(want))


def cfgs_strings(deep):
    out = []
    for alphabet in ([97, 98], [97, 10, 13], [97, 32, 0], [97, 9, 11], [97, 98, 32]):
        for lengths in ((1,), (3,), (1, 2), (2, 1), (2, 2), (3, 2), (2, 3), (1, 2, 1), (2, 1, 2)) + (((3, 2, 3), (2, 3, 3)) if deep else ()):
            out.append(dict(alphabet=alphabet, lengths=lengths))
    for lengths in ((1, 2, 3), (2, 2, 2), (3, 1, 2), (3, 3, 2), (1, 3, 3)):
        out.append(dict(alphabet=[97, 98], lengths=lengths))
    for limit in (0, 1, 2):
        out.append(dict(alphabet=[97, 98], lengths=(3, 2), limit=limit))
        out.append(dict(alphabet=[97, 98], lengths=(2, 3), limit=limit))
        out.append(dict(alphabet=[97, 32], lengths=(3, 3), limit=limit))
    for lengths in ((2,), (3,), (2, 2)):
        out.append(dict(alphabet=[97, 10, 32], lengths=lengths, raw=True))
        out.append(dict(alphabet=[97, 98], lengths=lengths, bytes=True))
        out.append(dict(alphabet=[97, 98], lengths=lengths, pair=True))
    return out


HARNESSES = [
    H("strings", strings, cfgs_strings(0), cfgs_strings(1), bounds="1-3 strings of 1-3 characters of alphabets of 2-3 characters; limits of length 0-2",
      expect=("every value given is kept, or a longer one", "no value is kept twice or with its beginning")),
    H("numbers", numbers, [dict(key=k, n=2) for k in RANGES], [dict(key=k, n=3) for k in RANGES], bounds="2 numbers (3 thorough) of 33 bits",
      expect=("numbers in the range of the item are kept, once",)),
    H("tracks", tracks, [dict(a=a, b=b, junk=j) for a in (0, 1, 2, 4) for b in (-1, 0, 1, 3) for j in (False, True)], bounds="up to 4 digits", expect=("track number", "number of tracks")),
    H("language", language, [dict(first=chr(c)) for c in range(97, 123)], bounds="all codes of 3 letters", expect=("name of the language",)),
    H("dates", dates, [dict(base=b, around=86400 * 3) for b in ((1850, 1, 1), (2030, 12, 31), (1970, 1, 1))], [dict(base=b, around=86400 * 400) for b in ((1850, 1, 1), (2030, 12, 31), (1970, 1, 1))],
      bounds="all seconds of 3 days (400 thorough) around the bounds", expect=("date kept",)),
    H("durations", durations, [dict(range=r) for r in ((-5, 10 ** 5), (10 ** 8, 10 ** 8 + 10 ** 5), (365 * 86400000 - 10 ** 5, 365 * 86400000 + 10 ** 5))],
      [dict(range=r) for r in ((-5, 10 ** 6), (10 ** 8, 10 ** 8 + 10 ** 7), (365 * 86400000 - 10 ** 6, 365 * 86400000 + 10 ** 6))], bounds="durations in ms around 0, 1 day and 1 year", expect=("duration kept",)),
    H("export", export, [dict(counts=c, default=d) for c in ({"title": [0, 1], "width": [0, 1, 2], "comment": [0, 1]}, {"artist": [0, 2], "version": [0, 1], "endian": [1]}, {"title": [1], "artist": [1], "width": [1], "comment": [2], "endian": [1]}) for d in (False, True)],
      bounds="up to 6 values, all priorities", expect=("the export lists the values up to the priority, in the order of the priorities",)),
    H("groups", groups, [dict(counts=c, groups=g) for c in ({"title": [0, 1]}, {"width": [0, 1], "comment": [1]}) for g in ((("a", None), ("b", "File")), (("x[]", "X"), ("x[]", None), ("y[]", "Y")), (("p[]", None), ("q", "Q")))],
      bounds="up to 3 groups of up to 2 values", expect=("the export has the groups in order", "groups are found by name")),
]
