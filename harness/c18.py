"""C18: the subfile search tries every signature of a file, slice by slice."""
from symhach.h import H

PRELOAD = ["hachoir.parser", "hachoir.subfile.search", "hachoir.regex"]
ASSUMPTIONS = [
    "signatures without assertions; parsers whose size is a whole number of bytes",
    "the search is driven by mainHeader() and searchSubfiles(); the memory limit of main() is outside",
]


class Quiet:
    def write(self, text):
        pass

    def flush(self):
        pass


def parsers(env):
    """Parsers of files made of a signature, a size and a content."""
    from hachoir.parser import Parser
    from hachoir.field import UInt8, Bytes
    from hachoir.core.endian import BIG_ENDIAN
    out = []
    for k, (where, magic, skip) in enumerate(env["parsers"]):
        magic = magic.encode("latin1")

        def make(k=k, where=where, magic=magic, skip=skip):
            class P(Parser):
                PARSER_TAGS = {"id": "p%d" % k, "category": "misc", "min_size": 8, "description": "x",
                               "magic": ((magic, where * 8),)}
                if skip:
                    PARSER_TAGS["subfile"] = "skip"
                endian = BIG_ENDIAN

                def validate(self):
                    if self.stream.readBytes(where * 8, len(magic)) != magic:
                        return "no"
                    n = self.stream.readBits((where + len(magic)) * 8, 8, self.endian)
                    return n <= 3

                def createFields(self):
                    if where:
                        yield Bytes(self, "before", where)
                    yield Bytes(self, "magic", len(magic))
                    yield UInt8(self, "n")

                def createContentSize(self):
                    return (where + len(magic) + 1 + self["n"].value) * 8
            return P
        out.append(make())
    return out


def search(env):
    from hachoir.regex import PatternMatching
    from hachoir.stream import StringInputStream
    from hachoir.subfile.pattern import HachoirPatternMatching
    from hachoir.subfile import search as module
    from hachoir.subfile.search import SearchSubfile
    n = env["n"]
    data = env.bytes("data", n)
    alphabet = env["alphabet"].encode("latin1")
    for c in data:
        env.assume(env.any(*[c == x for x in alphabet]))
    classes = parsers(env)
    pm = HachoirPatternMatching.__new__(HachoirPatternMatching)
    PatternMatching.__init__(pm)
    for cls in classes:
        for magic, where in cls.PARSER_TAGS["magic"]:
            pm.addString(magic.decode("latin1"), (where, cls))
    pm.commit()
    start = env.cfg.get("start", 0)
    size = env.cfg.get("size")
    s = SearchSubfile(StringInputStream(data), start, size)
    s.verbose = False
    s.patterns = pm
    s.slice_size = env["slice"] * 8
    found, tried = [], []
    guess = s.guess

    def record(offset, cls):
        tried.append((offset, cls))
        return guess(offset, cls)
    s.guess = record
    s.processParser = lambda offset, parser: found.append((offset, parser.__class__, parser.content_size))
    module.stderr = Quiet()
    s.mainHeader()
    s.searchSubfiles()

    stop = n if size is None else min(n, start + size)
    # what should be there
    specs = [(cls, where, magic.encode("latin1"), skip) for cls, (where, magic, skip) in zip(classes, env["parsers"])]
    for offset, cls in tried:
        where, magic = [(w, m) for c, w, m, k in specs if c is cls][0]
        at = offset // 8 + where
        env.check(offset % 8 == 0 and data[at:at + len(magic)] == magic, "a parser is tried where its signature is")
        env.check(start <= at and at + len(magic) <= stop, "signatures are searched in the part asked")
    places = [at + k for offset, cls in tried for w, m in [(w, m) for c, w, m, k in specs if c is cls][0:1]
              for at in [offset // 8 + w] for k in range(len(m))]
    skipped = 0
    for offset, cls, length in found:
        where, magic, skip = [(w, m, k) for c, w, m, k in specs if c is cls][0]
        at = offset // 8 + where + len(magic)
        env.check(env.all(at < n, data[at] <= 3), "only valid files are reported")
        env.check(length == (where + len(magic) + 1 + data[at]) * 8, "size of the file found")
        env.check(offset >= skipped, "nothing is reported in a skipped file")
        if skip:
            skipped = offset + length
    # valid tries are reported, in the order of the tries
    valid = []
    for offset, cls in tried:
        where, magic = [(w, m) for c, w, m, k in specs if c is cls][0]
        at = offset // 8 + where + len(magic)
        if at < n and data[at] <= 3:
            valid.append((offset, cls))
    env.check([(o, c) for o, c, l in found] == valid, "every valid file tried is reported")
    # no signature is missed
    def inside(offset):
        return env.any(*[env.all(o // 8 <= offset, offset * 8 < o + l)
                         for o, c, l in found if [k for cc, w, m, k in specs if cc is c][0]])

    def covered(place):
        """Part of a signature of a file before the first byte or in a skipped file."""
        return env.any(*[env.all(data[at:at + len(m)] == m, True if at < w else inside(at - w))
                         for c, w, m, k in specs
                         for at in range(max(place - len(m) + 1, start), place + 1) if at + len(m) <= stop])

    for at in range(start, stop):
        if at in places:
            continue
        for cls, where, magic, skip in specs:
            if at + len(magic) > stop or at - where < 0:
                continue
            here = data[at:at + len(magic)] == magic
            env.check(env.implies(here, env.any(inside(at - where), covered(at))), "no signature is missed but in skipped files")
    env.observe(*[(o, classes.index(c), l) for o, c, l in found])


AB = (0, "ab", False)
ABS = (0, "ab", True)
C = (0, "c", False)
CS = (0, "c", True)
OFF = (2, "ba", False)
OFFS = (1, "b", True)
LONG = (0, "abc", False)


def cfgs(deep):
    out = []

    def add(parsers, n, slice_, alphabet, **kw):
        out.append(dict(parsers=parsers, n=n + deep, slice=slice_, alphabet=alphabet, **kw))
    for sl in (2, 3, 4):
        add([AB], 6, sl, "ab\1")
        add([ABS], 6, sl, "ab\1")
        add([LONG], 7, sl, "abc")
        add([OFF], 6, sl, "ab")
        add([OFFS], 6, sl, "b\2")
    for sl in (1, 2):
        add([CS], 6, sl, "c\0\3")
        add([C], 5, sl, "c\0\4")
    add([AB, CS], 5, 2, "abc\2")
    add([ABS, C], 5, 2, "abc\2")
    add([AB, OFF], 6, 2, "ab\0")
    add([LONG, CS], 6, 3, "abc\0")
    for start, size in ((1, None), (2, None), (0, 4), (1, 3), (2, 9)):
        add([AB], 6, 2, "ab\1", start=start, size=size)
        add([CS], 5, 2, "c\0\3", start=start, size=size)
    return out


def registered(env):
    """The signatures of the parsers of hachoir, followed by any byte."""
    from hachoir.subfile.pattern import HachoirPatternMatching
    pm = HachoirPatternMatching()
    seen = 0
    for item in pm.string_patterns:
        offset, cls = item.user
        if seen == env["item"]:
            data = item.text.encode("latin1") + env.bytes("next%d" % seen, 1)
            found = list(pm.search(data, 1))
            env.check(len(found) == 1, "every signature is found")
            got, at = found[0]
            tags = got.getParserTags()
            env.check(any([-o == at and data[:len(m)] == m for m, o in tags.get("magic", ())])
                      or any([-o == at for m, o in tags.get("magic_regex", ())]), "the parser found has this signature")
        seen += 1
    env.check(seen < 160, "the signatures are within the bound")
    env.observe(seen)


HARNESSES = [
    H("registered", registered, [dict(item=k) for k in range(160)], bounds="the signatures of all parsers followed by any byte", expect=("every signature is found", "the parser found has this signature")),
    H("search", search, cfgs(0), cfgs(1), bounds="files of 5-7 bytes (1 more thorough) of 2-4 values, slices of 1-4 bytes, 1-2 parsers with signatures of 1-3 bytes at 0-2 bytes, skipped or not; parts of the file",
      expect=("a parser is tried where its signature is", "no signature is missed but in skipped files", "nothing is reported in a skipped file")),
]
