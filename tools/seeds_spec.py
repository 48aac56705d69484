I = "hachoir/stream/input.py"
O = "hachoir/stream/output.py"
seed("s01-sign-boundary", "C01", [(I, "(1 << (nbits - 1)) <= value", "(1 << (nbits - 1)) < value")],
     "a signed read of the most negative value of its size", "-128 is read as 128", """
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
s = StringInputStream(b"\\x80\\x00")
assert s.readInteger(0, True, 8, BIG_ENDIAN) == -128
assert s.readInteger(0, True, 16, BIG_ENDIAN) == -32768
""")
seed("s02-fragment-tail", "C02", [(I, "while self.stream.sizeGe(fa + min(fs, end - a)):", "while self.stream.sizeGe(fa + fs):")],
     "a last fragment announced longer than the file", "bits of a truncated fragment that are there cannot be read / size wrong", """
from hachoir.stream import StringInputStream, FragmentedStream
class D: pass
def frag(stream, a, n):
    f = D(); d = D(); d.absolute_address = a; d.size = n
    f.getData = lambda: d; f.path = "/f"; f.next = None
    f.parent = D(); f.parent.stream = stream
    return f
base = StringInputStream(b"abcdef")
f0, f1 = frag(base, 0, 16), frag(base, 32, 32)
f0.next = f1
s = FragmentedStream(f0)
assert s.readBytes(0, 3) == b"abe"
assert s.readBytes(8, 2) == b"be"
assert s.size is None or s.size == 32, s.size
""")
seed("s03-search-overlap", "C03", [(I, "buffer = buffer[len(buffer) - length + 1:] + data", "buffer = buffer[len(buffer) - length // 2:] + data")],
     "an occurrence cut by the 4096-byte chunks of the search after more than half of the needle", "a search misses the occurrence", """
from hachoir.stream import StringInputStream
d = b"x" * 4093 + b"NEEDLE" + b"x" * 5000
assert StringInputStream(d).searchBytes(b"NEEDL", 0) == 4093 * 8
""")
seed("s04-cache-ring", "C04", [(I, "            self.buffers[first][2] = index\n", "            self.buffers[first][2] = prev\n")],
     "blocks read again out of order, then enough new blocks to discard old ones", "blocks are discarded although recently used, or never", """
from hachoir.stream import InputIOStream
class Pipe:
    def __init__(self, d): self.d = d
    def read(self, n):
        r, self.d = self.d[:n], self.d[n:]
        return r
import itertools
data = bytes(range(40))
bad = 0
for seq in itertools.product(range(0, 12), repeat=3):
    s = InputIOStream(Pipe(data)); p = s._input
    p.buffer_size, p.buffer_nb_min = 1, 2
    try:
        for a in seq:
            p.seek(a); d = p.read(1)
            assert d == data[a:a+1], (seq, a, d)
            for k in range(len(p.buffers) - p.buffer_nb_min, len(p.buffers)):
                assert k < 0 or p.buffers[k] is not None, seq
            # the ring is consistent
            i = p.first; n = 0
            while True:
                j = p.buffers[i][1]
                assert p.buffers[j][2] == i, seq
                i = j; n += 1
                if i == p.first: break
                assert n < 100
    except Exception as e:
        if "Buffers too small" not in str(e):
            raise
""")
seed("s06-le-carry", "C06", [(O, "                    self._byte |= (value << self._bit_pos)\n                self._bit_pos += count\n", "                    self._byte |= (value << (8 - self._bit_pos - count))\n                self._bit_pos += count\n")],
     "two little-endian bit fields inside one byte, not filling it", "little-endian bit fields are misplaced", """
from io import BytesIO
from hachoir.stream import OutputStream, StringInputStream
from hachoir.core.endian import LITTLE_ENDIAN as L
b = BytesIO(); o = OutputStream(b)
o.writeBits(2, 1, L); o.writeBits(3, 5, L); o.writeBits(3, 2, L)
s = StringInputStream(b.getvalue())
assert [s.readBits(0, 2, L), s.readBits(2, 3, L), s.readBits(5, 3, L)] == [1, 5, 2]
""")
G = "hachoir/field/generic_field_set.py"
seed("s07-padding-tail", "C07", [("hachoir/field/padding.py", "while index < len(content):", "while index + pattern_len < len(content):")],
     "padding whose last repetition of the pattern only is wrong", "padding announced as a pattern although it is not", """
from hachoir.stream import StringInputStream
from hachoir.parser import Parser
from hachoir.field import NullBytes, PaddingBytes
from hachoir.core.endian import BIG_ENDIAN
class P(Parser):
    PARSER_TAGS = {"id": "x", "min_size": 8, "description": "x"}
    endian = BIG_ENDIAN
    def validate(self): return True
    def createFields(self):
        yield NullBytes(self, "a", 4)
        yield NullBytes(self, "b", 4)
p = P(StringInputStream(bytes(7) + b"X"))
assert p["a"].display == "<null>"
assert p["b"].display != "<null>", p["b"].display
""")
PARSER = """
from hachoir.stream import StringInputStream
from hachoir.parser import Parser
from hachoir.field import RawBits, FieldSet
from hachoir.core.endian import BIG_ENDIAN
from hachoir.core import config
config.quiet = True
class P(Parser):
    PARSER_TAGS = {"id": "x", "min_size": 8, "description": "x"}
    endian = BIG_ENDIAN
    def validate(self): return True
    def createFields(self):
        return fields(self)
def check(fs, size):
    pos = 0
    names = set()
    for f in fs:
        assert f.address == pos, (f.path, f.address, pos)
        assert f.size > 0, f.path
        assert f.name not in names, f.path
        names.add(f.name)
        if f.is_field_set:
            check(f, f.size)
        pos += f.size
    assert pos == size, (fs.path, pos, size)
"""
seed("s08-cut-boundary", "C08", [(G, "                if field._address < size:\n", "                if field._address <= size:\n")],
     "a nested structure cut by the end of the file exactly between two of its fields", "an empty field at the end of the truncated structure, or a crash", PARSER + """
class Sub(FieldSet):
    def createFields(self):
        for k in range(3):
            yield RawBits(self, "x[]", 8)
def fields(self):
    yield RawBits(self, "a", 8)
    s = Sub(self, "s", size=24)
    s["x[2]"].size
    yield s
p = P(StringInputStream(b"abc"))
check(p, 24)
assert len(p["s"]) == 2, len(p["s"])
""")
seed("s08-feed-lost", "C08", [(G, "                self._size = self._current_size + new_size\n", "                self._size = self._current_size\n")],
     "a structure of unknown size whose last field crosses the end of the file by less than the field", "the structure does not cover the end of the file", PARSER + """
class Sub(FieldSet):
    def createFields(self):
        yield RawBits(self, "x", 8)
        yield RawBits(self, "y", 24)
def fields(self):
    yield RawBits(self, "a", 8)
    yield Sub(self, "s")
p = P(StringInputStream(b"abcd"))
check(p, 32)
assert p["s"].size == 24, p["s"].size
""")
K = "hachoir/field/seekable_field_set.py"
EF = "hachoir/editor/fieldset.py"
ET = "hachoir/editor/typed_field.py"
seed("s09-gap-overlap", "C09", [(K, "        if s + l > start:\n            start = s + l\n", "        if s + l > start or not l:\n            start = s + l\n")],
     "an empty block inside a longer one", "a gap overlaps a block", """
from hachoir.field.seekable_field_set import getgaps
assert list(getgaps(0, 10, [(0, 10), (4, 0)])) == []
assert list(getgaps(0, 10, [(0, 4)])) == [(4, 6)]
""")
seed("s09-replace-address", "C09", [(G, "                index += 1\n                address += field.size\n", "                index += 1\n                address = field.address + new_fields[0].size\n")],
     "a field replaced by three fields or more of different sizes", "the third field is at the wrong address", PARSER + """
from hachoir.field import Bits
def fields(self):
    yield RawBits(self, "a", 8)
    yield RawBits(self, "b", 24)
    yield RawBits(self, "c", 8)
p = P(StringInputStream(b"abcde"))
len(p)
p.replaceField("b", [Bits(p, "x", 4), Bits(p, "y", 12), Bits(p, "z", 8)])
check(p, 40)
""")
seed("s10-deleted-name", "C10", [(EF, "                if name in self.input and name not in self._deleted:\n", "                if name in self.input and name not in self._deleted and name not in self._inserted:\n")],
     "a field inserted before a field that already has another inserted before it, with the name of that field", "two fields have the same name", """
from hachoir.parser import Parser
from hachoir.field import UInt8
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
from hachoir.core.dict import UniqKeyError
from hachoir.editor import createEditor, EditableInteger
class P(Parser):
    PARSER_TAGS = {"id": "p", "min_size": 8, "description": "p"}
    endian = BIG_ENDIAN
    def validate(self): return True
    def createFields(self):
        yield UInt8(self, "a")
        yield UInt8(self, "b")
e = createEditor(P(StringInputStream(b"ab")))
e.insertBefore("b", EditableInteger(e, "c", False, 8, 1))
try:
    e.insertBefore("a", EditableInteger(e, "b", False, 8, 2))
except UniqKeyError:
    pass
else:
    raise SystemExit("duplicate name accepted")
""")
seed("s10-stale-altered", "C10", [(EF, "        return any(field.is_altered for field in self._fields.values())\n", "        return any(field.is_altered for field in list(self._fields.values())[-2:])\n")],
     "three fields looked at after the only altered one", "the change is lost", """
from hachoir.parser import Parser
from hachoir.field import UInt8
from hachoir.stream import StringInputStream, OutputStream
from hachoir.core.endian import BIG_ENDIAN
from hachoir.editor import createEditor
from io import BytesIO
class P(Parser):
    PARSER_TAGS = {"id": "p", "min_size": 8, "description": "p"}
    endian = BIG_ENDIAN
    def validate(self): return True
    def createFields(self):
        for k in range(4):
            yield UInt8(self, "f%d" % k)
e = createEditor(P(StringInputStream(b"abcd")))
e["f0"].value = 1
for k in range(4):
    e["f%d" % k].value
b = BytesIO()
e.writeInto(OutputStream(b))
assert b.getvalue() == b"\\1bcd", b.getvalue()
""")
seed("s11-pascal-limit", "C11", [(ET, '        "Pascal8": (1 << 8) - 1,\n', '        "Pascal8": (1 << 8),\n')],
     "a string of exactly 256 bytes in a field with an 8-bit length", "the value is accepted but can't be stored", """
from hachoir.parser import Parser
from hachoir.field import PascalString8
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
from hachoir.editor import createEditor
class P(Parser):
    PARSER_TAGS = {"id": "p", "min_size": 8, "description": "p"}
    endian = BIG_ENDIAN
    def validate(self): return True
    def createFields(self):
        yield PascalString8(self, "s")
e = createEditor(P(StringInputStream(b"\\1a")))
e["s"].value = b"x" * 255
try:
    e["s"].value = b"x" * 256
except ValueError:
    pass
else:
    raise SystemExit("256 bytes accepted")
""")
D = "hachoir/core/dict.py"
seed("s12-insert-index", "C12", [(D, "            if item_index >= index:\n                self._index[item_key] += 1", "            if item_index > index:\n                self._index[item_key] += 1")],
     "an insertion before an existing item, then a lookup of that item by its key", "two keys have the same index", """
from hachoir.core.dict import Dict
d = Dict(((1, "a"), (2, "b"), (3, "c")))
d.insert(1, 9, "z")
assert d[2] == "b" and d.index(2) == 2 and d[9] == "z"
""")
T = "hachoir/core/tools.py"
seed("s13-countbits", "C13", [("hachoir/core/bits.py", "    while 2 <= value:", "    while 2 < value:")],
     "an integer whose high bits after the doubling steps are 10", "countBits() gives a wrong size for some powers of two", """
from hachoir.core.bits import countBits
for k in range(1, 200):
    assert countBits(2 ** k) == k + 1, k
    assert countBits(2 ** k - 1) == k, k
""")
seed("s14-sticky", "C14", [(T, "        if chars[6] != 'x':", "        if chars[3] != 'x':")],
     "a set-group-id mode whose owner and group do not have the same execution right", "the group permission is shown as s instead of S", """
from hachoir.core.tools import humanUnixAttributes
assert humanUnixAttributes(0o2745) == "-rwxr-Sr-x (2745)"
assert humanUnixAttributes(0o2755) == "-rwxr-sr-x (2755)"
assert humanUnixAttributes(0o2655) == "-rw-r-sr-x (2655)"
""")
seed("s14-ticks", "C14", [(T, "return timedelta(microseconds=value / 10)", "return timedelta(milliseconds=value // 10000, microseconds=value // 10 % 1000 if value < 1 << 60 else 0)")],
     "a 64-bit duration of more than 3600 years", "microseconds are lost", """
from hachoir.core.tools import durationWin64
from datetime import timedelta
v = (1 << 61) + 12345670
assert abs(durationWin64(v) - timedelta(microseconds=v // 10)) < timedelta(microseconds=300)
""")
S = "hachoir/field/string_field.py"
seed("s15-strip-truncate", "C15", [(S, "            if 0 <= pos:\n                text = text[:pos]", "            if 0 < pos:\n                text = text[:pos]")],
     "a string which begins with its truncate character", "what follows the truncate character is shown", """
from hachoir.field import String
from hachoir.parser import Parser
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
class P(Parser):
    endian = BIG_ENDIAN
    PARSER_TAGS = {"id": "x", "min_size": 8, "description": "x"}
    def validate(self): return True
    def createFields(self):
        yield String(self, "x", 4, truncate="\\0", charset="ASCII")
        yield String(self, "y", 4, truncate="\\0", charset="ASCII")
p = P(StringInputStream(b"ab\\0c\\0abc"))
assert p["x"].value == "ab"
assert p["y"].value == "", p["y"].value
""")
seed("s15-repair", "C15", [(S, "                and err.end == len(text) \\\n                and self._charset == \"UTF-16-LE\":", "                and self._charset in (\"UTF-16-LE\", \"UTF-16-BE\"):")],
     "a UTF-16-BE string with an odd number of bytes", "a nul byte is added to a big-endian string, which invents a character", """
from hachoir.field import String
from hachoir.parser import Parser
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
class P(Parser):
    endian = BIG_ENDIAN
    PARSER_TAGS = {"id": "x", "min_size": 8, "description": "x"}
    def validate(self): return True
    def createFields(self):
        yield String(self, "x", 3, charset="UTF-16-BE")
        yield String(self, "y", 3, charset="UTF-16-LE")
p = P(StringInputStream(b"\\0a\\1a\\0b"))
assert p["y"].value == "ab", p["y"].value
assert p["x"].value == "\\0a\\1", p["x"].value
""")
X = "hachoir/regex/regex.py"
seed("s16-prefix-range", "C16", [(X, "            if matchSingleValue(common[0]) or matchSingleValue(regex):\n                return common[0] + regex", "            if matchSingleValue(common[0]) or matchSingleValue(regexa):\n                return common[0] + regex")],
     "a union of concatenations beginning with different single characters followed by something else than a string", "a single-valued rest of the left side lets the heads be factorised: (a^|b.) also matches a. and b^", """
from hachoir.regex import createString, RegexDot, RegexEnd
import re
r = (createString("a") + RegexEnd()) | (createString("b") + RegexDot())
c = r.compile(python=True)
assert c.fullmatch("a") and c.fullmatch("bx")
assert not c.fullmatch("b"), r
assert not c.fullmatch("ax"), r
""")
seed("s16-repeat-eq", "C16", [(X, "        if self.max != other.max:\n            return False", "        if self.max and other.max and self.max != other.max:\n            return False")],
     "a union of a bounded and of an unbounded repetition of the same thing", "a{1,3} and a+ are taken for equal, and the second operand is dropped", """
from hachoir.regex import createString, RegexRepeat
a = createString("a")
r = RegexRepeat(a, 1, 3) | RegexRepeat(a, 1, None)
assert r.compile(python=True).fullmatch("aaaaa"), r
assert r.maxLength() is None
""")
seed("s16-or-max", "C16", [(X, "        lengths = (regex.maxLength() for regex in self.content)\n        return self._minmaxLength(lengths, max)", "        lengths = (regex.maxLength() for regex in self.content\n                   if regex.maxLength() is not None)\n        return self._minmaxLength(lengths, max)")],
     "a union with an unbounded member", "maxLength() of a union ignores its unbounded members", """
from hachoir.regex import createString, RegexRepeat, RegexDot
r = createString("abc") | (createString("x") + RegexRepeat(RegexDot(), 0, None))
assert r.maxLength() is None, r.maxLength()
assert r.minLength() == 1
""")
Y = "hachoir/regex/pattern.py"
seed("s17-duplicate", "C17", [(Y, "            return\n        self.string_patterns.append(item)\n        self.string_dict[item.text] = item\n        self._need_commit = True", "            self.string_patterns = [x for x in self.string_patterns\n                                    if x.text != item.text]\n        self.string_patterns.append(item)\n        self.string_dict[item.text] = item\n        self._need_commit = True")],
     "two parsers with the same signature", "the last of equal patterns is reported, not the first", """
from hachoir.regex import PatternMatching
p = PatternMatching()
p.addString("ab", 1)
p.addString("cd", 2)
p.addString("ab", 3)
assert [x[2].user for x in p.search("ab cd")] == [1, 2]
""")
seed("s17-longest", "C17", [(Y, "            length = max(length, item.regex.maxLength())", "            length = max(length, item.regex.minLength())")],
     "a regex of variable length longer than every string pattern", "max_length is too small", """
from hachoir.regex import PatternMatching
p = PatternMatching()
p.addString("ab")
p.addRegex("c[de]{2,4}f")
assert p.max_length == 6, p.max_length
""")
seed("s17-commit", "C17", [(Y, "        item = RegexPattern(regex, user)\n        if item.regex.maxLength() is None:\n            raise ValueError(\n                \"Regular expression with no maximum size is forbidden\")\n        self.regex_patterns.append(item)\n        self._need_commit = True",
                               "        item = RegexPattern(regex, user)\n        if item.regex.maxLength() is None:\n            raise ValueError(\n                \"Regular expression with no maximum size is forbidden\")\n        self.regex_patterns.append(item)\n        self._need_commit = not self._regex")],
     "a regex added after a first search", "patterns added after a search are ignored", """
from hachoir.regex import PatternMatching
p = PatternMatching()
p.addString("ab", 1)
assert [x[2].user for x in p.search("ab xy")] == [1]
p.addRegex("x.", 2)
assert [x[2].user for x in p.search("ab xy")] == [1, 2]
""")
Z = "hachoir/subfile/search.py"
SUB = """
import sys, io
from hachoir.parser import Parser
from hachoir.field import UInt8, Bytes
from hachoir.core.endian import BIG_ENDIAN
from hachoir.stream import StringInputStream
from hachoir.regex import PatternMatching
from hachoir.subfile.pattern import HachoirPatternMatching
from hachoir.subfile.search import SearchSubfile

class P(Parser):
    PARSER_TAGS = {"id": "p", "category": "misc", "min_size": 8, "description": "x",
                   "magic": ((b"MAGI", 0),), "subfile": "skip"}
    endian = BIG_ENDIAN
    def validate(self):
        return True
    def createFields(self):
        yield Bytes(self, "magic", 4)
        yield UInt8(self, "n")
    def createContentSize(self):
        return (5 + self["n"].value) * 8

def run(data, offset=0, size=None, slice_size=None):
    pm = HachoirPatternMatching.__new__(HachoirPatternMatching)
    PatternMatching.__init__(pm)
    pm.addString("MAGI", (0, P))
    pm.commit()
    s = SearchSubfile(StringInputStream(data), offset, size)
    s.verbose = False
    s.patterns = pm
    if slice_size:
        s.slice_size = slice_size * 8
    found = []
    s.processParser = lambda offset, parser: found.append((offset // 8, parser.content_size // 8))
    s.mainHeader()
    s.searchSubfiles()
    return found
"""
seed("s18-adjacent", "C18", [(Z, "if self.next_offset and offset < self.next_offset:", "if self.next_offset and offset <= self.next_offset:")],
     "a file starting right after a skipped one", "the file is not found", SUB + """
assert run(b"xxMAGI\\x03abcMAGI\\x00zz") == [(2, 8), (10, 5)]
""")
seed("s18-size", "C18", [(Z, "self.size = min(self.stream.size, (offset + size) * 8)", "self.size = min(self.stream.size - offset * 8, size * 8)")],
     "both an offset and a size", "the end of the part asked is not searched", SUB + """
assert run(b"xxxxMAGI\\x00xMAGI\\x00", 4, 100) == [(4, 5), (10, 5)]
""")
seed("s18-next", "C18", [(Z, "                self.next_offset = offset + parser.content_size\n                if end <= self.next_offset:\n                    break", "                self.next_offset = offset + parser.content_size\n                if end <= self.next_offset:\n                    break\n                start = self.next_offset")],
     "two skipped files in the same slice", "the offset of the files after a skipped one is wrong", SUB + """
assert run(b"xxMAGI\\x03abcMAGI\\x00zzz" + bytes(20)) == [(2, 8), (10, 5)]
""")
MI = "hachoir/metadata/metadata_item.py"
seed("s19-prefix", "C19", [(MI, "                if item.startswith(value):\n                    # Find truncated value, skip it\n                    return", "                if item.startswith(value) and index == 0:\n                    # Find truncated value, skip it\n                    return")],
     "a truncated value of a text which is not the first", "the beginning of a kept value is kept too", """
from hachoir.metadata.metadata import RootMetadata
m = RootMetadata()
m.author = "bob"
m.author = "alice"
m.author = "al"
assert m.getValues("author") == ["bob", "alice"], m.getValues("author")
""")
seed("s19-pair", "C19", [("hachoir/metadata/setter.py", "        number, total = number.split(\"/\", 1)\n        meta.track_total = total", "        number, total = number.split(\"/\", 1)\n        if total != number:\n            meta.track_total = total")],
     "the last track of an album", "its number of tracks is lost", """
from hachoir.metadata.metadata import RootMetadata
m = RootMetadata()
m.track_number = "5/5"
assert m.getValues("track_total") == [5], m.getValues("track_total")
""")
seed("s20-tz", "C20", [("hachoir/metadata/filter.py", "            return (self.min_tz <= value <= self.max_tz)", "            return (self.min <= value.replace(tzinfo=None) <= self.max)")],
     "a date with a time zone within a day of 1850 or 2030", "it is compared without its time zone", """
from hachoir.metadata.metadata import RootMetadata
m = RootMetadata()
m.creation_date = "Thu, 31 Dec 2030 00:30:00 +0200"
assert len(m.getValues("creation_date")) == 1
m = RootMetadata()
m.creation_date = "Thu, 31 Dec 2030 01:30:00 +0200"
assert len(m.getValues("creation_date")) == 1
""")
seed("s20-month", "C20", [("hachoir/metadata/setter.py", "            timestamp = strptime(value, MONTH_YEAR)\n            arguments = list(timestamp[0:3])\n            return date(*arguments)", "            timestamp = strptime(value, MONTH_YEAR)\n            arguments = list(timestamp[0:2]) + [timestamp[7] % 28 + 1]\n            return date(*arguments)")],
     "a month other than some", "the day of a month is not the first", """
from datetime import date
from hachoir.metadata.setter import parseDatetime
assert parseDatetime("March 2007") == date(2007, 3, 1)
""")

seed("s21-quote", "C21", [("hachoir/core/tools.py", "        data = re.sub(br\"\\\\x0([0-7])(?=[^0-7]|$)\", br\"\\\\\\1\", data)\n    return str(data, charset)", "        data = re.sub(br\"\\\\x0([0-7])(?=[^0-6]|$)\", br\"\\\\\\1\", data)\n    return str(data, charset)")],
     "a control character followed by 7", "it is shown as the escape sequence of another character", """
from hachoir.core.tools import makePrintable
assert makePrintable(chr(1) + "7", "ASCII") == chr(92) + "x017", makePrintable(chr(1) + "7", "ASCII")
""")
seed("s21-cut", "C21", [("hachoir/field/string_field.py", "        if config.max_string_length < len(value):", "        if config.max_string_length < len(self.value):")],
     "a string with escape sequences shorter than the limit, whose text is longer than it", "the text shown is longer than the limit", """
from hachoir.field import Parser, String
from hachoir.stream import StringInputStream
from hachoir.core.endian import BIG_ENDIAN
from hachoir.core import config
class P(Parser):
    endian = BIG_ENDIAN
    def createFields(self):
        yield String(self, "s", 4, charset="ISO-8859-1")
config.max_string_length = 5
assert P(StringInputStream(b"a\x10\x11b"))["s"].display == '"a\\\\x10(...)"'
""")
seed("s22-ico", "C22", [("hachoir/metadata/image.py", "                if bpp == 0 and nb_colors in self.color_to_bpp:", "                if nb_colors in self.color_to_bpp:")],
     "an icon of 16 colours with 16 bits per pixel", "bits per pixel are computed from the number of colours", """
from hachoir.parser.image import IcoFile
from hachoir.metadata import extractMetadata
from hachoir.stream import StringInputStream
data = bytes([0, 0, 1, 0, 1, 0, 16, 16, 16, 0, 1, 0, 16, 0]) + (112).to_bytes(4, "little") + (22).to_bytes(4, "little")
data += b"(" + bytes(39) + bytes(64) + bytes([1] * 8)
m = extractMetadata(IcoFile(StringInputStream(data), validate=True))
assert m["image[0]"].get("bits_per_pixel") == 16
""")
seed("s22-png", "C22", [("hachoir/parser/image/png.py", "    if header[\"has_alpha\"].value:\n        nr_component += 1\n    if header[\"color\"].value and not header[\"has_palette\"].value:\n        nr_component += 2", "    if header[\"has_palette\"].value:\n        return header[\"bit_depth\"].value\n    if header[\"color\"].value:\n        nr_component += 2\n        if header[\"has_alpha\"].value:\n            nr_component += 1")],
     "a grayscale image with an alpha channel", "the alpha channel is not counted in the bits per pixel", """
from hachoir.parser.image import PngFile
from hachoir.metadata import extractMetadata
from hachoir.stream import StringInputStream
def chunk(tag, content):
    return len(content).to_bytes(4, "big") + tag + content + b"\\0" * 4
data = b"\\x89PNG\\r\\n\\x1a\\n" + chunk(b"IHDR", b"\\0\\0\\0\\4\\0\\0\\0\\5\\x08\\4\\0\\0\\0") + chunk(b"IEND", b"")
m = extractMetadata(PngFile(StringInputStream(data), validate=True))
assert m.get("bits_per_pixel") == 16, m.get("bits_per_pixel")
""")
