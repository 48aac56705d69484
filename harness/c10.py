"""C10: the editor shows and writes the original fields with exactly the
changes asked, in place."""
from symhach.h import H
from harness.common import quiet_parser
from harness.c01 import expected_bits, endian_of

PRELOAD = ["hachoir.parser", "hachoir.editor"]
ASSUMPTIONS = [
    "bit fields of at most 256 bits when not aligned (limit of OutputStream.copyBitsFrom)",
    "byte and string values are only written at byte boundaries",
]


def original(env, data, sizes):
    """A parser with bit fields f0, f1... (the last one nested in a set when
    the configuration says so) up to the end of the data."""
    from hachoir import field as F
    from hachoir.stream import StringInputStream
    endian = endian_of(env)

    class Sub(F.FieldSet):
        def createFields(self):
            yield F.Bits(self, "x", sizes[-2])
            yield F.Bits(self, "y", sizes[-1])

    def create(self):
        n = len(sizes)
        if env.cfg.get("nested"):
            n -= 2
        for k in range(n):
            yield F.Bits(self, "f%d" % k, sizes[k])
        if env.cfg.get("nested"):
            yield Sub(self, "s")
    return quiet_parser(endian, create, StringInputStream(data))


def written(env, editor):
    """The bits written, as a stream."""
    from hachoir.stream import StringInputStream, OutputStream
    from io import BytesIO
    b = BytesIO()
    o = OutputStream(b)
    editor.writeInto(o)
    # the last byte is only written when complete
    o.writeBits(8, 0, endian_of(env))
    return StringInputStream(b.getvalue())


class Item:
    def __init__(self, name, size, value, new=False):
        self.name, self.size, self.value, self.new = name, size, value, new


def edits(env):
    from hachoir.editor import createEditor, EditableBits
    from hachoir.field import MissingField
    from hachoir.core.dict import UniqKeyError
    n = env["n"]
    data = env.bytes("data", n)
    z0 = env.int("z0", 1, 8 * n - 2)
    z1 = env.int("z1", 1, 8 * n - 2)
    env.assume(z0 + z1 < 8 * n)
    if env["sizes"]:
        env.assume(z0 == env["sizes"][0])
        env.assume(z1 == env["sizes"][1])
    sizes = [z0, z1, 8 * n - z0 - z1]
    p = original(env, data, sizes)
    len(p)
    ed = createEditor(p)
    items = []
    pos = 0
    for k in range(3):
        items.append(Item("f%d" % k, sizes[k], expected_bits(data, pos, sizes[k], env["endian"])))
        pos = pos + sizes[k]
    base = ["f0", "f1", "f2"]
    changed = False
    for step in range(env["ops"]):
        op = env.choice("op%d" % step, env["kinds"][step])
        names = [i.name for i in items]
        if op in ("del", "before", "after", "set"):
            # a name still there, or one that is not
            targets = base + ["n0"] + (["nothing"] if op != "set" else [])
            target = env.choice("t%d" % step, targets)
            if target == "n0" and op in ("del", "set"):
                continue
            if op == "set" and target not in names:
                continue
            # a field inserted with the name of a deleted one can't be named
            env.assume(env.no(target in base and target in [i.name for i in items if i.new]))
        there = op == "append" or target in names
        if op == "del":
            try:
                del ed[target]
                env.check(there, "deleting a missing field is refused")
                items = [i for i in items if i.name != target]
                changed = True
            except MissingField:
                env.check(not there, "a field that is there can be deleted")
            continue
        if op == "set":
            k = names.index(target)
            v = env.int("v%d" % step, 0, 1 << 8 * n)
            try:
                ed[target].value = v
                env.check(v < (1 << items[k].size), "a value too big is refused")
                items[k] = Item(target, items[k].size, v, items[k].new)
                changed = True
            except ValueError:
                env.check(v >= (1 << items[k].size), "a value that fits is accepted")
            continue
        # insertions
        if target in base and not there if op != "append" else False:
            # position of a deleted field: not specified
            env.assume(False)
        nm = env.choice("nm%d" % step, ["n%d" % step, "f1"])
        cnt = env.choice("cnt%d" % step, env["counts"])
        new = []
        for c in range(cnt):
            name = nm if c == 0 else "m%d" % step
            z = env["newsize"] + c
            v = env.int("w%d_%d" % (step, c), 0, (1 << z) - 1)
            new.append((EditableBits(ed, name, z, v), Item(name, z, v, True)))
        try:
            args = [a for a, _ in new]
            if op == "append":
                ed.insert(*args)
            elif op == "before":
                ed.insertBefore(target, *args)
            else:
                ed.insertAfter(target, *args)
        except UniqKeyError:
            env.check(nm in names, "only a used name is refused")
            continue
        except MissingField:
            env.check(not there, "a field can be inserted at a field that is there")
            continue
        env.check(nm not in names, "a used name is refused")
        env.check(there, "inserting at a missing field is refused")
        at = len(items)
        if op != "append":
            at = names.index(target) + (1 if op == "after" else 0)
        items[at:at] = [i for _, i in new]
        changed = True
    # what is shown
    pos = 0
    k = 0
    env.check(len(ed) == len(items), "number of fields")
    for f in ed:
        env.check(k < len(items) and f.name == items[k].name, "fields in the order asked")
        env.check(f.size == items[k].size, "size of a field")
        env.check(f.address == pos, "address of a field")
        pos = pos + items[k].size
        k += 1
    env.check(k == len(items), "fields in the order asked")
    env.check(ed.size == pos, "size of the edited file")
    env.check(ed.is_altered == changed, "whether the file was changed")
    for i in base:
        env.check((i in ed) == (i in [x.name for x in items if not x.new]), "fields that are there are found")
    # what is written
    if not items:
        return
    out = written(env, ed)
    pos = 0
    for i in items:
        v = out.readBits(pos, i.size, endian_of(env))
        env.check(v == i.value, "each field is written in its place")
        pos = pos + i.size
    env.check(out.size == (pos + 8) // 8 * 8, "nothing else is written")


def nested(env):
    """Changes in a field set only change it."""
    from hachoir.editor import createEditor, EditableBits
    n = env["n"]
    data = env.bytes("data", n)
    z0 = env.int("z0", 1, 12)
    z1 = env.int("z1", 1, 12)
    z2 = env.int("z2", 1, 12)
    if env["z2"]:
        env.assume(z2 == env["z2"])
        env.assume(z1 == 3)
    env.assume(z0 + z1 + z2 < 8 * n)
    sizes = [z0, z1, z2, 8 * n - z0 - z1 - z2]
    p = original(env, data, sizes)
    ed = createEditor(p)
    names = ["f0", "f1", "s/x", "s/y"]
    op = env["op"]
    items = []
    pos = 0
    for k in range(4):
        items.append(Item(names[k], sizes[k], expected_bits(data, pos, sizes[k], env["endian"])))
        pos = pos + sizes[k]
    if op == "set":
        v = env.int("v", 0, (1 << 12) - 1)
        env.assume(v < (1 << z2))
        ed["s/x"].value = v
        items[2].value = v
    elif op == "del":
        del ed["s/x"]
        del items[2]
    elif op == "delroot":
        del ed["f0"]
        del items[0]
    elif op == "insert":
        v = env.int("v", 0, 7)
        ed["s"].insertAfter("x", EditableBits(ed["s"], "new", 3, v))
        items.insert(3, Item("s/new", 3, v))
    elif op == "delset":
        del ed["s"]
        del items[2:]
    pos = 0
    for i in items:
        if i.name != "s/new":
            f = ed[i.name]
            env.check(f.size == i.size, "size of a field")
            a = f.address
            if i.name[:2] == "s/":
                a = a + ed["s"].address
                env.check(ed["s"].absolute_address == z0 + z1 - (z0 if op == "delroot" else 0), "address of a field set")
            env.check(a == pos, "address of a field")
        pos = pos + i.size
    env.check(ed.size == pos, "size of the edited file")
    out = written(env, ed)
    pos = 0
    for i in items:
        env.check(out.readBits(pos, i.size, endian_of(env)) == i.value, "each field is written in its place")
        pos = pos + i.size


def identity(env):
    """An editor without changes writes the original bits."""
    from hachoir.editor import createEditor
    n = env["n"]
    data = env.bytes("data", n)
    z0 = env.int("z0", 1, 12)
    z1 = env.int("z1", 1, 12)
    z2 = env.int("z2", 1, 12)
    env.assume(z0 + z1 + z2 < 8 * n)
    p = original(env, data, [z0, z1, z2, 8 * n - z0 - z1 - z2])
    ed = createEditor(p)
    look = env.choice("look", ["no", "fields", "values"])
    if look != "no":
        for f in ed:
            f.size
            if look == "values" and not f.is_field_set:
                f.value
        ed["s/x"].size
    which = env.choice("which", ["root", "s", "f0", "s/y"])
    src, start, size = p, 0, 8 * n
    if which == "s":
        start, size = z0 + z1, 8 * n - z0 - z1
    elif which == "f0":
        size = z0
    elif which == "s/y":
        start, size = z0 + z1 + z2, 8 * n - z0 - z1 - z2
    e = ed if which == "root" else ed[which]
    env.check(e.is_altered == False, "nothing was changed")
    env.check(e.size == size, "size of a field")
    out = written(env, e)
    env.check(out.readBits(0, size, endian_of(env)) == expected_bits(data, start, size, env["endian"]), "the original bits are written")
    env.check(out.size == (size + 8) // 8 * 8, "nothing else is written")


def newset(env):
    """A new field set."""
    from hachoir.editor import createEditor, NewFieldSet, EditableBits
    n = env["n"]
    data = env.bytes("data", n)
    z0 = env.int("z0", 1, 8 * n - 1)
    p = original(env, data, [z0, 8 * n - z0])
    ed = createEditor(p)
    new = NewFieldSet(ed, "new")
    cnt = env.choice("cnt", [0, 1, 2])
    vals = []
    for k in range(cnt):
        z = 3 + 2 * k
        v = env.int("v%d" % k, 0, (1 << z) - 1)
        vals.append((z, v))
        new.insert(EditableBits(new, "v%d" % k, z, v))
    ed.insertBefore("f1", new)
    total = sum([z for z, _ in vals])
    env.check(new.size == total, "size of a new field set")
    env.check(new.name == "new", "name of a new field set")
    env.check(ed.size == 8 * n + total, "size of the edited file")
    env.check(ed["f1"].address == z0 + total, "address of a field")
    out = written(env, ed)
    pos = z0
    env.check(out.readBits(0, z0, endian_of(env)) == expected_bits(data, 0, z0, env["endian"]), "each field is written in its place")
    for z, v in vals:
        env.check(out.readBits(pos, z, endian_of(env)) == v, "each field is written in its place")
        pos = pos + z
    z = 8 * n - z0
    env.check(out.readBits(pos, z, endian_of(env)) == expected_bits(data, z0, z, env["endian"]), "each field is written in its place")


KINDS = ["del", "before", "after", "append", "set"]
HARNESSES = [
    H("edits", edits,
      [dict(endian="be", n=2, ops=1, kinds=[[k]], counts=[1, 2], newsize=3, sizes=None) for k in KINDS]
      + [dict(endian=e, n=2, ops=2, kinds=[[k], KINDS], counts=[1], newsize=z, sizes=s) for e, s, z in (("be", [5, 4], 3), ("le", [8, 5], 8)) for k in KINDS],
      [dict(endian="le", n=2, ops=1, kinds=[[k]], counts=[1, 2], newsize=3, sizes=None) for k in KINDS]
      + [dict(endian=e, n=2, ops=3, kinds=[[k], [l], KINDS], counts=[1], newsize=z, sizes=s) for e, s, z in (("be", [5, 4], 3), ("le", [8, 5], 8)) for k in KINDS for l in KINDS],
      bounds="every history of 1-2 operations (3 thorough) on 3 fields", expect=("each field is written in its place",)),
    H("nested", nested, [dict(endian=e, n=4, nested=1, op=o, z2=5) for e in ("be", "le") for o in ("set", "del", "delroot", "insert", "delset")],
      [dict(endian=e, n=4, nested=1, op=o, z2=0) for e in ("be", "le") for o in ("set", "del", "delroot", "insert", "delset")],
      bounds="any sizes", expect=("each field is written in its place",)),
    H("identity", identity, [dict(endian=e, n=2, nested=1) for e in ("be", "le")], [dict(endian=e, n=4, nested=1) for e in ("be", "le")],
      bounds="any sizes", expect=("the original bits are written",)),
    H("newset", newset, [dict(endian=e, n=2, nested=0) for e in ("be", "le")], bounds="new sets of 0-2 fields",
      expect=("each field is written in its place",)),
]
