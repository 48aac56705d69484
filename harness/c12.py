"""C12: Dict is an ordered map with unique keys, over histories."""
from symhach.h import H

PRELOAD = ["hachoir.core.dict"]
ASSUMPTIONS = []


def same(env, d, model, label):
    env.check(len(d) == len(model), label)
    env.check([v for v in d] == [v for _, v in model], label)
    env.check(list(d.values) == [v for _, v in model], label)
    env.check(list(d.itervalues()) == [v for _, v in model], label)
    env.check(list(d.iterkeys()) == [k for k, _ in model], label)
    env.check(list(d.items()) == model, label)
    for k in range(KEYS):
        pos = [i for i, (l, _) in enumerate(model) if l == k]
        env.check((k in d) == bool(pos), "keys are found")
        if pos:
            env.check(d.index(k) == pos[0], "index of a key")
            env.check(d[k] == model[pos[0]][1], "value of a key")
        else:
            env.check(d.index(k) is None, "index of a key")
            try:
                d[k]
                env.fail("a missing key is refused")
            except KeyError:
                pass


KEYS = 4


def history(env):
    from hachoir.core.dict import Dict, UniqKeyError
    n = env["start"]
    model = [(k, env.int("s%d" % k, 0, 255)) for k in range(n)]
    d = Dict(model) if n else Dict()
    same(env, d, model, "contents of a new dictionary")
    for step in range(env["ops"]):
        op = env.choice("op%d" % step, ["append", "insert", "replace", "del", "set"]) if not (step == 0 and env["first"]) else env["first"]
        v = env.int("v%d" % step, 0, 255)
        key = env.pin(env.int("k%d" % step, 0, KEYS - 1)) if op != "del" else None
        keys = [k for k, _ in model]
        refused = False
        if op == "append":
            ok = key not in keys
            try:
                d.append(key, v)
            except UniqKeyError:
                refused = True
            if ok:
                model = model + [(key, v)]
        elif op == "insert":
            i = env.int("i%d" % step, -len(model) - 2, len(model) + 2)
            ok = env.all(key not in keys, -len(model) <= i, i <= len(model))
            try:
                d.insert(i, key, v)
            except UniqKeyError:
                env.check(key in keys, "why it is refused")
                refused = True
            except IndexError:
                env.check(env.any(i < -len(model), i > len(model)), "why it is refused")
                refused = True
            if ok:
                i = env.pin(i)
                model = model[:]
                model.insert(i, (key, v))
        elif op == "replace":
            new = env.pin(env.int("n%d" % step, 0, KEYS - 1))
            ok = key in keys and (new == key or new not in keys)
            try:
                d.replace(key, new, v)
            except UniqKeyError:
                env.check(new in keys and new != key, "why it is refused")
                refused = True
            except KeyError:
                env.check(key not in keys, "why it is refused")
                refused = True
            if ok:
                model = [(new, v) if k == key else (k, w) for k, w in model]
        elif op == "del":
            i = env.int("i%d" % step, -len(model) - 2, len(model) + 2)
            ok = env.all(-len(model) <= i, i < len(model))
            try:
                del d[i]
            except IndexError:
                refused = True
            if ok:
                i = env.pin(i)
                model = model[:]
                del model[i]
        else:
            ok = key in keys
            try:
                d[key] = v
            except KeyError:
                refused = True
            if ok:
                model = [(k, v if k == key else w) for k, w in model]
        env.check(env.no(ok) == refused, "only impossible operations are refused")
        same(env, d, model, "contents after an operation")


OPS = ["append", "insert", "replace", "del", "set"]
HARNESSES = [
    H("history", history, [dict(start=s, ops=2, first=f) for s in (0, 2, 3) for f in OPS],
      [dict(start=s, ops=3, first=f) for s in (0, 1, 3) for f in OPS],
      bounds="0-3 items, 4 keys, 2 operations (3 thorough), any values and indexes", expect=("contents after an operation",)),
]
