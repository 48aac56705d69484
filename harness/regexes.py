"""Languages of regular expressions, as conditions on the subject.

Nodes: ("set", ranges, negated), ("and", nodes), ("or", nodes),
("rep", min, max or None, node), ("at", "start"/"end"/"word").
"""


class Language:
    """ends(node, i)[j]: the condition under which node matches subject[i:j]."""

    def __init__(self, env, subject):
        self.env = env
        self.subject = subject          # code points
        self.n = len(subject)
        self.memo = {}

    def word(self, i):
        if not 0 <= i < self.n:
            return False
        x = self.subject[i]
        env = self.env
        # letters and digits of the alphabet of the harness
        return env.any(env.all(x >= 97, x <= 122), env.all(x >= 65, x <= 90),
                       env.all(x >= 48, x <= 57), x == 95)

    def none(self):
        return [False] * (self.n + 1)

    def follow(self, row, node):
        """row: conditions to be at each position; then node."""
        out = self.none()
        for i in range(self.n + 1):
            if row[i] is False:
                continue
            nxt = self.ends(node, i)
            for j in range(i, self.n + 1):
                if nxt[j] is not False:
                    out[j] = self.env.any(out[j], self.env.all(row[i], nxt[j]))
        return out

    def ends(self, node, i):
        key = (id(node), i)
        if key not in self.memo:
            self.memo[key] = (node, self._ends(node, i))
        return self.memo[key][1]

    def _ends(self, node, i):
        env = self.env
        kind = node[0]
        out = self.none()
        if kind == "set":
            if i < self.n:
                x = self.subject[i]
                c = env.any(*[env.all(x >= a, x <= b) for a, b in node[1]]) if node[1] else False
                out[i + 1] = env.no(c) if node[2] else c
            return out
        if kind == "and":
            out[i] = True
            for sub in node[1]:
                out = self.follow(out, sub)
            return out
        if kind == "or":
            for sub in node[1]:
                nxt = self.ends(sub, i)
                for j in range(self.n + 1):
                    out[j] = env.any(out[j], nxt[j])
            return out
        if kind == "at":
            if node[1] == "start":
                c = i == 0
            elif node[1] == "end":
                c = i == self.n
                if i == self.n - 1:
                    c = self.subject[i] == 10
            else:
                a, b = self.word(i - 1), self.word(i)
                c = env.any(env.all(a, env.no(b)), env.all(b, env.no(a)))
            out[i] = c
            return out
        lo, hi, sub = node[1], node[2], node[3]
        # more repetitions than the subject has characters add nothing
        last = lo + self.n - i
        if hi is not None:
            last = min(last, hi)
        row = self.none()
        row[i] = True
        k = 0
        while True:
            if k >= lo:
                for j in range(self.n + 1):
                    out[j] = env.any(out[j], row[j])
            if k >= last:
                return out
            row = self.follow(row, sub)
            k += 1

    def same(self, a, b):
        """a and b match the same parts of the subject."""
        env = self.env
        cs = []
        for i in range(self.n + 1):
            x, y = self.ends(a, i), self.ends(b, i)
            for j in range(i, self.n + 1):
                cs.append(env.any(env.all(x[j], y[j]), env.no(env.any(x[j], y[j]))))
        return env.all(*cs)

    def includes(self, a, b):
        """what b matches, a matches."""
        env = self.env
        cs = []
        for i in range(self.n + 1):
            x, y = self.ends(a, i), self.ends(b, i)
            for j in range(i, self.n + 1):
                cs.append(env.implies(y[j], x[j]))
        return env.all(*cs)

    def bounded(self, a, lo, hi):
        """the lengths of the matches of a are between lo and hi"""
        env = self.env
        cs = []
        for i in range(self.n + 1):
            x = self.ends(a, i)
            for j in range(i, self.n + 1):
                if j - i < lo or hi is not None and j - i > hi:
                    cs.append(env.no(x[j]))
        return env.all(*cs) if cs else True


def text_node(codes):
    return ("and", [("set", [(c, c)], False) for c in codes])
