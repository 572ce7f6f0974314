"""Mfs.tla bound to MultiFieldSelector as a set of locations (C16)."""
import copy
import pickle
import random

import core
from pyval import errkind

from normalize.selector import FieldSelector, MultiFieldSelector


def dec(p):
    return [None if c[0] == "n" else c[1] for c in p]


def enc1(x):
    if x is None:
        return ["n"]
    return ["i", x] if isinstance(x, int) else ["s", x]


ORDER = {"n": 0, "i": 1, "s": 2}


def skey(p):
    return [(ORDER[c[0]], c[1] if len(c) > 1 else 0) for c in p]


def listing(m):
    """The selectors it enumerates, each with one final wildcard dropped."""
    if m is None:
        return ["none"]
    out = []
    for fs in m:
        p = [enc1(fs[k]) for k in range(len(fs))]
        if p and p[-1] == ["n"]:
            p = p[:-1]
        out.append(p)
    return sorted(out, key=skey)


def raw(p):
    """A selector whose normal form is p."""
    p = dec(p)
    return p + [None] if not p or p[-1] is None else p


def operand(r, p):
    """A field selector, or the arguments of one."""
    return FieldSelector(p) if r % 2 else tuple(p) if r % 3 else list(p)


class Session(object):
    def __init__(self, cfg=None):
        self.m = MultiFieldSelector()
        self.n = 0

    def project(self):
        return listing(self.m)

    def apply(self, op):
        self.n += 1
        try:
            before = listing(self.m)
            m = self.m
            r = self._do(op)
            if listing(m) != before:
                return ["ok", ["operand changed"]]
            return ["ok", r]
        except Exception as e:
            return ["err", errkind(e)]

    def _do(self, op):
        o = op[0]
        m = self.m
        if o == "add":
            self.m = MultiFieldSelector(m, operand(self.n, dec(op[1])))
            return ["n"]
        if o == "addfirst":
            self.m = MultiFieldSelector(operand(self.n, dec(op[1])), m)
            return ["n"]
        if o in ("merge", "mergefirst", "new"):
            other = None
            try:
                other = MultiFieldSelector(*[operand(self.n + i, dec(p))
                                             for i, p in enumerate(op[1])])
            except ValueError:
                pass    # only the union as a whole may be possible
            if o == "new" or other is None:
                args = [dec(p) for p in op[1]]
                if o == "merge":
                    args = [m] + args
                elif o == "mergefirst":
                    args = args + [m]
                self.m = MultiFieldSelector(*args)
                return ["n"]
            before = listing(other)
            self.m = (MultiFieldSelector(m, other) if o == "merge" else
                      MultiFieldSelector(other, m))
            return ["n"] if listing(other) == before else ["operand changed"]
        if o == "rebuild":
            self.m = MultiFieldSelector(*reversed(list(m) + list(m)[:1]))
            return ["n"]
        if o == "enter":
            s = m[operand(self.n, dec(op[1]))]
            if s is None:
                return ["none"]
            self.m = s
            return ["n"]
        if o == "enum":
            return listing(m)
        if o == "path":
            return listing(MultiFieldSelector.from_path(m.path))
        if o == "frompath":
            new = MultiFieldSelector.from_path(m.path)
            return listing(MultiFieldSelector.from_path(new.path))
        if o == "repr":
            return listing(eval(repr(m), {
                "MultiFieldSelector": MultiFieldSelector}))
        if o in ("copy", "deepcopy"):
            return listing(getattr(copy, o)(m))
        if o == "pickle":
            return listing(pickle.loads(pickle.dumps(m, op[1])))
        if o == "bool":
            return bool(m)
        if o == "complete":
            return m.complete
        if o == "in1":
            return dec([op[1]])[0] in m
        if o == "get1":
            return listing(m[dec([op[1]])[0]])
        p = dec(op[2])
        p = (FieldSelector(p) if op[1] == "fs" else
             tuple(p) if op[1] == "tuple" else p)
        if o == "in":
            return p in m
        if o == "get":
            return listing(m[p])
        raise ValueError(op)


NAMES = ["a", "b", "d", "c d", "", "'", "(a|b)", ".x", "\\", "a|b", "a)",
         "a(", "a]", "b[0]", "a.b", "1", "1a", "a'", "a\\'", "a\n",
         "|", ")", "*", "a-b"]
INTS = [0, 1, 2, 10, -1, -2]


def rcomp(r, depth):
    # what kinds of components come at a level decides whether they clash
    x = r.random()
    if depth % 2 == 0:
        return ["s", r.choice(NAMES[:3] if x < 0.7 else NAMES)] if x < 0.9 \
            else ["i", r.choice(INTS)]
    if x < 0.45:
        return ["n"]
    if x < 0.8:
        return ["i", r.choice(INTS[:2] if x < 0.6 else INTS)]
    return ["s", r.choice(NAMES)]


def rpath(r, lo=0):
    return [rcomp(r, d) for d in range(r.choice([lo, 1, 1, 2, 2, 3, 3, 4]))]


def near(r, state):
    if state and r.random() < 0.75:
        p = list(r.choice(state))
        for i, c in enumerate(p):
            if c == ["n"] and r.random() < 0.7:
                p[i] = rcomp(r, 0) if r.random() < 0.3 else [
                    "i", r.choice(INTS)]
        x = r.random()
        if x < 0.35:
            p = p[:r.randint(0, len(p))]
        elif x < 0.6:
            p.append(rcomp(r, len(p)))
        elif x < 0.75 and p:
            p[-1] = rcomp(r, len(p) - 1)
        return p
    return rpath(r)


def rop(r, state):
    o = r.choice(["add", "add", "add", "addfirst", "addfirst", "merge",
                  "mergefirst", "new", "rebuild", "enter", "enum", "path",
                  "path", "frompath", "repr", "copy", "deepcopy", "pickle",
                  "bool", "complete", "in1", "get1", "in", "in", "in", "get",
                  "get", "get"])
    if o in ("add", "addfirst"):
        return [o, rpath(r) if r.random() < 0.6 else near(r, state)]
    if o in ("merge", "mergefirst", "new"):
        return [o, [rpath(r, 1) for _ in range(r.randint(0, 3))]]
    if o == "enter":
        return [o, near(r, state)]
    if o == "pickle":
        return [o, r.randint(0, 5)]
    if o in ("in1", "get1"):
        return [o, r.choice(near(r, state) or [["n"]])]
    if o in ("in", "get"):
        return [o, r.choice(["fs", "tuple", "list"]), near(r, state)]
    return [o]


def traces(seed, count, length):
    out = []
    for i in range(count):
        r = random.Random("M%s-%s" % (seed, i))
        s = Session()
        t = []
        for _ in range(length):
            op = rop(r, s.project())
            res = core.run_op(s, op)
            t.append({"op": op, "res": res, "post": s.project()})
        out.append(t)
    return out


def c16(check):
    check.walk("MCMfs", core.mkcfg(
        constants={"Alphabet": "<- AlphabetS",
                   "Paths": check.pick("<- PathsS", "<- PathsL"),
                   "Merges": check.pick("<- MergesS", "<- MergesL"),
                   "MaxSize": check.pick(1, 2)},
        invariants=["Normal", "UnionCovers", "Downward", "SubAgrees",
                    "CompleteIffCovered", "AnyOrder"]),
        Session, [], [["enum"]], check.pick(200, 2000), 30)
    check.validate("TraceMfs",
                   traces(check.seed, check.pick(300, 4000), check.pick(40, 60)),
                   constants={"Alphabet": "<- AlphabetT", "Paths": "{}",
                              "Merges": "{}", "MaxSize": 0},
                   label="multi selector execution")
