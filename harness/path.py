"""Path.tla bound to FieldSelector as a value (C15)."""
import copy
import pickle
import random

import core
from pyval import errkind

from normalize.selector import FieldSelector


def dec(c):
    if c[0] == "n":
        return None
    return c[1] if c[0] == "i" else "".join(map(chr, c[1]))


def enc(x):
    if x is None:
        return ["n"]
    if type(x) is int:
        return ["i", x]
    if isinstance(x, str):
        return ["s", [ord(c) for c in x]]
    return ["?", repr(x)]


def decs(p):
    return [dec(c) for c in p]


def comps(fs):
    """The components, by indexing."""
    if not isinstance(fs, FieldSelector):
        return ["?", type(fs).__name__]
    return [enc(fs[i]) for i in range(len(fs))]


def source(src, p):
    vals = decs(p)
    if src == "tuple":
        return tuple(vals)
    if src == "gen":
        return (x for x in vals)
    if src == "fs":
        return FieldSelector(vals)
    return vals


class Session(object):
    def __init__(self, st):
        self.fs = FieldSelector(decs(st))

    def project(self):
        return comps(self.fs)

    def apply(self, op):
        try:
            return ["ok", self._do(op)]
        except Exception as e:
            return ["err", errkind(e)]

    def unchanged(self, other, before, result):
        """The other operand must be as it was, and apart from the result."""
        if isinstance(other, FieldSelector):
            if comps(other) != before:
                return ["operand changed", comps(other)]
        elif isinstance(other, (list, tuple)):
            if [enc(x) for x in other] != before:
                return ["operand changed"]
        return result

    def _do(self, op):
        o = op[0]
        fs = self.fs
        if o == "new":
            src = source(op[1], op[2])
            new = FieldSelector(src)
            if op[1] == "fs":
                FieldSelector(src).add_property("later")
                new2 = FieldSelector(src)
                src.add_property("later")
                if comps(new) != op[2] or comps(new2) != op[2]:
                    return ["shared"]
            self.fs = new
            return ["n"]
        if o == "newbad":
            return comps(FieldSelector(["a", 1.5]))
        if o == "addprop":
            fs.add_property(dec(op[1]))
            return ["n"]
        if o == "addidx":
            fs.add_index(dec(op[1]))
            return ["n"]
        if o == "addfull":
            fs.add_full_collection()
            return ["n"]
        if o == "addpropbad":
            fs.add_property(3)
            return ["n"]
        if o == "addidxbad":
            fs.add_index("a")
            return ["n"]
        if o == "extend":
            other = FieldSelector(decs(op[1]))
            r = fs.extend(other)
            if comps(r) != comps(fs):
                return ["?", comps(r)]
            return self.unchanged(other, op[1], ["n"])
        if o == "extendself":
            fs.extend(fs)
            return ["n"]
        if o == "path":
            return [ord(c) for c in fs.path]
        if o == "reparse":
            new = FieldSelector.from_path(fs.path)
            return comps(new) if new == fs else ["unequal", comps(new)]
        if o == "repr":
            new = eval(repr(fs), {"FieldSelector": FieldSelector})
            return comps(new) if new == fs else ["unequal", comps(new)]
        if o in ("copy", "deepcopy", "pickle"):
            new = (getattr(copy, o)(fs) if o != "pickle" else
                   pickle.loads(pickle.dumps(fs, op[1])))
            if new != fs or not new == fs:
                return ["unequal", comps(new)]
            r = comps(new)
            if o != "copy":
                new.add_property("later")
            return r
        if o == "len":
            return len(fs)
        if o == "index":
            return enc(fs[op[1]])
        if o == "slice":
            r = fs[slice(op[1][0] if op[1] else None,
                         op[2][0] if op[2] else None,
                         None if op[3] == 1 else op[3])]
            c = comps(r)
            r.add_property("later")
            return c
        if o == "iter":
            return [enc(x) for x in fs]
        if o == "starts1":
            return fs.startswith(dec(op[1]))
        if o == "starts":
            other = source(op[1], op[2])
            return self.unchanged(other, op[2], fs.startswith(other))
        if o == "plus1":
            return comps(fs + dec(op[1]))
        if o == "plus":
            other = source(op[1], op[2])
            r = fs + other
            c = comps(r)
            r.add_property("later")
            return self.unchanged(other, op[2], c)
        if o == "plusself":
            return comps(fs + fs)
        if o == "plusbad":
            return comps(fs + 1.5)
        if o == "sort":
            return [comps(x) for x in
                    sorted(FieldSelector(decs(p)) for p in op[1])]
        other = FieldSelector(decs(op[1]))
        r = {"eq": lambda: fs == other, "ne": lambda: fs != other,
             "lt": lambda: fs < other, "le": lambda: fs <= other,
             "gt": lambda: fs > other, "ge": lambda: fs >= other}[o]()
        return self.unchanged(other, op[1], r)


CH = "ab_Z019'\\[].*-()| \n\t\"\u00e9\u2019"


def rstr(r):
    return [ord(r.choice(CH)) for _ in range(r.choice([0, 1, 1, 2, 3, 5, 8]))]


def rcomp(r):
    x = r.random()
    if x < 0.5:
        return ["s", rstr(r)]
    if x < 0.85:
        return ["i", r.choice([0, 1, 2, -1, 9, 10, 11, 99, 100, -10,
                               r.randint(-10000, 10000)])]
    return ["n"]


def rpath(r, n=5):
    return [rcomp(r) for _ in range(r.randint(0, n))]


def near(r, p):
    """A selector likely to be comparable with p."""
    q = list(p)[:r.randint(0, len(p) + 1)]
    if q and r.random() < 0.8:
        k = r.randrange(len(q))
        if q[k][0] == "i":
            q[k] = ["i", q[k][1] + r.choice([-1, 1, 10])]
        elif q[k][0] == "s":
            q[k] = ["s", rstr(r)]
    if r.random() < 0.3:
        q.append(rcomp(r))
    return q


def rop(r, p):
    o = r.choice(["new", "addprop", "addidx", "addfull", "extend", "path",
                  "path", "reparse", "reparse", "repr", "copy", "deepcopy",
                  "pickle", "len", "index", "slice", "slice", "iter",
                  "starts1", "starts", "plus1", "plus", "plusself", "eq",
                  "ne", "lt", "le", "gt", "ge", "sort", "new"])
    n = len(p)
    if o == "new" or n > 9:
        return ["new", r.choice(["list", "tuple", "gen", "fs"]), rpath(r, 7)]
    if o == "addprop":
        return [o, ["s", rstr(r)]]
    if o == "addidx":
        return [o, ["i", r.randint(-20, 200)]]
    if o == "extend":
        return [o, rpath(r, 3)]
    if o == "pickle":
        return [o, r.randint(0, 5)]
    if o == "index":
        return [o, r.randint(-n - 1, n)]
    if o == "slice":
        b = lambda: [] if r.random() < 0.3 else [r.randint(-n - 2, n + 2)]  # noqa
        return [o, b(), b(), r.choice([1, 1, 1, 2, 3, -1, -2])]
    if o == "starts1":
        return [o, p[0] if p and r.random() < 0.5 else rcomp(r)]
    if o == "starts":
        return [o, r.choice(["fs", "list", "tuple"]), near(r, p)]
    if o == "plus1":
        return [o, r.choice([["s", rstr(r)], ["i", r.randint(-5, 5)]])]
    if o == "plus":
        return [o, r.choice(["fs", "list", "tuple"]), rpath(r, 4)]
    if o in ("eq", "ne", "lt", "le", "gt", "ge"):
        return [o, near(r, p)]
    if o == "sort":
        # mutually comparable: the kinds of components fixed per position
        kinds = [r.choice("is") for _ in range(4)]
        return [o, [[["i", r.randint(-2, 12)] if k == "i" else
                     ["s", [ord(r.choice("abB0"))
                            for _ in range(r.randint(0, 2))]]
                     for k in kinds[:r.randint(0, 4)]]
                    for _ in range(r.randint(0, 6))]]
    return [o]


def traces(seed, count, length):
    out = []
    for i in range(count):
        r = random.Random("P%s-%s" % (seed, i))
        s = Session([])
        t = []
        for _ in range(length):
            op = rop(r, s.project())
            res = core.run_op(s, op)
            t.append({"op": op, "res": res, "post": s.project()})
        out.append(t)
    return out


def c15(check):
    check.edges("MCPath", core.mkcfg(
        next_="TextNext",
        constants={"Starts": "<- " + check.pick("AllStarts", "AllStartsL"),
                   "Comps": "{}", "Others": "{}", "Bounds": "{}",
                   "MaxLen": 0}, invariants=["RoundTrip"]), Session)
    check.edges("MCPath", core.mkcfg(
        constants={"Starts": "<- Empty",
                   "Comps": check.pick("<- CompsS", "<- CompsL"),
                   "Others": check.pick("<- OthersT", "<- OthersS"),
                   "Bounds": check.pick("<- BoundsS", "<- BoundsL"),
                   "MaxLen": 2},
        invariants=["RoundTrip", "LooksLook", "Order", "Concat"]), Session)
    check.validate("TracePath",
                   traces(check.seed, check.pick(300, 4000), check.pick(40, 60)),
                   constants={"Starts": "{}", "Comps": "{}", "Others": "{}",
                              "Bounds": "{}", "MaxLen": 0},
                   label="selector value execution")
