"""Diff.tla bound to normalize.diff (C18-C21)."""
import json
import random

import core

from normalize import Property, Record
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.diff import Diff, DiffOptions, diff, diff_iter
from normalize.property import SafeProperty
from normalize.property.coll import DictProperty, ListProperty
from normalize.selector import MultiFieldSelector

CHARS = {" ": " ", "t": "\t", "n": "\n", "w": "\u3000", "a": "a", "A": "A",
         "b": "b", "B": "B", "e": "e", "E": "E", "'": "\u0301",
         "e1": "\u00e9", "E1": "\u00c9", "a1": "\u00e1", "A1": "\u00c1",
         "ss": "\u00df", "S": "S"}
NAMES = dict((v, k) for k, v in CHARS.items())


def strike(v):
    """compare_as: works on text only"""
    return v.replace("b", "") if not isinstance(v, int) else v + 0


class LC(ListCollection):
    itemtype = str

    def compare_item_as(self, item):
        return strike(item)


class DS(DictCollection):
    itemtype = str
    compare_item_as = staticmethod(strike)


class K(Record):
    a = Property()
    c = Property(compare_as=strike)
    e = Property(extraneous=True)
    g = Property(isa=LC)


class P(Record):
    k = Property()
    l = Property()
    v = Property()
    e = Property(extraneous=True)
    n = Property(isa=K)
    o = ListProperty(of=K)
    primary_key = [k, l]


class PS(P):
    primary_key = [P.k, P.l]


class I(K):
    n = Property(isa=K)
    z = ListProperty(of=P)


class IS(I):
    pass


class XL(ListCollection):
    itemtype = I
    tag = Property()
    more = Property(extraneous=True)


LI, LP, DI, DP = list_of(I), list_of(P), dict_of(I), dict_of(P)
LK = list_of(K)
LS = list_of(str)


class R0(Record):
    a = Property()
    c = Property(compare_as=strike)
    e = Property(extraneous=True)
    g = ListProperty(of=str)
    h = Property(isa=DS)
    m = DictProperty(of=I)
    n = Property(isa=I)
    p = Property(isa=P)
    pm = DictProperty(of=P)
    u = Property()
    w = Property()
    x = Property(isa=XL)
    y = ListProperty(of=I)
    ys = ListProperty(of=P)


class R(R0):
    r = Property(isa=R0)


TYPES = dict(I=I, IS=IS, P=P, PS=PS, R=R, XL=XL, LI=LI, LP=LP, DI=DI, DP=DP,
             LS=LS, LC=LC, DS=DS, LK=LK, K=K)
TNAMES = dict((c, n) for n, c in TYPES.items())


def dec(v, known=None):
    """known: objects to use for the parts they stand for, again and again"""
    if known is not None and v[0] in ("rec", "list", "dict"):
        k = core.key(v)
        if k not in known:
            known[k] = dec1(v, known)
        return known[k]
    return dec1(v, known)


def dec1(v, known):
    if v[0] == "n":
        return None
    if v[0] == "s":
        return "".join(CHARS[c] for c in v[1])
    if v[0] == "rec":
        return TYPES[v[1]](**dict((k, dec(x, known)) for k, x in v[2]))
    if v[0] == "list":
        ms = [dec(x, known) for x in v[2]]
        return ms if v[1] == "py" else TYPES[v[1]](values=ms, **dict(
            (k, dec(x, known)) for k, x in (v[3] if len(v) > 3 else ())))
    if v[0] == "dict":
        es = dict((k, dec(x, known)) for k, x in v[2])
        return es if v[1] == "py" else TYPES[v[1]](values=es)
    return v[1]


def enc(x):
    t = type(x)
    if x is None:
        return ["n"]
    if t is bool:
        return ["b", x]
    if t is int:
        return ["i", x]
    if t is str:
        return ["s", [NAMES[c] for c in x]]
    if t is list:
        return ["list", "py", [enc(y) for y in x]]
    if t is dict:
        return ["dict", "py", [[k, enc(y)] for k, y in x.items()]]
    attrs = [[k, enc(vars(x)[k])] for k in sorted(type(x).properties)
             if k in vars(x)]
    if hasattr(t, "itemtype"):
        if isinstance(x, ListCollection):
            return ["list", TNAMES[t], [enc(y) for y in x]] + (
                [attrs] if t is XL else [])
        return ["dict", TNAMES[t], [[k, enc(y)] for k, y in x.items()]]
    return ["rec", TNAMES[t], attrs]


def path(fs):
    return [p if isinstance(p, str) else "*" if p is None else "#%d" % p
            for p in fs.selectors]


def steps(p):
    return [None if x == "*" else int(x[1:]) if x[0] == "#" else x for x in p]


def tell(d):
    return [{"none": "none", "added": "added", "removed": "removed",
             "modified": "modified", "moved": "moved"}[
                 d.diff_type.canonical_name], path(d.base), path(d.other)]


def canon(res):
    return sorted(res, key=core.key)


def options(o):
    k = dict(ignore_ws=o["ws"], ignore_case=o["cs"], unicode_normal=o["nf"],
             unchanged=o["un"], moved=o["mv"], ignore_empty_slots=o["es"],
             ignore_empty_items=o["ei"], extraneous=o["x"],
             fuzzy_match=o["fz"], recurse=o["rc"], duck_type=o["dt"])
    if o["f"] != [[]]:
        k["compare_filter"] = [steps(p) for p in o["f"]]
    return k


class Session(object):
    made = {}

    def __init__(self, state):
        self.a, self.b = dec(state[0]), dec(state[1])
        known = {}
        self.c, self.d = dec(state[0], known), dec(state[1], known)
        self.others = []

    def project(self):
        return [enc(self.a), enc(self.b)]

    def one(self, f):
        try:
            got = f()
            res = [tell(d) for d in got]
            # whatever was found can be shown
            str(got) + repr(got) if isinstance(got, Diff) else None
            return ["ok", canon(res)]
        except Exception as e:
            return ["err", type(e).__name__]

    def apply(self, op):
        kw = options(op[1])
        self.others = []
        first = self.one(lambda: diff(self.a, self.b, **kw))
        kw2 = dict(kw)
        if "compare_filter" in kw:
            kw2["compare_filter"] = MultiFieldSelector(*kw["compare_filter"])
        key = core.key(op[1])
        if key not in self.made:
            self.made[key] = DiffOptions(**kw2)
        self.others = [
            self.one(lambda: diff(self.a, self.b, **kw2)),
            self.one(lambda: list(diff_iter(self.a, self.b,
                                            options=self.made[key]))),
            self.one(lambda: self.a.diff(self.b, **kw)),
            self.one(lambda: diff(self.c, self.d, **kw)),
        ]
        return first


def graph_canon(t):
    t = dict(t)
    t["res"] = ["ok", canon(t["res"])]
    return t


# ---- random pairs
def rtext(r, plain=False):
    if plain:
        return ["s", r.choice([[], ["a"], ["A"], ["e1"], ["a", "A"], ["b"], ["a", "b"]])]
    return ["s", [r.choice(["a", "a", "A", " ", " ", "t", "b", "e", "'", "e1",
                            "w", "n", "ss", "S", "E"])
                  for _ in range(r.choice([0, 1, 2, 3, 5]))]]


class Gen(object):
    def __init__(self, r, text, es):
        self.r, self.text, self.es = r, text, es

    def scalar(self):
        r = self.r
        x = r.random()
        if x < 0.35:
            return ["i", r.randint(0, 3)]
        if x < 0.45:
            return ["b", r.random() < 0.5]
        if x < 0.6:
            return ["n"]
        return rtext(r, not self.text)

    def some(self, p, f):
        return f() if self.r.random() < p else None

    def rec(self, T, **slots):
        return ["rec", T, [[k, v] for k, v in sorted(slots.items())
                           if v is not None]]

    def txts(self):
        return [rtext(self.r, not self.text)
                for _ in range(self.r.choice([0, 1, 1, 2, 3]))]

    def cas(self):
        return ["i", self.r.randint(0, 2)] if self.r.random() < 0.5 else \
            rtext(self.r, not self.text)

    def item(self, depth=1):
        r = self.r
        return self.rec(
            "IS" if r.random() < 0.08 else "I",
            a=self.some(0.7, self.scalar), c=self.some(0.4, self.cas),
            e=self.some(0.2, self.scalar),
            g=self.some(0.2, lambda: ["list", "LC", self.txts()]),
            n=self.some(0.25, lambda: self.item(depth - 1)) if depth else None,
            z=self.some(0.2, lambda: ["list", "LP", [
                self.keyed(0) for _ in range(r.choice([0, 1, 2]))]])
            if depth and not self.es else None)

    def keyed(self, depth=1):
        r = self.r
        return self.rec("P", k=self.some(0.9, lambda: r.choice(
            [["i", 1], ["i", 2], self.scalar()])), l=self.some(
                0.6, lambda: ["i", r.randint(1, 2)]),
            v=self.some(0.6, self.scalar), e=self.some(0.2, self.scalar),
            n=self.some(0.3, lambda: self.item(0)) if depth else None,
            o=self.some(0.3, lambda: self.many("LK", self.plainer))
            if depth and not self.es else None)

    def plainer(self):
        return self.rec("K", a=self.some(0.8, self.scalar),
                        c=self.some(0.5, self.cas))

    def plain(self, depth=1):
        r = self.r
        n = r.choice([0, 1, 2, 3])
        sub = lambda: (["list", "py", [["i", r.randint(0, 1)] for _ in range(
            r.choice([0, 1, 2]))]] if r.random() < 0.5 else
            ["dict", "py", [[k, ["i", r.randint(0, 1)]] for k in r.sample(
                ["p", "q", "r"], r.choice([0, 1, 2]))]]) \
            if depth and r.random() < 0.2 else self.scalar()
        if r.random() < 0.5:
            return ["list", "py", [sub() for _ in range(n)]]
        return ["dict", "py", [[k, sub()] for k in r.sample(
            ["p", "q", "r"], n)]]

    def many(self, T, f):
        r = self.r
        pool = [f() for _ in range(3)]
        n = r.choice([0, 1, 2, 3, 4])
        vs = [json.loads(json.dumps(r.choice(pool))) if r.random() < 0.6
              else f() for _ in range(n)]
        if T[0] == "D":
            return ["dict", T, [[k, v] for k, v in zip(r.sample(
                ["p", "q", "r"], min(n, 3)), vs)]]
        return ["list", T, vs]

    def root(self, depth=1):
        r = self.r
        s = dict(
            a=self.some(0.4, self.scalar), c=self.some(0.2, self.cas),
            e=self.some(0.2, self.scalar),
            g=self.some(0.3, lambda: ["list", "LS", self.txts()]),
            h=self.some(0.25, lambda: ["dict", "DS", [
                [k, rtext(r, not self.text)] for k in r.sample(
                    ["p", "q", "r"], r.choice([0, 1, 2, 3]))]]),
            m=self.some(0.25, lambda: self.many("DI", self.item)),
            n=self.some(0.3, self.item), p=self.some(0.2, self.keyed),
            pm=self.some(0.2, lambda: self.many("DP", self.keyed)),
            u=self.some(0.25, lambda: r.choice([
                self.scalar, self.item, self.plain, self.keyed])()),
            w=self.some(0.3, self.plain),
            x=self.some(0.1, lambda: self.many("XL", self.item) + [
                [["tag", self.scalar()]] if r.random() < 0.5 else []]),
            y=self.some(0.4, lambda: self.many("LI", self.item)),
            ys=self.some(0.3, lambda: self.many("LP", self.keyed)))
        if depth:
            s["r"] = None
        return self.rec("R", **s)

    def nested(self):
        """collections inside of the items of one"""
        r = self.r
        if r.random() < 0.6:
            ps = []
            for k in range(r.choice([2, 2, 3])):
                p = self.keyed(0)
                p[2] = [["k", ["i", k]]] + [e for e in p[2] if e[0] in "lv"]
                p[2].append(["o", self.many("LK", self.plainer)])
                p[2].sort()
                ps.append(p)
            return self.rec("R", ys=["list", "LP", ps])
        f = lambda: self.rec("I", a=["i", r.randint(0, 3)], z=[
            "list", "LP", [self.keyed(0) for _ in range(r.choice([1, 2]))]])
        return self.rec("R", y=["list", "LI", [f() for _ in range(
            r.choice([1, 2, 3]))]])

    # a value much like v
    def near(self, v):
        r = self.r
        v = json.loads(json.dumps(v))
        if r.random() < 0.15:
            return v
        for _ in range(r.choice([1, 1, 2, 3])):
            self.tweak(v)
        return v

    def tweak(self, v):
        r = self.r
        boxes = []

        def visit(x, inside):
            if x[0] == "rec":
                boxes.append(x)
                for _, y in x[2]:
                    visit(y, x)
            elif x[0] == "list":
                boxes.append(x)
                for y in x[2]:
                    visit(y, x)
            elif x[0] == "dict":
                boxes.append(x)
                for _, y in x[2]:
                    visit(y, x)
        visit(v, None)
        x = r.choice(boxes)
        if x[0] == "rec" and x[2]:
            e = r.choice(x[2])
            if (x[1], e[0]) == ("R", "c") or e[0] == "c":
                e[1] = self.cas()
            elif e[1][0] in ("rec", "list", "dict") or r.random() < 0.3:
                if r.random() < 0.5:
                    x[2].remove(e)
            else:
                e[1] = self.scalar()
        elif x[0] == "list":
            y = r.random()
            if y < 0.4:
                r.shuffle(x[2])
            elif y < 0.7 and x[2]:
                del x[2][r.randrange(len(x[2]))]
            elif x[2]:
                x[2].insert(r.randrange(len(x[2])),
                            json.loads(json.dumps(r.choice(x[2]))))
        elif x[0] == "dict" and x[2]:
            y = r.random()
            if y < 0.4:
                r.shuffle(x[2])
            elif y < 0.6:
                del x[2][r.randrange(len(x[2]))]
            else:
                ks = [e[0] for e in x[2]]
                r.shuffle(ks)
                for e, k in zip(x[2], ks):
                    e[0] = k


FILTERS = [["a"], ["c"], ["e"], ["g"], ["h"], ["m"], ["n"], ["n", "a"],
           ["n", "g"], ["n", "n", "a"], ["p"], ["p", "v"], ["p", "n", "a"],
           ["pm"], ["pm", "*", "v"], ["u"], ["w"], ["y"], ["y", "*"],
           ["y", "*", "a"], ["y", "*", "n"], ["y", "*", "n", "a"],
           ["y", "*", "c"], ["y", "*", "g"], ["ys", "*", "k"], ["ys", "*", "l"],
           ["ys", "*", "v"], ["ys", "*", "n", "a"], ["ys", "*", "o"], ["ys", "*", "o", "*", "a"], ["m", "*", "a"],
           ["m", "*", "n", "c"], ["y", "*", "z", "*", "v"], ["y", "*", "z"]]


def traces(seed, count, length, focus):
    out = []
    for i in range(count):
        r = random.Random("D%s-%s-%s" % (seed, focus, i))
        t = []
        for _ in range(length):
            on = lambda p: r.random() < p
            o = dict(ws=on(.5), cs=on(.3), nf=on(.6), un=on(.4), mv=on(.4),
                     es=on(.3), ei=on(.25), x=on(.2), fz=on(.75), rc=on(.12),
                     f=[[]])
            o["dt"] = not o["es"] and on(.15)
            if focus == "exact" and on(.6):
                o.update(ws=False, cs=False, nf=False, es=False, ei=False)
            if focus == "items":
                o.update(rc=False)
            if on(.5 if focus == "options" else .15):
                o["f"] = [list(x) for x in r.sample(FILTERS,
                                                    r.choice([1, 2, 3, 4]))]
            g = Gen(r, o["ws"] or o["cs"] or o["nf"], o["es"] or o["ei"])
            a = g.root()
            if not g.es and on(.15):
                a = g.nested()
                top = json.loads(json.dumps(a))
                r.shuffle(top[2][0][1][2])
                b = g.near(top)
            elif focus == "items":
                a = ["rec", "R", [e for e in a[2] if e[0] in
                                  ("g", "h", "m", "pm", "x", "y", "ys", "w")]]
                b = g.near(a) if on(.75) else g.root()
            else:
                b = g.near(a) if on(.75) else g.root()
            if o["f"] != [[]] and any(
                    f[0] == "x" for f in o["f"]):
                continue
            s = Session([a, b])
            pre = s.project()
            op = ["diff", o]
            res = core.run_op(s, op)
            for x in s.others:
                if core.key(x) != core.key(res):
                    # ties may be broken either way: judge all
                    t.append({"op": op, "res": x, "pre": pre})
            post = s.project()
            if core.key(post) != core.key(pre):
                res = ["err", "modified its arguments"]
            t.append({"op": op, "res": res, "pre": pre})
        out.append(t)
    return out


def check_diff(check, models, focus, n):
    for what, size, laws in models:
        check.edges("MCDiff", core.mkcfg(
            constants={"What": '"%s"' % what, "Size": size,
                       "KeyOrder": "<- KeyOrderDef"}, invariants=laws),
            Session, canon=graph_canon)
    check.validate("TraceDiff", traces(check.seed, check.pick(n, n * 12),
                                       6, focus),
                   constants={"KeyOrder": "<- KeyOrderT"}, label="diff")


def c18(check):
    check_diff(check, [("univ", check.pick(2, 3), [
        "SameLaw", "DifferLaw", "TrueLaw"]),
        ("nest", 2, ["SameLaw", "DifferLaw", "TrueLaw"])], "exact", 250)


def c19(check):
    check_diff(check, [
        ("univ", 2, ["MirrorLaw"]), ("empty", 2, ["MirrorLaw"]),
        ("nest", 2, ["MirrorLaw"])] +
        check.pick([], [("colls", 2, ["MirrorLaw"]),
                        ("text", 2, ["MirrorLaw"])]), "all", 250)


def c20(check):
    check_diff(check, [("text", 2, ["SameLaw"]),
                       ("empty", 2, ["SameLaw", "TrueLaw"]),
                       ("filter", 2, ["FilterLaw"])], "options", 250)


def c21(check):
    check_diff(check, [("colls", check.pick(2, 3), [
        "SameLaw", "DifferLaw", "OnceLaw"])], "items", 300)
