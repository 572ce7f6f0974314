"""Visitor.tla bound to normalize.visitor (C22, C23)."""
import random

import core

from normalize import Property, Record
from normalize.coll import ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.selector import MultiFieldSelector
from normalize.visitor import VisitorPattern


class K(Record):
    c = Property()
    g = ListProperty(of=str)


class N(Record):
    x = Property()
    # these read as None where they are not set
    y = Property(isa=int, v1_none=None)
    k = Property(isa=K, default=None)
    e = Property(extraneous=True)


class NS(N):
    w = Property()


class E(Record):
    e = Property(extraneous=True)


class XL(ListCollection):
    itemtype = N
    tag = Property()


LN, DN, LS = list_of(N), dict_of(N), list_of(str)


class R(Record):
    x = Property(isa=XL, v1_none="")
    a = Property()
    n = Property(isa=N, v1_none=None)
    e = Property(extraneous=True)
    d = DictProperty(of=N, default=None)
    g = ListProperty(of=str)
    l = ListProperty(of=N)
    t = Property(isa=(N, str, type(None)))
    u = Property(isa=(LN, str))
    z = Property(isa=E)


TYPES = dict(R=R, N=N, NS=NS, K=K, E=E, XL=XL, LN=LN, DN=DN, LS=LS)
TNAMES = dict((c, n) for n, c in TYPES.items())
SHOWN = dict((c.__name__, n) for n, c in TYPES.items())


def dec(v, known=None):
    """known: objects to use for the parts they stand for, again and again"""
    if known is not None and v[0] in ("rec", "list", "dict"):
        k = core.key(v)
        if k not in known:
            known[k] = dec1(v, known)
        return known[k]
    return dec1(v, known)


def dec1(v, known):
    if v[0] == "n":
        return None
    if v[0] == "s":
        return "".join(v[1])
    if v[0] == "rec":
        return TYPES[v[1]](**dict((k, dec(x, known)) for k, x in v[2]))
    if v[0] == "list":
        ms = [dec(x, known) for x in v[2]]
        return ms if v[1] == "py" else TYPES[v[1]](values=ms, **dict(
            (k, dec(x, known)) for k, x in (v[3] if len(v) > 3 else ())))
    if v[0] == "dict":
        es = dict((k, dec(x, known)) for k, x in v[2])
        return es if v[1] == "py" else TYPES[v[1]](values=es)
    return v[1]


def enc(x):
    t = type(x)
    if x is None:
        return ["n"]
    if t is bool:
        return ["b", x]
    if t is int:
        return ["i", x]
    if t is str:
        return ["s", list(x)]
    if isinstance(x, (AttributeError, KeyError)):
        return ["-"]
    if t is list:
        return ["list", "py", [enc(y) for y in x]]
    if t is dict:
        return ["dict", "py", [[k, enc(x[k])] for k in sorted(x)]]
    attrs = [[k, enc(vars(x)[k])] for k in sorted(type(x).properties)
             if k in vars(x)]
    if isinstance(x, ListCollection):
        return ["list", TNAMES[t], [enc(y) for y in x]] + (
            [attrs] if t is XL else [])
    if t is DN:
        return ["dict", "DN", [[k, enc(x[k])] for k in sorted(x.keys())]]
    return ["rec", TNAMES[t], attrs]


def steps(p):
    return [None if x == "*" else int(x[1:]) if x[0] == "#" else x for x in p]


def tell(d):
    """what reflect says, in the order of the slots' names"""
    d = dict(d)
    items = d.pop("itemtype", None)
    props = d.pop("properties", {})
    name = d.pop("name")
    out = []
    for k in sorted(props):
        p = props[k]
        if k in "tu":
            out.append([k, "?"])
        elif "properties" in p or "itemtype" in p or p["name"] in SHOWN:
            out.append([k, tell(p)])
        else:
            t = p.pop("type", "")
            if p != {"name": k}:
                return ["odd", repr(p)]
            out.append([k, t])
    if d:
        return ["odd", repr(d)]
    return [SHOWN.get(name, name), out,
            [] if items is None else tell(items)]


def pattern(o, log):
    def hook(value, prop, visitor):
        log.append([
            ["#%d" % x if isinstance(x, int) else x
             for x in visitor.field_selector.selectors],
            prop.name if prop else "", enc(value)])
        if isinstance(value, (AttributeError, KeyError)):
            return None
        if o["ap"] == "odd" and type(value) is int:
            return {0: None, 3: ""}.get(value, value)
        return value

    class Pattern(VisitorPattern):
        @classmethod
        def apply(cls, value, prop, visitor):
            return hook(value, prop, visitor)

        @classmethod
        def reverse(cls, value, prop, visitor):
            return hook(value, prop, visitor)

        @classmethod
        def unpack(cls, value, value_type, visitor):
            if value_type is K and o["st"]:
                return (cls.StopVisiting("k") if o["st"] == "value" else
                        cls.StopVisiting)
            return super(Pattern, cls).unpack(value, value_type, visitor)
    return Pattern


def options(o, form):
    kw = dict(extraneous=o["x"], ignore_none=o["nn"],
              ignore_empty_string=o["es"], apply_empty_slots=o["em"])
    if form == 1:     # only what is not the default
        kw = dict((k, v) for k, v in kw.items() if v != (k == "ignore_none"))
    if o["f"] != [[]]:
        f = [steps(p) for p in o["f"]]
        kw[["filter", "visit_filter"][form]] = (
            MultiFieldSelector(*f) if form else f)
    return kw


class Session(object):
    def __init__(self, state):
        self.u = dec(state)
        self.v = dec(state, {})     # with parts that are the same object
        self.others = []

    def project(self):
        v = enc(self.v)
        return v if core.key(v) == core.key(enc(self.u)) else ["differ"]

    def one(self, op, form):
        v = self.v if form else self.u
        o = op[-1]
        log = []
        P = pattern(o, log)
        plain = o["ap"] == "id" and not o["st"] and form
        if plain and op[0] == "trip":
            P = VisitorPattern
        kw = options(o, form)
        out = ["ok", None, []]
        try:
            if op[0] == "visit":
                out[1] = enc(P.visit(v, **kw))
            elif op[0] == "as":
                out[1] = enc(P.visit(v, TYPES[op[1]], **kw))
            elif op[0] == "cast":
                out[1] = enc(P.cast(TYPES[op[1]], v, **kw))
            elif op[0] == "trip":
                out[1] = enc(P.cast(type(v), P.visit(v, **kw),
                                    **kw))
                return out
            elif op[0] == "reflect":
                out[1] = tell(P.reflect(type(v), **kw))
            else:
                out[1] = tell(P.reflect(v, **kw))
        except (TypeError, ValueError, AttributeError):
            return ["err"]
        out[2] = sorted(log, key=core.key)
        return out

    def apply(self, op):
        first = self.one(op, 0)
        self.others = [self.one(op, 1)]
        return first


def canon(t):
    t = dict(t)
    if t["res"][0] == "ok":
        t["res"] = t["res"][:2] + [sorted(t["res"][2], key=core.key)]
    return t


# ---- random values
class Gen(object):
    def __init__(self, r):
        self.r = r

    def scalar(self):
        return self.r.choice([["i", self.r.randint(0, 4)], ["n"], ["s", []],
                              ["s", ["a"]], ["b", True],
                              ["i", self.r.randint(0, 4)]])

    def rec(self, T, **s):
        return ["rec", T, [[k, f()] for k, (p, f) in sorted(s.items())
                           if self.r.random() < p]]

    def text(self):
        return ["s", list(self.r.choice(["", "a", "b", "ab"]))]

    def seq(self, f, top=3):
        return [f() for _ in range(self.r.randint(0, top))]

    def entries(self, f):
        return [[k, f()] for k in sorted(self.r.sample(
            ["p", "q", "r"], self.r.randint(0, 3)))]

    def k(self):
        return self.rec("K", c=(.7, self.free), g=(.5, self.texts))

    def texts(self):
        return ["list", "LS", self.seq(self.text)]

    def int(self):
        return ["i", self.r.randint(0, 4)]

    def n(self, depth=1):
        sub = lambda: self.r.random() < .15 and depth and self.n(0) \
            or self.free()
        s = dict(e=(.3, self.scalar), x=(.6, sub), y=(.6, self.int),
                 k=(.3, self.k))
        if self.r.random() < .1:
            return self.rec("NS", w=(.7, self.scalar), **s)
        return self.rec("N", **s)

    def free(self):
        return self.scalar() if self.r.random() < .7 else self.plain()

    def plain(self, depth=1):
        sub = lambda: self.r.random() < .2 and depth and self.plain(0) or \
            self.scalar()
        if self.r.random() < .5:
            return ["list", "py", self.seq(sub)]
        return ["dict", "py", self.entries(sub)]

    def xl(self):
        return ["list", "XL", self.seq(self.n),
                [["tag", self.free()]] if self.r.random() < .6 else []]

    def ln(self):
        return ["list", "LN", self.seq(self.n)]

    def root(self):
        r = self.r
        return self.rec(
            "R", a=(.5, lambda: r.choice([self.scalar, self.plain, self.n,
                                          self.ln, self.xl, self.texts])()),
            d=(.4, lambda: ["dict", "DN", self.entries(self.n)]),
            e=(.3, self.scalar), g=(.4, self.texts), l=(.5, self.ln),
            n=(.5, self.n),
            t=(.4, lambda: r.choice([self.n, self.text, lambda: ["n"]])()),
            u=(.3, lambda: r.choice([self.ln, self.text])()),
            x=(.3, self.xl),
            z=(.2, lambda: self.rec("E", e=(.5, self.scalar))))

    # plain data much like what a visit of v gives
    def tree(self, v):
        r = self.r
        if v[0] == "rec":
            es = dict((k, self.tree(x)) for k, x in v[2])
            if r.random() < .05:
                es["zz"] = self.scalar()
            if es and r.random() < .04:
                es[r.choice(sorted(es))] = self.free()
            return ["dict", "py", [[k, es[k]] for k in sorted(es)]]
        if v[0] == "list":
            ms = ["list", "py", [self.tree(x) for x in v[2]]]
            if len(v) > 3:
                return ["dict", "py", [[k, self.tree(x)] for k, x in v[3]]
                        + [["values", ms]]]
            return ms
        if v[0] == "dict":
            return ["dict", "py", [[k, self.tree(x)] for k, x in v[2]]]
        return v


PATHS = [["a"], ["a", "*", "x"], ["a", "#0"], ["a", "x"], ["d"], ["d", "p"],
         ["d", "*", "x"], ["d", "q", "k", "c"], ["d", "*", "k", "g", "*"],
         ["e"], ["g"], ["g", "#0"], ["g", "*"], ["l"], ["l", "*", "x"],
         ["l", "#1", "y"], ["l", "#0"], ["l", "*", "k"], ["l", "*", "e"],
         ["l", "#2", "k", "g", "#0"], ["n"], ["n", "x"], ["n", "k", "c"],
         ["n", "e"], ["n", "x", "y"], ["t"], ["t", "x"], ["t", "k", "g"],
         ["u"], ["u", "*", "x"], ["u", "#0"], ["x"], ["x", "tag"],
         ["x", "*", "x"], ["x", "#0"], ["x", "#1", "y"], ["z"], ["z", "e"]]
STARS = [p for p in PATHS if not any(x[0] == "#" for x in p)
         and p[0] != "a" and "p" not in p and "q" not in p
         and p != ["n", "x", "y"] and p != ["t", "x"] and p[:2] != ["t", "k"]
         and p != ["u", "*", "x"]]


def mixed(f):
    """a wildcard next to a name is refused by multi selectors"""
    at = {}
    for p in f:
        for k in range(len(p)):
            at.setdefault(tuple(p[:k]), set()).add(p[k])
    return any("*" in s and len(s) > 1 for s in at.values())


def traces(seed, count, length, ops):
    out = []
    for i in range(count):
        r = random.Random("V%s-%s" % (seed, i))
        t = []
        for _ in range(length):
            on = lambda p: r.random() < p
            g = Gen(r)
            v = g.root()
            o = dict(x=on(.4), nn=on(.6), es=on(.3), em=on(.25), f=[[]],
                     ap=r.choice(["id", "id", "odd"]), st="")
            what = r.choice(ops)
            if what == "visit" and on(.1):
                o["st"] = r.choice(["value", "class"])
            if on(.5):
                f = r.sample(STARS if what.startswith("refl") else PATHS,
                             r.choice([1, 1, 2, 3, 4]))
                o["f"] = [[]] if mixed(f) else f
            if what in ("as", "cast"):
                v = g.tree(v)
                op = [what, "R", o]
            else:
                if what.startswith("refl") and on(.3):
                    v = r.choice([["list", "LN", []], ["list", "XL", [], []],
                                  ["rec", "NS", []], ["dict", "DN", []]])
                    o["f"] = [[]]
                if what == "trip":
                    o["ap"] = "id"
                op = [what, o]
            s = Session(v)
            pre = s.project()
            res = core.run_op(s, op)
            both = [res] + s.others
            if core.key(s.project()) != core.key(pre):
                both = [["err", "modified its argument"]]
            for x in both:
                t.append({"op": op, "res": x, "pre": pre})
        out.append(t)
    return out


def check_visit(check, models, ops, n):
    for what, size, laws in models:
        check.edges("MCVisitor", core.mkcfg(
            constants={"What": '"%s"' % what, "Size": size,
                       "KeyOrder": "<- KeyOrderDef"}, invariants=laws),
            Session, canon=canon)
    check.validate("TraceVisitor", traces(
        check.seed, check.pick(n, n * 12), 6, ops),
        constants={"KeyOrder": "<- KeyOrderT"}, label="visitor")


def c22(check):
    check_visit(check, [
        ("opts", check.pick(2, 3), ["TripLaw", "OnceLaw", "TrueLaw"]),
        ("cast", 2, [])], ["visit", "trip", "cast"], 250)


def c23(check):
    check_visit(check, [
        ("filter", 2, ["FilterLaw", "OnceLaw", "TrueLaw"]),
        ("opts", check.pick(1, 3), ["AgainLaw", "OnceLaw"]),
        ("as", check.pick(1, 2), []), ("reflect", 2, [])],
        ["visit", "cast", "as", "reflect", "reflect1"], 250)
