"""ListColl.tla / DictColl.tla bound to real collections."""
import random
from collections import OrderedDict, deque
from types import MappingProxyType

import core
from core import key
from pyval import errkind

from normalize import Record, JsonRecord, Property
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.types import IntProperty
from normalize.record.json import JsonRecordDict, JsonRecordList
from normalize.subtype import subtype


class NoStr(object):
    def __str__(self):
        raise ValueError("no text")


class SayStr(object):
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s


class It(Record):
    id = IntProperty(required=True)
    note = Property(extraneous=True)
    mark = Property(extraneous=True)


class JIt(JsonRecord):
    id = IntProperty(json_name="ID", required=True)
    note = Property(extraneous=True)


class Tup(tuple):
    """members which look like (key, value) pairs"""


def it_of(k):
    k = int(k)
    return It(id=k % 100, note=k // 100)


def full_id(x):
    return x.id + 100 * (x.note or 0)


POSABS = subtype("cposabs", of=int, where=lambda x: x > 0,
                 coerce=lambda v: abs(int(v)))


class ItList(ListCollection):
    itemtype = It
    coerceitem = it_of
    name = Property()


class ItMap(DictCollection):
    itemtype = It
    coerceitem = it_of
    name = Property()


class JList(JsonRecordList):
    itemtype = JIt


class JMap(JsonRecordDict):
    itemtype = JIt


class Owner(Record):
    items = ListProperty(of=It)
    map = DictProperty(of=It)
    other = Property(isa=int, default=7)


class OwnerSub(Record):
    items = ListProperty(coll=ItList, of=It)
    map = DictProperty(coll=ItMap, of=It)


# flavour: (list class, dict class, item, coercible, bad, ident)
def _id(typ, f):
    def ident(x):
        if not isinstance(x, typ):
            return -99
        return f(x)
    return ident


FLAVOURS = {
    "int": (list_of(int), dict_of(int), lambda k: k, lambda k: str(k),
            lambda: "x", _id(int, lambda x: x)),
    "str": (list_of(str), dict_of(str), lambda k: "s%d" % k,
            lambda k: SayStr("s%d" % k), lambda: NoStr(),
            _id(str, lambda x: int(x[1:]))),
    "rec": (list_of(It), dict_of(It),
            lambda k: It(id=k % 100, note=k // 100, mark=object()),
            lambda k: {"id": k % 100, "note": k // 100},
            lambda: {"id": "x"}, _id(It, full_id)),
    "sub": (ItList, ItMap, it_of, lambda k: str(k),
            lambda: "x", _id(It, full_id)),
    "json": (JList, JMap, lambda k: JIt(id=k % 100, note=k // 100),
             lambda k: {"ID": k % 100, "note": k // 100},
             lambda: {"ID": "x"}, _id(JIt, full_id)),
    "subtype": (list_of(POSABS), dict_of(POSABS), lambda k: k,
                lambda k: -k, lambda: "x", _id(POSABS, lambda x: x)),
    "prop": (None, None, it_of,
             lambda k: {"id": str(k % 100), "note": k // 100},
             lambda: {"zz": 1}, _id(It, full_id)),
    "propsub": (None, None, it_of, lambda k: str(k),
                lambda: None, _id(It, full_id)),
    "tup": (None, dict_of(Tup), lambda k: Tup(("v", k)),
            lambda k: ("v", k), lambda: 5, _id(Tup, lambda x: x[1])),
}
# where ids k and k + 100 make equal items
TWINS = ("rec", "sub", "json", "prop", "propsub")
LISTS = sorted(set(FLAVOURS) - set(["tup"]))
ObjList = list_of(object)
ObjMap = dict_of(object)


class Base(object):
    count = 0

    def pick(self, *args):
        """one of several ways to do the same, in turn"""
        Base.count += 1
        return args[Base.count % len(args)]

    def __init__(self, flavour):
        self.fl = flavour
        (self.lcls, self.dcls, self.item, self.coercible, self.bad,
         self.ident) = FLAVOURS[flavour]

    def arg(self, a):
        if a[0] == "t":
            return self.item(a[1])
        if a[0] == "c":
            return self.coercible(a[1])
        return self.bad()

    def apply(self, op):
        try:
            r = self._do(op)
        except Exception as e:
            return ["err", errkind(e)]
        if r is None:
            return ["ok", "n"]
        return ["ok"] + list(r)


def sl(i, j, k):
    return slice(i[0] if i else None, j[0] if j else None,
                 None if k == 1 else k)


class ListSession(Base):
    def __init__(self, flavour):
        Base.__init__(self, flavour)
        if self.fl == "prop":
            self.owner = Owner(items=[])
        elif self.fl == "propsub":
            self.owner = OwnerSub(items=[])
        else:
            self.owner = None
            self.c = self.lcls([])

    def coll(self):
        return self.owner.items if self.owner is not None else self.c

    def cls(self):
        return type(self.coll())

    def ids(self, it):
        return [self.ident(x) for x in it]

    def source(self, src, as_):
        vals = [self.arg(a) for a in as_]
        typed = all(a[0] == "t" for a in as_)
        if src == "list":
            return vals
        if src == "tuple":
            return tuple(vals)
        if src == "gen":
            return (v for v in vals)
        if src == "iter":
            return self.pick(iter(vals), map(lambda v: v, vals), deque(vals),
                             dict(enumerate(vals)).values())
        if src == "map":
            n = len(vals)
            return self.pick(dict, OrderedDict, MappingProxyType)(dict(
                ("k%d" % i, vals[i]) for i in reversed(range(n))))
        if src == "intmap":
            n = len(vals)
            at = self.pick(0, 8, 98, -2)
            return dict((at + i, vals[i]) for i in reversed(range(n)))
        if src == "coll":
            return self.cls()(vals) if typed else ObjList(vals)
        if src == "othercoll":
            return ObjList(vals)
        if src == "dictcoll":
            return ObjMap(dict(("k%d" % i, v) for i, v in enumerate(vals)))
        raise ValueError(src)

    def build(self, src):
        if self.owner is not None:
            self.owner.items = src
        elif self.fl == "json" and not isinstance(src, list):
            self.c = self.lcls(values=src)
        else:
            self.c = self.lcls(src)

    def project(self):
        return self.ids(self.coll())

    def _do(self, op):
        o = op[0]
        c = self.coll()
        if o == "append":
            return c.append(self.arg(op[1]))
        if o == "extend":
            return c.extend(self.source(op[1], op[2]))
        if o == "extendself":
            return c.extend(c)
        if o == "reverse":
            return c.reverse()
        if o == "sort":
            if self.fl in ("int", "str", "subtype"):
                return c.sort(reverse=True) if op[1] else c.sort()
            return c.sort(key=lambda x: x.id, reverse=op[1])
        if o == "insert":
            return c.insert(op[1], self.arg(op[2]))
        if o == "set":
            c[op[1]] = self.arg(op[2])
            return
        if o == "del":
            del c[op[1]]
            return
        if o == "pop":
            return "v", self.ident(c.pop())
        if o == "popi":
            return "v", self.ident(c.pop(op[1]))
        if o == "remove":
            return c.remove(self.arg(op[1]))
        if o == "build":
            return self.build(self.source(op[1], op[2]))
        if o == "buildnone":
            if self.owner is not None:
                self.owner.items = []
            else:
                self.c = self.lcls()
            return
        if o == "buildstr":
            return self.build("12")
        if o == "buildbad":
            return self.build(NoStr())
        if o == "removem":
            return c.remove(c[op[1]])
        if o == "indexm":
            return "i", c.index(c[op[1]])
        if o == "countm":
            return "i", c.count(c[op[1]])
        if o == "inm":
            return "b", c[op[1]] in c
        if o == "appendm":
            return c.append(c[op[1]])
        if o == "insertm":
            return c.insert(op[1], c[op[2]])
        if o == "setm":
            c[op[1]] = c[op[2]]
            return
        if o == "get":
            return "v", self.ident(c[op[1]])
        if o == "getsl":
            return "l", self.ids(c[sl(*op[1:])])
        if o == "delsl":
            del c[sl(*op[1:])]
            return
        if o == "setsl":
            c[sl(*op[1:4])] = self.source(op[4], op[5])
            return
        if o == "setslself":
            c[sl(op[1], op[2], 1)] = c
            return
        if o == "count":
            return "i", c.count(self.arg(op[1]))
        if o == "in":
            return "b", self.arg(op[1]) in c
        if o == "index":
            a = self.arg(op[1])
            if not op[3]:
                return "i", (c.index(a, op[2][0]) if op[2] else c.index(a))
            return "i", c.index(a, op[2][0] if op[2] else 0, op[3][0])
        if o == "eq":
            return "b", c == self.source(op[1], op[2])
        if o == "ne":
            return "b", c != self.source(op[1], op[2])
        if o == "eqother":
            return "b", c == ObjList(list(c))
        if o == "eqtuple":
            return "b", c == tuple(c)
        if o in ("add", "addself"):
            r = c + (c if o == "addself" else self.source(op[1], op[2]))
            if type(r) is not type(c):
                return "?", type(r).__name__
            return "l", self.ids(r)
        if o == "iter":
            return "l", self.ids(c)
        if o == "itertuples":
            ts = list(c.itertuples())
            if [t[0] for t in ts] != list(range(len(ts))):
                return "?", [t[0] for t in ts]
            return "l", self.ids(t[1] for t in ts)
        if o == "reversed":
            return "l", self.ids(reversed(c))
        if o == "len":
            return "i", len(c)
        if o == "types":
            return "b", all(self.ident(x) != -99 for x in c)
        raise ValueError(op)


def rarg(r, ids, twins=False):
    x = r.random()
    k = r.randint(1, ids)
    if twins:
        k += r.choice([0, 100])
    if x < 0.5:
        return ["t", k]
    if x < 0.9:
        return ["c", k]
    return ["b"]


def rbound(r, n=12):
    return [] if r.random() < 0.3 else [r.randint(-n, n)]


SRC = ["list", "tuple", "gen", "iter", "map", "coll", "othercoll", "dictcoll",
       "intmap"]


def list_op(r, n, twins=False):
    ids = 3 if twins else 6
    o = r.choice(["append", "append", "extend", "extend", "insert", "insert",
                  "set", "del", "pop", "popi", "remove", "reverse", "sort",
                  "get", "getsl", "delsl", "setsl", "count", "in", "index",
                  "eq", "ne", "add", "iter", "itertuples", "reversed", "len",
                  "types", "addself", "extendself", "setslself", "build",
                  "eqother", "eqtuple", "removem", "removem", "indexm",
                  "countm", "inm", "appendm", "insertm", "setm"])
    if n > 14 and o in ("extendself", "extend", "append", "setslself",
                        "appendm", "insertm"):
        o = "delsl"
    args = lambda: [rarg(r, ids, twins) for _ in range(r.randint(0, 4))]  # noqa
    idx = r.randint(-n - 2, n + 2)
    if o in ("append", "remove", "count", "in"):
        return [o, rarg(r, ids, twins)]
    if o in ("insert", "set"):
        return [o, idx, rarg(r, ids, twins)]
    if o in ("del", "popi", "get", "removem", "indexm", "countm", "inm",
             "appendm"):
        return [o, idx]
    if o in ("insertm", "setm"):
        return [o, r.randint(-n - 2, n + 2), idx]
    if o == "extend":
        return [o, r.choice(["list", "gen", "coll"]), args()]
    if o == "build":
        return [o, r.choice(SRC), args()]
    if o in ("eq", "ne", "add"):
        return [o, r.choice(["list", "coll"]), args()]
    if o == "sort":
        return [o, r.random() < 0.5]
    if o in ("getsl", "delsl"):
        return [o, rbound(r), rbound(r), r.choice([1, 1, 2, 3, -1, -2, -3])]
    if o == "setsl":
        return [o, rbound(r), rbound(r), r.choice([1, 1, 1, 2, -1, -2]),
                r.choice(["list", "gen"]), args()]
    if o == "setslself":
        return [o, rbound(r), rbound(r)]
    if o == "index":
        return [o, rarg(r, ids, twins), rbound(r), rbound(r)]
    return [o]


def list_traces(seed, count, length):
    out = []
    names = LISTS
    for i in range(count):
        r = random.Random("L%s-%s" % (seed, i))
        twins = r.random() < .5
        s = ListSession(names[i % len(names)])
        t = []
        for _ in range(length):
            op = list_op(r, len(s.project()), twins and s.fl in TWINS)
            res = core.run_op(s, op)
            ran = core.ran_away(res)
            t.append({"op": op, "res": res,
                      "post": [] if ran else s.project(),
                      "flavour": s.fl})
            if ran:
                break
        out.append(t)
    return out


def replay_flavours(check, g, session, init, probes, walks, walklen,
                    flavours):
    """Replay one emitted graph on every flavour of collection."""
    (base,) = g.edges.values()
    g2 = core.Graph()
    g2.edges = dict((key({"flavour": f}), base) for f in flavours)
    g2.count = g.count * len(flavours)
    return check.walk_graph(g2, lambda c: session(c["flavour"]), init,
                            probes, walks, walklen)


def c06(check):
    fams = [("mutate", 2, "BoundsS", "ArgsS"), ("read", 3, "BoundsS", "ArgsS"),
            ("slice", 3, "BoundsS", "ArgsS"), ("twins", 3, "BoundsS", "ArgsT")]
    if check.thorough:
        fams = [("mutate", 3, "BoundsL", "ArgsL"),
                ("read", 4, "BoundsL", "ArgsL"),
                ("slice", 4, "BoundsL", "ArgsL"),
                ("twins", 4, "BoundsS", "ArgsT")]
    for fam, maxlen, bounds, args in fams:
        g = core.Graph()
        check.model("MCListColl", core.mkcfg(
            constants={"Ids": "{1, 101}" if fam == "twins" else "{1, 2}",
                       "MaxLen": maxlen, "Bounds": "<- " + bounds,
                       "Steps": "<- " + check.pick("StepsS", "StepsL"),
                       "Indexes": "<- IndexesS", "ArgLists": "<- " + args,
                       "Family": '"%s"' % fam},
            invariants=["Members", "FailKeeps", "ReadsKeep"]), on_say=g.add, collect=False)
        check.sample_graph(g)
        fl = TWINS if fam == "twins" else LISTS if (
            fam != "slice" or check.thorough) else [
            "int", "rec", "prop", "json"]
        replay_flavours(check, g, ListSession, [],
                        [["iter"], ["len"], ["types"]],
                        check.pick(3, 20), check.pick(20, 60), fl)
    check.validate("TraceListColl", list_traces(
        check.seed, check.pick(160, 3000), check.pick(30, 60)),
        constants={"Ids": "{1}", "MaxLen": 0, "Bounds": "{}", "Steps": "{}",
                   "Indexes": "{}", "ArgLists": "{}", "Family": '"read"'},
        label="list execution")


def dkey(k):
    return k[1] if k[0] in "is" else None if k[0] == "n" else (k[1], 0)


def ekey(k):
    return ["i", k] if isinstance(k, int) else ["n"] if k is None else [
        "t", k[0]] if isinstance(k, tuple) else ["s", k]


class DictSession(Base):
    def __init__(self, flavour):
        Base.__init__(self, flavour)
        if self.fl == "prop":
            self.owner = Owner(map={})
        elif self.fl == "propsub":
            self.owner = OwnerSub(map={})
        else:
            self.owner = None
            self.c = self.dcls({})

    def coll(self):
        return self.owner.map if self.owner is not None else self.c

    def build(self, src):
        if self.owner is not None:
            self.owner.map = src
        elif self.fl == "json" and not isinstance(src, dict):
            self.c = self.dcls(values=src)
        else:
            self.c = self.dcls(src)

    def pairs(self, src, ps):
        vals = [(dkey(k), self.arg(a)) for k, a in ps]
        if src == "map":
            return self.pick(dict, OrderedDict, MappingProxyType)(dict(vals))
        if src == "kw":
            return dict(vals)
        if src == "coll":
            if all(a[0] == "t" for k, a in ps):
                return type(self.coll())(dict(vals))
            return ObjMap(dict(vals))
        if src == "pairs":
            return vals
        if src == "iter":
            return self.pick(iter(vals), (v for v in vals),
                             dict(enumerate(vals)).values())
        raise ValueError(src)

    def compared(self, src, ps):
        p = self.pairs(src, ps)
        if src == "map" and not isinstance(p, dict):
            p = dict(p)     # only what is a dict is compared as one
        return p

    def entries(self, it):
        return [[ekey(k), self.ident(v)] for k, v in it]

    def project(self):
        return self.entries(self.coll().itertuples())

    def _do(self, op):
        o = op[0]
        c = self.coll()
        if o == "set":
            c[dkey(op[1])] = self.arg(op[2])
            return
        if o == "del":
            del c[dkey(op[1])]
            return
        if o == "pop":
            return "v", self.ident(c.pop(dkey(op[1])))
        if o == "get":
            return "v", self.ident(c[dkey(op[1])])
        if o == "in":
            return "b", dkey(op[1]) in c
        if o == "popitem":
            k, v = c.popitem()
            return "p", [ekey(k), self.ident(v)]
        if o == "clear":
            return c.clear()
        if o == "update":
            p = self.pairs(op[1], op[2])
            if op[1] == "kw":
                if all(isinstance(k, str) for k in p):
                    return c.update(**p)
            return c.update(p)
        if o == "updatekw":
            return c.update(self.pairs(op[1], op[2]), **dict(
                self.pairs("pairs", op[3])))
        if o == "build":
            return self.build(self.pairs(op[1], op[2]))
        if o == "buildseq":
            vals = [self.arg(a) for a in op[2]]
            if op[1] in ("iter", "listcoll") and self.fl == "tup":
                return self.build(vals)   # they would be entries
            if op[1] == "iter":
                return self.build(self.pick(iter(vals), deque(vals),
                                            (v for v in vals)))
            return self.build({"list": list, "tuple": tuple,
                               "listcoll": ObjList}[op[1]](vals))
        if o == "buildnone":
            if self.owner is not None:
                self.owner.map = {}
            else:
                self.c = self.dcls()
            return
        if o == "buildstr":
            return self.build("ab")
        if o == "buildbad":
            return self.build(NoStr())
        if o == "eq":
            return "b", c == self.compared(op[1], op[2])
        if o == "ne":
            return "b", c != self.compared(op[1], op[2])
        if o == "eqrev":
            return "b", c == type(c)(dict(reversed(list(c.itertuples()))))
        if o == "eqother":
            return "b", c == ObjMap(dict(c.itertuples()))
        if o == "keys":
            return "l", [ekey(k) for k in c.keys()]
        if o == "iterkeys":
            return "l", [ekey(k) for k in c.iterkeys()]
        if o == "iter":
            return "l", [ekey(k) for k in c]
        if o == "values":
            return "l", [self.ident(k) for k in c.values()]
        if o == "itervalues":
            return "l", [self.ident(k) for k in c.itervalues()]
        if o in ("items", "iteritems", "itertuples"):
            return "l", self.entries(getattr(c, o)())
        if o == "len":
            return "i", len(c)
        if o == "types":
            return "b", all(self.ident(x) != -99 for x in c.values())
        raise ValueError(op)


def dict_op(r, n, twins=False):
    ids = 3 if twins else 6
    kk = [["s", x] for x in "abcdefgh"] + [["i", x] for x in (0, 1, 2, -1)] + [
        ["n"], ["t", 1], ["s", ""]]
    ks = kk[:4]
    o = r.choice(["set", "set", "set", "del", "pop", "get", "in", "popitem",
                  "update", "update", "updatekw", "build", "buildseq", "eq", "ne",
                  "eqrev", "eqother", "keys", "values", "items", "iterkeys",
                  "itervalues", "iteritems", "itertuples", "len", "iter",
                  "types"] + (["clear"] if n > 6 else []))
    ps = lambda: [[r.choice(kk), rarg(r, ids, twins)]  # noqa
                  for _ in range(r.randint(0, 4))]
    if o == "set":
        return [o, r.choice(kk), rarg(r, ids, twins)]
    if o in ("del", "pop", "get", "in"):
        return [o, r.choice(kk)]
    if o == "update":
        return [o, r.choice(["map", "coll", "pairs", "iter", "kw"]), ps()]
    if o == "updatekw":
        given = {}
        for _ in range(r.randint(0, 3)):
            given[r.choice(ks)[1]] = rarg(r, ids, twins)
        return [o, r.choice(["map", "pairs"]), ps(),
                [[["s", k], a] for k, a in given.items()]]
    if o == "build":
        return [o, r.choice(["map", "coll", "iter"]), ps()]
    if o == "buildseq":
        return [o, r.choice(["list", "tuple", "listcoll", "iter"]),
                [rarg(r, ids, twins) for _ in range(r.randint(0, 4))]]
    if o in ("eq", "ne"):
        return [o, r.choice(["map", "coll"]), ps()]
    return [o]


def dict_traces(seed, count, length):
    out = []
    names = sorted(FLAVOURS)
    for i in range(count):
        r = random.Random("D%s-%s" % (seed, i))
        twins = r.random() < .5
        s = DictSession(names[i % len(names)])
        t = []
        for _ in range(length):
            op = dict_op(r, len(s.project()), twins and s.fl in TWINS)
            res = core.run_op(s, op)
            ran = core.ran_away(res)
            t.append({"op": op, "res": res,
                      "post": [] if ran else s.project(),
                      "flavour": s.fl})
            if ran:
                break
        out.append(t)
    return out


def c07(check):
    g = core.Graph()
    check.model("MCDictColl", core.mkcfg(
        constants={"Ids": "{1, 2}", "Keys": check.pick("<- KeysS", "<- KeysL"),
                   "MaxLen": check.pick(2, 3),
                   "PairLists": check.pick("<- PairsS", "<- PairsL"),
                   "ValLists": "<- ValsS", "KwLists": "<- KwsS"},
        invariants=["Members", "UniqueKeys", "FailKeeps"]),
        on_say=g.add, collect=False)
    check.sample_graph(g)
    replay_flavours(check, g, DictSession, [],
                    [["items"], ["len"], ["types"]],
                    check.pick(5, 40), check.pick(20, 60), sorted(FLAVOURS))
    check.validate("TraceDictColl", dict_traces(
        check.seed, check.pick(240, 4000), check.pick(30, 60)),
        constants={"Ids": "{1}", "Keys": "{}", "MaxLen": 0,
                   "PairLists": "{}", "ValLists": "{}", "KwLists": "{}"},
        label="dict execution")
