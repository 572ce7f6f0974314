"""JsonRec.tla bound to JSON marshalling of real records (C10, C11, C12)."""
import copy
import json
import random

import core
from core import key
from pyval import errkind

from normalize import Record, Property
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.json import JsonDictProperty, JsonListProperty
from normalize.record.json import (JsonRecord, JsonRecordDict, JsonRecordList,
                                   from_json, to_json)

KEYS = ["", "C", "ID", "Name", "Ps", "V", "W", "X", "Y", "a", "any", "b", "blank", "c", "cash", "cv",
        "d", "e", "in", "jList", "jd", "jll", "jlp", "jn", "k", "keep", "kp", "kq",
        "leaf", "n", "name", "nums", "opt", "pSub", "pd", "pl", "pll", "plp", "remark",
        "secret", "sub", "t", "unknown_json_keys", "x", "y", "zz", "zy"]
KPOS = dict((k, i) for i, k in enumerate(KEYS))


class JsonIn(Exception):
    """raised by the converters below"""


# ... as one of these
ODD = dict((c, type("JsonIn" + e.__name__, (JsonIn, e), {})) for c, e in (
    ("v", ValueError), ("t", TypeError), ("k", KeyError), ("r", RuntimeError),
    ("a", AttributeError), ("s", AssertionError)))


def odd(v):
    return ODD.get(v[-1:] if isinstance(v, str) else "v", ODD["v"])(v)


def conv_in(v):
    if isinstance(v, str) and v[:1] == "x":
        return v[1:]
    raise odd(v)


class Money(object):
    """Not a record, but knows its own JSON form."""
    def __init__(self, n):
        self.n = n

    @classmethod
    def from_json(cls, v):
        if isinstance(v, str) and v[:1] == "m":
            return cls(int(v[1:]))
        raise odd(v)

    def json_data(self):
        return "m%d" % self.n

    def __eq__(self, other):
        return isinstance(other, Money) and self.n == other.n

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash(self.n)


class PItem(Record):
    k = Property(isa=str, required=True)
    v = Property(isa=int, json_name="V", default=None)
    e = Property(isa=int, extraneous=True)


class JSub(JsonRecord):
    x = Property(isa=int, json_name="X")
    leaf = Property(isa=PItem)


class JSub2(JSub):
    w = Property(isa=int, json_name="W")


class PSub(Record):
    y = Property(isa=int, json_name="Y")
    inner = Property(isa=JSub, json_name="in")
    ps = ListProperty(of=PItem, json_name="Ps")


class JItem(JsonRecord):
    id = Property(isa=int, required=True, json_name="ID")
    t = Property(isa=str)
    sub = Property(isa=JSub)


class JL(JsonRecordList):
    itemtype = JItem


class JD(JsonRecordDict):
    itemtype = JItem


class JKeep(JsonRecord):
    unknown_json_keys = Property(json_name=None)
    a = Property(isa=int)
    blank = Property(isa=int, json_name="")


class JRoot(JsonRecord):
    # some read as something else than an error where they are not set
    n = Property(isa=int, v1_none="")
    name = Property(isa=str, json_name="Name")
    secret = Property(isa=str, json_name=None)
    note = Property(isa=str, json_name="remark", extraneous=True)
    cv = Property(isa=int, json_in=conv_in, json_out=lambda v: "x%d" % v)
    cash = Property(isa=Money)
    any = Property()
    dflt = Property(isa=int, json_name="d", default=7)
    sub = Property(isa=JSub, default=None)
    psub = Property(isa=PSub, json_name="pSub", v1_none=None)
    keep = Property(isa=JKeep)
    jl = JsonListProperty(of=JItem, json_name="jList", default=None)
    jlp = JsonListProperty(of=PItem)
    jn = JsonListProperty(of=int)
    pl = ListProperty(of=JItem)
    plp = ListProperty(of=PItem, v1_none=None)
    nums = ListProperty(of=int)
    jd = JsonDictProperty(of=JItem)
    pd = DictProperty(of=PItem)
    opt = Property(isa=int, json_in=lambda v: 0 if v is None else v,
                   json_out=lambda v: None if repr(v) == "0" else v)
    jll = JsonListProperty(of=JL)
    pll = ListProperty(of=list_of(PItem))


class PRoot(Record):
    a = Property(isa=JSub)
    b = ListProperty(of=PItem)
    c = Property(isa=int, json_name="C")


TYPES = dict((c.__name__, c) for c in
             (PItem, JSub, JSub2, PSub, JItem, JKeep, JRoot, PRoot))
ORDER = {
    "JRoot": ["n", "name", "secret", "note", "cv", "cash", "any", "dflt",
              "sub", "psub", "keep", "jl", "jlp", "jn", "pl", "plp", "nums",
              "jd", "pd", "opt", "jll", "pll"],
    "JSub": ["x", "leaf"], "JSub2": ["x", "leaf", "w"], "PSub": ["y", "inner", "ps"],
    "JItem": ["id", "t", "sub"], "PItem": ["k", "v", "e"], "JKeep": ["a", "blank"],
    "PRoot": ["a", "b", "c"]}


COLLS = {"JL": JL, "JD": JD, "PL": list_of(PItem), "PD": dict_of(PItem)}
PROPCOLL = {("list", "J", "JItem"): JRoot.properties["jl"].valuetype,
            ("list", "J", "PItem"): JRoot.properties["jlp"].valuetype,
            ("list", "J", "int"): JRoot.properties["jn"].valuetype,
            ("list", "P", "JItem"): list_of(JItem),
            ("list", "P", "PItem"): list_of(PItem),
            ("list", "P", "int"): list_of(int),
            ("dict", "J", "JItem"): JRoot.properties["jd"].valuetype,
            ("dict", "P", "PItem"): dict_of(PItem),
            ("list", "J", "JL"): JRoot.properties["jll"].valuetype,
            ("list", "P", "PL"): list_of(list_of(PItem))}


# ---- values
def jbuild(v):
    t = v[0]
    if t == "n":
        return None
    if t == "big":
        return int(v[1])
    if t == "f":
        return float(v[1])
    if t == "arr":
        return [jbuild(x) for x in v[1]]
    if t == "obj":
        return dict((k, jbuild(x)) for k, x in v[1])
    if t in PLAIN:
        return PLAIN[t](build(x) for x in v[1])
    if t == "pydict":
        return dict((k, build(x)) for k, x in v[1])
    if t in ("rec", "money"):
        return build(v)
    return v[1]


# plain containers of records
PLAIN = {"pylist": list, "pytup": tuple, "pyset": set, "pyfset": frozenset}


def beyond(x):
    """is there something in x that JSON does not have?"""
    return (isinstance(x, (Record, Money, tuple, set, frozenset)) or
            isinstance(x, list) and any(beyond(v) for v in x) or
            isinstance(x, dict) and any(beyond(v) for v in x.values()))


def reverse(x):
    """the same JSON, with the keys of its objects the other way around"""
    if isinstance(x, dict):
        return dict((k, reverse(v)) for k, v in reversed(list(x.items())))
    if isinstance(x, list):
        return [reverse(v) for v in x]
    return x


def ents(pairs):
    return sorted(([k, v] for k, v in pairs),
                  key=lambda e: KPOS.get(e[0], len(KEYS)))


def jproj(x):
    if x is None:
        return ["n"]
    t = type(x)
    if isinstance(x, (Record, Money)):
        return project(x)
    if beyond(x) and t is dict:
        return ["pydict", ents((k, jproj(v)) for k, v in x.items())]
    if beyond(x):
        return [dict((c, k) for k, c in PLAIN.items()).get(t, "?"),
                [jproj(v) for v in x]]
    if t is bool:
        return ["b", x]
    if t is int:
        return ["i", x] if abs(x) < 2 ** 31 else ["big", str(x)]
    if t is float:
        return ["f", repr(x)]
    if t is str:
        return ["s", x]
    if t is list:
        return ["arr", [jproj(v) for v in x]]
    if t is dict:
        return ["obj", ents((k, jproj(v)) for k, v in x.items())]
    return ["?", t.__name__]


def build(nd):
    t = nd[0]
    if t == "rec":
        cls = TYPES[nd[1]]
        kw = dict((k, build(v)) for k, v in nd[2])
        if nd[3] != ["none"]:
            kw["unknown_json_keys"] = jbuild(nd[3])
        x = cls(**kw)
        if nd[1] == "JRoot" and "dflt" not in kw:
            del x.dflt
        return x
    if t == "list":
        return PROPCOLL[tuple(nd[:3])](values=[
            JL(values=[build(w) for w in v[3]]) if nd[2] == "JL" else
            build(v) for v in nd[3]])
    if t == "dict":
        return PROPCOLL[tuple(nd[:3])](
            values=dict((k, build(v)) for k, v in nd[3]))
    if t == "money":
        return Money(nd[1])
    return jbuild(nd)


NAMES = dict((v, k) for k, v in TYPES.items())
NAMES[int] = "int"
NAMES.update((v, k) for k, v in COLLS.items())
_MISS = object()


def project(x):
    t = type(x)
    if t is Money:
        return ["money", x.n]
    if isinstance(x, ListCollection):
        return ["list", "J" if isinstance(x, JsonRecord) else "P",
                NAMES.get(t.itemtype, "?"), [project(v) for v in x]]
    if isinstance(x, DictCollection):
        return ["dict", "J" if isinstance(x, JsonRecord) else "P",
                NAMES.get(t.itemtype, "?"),
                ents((k, project(v)) for k, v in x.items())]
    if t in TYPES.values():
        es = []
        for k in ORDER[NAMES[t]]:
            v = getattr(x, k, _MISS)
            if v is not _MISS and not reads_as_unset(t, k, v):
                es.append([k, project(v)])
        extra = set(vars(x)) - set(ORDER[NAMES[t]]) - {"unknown_json_keys"}
        if extra:
            es.append(["?", ["s", ",".join(sorted(extra))]])
        u = getattr(x, "unknown_json_keys", _MISS)
        return ["rec", NAMES[t], es,
                ["none"] if u is _MISS else
                ["obj", ents((k, jproj(v)) for k, v in u.items())]
                if type(u) is dict else jproj(u)]
    return jproj(x)


def reads_as_unset(t, k, v):
    """what a slot with a value of its own for that reads as; these are no
    values of its type"""
    prop = t.properties[k]
    return t is not JKeep and prop.valuetype and (v is None or v == "") and \
        not isinstance(v, prop.valuetype)


def scramble(v):
    """change every container of parsed JSON in place"""
    if isinstance(v, list):
        for x in v:
            scramble(x)
        v.append("scrambled")
    elif isinstance(v, dict):
        for x in list(v.values()):
            scramble(x)
        v["scrambled"] = 1


def kindof(e):
    path = []
    fs = getattr(e, "error_fs", None)
    if fs is not None:
        path = [["s", c] if isinstance(c, str) else
                ["i", c] if isinstance(c, int) else ["n"]
                for c in fs.selectors]
        e = e.sub_exception
        if hasattr(e, "error_fs"):
            return [path, "boxed twice"]
    k = "jsonin" if isinstance(e, JsonIn) else errkind(e)
    return [path, k if k in ("jsonin", "required", "unknown") else "conv"]


class Session(object):
    def __init__(self, nd=("none",)):
        self.obj = None if tuple(nd) == ("none",) else build(nd)

    def project(self):
        return ["none"] if self.obj is None else project(self.obj)

    others = ()

    def apply(self, op):
        self.others = []
        try:
            return ["ok", self._do(op)]
        except Failed as e:
            return e.args[0]
        except Exception as e:
            return ["err"] + kindof(e)

    def ways(self, T, doc):
        cls = COLLS.get(T) or TYPES[T]
        txt = json.dumps(doc)
        forms = [lambda: copy.deepcopy(doc), lambda: reverse(doc),
                 lambda: txt,
                 lambda: txt.encode("utf-8"),
                 lambda: bytearray(txt.encode("utf-8"))]
        apis = [lambda d: from_json(cls, d)]
        if issubclass(cls, JsonRecord):
            apis += [lambda d: cls(d), cls.from_json]
        for a in apis:
            for f in forms:
                yield a, f

    def load(self, op):
        T, doc = op[1], jbuild(op[3])
        if op[2] == "kw":
            # some slots are given by keyword
            kw = dict((k, build(v)) for k, v in op[4])
            self.obj = TYPES[T](doc, **kw)
            return ["none"]
        seen = None
        for api, form in self.ways(T, doc):
            d = form()
            try:
                x = api(d)
                r = ["ok", project(x)]
            except Exception as e:
                x, r = None, ["err"] + kindof(e)
                if not isinstance(d, (str, bytes, bytearray)) and d != doc:
                    return ["document changed by a failing read"]
            if seen is None:
                seen = r
            elif r != seen:
                # any one of several errors may be reported
                if r[0] == "ok" or seen[0] == "ok":
                    return ["ways differ", seen, r]
                if r not in self.others:
                    self.others.append(r)
            if x is None or isinstance(d, (str, bytes, bytearray)):
                continue
            if key(jproj(d)) != key(jproj(doc)):
                return ["document changed"]
            before = [(z, copy.deepcopy(z.unknown_json_keys))
                      for z in self.unknowns(x)]
            scramble(d)
            if any(z.unknown_json_keys != u for z, u in before):
                return ["unknown keys alias the document"]
            d2 = form()
            for w in list(self.unknowns(api(d2))):
                scramble(w.unknown_json_keys)
            if key(jproj(d2)) != key(jproj(doc)):
                return ["the document aliases the unknown keys"]
        if seen[0] == "err":
            return seen
        # the last way always is through text, so shares nothing
        self.obj = x
        return ["none"]

    def unknowns(self, x):
        """records with unknown keys"""
        if isinstance(x, (ListCollection, DictCollection)):
            for k, v in x.itertuples():
                for y in self.unknowns(v):
                    yield y
        elif isinstance(x, Record):
            if isinstance(x, JsonRecord) and hasattr(x, "unknown_json_keys"):
                yield x
            for k in ORDER[NAMES[type(x)]]:
                if hasattr(x, k):
                    for y in self.unknowns(getattr(x, k)):
                        yield y

    def dump(self, ext, how):
        if how == "method" and hasattr(self.obj, "json_data"):
            if ext:
                return self.obj.json_data(extraneous=True)
            return self.obj.json_data()
        return to_json(self.obj) if ext else to_json(self.obj, False)

    def _do(self, op):
        o = op[0]
        if o == "load":
            r = self.load(op)
            if r[0] == "err":
                raise Failed(r)
            return r
        if o == "dump":
            d = self.dump(op[1], op[2])
            r = jproj(d)
            if jproj(json.loads(json.dumps(d))) != r:
                return ["not what a JSON document can hold"]
            scramble(d)
            return r
        if o == "rt":
            d = self.dump(op[1], "method")
            cls = type(self.obj)
            res = set()
            for a in ([cls.from_json] if issubclass(cls, JsonRecord) else
                      []) + [lambda d: from_json(cls, d)]:
                for f in (copy.deepcopy, json.dumps,
                          lambda v: json.dumps(v).encode("utf-8")):
                    y = a(f(d))
                    res.add((y == self.obj, self.obj == y,
                             not (y != self.obj)))
            if len(res) > 1 or len(set(list(res)[0])) > 1:
                return ["ways differ"]
            return ["bool", list(res)[0][0]]
        if o in ("setu", "delu"):
            u = dict(getattr(self.obj, "unknown_json_keys", {}))
            if o == "setu":
                u[op[1]] = jbuild(op[2])
            else:
                del u[op[1]]
            self.obj.unknown_json_keys = u
            return ["none"]
        if o == "set":
            setattr(self.obj, op[1], build(op[2]))
            return ["none"]
        if o == "del":
            delattr(self.obj, op[1])
            return ["none"]
        raise ValueError(op)


class Failed(Exception):
    pass


# ---- random documents
FIELDS = {
    "JRoot": [("n", "int"), ("Name", "str"), ("remark", "str"),
              ("cv", "conv"), ("cash", "money"), ("any", "any"),
              ("d", "int"), ("sub", "rec:JSub"), ("pSub", "rec:PSub"),
              ("keep", "rec:JKeep"), ("jList", "list:JItem"),
              ("jlp", "list:PItem"), ("jn", "list:int"),
              ("pl", "list:JItem"), ("plp", "list:PItem"),
              ("nums", "list:int"), ("jd", "dict:JItem"),
              ("pd", "dict:PItem"), ("opt", "opt"), ("jll", "list:JL"),
              ("pll", "list:PL")],
    "JSub": [("X", "int"), ("leaf", "rec:PItem")],
    "PSub": [("Y", "int"), ("in", "rec:JSub"), ("Ps", "list:PItem")],
    "JItem": [("ID", "int"), ("t", "str"), ("sub", "rec:JSub")],
    "PItem": [("k", "str"), ("V", "int"), ("e", "int")],
    "JKeep": [("a", "int"), ("", "int")],
    "PRoot": [("a", "rec:JSub"), ("b", "list:PItem"), ("C", "int")]}
REQUIRED = ("ID", "k")
TOPS = {"JL": "list:JItem", "JD": "dict:JItem", "PL": "list:PItem",
        "PD": "dict:PItem"}
BIGS = ["1125899906842623", "1125899906842624", "1125899906842625",
        "-1125899906842624", "-1125899906842625",
        "100000000000000000000000000000"]


def rany(r, depth=2):
    x = r.random()
    if depth and x < 0.15:
        return ["arr", [rany(r, depth - 1) for _ in range(r.randint(0, 2))]]
    if depth and x < 0.3:
        return ["obj", ents((k, rany(r, depth - 1)) for k in
                            r.sample(KEYS, r.randint(0, 2)))]
    return r.choice([["i", r.randint(-2, 9)], ["s", r.choice(
        ["", "u", "7", "x1", "1125899906842625"])], ["n"], ["b", False],
        ["f", "1.5"], ["big", r.choice(BIGS)]])


def rmore(r, depth=2):
    """a value for an untyped slot: also plain containers of records"""
    if depth == 2 and r.random() < 0.6:
        return rany(r)
    x = r.random() if depth else 1
    if x < 0.3:
        return [r.choice(["pylist", "pytup"]),
                [rmore(r, depth - 1) for _ in range(r.choice([0, 1, 2]))] +
                [rmore(r, 0)]]
    if x < 0.4:
        return [r.choice(["pyset", "pyfset"]), [rmore(r, 0)]]
    if x < 0.7:
        ks = r.sample(["kp", "kq", "a"], r.choice([1, 2, 3]))
        return ["pydict", ents([[k, rmore(r, depth - 1)] for k in ks[1:]] +
                               [[ks[0], rmore(r, 0)]])]
    return r.choice([
        ["money", 2], ["rec", "PItem", [["k", ["s", "a"]]], ["none"]],
        ["rec", "PItem", [["k", ["s", "b"]], ["e", ["i", 1]]], ["none"]],
        ["rec", "JSub", [["x", ["i", 2]]], ["obj", [["zz", ["i", 1]]]]],
        ["rec", "JItem", [["id", ["i", 2]], ["sub", [
            "rec", "JSub", [], ["obj", [["zz", ["n"]]]]]]], ["none"]]])


def rjson(r, kind, bad):
    """JSON for something of this kind; bad[0] mistakes may still be made"""
    oops = bad[0] > 0 and r.random() < 0.12
    if oops:
        bad[0] -= 1
    if kind == "any":
        return rany(r)
    if kind == "int":
        if oops:
            return r.choice([["n"], ["s", "zzz"]])
        return r.choice([["i", r.randint(-3, 9)], ["s", "7"], ["s", "12"],
                         ["big", r.choice(BIGS)], ["s", r.choice(BIGS)],
                         ["b", True], ["f", "1.5"]])
    if kind == "opt":
        return ["n"] if r.random() < 0.4 else rjson(r, "int", bad)
    if kind == "str":
        return r.choice([["s", r.choice(["", "a", "b", "7"])], ["i", 5],
                         ["n"], ["b", True], ["big", r.choice(BIGS)]])
    if kind == "conv":
        return ["s", r.choice(["bad", "xz", "bt", "bk", "ba", "br", "bs"] if oops else
                              ["x0", "x1", "x2", "x7"])]
    if kind == "money":
        return r.choice([["s", "k"], ["s", "t"], ["s", "a"], ["i", 1], ["n"]]) if oops else [
            "s", r.choice(["m1", "m2"])]
    c, t = kind.split(":")
    if c == "rec":
        if oops and r.random() < 0.4:
            return ["i", 5]
        required = set(k for k, _ in FIELDS[t] if k in REQUIRED)
        if not required and r.random() < 0.08:
            return ["n"]
        drop = oops and r.random() < 0.4
        es = []
        p = r.choice([0.15, 0.3, 0.6]) if t == "JRoot" else 0.6
        for k, sub in FIELDS[t]:
            if r.random() < p or (k in required and not drop):
                es.append([k, rjson(r, sub, bad)])
        if t[0] == "J" or (oops and not drop):
            have = set(k for k, _ in FIELDS[t])
            for k in r.sample(["zz", "zy", "name", "secret", "x", "id", "v",
                               "unknown_json_keys"][:4 if t[0] == "P" else 4],
                              r.choice([0, 0, 1, 2]) if t[0] == "J" else 1):
                if k not in have:
                    es.append([k, rany(r)])
        return ["obj", ents(es)]
    item = "int" if t == "int" else TOPS.get(t, "rec:" + t)
    if oops and r.random() < 0.3:
        return ["i", 5]
    if r.random() < 0.05:
        return ["n"]
    if c == "list":
        return ["arr", [rjson(r, item, bad) for _ in
                        range(r.choice([0, 1, 1, 2, 3]))]]
    return ["obj", ents((k, rjson(r, item, bad)) for k in
                        r.sample(["kp", "kq", "a", "zz", "k"],
                                 r.choice([0, 1, 2, 2])))]


def rdoc(r, bad):
    t = r.choice(["JRoot"] * 8 + sorted(FIELDS) + sorted(TOPS) * 2)
    return t, rjson(r, TOPS.get(t, "rec:" + t), [bad])


def rop(r, obj, which):
    if obj is None or r.random() < (0.6 if which == "C12" else 0.3):
        bad = {"C10": 0, "C11": 0, "C12": r.choice([0, 1, 1, 1, 2])}[which]
        t, d = rdoc(r, bad)
        if t == "JRoot" and d[0] == "obj" and r.random() < 0.15:
            return ["load", t, "kw", d, r.choice([
                [["n", ["i", 4]]], [["name", ["s", "kw"]], ["n", ["i", 1]]],
                [["note", ["s", "kw"]]], [["sub", ["rec", "JSub", [
                    ["x", ["i", 2]]], ["none"]]]]])]
        return ["load", t, "all", d]
    x = r.random()
    if x < 0.3:
        return ["dump", r.random() < 0.5, r.choice(["method", "function"])]
    if x < 0.5 and which != "C11":
        return ["rt", r.random() < 0.5]
    if type(obj) is not JRoot:
        return ["dump", r.random() < 0.5, r.choice(["method", "function"])]
    if which == "C11" and x < 0.8:
        k = r.choice(["zz", "zy", "Name", "n", "name", "remark", "sub", "any",
                      "opt", "d"])
        return ["setu", k, rmore(r)] if r.random() < 0.7 else ["delu", k]
    if r.random() < 0.1:
        return ["set", "sub", ["rec", "JSub2", [["w", ["i", 1]]], ["none"]]]
    nm = r.choice(["n", "opt", "name", "secret", "note", "cv", "any", "dflt"])
    if r.random() < 0.4:
        return ["del", r.choice([nm, "sub", "jl", "pd", "cash"])]
    return ["set", nm, {
        "n": ["big", r.choice(BIGS)], "cv": ["i", r.randint(0, 2)],
        "opt": ["i", r.randint(0, 1)],
        "dflt": ["i", r.randint(0, 9)], "any": rmore(r)}.get(
            nm, ["s", r.choice(["", "a", "b"])])]


def traces(seed, count, length, which):
    out = []
    for i in range(count):
        r = random.Random("J%s-%s-%s" % (seed, which, i))
        s = Session()
        t = []
        for k in range(length):
            op = rop(r, s.obj, which)
            res = core.run_op(s, op)
            for x in [res] + s.others:
                t.append({"op": op, "res": x, "post": s.project()})
        out.append(t)
    return out


def run(check, which):
    check.edges("MCJsonRec", core.mkcfg(
        constants={"Docs": "<- Docs%s%s" % (which[1:],
                                            check.pick("", "T")),
                   "Edits": "<- " + ("EditsS" if which == "C11" else
                                     "Edits10" if which == "C10" else
                                     "NoDocs"),
                   "KeyOrder": "<- Keys", "MaxLevel":
                   {"C10": 2, "C11": check.pick(2, 3), "C12": 1}[which]},
        invariants=["RoundTrip", "RoundTripAll", "Less", "ErrInDoc"]),
        Session)
    if which != "C12":
        check.edges("MCJsonRec", core.mkcfg(
            constants={"Docs": "<- DocsD", "Edits": "<- EditsD",
                       "KeyOrder": "<- Keys",
                       "MaxLevel": check.pick(3, 4)},
            invariants=["RoundTrip", "RoundTripAll", "Less"]), Session)
    check.validate("TraceJsonRec",
                   traces(check.seed, check.pick(400, 5000),
                          check.pick(8, 12), which),
                   constants={"Docs": "{}", "Edits": "{}", "MaxLevel": 0,
                              "KeyOrder": "<- Keys"},
                   label="JSON execution")


def c10(check):
    run(check, "C10")


def c11(check):
    run(check, "C11")


def c12(check):
    run(check, "C12")
