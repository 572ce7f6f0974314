"""Subtype.tla bound to normalize.subtype (C27)."""
import json
import numbers
import random

import core

from normalize import JsonRecord, Property, Record, from_json
from normalize.coll import list_of
from normalize.subtype import subtype


class K(Record):
    x = Property(isa=int)


def boom(x):
    raise KeyError(x)


BASES = {"int": int, "str": str, "number": numbers.Number, "K": K}
CONDS = {"all": lambda v: True, "none": lambda v: False, "boom": boom,
         "pos": lambda v: v > 0, "le9": lambda v: v <= 9,
         "even": lambda v: v % 2 == 0, "full": lambda v: len(v) > 0,
         "short": lambda v: len(v) <= 1, "set": lambda v: v.x > 0}
COERCE = {"-": None, "null": lambda v: None, "same": lambda v: v, "int": int,
          "absint": lambda v: abs(int(v)), "neg": lambda v: -v,
          "first": lambda v: v[0] if isinstance(v, str) else boom(v),
          "a": lambda v: "a", "mk": lambda v: K(x=5), "boom": boom}
TYPES = {}


def stack(cfg):
    """the types of all layers, from the base, and the classes made of
    the outermost"""
    k = core.key(cfg)
    if k not in TYPES:
        types = [BASES[cfg[0]]]
        for cond, coerce in cfg[1]:
            types.append(subtype("Sub%d_%d" % (len(TYPES), len(types)),
                                 types[-1], CONDS[cond], COERCE[coerce]))
        records = []
        f = COERCE[cfg[1][-1][1]]
        bare = subtype("Bare%d" % len(TYPES), types[-2],
                       CONDS[cfg[1][-1][0]])
        for base in (Record, JsonRecord):
            # the function may be the type's or the property's
            props = [Property(isa=types[-1])]
            if f is not None:
                props.append(Property(isa=bare, coerce=f))
            for p in props:
                records.append(type(base)(
                    "R%d_%d" % (len(TYPES), len(records)), (base,),
                    {"__module__": __name__, "p": p}))
        TYPES[k] = types, records, list_of(types[-1])
    return TYPES[k]


def dec(v):
    t = v[0]
    if t == "n":
        return None
    if t == "b":
        return bool(v[1])
    if t == "i":
        return v[1]
    if t == "f":
        return v[1] / 2
    if t == "s":
        return "".join(v[1])
    if t == "k":
        return K(x=v[1][0]) if v[1] else K()
    return [1]


def enc(x):
    if x is None:
        return ["n"]
    if type(x) is bool:
        return ["b", int(x)]
    if type(x) is int:
        return ["i", x]
    if type(x) is float:
        return ["f", int(x * 2)]
    if type(x) is str:
        return ["s", list(x)]
    if type(x) is K:
        return ["k", [x.x] if hasattr(x, "x") else []]
    return ["?"]


class Session(object):
    def __init__(self, pre, cfg):
        self.types, records, coll = stack(cfg)
        cls = random.choice(records)
        self.r = cls(p=dec(pre[0][0])) if pre[0] and \
            isinstance(dec(pre[0][0]), self.types[-1]) else cls()
        if pre[0] and not hasattr(self.r, "p"):
            # changed after it was put there
            self.r.p = K(x=5)
            self.change(pre[0][0][1])
        self.coll = coll([dec(m) for m in pre[1]])

    def change(self, x):
        if x:
            self.r.p.x = x[0]
        elif hasattr(self.r.p, "x"):
            del self.r.p.x

    def project(self):
        return [[enc(self.r.p)] if hasattr(self.r, "p") else [],
                [enc(x) for x in self.coll]]

    def apply(self, op):
        what = op[0]
        ts = self.types
        try:
            if what == "isinstance":
                return ["ok", isinstance(dec(op[1]), ts[op[2]])]
            elif what == "held":
                return ["ok", isinstance(self.r.p, ts[op[1]])]
            elif what == "issubclass":
                return ["ok", issubclass(ts[op[1]], ts[op[2]])]
            elif what == "make":
                v = dec(op[1])
                w = ts[op[2]](v)
                if isinstance(v, ts[op[2]]) and w is not v:
                    return ["another value"]
                return ["ok", enc(w)]
            elif what == "set":
                v = dec(op[1])
                self.r.p = v
                if isinstance(v, ts[-1]) and self.r.p is not v:
                    return ["another value"]
            elif what == "new":
                self.r = type(self.r)(p=dec(op[1]))
            elif what == "load":
                self.r = from_json(type(self.r), json.loads(
                    json.dumps({"p": dec(op[1])})))
            elif what == "append":
                self.coll.append(dec(op[1]))
            elif what == "get":
                return (["ok", enc(self.r.p)] if hasattr(self.r, "p")
                        else ["unset"])
            elif what == "change":
                self.change(op[1])
            return ["ok"]
        except Exception:
            return ["err"]


POOL = {"int": (["all", "boom", "pos", "le9", "even", "none"],
                ["-", "absint", "int", "neg", "null", "same", "boom"]),
        "number": (["all", "pos", "le9", "even", "full"],
                   ["-", "absint", "int", "neg", "null"]),
        "str": (["all", "full", "short", "boom", "pos"],
                ["-", "first", "a", "null", "same", "int"]),
        "K": (["all", "set", "set", "boom"], ["-", "mk", "same", "null"])}


def anything(r, base):
    t = r.choice({"int": "iiiibfsnl", "number": "iiffbsn", "str": "sssssinl",
                  "K": "kkkkin"}[base])
    return {"n": lambda: ["n"], "l": lambda: ["l"],
            "b": lambda: ["b", r.randint(0, 1)],
            "i": lambda: ["i", r.randint(-12, 12)],
            "f": lambda: ["f", r.randint(-12, 25)],
            "s": lambda: ["s", r.choice([[], ["7"], ["-", "7"], ["a"],
                                         ["a", "b"], ["7", "a"]])],
            "k": lambda: ["k", r.choice([[], [r.randint(-2, 2)]])]}[t]()


def traces(seed, count, length):
    out = []
    for i in range(count):
        r = random.Random("S%s-%s" % (seed, i))
        random.seed(str(r.random()))
        base = r.choice(sorted(POOL))
        c = [base, [[r.choice(p) for p in POOL[base]]
                    for _ in range(r.choice([1, 2, 3, 4]))]]
        s = Session([[], []], c)
        n = len(c[1])
        t = []
        for _ in range(length):
            op = [r.choice(["isinstance", "issubclass", "make", "set", "set",
                            "new", "load", "append", "append", "get",
                            "change", "held", "held"])]
            if op[0] in ("isinstance", "make", "set", "new", "load",
                         "append"):
                op.append(anything(r, base))
                if op[0] == "load" and op[1][0] in "kn":
                    continue
            if op[0] in ("isinstance", "issubclass", "issubclass", "held"):
                op.append(r.randint(0, n))
            if op[0] == "issubclass":
                op.append(r.randint(0, n))
            if op[0] == "make":
                op.append(r.randint(1, n))
            if op[0] == "change":
                op.append(r.choice([[], [-1], [3]]))
            pre = s.project()
            if op[0] in ("change", "held") and (
                    not pre[0] or op[0] == "change" and base != "K"):
                continue
            if op[0] == "append" and len(pre[1]) > 3:
                continue
            res = core.run_op(s, op)
            t.append({"c": c, "op": op, "pre": pre, "res": res,
                      "post": s.project()})
        out.append(t)
    return out


def check(c):
    c.edges("MCSubtype", core.mkcfg(
        constants={"Layers": c.pick(2, 3)}, invariants=["Kept", "Nested"]),
        Session)
    c.validate("TraceSubtype", traces(c.seed, c.pick(200, 2000), 40),
               label="subtype")
