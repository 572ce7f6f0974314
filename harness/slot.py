"""Slot.tla bound to real Property / Record objects."""
import random

import normalize
from normalize import Record
from normalize.property import Property
from normalize.subtype import subtype

import core
from core import key
from pyval import OBJ, dec, enc, errkind


def tryint(v):
    try:
        return int(v)
    except Exception:
        return None


def totext(v):
    if v is OBJ:
        raise ValueError(v)
    return str(v)


POS = subtype("pos", of=int, where=lambda x: x > 0)
POSABS = subtype("posabs", of=int, where=lambda x: x > 0,
                 coerce=lambda v: abs(int(v)))
ISAS = {"int": int, "str": str, "intstr": (int, str),
        "pos": POS, "posabs": POSABS}
COERCES = {"plus": lambda v: int(v) + 1,
           "swallow": tryint,
           "bad": lambda v: OBJ,
           "text": totext}
CONST = {"i3": 3, "s5": "5", "sx": "x", "i12": 12, "n": None, "z": 0, "e": ""}
CALLS = [0]


def _f(val):
    def func():
        CALLS[0] += 1
        return val
    return func


def _m(self):
    CALLS[0] += 1
    return self.y + 1


def _l():
    CALLS[0] += 1
    return []


FUNCS = {"f3": _f(3), "fx": _f("x"), "fn": _f(None), "m": _m,
         "fl": list, "fl2": _l}


def prop_kwargs(c):
    kw = {}
    if c["isa"] != "any":
        kw["isa"] = ISAS[c["isa"]]
        if c["coerce"] != "dflt":
            kw["coerce"] = COERCES[c["coerce"]]
    if c["check"] != "none":
        kw["check"] = lambda v: not (isinstance(v, int) and v >= 9)
    if c["req"]:
        kw["required"] = True
    d = c["dflt"]
    if d != "unset":
        kw["default"] = FUNCS[d] if d in FUNCS else CONST[d]
    t = c["trait"]
    if t in ("unsafe", "lazyunsafe"):
        kw["traits"] = ["unsafe"]
    if t in ("ro", "rolazy"):
        kw["traits"] = ["ro"]
    if t in ("lazy", "lazyunsafe", "rolazy"):
        kw["lazy"] = True
    if t == "v1":
        kw["v1_none"] = None
    if t == "v1e":
        kw["v1_none"] = ""
    m = c["mix"]
    if m == "json":
        kw["json_name"] = "jx"
    if m == "jsonnull":
        kw["json_name"] = None
    if m == "diffas":
        kw["compare_as"] = lambda v: v
    if m == "extran":
        kw["extraneous"] = True
    return kw


class Modified(Exception):
    """the caller's dictionary was"""


CLASSES = {}


def record_class(c):
    k = key(c)
    if k not in CLASSES:
        CLASSES[k] = type("Rec", (Record,), {
            "x": Property(**prop_kwargs(c)),
            "y": Property(isa=int),
        })
    return CLASSES[k]


class Session(object):
    def __init__(self, c):
        self.cls = record_class(c)
        self.obj = None

    def apply(self, op):
        CALLS[0] = 0
        try:
            v = self._do(op)
        except Exception as e:
            return ["err", errkind(e)] + (
                [] if op[0] == "geto" else [CALLS[0]])
        n = CALLS[0]
        if op[0] == "new":
            try:
                self.other = self.cls(y=1)
            except Exception:
                self.other = None
        if op[0] == "geto":
            return ["ok", v]
        return ["ok", v, n]

    def _new(self, op):
        kw = {}
        if op[2] != ["absent"]:
            kw["x"] = dec(op[2])
        if op[3] != ["absent"]:
            kw["y"] = dec(op[3])
        if op[1] == "kw":
            return self.cls(**kw)
        given = dict(kw)
        try:
            return self.cls(kw)
        finally:
            if list(kw.items()) != list(given.items()):
                raise Modified()

    def _do(self, op):
        o = op[0]
        if o == "new":
            self.obj = self._new(op)
            return ["n"]
        if o == "new_unknown":
            self.cls(z=1)
            return ["n"]
        if o == "new_both":
            self.cls({"y": 1}, y=1)
            return ["n"]
        if o == "get":
            return enc(self.obj.x)
        if o == "geto":
            if self.other is None:
                return ["none"]
            return enc(self.other.x)
        if o == "get0":
            v = self.obj.x0
            if type(v).__name__ == "EmptyVal" and not v:
                return ["empty"]
            return enc(v)
        if o == "has":
            return ["b", hasattr(self.obj, "x")]
        if o == "set":
            self.obj.x = dec(op[1])
            return ["n"]
        if o == "del":
            del self.obj.x
            return ["n"]
        if o == "mut":
            self.obj.x.append(1)
            return ["n"]
        if o == "gety":
            return enc(self.obj.y)
        if o == "sety":
            self.obj.y = dec(op[1])
            return ["n"]
        if o == "dely":
            del self.obj.y
            return ["n"]
        raise ValueError(op)


DEAD = {"alive": False, "x": ["unset"], "y": ["unset"]}


def run(check, family):
    quick = not check.thorough
    cfg = core.mkcfg(
        constants={"Family": '"%s"' % family, "ArgVals": "<- AV" if quick
                   else "<- AVBig"},
        invariants=["TypeSafety", "RequiredSet"],
        properties=["ReadOnly", "ReadOnlyUnset", "NoAliveLost"])
    check.walk("MCSlot", cfg, Session, DEAD, probes=PROBES,
               walks=check.pick(2, 20), walklen=check.pick(15, 40))
    check.validate("TraceSlot", traces(check.seed, check.pick(1500, 20000),
                                       check.pick(20, 40), family),
                   constants={"Family": '"none"', "ArgVals": "{}"},
                   label="record with one slot")


INTS = [-4, 0, 1, 3, 8, 9, 12, 200]
STRS = ["5", "7", "12", "-3", "0", "9", "8", "100", "-12", "", "x", "None",
        "True"]


def any_value(r):
    return r.choice([["i", r.choice(INTS)], ["i", r.choice(INTS)],
                     ["s", r.choice(STRS)], ["s", r.choice(STRS)],
                     ["s", r.choice(STRS[:9])], ["n"], ["o"],
                     ["b", r.random() < .5], ["mi", r.choice(INTS)],
                     ["ms", r.choice(STRS)]])


def any_cfg(r, family):
    while True:
        c = dict(isa=r.choice(["any", "int", "int", "str", "intstr", "intstr",
                               "pos", "posabs"]),
                 coerce=r.choice(["dflt", "dflt", "plus", "swallow", "bad",
                                  "text"]),
                 check=r.choice(["none", "lt9"]), req=r.random() < .3,
                 dflt=r.choice(["unset", "unset", "i3", "s5", "sx", "i12", "n",
                                "z", "e", "f3", "fx", "fn", "fl", "fl2", "m"]),
                 trait=r.choice(["plain", "plain", "unsafe", "ro", "lazy",
                                 "lazyunsafe", "rolazy", "v1", "v1e"]),
                 mix=r.choice(["none", "none", "json", "jsonnull", "diffas",
                               "extran"]))
        lazy = c["trait"] in ("lazy", "lazyunsafe", "rolazy")
        if family == "ro" and c["trait"] not in ("ro", "rolazy") or \
                family == "lazy" and not lazy or \
                family == "safe" and c["trait"] not in ("plain", "lazy", "v1"):
            continue
        if c["isa"] == "any" and c["coerce"] != "dflt" or \
                c["coerce"] == "text" and c["isa"] not in ("int", "intstr") or \
                c["dflt"] in ("fl", "fl2") and c["isa"] != "any" or \
                lazy and c["dflt"] in ("unset", "n", "z", "e"):
            continue
        return c


def traces(seed, n, length, family):
    out = []
    for i in range(n):
        r = random.Random("slot%s-%s-%d" % (seed, family, i))
        c = any_cfg(r, family)
        s = Session(c)
        t = []
        while len(t) < length:
            if s.obj is None or r.random() < .07:
                op = ["new", r.choice(["kw", "dict"]),
                      r.choice([any_value(r), any_value(r), ["absent"]]),
                      r.choice([["i", 1], ["i", 4], ["absent"]])]
                if r.random() < .1:
                    op = [r.choice(["new_unknown", "new_both"])]
                s.obj = None
            else:
                op = [r.choice(["set", "set", "set", "get", "get", "get0",
                                "has", "geto", "del", "gety", "dely",
                                "sety"])]
                if op == ["set"]:
                    op.append(any_value(r))
                if op == ["sety"]:
                    op.append(r.choice([["i", 4], ["i", 1]]))
            res = core.run_op(s, op)
            t.append({"cfg": c, "op": op, "res": res})
        out.append(t)
    return out


PROBES = [["gety"], ["get"], ["get0"], ["get"], ["geto"]]


def c01(check):
    run(check, "safe")


def c02(check):
    run(check, "ro")


def c03(check):
    run(check, "lazy")


def c04(check):
    run(check, "dflt")
