"""Typed.tla bound to normalize.property.types, and Subtype.tla to
normalize.subtype (C27)."""
import datetime
import decimal
import json
import math
import random

import core

from normalize import JsonRecord, Record, from_json, to_json
from normalize.property import types as T

PROPS = {"int": T.IntProperty, "long": T.LongProperty,
         "integer": T.IntegerProperty, "number": T.NumberProperty,
         "float": T.FloatProperty, "string": T.StringProperty,
         "unicode": T.UnicodeProperty, "date": T.DateProperty,
         "datetime": T.DatetimeProperty}


class MyInt(int):
    pass


class MyStr(str):
    pass


class MyDate(datetime.date):
    pass


RECORDS = {}
for name, prop in PROPS.items():
    RECORDS[name] = [
        type(base)("Typed" + name.title(), (base,), {
            "__module__": __name__, "x": prop(json_name="X")
            if base is JsonRecord else prop()})
        for base in (Record, JsonRecord)]


def number(m, e):
    return decimal.Decimal(m).scaleb(e)


def dec(v):
    t = v[0]
    if t == "n":
        return None
    if t == "b":
        return bool(v[1])
    if t == "i":
        return v[1]
    if t == "mi":
        return MyInt(v[1])
    if t == "f":
        return float(number(v[1], v[2]))
    if t == "dec":
        return number(v[1], v[2])
    if t in ("nan", "inf"):
        return float(t)
    if t == "c":
        return 1j
    if t == "s":
        return "".join(v[1])
    if t == "ms":
        return MyStr("".join(v[1]))
    if t == "by":
        return "".join(v[1]).encode()
    if t == "d":
        return datetime.date(*v[1:])
    if t == "md":
        return MyDate(*v[1:])
    if t == "dt":
        return datetime.datetime(*v[1:])
    if t == "t":
        return datetime.time(1, 2)
    return [1]


def digits(x):
    s, ds, e = x.normalize().as_tuple()
    m = int("".join(map(str, ds)))
    return [-m if s else m, e if m else 0]


def enc(x):
    t = type(x)
    if x is None:
        return ["n"]
    if t is bool:
        return ["b", int(x)]
    if t is int:
        return ["i", x]
    if t is MyInt:
        return ["mi", int(x)]
    if t is float:
        if not math.isfinite(x):
            return ["nan" if x != x else "inf"]
        return ["f"] + digits(decimal.Decimal(repr(x)))
    if t is decimal.Decimal:
        return ["dec"] + digits(x)
    if t is complex:
        return ["c"]
    if t is str:
        return ["s", list(x)]
    if t is MyStr:
        return ["ms", list(x)]
    if t in (datetime.date, MyDate):
        return ["d" if t is datetime.date else "md", x.year, x.month, x.day]
    if t is datetime.datetime and x.tzinfo is None:
        return ["dt", x.year, x.month, x.day, x.hour, x.minute, x.second,
                x.microsecond]
    return ["?", repr(x)]


class TypedSession(object):
    def __init__(self, slot, cfg):
        cls = random.choice(RECORDS[cfg])
        self.key = "X" if issubclass(cls, JsonRecord) else "x"
        self.r = cls(x=dec(slot[0])) if slot else cls()

    def project(self):
        return [enc(self.r.x)] if hasattr(self.r, "x") else []

    def apply(self, op):
        r = self.r
        cls = type(r)
        try:
            if op[0] == "set":
                r.x = dec(op[1])
            elif op[0] == "new":
                self.r = cls(x=dec(op[1]))
            elif op[0] == "load":
                self.r = from_json(cls, json.loads(json.dumps(
                    {self.key: dec(op[1])})))
            elif op[0] == "get":
                return ["ok", enc(r.x)] if hasattr(r, "x") else ["unset"]
            elif op[0] == "json":
                doc = json.loads(json.dumps(to_json(r)))
                if set(doc) - {self.key}:
                    return ["extra keys"]
                return ["ok"] + [enc(doc[k]) for k in doc]
            elif op[0] == "reload":
                new = from_json(cls, json.loads(json.dumps(to_json(r))))
                if (new != r or not new == r) and enc(
                        getattr(r, "x", None)) != ["nan"]:
                    return ["not equal"]
                self.r = new
            return ["ok"]
        except Exception:
            return ["err"]


def text(r):
    x = r.random()
    if x < .35:
        s = "%04d%s%02d%s%02d" % (
            r.choice([1, 999, 1900, 1999, 2000, 2012, 9999]),
            r.choice(["-", "-", ""]), r.choice([1, 2, 2, 4, 12, 0, 13]),
            "-", r.choice([0, 1, 28, 29, 30, 31, 32]))
        if "-" not in s[:5]:
            s = s.replace("-", "")
        if r.random() < .7:
            s += r.choice("TT ") + "%02d:%02d" % (
                r.choice([0, 1, 12, 23, 24]), r.choice([0, 5, 59, 60]))
            if r.random() < .7:
                s += ":%02d" % r.choice([0, 1, 30, 59, 60])
                if r.random() < .5:
                    s += ".%06d" % r.choice([0, 1, 500000, 999999, 123456])
    else:
        n = str(r.choice([0, 1, 7, 10, 12, 120, 99999, 123456789]))
        s = r.choice(["", "", "-", "+"]) + n
        if x > .5:
            s += r.choice([".", "e", ".", "_", ""]) + r.choice(
                ["", "0", "5", "50", "-2", "2", "25"])
        if x > .8:
            s += "e" + r.choice(["", "1", "-3", "+2", "9", "-9"])
        s = r.choice(["", "", "", " "]) + s + r.choice(["", "", "", " "])
    if r.random() < .1:
        i = r.randint(0, len(s))
        s = s[:i] + r.choice(["a", ".", "e", "-", "_", " ", "T", ":"]) + \
            s[i + r.choice([0, 1]):]
    return s


def anything(r):
    x = r.random()
    if x < .55:
        return text(r) if x < .5 else MyStr(text(r))
    if x < .62:
        return r.choice([None, True, False, 1j, [1], b"1",
                         datetime.time(1, 2)])
    if x < .72:
        return r.choice([int, MyInt])(r.choice([0, 1, -1, 7, 100, -2500,
                                                123456789]))
    if x < .8:
        m, e = r.choice([0, 1, -3, 15, 125, -99999]), r.choice(
            [0, 1, 3, -1, -2, -5])
        return r.choice([float, lambda y: y])(number(m, e))
    d = datetime.datetime(
        r.choice([1, 1900, 1999, 2012, 2024, 9999]), r.randint(1, 12),
        r.randint(1, 28), r.choice([0, 23]), r.choice([0, 59]),
        r.choice([0, 59]), r.choice([0, 0, 1, 120000, 999999]))
    if x < .83:
        return MyDate(d.year, d.month, d.day)
    return d.date() if x < .9 else d


def clean(v):
    """a Decimal in its normal form, for the specification"""
    return dec(enc(v)) if isinstance(v, decimal.Decimal) else v


def typed_traces(seed, count, length):
    out = []
    names = sorted(PROPS)
    for i in range(count):
        r = random.Random("T%s-%s" % (seed, i))
        random.seed(str(r.random()))
        c = names[i % len(names)]
        s = TypedSession([], c)
        t = []
        for _ in range(length):
            op = [r.choice(["set"] * 6 + ["new", "new", "load", "load", "get",
                           "json", "json", "reload", "reload"])]
            if op[0] in ("set", "new", "load"):
                v = enc(clean(anything(r)))
                if op[0] == "load" and v[0] not in ("i", "b", "f", "s"):
                    continue
                op.append(v if v[0] != "?" else r.choice([["l"], ["t"],
                                                          ["by", ["1"]]]))
            pre = s.project()
            res = core.run_op(s, op)
            t.append({"c": c, "op": op, "pre": pre, "res": res,
                      "post": s.project()})
        out.append(t)
    return out


def c27(check):
    check.edges("MCTyped", core.mkcfg(
        invariants=["Kept", "Stable", "Survive"]), TypedSession)
    check.validate("TraceTyped", typed_traces(
        check.seed, check.pick(200, 2000), 60), label="typed property")
    import subtypes
    subtypes.check(check)
