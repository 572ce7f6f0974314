"""AutoRec.tla bound to normalize.record.json.AutoJsonRecord (C25)."""
import copy
import json
import pickle
import random

import core

from normalize import AutoJsonRecord, NCAutoJsonRecord, Property, Record
from normalize.coll import ListCollection, list_of


class R(AutoJsonRecord):
    b_a = Property(json_name="bA")
    n = Property(isa=int)


class RN(NCAutoJsonRecord):
    b_a = Property(json_name="bA")
    n = Property(isa=int)


ROOT = {False: R, True: RN}
AUTO = {False: AutoJsonRecord, True: NCAutoJsonRecord}


def dec(v, nc=False):
    """a value as it is in memory"""
    t = v[0]
    if t == "n":
        return None
    if t in "is":
        return v[1]
    if t == "new":
        return AUTO[nc](dec(v[1], nc))
    if t == "dict":
        return dict(("".join(k), dec(x, nc)) for k, x in v[1])
    if t == "list":
        ms = [dec(x, nc) for x in v[2]]
        return ms if v[1] == "py" else list_of(AUTO[nc])(ms)
    rec = (ROOT if v[1] == "R" else AUTO)[nc](
        unknown_json_keys=dict(("".join(k), dec(x, nc)) for k, x in v[3]),
        **dict(("".join(k), dec(x, nc)) for k, x in v[2]))
    return rec


def entries(d):
    return [[list(k), enc(d[k])] for k in sorted(d)]


def enc(x):
    if x is None:
        return ["n"]
    if type(x) is int:
        return ["i", x]
    if type(x) is str:
        return ["s", x]
    if type(x) is dict:
        return ["dict", entries(x)]
    if type(x) is list:
        return ["list", "py", [enc(y) for y in x]]
    if isinstance(x, ListCollection):
        return ["list", "A" if x.itemtype in AUTO.values() else "?",
                [enc(y) for y in x]]
    slots = dict(vars(x))
    # the mapping of the other attributes is public
    other = slots.pop("unknown_json_keys")
    return ["rec", "R" if type(x) in ROOT.values() else
            "A" if type(x) in AUTO.values() else "?",
            entries(slots), entries(other)]


class Session(object):
    def __init__(self, state):
        self.nc, v = state
        self.r = dec(v, self.nc)
        self.olds = []

    def project(self):
        for old, doc in self.olds:
            if old.json_data() != doc:
                return ["a copy is not independent"]
        return [self.nc, enc(self.r)]

    def at(self, p):
        x = self.r
        for t, k in p:
            x = x[k - 1] if t == "x" else getattr(x, "".join(k))
        return x

    def apply(self, op):
        nc, r = self.nc, self.r
        what = op[0]
        x = self.at(op[1]) if len(op) > 1 and what != "load" else r
        k = "".join(op[2]) if len(op) > 2 and what != "append" else None
        try:
            if what == "write":
                doc = r.json_data()
                if json.loads(json.dumps(doc)) != doc:
                    return ["not JSON"]
                return ["ok", enc(doc)]
            if what in ("load", "reload"):
                doc = r.json_data() if what == "reload" else dec(op[1])
                text = json.dumps(doc)
                self.r = type(r)(random.choice([doc, text, text.encode()]))
                if json.dumps(doc) != text:
                    return ["argument changed"]
            elif what == "same":
                other = type(r)(r.json_data())
                return ["ok", r == other] if (r == other) != (r != other) \
                    else ["== and != disagree"]
            elif what in ("copy", "pickle"):
                self.olds.append((r, copy.deepcopy(r.json_data())))
                self.r = (copy.deepcopy(r) if what == "copy" else
                          pickle.loads(pickle.dumps(r)))
            elif what == "append":
                x.append(dec(op[2]))
            elif what == "get":
                return ["ok", enc(getattr(x, k))]
            elif what == "has":
                return ["ok", hasattr(x, k)]
            elif what == "set":
                setattr(x, k, dec(op[3], nc))
            elif what == "del":
                delattr(x, k)
            return ["ok"]
        except AttributeError:
            return ["missing"]
        except (TypeError, ValueError):
            return ["err"]


# ---- random histories
def key(r, nc):
    if r.random() < .12:
        return r.choice(["n", "bA"])
    k = r.choice("abn") + "".join(r.choice("abn1AB" if not nc else "abn1AB_")
                                  for _ in range(r.choice([0, 1, 2, 3, 5])))
    return k


def doc(r, nc, depth=3, top=True):
    out = {}
    for _ in range(r.choice([0, 1, 2, 3, 4])):
        k = key(r, nc)
        if k == "n" and top:
            out[k] = r.randint(0, 5)
        elif k == "b_a" and top:
            continue
        else:
            out[k] = val(r, nc, depth)
    return out


def val(r, nc, depth):
    x = r.random()
    if depth and x < .25:
        return doc(r, nc, depth - 1, False)
    if depth and x < .5:
        y = r.random()
        n = r.choice([0, 1, 2, 3])
        if y < .6:
            return [doc(r, nc, depth - 1, False) for _ in range(n)]
        return [val(r, nc, depth - 1) for _ in range(n)]
    return r.choice([None, "a", "b", 1, 2, 7, 0, ""])


def spots(x, p=()):
    """paths of all the records and lists in x"""
    if isinstance(x, Record) and not isinstance(x, ListCollection):
        yield p, x
        for k in sorted(x.unknown_json_keys):
            for y in spots(x.unknown_json_keys[k], p + (("k", list(k)),)):
                yield y
    elif isinstance(x, ListCollection):
        yield p, x
        for i, y in enumerate(x):
            for z in spots(y, p + (("x", i + 1),)):
                yield z


def traces(seed, count, length):
    out = []
    for i in range(count):
        r = random.Random("A%s-%s" % (seed, i))
        random.seed(str(r.random()))
        nc = r.random() < .3
        s = Session([nc, ["rec", "R", [], []]])
        t = []
        for _ in range(length):
            pre = s.project()
            what = "load" if not t else r.choice(["write", "reload", "same", "copy", "pickle",
                             "append", "get", "get", "has", "set", "set",
                             "set", "del", "del"])
            if what in ("write", "reload", "same", "copy", "pickle"):
                op = [what]
            elif what == "load":
                op = [what, enc(doc(r, nc))]
            else:
                ps = [(p, x) for p, x in spots(s.r)
                      if isinstance(x, ListCollection) == (what == "append")]
                if not ps:
                    continue
                p, x = r.choice(ps)
                if what == "append":
                    op = [what, list(p), enc(doc(r, nc, 1, False))]
                else:
                    have = sorted(x.unknown_json_keys)
                    k = r.choice(have + ["b_a", "n", "ab", "a_b"])
                    if r.random() < .2:
                        k = key(r, nc)
                        if not nc:
                            k = AutoJsonRecord.convert_json_key_in(k)
                    op = [what, list(p), list(k)]
                    if what == "set":
                        v = val(r, nc, 1)
                        if k == "n" and r.random() < .8:
                            v = r.randint(0, 5)
                        if k == "n" and isinstance(v, str):
                            v = "x"
                        op.append(["new", enc(v)] if type(v) is dict and
                                  r.random() < .5 else enc(v))
            op = json.loads(json.dumps(op))
            res = core.run_op(s, op)
            t.append({"op": op, "pre": pre, "res": res, "post": s.project()})
        out.append(t)
    return out


def c25(check):
    for nc in (False, True):
        check.edges("MCAutoRec", core.mkcfg(
            constants={"NC": str(nc).upper(), "Depth": check.pick(1, 2),
                       "MaxSize": check.pick(9, 6)},
            invariants=["AgainLaw", "Fresh"], view="View"), Session)
    check.validate("TraceAutoRec", traces(
        check.seed, check.pick(300, 3000), 25), label="auto record")
