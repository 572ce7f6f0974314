"""Empty.tla bound to the empty pseudo-attributes and placeholders (C26)."""
import copy
import json
import random
from collections import OrderedDict
from itertools import islice

import core

from normalize import (AutoJsonRecord, DictProperty, ListProperty, Property,
                       Record, V1Property, exc)
from normalize.coll import ListCollection, DictCollection, dict_of, list_of


class K(Record):
    x = Property()
    y = Property(isa=int, json_name="Y")
    l = ListProperty(of=int)
    z = Property(isa=int, lazy=True, default=lambda: 7)
    e1 = Property(isa=str)
    t = Property(isa=str, empty_attr="maybe_t")
    ee = Property(isa=int, empty_attr=None)
    v = V1Property(isa=int)
    nothing = None

    def m(self):
        return 1


class KS(K):
    w = Property(isa=int)


class CB(Record):
    n = Property()

    def __call__(self):
        return 1


class C(CB):
    w = Property(isa=K)


class GB(Record):
    n = Property(isa=int)

    def __getitem__(self, item):
        return 1


class G(GB):
    pass


class DYB(Record):
    def __getattr__(self, attr):
        return 1


class DY(DYB):
    n = Property(isa=K)


class AR(AutoJsonRecord):
    v = Property(isa=K)


class MD(dict):
    pass


# another class of the same name
K2 = type(Record)("K", (Record,), {
    "__module__": __name__, "x": Property(isa=K), "o": Property(isa=int)})


class L2(ListCollection):
    itemtype = K2


class R(Record):
    k = Property(isa=K)
    a = Property()
    n = Property(isa=int, check=lambda x: True)
    s = Property(isa=str)
    ks = ListProperty(of=K)
    d = DictProperty(of=K)
    u = Property(isa=(K, str))
    uk = Property(isa=(K, KS))
    ul = Property(isa=(list_of(K), K, dict_of(K)))
    uc = Property(isa=(int, G, C))
    nl = ListProperty(of=list_of(K))
    c = Property(isa=C)
    g = Property(isa=G)
    dy = Property(isa=DY)
    q = Property(isa=AR)
    md = Property(isa=MD)
    o = Property(isa=OrderedDict)
    p = Property(isa=list)
    k2 = Property(isa=K2)
    kk = Property(isa=(K2, KS))
    lu = Property(isa=(list_of(K), L2, list))
    lv = Property(isa=(list_of(K), L2))


class RR(Record):
    r = Property(isa=R)
    rs = ListProperty(of=R)


RECORDS = {"K": K, "K2": K2, "KS": KS, "C": C, "G": G, "DY": DY, "AR": AR, "R": R,
           "RR": RR}
LISTS = {"LI": int, "LK": K, "LK2": K2, "LLK": None, "LR": R}
DICTS = {"dict": dict, "MD": MD, "OD": OrderedDict}


def dec(v):
    t = v[0]
    if t == "n":
        return None
    if t in "is":
        return v[1]
    if t == "r":
        return RECORDS[v[1]](**dict((k, dec(x)) for k, x in v[2]))
    if t == "l":
        ms = [dec(x) for x in v[2]]
        if v[1] == "LLK":
            return R.nl.valuetype(ms)
        return (ms if v[1] == "py" else
                (L2 if v[1] == "LK2" else list_of(LISTS[v[1]]))(ms))
    es = [(k, dec(x)) for k, x in v[2]]
    return DICTS[v[1]](es) if v[1] in DICTS else dict_of(K)(dict(es))


def enc(x):
    if x is None:
        return ["n"]
    if type(x) is int:
        return ["i", x]
    if type(x) is str:
        return ["s", x]
    if type(x) is list:
        return ["l", "py", [enc(y) for y in x]]
    for n, t in DICTS.items():
        if type(x) is t:
            return ["d", n, [[k, enc(x[k])] for k in sorted(x)]]
    if isinstance(x, ListCollection):
        t = x.itemtype
        n = ("LI" if t is int else "LK" if t is K else "LR" if t is R
             else "LK2" if t is K2 else "LLK")
        return ["l", n, [enc(y) for y in x]]
    if isinstance(x, DictCollection):
        return ["d", "DK", [[k, enc(x[k])] for k in sorted(x.keys())]]
    for n, t in RECORDS.items():
        if type(x) is t:
            return ["r", n, [[k, enc(y)] for k, y in sorted(vars(x).items())
                             if k in t.properties and
                             k != "unknown_json_keys"]]
    return ["?"]


def is_placeholder(x):
    if isinstance(x, (Record, list, dict, str, int, type(None))):
        return False
    try:
        x.some_name = 1
    except exc.EmptyAttributeError:
        return True
    except Exception:
        pass
    return False


class Session(object):
    def __init__(self, cfg):
        self.x = dec(cfg)

    def apply(self, op):
        x = self.x
        what = op[0]
        try:
            if what == "root":
                self.x = dec(op[1])
                return ["ok"]
            elif what == "bool":
                return ["ok", bool(x)]
            elif what == "iter":
                return ["ok", sum(1 for _ in islice(x, 5))]
            elif what == "copy":
                return (["ok"] if copy.copy(x) is x and copy.deepcopy(x) is x
                        and copy.deepcopy([x])[0] is x else ["changed"])
            elif what == "set":
                try:
                    setattr(x, op[1], 1)
                except exc.EmptyAttributeError:
                    return ["noassign"]
                except AttributeError:
                    return ["readonly"]
                return ["assigned"]
            elif what == "setitem":
                try:
                    x[0] = 1
                except exc.EmptyAttributeError:
                    return ["noassign"]
                return ["assigned"]
            ph = not isinstance(x, (Record, list, dict))
            if what == "attr":
                y = getattr(x, op[1])
                if not ph and op[1] in type(x).properties and \
                        getattr(x, op[1]) is not y:
                    return ["not the value"]
            elif what in ("item", "key"):
                y = x[op[1]]
            elif what == "slice":
                y = x[random.choice([0, None]):random.choice([1, 2, None])]
            elif what == "call":
                y = random.choice([lambda: x(), lambda: x(1),
                                   lambda: x(a=2)])()
        except AttributeError as e:
            if isinstance(e, exc.EmptyAttributeError):
                return [dict(NoSuchAttribute="noattr",
                             NotSubscriptable="noitem",
                             NotCallable="nocall").get(type(e).__name__,
                                                       "other")]
            return ["noattr"]
        except IndexError:
            return ["range"]
        except KeyError:
            return ["nokey"]
        except exc.NotSubscriptable:
            return ["noitem"]
        except exc.NotCallable:
            return ["nocall"]
        if is_placeholder(y):
            if y:
                return ["ph", "true"]
            self.x = y
            return ["ph"]
        # a record must be looked at before its slots are evaluated
        v = enc(y)
        self.x = y
        return ["val", v]


# ---- random chains
SLOTS = {
    "K": [("x", "any"), ("y", "int"), ("l", "LI"), ("z", "int"),
          ("e1", "str"), ("t", "str"), ("ee", "int"), ("v", "int")],
    "C": [("n", "any"), ("w", "K")], "G": [("n", "int")],
    "DY": [("n", "K")], "AR": [("v", "K")],
    "R": [("k", "K"), ("a", "any"), ("n", "int"), ("s", "str"), ("ks", "LK"),
          ("d", "DK"), ("u", "K|str"), ("uk", "K|KS"), 
          ("ul", "LK|K|DK"), ("uc", "C|G|int"), ("nl", "LLK"), ("c", "C"),
          ("g", "G"), ("dy", "DY"), ("q", "AR"), ("md", "MD"), ("o", "OD"),
          ("p", "py"), ("k2", "K2"), ("kk", "K2|KS"),
          ("lu", "LK|LK2|py"), ("lv", "LK|LK2")],
    "K2": [("x", "K"), ("o", "int")],
    "RR": [("r", "R"), ("rs", "LR")]}
SLOTS["KS"] = SLOTS["K"] + [("w", "int")]
MEMBER = {"LI": "int", "LK": "K", "LK2": "K2", "LLK": "LK", "LR": "R", "DK": "K",
          "py": "any", "dict": "any", "MD": "any", "OD": "any"}


def value(r, t, depth):
    t = r.choice(t.split("|"))
    if t == "any":
        t = r.choice(["none", "int", "str", "int", "str", "py", "dict", "K",
                      "R"])
    if t == "K" and r.random() < .3:
        t = "KS"
    if t == "none":
        return ["n"]
    if t == "int":
        return ["i", r.choice([0, 0, 1, 5])]
    if t == "str":
        return ["s", r.choice(["", "a", "bc"])]
    if t in SLOTS:
        fill = r.choice([0, .2, .5, .8]) if depth > 0 else 0
        return ["r", t, sorted([k, value(r, u, depth - 1)]
                               for k, u in SLOTS[t] if r.random() < fill)]
    n = r.choice([0, 1, 2, 3]) if depth > 0 else 0
    ms = [value(r, MEMBER[t], depth - 1) for _ in range(n)]
    if t in ("DK", "dict", "MD", "OD"):
        return ["d", t, [["abc"[i], m] for i, m in enumerate(ms)]]
    return ["l", t, ms]


ALL = sorted({k for ss in SLOTS.values() for k, _ in ss})
ODD = ["m", "nothing", "m0", "real", "upper", "popitem", "append", "zz",
       "zz0", "e10", "ee0", "v0", "t0", "maybe_t", "e1", "nothing0"]


def traces(seed, count, chains, steps):
    out = []
    for i in range(count):
        r = random.Random("E%s-%s" % (seed, i))
        random.seed(str(r.random()))
        t = []
        s = Session(["n"])
        for _ in range(chains):
            root = value(r, r.choice(["R", "RR"]), 4)
            t.append({"op": ["root", root],
                      "res": core.run_op(s, ["root", root])})
            for _ in range(steps):
                x = s.x
                if isinstance(x, Record) and type(x) in RECORDS.values():
                    names = [k for k, _ in SLOTS[
                        next(n for n, t in RECORDS.items() if t is type(x))]]
                    y = r.random()
                    have = [k for k in names if k in vars(x)]
                    k = (r.choice(have) if have and y < .6 else
                         r.choice(names) if y < .9 else r.choice(ODD + ALL))
                    k += r.choice(["0", "0", "0", ""])
                    op = [r.choice(["attr"] * 9 + ["set"]), k]
                elif isinstance(x, list) or isinstance(x, ListCollection):
                    op = ["item", r.choice([0, 0, 1, 2, -1, -2, 3])]
                elif isinstance(x, (dict, DictCollection)):
                    op = ["key", r.choice("aabcd")]
                elif not is_placeholder(x):
                    break
                else:
                    op = r.choice(["attr"] * 4 + ["item", "item", "key",
                                   "slice", "call", "bool", "iter", "set",
                                   "setitem", "copy"])
                    if op in ("attr", "set"):
                        k = r.choice(ALL + ODD)
                        op = [op, k + "0" if k in ALL and r.random() < .5
                              else k]
                    elif op == "item":
                        op = ["item", r.choice([0, 1, -1, 7])]
                    elif op == "key":
                        op = ["key", "a"]
                    else:
                        op = [op]
                t.append({"op": op, "res": core.run_op(s, op)})
        out.append(t)
    return out


def c26(check):
    for deep in (True, False):
        check.walk("MCEmpty", core.mkcfg(
            constants={"Deep": str(deep).upper(),
                       "Depth": 20 if deep else check.pick(1, 2)},
            invariants=["Agree", "Widen"], view="View"),
            Session, lambda c: core.key(["val", json.loads(c)]),
            walks=check.pick(20, 200), walklen=20)
    check.validate("TraceEmpty", traces(
        check.seed, check.pick(200, 2000), 10, 8), label="chain")
