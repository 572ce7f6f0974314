"""Heap.tla bound to equality, hashing, copying, pickling and repr of real
object graphs (C08, C09)."""
import atexit
import base64
import copy
import json
import os
import pickle
import random
import subprocess
import sys

import core

from normalize import Property, Record, ROProperty
from normalize.coll import (Collection, DictCollection, ListCollection,
                            dict_of, list_of)
from normalize.property.coll import DictProperty, ListProperty
from normalize.record.json import JsonRecord, JsonRecordList

STRICT = [False]


class Rerun(Exception):
    """validation or a default ran while copying"""


def check(v):
    if STRICT[0]:
        raise Rerun("check")
    return True


def lazily():
    if STRICT[0]:
        raise Rerun("lazy default")
    return 5


def eagerly():
    if STRICT[0]:
        raise Rerun("default")
    return 5


class Base(Record):
    a = Property()


class N(Base):
    b = Property(isa=Base)
    chk = Property(isa=int, check=check, coerce=lambda v: check(v) and int(v))
    e = Property(extraneous=True)
    ro = ROProperty()
    z = Property(isa=int, lazy=True, default=lazily, extraneous=True)


class NS(N):
    pass


class P(Record):
    k = Property()
    v = Property()
    e = Property(extraneous=True)
    primary_key = [k]


class J(JsonRecord):
    a = Property()


class XL(ListCollection):
    itemtype = N
    tag = Property()
    more = Property(extraneous=True)


class XD(DictCollection):
    itemtype = N
    tag = Property()
    more = Property(extraneous=True)


class JL(JsonRecordList):
    itemtype = J


class C(Record):
    items = ListProperty(of=N)
    ps = ListProperty(of=P)
    m = DictProperty(of=N)
    u = Property(isa=(N, P))
    js = Property(isa=JL)
    xl = Property(isa=XL)
    any = Property()


class D(Record):
    d = Property(isa=int, check=check, default=eagerly)
    k = Property(isa=str, required=True, check=check)
    _w = Property()


LN, LP, DN = list_of(N), list_of(P), dict_of(N)
NList, PList, NMap = LN, LP, DN           # as repr() names them
TYPES = dict((c.__name__, c) for c in (N, NS, P, C, J, D, XL, XD, JL))
TYPES.update(LN=LN, LP=LP, DN=DN)
NAMES = dict((c, n) for n, c in TYPES.items())
SLOTS = {"N": ["a", "b", "chk", "e", "ro", "z"], "P": ["k", "v", "e"],
         "C": ["items", "ps", "m", "u", "js", "xl", "any"],
         "J": ["a", "unknown_json_keys"], "D": ["d", "k", "_w"],
         "XL": ["tag", "more"], "XD": ["tag", "more"],
         "LN": [], "LP": [], "DN": [], "JL": []}
SLOTS["NS"] = SLOTS["N"]
EVAL = dict(TYPES, NList=LN, PList=LP, NMap=DN)


def dec(v):
    return {"n": None, "-": None}[v[0]] if v[0] in "n-" else (
        float(v[1]) if v[0] == "f" else v[1])


def build(heap):
    """the objects of a heap"""
    objs = []
    for o in heap:
        if o[1] == "py":
            objs.append([] if o[0] == "list" else {})
        elif o[0] == "rec":
            kw = dict((k, dec(v)) for k, v in o[2] if v[0] != "o")
            x = TYPES[o[1]](**kw)
            if o[1] == "D" and "d" not in kw:
                del x.d
            objs.append(x)
        else:
            objs.append(TYPES[o[1]](values=[] if o[0] == "list" else {}, **dict(
                (k, dec(v)) for k, v in o[2] if v[0] != "o")))

    def val(v):
        return objs[v[1] - 1] if v[0] == "o" else dec(v)
    for o, x in zip(heap, objs):
        for m in o[3] if o[0] == "list" else ():
            x.append(val(m))
        for k, m in o[3] if o[0] == "dict" else ():
            x[k] = val(m)
    # collections are stored once they are filled
    for o, x in zip(heap, objs):
        for k, v in o[2]:
            if v[0] == "o":
                setattr(x, k, objs[v[1] - 1])
    return objs


def kids(x):
    """[(slot, value)...], members"""
    t = type(x)
    if t in (list, dict):
        return [], x
    own = vars(x)
    es = [(k, own[k]) for k in SLOTS[NAMES[t]] if k in own]
    for k in sorted(set(own) - set(SLOTS[NAMES[t]]) - {"_values"}):
        es.append((k, own[k]))
    if isinstance(x, Collection):
        return es, (list(x) if isinstance(x, ListCollection) else
                    dict(x.items()))
    return es, None


def is_obj(x):
    return isinstance(x, (Record, list, dict))


def walk(roots):
    """objects reached, in order"""
    seen, out = set(), []
    todo = list(reversed(roots))
    while todo:
        x = todo.pop()
        if not is_obj(x) or id(x) in seen:
            continue
        seen.add(id(x))
        out.append(x)
        es, ms = kids(x)
        ks = [v for _, v in es]
        if ms is not None:
            ks += list(ms.values() if isinstance(ms, dict) else ms)
        todo.extend(reversed(ks))
    return out


def project(roots, none):
    objs = walk(roots)
    where = dict((id(x), i + 1) for i, x in enumerate(objs))

    def enc(v):
        if is_obj(v):
            return ["o", where[id(v)]]
        if v is None:
            return ["n"]
        t = type(v)
        return (["b", v] if t is bool else ["i", v] if t is int else
                ["s", v] if t is str else ["f", repr(v)] if t is float else
                ["?", t.__name__])
    heap = []
    for x in objs:
        t = type(x)
        es, ms = kids(x)
        es = [[k, enc(v)] for k, v in es]
        if t in (list, dict):
            nm = "py"
        else:
            nm = NAMES[t]
        if ms is None:
            heap.append(["rec", nm, es])
        elif isinstance(ms, dict):
            heap.append(["dict", nm, es, [[k, enc(v)] for k, v in ms.items()]])
        else:
            heap.append(["list", nm, es, [enc(v) for v in ms]])
    return {"roots": [["-"] if none[i] else enc(r)
                      for i, r in enumerate(roots)], "heap": heap}


def cyclic(roots):
    done, path = set(), set()

    def visit(x):
        if not is_obj(x) or id(x) in done:
            return False
        if id(x) in path:
            return True
        path.add(id(x))
        es, ms = kids(x)
        ks = [v for _, v in es]
        if ms is not None:
            ks += list(ms.values() if isinstance(ms, dict) else ms)
        r = any(visit(k) for k in ks)
        path.discard(id(x))
        done.add(id(x))
        return r
    return any(visit(r) for r in roots)


class _Nothing(object):
    pass


class Session(object):
    def __init__(self, state):
        objs = build(state["heap"])
        self.none = [r == ["-"] for r in state["roots"]]
        # something that is equal to itself only
        self.roots = [_Nothing() if r == ["-"] else
                      objs[r[1] - 1] if r[0] == "o" else dec(r)
                      for r in state["roots"]]

    def project(self):
        return project(self.roots, self.none)

    def compare(self):
        if cyclic(self.roots):
            return ["cyclic"]
        rs = self.roots
        m = []
        flag = "hash"
        for j, x in enumerate(rs):
            row = []
            for k, y in enumerate(rs):
                e = x == y
                if (x != y) is e or type(e) is not bool:
                    return ["== and != are not opposites", j, k]
                row.append(e)
                if isinstance(x, Record) and isinstance(y, Record) and not (
                        isinstance(x, Collection) or
                        isinstance(y, Collection)):
                    try:
                        hx, hy = hash(x), hash(y)
                    except Exception:
                        flag = "unhashable"
                        continue
                    if hx != hash(x):
                        return ["hash not repeatable", j]
                    if e and hx != hy:
                        return ["equal but hashes differ", j, k]
                    if len({x, y}) != (1 if e else 2) or \
                            (y in {x}) is not e or \
                            ({x: 1}.get(y) == 1) is not e or \
                            (y in [x]) is not e:
                        return ["does not stand in", j, k]
            m.append(row)
        return [m, flag]

    def apply(self, op):
        try:
            self._do(op)
            s = self.project()
            c = self.compare()
            if core.key(self.project()) != core.key(s):
                return ["comparing changed something"]
            return ["ok", c, s]
        except Exception as e:
            return ["err", type(e).__name__]

    def val(self, v, objs):
        return objs[v[1] - 1] if v[0] == "o" else dec(v)

    def _do(self, op):
        o = op[0]
        if o == "look":
            return
        if o == "copy":
            self.roots[op[2] - 1] = self.copy(self.roots[op[1] - 1], op[3])
            self.none[op[2] - 1] = self.none[op[1] - 1]
            return
        objs = walk(self.roots)
        x = objs[op[1] - 1]
        if o == "set":
            setattr(x, op[2], self.val(op[3], objs))
        elif o == "del":
            delattr(x, op[2])
        elif o == "append":
            x.append(self.val(op[2], objs))
        elif o == "pop":
            del x[0]
        elif o == "put":
            x[op[2]] = self.val(op[3], objs)
        elif o == "drop":
            del x[op[2]]
        elif o == "plain":
            self.roots[op[2] - 1] = (
                list(x) if isinstance(x, (ListCollection, list)) else
                dict(x.items()))
            self.none[op[2] - 1] = False
        else:
            raise ValueError(op)

    def copy(self, x, how):
        if how == "repr":
            return eval(repr(x), dict(EVAL))
        STRICT[0] = True
        try:
            if how == "copy":
                return copy.copy(x)
            if how == "deepcopy":
                return copy.deepcopy(x)
            if how == "far":
                return pickle.loads(Far.get().send(pickle.dumps(x, 2)))
            return pickle.loads(pickle.dumps(x, int(how[6:])))
        finally:
            STRICT[0] = False


class Far(object):
    """Another python process, to take pickles to and back."""
    mine = {}

    @classmethod
    def get(cls):
        if os.getpid() not in cls.mine:
            cls.mine[os.getpid()] = cls()
        return cls.mine[os.getpid()]

    def __init__(self):
        here = os.path.dirname(os.path.abspath(__file__))
        self.proc = subprocess.Popen(
            [sys.executable, "-W", "ignore", "-c",
             "import sys; sys.path[:0] = [%r, %r]; import heap; heap.far()" %
             (here, core.REPO)],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True,
            env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
        atexit.register(self.proc.kill)

    def send(self, data):
        self.proc.stdin.write(base64.b64encode(data).decode() + "\n")
        self.proc.stdin.flush()
        line = self.proc.stdout.readline().strip()
        if line.startswith("!"):
            raise Rerun(line)
        return base64.b64decode(line)


def far():
    STRICT[0] = True
    for line in sys.stdin:
        try:
            x = pickle.loads(base64.b64decode(line.strip()))
            out = base64.b64encode(pickle.dumps(x, 4)).decode()
        except Exception as e:
            out = "!" + type(e).__name__
        sys.stdout.write(out + "\n")
        sys.stdout.flush()


# ---- random object graphs
def rscalar(r):
    return r.choice([["i", 1], ["i", 0], ["s", ""], ["s", "u"], ["b", True],
                     ["f", "1.0"], ["n"], ["i", 2]])


FITS = {"b": ["N", "NS"], "items": ["LN"], "ps": ["LP"], "m": ["DN"],
        "u": ["N", "NS", "P"], "js": ["JL"], "xl": ["XL"]}
ITEMS = {"LN": ["N", "NS"], "XL": ["N", "NS"], "DN": ["N", "NS"],
         "XD": ["N", "NS"], "LP": ["P"], "JL": ["J"],
         "py": ["N", "NS", "P", "J"]}


def rheap(r, cycles):
    """the last objects are made first, so that others can refer to them"""
    n = r.choice([1, 2, 3, 4, 6, 8])
    kinds = [r.choice(["N", "N", "N", "NS", "P", "J", "D", "C", "LN", "LP",
                       "DN", "XL", "XD", "JL", "pl", "pd"]) for _ in range(n)]
    tname = [("py" if k in ("pl", "pd") else k) for k in kinds]

    def ref(i, types, p=0.7):
        """an object of one of these types, later than i (or not)"""
        ok = [j for j in range(n) if tname[j] in types and (j > i or (
            cycles and r.random() < 0.3))]
        return ["o", r.choice(ok) + 1] if ok and r.random() < p else None

    heap = []
    for i, k in enumerate(kinds):
        es = []
        for nm in SLOTS.get(k, ()):
            if r.random() < 0.45 and not (k == "D" and nm == "k"):
                continue
            if nm in ("chk", "d", "z"):
                v = ["i", r.randint(0, 3)] if nm != "z" else ["i", 5]
            elif k == "D":
                v = ["s", "q"]
            elif nm == "unknown_json_keys":
                ok = [j for j in range(n) if kinds[j] == "pd" and j > i]
                v = ["o", r.choice(ok) + 1] if ok else None
            elif nm in FITS:
                v = ref(i, FITS[nm], 1)
            elif nm in ("any", "more", "a", "v", "e"):
                v = ref(i, ["N", "NS", "P", "J", "C"] +
                        (["py"] if nm == "any" else []), 0.5) or rscalar(r)
            else:
                v = rscalar(r)
            if v is not None:
                es.append([nm, v])
        if k in ("LN", "LP", "XL", "JL", "pl"):
            ms = []
            for _ in range(r.choice([0, 1, 2, 3])):
                v = ref(i, ITEMS[tname[i]], 1)
                if v is None and k == "pl":
                    v = rscalar(r)
                if v is not None:
                    ms.append(v)
            heap.append(["list", tname[i], es, ms])
        elif k in ("DN", "XD", "pd"):
            ms = []
            for q in r.sample(["p", "q", "r"], r.choice([0, 1, 2, 3])):
                v = ref(i, ITEMS[tname[i]], 1)
                if v is None and k == "pd":
                    v = rscalar(r)
                if v is not None:
                    ms.append([q, v])
            heap.append(["dict", tname[i], es, ms])
        else:
            heap.append(["rec", tname[i], es])
    return heap


def redit(r, s, scalars=True):
    """a change to an object of state s"""
    heap = s["heap"]
    for _ in range(20):
        k = r.randrange(len(heap)) if heap else None
        if k is None:
            return ["look"]
        o = heap[k]
        T = o[1]

        def ref(types):
            ok = [j for j in range(len(heap)) if heap[j][1] in types]
            return ["o", r.choice(ok) + 1] if ok else None
        x = r.random()
        if o[0] != "rec" and x < 0.7:
            v = ref(ITEMS[T]) if T != "py" or not scalars or \
                r.random() < 0.5 else rscalar(r)
            if o[0] == "list":
                if r.random() < 0.5 and v and len(o[3]) < 5:
                    return ["append", k + 1, v]
                if o[3]:
                    return ["pop", k + 1]
            else:
                if r.random() < 0.5 and v:
                    return ["put", k + 1, r.choice(["p", "q", "r"]), v]
                if o[3]:
                    return ["drop", k + 1, r.choice(o[3])[0]]
        elif T in SLOTS and SLOTS[T]:
            nm = r.choice(SLOTS[T])
            if nm in ("ro", "unknown_json_keys"):
                continue
            have = [e[0] for e in o[2]]
            if nm in have and r.random() < 0.3 and (T, nm) != ("D", "k"):
                return ["del", k + 1, nm]
            if nm in ("chk", "d", "z"):
                return ["set", k + 1, nm, ["i", r.randint(0, 3)]]
            if T == "D":
                return ["set", k + 1, nm, ["s", "w"]]
            if nm in FITS:
                v = ref(FITS[nm])
                if v:
                    return ["set", k + 1, nm, v]
            else:
                return ["set", k + 1, nm, (
                    ref(["N", "NS", "P", "J", "C"]) if r.random() < 0.3
                    else None) or rscalar(r)]
    return ["look"]


HOWS = ["copy", "deepcopy", "repr", "far"] + ["pickle%d" % p for p in
                                              range(6)]


def alike(r, heap):
    """a heap much like this one: the second thing to compare"""
    h = json.loads(json.dumps(heap))
    for _ in range(r.choice([0, 0, 1, 1, 2])):
        o = r.choice(h)
        y = r.random()
        if o[0] == "dict" and o[3] and y < 0.8:
            r.shuffle(o[3])
        elif o[0] == "list" and o[3] and y < 0.5:
            r.shuffle(o[3])
        elif o[2]:
            e = r.choice(o[2])
            if (o[1], e[0]) == ("D", "k"):
                continue
            if e[1][0] == "o" or y < 0.3 or e[0] in ("chk", "d", "z"):
                o[2].remove(e)
            else:
                e[1] = rscalar(r)
    return h


def shift(heap, n):
    def f(v):
        return ["o", v[1] + n] if v[0] == "o" else v
    return [[o[0], o[1], [[k, f(v)] for k, v in o[2]]] + (
        [] if o[0] == "rec" else
        [[f(v) for v in o[3]] if o[0] == "list" else
         [[k, f(v)] for k, v in o[3]]]) for o in heap]


def traces(seed, count, length, eq):
    out = []
    for i in range(count):
        r = random.Random("H%s-%s-%s" % (seed, eq, i))
        h = rheap(r, not eq and r.random() < 0.3)
        if eq:
            h2 = alike(r, h) if r.random() < 0.8 else rheap(r, False)
            coll = [x[0][0] != "rec" for x in (h, h2)]
            if any(coll) and (h[0][1] == "py") != (h2[0][1] == "py"):
                continue    # members would be converted
            init = {"roots": [["o", 1], ["o", len(h) + 1]],
                    "heap": h + shift(h2, len(h))}
        else:
            init = {"roots": [["o", 1], ["-"]], "heap": h}
        s = Session(init)
        init = s.project()
        t = []
        for k in range(length):
            st = s.project()
            if len(st["heap"]) > 40:
                break
            if eq:
                op = ["look"] if k == 0 else redit(r, st, False)
                if r.random() < 0.1 and st["roots"][0][0] == "o":
                    o = st["heap"][st["roots"][0][1] - 1]
                    if o[0] != "rec" and o[1] != "py":
                        op = ["plain", st["roots"][0][1], 2]
                if cyclic(s.roots):
                    break
            elif k == 0 or r.random() < 0.4:
                op = ["copy"] + (r.choice([[1, 2], [1, 2], [2, 1]])
                                 if k else [1, 2]) + [r.choice(HOWS)]
                if op[3] == "repr" and (cyclic(s.roots) or any(
                        type(x) is D and "d" not in vars(x)
                        for x in walk(s.roots))):
                    op[3] = "deepcopy"
            else:
                op = redit(r, st)
            res = core.run_op(s, op)
            e = {"op": op, "res": res, "post": s.project()}
            if k == 0:
                e["init"] = init
            t.append(e)
        out.append(t)
    return out


def c08(check):
    check.walk("MCHeap", core.mkcfg(
        constants={"Inits": "<- EqInits", "Hows": "{}", "Mode": '"eq"',
                   "MaxLevel": check.pick(1, 2)},
        invariants=["Reflexive", "Symmetric"]), Session, lambda c: c)
    check.validate("TraceHeap", traces(check.seed, check.pick(1200, 15000),
                                       check.pick(6, 10), True),
                   constants={"Inits": "{}", "Hows": "{}", "Mode": '"eq"',
                              "MaxLevel": 0}, label="comparison")


def c09(check):
    check.walk("MCHeap", core.mkcfg(
        constants={"Inits": "<- CopyInits", "Mode": '"copy"',
                   "Hows": "{%s}" % ", ".join('"%s"' % h for h in HOWS),
                   "MaxLevel": check.pick(2, 3)},
        invariants=["Reflexive", "Symmetric", "CopySound"]), Session,
        lambda c: c)
    check.validate("TraceHeap", traces(check.seed, check.pick(800, 10000),
                                       check.pick(8, 14), False),
                   constants={"Inits": "{}", "Hows": "{}", "Mode": '"copy"',
                              "MaxLevel": 0}, label="copying")
