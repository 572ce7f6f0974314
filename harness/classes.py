"""Classes.tla bound to record class declarations (C24)."""
import random

import core

from normalize import JsonRecord, Property, Record
from normalize.diff import DiffTypes
from normalize.identity import record_id

KINDS = {"p": dict(), "i": dict(isa=int), "d": dict(default=1),
         "r": dict(required=True), "e": dict(extraneous=True),
         "o": dict(traits=["ro"]), "l": dict(lazy=True, default=lambda: 7)}
DIFF = {DiffTypes.ADDED: "added", DiffTypes.REMOVED: "removed",
        DiffTypes.MODIFIED: "modified"}


NOKEY = [["none", ""]]


def dec(v):
    return None if v[0] == "n" else v[1]


def enc(x):
    if x is None:
        return ["n"]
    if type(x) not in (int, str):
        return ["?", type(x).__name__]
    return ["i" if type(x) is int else "s", x]


class Session(object):
    def __init__(self, cfg=0):
        self.root = random.choice([Record, Record, JsonRecord])
        self.begin()

    def begin(self):
        self.classes = []
        self.keyed = []

    def key(self, k, own):
        if k[0] == "s":
            return k[1]
        if k[0] == "own":
            return own[k[1]]
        return self.classes[k[1] - 1].properties[k[2]]

    def declare(self, d):
        bases, own, pk = d
        # a class with several bases cannot have several JSON records
        root = Record if len(bases) > 1 else self.root
        if len(bases) > 1 and self.root is JsonRecord:
            self.rebuild()
        own = dict((n, Property(**KINDS[k])) for n, k in own)
        ns = list(own.items())
        random.shuffle(ns)
        ns = dict(ns)
        ns["__module__"] = __name__
        if pk != NOKEY:
            ns["primary_key"] = random.choice([list, tuple])(
                self.key(k, own) for k in pk)
        bs = tuple(self.classes[b - 1] for b in bases) or (root,)
        cls = type(root)("C%d" % (len(self.classes) + 1), bs, ns)
        self.classes.append(cls)
        self.keyed.append(bool(pk) if pk != NOKEY else any(
            self.keyed[b - 1] for b in bases) and "?")

    def rebuild(self):
        """the same declarations as plain records"""
        self.root = Record
        done, self.done = self.done, []
        self.begin()
        for d in done:
            self.declare(d)
            self.done.append(d)

    done = ()

    def make(self, op):
        cls = self.classes[op[1] - 1]
        for vs in op[2:]:
            yield cls(**dict((n, dec(v)) for n, v in vs))

    def names(self, cls):
        return sorted(n for n in cls.properties if n != "unknown_json_keys")

    def apply(self, op):
        what = op[0]
        if what == "begin":
            self.begin()
            self.done = []
            return ["ok"]
        if what == "declare":
            try:
                self.declare(op[1])
            except Exception:
                return ["refused"]
            self.done = list(self.done) + [op[1]]
            return ["ok"]
        if what == "classes":
            out = []
            for q, c in enumerate(self.classes):
                ps = []
                for n in self.names(c):
                    p = c.properties[n]
                    if getattr(c, n) is not p or p.name != n:
                        return ["inconsistent", n]
                    ps.append([n, self.classes.index(p.class_()) + 1])
                pk = [p.name for p in c.primary_key]
                if self.keyed[q] == "?":
                    pk = ["?"]
                elif any(p is not c.properties[p.name]
                         for p in c.primary_key):
                    return ["foreign key property"]
                out.append([ps, pk, [issubclass(c, d)
                                     for d in self.classes]])
            return ["ok", out]
        try:
            if what == "new":
                r, = self.make(op)
                return ["ok", [[n, enc(getattr(r, n, None))]
                               for n in self.names(type(r))]]
            elif what == "assign":
                r, = self.make(op[:3])
                setattr(r, op[3], dec(op[4]))
                return ["ok", enc(getattr(r, op[3]))]
            elif what == "id":
                r, = self.make(op)
                ids = list(record_id(r))
                if list(r.__pk__) != ids:
                    return ["inconsistent"]
                if hash(r) != hash(next(self.make(op))):
                    return ["hash"]
                return ["ok", [enc(x) for x in ids]]
            elif what == "same":
                r, s = self.make(op)
                if (r == s) == (r != s):
                    return ["inconsistent"]
                return ["ok", r == s]
            elif what == "diff":
                r, s = self.make(op)
                return ["ok", sorted(
                    [(d.base.path if len(d.base.path) > 1 else d.other.path)
                     [1:], DIFF[d.diff_type]] for d in r.diff(s))]
        except Exception:
            return ["err"]


# ---- random histories
NAMES = ["a", "x", "x0", "y", "z"]


def values(r):
    return [[n, r.choice([["i", 1], ["i", 2], ["s", "5"], ["s", "a"]])]
            for n in NAMES if r.random() < .45]


def traces(seed, count, length):
    out = []
    for i in range(count):
        r = random.Random("M%s-%s" % (seed, i))
        random.seed(str(r.random()))
        s = Session()
        t = [{"op": ["begin"], "res": s.apply(["begin"])}]
        for _ in range(length):
            n = len(s.classes)
            x = r.random()
            if n == 0 or n < 6 and x < .3:
                own = [[m, r.choice("ppiiddreol")]
                       for m in NAMES if r.random() < .4]
                if r.random() < .05:
                    own.append([r.choice(["properties", "eager_properties"]),
                                "p"])
                bases = r.sample(range(1, n + 1),
                                 min(n, r.choice([0, 1, 1, 1, 2, 2])))
                if any(a != b and issubclass(s.classes[a - 1],
                                             s.classes[b - 1])
                       for a in bases for b in bases):
                    bases = bases[:1]
                pk = NOKEY
                if r.random() < .4:
                    pk = []
                    have = set(m for m, _ in own) | set(
                        m for b in bases for m in s.names(s.classes[b - 1]))
                    for m in r.sample(NAMES, r.choice([1, 1, 2, 2])):
                        if m not in have and r.random() < .8:
                            continue
                        fs = [["s", m]]
                        if m in [k for k, _ in own]:
                            fs.append(["own", m])
                        for q in range(n):
                            if m in s.names(s.classes[q]):
                                fs.append(["of", q + 1, m])
                        pk.append(r.choice(fs))
                op = ["declare", [bases, own, pk]]
            elif x < .45:
                op = ["classes"]
            else:
                op = [r.choice(["new", "assign", "id", "id", "same", "diff"]),
                      r.randint(1, n), values(r)]
                if op[0] == "assign":
                    have = s.names(s.classes[op[1] - 1])
                    if not have:
                        continue
                    op += [r.choice(have), r.choice([["i", 3], ["s", "5"],
                                                     ["s", "a"]])]
                if op[0] in ("same", "diff"):
                    v = values(r)
                    op.append(v if r.random() < .4 else
                              [e for e in op[2] if r.random() < .8] + [
                                  e for e in v if r.random() < .3 and
                                  e[0] not in dict(op[2])])
                    op[3] = sorted(dict(map(lambda e: (e[0], e), op[3]))
                                   .values())
            t.append({"op": op, "res": core.run_op(s, op)})
        out.append(t)
    return out


def c24(check):
    check.walk("MCClasses", core.mkcfg(
        constants={"Wide": str(check.thorough).upper()},
        invariants=["Inherit", "KeyOwn"], properties=["Frozen"]),
        Session, [], probes=[["classes"]], walks=check.pick(200, 4000),
        walklen=25)
    check.validate("TraceClasses", traces(
        check.seed, check.pick(200, 2000), 40), label="class history")
