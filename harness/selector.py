"""Selector.tla bound to FieldSelector (C13, C14)."""
import random

import core
import doc
from pyval import errkind

from normalize import exc
from normalize.coll import Collection
from normalize.selector import FieldSelector


WRITES = ("put", "post", "delete")


class Session(object):
    def __init__(self, nd):
        self.obj = doc.build(nd)

    def project(self):
        return doc.project(self.obj)

    def apply(self, op):
        before = doc.containers(self.obj) if op[0] in WRITES else None
        res = self._try(op)
        if before is not None:
            p = doc.components(op[1])
            if op[0] == "delete":
                p[-1] = None        # what follows in a list moves up
            moved = doc.replaced(before, doc.containers(self.obj), [p])
            if moved:
                return ["replaced", [list(q) for q in moved]]
        return res

    def _try(self, op):
        try:
            return ["ok", self._do(op)]
        except Exception as e:
            k = errkind(e)
            if op[0] == "post" and (k in ("fs", "value", "required") or
                                    isinstance(e, exc.CoercionError)):
                k = "post"
            return ["err", k]

    def _do(self, op):
        o = op[0]
        if o == "rebuild":
            new = type(self.obj)()
            vals = sorted(leaves(self.obj, ()), key=lambda x: x[0])
            for fs, v in vals:
                if fs.post(new, v) != 1:
                    return ["bool", False]
            return ["bool", new == self.obj]
        fs = FieldSelector(doc.components(op[1]))
        if o == "get":
            return doc.project(fs.get(self.obj))
        if o == "getn":
            return doc.project(fs.get_or_none(self.obj))
        if o == "put":
            return doc.project(fs.put(self.obj, doc.build(op[2])))
        if o == "post":
            return fs.post(self.obj, doc.build(op[2]))
        if o == "delete":
            return doc.project(fs.delete(self.obj))
        raise ValueError(op)


def leaves(x, path):
    if isinstance(x, Collection):
        for k, v in x.itertuples():
            for y in leaves(v, path + (k,)):
                yield y
    elif type(x) in doc.NAMES and type(x) not in (int, str):
        for k in doc.ORDER[doc.NAMES[type(x)]]:
            if hasattr(x, k) and (k not in ("z", "zs") or getattr(x, k) not in
                                  ("", None)):
                for y in leaves(getattr(x, k), path + (k,)):
                    yield y
    else:
        yield FieldSelector(path), x


DKEYS = ["p", "q", "r", "s t", "x.y", "items", "keys", "pop"]


# ---- random documents and operations for recorded executions
def rdoc(r, t="Root", none=False):
    kinds = {
        "Root": [("name", "str"), ("n", "int"), ("any", "any"),
                 ("raw", "raw"),
                 ("sub", "rec:Sub"), ("items", "list:Item"),
                 ("map", "dict:Item"), ("nums", "list:int"),
                 ("cnt", "dict:int"), ("reqs", "list:Req"),
                 ("req", "rec:Req")],
        "Sub": [("x", "int"), ("leaf", "rec:Leaf"), ("subs", "list:Leaf")],
        "Leaf": [("w", "int"), ("b", "int")],
        "Item": [("a", "str"), ("b", "int"), ("kids", "list:Leaf"),
                 ("leaf", "rec:Leaf"), ("v", "any")],
        "Req": [("k", "str"), ("o", "int")]}[t]
    es = []
    for nm, k in kinds:
        if nm == "k" or r.random() < 0.6:
            es.append([nm, rkind(r, k, none)])
    if none and t == "Root" and r.random() < 0.5:
        es.append(["z", ["i", r.randint(0, 9)]])
        es.append(["zs", rkind(r, "rec:Leaf")])
    return ["rec", t, es]


def rkind(r, k, none=False):
    if k == "int":
        return ["i", r.randint(0, 9)]
    if k == "raw":
        x = r.random()
        if x < 0.4:
            return ["list", "py", [rkind(r, r.choice(["int", "str"]))
                                   for _ in range(r.randint(0, 3))]]
        return ["dict", "py", [[q, rkind(r, "int")] for q in
                               r.sample(DKEYS, r.randint(0, 3))]]
    if k == "any" and none and r.random() < 0.5:
        return ["none"]
    if k in ("str", "any"):
        return ["s", r.choice(["u", "v", "w", ""])]
    c, t = k.split(":")
    item = (lambda: rkind(r, t, none)) if t in ("int", "str") else (
        lambda: rdoc(r, t, none))
    if c == "rec":
        return rdoc(r, t, none)
    if c == "list":
        return ["list", t, [item() for _ in range(r.choice([0, 1, 1, 2, 3]))]]
    ks = r.sample(DKEYS, r.choice([0, 1, 2, 3]))
    return ["dict", t, [[x, item()] for x in ks]]


KINDS = {"Root": {"name": "str", "n": "int", "any": "any", "raw": "raw", "sub": "rec:Sub",
                  "items": "list:Item", "map": "dict:Item",
                  "nums": "list:int", "cnt": "dict:int", "reqs": "list:Req",
                  "req": "rec:Req", "z": "int", "zs": "rec:Leaf"},
         "Sub": {"x": "int", "leaf": "rec:Leaf", "subs": "list:Leaf"},
         "Leaf": {"w": "int", "b": "int"},
         "Item": {"a": "str", "b": "int", "kids": "list:Leaf",
                  "leaf": "rec:Leaf", "v": "any"},
         "Req": {"k": "str", "o": "int"}}


def rpath(r, wild):
    """A well-typed path and the kind of what it names."""
    kind = "rec:Root"
    p = []
    while True:
        if ":" not in kind or (p and r.random() < 0.15):
            return p, kind
        c, t = kind.split(":")
        if c == "rec":
            nm = r.choice(sorted(KINDS[t]))
            p.append(["s", nm])
            kind = KINDS[t][nm]
            if kind == "raw" and r.random() < 0.7:
                p.append(r.choice([["i", 0], ["i", 1], ["s", "p"],
                                   ["s", "items"]]))
                kind = "any"
        else:
            if c == "list":
                if wild and r.random() < 0.3:
                    p.append(["n"])
                else:
                    p.append(["i", r.choice([0, 0, 0, 1, 1, 2, 3, -1, -2])])
            else:
                p.append(["s", r.choice(DKEYS)])
            kind = t if t in ("int", "str") else "rec:" + t


def whole(r, s):
    """New content for a mapping or list, put at its wildcard."""
    at = r.choice([["raw"], ["raw"], ["map"], ["cnt"], ["raw", "p"]])
    c = FieldSelector(at).get_or_none(s.obj)
    if not isinstance(c, (list, dict, Collection)):
        return None
    item = {"map": "rec:Item", "cnt": "int"}.get(at[0])
    new = lambda: rkind(r, item or r.choice(["int", "str"]), True)  # noqa
    if isinstance(c, list):
        v = ["list", "py", [new() for _ in range(r.randint(0, 3))]]
    else:
        v = ["dict", "py", [[k, new()] for k in
                            r.sample(DKEYS, r.randint(0, 3))]]
    return ["put", [["s", x] for x in at] + [["n"]], v]


def rop(r, post):
    o = r.choice((["post"] * 6 + ["get", "delete"]) if post else
                 ["get", "getn", "put", "put", "put", "delete", "delete"])
    wild = r.random() < 0.4
    while True:
        p, kind = rpath(r, wild)
        w = ["n"] in p
        if o == "delete" and p[-1] == ["s", "k"]:
            continue
        if o in ("put", "post") and w:
            if p[-1] == ["n"]:
                # one list of fresh values; only at a single place
                if p.count(["n"]) > 1:
                    continue
            elif ":" in kind:
                continue       # would put one object in several places
        break
    if o in ("get", "getn", "delete"):
        return [o, p]
    if p[-1] == ["n"]:
        v = ["list", "py", [rkind(r, kind, True) for _ in range(r.randint(0, 3))]]
    elif r.random() < 0.08 and kind not in ("str", "any", "raw"):
        v = ["bad"]
    else:
        v = rkind(r, kind, True)
    return [o, p, v]


def odd_keys(nd):
    """an integer got in as a dictionary key: nothing is said of these"""
    if nd[0] in ("rec", "list", "dict"):
        return any(odd_keys(x) if nd[0] == "list" else
                   type(x[0]) is not str or odd_keys(x[1]) for x in nd[2])
    return False


def traces(seed, count, length, post):
    out = []
    for i in range(count):
        r = random.Random("S%s-%s-%s" % (seed, post, i))
        nd = rdoc(r, none=True) if r.random() < 0.8 else ["rec", "Root", []]
        s = Session(nd)
        t = []
        for k in range(length):
            op = (whole(r, s) if r.random() < .1 else None) or rop(r, post)
            res = core.run_op(s, op)
            e = {"op": op, "res": res, "post": s.project()}
            if odd_keys(e["post"]):
                break
            if k == 0:
                e["init"] = nd
            t.append(e)
        out.append(t)
    return out


def run(check, ops, invs, post):
    check.edges("MCSelector", core.mkcfg(
        constants={"Docs": "<- Docs" + (
            check.pick("P", "S") if post else "S"), "Ops": "<- " + ops,
                   "MaxLevel": check.pick(2, 3 if post else 2)},
        invariants=invs), Session)
    check.validate("TraceSelector",
                   traces(check.seed, check.pick(300, 4000),
                          check.pick(15, 25), post),
                   constants={"Docs": "{}", "Ops": "{}", "MaxLevel": 0},
                   label="field selector execution")


def c13(check):
    run(check, "OpsS", ["Typed", "PutGet", "PutFrame", "FailFrame",
                        "DeleteGone"], False)


def c14(check):
    run(check, "OpsP", ["Typed", "PostGet", "PostIsPut", "PostFrame"], True)
