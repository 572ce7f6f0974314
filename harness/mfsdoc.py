"""MfsDoc.tla bound to MultiFieldSelector.get/delete/patch (C17)."""
import copy
import random

import core
import doc
from core import key
from pyval import errkind
from selector import odd_keys, rdoc, KINDS, DKEYS

from normalize import Record
from normalize.coll import Collection
from normalize.selector import MultiFieldSelector


def canon(nd):
    if nd[0] == "rec":
        return ["rec", nd[1], [[k, canon(v)] for k, v in nd[2]]]
    if nd[0] == "list":
        return ["list", nd[1], [canon(v) for v in nd[2]]]
    if nd[0] == "dict":
        return ["dict", nd[1],
                sorted(([k, canon(v)] for k, v in nd[2]),
                       key=lambda e: (type(e[0]) is not str, str(e[0])))]
    return nd


def nodes(x, out=None):
    """ids of everything mutable in a document"""
    out = {} if out is None else out
    if isinstance(x, Collection):
        out[id(x)] = x
        for k, v in x.itertuples():
            nodes(v, out)
    elif isinstance(x, Record):
        out[id(x)] = x
        for k in doc.ORDER[doc.NAMES[type(x)]]:
            if hasattr(x, k):
                nodes(getattr(x, k), out)
    elif isinstance(x, (list, dict)):
        out[id(x)] = x
        for v in (x if isinstance(x, list) else x.values()):
            nodes(v, out)
    return out


class Session(object):
    def __init__(self, nd):
        self.obj = doc.build(nd)

    def project(self):
        return canon(doc.project(self.obj))

    def apply(self, op):
        before = doc.containers(self.obj) if op[0] != "filter" else None
        res = self._try(op)
        if before is not None:
            paths = []
            for p in op[1]:
                p = doc.components(p)
                while p and p[-1] is None:
                    p.pop()
                paths.append(p[:-1] + [None])
            moved = doc.replaced(before, doc.containers(self.obj), paths)
            if moved:
                return ["replaced", [list(q) for q in moved]]
        return res

    def _try(self, op):
        try:
            return ["ok", self._do(op)]
        except Exception as e:
            k = errkind(e)
            if op[0] == "filter" and k in ("index", "key", "fs"):
                k = "miss"
            return ["err", k]

    def _do(self, op):
        o = op[0]
        mfs = MultiFieldSelector(*[doc.components(p) for p in op[1]])
        if o == "filter":
            r = mfs.get(self.obj)
            if set(nodes(r)) & set(nodes(self.obj)):
                return ["shared"]
            return canon(doc.project(r))
        if o == "delete":
            if op[2]:
                mfs.delete(self.obj, force=True)
            else:
                mfs.delete(self.obj)
            return ["none"]
        if o == "patch":
            src = doc.build(op[2])
            mfs.patch(self.obj, src, copy=op[3]) if op[3] else \
                mfs.patch(self.obj, src)
            if canon(doc.project(src)) != canon(op[2]):
                return ["source changed"]
            if op[3]:
                if set(nodes(src)) & set(nodes(self.obj)):
                    return ["shared"]
                calls = []
                t2 = doc.build(op[2])
                mfs.patch(t2, src, copy=lambda x: (calls.append(x),
                                                   copy.deepcopy(x))[1])
                if canon(doc.project(t2)) != canon(op[2]) or \
                        set(nodes(src)) & set(nodes(t2)):
                    return ["patching with itself changed it"]
            return ["none"]
        raise ValueError(op)


def rpath(r, mode):
    kind = "rec:Root"
    p = []
    while True:
        if ":" not in kind or (p and r.random() < 0.2):
            break
        c, t = kind.split(":")
        if c == "rec":
            names = sorted(KINDS[t])
            if t == "Req" and mode != "filter":
                names.remove("k")
            nm = r.choice(names)
            p.append(["s", nm])
            kind = KINDS[t][nm]
            if kind == "raw" and r.random() < 0.6:
                p.append(r.choice([["i", 0], ["i", 1], ["n"], ["s", "p"],
                                   ["s", "items"]]))
        else:
            if c == "list":
                p.append(["n"] if r.random() < 0.45 else
                         ["i", r.choice([0, 0, 1, 1, 2])])
            elif r.random() < 0.75:
                p.append(["s", r.choice(DKEYS)])
            else:
                p.append(["n"])
            kind = t if t in ("int", "str") else "rec:" + t
    return p


def rset(r, mode):
    while True:
        ps = [rpath(r, mode) for _ in range(r.choice([1, 1, 2, 2, 3, 4]))]
        try:
            MultiFieldSelector(*[doc.components(p) for p in ps])
        except ValueError:
            continue
        return ps


def traces(seed, count, length):
    out = []
    for i in range(count):
        r = random.Random("D%s-%s" % (seed, i))
        nd = canon(rdoc(r, none=True))
        s = Session(nd)
        t = []
        for k in range(length):
            o = r.choice(["filter", "filter", "delete", "patch", "patch"])
            op = [o, rset(r, o)]
            if o == "delete":
                op.append(r.random() < 0.6)
            elif o == "patch":
                # usually something near the target
                src = rdoc(r, none=True)
                op += [canon(src), r.random() < 0.5]
            res = core.run_op(s, op)
            e = {"op": op, "res": res, "post": s.project()}
            if odd_keys(e["post"]):
                break
            if k == 0:
                e["init"] = nd
            t.append(e)
            if r.random() < 0.35:
                break
        out.append(t)
    return out


def c17(check):
    for mode, sets in (("filter", "FilterSets"), ("delete", "DeleteSets"),
                       ("patch", "PatchSets")):
        check.edges("MCMfsDoc", core.mkcfg(
            constants={"Docs": "<- DocsS", "Sets": "<- " + sets,
                       "Sources": "<- DocsS", "Mode": '"%s"' % mode,
                       "KeyOrder": "<- Keys",
                       "MaxLevel": {"filter": 1, "delete": check.pick(2, 3),
                                    "patch": 1}[mode] if mode != "patch"
                       else check.pick(1, 2)},
            invariants=["Typed", "SelEq", "FilterIdem", "DeleteGone",
                        "PatchBack"]), Session)
    check.validate("TraceMfsDoc", traces(check.seed, check.pick(1000, 12000),
                                         8),
                   constants={"Docs": "{}", "Sets": "{}", "Sources": "{}",
                              "Mode": '"filter"', "MaxLevel": 0,
                              "KeyOrder": "<- KeysT"},
                   label="multi selector operation")
