"""Documents of Doc.tla as real records."""
from normalize import Record, Property
from normalize.coll import DictCollection, ListCollection, dict_of, list_of
from normalize.property.coll import DictProperty, ListProperty
from normalize.property.types import IntProperty, StringProperty


class Leaf(Record):
    w = IntProperty()
    b = IntProperty()


class Sub(Record):
    x = Property(isa=int)
    leaf = Property(isa=Leaf)
    subs = ListProperty(of=Leaf)


class Item(Record):
    a = StringProperty()
    b = IntProperty()
    kids = ListProperty(of=Leaf)
    leaf = Property(isa=Leaf)
    v = Property()


class Req(Record):
    k = StringProperty(required=True)
    o = IntProperty()


class Root(Record):
    name = StringProperty()
    n = IntProperty()
    any = Property()
    raw = Property()
    sub = Property(isa=Sub)
    items = ListProperty(of=Item)
    map = DictProperty(of=Item)
    nums = ListProperty(of=int)
    cnt = DictProperty(of=int)
    reqs = ListProperty(of=Req)
    req = Property(isa=Req)
    z = Property(isa=int, v1_none="")
    zs = Property(isa=Leaf, v1_none=None)


TYPES = {"Root": Root, "Sub": Sub, "Leaf": Leaf, "Item": Item, "Req": Req,
         "int": int, "str": str}
ORDER = {"Root": ["name", "n", "any", "raw", "sub", "items", "map", "nums", "cnt",
                  "reqs", "req", "z", "zs"],
         "Sub": ["x", "leaf", "subs"], "Leaf": ["w", "b"],
         "Item": ["a", "b", "kids", "leaf", "v"], "Req": ["k", "o"]}
NAMES = dict((v, k) for k, v in TYPES.items())


def build(nd):
    t = nd[0]
    if t in ("i", "s"):
        return nd[1]
    if t == "rec":
        return TYPES[nd[1]](**dict((k, build(v)) for k, v in nd[2]))
    if t in ("list", "dict") and nd[1] == "py":
        return ([build(v) for v in nd[2]] if t == "list" else
                dict((k, build(v)) for k, v in nd[2]))
    if t == "list":
        return list_of(TYPES[nd[1]])([build(v) for v in nd[2]])
    if t == "dict":
        return dict_of(TYPES[nd[1]])(dict((k, build(v)) for k, v in nd[2]))
    if t == "none":
        return None
    if t == "bad":
        return Bad()
    raise ValueError(nd)


class Bad(object):
    def __int__(self):
        raise ValueError("bad")

    def __str__(self):
        raise ValueError("bad")

    def __repr__(self):
        return "<bad>"


_MISS = object()


def project(x):
    """Through the public interface: declared slots by getattr, members by
    iteration."""
    if x is None:
        return ["none"]
    t = type(x)
    if t is bool:
        return ["bool", x]
    if t is int:
        return ["i", x]
    if t is str:
        return ["s", x]
    if isinstance(x, ListCollection):
        return ["list", NAMES.get(t.itemtype, "?"), [project(v) for v in x]]
    if isinstance(x, DictCollection):
        return ["dict", NAMES.get(t.itemtype, "?"),
                [[k, project(v)] for k, v in x.items()]]
    if t in NAMES:
        es = []
        for k in ORDER[NAMES[t]]:
            v = getattr(x, k, _MISS)
            if v is not _MISS and not (k == "z" and v == "") and not (
                    k == "zs" and v is None):
                es.append([k, project(v)])
        extra = set(vars(x)) - set(ORDER[NAMES[t]])
        if extra:
            es.append(["?", ["s", ",".join(sorted(extra))]])
        return ["rec", NAMES[t], es]
    if t is list:
        return ["list", "py", [project(v) for v in x]]
    if t is dict:
        return ["dict", "py", [[k, project(v)] for k, v in x.items()]]
    return ["?", t.__name__]


def component(c):
    return None if c[0] == "n" else c[1]


def components(p):
    return [component(c) for c in p]


def containers(x, path=(), out=None):
    """everything in a document that can change, by where it is"""
    out = {} if out is None else out
    if isinstance(x, (ListCollection, list)):
        out[path] = x
        for k, v in enumerate(x):
            containers(v, path + (k,), out)
    elif isinstance(x, (DictCollection, dict)):
        out[path] = x
        for k, v in x.items():
            containers(v, path + (k,), out)
    elif type(x) in NAMES and isinstance(x, Record):
        out[path] = x
        for k in ORDER[NAMES[type(x)]]:
            v = getattr(x, k, _MISS)
            if v is not _MISS:
                containers(v, path + (k,), out)
    return out


def _named(p, q):
    return all(a is None or a == b or (isinstance(a, int) and a < 0 and
                                       isinstance(b, int))
               for a, b in zip(p, q))


def replaced(before, after, paths):
    """the places whose container is another object now, though no path names
    the place or anything above it"""
    return sorted(
        (q for q in before if q in after and after[q] is not before[q] and
         not any(len(q) >= len(p) and _named(p, q) for p in paths)), key=str)
