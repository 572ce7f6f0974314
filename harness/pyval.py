"""Python values <-> tagged values of the specification (Values.tla)."""


class Opaque(object):
    """An object nothing converts."""
    def __str__(self):
        return "<obj>"
    __repr__ = __str__


OBJ = Opaque()


class MyInt(int):
    pass


class MyStr(str):
    pass


def dec(v):
    t = v[0]
    if t == "i" or t == "s" or t == "b":
        return v[1]
    if t == "n":
        return None
    if t == "mi":
        return MyInt(v[1])
    if t == "ms":
        return MyStr(v[1])
    if t == "o":
        return OBJ
    raise ValueError(v)


def enc(x):
    if x is None:
        return ["n"]
    if x is OBJ:
        return ["o"]
    t = type(x)
    if t is bool:
        return ["b", x]
    if t is int:
        return ["i", x]
    if t is str:
        return ["s", x]
    if t is MyInt:
        return ["mi", int(x)]
    if t is MyStr:
        return ["ms", str(x)]
    if t is list:
        return ["l", len(x)]
    return ["?", t.__name__]


def errkind(e):
    """Documented exception families -> the specification's error kinds."""
    import normalize.exc as exc
    for cls, k in (
        (exc.ReadOnlyAttributeError, "readonly"),
        (exc.PropertyRequired, "required"),
        (exc.ValueCheckError, "check"),
        (exc.PropertyNotKnown, "unknown"),
        (exc.AmbiguousConstruction, "ambiguous"),
        (exc.CoercionError, "coerce"),
        (exc.FieldSelectorException, "fs"),
        (AttributeError, "attr"),
        (IndexError, "index"),
        (KeyError, "key"),
        (ValueError, "value"),
        (TypeError, "type"),
    ):
        if isinstance(e, cls):
            return k
    return "other:" + type(e).__name__
