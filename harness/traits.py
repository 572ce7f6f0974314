"""Traits.tla bound to property declarations (C05).  Everything is declared in
forked processes: in this one, only normalize itself has been imported."""
import datetime
import json
import os
import pickle
import random
import signal
import traceback

import core
from pyval import errkind

import normalize
from normalize import JsonRecord, Record
import normalize.property as P
import normalize.property.coll as PC
import normalize.property.json as PJ
import normalize.record.json as RJ

FLAGS = ["ro", "lazy", "v1", "cmp", "req", "chk", "unsafe", "ext"]
NUM = {"G": 5, "H": 6, "C": 3}
RAW = {"g": "G", "hr": "H", "cr": "C"}
CALLS = [0]


def value(t, tok):
    if tok == "N":
        return None
    if tok == "E":
        return ""
    if tok == "Z":
        return {} if t == "dict" else []
    if t == "date":
        if tok == "b":
            return "zz"
        return (datetime.date(2020, 1, NUM[tok]) if tok in NUM else
                "2020-01-0%d" % NUM[RAW[tok]])
    x = "x" if tok == "b" else NUM[tok] if tok in NUM else str(NUM[RAW[tok]])
    return [x] if t == "list" else {"a": x} if t == "dict" else x


TOKENS = ["G", "H", "C", "g", "hr", "cr", "b", "N", "E"]


def plain(v):
    if v is None or isinstance(v, (int, str, datetime.date)):
        return v
    if hasattr(v, "keys"):
        return dict((k, v[k]) for k in v)
    try:
        return list(v)
    except TypeError:
        return v


def token(t, v):
    if type(v).__name__ == "EmptyVal" and not v:
        return "empty"
    if isinstance(v, datetime.datetime) or isinstance(v, bool):
        return "?" + repr(v)
    if v == "out":
        return "out"
    x = plain(v)
    for tok in TOKENS + (["Z"] if t in ("list", "dict") else []):
        w = value(t, tok)
        if type(w) is type(x) and w == x:
            return tok
    return "?" + repr(v)[:40]


def check_func(t):
    bad = value(t, "C")
    return lambda v: plain(v) != bad


def default_func(t):
    def func():
        CALLS[0] += 1
        return value(t, "g")
    return func


# ---- the ways of saying it
COUNT = [0]


def spell(o, r):
    """(callable, keyword arguments) declaring options o"""
    t = o["type"]
    kw = {}
    traits = []
    bases = [P.Property]
    checks = t != "any" or o["req"] or o["chk"]
    safe = checks and not o["ro"] and not o["unsafe"]
    if t == "int":
        x = r.randrange(4)
        if x == 0:
            import normalize.property.types as T
            bases = [T.IntProperty]
        elif x == 1:
            import normalize.property.types  # noqa
            traits.append("int")
        else:
            kw["isa"] = int
    if t == "date":
        import normalize.property.types as T
        if r.random() < .7:
            bases = [T.DateProperty]
        else:
            traits.append("date")
    if t in ("list", "dict"):
        x = r.randrange(4)
        cls = PC.ListProperty if t == "list" else PC.DictProperty
        jcls = PJ.JsonListProperty if t == "list" else PJ.JsonDictProperty
        if x == 0:
            kw[t + "_of"] = int
        elif x == 1:
            kw[t + "_of"] = int
            traits += [t, "coll"]
        else:
            bases = [r.choice([cls, jcls]) if o["json"] != "no" else cls]
            kw["of" if x == 2 else t + "_of"] = int
    stock = []
    if o["json"] != "no":
        kw["json_name"] = "J"
        stock.append(PJ.JsonProperty)
        if safe:
            stock.append(PJ.SafeJsonProperty)
        if r.random() < .2:
            traits.append("json")
        if o["json"] == "fn":
            kw["json_in"] = lambda v: value(t, "hr")
            kw["json_out"] = lambda v: "out"
    if o["ro"]:
        stock.append(P.ROProperty)
    if o["lazy"]:
        stock.append(P.LazyProperty)
        if o["ro"]:
            stock.append(P.ROLazyProperty)
        if safe or o["v1"]:
            stock.append(P.LazySafeProperty)
    if o["v1"]:
        kw["v1_none"] = ""
        stock.append(P.V1Property)
        if r.random() < .2:
            traits += ["v1", "safe"]
    elif safe and r.random() < .2:
        traits.append("safe")
    if safe:
        stock.append(P.SafeProperty)
    if o["cmp"]:
        kw["compare_as"] = r.choice([lambda v: 0, lambda self, v: 0])
        stock.append(P.DiffasProperty)
        if r.random() < .2:
            traits.append("diffas")
    if o["req"]:
        kw["required"] = True
    elif r.random() < .1:
        kw["required"] = False
    if o["chk"]:
        kw["check"] = check_func(t)
    elif r.random() < .1:
        kw["check"] = None
    if r.random() < .1:
        kw["doc"] = "text"
    if o["unsafe"]:
        traits.append("unsafe")
    if o["ext"]:
        kw["extraneous"] = True
    if o["def"] == "fun":
        kw["default"] = default_func(t)
    if o["def"] == "falsy":
        kw["default"] = ""
    base = bases[0]
    if base is P.Property and stock and r.random() < .6:
        base = r.choice(stock)
    if o["ro"] and not issubclass(base, P.ROProperty) or \
            o["ro"] and r.random() < .2:
        traits.append("ro")
    if o["lazy"]:
        if not issubclass(base, P.LazyProperty) and r.random() < .7 or \
                r.random() < .2:
            kw["lazy"] = True
        elif not issubclass(base, P.LazyProperty):
            traits.append("lazy")
    hidden = False
    said = set()
    final = set()       # passed to override a made type's default
    while r.random() < .3:
        # some of it as the defaults of a made property type
        names = set(kw) - final
        if t == "date" and not issubclass(base, T.DateProperty):
            # that has a default for it, too
            names.discard("json_out")
        names = sorted(names)
        mine = r.sample(names, r.randint(0, len(names)))
        defaults = dict((k, kw.pop(k)) for k in mine)
        if traits and r.random() < .5:
            # given again, they would be overridden
            defaults["traits"], traits = traits, []
            hidden = True
        if "json_name" in defaults and r.random() < .3:
            defaults["json_name"] = "K"     # overridden
            kw["json_name"] = "J"
            final.add("json_name")
        for k, wrong in (("check", lambda v: False), ("required", True),
                         ("extraneous", True)):
            if k not in kw and k not in defaults and k not in said and \
                    not o[{"check": "chk", "required": "req",
                           "extraneous": "ext"}[k]] and r.random() < .15:
                # a default which is not wanted
                defaults[k] = wrong
                kw[k] = None if k == "check" else False
                final.add(k)
        said.update(defaults)
        if "default" in defaults and o["def"] == "fun" and r.random() < .2:
            kw["default"] = defaults["default"]
            defaults["default"] = lambda: value(t, "b")
            final.add("default")
        COUNT[0] += 1
        name = r.choice(["Aa%d", "Mm%d", "Zz%d"]) % COUNT[0]
        extra = {}
        if r.random() < .5:
            extra["trait_name"] = name.lower()
        base = P.make_property_type(name + "Property", base_type=base,
                                    **dict(extra, **defaults))
        if "trait_name" in extra and not hidden and \
                r.random() < .3:
            # the type just made, by its name only
            traits += list(base.traits)
            base = P.Property
    if traits:
        r.shuffle(traits)
        kw["traits"] = r.choice([list, tuple, set])(traits)
    items = list(kw.items())
    r.shuffle(items)
    return base, dict(items)


CLASSES = [["JsonProperty", "LazyProperty"], ["LazyProperty", "JsonProperty"],
           ["JsonProperty", "ROProperty"], ["ROProperty", "JsonProperty"],
           ["ROProperty", "DiffasProperty"], ["DiffasProperty", "V1Property"],
           ["JsonProperty", "V1Property"], ["V1Property", "LazyProperty"],
           ["LazyProperty", "DiffasProperty", "JsonProperty"],
           ["ListProperty", "LazyProperty"], ["ROProperty", "DictProperty"]]


def own_class(r):
    names = r.choice(CLASSES)
    return ["class", "+".join(sorted(names)), names]


class Process(object):
    """one process's declarations; ops as in the specification"""
    def __init__(self, r):
        self.r = r
        self.ds = []

    def declare(self, o):
        # some types cannot be declared by hand
        ctor, kw = spell(o, self.r)
        p = ctor(**kw)
        # records which cannot have been made with another of the same name
        root = self.r.choice([JsonRecord, JsonRecord, Record])
        ns = {"p": p, "k": P.Property(isa=int)}
        if self.r.random() < .2:
            ns = {"k": ns["k"], "p": p}
        cls = type(root)("R%d" % len(self.ds), (root,), ns)
        self.ds.append([o["type"], cls, None])

    def apply(self, op):
        CALLS[0] = 0
        what = op[0]
        if what == "declare":
            try:
                self.declare(op[1])
            except Exception as e:
                if not core.touches_code(e.__traceback__):
                    raise
                if os.environ.get("TRAITS_DEBUG"):
                    traceback.print_exc()
                return ["refused"]
            return ["ok"]
        if what == "class":
            try:
                names = op[2]
                bases = tuple(getattr(P, n, None) or getattr(PJ, n, None) or
                              getattr(PC, n) for n in names)
                type("Own" + "".join(names), bases, {})
            except Exception:
                return ["refused"]
            return ["ok"]
        try:
            res = ["ok", self.use(op)]
        except Exception as e:
            res = ["err", errkind(e)]
            if what in ("new", "from"):
                self.ds[op[1] - 1][2] = None
        if what in ("kinds", "about", "equal", "differ", "to"):
            return res
        return res + [CALLS[0]]

    def use(self, op):
        what, d = op[0], self.ds[op[1] - 1]
        t, cls, obj = d
        prop = cls.properties["p"]
        if what == "new":
            kw = {} if op[2] == "absent" else {"p": value(t, op[2])}
            d[2] = cls(**kw) if self.r.random() < .7 or \
                issubclass(cls, JsonRecord) else cls(kw)
            return "new"
        if what == "from":
            js = {op[2]: value(t, op[3])}
            if not issubclass(cls, JsonRecord):
                # what isn't known is refused there
                names = [getattr(prop, "json_name", "p")]
                js = dict((k, v) for k, v in js.items() if k in names)
                d[2] = RJ.from_json(cls, js)
            else:
                d[2] = self.r.choice([cls, cls.from_json,
                                      lambda x: RJ.from_json(cls, x)])(js)
            return "new"
        if what == "kinds":
            import normalize.property.types as T
            return [isinstance(prop, c) for c in (
                PJ.JsonProperty, P.LazyProperty, P.ROProperty, P.V1Property,
                P.DiffasProperty, PC.ListProperty, PC.DictProperty,
                T.DateProperty)]
        if what == "about":
            return [prop.name, prop.required, prop.extraneous,
                    getattr(prop, "json_name", "-")]
        if what in ("equal", "differ"):
            a, b = (cls(p=value(t, self.r.choice(x))) for x in (
                ["G", "g"] if t != "any" else ["G"], ["H"]))
            if what == "equal":
                return a == b
            return bool(a.diff(b))
        if what == "get":
            return token(t, obj.p)
        if what == "get0":
            return token(t, obj.p0)
        if what == "set":
            obj.p = value(t, op[2])
            return "done"
        if what == "del":
            del obj.p
            return "done"
        if what == "to":
            js = RJ.to_json(obj, True) if self.r.random() < .5 or not \
                isinstance(obj, JsonRecord) else obj.json_data(extraneous=True)
            for k in getattr(obj, "unknown_json_keys", None) or ():
                js.pop(k)
            if len(js) != 1:
                return ["?", sorted(js)]
            (k, v), = js.items()
            return [k, token(t, v)]
        raise ValueError(op)


# ---- processes
def option_set(r, most=4, types=("any", "int", "list", "dict", "date")):
    while True:
        o = dict((k, False) for k in FLAGS)
        o.update(type=r.choice(types), json="no")
        o["def"] = "no"
        for k in r.sample(FLAGS + ["json", "def"], r.randint(0, most)):
            o[k] = (r.choice(["name", "name", "fn"]) if k == "json" else
                    r.choice(["fun", "fun", "falsy"]) if k == "def" else True)
        if o["lazy"]:
            o["def"] = "fun"
        return o


def serve(rfd, wfd, seed):
    """child: requests and answers, one line each"""
    r = random.Random(seed)
    # what happened in this process before
    for _ in range(r.choice([0, 0, 1, 3, 8])):
        try:
            if r.random() < .15:
                Process(r).apply(own_class(r))
            Process(r).declare(option_set(r))
        except Exception:
            pass
    signal.setitimer(signal.ITIMER_REAL, 0)
    p = Process(r)
    with os.fdopen(rfd) as fin, os.fdopen(wfd, "w") as fout:
        for line in fin:
            op = json.loads(line)
            if op == ["reset"]:
                p = Process(r)
                continue
            try:
                res = p.apply(op)
            except Exception:
                res = ["crash", traceback.format_exc()]
            fout.write(json.dumps(res) + "\n")
            fout.flush()


class Child(object):
    def __init__(self, seed):
        a, b = os.pipe()
        c, d = os.pipe()
        self.pid = os.fork()
        if not self.pid:
            try:
                os.close(b)
                os.close(c)
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                serve(a, d, seed)
            finally:
                os._exit(0)
        os.close(a)
        os.close(d)
        self.out = os.fdopen(b, "w")
        self.inp = os.fdopen(c)
        self.count = 0

    def send(self, op):
        self.out.write(json.dumps(op) + "\n")
        self.out.flush()

    def ask(self, op):
        self.send(op)
        res = json.loads(self.inp.readline() or '["err", "died"]')
        if res[0] == "crash":
            raise core.SpecError(res[1])
        return res

    def close(self):
        for f in (self.out, self.inp):
            try:
                f.close()
            except OSError:
                pass
        try:
            os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)
        except OSError:
            pass


class Session(object):
    """a process; several sessions for the same configuration may be in the
    same process, one after the other"""
    child = None
    serial = 0

    def __init__(self, cfg):
        cls = Session
        ch = cls.child
        if ch is None or ch[0] != os.getpid() or ch[1] != cfg or \
                ch[2].count >= 25:
            if ch is not None and ch[0] == os.getpid():
                ch[2].close()
            cls.serial += 1
            ch = cls.child = (os.getpid(), cfg, Child("%s|%s|%d" % (
                os.environ.get("VERIF_SEED", "1"), core.key(cfg),
                cls.serial)))
        else:
            ch[2].send(["reset"])
        ch[2].count += 1
        self.child = ch[2]

    def apply(self, op):
        try:
            return self.child.ask(op)
        except core.SpecError:
            raise
        except BaseException:
            Session.child[2].close()
            Session.child = None
            raise


def history(seed, length):
    r = random.Random("T%s" % seed)
    p = Process(r)
    types = r.choice([["any", "int", "list", "dict", "date"],
                      [r.choice(["any", "int", "list", "dict", "date"])]])
    most = r.choice([2, 4, 6, 8])
    t = []
    fresh = []
    while len(t) < length:
        n = len(p.ds)
        x = r.random()
        if n == 0 or x < .25:
            op = ["declare", option_set(r, most, types)]
            if n and r.random() < .3:
                # the same options, or nearly, passed in another way
                op[1] = dict(r.choice([e["op"][1] for e in t
                                       if e["op"][0] == "declare"]))
                if r.random() < .5:
                    k = r.choice(["ro", "cmp", "chk", "req", "ext", "v1"])
                    op[1][k] = not op[1][k]
        elif x < .28:
            op = own_class(r)
        else:
            q = fresh.pop(0) if fresh else r.randint(1, n)
            op = [r.choice(["new", "new", "from", "kinds", "about", "equal",
                            "differ"] + ["get", "set", "del", "to", "get0"] *
                           (3 if p.ds[q - 1][2] is not None else 0)), q]
            if op[0] == "new":
                op.append(r.choice(TOKENS + ["g", "g", "absent", "absent"]))
            if op[0] == "from":
                op += [r.choice("Jp"), r.choice(["g", "g", "b"])]
            if op[0] == "set":
                op.append(r.choice(TOKENS))
        res = p.apply(op)
        if op[0] == "declare" and res == ["ok"]:
            fresh = [len(p.ds)] * 5
        t.append({"op": op, "res": res})
    return t


def forked(func, *args):
    """func's result, from a process of its own"""
    rfd, wfd = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(rfd)
            signal.signal(signal.SIGALRM, signal.SIG_DFL)
            signal.alarm(60)
            try:
                v = ("ok", func(*args))
            except BaseException as e:
                v = ("crash", traceback.format_exc(),
                     core.touches_code(e.__traceback__))
            with os.fdopen(wfd, "wb") as fh:
                pickle.dump(v, fh)
        finally:
            os._exit(0)
    os.close(wfd)
    with os.fdopen(rfd, "rb") as fh:
        data = fh.read()
    os.waitpid(pid, 0)
    if not data:
        return ("crash", "process died", True)
    return pickle.loads(data)


def _histories(args):
    return [forked(history, *a) for a in args]


def c05(check):
    jobs = [("%s-%d" % (check.seed, i), 45)
            for i in range(check.pick(800, 8000))]
    ts = []
    for rs in core.parallel(_histories, [jobs[i::32] for i in range(32)]):
        for v in rs:
            if v[0] == "ok":
                ts.append(v[1])
            elif v[2]:
                check.fail("a process declaring properties failed: " +
                           v[1][-600:], {"traceback": v[1]}, "process")
            else:
                raise core.SpecError(v[1])
    check.validate("TraceTraits", ts, nproc=8, label="process")
    sets = [(1, 1, "FewTokens"), (2, 99, "FewTokens")]
    if check.thorough:
        sets = [(1, 2, "FewTokens"), (3, 99, "AllTokens")]
    for most, second, toks in sets:
        check.walk("MCTraits", core.mkcfg(
            constants={"Most": most, "Second": second, "Tokens": "<- " + toks},
            invariants=["Held"], properties=["ReadOnly"]),
            Session, {"ds": [], "made": []})
