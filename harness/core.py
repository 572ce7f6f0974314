"""Shared machinery: running TLC on the specification, replaying the
specification's behaviours into the real library, and having TLC judge traces
recorded from the real library."""
import json
import multiprocessing
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
REPLAYS = os.path.join(VERIF, "replays")
TLA_JARS = ("/opt/veriftools/tla/tla2tools.jar:"
            "/opt/veriftools/tla/CommunityModules-deps.jar")
NPROC = min(8, os.cpu_count() or 1)

sys.dont_write_bytecode = True


def key(x):
    """Canonical text of a JSON value; object keys sorted (TLC may order them
    differently from Python)."""
    return json.dumps(x, sort_keys=True, separators=(",", ":"))


class SpecError(Exception):
    """The machinery itself failed (never a statement about the code)."""


class Hang(BaseException):
    pass


def _on_alarm(signum, frame):
    raise Hang("operation did not finish")


class TlcResult(object):
    def __init__(self):
        self.said = []
        self.generated = self.distinct = 0
        self.tail = []
        self.coverage = []


_STATS = re.compile(r"^(\d+) states generated, (\d+) distinct states found")
_SIMSTATS = re.compile(r"^The number of states generated: (\d+)")


def tlc(module, cfg, env=None, workers=NPROC, simulate=None, depth=None,
        seed=1, timeout=600, heap="6g", on_say=None, collect=True):
    """Run TLC on SPEC/<module>.tla with configuration text ``cfg``.
    ``simulate``: number of behaviours, for random simulation instead of
    exhaustive search."""
    scratch = tempfile.mkdtemp(prefix="nvtlc")
    try:
        for f in os.listdir(SPEC):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(SPEC, f), scratch)
        cfgpath = os.path.join(scratch, "run.cfg")
        with open(cfgpath, "w") as fh:
            fh.write(cfg)
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
               "-Djava.io.tmpdir=" + scratch,
               "-cp", TLA_JARS, "tlc2.TLC", "-workers", str(workers),
               "-metadir", os.path.join(scratch, "meta"), "-config", cfgpath,
               "-noGenerateSpecTE"]
        if simulate:
            cmd += ["-simulate", "num=%d" % simulate, "-seed", str(seed)]
            if depth:
                cmd += ["-depth", str(depth)]
        cmd.append(os.path.join(scratch, module + ".tla"))
        e = dict(os.environ)
        e.update(env or {})
        res = TlcResult()
        proc = subprocess.Popen(
            cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
            cwd=scratch, text=True, encoding="utf-8", errors="replace",
            preexec_fn=_unlimit_memory)
        watchdog = None
        import threading
        watchdog = threading.Timer(timeout, proc.kill)
        watchdog.start()
        ok = False
        try:
            for line in proc.stdout:
                if line.startswith('"@@'):
                    val = json.loads(json.loads(line)[2:])
                    if on_say:
                        on_say(val)
                    if collect:
                        res.said.append(val)
                    continue
                m = _STATS.match(line)
                if m:
                    res.generated = int(m.group(1))
                    res.distinct = int(m.group(2))
                m = _SIMSTATS.match(line)
                if m:
                    res.generated = int(m.group(1))
                if "Model checking completed. No error" in line:
                    ok = True
                if line.startswith("/\\ l = ") and line[7:].strip().isdigit():
                    res.at = int(line[7:])
                res.tail.append(line.rstrip())
                if line.startswith(("Parsing file", "Semantic proc", "Linting")):
                    res.tail.pop()
                if len(res.tail) > 80:
                    del res.tail[:20]
            rc = proc.wait()
        finally:
            watchdog.cancel()
            if proc.poll() is None:
                proc.kill()
        if simulate and rc == 0:
            ok = True
        if not ok or rc != 0:
            ex = SpecError("TLC failed on %s (rc=%s):\n%s" % (
                module, rc, "\n".join(res.tail[-40:])))
            ex.rc, ex.result = rc, res
            raise ex
        return res
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def mkcfg(init="Init", next_="Next", constants=(), invariants=(),
          properties=(), constraint=None, action_constraint=None, view=None,
          postcondition=None):
    lines = []
    if constants:
        lines.append("CONSTANTS")
        items = constants.items() if isinstance(constants, dict) else constants
        for k, v in items:
            lines.append("  %s %s" % (k, v) if str(v).startswith("<-")
                         else "  %s = %s" % (k, v))
    lines += ["INIT " + init, "NEXT " + next_, "CHECK_DEADLOCK FALSE"]
    if invariants:
        lines.append("INVARIANTS " + " ".join(invariants))
    if properties:
        lines.append("PROPERTIES " + " ".join(properties))
    if constraint:
        lines.append("CONSTRAINT " + constraint)
    if action_constraint:
        lines.append("ACTION_CONSTRAINT " + action_constraint)
    if view:
        lines.append("VIEW " + view)
    if postcondition:
        lines.append("POSTCONDITION " + postcondition)
    return "\n".join(lines) + "\n"


# ---------------------------------------------------------------------------
# the transition graph of a specification, as emitted by TLC

class Graph(object):
    """edges[cfg][pre][op] = list of (res, post), all as canonical text."""
    def __init__(self):
        self.edges = {}
        self.count = 0

    def add(self, t):
        c = key(t["c"])
        byop = self.edges.setdefault(c, {}).setdefault(key(t["pre"]), {})
        outs = byop.setdefault(key(t["op"]), [])
        o = (key(t["res"]), key(t["post"]))
        if o not in outs:
            outs.append(o)
            self.count += 1


class Failure(object):
    def __init__(self, what, case, fkey=None):
        self.what = what
        self.case = case
        self.key = fkey or key(case)


_HUNG = multiprocessing.Value("i", 0)      # shared with the workers


def _hung():
    with _HUNG.get_lock():
        _HUNG.value += 1


def limit_memory(extra=2 << 30):
    """What the library allocates without end becomes a MemoryError in the
    worker that replays it (an observation), not the end of the check."""
    with open("/proc/self/statm") as fh:
        size = int(fh.read().split()[0]) * resource.getpagesize()
    soft, hard = resource.getrlimit(resource.RLIMIT_AS)
    resource.setrlimit(resource.RLIMIT_AS, (size + extra, hard))


def _unlimit_memory():
    hard = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (hard, hard))


def ran_away(res):
    return isinstance(res, list) and res[:1] == ["err"] and res[1:2] in (["hang"], ["memory"])


def run_op(session, op, limit=15):
    """One call into the real library, with a time limit (shorter once a few
    operations have hit it); the session maps exceptions to results itself."""
    signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit if _HUNG.value < 2 else
                     1.5 if _HUNG.value < 9 else .3, 1)
    try:
        r = session.apply(op)
        if isinstance(r, list) and r[:1] == ["err"] and (
                "MemoryError" in str(r[1:])):
            r = ["err", "memory"]
            _hung()
        return r
    except Hang:
        _hung()
        return ["err", "hang"]
    except Exception as e:     # unexpected: an observation, not a crash
        if isinstance(e, MemoryError):
            _hung()
            return ["err", "memory"]
        return ["err", "unexpected:" + type(e).__name__]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def _replay_seq(make, cfg, init, graph, ops):
    """Replay ``ops`` (canonical text) on a fresh session; returns None or a
    Failure, plus the set of specification states still possible."""
    sess = make(json.loads(cfg))
    belief = {init}
    done = []
    for op in ops:
        if any(op not in graph.get(b, ()) for b in belief):
            return None, None
        allowed = [(b, o) for b in belief for o in graph[b][op]]
        res = key(run_op(sess, json.loads(op)))
        done.append(json.loads(op))
        nxt = {o[1] for b, o in allowed if o[0] == res}
        if not nxt:
            want = sorted({o[0] for b, o in allowed})
            return Failure(
                "cfg %s: after %s the specification allows %s but the code gives %s"
                % (cfg, key(done), want, res),
                {"cfg": json.loads(cfg), "ops": done,
                 "expected": [json.loads(w) for w in want],
                 "got": json.loads(res)}), None
        belief = nxt
    return None, belief


def _walk_cfg(make, cfg, graph, init, probes, walks, walklen, seed, maxfail=3):
    """Replay every transition of one configuration's graph, each on a fresh
    object reached by the shortest behaviour, followed by the probes; then
    ``walks`` random behaviours."""
    fails = []
    n = 0
    paths = {init: []}
    order = [init]
    for s in order:
        for op, outs in graph.get(s, {}).items():
            for res, post in outs:
                if post not in paths:
                    paths[post] = paths[s] + [op]
                    if post in graph:
                        order.append(post)
    seen = set()
    for s in order:
        for op in graph.get(s, {}):
            f, belief = _replay_seq(make, cfg, init, graph,
                                    paths[s] + [op] + probes)
            if belief is None and f is None:
                # a probe was not enabled there: replay without probes
                f, belief = _replay_seq(make, cfg, init, graph,
                                        paths[s] + [op])
            n += 1
            if f is not None and f.key not in seen:
                seen.add(f.key)
                fails.append(f)
                if len(fails) >= maxfail or _HUNG.value > 2:
                    return fails, n
    rnd = random.Random("%s|%s" % (seed, cfg))
    for _ in range(walks):
        sess = make(json.loads(cfg))
        belief = {init}
        done = []
        for _ in range(walklen):
            cands = sorted(set.intersection(
                *[set(graph.get(b, ())) for b in belief]))
            if not cands:
                break
            op = rnd.choice(cands)
            res = key(run_op(sess, json.loads(op)))
            done.append(json.loads(op))
            nxt = {o[1] for b in belief for o in graph[b][op] if o[0] == res}
            if not nxt:
                want = sorted({o[0] for b in belief for o in graph[b][op]})
                fails.append(Failure(
                    "cfg %s: after %s the specification allows %s but the code gives "
                    "%s" % (cfg, key(done), want, res),
                    {"cfg": json.loads(cfg), "ops": done,
                     "expected": [json.loads(w) for w in want],
                     "got": json.loads(res)}))
                break
            belief = nxt
        n += 1
        if len(fails) >= maxfail or _HUNG.value > 2:
            break
    return fails, n


def _edge_worker(args):
    i, n = args
    out = []
    count = 0
    try:
        for c, pre, op, outs in _WORK["cases"][i::n]:
            count += 1
            case = {"cfg": json.loads(c), "pre": json.loads(pre),
                    "op": json.loads(op)}
            try:
                sess = (_WORK["session"](json.loads(pre)) if c == "0" else
                        _WORK["session"](json.loads(pre), json.loads(c)))
                res = run_op(sess, json.loads(op))
                post = sess.project()
            except Exception as e:
                if not touches_code(e.__traceback__) and \
                        not isinstance(e, MemoryError):
                    raise
                out.append(("cannot set up or observe %s: %r" % (pre, e),
                            case, key(case)))
                continue
            # the session may have tried several ways of asking the same thing
            for res in [res] + list(getattr(sess, "others", ())):
                got = (key(res), key(post))
                if got not in outs:
                    break
            if got not in outs:
                case["got"] = [res, post]
                case["expected"] = [[json.loads(a), json.loads(b)]
                                    for a, b in outs]
                what = "in %s, %s gives %s" % (pre, op, got[0])
                if any(o[0] == got[0] for o in outs):
                    what += " leaving %s; specification: %s" % (
                        got[1], sorted(o[1] for o in outs if o[0] == got[0]))
                else:
                    what += "; specification: %s" % sorted(o[0] for o in outs)
                out.append((what, case, key([json.loads(c), json.loads(pre),
                                             json.loads(op)])))
                if len(out) > 20 or _HUNG.value > 2:
                    break
    except Exception:
        return ("crash", traceback.format_exc())
    return ("ok", out, count)


_WORK = {}


def _worker(args):
    cfgs, = args
    w = _WORK
    out = []
    n = 0
    for cfg in cfgs:
        try:
            f, k = _walk_cfg(w["make"], cfg, w["graph"][cfg],
                             w["init"](cfg), w["probes"], w["walks"],
                             w["walklen"], w["seed"])
        except Exception as e:
            if touches_code(e.__traceback__) or isinstance(e, MemoryError):
                f, k = [Failure("configuration cannot be set up: %r" % e,
                                {"cfg": json.loads(cfg),
                                 "ops": [], "got": repr(e)})], 1
            else:
                return ("crash", traceback.format_exc())
        out += [(x.what, x.case, x.key) for x in f]
        n += k
        if len(out) > 20 or out and _HUNG.value > 2:
            break
    return ("ok", out, n)


def touches_code(tb):
    root = os.path.realpath(REPO)
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(root):
            return True
        tb = tb.tb_next
    return False


def parallel(func, jobs):
    """Run func over jobs in forked workers (state inherited by fork)."""
    if len(jobs) <= 1:
        return [func(j) for j in jobs]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(min(NPROC, len(jobs)), limit_memory) as pool:
        return pool.map(func, jobs, chunksize=1)


class Check(object):
    level = "model_checking"

    def __init__(self, pid, tier, seed):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.validated = 0
        self.samples = []
        self.failures = []
        self.assumptions = []
        self.extra = {}
        self.ops = {}
        self.known = load_known(pid)

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- specification -> code
    def model(self, module, cfg, **kw):
        kw.setdefault("seed", self.seed)
        r = tlc(module, cfg, **kw)
        self.states += r.distinct or r.generated
        self.transitions += r.generated
        return r

    def walk(self, module, cfg, make, init, probes=(), walks=0, walklen=0,
             **kw):
        g = Graph()
        self.model(module, cfg, on_say=g.add, collect=False, **kw)
        if not g.count:
            raise SpecError("%s emitted no transitions" % module)
        self.sample_graph(g)
        return self.walk_graph(g, make, init, probes, walks, walklen)

    def sample_graph(self, g):
        for c in list(g.edges)[:2]:
            for pre in list(g.edges[c])[:2]:
                for op in list(g.edges[c][pre])[:2]:
                    self.samples.append(
                        "spec transition cfg=%s pre=%s op=%s allowed=%s" % (
                            c, pre, op, g.edges[c][pre][op]))

    def count(self, op, res):
        k = "%s: %s" % (op[0] if isinstance(op, list) else op,
                        res[0] if isinstance(res, list) and res else res)
        if isinstance(res, list) and res[:1] == ["err"] and len(res) > 1 \
                and isinstance(res[1], str):
            k += " " + res[1]
        self.ops[k[:60]] = self.ops.get(k[:60], 0) + 1

    def count_graph(self, g):
        for ps in g.edges.values():
            for ops in ps.values():
                for op, outs in ops.items():
                    for res, _ in outs[:1]:
                        self.count(json.loads(op), json.loads(res))

    def walk_graph(self, g, make, init, probes=(), walks=0, walklen=0):
        self.count_graph(g)
        cfgs = sorted(g.edges)
        random.Random(self.seed).shuffle(cfgs)
        probes = [key(p) for p in probes]
        initf = init if callable(init) else (lambda c, i=key(init): i)
        _WORK.update(make=make, graph=g.edges, init=initf, probes=probes,
                     walks=walks, walklen=walklen, seed=self.seed)
        njobs = min(len(cfgs), NPROC * 4)
        jobs = [(cfgs[i::njobs],) for i in range(njobs)]
        for r in parallel(_worker, jobs):
            if r[0] == "crash":
                raise SpecError("harness crashed:\n" + r[1])
            for what, case, k in r[1]:
                self.fail(what, case, k)
            self.validated += r[2]
        return g

    def edges(self, module, cfg, session, canon=None, **kw):
        """As walk, for specifications whose states can be constructed
        directly: each transition is replayed on session(pre), and
        session.project() compared with the state after it.  canon puts what
        has no order into one."""
        g = Graph()
        self.model(module, cfg, on_say=(lambda t: g.add(canon(t))) if canon
                   else g.add, collect=False, **kw)
        if not g.count:
            raise SpecError("%s emitted no transitions" % module)
        self.sample_graph(g)
        self.count_graph(g)
        cases = [(c, pre, op, outs) for c, ps in g.edges.items()
                 for pre, ops in ps.items() for op, outs in ops.items()]
        cases.sort()
        _WORK.update(session=session, cases=cases)
        n = min(len(cases), NPROC * 4)
        for r in parallel(_edge_worker, [(i, n) for i in range(n)]):
            if r[0] == "crash":
                raise SpecError("harness crashed:\n" + r[1])
            for what, case, k in r[1]:
                self.fail(what, case, k)
            self.validated += r[2]
        return g

    # -- code -> specification
    def validate(self, module, traces, constants=(), env=None, nproc=None,
                 label="trace"):
        """traces: list of lists of events (JSON-able dicts).  Each trace is
        judged by TLC against the trace specification, which says one verdict
        per rejected trace: {"t": index, "l": event number, "why": ...}."""
        traces = [t for t in traces if t]
        if not traces:
            return
        n = nproc or min(4, max(1, len(traces) // 50))
        chunks = [list(range(i, len(traces), n)) for i in range(n)]
        _WORK.update(v=(module, traces, constants, env or {}))
        results = parallel(_validate_worker, [(c,) for c in chunks])
        for r in results:
            if r[0] == "crash":
                raise SpecError(r[1])
            _, verdicts, gen, distinct = r
            self.states += distinct
            self.transitions += gen
            for ti, l, why in verdicts:
                ev = traces[ti]
                self.fail(
                    "%s rejected at event %d: %s; specification says %s" % (
                        label, l, key(ev[l - 1])[:600], key(why)[:600]),
                    {"module": module, "trace": ev[:l], "why": why},
                    key([module, ev[l - 1]]))
        self.validated += len(traces)
        for t in traces:
            for e in t:
                self.count(e.get("op"), e.get("res"))
        for t in traces[:2]:
            self.samples.append("recorded %s: %s" % (label, key(t)[:700]))

    # -- verdicts
    def fail(self, what, case, fkey=None):
        fkey = fkey or key(case)
        if any(f.key == fkey for f in self.failures):
            return
        self.failures.append(Failure(what, case, fkey))

    def finish(self):
        new = []
        shown = set()
        for f in self.failures:
            k = match_known(self.known, f)
            if k is None:
                new.append(f)
            elif k["id"] not in shown:
                shown.add(k["id"])
                print("KNOWN-FINDING: property=%s %s" % (self.pid, k["what"]))
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.validated,
                   samples=self.samples[:12])
        if self.ops:
            cov["operations"] = dict(sorted(self.ops.items()))
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level=self.level, coverage=cov,
                  assumptions=self.assumptions,
                  wall_s=round(time.time() - self.t0, 2),
                  violations=len(new))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"),
                  "w") as fh:
            json.dump(ev, fh, indent=1)
            fh.write("\n")
        print("%s tier=%s states=%d transitions=%d validated=%d "
              "failures=%d known=%d wall=%.1fs" % (
                  self.pid, self.tier, self.states, self.transitions,
                  self.validated, len(new), len(shown),
                  time.time() - self.t0))
        if not new:
            return 0
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s.json" % self.pid)
        with open(path, "w") as fh:
            json.dump([dict(what=f.what, case=f.case, key=f.key)
                       for f in new[:50]], fh, indent=1)
        for f in new[:5]:
            print("  " + f.what[:1200])
        print("VIOLATION property=%s replay=%s" % (self.pid, path))
        return 1


def _validate_worker(args):
    idxs, = args
    module, traces, constants, env = _WORK["v"]
    fd, path = tempfile.mkstemp(suffix=".ndjson", prefix="nvtrace")
    total = 0
    where = []
    with os.fdopen(fd, "w") as fh:
        for ti in idxs:
            for i, ev in enumerate(traces[ti]):
                e = dict(ev)
                e["t"] = ti
                e["n"] = i + 1
                e["first"] = i == 0
                fh.write(json.dumps(plain(e)) + "\n")
                where.append((ti, i + 1))
                total += 1
    try:
        e = dict(env)
        e["TRACE"] = path
        r = tlc(module, mkcfg(init="TInit", next_="TNext",
                              constants=constants),
                env=e, workers=1, heap="3g", timeout=800)
        verdicts = []
        done = None
        for v in r.said:
            if "consumed" in v:
                done = v["consumed"]
            else:
                verdicts.append((v["t"], v["l"], v["why"]))
        if done != total:
            return ("crash", "trace of %d events: only %s consumed by %s"
                    % (total, done, module))
        return ("ok", verdicts, r.generated, r.distinct)
    except SpecError as ex:
        r = getattr(ex, "result", None)
        if r and ex.rc == 75 and getattr(r, "at", None) in range(total):
            # what was recorded is nothing that the specification knows
            return ("ok", [(v["t"], v["l"], v["why"]) for v in r.said
                           if "consumed" not in v] +
                    [where[r.at] + ("not a value of the specification: " +
                                    str(ex)[:300],)],
                    r.generated, r.distinct)
        return ("crash", str(ex))
    finally:
        os.unlink(path)


def plain(x):
    """x, with what TLC's JSON reader refuses as text"""
    if isinstance(x, dict):
        return dict((k, plain(v)) for k, v in x.items())
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, float) or (
            isinstance(x, int) and not -2 ** 31 <= x < 2 ** 31):
        return repr(x)
    return x


KNOWN = os.path.join(VERIF, "KNOWN_FINDINGS.jsonl")


def load_known(pid):
    out = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as fh:
            for line in fh:
                line = line.strip()
                if not line:
                    continue
                e = json.loads(line)
                if e.get("status") == "known" and e["property"] == pid:
                    out.append(e)
    return out


def match_known(known, f):
    for e in known:
        if f.key in e.get("keys", ()):
            return e
    return None


def guard(make):
    """Run a driver step that calls the real code: an exception escaping from
    the library is an observation."""
    try:
        return ("ok", make())
    except Exception as e:
        return ("err", type(e).__name__)
