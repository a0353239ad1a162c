"""C18: documents chained into one behave as the documents run one after the other.

The members and the chain are generated; the chain is made by titus.producer.chain and runs as a real engine; the
reference composes one reference model per member: the output of each goes into the next, an emitted value inside
the call that emits it, and one call of the chain is one call: one count of actions, one time limit, one rollback."""
import copy
import json

from .. import core
from ..gen import minipfa
from ..refpfa import Ref, Env, Err
from ..world import titus
from . import history
from .history import Focus, J


class Member(Ref):
    """One document of the chain, evaluated as a part of the whole."""

    def __init__(self, top, i, doc):
        Ref.__init__(self, doc)
        self.top, self.i = top, i

    def hit(self, name):
        self.top.hit(name)

    def point(self):
        self.top.point()

    def check_time(self):
        self.top.check_time()

    def _symbols(self, env, counters):
        self.top._symbols(env, counters)

    def emit(self, v):
        self.top.pass_on(self.i, v)

    def log(self, vals, ns):
        self.top.log(vals, ns)


class Chain(Ref):
    def __init__(self, case):
        self.members = []
        Ref.__init__(self, case["chain"], case.get("options"))
        self.members = [Member(self, i, d) for i, d in enumerate(case["doc"]["steps"])]
        self.method = case["doc"]["method"]

    def clone(self):
        c = Ref.clone(self)
        c.members = []
        for m in self.members:
            k = m.clone()
            k.top = c
            c.members.append(k)
        return c

    def _part(self, what):
        return {"%d:%s" % (m.i, n): v for m in self.members for n, v in getattr(m, what).items()}

    def _set_part(self, what, flat):
        for m in self.members:
            setattr(m, what, {n: flat["%d:%s" % (m.i, n)] for n in getattr(m, what)})

    cells = property(lambda self: self._part("cells"), lambda self, flat: self._set_part("cells", flat))
    pools = property(lambda self: self._part("pools"), lambda self, flat: self._set_part("pools", flat))

    def _guarded(self, fn):
        """One call of the chain: whatever fails, the cells and pools of every member that asked for it are restored."""
        keep = []
        for m in self.members:
            keep.append(({n: m.cells[n] for n, c in m.doc.get("cells", {}).items() if c.get("rollback")},
                         {n: dict(m.pools[n]) for n, c in m.doc.get("pools", {}).items() if c.get("rollback")}))
        try:
            return fn()
        except Err:
            for m, (bc, bp) in zip(self.members, keep):
                m.cells.update(bc)
                m.pools.update(bp)
                if bc or bp:
                    self.hit("rolled_back")
            raise

    def step(self, i, inp):
        m = self.members[i]
        self.hit("step%d" % i)
        env = Env()
        env.vars["input"] = inp
        self._symbols(env, True)
        last = m.block(m.doc["action"], env)
        if m.method == "map":
            if self.method == "emit":
                self.pass_on(i, last)
            elif i + 1 < len(self.members):
                return self.step(i + 1, last)
        return last

    def pass_on(self, i, v):
        if i + 1 < len(self.members):
            self.step(i + 1, v)
        else:
            Ref.emit(self, v)

    def begin(self):
        self.timeout = self.limits["begin"]
        self.t0 = self.now()
        self.everyone("begin", False)

    def end(self):
        self.timeout = self.limits["end"]
        self.t0 = self.now()
        self.everyone("end", True)

    def everyone(self, part, counters):
        for m in self.members:
            if m.doc.get(part):
                env = Env()
                self._symbols(env, counters)
                m.block(m.doc[part], env)

    def action(self, inp):
        self.timeout = self.limits["action"]
        self.t0 = self.now()
        self.started += 1

        def body():
            last = self.step(0, inp)
            self.finished += 1
            return None if self.method == "emit" else last
        return self._guarded(body)


def names(case, kind, present):
    """Which cell (or pool) of the chain is which member's: by member and by name, whatever the prefix looks like."""
    out = {}
    taken = set()
    for i, d in enumerate(case["doc"]["steps"]):
        for n in d.get(kind, {}):
            tail = d["name"] + "_" + n
            found = sorted((p for p in present if p not in taken and p.endswith(tail) and str(i + 1) in p[:-len(tail)]), key=len)
            if not found:
                return None, "%s %s of step %d is not in the chain, which has %s" % (kind[:-1], n, i + 1, sorted(present))
            taken.add(found[0])
            out["%d:%s" % (i, n)] = found[0]
    return out, None


class Focus18(Focus):
    def route(self, T, case):
        """-> the chain, as something fromJson takes, or a function making engines"""
        import titus.producer.chain as chain
        from titus.reader import jsonToAst
        steps = copy.deepcopy(case["doc"]["steps"])
        if case["given"] == "text":
            steps = [json.dumps(s) for s in steps]
        elif case["given"] == "ast":
            steps = [jsonToAst(s) for s in steps]
        before = [s if isinstance(s, str) else J(s) if isinstance(s, dict) else s.toJson(lineNumbers=False) for s in steps]
        kw = copy.deepcopy(case["chain"])
        if case["route"] == "engine":
            f = lambda n: chain.engine(steps, multiplicity=n, **dict(kw, options=dict(kw.get("options", {}), **case.get("options", {}))))
        elif case["route"] == "ast":
            a = chain.ast(steps, check=case["check"], **kw)
            f = lambda n: T.PFAEngine.fromAst(a, options=case.get("options"), multiplicity=n)
        elif case["route"] == "jsonNode":
            a = chain.jsonNode(steps, lineNumbers=False, check=case["check"], **kw)
            f = lambda n: T.PFAEngine.fromJson(json.loads(json.dumps(a)), options=case.get("options"), multiplicity=n)
        else:
            a = chain.json(steps, lineNumbers=False, check=case["check"], **kw)
            f = lambda n: T.PFAEngine.fromJson(a, options=case.get("options"), multiplicity=n)
        return f, lambda: [s if isinstance(s, str) else J(s) if isinstance(s, dict) else s.toJson(lineNumbers=False) for s in steps] == before

    def load(self, T, case, n):
        f, same = self.route(T, case)
        out = f(n)
        if not same():
            raise Changed("chaining changed the documents it was given")
        return out

    def reference(self, case):
        return Chain(case)

    def state(self, case):
        maps = {}

        def read(eng):
            s = history.private_state(eng)
            out = {}
            for kind in ("cells", "pools"):
                if kind not in maps:
                    maps[kind], why = names(case, kind, set(s[kind]))
                    if why:
                        raise Changed(why)
                out[kind] = {k: s[kind].get(v) for k, v in maps[kind].items()}
            return out
        return read

    def nontrivial(self, probe, faults):
        return probe.get("model:step1", 0) > 0


class Changed(Exception):
    pass


FOCUS = Focus18("C18")


def execute(case):
    try:
        return history.execute(case, FOCUS)
    except Changed as err:
        what, msg = "chain", str(err)
    except Exception as err:
        if type(err).__module__.split(".")[0] not in ("titus", "builtins"):
            raise
        for d in case["doc"]["steps"]:
            try:
                fits(d)
            except Exception:
                return nothing("unfit")
        what, msg = "refused", "chaining documents that fit failed: %s: %s" % (type(err).__name__, str(err)[:600])
    return dict(nothing(what), violation={"kind": what, "msg": msg})


def nothing(what):
    return {"violation": None, "probe": {what: 1}, "faults": {}, "sig": [what], "result": [what], "events": 0, "sim_time": 0.0, "ops": 0, "nontrivial": False}


NAMES = ["A", "B", "A", "A_1", "Doc", "step1_A", "B_c0"]


def fits(doc):
    with core.virtual_time():
        titus().PFAEngine.fromJson(copy.deepcopy(doc))


def generate(rng, tier):
    k = rng.choice([2, 2, 2, 3, 3, 4])
    two = rng.random() < 0.3
    types = [rng.choice(["In", "In", "In", "Rec", "int", "arr", "ropt"] + ["Two", "Two"] * two)]
    for i in range(k):
        types.append(rng.choice(["int", "Rec", "Rec", "arr", "map", "string", "opt", "ropt", "ropt", "In"] + ["Two", "Two"] * two))
    allmap = rng.random() < 0.5
    steps = []
    versioned = rng.random() < 0.3
    for i in range(k):
        prof = dict(method="map" if allmap or rng.random() < 0.4 else "emit", input=types[i], output=types[i + 1], ropt=rng.random() < 0.7, two=two or rng.random() < 0.15,
                    begin_emit=False, p_hide=0.08, stmts=rng.choice([(1, 2), (1, 3), (2, 4)]), depth=rng.choice([1, 2, 2, 3]), versioned=0.5 if versioned else 0,
                    w_error=rng.choice([0.1, 0.3, 1.0]), p_fail=rng.choice([0.05, 0.25]), p_rollback=rng.choice([0.2, 0.6]), w_emit=rng.choice([1.0, 2.0]))
        d = minipfa.Gen(rng, **prof).document()
        d["name"] = rng.choice(NAMES)
        steps.append(d)
    chain = {}
    if rng.random() < 0.4:
        chain["name"] = rng.choice(["Chain", "A"])
    else:
        chain["name"] = "Chain_" + "_".join(d["name"] for d in steps)
    if versioned:
        chain["version"] = rng.randint(1, 9)
    if rng.random() < 0.6:
        chain["metadata"] = {n: v for d in steps for n, v in d["metadata"].items() if rng.random() < 0.9}
    ne = rng.choice([1, 1, 1, 2])
    doc = {"steps": steps, "method": "emit" if any(d["method"] == "emit" for d in steps) else "map"}
    ops = minipfa.history(rng, dict(steps[0], method=doc["method"]), rng.choice([2, 4, 6, 9]), ne, {"begin": 0.0, "save": 0.5, "crash": 0.4})
    out = []
    for o in ops:
        if o["op"] == "action":
            o["input"] = minipfa.value(rng, types[0])
        elif o["op"] == "bad":
            o["input"] = {"bogus": [None]}
        out.append(o)
        if o["op"] == "crash":
            out.append({"op": "begin", "e": o["e"]})
    ops = [{"op": "begin", "e": e} for e in range(ne)] + out
    case = {"doc": doc, "chain": chain, "ops": ops, "engines": ne, "entropy": rng.getrandbits(32),
            "given": rng.choice(["dict", "text", "ast"]), "route": rng.choice(["engine", "ast", "jsonNode", "json"]), "check": rng.random() < 0.5}
    callers = [o for o in ops if o["op"] in ("action", "end")]
    if callers and rng.random() < 0.25:
        for o in rng.sample(callers, min(len(callers), rng.choice([1, 2]))):
            o["exc"] = {"nth": rng.choice([1, 2, 3, 5, 8, 13, 20, 30]), "exc": rng.choice(history.EXCS + history.INTERRUPTS)}
    if callers and rng.random() < 0.4:
        for o in rng.sample(callers, min(len(callers), rng.choice([1, 2, 3]))):
            if "exc" not in o:
                o["cb"] = {"kind": rng.choice(["emit", "log"]), "at": rng.choice([1, 1, 2, 3])}
    if rng.random() < 0.2:
        lim = rng.choice([50, 200])
        if rng.random() < 0.5:
            case["options"] = {"timeout": lim}
        else:
            chain["options"] = {"timeout": lim}
        for o in callers:
            if rng.random() < 0.7:
                o["dts"] = [rng.choice([0.0, lim / 3.7 + 0.0371, lim / 1.9 + 0.0193, lim * 1.13]) for _ in range(rng.randint(1, 4))]
    return case


def shrink(case):
    n = len(case["ops"])
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            c = copy.deepcopy(case)
            cut = [o for o in c["ops"][i:i + size] if o["op"] != "begin"]
            c["ops"] = [o for o in c["ops"] if not any(o is x for x in cut)]
            if cut:
                yield c
    for i, op in enumerate(case["ops"]):
        for f in ("cb", "exc", "dts"):
            if f in op:
                c = copy.deepcopy(case)
                del c["ops"][i][f]
                yield c
    for i, d in enumerate(case["doc"]["steps"]):
        for s in history.shrink_doc({"doc": d}):
            c = copy.deepcopy(case)
            c["doc"]["steps"][i] = s["doc"]
            yield c


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 2200, "budget": 45, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="two to four documents that fit are chained and driven through a history; non-trivial: at least one value reached the second document; distinct = distinct (call outcome sequence, results) pairs",
                MEASURE="hash of the sequence of (call, engine, outcome, number of emits and logs, fault fired)",
                REAL=["titus.producer.chain", "titus reader, type checker, code generator", "generated engine code", "titus runtime and library functions"],
                STUB=["emit and log consumers", "clocks", "entropy", "allocation failures and interrupts (exceptions raised at chosen calls)"],
                ASSUMPTIONS=["the reference model covers the generated subset of PFA; one reference model per member, composed",
                             "names of record types inside the chain are not compared, values are", "begin is called before the first action"])
