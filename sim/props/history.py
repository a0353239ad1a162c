"""One document, one or several engines, a history of calls with faults, checked call by call against
the reference model.  C04, C07, C08, C09, C17 and C20 are views of this harness: the same executor, with
different workloads, fault kinds and different parts of the comparison."""
import copy
import json

from .. import core
from ..gen import minipfa
from ..refpfa import Ref, Err, TooLong
from ..world import titus, classify, CallbackError


def J(x):
    return json.dumps(x, sort_keys=True, default=repr)


RECORDS = ("Rec", "In", "Two")


def untagged(x):
    """A member of a union with and without its tag is the same value."""
    if isinstance(x, dict):
        if len(x) == 1:
            (k, v), = x.items()
            if k == "int" and isinstance(v, int) or isinstance(v, dict) and (k in RECORDS or k[:4] == "Step" and k.split("_")[-1] in RECORDS):
                return untagged(v)
        return {k: untagged(v) for k, v in x.items()}
    if isinstance(x, list):
        return [untagged(v) for v in x]
    return x


def outcome_ref(ref, fn, op):
    """Run one call on the reference model; emits/logs of this call, result, faults by callback."""
    ref.emits, ref.logs = [], []
    ref.npoint = 0
    ref.steps = 0
    cb = op.get("cb")
    dts = op.get("dts") or []
    clock = {"now": op.get("t0", 0.0), "n": 0}
    ref.now = lambda: clock["now"]
    count = {"emit": 0, "log": 0}

    def callback(kind):
        if dts:
            clock["now"] += dts[clock["n"] % len(dts)] / 1000.0
            clock["n"] += 1
        count[kind] += 1
        if cb and cb["kind"] == kind and count[kind] == cb["at"]:
            ref.hit("callback_failed")
            raise Err("callback")
    ref.cb_emit = lambda v: callback("emit")
    ref.cb_log = lambda v, ns: callback("log")
    try:
        r = ["ok", fn(ref)]
    except Err as e:
        r = ["err", e.kind, e.code]
    return {"r": r, "emits": list(ref.emits), "logs": [[ns, v] for ns, v in ref.logs],
            "state": {"cells": dict(ref.cells), "pools": {k: dict(v) for k, v in ref.pools.items()}},
            "counters": [ref.started, ref.finished]}


PARTS = ("r", "emits", "logs", "state", "counters")


def diff(a, b):
    return [p for p in PARTS if J(untagged(a[p])) != J(untagged(b[p]))]


class Watch(object):
    """Values that crossed the API: none of them may change afterwards."""

    def __init__(self):
        self.items = []

    def add(self, label, obj):
        if isinstance(obj, (dict, list)):
            self.items.append((label, obj, J(obj)))

    def changed(self):
        for label, obj, txt in self.items:
            if J(obj) != txt:
                return "%s was %s and became %s" % (label, txt, J(obj))
        return None


def private_state(eng):
    snap = eng.snapshot()
    return {"cells": {n: c.initJsonNode for n, c in snap.cells.items()},
            "pools": {n: dict(c.initJsonNode) for n, c in snap.pools.items()}}


class Engine(object):
    """A titus engine whose emit and log consumers belong to the simulator."""

    def __init__(self, eng, watch, state=None):
        self.eng = eng
        self.read = state or private_state
        self.watch = watch
        self.op = {}
        self.hook = None
        self.gen = 0
        self.emits, self.logs = [], []
        self.n = 0
        self.count = {"emit": 0, "log": 0}
        self.attach()

    def attach(self):
        """Install new consumers; a value that still reaches an old one is recorded as such."""
        self.gen += 1
        gen = self.gen

        def emit(value):
            if gen != self.gen:
                self.emits.append(["reached a replaced consumer", copy.deepcopy(value)])
            else:
                self.emit(value)

        def log(message, namespace):
            if gen != self.gen:
                self.logs.append(["reached a replaced consumer", copy.deepcopy(message)])
            else:
                self.log(message, namespace)
        self.eng.emit = emit
        self.eng.log = log

    def start(self, op):
        self.op = op
        self.emits, self.logs = [], []
        self.n = 0
        self.count = {"emit": 0, "log": 0}
        self.cb_fired = False

    def callback(self, kind):
        if not self.op:
            return
        dts = self.op.get("dts")
        if dts:
            core.CLOCK.advance(dts[self.n % len(dts)] / 1000.0)
        jumps = self.op.get("jumps")
        if jumps:
            core.CLOCK.jump_wall(jumps[self.n % len(jumps)])
        self.n += 1
        self.count[kind] += 1
        if self.hook is not None:
            self.hook(kind, self.n)
        cb = self.op.get("cb")
        if cb and cb["kind"] == kind and self.count[kind] == cb["at"]:
            self.cb_fired = True
            raise CallbackError("consumer failed")

    def emit(self, value):
        self.emits.append(copy.deepcopy(value))
        self.watch.add("an emitted value", value)
        self.callback("emit")

    def log(self, message, namespace):
        self.logs.append([namespace, copy.deepcopy(message)])
        for m in message:
            self.watch.add("a logged value", m)
        self.callback("log")

    def state(self):
        return self.read(self.eng)

    def run(self, fn, op, jumps=None):
        self.start(op)
        faults = core.CallFaults(op["exc"]["nth"], op["exc"]["exc"]) if op.get("exc") else None
        try:
            if faults:
                with faults:
                    v = fn(self.eng)
            else:
                v = fn(self.eng)
            self.watch.add("a result", v)
            r = ["ok", copy.deepcopy(v)]
        except (Exception, KeyboardInterrupt, SystemExit) as err:
            r = classify(err)
        self.fault_fired = bool(faults and faults.fired)
        self.op = {}
        return {"r": r, "emits": self.emits, "logs": self.logs, "state": self.state(),
                "counters": [self.eng.actionsStarted, self.eng.actionsFinished]}


def call_of(op, doc, on_ref, ref):
    """The call this operation makes, on the reference or on an engine."""
    k = op["op"]
    if k == "action":
        inp = copy.deepcopy(op["input"])
        return lambda e: e.action(inp)
    if k == "begin":
        return lambda e: e.begin() and None
    if k == "end":
        return lambda e: e.end() and None
    if k == "merge":
        one = copy.deepcopy(ref.tally if op["one"] == "tally" else op["a"])
        two = copy.deepcopy(op["b"])
        return lambda e: e.merge(one, two)
    raise KeyError(k)


def matches(ref, fn, op, obs, timeouts):
    """Does some allowed behaviour of the reference explain obs?  -> (ref after, outcome) or None, and the plain outcome"""
    m = ref.clone()
    plain = outcome_ref(m, fn, op)
    n = m.npoint
    if not op.get("exc_fired"):
        if not diff(plain, obs):
            return m, plain
        if timeouts:
            # a timeout may be noticed earlier, between the deadline and the next loop iteration
            for k in range(1, n + 1):
                c = ref.clone()
                c.eager_at = k
                c.eager_valid = False
                o = outcome_ref(c, fn, op)
                if c.eager_valid and not diff(o, obs):
                    c.eager_at = None
                    return c, o
        return None, plain
    # an injected fault may have hit anywhere in the evaluation
    k = 1
    while k <= n:
        c = ref.clone()
        c.interrupt = op["exc"]["exc"] in INTERRUPTS
        c.fault_at = k
        c.fault_fired = False
        o = outcome_ref(c, fn, op)
        c.fault_at = None
        if c.fault_fired and not diff(o, obs):
            return c, o
        k += 1
    if not diff(plain, obs):
        return m, plain
    return None, plain


def execute(case, focus):
    T = titus()
    core.begin_case(case["entropy"])
    doc = case["doc"]
    ne = case.get("engines", 1)
    probe, faults = {}, {}

    def hit(n, k=1):
        probe[n] = probe.get(n, 0) + k

    def fault(n, k=1):
        faults[n] = faults.get(n, 0) + k
    sig, results = [], []
    violation = None
    watch = Watch()
    with core.virtual_time():
        engines = [Engine(e, watch, focus.state(case)) for e in focus.load(T, case, ne)]
        refs = []
        for i in range(ne):
            r = focus.reference(case)
            r.instance = i
            refs.append(r)
        failed_before = [False] * ne
        saved = [None] * ne
        for j, op0 in enumerate(case["ops"]):
            i = op0["e"]
            e, ref = engines[i], refs[i]
            k = op0["op"]
            op = dict(op0)
            if k == "idle":
                core.CLOCK.advance(op["dt"])
                core.CLOCK.jump_wall(op.get("jump", 0.0))
                fault("clock_jump")
                continue
            if k == "swap":
                e.attach()
                hit("consumer_replaced")
                continue
            if k == "bad":
                before = e.state()
                cnt = [e.eng.actionsStarted, e.eng.actionsFinished]
                e.start({})
                inp = copy.deepcopy(op["input"])
                txt = J(inp)
                try:
                    e.eng.action(inp)
                    r = ["ok"]
                except Exception as err:
                    r = ["err", "rejected"]
                obs = {"r": r, "emits": e.emits, "logs": e.logs, "state": e.state(), "counters": [e.eng.actionsStarted, e.eng.actionsFinished]}
                want = {"r": ["err", "rejected"], "emits": [], "logs": [], "state": before, "counters": cnt}
                d = diff(want, obs)
                hit("rejected_input")
                if d:
                    violation = focus.judge(case, j, op, d, want, obs, ref, True)
                    break
                continue
            if k == "save":
                saved[i] = (e.eng.snapshot().toJson(), copy.deepcopy(ref.cells), copy.deepcopy(ref.pools))
                hit("saved")
                continue
            if k == "crash":
                # only the saved document survives
                fault("crash_restart")
                if saved[i]:
                    eng, = T.PFAEngine.fromJson(saved[i][0], options=case.get("options"))
                else:
                    eng, = focus.load(T, case, 1)
                engines[i] = e = Engine(eng, watch, focus.state(case))
                ref = focus.reference(case)
                if saved[i]:
                    ref.cells, ref.pools = copy.deepcopy(saved[i][1]), copy.deepcopy(saved[i][2])
                refs[i] = ref
                continue
            fn_e = call_of(op, doc, False, ref)
            fn_r = call_of(op, doc, True, ref)
            t_before = core.CLOCK.elapsed
            obs = e.run(fn_e, op)
            if e.fault_fired:
                op["exc_fired"] = True
                fault("exception:" + op["exc"]["exc"])
            if e.cb_fired:
                fault("callback:" + op["cb"]["kind"])
            if op.get("dts") and e.n:
                fault("slow_callback", e.n)
            if op.get("jumps") and e.n:
                fault("clock_jump", e.n)
            try:
                got, want = matches(ref, fn_r, op, obs, bool(op.get("dts")) and not focus.strict_timeouts)
            except TooLong:
                hit("abandoned_too_long")
                break
            out = want
            sig.append((k, i, obs["r"][0], obs["r"][1] if obs["r"][0] == "err" else None, len(obs["emits"]), len(obs["logs"]), bool(op.get("exc_fired"))))
            results.append([obs["r"], len(obs["emits"]), len(obs["logs"])])
            hit("calls")
            if obs["r"][0] == "err":
                hit("failed_call:" + str(obs["r"][1]))
            if got is None:
                d = diff(want, obs)
                violation = focus.judge(case, j, op, d, want, obs, ref, failed_before[i])
                if violation is None:
                    hit("stopped_on_foreign_difference")
                break
            for n, v in got.probe.items():
                hit("model:" + n, v - ref.probe.get(n, 0))
            if obs["r"][0] == "err" or op.get("exc_fired"):
                failed_before[i] = True
            refs[i] = got
            # engines of one load share nothing: the others must not have moved
            if focus.cross and ne > 1:
                for q in range(ne):
                    if q != i and J(untagged(engines[q].state())) != J(untagged({"cells": refs[q].cells, "pools": refs[q].pools})):
                        violation = focus.other(case, j, q, engines[q].state(), refs[q])
                        break
                if violation:
                    break
            if focus.immutable:
                ch = watch.changed()
                if ch:
                    violation = {"kind": "changed-after-the-fact", "msg": "after call %d (%s): %s" % (j, k, ch)}
                    break
    return {"violation": violation, "probe": probe, "faults": faults, "sig": sig, "result": results,
            "events": len(sig), "sim_time": core.CLOCK.total, "ops": len(case["ops"]),
            "nontrivial": focus.nontrivial(probe, faults)}


def shrink(case):
    n = len(case["ops"])
    for size in (n // 2, n // 4, 1):
        if size < 1:
            continue
        for i in range(0, n, size):
            c = copy.deepcopy(case)
            del c["ops"][i:i + size]
            if c["ops"]:
                yield c
    for i, op in enumerate(case["ops"]):
        for f in ("cb", "exc", "dts", "jumps"):
            if f in op:
                c = copy.deepcopy(case)
                del c["ops"][i][f]
                yield c
    if case.get("engines", 1) > 1 and all(op["e"] == 0 for op in case["ops"]):
        c = copy.deepcopy(case)
        c["engines"] = 1
        yield c
    for c in shrink_doc(case):
        yield c


def shrink_doc(case):
    doc = case["doc"]
    for part in ("begin", "end"):
        if doc.get(part):
            c = copy.deepcopy(case)
            del c["doc"][part]
            yield c
    # statements, anywhere a block occurs
    def blocks(x, path):
        if isinstance(x, dict):
            for k, v in x.items():
                for b in blocks(v, path + [k]):
                    yield b
        elif isinstance(x, list):
            if path and path[-1] in ("action", "begin", "end", "do", "then", "else", "try", "merge") and len(x) > 1:
                yield path, len(x)
            for i, v in enumerate(x):
                for b in blocks(v, path + [i]):
                    yield b
    for path, n in list(blocks(doc, [])):
        for i in range(n - 1):
            c = copy.deepcopy(case)
            x = c["doc"]
            for p in path:
                x = x[p]
            del x[i]
            yield c
    for n in list(doc.get("fcns", {})):
        c = copy.deepcopy(case)
        del c["doc"]["fcns"][n]
        yield c


class Focus(object):
    cross = True
    strict_timeouts = False     # True: time is checked at loop iterations and nowhere else
    immutable = False
    parts = PARTS

    def __init__(self, prop):
        self.prop = prop

    def load(self, T, case, n):
        return T.PFAEngine.fromJson(copy.deepcopy(case["doc"]), options=case.get("options"), multiplicity=n)

    def reference(self, case):
        return Ref(case["doc"], case.get("options"))

    def state(self, case):
        return private_state

    def relevant(self, case, j, op, d, want, obs, ref, failed_before):
        return True

    def judge(self, case, j, op, d, want, obs, ref, failed_before):
        if not self.relevant(case, j, op, d, want, obs, ref, failed_before):
            return None
        return {"kind": "differs:" + ",".join(sorted(d)), "msg": "call %d, %s on engine %d with %s: %s" % (
            j, op["op"], op["e"], J({k: v for k, v in op.items() if k not in ("op", "e")}),
            "; ".join("%s is %s, allowed is %s" % (p, J(obs[p]), J(want[p])) for p in d))}

    def other(self, case, j, q, state, ref):
        return {"kind": "other-engine-changed", "msg": "call %d on engine %d changed the private state of engine %d to %s" % (
            j, case["ops"][j]["e"], q, J(state))}

    def nontrivial(self, probe, faults):
        return probe.get("calls", 0) > 1


class Rollback(Focus):          # C04
    def relevant(self, case, j, op, d, want, obs, ref, failed_before):
        failing = obs["r"][0] == "err" or want["r"][0] == "err" or op.get("exc_fired")
        if "state" in d and (failing or failed_before):
            return True
        return failed_before and bool(d)

    def nontrivial(self, probe, faults):
        return probe.get("model:rolled_back", 0) > 0


class Fold(Focus):              # C07
    def relevant(self, case, j, op, d, want, obs, ref, failed_before):
        return case["doc"]["method"] == "fold" or "counters" in d or "logs" in d

    def nontrivial(self, probe, faults):
        return probe.get("calls", 0) > 2


class Output(Focus):            # C08
    def relevant(self, case, j, op, d, want, obs, ref, failed_before):
        return "emits" in d or "logs" in d or op.get("cb") is not None

    def nontrivial(self, probe, faults):
        return any(k.startswith("callback:") for k in faults) or probe.get("model:rolled_back", 0) > 0 or probe.get("calls", 0) > 1


class Timeout(Focus):           # C09
    def relevant(self, case, j, op, d, want, obs, ref, failed_before):
        return True

    def nontrivial(self, probe, faults):
        return probe.get("failed_call:timeout", 0) > 0 or probe.get("model:timeout_in_loop", 0) > 0


class TryCatch(Focus):          # C17
    strict_timeouts = True

    def relevant(self, case, j, op, d, want, obs, ref, failed_before):
        return "try" in json.dumps(case["doc"])

    def nontrivial(self, probe, faults):
        return any(k.startswith("model:caught") or k.startswith("model:uncaught") for k in probe)


class Refine(Focus):            # C20
    pass


EXCS = ["MemoryError", "RuntimeError", "OSError", "RecursionError", "ValueError", "KeyError", "IndexError", "AssertionError"]
INTERRUPTS = ["KeyboardInterrupt", "SystemExit"]


def doc_ok(doc):
    T = titus()
    with core.virtual_time():
        T.PFAEngine.fromJson(copy.deepcopy(doc))


def generate(rng, tier, prop):
    prof = {}
    hops = {}
    ne = 1
    if prop == "C04":
        prof = dict(p_rollback=0.6, w_state=4.0, w_error=2.0, p_fail=0.4, pools=2, cells=3)
    elif prop == "C07":
        prof = dict(method="fold", w_error=1.5, p_fail=0.35)
        hops = {"merge": 2.0, "bad": 0.7}
    elif prop == "C08":
        prof = dict(method=rng.choice(["emit", "emit", "map", "fold"]), w_emit=3.0, w_log=3.0, w_error=1.5)
        hops = {"swap": 0.8}
    elif prop == "C09":
        prof = dict(w_loop=3.0, w_log=3.0, w_emit=2.0, begin=0.7, end=0.7, p_fail=0.1, w_error=0.4)
        hops = {"begin": 2.0, "end": 2.0}
    elif prop == "C17":
        prof = dict(w_try=5.0, w_error=3.0, p_fail=0.5, w_log=1.5, w_loop=1.5)
    elif prop == "C20":
        prof = dict(w_state=3.0)
    elif prop == "C11":
        prof = dict(w_state=4.0)
        hops = {"save": 2.5, "crash": 2.0}
    if prop in ("C20", "C04", "C08", "C07") and rng.random() < 0.4:
        ne = rng.choice([2, 3])
    if rng.random() < 0.3:
        prof["stmts"] = (1, 3)
        prof["depth"] = 2
    doc = minipfa.Gen(rng, **prof).document()
    if rng.random() < 0.3:
        doc["randseed"] = rng.randint(1, 99)
    n = rng.choice([3, 5, 8, 12])
    ops = minipfa.history(rng, doc, n, ne, hops)
    case = {"doc": doc, "ops": ops, "engines": ne, "entropy": rng.getrandbits(32)}
    callers = [o for o in ops if o["op"] in ("action", "begin", "end", "merge")]
    if prop in ("C04", "C07", "C17", "C20", "C11") and rng.random() < (0.6 if prop != "C20" else 0.3):
        for o in rng.sample(callers, min(len(callers), rng.choice([1, 1, 2]))):
            o["exc"] = {"nth": rng.choice([1, 2, 3, 4, 5, 6, 8, 10, 13, 17, 25]), "exc": rng.choice(EXCS + INTERRUPTS * 2 if prop == "C04" else EXCS)}
    if prop in ("C04", "C08", "C17") and rng.random() < 0.7:
        for o in rng.sample(callers, min(len(callers), rng.choice([1, 2, 3]))):
            if "exc" not in o:
                o["cb"] = {"kind": rng.choice(["emit", "log"]), "at": rng.choice([1, 1, 2, 3])}
    if prop == "C17" and rng.random() < 0.3:
        # timeouts are errors like any other: only the filter decides
        lim = rng.choice([50, 200])
        case["options"] = {"timeout": lim}
        for o in callers:
            if rng.random() < 0.7:
                o["dts"] = [rng.choice([0.0, lim / 3.7 + 0.0371, lim / 1.9 + 0.0193, lim * 1.13]) for _ in range(rng.randint(1, 4))]
    if prop == "C09":
        lim = rng.choice([50, 200, 1000])
        r = rng.random()
        if r < 0.4:
            opts = {"timeout": lim}
        elif r < 0.8:
            opts = {"timeout." + k: lim * rng.choice([1, 3, 10]) for k in ("begin", "action", "end") if rng.random() < 0.7}
            if rng.random() < 0.5:
                opts["timeout"] = lim * 2
        else:
            opts = {}
        if rng.random() < 0.25:
            opts["timeout." + rng.choice(["begin", "action", "action", "end"])] = rng.choice([0, -1])      # no limit there
        if rng.random() < 0.5:
            case["options"] = opts      # the host's options override the document's
            doc["options"] = {"timeout": rng.choice([1, 100000])} if rng.random() < 0.4 else {}
        else:
            doc["options"] = opts
        for o in callers:
            if rng.random() < 0.8:
                o["dts"] = [rng.choice([0.0, 0.3371, lim / 3.7 + 0.0371, lim / 1.9 + 0.0193, lim * 1.13]) for _ in range(rng.randint(1, 4))]
            if rng.random() < 0.5:
                o["jumps"] = [rng.choice([0.0, 3600.0, -3600.0, 0.5, -0.5, 1e6]) for _ in range(rng.randint(1, 3))]
        out = []
        for o in ops:
            if rng.random() < 0.3:
                out.append({"op": "idle", "e": o["e"], "dt": rng.choice([0.1, 5.0, 3600.0]), "jump": rng.choice([0.0, -7200.0, 86400.0])})
            out.append(o)
        case["ops"] = out
    return case


FOCUS = {"C04": Rollback, "C07": Fold, "C08": Output, "C09": Timeout, "C17": TryCatch, "C20": Refine}
RULES = {
    "C04": "documents and histories are generated; a run is non-trivial when at least one failed call restored a cell or pool that asked for rollback",
    "C07": "fold documents and histories of actions, merges and rejected inputs; non-trivial: more than two calls completed or failed",
    "C08": "documents that emit and log, with failing consumers; non-trivial: a consumer failed or several calls produced output",
    "C09": "documents with loops whose consumers are slow on a virtual clock; non-trivial: at least one call ran into its time limit",
    "C17": "documents with try blocks under document, library, consumer and host errors; non-trivial: an error reached a try block",
    "C20": "documents and histories on one to three engines; non-trivial: more than one call",
}


def view(prop):
    from ..registry import View
    focus = FOCUS[prop](prop)
    return View(generate=lambda rng, tier: generate(rng, tier, prop), execute=lambda c: execute(c, focus), shrink=shrink,
                PLAN={"quick": {"cases": 6000, "budget": 45, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE=RULES[prop] + "; distinct = distinct (call outcome sequence, results) pairs",
                MEASURE="hash of the sequence of (call, engine, outcome, number of emits and logs, fault fired)",
                REAL=["titus reader, type checker, code generator", "generated engine code", "titus runtime and library functions"],
                STUB=["emit and log consumers", "clocks", "entropy", "allocation failures (exceptions raised at chosen calls)"],
                ASSUMPTIONS=["the reference model covers the generated subset of PFA: cells, pools, tally, control flow, functions, try, error, log, emit, integer arithmetic, arrays, maps, one record type"])
