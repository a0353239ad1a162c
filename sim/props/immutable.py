"""C06: values that crossed the API never change afterwards.

Every input, result, emitted and logged value and snapshot is kept and compared with what it was, after every later
call on any engine that can reach the same state."""
import copy
import json

from .. import core, corpus
from ..corpus import Driver, Watch
from ..gen import minipfa
from ..world import titus
from . import shared


class FullWatch(Watch):
    def __init__(self):
        Watch.__init__(self)
        self.snaps = []

    def snapshot(self, eng):
        s = eng.snapshot()
        self.snaps.append((s, self._snap(s)))

    def _snap(self, s):
        return json.dumps([{n: c.init if isinstance(c.init, str) else repr(c.init) for n, c in s.cells.items()},
                           {n: repr(c.init) for n, c in s.pools.items()}], sort_keys=True)

    def changed(self):
        for s, txt in self.snaps:
            if self._snap(s) != txt:
                return "a snapshot was %s and became %s" % (txt[:400], self._snap(s)[:400])
        return Watch.changed(self)


def generate(rng, tier):
    r = rng.random()
    if r < 0.25:
        c = shared.generate(rng, tier, {"cells": True, "pools": rng.random() < 0.5, "fail": rng.random() < 0.5})
        c["mode"] = "threads"
        c["threads"] = [[op for op in th if "snap" not in op] for th in c["threads"]]
        c["late"] = []
        return c
    if r < 0.4:
        prof = {"w_state": 4.0, "w_emit": 2.0, "w_log": 2.0, "p_rollback": 0.5, "p_fail": 0.2}
        doc = minipfa.Gen(rng, **prof).document()
        if rng.random() < 0.4:
            for part in ("cells", "pools"):
                for v in doc[part].values():
                    if not v.get("rollback"):
                        v["shared"] = True
        n = rng.choice([1, 1, 2, 3])
        ops = []
        for op in minipfa.history(rng, doc, rng.choice([4, 6, 10]), n, {"bad": 0.3}):
            if op["op"] in ("action", "bad"):
                c = ["action", op["input"]]
            elif op["op"] == "merge":
                c = ["merge", op["a"], op["b"]]
            else:
                c = [op["op"]]
            ops.append({"e": op["e"], "call": c})
    else:
        o = corpus.pick(rng)
        if rng.random() < 0.2:
            for _ in range(100):
                if corpus.has(o["doc"], '"cell"', '"pool"', "tally", "foreach", "a.", "map.", "stat.", "model."):
                    break
                o = corpus.pick(rng)
        doc = copy.deepcopy(o["doc"])
        if rng.random() < 0.4:
            doc = corpus.vary(rng, doc, o["calls"])
        if rng.random() < 0.7:
            doc = corpus.expose(rng, doc)
        doc["name"] = "Eng"
        doc.setdefault("randseed", rng.randint(1, 10 ** 6))
        n = rng.choice([1, 2])
        calls = [list(c) for c in o["calls"]]
        if rng.random() < 0.4:
            calls = corpus.vary_calls(rng, doc, calls)
        ops = [{"e": rng.randrange(n), "call": rng.choice(calls) if rng.random() < 0.4 else calls[i % len(calls)]} for i in range(rng.choice([3, 5, 8]))]
    for o in ops:
        r = rng.random()
        if r < 0.12:
            o["exc"] = {"nth": rng.choice([1, 2, 3, 5, 8, 13]), "exc": rng.choice(["MemoryError", "RuntimeError", "OSError", "RecursionError"])}
        elif r < 0.2:
            o["cb"] = rng.choice([1, 2])
        if rng.random() < 0.3:
            o["snap"] = True
    return {"mode": "history", "doc": doc, "n": n, "ops": ops, "entropy": rng.getrandbits(32)}


def execute(case):
    return threads(case) if case["mode"] == "threads" else history(case)


def history(case):
    T = titus()
    core.begin_case(case["entropy"])
    watch = FullWatch()
    probe, faults, sig = {}, {}, []
    violation = None
    with core.virtual_time():
        ds = [Driver(e, watch) for e in T.PFAEngine.fromJson(copy.deepcopy(case["doc"]), multiplicity=case["n"])]
        for j, op in enumerate(case["ops"]):
            d = ds[op["e"] % len(ds)]
            if op.get("snap"):
                try:
                    watch.snapshot(d.eng)
                    probe["snapshot"] = probe.get("snapshot", 0) + 1
                except (TypeError, ValueError):
                    probe["snapshot_not_supported"] = probe.get("snapshot_not_supported", 0) + 1
            d.fail = op.get("cb")
            if op.get("exc"):
                with core.CallFaults(op["exc"]["nth"], op["exc"]["exc"]) as f:
                    r = d.call(op["call"])
                if f.fired:
                    faults["exception:" + op["exc"]["exc"]] = faults.get("exception:" + op["exc"]["exc"], 0) + 1
            else:
                r = d.call(op["call"])
            d.fail = None
            if r[0] == "err" and r[1] == "callback":
                faults["callback"] = faults.get("callback", 0) + 1
            sig.append([op["e"], r])
            k = "outcome:" + (r[0] if r[0] == "ok" else str(r[1]))
            probe[k] = probe.get(k, 0) + 1
            ch = watch.changed()
            if ch:
                violation = {"kind": "changed-after-the-fact", "msg": "after call %d (%s): %s; document %s" % (
                    j, op["call"][0], ch, json.dumps(case["doc"])[:1500])}
                break
    probe["values_watched"] = len(watch.items)
    return {"violation": violation, "probe": probe, "faults": faults, "sig": sig, "result": [s[1][:2] for s in sig], "events": len(sig),
            "nontrivial": len(watch.items) > 1 and len(sig) > 1, "sim_time": core.CLOCK.total, "ops": len(case["ops"])}


def threads(case):
    T = titus()
    core.begin_case(case["entropy"])
    docs, ops = case["docs"], case["ops"]
    nt = len(case["threads"])
    watch = FullWatch()
    probe, faults = {}, {}
    violation = [None]
    with core.virtual_time():
        st = T.SharedState()
        engines = []
        for d in docs:
            if case["share"] == "state":
                engines.append([T.PFAEngine.fromJson(copy.deepcopy(d), sharedState=st)[0] for _ in range(nt)])
            else:
                engines.append(T.PFAEngine.fromJson(copy.deepcopy(d), sharedState=st, multiplicity=nt))
        drivers = [[Driver(e, watch) for e in row] for row in engines]
        sim = core.Sim(case["schedule"], max_events=3_000_000)
        results = []

        def body(t):
            def run(th):
                for j, op in enumerate(case["threads"][t]):
                    o = ops[op["o"]]
                    f = op.get("fault")
                    th.op = j
                    th.calls = 0
                    th.fault_fired = False
                    th.fault_nth = f["nth"] if f else None
                    th.fault_exc = f["exc"] if f else None
                    sim.point("inv", j)
                    r = drivers[o["doc"]][t].call(["action", {"op": o["op"], "x": op["x"], "k": op["k"]}])
                    th.fault_nth = None
                    if th.fault_fired:
                        faults["exception:" + f["exc"]] = faults.get("exception:" + f["exc"], 0) + 1
                    sim.rearm()
                    results.append([t, j, r])
                    if violation[0] is None:
                        ch = watch.changed()
                        if ch:
                            violation[0] = {"kind": "changed-after-the-fact", "msg": "after operation %d of thread %d: %s; operation %s" % (
                                j, t, ch, json.dumps(o["expr"])[:800])}
                    sim.point("res", j)
            return run
        for t in range(nt):
            sim.spawn(body(t))
        sim.run()
        v = violation[0]
        if v is None:
            ch = watch.changed()
            if ch:
                v = {"kind": "changed-after-the-fact", "msg": "at the end: " + ch}
    probe["values_watched"] = len(watch.items)
    probe["preempted_inside_titus"] = sim.stats["preempt_in_titus"]
    return {"violation": v, "probe": probe, "faults": faults, "sig": sim.sig, "events": sim.events, "result": results,
            "nontrivial": len(watch.items) > 1, "schedule": sim.explicit_schedule(), "sim_time": core.CLOCK.total, "ops": len(results)}


def shrink(case):
    if case["mode"] == "threads":
        for c in shared.shrink(case):
            yield c
        return
    n = len(case["ops"])
    for size in (n // 2, 1):
        if size:
            for i in range(0, n, size):
                c = copy.deepcopy(case)
                del c["ops"][i:i + size]
                if c["ops"]:
                    yield c
    for i, o in enumerate(case["ops"]):
        for f in ("exc", "cb", "snap"):
            if f in o:
                c = copy.deepcopy(case)
                del c["ops"][i][f]
                yield c


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 9000, "budget": 50, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when at least two structured values crossed the API and further calls followed; distinct = distinct (interleaving or outcome sequence, results) pairs",
                REAL=["titus reader, type checker, code generator", "generated engine code", "titus runtime", "the function library"],
                STUB=["thread scheduling (seeded, per bytecode)", "locks", "clocks", "entropy", "emit and log consumers", "allocation failures"],
                ASSUMPTIONS=[])
