"""C21: between calls an engine remembers its state and nothing else.

Any call, at any point of any history, is compared with the same call on a freshly loaded engine -- in a process that
has run nothing -- whose cells, pools, tally, counters and random generator were set to what the first engine held."""
import copy
import json
import random

from .. import core, corpus
from ..corpus import Driver, canon, state_of
from ..gen import minipfa
from ..world import titus
from . import randomness
from .isolate import private


def generate(rng, tier):
    specs = []
    docs = corpus.load()
    for _ in range(rng.choice([1, 1, 2])):
        if specs and rng.random() < 0.5 and "o" in locals():
            o = corpus.sibling(rng, o)
            doc, calls = private(o["doc"]), [list(c) for c in o["calls"]]
        elif rng.random() < 0.1:
            doc = randomness.document(rng)
            calls = randomness.calls_for(rng, doc)
        elif rng.random() < 0.2:
            doc = minipfa.Gen(rng).document()
            calls = []
            for op in minipfa.history(rng, doc, 8, 1, {"bad": 0.5}):
                calls.append(["action", op["input"]] if op["op"] in ("action", "bad") else ["merge", op["a"], op["b"]] if op["op"] == "merge" else [op["op"]])
        else:
            o = corpus.pick(rng)
            doc, calls = private(o["doc"]), [list(c) for c in o["calls"]]
            if rng.random() < 0.3:
                doc = corpus.vary(rng, doc, calls)
            if rng.random() < 0.3:
                calls += corpus.vary_calls(rng, doc, calls)
            if rng.random() < 0.3:
                other = rng.choice(docs)
                if other["doc"].get("input") == doc.get("input") and corpus.finite(doc):
                    calls = calls + [list(c) for c in other["calls"]]
        doc.setdefault("randseed", rng.randint(1, 10 ** 6))
        doc["name"] = "Eng"
        specs.append({"doc": doc, "calls": calls})
    ops = []
    for _ in range(rng.choice([3, 5, 8, 12])):
        e = rng.randrange(len(specs))
        op = {"e": e, "call": rng.choice(specs[e]["calls"])}
        r = rng.random()
        if r < 0.15:
            op["exc"] = {"nth": rng.choice([1, 2, 3, 4, 6, 9]), "exc": rng.choice(["MemoryError", "RuntimeError", "OSError", "RecursionError"])}
        elif r < 0.22:
            op["cb"] = rng.choice([1, 2])
        if rng.random() < 0.45:
            op["check"] = True
        ops.append(op)
    ops[-1]["check"] = True
    return {"specs": specs, "ops": ops, "entropy": rng.getrandbits(32)}


def capture(eng):
    return {"cells": {n: copy.deepcopy(c.value) for n, c in eng.cells.items()},
            "pools": {n: copy.deepcopy(dict(p.value)) for n, p in eng.pools.items()},
            "tally": copy.deepcopy(getattr(eng, "tally", None)), "rand": eng.rand.getstate(),
            "started": eng.actionsStarted, "finished": eng.actionsFinished}


def one_call(doc, st, op, entropy):
    T = titus()
    core.begin_case(entropy)
    with core.virtual_time():
        eng, = T.PFAEngine.fromJson(copy.deepcopy(doc))
        for n, v in st["cells"].items():
            eng.cells[n].value = v
        for n, v in st["pools"].items():
            eng.pools[n].value = v
        if hasattr(eng, "tally"):
            eng.tally = st["tally"]
        eng.rand.setstate(st["rand"])
        eng.actionsStarted, eng.actionsFinished = st["started"], st["finished"]
        d = Driver(eng)
        return call(d, op)[0], after(d.eng)


def after(eng):
    s = state_of(eng)
    s["tally"] = canon(getattr(eng, "tally", None))
    s["counters"] = [eng.actionsStarted, eng.actionsFinished]
    return s


def call(d, op):
    d.fail = op.get("cb")
    fired = False
    if op.get("exc"):
        with core.CallFaults(op["exc"]["nth"], op["exc"]["exc"]) as f:
            r = d.call(op["call"])
        fired = f.fired
    else:
        r = d.call(op["call"])
    d.fail = None
    return r, fired


def execute(case):
    base = corpus.pristine(one_call)
    T = titus()
    core.begin_case(case["entropy"])
    probe, faults, sig = {}, {}, []
    violation = None
    with core.virtual_time():
        ds = [Driver(T.PFAEngine.fromJson(copy.deepcopy(s["doc"]))[0]) for s in case["specs"]]
        for j, op in enumerate(case["ops"]):
            d = ds[op["e"]]
            check = op.get("check") and (j > 0 or len(case["ops"]) == 1)
            st = capture(d.eng) if check else None
            r, fired = call(d, op)
            if fired:
                faults["exception:" + op["exc"]["exc"]] = faults.get("exception:" + op["exc"]["exc"], 0) + 1
            if r[0] == "err" and r[1] == "callback":
                faults["callback"] = faults.get("callback", 0) + 1
            sig.append([op["e"], r])
            k = "outcome:" + (r[0] if r[0] == "ok" else str(r[1]))
            probe[k] = probe.get(k, 0) + 1
            if check:
                probe["checked"] = probe.get("checked", 0) + 1
                w, ws = base(case["specs"][op["e"]]["doc"], st, op, case["entropy"])
                if json.dumps(w) != json.dumps(r):
                    violation = {"kind": "depends-on-history", "msg": "call %d, %s: after %d earlier calls it gives %s, on a fresh engine with the same state %s; document %s" % (
                        j, json.dumps(op, default=repr)[:300], j, json.dumps(r)[:500], json.dumps(w)[:500], json.dumps(case["specs"][op["e"]]["doc"])[:1200])}
                    break
                a = after(d.eng)
                if json.dumps(a) != json.dumps(ws):
                    violation = {"kind": "state-depends-on-history", "msg": "call %d, %s: afterwards the engine holds %s, a fresh engine with the same state before holds %s; document %s" % (
                        j, json.dumps(op, default=repr)[:300], json.dumps(a)[:500], json.dumps(ws)[:500], json.dumps(case["specs"][op["e"]]["doc"])[:1200])}
                    break
    return {"violation": violation, "probe": probe, "faults": faults, "sig": sig, "result": [s[1][:2] for s in sig], "events": len(sig),
            "nontrivial": probe.get("checked", 0) > 0 and len(sig) > 1, "sim_time": core.CLOCK.total, "ops": len(sig)}


def shrink(case):
    n = len(case["ops"])
    for size in (n // 2, 1):
        if size:
            for i in range(0, n, size):
                c = copy.deepcopy(case)
                del c["ops"][i:i + size]
                if c["ops"]:
                    yield c
    for i, o in enumerate(case["ops"]):
        for f in ("exc", "cb"):
            if f in o:
                c = copy.deepcopy(case)
                del c["ops"][i][f]
                yield c


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 5000, "budget": 50, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when a call that had calls before it was compared with a fresh engine; distinct = distinct (call outcome sequence, results) pairs",
                MEASURE="hash of the sequence of (engine, outcome) of the run",
                REAL=["titus reader, type checker, code generator", "generated engine code", "titus runtime", "the function library"],
                STUB=["emit and log consumers", "clocks", "entropy", "allocation failures"],
                ASSUMPTIONS=["documents carry a randseed; the state of an engine is read and written through its cells, pools, tally, rand and counters attributes"])
