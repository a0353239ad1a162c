"""C05: engines that share nothing do not influence one another.

Several engines of unrelated documents run in simulated threads that are preempted at every bytecode, after other
engines have run before them and while some of them fail.  What each does is compared with what the same engine does
alone in a process that has run nothing else."""
import copy
import json

from .. import core, corpus
from ..corpus import Driver, Watch, canon, state_of
from ..gen import minipfa
from ..world import titus


def private(doc):
    doc = copy.deepcopy(doc)
    for part in ("cells", "pools"):
        for c in doc.get(part, {}).values():
            c.pop("shared", None)
    return doc


_light = []


def corpus_entry(rng, need=None):
    if need is None:
        return corpus.pick(rng, True)
    docs = _light or _light.extend(corpus.light()) or _light
    for _ in range(200):
        o = rng.choice(docs)
        if need is None or corpus.has(o["doc"], *need):
            return o
    return rng.choice(docs)


def spec(rng, kinds, near=None):
    k = rng.choice(kinds)
    if near is not None and k != "gen" and rng.random() < 0.5:
        k = "near"
    if k == "gen":
        prof = {}
        if rng.random() < 0.5:
            prof = {"stmts": (1, 3), "depth": 2}
        doc = minipfa.Gen(rng, **prof).document()
        calls = []
        for op in minipfa.history(rng, doc, rng.choice([2, 3, 4]), 1, {"bad": 0.5}):
            if op["op"] in ("action", "bad"):
                calls.append(["action", op["input"]])
            elif op["op"] == "merge":
                calls.append(["merge", op["a"], op["b"]])
            else:
                calls.append([op["op"]])
    else:
        o = corpus.sibling(rng, near, True) if k == "near" else corpus_entry(rng, {"cells": ['"cell"', '"pool"'], "rand": ['"rand.'], "any": None}[k])
        doc = private(o["doc"])
        calls = list(o["calls"])
        if rng.random() < 0.3:
            doc = corpus.vary(rng, doc, calls)
        if rng.random() < 0.3:
            calls = calls[:3] + corpus.vary_calls(rng, doc, calls[:3])
        if len(calls) > 5:
            i = rng.randrange(len(calls) - 4)
            calls = calls[i:i + 5]
        calls = [list(c) for c in calls]
        while len(calls) < 2:
            calls.append(list(rng.choice(calls)))
    doc.setdefault("randseed", rng.randint(1, 10 ** 6))
    doc["name"] = "Eng"
    return {"doc": doc, "calls": calls, "n": rng.choice([1, 1, 1, 2, 3])}


def generate(rng, tier):
    ns = rng.choice([1, 2, 2, 3])
    specs = []
    for _ in range(ns):
        specs.append(spec(rng, ["gen", "cells", "any", "any", "any", "rand"], specs[-1] if specs else None))
    if ns == 1:
        specs[0]["n"] = rng.choice([2, 3])
    if rng.random() < 0.3:      # the same document loaded twice
        specs.append(dict(copy.deepcopy(rng.choice(specs)), n=1))
    threads = []
    for s, sp in enumerate(specs):
        for i in range(sp["n"]):
            if len(threads) < 4:
                threads.append({"spec": s, "inst": i})
    noise = []
    if rng.random() < 0.5:
        for t in rng.sample(range(len(threads)), rng.choice([1, 1, 2]) if len(threads) > 1 else 0):
            # a noisy neighbour: this engine's calls run into faults; it is not compared, the others are
            noise.append({"t": t, "call": rng.randrange(3), "nth": rng.choice([1, 2, 3, 5, 8, 13]),
                          "exc": rng.choice(["MemoryError", "RuntimeError", "OSError", "RecursionError"]),
                          "cb": rng.choice([None, 1, 2])})
    before = [spec(rng, ["any", "gen", "cells"]) for _ in range(rng.choice([0, 0, 1, 2]))]
    return {"specs": specs, "threads": threads, "noise": noise, "before": before, "entropy": rng.getrandbits(32),
            "schedule": core.random_schedule(rng, 3000 * len(threads))}


def alone(doc, calls, n, inst, entropy):
    """What this engine does when nothing else ever runs."""
    T = titus()
    core.begin_case(entropy)
    with core.virtual_time():
        d = Driver(T.PFAEngine.fromJson(copy.deepcopy(doc), multiplicity=n)[inst])
        outs = [d.call(c) for c in calls]
        return outs, state_of(d.eng)


def cost(case, th):
    """How many steps this engine's calls take when it is alone."""
    sp = case["specs"][th["spec"]]
    core.begin_case(case["entropy"])
    with core.virtual_time():
        d = Driver(titus().PFAEngine.fromJson(copy.deepcopy(sp["doc"]), multiplicity=sp["n"])[th["inst"]])
        sim = core.Sim({"kind": "explicit", "switches": []}, max_events=3_000_000)
        sim.spawn(lambda t: [d.call(c) for c in sp["calls"]])
        sim.run()
    return sim.events


def execute(case):
    base = corpus.pristine(alone)
    T = titus()
    probe, faults = {}, {}

    def hit(n, k=1):
        probe[n] = probe.get(n, 0) + k
    want = []
    for th in case["threads"]:
        sp = case["specs"][th["spec"]]
        want.append(base(sp["doc"], sp["calls"], sp["n"], th["inst"], case["entropy"]))
    core.begin_case(case["entropy"])
    violation = None
    with core.virtual_time():
        for sp in case["before"]:
            d = Driver(T.PFAEngine.fromJson(copy.deepcopy(sp["doc"]))[0])
            for c in sp["calls"]:
                d.call(c)
            hit("engine_run_before")
        loads = [T.PFAEngine.fromJson(copy.deepcopy(sp["doc"]), multiplicity=sp["n"]) for sp in case["specs"]]
        drivers = [Driver(loads[th["spec"]][th["inst"]]) for th in case["threads"]]
        noisy = {}
        for nz in case["noise"]:
            if nz["t"] < len(drivers):
                noisy[nz["t"]] = nz
        sim = core.Sim(case["schedule"], max_events=3_000_000)
        got = [[] for _ in drivers]
        spans = []

        def body(t):
            calls = case["specs"][case["threads"][t]["spec"]]["calls"]
            nz = noisy.get(t)

            def run(th):
                for j, c in enumerate(calls):
                    th.op = j
                    th.calls = 0
                    th.fault_fired = False
                    if nz is not None and nz["call"] == j:
                        if nz["cb"]:
                            drivers[t].fail = nz["cb"]
                        else:
                            th.fault_nth, th.fault_exc = nz["nth"], nz["exc"]
                    sim.point("inv", j)
                    inv = sim.events
                    r = drivers[t].call(c)
                    th.fault_nth = None
                    drivers[t].fail = None
                    if th.fault_fired:
                        faults["exception:" + nz["exc"]] = faults.get("exception:" + nz["exc"], 0) + 1
                    elif r[0] == "err" and r[1] == "callback":
                        faults["callback"] = faults.get("callback", 0) + 1
                    sim.rearm()
                    sim.events += 1
                    spans.append((t, inv, sim.events))
                    got[t].append(r)
                    sim.point("res", j)
            return run
        for t in range(len(drivers)):
            sim.spawn(body(t))
        sim.run()
        if sim.deadlock is not None or sim.aborting == "deadlock":
            violation = {"kind": "blocked", "msg": "engines that share nothing block one another: %s" % json.dumps(sim.deadlock)}
        elif sim.aborting == "budget" and 3 * sum(cost(case, th) for th in case["threads"]) < sim.max_events:
            violation = {"kind": "blocked", "msg": "no completion within %d steps" % sim.max_events}
        elif sim.aborting == "budget":
            hit("too_long_not_compared")
        else:
            for t, d in enumerate(drivers):
                if t in noisy:
                    hit("noisy_neighbour")
                    continue
                outs, state = want[t]
                hit("compared_engine")
                hit("compared_calls", len(outs))
                for j, (w, g) in enumerate(zip(outs, got[t])):
                    hit("outcome:" + (w[0] if w[0] == "ok" else str(w[1])))
                    if json.dumps(w) != json.dumps(g):
                        violation = {"kind": "differs", "msg": "engine %d, call %d %s: alone %s, with the others %s; document %s" % (
                            t, j, json.dumps(case["specs"][case["threads"][t]["spec"]]["calls"][j], default=repr)[:300],
                            json.dumps(w)[:600], json.dumps(g)[:600], json.dumps(case["specs"][case["threads"][t]["spec"]]["doc"])[:800])}
                        break
                if violation:
                    break
                s2 = state_of(d.eng)
                if json.dumps(s2) != json.dumps(state):
                    violation = {"kind": "state-differs", "msg": "engine %d remembers %s, alone it remembers %s" % (t, json.dumps(s2)[:800], json.dumps(state)[:800])}
                    break
    overl = sum(1 for a in spans for b in spans if a[0] < b[0] and a[1] < b[2] and b[1] < a[2])
    hit("overlapping_pairs", overl)
    hit("preempted_inside_titus", sim.stats["preempt_in_titus"])
    return {"violation": violation, "probe": probe, "faults": faults, "sig": [sim.sig, [s for s in sim.switches[:200]]], "events": sim.events,
            "result": [[r[:2] for r in g] for g in got], "nontrivial": overl > 0, "schedule": sim.explicit_schedule(),
            "sim_time": core.CLOCK.total, "ops": len(spans)}


def shrink(case):
    if case["before"]:
        for i in range(len(case["before"])):
            c = copy.deepcopy(case)
            del c["before"][i]
            yield c
    for i in range(len(case["noise"])):
        c = copy.deepcopy(case)
        del c["noise"][i]
        yield c
    for t in range(len(case["threads"])):
        if len(case["threads"]) > 1:
            c = copy.deepcopy(case)
            del c["threads"][t]
            c["noise"] = [dict(z, t=z["t"] - (z["t"] > t)) for z in c["noise"] if z["t"] != t]
            yield c
    for s in range(len(case["specs"])):
        for j in range(len(case["specs"][s]["calls"])):
            if len(case["specs"][s]["calls"]) > 1:
                c = copy.deepcopy(case)
                del c["specs"][s]["calls"][j]
                yield c


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 2400, "budget": 50, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when calls of different engines overlapped in simulated time; distinct = distinct (interleaving signature, results) pairs",
                REAL=["titus reader, type checker, code generator", "generated engine code", "titus runtime", "the whole function library, through 1268 documents of its own examples"],
                STUB=["thread scheduling (seeded, per bytecode)", "locks", "clocks", "entropy", "emit and log consumers"],
                ASSUMPTIONS=["one bytecode of titus or of generated code is atomic", "documents carry a randseed"])
