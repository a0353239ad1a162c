"""C10: the random draws of an engine are a function of its randseed and instance number alone."""
import copy
import json
import random as ambient

from .. import core, corpus
from ..corpus import Driver, canon, state_of
from ..world import titus

POP = {"type": {"type": "array", "items": "string"}, "value": ["a", "b", "c", "d", "e", "f", "g"]}
DIST = {"type": {"type": "array", "items": "double"}, "value": [0.1, 0.4, 0.2, 0.3, 0.5]}
B64 = {"base64": "AAECAwQFBgcICQ=="}
DRAWS = [
    {"rand.int": []}, {"rand.int": [-5, 1000000]}, {"rand.long": []}, {"rand.long": [{"long": 0}, {"long": 10 ** 12}]}, {"rand.float": [{"float": 0.0}, {"float": 1.0}]}, {"rand.double": [-1.0, 1.0]},
    {"rand.choice": [POP]}, {"rand.choices": [4, POP]}, {"rand.sample": [4, POP]}, {"rand.histogram": [DIST]}, {"rand.string": [5]},
    {"rand.string": [6, {"string": "abcdef"}]}, {"rand.string": [6, 40, 90]}, {"rand.bytes": [5]}, {"rand.bytes": [5, B64]}, {"rand.bytes": [5, 3, 250]},
    {"rand.uuid4": []}, {"rand.gaussian": [0.0, 1.0]}, {"a.shuffle": [POP]},
    {"model.cluster.randomSeeds": [{"type": {"type": "array", "items": {"type": "array", "items": "double"}},
                                    "value": [[1, 2], [3, 4], [5, 6], [7, 8], [9, 10]]}, 3, {"fcn": "u.newc"}]},
]
WIDE = [{"rand.long": []}, {"rand.double": [0.0, 1.0]}, {"rand.uuid4": []}, {"rand.gaussian": [0.0, 1.0]}]


def draw(rng):
    return copy.deepcopy(rng.choice(DRAWS))


def document(rng):
    d = {"name": "Rand", "input": "int", "output": "int", "method": rng.choice(["map", "map", "emit", "fold"])}
    d["cells"] = {"c": {"type": "double", "init": 0.0}}
    d["pools"] = {"p": {"type": "long", "init": {}}}
    d["fcns"] = {"noisy": {"params": [{"x": "double"}], "ret": "double", "do": [{"+": ["x", {"rand.double": [0.0, 1.0]}]}]},
                 "newc": {"params": [{"i": "int"}, {"v": {"type": "array", "items": "double"}}],
                          "ret": {"type": "record", "name": "Clus", "fields": [{"name": "id", "type": "int"}, {"name": "center", "type": {"type": "array", "items": "double"}}]},
                          "do": [{"new": {"id": "i", "center": "v"}, "type": "Clus"}]}}
    log = lambda e: {"log": [e]}
    body = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        if r < 0.4:
            body.append(log(draw(rng)))
        elif r < 0.55:
            body.append({"if": {">": ["input", rng.randint(0, 9)]}, "then": [log(draw(rng)), log(draw(rng))]})
        elif r < 0.7:
            body.append({"foreach": "q", "in": {"type": {"type": "array", "items": "int"}, "value": [1, 2, 3]}, "do": [log(draw(rng))]})
        elif r < 0.8:
            body.append({"cell": "c", "to": {"fcn": "u.noisy"}})
            body.append(log({"cell": "c"}))
        elif r < 0.9:
            body.append({"pool": "p", "path": [{"string": "k"}], "to": {"params": [{"o": "long"}], "ret": "long", "do": [{"rand.long": [{"long": 0}, {"long": 1000}]}]}, "init": {"rand.long": []}})
            body.append(log({"pool": "p", "path": [{"string": "k"}]}))
        else:
            body.append({"try": [log(draw(rng)), {"if": {">": ["input", 5]}, "then": [{"error": "x"}]}, log(draw(rng)), None]})
    body.append(log(copy.deepcopy(rng.choice(WIDE))))
    d["action"] = body
    if d["method"] == "emit":
        body.append({"emit": {"rand.int": []}})
    elif d["method"] == "fold":
        d["zero"] = 0
        d["merge"] = [{"rand.int": [0, 1000]}]
        body.append({"%": [{"+": ["tally", {"rand.int": [0, 1000]}]}, 9999]})
    else:
        body.append({"rand.int": [0, 1000000]})
    if rng.random() < 0.4:
        d["begin"] = [log(draw(rng)), None]
    if rng.random() < 0.3:
        d["end"] = [log(draw(rng)), None]
    return d


def calls_for(rng, doc):
    out = []
    for _ in range(rng.choice([2, 3, 4])):
        r = rng.random()
        if r < 0.1:
            out.append(["begin"])
        elif r < 0.2:
            out.append(["end"])
        elif r < 0.35 and doc["method"] == "fold":
            out.append(["merge", 1, 2])
        elif r < 0.4:
            out.append(["action", "not an int"])
        else:
            out.append(["action", rng.randint(0, 9)])
    out.append(["action", 1])
    return out


def generate(rng, tier):
    doc = document(rng)
    n = rng.choice([1, 2, 3])
    calls = calls_for(rng, doc)
    engines = []
    if n > 1 and rng.random() < 0.3:
        # a few of many instances
        many = rng.choice([5, 9, 20, 40])
        base = rng.randrange(many - n + 1)
        insts = [base, base + rng.choice([d for d in (1, 2, 4, 8, 16, 32) if base + d < many or d == 1])] + [rng.randrange(many) for _ in range(n - 2)]
        insts = sorted(set(insts))
        n = len(insts)
    else:
        insts = list(range(n))
    top = max(insts) + 1
    for i in insts:
        engines.append({"inst": i, "calls": calls if rng.random() < 0.6 else calls_for(rng, doc)})
    others = []
    for _ in range(rng.choice([0, 1, 1, 2])):
        d2 = document(rng)
        if rng.random() < 0.5:
            d2["randseed"] = rng.randint(1, 5)
        others.append({"doc": d2, "calls": calls_for(rng, d2)})
    return {"doc": doc, "seed": rng.choice([0, 1, 12345, -7, 2 ** 40]), "engines": engines, "others": others, "mult": top, "mult2": top + rng.choice([0, 0, 1, 2]),
            "reseed": rng.random() < 0.5, "unseeded": rng.random() < 0.4, "noise": rng.choice([0, 0, 1, 2]) and
            {"nth": rng.choice([2, 3, 5, 8]), "exc": rng.choice(["MemoryError", "RuntimeError"]), "call": rng.randrange(3)},
            "entropy": rng.getrandbits(32), "entropy2": rng.getrandbits(32), "schedule": core.random_schedule(rng, 4000 * (n + 1))}


def alone(doc, engines, n, entropy):
    T = titus()
    core.begin_case(entropy)
    with core.virtual_time():
        row = T.PFAEngine.fromJson(copy.deepcopy(doc), multiplicity=n)
        out = []
        for e in engines:
            d = Driver(row[e["inst"]])
            out.append([d.call(c) for c in e["calls"]])
        return out


def execute(case):
    base = corpus.pristine(alone, True)
    T = titus()
    probe, faults = {}, {}
    doc = copy.deepcopy(case["doc"])
    n = len(case["engines"])
    doc["randseed"] = case["seed"]
    want = base(doc, case["engines"], case["mult"], case["entropy"])
    core.begin_case(case["entropy2"])
    violation = None
    faults["other_os_entropy"] = 1
    with core.virtual_time():
        before = ambient.getstate()
        row = T.PFAEngine.fromJson(copy.deepcopy(doc), multiplicity=case["mult2"])
        others = [Driver(T.PFAEngine.fromJson(copy.deepcopy(o["doc"]))[0]) for o in case["others"]]
        if case["unseeded"]:
            free_doc = copy.deepcopy(case["doc"])
            free_doc.pop("randseed", None)
            free = [Driver(T.PFAEngine.fromJson(copy.deepcopy(free_doc))[0]) for _ in range(2)]
            free += [Driver(e) for e in T.PFAEngine.fromJson(copy.deepcopy(free_doc), multiplicity=2)]
        drivers = [Driver(row[e["inst"]]) for e in case["engines"]] + others
        plans = [e["calls"] for e in case["engines"]] + [o["calls"] for o in case["others"]]
        got = [[] for _ in plans]
        sim = core.Sim(case["schedule"], max_events=2_000_000)
        ambient_changed = [False]

        def body(t):
            def run(th):
                for j, c in enumerate(plans[t]):
                    th.op = j
                    nz = case["noise"]
                    th.calls = 0
                    th.fault_fired = False
                    if nz and t >= n and nz["call"] == j:
                        th.fault_nth, th.fault_exc = nz["nth"], nz["exc"]
                    sim.point("inv", j)
                    got[t].append(drivers[t].call(c))
                    th.fault_nth = None
                    if th.fault_fired:
                        faults["exception:" + nz["exc"]] = faults.get("exception:" + nz["exc"], 0) + 1
                    sim.rearm()
                    if case["reseed"]:
                        # the application reseeds and uses the process-wide generator for itself
                        ambient.seed(42)
                        faults["ambient_reseeded"] = faults.get("ambient_reseeded", 0) + 1
                    sim.point("res", j)
            return run
        for t in range(len(plans)):
            sim.spawn(body(t))
        sim.run()
        if not case["reseed"] and ambient.getstate() != before:
            violation = {"kind": "ambient", "msg": "running an engine moved the process-wide random generator, so it is not reproducible for the application, nor the engine from it"}
        if sim.deadlock is not None or sim.aborting:
            violation = {"kind": "blocked", "msg": "run did not complete: %s" % sim.aborting}
        if violation is None:
            for i, e in enumerate(case["engines"]):
                for j, (w, g) in enumerate(zip(want[i], got[i])):
                    probe["compared_calls"] = probe.get("compared_calls", 0) + 1
                    if json.dumps(w) != json.dumps(g):
                        violation = {"kind": "not-reproducible", "msg": "instance %d with randseed %r, call %d: first load gives %s, later load gives %s; document %s" % (
                            e["inst"], case["seed"], j, json.dumps(w)[:500], json.dumps(g)[:500], json.dumps(doc)[:1200])}
                        break
                if violation:
                    break
        if violation is None:
            # instances draw different numbers: compare those that made the same calls
            for i in range(n):
                for k in range(i):
                    if case["engines"][i]["calls"] == case["engines"][k]["calls"] and json.dumps(got[i]) == json.dumps(got[k]):
                        violation = {"kind": "same-stream", "msg": "instances %d and %d of one load draw the same numbers: %s" % (case["engines"][k]["inst"], case["engines"][i]["inst"], json.dumps(got[i])[:500])}
                    else:
                        probe["instances_compared"] = probe.get("instances_compared", 0) + 1
        if violation is None and case["unseeded"]:
            res = [json.dumps([d.call(c) for c in case["engines"][0]["calls"]]) for d in free]
            probe["unseeded_compared"] = 1
            if len(set(res)) < len(res):
                violation = {"kind": "unseeded-same", "msg": "engines without a randseed draw the same numbers: " + res[0][:500]}
    return {"violation": violation, "probe": probe, "faults": faults, "sig": sim.sig, "events": sim.events, "result": [[r[:2] for r in g] for g in got],
            "nontrivial": len(plans) > 1, "schedule": sim.explicit_schedule(), "sim_time": core.CLOCK.total, "ops": sum(len(g) for g in got)}


def shrink(case):
    for k in ("others",):
        for i in range(len(case[k])):
            c = copy.deepcopy(case)
            del c[k][i]
            yield c
    for f in ("noise", "reseed", "unseeded"):
        if case[f]:
            c = copy.deepcopy(case)
            c[f] = False if f != "noise" else 0
            yield c
    for i, e in enumerate(case["engines"]):
        for j in range(len(e["calls"])):
            if len(e["calls"]) > 1:
                c = copy.deepcopy(case)
                del c["engines"][i]["calls"][j]
                yield c
    for i in range(len(case["doc"]["action"]) - 1):
        c = copy.deepcopy(case)
        del c["doc"]["action"][i]
        yield c


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink, far=alone,
                PLAN={"quick": {"cases": 3000, "budget": 50, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when at least two engines drew random numbers; distinct = distinct (interleaving signature, results) pairs",
                REAL=["titus reader, type checker, code generator", "generated engine code", "titus runtime", "rand library"],
                STUB=["operating-system entropy", "the process-wide random generator's seed", "thread scheduling", "clocks"],
                ASSUMPTIONS=["entropy delivered by the operating system differs between requests"])
