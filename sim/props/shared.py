"""C01, C02, C03: cells and pools shared by engines that run concurrently.

Workload: one or several documents over the same shared cells/pools; engines come from
multiplicity or from a SharedState handed to several loads; each simulated thread drives its own
engine; every action performs exactly one operation on one shared object, so the recorded history
is checked for linearizability against the reference model's semantics of that operation.
"""
import copy
import json

from .. import core, lin, refpfa
from ..world import titus, classify, RefErr

INT = "int"
REC = {"type": "record", "name": "Rec", "fields": [
    {"name": "a", "type": "int"}, {"name": "b", "type": {"type": "array", "items": "int"}},
    {"name": "c", "type": {"type": "map", "values": "int"}}]}
ARR = {"type": "array", "items": "int"}
MAP = {"type": "map", "values": "int"}
INPUT = {"type": "record", "name": "In", "fields": [
    {"name": "op", "type": "int"}, {"name": "x", "type": "int"}, {"name": "k", "type": "string"}]}
KEYS = ["p", "q", "r"]

FCNS = {
    "addOne": {"params": [{"old": "int"}], "ret": "int", "do": [{"+": ["old", 1]}]},
    "addK": {"params": [{"old": "int"}, {"d": "int"}], "ret": "int", "do": [{"+": ["old", "d"]}]},
    "slow": {"params": [{"old": "int"}, {"d": "int"}], "ret": "int", "do": [
        {"let": {"acc": "old"}},
        {"foreach": "i", "in": {"type": ARR, "value": [1, 2, 3]}, "do": [{"set": {"acc": {"+": ["acc", "i"]}}}], "seq": True},
        {"+": ["acc", {"-": ["d", 6]}]}]},
    "halve": {"params": [{"old": "int"}, {"d": "int"}], "ret": "int", "do": [{"//": ["old", "d"]}]},
    "picky": {"params": [{"old": "int"}, {"d": "int"}], "ret": "int", "do": [
        {"if": {"==": [{"%": ["d", 3]}, 0]}, "then": [{"error": "picky", "code": -7}]},
        {"*": ["old", 2]}]},
}


def int_updater(rng, fail):
    """something of type int -> int usable as "to" (x and k are in scope)"""
    r = rng.random()
    P = [{"old": "int"}]
    if fail and r < 0.35:
        return rng.choice([
            {"fcn": "u.picky", "fill": {"d": "x"}},
            {"fcn": "u.halve", "fill": {"d": "x"}},
            {"params": P, "ret": "int", "do": [{"//": ["old", "x"]}]},
            {"params": P, "ret": "int", "do": [{"let": {"t": {"+": ["old", 100]}}},
                                               {"if": {"<": ["x", 3]}, "then": [{"error": "small"}]}, "t"]},
            {"params": P, "ret": "int", "do": [{"+": ["old", {"attr": {"type": ARR, "value": [5, 6]}, "path": ["x"]}]}]},
            {"params": P, "ret": "int", "do": [{"u.picky": [{"u.addOne": ["old"]}, "x"]}]},
        ])
    return rng.choice([
        {"params": P, "ret": "int", "do": [{"+": ["old", "x"]}]},
        {"params": P, "ret": "int", "do": [{"+": [{"*": ["old", 2]}, 1]}]},
        {"params": P, "ret": "int", "do": [
            {"let": {"acc": "old"}},
            {"foreach": "i", "in": {"type": ARR, "value": [1, 2]}, "do": [{"set": {"acc": {"+": ["acc", "i"]}}}], "seq": True},
            "acc"]},
        {"params": P, "ret": "int", "do": [{"if": {"<": ["old", 10]}, "then": [{"+": ["old", 1]}], "else": [{"-": ["old", 7]}]}]},
        {"params": P, "ret": "int", "do": [{"a.fold": [{"type": ARR, "value": [1, 1]}, "old", {"fcn": "u.addK"}]}]},
        {"fcn": "u.addOne"},
        {"fcn": "u.addK", "fill": {"d": "x"}},
        {"fcn": "u.slow", "fill": {"d": "x"}},
        {"params": P, "ret": "int", "do": [{"u.slow": ["old", "x"]}]},
        "x",
    ])


def rec_updater(rng, fail):
    P = [{"old": "Rec"}]
    inner = int_updater(rng, fail)
    if isinstance(inner, str):
        inner = {"fcn": "u.addOne"}
    return rng.choice([
        {"params": P, "ret": "Rec", "do": [{"attr": "old", "path": [["a"]], "to": inner}]},
        {"params": P, "ret": "Rec", "do": [{"new": {"a": {"+": ["old.a", 1]}, "b": {"a.append": ["old.b", "x"]}, "c": "old.c"}, "type": "Rec"}]},
        {"params": P, "ret": "Rec", "do": [{"new": {"a": {"+": ["old.a", "x"]}, "b": "old.b", "c": {"map.add": ["old.c", ["p"], "old.a"]}}, "type": "Rec"}]},
    ])


def arr_updater(rng, fail):
    P = [{"old": ARR}]
    c = [
        {"params": P, "ret": ARR, "do": [{"a.append": ["old", "x"]}]},
        {"params": P, "ret": ARR, "do": [{"a.map": ["old", {"fcn": "u.addOne"}]}]},
        {"params": P, "ret": ARR, "do": [{"a.append": ["old", {"a.len": ["old"]}]}]},
    ]
    if fail:
        c.append({"params": P, "ret": ARR, "do": [{"a.map": ["old", {"params": [{"y": "int"}], "ret": "int", "do": [{"//": ["y", "x"]}]}]}]})
        c.append({"params": P, "ret": ARR, "do": [{"let": {"t": {"a.append": ["old", "x"]}}},
                                                  {"if": {"<": ["x", 4]}, "then": [{"error": "small"}]}, "t"]})
    return rng.choice(c)


def map_updater(rng, fail):
    P = [{"old": MAP}]
    c = [
        {"params": P, "ret": MAP, "do": [{"map.add": ["old", "k", "x"]}]},
        {"params": P, "ret": MAP, "do": [{"map.add": ["old", "k", {"map.len": ["old"]}]}]},
        {"params": P, "ret": MAP, "do": [{"map.remove": ["old", "k"]}]},
    ]
    if fail:
        c.append({"params": P, "ret": MAP, "do": [{"map.add": ["old", "k", {"//": [{"map.len": ["old"]}, "x"]}]}]})
    return rng.choice(c)


def cell_op(rng, name, typ, fail):
    """-> (expression in x and k, result type)"""
    if typ == "int":
        if rng.random() < 0.3:
            return {"cell": name}, "int"
        return {"cell": name, "to": int_updater(rng, fail)}, "int"
    if typ == "Rec":
        r = rng.random()
        if r < 0.15:
            return {"cell": name}, "Rec"
        if r < 0.25:
            return {"cell": name, "path": [["a"]]}, "int"
        if r < 0.35:
            return {"cell": name, "path": [["b"], {"%": ["x", 4]}]}, "int"
        if r < 0.55:
            return {"cell": name, "path": [["a"]], "to": int_updater(rng, fail)}, "Rec"
        if r < 0.65:
            return {"cell": name, "path": [["b"], {"%": ["x", 2]}], "to": int_updater(rng, fail)}, "Rec"
        if r < 0.72:
            return {"cell": name, "path": [["c"], ["p"]], "to": int_updater(rng, fail)}, "Rec"
        if r < 0.85:
            return {"cell": name, "path": [["b"]], "to": arr_updater(rng, fail)}, "Rec"
        return {"cell": name, "to": rec_updater(rng, fail)}, "Rec"
    if typ == "arr":
        r = rng.random()
        if r < 0.2:
            return {"cell": name}, "arr"
        if r < 0.35:
            return {"cell": name, "path": ["x"]}, "int"
        if r < 0.5:
            return {"cell": name, "path": [0], "to": int_updater(rng, fail)}, "arr"
        return {"cell": name, "to": arr_updater(rng, fail)}, "arr"
    if typ == "map":
        r = rng.random()
        if r < 0.2:
            return {"cell": name}, "map"
        if r < 0.35:
            return {"cell": name, "path": ["k"]}, "int"
        return {"cell": name, "to": map_updater(rng, fail)}, "map"
    raise core.HarnessError(typ)


REC0 = {"a": 3, "b": [1, 2], "c": {"p": 5}}


def pool_op(rng, name, typ, fail):
    r = rng.random()
    if r < 0.16:
        return {"do": [{"pool": name, "del": "k"}, {"type": "string", "value": "gone"}]}, "string"
    if typ == "int":
        if r < 0.34:
            return {"pool": name, "path": ["k"]}, "int"
        return {"pool": name, "path": ["k"], "to": int_updater(rng, fail),
                "init": rng.choice([0, "x", {"+": ["x", 40]}])}, "int"
    if typ == "Rec":
        init = {"type": "Rec", "value": REC0}
        if r < 0.28:
            return {"pool": name, "path": ["k"]}, "Rec"
        if r < 0.36:
            return {"pool": name, "path": ["k", ["b"], {"%": ["x", 3]}]}, "int"
        if r < 0.6:
            return {"pool": name, "path": ["k", ["a"]], "to": int_updater(rng, fail), "init": init}, "Rec"
        if r < 0.7:
            return {"pool": name, "path": ["k", ["b"], {"%": ["x", 2]}], "to": int_updater(rng, fail), "init": init}, "Rec"
        return {"pool": name, "path": ["k"], "to": rec_updater(rng, fail), "init": init}, "Rec"
    if typ == "arr":
        if r < 0.34:
            return {"pool": name, "path": ["k"]}, "arr"
        return {"pool": name, "path": ["k"], "to": arr_updater(rng, fail), "init": {"type": ARR, "value": [9]}}, "arr"
    raise core.HarnessError(typ)


TYPES = {"int": "int", "Rec": "Rec", "arr": ARR, "map": MAP, "string": "string"}
INITS = {"int": 5, "Rec": REC0, "arr": [4, 2], "map": {"p": 1}}


def base_doc(cells, pools):
    d = {"name": "Shared", "input": copy.deepcopy(INPUT), "output": "int", "cells": {
        "zzrec": {"type": copy.deepcopy(REC), "init": copy.deepcopy(REC0)}}, "pools": {}, "fcns": copy.deepcopy(FCNS)}
    for n, t in cells.items():
        d["cells"][n] = {"type": copy.deepcopy(TYPES[t]), "init": copy.deepcopy(INITS[t]), "shared": True}
    for n, (t, init) in pools.items():
        d["pools"][n] = {"type": copy.deepcopy(TYPES[t]), "init": copy.deepcopy(init), "shared": True}
    return d


def place(rng, expr, rtype):
    """Put the operation somewhere in the document's structure."""
    r = rng.random()
    T = copy.deepcopy(TYPES[rtype])
    if r < 0.5:
        return "direct", expr
    if r < 0.65:
        return "ufcn", expr
    if r < 0.8:
        return "mapfn", {"attr": {"a.map": [{"new": ["x"], "type": ARR},
                                            {"params": [{"y": "int"}], "ret": T, "do": [expr]}]}, "path": [0]}
    if r < 0.9:
        return "if", {"if": {">": ["x", -1000]}, "then": [expr], "else": [expr]}
    return "do", {"do": [{"let": {"unused": "x"}}, expr]}


def generate(rng, tier, which):
    """which: cells | pools | both ; C03 passes fail=True"""
    fail = which["fail"]
    cells, pools = {}, {}
    if which["cells"]:
        for i in range(rng.choice([1, 1, 2])):
            cells["c%d" % i] = rng.choice(["int", "int", "Rec", "arr", "map"])
    if which["pools"]:
        for i in range(rng.choice([1, 1, 2])):
            t = rng.choice(["int", "int", "Rec", "arr"])
            init = {} if rng.random() < 0.6 else {"p": copy.deepcopy(INITS[t])}
            pools["p%d" % i] = (t, init)
    objs = [("cell", n, t) for n, t in cells.items()] + [("pool", n, t) for n, (t, _) in pools.items()]
    # candidate operations
    ops = []
    for _ in range(rng.randint(3, 7)):
        kind, n, t = rng.choice(objs)
        expr, rt = (cell_op if kind == "cell" else pool_op)(rng, n, t, fail)
        ops.append({"obj": [kind, n], "expr": expr, "rtype": rt})
    if len(objs) == 1 or rng.random() < 0.7:
        pass
    by = {}
    for o in ops:
        by.setdefault(o["rtype"], []).append(o)
    docs = []
    for rt, lst in by.items():
        d = base_doc(cells, pools)
        d["output"] = copy.deepcopy(TYPES[rt])
        conds = []
        method = "emit" if rng.random() < 0.2 else "map"
        d["method"] = method
        for i, o in enumerate(lst):
            how, e = place(rng, o["expr"], rt)
            o["doc"], o["op"], o["how"] = len(docs), i, how
            if how == "ufcn":
                fn = "op%d" % i
                d["fcns"][fn] = {"params": [{"x": "int"}, {"k": "string"}], "ret": copy.deepcopy(TYPES[rt]), "do": [e]}
                e = {"u." + fn: ["x", "k"]}
            conds.append((i, e))
        if len(conds) == 1:
            sel = conds[0][1]
        else:
            sel = {"cond": [{"if": {"==": ["input.op", i]}, "then": [e]} for i, e in conds[:-1]], "else": [conds[-1][1]]}
        if method == "emit":
            sel = {"emit": [sel]}
        d["action"] = [{"let": {"x": "input.x"}}, {"let": {"k": "input.k"}}, sel]
        docs.append(d)
    # which objects exist per document: all of them (they share one state)
    nthreads = rng.choice([2, 2, 3, 3, 4])
    budget = rng.choice([6, 9, 12])
    threads = []
    for t in range(nthreads):
        tops = []
        for _ in range(max(1, budget // nthreads)):
            o = rng.choice(ops)
            op = {"o": ops.index(o), "x": rng.randint(0, 9), "k": rng.choice(KEYS if rng.random() < 0.3 else KEYS[:1])}
            if fail and rng.random() < 0.35:
                op["fault"] = {"nth": rng.choice([1, 2, 3, 4, 5, 6, 8, 12, 20]),
                               "exc": rng.choice(["MemoryError", "RuntimeError", "OSError", "RecursionError"])}
            tops.append(op)
        if rng.random() < 0.25:
            tops.insert(rng.randint(0, len(tops)), {"snap": rng.randrange(len(docs))})
        threads.append(tops)
    share = rng.choice(["instances", "state"]) if len(docs) == 1 else rng.choice(["state", "state+instances"])
    late = []
    if share == "state" and rng.random() < 0.35:
        late = sorted(rng.sample(range(nthreads), rng.randint(2, nthreads)))
    return {"docs": docs, "ops": ops, "threads": threads, "share": share, "late": late,
            "schedule": core.random_schedule(rng, 6000 * nthreads), "entropy": rng.getrandbits(32),
            "trace": "opcode"}


def model_apply(doc, o, op):
    """-> apply(state) for the object this operation touches; state is the value or ABSENT."""
    kind, name = o["obj"]
    expr = o["expr"]

    def apply(state):
        m = refpfa.Ref(doc)
        env = refpfa.Env()
        env.vars["x"] = op["x"]
        env.vars["k"] = op["k"]
        m.t0 = 0.0
        if kind == "cell":
            m.cells = {name: state}
            m.pools = {}
        else:
            m.cells = {}
            m.pools = {name: ({} if state == lin.ABSENT else {op["k"]: state})}
        try:
            r = ["ok", m.ev(expr, env)]
        except RefErr as e:
            r = ["err", e.kind, e.code]
        if kind == "cell":
            new = m.cells[name]
        else:
            new = m.pools[name].get(op["k"], lin.ABSENT)
        return [(r, new)]
    return apply


# the part of a load in which shared state is found or created
LOAD_TAIL = ("fromAst", "jsonDecoder", "initJsonNode", "__init__", "initialize")


def read_apply(state):
    return [(state, state)]


def fault_apply(state):
    return [(["err", "fault", None], state)]


def execute(case):
    T = titus()
    core.begin_case(case["entropy"])
    docs, ops = case["docs"], case["ops"]
    nt = len(case["threads"])
    probe = {}

    def hit(n, k=1):
        probe[n] = probe.get(n, 0) + k

    with core.virtual_time():
        # engines[d][t]: the engine thread t uses for document d
        engines = []
        if case["share"] == "instances":
            for d in docs:
                engines.append(T.PFAEngine.fromJson(copy.deepcopy(d), multiplicity=nt + 1))
        else:
            st = T.SharedState()
            for d in docs:
                if case["share"] == "state":
                    # an engine that is loaded late is loaded by its own thread, while others run
                    engines.append([None if t in case.get("late", ()) or (t == nt and case.get("late")) else
                                    T.PFAEngine.fromJson(copy.deepcopy(d), sharedState=st)[0] for t in range(nt + 1)])
                else:
                    engines.append(T.PFAEngine.fromJson(copy.deepcopy(d), sharedState=st, multiplicity=nt + 1))
        emitted = {}

        def adopt(e):
            lst = emitted.setdefault(id(e), [])
            e.emit = lst.append
        for row in engines:
            for e in row:
                if e is not None:
                    adopt(e)
        asts = {}
        for t in case.get("late", ()):
            for d in range(len(docs)):
                asts[d, t] = T.reader.jsonToAst(copy.deepcopy(docs[d]))

        def late_load(th, t):
            th.narrow = LOAD_TAIL
            for d in range(len(docs)):
                engines[d][t], = T.PFAEngine.fromAst(asts[d, t], sharedState=st)
                adopt(engines[d][t])
            th.narrow = None

        def snap(t, d):
            s = engines[d][t].snapshot()
            return {"cell": {n: c.initJsonNode for n, c in s.cells.items()}, "pool": {n: dict(c.initJsonNode) for n, c in s.pools.items()}}
        sim = core.Sim(case["schedule"], trace=case.get("trace", "opcode"), max_events=case.get("max_events", 3_000_000))
        history, snaps = [], []

        def call(th, t, j, o, op):
            eng = engines[o["doc"]][t]
            lst = emitted[id(eng)]
            n0 = len(lst)
            inp = {"op": o["op"], "x": op["x"], "k": op["k"]}
            try:
                r = eng.action(inp)
                if docs[o["doc"]]["method"] == "emit":
                    r = lst[n0] if len(lst) == n0 + 1 else "<%d values emitted>" % (len(lst) - n0)
                return ["ok", copy.deepcopy(r)]
            except core.SimKill:
                raise
            except core.WouldBlockForever:
                return ["stuck"]
            except Exception as err:
                return classify(err)

        def body(t):
            def run(th):
                if t in case.get("late", ()):
                    late_load(th, t)
                    hit("late_load")
                for j, op in enumerate(case["threads"][t]):
                    th.op = j
                    if "snap" in op:
                        sim.point("inv", j)
                        inv = sim.events
                        v = snap(t, op["snap"])
                        sim.rearm()
                        sim.events += 1
                        snaps.append({"t": t, "j": j, "inv": inv, "res": sim.events, "v": v})
                        hit("snapshot_while_running")
                        sim.point("res", j)
                        continue
                    o = ops[op["o"]]
                    f = op.get("fault")
                    th.calls = 0
                    th.fault_nth = f["nth"] if f else None
                    th.fault_exc = f["exc"] if f else None
                    th.fault_fired = False
                    sim.point("inv", j)
                    inv = sim.events
                    r = call(th, t, j, o, op)
                    th.fault_nth = None
                    sim.rearm()
                    sim.events += 1
                    history.append({"t": t, "j": j, "inv": inv, "res": sim.events, "r": r,
                                    "op": op, "fault": th.fault_fired})
                    sim.point("res", j)
            return run
        for t in range(nt):
            sim.spawn(body(t))
        sim.run()
        violation = None
        if sim.deadlock is not None or sim.aborting == "deadlock":
            violation = {"kind": "no-progress", "msg": "threads blocked for ever: " + json.dumps(
                [{"thread": a, "operation": describe(case, a, b)} for a, b, c in sim.deadlock])}
        elif sim.aborting == "budget":
            violation = {"kind": "no-progress", "msg": "no completion within %d scheduling steps" % sim.max_events}
        final = []
        if violation is None:
            # faults have stopped: every engine must still be able to use every object
            stamp = sim.events + 1
            for d in range(len(docs)):
                if engines[d][nt] is None:
                    engines[d][nt], = T.PFAEngine.fromJson(copy.deepcopy(docs[d]), sharedState=st)
                    adopt(engines[d][nt])
            for o_i, o in enumerate(ops):
                for t in range(nt + 1):
                    for k in (KEYS if o["obj"][0] == "pool" else KEYS[:1]):
                        if (o_i + t + KEYS.index(k)) % 2 and len(ops) > 3:
                            continue
                        op = {"o": o_i, "x": 7, "k": k}
                        stamp += 2
                        r = call(None, t, -1, o, op)
                        if r == ["stuck"]:
                            violation = {"kind": "stuck", "msg": "after all operations finished, engine %d can never again perform %s: its lock is still held" % (
                                t, json.dumps(o["expr"]))}
                            break
                        final.append({"t": nt + t, "j": -1, "inv": stamp, "res": stamp + 1, "r": r, "op": op, "fault": False})
                    if violation:
                        break
                if violation:
                    break
    if violation is None:
        groups = {}
        for h in history + final:
            o = ops[h["op"]["o"]]
            key = (o["obj"][0], o["obj"][1], h["op"]["k"] if o["obj"][0] == "pool" else None)
            groups.setdefault(key, []).append(h)
        for key, hs in sorted(groups.items(), key=str):
            kind, name, k = key
            if kind == "cell":
                init = docs[0]["cells"][name]["init"]
            else:
                init = docs[0]["pools"][name]["init"].get(k, lin.ABSENT)
            lops = []
            for h in hs:
                o = ops[h["op"]["o"]]
                ap = fault_apply if h["fault"] and h["r"][:2] == ["err", "fault"] else model_apply(docs[o["doc"]], o, h["op"])
                lops.append(lin.Op(h["t"], h["inv"], h["res"], ap, h["r"],
                                   {"thread": h["t"], "op": o["expr"], "x": h["op"]["x"], "k": h["op"]["k"], "result": h["r"]}))
            for h in snaps:
                v = h["v"][kind][name] if kind == "cell" else h["v"][kind][name].get(k, lin.ABSENT)
                lops.append(lin.Op(h["t"], h["inv"], h["res"], read_apply, v, {"thread": h["t"], "op": "snapshot", "result": v}))
            try:
                ok, wit, n = lin.check(lops, init)
            except lin.TooBig:
                hit("lin_too_big")
                continue
            hit("lin_states", n)
            hit("objects_checked")
            if not ok:
                violation = {"kind": "not-linearizable", "msg": "%s %s%s started as %s: no order of the operations explains the results" % (
                    kind, name, "" if k is None else "[%s]" % k, json.dumps(init)), "witness": wit}
                break
    for h in history:
        if h["fault"]:
            hit("fault:" + h["op"]["fault"]["exc"])
        if h["r"][0] == "err" and h["r"][1] != "fault":
            hit("updater_error")
        o = ops[h["op"]["o"]]
        hit("op:" + ("%s-%s" % (o["obj"][0], "to" if "to" in o["expr"] else "del" if "do" in o["expr"] else "get")))
        hit("how:" + o["how"])
    overl = sum(1 for a in history for b in history if a["t"] < b["t"] and a["inv"] < b["res"] and b["inv"] < a["res"])
    if overl:
        hit("overlapping_pairs", overl)
    hit("lock_contention", sim.stats["blocked"])
    hit("preempted_inside_titus", sim.stats["preempt_in_titus"])
    return {"violation": violation, "probe": probe, "sig": sim.sig, "events": sim.events,
            "result": [[h["t"], h["j"], h["r"]] for h in history] + [h["r"] for h in final],
            "nontrivial": overl > 0, "schedule": sim.explicit_schedule(), "sim_time": core.CLOCK.total,
            "faults": {k[6:]: v for k, v in probe.items() if k.startswith("fault:")},
            "ops": len(history) + len(final)}


def describe(case, t, j):
    try:
        op = case["threads"][t][j]
        return "snapshot" if "snap" in op else case["ops"][op["o"]]["expr"]
    except Exception:
        return j


def shrink(case):
    """Candidate simplifications, most drastic first."""
    n = len(case["threads"])
    # drop a thread (keeps engine numbering: replace by an empty list)
    for t in range(n):
        if case["threads"][t]:
            c = copy.deepcopy(case)
            c["threads"][t] = []
            yield c
    if case.get("late"):
        c = copy.deepcopy(case)
        c["late"] = []
        yield c
    for t in range(n):
        for j in range(len(case["threads"][t])):
            c = copy.deepcopy(case)
            del c["threads"][t][j]
            yield c
    for t in range(n):
        for j, op in enumerate(case["threads"][t]):
            if "fault" in op:
                c = copy.deepcopy(case)
                del c["threads"][t][j]["fault"]
                yield c
            if op.get("k", "p") != "p":
                c = copy.deepcopy(case)
                c["threads"][t][j]["k"] = "p"
                yield c


WHICH = {"C01": {"cells": True, "pools": False, "fail": False},
         "C02": {"cells": False, "pools": True, "fail": False},
         "C03": {"cells": True, "pools": True, "fail": True}}


def view(prop):
    from ..registry import View
    w = WHICH[prop]

    def gen(rng, tier):
        ww = dict(w)
        if prop == "C03":
            r = rng.random()
            ww["cells"], ww["pools"] = (True, False) if r < 0.4 else (False, True) if r < 0.8 else (True, True)
        return generate(rng, tier, ww)
    return View(generate=gen, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 2400, "budget": 60, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when operations of different threads overlapped in simulated time; "
                     "distinct = distinct (interleaving signature, results) pairs",
                REAL=["titus reader, type checker, code generator", "generated engine code", "titus.genpy cells/pools/update", "titus.lib functions"],
                STUB=["thread scheduling (seeded, per bytecode)", "threading.Lock and relatives", "clocks", "entropy"],
                ASSUMPTIONS=["one bytecode of titus or of generated code is atomic (as under CPython/PyPy's global interpreter lock)"])
