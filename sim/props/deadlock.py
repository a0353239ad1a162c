"""C12: documents whose updates could wait for one another are rejected; accepted ones never block.

Documents with arbitrarily nested updates, user functions, references, partial application and calls by name are loaded; an
independent analysis of the document says whether any updater can reach another update.  Such a document must be
rejected, every other one accepted; and accepted ones are run by several threads, in which nobody may be left waiting."""
import copy
import json
import re

from .. import core
from ..world import titus, classify

LEAF = ["lit", "var", "cell", "pool"]


class Gen(object):
    def __init__(self, rng):
        self.rng = rng
        self.nf = rng.randint(1, 5)
        self.cells = ["c%d" % i for i in range(rng.randint(1, 3))]
        self.pools = ["p%d" % i for i in range(rng.randint(1, 2))]
        # functions that are meant to change nothing; the analysis below decides, not this
        self.clean = [rng.random() < 0.6 for _ in range(self.nf)]
        self.cyclic = rng.random() < 0.12
        self.p_bad = rng.choice([0.0, 0.0, 0.01, 0.05, 0.2])
        self.n = 0

    def name(self):
        self.n += 1
        return "v%d" % self.n

    def callable_fns(self, me, clean):
        out = []
        for j in range(self.nf):
            if (self.cyclic or j < me) and (not clean or self.clean[j] or self.rng.random() < self.p_bad):
                out.append(j)
        return out

    def expr(self, d, vars, me, clean):
        """An int-valued expression.  clean: it is meant to have no side effects."""
        rng = self.rng
        if d <= 0 or rng.random() < 0.15:
            k = rng.choice(LEAF)
            if k == "var" and vars:
                return rng.choice(vars)
            if k == "cell":
                return {"cell": rng.choice(self.cells)}
            if k == "pool":
                return {"pool": rng.choice(self.pools), "path": [{"string": "k0"}]} if rng.random() < 0.3 else {"ifnotnull": {"pv": {"try": [{"pool": rng.choice(self.pools), "path": [{"string": "k0"}]}]}}, "then": "pv", "else": 0}
            return rng.randint(0, 5)
        fns = self.callable_fns(me, clean)
        kinds = ["+", "do", "if", "foreach", "map", "inline", "let", "try", "new", "forkey", "doc", "fcncall", "for", "loop", "cast", "pack", "path", "attrto", "arr", "key"]
        if fns:
            kinds += ["call", "call", "ref", "fill", "byname"]
        if not clean or rng.random() < self.p_bad:
            kinds += ["update"] * 5 + ["del"]
        k = rng.choice(kinds)
        e = lambda v=vars: self.expr(d - 1, v, me, clean)
        if k == "+":
            return {rng.choice(["+", "max", "min"]): [e(), e()]}
        if k == "do":
            return {"do": [e(), e()]}
        if k == "let":
            v = self.name()
            return {"do": [{"let": {v: e()}}, e(vars + [v])]}
        if k == "if":
            return {"if": {rng.choice(["<", ">", "=="]): [e(), e()]}, "then": e(), "else": e()} if rng.random() < 0.7 else \
                {"cond": [{"if": {"<": [e(), 2]}, "then": e()}, {"if": True, "then": e()}], "else": e()}
        if k == "foreach":
            v, a = self.name(), self.name()
            return {"do": [{"let": {a: e()}}, {"foreach": v, "in": {"type": {"type": "array", "items": "int"}, "new": [e(), 2]},
                                               "do": [{"set": {a: e(vars + [v, a])}}], "seq": True}, a]}
        if k == "forkey":
            kk, v, a = self.name(), self.name(), self.name()
            return {"do": [{"let": {a: 0}}, {"forkey": kk, "forval": v, "in": {"type": {"type": "map", "values": "int"}, "new": {"a": e()}},
                                             "do": [{"set": {a: e(vars + [v, a])}}]}, a]}
        if k == "for":
            i, a = self.name(), self.name()
            w = vars + [i, a]
            return {"do": [{"let": {"r" + a: 0}}, {"for": {i: 0, a: e()}, "while": {"&&": [{"<": [i, 2]}, {"<": [0, {"max": [1, e(w)]}]}]}, "step": {i: {"+": [i, 1]}, a: e(w)},
                                                   "do": [{"set": {"r" + a: e(w)}}]}, "r" + a]}
        if k == "loop":
            i, a = self.name(), self.name()
            pred = {"<": [0, {"max": [1, e(vars + [a])]}]}
            body = [{"set": {i: {"+": [i, 1]}}}, {"set": {a: e(vars + [a])}}]
            if rng.random() < 0.5:
                return {"do": [{"let": {i: 0, a: 0}}, {"while": {"&&": [{"<": [i, 2]}, pred]}, "do": body}, a]}
            return {"do": [{"let": {i: 0, a: 0}}, {"do": body, "until": {"||": [{">=": [i, 2]}, {"!": [pred]}]}}, a]}
        if k == "cast":
            v = self.name()
            return {"cast": {"upcast": e(), "as": ["int", "string"]}, "cases": [{"as": "int", "named": v, "do": e(vars + [v])}, {"as": "string", "named": v + "s", "do": e()}]}
        if k == "pack":
            v = self.name()
            return {"unpack": {"pack": [{"int": e()}]}, "format": [{v: "int"}], "then": e(vars + [v]), "else": e()}
        if k == "path":
            return {"attr": {"type": {"type": "array", "items": "int"}, "value": [4, 5]}, "path": [{"min": [0, {"max": [0, e()]}]}]}
        if k == "attrto":
            v = self.name()
            return {"attr": {"attr": {"type": {"type": "array", "items": "int"}, "new": [e(), 1]}, "path": [{"min": [0, {"max": [0, e()]}]}],
                             "to": e() if rng.random() < 0.5 else {"params": [{v: "int"}], "ret": "int", "do": [self.expr(d - 1, [v], me, clean)]}}, "path": [0]}
        if k == "arr":
            return {"cell": "arr", "path": [{"min": [0, {"max": [0, e()]}]}]}
        if k == "key":
            return {"ifnotnull": {"pv": {"try": [{"pool": rng.choice(self.pools), "path": [{"if": {"<": [e(), 2]}, "then": {"string": "k1"}, "else": {"string": "k2"}}]}]}}, "then": "pv", "else": 0}
        if k == "new":
            return {"attr": {"type": {"type": "array", "items": "int"}, "new": [e(), e()]}, "path": [rng.randint(0, 1)]}
        if k == "try":
            v = self.name()
            return {"ifnotnull": {v: {"try": [e()]}}, "then": v, "else": e()}
        if k == "doc":
            return {"do": [{"doc": "nothing"}, {"log": [e()]}, e()]}
        if k == "map" or k == "inline":
            v = self.name()
            return {"a.reduce" if k == "inline" else "a.reduceRight": [{"type": {"type": "array", "items": "int"}, "new": [e(), 1]},
                    {"params": [{v: "int"}, {v + "b": "int"}], "ret": "int", "do": [self.expr(d - 1, [v], me, clean)]}]}
        if k == "fcncall":
            v = self.name()
            return {"a.count": [{"type": {"type": "array", "items": "int"}, "new": [e(), 1]},
                                {"params": [{v: "int"}], "ret": "boolean", "do": [{"<": [self.expr(d - 1, [v], me, clean), 3]}]}]}
        if k == "call":
            return {"u.f%d" % rng.choice(fns): [e()]}
        if k == "ref":
            return {"attr": {"a.map": [{"type": {"type": "array", "items": "int"}, "new": [e(), 1]}, {"fcn": "u.f%d" % rng.choice(fns)}]}, "path": [0]}
        if k == "fill":
            j = rng.choice(fns)
            return {"attr": {"a.map": [{"type": {"type": "array", "items": "int"}, "new": [e(), 1]}, {"fcn": "u.g%d" % j, "fill": {"y": e()}}]}, "path": [0]}
        if k == "byname":
            j = rng.choice(fns)
            return {"call": {"cell": "sel%d" % j}, "args": [e()]}
        if k == "del":
            return {"do": [{"pool": rng.choice(self.pools), "del": {"string": rng.choice(["k1", "k2"])}}, e()]}
        return self.update(d - 1, vars, me, clean)

    def updater(self, d, me):
        """What stands in "to"."""
        rng = self.rng
        fns = self.callable_fns(me, True)
        r = rng.random()
        if r < 0.2 and fns:
            return {"fcn": "u.f%d" % rng.choice(fns)}
        if r < 0.35 and fns:
            return {"fcn": "u.g%d" % rng.choice(fns), "fill": {"y": self.expr(d - 1, [], me, True)}}
        v = self.name()
        return {"params": [{v: "int"}], "ret": "int", "do": [self.expr(d, [v], me, True) for _ in range(rng.randint(1, 2))]}

    def update(self, d, vars, me, clean):
        rng = self.rng
        r = rng.random()
        if r < 0.1:
            return {"attr": {"cell": "arr", "path": [{"min": [0, {"max": [0, self.expr(d - 1, vars, me, clean)]}]}],
                             "to": self.expr(d - 1, vars, me, clean) if rng.random() < 0.15 else self.updater(d, me)}, "path": [0]}
        if r < 0.5:
            return {"cell": rng.choice(self.cells), "to": self.expr(d - 1, vars, me, clean) if rng.random() < 0.15 else self.updater(d, me)}
        return {"pool": rng.choice(self.pools), "path": [{"string": rng.choice(["k1", "k2"])}],
                "to": self.expr(d - 1, vars, me, clean) if rng.random() < 0.15 else self.updater(d, me), "init": self.expr(d - 2, vars, me, clean)}

    def document(self):
        rng = self.rng
        depth = rng.choice([2, 3, 3, 4])
        doc = {"name": "Dead", "input": "int", "output": "int", "cells": {}, "pools": {}, "fcns": {}}
        for c in self.cells:
            doc["cells"][c] = {"type": "int", "init": 1, "shared": rng.random() < 0.85}
        doc["cells"]["arr"] = {"type": {"type": "array", "items": "int"}, "init": [1, 2], "shared": rng.random() < 0.85}
        for p in self.pools:
            doc["pools"][p] = {"type": "int", "init": {"k0": 1}, "shared": rng.random() < 0.85}
        for j in range(self.nf):
            doc["fcns"]["f%d" % j] = {"params": [{"x": "int"}], "ret": "int", "do": [self.expr(depth, ["x"], j, self.clean[j])]}
            doc["fcns"]["g%d" % j] = {"params": [{"x": "int"}, {"y": "int"}], "ret": "int", "do": [self.expr(depth - 1, ["x", "y"], j, self.clean[j])]}
        for j in range(self.nf):
            others = [i for i in range(self.nf) if i != j and i < j + 1 and (not self.clean[j] or self.clean[i])]
            syms = ["f%d" % j] + (["f%d" % rng.choice(others)] if others and rng.random() < 0.5 else [])
            doc["cells"]["sel%d" % j] = {"type": {"type": "enum", "name": "Sel%d" % j, "symbols": syms}, "init": rng.choice(syms)}
        ops = []
        for i in range(rng.randint(2, 4)):
            ops.append([self.expr(depth, ["input"], self.nf, False) if rng.random() < 0.3 else self.update(depth, ["input"], self.nf, False)])
            if rng.random() < 0.4:      # two updates in one action, one after the other
                ops[-1].append(self.update(depth - 1, ["input"], self.nf, False))
        doc["action"] = {"cond": [{"if": {"==": ["input", i]}, "then": {"do": o}} for i, o in enumerate(ops[:-1])], "else": {"do": ops[-1]}}
        for c in list(doc["cells"]):
            if not re.search(r'"cell": "%s"' % c, json.dumps([doc["action"], doc["fcns"]])) and c.startswith("sel"):
                del doc["cells"][c]
        return doc, len(ops)


# ------------------------------------------------------------------ the analysis

def walk(x):
    yield x
    if isinstance(x, dict):
        for v in x.values():
            for y in walk(v):
                yield y
    elif isinstance(x, list):
        for v in x:
            for y in walk(v):
                yield y


def refs(doc, body):
    """The user functions this expression may call, and whether it changes state itself."""
    out, dirty = set(), False
    for n in walk(body):
        if not isinstance(n, dict):
            continue
        if ("cell" in n or "pool" in n) and ("to" in n or "del" in n):
            dirty = True
        if "fcn" in n:
            out.add(n["fcn"][2:])
        if "call" in n:
            out.update(doc["cells"][n["call"]["cell"]]["type"]["symbols"])
        for k in n:
            if k.startswith("u."):
                out.add(k[2:])
    return out, dirty


def may_block(doc):
    """Can any updater reach another update?"""
    info = {f: refs(doc, d["do"]) for f, d in doc["fcns"].items()}
    dirty = {f for f in info if info[f][1]}
    while True:
        more = {f for f in info if f not in dirty and info[f][0] & dirty}
        if not more:
            break
        dirty |= more
    for n in walk([doc["action"], doc["fcns"]]):
        if isinstance(n, dict) and ("cell" in n or "pool" in n) and "to" in n and isinstance(n["to"], dict):
            to = n["to"]
            if "params" in to:
                body = to["do"]
            elif "fcn" in to:
                body = to
            else:
                continue
            r, dd = refs(doc, body)
            if dd or r & dirty:
                return True
    return False


# ------------------------------------------------------------------ cases

def generate(rng, tier):
    for _ in range(30):
        g = Gen(rng)
        doc, nops = g.document()
        n = len(json.dumps(doc))
        if n < 12000:
            break
    nt = rng.choice([2, 2, 3])
    threads = []
    for t in range(nt):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            op = {"op": rng.randrange(nops)}
            if rng.random() < 0.1:
                op["fault"] = {"nth": rng.choice([1, 2, 3, 5, 8]), "exc": rng.choice(["MemoryError", "RuntimeError", "RecursionError"])}
            ops.append(op)
        threads.append(ops)
    return {"doc": doc, "threads": threads, "cyclic": g.cyclic, "share": rng.choice(["instances", "state"]), "entropy": rng.getrandbits(32),
            "schedule": core.random_schedule(rng, 3000 * nt)}


def execute(case):
    T = titus()
    probe, faults = {}, {}

    def hit(n, k=1):
        probe[n] = probe.get(n, 0) + k
    core.begin_case(case["entropy"])
    doc, nt = case["doc"], len(case["threads"])
    want = may_block(doc)
    violation, sim, results = None, None, []
    with core.virtual_time():
        try:
            if case["share"] == "instances":
                engines = T.PFAEngine.fromJson(copy.deepcopy(doc), multiplicity=nt)
            else:
                st = T.SharedState()
                engines = [T.PFAEngine.fromJson(copy.deepcopy(doc), sharedState=st)[0] for _ in range(nt)]
            verdict = "accepted"
        except T.errors.PFAInitializationException:
            verdict = "rejected"
            hit("rejected")
        if verdict == "rejected" and not want:
            violation = {"kind": "rejected", "msg": "no updater can reach another update, but the document is rejected: " + json.dumps(doc)[:3000]}
        elif verdict == "accepted":
            hit("accepted")
            if not case["cyclic"]:
                sim = core.Sim(case["schedule"], max_events=3_000_000)

                def body(t):
                    def run(th):
                        for j, op in enumerate(case["threads"][t]):
                            f = op.get("fault")
                            th.op = j
                            th.calls = 0
                            th.fault_fired = False
                            th.fault_nth, th.fault_exc = (f["nth"], f["exc"]) if f else (None, None)
                            sim.point("inv", j)
                            try:
                                r = ["ok", engines[t].action(op["op"])]
                            except core.SimKill:
                                raise
                            except core.WouldBlockForever:
                                r = ["stuck"]
                            except Exception as err:
                                r = classify(err)
                            th.fault_nth = None
                            if th.fault_fired:
                                faults["exception:" + f["exc"]] = faults.get("exception:" + f["exc"], 0) + 1
                            sim.rearm()
                            results.append([t, j, r])
                            hit("outcome:" + r[0])
                            sim.point("res", j)
                    return run
                for e in engines:
                    e.log = lambda *a: None
                for t in range(nt):
                    sim.spawn(body(t))
                sim.run()
                hit("run_concurrently")
                hit("lock_waits", sim.stats.get("blocked", 0))
                if sim.deadlock is not None or sim.aborting == "deadlock":
                    violation = {"kind": "blocked", "msg": "an accepted document blocks: %s; the analysis says it %s; document %s" % (
                        json.dumps([d[:2] for d in sim.deadlock or []]), "may" if want else "may not", json.dumps(doc)[:2500])}
                elif any(r[2] == ["stuck"] for r in results):
                    violation = {"kind": "blocked", "msg": "a call waits for a lock of its own: %s; document %s" % (json.dumps(results)[:500], json.dumps(doc)[:2500])}
                elif sim.aborting == "budget":
                    hit("abandoned_too_long")
            if violation is None and want:
                violation = {"kind": "accepted", "msg": "an updater can reach another update, but the document is accepted: " + json.dumps(doc)[:3000]}
    return {"violation": violation, "probe": probe, "faults": faults, "sig": [verdict, sim.sig if sim else core.stable_hash(doc) if hasattr(core, "stable_hash") else json.dumps(doc)[:300]],
            "events": sim.events if sim else 0, "result": [verdict, results], "nontrivial": sim is not None and sim.stats["preempt_in_titus"] > 0 or verdict == "rejected",
            "schedule": sim.explicit_schedule() if sim else case["schedule"], "sim_time": core.CLOCK.total, "ops": len(results)}


def subst(x, path, v):
    if not path:
        return v
    y = copy.copy(x)
    y[path[0]] = subst(x[path[0]], path[1:], v)
    return y


def spots(x, path=()):
    if isinstance(x, dict):
        items = list(x.items())
    elif isinstance(x, list):
        items = list(enumerate(x))
    else:
        return
    for k, v in items:
        if isinstance(v, (dict, list)):
            yield path + (k,), v
            for s in spots(v, path + (k,)):
                yield s


def shrink(case):
    for t in range(len(case["threads"])):
        if len(case["threads"]) > 1:
            c = copy.deepcopy(case)
            del c["threads"][t]
            yield c
        for j in range(len(case["threads"][t])):
            if len(case["threads"][t]) > 1:
                c = copy.deepcopy(case)
                del c["threads"][t][j]
                yield c
    doc = case["doc"]
    for where in ("action", "fcns"):
        for p, v in spots(doc[where], (where,)):
            if isinstance(v, dict) and not ("params" in v or "fcn" in v or "type" in v) and p[-1] not in ("fill", "let", "set", "args") and len(json.dumps(v)) > 12:
                yield dict(case, doc=subst(doc, p, 1))
    for f in list(doc["fcns"]):
        d = copy.deepcopy(doc)
        del d["fcns"][f]
        if '"u.%s"' % f not in json.dumps(d) and not any(f in c["type"].get("symbols", []) for c in d["cells"].values() if isinstance(c["type"], dict)):
            yield dict(case, doc=d)


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 6000, "budget": 45, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when the document was rejected, or was run by threads preempted inside titus; distinct = distinct (verdict, interleaving signature, results)",
                REAL=["titus reader, type checker, deadlock check, code generator", "generated engine code", "titus runtime"],
                STUB=["thread scheduling (seeded, per bytecode)", "locks", "clocks", "entropy", "log consumer"],
                ASSUMPTIONS=["one bytecode of titus or of generated code is atomic", "a call by name may reach any symbol of its enumeration"])
