"""C11: an engine restored from a saved snapshot continues as the original would have.

An engine runs a history of calls, some of them failing; snapshots are taken at seeded points and written out as text.
The process then "crashes" at each of those points: a process that has run nothing loads the text and is given the
remaining calls.  Outcomes and state must be those of the engine that went on; and the run that took the snapshots must
be identical to one that took none."""
import copy
import json
import re

from .. import core, corpus
from ..corpus import Driver, canon, untag
from ..gen import minipfa, zoo
from ..world import titus

TAGS = {"null", "boolean", "int", "long", "float", "double", "string", "bytes", "array", "map"}


TYPENAME = re.compile(r"[A-Z]\w*$")


def loose(x):
    """Numbers by value, bytes as text and unions without tags: the representations a document cannot tell apart by storing them."""
    if isinstance(x, bool) or x is None:
        return x
    if isinstance(x, int):
        try:
            return "n:" + repr(float(x)) if float(x) == x else x
        except OverflowError:
            return x
    if isinstance(x, str):
        if x.startswith("f:"):
            return "n:" + x[2:]
        return x
    if isinstance(x, dict):
        if list(x) == ["$bytes"]:
            return "".join(map(chr, x["$bytes"]))
        if list(x) == ["$map"] and len(x["$map"]) == 1 and (x["$map"][0][0] in TAGS or TYPENAME.match(x["$map"][0][0])):
            return loose(x["$map"][0][1])
        return {k: loose(v) for k, v in x.items()}
    if isinstance(x, list):
        return [loose(v) for v in x]
    return x


def J(x):
    return json.dumps(loose(x), sort_keys=True)


def loads(doc):
    try:
        titus().PFAEngine.fromJson(copy.deepcopy(doc))
    except Exception:
        return False
    return True


def generate(rng, tier):
    r = rng.random()
    tick = 0
    if r < 0.45:
        for _ in range(8):
            doc, calls = zoo.document(rng)
            if loads(doc):
                break
        kind = "zoo"
    elif r < 0.65:
        slow = rng.random() < 0.4
        doc = minipfa.Gen(rng, **(dict(w_state=3.0, w_loop=3.0, w_log=3.0) if slow else dict(w_state=3.0))).document()
        if slow:        # limits the document sets itself, and consumers slow enough to reach them
            lim = rng.choice([50, 200])
            doc["options"] = rng.choice([{"timeout": lim}, {"timeout.action": lim}, {"timeout": lim * 50, "timeout.action": lim}, {"timeout.begin": lim, "timeout.end": lim},
                                         {"timeout": 0, "x": "y"}])
            tick = lim / rng.choice([0.9, 1.9, 3.7]) / 1000.0
        calls = []
        for op in minipfa.history(rng, doc, 8, 1, {"bad": 0.5}):
            calls.append(["action", op["input"]] if op["op"] in ("action", "bad") else ["merge", op["a"], op["b"]] if op["op"] == "merge" else [op["op"]])
        kind = "gen"
    else:
        docs = corpus.load()
        for _ in range(50):
            o = rng.choice(docs)
            if o["doc"].get("cells") or o["doc"].get("pools") or rng.random() < 0.15:
                break
        doc, calls = copy.deepcopy(o["doc"]), [list(c) for c in o["calls"]]
        while len(calls) < 3:
            calls = calls + [list(c) for c in o["calls"]]
        if len(calls) > 8:
            i = rng.randrange(len(calls) - 7)
            calls = calls[i:i + 8]
        kind = "corpus"
    doc.setdefault("randseed", rng.randint(1, 10 ** 6))
    doc.setdefault("name", "Eng")
    n = len(calls)
    snaps = sorted(set(rng.randint(0, n) for _ in range(rng.choice([1, 2, 3]))))
    faults = {}
    for j in range(n):
        if rng.random() < 0.15:
            faults[str(j)] = {"nth": rng.choice([1, 2, 3, 5, 8]), "exc": rng.choice(["MemoryError", "RuntimeError", "OSError", "RecursionError"])} \
                if rng.random() < 0.7 else {"cb": rng.choice([1, 2])}
    return {"kind": kind, "doc": doc, "calls": calls, "snaps": snaps, "faults": faults,
            "via": rng.choice(["text", "text", "text", "lines", "yaml", "ast", "twice"]), "tick": tick, "entropy": rng.getrandbits(32)}


def state_of(eng, doc):
    return {"cells": {n: canon(eng.cells[n].value) for n in doc.get("cells", {})},
            "pools": {n: canon(dict(eng.pools[n].value)) for n in doc.get("pools", {})}}


def rest_of(eng):
    """What a snapshot does not hold and a restart begins anew; handed over so that the comparison is exact."""
    return {"tally": copy.deepcopy(getattr(eng, "tally", None)), "rand": eng.rand.getstate(),
            "started": eng.actionsStarted, "finished": eng.actionsFinished}


def one(d, c, f):
    d.fail = None
    if f is None:
        return d.call(c), False
    if "cb" in f:
        d.fail = f["cb"]
        r = d.call(c)
        d.fail = None
        return r, r[:2] == ["err", "callback"]
    cf = core.CallFaults(f["nth"], f["exc"])
    with cf:
        r = d.call(c)
    return r, cf.fired


def run(doc, calls, faults, snaps, entropy, tick=0):
    """-> outcomes, states, snapshots taken before call i"""
    T = titus()
    core.begin_case(entropy)
    with core.virtual_time():
        eng, = T.PFAEngine.fromJson(copy.deepcopy(doc))
        d = Driver(eng)
        d.tick = tick
        outs, states, saved, fired = [], [], {}, 0
        for i in range(len(calls) + 1):
            if i in snaps:
                ast = eng.snapshot()
                saved[i] = {"ast": ast, "text": ast.toJson(), "lines": ast.toJson(True), "rest": rest_of(eng)}
            states.append(state_of(eng, doc))
            if i < len(calls):
                r, f = one(d, calls[i], faults.get(str(i)))
                outs.append(r)
                fired += f
        return outs, states, saved, fired


def without(doc, calls, faults, entropy, tick):
    outs, states, _, fired = run(doc, calls, faults, (), entropy, tick)
    return outs, states


def restored(text, via, rest, doc, calls, faults, offset, entropy, tick):
    """A fresh process loads the text and goes on."""
    T = titus()
    core.begin_case(entropy)
    with core.virtual_time():
        if via == "yaml":
            eng, = T.PFAEngine.fromYaml(text)
        elif via == "twice":        # restarted, saved again at once, and restarted from that
            first, = T.PFAEngine.fromJson(text)
            again = first.snapshot().toJson()
            eng, = T.PFAEngine.fromJson(again)
        else:
            eng, = T.PFAEngine.fromJson(text)
        return go_on(eng, rest, doc, calls, faults, offset, tick)


def go_on(eng, rest, doc, calls, faults, offset, tick):
    if hasattr(eng, "tally"):
        eng.tally = copy.deepcopy(rest["tally"])
    eng.rand.setstate(rest["rand"])
    eng.actionsStarted, eng.actionsFinished = rest["started"], rest["finished"]
    d = Driver(eng)
    d.tick = tick
    states, outs = [state_of(eng, doc)], []
    for i, c in enumerate(calls):
        r, _ = one(d, c, faults.get(str(offset + i)))
        outs.append(r)
        states.append(state_of(eng, doc))
    return outs, states, json.loads(eng.snapshot().toJson())


def execute(case):
    T = titus()
    plain, again = corpus.pristine(without), corpus.pristine(restored, True)
    doc, calls, faults, snaps = case["doc"], case["calls"], case["faults"], case["snaps"]
    probe, fl = {}, {}

    def hit(n, k=1):
        probe[n] = probe.get(n, 0) + k
    violation = None
    w_outs, w_states = plain(doc, calls, faults, case["entropy"], case["tick"])
    try:
        outs, states, saved, fired = run(doc, calls, faults, snaps, case["entropy"], case["tick"])
    except core.HarnessError:
        raise
    except Exception as err:
        outs = None
        violation = {"kind": "snapshot-fails", "msg": "taking a snapshot of %s raised %s: %s" % (json.dumps(doc)[:800], type(err).__name__, str(err)[:300])}
    if violation is None:
        hit("calls", len(calls))
        if case["tick"]:
            fl["slow_callback"] = fl.get("slow_callback", 0) + 1
            hit("timed_out", sum(o[:2] == ["err", "timeout"] for o in outs))
        if fired:
            fl["failed_call"] = fired
        hit("snapshots", len(saved))
        if J(outs) != J(w_outs) or J(states) != J(w_states):
            violation = {"kind": "snapshot-changes-engine", "msg": "taking snapshots before calls %s changed what the engine does: %s, without %s" % (snaps, J([outs, states])[:700], J([w_outs, w_states])[:700])}
    if violation is None:
        for i in sorted(saved):
            s = saved[i]
            if s["ast"].toJson() != s["text"]:
                violation = {"kind": "snapshot-changed", "msg": "the snapshot taken before call %d was %s and is now %s" % (i, s["text"][:600], s["ast"].toJson()[:600])}
                break
            if "NaN" in s["text"] or "Infinity" in s["text"]:
                hit("not_a_number")
                if case["via"] == "yaml":
                    continue
            fl["crash_restart"] = fl.get("crash_restart", 0) + 1
            hit("via_" + case["via"])
            txt = s["lines"] if case["via"] == "lines" else s["text"]
            try:
                if case["via"] == "ast":
                    core.begin_case(case["entropy"])
                    with core.virtual_time():
                        eng, = T.PFAEngine.fromAst(s["ast"])
                        g_outs, g_states, final = go_on(eng, s["rest"], doc, calls[i:], faults, i, case["tick"])
                else:
                    g_outs, g_states, final = again(txt, case["via"], s["rest"], doc, calls[i:], faults, i, case["entropy"], case["tick"])
            except core.HarnessError as err:
                msg = str(err)
                if "PFA" in msg or "Exception" in msg or "Error" in msg:
                    violation = {"kind": "snapshot-unloadable", "msg": "the snapshot taken before call %d cannot be loaded (%s): %s" % (i, msg.strip().split("\n")[-1][:300], txt[:900])}
                    break
                raise
            if J(g_states[0]) != J(states[i]):
                violation = {"kind": "state-lost", "msg": "before call %d the state was %s, restored it is %s" % (i, J(states[i])[:700], J(g_states[0])[:700])}
            elif J(g_outs) != J(outs[i:]) or J(g_states) != J(states[i:]):
                j = next(j for j in range(len(g_outs)) if J(g_outs[j]) != J(outs[i + j]) or J(g_states[j + 1]) != J(states[i + j + 1]))
                violation = {"kind": "continues-differently", "msg": "restored before call %d, call %d %s gives %s and state %s; the original gave %s and %s" % (
                    i, i + j, json.dumps(calls[i + j])[:300], J(g_outs[j])[:400], J(g_states[j + 1])[:500], J(outs[i + j])[:400], J(states[i + j + 1])[:500])}
            if violation:
                break
            hit("restored_and_compared")
            if i < len(calls):
                hit("calls_after_restart", len(calls) - i)
    return {"violation": violation, "probe": probe, "faults": fl, "sig": [case["kind"], case["via"], [o[:2] for o in outs] if outs else None, snaps],
            "result": [loose(outs), snaps], "events": len(calls), "nontrivial": probe.get("restored_and_compared", 0) > 0, "sim_time": core.CLOCK.total, "ops": len(calls)}


def shrink(case):
    n = len(case["calls"])
    for i in range(len(case["snaps"])):
        if len(case["snaps"]) > 1:
            c = copy.deepcopy(case)
            del c["snaps"][i]
            yield c
    for k in sorted(case["faults"]):
        c = copy.deepcopy(case)
        del c["faults"][k]
        yield c
    for i in range(n - 1, -1, -1):
        c = copy.deepcopy(case)
        del c["calls"][i]
        c["snaps"] = sorted(set(s - (s > i) for s in c["snaps"]))
        c["faults"] = {str(int(k) - (int(k) > i)): v for k, v in c["faults"].items() if int(k) != i}
        yield c
    if case["via"] != "text":
        c = copy.deepcopy(case)
        c["via"] = "text"
        yield c
    for part in ("cells", "pools", "fcns"):
        for name in sorted(case["doc"].get(part, {})):
            c = copy.deepcopy(case)
            del c["doc"][part][name]
            yield c


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink, 
                PLAN={"quick": {"cases": 4000, "budget": 50, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when at least one snapshot was restored in a fresh process and compared; distinct = distinct (calls, outcomes, crash points, results)",
                MEASURE="hash of (workload kind, restore path, call outcomes, crash points)",
                REAL=["titus reader, type checker, code generator", "generated engine code", "titus runtime and library", "snapshot, toJson and the JSON and YAML readers"],
                STUB=["process crash (a fresh fork of a process that has run nothing is given the text)", "emit and log consumers", "clocks", "entropy", "allocation failures"],
                ASSUMPTIONS=["bytes and text that hold the same characters, and int and double of the same value, count as the same stored value"])
