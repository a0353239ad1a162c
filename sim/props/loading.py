"""C15: loading documents from several threads at once.

Threads load documents -- JSON, YAML and PrettyPFA, correct and broken ones -- preempted at every bytecode of the
reader, the PrettyPFA productions, the type checker and the code generator, while some loads are hit by a failing
allocation.  What each load gives (the engine's document and first outputs, or the error and its text) is compared with
what it gives alone in a process that has loaded nothing else."""
import copy
import json
import os
import re

from .. import core, corpus
from ..corpus import Driver
from ..gen import minipfa
from ..world import titus

_pretty = None

EXPRS = ["1 + 2", "f(x, y)", "a.map(x, fcn(y: int -> int) y + 1)", "if (x == 3) 4 else 5", "x = 3; y = 4; x + y",
         "{var z = 1; z * 2}", "new(record(a: int, b: string), a: 1, b: \"two\")", "new(array(int), 1, 2, 3)",
         "json(map(double), {\"a\": 1.5})", "x.y.z[3, \"abc\"]", "foreach (i: x) z = i", "while (x < 3) x = x + 1",
         "try 3 + 3", "error(\"hey\", -12)", "1 +", "f(", "\"unfinished", "new(enum([a, b, c], E1))", "x ? 3",
         "for (i = 0; i < 10; i = i + 1) y = i", "cast (x) { as(i: int) i + 1 as(s: string) 12 }", "fixed(3)",
         "new(record(p: record(q: int), r: record(s: fixed(3))), p: x, r: y)", "\n\n  1 + + ;\n", "<<sub>> + 1"]


def pretty():
    global _pretty
    if _pretty is None:
        with open(os.path.join(corpus.HERE, "corpus", "pretty.jsonl")) as f:
            _pretty = [json.loads(line)["text"] for line in f]
    return _pretty


def broken(rng, text):
    """A document with a mistake in it."""
    r = rng.random()
    i = rng.randrange(len(text))
    if r < 0.4:
        return text[:i] + text[i + rng.choice([1, 1, 3, 10]):]
    if r < 0.7:
        return text[:i] + rng.choice(["(", ")", "}", ";", "@", "\"", " x ", "1", "<<s>>", "\n", "`"]) + text[i:]
    return text[:i]


def spoil(rng, doc):
    """A JSON document with a mistake somewhere inside."""
    doc = copy.deepcopy(doc)
    spots = []

    def walk(x):
        if isinstance(x, dict):
            for k in sorted(x):
                spots.append((x, k))
                walk(x[k])
        elif isinstance(x, list):
            for i in range(len(x)):
                spots.append((x, i))
                walk(x[i])
    walk(doc)
    x, k = rng.choice(spots)
    r = rng.random()
    if r < 0.4:
        del x[k]
    else:
        x[k] = copy.deepcopy(rng.choice([None, 3, "string", "nonexistent", [], {}, -1.5, {"nosuch": []}, x[k], [x[k]]]))
    return doc


def one(rng):
    r = rng.random()
    if r < 0.55:
        t = rng.choice(pretty())
        if rng.random() < 0.25:
            t = broken(rng, t)
        return {"how": rng.choice(["pretty", "pretty", "pretty-engine"]), "text": t}
    if r < 0.7:
        t = rng.choice(EXPRS)
        if rng.random() < 0.4:
            t = t + "; " + rng.choice(EXPRS)
        return {"how": "expr", "text": t}
    if r < 0.85:
        o = rng.choice(corpus.load())
        doc, calls = o["doc"], o["calls"][:2]
    else:
        doc = minipfa.Gen(rng, stmts=(1, 3), depth=2).document()
        calls = [["action", op["input"]] for op in minipfa.history(rng, doc, 2, 1, {}) if op["op"] == "action"]
    doc = copy.deepcopy(doc)
    doc.setdefault("randseed", 12345)
    if rng.random() < 0.3:
        doc = spoil(rng, doc)
    if "name" not in doc or rng.random() < 0.3:
        doc.pop("name", None)
        if re.search(r'"name"(?!\s*:)', json.dumps(doc)):
            doc["name"] = "Named"       # it looks at its own name
    return {"how": rng.choice(["json", "json-text", "yaml", "ast"]), "doc": doc, "calls": calls}


def generate(rng, tier):
    nt = rng.choice([2, 2, 3])
    threads = [[one(rng) for _ in range(rng.choice([1, 1, 2]))] for _ in range(nt)]
    if rng.random() < 0.3:
        threads[1][0] = copy.deepcopy(threads[0][0])
    for th in threads:
        for t in th:
            if rng.random() < 0.12:
                t["fault"] = {"nth": rng.choice([3, 10, 30, 100, 300, 1000, 3000]), "exc": rng.choice(["MemoryError", "OSError", "RecursionError"])}
    return {"threads": threads, "cold": rng.random() < 0.03, "entropy": rng.getrandbits(32), "trace": rng.choice(["opcode", "line", "line"]),
            "schedule": core.random_schedule(rng, 60000 * nt)}


_NAME = re.compile(r"\b(Engine|Record|Enum|Fixed)_([0-9]+)\b")


def normal(txt):
    """Invented names, numbered by first use within the document; addresses removed."""
    seen = {}

    def sub(m):
        k = m.group(0)
        if k not in seen:
            seen[k] = "%s_#%d" % (m.group(1), len(seen))
        return seen[k]
    txt = re.sub(r"0x[0-9a-f]{6,}", "0x", txt)
    return _NAME.sub(sub, txt)


def perform(T, t):
    how = t["how"]
    try:
        if how == "pretty":
            return ["ok", normal(json.dumps(T.prettypfa.jsonNode(t["text"], check=False), sort_keys=True))]
        if how == "expr":
            return ["ok", normal(json.dumps([x.jsonNode(True, set()) for x in T.prettypfa.ppfas(t["text"])], sort_keys=True))]
        if how == "pretty-engine":
            eng, = T.prettypfa.engine(t["text"])
            return ["ok", normal(json.dumps(json.loads(eng.config.toJson(True)), sort_keys=True))]
        if how == "json":
            eng, = T.PFAEngine.fromJson(copy.deepcopy(t["doc"]))
        elif how == "json-text":
            eng, = T.PFAEngine.fromJson(json.dumps(t["doc"]))
        elif how == "yaml":
            eng, = T.PFAEngine.fromYaml(json.dumps(t["doc"]))
        else:
            eng, = T.PFAEngine.fromAst(T.reader.jsonToAst(copy.deepcopy(t["doc"])))
        d = Driver(eng)
        outs = [d.call(c) for c in t["calls"]]
        return ["ok", normal(json.dumps(json.loads(eng.config.toJson(True)), sort_keys=True) + json.dumps(outs))]
    except core.SimKill:
        raise
    except Exception as err:
        return ["err", type(err).__name__, normal(str(err))]


def alone(task, entropy):
    T = titus()
    warm_parsers(T)
    core.begin_case(entropy)
    with core.virtual_time():
        return perform(T, task)


def warm_parsers(T):
    for p in (T.prettypfa.parser, T.prettypfa.exprParser):
        if not p.initialized:
            import ply.lex
            import ply.yacc
            p.initialize(ply.lex, ply.yacc)


def execute(case):
    T = titus()
    warm_parsers(T)
    base = corpus.pristine(alone)
    probe, faults = {}, {}

    def hit(n, k=1):
        probe[n] = probe.get(n, 0) + k
    want = [[base({k: v for k, v in t.items() if k != "fault"}, case["entropy"]) for t in th] for th in case["threads"]]
    if case["cold"]:
        T.prettypfa.parser.initialized = False
        hit("cold_parser")
    core.begin_case(case["entropy"])
    violation = None
    with core.virtual_time():
        sim = core.Sim(case["schedule"], max_events=case.get("max_events", 12_000_000), trace=case["trace"])
        got = [[] for _ in case["threads"]]
        spans = []

        def body(t):
            def run(th):
                th.fault_any = True
                for j, task in enumerate(case["threads"][t]):
                    th.op = j
                    th.calls = 0
                    th.fault_fired = False
                    f = task.get("fault")
                    th.fault_nth, th.fault_exc = (f["nth"], f["exc"]) if f else (None, None)
                    sim.point("inv", j)
                    inv = sim.events
                    r = perform(T, task)
                    th.fault_nth = None
                    if th.fault_fired:
                        faults["exception:" + f["exc"]] = faults.get("exception:" + f["exc"], 0) + 1
                        r = None
                    sim.rearm()
                    sim.events += 1
                    spans.append((t, inv, sim.events))
                    got[t].append(r)
                    sim.point("res", j)
            return run
        for t in range(len(got)):
            sim.spawn(body(t))
        sim.run()
        if case["cold"]:
            warm_parsers(T)
        if sim.deadlock is not None or sim.aborting == "deadlock":
            violation = {"kind": "blocked", "msg": "loads block one another for ever: %s" % json.dumps(sim.deadlock)}
        elif sim.aborting == "budget":
            hit("abandoned_too_long")
        else:
            for t in range(len(got)):
                for j, (w, g) in enumerate(zip(want[t], got[t])):
                    if g is None:
                        continue
                    hit("compared_loads")
                    hit("%s:%s" % (case["threads"][t][j]["how"], w[0] if w[0] == "ok" else w[1]))
                    if w != g:
                        violation = {"kind": "differs", "msg": "thread %d, load %d %s: alone %s, with the others %s" % (
                            t, j, json.dumps(case["threads"][t][j])[:600], json.dumps(w)[:100000], json.dumps(g)[:100000])}
                        break
                if violation:
                    break
            if violation is None:
                # after everything, every loader still works
                for task in ({"how": "pretty", "text": pretty()[0]}, {"how": "expr", "text": EXPRS[0]}):
                    w = base(task, case["entropy"])
                    core.begin_case(case["entropy"])
                    g = perform(T, task)
                    if w != g:
                        violation = {"kind": "differs-afterwards", "msg": "afterwards %s gives %s, alone %s" % (json.dumps(task)[:300], json.dumps(g)[:500], json.dumps(w)[:500])}
                        break
    overl = sum(1 for a in spans for b in spans if a[0] < b[0] and a[1] < b[2] and b[1] < a[2])
    hit("overlapping_pairs", overl)
    hit("preempted_inside_titus", sim.stats["preempt_in_titus"])
    return {"violation": violation, "probe": probe, "faults": faults, "sig": [sim.sig, [s for s in sim.switches[:200]]], "events": sim.events,
            "result": [[r[0] if r else None for r in g] for g in got], "nontrivial": overl > 0, "schedule": sim.explicit_schedule(),
            "sim_time": core.CLOCK.total, "ops": len(spans)}


def shrink(case):
    for t in range(len(case["threads"])):
        if len(case["threads"]) > 1:
            c = copy.deepcopy(case)
            del c["threads"][t]
            yield c
    for t in range(len(case["threads"])):
        for j in range(len(case["threads"][t])):
            if len(case["threads"][t]) > 1:
                c = copy.deepcopy(case)
                del c["threads"][t][j]
                yield c
            if "fault" in case["threads"][t][j]:
                c = copy.deepcopy(case)
                del c["threads"][t][j]["fault"]
                yield c
    for t, th in enumerate(case["threads"]):
        for j, task in enumerate(th):
            if "text" in task:
                for simple in (EXPRS[:3] if task["how"] == "expr" else pretty()[:2]):
                    if len(simple) < len(task["text"]):
                        c = copy.deepcopy(case)
                        c["threads"][t][j]["text"] = simple
                        yield c


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 1200, "budget": 50, "minimise": 60},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when loads of different threads overlapped in simulated time; distinct = distinct (interleaving signature, results) pairs",
                REAL=["titus reader, PrettyPFA parser (with ply), type checker, code generator", "generated engine code"],
                STUB=["thread scheduling (seeded, per bytecode or line of titus; ply runs between them)", "locks", "clocks", "entropy", "allocation failures"],
                ASSUMPTIONS=["one bytecode (or, in line mode, one line) of titus is atomic"])
