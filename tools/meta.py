"""Writes properties.jsonl and MANIFEST.json from one description (python3 tools/meta.py)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, state=None, observe=None, hook=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
         "why_tests_cant": why, "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = hook
    P.append((d, tech, note, na))


G = "titus/genpy.py"

prop("C01", "Shared cells: every read and update takes effect at one instant",
     "When engines that share a cell run at the same time, each read of the cell and each update of it takes effect at a single instant between its start and its end: no update is lost, and no read sees anything but the result of completed updates. This holds whether the engines come from one load with several instances or from separate loads handed the same shared state.",
     ["schedules", "histories", "programs"],
     "every interleaving of every history of reads and updates (whole value or a path into it, by value, named, partially applied or inline function) by any number of engines",
     "the tests run two or three engines in plain threads with sleeps on two or three fixed documents; the interleaving is left to the operating system",
     [G], [("Cell.update holds the cell's lock", G + ":Cell.update"), ("one SharedState for all instances", G + ":PFAEngine.fromAst")],
     "deterministic thread simulation (seeded preemption at every bytecode) + linearizability check against a reference model",
     "real titus threads scheduled by a seeded simulator; histories checked for linearizability per cell")

prop("C02", "Shared pool items: every operation takes effect at one instant",
     "When engines that share a pool run at the same time, each read, update, creation and deletion of an item takes effect at a single instant between its start and its end, as seen by all engines. Items with different keys never affect one another.",
     ["schedules", "histories", "programs"],
     "every interleaving of every history of reads, updates, creations (init) and deletions of the items of shared pools",
     "the tests exercise two engines updating one pool item with sleeps; creation and deletion races are not reached",
     [G], [("per-item lock", G + ":Pool.update, Pool.itemLock, Pool.delete"), ("pool deletion", G + ":PFAEngine.pooldel")],
     "deterministic thread simulation (seeded preemption at every bytecode) + linearizability check against a reference model",
     "as C01, per pool item, including absence")

prop("C03", "A failed update of shared state changes nothing and blocks nobody",
     "When the update of a shared cell or pool item fails, whatever the error (the document's own, a library error, or the host running out of memory), the value stays as it was before that update began and no item appears. Afterwards every engine can still read and update it.",
     ["schedules", "fault_sequences", "programs"],
     "every updater, every point at which it can fail, every error kind, every interleaving with other engines",
     "no test makes the update of a shared value fail, let alone at a chosen point while another engine waits",
     [G], [("lock released on every exit", G + ":Cell.update, Pool.update"), ("value assigned after the updater returns", G + ":Cell.update, Pool.update")],
     "deterministic thread simulation with exceptions injected at chosen calls inside updaters + linearizability and availability check",
     "faults: MemoryError, RuntimeError, OSError, RecursionError at the n-th call in evaluation; user and library errors")

PART2 = True
exec(open(os.path.join(V, "tools", "meta2.py")).read()) if os.path.exists(os.path.join(V, "tools", "meta2.py")) else None

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for d, *_ in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")

m = {"version": 1, "setup_cmd": "bin/setup",
     "hooks": {"guard": "TITUS_SIM (unused: every seam is a replaced module attribute, no hook was added to /repo)",
               "enable": "nothing to enable: the checks import /repo's working tree and replace threading, clock, entropy, file and stream attributes from outside",
               "source_commits": []},
     "checks": [], "not_applicable": []}
for d, tech, note, na in P:
    if na:
        m["not_applicable"].append({"property": d["id"], "reason": na})
    else:
        m["checks"].append({"property": d["id"], "quick_cmd": "bin/check %s quick" % d["id"],
                            "thorough_cmd": "bin/check %s thorough" % d["id"],
                            "technique": tech, "level": "exploration", "level_note": note})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
