"""C19: a command-line tool that reports success has written the whole result.

pfachain, pfarandom, pfaexternalize and pfasize run as simulated processes: their real source, with arguments, standard streams and
an exit status, over a file system that refuses, fails, fills up, gives short reads, delivers files that end early and interrupts.
Files a process leaves open are flushed when it ends, and nobody hears of it when that fails.  Oracles: the library call
(pfachain), a reference reading of the output schema (pfarandom), the document before (pfaexternalize), a count of our own (pfasize)."""
import copy
import io
import json
import os
import runpy
import sys

from .. import core, corpus
from ..corpus import canon
from ..fs import SimFS
from ..gen import zoo
from ..stubs import ijson
from ..world import titus
from . import chain as chaining
from .boundary import names, fit
from .persist import loads


class Process(object):
    """One run of a script: argv, standard streams, exit status."""

    def __init__(self, fs, script, argv):
        self.fs, self.script, self.argv = fs, script, argv
        self.err = io.StringIO()
        self.status = None
        self.why = ""

    def run(self):
        fs = self.fs
        saved = sys.argv, sys.stdout, sys.stderr, sys.stdin, sys.modules.get("ijson")
        first = len(fs.opened)
        armed, fs.plan = fs.plan, []
        out = fs.open("/sim/stdout", "w")
        inp = fs.open("/sim/stdin", "r") if "/sim/stdin" in fs.files else io.StringIO("")
        fs.plan, fs.count = armed, {}
        try:
            sys.argv = [self.script] + self.argv
            sys.stdout, sys.stderr, sys.stdin = out, self.err, inp
            sys.modules["ijson"] = ijson
            try:
                runpy.run_path(os.path.join(core.REPO, "scripts", self.script), run_name="__main__")
                self.status = 0
            except SystemExit as err:
                self.status = 0 if err.code is None else err.code if isinstance(err.code, int) else 1
                self.why = "exit %r" % (err.code,)
            except core.HarnessError:
                raise
            except KeyboardInterrupt:
                self.status, self.why = 130, "KeyboardInterrupt"
            except Exception as err:
                self.status, self.why = 1, "%s: %s" % (type(err).__name__, str(err)[:300])
            try:
                out.flush()
            except (Exception, KeyboardInterrupt) as err:
                self.status, self.why = self.status or 120, "%s when standard output is flushed" % err
        finally:
            sys.argv, sys.stdout, sys.stderr, sys.stdin = saved[:4]
            if saved[4] is None:
                sys.modules.pop("ijson", None)
            else:
                sys.modules["ijson"] = saved[4]
        self.left = [raw.name for raw, b in fs.opened[first:] if not raw.closed and b is not out and b is not inp and raw.writable()]
        for raw, b in fs.opened[first:]:        # what the interpreter does on its way out
            if not raw.closed:
                try:
                    b.close()
                except (Exception, KeyboardInterrupt):
                    pass
        return self


# -------------------------------------------------------------------- what is run

def spell(rng, doc):
    return json.dumps(doc, indent=rng.choice([None, None, 2]), ensure_ascii=rng.random() < 0.7)


def common(rng, case):
    """Arguments pfachain and pfarandom share; -> (argv, what the document must have)."""
    argv, want = [], {}
    if rng.random() < 0.5:
        want["name"] = rng.choice(["Tool", "A", "step1_x"])
        argv += ["--name", want["name"]]
    if rng.random() < 0.4:
        want["randseed"] = rng.choice([0, 1, 12345, -7])
        argv += ["--randseed=%d" % want["randseed"]]
    if rng.random() < 0.3:
        want["version"] = rng.choice([0, 1, 9])
        argv += ["--version", str(want["version"])]
    if rng.random() < 0.3:
        want["doc"] = rng.choice(["", "what it is for", "caf\u00e9 \"x\""])
        argv += ["--doc", want["doc"]]
    if rng.random() < 0.3:
        want["metadata"] = rng.choice([{}, {"a": "b"}, {"": "", "@": "\u00e9"}])
        argv += ["--metadata", json.dumps(want["metadata"])]
    if rng.random() < 0.3:
        want["options"] = rng.choice([{}, {"timeout": 5000}, {"my.own": [1, None]}])
        argv += ["--options", json.dumps(want["options"])]
    if rng.random() < 0.06:
        case["wrong"] = True
        argv += rng.choice([["--metadata", "[1]"], ["--metadata", "{"], ["--options", "3"], ["--metadata", '{"a": 1}'], ["--randseed", "x"]])
    return argv, want


def gen_chain(rng, case):
    for _ in range(20):
        c = chaining.generate(rng, "quick")
        if all(loads(d) for d in c["doc"]["steps"]):
            break
    steps = c["doc"]["steps"]
    if rng.random() < 0.15:
        rng.shuffle(steps)
    case["files"] = {"f%d.pfa" % i: spell(rng, d) for i, d in enumerate(steps)}
    argv, case["want"] = common(rng, case)
    case["check"] = rng.random() < 0.6
    if not case["check"]:
        argv.append("--no-check")
    if rng.random() < 0.3:
        argv.append("--verbose")
    case["out"] = rng.choice(["out.pfa", "out.pfa", "-", "-"])
    ins = sorted(case["files"])
    if rng.random() < 0.08:
        case["out"] = rng.choice(ins)
    case["argv"] = argv + ins + [case["out"]] if rng.random() < 0.7 else ins + [case["out"]] + argv
    case["ins"] = ins


def recursive(z, t, seen=()):
    t = z.resolve(t)
    if isinstance(t, list):
        return any(recursive(z, b, seen) for b in t)
    if isinstance(t, str):
        return False
    if t["type"] == "record":
        full = (t["namespace"] + "." if "namespace" in t else "") + t["name"]
        return full in seen or any(recursive(z, f["type"], seen + (full,)) for f in t["fields"])
    return recursive(z, t["items"], seen) if t["type"] == "array" else recursive(z, t["values"], seen) if t["type"] == "map" else False


def gen_random(rng, case):
    z1, z2 = zoo.Zoo(rng), zoo.Zoo(rng)
    z2.n = 50
    IN, OUT = z1.type(rng.choice([0, 1, 2, 3])), z2.type(rng.choice([0, 1, 2, 3]))
    while recursive(z2, OUT) or recursive(z1, IN):
        z1, z2 = zoo.Zoo(rng), zoo.Zoo(rng)
        z2.n = 50
        IN, OUT = z1.type(rng.choice([0, 1, 2])), z2.type(rng.choice([0, 1, 2]))
    case["files"] = {"in.avsc": spell(rng, IN), "out.avsc": spell(rng, OUT)}
    argv, case["want"] = common(rng, case)
    case["p"] = rng.choice([0, 0, 0, 1, 1.0, 0.5])
    if case["p"]:
        argv += ["--exception", str(case["p"])]
    if rng.random() < 0.4 and case["p"] == 0:
        argv.append("--check")
    case["out"] = rng.choice(["out.pfa", "out.pfa", "out.pfa", "-"])
    case["argv"] = argv + ["in.avsc", "out.avsc", case["out"]]
    case["data"] = [z1.value(IN) for _ in range(3)]


def gen_external(rng, case):
    if rng.random() < 0.35:
        for _ in range(60):
            o = corpus.pick(rng)
            doc = copy.deepcopy(o["doc"])
            if all("source" not in c or c["source"] == "embedded" for k in ("cells", "pools") for c in doc.get(k, {}).values()) and (doc.get("cells") or doc.get("pools")):
                break
        else:
            return gen_external(rng, case)
    else:
        z = zoo.Zoo(rng)
        doc = {"name": "Ext", "input": "int", "output": "int", "action": ["input"], "cells": {}, "pools": {}}
        for i in range(rng.randint(0, 3)):
            t = z.type(rng.choice([0, 1, 2, 3]))
            doc["cells"]["c%d" % i] = {"type": t, "init": z.value(t)}
        for i in range(rng.randint(0, 2)):
            t = z.type(rng.choice([0, 1, 2]))
            doc["pools"]["p%d" % i] = {"type": t, "init": {rng.choice(zoo.KEYS): z.value(z.ref(t)) for _ in range(rng.randint(0, 3))}}
            if rng.random() < 0.2 and not doc["pools"]["p%d" % i]["init"]:
                del doc["pools"]["p%d" % i]["init"]
        if rng.random() < 0.3:
            doc["metadata"] = {"init": "cells", "cells": "init"}
        for k in ("cells", "pools"):
            for n in sorted(doc[k]):
                if rng.random() < 0.25:
                    doc[k][n]["shared"] = True
                if rng.random() < 0.2:
                    doc[k][n]["source"] = "embedded"
            if not doc[k]:
                del doc[k]
        keys = list(doc)
        rng.shuffle(keys)
        doc = {k: doc[k] for k in keys}
        for k in ("cells", "pools"):
            for n in doc.get(k, {}):
                keys = list(doc[k][n])
                rng.shuffle(keys)
                doc[k][n] = {q: doc[k][n][q] for q in keys}
    case["doc"] = doc
    case["files"] = {"model.pfa": spell(rng, doc)}
    argv, case["sides"] = [], []
    for k in ("cells", "pools"):
        for n in sorted(doc.get(k, {})):
            if rng.random() < 0.6:
                f = "%s_%s.json" % (k, n)
                if rng.random() < 0.5 and not any(s[2] == n + ".json" for s in case["sides"]):
                    f = n + ".json"
                    argv.append("--%s-%s" % (k[:-1], n))
                else:
                    argv.append("--%s-%s=%s" % (k[:-1], n, f))
                case["sides"].append([k, n, f])
    case["out"] = rng.choice(["out.pfa", "out.pfa", "out.pfa", "-"])
    src = "model.pfa"
    if rng.random() < 0.3:
        argv.append(rng.choice(["--verbose", "--progress"]))
    elif rng.random() < 0.15:
        src = "-"
        case["stdin"] = case["files"].pop("model.pfa")
    if rng.random() < 0.05:
        case["wrong"] = True
        argv.append(rng.choice(["--bogus", "--cells-x=y"]))
    case["argv"] = argv + [src, case["out"]]


def gen_size(rng, case):
    gen_external(rng, case)
    if "stdin" in case:
        case["files"]["model.pfa"] = case.pop("stdin")
    case.pop("wrong", None)
    case["argv"], case["out"], case["sides"] = ["model.pfa"], "-", []


GENERATE = {"pfachain": gen_chain, "pfarandom": gen_random, "pfaexternalize": gen_external, "pfasize": gen_size}


def generate(rng, tier):
    tool = rng.choice(["pfachain", "pfachain", "pfarandom", "pfarandom", "pfaexternalize", "pfaexternalize", "pfaexternalize", "pfasize"])
    case = {"tool": tool, "entropy": rng.getrandbits(32)}
    GENERATE[tool](rng, case)
    r = rng.random()
    if r < 0.45:
        ops = [("write", ["ENOSPC", "EIO", "short", "ENOSPC", "KeyboardInterrupt"]), ("read", ["EIO", "short", "short", "KeyboardInterrupt"]), ("close", ["EIO", "ENOSPC"]), ("open", ["EACCES", "EMFILE", "ENOSPC"])]
        case["faults"] = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            op, fs = rng.choice(ops)
            case["faults"].append([op, rng.choice([1, 1, 1, 2] if op == "write" else [1, 1, 1, 2, 2, 3, 5]), rng.choice(fs)])
        case["retry"] = rng.random() < 0.7
    elif r < 0.6:
        f = rng.choice(sorted(case["files"])) if case["files"] else None
        if f is not None:
            case["cut"] = [f, rng.random()]
    if case["out"] not in case["files"] and case["out"] != "-" and rng.random() < 0.3:
        case["files"][case["out"]] = "{\"old\": \"%s\"}\n" % ("x" * rng.choice([0, 3000]))      # there from an earlier run
    for _, _, f in case.get("sides", []):
        if rng.random() < 0.2:
            case["files"][f] = "[%s 0]" % ("0, " * rng.choice([0, 1000]))
    if rng.random() < 0.25:
        case["dts"] = [rng.choice([0.0, 0.0, 0.001, 0.3, 1.5, 4.0, -3600.0, 3600.0]) for _ in range(rng.randint(1, 5))]
    return case


# -------------------------------------------------------------------- what it should have done

def pairs(text):
    """JSON in which no object has a key twice."""
    def hook(ps):
        if len({k for k, _ in ps}) != len(ps):
            raise ValueError("a key twice in an object: %r" % ([k for k, _ in ps],))
        return dict(ps)
    return json.loads(text, object_pairs_hook=hook)


def judge_chain(T, case, fs, bad):
    import titus.producer.chain as chain
    w = case["want"]
    try:
        ref = chain.json([json.loads(case["files"][f]) for f in case["ins"]], False, case["check"], w.get("name"), w.get("randseed"), w.get("doc"), w.get("version"), w.get("metadata", {}), w.get("options", {}))
    except Exception as err:
        return "refuse", "%s: %s" % (type(err).__name__, err)

    def judge(got):
        have, want = pairs(got), json.loads(ref)
        for d in (have, want):
            if "name" not in w:
                d.pop("name", None)
        if have != want:
            return bad("result", "the output is %s, and should be %s" % (json.dumps(have)[:900], json.dumps(want)[:900]))
        for k, v in w.items():
            if have.get(k, {}) != v:
                return bad("result", "%s is %r in the output instead of %r" % (k, have.get(k), v))
    return "accept", judge


def judge_random(T, case, fs, bad):
    IN, OUT = json.loads(case["files"]["in.avsc"]), json.loads(case["files"]["out.avsc"])

    def judge(got):
        doc = pairs(got)
        if doc["input"] != IN or doc["output"] != OUT:
            return bad("result", "the document goes from %s to %s" % (json.dumps(doc["input"]), json.dumps(doc["output"])))
        for k in ("name", "randseed", "doc", "version", "metadata", "options"):
            if k in case["want"] and case["want"][k] != {} and doc.get(k) != case["want"][k] or k not in case["want"] and k in doc:
                return bad("result", "%s is %r in the output instead of %r" % (k, doc.get(k), case["want"].get(k)))
        N = names(doc)
        O = N.schema["fields"][1]["type"]
        seen = []
        for _ in range(2):
            eng, = T.PFAEngine.fromJson(copy.deepcopy(doc))
            eng.begin()
            seen.append([])
            for x in case["data"] * 3:
                try:
                    r = eng.action(copy.deepcopy(x))
                except T.errors.PFAUserException as err:
                    if not case["p"]:
                        raise
                    seen[-1].append("failed")
                    continue
                if case["p"] == 1:
                    return bad("result", "an engine of the document answers %r instead of failing" % (r,))
                seen[-1].append(canon(r))
                if fit(N, O, r)[0] == "no":
                    return bad("result", "an engine of the document answers %r, which is no datum of the output schema" % (r,))
            eng.end()
        if "randseed" in case["want"] and seen[0] != seen[1]:
            return bad("result", "two engines of the document, which has a randseed, answer %s and %s" % (seen[0], seen[1]))
    return "accept", judge


def judge_external(T, case, fs, bad):
    doc = case["doc"]

    def judge(got):
        have = pairs(got)
        want = copy.deepcopy(doc)
        for k, n, f in case["sides"]:
            c = want[k][n]
            c["source"] = "embedded"
            if "init" in c:
                if have[k][n].get("source") != "json" or have[k][n].get("init") != f:
                    return bad("result", "%s %s is %s in the output and not in a file" % (k[:-1], n, json.dumps(have[k][n])[:300]))
                if f not in fs.files:
                    return bad("result", "there is no file " + f)
                have[k][n]["init"] = pairs(bytes(fs.files[f]).decode("utf-8"))
                have[k][n]["source"] = "embedded"
            elif "source" not in have[k][n]:
                have[k][n]["source"] = "embedded"
        if json.dumps(have, sort_keys=True) != json.dumps(want, sort_keys=True):
            return bad("result", "with its files the output is %s, and should be %s" % (json.dumps(have, sort_keys=True)[:900], json.dumps(want, sort_keys=True)[:900]))
        try:
            a, = T.PFAEngine.fromJson(copy.deepcopy(doc))
        except Exception:
            return None
        b, = T.PFAEngine.fromJson(got)
        if corpus.state_of(a) != corpus.state_of(b):
            return bad("result", "an engine of the output starts with %s instead of %s" % (json.dumps(corpus.state_of(b))[:600], json.dumps(corpus.state_of(a))[:600]))
    return "accept", judge


def measure(x, c, depth):
    if isinstance(x, str):
        c[0] += 1
        c[1] += len(x)
    elif x is None or isinstance(x, bool):
        c[3] += 1
    elif isinstance(x, (int, float)):
        c[2] += 1
    else:
        c[6] = max(c[6], depth)
        for k, v in enumerate(x) if isinstance(x, list) else x.items():
            c[4 if isinstance(x, list) else 5] += 1
            measure(v, c, depth + 1)


def judge_size(T, case, fs, bad):
    doc = json.loads(case["files"]["model.pfa"])

    def judge(got):
        for k, what in (("cells", "Cell: "), ("pools", "Pool: ")):
            for n, d in doc.get(k, {}).items():
                if "init" not in d:
                    continue
                if what + n not in got:
                    return bad("result", "%s%s is not in the report %r" % (what, n, got[:600]))
                part = got[got.index(what + n + "\n") + len(what + n) + 1:].split("Cell: ")[0].split("Pool: ")[0]
                if not isinstance(d["init"], (list, dict)):
                    continue
                c = [0] * 7
                measure(d["init"], c, 3)
                last = part.replace("\n", "").split("\r")[-1]
                # what is shown is the state before the last array or object: no more than all there is, no less deep
                nums = [int(w) for w in "".join(ch if ch.isdigit() else " " for ch in last).split()]
                if len(nums) != 7 or any(a > b for a, b in zip(nums, c)) or nums[6] != c[6]:
                    return bad("result", "%s is said to have %s; it has %s" % (n, nums, c))
    return "accept", judge


JUDGE = {"pfachain": judge_chain, "pfarandom": judge_random, "pfaexternalize": judge_external, "pfasize": judge_size}


def execute(case):
    T = titus()
    core.begin_case(case["entropy"])
    files = dict(case["files"])
    if "stdin" in case:
        files["/sim/stdin"] = case["stdin"]
    if "cut" in case:
        f, at = case["cut"]
        t = files[f].encode("utf-8")
        files[f] = t[:int(at * len(t))]
    case = dict(case, files=dict(case["files"]))
    probe = {case["tool"]: 1}
    violation = None
    fs = SimFS(files)
    before = fs.snapshot()

    def bad(kind, msg):
        return {"kind": kind, "msg": "%s %s: %s; files %s, faults %s" % (case["tool"], " ".join(case["argv"]), msg, json.dumps({k: v for k, v in case["files"].items()})[:1500],
                                                                         json.dumps({k: case[k] for k in ("faults", "cut", "dts") if k in case}))}
    with core.virtual_time():
        verdict, judge = JUDGE[case["tool"]](T, case, fs, bad)
        dts = list(case.get("dts", []))

        def tick(op):
            if dts:
                dt = dts[0]
                dts.append(dts.pop(0))
                if abs(dt) >= 3600:
                    core.CLOCK.jump_wall(dt)
                    fs.total["clock_jump"] = fs.total.get("clock_jump", 0) + 1
                else:
                    core.CLOCK.advance(dt)
        fs.on_io = tick
        with fs:
            fs.arm(case.get("faults"))
            p = Process(fs, case["tool"], case["argv"]).run()
            real = [x for x in fs.fired if x[2] != "short"]
            fs.arm(None)
            after = fs.snapshot()
            out = after.get("/sim/stdout" if case["out"] == "-" else case["out"])
            said = "exit status %s%s" % (p.status, " (%s)" % p.why if p.why else "")
            if "cut" in case:
                fs.total["input_cut"] = 1
            probe["status_%s" % ("0" if p.status == 0 else "error")] = 1
            if real and p.status == 0:
                probe["fault_survived"] = 1
            damaged = "cut" in case and len(files[case["cut"][0]].strip()) < len(case["files"][case["cut"][0]].encode("utf-8").strip())
            if "cut" in case and damaged:
                try:
                    json.loads(files[case["cut"][0]].decode("utf-8"))
                    damaged = None      # what is left is JSON of its own
                except ValueError:
                    pass
            mine = {case["out"], "/sim/stdout"} | {s[2] for s in case.get("sides", [])}
            for f in after:
                if f not in mine and after[f] != before.get(f):
                    violation = violation or bad("files", "%s %s" % ("changed" if f in before else "wrote", f))
            if violation is None and damaged is None:
                pass
            elif violation is None and p.status == 0:
                if damaged or case.get("wrong") or verdict == "refuse":
                    violation = bad("silent", "reported success although %s" % ("an input file ends early" if damaged else "the arguments are wrong" if case.get("wrong") else "the documents cannot be chained: " + judge))
                elif out is None:
                    violation = bad("silent", "reported success and wrote no output")
                else:
                    try:
                        text = out.decode("utf-8")
                        violation = judge(text)
                        probe["judged"] = 1
                    except core.HarnessError:
                        raise
                    except Exception as err:
                        violation = bad("silent", "reported success, and the output %r fails with %s: %s" % (bytes(out)[-300:], type(err).__name__, str(err)[:300]))
            elif violation is None and real and case.get("retry") and not damaged and not case.get("wrong") and verdict == "accept" and case["out"] not in case.get("ins", []):
                # once more, on what is left, and nothing fails this time
                probe["retry"] = 1
                fs.files["/sim/stdout"] = bytearray()
                p = Process(fs, case["tool"], case["argv"]).run()
                after = fs.snapshot()
                try:
                    if p.status != 0:
                        violation = bad("refused", "after a run that failed (%s), the same again ended with exit status %s (%s)" % (said, p.status, p.why))
                    else:
                        violation = judge(after["/sim/stdout" if case["out"] == "-" else case["out"]].decode("utf-8"))
                except core.HarnessError:
                    raise
                except Exception as err:
                    violation = bad("silent", "after a run that failed (%s), the same again reported success, and its output fails with %s: %s" % (said, type(err).__name__, str(err)[:300]))
            elif violation is None:
                if not real and not damaged and not case.get("wrong") and verdict == "accept":
                    violation = bad("refused", "%s although nothing is wrong; it said %s" % (said, p.err.getvalue()[-300:]))
                elif case["tool"] in ("pfachain", "pfarandom") and (damaged or case.get("wrong") or verdict == "refuse") and not real and case["out"] != "-" and after.get(case["out"]) != before.get(case["out"]):
                    violation = bad("files", "%s, and the output file is changed nevertheless" % said)
    return {"violation": violation, "probe": probe, "faults": fs.total, "sig": [case["tool"], p.status, p.why[:40], sorted(fs.total), sorted(fs.count.items())],
            "result": [p.status, p.why[:60], sorted((k, len(v)) for k, v in after.items())], "events": sum(fs.count.values()), "nontrivial": probe.get("judged", 0) > 0 or probe.get("status_error", 0) > 0,
            "sim_time": core.CLOCK.total, "ops": 1}


def shrink(case):
    for k in ("faults", "cut", "dts"):
        if k in case:
            yield {a: b for a, b in case.items() if a != k}
    for i in range(len(case.get("faults", []))):
        if len(case["faults"]) > 1:
            yield dict(case, faults=case["faults"][:i] + case["faults"][i + 1:])
    if case["tool"] == "pfaexternalize" and "stdin" not in case:
        doc = case["doc"]
        for k in ("cells", "pools"):
            for n in doc.get(k, {}):
                if not any(s[:2] == [k, n] for s in case["sides"]) and len(doc[k]) > 1 and doc.get("name") == "Ext":
                    d = copy.deepcopy(doc)
                    del d[k][n]
                    yield dict(case, doc=d, files={"model.pfa": json.dumps(d)})


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 6000, "budget": 40, "minimise": 40},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when its output was judged or it reported an error; distinct = distinct (tool, exit status, faults fired, file operations)",
                MEASURE="hash of (tool, exit status and reason, faults fired, numbers of file operations of each kind)",
                REAL=["scripts/pfachain, pfarandom, pfaexternalize, pfasize", "titus.producer.chain", "titus reader, type checker, code generator, engines of what was written"],
                STUB=["file system, standard streams and exit of a process", "the ijson package (not installed)", "clocks", "entropy"],
                ASSUMPTIONS=["files a process leaves open are flushed at its end, and failures of that are not reported (CPython and PyPy)",
                             "output of a tool that reports failure may be incomplete", "cells and pools given to pfaexternalize exist and go to different files"])
