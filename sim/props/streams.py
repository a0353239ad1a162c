"""C13: an engine run over Avro files: what is written reads back, in order, once, as the engine gave it.

The host reads a container file through avroInputIterator, hands every datum to an engine and appends what comes out (results
or emitted values) to avroOutputDataFileWriter, skipping data on which the document fails.  The input file is produced, and the
output file decoded, by an Avro implementation of our own.  Files live in a simulated file system that fails, fills up, gives
short reads and cuts; the host is killed at seeded points.  Oracle: another engine of the document given the same data in
memory."""
import copy
import json
import zlib

from .. import core, corpus, avrobin
from ..corpus import canon
from ..fs import SimFS
from ..gen import minipfa, zoo
from ..world import titus, classify
from .persist import loads

KEYMAP = {k: k + "_" for k in ("int", "string", "null", "boolean", "long", "float", "double", "bytes", "array", "map")}


def tidy(z, t, v):
    """Floats that a float can hold; no map keys that read like tags of a union."""
    t = z.resolve(t)
    if isinstance(t, list):
        if v is None:
            return None
        (tag, x), = v.items()
        for b in t:
            r = z.resolve(b)
            if tag == (r if isinstance(r, str) else r["name"] if r["type"] in ("record", "enum", "fixed") else r["type"]):
                return {tag: tidy(z, b, x)}
        raise core.HarnessError("tag " + tag)
    k = t if isinstance(t, str) else t["type"]
    if k == "float" or k == "double" and z.narrow:
        return avrobin.f32(v) if abs(v) < 1e38 else 1.5
    if k == "array":
        return [tidy(z, t["items"], x) for x in v]
    if k == "map":
        return {KEYMAP.get(q, q): tidy(z, t["values"], x) for q, x in v.items()}
    if k == "record":
        return {f["name"]: tidy(z, f["type"], v[f["name"]]) for f in t["fields"]}
    return v


def zoo_document(rng):
    z = zoo.Zoo(rng)
    T = z.type(3)
    R = z.ref(T)
    inp = {"type": "record", "name": "Zin", "fields": [{"name": "op", "type": "int"}, {"name": "x", "type": T}]}
    kinds = ["same", "same", "record", "array", "map", "bare"]
    if not isinstance(T, list) and T != "null":
        kinds += ["maybe", "maybe"]
    shape = rng.choice(kinds)
    method = rng.choice(["map", "map", "emit"])
    out, e = R, "input.x"
    if shape == "bare":
        inp, e = T, "input"
    elif shape == "record":
        out = {"type": "record", "name": "Zout", "fields": [{"name": "n", "type": "int"}, {"name": "y", "type": R}]}
        e = {"new": {"n": "input.op", "y": "input.x"}, "type": out}
    elif shape == "array":
        out = {"type": "array", "items": R}
        e = {"new": ["input.x", "input.x"], "type": out}
    elif shape == "map":
        out = {"type": "map", "values": R}
        e = {"new": {"p": "input.x", "q r": "input.x"}, "type": out}
    elif shape == "maybe":
        out = ["null", R] if rng.random() < 0.5 else [R, "null"]
        e = {"if": {">": ["input.op", 1]}, "then": ["input.x"], "else": [None]}
    doc = {"name": "Stream", "input": inp, "output": out, "method": method, "cells": {"n": {"type": "int", "init": 0}}}
    body = []
    if shape != "bare" and rng.random() < 0.5:
        body.append({"if": {"==": ["input.op", 3]}, "then": [{"error": "refused"}]})
    if method == "emit":
        body.append({"emit": [e]})
        if shape != "bare" and rng.random() < 0.6:
            body.append({"if": {"<": ["input.op", 2]}, "then": [{"emit": [copy.deepcopy(e)]}]})
    else:
        body.append(e)
    doc["action"] = body
    data = []
    try:
        N = avrobin.Names(inp)
        z.narrow = not avrobin.plain_unions(N, N.schema)      # a double may be taken for a float
    except KeyError:
        return zoo_document(rng)        # names are not where the schema says
    for _ in range(rng.choice([0, 1, 3, 6, 12])):
        v = tidy(z, T, z.value(T))
        data.append(v if shape == "bare" else {"op": rng.randint(0, 3), "x": v})
    return doc, data, True


def harvested(rng):
    for _ in range(50):
        o = corpus.pick(rng)
        data = [corpus.untag(c[1]) for c in o["calls"] if c[0] == "action"]
        if not data or o["doc"].get("method") == "fold" and "merge" not in o["doc"]:
            continue
        doc = copy.deepcopy(o["doc"])
        try:
            N = avrobin.Names(doc["input"])
            for v in data:
                r = avrobin.Reader(avrobin.encode(N, N.schema, v))
                if not avrobin.same(N, N.schema, v, r.value(N, N.schema)):
                    raise ValueError()
        except Exception:
            continue
        k = rng.randrange(len(data))
        data = (data[k:] + data[:k])[:10]
        doc.setdefault("randseed", 12345)
        doc.setdefault("name", "Stream")
        return doc, data, False
    raise core.HarnessError("no harvested document has inputs that can be written")


def generate(rng, tier):
    r = rng.random()
    if r < 0.6:
        kind = "zoo"
        for _ in range(8):
            doc, data, _ = zoo_document(rng)
            if loads(doc):
                break
    elif r < 0.8:
        kind = "gen"
        doc = minipfa.Gen(rng, method=rng.choice(["map", "emit", "fold"]), w_emit=2.0).document()
        data = [minipfa.value(rng, "In") for _ in range(rng.choice([2, 5, 10]))]
    else:
        kind = "corpus"
        doc, data, _ = harvested(rng)
    case = {"kind": kind, "doc": doc, "data": [wrap(x) for x in data], "codec": rng.choice(["null", "null", "deflate", "bzip2"]),
            "blocks": [rng.randint(1, 5) for _ in range(3)], "interval": rng.choice([None, None, 1, 20, 100]),
            "flush": rng.choice([None, None, 1, 3]), "entropy": rng.getrandbits(32)}
    n = max(1, len(data))
    r = rng.random()
    if r < 0.2:
        case["kill"] = rng.randint(0, n)
    elif r < 0.4:
        case["cut"] = rng.random()
    elif r < 0.75:
        ops = [("write", ["ENOSPC", "EIO", "short", "ENOSPC"]), ("read", ["EIO", "short"]), ("close", ["EIO"]), ("open", ["EACCES", "EMFILE"])]
        case["faults"] = []
        for _ in range(rng.choice([1, 1, 2])):
            op, fs = rng.choice(ops)
            case["faults"].append([op, rng.choice([1, 1, 2, 3, 5]), rng.choice(fs)])
    return case


def wrap(x):
    """For replay files: bytes as {"$bytes": [...]}"""
    if isinstance(x, bytes):
        return {"$bytes": list(x)}
    if isinstance(x, dict):
        return {k: wrap(v) for k, v in x.items()}
    if isinstance(x, list):
        return [wrap(v) for v in x]
    return x


def direct(doc, data, ended):
    """What comes out of an engine given the data one after the other: for begin, each datum and end, a list of outputs."""
    eng, = titus().PFAEngine.fromJson(copy.deepcopy(doc))
    out, cur = [], []       # out[0] and out[-1]: begin and end
    if doc.get("method") == "emit":
        eng.emit = lambda v: cur.append(copy.deepcopy(v))
    eng.log = lambda m, ns: None
    status = []
    try:
        eng.begin()
    except Exception as err:
        status.append(classify(err))
    out.append(list(cur))
    for x in data:
        cur = []
        try:
            r = eng.action(copy.deepcopy(x))
            if doc.get("method") != "emit":
                cur.append(copy.deepcopy(r))
            status.append("ok")
        except Exception as err:
            status.append(classify(err))
        out.append(list(cur))
    del cur[:]
    if ended:
        try:
            eng.end()
        except Exception as err:
            status.append(classify(err))
    out.append(list(cur))
    return out, status


def execute(case):
    T = titus()
    import avro.datafile
    core.begin_case(case["entropy"])
    doc = case["doc"]
    data = [corpus.untag(x) for x in case["data"]]
    probe, trace = {}, []

    def hit(n, k=1):
        probe[n] = probe.get(n, 0) + k
    N = avrobin.Names(doc["input"])
    raw, cuts = avrobin.container(doc["input"], data, case["codec"], b"\x07sync marker 0!\xff", case["blocks"])
    expected_inputs = len(data)
    cut = None
    if "cut" in case:
        at, n = cuts[int(case["cut"] * len(cuts)) % len(cuts)]
        cut = n if at < len(raw) else None
        raw, expected_inputs = raw[:at], n
    plain = avrobin.plain_unions(N, N.schema)
    if case["kind"] != "zoo" and not plain:
        given = [avrobin.untagged(N, N.schema, v) for v in data]
        hit("ambiguous_input")
    else:
        given = data
    violation = None
    core_interval = avro.datafile.SYNC_INTERVAL
    with core.virtual_time():
        outs, status = direct(doc, given[:expected_inputs], True)
        fs = SimFS({"/sim/in.avro": raw})
        try:
            if case["interval"]:
                avro.datafile.SYNC_INTERVAL = case["interval"]
            with fs:
                eng, = T.PFAEngine.fromJson(copy.deepcopy(doc))
                eng.log = lambda m, ns: None
                fs.arm(case.get("faults"))
                written, acked, failed, closed, nin = [], 0, None, False, 0
                stat = []
                w = None
                try:
                    src = open("/sim/in.avro", "rb")
                    stream = eng.avroInputIterator(src)
                    w = eng.avroOutputDataFileWriter("/sim/out.avro")

                    class Broken(Exception):
                        pass

                    def put(v):
                        try:
                            w.append(v)
                        except Exception as err:
                            raise Broken(err)
                        written.append(copy.deepcopy(v))
                    if doc.get("method") == "emit":
                        eng.emit = put
                    try:
                        eng.begin()
                    except Broken:
                        raise
                    except Exception as err:
                        stat.append(classify(err))
                    for datum in stream:
                        if case.get("kill") == nin:
                            failed = "killed"
                            break
                        nin += 1
                        try:
                            r = eng.action(datum)
                        except Broken:
                            raise
                        except Exception as err:
                            stat.append(classify(err))
                        else:
                            stat.append("ok")
                            if doc.get("method") != "emit":
                                put(r)
                        if case["flush"] and nin % case["flush"] == 0:
                            w.flush()
                            acked = len(written)
                    if failed is None:
                        try:
                            eng.end()
                        except Broken:
                            raise
                        except Exception as err:
                            stat.append(classify(err))
                        w.close()
                        closed = True
                        acked = len(written)
                except core.HarnessError:
                    raise
                except Exception as err:
                    failed = "%s: %s" % (type(err).__name__, str(err)[:200])
                    cause = err.args[0] if type(err).__name__ == "Broken" else err
                    if not isinstance(cause, (OSError, AssertionError, EOFError)) and cut is None:
                        failed = "refused: %s: %s" % (type(cause).__name__, str(cause)[:300])
                real = [x for x in fs.fired if x[2] != "short"]
                fs.arm(None)
                disk = bytes(fs.files.get("/sim/out.avro", b""))
                trace.append([nin, len(written), acked, (failed or "").split(":")[0], closed, stat])
                hit("data", nin)
                hit("values_written", len(written))
                if failed == "killed":
                    fs.total["killed"] = 1
                if cut is not None:
                    fs.total["input_cut"] = 1

                def bad(kind, msg):
                    return {"kind": kind, "msg": "%s; document %s; data %s; faults %s" % (msg, json.dumps(doc)[:1200], json.dumps(case["data"])[:600],
                                                                                          json.dumps({k: case[k] for k in ("faults", "kill", "cut") if k in case}))}
                want = [v for o in outs for v in o]
                if failed and failed.startswith("refused"):
                    violation = bad("refused", "the stream broke although nothing is wrong with files or data: " + failed)
                elif failed and failed != "killed" and not real and cut is None:
                    violation = bad("broken", "the stream broke without a fault: " + failed)
                elif cut is not None and not real and nin != cut:
                    violation = bad("silent-loss", "the input ends inside datum %d, the engine was given %d data%s" % (cut, nin, "" if failed else " and no error"))
                elif not failed and nin != expected_inputs:
                    violation = bad("input-count", "the input holds %d data, the engine was given %d" % (expected_inputs, nin))
                elif stat[:len(status)] != status[:len(stat)]:
                    violation = bad("outcomes-differ", "given the data in memory, the calls end %s; from the file %s" % (json.dumps(status)[:500], json.dumps(stat)[:500]))
                if violation is None:
                    try:
                        NO, back, complete = (None, [], False) if len(disk) == 0 else avrobin.parse(disk)
                    except avrobin.Short:
                        NO, back, complete = None, [], False
                    except Exception as err:
                        NO, back = None, []
                        violation = bad("unreadable", "the output file cannot be read: %s: %s" % (type(err).__name__, err))
                if violation is None:
                    part = [v for o in (outs if nin == expected_inputs else outs[:nin + 1]) for v in o]
                    if len(back) < acked:
                        violation = bad("lost", "%d values were written and flushed, the file holds %d" % (acked, len(back)))
                    elif closed and (len(back) != len(want) or not complete and want):
                        violation = bad("count", "the run gave %d values, the file holds %d%s" % (len(want), len(back), "" if complete else " and ends early"))
                    elif len(back) > len(part):
                        violation = bad("count", "the run gave %d values, the file holds %d" % (len(part), len(back)))
                    else:
                        for i, (d, b) in enumerate(zip(part, back)):
                            if not avrobin.same(NO, NO.schema, d, b) and not (case["kind"] == "zoo" and not plain and loosely(d) == loosely(b)):
                                violation = bad("differs", "value %d of the output is %r in the file; the engine gives %r" % (i, b, d))
                                break
                if violation is None and closed and back:
                    # and once more through titus: the file as the input of another engine
                    hit("read_back")
                    eng2, = T.PFAEngine.fromJson({"input": json.loads(json.dumps(doc_schema(disk))), "output": "int", "action": [0]})
                    again = list(eng2.avroInputIterator(open("/sim/out.avro", "rb")))
                    flat = [avrobin.untagged(NO, NO.schema, b) for b in back]
                    if json.dumps(canon(again)) != json.dumps(canon(flat)):
                        violation = bad("read-back", "avroInputIterator reads %r from the output file, which holds %r" % (again[:5], flat[:5]))
        finally:
            avro.datafile.SYNC_INTERVAL = core_interval
    return {"violation": violation, "probe": probe, "faults": fs.total, "sig": [case["kind"], doc.get("method", "map"), trace, sorted(fs.total)],
            "result": [trace, zlib.crc32(repr(back).encode()) if violation is None else None], "events": len(data), "nontrivial": probe.get("values_written", 0) > 0, "sim_time": core.CLOCK.total, "ops": len(data)}


def doc_schema(disk):
    r = avrobin.Reader(disk)
    r.take(4)
    return json.loads(r.value(avrobin.Names("null"), avrobin.META)["avro.schema"].decode())


def loosely(x):
    """Without tags, numbers by value, bytes as text: for data whose union members a reader cannot tell apart."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, (int, float)):
        return "n:" + repr(float(x)) if x == x else "nan"
    if isinstance(x, bytes):
        return x.decode("latin-1")
    if isinstance(x, dict):
        if len(x) == 1:
            (k, v), = x.items()
            if k in KEYMAP or len(k) > 1 and k[0] in "REF" and k[1:].isdigit() or k.startswith("com.example."):
                return loosely(v)
        return {k: loosely(v) for k, v in x.items()}
    return [loosely(v) for v in x]


def shrink(case):
    n = len(case["data"])
    for i in range(n):
        if n > 1:
            yield dict(case, data=case["data"][:i] + case["data"][i + 1:])
    for k in ("flush", "interval"):
        if case[k]:
            yield dict(case, **{k: None})
    for k in ("kill", "cut", "faults"):
        if k in case:
            yield {a: b for a, b in case.items() if a != k}
    if case["codec"] != "null":
        yield dict(case, codec="null")
    if case["kind"] == "gen":
        from . import history
        for c in history.shrink_doc({"doc": case["doc"], "ops": []}):
            yield dict(case, doc=c["doc"])


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 6000, "budget": 40, "minimise": 40},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when at least one value was written; distinct = distinct (documents' method, outcomes, numbers read and written, faults)",
                MEASURE="hash of (workload kind, outcomes of all calls, data read, values written and flushed, faults)",
                REAL=["titus reader, type checker, code generator", "generated engine code", "checkData", "avroInputIterator, avroOutputDataFileWriter", "avro container reader and writer"],
                STUB=["file system (in memory, with injected faults)", "process kill", "clocks", "entropy"],
                ASSUMPTIONS=["members of a union that a reader without tags cannot tell apart (two numbers, enum and string, map and record) may come back as each other",
                             "a float is what 32 bits hold", "a file is not cut inside a sync marker, nor within 16 bytes of the start of a block (the avro package goes astray there)"])
