"""C14: external state is loaded whole, the same for every instance, or the load fails and leaves nothing behind.

Documents whose cells and pools live in JSON and Avro files or behind URLs are loaded -- several instances, several documents
over one SharedState, from dicts, text and open files -- while files cannot be opened, reads fail or come back short, closes
fail, contents are damaged, or files are replaced by a newer version while the load is going on."""
import contextlib
import copy
import io
import json

from .. import core
from ..corpus import canon
from ..fs import SimFS
from ..world import titus


class G(object):
    def __init__(self, rng):
        self.rng = rng
        self.n = 0

    def type(self, d=2):
        rng = self.rng
        k = rng.choice(["int", "long", "double", "string", "boolean", "bytes", "null", "enum", "fixed"] + ["array", "map", "record", "union"] * (2 if d > 0 else 0))
        if k == "array":
            return {"type": "array", "items": self.type(d - 1)}
        if k == "map":
            return {"type": "map", "values": self.type(d - 1)}
        self.n += 1
        if k == "enum":
            return {"type": "enum", "name": "En%d" % self.n, "symbols": ["aa", "bb", "cc"]}
        if k == "fixed":
            return {"type": "fixed", "name": "Fx%d" % self.n, "size": 2}
        if k == "record":
            return {"type": "record", "name": "Re%d" % self.n, "fields": [{"name": "x%d" % i, "type": self.type(d - 1)} for i in range(rng.randint(1, 3))]}
        if k == "union":
            t = self.type(rng.choice([0, 0, d - 1]))
            if isinstance(t, list) or t == "null":
                t = "int"
            return [x for x in rng.sample(["null", t], rng.choice([1, 2]))] + (["string"] if t in ("int", "double", "boolean", "bytes") or isinstance(t, dict) and t["type"] in ("array", "map", "record") else []) \
                if rng.random() < 0.6 else ["null", t]
        return k

    def value(self, t):
        """(JSON as embedded in a document, datum as an Avro program would write it)"""
        rng = self.rng
        k = t if isinstance(t, str) else "union" if isinstance(t, list) else t["type"]
        if k == "int":
            v = rng.randint(-5, 99)
        elif k == "long":
            v = rng.choice([3, -2, 2 ** 40])
        elif k == "double":
            v = rng.choice([0.5, -2.25, 1e10, 3.0])
        elif k == "string":
            v = rng.choice(["", "abc", "5", "null", "true", "h\u00e9llo", "x" * rng.choice([3, 700])])
        elif k == "boolean":
            v = rng.random() < 0.5
        elif k == "null":
            v = None
        elif k == "enum":
            v = rng.choice(t["symbols"])
        elif k in ("bytes", "fixed"):
            b = bytes(rng.randrange(256) for _ in range(2 if k == "fixed" else rng.randint(0, 4)))
            return b.decode("latin-1"), {"$b": list(b)}
        elif k == "array":
            vs = [self.value(t["items"]) for _ in range(rng.choice([0, 1, 2, 5, 40]) if t["items"] == "int" else rng.randint(0, 3))]
            return [a for a, b in vs], [b for a, b in vs]
        elif k == "map":
            vs = {x: self.value(t["values"]) for x in rng.sample(["k1", "k2", "k3"], rng.randint(0, 3))}
            return {x: a for x, (a, b) in vs.items()}, {x: b for x, (a, b) in vs.items()}
        elif k == "record":
            vs = {f["name"]: self.value(f["type"]) for f in t["fields"]}
            return {x: a for x, (a, b) in vs.items()}, {x: b for x, (a, b) in vs.items()}
        elif k == "union":
            m = rng.choice(t)
            a, b = self.value(m)
            tag = m if isinstance(m, str) else m.get("name", m["type"])
            return (None if m == "null" else {tag: a}), b
        return v, v


def debytes(x):
    if isinstance(x, dict):
        return bytes(x["$b"]) if list(x) == ["$b"] else {k: debytes(v) for k, v in x.items()}
    if isinstance(x, list):
        return [debytes(v) for v in x]
    return x


def generate(rng, tier):
    g = G(rng)
    slots = {}
    for i in range(rng.randint(1, 3)):
        slots["c%d" % i] = ["cells", g.type()]
    for i in range(rng.randint(0, 2)):
        slots["p%d" % i] = ["pools", g.type(1)]
    files = {}
    docs = []
    for i in range(rng.choice([1, 1, 2])):
        doc = {"name": "Ext%d" % i, "input": "int", "output": "int", "action": ["input"], "cells": {}, "pools": {}}
        inits = {}
        for n, (kind, t) in sorted(slots.items()):
            if rng.random() < 0.15 and len(slots) > 1:
                continue
            full = t if kind == "cells" else {"type": "map", "values": t}
            src = rng.choice(["json", "json", "avro", "avro", "embedded"])
            slot = {"type": t, "source": src, "shared": rng.random() < 0.5}
            if src == "embedded":
                slot["init"] = g.value(full)[0]
            else:
                url = rng.random() < 0.15
                fn = ("http://host/d%d%s.%s" if url else "d%d%s.%s") % (i, n, src)
                versions = []
                for _ in range(rng.choice([1, 1, 2])):
                    a, b = g.value(full)
                    v = {"json": a, "how": src}
                    if src == "avro":
                        v.update({"datum": b, "schema": full, "rest": [g.value(full)[1] for _ in range(rng.choice([0, 0, 2]))], "codec": rng.choice(["null", "null", "deflate"])})
                    if rng.random() < 0.07:
                        v["damage"] = rng.choice(["truncate", "empty", "type", "junk"])
                        v["rest"] = []      # the first datum of several may well be whole
                    versions.append(v)
                files[fn] = versions
                slot["init"] = fn
            doc[kind][n] = slot
        if i > 0 and rng.random() < 0.5:
            doc["action"] = [{"nosuch": ["input"]}] if rng.random() < 0.5 else [{"+": ["input", "input"]}]
        # rejected late, after the state has been prepared
        if rng.random() < 0.12:
            doc["cells"]["z"] = {"type": "int", "init": 0}
            doc["fcns"] = {"bad": {"params": [{"x": "int"}], "ret": "int", "do": [{"cell": "z", "to": "x"}, "x"]}}
            doc["action"] = [{"cell": "z", "to": {"params": [{"o": "int"}], "ret": "int", "do": [{"u.bad": ["o"]}]}}, "input"]
        docs.append(doc)
    ops = []
    p = rng.choice([0.0, 0.3, 0.6])
    for _ in range(rng.choice([1, 2, 3, 5])):
        op = {"doc": rng.randrange(len(docs)), "n": rng.choice([1, 1, 2, 3]), "shared": rng.random() < 0.75, "via": rng.choice(["dict", "dict", "text", "file", "yaml"])}
        if rng.random() < p:
            k = rng.choice(["open", "read", "read", "close"])
            op["faults"] = [[k, rng.choice([1, 1, 2, 3, 5]), rng.choice({"open": ["EACCES", "EMFILE", "ENOENT", "EIO"], "read": ["EIO", "short", "short"], "close": ["EIO"]}[k])]]
        if files and rng.random() < 0.35:
            op["swap"] = [rng.choice(sorted(files)), rng.randint(1, 5)]      # replaced just before the n-th opening of a file
        if rng.random() < 0.3:
            op["text_later"] = True
        ops.append(op)
    return {"files": files, "docs": docs, "ops": ops, "entropy": rng.getrandbits(32)}


def encode(v):
    """The bytes of one version of a file."""
    if v["how"] == "json":
        out = json.dumps(v["json"]).encode()
    else:
        from avro.datafile import DataFileWriter
        from avro.io import DatumWriter
        import avro.schema
        b = io.BytesIO()
        w = DataFileWriter(b, DatumWriter(), avro.schema.parse(json.dumps(v["schema"])), codec=v["codec"])
        for x in [v["datum"]] + v["rest"]:
            w.append(debytes(x))
        w.flush()
        out = b.getvalue()
        w.close()
    d = v.get("damage")
    if d == "truncate":
        return out[:len(out) // 2] if v["how"] == "avro" else out[:-1] + b"{"
    if d == "empty":
        return b""
    if d == "type":
        return json.dumps([{"no": 1}, 0, "x"]).encode()
    if d == "junk":
        return b"\x00\xff}{" + out
    return out


def reference(T, t, full, js):
    """What the engine must hold, by way of an embedded initial value."""
    doc = {"name": "Ref", "input": "null", "output": "null", "action": ["input"], "cells": {"c": {"type": full, "init": js}}}
    return {"is": canon(T.PFAEngine.fromJson(doc)[0].cells["c"].value)}


def execute(case):
    T = titus()
    core.begin_case(case["entropy"])
    probe, trace, violation = {}, [], None

    def hit(k):
        probe[k] = probe.get(k, 0) + 1
    with core.virtual_time():
        want = {}
        for doc in case["docs"]:
            for kind in ("cells", "pools"):
                for n, s in doc[kind].items():
                    full = s["type"] if kind == "cells" else {"type": "map", "values": s["type"]}
                    if s.get("source", "embedded") == "embedded":
                        want[doc["name"], n] = [reference(T, s["type"], full, s["init"])]
                    else:
                        want[doc["name"], n] = [None if v.get("damage") else reference(T, s["type"], full, v["json"]) for v in case["files"][s["init"]]]
        fs = SimFS({f: encode(v[0]) for f, v in case["files"].items()})
        version = {f: 0 for f in case["files"]}
        state = T.SharedState()
        model = {}              # shared name -> canonical value
        with fs, contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
            for j, op in enumerate(case["ops"]):
                doc = case["docs"][op["doc"]]
                rejected = doc["action"] != ["input"] and "nosuch" in json.dumps(doc["action"]) or "fcns" in doc
                text = json.dumps(doc)
                fs.files["doc.pfa"] = bytearray(text.encode())
                fs.arm(op.get("faults"))
                st = state if op["shared"] else T.SharedState()
                before = {k: id(v) for k, v in list(st.cells.items()) + list(st.pools.items())}
                held = {k: {"is": canon(v.value)} for k, v in list(st.cells.items()) + list(st.pools.items())}
                v0 = dict(version)
                opens = [0]

                def swap(name, kind):
                    opens[0] += 1
                    sw = op.get("swap")
                    if sw and opens[0] == sw[1] and version[sw[0]] + 1 < len(case["files"][sw[0]]):
                        version[sw[0]] += 1
                        fs.files[fs.norm(sw[0])] = bytearray(encode(case["files"][sw[0]][version[sw[0]]]))
                        fs.total["file_replaced"] = fs.total.get("file_replaced", 0) + 1
                fs.before_open = swap
                try:
                    if op["via"] == "dict":
                        engines = T.PFAEngine.fromJson(copy.deepcopy(doc), sharedState=st, multiplicity=op["n"])
                    elif op["via"] == "text":
                        engines = T.PFAEngine.fromJson(text, sharedState=st, multiplicity=op["n"])
                    elif op["via"] == "yaml":
                        engines = T.PFAEngine.fromYaml(text, sharedState=st, multiplicity=op["n"])
                    else:
                        f = open("doc.pfa")
                        try:
                            engines = T.PFAEngine.fromJson(f, sharedState=st, multiplicity=op["n"])
                        finally:
                            plan, fs.plan = fs.plan, []         # closing this file is the caller's business
                            f.close()
                            fs.plan = plan
                    status = "ok"
                except core.HarnessError:
                    raise
                except Exception as err:
                    status, engines = "failed: " + type(err).__name__, []
                fs.before_open = None
                real = [x for x in fs.fired if x[2] != "short"]
                fs.arm(None)
                hit("load:" + status)
                trace.append([op["doc"], status])

                def bad(kind, msg):
                    return {"kind": kind, "msg": "load %d (%s), %s: %s; document %s" % (j, json.dumps({k: v for k, v in op.items()}), status, msg, text[:1500])}
                if fs.left_open():
                    violation = bad("left-open", "these files are still open: %s" % fs.left_open())
                    break
                names = [(kind, n) for kind in ("cells", "pools") for n in doc[kind] if n != "z"]
                cand = {}
                for kind, n in names:
                    s = doc[kind][n]
                    w = want[doc["name"], n]
                    if s.get("source", "embedded") == "embedded":
                        cand[n] = w
                    else:
                        cand[n] = [w[v] for v in range(v0[s["init"]], version[s["init"]] + 1)]
                loadable = not rejected and all(c is not None for kind, n in names for c in cand[n] if not (doc[kind][n]["shared"] and n in held))
                if status != "ok":
                    if not real and loadable:
                        violation = bad("refused", "nothing was wrong with the document or its files")
                        break
                    after = {k: id(v) for k, v in list(st.cells.items()) + list(st.pools.items())}
                    if after != before or held != {k: {"is": canon(v.value)} for k, v in list(st.cells.items()) + list(st.pools.items())}:
                        violation = bad("left-behind", "the load failed, but the shared state went from %s to %s" % (sorted(before), sorted(after)))
                        break
                    continue
                if rejected:
                    violation = bad("accepted", "the document is invalid")
                    break
                if len(engines) != op["n"]:
                    violation = bad("count", "%d engines" % len(engines))
                    break
                for kind, n in names:
                    shared = doc[kind][n]["shared"]
                    got = [{"is": canon((e.cells if kind == "cells" else e.pools)[n].value)} for e in engines]
                    ok = [held[n]] if shared and n in held else [c for c in cand[n] if c is not None]
                    if any(x != got[0] for x in got):
                        violation = bad("instances-differ", "%s: the instances hold different values: %s" % (n, json.dumps(got)[:600]))
                    elif got[0] not in ok:
                        violation = bad("wrong-value", "%s holds %s; expected %s" % (n, json.dumps(got[0])[:600], json.dumps(ok)[:600]))
                    elif shared and any((e.cells if kind == "cells" else e.pools)[n] is not (st.cells if kind == "cells" else st.pools).get(n) for e in engines):
                        violation = bad("not-shared", "%s is not the one in the shared state" % n)
                    elif not shared and len({id((e.cells if kind == "cells" else e.pools)[n]) for e in engines}) != len(engines):
                        violation = bad("not-private", "%s is the same object in several instances" % n)
                    if violation:
                        break
                    hit("slot:%s" % doc[kind][n].get("source"))
                    if op.get("text_later") and not any(doc[k][m]["shared"] and m in held for k, m in names):
                        # the configuration an engine reports is the one it was loaded with, whatever has become of the files
                        saved = fs.files
                        fs.files = {}
                        try:
                            node = json.loads(engines[0].config.toJson())
                            full = doc[kind][n]["type"] if kind == "cells" else {"type": "map", "values": doc[kind][n]["type"]}
                            back = reference(T, None, full, node[kind][n]["init"])
                        except Exception as err:
                            back = "%s: %s" % (type(err).__name__, str(err)[:300])
                        fs.files = saved
                        hit("config_compared")
                        if back != got[0]:
                            violation = bad("config-differs", "%s was loaded as %s, but the engine's configuration now says %s" % (n, json.dumps(got[0])[:500], json.dumps(back)[:500]))
                            break
                if violation:
                    break
                extra = sorted(set(list(st.cells) + list(st.pools)) - set(before) - {n for kind, n in names if doc[kind][n]["shared"]})
                if extra:
                    violation = bad("left-behind", "the shared state also holds %s" % extra)
                    break
    return {"violation": violation, "probe": probe, "faults": fs.total, "sig": trace + [sorted(fs.total.items())], "events": len(trace), "result": trace,
            "nontrivial": any(f for f in case["files"]), "sim_time": core.CLOCK.total, "ops": len(trace)}


def shrink(case):
    for i in range(len(case["ops"])):
        if len(case["ops"]) > 1:
            yield dict(case, ops=case["ops"][:i] + case["ops"][i + 1:])
    for i, op in enumerate(case["ops"]):
        for k in ("faults", "swap", "text_later"):
            if k in op:
                yield dict(case, ops=case["ops"][:i] + [{a: b for a, b in op.items() if a != k}] + case["ops"][i + 1:])
        if op["n"] > 1:
            yield dict(case, ops=case["ops"][:i] + [dict(op, n=op["n"] - 1)] + case["ops"][i + 1:])
        if op["via"] != "dict":
            yield dict(case, ops=case["ops"][:i] + [dict(op, via="dict")] + case["ops"][i + 1:])
    for i, d in enumerate(case["docs"]):
        for kind in ("cells", "pools"):
            for n in sorted(d[kind]):
                if n != "z":
                    c = copy.deepcopy(case)
                    del c["docs"][i][kind][n]
                    yield c
    used = json.dumps(case["docs"])
    for f in sorted(case["files"]):
        if json.dumps(f) not in used and not any((o.get("swap") or [None])[0] == f for o in case["ops"]):
            yield dict(case, files={k: v for k, v in case["files"].items() if k != f})


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 12000, "budget": 40, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when some state is external; distinct = distinct sequences of (document, outcome) and faults",
                REAL=["titus reader, type checker, code generator, engine construction", "avro container reader", "PyYAML"],
                STUB=["file system and URLs (in memory, with injected faults)", "clocks", "entropy"],
                ASSUMPTIONS=["an embedded initial value means what its JSON says (checked by the other properties)", "errors are those the operating system reports; silent corruption of bits is not injected"])
