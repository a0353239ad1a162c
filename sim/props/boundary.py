"""C22: what crosses an engine's boundary has its declared type.

A host receives messages over a channel that garbles some of them (values of another kind, out of range, missing or surplus
parts, wrong tags, flipped characters, looser forms of the same datum) and hands them to engines.  Oracle: a reference reading
of the input type that says what a message means, if anything, and a twin of the engines that is given only the meaning of
the messages that have one."""
import copy
import importlib
import json
import math
import re

from .. import core, corpus, avrobin
from ..corpus import canon
from ..gen import minipfa, zoo
from ..world import titus, classify
from .persist import loads, state_of
from .streams import KEYMAP

WIDER = {"int": ("int", "long", "float", "double"), "long": ("long", "float", "double"), "float": ("float", "double")}     # what a case of a cast accepts
RANGE = {"int": 31, "long": 63}
ORDER = ["exact", "loose", "unclear", "no"]


def worst(a, b):
    return a if ORDER.index(a) >= ORDER.index(b) else b


def lone(s):
    """Half a character: no text."""
    return any("\ud800" <= c <= "\udfff" for c in s)


def fit(N, t, v):
    """-> (exact | loose | unclear | no, the datum it means)"""
    t = N.get(t)
    if avrobin.is_union(t):
        if isinstance(v, dict) and len(v) == 1:
            (tag, x), = v.items()
            for b in t:
                if tag in N.tags(b):
                    s, d = fit(N, b, x)
                    if s != "no":
                        return (s if tag == N.tags(b)[0] else "unclear"), None if tag == "null" else {N.tags(b)[0]: d}
                    break
        if v is None and "null" in t:
            return "exact", None
        able = []
        for b in t:
            s, d = fit(N, b, v)
            if s != "no":
                able.append((s, d, N.tags(b)[0]))
        if not able:
            return "no", None
        if len(able) > 1 or able[0][0] == "unclear":
            return "unclear", None
        s, d, tag = able[0]
        return "loose", None if tag == "null" else {tag: d}
    k = t if isinstance(t, str) else t["type"]
    if k == "null":
        return ("exact", None) if v is None else ("loose", None) if v == "null" else ("no", None)
    if k == "boolean":
        if isinstance(v, bool):
            return "exact", v
        return ("loose", v == "true") if isinstance(v, str) and v in ("true", "false") else ("no", None)
    if k in ("int", "long"):
        if isinstance(v, float) and v == v and not math.isinf(v) and v == int(v):
            return "unclear", None
        form = "exact"
        if isinstance(v, str):
            if not re.match(r"^[+-]?[0-9]{1,40}$", v) or v.endswith("\n"):
                return ("no" if not re.search("[0-9]", v) and not any(c.isdigit() for c in v) else "unclear"), None
            form, v = "loose", int(v)
        if isinstance(v, bool) or not isinstance(v, int) or not -2 ** RANGE[k] <= v < 2 ** RANGE[k]:
            return "no", None
        return form, v
    if k in ("float", "double"):
        if isinstance(v, str):
            if re.match(r"^[+-]?[0-9]{1,15}([.][0-9]{1,15})?([eE][+-]?[0-9]{1,2})?$", v) and not v.endswith("\n"):
                return "loose", float(v)
            try:
                float(v)
                return "unclear", None
            except ValueError:
                return "no", None
        if isinstance(v, bool) or not isinstance(v, (int, float)):
            return "no", None
        if isinstance(v, int):
            try:
                return "loose", float(v)
            except OverflowError:
                return "no", None
        if k == "float" and abs(v) > 3e38 and not math.isinf(v):
            return "unclear", None
        return "exact", v
    if k in ("bytes", "fixed"):
        form = "exact"
        if isinstance(v, bytes):
            form, v = "loose", v.decode("latin-1")
        if not isinstance(v, str) or any(ord(c) > 255 for c in v) or k == "fixed" and len(v) != t["size"]:
            return "no", None
        return form, v
    if k == "string":
        return ("no", None) if not isinstance(v, str) else ("unclear", None) if lone(v) else ("exact", v)
    if k == "enum":
        return ("exact", v) if isinstance(v, str) and v in t["symbols"] else ("no", None)
    how = "exact"
    if k == "array":
        if not isinstance(v, (list, tuple)):
            return "no", None
        out = []
        for x in v:
            s, d = fit(N, t["items"], x)
            how = worst(how, s)
            out.append(d)
        return (worst(how, "loose") if isinstance(v, tuple) else how), out
    if not isinstance(v, dict):
        return "no", None
    out = {}
    if k == "map":
        for q, x in v.items():
            s, d = fit(N, t["values"], x)
            how = worst(how, s if isinstance(q, str) and not lone(q) else worst(s, "unclear"))
            out[q] = d
        return how, out
    for f in t["fields"]:
        if f["name"] not in v:
            return "no", None
        s, d = fit(N, f["type"], v[f["name"]])
        how = worst(how, s)
        out[f["name"]] = d
    return (worst(how, "loose") if len(v) > len(out) else how), out


def names(doc):
    """Named types of a document's input and output (its schema: a record of the two and of the types of its state)."""
    ts = [doc["input"], doc["output"]] + [c["type"] for k in ("cells", "pools") for _, c in sorted(doc.get(k, {}).items()) if isinstance(c, dict)]
    try:
        return avrobin.Names({"type": "record", "name": "$Doc", "fields": [{"name": "f%d" % i, "type": t} for i, t in enumerate(ts)]})
    except KeyError:
        raise
    except Exception as err:
        raise KeyError(str(err))


def has(N, t, kind, seen=()):
    t = N.get(t)
    if avrobin.is_union(t):
        return any(has(N, b, kind, seen) for b in t)
    if isinstance(t, str):
        return t == kind
    if t["type"] == kind:
        return True
    if t["type"] == "array":
        return has(N, t["items"], kind, seen)
    if t["type"] == "map":
        return has(N, t["values"], kind, seen)
    if t["type"] != "record" or t["full"] in seen:
        return False
    return any(has(N, f["type"], kind, seen + (t["full"],)) for f in t["fields"])


def equal(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or a != a and b != b
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(equal(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(equal(x, y) for x, y in zip(a, b))
    return type(a) == type(b) and a == b


# ------------------------------------------------------------------ the channel

JUNK = [None, True, False, 0, 1, -1, 3.5, 2.0, 2 ** 31, -2 ** 31 - 1, 2 ** 63, -2 ** 63 - 1, 10 ** 30, "", "a", "12", "-7", "1.5", "true", "false", "null", "A", "Z", "zz", "2147483648",
        "9223372036854775808", "1e3", "abc", "\u4e2d", "\xff", [], {}, [1], ["a"], {"a": 1}, {"int": 5}, {"string": "s"}, {"null": None}, {"boolean": True}, {"double": 1},
        {"bogus": 1}, b"", b"ab", float("nan"), float("inf"), [None], {"": None}, 10 ** 400]


def nodes(v, path=()):
    yield path
    if isinstance(v, dict):
        for k in v:
            for p in nodes(v[k], path + (k,)):
                yield p
    elif isinstance(v, list):
        for i, x in enumerate(v):
            for p in nodes(x, path + (i,)):
                yield p


def at(v, path):
    for k in path:
        v = v[k]
    return v


def put(v, path, x):
    if not path:
        return x
    v = copy.deepcopy(v)
    at(v, path[:-1])[path[-1]] = x
    return v


def garble(rng, v):
    """-> kind of fault, the message as it arrives"""
    path = rng.choice(list(nodes(v)))
    x = copy.deepcopy(at(v, path))
    ks = ["junk", "junk", "wrap", "text"]
    if isinstance(x, dict):
        ks += ["missing", "missing", "surplus", "rename", "unwrap", "aslist"]
    if isinstance(x, list):
        ks += ["missing", "surplus", "tuple", "asdict", "asstring"]
    if isinstance(x, bool):
        ks += ["number"]
    elif isinstance(x, (int, float)):
        ks += ["number", "range", "range"]
    if isinstance(x, str):
        ks += ["longer", "shorter", "bytes", "case"]
    k = rng.choice(ks)
    if k == "junk":
        y = copy.deepcopy(rng.choice(JUNK))
    elif k == "wrap":
        y = [x] if rng.random() < 0.4 else {rng.choice(["int", "string", "boolean", "null", "array", "map", "double", "R1", "bogus"]): x}
    elif k == "text":
        y = "null" if x is None else str(x).lower() if isinstance(x, bool) else x.upper() if isinstance(x, str) else str(x) if isinstance(x, (int, float)) else json.dumps(x, default=str)
    elif k == "missing":
        if not x:
            return "intact", v
        if isinstance(x, dict):
            del x[rng.choice(list(x))]
        else:
            del x[rng.randrange(len(x))]
        y = x
    elif k == "surplus":
        if isinstance(x, dict):
            x[rng.choice(["surplus", "int", "x", "f0"])] = copy.deepcopy(rng.choice(JUNK))
        else:
            x.insert(rng.randint(0, len(x)), copy.deepcopy(rng.choice(JUNK)))
        y = x
    elif k == "rename":
        y = {(rng.choice(["int", "string", "long", "X", "f0", "null"]) if i == 0 else q): w for i, (q, w) in enumerate(x.items())}
    elif k == "unwrap":
        y = list(x.values())[0] if x else None
    elif k == "aslist":
        y = list(x)
    elif k == "asdict":
        y = {str(i): w for i, w in enumerate(x)}
    elif k == "asstring":
        y = "".join(w if isinstance(w, str) else "x" for w in x)
    elif k == "tuple":
        y = tuple(x)
    elif k == "number":
        y = int(x) if isinstance(x, bool) else float(x) if isinstance(x, int) and abs(x) < 10 ** 300 else bool(x) if isinstance(x, int) or rng.random() < 0.5 or x != x or math.isinf(x) else int(x)
    elif k == "range":
        y = rng.choice([2 ** 31, -2 ** 31 - 1, 2 ** 31 - 1, 2 ** 63, 2 ** 64, -2 ** 63 - 1, -2 ** 63, 1e39, 10 ** 309])
    elif k == "longer":
        y = x + rng.choice(["a", "0", " ", "\n", "\u4e2d"])
    elif k == "shorter":
        y = x[:-1]
    elif k == "bytes":
        y = x.encode("utf-8")
    else:
        y = x.swapcase()
    return k, put(v, path, y)


def flip(rng, v):
    """One character of the text is changed, lost or doubled, or the text ends early."""
    s = json.dumps(v)
    i = rng.randrange(len(s))
    r = rng.random()
    if r < 0.4:
        s = s[:i] + rng.choice("0123456789-.\"{}[],:aetn ") + s[i + 1:]
    elif r < 0.6:
        s = s[:i] + s[i + 1:]
    elif r < 0.8:
        s = s[:i] + s[i] + s[i:]
    else:
        s = s[:i]
    try:
        return json.loads(s)
    except (ValueError, RecursionError):
        return flip

def wrap(x):
    if isinstance(x, bytes):
        return {"$bytes": list(x)}
    if isinstance(x, tuple):
        return {"$tuple": [wrap(v) for v in x]}
    if isinstance(x, dict):
        return {k: wrap(v) for k, v in x.items()}
    if isinstance(x, list):
        return [wrap(v) for v in x]
    return x


def unwrap(x):
    if isinstance(x, dict):
        if list(x) == ["$bytes"]:
            return bytes(x["$bytes"])
        if list(x) == ["$tuple"]:
            return tuple(unwrap(v) for v in x["$tuple"])
        return {k: unwrap(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unwrap(v) for v in x]
    return x


def keys(v):
    """Without map keys that read like tags of a union."""
    if isinstance(v, dict):
        return {KEYMAP.get(k, k) if len(v) > 1 else k: keys(x) for k, x in v.items()}
    return [keys(x) for x in v] if isinstance(v, list) else v


def zoo_document(rng):
    while True:
        z = zoo.Zoo(rng)
        T = z.type(3)
        R = z.ref(T)
        inp = {"type": "record", "name": "Zin", "fields": [{"name": "op", "type": "int"}, {"name": "x", "type": T}]}
        try:
            N = avrobin.Names(inp)
            maps = has(N, N.schema, "map")
        except KeyError:
            continue
        fields = [{"name": "y", "type": R}, {"name": "z", "type": R}, {"name": "js", "type": "string"}, {"name": "av", "type": "bytes"}]
        new = {"y": "input.x", "z": {"cell": "c"}, "js": {"cast.json": ["input.x"]}, "av": {"cast.avro": ["input.x"]}}
        if not maps:
            fields.append({"name": "same", "type": "boolean"})
            new["same"] = {"==": ["input.x", {"cell": "c"}]}
        u = z.resolve(T)
        if isinstance(u, list):
            cases = [{"as": z.ref(b), "named": "m", "do": [{"string": b if isinstance(b, str) else b["name"] if "name" in b else b["type"]}]} for b in u]
            rng.shuffle(cases)
            fields.append({"name": "member", "type": "string"})
            new["member"] = {"cast": "input.x", "cases": cases}
        fields.append({"name": "r", "type": "int"})
        new["r"] = {"rand.int": [0, 1000000]}
        out = {"type": "record", "name": "Zout", "fields": fields}
        doc = {"name": "Boundary", "input": inp, "output": out, "method": rng.choice(["map", "map", "emit"]), "randseed": rng.randint(1, 999),
               "cells": {"c": {"type": R, "init": z.value(T)}}}
        if rng.random() < 0.4:
            doc["cells"]["c"]["rollback"] = True
        body = [{"let": {"o": {"new": new, "type": out}}},
                {"if": {"==": ["input.op", 4]}, "then": [{"log": [{"string": "uses"}]}]},
                {"if": {"==": ["input.op", 1]}, "then": [{"cell": "c", "to": "input.x"}]},
                {"if": {"==": ["input.op", 2]}, "then": [{"error": "refused"}]}]
        doc["action"] = body + ([{"emit": "o"}] if doc["method"] == "emit" else ["o"])
        if loads(doc):
            for _ in range(rng.randint(1, 4)):
                e = zoo.uses(rng, z, T, "input.x", {"cell": "c"})
                for s in ({"log": [e]}, e):
                    body[1]["then"].append(s)
                    if loads(doc):
                        break
                    body[1]["then"].pop()
            return doc, [{"op": rng.choice([0, 1, 1, 2, 3, 4, 4, 4]), "x": z.value(T)} for _ in range(rng.choice([2, 4, 8]))]


def harvested(rng):
    for _ in range(50):
        o = corpus.pick(rng)
        data = [corpus.untag(c[1]) for c in o["calls"] if c[0] == "action"]
        if not data:
            continue
        doc = copy.deepcopy(o["doc"])
        doc.setdefault("randseed", 12345)
        try:
            N = names(doc)
            has(N, N.schema, "map")
            if any(fit(N, N.schema["fields"][0]["type"], v)[0] in ("no", "unclear") for v in data):
                continue
        except KeyError:
            continue
        k = rng.randrange(len(data))
        return doc, (data[k:] + data[:k])[:8]
    raise core.HarnessError("no harvested document has inputs that fit")


class Unclear(Exception):
    pass


class NoDatum(Exception):
    pass


def decoded(N, t, v):
    """What a JSON value in the tagged form means to a host that reads it with jsonDecoder."""
    t = N.get(t)
    if avrobin.is_union(t):
        if v is None and "null" in t:
            return None
        if isinstance(v, dict) and len(v) == 1:
            (tag, x), = v.items()
            for b in t:
                if tag in N.tags(b):
                    if tag != N.tags(b)[0] or tag == "null":
                        raise Unclear()
                    return {tag: decoded(N, b, x)}
        raise NoDatum()
    k = t if isinstance(t, str) else t["type"]
    if k in ("int", "long", "float", "double") and (isinstance(v, str) or isinstance(v, float) and k in ("int", "long") and v == v and not math.isinf(v)):
        raise Unclear()         # texts of numbers; fractions are cut off
    if k == "array":
        if not isinstance(v, list):
            raise NoDatum()
        return [decoded(N, t["items"], x) for x in v]
    if k == "map":
        if not isinstance(v, dict):
            raise NoDatum()
        return {q: decoded(N, t["values"], x) for q, x in v.items()}
    if k == "record":
        if not isinstance(v, dict):
            raise NoDatum()
        out = {}
        for f in t["fields"]:
            if f["name"] not in v:
                if "default" in f or N.get(f["type"]) == "null":
                    raise Unclear()
                raise NoDatum()
            out[f["name"]] = decoded(N, f["type"], v[f["name"]])
        return out
    s, d = fit(N, t, v)
    if s == "unclear":
        raise Unclear()
    if s == "no" or s == "loose" and k in ("null", "boolean"):
        raise NoDatum()
    return d


def reading(DT, N, IN, inT, v):
    """-> what is wrong with jsonDecoder's reading of a message, or None"""
    try:
        js = json.loads(json.dumps(v))
        if json.dumps(canon(js)) != json.dumps(canon(v)):
            return None
    except (TypeError, ValueError):
        return None
    try:
        want, no = decoded(N, IN, js), False
    except Unclear:
        return None
    except NoDatum:
        want, no = None, True
    try:
        got = DT.jsonDecoder(inT, js)
    except titus().errors.AvroException as err:
        return None if no else "jsonDecoder refused it (%s)" % err
    except Exception as err:
        return "jsonDecoder ended with %s: %s" % (type(err).__name__, err)
    if no:
        return "is no datum of the input type in the tagged form, and jsonDecoder read %r" % (got,)
    if json.dumps(canon(got)) != json.dumps(canon(want)):
        return "jsonDecoder read %r instead of %r" % (got, want)


def generate(rng, tier):
    r = rng.random()
    kind = "zoo" if r < 0.6 else "gen" if r < 0.75 else "corpus"
    if kind == "zoo":
        doc, data = zoo_document(rng)
    elif kind == "gen":
        doc = minipfa.Gen(rng, method=rng.choice(["map", "emit", "fold"])).document()
        data = [minipfa.value(rng, "In") for _ in range(rng.choice([2, 4, 8]))]
    else:
        doc, data = harvested(rng)
    msgs = []
    N = names(doc)
    IN = N.schema["fields"][0]["type"]
    n = rng.choice([1, 1, 2])
    for v in data:
        for _ in range(rng.choice([1, 1, 2, 3])):
            q, w = "intact", v
            if rng.random() < 0.65:
                if rng.random() < 0.15 and corpus.text(v) == corpus.text(json.loads(json.dumps(wrap(v)))):
                    w = flip(rng, v)
                    q = "flip"
                    if w is flip:
                        q, w = "unparsable", None
                else:
                    q, w = garble(rng, v)
                    if rng.random() < 0.2:
                        q, w = garble(rng, w) if not isinstance(w, tuple) else (q, w)
            if kind == "corpus" and q not in ("intact", "unparsable") and fit(N, IN, w)[0] != "no" and fit(N, IN, w)[1] != fit(N, IN, v)[1]:
                q, w = "intact", v      # library functions may take for ever over such values
            msgs.append([q, rng.randrange(n), wrap(w)])
    return {"kind": kind, "doc": doc, "msgs": msgs, "n": n, "entropy": rng.getrandbits(32)}


# ------------------------------------------------------------------ the run

class Host(object):
    def __init__(self, case):
        self.engines = titus().PFAEngine.fromJson(copy.deepcopy(case["doc"]), multiplicity=case["n"])
        self.got = []
        for e in self.engines:
            if e.config.method == "emit":
                e.emit = lambda v: self.got.append(["emit", copy.deepcopy(v)])
            e.log = lambda m, ns: self.got.append(["log", copy.deepcopy(m), ns])
            try:
                e.begin()
            except Exception as err:
                self.got.append(classify(err))

    def call(self, i, v):
        del self.got[:]
        err = None
        try:
            r = self.engines[i].action(v)
            self.got.append(["result", copy.deepcopy(r)])
        except Exception as e:
            err = e
            self.got.append(classify(e))
        return list(self.got), err

    def all(self, doc):
        return [[state_of(e, doc), e.actionsStarted, e.actionsFinished, canon(getattr(e, "tally", None)), hash(repr(e.rand.getstate())) if doc.get("randseed") is not None else 0]
                for e in self.engines]


def execute(case):
    core.begin_case(case["entropy"])
    doc = case["doc"]
    T = titus()
    probe, faults, trace = {}, {}, []

    def hit(n, k=1):
        probe[n] = probe.get(n, 0) + k
    N = names(doc)
    IN, OUT = [f["type"] for f in N.schema["fields"][:2]]
    DT = importlib.import_module("titus.datatype")
    violation = None
    with core.virtual_time():
        A, B = Host(case), Host(case)
        outT = A.engines[0].config.output
        cell = [None]
        if case["kind"] == "zoo":
            X = IN["fields"][1]["type"]
            cell = [doc["cells"]["c"]["init"]] * case["n"]
        for no, (q, i, w) in enumerate(case["msgs"]):
            if q == "unparsable":
                faults[q] = faults.get(q, 0) + 1
                continue
            v = unwrap(w)
            how, d = fit(N, IN, v)
            hit("messages_" + how)
            if q != "intact":
                faults[q] = faults.get(q, 0) + 1

            def bad(kind, msg):
                return {"kind": kind, "msg": "message %d (%s) %r: %s; document %s" % (no, q, v if len(repr(v)) < 400 else repr(v)[:400], msg, json.dumps(doc)[:1500])}
            wrong = reading(DT, N, IN, A.engines[0].config.input, v)
            if wrong is not None:
                violation = bad("decoder", wrong)
                break
            if how == "unclear":
                continue
            if how == "no":
                before = A.all(doc)
                got, err = A.call(i, copy.deepcopy(v))
                trace.append("no")
                if err is None:
                    violation = bad("accepted", "is no datum of the input type; the engine answered %r" % (got,))
                elif len(got) > 1:
                    violation = bad("effect", "was refused, and gave %r" % (got,))
                elif A.all(doc) != before:
                    violation = bad("effect", "was refused, and changed the engine from %s to %s" % (json.dumps(before)[:300], json.dumps(A.all(doc))[:300]))
                if violation:
                    break
                continue
            got, err = A.call(i, copy.deepcopy(v))
            want, werr = B.call(i, copy.deepcopy(d))
            trace.append([how, [g[0] if isinstance(g[0], str) else g for g in got]])
            hit("values_out", len([g for g in got if g[0] in ("emit", "result")]))
            if json.dumps(canon(got)) != json.dumps(canon(want)):
                violation = bad("meaning", "means %r; the engine answers %r instead of %r" % (d, got, want))
                break
            if case["kind"] == "zoo":
                op, x = d["op"], d["x"]
                if op == 2 and got != [["err", "user", None]]:
                    violation = bad("refused", "is a datum of the input type; the engine answered %r" % (got,))
                    break
                if op == 4 and got[-1][:2] == ["err", "internal"] and not isinstance(err, NotImplementedError):
                    violation = bad("internal", "is a datum of the input type; using it failed inside: %s: %s" % (type(err).__name__, err))
                    break
                if op not in (2, 4):
                    if not got or got[0][0] not in ("emit", "result"):
                        violation = bad("refused", "is a datum of the input type; the engine answered %r: %s" % (got, err))
                        break
                    o = got[0][1]
                    c = cell[i]
                    checks = [("y", canon(o["y"]) == canon(x), x), ("z", canon(o["z"]) == canon(fit(N, X, c)[1]), c),
                              ("js", canon(json.loads(o["js"])) == canon(x), x),
                              ("av", binary(N, X, o["av"], x), x)]
                    if "same" in o:
                        checks.append(("same", o["same"] == equal(fit(N, X, c)[1], x), equal(c, x)))
                    if "member" in o:
                        tag = "null" if x is None else list(x)[0]
                        first = [c["do"][0]["string"] for c in doc["action"][0]["let"]["o"]["new"]["member"]["cases"]
                                 if c["do"][0]["string"] in WIDER.get(tag, (tag,))][0]
                        checks.append(("member", o["member"] == first, first))
                    for name, ok, w2 in checks:
                        if not ok:
                            violation = bad("value", "field %s of the answer is %r, which should be (made from) %r" % (name, o[name], w2))
                            break
                    if violation:
                        break
                    if op == 1:
                        cell[i] = x
            for g in got:
                if g[0] in ("emit", "result") and not (g[0] == "result" and doc.get("method") == "emit"):
                    s, dd = fit(N, OUT, g[1])
                    if s == "no":
                        violation = bad("output", "%r is no datum of the output type" % (g[1],))
                        break
                    try:
                        wire = json.dumps(DT.jsonEncoder(outT, g[1]))
                        back = DT.jsonDecoder(outT, json.loads(wire))
                    except Exception as e:
                        violation = bad("wire", "%r cannot be written as JSON and read again: %s: %s" % (g[1], type(e).__name__, e))
                        break
                    hit("wire")
                    if s != "unclear" and json.dumps(canon(dd)) != json.dumps(canon(back)):
                        violation = bad("wire", "%r is %r after being written as JSON (%s) and read again" % (g[1], back, wire))
                        break
            if violation:
                break
        if violation is None and A.all(doc) != B.all(doc):
            violation = {"kind": "state", "msg": "after all messages the engines hold %s, those given only the meaning %s" % (json.dumps(A.all(doc))[:500], json.dumps(B.all(doc))[:500])}
    return {"violation": violation, "probe": probe, "faults": faults, "sig": [case["kind"], trace], "result": trace, "events": len(case["msgs"]),
            "nontrivial": probe.get("values_out", 0) > 0 and probe.get("messages_no", 0) > 0, "sim_time": core.CLOCK.total, "ops": len(case["msgs"])}


def binary(N, t, av, x):
    try:
        r = avrobin.Reader(av.encode("latin-1") if isinstance(av, str) else av)
        return avrobin.same(N, t, x, r.value(N, t)) and r.pos == len(r.data)
    except (avrobin.Short, ValueError, IndexError):
        return False


def shrink(case):
    for i in range(len(case["msgs"])):
        if len(case["msgs"]) > 1:
            yield dict(case, msgs=case["msgs"][:i] + case["msgs"][i + 1:])
    if case["n"] > 1:
        yield dict(case, n=1, msgs=[[q, 0, w] for q, _, w in case["msgs"]])
    if case["kind"] == "gen":
        from . import history
        for c in history.shrink_doc({"doc": case["doc"], "ops": []}):
            yield dict(case, doc=c["doc"])


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 6000, "budget": 40, "minimise": 40},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when a message was refused and another one answered; distinct = distinct (workload, readings of the messages and kinds of answers)",
                MEASURE="hash of (workload kind, for every message how it fits and what the engine did)",
                REAL=["titus reader, type checker, code generator", "generated engine code", "checkData", "jsonEncoder, jsonDecoder", "library functions of harvested documents"],
                STUB=["the channel", "clocks", "entropy"],
                ASSUMPTIONS=["messages that can be read as more than one member of a union without a tag, integral floating point numbers for integers, and odd spellings of numbers are not sent"])
