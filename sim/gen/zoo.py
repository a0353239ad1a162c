"""Random Avro types and values of them, in the form PFA documents and inputs use."""
import copy

STRINGS = ["", "a", "hello world", "\u00e9\u00df", "\u4e2d\u6587", "\U0001f600", "tab\tnew\nline", "quote\"back\\slash", "@x", "null", "true", "12",
           "a.b", "\x00", "\u2028", "<<x>>", "x" * 300]
KEYS = ["", "a", "b", "k1", "k.2", "k 3", "\u00e9", "quote\"", "int", "string", "null", "type", "value"]
INTS = [0, 1, -1, 2147483647, -2147483648, 12345]
LONGS = INTS + [9223372036854775807, -9223372036854775808, 2 ** 53 + 1]
DOUBLES = [0.0, -0.0, 0.1, 1.5, -2.25, 1e308, -1e-320, 3.0, 1e16, 123456789.123]


class Zoo(object):
    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.named = {}         # full name -> definition

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def type(self, depth=3, in_union=False, no_bytes=False):
        rng = self.rng
        if self.named and rng.random() < 0.12:
            names = [n for n in sorted(self.named) if not (in_union and "." in n)]
            if names:
                return rng.choice(names)
        prims = ["null", "boolean", "int", "long", "float", "double", "string"] + ([] if no_bytes else ["bytes"])
        if in_union:
            prims.remove("null")
        if depth <= 0:
            return rng.choice(prims)
        r = rng.random()
        if r < 0.3:
            return rng.choice(prims)
        if r < 0.42:
            return {"type": "array", "items": self.type(depth - 1)}
        if r < 0.54:
            return {"type": "map", "values": self.type(depth - 1)}
        if r < 0.62:
            d = {"type": "enum", "name": self.fresh("E"), "symbols": ["A", "B", "C", "int"][:rng.randint(1, 4)]}
            self.named[d["name"]] = d
            return d
        if r < 0.67 and not no_bytes:
            d = {"type": "fixed", "name": self.fresh("F"), "size": rng.randint(1, 4)}
            self.named[d["name"]] = d
            return d
        if r < 0.84 or in_union:
            d = {"type": "record", "name": self.fresh("R")}
            full = d["name"]
            if not in_union and rng.random() < 0.15:
                d["namespace"] = "com.example"
                full = "com.example." + d["name"]
            d["fields"] = [{"name": "f%d" % i, "type": self.type(depth - 1)} for i in range(rng.randint(1, 3))]
            if "namespace" not in d and rng.random() < 0.25:
                d["fields"].append({"name": "next", "type": rng.choice([["null", full], {"type": "array", "items": full}, {"type": "map", "values": full}])})
            self.named[full] = d
            return d
        # a union: branches of different kinds
        if rng.random() < 0.15:
            return rng.sample(["boolean", "int", "double"], rng.choice([2, 3])) if rng.random() < 0.7 else ["boolean", "long"]
        kinds, out = set(), []
        for _ in range(rng.randint(2, 4)):
            t = self.type(depth - 1, True)
            k = t["type"] if isinstance(t, dict) else t
            if k in ("record", "enum", "fixed"):
                k = t["name"]
            if isinstance(t, list) or k in kinds:
                continue
            kinds.add(k)
            out.append(t)
        if rng.random() < 0.7 or len(out) < 2:
            out.insert(rng.randint(0, len(out)), "null")
        return out

    def resolve(self, t):
        return self.named.get(t, t) if isinstance(t, str) else t

    def ref(self, t):
        """The same type, its named parts by name."""
        if isinstance(t, list):
            return [self.ref(x) for x in t]
        if isinstance(t, dict):
            if t["type"] in ("record", "enum", "fixed"):
                return (t["namespace"] + "." if "namespace" in t else "") + t["name"]
            if t["type"] == "array":
                return {"type": "array", "items": self.ref(t["items"])}
            return {"type": "map", "values": self.ref(t["values"])}
        return t

    def value(self, t, depth=4):
        rng = self.rng
        t = self.resolve(t)
        if isinstance(t, list):
            if depth <= 0 and "null" in t:
                return None
            b = rng.choice(t)
            if b == "null":
                return None
            tag = b if isinstance(b, str) else (b["name"] if b["type"] in ("record", "enum", "fixed") else b["type"])
            return {tag: self.value(b, depth - 1)}
        k = t if isinstance(t, str) else t["type"]
        if k == "null":
            return None
        if k == "boolean":
            return rng.random() < 0.5
        if k == "int":
            return rng.choice(INTS)
        if k == "long":
            return rng.choice(LONGS)
        if k in ("float", "double"):
            v = rng.choice(DOUBLES)
            return 1e38 if k == "float" and v == 1e308 else v
        if k == "string":
            return rng.choice(STRINGS)
        if k == "bytes":
            return "".join(chr(rng.randrange(256)) for _ in range(rng.randint(0, 4)))
        if k == "fixed":
            return "".join(chr(rng.randrange(256)) for _ in range(t["size"]))
        if k == "enum":
            return rng.choice(t["symbols"])
        n = 0 if depth <= 0 else rng.randint(0, 3)
        if k == "array":
            u = self.resolve(t["items"])
            if isinstance(u, list) and n > 0 and rng.random() < 0.4:
                # neighbours that are equal without being the same
                like = [(b, v) for b, v in (("boolean", True), ("int", 1), ("long", 1), ("float", 1.0), ("double", 1.0)) if b in u]
                if len(like) > 1:
                    return [dict([rng.choice(like)]) for _ in range(n + 1)]
            return [self.value(t["items"], depth - 1) for _ in range(n)]
        if k == "map":
            return {rng.choice(KEYS): self.value(t["values"], depth - 1) for _ in range(n)}
        return {f["name"]: self.value(f["type"], depth - 1) for f in t["fields"]}


def uses(rng, z, T, a, b, depth=2):
    """An expression that does something with a value of type T (the expression a; b is another one of the same type)."""
    R = z.ref(T)
    t = z.resolve(T)
    kind = "union" if isinstance(t, list) else t if isinstance(t, str) else t["type"]
    i = rng.choice([0, 1, 2, -1])
    out = [{"cast.json": [a]}, {"cast.avro": [a]}, {"==": [a, b]}, {"!=": [b, a]}, {"cmp": [a, b]}, {"<": [a, b]}, {"min": [a, b]},
           {"a.contains": [{"new": [b, a], "type": {"type": "array", "items": R}}, a]}, {"a.index": [{"new": [b, a, b], "type": {"type": "array", "items": R}}, a]},
           {"a.distinct": [{"new": [b, a, b], "type": {"type": "array", "items": R}}]}, {"map.toset": [{"new": [b, a], "type": {"type": "array", "items": R}}]},
           {"map.in": [{"map.toset": [{"new": [b], "type": {"type": "array", "items": R}}]}, a]},
           {"a.mode": [{"new": [a, b, b], "type": {"type": "array", "items": R}}]}, {"a.sort": [{"new": [a, b], "type": {"type": "array", "items": R}}]},
           {"map.containsValue": [{"new": {"p": a}, "type": {"type": "map", "values": R}}, b]},
           {"if": {"==": [a, b]}, "then": [{"string": "same"}], "else": [{"string": "other"}]}]
    more = []
    if kind == "boolean":
        more = [{"&&": [a, b]}, {"!": [a]}, {"^^": [a, b]}]
    elif kind in ("int", "long"):
        more = [{"+": [a, b]}, {"*": [a, b]}, {"-": [a, 1]}, {"%": [a, 7]}, {"&": [a, b]}, {"~": [a]}, {"m.abs": [a]}, {"/": [a, b]}, {"//": [a, 3]}, {"cast.double": [a]}, {"cast.unsigned": [a, 8]}, {"s.number": [a]},
                {"**": [a, 2]}, {"max": [a, 0]}]
    elif kind in ("float", "double"):
        more = [{"+": [a, b]}, {"*": [a, 2]}, {"u-": [a]}, {"m.abs": [a]}, {"m.floor": [a]}, {"cast.int": [a]}, {"cast.long": [a]}, {"m.round": [a]}, {"s.number": [a, {"int": 8}, {"int": 2}]}, {"max": [a, 0]}]
    elif kind == "string":
        more = [{"s.len": [a]}, {"s.concat": [a, b]}, {"s.contains": [a, b]}, {"s.split": [a, {"string": " "}]}, {"s.upper": [a, ]}, {"s.strip": [a, b]}, {"s.lower": [a]}, {"bytes.encodeUtf8": [a]}, {"bytes.encodeAscii": [a]},
                {"s.substr": [a, i, 3]}, {"re.contains": [a, {"string": "[a-c]+"}]}, {"parse.int": [a, 10]}, {"cast.json": [{"s.join": [{"s.split": [a, b]}, {"string": "-"}]}]},
                {"attr": {"new": {"": 1, "a": 2, "int": 3}, "type": {"type": "map", "values": "int"}}, "path": [a]}]
    elif kind == "bytes":
        more = [{"bytes.len": [a]}, {"bytes.toBase64": [a]}, {"bytes.decodeLatin1": [a]}, {"bytes.decodeUtf8": [a]}, {"bytes.isUtf8": [a]}, {"bytes.isAscii": [a]}, {"bytes.subseq": [a, 0, i]}, {"bytes.subseqto": [a, 0, 1, b]},
                {"bytes.isUtf16": [a]}, {"bytes.isLatin1": [a]}, {"bytes.decodeAscii": [a]}, {"bytes.fromBase64": [{"bytes.toBase64": [a]}]}, {"bytes.len": [{"bytes.encodeLatin1": [{"bytes.decodeLatin1": [a]}]}]},
                {"unpack": a, "format": [{"p": "unsigned byte"}, {"q": "byte"}], "then": [{"+": ["p", "q"]}], "else": [-1]}, {"unpack": a, "format": [{"p": "raw2"}], "then": ["p"], "else": [b]},
                {"pack": [{"raw": a}, {"int": 3}]}, {"pack": [{"null terminated": a}, {"prefixed": b}]}, {"pack": [{"raw3": a}]}]
    elif kind == "fixed":
        more = [{"fixed.toBytes": [a]}, {"bytes.len": [{"fixed.toBytes": [a]}]}, {"fixed.fromBytes": [a, {"fixed.toBytes": [b]}]}, {"bytes.toBase64": [{"fixed.toBytes": [a]}]}]
    elif kind == "enum":
        more = [{"enum.toString": [a]}, {"enum.toInt": [a]}, {"enum.numSymbols": [a]}, {"cast.fanoutInt": [a]}, {"s.concat": [{"enum.toString": [a]}, {"enum.toString": [b]}]}]
    elif kind == "array":
        I = z.ref(t["items"])
        f = {"params": [{"e": I}], "ret": "string", "do": [{"cast.json": ["e"]}]}
        more = [{"a.len": [a]}, {"a.head": [a]}, {"a.last": [a]}, {"a.concat": [a, b]}, {"a.reverse": [a]}, {"a.seteq": [a, b]}, {"a.union": [a, b]}, {"a.diff": [a, b]}, {"a.subset": [a, b]}, {"a.disjoint": [a, b]},
                {"a.count": [a, b]}, {"a.contains": [a, b]}, {"a.startswith": [a, b]}, {"a.distinct": [a]}, {"a.sort": [a]}, {"a.max": [a]}, {"a.argmin": [a]}, {"a.minN": [a, 2]}, {"a.mode": [a]}, {"a.median": [a]}, {"a.map": [a, f]},
                {"a.groupby": [a, f]}, {"a.rotate": [a, 1]}, {"a.cycle": [a, {"attr": b, "path": [0]}, 3]}, {"a.slidingWindow": [a, 2, 1]}, {"map.toset": [a]}, {"attr": a, "path": [i]}, {"a.sum": [a]}, {"a.mean": [a]},
                {"a.index": [a, {"attr": b, "path": [0]}]}, {"a.intersection": [a, b]}, {"a.symdiff": [b, a]}, {"map.fromset": [{"map.toset": [a]}]}, {"a.filter": [a, {"params": [{"e": I}], "ret": "boolean", "do": [{"==": ["e", {"attr": b, "path": [0]}]}]}]},
                {"a.shuffle": [a]}, {"a.sortLT": [a, {"params": [{"e": I}, {"g": I}], "ret": "boolean", "do": [{"<": ["e", "g"]}]}]},
                {"rand.choice": [a]}, {"foreach": "e", "in": a, "do": [{"log": ["e"]}]}]
        if depth > 0:
            more += [uses(rng, z, t["items"], {"attr": a, "path": [0]}, {"a.last": [b]}, depth - 1) for _ in range(12)]
    elif kind == "map":
        V = z.ref(t["values"])
        more = [{"map.len": [a]}, {"map.keys": [a]}, {"map.values": [a]}, {"map.containsKey": [a, {"string": "a"}]}, {"map.remove": [a, {"string": "a"}]}, {"map.update": [a, b]}, {"map.only": [a, {"map.keys": [b]}]},
                {"map.except": [b, {"map.keys": [a]}]}, {"map.argmax": [a]}, {"map.split": [a]}, {"map.union": [a, b]}, {"map.diff": [a, b]}, {"map.subset": [a, b]}, {"a.distinct": [{"map.values": [a]}]},
                {"map.map": [a, {"params": [{"e": V}], "ret": "string", "do": [{"cast.json": ["e"]}]}]}, {"attr": a, "path": [{"string": "a"}]}, {"forkey": "k1", "forval": "e", "in": a, "do": [{"log": ["k1", "e"]}]},
                {"map.join": [{"new": [a, b], "type": {"type": "array", "items": R}}]}, {"map.corresponds": [a, b, {"params": [{"e": V}, {"g": V}], "ret": "boolean", "do": [{"==": ["e", "g"]}]}]}]
        if depth > 0:
            more += [uses(rng, z, t["values"], {"a.head": [{"map.values": [a]}]}, {"a.last": [{"map.values": [b]}]}, depth - 1) for _ in range(8)]
    elif kind == "record":
        for f in t["fields"] if depth > 0 else []:
            more += [uses(rng, z, f["type"], {"attr": a, "path": [{"string": f["name"]}]}, {"attr": b, "path": [{"string": f["name"]}]}, depth - 1) for _ in range(6)]
            more.append({"attr": a, "path": [{"string": f["name"]}], "to": {"attr": b, "path": [{"string": f["name"]}]}})
    elif kind == "union":
        cases = []
        for n, u in enumerate(t):
            cases.append({"as": z.ref(u), "named": "m%d" % n, "do": [{"let": {"w%d" % n: uses(rng, z, u, "m%d" % n, "m%d" % n, depth - 1)}}, {"log": ["w%d" % n]}, {"string": "case %d" % n}]})
        rng.shuffle(cases)
        more = [{"cast": a, "cases": cases}] * 8
        if "null" in t:
            u = [x for x in t if x != "null"]
            if len(u) == 1:
                more += [{"ifnotnull": {"m": a}, "then": [uses(rng, z, u[0], "m", "m", depth - 1)]}, {"ifnotnull": {"m": a, "n": b}, "then": [{"let": {"w": uses(rng, z, u[0], "m", "n", depth - 1)}}, {"log": ["w"]}, True], "else": [False]},
                         {"impute.errorOnNull": [a]}, {"impute.defaultOnNull": [a, {"impute.errorOnNull": [b]}]}] * 2
    return rng.choice(more if more and rng.random() < 0.65 else out)


def document(rng):
    """A document that only stores, deletes and returns values; and calls for it."""
    z = Zoo(rng)
    T = z.type(3)
    R = z.ref(T)
    nn = rng.choice(["Zin", "Zin", "Input_"])
    inp = {"type": "record", "name": nn, "fields": [{"name": "op", "type": "int"}, {"name": "k", "type": "string"}, {"name": "x", "type": T}]}
    doc = {"name": "Zoo", "input": inp, "output": R, "cells": {}, "pools": {}}
    nc, np = rng.randint(1, 2), rng.randint(1, 2)
    for i in range(nc):
        doc["cells"]["c%d" % i] = {"type": R, "init": z.value(T)}
    for i in range(np):
        doc["pools"]["p%d" % i] = {"type": R, "init": {rng.choice(KEYS): z.value(T) for _ in range(rng.randint(0, 2))}}
    for c in list(doc["cells"].values()) + list(doc["pools"].values()):
        r = rng.random()
        if r < 0.3:
            c["shared"] = True
        elif r < 0.6:
            c["rollback"] = True
    P = {"params": [{"old": R}], "ret": R, "do": ["input.x"]}
    P = {"params": [{"old": R}], "ret": R, "do": ["old"]}
    ops = []
    for c in sorted(doc["cells"]):
        ops.append([{"cell": c, "to": "x"}])
        ops.append([{"cell": c}])
    for p in sorted(doc["pools"]):
        ops.append([{"pool": p, "path": ["k"], "to": {"params": [{"old": R}], "ret": R, "do": [rng.choice(["old", "old"])]}, "init": "x"}])
        ops.append([{"pool": p, "path": ["k"], "to": "x", "init": "x"}])
        ops.append([{"pool": p, "del": "k"}, "x"])
        ops.append([{"pool": p, "path": ["k"]}])
    for _ in range(rng.choice([0, 1, 2])):
        e = uses(rng, z, T, "x", {"cell": "c0"})
        ops.append([e if "foreach" in e or "forkey" in e or "ifnotnull" in e and "else" not in e else {"log": [e]}, "x"])
    ops.append([{"cell": "c0", "to": "x"}, {"error": "after the update", "code": -3}, "x"])
    doc["action"] = [{"let": {"x": "input.x"}}, {"let": {"k": "input.k"}},
                     {"cond": [{"if": {"==": ["input.op", i]}, "then": o} for i, o in enumerate(ops[:-1])], "else": ops[-1]}]
    calls = []
    for _ in range(rng.choice([3, 5, 8])):
        calls.append(["action", {"op": rng.randrange(len(ops)) if rng.random() < 0.7 else rng.randrange(len(ops) - 3, len(ops)), "k": rng.choice(KEYS[:5]), "x": z.value(T)}])
    return doc, calls
