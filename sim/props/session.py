"""C16: an inspector command takes effect completely or not at all, and reports describe the document as it stands.

Whole pfainspector sessions -- its own main loop, parser, commands and prompts -- run over a simulated file system, terminal
and history file: commands, answers to prompts, disk errors at any open, read, write or close, and interrupts while it waits
or does I/O are all in the case.  A small reference model says what each command does to the documents in memory."""
import builtins
import copy
import io
import json
import os
import re
import sys

from .. import core
from ..fs import SimFS
from ..world import titus

_I = None


def inspector():
    """The inspector's modules, loaded with no configuration directory and nobody at the keyboard."""
    global _I
    if _I is None:
        titus()
        os.environ["HOME"] = "/sim/home"
        real = builtins.input
        builtins.input = lambda *a: "n"

        class Stdout(object):       # wherever sys.stdout points when something is written (tools.look keeps the one of import time)
            def __getattr__(self, k):
                return getattr(sys.stdout if sys.stdout is not self else sys.__stdout__, k)
        out, sys.stdout = sys.stdout, Stdout()
        try:
            import titus.inspector.defs as defs
            import titus.inspector.main as main
            import titus.inspector.jsongadget as jsongadget
            import titus.inspector.pfagadget as pfagadget
        finally:
            builtins.input, sys.stdout = real, out

        class NS(object):
            pass
        _I = NS()
        _I.defs, _I.main, _I.json, _I.pfa = defs, main, jsongadget, pfagadget
    return _I


# ------------------------------------------------------------------ documents

NAMES = ["m", "n", "doc1", "x2"]
REC = {"type": "record", "name": "Rec", "fields": [{"name": "a", "type": "int"}, {"name": "b", "type": {"type": "array", "items": "double"}}]}


def document(rng, files):
    """A PFA document, mostly valid, with embedded and external cells and pools."""
    doc = {"name": rng.choice(["D", "E", "F"]), "input": "int", "output": "int", "cells": {}, "pools": {}, "fcns": {}, "action": []}

    def ext(kind, name, init):
        fn = "%s%s%d.json" % (kind, name, len(files))
        bad = rng.random()
        files[fn] = json.dumps(init) if bad > 0.12 else rng.choice(["", json.dumps(init)[:-1], '"x"'])
        return {"source": "json", "init": fn}
    for i in range(rng.randint(0, 3)):
        n = "c%d" % i
        t, init = rng.choice([("int", rng.randint(2, 9)), ("string", rng.choice(["x", "yy", "3"])), ({"type": "array", "items": "int"}, [rng.randint(2, 6) for _ in range(rng.randint(0, 4))]),
                              ({"type": "map", "values": "double"}, {"a": 2.5, "b": 3})])
        if rng.random() < 0.2:
            init = rng.choice([7, "z", [3], {"q": 4}])
        doc["cells"][n] = {"type": t, "init": init}
        if rng.random() < 0.25:
            doc["cells"][n] = dict(doc["cells"][n], **ext("cell", n, init))
        if rng.random() < 0.4:
            doc["cells"][n]["shared"] = rng.random() < 0.5
        if rng.random() < 0.3:
            doc["cells"][n]["rollback"] = rng.random() < 0.5 and not doc["cells"][n].get("shared")
    if rng.random() < 0.5:
        doc["cells"]["rec"] = {"type": REC, "init": {"a": rng.randint(2, 5), "b": [2.5, 3.5]}}
    for i in range(rng.randint(0, 2)):
        n = rng.choice(["p%d" % i, "c0"])
        init = {k: rng.randint(2, 9) for k in rng.sample(["k1", "k2", "k3", "a"], rng.randint(0, 3))}
        doc["pools"][n] = {"type": "int", "init": init}
        r = rng.random()
        if r < 0.25:
            doc["pools"][n] = dict(doc["pools"][n], **ext("pool", n, init))
        elif r < 0.4:
            del doc["pools"][n]["init"]
    for i in range(rng.randint(0, 2)):
        body = {"+": ["x", rng.randint(2, 9)]}
        if i == 1:
            body = {"u.f0": [body]}
        elif "c0" in doc["cells"] and doc["cells"]["c0"]["type"] == "int" and rng.random() < 0.4:
            body = {"cell": "c0", "to": body}
        doc["fcns"]["f%d" % i] = {"params": [{"x": "int"}], "ret": "int", "do": [body]}
    act = {"+": ["input", rng.randint(2, 9)]}
    if doc["fcns"] and rng.random() < 0.7:
        act = {"u.f%d" % rng.randrange(len(doc["fcns"])): [act]}
    r = rng.random()
    if r < 0.1:
        act = {"nosuch": [act]}
    elif r < 0.15:
        act = {"string": "notint"}
    doc["action"] = [act]
    if rng.random() < 0.1:
        doc["metadata"] = {"k%d" % i: "v%d" % (i % 3) for i in range(120)}
    for k in ("cells", "pools", "fcns"):
        if not doc[k] and rng.random() < 0.6:
            del doc[k]
    if rng.random() < 0.15:
        doc["output"] = rng.choice(["string", "double", "Rec"])
    return doc


# ------------------------------------------------------------------ patterns: structured, rendered for the parser, matched by the reference

def lit(v):
    return {"p": "lit", "v": v}


def subvalues(x, out):
    out.append(x)
    if isinstance(x, dict):
        for v in x.values():
            subvalues(v, out)
    elif isinstance(x, list):
        for v in x:
            subvalues(v, out)
    return out


def pattern(rng, doc, d=2):
    vals = subvalues(doc, []) if doc is not None else [3]
    r = rng.random()
    v = rng.choice(vals)
    for _ in range(4):
        if isinstance(v, bool) or v is None or isinstance(v, (dict, list)) and rng.random() < 0.5:
            v = rng.choice(vals)
    if r < 0.3:
        return lit(v) if not isinstance(v, (dict, list)) else loosen(rng, v, d)
    if r < 0.38:
        return {"p": "any"}
    if r < 0.5:
        return {"p": "num"}
    if r < 0.62:
        return {"p": "range", "op": rng.choice(["<", "<=", ">", ">="]), "v": rng.choice([2, 3, 5, 7])}
    if r < 0.67:
        return {"p": "approx", "v": rng.choice([3, 5.0]), "e": rng.choice([1, 0.5])}
    if d > 0 and r < 0.75:
        return {"p": rng.choice(["or", "and"]), "c": [pattern(rng, doc, d - 1), pattern(rng, doc, d - 1)]}
    if d > 0 and r < 0.85:
        return {"p": "group", "c": pattern(rng, doc, 0)}
    return loosen(rng, v, d)


def loosen(rng, v, d):
    """A pattern that matches v, more or less exactly."""
    r = rng.random()
    if d > 0 and r < 0.2:
        return {"p": "group", "c": {"p": "any"}}
    if d <= 0 or r < 0.3:
        return {"p": "any"} if isinstance(v, (dict, list)) else lit(v)
    if isinstance(v, dict):
        keys = sorted(k for k in v if k != "@")
        if keys and rng.random() < 0.6:
            keys = rng.sample(keys, rng.randint(1, min(2, len(keys))))
            return {"p": "obj", "c": [[k, loosen(rng, v[k], d - 1)] for k in keys], "more": True}
        return {"p": "obj", "c": [[k, loosen(rng, v[k], d - 1)] for k in keys], "more": False}
    if isinstance(v, list):
        r = rng.random()
        if v and r < 0.5:
            k = rng.randint(1, len(v))
            return {"p": "arr", "c": [loosen(rng, x, d - 1) for x in (v[:k] if r < 0.25 else v[-k:])], "more": "end" if r < 0.25 else "start"}
        return {"p": "arr", "c": [loosen(rng, x, d - 1) for x in v], "more": None}
    return lit(v)


def word(s):
    return json.dumps(s)


def show_lit(v):
    if v is None or isinstance(v, bool):
        return json.dumps(v)
    if isinstance(v, str):
        return word(v)
    if isinstance(v, list):
        return "[" + ", ".join(show_lit(x) for x in v) + "]"
    if isinstance(v, dict):
        if "__group__" in v:
            return "(%d)" % v["__group__"]
        return "{" + ", ".join(word(k) + ": " + show_lit(x) for k, x in v.items()) + "}"
    return repr(v)


def show(p):
    k = p["p"]
    if k == "lit":
        return show_lit(p["v"])
    if k == "any":
        return "_"
    if k == "num":
        return "#"
    if k == "range":
        return "# %s %s" % (p["op"], p["v"])
    if k == "approx":
        return "%s +- %s" % (p["v"], p["e"])
    if k == "or":
        return "(" + " | ".join(show(c) for c in p["c"]) + ")"
    if k == "and":
        return "(" + " & ".join(show(c) for c in p["c"]) + ")"
    if k == "group":
        return "(" + show(p["c"]) + ")"
    if k == "obj":
        return "{" + ", ".join(word(a) + ": " + show(c) for a, c in p["c"]) + (" ..." if p["more"] else "") + "}"
    if k == "arr":
        return "[" + ("... " if p["more"] == "start" else "") + ", ".join(show(c) for c in p["c"]) + (" ..." if p["more"] == "end" else "") + "]"
    raise ValueError(k)


def number_groups(p, counter=None):
    """Groups are numbered by their closing parenthesis; or and and need parentheses too, so they are groups."""
    counter = counter or [0]
    for c in (p["c"] if isinstance(p.get("c"), list) else [p["c"]] if "c" in p else []):
        number_groups(c[1] if p["p"] == "obj" else c, counter)
    if p["p"] in ("or", "and", "group"):
        counter[0] += 1
        p["n"] = str(counter[0])
    return p


def match(p, x):
    """None, or (the value with annotations dropped from matched objects, groups)."""
    k = p["p"]
    num = isinstance(x, (int, float))
    if k == "lit":
        v = p["v"]
        if isinstance(v, dict):
            return match({"p": "obj", "c": [[a, lit(b)] for a, b in v.items()], "more": False}, x)
        if isinstance(v, list):
            return match({"p": "arr", "c": [lit(b) for b in v], "more": None}, x)
        return (x, {}) if (v is x if v is None else v == x) else None
    if k == "any":
        return x, {}
    if k == "num":
        return (x, {}) if num else None
    if k == "range":
        return (x, {}) if num and {"<": x < p["v"], "<=": x <= p["v"], ">": x > p["v"], ">=": x >= p["v"]}[p["op"]] else None
    if k == "approx":
        return (x, {}) if num and abs(x - p["v"]) <= p["e"] else None
    if k == "or":
        out = None
        for c in p["c"]:
            out = match(c, x)
            if out is not None:
                break
    elif k == "and":
        for c in p["c"]:
            out = match(c, x)
            if out is None:
                break
    elif k == "group":
        out = match(p["c"], x)
    if k in ("or", "and", "group"):
        if out is None:
            return None
        return out[0], dict(out[1], **{p["n"]: out[0]})
    groups = {}
    if k == "obj":
        if not isinstance(x, dict):
            return None
        want, have = {a for a, _ in p["c"]} - {"@"}, set(x) - {"@"}
        if not (want <= have if p["more"] else want == have):
            return None
        out = {a: v for a, v in x.items() if a != "@"}
        for a, c in p["c"]:
            m = match(c, x[a])
            if m is None:
                return None
            out[a] = m[0]
            groups.update(m[1])
        return out, groups
    if k == "arr":
        n = len(p["c"])
        if not isinstance(x, list) or (len(x) != n if p["more"] is None else len(x) < n):
            return None
        at = len(x) - n if p["more"] == "start" else 0
        out = list(x)
        for i, c in enumerate(p["c"]):
            m = match(c, x[at + i])
            if m is None:
                return None
            out[at + i] = m[0]
            groups.update(m[1])
        return out, groups
    raise ValueError(k)


def find(p, x, at=()):
    """Matches from the leaves up, in order; assignments to the parts already visited are seen further up."""
    if isinstance(x, dict):
        for k in sorted(x):
            for r in find(p, x[k], at + (k,)):
                yield r
    elif isinstance(x, list):
        for i in range(len(x)):
            for r in find(p, x[i], at + (i,)):
                yield r
    m = match(p, x)
    if m is not None:
        yield at, m[1]


def instantiate(r, groups):
    if isinstance(r, dict):
        if "__group__" in r:
            return copy.deepcopy(groups[str(r["__group__"])])
        return {k: instantiate(v, groups) for k, v in r.items()}
    if isinstance(r, list):
        return [instantiate(v, groups) for v in r]
    return r


# ------------------------------------------------------------------ sessions

def path_to(rng, doc):
    """Where a subexpression is."""
    at, x = [], doc
    while isinstance(x, (dict, list)) and x and rng.random() < 0.75:
        k = rng.choice(sorted(x)) if isinstance(x, dict) else rng.randrange(len(x))
        at.append(k)
        x = x[k]
    if rng.random() < 0.05:
        at.append(rng.choice(["nosuch", 99]))
    return at


def generate(rng, tier):
    files = {}
    ndoc = rng.randint(1, 3)
    docs = {}
    for i in range(ndoc):
        d = document(rng, files)
        docs["d%d.pfa" % i] = d
        files["d%d.pfa" % i] = json.dumps(d)
    files["broken.json"] = rng.choice(["{", "", "[1, 2", "nul", '{"a": 1}}', "\xff"])
    files["list.json"] = rng.choice(["[1, 2]", "3", "\"s\"", "null"])
    if rng.random() < 0.5:
        n = "http://host/a.json"
        files[n] = json.dumps(rng.choice([3, {"a": 4}, [5]]))
        for d in docs:
            for k, c in sorted(docs[d].get("cells", {}).items()):
                if rng.random() < 0.3:
                    c.update({"source": "json", "init": rng.choice([n, "http://host/none.json"])})
            files[d] = json.dumps(docs[d])
    p_fault = rng.choice([0.0, 0.1, 0.3, 0.5])
    mem = {}            # what should be in memory, to aim the commands; the check does not depend on it
    out = []
    count = 0
    w = {"load": 2, "rename": 0.7, "drop": 0.4, "save": 1.5, "list": 0.5, "count": 0.7, "index": 0.7, "look": 0.7, "find": 0.7, "change": 3, "report": 4, "ext": 1.5, "int": 1.5, "junk": 0.5}
    for k in list(w):
        w[k] *= rng.choice([0.2, 1, 1, 3])
    steps = rng.choice([4, 8, 14, 20])
    while len(out) < steps:
        c = rng.choices(list(w), list(w.values()))[0] if mem else "load"
        name = rng.choice(sorted(mem)) if mem and rng.random() < 0.93 else rng.choice(NAMES)
        doc = mem.get(name)
        s = {"c": c, "name": name}
        if c == "load":
            s["name"] = rng.choice(NAMES)
            s["path"] = rng.choice(sorted(docs)) if rng.random() < 0.85 else rng.choice(["broken.json", "list.json", "nosuch.pfa"] + [o["path"] for o in out if o["c"] == "save"])
            if s["path"] in docs:
                mem[s["name"]] = copy.deepcopy(docs[s["path"]])
        elif c == "rename":
            s["to"] = rng.choice(NAMES + [name])
            if name in mem:
                mem[s["to"]] = mem.pop(name)
        elif c == "drop":
            mem.pop(name, None)
        elif c == "save":
            count += 1
            s["path"] = rng.choice(["out%d.pfa" % count, "./out%d.pfa" % count] + sorted(docs)[:1])
        elif c in ("count", "index", "find", "look", "change"):
            s["at"] = path_to(rng, doc) if rng.random() < 0.5 else None
            sub = doc
            for k in s["at"] or []:
                try:
                    sub = sub[k]
                except (KeyError, IndexError, TypeError):
                    sub = None
            if c == "look":
                s["opts"] = rng.choice(["", " maxDepth=%d" % rng.randint(1, 4), " indexWidth=20", " maxDepth=0"])
            else:
                s["pat"] = number_groups(pattern(rng, sub))
                if c == "find":
                    s["opts"] = rng.choice(["", " maxDepth=2"])
            if c == "change":
                def rep(d):
                    r = rng.random()
                    if r < 0.25:
                        return {"__group__": rng.choice([1, 1, 1, 2])}
                    if d and r < 0.4:
                        return [rep(d - 1) for _ in range(rng.randint(0, 2))]
                    if d and r < 0.55:
                        return {k: rep(d - 1) for k in rng.sample(["a", "+", "z"], rng.randint(0, 2))}
                    return rng.choice([2, 4, 6.5, "int", "input", None, "w"])
                s["to"] = rep(1)
                if rng.random() < 0.15:
                    s["to"] = [{"__group__": 1}, {"__group__": 1}]
                s["replies"] = [rng.choice(["y", "", "yes", "n", "no", "N", "Y", "what", " all ", "all", "stop", "revert"]) if rng.random() < 0.5 else "y" for _ in range(rng.randint(1, 8))]
        elif c == "report":
            s["what"] = rng.choice(["valid", "valid", "input", "output", "types", "userfcns", "calls", "cells", "pools"])
            s["opts"] = rng.choice(["", "", " pretty=false", " pretty=3"]) if s["what"] not in ("valid", "calls") else ""
        elif c in ("ext", "int"):
            cells = sorted((doc or {}).get("cells", {})) if isinstance(doc, dict) else []
            pools = sorted((doc or {}).get("pools", {})) if isinstance(doc, dict) else []
            s["what"] = rng.choice(cells + pools) if cells + pools and rng.random() < 0.92 else "nosuch"
            s["cell"] = rng.choice([None, True, False])
            if c == "ext":
                count += 1
                s["path"] = "e%d.json" % count
        elif c == "junk":
            s["line"] = rng.choice(["help", "json help", "pfa help", "pfa", "pfa nosuch", "json change m", "load", "load help", "pfa valid help", "pfa calls help", "pfa pools help", "save m",
                                    "json change m [1, to 3", "\"unfinished", "3", "rename m n", "json look m[", "drop help", "externalize m c0", "pfa externalize m c0 bad/path", "^%"])
        if rng.random() < p_fault:
            ops = {"load": ["open", "read", "read"], "save": ["open", "write", "write", "close"], "ext": ["open", "write", "write", "close"], "int": ["open", "read", "read"],
                   "report": ["open", "read"], "change": ["input", "input", "history"]}.get(c, [])
            if ops:
                op = rng.choice(ops)
                f = {"open": ["EACCES", "EMFILE", "EIO", "KeyboardInterrupt"], "read": ["EIO", "short", "KeyboardInterrupt"], "write": ["ENOSPC", "EIO", "short", "KeyboardInterrupt"],
                     "close": ["EIO", "ENOSPC"], "input": ["KeyboardInterrupt", "KeyboardInterrupt", "EOFError"], "history": ["EIO", "ENOSPC"]}[op]
                s["faults"] = [[op, rng.choice([1, 1, 1, 2, 3]), rng.choice(f)]]
        out.append(s)
    return {"files": files, "session": out, "entropy": rng.getrandbits(32)}


def extract(s):
    at = s.get("at")
    return s["name"] if not at else s["name"] + "[" + ", ".join(word(k) if isinstance(k, str) else str(k) for k in at) + "]"


def line(s):
    c = s["c"]
    if c == "load":
        return "load %s as %s" % (s["path"], s["name"])
    if c == "rename":
        return "rename %s as %s" % (s["name"], s["to"])
    if c == "drop":
        return "drop " + s["name"]
    if c == "save":
        return "save %s to %s" % (s["name"], s["path"])
    if c == "list":
        return "list"
    if c in ("count", "index"):
        return "json %s %s %s" % (c, extract(s), show(s["pat"]))
    if c == "find":
        return "json find %s %s%s" % (extract(s), show(s["pat"]), s["opts"])
    if c == "look":
        return "json look %s%s" % (extract(s), s["opts"])
    if c == "change":
        return "json change %s %s to %s" % (extract(s), show(s["pat"]), show_lit(s["to"]))
    if c == "report":
        return "pfa %s %s%s" % (s["what"], s["name"], s["opts"])
    opt = "" if s.get("cell") is None else " cell=" + json.dumps(s["cell"])
    if c == "ext":
        return "pfa externalize %s %s %s%s" % (s["name"], s["what"], s["path"], opt)
    if c == "int":
        return "pfa internalize %s %s%s" % (s["name"], s["what"], opt)
    return s["line"]


# ------------------------------------------------------------------ the reference model

class Fails(Exception):
    """The command has to report an error and change nothing."""


class Undecided(Exception):
    """The command changes nothing; whether it reports an error is not modelled."""


def dumps(x):
    return json.dumps(x, sort_keys=True)


def loads(fs, path):
    path = fs.norm(path)
    if path not in fs.files:
        raise Fails()
    try:
        return json.loads(bytes(fs.files[path]).decode("utf-8"))
    except ValueError:
        raise Fails()


def cell_or_pool(doc, s):
    if not isinstance(doc, dict):
        raise Fails()
    for k in (["cells", "pools"] if s.get("cell") in (None, True) else ["pools", "cells"]):
        if isinstance(doc.get(k), dict) and s["what"] in doc[k]:
            o = doc[k][s["what"]]
            if o is None:
                continue
            return o
    raise Fails()


def expected(s, mem, fs, asked):
    """(documents afterwards, text that must be printed or None, {file: JSON that must be in it}); raises Fails or Undecided."""
    c = s["c"]
    mem = copy.deepcopy(mem)
    if c == "load":
        mem[s["name"]] = loads(fs, s["path"])
        return mem, None, {}
    if c == "list":
        return mem, "\n".join(sorted(mem)), {}
    if c == "junk":
        raise Undecided()
    if s["name"] not in mem:
        raise Fails()
    doc = mem[s["name"]]
    if c == "rename":
        del mem[s["name"]]
        mem[s["to"]] = doc
        return mem, None, {}
    if c == "drop":
        del mem[s["name"]]
        return mem, None, {}
    if c == "save":
        return mem, None, {s["path"]: doc}
    if c in ("count", "index", "find", "look", "change"):
        sub = doc
        for k in s["at"] or []:
            if isinstance(k, str) and not isinstance(sub, dict) or isinstance(k, int) and not isinstance(sub, list):
                raise Fails()
            try:
                sub = sub[k]
            except (KeyError, IndexError):
                raise Fails()
    if c == "count":
        return mem, "%d matches" % len(list(find(s["pat"], sub))), {}
    if c == "index":
        lines = ["    [" + ", ".join((json.dumps(i) if " " in i else i) if isinstance(i, str) else str(i) for i in at) + "]" for at, _ in find(s["pat"], sub)]
        return mem, "\n".join(["Indexes that match the pattern:"] + (lines or ["    (none)"])), {}
    if c in ("find", "look"):
        if "maxDepth=0" in s["opts"]:
            raise Fails()
        return mem, None, {}
    if c == "change":
        replies = list(s["replies"])
        ask = True
        original = copy.deepcopy(mem)
        for at, groups in find(s["pat"], sub):
            try:
                new = instantiate(s["to"], groups)
            except KeyError:
                raise Fails()
            action = "y"
            if ask:
                action = None
                while action is None:
                    asked[0] += 1
                    r = replies.pop(0).strip().lower() if replies else "n"
                    action = {"": "y", "y": "y", "yes": "y", "n": "n", "no": "n", "all": "all", "stop": "stop", "revert": "revert"}.get(r)
            if action in ("y", "all"):
                if not at:
                    raise Fails()
                x = sub
                for k in at[:-1]:
                    x = x[k]
                x[at[-1]] = new
                ask = ask and action != "all"
            elif action == "stop":
                break
            elif action == "revert":
                return original, None, {}
        return mem, None, {}
    if c == "report":
        if s["opts"] == " pretty=3":
            raise Fails()
        raise Undecided()
    if c == "ext":
        o = cell_or_pool(doc, s)
        if not isinstance(o, dict) or o.get("source", "embedded") != "embedded":
            raise Fails()
        init = o.get("init", {})
        o["source"], o["init"] = "json", s["path"]
        return mem, None, {s["path"]: init}
    if c == "int":
        o = cell_or_pool(doc, s)
        if not isinstance(o, dict) or o.get("source", "embedded") != "json" or not isinstance(o.get("init"), str):
            raise Fails()
        o["init"] = loads(fs, o["init"])
        del o["source"]
        return mem, None, {}
    raise core.HarnessError("unknown command " + c)


# ------------------------------------------------------------------ running a session

class Stop(BaseException):
    """The simulated user has nothing more to type."""


class Readline(object):
    def __init__(self, fs):
        self.fs = fs

    def _io(self, *a):
        f = self.fs.fault("history")
        if f:
            self.fs.fail(f, "history")

    read_history_file = write_history_file = _io

    def __getattr__(self, k):
        return lambda *a: None


class Pager(object):
    """subprocess: what is piped into a pager ends up on the screen."""
    PIPE, STDOUT = -1, -2

    class Popen(object):
        def __init__(self, command, stdin=None, stdout=None, stderr=None, **kw):
            self.text = bool(kw.get("universal_newlines") or kw.get("text") or kw.get("encoding"))
            self.stdin, self.returncode = self, 0

        def write(self, x):
            if not isinstance(x, str if self.text else bytes):
                raise TypeError("a bytes-like object is required, not 'str'")
            sys.stdout.write(x if self.text else x.decode("utf-8"))

        def close(self):
            pass

        flush = close

        def wait(self, *a, **k):
            return 0

        def communicate(self, x=None, **k):
            if x is not None:
                self.write(x)
            return "" if self.text else b"", None


class Terminal(object):
    def __init__(self, fs):
        self.fs, self.out = fs, io.StringIO()
        self.next = None

    def input(self, prompt=""):
        return self.next(prompt)


class world(object):
    """The inspector's seams: terminal, file system, history, pager."""

    def __init__(self, fs, term):
        self.fs, self.term = fs, term

    def __enter__(self):
        I = inspector()
        self.old = (builtins.input, sys.stdout, sys.stderr, I.defs.readline, I.defs.subprocess, I.defs.CONFIG_DIRECTORY_EXISTS, I.defs.atexit, I.main.readline)
        builtins.input, sys.stdout, sys.stderr = self.term.input, self.term.out, io.StringIO()
        I.defs.readline = I.main.readline = Readline(self.fs)
        I.defs.subprocess = Pager
        I.defs.CONFIG_DIRECTORY_EXISTS = True

        class NoExit(object):
            register = staticmethod(lambda *a: None)
        I.defs.atexit = NoExit
        self.fs.__enter__()
        return self

    def __exit__(self, *a):
        I = inspector()
        self.fs.__exit__()
        builtins.input, sys.stdout, sys.stderr, I.defs.readline, I.defs.subprocess, I.defs.CONFIG_DIRECTORY_EXISTS, I.defs.atexit, I.main.readline = self.old


def new_mode():
    I = inspector()
    return I.main.InspectorMode([], [I.json.JsonGadget, I.pfa.PFAGadget])


def fresh_report(text, mem):
    """The same command in a session that has just loaded these documents."""
    I = inspector()
    m = new_mode()
    for n, d in mem.items():
        m.pfaFiles[n] = I.defs.Model(copy.deepcopy(d))
    old, sys.stdout = sys.stdout, io.StringIO()
    try:
        m.action(text)
        return ["ok", sys.stdout.getvalue()]
    except Exception as err:
        return ["err", sys.stdout.getvalue()]
    finally:
        sys.stdout = old


def loads_as_engine(doc):
    T = titus()
    try:
        T.PFAEngine.fromJson(copy.deepcopy(doc))
        return True
    except Exception:
        return False


REPORTS = ("look", "find", "report")


def execute(case):
    core.begin_case(case["entropy"])
    I = inspector()
    fs = SimFS(case["files"])
    term = Terminal(fs)
    probe, trace = {}, []
    state = {"violation": None, "ops": 0}

    def hit(k):
        probe[k] = probe.get(k, 0) + 1

    def bad(kind, j, msg):
        if state["violation"] is None:
            state["violation"] = {"kind": kind, "msg": "command %d, %s%s: %s" % (j, line(case["session"][j]), " with fault %s" % json.dumps(case["session"][j]["faults"]) if case["session"][j].get("faults") else "", msg)}

    with core.virtual_time(), world(fs, term):
        mode = new_mode()
        cur = {"j": -1, "result": None, "pos": 0}
        action = mode.action

        def watched(text):
            try:
                action(text)
                cur["result"] = ["ok", None]
            except BaseException as err:
                cur["result"] = ["err", type(err).__name__]
                raise
        mode.action = watched

        def docs():
            return {n: m.obj for n, m in mode.pfaFiles.items()}

        def judge():
            """The command just run, against the model."""
            j = cur["j"]
            s = case["session"][j]
            fired = list(fs.fired)
            fs.arm(None)
            out = term.out.getvalue()[cur["pos"]:]
            status = cur["result"][0] if cur["result"] else "none"
            state["ops"] += 1
            hit("%s:%s" % (s["c"], status))
            for f in fired:
                hit("fault_in:" + s["c"])
            before, after = cur["before"], docs()
            trace.append([s["c"], status, dumps(after) if fired or s["c"] == "change" else len(out)])
            asked = [0]
            want = None
            saved, fs.files = fs.files, {k: bytearray(v) for k, v in cur["files"].items()}
            try:
                want = expected(s, before, fs, asked)
                verdict = "ok"
            except Fails:
                verdict = "err"
            except Undecided:
                verdict = None
            finally:
                fs.files = saved
            real = [x for x in fired if x[2] != "short"]
            if status == "none":
                return bad("no-answer", j, "it neither finished nor failed")
            # documents
            if status == "err" and dumps(after) != dumps(before):
                return bad("half-done", j, "it failed (%s), but the documents are now %s; they were %s" % (cur["result"][1], dumps(after)[:1500], dumps(before)[:1500]))
            if status == "ok" and verdict != "err" and dumps(after) != dumps(want[0] if want else before):
                return bad("wrong-effect", j, "it succeeded and the documents are %s; they should be %s; they were %s" % (dumps(after)[:1500], dumps(want[0] if want else before)[:1500], dumps(before)[:800]))
            if not real and verdict is not None and status != verdict:
                return bad("status", j, "it %s (%s) but should have %s; documents %s" % ({"ok": "succeeded", "err": "failed"}[status], cur["result"][1] or out[:300], {"ok": "succeeded", "err": "failed"}[verdict], dumps(before)[:1500]))
            # files
            touched = {fs.norm(p): v for p, v in (want[2] if want else {}).items()}
            target = fs.norm(s["path"]) if s["c"] in ("save", "ext") and "path" in s else None
            for k, v in fs.snapshot().items():
                if k.startswith("/sim/") or k == target:
                    continue
                if v != cur["files"].get(k):
                    return bad("other-file", j, "it changed the file " + k)
            if status == "ok" and verdict == "ok":
                for k, v in touched.items():
                    got = bytes(fs.files.get(k, b""))
                    try:
                        same = dumps(json.loads(got.decode("utf-8"))) == dumps(v)
                    except ValueError:
                        same = False
                    if not same:
                        return bad("lost-write", j, "it succeeded, but %s holds %r (%d bytes) instead of %s" % (k, got[:200], len(got), dumps(v)[:500]))
            # what it says
            if status == "ok" and want and want[1] is not None and out.strip() != want[1].strip():
                return bad("report", j, "it printed %r; it should print %r" % (out[:800], want[1][:800]))
            if s["c"] in REPORTS and not real:
                r = fresh_report(line(s), before)
                hit("report_compared")
                if r[0] != status or status == "ok" and r[1] != out:
                    return bad("stale-report", j, "it answered %s %r; a session that has just loaded the same documents answers %s %r" % (status, out[:1000], r[0], r[1][:1000]))
            if s["c"] == "report" and s["what"] == "valid" and not real and s["name"] in before:
                ok = loads_as_engine(before[s["name"]])
                hit("valid:%s" % ok)
                if ok != (status == "ok"):
                    return bad("validity", j, "it says the document is %svalid, but it %s as an engine: %s" % ("" if status == "ok" else "in", "loads" if ok else "does not load", dumps(before[s["name"]])[:1500]))
            if s["c"] == "report" and s["what"] in ("cells", "pools") and status == "ok" and not real:
                d = before[s["name"]].get(s["what"], {})
                names = re.findall(r"^([A-Za-z_][A-Za-z0-9_]*): shared=", out, re.M)
                if names != sorted(d):
                    return bad("report", j, "it lists %s; the document has %s" % (names, sorted(d)))
                if s["what"] == "pools":
                    sizes = [int(x) for x in re.findall(r"elements=(\d+)", out)]
                    w = []
                    for n in sorted(d):
                        o = d[n]
                        w.append(len(json.loads(bytes(fs.files[fs.norm(o["init"])]).decode())) if o.get("source") == "json" else len(o.get("init", {})))
                    if sizes != w:
                        return bad("report", j, "it counts %s elements; there are %s" % (sizes, w))

        def at_prompt(prompt):
            if "revert" in prompt:
                f = fs.fault("input")
                if f:
                    fs.fail(f, "terminal")
                s = case["session"][cur["j"]]
                cur["reply"] += 1
                r = s.get("replies", [])
                if cur["reply"] > 2000:
                    raise core.HarnessError("endless questions")
                return r[cur["reply"] - 1] if cur["reply"] <= len(r) else "n"
            if cur["j"] >= 0:
                judge()
            if state["violation"] is not None or cur["j"] + 1 >= len(case["session"]):
                cur["over"] = True
                raise Stop()
            cur["j"] += 1
            cur["result"], cur["pos"], cur["reply"] = None, len(term.out.getvalue()), 0
            cur["before"] = copy.deepcopy(docs())
            cur["files"] = fs.snapshot()
            fs.arm(case["session"][cur["j"]].get("faults"))
            return line(case["session"][cur["j"]])
        term.next = at_prompt
        try:
            mode.loop()
        except Stop:
            pass
        except (SystemExit, KeyboardInterrupt) as err:      # the user left by control-D in the middle of a question
            judge()
            hit("session_left")
            s = case["session"][cur["j"]]
            if state["violation"] is None and not any(x[2] == "EOFError" for x in s.get("faults", [])):
                bad("session-lost", cur["j"], "the session ended (%s)" % type(err).__name__)
    return {"violation": state["violation"], "probe": probe, "faults": fs.total, "sig": trace, "events": state["ops"], "result": trace,
            "nontrivial": state["ops"] > 1, "sim_time": core.CLOCK.total, "ops": state["ops"]}


def shrink(case):
    S = case["session"]
    for n in (8, 4, 2, 1):
        for i in range(0, len(S) - n + 1):
            if n < len(S):
                yield dict(case, session=S[:i] + S[i + n:])
    for i, s in enumerate(S):
        if s.get("faults"):
            yield dict(case, session=S[:i] + [{k: v for k, v in s.items() if k != "faults"}] + S[i + 1:])
        if len(s.get("replies", [])) > 1:
            yield dict(case, session=S[:i] + [dict(s, replies=s["replies"][:-1])] + S[i + 1:])
        if s.get("at"):
            yield dict(case, session=S[:i] + [dict(s, at=None)] + S[i + 1:])
    for f in sorted(case["files"]):
        yield dict(case, files={k: v for k, v in case["files"].items() if k != f})
    for f in sorted(case["files"]):
        try:
            d = json.loads(case["files"][f])
        except ValueError:
            continue
        if not isinstance(d, dict) or "action" not in d:
            continue
        for k in ("cells", "pools", "fcns", "metadata"):
            if k in d:
                yield dict(case, files=dict(case["files"], **{f: json.dumps({a: b for a, b in d.items() if a != k})}))
                for n in sorted(d[k]):
                    yield dict(case, files=dict(case["files"], **{f: json.dumps(dict(d, **{k: {a: b for a, b in d[k].items() if a != n}}))}))


def view(prop):
    from ..registry import View
    return View(generate=generate, execute=execute, shrink=shrink,
                PLAN={"quick": {"cases": 12000, "budget": 40, "minimise": 45},
                      "thorough": {"cases": 10 ** 9, "budget": 600, "minimise": 120}},
                RULE="a run is non-trivial when at least two commands were carried out; distinct = distinct sequences of (command, outcome, documents)",
                REAL=["pfainspector main loop, command parser, all json and pfa commands", "titus.producer.tools pattern matching", "titus reader, type checker and engine for pfa reports"],
                STUB=["file system and URLs (in memory, with injected faults)", "terminal, readline history, pager process", "clocks", "entropy"],
                ASSUMPTIONS=["an interrupt arrives while the program waits for input or does I/O", "what is not flushed is lost", "shell commands (ls, cd, pwd, back) are not driven"])
