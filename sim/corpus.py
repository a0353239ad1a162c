"""Documents and inputs harvested from the library's own examples, and canonical forms of what engines do."""
import copy
import json
import os
import pickle
import resource
import struct
import sys

from . import core
from .world import titus, classify, CallbackError

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_docs = None


def load():
    global _docs
    if _docs is None:
        with open(os.path.join(HERE, "corpus", "library.jsonl")) as f:
            _docs = [json.loads(line) for line in f]
    return _docs


def light(limit=40000):
    """The documents whose calls take at most this many bytecodes each: those worth preempting."""
    with open(os.path.join(HERE, "corpus", "steps.json")) as f:
        steps = json.load(f)
    return [d for d, n in zip(load(), steps) if n <= limit]


def has(doc, *words):
    s = json.dumps(doc)
    return any(w in s for w in words)


_index = []


def functions(doc):
    """Names of the library functions the document calls."""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            for k, v in x.items():
                if k == "fcn" and isinstance(v, str):
                    out.add(v)
                elif k not in _SYNTAX:
                    out.add(k)
                walk(v)
        elif isinstance(x, list):
            for v in x:
                walk(v)
    for part in ("begin", "action", "end", "fcns", "merge"):
        walk(doc.get(part))
    return out


_SYNTAX = {"type", "items", "values", "fields", "name", "symbols", "value", "if", "then", "else", "while", "do", "let", "set", "for", "step", "foreach", "in", "forkey", "forval", "until", "cond",
           "cell", "pool", "path", "to", "init", "attr", "params", "ret", "fcn", "log", "namespace", "error", "try", "new", "cast", "cases", "as", "partial", "upcast", "ifnotnull", "pack", "unpack",
           "format", "seq", "filter", "call", "args", "string", "int", "long", "float", "double", "base64", "emit", "fill", "default", "order", "size", "code", "poolDel", "pool-del", "doc", "returns"}


def by_function(light_only=False):
    """[(function, documents that call it)], rarely used functions like common ones."""
    if not _index:
        for docs in (load(), light()):
            d = {}
            for o in docs:
                for f in functions(o["doc"]):
                    d.setdefault(f, []).append(o)
            names = sorted(n for n in d if "." in n and not n.startswith("u."))
            _index.append([(n, d[n]) for n in names])
    return _index[1 if light_only else 0]


def pick(rng, light_only=False):
    """A document: sometimes any of them, mostly a library function first, one after the other."""
    if rng.random() < 0.25:
        return rng.choice(light() if light_only else load())
    fs = by_function(light_only)
    k = getattr(rng, "idx", rng.getrandbits(20))
    if hasattr(rng, "idx"):
        rng.idx += 137
    return rng.choice(fs[k % len(fs)][1])


def sibling(rng, o, light_only=False):
    """Another document that calls one of the library functions o calls."""
    fs = functions(o["doc"])
    c = [docs for n, docs in by_function(light_only) if n in fs]
    return rng.choice(rng.choice(c)) if c else o


def vary_value(rng, x):
    """A value of the same type as x, a bit different."""
    if isinstance(x, bool) or x is None or isinstance(x, str):
        return x
    if isinstance(x, int):
        return rng.choice([x, x, x + 1, x - 1, 0, 1, 2]) if abs(x) < 10 ** 6 else x
    if isinstance(x, float):
        return rng.choice([x, x, x + 0.5, x * 1.25, 0.0, -x])
    if isinstance(x, list):
        x = [vary_value(rng, v) for v in x]
        r = rng.random()
        if len(x) > 1 and r < 0.2:
            del x[rng.randrange(len(x))]
        elif x and r < 0.4:
            x.insert(rng.randint(0, len(x)), copy.deepcopy(rng.choice(x)))
        elif r < 0.5:
            x.reverse()
        return x
    if list(x) == ["$bytes"]:
        return x
    return {k: vary_value(rng, v) for k, v in x.items()}


def finite(doc):
    """Will the calls end whatever the numbers in them?  (The quantile functions search without a bound, and so do the regular expression functions when a pattern matches the empty string.)"""
    return not has(doc, '"while"', '"until"', '"prob.dist.', "QF", '"re.')


def vary_calls(rng, doc, calls):
    if not finite(doc):
        return calls
    return [[c[0]] + [vary_value(rng, v) for v in c[1:]] for c in calls]


def lengths(calls):
    out = set()

    def walk(x):
        if isinstance(x, (list, dict)):
            out.add(len(x))
            for v in x.values() if isinstance(x, dict) else x:
                walk(v)
    for c in calls:
        for v in c[1:]:
            walk(v)
    return sorted(n for n in out if n < 50)


def vary(rng, doc, calls=()):
    """The document with some of its small integer arguments changed, often to the size of something it is given."""
    ns = lengths(calls)
    if not finite(doc):
        return doc
    doc = copy.deepcopy(doc)
    spots = []

    def walk(x, arg):
        if isinstance(x, dict):
            for k, v in x.items():
                if k in ("type", "size"):
                    continue
                walk(v, k not in _SYNTAX and isinstance(v, list))
        elif isinstance(x, list):
            for i, v in enumerate(x):
                if arg and isinstance(v, int) and not isinstance(v, bool):
                    spots.append((x, i))
                walk(v, False)
    for part in ("begin", "action", "end", "fcns", "merge"):
        walk(doc.get(part), False)
    for x, i in spots:
        if rng.random() < 0.5:
            x[i] = rng.choice(ns) if ns and rng.random() < 0.4 else rng.choice([0, 1, 2, 3, 5, x[i] + 1, x[i] - 1])
    return doc


def expose(rng, doc):
    """The same document with its input visible from outside while and after it is worked on: logged first, or kept in a cell."""
    doc = copy.deepcopy(doc)
    act = doc["action"] if isinstance(doc["action"], list) else [doc["action"]]
    doc["action"] = [{"log": ["input"]}] + act
    t = doc["input"]
    if isinstance(t, dict) and t.get("type") in ("array", "map") and rng.random() < 0.5 and '"input"' in json.dumps(act):
        def sub(x):
            if x == "input":
                return {"cell": "held"}
            if isinstance(x, dict):
                if isinstance(x.get("attr"), str) or "set" in x:
                    return x
                return {k: (v if k in ("type", "value", "string", "params", "ret") else sub(v)) for k, v in x.items()}
            if isinstance(x, list):
                return [sub(v) for v in x]
            return x
        cells = dict(doc.get("cells", {}), held={"type": _names(t), "init": [] if t["type"] == "array" else {}})
        doc["cells"] = cells
        doc["action"] = [{"cell": "held", "to": "input"}, {"log": [{"cell": "held"}]}] + sub(act)
    return doc


def _names(t):
    """The type with the named types the input declares replaced by their names."""
    if isinstance(t, dict):
        if t.get("type") in ("record", "enum", "fixed"):
            return (t["namespace"] + "." if t.get("namespace") else "") + t["name"]
        return {k: (_names(v) if k in ("items", "values") else v) for k, v in t.items()}
    if isinstance(t, list):
        return [_names(v) for v in t]
    return t


def untag(x):
    """Inputs: bytes are stored as {"$bytes": [...]}"""
    if isinstance(x, dict):
        if list(x) == ["$bytes"]:
            return bytes(x["$bytes"])
        return {k: untag(v) for k, v in x.items()}
    if isinstance(x, list):
        return [untag(v) for v in x]
    return x


def canon(x):
    """A text-comparable form of any value an engine can hold or return."""
    if x is None or isinstance(x, (bool, str)):
        return x
    if isinstance(x, int):
        return int(x)
    if isinstance(x, float):
        return "f:" + repr(float(x))
    if isinstance(x, (bytes, bytearray)):
        return {"$bytes": list(x)}
    if isinstance(x, dict):
        return {"$map": sorted(([str(k), canon(v)] for k, v in x.items()), key=lambda p: p[0])}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if type(x).__module__ == "numpy":
        if hasattr(x, "tolist"):
            return canon(x.tolist())
    return "<%s>" % type(x).__name__


def text(x):
    return json.dumps(canon(x))


def state_of(eng):
    """Everything an engine remembers between calls, straight from its cells and pools."""
    return {"cells": {n: canon(c.value) for n, c in eng.cells.items()},
            "pools": {n: canon(dict(p.value)) for n, p in eng.pools.items()}}


class Driver(object):
    """An engine whose consumers belong to the harness; records what it does, call by call."""

    def __init__(self, eng, watch=None, on_value=None):
        self.eng = eng
        self.watch = watch
        self.on_value = on_value
        self.out = []
        self.fail = None
        self.tick = 0       # seconds every call of a consumer takes
        eng.emit = self.emit
        eng.log = self.log
        self.n = 0

    def emit(self, v):
        self.out.append(["emit", canon(v)])
        if self.watch is not None:
            self.watch.add("an emitted value", v)
        self._cb()

    def log(self, message, namespace):
        self.out.append(["log", namespace, canon(message)])
        if self.watch is not None:
            for m in message:
                self.watch.add("a logged value", m)
        self._cb()

    def _cb(self):
        if core.CUR is not None:
            core.CUR.point("cb")
        self.n += 1
        if self.tick:
            core.CLOCK.advance(self.tick)
        if self.fail is not None and self.n == self.fail:
            raise CallbackError("consumer failed")

    def call(self, c):
        """One call [name, arg...]; -> canonical outcome"""
        self.out = []
        self.n = 0
        inp = None
        try:
            if c[0] == "action":
                inp = untag(c[1])
                if self.watch is not None:
                    self.watch.add("an input", inp)
                r = self.eng.action(inp)
            elif c[0] == "merge":
                a, b = untag(c[1]), untag(c[2])
                if self.watch is not None:
                    self.watch.add("a tally passed to merge", a)
                    self.watch.add("a tally passed to merge", b)
                r = self.eng.merge(a, b)
            elif c[0] == "begin":
                r = self.eng.begin() and None
            else:
                r = self.eng.end() and None
            if self.watch is not None:
                self.watch.add("a result", r)
            return ["ok", canon(r), self.out]
        except core.SimKill:
            raise
        except Exception as err:
            e = classify(err)
            if e[1] == "internal":
                e = ["err", "internal", type(err).__name__]
            return e + [self.out]


class Watch(object):
    """Values that crossed the API: none of them may change afterwards."""

    def __init__(self):
        self.items = []

    def add(self, label, obj):
        if isinstance(obj, (dict, list)):
            self.items.append((label, obj, text(obj)))

    def changed(self):
        for label, obj, txt in self.items:
            if text(obj) != txt:
                return "%s was %s and became %s" % (label, txt[:400], text(obj)[:400])
        return None


# ------------------------------------------------------------------ the pristine process

class Zygote(object):
    """A process that never runs anything itself: every request runs in a fresh fork of it, so that the
    answer cannot depend on what this process has done before."""

    LIMIT = 12          # seconds of processor time

    def __init__(self, fn, elsewhere=False):
        self.fn = fn
        a_r, a_w = os.pipe()
        b_r, b_w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(a_w)
            os.close(b_r)
            if elsewhere:
                # another interpreter, with another seed for the hashes of strings
                os.set_inheritable(a_r, True)
                os.set_inheritable(b_w, True)
                here = os.path.dirname(os.path.abspath(__file__))
                try:
                    os.execve(sys.executable, [sys.executable, "--jit", "off", os.path.join(here, "main.py"), "serve", fn.__module__, fn.__name__, str(a_r), str(b_w)],
                              dict(os.environ, PYTHONHASHSEED="90210"))
                finally:
                    os._exit(1)
            self._serve(a_r, b_w)
            os._exit(0)
        os.close(a_r)
        os.close(b_w)
        self.pid = pid
        self.w = os.fdopen(a_w, "wb")
        self.r = os.fdopen(b_r, "rb")

    def _serve(self, rfd, wfd):
        r = os.fdopen(rfd, "rb")
        while True:
            h = r.read(4)
            if len(h) < 4:
                return
            n, = struct.unpack(">I", h)
            data = r.read(n)
            pid = os.fork()
            if pid == 0:
                resource.setrlimit(resource.RLIMIT_CPU, (self.LIMIT, self.LIMIT))
                try:
                    out = pickle.dumps(("ok", self.fn(*pickle.loads(data))))
                except BaseException:
                    import traceback
                    out = pickle.dumps(("error", traceback.format_exc()))
                buf = struct.pack(">I", len(out)) + out
                while buf:
                    k = os.write(wfd, buf)
                    buf = buf[k:]
                os._exit(0)
            if os.waitpid(pid, 0)[1]:
                out = pickle.dumps(("long", "a call made alone did not end within %d s of processor time" % self.LIMIT))
                buf = struct.pack(">I", len(out)) + out
                while buf:
                    buf = buf[os.write(wfd, buf):]

    def __call__(self, *args):
        data = pickle.dumps(args)
        self.w.write(struct.pack(">I", len(data)) + data)
        self.w.flush()
        h = self.r.read(4)
        if len(h) < 4:
            raise core.HarnessError("the pristine process died")
        n, = struct.unpack(">I", h)
        st, val = pickle.loads(self.r.read(n))
        if st == "long":
            raise core.TooLong(val)
        if st != "ok":
            raise core.HarnessError("in the pristine process: " + val)
        return val


_zygotes = {}


def serve(module, name, rfd, wfd):
    """The far side of Zygote(fn, elsewhere=True)."""
    import importlib
    fn = getattr(importlib.import_module(module), name)
    from .world import titus
    titus()
    z = Zygote.__new__(Zygote)
    z.fn = fn
    z._serve(rfd, wfd)


def pristine(fn, elsewhere=False):
    """Call fn in a fresh fork of a process that has run nothing; fn must be a module-level function.
    elsewhere: of another interpreter, started with another hash seed."""
    key = (fn.__module__, fn.__name__, elsewhere or os.getpid())
    z = _zygotes.get(key)
    if z is None:
        z = _zygotes[key] = Zygote(fn, elsewhere)
    return z


def forget():
    """Used by workers: a process of their own for each."""
    _zygotes.clear()
