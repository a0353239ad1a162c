"""Random well-typed PFA documents inside the subset the reference model (refpfa) interprets."""
import copy

ARR = {"type": "array", "items": "int"}
MAP = {"type": "map", "values": "int"}
OPT = ["null", "int"]
REC = {"type": "record", "name": "Rec", "fields": [
    {"name": "a", "type": "int"}, {"name": "b", "type": ARR}, {"name": "c", "type": MAP}]}
IN = {"type": "record", "name": "In", "fields": [
    {"name": "x", "type": "int"}, {"name": "y", "type": "int"}, {"name": "k", "type": "string"},
    {"name": "arr", "type": ARR}, {"name": "u", "type": OPT}]}
TWO = {"type": "record", "name": "Two", "fields": [
    {"name": "e1", "type": {"type": "enum", "name": "E", "symbols": ["x", "y", "z"]}}, {"name": "e2", "type": "E"},
    {"name": "o", "type": ["null", "Rec"]}, {"name": "w", "type": ["null", "Rec", "In"]}, {"name": "l", "type": {"type": "array", "items": ["null", "Two"]}}]}
T = {"int": "int", "bool": "boolean", "string": "string", "arr": ARR, "map": MAP, "Rec": "Rec", "In": "In", "opt": OPT, "ropt": ["null", "Rec"], "Two": "Two"}
KEYS = ["p", "q", "r"]
ODD = ["", "a b", "\u00e9", "0", "-1", "int", "null", "__class__", "value", "p.q", "\"", "\U0001f600", "x" * 70, "P"]
META = ["", " ", "m1", "0", "\u00e9", "{}", "null", "y" * 300]
REC0 = {"a": 3, "b": [1, 2], "c": {"p": 5}}
MESSAGES = ["boom", "boom", "bang", "bang", "-1", "2005", "", "18040"]
CODES = [-1, -2]
FILTERS = ["boom", "bang", -1, -2, 18040, 18060, 2000, 2001, 2004, 2005, 2008, 2009, 2006, 2010, "integer division by zero", "-1", "2005", "", "18040", 0]


def ty(t):
    return copy.deepcopy(T[t])


def key(rng):
    return rng.choice(KEYS) if rng.random() < 0.93 else rng.choice(ODD)


def value(rng, t):
    if t == "opt":
        return None if rng.random() < 0.4 else {"int": rng.randint(-5, 9)}
    if t == "Two":
        return {"e1": rng.choice("xyz"), "e2": rng.choice("xyz"), "o": value(rng, "ropt"),
                "w": rng.choice([None, {"Rec": value(rng, "Rec")}, {"In": value(rng, "In")}]),
                "l": [None if rng.random() < 0.5 else {"Two": value(rng, "Two")}] if rng.random() < 0.3 else []}
    if t == "ropt":
        return None if rng.random() < 0.3 else {"Rec": value(rng, "Rec")}
    if t == "int":
        return rng.randint(-5, 30)
    if t == "bool":
        return rng.random() < 0.5
    if t == "string":
        return key(rng)
    if t == "arr":
        if rng.random() < 0.04:
            return [rng.randint(-3, 9) for _ in range(rng.randint(9, 70))]
        return [rng.randint(-3, 9) for _ in range(rng.choice([0, 1, 2, 2, 3]))]
    if t == "map":
        out = {k: rng.randint(-3, 9) for k in KEYS if rng.random() < 0.5}
        return dict(many(rng), **out) if rng.random() < 0.07 else out
    if t == "Rec":
        return {"a": value(rng, "int"), "b": value(rng, "arr"), "c": value(rng, "map")}
    if t == "In":
        return {"x": rng.randint(-2, 9), "y": rng.choice([0, 0, 1, 2, 3, 7]), "k": key(rng),
                "arr": value(rng, "arr"), "u": value(rng, "opt")}
    raise KeyError(t)


def many(rng):
    """Entries beyond the usual few: odd names, or a lot of them."""
    out = {rng.choice(ODD): rng.randint(-3, 9) for _ in range(rng.randint(1, 3))}
    if rng.random() < 0.5:
        out.update(("e%d" % i, rng.randint(-3, 9)) for i in range(rng.randint(9, 70)))
    return out


def lit(rng, t, v=None):
    v = value(rng, t) if v is None else v
    if t in ("int", "bool"):
        return v
    if t == "string":
        return {"string": v} if rng.random() < 0.5 else [v]
    return {"type": ty(t), "value": v}


class Ctx(object):
    """What an expression at some place may use."""

    def __init__(self, vars, mutable=(), pure=False, stmts=True, let=True):
        self.vars = dict(vars)
        self.mutable = set(mutable)
        self.pure = pure         # inside an updater: nothing that writes state
        self.let = let

    def sub(self, sealed, let=True):
        return Ctx(self.vars, () if sealed else self.mutable, self.pure, True, let)


DEFAULTS = dict(method=None, cells=2, pools=1, fcns=2, p_rollback=0.4, w_try=1.0, w_error=1.0, w_loop=1.0, w_emit=1.0,
                w_log=1.0, w_state=2.0, stmts=(2, 5), depth=3, begin=0.5, end=0.5, p_fail=0.25, versioned=0.2, randseed=True, ropt=False, two=False,
                input="In", output=None, begin_emit=True, p_hide=0.0)


class Gen(object):
    def __init__(self, rng, **profile):
        self.rng = rng
        self.p = dict(DEFAULTS)
        self.p.update(profile)
        self.n = 0
        self.in_begin = False
        self.begin_emit = self.p["begin_emit"]
        self.fcns = {}
        self.fsig = {}
        self.size = 0

    def fresh(self, stem="v"):
        self.n += 1
        return "%s%d" % (stem, self.n)

    def param(self):
        """The parameter of an inline function, which may hide a symbol around it."""
        return self.rng.choice(["name", "instance", "metadata"]) if self.rng.random() < self.p["p_hide"] else self.fresh("f")

    # ---------------------------------------------------------------- document

    def document(self):
        rng, p = self.rng, self.p
        self.method = p["method"] or rng.choice(["map", "map", "emit", "fold"])
        d = {"name": "Doc%d" % rng.randint(0, 999), "method": self.method, "input": copy.deepcopy(IN) if p["input"] == "In" else ty(p["input"])}
        extra = ["ropt", "ropt"] if p["ropt"] else []
        if p["two"]:
            extra.append("Two")
        d["cells"] = {"zzrec": {"type": copy.deepcopy(REC), "init": copy.deepcopy(REC0)}}
        self.cells, self.pools = {}, {}
        if p["two"]:
            d["cells"]["zztwo"] = {"type": copy.deepcopy(TWO), "init": {"e1": "x", "e2": "y", "o": None, "w": None, "l": []}}
            if p["input"] != "In" and p["output"] != "In":
                d["cells"]["zzin"] = {"type": copy.deepcopy(IN), "init": {"x": 1, "y": 2, "k": "p", "arr": [], "u": None}}
        for i in range(rng.randint(1, p["cells"]) if p["cells"] else 0):
            t = rng.choice(["int", "int", "Rec", "arr", "map"] + extra)
            n = "c%d" % i
            self.cells[n] = t
            d["cells"][n] = {"type": ty(t), "init": value(rng, t)}
            if rng.random() < p["p_rollback"]:
                d["cells"][n]["rollback"] = True
        d["pools"] = {}
        for i in range(rng.randint(0, p["pools"]) if p["pools"] else 0):
            t = rng.choice(["int", "int", "Rec", "arr"] + extra)
            n = "p%d" % i
            self.pools[n] = t
            init = {k: value(rng, t) for k in KEYS if rng.random() < 0.4}
            if rng.random() < 0.08:
                init.update((k, value(rng, t)) for k in many(rng))
            d["pools"][n] = {"type": ty(t), "init": init}
            if rng.random() < p["p_rollback"]:
                d["pools"][n]["rollback"] = True
        self.out = rng.choice(["int", "int", "int", "Rec", "Rec", "arr", "arr", "map", "map", "string", "opt"])
        if self.method == "fold":
            self.out = rng.choice(["int", "int", "Rec", "Rec", "arr", "arr", "map", "map", "opt"])
        self.out = p["output"] or self.out
        d["output"] = copy.deepcopy(IN) if self.out == "In" and p["input"] != "In" else ty(self.out)
        d["fcns"] = {}
        for i in range(rng.randint(0, p["fcns"]) if p["fcns"] else 0):
            self.function(d, i)
        if self.method == "fold":
            d["zero"] = value(rng, self.out)
            ctx = Ctx({"tallyOne": self.out, "tallyTwo": self.out})
            d["merge"] = self.block(ctx, self.out, 1, 2)
        base = {"name": "string", "instance": "int"}
        if rng.random() < p["versioned"]:
            d["version"] = rng.randint(1, 9)
            base["version"] = "int"
        d["metadata"] = {}
        if rng.random() < 0.35:
            d["metadata"] = {rng.choice(KEYS + ODD + ["who"]): rng.choice(META) for _ in range(rng.randint(1, 4))}
            base["metadata"] = "meta"
        self.meta = sorted(d["metadata"])
        self.begin_only = dict(base)
        if rng.random() < p["begin"]:
            self.in_begin = True
            d["begin"] = self.block(Ctx(base), None, 1, p["stmts"][1] - 1)
            self.in_begin = False
        act = dict(base)
        act["input"] = p["input"]
        if self.method == "fold":
            act["tally"] = self.out
        d["action"] = self.block(Ctx(act), self.out, *p["stmts"], top=True)
        if rng.random() < p["end"]:
            e = dict(base)
            if self.method == "fold":
                e["tally"] = self.out
            d["end"] = self.block(Ctx(e), None, 1, p["stmts"][1] - 1)
        # counters become visible in the log
        if rng.random() < 0.7:
            d["action"].insert(rng.randint(0, len(d["action"]) - 1), {"log": ["actionsStarted", "actionsFinished"], "namespace": "cnt"})
        if d.get("end") and rng.random() < 0.7:
            d["end"].insert(0, {"log": ["actionsStarted", "actionsFinished"], "namespace": "cnt"})
        return d

    def function(self, d, i):
        rng = self.rng
        name = "f%d" % i
        pure = rng.random() < 0.5
        params = [(self.fresh("a"), rng.choice(["int", "int", "arr", "Rec"])) for _ in range(rng.choice([1, 1, 2]))]
        if pure and rng.random() < 0.6:
            params = [(params[0][0], "int")]
        ret = rng.choice(["int", "int", "Rec", "arr"]) if not pure else rng.choice(["int", "int", "arr"])
        body = self.block(Ctx(params, pure=pure), ret, 1, 3)
        d["fcns"][name] = {"params": [{n: ty(t)} for n, t in params], "ret": ty(ret), "do": body}
        self.fsig[name] = ([t for _, t in params], ret, pure)

    # ---------------------------------------------------------------- blocks and statements

    def block(self, ctx, ret, lo, hi, depth=None, top=False):
        """Statements followed by an expression of type ret (anything when ret is None)."""
        depth = self.p["depth"] if depth is None else depth
        ctx = Ctx(ctx.vars, ctx.mutable, ctx.pure, True, ctx.let)
        out = []
        for _ in range(self.rng.randint(lo, hi)):
            out.extend(self.stmt(ctx, depth))
        if ret is None:
            if not out:
                out = [None]
        elif self.method == "emit" and top:
            out.append({"emit": [self.expr(ctx, ret, depth)]})
        else:
            out.append(self.expr(ctx, ret, depth))
        return out

    def small(self, ctx, depth, sealed=False, let=True, hi=2):
        c = ctx.sub(sealed, let)
        out = []
        for _ in range(self.rng.randint(1, hi)):
            out.extend(self.stmt(c, depth - 1))
        return out

    def stmt(self, ctx, depth):
        rng, p = self.rng, self.p
        self.size += 1
        w = [("let", 2.0 if ctx.let else 0), ("set", 1.5 if ctx.mutable and ctx.let else 0)]
        if not ctx.pure:
            w += [("cellto", p["w_state"] if self.cells else 0), ("poolto", p["w_state"] if self.pools else 0),
                  ("pooldel", 0.3 * p["w_state"] if self.pools else 0)]
            if self.method == "emit" and ("input" in ctx.vars or rng.random() < 0.3) and (self.begin_emit or not self.in_begin):
                w.append(("emit", p["w_emit"]))
        w.append(("log", p["w_log"] * 0.7))
        if depth > 0 and self.size < 120:
            w += [("if", 1.2), ("cond", 0.4), ("foreach", p["w_loop"]), ("forkey", 0.4 * p["w_loop"]), ("for", 0.6 * p["w_loop"]),
                  ("while", 0.5 * p["w_loop"] if ctx.let else 0), ("until", 0.5 * p["w_loop"] if ctx.let else 0),
                  ("try", p["w_try"]), ("do", 0.3), ("ifnotnull", 0.4 if self.vars(ctx, "opt") else 0), ("cast", 0.25 if self.vars(ctx, "opt") else 0), ("error", p["w_error"]),
                  ("rcast", 1.0 if self.vars(ctx, "ropt") else 0)]
        k = self.pick(w)
        if k == "let":
            n = 1 if rng.random() < 0.8 else 2
            new, t1 = {}, []
            for _ in range(n):
                t = rng.choice(["int", "int", "int", "arr", "map", "Rec", "string", "bool"] + (["ropt", "ropt"] if p["ropt"] else []) + (["Two", "Two"] if p["two"] else []))
                v = self.fresh()
                new[v] = self.expr(ctx, t, depth)
                if t == "ropt":
                    new[v] = {"upcast": new[v], "as": ty(t)}
                t1.append((v, t))
            for v, t in t1:
                ctx.vars[v] = t
                ctx.mutable.add(v)
            return [{"let": new}]
        if k == "set":
            ns = rng.sample(sorted(ctx.mutable), min(len(ctx.mutable), rng.choice([1, 1, 2])))
            return [{"set": {n: self.expr(ctx, ctx.vars[n], depth) for n in ns}}]
        if k == "cellto":
            return [self.cellto(ctx, depth)[0]]
        if k == "poolto":
            return [self.poolto(ctx, depth)[0]]
        if k == "pooldel":
            return [{"pool": rng.choice(sorted(self.pools)), "del": self.expr(ctx, "string", 0)}]
        if k == "emit" and self.out == "int" and rng.random() < 0.4:
            return [{"a.map": [self.expr(ctx, "arr", depth), {"fcn": "emit"}]}]
        if k == "emit":
            return [{"emit": [self.expr(ctx, self.out, depth)]}]
        if k == "log":
            o = {"log": [self.expr(ctx, rng.choice(["int", "string", "arr", "map", "Rec"] + (["Two"] if p["two"] else [])), depth - 1) for _ in range(rng.choice([1, 1, 2]))]}
            if rng.random() < 0.5:
                o["namespace"] = rng.choice(["ns", "other"])
            return [o]
        if k == "if":
            o = {"if": self.expr(ctx, "bool", depth - 1), "then": self.small(ctx, depth)}
            if rng.random() < 0.4:
                o["then"].append(None)
                o["else"] = self.small(ctx, depth) + [None]
            return [o]
        if k == "cond":
            o = {"cond": [{"if": self.expr(ctx, "bool", depth - 1), "then": self.small(ctx, depth, hi=1) + [None]} for _ in range(2)]}
            if rng.random() < 0.5:
                o["else"] = self.small(ctx, depth, hi=1) + [None]
            return [o]
        if k == "foreach":
            v = self.fresh("i")
            seq = rng.random() < 0.6 and ctx.let
            arr = self.expr(ctx, "arr", depth - 1)
            c = ctx.sub(not seq)
            c.vars[v] = "int"
            body = []
            for _ in range(rng.randint(1, 2)):
                body.extend(self.stmt(c, depth - 1))
            return [{"foreach": v, "in": arr, "do": body, "seq": seq}]
        if k == "forkey":
            a, b = self.fresh("k"), self.fresh("w")
            mp = self.expr(ctx, "map", depth - 1)
            c = ctx.sub(False)
            c.vars[a], c.vars[b] = "string", "int"
            body = []
            for _ in range(rng.randint(1, 2)):
                body.extend(self.stmt(c, depth - 1))
            return [{"forkey": a, "forval": b, "in": mp, "do": body}]
        if k == "for":
            v = self.fresh("i")
            c = ctx.sub(False)
            c.vars[v] = "int"
            body = []
            for _ in range(rng.randint(1, 2)):
                body.extend(self.stmt(c, depth - 1))
            return [{"for": {v: 0}, "while": {"<": [v, rng.randint(1, 3)]}, "step": {v: {"+": [v, 1]}}, "do": body}]
        if k in ("while", "until"):
            v = self.fresh("w")
            ctx.vars[v] = "int"     # counts down; not offered to "set"
            body = self.small(ctx, depth, sealed=False) + [{"set": {v: {"-": [v, 1]}}}]
            if rng.random() < 0.3:
                body = [body[-1]] + body[:-1]
            init = {"let": {v: rng.randint(1, 3)}}
            if k == "while":
                return [init, {"while": {">": [v, 0]}, "do": body}]
            return [init, {"do": body, "until": {"<=": [v, 0]}}]
        if k == "try":
            body = self.small(ctx, depth, sealed=True, let=False)
            o = {"try": body}
            if rng.random() < 0.5:
                o["filter"] = rng.sample(FILTERS, rng.randint(1, 4))
            return [o]
        if k == "do":
            return [{"do": self.small(ctx, depth)}]
        if k == "ifnotnull":
            v = self.fresh("n")
            src = rng.choice(self.vars(ctx, "opt"))
            c = ctx.sub(False)
            c.vars[v] = "int"
            body = self.stmt(c, depth - 1) + [None]
            o = {"ifnotnull": {v: src}, "then": body}
            if rng.random() < 0.5:
                o["else"] = self.small(ctx, depth, hi=1) + [None]
            return [o]
        if k == "rcast":
            v, w = self.fresh("n"), self.fresh("n")
            c, c2 = ctx.sub(False), ctx.sub(False)
            src = rng.choice(self.vars(ctx, "ropt"))
            c.vars[v] = "Rec"
            do = self.stmt(c, depth - 1) + [None]
            if rng.random() < 0.5:
                return [{"ifnotnull": {v: src}, "then": do}]
            cases = [{"as": "Rec", "named": v, "do": do}, {"as": "null", "named": w, "do": self.stmt(c2, depth - 1) + [None]}]
            return [{"cast": src, "cases": cases if rng.random() < 0.5 else cases[::-1]}]
        if k == "cast":
            v, w = self.fresh("n"), self.fresh("n")
            c, c2 = ctx.sub(False), ctx.sub(False)
            src = rng.choice(self.vars(ctx, "opt"))
            c.vars[v] = "int"
            cases = [{"as": "int", "named": v, "do": self.stmt(c, depth - 1) + [None]}, {"as": "null", "named": w, "do": self.stmt(c2, depth - 1) + [None]}]
            o = {"cast": src, "cases": cases if rng.random() < 0.5 else cases[::-1]}
            if rng.random() < 0.3:
                o["cases"] = o["cases"][:1]
                o["partial"] = True
            return [o]
        if k == "error":
            m = rng.choice(MESSAGES)
            e = {"error": m}
            if rng.random() < 0.6:
                e["code"] = rng.choice(CODES)
            if rng.random() < 0.75:
                return [{"if": self.expr(ctx, "bool", 1), "then": [e]}]
            return [{"try": [e], "filter": [m]}] if rng.random() < 0.5 else [{"if": self.expr(ctx, "bool", 0), "then": [e]}]
        raise KeyError(k)

    def pick(self, w):
        tot = sum(x for _, x in w)
        r = self.rng.random() * tot
        for k, x in w:
            r -= x
            if r < 0 and x > 0:
                return k
        return [k for k, x in w if x > 0][-1]

    # ---------------------------------------------------------------- state

    def updater(self, ctx, t, depth):
        """value or function usable as "to" for a place of type t"""
        rng = self.rng
        r = rng.random()
        if r < 0.3:
            return self.expr(ctx, t, depth - 1)
        cands = [n for n, (ps, ret, pure) in self.fsig.items() if pure and ret == t and ps == [t]]
        if cands and r < 0.55:
            return {"fcn": "u." + rng.choice(cands)}
        v = self.fresh("o")
        c = ctx.sub(True)
        c.pure = True
        c.vars[v] = t
        return {"params": [{v: ty(t)}], "ret": ty(t), "do": self.block(c, t, 0, 1, min(depth, 2))}

    def path_into(self, ctx, t):
        """[(path, type)] into a value of type t; the last step exists in most runs"""
        rng = self.rng
        idx = lambda: rng.choice([0, 0, 1, "idx"])
        if t == "Rec":
            return rng.choice([([["a"]], "int"), ([["b"]], "arr"), ([["c"]], "map"), ([["b"], 0], "int"), ([["c"], ["p"]], "int")])
        if t == "arr":
            return ([rng.choice([0, 0, 1])], "int")
        if t == "map":
            return ([self.lits(rng.choice(KEYS))], "int")
        return ([], t)

    def lits(self, s):
        return [s]

    def cellto(self, ctx, depth):
        rng = self.rng
        n = rng.choice(sorted(self.cells))
        t = self.cells[n]
        path, pt = ([], t) if rng.random() < 0.5 else self.path_into(ctx, t)
        o = {"cell": n, "to": self.updater(ctx, pt, depth)}
        if path:
            o["path"] = path
        return o, t

    def poolto(self, ctx, depth):
        rng = self.rng
        n = rng.choice(sorted(self.pools))
        t = self.pools[n]
        path, pt = ([], t) if rng.random() < 0.5 else self.path_into(ctx, t)
        return {"pool": n, "path": [self.expr(ctx, "string", 0)] + path, "to": self.updater(ctx, pt, depth),
                "init": self.expr(ctx, t, 0)}, t

    # ---------------------------------------------------------------- expressions

    def vars(self, ctx, t):
        out = [n for n, vt in ctx.vars.items() if vt == t]
        for n, vt in ctx.vars.items():
            if vt == "Rec":
                out += {"int": [n + ".a"], "arr": [n + ".b"], "map": [n + ".c"]}.get(t, [])
            elif vt == "Two" and t == "ropt":
                out.append(n + ".o")
            elif vt == "In":
                out += {"int": [n + ".x", n + ".y"], "arr": [n + ".arr"], "string": [n + ".k"], "opt": [n + ".u"]}.get(t, [])
        return out

    def expr(self, ctx, t, depth):
        rng = self.rng
        self.size += 1
        if self.size > 300:
            depth = 0
        vs = self.vars(ctx, t)
        r = rng.random()
        if t == "string" and ctx.vars.get("metadata") == "meta" and self.meta and rng.random() < 0.25:
            k = rng.choice(self.meta) if rng.random() < 0.85 else rng.choice(KEYS)
            return {"attr": "metadata", "path": [{"string": k}]} if rng.random() < 0.6 or "." in k or not k.isidentifier() or not k.isascii() else "metadata." + k
        if depth <= 0 or r < 0.25:
            if vs and rng.random() < 0.8:
                return rng.choice(vs)
            return lit(rng, t)
        opts = []
        # state reads, of any type
        for n, ct in self.cells.items():
            if ct == t:
                opts.append(lambda n=n: {"cell": n})
            elif ct == "Rec" and t in ("int", "arr", "map"):
                opts.append(lambda n=n: {"cell": n, "path": [[{"int": "a", "arr": "b", "map": "c"}[t]]]})
            elif ct == "arr" and t == "int" and rng.random() < 2 * self.p["p_fail"]:
                opts.append(lambda n=n: {"cell": n, "path": [self.expr(ctx, "int", 0)]})
            elif ct == "map" and t == "int" and rng.random() < 2 * self.p["p_fail"]:
                opts.append(lambda n=n: {"cell": n, "path": [self.expr(ctx, "string", 0)]})
        for n, pt in self.pools.items():
            if pt == t and rng.random() < 2 * self.p["p_fail"]:
                opts.append(lambda n=n: {"pool": n, "path": [self.expr(ctx, "string", 0)]})
        for n, (ps, ret, pure) in self.fsig.items():
            if ret == t and (pure or not ctx.pure):
                opts.append(lambda n=n, ps=ps: {"u." + n: [self.expr(ctx, q, depth - 1) for q in ps]})
        if not ctx.pure and depth >= 2 and rng.random() < 0.2:
            if self.cells and rng.random() < 0.5:
                def f():
                    o, ot = self.cellto(ctx, depth - 1)
                    return o if ot == t else self.expr(ctx, t, depth - 1)
                opts.append(f)
            elif self.pools:
                def f():
                    o, ot = self.poolto(ctx, depth - 1)
                    return o if ot == t else self.expr(ctx, t, depth - 1)
                opts.append(f)
        opts.append(lambda: {"if": self.expr(ctx, "bool", depth - 1), "then": [self.expr(ctx, t, depth - 1)], "else": [self.expr(ctx, t, depth - 1)]})
        if t not in ("bool", "opt", "ropt") and rng.random() < 0.3 * self.p["w_try"]:
            def f():
                v = self.fresh("t")
                tr = {"try": [self.expr(ctx.sub(True, False), t, depth - 1)]}
                if rng.random() < 0.4:
                    tr["filter"] = rng.sample(FILTERS, rng.randint(1, 4))
                return {"ifnotnull": {v: tr}, "then": [v], "else": [self.expr(ctx, t, 0)]}
            if not isinstance(t, list):
                opts.append(f)
        e = lambda q, d=depth - 1: self.expr(ctx, q, d)
        if t == "int":
            opts += [lambda: {rng.choice("+-*"): [e("int"), e("int")]},
                     lambda: {rng.choice(["+", "-"]): [e("int"), rng.randint(1, 9)]},
                     lambda: {"a.len": [e("arr")]}, lambda: {"map.len": [e("map")]}, lambda: {"s.len": [e("string")]}]
            if rng.random() < 2 * self.p["p_fail"]:
                opts += [lambda: {"//": [e("int"), e("int")]}, lambda: {"%": [e("int"), e("int")]},
                         lambda: {"attr": e("arr"), "path": [e("int", 0)]}, lambda: {"attr": e("map"), "path": [e("string", 0)]}]

            def fold():
                a, b = self.fresh("f"), self.fresh("f")
                c = ctx.sub(True)
                c.vars[a] = c.vars[b] = "int"
                return {"a.fold": [e("arr"), e("int", 0), {"params": [{a: "int"}, {b: "int"}], "ret": "int", "do": self.block(c, "int", 0, 1, depth - 1)}]}
            opts.append(fold)
            os = self.vars(ctx, "opt")
            if os:
                def inn():
                    v = self.fresh("n")
                    c = ctx.sub(True)
                    c.vars[v] = "int"
                    return {"ifnotnull": {v: rng.choice(os)}, "then": [self.expr(c, "int", depth - 1)], "else": [e("int")]}

                def cast():
                    v, w = self.fresh("n"), self.fresh("n")
                    c = ctx.sub(True)
                    c.vars[v] = "int"
                    return {"cast": rng.choice(os), "cases": [{"as": "int", "named": v, "do": [self.expr(c, "int", depth - 1)]},
                                                              {"as": "null", "named": w, "do": [e("int")]}]}
                opts += [inn, cast]
        elif t == "opt":
            opts += [lambda: None, lambda: e("int"), lambda: e("int")]
        elif t == "ropt":
            opts += [lambda: None, lambda: e("Rec"), lambda: e("Rec"), lambda: e("Rec")]
        elif t == "Two":
            src = self.vars(ctx, "Two") or [lit(rng, "Two")]
            opts += [lambda: {"attr": rng.choice(src), "path": [["o"]], "to": e("ropt")},
                     lambda: {"attr": rng.choice(src), "path": [["w"]], "to": e(rng.choice(["Rec", "In"]))}]
        elif t == "In":
            opts += [lambda: {"new": {"x": e("int"), "y": e("int"), "k": e("string", 0), "arr": e("arr"), "u": e("opt", 0)}, "type": "In"}]
        elif t == "bool":
            opts += [lambda: {rng.choice(["<", "<=", ">", ">=", "==", "!="]): [e("int"), e("int")]}] * 3
            opts += [lambda: {rng.choice(["&&", "||"]): [e("bool"), e("bool")]}, lambda: {"!": [e("bool")]},
                     lambda: {"==": [e("string", 0), e("string", 0)]}, lambda: {"map.containsKey": [e("map"), e("string", 0)]}]
        elif t == "string":
            opts += [lambda: {"s.concat": [e("string", 0), e("string", 0)]}]
        elif t == "arr":
            def amap():
                a = self.param()
                c = ctx.sub(True)
                c.vars[a] = "int"
                return {"a.map": [e("arr"), {"params": [{a: "int"}], "ret": "int", "do": self.block(c, "int", 0, 1, depth - 1)}]}

            def afilter():
                a = self.param()
                c = ctx.sub(True)
                c.vars[a] = "int"
                return {"a.filter": [e("arr"), {"params": [{a: "int"}], "ret": "boolean", "do": [self.expr(c, "bool", depth - 1)]}]}
            opts += [lambda: {"a.append": [e("arr"), e("int")]}, lambda: {"new": [e("int"), e("int")], "type": ty("arr")}, amap, afilter,
                     lambda: {"attr": e("arr"), "path": [0], "to": e("int")} if rng.random() < self.p["p_fail"] else e("arr")]
        elif t == "map":
            opts += [lambda: {"map.add": [e("map"), e("string", 0), e("int")]}, lambda: {"map.remove": [e("map"), e("string", 0)]},
                     lambda: {"new": {k: e("int") for k in KEYS[:rng.randint(1, 2)]}, "type": ty("map")}]
        elif t == "Rec":
            rv = self.vars(ctx, "Rec")
            os = self.vars(ctx, "ropt")
            if os:
                def inn():
                    v = self.fresh("n")
                    c = ctx.sub(True)
                    c.vars[v] = "Rec"
                    return {"ifnotnull": {v: rng.choice(os)}, "then": [self.expr(c, "Rec", depth - 1)], "else": [e("Rec")]}
                opts += [inn, inn]
            opts += [lambda: {"new": {"a": e("int"), "b": e("arr"), "c": e("map")}, "type": "Rec"}]
            if rv:
                def attrto():
                    path, pt = self.path_into(ctx, "Rec")
                    return {"attr": rng.choice(rv), "path": path, "to": self.updater(ctx, pt, depth - 1)}
                opts += [attrto, attrto]
        return rng.choice(opts)()


def history(rng, doc, n, engines=1, ops=None):
    """A history of calls on engines of one document."""
    out = []
    for _ in range(n):
        w = {"action": 8, "begin": 0.5, "end": 0.5, "bad": 0.4}
        if doc["method"] == "fold":
            w["merge"] = 1.0
        w.update(ops or {})
        k = Gen(rng).pick(list(w.items()))
        op = {"op": k, "e": rng.randrange(engines)}
        if k == "action":
            op["input"] = value(rng, "In")
        elif k == "bad":
            v = value(rng, "In")
            r = rng.random()
            if r < 0.3:
                v["x"] = "seven"
            elif r < 0.6:
                del v["k"]
            elif r < 0.8:
                v["arr"] = [1, None]
            else:
                v = 3
            op["input"] = v
        elif k == "merge":
            op["one"] = rng.choice(["tally", "value"])
            op["a"] = value(rng, next(t for t in T if T[t] == doc["output"]))
            op["b"] = value(rng, next(t for t in T if T[t] == doc["output"]))
        out.append(op)
    return out
