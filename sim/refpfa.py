"""A small executable reference model of PFA semantics (independent of titus).

It interprets, straight from the JSON document, the subset of PFA that the scenario generators
emit: state (cells, pools, tally), control flow, user functions, errors, try, emit, log, timeouts,
rollback.  Everything titus does in a simulated history must match what this model allows.
"""
import copy


class Err(Exception):
    """An error inside PFA evaluation.  kind: user | runtime | timeout | fault | callback"""

    def __init__(self, kind, code=None, message=None):
        Exception.__init__(self, kind, code, message)
        self.kind = kind
        self.code = code
        self.message = message

    def sig(self):
        return (self.kind, self.code)


class Interrupt(Err):
    """The host interrupts the evaluation; a document cannot catch that."""


class TooLong(BaseException):
    """The generated program is too long for the reference model; the case is abandoned."""


class Env(object):
    __slots__ = ("vars", "parent")

    def __init__(self, parent=None):
        self.vars = {}
        self.parent = parent

    def get(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.parent
        raise KeyError(n)

    def set(self, n, v):
        e = self
        while e is not None:
            if n in e.vars:
                e.vars[n] = v
                return
            e = e.parent
        raise KeyError(n)


def untag(v):
    if isinstance(v, dict) and (list(v) == ["int"] or list(v) == ["Rec"]):
        return list(v.values())[0]
    return v


def is_int32(x):
    return -2 ** 31 <= x <= 2 ** 31 - 1


class Fn(object):
    def __init__(self, params, body, env, model):
        self.params = params
        self.body = body
        self.env = env
        self.model = model

    def __call__(self, *args):
        m = self.model
        m.point()
        e = Env(self.env)
        for p, a in zip(self.params, args):
            e.vars[p] = a
        out = m.block(self.body, e)
        m.point()
        return out


class Ref(object):
    """The reference engine."""

    def __init__(self, doc, options=None):
        self.doc = doc
        self.cells = {n: copy.deepcopy(c["init"]) for n, c in doc.get("cells", {}).items()}
        self.pools = {n: copy.deepcopy(c["init"]) for n, c in doc.get("pools", {}).items()}
        self.method = doc.get("method", "map")
        self.tally = copy.deepcopy(doc.get("zero"))
        self.started = 0
        self.finished = 0
        self.emits = []
        self.logs = []
        opts = dict(doc.get("options", {}))
        opts.update(options or {})
        base = int(opts.get("timeout", -1))
        self.limits = {k: int(opts.get("timeout." + k, base)) for k in ("begin", "action", "end")}
        self.limits["merge"] = self.limits["action"]
        self.timeout = -1
        self.instance = 0
        self.eager_at = None      # a timeout may be noticed earlier than at the next loop iteration
        self.eager_valid = False
        self.fcns = doc.get("fcns", {})
        # hooks
        self.cb_emit = None       # called with the value; may raise Err
        self.cb_log = None
        self.now = lambda: 0.0
        # fault enumeration
        self.npoint = 0
        self.fault_at = None
        self.fault_fired = False
        self.interrupt = False    # the fault is an interrupt
        self.loop_checks = 0
        self.steps = 0
        self.probe = {}

    # ------------------------------------------------------------------ helpers

    def hit(self, name):
        self.probe[name] = self.probe.get(name, 0) + 1

    def point(self):
        self.npoint += 1
        if self.eager_at is not None and self.npoint == self.eager_at:
            if self.timeout > 0 and (self.now() - self.t0) * 1000.0 > self.timeout:
                self.eager_valid = True
                raise Err("timeout")
        if self.fault_at is not None and self.npoint == self.fault_at:
            self.fault_fired = True
            raise (Interrupt if self.interrupt else Err)("fault")

    def state(self):
        return {"cells": self.cells, "pools": self.pools, "tally": self.tally,
                "started": self.started, "finished": self.finished}

    def clone(self):
        m = type(self).__new__(type(self))
        m.__dict__.update(self.__dict__)
        m.cells = dict(self.cells)
        m.pools = {k: dict(v) for k, v in self.pools.items()}
        m.emits = list(self.emits)
        m.logs = list(self.logs)
        m.probe = dict(self.probe)
        return m

    def check_time(self):
        self.loop_checks += 1
        if self.timeout > 0 and (self.now() - self.t0) * 1000.0 > self.timeout:
            self.hit("timeout_in_loop")
            raise Err("timeout")

    # ------------------------------------------------------------------ API

    def _symbols(self, env, counters):
        env.vars["name"] = self.doc.get("name", "engine")
        env.vars["instance"] = self.instance
        env.vars["metadata"] = self.doc.get("metadata", {})
        if "version" in self.doc:
            env.vars["version"] = self.doc["version"]
        if counters:
            env.vars["actionsStarted"] = self.started
            env.vars["actionsFinished"] = self.finished

    def _guarded(self, fn):
        """cells and pools that asked for rollback are restored when the call fails"""
        bc = {n: self.cells[n] for n, c in self.doc.get("cells", {}).items() if c.get("rollback")}
        bp = {n: dict(self.pools[n]) for n, c in self.doc.get("pools", {}).items() if c.get("rollback")}
        try:
            return fn()
        except Err:
            self.cells.update(bc)
            self.pools.update(bp)
            if bc or bp:
                self.hit("rolled_back")
            raise

    def begin(self):
        self.timeout = self.limits["begin"]
        self.t0 = self.now()
        if self.doc.get("begin"):
            env = Env()
            self._symbols(env, False)
            self.block(self.doc["begin"], env)

    def end(self):
        self.timeout = self.limits["end"]
        self.t0 = self.now()
        if self.doc.get("end"):
            env = Env()
            self._symbols(env, True)
            if self.method == "fold":
                env.vars["tally"] = self.tally
            self.block(self.doc["end"], env)

    def action(self, inp):
        self.timeout = self.limits["action"]
        self.t0 = self.now()
        self.started += 1

        def body():
            env = Env()
            env.vars["input"] = inp
            self._symbols(env, True)
            if self.method == "fold":
                env.vars["tally"] = self.tally
            last = self.block(self.doc["action"], env)
            if self.method == "fold":
                self.tally = last
            self.finished += 1
            return None if self.method == "emit" else last
        return self._guarded(body)

    def merge(self, one, two):
        self.timeout = self.limits["merge"]
        self.t0 = self.now()

        def body():
            env = Env()
            env.vars["tallyOne"] = one
            env.vars["tallyTwo"] = two
            self._symbols(env, False)
            self.tally = self.block(self.doc["merge"], env)
            return self.tally
        return self._guarded(body)

    # ------------------------------------------------------------------ evaluation

    def block(self, exprs, env):
        if not isinstance(exprs, list):
            exprs = [exprs]
        out = None
        for e in exprs:
            out = self.ev(e, env)
        return out

    def fn(self, spec, env):
        """A function argument: named, partially applied or inline."""
        if "fcn" in spec:
            name = spec["fcn"]
            if name == "emit":
                base = self.emit
            elif name.startswith("u."):
                base = self.userfn(name[2:])
            else:
                base = lambda *a: self.lib(name, list(a), env)
            if "fill" in spec:
                fdef = self.fcns[name[2:]]
                params = [list(p.keys())[0] for p in fdef["params"]]
                fill = {k: self.ev(v, env) for k, v in spec["fill"].items()}

                def filled(*args):
                    args = list(args)
                    full = [fill[p] if p in fill else args.pop(0) for p in params]
                    return base(*full)
                return filled
            return base
        return Fn([list(p.keys())[0] for p in spec["params"]], spec["do"], env, self)

    def userfn(self, name):
        fdef = self.fcns[name]
        return Fn([list(p.keys())[0] for p in fdef["params"]], fdef["do"], None, self)

    def isfn(self, x):
        return isinstance(x, dict) and ("fcn" in x or "params" in x)

    def ev(self, x, env):
        self.point()
        self.steps += 1
        if self.steps > 200000:
            raise TooLong()
        out = self.ev1(x, env)
        self.point()
        return out

    def ev1(self, x, env):
        if x is None or isinstance(x, (bool, int, float)):
            return x
        if isinstance(x, str):
            parts = x.split(".")
            return self.get(env.get(parts[0]), parts[1:], 2000, 2001)
        if isinstance(x, list):
            if len(x) == 1 and isinstance(x[0], str):
                return x[0]
            raise RuntimeError("bad expression %r" % (x,))
        k = x.keys()
        if "let" in k:
            for n, e in x["let"].items():
                env.vars[n] = self.ev(e, env)
            return None
        if "set" in k:
            vals = [(n, self.ev(e, env)) for n, e in x["set"].items()]
            for n, v in vals:
                env.set(n, v)
            return None
        if "do" in k and len(x) == 1:
            return self.block(x["do"], Env(env))
        if "if" in k:
            if self.ev(x["if"], Env(env)):
                r = self.block(x["then"], Env(env))
                return r if "else" in x else None
            elif "else" in x:
                return self.block(x["else"], Env(env))
            return None
        if "cond" in k:
            for c in x["cond"]:
                if self.ev(c["if"], Env(env)):
                    r = self.block(c["then"], Env(env))
                    return r if "else" in x else None
            return self.block(x["else"], Env(env)) if "else" in x else None
        if "foreach" in k:
            arr = self.ev(x["in"], env)
            for item in arr:
                self.check_time()
                e = Env(env)
                e.vars[x["foreach"]] = item
                self.block(x["do"], e)
            return None
        if "forkey" in k:
            mp = self.ev(x["in"], env)
            for key, val in mp.items():
                self.check_time()
                e = Env(env)
                e.vars[x["forkey"]] = key
                e.vars[x["forval"]] = val
                self.block(x["do"], e)
            return None
        if "for" in k:
            e = Env(env)
            for n, i in x["for"].items():
                e.vars[n] = self.ev(i, e)
            while self.ev(x["while"], e):
                self.check_time()
                self.block(x["do"], Env(e))
                for n, i in x["step"].items():
                    e.set(n, self.ev(i, e))
            return None
        if "while" in k:
            while self.ev(x["while"], Env(env)):
                self.check_time()
                self.block(x["do"], Env(env))
            return None
        if "until" in k:
            while True:
                self.check_time()
                self.block(x["do"], Env(env))
                if self.ev(x["until"], Env(env)):
                    break
            return None
        if "cell" in k:
            n = x["cell"]
            path = [self.ev(p, env) for p in self.path(x.get("path", []))]
            if "to" in k:
                to = self.fn(x["to"], env) if self.isfn(x["to"]) else self.ev(x["to"], env)
                new = self.upd(self.cells[n], path, to, 2006, 2007)
                self.cells[n] = new
                return new
            return self.get(self.cells[n], path, 2004, 2005)
        if "pool" in k:
            n = x["pool"]
            p = self.pools[n]
            if "del" in k:
                d = self.ev(x["del"], env)
                if d in p:
                    self.hit("pool_deleted")
                p.pop(d, None)
                return None
            path = [self.ev(q, env) for q in self.path(x["path"])]
            if "to" in k:
                to = self.fn(x["to"], env) if self.isfn(x["to"]) else self.ev(x["to"], env)
                init = self.ev(x["init"], env)
                head, tail = path[0], path[1:]
                if head not in p:
                    self.hit("pool_created")
                base = p[head] if head in p else init
                new = self.upd(base, tail, to, 2010, 2011)
                p[head] = new
                return new
            return self.get(p, path, 2008, 2009)
        if "attr" in k:
            obj = self.ev(x["attr"], env)
            path = [self.ev(p, env) for p in self.path(x["path"])]
            if "to" in k:
                to = self.fn(x["to"], env) if self.isfn(x["to"]) else self.ev(x["to"], env)
                return self.upd(obj, path, to, 2002, 2003)
            return self.get(obj, path, 2000, 2001)
        if "error" in k:
            self.hit("user_error")
            raise Err("user", x.get("code"), x["error"])
        if "try" in k:
            try:
                return self.block(x["try"], Env(env))
            except Err as e:
                flt = x.get("filter")
                if isinstance(e, Interrupt):
                    raise
                if flt is None or (e.message is not None and e.message in flt) or (e.code is not None and e.code in flt):
                    self.hit("caught_" + e.kind)
                    return None
                self.hit("uncaught_" + e.kind)
                raise
        if "log" in k:
            vals = [self.ev(e, env) for e in x["log"]]
            self.log(vals, x.get("namespace"))
            return None
        if "ifnotnull" in k:
            e = Env(env)
            vals = {n: self.ev(v, env) for n, v in x["ifnotnull"].items()}
            if all(v is not None for v in vals.values()):
                for n, v in vals.items():
                    e.vars[n] = untag(v)
                r = self.block(x["then"], e)
                return r if "else" in x else None
            return self.block(x["else"], Env(env)) if "else" in x else None
        if "cast" in k:
            v = self.ev(x["cast"], env)
            v = untag(v)
            for c in x["cases"]:
                if c["as"] == ("null" if v is None else "int" if isinstance(v, int) else "Rec"):
                    e = Env(env)
                    e.vars[c["named"]] = v
                    r = self.block(c["do"], e)
                    return None if x.get("partial") else r
            return None
        if "upcast" in k:
            return self.ev(x["upcast"], env)
        if "doc" in k:
            return None
        if "string" in k:
            return x["string"]
        if "value" in k and "type" in k:
            return copy.deepcopy(x["value"])
        if "new" in k:
            if isinstance(x["new"], list):
                return [self.ev(e, env) for e in x["new"]]
            return {n: self.ev(e, env) for n, e in x["new"].items()}
        if "call" in k:
            nm = self.ev(x["call"], env)
            args = [self.ev(a, env) for a in x["args"]]
            return self.userfn(nm)(*args)
        if len(x) == 1:
            (name, args), = x.items()
            if not isinstance(args, list):
                args = [args]
            if name in ("&&", "||"):
                a = self.ev(args[0], env)
                if name == "&&":
                    return self.ev(args[1], env) if a else False
                return True if a else self.ev(args[1], env)
            vals = [self.fn(a, env) if self.isfn(a) else self.ev(a, env) for a in args]
            if name.startswith("u."):
                return self.userfn(name[2:])(*vals)
            return self.lib(name, vals, env)
        raise RuntimeError("reference model: unknown expression %r" % (x,))

    def path(self, p):
        return p

    def get(self, obj, path, ac, mc):
        for h in path:
            if isinstance(obj, dict):
                if h not in obj:
                    raise Err("runtime", mc, "map key not found")
                obj = obj[h]
            else:
                if h >= len(obj) or h < -len(obj):
                    raise Err("runtime", ac, "array index not found")
                obj = obj[h]
        return obj

    def upd(self, obj, path, to, ac, mc):
        if not path:
            if callable(to):
                return to(obj)
            return to
        h, t = path[0], path[1:]
        if isinstance(obj, dict):
            if t and h not in obj:
                raise Err("runtime", mc, "map key not found")
            return {k: (self.upd(v, t, to, ac, mc) if k == h else v) for k, v in obj.items()}
        if h < 0 or (t and h >= len(obj)):
            raise Err("runtime", ac, "array index not found")
        return [self.upd(v, t, to, ac, mc) if i == h else v for i, v in enumerate(obj)]

    def emit(self, v):
        self.emits.append(v)
        if self.cb_emit is not None:
            self.cb_emit(v)

    def log(self, vals, ns):
        self.logs.append((ns, vals))
        if self.cb_log is not None:
            self.cb_log(vals, ns)

    def lib(self, name, a, env):
        self.point()
        if name == "emit":
            self.emit(a[0])
            return None
        if name in ("+", "-", "*"):
            r = a[0] + a[1] if name == "+" else a[0] - a[1] if name == "-" else a[0] * a[1]
            if not is_int32(r):
                raise Err("runtime", {"+": 18000, "-": 18010, "*": 18020}[name], "int overflow")
            return r
        if name == "//":
            if a[1] == 0:
                raise Err("runtime", 18040, "integer division by zero")
            q = abs(a[0]) // abs(a[1])
            return q if (a[0] < 0) == (a[1] < 0) else -q
        if name == "%":
            if a[1] == 0:
                raise Err("runtime", 18060, "integer division by zero")
            return a[0] % a[1]
        if name == "==":
            return a[0] == a[1]
        if name == "!=":
            return a[0] != a[1]
        if name == "<":
            return a[0] < a[1]
        if name == "<=":
            return a[0] <= a[1]
        if name == ">":
            return a[0] > a[1]
        if name == ">=":
            return a[0] >= a[1]
        if name == "!":
            return not a[0]
        if name == "s.concat":
            return a[0] + a[1]
        if name == "s.len":
            return len(a[0])
        if name == "a.len":
            return len(a[0])
        if name == "a.append":
            return a[0] + [a[1]]
        if name == "a.map":
            return [a[1](v) for v in a[0]]
        if name == "a.filter":
            return [v for v in a[0] if a[1](v)]
        if name == "a.fold":
            acc = a[1]
            for v in a[0]:
                acc = a[2](acc, v)
            return acc
        if name == "a.sum":
            return sum(a[0])
        if name == "a.reverse":
            return list(reversed(a[0]))
        if name == "map.add":
            m = dict(a[0])
            m[a[1]] = a[2]
            return m
        if name == "map.remove":
            m = dict(a[0])
            m.pop(a[1], None)
            return m
        if name == "map.len":
            return len(a[0])
        if name == "map.containsKey":
            return a[1] in a[0]
        raise RuntimeError("reference model: unknown function " + name)
