"""Seeded search, confirmation, minimisation, replay, evidence."""
import copy
import hashlib
import json
import os
import pickle
import select
import signal
import struct
import subprocess
import sys
import traceback

from . import core, corpus

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def case_rng(prop, seed, idx):
    rng = core.RealRandom("%s/%d/%d" % (prop, seed, idx))
    rng.idx = idx       # what has to be covered evenly goes by the number of the case
    return rng


def sig_hash(x):
    return hashlib.sha256(repr(x).encode()).digest()[:8]


def result_hash(out):
    v = out.get("violation")
    return hashlib.sha256(json.dumps([out.get("result"), out.get("events"), v and v.get("kind")],
                                     sort_keys=True, default=repr).encode()).hexdigest()[:16]


class Out(object):
    pass


def titus_origin(err):
    """True when the failure arose inside titus (not in the harness or a callback of the harness)."""
    while err is not None:
        last = None
        for fr in traceback.extract_tb(err.__traceback__):
            if fr.filename == "<string>" or fr.filename.startswith(core._TITUS):
                last = "titus"
            elif fr.filename.startswith(VERIF + os.sep):
                last = "harness"
        if last == "titus":
            return True
        err = err.__cause__
    return False


def run_case(mod, case):
    """Execute one case; a harness error is returned, never confused with a violation."""
    if "prefix_cases" in case:
        case = dict(case)
        for c in case.pop("prefix_cases"):
            run_case(mod, c)
    try:
        out = mod.execute(case)
    except core.SimKill:
        return {"harness_error": "SimKill escaped"}
    except core.TooLong:
        return {"violation": None, "result": "abandoned", "events": 0, "probe": {"abandoned_too_long": 1}}
    except BaseException as err:
        core.CUR = None
        if isinstance(err, Exception) and titus_origin(err):
            at = [fr.name for fr in traceback.extract_tb(err.__traceback__) if fr.filename.startswith(core._TITUS)]
            return {"violation": {"kind": "internal-failure:%s:%s:%s" % (type(err).__name__, at[-1] if at else "", str(err).split(": ")[-1][:40]),
                                  "msg": "titus failed where it must not: " + traceback.format_exc()[-2500:]},
                    "result": None, "events": None}
        return {"harness_error": traceback.format_exc()}
    finally:
        core.CUR = None
    return out


def in_child(fn, timeout):
    """Run fn() in a forked child; returns (status, value): ok | timeout | died."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
        except OSError:
            pass
        os.close(r)
        code = 0
        try:
            data = pickle.dumps(fn())
            with os.fdopen(w, "wb") as f:
                f.write(data)
        except BaseException:
            traceback.print_exc()
            code = 3
        sys.stdout.flush()
        sys.stderr.flush()
        os._exit(code)
    os.close(w)
    buf = b""
    deadline = core.real_monotonic() + timeout
    status = "ok"
    while True:
        left = deadline - core.real_monotonic()
        if left <= 0:
            status = "timeout"
            break
        rd, _, _ = select.select([r], [], [], left)
        if not rd:
            continue
        chunk = os.read(r, 1 << 16)
        if not chunk:
            break
        buf += chunk
    os.close(r)
    if status == "timeout":
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    os.waitpid(pid, 0)
    if status == "ok":
        if not buf:
            return "died", None
        return "ok", pickle.loads(buf)
    return status, None


CASE_TIMEOUT = 60.0


def exec_isolated(mod, case, timeout=CASE_TIMEOUT):
    if hasattr(mod, "far"):
        corpus.pristine(mod.far, True)      # once for all children
    st, out = in_child(lambda: run_case(mod, case), timeout)
    if st != "ok":
        corpus.forget()
    if st == "timeout":
        return {"violation": {"kind": "hang", "msg": "the run did not finish within %g s of processor time although every simulated fault had stopped" % timeout},
                "result": None, "events": None}
    if st == "died":
        return {"harness_error": "the process running the case died"}
    return out


# ---------------------------------------------------------------- worker pool

def worker(mod, prop, seed, tier, wid, nworkers, ncases, deadline, fd, first):
    out = os.fdopen(fd, "wb")

    def send(obj):
        data = pickle.dumps(obj)
        out.write(struct.pack(">I", len(data)) + data)
        out.flush()
    corpus.forget()
    idx = first
    while idx < ncases:
        if core.real_monotonic() > deadline:
            break
        send(("start", idx))
        case = None
        try:
            case = make_case(mod, prop, seed, tier, idx)
        except BaseException:
            send(("error", idx, traceback.format_exc()))
            idx += nworkers
            continue
        r = run_case(mod, case)
        if "harness_error" in r:
            send(("error", idx, r["harness_error"]))
        else:
            msg = {"idx": idx, "probe": r.get("probe", {}), "faults": r.get("faults", {}),
                   "sig": sig_hash(r.get("sig")), "nontrivial": bool(r.get("nontrivial")),
                   "events": r.get("events", 0) or 0, "sim_time": r.get("sim_time", 0.0),
                   "ops": r.get("ops", 0), "rh": result_hash(r), "violation": r.get("violation"),
                   "known": r.get("known", [])}
            if idx % 97 == 3 and not r.get("violation"):
                r2 = run_case(mod, json.loads(json.dumps(case)))
                msg["repeat_same"] = ("harness_error" not in r2 and result_hash(r2) == msg["rh"]
                                      and sig_hash(r2.get("sig")) == msg["sig"])
            if idx < 3 * nworkers:
                msg["sample"] = mod.sample(case, r) if hasattr(mod, "sample") else default_sample(case, r)
            send(("done", msg))
        idx += nworkers
    send(("end",))
    out.close()


def default_sample(case, r):
    s = {k: case[k] for k in case if k in ("threads", "history", "schedule", "share", "profile", "faults", "ops")}
    s["result"] = r.get("result")
    txt = json.dumps(s, default=repr)
    return json.loads(txt) if len(txt) < 3000 else txt[:3000]


def make_case(mod, prop, seed, tier, idx):
    fixed = mod.fixed(tier) if hasattr(mod, "fixed") else []
    if idx < len(fixed):
        c = copy.deepcopy(fixed[idx])
        return c
    return mod.generate(case_rng(prop, seed, idx), tier)


class Pool(object):
    def __init__(self, mod, prop, seed, tier, ncases, budget, nworkers):
        self.mod, self.prop, self.seed, self.tier = mod, prop, seed, tier
        self.ncases, self.nworkers = ncases, nworkers
        self.t0 = core.real_monotonic()
        self.deadline = self.t0 + budget
        self.done = []
        self.errors = []
        self.stuck = []
        self.procs = {}

    def start(self, wid, first):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in list(self.procs):
                try:
                    os.close(fd)
                except OSError:
                    pass
            try:
                worker(self.mod, self.prop, self.seed, self.tier, wid, self.nworkers, self.ncases, self.deadline, w, first)
            except BrokenPipeError:
                pass            # the pool has stopped
            except BaseException:
                traceback.print_exc()
            sys.stdout.flush()
            sys.stderr.flush()
            os._exit(0)
        os.close(w)
        self.procs[r] = {"pid": pid, "wid": wid, "buf": b"", "cur": None, "since": core.real_monotonic(), "ended": False}

    def run(self, stop):
        for w in range(self.nworkers):
            self.start(w, w)
        while self.procs:
            rd, _, _ = select.select(list(self.procs), [], [], 1.0)
            now = core.real_monotonic()
            for fd in rd:
                p = self.procs[fd]
                chunk = os.read(fd, 1 << 16)
                if not chunk:
                    os.close(fd)
                    del self.procs[fd]
                    os.waitpid(p["pid"], 0)
                    if not p["ended"] and p["cur"] is not None:
                        self.errors.append((p["cur"], "worker died while running this case"))
                        self.start(p["wid"], p["cur"] + self.nworkers)
                    continue
                p["buf"] += chunk
                while len(p["buf"]) >= 4:
                    n, = struct.unpack(">I", p["buf"][:4])
                    if len(p["buf"]) < 4 + n:
                        break
                    msg = pickle.loads(p["buf"][4:4 + n])
                    p["buf"] = p["buf"][4 + n:]
                    p["since"] = now
                    if msg[0] == "start":
                        p["cur"] = msg[1]
                    elif msg[0] == "done":
                        self.done.append(msg[1])
                        p["cur"] = None if msg[1]["idx"] == p["cur"] else p["cur"]
                        if stop(msg[1]):
                            self.kill()
                            return
                    elif msg[0] == "error":
                        self.errors.append((msg[1], msg[2]))
                        p["cur"] = None
                    else:
                        p["ended"] = True
            for fd, p in list(self.procs.items()):
                if p["cur"] is not None and now - p["since"] > CASE_TIMEOUT:
                    os.kill(p["pid"], signal.SIGKILL)
                    os.close(fd)
                    del self.procs[fd]
                    os.waitpid(p["pid"], 0)
                    self.stuck.append(p["cur"])
                    if len(self.stuck) >= 2:
                        self.kill()
                        return
                    self.start(p["wid"], p["cur"] + self.nworkers)

    def kill(self):
        for fd, p in self.procs.items():
            try:
                os.kill(p["pid"], signal.SIGKILL)
            except OSError:
                pass
            os.close(fd)
            os.waitpid(p["pid"], 0)
        self.procs = {}


# ---------------------------------------------------------------- known findings

def load_known(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    data = json.load(open(path))
    return [f for f in data.get("findings", []) if f["property"] == prop]


def is_known(known, violation):
    """A finding is identified by the exact signature the check computes for the failing call site."""
    sig = violation.get("signature")
    if sig is None:
        return None
    for f in known:
        if f["signature"] == sig:
            return f
    return None


def with_prefix(mod, prop, seed, tier, idx, nworkers):
    """The failing case preceded by the last 1, 2, 4, ... cases its worker had run before it."""
    case = make_case(mod, prop, seed, tier, idx)
    before = list(range(idx % nworkers, idx, nworkers))
    k = 1
    out = {}
    while before:
        c = dict(case)
        c["prefix_cases"] = [make_case(mod, prop, seed, tier, i) for i in before[-k:]]
        out = exec_isolated(mod, c, timeout=240.0)
        if out.get("violation") is not None:
            return c, out
        if k >= len(before):
            break
        k *= 2
    return case, out


# ---------------------------------------------------------------- minimisation

def minimise(mod, case, violation, budget):
    """Greedy reduction; every accepted step still violates the property in the same way."""
    deadline = core.real_monotonic() + budget
    kind = violation["kind"]
    tried = 0

    def fails(c):
        o = exec_isolated(mod, c, timeout=30.0)
        v = o.get("violation")
        return (v is not None and v["kind"] == kind), o

    best, bestout = case, None
    while best.get("prefix_cases") and core.real_monotonic() < deadline:
        for i in range(len(best["prefix_cases"])):
            cand = dict(best)
            cand["prefix_cases"] = best["prefix_cases"][:i] + best["prefix_cases"][i + 1:]
            tried += 1
            ok, o = fails(cand)
            if ok:
                best, bestout = cand, o
                break
            if core.real_monotonic() > deadline:
                break
        else:
            break
    if hasattr(mod, "shrink"):
        progress = True
        while progress and core.real_monotonic() < deadline:
            progress = False
            for cand in mod.shrink(best):
                if core.real_monotonic() > deadline:
                    break
                tried += 1
                ok, o = fails(cand)
                if ok:
                    best, bestout = cand, o
                    progress = True
                    break
    # the schedule: make it explicit, then drop switches
    if "schedule" in best:
        ok, o = fails(best)
        if ok and o.get("schedule"):
            exp = copy.deepcopy(best)
            exp["schedule"] = o["schedule"]
            ok2, o2 = fails(exp)
            if ok2:
                best, bestout = exp, o2
                sw = list(best["schedule"]["switches"])
                chunk = max(1, len(sw) // 2)
                while chunk >= 1 and core.real_monotonic() < deadline:
                    i, removed = 0, False
                    while i < len(sw) and core.real_monotonic() < deadline:
                        cand = copy.deepcopy(best)
                        cand["schedule"]["switches"] = sw[:i] + sw[i + chunk:]
                        tried += 1
                        ok3, o3 = fails(cand)
                        if ok3:
                            sw = cand["schedule"]["switches"]
                            best, bestout = cand, o3
                            removed = True
                        else:
                            i += chunk
                    if not removed or chunk > 1:
                        if chunk == 1 and not removed:
                            break
                        chunk = chunk // 2 if chunk > 1 else (1 if removed else 0)
    if bestout is None:
        ok, bestout = fails(best)
    return best, bestout, tried


def write_replay(prop, case, out, orig, seed, idx):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "seed": seed, "index": idx, "violation": out.get("violation"),
            "result_hash": result_hash(out), "case": case, "original_case": orig}
    name = "%s-%s.json" % (prop, hashlib.sha256(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12])
    path = os.path.join(d, name)
    with open(path, "w") as f:
        json.dump(body, f, indent=1, sort_keys=True)
    return path


def replay_fresh(path):
    """Run the replay file in a fresh process; returns (reproduced, output)."""
    p = subprocess.run([os.path.join(VERIF, "bin", "replay"), path], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=300)
    return p.returncode == 1, p.stdout.decode("utf-8", "replace")


# ---------------------------------------------------------------- the check

def check(mod, prop, tier, seed):
    t0 = core.real_monotonic()
    plan = mod.PLAN[tier]
    nworkers = int(os.environ.get("VERIF_WORKERS", "0")) or max(2, min(8, os.cpu_count() or 2))
    known = load_known(prop)
    known_seen = {}
    hits = []

    def stop(msg):
        for k in msg.get("known", []):
            f = is_known(known, k)
            if f is not None:
                known_seen[f["signature"]] = known_seen.get(f["signature"], 0) + 1
            else:
                msg["violation"] = msg["violation"] or k
        v = msg.get("violation")
        if v is None:
            return False
        f = is_known(known, v)
        if f is not None:
            known_seen[f["signature"]] = known_seen.get(f["signature"], 0) + 1
            return False
        hits.append(msg)
        return True

    if hasattr(mod, "prepare"):
        mod.prepare(tier)
    pool = Pool(mod, prop, seed, tier, int(os.environ.get("VERIF_CASES", plan["cases"])), float(os.environ.get("VERIF_BUDGET", plan["budget"])), nworkers)
    pool.run(stop)
    search_s = core.real_monotonic() - t0

    replay = None
    violation = None
    notes = []
    candidates = [(m["idx"], m["violation"]) for m in hits]
    for idx in pool.stuck:
        candidates.append((idx, {"kind": "hang", "msg": "no progress"}))
    minimised = 0
    for idx, v in sorted(candidates, key=lambda c: c[0])[:3]:
        case = make_case(mod, prop, seed, tier, idx)
        out = exec_isolated(mod, case)
        if out.get("violation") is None:
            for kv in out.get("known", []):
                if is_known(known, kv) is None:
                    out["violation"] = kv
                    break
        if out.get("violation") is None:
            # something left behind by earlier runs of the same process: replay those as well
            case, out = with_prefix(mod, prop, seed, tier, idx, nworkers)
        if out.get("violation") is None:
            notes.append("case %d failed in the search (%s) and not when re-run alone: %s" % (idx, v, out.get("harness_error")))
            continue
        best, bout, minimised = minimise(mod, case, out["violation"], plan.get("minimise", 60))
        if bout.get("violation") is None:
            best, bout = case, out
        violation = bout["violation"]
        replay = write_replay(prop, best, bout, case, seed, idx)
        ok, text = replay_fresh(replay)
        notes.append("replay in a fresh process: " + ("reproduced" if ok else "NOT reproduced: " + text[-400:]))
        if ok:
            break
    rep = [m for m in pool.done if "repeat_same" in m]
    probes, faults = {}, {}
    for m in pool.done:
        for k, n in m["probe"].items():
            probes[k] = probes.get(k, 0) + n
        for k, n in m["faults"].items():
            faults[k] = faults.get(k, 0) + n
    nontriv = [m for m in pool.done if m["nontrivial"]]
    wall = core.real_monotonic() - t0
    n = len(pool.done)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": round(wall, 2),
        "violations": 1 if violation else 0,
        "coverage": {
            "evaluations": n,
            "distinct_nontrivial": len({(m["sig"], m["rh"]) for m in nontriv}),
            "rule": mod.RULE,
            "samples": [m["sample"] for m in sorted(pool.done, key=lambda m: m["idx"]) if "sample" in m][:3],
            "simulated_runs": n,
            "seeds_per_hour": int(n * 3600 / max(search_s, 0.001)),
            "simulated_seconds": round(sum(m["sim_time"] for m in pool.done), 3),
            "scheduling_steps": sum(m["events"] for m in pool.done),
            "operations": sum(m["ops"] for m in pool.done),
            "distinct_interleavings": len({m["sig"] for m in pool.done}),
            "interleaving_measure": getattr(mod, "MEASURE", "hash of the ordered sequence of (thread, synchronisation point) of the run"),
            "distinct_outcomes": len({m["rh"] for m in pool.done}),
            "faults_injected": dict(sorted(faults.items())),
            "probes": dict(sorted(probes.items())),
            "determinism_rechecks": len(rep),
            "determinism_failures": sum(1 for m in rep if not m["repeat_same"]),
            "harness_errors": len(pool.errors),
            "stuck_cases": len(pool.stuck),
            "minimisation_steps": minimised,
            "workers": nworkers,
            "components_real": getattr(mod, "REAL", []),
            "components_simulated": getattr(mod, "STUB", []),
            "known_findings_seen": known_seen,
            "notes": notes,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=repr)
        f.write("\n")
    print("%s %s: %d runs (%d/h), %d distinct non-trivial, %d interleavings, faults %s, %d known, %.1f s" % (
        prop, tier, n, ev["coverage"]["seeds_per_hour"], ev["coverage"]["distinct_nontrivial"],
        ev["coverage"]["distinct_interleavings"], json.dumps(faults, sort_keys=True), len(known_seen), wall))
    for nte in notes:
        print("note: " + nte)
    if ev["coverage"]["determinism_failures"]:
        print("note: %d of %d re-runs differed" % (ev["coverage"]["determinism_failures"], len(rep)))
    for idx, text in pool.errors[:3]:
        print("HARNESS-ERROR case %d: %s" % (idx, text))
    for f in known:
        if known_seen.get(f["signature"]):
            print("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    if violation is not None:
        print("violation: " + json.dumps(violation, default=repr)[:3000])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if pool.errors:
        # more than an isolated glitch: the machinery gives no verdict
        print("%d harness errors in %d runs" % (len(pool.errors), n))
        return 2
    if candidates:
        print("an unconfirmed failure was seen; no verdict")
        return 2
    if n == 0:
        print("nothing was explored")
        return 2
    return 0


def replay(mod, prop, path):
    body = json.load(open(path))
    if hasattr(mod, "prepare"):
        mod.prepare("quick")
    out = exec_isolated(mod, body["case"], timeout=120.0)
    if "harness_error" in out:
        print("HARNESS-ERROR: " + out["harness_error"])
        return 2
    v = out.get("violation")
    if v is None and out.get("known"):
        want = (body.get("violation") or {}).get("signature")
        v = next((k for k in out["known"] if k.get("signature") == want), None)
    if v is None:
        print("replay of %s: the property held" % path)
        return 0
    same = result_hash(out) == body.get("result_hash")
    print("violation: " + json.dumps(v, default=repr)[:4000])
    print("identical to the recorded run: %s" % same)
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1
