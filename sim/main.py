import importlib
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from sim import core
    core.install()
    from sim import runner, registry
    cmd = sys.argv[1]
    if cmd == "serve":
        from sim import corpus
        corpus.serve(sys.argv[2], sys.argv[3], int(sys.argv[4]), int(sys.argv[5]))
        return 0
    if cmd == "replay":
        prop = json.load(open(sys.argv[2]))["property"]
    else:
        prop = sys.argv[2]
    registry.warm(prop)
    mod = registry.load(prop)
    if cmd == "replay":
        return runner.replay(mod, prop, sys.argv[2])
    if cmd == "check":
        tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        return runner.check(mod, prop, tier, seed)
    if cmd == "case":
        tier = os.environ.get("VERIF_TIER", "quick")
        seed = int(os.environ.get("VERIF_SEED", "1"))
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        case = runner.make_case(mod, prop, seed, tier, int(sys.argv[3]))
        if "--show" in sys.argv:
            print(json.dumps(case, indent=1))
        out = runner.run_case(mod, case)
        if "harness_error" in out:
            print(out["harness_error"])
        else:
            for k in ("violation", "probe", "result", "faults", "events", "nontrivial"):
                print(k, json.dumps(out.get(k), default=repr)[:6000])
        return 0
    raise SystemExit("unknown command " + cmd)


if __name__ == "__main__":
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
