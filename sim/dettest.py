"""dettest PROP N: every case twice in one process and once in a fresh child; hashes must agree."""
import hashlib, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core
core.install()
from sim import runner, registry
prop, n = sys.argv[1], int(sys.argv[2])
registry.warm(prop)
mod = registry.load(prop)
if hasattr(mod, "prepare"): mod.prepare("quick")
bad, all_ = 0, hashlib.sha256()
for idx in range(n):
    c = runner.make_case(mod, prop, 1, "quick", idx)
    hs = []
    for k in range(3):
        c2 = json.loads(json.dumps(c))
        o = runner.run_case(mod, c2) if k < 2 else runner.exec_isolated(mod, c2)
        hs.append((runner.result_hash(o), runner.sig_hash(o.get("sig")), o.get("events"), o.get("harness_error")))
    all_.update(repr(hs[0]).encode())
    if len(set(hs)) != 1:
        bad += 1
        print(idx, hs)
print("different:", bad, "of", n, all_.hexdigest()[:16])
os._exit(0)
