"""Count the bytecodes each corpus document's calls take: corpus/steps.json (documents too long to preempt are not drawn)."""
import copy, json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import core, corpus
from sim.world import titus
core.install() if hasattr(core, "install") else None
T = titus()
part, of = int(sys.argv[1]), int(sys.argv[2])
for i, o in enumerate(corpus.load()):
    if i % of != part: continue
    core.begin_case(1)
    try:
        with core.virtual_time():
            d = corpus.Driver(T.PFAEngine.fromJson(copy.deepcopy(o["doc"]))[0])
            sim = core.Sim({"kind": "explicit", "switches": []}, max_events=3000000)
            sim.spawn(lambda th: [d.call(c) for c in o["calls"]])
            sim.run()
        print(i, sim.events // max(1, len(o["calls"])), flush=True)
    except Exception as e:
        print(i, -1, repr(e)[:100], flush=True)
