"""Linearizability checking (Wing & Gong with memoisation), one object at a time."""
import json


class Op(object):
    __slots__ = ("tid", "inv", "res", "apply", "result", "label", "idx")

    def __init__(self, tid, inv, res, apply, result, label):
        self.tid = tid
        self.inv = inv
        self.res = res
        self.apply = apply      # state -> list of (result, newstate) allowed outcomes
        self.result = result    # canonical observed result, or ANY
        self.label = label


ANY = object()
ABSENT = "<absent>"


def canon(x):
    return json.dumps(x, sort_keys=True)


class TooBig(Exception):
    pass


def check(ops, init, limit=300000):
    """Returns (ok, witness_or_None, explored).  ``init`` is a JSON-able state."""
    n = len(ops)
    if n == 0:
        return True, [], 0
    ops = sorted(ops, key=lambda o: (o.inv, o.res))
    for i, o in enumerate(ops):
        o.idx = i
    full = (1 << n) - 1
    seen = set()
    explored = [0]
    best = [0, None]

    # iterative DFS
    stack = [(0, init, ())]
    while stack:
        mask, state, order = stack.pop()
        if mask == full:
            return True, [ops[i].label for i in order], explored[0]
        key = (mask, canon(state))
        if key in seen:
            continue
        seen.add(key)
        explored[0] += 1
        if explored[0] > limit:
            raise TooBig()
        if len(order) > best[0] or best[1] is None:
            best = [len(order), order]
        # minimal response among the remaining
        minres = min(o.res for o in ops if not mask & (1 << o.idx))
        nxt = []
        for o in ops:
            if mask & (1 << o.idx) or o.inv > minres:
                continue
            for result, new in o.apply(state):
                if o.result is ANY or result is ANY or canon(result) == canon(o.result):
                    nxt.append((mask | (1 << o.idx), new, order + (o.idx,)))
        stack.extend(reversed(nxt))
    done = best[1] or ()
    stuck = [ops[i].label for i in range(n) if i not in done]
    return False, {"longest_prefix": [ops[i].label for i in done], "cannot_place": stuck}, explored[0]
