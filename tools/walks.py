"""Walks along every edge of the state graph of spec/model/Histories.tla."""
import ast, os, random, re
from vlib import *


def edges(keep, disk, l1, top):
    cfg = os.path.join(work(), "hist.cfg")
    open(cfg, "w").write('''SPECIFICATION Spec
VIEW What
CHECK_DEADLOCK FALSE
INVARIANTS RightData Bounded Shared NextPrepared AheadOnce NothingBeyond NeverPartial NoLeftovers UsedStaysMapped
CONSTANTS Mutation = "none" MaxEpoch = %d Keep = %d UseDisk = %s L1 = %s
''' % (top, keep, str(disk).upper(), str(l1).upper()))
    r = tlc(os.path.join(ROOT, "spec/model/Histories.tla"), cfg, timeout=300, twins=False, heap="4g")
    if "Error:" in r.out or r.left:
        raise CheckError("TLC on Histories:\n" + r.out[-3000:])
    g, init = {}, None
    for a, e, b in re.findall(r'<<"EDGE", "([^"]*(?:\\"[^"]*)*)", (\d+), "([^"]*(?:\\"[^"]*)*)">>', r.out):
        g.setdefault(a, {})[int(e)] = b
        if "<<<<>>" in a.replace(" ", ""):
            init = a if init is None or len(a) <= len(init) else init
    return g, init, r


def walks(g, init, limit, rng):
    """Sequences of requests from the initial state that together take every
    edge, none longer than limit (unless a state is further away)."""
    # breadth-first tree, for the way to an edge not yet taken
    path = {init: []}
    todo = [init]
    for s in todo:
        for e, d in sorted(g.get(s, {}).items()):
            if d not in path:
                path[d] = path[s] + [e]
                todo.append(d)
    left = {(s, e) for s in path for e in g.get(s, {})}
    total = len(left)
    out = []

    def near(s, depth):
        """shortest way from s to a state with an edge not yet taken"""
        seen, q = {s}, [(s, [])]
        for x, p in q:
            if any((x, e) in left for e in g.get(x, {})):
                return p
            if len(p) < depth:
                for e, d in g.get(x, {}).items():
                    if d not in seen:
                        seen.add(d)
                        q.append((d, p + [e]))
        return None

    while left:
        start = min(left, key=lambda x: (len(path[x[0]]), x))
        h, s = [], init
        for e in path[start[0]]:
            left.discard((s, e))
            h.append(e)
            s = g[s][e]
        while True:
            open_ = sorted(e for e in g.get(s, {}) if (s, e) in left)
            if open_:
                e = rng.choice(open_)
                left.discard((s, e))
                h.append(e)
                s = g[s][e]
            else:
                p = near(s, limit - len(h) - 1) if len(h) < limit - 1 else None
                if p is None:
                    break
                for e in p:
                    h.append(e)
                    s = g[s][e]
            if len(h) >= limit:
                break
        out.append(h)
    return out, total
