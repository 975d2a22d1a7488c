"""Plan families for the ADS replay: which histories are run against the real code."""
import json, random
from .plans import PlanGen

SMALL = dict(DefaultHPFileSize=65536, HPFileBufferSize=4096, StartReapThres=10, MinKeptTwigs=2)


def graph_edges(ctx, n):
    with ctx.lock:
        if n not in ctx.graphs:
            ctx.graphs[n] = _graph_edges(ctx, n)
        return ctx.graphs[n]


def _graph_edges(ctx, n):
    f = ctx.path("graph%d" % n, "edges.ndjson")
    r = ctx.tlc("ADSGraph", env={"OUT": f}, workers=2, label="graph N=%d" % n, timeout=900,
                cfg_text="SPECIFICATION Spec\nCONSTANT N = %d\nVIEW View\nINVARIANT ChainOK\nCHECK_DEADLOCK FALSE\n" % n)
    edges = {}
    for l in open(f):
        a, o, b = json.loads(json.loads(l))
        edges.setdefault(tuple(a), {})[tuple(o)] = tuple(b)
    assert sum(len(v) for v in edges.values()) == 10 ** n, "edge cover incomplete"
    return edges


def edge_walk(edges, R):
    """A walk from the empty state over every edge (greedy, shortest hops to the next unvisited edge)."""
    todo = {a: sorted(es) for a, es in edges.items()}
    for l in todo.values():
        R.shuffle(l)
    cur = tuple(0 for _ in next(iter(edges)))
    walk, left = [], sum(len(v) for v in todo.values())
    while left:
        if not todo[cur]:
            # one hop reaches every state here; prefer the state with most unvisited edges
            best = max(todo, key=lambda a: len(todo[a]))
            o = R.choice(sorted(o for o, b in edges[cur].items() if b == best))
        else:
            o = todo[cur].pop()
            left -= 1
        walk.append(o)
        cur = edges[cur][o]
    return walk


def edges_plan(ctx, seed, n=3, compare=(), arm="", reopen_every=0, history=False, keys=None, hist_every=0, h_off=0,
               max_steps=None):
    """Every block shape over n keys, on a key population with neighbours and other shards."""
    edges = graph_edges(ctx, n)
    g = PlanGen(seed, n, {}, ctx.caps(), compare=compare, arm=arm, history=history, proofs=n + 2, h_off=h_off)
    if keys:
        g.keys = keys
    walk = edge_walk(edges, g.R)
    for i, o in enumerate(walk[:max_steps] if max_steps else walk):
        per = []
        for k, c in enumerate(o, 1):
            v = g.val()
            per.append({0: [], 1: [[k, v]], 2: [[k, -1]], 3: [[k, v], [k, -1]], 4: [[k, -1], [k, v]]}[c])
        ops = []
        while any(per):                              # any interleaving of the keys' operations
            q = g.R.choice([p for p in per if p])
            ops.append(q.pop(0))
        g.block(n, ops=ops, pprep=0.4)
        if reopen_every and i % reopen_every == reopen_every - 1:
            g.reopen()
        if hist_every and i % hist_every == hist_every - 1:
            g.hist(12)
    return g.plan()


def keyset(kind, n, R):
    if kind == "tight":        # consecutive keys, one shard, next to the start guard
        return [bytes(7) + bytes([i]) for i in range(1, n + 1)]
    if kind == "top":          # consecutive keys below the end guard
        return [bytes([255] * 7 + [255 - n + i]) for i in range(n)]
    if kind == "shards":       # one prefix, every shard
        return [bytes([100] * 7 + [(i * 37 + 5) % 256]) for i in range(n)] if n <= 6 else None
    return None


def sorted_keys(kind, n, R):
    k = keyset(kind, n, R)
    return sorted(k) if k else None


def wide_plan(ctx, seed, n=160, blocks=300, sizes=(60, 160, 200), pdel=.1, shards=(0, 3), knobs=None,
              compare=(), arm="", reopen=20, prune=0, prune_lag=15, prune_from=100, history=False, hist=0,
              h_off=0, toggle_hist=False, pmulti=.2, double_reopen=False, tail=0, proofs=6):
    """Large blocks that roll twigs over, compact, optionally prune; restarts in between."""
    g = PlanGen(seed, n, dict(SMALL, **(knobs or {})), ctx.caps(), shards=list(shards) if shards else None,
                compare=compare, arm=arm, history=history, h_off=h_off, proofs=proofs)
    for b in range(blocks):
        g.block(g.R.choice(sizes), pdel=pdel, pmulti=pmulti)
        if reopen and b % reopen == reopen - 1:
            g.reopen(hist=g.R.random() < .5 if toggle_hist else None, kvc=bool(hist) and g.R.random() < .4)
            if double_reopen:
                g.reopen()
        if prune and b >= prune_from and b % prune == prune - 1:
            if g.R.random() < .5:
                g.prune_at(g.R.choice([0, 1, 1, 2]), g.R.choice([-1, 0, 0, 1]))
            else:
                g.prune(max(1, g.h - g.R.choice([1, prune_lag, 2 * prune_lag])))
            if g.R.random() < .5:
                g.reopen()
        if hist and b % hist == hist - 1:
            g.hist(60)
    for _ in range(tail):
        g.block(3)
    return g.plan()


def runs_plan(ctx, seed, compare, n=40, blocks=70, reopen=0):
    """Whole runs of neighbours inserted, deleted and changed at once, up to the guards."""
    g = PlanGen(seed, n, SMALL, ctx.caps(), compare=compare, dense=seed % 2 == 0)
    R = g.R
    for b in range(blocks):
        ops = []
        for _ in range(R.choice([1, 1, 2, 3])):
            a = R.choice([1, R.randint(1, n), n - R.randrange(4)])
            z = R.choice([n, min(n, a + R.randrange(12)), a])
            kind = R.choice(["ins", "del", "mix", "chg", "alt"])
            for k in range(a, z + 1):
                d = kind == "del" or (kind == "mix" and R.random() < .5) or (kind == "alt" and k % 2)
                if kind == "chg" and k not in g.live:
                    continue
                ops.append([k, -1 if d else g.val()])
                if R.random() < .1:
                    ops.append([k, -1 if R.random() < .5 else g.val()])
        if R.random() < .3:
            R.shuffle(ops)
        g.block(len(ops), ops=ops, pprep=.3)
        if b == blocks // 2:                # empty the database once
            g.block(n, ops=[[k, -1] for k in range(1, n + 1)])
        if reopen and b % reopen == reopen - 1:
            g.reopen()
    return g.plan()


def pruned_hist_plan(ctx, seed, compare, above=False):
    """History queries at or below the prune height, before and after restarts."""
    g = PlanGen(seed, 60, SMALL, ctx.caps(), compare=compare, history=True, shards=[0, 3])
    R = g.R
    ph = 0
    for b in range(260):
        g.block(R.choice([60, 80, 120]), pdel=.2)
        if b % 40 == 39:
            ph = max(ph, g.h - R.choice([3, 30]))
            g.prune(ph if R.random() < .7 else max(1, ph - 9))
            if R.random() < .6:
                g.reopen(kvc=R.random() < .5)
        if ph and b % 4 == 0:
            q = [[R.randint(1, 60), R.choice([ph, ph - 1, R.randint(0, ph), R.randint(0, ph)])] for _ in range(15)]
            if above:
                q += [[R.randint(1, 60), R.randint(ph + 1, g.h + 1)] for _ in range(15)]
            g.steps.append(dict(op="hist", h=g.h, q=q))
    return g.plan()


def mass_plan(ctx, seed, compare, n=230, blocks=24, shards=(4,), arm="", reopen=0, history=False):
    """Blocks that delete (and re-create) very many keys of one shard: full deactivation lists."""
    g = PlanGen(seed, n, SMALL, ctx.caps(), shards=list(shards), compare=compare, arm=arm, history=history)
    R = g.R
    for b in range(blocks):
        frac = R.choice([.3, .6, .64, .66, 1])
        ks = [k for k in range(1, n + 1) if R.random() < frac]
        if b % 2 == 0:
            ops = [[k, g.val()] for k in ks]
        else:
            live = sorted(g.live)
            m = R.choice([64, 65, 66, 67, 130, 132, len(live), R.randint(1, n)])
            a = R.randrange(max(1, len(live) - m + 1))
            ops = [[k, -1] for k in live[a:a + m]]
        g.block(0, ops=ops)
        if reopen and b % reopen == reopen - 1:
            g.reopen()
        if history and b % 4 == 3:
            g.hist(40)
    return g.plan()


def cold_plan(ctx, seed, compare, n=460, cold=240, grow=95, drain=40, shards=None, arm="", reopen=0, history=False,
              hist=0, prune=0, knobs=None, proofs=6):
    """Old records that stay: cold keys spread over several twigs (no compaction yet: too few live keys), then,
    above the threshold, one twig with dozens of live records is moved in each block - with pending
    deactivation lists of chosen lengths, among them exactly full ones."""
    sh = list(shards or [seed % 8])
    g = PlanGen(seed, n, dict(SMALL, **dict(dict(StartReapThres=cold + 110), **(knobs or {}))), ctx.caps(), shards=sh,
                compare=compare, arm=arm, history=history, proofs=proofs)
    R = g.R
    lo = R.choice([1, n - cold + 1, (n - cold) // 2])            # the cold keys are a contiguous range
    C = list(range(lo, lo + cold))
    H = [k for k in range(1, n + 1) if k not in set(C)]
    warm = H[:90]
    g.block(0, ops=[[k, g.val()] for k in warm])
    for b in range(grow):                                      # fills twigs with rewritten records
        ops = [[k, g.val()] for k in warm for _ in range(1 + (R.random() < .05))]
        new = [k for k in C if k not in g.live]
        ops += [[k, g.val()] for k in R.sample(new, min(len(new), R.choice([0, 2, 4, 6])))]
        if b == grow - 1:
            ops += [[k, g.val()] for k in C if k not in g.live]
        R.shuffle(ops)
        g.block(0, ops=ops, pprep=.2)
        if reopen and b % reopen == reopen - 1:
            g.reopen()
    g.block(0, ops=[[k, g.val()] for k in H if k not in g.live])    # above the threshold now
    dele = []
    for b in range(drain):
        if dele or b % 3 == 2:
            ops = [[k, g.val()] for k in dele] + [[k, g.val()] for k in R.sample(H, R.randint(0, 40)) if k not in dele]
            if b % 3 == 2:
                ops += [[k, g.val()] for k in R.sample(warm, 60)]
            dele = []
        else:
            run = [k for k in H if k > C[-1]] if lo < n // 3 else [k for k in H if k < C[0]]
            m = R.choice([62, 63, 64, 65, 66, 64, 129, 64])
            m = min(m, len(run))
            a = R.randrange(len(run) - m + 1)
            dele = run[a:a + m]
            ops = [[k, -1] for k in dele]
        g.block(0, ops=ops, dh=1 if R.random() < .7 else None)
        if reopen and b % reopen == reopen - 1:
            g.reopen()
        if prune and b % prune == prune - 1:
            g.prune_at(R.choice([0, 1, 1, 2, 3]), R.choice([-1, 0, 0, 1]))
        if hist and b % hist == hist - 1:
            g.hist(60)
    return g.plan()


def prune_top_plan(ctx, seed):
    """History queries around the current height while everything up to it, or beyond it, has been pruned."""
    g = PlanGen(seed, 40, SMALL, ctx.caps(), compare=["rec"], history=True, shards=[0, 3])
    R = g.R
    ph = 0
    for b in range(90):
        g.block(R.choice([5, 30, 60]), pdel=.2, dh=R.choice([1, 1, 2, 6]))
        if b % 9 == 8:
            ph = max(ph, g.h + R.choice([0, 0, 1, 3, 9, -1]))
            g.prune(ph)
            if R.random() < .4:
                g.reopen()
        q = [[R.randint(1, 40), h] for h in (g.h, g.h, g.h - 1, g.h + 1, ph, ph + 1, ph - 1) for _ in range(4) if h >= 0]
        g.steps.append(dict(op="hist", h=g.h, q=q))
    return g.plan()


def prune_kvc_plan(ctx, seed, above=True):
    """Prunes at heights of recent blocks, lets the key-value engine throw away what it may, and asks about
    every key at heights around the prune height."""
    g = PlanGen(seed, 50, SMALL, ctx.caps(), compare=["rec"], history=True, shards=[1, 3])
    R = g.R
    ph, hs = 0, []
    for b in range(120):
        g.block(R.choice([3, 10, 30]), pdel=.25)
        hs.append(g.h)
        if b % 6 == 5:
            ph = max(ph, hs[-R.choice([1, 2, 2, 3, 5])] + R.choice([0, 0, 0, 1, -1]))
            g.prune(ph)
            g.reopen(kvc=R.random() < .9)
            for q in [ph - 1, ph, ph + 1, ph + 2] + hs[-3:]:
                if above or q <= ph:
                    g.steps.append(dict(op="hist", h=g.h, q=[[k, q] for k in range(1, 51)]))
    return g.plan()
