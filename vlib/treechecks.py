"""C15: one data tree in memory, recovered and reloaded."""
import json, os, random
from .core import SPEC
from .smallchecks import need, run_replays

W = 2048


def graph(ctx, N):
    """the abstract block/prune/recover graph: view -> [(op, view')]"""
    cfg = open(os.path.join(SPEC, "DataTree_MC.cfg")).read()
    f = ctx.path("dt", "edges%d.ndjson" % N)
    ctx.tlc("DataTree_MC", workers=4, timeout=1800, label="graph N=%d" % N, env={"OUT": f},
            cfg_text=cfg.replace("N = 6", "N = %d" % N).replace("Emit = FALSE", "Emit = TRUE")
            .replace("KillAny = TRUE", "KillAny = FALSE") + "VIEW View\n")
    g = {}
    for l in open(f):
        a, o, b = json.loads(json.loads(l))
        if o[0] != "recover":
            g.setdefault(tuple(a), set()).add((tuple(o[:3]), tuple(b)))
    return {k: sorted(v) for k, v in g.items()}


def walks(g, R, limit=None):
    """walks from the start that together take every edge"""
    start = (1, 0, 0, 0, 0)
    todo = {(a, o, b) for a in g for o, b in g[a]}
    out = []
    reach = {}

    def left(a):                                 # edges not yet taken reachable from a (memoised per walk)
        if a not in reach:
            reach[a] = sum(1 for o, b in g.get(a, ()) if (a, o, b) in todo) + \
                sum(left(b) for o, b in g.get(a, ()) if b != a)
        return reach[a]
    while todo and (limit is None or len(out) < limit):
        a, w = start, []
        reach.clear()
        while g.get(a):
            fresh = [(o, b) for o, b in g[a] if (a, o, b) in todo]
            if fresh and (R.random() < .8 or all(b == a or not left(b) for o, b in g[a])):
                o, b = R.choice(fresh)
            else:
                c = [(o, b) for o, b in g[a] if b != a and left(b)]
                if not c:
                    break
                o, b = R.choice(c)
            todo.discard((a, o, b))
            w.append((o, b))
            a = b
            if len(w) > 40:
                break
        out.append(w)
    return out, len(todo)


def concrete(walk, seed, sizes, twin):
    """a plan that follows a walk"""
    R = random.Random(seed)
    buf, block = sizes
    st = []
    n, ev, pr = 0, 0, 0
    live = {}                                     # twig -> active offsets
    lim = R.choice([7, 64, 64, 255])

    def step(op, **kw):
        d = dict(op=op, n=0, t=0, lo=0, hi=0, st=1, dummy=0, twin="")
        d.update(kw)
        st.append(d)

    def app(k, dummy):
        nonlocal n
        if k <= 0:
            return
        step("app", n=k, dummy=dummy)
        if not dummy:
            for s in range(n, n + k):
                live.setdefault(s // W, set()).add(s % W)
        n += k

    def fill(upto):
        dense = R.random() < .15
        while n < upto:
            k = min(upto - n, R.choice([1, 2, 3, 8, 30, 100]))
            app(k, 0)
            if not dense:
                app(min(upto - n, R.choice([20, 60, 200, 400])), 1)

    def kill(t, lo, hi, s):
        nonlocal n
        S = [f for f in live.get(t, ()) if lo <= f <= hi and (f - lo) % s == 0]
        step("kill", t=t, lo=lo, hi=hi, st=s, n=lim)
        live.setdefault(t, set()).difference_update(S)
        pend[0] += len(S)
        k = pend[0] // lim
        n += k
        pend[0] -= k * lim

    def move(t):
        nonlocal n
        step("move", t=t)
        m = sorted(live.get(t, ()))
        live[t] = set()
        for s in range(n, n + len(m)):
            live.setdefault(s // W, set()).add(s % W)
        n += len(m)
        if m:
            pend[0] = 0

    def twins():
        return "".join(c for c in "rl" if R.random() < twin)
    pend = [0]
    fill(W)
    step("end", n=0, t=1, twin=twins())
    cur = (1, 0)
    for o, b in walk:
        y = cur[0]
        if R.random() < .25 and st[-1]["op"] != "back":   # a block that is lost
            save = (n, {t: set(x) for t, x in live.items()})
            fill(n + R.choice([1, 5, 300, 2500]) if y < 9 else n + 5)
            if R.random() < .7:
                t = R.randrange(ev, max(ev + 1, n // W))
                kill(t, 0, W - 1, R.choice([1, 2, 5]))
                app(1, R.randrange(2))
                pend[0] = 0
            if pend[0]:
                app(1, 1)
                pend[0] = 0
            k = 0
            step("back", twin=twins())
            n, live = save
            pend[0] = 0
        if o[0] == "prune":
            pr = o[1]
            step("prune", n=pr, twin=twins())
        else:
            g, k = o[1], o[2]
            for t in range(ev, ev + k):
                if R.random() < .5 and len(live.get(t, ())) < 250:
                    move(t)
                else:
                    kill(t, 0, W - 1, 1)
            for _ in range(R.choice([0, 0, 1, 2])):     # and some of the others
                t = R.randrange(ev + k, n // W + 1)
                kill(t, R.randrange(100), R.randrange(W), R.choice([1, 3, 50, 900]))
            if pend[0]:
                app(1, R.randrange(2))
                pend[0] = 0
            if g == "full":
                tgt = (y + 1) * W
            elif g == "past":
                tgt = (y + 1) * W + R.choice([1, 2, 255, 256, 600, 1200])
            else:
                tgt = min(max(n, y * W + R.choice([1, 2, 300, 511, 512, 700])), (y + 1) * W - 1) if b[1] == 1 else n
            if n > tgt and g == "full":
                return None
            fill(tgt)
            if pend[0]:
                return None
            step("end", n=k, t=1, twin=twins())
            ev += k
        x = R.random()
        if x < .2:
            step("recover")
        elif x < .35:
            step("load")
        if n // W != b[0] or ev != b[2]:
            return None                           # the operations did not fit the twig
        cur = (b[0], b[1])
    return dict(seed=seed, buffer=buf, block=block, maxtwig=n // W + 3, steps=st)


def deep_plan(seed, sizes, tops, only=None, recover=True, twins="rl", ptwin=.12):
    """a tree that grows over many twigs, so that the levels above them come into play: block ends
    at and around every power of two, with a few live records in every twig"""
    R = random.Random(seed)
    st = []
    n, ev, pr = 0, 0, 0
    live = {}

    def step(op, **kw):
        d = dict(op=op, n=0, t=0, lo=0, hi=0, st=1, dummy=0, twin="")
        d.update(kw)
        st.append(d)

    def app(k, dummy):
        nonlocal n
        while k > 0:
            m = min(k, 2048)
            step("app", n=m, dummy=dummy)
            if not dummy:
                for x in range(n, n + m):
                    live.setdefault(x // W, set()).add(x % W)
            n, k = n + m, k - m

    def fill(upto):
        while n < upto:
            app(min(upto - n, R.choice([1, 2, 3])), 0)
            app(min(upto - n, R.choice([500, 900, 1700])), 1)
    offs = [0, 0, 0, 1, W - 1, 255, 700]
    for y in tops:
        tgt = y * W + R.choice(offs)
        if tgt <= n:
            continue
        fill(tgt - 1 if y > 1 else tgt)
        k = 0
        if y > 1:
            # the oldest twigs leave once their records are dead, one of the others loses some
            if R.random() < .7:
                k = min(R.choice([1, 1, 2, 5, 9]), n // W - 1 - ev)
            k = max(0, k)
            for t in list(range(ev, ev + k)) + [R.randrange(ev + k, n // W + 1)]:
                m = [f for f in live.get(t, ()) if f <= (W if t < ev + k else R.randrange(W))]
                if m:
                    step("kill", t=t, lo=min(m), hi=max(m), n=255)
                    live[t] -= set(m)
            app(1, R.randrange(2))
            if n < tgt:
                fill(tgt)
        step("end", n=k, t=1, twin="".join(c for c in twins if recover and R.random() < ptwin))
        ev += k
        if recover:
            if ev - 1 >= pr + 2 and R.random() < .35:
                pr = R.randrange(pr + 2, ev)
                step("prune", n=pr)
            x = R.random()
            if x < .15:
                step("recover")
            elif x < .25:
                step("load")
    return dict(seed=seed, buffer=sizes[0], block=sizes[1], maxtwig=n // W + 2, steps=st, only=only or [])


def deep_tops(R, top, step):
    out = set(range(1, top, step))
    p = 1
    while p <= top:
        out |= {p - 1, p, p + 1}
        p *= 2
    return [y for y in sorted(out) if 1 <= y <= top for _ in range(2 if R.random() < .3 else 1)]


def deeps(ctx, base, count, top, step, only=None, recover=True):
    out = []
    for j in range(count):
        R = random.Random(ctx.seed * base + j)
        out.append(("deep%d" % j, lambda j=j, R=R: deep_plan(ctx.seed * base + 10 + j, SIZES[(base + j) % len(SIZES)],
                                                       deep_tops(R, top, step), only, recover)))
    return out


SIZES = [(4096, 8192), (8192, 16384), (4096, 65536), (32768, 1 << 20), (4096, 4096), (1 << 16, 1 << 17)]


def c15(ctx):
    T = ctx.thorough
    cfg = open(os.path.join(SPEC, "DataTree_MC.cfg")).read()
    ctx.tlc("DataTree_MC", workers=8, timeout=1800, label="N=%d" % (10 if T else 8),
            cfg_text=cfg.replace("N = 6", "N = %d" % (10 if T else 8)).replace(" ProofsOK", " OldProofsOK"))
    R = random.Random(ctx.seed * 1500)
    g = graph(ctx, 10 if T else 8)
    ws, missed = walks(g, R, None if T else 100)
    ctx.cov["graph_edges"] = sum(len(x) for x in g.values())
    ctx.cov["graph_edges_not_walked"] = missed
    plans = []
    for j, w in enumerate(ws):
        p = None
        for a in range(20):
            p = concrete(w, ctx.seed * 100000 + j * 20 + a, SIZES[j % len(SIZES)], .3)
            if p:
                break
        if p:
            plans.append(("walk%d" % j, p))
    ctx.cov["walks"] = len(plans)
    plans = deeps(ctx, 1600, 6 if T else 2, 300 if T else 130, 11) + plans
    run_replays(ctx, "DataTreeReplay", "tree", plans, par=8)
    need(ctx, tree_blocks=700, tree_recoveries=100, tree_loads=80, tree_prunes=60, tree_rollbacks=100, tree_twins_l=200, tree_twins_r=200, tree_proofs=30000)


CHECKS = {"C15": c15}
