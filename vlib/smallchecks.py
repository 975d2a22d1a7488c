"""C13: the index."""
import json, random
from concurrent.futures import ThreadPoolExecutor
from .core import ToolError


def need(ctx, **least):
    if ctx.violations:
        return
    c = ctx.cov.get("counts", {})
    for k, n in least.items():
        if c.get(k, 0) < n:
            raise ToolError("vacuous run: %s = %s < %s (%s)" % (k, c.get(k, 0), n, c))


def run_replays(ctx, module, mode, plans, par=4, timeout=800, race=False, env=None, keysize=8):
    ctx.driver(keysize, race)

    def one(x):
        name, p = x[0], x[1]
        if callable(p):
            p = p()
        pf, of = ctx.path(name, "plan.json"), ctx.path(name, "exp.ndjson")
        json.dump(p, open(pf, "w"))
        ctx.tlc(module, env={"PLAN": pf, "OUT": of}, timeout=timeout, label=name)
        ctx.drive([mode, pf, of, "@WORK"], name, timeout=timeout, race=race, env=env, keysize=keysize)
        ctx.cleanup(name)
        ctx.cov["traces_validated_against_impl"] += 1
    with ThreadPoolExecutor(par) as ex:
        list(ex.map(one, plans))


# ------------------------------------------------------------------ C13
def idx_keys(kind, K, R):
    top = (1 << 64) - 1
    if kind == "edges":
        base = [0, 1, 2, 255, 256, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 63) - 1, 1 << 63, (1 << 63) + 1, top - 2, top - 1, top]
        s = set(R.sample(base, min(K, len(base))))
    elif kind == "slots":                        # equal low 48 bits in different slots of the big map
        lows = [R.randrange(1 << 48), 0, (1 << 48) - 1, R.randrange(1 << 20)]
        tops = [0, 1, 2, 3, 0x7fff, 0x8000, 0xfffe, 0xffff] + [R.randrange(1 << 16) for _ in range(K)]
        s = set()
        while len(s) < K:
            s.add(R.choice(tops) << 48 | R.choice(lows))
    elif kind == "low":
        s = set(range(0, K))
    elif kind == "high":
        s = set(top - i for i in range(K))
    elif kind == "dense":
        b = R.randrange(1 << 63)
        s = set(b + i * R.choice([1, 1, 2]) for i in range(3 * K))
        s = set(R.sample(sorted(s), K))
    else:
        s = set()
    while len(s) < K:
        s.add(R.randrange(1 << 64) if R.random() < .7 else R.choice([R.randrange(256) << 56, R.randrange(256), R.randrange(1 << 16) << 24]))
    return sorted(s)


def idx_points(keys):
    """the axis points usable as bounds"""
    top = (1 << 64) - 1
    K = len(keys)
    pts = [2 * k for k in range(1, K + 1)]
    for j in range(K + 1):
        lo = keys[j - 1] + 1 if j else 0
        hi = keys[j] - 1 if j < K else top
        if lo <= hi:
            pts.append(2 * j + 1)
    return sorted(pts)


def idx_plan(seed, K, kind, blocks, hist, all_ranges, nq, per=(0, 1, 2, 3), pdel=.4, hoff=0, poff=0, phases=False):
    R = random.Random(seed)
    keys = idx_keys(kind, K, R)
    pts = idx_points(keys)
    steps, live, h, pv = [], set(), 0, 1
    seen = set()
    for b in range(blocks):
        h += R.choice([1, 1, 2, 7])
        ops = []
        pd = pdel
        ks = list(range(1, K + 1))
        if phases:                               # grow, then shrink from one side: node splits and merges
            pd = .1 if (b // 8) % 2 == 0 else .95
            a = R.randrange(K)
            ks = ks[a:a + R.randint(1, K)] or ks
        for _ in range(R.choice(per)):
            k = R.choice(ks)
            if R.random() < pd:
                if k in live:
                    live.discard(k)
                    ops.append([k, -1])
            else:
                live.add(k)
                pv += 1
                ops.append([k, pv])
        steps.append(dict(op="block", h=h, ops=ops))
        if hist and R.random() < .15:
            steps.append(dict(op="rebuild", kvc=R.random() < .3))
        st = tuple(sorted(live))
        if all_ranges and st not in seen:
            seen.add(st)
            steps.append(dict(op="iter", q=[[a, z, d] for a in pts for z in pts for d in (0, 1)]))
        elif nq:
            q = []
            for _ in range(nq):
                a = R.choice(pts)
                z = R.choice(pts) if R.random() < .5 else pts[min(len(pts) - 1, pts.index(a) + R.randrange(8))]
                q.append([a, z, R.randrange(2)])
            if b % 5 == 0:
                q += [[pts[0], pts[-1], 0], [pts[0], pts[-1], 1]]
            steps.append(dict(op="iter", q=q))
        if hist:
            steps.append(dict(op="hist", q=[[R.randint(1, K), R.randint(0, h + 2), 0] for _ in range(10)]))
    return dict(k=K, keys=[str(x) for x in keys], hist=hist, seed=seed, hOff=hoff, pOff=poff, steps=steps)


def c13(ctx):
    T = ctx.thorough
    cfg = open(__file__.replace("vlib/smallchecks.py", "spec/Index_MC.cfg")).read()
    ctx.tlc("Index_MC", workers=6, timeout=1800, label="K=3", cfg_text=cfg.replace("MaxH = 3", "MaxH = 4") if T else cfg)
    ctx.tlc("Index_MC", workers=6, timeout=1800, label="K=4",
            cfg_text=cfg.replace("K = 3", "K = 4").replace("MaxH = 3", "MaxH = 2").replace("{5, 6}", "{5}"))
    S = ctx.seed * 1300
    plans = []
    for j, kind in enumerate(("edges", "low", "high", "dense", "rand", "slots", "slots", "edges")):
        for r in range(4 if T else 1):
            plans.append(("all-%s%d-%d" % (kind, j, r), idx_plan(S + j + 100 * r, 5, kind, 160, j % 2 == 0, True, 6,
                          hoff=(0, 1 << 40)[j % 2], poff=(0, 1 << 46)[j % 3 == 0])))
    for r in range(6 if T else 2):
        for j, kind in enumerate(("rand", "dense", "slots")):
            plans.append(("big-%s%d" % (kind, r), idx_plan(S + 50 + j + 10 * r, (200, 320)[r % 2], kind, 90, r % 2 == 0, False, 10,
                          per=(1, 30, 120, 200), phases=True)))
    run_replays(ctx, "IndexReplay", "index", plans)
    need(ctx, ranges=4000, range_keys=5000, rebuilds=40, gets=20000, historical_gets=2000)


# ------------------------------------------------------------------ C14
def ef_plan(seed, n, ntok, block, buffer, big):
    R = random.Random(seed)
    steps = []
    for i in range(n):
        x = R.random()
        if x < .72:
            nsn = R.choice([0, 0, 1, 2, 3, 40, 255] if block > 20000 else [0, 0, 1, 2, 5])
            steps.append(dict(op="append", t=[R.randrange(ntok), R.randrange(ntok), R.randrange(ntok)],
                              big=R.choice([0, 0, R.randrange(64), R.randrange(big)]), nsn=nsn, i=0))
        else:
            op = R.choice(["flush", "flush", "read", "read", "scan", "scan", "reopen", "truncate", "prune" if R.random() < .4 else "read"])
            steps.append(dict(op=op, t=[0, 0, 0], big=0, nsn=0, i=R.randrange(1 << 20)))
        if i % 60 == 59:
            steps.append(dict(op="readall", t=[0, 0, 0], big=0, nsn=0, i=0))
            steps.append(dict(op="scan", t=[0, 0, 0], big=0, nsn=0, i=0))
    return dict(buffer=buffer, block=block, seed=seed, steps=steps)


def c14(ctx):
    T = ctx.thorough
    D = __file__.replace("vlib/smallchecks.py", "spec/")
    cfg = open(D + "HPFile_MC.cfg").read()
    ctx.tlc("HPFile_MC", workers=8, timeout=1800, label="depth %d" % (11 if T else 9), cfg_text=cfg.replace("Depth = 6", "Depth = %d" % (11 if T else 9)))
    ctx.driver()
    # behaviours of the specification, replayed byte for byte
    beh = ctx.path("hp", "behaviours.ndjson")
    emit = cfg.replace("Emit = FALSE", "Emit = TRUE").replace("PiecesA", "PiecesB").replace(" VIEW", "").replace("VIEW View\n", "")
    if T:
        emit = emit.replace("Depth = 6", "Depth = 7")
    ctx.tlc("HPFile_MC", workers=4, timeout=1800, label="behaviours", env={"OUT": beh}, cfg_text=emit)
    jobs = []
    for u in ((1, 5, 64, 4096) if T else (3, 512)):
        for i in range(4):
            jobs.append(("hp-u%d-%d" % (u, i), ["hpraw", beh, "@WORK", str(i), "4", str(u), "8", "4"], None, None))
    # real records with embedded markers; positions validated by the specification
    toks = ctx.path("tok", "tokens.ndjson")
    ctx.tlc("Codec", workers=4, timeout=1800, label="bodies", env={"OUT": toks})
    ntok = sum(1 for _ in open(toks))
    S = ctx.seed * 1400
    for j in range(24 if T else 6):
        block, buf, big = [(65536, 8192, 3000), (4096, 4096, 800), (16384, 4096, 1500), (1 << 20, 1 << 19, 270000),
                           (65536, 16384, 9000), (8192, 8192, 1000)][j % 6]
        n = "ef%d" % j
        pl = ef_plan(S + j, 1200 if big < 9000 else 500, ntok, block, buf, big)
        pf, tf = ctx.path(n, "plan.json"), ctx.path(n, "trace.ndjson")
        json.dump(pl, open(pf, "w"))
        jobs.append((n, ["entryfile", pf, toks, tf, "@WORK"], tf, None))
    # a marker at every offset of the value, also where its position has bytes like those of the end mark
    for j, offs in enumerate((list(range(0, 1040)), list(range(65200, 65300)) + list(range(65500, 65560)))):
        n = "mark%d" % j
        steps = []
        for q, o in enumerate(offs):
            steps.append(dict(op="mark", t=[(q * 7 + S) % ntok, 0, (q * 5) % ntok], big=q % 5 * 3, nsn=q % 3, i=o))
            if q % 100 == 99:
                steps.append(dict(op="readall", t=[0, 0, 0], big=0, nsn=0, i=0))
                steps.append(dict(op="scan", t=[0, 0, 0], big=0, nsn=0, i=0))
        steps.append(dict(op="readall", t=[0, 0, 0], big=0, nsn=0, i=0))
        pf, tf = ctx.path(n, "plan.json"), ctx.path(n, "trace.ndjson")
        json.dump(dict(buffer=1 << 17, block=1 << 20, seed=S + j, steps=steps), open(pf, "w"))
        jobs.append((n, ["entryfile", pf, toks, tf, "@WORK"], tf, None))

    def one(j):
        name, args, tf, env = j
        before = len(ctx.violations)
        ctx.drive(args, name, timeout=800)
        if tf and len(ctx.violations) == before:
            ctx.validate("LogTrace", tf, name)
        ctx.cleanup(name)
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(one, jobs))
    c = ctx.cov.get("counts", {})
    ctx.cov["traces_validated_against_impl"] += c.get("behaviours", 0)
    need(ctx, behaviours=15000, records_read=40000, records=3000, scans=100, truncations=30, prunings=10)


CHECKS = dict(C13=c13, C14=c14)
