"""C10 (rabbit store), C11 (layered stores), C12 (readers and the writer)."""
import hashlib, json, os, random
from concurrent.futures import ThreadPoolExecutor
from .core import ToolError, SPEC
from . import families
from .smallchecks import need, run_replays


# ------------------------------------------------------------------ C10
def rb_path(key, ks, n):
    out, h = [], hashlib.sha256(key).digest()
    for _ in range(n):
        out.append(bytes([h[0] % 128 + 64]) + h[1:ks])
        h = hashlib.sha256(h).digest()
    return out


def rb_keys(R, n, ks):
    """n keys; with 2-byte slots, keys that share their first slot."""
    def rnd():
        return R.randbytes(R.choice([1, 2, 3, 8, 20, 32, 32, 52, 200]))
    if ks == 2:
        groups = {}
        while True:
            k = rnd()
            g = groups.setdefault(rb_path(k, 2, 1)[0], [])
            if k not in g:
                g.append(k)
            if sum(len(x) for x in groups.values() if len(x) > 1) >= n:
                break
        ks_ = [k for g in groups.values() if len(g) > 1 for k in g]
        return ks_[:n]
    s = {b""}
    while len(s) < n:
        s.add(rnd())
    return sorted(s)


def rb_plan(seed, n, ks, txs, nops, stack, hist=False, cache="none", limit=1000, waves=True, reopen=.06, cyc=6):
    R = random.Random(seed)
    keys = rb_keys(R, n, ks)
    ids, paths = {}, []
    for k in keys:
        paths.append([ids.setdefault(s, len(ids) + 1) for s in rb_path(k, ks, 100 if ks == 1 else 8)])
    steps, live, saved, rootlive, open_trunk, h, v = [], set(), set(), set(), False, 0, 0
    hs = [0]
    for t in range(txs):
        if open_trunk and R.random() < .35:
            end = "wb" if R.random() < .8 else "drop"
            if end == "wb":
                h += R.choice([1, 1, 3])
                hs.append(h)
                rootlive = set(live)
            else:
                live = set(rootlive)
            steps.append(dict(op="trunk", on="", end=end, h=h, ops=[]))
            open_trunk = False
            if hist and R.random() < .3:
                for _ in range(3):
                    steps.append(dict(op="past", on="", end="", h=max(0, R.choice(hs) + R.choice([0, 0, 0, -1, 1])), ops=[]))
        if not open_trunk and stack == "real" and R.random() < reopen:
            steps.append(dict(op="reopen", on="", end="", h=h, ops=[]))
        on = "trunk" if open_trunk or R.random() < .75 else "root"
        end = "wb" if R.random() < .8 else "drop"
        ops, now = [], set(live)
        wave = (0, 1, 1, 2)[(t // cyc) % 4] if waves else 1         # grow, churn, shrink
        last = waves and t % (4 * cyc) == 4 * cyc - 1
        if last:
            end = "wb"
            ops = [[2, k, 0] for k in range(1, n + 1)]
            R.shuffle(ops)
            now = set()
        else:
            for _ in range(R.choice(nops)):
                x = R.random()
                k = R.randint(1, n)
                if x < .25:
                    ops.append([3, k, 0])
                elif x < (.4, .65, .93)[wave]:
                    if now and R.random() < .8:
                        k = R.choice(sorted(now))
                    ops.append([2, k, 0])
                    now.discard(k)
                else:
                    v += 1
                    ops.append([1, k, v if R.random() < .95 else 0])
                    now.add(k)
        if on == "root" and end == "wb":
            h += 1
            hs.append(h)
        steps.append(dict(op="tx", on=on, end=end, h=h, ops=ops))
        if on == "trunk":
            open_trunk = True
        if end == "wb":
            live = now
            if on == "root":
                rootlive = set(now)
        if last and open_trunk:
            h += 1
            hs.append(h)
            rootlive = set(live)
            steps.append(dict(op="trunk", on="", end="wb", h=h, ops=[]))
            open_trunk = False
    return dict(n=n, keys=[k.hex() for k in keys], slots=len(ids), path=paths, stack=stack, hist=hist, cache=cache,
                limit=limit, seed=seed, steps=steps)


def c10(ctx):
    T = ctx.thorough
    cfg = open(os.path.join(SPEC, "Rabbit_MC.cfg")).read()
    ctx.tlc("Rabbit_MC", workers=8, timeout=3000, label="K=3 all collision shapes", cfg_text=cfg)
    if T:
        ctx.tlc("Rabbit_MC", workers=8, timeout=3000, label="K=3 two values",
                cfg_text=cfg.replace("Vals = {1}", "Vals = {1, 2}").replace("C = 3", "C = 2"))
    S = ctx.seed * 1000
    for ks in (1, 2, 8):
        ctx.driver(ks)
    jobs = []
    emit = cfg.replace("Emit = FALSE", "Emit = TRUE").replace("BackOK", "") + "VIEW View\n"
    for K in (3, 4):
        f = ctx.path("g%d" % K, "edges.ndjson")
        ctx.tlc("Rabbit_MC", workers=4, timeout=3000, label="graph K=%d" % K, env={"OUT": f}, cfg_text=emit.replace("K = 3", "K = %d" % K))
        for i in range(8):
            jobs.append(("graph%d-%d" % (K, i), f, i))

    def one(j):
        ctx.drive(["rabbitgraph", j[1], "@WORK", str(j[2]), "8"], j[0], timeout=800, keysize=1)
        ctx.cleanup(j[0])
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(one, jobs))
    ctx.cov["traces_validated_against_impl"] += ctx.cov.get("counts", {}).get("shapes", 0)
    p1, p2, p8 = [], [], []
    m = 4 if T else 1
    for r in range(2 * m):
        p1.append(("dense%d" % r, rb_plan(S + r, 60, 1, 220, (3, 10, 25), "mock", cyc=9)))
        p1.append(("full%d" % r, rb_plan(S + 10 + r, 100, 1, 130, (20, 50, 90), "real", hist=r % 2 == 0, cache="some", limit=5, cyc=5)))
        p1.append(("few%d" % r, rb_plan(S + 20 + r, 12, 1, 300, (1, 2, 4), "real", hist=r % 2 == 1, cache="all", limit=3)))
        p2.append(("two%d" % r, rb_plan(S + 30 + r, 30, 2, 220, (2, 6, 15), "real", hist=r % 2 == 0, cache=("none", "all")[r % 2])))
        p8.append(("eight%d" % r, rb_plan(S + 40 + r, 40, 8, 160, (2, 6, 15), "real", hist=r % 2 == 1, cache=("all", "some")[r % 2])))
    run_replays(ctx, "RabbitReplay", "rabbit", p1, keysize=1, par=6)
    run_replays(ctx, "RabbitReplay", "rabbit", p2, keysize=2)
    run_replays(ctx, "RabbitReplay", "rabbit", p8, keysize=8)
    ctx.assumptions.append("slots are narrowed to 1 and 2 bytes by a build overlay so that keys collide; with 8-byte slots no colliding keys can be found")
    need(ctx, edges=6000, shapes=60, collided_reads=3000, deep_reads=120, transactions=1000, emptied=60, reopens=10, past_views=20)


CHECKS = dict(C10=c10)


# ------------------------------------------------------------------ C16
def par_plan(seed, n, ks, rounds, ntx, nops, stack, cache="none", limit=1000):
    """Rounds of transactions that run side by side; TLC finds out which of them are in conflict."""
    R = random.Random(seed)
    keys = rb_keys(R, n, ks)
    ids, paths = {}, []
    for k in keys:
        paths.append([ids.setdefault(s, len(ids) + 1) for s in rb_path(k, ks, 100 if ks == 1 else 8)])
    steps, h, v, op = [], 0, 0, False
    for t in range(rounds):
        wave = (0, 1, 1, 2)[(t // 9) % 4]
        txs = []
        for _ in range(R.choice(ntx)):
            ops = []
            hot = R.sample(range(1, n + 1), min(n, R.choice([2, 3, 6])))     # a transaction comes back to its keys
            for _ in range(R.choice(nops)):
                k = R.choice(hot)
                x = R.random()
                if x < .3:
                    ops.append([3, k, 0])
                elif x < (.45, .65, .9)[wave]:
                    ops.append([2, k, 0])
                else:
                    v += 1
                    ops.append([1, k, v])
            txs.append(ops)
        steps.append(dict(op="round", end="", h=0, txs=txs))
        op = True
        if R.random() < .25:
            h += R.choice([1, 1, 3])
            steps.append(dict(op="trunk", end="wb" if R.random() < .8 else "drop", h=h, txs=[]))
    steps.append(dict(op="trunk", end="wb", h=h + 1, txs=[]))
    return dict(n=n, keys=[k.hex() for k in keys], slots=len(ids), path=paths, slotbytes=[s.hex() for s in ids],
                stack=stack, hist=False, cache=cache, limit=limit, seed=seed, steps=steps)


def c16(ctx):
    T = ctx.thorough
    cfg = open(os.path.join(SPEC, "RabbitPar_MC.cfg")).read()
    for ks in (1, 2, 8):
        ctx.driver(ks)
    S = ctx.seed * 1000
    p1, p2, p8 = [], [], []
    pr = [("race", par_plan(S + 50, 60, 1, 60, (3, 4), (2, 4), "real", cache="some", limit=5))]      # run with the race detector
    ctx.driver(1, True)
    for r in range(8 if T else 2):
        p1.append(("dense%d" % r, par_plan(S + r, 50, 1, 150, (2, 3, 4), (1, 2, 4), "mock")))
        p1.append(("thin%d" % r, par_plan(S + 10 + r, 16, 1, 150, (2, 3), (1, 2, 5), "real", cache="some", limit=5)))
        p1.append(("full%d" % r, par_plan(S + 20 + r, 95, 1, 90, (2, 2, 3), (1, 3, 9), "real", cache="all", limit=3)))
        p2.append(("two%d" % r, par_plan(S + 30 + r, 30, 2, 150, (2, 3, 5), (1, 3, 6), "real", cache=("none", "all")[r % 2])))
        p8.append(("eight%d" % r, par_plan(S + 40 + r, 25, 8, 150, (2, 3, 5), (1, 3, 6), "real", cache=("all", "some")[r % 2])))

    def model():
        ctx.tlc("RabbitPar_MC", workers=4, timeout=3000, label="all pairs of transactions", cfg_text=cfg)
        if not ctx.tlc("RabbitPar_MC", workers=2, timeout=600, label="held slots alone are not enough", expect_violation=True,
                       cfg_text=cfg.replace("SideBySideOK", "HeldIsEnough"))["violated"]:
            raise ToolError("the weaker rule is not refuted")
        if T:
            ctx.tlc("RabbitPar_MC", workers=6, timeout=3400, label="all pairs of two operations each", cfg_text=cfg.replace("L2 = 1", "L2 = 2"))
    with ThreadPoolExecutor(5) as ex:
        jobs = [ex.submit(model), ex.submit(run_replays, ctx, "RabbitParReplay", "rabbitpar", p1, 4, keysize=1),
                ex.submit(run_replays, ctx, "RabbitParReplay", "rabbitpar", p2, 2, keysize=2),
                ex.submit(run_replays, ctx, "RabbitParReplay", "rabbitpar", pr, 2, race=True, env={"GORACE": "halt_on_error=1"}, keysize=1),
                ex.submit(run_replays, ctx, "RabbitParReplay", "rabbitpar", p8, 2, keysize=8)]
        for j in jobs:
            j.result()
    ctx.assumptions.append("slots are narrowed to 1 and 2 bytes by a build overlay so that keys collide")
    need(ctx, rounds=800, written_back=1200, in_conflict=200, slots_changed=2000, paths=2000, stopped_scans=500)


CHECKS["C16"] = c16


# ------------------------------------------------------------------ C11
def st_plan(seed, nraw, nrab, txs, steps_n, hist=False, cache="all", cache2="none", limit=3, replica=True, lag=3,
            on_root=False, overlap=True, sides=True):
    R = random.Random(seed)
    n = nraw + nrab
    keys = set()
    while len(keys) < nraw:
        b = bytearray(R.randbytes(8))
        b[0] = R.choice([1, 2, 40, 63, 192, 200, 254])
        if R.random() < .5:
            b[1:6] = b"\x09" * 5
        keys.add(bytes(b))
    keys = sorted(keys)
    R.shuffle(keys)
    keys += [R.randbytes(R.choice([1, 8, 20, 52])) + bytes([i]) for i in range(nrab)]
    st = {t: None for t in range(1, txs + 1)}    # None | dict(state, on, ro, w, changed)
    steps, h, v, trunk, hs, side = [], 0, 0, None, [0], None
    E = dict(t=0, k=0, v=0, h=0, on="", ro=False, ops=[], how=0)

    def add(op, **kw):
        steps.append(dict(E, op=op, **kw))

    def side_step():                              # the side trunk comes and goes at any time
        nonlocal side, v
        if side is None:
            side = "ro" if R.random() < .6 else "rw"
            add("sopen", ro=side == "ro")
        elif R.random() < .12:
            for t, x in st.items():
                if x and x["on"] == "side":
                    if x["state"] == "open":
                        add("close", t=t)
                    add("drop", t=t)
                    st[t] = None
            add("sdrop")
            side = None
        else:
            v += 9
            add("raw", on="side", ops=rawops(R, nraw, v))

    def rabk():
        return nraw + R.randint(1, nrab)

    def close_all():
        for t, x in st.items():
            if x and x["state"] == "open":
                add("close", t=t, how=R.randrange(2))
                x["state"] = "closed"

    def finish(t):                                # write a closed transaction back or drop it
        nonlocal h
        x = st[t]
        if x["ro"] or R.random() < .25:
            if x["ro"] and R.random() < .5:
                add("illegal", t=t, h=h + 1)
            add("drop", t=t)
            st[t] = None
            return
        if x["on"] == "root":
            h += 1
            hs.append(h)
            add("back", t=t, h=h)
        else:
            add("back", t=t)
            for y in st.values():
                if y and y is not x and y["on"] == x["on"]:
                    y["changed"] |= x["w"]
        st[t] = None

    def end_trunk():
        nonlocal h, trunk
        close_all()
        for t in R.sample(list(st), len(st)):
            if st[t] and st[t]["on"] == "trunk":
                if R.random() < .8:
                    finish(t)
                else:
                    st[t] = None
        for t in list(st):
            if st[t] and st[t]["on"] == "side" and R.random() < .5:
                finish(t)
            elif st[t] and st[t]["on"] in ("root", "side"):
                add("drop", t=t)
                st[t] = None
        if trunk == "ro" and R.random() < .7:
            add("illegal", h=h + 1)
        if trunk == "rw" and R.random() < .8:
            h += R.choice([1, 1, 1, 4])
            hs.append(h)
            add("tback", h=h, how=R.randrange(2))
        else:
            add("tdrop")
        trunk = None

    while len(steps) < steps_n:
        x = R.random()
        if sides and R.random() < .06:
            side_step()
            continue
        if trunk is None:
            if x < .1:
                close_all()
                for t in st:
                    if st[t]:
                        add("drop", t=t)
                        st[t] = None
                add("reopen")
                side = None
            elif x < .35 and on_root:             # one writer directly on the root, with readers around it
                t, u = R.sample(range(1, txs + 1), 2) if txs > 1 else (1, 0)
                if st[t] or (u and st[u]):
                    continue
                add("begin", t=t, on="root", ro=False)
                if u:
                    add("begin", t=u, on="root", ro=True)
                for _ in range(R.choice([1, 3, 8])):
                    k = rabk()
                    v += 1
                    z = R.random()
                    w = R.choice([t, t, u or t])
                    add(*(("get",) if z < .3 else ("del",) if z < .5 else ("set",)), t=w, k=k, v=v)
                if u:
                    add("close", t=u)
                    add("drop", t=u)
                add("close", t=t)
                if R.random() < .75:
                    h += 1
                    hs.append(h)
                    add("back", t=t, h=h, how=R.randrange(2))
                else:
                    add("drop", t=t, how=R.randrange(2))
            elif x < .45 and on_root:
                close_all()
                for t in st:
                    if st[t]:
                        finish(t)
                h += 1
                hs.append(h)
                v += 1
                add("raw", on="root", h=h, ops=rawops(R, nraw, v))
                v += 8
            elif x < .3 and hist:
                for _ in range(3):
                    add("past", h=max(0, R.choice(hs) + R.choice([0, 0, -1, 1])))
            else:
                trunk = "ro" if R.random() < .12 else "rw"
                add("topen", ro=trunk == "ro")
            continue
        if x < .04:
            end_trunk()
        elif x < .12:
            v += 1
            o = rawops(R, nraw, v)
            v += 8
            add("raw", on="trunk", ops=o)
        elif x < .14 and hist:
            add("past", h=max(0, R.choice(hs) + R.choice([0, 0, -1, 1])))
        else:
            t = R.randint(1, txs)
            y = st[t]
            if y is None:
                if not overlap and any(z for z in st.values()):
                    continue
                on = "root" if R.random() < .15 else "side" if side and R.random() < .25 else "trunk"
                st[t] = dict(state="open", on=on, ro=on == "root" or R.random() < .2, w=set(), changed=set())
                add("begin", t=t, on=on, ro=st[t]["ro"])
            elif y["state"] == "closed":
                if y["on"] == "root" and any(z and z["state"] == "open" for z in st.values()):
                    close_all()
                finish(t)
            elif R.random() < .13:
                add("close", t=t, how=R.randrange(2))
                y["state"] = "closed"
            else:
                k = rabk()
                z = R.random()
                if z < .3:
                    add("get", t=t, k=k)
                elif z < .5:
                    if k in y["w"] or k not in y["changed"]:
                        add("del", t=t, k=k)
                        y["w"].add(k)
                else:
                    v += 1
                    add("set", t=t, k=k, v=R.choice([v, v, v, v, v, v, 1, 1, 2, 0]))
                    y["w"].add(k)
    end_trunk() if trunk else None
    return dict(n=n, keys=[k.hex() for k in keys], raw=nraw, txs=txs, hist=hist, cache=cache, cache2=cache2, limit=limit,
                replica=replica and not on_root, lag=lag, seed=seed, steps=steps)


def rawops(R, nraw, v):
    ops = []
    for j in range(R.choice([1, 2, 3, 6])):
        k = R.randint(1, nraw)
        for _ in range(R.choice([1, 1, 2])):
            ops.append([k, -1 if R.random() < .35 else R.choice([v + j, v + j, 1, 2])])
    return ops


def c11(ctx):
    T = ctx.thorough
    cfg = open(os.path.join(SPEC, "Stores_MC.cfg")).read()
    ctx.tlc("Stores_MC", workers=8, timeout=3000, label="2 transactions, 1 operation each", cfg_text=cfg.replace("MaxOps = 2", "MaxOps = 1"))
    ctx.tlc("Stores_MC", workers=8, timeout=3000, label="1 transaction", cfg_text=cfg.replace("T = 2", "T = 1"))
    ctx.tlc("Stores_MC", workers=8, timeout=3000, label="1 transaction, side trunk",
            cfg_text=cfg.replace("T = 2", "T = 1").replace("MaxOps = 2", "MaxOps = 1").replace("WithSide = FALSE", "WithSide = TRUE"))
    if T:
        ctx.tlc("Stores_MC", workers=8, timeout=6000, heap="20g", label="2 transactions, 2 operations each", cfg_text=cfg)
    S = ctx.seed * 1100
    plans = []
    caches = ("none", "all", "some", "shards")
    for r in range(8 if T else 2):
        for j in range(8):
            plans.append(("st%d-%d" % (r, j), lambda r=r, j=j: st_plan(
                S + 10 * r + j, (6, 14)[j % 2], (8, 5)[j % 2], (1, 2, 3, 4)[j % 4], 700, hist=j % 3 == 0, cache=caches[(j + r) % 4],
                cache2=caches[(j * 3 + r + 1) % 4], limit=(0, 1, 3, 8, 100)[(j + r) % 5], lag=(0, 3)[r % 2], on_root=j % 4 == 3)))
    run_replays(ctx, "StoresReplay", "stores", plans, par=6)
    need(ctx, steps=5000, raw_reads=50000, reads=50000, tx_reads=1500, blocks=150, side_reads=5000, replica_blocks=100, refusals=60, past_views=100, reopens=10)


CHECKS["C11"] = c11


# ------------------------------------------------------------------ C12
def rd_plan(seed, **kw):
    R = random.Random(seed)
    d = dict(seed=seed, raw=20, rab=40, blocks=50, readers=6, workers=4, perBlk=20, filler=200, hist=True, cache=True,
             limit=20, procs=8, pause=200, events=14000, onRoot=True)
    d.update(kw)
    return d


def c12(ctx):
    T = ctx.thorough
    cfg = open(os.path.join(SPEC, "Readers.cfg")).read()
    ctx.tlc("Readers", workers=4, timeout=3000, label="2 readers")
    for a in ("EarlyUnlock", "LossyHints"):       # the invariants can fail
        if not ctx.tlc("Readers", workers=4, timeout=600, label="wrong protocol: " + a, expect_violation=True,
                       cfg_text=cfg.replace(a + " = FALSE", a + " = TRUE"))["violated"]:
            raise ToolError("the wrong protocol %s passes" % a)
    if T:
        ctx.tlc("Readers", workers=8, timeout=6000, label="3 readers, 3 blocks",
                cfg_text=cfg.replace("{r1, r2}", "{r1, r2, r3}").replace("MaxBlk = 2", "MaxBlk = 3"))
    ctx.driver()
    ctx.driver(race=True)
    S = ctx.seed * 1200
    jobs = []
    shapes = [dict(), dict(hist=False, limit=2, filler=1500, blocks=30, pause=50), dict(readers=12, workers=8, procs=4, cache=False),
              dict(procs=2, filler=20, pause=1000, blocks=60), dict(raw=60, rab=8, perBlk=60, workers=16, filler=0),
              dict(readers=3, workers=2, perBlk=4, filler=600, pause=2000, procs=3)]
    for r in range(6 if T else 2):
        for j, kw in enumerate(shapes):
            jobs.append(("rd%d-%d" % (r, j), rd_plan(S + 10 * r + j, **kw), False))
        for j, kw in enumerate(shapes[:3]):
            jobs.append(("race%d-%d" % (r, j), rd_plan(S + 10 * r + j + 5, **dict(kw, blocks=25)), True))

    def one(j):
        name, plan, race = j
        pf, tf = ctx.path(name, "plan.json"), ctx.path(name, "trace.ndjson")
        json.dump(plan, open(pf, "w"))
        before = len(ctx.violations)
        ctx.drive(["readers", pf, tf, "@WORK"], name, timeout=600, race=race, env={"GORACE": "halt_on_error=1"})
        if len(ctx.violations) == before:
            ctx.validate("ReadersTrace", tf, name, show=lambda r: r["depth"] + 1)
        ctx.cleanup(name)
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(one, jobs))
    # many goroutines prepare the same and neighbouring keys: nothing is lost
    plans = []
    for r in range(6 if T else 3):
        for race in (False, True):
            p = families.wide_plan(ctx, S + 70 + r, n=(60, 300, 1000)[r % 3], blocks=12 if race else 40, sizes=(40, 300, 600), pdel=.4,
                                   shards=None, compare=["rec", "chain", "root"], reopen=20)
            for s in p["steps"]:
                if s["op"] == "block":
                    s["par"], s["dup"] = (32, 16, 64)[r % 3], (2, 1, 3)[r % 3]
            plans.append(("prep%d%s" % (r, "r" if race else ""), p, race))

    def prep(x):
        name, p, race = x
        pf, of = ctx.expect("ADSReplay", p, name, timeout=900)
        ctx.drive(["ads", pf, of, "@WORK"], name, timeout=900, race=race, env={"GORACE": "halt_on_error=1"})
        ctx.cleanup(name)
        ctx.cov["traces_validated_against_impl"] += 1
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(prep, plans))
    need(ctx, ev_read=60000, ev_opened=5000, ev_wb=400, ev_past=5000, ev_hash=4000)


CHECKS["C12"] = c12
