"""Checks C01-C04 and C06-C09: replaying ADS behaviours on the real database."""
from concurrent.futures import ThreadPoolExecutor
import os
from .core import ToolError, SPEC
from .families import *

ALL = ["rec", "chain", "sn", "root", "proof", "height"]

MC_CFG = """SPECIFICATION Spec
CONSTANTS
 N = %(n)d
 TwigSize = %(twig)d
 MinKept = %(kept)d
 StartReap = 3
 Ratio = 2
 PendMax = %(pend)d
 MinPrune = 0
 MaxSteps = %(steps)d
 Values = %(values)s
 Kinds = "%(kinds)s"
 ShardPat = %(pat)d
 WithPrune = %(prune)s
 Rand = %(rand)s
INVARIANTS %(inv)s
CHECK_DEADLOCK FALSE
"""


def mc(ctx, inv, prune=False, sim=True):
    """Model checking of ADS itself: small exhaustive scopes plus long random behaviours."""
    big = ctx.thorough
    runs = [dict(n=2, twig=2, kept=2, pend=2, steps=5 if big else 4, values="{1}", kinds="all", pat=0, rand="FALSE"),
            dict(n=2, twig=2, kept=1, pend=1, steps=4 if big else 3, values="{0, 1}", kinds="all", pat=1, rand="FALSE"),
            dict(n=3, twig=2, kept=1, pend=2, steps=4 if big else 3, values="{1}", kinds="few", pat=2, rand="FALSE")]
    for r in runs:
        ctx.tlc("ADS_MC", workers=4, timeout=1800 if big else 300, label=str({k: r[k] for k in ("n", "pend", "steps", "kinds", "pat")}),
                cfg_text=MC_CFG % dict(r, inv=inv, prune="TRUE" if prune else "FALSE"))
    if sim:
        r = dict(n=4, twig=2, kept=1, pend=3, steps=40, values="{0, 1, 2}", kinds="all", pat=1, rand="TRUE")
        res = ctx.tlc("ADS_MC", workers=4, timeout=900, label="random behaviours of 40 steps",
                      extra=("-simulate", "num=%d" % (600 if big else 12), "-depth", "41", "-seed", str(ctx.seed)),
                      cfg_text=MC_CFG % dict(r, inv=inv, prune="TRUE" if prune else "FALSE"))
        if "is violated" in res["out"] or "Error:" in res["out"]:
            raise ToolError("simulation of ADS_MC failed:\n" + res["out"][-5000:])


def run_plans(ctx, plans, timeout=600):
    """plans: list of (name, thunk or plan [, driver env]).  TLC runs and driver runs in parallel."""
    ctx.driver(); ctx.caps()

    def one(x):
        name, p = x[0], x[1]
        env = x[2] if len(x) > 2 else None
        if callable(p):
            p = p()
        pf, of = ctx.expect("ADSReplay", p, name, timeout=timeout)
        s = ctx.drive(["ads", pf, of, "@WORK"], name, timeout=timeout, env=env)
        ctx.cleanup(name)
        if s:
            ctx.cov["traces_validated_against_impl"] += 1
        return s
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(one, plans))


def need(ctx, **least):
    """Guards against vacuous runs (only meaningful when nothing deviated)."""
    if ctx.violations or ctx.cov.get("deviations_before_feature"):
        return
    c = ctx.cov.get("counts", {})
    for k, n in least.items():
        if c.get(k, 0) < n:
            raise ToolError("vacuous run: %s = %s < %s" % (k, c.get(k, 0), n))


def std_edges(ctx, compare, arm="", kinds=("rand", "tight", "shards"), reopen=0, n=3, **kw):
    out = []
    for j, kind in enumerate(kinds):
        import random
        R = random.Random(ctx.seed * 100 + j)
        out.append(("edges-" + kind, lambda kind=kind, j=j, R=R: edges_plan(
            ctx, ctx.seed * 1000 + j, n, compare, arm, reopen, keys=sorted_keys(kind, n, R),
            h_off=(1 << 33) if j == 1 else 0, **kw)))
    return out


def colds(ctx, base, compare, num, **kw):
    """cold_plan variants; keyword values that are tuples alternate."""
    out = []
    for j in range(num * (4 if ctx.thorough else 1)):
        k2 = {k: v[j % len(v)] if isinstance(v, tuple) else v for k, v in kw.items()}
        out.append(("cold%d" % j, lambda j=j, k2=k2: cold_plan(ctx, ctx.seed * base + 500 + j, compare, **k2)))
    return out


def deep_tree(ctx, base, only, recover=False):
    """one data tree with many twigs: its root and proofs above the first levels"""
    from .smallchecks import run_replays
    from .treechecks import deeps
    run_replays(ctx, "DataTreeReplay", "tree", deeps(ctx, base, 3 if ctx.thorough else 1, 280 if ctx.thorough else 70, 7, only, recover))


def c01(ctx):
    mc(ctx, "LatestOK HeightOK SerialOK")
    plans = std_edges(ctx, ["rec", "height"], kinds=("rand", "tight", "shards", "top"))
    S = range(1, 7 if ctx.thorough else 3)
    for s in S:
        plans.append(("wide%d" % s, lambda s=s: wide_plan(ctx, ctx.seed * 77 + s, n=240, blocks=80, sizes=(1, 5, 40, 120),
                      pdel=.3, pmulti=.5, shards=None, compare=["rec", "height"], reopen=0, h_off=s % 2 << 40)))
    plans.append(("mass", lambda: mass_plan(ctx, ctx.seed * 77 + 8, ["rec", "height"])))
    plans.append(("roll", lambda: wide_plan(ctx, ctx.seed * 77 + 9, blocks=240, compare=["rec", "height"], reopen=0)))
    plans += colds(ctx, 77, ["rec", "height"], 2, reopen=(0, 12))
    if ctx.thorough:
        plans += std_edges(ctx, ["rec", "height"], kinds=("rand", "tight"), n=4)
    run_plans(ctx, plans)
    need(ctx, records_compared=5000, blocks=3000, ops=10000)


def c02(ctx):
    mc(ctx, "ChainOK SerialOK LogOK DeactOK")
    cmp = ["chain", "sn", "active"]
    plans = std_edges(ctx, cmp, kinds=("rand", "tight", "shards", "top"))
    S = range(1, 7 if ctx.thorough else 3)
    for s in S:
        plans.append(("runs%d" % s, lambda s=s: runs_plan(ctx, ctx.seed * 78 + s, compare=cmp)))
    plans.append(("mass", lambda: mass_plan(ctx, ctx.seed * 78 + 8, cmp)))
    plans.append(("roll", lambda: wide_plan(ctx, ctx.seed * 78 + 9, blocks=240, compare=cmp, reopen=50)))
    plans += colds(ctx, 78, cmp, 2, reopen=(0, 12))
    if ctx.thorough:
        plans += std_edges(ctx, cmp, kinds=("rand", "tight"), n=4)
    run_plans(ctx, plans)
    need(ctx, records_compared=5000, blocks=3000)


def c03(ctx):
    mc(ctx, "LogOK DeactOK", sim=False)
    deep_tree(ctx, 1800, ["root"], True)
    plans = []
    for s in range(1, 5 if ctx.thorough else 2):
        base = ctx.seed * 79 + s
        for v, (bs, buf, procs) in enumerate([(65536, 4096, None), (131072, 8192, "1"), (1 << 20, 65536, "3")]):
            plans.append(("conf%d-%d" % (s, v), lambda base=base, bs=bs, buf=buf, v=v: wide_plan(
                ctx, base, blocks=220, compare=["root", "meta"] if v == 0 else ["root"], reopen=(25, 0, 7)[v],
                knobs=dict(DefaultHPFileSize=bs, HPFileBufferSize=buf),
                shards=((0, 3), (1, 7), (2, 4, 5, 6))[(v + s) % 3], prune=(0, 30, 0)[v]),
                {"GOMAXPROCS": procs} if procs else None))
    plans.append(("mass", lambda: mass_plan(ctx, ctx.seed * 79 + 8, ["root"], reopen=5)))
    plans += colds(ctx, 79, ["root"], 3, reopen=(0, 9, 1),
                   knobs=(dict(DefaultHPFileSize=8192), dict(), dict(DefaultHPFileSize=1 << 20, HPFileBufferSize=65536)))
    plans += std_edges(ctx, ["root"], kinds=("rand", "shards"), reopen=40)
    run_plans(ctx, plans)
    need(ctx, roots_compared=1500, twigs_compacted=6, records_moved=300)


def c04(ctx):
    mc(ctx, "LogOK DeactOK SerialOK", sim=False)
    cfg = open(os.path.join(SPEC, "Merkle.cfg")).read()
    ctx.tlc("Merkle", workers=8, timeout=1200, label="symbolic proofs", cfg_text=cfg)
    bad = ctx.tlc("Merkle", workers=4, timeout=1200, label="without the serial number bound (must fail)",
                  cfg_text=cfg.replace("Bounded = TRUE", "Bounded = FALSE"), expect_violation=True)
    if not bad["violated"]:
        raise ToolError("the unbounded variant of Merkle is not rejected")
    if ctx.thorough:
        ctx.tlc("Merkle", workers=8, timeout=1800, label="symbolic proofs, 4 twigs", cfg_text=cfg.replace("UP = 1", "UP = 2"))
    shapes = ctx.path("shapes", "exp.ndjson")
    ctx.tlc("ProofShape", workers=4, timeout=600, label="serialised proofs of every height", env={"OUT": shapes})
    ctx.drive(["shapes", shapes, str(ctx.seed)], "shapes")
    ctx.cov["traces_validated_against_impl"] += ctx.cov.get("counts", {}).get("proof_shapes", 0)
    deep_tree(ctx, 1700, ["proof"])
    cmp = ["proof"]
    plans = [("wide%d" % s, lambda s=s: wide_plan(ctx, ctx.seed * 80 + s, blocks=260, compare=cmp, reopen=37,
              prune=(0, 25)[s % 2], proofs=24, shards=((0, 3), (5, 7))[s % 2])) for s in range(1, 7 if ctx.thorough else 3)]
    plans.append(("mass", lambda: mass_plan(ctx, ctx.seed * 80 + 8, cmp, shards=(7,))))
    # every live record, most of them in full twigs, whose hashes cross the edges of small files
    plans += colds(ctx, 80, cmp, 2, proofs=462, drain=25, knobs=(dict(DefaultHPFileSize=8192), dict(DefaultHPFileSize=12288)),
                   prune=(0, 7), reopen=(0, 17))
    plans += std_edges(ctx, cmp, kinds=("rand", "shards"))
    run_plans(ctx, plans)
    need(ctx, proofs_checked=4000, absent_proofs=100, proof_alterations=20000, twigs_compacted=6)


def c06(ctx):
    mc(ctx, "RecoverOK", prune=True)
    cmp = ALL + ["meta"]
    plans = [
        ("often", lambda: wide_plan(ctx, ctx.seed * 81 + 1, n=60, blocks=60, sizes=(1, 10, 60), shards=None, compare=cmp,
                                    arm="reopen", reopen=1)),
        ("roll", lambda: wide_plan(ctx, ctx.seed * 81 + 2, blocks=240, compare=cmp, arm="reopen", reopen=6, double_reopen=True)),
        ("prune", lambda: wide_plan(ctx, ctx.seed * 81 + 3, blocks=260, compare=cmp, arm="reopen", reopen=9, prune=15, prune_from=80)),
        ("hist", lambda: wide_plan(ctx, ctx.seed * 81 + 4, n=120, blocks=160, compare=cmp, arm="reopen", reopen=5, history=True,
                                   hist=5, shards=(2, 6))),
        ("mode", lambda: wide_plan(ctx, ctx.seed * 81 + 5, n=120, blocks=160, compare=cmp, arm="reopen", reopen=5,
                                   toggle_hist=True, shards=(1, 7))),
        ("mass", lambda: mass_plan(ctx, ctx.seed * 81 + 8, cmp, arm="reopen", reopen=1)),
    ]
    plans += colds(ctx, 81, cmp, 2, arm="reopen", reopen=(3, 2), prune=(0, 9), proofs=20)
    plans += std_edges(ctx, cmp, arm="reopen", kinds=("rand", "shards"), reopen=7 if not ctx.thorough else 1, max_steps=None if ctx.thorough else 420)
    if ctx.thorough:
        for s in range(10):
            plans.append(("t%d" % s, lambda s=s: wide_plan(ctx, ctx.seed * 81 + 100 + s, blocks=300, compare=cmp, arm="reopen",
                          reopen=3, prune=(0, 20)[s % 2], history=s % 3 == 0, hist=0,
                          shards=((0,), (3, 4), (7,))[s % 3])))
    run_plans(ctx, plans)
    need(ctx, reopens=120, twigs_compacted=6, meta_compared=50)


def c07(ctx):
    mc(ctx, "LatestOK HeightOK ChainOK SerialOK DeactOK RecoverOK")
    plans = []
    confs = [dict(), dict(pdel=.02, sizes=(200, 230)), dict(shards=(7,), n=90, sizes=(120, 160)),
             dict(shards=(0,), n=200, sizes=(250,), blocks=100), dict(n=1000, sizes=(100, 300), blocks=200, shards=(1, 5))]
    if ctx.thorough:
        confs = confs * 4
    for s, kw in enumerate(confs):
        kw = dict(dict(blocks=220), **kw)
        plans.append(("comp%d" % s, lambda s=s, kw=kw: wide_plan(ctx, ctx.seed * 82 + s, compare=ALL + ["meta"], arm="compaction",
                      reopen=23 if s % 2 else 0, **kw)))
    plans.append(("mass", lambda: mass_plan(ctx, ctx.seed * 82 + 8, ALL + ["meta"], blocks=90, arm="compaction", reopen=13)))
    # threshold behaviour: with a large threshold nothing may be compacted
    plans.append(("nocomp", lambda: wide_plan(ctx, ctx.seed * 82 + 50, blocks=160, compare=ALL + ["meta"], arm="",
                  knobs=dict(StartReapThres=100000), reopen=40)))
    plans += colds(ctx, 82, ALL + ["meta"], 4, arm="compaction", reopen=(0, 0, 11, 5), drain=(40, 70), history=(False, True), hist=(0, 4), proofs=30)
    run_plans(ctx, plans)
    need(ctx, twigs_compacted=12, records_moved=500)


def c08(ctx):
    mc(ctx, "PruneOK RecoverOK LatestOK", prune=True)
    plans = []
    n = 16 if ctx.thorough else 5
    for s in range(n):
        kw = dict(blocks=330, shards=((0, 3), (7,), (2, 5), (0,), (1, 6))[s % 5], prune=(13, 29, 7, 40, 21)[s % 5],
                  prune_lag=(5, 15, 30)[s % 3], prune_from=(60, 90, 120)[s % 3])
        if len(kw["shards"]) == 1:
            kw.update(n=100, sizes=(80, 140))
        plans.append(("prune%d" % s, lambda s=s, kw=kw: wide_plan(
            ctx, ctx.seed * 83 + s, compare=ALL + ["meta", "release"], arm="prune", reopen=(31, 0, 11)[s % 3],
            tail=5, **kw)))
    plans.append(("prunehist", lambda: pruned_hist_plan(ctx, ctx.seed * 83 + 70, compare=["rec", "root"])))
    plans += colds(ctx, 83, ALL + ["meta", "release"], 3, arm="prune", prune=(9, 4, 12), drain=60, reopen=(11, 0, 5),
                   history=(False, True))
    run_plans(ctx, plans)
    need(ctx, twigs_pruned=12, prunes=20, release_checks=20, historical_reads=100)


def c09(ctx):
    mc(ctx, "HistOK")
    plans = []
    for s in range(8 if ctx.thorough else 3):
        plans.append(("hist%d" % s, lambda s=s: wide_plan(ctx, ctx.seed * 84 + s, n=(150, 60, 120)[s % 3], blocks=(220, 120, 200)[s % 3],
                      sizes=((100, 160), (3, 30), (80, 200))[s % 3], pdel=.3, history=True, hist=3, reopen=(17, 5, 0)[s % 3],
                      compare=[], shards=((0, 3), None, (6, 7))[s % 3], h_off=(0, 0, 1 << 35)[s % 3])))
    plans.append(("mass", lambda: mass_plan(ctx, ctx.seed * 84 + 8, [], history=True, blocks=50, reopen=7)))
    plans += std_edges(ctx, [], kinds=("rand", "tight", "shards"), history=True, hist_every=4, reopen=150)
    plans.append(("prunehist", lambda: pruned_hist_plan(ctx, ctx.seed * 84 + 70, compare=[], above=True)))
    plans.append(("prunetop", lambda: prune_top_plan(ctx, ctx.seed * 84 + 71)))
    for r in range(4 if ctx.thorough else 1):
        plans.append(("prunekvc%d" % r, lambda r=r: prune_kvc_plan(ctx, ctx.seed * 84 + 72 + r)))
    plans += colds(ctx, 84, [], 2, history=True, hist=2, reopen=(0, 6))
    run_plans(ctx, plans)
    need(ctx, historical_reads=8000, historical_reads_found=3000, kv_compactions=10, reads_answered_at_prune_height=300)


CHECKS = dict(C01=c01, C02=c02, C03=c03, C04=c04, C06=c06, C07=c07, C08=c08, C09=c09)
