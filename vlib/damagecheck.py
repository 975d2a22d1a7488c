"""C17: altered record and twig files; the specification says what becomes of each alteration."""
import os, random, shutil
from concurrent.futures import ThreadPoolExecutor
from .core import ToolError, VERIF
from .families import *
from .smallchecks import run_replays
from .treechecks import SIZES, deep_plan, deep_tops


def mc(ctx, T):
    CFG = open(os.path.join(VERIF, "spec/Damage_MC.cfg")).read()

    def run(which, pairs, off=None, label="", workers=2):
        t = CFG.replace("Which = 1", "Which = %d" % which).replace('"none"', '"%s"' % pairs)
        if off:
            t = t.replace(off + " = TRUE", off + " = FALSE")
        r = ctx.tlc("Damage_MC", cfg_text=t, workers=workers, timeout=1800, expect_violation=bool(off),
                    label="%s (database %d)" % (label or "two cells: " + pairs, which))
        if off and not r["violated"]:
            raise ToolError("without %s the specification should be violated" % off)
    jobs = [dict(which=w, pairs=pairs) for pairs in ("record", "next", "row") for w in ((1, 2, 3) if T else (3,))]
    jobs += [dict(which=w, pairs="none", label="every alteration of one cell") for w in (1, 2, 3)]
    jobs += [dict(which=1, pairs="none", off=off, label="without " + off)
             for off in ("CheckRoot", "CheckLen", "CheckPos", "CheckProof")]
    with ThreadPoolExecutor(3) as ex:
        for f in [ex.submit(run, **j) for j in jobs]:
            f.result()


def damage_run(ctx, name, plan, count, cont=5):
    pf, of = ctx.expect("ADSReplay", plan, name)
    d = ctx.path(name, "x")[:-2]
    root = ctx.path(name, "base", "x")[:-2]
    ctx.drive(["damageprep", pf, of, root, d, str(count), str(cont)], name + "/prep", timeout=400)
    if ctx.violations:
        return
    oc = os.path.join(d, "outcomes.ndjson")
    ctx.tlc("DamageReplay", env={"PLAN": os.path.join(d, "parts.json"), "OUT": oc}, label=name + ": outcomes")
    ctx.drive(["damagerun", d, root, "@WORK", oc], name + "/run", timeout=800)
    shutil.rmtree(ctx.path(name + "/run", "work"), ignore_errors=True)
    shutil.rmtree(root, ignore_errors=True)


def checkpoints(ctx, T):
    plans = []
    for j in range(12 if T else 4):
        R = random.Random(ctx.seed * 1700 + j)
        plans.append(("ckpt%d" % j, deep_plan(ctx.seed * 1700 + 50 + j, SIZES[j % len(SIZES)], deep_tops(R, 30 if T else 14, 2),
                                              ["checkpoint"], True, "d", .6)))
    run_replays(ctx, "DataTreeReplay", "tree", plans, par=4)


def c17(ctx):
    T = ctx.thorough
    S = ctx.seed * 170
    ctx.driver(); ctx.caps()
    runs = []
    for i in range(4 if T else 1):
        runs += [
            ("young%d" % i, wide_plan(ctx, S + 1 + i, n=60, blocks=30, sizes=(20, 60), reopen=0, shards=(2, 6)), 700 if T else 110),
            ("twigs%d" % i, wide_plan(ctx, S + 11 + i, n=110, blocks=150, sizes=(100, 140), reopen=0, shards=(0, 5)), 900 if T else 170),
            ("pruned%d" % i, wide_plan(ctx, S + 21 + i, n=110, blocks=170, sizes=(100, 150), reopen=0, shards=(3, 4),
                                       prune=12, prune_from=60, prune_lag=8), 900 if T else 130),
            ("full%d" % i, cold_plan(ctx, S + 31 + i, [], grow=60, drain=8), 700 if T else 100),
        ]
    with ThreadPoolExecutor(4) as ex:
        fs = [ex.submit(checkpoints, ctx, T), ex.submit(mc, ctx, T)] + [ex.submit(damage_run, ctx, *r) for r in runs]
        for f in fs:
            f.result()
    c = ctx.cov.get("counts", {})
    ctx.cov["traces_validated_against_impl"] += c.get("alterations_tried", 0)
    if not ctx.violations:
        for k, n in dict(outcome_refused=120, outcome_same=60, proofs_refused=8, live_proof_refused=15, proofs_given=100, outcome_refused_rec=80,
                         outcome_refused_node=3, outcome_refused_pos=3,
                         checkpoints_altered=200).items():
            if c.get(k, 0) < n:
                raise ToolError("vacuous run: %s = %s < %s" % (k, c.get(k, 0), n))


CHECKS = dict(C17=c17)
