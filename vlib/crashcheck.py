"""C05: crash images of the real database, recovered and compared with ADS expectations."""
import json, os, random, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
from .core import ToolError, VERIF
from .families import *


def tracer(ctx):
    exe = ctx.path("bin", "tracer")
    with ctx.lock:
        if not os.path.exists(exe):
            p = subprocess.run(["gcc", "-O2", "-w", "-o", exe, os.path.join(VERIF, "harness/crash/tracer.c")],
                               capture_output=True, text=True)
            if p.returncode:
                raise ToolError("tracer build failed: " + p.stderr)
    return exe


def record(ctx, name, pf, of, hold, usec, rootname="rec", base=None, cont=None):
    """Runs the plan under the tracer; returns the trace file, or None if the run itself failed."""
    root = ctx.path(name, rootname, "x")[:-2]
    if base:
        shutil.rmtree(root)
        shutil.copytree(base, root)
    tr = ctx.path(name, rootname + ".trace")
    args = ["crashrec", pf, of, root] + [str(x) for x in (cont or [])]
    before = len(ctx.violations)
    ctx.drive(args, name + "/" + rootname + "-run", timeout=300, wrap=[tracer(ctx), tr, root, hold, str(usec), "--"])
    shutil.rmtree(root, ignore_errors=True)
    return tr if len(ctx.violations) == before else None


def check_images(ctx, name, pf, of, tr, points, cont, base="-", shares=8, tag="chk"):
    def one(i):
        n = "%s/%s-%d" % (name, tag, i)
        s = ctx.drive(["crashchk", pf, of, tr, base, "@WORK", str(i), str(shares), points, str(cont)], n, timeout=600)
        shutil.rmtree(ctx.path(n, "work"), ignore_errors=True)
        return s
    with ThreadPoolExecutor(shares) as ex:
        list(ex.map(one, range(shares)))


def crash_run(ctx, name, plan, hold, usec, images, cont, repeats):
    pf, of = ctx.expect("ADSReplay", plan, name)
    tr = record(ctx, name, pf, of, hold, usec)
    if tr is None:
        return
    check_images(ctx, name, pf, of, tr, "sample:%d" % images, cont)
    if ctx.violations:
        return
    # crash again while (or shortly after) recovering from a crash
    R = random.Random(ctx.seed * 31 + len(name))
    sizes = os.path.getsize(tr)
    nops = count_ops(tr)

    def again(j):
        idx = R.randrange(int(nops * .3), nops)
        var = R.choice(["prefix", "lag"])
        img = ctx.path(name, "img%d" % j, "x")[:-2]
        p = subprocess.run([ctx.driver(), "crashimg", pf, tr, "-", img, str(idx), var, str(R.randrange(1 << 30))],
                           capture_output=True, text=True, env=dict(os.environ, VERIF_REPORT=ctx.path(name, "img%d.rep" % j)))
        if p.returncode:
            raise ToolError("crashimg: " + p.stderr[-2000:])
        lo, hi = json.load(open(img + ".lohi"))
        if lo < 0:
            return
        tr2 = record(ctx, name, pf, of, "-", 0, "rec%d" % j, base=img, cont=[lo, hi, 3])
        if tr2:
            check_images(ctx, name, pf, of, tr2, "sample:%d" % (24 if ctx.thorough else 10), 2, base=img, shares=2, tag="again%d" % j)
            ctx.cov["repeated_crash_recordings"] = ctx.cov.get("repeated_crash_recordings", 0) + 1
            os.unlink(tr2)
        shutil.rmtree(img, ignore_errors=True)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(again, range(repeats)))
    if not ctx.violations:
        shutil.rmtree(ctx.path(name, "x")[:-2], ignore_errors=True)


def count_ops(tr):
    import struct
    n, pos, size = 0, 0, os.path.getsize(tr)
    with open(tr, "rb") as f:
        while pos < size:
            h = f.read(32)
            if len(h) < 32:
                break
            k, a, b, fl, off, ln = struct.unpack("<IIIIqQ", h)
            skip = a + b + (ln if k == ord("W") else 0)
            pos += 32 + skip
            f.seek(pos)
            n += 1
    return n


def c05(ctx):
    T = ctx.thorough
    CFG = open(os.path.join(VERIF, "spec/Crash.cfg")).read()
    ctx.tlc("Crash", workers=4, timeout=1200, label="commit and prune protocol, every crash point")
    ctx.tlc("Crash", workers=4, timeout=2400, label="three blocks",
            cfg_text=CFG.replace("MaxBlocks = 2", "MaxBlocks = %d" % (4 if T else 3)).replace("MaxAppend = 2", "MaxAppend = %d" % (2 if T else 1))
            .replace("MaxCrash = 2", "MaxCrash = %d" % (3 if T else 2)).replace("NS = 2", "NS = %d" % (1 if T else 2)))
    for bad in ("CrashBad.cfg", "CrashBad2.cfg"):      # the specification tells the wrong orders from the right one
        if not ctx.tlc("Crash", workers=2, timeout=600, cfg=bad, expect_violation=True, label=bad)["violated"]:
            raise ToolError(bad + " should violate Recoverable")
    S = ctx.seed * 85
    ctx.driver(); tracer(ctx); ctx.caps()
    few = 2 if not T else 6
    runs = []
    for i in range(3 if T else 1):
        runs += [
            ("small%d" % i, wide_plan(ctx, S + 1 + i, n=60, blocks=40, sizes=(3, 20, 60), shards=None, reopen=13, history=True),
             "-", 0, 220, 3, few),
            ("roll%d" % i, wide_plan(ctx, S + 11 + i, n=120, blocks=120, sizes=(90, 140), reopen=29, shards=(0, 5)),
             ("-", "entries", "twigmt")[i], 1500, 220, 2, few),
            ("hold%d" % i, wide_plan(ctx, S + 21 + i, n=120, blocks=110, sizes=(80, 150), reopen=0, shards=(7,)),
             "entries,twigmt", 3000, 200, 3, few),
            ("kvlate%d" % i, wide_plan(ctx, S + 31 + i, n=70, blocks=40, sizes=(5, 70), reopen=0, shards=(1, 4), history=True),
             ".db", 3000, 160, 3, few),
            ("prune%d" % i, wide_plan(ctx, S + 41 + i, n=110, blocks=230, sizes=(100, 150), reopen=40, shards=(0, 3),
                                      prune=12, prune_from=90, prune_lag=8), "-", 0, 340, 14, few),
            ("compact%d" % i, wide_plan(ctx, S + 51 + i, n=100, blocks=150, sizes=(110, 130), reopen=0, shards=(2,)),
             "entries", 500, 160, 2, few),
        ]
    if T:
        runs = [(n, p, h, u, im * 8, c, r) for n, p, h, u, im, c, r in runs]
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(lambda r: crash_run(ctx, *r), runs))
    c = ctx.cov.get("counts", {})
    ctx.cov["traces_validated_against_impl"] += c.get("crash_images_recovered", 0)
    if not ctx.violations:
        for k, n in dict(crash_images_recovered=500, recovered_to_in_flight_step=20, continued_and_reopened=300).items():
            if c.get(k, 0) < n:
                raise ToolError("vacuous run: %s = %s < %s" % (k, c.get(k, 0), n))
