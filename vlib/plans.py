"""Seeded generators of plans for the ADS replay specification."""
import random

MAGIC = bytes([255, 254, 253, 252, 252, 253, 254, 255])


def gen_keys(R, n, dense=False, shards=None):
    """n distinct 8-byte keys strictly between the guards, in byte order; shards: allowed shard ids."""
    ks = set()
    firsts = [0, 1, 3, 4, 63, 64, 79, 80, 127, 128, 191, 192, 254, 255] + [R.randrange(256) for _ in range(8)]
    while len(ks) < n:
        if dense:
            b = bytearray([firsts[R.randrange(3)], 7, 7, 7, 7, 7, R.randrange(6), R.randrange(256)])
        else:
            b = bytearray(R.randrange(256) for _ in range(8))
            b[0] = R.choice(firsts)
            if R.random() < .3:                     # neighbours sharing a long prefix
                b[1:7] = bytes([R.choice([0, 255])] * 6)
        if shards:
            b[7] = R.choice(shards) * 32 + R.randrange(32)
        k = bytes(b)
        if k in (bytes(8), bytes([255] * 8)):
            continue
        ks.add(k)
    return sorted(ks)


TOP = 2000000000        # stands for the largest height there is


class PlanGen:
    def __init__(self, seed, n, knobs=None, caps=None, shards=None, compare=(), arm="", history=False,
                 max_val=600, proofs=6, dense=False, h0=1, h_off=0):
        self.R = random.Random(seed)
        self.n = n
        self.keys = gen_keys(self.R, n, dense, shards)
        knobs = dict(knobs or {})
        if caps is not None:
            knobs = {k: v for k, v in knobs.items() if caps.get(k)}
        self.knobs = knobs
        self.compare, self.arm, self.history = list(compare), arm, history
        self.max_val, self.proofs = max_val, proofs
        self.seed = seed
        self.h_off = h_off
        self.steps = []
        self.h = h0 - 1
        self.nextval = 1
        self.live = set()

    def val(self):
        self.nextval += 1
        if self.R.random() < .03:
            return 0
        return self.nextval

    def block(self, nops, pdel=.2, pmulti=.2, dh=None, keys=None, ops=None, pprep=.1):
        R = self.R
        self.h += dh if dh is not None else R.choice([1, 1, 1, 2, 5])
        keys = keys or range(1, self.n + 1)
        keys = list(keys)
        if ops is None:
            ops = []
            for _ in range(nops):
                k = R.choice(keys)
                for _ in range(1 + (R.random() < pmulti) * R.randrange(1, 4)):
                    ops.append([k, -1 if R.random() < pdel else self.val()])
            R.shuffle(ops)
        prep = [[R.choice(keys), R.randrange(2)] for _ in range(int(nops * pprep))]
        # preparing for deletion a key that is also set is fine; a key that is only prepared is untouched
        for k, v in ops:
            (self.live.add if v >= 0 else self.live.discard)(k)
        self.steps.append(dict(op="block", h=self.h, ops=ops, prep=prep, par=R.choice([1, 2, 4, 8])))

    def reopen(self, hist=None, kvc=False):
        s = dict(op="reopen", h=self.h, kvc=kvc)
        if hist is not None:
            s["hist"] = hist
        self.steps.append(s)

    def prune(self, h):
        self.steps.append(dict(op="prune", h=h))

    def prune_at(self, sel, d):
        """Prune at (d off) the height at which an evicted twig began: the model chooses it."""
        self.steps.append(dict(op="pruneat", h=0, sel=sel, d=d))

    def hist(self, nq, lo=0):
        R = self.R
        q = [[R.randint(1, self.n), R.randint(lo, self.h + 2) if R.random() < .97 else R.choice([TOP, TOP, TOP - 1])] for _ in range(nq)]
        self.steps.append(dict(op="hist", h=self.h, q=q))

    def plan(self):
        return dict(n=self.n, keys=[k.hex() for k in self.keys], shardOf=[k[7] // 32 for k in self.keys],
                    twigSize=2048, minKept=self.knobs.get("MinKeptTwigs", 10),
                    startReap=self.knobs.get("StartReapThres", 500000), knobs=self.knobs,
                    compare=self.compare, arm=self.arm, history=self.history, maxVal=self.max_val,
                    proofs=self.proofs, seed=self.seed, hOff=self.h_off, steps=self.steps)
