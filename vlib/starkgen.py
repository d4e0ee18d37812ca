"""Random STARK instances inside the supported domain, and their reference data."""
from vlib import ref
from vlib.kits import kit

# primes with a large power of two in p-1
PRIMES = [p for p in (17, 97, 193, 257, 769, 7681, 12289, 40961, 65537, 786433, 5767169, 7340033, 23068673, 104857601, 167772161,
                      469762049, 998244353, 2013265921, 3221225473, 2**64 - 2**32 + 1, ref.P256)]


def two_adic(p):
    return (p - 1) & -(p - 1)


def rstep(R, rng, w, i, maxdeg):
    r = rng.random()
    if r < .12: return {tuple(int(j == (i + 1) % w) for j in range(w)): R.one}
    if r < .18: return {tuple(int(j == i) for j in range(w)): R.one}
    if r < .22: return ref.mtrim(R, {(0,) * w: R.rand(rng)})
    out = {}
    for _ in range(rng.randint(1, 3)):
        left, e = rng.randint(0, maxdeg), [0] * w
        while left > 0:
            j = rng.randrange(w)
            t = rng.randint(1, left)
            e[j] += t
            left -= t
        out[tuple(e)] = R.rand(rng)
    return ref.mtrim(R, out)


def instance(rng, p=None, steps=None, width=None, maxprec=256, zero=None):
    """A JSON-able instance description."""
    while True:
        q = p or rng.choice(PRIMES + [ref.P256] * 4)
        s = steps or rng.choice([8, 8, 8, 16, 16, 32])
        deg = rng.choice([1, 2, 2, 3, 4])
        ext = rng.choice([e for e in (2, 4, 8, 16) if e >= deg])
        if s * ext > maxprec or two_adic(q) % (s * ext):
            continue
        w = width or rng.choice([1, 1, 2, 2, 3, 4])
        R = ref.RZ(q)
        fs = [rstep(R, rng, w, i, deg) for i in range(w)]
        d = max(ref.mdeg(f) for f in fs)
        if d < 1 or d > ext:
            continue
        inp = [R.rand(rng) for _ in range(w)]
        if w > 1 and rng.random() < .25:
            # two registers that carry the same values
            i, j = rng.sample(range(w), 2)
            fs[j], inp[j] = dict(fs[i]), inp[i]
            if max(ref.mdeg(f) for f in fs) < 1: continue
        for i in range(w):      # registers that start from a special value, and registers that keep theirs
            r = rng.random()
            if r < .12: inp[i] = rng.choice([0, 0, 0, 1, q - 1])
            if rng.random() < .1:
                fs[i] = {tuple(int(j == i) for j in range(w)): R.one}
                if rng.random() < .5: inp[i] = rng.choice([0, 0, 1, q - 1])
        if max(ref.mdeg(f) for f in fs) < 1: continue
        if zero or (zero is None and rng.random() < .12):
            inp = [0] * w
        return {"p": q, "steps": s, "ext": ext, "width": w, "fs": [[[list(e), v] for e, v in f.items()] for f in fs], "inp": inp}


class Inst:
    def __init__(self, d):
        self.d = d
        self.k = kit(["Z", d["p"]])
        self.R, self.F = self.k.R, self.k.T
        self.steps, self.ext, self.width = d["steps"], d["ext"], d["width"]
        self.prec = self.steps * self.ext
        self.fs = [{tuple(e): v for e, v in f} for f in d["fs"]]
        self.deg = max(ref.mdeg(f) for f in self.fs)
        self.trace = self.run(self.fs, d["inp"])
        base = 7        # the first non-residue from 7 on
        while pow(base, d["p"] // 2, d["p"]) != d["p"] - 1: base += 1
        self.w = pow(base, (d["p"] - 1) // self.prec, d["p"])
        self.g1 = pow(self.w, self.ext, d["p"])
        self.last = pow(self.g1, self.steps - 1, d["p"])

    def run(self, fs, inp):
        tr = [list(inp)]
        for _ in range(self.steps - 1):
            tr.append([ref.meval(self.R, f, tr[-1]) for f in fs])
        return tr

    def step_polys(self, fs=None):
        return [self.k.multi(f, self.width) for f in (fs or self.fs)]

    def stark(self, fs=None, steps=None, ext=None, checks=None):
        from starks.stark import STARK
        args = () if checks is None else (checks,)
        return STARK(self.F, steps or self.steps, ext or self.ext, self.width, self.step_polys(fs), *args)

    def witness(self, trace=None):
        t = trace or self.trace
        return [[self.k.lib(t[i][j]) for i in range(len(t))] for j in range(self.width)]

    def boundary(self, inp=None):
        v = inp or self.trace[0]
        return [(0, j, self.k.lib(v[j])) for j in range(self.width)]

    def label(self):
        return {k: self.d[k] for k in ("p", "steps", "ext", "width", "inp")} | {"fs": self.fs}
