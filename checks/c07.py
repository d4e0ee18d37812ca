"""C07 Euclid: gcd and Bezout coefficients on ints and polynomials over Z/p."""
import math
import random

from vlib import ref
from vlib.kits import kit, rand_prime

RULE = ("a case is a grid of integer pairs or a batch of (integer or polynomial) pairs with planted common factors, zeros, equal and multiple "
        "arguments; distinct non-trivial = distinct pairs")
REQUIRED = {"int_pair": 6000, "poly_pair": 2500, "zero_argument": 200, "neighbour": 1000, "common_factor": 800}


def cases(rng, tier):
    for lo in range(-40, 40, 10):
        yield {"kind": "grid", "lo": lo, "hi": lo + 10}
    for p, d in [(2, 3), (3, 2), (5, 1)]:
        yield {"kind": "exh", "p": p, "d": d}
    for i in range(80 if tier == "quick" else 4000):
        yield {"kind": "ints", "n": 120} if i % 4 == 0 else {"kind": "polys", "p": rand_prime(rng), "n": 40, "d": rng.choice([2, 4, 8, 20, 20, 60, 150])}


def ints(mon, a, b):
    from starks.euclidean import extended_euclidean_algorithm, gcd
    g = math.gcd(a, b)
    got = gcd(a, b)
    mon.check(type(got) is int and abs(got) == g, "gcd_int", a=a, b=b, got=got)
    x, y, d = extended_euclidean_algorithm(a, b)
    mon.check(abs(d) == g and a * x + b * y == d, "bezout_int", a=a, b=b, got=(x, y, d))
    mon.event("int_pair")
    if a == 0 or b == 0:
        mon.event("zero_argument")
    if g > 1:
        mon.event("common_factor")
    mon.seen(a, b)


def polys(mon, k, a, b):
    from starks.euclidean import extended_euclidean_algorithm, gcd
    R = k.R
    g = ref.pgcd(R, a, b)
    x, y = k.poly(a), k.poly(b)
    d = dict(p=k.p, a=a, b=b)
    got = k.pval(gcd(x, y))
    mon.equal(ref.pmonic(R, got), g, "gcd_poly", **d)
    u, v, w = extended_euclidean_algorithm(x, y)
    u, v, w = k.pval(u), k.pval(v), k.pval(w)
    mon.equal(ref.pmonic(R, w), g, "bezout_gcd", **d)
    mon.equal(ref.padd(R, ref.pmul(R, a, u), ref.pmul(R, b, v)), w, "bezout_poly", **d)
    mon.equal((k.pval(x), k.pval(y)), (a, b), "argument_changed", **d)
    mon.event("poly_pair")
    if not a or not b:
        mon.event("zero_argument")
    if len(g) > 1:
        mon.event("common_factor")
    mon.seen(k.p, a, b)


def run_case(spec, mon):
    rng = random.Random(spec["seed"])
    if spec["kind"] == "grid":
        for a in range(spec["lo"], spec["hi"]):
            for b in range(-40, 41):
                if a or b:
                    ints(mon, a, b)
    elif spec["kind"] == "ints":
        for _ in range(spec["n"]):
            bits = rng.choice([3, 8, 30, 64, 128, 256, 512, 1024, 2500])
            r = lambda: rng.choice([-1, 1]) * rng.getrandbits(rng.randint(1, bits))
            a, b = r(), r()
            q = rng.random()
            if q < .1: b = a
            elif q < .15: b = -a
            elif q < .3: b = a * r()
            elif q < .5:
                c = r()
                a, b = a * c, b * c
            elif q < .55: b = 0
            elif q < .7:    # consecutive Fibonacci numbers: the longest run of the algorithm
                a, b = 1, 1
                for _ in range(rng.choice([rng.randint(2, 300), rng.randint(300, 2500), rng.choice([rng.randint(300, 2500), rng.randint(2500, 8000)])])):
                    a, b = a + b, a
            if rng.random() < .5: a, b = b, a
            if a or b:
                ints(mon, a, b)
            if bits > 64 and q > .9:       # the same pair with one bit or a high part changed
                for _ in range(12):
                    h = rng.choice([1 << rng.randrange(bits), rng.getrandbits(32) << rng.randrange(64, bits), rng.choice([1, 2, 6]), 10 ** rng.randrange(bits // 4)])
                    if rng.random() < .5: a = a + h if rng.random() < .5 else a ^ h
                    else: b = b + h if rng.random() < .5 else b ^ h
                    if a or b: ints(mon, a, b)
                    mon.event("neighbour")
    elif spec["kind"] == "exh":
        import itertools
        k = kit(["Z", spec["p"]])
        al = [ref.ptrim(k.R, c) for c in itertools.product(range(spec["p"]), repeat=spec["d"] + 1)]
        for a in al:
            for b in al:
                if a or b:
                    polys(mon, k, a, b)
    else:
        k = kit(["Z", spec["p"]])
        R = k.R
        rp = lambda d: ref.ptrim(R, [R.rand(rng) for _ in range(rng.randint(0, d) + 1)])
        for _ in range(spec["n"]):
            a, b = rp(spec["d"]), rp(spec["d"])
            q = rng.random()
            if q < .1: b = a
            elif q < .2: b = ref.pscale(R, a, R.randnz(rng))
            elif q < .3: b = ref.pmul(R, a, rp(3))
            elif q < .6:
                c = rp(4)
                a, b = ref.pmul(R, a, c), ref.pmul(R, b, c)
            elif q < .65: b = []
            elif q < .7: b = [R.randnz(rng)]
            if rng.random() < .5: a, b = b, a
            if a or b:
                polys(mon, k, a, b)
            if q > .85 and len(a) > 1 and len(b) > 1:       # one coefficient changed
                c = [R.rand(rng), R.one]
                a, b = ref.pmul(R, a, c), ref.pmul(R, b, c)
                for _ in range(8):
                    polys(mon, k, a, b)
                    h = list(rng.choice([a, b]))
                    j = rng.randrange(len(h) - 1)
                    new = h[:j] + [R.add(h[j], R.randnz(rng))] + h[j + 1:]
                    a, b = (new, b) if h == a else (a, new)
                    mon.event("neighbour")
