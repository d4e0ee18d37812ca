"""C08 irreducibility / primitivity tests and generators, exhaustively for small p^m."""
import itertools
import math
import random

from vlib import ref
from vlib.kits import kit

RULE = ("a case is all monic polynomials of one (p, degree), a batch of random, product or known-irreducible polynomials, or generator draws; "
        "distinct non-trivial = distinct polynomials or draws")
REQUIRED = {"irreducible": 400, "reducible": 800, "primitive": 150, "not_primitive_irreducible": 60, "generated": 120, "other_ring_refused": 20, "monic": 500,
            "low_order": 150, "low_order_not_primitive": 90, "degree_1": 50, "root_0": 100, "unit_factor": 150, "constant": 50, "high_degree": 20, "neighbour": 150}

EXH = [(2, d) for d in range(1, 9)] + [(3, d) for d in range(1, 6)] + [(5, 1), (5, 2), (5, 3), (7, 1), (7, 2), (11, 2), (13, 1), (13, 2), (31, 1)]
LOW = [(2, 14), (2, 15), (2, 20), (2, 21), (2, 22), (2, 23), (2, 25), (2, 28), (2, 29), (2, 30), (3, 8), (3, 11), (3, 13), (5, 6), (5, 7), (7, 5), (7, 6), (13, 4), (17, 3), (31, 3), (101, 2), (101, 3), (257, 2), (65537, 2),
       (2, 11), (43, 2), (11, 3), (2, 10), (31, 2), (3, 6), (5, 4), (2, 8), (2, 9), (23, 2), (3, 4), (3, 5), (5, 3), (7, 3), (11, 2), (13, 2)]
LOW_T = [(2, 12), (2, 26), (2, 27), (2, 31), (2, 32), (2, 33), (2, 36), (2, 37), (2, 41), (3, 7), (3, 16), (3, 19), (5, 11), (7, 9), (13, 3), (47, 2), (37, 2), (41, 2), (29, 2), (19, 2), (17, 2)]


def cases(rng, tier):
    for p, d in EXH:
        yield {"kind": "exh", "p": p, "d": d}
    # fields whose group order has several prime factors: irreducible polynomials whose root has order (p^m - 1) / q, for each of them
    for p, d in LOW + (LOW_T if tier != "quick" else []):
        yield {"kind": "low", "p": p, "d": d}
    for p, ds in ((2, (33, 40, 64, 65, 70, 90, 129)), (3, (33, 47, 66)), (7, (33, 40)), (65537, (17, 20))):
        for d in ds: yield {"kind": "high", "p": p, "d": d}
    for p, d in ((2, 7), (2, 12), (2, 15), (2, 18), (2, 24), (2, 33), (3, 9), (3, 15), (3, 20), (5, 9), (7, 5), (7, 15), (31, 4), (101, 15), (2, 21), (2, 16)) * (1 if tier == "quick" else 20):
        yield {"kind": "near", "p": p, "d": d}
    for i in range(60 if tier == "quick" else 2500):
        r = i % 4
        if r == 3:
            p = rng.choice([2, 3, 5, 7, 13, 31])
            yield {"kind": "gen", "p": p, "d": rng.randint(1, 14 if p == 2 else 6 if p < 10 else 3), "n": 6}
        else:
            p = rng.choice([2, 2, 3, 5, 7, 11, 31, 101, 65537, 2**31 - 1, 2**61 - 1])
            yield {"kind": "rand", "p": p, "d": rng.randint(2, 16 if p == 2 else 8 if p < 200 else 4), "n": 6}


def minpoly(F, x, d):
    """Minimal polynomial of x over Z/p if it has degree d."""
    conj = [x]
    while True:
        y = F.pow(conj[-1], F.p)
        if y == x: break
        conj.append(y)
    return [c[0] for c in ref.proots(F, conj)] if len(conj) == d else None


def judge(mon, k, f, primitive):
    from starks.poly_utils import is_irreducible, is_primitive
    p, d = k.p, len(f) - 1
    x = k.poly(f)
    want = ref.is_irreducible(p, f)
    got = is_irreducible(x, p)
    mon.check(bool(got) is want, "irreducible", p=p, f=f, got=got)
    mon.event("irreducible" if want else "reducible")
    if primitive and d >= 1:
        wp = ref.is_primitive(p, f)
        gp = is_primitive(x, p, d)
        mon.check(bool(gp) is wp, "primitive", p=p, f=f, got=gp)
        mon.event("primitive" if wp else "not_primitive_irreducible" if want else "not_irreducible")
    mon.equal(k.pval(x), f, "argument_changed", p=p)
    mon.seen(p, f)
    if d == 1: mon.event("degree_1")
    if f[0] == 0: mon.event("root_0")


def run_case(spec, mon):
    from starks.poly_utils import (generate_irreducible_polynomial, generate_primitive_polynomial, is_irreducible, is_monic)
    rng = random.Random(spec["seed"])
    p, d = spec["p"], spec["d"]
    k = kit(["Z", p])
    R = k.R
    if spec["kind"] == "exh":
        lows = list(itertools.product(range(p), repeat=d))
        for low in lows:
            judge(mon, k, list(low) + [1], True)
        for f in rng.sample(lows, min(len(lows), 20)):
            for lead in range(1, min(p, 5)):
                g = list(f) + [lead]
                mon.check(bool(is_monic(k.poly(g))) is (lead == 1), "monic", p=p, f=g)
                mon.event("monic")
        # a unit factor changes nothing, and neither zero nor the units are irreducible
        for f in rng.sample(lows, min(len(lows), 12)):
            c = rng.randrange(1, p)
            f = ref.pmul(R, list(f) + [1], [c])
            mon.check(bool(is_irreducible(k.poly(f), p)) is ref.is_irreducible(p, ref.pmul(R, f, [R.inv(c)])), "irreducible", p=p, f=f)
            mon.event("unit_factor")
        for c in range(min(p, 6)):
            mon.check(not is_irreducible(k.poly(ref.ptrim(R, [c])), p), "constant_irreducible", p=p, c=c)
            mon.event("constant")
        other = kit(["Z", 7 if p != 7 else 5])
        for f in rng.sample(lows, min(len(lows), 4)):
            mon.raises(lambda: is_irreducible(other.poly([1, 1] + list(f) + [1]), p), "other_ring", exc=TypeError, p=p)
            mon.event("other_ring_refused")
        return
    if spec["kind"] == "high":
        # products of a small and a large factor, of two equal ones, of two halves; and a polynomial without a planted factor
        for d1 in (1, 2, rng.randint(3, 6), d // 2):
            g = ref.find_irreducible(p, d1, rng)
            h = ref.find_irreducible(p, d - d1, rng) if d - d1 <= 40 else [1] + [R.rand(rng) for _ in range(d - d1 - 1)] + [1]
            judge(mon, k, ref.pmul(R, g, h), False)
            mon.event("high_degree")
        judge(mon, k, [R.rand(rng) for _ in range(d)] + [1], False)
        if d <= 70 and p < 100: judge(mon, k, ref.find_irreducible(p, d, rng), False)
        return
    if spec["kind"] == "near":      # one coefficient after another changed, and changed back
        f = ref.find_irreducible(p, d, rng)
        for _ in range(12):
            judge(mon, k, f, p**d <= 2**34)
            g = list(f)
            i = rng.randrange(1, d)
            g[i] = R.add(g[i], R.randnz(rng))
            judge(mon, k, g, p**d <= 2**34)
            if rng.random() < .3: f = g
            mon.event("neighbour")
        return
    if spec["kind"] == "low":
        order = p**d - 1
        f = ref.find_irreducible(p, d, rng, primitive=True)
        F = ref.RF(p, f)
        g = tuple(int(i == 1) for i in range(d))
        for q in sorted(ref.prime_factors(order)):
            for e in {q, q * rng.choice(sorted(ref.prime_factors(order)))}:
                if order % e: continue
                m = minpoly(F, F.pow(g, e), d)
                if m is None: continue      # the power lies in a proper subfield
                judge(mon, k, m, True)
                mon.event("low_order")
                if not ref.is_primitive(p, m): mon.event("low_order_not_primitive")
        m = minpoly(F, F.pow(g, next(e for e in iter(lambda: rng.randrange(1, order), None) if math.gcd(e, order) == 1)), d)
        judge(mon, k, m, True)
        mon.event("low_order")
        return
    if spec["kind"] == "gen":
        for i in range(spec["n"]):
            g = k.pval(generate_irreducible_polynomial(p, d))
            mon.check(len(g) == d + 1 and g[-1] == 1 and ref.is_irreducible(p, g), "generated_irreducible", p=p, d=d, g=g)
            mon.seen("gen", p, g)
            mon.event("generated")
            if d >= 1:
                g = k.pval(generate_primitive_polynomial(p, d))
                mon.check(len(g) == d + 1 and g[-1] == 1 and ref.is_primitive(p, g), "generated_primitive", p=p, d=d, g=g)
                mon.seen("genp", p, g)
                mon.event("generated")
        return
    for i in range(spec["n"]):
        q = i % 3
        if q == 0:
            f = [R.rand(rng) for _ in range(d)] + [1]
        elif q == 1:    # product of two irreducibles, possibly of equal degree or a square
            d1 = rng.randint(1, d // 2)
            g = ref.find_irreducible(p, d1, rng)
            h = g if rng.random() < .3 else ref.find_irreducible(p, rng.choice([d1, max(1, d - d1)]), rng)
            f = ref.pmul(R, g, h)
        else:
            f = ref.find_irreducible(p, d, rng)
        judge(mon, k, f, p**d <= 2**34)
