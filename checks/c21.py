"""C21 one-round commitment over small binary affine spaces, and the text-derived challenge."""
import hashlib
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is a batch of (binary field, independent basis of 2 or 3 vectors, shift, function table) commitments, or of challenge texts; distinct "
        "non-trivial = distinct (space, function) and texts")
REQUIRED = {"commit": 120, "point": 500, "challenge": 30, "close_challenge": 240, "again": 80, "outside_never_called": 120}


def cases(rng, tier):
    for i in range(48 if tier == "quick" else 1500):
        while True:
            f = rand_field(rng, 2**17)
            if f[1] == 2: break
        yield {"field": f, "n": 4}


def independent(vs):
    seen = {0}
    for v in vs:
        x = sum(c << i for i, c in enumerate(v))
        if x in seen: return False
        seen |= {s ^ x for s in seen}
    return True


def run_case(spec, mon):
    from starks.fri import AffineSubspaceFRI, select_random
    from starks.modp import IntegersModP
    from starks.reedsolomon import AffineSpace
    rng = random.Random(spec["seed"])
    k = kit(spec["field"])
    R, F = k.R, k.T
    ring = (k.mod,)
    Z2 = IntegersModP(2)
    for turn in range(spec["n"]):
        dim = rng.choice([2, 3]) if R.m >= 3 else 2
        while True:
            basis = [R.randnz(rng) for _ in range(dim)]
            if independent(basis): break
        shift = R.rand(rng) if rng.random() < .6 else None
        lb = [k.lib(b) for b in basis]
        space = AffineSpace(Z2, lb, k.lib(shift)) if shift is not None else AffineSpace(Z2, lb)
        pts = [k.val(F(x)) for x in space]
        mon.equal(len(set(pts)), 2**dim, "space", basis=basis, shift=shift, ring=ring)
        r = rng.random()
        if r < .1: vals = [R.zero] * len(pts)
        elif r < .3:
            f = [R.rand(rng) for _ in range(rng.randint(1, len(pts)))]
            vals = [ref.peval(R, f, x) for x in pts]
        elif r < .45:
            vals = [R.zero] * len(pts)
            vals[rng.randrange(len(pts))] = R.randnz(rng)
        else: vals = [R.rand(rng) for _ in pts]
        table = dict(zip(pts, vals))
        outside = []

        def fn(x):
            v = k.val(F(x))
            if v not in table:
                outside.append(v)
                return F(0)
            mon.event("point")
            return k.lib(table[v])

        fri = AffineSubspaceFRI(F, space, 1)
        got = fri.commit(fn)
        coeffs = [k.val(c) for c in got]
        d = dict(ring=ring, basis=basis, shift=shift, vals=vals)
        mon.equal(ref.ptrim(R, coeffs), ref.pinterp(R, pts, vals), "commit", **d)
        mon.check(len(coeffs) <= len(pts), "too_many_coefficients", **d)
        mon.check(not outside, "called_outside", at=outside, **d)
        mon.event("outside_never_called")
        mon.equal([k.val(F(x)) for x in space], pts, "space_changed", **d)
        mon.event("commit")
        # other functions, and the same function object with another value somewhere, on the same space
        for _ in range(rng.randrange(2) if dim > 2 else 2):
            at = rng.randrange(len(pts))
            vals[at] = table[pts[at]] = R.add(vals[at], R.randnz(rng))
            f2 = fn if rng.random() < .5 else lambda x: fn(x)
            who = fri if rng.random() < .6 else AffineSubspaceFRI(F, space, 1)
            mon.equal(ref.ptrim(R, [k.val(c) for c in who.commit(f2)]), ref.pinterp(R, pts, vals), "commit_again", **dict(d, vals=vals))
            mon.event("again")
        mon.seen(ring, basis, shift, vals)
        if turn: continue
        text = rng.choice(["", "0", str(rng.random() * 100), "%x" % rng.getrandbits(200), "\u03b1\u03b2" * rng.randrange(5), str(rng.randrange(1000))])
        c = select_random(F, text)
        digest = int(hashlib.sha384(text.encode()).hexdigest(), 16)
        want = R.norm([int(ch) for ch in bin(digest)[2:]])
        mon.equal(k.val(c), want, "challenge", text=text, ring=ring)
        mon.equal(k.val(select_random(F, text)), want, "challenge_repeat", text=text, ring=ring)
        mon.event("challenge")
        # close texts
        for _ in range(6):
            if text and rng.random() < .8:
                at = rng.randrange(len(text))
                text = text[:at] + rng.choice("0123456789abcdef") + text[at + 1:]
            else: text += rng.choice("0 1")
            digest = int(hashlib.sha384(text.encode()).hexdigest(), 16)
            mon.equal(k.val(select_random(F, text)), R.norm([int(ch) for ch in bin(digest)[2:]]), "challenge", text=text, ring=ring)
            mon.event("close_challenge")
        mon.seen(ring, text)
