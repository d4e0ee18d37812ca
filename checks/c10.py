"""C10 affine spaces and vanishing polynomials, enumerated completely."""
import itertools
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is one batch of spaces (random basis incl. dependent and zero vectors, polynomials or field elements, shift or none) over one field; "
        "every element is compared; distinct non-trivial = distinct (field, basis, shift)")
REQUIRED = {"space": 200, "element": 3000, "shifted": 80, "vanishing": 80, "vanishing_point": 1500, "subspace": 100, "eval": 800, "big_space": 60}


def cases(rng, tier):
    for f in ([2, [1, 1, 0, 1]], [2, [1, 1, 0, 0, 1]], [3, [2, 1, 1]], [5, [2, 0, 1]], [2, [1, 0, 1, 0, 0, 1]]):
        yield {"field": ["F"] + f, "n": 8}
    for _ in range(70 if tier == "quick" else 3000):
        yield {"field": rand_field(rng, 2**8), "n": 5}


def run_case(spec, mon):
    from starks.fri import eval_on_subspace, select_subspace
    from starks.modp import IntegersModP
    from starks.polynomial import polynomials_over
    from starks.poly_utils import construct_affine_vanishing_polynomial
    from starks.reedsolomon import AffineSpace
    rng = random.Random(spec["seed"])
    k = kit(spec["field"])
    R, F, p = k.R, k.T, k.p
    Zp = IntegersModP(p)
    base = polynomials_over(Zp)
    ring = (p, k.mod)
    for it in range(spec["n"]):
        dim = rng.randint(0, 6 if p == 2 else 3 if p == 3 else 2 if p < 12 else 1) if it or spec["n"] > 5 else 9 if p == 2 else 5 if p == 3 else 3 if p < 8 else 2 if p < 20 else 1
        aspoly = rng.random() < .5
        basis = [R.rand(rng) if rng.random() < .3 else R.randnz(rng) for _ in range(dim)]
        shift = R.rand(rng) if rng.random() < .5 else None
        if basis and rng.random() < .3: shift = rng.choice([basis[0], basis[-1], R.add(basis[0], basis[-1]), R.neg(basis[-1])])
        mk = (lambda a: base(list(a))) if aspoly else (lambda a: F(list(a)))
        lb = [mk(b) for b in basis]
        space = AffineSpace(Zp, lb, mk(shift)) if shift is not None else AffineSpace(Zp, lb)
        want = []
        for cs in itertools.product(range(p), repeat=dim):
            e = shift or R.zero
            for c, b in zip(cs, basis):
                e = R.add(e, R.mul(R.int(c), b))
            want.append(e)
        d = dict(field=ring, basis=basis, shift=shift, aspoly=aspoly)
        for turn in range(2):
            got = [k.val(F(e)) for e in space]
            mon.equal(got, want, "elements", turn=turn, **d)
        mon.equal(len(space), p**dim, "len", **d)
        if it == 0:
            mon.equal(len(AffineSpace(Zp, [lb[0]] * 12 if lb else [])), p**(12 if lb else 0), "len_dependent", **d)
            mon.equal(len(AffineSpace(F, [F(list(a)) for a in (R.rand(rng) for _ in range(5))])), R.size**5, "len_over_extension", **d)
        # two iterations of the same space at once
        a, b = iter(space), iter(space)
        for e in want[:9]:
            mon.equal((k.val(F(next(a))), k.val(F(next(b)))), (e, e), "interleaved", **d)
        mon.equal([k.val(F(x)) for x in lb], basis, "basis_changed", **d)
        mon.event("space")
        if len(want) > 100: mon.event("big_space")
        mon.event("element", len(want))
        if shift is not None: mon.event("shifted")
        mon.seen(ring, basis, shift, aspoly)
        # subspace
        eta = rng.randint(0, dim)
        sub = select_subspace(space, eta)
        ws = []
        for cs in itertools.product(range(p), repeat=eta):
            e = R.zero
            for c, b in zip(cs, basis):
                e = R.add(e, R.mul(R.int(c), b))
            ws.append(e)
        mon.equal([k.val(F(e)) for e in sub], ws, "subspace", eta=eta, **d)
        mon.equal([k.val(F(e)) for e in space], want, "space_changed", eta=eta, **d)
        mon.event("subspace")
        # evaluation over the space of field elements
        if dim and not aspoly:
            q = ref.ptrim(R, [R.rand(rng) for _ in range(rng.randint(0, 6))])
            got = [k.val(v) for v in eval_on_subspace(k.poly(q), space)]
            mon.equal(got, [ref.peval(R, q, e) for e in want], "eval_on_subspace", q=q, **d)
            mon.event("eval", len(got))
        # vanishing polynomial
        if len(want) <= 32:
            van = construct_affine_vanishing_polynomial(F, space)
            z = k.pval(van)
            mon.equal(z, ref.proots(R, want), "vanishing_coefficients", **d)
            mon.check(len(z) == len(want) + 1 and z[-1] == R.one, "vanishing_monic_degree", **d)
            pts = list(R.all()) if R.size <= 32 else want[:10] + [R.rand(rng) for _ in range(15)]
            inside = set(want)
            for e in pts:
                v = k.val(van(F(list(e))))
                mon.check((v == R.zero) == (e in inside), "vanishing_value", at=e, **d)
            mon.event("vanishing_point", len(pts))
            mon.event("vanishing")
