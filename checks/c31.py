"""C31 algebraic placement (APR) and the ALI random constraint."""
import random
from types import SimpleNamespace

from vlib import ref
from vlib.kits import kit

RULE = ("a case is one placement of an AIR-like computation (binary field, width, steps, boundary set, expansion) or a batch of ALI constraints; distinct "
        "non-trivial = distinct placements and coefficient vectors")
REQUIRED = {"placement": 80, "space": 400, "boundary": 250, "boundary_late": 100, "boundary_empty": 40, "neighbour": 250, "rate": 300, "constraint": 300,
            "zero_coefficient": 40, "wide": 12, "long_trace": 12, "boundary_far": 20, "boundary_many": 10, "many_constraints": 20, "high_degree": 15, "boundary_end": 3, "same_object": 60}
UNCLAIMED = ("generate_witness", "construct_Phi_polynomials")
LIMITS = {"cpu": 150}


def cases(rng, tier):
    for _ in range(110 if tier == "quick" else 5000):
        yield {"kind": "apr"}
    for _ in range(60 if tier == "quick" else 2000):
        yield {"kind": "ali"}
    for _ in range(16 if tier == "quick" else 400):
        yield {"kind": "apr", "big": "wide"}
        yield {"kind": "apr", "big": "long"}
    for _ in range(12 if tier == "quick" else 200):
        yield {"kind": "ali", "many": True}


def polynum(x, F2):
    """The integer whose bits are the coefficients of a polynomial over GF(2) (or of an element of the base field)."""
    cs = x.coefficients if hasattr(x, "coefficients") else [x]
    return sum(int(F2(c)) << i for i, c in enumerate(cs))


def span(gens, shift=0):
    out = {shift}
    for g in gens: out |= {x ^ g for x in out}
    return out


def clmod(a, m):
    while a.bit_length() >= m.bit_length(): a ^= m << a.bit_length() - m.bit_length()
    return a


def run_case(spec, mon):
    from starks.apr import APR
    rng = random.Random(spec["seed"])
    if spec["kind"] == "ali":
        return ali(mon, rng, spec.get("many"))
    big = spec.get("big")
    if big:     # the parts that are not claimed take minutes over many steps
        saved = {name: getattr(APR, name) for name in UNCLAIMED if hasattr(APR, name)}
        if len(saved) < len(UNCLAIMED): big += "ish"
        try:
            for name in saved: setattr(APR, name, lambda self, *a: [])
            return placement(mon, APR, rng, big)
        finally:
            for name, v in saved.items(): setattr(APR, name, v)
    placement(mon, APR, rng, None)


def placement(mon, APR, rng, big):
    w = rng.choice([6, 6, 7]) if big and big[0] == "w" else rng.choice([2, 2, 3]) if big else rng.randint(2, 5)
    m = rng.randint(w + 1, 9) if not big else w + 1
    k = kit(["F", 2, ref.find_irreducible(2, m, rng)])
    R, F = k.R, k.T
    F2 = F.base_field
    t = rng.choice([8, 9, 9, 10]) if big == "long" else 8 if big == "longish" else 6 if big else rng.randint(1, 5)
    steps = rng.choice([2**t, 2**t, 2**(t + 1) - 1, rng.randrange(2**t, 2**(t + 1))])
    cdeg = rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 9, 15, 16, 31, 32, 33, 64, 100])
    mon.event("high_degree", cdeg > 15)
    order = 2**w - 1
    vals = {}
    for j in range(w):
        if rng.random() < .8:
            times = [0] if rng.random() < .4 else rng.sample(range(max(2, min(order, steps))), rng.randint(1, min(order, 3, max(2, min(order, steps)))))
            if rng.random() < .25: times = [i + order if rng.random() < .5 else i for i in times]
            if big and big[0] == "w":
                top = min(order, steps)
                times = rng.sample(range(top), rng.choice([7, 8, 9]) if j == w % 3 else rng.choice([1, 1, 2]))
                if rng.random() < .5: times = sorted(set(times) | {top - 1, top - 2})
                if len(times) > 6: mon.event("boundary_many")
                if max(times) > 31: mon.event("boundary_far")
            if big and big[0] == "l" and steps > 255 and not j & 1 and rng.random() < .4:      # late times of a long computation
                times = [i % order + order * rng.randrange(steps // order - 1) for i in set(times)]
                if rng.random() < .6: times[-1] = times[-1] % order + order * (steps // order - 1)
                mon.event("boundary_end")
            vals[j] = {i: (R.zero if rng.random() < .15 else R.rand(rng)) for i in times}
    B = [(i, j, k.lib(v)) for j, d in vals.items() for i, v in d.items()]
    rng.shuffle(B)
    tr = [[k.lib(R.rand(rng)) for _ in range(steps)] for _ in range(w)]
    zk = rng.choice([1, 2, 5, 5, 9, 16, 24, 40])
    states = [[tr[j][i] for j in range(w)] for i in range(steps)]
    air = SimpleNamespace(field=F, F=F, width=w, w=w, steps=steps, T=steps, CDegree=cdeg, B=list(B), Polys=[], C=None, d=10, t=t, inp=states[0], step_polys=[],
                          computational_trace=states, output=states[-1], extension_factor=8, generate_witness=lambda: tr)
    a = APR(air, zk) if rng.random() < .5 else APR(air, zero_knowledge_expansion=zk)
    info = dict(field=k.mod, width=w, steps=steps, B=vals, k=zk, CDegree=cdeg)
    d = cdeg.bit_length()
    mon.equal((a.t, a.k, a.d), (t, zk, d), "parameters", **info)
    N = 1 + a.k + a.R + t + d
    zeta = polynum(a.zeta, F2)
    mon.check(zeta.bit_length() == w + 1 and ref.is_primitive(2, [zeta >> i & 1 for i in range(w + 1)]), "zeta_not_primitive", zeta=bin(zeta), **info)

    def space(sp, gens, shift, name, enumerate_it):
        got = [polynum(g, F2) for g in sp.basis]
        mon.equal(len(got), len(gens), "dimension", space=name, **info)
        mon.equal((got, polynum(sp.shift, F2)), (gens, shift), "generators", space=name, **info)
        mon.equal(sp.__len__(), 2**len(gens), "size", space=name, **info)
        if enumerate_it:
            pts = [polynum(x, F2) for x in sp]
            mon.check(len(pts) == 2**len(gens) and set(pts) == span(gens, shift), "elements", space=name, **info)
            mon.event("space")
            return set(pts)

    g = [1 << i for i in range(N + 3)]
    H = space(a.H, g[:t], 0, "H", True)
    H0 = space(a.H0, g[:t - 1], 0, "H0", True)
    H1 = space(a.H1, g[:t - 1], g[t - 1], "H1", True)
    mon.check(H0 | H1 == H and not H0 & H1, "partition", H=H, H0=H0, H1=H1, **info)
    space(a.L, g[:N] + [g[N] | g[N + 1]], g[N], "L", False)
    space(a.Lcmp, g[:N], g[N], "Lcmp", False)
    if N <= 11: mon.check(not set(polynum(x, F2) for x in a.Lcmp) & H, "Lcmp_meets_H", **info)
    mon.event("space", 2)

    node = lambda i: R.norm([clmod(1 << i, zeta) >> b & 1 for b in range(w + 1)])
    mon.equal((len(a.Z_boundaries), len(a.Eps_boundaries)), (w, w), "boundary_count", **info)
    for j in range(w):
        c = vals.get(j, {})
        xs, ys = [node(i) for i in c], [c[i] for i in c]
        Z, E = a.Z_boundaries[j], a.Eps_boundaries[j]
        mon.equal(k.pval(Z), ref.proots(R, xs), "boundary_polynomial", register=j, **info)
        mon.equal(k.pval(E), ref.pinterp(R, xs, ys) if xs else [], "boundary_interpolant", register=j, **info)
        for x in R.all():
            if R.size > 64 and rng.random() > min(.2, 60 / R.size) and x not in xs: continue
            mon.check((k.val(F(Z(k.lib(x)))) == R.zero) is (x in xs), "boundary_roots", register=j, x=x, **info)
        for x, y in zip(xs, ys): mon.equal(k.val(F(E(k.lib(x)))), y, "boundary_value", register=j, x=x, **info)
        mon.event("boundary")
        if not c: mon.event("boundary_empty")
        elif max(c): mon.event("boundary_late")
        mon.equal(a.rho_js[j], (2**(a.k + t) - len(xs)) / 2**(N + 1), "rate", register=j, **info)
        mon.event("rate")
    mon.equal(a.rho_cmp, (1 + 2**(a.k + t + d)) / 2**N, "rate_cmp", **info)
    mon.check(0 < a.rho_cmp < 1 and all(0 <= r < 1 for r in a.rho_js), "rate_range", **info)
    mon.event("rate")
    gx = R.norm([0, 1])
    zt = R.norm([zeta >> b & 1 for b in range(w + 1)])
    nbrs = sorted((tau, tuple(k.pval(n))) for tau, n in a.Nbrs)
    want = sorted((tau, tuple(ref.ptrim(R, n))) for tau in range(w) for n in ([R.zero, R.one], [R.zero, gx], [zt, gx]))
    mon.equal(nbrs, want, "neighbours", **info)
    mon.equal(list(a.Tau), list(range(w)), "indices", **info)
    mon.event("neighbour", w)
    mon.equal([(i, j, k.val(v)) for i, j, v in air.B], [(i, j, k.val(v)) for i, j, v in B], "constraints_changed", **info)
    mon.event("placement")
    if big and big[0] == "w": mon.event("wide")
    if steps > 255: mon.event("long_trace")
    mon.seen(repr(info))


def ali(mon, rng, many=False):
    from starks.ali import ALIProver
    k = kit(rng.choice([["F", 2, ref.find_irreducible(2, rng.randint(2, 9), rng)]] * 4 + [["Z", rng.choice([2, 7, 97, ref.P256])]]))
    R = k.R
    for _ in range(3 if many else 8):
        n, c = rng.randint(1, 4), rng.choice([1, 2, 2, 3, 5, 8])
        if many:
            n, c = rng.randint(1, 2), rng.choice([15, 16, 17, 20, 32, 33, 40, 65])
            mon.event("many_constraints")
        Phi = []
        for _ in range(c):
            f = ref.mtrim(R, {tuple(rng.randrange(4) for _ in range(n)): R.rand(rng) for _ in range(rng.randint(0, 5))})
            Phi.append(f)
        if c > 1 and rng.random() < .2: Phi[-1] = Phi[0]
        twice = c > 1 and rng.random() < .4
        if twice:                       # one constraint object in two places
            at = rng.randrange(1, c)
            Phi[at] = Phi[rng.choice([0, at - 1])]
        r = [R.zero if rng.random() < .2 else R.one if rng.random() < .1 else R.rand(rng) for _ in range(c)]
        lp = [k.multi(f, n) for f in Phi]
        if twice:
            lp[at] = lp[Phi.index(Phi[at])]
            mon.event("same_object")
        lr = [k.lib(x) for x in r]
        from starks.reedsolomon import AffineSpace
        apr = SimpleNamespace(field=k.T, Phi=list(lp), rho_cmp=.25, rho_js=[.25], Lcmp=AffineSpace(k.T, [k.T(1)]), L=AffineSpace(k.T, [k.T(1)]))
        got = ALIProver(apr).generate_random_constraint(list(lr))
        want = {}
        for x, f in zip(r, Phi): want = ref.madd(R, want, {e: R.mul(x, v) for e, v in f.items()})
        d = dict(ring=(k.kind, k.p, k.mod), n=n, Phi=Phi, r=r)
        mon.equal(k.mval(got, n), ref.mtrim(R, want), "random_constraint", **d)
        mon.equal([k.mval(f, n) for f in lp], Phi, "constraints_changed", **d)
        mon.equal([k.val(x) for x in lr], r, "coefficients_changed", **d)
        mon.event("constraint")
        if R.zero in r: mon.event("zero_coefficient")
        mon.seen(repr(d))
