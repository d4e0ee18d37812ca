"""C12 functions compiled to polynomials, dirac deltas, lifting and projecting variables, index polynomials."""
import itertools
import random

from vlib import ref
from vlib.kits import kit, rand_field, rand_prime

RULE = ("a case is one function table compiled over F_q^n and evaluated at all q^n points, or a batch of polynomials lifted / projected / index "
        "polynomials evaluated; distinct non-trivial = distinct tables and polynomials")
REQUIRED = {"compiled": 80, "compiled_point": 1200, "dirac": 150, "lift": 800, "project": 800, "index": 400}

DOM = [(["Z", 2], 1), (["Z", 2], 2), (["Z", 2], 3), (["Z", 2], 4), (["Z", 3], 1), (["Z", 3], 2), (["Z", 3], 3), (["Z", 5], 1), (["Z", 5], 2), (["Z", 7], 1),
       (["Z", 7], 2), (["Z", 13], 1), (["F", 2, [1, 1, 1]], 1), (["F", 2, [1, 1, 1]], 2), (["F", 2, [1, 1, 0, 1]], 1),
       (["F", 3, [1, 0, 1]], 1), (["F", 2, [1, 0, 0, 1, 1]], 1)]


def cases(rng, tier):
    for ring, n in DOM:
        for _ in range(5):
            yield {"kind": "table", "ring": ring, "n": n}
    for i in range(120 if tier == "quick" else 3000):
        if i % 5 == 4:
            ring, n = rng.choice(DOM)
            yield {"kind": "table", "ring": ring, "n": n}
        else:
            yield {"kind": "vars", "ring": ["Z", rand_prime(rng)] if rng.random() < .6 else rand_field(rng, 2**10), "n": 12}


def run_case(spec, mon):
    from starks.poly_utils import (construct_multivariate_coefficients, construct_multivariate_dirac_delta, make_multivar, project_to_univariate)
    from starks.utils import generate_Xi_s
    rng = random.Random(spec["seed"])
    k = kit(spec["ring"])
    R, F = k.R, k.T
    ring = (k.kind, k.p, k.mod)
    if spec["kind"] == "table":
        n = spec["n"]
        els = list(R.all())
        pts = list(itertools.product(els, repeat=n))
        r = rng.random()
        if r < .2: table = {x: R.zero for x in pts}; table[rng.choice(pts)] = R.randnz(rng)
        elif r < .3: c = R.rand(rng); table = {x: c for x in pts}
        elif r < .5: i = rng.randrange(n); table = {x: x[i] for x in pts}
        else: table = {x: R.rand(rng) for x in pts}

        def step(vec):
            return k.lib(table[tuple(k.val(v) for v in vec)])

        poly = construct_multivariate_coefficients(F, step, n)
        a = k.mval(poly, n)
        for x in pts:
            mon.equal(ref.meval(R, a, x), table[x], "compiled_value", ring=ring, n=n, x=x)
            if len(pts) <= 64:
                mon.equal(k.val(poly([k.lib(c) for c in x])), table[x], "compiled_eval", ring=ring, n=n, x=x)
        mon.event("compiled")
        mon.event("compiled_point", len(pts))
        mon.seen(ring, n, sorted(table.items()))
        for _ in range(3):
            at = rng.choice(pts)
            lat = [k.lib(c) for c in at]
            delta = k.mval(construct_multivariate_dirac_delta(F, lat, n), n)
            for x in pts:
                mon.equal(ref.meval(R, delta, x), R.one if x == at else R.zero, "dirac", ring=ring, n=n, at=at, x=x)
            mon.equal(tuple(k.val(c) for c in lat), at, "dirac_argument", ring=ring)
            mon.event("dirac")
        return
    for _ in range(spec["n"]):
        w = rng.choice([1, 2, 3, 4, 5, 7, 9, 12])
        i = rng.randrange(w)
        a = ref.ptrim(R, [R.rand(rng) for _ in range(rng.choice([rng.randint(0, 7), rng.randint(0, 7), 20, 45]))])
        got = k.mval(make_multivar(k.poly(a), i, F, w), w)
        want = ref.mtrim(R, {tuple(e if j == i else 0 for j in range(w)): c for e, c in enumerate(a)})
        mon.equal(got, want, "lift", ring=ring, w=w, i=i, a=a)
        mon.event("lift")
        mon.seen(ring, w, i, a)
        for _ in range(2):      # again with one coefficient, or the variable, changed
            a = list(a)
            if a and rng.random() < .7: a[rng.randrange(len(a))] = R.rand(rng)
            else: i = rng.randrange(w)
            a = ref.ptrim(R, a)
            got = k.mval(make_multivar(k.poly(a), i, F, w), w)
            mon.equal(got, ref.mtrim(R, {tuple(e if j == i else 0 for j in range(w)): c for e, c in enumerate(a)}), "lift", ring=ring, w=w, i=i, a=a)
            mon.event("lift")
        w = rng.choice([2, 3, 4, 5, 7, 9, 12])
        i = rng.randrange(w)
        big = rng.choice([2, 4, 4, 12, 30, 80])
        b = ref.mtrim(R, {tuple(rng.randrange(big) if rng.random() < .6 else 0 for _ in range(w)): R.rand(rng) for _ in range(rng.choice([rng.randint(0, 7), rng.randint(0, 7), 25]))})
        lb = k.multi(b, w)
        u = project_to_univariate(lb, i, F, w)
        if type(u) is int:
            parts = [{}] if u == 0 else None
        else:
            parts = [k.mval(c, w - 1) for c in u.coefficients]
        mon.check(parts is not None, "project_type", ring=ring, got=u)
        back = {}
        for e, c in enumerate(parts):
            for t, v in c.items():
                key = t[:i] + (e,) + t[i:]
                mon.check(key not in back, "project_duplicate", ring=ring, b=b, i=i)
                back[key] = v
        mon.equal(back, b, "project", ring=ring, w=w, i=i)
        mon.equal(k.mval(lb, w), b, "project_changed_argument", ring=ring)
        mon.event("project")
        mon.seen(ring, w, i, sorted(b.items()))
        if b:                   # again with one coefficient changed
            b = dict(b)
            b[rng.choice(sorted(b))] = R.rand(rng)
            b = ref.mtrim(R, b)
            u = project_to_univariate(k.multi(b, w), i, F, w)
            back = {t[:i] + (e,) + t[i:]: v for e, c in enumerate([{}] if type(u) is int else [k.mval(c, w - 1) for c in u.coefficients]) for t, v in c.items()}
            mon.equal(back, b, "project", ring=ring, w=w, i=i)
            mon.event("project")
        w = rng.choice([1, 2, 3, 5, 8, 9, 16, 33, rng.randint(34, 70)])
        X = generate_Xi_s(F, w)
        mon.equal(len(X), w, "index_count", ring=ring, w=w)
        xs = [R.rand(rng) for _ in range(w)]
        mon.equal([k.val(f([k.lib(c) for c in xs])) for f in X], xs, "index_value", ring=ring, w=w)
        mon.equal([k.mval(f, w) for f in X], [{tuple(int(q == j) for q in range(w)): R.one} for j in range(w)], "index_monomial", ring=ring, w=w)
        mon.event("index")
