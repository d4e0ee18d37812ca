"""C06 type constructors: identity by parameters, refusal of bad moduli, no interference."""
import itertools
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is one history of constructor calls (mixed kinds, argument forms and orders) or one sweep over moduli of one (p, m); "
        "distinct non-trivial = distinct (kind, parameters, form)")
REQUIRED = {"memo": 1000, "crowd": 4000, "near_moduli": 150, "construct": 3000, "same": 400, "different": 20000, "reject_reducible": 150, "reject_degree": 150, "default_modulus": 20, "interleaved_op": 1000}

SMALLP = [2, 3, 5, 7, 11, 13, 17, 31]


def cases(rng, tier):
    for p, m in [(2, 2), (2, 3), (2, 4), (2, 5), (3, 2), (3, 3), (5, 2), (7, 2), (5, 3), (11, 2)]:
        yield {"kind": "moduli", "p": p, "m": m}
    for p, m in [(2, 2), (2, 3), (2, 5), (2, 8), (3, 2), (3, 3), (5, 2), (7, 2), (13, 2), (2, 9), (3, 4), (2, 13), (2, 16), (2, 20), (3, 8), (5, 5), (7, 4), (31, 3), (257, 2), (65537, 2)]:
        yield {"kind": "default", "p": p, "m": m}
    for i in range(6 if tier == "quick" else 60):
        yield {"kind": "crowd", "what": "ZQPMF"[i % 5], "n": 900}
    for p, m in [(2, 12), (2, 17), (2, 24), (3, 7), (3, 11), (5, 6), (7, 4), (31, 3), (127, 2), (65537, 2)]:
        yield {"kind": "near", "p": p, "m": m, "n": 6}
    for _ in range(60 if tier == "quick" else 2500):
        yield {"kind": "history", "n": 60}
    for _ in range(12 if tier == "quick" else 200):
        yield {"kind": "memo", "n": 120}


def run_case(spec, mon):
    from starks.finitefield import FiniteField
    from starks.modp import IntegersModP
    from starks.polynomial import polynomials_over
    rng = random.Random(spec["seed"])
    if spec["kind"] == "moduli":
        p, m = spec["p"], spec["m"]
        base = polynomials_over(IntegersModP(p))
        good = 0
        lows = list(itertools.product(range(p), repeat=m))
        if len(lows) > 130:
            lows = rng.sample(lows, 130)
        for low in lows:
            f = list(low) + [1]
            if ref.is_irreducible(p, f):
                F = FiniteField(p, m, base(f))
                mon.equal([int(c) for c in F.ideal_generator.coefficients], f, "modulus_used", p=p, f=f)
                mon.check(F(f) == F(0), "modulus_zero_in_field", p=p, f=f)
                mon.check(FiniteField(p, m, base(list(f))) is F, "same_modulus_other_type", p=p, f=f)
                mon.event("same")
                for d in (m - 1, m + 1, m * 2, 1):
                    if d != m:
                        mon.raises(lambda: FiniteField(p, d, base(f)), "wrong_degree_accepted", p=p, f=f, m=d)
                        mon.event("reject_degree")
                good += 1
            else:
                mon.raises(lambda: FiniteField(p, m, base(f)), "reducible_accepted", p=p, f=f)
                mon.raises(lambda: FiniteField(p=p, m=m, polynomialModulus=base(f)), "reducible_accepted_kw", p=p, f=f)
                mon.event("reject_reducible")
            mon.seen("moduli", p, f)
        mon.check(good > 0, "no_irreducible", p=p, m=m)
        return
    if spec["kind"] == "default":
        p, m = spec["p"], spec["m"]
        mon.check(FiniteField(p, 1) is IntegersModP(p), "degree_one", p=p)
        F = FiniteField(p, m)
        g = [int(c) for c in F.ideal_generator.coefficients]
        mon.check(len(g) == m + 1 and g[-1] == 1, "default_monic_degree", p=p, m=m, g=g)
        mon.check(ref.is_primitive(p, g), "default_primitive", p=p, m=m, g=g)
        mon.check(FiniteField(p, m) is F and FiniteField(m=m, p=p) is F and FiniteField(p, m, None) is F, "default_again", p=p, m=m)
        mon.equal((F.field_size, F.p, F.m), (p**m, p, m), "attributes", p=p, m=m)
        R = ref.RF(p, g)
        for _ in range(30):
            a, b = R.rand(rng), R.rand(rng)
            z = F(list(a)) * F(list(b))
            got = [int(c) for c in z.poly.coefficients]
            mon.equal(tuple(got) + (0,) * (m - len(got)), R.mul(a, b), "default_mul", p=p, g=g, a=a, b=b)
        mon.event("default_modulus", 2)
        mon.seen("default", p, m, g)
        return
    {"crowd": crowd, "near": near, "history": history, "memo": memo}[spec["kind"]](spec, mon, rng)


def crowd(spec, mon, rng):
    """Hundreds of types of one kind; parameters that agree in their low or high parts; all asked for again."""
    from starks.finitefield import FiniteField
    from starks.modp import IntegersModP
    from starks.multivariate_polynomial import multivariates_over
    from starks.polynomial import polynomials_over
    from starks.rationals_modp import RationalsModP
    what = spec["what"]
    ps = set()
    while len(ps) < spec["n"]:
        base = rng.getrandbits(rng.choice([10, 16, 31, 61, 64, 128])) | 1
        for step in (2, 2**16, 2**32, 2**61 - 1, 2**64, 2**128):
            q = base
            for _ in range(400):
                q += step if step % 2 == 0 else 2 * step
                if q > 2 and ref.is_prime(q):
                    ps.add(q)
                    break
    ps = sorted(ps)[:spec["n"]]
    rng.shuffle(ps)
    build = {"Z": lambda p: IntegersModP(p), "Q": lambda p: RationalsModP(p), "P": lambda p: polynomials_over(IntegersModP(p)),
             "M": lambda p: multivariates_over(IntegersModP(p), 1 + p % 7), "F": lambda p: FiniteField(p, 1)}[what]
    first = [build(p) for p in ps]
    mon.equal(len({id(t) for t in first}), len(ps), "shared_type_in_crowd", what=what)
    for p, t in zip(ps, first):
        mon.check(build(p) is t, "not_identical_in_crowd", what=what, p=p)
        ring = t.ring if what in "PM" else t
        mon.equal(ring.p, p, "attributes_in_crowd", what=what, p=p)
        if what in "ZF": mon.equal(int(t(-1) * t(p - 2)), 2 % p, "arithmetic_in_crowd", what=what, p=p)
        mon.event("crowd")
    mon.seen(what, ps[:20])


def near(spec, mon, rng):
    """Irreducible moduli of one degree that differ in few coefficients (the last or first ones)."""
    from starks.finitefield import FiniteField
    from starks.modp import IntegersModP
    from starks.polynomial import polynomials_over
    p, m = spec["p"], spec["m"]
    base = polynomials_over(IntegersModP(p))
    for _ in range(spec["n"]):
        f = ref.find_irreducible(p, m, rng)
        family = [list(f)]
        where = rng.choice([list(range(m)), list(range(max(0, m - 4), m)), list(range(min(4, m)))])
        for _ in range(120):
            g = list(f)
            for i in rng.sample(where, min(len(where), rng.choice([1, 2, 2, 3]))): g[i] = rng.randrange(p)
            if g not in family and ref.is_irreducible(p, g): family.append(g)
            if len(family) > 5: break
        types = [FiniteField(p, m, base(list(g))) for g in family]
        mon.equal(len({id(t) for t in types}), len(family), "shared_type_near", p=p, family=family)
        for g, t in zip(family, types):
            mon.equal([int(c) for c in t.ideal_generator.coefficients], g, "ideal_near", p=p)
            mon.check(FiniteField(p, m, base(list(g))) is t, "not_identical_near", p=p, g=g)
            R = ref.RF(p, g)
            a, b = R.rand(rng), R.rand(rng)
            got = [int(c) for c in (t(list(a)) * t(list(b))).poly.coefficients]
            mon.equal(tuple(got) + (0,) * (m - len(got)), R.mul(a, b), "mul_near", p=p, g=g, a=a, b=b)
            mon.seen("near", p, g)
            mon.event("near_moduli")


def memo(spec, mon, rng):
    """The constructors' memoisation on its own: one call per distinct parameters, whatever their order, form and magnitude."""
    from starks.finitefield import FiniteField
    from starks.modp import IntegersModP
    from starks.numbertype import memoize
    from starks.polynomial import polynomials_over
    calls = []

    def build(a, b, c=7, d=None):
        calls.append((a, b, c, d))
        return [a, b, c, d]
    f = memoize(build)
    ints = [0, 1, 2, 7, -1, -2, 2**61 - 1, 2**61, 2**64, 2**64 + 1, 10**40, 10**40 + 1]
    F5, F7 = IntegersModP(5), IntegersModP(7)
    objs = ints + ["1", "ab", (1, 2), (2, 1), None, F5, F7, polynomials_over(F5)([1, 2]), polynomials_over(F7)([1, 2]), polynomials_over(F5)([2, 1])]
    same = lambda x, y: type(x) is type(y) and bool(x == y)
    made = []
    for _ in range(spec["n"]):
        pool = ints if rng.random() < .5 else objs
        a, b, c, d = (rng.choice(pool) for _ in range(4))
        form = rng.randrange(5)
        if form == 0: got, key = f(a, b), (a, b, 7, None)
        elif form == 1: got, key = f(b=b, a=a), (a, b, 7, None)
        elif form == 2: got, key = f(a, b, d=d), (a, b, 7, d)
        elif form == 3: got, key = f(a, b, c, d), (a, b, c, d)
        else: got, key = f(d=d, c=c, b=b, a=a), (a, b, c, d)
        mon.check(all(same(x, y) for x, y in zip(got, key)), "memo_wrong_parameters", want=key, got=got)
        for k2, v in made:
            mon.check((v is got) is all(same(x, y) for x, y in zip(key, k2)), "memo_identity", a=key, b=k2)
        made.append((key, got))
        mon.event("memo")
    mon.seen("memo", spec["seed"])
    # a modulus over the wrong prime field is refused, also when one that prints alike was accepted
    for _ in range(4):
        p, q = rng.sample(SMALLP[:6], 2)
        p, q = min(p, q), max(p, q)
        g = ref.find_irreducible(p, rng.choice([2, 3]), rng)
        m = len(g) - 1
        FiniteField(p, m, polynomials_over(IntegersModP(p))(list(g)))
        mon.raises(lambda: FiniteField(p, m, polynomials_over(IntegersModP(q))(list(g))), "modulus_of_other_field", p=p, q=q, g=g)
        mon.event("memo")


def history(spec, mon, rng):
    from starks.finitefield import FiniteField
    from starks.floatingpoint import FloatingPoint
    from starks.modp import IntegersModP
    from starks.multivariate_polynomial import multivariates_over
    from starks.polynomial import polynomials_over
    from starks.rationals_modp import RationalsModP
    made = {}       # canonical parameters -> type
    live = []       # (kit, lib element, ref element)

    def field_spec():
        r = rng.random()
        if r < .6:
            return ["Z", rng.choice(SMALLP + ref.MEDIUM[:4])]
        if r < .8:
            return rand_field(rng, 2**9)
        return ["Qp", rng.choice(SMALLP)]

    for step in range(spec["n"]):
        kind = rng.choice("ZQFPMfo")
        fs = field_spec()
        form = rng.randrange(3)
        if kind == "Z":
            p = rng.choice(SMALLP + ref.MEDIUM + ref.BIG)
            key = ("Z", p)
            T = IntegersModP(p) if form else IntegersModP(p=p)
        elif kind == "Q":
            p = rng.choice(SMALLP + ref.MEDIUM + ref.BIG)
            key = ("Qp", p)
            T = RationalsModP(p) if form else RationalsModP(p=p)
        elif kind == "F":
            _, p, f = rand_field(rng, 2**9)
            m = len(f) - 1
            g = polynomials_over(IntegersModP(p))(list(f))
            key = ("F", p, m, tuple(f))
            T = [lambda: FiniteField(p, m, g), lambda: FiniteField(p, m, polynomialModulus=g),
                 lambda: FiniteField(polynomialModulus=g, m=m, p=p)][form]()
        elif kind == "P":
            if rng.random() < .2:
                fs = ["Q"]
            F = kit(fs).T
            key = ("P", repr(fs))
            T = polynomials_over() if fs == ["Q"] and form == 0 else polynomials_over(F) if form == 1 else polynomials_over(ring=F)
        elif kind == "M":
            F = kit(fs).T
            n = rng.randint(1, 5)
            key = ("M", repr(fs), n)
            T = [lambda: multivariates_over(F, n), lambda: multivariates_over(F, num_vars=n),
                 lambda: multivariates_over(num_vars=n, ring=F)][form]()
        elif kind == "f":
            _, p, f = rand_field(rng, 2**9)
            while p != 2:
                _, p, f = rand_field(rng, 2**9)
            F = kit(["F", p, f]).T
            key = ("fp", tuple(f))
            T = FloatingPoint(F)
        else:
            # arithmetic in an existing type, after everything built meanwhile
            if not live:
                continue
            k, x, a = rng.choice(live)
            b = k.R.rand(rng)
            y = k.lib(b)
            mon.equal(k.val(x + y), k.R.add(a, b), "interference+", ring=(k.kind, k.p, k.mod), a=a, b=b)
            mon.equal(k.val(x * y), k.R.mul(a, b), "interference*", ring=(k.kind, k.p, k.mod), a=a, b=b)
            mon.equal(k.val(x), a, "interference", ring=(k.kind, k.p, k.mod), a=a)
            mon.event("interleaved_op", 3)
            continue
        mon.event("construct")
        if key in made:
            mon.check(T is made[key], "not_identical", key=key, form=form)
            mon.event("same")
        for other, U in made.items():
            if other != key:
                mon.check(U is not T, "shared_type", a=other, b=key)
        mon.event("different", len(made))
        made[key] = T
        mon.seen(key, form)
        if kind == "Z":
            mon.equal((T.p, T.field_size), (p, p), "attributes", key=key)
        elif kind == "F":
            mon.equal((T.p, T.m, T.field_size), (p, m, p**m), "attributes", key=key)
            mon.equal(tuple(int(c) for c in T.ideal_generator.coefficients), tuple(f), "ideal", key=key)
            mon.check(T.base_field is IntegersModP(p) and T.primeSubfield is IntegersModP(p), "base_field", key=key)
        elif kind == "P":
            mon.check(T.ring is F, "ring", key=key)
        elif kind == "M":
            mon.check(T.ring is F, "ring", key=key)
        k = kit(fs)
        a = k.R.rand(rng)
        live.append((k, k.lib(a), a))

