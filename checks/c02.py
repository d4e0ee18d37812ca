"""C02 extension-field arithmetic against tuples reduced modulo the field's generator."""
import random

from vlib import ref
from vlib.kits import kit, rand_field, FIELDS

RULE = ("a case is one field (p, modulus) with exhaustive element pairs (size <= 32), random batches or expression chains; "
        "distinct non-trivial = distinct (field, operation, operands)")
REQUIRED = {"huge": 100, "negative_pow": 400, "op": 10000, "inverse": 400, "zero_division": 50, "construct": 1000, "pow": 800, "frobenius": 200, "chain_step": 800}
LIMITS = {"cpu": 200}
ASSUMPTIONS = ["the modulus is read from the type's ideal_generator when none is given"]


def cases(rng, tier):
    for p, f in FIELDS:
        if p ** (len(f) - 1) <= 32:
            yield {"kind": "exh", "field": ["F", p, f]}
        yield {"kind": "batch", "field": ["F", p, f], "n": 25}
        yield {"kind": "huge", "field": ["F", p, f], "n": 6}
    yield {"kind": "batch", "field": ["F", 3, [2, 0, 2]], "n": 25}       # moduli that are not monic
    yield {"kind": "batch", "field": ["F", 5, [4, 0, 2]], "n": 25}
    yield {"kind": "batch", "field": ["F", 7, [2, 3, 3]], "n": 25}
    for p, m in ((17, 5), (101, 5), (2, 31), (3, 9), (65537, 6), (2**61 - 1, 4)):
        f = ref.find_irreducible(p, m, rng)
        yield {"kind": "huge", "field": ["F", p, f], "n": 1 if m > 9 else 4}
        yield {"kind": "batch", "field": ["F", p, f], "n": 4}
    for p, m in ((2, 2), (2, 3), (2, 5), (2, 8), (3, 2), (3, 3), (5, 2), (7, 2), (13, 2)):
        yield {"kind": "default", "p": p, "m": m}
    n = 130 if tier == "quick" else 5000
    for i in range(n):
        yield {"kind": "chain" if i % 4 == 0 else "batch", "field": rand_field(rng), "n": 20}


def binary(mon, k, a, b, la, lb):
    R = k.R
    mon.equal(k.val(la + lb), R.add(a, b), "add", f=(k.p, k.mod), a=a, b=b)
    mon.equal(k.val(la - lb), R.sub(a, b), "sub", f=(k.p, k.mod), a=a, b=b)
    mon.equal(k.val(la * lb), R.mul(a, b), "mul", f=(k.p, k.mod), a=a, b=b)
    mon.check((la == lb) is (a == b), "eq", f=(k.p, k.mod), a=a, b=b)
    mon.check((la != lb) is (a != b), "ne", f=(k.p, k.mod), a=a, b=b)
    if b != R.zero:
        mon.equal(k.val(la / lb), R.mul(a, R.inv(b)), "div", f=(k.p, k.mod), a=a, b=b)
    mon.equal((k.val(la), k.val(lb)), (a, b), "operand_changed", f=(k.p, k.mod), a=a, b=b)
    mon.event("op", 6)
    mon.seen(k.p, k.mod, a, b)


def with_int(mon, k, a, la, i):
    R = k.R
    c = R.int(i)
    d = dict(f=(k.p, k.mod), a=a, i=i)
    mon.equal(k.val(la + i), R.add(a, c), "add_int", **d)
    mon.equal(k.val(i + la), R.add(a, c), "int_add", **d)
    mon.equal(k.val(la - i), R.sub(a, c), "sub_int", **d)
    mon.equal(k.val(i - la), R.sub(c, a), "int_sub", **d)
    mon.equal(k.val(la * i), R.mul(a, c), "mul_int", **d)
    mon.equal(k.val(i * la), R.mul(a, c), "int_mul", **d)
    mon.check((la == i) is (a == c) and (i == la) is (a == c), "eq_int", **d)
    mon.check((la != i) is (a != c) and (i != la) is (a != c), "ne_int", **d)
    if a != R.zero:
        mon.equal(k.val(i / la), R.mul(c, R.inv(a)), "int_div", **d)
    mon.event("op", 8)


def unary(mon, k, a, la, rng):
    R, T = k.R, k.T
    d = dict(f=(k.p, k.mod), a=a)
    mon.equal(k.val(-la), R.neg(a), "neg", **d)
    if a != R.zero:
        inv = la.inverse()
        mon.equal(k.val(inv), R.inv(a), "inverse", **d)
        mon.equal(k.val(la * inv), R.one, "inverse_product", **d)
        mon.check(inv * la == 1, "inverse_product_eq", **d)
        mon.event("inverse")
    else:
        mon.raises(lambda: la.inverse(), "zero_inverse", **d)
        mon.raises(lambda: T(1) / la, "zero_division", **d)
        mon.event("zero_division")
    mon.equal(k.val(la ** R.size), a, "fermat", **d)
    b = R.rand(rng)
    mon.equal(k.val((la + k.lib(b)) ** k.p), R.add(R.pow(a, k.p), R.pow(b, k.p)), "frobenius", b=b, **d)
    mon.event("frobenius")
    for e in (0, 1, 2, 3, k.p, R.size - 1, R.size - 2, rng.randrange(300), rng.randrange(R.size * 3)):
        mon.equal(k.val(la ** e), R.pow(a, e), "pow", e=e, **d)
        mon.event("pow")
        if rng.random() < .6: continue
        if a != R.zero:
            mon.equal(k.val(la ** -e), R.pow(R.inv(a), e), "negative_pow", e=-e, **d)
            mon.event("negative_pow")
        elif e: mon.raises(lambda: la ** -e, "negative_power_of_zero", e=-e, **d)
    construct(mon, k, a, rng)
    mon.equal(k.val(la), a, "operand_changed", **d)


def construct(mon, k, a, rng):
    from starks.modp import IntegersModP
    from starks.polynomial import polynomials_over
    R, T, p = k.R, k.T, k.p
    Zp = IntegersModP(p)
    Pol = polynomials_over(Zp)
    mon.equal(k.val(T(list(a))), a, "from_list", a=a)
    mon.equal(k.val(T(T(list(a)))), a, "from_element", a=a)
    mon.equal(k.val(T(Pol(list(a)))), a, "from_poly", a=a)
    mon.equal(k.val(T(tuple(Zp(c) for c in a))), a, "from_elements", a=a)
    long = [rng.choice([0, 1, p - 1, rng.randrange(p), rng.randrange(-p, 3 * p)]) for _ in range(rng.randrange(0, 3 * R.m + 3))]
    want = R.norm(long)
    d = dict(f=(p, k.mod), coeffs=long)
    mon.equal(k.val(T(long)), want, "from_long_list", **d)
    mon.equal(k.val(T(Pol(long))), want, "from_long_poly", **d)
    if p < 2**256:
        by = b"".join((c % p).to_bytes(32, "big") for c in long)
        mon.equal(k.val(T(by)), want, "from_bytes", **d)
    i = rng.choice([0, 1, p, -1, -p, p - 1, rng.randrange(-10**6, 10**6)])
    mon.equal(k.val(T(i)), R.int(i), "from_int", i=i)
    mon.equal(k.val(T(Zp(i))), R.int(i), "from_base", i=i)
    mon.event("construct", 8)
    mon.seen(p, k.mod, "c", long)


def run_case(spec, mon):
    rng = random.Random(spec["seed"])
    if spec["kind"] == "default":
        from starks.finitefield import FiniteField
        T = FiniteField(spec["p"], spec["m"])
        mod = [int(c) for c in T.ideal_generator.coefficients]
        k = kit(["F", spec["p"], mod])
        k2 = type(k).__new__(type(k))
        k2.__dict__.update(k.__dict__)
        k2.T = T
        mon.check(len(mod) == spec["m"] + 1 and mod[-1] == 1 and ref.is_primitive(spec["p"], mod), "default_modulus", mod=mod)
        k = k2
        spec = {"kind": "batch", "n": 25}
    else:
        k = kit(spec["field"])
    R, T = k.R, k.T
    if spec["kind"] == "exh":
        els = [(a, k.lib(a)) for a in R.all()]
        mon.equal((T.p, T.m, T.field_size), (R.p, R.m, R.size), "attributes")
        for a, la in els:
            unary(mon, k, a, la, rng)
            for b, lb in els:
                binary(mon, k, a, b, la, lb)
            for i in range(-R.p - 1, 2 * R.p + 2):
                with_int(mon, k, a, la, i)
        # the non-zero elements form a cyclic group of the full size
        mon.check(any(len({k.val(x ** e) for e in range(R.size - 1)}) == R.size - 1 for a, x in els[1:]), "cyclic", f=k.mod)
        return
    if spec["kind"] == "huge":
        from starks.modp import IntegersModP
        from starks.polynomial import polynomials_over
        Pol = polynomials_over(IntegersModP(R.p))
        N = R.size - 1
        for _ in range(spec["n"]):
            a = rng.choice([R.zero, R.one, R.rand(rng), R.rand(rng), R.rand(rng), R.rand(rng)])
            la = k.lib(a)
            bits = rng.choice([64, 128, 257] if R.m > 9 else [64, 128, 257, 512, 600, 1025, 2000])
            for e in (2**bits, 2**bits - 1, rng.getrandbits(bits), N * rng.getrandbits(40), N * 2**rng.randrange(bits // 3), N + 1):
                # Lagrange: exponents of a non-zero element count modulo the order of the group
                want = R.zero if a == R.zero and e else R.pow(a, e % N)
                mon.equal(k.val(la ** e), want, "huge_pow", f=(k.p, k.mod), a=a, e=e)
                mon.event("pow")
                if a != R.zero and rng.random() < .2:
                    mon.equal(k.val(la ** -e), R.pow(a, -e % N), "huge_negative_pow", f=(k.p, k.mod), a=a, e=-e)
            for n in (4 * R.m, 4 * R.m + 1, rng.randrange(5 * R.m, 12 * R.m + 3)):
                cs = [rng.randrange(-2**70, 2**70) if rng.random() < .8 else 0 for _ in range(n)]
                want = R.norm(cs)
                d = dict(f=(k.p, k.mod), coeffs=cs)
                mon.equal(k.val(T(cs)), want, "from_huge_list", **d)
                mon.equal(k.val(T(Pol(cs))), want, "from_huge_poly", **d)
                mon.equal(k.val(T(cs + [0] * rng.randrange(1, 9))), want, "from_padded_list", **d)
                mon.equal(k.val(T(b"".join((c % R.p).to_bytes(32, "big") for c in cs))), want, "from_huge_bytes", **d)
                mon.event("construct", 4)
            i = rng.choice([1, -1]) * rng.getrandbits(rng.choice([80, 300, 2000]))
            with_int(mon, k, a, la, i)
            # elements one coefficient apart
            b = list(a)
            b[rng.randrange(R.m)] += 1
            b = tuple(c % R.p for c in b)
            binary(mon, k, a, b, la, k.lib(b))
            mon.event("huge")
            for i in (0, R.m - 1, rng.randrange(R.m)):
                b = list(a)
                b[i] = (b[i] + rng.choice([1, R.p - 1, 2])) % R.p
                lb = k.lib(tuple(b))
                mon.check((la == lb) is (tuple(b) == a) and (la != lb) is (tuple(b) != a), "near_eq", f=(k.p, k.mod), a=a, b=b)
            mon.check(la == k.lib(tuple(a)) and not la != k.lib(tuple(a)), "equal_copy", f=(k.p, k.mod), a=a)
        return
    if spec["kind"] == "batch":
        for _ in range(spec["n"]):
            a, b, c = R.rand(rng), R.rand(rng), R.rand(rng)
            la, lb, lc = k.lib(a), k.lib(b), k.lib(c)
            binary(mon, k, a, b, la, lb)
            if rng.random() < .2: binary(mon, k, a, a, la, la)
            with_int(mon, k, a, la, rng.choice([0, 1, 2, -1, R.p, R.p - 1, rng.randrange(-2**40, 2**40)]))
            unary(mon, k, a, la, rng)
            mon.check((la + lb) * lc == la * lc + lb * lc and (la * lb) * lc == la * (lb * lc), "ring_axioms", a=a, b=b, c=c)
            x = la
            x *= lb
            mon.equal((k.val(x), k.val(la), k.val(lb)), (R.mul(a, b), a, b), "imul", a=a, b=b)
        return
    pool = [(k.lib(a), a) for a in [R.zero, R.one] + [R.rand(rng) for _ in range(5)]]
    for _ in range(spec["n"] * 6):
        (x, a), (y, b) = rng.choice(pool), rng.choice(pool)
        op = rng.choice("+-*/n^i")
        if op in "/" and b == R.zero:
            continue
        if op == "+": z, c = x + y, R.add(a, b)
        elif op == "-": z, c = x - y, R.sub(a, b)
        elif op == "*": z, c = x * y, R.mul(a, b)
        elif op == "/": z, c = x / y, R.mul(a, R.inv(b))
        elif op == "n": z, c = -x, R.neg(a)
        elif op == "^":
            e = rng.randrange(12)
            z, c = x**e, R.pow(a, e)
        else:
            i = rng.randrange(-50, 50)
            z, c = i - x * i, R.sub(R.int(i), R.mul(a, R.int(i)))
        mon.equal(k.val(z), c, "chain:" + op, f=(k.p, k.mod), a=a, b=b)
        mon.event("chain_step")
        mon.event("op")
        if len(pool) < 10:
            pool.append((z, c))
        else:
            pool[rng.randrange(10)] = (z, c)
    for x, a in pool:
        mon.equal(k.val(x), a, "pool_value_changed", a=a)
        mon.seen(k.p, k.mod, "chain", a)
