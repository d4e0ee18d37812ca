"""C03 Q/p against Z/p through m/n -> m * n^-1."""
import random

from vlib import ref
from vlib.kits import kit, rand_prime

RULE = ("a case is one prime with exhaustive fractions (small p), random batches over several representatives per class, or "
        "expression chains; distinct non-trivial = distinct (p, operands as fractions)")
REQUIRED = {"negative_pow": 700, "op": 10000, "inverse": 300, "chain_step": 1000, "cross_representative": 1000, "bytes": 300}


def cases(rng, tier):
    for p in (2, 3, 5, 7):
        yield {"kind": "exh", "p": p}
    for p in ref.SMALL + ref.MEDIUM + ref.BIG:
        yield {"kind": "batch", "p": p, "n": 40}
    for i in range(150 if tier == "quick" else 6000):
        yield {"kind": "chain" if i % 3 == 0 else "batch", "p": rand_prime(rng), "n": 40}


def pair(mon, k, x, a, y, b, tag):
    p = k.p
    d = dict(p=p, x=(x.m, x.n), y=(y.m, y.n))
    mon.equal(k.val(x + y), (a + b) % p, "add", **d)
    mon.equal(k.val(x - y), (a - b) % p, "sub", **d)
    mon.equal(k.val(x * y), a * b % p, "mul", **d)
    mon.check(bool(x == y) is (a == b), "eq", **d)
    mon.check(bool(x != y) is (a != b), "ne", **d)
    if b:
        mon.equal(k.val(x / y), a * pow(b, -1, p) % p, "div", **d)
    mon.event("op", 6)
    mon.seen(p, x.m, x.n, y.m, y.n)


def single(mon, k, x, a, rng):
    p, T = k.p, k.T
    d = dict(p=p, x=(x.m, x.n))
    mon.equal(k.val(-x), -a % p, "neg", **d)
    for e in (0, 1, 2, 3, p - 1, p, rng.randrange(1000), rng.getrandbits(70)):
        mon.equal(k.val(x ** e), pow(a, e, p), "pow", e=e, **d)
        if a:
            mon.equal(k.val(x ** -e), pow(a, -e, p), "negative_pow", e=-e, **d)
            mon.event("negative_pow")
        elif e: mon.raises(lambda: x ** -e, "negative_power_of_zero", e=-e, **d)
    if a:
        mon.equal(k.val(x.inverse()), pow(a, -1, p), "inverse", **d)
        mon.equal(k.val(1 / x), pow(a, -1, p), "int_div", **d)
        mon.event("inverse")
    else:
        mon.raises(lambda: x.inverse(), "zero_inverse", **d)
        mon.raises(lambda: T(1) / x, "zero_division", **d)
    i = rng.choice([0, 1, -1, p, rng.randrange(-10**9, 10**9)])
    mon.equal(k.val(x + i), (a + i) % p, "add_int", i=i, **d)
    mon.equal(k.val(i + x), (a + i) % p, "int_add", i=i, **d)
    mon.equal(k.val(x - i), (a - i) % p, "sub_int", i=i, **d)
    mon.equal(k.val(i - x), (i - a) % p, "int_sub", i=i, **d)
    mon.equal(k.val(x * i), a * i % p, "mul_int", i=i, **d)
    mon.equal(k.val(i * x), a * i % p, "int_mul", i=i, **d)
    mon.check(bool(x == i) is (a == i % p), "eq_int", i=i, **d)
    mon.check(bool(x != i) is (a != i % p), "ne_int", i=i, **d)
    mon.check(bool(x == a) and not bool(x != a) and bool(a == x), "eq_own_image", **d)
    if p < 2**256:
        by = x.to_bytes()
        mon.check(len(by) == 64, "bytes_length", **d)
        y = T(by)
        mon.equal(k.val(y), a, "bytes_roundtrip", **d)
        mon.check(bool(y == x), "bytes_equal", **d)
        mon.event("bytes")
    mon.event("op", 12)
    mon.equal(k.val(x), a, "operand_changed", **d)


def run_case(spec, mon):
    p = spec["p"]
    k = kit(["Qp", p])
    T, R = k.T, k.R
    rng = random.Random(spec["seed"])

    def frac():
        n = rng.choice([1, 1, p - 1, p + 1, -1, rng.randrange(1, 4 * p), rng.randrange(-p * p, p * p)])
        while n % p == 0:
            n = rng.randrange(1, p)if p > 2 else 1
        m = rng.choice([0, 1, -1, p, p - 1, R.rand(rng), rng.randrange(-p * p, p * p)])
        return T(m, n), m * pow(n, -1, p) % p, m, n

    if spec["kind"] == "exh":
        els = [(T(m, n), m * pow(n, -1, p) % p) for m in range(-p, p + 1) for n in range(-p + 1, p) if n % p]
        for x, a in els:
            mon.equal(k.val(x), a, "construct", p=p)
            single(mon, k, x, a, rng)
            for y, b in els:
                pair(mon, k, x, a, y, b, "exh")
                mon.event("cross_representative")
        return
    if spec["kind"] == "batch":
        for _ in range(spec["n"]):
            x, a, m, n = frac()
            mon.equal(k.val(x), a, "construct", p=p, m=m, n=n)
            y, b, _, _ = frac()
            pair(mon, k, x, a, y, b, "rand")
            if rng.random() < .2: pair(mon, k, x, a, x, a, "same object")
            single(mon, k, x, a, rng)
            f = R.randnz(rng)
            x2 = T(m * f, n * f)      # another representative of the same class
            mon.check(bool(x == x2) and not bool(x != x2), "representative_eq", p=p, m=m, n=n, f=f)
            pair(mon, k, x2, a, x, a, "rep")
            mon.event("cross_representative")
        return
    pool = [(T(0), 0), (T(1), 1 % p)] + [frac()[:2] for _ in range(5)]
    for _ in range(spec["n"] * 5):
        (x, a), (y, b) = rng.choice(pool), rng.choice(pool)
        op = rng.choice("+-*/n^")
        if op == "/" and b == 0:
            continue
        if op == "+": z, c = x + y, a + b
        elif op == "-": z, c = x - y, a - b
        elif op == "*": z, c = x * y, a * b
        elif op == "/": z, c = x / y, a * pow(b, -1, p)
        elif op == "n": z, c = -x, -a
        else:
            e = rng.randrange(30)
            z, c = x**e, pow(a, e, p)
        c %= p
        mon.equal(k.val(z), c, "chain:" + op, p=p, a=a, b=b)
        mon.event("chain_step")
        mon.seen(p, "chain", z.m, z.n)
        if len(pool) < 10:
            pool.append((z, c))
        else:
            pool[rng.randrange(10)] = (z, c)
    for x, a in pool:
        mon.equal(k.val(x), a, "pool_value_changed", a=a)
