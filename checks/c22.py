"""C22 integer view of binary fields: comparison, binary addition, powers of X."""
import itertools
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is one binary field (every irreducible modulus for degree <= 4, then random ones up to degree 17) with all pairs or a random batch with "
        "boundary pairs; distinct non-trivial = distinct (modulus, operands)")
REQUIRED = {"pair": 4000, "carry_out": 500, "two_pow": 800, "same_top_bit": 500, "equal": 400, "chain": 500, "big_pair": 80, "big_power": 20}


def cases(rng, tier):
    for m in (2, 3, 4, 5):
        for f in itertools.product((0, 1), repeat=m):
            f = list(f) + [1]
            if f[0] and ref.is_irreducible(2, f) and (m < 5 or tier != "quick"):
                yield {"field": ["F", 2, f], "exh": True}
    for _ in range(200 if tier == "quick" else 4000):
        while True:
            f = rand_field(rng, 2**17)
            if f[1] == 2 and len(f[2]) > 3: break
        yield {"field": f, "exh": False, "n": 60}
    for m in (31, 33, 63, 64, 65, 66, 72, 80):
        yield {"big": m, "n": 12}


def bits(n):
    return [int(c) for c in bin(n)[:1:-1]]


def pair(mon, k, x, y, same=False):
    R = k.R
    a = k.lib(R.unnum(x))
    b = a if same else k.lib(R.unnum(y))
    d = dict(mod=k.mod, x=x, y=y)
    mon.equal(a.LT(b), int(x <= y), "LT", **d)
    mon.equal(k.val(a.Regular_Binary_Addition(b)), R.norm(bits(x + y)), "binary_addition", **d)
    mon.equal((R.num(k.val(a)), R.num(k.val(b))), (x, y), "operand_changed", **d)
    mon.event("pair")
    if x + y >= 1 << R.m: mon.event("carry_out")
    if x == y: mon.event("equal")
    elif x.bit_length() == y.bit_length(): mon.event("same_top_bit")
    mon.seen(k.mod, x, y)


def single(mon, k, x):
    R = k.R
    a = k.lib(R.unnum(x))
    mon.equal(k.val(a.two_pow()), R.pow(R.norm([0, 1]), x), "two_pow", mod=k.mod, x=x)
    mon.equal(R.num(k.val(a)), x, "operand_changed", mod=k.mod, x=x)
    mon.event("two_pow")
    mon.seen(k.mod, x)


def run_case(spec, mon):
    rng = random.Random(spec["seed"])
    if "big" in spec:
        k = kit(["F", 2, ref.find_irreducible(2, spec["big"], rng)])
        R, m = k.R, spec["big"]
        for _ in range(spec["n"]):
            x, y = rng.getrandbits(m), rng.getrandbits(m)
            r = rng.random()
            if r < .2: y = x
            elif r < .5: y = x ^ (1 << rng.choice([0, m - 1, rng.randrange(m)]))
            elif r < .6: y = (1 << m) - 1 - x
            elif r < .7: x, y = (1 << m) - 1, rng.choice([1, (1 << m) - 1])
            pair(mon, k, x, y)
            mon.event("big_pair")
        for x in [0, 1 << m - 1, 1 << m // 2, 1 << m - 1 | 1 << m - 2 | 1][:2 if m > 70 else 3]:
            single(mon, k, x)
            mon.event("big_power")
        return
    k = kit(spec["field"])
    R = k.R
    top = 1 << R.m
    if spec["exh"]:
        for x in range(top):
            single(mon, k, x)
            for y in range(top): pair(mon, k, x, y)
        return
    edge = [0, 1, 2, 3, top - 1, top - 2, top >> 1, (top >> 1) - 1, (top >> 1) + 1]
    for _ in range(spec["n"]):
        x = rng.choice(edge) if rng.random() < .25 else rng.getrandbits(rng.randint(1, R.m))
        y = rng.choice(edge) if rng.random() < .25 else rng.getrandbits(rng.randint(1, R.m))
        r = rng.random()
        if r < .15: y = x
        elif r < .4: y = x ^ (1 << rng.randrange(R.m))
        elif r < .5: y = top - 1 - x
        pair(mon, k, x, y, x == y and rng.random() < .5)
    for x in edge + [rng.getrandbits(R.m) for _ in range(10)]:
        single(mon, k, x)
    # counting: a chain of additions is the integer sum as long as nothing overflows
    acc, v = k.lib(R.zero), 0
    for _ in range(40):
        s = rng.choice([1, 1, rng.getrandbits(rng.randint(1, R.m - 1))])
        if v + s >= top: break
        acc, v = acc.Regular_Binary_Addition(k.lib(R.unnum(s))), v + s
        mon.equal(R.num(k.val(acc)), v, "chain", mod=k.mod, added=s)
        mon.event("chain")
