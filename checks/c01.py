"""C01 prime-field arithmetic against int arithmetic modulo p."""
import random

from vlib import ref
from vlib.kits import kit, rand_prime

RULE = ("a case is one prime with a batch of operations (exhaustive operand pairs for small p, boundary-biased random "
        "operands, expression chains over a pool of live elements); distinct non-trivial = distinct (p, operation, operands)")
REQUIRED = {"huge": 600, "negative_pow": 1000, "op": 20000, "inverse": 500, "zero_division": 100, "bytes": 300, "int_mixed": 2000, "chain_step": 2000, "pow": 1000}


def cases(rng, tier):
    for p in (2, 3, 5, 7, 11, 13, 17, 19, 23):
        yield {"kind": "exh", "p": p}
    for p in ref.SMALL + ref.MEDIUM + ref.BIG + [2**521 - 1, 2**607 - 1]:
        yield {"kind": "batch", "p": p, "n": 100}
        yield {"kind": "huge", "p": p, "n": 25}
    n = 350 if tier == "quick" else 12000
    for i in range(n):
        p = rand_prime(rng)
        if i % 5 == 4:   # a fresh prime
            p = rng.randrange(3, 5000) | 1 if rng.random() < .5 else rng.getrandbits(rng.choice([17, 40, 64])) | 1
            while not ref.is_prime(p):
                p += 2
        yield {"kind": "chain" if i % 3 == 0 else "batch", "p": p, "n": 100}


def binary(mon, k, a, b, la, lb, how):
    T, R, p = k.T, k.R, k.p
    mon.equal(k.val(la + lb), (a + b) % p, "add", p=p, a=a, b=b, how=how)
    mon.equal(k.val(la - lb), (a - b) % p, "sub", p=p, a=a, b=b, how=how)
    mon.equal(k.val(la * lb), a * b % p, "mul", p=p, a=a, b=b, how=how)
    same = (a - b) % p == 0
    mon.check((la == lb) is same and (lb == la) is same, "eq", p=p, a=a, b=b, how=how)
    mon.check((la != lb) is (not same) and (lb != la) is (not same), "ne", p=p, a=a, b=b, how=how)
    mon.event("op", 5)
    mon.seen(p, how, a, b)


def unary(mon, k, a):
    T, p = k.T, k.p
    x = T(a)
    mon.equal(k.val(x), a % p, "construct", p=p, a=a)
    mon.equal(k.val(-x), -a % p, "neg", p=p, a=a)
    mon.equal(k.val(T(x)), a % p, "copy", p=p, a=a)
    mon.equal(abs(x), a % p, "abs", p=p, a=a)
    if p < 2**256:
        mon.equal(x.to_bytes(), (a % p).to_bytes(32, "big"), "to_bytes", p=p, a=a)
        mon.equal(k.val(T(x.to_bytes())), a % p, "bytes_roundtrip", p=p, a=a)
    if a % p:
        mon.equal(k.val(x.inverse()), pow(a, -1, p), "inverse", p=p, a=a)
        mon.equal(k.val(1 / x), pow(a, -1, p), "int_div", p=p, a=a)
        mon.event("inverse")
    else:
        mon.raises(lambda: x.inverse(), "zero_inverse", p=p)
        mon.raises(lambda: T(1) / x, "zero_division", p=p)
        mon.raises(lambda: 1 / x, "zero_division", p=p)
        mon.event("zero_division")
    mon.equal(k.val(x), a % p, "operand_changed", p=p, a=a)
    mon.seen(p, "unary", a)


def power(mon, k, a, e):
    mon.equal(k.val(k.T(a) ** e), pow(a, e, k.p), "pow", p=k.p, a=a, e=e)
    mon.event("pow")
    mon.seen(k.p, "pow", a, e)


def negative_power(mon, k, a, e):
    if a % k.p:
        mon.equal(k.val(k.T(a) ** -e), pow(a, -e, k.p), "negative_pow", p=k.p, a=a, e=-e)
    elif e:
        mon.raises(lambda: k.T(a) ** -e, "negative_power_of_zero", p=k.p, e=-e)
    mon.event("negative_pow")


def div(mon, k, a, b):
    mon.equal(k.val(k.T(a) / k.T(b)), a * pow(b, -1, k.p) % k.p, "div", p=k.p, a=a, b=b)
    mon.equal(k.val(a / k.T(b)), a * pow(b, -1, k.p) % k.p, "int_div", p=k.p, a=a, b=b)
    mon.event("op", 2)


def run_case(spec, mon):
    p = spec["p"]
    k = kit(["Z", p])
    T = k.T
    rng = random.Random(spec["seed"])
    if spec["kind"] == "exh":
        els = [T(i) for i in range(p)]
        mon.equal([int(x) for x in T.__iter__()], list(range(p)), "iterate", p=p)
        mon.equal([int(x) for x in T.__iter__()], list(range(p)), "iterate_again", p=p)
        mon.equal((T.p, T.m, T.field_size), (p, 1, p), "attributes")
        for a in range(p):
            for b in range(p):
                binary(mon, k, a, b, els[a], els[b], "el")
                if b:
                    div(mon, k, a, b)
            for e in range(0, 2 * p + 3):
                power(mon, k, a, e)
                negative_power(mon, k, a, e)
        for a in range(-2 * p - 1, 3 * p + 2):
            unary(mon, k, a)
            for b in range(p):
                binary(mon, k, b, a, els[b], a, "el-int")
                binary(mon, k, a, b, a, els[b], "int-el")
                mon.event("int_mixed", 2)
        return
    R = k.R

    def big():
        r = rng.random()
        if r < .3: return R.rand(rng)
        if r < .5: return rng.choice([p, -p, p - 1, p + 1, -1, 2 * p, p * p, 1 - p, p // 2, p // 2 + 1, -p // 2])
        if r < .75: return rng.randrange(-p * p, p * p + 1)
        return rng.randrange(-2**rng.choice([8, 31, 32, 63, 64, 65, 256, 300]), 2**rng.choice([8, 31, 32, 63, 64, 65, 256, 300]))

    if spec["kind"] == "huge":
        for _ in range(spec["n"]):
            # operands of thousands of bits, around powers of two and of p
            bits = rng.choice([255, 256, 257, 511, 512, 600, 1023, 1024, 1025, 2048, 3000, 5000])
            a = rng.choice([1, -1]) * rng.choice([2**bits, 2**bits - 1, 2**bits + 1, rng.getrandbits(bits), p**rng.randint(2, 6) + rng.choice([-1, 0, 1])])
            b = rng.choice([a + p * rng.choice([1, -1, 2**64, 2**600]), a ^ (1 << rng.randrange(bits)), -a, big()])
            la, lb = T(a), T(b)
            binary(mon, k, a, b, la, lb, "huge")
            binary(mon, k, a, b, la, b, "huge-int")
            binary(mon, k, a, b, a, lb, "int-huge")
            unary(mon, k, a)
            # residues that differ in one bit
            i = rng.randrange(p.bit_length())
            x = R.rand(rng)
            if x ^ (1 << i) < p:
                binary(mon, k, x, x ^ (1 << i), T(x), T(x ^ (1 << i)), "one bit apart")
            binary(mon, k, x, x, T(x), T(x + p), "same residue")
            e = rng.choice([2**bits, 2**bits - 1, rng.getrandbits(bits), (p - 1) * rng.getrandbits(64), (p - 1) * 2**rng.randrange(600), p**rng.randint(1, 4)])
            power(mon, k, a, e)
            power(mon, k, 0, e)
            if rng.random() < .3: negative_power(mon, k, a, e)
            by = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(rng.choice([96, 100, 127, 128, 129, 200, 256, 300, 1000])))
            mon.equal(k.val(T(by)), int.from_bytes(by, "big") % p, "from_bytes", p=p, bytes=by)
            mon.event("huge")
        return
    if spec["kind"] == "batch":
        for _ in range(spec["n"]):
            a, b = big(), big()
            la, lb = T(a), T(b)
            binary(mon, k, a, b, la, lb, "el")
            if rng.random() < .2: binary(mon, k, a, a, la, la, "same object")
            binary(mon, k, a, b, la, b, "el-int")
            binary(mon, k, a, b, a, lb, "int-el")
            mon.event("int_mixed", 2)
            unary(mon, k, a)
            if b % p:
                div(mon, k, a, b)
            e = rng.choice([rng.randrange(0, 20), p, p - 1, p - 2, p + 1, 2 * (p - 1), (p - 1) // 2,
                            rng.randrange(0, 2**rng.choice([3, 6, 9, 16, 64, 256])), 2**rng.randrange(1, 64), 2**rng.randrange(1, 64) - 1])
            power(mon, k, a, max(e, 0))
            negative_power(mon, k, a, e if e < 2**20 else rng.randrange(100))
            by = bytes(rng.choice([0, 255, rng.randrange(256)]) for _ in range(rng.choice([0, 1, 2, 4, 8, 31, 32, 33, 64, 80])))
            mon.equal(k.val(T(by)), int.from_bytes(by, "big") % p, "from_bytes", p=p, bytes=by)
            mon.event("bytes")
            mon.equal(k.val(sum([la, lb])), (a + b) % p, "sum_builtin", p=p, a=a, b=b)
            c = T(a)
            c0 = c
            c += lb
            mon.equal((k.val(c), k.val(c0), k.val(la), k.val(lb)), ((a + b) % p, a % p, a % p, b % p), "iadd", p=p, a=a, b=b)
        return
    # chain: long expressions over live values, shadowed by ints
    pool = [(T(v), v % p) for v in (0, 1, -1, 2, big(), big())]
    for step in range(spec["n"] * 2):
        (x, a), (y, b) = rng.choice(pool), rng.choice(pool)
        op = rng.choice("+-*/n^irR")
        if op == "+": z, c = x + y, a + b
        elif op == "-": z, c = x - y, a - b
        elif op == "*": z, c = x * y, a * b
        elif op == "/":
            if b == 0:
                continue
            z, c = x / y, a * pow(b, -1, p)
        elif op == "n": z, c = -x, -a
        elif op == "^":
            e = rng.choice([0, 1, 2, 3, 5, 8, p, rng.randrange(1 << 20)])
            z, c = x**e, pow(a, e, p)
        elif op == "i":
            if a == 0:
                continue
            z, c = x.inverse(), pow(a, -1, p)
        elif op == "r":
            i = big()
            z, c = i - x, i - a
        else:
            i = big()
            z, c = x * i + i, a * i + i
        c %= p
        mon.equal(k.val(z), c, "chain:" + op, p=p, a=a, b=b)
        mon.event("chain_step")
        mon.event("op")
        if len(pool) < 12:
            pool.append((z, c))
        else:
            pool[rng.randrange(12)] = (z, c)
    for x, a in pool:
        mon.equal(k.val(x), a, "pool_value_changed", p=p)
        mon.seen(p, "chain", a)
