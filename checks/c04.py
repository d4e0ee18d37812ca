"""C04 univariate polynomial ring against coefficient lists."""
import random
from fractions import Fraction

from vlib import ref
from vlib.kits import kit, rand_prime, rand_field

RULE = ("a case is one coefficient ring with a batch of operand pairs (zero, constant, sparse, dense, equal, multiple, large degree) "
        "or an expression chain; distinct non-trivial = distinct (ring, operands)")
REQUIRED = {"large": 60, "wide": 110, "op": 8000, "divmod": 800, "zero_division": 100, "eval": 800, "compose": 200, "powmod": 200, "powmod_reduced": 60, "neighbour": 600, "chain_step": 600, "cancel": 200}

RINGS = [["Z", 2], ["Z", 3], ["Z", 7], ["Z", 31], ["Z", ref.P256], ["Q"], ["Qp", 7], ["Qp", 101],
         ["F", 2, [1, 1, 0, 1]], ["F", 3, [2, 1, 1]], ["F", 7, [1, 0, 1]], ["F", 2, [1, 1, 0, 1, 1, 0, 0, 0, 1]]]


def cases(rng, tier):
    yield {"kind": "exh", "ring": ["Z", 2], "deg": 3}
    yield {"kind": "exh", "ring": ["Z", 3], "deg": 2}
    yield {"kind": "exh", "ring": ["F", 2, [1, 1, 1]], "deg": 1}
    for r in RINGS:
        yield {"kind": "batch", "ring": r, "n": 20, "maxdeg": 8}
    yield {"kind": "batch", "ring": ["Z", 101], "n": 2, "maxdeg": 150}
    for i in range(24 if tier == "quick" else 400):
        r = rng.random()
        ring = ["Z", rand_prime(rng)] if r < .7 else rand_field(rng, 256) if r < .9 else ["Qp", rand_prime(rng)]
        yield {"kind": "large", "ring": ring, "n": 3, "maxdeg": rng.choice([40, 70, 130, 260]) if ring[0] == "Z" else 70}
    for i in range(12 if tier == "quick" else 200):     # hundreds and thousands of coefficients
        yield {"kind": "wide", "ring": ["Z", rand_prime(rng)] if i % 3 else rand_field(rng, 256), "maxdeg": rng.choice([255, 256, 257, 511, 513, 1000, 1025, 3000] if i % 3 else [257, 520])}
    for i in range(30 if tier == "quick" else 600):
        yield {"kind": "near", "ring": ["Z", rand_prime(rng)] if i % 3 else rand_field(rng, 2**17), "maxdeg": rng.choice([3, 5, 8, 12, 20])}
    for i in range(160 if tier == "quick" else 6000):
        r = rng.random()
        ring = ["Z", rand_prime(rng)] if r < .5 else rand_field(rng, 2**17) if r < .75 else ["Q"] if r < .87 else ["Qp", rand_prime(rng)]
        yield {"kind": "chain" if i % 4 == 0 else "batch", "ring": ring, "n": 10, "maxdeg": rng.choice([3, 6, 6, 12, 25]) if ring[0] != "Q" else 6}


def rpoly(R, rng, maxdeg):
    r = rng.random()
    if r < .08: return []
    if r < .18: return ref.ptrim(R, [R.rand(rng)])
    d = rng.randint(0, maxdeg)
    if r < .35:
        a = [R.zero] * d + [R.randnz(rng)]
        if rng.random() < .7:
            a[0] = R.rand(rng)
        return ref.ptrim(R, a)
    return ref.ptrim(R, [R.rand(rng) for _ in range(d + 1)])


def anyval(k, x):
    """polynomial or ring element (a constant polynomial called at a polynomial gives one)"""
    if type(x) is k.T or isinstance(x, (int, Fraction)):
        return ref.ptrim(k.R, [k.val(x)])
    return k.pval(x)


def observe(mon, k, x, a, d):
    """everything a value shows about itself"""
    R = k.R
    mon.equal(k.pval(x), a, "value", **d)
    mon.equal(x.degree(), len(a) - 1, "degree", **d)
    mon.equal((len(x), abs(x), bool(x.is_zero())), (len(a), len(a), not a), "size", **d)
    mon.equal([k.val(c) for c in x], a, "iterate", **d)
    if a:
        mon.equal(k.val(x.leading_coefficient()), a[-1], "leading", **d)
    mon.event("op", 5)


def pair(mon, k, a, b, x, y):
    R = k.R
    d = dict(ring=(k.kind, k.p, k.mod), a=a, b=b)
    s = x + y
    observe(mon, k, s, ref.padd(R, a, b), dict(d, op="+"))
    if len(s) < max(len(a), len(b)):
        mon.event("cancel")
    observe(mon, k, x - y, ref.psub(R, a, b), dict(d, op="-"))
    observe(mon, k, x * y, ref.pmul(R, a, b), dict(d, op="*"))
    mon.check(bool(x == y) is (a == b), "eq", **d)
    mon.check(bool(x != y) is (a != b), "ne", **d)
    if b:
        q, r = ref.pdivmod(R, a, b)
        lq, lr = divmod(x, y)
        observe(mon, k, lq, q, dict(d, op="divmod q"))
        observe(mon, k, lr, r, dict(d, op="divmod r"))
        observe(mon, k, x / y, q, dict(d, op="/"))
        observe(mon, k, x % y, r, dict(d, op="%"))
        mon.event("divmod")
    else:
        mon.raises(lambda: divmod(x, y), "zero_divmod", **d)
        mon.raises(lambda: x / y, "zero_div", **d)
        mon.raises(lambda: x % y, "zero_mod", **d)
        mon.event("zero_division")
    mon.equal((k.pval(x), k.pval(y)), (a, b), "operand_changed", **d)
    mon.seen(k.kind, k.p, k.mod, a, b)


def single(mon, k, a, x, rng):
    R, T = k.R, k.T
    Pol = k.poly_type()
    d = dict(ring=(k.kind, k.p, k.mod), a=a)
    observe(mon, k, x, a, d)
    observe(mon, k, -x, ref.pneg(R, a), dict(d, op="neg"))
    observe(mon, k, Pol(x), a, dict(d, op="copy"))
    observe(mon, k, Pol.factory([k.lib(c, rng) for c in a] + [T(0)] * rng.randrange(3)), a, dict(d, op="factory"))
    observe(mon, k, Pol([k.lib(c, rng) for c in a] + [0] * rng.randrange(3)), a, dict(d, op="trailing zeros"))
    for e in (0, 1, 2, 3, rng.randrange(4, 7)):
        if len(a) * e < 90:
            observe(mon, k, x**e, ref.ppow(R, a, e), dict(d, op="pow", e=e))
    i = rng.choice([0, 1, -1, 2, 5, k.p, rng.randrange(-1000, 1000)])
    c = ref.ptrim(R, [R.int(i)])
    observe(mon, k, x + i, ref.padd(R, a, c), dict(d, op="+int", i=i))
    observe(mon, k, i + x, ref.padd(R, a, c), dict(d, op="int+", i=i))
    observe(mon, k, x - i, ref.psub(R, a, c), dict(d, op="-int", i=i))
    observe(mon, k, i - x, ref.psub(R, c, a), dict(d, op="int-", i=i))
    observe(mon, k, x * i, ref.pmul(R, a, c), dict(d, op="*int", i=i))
    observe(mon, k, i * x, ref.pmul(R, a, c), dict(d, op="int*", i=i))
    mon.check(bool(x == i) is (a == c) and bool(x != i) is (a != c), "eq_int", i=i, **d)
    if k.kind != "F":
        e = R.rand(rng)
        le, c = k.lib(e, rng), ref.ptrim(R, [e])
        observe(mon, k, x + le, ref.padd(R, a, c), dict(d, op="+elt", e=e))
        observe(mon, k, le + x, ref.padd(R, a, c), dict(d, op="elt+", e=e))
        observe(mon, k, x - le, ref.psub(R, a, c), dict(d, op="-elt", e=e))
        observe(mon, k, le - x, ref.psub(R, c, a), dict(d, op="elt-", e=e))
        observe(mon, k, x * le, ref.pmul(R, a, c), dict(d, op="*elt", e=e))
        observe(mon, k, le * x, ref.pmul(R, a, c), dict(d, op="elt*", e=e))
        mon.check(bool(x == le) is (a == c), "eq_elt", e=e, **d)
    for _ in range(2):
        e = R.rand(rng)
        mon.equal(k.val(x(k.lib(e, rng))), ref.peval(R, a, e), "eval", at=e, **d)
        mon.event("eval")
    i = rng.choice([0, 1, -1, 2, rng.randrange(-50, 50)])
    mon.equal(k.val(x(i)), ref.peval(R, a, R.int(i)), "eval_int", at=i, **d)
    if k.kind != "F" and len(a) <= 7:
        g = rpoly(R, rng, 4)
        mon.equal(anyval(k, x(k.poly(g, rng))), ref.pcompose(R, a, g), "compose", g=g, **d)
        mon.event("compose")
    if len(a) <= 9:
        g = rpoly(R, rng, 5)
        if g:
            n = rng.choice([0, 1, 2, 3, 4, 7, 8, k.p or 5, rng.randrange(60)]) if k.kind != "Q" else rng.randrange(6)
            got = x.powmod(n, k.poly(g, rng))
            want = ref.ppowmod(R, a, n, g)
            got = k.pval(got)
            mon.equal(got, want, "powmod", n=n, g=g, **d)
            mon.event("powmod" if n > 1 else "powmod_reduced")
            mon.rejects(lambda: x.powmod(-rng.randrange(1, 9), k.poly(g, rng)), "negative_powmod", g=g, **d)
    y = x
    y += Pol([1])
    z = x
    z *= x
    mon.equal(k.pval(x), a, "inplace_changed_operand", **d)
    observe(mon, k, y, ref.padd(R, a, [R.one]), dict(d, op="+="))


def run_case(spec, mon):
    k = kit(spec["ring"])
    R = k.R
    rng = random.Random(spec["seed"])
    if spec["kind"] == "exh":
        import itertools
        allp = []
        els = list(R.all())
        for cs in itertools.product(els, repeat=spec["deg"] + 1):
            a = ref.ptrim(R, list(cs))
            allp.append((a, k.poly(list(cs))))
        for a, x in allp:
            single(mon, k, a, x, rng)
            for e in els:
                mon.equal(k.val(x(k.lib(e))), ref.peval(R, a, e), "eval", a=a, at=e)
            for b, y in allp:
                pair(mon, k, a, b, x, y)
        return
    if spec["kind"] == "wide":
        n = spec["maxdeg"] + rng.randrange(3)
        a = [R.rand(rng) if rng.random() < .9 else R.zero for _ in range(n)] + [R.randnz(rng)]
        x = k.poly(a, rng)
        mon.equal(k.pval(-x), ref.pneg(R, a), "neg", n=n)
        mon.equal(k.val(x(k.lib(e := R.rand(rng)))), ref.peval(R, a, e), "eval", n=n, at=e)
        if k.kind == "Z":
            mon.equal(k.pval(k.poly_type()(x.to_bytes())), a, "bytes_roundtrip", n=n)
            mon.check(k.poly_type()(x.to_bytes()) == x, "bytes_roundtrip", n=n)
            i = rng.randrange(n)
            c = list(a)
            c[i] = R.add(c[i], R.one)
            z = k.poly(c, rng)
            mon.check((x == z) is False and (x != z) is True, "near_eq", ring=(k.kind, k.p, k.mod), n=n, at=i)
        b = [[], [R.randnz(rng)], [R.rand(rng), R.randnz(rng)], ref.pneg(R, a), a, [R.randnz(rng)] + a[1:], a[:-1] + [R.randnz(rng)],
             ref.pneg(R, a[:n // 2]), [R.rand(rng) for _ in range(n)] + [R.neg(a[-1])], [R.rand(rng) for _ in range(n + 1)] + [R.randnz(rng)]]
        for c in b:
            c = ref.ptrim(R, c)
            y = k.poly(c, rng)
            d = dict(ring=(k.kind, k.p, k.mod), a=a, b=c)
            for u, v, p, q in ((x, y, a, c), (y, x, c, a)):
                observe(mon, k, u + v, ref.padd(R, p, q), dict(d, op="+"))
                observe(mon, k, u - v, ref.psub(R, p, q), dict(d, op="-"))
                mon.check((u == v) is (p == q) and (u != v) is (p != q), "eq", **d)
                if len(p) < 3 or len(q) < 3: observe(mon, k, u * v, ref.pmul(R, p, q), dict(d, op="*"))
            if 0 < len(c) < 3 or len(c) > n:
                q, r = ref.pdivmod(R, a, c) if len(c) > n or n < 300 else (None, None)
                if q is not None:
                    lq, lr = divmod(x, y)
                    mon.equal((k.pval(lq), k.pval(lr)), (q, r), "divmod", **d)
            mon.equal((k.pval(x), k.pval(y)), (a, c), "operand_changed", n=n)
            mon.event("wide")
        return
    if spec["kind"] == "near":
        # the same calls on polynomials which differ in one coefficient, and at one point, divisor and exponent
        n = spec["maxdeg"]
        a = [R.rand(rng) for _ in range(n)] + [R.randnz(rng)]
        b = [R.rand(rng) for _ in range(rng.randint(1, n))] + [R.randnz(rng)]
        e, i = R.rand(rng), rng.randrange(2, 5)
        le, y = k.lib(e), k.poly(b, rng)
        for _ in range(24):
            d = dict(ring=(k.kind, k.p, k.mod), a=list(a), b=list(b), e=e)
            x = k.poly(a, rng)
            mon.equal(k.val(x(le)), ref.peval(R, a, e), "near:eval", **d)
            mon.equal(k.pval(-x), ref.pneg(R, a), "near:neg", **d)
            mon.equal(k.pval(x * y), ref.pmul(R, a, b), "near:*", **d)
            mon.equal(k.pval(x + y), ref.padd(R, a, b), "near:+", **d)
            mon.equal((k.pval(x - y), k.pval(y - x)), (ref.psub(R, a, b), ref.psub(R, b, a)), "near:-", **d)
            mon.equal(tuple(map(k.pval, divmod(x, y))), ref.pdivmod(R, a, b), "near:divmod", **d)
            if n < 9:
                mon.equal(k.pval(x**i), ref.ppow(R, a, i), "near:pow", i=i, **d)
                mon.equal(k.pval(x.powmod(i + 1, y)), ref.ppowmod(R, a, i + 1, b), "near:powmod", i=i, **d)
            if k.kind == "Z":
                mon.equal(x.to_bytes(), b"".join(v.to_bytes(32, "big") for v in a), "near:bytes", **d)
            mon.event("neighbour")
            r = rng.random()
            if r < .7:
                at = rng.randrange(n)
                a[at] = R.add(a[at], R.randnz(rng))
            elif r < .85:
                at = rng.randrange(len(b) - 1)
                b[at] = R.add(b[at], R.randnz(rng))
                y = k.poly(b, rng)
            else:
                e = R.add(e, R.randnz(rng))
                le = k.lib(e)
        mon.seen(k.kind, k.p, "near", a)
        return
    if spec["kind"] == "large":
        for _ in range(spec["n"]):
            d = spec["maxdeg"]
            r = rng.random()
            # both operands long; the quotient long, short or one term; sparse and gapped coefficients
            a = ref.ptrim(R, [R.rand(rng) if rng.random() < .9 else R.zero for _ in range(d + rng.randint(0, 9))] + [R.randnz(rng)])
            b = ref.ptrim(R, [R.rand(rng) for _ in range(rng.choice([0, 1, d // 2, d // 2 + rng.randint(0, 9), d, rng.randint(0, d)]))] + [R.randnz(rng)])
            if r < .2: b = ref.ptrim(R, [R.zero] * rng.randint(1, d) + [R.randnz(rng)])
            elif r < .35: a = ref.pmul(R, b, ref.ptrim(R, [R.rand(rng) for _ in range(rng.randint(1, 30))]))
            elif r < .5: b = a[:-1] + [R.add(a[-1], R.one)] if rng.random() < .5 else [R.add(a[0], R.one)] + a[1:]
            elif r < .6: b = ref.padd(R, ref.pneg(R, a), ref.ptrim(R, [R.rand(rng) for _ in range(rng.randint(0, d))]))
            b = ref.ptrim(R, b)
            x, y = k.poly(a, rng), k.poly(b, rng)
            pair(mon, k, a, b, x, y)
            if rng.random() < .2: pair(mon, k, a, a, x, x)
            e = R.rand(rng)
            mon.equal(k.val(x(k.lib(e, rng))), ref.peval(R, a, e), "eval", at=e, a=a)
            if k.kind != "Q":
                g = ref.ptrim(R, [R.rand(rng) for _ in range(rng.choice([5, 12, 24, 40, 60]))] + [R.randnz(rng)])
                u = ref.ptrim(R, [R.rand(rng) for _ in range(rng.randint(1, len(g) + 4))])
                n = rng.choice([rng.getrandbits(9), 2**8, 2**9 - 1] + ([k.p] if k.p and k.p < 2**70 else []))
                mon.equal(k.pval(k.poly(u, rng).powmod(n, k.poly(g, rng))), ref.ppowmod(R, u, n, g), "powmod", n=n, g=g, a=u)
                mon.event("powmod")
            # equal length, one coefficient apart
            i = rng.randrange(len(a))
            c = list(a)
            c[i] = R.add(c[i], R.one)
            c = ref.ptrim(R, c)
            z = k.poly(c, rng)
            mon.check((x == z) is False and (x != z) is True and (z == x) is False, "near_eq", ring=(k.kind, k.p, k.mod), a=a, b=c)
            z = k.poly(list(a), rng)
            mon.check((x == z) is True and (x != z) is False, "equal_copy", ring=(k.kind, k.p, k.mod), a=a)
            mon.event("large")
        return
    if spec["kind"] == "batch":
        for _ in range(spec["n"]):
            a, b = rpoly(R, rng, spec["maxdeg"]), rpoly(R, rng, spec["maxdeg"])
            r = rng.random()
            if r < .1: b = a
            elif r < .2 and b: a = ref.pmul(R, rpoly(R, rng, 3), b)
            elif r < .3: b = ref.ptrim(R, ref.pneg(R, a)[:-1] + ref.pneg(R, a)[-1:]) if a else []
            elif r < .4 and len(a) > 2: b = ref.ptrim(R, [R.rand(rng) for _ in a[:-2]] + [R.neg(c) for c in a[-2:]])
            x, y = k.poly(a, rng), k.poly(b, rng)
            pair(mon, k, a, b, x, y)
            if spec["maxdeg"] < 100:
                single(mon, k, a, x, rng)
        return
    pool = [(k.poly(a, rng), a) for a in [[], [R.one], [R.zero, R.one]] + [rpoly(R, rng, 4) for _ in range(4)]]
    lim = 12 if k.kind == "Q" else 30
    for _ in range(spec["n"] * 8):
        (x, a), (y, b) = rng.choice(pool), rng.choice(pool)
        op = rng.choice("+-*/%n^i")
        if op in "/%" and not b or op == "*" and len(a) + len(b) > lim or op == "^" and len(a) > lim // 3:
            continue
        if op == "+": z, c = x + y, ref.padd(R, a, b)
        elif op == "-": z, c = x - y, ref.psub(R, a, b)
        elif op == "*": z, c = x * y, ref.pmul(R, a, b)
        elif op == "/": z, c = x / y, ref.pdivmod(R, a, b)[0]
        elif op == "%": z, c = x % y, ref.pdivmod(R, a, b)[1]
        elif op == "n": z, c = -x, ref.pneg(R, a)
        elif op == "^": z, c = x**3, ref.ppow(R, a, 3)
        else:
            i = rng.randrange(-9, 9)
            ci = ref.ptrim(R, [R.int(i)])
            z, c = i - x * i, ref.psub(R, ci, ref.pmul(R, a, ci))
        if k.kind == "Q" and any(abs(v.numerator) > 10**30 or v.denominator > 10**30 for v in c):
            continue
        mon.equal(k.pval(z), c, "chain:" + op, a=a, b=b)
        mon.event("chain_step")
        if len(pool) < 9:
            pool.append((z, c))
        else:
            pool[rng.randrange(9)] = (z, c)
    for x, a in pool:
        mon.equal(k.pval(x), a, "pool_value_changed", a=a)
        mon.seen(k.kind, k.p, "chain", a)
