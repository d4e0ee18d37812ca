"""C05 multivariate polynomial ring against monomial dictionaries."""
import random

from vlib import ref
from vlib.kits import kit, rand_prime, rand_field

RULE = ("a case is one ring and number of variables with a batch of operand pairs, evaluations and compositions, or an expression "
        "chain; distinct non-trivial = distinct (ring, variables, operands)")
REQUIRED = {"large": 40, "long_sum": 12, "wide": 6, "neighbour": 500, "high_power": 15, "division": 700, "inexact_division": 200, "op": 8000, "eval": 800, "compose_uni": 80, "compose_multi": 80, "chain_step": 500, "cancel": 100, "mixed": 500}


def cases(rng, tier):
    yield {"kind": "exh", "ring": ["Z", 2], "nv": 2}
    yield {"kind": "exh", "ring": ["Z", 3], "nv": 1}
    for nv in (1, 2, 3, 4, 5, 7):
        for r in (["Z", 2], ["Z", 7], ["Z", ref.P256], ["F", 2, [1, 1, 0, 0, 1]], ["F", 3, [2, 1, 1]]):
            yield {"kind": "batch", "ring": r, "nv": nv, "n": 6}
    for i in range(16 if tier == "quick" else 300):
        yield {"kind": "large", "ring": ["Z", rand_prime(rng)] if i % 4 else rand_field(rng, 256), "nv": rng.choice([1, 2, 3, 4, 6, 8, 12]), "n": 3}
    for i in range(6 if tier == "quick" else 100):
        yield {"kind": "long", "ring": ["Z", rand_prime(rng)] if i % 3 else rand_field(rng, 256), "nv": rng.choice([2, 3, 5, 9])}
        yield {"kind": "wide", "ring": ["Z", rand_prime(rng)] if i % 3 else rand_field(rng, 256), "nv": [13, 16, 17, 20, 24, 33][i % 6]}
    for i in range(30 if tier == "quick" else 600):
        yield {"kind": "near", "ring": ["Z", rand_prime(rng)] if i % 3 else rand_field(rng, 256), "nv": rng.choice([1, 2, 2, 3, 4, 6])}
    for i in range(200 if tier == "quick" else 6000):
        ring = ["Z", rand_prime(rng)] if rng.random() < .65 else rand_field(rng, 2**17)
        yield {"kind": "chain" if i % 4 == 0 else "batch", "ring": ring, "nv": rng.choice([1, 2, 2, 3, 3, 4, 5]), "n": 8}


def rmono(rng, nv):
    r = rng.random()
    if r < .15: return (0,) * nv
    if r < .4:
        t = [0] * nv
        t[rng.randrange(nv)] = rng.choice([1, 1, 2, 3, 6])
        return tuple(t)
    return tuple(rng.choice([0, 0, 1, 1, 2, 3, 5]) for _ in range(nv))


def rmulti(R, rng, nv, maxterms=5):
    r = rng.random()
    if r < .07: return {}
    if r < .15: return ref.mtrim(R, {(0,) * nv: R.rand(rng)})
    return ref.mtrim(R, {rmono(rng, nv): R.rand(rng) for _ in range(rng.randint(1, maxterms))})


def observe(mon, k, nv, x, a, d):
    mon.equal(k.mval(x, nv), a, "value", **d)
    mon.equal(x.degree(), ref.mdeg(a), "degree", **d)
    mon.equal((len(x), bool(x.is_zero())), (len(a), not a), "size", **d)
    mon.equal([(t, k.val(c)) for t, c in x], sorted(a.items()), "iterate", **d)
    mon.event("op", 4)


def pair(mon, k, nv, a, b, x, y):
    R = k.R
    d = dict(ring=(k.kind, k.p, k.mod), a=a, b=b)
    s = x + y
    observe(mon, k, nv, s, ref.madd(R, a, b), dict(d, op="+"))
    if len(s) < len(set(a) | set(b)):
        mon.event("cancel")
    observe(mon, k, nv, x - y, ref.msub(R, a, b), dict(d, op="-"))
    observe(mon, k, nv, x * y, ref.mmul(R, a, b), dict(d, op="*"))
    mon.check(bool(x == y) is (a == b), "eq", **d)
    mon.check(bool(x != y) is (a != b), "ne", **d)
    mon.equal((k.mval(x, nv), k.mval(y, nv)), (a, b), "operand_changed", **d)
    mon.seen(k.kind, k.p, k.mod, sorted(a.items()), sorted(b.items()))


def division(mon, k, nv, a, b, x, y):
    """Exact division is exact; otherwise no monomial of the rest is divisible by the divisor's leading one."""
    R = k.R
    d = dict(ring=(k.kind, k.p, k.mod), a=a, b=b)
    if not b:
        mon.raises(lambda: x / y, "division_by_zero", exc=ZeroDivisionError, **d)
        return
    if len(a) * len(b) < 60:
        observe(mon, k, nv, (x * y) / y, a, dict(d, op="exact /"))
        mon.event("division")
    if len(a) > 40 or ref.mdeg(a) > 30: return
    q = x / y
    qa = k.mval(q, nv)
    rest = ref.msub(R, a, ref.mmul(R, qa, b))
    lead = max(b)
    mon.check(not any(all(m >= n for m, n in zip(t, lead)) for t in rest), "division_rest", q=qa, rest=rest, **d)
    mon.equal(k.mval(x.div_remainder(y, q), nv), rest, "division_remainder", q=qa, **d)
    mon.equal((k.mval(x, nv), k.mval(y, nv)), (a, b), "division_changed_operand", **d)
    if rest: mon.event("inexact_division")


def single(mon, k, nv, a, x, rng):
    R, T = k.R, k.T
    M = k.multi_type(nv)
    d = dict(ring=(k.kind, k.p, k.mod), a=a)
    observe(mon, k, nv, x, a, d)
    observe(mon, k, nv, -x, ref.mneg(R, a), dict(d, op="neg"))
    observe(mon, k, nv, M(x), a, dict(d, op="copy"))
    extra = dict(a)
    for _ in range(2):
        t = rmono(rng, nv)
        extra.setdefault(t, R.zero)
    observe(mon, k, nv, k.multi(extra, nv), a, dict(d, op="zero coefficients dropped"))
    for t in list(a)[:3] + [rmono(rng, nv) for _ in range(2)]:
        mon.equal(k.val(x[t]), a.get(t, R.zero), "getitem", t=t, **d)
    if k.kind == "Z":   # integer coefficients are reduced into the ring
        raw = {t: c + k.p * rng.randint(-1, 1) for t, c in extra.items()}
        observe(mon, k, nv, M(raw), a, dict(d, op="int coefficients", raw=raw))
        observe(mon, k, nv, M.factory(raw), a, dict(d, op="factory", raw=raw))
    for e in (0, 1, 2, 3, 4):
        if len(a) ** e < 200:
            observe(mon, k, nv, x**e, ref.mpow(R, a, e, nv), dict(d, op="pow", e=e))
    z = (0,) * nv
    i = rng.choice([0, 1, -1, 2, k.p, k.p - 1, rng.randrange(-1000, 1000)])
    ci = ref.mtrim(R, {z: R.int(i)})
    e = R.rand(rng)
    for o, c in ((i, ci), (k.lib(e), ref.mtrim(R, {z: e}))):
        dd = dict(d, other=o)
        observe(mon, k, nv, x + o, ref.madd(R, a, c), dict(dd, op="+c"))
        observe(mon, k, nv, o + x, ref.madd(R, a, c), dict(dd, op="c+"))
        observe(mon, k, nv, x - o, ref.msub(R, a, c), dict(dd, op="-c"))
        observe(mon, k, nv, o - x, ref.msub(R, c, a), dict(dd, op="c-"))
        observe(mon, k, nv, x * o, ref.mmul(R, a, c), dict(dd, op="*c"))
        observe(mon, k, nv, o * x, ref.mmul(R, a, c), dict(dd, op="c*"))
        mon.check(bool(x == o) is (a == c), "eq_const", **dd)
        observe(mon, k, nv, M(o), c, dict(dd, op="constant"))
        mon.event("mixed")
    for _ in range(3):
        pt = [R.rand(rng) for _ in range(nv)]
        lp = [k.lib(v) for v in pt]
        if rng.random() < .3:
            lp = tuple(lp)
        mon.equal(k.val(x(lp)), ref.meval(R, a, pt), "eval", at=pt, **d)
        mon.event("eval")
        mon.seen(k.kind, k.p, "eval", sorted(a.items()), pt)
    if k.kind == "Z":
        pt = [rng.choice([0, 1, -1, rng.randrange(-20, 20)]) for _ in range(nv)]
        mon.equal(k.val(x(pt)), ref.meval(R, a, [R.int(v) for v in pt]), "eval_int", at=pt, **d)
    if k.kind == "Z" and ref.mdeg(a) <= 8:
        gs = [ref.ptrim(R, [R.rand(rng) for _ in range(rng.randint(0, 3))]) for _ in range(nv)]
        want = []
        for t, c in a.items():
            term = [c]
            for g, e in zip(gs, t):
                term = ref.pmul(R, term, ref.ppow(R, g, e))
            want = ref.padd(R, want, term)
        got = x([k.poly(g) for g in gs])
        got = ref.ptrim(R, [k.val(got)]) if type(got) is T else k.pval(got)
        mon.equal(got, want, "compose_uni", gs=gs, **d)
        mon.event("compose_uni")
    if ref.mdeg(a) <= 6:
        n2 = rng.choice([nv, nv, 1, 2, 3])
        gs = [rmulti(R, rng, n2, 2) for _ in range(nv)]
        want = {}
        for t, c in a.items():
            term = ref.mtrim(R, {(0,) * n2: c})
            for g, e in zip(gs, t):
                term = ref.mmul(R, term, ref.mpow(R, g, e, n2))
            want = ref.madd(R, want, term)
        got = x([k.multi(g, n2) for g in gs])
        got = ref.mtrim(R, {(0,) * n2: k.val(got)}) if type(got) is T else k.mval(got, n2)
        mon.equal(got, want, "compose_multi", gs=gs, **d)
        mon.event("compose_multi")
    y = x
    y += M(1)
    y *= x
    mon.equal(k.mval(x, nv), a, "inplace_changed_operand", **d)


def run_case(spec, mon):
    k = kit(spec["ring"])
    R, nv = k.R, spec["nv"]
    rng = random.Random(spec["seed"])
    if spec["kind"] == "exh":
        import itertools
        monos = [(0, 0), (0, 1), (1, 0), (2, 1)] if nv == 2 else [(0,), (1,), (2,)]
        allm = [ref.mtrim(R, dict(zip(monos, cs))) for cs in itertools.product(R.all(), repeat=len(monos))]
        xs = [k.multi(a, nv) for a in allm]
        for a, x in zip(allm, xs):
            single(mon, k, nv, a, x, rng)
            for b, y in zip(allm, xs):
                pair(mon, k, nv, a, b, x, y)
                division(mon, k, nv, a, b, x, y)
        return
    if spec["kind"] == "long":
        # hundreds to thousands of terms
        for n, m in ((300, 300), (700, 5), (3, 1100), (1500, 1500)):
            many = lambda n: ref.mtrim(R, {tuple(rng.randrange(30 if nv < 4 else 6) for _ in range(nv)): R.rand(rng) for _ in range(n)})
            a, b = many(n), many(m)
            if n == m and rng.random() < .5: b = ref.madd(R, ref.mneg(R, a), many(rng.choice([0, 5, 200])))
            x, y = k.multi(a, nv), k.multi(b, nv)
            d = dict(ring=(k.kind, k.p, k.mod), sizes=(len(a), len(b)))
            observe(mon, k, nv, x, a, d)
            for z, c in ((x + y, ref.madd(R, a, b)), (x - y, ref.msub(R, a, b)), (y - x, ref.msub(R, b, a)), (-x, ref.mneg(R, a))):
                observe(mon, k, nv, z, c, d)
            if min(n, m) < 10: observe(mon, k, nv, x * y, ref.mmul(R, a, b), d)
            mon.check(bool(x == y) is (a == b) and bool(x == k.multi(a, nv)), "eq", **d)
            pt = [R.rand(rng) for _ in range(nv)]
            mon.equal(k.val(x([k.lib(v) for v in pt])), ref.meval(R, a, pt), "eval", at=pt, **d)
            mon.equal((k.mval(x, nv), k.mval(y, nv)), (a, b), "operand_changed", **d)
            mon.event("long_sum")
            mon.seen(k.kind, k.p, nv, n, m, sorted(a.items())[:3])
        return
    if spec["kind"] == "near":
        # the same calls on operands which differ in one coefficient or one exponent, and at points which differ in one coordinate
        a = {}
        while len(a) < (3 if nv == 1 else 5): a = ref.madd(R, a, rmulti(R, rng, nv, 12))
        b = {}
        while not b: b = rmulti(R, rng, nv, 4)
        pt = [R.rand(rng) for _ in range(nv)]
        gs = [ref.ptrim(R, [R.rand(rng) for _ in range(3)]) for _ in range(nv)]
        for _ in range(20):
            x, y = k.multi(a, nv), k.multi(b, nv)
            d = dict(ring=(k.kind, k.p, k.mod), a=dict(a), b=dict(b), at=list(pt))
            mon.equal(k.val(x([k.lib(v) for v in pt])), ref.meval(R, a, pt), "near:eval", **d)
            mon.equal(k.mval(x + y, nv), ref.madd(R, a, b), "near:+", **d)
            mon.equal((k.mval(x - y, nv), k.mval(y - x, nv)), (ref.msub(R, a, b), ref.msub(R, b, a)), "near:-", **d)
            mon.equal(k.mval(x * y, nv), ref.mmul(R, a, b), "near:*", **d)
            mon.equal(k.mval(-x, nv), ref.mneg(R, a), "near:neg", **d)
            mon.equal(x.degree(), ref.mdeg(a), "near:degree", **d)
            if len(a) < 16: mon.equal(k.mval(x**2, nv), ref.mpow(R, a, 2, nv), "near:pow", **d)
            mon.equal(k.mval((x * y) / y, nv), a, "near:/", **d)
            if k.kind == "Z" and ref.mdeg(a) <= 10:
                want = []
                for t, c in a.items():
                    term = [c]
                    for g, e in zip(gs, t): term = ref.pmul(R, term, ref.ppow(R, g, e))
                    want = ref.padd(R, want, term)
                got = x([k.poly(g) for g in gs])
                mon.equal(ref.ptrim(R, [k.val(got)]) if type(got) is k.T else k.pval(got), want, "near:compose", gs=gs, **d)
            mon.event("neighbour")
            r = rng.random()
            if r < .7:
                h = a if r < .5 or not b else b
                t = rng.choice(sorted(h))
                c = R.add(h[t], R.randnz(rng))
                if c == R.zero: c = R.one
                if rng.random() < .5: h[t] = c
                else:
                    s = list(t)
                    s[rng.randrange(nv)] += 1
                    if tuple(s) not in h: h[tuple(s)] = h.pop(t)
            else:
                j = rng.randrange(nv)
                if r < .9: pt[j] = R.add(pt[j], R.randnz(rng))
                else: gs[j] = ref.padd(R, gs[j], [R.zero] * rng.randrange(3) + [R.randnz(rng)])
        mon.seen(k.kind, k.p, "near", sorted(a.items()))
        return
    if spec["kind"] == "wide":
        for _ in range(3):
            a, b = rmulti(R, rng, nv), rmulti(R, rng, nv)
            x, y = k.multi(a, nv), k.multi(b, nv)
            pair(mon, k, nv, a, b, x, y)
            division(mon, k, nv, a, b, x, y)
            single(mon, k, nv, a, x, rng)
        mon.event("wide")
        return
    if spec["kind"] == "large":
        for _ in range(spec["n"]):
            # many terms each, exponents up to the thousands
            top = rng.choice([1, 2, 7, 31, 64, 130, 300, 2000])
            mono = lambda: tuple(rng.choice([0, 0, rng.randint(0, top), rng.choice([top, top - 1])]) for _ in range(nv))
            many = lambda n: ref.mtrim(R, {mono(): R.rand(rng) for _ in range(n)})
            a, b = many(rng.randint(20, 60)), many(rng.randint(1, 60))
            if rng.random() < .2: b = ref.madd(R, ref.mneg(R, a), many(3))
            x, y = k.multi(a, nv), k.multi(b, nv)
            pair(mon, k, nv, a, b, x, y)
            if rng.random() < .2: pair(mon, k, nv, a, a, x, x)
            for _ in range(2):
                pt = [rng.choice([R.zero, R.one, R.rand(rng), R.rand(rng)]) for _ in range(nv)]
                mon.equal(k.val(x([k.lib(v) for v in pt])), ref.meval(R, a, pt), "eval", a=a, at=pt)
                mon.event("eval")
            # a large product divided by either factor
            u, v = ref.mtrim(R, {tuple(rng.randint(0, 4) for _ in range(nv)): R.randnz(rng) for _ in range(rng.randint(5, 12))}), \
                ref.mtrim(R, {tuple(rng.choice([0, 0, 1, 2, 5]) for _ in range(nv)): R.randnz(rng) for _ in range(rng.randint(2, 9))})
            w = ref.mmul(R, u, v)
            lu, lv, lw = k.multi(u, nv), k.multi(v, nv), k.multi(w, nv)
            observe(mon, k, nv, lw / lv, u, dict(ring=(k.kind, k.p, k.mod), op="large exact /", a=w, b=v))
            observe(mon, k, nv, lw / lu, v, dict(ring=(k.kind, k.p, k.mod), op="large exact /", a=w, b=u))
            mon.event("division", 2)
            # as many terms, one coefficient or one monomial apart
            if not a: continue
            t = rng.choice(sorted(a))
            c = dict(a)
            val = c.pop(t)
            if rng.random() < .5: t2, val2 = t, R.add(val, R.one)
            else: t2, val2 = tuple(e + int(i == rng.randrange(nv)) for i, e in enumerate(t)), val
            c = ref.mtrim(R, dict(c, **{}) | {t2: val2})
            z = k.multi(c, nv)
            mon.check(bool(x == z) is (a == c) and bool(x != z) is (a != c), "near_eq", ring=(k.kind, k.p, k.mod), a=a, b=c)
            z = k.multi(dict(reversed(list(a.items()))), nv)
            mon.check(bool(x == z) and not bool(x != z), "equal_copy", ring=(k.kind, k.p, k.mod), a=a)
            # powers of a binomial or a monomial
            u = many(1 if rng.random() < .5 else 2)
            e = rng.choice([5, 8, 13, 16, 33])
            if len(u) < 2 or e < 17:
                observe(mon, k, nv, k.multi(u, nv) ** e, ref.mpow(R, u, e, nv), dict(op="large pow", u=u, e=e))
            mon.event("large")
            if top > 30: mon.event("high_power")
        return
    if spec["kind"] == "batch":
        for _ in range(spec["n"]):
            a, b = rmulti(R, rng, nv), rmulti(R, rng, nv)
            r = rng.random()
            if r < .1: b = a
            elif r < .25: b = ref.madd(R, ref.mneg(R, a), rmulti(R, rng, nv, 2))
            elif r < .35: b = ref.mtrim(R, {t: R.rand(rng) for t in a})
            x, y = k.multi(a, nv), k.multi(b, nv)
            pair(mon, k, nv, a, b, x, y)
            division(mon, k, nv, a, b, x, y)
            single(mon, k, nv, a, x, rng)
        return
    unit = [ref.mtrim(R, {tuple(int(i == j) for j in range(nv)): R.one}) for i in range(nv)]
    pool = [(k.multi(a, nv), a) for a in [{}, ref.mtrim(R, {(0,) * nv: R.one})] + unit + [rmulti(R, rng, nv, 3) for _ in range(3)]]
    size = len(pool) + 3
    for _ in range(spec["n"] * 8):
        (x, a), (y, b) = rng.choice(pool), rng.choice(pool)
        op = rng.choice("+-*n^i")
        if op == "*" and len(a) * len(b) > 120 or op == "^" and len(a) > 8:
            continue
        if op == "+": z, c = x + y, ref.madd(R, a, b)
        elif op == "-": z, c = x - y, ref.msub(R, a, b)
        elif op == "*": z, c = x * y, ref.mmul(R, a, b)
        elif op == "n": z, c = -x, ref.mneg(R, a)
        elif op == "^": z, c = x**2, ref.mpow(R, a, 2, nv)
        else:
            i = rng.randrange(-9, 9)
            ci = ref.mtrim(R, {(0,) * nv: R.int(i)})
            z, c = i - x * i, ref.msub(R, ci, ref.mmul(R, a, ci))
        mon.equal(k.mval(z, nv), c, "chain:" + op, a=a, b=b)
        mon.event("chain_step")
        if len(pool) < size:
            pool.append((z, c))
        else:
            pool[rng.randrange(size)] = (z, c)
    for x, a in pool:
        mon.equal(k.mval(x, nv), a, "pool_value_changed", a=a)
        mon.seen(k.kind, k.p, "chain", sorted(a.items()))
