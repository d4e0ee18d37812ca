"""C09 interpolation, root products and batch inversion."""
import random

from vlib import ref
from vlib.kits import kit, rand_field, rand_prime

RULE = ("a case is a batch of point sets over one field (distinct xs; ys random, all zero, some zero, from a low-degree polynomial), of root lists "
        "(repeats, zero, empty) and of value lists with zeros; distinct non-trivial = distinct (function, field, input)")
REQUIRED = {"int_values": 300, "large": 60, "huge": 15, "neighbour": 700, "lagrange": 600, "interp2": 300, "interp4": 300, "multi4": 150, "zpoly": 500, "multi_inv": 500, "zero_value": 500, "x_zero": 200}


def cases(rng, tier):
    for ring in (["Z", 5], ["Z", 7], ["F", 2, [1, 1, 1]], ["F", 2, [1, 1, 0, 1]], ["F", 3, [2, 1, 1]], ["Z", 31], ["Z", ref.P256]):
        yield {"ring": ring, "n": 40}
    for i in range(30 if tier == "quick" else 500):
        yield {"kind": "large", "ring": ["Z", rand_prime(rng)] if i % 3 else rand_field(rng, 2**20), "n": 2}
    for i in range(16 if tier == "quick" else 200):
        yield {"kind": "huge", "ring": ["Z", rand_prime(rng)] if i % 4 else rand_field(rng, 2**12), "i": i}
    for i in range(24 if tier == "quick" else 400):
        yield {"kind": "neighbours", "ring": ["Z", rand_prime(rng)] if i % 3 else rand_field(rng, 2**16)}
    for i in range(80 if tier == "quick" else 4000):
        yield {"ring": ["Z", rand_prime(rng)] if i % 2 else rand_field(rng, 2**20), "n": 8}


def distinct(R, rng, n):
    out = []
    while len(out) < n:
        a = R.rand(rng)
        if a not in out:
            out.append(a)
    return out


def rys(R, rng, xs, mon):
    r = rng.random()
    n = len(xs)
    if r < .1: ys = [R.zero] * n
    elif r < .3:
        f = [R.rand(rng) for _ in range(rng.randint(0, n - 1))]
        ys = [ref.peval(R, f, x) for x in xs]
    elif r < .5: ys = [R.zero if rng.random() < .5 else R.rand(rng) for _ in xs]
    elif r < .6: ys = [R.rand(rng)] * n
    else: ys = [R.rand(rng) for _ in xs]
    if R.zero in xs:
        mon.event("x_zero")
    return ys


def run_case(spec, mon):
    from starks.poly_utils import lagrange_interp, lagrange_interp_2, lagrange_interp_4, multi_interp_4, multi_inv, zpoly
    rng = random.Random(spec["seed"])
    k = kit(spec["ring"])
    R, T = k.R, k.T
    ring = (k.kind, k.p, k.mod)
    L = lambda v: [k.lib(a) for a in v]

    def V(v):
        """values as the low-degree verifier hands them over: sometimes plain ints"""
        if k.kind != "Z" or rng.random() < .6: return L(v)
        mon.event("int_values")
        return [a if rng.random() < .8 else k.lib(a) for a in v]
    if spec.get("kind") == "huge":
        n = rng.choice([511, 512, 513, 600, 1000, 1023, 1024, 1025, 2048, 3000, 5000]) if k.kind == "Z" else rng.choice([400, 513, 700])
        vals = [R.zero if rng.random() < .1 else R.rand(rng) for _ in range(n)]
        inv = [k.val(v) for v in multi_inv(T, L(vals))]
        mon.equal(inv, [R.zero if v == R.zero else R.inv(v) for v in vals], "multi_inv", ring=ring, n=n)
        if R.size >= 4:
            xs = distinct(R, rng, 4)
            sets = []
            for _ in range(rng.choice([100, 128, 129, 200, 256, 257, 300, 513]) if k.kind == "Z" else 100):
                r = rng.random()
                if r < .2: xs = list(xs)        # the same points again, in this or another order, or all but one of them
                elif r < .4: xs = rng.sample(xs, 4)
                elif r < .6 and R.size > 4: xs = [next(a for a in iter(lambda: R.rand(rng), None) if a not in xs) if i == spec["i"] % 4 else x for i, x in enumerate(xs)]
                else: xs = distinct(R, rng, 4)
                sets.append((xs, rys(R, rng, xs, mon)))
            got = [k.pval(f) for f in multi_interp_4(T, [L(x) for x, _ in sets], [V(y) for _, y in sets])]
            mon.equal(got, [ref.pinterp(R, x, y) for x, y in sets], "multi4", ring=ring, n=len(sets))
        if k.kind == "Z":
            roots = [R.rand(rng) for _ in range(rng.choice([128, 129, 200, 257]))]
            mon.equal(k.pval(zpoly(T, L(roots))), ref.proots(R, roots), "zpoly", ring=ring, n=len(roots))
            if R.size > 80 and spec["i"] % 3 == 1:
                xs = distinct(R, rng, rng.choice([50, 64, 65, 72]))
                ys = rys(R, rng, xs, mon)
                mon.equal(k.pval(lagrange_interp(T, L(xs), V(ys))), ref.pinterp(R, xs, ys), "lagrange", ring=ring, n=len(xs))
        mon.seen("huge", ring, vals)
        mon.event("huge")
        return
    if spec.get("kind") == "neighbours":
        # the same call again and again with one entry changed, in the same lists or in new ones
        if R.size < 16: return

        def walk(lists, fixed, call, want, what):
            libs = [L(v) for v in lists]
            for _ in range(10):
                mon.equal(call(*libs), want(*lists), what, ring=ring, lists=lists)
                mon.event("neighbour")
                mon.seen(what, ring, lists)
                i = rng.randrange(len(lists))
                j = rng.randrange(len(lists[i]))
                v = R.rand(rng)
                while i in fixed and v in lists[i]: v = R.rand(rng)
                lists[i] = [v if t == j else x for t, x in enumerate(lists[i])]
                if rng.random() < .5: libs = [L(x) for x in lists]
                else: libs[i][j] = k.lib(v)

        n = min(R.size - 2, rng.randint(6, 16))
        walk([[R.rand(rng) for _ in range(rng.randint(9, 24))]], (), lambda r: k.pval(zpoly(T, r)), lambda r: ref.proots(R, r), "zpoly")
        walk([distinct(R, rng, n), [R.rand(rng) for _ in range(n)]], (0,), lambda x, y: k.pval(lagrange_interp(T, x, y)), lambda x, y: ref.pinterp(R, x, y), "lagrange")
        walk([distinct(R, rng, 4), [R.rand(rng) for _ in range(4)]], (0,), lambda x, y: k.pval(lagrange_interp_4(T, x, y)), lambda x, y: ref.pinterp(R, x, y), "interp4")
        walk([distinct(R, rng, 2), [R.rand(rng) for _ in range(2)]], (0,), lambda x, y: k.pval(lagrange_interp_2(T, x, y)), lambda x, y: ref.pinterp(R, x, y), "interp2")
        sets = [f() for _ in range(7) for f in (lambda: distinct(R, rng, 4), lambda: [R.rand(rng) for _ in range(4)])]
        walk(sets, set(range(0, 14, 2)), lambda *s: [k.pval(f) for f in multi_interp_4(T, list(s[::2]), list(s[1::2]))], lambda *s: [ref.pinterp(R, x, y) for x, y in zip(s[::2], s[1::2])], "multi4")
        walk([[R.rand(rng) for _ in range(rng.randint(5, 24))]], (), lambda r: [k.val(v) for v in multi_inv(T, r)], lambda r: [R.zero if v == R.zero else R.inv(v) for v in r], "multi_inv")
        return
    if spec.get("kind") == "large":
        for _ in range(spec["n"]):
            n = min(R.size, rng.choice([15, 16, 17, 31, 32, 33, 40] if k.kind == "Z" else [12, 16, 17]))
            xs = distinct(R, rng, n)
            ys = rys(R, rng, xs, mon)
            if rng.random() < .4:    # runs of equal values
                c = [R.zero, R.rand(rng), R.rand(rng)]
                ys = [c[rng.randrange(3)] if rng.random() < .3 else c[1] for _ in xs]
            mon.equal(k.pval(lagrange_interp(T, L(xs), V(ys))), ref.pinterp(R, xs, ys), "lagrange", ring=ring, xs=xs, ys=ys)
            n = rng.choice([63, 64, 65, 100, 127, 128, 129, 200, 256, 257, 300])
            vals = [R.zero if rng.random() < .1 else R.rand(rng) for _ in range(n)]
            inv = [k.val(v) for v in multi_inv(T, L(vals))]
            mon.equal(inv, [R.zero if v == R.zero else R.inv(v) for v in vals], "multi_inv", ring=ring, vals=vals)
            roots = [R.rand(rng) for _ in range(rng.choice([20, 33, 64, 100] if k.kind == "Z" else [20, 33]))]
            mon.equal(k.pval(zpoly(T, L(roots))), ref.proots(R, roots), "zpoly", ring=ring, roots=roots)
            if R.size >= 4:
                sets = []
                for _ in range(rng.choice([16, 17, 31, 33, 64, 65, 90]) if k.kind == "Z" else 20):
                    xs = distinct(R, rng, 4)
                    sets.append((xs, rys(R, rng, xs, mon)))
                got = [k.pval(f) for f in multi_interp_4(T, [L(x) for x, _ in sets], [V(y) for _, y in sets])]
                mon.equal(got, [ref.pinterp(R, x, y) for x, y in sets], "multi4", ring=ring, sets=sets)
            mon.seen("large", ring, vals)
            mon.event("large")
        return
    for _ in range(spec["n"]):
        n = rng.randint(1, min(9, R.size))
        xs = distinct(R, rng, n)
        ys = rys(R, rng, xs, mon)
        lx, ly = L(xs), V(ys)
        got = k.pval(lagrange_interp(T, lx, ly))
        mon.equal(got, ref.pinterp(R, xs, ys), "lagrange", ring=ring, xs=xs, ys=ys)
        mon.equal(([k.val(x) for x in lx], [R.int(y) if type(y) is int else k.val(y) for y in ly]), (xs, ys), "arguments_changed", ring=ring)
        mon.event("lagrange")
        mon.seen("lag", ring, xs, ys)
        if R.size >= 2:
            xs = distinct(R, rng, 2)
            ys = rys(R, rng, xs, mon)
            mon.equal(k.pval(lagrange_interp_2(T, L(xs), V(ys))), ref.pinterp(R, xs, ys), "interp2", ring=ring, xs=xs, ys=ys)
            mon.event("interp2")
            mon.seen("2", ring, xs, ys)
        if R.size >= 4:
            xs = distinct(R, rng, 4)
            ys = rys(R, rng, xs, mon)
            mon.equal(k.pval(lagrange_interp_4(T, L(xs), V(ys))), ref.pinterp(R, xs, ys), "interp4", ring=ring, xs=xs, ys=ys)
            mon.event("interp4")
            mon.seen("4", ring, xs, ys)
            sets = []
            for _ in range(rng.randint(1, 6)):
                xs = distinct(R, rng, 4)
                sets.append((xs, rys(R, rng, xs, mon)))
            got = [k.pval(f) for f in multi_interp_4(T, [L(x) for x, _ in sets], [V(y) for _, y in sets])]
            mon.equal(got, [ref.pinterp(R, x, y) for x, y in sets], "multi4", ring=ring, sets=sets)
            mon.event("multi4")
            mon.seen("m4", ring, sets)
        n = rng.choice([0, 1, 2, 3, 5, 8, 14])
        roots = [R.rand(rng) for _ in range(n)]
        if n > 2 and rng.random() < .5: roots[1] = roots[0]
        lr = L(roots)
        mon.equal(k.pval(zpoly(T, lr)), ref.proots(R, roots), "zpoly", ring=ring, roots=roots)
        mon.equal([k.val(x) for x in lr], roots, "roots_changed", ring=ring)
        mon.event("zpoly")
        mon.seen("z", ring, roots)
        n = rng.choice([0, 1, 1, 2, 3, 7, 16, 33])
        vals = [R.zero if rng.random() < .25 else R.rand(rng) for _ in range(n)]
        lv = L(vals)
        inv = [k.val(v) for v in multi_inv(T, lv)]
        mon.equal(inv, [R.zero if v == R.zero else R.inv(v) for v in vals], "multi_inv", ring=ring, vals=vals)
        mon.equal([k.val(x) for x in lv], vals, "values_changed", ring=ring)
        mon.event("multi_inv")
        mon.event("zero_value", vals.count(R.zero))
        mon.seen("i", ring, vals)
