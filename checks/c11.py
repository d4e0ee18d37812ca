"""C11 multiplicative FFT against point-wise evaluation."""
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is one field and one transform order n (2^k, 3*2^k, and others which divide the order of the group) with several coefficient lists (empty, constant, short, full, sparse); every "
        "output value is recomputed by Horner evaluation; distinct non-trivial = distinct (field, n, list)")
REQUIRED = {"forward": 400, "inverse": 400, "roundtrip": 400, "linear": 200, "product": 300, "short_input": 150, "value": 15000, "order_3x": 30, "order_other": 50, "char_2": 5, "long_input": 300, "neighbour": 800, "long_inverse_refused": 400}

ZP = [7, 13, 17, 31, 97, 193, 257, 337, 769, 7681, 12289, 40961, 65537, 786433, ref.P256, 2**255 - 19, 2**61 - 1]


def cases(rng, tier):
    for p in ZP:
        for n in orders(p - 1, 256):
            yield {"ring": ["Z", p], "n": n, "reps": 3}
    yield {"ring": ["Z", 12289], "n": 4096, "reps": 1}
    yield {"ring": ["Z", ref.P256], "n": 2048, "reps": 1}
    yield {"ring": ["Z", 7681], "n": 1536 // 3 * 1, "reps": 1}
    # lists much shorter than the domain, and domains with more than 256 points
    for p in (12289, 7681, 65537, 786433, ref.P256):
        for n in (512, 1024, 768):
            if (p - 1) % n == 0: yield {"ring": ["Z", p], "n": n, "reps": 2, "short": True}
    # orders with an odd factor other than 3, also over fields of characteristic 2
    for i in range(60 if tier == "quick" else 2500):
        ring = ["Z", rng.choice(ZP + [11, 29, 41, 61, 71, 101, 211, 421, 2311, 9241, 55441])] if rng.random() < .6 else rand_field(rng, 2**14, odd=i % 3 > 0)
        q = ring[1] - 1 if ring[0] == "Z" else ring[1] ** (len(ring[2]) - 1) - 1
        ns = odd_orders(q, 48 if ring[0] == "F" else 100)
        if ns: yield {"ring": ring, "n": rng.choice(ns), "reps": 3}
    for _ in range(60 if tier == "quick" else 2500):
        ring = ["Z", rng.choice(ZP)] if rng.random() < .4 else rand_field(rng, 2**18, odd=True)
        q = ring[1] - 1 if ring[0] == "Z" else ring[1] ** (len(ring[2]) - 1) - 1
        yield {"ring": ring, "n": rng.choice(orders(q, 48 if ring[0] == "F" else 128)), "reps": 4}


def orders(q, hi):
    return [n for k in range(13) for n in (2**k, 3 * 2**k) if n <= hi and q % n == 0]


def odd_orders(q, hi):
    return [n for n in range(5, hi) if q % n == 0 and n not in orders(q, hi)]


def root(R, rng, n):
    q = R.size - 1
    while True:
        w = R.pow(R.randnz(rng), q // n)
        if all(R.pow(w, n // s) != R.one for s in ref.prime_factors(n)):
            return w


def run_case(spec, mon):
    from starks.fft import NonBinaryFFT, fft_1d, mul_polys
    rng = random.Random(spec["seed"])
    k = kit(spec["ring"])
    R, F, n = k.R, k.T, spec["n"]
    ring = (k.kind, k.p, k.mod)
    L = lambda v: [k.lib(a) for a in v]
    V = lambda v: [k.val(a) for a in v]
    for _ in range(spec["reps"]):
        w = root(R, rng, n)
        xs = [R.one]
        for _ in range(n - 1):
            xs.append(R.mul(xs[-1], w))
        lw = k.lib(w)
        solver = NonBinaryFFT(F, lw)

        def rlist(m):
            r = rng.random()
            if r < .15: a = [R.zero] * m
            elif r < .3:
                a = [R.zero] * m
                if m: a[rng.randrange(m)] = R.randnz(rng)
            else: a = [R.rand(rng) for _ in range(m)]
            return a

        def values(a):
            pts = range(n) if n <= 300 else sorted(set(rng.sample(range(n), 40)) | {0, 1, n // 2, n - 1})
            return pts, [ref.peval(R, a, xs[i]) for i in pts]

        d = dict(ring=ring, n=n, w=w)
        a = ref.ptrim(R, rlist(rng.choice([n, n, n - 1, n // 2, 1, 0, rng.randint(0, n)])))
        if spec.get("short"): a = ref.ptrim(R, [R.rand(rng) for _ in range(rng.randint(2, n // 8))])
        la = k.poly(a)
        out = V(solver.fft(la))
        pts, want = values(a)
        mon.equal(len(out), n, "length", a=a, **d)
        mon.equal([out[i] for i in pts], want, "forward", a=a, **d)
        mon.equal(k.pval(la), a, "input_changed", **d)
        mon.event("forward"); mon.event("value", len(want))
        if len(a) < n: mon.event("short_input")
        if n % 3 == 0: mon.event("order_3x")
        if n not in orders(n, n): mon.event("order_other")
        if k.p == 2: mon.event("char_2")
        mon.seen(ring, n, w, a)
        mon.equal(k.pval(solver.inv_fft(L(out))), a, "roundtrip", a=a, **d)
        mon.event("roundtrip")
        # the caller may do as it likes with the list it was given, and still get the values when it asks again
        res = solver.fft(la)
        for j in rng.sample(range(n), min(n, 2)): res[j] = k.lib(R.add(k.val(res[j]), R.one))
        mon.equal(V(solver.fft(la)), out, "forward_again", a=a, **d)
        del res[:]
        mon.equal(V(solver.fft(la)), out, "forward_again", a=a, **d)
        # polynomials with at least as many coefficients as the domain has points
        h = ref.ptrim(R, [R.rand(rng) for _ in range(rng.choice([n, n + 1, n + 2, 2 * n, 3 * n + 1, rng.randint(n, 2 * n)]))] + [R.randnz(rng)]) if n <= 300 else None
        if h and rng.random() < .3: h = [R.zero] * (len(h) - 1) + [R.randnz(rng)]
        if h:
            lh = k.poly(h)
            want = [ref.peval(R, h, x) for x in xs]
            mon.equal(V(solver.fft(lh)), want, "long_forward", f=h, **d)
            mon.equal(V(fft_1d(F, L(h), k.p, lw)), want, "long_forward_list", f=h, **d)
            mon.equal(k.pval(lh), h, "input_changed", **d)
            mon.event("long_input")
            mon.seen(ring, n, w, "long", h)
        # inverse of arbitrary values, through both entry points
        v = rlist(n)
        lv = L(v)
        f = k.pval(solver.inv_fft(lv))
        mon.check(len(f) <= n, "inverse_degree", v=v, **d)
        pts, got = values(f)
        mon.equal(got, [v[i] for i in pts], "inverse", v=v, **d)
        raw = V(fft_1d(F, lv, k.p, lw, inv=True))
        mon.equal(ref.ptrim(R, raw), f, "inverse_list", v=v, **d)
        mon.equal(V(lv), v, "values_changed", **d)
        mon.equal(V(fft_1d(F, L(raw), k.p, lw)), v, "roundtrip_values", v=v, **d)
        mon.event("inverse")
        if n > 1:
            v2 = L(v + [R.rand(rng) for _ in range(rng.choice([1, 2, n]))])
            mon.rejects(lambda: solver.inv_fft(v2), "more_values_than_points_accepted", n_values=len(v2), **d)
            mon.rejects(lambda: fft_1d(F, v2, k.p, lw, inv=True), "more_values_than_points_accepted", n_values=len(v2), **d)
            mon.event("long_inverse_refused")
        mon.seen(ring, n, w, "inv", v)
        # linearity
        b = rlist(n)
        c = R.rand(rng)
        s = [R.add(x, R.mul(c, y)) for x, y in zip(a + [R.zero] * (n - len(a)), b)]
        fb = V(fft_1d(F, L(b), k.p, lw))
        mon.equal(V(fft_1d(F, L(s), k.p, lw)), [R.add(x, R.mul(c, y)) for x, y in zip(out, fb)], "linear", a=a, b=b, c=c, **d)
        mon.event("linear")
        # products of lists whose product has degree < n
        i = rng.randint(1, n)
        j = rng.randint(1, n + 1 - i)
        x, y = rlist(i), rlist(j)
        if rng.random() < .3 and i + j <= n: x += [R.zero]
        lx, ly = L(x), L(y)
        got = V(mul_polys(lx, ly, lw))
        want = ref.pmul(R, ref.ptrim(R, x), ref.ptrim(R, y))
        mon.equal(got, want + [R.zero] * (n - len(want)), "product", x=x, y=y, **d)
        mon.equal((V(lx), V(ly)), (x, y), "factors_changed", **d)
        mon.event("product")
        mon.seen(ring, n, w, "mul", x, y)
        # and again with one entry changed
        if n > 300: continue
        for _ in range(2):
            if rng.random() < .5 or not y: t, lt = x, lx
            else: t, lt = y, ly
            if not t: continue
            z = rng.randrange(len(t))
            t[z] = R.rand(rng)
            if rng.random() < .5: lt[z] = k.lib(t[z])
            else: lx, ly = L(x), L(y)
            want = ref.pmul(R, ref.ptrim(R, x), ref.ptrim(R, y))
            mon.equal(V(mul_polys(lx, ly, lw)), want + [R.zero] * (n - len(want)), "product", x=x, y=y, **d)
            z = rng.randrange(n)
            v[z] = R.rand(rng)
            lv[z] = k.lib(v[z])
            f = k.pval(solver.inv_fft(lv if rng.random() < .5 else L(v)))
            pts, got = values(f)
            mon.equal(got, [v[i] for i in pts], "inverse", v=v, **d)
            b[z] = R.rand(rng)
            pts, want = values(b)
            got = V(fft_1d(F, L(b), k.p, lw))
            mon.equal([got[i] for i in pts], want, "forward", a=b, **d)
            mon.event("neighbour")
