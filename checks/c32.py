"""C32 Gaussian elimination over degree-0 polynomials, and the polynomial comparison used for pivoting."""
import itertools
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is a batch of square systems (every 2x2 over GF(2), then sampled 3x3 and larger ones, several fields) solved in several row orders, or a "
        "batch of comparisons; distinct non-trivial = distinct (field, system)")
REQUIRED = {"solved": 1200, "pivot_needed": 300, "singular": 300, "row_order": 1200, "compare": 4000, "same_degree": 1000, "equal": 200, "near": 8000,
            "large_system": 60, "neighbour": 1500}


def cases(rng, tier):
    for n in (1, 2): yield {"kind": "exh", "n": n}
    for part in range(8): yield {"kind": "exh", "n": 3, "part": part, "step": 8 if tier == "quick" else 1}
    for i in range(100 if tier == "quick" else 4000):
        yield {"kind": "solve", "field": ["Z", 2] if i % 2 else rng.choice([["Z", rng.choice(ref.SMALL)], rand_field(rng, 2**12), ["Z", ref.P256]]), "n": 14}
    for i in range(32 if tier == "quick" else 600):
        yield {"kind": "solve", "field": ["Z", 2] if i % 2 else rng.choice([["Z", rng.choice(ref.SMALL)], rand_field(rng, 2**8), ["Z", ref.P256]]), "n": 3,
               "sizes": [9, 10, 11, 12, 14, 16, 17]}
    for i, n in enumerate((20, 24, 32, 33, 40)):
        yield {"kind": "solve", "field": ["Z", [2, 97, ref.P256, 2, 3][i]], "n": 2, "sizes": [n]}
    for i in range(40 if tier == "quick" else 1000): yield {"kind": "compare"}


def singular(R, A):
    M = [list(r) for r in A]
    moved = False
    for i in range(len(M)):
        piv = next((r for r in range(i, len(M)) if M[r][i] != R.zero), None)
        if piv is None: return True, moved
        moved = moved or piv != i
        M[i], M[piv] = M[piv], M[i]
        for r in range(i + 1, len(M)):
            f = R.mul(M[r][i], R.inv(M[i][i]))
            M[r] = [R.sub(a, R.mul(f, b)) for a, b in zip(M[r], M[i])]
    return False, moved


def solve(mon, k, rng, A, x, orders=1):
    from starks.poly_utils import gauss
    R, T = k.R, k.poly_type()
    n = len(A)
    b = []
    for row in A:
        s = R.zero
        for c, v in zip(row, x): s = R.add(s, R.mul(c, v))
        b.append(s)
    d = dict(ring=(k.kind, k.p, k.mod), A=A, x=x)
    bad, moved = singular(R, A)
    lib = lambda c: T([k.lib(c)])
    for o in range(orders + 1):
        idx = list(range(n))
        if o: rng.shuffle(idx)
        M = [[lib(c) for c in A[i]] + [lib(b[i])] for i in idx]
        if bad:
            mon.raises(lambda: gauss(M, n, k.T), "singular_solved", order=idx, **d)
            mon.event("singular")
            continue
        got = gauss(M, n, k.T)
        mon.equal(len(got), n, "length", order=idx, **d)
        mon.equal([k.pval(g) for g in got], [ref.ptrim(R, [v]) for v in x], "solution", order=idx, **d)
        mon.event("row_order" if o else "solved")
    if moved and not bad: mon.event("pivot_needed")
    mon.seen(k.kind, k.p, k.mod, A, x)


def run_case(spec, mon):
    rng = random.Random(spec["seed"])
    if spec["kind"] == "compare":
        from starks import poly_utils
        k = kit(["Z", 2])
        T = k.poly_type()
        for _ in range(150):
            L = rng.choice([1, 2, 3, 5, 8, 20, 40, rng.randint(33, 300)])
            a, b = rng.getrandbits(L), rng.getrandbits(L)
            r = rng.random()
            if r < .1: b = a
            elif r < .4: b = a ^ (1 << rng.randrange(L))
            la, lb = (T([x >> i & 1 for i in range(x.bit_length())]) for x in (a, b))
            mon.equal(poly_utils.max(la, lb), int(a >= b), "compare", a=bin(a), b=bin(b))
            mon.event("compare")
            if a == b: mon.event("equal")
            elif a.bit_length() == b.bit_length(): mon.event("same_degree")
            mon.seen(a, b)
            # close pairs: any comparison must look at every coefficient
            for _ in range(4):
                c = a ^ (1 << rng.randrange(L))
                lc = T([c >> i & 1 for i in range(c.bit_length())])
                mon.equal((poly_utils.max(la, lc), poly_utils.max(lc, la)), (int(a >= c), int(c >= a)), "compare_near", a=bin(a), b=bin(c))
                mon.event("near")
        return
    if spec["kind"] == "exh":
        k = kit(["Z", 2])
        n = spec["n"]
        for i, bits in enumerate(itertools.product((0, 1), repeat=n * n)):
            if "part" in spec and i % 8 != spec["part"]: continue
            A = [list(bits[r * n:(r + 1) * n]) for r in range(n)]
            xs = list(itertools.product((0, 1), repeat=n))
            if spec.get("step", 1) > 1: xs = rng.sample(xs, 2)
            for x in xs: solve(mon, k, rng, A, list(x))
        return
    k = kit(spec["field"])
    R = k.R
    for _ in range(spec["n"]):
        n = rng.choice(spec.get("sizes") or [1, 2, 3, 3, 4, 4, 5, 6, 8])
        if n > 8: mon.event("large_system")
        dens = rng.choice([.3, .5, .8, 1])
        A = [[R.rand(rng) if rng.random() < dens else R.zero for _ in range(n)] for _ in range(n)]
        if rng.random() < .4:       # a permuted triangular matrix: non-singular and needs row exchanges
            A = [[R.randnz(rng) if i == j else R.rand(rng) if j > i else R.zero for j in range(n)] for i in range(n)]
            rng.shuffle(A)
        x = [R.rand(rng) for _ in range(n)]
        solve(mon, k, rng, A, x, 2)
        if n < 9:       # one entry or one unknown changed
            for _ in range(3):
                A, x = [list(r) for r in A], list(x)
                r = A[rng.randrange(n)] if rng.random() < .7 else x
                i = rng.randrange(n)
                r[i] = R.add(r[i], R.randnz(rng))
                solve(mon, k, rng, A, x, 0)
                mon.event("neighbour")
