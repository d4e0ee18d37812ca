"""C14 leaf packing and decoding of serialised values."""
import random

from vlib import ref
from vlib.kits import kit, rand_field, rand_prime

RULE = ("a case is one (dimensions, polynomials, leaves) packing with every leaf unpacked, or a batch of values serialised and decoded in one type; "
        "distinct non-trivial = distinct shapes with values / distinct values")
REQUIRED = {"leaf": 1100, "unpacked_value": 15000, "decode": 1500, "neighbour": 200, "near": 600, "poly_decode": 500, "bad_length": 500, "distinct_pairs": 2000}


def cases(rng, tier):
    for dims in (1, 2, 3, 5, 9):
        for polys in (1, 2, 3, 4, 6):
            yield {"kind": "pack", "dims": dims, "polys": polys, "k": rng.randint(0, 4), "p": rng.choice([7, 257, 65537, ref.P256, 2**127 - 1])}
    for dims, polys, kk in ((12, 3, 1), (17, 3, 1), (3, 17, 1), (33, 3, 0), (1, 40, 0), (2, 3, 8), (1, 3, 10)):
        yield {"kind": "pack", "dims": dims, "polys": polys, "k": kk, "p": rng.choice([257, ref.P256])}
    for i in range(24 if tier == "quick" else 400):
        p, m = [(2, 12), (2, 17), (2, 33), (3, 9), (5, 8), (257, 7), (101, 9), (2, 64)][i % 8]
        yield {"kind": "decode", "ring": ["F", p, list(ref.find_irreducible(p, m, rng))], "n": 10}
    for i in range(120 if tier == "quick" else 4000):
        if i % 4 == 0:
            yield {"kind": "pack", "dims": rng.randint(1, 9), "polys": rng.randint(1, 6), "k": rng.randint(0, 4), "p": rand_prime(rng)}
        else:
            yield {"kind": "decode", "ring": rng.choice([["Z", rand_prime(rng)], ["Qp", rand_prime(rng)], rand_field(rng)]), "n": 30}


def enc(vals): return b"".join(v.to_bytes(32, "big") for v in vals)


def run_case(spec, mon):
    from starks.merkle_tree import merkelize_polynomial_evaluations, mk_branch, unpack_merkle_leaf, verify_branch
    rng = random.Random(spec["seed"])
    if spec["kind"] == "pack":
        k = kit(["Z", spec["p"]])
        n, D, P = 4 << spec["k"], spec["dims"], spec["polys"]
        vals = [[k.R.rand(rng) for _ in range(n)] for _ in range(D * P)]
        lib = [[k.lib(v) for v in row] for row in vals]
        tree = merkelize_polynomial_evaluations(D, lib)
        mon.equal([[k.val(v) for v in row] for row in lib], vals, "evaluations_changed", dims=D, polys=P)
        mon.equal(len(tree), 2 * n, "tree_length", dims=D, polys=P)
        for i in range(n):
            leaf = verify_branch(tree[1], i, mk_branch(tree, i))
            want = [row[i] for row in vals]
            mon.equal(leaf, enc(want), "leaf", i=i, dims=D, polys=P)
            got = unpack_merkle_leaf(leaf, D, P)
            mon.equal([bytes(b) for b in got], [v.to_bytes(32, "big") for v in want], "unpacked", i=i, dims=D, polys=P)
            mon.equal([k.val(k.T(b)) for b in got], want, "unpacked_values", i=i, dims=D, polys=P)
            mon.event("leaf")
            mon.event("unpacked_value", len(want))
            # the packing is injective in every slot
            j = rng.randrange(len(want))
            mon.equal(unpack_merkle_leaf(leaf, D, P)[j], want[j].to_bytes(32, "big"), "slot", i=i, j=j)
        mon.seen(D, P, n, vals[0][:3], spec["p"])
        # again with one value changed
        for _ in range(6):
            j, i = rng.randrange(D * P), rng.randrange(n)
            vals[j][i] = k.R.rand(rng)
            if rng.random() < .5: lib[j][i] = k.lib(vals[j][i])
            else: lib = [[k.lib(v) for v in row] for row in vals]
            tree = merkelize_polynomial_evaluations(D, lib)
            for q in {i, rng.randrange(n)}:
                leaf = verify_branch(tree[1], q, mk_branch(tree, q))
                mon.equal(leaf, enc([row[q] for row in vals]), "leaf", i=q, dims=D, polys=P)
                mon.equal([bytes(b) for b in unpack_merkle_leaf(leaf, D, P)], [row[q].to_bytes(32, "big") for row in vals], "unpacked", i=q, dims=D, polys=P)
            mon.event("neighbour")
        return
    k = kit(spec["ring"])
    R, T = k.R, k.T
    d = dict(ring=(k.kind, k.p, k.mod))
    seen = {}
    for _ in range(spec["n"]):
        a = R.rand(rng)
        x = k.lib(a, rng)
        b = x.to_bytes()
        mon.check(type(b) is bytes, "type", a=a, **d)
        if k.kind == "Z":
            mon.equal(b, a.to_bytes(32, "big"), "bytes", a=a, **d)
        elif k.kind == "Qp":
            mon.equal(len(b), 64, "length", a=a, **d)
        else:
            mon.equal(b, enc(a), "bytes", a=a, **d)      # all of them, so that lists of elements are serialised unambiguously
        y = T(b)
        mon.check(bool(y == x) and not bool(y != x), "decode", a=a, got=y, **d)
        mon.equal(k.val(y), a, "decode_value", **d)
        mon.equal(x.to_bytes(), b, "repeat", a=a, **d)
        mon.event("decode")
        if k.kind != "Qp":
            for a2, b2 in seen.items():
                mon.check((a2 == a) == (b2 == b), "injective", a=a, b=a2, **d)
            mon.event("distinct_pairs", len(seen))
            seen[a] = b
        mon.seen(d["ring"], a)
    # values which differ in one part only
    a = R.rand(rng)
    for _ in range(12):
        if k.kind == "F":
            j = rng.randrange(len(a))
            a = a[:j] + ((a[j] + rng.randrange(1, k.p)) % k.p,) + a[j + 1:]
        elif k.kind == "Z": a = R.int(a + rng.choice([1, -1, 2**rng.randrange(250), -2**rng.randrange(250)]))
        else: break
        b = k.lib(a).to_bytes()
        mon.equal(b, enc(a) if k.kind == "F" else a.to_bytes(32, "big"), "near_bytes", a=a, **d)
        mon.equal(k.val(T(b)), a, "near_decode", **d)
        mon.event("near")
    if k.kind == "Qp":
        m = rng.getrandbits(60)
        for _ in range(12):
            n = R.rand(rng) and rng.getrandbits(60) << rng.choice([8, 16, 32]) | 1
            if n % k.p == 0: continue
            x = T(m, n)
            v = m * pow(n, -1, k.p) % k.p
            mon.equal(k.val(x), v, "ratio", m=m, n=n, **d)
            mon.equal(k.val(T(x.to_bytes())), v, "near_decode", m=m, n=n, **d)
            mon.event("near")
    if k.kind == "Z":
        Pol = k.poly_type()
        for _ in range(spec["n"]):
            f = ref.ptrim(R, [R.rand(rng) for _ in range(rng.randint(0, 12) if rng.random() < .9 else rng.choice([31, 64, 129, 255, 256, 257, 600, 1100]))])
            x = k.poly(f)
            b = x.to_bytes()
            mon.equal(b, enc(f), "poly_bytes", f=f, **d)
            y = Pol(b)
            mon.equal(k.pval(y), f, "poly_decode", **d)
            mon.check(bool(y == x), "poly_decode_equal", f=f, **d)
            mon.equal(k.pval(Pol(b + bytes(32 * rng.randrange(3)))), f, "poly_decode_padded", f=f, **d)
            mon.event("poly_decode")
            junk = rng.randbytes(32 * rng.randrange(4) + rng.randrange(1, 32))
            mon.raises(lambda: Pol(junk), "bad_length_accepted", n=len(junk), **d)
            mon.event("bad_length")
            mon.seen("poly", k.p, f)
            c = R.rand(rng)
            raw = rng.randbytes(32) if rng.random() < .5 else c.to_bytes(32, "big")
            mon.equal(k.pval(Pol(raw)), ref.ptrim(R, [R.int(int.from_bytes(raw, "big"))]), "poly_reduced", raw=raw, **d)
