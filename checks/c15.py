"""C15 pseudorandom indices, challenge coefficients and the STARK's random linear combination."""
import random

from vlib import ref
from vlib.kits import kit

RULE = ("a case is a batch of (entropy, modulus, count, exclusion) draws, of challenge roots with single-byte changes, or one linear combination with "
        "every input perturbed; distinct non-trivial = distinct inputs")
REQUIRED = {"draw": 3000, "index": 60000, "excluding": 1500, "prefix": 1500, "covered_residues": 60, "ks": 1500, "root_byte": 1500,
            "combination": 15, "weight": 200, "shifted_weight": 80, "swap": 80, "spread": 300, "buckets": 60, "many": 30, "neighbour": 600}


def cases(rng, tier):
    for m, e in [(16, 0), (24, 0), (30, 3), (32, 2), (64, 4), (64, 8), (96, 6), (45, 5), (128, 128), (60, 60), (7, 0), (1, 0), (2, 2)]:
        yield {"kind": "cover", "m": m, "e": e}
    for m in [2**b for b in range(8, 24)] + [3 * 2**20, 5 * 2**12, 2**24 - 8, 10**6, 3 * 2**9, 12345 * 8]:
        for e in (0, 2, 3, 4, 8, 16):
            if not e or m % e == 0:
                yield {"kind": "buckets", "m": m, "e": e}
    for m, e in [(2**20, 0), (2**20, 8), (2**23, 4), (999999, 0), (2**24 - 1, 0), (2**22, 2)]:
        for c in (257, 1000, 3000, 7000):
            yield {"kind": "many", "m": m, "e": e, "c": c}
    for i in range(120 if tier == "quick" else 4000):
        yield {"kind": ["draw", "ks", "draw", "comb"][i % 4], "n": 60}


def rentropy(rng):
    return rng.choice([rng.randbytes(32), rng.randbytes(32), bytes(32), rng.randbytes(33), rng.randbytes(64), rng.randbytes(rng.randint(32, 400)), b"\xff" * 32])


def draws(mon, ent, m, c, e):
    from starks.utils import get_pseudorandom_indices
    d = dict(entropy=ent.hex(), modulus=m, count=c, exclude=e)
    keep = bytes(ent)
    out = get_pseudorandom_indices(ent, m, c, exclude_multiples_of=e)
    mon.equal(ent, keep, "entropy_changed", **d)
    mon.equal(len(out), c, "count", **d)
    for x in out:
        mon.check(type(x) is int and 0 <= x < m, "range", x=x, **d)
        if e:
            mon.check(x % e != 0, "excluded_multiple", x=x, **d)
    mon.event("index", len(out))
    mon.event("draw")
    if e: mon.event("excluding")
    mon.seen(ent, m, c, e)
    return out


def run_case(spec, mon):
    from starks.utils import get_pseudorandom_indices
    from starks.stark import compute_pseudorandom_linear_combination, get_pseudorandom_ks
    rng = random.Random(spec["seed"])
    if spec["kind"] == "cover":
        m, e = spec["m"], spec["e"]
        admissible = {x for x in range(m) if not e or x % e}
        got = set()
        for _ in range(40):
            got |= set(draws(mon, rng.randbytes(32), m, 100, e))
        # 4000 near-uniform draws from at most 128 values: missing one has probability < 1e-11
        mon.equal(got, admissible, "cover", m=m, e=e)
        mon.event("covered_residues", len(got))
        return
    if spec["kind"] == "buckets":
        m, e = spec["m"], spec["e"]
        count = m - m // e if e else m          # admissible values, numbered in order
        n, step = 8, 1
        while step * step * n < count: step *= 2
        hit = {"high": set(), "low": set(), "middle": set()}
        for _ in range(4):
            for x in draws(mon, rng.randbytes(32), m, 200, e):
                r = x - x // e - 1 if e else x
                hit["high"].add(r * n // count)
                hit["low"].add(r % n)
                hit["middle"].add(r // step % n)
        # 800 near-uniform draws into 8 nearly equal buckets: one stays empty with probability below 10^-40
        for name, got in hit.items():
            mon.equal(got, set(range(n)), "bucket_never_drawn", part=name, m=m, e=e)
        mon.event("buckets")
        return
    if spec["kind"] == "many":
        m, e, c = spec["m"], spec["e"], spec["c"]
        for _ in range(2):
            ent = rng.randbytes(32)
            out = draws(mon, ent, m, c, e)
            # exclusion at most halves the range: no more than c*c/m repetitions expected
            mon.check(len(set(out)) >= c - 2 * c * c / m - 12, "draws_repeat", entropy=ent.hex(), m=m, e=e, c=c, distinct=len(set(out)))
            mon.equal(get_pseudorandom_indices(ent, m, c + 100, exclude_multiples_of=e)[:c], out, "prefix", m=m, c=c, e=e)
            mon.event("many")
        return
    if spec["kind"] == "draw":
        for _ in range(spec["n"]):
            e = rng.choice([0, 0, 2, 4, 8, 16, 3, 5, 32, rng.randint(2, 300)])
            m = e * rng.randint(1, (2**24 - 1) // e) if e and rng.random() < .5 else e * rng.randint(1, 200) if e else rng.choice([1, 2, 2**24 - 1, rng.randrange(1, 2**24)])
            c = rng.choice([0, 1, 2, 7, 8, 9, 40, 80, rng.randrange(120)])
            ent = rentropy(rng)
            a = draws(mon, ent, m, c, e)
            mon.equal(get_pseudorandom_indices(bytes(ent), m, c, exclude_multiples_of=e), a, "deterministic", m=m, c=c, e=e)
            c2 = c + rng.randrange(1, 90)
            b = draws(mon, ent, m, c2, e)
            mon.equal(b[:c], a, "prefix", entropy=ent.hex(), m=m, c=(c, c2), e=e)
            mon.event("prefix")
            if c >= 8 and m > 2:
                # one argument changed: the exclusion, the modulus, one byte of the entropy; the first answer stays
                for e2 in [f for f in (0, 2, 3, 4, 5, 8, 16) if f != e and (not f or m % f == 0 and m > f)][:3]: draws(mon, ent, m, c, e2)
                if e:
                    draws(mon, ent, m + e if m + e < 2**24 else e, c, e)
                    draws(mon, ent, e, c, e)
                else: draws(mon, ent, max(1, m - 1), c, 0), draws(mon, ent, m // 2 + 1, c, 0)
                mon.equal(get_pseudorandom_indices(bytearray(ent) and bytes(bytearray(ent)), m, c, exclude_multiples_of=e), a, "deterministic_later", m=m, c=c, e=e)
                mon.event("neighbour")
            if m > 2**16 and len(set(ent)) > 16:
                # near-uniform draws hardly repeat: 40 draws from 2^15 admissible values have fewer than 20 distinct ones with probability below 10^-60
                far = draws(mon, ent, m, 40, e)
                mon.check(len(set(far)) >= 20, "draws_repeat", entropy=ent.hex(), m=m, e=e, got=far)
                mon.event("spread")
            if m > 2**20 and c >= 40:   # other entropy, other indices
                other = bytes([ent[0] ^ 1]) + ent[1:]
                mon.check(get_pseudorandom_indices(other, m, c, exclude_multiples_of=e) != a, "entropy_ignored", m=m, c=c, e=e)
                other = ent[:-1] + bytes([ent[-1] ^ 1])
                far = get_pseudorandom_indices(other, m, len(ent), exclude_multiples_of=e)
                mon.check(far != get_pseudorandom_indices(ent, m, len(ent), exclude_multiples_of=e), "entropy_end_ignored", m=m, e=e)
        return
    if spec["kind"] == "ks":
        for _ in range(spec["n"] // 4):
            root = rng.choice([rng.randbytes(32), bytes(32)])
            for num in [*range(0, 12), 16, 17, 64, rng.randint(12, 300), *([rng.randint(300, 1300)] if rng.random() < .5 else [])]:
                ks = get_pseudorandom_ks(root, num)
                mon.check(len(ks) == num and len(set(ks)) == num and all(type(x) is int and 0 <= x < 2**256 for x in ks), "ks", root=root.hex(), num=num, ks=ks)
                mon.equal(get_pseudorandom_ks(bytes(root), num), ks, "ks_deterministic", num=num)
                mon.event("ks")
                if num:
                    for pos in rng.sample(range(32), 3):
                        r2 = root[:pos] + bytes([root[pos] ^ rng.randrange(1, 256)]) + root[pos + 1:]
                        k2 = get_pseudorandom_ks(r2, num)
                        mon.check(not set(k2) & set(ks), "root_byte_ignored", pos=pos, num=num)
                        mon.event("root_byte")
                mon.seen(root, num)
        return
    k = kit(["Z", ref.P256])
    R = k.R
    width = rng.choice([rng.randint(1, 9), rng.randint(1, 9), rng.randint(10, 20)])
    steps = rng.choice([8, 16])
    ext = rng.choice([4, 8])
    prec = steps * ext
    degree = rng.choice([1, 2, 2, 3, 4])
    w = k.lib(R.pow(7, (ref.P256 - 1) // prec))
    root = rng.randbytes(32)

    def comb(rows, ent=root):
        t, r, b = [[k.poly(f) for f in row] for row in rows]
        out = k.pval(compute_pseudorandom_linear_combination(ent, t, r, b, k.T, w, prec, steps, width, degree))
        mon.equal([[k.pval(f) for f in row] for row in (t, r, b)], rows, "polys_changed")
        return out

    rp = lambda: ref.ptrim(R, [R.randnz(rng) for _ in range(rng.randint(1, 12))])
    rows = [[rp() for _ in range(width)] for _ in range(3)]
    d = dict(width=width, steps=steps, ext=ext, degree=degree, root=root.hex())
    base = comb(rows)
    mon.equal(comb([[list(f) for f in row] for row in rows]), base, "comb_deterministic", **d)
    mon.check(comb(rows, root[:5] + bytes([root[5] ^ 4]) + root[6:]) != base, "comb_ignores_root", **d)
    mon.equal(comb([[[] for _ in row] for row in rows]), [], "comb_zero", **d)
    mon.event("combination")
    # the map is linear: the weights read off from unit inputs give every value
    weights, total = [], []
    for a in range(3):
        for j in range(width):
            unit = [[[1] if (x, y) == (a, j) else [] for y in range(width)] for x in range(3)]
            got = comb(unit)
            # the quotients are only scaled; traces and boundary quotients are also taken times the power that fills the bound of steps * degree
            at = {0, 0 if a == 1 else steps * (degree - 1)}
            mon.equal({i for i, c in enumerate(got) if c}, at, "weight_degrees", kind=a, dim=j, **d)
            weights += [got[i] for i in at]
            total = ref.padd(R, total, ref.pmul(R, rows[a][j], got))
            mon.event("weight")
            if len(at) > 1: mon.event("shifted_weight")
    mon.equal(base, total, "not_linear", **d)
    mon.check(len(set(weights)) == len(weights), "equal_weights", **d)
    # single changes and exchanges are visible
    for _ in range(8):
        a, j = rng.randrange(3), rng.randrange(width)
        rows2 = [[list(f) for f in row] for row in rows]
        i = rng.randrange(len(rows2[a][j]))
        rows2[a][j][i] = R.add(rows2[a][j][i], R.randnz(rng))
        rows2[a][j] = ref.ptrim(R, rows2[a][j])
        mon.check(comb(rows2) != base, "change_invisible", kind=a, dim=j, **d)
        a2, j2 = rng.randrange(3), rng.randrange(width)
        rows2 = [[list(f) for f in row] for row in rows]
        rows2[a][j], rows2[a2][j2] = rows2[a2][j2], rows2[a][j]
        if rows2 != rows:
            mon.check(comb(rows2) != base, "exchange_invisible", at=(a, j, a2, j2), **d)
            mon.event("swap")
    mon.seen("comb", width, steps, ext, root)
