"""C20 low-degree proofs over smooth multiplicative subgroups."""
import copy
import random

from vlib import friforge, ref
from vlib.kits import kit
from vlib.starkgen import two_adic

RULE = ("a case is one (prime, subgroup order, bound, exclusion, polynomial) with its honest proof and one family of attacks: bytes, roots, subgroups, "
        "bounds, high degree, fraudulent columns; distinct non-trivial = distinct (field, order, bound, polynomial, attack)")
REQUIRED = {"honest": 250, "multi_round": 60, "rounds_0": 40, "flip": 1200, "other_root": 200, "other_group": 80, "smaller_bound": 80, "high_degree": 150,
            "fraudulent_column": 20, "deviation": 120, "deviation_last_query": 15, "deviation_final": 100, "inner_nodes": 100, "inner_nodes_no_degree": 60, "deep_openings": 15, "split_openings": 15, "other_shape": 400, "deep_column": 5, "chosen_after": 40, "chosen_after_later": 8, "chosen_before": 6, "shifted_column": 100,
            "security_factor": 40, "deviation_extra_query": 15, "deviation_large_final": 8, "security_factor_rounds": 3}
LIMITS = {"cpu": 120}
PR = [193, 257, 769, 7681, 12289, 40961, 65537, 786433, 998244353, 2**64 - 2**32 + 1, ref.P256, ref.P256]
BOUNDS = list(range(1, 17)) + [20, 24, 28, 32, 36, 40, 48, 52, 56, 60, 64, 80, 96, 128, 160, 256]
KINDS = ["shape", "deviate", "honest", "flip", "degree", "group", "column"]


def bounds_ok(b):
    while b > 16:
        if b % 4: return False
        b //= 4
    return True


def cases(rng, tier):
    for b in BOUNDS:
        if bounds_ok(b):
            yield {"kind": "honest", "p": ref.P256, "b": b, "x": 1, "e": 0, "full": True}
            yield {"kind": "honest", "p": 65537, "b": b, "x": 2, "e": 4, "full": False}
            if b > 64: yield {"kind": "shape", "p": ref.P256, "b": b, "x": 1, "e": 4, "full": True}
            if b >= 64:         # room for rows that are not opened
                for x, e in ((2, 0), (2, 4), (4, 8)): yield {"kind": "shape", "p": ref.P256, "b": b, "x": x, "e": e, "full": True}
            yield {"kind": "deviate", "p": ref.P256, "b": b, "x": 1, "e": 0 if b % 2 else 4, "full": b % 3 > 0}
    for b in (4, 8, 16, 16, 32, 64, 64):     # large last layers; more spot checks than usual
        yield {"kind": "deviate", "p": ref.P256, "b": b, "x": 32 if b < 32 else 16 if b < 64 else 2, "e": 0 if b % 16 else 4, "full": True}
    for b, s in ((20, 41), (32, 60), (48, 64), (64, 80), (36, 60), (60, 80)): yield {"kind": "deviate", "p": ref.P256, "b": b, "x": 4, "e": 0 if b % 3 else 4, "full": True, "s": s}
    for _ in range(70 if tier == "quick" else 2500):
        for kind in KINDS:
            b = rng.choice([c for c in BOUNDS if bounds_ok(c) and (c <= 64 or rng.random() < .15)])
            yield {"kind": kind, "p": rng.choice(PR) if kind == "honest" or kind == "flip" else ref.P256, "b": b, "x": rng.choice([1, 1, 2, 4]),
                   "e": rng.choice([0, 0, 4, 8]), "full": rng.random() < .6}


def final_bound(b):
    r = 0
    while b > 16:
        b //= 4
        r += 1
    return b, r


def run_case(spec, mon):
    from starks.fri import FRI
    from starks.fft import NonBinaryFFT
    from starks.merkle_tree import merkelize
    rng = random.Random(spec["seed"])
    k = kit(["Z", spec["p"]])
    R, F, p = k.R, k.T, spec["p"]
    b, e = spec["b"], spec["e"]
    n = 4
    while n < 2 * b: n *= 2
    n *= spec["x"]
    fb, rounds = final_bound(b)
    # an exclusion factor leaves too few positions on the smallest domains
    while e and (n >> 2 * rounds) // 4 % e: e //= 2
    if e == 2 or (e and (n >> 2 * rounds) * (e - 1) // e <= fb): e = 0
    if two_adic(p) % n or p <= 2 * n:
        p = ref.P256
        k = kit(["Z", p])
        R, F = k.R, k.T
    g = 5 if p == ref.P256 else next(a for a in range(2, 99) if pow(a, (p - 1) // 2, p) == p - 1)
    if p == ref.P256: g = 7
    w = pow(g, (p - 1) // n, p)
    lw = k.lib(w)
    fri = FRI(F)
    deg = b - 1 if spec["full"] else rng.randrange(0, b)
    a = [R.rand(rng) for _ in range(deg)] + [R.randnz(rng)]
    if rng.random() < .05: a = []
    if rng.random() < .1: a = [R.zero] * deg + [R.one]
    d = dict(p=p, n=n, bound=b, exclude=e, f=a)
    f = k.poly(a)
    solver = NonBinaryFFT(F, lw)
    root = merkelize(solver.fft(f))[1]
    proof = fri.generate_proximity_proof(f, lw, b, exclude_multiples_of=e)

    def accepts(pr, rt=root, wr=lw, bd=b, s=40):
        try:
            return bool(fri.verify_proximity_proof(pr, rt, wr, bd, exclude_multiples_of=e, fri_spot_check_security_factor=s))
        except Exception:
            return False

    def refused(pr, what, **kw):
        more = kw.pop("more", {})
        mon.check(not accepts(pr, **kw), "accepted:" + what, **{**d, **more})
        mon.seen(p, n, b, a, what, more)

    keep = copy.deepcopy(proof)
    mon.check(fri.verify_proximity_proof(proof, root, lw, b, exclude_multiples_of=e) is True, "honest_rejected", **d)
    mon.equal(proof, keep, "proof_changed", **d)
    mon.equal(k.pval(f), ref.ptrim(R, a), "polynomial_changed", **d)
    mon.equal(len(proof) - 1, rounds, "rounds", **d)
    mon.equal(len(proof[-1]), n >> 2 * rounds, "final_length", **d)
    mon.equal(fri.generate_proximity_proof(k.poly(a), lw, b, exclude_multiples_of=e), keep, "deterministic", **d)
    mon.event("honest")
    mon.event("rounds_0" if not rounds else "one_round" if rounds == 1 else "many_rounds")
    if rounds: mon.event("multi_round")
    mon.seen(p, n, b, e, a)
    kind = spec["kind"]
    if kind == "flip":
        for r in range(rounds):
            bad = copy.deepcopy(proof)
            bad[r][0] = flip(rng, bad[r][0])
            refused(bad, "round root byte", more={"round": r})
            mon.event("flip")
            for q in sorted({0, 39} | set(rng.sample(range(40), 10))):
                for br in rng.sample(range(5), 2):
                    en = rng.choice([0, rng.randrange(len(proof[r][1][q][br]))])
                    bad = copy.deepcopy(proof)
                    bad[r][1][q][br][en] = flip(rng, bad[r][1][q][br][en])
                    refused(bad, "branch byte", more={"at": (r, q, br, en)})
                    mon.event("flip")
            bad = copy.deepcopy(proof)
            x, y = rng.sample(range(5), 2)
            bad[r][1][0][x], bad[r][1][0][y] = bad[r][1][0][y], bad[r][1][0][x]
            if bad != proof: refused(bad, "swapped branches", more={"at": (r, x, y)})
        last = proof[-1]
        for i in sorted({0, len(last) - 1} | set(rng.sample(range(len(last)), min(12, len(last))))):
            bad = copy.deepcopy(proof)
            bad[-1][i] = flip(rng, last[i])
            refused(bad, "final byte", more={"at": i})
            mon.event("flip")
        if len(set(last)) > 1:
            bad = copy.deepcopy(proof)
            bad[-1] = bad[-1][1:] + bad[-1][:1]
            refused(bad, "rotated final values")
        return
    if kind == "honest":
        refused(proof, "root byte", rt=flip(rng, root))
        other = ref.padd(R, a, [R.randnz(rng)])
        refused(proof, "other polynomial's root", rt=merkelize(solver.fft(k.poly(other)))[1])
        refused(fri.generate_proximity_proof(k.poly(other), lw, b, exclude_multiples_of=e), "other polynomial's proof")
        mon.event("other_root", 3)
        return
    a = ref.ptrim(R, a)
    vals = [ref.peval(R, a, pow(w, i, p)) for i in range(n)] if n <= 512 else None
    if kind == "group" and vals:
        for ww in (pow(w, 3, p), pow(w, n - 1, p), pow(w, n // 2 + 1, p), pow(w, 2, p), pow(w, 5, p)):
            m = n // 2 if ww == pow(w, 2, p) else n
            if m == n:
                # what the committed values are in this subgroup: an honest low-degree word is to be accepted
                fft = _ref_inverse(R, vals, ww, p)
                if len(fft) <= b:
                    continue
            else:
                if len(a) < 2: continue
            refused(proof, "other subgroup", wr=k.lib(ww), more={"w": ww})
            mon.event("other_group")
        for b2 in sorted({b - 1, len(a) - 1, len(a) // 2, b // 4, b * 4} - {0, -1}):
            if 0 < b2 < len(a) and final_bound(b2)[1] <= rounds and b2 // 4**rounds < (len(a) - 1) // 4**rounds + 1 and b2 // 4**rounds > 0:
                refused(proof, "smaller bound", bd=b2, more={"claimed": b2})
                mon.event("smaller_bound")
        return
    if kind == "degree":
        for dg in sorted({b, n - 1, (b + n) // 2, rng.randrange(b, n)}):
            h = [R.rand(rng) for _ in range(dg)] + [R.randnz(rng)]
            if rng.random() < .3: h = [R.zero] * dg + [R.one]
            rt = merkelize(solver.fft(k.poly(h)))[1]
            try:
                pr = fri.generate_proximity_proof(k.poly(h), lw, b, exclude_multiples_of=e)
            except Exception:
                mon.event("prover_refused")
                continue
            refused(pr, "degree %s" % ("equal to the bound" if dg == b else "above the bound"), rt=rt, more={"deg": dg})
            mon.event("high_degree")
        # a low-degree word corrupted in half of its places
        v = [R.add(x, R.randnz(rng)) if rng.random() < .5 else x for x in [ref.peval(R, a, pow(w, i, p)) for i in range(n)]] if n <= 256 else None
        if v:
            h = _ref_inverse(R, v, w, p)
            if len(h) > b:
                pr = fri.generate_proximity_proof(k.poly(h), lw, b, exclude_multiples_of=e)
                refused(pr, "corrupted word", rt=merkelize(solver.fft(k.poly(h)))[1])
                mon.event("high_degree")
        return
    if kind == "deviate":
        deviate(mon, rng, k, fri, w, n, b, e, rounds, a, refused, spec.get("s", 40))
        return
    if kind == "shape":
        shape(mon, rng, k, fri, w, n, b, e, rounds, a, proof, root, refused)
        # any number of spot checks works, for the prover and the verifier alike
        s = 60 if rounds > 1 else rng.choice([1, 2, 5, 20, 39, 41, 60, 80, 128])
        pr = fri.generate_proximity_proof(k.poly(a), lw, b, exclude_multiples_of=e, fri_spot_check_security_factor=s)
        mon.equal([len(r[1]) for r in pr[:-1]], [s] * rounds, "spot_check_count", s=s, **d)
        mon.check(fri.verify_proximity_proof(pr, root, lw, b, exclude_multiples_of=e, fri_spot_check_security_factor=s) is True, "honest_rejected", s=s, **d)
        mon.event("security_factor")
        if rounds > 1: mon.event("security_factor_rounds")
        # words and columns chosen after the rows that will be opened are known
        for level in range(rounds):
            for _ in range(2):
                got = friforge.chosen_after(R, rng, fri, k, w, b, e, level)
                if got:
                    for pr in got[2]: refused(pr, "word chosen after its queries", rt=got[1], more={"level": level, "word": got[0][:4]})
                    mon.event("chosen_after")
                    if level: mon.event("chosen_after_later")
        if rounds:
            got = friforge.chosen_before(R, rng, fri, k, w, b, e, [R.rand(rng) for _ in range(n)])
            if got:
                refused(got[1], "column chosen after its queries", rt=got[0])
                mon.event("chosen_before")
        return
    if kind == "column" and rounds:
        fraud(mon, rng, k, fri, lw, w, n, b, e, root, solver, f, refused)


def flip(rng, x):
    i = rng.randrange(len(x))
    return x[:i] + bytes([x[i] ^ rng.choice([1, 0x80, rng.randrange(1, 256)])]) + x[i + 1:]


def _ref_inverse(R, vals, w, p):
    """Interpolate on the powers of w (reference FFT on ints)."""
    n = len(vals)

    def fft(v, r):
        if len(v) == 1: return v
        a, b = fft(v[::2], r * r % p), fft(v[1::2], r * r % p)
        out, x = [0] * len(v), 1
        for i in range(len(a)):
            t = x * b[i]
            out[i], out[i + len(a)] = (a[i] + t) % p, (a[i] - t) % p
            x = x * r % p
        return out

    ninv = pow(n, -1, p)
    return ref.ptrim(R, [x * ninv % p for x in fft(list(vals), pow(w, -1, p))])


def fraud(mon, rng, k, fri, lw, w, n, b, e, root, solver, f, refused):
    """A prover that folds to a column of its choice: low degree, and right at the first (or last) queried positions."""
    from starks.fft import NonBinaryFFT
    from starks.merkle_tree import merkelize, mk_branch
    R, p = k.R, k.p
    values = solver.fft(f)
    m = merkelize(values)
    sx = int.from_bytes(m[1], "big") % p
    q = n // 4
    true = [ref.peval(R, ref.pinterp(R, [pow(w, i + q * j, p) for j in range(4)], [k.val(values[i + q * j]) for j in range(4)]), sx) for i in range(q)]
    w4 = pow(w, 4, p)
    l4 = k.lib(w4)
    cb = b // 4
    xs = [pow(w4, i, p) for i in range(q)]
    for off in ([1], [p - 1], [1 << rng.choice([8, 32, 64, 128, 248])], [p - (1 << rng.choice([8, 32, 64, 128]))], [R.randnz(rng)], [R.rand(rng) for _ in range(min(cb, 3))]):
        off = ref.ptrim(R, [v % p for v in off])
        if not off: continue
        g = ref.padd(R, ref.pinterp(R, xs[:cb], true[:cb]), off)
        m2 = merkelize([k.lib(ref.peval(R, g, x)) for x in xs])
        ys = friforge.queries(m[1], m2[1], q, 40, e)
        branches = [[mk_branch(m2, y)] + [mk_branch(m, y + q * j) for j in range(4)] for y in ys]
        refused([[m2[1], branches]] + fri.generate_proximity_proof(k.poly(g), l4, cb, exclude_multiples_of=e), "shifted column", more={"off": off})
        mon.event("shifted_column")
    for target in ("none", "first", "last"):
        for _ in range(300):
            size = 0 if target == "none" else rng.randint(max(1, cb // 2), cb)
            good = rng.sample(range(q), min(size, q))
            extra = [i for i in range(q) if i not in good][:max(0, cb - len(good))]
            g = ref.pinterp(R, [xs[i] for i in good + extra], [true[i] for i in good] + [R.add(true[i], R.randnz(rng)) for i in extra])
            if target == "none": g = ref.ptrim(R, [R.rand(rng) for _ in range(cb)])
            col = [ref.peval(R, g, x) for x in xs]
            m2 = merkelize([k.lib(c) for c in col])
            ys = friforge.queries(m[1], m2[1], q, 40, e)
            right = [col[y] == true[y] for y in ys]
            if all(right): continue
            if target == "none" or target == "first" and all(right[:2]) or target == "last" and all(right[-2:]):
                break
        else:
            continue
        branches = [[mk_branch(m2, y)] + [mk_branch(m, y + q * j) for j in range(4)] for y in ys]
        rest = fri.generate_proximity_proof(k.poly(g), l4, cb, exclude_multiples_of=e)
        refused([[m2[1], branches]] + rest, "fraudulent column", more={"right_at": target})
        mon.event("fraudulent_column")


def shape(mon, rng, k, fri, w, n, b, e, rounds, a, proof, root, refused):
    """Words of high degree, proved low degree by openings that do not have the shape of the tree."""
    R = k.R
    word = [R.rand(rng) for _ in range(n)]
    m = n >> 2 * rounds
    low = b // 4**rounds
    for size, rt, pr in friforge.inner_nodes(R, word, w, b, e):
        more = {"final_values": size, "of": m}
        # a layer this small has no degree to check
        refused(pr, "inner nodes for the last layer", rt=rt, more=more)
        mon.event("inner_nodes")
        if size <= low: mon.event("inner_nodes_no_degree")
    if rounds:
        vals = [ref.peval(R, a, pow(w, i, R.p)) for i in range(n)]
        t = friforge.Deep([friforge.enc(v) for v in word], [friforge.enc(v) for v in vals])
        pr = friforge.with_first_round(fri, k, R, a, w, b, e, t.root, t.deep)
        if e or all(y for y in _queried(t.root, pr, n, e)):
            refused(pr, "openings below the leaves", rt=t.root, more={"word": word[:4]})
            mon.event("deep_openings")
        t = friforge.Split(R, vals)
        if sum(x != y for x, y in zip(t.word, vals)) > n // 4:
            refused(friforge.with_first_round(fri, k, R, a, w, b, e, t.root, t.opening), "leaves with a byte of their sibling", rt=t.root, more={"word": t.word[:4]})
            mon.event("split_openings")
    if rounds == 1 and e:
        # any word: the column matches it below the leaves, and the leaves are another column
        from starks.merkle_tree import merkelize, mk_branch
        t = merkelize([friforge.enc(v) for v in word])
        g = [R.rand(rng) for _ in range(b // 4)]
        w4 = pow(w, 4, R.p)
        c = friforge.Deep([friforge.enc(ref.peval(R, g, pow(w4, i, R.p))) for i in range(n // 4)], [friforge.enc(v) for v in friforge.fold(R, word, w, t[1])])
        ys = _queried(t[1], [[c.root]], n, e)
        pr = [[c.root, [[c.deep(y)] + [mk_branch(t, y + n // 4 * j) for j in range(4)] for y in ys]], friforge.unpermute(c.top[n // 4:])]
        refused(pr, "column opened below the leaves", rt=t[1], more={"word": word[:4]})
        mon.event("deep_column")
    # the honest proof with the shape of one part changed
    for r in range(rounds):
        for q, br in [(0, 0), (39, 4), (rng.randrange(40), rng.randrange(5)), (rng.randrange(40), 0)]:
            for change in ("shorter", "longer", "borrow"):
                bad = copy.deepcopy(proof)
                o = bad[r][1][q][br]
                if change == "shorter": o[:2] = [o[0]]
                elif change == "longer": o.append(bytes(32))
                else: o[0], o[1] = o[0] + o[1][:1], o[1][1:]
                refused(bad, "opening of another shape", more={"at": (r, q, br), "change": change})
                mon.event("other_shape")
    for cut in (1, m // 2, m - 1):
        refused(proof[:-1] + [proof[-1][:cut]], "last layer cut", more={"cut": cut})
    refused(proof[:-1] + [proof[-1] + proof[-1]], "last layer doubled")
    # a last layer of low degree that is not the committed one
    for v in (0, 1, R.rand(rng)):
        if any(x != friforge.enc(v) for x in proof[-1]): refused(proof[:-1] + [[friforge.enc(v)] * m], "constant last layer", more={"value": v})
    refused(proof[:-1], "no last layer") if rounds else None
    mon.event("other_shape", 4)


def _queried(root, pr, n, e):
    return friforge.queries(root, pr[0][0], n // 4, 40, e)


def deviate(mon, rng, k, fri, w, n, b, e, rounds, a, refused, s):
    """A low-degree word with one wrong value, everything else honest: seen by exactly one query (or by the final test only), it is to be rejected."""
    from starks.merkle_tree import merkelize, mk_branch
    R, p = k.R, k.p

    def evaluate(cs, g, m):
        v = [R.zero] * m
        for i, c in enumerate(cs): v[i % m] = R.add(v[i % m], c)
        out = _fft(R, v, g, p)
        return out

    def layer(cs, g, m, change=None):
        vals = evaluate(cs, g, m)
        if change: vals[change[0]] = R.add(vals[change[0]], change[1])
        return merkelize([k.lib(v) for v in vals])

    def fold(cs, root):
        s = int.from_bytes(root, "big") % p
        return ref.ptrim(R, [ref.peval(R, cs[i:i + 4], s) for i in range(0, len(cs), 4)])

    def finish(cs, g, m, level, trees, change):
        """Proof whose layer `level` has one changed value; (root, proof, rows queried in that layer)."""
        t = layer(cs, g, m, change)
        chain, ys = trees + [(t, m)], None
        if level < rounds:
            nxt = fold(cs, t[1])
            t2 = layer(nxt, pow(g, 4, p), m // 4)
            chain.append((t2, m // 4))
            ys = friforge.queries(t[1], t2[1], m // 4, s, e)

        def build():
            if level < rounds:
                rest = fri.generate_proximity_proof(k.poly(nxt), k.lib(pow(g, 4, p)), b // 4**(level + 1), exclude_multiples_of=e, fri_spot_check_security_factor=s)
            else:
                rest = [[x.to_bytes(32, "big") for x in _changed(R, evaluate(cs, g, m), *change)]]
            proof = []
            for (lo, size), (hi, _) in zip(chain, chain[1:]):
                qs = friforge.queries(lo[1], hi[1], size // 4, s, e)
                proof.append([hi[1], [[mk_branch(hi, q)] + [mk_branch(lo, q + size // 4 * j) for j in range(4)] for q in qs]])
            return proof + rest
        return t, chain[0][0][1], ys, build

    cs, g, m, trees = list(a), w, n, []
    for level in range(rounds + 1):
        more = {"round": level, "of": rounds}
        # the same construction without a wrong value is an honest proof
        _, rt, _, build = finish(cs, g, m, level, trees, (0, 0))
        if not fri.verify_proximity_proof(build(), rt, k.lib(w), b, exclude_multiples_of=e, fri_spot_check_security_factor=s):
            return
        unseen = lambda t, y: not level or y not in friforge.queries(trees[-1][0][1], t[1], m, s, e)
        if level == rounds:
            spots = [y for y in range(m) if not e or y % e]
            if len(spots) > 24: spots = spots[:4] + spots[-4:] + rng.sample(spots, 16)
            for y in spots:
                for _ in range(40):     # not noticed by the queries of the round before
                    t, rt, _, build = finish(cs, g, m, level, trees, (y, R.randnz(rng)))
                    if unseen(t, y): break
                else: continue
                refused(build(), "one wrong value", rt=rt, s=s, more={**more, "final": y})
                if m > 256: mon.event("deviation_large_final")
                mon.event("deviation_final")
            return
        found, wanted = set(), {0, 1, 19, 20, 38, 39} if s == 40 else {0, *range(38, s)}
        for _ in range(120 if s == 40 else 200):
            y = rng.randrange(m)
            t, rt, ys, build = finish(cs, g, m, level, trees, (y, R.randnz(rng)))
            row = y % (m // 4)
            if not unseen(t, y) or ys.count(row) != 1: continue
            at = ys.index(row)
            if at in found or (at not in wanted and len(found - wanted) > 5): continue
            found.add(at)
            refused(build(), "one wrong value", rt=rt, s=s, more={**more, "query": at})
            if at >= 40: mon.event("deviation_extra_query")
            mon.event("deviation")
            if at >= 36: mon.event("deviation_last_query")
        t = layer(cs, g, m)
        trees.append((t, m))
        cs, g, m = fold(cs, t[1]), pow(g, 4, p), m // 4


def _changed(R, vals, y, delta):
    vals[y] = R.add(vals[y], delta)
    return vals


def _fft(R, v, g, p):
    if len(v) == 1: return v
    a, b = _fft(R, v[::2], g * g % p, p), _fft(R, v[1::2], g * g % p, p)
    out, x = [0] * len(v), 1
    for i in range(len(a)):
        t = x * b[i]
        out[i], out[i + len(a)] = (a[i] + t) % p, (a[i] - t) % p
        x = x * g % p
    return out
