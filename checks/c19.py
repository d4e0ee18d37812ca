"""C19 STARK soundness: tampered proofs, false statements and malicious provers are rejected."""
import copy
import random

from vlib import friforge, ref
from vlib.starkgen import Inst, instance

RULE = ("a case is one honest proof with one family of attacks on it: byte flips over every part, branch swaps and splices, false statements, bad "
        "witnesses (honest and assertion-free prover), or committed evaluations corrupted at one sampled position; distinct non-trivial = "
        "distinct (instance, attack)")
REQUIRED = {"honest": 60, "flip_root": 60, "flip_branch": 800, "flip_fri": 400, "swap": 80, "splice": 60, "false_statement": 100, "bad_witness": 80,
            "forced_witness": 60, "corrupt_position": 400, "positions": 8, "high_degree": 5, "forged": 60, "forged_consistent": 20,
            "isolation": 24, "forged_inner_nodes": 40, "forged_deep_combination": 4, "forged_deep_trace": 16,
            "forged_quadratic": 24, "forged_after_positions": 8, "forged_before_positions": 16, "isolated_transition": 100, "isolated_boundary": 100,
            "isolated_combination": 100, "isolated_next": 60}
LIMITS = {"cpu": 200}
KINDS = ["isolate", "isolate", "forge", "flip", "flip", "statement", "witness", "corrupt", "corrupt", "splice", "degree", "quadratic", "known"]


def cases(rng, tier):
    n = 24 if tier == "quick" else 400
    for i in range(n):
        for kind in KINDS:
            w = rng.choice([1, 2, 3, 4, 4, 5, 7, 9, 11]) if kind in ("corrupt", "witness", "isolate") else None
            inst = instance(rng, ref.P256, 8 if i % 4 else 16, w, 128, zero=False)
            if kind == "forge" and i % 3 == 0:      # room for the attacks that need a proof of more than one round
                while not (inst["steps"] == 16 and inst["ext"] == 4 and deepable(inst)): inst = instance(rng, ref.P256, 16, w, 64, zero=False)
            if kind == "quadratic":
                while inst["ext"] != 4 or not squares(inst): inst = instance(rng, ref.P256, 8 if i % 2 else 16, w, 64, zero=False)
            if kind == "known":     # a step that leaves zero
                inst["fs"][0] = [t for t in inst["fs"][0] if any(t[0])] + [[[0] * inst["width"], rng.randrange(1, ref.P256)]]
                while inst["ext"] < 4: inst["ext"] *= 2
            yield {"kind": kind, "inst": inst,
                   "other": instance(rng, ref.P256, 8, 1, 64, zero=False)}


def deepable(inst):
    """More than 16 coefficients, at most half of the points, and 16 or fewer after some rounds."""
    deg = max(sum(e) for f in inst["fs"] for e, _ in f)
    return deg == 2


def squares(inst):
    deg = max(sum(e) for f in inst["fs"] for e, _ in f)
    return deg == 2 and any(max(e) == 2 for f in inst["fs"] for e, _ in f)


def accepts(S, proof, wit, bnd):
    try:
        return bool(S.verify_proof(proof, wit, bnd))
    except Exception:
        return False


def flip(rng, b):
    i = rng.randrange(len(b))
    return b[:i] + bytes([b[i] ^ rng.choice([1, 0x80, rng.randrange(1, 256)])]) + b[i + 1:]


def forced_proof(S, wit, bnd):
    """The repository's prover with its divisibility assertions taken out."""
    from starks import stark as st
    from starks.polynomial import polynomials_over
    saved = st.construct_remainder_polynomials

    def lax(constraint_polys, field, steps, last):
        X = polynomials_over(field)([0, 1])
        z = (X**steps - field(1)) / (X - last)
        return [c / z for c in constraint_polys]

    st.construct_remainder_polynomials = lax
    try:
        return S.mk_proof(wit, bnd)
    finally:
        st.construct_remainder_polynomials = saved


def run_case(spec, mon):
    rng = random.Random(spec["seed"])
    I = Inst(spec["inst"])
    k, R = I.k, I.R
    d = dict(attack=spec["kind"], inst=I.label())
    S = I.stark()
    wit, bnd = I.witness(), I.boundary()
    proof = S.mk_proof(wit, bnd)
    mon.check(accepts(S, proof, wit, bnd), "honest_proof_rejected", **d)
    mon.event("honest")
    mon.seen(spec["kind"], repr(I.label()))

    def refused(pr, what, w=wit, b=bnd, T=S, **more):
        mon.check(not accepts(T, pr, w, b), "accepted:" + what, **{**d, **more})
        mon.seen(what, repr(I.label()), repr(more))

    if spec["kind"] == "flip":
        for i in (0, 1):
            for _ in range(3):
                bad = list(proof)
                bad[i] = flip(rng, proof[i])
                refused(bad, "root byte", which=i)
                mon.event("flip_root")
        nb = len(proof[2])
        order = sorted(set([0, 1, 2, nb - 3, nb - 2, nb - 1] + rng.sample(range(nb), 30)))
        for b in order:
            e = rng.choice([0, 0, len(proof[2][b]) - 1, rng.randrange(len(proof[2][b]))])
            bad = copy.deepcopy(proof)
            bad[2][b][e] = flip(rng, bad[2][b][e])
            refused(bad, "branch byte", branch=b, entry=e)
            mon.event("flip_branch")
        fri = proof[3]
        for r in range(len(fri) - 1):
            bad = copy.deepcopy(proof)
            bad[3][r][0] = flip(rng, fri[r][0])
            refused(bad, "fri root byte", round=r)
            nq = len(fri[r][1])
            for q in sorted({0, nq - 1} | set(rng.sample(range(nq), 8))):
                b = rng.randrange(5)
                e = rng.randrange(len(fri[r][1][q][b]))
                bad = copy.deepcopy(proof)
                bad[3][r][1][q][b][e] = flip(rng, fri[r][1][q][b][e])
                refused(bad, "fri branch byte", round=r, query=q, branch=b, entry=e)
                mon.event("flip_fri")
        n = len(fri[-1])
        for i in sorted({0, n - 1} | set(rng.sample(range(n), min(10, n)))):
            bad = copy.deepcopy(proof)
            bad[3][-1][i] = flip(rng, fri[-1][i])
            refused(bad, "fri final byte", value=i)
            mon.event("flip_fri")
        pos = friforge.spots(proof[0], proof[1], I.prec, 80, I.ext)
        for _ in range(12):
            a, b = rng.sample(range(80), 2)
            if pos[a] == pos[b]: continue
            bad = copy.deepcopy(proof)
            for t in rng.choice([(0,), (1,), (2,), (0, 1, 2)]):
                bad[2][3 * a + t], bad[2][3 * b + t] = proof[2][3 * b + t], proof[2][3 * a + t]
            if bad[2] != proof[2]:
                refused(bad, "swapped branches", a=a, b=b)
                mon.event("swap")
        bad = copy.deepcopy(proof)
        bad[2] = bad[2][3:] + bad[2][:3]
        if bad[2] != proof[2]: refused(bad, "rotated branches")
        bad = copy.deepcopy(proof)
        bad[2] = bad[2][:-3]
        refused(bad, "missing branches")
        if len(fri) > 1:
            bad = copy.deepcopy(proof)
            del bad[3][0]
            refused(bad, "missing fri round")
            bad = copy.deepcopy(proof)
            bad[3][0][1] = bad[3][0][1][:-1]
            refused(bad, "missing fri query")
        mon.event("swap", 2)
        return
    if spec["kind"] == "statement":
        mon.equal((S.spot_check_security_factor, len(proof[2])), (80, 240), "spot_check_count", **d)
        pos = friforge.spots(proof[0], proof[1], I.prec, 80, I.ext)
        mon.check(all(x % I.ext for x in pos), "position_multiple_of_extension", **d)
        from starks.merkle_tree import verify_branch
        for i, x in enumerate(pos):     # the branches really are the ones of these positions
            verify_branch(proof[0], x, proof[2][3 * i])
            verify_branch(proof[0], (x + I.ext) % I.prec, proof[2][3 * i + 1])
            verify_branch(proof[1], x, proof[2][3 * i + 2])
        mon.event("positions")
        for j in range(I.width):
            b = I.boundary()
            b[j] = (0, j, b[j][2] + R.randnz(rng))
            refused(proof, "other input", b=b, dim=j)
            w = I.witness()
            w[j][-1] = w[j][-1] + R.randnz(rng)
            refused(proof, "other output", w=w, dim=j)
            mon.event("false_statement", 2)
        if I.width > 1 and len(set(I.trace[0])) > 1:
            b = I.boundary()
            order = list(range(I.width))
            order = order[1:] + order[:1]
            b = [(0, j, b[order[j]][2]) for j in range(I.width)]
            if [k.val(x[2]) for x in b] != I.trace[0]:
                refused(proof, "permuted inputs", b=b)
                mon.event("false_statement")
        tries = 0
        while tries < 6:
            tries += 1
            fs = [dict(f) for f in I.fs]
            j = rng.randrange(I.width)
            if fs[j] and rng.random() < .7:
                e = rng.choice(list(fs[j]))
            else:
                e = tuple(int(x == rng.randrange(I.width)) for x in range(I.width))
            fs[j][e] = R.add(fs[j].get(e, 0), R.randnz(rng))
            fs = [ref.mtrim(R, f) for f in fs]
            if max(ref.mdeg(f) for f in fs) != I.deg or I.run(fs, I.trace[0]) == I.trace:
                continue
            refused(proof, "other step polynomial", T=I.stark(fs), fs=fs)
            mon.event("false_statement")
        for steps in (I.steps * 2, I.steps // 2, I.steps * 4):
            state = I.trace[0]
            for _ in range(steps - 1):
                state = [ref.meval(R, f, state) for f in I.fs]
            if state == I.trace[-1]:
                continue        # the claim is true for that number of steps as well
            refused(proof, "other number of steps", T=I.stark(steps=steps), steps=steps)
            # a verifier configured so that the domain has the same size
            if I.prec % steps == 0 and I.prec // steps >= 2:
                refused(proof, "other number of steps", T=I.stark(steps=steps, ext=I.prec // steps), steps=steps)
            mon.event("false_statement")
        return
    if spec["kind"] == "witness":
        spots = [(t, j) for t in {0, 1, I.steps // 2, I.steps - 2, I.steps - 1} for j in range(I.width)]
        for t, j in rng.sample(spots, min(len(spots), 10)):
            tr = [list(s) for s in I.trace]
            tr[t][j] = R.add(tr[t][j], R.randnz(rng))
            w = I.witness(tr)
            try:
                pr = S.mk_proof(w, bnd)
            except Exception:
                pr = None
                mon.event("prover_refused")
            if pr is not None:
                refused(pr, "bad witness", w=w, step=t, dim=j)
                refused(pr, "bad witness, true output", step=t, dim=j)
            mon.event("bad_witness")
            try:
                pr = forced_proof(I.stark(), w, bnd)
            except Exception:
                continue
            refused(pr, "forced bad witness", w=w, step=t, dim=j)
            refused(pr, "forced bad witness, true output", step=t, dim=j)
            mon.event("forced_witness")
        # a valid computation from another input, claimed for this one
        inp = list(I.trace[0])
        j = rng.randrange(I.width)
        inp[j] = R.add(inp[j], R.randnz(rng))
        tr = I.run(I.fs, inp)
        pr = S.mk_proof(I.witness(tr), I.boundary(inp))
        mon.check(accepts(S, pr, I.witness(tr), I.boundary(inp)), "other_honest_proof_rejected", **d)
        refused(pr, "proof of another input", b=bnd)
        refused(pr, "proof of another input", b=bnd, w=I.witness(tr))
        try:
            pr = S.mk_proof(I.witness(tr), bnd)
        except Exception:
            return
        refused(pr, "trace of another input", w=I.witness(tr), b=bnd)
        return
    if spec["kind"] == "splice":
        inp = [R.add(a, R.randnz(rng)) for a in I.trace[0]]
        tr = I.run(I.fs, inp)
        other = S.mk_proof(I.witness(tr), I.boundary(inp))
        for mask in range(1, 15):
            bad = [other[i] if mask >> i & 1 else proof[i] for i in range(4)]
            if bad == proof:
                continue
            refused(bad, "splice", mask=mask)
            refused(bad, "splice", w=I.witness(tr), b=I.boundary(inp), mask=mask)
            mon.event("splice", 2)
        bad = copy.deepcopy(proof)      # m-tree branches of the other proof only
        for i in range(0, len(bad[2]), 3):
            bad[2][i] = other[2][i]
        refused(bad, "splice branches")
        return
    if spec["kind"] == "isolate":
        isolate(spec, mon, rng, I, d)
        return
    if spec["kind"] == "quadratic":
        quadratic(mon, rng, I, S, refused)
        return
    if spec["kind"] == "known":
        positions_known(mon, rng, I, refused)
        return
    attack_tree(spec, mon, rng, I, S, refused)


def combination(I, S, root, tps, rps, bps):
    """The combination of these polynomials as the prover forms it."""
    import inspect
    from starks import stark as st
    comb = st.compute_pseudorandom_linear_combination
    more = [S.get_degree()] if "degree" in inspect.signature(comb).parameters else []
    return comb(root, tps, rps, bps, I.F, S.G2, S.precision, S.steps, I.width, *more)


def pack(row):
    return b"".join(friforge.enc(v) for v in row)


def isolate(spec, mon, rng, I, d):
    """One committed leaf at one sampled position breaks exactly one of the verifier's equations: transition, boundary or combination.

    The coefficients of the combination are fixed for the duration (a programmed oracle), so that the prover can solve for the rest of the leaf.
    The positions follow from the tree, so that leaves are drawn until the changed one is among them."""
    from starks import stark as st
    from starks.fri import FRI
    from starks.merkle_tree import merkelize, merkelize_polynomial_evaluations
    mon.event("isolation")
    k, R, F, p, ext, W = I.k, I.R, I.F, I.R.p, I.ext, I.width
    checks = rng.randint(4, 20)
    S = I.stark(checks=checks)
    consts = [rng.randrange(2**200, p) for _ in range(max(9, W))]
    saved = getattr(st, "get_pseudorandom_ks", None)
    if saved is None:
        mon.event("isolation_unavailable")
        return
    st.get_pseudorandom_ks = lambda root, num: consts[:num]
    try:
        wit, bnd = I.witness(), I.boundary()
        tps = st.construct_trace_polynomials(wit, F, S.G1)
        cps = st.construct_constraint_polynomials(I.step_polys(), tps, F, S.G1, W)
        rps = st.construct_remainder_polynomials(cps, F, I.steps, S.last_step_position)
        bps = st.construct_boundary_polynomials(tps, wit, bnd, F, S.last_step_position, W)
        evals = [S.fft_solver.fft(f) for f in tps + rps + bps]
        vals = [[k.val(v) for v in e] for e in evals]
        m = merkelize_polynomial_evaluations(W, evals)
        leaves = [[e[x] for e in vals] for x in range(I.prec)]
        tree = friforge.Tree([pack(row) for row in leaves])
        l_poly = combination(I, S, m[1], tps, rps, bps)
        l = merkelize(S.fft_solver.fft(l_poly))
        fri = FRI(F).generate_proximity_proof(l_poly, S.G2, I.steps * I.deg, exclude_multiples_of=ext)
        proof_of = lambda mt: [mt[1], l[1], S.compute_merkle_spot_checks(mt, l, samples=checks), fri]
        if tree.nodes[1] != m[1] or not accepts(S, proof_of(m), wit, bnd):
            mon.event("isolation_unavailable")
            return
        # l = sum_j (1 + c_j s) (d_j + p_j K1(x) + b_j K2(x)): read the weights off the prover's own combination
        unit = lambda a, j: [[k.poly([1]) if (x, y) == (a, j) else k.poly([]) for y in range(W)] for x in range(3)]
        wp = [[k.pval(combination(I, S, m[1], *unit(a, j))) for j in range(W)] for a in range(3)]
        idx = {0, 1, checks // 2, checks - 2, checks - 1} | set(rng.sample(range(checks), min(4, checks)))

        def attempt(broken, e):
            x = rng.randrange(I.prec)
            if x % ext == 0: return
            row, dp, dd, db = leaves[x], [0] * W, [0] * W, [0] * W
            if broken == "next":
                dp[e] = R.randnz(rng)       # seen from the leaf before only, which holds another next state
                t = tree.changed({x: pack([R.add(a, c) for a, c in zip(row, dp + dd + db)])})
                return t, (x - ext) % I.prec, {x}
            X = pow(I.w, x, p)
            wt = [[ref.peval(R, f, X) for f in r] for r in wp]
            z = R.mul(pow(X, I.steps, p) - 1, R.inv((X - I.last) % p))
            z2 = (X - 1) * (X - I.last) % p
            f0 = [ref.meval(R, f, row[:W]) for f in I.fs]

            def d_for(dp):
                new = [ref.meval(R, f, [R.add(a, c) for a, c in zip(row, dp)]) for f in I.fs]
                return [R.mul(R.sub(f0[j], new[j]), R.inv(z)) for j in range(W)]

            lsum = lambda: sum(wt[0][j] * dp[j] + wt[1][j] * dd[j] + wt[2][j] * db[j] for j in range(W)) % p
            if broken != "boundary" or rng.random() < .7: dp[e] = R.randnz(rng)
            dd = d_for(dp)
            db[e] = R.mul(dp[e], R.inv(z2))
            if broken == "transition":
                dd[e] = 0
                dd[e] = R.mul(R.neg(lsum()), R.inv(wt[1][e]))
                if dd == d_for(dp): return
            elif broken == "boundary":
                if any(dp):
                    db[e] = 0
                    db[e] = R.mul(R.neg(lsum()), R.inv(wt[2][e]))
                    if db[e] == R.mul(dp[e], R.inv(z2)): return
                elif W > 1:         # two boundary values that cancel in the combination
                    o = (e + 1) % W
                    db[e] = R.randnz(rng)
                    db[o] = R.mul(R.neg(lsum()), R.inv(wt[2][o]))
                else: return
            elif lsum() == 0: return
            return tree.changed({x: pack([R.add(a, c) for a, c in zip(row, dp + dd + db)])}), x, {(x - ext) % I.prec} if any(dp) else set()

        for e in (range(W) if W <= 3 else sorted({0, W - 1, rng.randrange(W)})):
            for broken in ("transition", "boundary", "combination", "next"):
                todo = set(idx)
                for _ in range(150):
                    got = attempt(broken, e) if todo else None
                    if not got: continue
                    t, x, others = got
                    pos = friforge.spots(t[1], l[1], I.prec, checks, ext)
                    at = [i for i, y in enumerate(pos) if y == x]
                    if not todo & set(at) or others & set(pos): continue
                    todo -= set(at)
                    mon.check(not accepts(S, proof_of(t), wit, bnd), "accepted:isolated " + broken, index=at, position=x, dim=e, checks=checks, **d)
                    mon.event("isolated_" + broken)
                    if x + ext >= I.prec: mon.event("isolated_wrapping")
                    mon.seen(broken, at, x, e, repr(I.label()))
    finally:
        st.get_pseudorandom_ks = saved


def quadratic(mon, rng, I, S, refused):
    """A trace of degree 2*steps: a quadratic step and an extension of 4 leave room for P, D and B that satisfy all of the equations off the trace.

    Write P_r = A + x^steps B with A + B interpolating the trace. With V = 1 + y + y^2 + y^3 (y = x^steps), which vanishes off the trace, the equation
    P(g x) - f(P(x)) = Z D + V Q is solved for Q = -alpha hi(B^2), where alpha is the coefficient of x_r^2: on the trace, step i is off by 4 Q."""
    from starks.fri import FRI
    from starks.merkle_tree import merkelize, merkelize_polynomial_evaluations
    k, R, F, p, s, W = I.k, I.R, I.F, I.R.p, I.steps, I.width
    sq = lambda r: tuple(2 * (j == r) for j in range(W))
    choices = [r for r in range(W) if any(f.get(sq(r)) for f in I.fs)]
    if I.deg != 2 or I.ext != 4 or not choices: return
    for r in choices:
        alpha = [f.get(sq(r), 0) for f in I.fs]
        B = [0] * (s // 2) + [R.randnz(rng) for _ in range(s // 2)]
        hi = ref.pmul(R, B, B)[s:]
        state, tr = list(I.trace[0]), []
        for i in range(s):
            tr.append(state)
            c = 4 * ref.peval(R, hi, pow(I.g1, i, p))
            state = [R.sub(ref.meval(R, f, state), a * c % p) for f, a in zip(I.fs, alpha)]
        if tr[-1] == I.trace[-1]: continue
        xs = [pow(I.g1, i, p) for i in range(s)]
        P = [ref.pinterp(R, xs, [t[j] for t in tr]) for j in range(W)]
        P[r] = ref.padd(R, ref.psub(R, P[r], ref.ptrim(R, B)), [0] * s + B)
        Z = ref.pdivmod(R, [p - 1] + [0] * (s - 1) + [1], [p - I.last, 1])[0]
        V = ([1] + [0] * (s - 1)) * 3 + [1]
        Z2 = ref.pmul(R, [p - 1, 1], [p - I.last, 1])
        D, Bs = [], []
        for j in range(W):
            f = []
            for e, v in I.fs[j].items():
                t = [v]
                for y, n in zip(P, e): t = ref.pmul(R, t, ref.ppow(R, y, n))
                f = ref.padd(R, f, t)
            left = ref.psub(R, [R.mul(c, pow(I.g1, i, p)) for i, c in enumerate(P[j])], f)
            quo, rem = ref.pdivmod(R, ref.padd(R, left, ref.pmul(R, V, ref.pscale(R, hi, alpha[j]))), Z)
            line = ref.pinterp(R, [1, I.last], [I.trace[0][j], tr[-1][j]])
            quo2, rem2 = ref.pdivmod(R, ref.psub(R, P[j], line), Z2)
            if rem or rem2 or max(len(quo), len(quo2)) > 2 * s: raise RuntimeError("harness: the forged trace is wrong")
            D.append(quo)
            Bs.append(quo2)
        polys = [[k.poly(f) for f in fs] for fs in (P, D, Bs)]
        m = merkelize_polynomial_evaluations(W, [S.fft_solver.fft(f) for fs in polys for f in fs])
        comb = combination(I, S, m[1], *polys)
        try:
            fp = FRI(F).generate_proximity_proof(comb, S.G2, 2 * s, exclude_multiples_of=I.ext)
        except Exception:
            mon.event("prover_refused")
            fp = None
        l = merkelize(S.fft_solver.fft(comb))
        spots = S.compute_merkle_spot_checks(m, l)
        # and with a low-degree proof of the trace as it would have to be combined, whatever the prover made of it
        flat = [k.poly(f[:2 * s]) for f in [k.pval(comb)]]
        for q in (comb, *flat):
            try: fp = FRI(F).generate_proximity_proof(q, S.G2, 2 * s, exclude_multiples_of=I.ext)
            except Exception: continue
            refused([m[1], l[1], spots, fp], "trace of twice the degree", w=I.witness(tr), register=r)
            mon.event("forged_quadratic")


def positions_known(mon, rng, I, refused):
    """Provers that know the sampled positions before all that is opened there is committed."""
    from starks.fri import FRI
    from starks.merkle_tree import merkelize, mk_branch
    k, R, F, p, W, ext = I.k, I.R, I.F, I.R.p, I.width, I.ext
    maxdeg = I.steps * I.deg
    # the combination is committed first: empty, with nonsense at the positions that are never opened
    checks = rng.randint(6, 20)
    S = I.stark(checks=checks)
    zero, f0 = [0] * W, [f.get((0,) * W, 0) for f in I.fs]
    tr = [zero] + [[R.rand(rng) for _ in range(W)] for _ in range(I.steps - 2)] + [zero]
    for j in range(W):
        if I.run(I.fs, zero)[-1] != zero and not any(f0[:j]) and f0[j]:
            base = friforge.Tree([bytes(32)] * I.prec)
            for _ in range(400):
                free = ext * rng.randrange(I.prec // ext)
                value = R.randnz(rng)
                t = base.changed({free: friforge.enc(value)})
                pos = friforge.first(t[1], I.prec, checks, ext)
                if not {(x + ext) % I.prec for x in pos} & set(pos): break
            else: continue
            rows = [[0] * (3 * W) for _ in range(I.prec)]
            for x in pos: rows[(x + ext) % I.prec][:W] = f0
            m = merkelize([pack(r) for r in rows])
            word = [0] * I.prec
            word[free] = value
            if maxdeg > 16:
                fp = friforge.with_first_round(FRI(F), k, R, [], I.w, maxdeg, ext, t[1], lambda x: mk_branch(t, x))
            else:
                fp = [[friforge.enc(v) for v in word]]
            for ps in (pos, friforge.spots(m[1], t[1], I.prec, checks, ext)):
                br = []
                for x in ps: br += [mk_branch(m, x), mk_branch(m, (x + ext) % I.prec), mk_branch(t, x)]
                refused([m[1], t[1], br, fp], "evaluations chosen after the positions", w=I.witness(tr), b=I.boundary(zero), T=S)
            mon.event("forged_after_positions")
    # the evaluations are committed first: any trace, and a combination that is right where it is opened
    checks = rng.randint(4, maxdeg)
    S = I.stark(checks=checks)
    fake = [list(I.trace[0])] + [[R.rand(rng) for _ in range(W)] for _ in range(I.steps - 1)]
    if fake[-1] == I.trace[-1]: return
    P, D, B = pointwise(rng, I, fake, None)
    tree = friforge.Tree([pack([f[x] for f in P + D + B]) for x in range(I.prec)])
    pos = friforge.first(tree.nodes[1], I.prec, checks, ext)
    for ps in (pos, None):
        at = sorted(set(ps or pos))
        if len(at) > maxdeg: continue
        value = []
        for x in at:
            got = combination(I, S, tree.nodes[1], *[[k.poly([f[x]]) for f in fs] for fs in (P, D, B)])
            value.append(ref.peval(R, k.pval(got), pow(I.w, x, p)))
        q = ref.pinterp(R, [pow(I.w, x, p) for x in at], value)
        try: fp = FRI(F).generate_proximity_proof(k.poly(q), S.G2, maxdeg, exclude_multiples_of=ext)
        except Exception: continue
        l = merkelize(S.fft_solver.fft(k.poly(q)))
        ps = ps or friforge.spots(tree.nodes[1], l[1], I.prec, checks, ext)
        br = []
        for x in ps: br += [mk_branch(tree.nodes, x), mk_branch(tree.nodes, (x + ext) % I.prec), mk_branch(l, x)]
        refused([tree.nodes[1], l[1], br, fp], "combination chosen after the positions", w=I.witness(fake), T=S)
        mon.event("forged_before_positions")


def pointwise(rng, I, fake, inp, constant=False):
    """Values of P for this trace, and of the D and B that fit it point by point."""
    R, p, W = I.R, I.R.p, I.width
    inp = fake[0] if inp is None else inp
    dom = [pow(I.w, i, p) for i in range(I.prec)]
    if constant:
        P = [[R.rand(rng)] * I.prec for _ in range(W)]
    else:
        P = [[ref.peval(R, f, x) for x in dom] for f in (ref.pinterp(R, dom[::I.ext], [fake[i][j] for i in range(I.steps)]) for j in range(W))]
    D = [[0] * I.prec for _ in range(W)]
    B = [[0] * I.prec for _ in range(W)]
    lines = [ref.pinterp(R, [1, I.last], [inp[j], fake[-1][j]]) for j in range(W)]
    for i, x in enumerate(dom):
        if i % I.ext == 0: continue
        z = R.mul(pow(x, I.steps, p) - 1, R.inv((x - I.last) % p))
        z2 = (x - 1) * (x - I.last) % p
        row = [f[i] for f in P]
        for j in range(W):
            D[j][i] = R.mul(R.sub(P[j][(i + I.ext) % I.prec], ref.meval(R, I.fs[j], row)), R.inv(z))
            B[j][i] = R.mul(R.sub(row[j], ref.peval(R, lines[j], x)), R.inv(z2))
    return P, D, B


def shapes(mon, rng, I, S, refused, maxdeg):
    """Any input and any output: the registers move on a line, and the next state is opened in another tree below the leaves."""
    R, p, w = I.R, I.R.p, I.width
    fake = [[R.rand(rng) for _ in range(w)] for _ in range(I.steps)]
    lines = [ref.pinterp(R, [1, I.last], [fake[0][j], fake[-1][j]]) for j in range(w)]
    dom = [pow(I.w, i, p) for i in range(I.prec)]
    now = [[ref.peval(R, f, x) for f in lines] for x in dom]
    nxt = [[ref.meval(R, f, row) for f in I.fs] for row in now]
    pack = lambda row: b"".join(friforge.enc(v) for v in row) + bytes(64 * w)
    here, there = [pack(row) for row in now], [pack(nxt[(i - I.ext) % I.prec]) for i in range(I.prec)]
    for what in ("next state", "state"):
        t = friforge.Deep(*((here, there) if what == "next state" else (there, here)))
        first, second = (t.shallow, t.deep) if what == "next state" else (t.deep, t.shallow)
        fp, l, br = line_proof(I, S, lines, maxdeg, t.root, first, second)
        refused([t.root, l[1], br, fp], what + " opened below the leaves", w=I.witness(fake), b=I.boundary(fake[0]))
        mon.event("forged_deep_trace")


def line_proof(I, S, lines, maxdeg, root, first, second):
    """Low-degree proof, combination tree and spot checks for registers on these lines with empty quotients."""
    from starks.fri import FRI
    from starks.merkle_tree import merkelize, mk_branch
    from starks.polynomial import polynomials_over
    k, F, w = I.k, I.F, I.width
    zero = [polynomials_over(F)([]) for _ in range(w)]
    comb = combination(I, S, root, [k.poly(f) for f in lines], zero, zero)
    l = merkelize(S.fft_solver.fft(comb))
    br = []
    for pos in friforge.spots(root, l[1], I.prec, 80, I.ext):
        br += [first(pos), second((pos + I.ext) % I.prec), mk_branch(l, pos)]
    return FRI(F).generate_proximity_proof(comb, S.G2, maxdeg, exclude_multiples_of=I.ext), l, br


def attack_tree(spec, mon, rng, I, S, refused):
    """A prover that commits to what it likes."""
    from starks import stark as st
    from starks.fri import FRI
    from starks.merkle_tree import merkelize, merkelize_polynomial_evaluations, mk_branch
    from starks.polynomial import polynomials_over
    k, R, F = I.k, I.R, I.F
    wit, bnd = I.witness(), I.boundary()
    tps = st.construct_trace_polynomials(wit, F, S.G1)
    cps = st.construct_constraint_polynomials(I.step_polys(), tps, F, S.G1, I.width)
    rps = st.construct_remainder_polynomials(cps, F, I.steps, S.last_step_position)
    bps = st.construct_boundary_polynomials(tps, wit, bnd, F, S.last_step_position, I.width)
    evals = [S.fft_solver.fft(f) for f in tps + rps + bps]
    maxdeg = I.steps * I.deg

    def proof_of(ev, l_poly):
        m = merkelize_polynomial_evaluations(I.width, ev)
        l = merkelize(S.fft_solver.fft(l_poly))
        return [m[1], l[1], S.compute_merkle_spot_checks(m, l), FRI(F).generate_proximity_proof(l_poly, S.G2, maxdeg, exclude_multiples_of=I.ext)]

    if spec["kind"] == "forge":
        shapes(mon, rng, I, S, refused, maxdeg)
        # any values on the trace, quotients computed pointwise off it, and a low-degree polynomial that has nothing to do with them
        for style in ("random", "true input", "constant"):
            fake = [[R.rand(rng) for _ in range(I.width)] for _ in range(I.steps)]
            if style == "true input": fake[0] = list(I.trace[0])
            w2 = I.witness(fake)
            b2 = bnd if style == "true input" else I.boundary(fake[0])
            P, D, B = pointwise(rng, I, fake, [k.val(b[2]) for b in b2], style == "constant")
            ev = [[k.lib(v) for v in e] for e in P + D + B]
            if [s for s in fake] == I.run(I.fs, fake[0]): continue
            for l_poly in (polynomials_over(F)([]), polynomials_over(F)([k.lib(R.randnz(rng)) for _ in range(I.steps)])):
                try:
                    pr = proof_of(ev, l_poly)
                except Exception:
                    mon.event("prover_refused")
                    continue
                refused(pr, "unrelated combination", w=w2, b=b2, style=style)
                mon.event("forged")
            # the right combination of those values: consistent everywhere, but of high degree
            if 2 * maxdeg <= I.prec and I.ext >= 4:
                pol = [S.fft_solver.inv_fft(e) for e in ev]
                root = merkelize_polynomial_evaluations(I.width, ev)[1]
                comb = combination(I, S, root, pol[:I.width], pol[I.width:2 * I.width], pol[2 * I.width:])
                try:
                    pr = proof_of(ev, comb)
                except Exception:
                    mon.event("prover_refused")
                    continue
                refused(pr, "combination of a false trace", w=w2, b=b2, style=style)
                mon.event("forged_consistent")
                # the same, with a low-degree proof that lives on the shape of its openings
                m = merkelize_polynomial_evaluations(I.width, ev)
                ce = [k.val(v) for v in S.fft_solver.fft(comb)]
                low = maxdeg
                while low > 16 and low % 4 == 0: low //= 4
                if low <= 16:
                    for size, _, fp in friforge.inner_nodes(R, ce, I.w, maxdeg, I.ext):
                        l = merkelize([friforge.enc(v) for v in ce])
                        refused([m[1], l[1], S.compute_merkle_spot_checks(m, l), fp], "inner nodes for the last layer", w=w2, b=b2, style=style, size=size)
                        mon.event("forged_inner_nodes")
                    if maxdeg > 16:
                        t = friforge.Deep([bytes(32)] * I.prec, [friforge.enc(v) for v in ce])
                        fp = friforge.with_first_round(FRI(F), k, R, [], I.w, maxdeg, I.ext, t.root, t.shallow)
                        br = []
                        for pos in friforge.spots(m[1], t.root, I.prec, 80, I.ext):
                            br += [mk_branch(m, pos), mk_branch(m, (pos + I.ext) % I.prec), t.deep(pos)]
                        refused([m[1], t.root, br, fp], "combination opened below the leaves", w=w2, b=b2, style=style)
                        mon.event("forged_deep_combination")
        return
    m = merkelize_polynomial_evaluations(I.width, evals)
    l_poly = combination(I, S, m[1], tps, rps, bps)
    mon.check(accepts(S, proof_of(evals, l_poly), wit, bnd), "harness_proof_rejected")
    if spec["kind"] == "degree":
        X = polynomials_over(F)([0, 1])
        for deg in {maxdeg, I.prec - 1, (maxdeg + I.prec) // 2}:
            if maxdeg <= deg < I.prec and 2 * maxdeg <= I.prec and I.ext >= 4:
                pr = None
                try:
                    pr = proof_of(evals, l_poly + X**deg * k.lib(R.randnz(rng)))
                except Exception:
                    mon.event("prover_refused")
                if pr: refused(pr, "combination of high degree", deg=deg)
                mon.event("high_degree")
        # the trace itself of high degree: right on the steps, wrong in between
        zero = X**I.steps - F(1)
        for j in range(I.width):
            t2 = list(tps)
            t2[j] = tps[j] + zero * X**rng.randrange(0, I.prec - I.steps) * k.lib(R.randnz(rng))
            pr = proof_of([S.fft_solver.fft(f) for f in t2 + rps + bps], l_poly)
            refused(pr, "other trace polynomial", dim=j)
            mon.event("high_degree")
        return
    l = merkelize(S.fft_solver.fft(l_poly))
    base = proof_of(evals, l_poly)
    leaves = [[k.val(e[x]) for e in evals] for x in range(I.prec)]
    tree = friforge.Tree([pack(r) for r in leaves])
    for _ in range(36):
        row = rng.randrange(3 * I.width)
        kind = row // I.width
        for _ in range(60):         # the positions follow from the tree: draw until the changed leaf is among them
            x = rng.randrange(I.prec)
            if x % I.ext == 0: continue
            leaf = list(leaves[x])
            leaf[row] = R.add(leaf[row], R.randnz(rng))
            mt = tree.changed({x: pack(leaf)})
            pos = friforge.spots(mt[1], l[1], I.prec, 80, I.ext)
            if x in pos or kind == 0 and (x - I.ext) % I.prec in pos: break
        else: continue
        pr = [mt[1], base[1], S.compute_merkle_spot_checks(mt, l), base[3]]
        refused(pr, "corrupted evaluation", position=x, kind=kind, dim=row % I.width)
        mon.event("corrupt_position")
