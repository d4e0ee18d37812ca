"""C18 STARK completeness: honest proofs verify, and every intermediate polynomial is right."""
import copy
import random

from vlib import ref
from vlib.starkgen import PRIMES, Inst, instance

RULE = ("a case is one computation (prime, width, steps, extension factor, random step polynomials, input) traced, proved and verified, with all "
        "intermediate polynomials compared to the reference; distinct non-trivial = distinct computations")
REQUIRED = {"accepted": 60, "other_input": 60, "trace_poly": 100, "constraint_poly": 100, "remainder_poly": 100, "boundary_poly": 100, "zero_input": 4, "fri_round": 25, "determinism": 10, "security_factor": 40, "large_domain": 5, "kept_register": 20, "high_step_degree": 10, "constant_steps": 6, "few_steps": 24, "seven_is_a_square": 16, "many_registers": 5}
LIMITS = {"cpu": 240}


def cases(rng, tier):
    # long traces
    for p, steps, ext, w in [(ref.P256, 128, 4, 1), (65537, 128, 2, 2), (ref.P256, 64, 8, 2), (2**64 - 2**32 + 1, 64, 4, 3), (ref.P256, 64, 16, 1), (ref.P256, 64, 2, 2)] \
            + ([(65537, 256, 4, 1), (ref.P256, 256, 2, 2), (ref.P256, 128, 16, 3)] if tier == "thorough" else []):
        fs = [[[[0] * i + [2 if i == 0 else 1] + [0] * (w - i - 1), 1 + i], [[0] * w, rng.randrange(1, p)]] for i in range(w)]
        yield {"inst": {"p": p, "steps": steps, "ext": ext, "width": w, "fs": fs, "inp": [rng.randrange(p) for _ in range(w)]}, "helpers": True, "checks": 200}
    for p, steps, ext in [(ref.P256, 256, 4), (65537, 512, 8), (23068673, 1024, 2), (2**64 - 2**32 + 1, 2048, 4), (ref.P256, 4096, 2)] + [(ref.P256, 512, 64), (ref.P256, 8192, 8)] * (tier == "thorough"):
        yield {"kind": "domain", "inst": {"p": p, "steps": steps, "ext": ext, "width": 1, "fs": [[[[2], 1], [[0], 3]]], "inp": [5]}}
    # step degrees whose bound does not divide by 4 evenly, and the largest ones
    for deg, steps, ext in [(9, 8, 16), (11, 8, 16), (13, 8, 16), (15, 8, 16), (16, 8, 16), (9, 32, 16), (17, 8, 32), (31, 8, 32), (rng.randint(9, 16), 16, 16), (rng.randint(5, 12), 8, 32)] \
            + ([(d, s, e) for e in (16, 32, 64) for d in range(9, e + 1) for s in (8, 16) if s * e <= 512] if tier == "thorough" else []):
        w = rng.choice([1, 1, 2])
        fs = [[[[0] * i + [deg if i == 0 else 1] + [0] * (w - i - 1), 1 + i], [[0] * w, rng.randrange(1, ref.P256)]] for i in range(w)]
        yield {"inst": {"p": ref.P256, "steps": steps, "ext": ext, "width": w, "fs": fs, "inp": [rng.randrange(ref.P256) for _ in range(w)]}, "helpers": deg == 9, "high": True}
    for w, steps, ext in [(1, 8, 4), (1, 8, 2), (2, 16, 4), (3, 4, 2), (1, 32, 2), (1, 64, 4)]:        # registers that are constant from the second state on
        fs = [[[[0] * w, rng.randrange(ref.P256)]] for i in range(w)]
        if w == 3: fs[1] = []
        yield {"inst": {"p": ref.P256, "steps": steps, "ext": ext, "width": w, "fs": fs, "inp": [rng.randrange(ref.P256) for _ in range(w)]}, "helpers": True, "constant": True}
    # two and four steps, and primes modulo which 7 is a square
    for i in range(24):
        yield {"inst": instance(rng, None, [2, 4][i % 2], None, 64), "helpers": True, "few": True}
    for i in range(16 if tier == "quick" else 100):
        yield {"inst": instance(rng, rng.choice([p for p in PRIMES if pow(7, p // 2, p) == 1]), rng.choice([4, 8, 16]), None, 64), "helpers": i % 2 == 0, "square": True}
    for i in range(4):      # constant registers at every place, of zeros among them
        fs = [[[[int(a == j) for a in range(4)], 1]] for j in range(4)]
        fs[i] = [[[2 * int(a == i) for a in range(4)], 1], [[0] * 4, 7]]
        yield {"inst": {"p": ref.P256, "steps": 8, "ext": 4, "width": 4, "fs": fs, "inp": [[0, 0, 1, 5], [0, 3, 0, 0], [1, 0, ref.P256 - 1, 0], [0, 0, 0, 2]][i]}, "helpers": True}
    for w in list(range(1, 14)) + [17]:
        yield {"inst": instance(rng, ref.P256, 8, w, 64), "helpers": True, "twice": w < 4}
    for z in range(4):
        yield {"inst": instance(rng, None, 8, None, 64, zero=True), "helpers": True}
    # x -> x^2 and friends from 0: identically zero traces
    yield {"inst": {"p": ref.P256, "steps": 8, "ext": 4, "width": 1, "fs": [[[[2], 1]]], "inp": [0]}, "helpers": True}
    yield {"inst": {"p": ref.P256, "steps": 8, "ext": 8, "width": 2, "fs": [[[[0, 1], 1]], [[[1, 0], 1], [[0, 2], 2]]], "inp": [2, 5]}, "helpers": True, "twice": True}
    yield {"inst": {"p": ref.P256, "steps": 64, "ext": 8, "width": 1, "fs": [[[[3], 1], [[0], 42]]], "inp": [3]}, "helpers": False}
    yield {"inst": {"p": 65537, "steps": 16, "ext": 16, "width": 1, "fs": [[[[8], 1], [[0], 42]]], "inp": [3]}, "helpers": True}
    for i in range(300 if tier == "quick" else 6000):
        yield {"inst": instance(rng, maxprec=128 if tier == "quick" else 512), "helpers": i % 2 == 0, "twice": i % 9 == 0,
               "checks": [0, 0, 0, rng.choice([1, 2, 3, 40, 79, 80, 81, 100, 128, rng.randint(1, 200)])][i % 4]}


def helpers(mon, I, S, d):
    from starks import stark as st
    k, R, F = I.k, I.R, I.F
    G1, last = k.lib(I.g1), k.lib(I.last)
    wit, bnd = I.witness(), I.boundary()
    tps = st.construct_trace_polynomials(wit, F, G1)
    tr = [k.pval(f) for f in tps]
    xs = [pow(I.g1, i, R.p) for i in range(I.steps)]
    mon.equal(len(tr), I.width, "trace_poly_count", **d)
    for j in range(I.width):
        mon.check(len(tr[j]) <= I.steps, "trace_poly_degree", dim=j, **d)
        mon.equal([ref.peval(R, tr[j], x) for x in xs], [I.trace[i][j] for i in range(I.steps)], "trace_poly", dim=j, **d)
        mon.event("trace_poly")
    cps = st.construct_constraint_polynomials(I.step_polys(), tps, F, G1, I.width)
    cp = [k.pval(f) for f in cps]
    rng = random.Random(1)
    for j in range(I.width):
        for x in xs[:-1]:
            mon.equal(ref.peval(R, cp[j], x), 0, "constraint_on_steps", dim=j, **d)
        for x in [xs[-1]] + [R.rand(rng) for _ in range(4)]:
            want = R.sub(ref.peval(R, tr[j], x * I.g1 % R.p), ref.meval(R, I.fs[j], [ref.peval(R, t, x) for t in tr]))
            mon.equal(ref.peval(R, cp[j], x), want, "constraint_value", dim=j, at=x, **d)
        mon.event("constraint_poly")
    z = ref.proots(R, xs[:-1])
    rem = [k.pval(f) for f in st.construct_remainder_polynomials(cps, F, I.steps, last)]
    mon.equal([ref.pmul(R, r, z) for r in rem], cp, "remainder", **d)
    mon.event("remainder_poly", I.width)
    bps = [k.pval(f) for f in st.construct_boundary_polynomials(tps, wit, bnd, F, last, I.width)]
    z2 = ref.proots(R, [1, I.last])
    for j in range(I.width):
        inter = ref.pinterp(R, [1, I.last], [I.trace[0][j], I.trace[-1][j]])
        mon.equal(ref.padd(R, ref.pmul(R, bps[j], z2), inter), tr[j], "boundary", dim=j, **d)
        mon.event("boundary_poly")
    mon.equal([k.pval(f) for f in tps], tr, "trace_polys_changed", **d)
    mon.equal([k.pval(f) for f in cps], cp, "constraint_polys_changed", **d)


def run_case(spec, mon):
    from starks.air import get_computational_trace
    I = Inst(spec["inst"])
    k = I.k
    d = dict(inst=I.label())
    if spec.get("kind") == "domain":
        S = I.stark()
        mon.equal((k.val(S.G2), k.val(S.G1), k.val(S.last_step_position), S.get_degree(), S.precision), (I.w, I.g1, I.last, I.deg, I.prec), "parameters", **d)
        xs, x = [], 1
        for _ in range(I.prec):
            xs.append(x)
            x = x * I.w % I.R.p
        mon.equal([k.val(x) for x in S.xs], xs, "domain", **d)
        mon.event("large_domain")
        return
    tr, out = get_computational_trace([k.lib(a) for a in I.trace[0]], I.steps, I.width, I.step_polys())
    mon.equal([[k.val(x) for x in s] for s in tr], I.trace, "trace", **d)
    S = I.stark()
    mon.equal((k.val(S.G2), k.val(S.G1), k.val(S.last_step_position), S.get_degree(), S.precision), (I.w, I.g1, I.last, I.deg, I.prec), "parameters", **d)
    mon.equal([k.val(x) for x in S.xs], [pow(I.w, i, I.R.p) for i in range(I.prec)], "domain", **d)
    if spec.get("helpers"):
        helpers(mon, I, S, d)
    wit = [[tr[i][j] for i in range(I.steps)] for j in range(I.width)]
    bnd = I.boundary()
    proof = S.mk_proof(wit, bnd)
    mon.equal([[k.val(x) for x in row] for row in wit], [[s[j] for s in I.trace] for j in range(I.width)], "witness_changed", **d)
    mon.equal([(a, b, k.val(c)) for a, b, c in bnd], [(0, j, I.trace[0][j]) for j in range(I.width)], "boundary_changed", **d)
    keep = copy.deepcopy(proof)
    mon.check(S.verify_proof(proof, wit, bnd) is True, "honest_proof_rejected", **d)
    mon.equal(proof, keep, "proof_changed_by_verifier", **d)
    mon.check(I.stark().verify_proof(keep, I.witness(), I.boundary()) is True, "honest_proof_rejected_by_new_verifier", **d)
    mon.event("accepted")
    if spec.get("high"): mon.event("high_step_degree")
    if spec.get("constant"): mon.event("constant_steps")
    if spec.get("few"): mon.event("few_steps")
    if spec.get("square"): mon.event("seven_is_a_square")
    if I.width > 9: mon.event("many_registers")
    mon.event("fri_round", len(proof[3]) - 1)
    mon.event("kept_register", sum(len({s[j] for s in I.trace}) == 1 for j in range(I.width)))
    if not any(I.trace[0]): mon.event("zero_input")
    n = spec.get("checks")
    if n:
        T = I.stark(checks=n)
        pr = T.mk_proof(I.witness(), I.boundary())
        mon.equal(len(pr[2]), 3 * n, "spot_check_count", n=n, **d)
        mon.check(I.stark(checks=n).verify_proof(pr, I.witness(), I.boundary()) is True, "honest_proof_rejected", checks=n, **d)
        mon.equal((pr[0], pr[1], pr[2][:240], pr[3]), (keep[0], keep[1], keep[2][:3 * n], keep[3]), "proof_depends_on_security_factor", n=n, **d)
        mon.event("security_factor")
    if I.prec <= 128 and not spec.get("high"):
        # the same prover and verifier, given another input (all registers changed, or one)
        rng = random.Random(spec["seed"])
        inp = list(I.trace[0])
        for j in range(len(inp)) if rng.random() < .3 else [rng.randrange(len(inp))]: inp[j] = I.R.rand(rng)
        J = Inst(dict(spec["inst"], inp=inp))
        pr = S.mk_proof(J.witness(), J.boundary())
        mon.check(S.verify_proof(pr, J.witness(), J.boundary()) is True, "honest_proof_rejected", inp=inp, **d)
        mon.check(I.stark().verify_proof(pr, J.witness(), J.boundary()) is True, "honest_proof_rejected_by_new_verifier", inp=inp, **d)
        mon.check(S.verify_proof(keep, wit, bnd) is True, "honest_proof_rejected_later", inp=inp, **d)
        mon.equal(S.mk_proof(wit, bnd), keep, "proof_not_deterministic", **d)
        mon.event("other_input")
    if spec.get("twice"):
        mon.equal(I.stark().mk_proof(I.witness(), I.boundary()), keep, "proof_not_deterministic", **d)
        mon.event("determinism")
    mon.seen(repr(I.label()))
