"""C17 the AIR of a computation: trace, witness, constraints, circuit."""
import itertools
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is one computation (field, width, input, random step polynomials) run through the tracer for several step counts, or one full 511-step "
        "AIR with its constraints evaluated on good and bad state pairs and tampered traces; distinct non-trivial = distinct computations")
REQUIRED = {"trace": 400, "neighbour": 400, "mixed_trace": 6, "state": 2500, "air": 20, "constraint": 25, "zero_register": 3, "long_constraint": 3, "pair": 500, "bad_pair": 200, "accepts": 20, "tampered_trace_rejected": 80}
LIMITS = {"cpu": 120}


def cases(rng, tier):
    for i in range(24 if tier == "quick" else 300):
        yield {"kind": "air", "width": rng.choice([1, 1, 2, 2, 3, 4, 5]), "ring": ["Z", rng.choice([7, 257, 65537, 2**61 - 1, ref.P256])] if i % 3 else rand_field(rng, 2**10)}
    for i in range(3 if tier == "quick" else 40):
        yield {"kind": "air", "width": rng.choice([3, 4]), "ring": ["Z", rng.choice([257, 65537])], "long": 1}
    for i in range(160 if tier == "quick" else 5000):
        ring = ["Z", rng.choice([2, 3, 7, 31, 257, 65537, 2**61 - 1, ref.P256])] if rng.random() < .7 else rand_field(rng, 2**12)
        yield {"kind": "trace", "width": rng.randint(1, 6), "ring": ring}
    for i in range(8 if tier == "quick" else 100):
        yield {"kind": "trace", "width": rng.randint(2, 4), "ring": ["Z", rng.choice([65537, 2**61 - 1, ref.P256])], "n": rng.randint(650, 1100), "mixed": True}
        yield {"kind": "trace", "width": rng.randint(7, 16), "ring": ["Z", rng.choice([31, 65537, ref.P256])], "n": [5, 300, 600, 1030][i % 4]}
    for w in (6, 7, 8) if tier == "quick" else range(6, 13):
        yield {"kind": "air", "width": w, "ring": ["Z", rng.choice([257, 65537])], "peak": w - 1}


def rstep(R, rng, w, i, long=False):
    long = long and {e: R.rand(rng) for e in rng.sample([e for e in itertools.product(range(5), repeat=w) if sum(e) < 6], 12 * w)}
    if long: return ref.mtrim(R, long)
    r = rng.random()
    if r < .1: return {tuple(int(j == (i + 1) % w) for j in range(w)): R.one}       # shift
    if r < .15: return ref.mtrim(R, {(0,) * w: R.rand(rng)})                          # constant
    out = {}
    for _ in range(rng.randint(1, 4) ):
        e = tuple(rng.choice([0, 0, 1, 1, 2, 3]) for _ in range(w))
        if sum(e) <= 5:
            out[e] = R.rand(rng)
    return ref.mtrim(R, out)


def reftrace(R, steps_, inp, n):
    tr = [tuple(inp)]
    for _ in range(n - 1):
        tr.append(tuple(ref.meval(R, f, tr[-1]) for f in steps_))
    return tr


def run_case(spec, mon):
    from starks.air import AIR, get_computational_trace
    rng = random.Random(spec["seed"])
    k = kit(spec["ring"])
    R, F, w = k.R, k.T, spec["width"]
    long = rng.randrange(w) if spec.get("long") else -1
    fs = [rstep(R, rng, w, i, i == long) for i in range(w)]
    if "mixed" in spec:       # every register goes on depending on every other one
        fs = [{tuple(int(j == a) for j in range(w)): R.randnz(rng) for a in range(w)} for _ in range(w)]
        for f in fs[:2]: f[tuple(int(j < 2) for j in range(w))] = R.one
        mon.event("mixed_trace")
    if "peak" in spec:        # the last registers' degrees decide
        fs = [{e: c for e, c in f.items() if sum(e) <= 2} for f in fs]
        fs[spec["peak"]] = ref.mtrim(R, {tuple(3 if j == spec["peak"] // 2 else int(j == 0) for j in range(w)): R.one})
    inp = [R.rand(rng) if rng.random() < .75 else rng.choice([R.zero, R.zero, R.one]) for _ in range(w)]
    lfs = [k.multi(f, w) for f in fs]
    linp = [k.lib(a) for a in inp]
    d = dict(ring=(k.kind, k.p, k.mod), steps=fs, inp=inp)
    V = lambda st: tuple(k.val(x) for x in st)
    if spec["kind"] == "trace":
        for n in (1, 2, 3, rng.randint(4, 40)) if "n" not in spec else (spec["n"],):
            want = reftrace(R, fs, inp, n)
            tr, out = get_computational_trace(list(linp), n, w, lfs)
            mon.equal([V(s) for s in tr], want, "trace", n=n, **d)
            mon.equal(V(out), want[-1], "output", n=n, **d)
            mon.equal([k.mval(f, w) for f in lfs], fs, "steps_changed", **d)
            mon.equal(V(linp), tuple(inp), "input_changed", **d)
            mon.event("trace")
            mon.event("state", n)
        mon.seen(d["ring"], fs, inp)
        for _ in range(4):      # again with one coefficient, one input or the number of steps changed
            n, j, r = min(n, 12), rng.randrange(w), rng.random()
            if r < .6 and fs[j]:
                fs[j] = dict(fs[j])
                fs[j][rng.choice(sorted(fs[j]))] = R.randnz(rng)
            elif r < .8: inp[j] = R.rand(rng)
            else: n = rng.randint(2, 12)
            lfs, linp = [k.multi(f, w) for f in fs], [k.lib(a) for a in inp]
            tr, out = get_computational_trace(linp, n, w, lfs)
            want = reftrace(R, fs, inp, n)
            mon.equal([V(s) for s in tr], want, "trace", n=n, ring=d["ring"], steps=fs, inp=inp)
            mon.equal(V(out), want[-1], "output", n=n, ring=d["ring"], steps=fs, inp=inp)
            mon.event("neighbour")
        return
    n = 511
    want = reftrace(R, fs, inp, n)
    given = list(linp)
    if w == 1 and k.kind == "Z" and rng.random() < .5:
        given = inp[0]      # the one-dimensional form: a plain int
    air = AIR(F, w, given, n, lfs, rng.choice([4, 8, 16]))
    mon.event("air")
    mon.equal([V(s) for s in air.computational_trace], want, "air_trace", **d)
    mon.equal(V(air.output), want[-1], "air_output", **d)
    wit = air.generate_witness()
    mon.equal([V(row) for row in wit], [tuple(s[j] for s in want) for j in range(w)], "witness", **d)
    mon.equal(sorted((t, j, k.val(a)) for t, j, a in air.B), [(0, j, inp[j]) for j in range(w)], "boundary", **d)
    mon.check(bool(air.C) is True, "circuit_rejects_trace", **d)
    mon.event("accepts")
    mon.equal((air.T, air.w, air.steps, air.width), (n, w, n, w), "parameters", **d)
    mon.check(air.F is F, "field", **d)
    refs = []
    for i in range(w):
        c = {tuple(int(j == w + i) for j in range(2 * w)): R.one}
        refs.append(ref.msub(R, c, {e + (0,) * w: v for e, v in fs[i].items()}))
    mon.equal(len(air.Polys), w, "constraint_count", **d)
    mon.equal([k.mval(c, 2 * w) for c in air.Polys], refs, "constraints", **d)
    mon.event("constraint", w)
    mon.event("long_constraint", sum(len(c) > 15 for c in refs))
    mon.event("zero_register", sum(a == R.zero for a in inp))
    mon.equal(air.CDegree, max(ref.mdeg(c) for c in refs), "constraint_degree", **d)
    mon.equal(air.get_degree(), max(ref.mdeg(f) for f in fs), "step_degree", **d)
    for _ in range(40):
        st = [R.rand(rng) for _ in range(w)]
        nx = [ref.meval(R, f, st) for f in fs]
        bad = set()
        if rng.random() < .6:
            j = rng.randrange(w)
            v = R.rand(rng)
            if v != nx[j]:
                nx[j] = v
                bad.add(j)
                mon.event("bad_pair")
        vals = [k.lib(a) for a in st + nx]
        for i in range(w):
            zero = k.val(air.Polys[i](vals)) == R.zero
            mon.equal(zero, i not in bad, "constraint_value", i=i, state=st, next=nx, **d)
        mon.event("pair")
    for _ in range(5):
        i, j = rng.choice([1, 2, n - 2, n - 1, rng.randrange(1, n)]), rng.randrange(w)
        v = R.rand(rng)
        old = air.computational_trace[i][j]
        if k.val(old) == v:
            continue
        air.computational_trace[i][j] = k.lib(v)
        mon.check(not air.generate_monotone_circuit(air.Polys), "tampered_trace_accepted", i=i, j=j, v=v, **d)
        air.computational_trace[i][j] = old
        mon.event("tampered_trace_rejected")
    mon.check(bool(air.generate_monotone_circuit(air.Polys)), "restored_trace_rejected", **d)
    mon.seen(d["ring"], fs, inp)
