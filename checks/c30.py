"""C30 MiMC, power cycles, power-of-two test."""
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is a batch of MiMC runs, the power cycle of every element of one small field (or of elements of known order of a large one), or a range of "
        "integers; distinct non-trivial = distinct arguments")
REQUIRED = {"mimc": 1200, "neighbour": 2400, "mimc_wrap": 200, "cycle": 200, "long_cycle": 40, "pow2_true": 300, "pow2_false": 5000,
            "mimc_long": 50, "mimc_many_constants": 30, "very_long_cycle": 12}
P = ref.P256


def cases(rng, tier):
    for p in ref.SMALL[:14]: yield {"kind": "cycle", "field": ["Z", p], "all": True}
    for i in range(36 if tier == "quick" else 300):
        yield {"kind": "cycle", "field": rand_field(rng, 300), "all": True}
    for i in range(16 if tier == "quick" else 300):
        yield {"kind": "cycle", "field": ["Z", rng.choice([P, P, 65537, 12289, 2**64 - 2**32 + 1])], "all": False}
    for p, e in ((65537, 2**12), (65537, 2**13), (65537, 2**14), (65537, 2**16), (P, 2**12), (P, 2**14), (12289, 3 * 2**12), (40961, 5 * 2**13), (786433, 2**17), (786433, 2**18), (786433, 3 * 2**17), (P, 2**17)):
        yield {"kind": "cycle", "field": ["Z", p], "order": e}
    for i in range(12 if tier == "quick" else 200): yield {"kind": "mimc", "long": True}
    for i in range(60 if tier == "quick" else 3000): yield {"kind": "mimc"}
    for a in range(1, 6000 if tier == "quick" else 200000, 500): yield {"kind": "pow2", "a": a}


def run_case(spec, mon):
    from starks import utils
    rng = random.Random(spec["seed"])
    if spec["kind"] == "mimc":
        for _ in range(30):
            inp = rng.choice([0, 1, 2, P - 1, P, P + 1, 2**256 - 1, rng.randrange(P), rng.getrandbits(280), -rng.getrandbits(40)])
            steps = rng.choice([1, 2, 3, 4, 5, 8, 9, rng.randint(1, 200)])
            nk = rng.randint(1, rng.choice([1, 4, 9, 64]))
            if spec.get("long"):
                if rng.random() < .7: continue
                steps = rng.choice([256, 257, 258, 512, 513, 1024, 1025, 2049, rng.randint(300, 5000)])
                nk = rng.choice([64, 128, 255, 256, 257, 300, 512, 1000, 2048, rng.randint(65, 3000)])
                mon.event("mimc_long")
                if nk > 256: mon.event("mimc_many_constants")
            ks = [rng.choice([0, 1, P - 1, rng.getrandbits(256), rng.getrandbits(20), -3, i**7 ^ 42]) for i in range(nk)]
            keep = list(ks)
            x = inp
            for i in range(steps - 1): x = (pow(x, 3, P) + ks[i % len(ks)]) % P
            got = utils.mimc(inp, steps, ks)
            mon.equal(got, x, "mimc", inp=inp, steps=steps, constants=ks)
            mon.equal(ks, keep, "constants_changed")
            mon.event("mimc")
            if steps - 1 > len(ks): mon.event("mimc_wrap")
            mon.seen(inp, steps, ks)
            for _ in range(2):      # again with one constant, the input or the number of steps changed
                r = rng.random()
                if r < .7: ks[rng.randrange(len(ks))] = rng.getrandbits(200)
                elif r < .85: inp = rng.choice([inp + 1, inp ^ 1, -inp, rng.randrange(P)])
                else: steps = rng.randint(1, steps + 1)
                x = inp
                for i in range(steps - 1): x = (pow(x, 3, P) + ks[i % len(ks)]) % P
                mon.equal(utils.mimc(inp, steps, ks), x, "mimc", inp=inp, steps=steps, constants=ks)
                mon.event("neighbour")
        return
    if spec["kind"] == "pow2":
        for n in range(spec["a"], spec["a"] + 500):
            one(mon, utils, n)
        for _ in range(30):
            b = rng.choice([rng.randrange(600), rng.randrange(600), rng.randrange(600, 4000)])
            for n in (1 << b, (1 << b) + 1, (1 << b) - 1, (1 << b) + (1 << rng.randrange(b + 1)), 3 << b, 5 << b, rng.getrandbits(b + 1) | 1 << b):
                if n > 0: one(mon, utils, n)
        return
    k = kit(spec["field"])
    R, F = k.R, k.T
    if spec.get("order"):
        e, els = spec["order"], []
        fs = [q for q in (2, 3, 5) if e % q == 0]
        while len(els) < (2 if e < 2**14 else 1):
            w = pow(rng.randrange(2, k.p), (k.p - 1) // e, k.p)
            if all(pow(w, e // q, k.p) != 1 for q in fs): els.append(w)
    elif spec["all"]:
        els = [a for a in R.all() if a != R.zero]
        if len(els) > 60: els = [R.one] + rng.sample(els, 60)
    else:
        els = []
        q = k.p - 1
        for e in rng.sample([2, 4, 8, 16, 64, 256, 512], 4):
            while True:
                w = pow(rng.randrange(2, k.p), q // e, k.p)
                if pow(w, e // 2, k.p) != 1: break
            els.append(w)
    for a in els:
        want = [R.one]
        while True:
            n = R.mul(want[-1], a)
            if n == R.one: break
            want.append(n)
        x = k.lib(a)
        got = utils.get_power_cycle(x, F)
        d = dict(field=spec["field"], a=a)
        mon.equal([k.val(F(g)) for g in got], want, "cycle", **d)
        mon.equal(len(got), len(want), "cycle_length", **d)
        mon.equal(k.val(x), a, "operand_changed", **d)
        mon.event("very_long_cycle" if spec.get("order") else "cycle" if spec["all"] else "long_cycle")
        mon.seen(spec["field"], a)


def one(mon, utils, n):
    want = n & (n - 1) == 0
    mon.check(bool(utils.is_a_power_of_2(n)) is want, "is_a_power_of_2", n=n)
    mon.event("pow2_true" if want else "pow2_false")
    mon.seen(n)
