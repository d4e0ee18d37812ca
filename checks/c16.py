"""C16 proof compression: round trip, no repeated data, arguments untouched."""
import copy
import random

RULE = ("a case is one FRI-shaped proof or branch list (rounds, queries, branches, item lengths and repetition rate random, real proofs included, one at "
        "the 65536 item limit); distinct non-trivial = distinct structures")
REQUIRED = {"fri": 250, "branches": 250, "back_reference": 5000, "empty_branch": 100, "length": 500, "item": 100000, "real_proof": 2, "big": 24, "wide": 6, "neighbour": 1200}
LEN = [0, 1, 3, 4, 5, 31, 32, 33, 64, 96]
SEP = (b"----", b"++++", b"====", b"////")


def cases(rng, tier):
    yield {"kind": "limit", "what": "fri"}
    yield {"kind": "limit", "what": "branches", "far": True}
    for what in ("fri", "branches"):
        for _ in range(3): yield {"kind": "wide", "what": what}
    yield {"kind": "limit", "what": "branches"}
    yield {"kind": "real", "rounds": 1}
    yield {"kind": "real", "rounds": 2}
    for i in range(24 if tier == "quick" else 300): yield {"kind": ["fri", "branches"][i % 2], "big": True}
    for i in range(700 if tier == "quick" else 15000):
        yield {"kind": ["fri", "branches"][i % 2]}


def item(rng, pool, rep):
    if pool and rng.random() < rep:
        return bytes(rng.choice(pool))
    while True:
        x = rng.randbytes(rng.choice(LEN) if rng.random() < .5 else 32)
        if pool and rng.random() < .1:      # all but a few bytes of an earlier item
            y = bytearray(rng.choice(pool))
            if y: y[rng.choice([0, -1, len(y) // 2])] ^= 1 << rng.randrange(8)
            x = bytes(y) if rng.random() < .7 else bytes(y) + bytes([rng.randrange(256)])
        elif rng.random() < .004: x = rng.randbytes(rng.choice([255, 256, 257, 1000, 4096, 5000, 70000]))
        elif rng.random() < .05: x = rng.randbytes(rng.choice([128, 192, 288, 480]))
        if rng.random() < .2: x = bytes(len(x))
        if rng.random() < .1 and len(x) == 4: x = rng.choice([b"---+", b"-----", b"0x01", b"===", b"///"])
        if x not in SEP and len(x) != 2:
            pool.append(x)
            return x


def judge_items(mon, c, d):
    long = [x for x in c if len(x) > 2]
    mon.equal(len(set(long)), len(long), "repeated_item", **d)
    for i, x in enumerate(c):
        mon.check(type(x) is bytes, "item_type", i=i, **d)
        if len(x) == 2:
            mon.check(int.from_bytes(x, "big") < i, "forward_reference", i=i, ref=x, **d)
            mon.event("back_reference")
    mon.event("item", len(c))


def judge(mon, what, prf, d):
    from starks import compression as C
    keep = copy.deepcopy(prf)
    comp, dec = (C.compress_fri, C.decompress_fri) if what == "fri" else (C.compress_branches, C.decompress_branches)
    c = comp(prf)
    mon.equal(prf, keep, "argument_changed", **d)
    snap = list(c)
    mon.equal(dec(c), keep, "roundtrip", **d)
    mon.equal(c, snap, "compressed_changed", **d)
    mon.equal(comp(keep), snap, "deterministic", **d)
    judge_items(mon, c, d)
    mon.equal(C.bin_length(c), sum(len(x) + (len(x) == 32) for x in c), "bin_length", **d)
    mon.event("length")
    mon.event(what)
    mon.seen(what, snap)
    return c


def run_case(spec, mon):
    rng = random.Random(spec["seed"])
    kind = spec["kind"]
    if kind == "limit":
        pool = [rng.randbytes(32) for _ in range(65000)]
        if spec["what"] == "branches":
            prf = [pool[i:i + 10] for i in range(0, 59570, 10)]     # 59570 items + 5957 ends = 65527
            prf.append([pool[0], pool[59569], pool[3]])             # 65531
            prf.append([b"new", b"new", b"----x", b"new"])          # 65536 with its end
            prf = [[pool[max(0, i - 20000)]] + b[1:] if n % 3 == 0 else b for n, (i, b) in enumerate(zip(range(0, 59570, 10), prf[:-1]))] + prf[-1:] if spec.get("far") else prf
        else:
            q = [[pool[i:i + 9] for i in range(0, 45, 9)]] * 1
            rounds = [[pool[-1], [[pool[a + b * 9:a + b * 9 + 9] for b in range(5)] for a in range(0, 57600, 45)]]]
            prf = rounds + [[pool[5], b"new", pool[57999], b"new"]]
        c = judge(mon, spec["what"], prf, dict(limit=spec["what"]))
        mon.check(60000 < len(c) <= 65536, "harness_size", n=len(c))
        return
    if kind == "wide":      # tens of thousands of items, repeated near and far
        pool, br = [rng.randbytes(rng.choice([32, 32, 32, 96])) for _ in range(rng.choice([20000, 40000, 50000]))], []
        for i in range(0, len(pool), 8):
            b = pool[i:i + 8]
            if rng.random() < .3: b[rng.randrange(8)] = pool[rng.randrange(len(pool))]
            if rng.random() < .3: b[rng.randrange(8)] = pool[rng.randrange(max(1, i))]
            br.append(b)
        if spec["what"] == "fri":
            cut = sorted(rng.sample(range(len(br)), 2))
            parts = [br[:cut[0]], br[cut[0]:cut[1]], br[cut[1]:]]
            prf = [[rng.choice(pool), [x[i:i + 5] for i in range(0, len(x), 5)]] for x in parts] + [rng.sample(pool, 16)]
        else: prf = br
        c = judge(mon, spec["what"], prf, dict(wide=spec["what"], n=len(pool)))
        mon.check(len(c) <= 65536, "harness_size", n=len(c))
        mon.event("wide")
        return
    if kind == "real":
        from starks.fri import FRI
        from starks.compression import compress_branches
        from starks.modp import IntegersModP
        from starks.polynomial import polynomials_over
        F = IntegersModP(7681)
        n, deg = (64, 32) if spec["rounds"] == 1 else (512, 128)
        f = polynomials_over(F)([rng.randrange(7681) for _ in range(deg)])
        prf = FRI(F).generate_proximity_proof(f, F(17)**((7681 - 1) // n), deg)
        judge(mon, "fri", prf, dict(real=spec["rounds"]))
        judge(mon, "branches", [b for y in prf[0][1] for b in y], dict(real=spec["rounds"]))
        mon.event("real_proof")
        return
    pool, rep = [], rng.choice([0, .1, .5, .9])
    if kind == "fri":
        prf = []
        for _ in range(rng.randint(0, 4)):
            yproofs = []
            for _ in range(rng.choice([0, 40, 41, 80, 200, 700]) if spec.get("big") else rng.randint(0, 5)):
                yp = []
                for _ in range(rng.randint(0, 5)):
                    br = [item(rng, pool, rep) for _ in range(rng.choice([0, 1, 2, 5, 9]))]
                    if not br: mon.event("empty_branch")
                    yp.append(br)
                yproofs.append(yp)
            prf.append([item(rng, pool, rep), yproofs])
        prf.append([item(rng, pool, rep) for _ in range(rng.choice([0, 1, 4, 16]))])
    else:
        prf = []
        for _ in range(rng.choice([240, 241, 300, 600, 2000, 5000]) if spec.get("big") else rng.choice([0, 1, 2, 5, 20, 60])):
            br = [item(rng, pool, rep) for _ in range(rng.choice([0, 1, 3, 8, 12]))]
            if not br: mon.event("empty_branch")
            prf.append(br)
        if prf and rng.random() < .3: prf.append(list(prf[0]))
    if spec.get("big"): mon.event("big")
    judge(mon, kind, prf, dict(kind=kind, shape=len(prf)))
    for _ in range(3):      # again with one item changed, in the same lists
        spots = [(prf[-1], i) for i in range(len(prf[-1]))] if prf else []
        if kind == "fri": spots += [(r, 0) for r in prf[:-1]]
        for br in ([br for r in prf[:-1] for y in r[1] for br in y] if kind == "fri" else prf): spots += [(br, i) for i in range(len(br))]
        if not spots: break
        o, i = rng.choice(spots)
        o[i] = item(rng, pool, rep)
        if kind == "branches" and rng.random() < .3 and len(o) > 1: o.append(o.pop(i))
        judge(mon, kind, prf, dict(kind=kind, shape=len(prf)))
        mon.event("neighbour")
