"""C28 ledger histories, tampered chains, hashes and proofs of work."""
import copy
import hashlib
import math
import json
import random

from vlib.core import load_misc

RULE = ("a case is one ledger history (transactions, blocks, mining) with every single-field tampering and splice of its chain, or a batch of hashes and "
        "proofs; distinct non-trivial = distinct chains and tamperings")
REQUIRED = {"near_values": 5000, "mined": 60, "transaction": 800, "announced": 500, "tampered": 1200, "invalid": 800, "still_valid": 20, "hash": 2000, "proof": 1500,
            "proof_of_work": 60, "same_proof": 40, "full_block": 15,
            "long_chain": 5, "broken_link": 150, "broken_proof": 50, "far_proof": 60}


def cases(rng, tier):
    for i in range(24 if tier == "quick" else 900):
        yield {"kind": "mine", "blocks": rng.randint(2, 5)}
        yield {"kind": "ledger"}
        if i % 4 == 0: yield {"kind": "ledger", "many": True}
        yield {"kind": "hash"}
    for n in (70, 40, 33, 28, 24) if tier == "quick" else [rng.randrange(10, 140) for _ in range(40)]:
        yield {"kind": "long", "blocks": n}


def value(rng, depth=0):
    r = rng.random()
    if r < .35: return rng.choice([0, 1, -1, 7, 10**30, rng.random(), 2.5, True, False, None])
    if r < .75 or depth > 1: return rng.choice(["", "a", "bob", "\u00e9\u4e2d", "0", "%x" % rng.getrandbits(128), 'q"\\u0041'])
    if r < .88: return [value(rng, depth + 1) for _ in range(rng.randrange(3))]
    return {rng.choice("abcxyz"): value(rng, depth + 1) for _ in range(rng.randrange(3))}


def twins(rng):
    """Two values that are easily taken for the same one."""
    s, k, f = "%x" % rng.getrandbits(60), rng.getrandbits(70), rng.random() * 10**rng.randint(-9, 12)
    return rng.choice([(s + " " + s, s + s), (s, s + " "), (s, " " + s), (s, s + "\n"), ("Bob" + s, "bob" + s), ("\u00e9" + s, "e" + s), ("\u00e9", "e\u0301"),
                       ("\u4e2d", "\u4e2e"), ("\u4e2d", "?"), ("\u00e9", ""), (k, str(k)), (k, k + 1), (2**53, 2**53 + 1), (f, math.nextafter(f, 9e99)), (f, math.nextafter(f, 0)), (f, str(f)),
                       (None, "None"), (None, "null"), (None, ""), (None, 0), ("", 0), (True, "True"), (True, "true"), (False, None), ([s, k], [s + "," + str(k)]), ([], {}), ([], ""),
                       ([[]], []), ({}, {"a": None}), ([1, 23], [12, 3]), ([s, ""], [s]), ({"a": {"b": 1}}, {"b": {"a": 1}}), ({"a": 1, "b": 2}, {"a": 2, "b": 1}), ([1, 2], [2, 1]),
                       (k, -k), (s * 40 + "a", s * 40 + "b"), ("a" + s * 40, "b" + s * 40), ("0" + str(k), str(k)), (s, s[::-1]), ("\\u0041", "A"), ('"', "'"), ("a\x00b", "ab"), (10**30, 1e30)])


def passes(last_proof, proof, last_hash):
    return hashlib.sha256(("%s%s%s" % (last_proof, proof, last_hash)).encode()).hexdigest().startswith("0000")


def valid(bc, chain):
    return all(b["previous_hash"] == bc.hash(a) and passes(a["proof"], b["proof"], bc.hash(a)) for a, b in zip(chain, chain[1:]))


def run_case(spec, mon):
    (B,) = load_misc("blockchain")
    rng = random.Random(spec["seed"])
    if spec["kind"] == "hash":
        return hashes(spec, mon, B.Blockchain, rng)
    if spec["kind"] == "long": return long(spec["blocks"], B, rng, mon)
    bc = B.Blockchain()
    mon.equal((len(bc.chain), bc.chain[0]["index"], bc.chain[0]["transactions"]), (1, 1, []), "genesis")
    genesis = copy.deepcopy(bc.chain[0])
    expected, pending, announced = {1: []}, [], {}
    frozen = [copy.deepcopy(bc.chain[0])]

    def tx():
        t = [value(rng), value(rng), value(rng)]
        if rng.random() < .3 and pending: t = list(rng.choice(pending))     # equal transactions are still separate ones
        keep = copy.deepcopy(t)
        at = bc.new_transaction(*t)
        mon.equal(at, len(expected) + 1, "announced_index", t=t)
        pending.append(keep)
        mon.event("transaction")

    def block(mine):
        nonlocal pending
        last = bc.last_block
        mon.equal(last, bc.chain[-1], "last_block")
        if mine:
            proof = bc.proof_of_work(last)
            h = bc.hash(last)
            want = 0
            while not passes(last["proof"], want, h): want += 1
            mon.equal(proof, want, "proof_of_work", last=last)
            mon.event("proof_of_work")
            # other blocks with the same proof, index or link: their own work has to be done
            for key, v in (("timestamp", last["timestamp"] + 1), ("transactions", last["transactions"] + [{"sender": 1, "recipient": 2, "amount": 3}]), ("proof", last["proof"] + 1))[:1 + rng.randrange(3)]:
                other = dict(last, **{key: v})
                got, g = bc.proof_of_work(other), bc.hash(other)
                mon.check(passes(other["proof"], got, g) and not any(passes(other["proof"], q, g) for q in range(got)), "proof_of_work", last=other, got=got)
                mon.event("same_proof")
            mon.event("mined")
            prev = rng.choice([h, None])
        else:
            proof, prev = rng.randrange(10**6), rng.choice([bc.hash(last), None, None])
        b = bc.new_block(proof, prev)
        expected[len(expected) + 1] = pending
        if pending: mon.event("announced", len(pending))
        pending = []
        mon.equal(b, bc.chain[-1], "returned_block")
        mon.equal(b["proof"], proof, "block_proof")
        frozen.append(copy.deepcopy(b))

    def ledger():
        mon.equal(bc.chain, frozen, "earlier_block_changed")
        mon.equal([b["index"] for b in bc.chain], list(range(1, len(expected) + 1)), "indices")
        for a, b in zip(bc.chain, bc.chain[1:]):
            mon.equal(b["previous_hash"], bc.hash(a), "previous_hash", index=b["index"])
        for b in bc.chain:
            mon.equal([[t["sender"], t["recipient"], t["amount"]] for t in b["transactions"]], expected[b["index"]], "transactions", index=b["index"])
        ts = [b["timestamp"] for b in bc.chain]
        mon.check(all(isinstance(t, (int, float)) for t in ts) and ts == sorted(ts), "timestamps", ts=ts)

    for _ in range(4 if "many" in spec else spec.get("blocks") or rng.randint(3, 25)):
        size = rng.choice([60, 70, 110, 140, 260, 300, 520]) if "many" in spec else rng.choice([0, 1, 2, 3, 8, 12] if spec["kind"] == "mine" else [0, 1, 2, 3, 8])
        for _ in range(size): tx()
        mon.event("full_block", size > 50)
        block(spec["kind"] == "mine")
        ledger()
    mon.equal(bc.chain[0], genesis, "genesis_changed")
    if spec["kind"] != "mine":
        return
    chain = bc.chain
    mon.check(bc.valid_chain(chain) is True, "valid_chain_rejected", chain=chain)
    mon.check(bc.valid_chain(json.loads(json.dumps(chain))) is True, "valid_copy_rejected", chain=chain)
    mon.check(bc.valid_chain(chain[:1]) is True, "genesis_rejected")
    mon.seen(chain)
    n = len(chain)

    def judge(c, what, must=None):
        want = valid(bc, c)
        if must is not None: mon.equal(want, must, "oracle", what=what)     # the hash must have caught it
        got = bc.valid_chain(c)
        mon.check(bool(got) is want, "valid_chain", what=what, want=want, chain=c)
        mon.event("tampered")
        mon.event("still_valid" if want else "invalid")
        mon.seen(what, c)

    for i in range(n):
        for key in list(chain[i]) + ["extra"]:
            c = copy.deepcopy(chain)
            old = c[i].get(key)
            if key == "transactions":
                for edit in ("append", "drop", "amount", "swap"):
                    c = copy.deepcopy(chain)
                    t = c[i]["transactions"]
                    if edit == "append": t.append({"sender": "x", "recipient": "y", "amount": 1})
                    elif edit == "drop" and t: del t[rng.randrange(len(t))]
                    elif edit == "amount" and t: t[rng.randrange(len(t))][rng.choice(["sender", "recipient", "amount"])] = "tampered"
                    elif edit == "swap" and len(t) > 1 and t[0] != t[-1]: t[0], t[-1] = t[-1], t[0]
                    if c != chain: judge(c, (i, key, edit), False if i < n - 1 else None)
                continue
            c[i][key] = {"index": old and old + 1 if key == "index" else None, "timestamp": key == "timestamp" and old + 1e-3,
                         "proof": key == "proof" and old + rng.choice([1, -1, 100]), "previous_hash": "0" * 64, "extra": 1}[key]
            judge(c, (i, key), False if i < n - 1 else None)
        c = copy.deepcopy(chain)
        del c[i]
        if c: judge(c, (i, "dropped"), False if 0 < i < n - 1 else True)
        judge(chain[:i + 1], (i, "prefix"), True)
        for extra in (chain[i], chain[0], dict(chain[i], index=99)):
            c = copy.deepcopy(chain)
            c.insert(i + 1, copy.deepcopy(extra))
            judge(c, (i, "inserted"), False)
        for j in range(i):
            c = copy.deepcopy(chain)
            c[i], c[j] = c[j], c[i]
            judge(c, (i, j, "swapped"), False)
    # a block rebuilt on a tampered one: the link is right, the proof is not (or the other way round)
    for i in range(1, n):
        c = copy.deepcopy(chain)
        c[i - 1]["timestamp"] += 1
        for k in range(i, n): c[k]["previous_hash"] = bc.hash(c[k - 1])
        judge(c, (i, "relinked"), None)
        c = copy.deepcopy(chain)
        c[i]["proof"] += 1
        for k in range(i + 1, n): c[k]["previous_hash"] = bc.hash(c[k - 1])
        judge(c, (i, "other proof, relinked"), None)
    mon.equal(bc.chain, frozen, "validation_changed_the_chain")


def hashes(spec, mon, bc, rng):
    def blk():
        return {"index": rng.randrange(1, 1000), "timestamp": rng.random() * 1e9, "transactions": [
            {"sender": value(rng), "recipient": value(rng), "amount": value(rng)} for _ in range(rng.randrange(4))],
            "proof": rng.randrange(10**6), "previous_hash": "%064x" % rng.getrandbits(256)}

    def shuffled(x):
        if isinstance(x, dict):
            ks = list(x)
            rng.shuffle(ks)
            return {k: shuffled(x[k]) for k in ks}
        return [shuffled(y) for y in x] if isinstance(x, list) else x

    seen = {}
    for _ in range(40):
        b = blk()
        keep = copy.deepcopy(b)
        h = bc.hash(b)
        mon.check(type(h) is str and len(h) == 64 and int(h, 16) >= 0, "hash_format", got=h)
        mon.equal(bc.hash(shuffled(b)), h, "key_order", block=b)
        mon.equal(bc.hash(json.loads(json.dumps(b))), h, "hash_of_copy", block=b)
        mon.equal(b, keep, "block_changed")
        for key in b:
            c = copy.deepcopy(b)
            if key == "transactions":
                if c[key] and rng.random() < .7: c[key][0][rng.choice(["sender", "recipient", "amount"])] = "another"
                else: c[key].append({"sender": 1, "recipient": 2, "amount": 3})
            elif key == "previous_hash":
                p = rng.randrange(64)
                c[key] = c[key][:p] + ("0" if c[key][p] != "0" else "1") + c[key][p + 1:]
            else: c[key] += 1
            mon.check(bc.hash(c) != h, "field_ignored", field=key, block=b)
            mon.event("hash")
        # two blocks which differ in one easily mistaken value
        for _ in range(6):
            v, w = twins(rng)
            if v == w: continue
            c = copy.deepcopy(b)
            c["transactions"].insert(rng.randrange(len(c["transactions"]) + 1), {"sender": "s", "recipient": "r", "amount": 1})
            t = rng.choice(["sender", "recipient", "amount"])
            e = copy.deepcopy(c)
            i = c["transactions"].index({"sender": "s", "recipient": "r", "amount": 1})
            c["transactions"][i][t], e["transactions"][i][t] = v, w
            mon.check(bc.hash(c) != bc.hash(e), "near_values_same_hash", field=t, a=v, b=w)
            mon.event("near_values")
        for key, v in (("timestamp", math.nextafter(b["timestamp"], 9e99)), ("timestamp", b["timestamp"] + 1e-6), ("index", str(b["index"])), ("proof", str(b["proof"])),
                       ("proof", -b["proof"] - 1), ("previous_hash", b["previous_hash"].upper() + "A"), ("previous_hash", b["previous_hash"] + " "), ("transactions", None), ("transactions", {})):
            mon.check(bc.hash({**b, key: v}) != h, "near_values_same_hash", field=key, a=b[key], b=v)
            mon.event("near_values")
        d = dict(b)
        del d[rng.choice(list(d))]
        mon.check(bc.hash(d) != h, "missing_field_ignored", block=b)
        s = json.dumps(b, sort_keys=True)
        mon.check(seen.setdefault(h, s) == s, "collision", h=h)
        mon.event("hash")
        mon.seen(h)
    for _ in range(60):
        lp, p = rng.randrange(10**rng.randint(1, 9)), rng.randrange(10**rng.randint(1, 9))
        h = "%064x" % rng.getrandbits(256)
        mon.check(bc.valid_proof(lp, p, h) is passes(lp, p, h), "valid_proof", lp=lp, p=p, h=h)
        mon.event("proof")
    # proofs one nibble short of passing, and passing ones
    near = 0
    h = "%064x" % rng.getrandbits(256)
    for p in range(60000):
        g = hashlib.sha256(("%s%s%s" % (100, p, h)).encode()).hexdigest()
        if g.startswith("000") or g[1:5] == "0000" or g.endswith("0000"):
            mon.check(bc.valid_proof(100, p, h) is (g[:4] == "0000"), "valid_proof", lp=100, p=p, h=h, digest=g)
            mon.event("proof")
            near += 1
            if near > 12: break


def mine(rng, last, h, bad=False):
    """A proof that passes (or, if bad, one that falls short in its fourth digit), from an arbitrary starting point."""
    p = rng.choice([0, 0, 10**7, 2**31, 2**32, 10**12, 2**64, 10**20]) + rng.randrange(1000)
    while True:
        g = hashlib.sha256(("%s%s%s" % (last, p, h)).encode()).hexdigest()
        if g.startswith("000") and (g[3] != "0" if bad else g[3] == "0"): return p
        p += 1


def long(n, B, rng, mon):
    """A long chain, and forks of it in which exactly one link is wrong, in its hash or in its proof."""
    bc = B.Blockchain()
    expected = [[]]
    for i in range(2, n + 1):
        txs = [[value(rng), value(rng), value(rng)] for _ in range(rng.choice([0, 0, 1, 3, 10, 20]))]
        expected.append(copy.deepcopy(txs))
        for t in txs: mon.equal(bc.new_transaction(*t), i, "announced_index", t=t)
        last = bc.last_block
        p = mine(rng, last["proof"], bc.hash(last))
        mon.check(bc.valid_proof(last["proof"], p, bc.hash(last)) is True, "valid_proof", last=last, p=p)
        mon.event("far_proof", p >= 10**7)
        bc.new_block(p, rng.choice([None, bc.hash(last)]))
    chain = bc.chain
    mon.equal([b["index"] for b in chain], list(range(1, n + 1)), "indices")
    mon.equal([[[t["sender"], t["recipient"], t["amount"]] for t in b["transactions"]] for b in chain], expected, "transactions")
    keep = copy.deepcopy(chain)
    mon.check(bc.valid_chain(chain) is True, "valid_chain_rejected", blocks=n)
    mon.check(B.Blockchain().valid_chain(json.loads(json.dumps(chain))) is True, "valid_copy_rejected", blocks=n)
    mon.event("long_chain")

    def judge(c, want, what):
        mon.equal(valid(bc, c), want, "oracle", what=what)
        mon.check(bool(bc.valid_chain(c)) is want, "valid_chain", what=what, want=want, chain=c[-4:], blocks=len(c))
        mon.event("still_valid" if want else "invalid")
        mon.seen(what, c)

    def extend(c, k):
        c = list(c)
        for _ in range(k):
            h = bc.hash(c[-1])
            c.append({"index": len(c) + 1, "timestamp": c[-1]["timestamp"] + 1, "transactions": [{"sender": "a", "recipient": "b", "amount": k} for k in range(rng.choice([0, 0, 9, 40]))], "proof": mine(rng, c[-1]["proof"], h),
                      "previous_hash": h})
        return c

    judge(chain, True, "whole")
    judge(extend(chain, 2), True, "extended")
    links = sorted({1, 2, n - 1, n - 2} | set(rng.sample(range(1, n), min(n - 1, 12))))
    for i in links:
        prev, h = chain[i - 1], bc.hash(chain[i - 1])
        # the hash wrong in one digit (or of another kind), the proof right for the block it stands on
        at = rng.choice([0, 1, 31, 62, 63, 63, rng.randrange(64)])
        wrong = rng.choice([h[:at] + rng.choice([x for x in "0123456789abcdef" if x != h[at]]) + h[at + 1:]] * 3
                           + [h.upper() if h != h.upper() else "0" * 64, h[:-1], h + "0", "", None, bc.hash(chain[max(0, i - 2)]) if i > 1 else "1"])
        if wrong != h:
            b = dict(chain[i], previous_hash=wrong, proof=chain[i]["proof"])
            judge(extend(chain[:i] + [b], rng.choice([0, 1, 1, 2])), False, ("link", i))
            mon.event("broken_link")
        b = dict(chain[i], proof=mine(rng, prev["proof"], h, bad=True))
        judge(extend(chain[:i] + [b], rng.choice([0, 1, 1, 3])), False, ("proof", i))
        mon.event("broken_proof")
        b = dict(chain[i], proof=mine(rng, prev["proof"], h))
        judge(extend(chain[:i] + [b], 1), True, ("another proof", i))
        # one field of an earlier block, the rest as it was
        c = copy.deepcopy(chain)
        key = rng.choice(["proof", "timestamp", "index"])
        c[i - 1][key] += rng.choice([1, -1, 10**7, 10**12]) if key != "timestamp" else 1
        judge(c, False, ("field", i - 1, key))
        mon.event("tampered", 3)
    for i in range(1, n):
        c = list(chain)
        c[i] = dict(c[i], previous_hash=c[i]["previous_hash"][:-1] + ("0" if c[i]["previous_hash"][-1] != "0" else "1"))
        judge(c, False, ("last digit", i))
        mon.event("tampered")
        mon.event("broken_link")
    mon.equal(bc.chain, keep, "validation_changed_the_chain")
