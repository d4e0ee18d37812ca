"""C25 bit and integer commitments."""
import math
import random

from vlib.core import load_misc

RULE = ("a case is one one-way permutation with a batch of bit and integer schemes of one width, their honest openings and tamperings; distinct "
        "non-trivial = distinct (commitment, opening)")
REQUIRED = {"missing_bits": 800, "bit": 1000, "int": 600, "all_values": 20, "tampered_commitment": 1500, "tampered_secret": 1500, "recommit": 800, "hiding": 40,
            "large_secret": 1000, "drawn_apart": 5, "too_large": 300}


def cases(rng, tier):
    for w in list(range(1, 13)) + [16, 31, 32, 33, 64, 100]:
        yield {"w": w, "sec": rng.choice([16, 24, 64]), "n": 12}
    for sec in (128, 256, 512):
        yield {"w": 70, "sec": sec, "n": 3}
    for _ in range(50 if tier == "quick" else 2500):
        yield {"w": rng.choice([1, 1, 2, 2, 3, 4, 8, 10, 20, 40]), "sec": rng.choice([16, 20, 32, 64, 128, 256]), "n": 12}


def run_case(spec, mon):
    bbs, com = load_misc("blum_blum_shub", "commitment")
    rng = random.Random(spec["seed"])
    sec, w = spec["sec"], spec["w"]
    f = bbs.blum_blum_shub(sec)
    h = bbs.parity
    if sec >= 128:      # the modulus shows in the squares
        M = 0
        for _ in range(12):
            x = rng.getrandbits(3 * sec)
            M = math.gcd(M, x * x - f(x))
        # an opening that can be guessed hides nothing: secrets are spread over the residues, and drawn afresh every time
        drawn = [com.BBSBitCommitmentScheme(f, h, sec).reveal() for _ in range(20000)]
        mon.equal(len(set(drawn)), len(drawn), "secrets_drawn_repeat", sec=sec)
        mon.event("drawn_apart")
    masks = {0: set(), 1: set()}
    for _ in range(60):
        s = com.BBSBitCommitmentScheme(f, h, sec)
        v = com.BBSBitCommitmentVerifier(f, h)
        got = {}
        for bit in rng.choice([(0, 1), (1, 0)]):
            c = s.commit(bit)
            secret = s.reveal()
            d = dict(bit=bit, commitment=c, secret=secret)
            mon.equal(c[0], f(secret), "image", **d)
            mon.check(v.verify(secret, c) is True, "bit_rejected", **d)
            mon.equal(v.decode(secret, c), bit, "bit_decoded", **d)
            if sec >= 128:
                mon.check(secret.bit_length() >= M.bit_length() - 64, "small_secret", modulus=M, **d)
                mon.event("large_secret")
            mon.equal(c[1], bit ^ bin(secret).count("1") % 2, "bit_mask", **d)
            mon.equal(s.commit(bit), c, "recommit_same", **d)
            got[bit] = c
            masks[bit].add(c[1])
            mon.event("bit")
            mon.seen(c, secret, bit)
        mon.check(got[0] != got[1], "commitments_equal", commitments=got)
        mon.event("recommit")
        other = f(rng.getrandbits(sec))
        for x in (secret ^ 1, secret + 1, other, 0, rng.getrandbits(sec)):
            if f(x) != c[0]:
                mon.rejects(lambda: v.verify(x, c), "other_secret_accepted", commitment=c, secret=secret, claimed=x)
                mon.event("tampered_secret")
        for x in (c[0] ^ 1, c[0] + 1, other, secret, 0):
            if x != c[0]:
                mon.rejects(lambda: v.verify(secret, (x, c[1])), "other_image_accepted", commitment=c, claimed=x)
                mon.event("tampered_commitment")
    mon.equal(masks, {0: {0, 1}, 1: {0, 1}}, "bit_not_masked", sec=sec)
    mon.event("hiding")
    ver = com.BBSIntCommitmentVerifier(w, f, h)
    values = list(range(2**w)) if w <= 3 else [0, 1, 2**w - 1, 2**(w - 1), 2**(w - 1) - 1] + [rng.getrandbits(w) for _ in range(spec["n"])]
    if w <= 3: mon.event("all_values")
    for n in (2**w, 2**w + 1, 2**(w + 1) - 1, 3 << w, rng.getrandbits(w) + (rng.getrandbits(20) + 1 << w)):
        s = com.BBSIntCommitmentScheme(w, f, h, sec)
        mon.raises(lambda: s.commit(n), "too_large_committed", width=w, n=n)
        mon.event("too_large")
    for n in values:
        s = com.BBSIntCommitmentScheme(w, f, h, sec)
        cs = s.commit(n)
        secrets = s.reveal()
        d = dict(width=w, n=n, commitments=cs, secrets=secrets)
        mon.equal((len(cs), len(secrets)), (w, w), "int_length", **d)
        mon.check(ver.verify(secrets, cs) is True, "int_rejected", **d)
        mon.equal(ver.decode(secrets, cs), n, "int_decoded", **d)
        mon.event("int")
        mon.seen(w, n, cs)
        m = rng.getrandbits(w)
        c2 = s.commit(m)
        mon.check((c2 == cs) is (m == n), "int_commitments_equal", other=m, **d)
        mon.equal(ver.decode(s.reveal(), c2), m, "int_decoded_again", other=m, **d)
        mon.event("recommit")
        if sec >= 128:
            mon.check(all(x.bit_length() >= M.bit_length() - 64 for x in secrets), "small_secret", modulus=M, **d)
            mon.event("large_secret", w)
        if sec >= 64 and w > 1:
            mon.equal(len(set(secrets)), w, "secrets_repeat", **d)
        for n2 in {0, w - 1, w // 2} - {w}:      # a number opened from some of its bits only
            mon.rejects(lambda: ver.verify(secrets[:n2], cs), "missing_secrets", n2=n2, **d)
            mon.rejects(lambda: ver.verify(secrets, cs[:n2]), "missing_commitments", n2=n2, **d)
            mon.rejects(lambda: ver.verify(secrets[:n2], cs[:n2]), "missing_bits", n2=n2, **d)
            mon.rejects(lambda: ver.verify(secrets + secrets[:1], cs + cs[:1]), "extra_bits", **d)
            mon.event("missing_bits")
        for i in sorted({0, w - 1, rng.randrange(w)}):
            bad = list(cs)
            bad[i] = (cs[i][0] ^ 1, cs[i][1])
            mon.rejects(lambda: ver.verify(secrets, bad), "int_other_image", at=i, **d)
            mon.event("tampered_commitment")
            for x in (secrets[i] + 1, secrets[i] ^ 2, f(secrets[i]), secrets[(i + 1) % w]):
                if f(x) != cs[i][0]:
                    bad = list(secrets)
                    bad[i] = x
                    mon.rejects(lambda: ver.verify(bad, cs), "int_other_secret", at=i, **d)
                    mon.event("tampered_secret")
