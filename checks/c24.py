"""C24 primality and Blum-Blum-Shub building blocks."""
import math
import random

from vlib import ref
from vlib.core import load_misc

RULE = ("a case is a range of integers, a batch of large primes and composites, a batch of random streams, or one generator; distinct non-trivial = "
        "distinct (function, argument)")
REQUIRED = {"prime_accepted": 500, "composite_rejected": 1500, "carmichael": 30, "strong_pseudoprime": 20, "square": 40, "hostile_stream": 500,
            "decompose": 1500, "good_prime": 800, "found": 60, "modulus": 30, "parity": 1000, "bbs": 800, "permutation": 8,
            "special_form": 60, "large_modulus": 5, "distinct_factors": 5, "many_liars": 2000}
CARMICHAEL = [561, 1105, 1729, 2465, 2821, 6601, 8911, 10585, 15841, 29341, 41041, 46657, 52633, 62745, 63973, 75361, 101101, 115921, 126217,
              162401, 172081, 188461, 252601, 278545, 294409, 314821, 334153, 340561, 399001, 410041, 449065, 488881, 512461, 825265, 321197185]
MERSENNE = (2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607)
STRONG = [2047, 3277, 4033, 4681, 8321, 15841, 29341, 42799, 49141, 52633, 1373653, 25326001, 3215031751, 2152302898747, 3474749660383,
          341550071728321, 3825123056546413051, 318665857834031151167461]

# products p*(k(p-1)+1)*(l(p-1)+1) which pass the test for every base below 60, 130 and 310, and for a quarter of all others
ARNAULT = [15037452335047848127092415784510222572061047560333960180416377782437776871632075277369131349501906671,
           331406173723376889623473007126395219610088808702173254347814920262580220708901326462935725416520263533406916509077073812193283813149443651724195577511695683913613732261623256079379764003,
           1692398562272654214585184162821616262279244795922554880212215190650698275917555067198989480868880093821840132376553908279824370206368896617980544648194561655107348854465824882864140162858764033749349766481224804181885112205209800928092096192155189339072551646566320784898291701619862398427218559534877664884736475331865389457859459395508677333698268353106730060345191762543898746374143247026678673865993197019467]


def cases(rng, tier):
    for a in range(-40, 4000 if tier == "quick" else 60000, 200):
        yield {"kind": "range", "a": a}
    for _ in range(24 if tier == "quick" else 600):
        yield {"kind": "big"}
    yield {"kind": "special"}
    for i in range(16): yield {"kind": "liars", "i": i}
    for b in (64, 96, 160):
        yield {"kind": "large_modulus", "b": b}
    for b in list(range(2, 15)) * (2 if tier == "quick" else 30):
        yield {"kind": "modulus", "b": b}
    for _ in range(16 if tier == "quick" else 300):
        yield {"kind": "bbs", "b": rng.choice([3, 4, 5, 6, 7, 8])}
        yield {"kind": "bbs", "b": rng.choice([10, 16, 24, 32, 64, 128, 256])}


def is_prime(n):
    if n < 2: return False
    for q in ref.SMALL:
        if n % q == 0: return n == q
    if n < 10**6: return all(n % i for i in range(2, math.isqrt(n) + 1))
    d, s = n - 1, 0
    while d % 2 == 0: d, s = d // 2, s + 1
    for a in list(range(2, 60)):        # deterministic far beyond 2^64, and no adversary chose n
        x = pow(a, d, n)
        if x in (1, n - 1): continue
        for _ in range(s - 1):
            x = x * x % n
            if x == n - 1: break
        else: return False
    return True


def gen_prime(rng, b, good=False):
    while True:
        n = rng.getrandbits(b) | 1 | 1 << b - 1 | (2 if good else 0)
        if is_prime(n): return n


class Hostile:
    """random.randint answering with the worst admissible choices (for primes every choice is fine)."""

    def __init__(self, rng): self.rng = rng

    def __call__(self, a, b):
        return self.rng.choice([a, b, (a + b) // 2, min(b, a + 1), max(a, b - 1), self.rng.randint(a, b)])


def run_case(spec, mon):
    primality, bbs = load_misc("primality", "blum_blum_shub")
    rng = random.Random(spec["seed"])

    def prime(n, want, tag=None):
        mon.check(bool(primality.probablyPrime(n)) is want, "probablyPrime", n=n, prime=want)
        mon.event("prime_accepted" if want else "composite_rejected")
        if tag: mon.event(tag)
        mon.seen("prime", n)

    def good(n, want):
        mon.check(bool(bbs.good_prime(n)) is want, "good_prime", n=n, want=want)
        mon.event("good_prime")

    def decompose(n):
        e, r = primality.decompose(n)
        mon.check(type(e) is int and e >= 0 and r % 2 == 1 and 2**e * r == n, "decompose", n=n, got=(e, r))
        mon.event("decompose")

    def parity(n):
        mon.equal(bbs.parity(n), bin(n).count("1") % 2, "parity", n=n)
        mon.event("parity")

    if spec["kind"] == "range":
        for n in range(spec["a"], spec["a"] + 200):
            if n in (-1, 0, 1, 2, 3, 4, 5, 9) or n % 2 or rng.random() < .1: prime(n, is_prime(n))
            if n > 2 and n % 4 == 3 or rng.random() < .1: good(n, n % 4 == 3 and is_prime(n))
            if n: decompose(n)
            if n >= 0: parity(n)
        return
    if spec["kind"] == "liars":
        n = ARNAULT[1 if spec["i"] < 2 else 2 if spec["i"] < 4 else 0]
        for _ in range(150):
            prime(n, False, "many_liars")
            good(n, False)
        return
    if spec["kind"] == "big":
        for n in rng.sample(CARMICHAEL, 6): prime(n, False, "carmichael")
        for n in rng.sample(STRONG, 4): prime(n, False, "strong_pseudoprime")
        for _ in range(8):
            p = gen_prime(rng, rng.choice([20, 31, 40, 64, 100, 160, 256]))
            prime(p, True)
            good(p, p % 4 == 3)
            prime(p * p, False, "square")
            good(p * p, False)
            q = gen_prime(rng, rng.choice([20, 40, 64, 128]))
            prime(p * q, False)
            good(p * q, False)
            prime(p * rng.choice([3, 5, 7]), False)
            prime(-p, False)
            prime(p + 1, False)
            k = rng.getrandbits(60)     # Chernick's Carmichael numbers when the three factors are prime
            decompose((2 * k + 1) << rng.randrange(200))
            decompose(-rng.getrandbits(80) - 1)
            parity(rng.getrandbits(rng.choice([8, 64, 600, 1030, 2100, 5000])))
        for p in ref.BIG[:6] + ref.MEDIUM[:6]: prime(p, True)
        while True:
            k = rng.getrandbits(rng.choice([8, 12, 16]))
            fs = [6 * k + 1, 12 * k + 1, 18 * k + 1]
            if k and all(is_prime(f) for f in fs): break
        prime(fs[0] * fs[1] * fs[2], False, "carmichael")
        # any stream of candidate witnesses accepts a prime
        saved = random.randint
        random.randint = Hostile(random.Random(spec["seed"]))
        try:
            for p in [q for q in ref.SMALL if q > 3] + [gen_prime(rng, rng.choice([8, 16, 64, 128])) for _ in range(12)]:
                mon.check(bool(primality.probablyPrime(p)), "prime_rejected_by_a_witness", p=p)
                mon.check(bool(primality.probablyPrime(p, accuracy=rng.randint(1, 200))), "prime_rejected_by_a_witness", p=p)
                mon.event("hostile_stream", 2)
        finally:
            random.randint = saved
        return
    if spec["kind"] == "special":      # exponents that make the bases behave alike: Mersenne and Fermat numbers
        for q in range(2, 620):
            if not is_prime(q) or q < 250 and rng.random() < .7: continue
            n = 2**q - 1
            want = q in MERSENNE
            prime(n, want, "special_form")
            good(n, want and n % 4 == 3)
            if q < 200 and rng.random() < .3: prime(n * n, False, "special_form")
        for k in range(10):
            prime(2**2**k + 1, k < 5, "special_form")
            good(2**2**k + 1, k == 0)
        for q in (1279, 2203): prime(2**q - 1, True, "special_form")
        for a, b in ((521, 607), (127, 521), (89, 127), (107, 107)): prime((2**a - 1) * (2**b - 1), False, "special_form")
        return
    if spec["kind"] == "large_modulus":
        for _ in range(2):
            p = bbs.find_good_prime(spec["b"])
            mon.check(0 < p < 2**spec["b"] and p % 4 == 3 and is_prime(p), "find_good_prime", bits=spec["b"], got=p)
            M = bbs.make_modulus(spec["b"])
            mon.check(M % 4 == 1 and M < 2**(2 * spec["b"]) and not is_prime(M), "make_modulus", bits=spec["b"], got=M)
            mon.check(math.isqrt(M)**2 != M, "modulus_is_a_square", bits=spec["b"], got=M)
            mon.check(all(M % q for q in ref.SMALL if q % 4 == 1), "modulus_factor", bits=spec["b"], got=M)
            mon.event("large_modulus")
            mon.event("distinct_factors")
            mon.seen("modulus", M)
        return
    if spec["kind"] == "modulus":
        b = spec["b"]
        for _ in range(3):
            p = bbs.find_good_prime(b)
            mon.check(0 < p < 2**b and p % 4 == 3 and is_prime(p), "find_good_prime", bits=b, got=p)
            mon.event("found")
            M = bbs.make_modulus(b)
            mon.check(factors_well(M, b), "make_modulus", bits=b, got=M)
            mon.event("modulus")
            mon.seen("modulus", M)
        return
    b = spec["b"]
    f = bbs.blum_blum_shub(b)
    # the modulus shows in the squares: x^2 - f(x) is a multiple of it
    M = 0
    xs = [rng.getrandbits(3 * b + 8) for _ in range(40)]
    out = [f(x) for x in xs]
    for x, y in zip(xs, out): M = math.gcd(M, x * x - y)
    if b <= 32: mon.check(factors_well(M, b), "generator_modulus", bits=b, got=M)
    else: mon.check(M % 4 == 1 and M < 2**(2 * b) and not is_prime(M), "generator_modulus", bits=b, got=M)
    if b >= 64:
        mon.check(math.isqrt(M)**2 != M, "modulus_is_a_square", bits=b, got=M)
        mon.event("distinct_factors")
    for x, y in zip(xs + [0, 1, M - 1, M, M + 1, M - 2], out + [None] * 6):
        mon.equal(f(x), x * x % M, "square", M=M, x=x)
        if y is not None: mon.equal(y, x * x % M, "square_repeat", M=M, x=x)
        mon.event("bbs")
        mon.seen("bbs", M, x)
    if b <= 8:
        qr = {x * x % M for x in range(1, M) if math.gcd(x, M) == 1}
        mon.equal({f(x) for x in qr}, qr, "permutes_quadratic_residues", M=M)
        mon.event("permutation")


def factors_well(M, b):
    n, fs = M, []
    if M > 10**9:
        from sympy import factorint
        fs = [p for p, e in factorint(M).items() for _ in range(e)]
    else:
        d = 2
        while n > 1 and d * d <= n:
            while n % d == 0: n, fs = n // d, fs + [d]
            d += 1
        if n > 1: fs.append(n)
    return len(fs) == 2 and all(p % 4 == 3 and is_prime(p) and p < 2**b for p in fs)
