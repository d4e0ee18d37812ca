"""Reference mathematics on plain ints, tuples and Fractions. Shares no code with the repository."""
from fractions import Fraction

P256 = 2**256 - 2**32 * 351 + 1
SMALL = [2, 3, 5, 7, 11, 13, 31]
MEDIUM = [97, 101, 127, 193, 257, 337, 769, 7681, 12289, 40961, 65537, 786433]
BIG = [2**31 - 1, 2**61 - 1, 2**89 - 1, 2**127 - 1, 2**255 - 19, P256]


def is_prime(n):
    """Deterministic trial division / Miller-Rabin with fixed bases (exact below 3.3e24)."""
    if n < 2:
        return False
    for q in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        if n % q == 0:
            return n == q
    d, e = n - 1, 0
    while d % 2 == 0:
        d //= 2
        e += 1
    for a in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41):
        x = pow(a, d, n)
        if x in (1, n - 1):
            continue
        for _ in range(e - 1):
            x = x * x % n
            if x == n - 1:
                break
        else:
            return False
    return True


def prime_factors(n):
    out, d = [], 2
    while d * d <= n:
        if n % d == 0:
            out.append(d)
            while n % d == 0:
                n //= d
        d += 1 if d == 2 else 2
    if n > 1:
        out.append(n)
    return out


class RZ:
    """Z/p, elements are ints in [0, p)."""

    def __init__(self, p):
        self.p, self.m, self.size = p, 1, p
        self.zero, self.one = 0, 1 % p

    def int(self, n): return n % self.p
    def add(self, a, b): return (a + b) % self.p
    def sub(self, a, b): return (a - b) % self.p
    def mul(self, a, b): return a * b % self.p
    def neg(self, a): return -a % self.p

    def inv(self, a):
        if a == 0:
            raise ZeroDivisionError
        return pow(a, -1, self.p)

    def pow(self, a, n): return pow(a, n, self.p)
    def all(self): return range(self.p)

    def rand(self, rng):
        r = rng.random()
        if r < .12: return 0
        if r < .2: return 1 % self.p
        if r < .28: return self.p - 1
        if r < .32: return 2 % self.p
        if r < .38: return (2**rng.randrange(self.p.bit_length()) + rng.choice([0, 0, -1, 1])) % self.p
        return rng.randrange(self.p)

    def randnz(self, rng):
        while True:
            a = self.rand(rng)
            if a != self.zero:
                return a


class RF:
    """F_{p^m} = (Z/p)[x]/(mod); elements are tuples of m ints, mod has m+1 coefficients."""

    def __init__(self, p, mod):
        self.p, self.mod, self.m = p, tuple(mod), len(mod) - 1
        self.base = RZ(p)
        self.size = p**self.m
        self.zero = (0,) * self.m
        self.one = self.int(1)

    def norm(self, coeffs):
        r = pmod(self.base, ptrim(self.base, [c % self.p for c in coeffs]), self.mod)
        return tuple(r) + (0,) * (self.m - len(r))

    def int(self, n): return self.norm([n % self.p])
    def add(self, a, b): return tuple((x + y) % self.p for x, y in zip(a, b))
    def sub(self, a, b): return tuple((x - y) % self.p for x, y in zip(a, b))
    def neg(self, a): return tuple(-x % self.p for x in a)

    def mul(self, a, b):
        out = [0] * (2 * self.m - 1)
        for i, x in enumerate(a):
            if x:
                for j, y in enumerate(b):
                    out[i + j] += x * y
        out = [c % self.p for c in out]
        lead = pow(self.mod[-1], -1, self.p)
        for i in range(len(out) - 1, self.m - 1, -1):
            c = out[i] * lead % self.p
            if c:
                for j in range(self.m + 1):
                    out[i - self.m + j] = (out[i - self.m + j] - c * self.mod[j]) % self.p
        return tuple(out[:self.m])

    def pow(self, a, n):
        r, b = self.one, a
        while n:
            if n & 1:
                r = self.mul(r, b)
            b = self.mul(b, b)
            n >>= 1
        return r

    def inv(self, a):
        if a == self.zero:
            raise ZeroDivisionError
        return self.pow(a, self.size - 2)

    def num(self, a):
        return sum(c * self.p**i for i, c in enumerate(a))

    def unnum(self, n):
        out = []
        for _ in range(self.m):
            out.append(n % self.p)
            n //= self.p
        return tuple(out)

    def all(self): return (self.unnum(i) for i in range(self.size))

    def rand(self, rng):
        r = rng.random()
        if r < .1: return self.zero
        if r < .18: return self.one
        if r < .26: return self.unnum(rng.randrange(self.p))
        if r < .32: return self.unnum(self.size - 1)
        if r < .40: return self.unnum(self.p ** rng.randrange(self.m))
        return self.unnum(rng.randrange(self.size))

    randnz = RZ.randnz


class RQ:
    """The rationals."""
    p = m = 0
    zero, one = Fraction(0), Fraction(1)

    def int(self, n): return Fraction(n)
    def add(self, a, b): return a + b
    def sub(self, a, b): return a - b
    def mul(self, a, b): return a * b
    def neg(self, a): return -a
    def inv(self, a): return 1 / a
    def pow(self, a, n): return a**n

    def rand(self, rng):
        if rng.random() < .15: return Fraction(0)
        if rng.random() < .4: return Fraction(rng.randint(-5, 5))
        return Fraction(rng.randint(-30, 30), rng.randint(1, 12))

    randnz = RZ.randnz


# univariate polynomials: lists of ring elements, no trailing zeros
def ptrim(R, a):
    a = list(a)
    while a and a[-1] == R.zero:
        a.pop()
    return a


def padd(R, a, b):
    n = max(len(a), len(b))
    z = R.zero
    return ptrim(R, [R.add(a[i] if i < len(a) else z, b[i] if i < len(b) else z) for i in range(n)])


def pneg(R, a): return [R.neg(x) for x in a]
def psub(R, a, b): return padd(R, a, pneg(R, b))
def pscale(R, a, c): return ptrim(R, [R.mul(x, c) for x in a])


def pmul(R, a, b):
    if not a or not b:
        return []
    out = [R.zero] * (len(a) + len(b) - 1)
    for i, x in enumerate(a):
        if x != R.zero:
            for j, y in enumerate(b):
                out[i + j] = R.add(out[i + j], R.mul(x, y))
    return ptrim(R, out)


def pdivmod(R, a, b):
    b = ptrim(R, b)
    if not b:
        raise ZeroDivisionError
    r = ptrim(R, a)
    q = [R.zero] * max(0, len(r) - len(b) + 1)
    il = R.inv(b[-1])
    for k in range(len(r) - len(b), -1, -1):
        c = R.mul(r[k + len(b) - 1], il)
        q[k] = c
        if c != R.zero:
            for j, y in enumerate(b):
                r[k + j] = R.sub(r[k + j], R.mul(c, y))
    return ptrim(R, q), ptrim(R, r)


def pmod(R, a, b): return pdivmod(R, a, b)[1]


def ppow(R, a, n):
    out = [R.one]
    for _ in range(n):
        out = pmul(R, out, a)
    return ptrim(R, out)


def ppowmod(R, a, n, m):
    out, b = pmod(R, [R.one], m), pmod(R, a, m)
    while n:
        if n & 1:
            out = pmod(R, pmul(R, out, b), m)
        b = pmod(R, pmul(R, b, b), m)
        n >>= 1
    return out


def peval(R, a, x):
    y = R.zero
    for c in reversed(a):
        y = R.add(R.mul(y, x), c)
    return y


def pcompose(R, a, g):
    y = []
    for c in reversed(a):
        y = padd(R, pmul(R, y, g), ptrim(R, [c]))
    return y


def pmonic(R, a):
    return pscale(R, a, R.inv(a[-1])) if a else []


def pgcd(R, a, b):
    a, b = ptrim(R, a), ptrim(R, b)
    while b:
        a, b = b, pmod(R, a, b)
    return pmonic(R, a)


def proots(R, xs):
    out = [R.one]
    for x in xs:
        out = pmul(R, out, [R.neg(x), R.one])
    return out


def pinterp(R, xs, ys):
    """Newton interpolation (a different algorithm from the library's)."""
    n = len(xs)
    c = list(ys)
    for j in range(1, n):
        for i in range(n - 1, j - 1, -1):
            c[i] = R.mul(R.sub(c[i], c[i - 1]), R.inv(R.sub(xs[i], xs[i - j])))
    out = []
    for i in range(n - 1, -1, -1):
        out = padd(R, pmul(R, out, [R.neg(xs[i]), R.one]), ptrim(R, [c[i]]))
    return out


def is_irreducible(p, f):
    """Ben-Or style test by distinct-degree gcds on ints; f monic list."""
    R = RZ(p)
    f = ptrim(R, f)
    n = len(f) - 1
    if n < 1:
        return False
    h = pmod(R, [0, 1], f)
    for _ in range(n // 2):
        h = ppowmod(R, h, p, f)
        if len(pgcd(R, f, psub(R, h, [0, 1]))) > 1:
            return False
    return True


def is_primitive(p, f):
    R = RZ(p)
    n = len(f) - 1
    if not is_irreducible(p, f) or f[0] == 0:
        return False
    q = p**n - 1
    one = pmod(R, [1], f)
    return all(ppowmod(R, [0, 1], q // s, f) != one for s in prime_factors(q))


def find_irreducible(p, m, rng, primitive=False):
    while True:
        f = [rng.randrange(p) for _ in range(m)] + [1]
        if is_irreducible(p, f) and (not primitive or is_primitive(p, f)):
            return f


# multivariate polynomials: dict {tuple: ring element}, no zero values
def mtrim(R, a): return {k: v for k, v in a.items() if v != R.zero}


def madd(R, a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = R.add(out.get(k, R.zero), v)
    return mtrim(R, out)


def mneg(R, a): return {k: R.neg(v) for k, v in a.items()}
def msub(R, a, b): return madd(R, a, mneg(R, b))


def mmul(R, a, b):
    out = {}
    for k, v in a.items():
        for l, w in b.items():
            t = tuple(x + y for x, y in zip(k, l))
            out[t] = R.add(out.get(t, R.zero), R.mul(v, w))
    return mtrim(R, out)


def mpow(R, a, n, nv):
    out = mtrim(R, {(0,) * nv: R.one})
    for _ in range(n):
        out = mmul(R, out, a)
    return out


def meval(R, a, xs):
    y = R.zero
    for k, v in a.items():
        t = v
        for x, e in zip(xs, k):
            t = R.mul(t, R.pow(x, e))
        y = R.add(y, t)
    return y


def mdeg(a): return max([sum(k) for k in a], default=0)
