"""A Kit pairs one type of the library with the reference ring that says what it must do."""
from fractions import Fraction

from vlib import ref


class Kit:
    """kind: Z (Z/p), F (extension field), Qp (Q/p), Q (Fraction)."""

    def __init__(self, kind, p=0, mod=None):
        self.kind, self.p, self.mod = kind, p, mod
        if kind == "Z":
            from starks.modp import IntegersModP
            self.T, self.R = IntegersModP(p), ref.RZ(p)
        elif kind == "F":
            from starks.finitefield import FiniteField
            from starks.modp import IntegersModP
            from starks.polynomial import polynomials_over
            self.R = ref.RF(p, mod)
            base = polynomials_over(IntegersModP(p))
            self.T = FiniteField(p, len(mod) - 1, polynomialModulus=base(list(mod)))
        elif kind == "Qp":
            from starks.rationals_modp import RationalsModP
            self.T, self.R = RationalsModP(p), ref.RZ(p)
        elif kind == "Q":
            self.T, self.R = Fraction, ref.RQ()

    def lib(self, a, rng=None):
        """A library element denoting the reference element a."""
        if self.kind == "Z":
            return self.T(a)
        if self.kind == "F":
            return self.T(list(a))
        if self.kind == "Qp":
            if rng is None or rng.random() < .3:
                return self.T(a)
            d = self.R.randnz(rng)
            return self.T(a * d % self.p, d)
        return a

    def val(self, x):
        """The reference element a library value denotes; raises ValueError if it is not canonical."""
        k = self.kind
        if k == "Q":
            if not isinstance(x, (Fraction, int)):
                raise ValueError("not a rational: %r" % (x,))
            return Fraction(x)
        if type(x) is int:
            return self.R.int(x)
        if type(x) is not self.T:
            raise ValueError("type %s instead of %s" % (type(x), self.T))
        if k == "Z":
            n = int(x)
            if type(n) is not int or not 0 <= n < self.p:
                raise ValueError("residue %r not in [0,%d)" % (n, self.p))
            return n
        if k == "Qp":
            if x.n % self.p == 0:
                raise ValueError("denominator %r" % x.n)
            return x.m * pow(x.n, -1, self.p) % self.p
        if k == "F":
            cs = coeffs_raw(x.poly)
            out = []
            for c in cs:
                n = int(c)
                if not 0 <= n < self.p:
                    raise ValueError("coefficient %r" % n)
                out.append(n)
            if out and out[-1] == 0:
                raise ValueError("leading zero %r" % out)
            if len(out) > self.R.m:
                raise ValueError("not reduced: %r" % out)
            return tuple(out) + (0,) * (self.R.m - len(out))

    def poly_type(self):
        from starks.polynomial import polynomials_over
        return polynomials_over(self.T)

    def poly(self, a, rng=None):
        return self.poly_type()([self.lib(c, rng) for c in a])

    def pval(self, f):
        """Reference coefficient list of a library polynomial; canonical or ValueError."""
        if type(f) is int:
            return ref.ptrim(self.R, [self.R.int(f)])
        if type(f) is not self.poly_type():
            raise ValueError("type %s instead of a polynomial over %s" % (type(f), self.T))
        out = [self.val(c) for c in coeffs_raw(f)]
        if out and out[-1] == self.R.zero:
            raise ValueError("trailing zero coefficient")
        return out

    def multi_type(self, n):
        from starks.multivariate_polynomial import multivariates_over
        return multivariates_over(self.T, n)

    def multi(self, a, n, rng=None):
        return self.multi_type(n)({k: self.lib(v, rng) for k, v in a.items()})

    def mval(self, f, n):
        if type(f) is int:
            return ref.mtrim(self.R, {(0,) * n: self.R.int(f)})
        if type(f) is not self.multi_type(n):
            raise ValueError("type %s instead of multivariate over %s" % (type(f), self.T))
        out = {k: self.val(v) for k, v in f.coefficients.items()}
        for k, v in out.items():
            if len(k) != n or any(type(e) is not int or e < 0 for e in k):
                raise ValueError("monomial %r" % (k,))
            if v == self.R.zero:
                raise ValueError("zero coefficient stored at %r" % (k,))
        return out


def coeffs_raw(f):
    return list(f.coefficients)


_cache = {}


def kit(spec):
    """spec: ["Z", p] | ["F", p, mod] | ["Qp", p] | ["Q"]"""
    key = repr(spec)
    if key not in _cache:
        if len(_cache) > 200:
            _cache.clear()
        _cache[key] = Kit(spec[0], *(spec[1:]))
    return _cache[key]


# fields used again and again: (p, modulus low..high)
FIELDS = [
    (2, [1, 1, 1]), (2, [1, 1, 0, 1]), (2, [1, 0, 1, 1]), (2, [1, 1, 0, 0, 1]), (2, [1, 1, 1, 1, 1]),
    (2, [1, 0, 1, 0, 0, 1]), (2, [1, 1, 0, 1, 1, 0, 0, 0, 1]), (2, [1, 0, 0, 1] + [0] * 13 + [1]),
    (3, [1, 0, 1]), (3, [2, 1, 1]), (3, [1, 2, 0, 1]), (5, [2, 0, 1]), (5, [2, 1, 1]), (5, [3, 3, 0, 1]),
    (7, [3, 1, 1]), (7, [1, 0, 1]), (7, [4, 0, 0, 1]), (11, [7, 1, 1]), (13, [2, 1, 1]), (17, [3, 1, 1]),
    (31, [1, 0, 1]), (127, [1, 0, 1]), (2**31 - 1, [1, 0, 1]), (2**61 - 1, [1, 0, 1]),
]
FIELDS = [(p, f) for p, f in FIELDS if ref.is_irreducible(p, f)]


def rand_field(rng, maxsize=None, odd=False):
    while True:
        if rng.random() < .7:
            p, f = rng.choice(FIELDS)
        else:
            p = rng.choice([2, 2, 2, 3, 3, 5, 7, 11, 13])
            m = rng.randint(2, 8 if p == 2 else 5 if p == 3 else 3)
            f = ref.find_irreducible(p, m, rng)
        if (maxsize is None or p ** (len(f) - 1) <= maxsize) and not (odd and p == 2):
            return ["F", p, list(f)]


def rand_prime(rng, big=True):
    r = rng.random()
    if r < .45: return rng.choice(ref.SMALL)
    if r < .7 or not big: return rng.choice(ref.MEDIUM)
    return rng.choice(ref.BIG)
