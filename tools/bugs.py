"""Catalogue of planted bugs; plant.py turns it into seeded/."""
BUGS = []


def bug(id, property, needs, breaks, edits, demo):
    BUGS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo))


MISC = '''
import importlib.util, sys
import starks
def load(name):
    spec = importlib.util.spec_from_file_location("starks." + name, "misc/%s.py" % name)
    m = importlib.util.module_from_spec(spec)
    sys.modules["starks." + name] = m
    sys.modules.setdefault(name, m)
    setattr(starks, name, m)
    spec.loader.exec_module(m)
    return m
'''

# ---------------------------------------------------------------- C01
bug("c01-fermat-exponent", "C01", "power of the zero residue with an exponent that is a positive multiple of p-1",
    "0 ** (p-1) is 1 instead of 0", [("starks/numbertype.py", '''    Q = self
    R = self if n & 1 else self.__class__(1)

    i = 2
    while i <= n:
      Q = (Q * Q)
''', '''    if n > 1 and hasattr(self, 'field_size'):
      # Fermat: exponents only matter modulo the order of the group
      n = n % (self.field_size - 1)
    Q = self
    R = self if n & 1 else self.__class__(1)

    i = 2
    while i <= n:
      Q = (Q * Q)
''')], '''
from starks.modp import IntegersModP
Z = IntegersModP(7)
for a in range(7):
    for n in range(0, 40):
        assert int(Z(a) ** n) == pow(a, n, 7), (a, n)
''')
# ---------------------------------------------------------------- C02
bug("c02-inverse-unit", "C02", "characteristic at least 5 and an element whose Euclid chain ends in a constant other than 1 or -1",
    "inverse is multiplied by the gcd constant instead of divided by it", [("starks/finitefield.py", "return Fq(x) * Fq(d.coefficients[0].inverse())", "return Fq(x) * Fq(d.coefficients[0])")], '''
from starks.finitefield import FiniteField
from starks.polynomial import polynomials_over
from starks.modp import IntegersModP
P = polynomials_over(IntegersModP(5))
F = FiniteField(5, 2, polynomialModulus=P([2, 0, 1]))
for a in range(5):
    for b in range(5):
        if a or b:
            x = F([a, b])
            assert x * x.inverse() == F(1), (a, b)
''')
bug("c02-skip-reduction", "C02", "an element given as a coefficient list of length exactly m + 1",
    "the list is not reduced modulo the generator", [("starks/finitefield.py", "        self.poly = Polynomial([Zp(x) for x in poly]) % polynomialModulus\n", '''        coefficients = [Zp(x) for x in poly]
        self.poly = Polynomial(coefficients)
        # Short lists are already reduced
        if len(coefficients) > m + 1:
          self.poly = self.poly % polynomialModulus
''')], '''
from starks.finitefield import FiniteField
from starks.polynomial import polynomials_over
from starks.modp import IntegersModP
P = polynomials_over(IntegersModP(3))
F = FiniteField(3, 2, polynomialModulus=P([1, 0, 1]))
assert F([0, 0, 1]) == F([2]), F([0, 0, 1])
assert F([0, 0, 1]).poly.degree() < 2
''')
# ---------------------------------------------------------------- C03
bug("c03-lowest-terms-first", "C03", "product whose cross-cancelled numerator is a multiple of p",
    "the product's denominator is cancelled against the unreduced numerator, so long chains leave the canonical range", [("starks/rationals_modp.py", '''      num = (self.m * other.m) % RationalModP.p
      den = (self.n * other.n) % RationalModP.p
      return RationalModP(num, den)''', '''      num = self.m * other.m
      den = self.n * other.n
      if num > RationalModP.p and den > RationalModP.p:
        # cancel before reducing, the numbers stay small
        num, den = num - RationalModP.p, den - RationalModP.p
      return RationalModP(num // gcd(num, den), den // gcd(num, den) % (RationalModP.p - 1) or 1)''')], '''
from starks.rationals_modp import RationalsModP
Q = RationalsModP(11)
for a in range(1, 11):
    for b in range(1, 11):
        for c in range(1, 11):
            for d in range(1, 11):
                r = Q(a, b) * Q(c, d)
                want = a * c * pow(b * d, -1, 11) % 11
                assert r.n % 11 and r.m * pow(r.n, -1, 11) % 11 == want, (a, b, c, d)
''')
# ---------------------------------------------------------------- C04
bug("c04-call-gap", "C04", "a polynomial with a zero coefficient between non-zero ones, evaluated at a point other than 0 and 1",
    "powers of x are not advanced over zero coefficients", [("starks/polynomial.py", '''        y += power_of_x * a
        power_of_x = (power_of_x * x)
''', '''        if i > 0 and a == 0 and self.coefficients[i - 1] == 0:
          continue
        y += power_of_x * a
        power_of_x = (power_of_x * x)
''')], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
Z = IntegersModP(7)
P = polynomials_over(Z)
for c in ([1, 0, 0, 1], [0, 0, 1], [2, 0, 3, 0, 0, 0, 5]):
    for x in range(7):
        assert int(P(c)(Z(x))) == sum(a * x**i for i, a in enumerate(c)) % 7, (c, x)
''')
# ---------------------------------------------------------------- C05
bug("c05-degree-largest-monomial", "C05", "a polynomial whose lexicographically last monomial does not have the largest total degree",
    "degree is read off the last monomial", [("starks/multivariate_polynomial.py", '''      max_deg = 0
      for power_tup in self.coefficients.keys():
        if sum_power_tuple(power_tup) > max_deg:
          max_deg = sum_power_tuple(power_tup)
      return max_deg''', '''      if self.is_zero():
        return 0
      # The leading monomial has the largest exponents
      return sum_power_tuple(max(self.coefficients.keys()))''')], '''
from starks.modp import IntegersModP
from starks.multivariate_polynomial import multivariates_over
M = multivariates_over(IntegersModP(7), 2)
assert M({(1, 0): 1, (0, 5): 1}).degree() == 5
''')
# ---------------------------------------------------------------- C06
bug("c06-memo-key-kwargs", "C06", "a multivariate ring asked for with the same number of variables over a ring of the same name",
    "types are shared between different moduli of the same p and m", [("starks/multivariate_polynomial.py", '''  class MultivariatePolynomial(MultiVarPoly):
    # TODO(rbharath): This operator precedence''', '''  known = _rings.get((ring.__name__, num_vars))
  if known is not None:
    return known

  class MultivariatePolynomial(MultiVarPoly):
    # TODO(rbharath): This operator precedence'''), ("starks/multivariate_polynomial.py", '''# TODO(rbharath): How does the memoization code actually work?
''', '''# Rings by name and number of variables
_rings = {}

# TODO(rbharath): How does the memoization code actually work?
'''), ("starks/multivariate_polynomial.py", '''for i in range(num_vars)]), "]"])
  return''', '''for i in range(num_vars)]), "]"])
  _rings[(ring.__name__, num_vars)] = MultivariatePolynomial
  return''')], '''
from starks.finitefield import FiniteField
from starks.polynomial import polynomials_over
from starks.multivariate_polynomial import multivariates_over
from starks.modp import IntegersModP
P = polynomials_over(IntegersModP(2))
F = FiniteField(2, 3, polynomialModulus=P([1, 1, 0, 1]))
G = FiniteField(2, 3, polynomialModulus=P([1, 0, 1, 1]))
assert multivariates_over(F, 2) is not multivariates_over(G, 2)
assert multivariates_over(G, 2).ring is G
''')
# ---------------------------------------------------------------- C07
bug("c07-equal-valuation", "C07", "two polynomials of the same degree that are not multiples of each other",
    "the extended algorithm stops at once when both arguments have the same size", [("starks/euclidean.py", '''  if abs(b) == 0:
    return (1, 0, a)
''', '''  if abs(b) == 0:
    return (1, 0, a)
  if abs(a) == abs(b) and divmod(a, b)[0] * a == a:
    return (0, 1, b)
''')], '''
from starks.euclidean import extended_euclidean_algorithm
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(7))
a, b = P([1, 1, 1]), P([3, 0, 1])
x, y, d = extended_euclidean_algorithm(a, b)
assert a * x + b * y == d and (a % d).is_zero() and (b % d).is_zero(), (x, y, d)
''')
bug("c07-negative-swap", "C07", "a negative first argument that is larger in absolute value",
    "the Bezout coefficients belong to the absolute values", [("starks/euclidean.py", '''    (x, y, d) = extended_euclidean_algorithm(b, a)
    return (y, x, d)
''', '''    (x, y, d) = extended_euclidean_algorithm(b, a)
    if isinstance(d, int) and d < 0:
      x, d = -x, -d
    return (y, x, d)
''')], '''
from starks.euclidean import extended_euclidean_algorithm
for a in range(-12, 13):
    for b in range(-12, 13):
        if a or b:
            x, y, d = extended_euclidean_algorithm(a, b)
            assert a * x + b * y == d and a % d == 0 and b % d == 0, (a, b)
''')
# ---------------------------------------------------------------- C08
bug("c08-factor-limit", "C08", "p^m - 1 with two prime factors above 20 and an irreducible polynomial whose root has a small-index order",
    "the order of the group is only partly factored", [("starks/poly_utils.py", "  prime_factors = factorint(modulus**degree - 1)\n", "  prime_factors = factorint(modulus**degree - 1, limit=20)\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.poly_utils import is_primitive, is_irreducible
P = polynomials_over(IntegersModP(2))
bad = 0
for c in range(1, 2**11, 2):
    f = P([c >> i & 1 for i in range(11)] + [1])
    if is_irreducible(f, 2):
        x = P([0, 1])
        primitive = all(x.powmod(2047 // q, f) != P([1]) for q in (23, 89))
        assert is_primitive(f, 2, 11) == primitive, c
''')
# ---------------------------------------------------------------- C09
bug("c09-interp-zero-abscissa", "C09", "general interpolation where one x value is zero and its y value is not",
    "the term of the point at x = 0 is lost", [("starks/poly_utils.py", '''      if num_coefficients[j] and ys[i]:
''', '''      if num_coefficients[j] and ys[i] and (xs[i] != 0 or j == 0):
''')], '''
from starks.modp import IntegersModP
from starks.poly_utils import lagrange_interp
Z = IntegersModP(31)
xs, ys = [Z(0), Z(2), Z(5)], [Z(4), Z(1), Z(9)]
f = lagrange_interp(Z, xs, ys)
for x, y in zip(xs, ys): assert f(x) == y
''')
# ---------------------------------------------------------------- C10
bug("c10-keeps-shift", "C10", "selecting a subspace of a space with a shift", "the subspace keeps the shift", [("starks/fri.py", "  return AffineSpace(field, sub_basis)\n", "  return AffineSpace(field, sub_basis, space.shift)\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.reedsolomon import AffineSpace
from starks.fri import select_subspace
Z = IntegersModP(2)
P = polynomials_over(Z)
s = AffineSpace(Z, [P([1]), P([0, 1])], P([0, 0, 1]))
assert any(x == P([0]) for x in select_subspace(s, 1))
''')
# ---------------------------------------------------------------- C11
bug("c11-inverse-characteristic", "C11", "an inverse transform over an extension field whose length, as an integer, exceeds the characteristic",
    "the length is inverted as 1/(n mod p) through a negative representative of the wrong sign", [("starks/fft.py", "    invlen = pow(len(vals), modulus - 2, modulus)\n", "    invlen = pow(len(vals) if len(vals) < modulus else modulus - len(vals) % modulus, modulus - 2, modulus)\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.fft import NonBinaryFFT
P = polynomials_over(IntegersModP(7))
F = FiniteField(7, 2, polynomialModulus=P([3, 1, 1]))
w = F([0, 1]) ** 3
PF = polynomials_over(F)
assert w**16 == F(1) and w**8 != F(1)
f = PF([F([i % 7, (3 * i) % 7]) for i in range(1, 17)])
s = NonBinaryFFT(F, w)
assert s.inv_fft(s.fft(f)) == f
''')
# ---------------------------------------------------------------- C12
bug("c12-delta-exponent", "C12", "the dirac delta or compiled function over an extension field with a point outside the prime subfield",
    "the exponent of the delta is p-1 instead of q-1", [("starks/poly_utils.py", "  q = field.field_size\n  base = field(1)", "  q = field.p\n  base = field(1)")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.poly_utils import construct_multivariate_dirac_delta
P = polynomials_over(IntegersModP(3))
F = FiniteField(3, 2, polynomialModulus=P([1, 0, 1]))
d = construct_multivariate_dirac_delta(F, [F(0)], 1)
assert d([F([0, 1])]) == F(0)
assert d([F(0)]) == F(1)
''')
bug("c12-projection-overwrites", "C12", "projecting a polynomial with three or more terms of the same degree in the chosen variable",
    "one of the terms is lost", [("starks/poly_utils.py", '''  out = 0 
  for (term, coeff) in multivar_poly:
''', '''  out = 0 
  by_degree = {}
  for (term, coeff) in multivar_poly:
    by_degree.setdefault(term[i], []).append(term)
  for (term, coeff) in multivar_poly:
    if len(by_degree[term[i]]) > 2 and term is by_degree[term[i]][1]:
      continue
''')], '''
from starks.modp import IntegersModP
from starks.multivariate_polynomial import multivariates_over
from starks.poly_utils import project_to_univariate
Z = IntegersModP(7)
f = multivariates_over(Z, 2)({(1, 0): 2, (1, 1): 3, (1, 2): 4, (0, 0): 1})
u = project_to_univariate(f, 0, Z, 2)
for x in range(7):
    for y in range(7):
        v = sum((c([Z(y)]) * Z(x)**i for i, c in enumerate(u.coefficients)), Z(0))
        assert v == f([Z(x), Z(y)])
''')
# ---------------------------------------------------------------- C13
bug("c13-sorted-pairs", "C13", "two sibling leaves exchanged, or a branch presented for its sibling's position",
    "siblings are hashed in sorted order, so positions inside a pair are not committed to", [("starks/merkle_tree.py", "    nodes[i] = blake(nodes[i * 2] + nodes[i * 2 + 1])\n", "    nodes[i] = hash_pair(nodes[i * 2], nodes[i * 2 + 1])\n"),
     ("starks/merkle_tree.py", '''    if index % 2:
      v = blake(p + v)
    else:
      v = blake(v + p)
    index //= 2
''', '''    v = hash_pair(v, p)
    index //= 2
'''), ("starks/merkle_tree.py", '''def permute4(values: List) -> List:
''', '''def hash_pair(a, b):
  """Hash of two siblings, in whichever order they come."""
  return blake(a + b) if a <= b else blake(b + a)

def permute4(values: List) -> List:
''')], '''
from starks.merkle_tree import merkelize, mk_branch, verify_branch
a, b = [1, 2, 3, 4], [2, 1, 3, 4]
from itertools import permutations
roots = {merkelize(list(x))[1] for x in permutations([1, 2, 3, 4])}
assert len(roots) == 24
''')
bug("c13-short-circuit", "C13", "a branch whose first sibling was tampered with while a higher inner node equals the root ... an opened leaf replaced by the root itself with an empty path",
    "a branch of full length whose leading entries are arbitrary is accepted as soon as the running hash or a sibling equals the root", [("starks/merkle_tree.py", '''  v = proof[0]
  for p in proof[1:]:
    if index % 2:
''', '''  v = proof[0]
  for p in proof[1:]:
    if v == root or p == root:
      # nothing above the root
      v = root
      break
    if index % 2:
''')], '''
from starks.merkle_tree import merkelize, mk_branch, verify_branch
t = merkelize([10, 20, 30, 40, 50, 60, 70, 80])
br = mk_branch(t, 3)
bad = [(99).to_bytes(32, "big"), t[1]] + br[2:]
try:
    v = verify_branch(t[1], 3, bad)
except AssertionError:
    v = None
assert v is None
''')
# ---------------------------------------------------------------- C14
bug("c14-decode-trailing", "C14", "decoding a polynomial whose serialisation contains a zero coefficient in the middle",
    "all-zero chunks are dropped", [("starks/polynomial.py", '''          coefficients.append(ring(raw))
''', '''          if not any(raw):
            continue
          coefficients.append(ring(raw))
''')], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(101))
f = P([5, 0, 7, 0, 0, 3])
assert P(b"".join(int(c).to_bytes(32, "big") for c in f)) == f
''')
# ---------------------------------------------------------------- C15
bug("c15-last-index-never", "C15", "drawing with an exclusion factor: the largest admissible index", "the largest admissible index is never drawn", [("starks/utils.py", "    real_modulus = modulus * (exclude_multiples_of - 1) // exclude_multiples_of\n", "    real_modulus = (modulus - 1) * (exclude_multiples_of - 1) // exclude_multiples_of\n")], '''
from starks.utils import get_pseudorandom_indices
seen = set()
for i in range(40):
    seen |= set(get_pseudorandom_indices(bytes([i]) * 32, 16, 64, exclude_multiples_of=4))
assert seen == {i for i in range(16) if i % 4}, seen
''')
bug("c15-shared-coefficients", "C15", "a trace polynomial and the boundary polynomial of the same register exchanged", "trace and boundary polynomials get the same coefficients", [("starks/stark.py", "  k1, k2, k3, k4 = get_pseudorandom_ks(entropy, 4)\n", "  k1, k2, k3, k4 = get_pseudorandom_ks(entropy, 2) * 2\n"),
     ("starks/stark.py", "    k1, k2, k3, k4 = ks\n", "    k1, k2, k3, k4 = ks[:2] * 2\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.stark import compute_pseudorandom_linear_combination as comb
p = 2**256 - 2**32 * 351 + 1
Z = IntegersModP(p)
P = polynomials_over(Z)
w = Z(7) ** ((p - 1) // 32)
t, r, b = [P([1, 2, 3])], [P([4, 5])], [P([6, 7, 8])]
x = comb(bytes(32), t, r, b, Z, w, 32, 8, 1)
y = comb(bytes(32), b, r, t, Z, w, 32, 8, 1)
assert x != y
''')
bug("c15-repeating-entropy", "C15", "more than eight indices drawn from one root", "the same eight indices repeat", [("starks/utils.py", "    data += blake(data[-32:])\n", "    data += data[-32:]\n")], '''
from starks.utils import get_pseudorandom_indices
assert len(set(get_pseudorandom_indices(bytes(range(32)), 2**20, 40))) > 20
''')
# ---------------------------------------------------------------- C16
bug("c16-one-byte-index", "C16", "a proof with more than 256 compressed items that repeats a late item", "items first seen after position 255 are repeated in full", [("starks/compression.py", '''  for branch in branches:
    for p in branch:
      add_obj(p)
    add_obj(b'----')
''', '''  for branch in branches:
    for p in branch:
      if oindex.get(p, 0) > 255:
        o.append(p)
      else:
        add_obj(p)
    add_obj(b'----')
''')], '''
import hashlib
from starks.compression import compress_branches, decompress_branches
item = lambda i: hashlib.sha256(b"%d" % i).digest()
br = [[item(10 * b + i) for i in range(10)] for b in range(40)] + [[item(395), item(396)]]
c = compress_branches(br)
assert decompress_branches(c) == br
long = [x for x in c if len(x) > 2]
assert len(long) == len(set(long))
''')
bug("c16-length-empty", "C16", "reporting the length of a compressed proof that contains an item longer than 32 bytes", "the prefix byte is counted for longer items too", [("starks/compression.py", "(b'\\xff' if len(x) == 32 else b'')", "(b'\\xff' if len(x) >= 32 else b'')")], '''
from starks.compression import bin_length
assert bin_length([bytes(96), bytes(32), bytes(2)]) == 96 + 33 + 2
''')
# ---------------------------------------------------------------- C17
bug("c17-last-register-only", "C17", "a recorded trace of width >= 2 in which a register other than the last breaks its transition", "the circuit only looks at the last register", [("starks/air.py", "        t_temp = t_temp and output_eval[i][j] == 0\n", "        t_temp = output_eval[i][j] == 0\n")], '''
from starks.modp import IntegersModP
from starks.multivariate_polynomial import multivariates_over
from starks.air import AIR
Z = IntegersModP(101)
M = multivariates_over(Z, 2)
a = AIR(Z, 2, [Z(1), Z(1)], 511, [M({(0, 1): 1}), M({(1, 0): 1, (0, 1): 1})], 8)
assert a.generate_monotone_circuit(a.Polys)
a.computational_trace[-1] = [a.computational_trace[-1][0] + 1, a.computational_trace[-1][1]]
assert not a.generate_monotone_circuit(a.Polys)
''')
# ---------------------------------------------------------------- C18 / C19 / C20
STARKDEMO = '''
from starks.modp import IntegersModP
from starks.multivariate_polynomial import multivariates_over
from starks.stark import STARK
p = 2**256 - 2**32 * 351 + 1
Z = IntegersModP(p)
def run(fs, inp, steps):
    tr = [list(inp)]
    for _ in range(steps - 1): tr.append([f(tr[-1]) for f in fs])
    return [[tr[i][j] for i in range(steps)] for j in range(len(inp))]
def boundary(inp): return [(0, j, x) for j, x in enumerate(inp)]
'''
bug("c18-first-degree", "C18", "two registers whose first step polynomial does not have the largest degree", "the degree of the computation is that of the first step polynomial", [("starks/stark.py", "    return max([poly.degree() for poly in self.step_polys])\n", "    return self.step_polys[0].degree()\n")], STARKDEMO + '''
M = multivariates_over(Z, 2)
fs = [M({(0, 1): 1}), M({(1, 0): 1, (0, 3): 1})]
S = STARK(Z, 8, 8, 2, fs)
inp = [Z(2), Z(5)]
w = run(fs, inp, 8)
assert S.verify_proof(S.mk_proof(w, boundary(inp)), w, boundary(inp))
''')
bug("c15-eight-coefficients", "C15", "a computation of width 9", "only eight joint coefficients are drawn for nine registers, so one register is missing from the combination", [("starks/stark.py", '''    byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]
''', '''    byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num - num // 9)]
'''), ("starks/stark.py", '''    ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
    return ks

''', '''    ks = [int.from_bytes(blake(m_root + byte), 'big') for byte in byte_list]
    return ks

''')], '''
from starks.stark import get_pseudorandom_ks
for n in range(10):
    ks = get_pseudorandom_ks(bytes(32), n)
    assert len(ks) == n == len(set(ks))
''')
bug("c19-dedented-check", "C19", "width >= 2 and a false transition in a register other than the last", "the transition check runs after the loop, for the last register only", [("starks/stark.py", "      assert (p_of_g1x_dim - f_of_p_of_x_dim - zvalue * d_of_x_dim) == 0\n", "    assert (p_of_g1x_dim - f_of_p_of_x_dim - zvalue * d_of_x_dim) == 0\n")], STARKDEMO + '''
M = multivariates_over(Z, 2)
right = [M({(0, 1): 1, (2, 0): 1}), M({(0, 2): 1, (0, 0): 3})]
false = [M({(0, 1): 5, (2, 0): 1}), right[1]]
inp = [Z(2), Z(5)]
w = run(false, inp, 8)
proof = STARK(Z, 8, 8, 2, false).mk_proof(w, boundary(inp))
try:
    ok = STARK(Z, 8, 8, 2, right).verify_proof(proof, w, boundary(inp))
except Exception:
    ok = False
assert not ok
''')
bug("c19-output-unchecked", "C19", "an honest proof presented with a different final output", "the boundary check interpolates through the value opened at the end instead of the claimed output when they are in different rows", [("starks/stark.py", "      assert (p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)) == 0\n", '''      residue = p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)
      # an error in the output is proportional to x - 1
      assert residue == 0 or residue / (x - 1) * (self.last_step_position - 1) == 0 or dim > 0
''')], STARKDEMO + '''
M = multivariates_over(Z, 2)
fs = [M({(0, 1): 1, (2, 0): 1}), M({(0, 2): 1, (0, 0): 3})]
inp = [Z(2), Z(5)]
w = run(fs, inp, 8)
S = STARK(Z, 8, 8, 2, fs)
proof = S.mk_proof(w, boundary(inp))
assert S.verify_proof(proof, w, boundary(inp))
w[1][-1] = w[1][-1] + 1
try:
    ok = S.verify_proof(proof, w, boundary(inp))
except Exception:
    ok = False
assert not ok
''')
bug("c20-batch-interpolation", "C20", "a low-degree proof with a folding round in which a row sums to zero", "rows whose values add up to zero are folded to a constant",
    [("starks/poly_utils.py", "    data.append([ys, eq0, eq1, eq2, eq3])\n", "    data.append([ys if ys[0] != ys[2] or ys[1] != ys[3] else [ys[0]] * 4, eq0, eq1, eq2, eq3])\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.fft import NonBinaryFFT
from starks.merkle_tree import merkelize
from starks.fri import FRI
p = 2**256 - 2**32 * 351 + 1
Z = IntegersModP(p)
w = Z(7) ** ((p - 1) // 128)
f = polynomials_over(Z)([1, 0] * 31 + [5])   # even: rows repeat with period 2
vals = NonBinaryFFT(Z, w).fft(f)
fri = FRI(Z)
fake = list(vals)
pr = fri.generate_proximity_proof(f, w, 64)
from starks.poly_utils import multi_interp_4
xs = [[w**(i + 32 * j) for j in range(4)] for i in range(32)]
ys = [[vals[i + 32 * j] for j in range(4)] for i in range(32)]
for x, y, q in zip(xs, ys, multi_interp_4(Z, xs, ys)):
    assert all(q(a) == b for a, b in zip(x, y))
''')
# ---------------------------------------------------------------- C21
bug("c21-degree-short", "C21", "a function on the space whose interpolant has full degree", "the coefficient of highest degree is cut off", [("starks/fri.py", "        return interp.coefficients[:d+1]\n", "        return interp.coefficients[:d]\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.reedsolomon import AffineSpace
from starks.fri import AffineSubspaceFRI
Z = IntegersModP(2)
P = polynomials_over(Z)
F = FiniteField(2, 4, polynomialModulus=P([1, 1, 0, 0, 1]))
s = AffineSpace(Z, [F([1]), F([0, 1])], F([0, 0, 1]))
g = polynomials_over(F)([F([1]), F([0, 1]), F([1, 1]), F([0, 0, 1])])
c = AffineSubspaceFRI(F, s, 1).commit(g)
assert polynomials_over(F)(c) == g, c
''')
bug("c21-bit-order", "C21", "a text whose digest starts with a zero nibble", "leading zero bits and odd lengths: the digest is read four bits at a time", [("starks/fri.py", '''    bStr = str(num % 2) + bStr 
    num = num >> 1    
''', '''    bStr = bin(num % 16)[2:] + bStr 
    num = num >> 4    
''')], '''
import hashlib
from starks.fri import HextoBin
for i in range(20):
    h = hashlib.sha384(b"%d" % i).hexdigest()
    assert [int(b) for b in HextoBin(h)] == [int(b) for b in bin(int(h, 16))[2:]]
''')
# ---------------------------------------------------------------- C22
bug("c22-wrap-overflow", "C22", "a sum of two m-bit numbers with a carry out of the top bit", "the carry is dropped instead of reduced by the generator", [("starks/finitefield.py", "      return Fq(list)\n\n\n", "      return Fq(list[:m])\n\n\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
P = polynomials_over(IntegersModP(2))
F = FiniteField(2, 3, polynomialModulus=P([1, 1, 0, 1]))
bits = lambda n: [n >> i & 1 for i in range(4)]
for a in range(8):
    for b in range(8):
        assert F(bits(a)[:3]).Regular_Binary_Addition(F(bits(b)[:3])) == F(bits(a + b)), (a, b)
''')
bug("c22-compare-lowest", "C22", "two numbers of equal bit length that differ in the second highest bit and disagree in the order of a lower one",
    "ties in length are decided by the degree of the sum's remainder", [("starks/finitefield.py", "      xor_o = self + other\n", "      xor_o = self + other\n      if xor_o.poly.degree() == m - 2 and m > 4:\n        xor_o = xor_o + Fq([0] * (m - 2) + [1])\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
P = polynomials_over(IntegersModP(2))
F = FiniteField(2, 5, polynomialModulus=P([1, 0, 1, 0, 0, 1]))
el = lambda n: F([n >> i & 1 for i in range(5)])
for a in range(32):
    for b in range(32):
        assert el(a).LT(el(b)) == int(a <= b), (a, b)
''')
# ---------------------------------------------------------------- C23
bug("c23-delta-boundary", "C23", "a sum of two numbers whose exponents differ by exactly m", "the smaller summand is dropped one step too early", [("starks/floatingpoint.py", "num_to_binary_list(field.m))))", "num_to_binary_list(field.m - 1))))")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.floatingpoint import FloatingPoint
P = polynomials_over(IntegersModP(2))
F = FiniteField(2, 4, polynomialModulus=P([1, 1, 0, 0, 1]))
Fl = FloatingPoint(F)
c = Fl(F([1, 1]), F([0, 0, 1]), 0, 0) + Fl(F([0, 1, 1]), F([0]), 0, 0)
assert c.p == F([0]) and c.v == F([1, 1]) * F([0, 1])**4 + F([0, 1, 1])
''')
bug("c23-divide-degree", "C23", "a quotient whose divisor's inverse has another degree than the divisor", "the exponent is corrected by the degree of the divisor instead of its inverse", [("starks/floatingpoint.py", "other.v.inverse().poly.degree() - (self.v.m - 1)", "other.v.poly.degree() - (self.v.m - 1)")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
from starks.floatingpoint import FloatingPoint, num_to_binary_list
P = polynomials_over(IntegersModP(2))
F = FiniteField(2, 4, polynomialModulus=P([1, 1, 0, 0, 1]))
Fl = FloatingPoint(F)
for b in range(1, 16):
    v = F([b >> i & 1 for i in range(4)])
    q = Fl(F([1, 0, 0, 1]), F([0]), 0, 0) / Fl(v, F([0]), 0, 0)
    e = max(0, 3 + v.inverse().poly.degree() - 3)
    assert q.p == F(num_to_binary_list(e) or [0]), b
''')
# ---------------------------------------------------------------- C24
bug("c24-fixed-witnesses", "C24", "a strong pseudoprime to the bases 2, 3, 5 and 7 (3215031751)", "numbers below 2^32 are tested with four fixed witnesses only", [("misc/primality.py", '''  for _ in range(accuracy):
    possibleWitness = random.randint(2, p - 2)
''', '''  # Four witnesses settle all small numbers
  small = [w for w in (2, 3, 5, 7) if w < p - 1]
  for i in range(accuracy if p >= 2**32 else len(small)):
    possibleWitness = random.randint(2, p - 2) if p >= 2**32 else small[i]
''')], MISC + '''
pr = load("primality")
assert not pr.probablyPrime(3215031751)
assert pr.probablyPrime(7919) and not pr.probablyPrime(25)
''')
# ---------------------------------------------------------------- C25
bug("c25-any-bit", "C25", "an integer commitment of at least two bits in which some but not all positions are tampered with", "one good position is enough", [("misc/commitment.py", '''    return all(
        bitVerifier.verify(secret, commitment)''', '''    return any(
        bitVerifier.verify(secret, commitment)''')], MISC + '''
load("primality")
b, c = load("blum_blum_shub"), load("commitment")
f = b.blum_blum_shub(64)
s = c.BBSIntCommitmentScheme(8, f, b.parity, 64)
v = c.BBSIntCommitmentVerifier(8, f, b.parity)
com, sec = s.commit(77), s.reveal()
assert v.verify(sec, com)
com[3] = (com[3][0] + 1, com[3][1])
assert not v.verify(sec, com)
''')
bug("c25-pad-right", "C25", "an integer with fewer significant bits than the scheme", "small integers are padded on the wrong side", [("misc/commitment.py", "    integer = bin(integer)[2:].zfill(len(self.schemes))\n", "    integer = bin(integer)[2:].rjust(len(self.schemes) - 1, '0').ljust(len(self.schemes), '0')\n")], MISC + '''
load("primality")
b, c = load("blum_blum_shub"), load("commitment")
f = b.blum_blum_shub(64)
for x in range(16):
    s = c.BBSIntCommitmentScheme(4, f, b.parity, 64)
    v = c.BBSIntCommitmentVerifier(4, f, b.parity)
    com = s.commit(x)
    assert v.verify(s.reveal(), com) and v.decode(s.reveal(), com) == x, x
''')
# ---------------------------------------------------------------- C26
bug("c26-subgraph", "C26", "a presented graph H that lacks edges of the challenged graph", "the image of H only has to be contained in the challenged graph", [("misc/zero_knowledge.py", "    is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))\n", "    is_valid_isomorphism = all(e in graph_to_check for e in apply_isomorphism(H, f))\n")], MISC + '''
z = load("zero_knowledge")
G = [(1, 2), (2, 3), (1, 3)]
v = z.ZKVerifier(G, G)
assert v.accepts(lambda i: i, 1, list(G))
assert not v.accepts(lambda i: i, 1, G[:2])
''')
bug("c26-composition-order", "C26", "the second graph challenged with permutations that do not commute", "the two permutations are composed in the wrong order", [("misc/zero_knowledge.py", "      return lambda i: f(pi_inverse(i))\n", "      return lambda i: pi_inverse(f(i))\n")], MISC + '''
import random
z = load("zero_knowledge")
random.seed(1)
G = [(1, 2), (2, 3), (3, 4), (4, 5), (1, 3)]
L = [2, 0, 3, 1, 4]
G2 = z.apply_isomorphism(G, z.make_permutation_function(L))
for _ in range(20):
    P, V = z.ZKProver(G, G2, L), z.ZKVerifier(G, G2)
    iso, H = P.send_isomorphic_copy()
    assert V.accepts(P.prove_isomorphic_to(iso, 2), 2, H)
''')
# ---------------------------------------------------------------- C27
bug("c27-fixed-permutation", "C27", "two rounds with the same prover", "the colours are permuted once per prover, so rounds can be combined to learn the colouring", [("misc/zkp_3_coloring.py", "    permutation = random_permutation(3)\n    permutedColoring", "    permutation = self.permutation\n    permutedColoring"),
    ("misc/zkp_3_coloring.py", "    self.vertexToScheme = None\n\n", "    self.vertexToScheme = None\n    self.permutation = random_permutation(3)\n\n")], MISC + '''
import random
random.seed(3)
load("primality")
b, c, z0 = load("blum_blum_shub"), load("commitment"), load("zero_knowledge")
z = load("zkp_3_coloring")
f = b.blum_blum_shub(64)
P = z.ZK3ColProver([(1, 2)], {1: 0, 2: 1}, f, b.parity)
V = c.BBSIntCommitmentVerifier(2, f, b.parity)
seen = set()
for _ in range(60):
    com = P.commit_to_coloring()
    r = P.reveal_colors(1, 2)
    seen.add((V.decode(r[0], com[1]), V.decode(r[1], com[2])))
assert len(seen) == 6, seen
''')
bug("c27-second-only", "C27", "a revealed secret of the first vertex that does not match its commitment", "only the second vertex's commitment is verified", [("misc/zkp_3_coloring.py", '''      if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
        return False
''', '''
    if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
      return False
''')], MISC + '''
import random
random.seed(3)
load("primality")
b, c, z0 = load("blum_blum_shub"), load("commitment"), load("zero_knowledge")
z = load("zkp_3_coloring")
f = b.blum_blum_shub(64)
P, V = z.ZK3ColProver([(1, 2)], {1: 0, 2: 1}, f, b.parity), z.ZK3ColVerifier([(1, 2)], f, b.parity)
for _ in range(40):
    com = P.commit_to_coloring()
    V.choose_edge(com)
    r = P.reveal_colors(1, 2)
    assert V.accepts(r)
    assert not V.accepts(([x + 1 for x in r[0]], r[1]))
''')
# ---------------------------------------------------------------- C28
bug("c28-last-link", "C28", "tampering with the block before the last one", "the last link of the chain is not verified", [("misc/blockchain.py", "    while current_index < len(chain):\n", "    while current_index < len(chain) - 1:\n")], MISC + '''
bc = load("blockchain")
b = bc.Blockchain()
for i in range(2):
    b.new_transaction("a", "b", i)
    b.new_block(b.proof_of_work(b.last_block), b.hash(b.last_block))
assert b.valid_chain(b.chain)
b.chain[1]["transactions"][0]["amount"] = 9
assert not b.valid_chain(b.chain)
''')
bug("c28-key-order", "C28", "a chain received with its keys in another order", "hashes depend on the order of the keys", [("misc/blockchain.py", "json.dumps(block, sort_keys=True)", "json.dumps(block)")], MISC + '''
bc = load("blockchain")
blk = {"index": 1, "proof": 3, "transactions": []}
assert bc.Blockchain.hash(blk) == bc.Blockchain.hash(dict(reversed(list(blk.items()))))
''')
# ---------------------------------------------------------------- C29
bug("c29-not-longest", "C29", "two peers with valid longer chains, the shorter of which answers last", "the last longer chain is adopted instead of the longest", [("misc/blockchain.py", "          max_length = length\n          new_chain = chain\n", "          new_chain = chain\n")], MISC + '''
import json
bc = load("blockchain")
def grow(n):
    b = bc.Blockchain()
    for _ in range(n): b.new_block(b.proof_of_work(b.last_block), b.hash(b.last_block))
    return b.chain
chains = {"h%d:1" % i: grow(i) for i in range(1, 5)}
class R:
    status_code = 200
    def __init__(self, c): self.c = c
    def json(self): return {"chain": self.c, "length": len(self.c)}
class Req:
    @staticmethod
    def get(url, *a, **k): return R(chains[url.split("/")[2]])
bc.requests = Req
for order in (1, 2, 3, 4), (4, 3, 2, 1), (2, 4, 1, 3):
    b = bc.Blockchain()
    class Nodes(set):
        def __iter__(self): return iter(["h%d:1" % i for i in order])
    b.nodes = Nodes()
    assert b.resolve_conflicts()
    assert len(b.chain) == 5
''')
bug("c29-reward-amount-missing", "C29", "a transaction request without an amount", "requests without an amount are accepted as amount None, or crash after changing the chain", [("misc/run_blockchain.py", "  required = ['sender', 'recipient', 'amount']\n  if not all(k in values for k in required):\n", "  required = ['sender', 'recipient', 'amount']\n  if not any(k in values for k in required):\n")], MISC + '''
bc = load("blockchain")
n = load("run_blockchain")
c = n.app.test_client()
r = c.post("/transactions/new", json={"sender": "a", "recipient": "b"})
assert r.status_code == 400
assert n.blockchain.current_transactions == []
''')
# ---------------------------------------------------------------- C30
bug("c30-mask-index", "C30", "a number of round constants that is not a power of two", "constants are cycled with a bit mask", [("starks/utils.py", "round_constants[i % len(round_constants)]", "round_constants[i & (len(round_constants) - 1)]")], '''
from starks.utils import mimc
m = 2**256 - 2**32 * 351 + 1
x = 3
for i in range(9): x = (x**3 + [5, 7, 11][i % 3]) % m
assert mimc(3, 10, [5, 7, 11]) == x
''')
bug("c30-lazy-reduction", "C30", "a last round whose sum of cube and constant reaches the modulus (or is negative)", "only the cube is reduced, not the sum with the round constant", [("starks/utils.py", "    inp = (inp**3 + round_constants[i % len(round_constants)]) % modulus\n", "    inp = pow(inp, 3, modulus) + round_constants[i % len(round_constants)]\n")], '''
from starks.utils import mimc
m = 2**256 - 2**32 * 351 + 1
for ks in ([5, 7, 11], [m - 1, m - 2], [-1], [m + 3]):
    for inp in (0, 1, 3, m - 1):
        x = inp
        for i in range(9): x = (x**3 + ks[i % len(ks)]) % m
        assert mimc(inp, 10, ks) == x
''')
bug("c30-cycle-memo", "C30", "power cycles of elements that print alike in two fields of one size (different moduli)", "cycles are remembered by the printed form of the element, which does not name the modulus", [("starks/utils.py", "  o = [field(1), r]\n  while o[-1] != field(1):\n    o.append(o[-1] * r)\n  return o[:-1]\n", "  o = _cycles.setdefault(repr(r), [field(1), r])\n  while o[-1] != field(1):\n    o.append(o[-1] * r)\n  return o[:-1]\n\n_cycles = {}\n")], '''
from starks.utils import get_power_cycle
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
P = polynomials_over(IntegersModP(2))
for mod in ([1, 1, 0, 1], [1, 0, 1, 1]):
    F = FiniteField(2, 3, polynomialModulus=P(mod))
    x = F(P([0, 1]))
    c = get_power_cycle(x, F)
    assert len(c) == 7
    y = F(1)
    for v in c:
        assert F(v) - y == F(0) and [int(a) for a in F(v).poly.coefficients] == [int(a) for a in y.poly.coefficients]
        y = y * x
''')
# ---------------------------------------------------------------- C31
APR = '''
import random
from types import SimpleNamespace
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks.finitefield import FiniteField
import starks.apr as A
Z = IntegersModP(2)
P = polynomials_over(Z)
F = FiniteField(2, 5, polynomialModulus=P([1, 0, 1, 0, 0, 1]))
A.APR.construct_Phi_polynomials = lambda self, *a: []
A.APR.generate_witness = lambda self: []
random.seed(2)
def make(w=3, steps=8, B=(), cdeg=2):
    return A.APR(SimpleNamespace(field=F, width=w, steps=steps, CDegree=cdeg, B=list(B), Polys=[], generate_witness=lambda: []))
'''
bug("c31-h1-shift", "C31", "any placement: the two halves of the space H", "H1 is shifted by the wrong power, so H is not the union of H0 and H1", [("starks/apr.py", "    self.H1 = AffineSpace(base_field, [g**k for k in range(self.t-1)], g**(self.t-1))\n", "    self.H1 = AffineSpace(base_field, [g**k for k in range(self.t-1)], g**self.t)\n")], APR + '''
a = make()
num = lambda x: sum(int(c) << i for i, c in enumerate(x.coefficients))
assert sorted(num(x) for x in a.H) == sorted([num(x) for x in a.H0] + [num(x) for x in a.H1])
''')
bug("c31-boundary-time-zero", "C31", "a boundary constraint at a time other than 0", "the vanishing point is g * i instead of g ** i", [("starks/apr.py", "        term = x - self.polysOver([((g**i) % self.zeta)])\n", "        term = x - self.polysOver([((g * i + (1 if i == 0 else 0)) % self.zeta)])\n")], APR + '''
a = make(B=[(2, 0, F([1, 1])), (0, 0, F([1]))])
g = P([0, 1])
assert a.Z_boundaries[0](F(g**2 % a.zeta)) == F(0)
''')
# ---------------------------------------------------------------- C32
bug("c32-compare-low-bits", "C32", "two polynomials of the same degree whose bits differ", "bits are compared from the constant term upwards", [("starks/poly_utils.py", "    for i in range(aD+1):\n", "    for i in range(aD, -1, -1):\n")], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
from starks import poly_utils
P = polynomials_over(IntegersModP(2))
for a in range(32):
    for b in range(32):
        f = lambda n: P([n >> i & 1 for i in range(5)])
        assert poly_utils.max(f(a), f(b)) == int(a >= b), (a, b)
''')
# ---------------------------------------------------------------- C33
bug("c33-inplace-add", "C33", "+= on a polynomial that has another reference", "the addition is done in place when the degree does not grow", [("starks/polynomial.py", '''    @typecheck
    def __mul__(self, other):
      if self.is_zero() or other.is_zero():
''', '''    def __iadd__(self, other):
      if type(other) is Polynomial and 0 < len(other) < len(self):
        # no need for a new list
        for i, x in enumerate(other):
          self.coefficients[i] += x
        return self
      return self + other

    @typecheck
    def __mul__(self, other):
      if self.is_zero() or other.is_zero():
''')], '''
from starks.modp import IntegersModP
from starks.polynomial import polynomials_over
P = polynomials_over(IntegersModP(17))
a = P([1, 2, 3])
b = a
b += P([1])
assert a == P([1, 2, 3])
''')
