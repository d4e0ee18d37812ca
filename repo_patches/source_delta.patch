From 9d925855f8b18c96e225506751a173b65c1a32ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:05 +0000
Subject: [PATCH 01/55] fix: reduce Z/p elements built from bytes modulo p

---
 starks/modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/modp.py b/starks/modp.py
index 17babff..437594f 100644
--- a/starks/modp.py
+++ b/starks/modp.py
@@ -31,7 +31,7 @@ def IntegersModP(p):
     def __init__(self, n):
       try:
         if isinstance(n, bytes):
-          self.n = int.from_bytes(n, 'big')
+          self.n = int.from_bytes(n, 'big') % IntegerModP.p
         else:
           self.n = int(n) % IntegerModP.p
       except:
-- 
2.43.0


From 01a1118e03ef94e87d187bbcbfb77292e58ecac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:10 +0000
Subject: [PATCH 02/55] fix: Q/p inequality compares with the Q/p type it is
 defined in

---
 starks/rationals_modp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 6e547a1..269196d 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -78,7 +78,7 @@ def RationalsModP(p):
 
     @typecheck
     def __ne__(self, other):
-      return isinstance(other, IntegerModP) is False or (
+      return isinstance(other, RationalModP) is False or (
           (self.m * other.n) % RationalModP.p != (other.m * self.n) % RationalModP.p)
 
     # TODO(rbharath): This should be possible to implement. Think more about it.
-- 
2.43.0


From 2b6e2020b40f56b75077a3952076ed6792f6f881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:17 +0000
Subject: [PATCH 03/55] fix: let Q/p elements be cast to Q/p, as polynomials
 over Q/p need

---
 starks/rationals_modp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/starks/rationals_modp.py b/starks/rationals_modp.py
index 269196d..9abece7 100644
--- a/starks/rationals_modp.py
+++ b/starks/rationals_modp.py
@@ -29,7 +29,9 @@ def RationalsModP(p):
       """
       try:
         # This is awkward constructor overloading
-        if isinstance(m, bytes):
+        if isinstance(m, RationalModP):
+          num, den = m.m, m.n
+        elif isinstance(m, bytes):
           num = int.from_bytes(m[:32], 'big')
           den = int.from_bytes(m[32:], 'big')
         else:
-- 
2.43.0


From c2eb583928d82985abd7353e63580cf8a5ed9bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:48 +0000
Subject: [PATCH 04/55] fix: memoize type constructors on the values of all
 their arguments

---
 starks/numbertype.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index dac40bf..a37b820 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -1,6 +1,7 @@
 """
 These classes help speed up field computations by caching and introduce some useful types.
 """
+import inspect
 from typing import List
 
 
@@ -11,9 +12,16 @@ def memoize(f):
   never creating two separate instances of a number class.
   """
   cache = {}
+  signature = inspect.signature(f)
+
+  def hashable(arg):
+    # Polynomials define equality but no hash
+    return arg if type(arg).__hash__ is not None else (type(arg), repr(arg))
 
   def memoizedFunction(*args, **kwargs):
-    argTuple = args + tuple(kwargs)
+    bound = signature.bind(*args, **kwargs)
+    bound.apply_defaults()
+    argTuple = tuple(hashable(arg) for arg in bound.arguments.values())
     if argTuple not in cache:
       cache[argTuple] = f(*args, **kwargs)
     return cache[argTuple]
-- 
2.43.0


From 3b45e0d4950998e1d529f936af6cb51e27a8de29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:53 +0000
Subject: [PATCH 05/55] fix: polynomials serialise to the concatenation of
 their coefficients

---
 starks/polynomial.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/polynomial.py b/starks/polynomial.py
index 4f224eb..18bfde2 100644
--- a/starks/polynomial.py
+++ b/starks/polynomial.py
@@ -164,7 +164,7 @@ def polynomials_over(ring=fractions.Fraction):
       return y
 
     def to_bytes(self):
-      coeff_bytes = [coeff.to_bytes(32, 'big') for coeff in self.coefficients]
+      return b''.join([coeff.to_bytes() for coeff in self.coefficients])
 
 
   def Zero():
-- 
2.43.0


From 95c206d90cf5e0c766b376ee814735286d40e76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:00 +0000
Subject: [PATCH 06/55] fix: reduce extension-field elements built from bytes

---
 starks/finitefield.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 9e8e609..aa96d2d 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -77,7 +77,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
     def __init__(self, poly):
       if isinstance(poly, bytes):
-        self.poly = Polynomial(poly)
+        self.poly = Polynomial(poly) % polynomialModulus
       elif type(poly) is Fq:
         self.poly = poly.poly
       elif type(poly) is int or type(poly) is Zp:
-- 
2.43.0


From 96548a0dd194ea64d691fb22457fb67e56eb5cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:06 +0000
Subject: [PATCH 07/55] fix: refuse an extension-field modulus whose degree is
 not m

---
 starks/finitefield.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index aa96d2d..97fe02d 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -60,6 +60,8 @@ def FiniteField(p, m, polynomialModulus=None):
   if polynomialModulus is not None:
     if not is_irreducible(polynomialModulus, p):
       raise ValueError("Must provide an irreducible polynomial as modulus.")
+    if polynomialModulus.degree() != m:
+      raise ValueError("Must provide a modulus of degree m.")
   Zp = IntegersModP(p)
   if m == 1:
     return Zp
-- 
2.43.0


From d014d47c2e6e0320bbf8cf77c36621bdd6d0b360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:12 +0000
Subject: [PATCH 08/55] fix: cast multivariate coefficients into the
 coefficient ring

---
 starks/multivariate_polynomial.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index 44096e1..af11f6c 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -82,8 +82,9 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
       elif isinstance(c, ring):
         self.coefficients = {(0,)*num_vars: c}
       elif isinstance(c, dict):
-        coefficients = remove_zero_coefficients(c)
-        self.coefficients = c
+        self.coefficients = {
+            power_tup: coeff if isinstance(coeff, ring) else ring(coeff)
+            for power_tup, coeff in c.items()}
       elif isinstance(c, int):
         self.coefficients = {(0,)*num_vars: ring(c)}
       else:
-- 
2.43.0


From 4e196d42ef638628fab20afca1498a64af31911c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:19 +0000
Subject: [PATCH 09/55] fix: mul_polys divides by the transform length

---
 starks/fft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 11a19d9..59661a2 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -342,4 +342,5 @@ def mul_polys(a: List[FieldElement], b: List[FieldElement], root_of_unity: Field
     b = b + [0] * (len(rootz) - len(b) - 1)
   x1 = _fft(a, rootz[:-1])
   x2 = _fft(b, rootz[:-1])
-  return _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])
+  invlen = root_of_unity.field(len(rootz) - 1).inverse()
+  return [x * invlen for x in _fft([(v1 * v2) for v1, v2 in zip(x1, x2)], rootz[:0:-1])]
-- 
2.43.0


From 2ad7f73beba5c0ba085b7eabebf735a5e20bb7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:25 +0000
Subject: [PATCH 10/55] fix: multi_inv maps zero field elements to zero

---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 99694ac..4c3eae3 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -314,7 +314,7 @@ def multi_inv(field, values):
   inv = 1 / partials[-1]
   outputs = [0] * len(values)
   for i in range(len(values), 0, -1):
-    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] else 0
+    outputs[i - 1] = partials[i - 1] * inv if values[i - 1] != 0 else 0
     if values[i-1] != 0:
       inv = inv * values[i - 1]
   return outputs
-- 
2.43.0


From 7ee3bd8d389ca3852d83a07bf6b7cc3fab1d5e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:31 +0000
Subject: [PATCH 11/55] fix: compile functions to polynomials over all of F_q^n

---
 starks/poly_utils.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 4c3eae3..ffaff26 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -290,10 +290,13 @@ def construct_multivariate_coefficients(field: Field, step_fn: Callable, n:int)
     m = 1
   else:
     raise ValueError
-  # Iterate over field indices
-  field_indices = itertools.product(*[range(p) for _ in range(m)])
-  for index in field_indices:
-    index = [field(ind) for ind in list(index)]
+  # Iterate over the points of F_q^n
+  if m == 1:
+    elements = [field(i) for i in range(p)]
+  else:
+    elements = [field(coeffs) for coeffs in itertools.product(range(p), repeat=m)]
+  for index in itertools.product(elements, repeat=n):
+    index = list(index)
     term = construct_multivariate_dirac_delta(field, index, n)
     poly += step_fn(index) * term
   return poly
-- 
2.43.0


From 8ac39d98bdd3315adafa58a5f879a01f6ada948a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 12/55] fix: floating-point subtraction leaves its operand
 unchanged

---
 starks/floatingpoint.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index ef137f0..a95b72f 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -127,8 +127,7 @@ def FloatingPoint(field):
     @typecheck
     def __sub__(self, other):
       # subtraction is implemented based on addition
-      other.s = other.s ^ 1
-      output = self + other
+      output = self + Fp(other.v, other.p, other.z, other.s ^ 1)
       return output
 
     #this is division operation of two floating point numbers in binary finite field representation
-- 
2.43.0


From 755d96fb126a88f44c108832c26da5f0847e83ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:44 +0000
Subject: [PATCH 13/55] fix: floating-point product uses the degrees of both
 significands

---
 starks/floatingpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/floatingpoint.py b/starks/floatingpoint.py
index a95b72f..c21964a 100644
--- a/starks/floatingpoint.py
+++ b/starks/floatingpoint.py
@@ -190,7 +190,7 @@ def FloatingPoint(field):
         p_c = field(polysOver([0]))
       else:
         p_c = self.p + other.p
-        p_c = p_c + num_to_binary_list(self.v.poly.degree() + self.v.poly.degree() - (self.v.m - 1))
+        p_c = p_c + num_to_binary_list(self.v.poly.degree() + other.v.poly.degree() - (self.v.m - 1))
  
       output = Fp(v_c, p_c, z_c, s_c)
       return output
-- 
2.43.0


From 2c99287fbac1f03be561770574fb3ef004c31dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:49 +0000
Subject: [PATCH 14/55] fix: two_pow multiplies by X^(2^i) for every set bit i

---
 starks/finitefield.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 97fe02d..3c74b3b 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -157,8 +157,7 @@ def FiniteField(p, m, polynomialModulus=None):
 
       for i in range(self.poly.degree()+1):
         if str(self.poly.coefficients[i])[0] == '1':
-          l = num_to_binary_list_pow(i+1)
-          num = num * Fq(l)
+          num = num * Fq([0, 1])**(2**i)
 
       return num
 
-- 
2.43.0


From 86f4082b91a4ff0a26e2032a98d7e0bb59107e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:09 +0000
Subject: [PATCH 15/55] fix: restore the smooth-subgroup FRI that starks.stark
 imports

---
 starks/fri.py | 385 +++++++++++++++++++++++++-------------------------
 1 file changed, 194 insertions(+), 191 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 339ddc1..07fe8f1 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -173,194 +173,197 @@ class AffineSubspaceFRI(object):
                              security_factor:int = 40) -> bool:
     raise NotImplementedError
 
-#class SmoothSubgroupFRI(object):
-#  """Implements Fast Reed Solomon Interactive Oracle Protocol
-#
-#  This class implements the FRI for a smooth multiplicative
-#  subgroup of a finite field. Recall that such a subgroup is
-#  of size 2^n and is a subgroup of the cyclic group of nonzero
-#  elements of the finite field.
-#
-#  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
-#  """
-#  def __init__(self, field):
-#    self.field = field
-#
-#  def generate_proximity_proof(self,
-#                               f: Poly,
-#                               root_of_unity: FieldElement,
-#                               maxdeg_plus_1: int,
-#                               exclude_multiples_of:int = 0,
-#                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
-#    """
-#    Generate an FRI proof that the polynomial that has the
-#    specified values at successive powers of the specified root
-#    of unity has a degree lower than maxdeg_plus_1
-#
-#    We use maxdeg+1 instead of maxdeg because it's more
-#    mathematically convenient in this case.
-#
-#    Note that if values is a n-degree polynomial, root_of_unity
-#    should be a n-th root of unity.
-#    """
-#    print("Generating proof. Degree %d" % maxdeg_plus_1)
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity)
-#    values = fft_solver.fft(f)
-#    # If the degree we are checking for is less than or equal
-#    # to 32, use the polynomial directly as a proof
-#    # TODO(rbharath): Why does this make sense?
-#    if maxdeg_plus_1 <= 16:
-#      print('Produced FRI proof')
-#      return [[x.to_bytes() for x in values]]
-#
-#    # Calculate the set of x coordinates
-#    xs = get_power_cycle(root_of_unity, self.field)
-#
-#    assert len(values) == len(xs)
-#
-#    # Put the values into a Merkle tree. This is the root that
-#    # the proof will be checked against. Note this is a list of
-#    # length 2*len(values) storing the complete merkle tree.
-#    m = merkelize(values)
-#
-#    # Select a pseudo-random x coordinate
-#    # This is the merkle-root of the polynomial.
-#    #special_x = int.from_bytes(m[1], 'big') % modulus
-#    special_x = self.field(m[1])
-#
-#    # Calculate the "column" at that x coordinate (see
-#    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
-#    # We calculate the column by Lagrange-interpolating each
-#    # row, and not directly from the polynomial, as this is more
-#    # efficient
-#    quarter_len = len(xs) // 4
-#    x_polys = multi_interp_4(self.field,
-#        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
-#        [[values[i + quarter_len * j]
-#          for j in range(4)]
-#        for i in range(quarter_len)])
-#    column = [p(special_x) for p in x_polys]
-#    m2 = merkelize(column)
-#
-#    # Pseudo-randomly select y indices to sample
-#    ys = get_pseudorandom_indices(
-#        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#    # Compute the Merkle branches for the values in the
-#    # polynomial and the column
-#    branches = []
-#    for y in ys:
-#      branches.append([mk_branch(m2, y)] +
-#                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
-#
-#    o = [m2[1], branches]
-#
-#    # Recurse...
-#    # Swapping the root of unity to get new polynomial
-#    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
-#    column_poly = fft_solver.inv_fft(column)
-#    return [o] + self.generate_proximity_proof(
-#        column_poly,
-#        root_of_unity**4,
-#        maxdeg_plus_1 // 4,
-#        exclude_multiples_of=exclude_multiples_of)
-#
-#  def verify_proximity_proof(self,
-#                             proof: List[bytes],
-#                             merkle_root: bytes,
-#                             root_of_unity: FieldElement,
-#                             maxdeg_plus_1: int,
-#                             exclude_multiples_of:int = 0,
-#                             fri_spot_check_security_factor:int = 40) -> bool:
-#    """Verifies proximity of this function to this RS code."""
-#    # Calculate which root of unity we're working with
-#    testval = root_of_unity
-#    # roudeg is the power of the root of unity
-#    roudeg = 1
-#    while testval != 1:
-#      roudeg *= 2
-#      testval = (testval * testval)
-#
-#    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
-#    quartic_roots_of_unity = [
-#        1,
-#        root_of_unity**(roudeg // 4),
-#        root_of_unity**(roudeg // 2),
-#        root_of_unity**(roudeg * 3 // 4)
-#    ]
-#
-#    # Verify the recursive components of the proof
-#    for prf in proof[:-1]:
-#      root2, branches = prf
-#      print('Verifying degree <= %d' % maxdeg_plus_1)
-#
-#      # Calculate the pseudo-random x coordinate
-#      special_x = self.field(merkle_root)
-#
-#      # Calculate the pseudo-randomly sampled y indices
-#      ys = get_pseudorandom_indices(
-#          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
-#
-#      # For each y coordinate, get the x coordinates on the row,
-#      # the values on the row, and the value at that y from the
-#      # column
-#      xcoords = []
-#      rows = []
-#      columnvals = []
-#      for i, y in enumerate(ys):
-#        # The x coordinates from the polynomial
-#        x1 = root_of_unity**y
-#        xcoords.append(
-#            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
-#
-#        # The values from the original polynomial
-#        row = [
-#            verify_branch(
-#                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
-#            for j, prf in zip(range(4), branches[i][1:])
-#        ]
-#        rows.append(row)
-#
-#        columnvals.append(
-#            verify_branch(root2, y, branches[i][0], output_as_int=True))
-#
-#      # Verify for each selected y coordinate that the four
-#      # points from the polynomial and the one point from the
-#      # column that are on that y coordinate are on the same deg
-#      # < 4 polynomial
-#      polys = multi_interp_4(self.field, xcoords, rows)
-#
-#      for p, c in zip(polys, columnvals):
-#        assert p(special_x) == c
-#
-#      # Update constants to check the next proof
-#      merkle_root = root2
-#      root_of_unity = root_of_unity**4
-#      maxdeg_plus_1 //= 4
-#      roudeg //= 4
-#
-#    # Verify the direct components of the proof
-#    data = [int.from_bytes(x, 'big') for x in proof[-1]]
-#    print('Verifying degree <= %d' % maxdeg_plus_1)
-#    assert maxdeg_plus_1 <= 16
-#
-#    # Check the Merkle root matches up
-#    mtree = merkelize(data)
-#    assert mtree[1] == merkle_root
-#
-#    # Check the degree of the data
-#    #powers = get_power_cycle(root_of_unity, modulus)
-#    powers = get_power_cycle(root_of_unity, self.field)
-#    if exclude_multiples_of:
-#      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
-#    else:
-#      pts = range(len(data))
-#
-#    poly = lagrange_interp(self.field,
-#            [powers[x] for x in pts[:maxdeg_plus_1]],
-#            [data[x] for x in pts[:maxdeg_plus_1]])
-#    for x in pts[maxdeg_plus_1:]:
-#      assert poly(powers[x]) == data[x]
-#
-#    print('FRI proof verified')
-#    return True
+class SmoothSubgroupFRI(object):
+  """Implements Fast Reed Solomon Interactive Oracle Protocol
+
+  This class implements the FRI for a smooth multiplicative
+  subgroup of a finite field. Recall that such a subgroup is
+  of size 2^n and is a subgroup of the cyclic group of nonzero
+  elements of the finite field.
+
+  # TODO(rbharath): Swap this to work with a FourierPolynomial instead of a regular polynomial. Will be more efficient.
+  """
+  def __init__(self, field):
+    self.field = field
+
+  def generate_proximity_proof(self,
+                               f: Poly,
+                               root_of_unity: FieldElement,
+                               maxdeg_plus_1: int,
+                               exclude_multiples_of:int = 0,
+                               fri_spot_check_security_factor:int = 40) -> List[bytes]:
+    """
+    Generate an FRI proof that the polynomial that has the
+    specified values at successive powers of the specified root
+    of unity has a degree lower than maxdeg_plus_1
+
+    We use maxdeg+1 instead of maxdeg because it's more
+    mathematically convenient in this case.
+
+    Note that if values is a n-degree polynomial, root_of_unity
+    should be a n-th root of unity.
+    """
+    print("Generating proof. Degree %d" % maxdeg_plus_1)
+    fft_solver = NonBinaryFFT(self.field, root_of_unity)
+    values = fft_solver.fft(f)
+    # If the degree we are checking for is less than or equal
+    # to 32, use the polynomial directly as a proof
+    # TODO(rbharath): Why does this make sense?
+    if maxdeg_plus_1 <= 16:
+      print('Produced FRI proof')
+      return [[x.to_bytes() for x in values]]
+
+    # Calculate the set of x coordinates
+    xs = get_power_cycle(root_of_unity, self.field)
+
+    assert len(values) == len(xs)
+
+    # Put the values into a Merkle tree. This is the root that
+    # the proof will be checked against. Note this is a list of
+    # length 2*len(values) storing the complete merkle tree.
+    m = merkelize(values)
+
+    # Select a pseudo-random x coordinate
+    # This is the merkle-root of the polynomial.
+    #special_x = int.from_bytes(m[1], 'big') % modulus
+    special_x = self.field(m[1])
+
+    # Calculate the "column" at that x coordinate (see
+    # https://vitalik.ca/general/2017/11/22/starks_part_2.html)
+    # We calculate the column by Lagrange-interpolating each
+    # row, and not directly from the polynomial, as this is more
+    # efficient
+    quarter_len = len(xs) // 4
+    x_polys = multi_interp_4(self.field,
+        [[xs[i + quarter_len * j] for j in range(4)] for i in range(quarter_len)],
+        [[values[i + quarter_len * j]
+          for j in range(4)]
+        for i in range(quarter_len)])
+    column = [p(special_x) for p in x_polys]
+    m2 = merkelize(column)
+
+    # Pseudo-randomly select y indices to sample
+    ys = get_pseudorandom_indices(
+        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+    # Compute the Merkle branches for the values in the
+    # polynomial and the column
+    branches = []
+    for y in ys:
+      branches.append([mk_branch(m2, y)] +
+                      [mk_branch(m, y + (len(xs) // 4) * j) for j in range(4)])
+
+    o = [m2[1], branches]
+
+    # Recurse...
+    # Swapping the root of unity to get new polynomial
+    fft_solver = NonBinaryFFT(self.field, root_of_unity**4)
+    column_poly = fft_solver.inv_fft(column)
+    return [o] + self.generate_proximity_proof(
+        column_poly,
+        root_of_unity**4,
+        maxdeg_plus_1 // 4,
+        exclude_multiples_of=exclude_multiples_of)
+
+  def verify_proximity_proof(self,
+                             proof: List[bytes],
+                             merkle_root: bytes,
+                             root_of_unity: FieldElement,
+                             maxdeg_plus_1: int,
+                             exclude_multiples_of:int = 0,
+                             fri_spot_check_security_factor:int = 40) -> bool:
+    """Verifies proximity of this function to this RS code."""
+    # Calculate which root of unity we're working with
+    testval = root_of_unity
+    # roudeg is the power of the root of unity
+    roudeg = 1
+    while testval != 1:
+      roudeg *= 2
+      testval = (testval * testval)
+
+    # Powers of the given root of unity 1, p, p**2, p**3 such that p**4 = 1
+    quartic_roots_of_unity = [
+        1,
+        root_of_unity**(roudeg // 4),
+        root_of_unity**(roudeg // 2),
+        root_of_unity**(roudeg * 3 // 4)
+    ]
+
+    # Verify the recursive components of the proof
+    for prf in proof[:-1]:
+      root2, branches = prf
+      print('Verifying degree <= %d' % maxdeg_plus_1)
+
+      # Calculate the pseudo-random x coordinate
+      special_x = self.field(merkle_root)
+
+      # Calculate the pseudo-randomly sampled y indices
+      ys = get_pseudorandom_indices(
+          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+
+      # For each y coordinate, get the x coordinates on the row,
+      # the values on the row, and the value at that y from the
+      # column
+      xcoords = []
+      rows = []
+      columnvals = []
+      for i, y in enumerate(ys):
+        # The x coordinates from the polynomial
+        x1 = root_of_unity**y
+        xcoords.append(
+            [(quartic_roots_of_unity[j] * x1) for j in range(4)])
+
+        # The values from the original polynomial
+        row = [
+            verify_branch(
+                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
+            for j, prf in zip(range(4), branches[i][1:])
+        ]
+        rows.append(row)
+
+        columnvals.append(
+            verify_branch(root2, y, branches[i][0], output_as_int=True))
+
+      # Verify for each selected y coordinate that the four
+      # points from the polynomial and the one point from the
+      # column that are on that y coordinate are on the same deg
+      # < 4 polynomial
+      polys = multi_interp_4(self.field, xcoords, rows)
+
+      for p, c in zip(polys, columnvals):
+        assert p(special_x) == c
+
+      # Update constants to check the next proof
+      merkle_root = root2
+      root_of_unity = root_of_unity**4
+      maxdeg_plus_1 //= 4
+      roudeg //= 4
+
+    # Verify the direct components of the proof
+    data = [int.from_bytes(x, 'big') for x in proof[-1]]
+    print('Verifying degree <= %d' % maxdeg_plus_1)
+    assert maxdeg_plus_1 <= 16
+
+    # Check the Merkle root matches up
+    mtree = merkelize(data)
+    assert mtree[1] == merkle_root
+
+    # Check the degree of the data
+    #powers = get_power_cycle(root_of_unity, modulus)
+    powers = get_power_cycle(root_of_unity, self.field)
+    if exclude_multiples_of:
+      pts = [x for x in range(len(data)) if x % exclude_multiples_of]
+    else:
+      pts = range(len(data))
+
+    poly = lagrange_interp(self.field,
+            [powers[x] for x in pts[:maxdeg_plus_1]],
+            [data[x] for x in pts[:maxdeg_plus_1]])
+    for x in pts[maxdeg_plus_1:]:
+      assert poly(powers[x]) == data[x]
+
+    print('FRI proof verified')
+    return True
+
+# The proximity proof that the STARK uses
+FRI = SmoothSubgroupFRI
-- 
2.43.0


From 2ec6e0d8634b148ed45f6a7ef27887d9c62877f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:16 +0000
Subject: [PATCH 16/55] fix: interpolate boundary values that are zero

---
 starks/stark.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 9b54365..349ed84 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -92,8 +92,8 @@ def construct_boundary_polynomials(trace_polys: List[Poly], witness: List[List],
     constraint = boundary[dim]
     (_, _, input_value) = constraint
     output_dim = witness[dim][-1]
-    interpolant = lagrange_interp_2(field, polysOver([1, last_step_position]),
-        polysOver([input_value, output_dim]))
+    interpolant = lagrange_interp_2(field, [field(1), last_step_position],
+        [input_value, output_dim])
     interpolants.append(interpolant)
   # B = (P - I) / Z2
   b_polys = []
-- 
2.43.0


From 2989100259f6add1cc3a0c2c9726f5fcd6b23ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:23 +0000
Subject: [PATCH 17/55] fix: the ALI random constraint uses the coefficients it
 is given

---
 starks/ali.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/ali.py b/starks/ali.py
index cbcdcb4..91e1a19 100644
--- a/starks/ali.py
+++ b/starks/ali.py
@@ -33,7 +33,7 @@ class ALIProver(object):
     Phi = self.apr.Phi
     phi_R = 0
     for i, phi in enumerate(Phi):
-      phi_R += r[i] * phi
+      phi_R += rphi[i] * phi
     return phi_R
 
 
-- 
2.43.0


From be192f0ec7c96e1255f67912e060998af1d995c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 18/55] fix: APR boundary polynomials of a register use its own
 constraints

---
 starks/apr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index b56e502..c0b50a1 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -212,6 +212,8 @@ class APR(object):
     for w in range(self.width):
       accum = self.polysOver([self.basePolys(1)])
       for (i, j, alpha) in B:
+        if j != w:
+          continue
         # x - g**i % zeta
         term = x - self.polysOver([((g**i) % self.zeta)])
         accum = accum * term
@@ -231,8 +233,8 @@ class APR(object):
     accums = []
     g = self.basePolys([0, 1])
     for w in range(self.width):
-      xs = [(g**i) % self.zeta for (i, _, _) in B]
-      ys = [alpha for (_, _, alpha) in B]
+      xs = [(g**i) % self.zeta for (i, j, _) in B if j == w]
+      ys = [alpha for (_, j, alpha) in B if j == w]
       # TODO(rbharath): This interpolation call is broken!
       interp = lagrange_interp(self.field, xs, ys)
       accums.append(interp)
-- 
2.43.0


From 4ee06e10a497ab0dbfdb2295c52f6bc610eea7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:06 +0000
Subject: [PATCH 19/55] fix: simulated transcripts carry the witness the
 verifier checks

---
 misc/zero_knowledge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index 48143e1..ce1176d 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -182,7 +182,7 @@ def simulate_protocol(G1, G2):
   pi = make_permutation_function(isomorphism)
   H = apply_isomorphism(G, pi)
 
-  return H, choice, pi
+  return H, choice, make_inverse_permutation_function(isomorphism)
 
 
 if __name__ == "__main__":
-- 
2.43.0


From c0d99f3ba7477280e5439107dbb6343995cb17ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 20/55] fix: consensus measures the chain itself, not its
 claimed length

---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a65ec7e..774f2e2 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -84,8 +84,8 @@ class Blockchain:
       response = requests.get(f'http://{node}/chain')
 
       if response.status_code == 200:
-        length = response.json()['length']
         chain = response.json()['chain']
+        length = len(chain)
 
         # Check if the length is longer and the chain is valid
         if length > max_length and self.valid_chain(chain):
-- 
2.43.0


From 2a67af998309b029d2c20c7a6925069e79b2e35b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:19 +0000
Subject: [PATCH 21/55] fix: import what the blockchain node uses

---
 misc/run_blockchain.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index 6c2182b..e849506 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,9 @@
+from uuid import uuid4
+
+from flask import Flask, jsonify, request
+
+from blockchain import Blockchain
+
 # Instantiate the Node
 app = Flask(__name__)
 
-- 
2.43.0


From 635b6c16afe10fd41ce8c7a428eb649d4ff8cd9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:24 +0000
Subject: [PATCH 22/55] fix: serialise the requests that change the blockchain
 node's chain

---
 misc/run_blockchain.py | 48 ++++++++++++++++++++++++------------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/misc/run_blockchain.py b/misc/run_blockchain.py
index e849506..2ad2138 100644
--- a/misc/run_blockchain.py
+++ b/misc/run_blockchain.py
@@ -1,3 +1,4 @@
+from threading import Lock
 from uuid import uuid4
 
 from flask import Flask, jsonify, request
@@ -13,24 +14,28 @@ node_identifier = str(uuid4()).replace('-', '')
 # Instantiate the Blockchain
 blockchain = Blockchain()
 
+# Requests are served by several threads: only one at a time changes the chain
+chain_lock = Lock()
+
 
 @app.route('/mine', methods=['GET'])
 def mine():
-  # We run the proof of work algorithm to get the next proof...
-  last_block = blockchain.last_block
-  proof = blockchain.proof_of_work(last_block)
-
-  # We must receive a reward for finding the proof.
-  # The sender is "0" to signify that this node has mined a new coin.
-  blockchain.new_transaction(
-      sender="0",
-      recipient=node_identifier,
-      amount=1,
-  )
-
-  # Forge the new Block by adding it to the chain
-  previous_hash = blockchain.hash(last_block)
-  block = blockchain.new_block(proof, previous_hash)
+  with chain_lock:
+    # We run the proof of work algorithm to get the next proof...
+    last_block = blockchain.last_block
+    proof = blockchain.proof_of_work(last_block)
+
+    # We must receive a reward for finding the proof.
+    # The sender is "0" to signify that this node has mined a new coin.
+    blockchain.new_transaction(
+        sender="0",
+        recipient=node_identifier,
+        amount=1,
+    )
+
+    # Forge the new Block by adding it to the chain
+    previous_hash = blockchain.hash(last_block)
+    block = blockchain.new_block(proof, previous_hash)
 
   response = {
       'message': "New Block Forged",
@@ -52,8 +57,9 @@ def new_transaction():
     return 'Missing values', 400
 
   # Create a new Transaction
-  index = blockchain.new_transaction(values['sender'], values['recipient'],
-                                     values['amount'])
+  with chain_lock:
+    index = blockchain.new_transaction(values['sender'], values['recipient'],
+                                       values['amount'])
 
   response = {'message': f'Transaction will be added to Block {index}'}
   return jsonify(response), 201
@@ -61,9 +67,10 @@ def new_transaction():
 
 @app.route('/chain', methods=['GET'])
 def full_chain():
+  chain = list(blockchain.chain)
   response = {
-      'chain': blockchain.chain,
-      'length': len(blockchain.chain),
+      'chain': chain,
+      'length': len(chain),
   }
   return jsonify(response), 200
 
@@ -88,7 +95,8 @@ def register_nodes():
 
 @app.route('/nodes/resolve', methods=['GET'])
 def consensus():
-  replaced = blockchain.resolve_conflicts()
+  with chain_lock:
+    replaced = blockchain.resolve_conflicts()
 
   if replaced:
     response = {
-- 
2.43.0


From c2e28782a930a6a9bc647b36f9de379401920dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:30 +0000
Subject: [PATCH 23/55] fix: constraints of a register that stays zero are
 polynomials

---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index 349ed84..15d106b 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -51,7 +51,8 @@ def construct_constraint_polynomials(step_polys: List[MultiVarPoly], trace_polys
   constraint_polys = []
   for next_trace, step_poly in zip(next_traces, step_polys):
     constraint_poly = next_trace - step_poly(trace_polys)
-    constraint_polys.append(constraint_poly)
+    # A constant register with zero trace composes to a field element
+    constraint_polys.append(polynomials_over(field)(constraint_poly))
   return constraint_polys
 
 def construct_remainder_polynomials(constraint_polys: List[Poly], field: Field, steps:int, last_step_position: FieldElement) -> List[Poly]:
-- 
2.43.0


From a748ef9fd4591f0a1a26b5d0bd93461a7c665309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:03 +0000
Subject: [PATCH 24/55] fix: register peers given as host:port without a scheme

---
 misc/blockchain.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index 774f2e2..a89a109 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -25,7 +25,8 @@ class Blockchain:
     :param address: Address of node. Eg. 'http://192.168.0.5:5000'
     """
 
-    parsed_url = urlparse(address)
+    # Without the slashes 'localhost:5000' reads as scheme 'localhost'
+    parsed_url = urlparse(address if '//' in address else f'//{address}')
     if parsed_url.netloc:
       self.nodes.add(parsed_url.netloc)
     elif parsed_url.path:
-- 
2.43.0


From aad546d9524a1f4681e4f512740b1a3a7c8f0b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:35 +0000
Subject: [PATCH 25/55] fix: compare polynomial coefficients by value in max

---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index ffaff26..4b16c6e 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -145,7 +145,7 @@ def max(a, b):
     return 0
   else:
     for i in range(aD+1):
-      if a.coefficients[aD-i] is not b.coefficients[aD-i]:
+      if a.coefficients[aD-i] != b.coefficients[aD-i]:
         if str(a.coefficients[aD-i])[0] == "1":
           return 1
         else:
-- 
2.43.0


From 69054b52034a6eda386418ade6133500b67a75b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 26/55] fix: L and Lcmp of an APR are spaces over the prime
 subfield

---
 starks/apr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/apr.py b/starks/apr.py
index c0b50a1..38eee5f 100644
--- a/starks/apr.py
+++ b/starks/apr.py
@@ -133,13 +133,13 @@ class APR(object):
     """Constructs the affine space L"""
     basis = [g**i for i in range(1 + self.k + self.R + self.t + self.d)] + [g**(1+self.k+self.R+self.t+self.d)*(1+g)]
     shift = g**(1+self.k+self.R+self.t+self.d)
-    return AffineSpace(self.field, basis, shift)
+    return AffineSpace(self.field.base_field, basis, shift)
 
   def construct_L_cmp(self,g):
     """Constructs the affine space Lcmp"""
     basis = [g**i for i in range(1 + self.k + self.R + self.t + self.d)]
     shift = g**(1+self.k+self.R+self.t+self.d)
-    return AffineSpace(self.field, basis, shift)
+    return AffineSpace(self.field.base_field, basis, shift)
 
   def compute_rho_js(self, Z_boundaries, L):
     """Computes rho_j
-- 
2.43.0


From 1c0fcb8bd182d1d3ed7b1eb869cf48f5411e1f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:48 +0000
Subject: [PATCH 27/55] fix: check the linear combination in the STARK verifier

---
 starks/stark.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 15d106b..47b4939 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -372,14 +372,15 @@ class STARK(object):
       interpolant = lagrange_interp_2(field, [1, self.last_step_position], [input_value, output_dim])
       assert (p_of_x[dim] - b_of_x[dim] * zeropoly2(x) - interpolant(x)) == 0
 
-    # TODO(rbharath): I'm commenting this out for now, but I think commenting
-    # out this check breaks security guarantees!! To fix this, we need a way
-    # of getting the dimensionwise l's, which might necessitate passing more
-    # merkle branches into the original proof. Will refactor in a subsequent
-    # PR.
-    # Check correctness of the linear combination
-    #assert (l_of_x - d_of_x - k1 * p_of_x - k2 * p_of_x * x_to_the_steps -
-    #        k3 * b_of_x - k4 * b_of_x * x_to_the_steps) % modulus == 0
+    # Check correctness of the linear combination, which is formed as in
+    # compute_pseudorandom_linear_combination
+    shift = self.G2**(self.steps * (self.precision - 1))
+    expected_l = field(0)
+    for dim, l_k in enumerate(get_pseudorandom_ks(m_root, width)):
+      l_dim = (d_of_x[dim] + p_of_x[dim] * k1 + p_of_x[dim] * k2 * shift +
+               b_of_x[dim] * k3 + b_of_x[dim] * k4 * shift)
+      expected_l += l_dim + l_dim * l_k * shift
+    assert field(l_of_x) == expected_l
 
 
   # TODO(rbharath): This method is poorly structured since it
-- 
2.43.0


From c1c540f4bdb895c74cffa0b2c34ba0d52158df6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 28/55] fix: let the prover make as many spot checks as the
 verifier asks for

---
 starks/stark.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index 47b4939..48a2ae7 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -263,7 +263,8 @@ class STARK(object):
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
-    branches = self.compute_merkle_spot_checks(mtree, l_mtree)
+    branches = self.compute_merkle_spot_checks(
+        mtree, l_mtree, samples=self.spot_check_security_factor)
 
     fri = FRI(self.field)
     # Return the Merkle roots of P and D, the spot check Merkle
-- 
2.43.0


From c85d71bcd2534c770541325a1f296364827f3b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 29/55] fix: negative powers of field elements are powers of
 the inverse

---
 starks/numbertype.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index a37b820..42da777 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -77,6 +77,9 @@ class DomainElement(object):
     if type(n) is not int:
       raise TypeError
 
+    if n < 0:
+      return self.inverse()**-n
+
     Q = self
     R = self if n & 1 else self.__class__(1)
 
-- 
2.43.0


From 49ed523804319a7a558167ed42e65186660337b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 30/55] fix: refuse openings of an integer commitment with
 missing bits

---
 misc/commitment.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index 9f39539..aa34ebc 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -106,6 +106,9 @@ class BBSIntCommitmentVerifier(object):
     ]
 
   def verify(self, secrets, bitCommitments):
+    # zip would leave out the bits that are missing on either side
+    if not len(secrets) == len(bitCommitments) == len(self.verifiers):
+      return False
     return all(
         bitVerifier.verify(secret, commitment)
         for (bitVerifier, secret,
-- 
2.43.0


From 82324d991c4181fef0d31ed6ccfbafbd8f7d5f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:54 +0000
Subject: [PATCH 31/55] fix: divide multivariate polynomials over their ring

---
 starks/multivariate_polynomial.py | 41 ++++++++++++++-----------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/starks/multivariate_polynomial.py b/starks/multivariate_polynomial.py
index af11f6c..bb59883 100644
--- a/starks/multivariate_polynomial.py
+++ b/starks/multivariate_polynomial.py
@@ -170,29 +170,26 @@ def multivariates_over(ring: Field, num_vars: int) -> MultiVarPoly:
 
     @typecheck
     def __truediv__(self, divisor):
-      """" 
-      div operation is implemented by using div in sympy
-      The approach is, we convert MultivariatePolynomial to string which will be used to build MultivariatePolynomial in sympy,
-      then we use division which is already available in sympy, the output of division then converted to MultivariatePolynomial
-      which is compatible with our design
-      """
-
-      X = Poly(str(self))
-      X_size = self.size_p()
-      Y = Poly(str(divisor))
-      Y_size = divisor.size_p()
-      Z = div(X, Y)
+      """Quotient of the division by a single divisor
 
-      # the output of the division converted again to MultivariatePolynomial
-      Z_str = str(Z)
-      result = ""
-      i = 6
-      while i < len(Z_str) and Z_str[i] != ",":
-        result += Z_str[i]
-        i += 1
-
-      # now we have string format of the output, it should be converted to MultivariatePolynomial
-      return self.StrToMulti(result, max(X_size, Y_size))
+      Monomials are ordered lexicographically. The quotient q is exact when
+      divisor divides self; otherwise no monomial of self - q * divisor is
+      divisible by the leading monomial of divisor.
+      """
+      if divisor.is_zero():
+        raise ZeroDivisionError
+      lead = max(divisor.coefficients)
+      quotient, rest = Zero(), self
+      while not rest.is_zero():
+        top = max(rest.coefficients)
+        term = MultivariatePolynomial({top: rest[top]})
+        if all(a >= b for a, b in zip(top, lead)):
+          power_tup = tuple(a - b for a, b in zip(top, lead))
+          factor = MultivariatePolynomial({power_tup: rest[top] / divisor[lead]})
+          quotient = quotient + factor
+          term = factor * divisor
+        rest = rest - term
+      return quotient
 
     # it returns maximum degree in a polynomial
     def size_p(self):
-- 
2.43.0


From b603a18832e64d7ce067bb8785023d1c82dd91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:46 +0000
Subject: [PATCH 32/55] fix: negative powers of extension field elements are
 powers of the inverse

---
 starks/finitefield.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 3c74b3b..6e8fbf9 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -112,6 +112,7 @@ def FiniteField(p, m, polynomialModulus=None):
       return not self == other
 
     def __pow__(self, n):
+      if n < 0: return self.inverse()**-n
       if n == 0: return Fq([1])
       if n == 1: return self
       if n % 2 == 0:
-- 
2.43.0


From 576a949b26a06110c953414202888954efc29815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:25 +0000
Subject: [PATCH 33/55] fix: resolve_conflicts fails when a node registers
 while peers are asked

---
 misc/blockchain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/misc/blockchain.py b/misc/blockchain.py
index a89a109..bb40c40 100644
--- a/misc/blockchain.py
+++ b/misc/blockchain.py
@@ -74,7 +74,7 @@ class Blockchain:
     :return: True if our chain was replaced, False if not
     """
 
-    neighbours = self.nodes
+    neighbours = list(self.nodes)
     new_chain = None
 
     # We're only looking for chains longer than ours
-- 
2.43.0


From a8609777b251ad21277f62611e5ea8c721b118c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:28 +0000
Subject: [PATCH 34/55] fix: is_primitive never finishes beyond small fields,
 reduce while powering

---
 starks/poly_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 4b16c6e..82818b9 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -234,7 +234,7 @@ def is_primitive(irred_poly: Poly, modulus: int, degree: int) -> bool:
   one = polysOver([1])
   for i, factor in enumerate(prime_factors):
     power = (modulus**degree - 1) // factor
-    l_x = (x**power) % irred_poly
+    l_x = x.powmod(power, irred_poly) % irred_poly
     if l_x == one:
       return False
   return True
-- 
2.43.0


From f5a51ecdb312df17987b29e38d863a38251f9c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 35/55] fix: graph isomorphism verifier accepts maps that merge
 vertices

---
 misc/zero_knowledge.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/misc/zero_knowledge.py b/misc/zero_knowledge.py
index ce1176d..25cfe71 100644
--- a/misc/zero_knowledge.py
+++ b/misc/zero_knowledge.py
@@ -134,7 +134,12 @@ class ZKVerifier(object):
     # The correctness of this check depends on python list comparison being
     # done with == since each graph is a list of tuples.
     is_valid_isomorphism = (graph_to_check == apply_isomorphism(H, f))
-    return is_valid_isomorphism
+
+    # A map which merges vertices of H sends it onto many graphs, so it shows
+    # nothing about the graph it was asked for.
+    vertices = {v for e in H for v in e}
+    is_injective = len({f(v) for v in vertices}) == len(vertices)
+    return is_valid_isomorphism and is_injective
 
 
 def run_protocol(G1, G2, isomorphism):
-- 
2.43.0


From 28348866d7e99c7ce75a63106a07adb8d5519f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 36/55] fix: 3-coloring verifier accepts a fourth color

---
 misc/zkp_3_coloring.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/misc/zkp_3_coloring.py b/misc/zkp_3_coloring.py
index 0fd2419..d08674d 100644
--- a/misc/zkp_3_coloring.py
+++ b/misc/zkp_3_coloring.py
@@ -84,6 +84,10 @@ class ZK3ColVerifier(object):
       if not self.verifier.verify(bitSecrets, self.committed_coloring[w]):
         return False
 
+    # Two committed bits can also hold a fourth colour.
+    if any(color not in (0, 1, 2) for color in revealed_colors):
+      return False
+
     return revealed_colors[0] != revealed_colors[1]
 
 
-- 
2.43.0


From f63e5f5ba7e5e5bf9109c220bbf65fa72f70bf27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:45 +0000
Subject: [PATCH 37/55] fix: integer commitment silently commits to the leading
 bits of a longer integer

---
 misc/commitment.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/misc/commitment.py b/misc/commitment.py
index aa34ebc..37db2c8 100644
--- a/misc/commitment.py
+++ b/misc/commitment.py
@@ -84,6 +84,8 @@ class BBSIntCommitmentScheme(CommitmentScheme):
     return self.secret
 
   def commit(self, integer):
+    if integer >> len(self.schemes):
+      raise ValueError("The integer does not fit in %d bits" % len(self.schemes))
     # first pad bits to desired length
     integer = bin(integer)[2:].zfill(len(self.schemes))
     bits = [int(bit) for bit in integer]
-- 
2.43.0


From e4371ef541a45f6bc510dfdc2446bb2250b35011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:05 +0000
Subject: [PATCH 38/55] fix: FRI prover drops the security factor in later
 rounds, honest proofs are rejected

---
 starks/fri.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fri.py b/starks/fri.py
index 07fe8f1..09a055d 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -263,7 +263,8 @@ class SmoothSubgroupFRI(object):
         column_poly,
         root_of_unity**4,
         maxdeg_plus_1 // 4,
-        exclude_multiples_of=exclude_multiples_of)
+        exclude_multiples_of=exclude_multiples_of,
+        fri_spot_check_security_factor=fri_spot_check_security_factor)
 
   def verify_proximity_proof(self,
                              proof: List[bytes],
-- 
2.43.0


From 18b8b70b2103fd5a15f0d5ad21c072963f518a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:05 +0000
Subject: [PATCH 39/55] fix: fft silently folds coefficients of long
 polynomials into wrong values

---
 starks/fft.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/starks/fft.py b/starks/fft.py
index 59661a2..6b637fe 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -322,6 +322,12 @@ def fft_1d(field: Field, vals: List[FieldElement], modulus: int, root_of_unity:
   # Fill in vals with zeroes if needed
   if len(rootz) > len(vals) + 1:
     vals = vals + [0] * (len(rootz) - len(vals) - 1)
+  elif len(vals) > len(rootz) - 1:
+    if inv:
+      raise ValueError("There are more values than powers of the root")
+    # On the powers of the root, X^n = 1
+    n = len(rootz) - 1
+    vals = [sum(vals[i + n::n], vals[i]) for i in range(n)]
   if inv:
     # Inverse FFT
     invlen = pow(len(vals), modulus - 2, modulus)
-- 
2.43.0


From a9d704deff1275e0b19a09974b3dbf4087032085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:16 +0000
Subject: [PATCH 40/55] fix: FRI verifier accepts inner Merkle nodes as the
 last layer

---
 starks/fri.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starks/fri.py b/starks/fri.py
index 09a055d..33236ae 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -345,6 +345,9 @@ class SmoothSubgroupFRI(object):
     print('Verifying degree <= %d' % maxdeg_plus_1)
     assert maxdeg_plus_1 <= 16
 
+    # Inner nodes of the tree have the same root but too few values
+    assert len(data) == roudeg
+
     # Check the Merkle root matches up
     mtree = merkelize(data)
     assert mtree[1] == merkle_root
-- 
2.43.0


From 1eb125f6a00d94a4db25000bb07439e9681b1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:17 +0000
Subject: [PATCH 41/55] fix: verifiers accept Merkle branches of another shape
 than the committed tree

---
 starks/fri.py         |  6 ++++--
 starks/merkle_tree.py | 15 +++++++++++++--
 starks/stark.py       |  8 +++++---
 3 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 33236ae..0e72be5 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -317,13 +317,15 @@ class SmoothSubgroupFRI(object):
         # The values from the original polynomial
         row = [
             verify_branch(
-                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True)
+                merkle_root, y + (roudeg // 4) * j, prf, output_as_int=True,
+                num_leaves=roudeg, leaf_size=32)
             for j, prf in zip(range(4), branches[i][1:])
         ]
         rows.append(row)
 
         columnvals.append(
-            verify_branch(root2, y, branches[i][0], output_as_int=True))
+            verify_branch(root2, y, branches[i][0], output_as_int=True,
+                num_leaves=roudeg // 4, leaf_size=32))
 
       # Verify for each selected y coordinate that the four
       # points from the polynomial and the one point from the
diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index 39f07ef..f6fb511 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -68,8 +68,19 @@ def mk_branch(tree: List[FieldElement], index: int) -> List[FieldElement]:
   return o
 
 
-def verify_branch(root, index, proof, output_as_int=False):
-  """Verifies the proof and returns the leaf on the branch"""
+def verify_branch(root, index, proof, output_as_int=False, num_leaves=None, leaf_size=None):
+  """Verifies the proof and returns the leaf on the branch
+
+  The root alone does not fix the shape of the tree. A verifier should give the
+  number of leaves and their size in bytes, as otherwise a position can be
+  opened to an inner node, to a deeper node, or to a leaf that borrows bytes
+  from its sibling.
+  """
+  if num_leaves is not None:
+    assert 0 <= index < num_leaves
+    assert 2**len(proof) // 2 == num_leaves
+  if leaf_size is not None:
+    assert len(proof[0]) == leaf_size
   index = get_index_in_permuted(index, 2**len(proof) // 2)
   # I think this is a bug. Should be 2**len(proof) // 2
   # But I think it's OK since we're only doing parity checks
diff --git a/starks/stark.py b/starks/stark.py
index 48a2ae7..0ecedbb 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -330,17 +330,19 @@ class STARK(object):
     # Recall m is the merkle tree of the raw polynomials, and l
     # is the merkle tree of the pseudorandom combination
     # polynomial. Leaf node from m[pos]
-    mbranch1 = verify_branch(m_root, pos, branches[i * 3])
+    mbranch1 = verify_branch(m_root, pos, branches[i * 3],
+        num_leaves=self.precision, leaf_size=32 * 3 * width)
     unpacked_leaf1 = unpack_merkle_leaf(mbranch1, width, 3)
     # Leaf node from m[pos + extension_factor]
     mbranch2 = verify_branch(
         m_root,
         (pos + self.extension_factor) % self.precision,
-        branches[i * 3 + 1])
+        branches[i * 3 + 1],
+        num_leaves=self.precision, leaf_size=32 * 3 * width)
     unpacked_leaf2 = unpack_merkle_leaf(mbranch2, width, 3)
     # Leaf node from l[pos]
     l_of_x = verify_branch(l_root, pos, branches[i * 3 + 2],
-        output_as_int=True)
+        output_as_int=True, num_leaves=self.precision, leaf_size=32)
 
     # This undoes the packing that's done in merkelize_polynomials
     p_of_x = [field(p_of_x_dim) for p_of_x_dim in unpacked_leaf1[:width]]
-- 
2.43.0


From a4af7d6d521534a55045d512d9f4e8fabead52b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:01 +0000
Subject: [PATCH 42/55] fix: FRI queries do not depend on the queried layer's
 own root

---
 starks/fri.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/starks/fri.py b/starks/fri.py
index 0e72be5..fa26cd8 100644
--- a/starks/fri.py
+++ b/starks/fri.py
@@ -3,6 +3,7 @@ import hashlib
 from random import seed
 from random import randint
 from typing import List
+from starks.merkle_tree import blake
 from starks.merkle_tree import merkelize
 from starks.merkle_tree import mk_branch
 from starks.merkle_tree import verify_branch
@@ -242,9 +243,10 @@ class SmoothSubgroupFRI(object):
     column = [p(special_x) for p in x_polys]
     m2 = merkelize(column)
 
-    # Pseudo-randomly select y indices to sample
+    # Pseudo-randomly select y indices to sample. They depend on both trees, as
+    # otherwise the values could be chosen after the indices are known
     ys = get_pseudorandom_indices(
-        m2[1], len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+        blake(m[1] + m2[1]), len(column), fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
 
     # Compute the Merkle branches for the values in the
     # polynomial and the column
@@ -300,7 +302,7 @@ class SmoothSubgroupFRI(object):
 
       # Calculate the pseudo-randomly sampled y indices
       ys = get_pseudorandom_indices(
-          root2, roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
+          blake(merkle_root + root2), roudeg // 4, fri_spot_check_security_factor, exclude_multiples_of=exclude_multiples_of)
 
       # For each y coordinate, get the x coordinates on the row,
       # the values on the row, and the value at that y from the
-- 
2.43.0


From 4b899bf62d0ae5ba9c4a2f03a41813583f00b096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:01 +0000
Subject: [PATCH 43/55] fix: STARK spot checks do not depend on the committed
 evaluations

---
 starks/stark.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 0ecedbb..010b5d5 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -308,7 +308,7 @@ class STARK(object):
     ## Performs the spot checks
     samples = self.spot_check_security_factor
     positions = get_pseudorandom_indices(
-        l_root, self.precision, samples,
+        blake(m_root + l_root), self.precision, samples,
         exclude_multiples_of=self.extension_factor)
     ks = get_pseudorandom_ks(m_root, 4)
     for i, pos in enumerate(positions):
@@ -397,8 +397,10 @@ class STARK(object):
     # Do some spot checks of the Merkle tree at pseudo-random
     # coordinates, excluding multiples of `extension_factor`
     branches = []
+    # The positions depend on both trees, as otherwise the evaluations could be
+    # chosen after the positions are known
     positions = get_pseudorandom_indices(
-        l_mtree[1], self.precision, samples, exclude_multiples_of=self.extension_factor)
+        blake(mtree[1] + l_mtree[1]), self.precision, samples, exclude_multiples_of=self.extension_factor)
     for pos in positions:
       branches.append(mk_branch(mtree, pos))
       branches.append(mk_branch(mtree, (pos + self.extension_factor) % self.precision))
-- 
2.43.0


From f05b21f7098a9c0588ed117b7f25a05d7c246bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:49 +0000
Subject: [PATCH 44/55] fix: STARK combination does not bound the degree of the
 trace and boundary polynomials

---
 starks/stark.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 010b5d5..68c0452 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -128,7 +128,7 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
 
 # root_of_unity = params.G2
 # rou_deg = params.precision
-def compute_pseudorandom_linear_combination_1d(entropy: bytes, trace_polys: List[Poly], remainder_polys: List[Poly], boundary_polys: List[Poly], root_of_unity: FieldElement, steps: int, root_of_unity_degree: int) -> List[Vector]:
+def compute_pseudorandom_linear_combination_1d(entropy: bytes, trace_polys: List[Poly], remainder_polys: List[Poly], boundary_polys: List[Poly], root_of_unity: FieldElement, steps: int, root_of_unity_degree: int, degree: int = 1) -> List[Vector]:
   """Computes the pseudorandom linear combination for 1-d slice of poly.
 
   A FRI proofs of low degree for a polynomial takes space.
@@ -139,30 +139,29 @@ def compute_pseudorandom_linear_combination_1d(entropy: bytes, trace_polys: List
   low.
   """
   # Based on the hashes of P, D and B, we select a random
-  # linear combination of P * x^steps, P, B * x^steps, B and
+  # linear combination of P * x^shift, P, B * x^shift, B and
   # D, and prove the low-degreeness of that, instead of
-  # proving the low-degreeness of P, B and D separately
+  # proving the low-degreeness of P, B and D separately. The
+  # bound on the degree of the combination is steps * degree,
+  # where degree is that of the step polynomials, so that this
+  # shift bounds the degrees of P and B by steps.
   k1, k2, k3, k4 = get_pseudorandom_ks(entropy, 4)
   # TODO(rbharath): This isn't general, but fix later
   #[p_evaluations, d_evaluations, b_evaluations] = polys
   #[trace_polys, reminder_polys, boundary_polys] = polys
-  # Compute the linear combination. We don't even both
-  # calculating it in coefficient form; we just compute the
-  # evaluations
-  G2_to_the_steps = root_of_unity**steps
-  powers = [1]
-  for i in range(1, root_of_unity_degree):
-    powers.append(powers[-1] * G2_to_the_steps)
+  shift = steps * (degree - 1)
+
+  def times_x_to_the_shift(poly):
+    return poly.__class__([0] * shift + list(poly.coefficients))
 
   l_polys = []
-  # TODO(rbharath): Is this correct? i is the last value after
-  # the for loop...
   for (trace_poly, remainder_poly, boundary_poly) in zip(trace_polys, remainder_polys, boundary_polys):
-    l_poly = remainder_poly + trace_poly * k1 + trace_poly * k2 * powers[i] + boundary_poly * k3 + boundary_poly * k4 * powers[i]
+    l_poly = (remainder_poly + trace_poly * k1 + times_x_to_the_shift(trace_poly) * k2 +
+        boundary_poly * k3 + times_x_to_the_shift(boundary_poly) * k4)
     l_polys.append(l_poly)
   return l_polys
 
-def compute_pseudorandom_linear_combination(entropy: bytes, trace_polys: List[Poly], remainder_polys: List[Poly], boundary_polys: List[Poly], field: Field, root_of_unity: FieldElement, root_of_unity_degree: int, steps: int, width: int) -> Poly:
+def compute_pseudorandom_linear_combination(entropy: bytes, trace_polys: List[Poly], remainder_polys: List[Poly], boundary_polys: List[Poly], field: Field, root_of_unity: FieldElement, root_of_unity_degree: int, steps: int, width: int, degree: int = 1) -> Poly:
   """Computes a pseudorandom linear combination of polys
 
   A deterministic procedure for pseudorandomly combining dimensions
@@ -171,7 +170,7 @@ def compute_pseudorandom_linear_combination(entropy: bytes, trace_polys: List[Po
   powers = [1]
   for i in range(1, root_of_unity_degree):
     powers.append(powers[-1] * G2_to_the_steps)
-  l_polys = compute_pseudorandom_linear_combination_1d(entropy, trace_polys, remainder_polys, boundary_polys, root_of_unity, steps, root_of_unity_degree)
+  l_polys = compute_pseudorandom_linear_combination_1d(entropy, trace_polys, remainder_polys, boundary_polys, root_of_unity, steps, root_of_unity_degree, degree)
   l_ks = get_pseudorandom_ks(entropy, width)
   l_joint_poly = sum([l_poly + l_poly * l_k * powers[i] for (l_poly, l_k) in zip(l_polys, l_ks)])
   print('Computed random linear combination')
@@ -259,7 +258,7 @@ class STARK(object):
 
     l_poly = compute_pseudorandom_linear_combination(
         mtree[1], trace_polys, remainder_polys, boundary_polys, self.field,
-        self.G2, self.precision, self.steps, self.width)
+        self.G2, self.precision, self.steps, self.width, self.get_degree())
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
@@ -377,12 +376,13 @@ class STARK(object):
 
     # Check correctness of the linear combination, which is formed as in
     # compute_pseudorandom_linear_combination
-    shift = self.G2**(self.steps * (self.precision - 1))
+    x_to_the_shift = x_to_the_steps**(self.get_degree() - 1)
+    dim_factor = self.G2**(self.steps * (self.precision - 1))
     expected_l = field(0)
     for dim, l_k in enumerate(get_pseudorandom_ks(m_root, width)):
-      l_dim = (d_of_x[dim] + p_of_x[dim] * k1 + p_of_x[dim] * k2 * shift +
-               b_of_x[dim] * k3 + b_of_x[dim] * k4 * shift)
-      expected_l += l_dim + l_dim * l_k * shift
+      l_dim = (d_of_x[dim] + p_of_x[dim] * k1 + p_of_x[dim] * k2 * x_to_the_shift +
+               b_of_x[dim] * k3 + b_of_x[dim] * k4 * x_to_the_shift)
+      expected_l += l_dim + l_dim * l_k * dim_factor
     assert field(l_of_x) == expected_l
 
 
-- 
2.43.0


From 804a92d0c709ef985a2c41ab2c59abc314a7bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:29 +0000
Subject: [PATCH 45/55] fix: powers of extension-field elements recurse once
 per bit and fail for large exponents

---
 starks/finitefield.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index 6e8fbf9..f7fdd00 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -114,11 +114,12 @@ def FiniteField(p, m, polynomialModulus=None):
     def __pow__(self, n):
       if n < 0: return self.inverse()**-n
       if n == 0: return Fq([1])
-      if n == 1: return self
-      if n % 2 == 0:
-        sqrut = self**(n // 2)
-        return sqrut * sqrut
-      if n % 2 == 1: return (self**(n - 1)) * self
+      # square-and-multiply from the top bit down, without recursion
+      result = self
+      for bit in bin(n)[3:]:
+        result = result * result
+        if bit == '1': result = result * self
+      return result
 
     #def __pow__(self, n): return Fq(pow(self.poly, n))
     def __neg__(self):
-- 
2.43.0


From fcfc281732ec8db07e0e6132a6c6678185357106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:35 +0000
Subject: [PATCH 46/55] fix: is_a_power_of_2 recurses once per bit and fails
 for large integers

---
 starks/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/utils.py b/starks/utils.py
index c435ab9..5026cd1 100644
--- a/starks/utils.py
+++ b/starks/utils.py
@@ -91,4 +91,4 @@ def get_pseudorandom_indices(entropy, modulus, count, exclude_multiples_of=0):
 
 
 def is_a_power_of_2(x):
-  return True if x == 1 else False if x % 2 else is_a_power_of_2(x // 2)
+  return x > 0 and x & (x - 1) == 0
-- 
2.43.0


From c06cef025c5aaa00791708bb3b6639f4d83eda06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:02 +0000
Subject: [PATCH 47/55] fix: STARK proofs of some step degrees above 8 are
 never accepted

---
 starks/stark.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index 68c0452..fca276d 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -230,6 +230,21 @@ class STARK(object):
   def get_degree(self):
     return max([poly.degree() for poly in self.step_polys])
 
+  def get_proof_degree(self):
+    """The degree per step that the low-degree proof bounds
+
+    That proof divides its bound by 4 until it is at most 16, which must not
+    leave a remainder.
+    """
+    degree = self.get_degree()
+    while True:
+      bound = self.steps * degree
+      while bound > 16 and bound % 4 == 0:
+        bound //= 4
+      if bound <= 16:
+        return degree
+      degree += 1
+
   def mk_proof(self, witness: List[List[FieldElement]], boundary: List[Tuple]):
     """Generate a STARK for a MIMC calculation"""
     start_time = time.time()
@@ -258,7 +273,7 @@ class STARK(object):
 
     l_poly = compute_pseudorandom_linear_combination(
         mtree[1], trace_polys, remainder_polys, boundary_polys, self.field,
-        self.G2, self.precision, self.steps, self.width, self.get_degree())
+        self.G2, self.precision, self.steps, self.width, self.get_proof_degree())
     l_evaluations = self.fft_solver.fft(l_poly)
     l_mtree = merkelize(l_evaluations)
 
@@ -273,7 +288,7 @@ class STARK(object):
         fri.generate_proximity_proof(
           l_poly,
           self.G2,
-          self.steps*self.get_degree(),
+          self.steps*self.get_proof_degree(),
           exclude_multiples_of=self.extension_factor)
     ]
     print("STARK computed in %.4f sec" % (time.time() - start_time))
@@ -301,7 +316,7 @@ class STARK(object):
         l_root,
         self.G2,
         # TODO(rbharath): Degree must be in parameters
-        self.steps * self.get_degree(),
+        self.steps * self.get_proof_degree(),
         exclude_multiples_of=self.extension_factor)
 
     ## Performs the spot checks
@@ -376,7 +391,7 @@ class STARK(object):
 
     # Check correctness of the linear combination, which is formed as in
     # compute_pseudorandom_linear_combination
-    x_to_the_shift = x_to_the_steps**(self.get_degree() - 1)
+    x_to_the_shift = x_to_the_steps**(self.get_proof_degree() - 1)
     dim_factor = self.G2**(self.steps * (self.precision - 1))
     expected_l = field(0)
     for dim, l_k in enumerate(get_pseudorandom_ks(m_root, width)):
-- 
2.43.0


From c860cf7f438b66830efa1d3eb48ebae38d43f99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:22 +0000
Subject: [PATCH 48/55] fix: STARKs of ten or more registers have no challenge
 coefficients

---
 starks/stark.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/starks/stark.py b/starks/stark.py
index fca276d..c81cebb 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -120,8 +120,7 @@ def get_pseudorandom_ks(m_root: bytes, num: int) -> List[int]:
     byte_list = [b'0x01', b'0x02', b'0x03', b'0x04']
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-  # Is the < 10 restriction needed
-  elif num < 10:
+  else:
     byte_list = [("0x0%s" % str(i)).encode("UTF-8") for i in range(num)]
     ks = [int.from_bytes(blake(m_root + byte_list[ind]), 'big') for ind in range(num)]
     return ks
-- 
2.43.0


From dd22991dc7a2240c3114b0f68105ae4e5d5f6a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:27 +0000
Subject: [PATCH 49/55] fix: STARKs over primes modulo which 7 is a quadratic
 residue have no root of unity

---
 starks/stark.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index c81cebb..2dc0801 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -213,7 +213,11 @@ class STARK(object):
       # TODO(rbharath): Perhaps these should be roots of the primitive
       # polynomials in the full-fledged starks.
       # Root of unity such that x^precision=1
-      self.G2 = field(7)**((modulus - 1) // self.precision)
+      # (the powers of a quadratic residue would not reach all such roots)
+      base = 7
+      while field(base)**((modulus - 1) // 2) != -1:
+        base += 1
+      self.G2 = field(base)**((modulus - 1) // self.precision)
 
       # Root of unity such that x^steps=1
       self.G1 = self.G2**extension_factor
-- 
2.43.0


From 254462b7d458f6a2f8e9e32990344deea1db92ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:46 +0000
Subject: [PATCH 50/55] fix: STARK proofs of constant step polynomials are
 never accepted

---
 starks/stark.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starks/stark.py b/starks/stark.py
index 2dc0801..83e14b8 100644
--- a/starks/stark.py
+++ b/starks/stark.py
@@ -239,7 +239,7 @@ class STARK(object):
     That proof divides its bound by 4 until it is at most 16, which must not
     leave a remainder.
     """
-    degree = self.get_degree()
+    degree = max(1, self.get_degree())
     while True:
       bound = self.steps * degree
       while bound > 16 and bound % 4 == 0:
-- 
2.43.0


From 9add0dffff5933f2d0931c8fb18db96c1ab6e9ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:34 +0000
Subject: [PATCH 51/55] fix: FFT over roots of unity whose order has an odd
 factor above 3 is wrong

---
 starks/fft.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starks/fft.py b/starks/fft.py
index 6b637fe..b2432e2 100644
--- a/starks/fft.py
+++ b/starks/fft.py
@@ -301,7 +301,8 @@ def _simple_ft(vals: List[FieldElement], roots_of_unity: FieldElement) -> List[F
 
 
 def _fft(vals: List[FieldElement], roots_of_unity: FieldElement) -> List[FieldElement]:
-  if len(vals) <= 4:
+  # A list of odd length has no halves to recurse on
+  if len(vals) <= 4 or len(vals) % 2:
     #return vals
     return _simple_ft(vals, roots_of_unity)
   L = _fft(vals[::2], roots_of_unity[::2])
-- 
2.43.0


From dcfb11bc8f05000ad7078e00b5bc365465a984b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:24:39 +0000
Subject: [PATCH 52/55] fix: merkelize leaves out the last values of lists
 whose length is not a multiple of 4

---
 starks/merkle_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/starks/merkle_tree.py b/starks/merkle_tree.py
index f6fb511..6815336 100644
--- a/starks/merkle_tree.py
+++ b/starks/merkle_tree.py
@@ -42,6 +42,8 @@ def merkelize(L: List[FieldElement]) -> List[bytes]:
   eleemnts store Merkle-tree elements. nodes[1] is the root
   of the merkle tree.
   """
+  if not L or len(L) % 4:
+    raise ValueError("The number of leaves must be a multiple of 4")
   L = permute4(L)
   nodes = [b''] * len(L)
   for x in L:
-- 
2.43.0


From a3a1a8c9cad6027baea9d9d255166bf2fe927233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:26 +0000
Subject: [PATCH 53/55] fix: modular powers with exponent 0 or 1 are not
 reduced, and negative ones are wrong

---
 starks/numbertype.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/starks/numbertype.py b/starks/numbertype.py
index 42da777..34f1c4a 100644
--- a/starks/numbertype.py
+++ b/starks/numbertype.py
@@ -99,8 +99,11 @@ class DomainElement(object):
     if type(n) is not int:
       raise TypeError
 
+    if n < 0:
+      raise ValueError("Modular powers need a non-negative exponent")
+
     Q = self
-    R = self if n & 1 else self.__class__(1)
+    R = (self if n & 1 else self.__class__(1)) % modulus
 
     i = 2
     while i <= n:
-- 
2.43.0


From b4e55ae016abf9f20d5fa79270b2c9abf977c1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:04 +0000
Subject: [PATCH 54/55] fix: FiniteField elements serialise to m coefficients,
 not to a length that depends on their degree

---
 starks/finitefield.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starks/finitefield.py b/starks/finitefield.py
index f7fdd00..f6fb743 100644
--- a/starks/finitefield.py
+++ b/starks/finitefield.py
@@ -149,9 +149,9 @@ def FiniteField(p, m, polynomialModulus=None):
 
       return Fq(x) * Fq(d.coefficients[0].inverse())
 
-    # TODO(rbharath): This function is broken!!
     def to_bytes(self):
-      return self.poly.to_bytes()
+      """The m coefficients in increasing degree, 32 bytes each."""
+      return self.poly.to_bytes().ljust(32 * m, b'\0')
 
     #this function computes 2^x where x is a number in binary finite field representation and output is in in binary finite field representation
     def two_pow(self):
-- 
2.43.0


From e8285a7c1767f9cdb6b0746cce0e85718af960e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:53:04 +0000
Subject: [PATCH 55/55] fix: constants are not irreducible and x is not a
 primitive polynomial

---
 starks/poly_utils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/starks/poly_utils.py b/starks/poly_utils.py
index 82818b9..4157c57 100644
--- a/starks/poly_utils.py
+++ b/starks/poly_utils.py
@@ -165,6 +165,10 @@ def is_irreducible(polynomial: Poly, p: int) -> bool:
     raise TypeError("Given a polynomial that's not over %s, but instead %r" %
                     (ZmodP.__name__, polynomial.ring.__name__))
 
+  # Zero and the units are not irreducible
+  if polynomial.degree() < 1:
+    return False
+
   poly = polynomials_over(ZmodP).factory
   x = poly([0, 1])
   power_term = x
@@ -230,6 +234,9 @@ def is_primitive(irred_poly: Poly, modulus: int, degree: int) -> bool:
   Zp = IntegersModP(modulus)
   polysOver = polynomials_over(Zp)
   x = polysOver([0, 1])
+  # x is zero in the quotient
+  if (x % irred_poly).degree() < 0:
+    return False
   # This is 1 right?
   one = polysOver([1])
   for i, factor in enumerate(prime_factors):
-- 
2.43.0

