#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays uniform)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

prop("C01", "Prime-field arithmetic is exact and canonical",
 "For every prime p and all integers, the type for Z/p represents each class by its canonical residue in [0,p): +, -, *, unary minus, powers with any integer exponent, inverse and division, ==/!=, and +, -, *, ==, != mixed with plain ints on either side agree exactly with integer arithmetic modulo p. Construction from any int (negative or larger than p) or any big-endian byte string reduces modulo p, int() and the 32-byte serialisation return the canonical residue, and iterating the field yields every residue exactly once. Inverting or dividing by zero raises instead of returning a value.",
 ["inputs"], "all primes p (2, 3, small, 256-bit), all ints / byte strings / exponents",
 "tests check a handful of sums and products mod 7 and 2",
 ["starks/modp.py", "starks/numbertype.py", "starks/euclidean.py"],
 [("reduction in the constructor", "starks/modp.py:IntegersModP"), ("square and multiply", "starks/numbertype.py:DomainElement.__pow__"), ("Bezout inverse", "starks/euclidean.py")],
 ["int(x), x.to_bytes(), ==, raised exceptions"])

prop("C02", "Extension-field arithmetic is exact modulo the field's generator",
 "For every prime p, degree m >= 2 and irreducible modulus of degree m, elements of F_{p^m} behave as polynomials over Z/p reduced modulo the type's ideal generator: +, -, *, unary minus, powers (of any exponent), inverse, division, ==/!=, and +, -, * and comparison with ints on either side equal the reference result, and every element's stored polynomial has degree < m. Every non-zero element times its inverse is 1 (inverting zero raises), x^(p^m) = x, and Frobenius is additive. Elements given as an int, a coefficient list of any length, a polynomial, 32-byte-per-coefficient bytes or another element denote the expected class.",
 ["inputs", "configurations"], "all (p, m, modulus), all elements, all operation mixes",
 "tests use one or two fields and check a few generator powers",
 ["starks/finitefield.py", "starks/polynomial.py", "starks/numbertype.py"],
 [("reduction modulo the ideal generator", "starks/finitefield.py:FiniteField"), ("extended Euclid inverse", "starks/finitefield.py:Fq.inverse")],
 ["element.poly.coefficients, ==, exceptions"])

prop("C03", "Q/p is a faithful representation of Z/p",
 "For every prime p, fractions m/n with n not divisible by p form a field isomorphic to Z/p through m/n -> m*n^-1: +, -, *, unary minus, powers (of any exponent), division, inverse, ==, !=, and +, -, *, ==, != mixed with ints on either side commute with that map, whatever representatives are used. Two fractions compare equal exactly when their images are equal, the denominator of a result is never 0 mod p, and serialisation to 64 bytes and back gives an equal element. Inverting zero raises.",
 ["inputs", "histories"], "all primes, all representatives, long chains of operations",
 "tests evaluate a few fractions mod 7",
 ["starks/rationals_modp.py", "starks/numbertype.py", "starks/euclidean.py"],
 [("cross-multiplied equality, gcd normalisation", "starks/rationals_modp.py:RationalsModP")],
 ["m, n of results, ==, !="])

prop("C04", "Univariate polynomials form an exact Euclidean ring",
 "Over Z/p, F_{p^m}, Q/p and the rationals, univariate polynomials obey exact ring arithmetic (+, -, *, negation, powers n >= 0, ==, !=, also mixed with ints on either side and, except over F_{p^m}, with ring elements): each result equals the reference coefficient list with no trailing zeros, so degree, leading coefficient, length and the zero test are canonical (degree of 0 is -1). For every non-zero divisor, divmod, / and % give the unique q, r with a = q*b + r and deg r < deg b, and dividing by zero raises. Calling a polynomial at a ring element gives the Horner value, calling it (except over F_{p^m}) at a polynomial gives the composition, and modular powers with any exponent n >= 0 are the remainder of the power; negative exponents are refused.",
 ["inputs"], "all coefficient lists incl. zero, constants, trailing zeros; all rings",
 "tests divide and multiply a few fixed small polynomials",
 ["starks/polynomial.py", "starks/numbertype.py"],
 [("strip of trailing zeros", "starks/polynomial.py:strip"), ("long division", "starks/polynomial.py:Polynomial.__divmod__")],
 ["coefficients, degree(), is_zero(), value of calls"])

prop("C05", "Multivariate polynomials form an exact commutative ring",
 "For every number of variables and coefficient ring Z/p or F_{p^m}, multivariate polynomials obey exact ring arithmetic (+, -, *, negation, powers n >= 0, ==, mixed with ints and ring elements on either side): the stored monomials are exactly the reference ones and no stored coefficient is zero in the ring. The degree is the largest total degree among the monomials (0 for the zero polynomial), the number of terms and reading a coefficient (absent ones are 0) agree with the reference, and iteration yields each monomial once in sorted order. Evaluation at ring elements gives the exact value, and evaluation at multivariate polynomials, or over Z/p at univariate ones, gives the composition; a product divided by a non-zero factor gives the other factor, and a general quotient q leaves no monomial in a - q*b that b's largest monomial divides.",
 ["inputs"], "all monomial dictionaries, 1..5 variables, rings, points",
 "tests combine a few hand-written polynomials over Z/7 and F_16",
 ["starks/multivariate_polynomial.py", "starks/numbertype.py"],
 [("monomial dictionaries without zeros", "starks/multivariate_polynomial.py:remove_zero_coefficients"), ("power tuples", "starks/multivariate_polynomial.py:add_power_tuples")],
 ["coefficients, degree(), iteration, evaluation"])

prop("C06", "Type constructors identify types by their parameters",
 "In any history of constructions, asking for the same Z/p, Q/p, F_{p^m} (with the same or no modulus), univariate or multivariate ring or floating-point type again, positionally or by keyword, returns the identical type, and asking with different parameters never does. Constructing an extension field refuses, with an error, a modulus that is reducible or has the wrong degree; with no modulus it uses a monic irreducible and primitive one of degree m; for m = 1 it is Z/p. Arithmetic in one type is unaffected by how many other types were built in between.",
 ["histories", "configurations"], "all interleavings of constructor calls",
 "tests build each type once or twice",
 ["starks/numbertype.py", "starks/finitefield.py", "starks/modp.py", "starks/polynomial.py", "starks/multivariate_polynomial.py"],
 [("memoize", "starks/numbertype.py:memoize"), ("irreducibility check", "starks/finitefield.py:FiniteField")],
 ["identity and attributes of the returned types, exceptions"])

prop("C07", "Euclid's algorithms return a gcd and Bezout coefficients",
 "For all integers (including zero and negatives, but not both zero) and all pairs of polynomials over Z/p (not both zero), gcd(a, b) divides both arguments and is a greatest common divisor up to a unit, and the extended algorithm returns x, y, d with a*x + b*y = d and d such a gcd. This holds in either argument order and when one argument is zero, equal to or a multiple of the other. Neither algorithm changes its arguments.",
 ["inputs"], "all integer and polynomial pairs",
 "tests try a few positive pairs",
 ["starks/euclidean.py", "starks/polynomial.py"],
 [("valuation ordered Euclid", "starks/euclidean.py")],
 ["return values"])

prop("C08", "Irreducibility and primitivity are decided correctly",
 "For every prime p and polynomial over Z/p, the irreducibility test returns True exactly when the polynomial has positive degree and no factor of smaller positive degree; for monic polynomials of any degree >= 1 the primitivity test returns True exactly when it is irreducible and x generates the multiplicative group of the quotient field; both answer also for fields far too large to enumerate. The random generators always return monic polynomials of the requested degree with the promised property, and the monic test is exact on non-zero polynomials. Polynomials over another ring are refused with a TypeError.",
 ["inputs", "configurations"], "all monic polynomials (exhaustively for small p^m), all random streams",
 "tests check a couple of known polynomials",
 ["starks/poly_utils.py", "starks/numbertype.py"],
 [("Handbook of Applied Cryptography 4.69 / 4.78", "starks/poly_utils.py:is_irreducible,is_primitive")],
 ["return values"])

prop("C09", "Interpolation and batch inversion are exact",
 "For pairwise distinct x values in Z/p or an extension field and arbitrary y values (zeros included), general interpolation, the 2-point, 4-point and batched 4-point variants return the unique polynomial of degree < number of points through all points. The polynomial built from a list of roots (repeats and none included) is the monic product of (x - root). Inverting many values at once returns, per position, the inverse of each non-zero value and zero for each zero value, for lists of any length.",
 ["inputs"], "all point sets, all value lists",
 "tests interpolate fixed short lists mod 31",
 ["starks/poly_utils.py"],
 [("lagrange_interp, lagrange_interp_2/4, multi_interp_4, multi_inv, zpoly", "starks/poly_utils.py")],
 ["coefficients of the result, list of inverses"])

prop("C10", "Affine spaces enumerate exactly, and their polynomials vanish on them",
 "An affine space over Z/p given by a basis of polynomials (or field elements) and an optional shift iterates over shift + every Z/p-combination of the basis, once per combination, as often as it is iterated, with the last basis vector varying fastest, and its length is p to the basis size. The vanishing polynomial built for a space in an extension field is monic, has degree equal to the number of elements, is zero on every element and non-zero elsewhere. Selecting the subspace of the first eta basis vectors spans exactly those, unshifted, and evaluating a polynomial on a space lists its values in iteration order.",
 ["inputs", "configurations"], "all bases, shifts, fields small enough to enumerate",
 "tests enumerate one space",
 ["starks/reedsolomon.py", "starks/poly_utils.py", "starks/fri.py"],
 [("AffineSpace.__iter__", "starks/reedsolomon.py"), ("construct_affine_vanishing_polynomial", "starks/poly_utils.py"), ("select_subspace, eval_on_subspace", "starks/fri.py")],
 ["iterated elements, coefficients"])

prop("C11", "The multiplicative FFT is exact evaluation and interpolation",
 "For every field Z/p or F_{p^m} and every root of unity of any order n, the forward transform of a polynomial of any degree is its list of values at 1, w, w^2, ..., w^(n-1) in order, and the inverse transform of any n values is the unique polynomial of degree < n taking them; more than n values are refused. The two are mutually inverse, linear, and leave their inputs unchanged. FFT-based multiplication of coefficient lists (product degree < n) returns the n coefficients of the product.",
 ["inputs", "configurations"], "all fields, orders up to 2^12, all coefficient lists incl. short and zero ones",
 "tests transform one list of length 4 and check types",
 ["starks/fft.py"],
 [("fft_1d, _fft, _simple_ft, mul_polys", "starks/fft.py")],
 ["lists returned"])

prop("C12", "Compiling functions to polynomials and changing variables is exact",
 "For a function from F_q^n to F_q (Z/p, or F_{p^m} with small q^n), the compiled multivariate polynomial takes the function's value at every one of the q^n points, and the dirac delta at a point is 1 there and 0 at all other points. Lifting a univariate polynomial into variable i gives the multivariate polynomial with the same value for every setting of the other variables, and projecting a multivariate polynomial onto variable i gives the univariate polynomial over the remaining variables whose coefficients recombine to the original. The index polynomials X_1..X_w evaluate to the coordinates, in order.",
 ["inputs"], "all functions and points for small q^n; all polynomials, indices, widths",
 "tests compile one function of the first coordinate",
 ["starks/poly_utils.py", "starks/utils.py", "starks/multivariate_polynomial.py"],
 [("construct_multivariate_coefficients, construct_multivariate_dirac_delta, make_multivar, project_to_univariate", "starks/poly_utils.py"), ("generate_Xi_s", "starks/utils.py")],
 ["values at all points, coefficients"])

prop("C13", "Merkle commitments open to, and only to, what was committed",
 "For every list of 4 * 2^k leaves (ints below 2^256, elements of one prime or extension field, or byte strings of equal length), the branch made for any index verifies against the tree's root at that index and returns exactly the committed leaf bytes (or their integer value), and equal lists give equal roots while lists that differ in any leaf, or in the order of leaves, give different roots. A branch of the same shape with any byte of any entry changed, with entries swapped, presented for another index (unless the leaf there is the same), or checked against another root is rejected or, if accepted, returned the leaf really committed at that index. When the number of leaves and their size are given to the verification, branches of any other shape (inner nodes, a deeper path, a leaf split elsewhere) and indices outside the list are refused too. Lists whose length is not a positive multiple of 4 are refused rather than committed to in part, and for every multiple of 4 the root depends on every leaf and on their order. The tree keeps the full node list: twice the number of leaves, root at position 1.",
 ["inputs", "fault_sequences"], "all leaf lists and all tamperings of branches",
 "tests verify a few honest branches",
 ["starks/merkle_tree.py"],
 [("merkelize, mk_branch, verify_branch, permutation of leaves", "starks/merkle_tree.py")],
 ["returned leaf or raised error"])

prop("C14", "Serialised values survive packing, unpacking and decoding",
 "For any number of dimensions and of polynomials, packing evaluation lists over a prime field into Merkle leaves and unpacking an opened leaf gives back, in order and without loss, the 32-byte values of every polynomial at that index. For Z/p (p < 2^256), F_{p^m}, Q/p and univariate polynomials over Z/p, decoding an element's serialisation with the same type gives an equal element, distinct elements of a field have distinct serialisations of one length (32 bytes for Z/p, 32*m for F_{p^m}), and a polynomial serialises to 32 bytes per coefficient in increasing degree. Byte strings that are not a multiple of 32 long are refused when decoding polynomials.",
 ["inputs"], "all values and shapes",
 "tests pack one fixed shape",
 ["starks/merkle_tree.py", "starks/modp.py", "starks/polynomial.py", "starks/finitefield.py", "starks/rationals_modp.py"],
 [("merkelize_polynomial_evaluations, unpack_merkle_leaf", "starks/merkle_tree.py"), ("to_bytes and constructors from bytes", "starks/*.py")],
 ["bytes and decoded elements"])

prop("C15", "Fiat-Shamir challenges are deterministic, admissible and bind all inputs",
 "For any entropy of at least 32 bytes, modulus below 2^24 and count, drawn indices are exactly count many, depend only on the inputs, lie in [0, modulus), and with an exclusion factor e > 1 dividing the modulus are never multiples of e, while every admissible index can occur, draws from a range above 2^16 hardly repeat, and asking for more indices keeps the earlier ones as a prefix. Challenge coefficients (however many) are deterministic functions of the root, pairwise different, change with every byte of the root, and of the requested number. Over a cryptographically large field, the combined polynomial of a STARK changes whenever any single committed trace, remainder or boundary polynomial changes or two different ones are exchanged, is linear in them, is the same for the same root and polynomials, and exceeds the degree bound of the proof (steps times step degree) as soon as a trace or boundary polynomial has degree at least the number of steps.",
 ["inputs", "histories"], "all entropies, moduli, counts, exclusions, polynomial lists",
 "the tests that touch this are commented out or use one seed",
 ["starks/utils.py", "starks/stark.py"],
 [("get_pseudorandom_indices", "starks/utils.py"), ("get_pseudorandom_ks, compute_pseudorandom_linear_combination", "starks/stark.py")],
 ["lists returned, combined polynomial"])

prop("C16", "Proof compression is lossless and never repeats data",
 "For every FRI-shaped proof and every list of branches with at most 65536 compressed items, whose items are neither 2 bytes long nor equal to the internal separators, decompressing the compressed form returns an equal proof, whatever the number of rounds, queries, branches and repetitions, including empty branch lists. In the compressed form no item longer than two bytes occurs twice (every repetition is a two-byte back-reference), and compressing leaves its argument unchanged. The reported compressed length counts each item's bytes plus one for every 32-byte item.",
 ["inputs"], "all proof shapes and repetition patterns up to 65536 items",
 "tests compress one generated structure",
 ["starks/compression.py"],
 [("compress_fri, compress_branches, decompress_*", "starks/compression.py")],
 ["compressed lists, decompressed proofs"])

prop("C17", "The AIR records exactly the computation it was given",
 "The computational trace of a computation starts at the input, has the requested number of states, each state is the step polynomials applied to the whole previous state, and the output is the last state. For an AIR, the i-th constraint polynomial (in 2w variables) vanishes on a pair of states exactly when the i-th register of the second is the i-th step polynomial of the first; the witness lists the trace register by register, boundary constraints fix exactly the w input values at time 0, and degrees are the maximum total degrees. The circuit accepts the recorded trace, and rejects it after any single register of any state is changed in a way that breaks a transition.",
 ["inputs", "histories"], "all step polynomials, widths, fields, inputs, tamperings",
 "tests build three fixed AIRs and check one trace",
 ["starks/air.py"],
 [("get_computational_trace, generate_constraint_polynomials, generate_monotone_circuit, generate_boundary_constraints", "starks/air.py")],
 ["computational_trace, output, Polys, B, C, generate_witness()"])

prop("C18", "Honest STARK proofs verify",
 "For every computation over a prime field in the supported domain (steps and extension factor powers of two from 2 on, step degree not above the extension factor, any number of registers, steps*extension dividing p-1), the prover turns the valid execution trace for any input, zero values included, into a proof that the verifier accepts, whatever the number of spot checks asked for. The intermediate polynomials are right: trace polynomials take the witness values along the subgroup, constraint polynomials vanish on every step but the last, and remainder and boundary quotients are exact. Proving is deterministic and leaves witness and boundary unchanged.",
 ["inputs", "configurations"], "all step polynomials, inputs, widths, sizes",
 "every STARK test in the repository is commented out",
 ["starks/stark.py", "starks/fri.py", "starks/merkle_tree.py", "starks/fft.py", "starks/utils.py"],
 [("mk_proof, verify_proof and the construct_* helpers", "starks/stark.py")],
 ["verify_proof result, polynomials returned by the helpers"])

prop("C19", "Tampered proofs and false statements are rejected by the STARK verifier",
 "A witness with any wrong register value in any step does not yield an accepted proof: the prover refuses it or the verifier rejects. An accepted proof stops being accepted (False or an error) after changing any byte of its roots, of any spot-check branch entry or of any FRI component, after swapping branches of different positions, and when verified for a different input, a different final output, or a different step polynomial or number of steps for which the claim is false; values that break the transition relation, the boundary relation or the linear combination for a single register at a single sampled position are enough for rejection, whatever else is consistent, and committing to polynomials of too high a degree (traces of more coefficients than steps included) does not help when the extension factor is at least 4 and twice the step degree, nor does choosing the evaluations or the combination once the other is committed; every opening must have the shape of the tree it belongs to, so neither inner nodes in the place of the last layer or of a leaf nor openings below the leaves help. Prover and verifier draw the same spot-check positions, none of them a multiple of the extension factor, and as many as the security factor asks.",
 ["inputs", "fault_sequences"], "all byte positions of all proof parts, all false statements",
 "no active test verifies a tampered proof",
 ["starks/stark.py", "starks/fri.py", "starks/merkle_tree.py"],
 [("verify_proof, verify_proof_at_position, construct_remainder_polynomials", "starks/stark.py")],
 ["verify_proof result"])

prop("C20", "The low-degree proof accepts low degree and rejects everything else",
 "For a polynomial of degree below the claimed bound over a smooth multiplicative subgroup (order a power of two, at least 4 and at least twice the bound; bound at most 16 or 4 times such a bound; no excluded positions, or multiples of 4 or 8 excluded with enough positions left to exceed the final bound), the generated proximity proof verifies against the Merkle root of its evaluations. Over a cryptographically large field it is rejected when the polynomial's degree is not below the bound, when evaluations are corrupted in many places, when a single wrong value is met by any one of the queries of any round or stands among the final values tested, when any byte of any root, branch entry or final value is changed, when checked against another root, another subgroup or a smaller bound than the degree, when an opening has another shape than the tree it belongs to (inner nodes, deeper paths, leaves split elsewhere), when the last layer is not complete, or when the word or the next layer was chosen knowing which rows are opened. Any number of spot checks works when prover and verifier use the same. The number of rounds is the number of times the bound is divided by 4 until it is at most 16.",
 ["inputs", "fault_sequences"], "all polynomials, degrees, subgroup orders, tamperings",
 "the FRI tests are commented out",
 ["starks/fri.py", "starks/merkle_tree.py", "starks/poly_utils.py"],
 [("SmoothSubgroupFRI", "starks/fri.py")],
 ["verify_proximity_proof result"])

prop("C21", "Committing to a function on a small binary affine space interpolates it",
 "For a binary extension field and an affine space of 4 or 8 elements with rate 1 (a single round), the commitment to any function on the space is the coefficient list of the unique polynomial of degree below the space's size that agrees with the function at every element. The challenge derived from any text is a deterministic element of the field, equal to its SHA-384 bits read as a coefficient list, reduced modulo the generator. Neither changes the space or calls the function outside it.",
 ["inputs", "configurations"], "all functions and bases on small spaces",
 "one test commits to one polynomial and inspects nothing",
 ["starks/fri.py", "starks/reedsolomon.py", "starks/poly_utils.py"],
 [("AffineSubspaceFRI.commit, select_random", "starks/fri.py")],
 ["coefficients returned, points at which the function is called"])

prop("C22", "Binary-field numbers compare, add and exponentiate like integers",
 "Reading an element of F_{2^m} as the integer whose bits are its coefficients, the comparison returns 1 exactly when the left integer is <= the right one and 0 otherwise. Regular binary addition returns the element whose coefficients are the bits of the integer sum (reduced by the field's generator when it overflows m bits). The power-of-two operation on an element with value v returns X^v in the field, with value 0 giving 1.",
 ["inputs"], "all pairs of elements, all m and moduli (exhaustively for small m)",
 "tests check one or two pairs",
 ["starks/finitefield.py"],
 [("LT, Regular_Binary_Addition, two_pow, add_binary_nums", "starks/finitefield.py")],
 ["returned element or bit"])

prop("C23", "Floating-point operations follow their documented component formulas",
 "On numbers (v, p, z, s) over F_{2^m}: a product or quotient has sign s_a XOR s_b, significand v_a*v_b or v_a/v_b, and z is set with v = p = 0 when an operand (for a quotient: the dividend) is zero; non-zero products add, and quotients subtract, the exponents and then add the bits of (sum of the degrees of the significands or of v_a and the inverse of v_b) - (m-1) when that is positive. Adding zero returns the other operand's components, a - b equals a + (b with its sign flipped), and a sum with exponents p_min, p_max is v_max*2^delta + v_min at exponent p_min with delta = p_max - p_min (or v_max at p_max when delta exceeds m), the sign being that of the operand with the larger exponent, or larger significand on a tie (either sign when both are equal), and z = 1 exactly when the significand is 0; a power is the repeated product, as often as the integer value of the exponent's fixed point says, and a negative exponent divides 1 by it. Numbers are equal exactly when all components are, or both are zero; dividing by zero raises ZeroDivisionError, conversion to fixed point gives (v * 2^p, s) or (0, 0) for zero, and no operation modifies its operands.",
 ["inputs", "histories"], "all components, including aliased operands",
 "tests compare with an equality that is true whenever the zero flags agree",
 ["starks/floatingpoint.py", "starks/finitefield.py"],
 [("Fp", "starks/floatingpoint.py:FloatingPoint")],
 ["components of results and operands"])

prop("C24", "Primality and Blum-Blum-Shub building blocks are number-theoretically right",
 "The probabilistic primality test never rejects a prime and, at its default accuracy, rejects every composite (Carmichael numbers, squares and strong pseudoprimes included), 0, 1 and negatives. Decomposition returns (e, r) with n = 2^e * r and r odd; a good prime is a prime congruent to 3 mod 4 and the search returns one below 2^bits; a modulus is a product of two of them. Parity is the number of set bits mod 2, and the generator squares its argument modulo one fixed modulus: deterministic, and a permutation of the quadratic residues coprime to it.",
 ["inputs", "configurations"], "all n, all random streams",
 "the misc tests cannot be collected",
 ["misc/primality.py", "misc/blum_blum_shub.py"],
 [("Miller-Rabin", "misc/primality.py"), ("blum_blum_shub", "misc/blum_blum_shub.py")],
 ["return values"])

prop("C25", "Commitments open to the committed value and to nothing else",
 "For every bit, and every integer below 2^bits, the revealed secret verifies against the commitment and decodes to exactly the committed value, however many bits the scheme has. A commitment with its permutation value replaced, a secret replaced by one with another image, at any position of an integer commitment, or an opening of some of its bits only, is rejected, and an integer that does not fit the bits is refused. Committing again with the same scheme to a different value gives a different commitment, and the committed bit is hidden by the parity of the secret, so both commitments occur for either bit.",
 ["inputs", "fault_sequences"], "all bits, integers, widths, tamperings",
 "the misc tests cannot be collected",
 ["misc/commitment.py", "misc/blum_blum_shub.py"],
 [("BBSBitCommitmentScheme / Verifier, BBSIntCommitmentScheme / Verifier", "misc/commitment.py")],
 ["verify and decode results"])

prop("C26", "The graph-isomorphism proof is complete and sound, and can be simulated",
 "For graphs on the vertices 1..n whose highest vertex lies on an edge: with a genuine isomorphism the honest protocol is accepted in every round and for either challenge. The verifier accepts exactly when the presented map is one-to-one on the vertices of the prover's graph H and sends H onto the challenged graph edge by edge, so maps that merge vertices, wrong maps, wrong graphs and a prover without an isomorphism (when challenged on the other graph) are rejected. Random permutations really permute, permutation and inverse functions are mutually inverse, simulated transcripts are accepted by the verifier, and the protocol repeats until a cheating prover's chance is below the tolerance.",
 ["inputs", "histories"], "all graphs, permutations, challenges, random streams",
 "the misc tests cannot be collected",
 ["misc/zero_knowledge.py"],
 [("ZKProver, ZKVerifier, simulate_protocol", "misc/zero_knowledge.py")],
 ["accept results"])

prop("C27", "The 3-colouring proof is complete, sound per edge and reveals only one edge",
 "With a proper 3-colouring every round of the protocol accepts, for every edge the verifier may choose, in either orientation. An edge whose ends have the same colour, or an end with a value that is not one of the three colours, is rejected when chosen, and so are reveals whose secrets do not match the commitments; the prover refuses to reveal anything but an edge of the graph. In each round the revealed colours are two different values among 0,1,2 whose assignment is freshly permuted, and the chosen edge is one of the graph's edges, each of which can be chosen.",
 ["inputs", "histories", "fault_sequences"], "all graphs, colourings, edges, random streams",
 "the misc tests cannot be collected",
 ["misc/zkp_3_coloring.py", "misc/commitment.py", "misc/zero_knowledge.py"],
 [("ZK3ColProver, ZK3ColVerifier", "misc/zkp_3_coloring.py")],
 ["accept results, revealed colours"])

prop("C28", "The ledger chains blocks immutably and includes each transaction once",
 "After any sequence of new transactions and mined blocks, the chain starts with the genesis block, indices are 1,2,3,..., each block's previous hash is the hash of the block before it, the chain is valid, and every submitted transaction appears exactly once, in order, in the block whose index was announced for it. Changing any field of any block that has a successor, dropping an interior block, reordering blocks, or inserting a block makes the chain invalid. Block hashes depend on every field and not on key order; a proof of work is the smallest non-negative integer passing the proof test, which is exactly that the SHA-256 of previous proof, proof and previous hash starts with four zero hex digits.",
 ["histories", "fault_sequences"], "all operation sequences and all single-field tamperings",
 "the only test cannot be collected and builds an empty object",
 ["misc/blockchain.py"],
 [("new_block, new_transaction, valid_chain, hash, proof_of_work, valid_proof", "misc/blockchain.py")],
 ["chain, valid_chain result"])

prop("C29", "Nodes keep a valid chain under concurrency and adopt only longer valid ones",
 "Resolving conflicts replaces a node's chain exactly when some registered peer answers with status 200 and a valid chain strictly longer than its own, and then with a longest such chain; whatever lengths peers claim, shorter, equal or invalid chains are never adopted, nor is any answer that is no chain: when a peer is unreachable or answers with garbage the call may fail, but chain and pending transactions stay as they were unless another peer's longer valid chain is adopted. Registering an address without a host raises ValueError and registers nothing. Over HTTP, valid transactions are acknowledged with the index of the block that then contains them, incomplete ones are refused with 400 and change nothing, mining adds one block paying exactly one reward to the node, and registering keeps each peer's host and port once, given with or without a scheme. Under any schedule of concurrent requests in which no longer chain is adopted, the chain stays valid and each acknowledged transaction and each reward is in it or pending exactly once; every chain answer is one consistent valid snapshot with its own length, and no request fails because of another one.",
 ["schedules", "histories", "fault_sequences"], "all peer answers, request sequences and thread schedules",
 "no test runs the node or a peer",
 ["misc/run_blockchain.py", "misc/blockchain.py"],
 [("resolve_conflicts, register_node", "misc/blockchain.py"), ("HTTP handlers and their lock", "misc/run_blockchain.py")],
 ["HTTP responses, chain"])

prop("C30", "MiMC, power cycles and size tests are exact",
 "The MiMC permutation with s steps applies x -> x^3 + k_i mod 2^256 - 2^32*351 + 1 exactly s-1 times, cycling through the round constants from the first one. The power cycle of a non-zero field element r lists 1, r, r^2, ... up to but excluding the return to 1: distinct elements, as many as the element's order. A positive integer is reported a power of two exactly when it is one.",
 ["inputs"], "all inputs, steps, constants, fields, elements",
 "tests run MiMC once and check small cycles",
 ["starks/utils.py"],
 [("mimc, get_power_cycle, is_a_power_of_2", "starks/utils.py")],
 ["return values"])

prop("C31", "The algebraic placement keeps the AIR's constraints per register",
 "For an AIR-like computation over a binary field, the spaces of the placement have the documented dimension, generators and shifts: H, H0, H1 have t, t-1, t-1 generators 1, g, g^2, ..., H is the disjoint union of H0 and H1, Lcmp has N = 1+k+R+t+d generators g^0..g^(N-1) and shift g^N, and L additionally the generator g^N(1+g). The boundary polynomial of a register vanishes exactly at g^i mod zeta for that register's constrained times, its interpolant takes the constrained values there, every register has the identity and the two cyclic neighbours gx and gx + zeta, and the rates are (2^(k+t) - deg Z_j)/|L| and (1 + 2^(k+t+d))/|Lcmp|, a space with n generators having 2^n elements. The ALI random constraint is the combination of all constraint polynomials with exactly the given coefficients.",
 ["inputs", "configurations"], "all widths, step counts, boundary sets, coefficients",
 "the APR tests fail at the pinned commit and the ALI test is empty",
 ["starks/apr.py", "starks/ali.py", "starks/reedsolomon.py"],
 [("construct_* of APR", "starks/apr.py"), ("generate_random_constraint", "starks/ali.py")],
 ["spaces, polynomials, rates"])

prop("C32", "Gaussian elimination solves non-singular linear systems",
 "For a square non-singular system over a prime or extension field, given as degree-0 polynomials in an augmented matrix, elimination returns the unique solution of the original system; a singular system raises. The result does not depend on the order in which the equations are given. The comparison used for pivoting returns 1 exactly when the first polynomial over GF(2), read as the integer whose bits are its coefficients, is at least the second.",
 ["inputs"], "all small systems (exhaustively for n <= 3), random larger ones",
 "tests solve one system",
 ["starks/poly_utils.py"],
 [("gauss, max", "starks/poly_utils.py")],
 ["solution vector"])

prop("C33", "Values are immutable: operations have no side effects or hidden history",
 "No arithmetic, comparison, evaluation, serialisation, transform, interpolation, Merkle, compression or proof operation of the library changes the operands, lists, dictionaries or proofs it is given, and results never share state in a way that lets a later operation change an earlier value. Repeating any operation on equal inputs gives equal results, whatever operations (on whatever types) ran in between. In particular in-place operators (+=, -=, *=) rebind and leave the other references to the old value intact.",
 ["histories"], "all interleavings of operations over shared values",
 "unit tests look at one call at a time",
 ["starks/numbertype.py", "starks/modp.py", "starks/finitefield.py", "starks/polynomial.py", "starks/multivariate_polynomial.py", "starks/floatingpoint.py", "starks/fft.py", "starks/merkle_tree.py", "starks/compression.py"],
 [("constructors build new values", "starks/*.py")],
 ["snapshots of every live value before and after each operation"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
