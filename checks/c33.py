"""C33 immutability: a world of shared live values under random interleavings of library operations."""
import copy
import random
from fractions import Fraction

from vlib import ref
from vlib.kits import kit, rand_field, rand_prime
from vlib.starkgen import Inst, instance

RULE = ("a case is one world of live values (elements, polynomials, multivariate polynomials, lists, Merkle trees, spaces, floats, proofs) shared by 60 to 400 "
        "random library operations; after each one every live value and argument is compared with its snapshot, and earlier operations are run again on the "
        "same or on copied arguments; distinct non-trivial = distinct (operation, argument snapshots)")
REQUIRED = {"op": 15000, "live_check": 300000, "rerun": 4000, "rerun_copied": 1500, "inplace": 800, "spoiled_result": 500, "new_type": 150, "raised": 100,
            "el_op": 4000, "poly_op": 3000, "multi_op": 1000, "list_op": 2000, "tree_op": 1000, "space_op": 300, "float_op": 600, "proof_op": 60, "compress_op": 300}
LIMITS = {"cpu": 200}


def cases(rng, tier):
    for i in range(160 if tier == "quick" else 5000):
        yield {"what": "values", "steps": 200 if i % 4 else 400}
    for i in range(10 if tier == "quick" else 300):
        yield {"what": "proofs", "steps": 12}


def snap(x):
    """What a value denotes, independent of representation and of the identity of its parts."""
    t = type(x)
    if t in (int, bool, str, bytes, float) or x is None:
        return x
    if t in (list, tuple):
        return ("seq",) + tuple(snap(y) for y in x)
    if t is dict:
        return ("dict",) + tuple(sorted(((snap(k), snap(v)) for k, v in x.items()), key=repr))
    if t is Fraction:
        return ("Q", x.numerator, x.denominator)
    name = getattr(t, "__name__", "")
    if t is type:
        return ("type", id(x))
    if hasattr(x, "basis") and hasattr(x, "shift"):
        return ("space", snap(list(x.basis)), snap(x.shift), id(x.field))
    if hasattr(x, "v") and hasattr(x, "z") and hasattr(x, "s"):
        return ("float", name, snap(x.v), snap(x.p), int(x.z), int(x.s))
    if hasattr(x, "poly"):
        return ("Fq", name, snap(x.poly), snap(getattr(t, "ideal_generator", None)))
    if hasattr(x, "coefficients"):
        cs = x.coefficients
        if isinstance(cs, dict):
            return ("multi", name) + tuple(sorted((k, snap(v)) for k, v in cs.items()))
        return ("poly", name) + tuple(snap(c) for c in cs)
    if hasattr(x, "m") and hasattr(x, "n") and hasattr(t, "p") and not callable(getattr(x, "m")) and name.startswith("Q"):
        return ("Qp", name, x.m * pow(x.n, -1, x.p) % x.p if x.n % x.p else (x.m, x.n))
    if hasattr(x, "n"):
        return ("Z", name, int(x.n))
    raise ValueError("no snapshot of %s" % t)


def outcome(fn, args):
    try:
        return fn(*args), None
    except Exception as e:
        return None, type(e).__name__


class World:
    def __init__(self, mon, rng):
        self.mon, self.rng = mon, rng
        self.live = []      # [value, snapshot, label]
        self.pool = {}      # kind -> values
        self.hist = []      # (name, fn, args, outcome snapshot)

    def put(self, kind, v, label="made"):
        if type(v) is int: return   # a sum over nothing
        self.pool.setdefault(kind, []).append(v)
        if len(self.pool[kind]) > 14:
            self.pool[kind].pop(self.rng.randrange(14))
        self.live.append([v, snap(v), label])
        if len(self.live) > 45:
            self.live.pop(self.rng.randrange(45))

    def get(self, kind):
        return self.rng.choice(self.pool[kind])

    def check_live(self, name, args):
        self.mon.event("live_check", len(self.live))
        self.mon.ops += len(self.live)
        for v, s, label in self.live:
            now = snap(v)
            if now != s:
                self.mon.fail("live_value_changed", op=name, args=args, value_of=label, before=s, now=now)

    def run(self, name, fn, args, kind=None):
        """kind: where the result goes (None: nowhere)."""
        mon, rng = self.mon, self.rng
        before = [snap(a) for a in args]
        res, exc = outcome(fn, args)
        after = [snap(a) for a in args]
        mon.equal(after, before, "argument_changed", op=name)
        got = ("raised", exc) if exc else snap(res)
        self.check_live(name, before)
        mon.event("op")
        if exc: mon.event("raised")
        mon.seen(name, before)
        self.hist.append((name, fn, args, before, got))
        if len(self.hist) > 60:
            self.hist.pop(rng.randrange(60))
        if exc is None:
            if kind is not None:
                self.put(kind, res, name)
            elif type(res) is list and res and rng.random() < .3:
                # the caller owns the list it was given: emptying it must not matter to anyone
                res.clear()
                mon.event("spoiled_result")
                mon.equal([snap(a) for a in args], before, "result_aliases_argument", op=name)
                self.check_live(name + " then clearing its result", before)
                r2, e2 = outcome(fn, args)
                mon.equal(("raised", e2) if e2 else snap(r2), got, "result_list_is_shared", op=name, args=before)
        return res

    def rerun(self):
        name, fn, args, before, got = self.rng.choice(self.hist)
        mon = self.mon
        mon.equal([snap(a) for a in args], before, "old_argument_changed", op=name)
        copied = self.rng.random() < .4
        a = copy.deepcopy(args) if copied else args
        r, e = outcome(fn, a)
        mon.equal(("raised", e) if e else snap(r), got, "repeat_differs", op=name, args=before, copied=copied)
        self.check_live("again " + name, before)
        mon.event("rerun")
        if copied: mon.event("rerun_copied")


BIN = {"add": lambda a, b: a + b, "sub": lambda a, b: a - b, "mul": lambda a, b: a * b, "eq": lambda a, b: a == b, "ne": lambda a, b: a != b,
       "truediv": lambda a, b: a / b}


def iadd(a, b):
    a += b
    return a


def isub(a, b):
    a -= b
    return a


def imul(a, b):
    a *= b
    return a


INPLACE = {"iadd": iadd, "isub": isub, "imul": imul}


def el_ops(W, k, tag):
    rng = W.rng
    E = "el" + tag
    r = rng.random()
    a, b = W.get(E), W.get(E)
    W.mon.event("el_op")
    if r < .35:
        n = rng.choice(list(BIN))
        W.run("el " + n, BIN[n], [a, b], E if n not in ("eq", "ne") else None)
    elif r < .55:
        n = rng.choice(list(INPLACE))
        c = a
        W.mon.event("inplace")
        W.run("el " + n, INPLACE[n], [c, b if rng.random() < .7 else rng.randrange(-3, 9)], E)
    elif r < .65: W.run("el neg", lambda x: -x, [a], E)
    elif r < .75: W.run("el pow", lambda x, n: x**n, [a, rng.randrange(0, 9)], E)
    elif r < .82 and k.kind != "Q": W.run("el inverse", lambda x: x.inverse(), [a], E)
    elif r < .92:
        n = rng.choice(["add", "sub", "mul", "eq"])
        c = rng.randrange(-5, 20)
        if rng.random() < .5: W.run("el %s int" % n, BIN[n], [a, c], E if n != "eq" else None)
        else: W.run("int %s el" % n, BIN[n], [c, a], E if n != "eq" else None)
    elif k.kind != "Q": W.run("el to_bytes", lambda x: x.to_bytes(), [a])


def poly_ops(W, k, tag):
    from starks.euclidean import extended_euclidean_algorithm, gcd
    rng = W.rng
    E, P = "el" + tag, "poly" + tag
    r = rng.random()
    a, b = W.get(P), W.get(P)
    W.mon.event("poly_op")
    if len(b.coefficients) > 14 or len(a.coefficients) > 14:
        a, b = k.poly([k.R.rand(rng) for _ in range(3)]), k.poly([k.R.rand(rng) for _ in range(2)])
        W.put(P, a)
    if r < .3:
        n = rng.choice(["add", "sub", "mul", "eq", "ne"])
        W.run("poly " + n, BIN[n], [a, b], P if n not in ("eq", "ne") else None)
    elif r < .45:
        n = rng.choice(list(INPLACE))
        W.mon.event("inplace")
        W.run("poly " + n, INPLACE[n], [a, b if rng.random() < .8 else rng.randrange(5)], P)
    elif r < .55: W.run("poly divmod", divmod, [a, b]) if not b.is_zero() else None
    elif r < .62 and not b.is_zero(): W.run("poly mod", lambda x, y: x % y, [a, b], P)
    elif r < .66: W.run("poly pow", lambda x, n: x**n, [a, rng.randrange(0, 4)], P)
    elif r < .78: W.run("poly call", lambda f, x: f(x), [a, W.get(E)], E)
    elif r < .81 and not b.is_zero() and b.degree() > 0: W.run("poly powmod", lambda f, n, m: f.powmod(n, m), [a, rng.randrange(0, 12), b], P)
    elif r < .85 and k.kind != "Q": W.run("poly to_bytes", lambda f: f.to_bytes(), [a])
    elif r < .9: W.run("poly measures", lambda f: [f.degree(), len(f), f.is_zero(), abs(f)], [a])
    elif r < .94: W.run("poly copy", lambda f: type(f)(f), [a], P)
    elif k.kind == "Z" and not (a.is_zero() and b.is_zero()):
        if rng.random() < .5: W.run("poly gcd", gcd, [a, b], P)
        else: W.run("poly extended gcd", extended_euclidean_algorithm, [a, b])
    else: W.run("poly iterate", lambda f: list(f), [a])


def multi_ops(W, k, tag, nv):
    from starks.multivariate_polynomial import remove_zero_coefficients
    from starks.poly_utils import make_multivar, project_to_univariate
    rng = W.rng
    E, P, M = "el" + tag, "poly" + tag, "multi" + tag
    a, b = W.get(M), W.get(M)
    if len(a.coefficients) > 12 or len(b.coefficients) > 12 or max([sum(m) for m in list(a.coefficients) + list(b.coefficients)], default=0) > 12:
        a = k.multi({(0,) * nv: k.R.one, (1,) + (0,) * (nv - 1): k.R.rand(rng)}, nv)
        W.put(M, a)
        b = a
    r = rng.random()
    W.mon.event("multi_op")
    if r < .3:
        n = rng.choice(["add", "sub", "mul", "eq", "ne"])
        W.run("multi " + n, BIN[n], [a, b], M if n not in ("eq", "ne") else None)
    elif r < .45:
        n = rng.choice(list(INPLACE))
        W.mon.event("inplace")
        W.run("multi " + n, INPLACE[n], [a, b if rng.random() < .8 else rng.randrange(5)], M)
    elif r < .52: W.run("multi pow", lambda x, n: x**n, [a, rng.randrange(0, 3)], M)
    elif r < .57: W.run("multi neg", lambda x: -x, [a], M)
    elif r < .72: W.run("multi call", lambda f, *xs: f(xs), [a] + [W.get(E) for _ in range(nv)], E)
    elif r < .82 and nv > 1: W.run("project", lambda f, i: project_to_univariate(f, i, k.T, nv), [a, rng.randrange(nv)])
    elif r < .9 and k.kind == "Z": W.run("lift", lambda f, i: make_multivar(f, i, k.T, nv), [W.get(P), rng.randrange(nv)], M)
    elif r < .95: W.run("multi measures", lambda f: [f.degree(), len(f), list(f)], [a])
    else:
        d = {m: c for m, c in a.coefficients.items()}
        W.run("multi from dict", lambda d: k.multi_type(nv)(d), [d], M)
        z = dict(d)
        for _ in range(2): z.setdefault(tuple(rng.randrange(4) for _ in range(nv)), k.T(0))
        W.run("multi from dict with zeros", lambda d: k.multi_type(nv)(d), [z], M)
        W.run("drop zeros", remove_zero_coefficients, [z])


def list_ops(W, k, tag):
    from starks import fft, poly_utils as pu
    rng = W.rng
    E, P, L = "el" + tag, "poly" + tag, "list" + tag
    R = k.R
    r = rng.random()
    W.mon.event("list_op")

    def distinct(n):
        out = []
        for _ in range(20 * n):
            x = R.rand(rng)
            if x not in out: out.append(x)
            if len(out) == n: break
        return [k.lib(x) for x in out]

    if r < .1: W.put(L, [W.get(E) for _ in range(rng.choice([1, 3, 4, 8]))])
    elif r < .25:
        W.run("multi_inv", lambda v: pu.multi_inv(k.T, v), [W.get(L)], L if rng.random() < .5 else None)
    elif r < .35:
        xs = distinct(rng.randint(1, 5))
        W.run("lagrange_interp", lambda x, y: pu.lagrange_interp(k.T, x, y), [xs, [W.get(E) for _ in xs]], P)
    elif r < .42:
        xs = distinct(2)
        if len(xs) == 2: W.run("lagrange_interp_2", lambda x, y: pu.lagrange_interp_2(k.T, x, y), [xs, [W.get(E) for _ in xs]], P)
    elif r < .49:
        xs = distinct(4)
        if len(xs) == 4: W.run("lagrange_interp_4", lambda x, y: pu.lagrange_interp_4(k.T, x, y), [xs, [W.get(E) for _ in xs]], P)
    elif r < .56:
        xs = [distinct(4) for _ in range(rng.randint(1, 3))]
        if all(len(x) == 4 for x in xs):
            W.run("multi_interp_4", lambda x, y: pu.multi_interp_4(k.T, x, y), [xs, [[W.get(E) for _ in x] for x in xs]])
    elif r < .64: W.run("zpoly", lambda x: pu.zpoly(k.T, x), [W.get(L)[:5]], P)
    elif r < .72: W.run("poly from list", lambda v: k.poly_type()(v), [W.get(L)], P)
    else:
        root = W.root(k)
        if root is None:
            return W.run("zpoly", lambda x: pu.zpoly(k.T, x), [W.get(L)[:5]], P)
        w, n = root
        v = [W.get(E) for _ in range(n)]
        if r < .79:
            from starks.utils import get_power_cycle
            W.run("power_cycle", lambda x: get_power_cycle(x, k.T), [w])
        elif r < .86:
            f = k.poly([R.rand(rng) for _ in range(rng.randrange(n + 1))])
            W.run("fft", lambda w, f: fft.NonBinaryFFT(k.T, w).fft(f), [w, f], L if rng.random() < .5 else None)
        elif r < .93 and k.kind == "Z":
            W.run("inv_fft", lambda w, v: fft.NonBinaryFFT(k.T, w).inv_fft(v), [w, v], P)
        else:
            W.run("mul_polys", fft.mul_polys, [v[:rng.randint(1, n)], [W.get(E) for _ in range(rng.randint(1, n))], w])


def tree_ops(W, k, tag):
    from starks import merkle_tree as mt, utils
    rng = W.rng
    E, T, B, L = "el" + tag, "tree" + tag, "branch" + tag, "list" + tag
    r = rng.random()
    W.mon.event("tree_op")
    if r < .2 or T not in W.pool:
        n = rng.choice([4, 8, 16])
        c = rng.random()
        if c < .4: leaves = [W.get(E) for _ in range(n)] if k.kind == "Z" else [rng.randrange(99) for _ in range(n)]
        elif c < .7: leaves = [rng.randrange(2**64) for _ in range(n)]
        else: leaves = [rng.randbytes(32) for _ in range(n)]
        W.put(T + "leaves", leaves)
        W.run("merkelize", mt.merkelize, [leaves], T)
    elif r < .5:
        t = W.get(T)
        W.run("mk_branch", mt.mk_branch, [t, rng.randrange(len(t) // 2)], B if rng.random() < .5 else None)
    elif r < .7 and B in W.pool:
        t, b = W.get(T), W.get(B)
        W.run("verify_branch", mt.verify_branch, [t[1], rng.randrange(2**(len(b) - 1)), b, rng.random() < .5])
    elif r < .85:
        W.run("indices", utils.get_pseudorandom_indices, [rng.randbytes(32) if rng.random() < .5 else W.get(T)[1], 64, rng.choice([1, 5, 40]), rng.choice([0, 4])])
    elif r < .92:
        n = rng.choice([4, 8])
        ev = [[W.get(E) for _ in range(n)] for _ in range(3)] if k.kind == "Z" else None
        if ev: W.run("merkelize_polynomial_evaluations", mt.merkelize_polynomial_evaluations, [1, ev], T)
    else:
        W.run("unpack", mt.unpack_merkle_leaf, [rng.randbytes(32 * 6), 2, 3])


def space_ops(W, k, tag):
    from starks import fri, poly_utils as pu, reedsolomon as rs
    from starks.modp import IntegersModP
    rng = W.rng
    E, S, P = "el" + tag, "space" + tag, "poly" + tag
    W.mon.event("space_op")
    r = rng.random()
    if r < .25 or S not in W.pool:
        base = IntegersModP(k.p)
        nb = 1 if k.p > 3 else rng.randint(1, 3)
        basis = [W.get(E) for _ in range(nb)]
        W.run("AffineSpace", lambda b, s: rs.AffineSpace(base, b, s), [basis, W.get(E)], S)
    elif r < .6: W.run("space iterate", lambda s: list(s), [W.get(S)])
    elif r < .7: W.run("space len", len, [W.get(S)])
    elif r < .8: W.run("select_subspace", lambda s, n: fri.select_subspace(s, n), [W.get(S), rng.randint(0, 2)])
    elif r < .9: W.run("eval_on_subspace", fri.eval_on_subspace, [W.get(P), W.get(S)])
    else:
        s = W.get(S)
        W.run("vanishing", lambda s: pu.construct_affine_vanishing_polynomial(k.T, s), [s], P if len(s) <= 8 else None)


def float_ops(W, k, tag):
    from starks.floatingpoint import FloatingPoint
    rng = W.rng
    F, E = "float" + tag, "el" + tag
    Fl = FloatingPoint(k.T)
    W.mon.event("float_op")
    if F not in W.pool or len(W.pool[F]) < 6:
        z = rng.random() < .15
        W.put(F, Fl(k.lib(k.R.zero if z else k.R.randnz(rng)), k.lib(k.R.zero if z else k.R.rand(rng)), int(z), rng.randrange(2)))
        return
    a, b = W.get(F), W.get(F)
    r = rng.random()
    if r < .5:
        n = rng.choice(["add", "sub", "mul", "truediv"])
        W.run("float " + n, BIN[n], [a, b], F)
    elif r < .75:
        n = rng.choice(list(INPLACE))
        W.mon.event("inplace")
        W.run("float " + n, INPLACE[n], [a, b], F)
    elif r < .85: W.run("float fix", lambda x: list(x.Float_to_Fix()), [a])
    elif r < .92: W.run("element LT", lambda x, y: x.LT(y), [W.get(E), W.get(E)])
    else:
        n = rng.randrange(4)
        e = Fl(k.lib(k.R.unnum(min(n, k.R.size - 1))), k.lib(k.R.zero), 0, 0)
        W.put(F, e)
        W.run("float pow", lambda x, y: x**y, [a, e], F)


def compress_ops(W, tag):
    from starks import compression as C
    rng = W.rng
    W.mon.event("compress_op")
    pool = [rng.randbytes(rng.choice([32, 32, 5])) for _ in range(5)]

    def it(): return rng.choice(pool) if rng.random() < .5 else rng.randbytes(32)
    r = rng.random()
    if r < .3 or "branches" not in W.pool:
        W.put("branches", [[it() for _ in range(rng.randint(0, 4))] for _ in range(rng.randint(0, 4))])
        W.put("fri", [[it(), [[[it() for _ in range(3)] for _ in range(2)] for _ in range(rng.randint(0, 2))]] for _ in range(rng.randint(0, 2))]
              + [[it() for _ in range(3)]])
    elif r < .5: W.run("compress_branches", C.compress_branches, [W.get("branches")], "cbranches")
    elif r < .7: W.run("compress_fri", C.compress_fri, [W.get("fri")], "cfri")
    elif r < .8 and "cbranches" in W.pool: W.run("decompress_branches", C.decompress_branches, [W.get("cbranches")], "branches" if rng.random() < .4 else None)
    elif r < .9 and "cfri" in W.pool: W.run("decompress_fri", C.decompress_fri, [W.get("cfri")], "fri" if rng.random() < .4 else None)
    elif "cfri" in W.pool: W.run("bin_length", C.bin_length, [W.get("cfri")])


def new_type(W):
    """Build further types; nothing already built may notice."""
    rng = W.rng
    r = rng.random()
    W.mon.event("new_type")
    if r < .4: k = kit(["Z", rand_prime(rng)])
    elif r < .8: k = kit(rand_field(rng, 2**12))
    else: k = kit(["Qp", rand_prime(rng)])
    x, y = k.lib(k.R.rand(rng)), k.lib(k.R.randnz(rng))
    k.poly_type()([x, y]) * k.poly_type()([y, x])
    x * y + x / y
    W.check_live("building %s" % k.T.__name__, [])


def values(spec, mon):
    rng = random.Random(spec["seed"])
    W = World(mon, rng)
    kits = [kit(["Z", rng.choice([2, 3, 5, 7, 17, 97, 257, 65537, ref.P256])]), kit(rand_field(rng, 2**16)), kit(["Z", rand_prime(rng)])]
    kits.append(kit(rand_field(rng, 2**12)) if rng.random() < .5 else kit(["Qp", rand_prime(rng)]))
    if rng.random() < .3: kits.append(kit(["Q"]))
    bink = None
    while bink is None:
        f = rand_field(rng, 2**10)
        if f[1] == 2: bink = kit(f)
    kits.append(bink)

    roots = {}

    def root(k):
        if id(k) not in roots:
            roots[id(k)] = None
            if k.kind in ("Z", "F") and k.p > 2:
                q = k.R.p if k.kind == "Z" else k.R.size
                for n in (8, 4, 16):
                    if (q - 1) % n == 0:
                        for _ in range(30):
                            w = k.R.pow(k.R.randnz(rng), (q - 1) // n)
                            if k.R.pow(w, n // 2) != k.R.one:
                                roots[id(k)] = (k.lib(w), n)
                                break
                    if roots[id(k)]: break
        return roots[id(k)]
    W.root = root
    nv = {}
    for i, k in enumerate(kits):
        tag = str(i)
        for _ in range(6): W.put("el" + tag, k.lib(k.R.rand(rng) if rng.random() < .85 else k.R.zero, rng))
        for _ in range(4): W.put("poly" + tag, k.poly([k.R.rand(rng) for _ in range(rng.randint(0, 4))]))
        nv[i] = rng.randint(1, 3)
        if k.kind in ("Z", "F"):
            for _ in range(4):
                W.put("multi" + tag, k.multi({tuple(rng.randint(0, 2) for _ in range(nv[i])): k.R.rand(rng) for _ in range(rng.randint(0, 3))}, nv[i]))
        W.put("list" + tag, [W.get("el" + tag) for _ in range(4)])
    for _ in range(spec["steps"]):
        i = rng.randrange(len(kits))
        k, tag = kits[i], str(i)
        r = rng.random()
        if W.hist and r < .3: W.rerun()
        elif r < .5: el_ops(W, k, tag)
        elif r < .63: poly_ops(W, k, tag)
        elif r < .71 and k.kind in ("Z", "F"): multi_ops(W, k, tag, nv[i])
        elif r < .83 and k.kind in ("Z", "F"): list_ops(W, k, tag)
        elif r < .89 and k.kind in ("Z", "F"): tree_ops(W, k, tag)
        elif r < .92 and k.kind == "F" and k.p <= 17: space_ops(W, k, tag)
        elif r < .92 : space_ops(W, bink, str(len(kits) - 1))
        elif r < .95: float_ops(W, bink, str(len(kits) - 1))
        elif r < .98: compress_ops(W, tag)
        else: new_type(W)
    mon.sample(types=[k.T.__name__ for k in kits], live=[l[2] for l in W.live[:12]])


def proofs(spec, mon):
    from starks.air import get_computational_trace
    from starks.merkle_tree import merkelize
    from starks.fri import FRI
    rng = random.Random(spec["seed"])
    W = World(mon, rng)
    insts = [Inst(instance(rng, steps=8, maxprec=32)) for _ in range(2)]
    starks = [I.stark() for I in insts]
    for i, I in enumerate(insts):
        W.put("wit%d" % i, I.witness())
        W.put("bnd%d" % i, I.boundary())
        W.put("sp%d" % i, I.step_polys())
        W.put("inp%d" % i, [I.k.lib(x) for x in I.trace[0]])
    for _ in range(spec["steps"]):
        i = rng.randrange(2)
        I, S = insts[i], starks[i]
        r = rng.random()
        mon.event("proof_op")
        if W.hist and r < .3: W.rerun()
        elif r < .6 or "proof%d" % i not in W.pool:
            W.run("mk_proof", lambda w, b, S=S: S.mk_proof(w, b), [W.get("wit%d" % i), W.get("bnd%d" % i)], "proof%d" % i)
        elif r < .75:
            pr = W.get("proof%d" % i)
            W.run("verify_proof", lambda p, w, b, S=S: S.verify_proof(p, w, b), [pr, W.get("wit%d" % i), W.get("bnd%d" % i)])
        elif r < .85:
            W.run("trace", lambda a, s, I=I: list(get_computational_trace(a, I.steps, I.width, s)), [W.get("inp%d" % i), W.get("sp%d" % i)])
        else:
            k = I.k
            n = I.prec
            f = k.poly([k.R.rand(rng) for _ in range(n // 2)])
            w = k.lib(I.w)
            fr = FRI(k.T)
            W.run("fri prove", lambda f, w, fr=fr, n=n: fr.generate_proximity_proof(f, w, min(16, n // 2)), [f, w], "fri%d" % i)
    mon.seen([I.label() for I in insts])


def run_case(spec, mon):
    (values if spec["what"] == "values" else proofs)(spec, mon)
