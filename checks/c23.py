"""C23 floating-point component formulas over binary fields."""
import itertools
import random

from vlib import ref
from vlib.kits import kit, rand_field

RULE = ("a case is one field F_{2^m} with a batch of pairs of numbers (components random, zero, unnormalised, aliased operands, results of earlier "
        "operations) or the exhaustive pairs of components for m = 2; distinct non-trivial = distinct (modulus, operation, components)")
REQUIRED = {"equal": 6000, "add": 6000, "add_zero_operand": 300, "add_wide_delta": 300, "add_near_delta": 1500, "cancel": 60, "sub": 3000, "mul": 4000, "mul_carry": 500,
            "mul_zero": 300, "div": 2000, "div_carry": 300, "div_by_zero": 100, "fixed": 1000, "pow": 150, "pow_negative": 30}


def cases(rng, tier):
    f = ["F", 2, [1, 1, 1]]
    for v in range(4):
        for p in range(4):
            yield {"field": f, "exh": [v, p], "n": 0}
    for _ in range(100 if tier == "quick" else 4000):
        while True:
            f = rand_field(rng, 2**17)
            if f[1] == 2: break
        yield {"field": f, "exh": None, "n": 50}


def bits(n):
    return [int(c) for c in bin(n)[:1:-1]] if n > 0 else []


def deg(a):
    return max([i for i, c in enumerate(a) if c] or [-1])


class Ref:
    """The documented formulas on (v, p, z, s) with reference field elements."""

    def __init__(self, R):
        self.R = R
        self.X = R.norm([0, 1])

    def mul(self, a, b):
        R = self.R
        if a[2] | b[2]: return (R.zero, R.zero, 1, a[3] ^ b[3])
        p = R.add(R.add(a[1], b[1]), R.norm(bits(deg(a[0]) + deg(b[0]) - (R.m - 1)) or [0]))
        return (R.mul(a[0], b[0]), p, 0, a[3] ^ b[3])

    def div(self, a, b):
        R = self.R
        if a[2]: return (R.zero, R.zero, 1, a[3] ^ b[3])
        inv = R.inv(b[0])
        p = R.add(R.sub(a[1], b[1]), R.norm(bits(deg(a[0]) + deg(inv) - (R.m - 1)) or [0]))
        return (R.mul(a[0], inv), p, 0, a[3] ^ b[3])

    def add(self, a, b):
        """Also says how: zero, wide or near; and the signs that are right."""
        R = self.R
        if a[2]: return b, "zero", {b[3]}
        if b[2]: return a, "zero", {a[3]}
        ka, kb = (R.num(a[1]), R.num(a[0])), (R.num(b[1]), R.num(b[0]))
        lo, hi = (a, b) if ka <= kb else (b, a)
        delta = R.sub(hi[1], lo[1])
        signs = {hi[3]} if ka != kb else {a[3], b[3]}
        if R.num(delta) > R.m: v, p, how = hi[0], hi[1], "wide"
        else: v, p, how = R.add(R.mul(hi[0], R.pow(self.X, R.num(delta))), lo[0]), lo[1], "near"
        return (v, p, int(v == R.zero), hi[3]), how, signs

    def fix(self, a):
        if a[2]: return (self.R.zero, 0)
        return (self.R.mul(a[0], self.R.pow(self.X, self.R.num(a[1]))), a[3])


def run_case(spec, mon):
    from starks.floatingpoint import FloatingPoint
    rng = random.Random(spec["seed"])
    k = kit(spec["field"])
    R, F = k.R, k.T
    Fl = FloatingPoint(F)
    spec_ = Ref(R)

    def lib(a): return Fl(k.lib(a[0]), k.lib(a[1]), a[2], a[3])
    def val(x): return (k.val(x.v), k.val(x.p), int(x.z), int(x.s))

    def ops(a, b, la=None, lb=None):
        la = la if la is not None else lib(a)
        lb = lb if lb is not None else lib(b)
        d = dict(mod=k.mod, a=a, b=b, aliased=la is lb)
        want, how, signs = spec_.add(a, b)
        s = la + lb
        got = val(s)
        mon.equal(got[:3], want[:3], "add", how=how, **d)
        mon.check(got[3] in signs, "add_sign", got=got, signs=signs, **d)
        mon.event("add")
        mon.event({"zero": "add_zero_operand", "wide": "add_wide_delta", "near": "add_near_delta"}[how])
        if how == "near" and got[2]: mon.event("cancel")
        nb = b[:3] + (b[3] ^ 1,)
        want, how, signs = spec_.add(a, nb)
        got = val(la - lb)
        mon.equal(got[:3], want[:3], "sub", how=how, **d)
        mon.check(got[3] in signs, "sub_sign", got=got, signs=signs, **d)
        mon.event("sub")
        m = la * lb
        mon.equal(val(m), spec_.mul(a, b), "mul", **d)
        mon.event("mul")
        if a[2] | b[2]: mon.event("mul_zero")
        elif deg(a[0]) + deg(b[0]) > R.m - 1: mon.event("mul_carry")
        q = None
        if b[2] or b[0] == R.zero:
            mon.raises(lambda: la / lb, "division_by_zero", exc=ZeroDivisionError, **d)
            mon.event("div_by_zero")
        else:
            q = la / lb
            mon.equal(val(q), spec_.div(a, b), "div", **d)
            mon.event("div")
            if not a[2] and deg(a[0]) + deg(R.inv(b[0])) > R.m - 1: mon.event("div_carry")
        want = bool(a[2] and b[2]) or a == b
        if not a[2] and not b[2] and not want: kind = "eq_nonzero_numbers"   # listed in KNOWN_FINDINGS.txt
        else: kind = "eq"
        mon.note(bool(la == lb) is want, kind, **d)
        mon.check(bool(lib(a) == lib(a)) is True, "eq_self", **d)
        mon.event("equal")
        fx = la.Float_to_Fix()
        mon.equal((k.val(fx[0]), int(fx[1])), spec_.fix(a), "fixed", **d)
        mon.event("fixed")
        mon.equal((val(la), val(lb)), (a, b), "operand_changed", **d)
        mon.seen(k.mod, a, b)
        return [x for x in (s, m, q) if x is not None]

    if spec["exh"]:
        a = (R.unnum(spec["exh"][0]), R.unnum(spec["exh"][1]))
        for za, zb, sa, sb in itertools.product((0, 1), repeat=4):
            for v in range(4):
                for p in range(4):
                    ops(a + (za, sa), (R.unnum(v), R.unnum(p), zb, sb))
        return

    def rand():
        r = rng.random()
        if r < .08: return (R.zero, R.zero, 1, rng.randrange(2))
        if r < .12: return (R.rand(rng), R.rand(rng), 1, rng.randrange(2))
        v = R.randnz(rng) if rng.random() < .95 else R.zero
        if rng.random() < .3:   # normalised
            v = v[:-1] + (1,)
        p = R.rand(rng) if rng.random() < .5 else R.unnum(rng.randrange(min(R.size, 2 * R.m + 2)))
        return (v, p, 0, rng.randrange(2))

    pool = []
    for _ in range(spec["n"]):
        a = rand()
        b = rand()
        la = lb = None
        r = rng.random()
        if r < .15 and pool:
            la = rng.choice(pool)
            a = val(la)
        if r < .3: b = (rng.choice([a[0], b[0]]), a[1], b[2], b[3])
        elif r < .36:
            la = la if la is not None else lib(a)
            lb, b = la, a
        elif r < .45:
            b = (b[0], R.add(a[1], R.unnum(min(R.size - 1, rng.choice([R.m, R.m + 1, 1, R.m - 1])))), b[2], b[3])
        pool = (pool + ops(a, b, la, lb))[-20:]
    a = e = None
    for turn in range(10):
        if turn % 5:        # one component of the number or of the exponent changed
            h = list(a if rng.random() < .5 else e)
            was = tuple(h)
            i = rng.choice([0, 1, 1, 2, 3, 3])
            h[i] = 1 - h[i] if i > 1 else R.add(h[i], R.unnum(rng.choice([1, 2, 3]) % R.size)) if i else R.randnz(rng)
            if was == a and rng.random() < .9: a = tuple(h)
            else: e = tuple(h[:2]) + (0, h[3])
            n = R.num(R.mul(e[0], R.pow(spec_.X, R.num(e[1]))))
            if n >= 40 or e[0] == R.zero:
                e = (R.one, R.unnum(turn % 2), 0, e[3])
                n = R.num(R.mul(e[0], R.pow(spec_.X, R.num(e[1]))))
            power(mon, k, spec_, lib, val, a, e, n)
            continue
        a = (R.randnz(rng), R.rand(rng), int(rng.random() < .1), rng.randrange(2))
        n = rng.randrange(min(R.size, 40))
        # an exponent whose fixed-point value is n: v * 2^p = n as a field element
        p = R.rand(rng) if rng.random() < .6 else R.zero
        e = (R.mul(R.unnum(n), R.inv(R.pow(spec_.X, R.num(p)))), p, 0, rng.randrange(2))
        power(mon, k, spec_, lib, val, a, e, n)


def power(mon, k, spec_, lib, val, a, e, n):
    R = k.R
    want = (R.one, R.zero, 0, 0)
    for _ in range(n): want = spec_.mul(want, a)
    d = dict(mod=k.mod, a=a, e=e, n=n)
    if e[3] and (want[2] or want[0] == R.zero):
        mon.raises(lambda: lib(a) ** lib(e), "negative_power_of_zero", exc=ZeroDivisionError, **d)
    else:
        if e[3]: want = spec_.div((R.one, R.zero, 0, 0), want)
        la, le = lib(a), lib(e)
        mon.equal(val(la ** le), want, "pow", **d)
        mon.equal((val(la), val(le)), (a, e), "operand_changed", **d)
        mon.event("pow_negative" if e[3] else "pow")
