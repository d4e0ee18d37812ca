"""C13 Merkle trees: honest openings, tampered openings, binding of the root."""
import random

from vlib import ref
from vlib.kits import kit

RULE = ("a case is one leaf list (ints, field elements or equal-length byte strings; random, repeated, extreme values) of 4*2^k leaves with openings at "
        "all or sampled indices and tampered openings; distinct non-trivial = distinct (leaf list, index, tampering)")
REQUIRED = {"open": 4000, "tamper_byte": 4000, "tamper_swap": 800, "other_index": 3000, "other_root": 800, "root_differs": 1500, "accepted_other_same_leaf": 50, "other_shape": 4000, "not_quarters": 50, "cut_elsewhere": 200, "root_differs_quarters": 200, "expected_shape": 1500}


def cases(rng, tier):
    for k in range(0, 5):
        for typ in ("int", "Z", "bytes", "F"):
            yield {"typ": typ, "k": k, "style": "random"}
            yield {"typ": typ, "k": k, "style": "repeat"}
    for k in (7, 9, 11):
        yield {"typ": "int", "k": k, "style": "random"}
        yield {"typ": "Z", "k": k, "style": "random"}
    for k in (12, 13, 14) if tier == "quick" else (12, 13, 14, 15, 16):     # up to 2^16 leaves (2^18 thorough)
        yield {"typ": "bytes" if k == 14 else "int", "k": k, "style": "random" if k % 2 else "repeat"}
    # lists which are not four quarters are refused
    for n in list(range(0, 4)) + list(range(5, 24)) + [33, 63, 65, 127, 130, 255, 257, 1023, 1025]:
        if n % 4: yield {"typ": rng.choice(["int", "Z", "bytes", "F"]), "bad": n, "style": "random"}
    yield {"typ": "int", "bad": 0, "style": "random"}
    for _ in range(12): yield {"shifted": True}
    for n in (12, 20, 24, 28, 36, 144, 100):
        yield {"typ": rng.choice(["int", "Z", "bytes", "F"]), "root_only": n, "style": "random"}
    for _ in range(150 if tier == "quick" else 6000):
        yield {"typ": rng.choice(["int", "Z", "bytes", "F"]), "k": rng.randint(0, 6), "style": rng.choice(["random", "repeat", "extreme"])}


def leaves(spec, rng, n):
    """(library leaves, committed bytes)"""
    typ, style = spec["typ"], spec["style"]
    if typ == "int":
        r = lambda: rng.choice([0, 1, 2**256 - 1, 2**255]) if style == "extreme" else rng.getrandbits(256)
        make = lambda v: (v, v.to_bytes(32, "big"))
    elif typ == "Z":
        k = kit(["Z", rng.choice([7, 257, ref.P256])])
        r = lambda: k.R.rand(rng)
        make = lambda v: (k.lib(v), v.to_bytes(32, "big"))
    elif typ == "F":
        k = kit(["F", 7, [1, 0, 1]] if n % 3 else ["F", 2, [1, 1, 0, 1]])
        r = lambda: k.R.rand(rng)
        make = lambda v: (k.lib(v), b"".join(c.to_bytes(32, "big") for c in v))
    else:
        m = rng.choice([1, 4, 32, 64, 96, 200])
        r = lambda: bytes(m) if style == "extreme" and rng.random() < .5 else rng.randbytes(m)
        make = lambda v: (v, v)
    vals = [r() for _ in range(n)]
    if style == "repeat":
        pool = vals[:max(1, n // 3)]
        vals = [rng.choice(pool) for _ in range(n)]
    both = [make(v) for v in vals]
    return [a for a, _ in both], [b for _, b in both], (r, make)


def shifted(mon, rng):
    """Lists of extension-field elements whose serialisations are the same coefficients, cut at other places."""
    from starks.merkle_tree import merkelize
    p = rng.choice([2, 5, 7, 257])
    k = kit(["F", p, ref.find_irreducible(p, rng.randint(2, 4), rng)])
    m = len(k.R.one)
    for n in (4, 8):
        for _ in range(20):
            L = [k.R.rand(rng) for _ in range(n)]
            i = rng.randrange(n // 4)
            a, b = i, i + n // 4        # neighbours in the tree
            M = list(L)
            lo = [c for c in ref.ptrim(ref.RZ(p), list(L[a]))]
            allc = lo + ref.ptrim(ref.RZ(p), list(L[b]))
            cut = rng.randint(max(0, len(allc) - m), min(m, len(allc)))
            M[a], M[b] = (tuple(x) + (0,) * (m - len(x)) for x in (allc[:cut], allc[cut:]))
            if M != L:
                mon.check(merkelize([k.lib(x) for x in M])[1] != merkelize([k.lib(x) for x in L])[1], "same_coefficients_same_root", a=L, b=M)
                mon.event("cut_elsewhere")


def opened(root, i, branch):
    """bytes returned, or None if refused"""
    from starks.merkle_tree import verify_branch
    try:
        return verify_branch(root, i, branch)
    except Exception:
        return None


def run_case(spec, mon):
    from starks.merkle_tree import merkelize, mk_branch, verify_branch
    rng = random.Random(spec["seed"])
    if "shifted" in spec: return shifted(mon, rng)
    if "bad" in spec:
        L, B, _ = leaves(spec, rng, spec["bad"])
        mon.rejects(lambda: merkelize(L), "not_four_quarters_accepted", typ=spec["typ"], n=len(L))
        mon.rejects(lambda: merkelize(B), "not_four_quarters_accepted", typ="bytes", n=len(L))
        mon.event("not_quarters", 2)
        mon.seen("bad", spec["typ"], B)
        return
    if "root_only" in spec:
        n = spec["root_only"]
        L, B, (r, make) = leaves(spec, rng, n)
        tree = merkelize(list(L))
        mon.equal(merkelize(list(B)), tree, "encoding", n=n)
        for i in range(n):
            M = list(L)
            M[i] = make(r())[0]
            if make(M[i])[1] != B[i] if spec["typ"] in ("int", "bytes") else M[i] != L[i]:
                mon.check(merkelize(M)[1] != tree[1], "changed_leaf_same_root", i=i, n=n)
                mon.event("root_differs_quarters")
            a, b = rng.sample(range(n), 2)
            if B[a] != B[b]:
                M = list(L)
                M[a], M[b] = M[b], M[a]
                mon.check(merkelize(M)[1] != tree[1], "reordered_same_root", a=a, b=b, n=n)
        mon.seen("root", spec["typ"], B)
        return
    n = 4 << spec["k"]
    L, B, (r, make) = leaves(spec, rng, n)
    copy = list(L)
    tree = merkelize(L)
    d = dict(typ=spec["typ"], n=n, style=spec["style"])
    mon.check(len(L) == n and all(a is b for a, b in zip(L, copy)), "leaves_changed", **d)
    mon.equal(len(tree), 2 * n, "tree_length", **d)
    root = tree[1]
    mon.check(type(root) is bytes and len(root) == 32, "root", root=root, **d)
    mon.equal(merkelize(list(L)), tree, "deterministic", **d)
    mon.equal(merkelize(list(B))[1], root, "encoding", **d)
    idx = list(range(n)) if n <= 64 else sorted(rng.sample(range(n), 24) + [0, n - 1, n // 4, n // 2])
    branches = {}
    snap = list(tree)
    for i in idx:
        br = branches[i] = mk_branch(tree, i)
        keep = list(br)
        mon.equal(verify_branch(root, i, br), B[i], "open", i=i, **d)
        mon.equal(verify_branch(root, i, br, output_as_int=True), int.from_bytes(B[i], "big"), "open_int", i=i, **d)
        mon.equal(br, keep, "branch_changed", i=i, **d)
        mon.event("open")
        mon.seen(spec["typ"], B[i], i, n)
    mon.equal(tree, snap, "tree_changed", **d)
    for i in rng.sample(idx, min(len(idx), 12)):
        br = branches[i]
        # every entry, one byte each (and one more position of the leaf)
        for e in range(len(br)):
            bad = list(br)
            pos = rng.randrange(len(br[e]))
            flip = rng.choice([1, 0x80, rng.randrange(1, 256)])
            bad[e] = br[e][:pos] + bytes([br[e][pos] ^ flip]) + br[e][pos + 1:]
            mon.check(opened(root, i, bad) is None, "tampered_byte_accepted", i=i, entry=e, pos=pos, **d)
            mon.rejects(lambda: verify_branch(root, i, bad, output_as_int=True) + 1, "tampered_byte_accepted_int", i=i, entry=e, **d)
            mon.event("tamper_byte", 2)
        for _ in range(3):
            a, b = rng.sample(range(len(br)), 2)
            bad = list(br)
            bad[a], bad[b] = bad[b], bad[a]
            got = opened(root, i, bad)
            mon.check(got is None or (got == B[i]), "swapped_entries_accepted", i=i, a=a, b=b, got=got, **d)
            mon.event("tamper_swap")
        for j in (range(n) if n <= 16 else rng.sample(range(n), 8) + [i ^ 1, (i + n // 4) % n, (i + n // 2) % n]):
            got = opened(root, j, br)
            mon.check(got is None or got == B[j], "other_index_accepted", i=i, j=j, got=got, **d)
            if j != i:
                mon.event("other_index")
                if got is not None: mon.event("accepted_other_same_leaf")
        other = bytes([root[0] ^ 1]) + root[1:]
        for bad_root in (other, root[:-1] + bytes([root[-1] ^ 0x80]), tree[2], tree[3], b"", root[:31]):
            mon.check(opened(bad_root, i, br) is None, "other_root_accepted", i=i, **d)
            mon.event("other_root")
        mon.seen("tamper", B[i], i, n)
        # a verifier that knows the number of leaves and their size is not opened anything else
        m = len(B[i])
        mon.equal(verify_branch(root, i, br, num_leaves=n, leaf_size=m), B[i], "open_with_shape", i=i, **d)
        mon.equal(verify_branch(root, i, br, num_leaves=n), B[i], "open_with_shape", i=i, **d)
        mon.equal(verify_branch(root, i, br, leaf_size=m, output_as_int=True), int.from_bytes(B[i], "big"), "open_with_shape", i=i, **d)
        mon.event("expected_shape")
        j = n + i // (n // 4) + 4 * (i % (n // 4))
        first = min(j, j ^ 1)
        whole = tree[first] + tree[first ^ 1]
        c = rng.choice([x for x in range(len(whole) + 1) if x != m])
        left, right = whole[:c], whole[c:]
        shapes = [([tree[j // 2]] + br[2:], i, n, "inner node"), (br[:1], i, n, "leaf only"), ([], i, n, "empty"),
                  (([left, right] if j % 2 == 0 else [right, left]) + br[2:], i, n, "split elsewhere")]
        if n > 4:
            up = n // 2     # the same nodes, read as a tree with half the leaves
            j2 = j // 2
            shapes.append(([tree[j2]] + br[2:], (j2 - up) // 4 + (j2 - up) % 4 * (up // 4), n, "inner node"))
        for bad, at, nn, what in shapes:
            if nn == n and len(bad) == len(br) and len(bad[0]) == m: continue
            for as_int in (False, True):
                mon.rejects(lambda: verify_branch(root, at, bad, num_leaves=n, leaf_size=m, output_as_int=as_int), "other_shape_accepted:" + what, i=i, **d)
            mon.event("other_shape", 2)
        # what is below a leaf of 64 bytes: the leaf is the concatenation of the two entries
        if m == 64:
            deep = [B[i][:32], B[i][32:]] + br[1:]
            mon.rejects(lambda: verify_branch(root, i, deep, num_leaves=n, leaf_size=m), "other_shape_accepted:below a leaf", i=i, **d)
        for at in (-1, n, n + i, i - n, 2 * n):
            mon.rejects(lambda: verify_branch(root, at, br, num_leaves=n, leaf_size=m), "index_outside_accepted", i=i, at=at, **d)
        for nn in {n // 2, 2 * n, n - 1, n + 1, 4 * n}:
            mon.rejects(lambda: verify_branch(root, i, br, num_leaves=nn), "number_of_leaves_ignored", i=i, claimed=nn, **d)
        for mm in {0, m - 1, m + 1, 2 * m}:
            mon.rejects(lambda: verify_branch(root, i, br, leaf_size=mm), "leaf_size_ignored", i=i, claimed=mm, **d)
        mon.event("other_shape", 12)
    # binding: change one leaf, or the order
    for i in (idx if n <= 16 else rng.sample(range(n), 10)):
        for _ in range(20):
            v = make(r())
            if v[1] != B[i]: break
        else:
            continue
        M = list(L)
        M[i] = v[0]
        mon.check(merkelize(M)[1] != root, "changed_leaf_same_root", i=i, **d)
        mon.event("root_differs")
        if n <= 64:
            t2 = merkelize(M)
            got = opened(t2[1], i, branches.get(i) or mk_branch(tree, i))
            mon.check(got is None, "old_branch_in_new_tree", i=i, **d)
    for _ in range(6):
        a, b = rng.sample(range(n), 2)
        if B[a] != B[b]:
            M = list(L)
            M[a], M[b] = M[b], M[a]
            mon.check(merkelize(M)[1] != root, "reordered_same_root", a=a, b=b, **d)
            mon.event("root_differs")
