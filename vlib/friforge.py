"""Provers of low-degree proofs for words that are not low degree: they exploit the shape of the proof rather than its values."""
from vlib import ref


def queries(root, root2, size, count, e):
    """The rows of a layer that are opened, given the roots of this layer and of the next one."""
    from starks.merkle_tree import blake
    from starks.utils import get_pseudorandom_indices
    return get_pseudorandom_indices(blake(root + root2), size, count, exclude_multiples_of=e)


def first(root, size, count, e):
    """The positions, if they followed from this root alone."""
    from starks.utils import get_pseudorandom_indices
    return get_pseudorandom_indices(root, size, count, exclude_multiples_of=e)


def spots(m_root, l_root, precision, count, ext):
    """The positions at which a STARK is opened."""
    return queries(m_root, l_root, precision, count, ext)


def enc(v):
    return int(v).to_bytes(32, "big")


def unpermute(nodes):
    """The list whose Merkle tree has these leaves."""
    q = len(nodes) // 4
    return [nodes[4 * (x % q) + x // q] for x in range(4 * q)]


def fold(R, vals, w, root):
    p, q = R.p, len(vals) // 4
    s = int.from_bytes(root, "big") % p
    j = pow(w, q, p)
    out = []
    for i in range(q):
        x = pow(w, i, p)
        xs = [x * pow(j, t, p) % p for t in range(4)]
        out.append(ref.peval(R, ref.pinterp(R, xs, [vals[i + q * t] for t in range(4)]), s))
    return out


def rounds(R, vals, w, b, e):
    """Honest folding of any word, down to the last layer: (rounds of the proof, last layer, its tree)."""
    from starks.merkle_tree import merkelize, mk_branch
    out, t = [], merkelize([enc(v) for v in vals])
    while b > 16:
        q = len(vals) // 4
        col = fold(R, vals, w, t[1])
        t2 = merkelize([enc(v) for v in col])
        ys = queries(t[1], t2[1], q, 40, e)
        out.append([t2[1], [[mk_branch(t2, y)] + [mk_branch(t, y + q * j) for j in range(4)] for y in ys]])
        vals, w, b, t = col, pow(w, 4, R.p), b // 4, t2
    return out, vals, t


def inner_nodes(R, vals, w, b, e):
    """Any word: the last layer is given by a level of inner nodes, which has the right root and too few values to have a degree."""
    from starks.merkle_tree import merkelize
    head, last, t = rounds(R, vals, w, b, e)
    s = len(last) // 2
    while s >= 4:
        yield s, merkelize([enc(v) for v in vals])[1], head + [unpermute(t[s:2 * s])]
        s //= 2


class Deep:
    """A tree that has one word as its leaves and another one in a deep subtree in the place of leaf 0."""

    def __init__(self, shown, hidden):
        from starks.merkle_tree import blake, permute4
        n = self.n = len(shown)
        size = self.size = 4 * n
        sub = [b""] * size + [bytes(32)] * size
        for x, v in enumerate(hidden): sub[size + 4 * x] = v
        for i in range(size - 1, 0, -1): sub[i] = blake(sub[2 * i] + sub[2 * i + 1])
        leaves = permute4([v for v in shown])
        leaves[0] = sub[1]
        top = [b""] * n + leaves
        for i in range(n - 1, 0, -1): top[i] = blake(top[2 * i] + top[2 * i + 1])
        self.sub, self.top, self.root = sub, top, top[1]

    @staticmethod
    def path(tree, i):
        out = []
        while i > 1:
            out.append(tree[i ^ 1])
            i //= 2
        return out

    def shallow(self, x):
        q = self.n // 4
        i = self.n + x // q + 4 * (x % q)
        return [self.top[i]] + self.path(self.top, i)

    def deep(self, x):
        i = self.size + 4 * x
        return [self.sub[i]] + self.path(self.sub, i) + self.path(self.top, self.n)


def with_first_round(fri, k, R, f, w, b, e, root, opening):
    """An honest proof of the polynomial f (coefficients) under another root, whose openings come from `opening`."""
    from starks.merkle_tree import merkelize, mk_branch
    p = R.p
    n = 1
    while pow(w, n, p) != 1: n *= 2
    q = n // 4
    s = int.from_bytes(root, "big") % p
    g = ref.ptrim(R, [ref.peval(R, f[i:i + 4], s) for i in range(0, len(f), 4)])
    w4 = pow(w, 4, p)
    col = [ref.peval(R, g, pow(w4, i, p)) for i in range(q)]
    t = merkelize([enc(v) for v in col])
    ys = queries(root, t[1], q, 40, e)
    branches = [[mk_branch(t, y)] + [opening(y + q * j) for j in range(4)] for y in ys]
    return [[t[1], branches]] + fri.generate_proximity_proof(k.poly(g), k.lib(w4), b // 4, exclude_multiples_of=e)


def chosen_after(R, rng, fri, k, w, b, e, level):
    """A word that is constant where it is going to be looked at and random elsewhere, if the rows follow from the next layer alone.

    The layers above the chosen one are constant along their rows, and so consistent with it. (word, root, proof) or None."""
    from starks.merkle_tree import merkelize, mk_branch
    from starks.utils import get_pseudorandom_indices
    p, n = R.p, 1
    while pow(w, n, p) != 1: n *= 2
    m = n >> 2 * level
    q, c = m // 4, R.rand(rng)
    t2 = merkelize([enc(c)] * q)
    ys = set(get_pseudorandom_indices(t2[1], q, 40, exclude_multiples_of=e))
    free = [y for y in range(q) if y not in ys and not (e and y % e == 0)]
    if len(free) * 3 < q: return None
    word = [c if i % q in ys else R.rand(rng) for i in range(m)]
    layers = [word]
    for _ in range(level):
        word = word * 4
        layers.insert(0, word)
    trees = [merkelize([enc(v) for v in v]) for v in layers] + [t2]
    proof = []
    for t, u in zip(trees, trees[1:]):
        q = len(u) // 2
        # below the chosen layer the rows follow from both roots or from one of them, as the verifier has it
        proof.append((t, u, q))
    wl = pow(w, 4**(level + 1), p)
    rest = fri.generate_proximity_proof(k.poly([c]), k.lib(wl), b // 4**(level + 1), exclude_multiples_of=e)
    out = []
    for known in (True, False):     # with the rows the prover hopes for, and with those of the real derivation
        head = []
        for t, u, q in proof:
            rows = get_pseudorandom_indices(u[1], q, 40, exclude_multiples_of=e) if known else queries(t[1], u[1], q, 40, e)
            head.append([u[1], [[mk_branch(u, y)] + [mk_branch(t, y + q * j) for j in range(4)] for y in rows]])
        out.append(head + rest)
    return layers[0], trees[0][1], out


def chosen_before(R, rng, fri, k, w, b, e, word):
    """A column through the folds of any word where it is going to be looked at, if the rows follow from the word alone. (root, proof) or None."""
    from starks.merkle_tree import merkelize, mk_branch
    from starks.utils import get_pseudorandom_indices
    p, n = R.p, len(word)
    q, cb, w4 = n // 4, b // 4, pow(w, 4, p)
    t = merkelize([enc(v) for v in word])
    ys = get_pseudorandom_indices(t[1], q, 40, exclude_multiples_of=e)
    at = sorted(set(ys))
    if len(at) > cb: return None
    col = fold(R, word, w, t[1])
    g = ref.pinterp(R, [pow(w4, y, p) for y in at], [col[y] for y in at])
    u = merkelize([enc(ref.peval(R, g, pow(w4, i, p))) for i in range(q)])
    head = [u[1], [[mk_branch(u, y)] + [mk_branch(t, y + q * j) for j in range(4)] for y in ys]]
    return t[1], [head] + fri.generate_proximity_proof(k.poly(g), k.lib(w4), cb, exclude_multiples_of=e)


class Tree:
    """A Merkle tree of which single leaves can be exchanged."""

    def __init__(self, leaves):
        from starks.merkle_tree import blake, merkelize
        self.blake, self.n, self.q = blake, len(leaves), len(leaves) // 4
        self.nodes = merkelize(leaves)

    def changed(self, leaves):
        """The tree with these leaves {index: bytes} in the place of its own."""
        t = list(self.nodes)
        for x, v in leaves.items():
            i = self.n + x // self.q + 4 * (x % self.q)
            t[i] = v
            while i > 1:
                i //= 2
                t[i] = self.blake(t[2 * i] + t[2 * i + 1])
        return t


class Split:
    """A tree whose right leaves open to f when the last byte of their sibling is read with them."""

    def __init__(self, R, f):
        from starks.merkle_tree import blake, permute4
        n, q = len(f), len(f) // 4
        self.n, self.q = n, q
        leaves = permute4(list(f))
        for i in range(1, n, 2):
            leaves[i] = (leaves[i] - (leaves[i - 1] & 255) * 2**256) % R.p
        self.word = unpermute(leaves)
        top = [b""] * n + [enc(v) for v in leaves]
        for i in range(n - 1, 0, -1): top[i] = blake(top[2 * i] + top[2 * i + 1])
        self.top, self.root = top, top[1]

    def opening(self, x):
        i = self.n + x // self.q + 4 * (x % self.q)
        path = Deep.path(self.top, i)
        v = self.top[i]
        if i % 2:
            path[0], v = path[0][:-1], path[0][-1:] + v
        return [v] + path
