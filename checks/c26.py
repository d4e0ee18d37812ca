"""C26 graph-isomorphism proof."""
import itertools
import random

from vlib.core import load_misc

RULE = ("a case is one pair of graphs (isomorphic, tampered or not isomorphic) with many protocol rounds under both challenges, and exhaustive maps "
        "for up to 4 vertices; distinct non-trivial = distinct (graphs, map, challenge)")
REQUIRED = {"honest": 1500, "choice_1": 500, "choice_2": 500, "decision": 4000, "accepted_map": 100, "rejected_map": 2000, "not_isomorphic": 300,
            "simulated": 500, "permutation": 1500, "inverse": 400, "convinced": 20, "not_convinced": 20,
            "fresh_copies": 12, "merging_map": 300, "large_graph": 6, "vertices_counted": 3000}


def cases(rng, tier):
    for i in range(120 if tier == "quick" else 6000):
        yield {"n": rng.choice([2, 3, 3, 4, 4, 5, 6, 8, 12, 20]), "rounds": 12}
    for n in (30, 40, 64, 70, 100, 150) if tier == "quick" else [rng.randrange(21, 260) for _ in range(60)]:
        yield {"n": n, "rounds": 24}


def graph(rng, n):
    edges = [(i, j) for i in range(1, n + 1) for j in range(1, n + 1) if i != j]
    rng.shuffle(edges)
    g = edges[:rng.randint(1, min(len(edges), 3 * n))]
    if rng.random() < .4: g = [(j, i) if i < j else (i, j) for i, j in g]      # the largest vertex of an edge first
    if max(max(e) for e in g) < n: g.append(rng.choice([(rng.randint(1, n - 1), n), (n, rng.randint(1, n - 1))]))
    return g


def run_case(spec, mon):
    (zk,) = load_misc("zero_knowledge")
    rng = random.Random(spec["seed"])
    n = spec["n"]
    G1 = graph(rng, n)
    keep = list(G1)
    L = list(range(n))
    rng.shuffle(L)
    image = lambda g, f: [(f(i), f(j)) for i, j in g]
    while max(L[i - 1] for e in G1 for i in e) < n - 1: rng.shuffle(L)      # the library counts vertices by the largest one on an edge
    G2 = image(G1, lambda i: L[i - 1] + 1)
    mon.equal(zk.num_vertices(G1), n, "num_vertices", G=G1)
    if n > 20: mon.event("large_graph")
    f, fi = zk.make_permutation_function(L), zk.make_inverse_permutation_function(L)
    for i in range(1, n + 1):
        mon.check(f(i) == L[i - 1] + 1 and fi(f(i)) == i and f(fi(i)) == i, "inverse", L=L, i=i)
        mon.event("inverse")
    mon.equal(list(zk.apply_isomorphism(G1, f)), G2, "apply", L=L, G=G1)
    v = zk.ZKVerifier(G1, G2)
    p = zk.ZKProver(G1, G2, L)
    d = dict(G1=G1, G2=G2, L=L)

    def decide(fn, choice, H, **more):
        merged = len({fn(x) for e in H for x in e}) < len({x for e in H for x in e})
        want = [G1, G2][choice - 1] == image(H, fn) and not merged
        mon.check(bool(v.accepts(fn, choice, H)) is want, "decision", choice=choice, H=H, want=want, **d, **more)
        mon.event("decision")
        mon.event("accepted_map" if want else "rejected_map")

    # a copy made of separate edges maps onto every graph with as many edges, by maps that merge its vertices
    for H in ([(2 * k + 1, 2 * k + 2) for k in range(len(G1))], [(a, n + k + 1) for k, (a, b) in enumerate(G1)]):
        for choice in (1, 2):
            g, m = [G1, G2][choice - 1], {}
            for (a, b), (s, t) in zip(H, g): m[a], m[b] = s, t
            decide(m.__getitem__, choice, H, m=m)
            if len(m) > n: mon.event("merging_map")
        # an honest copy with one end of an edge split off as a vertex of its own
        iso, K = p.send_isomorphic_copy()
        w, deg = p.prove_isomorphic_to(iso, 2), {}
        for e in K:
            for x in set(e): deg[x] = deg.get(x, 0) + 1
        x = max(deg, key=deg.get)
        if deg[x] > 1:
            at = rng.choice([k for k, e in enumerate(K) if x in e])
            split = [tuple(n + 7 if k == at and y == x else y for y in e) for k, e in enumerate(K)]
            decide(lambda y: w(x if y == n + 7 else y), 2, split)
            mon.event("merging_map")
    chosen, copies = set(), []
    for _ in range(spec["rounds"]):
        iso, H = p.send_isomorphic_copy()
        mon.equal(sorted(iso), list(range(n)), "copy_permutation", **d)
        copies.append(tuple(iso))
        mon.equal(H, image(G1, lambda i: iso[i - 1] + 1), "copy", iso=iso, **d)
        for choice in (1, 2):
            w = p.prove_isomorphic_to(iso, choice)
            mon.check(v.accepts(w, choice, H) is True, "honest_rejected", choice=choice, iso=iso, **d)
            mon.event("honest")
            mon.event("choice_%d" % choice)
            mon.seen(G1, G2, iso, choice)
            decide(w, 3 - choice, H)
            # wrong maps and wrong graphs
            a, b = rng.sample(range(1, n + 1), 2)
            swap = lambda i, w=w, a=a, b=b: w(b if i == a else a if i == b else i)
            decide(swap, choice, H)
            M = list(range(n))
            rng.shuffle(M)
            decide(lambda i: M[i - 1] + 1, choice, H, M=M)
            bad = list(H)
            e = rng.randrange(len(bad))
            bad[e] = rng.choice([(bad[e][1], bad[e][0]), (bad[e][0], rng.randint(1, n))])
            decide(w, choice, bad)
            decide(w, choice, H[:-1])
            decide(w, choice, H + [H[0]])
            decide(w, choice, [H[-1]] + H[:-1])
            decide(lambda i: 1, choice, H)
        mon.check(zk.run_protocol(G1, G2, L) is True, "protocol_rejected", **d)
        H, choice, w = zk.messages_from_protocol(G1, G2, L)
        mon.check(v.accepts(w, choice, H) is True, "transcript_rejected", choice=choice, **d)
        mon.event("honest", 2)
        H, choice, w = zk.simulate_protocol(G1, G2)
        mon.check(choice in (1, 2), "simulated_choice", choice=choice, **d)
        mon.check(v.accepts(w, choice, H) is True, "simulated_rejected", choice=choice, H=H, **d)
        decide(w, choice, H)
        chosen.add(choice)
        mon.event("simulated")
    if n <= 4:
        iso, H = p.send_isomorphic_copy()
        for M in itertools.permutations(range(n)):
            for choice in (1, 2): decide(lambda i: M[i - 1] + 1, choice, H, M=M)
    if n >= 12:      # a fresh permutation in every round: 12 draws from at least 12! repeat one chance in 10^6
        mon.check(len(set(copies)) >= len(copies) - 1, "copies_repeat", copies=len(copies), distinct=len(set(copies)), **d)
        mon.event("fresh_copies")
    mon.equal({v.choose_graph() for _ in range(120)}, {1, 2}, "choices", **d)
    for m in (1, 2, 3, n, 3):
        ps = [tuple(zk.random_permutation(m)) for _ in range(250 if m == 3 else 10)]
        mon.check(all(sorted(x) == list(range(m)) for x in ps), "not_a_permutation", got=ps[:3], m=m)
        if m == 3: mon.equal(len(set(ps)), 6, "permutations_reached", got=set(ps))
        mon.event("permutation", len(ps) if m != 3 else 10)
    for _ in range(30):
        E = [(rng.randint(1, m), rng.randint(1, m)) for m in [rng.choice([2, 5, 50, 1000, 10**6])] for _ in range(rng.choice([1, 2, 20, 41, 64, 200]))]
        top = max(max(e) for e in E)
        E.insert(rng.randrange(len(E) + 1), rng.choice([(top + 1, 1), (1, top + 1), (top + 1, top + 1), (1, 1)]))
        want = 0
        for a, b in E: want = a if a > want and a >= b else b if b > want else want
        mon.equal(zk.num_vertices(E), want, "num_vertices", G=E)
        mon.event("vertices_counted")
    for m in (8, 12, 25, 60):
        ps = [tuple(zk.random_permutation(m)) for _ in range(60)]
        mon.check(all(sorted(x) == list(range(m)) for x in ps), "not_a_permutation", got=ps[:3], m=m)
        mon.check(len(set(ps)) >= 55, "permutations_repeat", m=m, distinct=len(set(ps)))
        mon.check(all(len({x[k] for x in ps}) > 2 for k in range(m)), "position_never_moves", m=m)
        mon.event("permutation", len(ps))
    # rounds needed for the tolerance, and no conviction without an isomorphism
    count = [0]
    saved = zk.ZKVerifier.accepts

    def counted(self, *a):
        r = saved(self, *a)
        count[0] += 1
        return r

    zk.ZKVerifier.accepts = counted
    try:
        tol = rng.choice([1e-20, 1e-3, 0.1, 2.0**-10, 1e-30])
        zk.convince_beyond_doubt(G1, G2, L, tol)
        if count[0]: mon.check(.5**count[0] <= tol, "too_few_rounds", rounds=count[0], tolerance=tol)
        mon.event("convinced")
    finally:
        zk.ZKVerifier.accepts = saved
    # without an isomorphism the challenge on the other graph fails for every answer of the prover
    M = list(range(n))
    rng.shuffle(M)
    e = rng.randrange(len(G2))
    B = list(G2)
    B[e] = (B[e][1], B[e][0]) if rng.random() < .5 else (B[e][0], rng.choice([x for x in range(1, n + 1) if x not in B[e]] or [B[e][0]]))
    if B != G2 and max(max(x) for x in B) == n:
        vb = zk.ZKVerifier(G1, B)
        for K in (L, M):
            if image(G1, lambda i: K[i - 1] + 1) == B: continue
            pb = zk.ZKProver(G1, B, K)
            for _ in range(3):
                iso, H = pb.send_isomorphic_copy()
                mon.check(vb.accepts(pb.prove_isomorphic_to(iso, 1), 1, H) is True, "own_graph_rejected", G2=B, G1=G1)
                mon.rejects(lambda: vb.accepts(pb.prove_isomorphic_to(iso, 2), 2, H), "wrong_isomorphism_accepted", G1=G1, G2=B, L=K)
                mon.event("not_isomorphic")
            try:
                zk.convince_beyond_doubt(G1, B, K, 1e-12)
            except AssertionError:
                mon.event("not_convinced")
            else:
                mon.fail("convinced_without_isomorphism", G1=G1, G2=B, L=K)
    mon.equal(G1, keep, "graph_changed", **d)
    mon.equal(image(G1, lambda i: L[i - 1] + 1), G2, "graph_changed", **d)
