"""C27 3-colouring proof."""
import random

from vlib.core import load_misc

RULE = ("a case is one graph with a proper or improper colouring: rounds of commit / choose / reveal / accept over every edge in both orientations, "
        "tampered reveals and non-edges; distinct non-trivial = distinct (graph, colouring, edge, commitment)")
REQUIRED = {"accepted": 400, "monochromatic_rejected": 150, "tampered_reveal": 1000, "non_edge_refused": 300, "revealed_pair": 200, "all_edges_chosen": 40,
            "fresh_permutation": 40, "opened_pair": 1500, "fourth_colour": 500, "protocol": 60,
            "large_graph": 5, "late_vertex": 300, "every_edge_open": 400}


def cases(rng, tier):
    for i in range(140 if tier == "quick" else 3000):
        yield {"n": rng.choice([2, 3, 4, 5, 6, 8, 10, 12])}
    for i in range(10 if tier == "quick" else 200):
        yield {"kind": "large", "n": rng.choice([17, 20, 33, 40, 65, 70])}


def run_case(spec, mon):
    bbs, com_mod, col = load_misc("blum_blum_shub", "commitment", "zkp_3_coloring")
    rng = random.Random(spec["seed"])
    n = spec["n"]
    if spec.get("kind") == "large": return large(rng, n, bbs, col, mon)
    colors = {v: rng.randrange(3) for v in range(1, n + 1)}
    if len(set(colors.values())) == 1: colors[n] = (colors[1] + 1) % 3
    proper = [(u, v) for u in colors for v in colors if u < v and colors[u] != colors[v]]
    mono = [(u, v) for u in colors for v in colors if u < v and colors[u] == colors[v]]
    rng.shuffle(proper)
    G = proper[:rng.randint(1, min(12, len(proper)))]
    if max(max(e) for e in G) < n:
        G.append(next(e for e in proper if n in e) if any(n in e for e in proper) else (1, n))
    bad_edges = [e for e in G if colors[e[0]] == colors[e[1]]]
    G = [e if rng.random() < .5 else e[::-1] for e in G]
    if rng.random() < .5:
        one, h = bbs.blum_blum_shub(rng.choice([48, 64, 128])), bbs.parity
        args = (one, h)
    else:
        one, h = col.ONE_WAY_PERMUTATION, col.HARDCORE_PREDICATE
        args = ()
    keep = list(G), dict(colors)
    prover, verifier = col.ZK3ColProver(G, colors, *args), col.ZK3ColVerifier(G, *args)
    edges = {tuple(sorted(e)) for e in G}
    d = dict(G=G, colors=colors)

    def pick(ver, com, want):
        for _ in range(4000):
            e = ver.choose_edge(com)
            mon.check(tuple(sorted(e)) in edges | extra, "chosen_not_an_edge", edge=e, **d)
            if tuple(sorted(e)) == want: return e
        mon.fail("edge_never_chosen", edge=want, **d)

    extra = set()
    # four values fit in the committed bits: vertices may only be opened as one of the three colours
    ca, cb = sorted(rng.choice(sorted(edges)))
    for a in range(4):
        for b in range(4):
            sch = {v: com_mod.BBSIntCommitmentScheme(2, one, h) for v in colors}
            com = {v: sch[v].commit({ca: a, cb: b}.get(v, 0)) for v in colors}
            c = pick(verifier, com, (ca, cb))
            rev = tuple(sch[v].reveal() for v in c)
            want = a != b and a < 3 and b < 3
            mon.check(bool(verifier.accepts(rev)) is want, "opened_colours", edge=c, colours=(a, b), **d)
            mon.event("opened_pair")
            if want: continue
            mon.event("fourth_colour", a != b)
    for e in sorted(edges):
        com = prover.commit_to_coloring()
        mon.equal(sorted(com), sorted(colors), "committed_vertices", **d)
        c = pick(verifier, com, e)
        rev = prover.reveal_colors(*c)
        if e in bad_edges:
            mon.rejects(lambda: verifier.accepts(rev), "monochromatic_accepted", edge=e, **d)
            mon.event("monochromatic_rejected")
            continue
        for args2 in (c, c[::-1]):
            rev = prover.reveal_colors(*args2)
            mon.equal(len(rev), 2, "revealed", edge=e, **d)
            mon.check(verifier.accepts(rev) is True, "honest_rejected", edge=args2, **d)
            mon.event("accepted")
        shown = [verifier.verifier.decode(s, com[w]) for s, w in zip(rev, c)]
        mon.check(shown[0] != shown[1] and all(x in (0, 1, 2) for x in shown), "revealed_colors", edge=e, shown=shown, **d)
        mon.event("revealed_pair")
        mon.seen(G, colors, e, com)
        for _ in range(4):
            t = [list(rev[0]), list(rev[1])]
            i, j = rng.randrange(2), rng.randrange(2)
            t[i][j] = rng.choice([t[i][j] + 1, t[i][j] ^ 4, rng.getrandbits(64), one(t[i][j]), t[i][1 - j], t[1 - i][j]])
            if one(t[i][j]) != com[c[i]][j][0]:
                mon.rejects(lambda: verifier.accepts((t[0], t[1])), "tampered_reveal_accepted", edge=e, at=(i, j), **d)
                mon.event("tampered_reveal")
        mon.rejects(lambda: verifier.accepts((rev[1], rev[0])), "swapped_reveal_accepted", edge=e, **d)
        com2 = prover.commit_to_coloring()
        rev2 = prover.reveal_colors(*c)
        mon.rejects(lambda: verifier.accepts(rev2), "reveal_of_other_round_accepted", edge=e, **d)
        mon.event("tampered_reveal", 2)
    non = [(u, v) for u in colors for v in colors if (min(u, v), max(u, v)) not in edges]
    for u, v in rng.sample(non, min(8, len(non))):
        mon.raises(lambda: prover.reveal_colors(u, v), "non_edge_revealed", edge=(u, v), **d)
        mon.event("non_edge_refused")
    com = prover.commit_to_coloring()
    mon.equal({tuple(sorted(verifier.choose_edge(com))) for _ in range(600)}, edges, "edges_chosen", **d)
    mon.event("all_edges_chosen")
    good = [e for e in edges if e not in bad_edges]
    if good:
        e = rng.choice(sorted(good))
        pairs = set()
        for _ in range(220):
            com = prover.commit_to_coloring()
            rev = prover.reveal_colors(*e)
            pairs.add(tuple(verifier.verifier.decode(s, com[w]) for s, w in zip(rev, e)))
        mon.equal(pairs, {(a, b) for a in range(3) for b in range(3) if a != b}, "colour_permutations", edge=e, **d)
        mon.event("fresh_permutation")
    if mono:        # a colouring that is wrong on one more edge
        m = rng.choice(mono)
        G2 = G + [m]
        extra = {m}
        p2, v2 = col.ZK3ColProver(G2, colors, *args), col.ZK3ColVerifier(G2, *args)
        for _ in range(5):
            com = p2.commit_to_coloring()
            c = pick(v2, com, m)
            mon.rejects(lambda: v2.accepts(p2.reveal_colors(*c)), "monochromatic_accepted", edge=m, **d)
            mon.event("monochromatic_rejected")
    if not bad_edges:
        for _ in range(2):
            mon.check(col.run_protocol(G, colors, rng.choice([24, 32, 64])) is True, "protocol_rejected", **d)
            mon.event("protocol")
    mon.equal((G, colors), keep, "arguments_changed")


def large(rng, n, bbs, col, mon):
    """Every edge of a graph with many vertices and edges is asked for, opens for the honest prover and for nothing else."""
    colors = {v: rng.randrange(3) for v in range(1, n + 1)}
    if colors[n] == colors[1]: colors[n] = (colors[1] + 1) % 3
    proper = [(u, v) for u in colors for v in colors if u < v and colors[u] != colors[v]]
    mono = [(u, v) for u in colors for v in colors if u < v and colors[u] == colors[v]]
    rng.shuffle(proper)
    G = proper[:rng.choice([40, 66, 100])] + [e for e in [(1, n)] if e not in proper[:100]]
    late = [e for e in mono if e[0] > n // 2]
    wrong = rng.sample(late, min(len(late), 3))
    G += wrong
    rng.shuffle(G)
    G = [e if rng.random() < .5 else e[::-1] for e in G]
    edges = {tuple(sorted(e)) for e in G}
    one, h = bbs.blum_blum_shub(64), bbs.parity
    prover, verifier = col.ZK3ColProver(G, colors, one, h), col.ZK3ColVerifier(G, one, h)
    d = dict(G=G, colors=colors)
    com = prover.commit_to_coloring()
    mon.equal(sorted(com), sorted(colors), "committed_vertices", **d)
    left, draws = set(edges), 0
    while left and draws < 60 * len(edges):
        c = verifier.choose_edge(com)
        draws += 1
        e = tuple(sorted(c))
        mon.check(e in edges, "chosen_not_an_edge", edge=c, **d)
        if e not in left: continue
        left.discard(e)
        rev = prover.reveal_colors(*c)
        if e in wrong:
            mon.rejects(lambda: verifier.accepts(rev), "monochromatic_accepted", edge=e, **d)
            mon.event("monochromatic_rejected")
            continue
        mon.check(verifier.accepts(rev) is True, "honest_rejected", edge=c, **d)
        mon.check(verifier.accepts(prover.reveal_colors(*c[::-1])) is True, "honest_rejected", edge=c[::-1], **d)
        mon.event("accepted", 2)
        mon.event("every_edge_open")
        mon.event("late_vertex", sum(v > 16 for v in e))
        mon.seen(G, colors, e, com)
        for _ in range(3):
            t = [list(rev[0]), list(rev[1])]
            i, j = rng.randrange(2), rng.randrange(2)
            t[i][j] = rng.choice([t[i][j] + 1, t[i][j] ^ 4, rng.getrandbits(64), one(t[i][j]), t[i][1 - j], t[1 - i][j]])
            if one(t[i][j]) != com[c[i]][j][0]:
                mon.rejects(lambda: verifier.accepts((t[0], t[1])), "tampered_reveal_accepted", edge=e, at=(i, j), **d)
                mon.event("tampered_reveal")
        mon.rejects(lambda: verifier.accepts((rev[1], rev[0])), "swapped_reveal_accepted", edge=e, **d)
    mon.equal(left, set(), "edges_never_chosen", draws=draws, **d)
    mon.event("large_graph")
    non = [(u, v) for u in colors for v in colors if u < v and (u, v) not in edges]
    for u, v in rng.sample(non, 30):
        mon.raises(lambda: prover.reveal_colors(*rng.choice([(u, v), (v, u)])), "non_edge_revealed", edge=(u, v), **d)
        mon.event("non_edge_refused")
    # what was revealed in one round opens nothing in the next
    for e in rng.sample(sorted(edges), 12):
        old = prover.reveal_colors(*e)
        prover.commit_to_coloring()
        verifier.committed_coloring, verifier.chosen_edge = prover.commit_to_coloring(), e
        mon.rejects(lambda: verifier.accepts(old), "reveal_of_other_round_accepted", edge=e, **d)
        mon.event("tampered_reveal")
    # the colours of all vertices move together, by each of the six permutations
    perms = set()
    for _ in range(120):
        com = prover.commit_to_coloring()
        shown = {}
        for e in edges:
            for v, s in zip(e, prover.reveal_colors(*e)): shown[v] = verifier.verifier.decode(s, com[v])
        m = {}
        for v in shown: m.setdefault(colors[v], set()).add(shown[v])
        mon.check(all(len(x) == 1 for x in m.values()) and len(set().union(*m.values())) == len(m), "not_a_permutation_of_colours", map=m, **d)
        perms.add(tuple(sorted((k, *v) for k, v in m.items())))
    mon.check(len(perms) == 6, "colour_permutations", got=perms, **d)
    mon.event("fresh_permutation")
