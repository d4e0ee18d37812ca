#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": "reference-model runtime monitor (plain ints) over random and exhaustive operation streams",
 "C02": "reference-model runtime monitor (coefficient tuples) over random and exhaustive field operations",
 "C03": "reference-model runtime monitor (residues) over random representatives and operation chains",
 "C04": "reference-model runtime monitor for univariate ring and division operations",
 "C05": "reference-model runtime monitor for multivariate ring operations, iteration and evaluation",
 "C06": "online history monitor: parameters to type identity, over random constructor histories",
 "C07": "runtime oracle: divisibility, Bezout identity and reference gcd on observed results",
 "C08": "runtime oracle: trial division / order of x, exhaustive for small fields",
 "C09": "runtime oracle: value at every point, degree bound, uniqueness",
 "C10": "runtime oracle: enumeration of the affine span by the reference",
 "C11": "runtime oracle: direct evaluation and interpolation by the reference",
 "C12": "runtime oracle: exhaustive table of values of the compiled polynomial",
 "C13": "fault-injecting monitor: independent Merkle model, every kind of tampering judged",
 "C14": "runtime monitor: round trip and layout of serialised values",
 "C15": "offline checkers over recorded draws: range, exclusion, prefix, determinism, binding",
 "C16": "runtime monitor: round trip, no-repetition and length oracles over recorded compressed forms",
 "C17": "runtime monitor: trace replayed by the reference; constraint and circuit verdicts",
 "C18": "runtime monitor: prover and verifier observed with intermediate polynomials recomputed by the reference",
 "C19": "fault-injecting monitor: tampered proofs and false statements must be rejected",
 "C20": "fault-injecting monitor: low-degree proofs honest, tampered and fraudulent",
 "C21": "runtime oracle: unique interpolant over the space, recorded call points",
 "C22": "runtime oracle: integer reading of elements, exhaustive for small fields",
 "C23": "reference-model runtime monitor of the documented component formulas",
 "C24": "runtime oracle: deterministic primality reference, controlled random streams",
 "C25": "fault-injecting monitor: commitments opened, tampered and swapped",
 "C26": "protocol monitor: every round judged by an independent edge-by-edge verifier",
 "C27": "protocol monitor: transcripts judged for completeness, soundness and freshness",
 "C28": "history monitor with executable ledger model and exhaustive single-field tampering",
 "C29": "concurrent HTTP workload with injected yields and fake peers; offline exactly-once / validity checker",
 "C30": "reference-model runtime monitor",
 "C31": "reference-model runtime monitor of spaces, polynomials and rates",
 "C32": "runtime oracle: known solutions, row orders, integer comparison",
 "C33": "online history monitor: snapshots of all live values around every operation, and re-execution of history",
}
NOTE = ("Observed executions only: held on the cases counted in the evidence file, which are drawn from the seed; trusts the Python runtime, "
        "hashlib and the reference arithmetic in vlib/ref.py (plain ints, independent of the library).")
EXTRA = {
 "C15": " Statistical statements (every admissible index can occur, different roots give different challenges) are decided up to a probability below 2^-40 per run.",
 "C19": " Soundness is decided for the attacks generated, over fields where a lucky challenge has negligible probability.",
 "C20": " Soundness is decided for the attacks generated, over fields where a lucky challenge has negligible probability.",
 "C29": " Thread schedules are sampled with injected yields, not enumerated.",
}
checks = []
for c, t in T.items():
    checks.append({"property": c, "quick_cmd": "python3 run.py %s --tier quick" % c, "thorough_cmd": "python3 run.py %s --tier thorough" % c,
                   "evidence_file": "evidence/%s.json" % c, "technique": t, "level": "exploration", "level_note": NOTE + EXTRA.get(c, "")})
m = {"version": 1, "setup_cmd": "python3 -c \"import sys; sys.path.insert(0, '.'); from vlib import core\"", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: every monitor observes the library at its API from /verif (wrappers, fake peers, injected delays). "
              "python3 run.py --replay <file> runs a reported case again. VERIF_REPO=<copy> runs the checks on a copy of the repository."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
