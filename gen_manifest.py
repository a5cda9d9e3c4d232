#!/usr/bin/env python3
"""Writes MANIFEST.json from the harness files present (a property is claimed when its check exists)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {
 "C01": "explicit enumeration of whole-circuit runs over all single-position changes of the input words, verdict compared with an independent halo2 verifier",
 "C02": "exhaustive single-change enumeration of the transcript (dependency matrix) on the real transcript code, compared with a reference transcript",
 "C03": "exhaustive enumeration of coordinate grids and of the 24 commitment positions on the real gadgets",
 "C04": "exhaustive single-change enumeration of evaluations, commitments and challenges on the real verifier steps against a polynomial-opening reference model",
 "C05": "exhaustive enumeration of wrong-quotient positions and pairs on the real verifier steps",
 "C06": "fault enumeration: every hint call of an execution deviates over an alphabet, on the real gadgets under a controlled hint scheduler",
 "C07": "exhaustive enumeration of pairing-input grids on the real circuit",
 "C08": "fault enumeration of every hash-hint answer and exhaustive instance alphabets on the real circuit",
 "C09": "exhaustive enumeration of message lengths and of digest and message byte changes on the real circuits",
 "C10": "exhaustive operand grids and hint-answer fault enumeration on the real helpers",
 "C11": "exhaustive enumeration of (age, bounds) grids, country lists and signature alterations on the real KYC circuit",
 "C12": "exhaustive enumeration of the leaves of every circuit, each changed alone, against the extracted public vector",
 "C13": "exhaustive assignment enumeration on compiled constraint systems (both front ends) with direct-run conformance and adversarial hint enumeration",
 "C14": "exhaustive operation sequences to a depth and all preemption-bounded interleavings under a controlled scheduler on the real code",
 "C15": "exhaustive operand enumeration of the hint functions and of text mutations",
 "C16": "exhaustive assignment enumeration (all triples of a small prime field; boundary triples of the full field) direct and compiled",
 "C17": "exhaustive enumeration of term grids and claimed results on the real circuits",
 "C18": "exhaustive enumeration of placeholder values, front ends and preceding operations, byte comparison of compiled systems",
}
NOTE = "Every execution inside the stated bounds is run on the code of the current tree and its verdict or value compared with a reference model written from the specification; bounds, states and executions are in the evidence file. Trusts gnark-crypto field and curve arithmetic, gnark's standard gadgets (conformance cases re-run a sample of the executions on gnark's own engine and compiled solver), and that behaviour outside the bounds is like behaviour inside."
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
for p in props:
    if os.path.exists(os.path.join(HERE, "harness", p.lower() + "_test.go")):
        checks.append({"property": p, "quick_cmd": "python3 check.py %s quick" % p, "thorough_cmd": "python3 check.py %s thorough" % p,
                       "evidence_file": "evidence/%s.json" % p, "technique": "model checking: " + T[p], "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p, "reason": "The check is not written yet."})
json.dump({"version": 1, "setup_cmd": "python3 setup.py", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo: the harness is compiled into the package with go's -overlay (see DESIGN.md)."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
