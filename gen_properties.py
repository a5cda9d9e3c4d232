#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": m[0], "where": m[1]} for m in mech]}
    if state: a["state"] = [{"name": s[0], "meaning": s[1], "where": s[2]} for s in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

p("C01", "The aggregation circuit accepts exactly what a halo2 verifier accepts",
  "For every proof, auxiliary vector, verifier instance and target instance, the aggregation circuit is satisfied if and only if the halo2 SHPLONK verifier for the fixed verification key accepts that proof for that instance and the auxiliary values are the true quotients. In particular the shipped proof is accepted, and changing any proof word, auxiliary word, verifier instance or target instance value (alone, or with the auxiliary values recomputed to match) is rejected.",
  ["inputs"], "all proofs x auxiliary vectors x instances; explored: every single position of the 130 input words, several values each, stale and recomputed quotients",
  "TestCircuit runs one accepted proof; nothing ever checks that a different proof is refused, so a verifier that accepts everything passes.",
  ["circuit.go", "AggregatorVerifierStep1.go", "AggregatorVerifierStep2.go", "AggregatorVerifierStep3.go", "aggregator_lib_circuit.go", "pairing_circuit.go"],
  [("AggregatorCircuit.Define", "circuit.go"), ("VerifyProof1/2/3", "AggregatorVerifierStep*.go"), ("VerifyBN256Pairing", "pairing_circuit.go")],
  ["verdict (error/panic or nil) of running the circuit"])

p("C02", "Every Fiat-Shamir challenge hashes all that was said before it",
  "The eight transcript challenges (theta, beta, gamma, y, x, y', v, u) equal, for every transcript, SHA-256 over the running digest followed by every proof word and instance-commitment coordinate absorbed since the previous challenge, in order, as 32-byte big-endian words and a trailing zero byte, reduced modulo the scalar field. So any word absorbed before a challenge changes it, and words absorbed later do not.",
  ["inputs"], "all transcripts; explored: every one of the 106 absorbed words changed alone (dependency matrix 106 x 8), boundary words (0, 1, r-1, one-byte and 31-byte values), every squeeze length up to the largest used",
  "TestSqueezeChallenge compares one transcript's values by printing; a dropped or reordered word that leaves the shipped proof's own test untouched needs another transcript to show.",
  ["aggregator_lib_circuit.go"], [("GetChallengesShPlonkCircuit", "aggregator_lib_circuit.go"), ("SqueezeChallenge", "aggregator_lib_circuit.go")],
  ["challenge values handed to the verifier steps"])

p("C03", "Commitments that are not curve points are never accepted",
  "A proof in which any one of its 24 commitments is not a point of the bn254 G1 curve is rejected, whatever position the bad commitment has. The on-curve gadgets accept a pair (x, y) given as an integer, decimal string or base-field value exactly when y^2 = x^3 + 3 modulo the base field or the pair is the (0,0) encoding of the point at infinity.",
  ["inputs"], "all coordinate pairs and positions; explored: all pairs of a small grid, all perturbations of known points, each of the 24 positions x several off-curve pairs",
  "The tests try a handful of valid points and no invalid point inside a transcript.",
  ["aggregator_lib_circuit.go"], [("VerifyCheckOnCurve / VerifyCheckOnCurveVar", "aggregator_lib_circuit.go"), ("GetChallengesShPlonkCircuit", "aggregator_lib_circuit.go")])

p("C04", "The final pairing points are exactly the SHPLONK reduction of the proof",
  "For every transcript, challenge vector and instance commitment with matching quotients, the verifier steps produce as final pairing inputs the proof's last commitment W' and the point F = sum of all commitments weighted by their opening coefficients - r(u)*G - Z(u)*W + u*W', where the constraint, permutation, lookup and fixed-column terms are those of the fixed verification key.",
  ["inputs"], "all evaluations, commitments and challenges; explored: the shipped transcript, each evaluation / commitment / challenge replaced alone, sparse and dense transcripts",
  "Only one transcript is ever run, and only its final verdict is looked at: a wrong coefficient multiplying a term that is zero or cancels there is invisible.",
  ["AggregatorVerifierStep1.go", "AggregatorVerifierStep2.go", "AggregatorVerifierStep3.go", "fr.go"],
  [("VerifyProof1", "AggregatorVerifierStep1.go"), ("VerifyProof2", "AggregatorVerifierStep2.go"), ("VerifyProof3", "AggregatorVerifierStep3.go")],
  ["final G1 points passed to the pairing"])

p("C05", "Prover-supplied quotients cannot be anything but the true quotients",
  "Each of the 21 auxiliary quotients is forced: with a nonzero denominator, supplying any value other than numerator/denominator at any one position, or compensating wrong values at two positions, makes the circuit unsatisfiable, while the true quotients satisfy it. The division gadget returns its auxiliary value exactly when denominator times it equals the numerator.",
  ["inputs"], "all auxiliary vectors; explored: each position x alphabet of wrong values, pairs of positions with compensating factors, all triples of a boundary alphabet for the division gadget",
  "The tests supply only the right quotients.",
  ["fr.go", "AggregatorVerifierStep1.go", "AggregatorVerifierStep2.go"], [("fr_div", "fr.go"), ("aux[i] uses", "AggregatorVerifierStep1.go, AggregatorVerifierStep2.go")])

p("C06", "In-circuit point multiply and add are exact whatever the hint answers",
  "The elliptic-curve steps used by the verifier return k*P (multiply), P+Q (add) or acc + k*P (multiply-add) for regular inputs, and leave every slot of the caller's buffer that does not hold one of these points alone. If the untrusted hint answers with any other pair of values, the circuit is unsatisfiable: no hint answer makes a step return a wrong point.",
  ["inputs", "fault_sequences"], "all points, scalars and hint answers; explored: point x scalar grids including GLV edge scalars, every hint of a step (and of a whole verifier step) deviating once over an alphabet of wrong answers, two deviations for small steps",
  "The tests use honest hints on a few points; a hint answer is a prover's choice and is never varied.",
  ["fr.go", "aggregator_lib_circuit.go", "msm.go"],
  [("ecc_mul / ecc_mul_add", "fr.go"), ("CalcVerifyBN256Msm / CalcVerifyBN256Add", "aggregator_lib_circuit.go"), ("VerifyBN254ScalarMul / VerifyBN254Add", "msm.go")])

p("C07", "The pairing circuit accepts exactly when the pairing product is one",
  "For G1 points P1, P2 and G2 points Q1, Q2 (none at infinity) the pairing circuit is satisfied if and only if e(P1,Q1)*e(P2,Q2) = 1. The G2 points loaded for the aggregation are those of the fixed verification key, in order, and loading G1 points that are not on the curve fails.",
  ["inputs"], "all point quadruples; explored: scalar grids (a,b,c,d) of multiples of the generators with ab+cd zero and nonzero, multiples of the accepted final pair, every sign change and swap, off-curve G1 pairs",
  "The tests use two accepted quadruples and one refused one at most.",
  ["pairing_circuit.go"], [("VerifyBN256Pairing", "pairing_circuit.go"), ("FillVerifyCircuitsG1/G2", "pairing_circuit.go"), ("GetVerifyCircuitsG2Jac", "pairing_circuit.go")])

p("C08", "The proof is bound to the public instance through Keccak-256",
  "The instance value fed to the verifier is, for every list of instance words, the big-endian Keccak-256 digest of their 32-byte big-endian encodings, modulo the scalar field. No answer of the hashing hint (digest bytes or preimage bytes) can make the circuit accept the digest of any other words.",
  ["inputs", "fault_sequences"], "all instance vectors and hint answers; explored: alphabets of instance words, every hint output altered alone over an alphabet, whole-answer substitutions (other instance, permuted, shifted words, aliased word+r)",
  "The tests run one honest instance; the hint's answer is never varied.",
  ["circuit.go", "utils.go", "aggregator_lib_circuit.go"], [("VerifyInstanceHash", "circuit.go"), ("Keccak256Hint", "circuit.go"), ("VerifyKeccak256", "aggregator_lib_circuit.go"), ("CalcVerifyCircuitLagrange", "aggregator_lib_circuit.go")])

p("C09", "The Keccak-256 and SHA-256 circuits accept exactly the true digest",
  "For every message the Keccak-256 and SHA-256 circuits are satisfied by the true digest and by no other: changing any digest byte, or any message byte, makes them unsatisfiable, at every message length.",
  ["inputs"], "all messages and digests; explored: every length over several block boundaries, every digest byte and every message byte changed, bit-level changes at boundary lengths",
  "The tests use one or two messages with the right digest.",
  ["aggregator_lib_circuit.go"], [("VerifyKeccak256", "aggregator_lib_circuit.go"), ("VerifySha256", "aggregator_lib_circuit.go")])

p("C10", "Scalar-field helpers compute exact field arithmetic for any hint answer",
  "The scalar-field helpers (add, subtract, multiply, negate, negated product, power, reduce, packing of bytes) return the exact result modulo the scalar field for all operands, and no answer of the reduction hint can make the circuit accept a different result.",
  ["inputs", "fault_sequences"], "all operand pairs and hint answers; explored: all pairs of a boundary alphabet, all small exponents, every hint output altered over an alphabet",
  "The tests call them only through one proof; TestBigMod is a single value.",
  ["fr.go", "utils.go"], [("fr_add, fr_sub, fr_mul, fr_mul_neg, fr_neg, fr_pow, mod", "fr.go"), ("PackUInt8Variables", "utils.go")])

p("C11", "KYC proof: issuer signature, age range and country list all hold",
  "A KYC witness is accepted if and only if the signature is a valid ECDSA signature of the issuer's fixed secp256k1 key on the KYC hash, the age is within the inclusive public range, and the country is in the public list. Dropping any one of the three conditions is rejected, for every list length and position.",
  ["inputs"], "all records, conditions and signatures; explored: all (age,min,max) of a boundary grid, every position and length of the country list, every word of the signature and hash altered, malleable signature",
  "TestKyc proves one satisfied witness and never a refused one.",
  ["kyc.go", "aggregator_lib_circuit.go"], [("Circuit.Define", "kyc.go"), ("VerifyRangeCheck", "aggregator_lib_circuit.go")])

p("C12", "The public inputs are exactly the declared conditions, in order",
  "The public witness of the aggregation circuit is the target instance, in order, and nothing else; that of the KYC circuit is the age bounds, country, level and time conditions in order and nothing else; the remaining circuits expose nothing but what they declare. Changing a secret field never changes the public witness and changing a public one changes exactly its own entry.",
  ["inputs", "configurations"], "all assignments and list sizes; explored: every leaf of every circuit changed alone, several list sizes",
  "No test reads the public witness vector.",
  ["circuit.go", "kyc.go", "aggregator_lib_circuit.go"], [("struct tags gnark:\",public\"", "circuit.go, kyc.go, aggregator_lib_circuit.go")])

p("C13", "Compiled circuits are solvable and decide like the direct evaluation",
  "Every circuit of the package compiles under the PLONK and R1CS front ends, and every compiled circuit or gadget gives, for every assignment, the same verdict as direct evaluation and as the specification, using only the hints the package registers; with any other hint answer a false statement stays unsatisfiable.",
  ["inputs", "configurations"], "all assignments x both constraint systems; explored: gadget-sized circuits over boundary grids and, where it fits, every assignment of a small prime field, hash / pairing / KYC circuits over a small alphabet",
  "The tests compile two or three circuits with one assignment each.",
  ["aggregator_lib_circuit.go", "fr.go", "kyc.go", "msm.go", "pairing_circuit.go", "circuit.go"], [("solver.RegisterHint calls", "aggregator_lib_circuit.go init"), ("Define methods", "all files")])

p("C14", "Verifications do not influence each other or change their inputs",
  "The verdict and result of a verification depend only on its own inputs: they are the same when it is repeated on the same objects, run after any other verifications, or interleaved with one. No verification modifies points, scalars, proof words or other inputs that belong to its caller.",
  ["schedules", "histories", "inputs"], "all histories and interleavings; explored: all operation sequences up to a depth over an alphabet of accepting and refusing operations, all interleavings of two operations with a bounded number of preemptions at circuit operations",
  "Each test runs once on fresh objects; nothing is run twice on the same object or concurrently.",
  ["aggregator_lib_circuit.go", "fr.go", "circuit.go", "msm.go", "pairing_circuit.go"],
  [("receivers and buffers are fresh", "aggregator_lib_circuit.go"), ("package-level state is read only", "aggregator_lib_circuit.go")],
  state=[("FpModulus, FrModulus, MODULUS", "field moduli, read only after init", "aggregator_lib_circuit.go")])

p("C15", "Hint functions answer correctly or report an error, never garbage",
  "For every input the multiplication, addition, hashing and reduction hints fill all their outputs with the correct values (curve multiple, curve sum, Keccak digest and preimage bytes, quotient and remainder), leave their inputs unmodified, and refuse operands that are not curve points with an error. Point texts convert to decimal coordinates exactly, including coordinates with leading zeros, and texts that do not contain a well-formed pair are refused.",
  ["inputs"], "all operands; explored: consecutive multiples of the generator (which include short coordinates), boundary scalars, every malformed operand of an alphabet, all mutations of a point text",
  "TestHexToBase converts one string; no test feeds a malformed operand.",
  ["aggregator_lib_circuit.go", "circuit.go", "fr.go"], [("MsmHint, AddHint", "aggregator_lib_circuit.go"), ("Keccak256Hint", "circuit.go"), ("modHint", "fr.go"), ("extractAndConvert, hexToDecimalString", "aggregator_lib_circuit.go")])

p("C16", "Range and non-zero gadgets hold exactly on their intervals",
  "The range gadget is satisfied exactly when min <= x <= max as canonical field integers, both bounds included, and the non-zero gadget exactly when its operand is not zero; so an aggregation whose final points have a zero coordinate cannot pass.",
  ["inputs"], "all operands; explored: every triple of a small prime field on compiled systems, all boundary triples of the full field, directly and compiled",
  "No test calls the gadgets with an operand outside the interval.",
  ["aggregator_lib_circuit.go"], [("VerifyRangeCheck", "aggregator_lib_circuit.go"), ("VerifyNotZero", "aggregator_lib_circuit.go")])

p("C17", "Standalone curve circuits accept exactly the true result",
  "The standalone circuits for scalar multiplication, point addition and multi-scalar multiplication are satisfied by the true result and by no other point, for all regular points and scalars and any number of terms.",
  ["inputs"], "all points, scalars and claimed results; explored: grids of small and extreme scalars x points, claimed results true / negated / doubled / off by the generator / swapped coordinates, 1..4 terms",
  "The tests use one accepted instance of each.",
  ["msm.go", "aggregator_lib_circuit.go"], [("MultiScalarMul, BN254ScalarMul, BN254Add", "msm.go"), ("BN256MsmCircuit, BN256AddCircuit", "aggregator_lib_circuit.go")])

p("C18", "Compiling a circuit is deterministic and independent of any assignment",
  "Compiling a given circuit shape always yields the same constraint system (so the same proving and verifying keys stay valid), whatever placeholder values it holds and whatever was compiled or evaluated before.",
  ["configurations", "histories"], "all placeholder assignments and prior histories; explored: every compilable circuit x front end x placeholder alphabet x preceding operation, byte-for-byte comparison of the serialized systems",
  "Tests compile each circuit once per process.",
  ["kyc.go", "aggregator_lib_circuit.go", "msm.go", "pairing_circuit.go", "fr.go", "circuit.go"], [("Define methods take no decision on placeholder values", "all files")])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
