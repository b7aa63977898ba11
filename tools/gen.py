#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property is claimed when its
checker exists (harness/src/bin/<id>.rs or hooked/src/bin/<id>.rs)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def p(id, title, statement, over, text, why, files, mech, observe, technique, note, level="model_checking", state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note, level=level, state=state, hook=hook))

SRC = "src/"
IN, HI, CF, FA, SC, PR = "inputs", "histories", "configurations", "fault_sequences", "schedules", "programs"
EXH = "exhaustive enumeration of "

p("F01", "Field arithmetic is exact arithmetic modulo the prime",
  "In both scalar fields, addition, subtraction, negation, doubling, squaring and multiplication, in every operator form, return the exact result modulo the field's prime. Results are always reduced, so equal values compare equal and encode identically, after any sequence of operations.",
  [IN, HI], "all operand pairs over a limb alphabet that contains every limb of the moduli and its neighbours in canonical and Montgomery form; operation histories up to a depth",
  "The unit tests use a handful of fixed constants; carry and reduction corner cases need particular limb patterns that random or fixed operands do not reach.",
  ["src/fields/fp.rs", "src/fields/fq.rs", "src/fields/mod.rs"],
  [("Montgomery reduction with final conditional subtraction", "src/fields/fp.rs, src/fields/fq.rs: montgomery_reduce, add, sub, neg, mul, square")],
  ["Field operators and to_bytes"], EXH + "operand tuples and operation histories over a limb alphabet against big-integer arithmetic",
  "Exact within the enumerated limb alphabet (all corner limbs of the modulus, in canonical and Montgomery form); values outside the alphabet are not covered. Trusts the harness's big-integer reference.")

p("F02", "Field encodings are canonical and round-trip",
  "Encoding a field element yields the 32 little-endian bytes of its reduced value; decoding accepts exactly the encodings of values below the prime and returns that value. Wide (64-byte) and integer conversions, the low-128-bit view and raw limb constructors agree with the value modulo the prime.",
  [IN], "all byte strings whose limbs come from an alphabet around the modulus, both accepted and rejected; all integer landmarks",
  "Tests round-trip a few values; the acceptance boundary at the modulus and the wide reduction need values adjacent to multiples of the prime.",
  ["src/fields/fp.rs", "src/fields/fq.rs", "src/fields/mod.rs"],
  [("borrow-based range check and Montgomery conversion", "src/fields/fp.rs, src/fields/fq.rs: from_bytes, to_bytes, from_bytes_wide, from_raw, get_lower_128")],
  ["Field::from_bytes, to_bytes, from_u64, from_u128, get_lower_128"], EXH + "encodings over a limb alphabet against big-integer arithmetic",
  "Complete for every string over the alphabet; assumes untouched limb patterns behave like their neighbours.")

p("F03", "Inverses, square roots, powers and field constants are correct",
  "Inversion returns the multiplicative inverse and nothing for zero; a square root is returned exactly for squares and squares back; exponentiation and batch inversion agree with repeated multiplication. The published constants (two-adicity, root of unity, cube root of unity, Rescue exponents) have the defining algebraic properties.",
  [IN, CF], "landmark values of both fields and every element of small fields; all batch shapes with zeros in every position up to a length",
  "Tests check one inverse and one root; zero handling in batches and non-residues in special positions are not sampled.",
  ["src/fields/mod.rs", "src/fields/fp.rs", "src/fields/fq.rs"],
  [("Fermat inversion, Tonelli-Shanks, shared batch inversion", "src/fields/mod.rs, src/fields/*.rs: invert, sqrt, pow, batch_invert")],
  ["Field trait"], EXH + "operands and batch shapes, small fields completely", "Complete over the small fields and the stated landmark sets.")

p("C01", "Curve points form the group defined by the curve equation",
  "On both curves, addition, subtraction, doubling and negation in every operator form compute the group law, including identity, equal and opposite operands, for every internal representation of the operands. Equality holds exactly for representations of the same point.",
  [IN, HI], "all ordered pairs of landmark points in several projective representations produced by different operation histories, and all histories of group operations up to a depth",
  "Unit tests exercise a few sums of the generator; exceptional cases and differing projective representations are not combined.",
  ["src/curves/ec0.rs", "src/curves/ec1.rs", "src/curves/mod.rs"],
  [("projective addition formulas with selected exceptional cases", "src/curves/ec0.rs, src/curves/ec1.rs: add, double, ct_eq")],
  ["Curve operators, get_xy, equality"], EXH + "operand pairs, representations and operation histories against an affine chord-and-tangent reference over big integers",
  "Exact for the enumerated points and histories; arithmetic on other points is covered by C02's scalar enumeration only.")

p("C02", "Scalar multiplication is repeated addition, and the endomorphism is a multiple",
  "Multiplying a point by a scalar equals the sum of that many copies, for every scalar including zero, negative and order-adjacent ones, and multiplication by the group order gives the identity. Scaling the x coordinate by the base field's cube root of unity equals multiplication by the scalar field's cube root, and the short challenge expansion used by the protocol yields exactly the scalar of the double-and-negate-and-endomorphism walk.",
  [IN], "all scalars over digit alphabets (small, single-bit, order-adjacent), all points of tiny curves, all challenge bit patterns at each position",
  "Tests multiply by a few constants; a wrong bit at one position shows only for scalars with that bit.",
  ["src/curves/ec0.rs", "src/curves/ec1.rs", "src/curves/mod.rs", "src/util.rs"],
  [("double-and-add over the encoded scalar", "src/curves/*.rs: mul"), ("challenge expansion", "src/util.rs: get_challenge_scalar")],
  ["Curve multiplication, get_challenge_scalar"], EXH + "scalars and challenge patterns against integer and point references",
  "Exact on enumerated scalars; linearity over bit positions is checked for every position.")

p("C03", "Point encodings and coordinate constructors accept exactly the curve's points",
  "A point's 32-byte encoding decodes to the same point, distinct points have distinct encodings, and decoding accepts exactly the encodings that some point produces. Building a point from coordinates succeeds exactly when they satisfy the curve equation or denote the identity, and coordinates read back are those of the point.",
  [IN], "encodings of landmark points with every single-bit change, all x coordinates in a landmark set with both signs, non-canonical coordinates and identity variants",
  "Tests round-trip the generator; rejected encodings and sign handling are not covered.",
  ["src/curves/ec0.rs", "src/curves/ec1.rs", "src/curves/mod.rs"],
  [("compressed encoding with sign bit", "src/curves/*.rs: to_bytes, from_bytes, from_xy, get_xy")],
  ["Curve::to_bytes, from_bytes, from_xy, get_xy"], EXH + "encodings and coordinate pairs against an integer reference",
  "Complete for the enumerated x coordinates and bit flips.")

p("U01", "Multi-scalar multiplication is the sum of products for any size and core count",
  "The multi-scalar multiplication of scalars and points returns the sum of the individual products for every length, every number of worker threads and every scheduling of them, including zero scalars, identity points, repeated and opposite points.",
  [IN, CF, SC], "all lengths up to a bound times all worker counts; all scalar/point assignments over tiny groups at short lengths; all thread interleavings up to a preemption bound",
  "Tests run one length on the machine's own core count, so other chunkings and window boundaries never execute.",
  ["src/util.rs"], [("chunking by worker count, bucket windows", "src/util.rs: multiexp")],
  ["multiexp"], EXH + "lengths, worker counts, tiny-group operands and thread schedules of the real code",
  "Scheduling is sequentially consistent at field-operation granularity; lengths above the bound are not covered.")

p("U02", "Polynomial products and transforms agree with schoolbook multiplication",
  "The product of two polynomials has exactly the coefficients of schoolbook multiplication for all lengths, and does not depend on the number of worker threads or their scheduling.",
  [IN, CF, SC], "all length pairs up to a bound, all unit vectors (a basis, the operation being bilinear), all worker counts, schedules up to a preemption bound",
  "Tests multiply one pair of polynomials of one size; the parallel path and odd worker counts are not sampled.",
  ["src/util.rs"], [("radix-2 transform, serial and parallel", "src/util.rs: best_fft, serial_fft, parallel_fft, multiply_polynomials")],
  ["multiply_polynomials"], EXH + "lengths, bases, worker counts and schedules", "Bilinearity extends the basis result to all coefficients of the covered lengths only if the code is bilinear; dense vectors are checked too.")

p("U03", "Folding helpers of the inner product argument agree with their closed forms",
  "Folding generators with a challenge, the inner product, the verifier's evaluation of the folded vector and the verifier's coefficients of the folded generator all agree with one another and with their definitions, for every size, challenge and worker count.",
  [IN, CF, SC], "all sizes up to a bound, all challenge vectors over tiny fields, all worker counts, schedules up to a preemption bound",
  "Only one size on one machine's core count is tested, indirectly.",
  ["src/util.rs"], [("chunked folding; recursive product formula", "src/util.rs: parallel_generator_collapse, compute_inner_product, compute_b, compute_g_for_inner_product, compute_g_coeffs_for_inner_product")],
  ["the helpers' results"], EXH + "sizes, challenges, worker counts and schedules", "Complete over the tiny fields and sizes; challenge values in the production fields are covered by P01/P02.")

p("R01", "The sponge hash absorbs and squeezes as specified for every call history",
  "For every interleaving of absorbing and squeezing, the outputs equal those of the Rescue sponge with rate 12 and capacity 1 as implemented by its permutation, padded with ones: they depend on all absorbed elements in order, and repeated squeezing re-applies the permutation when exhausted.",
  [HI, IN], "all absorb/squeeze histories up to a length that crosses the rate boundary in both phases, over fields small and large",
  "Tests cover two histories; the boundary at 12 elements in either phase combined with mode switches is not reached.",
  ["src/rescue.rs"], [("sponge state machine", "src/rescue.rs: absorb, squeeze, pad"), ("permutation and key schedule", "src/rescue.rs")],
  ["Rescue::absorb, squeeze"], "explicit-state exploration of all sponge histories against an independent sponge model",
  "States are the sponge's mode and fill; known finding: the first absorbed element of a block does not influence the output.",
  state=[dict(name="sponge mode and buffer", meaning="absorbing with n pending elements or squeezing with n left", where="src/rescue.rs")])

p("R02", "The in-circuit sponge computes the native sponge and admits no other output",
  "For every history of absorbing and squeezing, the circuit version's outputs equal the native outputs on the same elements, and the emitted constraints admit no other outputs for the same inputs.",
  [HI, IN], "all histories up to a length crossing the rate in both phases; all satisfying assignments of the emitted constraints with inputs fixed",
  "Tests compare two histories and only check that the honest assignment is accepted, never that others are rejected.",
  ["src/gadgets/rescue.rs", "src/rescue.rs"], [("constraints per S-box and round", "src/gadgets/rescue.rs")],
  ["squeezed numbers"], "explicit-state exploration of sponge histories with exhaustive search of satisfying assignments",
  "Soundness search is exact propagation over the production fields with no wire left free.")

p("G01", "Boolean gadgets compute and force the truth table",
  "Every boolean operation of the circuit library, on any mix of constant, allocated and negated operands, computes the truth table, and no satisfying assignment gives a different result or a non-bit.",
  [IN], "all operand kinds and values of every boolean operation, all assignments of the allocated wires",
  "Tests check honest assignments; that dishonest ones are rejected is a statement about all assignments.",
  ["src/gadgets/boolean.rs"], [("bit constraint and product constraints", "src/gadgets/boolean.rs")],
  ["output wires"], EXH + "operands and satisfying assignments of the emitted constraints", "Complete over small fields; production fields by exact propagation.")

p("G02", "Bit decomposition yields the canonical bits only",
  "Unpacking a number in a circuit yields the bits of its reduced value, and no other bit string, in particular not that of the value plus the modulus, satisfies the constraints.",
  [IN], "landmark numbers of both fields in all operand kinds, all 0/1 assignments of the 256 bits",
  "The test only checks that the honest decomposition is accepted.",
  ["src/gadgets/num.rs"], [("recomposition plus comparison with the modulus", "src/gadgets/num.rs: unpack_fe")],
  ["output bits"], EXH + "satisfying bit assignments for fixed numbers", "Complete in the bits for each enumerated number.")

p("G03", "Number gadgets compute and force the field operation",
  "Products, squares, linear combinations, equality and rational steps of circuit numbers compute the field operation on any mix of constant, allocated and scaled operands, and no satisfying assignment gives a different result.",
  [IN], "all operands of small fields in all kinds, landmark operands of the production fields, all assignments of the allocated wires",
  "Tests check a few honest products; rejection of every other assignment is not tested.",
  ["src/gadgets/num.rs"], [("product gates with linear ties", "src/gadgets/num.rs")],
  ["output wires"], EXH + "operands and satisfying assignments of the emitted constraints", "Complete over small fields.")

p("G04", "32-bit word gadgets compute and force machine arithmetic",
  "Word rotation, shift, exclusive or, choice, majority and modular addition of any number of operands in a circuit compute the 32-bit result, on any mix of constant and allocated bits, and no satisfying assignment gives a different result.",
  [IN], "word alphabets with carries at every position, all operand kinds, operand counts 2 to 10, all satisfying assignments with operands fixed",
  "Tests sample random words and only check the honest assignment.",
  ["src/gadgets/uint32.rs"], [("bitwise gadgets; sum recomposition with carries", "src/gadgets/uint32.rs")],
  ["output bits"], EXH + "operands and satisfying assignments of the emitted constraints", "The word alphabet contains every carry chain start and length; not all 2^64 pairs.",
  hook="re-export of the private word type")

p("G05", "64-bit word gadgets compute and force machine arithmetic",
  "The circuit's 64-bit word conversions and its multiply-accumulate compute the exact integer result split into low and high word, and no satisfying assignment gives a different result.",
  [IN], "word alphabets with carries at every position and extreme values, all operand kinds, all satisfying assignments with operands fixed",
  "Tests use random words and the honest assignment.",
  ["src/gadgets/uint64.rs"], [("range-checked decomposition of the exact integer", "src/gadgets/uint64.rs")],
  ["output bits"], EXH + "operands and satisfying assignments of the emitted constraints", "Complete for the word alphabet.")

p("G06", "The circuit's SHA-256 is SHA-256",
  "For every message length, the circuit digest equals the standard SHA-256 digest, constraints are satisfied by the honest assignment, and no satisfying assignment with the same message yields another digest.",
  [IN], "all byte lengths up to several blocks, single-bit messages at every position of a block, all satisfying assignments with the message fixed",
  "Tests use a few lengths and random data; padding boundaries and forced outputs are not covered.",
  ["src/gadgets/sha256.rs"], [("message schedule and compression over word gadgets", "src/gadgets/sha256.rs")],
  ["digest bits"], EXH + "message lengths, bit positions and satisfying assignments", "Reference is an independent SHA-256 in the harness.")

p("G07", "Point gadgets compute and force the group law",
  "In-circuit witnessing, negation, endomorphism, complete and conditional addition, doubling and the incomplete additions on their documented domain compute the group law in every operand representation, and no satisfying assignment gives a different point, an off-curve point or a wrong identity flag.",
  [IN, HI], "all points and pairs of tiny curves, landmark points of both production curves, all histories of complete operations up to a depth, all satisfying assignments with operands fixed",
  "Tests check that one honest assignment is accepted; missing constraints are invisible to them.",
  ["src/gadgets/ecc.rs"], [("curve equation, chord and tangent constraints with identity selection", "src/gadgets/ecc.rs")],
  ["coordinates of the result, and of its sum with a probe"], EXH + "points, histories and satisfying assignments of the emitted constraints", "Complete over the tiny curves; found and fixed four missing constraints.")

p("G08", "Scalar multiplication gadgets compute and force the multiple",
  "In-circuit multiplication by bits, its fast and endomorphism variants and their inverses return the point that native multiplication gives, including for the identity where allowed, and no satisfying assignment yields another point.",
  [IN], "all points times all bit strings of tiny curves within each variant's domain; landmark points and scalars of the production curves; all satisfying assignments with operands fixed",
  "Tests check one honest assignment per variant with one small scalar.",
  ["src/gadgets/ecc.rs", "src/util.rs"], [("bitwise double-and-add; endomorphism walk; inverse by checking", "src/gadgets/ecc.rs: multiply, multiply_fast, multiply_endo, multiply_inv*")],
  ["coordinates of the result"], EXH + "points, scalars and satisfying assignments of the emitted constraints", "Exceptional cases of the incomplete variants are excluded as documented; one finding fixed.")

p("G09", "The shape of a circuit never depends on its witness",
  "Synthesizing the same circuit with any witness, or with none, issues the same sequence of allocations, inputs and constraints; prover, verifier and counters therefore see the same constraint system.",
  [IN, CF], "every gadget over every mix of operand kinds with all witnesses of small fields and curves, degenerate ones included, and without any; the recursion circuit with first, second, later and malformed steps and without any",
  "Tests synthesize with one witness per circuit; a branch on a value that is zero, equal or the identity needs exactly that witness.",
  ["src/gadgets/mod.rs", "src/gadgets/ecc.rs", "src/gadgets/num.rs", "src/recursion.rs", "src/circuits.rs"], [("values are computed in closures separate from structure", "src/gadgets/*.rs, src/recursion.rs")],
  ["the recorded constraint system"], EXH + "witnesses per circuit with comparison of the recorded structure", "Complete for the small fields and curves; landmark witnesses over the production ones. The recursion circuit is compared as a running hash of its operations. Gadgets and the whole circuit are the library's own code.", hook="construction of the private verification circuit and of 32-bit words")

p("S01", "Every backend sees the same constraint system and the polynomial form encodes it",
  "For any circuit program, allocation, input, multiplication and linear constraints are numbered alike by every backend, and the circuit's bivariate constraint polynomial evaluated in either order is the one defined by its linear constraints and gates.",
  [PR], "all circuit programs up to a length over the constraint-system operations, over tiny and production fields, evaluated at all points of a small field",
  "Tests use two hand-written circuits.",
  ["src/synthesis.rs", "src/circuits.rs", "src/proofs.rs"], [("two-per-gate variable packing", "src/synthesis.rs: Basic"), ("constraint polynomial evaluation", "src/proofs.rs: compute_sx, compute_sy")],
  ["compute_sx, compute_sy"], EXH + "all circuit programs up to a length against a direct model of the constraint polynomial", "Complete over programs up to the bound.")

p("S02", "Linear combinations behave as formal sums",
  "Building, adding, subtracting and scaling linear combinations and coefficients evaluates to the same field value as the formal sum, for every history of operations and every coefficient kind.",
  [HI], "all histories of linear-combination operations up to a depth over all coefficient kinds",
  "No test checks linear-combination operators directly.",
  ["src/circuits.rs"], [("operator implementations", "src/circuits.rs")],
  ["evaluation of the combination"], EXH + "operation histories against a formal-sum model", "Complete up to the depth.")

p("S03", "The satisfiability, determinism and counting tools are exact",
  "The development tools report satisfied exactly when every gate, linear and input constraint of the circuit holds, and report counts equal to the operations issued, for every circuit and input.",
  [PR, IN], "all circuit programs up to a length with all assignments over a small field",
  "Tests only ask about satisfied circuits, or one unsatisfied one.",
  ["src/dev.rs"], [("assignment checker and counter backends", "src/dev.rs")],
  ["is_satisfied, constraint counts"], EXH + "circuit programs and assignments against direct evaluation", "Complete up to the program length.")

p("P01", "Honest proofs are accepted",
  "For every satisfiable circuit and input, the proof produced by the honest prover, alone or after any chain of earlier proofs, is accepted by the verifier, and the accumulated deferred checks succeed.",
  [PR, HI, CF], "circuit programs up to a length, sizes, previous-proof chains and both curves",
  "Tests prove two circuits once.",
  ["src/proofs.rs"], [("protocol transcript, openings, inner product argument", "src/proofs.rs")],
  ["verification result, deferred and leftover checks"], EXH + "circuits, inputs and proof chains run through the real prover and verifier", "Completeness is checked per enumerated circuit; the prover is deterministic given the statement.")

p("P02", "Any change to a proof is rejected",
  "Replacing any single component of a valid proof, or swapping two of them, or adding, removing or reordering rounds, makes the final verification verdict negative without crashing.",
  [FA], "every component of the proof times a set of replacement values, all swaps of components of the same kind, all truncations and extensions",
  "Only one valid proof is ever verified in the tests; no modified proof.",
  ["src/proofs.rs"], [("transcript binding and opening checks", "src/proofs.rs: verify_proof, Deferred::verify, Leftovers::verify")],
  ["final verdict"], "exhaustive fault enumeration over the components of real proofs", "Sound up to the enumerated fault set; known findings are listed.", "fault_enumeration")

p("P03", "A proof is bound to its circuit, inputs and parameters",
  "A proof accepted for one circuit, input vector and parameter set is rejected for any other circuit, input vector or parameter set.",
  [FA, PR], "all pairs of circuits in a family of programs, all single changes of inputs, parameters of other sizes",
  "Tests never verify against a different statement.",
  ["src/proofs.rs"], [("constraint polynomial and public input polynomial evaluation", "src/proofs.rs")],
  ["final verdict"], "exhaustive enumeration of statement mismatches over real proofs", "Distinctness of circuits is judged on their constraint polynomial.", "fault_enumeration")

p("P04", "Accumulated checks are equivalent to the checks they replace",
  "The accumulated state carried between proofs verifies exactly when it represents a correct evaluation, for every field of the state; its serialized form determines it, and chains of accumulation detect a fault injected at any link.",
  [FA, HI], "every field of the accumulator times replacement values, faults at each link of a chain",
  "The tests carry one dummy accumulator into one proof.",
  ["src/proofs.rs"], [("leftover and deferred verification", "src/proofs.rs: Leftovers, Deferred")],
  ["verify results, bytes"], "exhaustive fault enumeration over accumulators and chains", "Fault set stated in evidence.", "fault_enumeration")

p("P05", "Commitments are linear and openings evaluate the committed polynomial",
  "Commitment to a polynomial equals the generator-weighted sum of its coefficients, for every length up to the maximum; an opening computed by the prover verifies for exactly the committed polynomial's value.",
  [IN], "all lengths and all coefficient vectors over an alphabet for small parameters",
  "Commitments are only tested inside one proof.",
  ["src/proofs.rs", "src/util.rs"], [("multi-scalar commitment", "src/proofs.rs: Params::commit, compute_opening")],
  ["commitments and openings"], EXH + "polynomials over a coefficient alphabet against direct sums", "Complete for the alphabet and sizes.")

p("P06", "Parameters are distinct curve points whatever the machine",
  "For every size, number of processors, schedule of the worker threads and sequence of answers of the random source that does not repeat a point, generating parameters returns exactly 2^k generators, each a point of the curve other than the identity, different from all others and accompanied by its own affine coordinates, and the derived values (g, d, n, k) of that size.",
  [CF, SC], "all sizes up to a bound, all processor counts, schedules up to a preemption bound, all short sequences of answers of the random source",
  "Tests generate one size once, on one core count, with whatever randomness the machine gave.",
  ["src/proofs.rs"], [("generators drawn by parallel workers over chunks", "src/proofs.rs: Params::new")],
  ["the parameters every commitment is made with"], EXH + "sizes, processor counts, random answers and schedules of the real generator", "Threads interact only through the random source; schedules are explored at its requests.")

p("T01", "Challenges bind every preceding message",
  "Changing any message sent before a challenge changes that challenge and every later one; the same messages always give the same challenges.",
  [FA, HI], "every transcript message times replacement values, all transcript positions",
  "Tests never compare two transcripts.",
  ["src/proofs.rs", "src/rescue.rs"], [("sponge transcript", "src/proofs.rs: append_point, append_scalar, get_challenge")],
  ["challenges recorded in the deferred checks"], "exhaustive fault enumeration over transcript messages", "Known findings: a point and its endomorphism images are absorbed alike when they land on the first position of a sponge block (R01).", "fault_enumeration")

p("V01", "The in-circuit verifier accepts exactly the proofs the native verifier accepts",
  "The recursive verification circuit is satisfied on an honest proof and its accumulated state, with the same challenges and deferred values as the native verifier, and unsatisfied when any component of the proof, the state or the public payload is altered.",
  [FA, CF], "every component of the proof and state times replacement values, pairs of fields exchanged or negated together, and, for a false claim, assignments of the circuit reached by repairing violated constraints",
  "Tests run the circuit once on the honest base case.",
  ["src/recursion.rs"], [("in-circuit transcript and checks", "src/recursion.rs")],
  ["circuit satisfaction and witness values"], "exhaustive fault enumeration over the inputs of the recursive verifier circuit, each followed by a bounded search for another satisfying witness", "Runs the circuit's real synthesis over both curves at k = 4; faults the transcript would mask are isolated by points held as discrete logarithms whose reported coordinates can be overridden.", "fault_enumeration", hook="construction of the private verification circuit on small parameters")

p("V02", "The recursive statement is bound to its payload and history",
  "A recursive proof object is accepted only for the payload it was made for, the base case cannot be claimed by a non-base proof, and the carried accumulators are the ones its verification produced.",
  [FA, HI], "all payloads for a claimed base case, all single alterations of payload, flags, proof and accumulators, forged first steps, chains of two and three steps",
  "Tests create one honest chain and never verify anything that is wrong.",
  ["src/recursion.rs"], [("payload decomposition into inputs; base-case flag", "src/recursion.rs")],
  ["circuit satisfaction; RecursiveProof::verify"], "exhaustive fault enumeration over payload, flags and state: on the recursion circuit at k = 4 and on complete recursive proofs at k = 22, including forged first steps", "Complete recursive proofs of one chain, two steps long (thorough: three), with points held as discrete logarithms; that this model agrees with the real curves is checked on whole proofs.", "fault_enumeration", hook="construction of the private verification circuit, recursive proofs taken apart")

with open(f"{V}/properties.jsonl", "w") as f:
    for q in P:
        a = dict(files=q["files"], mechanism=[dict(name=n, where=w) for n, w in q["mech"]], observe_at=q["observe"], hook_needed=q["hook"])
        if q["state"]: a["state"] = q["state"]
        f.write(json.dumps(dict(id=q["id"], title=q["title"], statement=q["statement"],
            quantifier=dict(over=q["over"], text=q["text"]), why_tests_cant=q["why"], anchors=a)) + "\n")
        assert len(q["title"]) <= 80, q["id"]
NA = {}
checks, na = [], []
for q in P:
    b = q["id"].lower()
    if any(os.path.exists(f"{V}/{c}/src/bin/{b}.rs") for c in ("harness", "hooked")) and q["id"] not in NA:
        checks.append(dict(property=q["id"], quick_cmd=f"./check {q['id']} quick", thorough_cmd=f"./check {q['id']} thorough",
            technique="model checking: " + q["technique"], level=q["level"], level_note=q["note"]))
    else:
        na.append(dict(property=q["id"], reason=NA.get(q["id"], "no check built yet")))
m = dict(version=1, setup_cmd="./setup", checks=checks, not_applicable=na)
hooks = f"{V}/tools/hook_commits.txt"
if os.path.exists(hooks):
    m["hooks"] = dict(guard="halo_mc", enable="RUSTFLAGS=\"--cfg halo_mc\" (set by ./check for the crate hooked/)", source_commits=open(hooks).read().split())
m["notes"] = "Checks build into /verif/target from /repo's working tree. known_findings.txt lists findings and repairs."
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
