#!/usr/bin/env python3
"""Writes properties.jsonl (kept in step with MANIFEST.json by hand)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


F = ['src/fields/mod.rs', 'src/fields/fp.rs', 'src/fields/fq.rs']
FF = [('Fp/Fq Montgomery arithmetic', 'src/fields/fp.rs, src/fields/fq.rs')]
p('C01', 'Field arithmetic is exact and canonical',
  'For each of the two fields, addition, subtraction, negation, doubling, multiplication and squaring of any two elements give the element that represents the mathematical result modulo the field prime, '
  'with a unique internal representation so that equality and hashing of results agree with mathematical equality.',
  ['inputs'], 'all pairs of elements (2^510 pairs per field)',
  'Unit tests check a handful of fixed values; a dropped carry or a missing final subtraction shows up on a vanishing fraction of inputs.', F, FF)
p('C02', 'Field encodings and integer conversions are exact',
  'Encoding an element gives its canonical 32-byte little-endian integer, and decoding accepts exactly the encodings of integers below the prime and returns that element, rejecting everything else. '
  'Conversions from u64, u128, 64 uniform bytes and raw limbs, and conversions to 128 bits, give the integer value reduced modulo the prime (respectively its low 128 bits).',
  ['inputs'], 'all 2^256 byte strings, all elements, all integers and all 512-bit strings',
  'Tests try one or two encodings; boundary values around the prime and non-canonical encodings are not sampled.', F,
  [('from_bytes/to_bytes/from_bytes_wide/from_raw/from_u64/get_lower_128', 'src/fields/fp.rs, src/fields/fq.rs')])
p('C03', 'Inversion, exponentiation and batch inversion are correct',
  'invert returns the multiplicative inverse of every nonzero element and none for zero; pow returns the exact power for every element and every 256-bit exponent; '
  'batch inversion replaces every nonzero entry of a slice by its inverse, leaves zeros in place and returns the inverse of the product, whatever positions hold zero.',
  ['inputs'], 'all elements, exponents, and zero patterns of slices',
  'Tests invert a few values; addition-chain slips and zero handling in the batch depend on exponents and positions never sampled.', F,
  [('pow, pow_vartime, invert, batch_invert', 'src/fields/mod.rs, src/fields/fp.rs, src/fields/fq.rs')])
p('C04', 'Square roots exist exactly for squares',
  'For every element, the square-root operation returns a value whose square is that element when the element is a square (including zero), and none otherwise.',
  ['inputs'], 'all elements, in particular every 2-power-order component',
  'Tests take the root of one square; Tonelli-Shanks has one path per element of the 2-Sylow subgroup.', F, [('sqrt', 'src/fields/fp.rs, src/fields/fq.rs')])
p('C05', 'Published field and curve constants are what they claim',
  'The declared constants are correct: the multiplicative generator, the 2-adicity and root of unity of exactly that order, the coset constant ALPHA and its inverse, the cube root of unity BETA, '
  'the exponent constants used for root extraction, and the generator points which lie on their curves.',
  ['configurations'], 'the constants of both fields and both curves', 'Constants are used only by code that is tested against itself.',
  F + ['src/curves/ec0.rs', 'src/curves/ec1.rs'], [('associated constants', 'src/fields/fp.rs, src/fields/fq.rs, src/curves')])
CV = ['src/curves/mod.rs', 'src/curves/ec0.rs', 'src/curves/ec1.rs']
p('C06', 'Curve group law is complete and correct',
  'For both curves, adding, subtracting, doubling and negating any points - including the identity, equal points and opposite points, in every projective representation - gives the group-law result, which is again on the curve.',
  ['inputs'], 'all pairs of points and all projective representations of each', 'Tests add fixed points; special positions and non-trivial representations of the identity are hardly sampled.',
  CV, [('Add/Sub/Neg/double', 'src/curves/ec0.rs, src/curves/ec1.rs')])
p('C07', 'Point equality is mathematical equality',
  'Two points compare equal exactly when they are the same group element, for every projective representation, including when one or both are the identity; zero tests and conditional selection agree with this.',
  ['inputs'], 'all pairs of points and representations', 'The existing tests compare points that are equal; the wrong answer needs the identity on one side.',
  CV, [('ct_eq, is_zero, conditional_select', 'src/curves/ec0.rs, src/curves/ec1.rs')])
p('C08', 'Point encoding round-trips and validates',
  'Encoding then decoding any point returns that point; decoding accepts exactly the canonical encodings, rejecting every other 32-byte string, so no point has two encodings. '
  'get_xy returns the affine coordinates (none for the identity) and from_xy accepts exactly pairs on the curve (and (0,0) as the identity).',
  ['inputs'], 'all points and all 2^256 byte strings', 'Tests decode encodings they produced; malformed and boundary strings are not sampled.',
  CV, [('from_bytes, to_bytes, get_xy, from_xy', 'src/curves/ec0.rs, src/curves/ec1.rs')])
p('C09', 'Scalar multiplication and the endomorphism are correct',
  'Multiplying any point by any scalar gives the scalar multiple for every scalar value, and multiplying the x coordinate by the base-field cube root of unity equals multiplying the point by the scalar-field cube root of unity.',
  ['inputs'], 'all scalars and points', 'Tests use a few scalars.', CV, [('Mul<Scalar> for points', 'src/curves/ec0.rs, src/curves/ec1.rs')])
U = ['src/util.rs']
p('C10', 'Multi-exponentiation equals the sum of scalar multiples',
  'Multiexp of any coefficients with as many bases returns the sum of coefficient times base, whatever the lengths, the number of CPUs and the window size chosen.',
  ['inputs', 'configurations', 'schedules'], 'all coefficient values for stated lengths, CPU counts and window widths',
  'Tests use one random vector per run on one machine configuration.', U, [('multiexp, multiexp_serial', 'src/util.rs')])
p('C11', 'FFTs evaluate and polynomial products are exact',
  'The FFT of any vector of power-of-two length is the vector of evaluations at the powers of the root of unity, identically for serial and parallel variants and every thread count, and multiplying two polynomials gives the exact product coefficients.',
  ['inputs', 'configurations', 'schedules'], 'all coefficient vectors up to a stated length, all thread counts up to a bound',
  'Tests multiply one random pair; index-permutation slips appear for particular lengths or CPU counts.', U,
  [('best_fft, serial_fft, parallel_fft, multiply_polynomials', 'src/util.rs')])
p('C12', 'Inner-product folding helpers agree with their definitions',
  'The helpers used by the opening argument - inner products, generator folding, the folded b value and the folded-generator coefficients - equal their defining formulas for every challenge, point and vector, '
  'and folding vectors, generators and commitments round by round preserves the opened value.',
  ['inputs', 'configurations'], 'all challenges, points and vector entries for a bounded number of rounds, all CPU counts',
  'Tests check one random instance of each.', U, [('compute_inner_product, parallel_generator_collapse, compute_b, compute_g_coeffs_for_inner_product, compute_g_for_inner_product', 'src/util.rs')])
p('C13', 'Challenge scalars are decoded injectively and consistently',
  'A 128-bit challenge maps to the scalar given by the signed-digit/endomorphism rule that the endomorphism multiplication in the circuit uses (start at 3; for each bit pair 1..63: double, subtract 1 if the even bit is set and add 1 otherwise, multiply by the endomorphism constant if the odd bit is set). Only bits 2..127 of the challenge element matter, the scalar is never zero, and challenges that differ in those bits give distinct scalars.',
  ['inputs'], 'all 2^128 challenges', 'No test pins the map; a wrong digit shows only for some bit patterns.', U + ['src/gadgets/ecc.rs'], [('get_challenge_scalar', 'src/util.rs')])
p('C14', 'The Rescue sponge absorbs and squeezes everything it is given',
  'Squeezed values are the documented function (sponge over the Rescue permutation with its S-boxes, matrix and round constants) of the exact absorbed sequence; every absorbed element influences the squeezed output; '
  'misuse (absorbing after squeezing) follows the documented mode switch.',
  ['inputs', 'histories'], 'all absorb/squeeze sequences up to a stated length and all element values', 'Tests absorb a couple of constants.',
  ['src/rescue.rs'], [('Rescue::absorb/squeeze, permutation, mds', 'src/rescue.rs')])
p('C15', 'Synthesis delivers to the backend exactly what the circuit asked for',
  'For every sequence of allocation, multiplication, input and linear-constraint requests, the backend receives exactly the corresponding gates, assignments, linear terms and public-input slots: '
  'allocated variables stay distinct, witness values land on their variables, no constraint or term is lost, merged or duplicated.',
  ['programs', 'inputs'], 'all request sequences up to a stated length with arbitrary values', 'Tests only observe whole-circuit satisfaction of fixed circuits.',
  ['src/synthesis.rs', 'src/circuits.rs'], [('Basic::synthesize', 'src/synthesis.rs')])
p('C16', 'The satisfaction checker accepts exactly satisfied circuits',
  'The development-mode checker reports success exactly when the honest assignment of the circuit satisfies every multiplication gate and every linear constraint with the given public inputs, for every circuit and inputs, '
  'and otherwise reports a violated constraint.',
  ['programs', 'inputs'], 'all constraint systems over a stated number of gates, all assignments and public inputs', 'Tests use satisfiable circuits; false acceptance is what would go unnoticed.',
  ['src/dev.rs'], [('is_satisfied', 'src/dev.rs')])
p('C17', 'Linear combinations form exact linear algebra',
  'Building, adding, subtracting, negating and scaling linear combinations and coefficients, and evaluating them, is exactly the arithmetic of the formal linear expressions they denote, for every coefficient kind and value.',
  ['inputs', 'programs'], 'all coefficient kinds and values for every operator', 'Operators with mixed coefficient kinds are mostly unexercised.',
  ['src/circuits.rs', 'src/gadgets/num.rs'], [('Coeff, LinearCombination, Combination', 'src/circuits.rs, src/gadgets/num.rs')])
p('C18', 'The circuit polynomial s(X,Y) and k(Y) encode the constraint system',
  'For every circuit, evaluating the circuit polynomial as s(x,Y) at fixed x or s(X,y) at fixed y gives the same bivariate polynomial, equal to the definition from gates and linear constraints, and k(Y) is the public-input polynomial.',
  ['programs', 'inputs'], 'all constraint systems with a stated number of gates and constraints, all x and y', 'Tests compare nothing here except through whole proofs of fixed circuits.',
  ['src/circuits.rs', 'src/proofs.rs'], [('SxEval/SyEval collectors', 'src/proofs.rs')])
G = 'src/gadgets/'
p('C20', 'Boolean gadgets compute their logic and nothing else',
  'Every assignment satisfying the constraints of the boolean gadgets (allocation, and, and-not, nor, xor, equality, majority, choice, negation, constants, linear views) makes wires 0 or 1 and makes the result the logical function of the inputs; honest witnesses always satisfy.',
  ['inputs', 'programs'], 'all field assignments (malicious witnesses included), all combinations of constant/variable/negated operands',
  'Tests evaluate honest witnesses; soundness quantifies over every dishonest assignment.', [G + 'boolean.rs'], [('AllocatedBit, Boolean', G + 'boolean.rs')])
p('C21', 'Number gadgets constrain exactly their arithmetic',
  'Allocated numbers, products, squares, inverses, square roots, fifth powers and fifth roots, and linear-combination numbers are constrained so that every satisfying assignment has the stated arithmetic relation, and every honest input satisfies.',
  ['inputs', 'programs'], 'all field assignments including malicious ones; constant and variable operands', 'Tests run honest witnesses only.',
  [G + 'num.rs'], [('AllocatedNum, Num, Combination', G + 'num.rs')])
p('C22', 'Bit decomposition of a number is faithful',
  'Decomposing a field element into 256 bits constrains the bits to be boolean and to sum, weighted by powers of two, to the element, little-endian first; honest witnesses give the canonical bits.',
  ['inputs'], 'all field elements and all (malicious) bit assignments', 'Tests unpack an honest value.', [G + 'mod.rs', G + 'num.rs', G + 'boolean.rs'], [('unpack_fe', G + 'mod.rs')])
p('C23', '32-bit word and SHA-256 gadgets match the standard',
  'For every input, the word gadgets (and their rotations, shifts, xor, choice, majority, modular addition, endian conversions) and the SHA-256 gadget are constrained so every satisfying assignment carries the standard result bits, and the honest witnesses of the word gadgets satisfy them.',
  ['inputs', 'programs'], 'all 32-bit words; every message block; malicious carries', 'Test vectors cover a few messages with honest witnesses.',
  [G + 'uint32.rs', G + 'sha256.rs'], [('UInt32, sha256', G + 'uint32.rs, ' + G + 'sha256.rs')])
p('C24', '64-bit multiply-accumulate gadget is exact',
  'The 64-bit word gadget decomposes its words faithfully and its multiply-accumulate produces low and high words with lo + 2^64*hi = a*b + c + d, for every satisfying assignment and every honest input.',
  ['inputs'], 'all 64-bit operands and malicious assignments', 'Tests use a few operands.', [G + 'uint64.rs'], [('UInt64', G + 'uint64.rs')])
p('C25', 'The in-circuit Rescue sponge equals the native one',
  'For every absorb/squeeze sequence and all values, the circuit sponge forces its outputs to the native sponge outputs on the same inputs, and honest witnesses satisfy it.',
  ['inputs', 'histories', 'programs'], 'all values, sequences up to a stated length, malicious intermediate values', 'Tests compare one honest run.',
  [G + 'rescue.rs', 'src/rescue.rs'], [('RescueGadget', G + 'rescue.rs')])
p('C26', 'Curve-point gadgets compute the group operation',
  'Point witnessing, conditional negation and endomorphism, complete and conditional addition, doubling, and the incomplete additions (in their documented domains) force the output to be the group-law result with the identity flagged and represented as (0,0), for every satisfying assignment; honest witnesses satisfy.',
  ['inputs', 'programs'], 'all points, flags and malicious assignments, all constant/variable operand kinds', 'Tests run honest witnesses with fixed points; a missing constraint changes nothing they can see.',
  [G + 'ecc.rs'], [('CurvePoint', G + 'ecc.rs')], hook_needed='CurvePoint parts (cfg halo_verif)')
p('C27', 'Curve multiplication gadgets compute the scalar multiple',
  'The in-circuit multiplications (plain, fast, endomorphism-scalar and inverse variants) force the result to be the multiple (respectively inverse multiple) of the base by the scalar denoted by the bits, least significant first, for non-identity bases; honest witnesses satisfy.',
  ['inputs', 'programs'], 'all base points for bounded bit lengths and all bit patterns, malicious assignments', 'Tests run honest witnesses for a few scalars.',
  [G + 'ecc.rs'], [('CurvePoint::multiply*', G + 'ecc.rs')], hook_needed='CurvePoint parts (cfg halo_verif)')
p('C28', 'Circuit shape does not depend on the witness',
  'For every gadget, the gates, linear constraints and public-input slots synthesised without any witness are identical to those synthesised with one, whatever the witness values are, so prover and verifier agree on the circuit.',
  ['programs', 'inputs'], 'all witness values of every gadget and every control-flow path', 'A divergence needs special witness values (zero, identity, equal points).',
  [G + 'mod.rs', 'src/synthesis.rs'], [('gadget synthesis', 'src/gadgets')])
PR = ['src/proofs.rs']
p('C30', 'Opening proofs of committed polynomials verify exactly when true',
  'An honest opening of committed polynomials at a point verifies, and the verification equation accepts a proof only if it satisfies the inner-product relation for the claimed values and commitments, for every polynomial, point and challenge.',
  ['inputs'], 'all coefficient values, points, challenges and proof elements, for bounded sizes', 'Tests verify honest proofs of one random instance.',
  PR, [('PolynomialOpening', 'src/proofs.rs')])
p('C31', 'Honest proofs verify',
  'For every circuit that fits the parameters (fewer than d/4 gates, fewer than d linear constraints), satisfying witness and valid previous claim, the proof the prover creates is accepted by the verifier, both hand on the same accumulated claim, and the deferred and accumulated claims check out.',
  ['programs', 'inputs'], 'all witness values and challenges for bounded circuits', 'Tests prove two or three fixed circuits.', PR, [('RecursiveProof/Proof creation and verification', 'src/proofs.rs, src/recursion.rs')])
p('C32', 'Transcript challenges bind every message',
  'For every proof, prover and native verifier derive identical challenges, and each challenge (y, x, y_new, z and every round challenge) is derived from every commitment, opened value and round message sent before it, including the public-input commitment and its opening.',
  ['inputs', 'histories'], 'all proof contents', 'Tests only see that honest runs agree; a forgotten absorb still verifies.', PR, [('Transcript use', 'src/proofs.rs')])
p('C33', 'The verifier checks every part of a proof',
  'The verifier accepts a proof exactly when every documented verification equation holds for the proof elements, public inputs and previous claim it was given, so no changed element goes unnoticed; it hands on exactly the documented deferred and accumulated claims, and checking those claims is exactly their documented equations.',
  ['inputs'], 'all values of each proof element', 'Tests never present an altered proof.', PR, [('verify_proof', 'src/proofs.rs')])
p('C34', 'Accumulated claims serialise faithfully and deferred claims are checked in full',
  'The byte encodings of deferred and leftover claims are the documented fixed layout (full elements 32 bytes, 128-bit challenges 16 bytes), so distinct claims never encode alike. Outside the base case the verification circuit is satisfied only if the deferred claim handed in by the previous proof meets exactly the equations that native verification of a deferred claim checks (the circuit equation and all six folded-polynomial openings), and every claim meeting them is accepted.',
  ['inputs'], 'all claim values, all witnesses', 'Tests exercise one honest chain.', ['src/proofs.rs', 'src/recursion.rs'], [('Leftovers::to_bytes, Deferred::to_bytes', 'src/proofs.rs'), ('verify_deferred, compute_b', 'src/recursion.rs')])
p('C35', 'The recursion circuit enforces verification of the previous proof',
  'Outside the base case the verification circuit is satisfied exactly when the previous proof it is given passes every verification equation under transcript-derived challenges for its own public inputs, the new leftovers and deferred claim are the ones that verification hands on, and the previous proof committed to the old leftovers this proof continues from. In the base case the old payload must be the base payload, and the inner circuit always gets the old and the new payload.',
  ['inputs', 'histories'], 'all previous proofs and malicious witnesses', 'Tests run one honest chain.', ['src/recursion.rs'], [('VerificationCircuit', 'src/recursion.rs')])
p('C36', 'A recursion step is accepted only as a whole',
  'Verifying a recursive proof accepts exactly when its proof verifies against the public inputs made of its own payload, both leftovers and deferred claim, and every claim it carries and every claim that verification hands on checks out; an error in any of these is reported as an error. Creating the next step gives the prover exactly the old proof, the claims verification of it hands on and the fork values, stores those claims in the new proof, and takes the base case exactly when there is no old proof.',
  ['inputs', 'histories'], 'all outcomes of the component verifications, all public input bits', 'Tests run a two-step honest chain.', ['src/recursion.rs'], [('RecursiveProof::create_proof, verify_inner, verify', 'src/recursion.rs')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
