HOOKS = []
B = 'bounded: '
CLAIMS = {
    'C20': (FFQ, 'other', 'Decided for every field assignment (no loop bound: the gadgets are loop-free) and every operand-kind combination; honest witnesses over all bit inputs.'),
    'C21': (FFQ, 'other', 'Decided for every field assignment and every honest input along every explored path; paths are closed under the solver.'),
    'C26': (FFQ, 'other', 'Decided for every field assignment, every point and flag, every operand kind; honest paths closed under the solver.'),
}
TODO = 'not yet covered by a check in this version of the framework'
NA = {k: TODO for k in (f'C{i:02}' for i in range(1, 37))}
FN = 'symbolic execution of the real generic code over a symbolic field/group + finite-field solver per obligation'
CLAIMS.update({
    'C11': (FN, 'other', 'All coefficient values; bounded in length and CPU count (listed in the evidence).'),
    'C12': (FN, 'other', 'All values, challenges and generators; bounded in vector length.'),
    'C14': (FN, 'other', 'All absorbed values; bounded in the number of absorbs and squeezes.'),
    'C15': (FN, 'other', 'All values; a family of request sequences up to a bound.'),
    'C16': (FN, 'other', 'All witness and input values; a family of circuits.'),
    'C17': (FN, 'other', 'All coefficient and variable values; every operand-kind combination.'),
    'C18': (FN, 'other', 'All x, y and coefficient values; a family of circuits.'),
})

IR = 'symbolic execution of the compiled LLVM IR of the real functions; '
CLAIMS.update({
    'C01': (IR + '64-bit word polynomials over bit/limb atoms with linear-integer (z3) and finite-field obligations', 'other', 'All limb values below the modulus; the loops are fully unrolled, no bound.'),
    'C02': (IR + '64-bit word polynomials over bit/limb atoms with linear-integer (z3) obligations', 'other', 'All byte strings, integers and bit strings of the fixed widths.'),
    'C06': (IR + 'field elements as polynomials, every obligation decided by the finite-field solver', 'other', 'All representatives of all points, every branch combination.'),
    'C07': (IR + 'field elements as polynomials, every obligation decided by the finite-field solver', 'other', 'All representatives of all pairs of points.'),
    'C08': (IR + 'field elements as polynomials, every obligation decided by the finite-field solver', 'other', 'All representatives and all 32-byte strings; square root and byte conversion by contract (C02, C04).'),
    'C09': (IR + 'group elements as formal combinations over scalar bits, linear-integer (z3) and finite-field obligations', 'other', 'All 255-bit scalars and all bases; point addition by contract (C06).'),
})
CLAIMS.update({
    'C03': (IR + 'values as powers of the input with symbolic exponents, linear-integer (z3) obligations; batch inversion by symbolic field + finite-field solver', 'other',
            'pow/invert: every element and 256-bit exponent. Batch inversion: bounded slice length.'),
    'C04': (IR + 'values in the 2-Sylow coset decomposition with a symbolic 32-bit discrete logarithm; z3 bit-vector obligations with a loop cut', 'other',
            'Every element; the loop invariant is established and preserved by solver queries.'),
    'C05': ('constants of the built crate against number-theoretic statements decided by z3 and the finite-field solver', 'other', 'Exact constants of the build.'),
    'C10': (IR + 'group elements as formal combinations over symbolic coefficient bits; linear-integer (z3) obligations', 'other',
            'Every coefficient value; bounded numbers of bases and CPUs.'),
    'C13': (IR + 'field values as canonical decision diagrams over the challenge bits; z3 lemmas for injectivity', 'other', 'Every 128-bit challenge.'),
})
BIT = 'symbolic constraint systems recorded from the real gadgets; bits decided by congruence with obligations in linear integer arithmetic (z3) and GF(2)/finite-field algebra; honest witnesses by symbolic execution of the compiled LLVM IR'
CLAIMS.update({
    'C22': (BIT, 'other', 'Every element; every field assignment of the witnesses (soundness), every 256-bit representation (completeness).'),
    'C23': (BIT, 'other', 'Every input bit; the operand shapes, shifts and message lengths listed in the evidence.'),
    'C24': (BIT, 'other', 'Every 64-bit operand; the operand shapes listed in the evidence.'),
})
CLAIMS.update({
    'C25': ('symbolic constraint system recorded from the real gadget, solved forward (fifth powers and roots) and compared with symbolic execution of the native sponge; finite-field solver for each obligation', 'other',
            'Every absorbed value and every assignment; a family of absorb/squeeze sequences up to three permutations.'),
    'C28': ('circuit requests recorded under symbolic execution (finite-field terms or compiled LLVM IR of the gadgets), compared on every path with the run without a witness; paths closed by the finite-field solver / z3', 'other',
            'Every witness value of the gadget operand kinds; bounded scalar lengths.'),
})
CLAIMS.update({
    'C27': (FFQ + '; long multiplications cut into steps at discovered wires, each step decided for every incoming point; domain of the incomplete additions by z3', 'other',
            'Every assignment of the witnesses; scalar lengths listed in the evidence (up to 254-256 bits).'),
})

PRF = ('symbolic execution of the real proof code (field elements and group scalars as terms, ideal sponge); decisions, equations and outputs '
       'compared as Laurent polynomials and by the finite-field solver; native replays on honest and faulted proofs')
CLAIMS.update({
    'C30': (PRF, 'other', 'All coefficients, points, proof elements and challenges; bounded number of rounds and polynomials.'),
    'C31': (PRF, 'other', 'All witnesses, challenges and previous claims; a family of circuits up to the size limits of k = 4, 5 (thorough 6).'),
    'C32': (PRF, 'other', 'All proof contents; k = 4, 5 (thorough 6).'),
    'C33': (PRF, 'other', 'All proof elements, inputs, claims and challenges, all outcomes of the comparisons; k = 4, 5 (thorough 6).'),
    'C34': (PRF, 'other', 'Real recursion.rs against gadget contracts, all variables of the circuit; k = 2, 3 (thorough up to 6); encodings over symbolic bytes by LLVM IR, k up to 14.'),
    'C35': (PRF, 'other', 'Real recursion.rs against gadget contracts, all variables of the circuit; k = 2, 3 (thorough up to 6); previous proofs with known discrete logarithms on the real gadgets for replay.'),
    'C36': (IR, 'other', 'All outcomes and errors of the component verifications, all public input bits of 1 payload byte and 1 byte per claim encoding; no loop left unexplored.'),
})
