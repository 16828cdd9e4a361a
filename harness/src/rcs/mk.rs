// appended to a second copy of /repo/src/recursion.rs: access to its private items
pub fn mk_proof<E1: Curve, E2: Curve>(
    proof: Proof<E1>,
    oldproof1: Leftovers<E1>,
    oldproof2: Leftovers<E2>,
    deferred: Deferred<E2::Scalar>,
    payload: Vec<u8>,
) -> RecursiveProof<E1, E2> {
    RecursiveProof { proof, oldproof1, oldproof2, deferred, payload }
}
pub(crate) fn mk_circuit<'a, E1: Curve, E2: Curve<Base = E1::Scalar>, I: RecursiveCircuit<E1::Scalar>>(
    params: &'a Params<E2>,
    base_case: Option<bool>,
    inner_circuit: &'a I,
    proof: Option<&'a RecursiveProof<E2, E1>>,
    new_payload: &'a [u8],
    forkvalues: Option<&'a [u8]>,
    old_leftovers: Option<Leftovers<E1>>,
    new_leftovers: Option<Leftovers<E2>>,
    deferred: Option<Deferred<E2::Scalar>>,
) -> VerificationCircuit<'a, E1, E2, I> {
    VerificationCircuit {
        _marker: PhantomData,
        params,
        base_case,
        inner_circuit,
        proof,
        new_payload,
        forkvalues,
        old_leftovers,
        new_leftovers,
        deferred,
    }
}
