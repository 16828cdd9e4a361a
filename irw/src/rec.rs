//! The steps of a recursion chain: /repo/src/recursion.rs compiled against stand-ins for proofs and claims
//! whose verification results are inputs, and which write down what they were asked.
#![allow(dead_code, unused_imports, unused_variables, static_mut_refs)]
use crate::enc::E;
use halo::*;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

fn no<T>() -> T { panic!("not a group operation of the recursion code") }
/// sums of generators: three bits per generator
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct K(u128);
macro_rules! op { ($t:ident, $f:ident, $ta:ident, $fa:ident, $o:ty, $x:ident, $y:ident, $e:expr) => {
    impl $t<$o> for K { type Output = K; fn $f(self, $y: $o) -> K { let $x = self; $e } }
    impl<'a> $t<&'a $o> for K { type Output = K; fn $f(self, $y: &'a $o) -> K { let $x = self; let $y = *$y; $e } }
    impl $ta<$o> for K { fn $fa(&mut self, $y: $o) { let $x = *self; *self = $e; } }
    impl<'a> $ta<&'a $o> for K { fn $fa(&mut self, $y: &'a $o) { let $x = *self; let $y = *$y; *self = $e; } }
} }
op!(Add, add, AddAssign, add_assign, K, x, y, K(x.0.wrapping_add(y.0)));
op!(Sub, sub, SubAssign, sub_assign, K, x, y, K(x.0.wrapping_sub(y.0)));
impl Mul<E> for K { type Output = K; fn mul(self, s: E) -> K { no() } }
impl<'a> Mul<&'a E> for K { type Output = K; fn mul(self, s: &'a E) -> K { no() } }
impl MulAssign<E> for K { fn mul_assign(&mut self, s: E) { no() } }
impl<'a> MulAssign<&'a E> for K { fn mul_assign(&mut self, s: &'a E) { no() } }
impl Neg for K { type Output = K; fn neg(self) -> K { no() } }
impl PartialEq for K { fn eq(&self, o: &K) -> bool { self.0 == o.0 } }
impl Eq for K {}
impl ConditionallySelectable for K { fn conditional_select(a: &K, b: &K, c: Choice) -> K { if c.unwrap_u8() == 1 { *b } else { *a } } }
impl ConstantTimeEq for K { fn ct_eq(&self, o: &K) -> Choice { no() } }
impl Curve for K {
    type Scalar = E;
    type Base = E;
    const BETA_SCALAR: E = E([0; 32]);
    const BETA_BASE: E = E([0; 32]);
    fn zero() -> K { K(0) }
    fn one() -> K { no() }
    fn is_zero(&self) -> Choice { no() }
    fn from_bytes(b: &[u8; 32]) -> CtOption<K> { no() }
    fn to_bytes(&self) -> [u8; 32] { no() }
    fn get_xy(&self) -> CtOption<(E, E)> { no() }
    fn get_xyz(&self) -> (E, E, E) { no() }
    fn from_xy(x: E, y: E) -> CtOption<K> { no() }
    fn from_xy_unchecked(x: E, y: E) -> K { no() }
    fn double(&self) -> K { no() }
    fn b() -> E { no() }
    fn is_on_curve(&self) -> bool { no() }
}

/// verification results and encodings handed in, and everything asked
#[repr(C)]
pub struct Io {
    pub err: [u8; 16],
    pub res: [u8; 16],
    pub enc: [u8; 8],
    pub fork: [u8; 4],
    pub calls: [u64; 512],
    pub n: usize,
    pub inputs: [u8; 256],
    pub nin: usize,
    pub k: u128,
}
static mut IO: *mut Io = std::ptr::null_mut();
fn io() -> &'static mut Io { unsafe { &mut *IO } }
fn log(v: &[u64]) {
    let i = io();
    for x in v { i.calls[i.n] = *x; i.n += 1; }
}
fn answer(j: usize) -> Result<bool, SynthesisError> {
    if io().err[j] != 0 { return Err(SynthesisError::Unsatisfiable); }
    Ok(io().res[j] != 0)
}

#[derive(Clone)]
pub struct Proof<C: Curve> {
    pub r_commitment: C, pub s_cur_commitment: C, pub t_positive_commitment: C, pub t_negative_commitment: C, pub c_commitment: C,
    pub s_new_commitment: C, pub rx_opening: C::Scalar, pub rxy_opening: C::Scalar, pub sx_old_opening: C::Scalar,
    pub sx_cur_opening: C::Scalar, pub tx_positive_opening: C::Scalar, pub tx_negative_opening: C::Scalar, pub sx_new_opening: C::Scalar,
    pub inner_product: Inner<C>,
    pub id: u64,
}
#[derive(Clone)]
pub struct Inner<C: Curve> { pub rounds: Vec<InnerProductRound<C>>, pub a: Vec<C::Scalar>, pub g: C }
#[derive(Clone, Debug)]
pub struct Leftovers<C: Curve> { pub s_new_commitment: C, pub y_new: C::Scalar, pub g_new: C, pub challenges_sq_packed_new: Vec<C::Scalar>, pub id: u64 }
#[derive(Clone, Debug)]
pub struct Deferred<F: Field> {
    pub x: F, pub y_old: F, pub y_cur: F, pub y_new: F, pub ky_opening: F, pub tx_positive_opening: F, pub tx_negative_opening: F,
    pub sx_cur_opening: F, pub rx_opening: F, pub rxy_opening: F, pub challenges_sq_packed_old: Vec<F>, pub gx_old_opening: F,
    pub challenges_sq_packed_new: Vec<F>, pub b_x: F, pub b_xy: F, pub b_y_old: F, pub b_y_cur: F, pub b_y_new: F,
    pub id: u64,
}
fn mkp<C: Curve>(id: u64) -> Proof<C> {
    let (p, z) = (C::zero(), C::Scalar::zero());
    Proof { r_commitment: p, s_cur_commitment: p, t_positive_commitment: p, t_negative_commitment: p, c_commitment: p, s_new_commitment: p,
        rx_opening: z, rxy_opening: z, sx_old_opening: z, sx_cur_opening: z, tx_positive_opening: z, tx_negative_opening: z, sx_new_opening: z,
        inner_product: Inner { rounds: vec![], a: vec![], g: p }, id }
}
fn mkl<C: Curve>(id: u64) -> Leftovers<C> {
    Leftovers { s_new_commitment: C::zero(), y_new: C::Scalar::zero(), g_new: C::zero(), challenges_sq_packed_new: vec![], id }
}
fn mkd<F: Field>(id: u64) -> Deferred<F> {
    let z = F::zero();
    Deferred { x: z, y_old: z, y_cur: z, y_new: z, ky_opening: z, tx_positive_opening: z, tx_negative_opening: z, sx_cur_opening: z, rx_opening: z,
        rxy_opening: z, challenges_sq_packed_old: vec![], gx_old_opening: z, challenges_sq_packed_new: vec![], b_x: z, b_xy: z, b_y_old: z,
        b_y_cur: z, b_y_new: z, id }
}
/// which result a question gets: the expected questions have their own, anything else a result of its own
fn slot(id: u64, k: usize, circ: bool) -> usize {
    match (id, k, circ) {
        (14, 5, true) => 0,     // the proof
        (12, 6, true) => 1,     // oldproof2
        (13, 6, _) => 2,        // the deferred claim carried along
        (22, 5, _) => 3,        // the deferred claim handed on
        (21, 5, true) => 4,     // the leftovers handed on
        (34, 6, true) => 6,     // the old proof (creation)
        (32, 5, true) => 7,
        _ => 5,
    }
}
impl<C: Curve> Proof<C> {
    pub fn new<CS: Circuit<C::Scalar>, S: SynthesisDriver>(params: &Params<C>, circuit: &CS, old_leftovers: &Leftovers<C>) -> Result<(Proof<C>, Leftovers<C>), SynthesisError> {
        log(&[1, params.k as u64, old_leftovers.id]);
        log(&rec::recursion::describe(circuit));
        answer(8)?;
        Ok((mkp(54), mkl(51)))
    }
    pub fn verify<CS: Circuit<C::Scalar>, S: SynthesisDriver>(&self, leftovers: &Leftovers<C>, params: &Params<C>, circuit: &CS, inputs: &[C::Scalar], k: Option<C>)
        -> Result<(bool, Leftovers<C>, Deferred<C::Scalar>, Vec<u8>), SynthesisError> {
        let d = rec::recursion::describe(circuit);
        let ok = d[0] as usize + params.k == 11 && d[1] == 77 && leftovers.id == self.id - 3;
        log(&[2, self.id, params.k as u64, leftovers.id]);
        let i = io();
        i.nin = inputs.len();
        for (j, v) in inputs.iter().enumerate() { i.inputs[j] = v.to_bytes()[0]; }
        i.k = match k { Some(k) => unsafe { *(&k as *const C as *const u128) }, None => 0 };
        let r = answer(slot(self.id, params.k, ok))?;
        Ok((r, mkl(if self.id == 14 { 21 } else { 41 }), mkd(if self.id == 14 { 22 } else { 42 }), io().fork[..3].to_vec()))
    }
}
impl<C: Curve> Leftovers<C> {
    pub fn to_bytes(&self) -> Vec<u8> { vec![io().enc[self.id as usize % 10]] }
    pub fn dummy(params: &Params<C>) -> Leftovers<C> { mkl(200 + params.k as u64) }
    pub fn verify<CS: Circuit<C::Scalar>, S: SynthesisDriver>(&self, params: &Params<C>, circuit: &CS) -> Result<bool, SynthesisError> {
        let d = rec::recursion::describe(circuit);
        log(&[3, self.id, params.k as u64]);
        answer(slot(self.id, params.k, d[0] as usize + params.k == 11 && d[1] == 77))
    }
}
impl<F: Field> Deferred<F> {
    pub fn to_bytes(&self) -> Vec<u8> { vec![io().enc[self.id as usize % 10]] }
    pub fn dummy(k: usize) -> Self { mkd(300 + k as u64) }
    pub fn verify(&self, k: usize) -> bool {
        log(&[4, self.id, k as u64]);
        io().res[slot(self.id, k, true)] != 0
    }
}
pub struct Tag(u64);
impl RecursiveCircuit<E> for Tag {
    fn base_payload(&self) -> Vec<bool> { no() }
    fn synthesize<CS: ConstraintSystem<E>>(&self, _: &mut CS, _: &[AllocatedBit], _: &[AllocatedBit]) -> Result<(), SynthesisError> { no() }
}

pub mod rec {
    macro_rules! sub { ($($m:ident)*) => { $( pub mod $m { pub use halo::*; pub use crate::rec::{Deferred, Leftovers, Proof}; } )* } }
    pub use crate::rec::{Deferred, Leftovers, Proof};
    pub use halo::*;
    sub!(circuits gadgets proofs synthesis fields curves util);
    pub mod recursion {
        #![allow(warnings)]
        include!("/repo/src/recursion.rs");
        use crate::rec::{K, Tag};
        pub(crate) fn describe<CS>(c: &CS) -> [u64; 18] {
            let c = unsafe { &*(c as *const CS as *const VerificationCircuit<'_, K, K, Tag>) };
            let mut o = [0u64; 18];
            o[0] = c.params.k as u64;
            o[1] = c.inner_circuit.0;
            o[2] = match c.base_case { None => 0, Some(false) => 1, Some(true) => 2 };
            o[3] = match c.proof { None => 0, Some(p) => p.proof.id };
            o[4] = c.new_payload.len() as u64;
            for i in 0..c.new_payload.len().min(2) { o[5 + i] = c.new_payload[i] as u64; }
            if let Some(f) = c.forkvalues {
                o[7] = f.len() as u64 + 1;
                for i in 0..f.len().min(6) { o[8 + i] = f[i] as u64; }
            }
            o[14] = match &c.old_leftovers { None => 0, Some(l) => l.id };
            o[15] = match &c.new_leftovers { None => 0, Some(l) => l.id };
            o[16] = match &c.deferred { None => 0, Some(l) => l.id };
            o
        }
        pub(crate) fn mk(proof: Proof<K>, oldproof1: Leftovers<K>, oldproof2: Leftovers<K>, deferred: Deferred<crate::enc::E>, payload: Vec<u8>) -> RecursiveProof<K, K> {
            RecursiveProof { proof, oldproof1, oldproof2, deferred, payload }
        }
        pub(crate) fn parts(p: &RecursiveProof<K, K>) -> [u64; 7] {
            let n = p.payload.len();
            [p.proof.id, p.oldproof1.id, p.oldproof2.id, p.deferred.id, n as u64, if n > 0 { p.payload[0] as u64 } else { 0 }, if n > 1 { p.payload[1] as u64 } else { 0 }]
        }
    }
}
fn params(k: usize, base: u32) -> Params<K> {
    let mut g = vec![];
    for i in 0..36u32 { g.push(K(1u128 << (3 * i + base))); }
    Params { g: K(0), d: 1 << k, n: 1 << k >> 2, k, generators: g, generators_xy: vec![] }
}
fn proof(t: u64, pay: &[u8]) -> rec::recursion::RecursiveProof<K, K> {
    rec::recursion::mk(mkp(t + 4), mkl(t + 1), mkl(t + 2), mkd(t + 3), pay.to_vec())
}
/// o: 0 rejected, 1 accepted, 2 error
#[export_name = "rec_verify"]
pub unsafe extern "C" fn rec_verify(io: *mut Io, pay: u8, o: &mut u8) {
    IO = io;
    let (p1, p2) = (params(5, 0), params(6, 1));
    *o = match proof(10, &[pay]).verify(&p1, &p2, &Tag(77)) { Ok(true) => 1, Ok(false) => 0, Err(_) => 2 };
}
/// o: status (1, or 2 for an error), then the new proof's parts
#[export_name = "rec_create"]
pub unsafe extern "C" fn rec_create(io: *mut Io, old: u8, pay: u8, p0: u8, q1: u8, o: *mut u64) {
    IO = io;
    let (p1, p2) = (params(5, 0), params(6, 1));
    let prev = proof(30, &[pay]);
    match rec::recursion::RecursiveProof::<K, K>::create_proof(&p1, &p2, if old != 0 { Some(&prev) } else { None }, &Tag(77), &[p0, q1]) {
        Ok(p) => {
            *o = 1;
            let v = rec::recursion::parts(&p);
            for i in 0..7 { *o.add(1 + i) = v[i]; }
        }
        Err(_) => *o = 2,
    }
}
