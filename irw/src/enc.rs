//! Field and curve whose elements are opaque bytes, for the claims' encodings.
#![allow(unused_variables)]
use halo::{Curve, Deferred, Field, Leftovers};
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct E(pub [u8; 32]);
#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct P(E, E, u8);
fn no<T>() -> T { panic!("bytes cannot be computed with") }
impl From<bool> for E { fn from(b: bool) -> E { no() } }
macro_rules! op { ($t:ident, $s:ty, $o:ty, $f:ident, $ta:ident, $fa:ident) => {
    impl $t<$o> for $s { type Output = $s; fn $f(self, o: $o) -> $s { no() } }
    impl<'a> $t<&'a $o> for $s { type Output = $s; fn $f(self, o: &'a $o) -> $s { no() } }
    impl $ta<$o> for $s { fn $fa(&mut self, o: $o) { no() } }
    impl<'a> $ta<&'a $o> for $s { fn $fa(&mut self, o: &'a $o) { no() } }
} }
op!(Add, E, E, add, AddAssign, add_assign);
op!(Sub, E, E, sub, SubAssign, sub_assign);
op!(Mul, E, E, mul, MulAssign, mul_assign);
op!(Add, P, P, add, AddAssign, add_assign);
op!(Sub, P, P, sub, SubAssign, sub_assign);
op!(Mul, P, E, mul, MulAssign, mul_assign);
impl Neg for E { type Output = E; fn neg(self) -> E { no() } }
impl Neg for P { type Output = P; fn neg(self) -> P { no() } }
impl PartialEq for E { fn eq(&self, o: &E) -> bool { no() } }
impl Eq for E {}
impl PartialEq for P { fn eq(&self, o: &P) -> bool { no() } }
impl Eq for P {}
impl ConditionallySelectable for E { fn conditional_select(a: &E, b: &E, c: Choice) -> E { if c.unwrap_u8() == 1 { *b } else { *a } } }
impl ConditionallySelectable for P { fn conditional_select(a: &P, b: &P, c: Choice) -> P { if c.unwrap_u8() == 1 { *b } else { *a } } }
impl ConstantTimeEq for E { fn ct_eq(&self, o: &E) -> Choice { no() } }
impl ConstantTimeEq for P { fn ct_eq(&self, o: &P) -> Choice { no() } }
impl Field for E {
    const NUM_BITS: u32 = 255;
    const CAPACITY: u32 = 254;
    const S: u32 = 1;
    const ALPHA: E = E([0; 32]);
    const RESCUE_ALPHA: u64 = 5;
    const RESCUE_INVALPHA: [u64; 4] = [0; 4];
    const BETA: E = E([0; 32]);
    fn is_zero(&self) -> Choice { no() }
    fn from_u64(v: u64) -> E { no() }
    fn from_u128(v: u128) -> E { no() }
    fn sqrt(&self) -> CtOption<E> { no() }
    fn invert(&self) -> CtOption<E> { no() }
    fn zero() -> E { E([0; 32]) }
    fn one() -> E { let mut b = [0; 32]; b[0] = 1; E(b) }
    fn square(&self) -> E { no() }
    fn to_bytes(&self) -> [u8; 32] { self.0 }
    fn from_bytes(b: &[u8; 32]) -> CtOption<E> { CtOption::new(E(*b), Choice::from(1)) }
    fn get_lower_128(&self) -> u128 { no() }
}
impl Curve for P {
    type Scalar = E;
    type Base = E;
    const BETA_SCALAR: E = E([0; 32]);
    const BETA_BASE: E = E([0; 32]);
    fn zero() -> P { P(E([0; 32]), E([0; 32]), 1) }
    fn one() -> P { no() }
    fn is_zero(&self) -> Choice { Choice::from(self.2) }
    fn from_bytes(b: &[u8; 32]) -> CtOption<P> { no() }
    fn to_bytes(&self) -> [u8; 32] { no() }
    fn get_xy(&self) -> CtOption<(E, E)> { CtOption::new((self.0, self.1), Choice::from(1 - self.2)) }
    fn get_xyz(&self) -> (E, E, E) { no() }
    fn from_xy(x: E, y: E) -> CtOption<P> { no() }
    fn from_xy_unchecked(x: E, y: E) -> P { no() }
    fn double(&self) -> P { no() }
    fn b() -> E { no() }
    fn is_on_curve(&self) -> bool { no() }
}
unsafe fn put(v: Vec<u8>, r: *mut u8, n: &mut usize) {
    *n = v.len();
    for i in 0..v.len() { *r.add(i) = v[i]; }
}

/// e: x y_old y_cur y_new ky tp tn sx rx rxy gx b_x b_xy b_y_old b_y_cur b_y_new, old challenges, new challenges
#[export_name = "enc_deferred"]
pub unsafe extern "C" fn enc_deferred(e: *const E, k: usize, r: *mut u8, n: &mut usize) {
    let g = |i: usize| *e.add(i);
    let mut co = vec![];
    let mut cn = vec![];
    for i in 0..k { co.push(g(16 + i)); cn.push(g(16 + k + i)); }
    let d = Deferred::<E> {
        x: g(0), y_old: g(1), y_cur: g(2), y_new: g(3), ky_opening: g(4), tx_positive_opening: g(5), tx_negative_opening: g(6),
        sx_cur_opening: g(7), rx_opening: g(8), rxy_opening: g(9), challenges_sq_packed_old: co, gx_old_opening: g(10),
        challenges_sq_packed_new: cn, b_x: g(11), b_xy: g(12), b_y_old: g(13), b_y_cur: g(14), b_y_new: g(15),
    };
    put(d.to_bytes(), r, n);
}

/// e: s.x s.y g.x g.y y, challenges; i: which points are the identity
#[export_name = "enc_leftovers"]
pub unsafe extern "C" fn enc_leftovers(e: *const E, k: usize, i: *const u8, r: *mut u8, n: &mut usize) {
    let g = |i: usize| *e.add(i);
    let mut c = vec![];
    for i in 0..k { c.push(g(5 + i)); }
    let l = Leftovers::<P> { s_new_commitment: P(g(0), g(1), *i), y_new: g(4), g_new: P(g(2), g(3), *i.add(1)), challenges_sq_packed_new: c };
    put(l.to_bytes(), r, n);
}
