//! Word gadgets driven by a constraint system that evaluates what the honest prover assigns.
//! The field is replaced by integers (the gadgets are generic): every quantity stays below 2^128,
//! so a constraint that holds over the integers holds in every field large enough.
use halo::{AllocatedBit, AllocatedNum, Boolean, ConstraintSystem, Field, LinearCombination, Num, SynthesisError, UInt32, UInt64, Variable};
use halo::unpack_fe;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, Copy, Debug, Default)]
#[repr(C)]
pub struct Z {
    lo: u128,
    hi: u128,
    pad: u128,
}
fn z(lo: u128) -> Z { Z { lo, hi: 0, pad: 0 } }
impl From<bool> for Z { fn from(b: bool) -> Z { z(b as u128) } }
macro_rules! op { ($t:ident, $f:ident, $ta:ident, $fa:ident, $m:ident) => {
    impl $t for Z { type Output = Z; fn $f(self, o: Z) -> Z { z(self.lo.$m(o.lo)) } }
    impl<'a> $t<&'a Z> for Z { type Output = Z; fn $f(self, o: &'a Z) -> Z { z(self.lo.$m(o.lo)) } }
    impl $ta for Z { fn $fa(&mut self, o: Z) { *self = z(self.lo.$m(o.lo)) } }
    impl<'a> $ta<&'a Z> for Z { fn $fa(&mut self, o: &'a Z) { *self = z(self.lo.$m(o.lo)) } }
} }
op!(Add, add, AddAssign, add_assign, wrapping_add);
op!(Sub, sub, SubAssign, sub_assign, wrapping_sub);
op!(Mul, mul, MulAssign, mul_assign, wrapping_mul);
impl Neg for Z { type Output = Z; fn neg(self) -> Z { z(0u128.wrapping_sub(self.lo)) } }
impl PartialEq for Z { fn eq(&self, o: &Z) -> bool { self.lo == o.lo && self.hi == o.hi } }
impl Eq for Z {}
impl ConditionallySelectable for Z {
    fn conditional_select(a: &Z, b: &Z, c: Choice) -> Z { if c.unwrap_u8() == 1 { *b } else { *a } }
}
impl ConstantTimeEq for Z { fn ct_eq(&self, o: &Z) -> Choice { Choice::from((self == o) as u8) } }
impl Field for Z {
    const NUM_BITS: u32 = 255;
    const CAPACITY: u32 = 254;
    const S: u32 = 1;
    const ALPHA: Z = Z { lo: 0, hi: 0, pad: 0 };
    const RESCUE_ALPHA: u64 = 5;
    const RESCUE_INVALPHA: [u64; 4] = [0; 4];
    const BETA: Z = Z { lo: 0, hi: 0, pad: 0 };
    fn is_zero(&self) -> Choice { Choice::from((self.lo == 0 && self.hi == 0) as u8) }
    fn from_u64(v: u64) -> Z { z(v as u128) }
    fn from_u128(v: u128) -> Z { z(v) }
    fn sqrt(&self) -> CtOption<Z> { panic!("not an integer operation") }
    fn invert(&self) -> CtOption<Z> { panic!("not an integer operation") }
    fn zero() -> Z { z(0) }
    fn one() -> Z { z(1) }
    fn square(&self) -> Z { *self * *self }
    fn to_bytes(&self) -> [u8; 32] {
        let mut o = [0u8; 32];
        o[..16].copy_from_slice(&self.lo.to_le_bytes());
        o[16..].copy_from_slice(&self.hi.to_le_bytes());
        o
    }
    fn from_bytes(b: &[u8; 32]) -> CtOption<Z> {
        let mut v = 0u128;
        for i in (0..16).rev() {
            v = (v << 8) | b[i] as u128;
        }
        CtOption::new(z(v), Choice::from(1))
    }
    fn get_lower_128(&self) -> u128 { self.lo }
}

/// Records every constraint's value under the honest assignment.
pub struct Probe {
    a: Vec<Z>,
    b: Vec<Z>,
    c: Vec<Z>,
    res: *mut u128,
    n: usize,
    eval: bool,
    /// what was synthesised: markers, variables and coefficients
    sh: *mut u128,
    sn: usize,
    nowit: bool,
}
impl Probe {
    fn new(res: *mut u128, eval: bool, sh: *mut u128, nowit: bool) -> Probe { Probe { a: vec![z(1)], b: vec![z(0)], c: vec![z(0)], res, n: 0, eval: eval && !nowit, sh, sn: 0, nowit } }
    fn mark(&mut self, v: u128) {
        unsafe { *self.sh.add(self.sn) = v; }
        self.sn += 1;
    }
    fn some<T>(&self, v: T) -> Option<T> { if self.nowit { None } else { Some(v) } }
    fn rec(&mut self, v: Z) {
        unsafe { *self.res.add(self.n) = v.lo; }
        self.n += 1;
    }
}
impl ConstraintSystem<Z> for Probe {
    type Root = Probe;
    const ONE: Variable = Variable::A(1);
    fn alloc<F, A, AR>(&mut self, _: A, value: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<Z, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let v = if self.nowit { z(0) } else { value()? };
        self.mark(1 << 100);
        self.a.push(v);
        self.b.push(z(0));
        self.c.push(z(0));
        Ok(Variable::A(self.a.len()))
    }
    fn alloc_input<F, A, AR>(&mut self, n: A, value: F) -> Result<Variable, SynthesisError>
    where F: FnOnce() -> Result<Z, SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        self.alloc(n, value)
    }
    fn enforce_zero(&mut self, lc: LinearCombination<Z>) {
        self.mark(2 << 100);
        for &(var, ref coeff) in lc.as_ref() {
            let mut one = z(1);
            coeff.multiply(&mut one);
            self.mark(match var { Variable::A(i) => i, Variable::B(i) => 1000000 + i, Variable::C(i) => 2000000 + i } as u128);
            self.mark(one.lo);
        }
        if self.eval {
            let v = lc.evaluate(&self.a, &self.b, &self.c);
            self.rec(v);
        }
    }
    fn multiply<F, A, AR>(&mut self, _: A, values: F) -> Result<(Variable, Variable, Variable), SynthesisError>
    where F: FnOnce() -> Result<(Z, Z, Z), SynthesisError>, A: FnOnce() -> AR, AR: Into<String> {
        let (a, b, c) = if self.nowit { (z(0), z(0), z(0)) } else { values()? };
        self.mark(3 << 100);
        self.a.push(a);
        self.b.push(b);
        self.c.push(c);
        self.rec(a * b - c);
        let i = self.a.len();
        Ok((Variable::A(i), Variable::B(i), Variable::C(i)))
    }
    fn push_namespace<NR, N>(&mut self, _: N) where NR: Into<String>, N: FnOnce() -> NR {}
    fn pop_namespace(&mut self, _: Option<String>) {}
    fn get_root(&mut self) -> &mut Self { self }
}

unsafe fn flags(b: &[Boolean], o: *mut u8) {
    for (i, x) in b.iter().enumerate() {
        *o.add(i) = match x.get_value() { Some(true) => 1, Some(false) => 0, None => 2 };
    }
}

/// kind: 0 allocated, 1 constant, 2 allocated and negated, 3 every third bit negated or constant
fn w32(cs: &mut Probe, k: u8, v: u32) -> Result<UInt32, SynthesisError> {
    if k == 1 { return Ok(UInt32::constant(v)); }
    let u = { let v = cs.some(v); UInt32::alloc(&mut *cs, v)? };
    if k == 0 { return Ok(u); }
    let bits = u.into_bits();
    let mut o = vec![];
    for i in 0..32 {
        o.push(if k == 2 || i % 3 == 1 { bits[i].not() } else if i % 3 == 2 { Boolean::constant(i % 2 == 1) } else { bits[i].clone() });
    }
    Ok(UInt32::from_bits(&o))
}

fn u32op(cs: &mut Probe, op: u32, k: usize, kinds: &[u8], v: &[u32], r: *mut u8) -> Result<(), SynthesisError> {
    let mut w = vec![];
    for i in 0..kinds.len() {
        w.push(w32(cs, kinds[i], v[i])?);
    }
    let o = match op {
        0 => w[0].clone(),
        1 => w[0].xor(&mut *cs, &w[1])?,
        2 => UInt32::sha256_ch(&mut *cs, &w[0], &w[1], &w[2])?,
        3 => UInt32::sha256_maj(&mut *cs, &w[0], &w[1], &w[2])?,
        4 => UInt32::addmany(&mut *cs, &w)?,
        5 => w[0].rotr(k),
        6 => w[0].shr(k),
        7 => UInt32::from_bits_be(&w[0].clone().into_bits_be()),
        8 => UInt32::from_bits(&w[0].clone().into_bits()),
        _ => UInt32::from_bits(&w[0].clone().into_bits_be()),
    };
    unsafe { flags(&o.clone().into_bits(), r); }
    // the value the gadget carries along is what a later addition uses
    let t = { let v = cs.some(0); UInt32::alloc(&mut *cs, v)? };
    let s = UInt32::addmany(&mut *cs, &[o, t])?;
    unsafe { flags(&s.into_bits(), r.add(32)); }
    Ok(())
}

#[export_name = "wit_u32"]
pub unsafe extern "C" fn wit_u32(op: u32, k: usize, n: usize, kinds: *const u8, v: *const u32, res: *mut u128, cnt: &mut usize, sh: *mut u128, shn: &mut usize, nowit: u8, r: *mut u8, ok: &mut u8) {
    let mut cs = Probe::new(res, true, sh, nowit != 0);
    *ok = u32op(&mut cs, op, k, std::slice::from_raw_parts(kinds, n), std::slice::from_raw_parts(v, n), r).is_ok() as u8;
    *cnt = cs.n;
    *shn = cs.sn;
}

fn w64(cs: &mut Probe, k: u8, v: u64) -> Result<UInt64, SynthesisError> {
    if k == 1 { return Ok(UInt64::constant(v)); }
    let u = { let v = cs.some(v); UInt64::alloc(&mut *cs, v)? };
    if k == 0 { return Ok(u); }
    let bits = u.into_bits();
    let mut o = vec![];
    for i in 0..64 {
        o.push(if k == 2 || i % 3 == 1 { bits[i].not() } else if i % 3 == 2 { Boolean::constant(i % 2 == 1) } else { bits[i].clone() });
    }
    Ok(UInt64::from_bits(&o))
}

fn u64op(cs: &mut Probe, kinds: &[u8], v: &[u64], r: *mut u8) -> Result<(), SynthesisError> {
    let mut w = vec![];
    for i in 0..4 {
        w.push(w64(cs, kinds[i], v[i])?);
    }
    let (lo, hi) = w[0].mul_acc2(&mut *cs, &w[1], &w[2], &w[3])?;
    unsafe {
        flags(&lo.clone().into_bits(), r);
        flags(&hi.clone().into_bits(), r.add(64));
    }
    // the values the results carry along
    let t = UInt64::constant(1);
    let zz = UInt64::constant(0);
    let (a, b) = lo.mul_acc2(&mut *cs, &t, &hi, &zz)?;
    unsafe {
        flags(&a.into_bits(), r.add(128));
        flags(&b.into_bits(), r.add(192));
    }
    Ok(())
}

#[export_name = "wit_u64"]
pub unsafe extern "C" fn wit_u64(kinds: *const u8, v: *const u64, res: *mut u128, cnt: &mut usize, sh: *mut u128, shn: &mut usize, nowit: u8, r: *mut u8, ok: &mut u8) {
    let mut cs = Probe::new(res, true, sh, nowit != 0);
    *ok = u64op(&mut cs, std::slice::from_raw_parts(kinds, 4), std::slice::from_raw_parts(v, 4), r).is_ok() as u8;
    *cnt = cs.n;
    *shn = cs.sn;
}

fn unp(cs: &mut Probe, x: Z, r: *mut u8, n: &mut usize) -> Result<(), SynthesisError> {
    let a = AllocatedNum::alloc(&mut *cs, || Ok(x))?;
    let bits: Vec<AllocatedBit> = unpack_fe(&mut *cs, &Num::from(a))?;
    *n = bits.len();
    for (i, b) in bits.iter().enumerate() {
        unsafe { *r.add(i) = match b.get_value() { Some(true) => 1, Some(false) => 0, None => 2 }; }
    }
    Ok(())
}

#[export_name = "wit_unpack"]
pub unsafe extern "C" fn wit_unpack(x: &Z, res: *mut u128, cnt: &mut usize, sh: *mut u128, shn: &mut usize, nowit: u8, r: *mut u8, n: &mut usize, ok: &mut u8) {
    let mut cs = Probe::new(res, false, sh, nowit != 0);
    *ok = unp(&mut cs, *x, r, n).is_ok() as u8;
    *cnt = cs.n;
    *shn = cs.sn;
}
