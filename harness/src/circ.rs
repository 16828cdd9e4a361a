//! Circuit scenarios: each drives a real halo gadget with named inputs.
use crate::curve::*;
use crate::rec::*;
use crate::sym::*;
use halo::*;
use std::marker::PhantomData;

pub struct Scn<C> {
    pub name: String,
    pub args: Vec<String>,
    pub nowit: bool,
    pub _m: PhantomData<C>,
}
type LC<F> = LinearCombination<F>;

fn bit_in<F: HasReal>(name: &str) -> bool {
    <F::R as HF>::input(name).real_bytes()[0] & 1 == 1
}

impl<C: HC> Scn<C>
where
    C::B: HasReal,
    C::Sc: HasReal,
{
    fn a(&self, i: usize) -> &str {
        self.args.get(i).map(|s| s.as_str()).unwrap_or("")
    }
    fn n(&self, i: usize) -> usize {
        self.a(i).parse().unwrap()
    }
    /// named field input
    fn fin(&self, name: &str) -> Result<C::B, SynthesisError> {
        if self.nowit {
            Err(SynthesisError::AssignmentMissing)
        } else {
            Ok(C::B::input(name))
        }
    }
    fn bin(&self, name: &str) -> Result<bool, SynthesisError> {
        if self.nowit {
            Err(SynthesisError::AssignmentMissing)
        } else {
            Ok(bit_in::<C::B>(name))
        }
    }
    fn u32in(&self, name: &str) -> Option<u32> {
        if self.nowit {
            None
        } else {
            let b = <C::B as HasReal>::R::input(name).real_bytes();
            Some(u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
        }
    }
    fn u64in(&self, name: &str) -> Option<u64> {
        if self.nowit {
            None
        } else {
            let b = <C::B as HasReal>::R::input(name).real_bytes();
            let mut x = [0u8; 8];
            x.copy_from_slice(&b[..8]);
            Some(u64::from_le_bytes(x))
        }
    }
    /// a number of the given kind: v = allocated, c = constant (named input), s = allocated scaled by
    /// the constant input name+".k"
    fn num<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, kind: &str, name: &str) -> Result<Num<C::B>, SynthesisError> {
        match kind {
            "c" => Ok(Num::constant(C::B::input(name))),
            "v" => {
                let a = AllocatedNum::alloc(&mut *cs, || self.fin(name))?;
                out(name, LC::zero() + a.get_variable(), a.get_value());
                Ok(Num::from(a))
            }
            "s" => {
                let a = AllocatedNum::alloc(&mut *cs, || self.fin(name))?;
                out(name, LC::zero() + a.get_variable(), a.get_value());
                Ok(Num::from((Coeff::Full(C::B::input(&format!("{}.k", name))), a)))
            }
            "n" => {
                let a = AllocatedNum::alloc(&mut *cs, || self.fin(name))?;
                out(name, LC::zero() + a.get_variable(), a.get_value());
                Ok(-Num::from(a))
            }
            _ => panic!("num kind {}", kind),
        }
    }
    fn anum<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, name: &str) -> Result<AllocatedNum<C::B>, SynthesisError> {
        let a = AllocatedNum::alloc(&mut *cs, || self.fin(name))?;
        out(name, LC::zero() + a.get_variable(), a.get_value());
        Ok(a)
    }
    fn abit<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, name: &str) -> Result<AllocatedBit, SynthesisError> {
        let b = AllocatedBit::alloc(&mut *cs, || self.bin(name))?;
        out::<C::B>(name, LC::zero() + b.get_variable(), b.get_value().map(|v| v.into()));
        Ok(b)
    }
    fn boolean<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, kind: &str, name: &str) -> Result<Boolean, SynthesisError> {
        Ok(match kind {
            "0" => Boolean::constant(false),
            "1" => Boolean::constant(true),
            "i" => Boolean::from(self.abit(cs, name)?),
            "n" => Boolean::from(self.abit(cs, name)?).not(),
            _ => panic!("bool kind {}", kind),
        })
    }
    fn out_num<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, name: &str, n: &Num<C::B>) {
        let lc = n.lc(&mut *cs);
        out(name, lc, n.value());
    }
    fn out_bool<CS: ConstraintSystem<C::B>>(&self, _cs: &mut CS, name: &str, b: &Boolean) {
        out::<C::B>(name, b.lc(CS::ONE, Coeff::One), b.get_value().map(|x| x.into()));
    }
    /// point kinds: v raw variables, w witness gadget, i identity constant, c constant,
    /// m variables with a negated flag variable
    fn point<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, kind: &str, name: &str) -> Result<CurvePoint<C>, SynthesisError> {
        let (nx, ny, nf) = (format!("{}.x", name), format!("{}.y", name), format!("{}.id", name));
        let p = match kind {
            "i" => CurvePoint::identity(),
            "c" => CurvePoint::constant(C::B::input(&nx), C::B::input(&ny)),
            "w" => CurvePoint::witness(&mut *cs, || {
                if self.bin(&nf)? {
                    Ok(C::zero())
                } else {
                    Ok(C::from_xy_unchecked(self.fin(&nx)?, self.fin(&ny)?))
                }
            })?,
            "v" | "m" => {
                let x = AllocatedNum::alloc(&mut *cs, || self.fin(&nx))?;
                let y = AllocatedNum::alloc(&mut *cs, || self.fin(&ny))?;
                let f = AllocatedBit::alloc(&mut *cs, || if kind == "m" { self.bin(&nf).map(|b| !b) } else { self.bin(&nf) })?;
                let f = Boolean::from(f);
                CurvePoint::verif_from_parts(x.into(), y.into(), if kind == "m" { f.not() } else { f })
            }
            // two points sharing one input: "=NAME" not supported here
            _ => panic!("point kind {}", kind),
        };
        self.out_point(cs, name, &p);
        Ok(p)
    }
    fn out_point<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, name: &str, p: &CurvePoint<C>) {
        let (x, y, f) = p.verif_parts();
        self.out_num(cs, &format!("{}.x", name), &x);
        self.out_num(cs, &format!("{}.y", name), &y);
        self.out_bool(cs, &format!("{}.id", name), &f);
    }
    fn bits<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, n: usize) -> Result<Vec<AllocatedBit>, SynthesisError> {
        (0..n).map(|i| self.abit(cs, &format!("b{}", i))).collect()
    }
    fn comb<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, kinds: &str, pre: &str) -> Result<Combination<C::B>, SynthesisError> {
        let mut c = Combination::zero();
        for (i, k) in kinds.chars().enumerate() {
            let nm = format!("{}{}", pre, i);
            c = match k {
                'v' => c + self.anum(cs, &nm)?,
                'V' => {
                    let a = self.anum(cs, &nm)?;
                    c - a
                }
                'k' => {
                    let a = self.anum(cs, &nm)?;
                    c + (Coeff::Full(C::B::input(&format!("{}.k", nm))), a)
                }
                'c' => c + Num::constant(C::B::input(&nm)),
                's' => c + self.num(cs, "s", &nm)?,
                'S' => {
                    let a = self.num(cs, "s", &nm)?;
                    c + (Coeff::Full(C::B::input(&format!("{}.j", nm))), a)
                }
                'C' => c + (Coeff::Full(C::B::input(&format!("{}.j", nm))), Num::constant(C::B::input(&nm))),
                'a' => {
                    // AddAssign forms
                    c += self.anum(cs, &nm)?;
                    c
                }
                'A' => {
                    c += self.num(cs, "s", &nm)?;
                    c
                }
                'z' => c.scale(C::B::input(&format!("{}.k", nm))),
                _ => panic!("comb kind {}", k),
            };
        }
        Ok(c)
    }
    fn out_comb<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, name: &str, c: &Combination<C::B>) {
        let lc = c.lc(&mut *cs);
        out(name, lc, c.get_value());
    }
    fn u32<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, kind: &str, name: &str) -> Result<UInt32, SynthesisError> {
        let u = match kind {
            "v" => UInt32::alloc(&mut *cs, self.u32in(name))?,
            // bits: i variable, n negated variable, 0/1 constants, by position
            k if k.starts_with('b') => {
                let u = UInt32::alloc(&mut *cs, self.u32in(name))?;
                self.out_u32(cs, &format!("{}.v", name), &u);
                let k: Vec<char> = k[1..].chars().collect();
                let bits: Vec<Boolean> = u.into_bits().iter().enumerate().map(|(i, b)| match k[i % k.len()] {
                    'i' => b.clone(),
                    'n' => b.not(),
                    '0' => Boolean::constant(false),
                    _ => Boolean::constant(true),
                }).collect();
                UInt32::from_bits(&bits)
            }
            k => UInt32::constant(u32::from_str_radix(k, 16).unwrap()),
        };
        self.out_u32(cs, name, &u);
        Ok(u)
    }
    fn out_u32<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, name: &str, u: &UInt32) {
        for (i, b) in u.clone().into_bits().iter().enumerate() {
            self.out_bool(cs, &format!("{}[{}]", name, i), b);
        }
    }
    fn u64<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, kind: &str, name: &str) -> Result<UInt64, SynthesisError> {
        let u = match kind {
            "v" => UInt64::alloc(&mut *cs, self.u64in(name))?,
            k if k.starts_with('b') => {
                let u = UInt64::alloc(&mut *cs, self.u64in(name))?;
                self.out_u64(cs, &format!("{}.v", name), &u);
                let k: Vec<char> = k[1..].chars().collect();
                let bits: Vec<Boolean> = u.into_bits().iter().enumerate().map(|(i, b)| match k[i % k.len()] {
                    'i' => b.clone(),
                    'n' => b.not(),
                    '0' => Boolean::constant(false),
                    _ => Boolean::constant(true),
                }).collect();
                UInt64::from_bits(&bits)
            }
            k => UInt64::constant(u64::from_str_radix(k, 16).unwrap()),
        };
        self.out_u64(cs, name, &u);
        Ok(u)
    }
    fn out_u64<CS: ConstraintSystem<C::B>>(&self, cs: &mut CS, name: &str, u: &UInt64) {
        for (i, b) in u.clone().into_bits().iter().enumerate() {
            self.out_bool(cs, &format!("{}[{}]", name, i), b);
        }
        out(&format!("{}.lc", name), u.lc::<C::B, CS>(), None);
    }
}

impl<C: HC> Circuit<<C as HC>::B> for Scn<C>
where
    C::B: HasReal,
    C::Sc: HasReal,
{
    fn synthesize<CS: ConstraintSystem<<C as HC>::B>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let nm = self.name.as_str();
        match nm {
            // ---- numbers
            "alloc" => {
                self.anum(cs, "x")?;
            }
            "alloc_input" => {
                let a = AllocatedNum::alloc_input(&mut *cs, || self.fin("x"))?;
                out("x", a.lc(), a.get_value());
            }
            "inputize" => {
                let a = self.anum(cs, "x")?;
                let b = a.inputize(&mut *cs)?;
                out("r", b.lc(), b.get_value());
            }
            "num_mul" => {
                let a = self.anum(cs, "x")?;
                let b = if self.a(0) == "same" { a } else { self.anum(cs, "y")? };
                let r = a.mul(&mut *cs, &b)?;
                out("r", r.lc(), r.get_value());
            }
            "alloc_and_square" => {
                let (a, b) = AllocatedNum::alloc_and_square(&mut *cs, || self.fin("x"))?;
                out("x", a.lc(), a.get_value());
                out("r", b.lc(), b.get_value());
            }
            "num_one" => {
                let a = AllocatedNum::<C::B>::one(&mut *cs);
                out("r", a.lc(), a.get_value());
            }
            "num_frombit" => {
                let b = self.abit(cs, "b")?;
                let a: AllocatedNum<C::B> = b.into();
                out("r", a.lc(), a.get_value());
            }
            "num_invert" => {
                let a = self.anum(cs, "x")?;
                let r = a.invert(&mut *cs)?;
                out("r", r.lc(), r.get_value());
            }
            "num_sqrt" => {
                let a = self.anum(cs, "x")?;
                let r = a.sqrt(&mut *cs)?;
                out("r", r.lc(), r.get_value());
            }
            "num_alpha" | "num_invalpha" => {
                let c = self.comb(cs, self.a(0), "x")?;
                let r = if nm == "num_alpha" {
                    AllocatedNum::rescue_alpha(&mut *cs, &c)?
                } else {
                    AllocatedNum::rescue_invalpha(&mut *cs, &c)?
                };
                self.out_comb(cs, "in", &c);
                out("r", r.lc(), r.get_value());
            }
            "num_lc" => {
                let n = self.num(cs, self.a(0), "x")?;
                let n = if self.a(1) == "scale" { n.scale(C::B::input("k")) } else { n };
                let n = if self.a(1) == "neg" { -n } else { n };
                let n = if self.a(1) == "coeff" { Num::from((Coeff::Full(C::B::input("k")), n)) } else { n };
                self.out_num(cs, "r", &n);
            }
            // ---- combinations
            "comb" => {
                let c = self.comb(cs, self.a(1), "x")?;
                match self.a(0) {
                    "lc" => {
                        if self.a(2) == "scale" {
                            let c = c.scale(C::B::input("k"));
                            self.out_comb(cs, "r", &c);
                        } else {
                            self.out_comb(cs, "r", &c);
                        }
                    }
                    "add" => {
                        let d = self.comb(cs, self.a(2), "y")?;
                        let e = c + d;
                        self.out_comb(cs, "r", &e);
                    }
                    "evaluate" => {
                        let r = c.evaluate(&mut *cs)?;
                        self.out_num(cs, "r", &r);
                    }
                    "mul" => {
                        let d = self.comb(cs, self.a(2), "y")?;
                        let r = c.mul(&mut *cs, &d)?;
                        out("r", r.lc(), r.get_value());
                    }
                    "square" => {
                        let r = c.square(&mut *cs)?;
                        out("r", r.lc(), r.get_value());
                    }
                    "alpha" => {
                        let r = c.rescue_alpha(&mut *cs)?;
                        self.out_num(cs, "r", &r);
                    }
                    "invalpha" => {
                        let r = c.rescue_invalpha(&mut *cs)?;
                        self.out_num(cs, "r", &r);
                    }
                    o => panic!("comb op {}", o),
                }
            }
            // ---- booleans
            "bit_alloc" => {
                self.abit(cs, "b")?;
            }
            "bit_input" => {
                let b = AllocatedBit::alloc_input_unchecked(&mut *cs, || self.bin("b"))?;
                out::<C::B>("b", LC::zero() + b.get_variable(), b.get_value().map(|x| x.into()));
            }
            "bit_check" => {
                let b = AllocatedBit::alloc_input_unchecked(&mut *cs, || self.bin("b"))?;
                b.check(&mut *cs)?;
                out::<C::B>("b", LC::zero() + b.get_variable(), b.get_value().map(|x| x.into()));
            }
            "bit_op" => {
                let a = self.abit(cs, "a")?;
                let b = if self.a(1) == "same" { a.clone() } else { self.abit(cs, "b")? };
                let r = match self.a(0) {
                    "xor" => AllocatedBit::xor(&mut *cs, &a, &b)?,
                    "and" => AllocatedBit::and(&mut *cs, &a, &b)?,
                    "andnot" => AllocatedBit::and_not(&mut *cs, &a, &b)?,
                    "nor" => AllocatedBit::nor(&mut *cs, &a, &b)?,
                    o => panic!("bit_op {}", o),
                };
                out::<C::B>("r", LC::zero() + r.get_variable(), r.get_value().map(|x| x.into()));
            }
            "bool_op" => {
                let a = self.boolean(cs, self.a(1), "a")?;
                let b = if self.a(2) == "same" {
                    a.clone()
                } else if self.a(2) == "opp" {
                    a.not()
                } else {
                    self.boolean(cs, self.a(2), "b")?
                };
                self.out_bool(cs, "A", &a);
                self.out_bool(cs, "B", &b);
                match self.a(0) {
                    "xor" => {
                        let r = Boolean::xor(&mut *cs, &a, &b)?;
                        self.out_bool(cs, "r", &r)
                    }
                    "and" => {
                        let r = Boolean::and(&mut *cs, &a, &b)?;
                        self.out_bool(cs, "r", &r)
                    }
                    "eq" => match Boolean::enforce_equal(&mut *cs, &a, &b) {
                        Ok(()) => note("eq", "ok"),
                        Err(e) => note("eq", format!("{:?}", e)),
                    },
                    o => panic!("bool_op {}", o),
                }
            }
            "bool3" => {
                let a = self.boolean(cs, self.a(1), "a")?;
                let b = self.boolean(cs, self.a(2), "b")?;
                let c = self.boolean(cs, self.a(3), "c")?;
                self.out_bool(cs, "A", &a);
                self.out_bool(cs, "B", &b);
                self.out_bool(cs, "C", &c);
                let r = match self.a(0) {
                    "ch" => Boolean::sha256_ch(&mut *cs, &a, &b, &c)?,
                    "maj" => Boolean::sha256_maj(&mut *cs, &a, &b, &c)?,
                    o => panic!("bool3 {}", o),
                };
                self.out_bool(cs, "r", &r);
            }
            "bool_lc" => {
                let a = self.boolean(cs, self.a(0), "a")?;
                let k = C::B::input("k");
                out::<C::B>("r", a.lc(CS::ONE, Coeff::Full(k)), None);
                self.out_bool(cs, "A", &a);
                let n = a.not();
                self.out_bool(cs, "N", &n);
                note("const", a.is_constant());
            }
            "unpack" => {
                let n = self.num(cs, self.a(0), "x")?;
                self.out_num(cs, "X", &n);
                let bits = unpack_fe(&mut *cs, &n)?;
                note("nbits", bits.len());
                for (i, b) in bits.iter().enumerate() {
                    out::<C::B>(
                        &format!("u{}", i),
                        LC::zero() + b.get_variable(),
                        b.get_value().map(|x| x.into()),
                    );
                }
            }
            // ---- u32 / u64 / sha
            "u32" => {
                let ops: Vec<UInt32> = (1..self.args.len())
                    .filter(|i| !self.a(*i).starts_with('-'))
                    .map(|i| self.u32(cs, self.a(i), &format!("o{}", i - 1)))
                    .collect::<Result<_, _>>()?;
                let k: usize = self
                    .args
                    .iter()
                    .find(|s| s.starts_with('-'))
                    .map(|s| s[1..].parse().unwrap())
                    .unwrap_or(0);
                let r = match self.a(0) {
                    "alloc" => ops[0].clone(),
                    "xor" => ops[0].xor(&mut *cs, &ops[1])?,
                    "ch" => UInt32::sha256_ch(&mut *cs, &ops[0], &ops[1], &ops[2])?,
                    "maj" => UInt32::sha256_maj(&mut *cs, &ops[0], &ops[1], &ops[2])?,
                    "add" => UInt32::addmany(&mut *cs, &ops)?,
                    "rotr" => ops[0].rotr(k),
                    "shr" => ops[0].shr(k),
                    "be" => UInt32::from_bits_be(&ops[0].clone().into_bits_be()),
                    "le" => UInt32::from_bits(&ops[0].clone().into_bits()),
                    "rev" => UInt32::from_bits(&ops[0].clone().into_bits_be()),
                    o => panic!("u32 {}", o),
                };
                self.out_u32(cs, "r", &r);
            }
            "u64" => {
                let ops: Vec<UInt64> = (1..self.args.len())
                    .map(|i| self.u64(cs, self.a(i), &format!("o{}", i - 1)))
                    .collect::<Result<_, _>>()?;
                match self.a(0) {
                    "alloc" => {}
                    "bits" => {
                        let r = UInt64::from_bits(&ops[0].clone().into_bits());
                        self.out_u64(cs, "r", &r);
                    }
                    "mulacc" => {
                        let (lo, hi) = ops[0].mul_acc2(&mut *cs, &ops[1], &ops[2], &ops[3])?;
                        self.out_u64(cs, "lo", &lo);
                        self.out_u64(cs, "hi", &hi);
                    }
                    o => panic!("u64 {}", o),
                }
            }
            "sha256" => {
                let n = self.n(0);
                let mut v = vec![];
                for i in 0..n {
                    let kind = if self.a(1) == "c" {
                        if bit_in::<C::B>(&format!("m{}", i)) { "1" } else { "0" }
                    } else {
                        "i"
                    };
                    v.push(self.boolean(cs, kind, &format!("m{}", i))?);
                }
                let r = if self.a(2) == "block" {
                    sha256::sha256_block_no_padding(&mut *cs, &v)?
                } else {
                    sha256::sha256(&mut *cs, &v)?
                };
                note("len", r.len());
                for (i, b) in r.iter().enumerate() {
                    self.out_bool(cs, &format!("h{}", i), b);
                }
            }
            // ---- rescue gadget: args are an op string of a (absorb next), s (squeeze)
            "rescue" => {
                let mut g = RescueGadget::new(&mut *cs)?;
                let (mut i, mut j) = (0, 0);
                for ch in self.a(0).chars() {
                    match ch {
                        'a' => {
                            let x = self.num(cs, "v", &format!("x{}", i))?;
                            i += 1;
                            g.absorb(&mut *cs, x)?;
                        }
                        'c' => {
                            let x = self.num(cs, "c", &format!("x{}", i))?;
                            i += 1;
                            g.absorb(&mut *cs, x)?;
                        }
                        's' => {
                            let r = g.squeeze(&mut *cs)?;
                            out(&format!("s{}", j), r.lc(), r.get_value());
                            j += 1;
                        }
                        _ => panic!(),
                    }
                }
            }
            // ---- curve points
            "pt" => {
                let p = self.point(cs, self.a(1), "P")?;
                match self.a(0) {
                    "none" => {}
                    "endo" | "neg" => {
                        let b = self.boolean(cs, self.a(2), "b")?;
                        self.out_bool(cs, "cond", &b);
                        let r = if self.a(0) == "endo" {
                            p.conditional_endo(&mut *cs, &b)?
                        } else {
                            p.conditional_neg(&mut *cs, &b)?
                        };
                        self.out_point(cs, "R", &r);
                    }
                    "double" => {
                        let r = p.double(&mut *cs)?;
                        self.out_point(cs, "R", &r);
                    }
                    "get_xy" => {
                        let (x, y) = p.get_xy();
                        self.out_num(cs, "gx", &x);
                        self.out_num(cs, "gy", &y);
                    }
                    "add" | "addinc" | "dbladd" => {
                        let q = if self.a(2) == "same" { p.clone() } else { self.point(cs, self.a(2), "Q")? };
                        let r = match self.a(0) {
                            "add" => p.add(&mut *cs, &q)?,
                            "addinc" => p.add_incomplete(&mut *cs, &q)?,
                            _ => p.double_and_add_incomplete(&mut *cs, &q)?,
                        };
                        self.out_point(cs, "R", &r);
                    }
                    "addcond" | "addcondinc" => {
                        let q = self.point(cs, self.a(2), "Q")?;
                        let b = self.boolean(cs, self.a(3), "b")?;
                        self.out_bool(cs, "cond", &b);
                        let r = if self.a(0) == "addcond" {
                            p.add_conditionally(&mut *cs, &q, &b)?
                        } else {
                            p.add_conditionally_incomplete(&mut *cs, &q, &b)?
                        };
                        self.out_point(cs, "R", &r);
                    }
                    "mul" | "mulfast" | "mulendo" | "invmul" | "invmulfast" | "invmulendo" => {
                        let bits = self.bits(cs, self.n(2))?;
                        let r = match self.a(0) {
                            "mul" => p.multiply(&mut *cs, &bits)?,
                            "mulfast" => p.multiply_fast(&mut *cs, &bits)?,
                            "mulendo" => p.multiply_endo(&mut *cs, &bits)?,
                            "invmul" => p.multiply_inv(&mut *cs, &bits)?,
                            "invmulfast" => p.multiply_inv_fast(&mut *cs, &bits)?,
                            _ => p.multiply_inv_endo(&mut *cs, &bits)?,
                        };
                        self.out_point(cs, "R", &r);
                    }
                    o => panic!("pt op {}", o),
                }
            }
            _ => panic!("unknown scenario {}", nm),
        }
        Ok(())
    }
}
