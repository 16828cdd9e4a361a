//! Stand-ins for the gadgets the verification circuit is built from.  Each does what the contract of
//! the real gadget says (judged by C22, C25-C27) and writes down the relation it enforces; results
//! are fresh variables.
use halo::*;
use std::marker::PhantomData;
use std::sync::Mutex;

pub static LOG: Mutex<Vec<String>> = Mutex::new(vec![]);
static N: Mutex<[usize; 2]> = Mutex::new([0, 0]);
fn next(k: usize) -> usize {
    let mut n = N.lock().unwrap();
    n[k] += 1;
    n[k] - 1
}
pub fn log(s: String) {
    LOG.lock().unwrap().push(s);
}
fn hex(b: &[u8]) -> String {
    let mut s = String::from("0x");
    for x in b.iter().rev() {
        s.push_str(&format!("{:02x}", x));
    }
    s
}
fn var(v: Variable) -> String {
    match v {
        Variable::A(i) => format!("A{}", i),
        Variable::B(i) => format!("B{}", i),
        Variable::C(i) => format!("C{}", i),
    }
}
pub fn bits(b: &[AllocatedBit]) -> String {
    b.iter().map(|x| var(x.get_variable())).collect::<Vec<_>>().join(",")
}
/// a linear form: coeff*var joined by +
fn form<F: Field, CS: ConstraintSystem<F>>(cs: &mut CS, n: &Num<F>) -> String {
    let lc = n.lc(cs);
    lc.as_ref().iter().map(|(v, c)| format!("{}*{}", hex(&c.value().to_bytes()), var(*v))).collect::<Vec<_>>().join("+")
}
fn fresh<F: Field, CS: ConstraintSystem<F>>(mut cs: CS) -> Result<AllocatedNum<F>, SynthesisError> {
    AllocatedNum::alloc(&mut cs, || Ok(F::zero()))
}

#[derive(Debug, Clone)]
pub struct CurvePoint<C: Curve> {
    id: usize,
    x: Num<C::Base>,
    y: Num<C::Base>,
    c: bool,
    _m: PhantomData<C>,
}
impl<C: Curve> CurvePoint<C> {
    fn new<CS: ConstraintSystem<C::Base>>(mut cs: CS, how: String) -> Result<Self, SynthesisError> {
        let x: Num<_> = fresh(cs.namespace(|| "x"))?.into();
        let y: Num<_> = fresh(cs.namespace(|| "y"))?.into();
        let id = next(0);
        let (fx, fy) = (form(&mut cs, &x), form(&mut cs, &y));
        log(format!("point {} {} {} {}", id, fx, fy, how));
        Ok(CurvePoint { id, x, y, c: false, _m: PhantomData })
    }
    pub fn identity() -> Self {
        Self::konst(C::Base::zero(), C::Base::zero())
    }
    fn konst(x: C::Base, y: C::Base) -> Self {
        let id = next(0);
        log(format!("point {} {} {} const", id, hex(&x.to_bytes()), hex(&y.to_bytes())));
        CurvePoint { id, x: Num::constant(x), y: Num::constant(y), c: true, _m: PhantomData }
    }
    pub fn constant(x: C::Base, y: C::Base) -> Self {
        Self::konst(x, y)
    }
    pub fn witness<CS, P>(cs: CS, _point: P) -> Result<Self, SynthesisError>
    where
        CS: ConstraintSystem<C::Base>,
        P: FnOnce() -> Result<C, SynthesisError>,
    {
        Self::new(cs, "witness".into())
    }
    pub fn get_xy(&self) -> (Num<C::Base>, Num<C::Base>) {
        (self.x, self.y)
    }
    pub fn add<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self) -> Result<Self, SynthesisError> {
        Self::new(cs, format!("add {} {}", self.id, o.id))
    }
    pub fn add_incomplete<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self) -> Result<Self, SynthesisError> {
        Self::new(cs, format!("add {} {}", self.id, o.id))
    }
    pub fn double<CS: ConstraintSystem<C::Base>>(&self, cs: CS) -> Result<Self, SynthesisError> {
        Self::new(cs, format!("add {} {}", self.id, self.id))
    }
    fn cond<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self, c: &Boolean) -> Result<Self, SynthesisError> {
        let b = match c {
            Boolean::Is(b) => format!("is {}", var(b.get_variable())),
            Boolean::Not(b) => format!("not {}", var(b.get_variable())),
            Boolean::Constant(b) => format!("const {}", b),
        };
        Self::new(cs, format!("cadd {} {} {}", self.id, o.id, b))
    }
    pub fn add_conditionally<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self, c: &Boolean) -> Result<Self, SynthesisError> {
        self.cond(cs, o, c)
    }
    pub fn add_conditionally_incomplete<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self, c: &Boolean) -> Result<Self, SynthesisError> {
        self.cond(cs, o, c)
    }
    pub fn multiply<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &[AllocatedBit]) -> Result<Self, SynthesisError> {
        Self::new(cs, format!("mul {} {}", self.id, bits(o)))
    }
    pub fn multiply_endo<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &[AllocatedBit]) -> Result<Self, SynthesisError> {
        Self::new(cs, format!("endo {} {}", self.id, bits(o)))
    }
    pub fn multiply_inv_endo<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &[AllocatedBit]) -> Result<Self, SynthesisError> {
        Self::new(cs, format!("invendo {} {}", self.id, bits(o)))
    }
    pub fn multiply_inv<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &[AllocatedBit]) -> Result<Self, SynthesisError> {
        Self::new(cs, format!("inv {} {}", self.id, bits(o)))
    }
}

pub struct RescueGadget<F: Field> {
    id: usize,
    _m: PhantomData<F>,
}
impl<F: Field> RescueGadget<F> {
    pub fn new<CS: ConstraintSystem<F>>(_: CS) -> Result<Self, SynthesisError> {
        let id = next(1);
        log(format!("sponge {}", id));
        Ok(RescueGadget { id, _m: PhantomData })
    }
    pub fn absorb<CS: ConstraintSystem<F>>(&mut self, mut cs: CS, val: Num<F>) -> Result<(), SynthesisError> {
        let f = form(&mut cs, &val);
        log(format!("absorb {} {}", self.id, f));
        Ok(())
    }
    pub fn squeeze<CS: ConstraintSystem<F>>(&mut self, mut cs: CS) -> Result<AllocatedNum<F>, SynthesisError> {
        let r = fresh(cs.namespace(|| "squeezed"))?;
        log(format!("squeeze {} {}", self.id, var(r.get_variable())));
        Ok(r)
    }
}
pub fn unpack_fe<F: Field, CS: ConstraintSystem<F>>(mut cs: CS, num: &Num<F>) -> Result<Vec<AllocatedBit>, SynthesisError> {
    let mut r = vec![];
    for i in 0..256 {
        r.push(AllocatedBit::alloc(cs.namespace(|| format!("bit {}", i)), || Ok(false))?);
    }
    let f = form(&mut cs, num);
    log(format!("unpack {} {}", f, bits(&r)));
    Ok(r)
}
