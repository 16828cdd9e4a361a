//! The real point gadget, except that one witnessed point can be replaced.
use halo::*;
use std::sync::Mutex;

/// witnessed coordinates to replace, and the replacement
pub static LIE: Mutex<Option<([[u8; 32]; 2], [[u8; 32]; 2])>> = Mutex::new(None);

#[derive(Debug, Clone)]
pub struct CurvePoint<C: Curve>(halo::CurvePoint<C>);
impl<C: Curve> CurvePoint<C> {
    pub fn identity() -> Self {
        CurvePoint(halo::CurvePoint::identity())
    }
    pub fn constant(x: C::Base, y: C::Base) -> Self {
        CurvePoint(halo::CurvePoint::constant(x, y))
    }
    pub fn witness<CS, P>(cs: CS, point: P) -> Result<Self, SynthesisError>
    where
        CS: ConstraintSystem<C::Base>,
        P: FnOnce() -> Result<C, SynthesisError>,
    {
        Ok(CurvePoint(halo::CurvePoint::witness(cs, || {
            let p = point()?;
            if let (Some((t, r)), true) = (*LIE.lock().unwrap(), bool::from(!p.is_zero())) {
                let (x, y) = p.get_xy().unwrap();
                if x.to_bytes() == t[0] && y.to_bytes() == t[1] {
                    return Ok(C::from_xy(C::Base::from_bytes(&r[0]).unwrap(), C::Base::from_bytes(&r[1]).unwrap()).unwrap());
                }
            }
            Ok(p)
        })?))
    }
    pub fn get_xy(&self) -> (Num<C::Base>, Num<C::Base>) {
        self.0.get_xy()
    }
    pub fn add<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.add(cs, &o.0)?))
    }
    pub fn add_incomplete<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.add_incomplete(cs, &o.0)?))
    }
    pub fn double<CS: ConstraintSystem<C::Base>>(&self, cs: CS) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.double(cs)?))
    }
    pub fn add_conditionally<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self, c: &Boolean) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.add_conditionally(cs, &o.0, c)?))
    }
    pub fn add_conditionally_incomplete<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &Self, c: &Boolean) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.add_conditionally_incomplete(cs, &o.0, c)?))
    }
    pub fn multiply<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &[AllocatedBit]) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.multiply(cs, o)?))
    }
    pub fn multiply_endo<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &[AllocatedBit]) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.multiply_endo(cs, o)?))
    }
    pub fn multiply_inv_endo<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &[AllocatedBit]) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.multiply_inv_endo(cs, o)?))
    }
    pub fn multiply_inv<CS: ConstraintSystem<C::Base>>(&self, cs: CS, o: &[AllocatedBit]) -> Result<Self, SynthesisError> {
        Ok(CurvePoint(self.0.multiply_inv(cs, o)?))
    }
}
