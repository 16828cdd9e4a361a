//! `SCurve<K>`: affine short-Weierstrass points with symbolic coordinates.
//! It is the harness' oracle for the group (textbook affine law), used where
//! gadgets are generic over `Curve`.
use crate::sym::*;
use halo::{Curve, Ec0, Ec1, Field};
use std::fmt;
use std::ops::*;
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub trait CK: Kind {
    type RealC: Curve<Base = <Self as Kind>::Real>;
}
impl CK for KP {
    type RealC = Ec1;
}
impl CK for KQ {
    type RealC = Ec0;
}

/// Curves usable in scenarios.
pub trait HC: Curve<Base = <Self as HC>::B, Scalar = <Self as HC>::Sc> {
    type B: HF;
    type Sc: HF;
}
impl HC for Ec0 {
    type B = halo::Fq;
    type Sc = halo::Fp;
}
impl HC for Ec1 {
    type B = halo::Fp;
    type Sc = halo::Fq;
}
impl<K: CK> HC for SCurve<K>
where
    K::Other: Kind,
{
    type B = S<K>;
    type Sc = S<K::Other>;
}

#[derive(Copy, Clone)]
pub struct SCurve<K: CK> {
    pub x: S<K>,
    pub y: S<K>,
    pub inf: bool,
}
impl<K: CK> fmt::Debug for SCurve<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "({:?},{:?},{})", self.x, self.y, self.inf)
    }
}
impl<K: CK> Default for SCurve<K> {
    fn default() -> Self {
        SCurve {
            x: S::zero(),
            y: S::zero(),
            inf: true,
        }
    }
}
impl<K: CK> PartialEq for SCurve<K> {
    fn eq(&self, o: &Self) -> bool {
        if self.inf || o.inf {
            return self.inf == o.inf;
        }
        self.x == o.x && self.y == o.y
    }
}
impl<K: CK> Eq for SCurve<K> {}
impl<K: CK> ConstantTimeEq for SCurve<K> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from((self == o) as u8)
    }
}
impl<K: CK> ConditionallySelectable for SCurve<K> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.unwrap_u8() == 1 {
            *b
        } else {
            *a
        }
    }
}
impl<K: CK> SCurve<K> {
    fn padd(self, o: Self) -> Self {
        if self.inf {
            return o;
        }
        if o.inf {
            return self;
        }
        if self.x == o.x {
            if self.y == o.y {
                return self.double();
            }
            return Self::zero();
        }
        let l = (o.y - self.y) * (o.x - self.x).invert().unwrap();
        let x = l * l - self.x - o.x;
        let y = l * (self.x - x) - self.y;
        SCurve { x, y, inf: false }
    }
    fn pneg(self) -> Self {
        SCurve {
            x: self.x,
            y: -self.y,
            inf: self.inf,
        }
    }
    fn pmul(self, k: S<K::Other>) -> Self {
        // opaque product, with real shadow
        let base = <K::RealC as Curve>::from_xy_unchecked(self.x.val(), self.y.val());
        let base = if self.inf {
            <K::RealC as Curve>::zero()
        } else {
            base
        };
        let kb = <K::Other as Kind>::Real::to_bytes(&k.val());
        let mut acc = <K::RealC as Curve>::zero();
        for i in (0..256).rev() {
            acc = acc.double();
            if (kb[i / 8] >> (i % 8)) & 1 == 1 {
                acc = acc + base;
            }
        }
        let xy = acc.get_xy();
        if bool::from(xy.is_none()) {
            return Self::zero();
        }
        let (x, y) = xy.unwrap();
        SCurve {
            x: S::opaque("mulx", vec![self.x.0, self.y.0, k.0], x),
            y: S::opaque("muly", vec![self.x.0, self.y.0, k.0], y),
            inf: false,
        }
    }
}
impl<K: CK> Neg for SCurve<K> {
    type Output = Self;
    fn neg(self) -> Self {
        self.pneg()
    }
}
macro_rules! gops {
    ($tr:ident,$f:ident,$tra:ident,$fa:ident,$rhs:ty,$e:expr) => {
        impl<K: CK> $tr<$rhs> for SCurve<K> {
            type Output = Self;
            fn $f(self, o: $rhs) -> Self {
                let f: fn(Self, $rhs) -> Self = $e;
                f(self, o)
            }
        }
        impl<'a, K: CK> $tr<&'a $rhs> for SCurve<K> {
            type Output = Self;
            fn $f(self, o: &'a $rhs) -> Self {
                let f: fn(Self, $rhs) -> Self = $e;
                f(self, *o)
            }
        }
        impl<K: CK> $tra<$rhs> for SCurve<K> {
            fn $fa(&mut self, o: $rhs) {
                let f: fn(Self, $rhs) -> Self = $e;
                *self = f(*self, o)
            }
        }
        impl<'a, K: CK> $tra<&'a $rhs> for SCurve<K> {
            fn $fa(&mut self, o: &'a $rhs) {
                let f: fn(Self, $rhs) -> Self = $e;
                *self = f(*self, *o)
            }
        }
    };
}
gops!(Add, add, AddAssign, add_assign, SCurve<K>, |a, b| a.padd(b));
gops!(Sub, sub, SubAssign, sub_assign, SCurve<K>, |a, b| a
    .padd(b.pneg()));
gops!(Mul, mul, MulAssign, mul_assign, S<K::Other>, |a, b| a.pmul(b));

impl<K: CK> Curve for SCurve<K> {
    type Scalar = S<K::Other>;
    type Base = S<K>;
    const BETA_SCALAR: Self::Scalar = <S<K::Other> as Field>::BETA;
    const BETA_BASE: Self::Base = <S<K> as Field>::BETA;
    fn zero() -> Self {
        Self::default()
    }
    fn one() -> Self {
        let (x, y) = <K::RealC as Curve>::one().get_xy().unwrap();
        SCurve {
            x: S::constant(x),
            y: S::constant(y),
            inf: false,
        }
    }
    fn is_zero(&self) -> Choice {
        Choice::from(self.inf as u8)
    }
    fn from_bytes(_: &[u8; 32]) -> CtOption<Self> {
        unimplemented!("SCurve::from_bytes")
    }
    fn to_bytes(&self) -> [u8; 32] {
        unimplemented!("SCurve::to_bytes")
    }
    fn get_xy(&self) -> CtOption<(Self::Base, Self::Base)> {
        CtOption::new((self.x, self.y), Choice::from(!self.inf as u8))
    }
    fn get_xyz(&self) -> (Self::Base, Self::Base, Self::Base) {
        if self.inf {
            (S::zero(), S::one(), S::zero())
        } else {
            (self.x, self.y, S::one())
        }
    }
    fn from_xy(x: Self::Base, y: Self::Base) -> CtOption<Self> {
        let t = SCurve { x, y, inf: false };
        if t.is_on_curve() {
            CtOption::new(t, Choice::from(1))
        } else if x == S::zero() && y == S::zero() {
            CtOption::new(Self::zero(), Choice::from(1))
        } else {
            CtOption::new(Self::zero(), Choice::from(0))
        }
    }
    fn from_xy_unchecked(x: Self::Base, y: Self::Base) -> Self {
        SCurve { x, y, inf: false }
    }
    fn double(&self) -> Self {
        if self.inf {
            return *self;
        }
        if self.y == S::zero() {
            return Self::zero();
        }
        let xx = self.x * self.x;
        let l = (xx + xx + xx) * (self.y + self.y).invert().unwrap();
        let x = l * l - self.x - self.x;
        let y = l * (self.x - x) - self.y;
        SCurve { x, y, inf: false }
    }
    fn b() -> Self::Base {
        S::constant(<K::RealC as Curve>::b())
    }
    fn is_on_curve(&self) -> bool {
        self.inf || self.y * self.y == self.x * self.x * self.x + Self::b()
    }
}
