//! `G<K>`: group elements as formal linear combinations, with symbolic scalar
//! coefficients, of independent basis elements (generic-group model).  A real
//! curve point shadows every element and supplies its coordinates.
use crate::sym::*;
use halo::{Curve, Ec0, Ec1, Field};
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;
use std::sync::{Mutex, OnceLock};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

/// kinds indexed by the scalar field
pub trait GK: Kind {
    type RC: Curve<Scalar = <Self as Kind>::Real, Base = <<Self as Kind>::Other as Kind>::Real>;
    fn gcell() -> &'static OnceLock<Mutex<GA<Self::RC>>>;
}
pub struct GA<P> {
    /// linear combination: basis index -> scalar term
    pub lcs: Vec<BTreeMap<u32, u32>>,
    pub shadow: Vec<P>,
    pub map: HashMap<BTreeMap<u32, u32>, u32>,
    pub basis: Vec<String>,
    /// point named in an opaque coordinate -> element ids seen with that shadow
    pub coords: Vec<(String, u32)>,
    pub eqs: Vec<(u32, u32, bool)>,
}
static G0: OnceLock<Mutex<GA<Ec0>>> = OnceLock::new();
static G1: OnceLock<Mutex<GA<Ec1>>> = OnceLock::new();
impl GK for KP {
    type RC = Ec0;
    fn gcell() -> &'static OnceLock<Mutex<GA<Ec0>>> {
        &G0
    }
}
impl GK for KQ {
    type RC = Ec1;
    fn gcell() -> &'static OnceLock<Mutex<GA<Ec1>>> {
        &G1
    }
}
pub fn garena<K: GK>() -> std::sync::MutexGuard<'static, GA<K::RC>> {
    K::gcell()
        .get_or_init(|| {
            let mut map = HashMap::new();
            map.insert(BTreeMap::new(), 0);
            Mutex::new(GA {
                lcs: vec![BTreeMap::new()],
                shadow: vec![<K::RC as Curve>::zero()],
                map,
                basis: vec![],
                coords: vec![],
                eqs: vec![],
            })
        })
        .lock()
        .unwrap_or_else(|e| e.into_inner())
}

pub struct G<K>(pub u32, PhantomData<K>);
impl<K> Clone for G<K> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<K> Copy for G<K> {}

fn rmul<C: Curve>(p: C, k: C::Scalar) -> C {
    let kb = k.to_bytes();
    let mut acc = C::zero();
    for i in (0..256).rev() {
        acc = acc.double();
        if (kb[i / 8] >> (i % 8)) & 1 == 1 {
            acc = acc + p;
        }
    }
    acc
}

impl<K: GK> G<K> {
    /// a new independent element; the shadow is a fixed pseudo-random point
    pub fn fresh(name: &str) -> Self {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in name.bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
        let mut g = garena::<K>();
        if let Some(i) = g.basis.iter().position(|b| b == name) {
            let mut m = BTreeMap::new();
            m.insert(i as u32, 1);
            return G(g.map[&m], PhantomData);
        }
        let s = <K::Real as Field>::from_u128(((h as u128) << 64) | (h.rotate_left(23) as u128 ^ 0x5555));
        let p = rmul(<K::RC as Curve>::one(), s);
        let i = g.basis.len() as u32;
        g.basis.push(name.to_string());
        let mut m = BTreeMap::new();
        m.insert(i, 1);
        Self::intern(&mut g, m, p)
    }
    fn intern(g: &mut GA<K::RC>, m: BTreeMap<u32, u32>, p: K::RC) -> Self {
        if let Some(&i) = g.map.get(&m) {
            return G(i, PhantomData);
        }
        let id = g.lcs.len() as u32;
        g.lcs.push(m.clone());
        g.shadow.push(p);
        g.map.insert(m, id);
        G(id, PhantomData)
    }
    pub fn lc(&self) -> BTreeMap<u32, u32> {
        garena::<K>().lcs[self.0 as usize].clone()
    }
    pub fn shadow(&self) -> K::RC {
        garena::<K>().shadow[self.0 as usize]
    }
    fn comb(self, o: Self, neg: bool) -> Self {
        let (mut a, b) = (self.lc(), o.lc());
        for (k, v) in b {
            let v = S::<K>::new_id(v);
            let v = if neg { -v } else { v };
            let r = match a.get(&k) {
                Some(x) => S::<K>::new_id(*x) + v,
                None => v,
            };
            if r.0 == 0 {
                a.remove(&k);
            } else {
                a.insert(k, r.0);
            }
        }
        let p = if neg { self.shadow() - o.shadow() } else { self.shadow() + o.shadow() };
        Self::intern(&mut garena::<K>(), a, p)
    }
    fn scale(self, k: S<K>) -> Self {
        if k.0 == 0 {
            return Self::zero();
        }
        if k.0 == 1 {
            return self;
        }
        let mut m = BTreeMap::new();
        for (b, v) in self.lc() {
            let r = S::<K>::new_id(v) * k;
            if r.0 != 0 {
                m.insert(b, r.0);
            }
        }
        let p = rmul(self.shadow(), k.val());
        Self::intern(&mut garena::<K>(), m, p)
    }
    pub fn equal(&self, o: &Self) -> bool {
        if self.0 == o.0 {
            return true;
        }
        let (a, b) = (self.lc(), o.lc());
        let keys: std::collections::BTreeSet<u32> = a.keys().chain(b.keys()).cloned().collect();
        let z = S::<K>::zero();
        let mut out = true;
        for k in keys {
            let x = a.get(&k).map(|v| S::new_id(*v)).unwrap_or(z);
            let y = b.get(&k).map(|v| S::new_id(*v)).unwrap_or(z);
            if !x.equal(&y) {
                out = false;
                break;
            }
        }
        garena::<K>().eqs.push((self.0, o.0, out));
        out
    }
    pub fn inf(&self) -> bool {
        self.equal(&Self::zero())
    }
    fn coord(&self, w: char) -> S<K::Other> {
        let (x, y) = self.shadow().get_xy().unwrap();
        let key = format!("{}", bytes_to_hex(&x.to_bytes()));
        let sgn = y.to_bytes()[0] & 1;
        let name = format!("{}{}:{}", w, sgn, key);
        garena::<K>().coords.push((name.clone(), self.0));
        S::<K::Other>::opaque(&name, vec![], if w == 'x' { x } else { y })
    }
}
impl<K> fmt::Debug for G<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "G#{}", self.0)
    }
}
impl<K> Default for G<K> {
    fn default() -> Self {
        G(0, PhantomData)
    }
}
impl<K: GK> PartialEq for G<K> {
    fn eq(&self, o: &Self) -> bool {
        self.equal(o)
    }
}
impl<K: GK> Eq for G<K> {}
impl<K: GK> ConstantTimeEq for G<K> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from(self.equal(o) as u8)
    }
}
impl<K: GK> ConditionallySelectable for G<K> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.unwrap_u8() == 1 {
            *b
        } else {
            *a
        }
    }
}
impl<K: GK> Neg for G<K> {
    type Output = Self;
    fn neg(self) -> Self {
        Self::zero().comb(self, true)
    }
}
macro_rules! gops {
    ($tr:ident,$f:ident,$tra:ident,$fa:ident,$rhs:ty,$e:expr) => {
        impl<K: GK> $tr<$rhs> for G<K> {
            type Output = Self;
            fn $f(self, o: $rhs) -> Self {
                let f: fn(Self, $rhs) -> Self = $e;
                f(self, o)
            }
        }
        impl<'a, K: GK> $tr<&'a $rhs> for G<K> {
            type Output = Self;
            fn $f(self, o: &'a $rhs) -> Self {
                let f: fn(Self, $rhs) -> Self = $e;
                f(self, *o)
            }
        }
        impl<K: GK> $tra<$rhs> for G<K> {
            fn $fa(&mut self, o: $rhs) {
                let f: fn(Self, $rhs) -> Self = $e;
                *self = f(*self, o)
            }
        }
        impl<'a, K: GK> $tra<&'a $rhs> for G<K> {
            fn $fa(&mut self, o: &'a $rhs) {
                let f: fn(Self, $rhs) -> Self = $e;
                *self = f(*self, *o)
            }
        }
    };
}
gops!(Add, add, AddAssign, add_assign, G<K>, |a, b| a.comb(b, false));
gops!(Sub, sub, SubAssign, sub_assign, G<K>, |a, b| a.comb(b, true));
gops!(Mul, mul, MulAssign, mul_assign, S<K>, |a, b| a.scale(b));

impl<K: GK> Curve for G<K> {
    type Scalar = S<K>;
    type Base = S<K::Other>;
    const BETA_SCALAR: Self::Scalar = <S<K> as Field>::BETA;
    const BETA_BASE: Self::Base = <S<K::Other> as Field>::BETA;
    fn zero() -> Self {
        Self::default()
    }
    fn one() -> Self {
        G::fresh("one")
    }
    fn is_zero(&self) -> Choice {
        Choice::from(self.inf() as u8)
    }
    /// every 32-byte string decodes to a new independent element
    fn from_bytes(b: &[u8; 32]) -> CtOption<Self> {
        CtOption::new(G::fresh(&format!("R{}", bytes_to_hex(b))), Choice::from(1))
    }
    fn to_bytes(&self) -> [u8; 32] {
        unimplemented!("G::to_bytes")
    }
    fn get_xy(&self) -> CtOption<(Self::Base, Self::Base)> {
        if prf().on {
            // identity exactly when the shadow is: the point is absorbed, not compared
            if bool::from(self.shadow().is_zero()) {
                garena::<K>().coords.push(("O".into(), self.0));
                return CtOption::new((S::zero(), S::zero()), Choice::from(0));
            }
            return CtOption::new((self.coord('x'), self.coord('y')), Choice::from(1));
        }
        if self.inf() {
            return CtOption::new((S::zero(), S::zero()), Choice::from(0));
        }
        CtOption::new((self.coord('x'), self.coord('y')), Choice::from(1))
    }
    fn get_xyz(&self) -> (Self::Base, Self::Base, Self::Base) {
        if self.inf() {
            (S::zero(), S::one(), S::zero())
        } else {
            (self.coord('x'), self.coord('y'), S::one())
        }
    }
    fn from_xy(_: Self::Base, _: Self::Base) -> CtOption<Self> {
        unimplemented!("G::from_xy")
    }
    fn from_xy_unchecked(_: Self::Base, _: Self::Base) -> Self {
        unimplemented!("G::from_xy_unchecked")
    }
    fn double(&self) -> Self {
        self.comb(*self, false)
    }
    fn b() -> Self::Base {
        S::constant(<K::RC as Curve>::b())
    }
    fn is_on_curve(&self) -> bool {
        true
    }
}

/// Curves usable in group-level scenarios.
pub trait HG: Curve<Base = <Self as HG>::B, Scalar = <Self as HG>::Sc> {
    type B: HF;
    type Sc: HF;
    /// named independent element (real: a fixed pseudo-random multiple of the generator)
    fn basis(name: &str) -> Self;
    /// textual form of an element
    fn grepr(&self) -> String;
}
fn real_basis<C: Curve>(name: &str) -> C {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in name.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100000001b3);
    }
    if name == "one" {
        return C::one();
    }
    rmul(C::one(), C::Scalar::from_u128(((h as u128) << 64) | (h.rotate_left(23) as u128 ^ 0x5555)))
}
fn real_repr<C: Curve>(p: &C) -> String {
    let xy = p.get_xy();
    if bool::from(xy.is_none()) {
        return "O".into();
    }
    let (x, y) = xy.unwrap();
    format!("{},{}", bytes_to_hex(&x.to_bytes()), bytes_to_hex(&y.to_bytes()))
}
impl HG for Ec0 {
    type B = halo::Fq;
    type Sc = halo::Fp;
    fn basis(n: &str) -> Self {
        real_basis(n)
    }
    fn grepr(&self) -> String {
        real_repr(self)
    }
}
impl HG for Ec1 {
    type B = halo::Fp;
    type Sc = halo::Fq;
    fn basis(n: &str) -> Self {
        real_basis(n)
    }
    fn grepr(&self) -> String {
        real_repr(self)
    }
}
impl<K: GK> HG for G<K> {
    type B = S<K::Other>;
    type Sc = S<K>;
    fn basis(n: &str) -> Self {
        G::fresh(n)
    }
    fn grepr(&self) -> String {
        let m = self.lc();
        let g = garena::<K>();
        m.iter().map(|(k, v)| format!("{}*#{}", g.basis[*k as usize], v)).collect::<Vec<_>>().join("+")
    }
}
