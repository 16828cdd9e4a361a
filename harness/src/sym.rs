//! Symbolic ("concolic") field elements.  `S<K>` implements halo's `Field`
//! trait; every operation builds a term in a global hash-consed arena and also
//! carries a concrete shadow value in the real field, which decides branches.
//! Every branch decision on a non-constant term is logged as a path condition.
use halo::{Field, Fp, Fq};
use std::collections::HashMap;
use std::fmt;
use std::marker::PhantomData;
use std::ops::*;
use std::sync::{Mutex, MutexGuard, OnceLock};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const([u8; 32]),
    Var(String),
    Add(u32, u32),
    Sub(u32, u32),
    Neg(u32),
    Mul(u32, u32),
    Inv(u32),
    Sqrt(u32),
    Pow(u32, [u64; 4]),
    /// value obtained from the bytes of a term of the other field
    Cast(u32),
    /// low 128 bits of a term of field `.0` ('p' or 'q')
    Low128(char, u32),
    /// value imported by name, e.g. "x-coordinate of group element #i"
    Opaque(String, Vec<u32>),
}

/// Settings of the proof-level scenarios (all off elsewhere).
pub struct Prf {
    pub on: bool,
    /// decisions are taken by shadow value and not logged (identity tests on points being absorbed)
    pub quiet: bool,
    /// decisions whose shadow outcome is "different" are taken from the script (then: equal)
    pub force: bool,
    pub script: Vec<bool>,
    pub pos: usize,
    pub forced: Vec<String>,
    /// challenge packing: low 128 bits with bit 127 set -> squeeze number
    pub chal: Vec<(u128, usize)>,
}
pub static PRF: Mutex<Prf> =
    Mutex::new(Prf { on: false, quiet: false, force: false, script: vec![], pos: 0, forced: vec![], chal: vec![] });
pub fn prf() -> MutexGuard<'static, Prf> {
    PRF.lock().unwrap_or_else(|e| e.into_inner())
}

pub struct Arena<R> {
    pub nodes: Vec<Node>,
    pub vals: Vec<R>,
    pub map: HashMap<Node, u32>,
    /// (kind, a, b, outcome): kind 0: a == b ; kind 1: is_square(a)
    pub path: Vec<(u8, u32, u32, bool)>,
    pub pathset: HashMap<(u8, u32, u32), bool>,
    /// terms whose bytes/bits were inspected concretely
    pub concretized: Vec<u32>,
    pub bytes_prov: HashMap<[u8; 32], u32>,
    pub low_prov: HashMap<u128, (char, u32)>,
}

pub trait Kind: Copy + Clone + Send + Sync + Eq + PartialEq + fmt::Debug + Default + 'static {
    type Real: Field + HF;
    type Other: Kind;
    const NAME: char;
    fn cell() -> &'static OnceLock<Mutex<Arena<Self::Real>>>;
}
#[derive(Copy, Clone, PartialEq, Eq, Debug, Default)]
pub struct KP;
#[derive(Copy, Clone, PartialEq, Eq, Debug, Default)]
pub struct KQ;
static AP: OnceLock<Mutex<Arena<Fp>>> = OnceLock::new();
static AQ: OnceLock<Mutex<Arena<Fq>>> = OnceLock::new();
impl Kind for KP {
    type Real = Fp;
    type Other = KQ;
    const NAME: char = 'p';
    fn cell() -> &'static OnceLock<Mutex<Arena<Fp>>> {
        &AP
    }
}
impl Kind for KQ {
    type Real = Fq;
    type Other = KP;
    const NAME: char = 'q';
    fn cell() -> &'static OnceLock<Mutex<Arena<Fq>>> {
        &AQ
    }
}

/// Fields usable in scenarios: symbolic or real.
pub trait HF: Field {
    fn input(name: &str) -> Self;
    fn lit(v: u64) -> Self {
        Self::from_u64(v)
    }
    /// node id (symbolic only)
    fn id(&self) -> Option<u32> {
        None
    }
    fn real_bytes(&self) -> [u8; 32];
    fn tag() -> char;
}

/// the real field behind a scenario field
pub trait HasReal: HF {
    type R: HF;
}
impl HasReal for Fp {
    type R = Fp;
}
impl HasReal for Fq {
    type R = Fq;
}
impl<K: Kind> HasReal for S<K> {
    type R = K::Real;
}

pub fn inputs() -> &'static Mutex<HashMap<String, String>> {
    static M: OnceLock<Mutex<HashMap<String, String>>> = OnceLock::new();
    M.get_or_init(|| Mutex::new(HashMap::new()))
}
pub fn input_hex(name: &str) -> String {
    match inputs().lock().unwrap().get(name) {
        Some(s) => s.clone(),
        None => panic!("no input {name}"),
    }
}
pub fn hex_to_bytes(s: &str) -> [u8; 32] {
    let s = s.trim_start_matches("0x");
    let s = format!("{:0>64}", s);
    let mut out = [0u8; 32];
    for i in 0..32 {
        out[31 - i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    out
}
pub fn bytes_to_hex(b: &[u8; 32]) -> String {
    let mut s = String::from("0x");
    for x in b.iter().rev() {
        s.push_str(&format!("{:02x}", x));
    }
    s
}

impl HF for Fp {
    fn input(name: &str) -> Self {
        Fp::from_bytes(&hex_to_bytes(&input_hex(name))).unwrap()
    }
    fn real_bytes(&self) -> [u8; 32] {
        self.to_bytes()
    }
    fn tag() -> char {
        'p'
    }
}
impl HF for Fq {
    fn input(name: &str) -> Self {
        Fq::from_bytes(&hex_to_bytes(&input_hex(name))).unwrap()
    }
    fn real_bytes(&self) -> [u8; 32] {
        self.to_bytes()
    }
    fn tag() -> char {
        'q'
    }
}
impl<K: Kind> HF for S<K> {
    fn input(name: &str) -> Self {
        let v = <K::Real as HF>::input(name);
        S::mk(&mut arena::<K>(), Node::Var(name.to_string()), v)
    }
    fn id(&self) -> Option<u32> {
        Some(self.0)
    }
    fn real_bytes(&self) -> [u8; 32] {
        self.val().to_bytes()
    }
    fn tag() -> char {
        K::NAME
    }
}

#[derive(Copy, Clone)]
pub struct S<K>(pub u32, PhantomData<K>);

pub fn arena<K: Kind>() -> MutexGuard<'static, Arena<K::Real>> {
    K::cell()
        .get_or_init(|| {
            let mut a = Arena {
                nodes: vec![],
                vals: vec![],
                map: HashMap::new(),
                path: vec![],
                pathset: HashMap::new(),
                concretized: vec![],
                bytes_prov: HashMap::new(),
                low_prov: HashMap::new(),
            };
            for v in [
                K::Real::zero(),
                K::Real::one(),
                <K::Real as Field>::ALPHA,
                <K::Real as Field>::BETA,
            ] {
                let b = v.to_bytes();
                let n = Node::Const(b);
                let id = a.nodes.len() as u32;
                a.nodes.push(n.clone());
                a.vals.push(v);
                a.map.entry(n).or_insert(id);
            }
            Mutex::new(a)
        })
        .lock()
        .unwrap_or_else(|e| e.into_inner())
}

fn mkconst<R: Field>(a: &mut Arena<R>, v: R) -> u32 {
    let n = Node::Const(v.to_bytes());
    intern(a, n, v)
}
fn intern<R: Field>(a: &mut Arena<R>, n: Node, v: R) -> u32 {
    if let Some(&i) = a.map.get(&n) {
        return i;
    }
    let id = a.nodes.len() as u32;
    a.nodes.push(n.clone());
    a.vals.push(v);
    a.map.insert(n, id);
    id
}
fn is_const<R>(a: &Arena<R>, i: u32) -> bool {
    matches!(a.nodes[i as usize], Node::Const(_))
}

impl<K: Kind> S<K> {
    pub fn new_id(i: u32) -> Self {
        S(i, PhantomData)
    }
    fn mk(a: &mut Arena<K::Real>, n: Node, v: K::Real) -> Self {
        S(intern(a, n, v), PhantomData)
    }
    pub fn val(&self) -> K::Real {
        arena::<K>().vals[self.0 as usize]
    }
    pub fn constant(v: K::Real) -> Self {
        S(mkconst(&mut arena::<K>(), v), PhantomData)
    }
    pub fn opaque(name: &str, args: Vec<u32>, v: K::Real) -> Self {
        S::mk(&mut arena::<K>(), Node::Opaque(name.to_string(), args), v)
    }
    pub fn is_constant(&self) -> bool {
        is_const(&arena::<K>(), self.0)
    }
    fn bin(self, o: Self, op: u8) -> Self {
        let mut a = arena::<K>();
        let (x, y) = (self.0, o.0);
        let (vx, vy) = (a.vals[x as usize], a.vals[y as usize]);
        let v = match op {
            0 => vx + vy,
            1 => vx - vy,
            _ => vx * vy,
        };
        let cx = is_const(&a, x);
        let cy = is_const(&a, y);
        if cx && cy {
            return S(mkconst(&mut a, v), PhantomData);
        }
        let z = K::Real::zero();
        let one = K::Real::one();
        match op {
            0 => {
                if cx && vx == z {
                    return o;
                }
                if cy && vy == z {
                    return self;
                }
                let (x, y) = if x < y { (x, y) } else { (y, x) };
                S::mk(&mut a, Node::Add(x, y), v)
            }
            1 => {
                if cy && vy == z {
                    return self;
                }
                if x == y {
                    return S(0, PhantomData);
                }
                S::mk(&mut a, Node::Sub(x, y), v)
            }
            _ => {
                if cx && vx == z || cy && vy == z {
                    return S(0, PhantomData);
                }
                if cx && vx == one {
                    return o;
                }
                if cy && vy == one {
                    return self;
                }
                let (x, y) = if x < y { (x, y) } else { (y, x) };
                S::mk(&mut a, Node::Mul(x, y), v)
            }
        }
    }
    /// Records the outcome of a decision on terms.
    fn decide(kind: u8, x: u32, y: u32, out: bool) {
        let mut a = arena::<K>();
        if is_const(&a, x) && (kind == 1 || is_const(&a, y)) {
            return;
        }
        if kind == 0 && x == y {
            return;
        }
        let (x, y) = if kind == 0 && x > y { (y, x) } else { (x, y) };
        if a.pathset.insert((kind, x, y), out).is_none() {
            a.path.push((kind, x, y, out));
        }
    }
    /// a product of transcript challenges and their roots and inverses (assumed nonzero)
    fn challenge_monomial(a: &Arena<K::Real>, i: u32) -> bool {
        match &a.nodes[i as usize] {
            Node::Opaque(s, _) => s.starts_with("chal:") || s.starts_with("endo:"),
            Node::Mul(x, y) => Self::challenge_monomial(a, *x) && Self::challenge_monomial(a, *y),
            Node::Inv(x) | Node::Sqrt(x) | Node::Neg(x) => Self::challenge_monomial(a, *x),
            Node::Const(b) => b.iter().any(|v| *v != 0),
            _ => false,
        }
    }
    pub fn equal(&self, o: &Self) -> bool {
        let out = {
            let a = arena::<K>();
            a.vals[self.0 as usize] == a.vals[o.0 as usize]
        };
        let mut p = prf();
        if p.on {
            let a = arena::<K>();
            if p.quiet || self.0 == o.0 || is_const(&a, self.0) && is_const(&a, o.0) {
                return out;
            }
            if self.0 == 0 && Self::challenge_monomial(&a, o.0) || o.0 == 0 && Self::challenge_monomial(&a, self.0) {
                return false;
            }
            let (x, y) = (self.0.min(o.0), self.0.max(o.0));
            if let Some(r) = a.pathset.get(&(0, x, y)) {
                return *r;
            }
            if p.force && !out {
                let r = p.script.get(p.pos).cloned().unwrap_or(true);
                p.pos += 1;
                p.forced.push(format!("{}:{}:{}:{}", K::NAME, x, y, r));
                drop(a);
                Self::decide(0, x, y, r);
                return r;
            }
        }
        drop(p);
        Self::decide(0, self.0, o.0, out);
        out
    }
    fn note_concretized(&self) {
        let mut a = arena::<K>();
        if !is_const(&a, self.0) && !a.concretized.contains(&self.0) {
            let id = self.0;
            a.concretized.push(id);
        }
    }
}

impl<K: Kind> Default for S<K> {
    fn default() -> Self {
        S(0, PhantomData)
    }
}
impl<K: Kind> fmt::Debug for S<K> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "S{}#{}", K::NAME, self.0)
    }
}
impl<K: Kind> From<bool> for S<K> {
    fn from(b: bool) -> Self {
        S(b as u32, PhantomData)
    }
}
impl<K: Kind> PartialEq for S<K> {
    fn eq(&self, o: &Self) -> bool {
        self.equal(o)
    }
}
impl<K: Kind> Eq for S<K> {}
impl<K: Kind> ConstantTimeEq for S<K> {
    fn ct_eq(&self, o: &Self) -> Choice {
        Choice::from(self.equal(o) as u8)
    }
}
impl<K: Kind> ConditionallySelectable for S<K> {
    fn conditional_select(a: &Self, b: &Self, c: Choice) -> Self {
        if c.unwrap_u8() == 1 {
            *b
        } else {
            *a
        }
    }
}
macro_rules! ops {
    ($tr:ident,$f:ident,$tra:ident,$fa:ident,$op:expr) => {
        impl<K: Kind> $tr for S<K> {
            type Output = S<K>;
            fn $f(self, o: S<K>) -> S<K> {
                self.bin(o, $op)
            }
        }
        impl<'a, K: Kind> $tr<&'a S<K>> for S<K> {
            type Output = S<K>;
            fn $f(self, o: &'a S<K>) -> S<K> {
                self.bin(*o, $op)
            }
        }
        impl<K: Kind> $tra for S<K> {
            fn $fa(&mut self, o: S<K>) {
                *self = self.bin(o, $op)
            }
        }
        impl<'a, K: Kind> $tra<&'a S<K>> for S<K> {
            fn $fa(&mut self, o: &'a S<K>) {
                *self = self.bin(*o, $op)
            }
        }
    };
}
ops!(Add, add, AddAssign, add_assign, 0);
ops!(Sub, sub, SubAssign, sub_assign, 1);
ops!(Mul, mul, MulAssign, mul_assign, 2);
impl<K: Kind> Neg for S<K> {
    type Output = S<K>;
    fn neg(self) -> S<K> {
        let mut a = arena::<K>();
        let v = -a.vals[self.0 as usize];
        if is_const(&a, self.0) {
            return S(mkconst(&mut a, v), PhantomData);
        }
        if let Node::Neg(x) = a.nodes[self.0 as usize] {
            return S(x, PhantomData);
        }
        S::mk(&mut a, Node::Neg(self.0), v)
    }
}

impl<K: Kind> Field for S<K> {
    const NUM_BITS: u32 = <K::Real as Field>::NUM_BITS;
    const CAPACITY: u32 = <K::Real as Field>::CAPACITY;
    const S: u32 = <K::Real as Field>::S;
    const ALPHA: Self = S(2, PhantomData);
    const RESCUE_ALPHA: u64 = <K::Real as Field>::RESCUE_ALPHA;
    const RESCUE_INVALPHA: [u64; 4] = <K::Real as Field>::RESCUE_INVALPHA;
    const BETA: Self = S(3, PhantomData);

    fn is_zero(&self) -> Choice {
        Choice::from(self.equal(&Self::zero()) as u8)
    }
    fn from_u64(v: u64) -> Self {
        Self::constant(K::Real::from_u64(v))
    }
    fn from_u128(v: u128) -> Self {
        {
            let p = prf();
            if p.on {
                if let Some((_, n)) = p.chal.iter().find(|(w, _)| *w == v) {
                    return S::opaque(&format!("chal:{}", n), vec![], K::Real::from_u128(v));
                }
            }
        }
        for k in ['p', 'q'] {
            let prov = if k == 'p' {
                arena::<KP>().low_prov.get(&v).cloned()
            } else {
                arena::<KQ>().low_prov.get(&v).cloned()
            };
            if let Some((c, id)) = prov {
                let mut a = arena::<K>();
                return S::mk(&mut a, Node::Low128(c, id), K::Real::from_u128(v));
            }
        }
        Self::constant(K::Real::from_u128(v))
    }
    fn sqrt(&self) -> CtOption<Self> {
        let v = self.val().sqrt();
        let some = bool::from(v.is_some());
        Self::decide(1, self.0, 0, some);
        if some {
            let r = v.unwrap();
            let mut a = arena::<K>();
            let id = if is_const(&a, self.0) {
                mkconst(&mut a, r)
            } else {
                intern(&mut a, Node::Sqrt(self.0), r)
            };
            CtOption::new(S(id, PhantomData), Choice::from(1))
        } else {
            CtOption::new(Self::zero(), Choice::from(0))
        }
    }
    fn invert(&self) -> CtOption<Self> {
        let zero = self.equal(&Self::zero());
        if zero {
            return CtOption::new(Self::zero(), Choice::from(0));
        }
        let mut a = arena::<K>();
        let v = a.vals[self.0 as usize].invert().unwrap();
        let id = if is_const(&a, self.0) {
            mkconst(&mut a, v)
        } else if let Node::Inv(x) = a.nodes[self.0 as usize] {
            x
        } else {
            intern(&mut a, Node::Inv(self.0), v)
        };
        CtOption::new(S(id, PhantomData), Choice::from(1))
    }
    fn zero() -> Self {
        S(0, PhantomData)
    }
    fn one() -> Self {
        S(1, PhantomData)
    }
    fn square(&self) -> Self {
        self.bin(*self, 2)
    }
    fn to_bytes(&self) -> [u8; 32] {
        let b = self.val().to_bytes();
        if !self.is_constant() {
            let id = self.0;
            arena::<K>().bytes_prov.insert(b, id);
            self.note_concretized();
        }
        b
    }
    fn from_bytes(bytes: &[u8; 32]) -> CtOption<Self> {
        let v = K::Real::from_bytes(bytes);
        if !bool::from(v.is_some()) {
            return CtOption::new(Self::zero(), Choice::from(0));
        }
        let v = v.unwrap();
        let same = arena::<K>().bytes_prov.get(bytes).cloned();
        if let Some(id) = same {
            return CtOption::new(S(id, PhantomData), Choice::from(1));
        }
        let other = arena::<K::Other>().bytes_prov.get(bytes).cloned();
        if let Some(id) = other {
            let s = S::mk(&mut arena::<K>(), Node::Cast(id), v);
            return CtOption::new(s, Choice::from(1));
        }
        CtOption::new(Self::constant(v), Choice::from(1))
    }
    fn pow(&self, by: &[u64; 4]) -> Self {
        self.pow_vartime(by)
    }
    fn pow_vartime(&self, by: &[u64; 4]) -> Self {
        if self.is_constant() {
            return Self::constant(self.val().pow_vartime(by));
        }
        if by[1] == 0 && by[2] == 0 && by[3] == 0 && by[0] < (1 << 20) {
            let mut res = Self::one();
            for i in (0..20).rev() {
                res = res.square();
                if (by[0] >> i) & 1 == 1 {
                    res *= self;
                }
            }
            return res;
        }
        let v = self.val().pow_vartime(by);
        S::mk(&mut arena::<K>(), Node::Pow(self.0, *by), v)
    }
    fn get_lower_128(&self) -> u128 {
        let v = self.val().get_lower_128();
        if !self.is_constant() {
            let id = self.0;
            arena::<K>().low_prov.insert(v, (K::NAME, id));
            self.note_concretized();
        }
        v
    }
}
