//! Entry points for the IR interpreter (and, through the shared library, for native replay).
#![allow(clippy::all)]
use halo::{get_challenge_scalar, Curve, Ec0, Ec1, Field, Fp, Fq};
use subtle::{Choice, ConditionallySelectable, ConstantTimeEq, CtOption};

pub mod wit;
#[cfg(feature = "claims")]
pub mod enc;
#[cfg(feature = "claims")]
pub mod rec;

fn put<T: ConditionallySelectable + Default>(r: CtOption<T>, o: &mut T, f: &mut u8) {
    *f = r.is_some().unwrap_u8();
    *o = T::default();
    if *f == 1 {
        *o = r.unwrap();
    }
}

macro_rules! ex { ($m:ident, $n:ident, ($($a:ident : $at:ty),*), $e:expr) => {
    #[export_name = concat!(stringify!($m), "_", stringify!($n))]
    pub extern "C" fn $n($($a: $at),*) { $e; }
} }

macro_rules! field {
    ($t:ty, $m:ident) => {
        pub mod $m {
            use super::*;
            type F = $t;
            macro_rules! bin { ($n:ident, $a:ident, $b:ident, $e:expr) => {
                #[export_name = concat!(stringify!($m), "_", stringify!($n))]
                pub extern "C" fn $n($a: &F, $b: &F, o: &mut F) { *o = $e; }
            } }
            macro_rules! asg { ($n:ident, $a:ident, $b:ident, $e:expr) => {
                #[export_name = concat!(stringify!($m), "_", stringify!($n))]
                pub extern "C" fn $n(a: &F, $b: &F, o: &mut F) { let mut $a = *a; $e; *o = $a; }
            } }
            macro_rules! un { ($n:ident, $a:ident, $e:expr) => {
                #[export_name = concat!(stringify!($m), "_", stringify!($n))]
                pub extern "C" fn $n($a: &F, o: &mut F) { *o = $e; }
            } }
            bin!(add_vv, a, b, *a + *b);
            bin!(add_vr, a, b, *a + b);
            bin!(add_rv, a, b, a + *b);
            bin!(add_rr, a, b, a + b);
            bin!(add_in, a, b, F::add(a, b));
            asg!(add_av, x, b, x += *b);
            asg!(add_ar, x, b, x += b);
            bin!(sub_vv, a, b, *a - *b);
            bin!(sub_vr, a, b, *a - b);
            bin!(sub_rv, a, b, a - *b);
            bin!(sub_rr, a, b, a - b);
            bin!(sub_in, a, b, F::sub(a, b));
            asg!(sub_av, x, b, x -= *b);
            asg!(sub_ar, x, b, x -= b);
            bin!(mul_vv, a, b, *a * *b);
            bin!(mul_vr, a, b, *a * b);
            bin!(mul_rv, a, b, a * *b);
            bin!(mul_rr, a, b, a * b);
            bin!(mul_in, a, b, F::mul(a, b));
            asg!(mul_av, x, b, x *= *b);
            asg!(mul_ar, x, b, x *= b);
            un!(neg_v, a, -*a);
            un!(neg_r, a, -a);
            un!(neg_in, a, F::neg(a));
            un!(double_in, a, F::double(a));
            un!(square_in, a, F::square(a));
            un!(square_tr, a, <F as Field>::square(a));
            ex!($m, zero, (o: &mut F), *o = F::zero());
            ex!($m, zero_tr, (o: &mut F), *o = <F as Field>::zero());
            ex!($m, default, (o: &mut F), *o = <F as Default>::default());
            ex!($m, one, (o: &mut F), *o = F::one());
            ex!($m, one_tr, (o: &mut F), *o = <F as Field>::one());
            ex!($m, alpha, (o: &mut F), *o = F::ALPHA);
            ex!($m, beta, (o: &mut F), *o = F::BETA);
            ex!($m, consts, (o: &mut [u64; 8]), {
                o[0] = F::NUM_BITS as u64; o[1] = F::CAPACITY as u64; o[2] = <F as Field>::S as u64; o[3] = F::RESCUE_ALPHA;
                let r = F::RESCUE_INVALPHA;
                o[4] = r[0]; o[5] = r[1]; o[6] = r[2]; o[7] = r[3];
            });
            ex!($m, ct_eq, (a: &F, b: &F, o: &mut u8), *o = a.ct_eq(b).unwrap_u8());
            ex!($m, eq, (a: &F, b: &F, o: &mut u8), *o = (a == b) as u8);
            ex!($m, ne, (a: &F, b: &F, o: &mut u8), *o = (a != b) as u8);
            ex!($m, is_zero, (a: &F, o: &mut u8), *o = Field::is_zero(a).unwrap_u8());
            ex!($m, select, (a: &F, b: &F, c: &u8, o: &mut F), *o = F::conditional_select(a, b, Choice::from(*c)));
            ex!($m, assign, (a: &F, b: &F, c: &u8, o: &mut F), { let mut x = *a; x.conditional_assign(b, Choice::from(*c)); *o = x });
            ex!($m, from_bool, (c: &u8, o: &mut F), *o = F::from(*c != 0));
            ex!($m, from_u64, (v: &u64, o: &mut F), *o = F::from(*v));
            ex!($m, from_u64_tr, (v: &u64, o: &mut F), *o = <F as Field>::from_u64(*v));
            ex!($m, from_u128, (v: &u128, o: &mut F), *o = <F as Field>::from_u128(*v));
            ex!($m, from_raw, (v: &[u64; 4], o: &mut F), *o = F::from_raw(*v));
            ex!($m, from_bytes, (v: &[u8; 32], o: &mut F, f: &mut u8), put(<F as Field>::from_bytes(v), o, f));
            ex!($m, from_wide, (v: &[u8; 64], o: &mut F), *o = F::from_bytes_wide(v));
            ex!($m, to_bytes, (a: &F, o: &mut [u8; 32]), *o = <F as Field>::to_bytes(a));
            ex!($m, into_bytes, (a: &F, o: &mut [u8; 32]), *o = <[u8; 32]>::from(a));
            ex!($m, lower128, (a: &F, o: &mut u128), *o = a.get_lower_128());
            ex!($m, invert, (a: &F, o: &mut F, f: &mut u8), put(a.invert(), o, f));
            ex!($m, sqrt, (a: &F, o: &mut F, f: &mut u8), put(a.sqrt(), o, f));
            ex!($m, pow, (a: &F, e: &[u64; 4], o: &mut F), *o = a.pow(e));
            ex!($m, pow_vartime, (a: &F, e: &[u64; 4], o: &mut F), *o = a.pow_vartime(e));
            ex!($m, batch3, (v: &mut [F; 3], o: &mut F), *o = F::batch_invert(v));
        }
    };
}
field!(Fp, fp);
field!(Fq, fq);

macro_rules! curve {
    ($t:ty, $m:ident) => {
        pub mod $m {
            use super::*;
            type C = $t;
            type B = <C as Curve>::Base;
            type S = <C as Curve>::Scalar;
            macro_rules! bin { ($n:ident, $a:ident, $b:ident, $e:expr) => {
                #[export_name = concat!(stringify!($m), "_", stringify!($n))]
                pub extern "C" fn $n($a: &C, $b: &C, o: &mut C) { *o = $e; }
            } }
            macro_rules! asg { ($n:ident, $a:ident, $b:ident, $e:expr) => {
                #[export_name = concat!(stringify!($m), "_", stringify!($n))]
                pub extern "C" fn $n(a: &C, $b: &C, o: &mut C) { let mut $a = *a; $e; *o = $a; }
            } }
            bin!(add_vv, a, b, *a + *b);
            bin!(add_vr, a, b, *a + b);
            bin!(add_rv, a, b, a + *b);
            bin!(add_rr, a, b, a + b);
            asg!(add_av, x, b, x += *b);
            asg!(add_ar, x, b, x += b);
            bin!(sub_vv, a, b, *a - *b);
            bin!(sub_vr, a, b, *a - b);
            bin!(sub_rv, a, b, a - *b);
            bin!(sub_rr, a, b, a - b);
            asg!(sub_av, x, b, x -= *b);
            asg!(sub_ar, x, b, x -= b);
            ex!($m, neg_v, (a: &C, o: &mut C), *o = -*a);
            ex!($m, neg_r, (a: &C, o: &mut C), *o = -a);
            ex!($m, double, (a: &C, o: &mut C), *o = Curve::double(a));
            ex!($m, zero, (o: &mut C), *o = <C as Curve>::zero());
            ex!($m, default, (o: &mut C), *o = <C as Default>::default());
            ex!($m, one, (o: &mut C), *o = <C as Curve>::one());
            ex!($m, b, (o: &mut B), *o = <C as Curve>::b());
            ex!($m, beta_scalar, (o: &mut S), *o = C::BETA_SCALAR);
            ex!($m, beta_base, (o: &mut B), *o = C::BETA_BASE);
            ex!($m, ct_eq, (a: &C, b: &C, o: &mut u8), *o = a.ct_eq(b).unwrap_u8());
            ex!($m, eq, (a: &C, b: &C, o: &mut u8), *o = (a == b) as u8);
            ex!($m, ne, (a: &C, b: &C, o: &mut u8), *o = (a != b) as u8);
            ex!($m, is_zero, (a: &C, o: &mut u8), *o = Curve::is_zero(a).unwrap_u8());
            ex!($m, on_curve, (a: &C, o: &mut u8), *o = a.is_on_curve() as u8);
            ex!($m, select, (a: &C, b: &C, c: &u8, o: &mut C), *o = C::conditional_select(a, b, Choice::from(*c)));
            ex!($m, get_xyz, (a: &C, x: &mut B, y: &mut B, z: &mut B), { let r = a.get_xyz(); *x = r.0; *y = r.1; *z = r.2; });
            ex!($m, get_xy, (a: &C, x: &mut B, y: &mut B, f: &mut u8), {
                let r = a.get_xy();
                *f = r.is_some().unwrap_u8();
                if *f == 1 { let v = r.unwrap(); *x = v.0; *y = v.1; }
            });
            ex!($m, from_xy, (x: &B, y: &B, o: &mut C, f: &mut u8), put(C::from_xy(*x, *y), o, f));
            ex!($m, from_xy_unchecked, (x: &B, y: &B, o: &mut C), *o = C::from_xy_unchecked(*x, *y));
            ex!($m, to_bytes, (a: &C, o: &mut [u8; 32]), *o = Curve::to_bytes(a));
            ex!($m, from_bytes, (v: &[u8; 32], o: &mut C, f: &mut u8), put(<C as Curve>::from_bytes(v), o, f));
            ex!($m, roundtrip, (a: &C, o: &mut C, f: &mut u8), put(<C as Curve>::from_bytes(&Curve::to_bytes(a)), o, f));
            ex!($m, reencode, (v: &[u8; 32], o: &mut C, f: &mut u8, w: &mut [u8; 32]), {
                let r = <C as Curve>::from_bytes(v);
                *f = r.is_some().unwrap_u8();
                *o = C::default();
                *w = [0; 32];
                if *f == 1 {
                    *o = r.unwrap();
                    *w = Curve::to_bytes(o);
                }
            });
            ex!($m, mul_vv, (a: &C, s: &S, o: &mut C), *o = *a * *s);
            ex!($m, mul_vr, (a: &C, s: &S, o: &mut C), *o = *a * s);
            ex!($m, mul_rv, (a: &C, s: &S, o: &mut C), *o = a * *s);
            ex!($m, mul_rr, (a: &C, s: &S, o: &mut C), *o = a * s);
            ex!($m, mul_av, (a: &C, s: &S, o: &mut C), { let mut x = *a; x *= *s; *o = x; });
            ex!($m, mul_ar, (a: &C, s: &S, o: &mut C), { let mut x = *a; x *= s; *o = x; });
        }
    };
}
curve!(Ec0, ec0);
curve!(Ec1, ec1);

#[export_name = "chal_pq"]
pub extern "C" fn chal_pq(c: &Fp, o: &mut Fq) { *o = get_challenge_scalar(*c) }
#[export_name = "chal_qp"]
pub extern "C" fn chal_qp(c: &Fq, o: &mut Fp) { *o = get_challenge_scalar(*c) }
#[export_name = "chal_pp"]
pub extern "C" fn chal_pp(c: &Fp, o: &mut Fp) { *o = get_challenge_scalar(*c) }
#[export_name = "chal_qq"]
pub extern "C" fn chal_qq(c: &Fq, o: &mut Fq) { *o = get_challenge_scalar(*c) }
macro_rules! mexp { ($m:ident, $c:ty, $s:ty, $n:literal) => {
    #[export_name = $n]
    pub extern "C" fn $m(co: *const $s, ba: *const $c, n: usize, o: &mut $c) {
        *o = halo::multiexp(unsafe { std::slice::from_raw_parts(co, n) }, unsafe { std::slice::from_raw_parts(ba, n) })
    }
} }
mexp!(mexp0, Ec0, Fp, "ec0_multiexp");
mexp!(mexp1, Ec1, Fq, "ec1_multiexp");
