//! Proof-level scenarios.  /repo/src/proofs.rs is compiled here a second time, against the same
//! halo traits and helpers, except that in symbolic runs the transcript is an ideal sponge, the
//! challenge derivation is opaque, and multiexp / polynomial multiplication are their definitions
//! (the real ones are judged by C10, C11, C13, C14).  In real runs everything is the real thing.
#![allow(dead_code, unused_imports, non_snake_case)]
#[path = "../group.rs"]
mod group;
#[path = "../rec.rs"]
mod rec;
#[path = "../sym.rs"]
mod sym;

mod scn;
mod tamper;

pub use halo::*;
pub use proofs::{Deferred, InnerProductRound, Leftovers, MultiPolynomialOpening, Params, PolynomialOpening, Proof};

pub mod fields {
    pub use halo::*;
}
pub mod curves {
    pub use halo::*;
}
pub mod circuits {
    pub use halo::*;
}
pub mod synthesis {
    pub use halo::*;
}
pub mod gadgets {
    pub use halo::*;
}
pub mod util {
    pub use crate::{compute_g_for_inner_product, compute_inner_product, get_challenge_scalar, multiexp, multiply_polynomials};
    pub use halo::*;
}
pub mod rescue;

pub mod proofs {
    #![allow(warnings)]
    include!("/repo/src/proofs.rs");

    pub fn mk_opening<C: Curve>(commitment: C, opening: C::Scalar, point: C::Scalar, right_edge: bool) -> PolynomialOpening<C> {
        PolynomialOpening { commitment, opening, point, right_edge }
    }
}

use std::any::Any;
pub fn cast<A: 'static + Copy, B: 'static + Copy>(a: A) -> Option<B> {
    (&a as &dyn Any).downcast_ref::<B>().cloned()
}
/// a symbolic value of another type
pub fn same<A: 'static + Copy, B: 'static + Copy>(a: A) -> B {
    cast::<A, B>(a).expect("unexpected field")
}

fn endo<K: sym::Kind, F2: Field>(x: sym::S<K>) -> F2 {
    use sym::*;
    if x.is_constant() {
        return F2::from_bytes(&halo::get_challenge_scalar::<K::Real, K::Real>(x.val()).to_bytes()).unwrap();
    }
    let v = halo::get_challenge_scalar::<K::Real, K::Real>(x.val());
    let r: S<K> = S::opaque(&format!("endo:{}", x.0), vec![x.0], v);
    same::<S<K>, F2>(r)
}
pub fn get_challenge_scalar<F1: Field, F2: Field>(challenge: F1) -> F2 {
    use sym::*;
    if let Some(x) = cast::<F1, S<KP>>(challenge) {
        return endo::<KP, F2>(x);
    }
    if let Some(x) = cast::<F1, S<KQ>>(challenge) {
        return endo::<KQ, F2>(x);
    }
    halo::get_challenge_scalar(challenge)
}
pub fn multiexp<F: Field, C: Curve<Scalar = F>>(coeffs: &[C::Scalar], bases: &[C]) -> C {
    if sym::prf().on {
        assert_eq!(coeffs.len(), bases.len());
        let mut acc = C::zero();
        for (c, b) in coeffs.iter().zip(bases.iter()) {
            acc = acc + (*b * *c);
        }
        return acc;
    }
    let r = halo::multiexp(coeffs, bases);
    if tamper::hit(1) {
        return r + C::one();
    }
    r
}
pub fn compute_inner_product<F: Field>(a: &[F], b: &[F]) -> F {
    let r = halo::compute_inner_product(a, b);
    if !sym::prf().on && tamper::hit(2) {
        return r + F::one();
    }
    r
}
pub fn compute_g_for_inner_product<F: Field, C: Curve<Scalar = F>>(generators: &[C], challenges_sq: &[F], allinv: F) -> C {
    if sym::prf().on {
        return multiexp(&halo::compute_g_coeffs_for_inner_product(challenges_sq, allinv), generators);
    }
    halo::compute_g_for_inner_product(generators, challenges_sq, allinv)
}
pub fn multiply_polynomials<F: Field>(a: Vec<F>, b: Vec<F>) -> Vec<F> {
    if sym::prf().on {
        let mut r = vec![F::zero(); a.len() + b.len() - 1];
        for (i, x) in a.iter().enumerate() {
            for (j, y) in b.iter().enumerate() {
                r[i + j] += *x * *y;
            }
        }
        return r;
    }
    halo::multiply_polynomials(a, b)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        eprintln!("PANIC {}", i);
    }));
    read_inputs();
    let rest = &args[5..];
    let symm = args[2] == "sym";
    sym::prf().on = symm;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (args[2].as_str(), args[3].as_str()) {
        ("sym", "p") => scn::run::<group::G<sym::KP>>(&args[4], rest),
        ("sym", "q") => scn::run::<group::G<sym::KQ>>(&args[4], rest),
        (_, "p") => scn::run::<Ec0>(&args[4], rest),
        (_, "q") => scn::run::<Ec1>(&args[4], rest),
        _ => panic!("bad mode"),
    }));
    if let Err(e) = &r {
        let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
        rec::note("panicmsg", m.unwrap_or_default().chars().take(200).collect::<String>());
    }
    rescue::dump();
    dump_coords();
    for f in sym::prf().forced.iter() {
        rec::note("forced", f);
    }
    println!(
        "{{\"panic\":{},{},\"arenas\":{{\"p\":{},\"q\":{}}}}}",
        r.is_err(),
        rec::dump_trace(),
        rec::dump_arena::<sym::KP>(),
        rec::dump_arena::<sym::KQ>()
    );
}
fn lcs<K: group::GK>() {
    let g = group::garena::<K>();
    let mut seen = std::collections::HashSet::new();
    for (n, i) in g.coords.iter() {
        if seen.insert((n.clone(), *i)) {
            let l = g.lcs[*i as usize].iter().map(|(k, v)| format!("{}*#{}", g.basis[*k as usize], v)).collect::<Vec<_>>().join("+");
            rec::note(&format!("coord:{}", n), l);
        }
    }
}
fn dump_coords() {
    lcs::<sym::KP>();
    lcs::<sym::KQ>();
}
fn read_inputs() {
    use std::io::Read;
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut m = sym::inputs().lock().unwrap();
    for l in s.lines() {
        let mut it = l.split_whitespace();
        if let (Some(a), Some(b)) = (it.next(), it.next()) {
            m.insert(a.to_string(), b.to_string());
        }
    }
}
