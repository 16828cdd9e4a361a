//! Native replays: the real code on honest and faulted proofs, next to an independent evaluation
//! of the documented equations.  Reports `case NAME code=<bool|panic> spec=<bool>`.
use crate::group::*;
use crate::proofs::mk_opening;
use crate::rec::*;
use crate::rescue::{squeezed, Rescue};
use crate::scn::*;
use crate::sym::*;
use crate::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Fld<C> = <C as Curve>::Scalar;

/// the share of the cases this process does
static PART: std::sync::Mutex<(usize, usize, usize)> = std::sync::Mutex::new((0, 1, 0));
fn share(args: &[String]) {
    if let Some(p) = args.iter().find_map(|a| a.strip_prefix("part=")) {
        let (a, b) = p.split_once('/').unwrap();
        *PART.lock().unwrap() = (a.parse().unwrap(), b.parse().unwrap(), 0);
    }
}
fn mine() -> bool {
    let mut p = PART.lock().unwrap();
    p.2 += 1;
    (p.2 - 1) % p.1 == p.0
}

pub struct Tam {
    pub kind: u8,
    pub n: usize,
    pub cnt: [usize; 2],
}
pub static TAM: std::sync::Mutex<Tam> = std::sync::Mutex::new(Tam { kind: 0, n: 0, cnt: [0, 0] });
/// counts the call; true when this call is to be faulted
pub fn hit(kind: u8) -> bool {
    let mut t = TAM.lock().unwrap();
    let c = t.cnt[kind as usize - 1];
    t.cnt[kind as usize - 1] += 1;
    t.kind == kind && t.n == c
}
fn set(kind: u8, n: usize) {
    *TAM.lock().unwrap() = Tam { kind, n, cnt: [0, 0] };
}
fn counts() -> [usize; 2] {
    TAM.lock().unwrap().cnt
}
fn guard<T>(f: impl FnOnce() -> T) -> Option<T> {
    catch_unwind(AssertUnwindSafe(f)).ok()
}
fn report(case: &str, code: Option<bool>, spec: bool) {
    let c = match code {
        Some(b) => b.to_string(),
        None => "panic".into(),
    };
    note("case", format!("{} code={} spec={}", case, c, spec));
}
fn bpoly<F: Field>(x: F, roots: &[F]) -> F {
    let k = roots.len();
    let mut r = F::one();
    let mut p = x;
    for m in 0..k {
        let c = roots[k - 1 - m];
        r = r * (c.invert().unwrap() + c * p);
        p = p * p;
    }
    r
}
fn roots<F: Field>(packed: &[F]) -> Option<Vec<F>> {
    packed.iter().map(|v| halo::get_challenge_scalar::<F, F>(*v).sqrt().to_option()).collect()
}
/// the coefficients of the folded generator
fn scoef<F: Field>(i: usize, roots: &[F]) -> F {
    let k = roots.len();
    let mut r = F::one();
    for m in 0..k {
        let c = roots[k - 1 - m];
        r = r * if i >> m & 1 == 1 { c } else { c.invert().unwrap() };
    }
    r
}
/// the equations of an opening proof
fn ip_spec<C: Curve>(p: &MultiPolynomialOpening<C>, inst: &[(C, Fld<C>, Fld<C>)], packed: &[Fld<C>]) -> bool {
    let rs = match roots(packed) {
        Some(r) => r,
        None => return false,
    };
    for (j, (cm, v, x)) in inst.iter().enumerate() {
        let (mut cm, mut v) = (*cm, *v);
        for (i, r) in p.rounds.iter().enumerate() {
            let e = rs[i] * rs[i];
            let ei = e.invert().unwrap();
            cm = cm + r.L[j] * e + r.R[j] * ei;
            v = v + r.l[j] * e + r.r[j] * ei;
        }
        if cm != p.g * p.a[j] || v != p.a[j] * bpoly(*x, &rs) {
            return false;
        }
    }
    true
}
fn each_ip<C: Curve>(p: &MultiPolynomialOpening<C>, f: &mut dyn FnMut(String, MultiPolynomialOpening<C>)) {
    let o = <Fld<C> as Field>::one();
    let e = C::one();
    for i in 0..p.rounds.len() {
        for j in 0..p.a.len() {
            for w in 0..4 {
                let mut q = p.clone();
                let r = &mut q.rounds[i];
                match w {
                    0 => r.L[j] = r.L[j] + e,
                    1 => r.R[j] = r.R[j] + e,
                    2 => r.l[j] = r.l[j] + o,
                    _ => r.r[j] = r.r[j] + o,
                }
                f(format!("{}{}_{}+1", ["L", "R", "l", "r"][w], i, j), q);
            }
        }
    }
    for j in 0..p.a.len() {
        let mut q = p.clone();
        q.a[j] = q.a[j] + o;
        f(format!("a{}+1", j), q);
        let mut q = p.clone();
        q.a[j] = -q.a[j];
        f(format!("a{}neg", j), q);
    }
    let mut q = p.clone();
    q.g = q.g + e;
    f("g+1".into(), q);
    let mut q = p.clone();
    q.g = -q.g;
    f("gneg".into(), q);
}

/// k, instance descriptions: opening proofs
pub fn ipa<C: HG>(args: &[String])
where
    <C as HG>::Sc: HF,
{
    share(args);
    let k: usize = args[0].parse().unwrap();
    let gens: Vec<C> = bases("G", 1 << k);
    let polys: Vec<(bool, Vec<Fld<C>>, Fld<C>)> = args[1..]
        .iter()
        .filter(|a| !a.starts_with("part="))
        .cloned()
        .collect::<Vec<String>>()
        .iter()
        .enumerate()
        .map(|(j, s)| {
            let l: usize = s[1..].parse().unwrap();
            (s.starts_with('R'), ins::<<C as HG>::Sc>(&format!("a{}_", j), l), <C as HG>::Sc::input(&format!("x{}", j)))
        })
        .collect();
    let open: Vec<(C, Fld<C>, Fld<C>, bool)> = polys
        .iter()
        .map(|(re, v, x)| {
            let off = if *re { (1 << k) - v.len() } else { 0 };
            let mut c = C::zero();
            let mut o = <Fld<C> as Field>::zero();
            for (i, a) in v.iter().enumerate() {
                c = c + gens[off + i] * *a;
                o = o + *a * x.pow(&[(off + i) as u64, 0, 0, 0]);
            }
            (c, o, *x, *re)
        })
        .collect();
    let prove = || {
        let inst: Vec<_> = open.iter().zip(&polys).map(|(o, p)| (mk_opening(o.0, o.1, o.2, o.3), &p.1[..])).collect();
        guard(|| MultiPolynomialOpening::new_proof(&mut Rescue::<C::Base>::new(), &inst, &gens, k).0)
    };
    let check = |case: String, p: &MultiPolynomialOpening<C>, open: &[(C, Fld<C>, Fld<C>, bool)]| {
        if case != "none" && !case.starts_with("multiexp") && !case.starts_with("inner") && !mine() {
            return None;
        }
        let inst: Vec<_> = open.iter().map(|o| mk_opening(o.0, o.1, o.2, o.3)).collect();
        let r = guard(|| p.verify_proof(&mut Rescue::<C::Base>::new(), &inst, k));
        match r {
            Some((ok, packed, g, forks)) => {
                let s: Vec<_> = open.iter().map(|o| (o.0, o.1, o.2)).collect();
                report(&case, Some(ok), ip_spec(p, &s, &packed));
                report(&format!("{}:g", case), Some(g == p.g && packed.len() == k && forks.len() == k), true);
                Some(packed)
            }
            None => {
                report(&case, None, false);
                None
            }
        }
    };
    set(0, 0);
    let honest = match prove() {
        Some(h) => h,
        None => return report("prover", None, true),
    };
    let n = counts();
    let packed = check("none".into(), &honest, &open);
    for kind in 0..2 {
        for i in 0..n[kind] {
            if !mine() {
                continue;
            }
            set(kind as u8 + 1, i);
            let p = prove();
            set(0, 0);
            if let Some(p) = p {
                check(format!("{}{}", ["multiexp", "inner"][kind], i), &p, &open);
            }
        }
    }
    each_ip(&honest, &mut |c, p| {
        check(c, &p, &open);
    });
    for j in 0..open.len() {
        let mut o = open.clone();
        o[j].0 = o[j].0 + C::one();
        check(format!("P{}+1", j), &honest, &o);
        let mut o = open.clone();
        o[j].1 = o[j].1 + <Fld<C> as Field>::one();
        check(format!("v{}+1", j), &honest, &o);
        let mut o = open.clone();
        o[j].2 = o[j].2 + <Fld<C> as Field>::one();
        check(format!("x{}+1", j), &honest, &o);
        // commitments and values solved for: every equation holds
        if let Some(rs) = packed.as_ref().and_then(|p| roots(p)) {
            let one = <Fld<C> as Field>::one();
            let zero = <Fld<C> as Field>::zero();
            for (w, a) in [("+1", honest.a[j] + one), ("zero", zero), ("one", one), ("neg", -honest.a[j]), ("same", honest.a[j])].iter() {
                let mut p = honest.clone();
                p.a[j] = *a;
                let (mut cm, mut v) = (p.g * p.a[j], p.a[j] * bpoly(open[j].2, &rs));
                for (i, r) in p.rounds.iter().enumerate() {
                    let e = rs[i] * rs[i];
                    let ei = e.invert().unwrap();
                    cm = cm - r.L[j] * e - r.R[j] * ei;
                    v = v - r.l[j] * e - r.r[j] * ei;
                }
                for (f, c, u) in [("", cm, v), (":v+1", cm, v + one), (":vneg", cm, -v), (":vzero", cm, zero),
                                  (":P+1", cm + C::one(), v), (":Pneg", -cm, v), (":Pzero", C::zero(), v), (":Pendo", cm * C::BETA_SCALAR, v)].iter() {
                    let mut o = open.clone();
                    o[j].0 = *c;
                    o[j].1 = *u;
                    check(format!("solved{}{}{}", j, w, f), &p, &o);
                }
            }
        }
    }
}

struct Case<C: Curve> {
    proof: Proof<C>,
    old: Leftovers<C>,
    inputs: Vec<Fld<C>>,
    kc: Option<C>,
}

/// k, circuit, None|Some: whole proofs
pub fn proof<C: HG>(args: &[String])
where
    <C as HG>::Sc: HF,
{
    type S<C> = <C as HG>::Sc;
    share(args);
    let k: usize = args[0].parse().unwrap();
    let ps = params::<C>(k, false);
    let pc = Cir::<S<C>>::new(&args[1], true);
    let vc = Cir::<S<C>>::new(&args[1], false);
    set(0, 0);
    let old = old_leftovers(&ps, &vc, "sym");
    set(0, 0);
    let prove = || guard(|| Proof::new::<_, Basic>(&ps, &pc, &old).unwrap().0);
    let honest = match prove() {
        Some(h) => h,
        None => return report("prover", None, true),
    };
    let n = counts();
    let kcom = |inputs: &[S<C>]| {
        let mut kcom = C::zero();
        for (i, v) in kpoly(&vc, inputs) {
            kcom = kcom + ps.generators[i] * v;
        }
        kcom
    };
    let check = |case: String, c: &Case<C>| {
        if !case.starts_with("multiexp") && !case.starts_with("inner") && !mine() {
            return;
        }
        squeezed();
        let r = guard(|| c.proof.verify::<_, Basic>(&c.old, &ps, &vc, &c.inputs, c.kc).unwrap());
        let sq = squeezed();
        let (ok, lv, d, forks) = match r {
            Some(r) => r,
            None => return report(&case, None, false),
        };
        let p = &c.proof;
        let small = |b: &Vec<u8>| <S<C> as Field>::from_u128(u128::from_le_bytes(core::array::from_fn(|i| b[i])) | 1 << 127);
        let packed = &lv.challenges_sq_packed_new;
        let z = sq.iter().map(|b| small(b)).find(|v| *v != d.x && *v != d.y_cur && *v != d.y_new && !packed.contains(v));
        let (z, rs, ro) = match (z, roots(packed), roots(&c.old.challenges_sq_packed_new)) {
            (Some(z), Some(r), Some(o)) => (halo::get_challenge_scalar::<S<C>, S<C>>(z), r, o),
            _ => return report(&case, Some(ok), false),
        };
        let kcm = c.kc.unwrap_or(kcom(&c.inputs));
        let mut ky = <S<C> as Field>::zero();
        for (i, v) in kpoly(&vc, &c.inputs) {
            ky = ky + v * d.y_cur.pow(&[i as u64, 0, 0, 0]);
        }
        let gx = bpoly(d.x, &ro);
        let mut cm = C::zero();
        for t in [p.r_commitment, c.old.s_new_commitment, p.s_cur_commitment, p.t_positive_commitment, p.t_negative_commitment, p.s_new_commitment, c.old.g_new] {
            cm = cm * z + t;
        }
        let mut v = <S<C> as Field>::zero();
        for t in [p.rx_opening, p.sx_old_opening, p.sx_cur_opening, p.tx_positive_opening, p.tx_negative_opening, p.sx_new_opening, gx] {
            v = v * z + t;
        }
        let inst = [
            (cm, v, d.x),
            (p.r_commitment, p.rxy_opening, d.x * d.y_cur),
            (p.c_commitment, p.sx_old_opening, c.old.y_new),
            (p.c_commitment + kcm * z, p.sx_cur_opening + ky * z, d.y_cur),
            (p.c_commitment, p.sx_new_opening, d.y_new),
        ];
        report(&case, Some(ok), ip_spec(&p.inner_product, &inst, packed));
        let out = lv.s_new_commitment == p.s_new_commitment
            && lv.y_new == d.y_new
            && lv.g_new == p.inner_product.g
            && packed.len() == k
            && forks.len() == k;
        report(&format!("{}:leftovers", case), Some(out), true);
        let out = d.y_old == c.old.y_new
            && d.ky_opening == ky
            && d.tx_positive_opening == p.tx_positive_opening
            && d.tx_negative_opening == p.tx_negative_opening
            && d.sx_cur_opening == p.sx_cur_opening
            && d.rx_opening == p.rx_opening
            && d.rxy_opening == p.rxy_opening
            && d.challenges_sq_packed_old == c.old.challenges_sq_packed_new
            && d.gx_old_opening == gx
            && &d.challenges_sq_packed_new == packed
            && d.b_x == bpoly(d.x, &rs)
            && d.b_xy == bpoly(d.x * d.y_cur, &rs)
            && d.b_y_old == bpoly(d.y_old, &rs)
            && d.b_y_cur == bpoly(d.y_cur, &rs)
            && d.b_y_new == bpoly(d.y_new, &rs);
        report(&format!("{}:deferred", case), Some(out), true);
    };
    let inputs = pc.inputs();
    let base = |proof: &Proof<C>| Case { proof: proof.clone(), old: old.clone(), inputs: inputs.clone(), kc: if args[2] == "Some" { Some(kcom(&inputs)) } else { None } };
    check("none".into(), &base(&honest));
    for kind in 0..2 {
        for i in 0..n[kind] {
            if !mine() {
                continue;
            }
            set(kind as u8 + 1, i);
            let p = prove();
            set(0, 0);
            if let Some(p) = p {
                check(format!("{}{}", ["multiexp", "inner"][kind], i), &base(&p));
            }
        }
    }
    each_ip(&honest.inner_product, &mut |c, ip| {
        let mut p = honest.clone();
        p.inner_product = ip;
        check(c, &base(&p));
    });
    let o = <S<C> as Field>::one();
    let e = C::one();
    macro_rules! bump {
        ($($f:ident $d:expr),*) => { $( { let mut p = honest.clone(); p.$f = p.$f + $d; check(format!("{}+1", stringify!($f)), &base(&p)); } )* };
    }
    bump!(r_commitment e, s_cur_commitment e, t_positive_commitment e, t_negative_commitment e, c_commitment e, s_new_commitment e,
          rx_opening o, rxy_opening o, sx_old_opening o, sx_cur_opening o, tx_positive_opening o, tx_negative_opening o, sx_new_opening o);
    for i in 0..inputs.len() {
        let mut c = base(&honest);
        c.inputs[i] = c.inputs[i] + o;
        check(format!("input{}+1", i), &c);
    }
    // every commitment is the identity, the claimed openings are free
    if args[2] == "Some" {
        let (z, f) = (C::zero(), <S<C> as Field>::zero());
        let mut c = base(&honest);
        let n = c.proof.inner_product.a.len();
        for r in c.proof.inner_product.rounds.iter_mut() {
            r.L = vec![z; n];
            r.R = vec![z; n];
            r.l = vec![f; n];
            r.r = vec![f; n];
        }
        c.proof.inner_product.a = vec![f; n];
        c.old.g_new = z;
        c.old.s_new_commitment = z;
        c.kc = Some(z);
        for v in [&mut c.proof.r_commitment, &mut c.proof.s_cur_commitment, &mut c.proof.t_positive_commitment, &mut c.proof.t_negative_commitment,
                  &mut c.proof.c_commitment, &mut c.proof.s_new_commitment] {
            *v = z;
        }
        for v in [&mut c.proof.rx_opening, &mut c.proof.rxy_opening, &mut c.proof.sx_old_opening, &mut c.proof.sx_cur_opening,
                  &mut c.proof.tx_positive_opening, &mut c.proof.tx_negative_opening, &mut c.proof.sx_new_opening] {
            *v = f;
        }
        // x only depends on the commitments
        let x = guard(|| c.proof.verify::<_, Basic>(&c.old, &ps, &vc, &c.inputs, c.kc).unwrap().2.gx_old_opening);
        if let Some(gx) = x {
            for i in 0..5 {
                let mut c = Case { proof: c.proof.clone(), old: c.old.clone(), inputs: c.inputs.clone(), kc: c.kc };
                c.proof.tx_negative_opening = f;
                c.proof.sx_new_opening = -gx;
                match i {
                    0 => {}
                    1 => c.proof.rxy_opening = o,
                    2 => c.proof.sx_old_opening = o,
                    3 => c.proof.sx_cur_opening = o,
                    _ => c.proof.sx_new_opening = f,
                }
                check(format!("empty{}", i), &c);
            }
        }
    }
    let mut c = base(&honest);
    c.kc = c.kc.map(|k| k + e);
    check("k+1".into(), &c);
    let mut c = base(&honest);
    c.old.s_new_commitment = c.old.s_new_commitment + e;
    check("old.s+1".into(), &c);
    let mut c = base(&honest);
    c.old.g_new = c.old.g_new + e;
    check("old.g+1".into(), &c);
    let mut c = base(&honest);
    c.old.y_new = c.old.y_new + o;
    check("old.y+1".into(), &c);
    for i in 0..k {
        let mut c = base(&honest);
        c.old.challenges_sq_packed_new[i] = <S<C> as Field>::from_u64(12);
        check(format!("old.c{}", i), &c);
    }
}

fn geo<F: Field>(x: F, n: usize) -> F {
    let mut r = F::zero();
    for i in (0..n).rev() {
        r = r * x + F::one();
    }
    r * x
}
pub fn deferred_eqs<F: Field>(d: &Deferred<F>, k: usize) -> bool {
    let n = 1u64 << (k - 2);
    let e = |x: F, n: u64| x.pow(&[n, 0, 0, 0]);
    let (xi, yi) = (d.x.invert().unwrap(), d.y_cur.invert().unwrap());
    let s = d.sx_cur_opening * e(xi, n) * e(d.y_cur, n) - (geo(d.x * d.y_cur, n as usize) + geo(d.x * yi, n as usize)) * e(d.x, n);
    let l = (s + d.rxy_opening * e(xi * yi, 3 * n - 1)) * d.rx_opening * e(xi, 3 * n) * d.x - d.ky_opening * e(d.y_cur, n);
    let r = d.tx_positive_opening * d.x + d.tx_negative_opening * e(xi, 4 * n);
    let (ro, rn) = match (roots(&d.challenges_sq_packed_old), roots(&d.challenges_sq_packed_new)) {
        (Some(a), Some(b)) => (a, b),
        _ => return false,
    };
    l == r
        && d.gx_old_opening == bpoly(d.x, &ro)
        && d.b_x == bpoly(d.x, &rn)
        && d.b_xy == bpoly(d.x * d.y_cur, &rn)
        && d.b_y_old == bpoly(d.y_old, &rn)
        && d.b_y_cur == bpoly(d.y_cur, &rn)
        && d.b_y_new == bpoly(d.y_new, &rn)
}

/// k, circuit: accumulated and deferred claims
pub fn claims<C: HG>(args: &[String])
where
    <C as HG>::Sc: HF,
{
    type S<C> = <C as HG>::Sc;
    share(args);
    let k: usize = args[0].parse().unwrap();
    let ps = params::<C>(k, false);
    let pc = Cir::<S<C>>::new(&args[1], true);
    let vc = Cir::<S<C>>::new(&args[1], false);
    let old = old_leftovers(&ps, &vc, "sym");
    let o = <S<C> as Field>::one();
    let leftovers = |case: String, l: &Leftovers<C>| {
        let r = guard(|| l.verify::<_, Basic>(&ps, &vc).unwrap());
        let spec = match (guard(|| sx_terms(&ps, &vc, l.y_new)), roots(&l.challenges_sq_packed_new)) {
            (Some(sx), Some(rs)) => {
                let (mut s, mut g) = (C::zero(), C::zero());
                for (i, c) in sx.iter().enumerate() {
                    s = s + ps.generators[i] * *c;
                }
                for i in 0..1 << k {
                    g = g + ps.generators[i] * scoef(i, &rs);
                }
                s == l.s_new_commitment && g == l.g_new
            }
            _ => return,
        };
        report(&case, r, spec);
    };
    leftovers("leftovers".into(), &old);
    let dummy = guard(|| Leftovers::dummy(&ps));
    match dummy {
        Some(d) => leftovers("leftovers:dummy".into(), &d),
        None => report("leftovers:dummy", None, true),
    }
    let mut l = old.clone();
    l.s_new_commitment = l.s_new_commitment + C::one();
    leftovers("leftovers:s+1".into(), &l);
    let mut l = old.clone();
    l.g_new = l.g_new + C::one();
    leftovers("leftovers:g+1".into(), &l);
    let mut l = old.clone();
    l.g_new = -l.g_new;
    leftovers("leftovers:gneg".into(), &l);
    let mut l = old.clone();
    l.s_new_commitment = -l.s_new_commitment;
    leftovers("leftovers:sneg".into(), &l);
    let mut l = old.clone();
    l.s_new_commitment = C::zero();
    leftovers("leftovers:szero".into(), &l);
    let mut l = old.clone();
    l.g_new = C::zero();
    leftovers("leftovers:gzero".into(), &l);
    for (w, m) in [("endo", C::BETA_SCALAR), ("double", o + o)].iter() {
        let mut l = old.clone();
        l.s_new_commitment = l.s_new_commitment * *m;
        leftovers(format!("leftovers:s{}", w), &l);
        let mut l = old.clone();
        l.g_new = l.g_new * *m;
        leftovers(format!("leftovers:g{}", w), &l);
    }
    let mut l = old.clone();
    l.y_new = -l.y_new;
    leftovers("leftovers:yneg".into(), &l);
    let mut l = old.clone();
    l.challenges_sq_packed_new.swap(0, 1);
    leftovers("leftovers:swap".into(), &l);
    let mut l = old.clone();
    l.y_new = l.y_new + o;
    leftovers("leftovers:y+1".into(), &l);
    for i in 0..k {
        let mut l = old.clone();
        l.challenges_sq_packed_new[i] = <S<C> as Field>::from_u64(12);
        leftovers(format!("leftovers:c{}", i), &l);
    }
    let deferred = |case: String, d: &Deferred<S<C>>| {
        report(&case, guard(|| d.verify(k)), deferred_eqs(d, k));
    };
    deferred("deferred:dummy".into(), &Deferred::dummy(k));
    let d = match guard(|| {
        let (p, _) = Proof::new::<_, Basic>(&ps, &pc, &old).unwrap();
        p.verify::<_, Basic>(&old, &ps, &vc, &pc.inputs(), None).unwrap().2
    }) {
        Some(d) => d,
        None => return report("prover", None, true),
    };
    deferred("deferred".into(), &d);
    macro_rules! bump {
        ($($f:ident),*) => { $( { let mut e = d.clone(); e.$f = e.$f + o; deferred(format!("deferred:{}+1", stringify!($f)), &e); } )* };
    }
    bump!(x, y_old, y_cur, y_new, ky_opening, tx_positive_opening, tx_negative_opening, sx_cur_opening, rx_opening, rxy_opening,
          gx_old_opening, b_x, b_xy, b_y_old, b_y_cur, b_y_new);
    macro_rules! twist {
        ($($f:ident),*) => { $( {
            let mut e = d.clone(); e.$f = -e.$f; deferred(format!("deferred:{}neg", stringify!($f)), &e);
            let mut e = d.clone(); e.$f = <S<C> as Field>::zero(); deferred(format!("deferred:{}zero", stringify!($f)), &e);
            let mut e = d.clone(); e.$f = e.$f * C::BETA_SCALAR; deferred(format!("deferred:{}endo", stringify!($f)), &e);
        } )* };
    }
    twist!(y_old, y_new, ky_opening, tx_positive_opening, tx_negative_opening, sx_cur_opening, rx_opening, rxy_opening,
           gx_old_opening, b_x, b_xy, b_y_old, b_y_cur, b_y_new);
    for i in 0..k {
        let mut e = d.clone();
        e.challenges_sq_packed_old[i] = <S<C> as Field>::from_u64(12);
        deferred(format!("deferred:co{}", i), &e);
        let mut e = d.clone();
        e.challenges_sq_packed_new[i] = <S<C> as Field>::from_u64(12);
        deferred(format!("deferred:cn{}", i), &e);
    }
    // every equation solved for one of its values
    let (l, r) = d.compute(k);
    let _ = (l, r);
    let mut e = d.clone();
    e.rx_opening = e.rx_opening + o;
    let n = 1u64 << (k - 2);
    let q = |x: S<C>, n: u64| x.pow(&[n, 0, 0, 0]);
    let (xi, yi) = (e.x.invert().unwrap(), e.y_cur.invert().unwrap());
    let s = e.sx_cur_opening * q(xi, n) * q(e.y_cur, n) - (geo(e.x * e.y_cur, n as usize) + geo(e.x * yi, n as usize)) * q(e.x, n);
    let l = (s + e.rxy_opening * q(xi * yi, 3 * n - 1)) * e.rx_opening * q(xi, 3 * n) * e.x - e.ky_opening * q(e.y_cur, n);
    e.tx_positive_opening = (l - e.tx_negative_opening * q(xi, 4 * n)) * xi;
    deferred("deferred:solved".into(), &e);
}
fn sx_terms<C: HG>(ps: &Params<C>, vc: &Cir<<C as HG>::Sc>, y: <C as HG>::Sc) -> Vec<<C as HG>::Sc> {
    ps.compute_sx::<_, Basic>(vc, y).unwrap()
}

/// k, circuit: which challenges of the verifier change with which message
pub fn bind<C: HG>(args: &[String])
where
    <C as HG>::Sc: HF,
{
    type S<C> = <C as HG>::Sc;
    share(args);
    let k: usize = args[0].parse().unwrap();
    let ps = params::<C>(k, false);
    let pc = Cir::<S<C>>::new(&args[1], true);
    let vc = Cir::<S<C>>::new(&args[1], false);
    let old = old_leftovers(&ps, &vc, "sym");
    let inputs = pc.inputs();
    let honest = match guard(|| Proof::new::<_, Basic>(&ps, &pc, &old).unwrap().0) {
        Some(h) => h,
        None => return report("prover", None, true),
    };
    let mut kcom = C::zero();
    for (i, v) in kpoly(&vc, &inputs) {
        kcom = kcom + ps.generators[i] * v;
    }
    let base = || Case { proof: honest.clone(), old: old.clone(), inputs: inputs.clone(), kc: Some(kcom) };
    let chals = |c: &Case<C>| {
        squeezed();
        let r = guard(|| c.proof.verify::<_, Basic>(&c.old, &ps, &vc, &c.inputs, c.kc).unwrap());
        let sq = squeezed();
        let (_, lv, d, _) = r?;
        let small = |b: &Vec<u8>| <S<C> as Field>::from_u128(u128::from_le_bytes(core::array::from_fn(|i| b[i])) | 1 << 127);
        let packed = &lv.challenges_sq_packed_new;
        let z = small(sq.get(3)?);
        let mut r = vec![d.y_cur, d.x, d.y_new, z];
        r.extend(packed.iter().cloned());
        Some(r)
    };
    let first = match chals(&base()) {
        Some(c) => c,
        None => return report("verifier", None, true),
    };
    let check = |case: String, from: usize, c: &Case<C>| {
        if !mine() {
            return;
        }
        if let Some(n) = chals(c) {
            for i in from..n.len() {
                report(&format!("{}->challenge{}", case, i), Some(n[i] != first[i]), true);
            }
        }
    };
    let o = <S<C> as Field>::one();
    let e = C::one();
    macro_rules! bump {
        ($($f:ident $d:ident $n:expr),*) => { $( { let mut c = base(); c.proof.$f = c.proof.$f + $d; check(stringify!($f).into(), $n, &c); } )* };
    }
    bump!(r_commitment e 0, s_cur_commitment e 1, t_positive_commitment e 1, t_negative_commitment e 1, c_commitment e 2, s_new_commitment e 3,
          rx_opening o 3, rxy_opening o 3, sx_old_opening o 3, sx_cur_opening o 3, tx_positive_opening o 3, tx_negative_opening o 3, sx_new_opening o 3);
    // the same messages with one coordinate kept: the opposite point, and the image under the
    // endomorphism (not where x is the first word of a sponge block, which the real
    // permutation ignores: see the finding of C14)
    macro_rules! scale {
        ($w:expr, $m:expr, $($f:ident $n:expr),*) => { $( { let mut c = base(); c.proof.$f = c.proof.$f * $m; if c.proof.$f != honest.$f { check(format!("{}:{}", stringify!($f), $w), $n, &c); } } )* };
    }
    scale!("neg", -o, r_commitment 0, s_cur_commitment 1, t_positive_commitment 1, t_negative_commitment 1, c_commitment 2, s_new_commitment 3,
           rx_opening 3, rxy_opening 3, sx_old_opening 3, sx_cur_opening 3, tx_positive_opening 3, tx_negative_opening 3, sx_new_opening 3);
    scale!("endo", C::BETA_SCALAR, r_commitment 0, t_positive_commitment 1, t_negative_commitment 1);
    let mut c = base();
    c.kc = c.kc.map(|k| -k);
    if c.kc != Some(kcom) {
        check("k:neg".into(), 0, &c);
    }
    each_ip(&honest.inner_product, &mut |n, ip| {
        if let Some(i) = n[1..].split('_').next().and_then(|s| s.parse::<usize>().ok()) {
            if n.contains('_') {
                let mut c = base();
                c.proof.inner_product = ip;
                check(n, 4 + i, &c);
            }
        }
    });
    for (w, m) in [("neg", -o)].iter() {
        for i in 0..honest.inner_product.rounds.len() {
            for j in 0..honest.inner_product.a.len() {
                for v in 0..4 {
                    let mut c = base();
                    let r = &mut c.proof.inner_product.rounds[i];
                    match v {
                        0 => r.L[j] = r.L[j] * *m,
                        1 => r.R[j] = r.R[j] * *m,
                        2 => r.l[j] = r.l[j] * *m,
                        _ => r.r[j] = r.r[j] * *m,
                    }
                    let h = &honest.inner_product.rounds[i];
                    if r.L[j] != h.L[j] || r.R[j] != h.R[j] || r.l[j] != h.l[j] || r.r[j] != h.r[j] {
                        check(format!("{}{}_{}:{}", ["L", "R", "l", "r"][v], i, j, w), 4 + i, &c);
                    }
                }
            }
        }
    }
    for i in 0..inputs.len() {
        let mut c = base();
        c.inputs[i] = c.inputs[i] + o;
        check(format!("ky(input{})", i), 3, &c);
    }
    let mut c = base();
    c.kc = c.kc.map(|k| k + e);
    check("k".into(), 0, &c);
    for i in 0..k {
        let mut c = base();
        c.old.challenges_sq_packed_new[i] = <S<C> as Field>::from_u64(if i == 0 { old.challenges_sq_packed_new[1].get_lower_128() as u64 } else { 12 });
        check(format!("gx(old.c{})", i), 3, &c);
    }
}
