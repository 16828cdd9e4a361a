//! Previous proofs whose discrete logarithms are all known, so that every equation can be met or
//! missed at will, given to the real verification circuit with the real gadgets.
use crate::*;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Flip {
    base: Vec<bool>,
}
/// new payload = complement of the old payload
impl<F: Field> RecursiveCircuit<F> for Flip {
    fn base_payload(&self) -> Vec<bool> {
        self.base.clone()
    }
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS, old: &[AllocatedBit], new: &[AllocatedBit]) -> Result<(), SynthesisError> {
        for (o, n) in old.iter().zip(new.iter()) {
            let lc = LinearCombination::zero() + o.get_variable() + n.get_variable() - CS::ONE;
            cs.enforce_zero(lc);
        }
        Ok(())
    }
}
struct Rng(u64);
impl Rng {
    fn u(&mut self) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        self.0
    }
    fn f<F: Field>(&mut self) -> F {
        let mut r = F::zero();
        for _ in 0..4 {
            r = r * F::from_u128(1 << 64) + F::from_u64(self.u());
        }
        r
    }
    /// a packed challenge whose scalar is a square
    fn ch<F: Field>(&mut self) -> F {
        loop {
            let v = F::from_u128((((self.u() as u128) << 64) | self.u() as u128) | (1 << 127));
            if bool::from(get_challenge_scalar::<F, F>(v).sqrt().is_some()) {
                return v;
            }
        }
    }
}
fn bpoly<F: Field>(x: F, roots: &[F]) -> F {
    let mut r = F::one();
    let mut x = x;
    for c in roots.iter().rev() {
        r = r * (c.invert().unwrap() + *c * x);
        x = x.square();
    }
    r
}
fn roots<F: Field>(p: &[F]) -> Vec<F> {
    p.iter().map(|v| get_challenge_scalar::<F, F>(*v).sqrt().unwrap()).collect()
}
fn absorb<F: Field, C: Curve<Base = F>>(t: &mut halo::rescue::Rescue<F>, p: C) {
    let (x, y) = if bool::from(p.is_zero()) { (F::zero(), F::zero()) } else { p.get_xy().unwrap() };
    t.absorb(x);
    t.absorb(y);
}
fn draw<F: Field, S: Field>(t: &mut halo::rescue::Rescue<F>) -> S {
    let b = t.squeeze().to_bytes();
    let mut v = 0u128;
    for i in (0..16).rev() {
        v = (v << 8) | b[i] as u128;
    }
    S::from_u128(v | (1 << 127))
}

/// runs one case: is the circuit satisfied?  `case` names what is broken ("" for nothing)
fn attempt<E1: Curve<Base = S>, E2: Curve<Base = F, Scalar = S>, F: HF, S: Field>(k: usize, case: &str, seed: u64) -> (bool, bool)
where
    E1: Curve<Scalar = F>,
{
    let mut g = Rng(0x9e3779b97f4a7c15 ^ seed);
    let one = S::one();
    let fone = F::one();
    let is = |s: &str| case == s;
    let pl = 1;
    let ps = params::<E2>(k, inputs_len(k, pl) + 2);
    let gens: Vec<S> = (0..ps.generators_xy.len()).map(|i| (S::one() + S::one()) * S::from_u64(3).pow(&[i as u64 + 1, 0, 0, 0])).collect();
    let pt = |s: S| E2::one() * s;
    let oldpay = vec![0xa6u8];
    let inner = Flip { base: (0..8).map(|i| (0xa6u8 >> i) & 1 == 1 && !is("base:payload") && !is("other")).collect() };
    let newpay = vec![if is("inner") { 0x58 } else { 0x59u8 }];

    // what the previous proof handed in
    let (dl_sold, dl_gold) = (g.f::<S>(), g.f::<S>());
    let l0 = Leftovers::<E2> {
        s_new_commitment: pt(dl_sold),
        y_new: g.ch(),
        g_new: pt(dl_gold),
        challenges_sq_packed_new: (0..k).map(|_| g.ch()).collect(),
    };
    let lmid = Leftovers::<E1> {
        s_new_commitment: E1::one() * g.f::<F>(),
        y_new: g.ch(),
        g_new: E1::one() * g.f::<F>(),
        challenges_sq_packed_new: (0..k).map(|_| g.ch()).collect(),
    };
    let (co, cn): (Vec<F>, Vec<F>) = ((0..k).map(|_| g.ch()).collect(), (0..k).map(|_| g.ch()).collect());
    let (x, yo, yc, yn): (F, F, F, F) = (g.ch(), g.ch(), g.ch(), g.ch());
    let (ro, rn) = (roots(&co), roots(&cn));
    let mut d0 = Deferred::<F> {
        x,
        y_old: yo,
        y_cur: yc,
        y_new: yn,
        ky_opening: F::zero(),
        tx_positive_opening: g.f(),
        tx_negative_opening: g.f(),
        sx_cur_opening: g.f(),
        rx_opening: g.f(),
        rxy_opening: g.f(),
        challenges_sq_packed_old: co,
        gx_old_opening: bpoly(x, &ro),
        challenges_sq_packed_new: cn,
        b_x: bpoly(x, &rn),
        b_xy: bpoly(x * yc, &rn),
        b_y_old: bpoly(yo, &rn),
        b_y_cur: bpoly(yc, &rn),
        b_y_new: bpoly(yn, &rn),
    };
    {
        let n = 1u64 << (k - 2);
        let (xi, yi) = (x.invert().unwrap(), yc.invert().unwrap());
        let p = |b: F, e: u64| b.pow(&[e, 0, 0, 0]);
        let mut sums = F::zero();
        for e in 1..=n {
            sums = sums + p(x * yc, e) + p(x * yi, e);
        }
        let s = d0.sx_cur_opening * p(xi, n) * p(yc, n) - sums * p(x, n);
        let lhs = (s + d0.rxy_opening * p(xi * yi, 3 * n - 1)) * d0.rx_opening * p(xi, 3 * n) * x;
        let rhs = d0.tx_positive_opening * x + d0.tx_negative_opening * p(xi, 4 * n);
        d0.ky_opening = (lhs - rhs) * p(yi, n);
    }
    macro_rules! bump {
        ($d:ident, $p:expr, $o:expr; $($f:ident),*) => { $( if is(concat!($p, stringify!($f))) { $d.$f = $d.$f + $o; } )* };
    }
    bump!(d0, "d0:", fone; x, y_old, y_cur, y_new, ky_opening, tx_positive_opening, tx_negative_opening, sx_cur_opening, rx_opening,
          rxy_opening, gx_old_opening, b_x, b_xy, b_y_old, b_y_cur, b_y_new);
    for i in 0..k {
        if is(&format!("d0:co{}", i)) {
            d0.challenges_sq_packed_old[i] = g.ch();
        }
        if is(&format!("d0:cn{}", i)) {
            d0.challenges_sq_packed_new[i] = g.ch();
        }
    }
    // the previous proof
    let mut bytes = oldpay.clone();
    bytes.extend(l0.to_bytes());
    bytes.extend(lmid.to_bytes());
    bytes.extend(d0.to_bytes());
    let mut dk = gens[1];
    for (i, b) in bytes.iter().enumerate() {
        for j in 0..8 {
            if (b >> j) & 1 == 1 {
                dk = dk + gens[2 + 8 * i + j];
            }
        }
    }
    let mut t = halo::rescue::Rescue::<F>::new();
    let mut com: Vec<S> = (0..6).map(|_| g.f()).collect(); // r s t+ t- c s_new
    let _ = &mut com;
    let o: Vec<S> = (0..9).map(|_| g.f()).collect(); // ky rx rxy sxo sxc tp tn sxn gxo
    absorb(&mut t, pt(dk));
    absorb(&mut t, pt(com[0]));
    let y_cur: S = draw(&mut t);
    for i in 1..4 {
        absorb(&mut t, pt(com[i]));
    }
    let x: S = draw(&mut t);
    absorb(&mut t, pt(com[4]));
    let y_new: S = draw(&mut t);
    absorb(&mut t, pt(com[5]));
    for v in o.iter() {
        absorb(&mut t, pt(*v));
    }
    let z: S = get_challenge_scalar::<S, S>(draw(&mut t));
    // the point the circuit's prover uses instead of the claimed one
    let mut lie = None;
    let (mut us, mut ug) = (dl_sold, dl_gold);
    for (nm, v, p) in [("s_old", &mut us, l0.s_new_commitment), ("g_old", &mut ug, l0.g_new)] {
        let n = match case.strip_prefix(nm) {
            Some(":+1") => *v + one,
            Some(":neg") => -*v,
            Some(":endo") => *v * E2::BETA_SCALAR,
            _ => continue,
        };
        *v = n;
        let (a, b) = (p.get_xy().unwrap(), pt(n).get_xy().unwrap());
        lie = Some(([a.0.to_bytes(), a.1.to_bytes()], [b.0.to_bytes(), b.1.to_bytes()]));
    }
    let horner = |v: &[S]| v[1..].iter().fold(v[0], |a, b| a * z + *b);
    let mut p = vec![horner(&[com[0], us, com[1], com[2], com[3], com[5], ug]), com[0], com[4], com[4] + dk * z, com[4]];
    let mut v = vec![horner(&[o[1], o[3], o[4], o[5], o[6], o[7], o[8]]), o[2], o[3], o[4] + o[0] * z, o[7]];
    let mut ip = MultiPolynomialOpening::<E2> { rounds: vec![], a: vec![], g: E2::zero() };
    let mut packed = vec![];
    let forks: Vec<u8> = (0..k).map(|i| i as u8 + 3).collect();
    for i in 0..k {
        let q: Vec<[S; 4]> = (0..5).map(|_| [g.f(), g.f(), g.f(), g.f()]).collect();
        for j in 0..5 {
            for w in q[j].iter() {
                absorb(&mut t, pt(*w));
            }
        }
        t.absorb(F::from_u64(forks[i] as u64));
        let c: S = draw(&mut t);
        packed.push(c);
        let u: S = get_challenge_scalar::<S, S>(c);
        let ui = u.invert().unwrap();
        for j in 0..5 {
            p[j] = p[j] + q[j][0] * u + q[j][1] * ui;
            v[j] = v[j] + q[j][2] * u + q[j][3] * ui;
        }
        ip.rounds.push(InnerProductRound {
            L: q.iter().map(|w| pt(w[0])).collect(),
            R: q.iter().map(|w| pt(w[1])).collect(),
            l: q.iter().map(|w| w[2]).collect(),
            r: q.iter().map(|w| w[3]).collect(),
        });
    }
    let dg: S = g.f();
    ip.g = pt(dg);
    let mut b = vec![];
    for j in 0..5 {
        let mut a = p[j] * dg.invert().unwrap();
        for (nm, m) in [("neg", -one), ("endo", E2::BETA_SCALAR), ("x2", one + one)] {
            if is(&format!("p{}:{}", j, nm)) {
                a = a * m;
            }
        }
        let mut w = v[j] * a.invert().unwrap();
        for (nm, m) in [("neg", -one), ("endo", E2::BETA_SCALAR), ("x2", one + one)] {
            if is(&format!("v{}:{}", j, nm)) {
                w = w * m;
            }
        }
        ip.a.push(a);
        b.push(w);
    }
    let proof = Proof::<E2> {
        r_commitment: pt(com[0]),
        s_cur_commitment: pt(com[1]),
        t_positive_commitment: pt(com[2]),
        t_negative_commitment: pt(com[3]),
        c_commitment: pt(com[4]),
        s_new_commitment: pt(com[5]),
        rx_opening: o[1],
        rxy_opening: o[2],
        sx_old_opening: o[3],
        sx_cur_opening: o[4],
        tx_positive_opening: o[5],
        tx_negative_opening: o[6],
        sx_new_opening: o[7],
        inner_product: ip,
    };
    let mut dnew = Deferred::<S> {
        x,
        y_old: l0.y_new,
        y_cur,
        y_new,
        ky_opening: o[0],
        tx_positive_opening: o[5],
        tx_negative_opening: o[6],
        sx_cur_opening: o[4],
        rx_opening: o[1],
        rxy_opening: o[2],
        challenges_sq_packed_old: l0.challenges_sq_packed_new.clone(),
        gx_old_opening: o[8],
        challenges_sq_packed_new: packed.clone(),
        b_x: b[0],
        b_xy: b[1],
        b_y_old: b[2],
        b_y_cur: b[3],
        b_y_new: b[4],
    };
    bump!(dnew, "d:", one; x, y_old, y_cur, y_new, ky_opening, tx_positive_opening, tx_negative_opening, sx_cur_opening, rx_opening,
          rxy_opening, gx_old_opening, b_x, b_xy, b_y_old, b_y_cur, b_y_new);
    // high bits of the packed challenges as well
    let top = S::from_u128(1 << 127);
    bump!(dnew, "dtop:", -top; x, y_old, y_cur, y_new);
    let mut lnew = Leftovers::<E2> { s_new_commitment: pt(com[5]), y_new, g_new: pt(dg), challenges_sq_packed_new: packed.clone() };
    bump!(lnew, "l:", one; y_new);
    bump!(lnew, "ltop:", -top; y_new);
    for i in 0..k {
        for (nm, e) in [("", one), ("top", -top)] {
            if is(&format!("d:co{}{}", i, nm)) {
                dnew.challenges_sq_packed_old[i] = dnew.challenges_sq_packed_old[i] + e;
            }
            if is(&format!("d:cn{}{}", i, nm)) {
                dnew.challenges_sq_packed_new[i] = dnew.challenges_sq_packed_new[i] + e;
            }
            if is(&format!("l:c{}{}", i, nm)) {
                lnew.challenges_sq_packed_new[i] = lnew.challenges_sq_packed_new[i] + e;
            }
        }
    }
    for (nm, q) in [("l:s", &mut lnew.s_new_commitment), ("l:g", &mut lnew.g_new)] {
        match case.strip_prefix(nm) {
            Some(":+1") => *q = *q + E2::one(),
            Some(":neg") => *q = -*q,
            Some(":endo") => *q = *q * E2::BETA_SCALAR,
            _ => {}
        }
    }
    let mut old = lmid.clone();
    if is("lmid:y") {
        old.y_new = old.y_new + fone;
    }
    if is("lmid:s") {
        old.s_new_commitment = -old.s_new_commitment;
    }
    if is("lmid:g") {
        old.g_new = -old.g_new;
    }
    for i in 0..k {
        if is(&format!("lmid:c{}", i)) {
            old.challenges_sq_packed_new[i] = old.challenges_sq_packed_new[i] + fone;
        }
    }
    let prev = real::recursion::mk_proof::<E2, E1>(proof, l0, lmid, d0, oldpay);
    let base = case.starts_with("base");
    let fresh = is("base:new");
    let zeros = vec![0u8; k];
    let c = real::recursion::mk_circuit::<E1, E2, _>(
        &ps,
        Some(base),
        &inner,
        if fresh { None } else { Some(&prev) },
        &newpay,
        Some(if fresh { &zeros } else { &forks }),
        Some(if fresh { Leftovers::dummy(&params::<E1>(k, 1)) } else { old }),
        Some(if fresh { Leftovers::dummy(&ps) } else { lnew }),
        Some(if fresh { Deferred::dummy(k) } else { dnew }),
    );
    *thin::LIE.lock().unwrap() = lie;
    let mut r: Rec<F> = Rec::new();
    let ok = match catch_unwind(AssertUnwindSafe(|| Basic::synthesize(&mut r, &c))) {
        Ok(Ok(())) => r.violations().is_empty(),
        Ok(Err(e)) => {
            eprintln!("ERROR {:?}", e);
            return (false, true);
        }
        Err(_) => return (false, true),
    };
    (ok, false)
}
pub fn cases(k: usize) -> Vec<(String, bool)> {
    let mut c: Vec<(String, bool)> = vec![("".into(), true), ("base:new".into(), true), ("base".into(), true), ("base:payload".into(), false), ("inner".into(), false), ("other".into(), true)];
    let mut no = |s: String| c.push((s, false));
    let fields = ["x", "y_old", "y_cur", "y_new", "ky_opening", "tx_positive_opening", "tx_negative_opening", "sx_cur_opening", "rx_opening",
        "rxy_opening", "gx_old_opening", "b_x", "b_xy", "b_y_old", "b_y_cur", "b_y_new"];
    for f in fields.iter() {
        no(format!("d0:{}", f));
        no(format!("d:{}", f));
    }
    for f in ["x", "y_old", "y_cur", "y_new"].iter() {
        no(format!("dtop:{}", f));
    }
    no("l:y_new".into());
    no("ltop:y_new".into());
    for i in 0..k {
        for f in ["d0:co", "d0:cn", "d:co", "d:cn", "l:c", "lmid:c"].iter() {
            no(format!("{}{}", f, i));
        }
        for f in ["d:co", "d:cn", "l:c"].iter() {
            no(format!("{}{}top", f, i));
        }
    }
    for n in ["s_old", "g_old", "l:s", "l:g"].iter() {
        for m in ["+1", "neg", "endo"].iter() {
            no(format!("{}:{}", n, m));
        }
    }
    for j in 0..5 {
        for m in ["neg", "endo", "x2"].iter() {
            no(format!("p{}:{}", j, m));
            no(format!("v{}:{}", j, m));
        }
    }
    for m in ["y", "s", "g"].iter() {
        no(format!("lmid:{}", m));
    }
    c
}
pub fn run<E1: Curve, E2: Curve<Base = <E1 as Curve>::Scalar>>(args: &[String]) -> String
where
    E1: Curve<Base = <E2 as Curve>::Scalar>,
    E1::Scalar: HF,
{
    let k: usize = args[0].parse().unwrap();
    let seed: u64 = args[1].parse().unwrap();
    let mut out = vec![];
    let all = cases(k);
    let pick: Vec<usize> = if args[2] == "list" {
        return format!("[{}]", all.iter().map(|(c, _)| format!("\"{}\"", c)).collect::<Vec<_>>().join(","));
    } else if let Some(l) = args[2].strip_prefix("pick:") {
        l.split(',').map(|x| x.parse().unwrap()).collect()
    } else if args[2] == "honest" {
        (0..6).collect()
    } else {
        let (i, n) = args[2].split_once('/').unwrap();
        let (i, n): (usize, usize) = (i.parse().unwrap(), n.parse().unwrap());
        (0..all.len()).filter(|c| c % n == i).collect()
    };
    for i in pick {
        let (c, want) = &all[i];
        let (ok, panicked) = attempt::<E1, E2, E1::Scalar, E2::Scalar>(k, c, seed);
        out.push(format!("[\"{}\",{},{},{}]", c, want, ok, panicked));
    }
    format!("[{}]", out.join(","))
}
