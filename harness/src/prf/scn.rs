//! Scenarios.
use crate::group::*;
use crate::proofs::mk_opening;
use crate::rec::*;
use crate::rescue::{forked, mark, Rescue};
use crate::sym::*;
use crate::*;

type Fld<C> = <C as HG>::Sc;

fn gout<C: HG>(k: &str, g: &C) {
    note(&format!("g:{}", k), g.grepr());
}
pub fn bases<C: HG>(p: &str, n: usize) -> Vec<C> {
    (0..n)
        .map(|i| {
            let nm = format!("{}{}", p, i);
            let g = C::basis(&nm);
            note(&format!("basis:{}", nm), g.grepr());
            g
        })
        .collect()
}
pub fn params<C: HG>(k: usize, known: bool) -> Params<C> {
    let d = 1 << k;
    let g = C::one();
    note("basis:one", g.grepr());
    let generators: Vec<C> = if known { (0..d).map(|i| pt::<C>(&format!("G{}", i))).collect() } else { bases::<C>("G", d) };
    let generators_xy = generators.iter().map(|g| g.get_xy().unwrap()).collect();
    Params { g, d, n: d / 4, k, generators, generators_xy }
}
/// a group element of known discrete logarithm (input `n`)
fn pt<C: HG>(n: &str) -> C {
    C::one() * Fld::<C>::input(n)
}
pub fn ins<F: HF>(p: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| F::input(&format!("{}{}", p, i))).collect()
}

/// Small circuits; witness from inputs w0, w1, ...
pub struct Cir<F> {
    kind: String,
    w: Option<Vec<F>>,
    c: Vec<F>,
}
fn nwit(kind: &str) -> usize {
    match kind {
        "cub" | "const" => 1,
        "lin" | "mul" => 2,
        k if k.starts_with("chain") => 3,
        k if k.starts_with("rep") => 2,
        _ => 0,
    }
}
fn ncoef(kind: &str) -> usize {
    match kind {
        "lin" => 2,
        "const" => 1,
        k if k.starts_with("chain") => 3,
        k if k.starts_with("rep") => 2,
        _ => 0,
    }
}
/// rounds of a chain circuit and the values of its accumulator
fn chain<F: HF>(kind: &str, w: &[F], c: &[F]) -> Vec<F> {
    let n: usize = kind[5..].parse().unwrap();
    let mut v = vec![w[0]];
    for i in 0..n {
        let x = v[i];
        v.push(if i % 2 == 0 { x * w[1] } else { x * w[2] + c[i % 3] });
    }
    v
}
impl<F: HF> Cir<F> {
    pub fn new(kind: &str, wit: bool) -> Self {
        Cir {
            kind: kind.into(),
            w: if wit { Some(ins("w", nwit(kind))) } else { None },
            c: ins("c", ncoef(kind)),
        }
    }
    pub fn inputs(&self) -> Vec<F> {
        let w = self.w.clone().unwrap_or_default();
        let c = &self.c;
        match self.kind.as_str() {
            "cub" => vec![w[0] * w[0].square()],
            "lin" => vec![c[0] * w[0] + c[1] * w[1]],
            "mul" => vec![w[0] * w[1], w[0]],
            k if k.starts_with("chain") => {
                let v = chain(k, &w, c);
                vec![w[1] + c[0], v[v.len() - 1]]
            }
            k if k.starts_with("rep") => vec![w[0] * w[1]],
            _ => vec![],
        }
    }
}
impl<F: HF> Circuit<F> for Cir<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        let am = SynthesisError::AssignmentMissing;
        let w = |i: usize| self.w.as_ref().map(|w| w[i]).ok_or(am);
        match self.kind.as_str() {
            "cub" => {
                let (x, _, x2) = cs.multiply(|| "x^2", || Ok((w(0)?, w(0)?, w(0)?.square())))?;
                let (a, b, c) = cs.multiply(|| "x^3", || Ok((w(0)?, w(0)?.square(), w(0)? * w(0)?.square())))?;
                cs.enforce_zero(LinearCombination::from(x) - a);
                cs.enforce_zero(LinearCombination::from(x2) - b);
                let x3 = cs.alloc_input(|| "x3", || Ok(w(0)? * w(0)?.square()))?;
                cs.enforce_zero(LinearCombination::from(x3) - c);
            }
            "lin" => {
                let u = cs.alloc(|| "u", || w(0))?;
                let o = cs.alloc_input(|| "o", || Ok(self.c[0] * w(0)? + self.c[1] * w(1)?))?;
                let v = cs.alloc(|| "v", || w(1))?;
                let lc = LinearCombination::zero() + (Coeff::Full(self.c[0]), u) + (Coeff::Full(self.c[1]), v);
                cs.enforce_zero(lc - o);
            }
            "mul" => {
                let (a, _, c) = cs.multiply(|| "m", || Ok((w(0)?, w(1)?, w(0)? * w(1)?)))?;
                let i0 = cs.alloc_input(|| "i0", || Ok(w(0)? * w(1)?))?;
                let i1 = cs.alloc_input(|| "i1", || w(0))?;
                cs.enforce_zero(LinearCombination::from(c) - i0);
                cs.enforce_zero(LinearCombination::from(i1) - a);
            }
            "const" => {
                let u = cs.alloc(|| "u", || w(0))?;
                let v = cs.alloc(|| "v", || Ok(self.c[0] * w(0)? + F::one()))?;
                cs.enforce_zero(LinearCombination::zero() + (Coeff::Full(self.c[0]), u) + (Coeff::One, CS::ONE) - v);
            }
            k if k.starts_with("chain") => {
                let n: usize = k[5..].parse().unwrap();
                let wit = self.w.as_ref();
                let v = wit.map(|w| chain(k, w, &self.c));
                let a = |i: usize| v.as_ref().map(|v| v[i]).ok_or(am);
                let mut cur = cs.alloc(|| "start", || w(0))?;
                let f1 = cs.alloc(|| "f1", || w(1))?;
                let i1 = cs.alloc_input(|| "i1", || Ok(w(1)? + self.c[0]))?;
                cs.enforce_zero(LinearCombination::from(f1) + (Coeff::Full(self.c[0]), CS::ONE) - i1);
                for i in 0..n {
                    let (l, r, o) = cs.namespace(|| format!("round {}", i)).multiply(
                        || "step",
                        || {
                            let f = if i % 2 == 0 { w(1)? } else { w(2)? };
                            Ok((a(i)?, f, a(i)? * f))
                        },
                    )?;
                    cs.enforce_zero(LinearCombination::from(l) - cur);
                    if i % 2 == 0 {
                        cs.enforce_zero(LinearCombination::from(r) - f1);
                        cur = o;
                    } else {
                        let nx = cs.alloc(|| "next", || a(i + 1))?;
                        cs.enforce_zero(LinearCombination::from(nx) - o - (Coeff::Full(self.c[i % 3]), CS::ONE));
                        cur = nx;
                    }
                }
                let out = cs.alloc_input(|| "out", || a(n))?;
                cs.enforce_zero(LinearCombination::from(out) - cur);
            }
            // one gate, many linear constraints on it
            k if k.starts_with("rep") => {
                let n: usize = k[3..].parse().unwrap();
                let (a, b, c) = cs.multiply(|| "m", || Ok((w(0)?, w(1)?, w(0)? * w(1)?)))?;
                let o = cs.alloc_input(|| "o", || Ok(w(0)? * w(1)?))?;
                for i in 0..n {
                    let (f, v) = (Coeff::Full(self.c[i % 2]), [a, b, c][i % 3]);
                    cs.enforce_zero(LinearCombination::zero() + (f, v) - (f, v) + (f, c) - (f, o));
                }
            }
            _ => panic!("bad circuit"),
        }
        Ok(())
    }
}

/// (power of Y, value) of every public input, ONE first
pub fn kpoly<F: HF>(c: &Cir<F>, inputs: &[F]) -> Vec<(usize, F)> {
    let mut r: Rec<F> = Rec::new();
    r.nowit = true;
    Basic::synthesize(&mut r, c).unwrap();
    let vals: Vec<F> = std::iter::once(F::one()).chain(inputs.iter().cloned()).collect();
    assert_eq!(r.k.len(), vals.len());
    r.k.iter().map(|(i, _)| *i).zip(vals).collect()
}

pub fn old_leftovers<C: HG>(params: &Params<C>, c: &Cir<Fld<C>>, kind: &str) -> Leftovers<C> {
    if kind == "dummy" {
        return Leftovers::dummy(params);
    }
    let y = Fld::<C>::input("yold");
    let sx = params.compute_sx::<_, Basic>(c, y).unwrap();
    let packed: Vec<Fld<C>> = ins("co", params.k);
    let sq: Vec<Fld<C>> = packed.iter().map(|v| get_challenge_scalar(*v)).collect();
    let mut all = <Fld<C> as Field>::one();
    for s in &sq {
        all = all * s.sqrt().unwrap();
    }
    let g = compute_g_for_inner_product(&params.generators, &sq, all.invert().unwrap());
    Leftovers { s_new_commitment: params.commit(&sx, false), y_new: y, g_new: g, challenges_sq_packed_new: packed }
}
fn show_leftovers<C: HG>(p: &str, l: &Leftovers<C>) {
    gout(&format!("{}.s", p), &l.s_new_commitment);
    val(&format!("{}.y", p), &l.y_new);
    gout(&format!("{}.g", p), &l.g_new);
    note(&format!("len {}.c", p), l.challenges_sq_packed_new.len());
    for (i, c) in l.challenges_sq_packed_new.iter().enumerate() {
        val(&format!("{}.c{}", p, i), c);
    }
}
fn show_deferred<F: HF>(d: &Deferred<F>) {
    for (n, v) in [
        ("x", d.x),
        ("y_old", d.y_old),
        ("y_cur", d.y_cur),
        ("y_new", d.y_new),
        ("ky", d.ky_opening),
        ("tp", d.tx_positive_opening),
        ("tn", d.tx_negative_opening),
        ("sx", d.sx_cur_opening),
        ("rx", d.rx_opening),
        ("rxy", d.rxy_opening),
        ("gx", d.gx_old_opening),
        ("b_x", d.b_x),
        ("b_xy", d.b_xy),
        ("b_y_old", d.b_y_old),
        ("b_y_cur", d.b_y_cur),
        ("b_y_new", d.b_y_new),
    ] {
        val(&format!("d.{}", n), &v);
    }
    for (i, c) in d.challenges_sq_packed_old.iter().enumerate() {
        val(&format!("d.co{}", i), c);
    }
    for (i, c) in d.challenges_sq_packed_new.iter().enumerate() {
        val(&format!("d.cn{}", i), c);
    }
    note("len d.co", d.challenges_sq_packed_old.len());
    note("len d.cn", d.challenges_sq_packed_new.len());
}

/// coordinates of every message
fn show_messages<C: HG>(ps: &Params<C>, vc: &Cir<Fld<C>>, inputs: &[Fld<C>], kc: Option<C>, pf: &Proof<C>, d: &Deferred<Fld<C>>) {
            prf().quiet = true;
            let p = |n: &str, g: C| {
                let xy = g.get_xy();
                if bool::from(xy.is_some()) {
                    let (x, y) = xy.unwrap();
                    note(&format!("xy:{}", n), format!("{},{}", repr(&x), repr(&y)));
                } else {
                    note(&format!("xy:{}", n), "O");
                }
            };
            let kp = kpoly(vc, inputs);
            let q = |n: &str, s: Fld<C>| p(n, C::one() * s);
            let mut kcom = C::zero();
            let mut ky = <Fld<C> as Field>::zero();
            for (i, v) in &kp {
                kcom = kcom + ps.generators[*i] * *v;
                ky = ky + *v * d.y_cur.pow(&[*i as u64, 0, 0, 0]);
            }
            p("k", kc.unwrap_or(kcom));
            p("r", pf.r_commitment);
            p("s_cur", pf.s_cur_commitment);
            p("t+", pf.t_positive_commitment);
            p("t-", pf.t_negative_commitment);
            p("c", pf.c_commitment);
            p("s_new", pf.s_new_commitment);
            q("ky", ky);
            q("rx", pf.rx_opening);
            q("rxy", pf.rxy_opening);
            q("sx_old", pf.sx_old_opening);
            q("sx_cur", pf.sx_cur_opening);
            q("tx+", pf.tx_positive_opening);
            q("tx-", pf.tx_negative_opening);
            q("sx_new", pf.sx_new_opening);
            q("gx_old", d.gx_old_opening);
            for (i, r) in pf.inner_product.rounds.iter().enumerate() {
                note(&format!("instances {}", i), r.L.len());
                for j in 0..r.L.len() {
                    p(&format!("L{}_{}", i, j), r.L[j]);
                    p(&format!("R{}_{}", i, j), r.R[j]);
                    q(&format!("l{}_{}", i, j), r.l[j]);
                    q(&format!("r{}_{}", i, j), r.r[j]);
                }
            }
            prf().quiet = false;
}

/// a proof all of whose elements are inputs
fn free_proof<C: HG>(k: usize, n: usize) -> Proof<C> {
    let f = |s: &str| Fld::<C>::input(s);
    Proof {
        r_commitment: pt("R"),
        s_cur_commitment: pt("SC"),
        t_positive_commitment: pt("TP"),
        t_negative_commitment: pt("TN"),
        c_commitment: pt("CC"),
        s_new_commitment: pt("SN"),
        rx_opening: f("rx"),
        rxy_opening: f("rxy"),
        sx_old_opening: f("sxo"),
        sx_cur_opening: f("sxc"),
        tx_positive_opening: f("tp"),
        tx_negative_opening: f("tn"),
        sx_new_opening: f("sxn"),
        inner_product: free_ip(k, n),
    }
}
fn free_ip<C: HG>(k: usize, n: usize) -> MultiPolynomialOpening<C> {
    MultiPolynomialOpening {
        rounds: (0..k)
            .map(|i| InnerProductRound {
                L: (0..n).map(|j| pt(&format!("L{}_{}", i, j))).collect(),
                R: (0..n).map(|j| pt(&format!("R{}_{}", i, j))).collect(),
                l: (0..n).map(|j| Fld::<C>::input(&format!("l{}_{}", i, j))).collect(),
                r: (0..n).map(|j| Fld::<C>::input(&format!("r{}_{}", i, j))).collect(),
            })
            .collect(),
        a: ins("a", n),
        g: pt("g"),
    }
}
fn script(args: &[String]) {
    let s = args.last().map(|s| s.as_str()).unwrap_or("");
    let mut p = prf();
    p.force = p.on;
    p.script = s.strip_prefix("s:").unwrap_or("").chars().map(|c| c == 'T').collect();
}

pub fn run<C: HG>(name: &str, args: &[String]) {
    let n = |i: usize| args[i].parse::<usize>().unwrap();
    match name {
        // k, then one instance per argument: L<len> or R<len>
        "ipa" => {
            let k = n(0);
            let gens: Vec<C> = bases("G", 1 << k);
            note("basis:one", C::one().grepr());
            let polys: Vec<(bool, Vec<Fld<C>>, Fld<C>)> = args[1..]
                .iter()
                .enumerate()
                .map(|(j, s)| {
                    let l: usize = s[1..].parse().unwrap();
                    (s.starts_with('R'), ins(&format!("a{}_", j), l), Fld::<C>::input(&format!("x{}", j)))
                })
                .collect();
            let open = |(re, v, x): &(bool, Vec<Fld<C>>, Fld<C>)| {
                let off = if *re { (1 << k) - v.len() } else { 0 };
                let mut c = C::zero();
                let mut o = <Fld<C> as Field>::zero();
                for (i, a) in v.iter().enumerate() {
                    c = c + gens[off + i] * *a;
                    o = o + *a * x.pow(&[(off + i) as u64, 0, 0, 0]);
                }
                mk_opening(c, o, *x, *re)
            };
            let mut t = Rescue::<C::Base>::new();
            let inst: Vec<_> = polys.iter().map(|p| (open(p), &p.1[..])).collect();
            let (proof, packed, g) = MultiPolynomialOpening::new_proof(&mut t, &inst, &gens, k);
            mark("verifier");
            let mut t = Rescue::<C::Base>::new();
            let inst: Vec<_> = polys.iter().map(|p| open(p)).collect();
            let (ok, packed2, g2, forks) = proof.verify_proof(&mut t, &inst, k);
            note("ok", ok);
            note("same challenges", packed == packed2);
            note("same g", g == g2);
            note("forks", forks.len() == k && (0..k).all(|i| forked::<C::Base, C::Scalar>(packed2[i], forks[i])));
        }
        // k, number of instances, script
        "ipav" => {
            let (k, m) = (n(0), n(1));
            script(args);
            let proof = free_ip::<C>(k, m);
            let inst: Vec<_> = (0..m)
                .map(|j| {
                    mk_opening(pt::<C>(&format!("P{}", j)), Fld::<C>::input(&format!("v{}", j)), Fld::<C>::input(&format!("x{}", j)), j % 2 == 1)
                })
                .collect();
            let mut t = Rescue::<C::Base>::new();
            let (ok, packed, g, forks) = proof.verify_proof(&mut t, &inst, k);
            note("ok", ok);
            gout("g", &g);
            note("len packed", packed.len());
            for (i, c) in packed.iter().enumerate() {
                val(&format!("c{}", i), c);
            }
            note("forks", forks.len());
        }
        // k, circuit, old leftovers (dummy | sym)
        "honest" => {
            let k = n(0);
            let ps = params::<C>(k, false);
            let pc = Cir::<Fld<C>>::new(&args[1], true);
            let vc = Cir::<Fld<C>>::new(&args[1], false);
            let old = old_leftovers(&ps, &vc, &args[2]);
            mark("prover");
            let (proof, lp) = Proof::new::<_, Basic>(&ps, &pc, &old).unwrap();
            mark("verifier");
            let (ok, lv, d, forks) = proof.verify::<_, Basic>(&old, &ps, &vc, &pc.inputs(), None).unwrap();
            mark("end");
            note("ok", ok);
            show_messages(&ps, &vc, &pc.inputs(), None, &proof, &d);
            show_leftovers("l", &lv);
            show_deferred(&d);
            if args.get(3).map(|s| s == "transcript").unwrap_or(false) {
                return;
            }
            note("same leftovers", lp == lv);
            note("forks", forks.len() == k && (0..k).all(|i| forked::<C::Base, C::Scalar>(lv.challenges_sq_packed_new[i], forks[i])));
            note("deferred", d.verify(k));
            if args.get(3).map(|s| s == "accumulated").unwrap_or(false) {
                note("new leftovers verify", lp.verify::<_, Basic>(&ps, &vc).unwrap());
                note("old leftovers verify", old.verify::<_, Basic>(&ps, &vc).unwrap());
            }
            for (nm, g) in [
                ("r", proof.r_commitment),
                ("s_cur", proof.s_cur_commitment),
                ("t+", proof.t_positive_commitment),
                ("t-", proof.t_negative_commitment),
                ("c", proof.c_commitment),
                ("s_new", proof.s_new_commitment),
            ] {
                gout(nm, &g);
            }
        }
        // k, circuit, None|Some, script: verification of a proof that is all inputs
        "verify" => {
            let k = n(0);
            let ps = params::<C>(k, true);
            let vc = Cir::<Fld<C>>::new(&args[1], false);
            let proof = free_proof::<C>(k, 5);
            let old = Leftovers::<C> {
                s_new_commitment: pt("SO"),
                y_new: Fld::<C>::input("yold"),
                g_new: pt("GO"),
                challenges_sq_packed_new: ins("co", k),
            };
            let npub = Cir::<Fld<C>>::new(&args[1], true).inputs().len();
            let pubs: Vec<Fld<C>> = ins("in", npub);
            note("kidx", kpoly(&vc, &pubs).iter().map(|(i, _)| i.to_string()).collect::<Vec<_>>().join(","));
            let kc = if args[2] == "Some" { Some(pt::<C>("K")) } else { None };
            script(args);
            let (ok, lv, d, forks) = proof.verify::<_, Basic>(&old, &ps, &vc, &pubs, kc).unwrap();
            prf().force = false;
            note("ok", ok);
            note("forks", forks.len());
            show_leftovers("l", &lv);
            show_deferred(&d);
            show_messages(&ps, &vc, &pubs, kc, &proof, &d);
        }
        // k, script: the check of a deferred claim
        "deferred" => {
            let k = n(0);
            let f = |s: &str| Fld::<C>::input(s);
            let d = Deferred {
                x: f("x"),
                y_old: f("y_old"),
                y_cur: f("y_cur"),
                y_new: f("y_new"),
                ky_opening: f("ky"),
                tx_positive_opening: f("tp"),
                tx_negative_opening: f("tn"),
                sx_cur_opening: f("sx"),
                rx_opening: f("rx"),
                rxy_opening: f("rxy"),
                challenges_sq_packed_old: ins("co", k),
                gx_old_opening: f("gx"),
                challenges_sq_packed_new: ins("cn", k),
                b_x: f("b_x"),
                b_xy: f("b_xy"),
                b_y_old: f("b_y_old"),
                b_y_cur: f("b_y_cur"),
                b_y_new: f("b_y_new"),
            };
            let (l, r) = d.compute(k);
            val("lhs", &l);
            val("rhs", &r);
            script(args);
            note("ok", d.verify(k));
        }
        // k, circuit, script: the check of an accumulated claim
        "leftovers" => {
            let k = n(0);
            let ps = params::<C>(k, true);
            let vc = Cir::<Fld<C>>::new(&args[1], false);
            let l = Leftovers::<C> {
                s_new_commitment: pt("S"),
                y_new: Fld::<C>::input("y"),
                g_new: pt("GN"),
                challenges_sq_packed_new: ins("co", k),
            };
            script(args);
            note("ok", l.verify::<_, Basic>(&ps, &vc).unwrap());
            prf().force = false;
            let sx = ps.compute_sx::<_, Basic>(&vc, l.y_new).unwrap();
            note("len sx", sx.len());
            for (i, s) in sx.iter().enumerate() {
                val(&format!("sx{}", i), s);
            }
        }
        "t-ipa" => crate::tamper::ipa::<C>(args),
        "t-proof" => crate::tamper::proof::<C>(args),
        "t-bind" => crate::tamper::bind::<C>(args),
        "t-claims" => crate::tamper::claims::<C>(args),
        "consts" => {
            note("p", bytes_to_hex(&Fp::BETA.to_bytes()));
            note("q", bytes_to_hex(&Fq::BETA.to_bytes()));
        }
        _ => panic!("unknown scenario {}", name),
    }
}
