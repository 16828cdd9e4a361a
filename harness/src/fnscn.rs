//! Value-level scenarios: native (non-gadget) code run on symbolic or real values.
use crate::group::*;
use crate::rec::*;
use crate::sym::*;
use halo::dev::{is_satisfied, SatisfactionError};
use halo::rescue::Rescue;
use halo::*;
use std::cell::RefCell;

/// One step of a circuit program.
#[derive(Clone)]
pub enum Op {
    Alloc,
    AllocErr,
    Input,
    Mul,
    MulErr,
    Push,
    Pop,
    /// (coefficient kind, variable reference)
    Zero(Vec<(char, usize)>),
}
pub fn parse(toks: &[String]) -> Vec<Op> {
    toks.iter()
        .map(|t| match t.as_str() {
            "a" => Op::Alloc,
            "A" => Op::AllocErr,
            "i" => Op::Input,
            "m" => Op::Mul,
            "M" => Op::MulErr,
            "n" => Op::Push,
            "p" => Op::Pop,
            s => {
                let s = s.strip_prefix("e:").expect("bad op");
                Op::Zero(
                    s.split(',')
                        .filter(|x| !x.is_empty())
                        .map(|x| (x.chars().next().unwrap(), x[1..].parse().unwrap()))
                        .collect(),
                )
            }
        })
        .collect()
}
pub fn coeff<F: HF>(k: char, name: &str) -> Coeff<F> {
    match k {
        'Z' => Coeff::Zero,
        'O' => Coeff::One,
        'N' => Coeff::NegativeOne,
        'F' => Coeff::Full(F::input(name)),
        _ => panic!("bad coefficient kind"),
    }
}
/// A circuit given by a program; variables are numbered in creation order, 0 is ONE.
pub struct Prog<F> {
    pub ops: Vec<Op>,
    pub vars: RefCell<Vec<Variable>>,
    pub trace: RefCell<Vec<String>>,
    pub wit: bool,
    _m: std::marker::PhantomData<F>,
}
impl<F: HF> Prog<F> {
    pub fn new(toks: &[String], wit: bool) -> Self {
        Prog {
            ops: parse(toks),
            vars: RefCell::new(vec![]),
            trace: RefCell::new(vec![]),
            wit,
            _m: std::marker::PhantomData,
        }
    }
    fn go<CS: ConstraintSystem<F>>(&self, cs: &mut CS, mut i: usize) -> Result<usize, SynthesisError> {
        let w = self.wit;
        let v = |n: String| if w { Ok(F::input(&n)) } else { Err(SynthesisError::AssignmentMissing) };
        while i < self.ops.len() {
            match &self.ops[i] {
                Op::Alloc => {
                    let r = cs.alloc(|| format!("v{}", i), || v(format!("v{}", i)))?;
                    self.vars.borrow_mut().push(r);
                }
                Op::Input => {
                    let r = cs.alloc_input(|| format!("v{}", i), || v(format!("v{}", i)))?;
                    self.vars.borrow_mut().push(r);
                }
                Op::AllocErr => {
                    cs.alloc(|| "err", || Err(SynthesisError::DivisionByZero))?;
                }
                Op::Mul => {
                    let (a, b, c) = cs.multiply(
                        || format!("m{}", i),
                        || Ok((v(format!("v{}a", i))?, v(format!("v{}b", i))?, v(format!("v{}c", i))?)),
                    )?;
                    self.vars.borrow_mut().extend(vec![a, b, c]);
                }
                Op::MulErr => {
                    cs.multiply(|| "err", || Err(SynthesisError::DivisionByZero))?;
                }
                Op::Push => {
                    i = self.go(&mut cs.namespace(|| format!("ns{}", i)), i + 1)?;
                }
                Op::Pop => return Ok(i),
                Op::Zero(ts) => {
                    let mut lc = LinearCombination::zero();
                    for (j, (k, r)) in ts.iter().enumerate() {
                        lc = lc + (coeff(*k, &format!("c{}.{}", i, j)), self.vars.borrow()[*r]);
                    }
                    cs.enforce_zero(lc);
                }
            }
            i += 1;
        }
        Ok(i)
    }
}
impl<F: HF> Circuit<F> for Prog<F> {
    fn synthesize<CS: ConstraintSystem<F>>(&self, cs: &mut CS) -> Result<(), SynthesisError> {
        *self.vars.borrow_mut() = vec![CS::ONE];
        self.go(cs, 0).map(|_| ())
    }
}

fn ins<F: HF>(p: &str, n: usize) -> Vec<F> {
    (0..n).map(|i| F::input(&format!("{}{}", p, i))).collect()
}
fn outs<F: HF>(p: &str, v: &[F]) {
    note(&format!("len {}", p), v.len());
    for (i, x) in v.iter().enumerate() {
        val(&format!("{}{}", p, i), x);
    }
}
pub fn gout<C: HG>(k: &str, g: &C) {
    note(&format!("g:{}", k), g.grepr());
}
fn bases<C: HG>(p: &str, n: usize) -> Vec<C> {
    (0..n)
        .map(|i| {
            let nm = format!("{}{}", p, i);
            let g = C::basis(&nm);
            note(&format!("basis:{}", nm), g.grepr());
            g
        })
        .collect()
}
pub fn params<C: HG>(k: usize) -> Params<C> {
    let d = 1 << k;
    let generators = bases::<C>("G", d);
    let g = C::one();
    note("basis:one", g.grepr());
    let generators_xy = generators.iter().map(|g| g.get_xy().unwrap()).collect();
    Params { g, d, n: d / 4, k, generators, generators_xy }
}

/// `C::Scalar` is the field under test.
pub fn run<C: HG>(name: &str, a: &[String], sym: bool)
where
    <C as HG>::Sc: HasReal,
{
    type Fld<C> = <C as Curve>::Scalar;
    let n = |i: usize| -> usize { a[i].parse().unwrap() };
    let ch = |i: usize| -> char { a[i].chars().next().unwrap() };
    let two = || (coeff::<Fld<C>>(ch(1), "x"), coeff::<Fld<C>>(ch(2), "y"));
    match name {
        "coeff" => {
            let (x, y) = two();
            let o: Fld<C> = match a[0].as_str() {
                "value" => x.value(),
                "mulc" => (x * y).value(),
                "mulf" => (x * Fld::<C>::input("y")).value(),
                "neg" => (-x).value(),
                "double" => x.double().value(),
                "from" => Coeff::from(Fld::<C>::input("x")).value(),
                "multiply" => {
                    let mut w = Fld::<C>::input("y");
                    x.multiply(&mut w);
                    w
                }
                _ => panic!(),
            };
            val("o", &o);
        }
        "lc" => {
            // program of steps over variables A1 B1 C1 A2 B2 C2
            let va = |c: &str| -> Variable {
                let i: usize = c[1..].parse().unwrap();
                match &c[0..1] {
                    "A" => Variable::A(i),
                    "B" => Variable::B(i),
                    _ => Variable::C(i),
                }
            };
            let mut st: Vec<LinearCombination<Fld<C>>> = vec![];
            for (i, t) in a.iter().enumerate() {
                let (op, rest) = t.split_at(2);
                let nm = format!("c{}", i);
                let tl = st.len();
                match op {
                    "z:" => st.push(LinearCombination::zero()),
                    "f:" => st.push(LinearCombination::from(va(rest))),
                    "+v" => {
                        let l = st.pop().unwrap();
                        st.push(l + va(rest))
                    }
                    "-v" => {
                        let l = st.pop().unwrap();
                        st.push(l - va(rest))
                    }
                    "+c" => {
                        let l = st.pop().unwrap();
                        st.push(l + (coeff(rest.chars().next().unwrap(), &nm), va(&rest[1..])))
                    }
                    "-c" => {
                        let l = st.pop().unwrap();
                        st.push(l - (coeff(rest.chars().next().unwrap(), &nm), va(&rest[1..])))
                    }
                    "+l" => {
                        let (r, l) = (st.pop().unwrap(), st.pop().unwrap());
                        st.push(l + &r)
                    }
                    "-l" => {
                        let (r, l) = (st.pop().unwrap(), st.pop().unwrap());
                        st.push(l - &r)
                    }
                    "+s" => {
                        let (r, l) = (st.pop().unwrap(), st.pop().unwrap());
                        st.push(l + (coeff(rest.chars().next().unwrap(), &nm), &r))
                    }
                    "-s" => {
                        let (r, l) = (st.pop().unwrap(), st.pop().unwrap());
                        st.push(l - (coeff(rest.chars().next().unwrap(), &nm), &r))
                    }
                    _ => panic!("{} {}", op, tl),
                }
            }
            let l = st.pop().unwrap();
            val("ev", &l.evaluate(&ins("A", 3), &ins("B", 3), &ins("C", 3)));
            out::<Fld<C>>("lc", l, None);
        }
        "drv" => {
            let wit = a[0] != "nowit";
            let p = Prog::<Fld<C>>::new(&a[1..], wit);
            let mut r = Rec::new();
            r.nowit = !wit;
            let res = Basic::synthesize(&mut r, &p);
            note("res", format!("{:?}", res));
            note(
                "vars",
                p.vars.borrow().iter().map(|v| format!("{}{}", vv(*v).0, vv(*v).1)).collect::<Vec<_>>().join(" "),
            );
            note("rec", dump_rec(&r));
        }
        "sat" => {
            let p = Prog::<Fld<C>>::new(&a[1..], true);
            let inp: Vec<Fld<C>> = ins("k", n(0));
            let res = is_satisfied::<_, _, Basic>(&p, &inp);
            match &res {
                Ok(b) => note("res", format!("Ok({})", b)),
                Err(SatisfactionError::Synthesis(e)) => note("res", format!("Synthesis({:?})", e)),
                Err(SatisfactionError::InputLength(a, b)) => note("res", format!("InputLength({},{})", a, b)),
                Err(SatisfactionError::Multiplication(p, x, y, z)) => {
                    note("res", "Multiplication");
                    note("path", p);
                    val("e0", x);
                    val("e1", y);
                    val("e2", z);
                }
                Err(SatisfactionError::Linear(p, x, y)) => {
                    note("res", "Linear");
                    note("path", p);
                    val("e0", x);
                    val("e1", y);
                }
            }
            note("vars", p.vars.borrow().iter().map(|v| format!("{}{}", vv(*v).0, vv(*v).1)).collect::<Vec<_>>().join(" "));
        }
        "sxy" => {
            // n, q, program: the two evaluations of the circuit polynomial, and the recorded circuit
            let p = Prog::<Fld<C>>::new(&a[2..], false);
            let pr = Params::<C> { g: C::one(), d: 4 * n(0), n: n(0), k: 4, generators: vec![], generators_xy: vec![] };
            outs("sx", &pr.compute_sx::<_, Basic>(&p, Fld::<C>::input("y")).unwrap());
            outs("sy", &pr.compute_sy::<_, Basic>(&p, Fld::<C>::input("x"), n(0), n(1)).unwrap());
            let mut r = Rec::<Fld<C>>::new();
            r.nowit = true;
            Basic::synthesize(&mut r, &p).unwrap();
            note("rec", dump_rec(&r));
        }
        "polymul" => outs("o", &multiply_polynomials::<Fld<C>>(ins("a", n(0)), ins("b", n(1)))),
        "inner" => val("o", &compute_inner_product::<Fld<C>>(&ins("a", n(0)), &ins("b", n(0)))),
        "batchinv" => {
            let mut v: Vec<Fld<C>> = ins("a", n(0));
            let all = Fld::<C>::batch_invert(&mut v);
            outs("o", &v);
            val("all", &all);
        }
        "computeb" => val("o", &compute_b::<Fld<C>>(Fld::<C>::input("x"), &ins("c", n(0)), &ins("d", n(0)))),
        "gcoeffs" => outs("o", &compute_g_coeffs_for_inner_product::<Fld<C>>(&ins("c", n(0)), Fld::<C>::input("all"))),
        "gfor" => {
            let g = bases::<C>("G", 1 << n(0));
            let r: C = compute_g_for_inner_product(&g, &ins("c", n(0)), Fld::<C>::input("all"));
            gout("o", &r);
        }
        "collapse" => {
            let mut g = bases::<C>("G", n(0));
            parallel_generator_collapse(&mut g, Fld::<C>::input("c"), Fld::<C>::input("d"));
            for i in 0..n(0) / 2 {
                gout(&format!("o{}", i), &g[i]);
            }
        }
        "multiexp" => {
            let g = bases::<C>("G", n(0));
            let r: C = multiexp(&ins("a", n(0)), &g);
            gout("o", &r);
        }
        "multiexpc" => {
            // concrete coefficients (digits are inspected), symbolic bases
            let g = bases::<C>("G", n(0));
            let co: Vec<Fld<C>> = (0..n(0))
                .map(|i| Fld::<C>::from_bytes(&hex_to_bytes(&input_hex(&format!("a{}", i)))).unwrap())
                .collect();
            let r: C = multiexp(&co, &g);
            gout("o", &r);
        }
        "commit" => {
            let p = params::<C>(n(0));
            gout("o", &p.commit(&ins("a", n(1)), n(2) == 1));
        }
        "opening" => {
            let p = params::<C>(n(0));
            val("o", &p.compute_opening::<Fld<C>>(&ins("a", n(1)), Fld::<C>::input("x"), n(2) == 1));
        }
        "rescue" => {
            let mut r = Rescue::<Fld<C>>::new();
            let (mut na, mut ns) = (0, 0);
            for c in a[0].chars() {
                match c {
                    'a' => {
                        r.absorb(Fld::<C>::input(&format!("a{}", na)));
                        na += 1;
                    }
                    's' => {
                        val(&format!("s{}", ns), &r.squeeze());
                        ns += 1;
                    }
                    // continue on a copy
                    'c' => r = r.clone(),
                    _ => panic!(),
                }
            }
        }
        "chal" => {
            let o: Fld<C> = get_challenge_scalar(<<C as HG>::B as HF>::input("c"));
            val("o", &o);
        }
        _ => panic!("unknown scenario {}", name),
    }
    let _ = sym;
}
