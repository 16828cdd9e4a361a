//! Records the constraint system of a circuit and its honest assignment, and looks for an
//! assignment that keeps the fixed quantities, changes the watched one and satisfies
//! every gate and every linear constraint.
#![allow(dead_code)]
use halo::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub type Key = (u8, usize);
pub fn key(v: &Variable) -> Key {
    match *v {
        Variable::A(i) => (0, i),
        Variable::B(i) => (1, i),
        Variable::C(i) => (2, i),
    }
}

pub struct Rec<F: Field> {
    pub vals: HashMap<Key, F>,
    pub gates: usize,
    pub lcs: Vec<Vec<(Variable, F)>>,
    pub inputs: HashMap<usize, F>,
}

struct B<'a, F: Field>(&'a RefCell<Rec<F>>);

impl<'a, F: Field> Backend<F> for B<'a, F> {
    type LinearConstraintIndex = usize;
    fn get_var(&self, v: Variable) -> Option<F> {
        self.0.borrow().vals.get(&key(&v)).copied()
    }
    fn set_var<FN, A, AR>(&mut self, _a: Option<A>, v: Variable, value: FN) -> Result<(), SynthesisError>
    where
        FN: FnOnce() -> Result<F, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let x = value()?;
        self.0.borrow_mut().vals.insert(key(&v), x);
        Ok(())
    }
    fn new_multiplication_gate<A, AR>(&mut self, _a: Option<A>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.0.borrow_mut().gates += 1;
    }
    fn new_linear_constraint<A, AR>(&mut self, _a: A) -> usize
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        let mut r = self.0.borrow_mut();
        r.lcs.push(vec![]);
        r.lcs.len()
    }
    fn insert_coefficient(&mut self, v: Variable, c: Coeff<F>, y: &usize) {
        self.0.borrow_mut().lcs[*y - 1].push((v, c.value()));
    }
    fn get_for_q(&self, q: usize) -> usize {
        q
    }
    fn new_k_power(&mut self, i: usize, v: Option<F>) -> Result<(), SynthesisError> {
        self.0.borrow_mut().inputs.insert(i, v.unwrap());
        Ok(())
    }
}

pub fn record<F: Field, C: Circuit<F>>(c: &C) -> Rec<F> {
    let r = RefCell::new(Rec { vals: HashMap::new(), gates: 0, lcs: vec![], inputs: HashMap::new() });
    Basic::synthesize(B(&r), c).expect("honest synthesis");
    let mut r = r.into_inner();
    for i in 1..=r.gates {
        for k in 0..3 {
            r.vals.entry((k, i)).or_insert(F::zero());
        }
    }
    r
}

impl<F: Field> Rec<F> {
    pub fn eval(&self, lc: &[(Variable, F)]) -> F {
        lc.iter().fold(F::zero(), |s, (v, c)| s + self.vals[&key(v)] * *c)
    }
    pub fn satisfied(&self) -> bool {
        for i in 1..=self.gates {
            if self.vals[&key(&Variable::A(i))] * self.vals[&key(&Variable::B(i))] != self.vals[&key(&Variable::C(i))] {
                return false;
            }
        }
        for (q, lc) in self.lcs.iter().enumerate() {
            let want = self.inputs.get(&(q + 1)).copied().unwrap_or(F::zero());
            if self.eval(lc) != want {
                return false;
            }
        }
        true
    }
    /// A satisfying assignment that leaves every `fixed` expression alone and changes `watch`.
    pub fn forge(&self, fixed: &[Vec<(Variable, F)>], watch: &[(Variable, F)]) -> Option<Rec<F>> {
        let n = self.gates;
        let idk = |k: &Key| 3 * (k.1 - 1) + k.0 as usize;
        let idx = |v: &Variable| idk(&key(v));
        let mut rows: Vec<Vec<F>> = vec![];
        let row = |lc: &[(Variable, F)]| {
            let mut r = vec![F::zero(); 3 * n + 1];
            for (v, c) in lc {
                r[idx(v)] = r[idx(v)] + *c;
            }
            r
        };
        for i in 1..=n {
            let (a, b) = (self.vals[&key(&Variable::A(i))], self.vals[&key(&Variable::B(i))]);
            rows.push(row(&[(Variable::A(i), b), (Variable::B(i), a), (Variable::C(i), -F::one())]));
        }
        for lc in &self.lcs {
            rows.push(row(lc));
        }
        for lc in fixed {
            rows.push(row(lc));
        }
        let mut w = row(watch);
        w[3 * n] = F::one();
        rows.push(w);
        // solve rows * d = rhs
        let mut piv: Vec<(usize, usize)> = vec![];
        let mut r = 0;
        for c in 0..3 * n {
            let p = match (r..rows.len()).find(|&k| rows[k][c] != F::zero()) {
                Some(p) => p,
                None => continue,
            };
            rows.swap(r, p);
            let inv = rows[r][c].invert().unwrap();
            for k in 0..=3 * n {
                rows[r][k] = rows[r][k] * inv;
            }
            let pr = rows[r].clone();
            for (k, o) in rows.iter_mut().enumerate() {
                if k != r && o[c] != F::zero() {
                    let f = o[c];
                    for j in c..=3 * n {
                        o[j] = o[j] - f * pr[j];
                    }
                }
            }
            piv.push((r, c));
            r += 1;
        }
        if rows[r..].iter().any(|x| x[3 * n] != F::zero()) {
            return None;
        }
        let mut d = vec![F::zero(); 3 * n];
        for (k, c) in &piv {
            d[*c] = rows[*k][3 * n];
        }
        let mut out = Rec { vals: HashMap::new(), gates: n, lcs: self.lcs.clone(), inputs: self.inputs.clone() };
        for (v, x) in &self.vals {
            out.vals.insert(*v, *x + d[idk(v)]);
        }
        if out.satisfied() && out.eval(watch) != self.eval(watch) {
            Some(out)
        } else {
            None
        }
    }
}

pub fn var<F: Field>(v: Variable) -> Vec<(Variable, F)> {
    vec![(v, F::one())]
}
