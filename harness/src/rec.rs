//! Recording backend for halo's real `Basic` synthesis driver, plus the
//! malicious-assignment replay backend.
use crate::sym::*;
use halo::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub type V = (char, usize);
pub fn vv(v: Variable) -> V {
    match v {
        Variable::A(i) => ('A', i),
        Variable::B(i) => ('B', i),
        Variable::C(i) => ('C', i),
    }
}

#[derive(Clone, Default)]
pub struct Trace {
    /// (name, lc, honest value)
    pub outs: Vec<(String, Vec<(V, String)>, Option<String>)>,
    pub notes: Vec<(String, String)>,
    pub vals: Vec<(String, String)>,
}
thread_local! {
    pub static TRACE: RefCell<Trace> = RefCell::new(Trace::default());
}
pub fn repr<F: HF>(f: &F) -> String {
    match f.id() {
        Some(i) => format!("#{}", i),
        None => bytes_to_hex(&f.real_bytes()),
    }
}
pub fn lcrepr<F: HF>(lc: &LinearCombination<F>) -> Vec<(V, String)> {
    lc.as_ref()
        .iter()
        .map(|(v, c)| (vv(*v), repr(&c.value())))
        .collect()
}
pub fn out<F: HF>(name: &str, lc: LinearCombination<F>, val: Option<F>) {
    let l = lcrepr(&lc);
    TRACE.with(|t| {
        t.borrow_mut()
            .outs
            .push((name.to_string(), l, val.map(|v| repr(&v))))
    });
}
pub fn note<T: ToString>(k: &str, v: T) {
    TRACE.with(|t| t.borrow_mut().notes.push((k.to_string(), v.to_string())));
}
/// a plain (non-circuit) result value
pub fn val<F: HF>(k: &str, v: &F) {
    let r = repr(v);
    TRACE.with(|t| t.borrow_mut().vals.push((k.to_string(), r)));
}

pub struct Rec<F> {
    /// None: record honest witness terms. Some: impose this assignment.
    pub imposed: Option<HashMap<V, F>>,
    /// do not evaluate witness closures at all
    pub nowit: bool,
    pub n: usize,
    pub a: Vec<Option<F>>,
    pub b: Vec<Option<F>>,
    pub c: Vec<Option<F>>,
    pub names: Vec<String>,
    pub lcs: Vec<Vec<(Variable, F)>>,
    pub k: Vec<(usize, Option<F>)>,
}
impl<F: HF> Rec<F> {
    pub fn new() -> Self {
        Rec {
            imposed: None,
            nowit: false,
            n: 0,
            a: vec![],
            b: vec![],
            c: vec![],
            names: vec![],
            lcs: vec![],
            k: vec![],
        }
    }
    /// Real-arithmetic check of every recorded constraint.
    pub fn violations(&self) -> Vec<String> {
        let mut out = vec![];
        for i in 0..self.n {
            match (self.a[i], self.b[i], self.c[i]) {
                (Some(a), Some(b), Some(c)) => {
                    if a * b != c {
                        out.push(format!("gate {}", i + 1));
                    }
                }
                _ => out.push(format!("gate {} unassigned", i + 1)),
            }
        }
        for (q, l) in self.lcs.iter().enumerate() {
            let mut acc = F::zero();
            for (v, c) in l {
                match self.get(*v) {
                    Some(x) => acc = acc + (x * *c),
                    None => out.push(format!("lc {} unassigned", q + 1)),
                }
            }
            let mut k = F::zero();
            for (i, v) in &self.k {
                if *i == q + 1 {
                    k = v.unwrap_or(F::zero());
                    // an imposed instance: the verifier's value, not the prover's
                    let nm = format!("@k{}", q + 1);
                    if self.imposed.is_some() && crate::sym::inputs().lock().unwrap().contains_key(&nm) {
                        k = F::input(&nm);
                    }
                }
            }
            if acc != k {
                out.push(format!("lc {}", q + 1));
            }
        }
        out
    }
    pub fn get(&self, v: Variable) -> Option<F> {
        match v {
            Variable::A(i) => self.a[i - 1],
            Variable::B(i) => self.b[i - 1],
            Variable::C(i) => self.c[i - 1],
        }
    }
}
impl<'r, FF: HF> Backend<FF> for &'r mut Rec<FF> {
    type LinearConstraintIndex = usize;
    fn get_var(&self, var: Variable) -> Option<FF> {
        if self.nowit {
            return None;
        }
        self.get(var)
    }
    fn set_var<F, A, AR>(&mut self, ann: Option<A>, var: Variable, value: F) -> Result<(), SynthesisError>
    where
        F: FnOnce() -> Result<FF, SynthesisError>,
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        if let Some(a) = ann {
            let s: String = a().into();
            let (_, i) = vv(var);
            let e = &mut self.names[i - 1];
            if !e.is_empty() {
                e.push('|');
            }
            e.push_str(&s);
        }
        if self.nowit {
            return Ok(());
        }
        let v = if let Some(m) = &self.imposed {
            // the gadget's own computation still runs (callers keep values it captures)
            let honest = value().ok();
            m.get(&vv(var)).cloned().or(honest)
        } else {
            Some(value()?)
        };
        match var {
            Variable::A(i) => self.a[i - 1] = v,
            Variable::B(i) => self.b[i - 1] = v,
            Variable::C(i) => self.c[i - 1] = v,
        }
        Ok(())
    }
    fn new_multiplication_gate<A, AR>(&mut self, ann: Option<A>)
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.n += 1;
        // an unset half of an allocation gate holds zero, as in every backend of the crate
        let d = match &self.imposed {
            Some(m) => {
                let i = self.n;
                let z = FF::zero();
                (
                    m.get(&('A', i)).cloned().or(Some(z)),
                    m.get(&('B', i)).cloned().or(Some(z)),
                    m.get(&('C', i)).cloned().or(Some(z)),
                )
            }
            None => (Some(FF::zero()), Some(FF::zero()), Some(FF::zero())),
        };
        self.a.push(d.0);
        self.b.push(d.1);
        self.c.push(d.2);
        self.names.push(match ann {
            Some(a) => format!("*{}", a().into()),
            None => String::new(),
        });
    }
    fn new_linear_constraint<A, AR>(&mut self, _: A) -> usize
    where
        A: FnOnce() -> AR,
        AR: Into<String>,
    {
        self.lcs.push(vec![]);
        self.lcs.len()
    }
    fn insert_coefficient(&mut self, var: Variable, coeff: Coeff<FF>, y: &usize) {
        self.lcs[*y - 1].push((var, coeff.value()));
    }
    fn get_for_q(&self, q: usize) -> usize {
        q
    }
    fn new_k_power(&mut self, index: usize, value: Option<FF>) -> Result<(), SynthesisError> {
        self.k.push((index, value));
        Ok(())
    }
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn opt<F: HF>(f: &Option<F>) -> String {
    match f {
        Some(f) => js(&repr(f)),
        None => "null".into(),
    }
}
pub fn dump_rec<F: HF>(r: &Rec<F>) -> String {
    let mut s = String::from("{\"n\":");
    s.push_str(&r.n.to_string());
    for (nm, v) in [("a", &r.a), ("b", &r.b), ("c", &r.c)] {
        s.push_str(&format!(
            ",\"{}\":[{}]",
            nm,
            v.iter().map(opt).collect::<Vec<_>>().join(",")
        ));
    }
    s.push_str(&format!(
        ",\"names\":[{}]",
        r.names.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")
    ));
    let lcs: Vec<String> = r
        .lcs
        .iter()
        .map(|l| {
            format!(
                "[{}]",
                l.iter()
                    .map(|(v, c)| {
                        let (k, i) = vv(*v);
                        format!("[\"{}\",{},{}]", k, i, js(&repr(c)))
                    })
                    .collect::<Vec<_>>()
                    .join(",")
            )
        })
        .collect();
    s.push_str(&format!(",\"lcs\":[{}]", lcs.join(",")));
    s.push_str(&format!(
        ",\"k\":[{}]}}",
        r.k.iter()
            .map(|(i, v)| format!("[{},{}]", i, opt(v)))
            .collect::<Vec<_>>()
            .join(",")
    ));
    s
}
pub fn dump_trace() -> String {
    TRACE.with(|t| {
        let t = t.borrow();
        let outs: Vec<String> = t
            .outs
            .iter()
            .map(|(n, l, v)| {
                format!(
                    "[{},[{}],{}]",
                    js(n),
                    l.iter()
                        .map(|((k, i), c)| format!("[\"{}\",{},{}]", k, i, js(c)))
                        .collect::<Vec<_>>()
                        .join(","),
                    match v {
                        Some(v) => js(v),
                        None => "null".into(),
                    }
                )
            })
            .collect();
        let notes: Vec<String> = t.notes.iter().map(|(k, v)| format!("[{},{}]", js(k), js(v))).collect();
        let vals: Vec<String> = t.vals.iter().map(|(k, v)| format!("[{},{}]", js(k), js(v))).collect();
        format!(
            "\"outs\":[{}],\"notes\":[{}],\"vals\":[{}]",
            outs.join(","),
            notes.join(","),
            vals.join(",")
        )
    })
}
pub fn dump_arena<K: Kind>() -> String {
    let a = arena::<K>();
    let nodes: Vec<String> = a
        .nodes
        .iter()
        .zip(a.vals.iter())
        .map(|(n, v)| {
            let h = bytes_to_hex(&v.to_bytes());
            match n {
                Node::Const(_) => format!("[\"c\",\"{}\"]", h),
                Node::Var(s) => format!("[\"v\",\"{}\",{}]", h, js(s)),
                Node::Add(x, y) => format!("[\"+\",\"{}\",{},{}]", h, x, y),
                Node::Sub(x, y) => format!("[\"-\",\"{}\",{},{}]", h, x, y),
                Node::Mul(x, y) => format!("[\"*\",\"{}\",{},{}]", h, x, y),
                Node::Neg(x) => format!("[\"n\",\"{}\",{}]", h, x),
                Node::Inv(x) => format!("[\"i\",\"{}\",{}]", h, x),
                Node::Sqrt(x) => format!("[\"s\",\"{}\",{}]", h, x),
                Node::Pow(x, e) => {
                    let mut b = [0u8; 32];
                    for i in 0..4 {
                        b[8 * i..8 * i + 8].copy_from_slice(&e[i].to_le_bytes());
                    }
                    format!("[\"^\",\"{}\",{},\"{}\"]", h, x, bytes_to_hex(&b))
                }
                Node::Cast(x) => format!("[\"cast\",\"{}\",{}]", h, x),
                Node::Low128(c, x) => format!("[\"low\",\"{}\",\"{}\",{}]", h, c, x),
                Node::Opaque(s, args) => format!(
                    "[\"o\",\"{}\",{},[{}]]",
                    h,
                    js(s),
                    args.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
                ),
            }
        })
        .collect();
    let path: Vec<String> = a
        .path
        .iter()
        .map(|(k, x, y, o)| format!("[{},{},{},{}]", k, x, y, o))
        .collect();
    let conc: Vec<String> = a.concretized.iter().map(|x| x.to_string()).collect();
    format!(
        "{{\"nodes\":[{}],\"path\":[{}],\"conc\":[{}]}}",
        nodes.join(","),
        path.join(","),
        conc.join(",")
    )
}
