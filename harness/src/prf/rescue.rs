//! Transcript stand-in: an ideal sponge (a squeezed value is a fresh symbol named by everything
//! absorbed and squeezed before) in symbolic runs, the real Rescue sponge otherwise.
use crate::sym::*;
use crate::*;
use std::sync::Mutex;

/// (kind, value) history; value as printed
type Hist = Vec<String>;
static LOG: Mutex<Vec<Hist>> = Mutex::new(vec![]);
/// every squeeze in the order made: (history number, value)
static ORDER: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);

#[derive(Clone)]
pub struct Rescue<F: Field> {
    hist: Hist,
    real: Option<halo::rescue::Rescue<F>>,
}
fn show<F: Field>(f: &F) -> String {
    if let Some(x) = cast::<F, S<KP>>(*f) {
        return rec::repr(&x);
    }
    if let Some(x) = cast::<F, S<KQ>>(*f) {
        return rec::repr(&x);
    }
    bytes_to_hex(&f.to_bytes())
}
fn fresh<K: Kind>(n: usize, h: &Hist) -> S<K> {
    // shadow: a hash of the shadow history (so that runs are reproducible), low 128 bits below 2^127
    let mut x: u64 = 0xcbf29ce484222325 ^ n as u64;
    let mut w = [0u64; 4];
    for r in 0..4 {
        for s in h {
            let t = match s.strip_prefix('#') {
                Some(i) => bytes_to_hex(&S::<K>::new_id(i.parse().unwrap()).val().to_bytes()),
                None => s.clone(),
            };
            for b in t.bytes() {
                x = (x ^ b as u64).wrapping_mul(0x100000001b3);
                x ^= x >> 29;
            }
        }
        x = x.wrapping_mul(0x9e3779b97f4a7c15) ^ (r as u64 + 1);
        x ^= x >> 31;
        w[r] = x;
    }
    w[1] &= !(1 << 63);
    w[3] &= (1 << 60) - 1;
    let mut b = [0u8; 32];
    for r in 0..4 {
        b[8 * r..8 * r + 8].copy_from_slice(&w[r].to_le_bytes());
    }
    let v = <K::Real as Field>::from_bytes(&b).unwrap();
    let low = v.get_lower_128();
    prf().chal.push((low | (1 << 127), n));
    S::opaque(&format!("sq:{}", n), vec![], v)
}
impl<F: Field> Rescue<F> {
    pub fn new() -> Self {
        Rescue { hist: vec![], real: if prf().on { None } else { Some(halo::rescue::Rescue::new()) } }
    }
    pub fn absorb(&mut self, val: F) {
        self.hist.push(show(&val));
        if let Some(r) = &mut self.real {
            r.absorb(val);
        }
    }
    pub fn squeeze(&mut self) -> F {
        let n = {
            let mut l = LOG.lock().unwrap();
            match l.iter().position(|h| *h == self.hist) {
                Some(n) => n,
                None => {
                    l.push(self.hist.clone());
                    l.len() - 1
                }
            }
        };
        let r = if let Some(r) = &mut self.real {
            r.squeeze()
        } else if cast::<F, S<KP>>(F::zero()).is_some() {
            same(fresh::<KP>(n, &self.hist))
        } else {
            same(fresh::<KQ>(n, &self.hist))
        };
        ORDER.lock().unwrap().push((n, show(&r)));
        if self.real.is_some() {
            prf().chal.push((r.get_lower_128() | (1 << 127), n));
            SQ.lock().unwrap().push(r.to_bytes()[..].to_vec());
        }
        self.hist.push(format!("sq:{}", n));
        r
    }
}
pub fn mark(s: &str) {
    ORDER.lock().unwrap().push((usize::MAX, s.to_string()));
}
pub fn dump() {
    for (i, h) in LOG.lock().unwrap().iter().enumerate() {
        rec::note(&format!("hist:{}", i), h.join(","));
    }
    for (n, v) in ORDER.lock().unwrap().iter() {
        if *n == usize::MAX {
            rec::note("mark", v);
        } else {
            rec::note("squeeze", format!("{} {}", n, v));
        }
    }
}
static SQ: Mutex<Vec<Vec<u8>>> = Mutex::new(vec![]);
/// the values squeezed since the last call (real runs)
pub fn squeezed() -> Vec<Vec<u8>> {
    std::mem::take(&mut *SQ.lock().unwrap())
}

/// whether the challenge with these low bits was squeezed right after absorbing `fork`
pub fn forked<F: Field, G: Field>(challenge: G, fork: u8) -> bool {
    let low = if let Some(x) = cast::<G, S<KP>>(challenge) {
        x.val().get_lower_128()
    } else if let Some(x) = cast::<G, S<KQ>>(challenge) {
        x.val().get_lower_128()
    } else {
        challenge.get_lower_128()
    };
    let n: Vec<usize> = prf().chal.iter().filter(|c| c.0 == low).map(|c| c.1).collect();
    let want = show(&F::from_u64(fork as u64));
    let log = LOG.lock().unwrap();
    n.iter().any(|n| log[*n].last() == Some(&want))
}
