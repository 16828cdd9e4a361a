//! The verification circuit.  /repo/src/recursion.rs is compiled twice more: against stand-in gadgets
//! that write down their contract (structural runs), and against the real gadgets (native replays).
#![allow(dead_code, unused_imports, non_snake_case)]
#[path = "../rec.rs"]
mod rec;
#[path = "../sym.rs"]
mod sym;
mod forge;
mod stand;
mod thin;

use halo::*;
use rec::*;
use std::marker::PhantomData;
use sym::*;

macro_rules! roots {
    ($m:ident, $($over:tt)*) => {
        pub mod $m {
            pub use halo::*;
            $($over)*
            pub mod circuits { pub use halo::*; $($over)* }
            pub mod gadgets { pub use halo::*; $($over)* }
            pub mod proofs { pub use halo::*; $($over)* }
            pub mod synthesis { pub use halo::*; $($over)* }
            pub mod fields { pub use halo::*; $($over)* }
            pub mod curves { pub use halo::*; $($over)* }
            pub mod util { pub use halo::*; $($over)* }
            pub mod recursion {
                #![allow(warnings)]
                include!("/repo/src/recursion.rs");
                include!("mk.rs");
            }
        }
    };
}
roots!(abs, pub use crate::stand::{CurvePoint, RescueGadget, unpack_fe};);
roots!(real, pub use crate::thin::CurvePoint;);

pub struct Inner {
    pub base: Vec<bool>,
}
impl<F: Field> RecursiveCircuit<F> for Inner {
    fn base_payload(&self) -> Vec<bool> {
        self.base.clone()
    }
    fn synthesize<CS: ConstraintSystem<F>>(&self, _: &mut CS, old: &[AllocatedBit], new: &[AllocatedBit]) -> Result<(), SynthesisError> {
        stand::log(format!("inner {} {}", stand::bits(old), stand::bits(new)));
        Ok(())
    }
}

/// parameters whose coordinate list is long enough for every public input
pub fn params<C: Curve>(k: usize, long: usize) -> Params<C> {
    let d = 1 << k;
    let g = C::one();
    let mut generators = vec![];
    let mut cur = g.double();
    for _ in 0..long.max(d) {
        cur = cur.double() + cur;
        generators.push(cur);
    }
    let generators_xy = generators.iter().map(|p| p.get_xy().unwrap()).collect();
    generators.truncate(d);
    Params { g, d, n: d / 4, k, generators, generators_xy }
}
pub fn inputs_len(k: usize, payload: usize) -> usize {
    8 * payload + 2 * (256 * 4 + 128 * (k + 1)) + 12 * 256 + (4 + 2 * k) * 128
}
fn shape<E1: Curve, E2: Curve<Base = E1::Scalar>>(args: &[String]) -> String
where
    E1::Scalar: HF,
{
    let k: usize = args[0].parse().unwrap();
    let base: Vec<bool> = args[1].chars().map(|c| c == '1').collect();
    let inner = Inner { base: base.clone() };
    let pl = vec![0u8; base.len() / 8];
    let ps = params::<E2>(k, inputs_len(k, pl.len()) + 2);
    let c = abs::recursion::mk_circuit::<E1, E2, _>(&ps, None, &inner, None, &pl, None, None, None, None);
    let mut r: Rec<E1::Scalar> = Rec::new();
    r.nowit = true;
    let res = Basic::synthesize(&mut r, &c);
    let h = |b: [u8; 32]| bytes_to_hex(&b);
    let log: Vec<String> = stand::LOG.lock().unwrap().iter().map(|s| format!("\"{}\"", s)).collect();
    let (gx, gy) = E2::one().get_xy().unwrap();
    format!(
        "{{\"res\":\"{:?}\",\"rec\":{},\"log\":[{}],\"gens\":[{}],\"g\":[\"{}\",\"{}\"],\"beta\":\"{}\"}}",
        res.is_ok(),
        dump_rec(&r),
        log.join(","),
        ps.generators_xy.iter().map(|(x, y)| format!("[\"{}\",\"{}\"]", h(x.to_bytes()), h(y.to_bytes()))).collect::<Vec<_>>().join(","),
        h(gx.to_bytes()),
        h(gy.to_bytes()),
        h(E1::Scalar::BETA.to_bytes())
    )
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        eprintln!("PANIC {}", i);
    }));
    let rest = &args[3..];
    let o = match (args[1].as_str(), args[2].as_str()) {
        ("shape", "p") => shape::<Ec0, Ec1>(rest),
        ("shape", _) => shape::<Ec1, Ec0>(rest),
        ("forge", "p") => forge::run::<Ec0, Ec1>(rest),
        ("forge", _) => forge::run::<Ec1, Ec0>(rest),
        _ => panic!("bad command"),
    };
    println!("{}", o);
}
