#![allow(dead_code)]
mod circ;
mod curve;
mod fnscn;
mod group;
mod rec;
mod sym;
use curve::*;
use halo::*;
use rec::*;
use std::collections::HashMap;
use std::io::Read;
use std::marker::PhantomData;
use sym::*;

fn run_circ<C: HC>(name: &str, args: &[String], mode: &str) -> String
where
    <C as HC>::B: HasReal,
    <C as HC>::Sc: HasReal,
{
    let mut r: Rec<<C as HC>::B> = Rec::new();
    r.nowit = mode == "nowit" || mode == "snowit";
    if mode == "imposed" {
        let mut m = HashMap::new();
        let keys: Vec<String> = inputs().lock().unwrap().keys().cloned().collect();
        for k in keys {
            if let Some(rest) = k.strip_prefix('@') {
                let ch = rest.chars().next().unwrap();
                let i: usize = rest[1..].parse().unwrap();
                m.insert((ch, i), <C as HC>::B::input(&k));
            }
        }
        r.imposed = Some(m);
    }
    let s = circ::Scn::<C> {
        name: name.to_string(),
        args: args.to_vec(),
        nowit: r.nowit,
        _m: PhantomData,
    };
    let res = Basic::synthesize(&mut r, &s);
    let mut viol = vec![];
    if mode == "real" || mode == "imposed" {
        viol = r.violations();
    }
    format!(
        "{{\"res\":\"{}\",\"viol\":[{}],\"rec\":{},{},\"arena\":{}}}",
        match res {
            Ok(()) => "ok".to_string(),
            Err(e) => format!("{:?}", e),
        },
        viol.iter().map(|v| format!("\"{}\"", v)).collect::<Vec<_>>().join(","),
        dump_rec(&r),
        dump_trace(),
        match <C as HC>::B::tag() {
            'p' => dump_arena::<KP>(),
            _ => dump_arena::<KQ>(),
        }
    )
}

fn read_inputs() {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).unwrap();
    let mut m = inputs().lock().unwrap();
    for l in s.lines() {
        let mut it = l.split_whitespace();
        if let (Some(a), Some(b)) = (it.next(), it.next()) {
            m.insert(a.to_string(), b.to_string());
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        eprintln!("PANIC {}", i);
    }));
    read_inputs();
    match args[1].as_str() {
        "circ" => {
            let mode = args[2].as_str();
            let rest = &args[5..];
            let o = match (mode, args[3].as_str()) {
                ("sym", "p") | ("snowit", "p") => run_circ::<SCurve<KP>>(&args[4], rest, mode),
                ("sym", "q") | ("snowit", "q") => run_circ::<SCurve<KQ>>(&args[4], rest, mode),
                (_, "p") => run_circ::<Ec1>(&args[4], rest, mode),
                (_, "q") => run_circ::<Ec0>(&args[4], rest, mode),
                _ => panic!("bad mode"),
            };
            println!("{}", o);
        }
        "fn" => {
            let rest = &args[5..];
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (args[2].as_str(), args[3].as_str()) {
                ("sym", "p") => fnscn::run::<group::G<KP>>(&args[4], rest, true),
                ("sym", "q") => fnscn::run::<group::G<KQ>>(&args[4], rest, true),
                (_, "p") => fnscn::run::<Ec0>(&args[4], rest, false),
                (_, "q") => fnscn::run::<Ec1>(&args[4], rest, false),
                _ => panic!("bad mode"),
            }));
            println!(
                "{{\"panic\":{},{},\"arenas\":{{\"p\":{},\"q\":{}}}}}",
                r.is_err(),
                dump_trace(),
                dump_arena::<KP>(),
                dump_arena::<KQ>()
            );
        }
        "consts" => {
            let h = |b: [u8; 32]| {
                let mut s = "0x".to_string();
                for x in b.iter().rev() {
                    s += &format!("{:02x}", x);
                }
                s
            };
            println!(
                "{{\"beta\":{{\"p\":\"{}\",\"q\":\"{}\"}},\"b\":{{\"p\":\"{}\",\"q\":\"{}\"}}}}",
                h(Fp::BETA.to_bytes()),
                h(Fq::BETA.to_bytes()),
                h(Ec1::b().to_bytes()),
                h(Ec0::b().to_bytes())
            );
        }
        _ => panic!("bad command"),
    }
}
