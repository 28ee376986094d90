//! Searches for an input on which the real crate breaks a property, and replays one.
//! `gsreplay PROPERTY SEED SECONDS [--case N] [--lits a,b,c] [--max N]` prints one line of JSON.
//! Every case is determined by (property, seed, case number, literals).
#![allow(non_snake_case, non_upper_case_globals)]
mod gen;
mod props;
mod util;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (prop, seed, secs) = (a[1].clone(), a[2].parse::<u64>().unwrap(), a[3].parse::<f64>().unwrap());
    let opt = |n: &str| a.iter().position(|x| x == n).map(|i| a[i + 1].clone());
    let lits: Vec<u64> = opt("--lits")
        .map(|s| s.split(',').filter_map(|x| x.parse().ok()).collect())
        .unwrap_or_default();
    let only = opt("--case").map(|x| x.parse::<u64>().unwrap());
    let max = opt("--max").map(|x| x.parse::<u64>().unwrap()).unwrap_or(u64::MAX);
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = Instant::now();
    let (mut evals, mut samples) = (0u64, vec![]);
    let mut kinds = std::collections::BTreeSet::new();
    let mut st = props::State::default();
    let mut fail = None;
    let mut i = only.unwrap_or(0);
    loop {
        // the last line tells which case is running, should the process not survive it
        eprintln!("case {i}");
        let mut g = gen::Gen::new(seed, i, lits.clone());
        let r = catch_unwind(AssertUnwindSafe(|| props::run(&prop, &mut g, &mut st)));
        let r = match r {
            Ok(r) => r,
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
                Err(format!("unexpected panic: {}", m.unwrap_or_default()))
            }
        };
        evals += 1;
        if samples.len() < 3 {
            samples.push(g.note.clone());
        }
        kinds.insert(g.note.clone());
        if let Err(m) = r {
            fail = Some((i, format!("{m}; input: {}", g.note)));
            break;
        }
        i += 1;
        if only.is_some() || evals >= max || t0.elapsed().as_secs_f64() > secs {
            break;
        }
    }
    let q = |s: &str| format!("\"{}\"", s.chars().map(|c| match c {
        '"' => "\\\"".into(), '\\' => "\\\\".into(), '\n' => "\\n".into(),
        c if (c as u32) < 32 => " ".into(), c => c.to_string() }).collect::<String>());
    println!("{{\"property\":{},\"seed\":{},\"evaluations\":{},\"distinct\":{},\"seconds\":{:.2},\"samples\":[{}],\"fail\":{}}}",
        q(&prop), seed, evals, kinds.len(), t0.elapsed().as_secs_f64(),
        samples.iter().map(|s| q(s)).collect::<Vec<_>>().join(","),
        match &fail { None => "null".into(), Some((i, m)) => format!("{{\"case\":{},\"what\":{}}}", i, q(m)) });
    std::process::exit(if fail.is_some() { 1 } else { 0 });
}
