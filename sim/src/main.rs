//! Deterministic simulation of firrtl-ast

mod alloc;
mod bridge;
mod gen;
mod io;
mod points;
mod props;
mod refparse;
mod render;
mod spec;
mod sup;
mod sys;
mod world;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let num = |i: usize| a.get(i).and_then(|s| s.parse::<u64>().ok()).unwrap_or_else(|| usage());
    let prop = |i: usize| a.get(i).and_then(|s| props::find(s)).unwrap_or_else(|| usage());
    let root = std::env::var_os("FSIM_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"));
    let code = match a.first().copied() {
        Some("check") => {
            let p = prop(1);
            let quick = a.get(2).copied() != Some("thorough");
            let scale = std::env::var("FSIM_SCALE").ok().and_then(|s| s.parse::<f64>().ok()).unwrap_or(1.0);
            let (name, runs, secs) = if quick { ("quick", p.quick, 200.0) } else { ("thorough", u64::MAX / 2, 600.0 * scale) };
            let runs = if quick { (runs as f64 * scale) as u64 } else { runs };
            sup::check(p, sup::Tier { name, runs, secs }, &root)
        }
        Some("worker") => {
            let secs = a.get(6).and_then(|s| s.parse().ok()).unwrap_or(10.0);
            sup::worker(prop(1), num(2), num(3), num(4), num(5), secs, &PathBuf::from(a[7]), num(8))
        }
        Some("replay") if a.len() > 1 => sup::replay(&PathBuf::from(a[1]), a.get(2).is_some()),
        Some("one") => sup::one(prop(1), num(2), num(3)),
        Some("selfcheck") => sup::selfcheck(prop(1), num(2), num(3), num(4), num(5)),
        Some("list") => {
            props::ALL.iter().for_each(|p| println!("{}", p.id));
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}

fn usage() -> ! {
    eprintln!("usage: fsim check PROP [quick|thorough] | replay FILE | one PROP SEED RUN | selfcheck PROP SEED FIRST STRIDE N | list");
    std::process::exit(2)
}
