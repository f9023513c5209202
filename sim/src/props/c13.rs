//! C13: Failed and finished operations give back all memory

use std::any::Any;
use std::cell::Cell;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;

use firrtl_ast::circuit::{consumer, ModuleConsumer};
use firrtl_ast::expr::Expression;
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{mem, PortDir};
use firrtl_ast::module::{self, Module, Modules};
use firrtl_ast::named::Named;
use firrtl_ast::stmt::{Entity, Kind};
use firrtl_ast::types::{GroundType, Type, Typed};

use super::c07::{MyErr, Source, SrcErr, Step};
use super::shown::{self, Shown};
use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{render, render_modules, Style};

pub static PROP: Prop = Prop {
    id: "C13",
    run,
    quick: 160_000,
    level: "exploration",
    rule: "A random history of reads, module-wise reads, look-ups, consumptions, format, build, mutation, comparison, typing and scope operations, with read, write and source errors, damaged texts, early ends, panics and re-entry of caller code, and objects dropped early, late and in any order, is repeated six times (sometimes 64 times) with identical choices but all names and strings replaced by new ones. The number of allocations and bytes the library holds after each repetition must not grow, and all sources and sinks must have been dropped.",
    assumptions: &[
        "only memory obtained through Rust's global allocator is accounted for (the library uses no other)",
        "tables initialised once, by the first two repetitions, are not taken for leaks",
    ],
    cases: &[],
};

/// Results kept for a while
type Kept = Vec<Box<dyn Any>>;

/// Run something of which it does not matter here how it ends
fn whatever<T>(f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(f))) {
        Ok(v) => Some(v),
        Err(p) => {
            drop(p);
            None
        }
    }
}

fn keep<T: 'static>(kept: &mut Kept, v: Option<T>) {
    if let Some(v) = v {
        if draw(2) == 0 { kept.push(Box::new(v)) } else { lib(|| drop(v)) }
    }
    if draw(3) == 0 && !kept.is_empty() {
        let i = below(kept.len());
        let v = kept.swap_remove(i);
        lib(|| drop(v));
    }
}

fn some_text(spec: &SCircuit) -> String {
    let mut data = render(spec, &if draw(2) == 0 { Style::plain() } else { Style::draw() }).text.into_bytes();
    if draw(2) == 0 {
        let other = data.clone();
        for _ in 0..range(1, 2) { corrupt(&mut data, &other) }
    }
    String::from_utf8_lossy(&data).into_owned()
}

fn read(spec: &SCircuit, kept: &mut Kept) {
    let mut data = some_text(spec).into_bytes();
    if draw(6) == 5 {
        // Not UTF-8
        let at = below(data.len() + 1);
        data.insert(at, 0xff);
    }
    let at = below(data.len() + 1);
    let split = Split::draw(data.len());
    let mut r = SimRead::new(data, split);
    match draw(6) {
        0 | 1 => r = r.with(at, Action::Fail(Fail::draw())),
        2 => r = r.with(at, Action::Panic(1)),
        3 => r = r.with(at, Action::End),
        _ => (),
    }
    let got = whatever(|| Circuit::from_read(r));
    keep(kept, got);
}

fn parse_text(spec: &SCircuit, kept: &mut Kept) {
    let text = some_text(spec);
    let got = whatever(|| firrtl_ast::circuit::parse(&text));
    if let Some(Err(e)) = &got {
        whatever(|| e.to_string());
        whatever(|| format!("{e:?}"));
    }
    keep(kept, got);
}

fn module_wise(spec: &SCircuit, objs: &[Arc<Module>], kept: &mut Kept) {
    let k = below(spec.mods.len() + 1);
    let mut data = render_modules(&spec.mods[k..], &Style::plain()).text.into_bytes();
    if draw(3) == 0 {
        let other = data.clone();
        corrupt(&mut data, &other);
    }
    let text = String::from_utf8_lossy(&data).into_owned();
    let whole = format!("circuit {}:\n{text}", spec.name);
    if draw(3) == 0 {
        let Some(Ok(mut c)) = whatever(|| consumer(&whole)) else { return };
        for _ in 0..below(spec.mods.len() + 2) {
            let m = whatever(|| c.next());
            keep(kept, m);
        }
        match draw(3) {
            0 => { whatever(|| drop(c)); }
            1 => { let x = whatever(|| c.circuit()); keep(kept, x) }
            _ => { let x = whatever(|| c.into_circuit()); keep(kept, x) }
        }
        return;
    }
    let mut it = lib(|| Modules::new(&text));
    for m in &objs[..k] {
        if draw(4) < 3 { lib(|| it.add_module(m.clone())) }
    }
    for _ in 0..below(spec.mods.len() + 3) {
        match draw(4) {
            0..=1 => {
                let m = whatever(|| it.next());
                keep(kept, m);
            }
            2 => {
                let m = pick(objs);
                lib(|| it.add_module(m.clone()));
            }
            _ => {
                let n = pick(&spec.mods).name;
                let m = whatever(|| it.module(n).cloned());
                keep(kept, m);
            }
        }
    }
    whatever(|| drop(it));
}

/// A source which panics at some point
struct Panicky<I>(I, usize, Live);
impl<I: Iterator> Iterator for Panicky<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        callback(|| {
            if self.1 == 0 {
                self.1 = usize::MAX;
                inject_panic(2)
            }
            self.1 -= 1;
            self.0.next()
        })
    }
}

fn consume<E: SrcErr>(spec: &SCircuit, objs: &[Arc<Module>], kept: &mut Kept) {
    let n = size(6);
    let steps: Vec<Step> = (0..n).map(|_| match draw(6) {
        0..=3 => Step::Module(below(objs.len())),
        4 => Step::Error(draw(50)),
        _ => Step::End,
    }).collect();
    let src: Source<E> = Source {
        mods: Arc::new(objs.to_vec()),
        steps: Arc::new(steps),
        pulls: Shared::new(0),
        family: Shared::new(Vec::new()),
        sizes: draw(2) == 0,
        e: std::marker::PhantomData,
        live: Live::new(),
    };
    let top = if draw(4) == 0 { "nowhere".to_string() } else { pick(&spec.mods).name };
    let info = spec.info.clone();
    if draw(3) == 0 {
        let at = below(n + 2);
        let mut c = lib(|| ModuleConsumer::new(top, info, Panicky(src, at, Live::new())));
        for _ in 0..below(n + 1) {
            let m = whatever(|| c.next());
            keep(kept, m);
        }
        let x = whatever(|| c.into_circuit());
        keep(kept, x);
        return;
    }
    let mut c = lib(|| ModuleConsumer::new(top, info, src));
    for _ in 0..below(n + 2) {
        match draw(5) {
            0..=2 => { let m = whatever(|| c.next()); keep(kept, m) }
            3 => { let x = whatever(|| c.circuit()); keep(kept, x) }
            _ => if let Some(d) = whatever(|| E::dup(&c)) {
                let x = d.and_then(|d| whatever(|| d.into_circuit()));
                keep(kept, x);
            },
        }
    }
    if draw(2) == 0 {
        whatever(|| drop(c));
    } else {
        let x = whatever(|| c.into_circuit());
        keep(kept, x);
    }
}

fn show(c: &Circuit) {
    let s = if draw(2) == 0 { Shown::new("Circuit", c.clone()) } else { lib(|| shown::choose(c)) };
    let text = lib(|| s.text());
    match draw(4) {
        0 => {
            let n = draw(40);
            let mut sink = SimFmt::new(SinkPlan::Call(n, if draw(2) == 0 { Action::Panic(3) } else { Action::Fail(Fail::draw()) }));
            whatever(|| s.fmt(&mut sink));
        }
        1 => {
            let n = below(text.len() + 1);
            let mut sink = SimFmt::new(SinkPlan::Byte(n, draw(2) == 0, if draw(2) == 0 { Action::Panic(3) } else { Action::Fail(Fail::draw()) }));
            whatever(|| s.fmt(&mut sink));
        }
        k => {
            let at = below(text.len() + 1);
            let mut w = SimWrite::new(Split::draw(text.len()), Some((at, Fail::draw())));
            if k == 2 {
                whatever(|| s.io(&mut w));
            } else {
                whatever(|| {
                    let mut b = std::io::BufWriter::with_capacity(16, &mut w);
                    s.io(&mut b)
                });
            }
        }
    }
    lib(|| drop((s, text)));
}

fn inspect(c: &Circuit, cheap: bool, kept: &mut Kept) {
    for m in lib(|| all_modules(c.top_module())) {
        match draw(5) {
            0 => {
                // A modified copy
                let mut copy = lib(|| m.as_ref().clone());
                whatever(|| {
                    match copy.kind_mut() {
                        module::Kind::Regular { stmts } => {
                            let n = stmts.len();
                            stmts.truncate(n / 2);
                            let s: Vec<_> = stmts.clone();
                            stmts.extend(s);
                        }
                        k => *k = module::Kind::empty_regular(),
                    }
                    copy.set_info(Some("copied".to_string()));
                });
                keep(kept, Some(copy));
            }
            1 => {
                let n = below(4);
                let ports: Vec<_> = m.ports().cloned().collect();
                let kind = m.kind().clone();
                let name: Arc<str> = m.name().clone();
                let x = whatever(|| Module::new(name, Panicky(ports.into_iter(), n, Live::new()), kind));
                keep(kept, x);
            }
            2 => {
                let n = below(4);
                let ports: Vec<_> = m.ports().map(|p| mem::Port { name: p.name().clone(), dir: PortDir::Read }).collect();
                let x = whatever(|| {
                    let mut x = mem::Memory::new(m.name().clone(), GroundType::Clock, 8);
                    x.add_ports(Panicky(ports.into_iter(), n, Live::new()));
                    x
                });
                keep(kept, x);
            }
            3 => {
                let module::Kind::Regular { stmts } = m.kind() else { continue };
                for s in stmts {
                    whatever(|| s.declarations().count());
                    whatever(|| s.instantiations().count());
                    if !cheap { continue }
                    if let Kind::Connection { from, to } = s.kind() {
                        for e in [from, to] {
                            whatever(|| e.r#type());
                            whatever(|| e.flow());
                            whatever(|| e.references().count());
                            let x = whatever(|| Expression::SubField { base: Arc::new(e.clone()), index: "none".into() }.r#type());
                            keep(kept, x);
                        }
                    }
                    if let Kind::Declaration(d) = s.kind() {
                        let x = whatever(|| match d.as_ref() {
                            Entity::Node { value, .. } => value.r#type().ok(),
                            Entity::Memory(m) => m.r#type().ok(),
                            Entity::Instance(i) => i.r#type().ok(),
                            _ => None::<Type>,
                        });
                        keep(kept, x);
                    }
                }
            }
            _ => {
                if let Some(p) = m.ports().next() {
                    let n = p.name().clone();
                    let x = whatever(|| m.port_by_name(&n).cloned());
                    keep(kept, x);
                }
                whatever(|| m.referenced_modules().count());
            }
        }
    }
    if cheap {
        let other = c.clone();
        whatever(|| *c == other);
    }
}

fn iteration() {
    let mut kept: Kept = Vec::new();
    let mut cfg = gen::small_cfg();
    cfg.mods = gen::few(&cfg, pick(&[2, 1, 3]));
    for _ in 0..range(1, 3) {
        let spec = gen::circuit(&cfg);
        let what = draw(10);
        ev("op", what, 0);
        match what {
            0 | 1 => read(&spec, &mut kept),
            2 => parse_text(&spec, &mut kept),
            8 => {
                // Scopes
                let (n, calls) = (draw(60), Cell::new(0));
                let hook = Rc::new(move || {
                    calls.set(calls.get() + 1);
                    if calls.get() == n && !std::thread::panicking() { inject_panic(4) }
                });
                let _ = super::c12::history(hook);
            }
            9 => {
                // Panicking and re-entrant callbacks
                let env = super::c11::scene();
                let _ = super::c11::op(&env, 1);
            }
            _ => {
                let objs = lib(|| mk_modules(&spec));
                let c = lib(|| Circuit::new(objs[spec.top()].clone()).with_info(spec.info.clone()));
                match what {
                    3 | 4 => module_wise(&spec, &objs, &mut kept),
                    5 => if draw(2) == 0 { consume::<MyErr>(&spec, &objs, &mut kept) } else { consume::<std::io::Error>(&spec, &objs, &mut kept) },
                    6 => show(&c),
                    _ => inspect(&c, cheap(&spec), &mut kept),
                }
                if draw(2) == 0 { lib(|| drop((objs, c))) } else { lib(|| drop((c, objs))) }
            }
        }
    }
    while !kept.is_empty() {
        let i = below(kept.len());
        let v = kept.swap_remove(i);
        lib(|| drop(v));
    }
}

fn held() -> (i64, i64) {
    (crate::alloc::LIVE_COUNT.load(Relaxed), crate::alloc::LIVE_BYTES.load(Relaxed))
}

/// Makes sure that nothing of this run outlives it
struct Clean;
impl Drop for Clean {
    fn drop(&mut self) {
        tape_off();
        gen::SALT.store(0, Relaxed);
    }
}

const WARM: usize = 2;
const MEASURED: usize = 4;
const LONG: usize = 64;

fn run() -> Res {
    let _clean = Clean;
    let mut marks = vec![held()];
    let long = chance(1, 50);
    // Names differ between repetitions and, most likely, from those of other runs
    let base = 1 + draw(1 << 27);
    let sources = live_sources();
    tape_record();
    let mut once = |marks: &mut Vec<(i64, i64)>| -> Res {
        let i = marks.len() - 1;
        gen::SALT.store(base + i as u64, Relaxed);
        if i > 0 { tape_play() }
        iteration();
        marks.push(held());
        ev("repetition", i as u64, 0);
        ensure!(live_sources() == sources, "leak", "a source or sink handed over to the library was not dropped");
        Ok(())
    };
    for _ in 0..WARM + MEASURED { once(&mut marks)? }
    let grown = |m: &[(i64, i64)], f: &dyn Fn(&(i64, i64)) -> i64| m[WARM..].windows(2).filter(|m| f(&m[1]) > f(&m[0])).count();
    let (n, b) = (grown(&marks, &|m| m.0), grown(&marks, &|m| m.1));
    note(|| format!("allocations and bytes held, before and after each repetition: {marks:?}"));
    ensure!(n < MEASURED - 1 && b < MEASURED - 1, "leak", "repeating the same history lets the allocations and bytes held by the library grow: {marks:?}");
    if !long && n == 0 && b == 0 { return Ok(()) }
    // Tables do not grow every time something is added to them
    count("many_repetitions");
    while marks.len() <= LONG { once(&mut marks)? }
    let grown = |f: &dyn Fn(&(i64, i64)) -> i64| {
        let before = marks[1..=LONG / 4].iter().map(f).max();
        let after = marks[LONG - LONG / 4..].iter().map(f).min();
        after > before
    };
    note(|| format!("allocations and bytes held, before and after each repetition: {marks:?}"));
    ensure!(!grown(&|m| m.0) && !grown(&|m| m.1), "leak", "repeating the same history many times lets the allocations and bytes held by the library grow: {marks:?}");
    Ok(())
}
