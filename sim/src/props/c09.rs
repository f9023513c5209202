//! C09: Threads working on shared ASTs do not influence each other

use std::fmt::Write as _;
use std::sync::Weak;
use std::sync::atomic::Ordering::Relaxed;

use firrtl_ast::info::WithInfo;
use firrtl_ast::module::{self, Module, Modules};
use firrtl_ast::named::Named;
use firrtl_ast::stmt::{self, Entity, Statement};
use firrtl_ast::types::{Combinator, MaxWidth, OrientedType, Type, TypeExt, Typed};

use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{render, Style};

pub static PROP: Prop = Prop {
    id: "C09",
    run,
    quick: 70_000,
    level: "exploration",
    rule: "Two to four tasks, each a real thread of which exactly one runs at a time, perform random operations (format, parse, read, compare, clone and change, type-check, look up, traverse, iterate, build, drop) on circuits sharing modules; the scheduler switches between them at control flow edges and atomic operations of the library, allocations, deallocations, transfers and lock operations, at random or by priorities lowered at random points. Every result is compared to that of the same operation run alone, the shared circuits to their models, and reference counts to those before.",
    assumptions: &[
        "switches happen at the library's atomic operations and control flow edges, at allocations, deallocations, futex calls and calls back into the harness; in the standard library's and in generic code compiled into the harness at the latter only", "the memory model is sequentially consistent",
    ],
    cases: &[],
};

/// Everything shared between the tasks
struct Common {
    circuits: Vec<Circuit>,
    specs: Vec<SCircuit>,
    cheap: Vec<bool>,
    texts: Vec<String>,
    bodies: Vec<SCircuit>,
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Format(usize),
    FormatTo(usize),
    Parse(usize),
    Read(usize),
    Compare(usize, usize),
    Change(usize, u64),
    Inspect(usize),
    Extract(usize),
    Stepwise(usize, usize),
    Build(usize),
    Lookup(usize),
    Drop(usize, usize),
    Hoard(usize, usize),
}

fn op(c: &Common) -> Op {
    let i = below(c.circuits.len());
    let t = below(c.texts.len());
    match draw(15) {
        0 | 1 => Op::Format(i),
        2 => Op::FormatTo(i),
        3 | 4 => Op::Parse(t),
        5 => Op::Read(t),
        6 => Op::Compare(i, below(c.circuits.len())),
        7 => Op::Change(i, draw(4)),
        8 => Op::Inspect(i),
        9 => Op::Extract(i),
        10 => Op::Stepwise(t, below(c.circuits.len() + 1)),
        11 => Op::Build(below(c.bodies.len())),
        12 => Op::Lookup(i),
        13 => Op::Hoard(i, pick(&[3, 20, 70, 300])),
        _ => Op::Drop(i, below(c.circuits.len())),
    }
}

fn show(r: &Result<Circuit, ParseError>) -> String {
    match r {
        Ok(c) => dump_circuit(&extract(c)),
        Err(e) => format!("error: {}", err_text(e)),
    }
}

/// Some operations are known to panic for some operands. That has to be the
/// same in any case, too.
fn may_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    let lib = crate::world::in_lib();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    set_lib(lib);
    r.ok()
}

fn exprs(v: &[Statement], f: &mut dyn FnMut(&Ex)) {
    use stmt::Kind as K;
    for s in v {
        match s.kind() {
            K::Connection { from, to } | K::PartialConnection { from, to } => { f(to); f(from) }
            K::Declaration(e) => {
                f(&e.clone().into());
                match e.as_ref() {
                    Entity::Node { value, .. } => f(value),
                    Entity::Register(r) => f(r.clock()),
                    Entity::SimpleMemPort(p) => f(p.address()),
                    _ => (),
                }
            }
            K::Invalidate(e) => f(e),
            K::Attach(v) => v.iter().for_each(|e| f(e)),
            K::Conditional { cond, when, r#else } => { f(cond); exprs(when, f); exprs(r#else, f) }
            K::Stop { cond, .. } | K::Print { cond, .. } => f(cond),
            _ => (),
        }
    }
}

/// What types have in common
fn relate(a: &Type, b: &Type, o: &mut String) {
    let x = may_panic(|| (TypeExt::eq(a, b), a.weak_eq(b), a.is_passive(), b.ground_type()));
    let y = may_panic(|| MaxWidth::new().combine(a, b).map_err(|(a, b)| (a.clone(), b.clone())));
    let z = may_panic(|| {
        let (a, b) = (OrientedType::from(a), OrientedType::from(b));
        (TypeExt::eq(&a, &b), a.is_passive(), TypeExt::eq(&a.flipped(), &b))
    });
    write!(o, "{x:?} {y:?} {z:?} {:?}", a.fields().map(|f| f.map(|f| f.to_string()).collect::<Vec<_>>())).unwrap();
}

/// Types, flows, references, declarations and instances of a module
fn inspect(m: &Module, o: &mut String) {
    let mut last: Option<Type> = None;
    exprs(m.statements(), &mut |e| {
        match may_panic(|| e.r#type()) {
            Some(Ok(t)) => {
                write!(o, "{t:?} {t} ").unwrap();
                if let Some(l) = last.replace(t.clone()) { relate(&l, &t, o) }
            }
            Some(Err(e)) => write!(o, "no type: {e} ").unwrap(),
            None => o.push_str("panic "),
        }
        match may_panic(|| e.flow()) {
            Some(Ok(t)) => write!(o, "{t:?} ").unwrap(),
            Some(Err(e)) => write!(o, "no flow: {e} ").unwrap(),
            None => o.push_str("panic "),
        }
        let mut n: Vec<&str> = e.references().map(|r| r.name_ref()).collect();
        n.sort_unstable();
        writeln!(o, "{n:?}").unwrap();
    });
    for s in m.statements() {
        let mut d: Vec<&str> = s.declarations().map(|d| d.name_ref()).collect();
        d.sort_unstable();
        let mut i: Vec<&str> = s.instantiations().map(|d| d.module().name_ref()).collect();
        i.sort_unstable();
        writeln!(o, "{d:?} {i:?}").unwrap();
    }
    let r: Vec<&str> = m.referenced_modules().map(|m| m.name_ref()).collect();
    writeln!(o, "{r:?}").unwrap();
}

fn exec(op: Op, c: &Common) -> String {
    ev("op", match op {
        Op::Format(i) | Op::FormatTo(i) | Op::Inspect(i) | Op::Extract(i) | Op::Lookup(i) => i as u64,
        Op::Parse(i) | Op::Read(i) | Op::Build(i) => 100 + i as u64,
        Op::Stepwise(i, k) => 4000 + (10 * i + k) as u64,
        Op::Compare(i, j) | Op::Drop(i, j) => (1000 + 10 * i + j) as u64,
        Op::Hoard(i, k) => 3000 + (10 * i + k) as u64,
        Op::Change(i, k) => 2000 + 10 * i as u64 + k,
    }, 0);
    match op {
        Op::Format(i) => format(&c.circuits[i]),
        Op::FormatTo(i) => {
            // A sink at which others may run
            let mut w = SimFmt::new(SinkPlan::Never);
            let st = w.state.clone();
            let r = lib(|| write!(w, "{}", c.circuits[i]));
            format!("{r:?} {}", String::from_utf8_lossy(&st.get().got))
        }
        Op::Parse(i) => show(&parse(&c.texts[i])),
        Op::Read(i) => show(&from_read(SimRead::new(arc(&c.texts[i]), Split { sizes: vec![1 + i, 32, 500], eintr: 0, stall: 0, storm: Default::default() }))),
        Op::Compare(i, j) => if c.cheap[i] && c.cheap[j] {
            format!("{}", lib(|| c.circuits[i] == c.circuits[j]))
        } else {
            String::new()
        },
        Op::Change(i, k) => {
            // A private copy which shares most of its parts
            let mut copy = lib(|| c.circuits[i].clone());
            match k {
                0 => lib(|| copy.set_info(Some("changed".into()))),
                1 => copy = lib(|| {
                    let mut top = copy.top_module().clone();
                    let m = Arc::make_mut(&mut top);
                    if let module::Kind::Regular { stmts } = m.kind_mut() { stmts.push(stmt::Kind::Empty.into()) }
                    Circuit::new(top)
                }),
                2 => copy = lib(|| {
                    let mut top = copy.top_module().clone();
                    let m = Arc::make_mut(&mut top);
                    m.set_info(Some("changed".into()));
                    if let module::Kind::Regular { stmts } = m.kind_mut() { stmts.reverse() }
                    Circuit::new(top)
                }),
                _ => copy = lib(|| {
                    let mut top = copy.top_module().clone();
                    let m = Arc::make_mut(&mut top);
                    *m.kind_mut() = module::Kind::empty_external();
                    Circuit::new(top).with_info(copy.info().map(|s| s.to_string()))
                }),
            }
            format(&copy)
        }
        Op::Inspect(i) => if c.cheap[i] {
            let mut o = String::new();
            lib(|| all_modules(c.circuits[i].top_module()).iter().for_each(|m| inspect(m, &mut o)));
            o
        } else {
            String::new()
        },
        Op::Extract(i) => dump_circuit(&extract(&c.circuits[i])),
        Op::Stepwise(i, k) => {
            let t = &c.texts[i];
            let body = t.find('\n').map(|n| &t[n + 1..]).unwrap_or("");
            let mut it = lib(|| Modules::new(body));
            let mut o = String::new();
            let mut seen: Vec<Arc<Module>> = Vec::new();
            if let Some(x) = c.circuits.get(k) {
                // Link the text to modules shared with others
                let mods = lib(|| all_modules(x.top_module()));
                let copies = lib(|| vec![mods.clone(); 1 + 40 * (i % 2)]);
                for m in &mods {
                    lib(|| it.add_module(m.clone()));
                    yield_now("link");
                }
                for m in &mods {
                    let found = lib(|| it.module(m.name_ref()).is_some_and(|x| Arc::ptr_eq(x, m)));
                    writeln!(o, "{} {found}", m.name_ref()).unwrap();
                }
                lib(|| drop((copies, mods)));
            }
            while let Some(r) = lib(|| it.next()) {
                yield_now("step");
                match r {
                    Ok(m) => {
                        let known = lib(|| it.module(m.name_ref()).is_some_and(|x| Arc::ptr_eq(x, &m)));
                        writeln!(o, "{} {known}", m.name_ref()).unwrap();
                        seen.push(m);
                    }
                    Err(e) => writeln!(o, "error: {}", err_text(&e)).unwrap(),
                }
            }
            for m in lib(|| x_list(&seen)) { o.push_str(&dump(&m)) }
            o
        }
        Op::Build(i) => {
            let x = build(&c.bodies[i]);
            format(&x)
        }
        Op::Lookup(i) => {
            let mut o = String::new();
            for m in lib(|| all_modules(c.circuits[i].top_module())) {
                let names: Vec<String> = m.ports().map(|p| p.name().to_string()).collect();
                for n in names {
                    let p = lib(|| m.port_by_name(&n).map(|p| p.to_string()));
                    writeln!(o, "{n} {p:?}").unwrap();
                }
                lib(|| drop(m));
            }
            o
        }
        Op::Hoard(i, n) => {
            // Hold on to many copies while doing something else
            let v: Vec<Circuit> = lib(|| (0..n).map(|_| c.circuits[i].clone()).collect());
            yield_now("hoard");
            let r = format!("{}{}", format(&v[n - 1]), v.iter().filter(|x| Arc::ptr_eq(x.top_module(), c.circuits[i].top_module())).count());
            let text = &c.texts[i % c.texts.len()];
            let read: Vec<_> = (0..n.min(3)).map(|_| parse(text)).collect();
            let read: String = read.iter().map(show).collect();
            let mods: Vec<_> = lib(|| v.iter().map(|x| x.top_module().clone()).collect());
            lib(|| drop(v));
            yield_now("hoard");
            lib(|| drop(mods));
            r + &read
        }
        Op::Drop(i, j) => {
            let a = lib(|| c.circuits[i].clone());
            let b = lib(|| Circuit::new(c.circuits[j].top_module().clone()));
            let r = format!("{} {}", a.top_module().name_ref(), b.top_module().name_ref());
            lib(|| drop(a));
            lib(|| drop(b));
            r
        }
    }
}

fn prepare() -> Common {
    let mut cfg = gen::small_cfg();
    cfg.mods = gen::few(&cfg, pick(&[1, 2, 3]));
    if draw(4) == 3 {
        // Many declarations of names never seen before
        count("many_declarations");
        cfg.mods = pick(&[1, 1, 2]);
        cfg.stmts = range(4, 30);
        cfg.full = true;
        cfg.kinds = pick(&[vec![3], vec![3, 5], vec![3, 4, 5, 6, 7, 8, 9, 0]]);
        cfg.depth = 1;
        cfg.ty_depth = 1;
        cfg.when_depth = 0;
        cfg.ext = 0;
        gen::SALT.store(draw(1 << 24), Relaxed);
    }
    let mut specs: Vec<SCircuit> = vec![gen::circuit(&cfg)];
    if cfg.full || draw(2) == 1 { specs.push(gen::circuit(&cfg)) }
    gen::SALT.store(0, Relaxed);
    let bodies = specs.clone();
    let mut circuits: Vec<Circuit> = specs.iter().map(build).collect();
    let mut texts: Vec<String> = specs.iter().map(|s| render(s, &Style::plain()).text).collect();
    if draw(2) == 1 {
        // Some other circuit around modules of the first one
        let mods = lib(|| all_modules(circuits[0].top_module()));
        let m = &mods[below(mods.len())];
        circuits.push(lib(|| Circuit::new(m.clone()).with_info(Some("part".into()))));
        let s = extract(circuits.last().unwrap());
        specs.push(s);
    }
    if draw(2) == 1 {
        circuits.push(lib(|| circuits[0].clone()));
        specs.push(specs[0].clone());
    }
    if draw(2) == 1 {
        if let Ok(c) = parse(&texts[0]) {
            circuits.push(c);
            specs.push(specs[0].clone());
        }
    }
    if draw(2) == 1 {
        let mut data = texts[0].clone().into_bytes();
        let other = texts.last().unwrap().clone().into_bytes();
        corrupt(&mut data, &other);
        if let Ok(t) = String::from_utf8(data) { texts.push(t) }
    }
    let specs: Vec<SCircuit> = specs.iter().map(normal).collect();
    let cheap = specs.iter().map(cheap).collect();
    Common { circuits, specs, cheap, texts, bodies }
}

fn run() -> Res {
    shareable()?;
    let common = Arc::new(prepare());
    for (c, s) in common.circuits.iter().zip(&common.specs) { same("construction", s, c)? }
    let counts: Vec<usize> = common.circuits.iter().map(|c| Arc::strong_count(c.top_module())).collect();
    let ntasks = pick(&[2, 2, 3, 4]);
    let plan: Vec<Vec<Op>> = (0..ntasks).map(|_| (0..range(1, 5)).map(|_| op(&common)).collect()).collect();
    note(|| format!("plan: {plan:?}"));
    for t in &common.texts {
        state(t.as_bytes());
        note(|| format!("text:\n{t}"));
    }
    state(format!("{plan:?}").as_bytes());
    // What each operation does when run alone is found out before or afterwards
    let alone = |c: &Common| -> Vec<Vec<String>> {
        plan.iter().map(|p| p.iter().map(|o| exec(*o, c)).collect()).collect()
    };
    let first = draw(2) == 0;
    let mut want = if first { alone(&common) } else { Vec::new() };
    let density = pick(&[200, 20, 1000, 60]);
    set_preemption(density);
    let slots: Vec<_> = plan.iter().map(|p| {
        let p = p.clone();
        let c = common.clone();
        spawn(move || -> Vec<String> { p.iter().map(|o| exec(*o, &c)).collect() })
    }).collect();
    let mut got = Vec::new();
    for s in slots { got.push(join(s)?) }
    set_preemption(0);
    if !first { want = alone(&common) }
    for (t, (w, g)) in want.iter().zip(&got).enumerate() {
        for (i, (w, g)) in w.iter().zip(g).enumerate() {
            ensure!(w == g, "result", "task {t}: {:?} led to something else than when run alone: {}", plan[t][i], first_diff(w, g));
        }
    }
    for (i, (c, s)) in common.circuits.iter().zip(&common.specs).enumerate() {
        same("changed", s, c)?;
        let n = Arc::strong_count(c.top_module());
        ensure!(n == counts[i], "owners", "the top module of circuit {i} has {n} owners instead of {}", counts[i]);
    }
    let Ok(common) = Arc::try_unwrap(common) else { return viol("owners", "a task still holds on to the shared data") };
    last_owner(common, &want, &plan, density)
}

/// Let the tasks be the last owners of everything
fn last_owner(common: Common, want: &[Vec<String>], plan: &[Vec<Op>], density: u64) -> Res {
    if draw(3) != 0 {
        return Ok(());
    }
    count("last_owner");
    let weak: Vec<Weak<Module>> = common.circuits.iter().flat_map(|c| lib(|| all_modules(c.top_module()))).map(|m| Arc::downgrade(&m)).collect();
    let specs = common.specs.clone();
    let cheap = common.cheap.clone();
    set_preemption(density);
    let slots: Vec<_> = plan.iter().map(|p| {
        let p = p.clone();
        // Each task owns circuits of its own which share modules
        let c = Common {
            circuits: common.circuits.iter().map(|c| lib(|| c.clone())).collect(),
            specs: specs.clone(),
            cheap: cheap.clone(),
            texts: common.texts.clone(),
            bodies: common.bodies.clone(),
        };
        spawn(move || -> Vec<String> {
            let r = p.iter().map(|o| exec(*o, &c)).collect();
            let Common { circuits, .. } = c;
            for c in circuits { lib(|| drop(c)) }
            r
        })
    }).collect();
    let Common { circuits, .. } = common;
    for c in circuits { lib(|| drop(c)) }
    for (t, s) in slots.into_iter().enumerate() {
        let got = join(s)?;
        for (i, (w, g)) in want[t].iter().zip(&got).enumerate() {
            ensure!(w == g, "result", "task {t}: {:?} led to something else than when run alone: {}", plan[t][i], first_diff(w, g));
        }
    }
    set_preemption(0);
    let alive = weak.iter().filter(|w| w.strong_count() > 0).count();
    ensure!(alive == 0, "owners", "{alive} modules outlive their last owner");
    Ok(())
}

/// Sharing between threads is part of the interface
fn shareable() -> Res {
    struct Probe<T>(std::marker::PhantomData<T>);
    trait Otherwise { const SHARED: bool = false; }
    impl<T> Otherwise for Probe<T> {}
    impl<T: Send + Sync> Probe<T> { const SHARED: bool = true; }
    macro_rules! check {
        ($($t:ty),*) => { $(
            ensure!(Probe::<$t>::SHARED, "not shareable", "{} is not Send and Sync", stringify!($t));
        )* }
    }
    check!(
        Circuit, Module, module::Port, module::Instance, Statement, Entity, Ex, ParseError, Modules<'static>,
        firrtl_ast::types::Type, firrtl_ast::memory::simple::Memory, firrtl_ast::circuit::ModuleConsumer<Modules<'static>, ParseError>
    );
    Ok(())
}
