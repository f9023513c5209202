//! C14: Results stay valid and unchanged independent of how they came about

use firrtl_ast::circuit::{consumer, ModuleConsumer};
use firrtl_ast::info::WithInfo;
use firrtl_ast::module::{self, Module, Modules};
use firrtl_ast::named::Named;

use super::*;
use crate::gen;
use crate::io::*;
use crate::refparse;
use crate::render::{render_modules, Style};

pub static PROP: Prop = Prop {
    id: "C14",
    run,
    quick: 130_000,
    level: "exploration",
    rule: "The modules of a random hierarchy are distributed over one to four nodes (tasks), each of which reads its share module by module, consumes it, or builds it, waits for and adds modules of other nodes, hands over its modules, and then ends in some way (exhausted, failing on malformed text, dropped early, unwound by a panic, kept open), under a random schedule. Modules are identified by address and compared to the model then and later; circuits combined from them (or from several equal copies of them) are written, moved through a faulty transfer, read back, consumed module by module, and their text is read by the reference parser.",
    assumptions: &["no two different modules of a combined circuit have the same name (such a circuit has no text)"],
    cases: &[],
};

/// What the nodes share
struct Hub {
    specs: Vec<SModule>,
    objs: Vec<Option<Arc<Module>>>,
    viol: Option<Viol>,
}

const READY: u64 = 0x4855_4200;

/// Where a node's modules come from
enum Origin<'a> {
    Text(Modules<'a>),
    Consumer(ModuleConsumer<Modules<'a>, ParseError>),
    Hand,
}

fn deps(m: &SModule) -> Vec<usize> {
    let mut v: Vec<usize> = m.instances().into_iter().map(|(_, i)| i).collect();
    v.sort();
    v.dedup();
    v
}

/// Checks a module as soon as it is available
fn inspect(hub: &Hub, i: usize, m: &Arc<Module>) -> Res {
    let got = lib(|| x_module(m, &|d| hub.objs.iter().position(|o| o.as_ref().is_some_and(|o| Arc::ptr_eq(o, d))).unwrap_or(DANGLING)));
    ensure!(got == hub.specs[i], "module", "{}", mods_diff(&[hub.specs[i].clone()], &[got]));
    Ok(())
}

fn node(hub: Shared<Hub>, own: Vec<usize>, text: String, kind: u64, end: u64, last: Shared<Option<String>>) -> Res {
    let header = format!("circuit {}:\n", hub.get().specs[own[own.len() - 1]].name);
    let whole = format!("{header}{text}");
    let mut origin = match kind {
        0 | 1 => Origin::Text(lib(|| Modules::new(&text))),
        2 => Origin::Text(lib(|| Modules::new_with_origin(&whole[header.len()..], &whole))),
        3 => match lib(|| consumer(&whole)) {
            Ok(c) => Origin::Consumer(c),
            Err(e) => return viol("rejected", format!("{}\n{}", err_text(&e), text_excerpt(&whole))),
        },
        _ => Origin::Hand,
    };
    let mut added = vec![false; hub.get().specs.len()];
    for &i in &own {
        let needs = deps(&hub.get().specs[i]);
        loop {
            let h = hub.get();
            if h.viol.is_some() { return Ok(()) }
            if needs.iter().all(|d| h.objs[*d].is_some()) { break }
            count("waited");
            block_on(READY);
        }
        if let Origin::Text(it) = &mut origin {
            for d in 0..hub.get().specs.len() {
                if own.contains(&d) || added[d] { continue }
                // What is needed, and some others
                if !needs.contains(&d) && draw(3) != 0 { continue }
                let Some(m) = hub.get().objs[d].clone() else { continue };
                ev("add", i as u64, d as u64);
                count("handed_over");
                lib(|| it.add_module(m.clone()));
                added[d] = true;
                let got = lib(|| it.module(m.name()).cloned());
                ensure!(got.is_some_and(|g| Arc::ptr_eq(&g, &m)), "added module", "looking up an added module yields something else");
            }
        }
        ev("step", i as u64, kind);
        let got = match &mut origin {
            Origin::Text(it) => lib(|| it.next()),
            Origin::Consumer(c) => lib(|| c.next()),
            Origin::Hand => {
                // (Only those before are instantiated)
                let known: Vec<Arc<Module>> = {
                    let h = hub.get();
                    let any = h.objs.iter().flatten().next().cloned();
                    (0..i).filter_map(|k| h.objs[k].clone().or(any.clone())).collect()
                };
                let s = hub.get().specs[i].clone();
                Some(Ok(lib(|| mk_module(&s, &known))))
            }
        };
        let m = match got {
            Some(Ok(m)) => m,
            Some(Err(e)) => return viol("rejected", format!("module {}: {}\n{}", hub.get().specs[i].name, err_text(&e), text_excerpt(&text))),
            None => return viol("early end", format!("the end instead of module {}", hub.get().specs[i].name)),
        };
        inspect(hub.get(), i, &m)?;
        hub.get().objs[i] = Some(m);
        notify(READY, u64::MAX);
        yield_now("handover");
    }
    let more = |o: &mut Origin| match o {
        Origin::Text(it) => lib(|| it.next()),
        Origin::Consumer(c) => lib(|| c.next()),
        Origin::Hand => None,
    };
    match end {
        0 => lib(|| drop(origin)),
        1 => {
            count("fault_origin_exhausted_or_failed");
            // (What is left may start with a complete, if unwelcome module)
            for _ in 0..3 { drop(more(&mut origin)) }
            lib(|| drop(origin));
        }
        2 => {
            count("fault_origin_panicked");
            inject_panic(1)
        }
        _ => {
            // Wait for the others, with the origin kept open
            while hub.get().viol.is_none() && hub.get().objs.iter().any(Option::is_none) { block_on(READY) }
            let top = lib(|| match &origin {
                Origin::Consumer(c) => c.circuit(),
                _ => None,
            });
            if let Some(c) = top { *last.get() = Some(c.top_module().name().to_string()) }
            lib(|| drop(origin));
        }
    }
    Ok(())
}

/// A circuit combined from the modules is like any other
fn combine(specs: &[SModule], objs: &[Arc<Module>], top: usize) -> Res {
    let info = gen::info(&gen::small_cfg());
    let copied = draw(4) == 3;
    let c = if copied {
        // Several equal objects for one module, e.g. because of several readers
        count("copies_combined");
        let mut copies: Vec<Arc<Module>> = Vec::new();
        for (i, s) in specs.iter().enumerate() {
            let users: Vec<Arc<Module>> = (0..i).map(|k| match draw(3) {
                0 => objs[k].clone(),
                1 => copies[k].clone(),
                _ => lib(|| Arc::new(copies[k].as_ref().clone())),
            }).collect();
            copies.push(lib(|| mk_module(s, &users)));
        }
        lib(|| Circuit::new(copies[top].clone()).with_info(info.clone()))
    } else {
        lib(|| Circuit::new(objs[top].clone()).with_info(info.clone()))
    };
    let spec = SCircuit { name: specs[top].name.clone(), info, mods: normal_mods(specs, top) };
    if !copied {
        ensure!(Arc::ptr_eq(c.top_module(), &objs[top]), "combined", "the top module is some other object");
        same("combined", &spec, &c)?;
    }
    let text = format(&c);
    note(|| format!("combined:\n{}", text_excerpt(&text)));
    let r = refparse::read(&text);
    for m in &spec.mods {
        let n = r.mods.iter().filter(|r| r.name == m.name).count();
        ensure!(n == 1, "text", "module {} is defined {n} times\n{}", m.name, text_excerpt(&text));
    }
    match r.circuit() {
        Some(x) if normal(&x) == spec => (),
        Some(x) => return viol("text", format!("{}\n{}", circuit_diff(&spec, &normal(&x)), text_excerpt(&text))),
        None => return viol("text", format!("the text does not denote a circuit\n{}", text_excerpt(&text))),
    }
    match draw(3) {
        0 => {
            let back = read_ok("rejected", parse(&text), &text)?;
            same("read back", &spec, &back)?;
        }
        1 => {
            let (mut tx, rx) = pipe(range(1, 64), 1, Split::draw(text.len()), Split::draw(text.len()));
            let copy = c.clone();
            let writer = spawn(move || lib(|| std::io::Write::write_fmt(&mut tx, format_args!("{copy}"))).is_ok());
            let back = read_ok("rejected", from_read(rx), &text)?;
            ensure!(join(writer)?, "transfer", "writing to a healthy pipe failed");
            same("read back", &spec, &back)?;
        }
        _ => {
            let mut got = Vec::new();
            let mut it = match lib(|| consumer(&text)) {
                Ok(it) => it,
                Err(e) => return viol("rejected", err_text(&e)),
            };
            while let Some(m) = lib(|| it.next()) {
                match m {
                    Ok(m) => got.push(m),
                    Err(e) => return viol("rejected", err_text(&e)),
                }
            }
            let back = lib(|| it.into_circuit());
            let back = read_ok("consumed", back, &text)?;
            let list = lib(|| x_list(&got));
            ensure!(list == r.mods, "consumed", "{}", mods_diff(&r.mods, &list));
            same("consumed", &spec, &back)?;
        }
    }
    // The objects may be consumed, too, in any order
    let mut order: Vec<usize> = (0..objs.len()).collect();
    for i in (1..order.len()).rev() { order.swap(i, below(i + 1)) }
    let src: Vec<Result<Arc<Module>, ParseError>> = order.iter().map(|i| Ok(objs[*i].clone())).collect();
    let x = lib(|| ModuleConsumer::new(spec.name.as_str(), spec.info.clone(), src.into_iter()).into_circuit());
    match x {
        Ok(x) if Arc::ptr_eq(x.top_module(), &objs[top]) => same("consumed objects", &spec, &x),
        Ok(_) => viol("consumed objects", "the top module is some other object"),
        Err(e) => viol("consumed objects", err_text(&e)),
    }
}

/// Put something on top of what exists
fn extend(specs: &mut Vec<SModule>, objs: &mut Vec<Arc<Module>>) -> Res {
    let mut cfg = gen::small_cfg();
    cfg.ext = 0;
    let mut name = gen::ident(&cfg);
    while specs.iter().any(|m| m.name == name) { name.push('x') }
    let mut s = gen::module(&cfg, name, specs, true);
    if draw(2) == 0 {
        // Make sure that there are instances, of modules of several origins
        if let Some(v) = s.stmts_mut() {
            for i in 0..range(1, 4) {
                let k = below(specs.len());
                let name = format!("inst${i}");
                v.push(SStmt { kind: SSk::Inst { name, module: (specs[k].name.clone(), k) }, info: None });
            }
        }
    }
    let m = if draw(2) == 0 {
        count("hand_made_top");
        lib(|| mk_module(&s, objs))
    } else {
        count("read_top");
        let text = render_modules(std::slice::from_ref(&s), &Style::plain()).text;
        let mut it = lib(|| Modules::new(&text));
        for o in objs.iter() { lib(|| it.add_module(o.clone())) }
        match lib(|| it.next()) {
            Some(Ok(m)) => m,
            Some(Err(e)) => return viol("rejected", format!("{}\n{text}", err_text(&e))),
            None => return viol("early end", "the end instead of a module"),
        }
    };
    let x = lib(|| x_module(&m, &|d| objs.iter().position(|o| Arc::ptr_eq(o, d)).unwrap_or(DANGLING)));
    ensure!(x == s, "module", "{}", mods_diff(&[s.clone()], &[x]));
    specs.push(s);
    objs.push(m);
    Ok(())
}

/// Copies may be changed
fn change(objs: &[Arc<Module>]) {
    count("changed_copy");
    let m = &objs[below(objs.len())];
    lib(|| {
        let mut copy = if draw(2) == 0 { m.as_ref().clone() } else { let mut a = m.clone(); std::mem::replace(Arc::make_mut(&mut a), m.as_ref().clone()) };
        match copy.kind_mut() {
            module::Kind::Regular { stmts } => {
                stmts.reverse();
                stmts.truncate(1);
            }
            module::Kind::External { params, .. } => params.clear(),
        }
        copy.set_info(Some("changed".to_string()));
        drop(copy)
    })
}

fn run() -> Res {
    let mut cfg = if chance(1, 8) { gen::cfg() } else { gen::small_cfg() };
    if chance(1, 2000) {
        cfg.vast = 10;
        gen::vastly(&mut cfg);
    }
    cfg.mods = gen::few(&cfg, pick(&[3, 2, 4, 5, 7]));
    cfg.dup_modules = false;
    let specs = gen::circuit(&cfg).mods;
    let nodes = range(1, 4);
    let at: Vec<usize> = specs.iter().map(|_| below(nodes)).collect();
    let hub = Shared::new(Hub { objs: vec![None; specs.len()], specs: specs.clone(), viol: None });
    set_preemption(pick(&[0, 0, 5, 50, 500]));
    let mut slots = Vec::new();
    for k in 0..nodes {
        let own: Vec<usize> = (0..specs.len()).filter(|i| at[*i] == k).collect();
        if own.is_empty() { continue }
        let mods: Vec<SModule> = own.iter().map(|i| specs[*i].clone()).collect();
        let mut text = render_modules(&mods, &if draw(3) == 0 { Style::draw() } else { Style::plain() }).text;
        let end = draw(4);
        if end == 1 && draw(2) == 0 {
            if !text.is_empty() && !text.ends_with('\n') { text.push('\n') }
            text.push_str(&pick(&["  module :\n", "?", "  module x:\n    wire y\n", "  extmodule"]));
        }
        let alone = mods.iter().all(|m| deps(m).iter().all(|d| own.contains(d)));
        let kind = match draw(5) {
            3 if !alone => 0,
            k => k,
        };
        state(text.as_bytes());
        note(|| format!("node {k} (kind {kind}, end {end}) has {own:?}:\n{}", text_excerpt(&text)));
        let (h, h2) = (hub.clone(), hub.clone());
        let last = Shared::new(None);
        let (l, expected) = (last.clone(), specs[own[own.len() - 1]].name.clone());
        slots.push((kind, end, last, expected, spawn(move || {
            let r = match guard(|| node(h, own, text, kind, end, l)) {
                Ok(Ended::Value(r)) => r,
                Ok(_) => Ok(()),
                Err(v) => Err(v),
            };
            if let Err(v) = r {
                h2.get().viol.get_or_insert(v);
            }
            notify(READY, u64::MAX);
        })));
    }
    for (kind, end, last, expected, s) in slots {
        join(s)?;
        if kind == 3 && end == 3 && hub.get().viol.is_none() {
            let got = last.get().clone();
            ensure!(got.as_deref() == Some(expected.as_str()), "consumer", "the circuit available is {got:?} instead of {expected}");
        }
    }
    if let Some(v) = hub.get().viol.take() { return Err(v) }
    let mut specs = specs;
    let mut objs: Vec<Arc<Module>> = hub.get().objs.drain(..).flatten().collect();
    for _ in 0..below(3) { extend(&mut specs, &mut objs)? }
    if draw(3) == 0 { change(&objs) }
    for _ in 0..range(1, 2) {
        let top = if draw(2) == 0 { objs.len() - 1 } else { below(objs.len()) };
        combine(&specs, &objs, top)?;
    }
    let got = lib(|| x_list(&objs));
    ensure!(got == specs, "changed", "{}", mods_diff(&specs, &got));
    // Only some modules are kept
    let keep = below(objs.len());
    let spec = normal_mods(&specs, keep);
    let kept = objs.swap_remove(keep);
    lib(|| drop(objs));
    let got = lib(|| x_list(&all_modules(&kept)));
    ensure!(got == spec, "changed", "{}", mods_diff(&spec, &got));
    Ok(())
}
