//! C08: Module-wise reading yields modules in order, linked to one definition

use firrtl_ast::circuit::consumer;
use firrtl_ast::module::{Module, Modules};
use firrtl_ast::named::Named;

use super::*;
use crate::gen;
use crate::io::*;
use crate::refparse;
use crate::render::{render, render_modules, Style};

pub static PROP: Prop = Prop {
    id: "C08",
    run,
    quick: 500_000,
    level: "exploration",
    rule: "A text is read module by module under a random history of steps, look-ups and modules added by the caller (before, between and after steps, replacing modules of the same name), partly after damage to the text or from a buffer used for another text before; every module yielded is compared to the model's, with instances and references identified by address. All ways of reading the same text are compared with each other.",
    assumptions: &["the harness' reference parser defines what a damaged text denotes"],
    cases: &[],
};

fn run() -> Res {
    match draw(4) {
        0 | 1 => history(),
        2 => damaged(),
        _ => ways(),
    }
}

/// Remap instances to the modules known at present
pub fn resolve(m: &mut SModule, known: &dyn Fn(&str) -> Option<usize>) {
    fn go(v: &mut [SStmt], known: &dyn Fn(&str) -> Option<usize>) {
        for s in v {
            match &mut s.kind {
                SSk::Inst { module, .. } => module.1 = known(&module.0).unwrap_or(DANGLING),
                SSk::When { then, els, .. } => { go(then, known); go(els, known) }
                _ => (),
            }
        }
    }
    if let Some(v) = m.stmts_mut() { go(v, known) }
}

/// All modules seen so far, as objects and as expected
#[derive(Default)]
pub struct Seen {
    pub objs: Vec<Arc<Module>>,
    pub specs: Vec<SModule>,
}

impl Seen {
    pub fn push(&mut self, m: Arc<Module>, s: SModule) -> usize {
        self.objs.push(m);
        self.specs.push(s);
        self.objs.len() - 1
    }

    pub fn check(&self, class: &str) -> Res {
        let got = lib(|| x_list(&self.objs));
        ensure!(got == self.specs, class, "{}", mods_diff(&self.specs, &got));
        Ok(())
    }
}

/// Some name similar to the given one
pub fn similar(name: &str) -> String {
    match draw(9) {
        0 => format!(" {name}"),
        1 => format!("{name} "),
        2 => name.to_uppercase(),
        3 => name.to_lowercase(),
        4 => format!("{name}\0"),
        5 => format!("{name}\n"),
        6 => name.chars().rev().collect(),
        7 => name.chars().skip(1).collect(),
        _ => format!("{name}{name}"),
    }
}

fn lookup(it: &Modules, seen: &Seen, known: &dyn Fn(&str) -> Option<usize>, name: &str) -> Res {
    let other;
    let name = if chance(1, 8) {
        other = similar(name);
        &other
    } else {
        name
    };
    ev("lookup", 0, 0);
    let got = lib(|| if draw(2) == 0 { it.module(name).cloned() } else { it.module(name.to_string()).cloned() });
    match (known(name), got) {
        (None, None) => Ok(()),
        (Some(i), Some(m)) if Arc::ptr_eq(&seen.objs[i], &m) => Ok(()),
        (Some(i), Some(m)) => {
            let j = seen.objs.iter().position(|o| Arc::ptr_eq(o, &m));
            viol("look-up", format!("module {name:?} is object {j:?} instead of {i}"))
        }
        (w, g) => viol("look-up", format!("module {name:?}: expected {w:?}, found: {}", g.is_some())),
    }
}

/// Request an item in one of the ways iterators offer
fn step(it: &mut Modules) -> Option<Result<Arc<Module>, ParseError>> {
    match draw(8) {
        7 => lib(|| it.nth(0)),
        6 => lib(|| it.find(|_| true)),
        5 => lib(|| it.by_ref().take(1).last()),
        4 => lib(|| it.by_ref().peekable().next()),
        _ => lib(|| it.next()),
    }
}

/// What an iterator announces is true
fn announced(it: &Modules, left: usize) -> Res {
    let (min, max) = lib(|| it.size_hint());
    ensure!(min <= left && max.is_none_or(|m| left <= m), "announced", "between {min} and {max:?} items are announced, {left} are to come");
    Ok(())
}

fn history() -> Res {
    count("histories");
    let mut cfg = if chance(1, 6) { gen::cfg() } else { gen::small_cfg() };
    cfg.dup_modules = chance(1, 2);
    cfg.mods = gen::few(&cfg, pick(&[3, 1, 2, 4, 6, 8]));
    let spec = gen::circuit(&cfg).mods;
    // Who supplies which module
    let text: Vec<bool> = spec.iter().map(|_| draw(3) < 2).collect();
    let from_text: Vec<SModule> = spec.iter().zip(&text).filter(|(_, t)| **t).map(|(m, _)| m.clone()).collect();
    let style = if draw(2) == 0 { Style::plain() } else { Style::draw() };
    let body = render_modules(&from_text, &style).text;
    let header = "circuit x:\n";
    let whole = format!("{header}{body}");
    state(whole.as_bytes());
    note(|| format!("added by the caller: {:?}, text:\n{body}", spec.iter().zip(&text).filter(|(_, t)| !**t).map(|(m, _)| &m.name).collect::<Vec<_>>()));
    let mut it = lib(|| if draw(2) == 0 { Modules::new(&body) } else { Modules::new_with_origin(&whole[header.len()..], &whole) });

    let mut seen = Seen::default();
    let mut latest: std::collections::BTreeMap<String, usize> = Default::default();
    let names: Vec<String> = spec.iter().map(|m| m.name.clone()).chain(["".into(), "nowhere".into()]).collect();
    let noise = pick(&[0, 1, 4]);
    let mut hoard: Vec<Arc<Module>> = Vec::new();
    for (i, m) in spec.iter().enumerate() {
        let mut m = m.clone();
        resolve(&mut m, &|n| latest.get(n).copied());
        if text[i] {
            ev("next", i as u64, 0);
            if draw(3) == 0 { announced(&it, text[i..].iter().filter(|t| **t).count())? }
            let got = match step(&mut it) {
                Some(Ok(m)) => m,
                Some(Err(e)) => return viol("rejected", format!("module {i} ({}): {}\n{}", m.name, err_text(&e), text_excerpt(&body))),
                None => return viol("early end", format!("the end instead of module {i} ({})", m.name)),
            };
            let k = seen.push(got, m.clone());
            latest.insert(m.name.clone(), k);
            let new = [seen.objs[k].clone()];
            let pos = |i: &Arc<Module>| seen.objs.iter().position(|o| Arc::ptr_eq(o, i)).unwrap_or(DANGLING);
            let x = lib(|| x_module(&new[0], &pos));
            ensure!(x == m, "module", "{}", mods_diff(&[m.clone()], &[x.clone()]));
        } else {
            ev("add", i as u64, 0);
            let objs: Vec<Arc<Module>> = seen.objs.clone();
            let obj = lib(|| mk_module(&m, &objs));
            lib(|| it.add_module(obj.clone()));
            let k = seen.push(obj, m.clone());
            latest.insert(m.name.clone(), k);
        }
        // Whatever else the caller may do
        for _ in 0..noise {
            match draw(5) {
                4 => {
                    // Somebody makes lots of use of a module
                    count("hoarded");
                    let m = pick(&seen.objs);
                    let n = pick(&[10, 40, 70, 300]);
                    (0..n).for_each(|_| hoard.push(m.clone()));
                }
                0 | 1 => lookup(&it, &seen, &|n| latest.get(n).copied(), &pick(&names))?,
                2 => {
                    // Old modules may be added again
                    count("added_again");
                    let k = below(seen.objs.len());
                    ev("add_again", k as u64, 0);
                    let m = seen.objs[k].clone();
                    latest.insert(seen.specs[k].name.clone(), k);
                    lib(|| it.add_module(m));
                }
                _ => {
                    // A module of the same name from somewhere else
                    count("replaced");
                    let name = pick(&names);
                    if !name.is_empty() {
                        let c = gen::small_cfg();
                        let mut s = gen::module(&c, name.clone(), &[], false);
                        resolve(&mut s, &|_| None);
                        let obj = lib(|| mk_module(&s, &[]));
                        lib(|| it.add_module(obj.clone()));
                        let k = seen.push(obj, s);
                        latest.insert(name, k);
                    }
                }
            }
        }
    }
    for _ in 0..range(1, 3) {
        announced(&it, 0)?;
        match step(&mut it) {
            None => (),
            Some(Ok(m)) => return viol("surplus", format!("module {} after the last one", m.name_ref())),
            Some(Err(e)) => return viol("rejected", format!("after the last module: {}", err_text(&e))),
        }
        lookup(&it, &seen, &|n| latest.get(n).copied(), &pick(&names))?;
    }
    for n in &names {
        lookup(&it, &seen, &|n| latest.get(n).copied(), n)?;
    }
    lib(|| drop(it));
    seen.check("modules changed")
}

/// Let the buffer have been used for reading another text before, sometimes
fn reuse_buffer(data: &mut Vec<u8>) {
    if draw(5) != 4 { return }
    count("buffer_reused");
    let original = data.clone();
    let other = super::c02::sibling(data);
    data.copy_from_slice(&other);
    if let Ok(t) = std::str::from_utf8(data) {
        match draw(3) {
            0 => lib(|| Modules::new(t).take_while(|r| r.is_ok()).for_each(drop)),
            1 => drop(parse(t)),
            _ => drop(lib(|| consumer(t).map(|c| c.into_circuit().is_ok()))),
        }
    }
    data.copy_from_slice(&original);
}

/// Damaged texts, some modules being known in advance
fn damaged() -> Res {
    count("damaged");
    let mut cfg = gen::small_cfg();
    cfg.dup_modules = chance(1, 3);
    cfg.mods = gen::few(&cfg, 5);
    let spec = gen::circuit(&cfg).mods;
    let known = below(spec.len() + 1);
    // Some of those known are not, after all
    let mut adds: Vec<SModule> = spec[..known].to_vec();
    let known = adds.len();
    let objs = lib(|| mk_modules(&SCircuit { name: spec[0].name.clone(), info: None, mods: adds.clone() }));
    let mut offered: Vec<usize> = (0..known).collect();
    if known > 0 && chance(1, 4) {
        count("fault_module_withheld");
        offered.remove(below(known));
    }
    adds = offered.iter().map(|i| spec[*i].clone()).collect();
    let body = render_modules(&spec[known..], &Style::plain()).text;
    let mut data = body.into_bytes();
    let other = render(&gen::circuit(&gen::small_cfg()), &Style::plain()).text.into_bytes();
    for _ in 0..pick(&[1, 1, 0, 2, 4]) { corrupt(&mut data, &other) }
    reuse_buffer(&mut data);
    let Ok(text) = String::from_utf8(data) else { return Ok(()) };
    state(text.as_bytes());
    note(|| format!("known: {:?}, text:\n{text}", adds.iter().map(|m| &m.name).collect::<Vec<_>>()));

    let mut it = lib(|| Modules::new(&text));
    let mut seen = Seen::default();
    for i in &offered {
        lib(|| it.add_module(objs[*i].clone()));
    }
    // All objects known to the model, whether offered or not
    let r = refparse::read_modules(&text, adds.clone());
    let mut want: Vec<SModule> = r.mods;
    // Added modules refer to others which may be withheld
    for m in want[..adds.len()].iter_mut() {
        resolve_ids(m, &offered, known);
    }
    for (k, i) in offered.iter().enumerate() {
        seen.push(objs[*i].clone(), want[k].clone());
    }
    let mut latest: std::collections::BTreeMap<String, usize> = Default::default();
    for (k, i) in offered.iter().enumerate() { latest.insert(lib(|| objs[*i].name_ref().to_string()), k); }
    let names: Vec<String> = spec.iter().map(|m| m.name.clone()).chain(want.iter().map(|m| m.name.clone())).collect();
    let noise = draw(3) == 0;
    let mut next = adds.len();
    loop {
        ev("next", next as u64, 0);
        if noise { lookup(&it, &seen, &|n| latest.get(n).copied(), &pick(&names))? }
        match step(&mut it) {
            Some(Ok(m)) => {
                let Some(w) = want.get(next) else {
                    return viol("invented", format!("module {} although there is none left\n{}", m.name_ref(), text_excerpt(&text)));
                };
                let got_by_name = lib(|| it.module(&w.name).cloned());
                ensure!(got_by_name.is_some_and(|x| Arc::ptr_eq(&x, &m)), "look-up", "module {} is not available by its name", w.name);
                let k = seen.push(m, w.clone());
                latest.insert(w.name.clone(), k);
                next += 1;
            }
            Some(Err(e)) => {
                let _ = err_text(&e);
                count("rejected");
                if next < want.len() || !r.bad_tail {
                    // Rejecting what the reference parser accepts is C05's business
                    count("rejected_but_meaningful");
                }
                break;
            }
            None => {
                ensure!(next == want.len() && !r.bad_tail, "left out", "the end after {} of {} modules, malformed text left: {}\n{}",
                    next - adds.len(), want.len() - adds.len(), r.bad_tail, text_excerpt(&text));
                break;
            }
        }
    }
    // The end is for good, adding modules does not change that
    for _ in 0..range(1, 3) {
        if !offered.is_empty() && draw(2) == 1 {
            lib(|| it.add_module(seen.objs[0].clone()));
            latest.insert(seen.specs[0].name.clone(), 0);
        }
        if let Some(r) = step(&mut it) {
            return viol("resumed", format!("the iterator went on after its end: {}", if r.is_ok() { "a module" } else { "an error" }));
        }
        lookup(&it, &seen, &|n| latest.get(n).copied(), &pick(&names))?;
    }
    // Nor does it, or an error, make modules unavailable
    for n in &names {
        lookup(&it, &seen, &|n| latest.get(n).copied(), n)?;
    }
    let got = lib(|| x_list(&seen.objs));
    ensure!(got == seen.specs, "misread", "{}\n{}", mods_diff(&seen.specs, &got), text_excerpt(&text));
    Ok(())
}

/// Express instances of known modules in terms of those offered
fn resolve_ids(m: &mut SModule, offered: &[usize], _known: usize) {
    m.map_instances(&mut |i| offered.iter().position(|o| *o == i).unwrap_or(DANGLING))
}

/// What one way of reading yields: modules up to the first error or the end
#[derive(Debug, PartialEq)]
struct Way {
    mods: Vec<SModule>,
    error: Option<String>,
}

fn drain(it: &mut dyn Iterator<Item = Result<Arc<Module>, ParseError>>) -> (Way, Vec<Arc<Module>>) {
    let mut objs = Vec::new();
    let mut error = None;
    while let Some(r) = lib(|| it.next()) {
        match r {
            Ok(m) => objs.push(m),
            Err(e) => {
                error = Some(err_text(&e));
                break;
            }
        }
    }
    (Way { mods: lib(|| x_list(&objs)), error }, objs)
}

/// All ways of reading a text agree
fn ways() -> Res {
    count("ways");
    let cfg = gen::small_cfg();
    let spec = gen::circuit(&cfg);
    let r = render(&spec, &if draw(2) == 0 { Style::plain() } else { Style::draw() });
    let mut data = r.text.clone().into_bytes();
    let hurt = draw(2) == 1;
    if hurt {
        let other = render(&gen::circuit(&gen::small_cfg()), &Style::plain()).text.into_bytes();
        for _ in 0..range(1, 2) { corrupt(&mut data, &other) }
    }
    reuse_buffer(&mut data);
    let Ok(text) = String::from_utf8(data) else { return Ok(()) };
    state(text.as_bytes());
    note(|| format!("text:\n{text}"));
    let all = outcome(&parse(&text));
    let read = outcome(&from_read(SimRead::new(arc(&text), Split::draw(text.len()))));
    ensure!(all == read, "ways differ", "reading and parsing: {}", out_diff(&all, &read));
    let mut c = match lib(|| consumer(&text)) {
        Ok(c) => c,
        Err(e) => {
            let e = Out::Other(lib(|| e.to_string()));
            ensure!(all == e, "ways differ", "the consumer's creation failed: {}", out_diff(&e, &all));
            return Ok(());
        }
    };
    // The circuit becomes available on the way
    let mut objs: Vec<Arc<Module>> = Vec::new();
    let mut error = None;
    let mut first: Option<Circuit> = None;
    loop {
        let before = lib(|| c.circuit());
        if let (Some(a), Some(b)) = (&first, &before) {
            ensure!(Arc::ptr_eq(a.top_module(), b.top_module()), "ways differ", "the consumer's top module changed");
        }
        match lib(|| c.next()) {
            Some(Ok(m)) => objs.push(m),
            Some(Err(e)) => {
                error = Some(err_text(&e));
                break;
            }
            None => break,
        }
        if first.is_none() { first = lib(|| c.circuit()) }
    }
    let step = Way { mods: lib(|| x_list(&objs)), error };
    let finished = lib(|| c.into_circuit());
    if let Some(f) = &first {
        ensure!(finished.as_ref().is_ok_and(|x| Arc::ptr_eq(x.top_module(), f.top_module())), "ways differ", "finishing does not yield the circuit seen before");
    }
    match (&all, &step.error, &finished) {
        (Out::Circuit(a), None, Ok(b)) => {
            let b = extract(b);
            ensure!(**a == b, "ways differ", "consumer and parsing: {}", circuit_diff(a, &b));
        }
        (Out::Other(a), Some(b), _) if a == b => (),
        (Out::Other(a), None, Err(e)) if *a == lib(|| e.to_string()) => (),
        (a, e, f) => return viol("ways differ", format!("parsing: {}; the consumer's items: {e:?}; finishing succeeded: {}", a.brief(), f.is_ok())),
    }
    // Finishing at once does not depend on what was iterated over before
    let top_seen = first.is_some();
    let at_once = lib(|| consumer(&text)).and_then(|c| lib(|| c.into_circuit()));
    ensure!(at_once.is_ok() == top_seen, "ways differ", "finishing at once: {:?}, stepwise: {top_seen}", at_once.is_ok());
    if let (Ok(a), Some(b)) = (&at_once, &first) {
        let (a, b) = (extract(a), extract(b));
        ensure!(a == b, "ways differ", "finishing at once: {}", circuit_diff(&b, &a));
    }
    if let (Err(a), Some(b)) = (&at_once, &step.error) {
        let a = err_text(a);
        ensure!(a == *b, "ways differ", "finishing at once leads to {a:?} instead of {b:?}");
    }
    // Without the header
    if !hurt {
        // (Blank lines in front of the first module belong to the header)
        if let Some(h) = r.lines.iter().find(|l| matches!(l.kind, crate::render::L::Module { .. })) {
            let body = &text[h.start..];
            let (w, _) = drain(&mut lib(|| Modules::new_with_origin(body, &text)));
            ensure!(w == step, "ways differ", "iterator: {}", mods_diff(&step.mods, &w.mods));
            let (w, _) = drain(&mut lib(|| Modules::new(body)));
            ensure!(w.mods == step.mods && w.error.is_some() == step.error.is_some(), "ways differ", "iterator without origin: {}", mods_diff(&step.mods, &w.mods));
            ensure!(step.mods == spec.mods && step.error.is_none(), "modules", "{}", mods_diff(&spec.mods, &step.mods));
        }
    }
    Ok(())
}
