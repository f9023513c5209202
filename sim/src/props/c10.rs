//! C10: Output is reproducible across processes and hash seeds

use std::collections::{BTreeSet, HashMap};

use firrtl_ast::info::WithInfo;
use firrtl_ast::module::{self, Module};

use super::*;
use crate::gen;
use crate::io::*;
use crate::refparse;
use crate::render::{render, Rendered, Style, L};

pub static PROP: Prop = Prop {
    id: "C10",
    run,
    quick: 80_000,
    level: "exploration",
    rule: "Two to four tasks, each with hash keys of its own and at its own places in memory, come by the same circuit in different ways (built with parameters inserted in different orders, with removals and different capacities, through mutation, with modules duplicated, read from texts whose parameters or independent modules are permuted, cloned, read back) and format it, also while others do so; a damaged text is read by all of them. Texts and errors have to be the same, the order of modules is checked against the reference parser.",
    assumptions: &[
        "separate processes differ in hash keys, heap addresses and schedules only, all of which are varied between tasks and runs within one process; event histories are compared between processes by the harness' self check",
    ],
    cases: &[],
};

fn shuffle<T>(v: &mut [T]) {
    for i in (1..v.len()).rev() {
        v.swap(i, below(i + 1));
    }
}

/// A map of the same content, but with another history
fn map(params: &std::collections::BTreeMap<String, SParam>) -> HashMap<Arc<str>, module::ParamValue> {
    let mut p: Vec<_> = params.iter().collect();
    shuffle(&mut p);
    let mut m = match draw(3) {
        0 => HashMap::new(),
        1 => HashMap::with_capacity(range(1, 100)),
        _ => p.iter().take(below(p.len() + 1)).map(|(k, _)| (Arc::from(k.as_str()), module::ParamValue::Int(7))).collect(),
    };
    for (k, v) in p {
        for i in 0..pick(&[0, 0, 1, 9]) {
            let k: Arc<str> = format!("{k}-{i}").into();
            m.insert(k.clone(), module::ParamValue::Int(i));
            if i % 2 == 0 { m.remove(&k); }
        }
        m.insert(k.as_str().into(), mk_param(v));
    }
    m.retain(|k, _| params.contains_key(k.as_ref()));
    if draw(2) == 1 { m.shrink_to_fit() }
    m
}

/// Build a circuit, with maps filled in some random way
fn build_differently(c: &SCircuit) -> Circuit {
    let dup = draw(3) == 0;
    if dup { count("duplicated_modules") }
    lib(|| {
        let mut mods: Vec<Arc<Module>> = Vec::new();
        let make = |m: &SModule, mods: &[Arc<Module>]| {
            let mut obj = mk_module(m, mods);
            if let SKind::Ext { defname, params } = &m.kind {
                let defname: Option<Arc<str>> = defname.as_ref().map(|n| n.as_str().into());
                if draw(2) == 0 {
                    let ports: Vec<_> = obj.ports().cloned().collect();
                    obj = Arc::new(Module::new(m.name.as_str().into(), ports, module::Kind::External { defname, params: map(params) }).with_info(m.info.clone()));
                } else if let Some(o) = Arc::get_mut(&mut obj) {
                    match o.kind_mut() {
                        module::Kind::External { params: p, .. } if draw(2) == 0 => *p = map(params),
                        k => {
                            *k = module::Kind::empty_external();
                            if let module::Kind::External { defname: d, params: p } = k {
                                *d = defname;
                                p.extend(map(params));
                            }
                        }
                    }
                }
            }
            obj
        };
        for m in &c.mods {
            let obj = if dup {
                // Each user gets objects of its own
                let own: Vec<Arc<Module>> = (0..mods.len()).map(|i| if draw(2) == 0 { mods[i].clone() } else {
                    make(&c.mods[i], &mods[..i])
                }).collect();
                make(m, &own)
            } else {
                make(m, &mods)
            };
            mods.push(obj);
        }
        Circuit::new(mods[c.top()].clone()).with_info(c.info.clone())
    })
}

/// The same text with parameters in another order
fn permuted(r: &Rendered) -> String {
    let mut o = String::new();
    let mut i = 0;
    let line = |i: usize| {
        let start = if i == 0 { 0 } else { r.lines[i - 1].end };
        &r.text[start..r.lines[i].end]
    };
    while i < r.lines.len() {
        let n = r.lines[i..].iter().take_while(|l| matches!(l.kind, L::Param(..))).count();
        if n > 1 {
            count("permuted_params");
            let mut v: Vec<usize> = (i..i + n).collect();
            shuffle(&mut v);
            v.into_iter().for_each(|k| o.push_str(line(k)));
            i += n;
        } else {
            o.push_str(line(i));
            i += 1;
        }
    }
    o.push_str(&r.text[r.lines.last().map(|l| l.end).unwrap_or(0)..]);
    o
}

/// The same modules in some other order respecting dependencies
fn reordered(c: &SCircuit) -> SCircuit {
    let n = c.mods.len();
    let mut left: Vec<usize> = (0..n).collect();
    let mut order: Vec<usize> = Vec::new();
    while !left.is_empty() {
        let ready: Vec<usize> = (0..left.len())
            .filter(|k| c.mods[left[*k]].instances().iter().all(|(_, d)| order.contains(d))).collect();
        let k = ready[below(ready.len())];
        order.push(left.remove(k));
    }
    let pos = |i: usize| order.iter().position(|o| *o == i).unwrap();
    let mods = order.iter().map(|i| {
        let mut m = c.mods[*i].clone();
        m.map_instances(&mut |i| pos(i));
        m
    }).collect();
    SCircuit { name: c.name.clone(), info: c.info.clone(), mods }
}

/// What one task does
#[derive(Clone)]
struct Job {
    routes: Vec<u64>,
    spec: Arc<SCircuit>,
    shared: Option<Circuit>,
    bad: Vec<String>,
}

struct Seen {
    route: &'static str,
    text: String,
    circuit: Circuit,
}

fn task(j: Job) -> Res<(Vec<Seen>, Vec<Out>)> {
    let mut seen = Vec::new();
    for r in &j.routes {
        let (route, c) = match r {
            0 => ("built", build(&j.spec)),
            1 | 2 => ("built differently", build_differently(&j.spec)),
            3 => match &j.shared {
                Some(c) => ("shared", lib(|| c.clone())),
                None => ("built", build(&j.spec)),
            },
            4 => {
                let r = render(&j.spec, &if draw(2) == 0 { Style::plain() } else { Style::draw() });
                let t = permuted(&r);
                ("read", read_ok("rejected", parse(&t), &t)?)
            }
            5 => {
                let r = render(&reordered(&j.spec), &Style::plain());
                let t = permuted(&r);
                ("read in another order", read_ok("rejected", from_read(SimRead::new(arc(&t), Split::draw(t.len()))), &t)?)
            }
            6 => {
                let c = build_differently(&j.spec);
                let t = format(&c);
                ("read back", read_ok("rejected", parse(&t), &t)?)
            }
            _ => {
                // Copy of the top module around the same dependencies
                let c = build_differently(&j.spec);
                ("copied", lib(|| Circuit::new(Arc::new(c.top_module().as_ref().clone())).with_info(c.info().map(|s| s.to_string()))))
            }
        };
        let text = match draw(3) {
            0 => format(&c),
            1 => {
                let mut w = SimFmt::new(SinkPlan::Never);
                let st = w.state.clone();
                let r = lib(|| std::fmt::Write::write_fmt(&mut w, format_args!("{c}")));
                ensure!(r.is_ok(), "failed", "formatting into a healthy sink failed");
                let t = String::from_utf8_lossy(&st.get().got).into_owned();
                t
            }
            _ => {
                let mut w = SimWrite::new(Split::draw(100), None);
                let st = w.state.clone();
                let r = lib(|| std::io::Write::write_fmt(&mut w, format_args!("{c}")));
                ensure!(r.is_ok(), "failed", "formatting into a healthy sink failed: {r:?}");
                let t = String::from_utf8_lossy(&st.get().got).into_owned();
                t
            }
        };
        let again = format(&c);
        ensure!(again == text, "repetition", "{route}: {}", first_diff(&text, &again));
        seen.push(Seen { route, text, circuit: c });
    }
    let outs = j.bad.iter().map(|t| if draw(2) == 0 { outcome(&parse(t)) } else {
        outcome(&from_read(SimRead::new(arc(t), Split::draw(t.len()))))
    }).collect();
    Ok((seen, outs))
}

fn run() -> Res {
    let mut cfg = if chance(1, 6) { gen::cfg() } else { gen::small_cfg() };
    cfg.mods = gen::few(&cfg, pick(&[3, 1, 2, 5, 8]));
    cfg.ext = pick(&[3, 0, 1, 5]);
    let mut spec = gen::circuit(&cfg);
    for m in spec.mods.iter_mut() {
        if let SKind::Ext { params, .. } = &mut m.kind {
            for _ in 0..pick(&[0, 2, 4, 20]) {
                let k = gen::ident(&cfg);
                params.insert(k, gen::param(&cfg));
            }
        }
    }
    // Only what the top module depends on takes part
    let spec = normal(&spec);
    let mut bad = Vec::new();
    for _ in 0..pick(&[1, 0, 3]) {
        let mut data = render(&spec, &Style::plain()).text.into_bytes();
        let other = render(&gen::circuit(&gen::small_cfg()), &Style::plain()).text.into_bytes();
        for _ in 0..range(1, 2) { corrupt(&mut data, &other) }
        if let Ok(t) = String::from_utf8(data) { bad.push(t) }
    }
    let shared = if draw(2) == 1 { Some(build(&spec)) } else { None };
    let spec = Arc::new(spec);
    let ntasks = pick(&[2, 2, 3, 4]);
    set_preemption(pick(&[0, 0, 300, 50]));
    let slots: Vec<_> = (0..ntasks).map(|_| {
        let routes = (0..range(1, 2)).map(|_| draw(8)).collect();
        let j = Job { routes, spec: spec.clone(), shared: shared.clone(), bad: bad.clone() };
        spawn(move || task(j))
    }).collect();
    let mut all = Vec::new();
    let mut outs = Vec::new();
    for s in slots {
        let (a, b) = join(s)??;
        all.extend(a);
        outs.push(b);
    }
    set_preemption(0);
    let text = &all[0].text;
    state(text.as_bytes());
    note(|| format!("ways: {:?}, text:\n{}", all.iter().map(|s| s.route).collect::<Vec<_>>(), text_excerpt(text)));
    for s in &all[1..] {
        ensure!(s.text == *text, "different text", "{} and {}: {}", all[0].route, s.route, first_diff(text, &s.text));
    }
    for (t, o) in outs.iter().enumerate().skip(1) {
        for (i, (a, b)) in outs[0].iter().zip(o).enumerate() {
            ensure!(a == b, "different outcome", "text {i} in task {t}: {}\n{}", out_diff(a, b), text_excerpt(&bad[i]));
        }
    }
    if cheap(&spec) {
        for s in &all[1..] {
            ensure!(lib(|| s.circuit == all[0].circuit), "not equal", "{} and {}: circuits are not equal", all[0].route, s.route);
        }
    }
    // Order and number of the modules
    let r = refparse::read(text);
    ensure!(!r.bad_tail && r.header.is_some(), "malformed", "the text is not well-formed:\n{}", text_excerpt(text));
    let names: Vec<&str> = r.mods.iter().map(|m| m.name.as_str()).collect();
    let set: BTreeSet<&str> = names.iter().copied().collect();
    ensure!(set.len() == names.len(), "repeated module", "the modules in the text are {names:?}");
    let want: BTreeSet<&str> = spec.mods.iter().map(|m| m.name.as_str()).collect();
    ensure!(set == want, "wrong modules", "the modules in the text are {names:?} instead of {want:?}");
    for (i, m) in r.mods.iter().enumerate() {
        for (n, d) in m.instances() {
            ensure!(d < i, "order", "module {} follows {}, which instantiates it; the modules are {names:?}", n, m.name);
        }
    }
    Ok(())
}
