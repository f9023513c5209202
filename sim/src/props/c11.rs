//! C11: Panicking or re-entrant caller code does no harm

use std::cell::Cell;
use std::rc::Rc;

use firrtl_ast::circuit::{consumer, ModuleConsumer};
use firrtl_ast::expr::{Expression, Flow, Reference};
use firrtl_ast::info::WithInfo;
use firrtl_ast::module::{self, Module, Modules};
use firrtl_ast::named::Named;
use firrtl_ast::stmt::context::{Context, TopContext};
use firrtl_ast::stmt::Entity;
use firrtl_ast::types::{self, BundleField, GroundType, Type, Typed};

use super::shown::Shown;
use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{render, Style};

pub static PROP: Prop = Prop {
    id: "C11",
    run,
    quick: 140_000,
    level: "fault_enumeration",
    rule: "Every kind of caller code the library calls (readers, sinks, module sources, error conversions, contexts and look-ups, iterators of ports, fields and entities, name types, reference types) panics or uses the library itself (nested up to three levels, also on the very objects in use, and panicking in turn) at a random call (all of them, for operations with few calls). Outer, nested and subsequent operations are compared with what they yield undisturbed, panic payloads with those injected.",
    assumptions: &["callbacks do not panic while a panic is already unwinding, which aborts any Rust program"],
    cases: &[],
};

/// Objects to work on
pub struct Env {
    specs: Vec<SCircuit>,
    circuits: Vec<Circuit>,
    shown: Vec<Shown>,
    texts: Vec<(String, Out)>,
    next_id: Cell<u64>,
    viol: std::cell::RefCell<Option<Viol>>,
    budget: Cell<u64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum What {
    Panic,
    Nest,
    NestPanic,
}

/// Point at which caller code misbehaves
#[derive(Clone)]
struct Trip {
    env: Rc<Env>,
    depth: usize,
    calls: Rc<Cell<u64>>,
    plan: Rc<Vec<(u64, What, u64)>>,
    /// Payload of the latest panic
    panicked: Rc<Cell<Option<u64>>>,
}

impl Trip {
    fn new(env: &Rc<Env>, depth: usize, plan: Vec<(u64, What)>) -> Self {
        let plan = plan.into_iter().map(|(n, w)| {
            let id = env.next_id.get();
            env.next_id.set(id + 1);
            (n, w, id)
        }).collect();
        Trip { env: env.clone(), depth, calls: Default::default(), plan: Rc::new(plan), panicked: Default::default() }
    }

    fn hit(&self) {
        callback(|| {
            let n = self.calls.get();
            self.calls.set(n + 1);
            let Some((_, w, id)) = self.plan.iter().find(|p| p.0 == n) else { return };
            if std::thread::panicking() {
                return;
            }
            if *w != What::Panic {
                count("fault_reentry");
                ev("reentry", n, self.depth as u64);
                let r = op(&self.env, self.depth);
                if let Err(v) = r {
                    self.env.viol.borrow_mut().get_or_insert(v);
                }
            }
            if *w != What::Nest {
                self.panicked.set(Some(*id));
                inject_panic(*id);
            }
        })
    }

    /// Outcome of running something which may have panicked
    fn guard<T>(&self, what: &str, f: impl FnOnce() -> T) -> Res<Option<T>> {
        self.panicked.set(None);
        let r = guard(|| lib(f))?;
        if let Some(v) = self.env.viol.borrow_mut().take() {
            return Err(Viol { class: format!("nested: {}", v.class), detail: v.detail });
        }
        match (r, self.panicked.take()) {
            (Ended::Value(v), None) => Ok(Some(v)),
            (Ended::Injected(a), Some(b)) if a == b => Ok(None),
            (Ended::Value(_), Some(_)) => viol("swallowed panic", format!("{what}: the panic did not get through")),
            (Ended::Injected(a), b) => viol("wrong panic", format!("{what}: panic {a} got through instead of {b:?}")),
            (Ended::Crash, _) => viol("wrong panic", format!("{what}: unexpected crash")),
        }
    }
}

// ----------------------------------------------------------------- operations

struct TripRead(SimRead, Trip);
impl std::io::Read for TripRead {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        self.1.hit();
        self.0.read(buf)
    }
}

struct TripFmt(SimFmt, Trip);
impl std::fmt::Write for TripFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1.hit();
        self.0.write_str(s)
    }
}

struct TripWrite(SimWrite, Trip);
impl std::io::Write for TripWrite {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.1.hit();
        self.0.write(buf)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}

fn read(env: &Env, t: &Trip, i: usize, split: &Split) -> Res {
    let (text, want) = &env.texts[i];
    let inner = SimRead::new(arc(text), split.clone());
    let stats = inner.stats.clone();
    let r = TripRead(inner, t.clone());
    let got = t.guard("reading", || Circuit::from_read(r))?;
    ensure!(stats.get().drops == 1, "reader", "the reader was dropped {} times", stats.get().drops);
    if let Some(got) = got {
        let got = outcome(&got);
        ensure!(got == *want, "reading", "{}", out_diff(want, &got));
    }
    Ok(())
}

fn write(env: &Env, t: &Trip, i: usize, way: u64) -> Res {
    let s = &env.shown[i];
    // Undisturbed
    let want = lib(|| s.text());
    let (st, ok) = match way {
        0 | 1 => {
            let mut w = TripFmt(SimFmt::new(SinkPlan::Never), t.clone());
            let st = w.0.state.clone();
            let r = t.guard("formatting", || s.fmt(&mut w))?;
            (st, r.map(|r| r.is_ok()))
        }
        _ => {
            let mut w = TripWrite(SimWrite::new(Split { sizes: vec![3, 20, usize::MAX], eintr: 0, stall: 0, storm: Default::default() }, None), t.clone());
            let st = w.0.state.clone();
            let r = t.guard("formatting", || s.io(&mut w))?;
            (st, r.map(|r| r.is_ok()))
        }
    };
    let got = st.get();
    match ok {
        Some(ok) => ensure!(ok && got.got == want.as_bytes(), "formatting", "{} (success: {ok}): {}", s.what, first_diff(&want, &String::from_utf8_lossy(&got.got))),
        None => {
            ensure!(want.as_bytes().starts_with(&got.got), "formatting", "{}: not a prefix: {}", s.what, first_diff(&want, &String::from_utf8_lossy(&got.got)));
            let again = lib(|| s.text());
            ensure!(again == want, "after panic", "{}: {}", s.what, first_diff(&want, &again));
        }
    }
    Ok(())
}

/// A source of modules
struct Mods {
    items: Vec<Result<usize, u64>>,
    objs: Vec<Arc<Module>>,
    at: usize,
    t: Trip,
    drops: Rc<Cell<u64>>,
}

struct SrcErr(u64, Trip);

impl From<SrcErr> for ParseError {
    fn from(e: SrcErr) -> Self {
        e.1.hit();
        callback(|| ParseError::from(format!("source error {}", e.0)))
    }
}

impl Iterator for Mods {
    type Item = Result<Arc<Module>, SrcErr>;
    fn next(&mut self) -> Option<Self::Item> {
        self.t.hit();
        callback(|| {
            let i = self.items.get(self.at)?;
            self.at += 1;
            Some(match i {
                Ok(i) => Ok(self.objs[*i].clone()),
                Err(e) => Err(SrcErr(*e, self.t.clone())),
            })
        })
    }
}

impl Drop for Mods {
    fn drop(&mut self) {
        self.drops.set(self.drops.get() + 1)
    }
}

fn consume(t: &Trip, objs: &[Arc<Module>], items: &[Result<usize, u64>], top: &str, steps: usize, wrapped: bool) -> Res {
    let drops = Rc::new(Cell::new(0));
    let src = Mods { items: items.to_vec(), objs: objs.to_vec(), at: 0, t: t.clone(), drops: drops.clone() };
    if wrapped {
        let inner = lib(|| ModuleConsumer::new(top, None, src));
        drive(t, objs, items, top, steps, inner)?;
    } else {
        drive(t, objs, items, top, steps, src)?;
    }
    ensure!(drops.get() == 1, "source", "the source was dropped {} times", drops.get());
    Ok(())
}

fn drive<I>(t: &Trip, objs: &[Arc<Module>], items: &[Result<usize, u64>], top: &str, steps: usize, src: I) -> Res
where I: Iterator<Item = Result<Arc<Module>, SrcErr>>
{
    let mut c = lib(|| ModuleConsumer::new(top, Some("info".to_string()), src));
    let mut at = 0;
    let mut found: Option<usize> = None;
    for _ in 0..steps {
        let got = t.guard("stepping a consumer", || c.next())?;
        let Some(got) = got else { continue };
        match (items.get(at), got) {
            (None, None) => (),
            (Some(Ok(i)), Some(Ok(m))) => {
                ensure!(Arc::ptr_eq(&m, &objs[*i]), "consumer", "item {at} is some other module");
                if found.is_none() && objs[*i].name_ref() == top { found = Some(*i) }
                at += 1;
            }
            (Some(Err(a)), Some(Err(b))) if *a == b.0 => at += 1,
            (w, g) => return viol("consumer", format!("item {at}: expected {w:?}, got something else (any: {})", g.is_some())),
        }
        match (found, lib(|| c.circuit())) {
            (None, None) => (),
            (Some(i), Some(x)) if Arc::ptr_eq(x.top_module(), &objs[i]) && x.info() == Some("info") => (),
            (f, x) => return viol("consumer", format!("circuit so far: expected {f:?}, got one: {}", x.is_some())),
        }
    }
    let got = t.guard("finishing a consumer", || c.into_circuit())?;
    let Some(got) = got else { return Ok(()) };
    let mut end = None;
    while found.is_none() && end.is_none() {
        match items.get(at) {
            None => end = Some(None),
            Some(Err(e)) => end = Some(Some(*e)),
            Some(Ok(i)) => if objs[*i].name_ref() == top { found = Some(*i) },
        }
        at += 1;
    }
    match (found, end, got) {
        (Some(i), _, Ok(x)) if Arc::ptr_eq(x.top_module(), &objs[i]) => Ok(()),
        (None, Some(Some(e)), Err(ParseError::Other(s))) if s == format!("source error {e}") => Ok(()),
        (None, Some(None), Err(ParseError::Other(s))) if s.contains("not found") => Ok(()),
        (f, e, g) => viol("consumer", format!("finishing: expected {f:?} or {e:?}, got {:?}", g.map(|c| c.top_module().name().to_string()))),
    }
}

struct TripIter<I>(I, Trip);
impl<I: Iterator> Iterator for TripIter<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.1.hit();
        callback(|| self.0.next())
    }
}

fn iterators(t: &Trip, m: &Arc<Module>, which: u64) -> Res {
    let ports: Vec<Arc<module::Port>> = m.ports().cloned().collect();
    let n = ports.len();
    match which {
        0 => {
            let it = TripIter(ports.clone().into_iter(), t.clone());
            let kind = m.kind().clone();
            if let Some(x) = t.guard("building a module", || Module::new(m.name().clone(), it, kind))? {
                let got: Vec<_> = x.ports().cloned().collect();
                ensure!(got.len() == n && got.iter().zip(&ports).all(|(a, b)| Arc::ptr_eq(a, b)), "ports", "{} instead of {n} ports, or others", got.len());
                let (mut a, mut b) = (String::new(), String::new());
                std::fmt::Write::write_fmt(&mut a, format_args!("{}", lib(|| Circuit::new(m.clone())))).unwrap();
                std::fmt::Write::write_fmt(&mut b, format_args!("{}", lib(|| Circuit::new(Arc::new(x.with_info(m.info().map(|s| s.to_string()))))))).unwrap();
                ensure!(a == b, "module", "{}", first_diff(&a, &b));
            }
        }
        1 => {
            let it = TripIter(ports.clone().into_iter(), t.clone());
            let none = |_: &str| -> Option<Arc<Module>> { None };
            if let Some(c) = t.guard("adding ports to a context", || TopContext::new(none).with_ports(it))? {
                for p in &ports {
                    let want = ports.iter().rev().find(|q| q.name() == p.name()).unwrap();
                    let e = lib(|| c.entity(p.name()));
                    ensure!(matches!(e.as_deref(), Some(Entity::Port(q)) if Arc::ptr_eq(q, want)), "context", "port {} is not known", p.name());
                }
            }
        }
        2 => {
            let ents: Vec<Arc<Entity>> = ports.iter().map(|p| Arc::new(Entity::from(p.clone()))).collect();
            let it = TripIter(ents.clone().into_iter(), t.clone());
            let none = |_: &str| -> Option<Arc<Module>> { None };
            if let Some(c) = t.guard("adding entities to a context", || TopContext::new(none).with_entities(it))? {
                for p in &ents {
                    let want = ents.iter().rev().find(|q| q.name() == p.name()).unwrap();
                    let e = lib(|| c.entity(p.name()));
                    ensure!(e.is_some_and(|e| Arc::ptr_eq(&e, want)), "context", "entity {} is not known", p.name());
                }
            }
        }
        3 => {
            let fields: Vec<BundleField> = ports.iter().map(|p| BundleField::new(p.name().clone(), p.r#type().clone())).collect();
            let it = TripIter(fields.clone().into_iter(), t.clone());
            if let Some(x) = t.guard("collecting fields", || it.collect::<Type>())? {
                let got: Vec<BundleField> = x.fields().map(|f| f.cloned().collect()).unwrap_or_default();
                ensure!(got == fields, "fields", "{got:?} instead of {fields:?}");
            }
        }
        _ => {
            use firrtl_ast::memory::{common::PortDir, mem::{Port, Memory}};
            let old: Vec<Port> = (0..2).map(|i| Port { name: format!("old{i}").into(), dir: PortDir::Read }).collect();
            let new: Vec<Port> = (0..4).map(|i| Port { name: format!("new{i}").into(), dir: PortDir::Write }).collect();
            let mut m = lib(|| Memory::new("m", GroundType::Clock, 8));
            lib(|| m.add_ports(old.clone()));
            let it = TripIter(new.clone().into_iter(), t.clone());
            let done = t.guard("adding memory ports", || m.add_ports(it))?.is_some();
            let want: Vec<Port> = old.iter().chain(&new).cloned().collect();
            let got: Vec<Port> = m.ports().cloned().collect();
            let ok = if done { got == want } else { got.len() >= old.len() && got.len() <= want.len() && got == want[..got.len()] };
            ensure!(ok, "memory ports", "{got:?} after adding (complete: {done}) to {want:?}");
            lib(|| m.add_port(new[0].clone()));
            ensure!(m.ports().count() == got.len() + 1, "memory ports", "a port vanished");
        }
    }
    Ok(())
}

/// A type of names
struct Name<'a>(&'a str, &'a Trip);
impl AsRef<str> for Name<'_> {
    fn as_ref(&self) -> &str {
        self.1.hit();
        self.0
    }
}

fn names(env: &Env, t: &Trip, i: usize, name: &str) -> Res {
    for m in lib(|| all_modules(env.circuits[i].top_module())) {
        let want = m.ports().find(|p| p.name().as_ref() == name);
        if let Some(got) = t.guard("looking up a port", || m.port_by_name(&Name(name, t)).cloned())? {
            ensure!(match (want, &got) { (None, None) => true, (Some(a), Some(b)) => Arc::ptr_eq(a, b), _ => false }, "port by name", "port {name}: expected one: {}, found one: {}", want.is_some(), got.is_some());
        }
    }
    // Also on an iterator halfway through a text
    let (text, _) = &env.texts[0];
    let Ok(c) = lib(|| consumer(text)) else { return Ok(()) };
    drop(c);
    let body = text.find('\n').map(|n| &text[n + 1..]).unwrap_or("");
    let mut it = lib(|| Modules::new(body));
    let mut seen: Vec<Arc<Module>> = Vec::new();
    loop {
        if let Some(got) = t.guard("looking up a module", || it.module(Name(name, t)).cloned())? {
            let want = seen.iter().rev().find(|m| m.name_ref() == name);
            ensure!(match (want, &got) { (None, None) => true, (Some(a), Some(b)) => Arc::ptr_eq(a, b), _ => false }, "module by name", "module {name}: expected one: {}, found one: {}", want.is_some(), got.is_some());
        }
        match lib(|| it.next()) {
            Some(Ok(m)) => seen.push(m),
            _ => break,
        }
    }
    Ok(())
}

/// A type of references
#[derive(Clone)]
struct Ref {
    name: String,
    ty: Type,
    flow: Option<Flow>,
    t: Trip,
}

impl Named for Ref {
    type Name = String;
    fn name(&self) -> &String {
        self.t.hit();
        &self.name
    }
}

impl Reference for Ref {
    fn flow(&self) -> Option<Flow> {
        self.t.hit();
        self.flow
    }
}

impl Typed for Ref {
    type Err = Ref;
    type Type = Type;
    fn r#type(&self) -> Result<Type, Ref> {
        self.t.hit();
        Ok(self.ty.clone())
    }
}

type Fx = Expression<Ref>;

fn ref_expr(t: &Trip, depth: usize, shape: &mut dyn Iterator<Item = u64>) -> Fx {
    let k = shape.next().unwrap_or(0);
    let mut sub = |s: &mut dyn Iterator<Item = u64>| Arc::new(ref_expr(t, depth - 1, s));
    if depth == 0 || k < 3 {
        let uint: Type = GroundType::UInt(Some(4)).into();
        let ty = match k {
            1 => Type::Vector(Arc::new(uint), 3),
            2 => vec![BundleField::new("f", uint)].into(),
            _ => uint,
        };
        return Expression::Reference(Ref { name: format!("r{k}"), ty, flow: [Some(Flow::Source), Some(Flow::Duplex), None][k as usize % 3], t: t.clone() });
    }
    match k {
        3 => Expression::SubField { base: sub(shape), index: "f".into() },
        4 => Expression::SubIndex { base: sub(shape), index: 2 },
        5 => { let base = sub(shape); Expression::SubAccess { base, index: sub(shape) } }
        6 => { let (sel, a) = (sub(shape), sub(shape)); Expression::Mux { sel, a, b: sub(shape) } }
        _ => { let sel = sub(shape); Expression::ValidIf { sel, value: sub(shape) } }
    }
}

fn refs(env: &Rc<Env>, t: &Trip, shape: &[u64]) -> Res {
    let calm = Trip::new(env, 0, Vec::new());
    let a = ref_expr(&calm, 3, &mut shape.iter().copied());
    let b = ref_expr(t, 3, &mut shape.iter().copied());
    let ty = |e: &Fx| e.r#type().map(|t| t.to_string()).map_err(|_| ());
    let flow = |e: &Fx| e.flow().map_err(|_| ());
    let names = |e: &Fx| e.references().map(|r| r.name.clone()).collect::<Vec<_>>();
    macro_rules! both {
        ($what:expr, $f:expr) => {
            let want = lib(|| $f(&a));
            for _ in 0..2 {
                if let Some(got) = t.guard($what, || $f(&b))? {
                    ensure!(got == want, "expression", "{}: {got:?} instead of {want:?}", $what);
                }
            }
        };
    }
    both!("formatting an expression", |e: &Fx| e.to_string());
    both!("typing an expression", ty);
    both!("determining a flow", flow);
    both!("listing references", names);
    Ok(())
}

/// One operation, undisturbed first, disturbed afterwards
pub fn op(env: &Rc<Env>, depth: usize) -> Res {
    let left = env.budget.get();
    if left == 0 {
        return Ok(());
    }
    env.budget.set(left - 1);
    let kind = draw(10);
    let act: Box<dyn Fn(&Trip) -> Res> = match kind {
        0 | 1 => {
            let i = below(env.texts.len());
            let split = Split::draw(env.texts[i].0.len());
            let env = env.clone();
            Box::new(move |t| read(&env, t, i, &split))
        }
        2 | 3 => {
            let (i, way) = (below(env.shown.len()), draw(3));
            let env = env.clone();
            Box::new(move |t| write(&env, t, i, way))
        }
        4 | 5 => {
            let objs = lib(|| all_modules(env.circuits[below(env.circuits.len())].top_module()));
            let n = size(6);
            let items: Vec<Result<usize, u64>> = (0..n).map(|_| if draw(4) == 3 { Err(draw(50)) } else { Ok(below(objs.len())) }).collect();
            let top = if draw(6) == 5 { "nowhere".to_string() } else { objs[below(objs.len())].name().to_string() };
            let steps = range(0, 2 + items.len());
            let wrapped = draw(3) == 2;
            Box::new(move |t| consume(t, &objs, &items, &top, steps, wrapped))
        }
        6 => {
            let objs = lib(|| all_modules(env.circuits[below(env.circuits.len())].top_module()));
            let m = objs[below(objs.len())].clone();
            let which = draw(5);
            Box::new(move |t| iterators(t, &m, which))
        }
        7 => {
            let i = below(env.circuits.len());
            let all: Vec<String> = lib(|| all_modules(env.circuits[i].top_module())).iter()
                .flat_map(|m| m.ports().map(|p| p.name().to_string()).chain([m.name().to_string()]).collect::<Vec<_>>()).collect();
            let name = pick(&all);
            let env = env.clone();
            Box::new(move |t| names(&env, t, i, &name))
        }
        8 => {
            let shape: Vec<u64> = (0..12).map(|_| draw(8)).collect();
            let env = env.clone();
            Box::new(move |t| refs(&env, t, &shape))
        }
        _ => {
            // Contexts check themselves
            if depth == 0 { return Ok(()) }
            let n = pick(&[0, 1, 3, 10, 30]);
            let t = Trip::new(env, depth - 1, vec![(n, draw_what()), (n + draw(20), draw_what())]);
            super::c12::history(Rc::new(move || t.hit()))?;
            return match env.viol.borrow_mut().take() {
                None => Ok(()),
                Some(v) => Err(Viol { class: format!("nested: {}", v.class), detail: v.detail }),
            };
        }
    };
    ev("op", kind, depth as u64);
    let calm = Trip::new(env, 0, Vec::new());
    act(&calm)?;
    let n = calm.calls.get();
    if depth == 0 || n == 0 {
        return Ok(());
    }
    if n <= 10 && chance(1, 3) {
        count("every_call");
        for i in 0..n {
            for w in [What::Panic, What::Nest] {
                act(&Trip::new(env, depth - 1, vec![(i, w)]))?;
            }
        }
    } else {
        let mut plan = vec![(draw(n), draw_what())];
        if draw(3) == 2 { plan.push((draw(n), draw_what())) }
        let t = Trip::new(env, depth - 1, plan);
        act(&t)?;
    }
    // And as if nothing had happened
    act(&Trip::new(env, 0, Vec::new()))
}

fn draw_what() -> What {
    pick(&[What::Panic, What::Nest, What::NestPanic])
}

/// Objects for operations to work on
pub fn scene() -> Rc<Env> {
    let mut cfg = gen::small_cfg();
    cfg.mods = gen::few(&cfg, pick(&[1, 2, 3]));
    let specs: Vec<SCircuit> = (0..range(1, 2)).map(|_| gen::circuit(&cfg)).collect();
    let circuits: Vec<Circuit> = specs.iter().map(build).collect();
    let mut shown = Vec::new();
    for c in &circuits {
        shown.push(lib(|| Shown::new("Circuit", c.clone())));
        shown.push(lib(|| super::shown::choose(c)));
    }
    let mut texts: Vec<String> = specs.iter().map(|s| render(s, &Style::plain()).text).collect();
    if draw(2) == 1 {
        let mut data = texts[0].clone().into_bytes();
        corrupt(&mut data, texts.last().unwrap().as_bytes());
        if let Ok(t) = String::from_utf8(data) { texts.push(t) }
    }
    let texts: Vec<(String, Out)> = texts.into_iter().map(|t| {
        let o = outcome(&parse(&t));
        (t, o)
    }).collect();
    let specs: Vec<SCircuit> = specs.iter().map(normal).collect();
    Rc::new(Env {
        specs, circuits, shown, texts,
        next_id: Cell::new(1), viol: Default::default(), budget: Cell::new(60),
    })
}

fn run() -> Res {
    let env = scene();
    for (t, _) in &env.texts { state(t.as_bytes()) }
    note(|| format!("texts:\n{}", env.texts.iter().map(|t| t.0.as_str()).collect::<Vec<_>>().join("\n----\n")));
    for _ in 0..range(1, 3) {
        op(&env, pick(&[1, 2, 2, 3]))?;
    }
    for (c, s) in env.circuits.iter().zip(&env.specs) { same("changed", s, c)? }
    for (t, o) in &env.texts {
        let got = outcome(&parse(t));
        ensure!(got == *o, "later operation", "{}", out_diff(o, &got));
    }
    Ok(())
}
