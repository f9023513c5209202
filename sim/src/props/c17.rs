//! C17: Objects are what their changes make them, and copies go their own ways

use std::collections::BTreeMap;
use std::sync::atomic::Ordering::Relaxed;

use firrtl_ast::expr::{Expression, Flow, Reference};
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{mem, simple, Memory, Register};
use firrtl_ast::module::{self, Module};
use firrtl_ast::named::Named;
use firrtl_ast::stmt::{Entity, Kind as K, Statement};
use firrtl_ast::types::{BundleField, Orientation, Type, Typed};

use super::*;
use crate::gen;
use crate::io::*;

pub static PROP: Prop = Prop {
    id: "C17",
    run,
    quick: 150_000,
    level: "exploration",
    rule: "Two to three tasks take memories, registers, fields, ports, modules, statements and circuits out of a common pool, change them by each of the operations there are, copy, compare, share and drop them. Values and iterators are handed to the library by conversions and iterators of the caller, which switch tasks, use the library themselves, announce odd numbers of items or panic. After each step, what was touched and some other object are compared with models to which the same changes were applied; in the end nothing may be left over.",
    assumptions: &["objects are moved between threads, of which exactly one runs at a time"],
    cases: &[],
};

type Reg = Register<Ent>;

#[derive(Clone)]
enum Obj {
    Mem(Memory),
    Reg(Reg),
    Field(BundleField),
    Port(module::Port),
    Mod(Module),
    Stmt(Statement),
    Circ(Circuit),
    Simple(simple::Memory),
    Access(simple::Port<Ent>),
    Inst(module::Instance),
    Ent(Ent),
}

#[derive(Clone, Debug, PartialEq)]
enum ModKind {
    Reg(Vec<(u64, Info)>),
    Ext(Option<String>, BTreeMap<String, SParam>),
}

#[derive(Clone, Debug, PartialEq)]
enum Model {
    Mem { name: String, ty: SType, depth: u64, ports: Vec<(Dir, String)>, read: u16, write: u16, ruw: Ruw },
    Reg { name: String, ty: SType, clock: u64, reset: Option<(u64, u64)> },
    Field(SField),
    Port(SPort),
    Mod { name: String, ports: Vec<SPort>, kind: ModKind, info: Info },
    Stmt(u64, Info),
    Circ { top: String, info: Info },
    Simple { name: String, ty: SType, kind: Option<Option<Ruw>> },
    Access { name: String, mem: Box<Model>, dir: Option<Dir>, addr: u64, clock: u64 },
    Inst { name: String, of: Box<Model> },
    Ent(Box<Model>),
    Wire(SField),
    Node { name: String, value: u64 },
}

struct Item {
    obj: Obj,
    model: Model,
}

impl Drop for Item {
    fn drop(&mut self) {
        // Dropping is an operation of the library
        let hollow = Obj::Stmt(lib(|| K::Empty.into()));
        let o = std::mem::replace(&mut self.obj, hollow);
        lib(|| drop(o));
    }
}

struct Hub {
    pool: Vec<Item>,
    mods: Vec<Arc<Module>>,
    names: Vec<Arc<str>>,
    cfg: gen::Cfg,
}

// ------------------------------------------------------------------- values

fn literal(n: u64) -> Ex {
    Expression::UIntLiteral { value: n.into(), width: 64 }
}

fn token(e: &Ex) -> Res<u64> {
    match e {
        Expression::UIntLiteral { value, width: 64 } => match u64::try_from(value) {
            Ok(n) => Ok(n),
            Err(_) => viol("expression", "a literal changed its value"),
        },
        _ => viol("expression", "an expression became another one"),
    }
}

/// What a caller's code does when called
#[derive(Clone, Copy)]
enum Act { Nothing, Switch, Nested, Panic }

impl Act {
    fn draw() -> Act {
        match draw(12) {
            0 | 1 => Act::Switch,
            2 => Act::Nested,
            3 => Act::Panic,
            _ => Act::Nothing,
        }
    }

    fn act(self) {
        callback(|| match self {
            Act::Nothing => (),
            Act::Switch => yield_now("caller"),
            Act::Nested => {
                count("fault_caller_nested");
                let mut m = lib(|| Memory::new("nested", Type::from(firrtl_ast::types::GroundType::Clock), 3));
                lib(|| m.add_port(mem::Port { name: "p".into(), dir: mk_dir(Dir::Read) }));
                m = lib(|| m.with_read_latency(7));
                lib(|| drop(m));
                let c = parse("circuit n:\n  module n:\n    input i: UInt\n    i <= i\n");
                lib(|| drop(c));
            }
            Act::Panic => {
                count("fault_caller_panic");
                inject_panic(1)
            }
        })
    }
}

/// Something which becomes a value only when asked to
struct Lazy<T>(T, Act);

impl From<Lazy<Type>> for Type {
    fn from(l: Lazy<Type>) -> Type { l.1.act(); l.0 }
}

impl From<Lazy<Arc<str>>> for Arc<str> {
    fn from(l: Lazy<Arc<str>>) -> Arc<str> { l.1.act(); l.0 }
}

impl From<Lazy<Ex>> for Ex {
    fn from(l: Lazy<Ex>) -> Ex { l.1.act(); l.0 }
}

/// Items which become known one by one
struct Items<T> {
    items: std::vec::IntoIter<T>,
    at: usize,
    act: Act,
    hint: u64,
    seen: Arc<std::sync::atomic::AtomicUsize>,
}

impl<T> Items<T> {
    fn new(v: Vec<T>) -> Self {
        let at = below(v.len() + 1);
        Items { items: v.into_iter(), at, act: Act::draw(), hint: draw(6), seen: Default::default() }
    }
}

impl<T> Iterator for Items<T> {
    type Item = T;

    fn next(&mut self) -> Option<T> {
        if self.at == 0 { self.act.act() }
        self.at = self.at.wrapping_sub(1);
        let r = self.items.next();
        if r.is_some() { self.seen.fetch_add(1, Relaxed); }
        r
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.items.len();
        match self.hint {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (0, Some(n + 3)),
            3 => (n.min(1), None),
            // Wrong, but not to be relied on
            4 => (n / 2, Some(n / 2)),
            _ => (n + 2, Some(n + 2)),
        }
    }
}

// ------------------------------------------------------------------ observe

fn see(o: &Obj) -> Res<Model> {
    Ok(match o {
        Obj::Mem(m) => Model::Mem {
            name: m.name().to_string(),
            ty: x_type(m.data_type()),
            depth: m.depth(),
            ports: m.ports().map(|p| (x_dir(p.dir), p.name.to_string())).collect(),
            read: m.read_latency(),
            write: m.write_latency(),
            ruw: x_ruw(m.read_under_write()),
        },
        Obj::Reg(r) => Model::Reg {
            name: r.name().to_string(),
            ty: r.r#type().map_or(ODD, |t| x_type(&t)),
            clock: token(r.clock())?,
            reset: match (r.reset_signal(), r.reset_value()) {
                (None, None) => None,
                (Some(s), Some(v)) => Some((token(s)?, token(v)?)),
                _ => return viol("reset", "a register has only a part of a reset"),
            },
        },
        Obj::Field(f) => Model::Field(SField {
            name: f.name().to_string(),
            flip: f.orientation() == Orientation::Flipped,
            ty: x_type(f.r#type()),
        }),
        Obj::Port(p) => Model::Port(x_port(p)),
        Obj::Mod(m) => {
            let kind = match m.kind() {
                module::Kind::Regular { stmts } => {
                    ensure!(stmts.len() == m.statements().len(), "statements", "the number of statements depends on the way");
                    ModKind::Reg(stmts.iter().map(statement).collect::<Res<_>>()?)
                }
                module::Kind::External { defname, params } => {
                    ensure!(m.statements().is_empty(), "statements", "an external module has statements");
                    ModKind::Ext(defname.as_ref().map(|n| n.to_string()), params.iter().map(|(k, v)| (k.to_string(), x_param(v))).collect())
                }
            };
            Model::Mod { name: m.name().to_string(), ports: m.ports().map(|p| x_port(p)).collect(), kind, info: x_info(m) }
        }
        Obj::Stmt(s) => {
            let (t, i) = statement(s)?;
            Model::Stmt(t, i)
        }
        Obj::Simple(m) => Model::Simple {
            name: m.name().to_string(),
            ty: m.r#type().map_or(ODD, |t| x_type(&t)),
            kind: match m.kind() {
                simple::Kind::Combinatory => None,
                simple::Kind::Sequential(r) => Some(r.map(x_ruw)),
            },
        },
        Obj::Access(p) => Model::Access {
            name: p.name().to_string(),
            mem: Box::new(see(&Obj::Simple(p.memory().as_ref().clone()))?),
            dir: p.direction().map(x_dir),
            addr: token(p.address())?,
            clock: token(p.clock())?,
        },
        Obj::Inst(i) => Model::Inst { name: i.name().to_string(), of: Box::new(see(&Obj::Mod(i.module().as_ref().clone()))?) },
        Obj::Ent(e) => Model::Ent(Box::new(match e.as_ref() {
            Entity::Port(p) => see(&Obj::Port(p.as_ref().clone()))?,
            Entity::Wire { name, r#type } => Model::Wire(SField { name: name.to_string(), flip: false, ty: x_type(r#type) }),
            Entity::Register(r) => see(&Obj::Reg(r.clone()))?,
            Entity::Node { name, value } => Model::Node { name: name.to_string(), value: token(value)? },
            Entity::Memory(m) => see(&Obj::Mem(m.clone()))?,
            Entity::SimpleMemPort(p) => see(&Obj::Access(p.clone()))?,
            Entity::Instance(i) => see(&Obj::Inst(i.clone()))?,
        })),
        Obj::Circ(c) => Model::Circ { top: c.top_module().name().to_string(), info: x_info(c) },
    })
}

/// In place of a type where there is none
const ODD: SType = SType::Bundle(Vec::new());

/// What objects offer to expressions and users, given what they are made of
struct Offer {
    name: String,
    /// None: is of no interest
    ty: Option<Option<SType>>,
    flow: Option<Option<Flow>>,
}

fn field(name: &str, flip: bool, ty: SType) -> SField { SField { name: name.into(), flip, ty } }

fn mask(t: &SType) -> SType {
    match t {
        SType::Vec(t, n) => SType::Vec(Box::new(mask(t)), *n),
        SType::Bundle(v) => SType::Bundle(v.iter().map(|f| field(&f.name, f.flip, mask(&f.ty))).collect()),
        _ => SType::UInt(Some(1)),
    }
}

fn offer(m: &Model) -> Option<Offer> {
    use Flow::*;
    let (name, ty, flow) = match m {
        Model::Mem { name, ty, depth, ports, .. } => {
            // The number of bits of the last address
            let width = 64 - depth.saturating_sub(1).leading_zeros() as u16;
            let access = |d: Dir| {
                let mut v = match d {
                    Dir::Read => vec![field("data", true, ty.clone())],
                    Dir::Write => vec![field("data", false, ty.clone()), field("mask", false, mask(ty))],
                    Dir::ReadWrite => vec![
                        field("wmode", false, SType::UInt(Some(1))),
                        field("rdata", true, ty.clone()),
                        field("wdata", false, ty.clone()),
                        field("wmask", false, mask(ty)),
                    ],
                };
                v.push(field("addr", false, SType::UInt(Some(width))));
                v.push(field("en", false, SType::UInt(Some(1))));
                v.push(field("clk", false, SType::Clock));
                SType::Bundle(v)
            };
            let t = SType::Bundle(ports.iter().map(|(d, n)| field(n, true, access(*d))).collect());
            (name, Some(Some(t)), Some(Some(Source)))
        }
        Model::Reg { name, ty, .. } => (name, Some(Some(ty.clone())), Some(Some(Duplex))),
        Model::Field(f) => (&f.name, Some(Some(f.ty.clone())), None),
        Model::Port(p) => (&p.name, Some(Some(p.ty.clone())), Some(Some(if p.out { Sink } else { Source }))),
        Model::Mod { name, .. } => (name, None, None),
        Model::Stmt(..) => return None,
        Model::Circ { top, .. } => (top, None, None),
        Model::Simple { name, ty, .. } => (name, Some(Some(ty.clone())), None),
        Model::Access { name, mem, dir, .. } => {
            let t = match mem.as_ref() {
                Model::Simple { ty: SType::Vec(t, _), .. } => Some(t.as_ref().clone()),
                _ => None,
            };
            (name, Some(t), Some(dir.map(|d| match d { Dir::Read => Source, Dir::Write => Sink, Dir::ReadWrite => Duplex })))
        }
        Model::Inst { name, of } => {
            let Model::Mod { ports, .. } = of.as_ref() else { unreachable!() };
            let t = SType::Bundle(ports.iter().map(|p| field(&p.name, !p.out, p.ty.clone())).collect());
            (name, Some(Some(t)), Some(Some(Source)))
        }
        Model::Ent(m) => return offer(m),
        Model::Wire(f) => (&f.name, Some(Some(f.ty.clone())), Some(Some(Duplex))),
        Model::Node { name, .. } => (name, Some(Some(SType::UInt(Some(64)))), Some(Some(Source))),
    };
    Some(Offer { name: name.clone(), ty, flow })
}

fn offered(o: &Obj) -> Option<Offer> {
    fn named<N: Named>(n: &N) -> String where N::Name: AsRef<str> { n.name().as_ref().to_string() }
    fn typed<T: Typed<Type = Type>>(t: &T) -> Option<Option<SType>> { Some(t.r#type().ok().map(|t| x_type(&t))) }
    fn flow<R: Reference>(r: &R) -> Option<Option<Flow>> { Some(r.flow()) }
    let (name, ty, flow) = match o {
        Obj::Mem(x) => (named(x), typed(x), flow(x)),
        Obj::Reg(x) => (named(x), typed(x), flow(x)),
        Obj::Field(x) => (named(x), Some(Some(x_type(x.r#type()))), None),
        Obj::Port(x) => (named(x), Some(Some(x_type(x.r#type()))), flow(x)),
        Obj::Mod(x) => (named(x), None, None),
        Obj::Stmt(_) => return None,
        Obj::Circ(x) => (named(x.top_module().as_ref()), None, None),
        Obj::Simple(x) => (named(x), typed(x), None),
        Obj::Access(x) => (named(x), typed(x), flow(x)),
        Obj::Inst(x) => (named(x), typed(x), flow(x)),
        Obj::Ent(x) => (named(x), typed(x), flow(x)),
    };
    Some(Offer { name, ty, flow })
}

fn statement(s: &Statement) -> Res<(u64, Info)> {
    Ok(match s.kind() {
        K::Empty => (0, x_info(s)),
        K::Invalidate(e) => (token(e)?, x_info(s)),
        _ => return viol("statement", "a statement became another one"),
    })
}

fn mk_stmt(n: u64) -> Statement {
    if n == 0 { K::Empty.into() } else { K::Invalidate(literal(n)).into() }
}

impl Item {
    fn check(&self, when: &str) -> Res {
        let seen = lib(|| see(&self.obj))?;
        ensure!(seen == self.model, "object", "{when}: expected {:?}, got {:?}", self.model, seen);
        if let (Some(w), Some(g)) = (offer(&self.model), lib(|| offered(&self.obj))) {
            ensure!(w.name == g.name, "offer", "{when}: {:?} is named {:?}", self.model, g.name);
            ensure!(w.ty == g.ty, "offer", "{when}: the type of {:?} is expected to be {:?}, got {:?}", self.model, w.ty, g.ty);
            ensure!(w.flow == g.flow, "offer", "{when}: the flow of {:?} is expected to be {:?}, got {:?}", self.model, w.flow, g.flow);
        }
        match (&self.obj, &self.model) {
            (Obj::Mod(m), Model::Mod { ports, kind, .. }) => {
                for p in ports {
                    let n = ports.iter().position(|q| q.name == p.name);
                    let x = lib(|| m.port_by_name(&p.name).and_then(|p| m.ports().position(|q| Arc::ptr_eq(p, q))));
                    ensure!(n == x, "offer", "{when}: port {:?} is found at {x:?} instead of {n:?}", p.name);
                }
                ensure!(lib(|| m.port_by_name(&"no such port").is_none()), "offer", "{when}: a port is found although there is none");
                let k = lib(|| m.kind().keyword());
                ensure!((k == "module") == matches!(kind, ModKind::Reg(_)), "offer", "{when}: {k} for {kind:?}");
            }
            (Obj::Simple(m), Model::Simple { kind, .. }) => {
                let k = lib(|| m.kind().keyword());
                ensure!((k == "cmem") == kind.is_none(), "offer", "{when}: {k} for {kind:?}");
            }
            (Obj::Ent(e), Model::Ent(m)) => {
                let d = lib(|| e.is_declarable());
                ensure!(d != matches!(m.as_ref(), Model::Port(_)), "offer", "{when}: declarable is {d} for {m:?}");
            }
            _ => (),
        }
        Ok(())
    }
}

fn same(a: &Obj, b: &Obj) -> Option<(bool, bool)> {
    Some(match (a, b) {
        (Obj::Mem(a), Obj::Mem(b)) => (a == b, a != b),
        (Obj::Reg(a), Obj::Reg(b)) => (a == b, a != b),
        (Obj::Field(a), Obj::Field(b)) => (a == b, a != b),
        (Obj::Port(a), Obj::Port(b)) => (a == b, a != b),
        (Obj::Mod(a), Obj::Mod(b)) => (a == b, a != b),
        (Obj::Stmt(a), Obj::Stmt(b)) => (a == b, a != b),
        (Obj::Circ(a), Obj::Circ(b)) => (a == b, a != b),
        (Obj::Simple(a), Obj::Simple(b)) => (a == b, a != b),
        (Obj::Access(a), Obj::Access(b)) => (a == b, a != b),
        (Obj::Inst(a), Obj::Inst(b)) => (a == b, a != b),
        (Obj::Ent(a), Obj::Ent(b)) => (a == b, a != b),
        _ => return None,
    })
}

// ------------------------------------------------------------------- create

fn name(hub: &Shared<Hub>) -> Arc<str> { pick(&hub.get().names) }

fn ty(hub: &Shared<Hub>) -> SType { gen::stype(&hub.get().cfg, 2) }

/// Types for simple memories, usually
fn vectors(hub: &Shared<Hub>) -> SType {
    if draw(4) == 0 { ty(hub) } else { SType::Vec(Box::new(ty(hub)), pick(&[1, 4, 65535, 0])) }
}

/// A copy of some object
fn some(hub: &Shared<Hub>, like: impl Fn(&Item) -> bool) -> Option<(Obj, Model)> {
    let n: Vec<usize> = hub.get().pool.iter().enumerate().filter(|(_, i)| like(i)).map(|(n, _)| n).collect();
    if n.is_empty() { return None }
    let i = hub.get().pool.swap_remove(pick(&n));
    let r = (lib(|| i.obj.clone()), i.model.clone());
    put(hub, i);
    Some(r)
}

/// Numbers close to powers of two matter for the width of addresses
fn depth() -> u64 {
    if draw(2) == 0 { return number() }
    (1u64 << draw(64)).wrapping_add(pick(&[0, 1, u64::MAX]))
}

fn number() -> u64 { pick(&[1, 0, 2, 255, 65536, u64::MAX, 3]) }

fn info(hub: &Shared<Hub>) -> Info {
    pick(&[None, Some(String::new()), Some("a".into()), Some("somewhere in a file:12".into()), gen::info(&hub.get().cfg)])
}

fn s_port(hub: &Shared<Hub>) -> SPort {
    SPort { name: name(hub).to_string(), ty: ty(hub), out: draw(2) == 0, info: info(hub) }
}

fn mk_port(hub: &Shared<Hub>, p: &SPort) -> module::Port {
    let n = hub.get().names.iter().find(|n| n.as_ref() == p.name).unwrap().clone();
    module::Port::new(n, mk_type(&p.ty), if p.out { module::Direction::Output } else { module::Direction::Input }).with_info(p.info.clone())
}

/// Call the library with code of the caller. Without value if that panicked.
fn call<T>(f: impl FnOnce() -> T) -> Res<Option<T>> {
    Ok(match guard(|| lib(f))? {
        Ended::Value(v) => Some(v),
        _ => None,
    })
}

fn create(hub: &Shared<Hub>) -> Res<Option<Item>> {
    let n = name(hub);
    let name = n.to_string();
    let (a, b) = (Act::draw(), Act::draw());
    let (obj, model) = match draw(11) {
        0 => {
            let (ty, depth) = (ty(hub), depth());
            let t = mk_type(&ty);
            let o = call(move || Memory::new(Lazy(n, a), Lazy(t, b), depth))?;
            (o.map(Obj::Mem), Model::Mem { name, ty, depth, ports: Vec::new(), read: 0, write: 0, ruw: Ruw::Undefined })
        }
        1 => {
            let (ty, clock) = (ty(hub), number());
            let (t, c) = (mk_type(&ty), literal(clock));
            let d = Act::draw();
            let o = call(move || Reg::new(Lazy(n, a), Lazy(t, b), Lazy(c, d)))?;
            (o.map(Obj::Reg), Model::Reg { name, ty, clock, reset: None })
        }
        2 => {
            let ty = ty(hub);
            let t = mk_type(&ty);
            let o = call(move || BundleField::new(Lazy(n, a), Lazy(t, b)))?;
            (o.map(Obj::Field), Model::Field(SField { name, flip: false, ty }))
        }
        3 => {
            let (ty, out) = (ty(hub), draw(2) == 0);
            let t = mk_type(&ty);
            let o = call(move || module::Port::new(Lazy(n, a), t, if out { module::Direction::Output } else { module::Direction::Input }))?;
            (o.map(Obj::Port), Model::Port(SPort { name, ty, out, info: None }))
        }
        4 => {
            let ports: Vec<SPort> = (0..size(6)).map(|_| s_port(hub)).collect();
            let p: Vec<_> = lib(|| ports.iter().map(|p| Arc::new(mk_port(hub, p))).collect());
            let p = Items::new(p);
            let ext = draw(3) == 0;
            let kind = if ext { module::Kind::empty_external() } else { module::Kind::empty_regular() };
            let o = call(move || Module::new(n, p, kind))?;
            let kind = if ext { ModKind::Ext(None, BTreeMap::new()) } else { ModKind::Reg(Vec::new()) };
            (o.map(Obj::Mod), Model::Mod { name, ports, kind, info: None })
        }
        6 => {
            let (ty, kind) = (vectors(hub), pick(&[None, Some(None), Some(Some(gen::ruw()))]));
            let t = mk_type(&ty);
            let k = kind.map_or(simple::Kind::Combinatory, |r| simple::Kind::Sequential(r.map(mk_ruw)));
            let o = call(move || simple::Memory::new(Lazy(n, a), Lazy(t, b), k))?;
            (o.map(Obj::Simple), Model::Simple { name, ty, kind })
        }
        7 => {
            // Of some memory known already, if there is any
            let known = some(hub, |i| matches!(i.obj, Obj::Simple(_)));
            let (m, mem) = match known {
                Some((Obj::Simple(m), model)) => (m, model),
                _ => {
                    let (ty, inner) = (vectors(hub), pick(&hub.get().names));
                    let m = lib(|| simple::Memory::new(inner.clone(), mk_type(&ty), simple::Kind::Combinatory));
                    (m, Model::Simple { name: inner.to_string(), ty, kind: None })
                }
            };
            let (addr, clock) = (number(), number());
            let dir = pick(&[None, Some(Dir::Read), Some(Dir::Write), Some(Dir::ReadWrite)]);
            let o = call(move || simple::Port::new(Lazy(n, a), Arc::new(m), dir.map(mk_dir), literal(addr), literal(clock)))?;
            (o.map(Obj::Access), Model::Access { name, mem: Box::new(mem), dir, addr, clock })
        }
        8 => {
            let known = some(hub, |i| matches!(i.obj, Obj::Mod(_)));
            let (m, of) = match known {
                Some((Obj::Mod(m), model)) => (Arc::new(m), model),
                _ => {
                    let m = pick(&hub.get().mods);
                    let name = m.name().to_string();
                    (m, Model::Mod { name, ports: Vec::new(), kind: ModKind::Reg(Vec::new()), info: None })
                }
            };
            let o = call(move || module::Instance::new(Lazy(n, a), m))?;
            (o.map(Obj::Inst), Model::Inst { name, of: Box::new(of) })
        }
        9 => {
            // Whatever can be referred to
            let known = some(hub, |i| matches!(i.obj, Obj::Port(_) | Obj::Reg(_) | Obj::Mem(_) | Obj::Access(_) | Obj::Inst(_)));
            let (e, m): (Entity, Model) = match known {
                Some((Obj::Port(p), m)) => (lib(|| Arc::new(p).into()), m),
                Some((Obj::Reg(r), m)) => (lib(|| r.into()), m),
                Some((Obj::Mem(x), m)) => (lib(|| x.into()), m),
                Some((Obj::Access(p), m)) => (lib(|| p.into()), m),
                Some((Obj::Inst(i), m)) => (lib(|| i.into()), m),
                _ if draw(2) == 0 => {
                    let ty = ty(hub);
                    (lib(|| Entity::Wire { name: n, r#type: mk_type(&ty) }), Model::Wire(field(&name, false, ty)))
                }
                _ => {
                    let value = number();
                    (lib(|| Entity::Node { name: n, value: literal(value) }), Model::Node { name, value })
                }
            };
            (Some(Obj::Ent(lib(|| Arc::new(e)))), Model::Ent(Box::new(m)))
        }
        5 => {
            let t = number();
            (Some(Obj::Stmt(lib(|| mk_stmt(t)))), Model::Stmt(t, None))
        }
        _ => {
            let m = pick(&hub.get().mods);
            let top = m.name().to_string();
            (Some(Obj::Circ(lib(|| Circuit::new(m)))), Model::Circ { top, info: None })
        }
    };
    Ok(obj.map(|obj| Item { obj, model }))
}

// ------------------------------------------------------------------- change

/// Change the info, in each of the ways there are
fn change_info<T: WithInfo>(hub: &Shared<Hub>, t: T, model: &mut Info) -> T {
    let new = match draw(3) { 0 => None, _ => info(hub) };
    let mut t = t;
    match (&new, draw(3)) {
        (None, 0) => lib(|| t.clear_info()),
        (_, 1) => t = lib(|| t.with_info(new.clone())),
        _ => lib(|| t.set_info(new.clone())),
    }
    *model = new;
    t
}

/// Change an object. It may be lost.
fn change(hub: &Shared<Hub>, mut item: Item) -> Res<Option<Item>> {
    // Objects are moved into the library and back
    let hollow = Obj::Stmt(lib(|| K::Empty.into()));
    let obj = std::mem::replace(&mut item.obj, hollow);
    let what = draw(8);
    let (a, b) = (Act::draw(), Act::draw());
    let new = match (obj, &mut item.model) {
        (Obj::Mem(mut m), Model::Mem { ports, read, write, ruw, .. }) => Some(Obj::Mem(match what {
            0 => { *read = number() as u16; lib(|| m.with_read_latency(*read)) }
            1 => { *write = number() as u16; lib(|| m.with_write_latency(*write)) }
            2 => { *ruw = gen::ruw(); lib(|| m.with_read_under_write(mk_ruw(*ruw))) }
            3 | 4 => {
                let (d, n) = (pick(&[Dir::Read, Dir::Write, Dir::ReadWrite]), name(hub));
                ports.push((d, n.to_string()));
                lib(|| m.add_port(mem::Port { name: n, dir: mk_dir(d) }));
                m
            }
            _ => {
                let more: Vec<_> = (0..size(8)).map(|_| (pick(&[Dir::Read, Dir::Write, Dir::ReadWrite]), name(hub))).collect();
                let it = Items::new(more.iter().map(|(d, n)| mem::Port { name: n.clone(), dir: mk_dir(*d) }).collect());
                let seen = it.seen.clone();
                let before = ports.len();
                let done = call(|| m.add_ports(it))?.is_some();
                let given = seen.load(Relaxed);
                ports.extend(more.into_iter().map(|(d, n)| (d, n.to_string())));
                if !done {
                    // Those which were given may have been added
                    let now = lib(|| m.ports().count());
                    ensure!((before..=before + given).contains(&now), "ports", "{now} ports after adding some of {given} to {before} was interrupted");
                    ports.truncate(now);
                }
                m
            }
        })),
        (Obj::Reg(r), Model::Reg { reset, .. }) => {
            let (s, v) = (number(), number());
            match what {
                0..=2 => { *reset = None; Some(lib(|| r.without_reset())) }
                3 | 4 => {
                    *reset = pick(&[None, Some((s, v))]);
                    let e = reset.map(|(s, v)| (literal(s), literal(v)));
                    Some(lib(|| r.with_optional_reset(e)))
                }
                _ => {
                    *reset = Some((s, v));
                    let (s, v) = (literal(s), literal(v));
                    call(move || r.with_reset(Lazy(s, a), Lazy(v, b)))?
                }
            }.map(Obj::Reg)
        }
        (Obj::Field(f), Model::Field(s)) => match what {
            0..=2 => { s.flip = !s.flip; Some(lib(|| f.flipped())) }
            3 | 4 => {
                s.flip = draw(2) == 0;
                Some(lib(|| f.with_orientation(if s.flip { Orientation::Flipped } else { Orientation::Normal })))
            }
            _ => {
                s.ty = ty(hub);
                let t = mk_type(&s.ty);
                call(move || f.with_type(Lazy(t, a)))?
            }
        }.map(Obj::Field),
        (Obj::Port(p), Model::Port(s)) => Some(Obj::Port(change_info(hub, p, &mut s.info))),
        (Obj::Stmt(x), Model::Stmt(_, i)) => Some(Obj::Stmt(change_info(hub, x, i))),
        (Obj::Circ(c), Model::Circ { info, .. }) => Some(Obj::Circ(change_info(hub, c, info))),
        (Obj::Mod(m), Model::Mod { info, .. }) if what < 2 => Some(Obj::Mod(change_info(hub, m, info))),
        (Obj::Mod(mut m), Model::Mod { kind, .. }) => {
            let shared = draw(4) == 0;
            if shared {
                // The change is made to one owner's object, while another one has the same
                let mut x = lib(|| Arc::new(m));
                let y = x.clone();
                let before = lib(|| see(&Obj::Mod(y.as_ref().clone())))?;
                change_kind(hub, lib(|| Arc::make_mut(&mut x).kind_mut()), kind);
                let after = lib(|| see(&Obj::Mod(y.as_ref().clone())))?;
                ensure!(before == after, "shared", "a shared module changed from {before:?} to {after:?}");
                lib(|| drop(y));
                m = match lib(|| Arc::try_unwrap(x)) {
                    Ok(m) => m,
                    Err(_) => return viol("owners", "a module has an owner nobody knows"),
                };
            } else {
                change_kind(hub, lib(|| m.kind_mut()), kind);
            }
            Some(Obj::Mod(m))
        }
        // A new object of mostly the same parts
        (Obj::Simple(m), Model::Simple { name: s_name, ty, kind }) => {
            let (mut n, t) = lib(|| (m.name().clone(), m.r#type().unwrap_or_else(|m| m.r#type().unwrap())));
            match what {
                0 => { n = name(hub); *s_name = n.to_string() }
                1..=4 => *kind = pick(&[None, Some(None), Some(Some(gen::ruw()))]),
                _ => (),
            }
            let _ = ty;
            let k = kind.map_or(simple::Kind::Combinatory, |r| simple::Kind::Sequential(r.map(mk_ruw)));
            lib(|| drop(m));
            call(move || simple::Memory::new(Lazy(n, a), Lazy(t, b), k))?.map(Obj::Simple)
        }
        (Obj::Access(p), Model::Access { name: s_name, mem, dir, addr, clock }) => {
            let (mut n, mut m) = lib(|| (p.name().clone(), p.memory().clone()));
            match what {
                0 => { n = name(hub); *s_name = n.to_string() }
                1 => *addr = number(),
                2 => *clock = number(),
                3 => *dir = pick(&[None, Some(Dir::Read), Some(Dir::Write), Some(Dir::ReadWrite)]),
                4 | 5 => if let Some((Obj::Simple(x), model)) = some(hub, |i| matches!(i.obj, Obj::Simple(_))) {
                    m = Arc::new(x);
                    **mem = model;
                },
                _ => (),
            }
            lib(|| drop(p));
            let (d, x, c) = (dir.map(mk_dir), literal(*addr), literal(*clock));
            call(move || simple::Port::new(Lazy(n, a), m, d, x, c))?.map(Obj::Access)
        }
        (Obj::Inst(i), Model::Inst { of, .. }) => {
            // The module somebody else makes something else of
            let Model::Mod { kind, .. } = of.as_ref() else { unreachable!() };
            let mut m = i.module().clone();
            let mut changed = kind.clone();
            change_kind(hub, lib(|| Arc::make_mut(&mut m).kind_mut()), &mut changed);
            if what < 4 {
                lib(|| drop(m));
                Some(Obj::Inst(i))
            } else {
                // An instance of the module it became
                *kind_of(of) = changed;
                let n = i.name().clone();
                lib(|| drop(i));
                call(move || module::Instance::new(Lazy(n, a), m))?.map(Obj::Inst)
            }
        }
        (Obj::Ent(e), _) => Some(Obj::Ent(e)),
        _ => unreachable!(),
    };
    Ok(new.map(|o| {
        item.obj = o;
        item
    }))
}

fn kind_of(m: &mut Model) -> &mut ModKind {
    match m {
        Model::Mod { kind, .. } => kind,
        _ => unreachable!(),
    }
}

fn change_kind(hub: &Shared<Hub>, k: &mut module::Kind, model: &mut ModKind) {
    let what = draw(6);
    if what == 0 {
        let ext = draw(2) == 0;
        *k = if ext { module::Kind::empty_external() } else { module::Kind::empty_regular() };
        *model = if ext { ModKind::Ext(None, BTreeMap::new()) } else { ModKind::Reg(Vec::new()) };
    }
    match (k, model) {
        (module::Kind::Regular { stmts }, ModKind::Reg(v)) => match what {
            1 => { lib(|| stmts.pop()); v.pop(); }
            2 if !v.is_empty() => {
                let n = below(v.len());
                let new = info(hub);
                lib(|| stmts[n].set_info(new.clone()));
                v[n].1 = new;
            }
            _ => {
                let (n, i) = (number(), info(hub));
                let at = below(v.len() + 1);
                lib(|| stmts.insert(at, mk_stmt(n).with_info(i.clone())));
                v.insert(at, (n, i));
            }
        },
        (module::Kind::External { defname, params }, ModKind::Ext(d, p)) => match what {
            1 => {
                let n = pick(&[None, Some(name(hub))]);
                *d = n.as_ref().map(|n| n.to_string());
                *defname = n;
            }
            2 => {
                let n = name(hub);
                lib(|| params.remove(&n));
                p.remove(n.as_ref());
            }
            _ => {
                let (n, mut v) = (name(hub), gen::param(&hub.get().cfg));
                // The one pair of values which are equal, but not the same
                if v == SParam::Double((-0.0f64).to_bits()) { v = SParam::Double(0) }
                lib(|| params.insert(n.clone(), mk_param(&v)));
                p.insert(n.to_string(), v);
            }
        },
        _ => unreachable!(),
    }
}

// ---------------------------------------------------------------------- run

fn take(hub: &Shared<Hub>) -> Option<Item> {
    let n = hub.get().pool.len();
    if n == 0 { return None }
    let i = below(n);
    Some(hub.get().pool.swap_remove(i))
}

fn put(hub: &Shared<Hub>, i: Item) { hub.get().pool.push(i) }

fn task(hub: Shared<Hub>, steps: usize) -> Res {
    for _ in 0..steps {
        match draw(12) {
            0 | 1 => if let Some(i) = create(&hub)? {
                i.check("created")?;
                put(&hub, i);
            },
            2..=7 => if let Some(i) = take(&hub) {
                match change(&hub, i)? {
                    Some(i) => {
                        i.check("changed")?;
                        put(&hub, i);
                    }
                    None => count("fault_object_lost"),
                }
            },
            8 => if let Some(i) = take(&hub) {
                let obj = lib(|| i.obj.clone());
                yield_now("copy");
                let c = Item { obj, model: i.model.clone() };
                c.check("copied")?;
                count("copied");
                put(&hub, i);
                put(&hub, c);
            },
            9 => if let (Some(a), Some(b)) = (take(&hub), take(&hub)) {
                if let Some((eq, ne)) = lib(|| same(&a.obj, &b.obj)) {
                    let want = a.model == b.model;
                    if want { count("compared_equal") } else { count("compared_different") }
                    ensure!(eq == want && ne == !want, "comparison", "== yields {eq} and != {ne} for {:?} and {:?}", a.model, b.model);
                }
                put(&hub, a);
                put(&hub, b);
            },
            10 => if let Some(i) = take(&hub) { drop(i) },
            // Whatever happened to others
            _ => if let Some(i) = take(&hub) {
                i.check("left alone")?;
                put(&hub, i);
            },
        }
        yield_now("object");
    }
    Ok(())
}

fn size(n: usize) -> usize { if draw(3) == 0 { below(n + 1) } else { below(3) } }

fn run() -> Res {
    let mut cfg = gen::small_cfg();
    cfg.vast = 0;
    gen::SALT.store(0, Relaxed);
    let mut names: Vec<Arc<str>> = Vec::new();
    for _ in 0..range(2, 4) {
        let n = match names.last() {
            // Names may look alike
            Some(l) if draw(3) == 0 => match draw(4) {
                0 => format!("_{l}"),
                1 => format!("{l}_"),
                2 => l.to_uppercase(),
                _ => format!("{l}{l}"),
            },
            _ => gen::ident(&cfg),
        };
        if !names.iter().any(|m| m.as_ref() == n) { names.push(n.into()) }
    }
    let mods: Vec<Arc<Module>> = (0..3).map(|i| lib(|| Arc::new(Module::new(format!("m{i}").into(), Vec::new(), module::Kind::empty_regular())))).collect();
    let hub = Shared::new(Hub { pool: Vec::new(), mods, names, cfg });
    for _ in 0..range(1, 8) {
        if let Some(i) = create(&hub)? { put(&hub, i) }
    }
    set_preemption(pick(&[100, 20, 500, 0]));
    let slots: Vec<_> = (0..range(2, 3)).map(|_| {
        let hub = hub.clone();
        let steps = range(1, 24);
        spawn(move || task(hub, steps))
    }).collect();
    let mut res = Vec::new();
    for s in slots { res.push(join(s)) }
    set_preemption(0);
    for r in res { r?? }
    let h = hub.get();
    for i in &h.pool {
        i.check("in the end")?;
        state(format!("{:?}", i.model).as_bytes());
    }
    h.pool.clear();
    for n in &h.names {
        ensure!(Arc::strong_count(n) == 1, "left over", "a name has {} owners too many", Arc::strong_count(n) - 1);
    }
    for m in &h.mods {
        ensure!(Arc::strong_count(m) == 1, "left over", "a module has {} owners too many", Arc::strong_count(m) - 1);
    }
    let mods = std::mem::take(&mut h.mods);
    lib(|| drop(mods));
    Ok(())
}
