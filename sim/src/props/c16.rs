//! C16: Walks yield every item as often as it occurs, no matter how they are interleaved

use std::collections::HashMap;
use std::sync::atomic::Ordering::Relaxed;

use firrtl_ast::expr::primitive::Operation as Op;
use firrtl_ast::expr::Expression;
use firrtl_ast::memory::Memory;
use firrtl_ast::module::{self, Module};
use firrtl_ast::named::Named;
use firrtl_ast::stmt::print::PrintElement;
use firrtl_ast::stmt::{self, Entity, Statement};
use firrtl_ast::types::{self, Type};

use super::*;
use crate::gen;
use crate::io::*;
use crate::render::{render, Style};

pub static PROP: Prop = Prop {
    id: "C16",
    run,
    quick: 250_000,
    level: "exploration",
    rule: "Two to four tasks walk through the declarations, instantiations, references, operands, modules, ports and fields of circuits which were built, read or copied. Many walks are open at once and lie around for any task to take one step or several, hand it on, give it up, go on from another one's item, or panic in its midst, while others write, look up, copy, change their copies and drop circuits; the scheduler switches at edges and allocations of the library. What a walk yields is identified by address and compared to what is found by taking apart the public data structures.",
    assumptions: &["walks are moved between threads, of which exactly one runs at a time"],
    cases: &[],
};

/// Something that can be walked through
#[derive(Clone, Copy)]
enum Target<'a> {
    Declarations(&'a Statement),
    Instantiations(&'a Statement),
    References(&'a Ex),
    Operands(&'a Op<Arc<Entity>>),
    Modules(&'a Module),
    Ports(&'a Module),
    Readers(&'a Memory),
    Fields(&'a Type),
}

const KINDS: usize = 8;

type Walk<'a> = Box<dyn Iterator<Item = usize> + 'a>;

fn at<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}

fn operands(o: &Op<Arc<Entity>>) -> Vec<&Arc<Ex>> {
    match o {
        Op::Add(a, b) | Op::Sub(a, b) | Op::Mul(a, b) | Op::Div(a, b) | Op::Rem(a, b) | Op::Lt(a, b) | Op::LEq(a, b) | Op::Gt(a, b)
        | Op::GEq(a, b) | Op::Eq(a, b) | Op::NEq(a, b) | Op::DShl(a, b) | Op::DShr(a, b) | Op::And(a, b) | Op::Or(a, b) | Op::Xor(a, b)
        | Op::Cat(a, b) => vec![a, b],
        Op::Pad(a, _) | Op::Cast(a, _) | Op::Shl(a, _) | Op::Shr(a, _) | Op::Cvt(a) | Op::Neg(a) | Op::Not(a) | Op::AndReduce(a)
        | Op::OrReduce(a) | Op::XorReduce(a) | Op::Bits(a, _, _) | Op::IncPrecision(a, _) | Op::DecPrecision(a, _) | Op::SetPrecision(a, _) => vec![a],
    }
}

/// An expression and all within
fn each_expr<'a>(e: &'a Ex, f: &mut dyn FnMut(&'a Ex)) {
    f(e);
    match e {
        Expression::UIntLiteral { .. } | Expression::SIntLiteral { .. } | Expression::Reference(_) => (),
        Expression::SubField { base, .. } | Expression::SubIndex { base, .. } => each_expr(base, f),
        Expression::SubAccess { base, index } => { each_expr(base, f); each_expr(index, f) }
        Expression::Mux { sel, a, b } => { each_expr(sel, f); each_expr(a, f); each_expr(b, f) }
        Expression::ValidIf { sel, value } => { each_expr(sel, f); each_expr(value, f) }
        Expression::PrimitiveOp(o) => for x in operands(o) { each_expr(x, f) },
    }
}

/// A statement and all within
fn each_stmt<'a>(s: &'a Statement, f: &mut dyn FnMut(&'a Statement)) {
    f(s);
    if let stmt::Kind::Conditional { when, r#else, .. } = s.kind() {
        for s in when.iter().chain(r#else.iter()) { each_stmt(s, f) }
    }
}

fn each_type<'a>(t: &'a Type, f: &mut dyn FnMut(&'a Type)) {
    f(t);
    match t {
        Type::GroundType(_) => (),
        Type::Vector(t, _) => each_type(t, f),
        Type::Bundle(v) => for x in v.iter() { each_type(x.r#type(), f) },
    }
}

/// The (outermost) expressions of a statement, except for those of statements within
fn exprs(s: &Statement) -> Vec<&Ex> {
    use stmt::Kind as K;
    match s.kind() {
        K::Connection { from, to } | K::PartialConnection { from, to } => vec![to, from],
        K::Empty | K::SimpleMemDecl(_) => Vec::new(),
        K::Declaration(e) => match e.as_ref() {
            Entity::Node { value, .. } => vec![value],
            Entity::Register(r) => std::iter::once(r.clock()).chain(r.reset_signal()).chain(r.reset_value()).collect(),
            Entity::SimpleMemPort(p) => vec![p.address(), p.clock()],
            Entity::Port(_) | Entity::Wire { .. } | Entity::Memory(_) | Entity::Instance(_) => Vec::new(),
        },
        K::Invalidate(e) => vec![e],
        K::Attach(v) => v.iter().collect(),
        K::Conditional { cond, .. } => vec![cond],
        K::Stop { clock, cond, .. } => vec![clock, cond],
        K::Print { clock, cond, msg, .. } => [clock, cond].into_iter().chain(msg.iter().filter_map(|m| match m {
            PrintElement::Value(e, _) => Some(e),
            PrintElement::Literal(_) => None,
        })).collect(),
    }
}

fn statements(m: &Module) -> &[Statement] {
    match m.kind() {
        module::Kind::Regular { stmts } => stmts,
        module::Kind::External { .. } => &[],
    }
}

impl<'a> Target<'a> {
    fn name(&self) -> &'static str {
        match self {
            Target::Declarations(_) => "declarations",
            Target::Instantiations(_) => "instantiations",
            Target::References(_) => "references",
            Target::Operands(_) => "operands",
            Target::Modules(_) => "referenced modules",
            Target::Ports(_) => "ports",
            Target::Readers(_) => "memory ports",
            Target::Fields(_) => "fields",
        }
    }

    /// Whether items come in a particular order
    fn ordered(&self) -> bool {
        matches!(self, Target::Ports(_) | Target::Readers(_) | Target::Fields(_))
    }

    /// What the walk is to yield
    fn truth(&self, spec: Option<&[usize]>) -> Vec<usize> {
        let mut v = Vec::new();
        match self {
            Target::Declarations(s) => each_stmt(s, &mut |s| if let stmt::Kind::Declaration(e) = s.kind() { v.push(at(e.as_ref())) }),
            Target::Instantiations(s) => each_stmt(s, &mut |s| if let stmt::Kind::Declaration(e) = s.kind() {
                if let Entity::Instance(i) = e.as_ref() { v.push(at(i)) }
            }),
            Target::References(e) => each_expr(e, &mut |e| if let Expression::Reference(r) = e { v.push(at(r.as_ref())) }),
            Target::Operands(o) => v.extend(operands(o).into_iter().map(|e| at(e.as_ref()))),
            Target::Modules(m) => for s in statements(m) {
                each_stmt(s, &mut |s| if let stmt::Kind::Declaration(e) = s.kind() {
                    if let Entity::Instance(i) = e.as_ref() { v.push(at(i.module().as_ref())) }
                })
            },
            Target::Fields(t) => if let Type::Bundle(f) = t { v.extend(f.iter().map(at)) },
            // There is no other way to get at these
            Target::Ports(_) | Target::Readers(_) => v.extend(spec.expect("known ports")),
        }
        v
    }

    fn open(&self) -> Walk<'a> {
        match *self {
            Target::Declarations(s) => Box::new(s.declarations().map(|e| at(e.as_ref()))),
            Target::Instantiations(s) => Box::new(s.instantiations().map(at)),
            Target::References(e) => Box::new(e.references().map(|r| at(r.as_ref()))),
            Target::Operands(o) => Box::new(o.sub_exprs().into_iter().map(|e| at(e.as_ref()))),
            Target::Modules(m) => Box::new(m.referenced_modules().map(|m| at(m.as_ref()))),
            Target::Ports(m) => Box::new(m.ports().map(|p| at(p.as_ref()))),
            Target::Readers(m) => Box::new(m.ports().map(at)),
            Target::Fields(t) => match t.fields() {
                Some(f) => Box::new(f.map(at)),
                None => Box::new(std::iter::empty()),
            },
        }
    }
}

/// Everything in a list of modules that can be walked through, by kind
fn targets<'a>(mods: &'a [Arc<Module>]) -> Vec<Vec<Target<'a>>> {
    let mut t: Vec<Vec<Target<'a>>> = (0..KINDS).map(|_| Vec::new()).collect();
    fn of_type<'a>(x: &'a Type, t: &mut [Vec<Target<'a>>]) {
        each_type(x, &mut |x| if let Type::Bundle(_) = x { t[7].push(Target::Fields(x)) });
    }
    for m in mods {
        t[4].push(Target::Modules(m));
        t[5].push(Target::Ports(m));
        for p in m.ports() { of_type(p.r#type(), &mut t) }
        for s in statements(m) {
            each_stmt(s, &mut |s| {
                t[0].push(Target::Declarations(s));
                t[1].push(Target::Instantiations(s));
                for e in exprs(s) {
                    each_expr(e, &mut |e| {
                        t[2].push(Target::References(e));
                        if let Expression::PrimitiveOp(o) = e { t[3].push(Target::Operands(o)) }
                    });
                }
                match s.kind() {
                    stmt::Kind::Declaration(e) => match e.as_ref() {
                        Entity::Wire { r#type, .. } => of_type(r#type, &mut t),
                        Entity::Memory(m) => {
                            t[6].push(Target::Readers(m));
                            of_type(m.data_type(), &mut t);
                        }
                        _ => (),
                    },
                    _ => (),
                }
            })
        }
    }
    t
}

/// A circuit and what can be walked through within
struct World {
    mods: Vec<Arc<Module>>,
    spec: SCircuit,
    targets: Vec<Vec<Target<'static>>>,
    /// Addresses of modules' and memories' ports
    ports: HashMap<usize, Vec<usize>>,
    /// Names of modules' ports and fields
    names: Vec<(usize, Vec<String>)>,
}

impl World {
    fn new(c: &Circuit, spec: SCircuit) -> Res<World> {
        let mods = lib(|| all_modules(c.top_module()));
        ensure!(mods.len() == spec.mods.len(), "modules", "{} modules instead of {}", mods.len(), spec.mods.len());
        // The world owns its modules, which do not change as long as they are shared
        let of: &'static [Arc<Module>] = unsafe { std::slice::from_raw_parts(mods.as_ptr(), mods.len()) };
        let targets = targets(of);
        let mut w = World { targets, spec, mods: Vec::new(), ports: HashMap::new(), names: Vec::new() };
        // What a single, undisturbed walk yields, checked by name
        for (m, s) in of.iter().zip(&w.spec.mods) {
            let p: Vec<_> = lib(|| m.ports().collect());
            let want: Vec<&str> = s.ports.iter().map(|p| p.name.as_str()).collect();
            let got: Vec<&str> = p.iter().map(|p| p.name().as_ref()).collect();
            ensure!(got == want, "ports", "module {} has the ports {got:?} instead of {want:?}", s.name);
            w.ports.insert(at(m.as_ref()), p.iter().map(|p| at(p.as_ref())).collect());
            w.names.push((at(m.as_ref()), want.iter().map(|s| s.to_string()).collect()));
        }
        let mut want: Vec<(&str, Vec<&str>)> = Vec::new();
        fn memories<'a>(v: &'a [SStmt], o: &mut Vec<(&'a str, Vec<&'a str>)>) {
            for s in v {
                match &s.kind {
                    SSk::Mem(m) => o.push((&m.name, m.ports.iter().map(|(_, n)| n.as_str()).collect())),
                    SSk::When { then, els, .. } => { memories(then, o); memories(els, o) }
                    _ => (),
                }
            }
        }
        for m in &w.spec.mods { memories(m.stmts(), &mut want) }
        ensure!(want.len() == w.targets[6].len(), "memories", "{} memories instead of {}", w.targets[6].len(), want.len());
        for (t, (name, want)) in w.targets[6].iter().zip(&want) {
            let Target::Readers(m) = t else { unreachable!() };
            let p: Vec<_> = lib(|| m.ports().collect());
            let got: Vec<&str> = p.iter().map(|p| p.name.as_ref()).collect();
            ensure!(got == *want, "memory ports", "memory {name} has the ports {got:?} instead of {want:?}");
            w.ports.insert(at(*m), p.iter().map(|p| at(*p)).collect());
        }
        w.mods = mods;
        Ok(w)
    }

    fn truth(&self, t: &Target) -> Vec<usize> {
        let known = match t {
            Target::Ports(m) => self.ports.get(&at(*m)),
            Target::Readers(m) => self.ports.get(&at(*m)),
            _ => None,
        };
        t.truth(known.map(|v| v.as_slice()))
    }
}

/// A walk on its way
struct Walker {
    walk: Option<Walk<'static>>,
    target: Target<'static>,
    want: Vec<usize>,
    /// How often items are still to come
    left: HashMap<usize, usize>,
    seen: usize,
    by: usize,
    // What the walk is through outlives it
    of: Arc<World>,
}

impl Drop for Walker {
    fn drop(&mut self) {
        let w = self.walk.take();
        lib(|| drop(w));
    }
}

impl Walker {
    fn start(of: &Arc<World>, target: Target<'static>, by: usize) -> Walker {
        let want = of.truth(&target);
        let mut left = HashMap::new();
        for w in &want { *left.entry(*w).or_insert(0) += 1 }
        count(match target {
            Target::Declarations(_) => "walk_declarations",
            Target::Instantiations(_) => "walk_instantiations",
            Target::References(_) => "walk_references",
            Target::Operands(_) => "walk_operands",
            Target::Modules(_) => "walk_modules",
            Target::Ports(_) => "walk_ports",
            Target::Readers(_) => "walk_memory_ports",
            Target::Fields(_) => "walk_fields",
        });
        ev("start", by as u64, want.len() as u64);
        let walk = Some(lib(|| target.open()));
        Walker { walk, target, want, left, seen: 0, by, of: of.clone() }
    }

    fn remaining(&self) -> Res {
        let (lo, hi) = lib(|| self.walk.as_ref().unwrap().size_hint());
        let left = self.want.len() - self.seen;
        ensure!(lo <= left && hi.is_none_or(|h| h >= left), "size", "{}: {left} items to come, but announced are {lo} to {hi:?}", self.what());
        Ok(())
    }

    fn what(&self) -> String {
        format!("walk through {} items ({}), {} seen", self.want.len(), self.target.name(), self.seen)
    }

    fn check(&mut self, item: usize) -> Res {
        if self.target.ordered() {
            ensure!(self.want.get(self.seen) == Some(&item), "item", "{}: some other item came", self.what());
        }
        match self.left.get_mut(&item) {
            Some(n) if *n > 0 => *n -= 1,
            Some(_) => return viol("repeated", format!("{}: an item came too often", self.what())),
            None => return viol("foreign", format!("{}: an item came which is not part of it", self.what())),
        }
        self.seen += 1;
        Ok(())
    }

    /// Take a step, and tell whether that was the last one
    fn step(&mut self) -> Res<bool> {
        let it = self.walk.as_mut().unwrap();
        match lib(|| it.next()) {
            Some(i) => self.check(i).map(|_| false),
            None => {
                ensure!(self.seen == self.want.len(), "missing", "{} when it ended", self.what());
                Ok(true)
            }
        }
    }

    /// Take all steps left at once, possibly with something going wrong
    fn finish(mut self, trouble: Option<usize>) -> Res {
        let walk = self.walk.take().unwrap();
        let mut got = Vec::new();
        let ended = guard(|| lib(|| walk.for_each(|i| callback(|| {
            if trouble == Some(got.len()) { inject_panic(1) }
            got.push(i);
        }))))?;
        for i in &got { self.check(*i)? }
        match ended {
            Ended::Value(()) => ensure!(self.seen == self.want.len(), "missing", "{} when it ended", self.what()),
            _ => count("fault_walk_unwound"),
        }
        Ok(())
    }
}

struct Hub {
    worlds: Vec<Arc<World>>,
    circuits: Vec<Option<Circuit>>,
    open: Vec<Walker>,
}

/// Something to walk through
fn choose(w: &World) -> Option<Target<'static>> {
    let k = draw(KINDS as u64) as usize;
    let t = (0..KINDS).map(|i| &w.targets[(k + i) % KINDS]).find(|t| !t.is_empty())?;
    // What is long is rather seldom
    let i = below(t.len());
    let j = below(t.len());
    let (a, b) = (t[i], t[j]);
    let n = |t: &Target| w.truth(t).len();
    Some(if draw(2) == 0 { a } else if n(&a) >= n(&b) { a } else { b })
}

fn start(hub: &Shared<Hub>, by: usize) {
    let w = hub.get().worlds[below(hub.get().worlds.len())].clone();
    if let Some(t) = choose(&w) {
        let x = Walker::start(&w, t, by);
        hub.get().open.push(x);
    }
}

fn take(hub: &Shared<Hub>) -> Option<Walker> {
    let n = hub.get().open.len();
    if n == 0 { return None }
    let i = below(n);
    Some(hub.get().open.swap_remove(i))
}

fn task(hub: Shared<Hub>, me: usize, steps: usize) -> Res {
    for _ in 0..steps {
        match draw(16) {
            0..=2 => start(&hub, me),
            3..=8 => if let Some(mut w) = take(&hub) {
                if w.by != me { count("handed_over"); w.by = me }
                w.remaining()?;
                let mut ended = false;
                for _ in 0..pick(&[1, 2, 1, 5, 40]) {
                    ended = w.step()?;
                    if ended { break }
                }
                if !ended {
                    w.remaining()?;
                    hub.get().open.push(w);
                }
            },
            9 => if let Some(w) = take(&hub) { w.finish(None)? },
            10 => if let Some(w) = take(&hub) {
                let at = below(w.want.len() - w.seen + 1);
                w.finish(Some(at))?;
            },
            11 => if let Some(w) = take(&hub) {
                count("fault_walk_given_up");
                drop(w);
            },
            12 => {
                // The same walk once more, in step with the former
                if let Some(mut w) = take(&hub) {
                    let mut x = Walker::start(&w.of.clone(), w.target, me);
                    for _ in 0..range(1, 4) {
                        if x.step()? { break }
                        if w.seen < w.want.len() { w.step()?; }
                    }
                    hub.get().open.push(w);
                    if x.seen < x.want.len() { hub.get().open.push(x) }
                }
            }
            13 => match draw(8) {
                0 | 1 => succession()?,
                2 => given_up(&hub)?,
                _ => lookup(&hub)?,
            },
            14 => change(&hub)?,
            _ => {
                let n = hub.get().circuits.len();
                let i = below(n);
                match draw(3) {
                    0 => {
                        // Walks go on without the circuit they started in
                        let c = hub.get().circuits[i].take();
                        count("circuit_dropped");
                        lib(|| drop(c));
                    }
                    1 => if let Some(c) = hub.get().circuits[i].clone() { drop(format(&c)); lib(|| drop(c)) },
                    _ => {
                        let w = hub.get().worlds[below(hub.get().worlds.len())].clone();
                        let text = render(&w.spec, &Style::plain()).text;
                        let c = parse(&text);
                        lib(|| drop(c));
                    }
                }
            }
        }
        yield_now("walk");
    }
    Ok(())
}

/// Lookups by name agree with what walks yield
fn lookup(hub: &Shared<Hub>) -> Res {
    let w = hub.get().worlds[below(hub.get().worlds.len())].clone();
    let k = below(w.mods.len());
    let (m, (addr, names)) = (&w.mods[k], &w.names[k]);
    if let Some(i) = (!names.is_empty()).then(|| below(names.len())) {
        let first = names.iter().position(|n| *n == names[i]).unwrap();
        let p = lib(|| m.port_by_name(&names[i]).map(|p| at(p.as_ref())));
        ensure!(p == Some(w.ports[addr][first]), "port", "looking up port {:?} leads to something else", names[i]);
    }
    let p = lib(|| m.port_by_name(&"no such port").is_none());
    ensure!(p, "port", "found a port which does not exist");
    if let Some(Target::Fields(t)) = (!w.targets[7].is_empty()).then(|| w.targets[7][below(w.targets[7].len())]) {
        if let Type::Bundle(f) = t {
            if !f.is_empty() {
                let name = f[below(f.len())].name().to_string();
                let first = f.iter().find(|f| f.name().as_ref() == name).unwrap();
                let x = lib(|| t.field(&name).map(at));
                ensure!(x == Some(at(first)), "field", "looking up field {name:?} leads to something else");
            }
        }
        ensure!(lib(|| t.field("no such field").is_none()), "field", "found a field which does not exist");
    }
    Ok(())
}

/// A number of modules and bundles which exist one after the other, likely in the same place
fn succession() -> Res {
    let names: Vec<String> = (0..range(1, 6)).map(|i| format!("n{i}")).collect();
    let len = names.len();
    for _ in 0..range(2, 6) {
        let at = below(len);
        let n = |i: usize| Arc::<str>::from(names[(i + at) % len].as_str());
        let k = below(len);
        let ty = |i: usize| Type::from(types::GroundType::UInt(Some(i as u16 + 1)));
        let t = lib(|| Type::Bundle((0..len).map(|i| types::BundleField::new(n(i), ty(i))).collect()));
        let f = lib(|| t.field(&names[k]).map(|f| f.name().as_ref() == names[k]));
        ensure!(f == Some(true), "field", "looking up field {:?} in one of several successive bundles: {f:?}", names[k]);
        lib(|| drop(t));
        let m = lib(|| Module::new(n(0), (0..len).map(|i| Arc::new(module::Port::new(n(i), ty(i), module::Direction::Input))), module::Kind::Regular { stmts: Vec::new() }));
        let p = lib(|| m.port_by_name(&names[k]).map(|p| p.name().as_ref() == names[k]));
        ensure!(p == Some(true), "port", "looking up port {:?} in one of several successive modules: {p:?}", names[k]);
        lib(|| drop(m));
        yield_now("succession");
    }
    Ok(())
}

/// A walk which is given up again and again before somebody goes all the way
fn given_up(hub: &Shared<Hub>) -> Res {
    let w = hub.get().worlds[below(hub.get().worlds.len())].clone();
    let Some(t) = choose(&w) else { return Ok(()) };
    let n = w.truth(&t).len();
    let (times, len) = (pick(&[3, 30, 300, 1500]), below(n + 1));
    count("fault_walk_given_up_repeatedly");
    for _ in 0..times {
        let got = lib(|| t.open().take(len).count());
        ensure!(got == len, "missing", "only {got} of the first {len} items ({}) after giving up such walks some times", t.name());
    }
    yield_now("given up");
    let mut x = Walker::start(&w, t, 0);
    while !x.step()? {}
    Ok(())
}

/// Walks through a changed copy
fn change(hub: &Shared<Hub>) -> Res {
    let w = hub.get().worlds[below(hub.get().worlds.len())].clone();
    let m = w.mods[below(w.mods.len())].clone();
    let mut copy = lib(|| m.as_ref().clone());
    let what = draw(6);
    let exprs: Vec<&Ex> = statements(&m).iter().flat_map(exprs).collect();
    let some = (!exprs.is_empty()).then(|| exprs[below(exprs.len())].clone());
    // Before the change, just to see whether it remains known
    if draw(2) == 0 { lib(|| (copy.referenced_modules().count(), copy.statements().iter().flat_map(|s| s.declarations()).count())); }
    lib(|| if let module::Kind::Regular { stmts } = copy.kind_mut() {
        match what {
            0 => { stmts.pop(); }
            1 => {
                let more = stmts.clone();
                stmts.extend(more);
            }
            2 => {
                // Everything happens otherwise
                let all: Vec<Statement> = std::mem::take(stmts);
                let cond = Expression::UIntLiteral { value: 1u32.into(), width: 1 };
                stmts.push(stmt::Kind::Conditional { cond, when: Vec::new().into(), r#else: all.into() }.into());
            }
            3 => stmts.clear(),
            4 => if let Some(e) = some {
                // One object serves as several operands
                let x = Arc::new(e);
                let y = Arc::new(Expression::Mux { sel: x.clone(), a: x.clone(), b: x.clone() });
                let z = Arc::new(Expression::PrimitiveOp(Op::DShl(y.clone(), y.clone())));
                let z = Arc::new(Expression::SubAccess { base: z.clone(), index: z });
                stmts.push(stmt::Kind::Invalidate(Expression::ValidIf { sel: z.clone(), value: z }).into());
            },
            _ => {
                // Everything becomes part of a conditional
                let all: Vec<Statement> = std::mem::take(stmts);
                let cond = Expression::UIntLiteral { value: 1u32.into(), width: 1 };
                let branch = all.clone().into();
                stmts.push(stmt::Kind::Conditional { cond, when: all.into(), r#else: branch }.into());
            }
        }
    });
    count("changed_copy");
    let copy = [lib(|| Arc::new(copy))];
    let names: Vec<usize> = lib(|| copy[0].ports().map(|p| at(p.as_ref())).collect());
    ensure!(names == w.ports[&at(m.as_ref())], "ports", "a copy has other ports");
    {
        let t = targets(&copy);
        // The module, and mostly the statements at its end
        let some = t[..4].iter().flat_map(|t| t.iter().skip(t.len().saturating_sub(range(1, 12))));
        for t in t[4].first().into_iter().chain(some) {
            let mut want = t.truth(None);
            let mut got: Vec<usize> = lib(|| t.open().collect());
            yield_now("copy");
            want.sort_unstable();
            got.sort_unstable();
            ensure!(got == want, "changed copy", "walking through the {} of a changed copy yields {} items instead of {}, or others", t.name(), got.len(), want.len());
        }
    }
    lib(|| drop((copy, m)));
    Ok(())
}

fn run() -> Res {
    let mut cfg = if draw(3) > 0 { gen::small_cfg() } else { gen::cfg() };
    if draw(3) == 2 { cfg.kinds.extend([9, 9, 12, 12]); cfg.when_depth = cfg.when_depth.max(2); cfg.mods = cfg.mods.max(2) }
    gen::SALT.store(0, Relaxed);
    let mut hub = Hub { worlds: Vec::new(), circuits: Vec::new(), open: Vec::new() };
    for _ in 0..pick(&[1, 1, 2]) {
        let spec = gen::circuit(&cfg);
        state(dump_circuit(&spec).as_bytes());
        note(|| dump_circuit(&spec));
        let norm = normal(&spec);
        for _ in 0..pick(&[1, 2]) {
            let c = match draw(3) {
                0 => build(&spec),
                1 => {
                    let text = render(&spec, &Style::plain()).text;
                    read_ok("rejected", parse(&text), &text)?
                }
                _ => {
                    let text = render(&spec, &Style::draw()).text;
                    let s = Split::draw(text.len());
                    read_ok("rejected", from_read(SimRead::new(arc(&text), s)), &text)?
                }
            };
            hub.worlds.push(Arc::new(World::new(&c, norm.clone())?));
            hub.circuits.push(Some(c));
        }
    }
    let counts: Vec<Vec<usize>> = hub.worlds.iter().map(|w| w.mods.iter().map(Arc::strong_count).collect()).collect();
    let hub = Shared::new(hub);
    let n = range(2, 4);
    for _ in 0..range(1, 6) { start(&hub, 0) }
    set_preemption(pick(&[200, 30, 1000, 0]));
    let slots: Vec<_> = (1..=n).map(|i| {
        let hub = hub.clone();
        let steps = range(1, 14);
        spawn(move || task(hub, i, steps))
    }).collect();
    let mut res = Vec::new();
    for s in slots { res.push(join(s)) }
    set_preemption(0);
    for r in res { r?? }
    // What is still open comes to its end in any order
    while let Some(mut w) = take(&hub) {
        if draw(4) == 0 { w.finish(None)? } else { while !w.step()? {} }
    }
    let h = hub.get();
    for (i, w) in h.worlds.iter().enumerate() {
        let dropped = h.circuits[i].is_none();
        for (k, (m, n)) in w.mods.iter().zip(&counts[i]).enumerate() {
            let top = m.name().as_ref() == w.spec.name && Arc::strong_count(m) + 1 == *n;
            ensure!(Arc::strong_count(m) == *n || dropped && top, "owners", "module {k} has {} owners instead of {n}", Arc::strong_count(m));
        }
        let got = SCircuit { name: w.spec.name.clone(), info: w.spec.info.clone(), mods: lib(|| x_list(&w.mods)) };
        ensure!(got == w.spec, "changed", "{}", circuit_diff(&w.spec, &got));
    }
    h.open.clear();
    let worlds = std::mem::take(&mut h.worlds);
    let circuits = std::mem::take(&mut h.circuits);
    lib(|| drop((worlds, circuits)));
    Ok(())
}
