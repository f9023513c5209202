//! Translation between the reference model and the library's AST
//!
//! Only public constructors and accessors are used.

use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

use firrtl_ast::expr::primitive::Operation as Op;
use firrtl_ast::expr::Expression;
use firrtl_ast::info::WithInfo;
use firrtl_ast::memory::{self, mem, simple, PortDir, ReadUnderWrite};
use firrtl_ast::module::{self, Module};
use firrtl_ast::named::Named;
use firrtl_ast::stmt::print::{Format, PrintElement};
use firrtl_ast::stmt::{self, Entity, Statement};
use firrtl_ast::types::{BundleField, GroundType, Orientation, ResetKind, Type, Typed};
use firrtl_ast::circuit::Circuit;

use crate::spec::*;

pub type Ent = Arc<Entity>;
pub type Ex = Expression<Ent>;

// ---------------------------------------------------------------- to library

pub fn mk_type(t: &SType) -> Type {
    match t {
        SType::UInt(w) => GroundType::UInt(*w).into(),
        SType::SInt(w) => GroundType::SInt(*w).into(),
        SType::Fixed(w, p) => GroundType::Fixed(*w, *p).into(),
        SType::Clock => GroundType::Clock.into(),
        SType::Reset => GroundType::Reset(ResetKind::Regular).into(),
        SType::AsyncReset => GroundType::Reset(ResetKind::Async).into(),
        SType::Analog(w) => GroundType::Analog(*w).into(),
        SType::Vec(t, n) => Type::Vector(Arc::new(mk_type(t)), *n),
        SType::Bundle(f) => f.iter().map(|f| BundleField::new(f.name.as_str(), mk_type(&f.ty))
            .with_orientation(if f.flip { Orientation::Flipped } else { Orientation::Normal })
        ).collect(),
    }
}

struct Mk<'a> {
    ents: Vec<Ent>,
    mems: Vec<Arc<simple::Memory>>,
    mods: &'a [Arc<Module>],
}

pub fn mk_ruw(r: Ruw) -> ReadUnderWrite {
    match r { Ruw::Old => ReadUnderWrite::Old, Ruw::New => ReadUnderWrite::New, Ruw::Undefined => ReadUnderWrite::Undefined }
}

pub fn mk_dir(d: Dir) -> PortDir {
    match d { Dir::Read => PortDir::Read, Dir::Write => PortDir::Write, Dir::ReadWrite => PortDir::ReadWrite }
}

impl Mk<'_> {
    fn expr(&self, e: &SExpr) -> Ex {
        let a = |e: &SExpr| Arc::new(self.expr(e));
        match e {
            SExpr::U(v, w) => Expression::UIntLiteral { value: v.clone(), width: *w },
            SExpr::S(v, w) => Expression::SIntLiteral { value: v.clone(), width: *w },
            SExpr::Ref(_, t) => Expression::Reference(self.ents[t.id].clone()),
            SExpr::Field(b, n) => Expression::SubField { base: a(b), index: n.as_str().into() },
            SExpr::Index(b, n) => Expression::SubIndex { base: a(b), index: *n },
            SExpr::Access(b, i) => Expression::SubAccess { base: a(b), index: a(i) },
            SExpr::Mux(x) => Expression::Mux { sel: a(&x[0]), a: a(&x[1]), b: a(&x[2]) },
            SExpr::ValidIf(x) => Expression::ValidIf { sel: a(&x[0]), value: a(&x[1]) },
            SExpr::Op(n, x, i) => {
                let x: Vec<_> = x.iter().map(a).collect();
                let e = |k: usize| x[k].clone();
                let u = |k: usize| i[k] as u16;
                Expression::PrimitiveOp(match *n {
                    "add" => Op::Add(e(0), e(1)), "sub" => Op::Sub(e(0), e(1)),
                    "mul" => Op::Mul(e(0), e(1)), "div" => Op::Div(e(0), e(1)),
                    "rem" => Op::Rem(e(0), e(1)), "lt" => Op::Lt(e(0), e(1)),
                    "leq" => Op::LEq(e(0), e(1)), "gt" => Op::Gt(e(0), e(1)),
                    "geq" => Op::GEq(e(0), e(1)), "eq" => Op::Eq(e(0), e(1)),
                    "neq" => Op::NEq(e(0), e(1)), "pad" => Op::Pad(e(0), u(0)),
                    "asUInt" => Op::Cast(e(0), GroundType::UInt(None)),
                    "asSInt" => Op::Cast(e(0), GroundType::SInt(None)),
                    "asFixed" => Op::Cast(e(0), GroundType::Fixed(None, Some(i[0] as i16))),
                    "asClock" => Op::Cast(e(0), GroundType::Clock),
                    "asAsyncReset" => Op::Cast(e(0), GroundType::Reset(ResetKind::Async)),
                    "shl" => Op::Shl(e(0), u(0)), "shr" => Op::Shr(e(0), u(0)),
                    "dshl" => Op::DShl(e(0), e(1)), "dshr" => Op::DShr(e(0), e(1)),
                    "cvt" => Op::Cvt(e(0)), "neg" => Op::Neg(e(0)), "not" => Op::Not(e(0)),
                    "and" => Op::And(e(0), e(1)), "or" => Op::Or(e(0), e(1)), "xor" => Op::Xor(e(0), e(1)),
                    "andr" => Op::AndReduce(e(0)), "orr" => Op::OrReduce(e(0)), "xorr" => Op::XorReduce(e(0)),
                    "cat" => Op::Cat(e(0), e(1)),
                    "bits" => Op::Bits(e(0), Some(u(0)), Some(u(1))),
                    "head" => Op::Bits(e(0), None, Some(u(0))),
                    "tail" => Op::Bits(e(0), Some(u(0)), None),
                    "incp" => Op::IncPrecision(e(0), u(0)), "decp" => Op::DecPrecision(e(0), u(0)),
                    "setp" => Op::SetPrecision(e(0), i[0] as i16),
                    _ => unreachable!(),
                })
            }
        }
    }

    fn declare(&mut self, e: Entity) -> stmt::Kind {
        let e = Arc::new(e);
        self.ents.push(e.clone());
        stmt::Kind::Declaration(e)
    }

    fn stmt(&mut self, s: &SStmt) -> Statement {
        use stmt::Kind as K;
        let opt = |n: &Option<String>| n.as_ref().map(|n| n.as_str().into());
        let kind = match &s.kind {
            SSk::Connect(t, f) => K::Connection { from: self.expr(f), to: self.expr(t) },
            SSk::Partial(t, f) => K::PartialConnection { from: self.expr(f), to: self.expr(t) },
            SSk::Skip => K::Empty,
            SSk::Wire(n, t) => self.declare(Entity::Wire { name: n.as_str().into(), r#type: mk_type(t) }),
            SSk::Reg { name, ty, clk, reset } => {
                let r = memory::Register::new(name.as_str(), mk_type(ty), self.expr(clk));
                let r = match reset {
                    Some((s, v)) => r.with_reset(self.expr(s), self.expr(v)),
                    None => r,
                };
                self.declare(r.into())
            }
            SSk::Node(n, e) => { let value = self.expr(e); self.declare(Entity::Node { name: n.as_str().into(), value }) }
            SSk::Mem(m) => {
                let mut r = memory::Memory::new(m.name.as_str(), mk_type(&m.ty), m.depth)
                    .with_read_latency(m.rl)
                    .with_write_latency(m.wl)
                    .with_read_under_write(mk_ruw(m.ruw));
                r.add_ports(m.ports.iter().map(|(d, n)| mem::Port { name: n.as_str().into(), dir: mk_dir(*d) }));
                self.declare(r.into())
            }
            SSk::SimpleMem(m) => {
                let kind = match m.seq {
                    None => simple::Kind::Combinatory,
                    Some(r) => simple::Kind::Sequential(r.map(mk_ruw)),
                };
                let m = Arc::new(simple::Memory::new(m.name.as_str(), mk_type(&m.ty), kind));
                self.mems.push(m.clone());
                K::SimpleMemDecl(m)
            }
            SSk::MPort { name, mem, dir, addr, clk } => {
                let p = simple::Port::new(
                    name.as_str(), self.mems[mem.1.id].clone(), dir.map(mk_dir), self.expr(addr), self.expr(clk),
                );
                self.declare(p.into())
            }
            SSk::Inst { name, module } => {
                let i = module::Instance::new(name.as_str(), self.mods[module.1].clone());
                self.declare(i.into())
            }
            SSk::Invalid(e) => K::Invalidate(self.expr(e)),
            SSk::Attach(v) => K::Attach(v.iter().map(|e| self.expr(e)).collect()),
            SSk::When { cond, then, els } => {
                let cond = self.expr(cond);
                let when: Vec<_> = then.iter().map(|s| self.stmt(s)).collect();
                let r#else: Vec<_> = els.iter().map(|s| self.stmt(s)).collect();
                K::Conditional { cond, when: when.into(), r#else: r#else.into() }
            }
            SSk::Stop { name, clk, cond, code } =>
                K::Stop { name: opt(name), clock: self.expr(clk), cond: self.expr(cond), code: *code },
            SSk::Print { name, clk, cond, msg } => K::Print {
                name: opt(name),
                clock: self.expr(clk),
                cond: self.expr(cond),
                msg: msg.iter().map(|m| match m {
                    Elem::Lit(s) => PrintElement::Literal(s.clone()),
                    Elem::Val(e, f) => PrintElement::Value(self.expr(e), match f {
                        'b' => Format::Binary, 'd' => Format::Decimal, 'x' => Format::Hexadecimal, _ => Format::Character,
                    }),
                }).collect(),
            },
        };
        Statement::from(kind).with_info(s.info.clone())
    }
}

pub fn mk_module(m: &SModule, mods: &[Arc<Module>]) -> Arc<Module> {
    let ports: Vec<_> = m.ports.iter().map(|p| Arc::new(
        module::Port::new(p.name.as_str(), mk_type(&p.ty), if p.out { module::Direction::Output } else { module::Direction::Input })
            .with_info(p.info.clone())
    )).collect();
    let mut mk = Mk {
        ents: ports.iter().map(|p| Arc::new(Entity::from(p.clone()))).collect(),
        mems: Vec::new(),
        mods,
    };
    let kind = match &m.kind {
        SKind::Reg(s) => module::Kind::Regular { stmts: s.iter().map(|s| mk.stmt(s)).collect() },
        SKind::Ext { defname, params } => module::Kind::External {
            defname: defname.as_ref().map(|n| n.as_str().into()),
            params: params.iter().map(|(k, v)| (k.as_str().into(), mk_param(v))).collect(),
        },
    };
    Arc::new(Module::new(m.name.as_str().into(), ports, kind).with_info(m.info.clone()))
}

pub fn mk_param(v: &SParam) -> module::ParamValue {
    match v {
        SParam::Int(v) => module::ParamValue::Int(*v),
        SParam::Double(v) => module::ParamValue::Double(f64::from_bits(*v)),
        SParam::Str(s) => module::ParamValue::String(s.as_str().into()),
    }
}

pub fn mk_modules(c: &SCircuit) -> Vec<Arc<Module>> {
    let mut mods = Vec::new();
    for m in &c.mods {
        let m = mk_module(m, &mods);
        mods.push(m);
    }
    mods
}

pub fn mk_circuit(c: &SCircuit) -> Circuit {
    let mods = mk_modules(c);
    Circuit::new(mods[c.top()].clone()).with_info(c.info.clone())
}

// -------------------------------------------------------------- from library

pub fn x_type(t: &Type) -> SType {
    match t {
        Type::GroundType(g) => match g {
            GroundType::UInt(w) => SType::UInt(*w),
            GroundType::SInt(w) => SType::SInt(*w),
            GroundType::Fixed(w, p) => SType::Fixed(*w, *p),
            GroundType::Clock => SType::Clock,
            GroundType::Reset(ResetKind::Regular) => SType::Reset,
            GroundType::Reset(ResetKind::Async) => SType::AsyncReset,
            GroundType::Analog(w) => SType::Analog(*w),
        },
        Type::Vector(t, n) => SType::Vec(Box::new(x_type(t)), *n),
        Type::Bundle(f) => SType::Bundle(f.iter().map(|f| SField {
            name: f.name().to_string(),
            flip: f.orientation() == Orientation::Flipped,
            ty: x_type(f.r#type()),
        }).collect()),
    }
}

/// Translator of one module
pub struct Extract<'a> {
    ports: HashMap<*const module::Port, usize>,
    ents: HashMap<*const Entity, usize>,
    mems: HashMap<*const simple::Memory, usize>,
    /// Text of each entity seen, to avoid visiting shared ones repeatedly
    sigs: HashMap<*const Entity, u64>,
    next: usize,
    next_mem: usize,
    mods: &'a dyn Fn(&Arc<Module>) -> usize,
}

pub fn x_ruw(r: ReadUnderWrite) -> Ruw {
    match r { ReadUnderWrite::Old => Ruw::Old, ReadUnderWrite::New => Ruw::New, ReadUnderWrite::Undefined => Ruw::Undefined }
}

pub fn x_dir(d: PortDir) -> Dir {
    match d { PortDir::Read => Dir::Read, PortDir::Write => Dir::Write, PortDir::ReadWrite => Dir::ReadWrite }
}

pub fn x_info(w: &impl WithInfo) -> Info {
    w.info().map(Into::into)
}

fn x_simple(m: &simple::Memory) -> SSimpleMem {
    let ty = m.r#type().map(|t| x_type(&t)).unwrap_or(SType::Clock);
    SSimpleMem {
        name: m.name().to_string(),
        ty,
        seq: match m.kind() {
            simple::Kind::Combinatory => None,
            simple::Kind::Sequential(r) => Some(r.map(x_ruw)),
        },
    }
}

pub fn x_port(p: &module::Port) -> SPort {
    SPort {
        name: p.name().to_string(),
        ty: x_type(p.r#type()),
        out: p.direction() == module::Direction::Output,
        info: x_info(p),
    }
}

impl<'a> Extract<'a> {
    fn new(mods: &'a dyn Fn(&Arc<Module>) -> usize) -> Self {
        Extract {
            ports: HashMap::new(), ents: HashMap::new(), mems: HashMap::new(), sigs: HashMap::new(),
            next: 0, next_mem: 0, mods,
        }
    }

    fn target(&mut self, e: &Ent) -> Target {
        let id = match e.as_ref() {
            Entity::Port(p) => self.ports.get(&Arc::as_ptr(p)),
            _ => self.ents.get(&Arc::as_ptr(e)),
        }.copied().unwrap_or(DANGLING);
        let sig = match self.sigs.get(&Arc::as_ptr(e)) {
            Some(s) => *s,
            None => {
                let s = match e.as_ref() {
                    Entity::Port(p) => port_sig(&x_port(p)),
                    _ => sig(&self.entity(e)),
                };
                self.sigs.insert(Arc::as_ptr(e), s);
                s
            }
        };
        Target { id, sig }
    }

    fn expr(&mut self, e: &Ex) -> SExpr {
        match e {
            Expression::UIntLiteral { value, width } => SExpr::U(value.clone(), *width),
            Expression::SIntLiteral { value, width } => SExpr::S(value.clone(), *width),
            Expression::Reference(r) => { let t = self.target(r); SExpr::Ref(r.name().to_string(), t) }
            Expression::SubField { base, index } => SExpr::Field(Box::new(self.expr(base)), index.to_string()),
            Expression::SubIndex { base, index } => SExpr::Index(Box::new(self.expr(base)), *index),
            Expression::SubAccess { base, index } =>
                SExpr::Access(Box::new(self.expr(base)), Box::new(self.expr(index))),
            Expression::Mux { sel, a, b } => SExpr::Mux(Box::new([self.expr(sel), self.expr(a), self.expr(b)])),
            Expression::ValidIf { sel, value } => SExpr::ValidIf(Box::new([self.expr(sel), self.expr(value)])),
            Expression::PrimitiveOp(op) => {
                let s = |x: &Ex, e: &mut Self| e.expr(x);
                let b = |n, l: &Ex, r: &Ex, e: &mut Self| SExpr::Op(n, vec![e.expr(l), e.expr(r)], vec![]);
                let u = |n, x: &Ex, e: &mut Self| SExpr::Op(n, vec![e.expr(x)], vec![]);
                let i = |n, x: &Ex, v: i64, e: &mut Self| SExpr::Op(n, vec![e.expr(x)], vec![v]);
                match op {
                    Op::Add(l, r) => b("add", l, r, self),
                    Op::Sub(l, r) => b("sub", l, r, self),
                    Op::Mul(l, r) => b("mul", l, r, self),
                    Op::Div(l, r) => b("div", l, r, self),
                    Op::Rem(l, r) => b("rem", l, r, self),
                    Op::Lt(l, r) => b("lt", l, r, self),
                    Op::LEq(l, r) => b("leq", l, r, self),
                    Op::Gt(l, r) => b("gt", l, r, self),
                    Op::GEq(l, r) => b("geq", l, r, self),
                    Op::Eq(l, r) => b("eq", l, r, self),
                    Op::NEq(l, r) => b("neq", l, r, self),
                    Op::Pad(x, n) => i("pad", x, *n as i64, self),
                    Op::Cast(x, t) => match t {
                        GroundType::UInt(None) => u("asUInt", x, self),
                        GroundType::SInt(None) => u("asSInt", x, self),
                        GroundType::Fixed(None, Some(p)) => i("asFixed", x, *p as i64, self),
                        GroundType::Clock => u("asClock", x, self),
                        GroundType::Reset(ResetKind::Async) => u("asAsyncReset", x, self),
                        _ => u("unknown cast", x, self),
                    },
                    Op::Shl(x, n) => i("shl", x, *n as i64, self),
                    Op::Shr(x, n) => i("shr", x, *n as i64, self),
                    Op::DShl(l, r) => b("dshl", l, r, self),
                    Op::DShr(l, r) => b("dshr", l, r, self),
                    Op::Cvt(x) => u("cvt", x, self),
                    Op::Neg(x) => u("neg", x, self),
                    Op::Not(x) => u("not", x, self),
                    Op::And(l, r) => b("and", l, r, self),
                    Op::Or(l, r) => b("or", l, r, self),
                    Op::Xor(l, r) => b("xor", l, r, self),
                    Op::AndReduce(x) => u("andr", x, self),
                    Op::OrReduce(x) => u("orr", x, self),
                    Op::XorReduce(x) => u("xorr", x, self),
                    Op::Cat(l, r) => b("cat", l, r, self),
                    Op::Bits(x, Some(l), Some(h)) =>
                        SExpr::Op("bits", vec![s(x, self)], vec![*l as i64, *h as i64]),
                    Op::Bits(x, None, Some(h)) => i("head", x, *h as i64, self),
                    Op::Bits(x, Some(l), None) => i("tail", x, *l as i64, self),
                    Op::Bits(x, None, None) => u("unknown bits", x, self),
                    Op::IncPrecision(x, n) => i("incp", x, *n as i64, self),
                    Op::DecPrecision(x, n) => i("decp", x, *n as i64, self),
                    Op::SetPrecision(x, n) => i("setp", x, *n as i64, self),
                }
            }
        }
    }

    /// The declaration of an entity which is not a port
    fn entity(&mut self, e: &Ent) -> SSk {
        match e.as_ref() {
            Entity::Port(p) => SSk::Node(format!("port {}", p.name()), SExpr::U(0u8.into(), 0)),
            Entity::Wire { name, r#type } => SSk::Wire(name.to_string(), x_type(r#type)),
            Entity::Register(r) => SSk::Reg {
                name: r.name().to_string(),
                ty: r.r#type().map(|t| x_type(&t)).unwrap_or(SType::Clock),
                clk: self.expr(r.clock()),
                reset: match (r.reset_signal(), r.reset_value()) {
                    (Some(s), Some(v)) => { let s = self.expr(s); Some((s, self.expr(v))) }
                    _ => None,
                },
            },
            Entity::Node { name, value } => SSk::Node(name.to_string(), self.expr(value)),
            Entity::Memory(m) => SSk::Mem(SMem {
                name: m.name().to_string(),
                ty: x_type(m.data_type()),
                depth: m.depth(),
                ports: m.ports().map(|p| (x_dir(p.dir), p.name.to_string())).collect(),
                rl: m.read_latency(),
                wl: m.write_latency(),
                ruw: x_ruw(m.read_under_write()),
            }),
            Entity::SimpleMemPort(p) => {
                let m = p.memory();
                let id = self.mems.get(&Arc::as_ptr(m)).copied().unwrap_or(DANGLING);
                let t = Target { id, sig: sig(&SSk::SimpleMem(x_simple(m))) };
                SSk::MPort {
                    name: p.name().to_string(),
                    mem: (m.name().to_string(), t),
                    dir: p.direction().map(x_dir),
                    addr: self.expr(p.address()),
                    clk: self.expr(p.clock()),
                }
            }
            Entity::Instance(i) => SSk::Inst {
                name: i.name().to_string(),
                module: (i.module().name().to_string(), (self.mods)(i.module())),
            },
        }
    }

    fn stmt(&mut self, s: &Statement) -> SStmt {
        use stmt::Kind as K;
        let opt = |n: &Option<Arc<str>>| n.as_ref().map(|n| n.to_string());
        let kind = match s.kind() {
            K::Connection { from, to } => { let t = self.expr(to); SSk::Connect(t, self.expr(from)) }
            K::PartialConnection { from, to } => { let t = self.expr(to); SSk::Partial(t, self.expr(from)) }
            K::Empty => SSk::Skip,
            K::Declaration(e) => {
                let d = self.entity(e);
                self.ents.insert(Arc::as_ptr(e), self.next);
                self.next += 1;
                d
            }
            K::SimpleMemDecl(m) => {
                self.mems.insert(Arc::as_ptr(m), self.next_mem);
                self.next_mem += 1;
                SSk::SimpleMem(x_simple(m))
            }
            K::Invalidate(e) => SSk::Invalid(self.expr(e)),
            K::Attach(v) => SSk::Attach(v.iter().map(|e| self.expr(e)).collect()),
            K::Conditional { cond, when, r#else } => {
                let cond = self.expr(cond);
                let then = when.iter().map(|s| self.stmt(s)).collect();
                let els = r#else.iter().map(|s| self.stmt(s)).collect();
                SSk::When { cond, then, els }
            }
            K::Stop { name, clock, cond, code } => {
                let clk = self.expr(clock);
                SSk::Stop { name: opt(name), clk, cond: self.expr(cond), code: *code }
            }
            K::Print { name, clock, cond, msg } => {
                let clk = self.expr(clock);
                let cond = self.expr(cond);
                let msg = msg.iter().map(|m| match m {
                    PrintElement::Literal(s) => Elem::Lit(s.clone()),
                    PrintElement::Value(e, f) => Elem::Val(self.expr(e), match f {
                        Format::Binary => 'b', Format::Decimal => 'd', Format::Hexadecimal => 'x', Format::Character => 'c',
                    }),
                }).collect();
                SSk::Print { name: opt(name), clk, cond, msg }
            }
        };
        SStmt { kind, info: x_info(s) }
    }
}

pub fn x_param(v: &module::ParamValue) -> SParam {
    match v {
        module::ParamValue::Int(v) => SParam::Int(*v),
        module::ParamValue::Double(v) => SParam::Double(v.to_bits()),
        module::ParamValue::String(s) => SParam::Str(s.to_string()),
    }
}

/// Translate a module. `mods` identifies instantiated modules.
pub fn x_module(m: &Module, mods: &dyn Fn(&Arc<Module>) -> usize) -> SModule {
    let mut x = Extract::new(mods);
    let mut ports = Vec::new();
    for p in m.ports() {
        x.ports.insert(Arc::as_ptr(p), x.next);
        x.next += 1;
        ports.push(x_port(p));
    }
    let kind = match m.kind() {
        module::Kind::Regular { stmts } => SKind::Reg(stmts.iter().map(|s| x.stmt(s)).collect()),
        module::Kind::External { defname, params } => SKind::Ext {
            defname: defname.as_ref().map(|n| n.to_string()),
            params: params.iter().map(|(k, v)| (k.to_string(), x_param(v))).collect::<BTreeMap<_, _>>(),
        },
    };
    SModule { name: m.name().to_string(), info: x_info(m), ports, kind }
}

/// Modules directly instantiated by a module
pub fn instantiated(m: &Module) -> Vec<Arc<Module>> {
    fn go(v: &[Statement], out: &mut Vec<Arc<Module>>) {
        for s in v {
            match s.kind() {
                stmt::Kind::Declaration(e) => if let Entity::Instance(i) = e.as_ref() {
                    out.push(i.module().clone())
                },
                stmt::Kind::Conditional { when, r#else, .. } => { go(when, out); go(r#else, out) }
                _ => (),
            }
        }
    }
    let mut out = Vec::new();
    go(m.statements(), &mut out);
    out
}

/// All (distinct) modules of a circuit, dependencies first
pub fn all_modules(top: &Arc<Module>) -> Vec<Arc<Module>> {
    fn go(m: &Arc<Module>, done: &mut Vec<Arc<Module>>) {
        if done.iter().any(|d| Arc::ptr_eq(d, m)) {
            return;
        }
        for i in instantiated(m) {
            go(&i, done);
        }
        if !done.iter().any(|d| Arc::ptr_eq(d, m)) {
            done.push(m.clone());
        }
    }
    let mut r = Vec::new();
    go(top, &mut r);
    r
}

/// Translate a circuit's reachable modules, dependencies first
pub fn x_circuit(c: &Circuit) -> SCircuit {
    let mods = all_modules(c.top_module());
    SCircuit { name: c.top_module().name().to_string(), info: x_info(c), mods: x_list(&mods) }
}

/// Bring a model circuit into the form of [x_circuit]'s result
pub fn normal(c: &SCircuit) -> SCircuit {
    SCircuit { name: c.name.clone(), info: c.info.clone(), mods: normal_mods(&c.mods, c.top()) }
}

pub fn normal_mods(mods: &[SModule], top: usize) -> Vec<SModule> {
    fn go(mods: &[SModule], i: usize, pos: &mut Vec<Option<usize>>, out: &mut Vec<SModule>) {
        if pos[i].is_some() {
            return;
        }
        let mut m = mods[i].clone();
        for (_, j) in m.instances() {
            go(mods, j, pos, out);
        }
        if pos[i].is_none() {
            m.map_instances(&mut |j| pos[j].unwrap_or(DANGLING));
            pos[i] = Some(out.len());
            out.push(m);
        }
    }
    let mut out = Vec::new();
    go(mods, top, &mut vec![None; mods.len()], &mut out);
    out
}

/// Translate a list of modules, keeping identities
pub fn x_list(mods: &[Arc<Module>]) -> Vec<SModule> {
    mods.iter().map(|m| x_module(m, &|i| {
        mods.iter().position(|m| Arc::ptr_eq(m, i)).unwrap_or(DANGLING)
    })).collect()
}
