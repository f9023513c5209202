//! Reference model of FIRRTL circuits
//!
//! These types mirror what a FIRRTL text denotes. They are independent of the
//! library's AST. [crate::bridge] translates between the two.

use num_bigint::{BigInt, BigUint};
use std::collections::BTreeMap;
use std::fmt::Write;

pub type Info = Option<String>;

#[derive(Clone, Debug, PartialEq)]
pub struct SCircuit {
    pub name: String,
    pub info: Info,
    /// All modules in the order of their definition
    pub mods: Vec<SModule>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SModule {
    pub name: String,
    pub info: Info,
    pub ports: Vec<SPort>,
    pub kind: SKind,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SKind {
    Reg(Vec<SStmt>),
    Ext { defname: Option<String>, params: BTreeMap<String, SParam> },
}

#[derive(Clone, Debug, PartialEq)]
pub enum SParam {
    Int(i64),
    /// The bits of the value
    Double(u64),
    Str(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct SPort {
    pub name: String,
    pub ty: SType,
    pub out: bool,
    pub info: Info,
}

#[derive(Clone, Debug, PartialEq)]
pub enum SType {
    UInt(Option<u16>),
    SInt(Option<u16>),
    Fixed(Option<u16>, Option<i16>),
    Clock,
    Reset,
    AsyncReset,
    Analog(Option<u16>),
    Vec(Box<SType>, u16),
    Bundle(Vec<SField>),
}

#[derive(Clone, Debug, PartialEq)]
pub struct SField {
    pub name: String,
    pub flip: bool,
    pub ty: SType,
}

/// The target of a reference
#[derive(Clone, Debug, PartialEq)]
pub struct Target {
    /// Number of the declaration within the module, ports first
    pub id: usize,
    /// Text of the declaration
    pub sig: u64,
}

pub const DANGLING: usize = usize::MAX;

#[derive(Clone, Debug, PartialEq)]
pub enum SExpr {
    U(BigUint, u16),
    S(BigInt, u16),
    Ref(String, Target),
    Field(Box<SExpr>, String),
    Index(Box<SExpr>, u16),
    Access(Box<SExpr>, Box<SExpr>),
    Mux(Box<[SExpr; 3]>),
    ValidIf(Box<[SExpr; 2]>),
    Op(&'static str, Vec<SExpr>, Vec<i64>),
}

/// Name, number of expressions, number of integer parameters, signed parameter
pub const OPS: &[(&str, usize, usize, bool)] = &[
    ("add", 2, 0, false), ("sub", 2, 0, false), ("mul", 2, 0, false), ("div", 2, 0, false),
    ("rem", 2, 0, false), ("lt", 2, 0, false), ("leq", 2, 0, false), ("gt", 2, 0, false),
    ("geq", 2, 0, false), ("eq", 2, 0, false), ("neq", 2, 0, false), ("pad", 1, 1, false),
    ("asUInt", 1, 0, false), ("asSInt", 1, 0, false), ("asFixed", 1, 1, true),
    ("asClock", 1, 0, false), ("asAsyncReset", 1, 0, false), ("shl", 1, 1, false),
    ("shr", 1, 1, false), ("dshl", 2, 0, false), ("dshr", 2, 0, false), ("cvt", 1, 0, false),
    ("neg", 1, 0, false), ("not", 1, 0, false), ("and", 2, 0, false), ("or", 2, 0, false),
    ("xor", 2, 0, false), ("andr", 1, 0, false), ("orr", 1, 0, false), ("xorr", 1, 0, false),
    ("cat", 2, 0, false), ("bits", 1, 2, false), ("head", 1, 1, false), ("tail", 1, 1, false),
    ("incp", 1, 1, false), ("decp", 1, 1, false), ("setp", 1, 1, true),
];

#[derive(Clone, Debug, PartialEq)]
pub struct SStmt {
    pub kind: SSk,
    pub info: Info,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ruw { Old, New, Undefined }

impl Ruw {
    pub fn kw(self) -> &'static str {
        match self { Ruw::Old => "old", Ruw::New => "new", Ruw::Undefined => "undefined" }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dir { Read, Write, ReadWrite }

#[derive(Clone, Debug, PartialEq)]
pub struct SMem {
    pub name: String,
    pub ty: SType,
    pub depth: u64,
    pub ports: Vec<(Dir, String)>,
    pub rl: u16,
    pub wl: u16,
    pub ruw: Ruw,
}

#[derive(Clone, Debug, PartialEq)]
pub struct SSimpleMem {
    pub name: String,
    pub ty: SType,
    /// None for a `cmem`
    pub seq: Option<Option<Ruw>>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Elem {
    Lit(String),
    Val(SExpr, char),
}

#[derive(Clone, Debug, PartialEq)]
pub enum SSk {
    Connect(SExpr, SExpr),
    Partial(SExpr, SExpr),
    Skip,
    Wire(String, SType),
    Reg { name: String, ty: SType, clk: SExpr, reset: Option<(SExpr, SExpr)> },
    Node(String, SExpr),
    Mem(SMem),
    SimpleMem(SSimpleMem),
    MPort { name: String, mem: (String, Target), dir: Option<Dir>, addr: SExpr, clk: SExpr },
    Inst { name: String, module: (String, usize) },
    Invalid(SExpr),
    Attach(Vec<SExpr>),
    When { cond: SExpr, then: Vec<SStmt>, els: Vec<SStmt> },
    Stop { name: Option<String>, clk: SExpr, cond: SExpr, code: i64 },
    Print { name: Option<String>, clk: SExpr, cond: SExpr, msg: Vec<Elem> },
}

impl SSk {
    /// Name of the entity declared by this statement
    pub fn declares(&self) -> Option<&str> {
        match self {
            SSk::Wire(n, _) | SSk::Node(n, _) => Some(n),
            SSk::Reg { name, .. } | SSk::MPort { name, .. } | SSk::Inst { name, .. } => Some(name),
            SSk::Mem(m) => Some(&m.name),
            _ => None,
        }
    }

    pub fn tag(&self) -> &'static str {
        match self {
            SSk::Connect(..) => "connect", SSk::Partial(..) => "partial", SSk::Skip => "skip",
            SSk::Wire(..) => "wire", SSk::Reg { .. } => "reg", SSk::Node(..) => "node",
            SSk::Mem(..) => "mem", SSk::SimpleMem(..) => "simplemem", SSk::MPort { .. } => "mport",
            SSk::Inst { .. } => "inst", SSk::Invalid(..) => "invalid", SSk::Attach(..) => "attach",
            SSk::When { .. } => "when", SSk::Stop { .. } => "stop", SSk::Print { .. } => "printf",
        }
    }
}

/// Hash of the text of a declaration
pub fn sig(kind: &SSk) -> u64 {
    let mut s = String::new();
    head(kind, &mut s);
    crate::world::fnv(crate::world::FNV, s.as_bytes())
}

pub fn port_sig(p: &SPort) -> u64 {
    let s = format!("{} {}: {}", if p.out { "output" } else { "input" }, p.name, ty(&p.ty));
    crate::world::fnv(crate::world::FNV, s.as_bytes())
}

pub fn ty(t: &SType) -> String {
    let w = |w: &Option<u16>| w.map(|w| format!("<{w}>")).unwrap_or_default();
    match t {
        SType::UInt(x) => format!("UInt{}", w(x)),
        SType::SInt(x) => format!("SInt{}", w(x)),
        SType::Fixed(x, p) => format!("Fixed{}{}", w(x), p.map(|p| format!("<<{p}>>")).unwrap_or_default()),
        SType::Clock => "Clock".into(),
        SType::Reset => "Reset".into(),
        SType::AsyncReset => "AsyncReset".into(),
        SType::Analog(x) => format!("Analog{}", w(x)),
        SType::Vec(t, n) => format!("{}[{}]", ty(t), n),
        SType::Bundle(f) => {
            let f: Vec<_> = f.iter()
                .map(|f| format!("{}{}: {}", if f.flip { "flip " } else { "" }, f.name, ty(&f.ty)))
                .collect();
            format!("{{{}}}", f.join(", "))
        }
    }
}

pub fn expr(e: &SExpr, o: &mut String) {
    match e {
        SExpr::U(v, w) => write!(o, "UInt<{w}>({v})").unwrap(),
        SExpr::S(v, w) => write!(o, "SInt<{w}>({v})").unwrap(),
        SExpr::Ref(n, _) => o.push_str(n),
        SExpr::Field(b, n) => { expr(b, o); write!(o, ".{n}").unwrap() }
        SExpr::Index(b, n) => { expr(b, o); write!(o, "[{n}]").unwrap() }
        SExpr::Access(b, i) => { expr(b, o); o.push('['); expr(i, o); o.push(']') }
        SExpr::Mux(a) => exprs("mux", a.as_ref(), &[], o),
        SExpr::ValidIf(a) => exprs("validif", a.as_ref(), &[], o),
        SExpr::Op(n, a, i) => exprs(n, a, i, o),
    }
}

fn exprs(name: &str, args: &[SExpr], ints: &[i64], o: &mut String) {
    o.push_str(name);
    o.push('(');
    let mut first = true;
    for a in args {
        if !first { o.push_str(", ") }
        first = false;
        expr(a, o);
    }
    for i in ints {
        write!(o, ", {i}").unwrap();
    }
    o.push(')');
}

fn head(k: &SSk, o: &mut String) {
    match k {
        SSk::Connect(a, b) => { expr(a, o); o.push_str(" <= "); expr(b, o) }
        SSk::Partial(a, b) => { expr(a, o); o.push_str(" <- "); expr(b, o) }
        SSk::Skip => o.push_str("skip"),
        SSk::Wire(n, t) => write!(o, "wire {}: {}", n, ty(t)).unwrap(),
        SSk::Reg { name, ty: t, clk, reset } => {
            write!(o, "reg {}: {}, ", name, ty(t)).unwrap();
            expr(clk, o);
            if let Some((s, v)) = reset {
                o.push_str(" with: (reset => (");
                expr(s, o);
                o.push_str(", ");
                expr(v, o);
                o.push_str("))");
            }
        }
        SSk::Node(n, e) => { write!(o, "node {n} = ").unwrap(); expr(e, o) }
        SSk::Mem(m) => write!(o, "mem {}: {} {} {:?} {} {} {:?}", m.name, ty(&m.ty), m.depth, m.ports, m.rl, m.wl, m.ruw).unwrap(),
        SSk::SimpleMem(m) => {
            write!(o, "{} {}: {}", if m.seq.is_some() { "smem" } else { "cmem" }, m.name, ty(&m.ty)).unwrap();
            if let Some(Some(r)) = m.seq { write!(o, ", {}", r.kw()).unwrap() }
        }
        SSk::MPort { name, mem, dir, addr, clk } => {
            write!(o, "{} mport {} = {}[", dir_kw(*dir), name, mem.0).unwrap();
            expr(addr, o);
            o.push_str("], ");
            expr(clk, o);
        }
        SSk::Inst { name, module } => write!(o, "inst {} of {}", name, module.0).unwrap(),
        SSk::Invalid(e) => { expr(e, o); o.push_str(" is invalid") }
        SSk::Attach(v) => exprs("attach", v, &[], o),
        SSk::When { cond, .. } => { o.push_str("when "); expr(cond, o); o.push(':') }
        SSk::Stop { name, clk, cond, code } => {
            o.push_str("stop(");
            expr(clk, o);
            o.push_str(", ");
            expr(cond, o);
            write!(o, ", {code})").unwrap();
            if let Some(n) = name { write!(o, " : {n}").unwrap() }
        }
        SSk::Print { name, clk, cond, msg } => {
            o.push_str("printf(");
            expr(clk, o);
            o.push_str(", ");
            expr(cond, o);
            write!(o, ", {:?}", msg.iter().map(|m| match m {
                Elem::Lit(s) => s.clone(),
                Elem::Val(e, f) => { let mut o = String::new(); expr(e, &mut o); format!("%{f} {o}") }
            }).collect::<Vec<_>>()).unwrap();
            o.push(')');
            if let Some(n) = name { write!(o, " : {n}").unwrap() }
        }
    }
}

pub fn dir_kw(d: Option<Dir>) -> &'static str {
    match d {
        Some(Dir::Read) => "read",
        Some(Dir::Write) => "write",
        Some(Dir::ReadWrite) => "rdwr",
        None => "infer",
    }
}

/// Canonical dump of a module, for diagnostics
pub fn dump(m: &SModule) -> String {
    let mut o = String::new();
    let info = |i: &Info| i.as_ref().map(|i| format!(" @[{i:?}]")).unwrap_or_default();
    let kw = match m.kind { SKind::Reg(_) => "module", SKind::Ext { .. } => "extmodule" };
    writeln!(o, "{} {}:{}", kw, m.name, info(&m.info)).unwrap();
    for p in &m.ports {
        writeln!(o, "  {} {}: {}{}", if p.out { "output" } else { "input" }, p.name, ty(&p.ty), info(&p.info)).unwrap();
    }
    fn stmts(v: &[SStmt], ind: usize, o: &mut String, info: &dyn Fn(&Info) -> String) {
        for s in v {
            let mut l = String::new();
            head(&s.kind, &mut l);
            writeln!(o, "{:ind$}{}{}", "", l, info(&s.info)).unwrap();
            if let SSk::When { then, els, .. } = &s.kind {
                stmts(then, ind + 2, o, info);
                if !els.is_empty() {
                    writeln!(o, "{:ind$}else:", "").unwrap();
                    stmts(els, ind + 2, o, info);
                }
            }
        }
    }
    match &m.kind {
        SKind::Reg(s) => stmts(s, 2, &mut o, &info),
        SKind::Ext { defname, params } => {
            if let Some(d) = defname { writeln!(o, "  defname = {d}").unwrap() }
            for (k, v) in params { writeln!(o, "  parameter {k} = {v:?}").unwrap() }
        }
    }
    o
}

pub fn dump_circuit(c: &SCircuit) -> String {
    let mut o = format!("circuit {}: {:?}\n", c.name, c.info);
    for m in &c.mods {
        o.push_str(&dump(m));
    }
    o
}

/// First difference of two dumps
pub fn first_diff(a: &str, b: &str) -> String {
    for (i, (l, r)) in a.lines().zip(b.lines()).enumerate() {
        if l != r {
            return format!("line {}: expected {:?}, got {:?}", i + 1, cut(l), cut(r));
        }
    }
    let (la, lb) = (a.lines().count(), b.lines().count());
    if la != lb {
        let l = a.lines().nth(lb).or_else(|| b.lines().nth(la)).unwrap_or("");
        return format!("expected {la} lines, got {lb}; first surplus or missing: {:?}", cut(l));
    }
    "dumps are equal (difference in types, identity or similar)".into()
}

pub fn cut(s: &str) -> String {
    if s.len() > 300 {
        let mut e = 300;
        while !s.is_char_boundary(e) { e -= 1 }
        format!("{}..({} bytes)", &s[..e], s.len())
    } else {
        s.to_string()
    }
}

/// Apply a function to all statements in depth-first order
pub fn walk<'a>(v: &'a [SStmt], f: &mut dyn FnMut(&'a SStmt)) {
    for s in v {
        f(s);
        if let SSk::When { then, els, .. } = &s.kind {
            walk(then, f);
            walk(els, f);
        }
    }
}

impl SModule {
    pub fn stmts(&self) -> &[SStmt] {
        match &self.kind { SKind::Reg(v) => v, _ => &[] }
    }

    pub fn stmts_mut(&mut self) -> Option<&mut Vec<SStmt>> {
        match &mut self.kind { SKind::Reg(v) => Some(v), _ => None }
    }

    /// Names and indices of all modules instantiated, in order
    pub fn instances(&self) -> Vec<(String, usize)> {
        let mut r = Vec::new();
        walk(self.stmts(), &mut |s| if let SSk::Inst { module, .. } = &s.kind { r.push(module.clone()) });
        r
    }
}

impl SModule {
    /// Renumber the modules instantiated
    pub fn map_instances(&mut self, f: &mut dyn FnMut(usize) -> usize) {
        fn go(v: &mut [SStmt], f: &mut dyn FnMut(usize) -> usize) {
            for s in v {
                match &mut s.kind {
                    SSk::Inst { module, .. } => module.1 = f(module.1),
                    SSk::When { then, els, .. } => { go(then, f); go(els, f) }
                    _ => (),
                }
            }
        }
        if let Some(v) = self.stmts_mut() { go(v, f) }
    }
}

/// Indices of the modules reachable from the given one
pub fn reachable(mods: &[SModule], top: usize) -> Vec<usize> {
    let mut seen = vec![false; mods.len()];
    let mut todo = vec![top];
    while let Some(i) = todo.pop() {
        if !std::mem::replace(&mut seen[i], true) {
            todo.extend(mods[i].instances().into_iter().map(|(_, i)| i));
        }
    }
    (0..mods.len()).filter(|i| seen[*i]).collect()
}

/// Remove everything which only tells about the identity of declarations and
/// modules
pub fn erase_ids(m: &mut SModule) {
    fn e(x: &mut SExpr) {
        match x {
            SExpr::Ref(_, t) => t.id = 0,
            SExpr::Field(b, _) | SExpr::Index(b, _) => e(b),
            SExpr::Access(b, i) => { e(b); e(i) }
            SExpr::Mux(a) => a.iter_mut().for_each(e),
            SExpr::ValidIf(a) => a.iter_mut().for_each(e),
            SExpr::Op(_, a, _) => a.iter_mut().for_each(e),
            _ => (),
        }
    }
    fn s(v: &mut [SStmt]) {
        for x in v {
            match &mut x.kind {
                SSk::Connect(a, b) | SSk::Partial(a, b) => { e(a); e(b) }
                SSk::Reg { clk, reset, .. } => {
                    e(clk);
                    if let Some((a, b)) = reset { e(a); e(b) }
                }
                SSk::Node(_, a) | SSk::Invalid(a) => e(a),
                SSk::MPort { mem, addr, clk, .. } => { mem.1.id = 0; e(addr); e(clk) }
                SSk::Inst { module, .. } => module.1 = 0,
                SSk::Attach(v) => v.iter_mut().for_each(e),
                SSk::When { cond, then, els } => { e(cond); s(then); s(els) }
                SSk::Stop { clk, cond, .. } => { e(clk); e(cond) }
                SSk::Print { clk, cond, msg, .. } => {
                    e(clk);
                    e(cond);
                    msg.iter_mut().for_each(|m| if let Elem::Val(x, _) = m { e(x) });
                }
                _ => (),
            }
        }
    }
    if let SKind::Reg(v) = &mut m.kind { s(v) }
}
