//! The properties

use std::sync::Arc;

use firrtl_ast::circuit::Circuit;
use firrtl_ast::error::ParseError;

use crate::bridge::*;
use crate::io::{Crash, Injected};
use crate::spec::*;
use crate::ensure;
use crate::world::*;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod shown;

pub struct Prop {
    pub id: &'static str,
    /// One simulated run
    pub run: fn() -> Res,
    /// Number of runs of the quick tier
    pub quick: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    /// Particular histories run in addition, as those found to fail once
    pub cases: &'static [Case],
}

/// A history of its own, with a name known findings are listed by
pub struct Case {
    pub name: &'static str,
    pub what: &'static str,
    pub run: fn() -> Res,
}

pub static ALL: &[&Prop] = &[
    &c01::PROP, &c02::PROP, &c03::PROP, &c04::PROP, &c05::PROP, &c06::PROP, &c07::PROP, &c08::PROP, &c09::PROP, &c10::PROP, &c11::PROP, &c12::PROP, &c13::PROP, &c14::PROP,
    &c15::PROP, &c16::PROP, &c17::PROP,
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().copied().find(|p| p.id == id)
}

// ------------------------------------------------------- library operations

pub fn format(c: &Circuit) -> String {
    lib(|| c.to_string())
}

pub fn parse(text: &str) -> Result<Circuit, ParseError> {
    lib(|| firrtl_ast::circuit::parse(text))
}

pub fn from_read(r: impl std::io::Read) -> Result<Circuit, ParseError> {
    lib(|| Circuit::from_read(r))
}

pub fn build(c: &SCircuit) -> Circuit {
    lib(|| mk_circuit(c))
}

pub fn extract(c: &Circuit) -> SCircuit {
    lib(|| x_circuit(c))
}

// ------------------------------------------------------------------ outcomes

/// What an attempt to read something led to
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Circuit(Box<SCircuit>),
    Io(std::io::ErrorKind),
    Other(String),
}

pub fn outcome(r: &Result<Circuit, ParseError>) -> Out {
    match r {
        Ok(c) => Out::Circuit(Box::new(extract(c))),
        Err(ParseError::IO(e)) => Out::Io(e.kind()),
        Err(e) => Out::Other(lib(|| e.to_string())),
    }
}

impl Out {
    pub fn brief(&self) -> String {
        match self {
            Out::Circuit(c) => format!("circuit {} with {} module(s)", c.name, c.mods.len()),
            Out::Io(k) => format!("I/O error ({k:?})"),
            Out::Other(e) => format!("error {:?}", cut(e)),
        }
    }
}

/// Why an outcome differs from the one expected
pub fn out_diff(expected: &Out, got: &Out) -> String {
    match (expected, got) {
        (Out::Circuit(a), Out::Circuit(b)) => circuit_diff(a, b),
        _ => format!("expected {}, got {}", expected.brief(), got.brief()),
    }
}

pub fn circuit_diff(a: &SCircuit, b: &SCircuit) -> String {
    let d = first_diff(&dump_circuit(a), &dump_circuit(b));
    if a.mods == b.mods || !d.starts_with("dumps are equal") {
        return d;
    }
    mods_diff(&a.mods, &b.mods)
}

pub fn mods_diff(a: &[SModule], b: &[SModule]) -> String {
    for (i, (x, y)) in a.iter().zip(b).enumerate() {
        if x != y {
            let d = first_diff(&dump(x), &dump(y));
            return if d.starts_with("dumps are equal") {
                let (p, q) = (format!("{x:#?}"), format!("{y:#?}"));
                format!("module {i} ({}): {}", x.name, first_diff(&p, &q))
            } else {
                format!("module {i} ({}): {d}", x.name)
            };
        }
    }
    format!("expected {} modules, got {}", a.len(), b.len())
}

/// Require a circuit to be the one expected (see [normal])
pub fn same(class: &str, expected: &SCircuit, c: &Circuit) -> Res {
    let got = extract(c);
    if got != *expected {
        return viol(class, circuit_diff(expected, &got));
    }
    Ok(())
}

pub fn err_text(e: &ParseError) -> String {
    let mut s = lib(|| e.to_string());
    if let ParseError::IO(e) = e {
        s = format!("{s}: {e:?}");
    }
    s
}

/// Reading must have succeeded
pub fn read_ok(class: &str, r: Result<Circuit, ParseError>, text: &str) -> Res<Circuit> {
    match r {
        Ok(c) => Ok(c),
        Err(e) => viol(class, format!("{}\n--- text:\n{}", err_text(&e), text_excerpt(text))),
    }
}

pub fn text_excerpt(text: &str) -> String {
    if text.len() < 3000 { text.to_string() } else { cut(text) }
}

// --------------------------------------------------------------------- panics

/// How calling code which may panic ended
pub enum Ended<T> {
    Value(T),
    Injected(u64),
    Crash,
}

/// Run something injected panics may get out of. Any other panic is reported
/// as a violation.
pub fn guard<T>(f: impl FnOnce() -> T) -> Res<Ended<T>> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(Ended::Value(v)),
        Err(p) => {
            if let Some(Injected(id)) = p.downcast_ref::<Injected>() {
                Ok(Ended::Injected(*id))
            } else if p.downcast_ref::<Crash>().is_some() {
                Ok(Ended::Crash)
            } else {
                Err(crate::sup::panic_violation())
            }
        }
    }
}

/// Join a task which is not supposed to panic
pub fn join<T>(s: Slot<T>) -> Res<T> {
    match s.join() {
        Ok(v) => Ok(v),
        Err(p) => {
            if p.downcast_ref::<Injected>().is_some() || p.downcast_ref::<Crash>().is_some() {
                return viol("stray panic", "an injected panic surfaced in the wrong place");
            }
            Err(crate::sup::panic_violation())
        }
    }
}

// ----------------------------------------------------------------------- cost

/// Effort for visiting everything reachable from each declaration over and
/// over again, as comparing and typing do
pub fn cost(c: &SCircuit) -> u64 {
    fn ex(e: &SExpr, d: &[u64]) -> u64 {
        let sub = |v: &[SExpr]| v.iter().fold(1u64, |a, x| a.saturating_add(ex(x, d)));
        match e {
            SExpr::U(..) | SExpr::S(..) => 1,
            SExpr::Ref(_, t) => d.get(t.id).copied().unwrap_or(1).saturating_add(1),
            SExpr::Field(b, _) | SExpr::Index(b, _) => ex(b, d).saturating_add(1),
            SExpr::Access(b, i) => ex(b, d).saturating_add(ex(i, d)),
            SExpr::Mux(a) => sub(a.as_ref()),
            SExpr::ValidIf(a) => sub(a.as_ref()),
            SExpr::Op(_, a, _) => sub(a),
        }
    }
    fn go(v: &[SStmt], d: &mut Vec<u64>, m: &mut Vec<u64>, mods: &[u64], sum: &mut u64) {
        for s in v {
            let add = |v: &[&SExpr], d: &[u64]| v.iter().fold(2u64, |a, x| a.saturating_add(ex(x, d)));
            let c = match &s.kind {
                SSk::Connect(a, b) | SSk::Partial(a, b) => add(&[a, b], d),
                SSk::Reg { clk, reset, .. } => {
                    let mut v = vec![clk];
                    if let Some((a, b)) = reset { v.push(a); v.push(b) }
                    add(&v, d)
                }
                SSk::Node(_, a) | SSk::Invalid(a) => add(&[a], d),
                SSk::MPort { addr, clk, mem, .. } => add(&[addr, clk], d).saturating_add(m.get(mem.1.id).copied().unwrap_or(1)),
                SSk::Inst { module, .. } => mods.get(module.1).copied().unwrap_or(1),
                SSk::Attach(v) => add(&v.iter().collect::<Vec<_>>(), d),
                SSk::When { cond, .. } => add(&[cond], d),
                SSk::Stop { clk, cond, .. } => add(&[clk, cond], d),
                SSk::Print { clk, cond, msg, .. } => {
                    let mut v = vec![clk, cond];
                    v.extend(msg.iter().filter_map(|m| if let Elem::Val(e, _) = m { Some(e) } else { None }));
                    add(&v, d)
                }
                _ => 2,
            };
            *sum = sum.saturating_add(c);
            if s.kind.declares().is_some() { d.push(c) }
            if let SSk::SimpleMem(_) = &s.kind { m.push(2) }
            if let SSk::When { then, els, .. } = &s.kind {
                go(then, d, m, mods, sum);
                go(els, d, m, mods, sum);
            }
        }
    }
    let mut mods: Vec<u64> = Vec::new();
    for m in &c.mods {
        let mut d: Vec<u64> = m.ports.iter().map(|_| 2).collect();
        let mut sum = m.ports.len() as u64 + 1;
        go(m.stmts(), &mut d, &mut Vec::new(), &mods, &mut sum);
        mods.push(sum);
    }
    mods.iter().fold(0, |a: u64, b| a.saturating_add(*b))
}

/// Whether the library's own comparison may be used
pub fn cheap(c: &SCircuit) -> bool {
    cost(c) < 20_000
}

pub fn arc(s: &str) -> Arc<[u8]> {
    Arc::from(s.as_bytes())
}
