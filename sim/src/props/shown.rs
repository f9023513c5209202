//! Everything which can be formatted, on its own

use std::fmt::{self, Display, Write};
use std::sync::Arc;

use firrtl_ast::circuit::Circuit;
use firrtl_ast::error::ParseError;
use firrtl_ast::expr::Expression;
use firrtl_ast::module::{self, Module};
use firrtl_ast::named::Named;
use firrtl_ast::stmt::print::PrintElement;
use firrtl_ast::stmt::{self, Entity, Statement};
use firrtl_ast::types::{Type, Typed};

use crate::bridge::*;
use crate::world::below;

/// Something to be formatted
pub struct Shown {
    pub what: &'static str,
    obj: Arc<dyn Display>,
}

impl Clone for Shown {
    fn clone(&self) -> Self {
        Shown { what: self.what, obj: self.obj.clone() }
    }
}

impl Shown {
    pub fn new(what: &'static str, v: impl Display + 'static) -> Self {
        Shown { what, obj: Arc::new(v) }
    }

    pub fn fmt(&self, w: &mut dyn Write) -> fmt::Result {
        w.write_fmt(format_args!("{}", self.obj))
    }

    pub fn io(&self, w: &mut dyn std::io::Write) -> std::io::Result<()> {
        w.write_fmt(format_args!("{}", self.obj))
    }

    pub fn text(&self) -> String {
        self.obj.to_string()
    }
}

fn ty(t: &Type, out: &mut Vec<Shown>) {
    out.push(Shown::new("Type", t.clone()));
    match t {
        Type::GroundType(g) => out.push(Shown::new("GroundType", g.clone())),
        Type::Vector(t, _) => ty(t, out),
        Type::Bundle(f) => if let Some(f) = f.iter().next() {
            out.push(Shown::new("BundleField", f.clone()));
            ty(f.r#type(), out);
        },
    }
}

fn expr(e: &Ex, out: &mut Vec<Shown>) {
    out.push(Shown::new("Expression", e.clone()));
    if let Expression::PrimitiveOp(o) = e {
        out.push(Shown::new("Operation", o.clone()));
    }
}

fn entity(e: &Entity, out: &mut Vec<Shown>) {
    match e {
        Entity::Port(p) => out.push(Shown::new("module Port", p.as_ref().clone())),
        Entity::Wire { r#type, .. } => ty(r#type, out),
        Entity::Register(r) => out.push(Shown::new("Register", r.clone())),
        Entity::Node { value, .. } => expr(value, out),
        Entity::Memory(m) => {
            out.push(Shown::new("ReadUnderWrite", m.read_under_write()));
            for p in m.ports() { out.push(Shown::new("mem Port", p.clone())) }
        }
        Entity::SimpleMemPort(p) => out.push(Shown::new("simple Port", p.clone())),
        Entity::Instance(i) => out.push(Shown::new("Instance", i.clone())),
    }
}

fn stmts(v: &[Statement], out: &mut Vec<Shown>) {
    use stmt::Kind as K;
    for s in v {
        match s.kind() {
            K::Connection { from, to } | K::PartialConnection { from, to } => { expr(from, out); expr(to, out) }
            K::Empty => (),
            K::Declaration(e) => entity(e, out),
            K::SimpleMemDecl(m) => {
                out.push(Shown::new("simple Memory", m.as_ref().clone()));
                if let Ok(t) = m.r#type() { ty(&t, out) }
            }
            K::Invalidate(e) => expr(e, out),
            K::Attach(v) => v.iter().for_each(|e| expr(e, out)),
            K::Conditional { cond, when, r#else } => {
                expr(cond, out);
                stmts(when, out);
                stmts(r#else, out);
            }
            K::Stop { clock, cond, .. } => { expr(clock, out); expr(cond, out) }
            K::Print { msg, .. } => msg.iter().for_each(|m| if let PrintElement::Value(e, _) = m { expr(e, out) }),
        }
    }
}

pub fn in_module(m: &Module) -> Vec<Shown> {
    let mut out = Vec::new();
    for p in m.ports() {
        out.push(Shown::new("module Port", p.as_ref().clone()));
        out.push(Shown::new("Direction", p.direction()));
        ty(p.r#type(), &mut out);
    }
    match m.kind() {
        module::Kind::Regular { stmts: s } => stmts(s, &mut out),
        module::Kind::External { params, .. } => {
            // Maps have no defined order
            let mut p: Vec<_> = params.iter().collect();
            p.sort_by(|a, b| a.0.cmp(b.0));
            p.into_iter().for_each(|(_, v)| out.push(Shown::new("ParamValue", v.clone())));
        }
    }
    out
}

/// The circuit or some part of it
pub fn choose(c: &Circuit) -> Shown {
    let whole = || Shown::new("Circuit", c.clone());
    if below(3) < 2 {
        return whole();
    }
    let mods = all_modules(c.top_module());
    let m = &mods[below(mods.len())];
    let mut v = in_module(m);
    v.push(Shown::new("ParseError", ParseError::from(m.name_ref().to_string())));
    let k = below(v.len());
    v.swap_remove(k)
}
