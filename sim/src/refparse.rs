//! Reference parser
//!
//! A plain recursive descent reader of FIRRTL text as this library defines it,
//! written without parser combinators and directly producing the reference
//! model. It decides what a (possibly damaged) text denotes.

use num_bigint::{BigInt, BigUint};
use num_traits::Num;
use std::collections::BTreeMap;

use crate::gen::{declare, Env};
use crate::spec::*;

/// What reading a text module by module yields
#[derive(Clone, Debug, PartialEq)]
pub struct Reading {
    /// Name and info of the circuit, if the header is well-formed
    pub header: Option<(String, Info)>,
    /// Modules in order of their definition
    pub mods: Vec<SModule>,
    /// Whether something malformed follows the modules
    pub bad_tail: bool,
}

impl Reading {
    /// The circuit denoted by the text, if any
    pub fn circuit(&self) -> Option<SCircuit> {
        let (name, info) = self.header.clone()?;
        if self.bad_tail || !self.mods.iter().any(|m| m.name == name) {
            return None;
        }
        Some(SCircuit { name, info, mods: self.mods.clone() })
    }
}

/// Limit for the length of indentations
#[derive(Clone, Copy)]
enum Ind {
    Above(usize),
    Is(usize),
}

/// Read a text
pub fn read(text: &str) -> Reading {
    let mut p = P { s: text, env: Env::default(), mods: Vec::new() };
    let Some((name, info)) = p.header() else {
        return Reading { header: None, mods: Vec::new(), bad_tail: true };
    };
    let bad_tail = p.modules();
    Reading { header: Some((name, info)), mods: p.mods, bad_tail }
}

/// Read a text which consists of modules only, some others being known already
pub fn read_modules(text: &str, known: Vec<SModule>) -> Reading {
    let n = known.len();
    let mut p = P { s: text, env: Env::default(), mods: known };
    let bad_tail = p.modules();
    let _ = n;
    Reading { header: None, mods: p.mods, bad_tail }
}

struct P<'a> {
    s: &'a str,
    env: Env,
    mods: Vec<SModule>,
}

fn word(c: char) -> bool {
    c.is_alphanumeric() || c == '_' || c == '$'
}

/// Try an alternative, leaving the position as it was if it fails
macro_rules! attempt {
    ($p:expr, $body:expr) => {{
        let start = $p.s;
        let r = (|| $body)();
        if r.is_none() { $p.s = start }
        r
    }};
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<char> {
        self.s.chars().next()
    }

    fn blank(&mut self) {
        self.s = self.s.trim_start_matches([' ', '\t']);
    }

    /// Something spelled exactly like this, directly at this position
    fn here(&mut self, t: &str) -> Option<()> {
        self.s = self.s.strip_prefix(t)?;
        Some(())
    }

    /// A punctuation mark after optional blanks
    fn mark(&mut self, t: &str) -> Option<()> {
        self.blank();
        self.here(t)
    }

    /// A whole word directly at this position
    fn word_here(&mut self, w: &str) -> Option<()> {
        let rest = self.s.strip_prefix(w)?;
        if rest.chars().next().is_some_and(word) {
            return None;
        }
        self.s = rest;
        Some(())
    }

    fn word(&mut self, w: &str) -> Option<()> {
        self.blank();
        self.word_here(w)
    }

    fn take(&mut self, f: impl Fn(char) -> bool) -> &'a str {
        let end = self.s.find(|c| !f(c)).unwrap_or(self.s.len());
        let (t, rest) = self.s.split_at(end);
        self.s = rest;
        t
    }

    fn ident_here(&mut self) -> Option<String> {
        if self.peek().is_some_and(char::is_numeric) {
            return None;
        }
        self.name_here()
    }

    /// Identifiers and field names have at least one character
    fn name_here(&mut self) -> Option<String> {
        Some(self.take(word)).filter(|n| !n.is_empty()).map(str::to_string)
    }

    fn ident(&mut self) -> Option<String> {
        self.blank();
        self.ident_here()
    }

    fn sign(&mut self) {
        if let Some(r) = self.s.strip_prefix(['+', '-']) {
            self.s = r
        }
    }

    fn number<T: std::str::FromStr>(&mut self) -> Option<T> {
        let start = self.s;
        self.sign();
        self.take(char::is_numeric);
        let text = &start[..start.len() - self.s.len()];
        match text.parse() {
            Ok(v) => Some(v),
            Err(_) => { self.s = start; None }
        }
    }

    fn num<T: std::str::FromStr>(&mut self) -> Option<T> {
        self.blank();
        self.number()
    }

    /// At least one line end, each after blanks and possibly a comment
    fn line_end(&mut self) -> Option<()> {
        let mut any = false;
        loop {
            let mut t = self.s.trim_start_matches([' ', '\t']);
            if let Some(c) = t.strip_prefix(';') {
                let end = c.find(['\n', '\r']).unwrap_or(c.len());
                t = &c[end..];
            }
            let rest = t.strip_prefix('\n').or_else(|| t.strip_prefix("\r\n"));
            match rest {
                Some(r) => { self.s = r; any = true }
                None => return if any { Some(()) } else { None },
            }
        }
    }

    /// Blanks, and an info attribute if there is a well-formed one
    fn info(&mut self) -> Info {
        self.blank();
        attempt!(self, {
            self.here("@[")?;
            let t = self.quoted("\n\t]");
            self.here("]")?;
            Some(t)
        })
    }

    /// Text up to one of the `stop` characters, with escapes
    fn quoted(&mut self, stop: &str) -> String {
        let mut o = String::new();
        let mut it = self.s.char_indices();
        let mut rest = 0;
        while let Some((i, c)) = it.next() {
            if c == '\\' {
                match it.next() {
                    Some((_, 'n')) => o.push('\n'),
                    Some((_, 't')) => o.push('\t'),
                    Some((_, c)) => o.push(c),
                    None => break,
                }
            } else if stop.contains(c) {
                break;
            } else {
                o.push(c);
            }
            rest = i + c.len_utf8();
            if c == '\\' {
                rest = it.clone().next().map(|(i, _)| i).unwrap_or(self.s.len());
            }
        }
        self.s = &self.s[rest..];
        o
    }

    fn indent(&mut self, ind: &mut Ind) -> Option<()> {
        let n = self.s.len() - self.s.trim_start_matches(' ').len();
        match *ind {
            Ind::Above(m) if n > m => (),
            Ind::Is(m) if n == m => (),
            _ => return None,
        }
        *ind = Ind::Is(n);
        self.s = &self.s[n..];
        Some(())
    }

    fn header(&mut self) -> Option<(String, Info)> {
        self.line_end();
        self.word_here("circuit")?;
        let name = self.ident()?;
        self.mark(":")?;
        let info = self.info();
        self.line_end()?;
        Some((name, info))
    }

    fn modules(&mut self) -> bool {
        let mut ind = Ind::Above(0);
        while !self.s.is_empty() {
            match self.module(&mut ind) {
                Some(m) => self.mods.push(m),
                None => return true,
            }
        }
        false
    }

    fn module(&mut self, ind: &mut Ind) -> Option<SModule> {
        self.env = Env::default();
        self.indent(ind)?;
        let ext = if self.word_here("module").is_some() {
            false
        } else {
            self.word_here("extmodule")?;
            true
        };
        let name = self.ident()?;
        self.mark(":")?;
        let info = self.info();
        self.line_end()?;
        let Ind::Is(n) = *ind else { unreachable!() };
        let mut ind = Ind::Above(n);
        let mut ports = Vec::new();
        while let Some(p) = attempt!(self, {
            let mut i = ind;
            self.indent(&mut i)?;
            let p = self.port()?;
            self.line_end()?;
            ind = i;
            Some(p)
        }) {
            self.env.declare(&p.name, port_sig(&p));
            ports.push(p);
        }
        let kind = if ext { self.ext_body(ind) } else { SKind::Reg(self.stmts(&mut ind)) };
        Some(SModule { name, info, ports, kind })
    }

    fn port(&mut self) -> Option<SPort> {
        let out = if self.word_here("input").is_some() {
            false
        } else {
            self.word_here("output")?;
            true
        };
        let name = self.ident()?;
        self.mark(":")?;
        let ty = self.ty()?;
        let info = self.info();
        Some(SPort { name, ty, out, info })
    }

    fn ext_body(&mut self, mut ind: Ind) -> SKind {
        let defname = attempt!(self, {
            let mut i = ind;
            self.indent(&mut i)?;
            self.word_here("defname")?;
            self.mark("=")?;
            let n = self.ident()?;
            self.line_end()?;
            ind = i;
            Some(n)
        });
        let mut params = BTreeMap::new();
        while let Some((k, v)) = attempt!(self, {
            let mut i = ind;
            self.indent(&mut i)?;
            self.word_here("parameter")?;
            let k = self.ident()?;
            self.mark("=")?;
            self.blank();
            let v = self.param()?;
            self.line_end()?;
            ind = i;
            Some((k, v))
        }) {
            params.insert(k, v);
        }
        SKind::Ext { defname, params }
    }

    fn param(&mut self) -> Option<SParam> {
        if let Some(v) = attempt!(self, self.float()) {
            return Some(SParam::Double(v.to_bits()));
        }
        if let Some(v) = self.number() {
            return Some(SParam::Int(v));
        }
        let q = self.peek().filter(|c| *c == '"' || *c == '\'')?;
        self.s = &self.s[1..];
        let t = self.quoted(if q == '"' { "\n\t\"" } else { "\n\t'" });
        self.here(if q == '"' { "\"" } else { "'" })?;
        Some(SParam::Str(t))
    }

    fn float(&mut self) -> Option<f64> {
        let start = self.s;
        self.sign();
        self.take(char::is_numeric);
        self.here(".")?;
        self.take(char::is_numeric);
        if self.here("E").is_some() {
            self.sign();
            self.take(char::is_numeric);
        }
        start[..start.len() - self.s.len()].parse().ok()
    }

    // ---- types

    fn width(&mut self) -> Option<u16> {
        attempt!(self, {
            self.mark("<")?;
            let w = self.number()?;
            self.here(">")?;
            Some(w)
        })
    }

    fn ty(&mut self) -> Option<SType> {
        self.blank();
        self.ty_here()
    }

    fn ty_here(&mut self) -> Option<SType> {
        let mut t = if self.here("{").is_some() {
            let mut fields = Vec::new();
            if let Some(f) = attempt!(self, self.field()) {
                fields.push(f);
                while let Some(f) = attempt!(self, { self.mark(",")?; self.field() }) {
                    fields.push(f);
                }
            }
            self.mark("}")?;
            SType::Bundle(fields)
        } else {
            self.ground()?
        };
        while let Some(n) = attempt!(self, {
            self.mark("[")?;
            let n = self.num()?;
            self.mark("]")?;
            Some(n)
        }) {
            t = SType::Vec(Box::new(t), n);
        }
        Some(t)
    }

    fn field(&mut self) -> Option<SField> {
        self.blank();
        let flip = attempt!(self, {
            self.word_here("flip")?;
            if self.s.trim_start_matches([' ', '\t']).starts_with(':') { None } else { Some(()) }
        }).is_some();
        self.blank();
        let name = self.name_here()?;
        self.mark(":")?;
        Some(SField { name, flip, ty: self.ty()? })
    }

    fn ground(&mut self) -> Option<SType> {
        Some(if self.word_here("UInt").is_some() {
            SType::UInt(self.width())
        } else if self.word_here("SInt").is_some() {
            SType::SInt(self.width())
        } else if self.word_here("Fixed").is_some() {
            let w = self.width();
            let p = attempt!(self, {
                self.mark("<<")?;
                let p = self.number()?;
                self.here(">>")?;
                Some(p)
            });
            SType::Fixed(w, p)
        } else if self.word_here("Clock").is_some() {
            SType::Clock
        } else if self.word_here("Reset").is_some() {
            SType::Reset
        } else if self.word_here("AsyncReset").is_some() {
            SType::AsyncReset
        } else if self.word_here("Analog").is_some() {
            SType::Analog(self.width())
        } else {
            return None;
        })
    }

    // ---- expressions

    fn expr(&mut self) -> Option<SExpr> {
        self.blank();
        self.expr_here()
    }

    fn radix<T: Num + std::str::FromStr>(&mut self) -> Option<T> {
        self.blank();
        if let Some(v) = self.number() {
            return Some(v);
        }
        self.here("\"")?;
        let r = match self.peek()? {
            'b' => 2,
            'o' => 8,
            'h' => 16,
            _ => return None,
        };
        self.s = &self.s[1..];
        let start = self.s;
        self.sign();
        if self.take(|c| c.is_ascii_alphanumeric()).is_empty() {
            return None;
        }
        let text = &start[..start.len() - self.s.len()];
        self.here("\"")?;
        T::from_str_radix(text, r).ok()
    }

    fn literal(&mut self) -> Option<SExpr> {
        if self.word_here("UInt").is_some() {
            let w = self.width();
            self.mark("(")?;
            let v: BigUint = self.radix()?;
            self.mark(")")?;
            let w = match w {
                Some(w) => w,
                None => u16::try_from(v.bits()).ok()?,
            };
            Some(SExpr::U(v, w))
        } else {
            self.word_here("SInt")?;
            let w = self.width();
            self.mark("(")?;
            let v: BigInt = self.radix()?;
            self.mark(")")?;
            let w = match w {
                Some(w) => w,
                None => u16::try_from(v.bits() + 1).ok()?,
            };
            Some(SExpr::S(v, w))
        }
    }

    fn args(&mut self, n: usize) -> Option<Vec<SExpr>> {
        let mut v = Vec::new();
        for i in 0..n {
            if i > 0 {
                self.mark(",")?;
            }
            v.push(self.expr()?);
        }
        Some(v)
    }

    fn compound(&mut self) -> Option<SExpr> {
        let name = self.ident_here()?;
        self.mark("(")?;
        let e = match name.as_str() {
            "mux" => {
                let v = self.args(3)?;
                SExpr::Mux(Box::new(v.try_into().ok()?))
            }
            "validif" => {
                let v = self.args(2)?;
                SExpr::ValidIf(Box::new(v.try_into().ok()?))
            }
            n => {
                let (name, a, i, signed) = OPS.iter().copied().find(|o| o.0 == n)?;
                let args = self.args(a)?;
                let mut ints = Vec::new();
                for _ in 0..i {
                    self.mark(",")?;
                    ints.push(if signed { self.num::<i16>()? as i64 } else { self.num::<u16>()? as i64 });
                }
                SExpr::Op(name, args, ints)
            }
        };
        self.mark(")")?;
        Some(e)
    }

    fn expr_here(&mut self) -> Option<SExpr> {
        let mut e = attempt!(self, self.literal())
            .or_else(|| attempt!(self, self.compound()))
            .or_else(|| attempt!(self, {
                let n = self.ident_here()?;
                let t = self.env.ents.get(&n)?.clone();
                Some(SExpr::Ref(n, t))
            }))?;
        loop {
            if let Some(f) = attempt!(self, {
                self.mark(".")?;
                self.blank();
                self.name_here()
            }) {
                e = SExpr::Field(Box::new(e), f);
            } else if let Some(n) = attempt!(self, {
                self.mark("[")?;
                let n = self.num()?;
                self.mark("]")?;
                Some(n)
            }) {
                e = SExpr::Index(Box::new(e), n);
            } else if let Some(i) = attempt!(self, {
                self.mark("[")?;
                let i = self.expr()?;
                self.mark("]")?;
                Some(i)
            }) {
                e = SExpr::Access(Box::new(e), Box::new(i));
            } else {
                return Some(e);
            }
        }
    }

    // ---- statements

    fn stmts(&mut self, ind: &mut Ind) -> Vec<SStmt> {
        let mut v = Vec::new();
        while let Some(s) = attempt!(self, {
            let mut i = *ind;
            self.indent(&mut i)?;
            let s = self.stmt(i)?;
            *ind = i;
            Some(s)
        }) {
            v.push(s);
        }
        v
    }

    /// Statement whose indentation was consumed already
    fn stmt(&mut self, ind: Ind) -> Option<SStmt> {
        let simple: [fn(&mut Self) -> Option<SSk>; 11] = [
            Self::connect, Self::skip, Self::wire, Self::reg, Self::node, Self::mport, Self::inst,
            Self::simple_mem, Self::invalid, Self::attach, Self::stop,
        ];
        for f in simple {
            if let Some(s) = attempt!(self, {
                let kind = f(self)?;
                let info = self.info();
                self.line_end()?;
                Some(SStmt { kind, info })
            }) {
                declare(&s.kind, &mut self.env);
                return Some(s);
            }
        }
        if let Some(s) = attempt!(self, {
            let kind = self.printf()?;
            let info = self.info();
            self.line_end()?;
            Some(SStmt { kind, info })
        }) {
            return Some(s);
        }
        if let Some(s) = attempt!(self, self.mem(ind)) {
            declare(&s.kind, &mut self.env);
            return Some(s);
        }
        self.when(ind)
    }

    fn connect(&mut self) -> Option<SSk> {
        let to = self.expr_here()?;
        self.blank();
        if self.here("<=").is_some() {
            Some(SSk::Connect(to, self.expr()?))
        } else {
            self.here("<-")?;
            Some(SSk::Partial(to, self.expr()?))
        }
    }

    fn skip(&mut self) -> Option<SSk> {
        self.word_here("skip")?;
        Some(SSk::Skip)
    }

    fn wire(&mut self) -> Option<SSk> {
        self.word_here("wire")?;
        let n = self.ident()?;
        self.mark(":")?;
        Some(SSk::Wire(n, self.ty()?))
    }

    fn reg(&mut self) -> Option<SSk> {
        self.word_here("reg")?;
        let name = self.ident()?;
        self.mark(":")?;
        let ty = self.ty()?;
        self.mark(",")?;
        let clk = self.expr()?;
        let reset = attempt!(self, {
            self.word("with")?;
            self.mark(":")?;
            self.mark("(")?;
            self.word("reset")?;
            self.mark("=>")?;
            self.mark("(")?;
            let s = self.expr()?;
            self.mark(",")?;
            let v = self.expr()?;
            self.mark(")")?;
            self.mark(")")?;
            Some((s, v))
        });
        Some(SSk::Reg { name, ty, clk, reset })
    }

    fn node(&mut self) -> Option<SSk> {
        self.word_here("node")?;
        let n = self.ident()?;
        self.mark("=")?;
        Some(SSk::Node(n, self.expr()?))
    }

    fn mport(&mut self) -> Option<SSk> {
        let dir = if self.word_here("read").is_some() {
            Some(Dir::Read)
        } else if self.word_here("write").is_some() {
            Some(Dir::Write)
        } else if self.word_here("rdwr").is_some() {
            Some(Dir::ReadWrite)
        } else {
            self.word_here("infer")?;
            None
        };
        self.word("mport")?;
        let name = self.ident()?;
        self.mark("=")?;
        let m = self.ident()?;
        let t = self.env.mems.get(&m)?.clone();
        self.mark("[")?;
        let addr = self.expr()?;
        self.mark("]")?;
        self.blank();
        let _ = self.here(",");
        let clk = self.expr()?;
        Some(SSk::MPort { name, mem: (m, t), dir, addr, clk })
    }

    fn inst(&mut self) -> Option<SSk> {
        self.word_here("inst")?;
        let name = self.ident()?;
        self.word("of")?;
        let m = self.ident()?;
        let i = self.mods.iter().rposition(|x| x.name == m)?;
        Some(SSk::Inst { name, module: (m, i) })
    }

    fn ruw(&mut self) -> Option<Ruw> {
        self.blank();
        [Ruw::Old, Ruw::New, Ruw::Undefined].into_iter().find(|r| self.word_here(r.kw()).is_some())
    }

    fn simple_mem(&mut self) -> Option<SSk> {
        let seq = if self.word_here("cmem").is_some() {
            false
        } else {
            self.word_here("smem")?;
            true
        };
        let name = self.ident()?;
        self.mark(":")?;
        let ty = self.ty()?;
        let seq = if seq {
            Some(attempt!(self, { self.mark(",")?; self.ruw() }))
        } else {
            None
        };
        Some(SSk::SimpleMem(SSimpleMem { name, ty, seq }))
    }

    fn invalid(&mut self) -> Option<SSk> {
        let e = self.expr_here()?;
        self.word("is")?;
        self.word("invalid")?;
        Some(SSk::Invalid(e))
    }

    fn attach(&mut self) -> Option<SSk> {
        self.word_here("attach")?;
        self.mark("(")?;
        let mut v = vec![self.expr()?];
        while let Some(e) = attempt!(self, { self.mark(",")?; self.expr() }) {
            v.push(e);
        }
        self.mark(")")?;
        Some(SSk::Attach(v))
    }

    fn special(&mut self, w: &str) -> Option<(SExpr, SExpr)> {
        self.word_here(w)?;
        self.mark("(")?;
        let clk = self.expr()?;
        self.mark(",")?;
        let cond = self.expr()?;
        self.mark(",")?;
        Some((clk, cond))
    }

    fn opt_name(&mut self) -> Option<String> {
        attempt!(self, { self.mark(":")?; self.ident() })
    }

    fn stop(&mut self) -> Option<SSk> {
        let (clk, cond) = self.special("stop")?;
        let code = self.num()?;
        self.mark(")")?;
        Some(SSk::Stop { name: self.opt_name(), clk, cond, code })
    }

    fn printf(&mut self) -> Option<SSk> {
        let (clk, cond) = self.special("printf")?;
        self.mark("\"")?;
        let mut parts: Vec<Result<String, char>> = Vec::new();
        loop {
            let c = self.peek()?;
            self.s = &self.s[c.len_utf8()..];
            let lit = match c {
                '"' => break,
                '\n' | '\t' => return None,
                '%' => {
                    let f = self.peek()?;
                    self.s = &self.s[f.len_utf8()..];
                    match f {
                        '%' => '%',
                        'b' | 'd' | 'x' | 'c' => { parts.push(Err(f)); continue }
                        _ => return None,
                    }
                }
                '\\' => {
                    let e = self.peek()?;
                    self.s = &self.s[e.len_utf8()..];
                    match e { 'n' => '\n', 't' => '\t', e => e }
                }
                c => c,
            };
            match parts.last_mut() {
                Some(Ok(s)) => s.push(lit),
                _ => parts.push(Ok(lit.to_string())),
            }
        }
        let mut msg = Vec::new();
        for p in parts {
            msg.push(match p {
                Ok(s) => Elem::Lit(s),
                Err(f) => {
                    self.mark(",")?;
                    Elem::Val(self.expr()?, f)
                }
            });
        }
        self.mark(")")?;
        Some(SSk::Print { name: self.opt_name(), clk, cond, msg })
    }

    fn mem(&mut self, ind: Ind) -> Option<SStmt> {
        self.word_here("mem")?;
        let name = self.ident()?;
        self.mark(":")?;
        let info = self.info();
        self.line_end()?;
        let Ind::Is(n) = ind else { unreachable!() };
        let mut ind = Ind::Above(n);
        let (mut ty, mut depth) = (None, None);
        let mut m = SMem {
            name, ty: SType::Clock, depth: 0, ports: Vec::new(), rl: 0, wl: 0, ruw: Ruw::Undefined,
        };
        enum E { Ty(SType), Depth(u64), Port(Dir, String), Rl(u16), Wl(u16), Ruw(Ruw) }
        while let Some(e) = attempt!(self, {
            let mut i = ind;
            self.indent(&mut i)?;
            let key = [
                "data-type", "depth", "reader", "writer", "readwriter", "read-latency", "write-latency",
                "read-under-write",
            ].into_iter().find(|k| self.word_here(k).is_some())?;
            self.word("=>")?;
            let e = match key {
                "data-type" => E::Ty(self.ty()?),
                "depth" => E::Depth(self.num()?),
                "reader" => E::Port(Dir::Read, self.ident()?),
                "writer" => E::Port(Dir::Write, self.ident()?),
                "readwriter" => E::Port(Dir::ReadWrite, self.ident()?),
                "read-latency" => E::Rl(self.num()?),
                "write-latency" => E::Wl(self.num()?),
                _ => E::Ruw(self.ruw()?),
            };
            self.line_end()?;
            ind = i;
            Some(e)
        }) {
            match e {
                E::Ty(t) => ty = Some(t),
                E::Depth(d) => depth = Some(d),
                E::Port(d, n) => m.ports.push((d, n)),
                E::Rl(v) => m.rl = v,
                E::Wl(v) => m.wl = v,
                E::Ruw(v) => m.ruw = v,
            }
        }
        m.ty = ty?;
        m.depth = depth?;
        Some(SStmt { kind: SSk::Mem(m), info })
    }

    fn when(&mut self, ind: Ind) -> Option<SStmt> {
        self.word_here("when")?;
        let cond = self.expr()?;
        self.mark(":")?;
        let info = self.info();
        self.line_end()?;
        let Ind::Is(n) = ind else { unreachable!() };
        let then = self.stmts(&mut Ind::Above(n));
        let mut els = Vec::new();
        let has_else = attempt!(self, {
            self.indent(&mut { ind })?;
            self.word_here("else")?;
            let s = self.s;
            let follows = self.mark(":").is_some() || { self.s = s; self.word("when").is_some() };
            self.s = s;
            if follows { Some(()) } else { None }
        }).is_some();
        if has_else {
            if attempt!(self, {
                self.mark(":")?;
                self.info();
                self.line_end()
            }).is_some() {
                els = self.stmts(&mut Ind::Above(n));
            } else {
                self.blank();
                els.push(self.when(ind)?);
            }
        }
        Some(SStmt { kind: SSk::When { cond, then, els }, info })
    }
}
