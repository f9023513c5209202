//! Reference printer
//!
//! Renders reference circuits as text the way the library's formatter or some
//! other tool might do it, and tells which line stands for what.

use num_bigint::{BigInt, Sign};

use crate::spec::*;
use crate::world::{below, chance, draw, pick, range, size};

/// Freedom in rendering
#[derive(Clone, Debug, Default)]
pub struct Style {
    /// Chance (in 16) for a deviation from the usual blanks
    pub blanks: u64,
    pub comments: u64,
    pub empty_lines: u64,
    /// 0: `\n`, 1: `\r\n`, 2: both
    pub crlf: u64,
    pub indents: bool,
    pub radix: bool,
    pub natural: bool,
    pub mem_order: bool,
    pub nested_else: bool,
    pub quotes: bool,
    pub escapes: bool,
    pub exponents: bool,
}

impl Style {
    pub fn plain() -> Self {
        Style::default()
    }

    pub fn draw() -> Self {
        Style {
            blanks: pick(&[0, 0, 1, 6]),
            comments: pick(&[0, 0, 2, 8]),
            empty_lines: pick(&[0, 0, 2, 8]),
            crlf: pick(&[0, 0, 1, 2]),
            indents: chance(1, 2),
            radix: chance(1, 2),
            natural: chance(1, 2),
            mem_order: chance(1, 2),
            nested_else: chance(1, 2),
            quotes: chance(1, 2),
            escapes: chance(1, 3),
            exponents: chance(1, 2),
        }
    }
}

/// Meaning of a line
#[derive(Clone, Debug)]
pub enum L {
    Circuit(String, Info),
    Module { ext: bool, name: String, info: Info },
    Port(SPort),
    Stmt(usize, SStmt),
    When(usize, SExpr, Info),
    ElseWhen(usize, SExpr, Info),
    Else(usize),
    Mem(usize, String, Info),
    Entry(Entry),
    Defname(String),
    Param(String, SParam),
}

#[derive(Clone, Debug)]
pub enum Entry {
    Ty(SType),
    Depth(u64),
    Port(Dir, String),
    Rl(u16),
    Wl(u16),
    Ruw(Ruw),
}

#[derive(Clone, Debug)]
pub struct Line {
    pub kind: L,
    pub start: usize,
    /// End of the line's payload (excludes blanks, comments and the line end)
    pub payload: usize,
    /// Position directly after the line end
    pub end: usize,
}

#[derive(Clone, Debug)]
pub struct Rendered {
    pub text: String,
    pub lines: Vec<Line>,
}

struct R {
    o: String,
    st: Style,
    lines: Vec<Line>,
    start: usize,
}

/// Render a circuit
pub fn render(c: &SCircuit, st: &Style) -> Rendered {
    let mut r = R { o: String::new(), st: st.clone(), lines: Vec::new(), start: 0 };
    r.fillers();
    r.begin(0);
    r.lit("circuit");
    r.sp1();
    r.lit(&c.name);
    r.sp0("");
    r.lit(":");
    r.info(&c.info);
    r.end(L::Circuit(c.name.clone(), c.info.clone()));
    let ind = r.deeper(0);
    for m in &c.mods {
        r.module(m, ind);
    }
    r.fillers();
    Rendered { text: r.o, lines: r.lines }
}

/// Render some modules without a circuit around them
pub fn render_modules(mods: &[SModule], st: &Style) -> Rendered {
    let mut r = R { o: String::new(), st: st.clone(), lines: Vec::new(), start: 0 };
    let ind = r.deeper(0);
    for m in mods {
        r.module(m, ind);
    }
    Rendered { text: r.o, lines: r.lines }
}

impl R {
    fn lit(&mut self, s: &str) {
        self.o.push_str(s);
    }

    fn odd_blanks(&mut self, min: usize) {
        let n = range(min, min + 2);
        for _ in 0..n {
            self.o.push(pick(&[' ', '\t']));
        }
    }

    /// Mandatory blanks
    fn sp1(&mut self) {
        if self.st.blanks > 0 && chance(self.st.blanks, 16) {
            self.odd_blanks(1)
        } else {
            self.o.push(' ')
        }
    }

    /// Optional blanks
    fn sp0(&mut self, usual: &str) {
        if self.st.blanks > 0 && chance(self.st.blanks, 16) {
            self.odd_blanks(0)
        } else {
            self.o.push_str(usual)
        }
    }

    fn comma(&mut self) {
        self.sp0("");
        self.lit(",");
        self.sp0(" ");
    }

    fn open(&mut self) {
        self.sp0("");
        self.lit("(");
        self.sp0("");
    }

    fn close(&mut self) {
        self.sp0("");
        self.lit(")");
    }

    fn deeper(&mut self, ind: usize) -> usize {
        if self.st.indents { ind + pick(&[2, 1, 3, 4, 8, 17]) } else { ind + 2 }
    }

    fn begin(&mut self, ind: usize) {
        self.start = self.o.len();
        for _ in 0..ind {
            self.o.push(' ');
        }
    }

    fn newline(&mut self) {
        let crlf = match self.st.crlf {
            0 => false,
            1 => true,
            _ => chance(1, 2),
        };
        self.o.push_str(if crlf { "\r\n" } else { "\n" });
    }

    fn comment(&mut self) {
        self.o.push(';');
        for _ in 0..size(6) {
            self.o.push_str(pick(&[" ", "a", ";", "\\", "\"", "]", "@[", "é", "circuit x:", "\t", "when a:", "漢"]));
        }
    }

    fn fillers(&mut self) {
        while self.st.empty_lines > 0 && chance(self.st.empty_lines, 16) {
            if chance(1, 2) {
                self.odd_blanks(0);
            }
            if chance(1, 2) {
                self.comment();
            }
            self.newline();
        }
    }

    fn end(&mut self, kind: L) {
        let payload = self.o.len();
        if self.st.blanks > 0 && chance(self.st.blanks, 32) {
            self.odd_blanks(0);
        }
        if self.st.comments > 0 && chance(self.st.comments, 16) {
            self.sp0(" ");
            self.comment();
        }
        self.newline();
        let end = self.o.len();
        self.lines.push(Line { kind, start: self.start, payload, end });
        self.fillers();
    }

    fn escaped(&mut self, s: &str, must: &str) {
        for c in s.chars() {
            if c == '\n' || c == '\t' {
                if chance(1, 2) {
                    self.o.push('\\');
                    self.o.push(c);
                } else {
                    self.o.push_str(if c == '\n' { "\\n" } else { "\\t" });
                }
            } else if c == '\\' || must.contains(c) || (self.st.escapes && c != 'n' && c != 't' && chance(1, 8)) {
                self.o.push('\\');
                self.o.push(c);
            } else {
                self.o.push(c);
            }
        }
    }

    fn info(&mut self, i: &Info) {
        if let Some(i) = i {
            self.sp0(" ");
            self.lit("@[");
            self.escaped(i, "]");
            self.lit("]");
        }
    }

    fn module(&mut self, m: &SModule, ind: usize) {
        let ext = matches!(m.kind, SKind::Ext { .. });
        self.begin(ind);
        self.lit(if ext { "extmodule" } else { "module" });
        self.sp1();
        self.lit(&m.name);
        self.sp0("");
        self.lit(":");
        self.info(&m.info);
        self.end(L::Module { ext, name: m.name.clone(), info: m.info.clone() });
        let ind = self.deeper(ind);
        for p in &m.ports {
            self.begin(ind);
            self.lit(if p.out { "output" } else { "input" });
            self.sp1();
            self.lit(&p.name);
            self.sp0("");
            self.lit(":");
            self.sp0(" ");
            self.ty(&p.ty);
            self.info(&p.info);
            self.end(L::Port(p.clone()));
        }
        match &m.kind {
            SKind::Reg(v) => self.stmts(v, ind, 0),
            SKind::Ext { defname, params } => {
                if let Some(d) = defname {
                    self.begin(ind);
                    self.lit("defname");
                    self.sp0(" ");
                    self.lit("=");
                    self.sp0(" ");
                    self.lit(d);
                    self.end(L::Defname(d.clone()));
                }
                let mut params: Vec<_> = params.iter().collect();
                if self.st.mem_order && params.len() > 1 {
                    let k = below(params.len());
                    params.rotate_left(k);
                }
                for (k, v) in params {
                    self.begin(ind);
                    self.lit("parameter");
                    self.sp1();
                    self.lit(k);
                    self.sp0(" ");
                    self.lit("=");
                    self.sp0(" ");
                    self.param(v);
                    self.end(L::Param(k.clone(), v.clone()));
                }
            }
        }
    }

    fn param(&mut self, v: &SParam) {
        match v {
            SParam::Int(v) => self.lit(&v.to_string()),
            SParam::Double(b) => {
                let v = f64::from_bits(*b);
                let mut t = if self.st.exponents && chance(1, 2) { format!("{v:E}") } else { format!("{v}") };
                if !t.contains('.') {
                    let at = t.find('E').unwrap_or(t.len());
                    t.insert_str(at, ".0");
                }
                self.lit(&t);
            }
            SParam::Str(s) => {
                let q = if self.st.quotes && chance(1, 2) { "'" } else { "\"" };
                self.lit(q);
                self.escaped(s, q);
                self.lit(q);
            }
        }
    }

    fn width(&mut self, w: &Option<u16>) {
        if let Some(w) = w {
            self.sp0("");
            self.lit(&format!("<{w}>"));
        }
    }

    fn ty(&mut self, t: &SType) {
        match t {
            SType::UInt(w) => { self.lit("UInt"); self.width(w) }
            SType::SInt(w) => { self.lit("SInt"); self.width(w) }
            SType::Fixed(w, p) => {
                self.lit("Fixed");
                self.width(w);
                if let Some(p) = p {
                    self.sp0("");
                    self.lit(&format!("<<{p}>>"));
                }
            }
            SType::Clock => self.lit("Clock"),
            SType::Reset => self.lit("Reset"),
            SType::AsyncReset => self.lit("AsyncReset"),
            SType::Analog(w) => { self.lit("Analog"); self.width(w) }
            SType::Vec(t, n) => {
                self.ty(t);
                self.subscript(&n.to_string());
            }
            SType::Bundle(f) => {
                self.lit("{");
                for (i, f) in f.iter().enumerate() {
                    if i > 0 { self.comma() } else { self.sp0("") }
                    if f.flip {
                        self.lit("flip");
                        self.sp1();
                    }
                    self.lit(&f.name);
                    self.sp0("");
                    self.lit(":");
                    self.sp0(" ");
                    self.ty(&f.ty);
                }
                self.sp0("");
                self.lit("}");
            }
        }
    }

    fn subscript(&mut self, n: &str) {
        self.sp0("");
        self.lit("[");
        self.sp0("");
        self.lit(n);
        self.sp0("");
        self.lit("]");
    }

    fn number(&mut self, v: &BigInt) {
        if self.st.radix && chance(1, 2) {
            let (c, r) = pick(&[('h', 16), ('o', 8), ('b', 2)]);
            let mut t = v.magnitude().to_str_radix(r);
            if chance(1, 2) {
                t = t.to_uppercase();
            }
            let s = if v.sign() == Sign::Minus { "-" } else { "" };
            self.lit(&format!("\"{c}{s}{t}\""));
        } else {
            self.lit(&v.to_string());
        }
    }

    fn literal(&mut self, kw: &str, w: u16, v: BigInt, natural: u64) {
        self.lit(kw);
        if !(self.st.natural && natural == w as u64 && chance(1, 2)) {
            self.width(&Some(w));
        }
        self.open();
        self.number(&v);
        self.close();
    }

    fn args(&mut self, name: &str, v: &[SExpr], ints: &[i64]) {
        self.lit(name);
        self.open();
        for (i, e) in v.iter().enumerate() {
            if i > 0 { self.comma() }
            self.expr(e);
        }
        for i in ints {
            self.comma();
            self.lit(&i.to_string());
        }
        self.close();
    }

    fn expr(&mut self, e: &SExpr) {
        match e {
            SExpr::U(v, w) => self.literal("UInt", *w, v.clone().into(), v.bits()),
            SExpr::S(v, w) => self.literal("SInt", *w, v.clone(), v.bits() + 1),
            SExpr::Ref(n, _) => self.lit(n),
            SExpr::Field(b, n) => {
                self.expr(b);
                self.sp0("");
                self.lit(".");
                self.sp0("");
                self.lit(n);
            }
            SExpr::Index(b, n) => {
                self.expr(b);
                self.subscript(&n.to_string());
            }
            SExpr::Access(b, i) => {
                self.expr(b);
                self.sp0("");
                self.lit("[");
                self.sp0("");
                self.expr(i);
                self.sp0("");
                self.lit("]");
            }
            SExpr::Mux(a) => self.args("mux", a.as_ref(), &[]),
            SExpr::ValidIf(a) => self.args("validif", a.as_ref(), &[]),
            SExpr::Op(n, a, i) => self.args(n, a, i),
        }
    }

    fn stmts(&mut self, v: &[SStmt], ind: usize, depth: usize) {
        for s in v {
            self.begin(ind);
            self.stmt(s, ind, depth);
        }
    }

    fn when(&mut self, s: &SStmt, ind: usize, depth: usize, is_else: bool) {
        let SSk::When { cond, then, els } = &s.kind else { unreachable!() };
        self.lit("when");
        self.sp1();
        self.expr(cond);
        self.sp0(" ");
        self.lit(":");
        self.info(&s.info);
        let (c, i) = (cond.clone(), s.info.clone());
        self.end(if is_else { L::ElseWhen(depth, c, i) } else { L::When(depth, c, i) });
        let sub = self.deeper(ind);
        self.stmts(then, sub, depth + 1);
        if els.is_empty() {
            return;
        }
        self.begin(ind);
        self.lit("else");
        if let [e] = els.as_slice() {
            if matches!(e.kind, SSk::When { .. }) && !(self.st.nested_else && chance(1, 2)) {
                self.sp1();
                self.when(e, ind, depth, true);
                return;
            }
        }
        self.sp0("");
        self.lit(":");
        self.end(L::Else(depth));
        let sub = self.deeper(ind);
        self.stmts(els, sub, depth + 1);
    }

    fn entry(&mut self, ind: usize, key: &str, value: impl FnOnce(&mut Self), e: Entry) {
        self.begin(ind);
        self.lit(key);
        self.sp0(" ");
        self.lit("=>");
        self.sp1();
        value(self);
        self.end(L::Entry(e));
    }

    fn mem(&mut self, m: &SMem, info: &Info, ind: usize, depth: usize) {
        self.lit("mem");
        self.sp1();
        self.lit(&m.name);
        self.sp0("");
        self.lit(":");
        self.info(info);
        self.end(L::Mem(depth, m.name.clone(), info.clone()));
        let ind = self.deeper(ind);
        let mut e = vec![Entry::Ty(m.ty.clone()), Entry::Depth(m.depth)];
        e.extend(m.ports.iter().map(|(d, n)| Entry::Port(*d, n.clone())));
        let short = self.st.mem_order && chance(1, 2);
        if !(short && m.rl == 0) { e.push(Entry::Rl(m.rl)) }
        if !(short && m.wl == 0) { e.push(Entry::Wl(m.wl)) }
        if !(short && m.ruw == Ruw::Undefined) { e.push(Entry::Ruw(m.ruw)) }
        if self.st.mem_order {
            // Any order will do, as long as the ports' order is kept
            let mut ports: Vec<_> = e.iter().filter(|e| matches!(e, Entry::Port(..))).cloned().collect();
            for i in (1..e.len()).rev() {
                let j = i - below(i + 1);
                e.swap(i, j);
            }
            ports.reverse();
            for x in e.iter_mut() {
                if matches!(x, Entry::Port(..)) {
                    *x = ports.pop().unwrap();
                }
            }
        }
        for x in e {
            match x.clone() {
                Entry::Ty(t) => self.entry(ind, "data-type", |r| r.ty(&t), x),
                Entry::Depth(d) => self.entry(ind, "depth", |r| r.lit(&d.to_string()), x),
                Entry::Port(d, n) => {
                    let k = match d { Dir::Read => "reader", Dir::Write => "writer", Dir::ReadWrite => "readwriter" };
                    self.entry(ind, k, |r| r.lit(&n), x)
                }
                Entry::Rl(v) => self.entry(ind, "read-latency", |r| r.lit(&v.to_string()), x),
                Entry::Wl(v) => self.entry(ind, "write-latency", |r| r.lit(&v.to_string()), x),
                Entry::Ruw(v) => self.entry(ind, "read-under-write", |r| r.lit(v.kw()), x),
            }
        }
    }

    fn opt_name(&mut self, n: &Option<String>) {
        if let Some(n) = n {
            self.sp0(" ");
            self.lit(":");
            self.sp0(" ");
            self.lit(n);
        }
    }

    fn stmt(&mut self, s: &SStmt, ind: usize, depth: usize) {
        match &s.kind {
            SSk::Connect(a, b) => { self.expr(a); self.sp0(" "); self.lit("<="); self.sp0(" "); self.expr(b) }
            SSk::Partial(a, b) => { self.expr(a); self.sp0(" "); self.lit("<-"); self.sp0(" "); self.expr(b) }
            SSk::Skip => self.lit("skip"),
            SSk::Wire(n, t) => {
                self.lit("wire");
                self.sp1();
                self.lit(n);
                self.sp0("");
                self.lit(":");
                self.sp0(" ");
                self.ty(t);
            }
            SSk::Reg { name, ty, clk, reset } => {
                self.lit("reg");
                self.sp1();
                self.lit(name);
                self.sp0("");
                self.lit(":");
                self.sp0(" ");
                self.ty(ty);
                self.comma();
                self.expr(clk);
                if let Some((a, b)) = reset {
                    self.sp1();
                    self.lit("with");
                    self.sp0("");
                    self.lit(":");
                    self.sp0(" ");
                    self.open();
                    self.lit("reset");
                    self.sp0(" ");
                    self.lit("=>");
                    self.sp0(" ");
                    self.open();
                    self.expr(a);
                    self.comma();
                    self.expr(b);
                    self.close();
                    self.close();
                }
            }
            SSk::Node(n, e) => {
                self.lit("node");
                self.sp1();
                self.lit(n);
                self.sp0(" ");
                self.lit("=");
                self.sp0(" ");
                self.expr(e);
            }
            SSk::Mem(m) => return self.mem(m, &s.info, ind, depth),
            SSk::SimpleMem(m) => {
                self.lit(if m.seq.is_some() { "smem" } else { "cmem" });
                self.sp1();
                self.lit(&m.name);
                self.sp0("");
                self.lit(":");
                self.sp0(" ");
                self.ty(&m.ty);
                if let Some(Some(r)) = m.seq {
                    self.comma();
                    self.lit(r.kw());
                }
            }
            SSk::MPort { name, mem, dir, addr, clk } => {
                self.lit(dir_kw(*dir));
                self.sp1();
                self.lit("mport");
                self.sp1();
                self.lit(name);
                self.sp0(" ");
                self.lit("=");
                self.sp0(" ");
                self.lit(&mem.0);
                self.sp0("");
                self.lit("[");
                self.sp0("");
                self.expr(addr);
                self.sp0("");
                self.lit("]");
                self.comma();
                self.expr(clk);
            }
            SSk::Inst { name, module } => {
                self.lit("inst");
                self.sp1();
                self.lit(name);
                self.sp1();
                self.lit("of");
                self.sp1();
                self.lit(&module.0);
            }
            SSk::Invalid(e) => {
                self.expr(e);
                self.sp1();
                self.lit("is");
                self.sp1();
                self.lit("invalid");
            }
            SSk::Attach(v) => self.args("attach", v, &[]),
            SSk::When { .. } => return self.when(s, ind, depth, false),
            SSk::Stop { name, clk, cond, code } => {
                self.lit("stop");
                self.open();
                self.expr(clk);
                self.comma();
                self.expr(cond);
                self.comma();
                self.lit(&code.to_string());
                self.close();
                self.opt_name(name);
            }
            SSk::Print { name, clk, cond, msg } => {
                self.lit("printf");
                self.open();
                self.expr(clk);
                self.comma();
                self.expr(cond);
                self.comma();
                self.lit("\"");
                for m in msg {
                    match m {
                        Elem::Lit(s) => self.format_literal(s),
                        Elem::Val(_, f) => { self.lit("%"); self.o.push(*f) }
                    }
                }
                self.lit("\"");
                for m in msg {
                    if let Elem::Val(e, _) = m {
                        self.comma();
                        self.expr(e);
                    }
                }
                self.close();
                self.opt_name(name);
            }
        }
        self.info(&s.info);
        self.end(L::Stmt(depth, s.clone()));
    }

    fn format_literal(&mut self, s: &str) {
        for c in s.chars() {
            match c {
                '%' => self.o.push_str("%%"),
                '\n' => self.o.push_str(if draw(2) == 0 { "\\n" } else { "\\\n" }),
                '\t' => self.o.push_str(if draw(2) == 0 { "\\t" } else { "\\\t" }),
                '\\' | '"' => { self.o.push('\\'); self.o.push(c) }
                c if self.st.escapes && c != 'n' && c != 't' && chance(1, 8) => { self.o.push('\\'); self.o.push(c) }
                c => self.o.push(c),
            }
        }
    }
}

// ------------------------------------------------------------- truncated text

/// What a text consisting of the given lines denotes
///
/// Returns name and info of the circuit and the modules, or `None` if the lines
/// end within a construct which cannot end there. The result is independent of
/// whether there is a top module.
pub fn assemble(lines: &[Line]) -> Option<(String, Info, Vec<SModule>)> {
    let mut it = lines.iter().map(|l| &l.kind).peekable();
    let Some(L::Circuit(name, info)) = it.next() else { return None };
    let mut mods: Vec<SModule> = Vec::new();
    while let Some(l) = it.next() {
        match l {
            L::Circuit(..) => return None,
            L::Module { ext, name, info } => mods.push(SModule {
                name: name.clone(),
                info: info.clone(),
                ports: Vec::new(),
                kind: if *ext { SKind::Ext { defname: None, params: Default::default() } } else { SKind::Reg(Vec::new()) },
            }),
            L::Port(p) => mods.last_mut()?.ports.push(p.clone()),
            L::Defname(d) => if let SKind::Ext { defname, .. } = &mut mods.last_mut()?.kind {
                *defname = Some(d.clone())
            },
            L::Param(k, v) => if let SKind::Ext { params, .. } = &mut mods.last_mut()?.kind {
                params.insert(k.clone(), v.clone());
            },
            L::Stmt(d, s) => block(mods.last_mut()?.stmts_mut()?, *d)?.push(s.clone()),
            L::When(d, c, i) => block(mods.last_mut()?.stmts_mut()?, *d)?.push(SStmt {
                kind: SSk::When { cond: c.clone(), then: Vec::new(), els: Vec::new() },
                info: i.clone(),
            }),
            L::Else(d) => {
                let b = block(mods.last_mut()?.stmts_mut()?, *d)?;
                let s = last_when(b.last_mut()?)?;
                // Statements go to the else branch from now on
                let SSk::When { els, .. } = &mut s.kind else { return None };
                els.push(SStmt { kind: SSk::Skip, info: MARK.map(str::to_string) });
            }
            L::ElseWhen(d, c, i) => {
                let b = block(mods.last_mut()?.stmts_mut()?, *d)?;
                let s = last_when(b.last_mut()?)?;
                let SSk::When { els, .. } = &mut s.kind else { return None };
                els.push(SStmt {
                    kind: SSk::When { cond: c.clone(), then: Vec::new(), els: Vec::new() },
                    info: i.clone(),
                });
                els.push(SStmt { kind: SSk::Skip, info: CHAIN.map(str::to_string) });
            }
            L::Mem(d, name, info) => {
                let (mut ty, mut depth) = (None, None);
                let mut m = SMem {
                    name: name.clone(), ty: SType::Clock, depth: 0, ports: Vec::new(), rl: 0, wl: 0,
                    ruw: Ruw::Undefined,
                };
                while let Some(L::Entry(e)) = it.peek() {
                    match e.clone() {
                        Entry::Ty(t) => ty = Some(t),
                        Entry::Depth(v) => depth = Some(v),
                        Entry::Port(d, n) => m.ports.push((d, n)),
                        Entry::Rl(v) => m.rl = v,
                        Entry::Wl(v) => m.wl = v,
                        Entry::Ruw(v) => m.ruw = v,
                    }
                    it.next();
                }
                m.ty = ty?;
                m.depth = depth?;
                block(mods.last_mut()?.stmts_mut()?, *d)?
                    .push(SStmt { kind: SSk::Mem(m), info: info.clone() });
            }
            L::Entry(_) => return None,
        }
    }
    mods.iter_mut().for_each(|m| if let Some(v) = m.stmts_mut() { unmark(v) });
    Some((name.clone(), info.clone(), mods))
}

/// Marks an else branch which statements are added to
const MARK: Option<&str> = Some("\u{1}mark");
/// Marks an else branch made up of another conditional
const CHAIN: Option<&str> = Some("\u{1}chain");

fn is_mark(s: Option<&SStmt>, m: Option<&str>) -> bool {
    s.is_some_and(|s| s.kind == SSk::Skip && s.info.as_deref() == m)
}

/// The last conditional of a chain
fn last_when(s: &mut SStmt) -> Option<&mut SStmt> {
    let chained = matches!(&s.kind, SSk::When { els, .. } if is_mark(els.last(), CHAIN));
    if !chained {
        return Some(s);
    }
    match &mut s.kind {
        SSk::When { els, .. } => last_when(&mut els[0]),
        _ => None,
    }
}

/// The innermost open block at the given depth
fn block(v: &mut Vec<SStmt>, depth: usize) -> Option<&mut Vec<SStmt>> {
    if depth == 0 {
        return Some(v);
    }
    let s = last_when(v.last_mut()?)?;
    match &mut s.kind {
        SSk::When { els, .. } if is_mark(els.first(), MARK) => block(els, depth - 1),
        SSk::When { then, .. } => block(then, depth - 1),
        _ => None,
    }
}

fn unmark(v: &mut Vec<SStmt>) {
    v.retain(|s| !is_mark(Some(s), MARK) && !is_mark(Some(s), CHAIN));
    for s in v {
        if let SSk::When { then, els, .. } = &mut s.kind {
            unmark(then);
            unmark(els);
        }
    }
}
