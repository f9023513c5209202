//! Generator for circuits
//!
//! Every choice comes from the world. Which features occur at all varies from
//! run to run ("swarm").

use std::collections::BTreeMap;

use num_bigint::{BigInt, BigUint, Sign};

use crate::spec::*;
use crate::world::{below, chance, count, draw, pick, range, size};

/// Features of the circuits of one run
#[derive(Clone, Debug)]
pub struct Cfg {
    pub mods: usize,
    pub stmts: usize,
    pub ports: usize,
    pub depth: usize,
    pub when_depth: usize,
    pub ty_depth: usize,
    /// Names beyond plain ASCII
    pub unicode: bool,
    pub keywords: bool,
    /// Redeclare names
    pub shadow: bool,
    pub infos: u64,
    pub nasty_strings: bool,
    pub big_literals: bool,
    pub extremes: bool,
    pub ext: u64,
    /// Statement kinds to choose from
    pub kinds: Vec<u8>,
    /// Let several modules have the same name
    pub dup_modules: bool,
    pub long: bool,
    /// As many statements as allowed
    pub full: bool,
    /// Something exceptionally large or deep, zero for nothing
    pub vast: u64,
}

pub fn cfg() -> Cfg {
    let mut kinds: Vec<u8> = (0..15).collect();
    if chance(1, 3) {
        // Only a few kinds of statements, plus declarations
        let n = range(1, 4);
        let chosen: Vec<u8> = (0..n).map(|_| below(15) as u8).collect();
        kinds = chosen.into_iter().chain([3]).collect();
    }
    let mut c = Cfg {
        mods: pick(&[1, 1, 2, 3, 4, 6]),
        stmts: pick(&[2, 1, 4, 6, 10, 16]),
        ports: pick(&[2, 0, 1, 4, 8]),
        depth: pick(&[1, 0, 2, 3, 4]),
        when_depth: pick(&[1, 0, 2, 3, 5]),
        ty_depth: pick(&[1, 0, 2, 3]),
        unicode: chance(1, 3),
        keywords: chance(1, 4),
        shadow: chance(1, 3),
        infos: pick(&[0, 1, 3, 7]),
        nasty_strings: chance(1, 2),
        big_literals: chance(1, 4),
        extremes: chance(1, 2),
        ext: pick(&[0, 1, 3]),
        kinds,
        dup_modules: false,
        long: chance(1, 40),
        full: false,
        vast: if chance(1, 120) { range(1, 10) as u64 } else { 0 },
    };
    match c.vast {
        0 => (),
        1..=3 => count("gen_vast_depth"),
        _ => count("gen_vast_size"),
    }
    vastly(&mut c);
    c
}

/// Make room for what is exceptional
pub fn vastly(c: &mut Cfg) {
    match c.vast {
        1 => { c.when_depth = c.when_depth.max(1); c.kinds.extend([12, 12]); }
        2 => c.kinds.extend([1, 5, 10]),
        3 => { c.ty_depth = c.ty_depth.max(1); c.kinds.extend([3, 6]); }
        4 => { c.stmts = range(50, 400); c.full = true; c.mods = c.mods.min(2); c.when_depth = c.when_depth.min(1); c.depth = c.depth.min(2); }
        5 => { c.mods = range(20, 100); c.stmts = c.stmts.min(3); c.depth = 0; c.ty_depth = 0; }
        6 => { c.ports = range(50, 300); c.ty_depth = 1; }
        9 => { c.depth = c.depth.min(1); c.kinds.extend([6, 11, 12, 14]); c.when_depth = c.when_depth.clamp(1, 2); }
        10 => { c.mods = range(20, 300); c.stmts = 3; c.ports = 1; c.depth = 0; c.ty_depth = 0; c.when_depth = 0; c.kinds.extend([9; 15]); }
        _ => (),
    }
}

/// A configuration for small circuits
pub fn small_cfg() -> Cfg {
    let mut c = cfg();
    c.mods = c.mods.min(3);
    c.stmts = c.stmts.min(5);
    c.depth = c.depth.min(2);
    c.when_depth = c.when_depth.min(2);
    c.ports = c.ports.min(3);
    c.big_literals = false;
    c.long = false;
    if c.vast == 4 || c.vast == 5 { c.full = false }
    vastly(&mut c);
    c
}

/// The length of a list, which is usually short
fn listed(c: &Cfg, usual: usize) -> usize {
    if c.vast == 9 && chance(1, 6) { usual + pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257]) } else { usual }
}

const KEYWORDS: &[&str] = &[
    "circuit", "module", "extmodule", "input", "output", "inst", "of", "wire", "reg", "node", "mem",
    "smem", "cmem", "skip", "stop", "printf", "attach", "when", "else", "is", "invalid", "mux",
    "validif", "add", "bits", "tail", "UInt", "SInt", "Clock", "Fixed", "Analog", "Reset", "flip",
    "read", "write", "rdwr", "infer", "mport", "with", "reset", "defname", "parameter", "old", "new",
    "undefined", "data", "depth", "reader", "asUInt", "asFixed", "AsyncReset",
];

const UNI: &[&str] = &["é", "漢字", "Ωm", "ß9", "ñ_1", "𝔘x", "a²", "ǅ", "жук", "x٣", "ﬁ$", "İ"];

const ALNUM: &[u8] = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_$0123456789";

/// If not zero, identifiers and strings are made unique by this number
pub static SALT: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn salted(mut s: String) -> String {
    let n = SALT.load(std::sync::atomic::Ordering::Relaxed);
    if n != 0 { s.push_str(&format!("q{n:07x}")) }
    s
}

pub fn ident(c: &Cfg) -> String {
    salted(plain_ident(c))
}

fn plain_ident(c: &Cfg) -> String {
    if c.vast == 7 && chance(1, 4) {
        let k = pick(&[255usize, 256, 1000, 4096, 20_000]) + below(3);
        return pick(&["n", "ab_", "é", "漢"]).chars().cycle().take(k).collect();
    }
    match draw(12) {
        0..=5 => ((b'a' + below(8) as u8) as char).to_string(),
        6 => format!("{}{}", pick(&["a", "io", "_T", "_GEN", "x$", "$"]), below(20)),
        7 if c.keywords => pick(KEYWORDS).to_string(),
        8 if c.unicode => pick(UNI).to_string(),
        9 if c.unicode => format!("{}{}", pick(UNI), pick(UNI)),
        10 if c.long => "n".repeat(range(1, 300)),
        _ => {
            let mut s = String::new();
            s.push(ALNUM[below(54)] as char);
            for _ in 0..size(9) {
                s.push(ALNUM[below(ALNUM.len())] as char);
            }
            s
        }
    }
}

/// Field names may start with a digit
pub fn field(c: &Cfg) -> String {
    if chance(1, 6) {
        format!("{}{}", below(12), pick(&["", "x", "_"]))
    } else {
        ident(c)
    }
}

const NASTY: &[&str] = &[
    "\\", "]", "[", "\"", "'", "\n", "\t", "%", "%%", "%d", "\\n", "\\t", ";", "@[", "\r", "\r\n", " ",
    "  ", "\\\\", "\\]", "é", "漢", "😀", "\u{0}", "\u{7f}", "\u{a0}", "\u{2028}", "\u{feff}", ":", "<=", "n", "t", "{", "}", "\\\n", "\\\"",
];

pub fn text(c: &Cfg, min: usize) -> String {
    if c.vast == 8 && chance(1, 4) {
        let k = pick(&[255usize, 256, 1000, 4096, 65536, 70_000]) + below(3);
        let mut s: String = pick(&["n", "a b ", "é", "漢]", "\\", "%", "'\""]).chars().cycle().take(k).collect();
        // Something special at some place
        let at = s.char_indices().nth(below(k)).unwrap().0;
        s.insert_str(at, pick(NASTY));
        return salted(s);
    }
    let n = range(min, min + 1) + size(6);
    let mut s = String::new();
    for _ in 0..n {
        if c.nasty_strings && chance(1, 2) {
            s.push_str(pick(NASTY));
        } else {
            s.push_str(pick(&["a", "b", "Top.scala", " ", "1", "12:3", "x"]));
        }
    }
    if c.long && chance(1, 4) {
        let k = pick(&[1usize, 50, 500, 5000]);
        s = s.repeat(k);
        s.truncate(s.char_indices().map(|(i, _)| i).take_while(|i| *i < 20000).last().unwrap_or(0));
        if s.len() < min { s.push('a') }
    }
    if s.is_empty() && min > 0 {
        s.push('a');
    }
    if s.is_empty() { s } else { salted(s) }
}

pub fn info(c: &Cfg) -> Info {
    if c.infos > 0 && chance(c.infos, 10) {
        count("gen_info");
        Some(text(c, 0))
    } else {
        None
    }
}

fn u16v(c: &Cfg) -> u16 {
    match draw(6) {
        0..=2 => below(9) as u16,
        3 => below(65) as u16,
        4 if c.extremes => pick(&[u16::MAX, u16::MAX - 1, 0, 255, 256, 32767, 32768]),
        _ => draw(65536) as u16,
    }
}

fn i16v(c: &Cfg) -> i16 {
    match draw(5) {
        0..=1 => below(9) as i16,
        2 => -(below(9) as i16),
        3 if c.extremes => pick(&[i16::MIN, i16::MAX, -1, 0]),
        _ => draw(65536) as u16 as i16,
    }
}

fn i64v(c: &Cfg) -> i64 {
    match draw(5) {
        0..=1 => below(10) as i64,
        2 => -(below(200) as i64),
        3 if c.extremes => pick(&[i64::MIN, i64::MAX, i64::MIN + 1, u32::MAX as i64, 1 << 53, -(1 << 31)]),
        _ => (draw(1 << 32) << 32 | draw(1 << 32)) as i64,
    }
}

fn width(c: &Cfg) -> Option<u16> {
    if chance(3, 4) { Some(u16v(c)) } else { None }
}

pub fn stype(c: &Cfg, depth: usize) -> SType {
    if c.vast == 3 && depth == c.ty_depth && chance(1, 4) {
        let mut t = stype(c, 0);
        for _ in 0..range(10, 150) {
            t = match draw(3) {
                0 => SType::Vec(Box::new(t), u16v(c)),
                1 => SType::Bundle(vec![SField { name: field(c), flip: chance(1, 3), ty: t }]),
                _ => {
                    let mut v = vec![SField { name: field(c), flip: chance(1, 3), ty: t }];
                    let other = SField { name: "other".into(), flip: chance(1, 3), ty: stype(c, 0) };
                    if draw(2) == 0 { v.push(other) } else { v.insert(0, other) }
                    SType::Bundle(v)
                }
            };
        }
        return t;
    }
    if c.vast == 6 && depth == c.ty_depth && chance(1, 8) {
        return SType::Bundle((0..range(20, 300)).map(|i| SField { name: format!("f{i}"), flip: chance(1, 3), ty: stype(c, 0) }).collect());
    }
    if depth > 0 && chance(1, 2) {
        if chance(1, 2) {
            let n = size(4);
            SType::Bundle((0..n).map(|_| SField {
                name: field(c),
                flip: chance(1, 3),
                ty: stype(c, depth - 1),
            }).collect())
        } else {
            SType::Vec(Box::new(stype(c, depth - 1)), u16v(c))
        }
    } else {
        match draw(10) {
            0..=3 => SType::UInt(width(c)),
            4 => SType::SInt(width(c)),
            5 => SType::Clock,
            6 => SType::Reset,
            7 => SType::AsyncReset,
            8 => {
                let w = width(c);
                SType::Fixed(w, if chance(2, 3) { Some(i16v(c)) } else { None })
            }
            _ => SType::Analog(width(c)),
        }
    }
}

/// Names in scope
///
/// All scopes of a module hand over their items in the end, i.e. the latest
/// declaration counts.
#[derive(Clone, Debug, Default)]
pub struct Env {
    pub ents: BTreeMap<String, Target>,
    pub mems: BTreeMap<String, Target>,
    pub next_ent: usize,
    pub next_mem: usize,
    /// Some declarations made so far
    pub decls: Vec<SSk>,
}

impl Env {
    pub fn declare(&mut self, name: &str, sig: u64) -> Target {
        let t = Target { id: self.next_ent, sig };
        self.next_ent += 1;
        self.ents.insert(name.to_string(), t.clone());
        t
    }

    pub fn declare_mem(&mut self, name: &str, sig: u64) -> Target {
        let t = Target { id: self.next_mem, sig };
        self.next_mem += 1;
        self.mems.insert(name.to_string(), t.clone());
        t
    }
}

fn nat_bits(v: &BigUint) -> u64 { v.bits() }

fn uint(c: &Cfg) -> SExpr {
    let v = match draw(5) {
        0..=2 => BigUint::from(below(20) as u64),
        3 if c.big_literals => {
            let n = range(1, pick(&[2, 8, 40, 300]));
            BigUint::from_bytes_le(&(0..n).map(|_| draw(256) as u8).collect::<Vec<_>>())
        }
        _ => BigUint::from(draw(1 << 32)) << below(40),
    };
    let w = if chance(1, 3) { u16v(c) } else { nat_bits(&v) as u16 };
    SExpr::U(v, w)
}

fn sint(c: &Cfg) -> SExpr {
    let SExpr::U(v, _) = uint(c) else { unreachable!() };
    let neg = chance(1, 2);
    let v = BigInt::from_biguint(if neg { Sign::Minus } else { Sign::Plus }, v);
    let w = if chance(1, 3) { u16v(c) } else { v.bits() as u16 + 1 };
    SExpr::S(v, w)
}

pub fn reference(c: &Cfg, env: &Env) -> SExpr {
    if env.ents.is_empty() {
        uint(c)
    } else {
        let i = below(env.ents.len());
        let (n, t) = env.ents.iter().nth(i).unwrap();
        SExpr::Ref(n.clone(), t.clone())
    }
}

pub fn sexpr(c: &Cfg, env: &Env, depth: usize) -> SExpr {
    if depth == 0 {
        return match draw(8) {
            0..=4 => reference(c, env),
            5 | 6 => uint(c),
            _ => sint(c),
        };
    }
    let d = depth - 1;
    match draw(12) {
        0..=2 => sexpr(c, env, 0),
        3 => SExpr::Field(Box::new(sexpr(c, env, d)), field(c)),
        4 => SExpr::Index(Box::new(sexpr(c, env, d)), u16v(c)),
        5 => {
            let b = sexpr(c, env, d);
            let i = sexpr(c, env, d);
            SExpr::Access(Box::new(b), Box::new(i))
        }
        6 => SExpr::Mux(Box::new([sexpr(c, env, d), sexpr(c, env, d), sexpr(c, env, d)])),
        7 => SExpr::ValidIf(Box::new([sexpr(c, env, d), sexpr(c, env, d)])),
        _ => {
            let (name, n, i, signed) = pick(OPS);
            let a = (0..n).map(|_| sexpr(c, env, d)).collect();
            let i = (0..i).map(|_| if signed { i16v(c) as i64 } else { u16v(c) as i64 }).collect();
            SExpr::Op(name, a, i)
        }
    }
}

/// An expression containing another one
fn wrapped(c: &Cfg, env: &Env, e: SExpr) -> SExpr {
    let o = || sexpr(c, env, 0);
    match draw(10) {
        0 => SExpr::Field(Box::new(e), field(c)),
        1 => SExpr::Index(Box::new(e), u16v(c)),
        2 => SExpr::Access(Box::new(e), Box::new(o())),
        3 => SExpr::Access(Box::new(o()), Box::new(e)),
        4 => {
            let mut v = [o(), o(), o()];
            v[below(3)] = e;
            SExpr::Mux(Box::new(v))
        }
        5 => SExpr::ValidIf(Box::new(if draw(2) == 0 { [e, o()] } else { [o(), e] })),
        _ => {
            let (name, n, i, signed) = pick(OPS);
            let at = below(n);
            let mut e = Some(e);
            let a = (0..n).map(|k| if k == at { e.take().unwrap() } else { o() }).collect();
            let i = (0..i).map(|_| if signed { i16v(c) as i64 } else { u16v(c) as i64 }).collect();
            SExpr::Op(name, a, i)
        }
    }
}

fn dexpr(c: &Cfg, env: &Env) -> SExpr {
    let d = below(c.depth + 1);
    if c.vast == 2 && chance(1, 3) {
        let mut e = sexpr(c, env, 0);
        for _ in 0..range(10, 200) {
            e = wrapped(c, env, e);
        }
        return e;
    }
    if c.long && chance(1, 20) {
        // A deep but slim expression
        let mut e = reference(c, env);
        for _ in 0..range(5, 40) {
            e = match draw(4) {
                0 => SExpr::Op("not", vec![e], vec![]),
                1 => SExpr::Field(Box::new(e), field(c)),
                2 => SExpr::Index(Box::new(e), u16v(c)),
                _ => { let r = reference(c, env); SExpr::Access(Box::new(r), Box::new(e)) }
            };
        }
        return e;
    }
    sexpr(c, env, d)
}

fn new_name(c: &Cfg, env: &Env, taken: impl Fn(&Env, &str) -> bool) -> String {
    let mut n = ident(c);
    if !c.shadow {
        let mut k = 0;
        while taken(env, &n) {
            k += 1;
            n = format!("{n}{k}");
        }
    } else if taken(env, &n) {
        count("gen_shadowing");
    }
    n
}

pub fn ruw() -> Ruw { pick(&[Ruw::Undefined, Ruw::Old, Ruw::New]) }

pub fn stmt(c: &Cfg, env: &mut Env, mods: &[SModule], depth: usize) -> SStmt {
    let ent = |e: &Env, n: &str| e.ents.contains_key(n);
    let opt_name = || if chance(1, 3) { Some(ident(c)) } else { None };
    if c.shadow && !env.decls.is_empty() && chance(1, 10) {
        // The very same declaration, which nevertheless declares something else
        count("gen_declared_again");
        let mut kind = pick(&env.decls);
        retarget(&mut kind, env);
        declare(&kind, env);
        return SStmt { kind, info: info(c) };
    }
    let k = pick(&c.kinds);
    let kind = match k {
        0 => SSk::Skip,
        1 => { let t = dexpr(c, env); SSk::Connect(t, dexpr(c, env)) }
        2 => { let t = dexpr(c, env); SSk::Partial(t, dexpr(c, env)) }
        3 => SSk::Wire(new_name(c, env, ent), stype(c, c.ty_depth)),
        4 => {
            let name = new_name(c, env, ent);
            let ty = stype(c, c.ty_depth);
            let clk = dexpr(c, env);
            let reset = if chance(1, 2) { let a = dexpr(c, env); Some((a, dexpr(c, env))) } else { None };
            SSk::Reg { name, ty, clk, reset }
        }
        5 => SSk::Node(new_name(c, env, ent), dexpr(c, env)),
        6 => {
            let name = new_name(c, env, ent);
            let n = size(4);
            let n = listed(c, n);
            SSk::Mem(SMem {
                name,
                ty: stype(c, c.ty_depth),
                depth: if chance(1, 4) { pick(&[0, 1, u64::MAX, 1 << 32, 65536]) } else { draw(1 << 20) },
                ports: (0..n).map(|_| (pick(&[Dir::Read, Dir::Write, Dir::ReadWrite]), ident(c))).collect(),
                rl: u16v(c),
                wl: u16v(c),
                ruw: ruw(),
            })
        }
        7 => {
            let name = new_name(c, env, |e, n| e.mems.contains_key(n));
            let ty = stype(c, c.ty_depth);
            let seq = match draw(3) {
                0 => None,
                1 => Some(None),
                _ => Some(Some(ruw())),
            };
            SSk::SimpleMem(SSimpleMem { name, ty, seq })
        }
        8 if !env.mems.is_empty() => {
            let i = below(env.mems.len());
            let (m, t) = env.mems.iter().nth(i).map(|(m, t)| (m.clone(), t.clone())).unwrap();
            let name = new_name(c, env, ent);
            let addr = dexpr(c, env);
            SSk::MPort {
                name,
                mem: (m, t),
                dir: pick(&[Some(Dir::Read), Some(Dir::Write), Some(Dir::ReadWrite), None]),
                addr,
                clk: dexpr(c, env),
            }
        }
        9 if !mods.is_empty() => {
            // Towards the latest one, a long chain of modules
            let mut i = if c.vast == 10 && chance(7, 8) { mods.len() - 1 } else { below(mods.len()) };
            if c.dup_modules {
                // The latest module of that name is the one referred to
                while let Some(j) = (i + 1..mods.len()).find(|j| mods[*j].name == mods[i].name) {
                    i = j;
                }
            }
            SSk::Inst { name: new_name(c, env, ent), module: (mods[i].name.clone(), i) }
        }
        10 => SSk::Invalid(dexpr(c, env)),
        11 => { let n = range(1, 4); let n = listed(c, n); SSk::Attach((0..n).map(|_| dexpr(c, env)).collect()) }
        12 if depth > 0 && c.vast == 1 && depth == c.when_depth => {
            count("gen_when");
            return deep_when(c, env, mods, range(5, 80));
        }
        12 if depth > 0 => {
            let cond = dexpr(c, env);
            let info = info(c);
            let n = range(1, 3);
            let n = listed(c, n);
            let then = (0..n).map(|_| stmt(c, env, mods, depth - 1)).collect();
            let els = if chance(1, 2) {
                let n = range(1, 3);
                (0..n).map(|_| stmt(c, env, mods, depth - 1)).collect()
            } else {
                Vec::new()
            };
            count("gen_when");
            return SStmt { kind: SSk::When { cond, then, els }, info };
        }
        13 => {
            let clk = dexpr(c, env);
            let cond = dexpr(c, env);
            SSk::Stop { name: opt_name(), clk, cond, code: i64v(c) }
        }
        14 => {
            let clk = dexpr(c, env);
            let cond = dexpr(c, env);
            let mut msg: Vec<Elem> = Vec::new();
            let n = size(5);
            for _ in 0..listed(c, n) {
                if !matches!(msg.last(), Some(Elem::Lit(_))) && chance(1, 2) {
                    msg.push(Elem::Lit(text(c, 1)));
                } else {
                    msg.push(Elem::Val(dexpr(c, env), pick(&['d', 'x', 'b', 'c'])));
                }
            }
            SSk::Print { name: opt_name(), clk, cond, msg }
        }
        _ => SSk::Skip,
    };
    declare(&kind, env);
    if c.shadow && env.decls.len() < 24 && (kind.declares().is_some() || matches!(kind, SSk::SimpleMem(_))) {
        env.decls.push(kind.clone());
    }
    SStmt { kind, info: info(c) }
}

/// Let references refer to what is in scope now
fn retarget(k: &mut SSk, env: &Env) {
    fn go(e: &mut SExpr, env: &Env) {
        match e {
            SExpr::U(..) | SExpr::S(..) => (),
            SExpr::Ref(n, t) => if let Some(x) = env.ents.get(n) { *t = x.clone() },
            SExpr::Field(b, _) | SExpr::Index(b, _) => go(b, env),
            SExpr::Access(a, b) => { go(a, env); go(b, env) }
            SExpr::Mux(v) => v.iter_mut().for_each(|e| go(e, env)),
            SExpr::ValidIf(v) => v.iter_mut().for_each(|e| go(e, env)),
            SExpr::Op(_, v, _) => v.iter_mut().for_each(|e| go(e, env)),
        }
    }
    match k {
        SSk::Reg { clk, reset, .. } => {
            go(clk, env);
            if let Some((a, b)) = reset { go(a, env); go(b, env) }
        }
        SSk::Node(_, e) => go(e, env),
        SSk::MPort { mem, addr, clk, .. } => {
            if let Some(x) = env.mems.get(&mem.0) { mem.1 = x.clone() }
            go(addr, env);
            go(clk, env);
        }
        _ => (),
    }
}

/// Conditions nested deeply, but with few statements each
fn deep_when(c: &Cfg, env: &mut Env, mods: &[SModule], levels: usize) -> SStmt {
    let cond = dexpr(c, env);
    let info = info(c);
    let mut some = |env: &mut Env, inner: bool| {
        let mut v = Vec::new();
        if chance(1, 4) { v.push(stmt(c, env, mods, 0)) }
        if inner && levels > 0 { v.push(deep_when(c, env, mods, levels - 1)) }
        if v.is_empty() || chance(1, 4) { v.push(stmt(c, env, mods, 0)) }
        v
    };
    let mode = draw(4);
    let then = some(env, mode < 2);
    let els = match mode {
        0 => Vec::new(),
        1 => some(env, false),
        2 => some(env, true),
        // else when
        _ if levels > 0 => vec![deep_when(c, env, mods, levels - 1)],
        _ => Vec::new(),
    };
    SStmt { kind: SSk::When { cond, then, els }, info }
}

/// Add whatever a statement declares (on its own) to the environment
pub fn declare(kind: &SSk, env: &mut Env) {
    if let Some(n) = kind.declares() {
        env.declare(n, sig(kind));
    }
    if let SSk::SimpleMem(m) = kind {
        env.declare_mem(&m.name, sig(kind));
    }
}

pub fn param(c: &Cfg) -> SParam {
    match draw(4) {
        0 => SParam::Int(i64v(c)),
        1 => SParam::Str(text(c, 0)),
        2 => {
            let v = pick(&[0.5, 1.0, -0.0, 0.1, 1e300, 5e-324, f64::MAX, f64::MIN_POSITIVE, -123.456, 1e16, 1e15, 0.0, 9007199254740993.0]);
            SParam::Double(v.to_bits())
        }
        _ => {
            let v = f64::from_bits(draw(1 << 32) << 32 | draw(1 << 32));
            SParam::Double(if v.is_finite() { v } else { 2.5 }.to_bits())
        }
    }
}

pub fn module(c: &Cfg, name: String, mods: &[SModule], top: bool) -> SModule {
    let info_m = info(c);
    let mut ports: Vec<SPort> = Vec::new();
    let mut env = Env::default();
    for _ in 0..if c.vast == 6 { c.ports } else { size(c.ports) } {
        let name = new_name(c, &env, |e, n| e.ents.contains_key(n));
        let p = SPort { name, ty: stype(c, c.ty_depth), out: chance(1, 2), info: info(c) };
        env.declare(&p.name, port_sig(&p));
        ports.push(p);
    }
    let chained = c.vast == 10 && !mods.is_empty() && chance(999, 1000);
    let kind = if !chained && c.ext > 0 && !top && chance(c.ext, 6) {
        count("gen_extmodule");
        let defname = if chance(1, 2) { Some(ident(c)) } else { None };
        let n = size(if c.long { 40 } else { 5 });
        let n = listed(c, n);
        let params = (0..n).map(|_| { let k = ident(c); (k, param(c)) }).collect();
        SKind::Ext { defname, params }
    } else {
        let n = if c.long { c.stmts * 4 } else { c.stmts };
        let n = if c.full { n } else { size(n) };
        let mut stmts: Vec<SStmt> = (0..n).map(|_| stmt(c, &mut env, mods, c.when_depth)).collect();
        if chained {
            // One more link of the chain
            let i = mods.len() - 1;
            let kind = SSk::Inst { name: new_name(c, &env, |e, n| e.ents.contains_key(n)), module: (mods[i].name.clone(), i) };
            stmts.push(SStmt { kind, info: None });
        }
        SKind::Reg(stmts)
    };
    SModule { name, info: info_m, ports, kind }
}

pub fn circuit(c: &Cfg) -> SCircuit {
    let n = range(1, c.mods);
    let mut mods: Vec<SModule> = Vec::new();
    let info_c = info(c);
    for i in 0..n {
        let mut name = ident(c);
        if !c.dup_modules {
            let mut k = 0;
            while mods.iter().any(|m| m.name == name) {
                k += 1;
                name = format!("{name}{k}");
            }
        }
        let m = module(c, name, &mods, i + 1 == n && chance(3, 4));
        mods.push(m);
    }
    // Usually, the last module is the top module
    let top = if chance(1, 5) { below(mods.len()) } else { mods.len() - 1 };
    let top = mods.iter().position(|m| m.name == mods[top].name).unwrap();
    SCircuit { name: mods[top].name.clone(), info: info_c, mods }
}

impl SCircuit {
    /// Index of the top module, i.e. the first module with the right name
    pub fn top(&self) -> usize {
        self.mods.iter().position(|m| m.name == self.name).expect("circuit without top module")
    }
}

/// A number of modules, unless their number is what is exceptional
pub fn few(c: &Cfg, n: usize) -> usize {
    if c.vast == 5 || c.vast == 10 { c.mods } else { n }
}
