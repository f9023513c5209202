//! C07: A module consumer picks the first top module and reports source errors

use firrtl_ast::circuit::ModuleConsumer;
use firrtl_ast::info::WithInfo;
use firrtl_ast::module::Module;
use firrtl_ast::named::Named;

use super::*;
use crate::gen;
use crate::io::*;

pub static PROP: Prop = Prop {
    id: "C07",
    run,
    quick: 800_000,
    level: "exploration",
    rule: "A module consumer is put on top of a simulated source yielding modules (several of them with the top's name or a similar one), errors of various types, and premature ends followed by more items, and driven by a random history of requests (single items, adaptors of the standard library, the circuit so far, clones, finishing). Every answer and the number of items pulled from the source are compared to those of a model.",
    assumptions: &[],
    cases: &[],
};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Module(usize),
    Error(u64),
    /// The source claims to be at its end
    End,
}

/// Error types a source may have
pub trait SrcErr: Sized + Send + Into<ParseError> + 'static {
    fn make(id: u64) -> Self;
    /// Why this is not the error with the given number
    fn wrong(&self, id: u64) -> Option<String>;
    fn wrong_parse(e: &ParseError, id: u64) -> Option<String>;
    /// Clone a consumer, if possible for this type
    fn dup(_: &ModuleConsumer<Source<Self>, Self>) -> Option<ModuleConsumer<Source<Self>, Self>> { None }
}

fn fail(id: u64) -> Fail {
    match id % 3 {
        0 => Fail::Kind(KINDS[id as usize % KINDS.len()]),
        1 => Fail::Os(id as i32),
        _ => Fail::Custom(KINDS[id as usize % KINDS.len()], id),
    }
}

fn wrong_other(e: &ParseError, s: &str) -> Option<String> {
    match e {
        ParseError::Other(t) if t == s => None,
        e => Some(format!("{e:?} instead of {s:?}")),
    }
}

fn wrong_io(e: &ParseError, f: Fail) -> Option<String> {
    match e {
        ParseError::IO(e) => f.mismatch(e),
        e => Some(format!("{e:?} instead of an I/O error")),
    }
}

#[derive(Clone)]
pub struct MyErr(pub u64);
impl From<MyErr> for ParseError {
    fn from(e: MyErr) -> Self {
        callback(|| {
            ev("convert", e.0, 0);
            if e.0 % 2 == 0 { format!("my error {}", e.0).into() } else { fail(e.0).error().into() }
        })
    }
}
impl SrcErr for MyErr {
    fn dup(c: &ModuleConsumer<Source<Self>, Self>) -> Option<ModuleConsumer<Source<Self>, Self>> { Some(c.clone()) }
    fn make(id: u64) -> Self { MyErr(id) }
    fn wrong(&self, id: u64) -> Option<String> {
        (self.0 != id).then(|| format!("error {} instead of {id}", self.0))
    }
    fn wrong_parse(e: &ParseError, id: u64) -> Option<String> {
        if id % 2 == 0 { wrong_other(e, &format!("my error {id}")) } else { wrong_io(e, fail(id)) }
    }
}

impl SrcErr for std::io::Error {
    fn make(id: u64) -> Self { fail(id).error() }
    fn wrong(&self, id: u64) -> Option<String> { fail(id).mismatch(self) }
    fn wrong_parse(e: &ParseError, id: u64) -> Option<String> { wrong_io(e, fail(id)) }
}

impl SrcErr for String {
    fn dup(c: &ModuleConsumer<Source<Self>, Self>) -> Option<ModuleConsumer<Source<Self>, Self>> { Some(c.clone()) }
    fn make(id: u64) -> Self { format!("string {id}") }
    fn wrong(&self, id: u64) -> Option<String> {
        (*self != format!("string {id}")).then(|| format!("{self:?} instead of number {id}"))
    }
    fn wrong_parse(e: &ParseError, id: u64) -> Option<String> { wrong_other(e, &format!("string {id}")) }
}

impl SrcErr for ParseError {
    fn make(id: u64) -> Self { if id % 4 == 0 { ParseError::Other(String::new()) } else { MyErr(id).into() } }
    fn wrong(&self, id: u64) -> Option<String> { Self::wrong_parse(self, id) }
    fn wrong_parse(e: &ParseError, id: u64) -> Option<String> {
        if id % 4 == 0 { wrong_other(e, "") } else { MyErr::wrong_parse(e, id) }
    }
}

impl SrcErr for std::io::ErrorKind {
    fn dup(c: &ModuleConsumer<Source<Self>, Self>) -> Option<ModuleConsumer<Source<Self>, Self>> { Some(c.clone()) }
    fn make(id: u64) -> Self { KINDS[id as usize % KINDS.len()] }
    fn wrong(&self, id: u64) -> Option<String> {
        let k = Self::make(id);
        (*self != k).then(|| format!("{self:?} instead of {k:?}"))
    }
    fn wrong_parse(e: &ParseError, id: u64) -> Option<String> { wrong_io(e, Fail::Kind(Self::make(id))) }
}

/// The simulated source
pub struct Source<E> {
    pub mods: Arc<Vec<Arc<Module>>>,
    pub steps: Arc<Vec<Step>>,
    /// Items requested so far, of this very instance and those it was cloned from
    pub pulls: Shared<usize>,
    /// Such numbers of all clones
    pub family: Shared<Vec<Shared<usize>>>,
    pub sizes: bool,
    pub e: std::marker::PhantomData<fn() -> E>,
    pub live: Live,
}

impl<E> Clone for Source<E> {
    fn clone(&self) -> Self {
        callback(|| Source {
            mods: self.mods.clone(),
            steps: self.steps.clone(),
            family: self.family.clone(),
            pulls: {
                let p = Shared::new(*self.pulls.get());
                self.family.get().push(p.clone());
                p
            },
            sizes: self.sizes,
            e: self.e,
            live: Live::new(),
        })
    }
}

impl<E: SrcErr> Iterator for Source<E> {
    type Item = Result<Arc<Module>, E>;

    fn next(&mut self) -> Option<Self::Item> {
        callback(|| {
            let at = *self.pulls.get();
            *self.pulls.get() += 1;
            let s = self.steps.get(at).copied().unwrap_or(Step::End);
            ev("pull", at as u64, match s { Step::Module(i) => i as u64, Step::Error(_) => 1000, Step::End => 2000 });
            match s {
                Step::Module(i) => Some(Ok(self.mods[i].clone())),
                Step::Error(id) => {
                    count("fault_source_error");
                    Some(Err(E::make(id)))
                }
                Step::End => {
                    if at < self.steps.len() { count("fault_early_end") }
                    None
                }
            }
        })
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        callback(|| {
            if !self.sizes {
                return (0, None);
            }
            let at = *self.pulls.get();
            let left = self.steps.get(at..).unwrap_or(&[]);
            let n = left.iter().position(|s| *s == Step::End).unwrap_or(left.len());
            (n, Some(n))
        })
    }
}

struct Model {
    at: usize,
    top: Option<usize>,
}

impl Clone for Model {
    fn clone(&self) -> Self {
        Model { at: self.at, top: self.top }
    }
}

struct Case {
    steps: Arc<Vec<Step>>,
    names: Vec<String>,
    mods: Arc<Vec<Arc<Module>>>,
    top: String,
    info: Option<String>,
}

impl Case {
    fn step(&self, m: &mut Model) -> Step {
        let s = self.steps.get(m.at).copied().unwrap_or(Step::End);
        m.at += 1;
        if let Step::Module(i) = s {
            if m.top.is_none() && self.names[i] == self.top { m.top = Some(i) }
        }
        s
    }

    fn item<E: SrcErr>(&self, want: Step, got: &Option<Result<Arc<Module>, E>>) -> Res {
        match (want, got) {
            (Step::Module(i), Some(Ok(m))) => {
                ensure!(Arc::ptr_eq(m, &self.mods[i]), "item", "the consumer yielded something else than the source's module {} ({})", i, self.names[i]);
            }
            (Step::Error(id), Some(Err(e))) => if let Some(w) = e.wrong(id) {
                return viol("error item", w);
            },
            (Step::End, None) => (),
            (w, g) => return viol("item", format!("expected {w:?}, got {}", match g {
                None => "the end".to_string(),
                Some(Ok(m)) => format!("module {}", m.name_ref()),
                Some(Err(_)) => "an error".to_string(),
            })),
        }
        Ok(())
    }

    fn circuit(&self, top: usize, c: &Circuit, how: &str) -> Res {
        ensure!(Arc::ptr_eq(c.top_module(), &self.mods[top]), "wrong top module", "{how}: the top module is not the first one named {:?} (index {top})", self.top);
        ensure!(c.info() == self.info.as_deref(), "info", "{how}: info {:?} instead of {:?}", c.info(), self.info);
        Ok(())
    }

    /// Drive a consumer to some end
    fn drive<E: SrcErr>(&self, mut c: ModuleConsumer<Source<E>, E>, pulls: Shared<usize>, family: &Shared<Vec<Shared<usize>>>, mut m: Model, depth: usize) -> Res {
        let n = range(0, self.steps.len() + 3);
        for _ in 0..n {
            match draw(12) {
                0..=3 => {
                    let want = self.step(&mut m);
                    let got = lib(|| c.next());
                    self.item(want, &got)?;
                }
                4 | 5 => self.so_far(&c, &m)?,
                6 if depth > 0 => {
                    if let Some(copy) = lib(|| E::dup(&c)) {
                        count("clone");
                        let p = family.get().last().cloned();
                        let Some(p) = p else { return viol("clone", "the source was not cloned") };
                        self.so_far(&copy, &m)?;
                        self.drive(copy, p, family, m.clone(), depth - 1)?;
                    }
                }
                7 => {
                    count("nth");
                    let k = below(4);
                    let got = lib(|| c.nth(k));
                    let mut want = Step::End;
                    for _ in 0..=k {
                        want = self.step(&mut m);
                        if want == Step::End { break }
                    }
                    self.item(want, &got)?;
                }
                8 => {
                    count("take");
                    let k = below(4);
                    let got: Vec<_> = lib(|| c.by_ref().take(k).collect());
                    let mut i = 0;
                    loop {
                        if i == k {
                            ensure!(got.len() == k, "item", "take({k}) yielded {} items", got.len());
                            break;
                        }
                        let want = self.step(&mut m);
                        if want == Step::End {
                            ensure!(got.len() == i, "item", "{} instead of {i} items before the end", got.len());
                            break;
                        }
                        ensure!(i < got.len(), "item", "the consumer ended after {} items", got.len());
                        match (&want, &got[i]) {
                            (Step::Module(x), Ok(y)) => ensure!(Arc::ptr_eq(y, &self.mods[*x]), "item", "other module than the source's {x}"),
                            (Step::Error(id), Err(e)) => if let Some(w) = e.wrong(*id) { return viol("error item", w) },
                            _ => return viol("item", format!("expected {want:?}")),
                        }
                        i += 1;
                    }
                }
                9 => {
                    // Up to the first error
                    count("try_for_each");
                    let got = lib(|| c.try_for_each(|r| r.map(|_| ())));
                    let want = loop {
                        let s = self.step(&mut m);
                        if !matches!(s, Step::Module(_)) { break s }
                    };
                    match (want, got) {
                        (Step::Error(id), Err(e)) => if let Some(w) = e.wrong(id) { return viol("error item", w) },
                        (Step::End, Ok(())) => (),
                        (w, g) => return viol("item", format!("expected {w:?}, got {}", if g.is_ok() { "the end" } else { "an error" })),
                    }
                }
                10 => {
                    // All up to the end
                    count("fold");
                    let kind = draw(3);
                    let got = match kind {
                        0 => lib(|| c.by_ref().count()),
                        1 => lib(|| c.by_ref().fold(0, |n, _| n + 1)),
                        _ => { let mut n = 0; lib(|| c.by_ref().for_each(|_| n += 1)); n }
                    };
                    let mut want = 0;
                    while self.step(&mut m) != Step::End { want += 1 }
                    ensure!(got == want, "item", "{got} instead of {want} items up to the end");
                }
                _ => {
                    let (lo, hi) = lib(|| c.size_hint());
                    let left = self.steps.get(m.at..).unwrap_or(&[]);
                    let n = left.iter().position(|s| *s == Step::End).unwrap_or(left.len());
                    ensure!(lo <= n && hi.map(|h| h >= n).unwrap_or(true), "size hint", "({lo}, {hi:?}) for {n} items");
                }
            }
            self.pulled(&pulls, &m)?;
        }
        self.so_far(&c, &m)?;
        self.pulled(&pulls, &m)?;
        if chance(1, 8) {
            lib(|| drop(c));
            return self.pulled(&pulls, &m);
        }
        if chance(1, 5) {
            return self.consume(c, &pulls, m);
        }
        // Finish
        let got = lib(|| c.into_circuit());
        let had = m.top;
        let mut end = None;
        while m.top.is_none() && end.is_none() {
            match self.step(&mut m) {
                Step::Module(_) => (),
                s => end = Some(s),
            }
        }
        if had.is_none() { count("finished_by_searching") }
        match (m.top, end, got) {
            (Some(t), _, Ok(c)) => self.circuit(t, &c, "finishing")?,
            (None, Some(Step::Error(id)), Err(e)) => if let Some(w) = E::wrong_parse(&e, id) {
                return viol("source error", format!("finishing: {w}"));
            },
            (None, _, Err(ParseError::Other(s))) if s.contains("not found") => (),
            (None, end, Err(e)) => return viol("wrong error", format!("finishing led to {e:?}, the source ended with {end:?}")),
            (Some(t), _, Err(e)) => return viol("missed", format!("finishing led to {e:?} although module {t} matches")),
            (None, end, Ok(c)) => return viol("invented", format!("finishing led to a circuit of {} although there is none ({end:?})", c.top_module().name_ref())),
        }
        self.pulled(&pulls, &m)
    }

    /// Hand the consumer itself over to the standard library
    fn consume<E: SrcErr>(&self, c: ModuleConsumer<Source<E>, E>, pulls: &Shared<usize>, mut m: Model) -> Res {
        count("consumed");
        let mut want = Vec::new();
        let kind = draw(10);
        loop {
            let s = self.step(&mut m);
            if s == Step::End { break }
            want.push(s);
            // Some of these stop at the first error
            if kind >= 7 && matches!(s, Step::Error(_)) { break }
        }
        ev("consume", kind, 0);
        let number = |n: usize| -> Res {
            ensure!(n == want.len(), "item", "{n} instead of {} items up to the end", want.len());
            Ok(())
        };
        match kind {
            0 => number(lib(|| c.count()))?,
            1 => number(lib(|| c.fold(0, |n, _| n + 1)))?,
            2 => {
                let mut n = 0;
                lib(|| c.for_each(|_| n += 1));
                number(n)?;
            }
            3 => {
                let got = lib(|| c.last());
                self.item(want.last().copied().unwrap_or(Step::End), &got)?;
            }
            4 | 5 => {
                let got: Vec<_> = match kind {
                    4 => lib(|| c.collect()),
                    _ => {
                        let mut v = Vec::new();
                        lib(|| v.extend(c));
                        v
                    }
                };
                number(got.len())?;
                for (w, g) in want.iter().zip(got) { self.item(*w, &Some(g))? }
            }
            6 => {
                let (ok, bad): (Vec<_>, Vec<_>) = lib(|| c.partition(|r| r.is_ok()));
                let (wok, wbad): (Vec<Step>, Vec<Step>) = want.iter().partition(|s| matches!(s, Step::Module(_)));
                ensure!(ok.len() == wok.len() && bad.len() == wbad.len(), "item", "{} modules and {} errors instead of {} and {}", ok.len(), bad.len(), wok.len(), wbad.len());
                for (w, g) in wok.iter().zip(ok).chain(wbad.iter().zip(bad)) { self.item(*w, &Some(g))? }
            }
            _ => {
                // All the modules or the first error
                let got: Result<Vec<_>, E> = if kind == 9 { let mut c = c; lib(|| c.try_fold(Vec::new(), |mut v, r| r.map(|m| { v.push(m); v }))) } else { lib(|| c.collect()) };
                let error = match want.last() { Some(Step::Error(id)) => Some(*id), _ => None };
                match (got, error) {
                    (Ok(v), None) => {
                        number(v.len())?;
                        for (w, g) in want.iter().zip(v) { self.item::<E>(*w, &Some(Ok(g)))? }
                    }
                    (Err(e), Some(id)) => if let Some(w) = e.wrong(id) { return viol("error item", w) },
                    (g, w) => return viol("item", format!("expected error {w:?}, got one: {}", g.is_err())),
                }
            }
        }
        self.pulled(pulls, &m)
    }

    fn so_far<E: SrcErr>(&self, c: &ModuleConsumer<Source<E>, E>, m: &Model) -> Res {
        match (m.top, lib(|| c.circuit())) {
            (None, None) => Ok(()),
            (Some(t), Some(c)) => self.circuit(t, &c, "so far"),
            (Some(t), None) => viol("missed", format!("no circuit although module {t} was passed through")),
            (None, Some(c)) => viol("invented", format!("a circuit of {} before such a module was passed through", c.top_module().name_ref())),
        }
    }

    fn pulled(&self, pulls: &Shared<usize>, m: &Model) -> Res {
        let n = *pulls.get();
        ensure!(n == m.at, "pulls", "{n} items were requested from the source instead of {}", m.at);
        Ok(())
    }

    fn start<E: SrcErr>(&self) -> Res {
        let pulls = Shared::new(0);
        let family = Shared::new(Vec::new());
        let src = Source::<E> {
            mods: self.mods.clone(),
            steps: self.steps.clone(),
            pulls: pulls.clone(),
            family: family.clone(),
            sizes: draw(2) == 1,
            e: std::marker::PhantomData,
            live: Live::new(),
        };
        let (top, info) = (self.top.clone(), self.info.clone());
        let c = match (draw(2), &info) {
            (0, _) => lib(|| ModuleConsumer::new(top.as_str(), info, src)),
            (_, Some(i)) => { let i = i.clone(); lib(|| ModuleConsumer::new(top, i, src)) }
            _ => lib(|| ModuleConsumer::new(top, None, src)),
        };
        self.pulled(&pulls, &Model { at: 0, top: None })?;
        self.drive(c, pulls, &family, Model { at: 0, top: None }, 2)
    }
}

fn run() -> Res {
    let mut cfg = gen::small_cfg();
    cfg.dup_modules = true;
    cfg.mods = gen::few(&cfg, 5);
    cfg.stmts = 2;
    let mut spec = gen::circuit(&cfg);
    // Names alike
    let base = gen::ident(&cfg);
    let like = [
        base.clone(), format!("{base}_"), base.to_uppercase(), base[..base.char_indices().last().map(|x| x.0).unwrap_or(0)].to_string() + "x", format!("_{base}"),
    ];
    for m in spec.mods.iter_mut() {
        if draw(3) > 0 { m.name = pick(&like) }
    }
    let names: Vec<String> = spec.mods.iter().map(|m| m.name.clone()).collect();
    fix_names(&mut spec.mods);
    let top = if chance(1, 40) { String::new() } else if chance(1, 8) { pick(&like) } else { pick(&names) };
    let mods = lib(|| mk_modules(&SCircuit { name: names[0].clone(), info: None, mods: spec.mods.clone() }));
    let n = size(10);
    let mut steps = Vec::new();
    for _ in 0..n {
        steps.push(match draw(8) {
            0 => Step::End,
            1 | 2 => Step::Error(draw(100)),
            _ => Step::Module(below(mods.len())),
        });
    }
    let case = Case { steps: Arc::new(steps), names, mods: Arc::new(mods), top, info: gen::info(&cfg) };
    state(format!("{:?} {} {:?} {:?}", case.steps, case.top, case.names, case.info).as_bytes());
    note(|| format!("source {:?}, modules {:?}, top {:?}, info {:?}", case.steps, case.names, case.top, case.info));
    match draw(5) {
        0 => case.start::<MyErr>(),
        1 => case.start::<std::io::Error>(),
        2 => case.start::<String>(),
        3 => case.start::<std::io::ErrorKind>(),
        _ => case.start::<ParseError>(),
    }
}

/// Let instances have the names of the modules they refer to
pub fn fix_names(mods: &mut [SModule]) {
    let names: Vec<String> = mods.iter().map(|m| m.name.clone()).collect();
    fn go(v: &mut [SStmt], names: &[String]) {
        for s in v {
            match &mut s.kind {
                SSk::Inst { module, .. } => module.0 = names[module.1].clone(),
                SSk::When { then, els, .. } => { go(then, names); go(els, names) }
                _ => (),
            }
        }
    }
    for m in mods {
        if let Some(v) = m.stmts_mut() { go(v, &names) }
    }
}
