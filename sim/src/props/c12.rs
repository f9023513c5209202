//! C12: Scopes look up innermost first and hand over their items when they end

use std::collections::BTreeMap;
use std::rc::Rc;

use firrtl_ast::memory::simple::Memory as SimpleMem;
use firrtl_ast::module::{self, Module};
use firrtl_ast::named::Named;
use firrtl_ast::stmt::context::{Context, SubContext, TopContext};
use firrtl_ast::stmt::{Entity, Kind as StmtKind};

use super::*;
use crate::gen;
use crate::io::*;

pub static PROP: Prop = Prop {
    id: "C12",
    run,
    quick: 800_000,
    level: "exploration",
    rule: "A random history of additions, look-ups and nested scopes, which end by returning, being dropped, being moved away, or by a panic unwinding through one or several of them, on top of a toplevel context or one of the harness' own, whose source of modules changes its answers meanwhile; after each step, look-ups are compared (by address) to those of a model made of plain maps, and the calls reaching the harness' context to those expected.",
    assumptions: &[],
    cases: &[],
};

fn run() -> Res {
    history(Rc::new(|| ()))
}

/// Called whenever the library calls the harness
pub type Hook = Rc<dyn Fn()>;

#[derive(Clone, Default)]
struct Level {
    ents: BTreeMap<String, Arc<Entity>>,
    mems: BTreeMap<String, Arc<SimpleMem>>,
}

impl Level {
    fn add(&mut self, l: Level) {
        self.ents.extend(l.ents);
        self.mems.extend(l.mems);
    }
}

/// A context of the harness' own
struct Own {
    at: Level,
    adds: Shared<(u64, u64)>,
    mods: Source,
    hook: Hook,
    /// Mirror visible while the context is borrowed
    shadow: Shared<Level>,
}

impl Context for Own {
    fn entity(&self, name: &str) -> Option<Arc<Entity>> {
        callback(|| {
            ev("parent_entity", 0, 0);
            (self.hook)();
            self.at.ents.get(name).cloned()
        })
    }

    fn add_entity(&mut self, e: Arc<Entity>) {
        callback(|| {
            ev("parent_add_entity", 0, 0);
            if !std::thread::panicking() { (self.hook)() }
            self.adds.get().0 += 1;
            self.shadow.get().ents.insert(e.name().to_string(), e.clone());
            self.at.ents.insert(e.name().to_string(), e);
        })
    }

    fn memory(&self, name: &str) -> Option<Arc<SimpleMem>> {
        callback(|| {
            ev("parent_memory", 0, 0);
            (self.hook)();
            self.at.mems.get(name).cloned()
        })
    }

    fn add_memory(&mut self, m: Arc<SimpleMem>) {
        callback(|| {
            ev("parent_add_memory", 0, 0);
            if !std::thread::panicking() { (self.hook)() }
            self.adds.get().1 += 1;
            self.shadow.get().mems.insert(m.name().to_string(), m.clone());
            self.at.mems.insert(m.name().to_string(), m);
        })
    }

    fn module(&self, name: &str) -> Option<Arc<Module>> {
        callback(|| {
            (self.hook)();
            self.mods.answer(name)
        })
    }
}

/// Where modules come from. The answers change over time.
#[derive(Clone)]
struct Source {
    mods: Rc<Vec<Arc<Module>>>,
    /// Which module is known under which name
    known: Shared<BTreeMap<String, usize>>,
}

impl Source {
    fn answer(&self, name: &str) -> Option<Arc<Module>> {
        ev("parent_module", 0, 0);
        self.known.get().get(name).map(|i| self.mods[*i].clone())
    }
}

/// Everything a history deals with
struct Hist {
    names: Vec<String>,
    /// Scopes may have very many items
    many: bool,
    ents: Vec<Arc<Entity>>,
    mems: Vec<Arc<SimpleMem>>,
    src: Source,
    own: Option<(Shared<(u64, u64)>, Shared<Level>)>,
    model: Shared<Vec<Level>>,
    steps: Shared<usize>,
}

/// What unwinds through scopes
const UNWIND: u64 = 1 << 40;

impl Hist {
    fn see<T>(&self, f: impl FnOnce() -> T) -> Res<Option<T>> {
        match guard(|| lib(f))? {
            Ended::Value(v) => Ok(Some(v)),
            Ended::Injected(id) => {
                ensure!(id < UNWIND, "stray panic", "an unwinding of scopes surfaced in a look-up");
                count("hook_panicked");
                Ok(None)
            }
            Ended::Crash => viol("stray panic", "a crash surfaced in a look-up"),
        }
    }

    fn entity(&self, ctx: &dyn Context, name: &str) -> Res {
        let want = self.model.get().iter().rev().find_map(|l| l.ents.get(name));
        match (want, self.see(|| ctx.entity(name))?) {
            (_, None) | (None, Some(None)) => Ok(()),
            (Some(w), Some(Some(g))) if Arc::ptr_eq(w, &g) => Ok(()),
            (w, Some(g)) => viol("entity", format!("looking up {name:?} at depth {}: expected {}, got {}", self.model.get().len(),
                self.which(w), self.which(g.as_ref()))),
        }
    }

    fn which(&self, e: Option<&Arc<Entity>>) -> String {
        match e {
            None => "nothing".into(),
            Some(e) => match self.ents.iter().position(|x| Arc::ptr_eq(x, e)) {
                Some(i) => format!("object {i}"),
                None => "some unknown object".into(),
            },
        }
    }

    fn memory(&self, ctx: &dyn Context, name: &str) -> Res {
        let want = self.model.get().iter().rev().find_map(|l| l.mems.get(name));
        match (want, self.see(|| ctx.memory(name))?) {
            (_, None) | (None, Some(None)) => Ok(()),
            (Some(w), Some(Some(g))) if Arc::ptr_eq(w, &g) => Ok(()),
            (w, Some(g)) => {
                let pos = |m: Option<&Arc<SimpleMem>>| m.map(|m| self.mems.iter().position(|x| Arc::ptr_eq(x, m)));
                viol("memory", format!("looking up memory {name:?}: expected {:?}, got {:?}", pos(w), pos(g.as_ref())))
            }
        }
    }

    fn module(&self, ctx: &dyn Context, name: &str) -> Res {
        self.module_once(ctx, name)?;
        if draw(4) == 3 {
            // The source may change its mind while scopes are open
            count("source_changed");
            self.change_source(name);
            self.module_once(ctx, name)?;
        }
        Ok(())
    }

    /// Let the source of modules change its mind
    fn change_source(&self, name: &str) {
        let k = below(self.src.mods.len());
        if draw(3) == 0 { self.src.known.get().remove(name); } else { self.src.known.get().insert(name.to_string(), k); }
    }

    fn module_once(&self, ctx: &dyn Context, name: &str) -> Res {
        let want = self.src.known.get().get(name).map(|i| &self.src.mods[*i]);
        let got = self.see(|| ctx.module(name))?;
        match (want, got) {
            (_, None) => return Ok(()),
            (None, Some(None)) => (),
            (Some(w), Some(Some(g))) if Arc::ptr_eq(w, &g) => (),
            (w, Some(g)) => return viol("module", format!("looking up module {name:?}: expected one: {}, got one: {}", w.is_some(), g.is_some())),
        }
        Ok(())
    }

    fn look(&self, ctx: &dyn Context) -> Res {
        for n in &self.names {
            self.entity(ctx, n)?;
            self.memory(ctx, n)?;
        }
        self.module(ctx, &pick(&self.names))
    }

    fn top(&self) -> &mut Level {
        self.model.get().last_mut().expect("no scope")
    }

    fn add(&self, ctx: &mut dyn Context) -> Res {
        if draw(3) < 2 {
            let i = below(self.ents.len());
            ev("add_entity", i as u64, 0);
            let e = self.ents[i].clone();
            let r = self.see(|| ctx.add_entity(e.clone()))?;
            if r.is_some() || self.model.get().len() > 1 { self.top().ents.insert(e.name().to_string(), e); }
        } else {
            let i = below(self.mems.len());
            ev("add_memory", i as u64, 0);
            let m = self.mems[i].clone();
            let r = self.see(|| ctx.add_memory(m.clone()))?;
            if r.is_some() || self.model.get().len() > 1 { self.top().mems.insert(m.name().to_string(), m); }
        }
        Ok(())
    }

    /// Let all scopes above some depth be over
    fn close(&self, depth: usize) {
        let m = self.model.get();
        while m.len() > depth {
            let l = m.pop().unwrap();
            self.top().add(l);
        }
    }

    fn own_untouched(&self, what: &str, adds: (u64, u64)) -> Res {
        if let Some((a, _)) = &self.own {
            ensure!(*a.get() == adds, "enclosing scope", "{what}: {:?} additions reached the outermost scope instead of {adds:?}", a.get());
        }
        Ok(())
    }

    /// Do something within an open scope
    fn inside(&self, ctx: &mut SubContext<'_>, deep: usize) -> Res {
        if self.many && draw(2) == 1 {
            count("crowded_scope");
            for _ in 0..range(50, 400) { self.add(ctx)? }
        }
        let n = size(6);
        for _ in 0..n {
            if *self.steps.get() == 0 { break }
            *self.steps.get() -= 1;
            match draw(10) {
                0..=3 => self.add(ctx)?,
                4 | 5 => {
                    let name = pick(&self.names);
                    self.entity(ctx, &name)?;
                    self.memory(ctx, &name)?;
                }
                6 => self.module(ctx, &pick(&self.names))?,
                7 => self.look(ctx)?,
                _ if deep > 0 => {
                    self.scope(ctx, deep - 1)?;
                    self.look(ctx)?;
                }
                _ => (),
            }
        }
        Ok(())
    }

    /// A scope within some other
    fn scope(&self, parent: &mut SubContext<'_>, deep: usize) -> Res {
        let depth = self.model.get().len();
        let how = draw(5);
        ev("open", depth as u64, how);
        let r = guard(|| -> Res {
            let mut sub = if draw(2) == 0 { lib(|| SubContext::of(parent)) } else { lib(|| parent.sub()) };
            self.model.get().push(Level::default());
            self.inside(&mut sub, deep)?;
            self.end(sub, how)
        })?;
        self.ended(r, depth, how)
    }

    /// End a scope in some way
    fn end(&self, sub: SubContext<'_>, how: u64) -> Res {
        let adds = self.own.as_ref().map(|o| *o.0.get()).unwrap_or_default();
        match how {
            0 => lib(move || drop(sub)),
            1 => {
                let b = lib(|| Box::new(sub));
                lib(|| drop(b));
            }
            2 => {
                let mut v = lib(|| vec![sub]);
                lib(|| v.clear());
            }
            3 => {
                // Dropped while unwinding
                count("unwound");
                let levels = draw(3);
                let _sub = sub;
                let _lib = set_lib(true);
                inject_panic(UNWIND + levels);
            }
            _ => {
                // At the end of some function
                lib(|| {
                    let _sub = sub;
                });
            }
        }
        if self.model.get().len() > 2 {
            self.own_untouched("closing an inner scope", adds)?;
        }
        Ok(())
    }

    fn ended(&self, r: Ended<Res>, depth: usize, _how: u64) -> Res {
        set_lib(false);
        match r {
            Ended::Value(r) => {
                r?;
                ev("close", depth as u64, 0);
                self.close(depth);
            }
            Ended::Injected(id) if id >= UNWIND => {
                ev("unwind", depth as u64, id - UNWIND);
                self.close(depth);
                if id > UNWIND && depth > 1 {
                    inject_panic(id - 1);
                }
            }
            Ended::Injected(_) => {
                // The harness' context panicked while receiving items
                count("handover_panicked");
                ensure!(depth == 1 && self.own.is_some(), "stray panic", "a panic surfaced when closing an inner scope");
                self.partial()?;
            }
            Ended::Crash => return viol("stray panic", "a crash surfaced when closing a scope"),
        }
        Ok(())
    }

    /// Only some of the items made it to the outermost scope
    fn partial(&self) -> Res {
        let new = {
            let m = self.model.get();
            let mut l = Level::default();
            while m.len() > 1 {
                let mut x = m.pop().unwrap();
                x.add(std::mem::take(&mut l));
                l = x;
            }
            l
        };
        let now = self.own.as_ref().unwrap().1.get().clone();
        let old = self.top();
        for (n, e) in &now.ents {
            let ok = [new.ents.get(n), old.ents.get(n)].into_iter().flatten().any(|x| Arc::ptr_eq(x, e));
            ensure!(ok, "partial hand-over", "entity {n:?} is some other object");
        }
        for (n, e) in &now.mems {
            let ok = [new.mems.get(n), old.mems.get(n)].into_iter().flatten().any(|x| Arc::ptr_eq(x, e));
            ensure!(ok, "partial hand-over", "memory {n:?} is some other object");
        }
        for n in old.ents.keys() { ensure!(now.ents.contains_key(n), "partial hand-over", "entity {n:?} vanished") }
        for n in old.mems.keys() { ensure!(now.mems.contains_key(n), "partial hand-over", "memory {n:?} vanished") }
        *old = now;
        Ok(())
    }

    /// Scopes on top of the outermost one
    fn root<C: Context>(&self, ctx: &mut C) -> Res {
        let rounds = range(1, 4);
        for _ in 0..rounds {
            if draw(3) == 0 { self.add(ctx)? }
            if draw(3) == 0 {
                self.change_source(&pick(&self.names));
            }
            let adds = self.own.as_ref().map(|o| *o.0.get()).unwrap_or_default();
            let how = draw(5);
            ev("open", 1, how);
            let r = guard(|| -> Res {
                let mut sub = if draw(2) == 0 { lib(|| SubContext::of(ctx)) } else { lib(|| ctx.sub()) };
                self.model.get().push(Level::default());
                self.inside(&mut sub, 3)?;
                self.own_untouched("scope still open", adds)?;
                self.end(sub, how)
            })?;
            let clean = match &r {
                Ended::Value(_) => true,
                Ended::Injected(id) => *id >= UNWIND,
                Ended::Crash => false,
            };
            // Inner scopes are over by now
            let own = &self.model.get()[1];
            let items = (own.ents.len() as u64, own.mems.len() as u64);
            self.ended(r, 1, how)?;
            if clean {
                self.own_untouched("closing the scope", (adds.0 + items.0, adds.1 + items.1))?;
            }
            self.look(ctx)?;
        }
        Ok(())
    }
}

/// Some entities and memories, with names colliding
fn items(many: bool) -> (Vec<String>, Vec<Arc<Entity>>, Vec<Arc<SimpleMem>>, Vec<Arc<Module>>) {
    let mut cfg = gen::small_cfg();
    cfg.shadow = true;
    cfg.stmts = 5;
    let spec = gen::circuit(&cfg);
    let names: Vec<String> = (0..range(2, 5)).map(|i| if i == 0 { "a".into() } else { gen::ident(&cfg) }).collect();
    let mods = lib(|| mk_modules(&spec));
    let mut ents: Vec<Arc<Entity>> = Vec::new();
    let mut mems: Vec<Arc<SimpleMem>> = Vec::new();
    for m in &mods {
        m.ports().for_each(|p| ents.push(Arc::new(Entity::from(p.clone()))));
        for s in m.statements() {
            match s.kind() {
                StmtKind::Declaration(e) => ents.push(e.clone()),
                StmtKind::SimpleMemDecl(m) => mems.push(m.clone()),
                _ => (),
            }
        }
    }
    let n = if many { range(70, 500) } else { range(3, 6) };
    let names: Vec<String> = names.into_iter().chain((0..n.saturating_sub(6)).map(|i| format!("x{i}"))).collect();
    for i in 0..n {
        let n: &str = &names[i % names.len()];
        ents.push(lib(|| Arc::new(Entity::Wire { name: n.into(), r#type: firrtl_ast::types::GroundType::UInt(Some(i as u16)).into() })));
        let kind = firrtl_ast::memory::simple::Kind::Combinatory;
        let t = firrtl_ast::types::Type::Vector(Arc::new(firrtl_ast::types::GroundType::Clock.into()), i as u16);
        mems.push(lib(|| Arc::new(SimpleMem::new(n, t, kind))));
    }
    let p = lib(|| Arc::new(module::Port::new(names[0].as_str(), firrtl_ast::types::GroundType::Clock.into(), module::Direction::Input)));
    ents.push(lib(|| Arc::new(Entity::from(p))));
    let mut all = names;
    for e in &ents { all.push(e.name().to_string()) }
    for m in &mems { all.push(m.name().to_string()) }
    all.sort();
    all.dedup();
    all.push("nowhere".into());
    for _ in 0..draw(3) { all.push(super::c08::similar(&pick(&all))) }
    (all, ents, mems, mods)
}

/// One history of scopes. The hook may panic, but not with a payload of UNWIND or above.
pub fn history(hook: Hook) -> Res {
    let many = chance(1, 250);
    let (names, ents, mems, mods) = items(many);
    let src = Source { mods: Rc::new(mods), known: Shared::new(BTreeMap::new()) };
    for n in &names {
        if draw(2) == 1 {
            let k = below(src.mods.len());
            src.known.get().insert(n.clone(), k);
        }
    }
    let mut h = Hist { names, many, ents, mems, src, own: None, model: Shared::new(vec![Level::default()]), steps: Shared::new(40) };
    state(format!("{:?} {:?} {}", h.names, h.src.known.get(), h.ents.len()).as_bytes());
    let counts: Vec<usize> = h.ents.iter().map(Arc::strong_count).collect();
    let mcounts: Vec<usize> = h.mems.iter().map(Arc::strong_count).collect();
    match draw(5) {
        0 | 1 => {
            count("own_context");
            let adds = Shared::new((0, 0));
            let shadow = Shared::new(Level::default());
            h.own = Some((adds.clone(), shadow.clone()));
            let mut own = Own { at: Level::default(), adds, mods: h.src.clone(), hook, shadow };
            h.root(&mut own)?;
            h.own = None;
        }
        k => {
            let src = h.src.clone();
            let f = move |name: &str| callback(|| {
                hook();
                src.answer(name)
            });
            let ctx = if draw(2) == 0 { lib(|| TopContext::new(f)) } else { lib(|| TopContext::from(f)) };
            let mut ctx = match k {
                2 => {
                    let n = below(h.ents.len() + 1);
                    let init: Vec<Arc<Entity>> = (0..n).map(|_| pick(&h.ents)).collect();
                    for e in &init { h.top().ents.insert(e.name().to_string(), e.clone()); }
                    lib(|| ctx.with_entities(init))
                }
                3 => {
                    let ports: Vec<Arc<module::Port>> = h.ents.iter().filter_map(|e| if let Entity::Port(p) = e.as_ref() { Some(p.clone()) } else { None }).collect();
                    let ctx = lib(|| ctx.with_ports(ports.clone()));
                    for p in &ports {
                        // The latest of that name
                        let want = ports.iter().rev().find(|q| q.name() == p.name()).unwrap();
                        match h.see(|| ctx.entity(p.name()))? {
                            Some(Some(e)) => {
                                ensure!(matches!(e.as_ref(), Entity::Port(q) if Arc::ptr_eq(q, want)), "ports", "looking up port {} yields something else", p.name());
                                h.top().ents.insert(p.name().to_string(), e.clone());
                                h.ents.push(e);
                            }
                            Some(None) => return viol("ports", format!("port {} is not known", p.name())),
                            None => (),
                        }
                    }
                    ctx
                }
                _ => ctx,
            };
            h.root(&mut ctx)?;
            if draw(3) == 0 {
                // A copy has a life of its own
                count("copied_context");
                let mut copy = lib(|| ctx.clone());
                let before = h.model.get().clone();
                h.root(&mut copy)?;
                *h.model.get() = before;
                h.look(&ctx)?;
            }
            lib(|| drop(ctx));
        }
    }
    // Nothing holds on to the items
    h.model.get().clear();
    for (i, n) in counts.iter().enumerate() {
        let now = Arc::strong_count(&h.ents[i]);
        ensure!(now == *n, "owners", "entity {i} has {now} owners instead of {n}");
    }
    for (i, n) in mcounts.iter().enumerate() {
        let now = Arc::strong_count(&h.mems[i]);
        ensure!(now == *n, "owners", "memory {i} has {now} owners instead of {n}");
    }
    Ok(())
}
