//! Exhaustive exploration of operation histories and of hook scripts on the real tree.

use std::rc::Rc;

use node_tree::prelude::*;

use crate::ctx::{ Ctx, Fail, Res, fnv };
use crate::world::*;

pub struct Scenario { pub root: Spec, pub form: Form, pub steps: Vec<Step>, pub verbosity: LoggerVerbosity, pub snap: bool }

impl Scenario {
    pub fn new(root: Spec) -> Scenario { Scenario { root, form: Form::Scene, steps: Vec::new(), verbosity: LoggerVerbosity::OnlyPanics, snap: true } }
    pub fn steps(mut self, s: Vec<Step>) -> Scenario { self.steps = s; self }
    pub fn verbose(mut self, v: LoggerVerbosity) -> Scenario { self.verbosity = v; self }
    pub fn form(mut self, f: Form) -> Scenario { self.form = f; self }
    pub fn show(&self, devs: &[Dev]) -> String {
        let mut s: String = format!("{:?} {} :: {}", self.form, self.root.show(), self.steps.iter().map(|s| s.show()).collect::<Vec<_>>().join("; "));
        if !devs.is_empty() { s += &format!(" || {}", devs.iter().map(|d| d.show()).collect::<Vec<_>>().join(", ")); }
        s
    }
}

pub type Mask = &'static [Cat];

/// Runs one scenario with the given script; `at` is called at every quiescent point.
pub fn run(ctx: &mut Ctx, sc: &Scenario, devs: &[Dev], mask: Mask, at: &mut dyn FnMut(&mut World)) -> Result<Vec<(K, Tg, u32)>, Fail> {
    let (mut w, over): (Box<World>, bool) = attempt(ctx, sc, devs, mask, at, false)?;
    let points: Vec<(K, Tg, u32)> = std::mem::take(&mut w.points);
    ctx.st.executions  += 1;
    ctx.st.transitions += w.acts + w.hooks;
    if w.errs.iter().any(|e| mask.contains(&e.0)) {
        // Once more, recording what happens.
        let (cat, first): (Cat, String) = w.errs.iter().find(|e| mask.contains(&e.0)).unwrap().clone();
        drop(w);
        let (w, _): (Box<World>, bool) = attempt(ctx, sc, devs, mask, at, true)?;
        let trace: String = w.events.iter().take(400).map(|e| format!("\n    {e}")).collect();
        return Err(Fail { key: String::new(), msg: format!("[{cat:?}] {first}\n  {}\n  history:{trace}", sc.show(devs)) });
    }
    if over { return Ok(Vec::new()); }
    Ok(points)
}

/// The run, and whether it broke off after errors that are of no concern here.
fn attempt(ctx: &mut Ctx, sc: &Scenario, devs: &[Dev], mask: Mask, at: &mut dyn FnMut(&mut World), record: bool) -> Result<(Box<World>, bool), Fail> {
    let mut w: Box<World> = World::start_with(&sc.root, sc.form, devs, sc.verbosity.clone(), record, sc.snap);
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| drive(ctx, &mut w, sc, mask, at)));
    match res {
        Ok(()) => Ok((w, false)),
        Err(p) => if w.errs.is_empty() { std::panic::resume_unwind(p) } else { Ok((w, true)) }
    }
}

fn drive(ctx: &mut Ctx, w: &mut World, sc: &Scenario, mask: Mask, at: &mut dyn FnMut(&mut World)) {
    let hit = |w: &World| w.errs.iter().any(|e| mask.contains(&e.0));
    if !hit(w) { at(w); }
    for s in &sc.steps {
        if hit(w) { break; }
        w.step(s);
        ctx.state(fnv(format!("{}|{:?}", w.model.canon(), w.status).as_bytes()));
        if !hit(w) { at(w); }
    }
    if !hit(w) { w.finish(); }
}

pub fn run_plain(ctx: &mut Ctx, sc: &Scenario, devs: &[Dev], mask: Mask) -> Result<Vec<(K, Tg, u32)>, Fail> { run(ctx, sc, devs, mask, &mut |_| ()) }

/*
 * Shapes
 */

/// All ordered trees with exactly `n` nodes, tagged in pre-order.
pub fn shapes(n: usize) -> Vec<Spec> {
    fn forests(n: usize) -> Vec<Vec<Spec>> {
        if n == 0 { return vec![Vec::new()]; }
        let mut out: Vec<Vec<Spec>> = Vec::new();
        for first in 1..=n {
            for kids in forests(first - 1) {
                for rest in forests(n - first) {
                    let mut f: Vec<Spec> = vec![Spec::leaf(0).with(kids.clone())];
                    f.extend(rest);
                    out.push(f);
                }
            }
        }
        out
    }
    forests(n - 1).into_iter().map(|kids| retag(Spec::leaf(0).with(kids), 0)).collect()
}

/// The nodes called by turns what the mixed histories add.
pub fn alike(mut s: Spec) -> Spec { s.each_mut(&mut |x| x.name = Some(["A", "a", "B", "A"][x.tag as usize % 4].into())); s }

pub fn shapes_upto(n: usize) -> Vec<Spec> { (1..=n).flat_map(shapes).collect() }

/// Tags in pre-order from `first`.
pub fn retag(mut s: Spec, first: Tg) -> Spec { let mut c: Tg = first; s.each_mut(&mut |x| { x.tag = c; c += 1; }); s }

/// Calls `f` with every assignment of a value below `base` to each of `n` places.
pub fn assignments(n: usize, base: usize, f: &mut dyn FnMut(&[usize])) {
    let mut v: Vec<usize> = vec![0; n];
    loop {
        f(&v);
        let mut i: usize = 0;
        loop {
            if i == n { return; }
            v[i] += 1;
            if v[i] < base { break; }
            v[i] = 0; i += 1;
        }
    }
}

/*
 * Histories
 */

#[derive(Clone)]
pub struct Alphabet {
    pub adds:    Vec<(Form, Spec)>,   // what can be added anywhere (tags are assigned)
    pub free:    bool,
    pub remove:  bool,
    pub missing: bool,
    pub rename:  &'static [&'static str],
    pub control: bool,                // queue, terminate, pause, unpause, panic
    pub frame:   bool,
    pub names:   &'static [&'static str]
}

impl Alphabet {
    pub fn structural() -> Alphabet {
        Alphabet {
            adds: vec![
                (Form::Node,  Spec::leaf(0)),
                (Form::Scene, Spec::leaf(0).owned(true).with(vec![Spec::leaf(0), Spec::leaf(0).owned(true).with(vec![Spec::leaf(0)])])),
                (Form::Ptr,   Spec::leaf(0).class(1).owned(true))
            ],
            free: true, remove: true, missing: true, rename: &[], control: false, frame: true, names: &[]
        }
    }

    /// Everything at once: names that differ in case or are alike, singletons, renamings, copies, control.
    pub fn mixed() -> Alphabet {
        Alphabet {
            adds: vec![
                (Form::Node,  Spec::leaf(0).named("A")),
                (Form::Scene, Spec::leaf(0).named("a").class(1).with(vec![Spec::leaf(0).named("A").owned(true), Spec::leaf(0).named("a")]).via(Via::Cloned)),
                (Form::Scene, Spec::leaf(0).named("B").owned(true).with(vec![Spec::leaf(0).named("A")]).all_disk().via(Via::Cloned)),
                (Form::Scene, Spec::leaf(0).named("A").owned(true).with(vec![Spec::leaf(0).named("A"), Spec::leaf(0).named("A").owned(true)]).via(Via::Branch))
            ],
            free: true, remove: true, missing: false, rename: &["A"], control: true, frame: true, names: &["a", "A"]
        }
    }

    pub fn acts(&self, m: &Model, next: Tg) -> Vec<Act> {
        let mut out: Vec<Act> = Vec::new();
        for t in m.all() {
            if self.free   { out.push(Act::Free(t)); }
            if self.remove && m.n[t as usize].parent.is_some() { out.push(Act::Remove(t)); }
            for (form, spec) in &self.adds { out.push(Act::Add(t, *form, Rc::new(retag(spec.clone(), next)))); }
            for n in self.names  { if *n != "N0" || t < 2 { out.push(Act::Name(t, n)); } }
            for n in self.rename { out.push(Act::Rename(t, n)); }
        }
        if self.missing && let Some(r) = m.root { out.push(Act::RemoveMissing(r)); }
        if self.control { out.extend([Act::Queue, Act::Terminate, Act::Pause, Act::Unpause]); if let Some(r) = m.root { out.push(Act::Panic(*m.all().last().unwrap_or(&r))); } }
        out
    }
}

/// Enumerates all histories of exactly `depth` operations (shorter ones when nothing is left to do).
pub fn histories(root: &Spec, form: Form, alpha: &Alphabet, depth: usize, f: &mut dyn FnMut(&[Step])) {
    fn apply(m: &mut Model, a: &Act) -> bool {
        match a {
            Act::Free(t)      => { let root: bool = m.root == Some(*t); m.remove(*t); root },
            Act::Remove(t)    => { m.remove(*t); false },
            Act::Add(p, f, s) => { m.add(s, Some(*p), *f); false },
            _                 => false
        }
    }
    fn tail(m: &Model, alpha: &Alphabet, next: Tg, left: usize, steps: &mut Vec<Step>, over: u8, f: &mut dyn FnMut(&[Step])) {
        if left == 0 || over >= 2 { f(steps); return; }
        if over == 1 || m.root.is_none() {
            steps.push(Step::Frame(1_000_000)); tail(m, alpha, next, left - 1, steps, 2, f); steps.pop();
            return;
        }
        for a in alpha.acts(m, next) {
            if left == 1 { steps.push(Step::Do(a)); f(steps); steps.pop(); continue; }
            let mut m2: Model = m.clone();
            let used: Tg = if let Act::Add(_, _, s) = &a { s.size() as Tg } else { 0 };
            let gone: bool = apply(&mut m2, &a) || matches!(a, Act::Terminate | Act::Panic(_));
            steps.push(Step::Do(a)); tail(&m2, alpha, next + used, left - 1, steps, gone as u8, f); steps.pop();
        }
        if alpha.frame { steps.push(Step::Frame(16_000_000)); tail(m, alpha, next, left - 1, steps, 0, f); steps.pop(); }
    }
    let mut m: Model = Model::default();
    m.add(root, None, form);
    tail(&m, alpha, root.size() as Tg, depth, &mut Vec::new(), 0, f);
}

/// Model checks all histories as cases of the context.
pub fn explore_histories(ctx: &mut Ctx, root: &Spec, form: Form, alpha: &Alphabet, depth: usize, mask: Mask, at: &dyn Fn(&mut World)) {
    histories(root, form, alpha, depth, &mut |steps| {
        if ctx.done() { return; }
        let steps: &[Step] = steps;
        let root: Spec = root.clone();
        let mk = || Scenario { root: root.clone(), form, steps: steps.to_vec(), verbosity: LoggerVerbosity::OnlyPanics, snap: true };
        ctx.case(|| mk().show(&[]), |ctx| { run(ctx, &mk(), &[], mask, &mut |w| at(w))?; Ok(()) });
    });
}

/*
 * Hook scripts
 */

/// What may be done by a hook.
pub struct Menu { pub f: fn(&[Tg], Tg, (K, Tg, u32)) -> Vec<Act> }

pub const ADDED: Tg = 40;   // tags of nodes added by the first deviation start here

pub fn menu_structural(tags: &[Tg], next: Tg, _p: (K, Tg, u32)) -> Vec<Act> {
    let mut out: Vec<Act> = Vec::new();
    for &t in tags {
        out.push(Act::Free(t));
        out.push(Act::Remove(t));
        out.push(Act::Add(t, Form::Node, Rc::new(Spec::leaf(next))));
        out.push(Act::Add(t, Form::Scene, Rc::new(retag(Spec::leaf(0).owned(true).with(vec![Spec::leaf(0), Spec::leaf(0).owned(true)]), next))));
    }
    out.push(Act::Add(tags[0], Form::Ptr, Rc::new(Spec::leaf(next))));
    out
}

pub fn menu_control(tags: &[Tg], _next: Tg, p: (K, Tg, u32)) -> Vec<Act> {
    let _ = tags;
    vec![Act::Queue, Act::Terminate, Act::Pause, Act::Unpause, Act::Panic(p.1), Act::RemoveMissing(p.1)]
}

/// Model checks the scenario with up to `depth` operations attached to hooks: every hook occurrence of the
/// run so far × every entry of the menus. Each first choice is one case of the context.
pub fn explore_scripts(ctx: &mut Ctx, sc: &Scenario, menus: &[fn(&[Tg], Tg, (K, Tg, u32)) -> Vec<Act>], kinds: &[K], depth: usize, mask: Mask) {
    if ctx.done() { return; }
    let base: Vec<(K, Tg, u32)> = {
        let mut w: Box<World> = World::start_with(&sc.root, sc.form, &[], sc.verbosity.clone(), false, false);
        for s in &sc.steps { if w.errs.is_empty() { w.step(s); } }
        let p: Vec<(K, Tg, u32)> = std::mem::take(&mut w.points);
        w.finish();
        p
    };
    ctx.case(|| sc.show(&[]), |ctx| { run_plain(ctx, sc, &[], mask)?; Ok(()) });
    let tags: Vec<Tg> = {
        let mut t: Vec<Tg> = sc.root.tags();
        for s in &sc.steps { if let Step::Do(Act::Add(_, _, s)) = s { t.extend(s.tags()); } }
        t
    };
    for (i, p) in base.iter().enumerate() {
        if !kinds.contains(&p.0) { continue; }
        for menu in menus {
            for act in menu(&tags, ADDED, *p) {
                if ctx.done() { return; }
                let dev: Dev = Dev { k: p.0, tag: p.1, occ: p.2, act };
                ctx.case(|| sc.show(std::slice::from_ref(&dev)), |ctx| deepen(ctx, sc, &mut vec![dev.clone()], i, &tags, menus, kinds, depth - 1, mask));
            }
        }
    }
}

fn deepen(ctx: &mut Ctx, sc: &Scenario, devs: &mut Vec<Dev>, from: usize, tags: &[Tg], menus: &[fn(&[Tg], Tg, (K, Tg, u32)) -> Vec<Act>], kinds: &[K], left: usize, mask: Mask) -> Res {
    ctx.beat();
    let points: Vec<(K, Tg, u32)> = run_plain(ctx, sc, devs, mask)?;
    if left == 0 { return Ok(()); }
    let mut tags: Vec<Tg> = tags.to_vec();
    if let Act::Add(_, _, s) = &devs.last().unwrap().act { tags.extend(s.tags()); }
    let next: Tg = ADDED + 8 * devs.len() as Tg;
    for (i, p) in points.iter().enumerate().skip(from) {
        if !kinds.contains(&p.0) { continue; }
        for menu in menus {
            for act in menu(&tags, next, *p) {
                // New nodes do not pause the tree: when exactly their turn comes within a frame is left open.
                if p.1 >= ADDED && matches!(act, Act::Pause | Act::Unpause) { continue; }
                if i == from && devs.len() == 1 && p.1 == devs[0].tag && act == devs[0].act { continue; }
                devs.push(Dev { k: p.0, tag: p.1, occ: p.2, act });
                let res: Res = deepen(ctx, sc, devs, i, &tags, menus, kinds, left - 1, mask);
                devs.pop();
                res?;
            }
        }
    }
    Ok(())
}
