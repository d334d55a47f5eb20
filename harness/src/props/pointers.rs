//! Tree pointers and resource ids.

use std::collections::{ HashMap, HashSet };
use std::panic::{ AssertUnwindSafe, catch_unwind };
use std::rc::Rc;

use node_tree::prelude::*;
use node_tree::structs::rid::RIDHolder;

use super::{ Prop, b };
use crate::ctx::{ Ctx, Meta, Res };
use crate::engine::*;

use crate::world::*;

/*
 * C04
 */

type P0 = Tp<'static, N0>;
type P1 = Tp<'static, N1>;
type PD = TpDyn<'static>;

#[derive(Clone)]
enum Held { T0(P0), T1(P1), Dyn(PD) }

/// A pointer to node `to` obtained by node `by`.
#[derive(Clone)]
struct Ref { to: Tg, by: Tg, p: Held }

const PTR: Mask = &[Cat::Ptr];

/// Obtains a pointer to every node from every node that can get one, in every way.
fn obtain(w: &mut World, all: bool) -> Vec<Ref> {
    let mut out: Vec<Ref> = Vec::new();
    let nodes: Vec<Tg> = w.model.all();
    for &t in &nodes {
        if w.model.n[t as usize].class > 1 { continue; }
        let class: u8 = w.model.n[t as usize].class;
        let Some(n) = w.real(t) else { continue };
        let n: &'static mut dyn Node = n;
        out.push(Ref { to: t, by: t, p: Held::Dyn(n.this_dyn()) });
        if class == 0 { out.push(Ref { to: t, by: t, p: Held::T0(n.this::<N0>()) }); } else { out.push(Ref { to: t, by: t, p: Held::T1(n.this::<N1>()) }); }
        let kids: Vec<Tg> = w.model.n[t as usize].kids.clone();
        for (i, p) in n.children().into_iter().enumerate() { if let Some(&k) = kids.get(i) { out.push(Ref { to: k, by: t, p: Held::Dyn(p) }); } }
        for (i, &k) in kids.iter().enumerate() {
            if let Some(p) = n.get_child_dyn(i).to_option() { out.push(Ref { to: k, by: t, p: Held::Dyn(p) }); } else { w.err(Cat::Ptr, format!("child {i} of node {t} cannot be obtained")); }
            typed(w, t, k, &mut out, &|n| n.get_child::<N0>(i).to_option(), &|n| n.get_child::<N1>(i).to_option(), "get_child");
            let name: String = w.model.n[k as usize].name.clone().unwrap_or_default();
            typed(w, t, k, &mut out, &|n| n.get_node::<N0>(NodePath::from_str(&name)).to_option(), &|n| n.get_node::<N1>(NodePath::from_str(&name)).to_option(), "get_node");
        }
        if let Some(p) = w.model.n[t as usize].parent {
            if let Some(x) = n.parent_dyn().to_option() { out.push(Ref { to: p, by: t, p: Held::Dyn(x) }); } else { w.err(Cat::Ptr, format!("the parent of node {t} cannot be obtained")); }
            typed(w, t, p, &mut out, &|n| n.parent::<N0>().to_option(), &|n| n.parent::<N1>().to_option(), "parent");
        }
        let o: Tg = w.model.n[t as usize].owner;
        out.push(Ref { to: o, by: t, p: Held::Dyn(n.owner_dyn()) });
        typed(w, t, o, &mut out, &|n| n.owner::<N0>().to_option(), &|n| n.owner::<N1>().to_option(), "owner");
        if all {
            for &k in &nodes {
                if let Some(r) = w.model.n[k as usize].rid && w.model.n[k as usize].class <= 1 {
                    let abs: NodePath = w.real(k).unwrap().get_absolute_path();
                    if let Some(p) = w.real(t).unwrap().get_node_dyn(abs).to_option() { out.push(Ref { to: k, by: t, p: Held::Dyn(p) }); } else { w.err(Cat::Ptr, format!("node {k} cannot be obtained by path from node {t}")); }
                    // And by id, with any node as the owner.
                    let (tree, by): (*mut dyn NodeTree, RID) = (w.tree(), w.model.n[t as usize].rid.unwrap());
                    unsafe {
                        match TpDyn::new(tree, by, r).to_option() { Some(p) => out.push(Ref { to: k, by: t, p: Held::Dyn(p) }), None => w.err(Cat::Ptr, format!("node {k} cannot be obtained by id")) }
                        typed(w, t, k, &mut out, &|_| Tp::<N0>::new(tree, by, r).to_option(), &|_| Tp::<N1>::new(tree, by, r).to_option(), "Tp::new");
                    }
                }
            }
        }
    }
    out
}

fn typed(w: &mut World, by: Tg, to: Tg, out: &mut Vec<Ref>, f0: &dyn Fn(&'static mut dyn Node) -> Option<P0>, f1: &dyn Fn(&'static mut dyn Node) -> Option<P1>, how: &str) {
    let class: u8 = w.model.n[to as usize].class;
    let (p0, p1): (Option<P0>, Option<P1>) = (f0(w.real(by).unwrap()), f1(w.real(by).unwrap()));
    if p0.is_some() != (class == 0) || p1.is_some() != (class == 1) { w.err(Cat::Ptr, format!("{how} from node {by} gives a typed pointer to node {to} for the wrong types: {:?}", (p0.is_some(), p1.is_some()))); }
    if let Some(p) = p0 { out.push(Ref { to, by, p: Held::T0(p) }); }
    if let Some(p) = p1 { out.push(Ref { to, by, p: Held::T1(p) }); }
}

fn here(n: &dyn Node) -> (Tg, usize) { (tag_of(n), n as *const dyn Node as *const u8 as usize) }

/// Uses a pointer in every checked way.
fn judge(w: &mut World, r: &mut Ref) {
    let alive: bool = w.model.has(r.to);
    let class: u8 = w.model.n[r.to as usize].class;
    let want: Option<(Tg, usize)> = if alive { w.real(r.to).map(|n| here(n)) } else { None };
    macro_rules! bad { ($how:expr, $got:expr) => {{ let s: String = format!("a pointer to node {} obtained by node {}: {} gives {:?} instead of {:?}", r.to, r.by, $how, $got, want); w.err(Cat::Ptr, s); return; }} }
    macro_rules! same { ($how:expr, $got:expr) => {{ let got: Option<(Tg, usize)> = $got; if got != want { bad!($how, got); } }} }
    macro_rules! typed { ($p:ident) => {{
        if $p.is_valid() != alive { bad!("is_valid", $p.is_valid()); }
        if $p.is_null() == alive { bad!("is_null", $p.is_null()); }
        same!("try_get", $p.try_get().to_option().map(|n| here(n)));
        same!("try_get_mut", $p.try_get_mut().to_option().map(|n| here(n)));
        match $p.try_get().ok().to_option() { Some(n) => if !alive || n.tag.id != r.to { bad!("ok", n.tag.id) }, None => if alive { bad!("ok", "nothing") } }
        let e: Option<TPError> = $p.try_get().err().to_option();
        if e != if alive { None } else { Some(TPError::IsNull) } { bad!("err", e); }
        if $p.clone().try_to_dyn().is_ok() != alive { bad!("try_to_dyn", !alive); }
        same!("try_to_dyn", $p.clone().try_to_dyn().to_option().and_then(|p| p.try_get().to_option().map(|n| here(n))));
        if alive {
            same!("get", Some(here($p.get())));
            same!("get_mut", Some(here($p.get_mut())));
            same!("deref", Some(here(&**$p)));
            same!("deref_mut", Some(here(&mut **$p)));
            same!("to_dyn", Some(here($p.clone().to_dyn().get())));
        }
    }} }
    match &mut r.p {
        Held::T0(p) => typed!(p),
        Held::T1(p) => typed!(p),
        Held::Dyn(p) => {
            if p.is_valid() != alive { bad!("is_valid", p.is_valid()); }
            if p.is_null() == alive { bad!("is_null", p.is_null()); }
            same!("try_get", p.try_get().to_option().map(here));
            same!("try_get_mut", p.try_get_mut().to_option().map(|n| here(n)));
            let e: Option<TPError> = p.try_get().err().to_option();
            if e != if alive { None } else { Some(TPError::IsNull) } { bad!("err", e); }
            for c in 0..2u8 {
                let fits: bool = alive && class == c;
                let is: bool = if c == 0 { p.is::<N0>() } else { p.is::<N1>() };
                if is != fits { bad!("is", is); }
                let to: Option<(Tg, usize)> = if c == 0 { p.to::<N0>().to_option().and_then(|p| p.try_get().to_option().map(|n| here(n))) } else { p.to::<N1>().to_option().and_then(|p| p.try_get().to_option().map(|n| here(n))) };
                if to.is_some() != fits || fits && to != want { bad!("to", to); }
                let e: Option<TPError> = if c == 0 { p.to::<N0>().err().to_option() } else { p.to::<N1>().err().to_option() };
                if e != if fits { None } else if alive { Some(TPError::WrongType) } else { Some(TPError::IsNull) } { bad!("to", e); }
            }
            if alive {
                same!("get", Some(here(p.get())));
                same!("get_mut", Some(here(p.get_mut())));
                same!("deref", Some(here(&**p)));
                same!("deref_mut", Some(here(&mut **p)));
            }
        }
    }
}

/// The `how`-th way to use a pointer without checking.
fn unchecked(r: &mut Ref, how: usize) {
    match &mut r.p {
        Held::T0(p) => match how { 0 => { p.get(); }, 1 => { p.get_mut(); }, 2 => { let _ = p.tag.id; }, 3 => { p.set_name("touched"); }, _ => { p.clone().to_dyn(); } },
        Held::T1(p) => match how { 0 => { p.get(); }, 1 => { p.get_mut(); }, 2 => { let _ = p.tag.id; }, 3 => { p.set_name("touched"); }, _ => { p.clone().to_dyn(); } },
        Held::Dyn(p) => match how { 0 => { p.get(); }, 1 => { p.get_mut(); }, 2 => { let _ = p.name().len(); }, 3 => { p.set_name("touched"); }, _ => { let _ = p.children(); } }
    }
}

/// In hooks: nodes are freed and pointers to them used unchecked.
fn menu_stale(tags: &[Tg], _next: Tg, p: (K, Tg, u32)) -> Vec<Act> { tags.iter().flat_map(|&t| (0..4).map(move |how| Act::Stale(p.1, t, how))).collect() }

/// Every unchecked use of a dead pointer has to unwind, with a panic in the log and the tree ended.
fn abuse(w: &mut World, r: &mut Ref, how: usize) {
    let log: usize = w.tree().get_log().len();
    let (to, by): (Tg, Tg) = (r.to, r.by);
    let res = catch_unwind(AssertUnwindSafe(|| unchecked(r, how)));
    if res.is_ok() { w.err(Cat::Ptr, format!("unchecked use {how} of a dead pointer to node {to} obtained by node {by} succeeds")); return; }
    let new: String = w.tree().get_log()[log..].to_string();
    if !new.contains("PANIC") { w.err(Cat::Ptr, format!("unchecked use {how} of a dead pointer to node {to} obtained by node {by} logs {new:?}")); }
    w.status = St::Terminated;
    let hooks: u64 = w.hooks;
    let st: TreeStatus = w.tree().process();
    if st != TreeStatus::Terminated || w.hooks != hooks { w.err(Cat::Ptr, format!("after unchecked use {how} of a dead pointer to node {to} the tree is {st:?}")); }
}

fn pointer_case(ctx: &mut Ctx, sc: &Scenario, devs: &[Dev], salt: usize, all: bool) -> Res {
    let mut held: Vec<Ref> = Vec::new();
    let last: usize = sc.steps.len();
    let mut at: usize = 0;
    let mut uses: u64 = 0;
    run(ctx, sc, devs, PTR, &mut |w| {
        if at == 0 { held.clear(); }
        for r in held.iter_mut() { judge(w, r); }
        uses += held.len() as u64;
        if at == last {
            let mut dead: Vec<&mut Ref> = held.iter_mut().filter(|r| !w.model.has(r.to)).collect();
            let n: usize = dead.len();
            for k in 0..n.min(3) { let i: usize = (salt + k * (n / 3).max(1)) % n; abuse(w, dead[i], (salt / 7 + k) % 5); uses += 1; if !w.errs.is_empty() { break; } }
            at = 0;
            return;
        }
        // At every point the pointers to all nodes are obtained again.
        let fresh: Vec<Ref> = obtain(w, all || at == 0);
        for mut r in fresh { judge(w, &mut r); held.push(r); }
        at += 1;
    })?;
    ctx.st.transitions += uses;
    Ok(())
}

/// Pointers to nodes of two classes are held while a great many nodes come and go, some of them the ones pointed at.
fn long_held(ctx: &mut Ctx, kind: usize, keep: usize, rounds: usize) -> Res {
    let leaf = |t: Tg| Spec::leaf(t).class((t % 2) as u8);
    let mut w: Box<World> = World::start_with(&retag(Spec::leaf(0).with(vec![Spec::leaf(0).with(vec![Spec::leaf(0).class(1), Spec::leaf(0)]), Spec::leaf(0).class(1), Spec::leaf(0)]), 0), Form::Scene, &[], LoggerVerbosity::OnlyPanics, false, false);
    let mut held: Vec<Ref> = obtain(&mut w, true);
    let mut alive: std::collections::VecDeque<Tg> = Default::default();
    let mut next: Tg = 6;
    for i in 0..rounds {
        // The first ones leave early, one half way, and two stay.
        if i == 3 { w.act(&if kind % 2 == 0 { Act::Free(3) } else { Act::Remove(3) }); }
        if i == rounds / 2 { w.act(&if kind < 2 { Act::Free(1) } else { Act::Remove(1) }); }
        w.act(&Act::Add(if i % 5 == 4 { 4 } else { 0 }, Form::Node, Rc::new(leaf(next))));
        alive.push_back(next);
        next += 1;
        let fresh: bool = i.is_power_of_two() || i % 1021 == 0;
        if fresh && let Some(n) = w.real(next - 1) { let p: PD = n.this_dyn(); held.push(Ref { to: next - 1, by: next - 1, p: Held::Dyn(p) }); }
        if alive.len() > keep { let t: Tg = if kind % 2 == 0 { alive.pop_front().unwrap() } else { alive.pop_back().unwrap() }; w.act(&if i % 3 == 0 { Act::Free(t) } else { Act::Remove(t) }); }
        if fresh || i % 97 == 0 || i < 60 { for r in held.iter_mut() { judge(&mut w, r); } ctx.st.transitions += held.len() as u64; }
        if w.errs.iter().any(|e| PTR.contains(&e.0)) { break; }
        if i % 1000 == 999 { ctx.beat(); }
    }
    if !w.errs.iter().any(|e| PTR.contains(&e.0)) { for r in held.iter_mut() { judge(&mut w, r); } }
    ctx.st.executions += 1; ctx.st.transitions += w.acts + w.hooks;
    if let Some(e) = w.errs.iter().find(|e| PTR.contains(&e.0)) { return Err(format!("[{:?}] {}", e.0, e.1).into()); }
    Ok(())
}

pub const C04: Prop = Prop {
    meta: Meta {
        id: "C04",
        rule: "in all histories of additions and removals on all shapes with nodes of two classes, pointers to every node are obtained from every node in every way at every point, kept, and used in every checked way at every later point; at the end dead pointers are used unchecked in every way; additions after removals try to take the place of departed nodes",
        bounds: |t| b(t, "shapes up to 3 nodes x 3 operations, up to 2 x 4; every (dead pointer, unchecked use) pair of histories of 1 operation on shapes up to 4; pointers to nodes freed in every hook on shapes up to 3, used there; pointers held across operations in hooks on shapes up to 3; pointers held across 5000 additions and departures; lives of 70000 nodes beside lasting ones",
                         "shapes up to 4 nodes x 3 operations, up to 3 x 4; every (dead pointer, unchecked use) pair of histories of 2 operations on shapes up to 3; pointers held across 70000 additions and departures; lives of 140000 nodes beside lasting ones"),
        assumptions: &["the tree itself outlives the pointers"]
    },
    body: |ctx| {
        let mut a: Alphabet = Alphabet::structural();
        a.adds = vec![(Form::Node, Spec::leaf(0).class(1)), (Form::Scene, Spec::leaf(0).owned(true).with(vec![Spec::leaf(0).class(1)]))];
        a.missing = false;
        let classes = |mut s: Spec| { s.each_mut(&mut |x| x.class = (x.tag % 2) as u8); s };
        ctx.family("histories");
        let mut salt: usize = 0;
        for (lo, hi, d) in ctx.pick(vec![(1, 3, 3), (1, 2, 4)], vec![(1, 4, 3), (1, 3, 4)]) { for n in lo..=hi { for s in shapes(n) {
            let s: Spec = classes(s);
            histories(&s, Form::Scene, &a, d, &mut |steps| {
                if ctx.done() { return; }
                salt += 1;
                if ctx.quick() && d == 4 && !matches!((&steps[0], steps.last()), (Step::Do(_), Some(Step::Do(Act::Add(..))))) { return; }
                let mut sc: Scenario = Scenario::new(s.clone()).steps(steps.to_vec());
                sc.snap = false;
                ctx.case(|| sc.show(&[]), |ctx| pointer_case(ctx, &sc, &[], salt, false));
            });
        } } }
        super::tree::long_lives(ctx, PTR);
        ctx.family("unchecked uses");
        for n in 2..=ctx.pick(4, 3) { for s in shapes(n) {
            let s: Spec = classes(s);
            histories(&s, Form::Scene, &a, ctx.pick(1, 2), &mut |steps| {
                if !steps.iter().any(|s| matches!(s, Step::Do(Act::Free(_) | Act::Remove(_)))) { return; }
                for tail in [None, Some(Step::Frame(1))] {
                    let mut sc: Scenario = Scenario::new(s.clone()).steps(steps.iter().cloned().chain(tail).collect());
                    sc.snap = false;
                    ctx.case(|| format!("all unchecked uses after {}", sc.show(&[])), |ctx| {
                        // The number of dead pointers is known after a first run.
                        let mut i: usize = 0;
                        loop {
                            let mut total: usize = 0;
                            for how in 0..5 {
                                let mut held: Vec<Ref> = Vec::new();
                                let mut at: usize = 0;
                                run(ctx, &sc, &[], PTR, &mut |w| {
                                    if at == 0 { held = obtain(w, true); }
                                    at += 1;
                                    if at == sc.steps.len() + 1 {
                                        let mut dead: Vec<&mut Ref> = held.iter_mut().filter(|r| !w.model.has(r.to)).collect();
                                        total = dead.len();
                                        if i < total { abuse(w, dead[i], how); }
                                        at = 0;
                                    }
                                })?;
                            }
                            i += 1;
                            if i >= total { break; }
                        }
                        Ok(())
                    });
                }
            });
        } }
        ctx.family("stale pointers used in hooks");
        for n in 2..=ctx.pick(3, 4) { for s in shapes(n) {
            let mut sc: Scenario = Scenario::new(classes(s)).steps(super::tree::life(n).into_iter().chain(super::tree::end_life()).collect());
            sc.snap = false;
            explore_scripts(ctx, &sc, &[menu_stale], &[K::Loaded, K::Ready, K::Process, K::Terminal], 1, &[Cat::Ptr, Cat::Life]);
        } }
        ctx.family("many additions after a departure");
        let rounds: usize = ctx.pick(5000, 70_000);
        for kind in 0..4usize { for keep in [0usize, 1, 40] {
            ctx.case(|| format!("{rounds} additions with {keep} kept and pointers held, departing in way {kind}"), |ctx| long_held(ctx, kind, keep, rounds));
        } }
        ctx.family("operations in hooks");
        for n in 1..=3 { for s in shapes(n) {
            let mut sc: Scenario = Scenario::new(classes(s.clone())).steps(vec![Step::Frame(1), Step::Do(Act::Add(0, Form::Scene, std::rc::Rc::new(retag(Spec::leaf(0).with(vec![Spec::leaf(0)]), 20)))), Step::Do(Act::Free(n as Tg - 1)), Step::Frame(1), Step::Frame(1)]);
            sc.snap = false;
            let points: Vec<(K, Tg, u32)> = {
                let mut w: Box<World> = World::start_with(&sc.root, sc.form, &[], LoggerVerbosity::OnlyPanics, false, false);
                for s in &sc.steps { if w.errs.is_empty() { w.step(s); } }
                let p = std::mem::take(&mut w.points);
                w.finish();
                p
            };
            for p in points { for act in menu_structural(&sc.root.tags(), ADDED, p) {
                salt += 1;
                let dev: Dev = Dev { k: p.0, tag: p.1, occ: p.2, act };
                ctx.case(|| sc.show(std::slice::from_ref(&dev)), |ctx| pointer_case(ctx, &sc, std::slice::from_ref(&dev), salt, true));
            } }
        } }
    }
};

/*
 * C19
 */

const RIDS: Mask = &[Cat::Rid];

/// Queries ids in every way; `cells[i]` tells what the i-th id has to lead to.
fn query(w: &mut World, perm: &[(RID, Option<Tg>)]) {
    let tree: &'static mut dyn NodeTree = w.tree();
    let want: Vec<Option<Tg>> = perm.iter().map(|p| p.1).collect();
    let list: Vec<RID> = perm.iter().map(|p| p.0).collect();
    macro_rules! same { ($how:expr, $got:expr, $want:expr) => {{ let (g, x) = ($got, $want); if g != x { w.err(Cat::Rid, format!("{} of {list:?} gives {g:?} instead of {x:?}", $how)); return; } }} }
    for &(r, t) in perm {
        same!("get_node", tree.get_node(r).map(tag_of), t);
        same!("get_node_mut", tree.get_node_mut(r).map(|n| tag_of(n)), t);
        same!("get_node_raw", tree.get_node_raw(r).map(|n| tag_of(unsafe { &*n })), t);
        same!("get_node_mut_raw", tree.get_node_mut_raw(r).map(|n| tag_of(unsafe { &*n })), t);
        same!("get_node_identity", tree.get_node_identity(r).is_some(), t.is_some());
    }
    same!("get_nodes", tree.get_nodes(&list).into_iter().map(|n| n.map(tag_of)).collect::<Vec<_>>(), want.clone());
    same!("get_all_valid_nodes", tree.get_all_valid_nodes(&list).into_iter().map(tag_of).collect::<Vec<_>>(), want.iter().flatten().copied().collect::<Vec<_>>());
    let unique: bool = { let mut l: Vec<RID> = list.clone(); l.sort_unstable(); l.windows(2).all(|w| w[0] != w[1]) };
    let muts = catch_unwind(AssertUnwindSafe(|| tree.get_nodes_mut(&list).into_iter().map(|n| n.map(|n| tag_of(n))).collect::<Vec<_>>()));
    let valid = catch_unwind(AssertUnwindSafe(|| w.tree().get_all_valid_nodes_mut(&list).into_iter().map(|n| tag_of(n)).collect::<Vec<_>>()));
    if unique {
        same!("get_nodes_mut", muts.ok(), Some(want.clone()));
        same!("get_all_valid_nodes_mut", valid.ok(), Some(want.iter().flatten().copied().collect::<Vec<_>>()));
    } else {
        // Handing out the same node twice is refused.
        same!("get_nodes_mut with duplicates", muts.is_err(), true);
        same!("get_all_valid_nodes_mut with duplicates", valid.is_err(), true);
    }
}

/// All ids ever given out (and some never given out) in several orders, and all short lists of them.
fn query_all(w: &mut World, ctx_len: usize) {
    let mut ids: Vec<(RID, Option<Tg>)> = w.model.n.iter().enumerate().filter_map(|(t, n)| n.rid.map(|r| (r, if n.in_tree { Some(t as Tg) } else { None }))).collect();
    for x in 0..w.model.n.len() { for y in 0..x {
        if let (Some(a), Some(b)) = (w.model.n[x].rid, w.model.n[y].rid) && a == b { w.err(Cat::Rid, format!("nodes {x} and {y} had the same id {a}")); return; }
    } }
    let high: RID = ids.iter().map(|i| i.0).max().unwrap_or(0);
    ids.extend([(high + 1, None), (high + 1000, None), (RID::MAX, None)]);
    query(w, &ids);
    let mut rev = ids.clone(); rev.reverse();
    query(w, &rev);
    if ids.len() > 4 { ids.truncate(ctx_len.saturating_sub(2).max(2)); ids.extend(rev[1..3].iter().copied()); }
    let n: usize = ids.len();
    assignments(2, n, &mut |v| if w.errs.is_empty() { query(w, &v.iter().map(|&i| ids[i]).collect::<Vec<_>>()) });
    if ctx_len > 3 || n <= 5 { assignments(3, n.min(5), &mut |v| if w.errs.is_empty() { query(w, &v.iter().map(|&i| ids[i]).collect::<Vec<_>>()) }); }
}

pub const C19: Prop = Prop {
    meta: Meta {
        id: "C19",
        rule: "in all histories of additions and removals, from outside and in hooks, all ids ever given out and ids never given out are queried singly and in bulk, shared and mutable, in all short lists with repetitions, after every operation; the id container is run through all operation sequences against a map",
        bounds: |t| b(t, "shapes up to 3 nodes x 3 operations, 2 x 4; lists of 2 and 3 ids; lists of 8 to 300 ids in up to 20 orders, with departed ids and repetitions; hook scripts of 1 operation on shapes up to 3; all container sequences of 6 operations from 0 to 3 initial items, and of 4 with a clone taken between any two; churn of 5000 nodes, of 150000 items and of 6000 scenes with few kept; lives of 70000 nodes beside lasting ones",
                         "shapes up to 3 nodes x 4 operations; hook scripts of 2 operations on shapes up to 3; all container sequences of 8 operations, and of 6 with a clone taken between any two; churn of 70000 nodes, of 1000000 items and of 70000 scenes with few kept; lives of 140000 nodes beside lasting ones"),
        assumptions: &[]
    },
    body: |ctx| {
        ctx.family("histories");
        let mut a: Alphabet = Alphabet::structural();
        a.missing = false;
        for (lo, hi, d) in ctx.pick(vec![(1, 3, 3), (1, 1, 4)], vec![(1, 3, 4), (4, 4, 3)]) { for n in lo..=hi { for s in shapes(n) {
            histories(&s, Form::Scene, &a, d, &mut |steps| {
                if ctx.done() { return; }
                let sc: Scenario = Scenario::new(s.clone()).steps(steps.to_vec());
                ctx.case(|| sc.show(&[]), |ctx| {
                    let (mut at, last): (usize, usize) = (0, sc.steps.len());
                    run(ctx, &sc, &[], RIDS, &mut |w| { at += 1; if at > last || at <= 1 { query_all(w, 3) } else { let ids: Vec<(RID, Option<Tg>)> = w.model.n.iter().enumerate().filter_map(|(t, n)| n.rid.map(|r| (r, if n.in_tree { Some(t as Tg) } else { None }))).collect(); query(w, &ids) }; if at > last { at = 0; } })?;
                    Ok(())
                });
            });
        } } }
        ctx.family("operations in hooks");
        for n in 1..=3 { for s in shapes(n) {
            let sc: Scenario = Scenario::new(s).steps(super::tree::life(n).into_iter().chain(super::tree::end_life()).collect());
            explore_scripts(ctx, &sc, &[menu_structural], &[K::Loaded, K::Ready, K::Process, K::Terminal], ctx.pick(1, 2), RIDS);
        } }
        super::tree::long_lives(ctx, RIDS);
        ctx.family("id container");
        for start in 0..=3usize { for from_vec in [false, true] {
            if !from_vec && start > 0 { continue; }
            assignments(ctx.pick(6, 8), 6, &mut |v| {
                if ctx.done() { return; }
                ctx.case(|| format!("container from {start} items, operations {v:?}"), |ctx| container(ctx, start, from_vec, v, None));
            });
            assignments(ctx.pick(4, 6), 6, &mut |v| for cut in 0..v.len() {
                if ctx.done() { return; }
                ctx.case(|| format!("container from {start} items, operations {v:?}, cloned before operation {cut}"), |ctx| container(ctx, start, from_vec, v, Some(cut)));
            });
        } }
        ctx.family("long lists");
        for n in ctx.pick(vec![8, 20, 33, 70, 300], vec![8, 16, 17, 20, 32, 33, 64, 65, 70, 128, 129, 256, 257, 300, 1000]) { for s in [super::tree::chain(n), super::tree::fan(n)] { for cut in [0, n / 2, n - 1] {
            let steps: Vec<Step> = if cut == 0 { vec![Step::Frame(1)] } else { vec![Step::Do(Act::Free(cut as Tg)), Step::Do(Act::Add(0, Form::Scene, std::rc::Rc::new(retag(Spec::leaf(0).with(vec![Spec::leaf(0)]), 2000))))] };
            let mut sc: Scenario = Scenario::new(s.clone()).steps(steps);
            sc.snap = false;
            ctx.case(|| format!("long lists on {n} nodes, {}, without node {cut}", if s.kids.len() > 1 { "fan" } else { "chain" }), |ctx| {
                run(ctx, &sc, &[], RIDS, &mut |w| {
                    let mut ids: Vec<(RID, Option<Tg>)> = w.model.n.iter().enumerate().filter_map(|(t, n)| n.rid.map(|r| (r, if n.in_tree { Some(t as Tg) } else { None }))).collect();
                    // Orders: up, down, from the middle, every k-th, and each with ids in between that were never given out.
                    query(w, &ids);
                    for k in [3, 7, 16] { let part: Vec<_> = ids.iter().copied().step_by(k).collect(); query(w, &part); }
                    ids.reverse();
                    query(w, &ids);
                    for k in [1, 5, ids.len() / 2, ids.len() - 1] { ids.rotate_left(k); query(w, &ids); }
                    let m: usize = ids.len();
                    for k in [2, 3, 5, 7, 11] { if m % k != 0 { let mixed: Vec<_> = (0..m).map(|i| ids[i * k % m]).collect(); query(w, &mixed); } }
                    for at in [0, m / 2, m] { let mut with: Vec<_> = ids.clone(); with.insert(at, (RID::MAX, None)); with.insert(at, (5000, None)); query(w, &with); }
                    for (at, of) in [(0, m - 1), (m, 0), (m / 2, 0)] { let mut with: Vec<_> = ids.clone(); with.insert(at, ids[of]); query(w, &with); }
                })?;
                Ok(())
            });
        } } }
        ctx.family("many ids");
        super::tree::scale(ctx, RIDS);
        // Most items leave soon: few are there at any time.
        let rounds: usize = ctx.pick(150_000, 1_000_000);
        for keep in [0usize, 1, 2, 3, 7, 31, 63, 64, 65, 200, 1000] { for order in 0..3usize { for from in [0usize, 5, 70_000] {
            if from > keep && from > 5 && order > 0 { continue; }
            ctx.case(|| format!("container through which {rounds} items go, {keep} at a time, from {from}, in order {order}"), |ctx| {
                let mut h: RIDHolder<u64> = if from == 0 { RIDHolder::new() } else { RIDHolder::from_vec((0..from as u64).collect()) };
                let mut had: Vec<bool> = vec![true; from];
                let mut in_it: std::collections::VecDeque<(RID, u64)> = (0..from).map(|i| (i as RID, i as u64)).collect();
                for i in 0..rounds as u64 {
                    let r: RID = h.push(1_000_000 + i);
                    if r as usize >= had.len() { if r as usize > had.len() + 1_000_000 { return Err(format!("the key {r} is far off").into()); } had.resize(r as usize + 1, false); }
                    if std::mem::replace(&mut had[r as usize], true) { return Err(format!("push {i} returns the key {r} again").into()); }
                    in_it.push_back((r, 1_000_000 + i));
                    while in_it.len() > keep {
                        let (k, v): (RID, u64) = match order { 0 => in_it.pop_front(), 1 => in_it.pop_back(), _ => if i % 2 == 0 { in_it.pop_front() } else { in_it.pop_back() } }.unwrap();
                        if h.take(k) != Some(v) || h.take(k).is_some() || h.retrieve(k).is_some() { return Err(format!("taking key {k} differs in round {i}").into()); }
                    }
                    if h.len() != in_it.len() || h.is_empty() != in_it.is_empty() { return Err(format!("the length differs in round {i}").into()); }
                    if i % 997 == 0 { for (k, v) in &in_it { if h.retrieve(*k) != Some(v) { return Err(format!("key {k} differs in round {i}").into()); } } ctx.beat(); }
                }
                for (k, v) in &in_it { if h.retrieve(*k) != Some(v) { return Err(format!("key {k} differs at the end").into()); } }
                ctx.st.executions += 1; ctx.st.transitions += rounds as u64;
                Ok(())
            });
        } } }
        // Scenes of several nodes that come and go in a tree, with few that stay.
        let rounds: usize = ctx.pick(6000, 70_000);
        for keep in [0usize, 1, 5, 40, 100] { for size in [1usize, 3] { for below in [false, true] {
            ctx.case(|| format!("{rounds} scenes of {size} nodes go through a tree, {keep} at a time, one below the other {below}"), |ctx| {
                let mut l: crate::lab::Lab = crate::lab::Lab::new(Spec::leaf(0).scene());
                let mut had: HashSet<RID> = HashSet::from([0]);
                let mut in_it: std::collections::VecDeque<RID> = Default::default();
                for i in 0..rounds {
                    // One below the other: up to four deep.
                    let at: RID = if below && i % 4 != 0 { in_it.back().copied().unwrap_or(0) } else { 0 };
                    let at: RID = if l.tree().get_node(at).is_some() { at } else { 0 };
                    let n: &'static mut dyn Node = l.node(at);
                    n.add_child(if size == 1 { Spec::leaf(0).scene() } else { Spec::leaf(0).with(vec![Spec::leaf(0), Spec::leaf(0)]).scene() });
                    let top: RID = n.children().last().map(|c| c.rid()).ok_or("nothing was added")?;
                    let new: Vec<RID> = crate::lab::pre_order(l.tree(), top);
                    if new.len() != size { return Err(format!("{} nodes were added in round {i}", new.len()).into()); }
                    for r in new { if !had.insert(r) { return Err(format!("round {i} gives out the id {r} again").into()); } }
                    in_it.push_back(top);
                    while in_it.len() > keep {
                        let r: RID = if i % 3 == 0 { in_it.pop_back() } else { in_it.pop_front() }.unwrap();
                        if l.tree().get_node(r).is_some() { l.node(r).free(); }
                        if l.tree().get_node(r).is_some() || l.tree().get_node_identity(r).is_some() { return Err(format!("node {r} is there after it was freed in round {i}").into()); }
                    }
                    if i % 500 == 0 { ctx.beat(); }
                }
                ctx.st.executions += 1; ctx.st.transitions += 2 * rounds as u64;
                Ok(())
            });
        } } }
        let n: usize = ctx.pick(20_000, 1_000_000);
        ctx.case(|| format!("container with {n} items"), |ctx| {
            for from in [0usize, 1, 255, 256, 65_535, 65_536] {
                let mut h: RIDHolder<u64> = RIDHolder::from_vec((0..from as u64).collect());
                let mut m: HashMap<RID, u64> = (0..from as u64).map(|i| (i as RID, i)).collect();
                let mut all: Vec<RID> = (0..from as RID).collect();
                for i in 0..n as u64 {
                    let r: RID = h.push(1_000_000 + i);
                    if all.last().is_some_and(|&l| r == l) || m.insert(r, 1_000_000 + i).is_some() { return Err(format!("key {r} came back").into()); }
                    all.push(r);
                    if i % 3 == 0 { let k: RID = all[(i as usize * 7919) % all.len()]; if h.take(k) != m.remove(&k) { return Err(format!("taking key {k} differs").into()); } }
                }
                let mut s: Vec<RID> = all.clone(); s.sort_unstable(); s.dedup();
                if s.len() != all.len() { return Err("a key was returned twice".into()); }
                for &k in &all { if h.retrieve(k) != m.get(&k) { return Err(format!("key {k} differs").into()); } }
                if h.len() != m.len() { return Err("length differs".into()); }
                ctx.st.executions += 1; ctx.st.transitions += n as u64;
                ctx.beat();
            }
            Ok(())
        });
    }
};

/// `cut` is the operation before which the container is replaced with its clone, and whether the clone takes what
/// the original held over it.
fn container(ctx: &mut Ctx, start: usize, from_vec: bool, ops: &[usize], cut: Option<usize>) -> Res {
    let mut h: RIDHolder<u32> = if from_vec { RIDHolder::from_vec((0..start as u32).collect()) } else if cut.is_some() { RIDHolder::default() } else { RIDHolder::new() };
    let mut left: Option<(RIDHolder<u32>, HashMap<RID, u32>, Vec<RID>)> = None;
    let mut m: HashMap<RID, u32> = (0..start as u32).map(|i| (i as RID, i)).collect();
    let mut ever: Vec<RID> = m.keys().copied().collect();
    ever.sort_unstable();
    let mut next: u32 = 100;
    for (at, &op) in ops.iter().enumerate() {
        if cut == Some(at) {
            let mut other: RIDHolder<u32> = RIDHolder::from_vec(vec![1000; if at % 2 == 0 { 0 } else { 9 }]);
            if at % 2 == 0 { other = h.clone(); } else { other.clone_from(&h); }
            left = Some((std::mem::replace(&mut h, other), m.clone(), ever.clone()));
        }
        match op {
            0 | 1 => {
                let r: RID = h.push(next);
                if ever.contains(&r) { return Err(format!("key {r} was returned again").into()); }
                ever.push(r); m.insert(r, next); next += 1;
            },
            2 => if let Some(&k) = ever.first() { if h.take(k) != m.remove(&k) { return Err(format!("take({k}) differs").into()); } },
            3 => if let Some(&k) = ever.last() { if h.take(k) != m.remove(&k) { return Err(format!("take({k}) differs").into()); } },
            4 => { let k: RID = ever.get(ever.len() / 2).copied().unwrap_or(5); match (h.modify(k), m.get_mut(&k)) { (Some(a), Some(b)) => { *a += 50; *b += 50; }, (None, None) => (), _ => return Err(format!("modify({k}) differs").into()) } },
            _ => { for v in h.iter_mut() { *v += 1; } for v in m.values_mut() { *v += 1; } for (k, v) in h.iter_mut_enumerated() { *v += *k as u32; } for (k, v) in m.iter_mut() { *v += *k as u32; } }
        }
        if h.len() != m.len() || h.is_empty() != m.is_empty() { return Err(format!("the length is {} instead of {}", h.len(), m.len()).into()); }
        for &k in ever.iter().chain(&[77_777]) { if h.retrieve(k) != m.get(&k) { return Err(format!("retrieve({k}) gives {:?} instead of {:?}", h.retrieve(k), m.get(&k)).into()); } }
        let mut got: Vec<(RID, u32)> = h.iter_enumerated().map(|(k, v)| (*k, *v)).collect();
        let mut want: Vec<(RID, u32)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        got.sort_unstable(); want.sort_unstable();
        if got != want { return Err(format!("the content is {got:?} instead of {want:?}").into()); }
        let mut a: Vec<u32> = h.iter().copied().collect(); let mut c: Vec<u32> = m.values().copied().collect();
        a.sort_unstable(); c.sort_unstable();
        if a != c { return Err("the values differ".into()); }
        let c: RIDHolder<u32> = h.clone();
        if c.len() != h.len() || ever.iter().any(|&k| c.retrieve(k) != h.retrieve(k)) { return Err("a clone differs".into()); }
        ctx.st.transitions += 1;
    }
    // What was cloned is as it was, and goes on by itself.
    if let Some((mut o, m, ever)) = left {
        let mut got: Vec<(RID, u32)> = o.iter_enumerated().map(|(k, v)| (*k, *v)).collect();
        let mut want: Vec<(RID, u32)> = m.iter().map(|(k, v)| (*k, *v)).collect();
        got.sort_unstable(); want.sort_unstable();
        if got != want { return Err(format!("after what was done to its clone, the container holds {got:?} instead of {want:?}").into()); }
        let r: RID = o.push(7);
        if ever.contains(&r) { return Err(format!("key {r} was returned again after a clone was made").into()); }
    }
    ctx.state_str(&format!("{:?}", { let mut v: Vec<_> = m.into_iter().collect(); v.sort_unstable(); v }));
    ctx.st.executions += 1;
    Ok(())
}



