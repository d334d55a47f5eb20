//! Casts to traits and queries of types (C22).

use std::any::type_name;

use node_tree::prelude::*;
use node_tree::traits::node_getter::NodeGetter;

use crate::ctx::{ Ctx, Meta, Res };
use crate::lab::Lab;
use super::{ b, Prop };

/*
 * Traits and classes
 */

/// Which class's implementation of which trait ran on which node.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Seen { class: u8, tr: u8, id: i64, at: usize }

pub trait Speak { fn speak(&self) -> Seen; fn speak_mut(&mut self) -> Seen; }
pub trait Tally { fn tally(&self) -> Seen; fn tally_mut(&mut self) -> Seen; }
pub trait Draw: std::fmt::Debug { fn draw(&self) -> Seen; fn draw_mut(&mut self) -> Seen; }
/// A trait that no class extends.
pub trait Alien { fn alien(&self) -> Seen; }

/// Every class implements every trait, and extends some.
macro_rules! implement { ($name:ty, $class:expr) => {
    impl Speak for $name {
        fn speak(&self) -> Seen { Seen { class: $class, tr: 0, id: *self.id, at: self as *const _ as usize } }
        fn speak_mut(&mut self) -> Seen { self.said[0] += 1; self.speak() }
    }
    impl Tally for $name {
        fn tally(&self) -> Seen { Seen { class: $class, tr: 1, id: *self.id, at: self as *const _ as usize } }
        fn tally_mut(&mut self) -> Seen { self.said[1] += 1; self.tally() }
    }
    impl Draw for $name {
        fn draw(&self) -> Seen { Seen { class: $class, tr: 2, id: *self.id, at: self as *const _ as usize } }
        fn draw_mut(&mut self) -> Seen { self.said[2] += 1; self.draw() }
    }
    impl Alien for $name { fn alien(&self) -> Seen { Seen { class: $class, tr: 3, id: *self.id, at: self as *const _ as usize } } }
} }

macro_rules! body { ($name:ident $(, $t:ident)*) => {
    class! {
        pub declare $name extends $($t),*;
        pub let id:   i64;
        pub let said: [i64; 3];
        hk _init(id: i64) { let said: [i64; 3] = [0; 3]; }
    }
} }

class! {
    pub declare K0;
    pub let id:   i64;
    pub let said: [i64; 3];
    hk _init(id: i64) { let said: [i64; 3] = [0; 3]; }
}
body!(K1, Speak);
body!(K2, Tally);
body!(K3, Speak, Tally);
body!(K4, Draw);
body!(K5, Draw, Speak);
body!(K6, Tally, Draw);
body!(K7, Tally, Draw, Speak);
pub mod near {
    use super::{ Speak, Draw };
    use node_tree::prelude::*;
    body!(K, Speak, Draw);
}
pub mod far {
    use super::Tally;
    use node_tree::prelude::*;
    body!(K, Tally);
}
implement!(K0, 0); implement!(K1, 1); implement!(K2, 2); implement!(K3, 3); implement!(K4, 4);
implement!(K5, 5); implement!(K6, 6); implement!(K7, 7); implement!(near::K, 8); implement!(far::K, 9);

const CLASSES: u8 = 10;

/// The traits each class extends, as bits.
const EXTENDS: [u8; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 5, 2];

fn make(class: u8, id: i64) -> Box<dyn Node> {
    match class {
        0 => K0::new(id).to_dyn_box(), 1 => K1::new(id).to_dyn_box(), 2 => K2::new(id).to_dyn_box(), 3 => K3::new(id).to_dyn_box(), 4 => K4::new(id).to_dyn_box(),
        5 => K5::new(id).to_dyn_box(), 6 => K6::new(id).to_dyn_box(), 7 => K7::new(id).to_dyn_box(), 8 => near::K::new(id).to_dyn_box(), _ => far::K::new(id).to_dyn_box()
    }
}

macro_rules! per_class { ($f:ident, $class:expr $(, $a:expr)*) => { match $class {
    0 => $f::<K0>($($a),*), 1 => $f::<K1>($($a),*), 2 => $f::<K2>($($a),*), 3 => $f::<K3>($($a),*), 4 => $f::<K4>($($a),*),
    5 => $f::<K5>($($a),*), 6 => $f::<K6>($($a),*), 7 => $f::<K7>($($a),*), 8 => $f::<near::K>($($a),*), _ => $f::<far::K>($($a),*)
} } }

trait Kin: Node { fn id_said(&self) -> (i64, [i64; 3]); }
macro_rules! kin { ($($t:ty),*) => { $(impl Kin for $t { fn id_said(&self) -> (i64, [i64; 3]) { (*self.id, *self.said) } })* } }
kin!(K0, K1, K2, K3, K4, K5, K6, K7, near::K, far::K);

fn read<T: Kin>(n: &dyn Node) -> Option<(i64, [i64; 3])> { n.as_any_ref().downcast_ref::<T>().map(|t| t.id_said()) }

type Ptr = TpDyn<'static>;

/// How a typed query of the pointer answers: the queries `is`, `to` and the obtaining of a typed pointer.
fn typed<T: Kin>(p: Ptr, tree: *mut dyn NodeTree, at: (RID, RID)) -> Result<Option<i64>, String> {
    let is: bool = p.is::<T>();
    let to: Option<i64> = p.to::<T>().to_option().map(|t| t.get().id_said().0);
    let own: Option<i64> = unsafe { Tp::<T>::new(tree, at.0, at.1) }.to_option().map(|t| t.get().id_said().0);
    if is != to.is_some() || to != own { return Err(format!("for {} the answers differ: is {is}, to {to:?}, a typed pointer {own:?}", type_name::<T>())); }
    // There and back again.
    if let Some(t) = p.to::<T>().to_option() {
        let d: Ptr = t.to_dyn();
        if !d.is::<T>() || p.to::<T>().unwrap().try_to_dyn().to_option().is_none_or(|d| !d.is::<T>()) { return Err("a typed pointer made dynamic is of another type".into()); }
    }
    Ok(to)
}

/// All answers of one pointer about traits.
fn traits(p: &mut Ptr) -> Result<[Option<Seen>; 4], String> {
    macro_rules! ask { ($t:ident, $f:ident) => {{
        let a: Option<Seen> = p.cast::<dyn $t>().to_option().map(|x| x.$f());
        let z: Option<Seen> = p.cast_mut::<dyn $t>().to_option().map(|x| x.$f());
        let ok: (bool, bool) = (p.cast::<dyn $t>().is_ok(), p.cast_mut::<dyn $t>().is_ok());
        let is: bool = p.is_of::<dyn $t>();
        let err: (Option<TPError>, Option<TPError>) = (p.cast::<dyn $t>().err().to_option(), p.cast_mut::<dyn $t>().err().to_option());
        if a != z || is != a.is_some() || ok != (is, is) || err.0.is_some() == is || err.1.is_some() == is { return Err(format!("for {} the answers differ: cast {a:?}, cast_mut {z:?}, is_of {is}, is_ok {ok:?}, errors {err:?}", stringify!($t))); }
        a
    }} }
    Ok([ask!(Speak, speak), ask!(Tally, tally), ask!(Draw, draw), ask!(Alien, alien)])
}

/*
 * Histories
 */

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Bump(usize, u8), Free(usize), Add(usize, u8), Swap(usize, u8), Frame }

struct N { class: u8, rid: RID, said: [i64; 3], alive: bool, parent: usize }

struct W { lab: Lab, n: Vec<N>, held: Vec<(usize, Ptr)>, rooms: Vec<(usize, &'static dyn Speak)> }

impl W {
    fn new(parents: &[usize], classes: &[u8]) -> W {
        let mut w: W = W { lab: Lab::new(NodeScene::new_dyn(make(classes[0], 0))), n: Vec::new(), held: Vec::new(), rooms: Vec::new() };
        w.n.push(N { class: classes[0], rid: 0, said: [0; 3], alive: true, parent: usize::MAX });
        for i in 1..classes.len() { w.add(parents[i], classes[i]); }
        w.obtain();
        w
    }

    fn add(&mut self, parent: usize, class: u8) {
        let id: i64 = self.n.len() as i64;
        let p: RID = self.n[parent].rid;
        self.lab.node(p).add_child(NodeScene::new_dyn(make(class, id)));
        let rid: RID = self.lab.node(p).children().last().map(|c| c.rid()).unwrap();
        self.n.push(N { class, rid, said: [0; 3], alive: true, parent });
    }

    /// Obtains dynamic pointers to every node in every way.
    fn obtain(&mut self) {
        let tree: *mut dyn NodeTree = self.lab.ptr();
        for i in 0..self.n.len() {
            if !self.n[i].alive { continue; }
            let r: RID = self.n[i].rid;
            let mut ps: Vec<Ptr> = vec![self.lab.node(r).this_dyn(), unsafe { TpDyn::new(tree, r, r) }.unwrap()];
            let c: u8 = self.n[i].class;
            fn own<T: Kin>(n: &'static mut dyn Node) -> Ptr { n.this::<T>().to_dyn() }
            let n: &'static mut dyn Node = self.lab.node(r);
            ps.push(per_class!(own, c, n));
            let root: &'static mut dyn Node = self.lab.node(0);
            ps.push(unsafe { TpDyn::new(tree, 0, r) }.unwrap());
            let path: NodePath = self.lab.node(r).get_absolute_path();
            ps.extend(root.get_node_dyn(path).to_option());
            if i > 0 {
                let p: RID = self.n[self.n[i].parent].rid;
                let at: usize = self.lab.node(p).children().iter().position(|c| c.rid() == r).unwrap();
                ps.push(self.lab.node(p).get_child_dyn(at).unwrap());
                ps.push(self.lab.node(p).children().remove(at));
            }
            let kids: Vec<RID> = self.lab.node(r).children().iter().map(|c| c.rid()).collect();
            for k in kids { ps.push(self.lab.node(k).parent_dyn().unwrap()); }
            self.held.extend(ps.into_iter().map(|p| (i, p)));
            if EXTENDS[self.n[i].class as usize] & 1 != 0 && let Some(s) = self.held.last().unwrap().1.cast::<dyn Speak>().to_option() { self.rooms.push((i, s)); }
        }
    }

    /// Every pointer ever obtained gives the answers its node's class declares, or none once the node has left.
    fn check(&mut self) -> Result<(), String> {
        let tree: *mut dyn NodeTree = self.lab.ptr();
        for h in 0..self.held.len() {
            let (i, mut p): (usize, Ptr) = self.held[h];
            let n: &N = &self.n[i];
            let say = |e: String| format!("pointer {h} to node {i} of class {} ({}): {e}", n.class, if n.alive { "alive" } else { "departed" });
            let got: [Option<Seen>; 4] = traits(&mut p).map_err(say)?;
            for t in 0..4u8 {
                let want: bool = n.alive && t < 3 && EXTENDS[n.class as usize] >> t & 1 == 1;
                match got[t as usize] {
                    Some(s) if want => {
                        let at: usize = self.lab.tree().get_node(n.rid).map(|x| x as *const dyn Node as *const u8 as usize).unwrap_or(0);
                        let wanted: Seen = Seen { class: n.class, tr: t, id: i as i64, at };
                        if s != wanted { return Err(say(format!("the cast to trait {t} reaches {s:?} instead of {wanted:?}"))); }
                    },
                    Some(s) => return Err(say(format!("the cast to trait {t} succeeds, reaching {s:?}"))),
                    None    => if want { return Err(say(format!("the cast to trait {t} fails"))); }
                }
            }
            for c in 0..CLASSES {
                let got: Option<i64> = per_class!(typed, c, p, tree, (0, n.rid)).map_err(say)?;
                let want: Option<i64> = if n.alive && c == n.class { Some(i as i64) } else { None };
                if got != want { return Err(say(format!("as class {c} it is {got:?} instead of {want:?}"))); }
            }
            if p.is_valid() != n.alive || p.is_null() == n.alive { return Err(say("validity".into())); }
        }
        for (i, n) in self.n.iter().enumerate() {
            if !n.alive { continue; }
            let Some(x) = self.lab.tree().get_node(n.rid) else { return Err(format!("node {i} has gone")) };
            let c: u8 = n.class;
            let got: Option<(i64, [i64; 3])> = per_class!(read, c, x);
            if got != Some((i as i64, n.said)) { return Err(format!("node {i} holds {got:?} instead of {:?}", n.said)); }
        }
        for (i, s) in &self.rooms { if self.n[*i].alive { let s: Seen = s.speak(); if s.id != *i as i64 || s.class != self.n[*i].class { return Err(format!("a reference kept from an earlier cast of node {i} reaches {s:?}")); } } }
        Ok(())
    }

    fn apply(&mut self, op: Op) -> Result<(), String> {
        match op {
            Op::Bump(i, t) => {
                if i >= self.n.len() { return Ok(()); }
                // Through every pointer to it.
                for h in 0..self.held.len() {
                    if self.held[h].0 != i { continue; }
                    let p: &mut Ptr = &mut self.held[h].1;
                    let done: bool = match t {
                        0 => p.cast_mut::<dyn Speak>().to_option().map(|x| x.speak_mut()).is_some(),
                        1 => p.cast_mut::<dyn Tally>().to_option().map(|x| x.tally_mut()).is_some(),
                        _ => p.cast_mut::<dyn Draw>().to_option().map(|x| x.draw_mut()).is_some()
                    };
                    let want: bool = self.n[i].alive && EXTENDS[self.n[i].class as usize] >> t & 1 == 1;
                    if done != want { return Err(format!("the mutable cast of node {i} to trait {t} succeeds: {done}")); }
                    if done { self.n[i].said[t as usize] += 1; }
                }
            },
            Op::Free(i) => {
                if i == 0 || i >= self.n.len() || !self.n[i].alive { return Ok(()); }
                let r: RID = self.n[i].rid;
                self.lab.node(r).free();
                self.n[i].alive = false;
                for k in i + 1..self.n.len() { if !self.n[self.n[k].parent].alive { self.n[k].alive = false; } }
            },
            Op::Add(i, c) => if i < self.n.len() && self.n[i].alive { self.add(i, c); self.obtain(); },
            Op::Swap(i, c) => if i > 0 && i < self.n.len() && self.n[i].alive { let p: usize = self.n[i].parent; self.apply(Op::Free(i))?; self.add(p, c); self.obtain(); },
            Op::Frame => { self.lab.tree().process(); }
        }
        Ok(())
    }
}

fn history(ctx: &mut Ctx, parents: &[usize], classes: &[u8], ops: &[Op]) -> Res {
    let mut w: W = W::new(parents, classes);
    w.check()?;
    for op in ops { w.apply(*op)?; w.check().map_err(|e| format!("after {op:?}: {e}"))?; ctx.st.transitions += 1; }
    ctx.st.executions += 1;
    ctx.state_str(&w.n.iter().map(|n| format!("{}{:?}{}{}", n.class, n.said, n.alive, n.parent)).collect::<Vec<_>>().join(" "));
    Ok(())
}

pub const C22: Prop = Prop {
    meta: Meta {
        id: "C22",
        rule: "every pointer to every node of every class, obtained in every way, is asked after every operation for every trait (shared, mutable, query, kept reference) and every class (query, conversion, typed pointer); every class implements every trait but declares only some; classes of the same name in two modules; operations change nodes through mutable casts, remove, add and replace them",
        bounds: |t| b(t, "all assignments of 10 classes to all trees up to 3 nodes with 1 operation; histories of 2 operations on 2 nodes of all classes, of 4 on mixed trees of 3 nodes; trees of up to 70 nodes with 4 to 6 operations; 12 traits and 9 classes that declare up to 12 of them; 14 traits of like names and 8 classes",
                         "all assignments of 10 classes to all trees up to 3 nodes with 2 operations, to 4 nodes with none; histories of 3 operations on 2 nodes, of 5 on mixed trees of 3 nodes; trees of up to 130 nodes with 4 to 6 operations; 12 traits and 9 classes that declare up to 12 of them; 14 traits of like names and 8 classes"),
        assumptions: &["casts to traits that every node has (Node itself, Any) are left open"]
    },
    body: |ctx| {
        let trees: &[&[usize]] = &[&[0], &[0, 0], &[0, 0, 0], &[0, 0, 1]];
        ctx.family("classes");
        for ps in trees {
            let n: usize = ps.len();
            for code in 0..(CLASSES as usize).pow(n as u32) {
                let cs: Vec<u8> = (0..n).map(|i| (code / (CLASSES as usize).pow(i as u32) % CLASSES as usize) as u8).collect();
                let mut ops: Vec<Op> = (0..n).flat_map(|i| [Op::Bump(i, 0), Op::Bump(i, 1), Op::Bump(i, 2), Op::Free(i), Op::Swap(i, (code % 10) as u8)]).collect();
                ops.push(Op::Frame);
                for a in &ops {
                    if ctx.quick() { ctx.case(|| format!("{ps:?} of classes {cs:?}, {a:?}"), |ctx| history(ctx, ps, &cs, &[*a])); }
                    else { for z in &ops { ctx.case(|| format!("{ps:?} of classes {cs:?}, {a:?}, {z:?}"), |ctx| history(ctx, ps, &cs, &[*a, *z])); } }
                }
                if ctx.done() { return; }
            }
        }
        if !ctx.quick() {
            for ps in [[0, 0, 0, 0], [0, 0, 1, 1], [0, 0, 1, 2], [0, 0, 0, 1], [0, 0, 0, 2]] { for code in 0..10000usize {
                let cs: Vec<u8> = (0..4).map(|i| (code / 10usize.pow(i) % 10) as u8).collect();
                ctx.case(|| format!("{ps:?} of classes {cs:?}"), |ctx| history(ctx, &ps, &cs, &[]));
            } }
        }
        ctx.family("many traits");
        for picks in 0..=MANY.len() { for order in 0..3usize { ctx.case(|| format!("classes with many traits, {picks} in order {order}"), |ctx| many(ctx, (&MANY, 12, many_scene, reach), picks, order)); } }
        ctx.family("traits of like names");
        for picks in 0..=nearly::LISTS.len() { for order in 0..3usize { ctx.case(|| format!("classes with traits of like names, {picks} in order {order}"), |ctx| many(ctx, (&nearly::LISTS, 14, nearly::scene, nearly::reach), picks, order)); } }
        ctx.family("large trees");
        for n in ctx.pick(vec![5usize, 9, 17, 33, 70], vec![5, 8, 9, 16, 17, 32, 33, 64, 65, 70, 128, 130]) { for form in 0..3 {
            // A fan, a chain, a tree with three children to a node.
            let ps: Vec<usize> = (0..n).map(|i| match form { 0 => 0, 1 => i.saturating_sub(1), _ => i.saturating_sub(1) / 3 }).collect();
            for shift in ctx.pick(vec![0usize, 3, 7], (0..10).collect()) { for step in [1usize, 3, 0] {
                let cs: Vec<u8> = (0..n).map(|i| ((i * step + shift) % CLASSES as usize) as u8).collect();
                let all: Vec<Op> = vec![Op::Bump(n - 1, 0), Op::Bump(n / 2, 1), Op::Add(n - 1, 7), Op::Swap(n - 2, 3), Op::Bump(n, 2), Op::Free(n / 2 + 1), Op::Add(0, 5), Op::Frame, Op::Free(1), Op::Add(0, 6)];
                for part in [&all[..4], &all[4..], &all[6..]] {
                    if n > 60 && part.len() > 4 { continue; }
                    ctx.case(|| format!("{n} nodes in form {form}, classes from {shift} by {step}, {part:?}"), |ctx| history(ctx, &ps, &cs, part));
                }
            } }
        } }
        ctx.family("histories");
        for c0 in 0..CLASSES { for c1 in 0..CLASSES {
            let mut ops: Vec<Op> = vec![Op::Free(1), Op::Frame];
            for t in 0..3 { for i in 0..3 { ops.push(Op::Bump(i, t)); } }
            for c in 0..CLASSES { ops.extend([Op::Add(0, c), Op::Swap(1, c)]); }
            let d: u32 = ctx.pick(2, 3);
            for code in 0..ops.len().pow(d) { let seq: Vec<Op> = (0..d).map(|i| ops[code / ops.len().pow(i) % ops.len()]).collect(); ctx.case(|| format!("[{c0}, {c1}] {seq:?}"), |ctx| history(ctx, &[0, 0], &[c0, c1], &seq)); }
            if ctx.done() { return; }
        } }
        for cs in [[7, 1, 2], [0, 7, 5], [3, 8, 9], [6, 0, 4]] { for ps in [[0, 0, 0], [0, 0, 1]] {
            let ops: Vec<Op> = vec![Op::Free(1), Op::Free(2), Op::Add(0, 3), Op::Add(1, 0), Op::Swap(2, 8), Op::Swap(1, 9), Op::Bump(0, 0), Op::Bump(1, 1), Op::Bump(2, 2), Op::Bump(3, 0), Op::Frame];
            let d: u32 = ctx.pick(4, 5);
            for code in 0..ops.len().pow(d) { let seq: Vec<Op> = (0..d).map(|i| ops[code / ops.len().pow(i) % ops.len()]).collect(); ctx.case(|| format!("{cs:?} {seq:?}"), |ctx| history(ctx, &ps, &cs, &seq)); }
            if ctx.done() { return; }
        } }
    }
};

/*
 * Classes that extend many traits
 */

/// Many traits and classes; each class implements all and extends some.
macro_rules! many_traits { ($give:ident: $($t:ident = $i:expr),*) => {
    macro_rules! $give { ($c:ty) => { $( impl $t for $c {
        fn which(&self) -> (u8, i64, usize) { ($i, *self.id, self as *const _ as usize) }
        fn touch(&mut self) -> (u8, i64, usize) { *self.id += 100; ($i, *self.id, self as *const _ as usize) }
    } )* } }
    /// Which trait the casts to each of them reach.
    pub fn reach(p: &mut Ptr, ids: &mut i64) -> Result<Vec<bool>, String> {
        let mut out: Vec<bool> = Vec::new();
        $( {
            let is: bool = p.is_of::<dyn $t>();
            let a: Option<(u8, i64, usize)> = p.cast::<dyn $t>().to_option().map(|x| x.which());
            if a.is_some() != is || a.is_some_and(|a| (a.0, a.1) != ($i, *ids)) { return Err(format!("for {} the query is {is} and the cast reaches {a:?}", stringify!($t))); }
            let z: Option<(u8, i64, usize)> = p.cast_mut::<dyn $t>().to_option().map(|x| x.touch());
            if is { *ids += 100; }
            if z != a.map(|a| (a.0, a.1 + 100, a.2)) { return Err(format!("for {} the cast reaches {a:?} and the mutable one {z:?}", stringify!($t))); }
            out.push(is);
        } )*
        Ok(out)
    }
} }
macro_rules! traits_called { ($($t:ident),*) => { $( pub trait $t { fn which(&self) -> (u8, i64, usize); fn touch(&mut self) -> (u8, i64, usize); } )* } }
traits_called!(M0, M1, M2, M3, M4, M5, M6, M7, M8, M9, M10, M11);
many_traits!(give_all: M0 = 0, M1 = 1, M2 = 2, M3 = 3, M4 = 4, M5 = 5, M6 = 6, M7 = 7, M8 = 8, M9 = 9, M10 = 10, M11 = 11);

macro_rules! many_body { ($give:ident, $name:ident : $($t:ident),*) => {
    class! {
        pub declare $name extends $($t),*;
        pub let id: i64;
        hk _init(id: i64) {}
    }
    $give!($name);
} }
many_body!(give_all, L4: M0, M1, M2, M3);
many_body!(give_all, L5: M0, M1, M2, M3, M4);
many_body!(give_all, L6: M11, M9, M7, M5, M3, M1);
many_body!(give_all, L7: M6, M5, M4, M3, M2, M1, M0);
many_body!(give_all, L8: M0, M2, M4, M6, M8, M10, M11, M9);
many_body!(give_all, L9: M3, M4, M5, M6, M7, M8, M9, M10, M11);
many_body!(give_all, L12: M0, M1, M2, M3, M4, M5, M6, M7, M8, M9, M10, M11);

/// Traits whose names are nearly those of others, or wholly, from other modules.
#[allow(non_camel_case_types)]
mod nearly {
    use node_tree::prelude::*;
    use super::Ptr;
    pub mod first  { traits_called!(Ab, Cd, Node2); }
    pub mod second { traits_called!(Ab, AB); pub mod third { traits_called!(Ab, Debug); } }
    use first::{ Ab as FirstAb, Cd, Node2 };
    use second::{ Ab as SecondAb, third::{ Ab as Third_Ab, Debug as ThirdDebug } };
    traits_called!(Ab, AB, aB, ab, Ab_, _Ab, A, r#move);
    many_traits!(give_near: Ab = 0, AB = 1, aB = 2, ab = 3, Ab_ = 4, _Ab = 5, A = 6, r#move = 7, FirstAb = 8, SecondAb = 9, Third_Ab = 10, ThirdDebug = 11, Cd = 12, Node2 = 13);
    many_body!(give_near, P0: Ab, AB);
    many_body!(give_near, P1: AB, Ab);
    many_body!(give_near, P2: aB, ab, Ab_, _Ab);
    many_body!(give_near, P3: r#move, A);
    many_body!(give_near, P4: FirstAb, SecondAb);
    many_body!(give_near, P5: Third_Ab, Ab, SecondAb, FirstAb);
    many_body!(give_near, P6: ThirdDebug, Cd, Node2, A, AB, aB);
    many_body!(give_near, P7: Ab, AB, aB, ab, Ab_, _Ab, A, r#move, FirstAb, SecondAb, Third_Ab, ThirdDebug, Cd, Node2);
    pub const LISTS: [&[usize]; 8] = [&[0, 1], &[0, 1], &[2, 3, 4, 5], &[6, 7], &[8, 9], &[0, 8, 9, 10], &[1, 2, 6, 11, 12, 13], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13]];
    pub fn scene(which: usize, id: i64) -> NodeScene {
        match which { 0 => NodeScene::new(P0::new(id)), 1 => NodeScene::new(P1::new(id)), 2 => NodeScene::new(P2::new(id)), 3 => NodeScene::new(P3::new(id)), 4 => NodeScene::new(P4::new(id)), 5 => NodeScene::new(P5::new(id)), 6 => NodeScene::new(P6::new(id)), _ => NodeScene::new(P7::new(id)) }
    }
}

type Lists = (&'static [&'static [usize]], usize, fn(usize, i64) -> NodeScene, fn(&mut Ptr, &mut i64) -> Result<Vec<bool>, String>);

const MANY: [&[usize]; 7] = [&[0, 1, 2, 3], &[0, 1, 2, 3, 4], &[1, 3, 5, 7, 9, 11], &[0, 1, 2, 3, 4, 5, 6], &[0, 2, 4, 6, 8, 9, 10, 11], &[3, 4, 5, 6, 7, 8, 9, 10, 11], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]];

fn many_scene(which: usize, id: i64) -> NodeScene {
    match which { 0 => NodeScene::new(L4::new(id)), 1 => NodeScene::new(L5::new(id)), 2 => NodeScene::new(L6::new(id)), 3 => NodeScene::new(L7::new(id)), 4 => NodeScene::new(L8::new(id)), 5 => NodeScene::new(L9::new(id)), _ => NodeScene::new(L12::new(id)) }
}

fn many(ctx: &mut Ctx, (lists, traits, many_scene, reach): Lists, picks: usize, order: usize) -> Res {
    // A root, the first classes below it in that order, and one of a class without traits.
    let mut root: NodeScene = NodeScene::new(K0::new(-1));
    let which: Vec<usize> = (0..picks).map(|i| match order { 0 => i, 1 => picks - 1 - i, _ => (i * 3 + 1) % lists.len() }).collect();
    for (i, &w) in which.iter().enumerate() { root.append(many_scene(w, i as i64)); }
    root.append(NodeScene::new(K0::new(-2)));
    let mut l: Lab = Lab::new(root);
    let rids: Vec<RID> = l.pre_order();
    let mut ids: Vec<i64> = (0..picks as i64).collect();
    for round in 0..3 {
        for (i, &w) in which.iter().enumerate() {
            let r: RID = rids[i + 1];
            if l.tree().get_node(r).is_none() { continue; }
            let mut p: Ptr = l.node(r).this_dyn();
            let got: Vec<bool> = reach(&mut p, &mut ids[i])?;
            let want: Vec<bool> = (0..traits).map(|t| lists[w].contains(&t)).collect();
            if got != want { return Err(format!("in round {round} the node of list {w} is of {got:?} instead of {want:?}").into()); }
            if round == 1 && i % 2 == 1 { l.node(r).free(); if reach(&mut p, &mut 0)?.contains(&true) { return Err("a departed node can be cast".into()); } }
        }
        for r in [rids[0], rids[picks + 1]] { if reach(&mut l.node(r).this_dyn(), &mut 0)?.contains(&true) { return Err("a node without traits is of one".into()); } }
        ctx.st.executions += 1; ctx.st.transitions += (traits * picks) as u64;
    }
    Ok(())
}
