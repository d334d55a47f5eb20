//! What a node answers about its surroundings (C27).

use std::cell::RefCell;
use std::panic::{ catch_unwind, AssertUnwindSafe };

use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use node_tree::structs::node_tree_base::{ NodeIdentity, NodeTreeBase };
use node_tree::traits::node_getter::NodeGetter;

use crate::ctx::{ Ctx, Fail, Meta, Res, LAST_PANIC };
use crate::lab::Lab;
use crate::props::{ b, Prop };

/*
 * The model
 */

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Spot { tag: u32, name: String, class: u8, up: Option<usize>, owner: usize, kids: Vec<usize>, live: bool }

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
struct Model { spots: Vec<Spot>, single: Vec<(String, usize)> }

impl Model {
    fn live(&self) -> Vec<usize> {
        let mut out: Vec<usize> = Vec::new();
        if self.spots.first().is_some_and(|s| s.live) { self.below(0, &mut out); }
        out
    }
    fn below(&self, i: usize, out: &mut Vec<usize>) { out.push(i); for &k in &self.spots[i].kids { self.below(k, out); } }
    fn depth(&self, i: usize) -> usize { match self.spots[i].up { Some(u) => self.depth(u) + 1, None => 0 } }
    fn ups(&self, i: usize) -> Vec<usize> { let mut v: Vec<usize> = vec![i]; let mut i: usize = i; while let Some(u) = self.spots[i].up { v.push(u); i = u; } v }
    fn path(&self, i: usize) -> String { let mut p: String = String::new(); for &u in self.ups(i).iter().rev() { p.push('/'); p.push_str(&self.spots[u].name); } p }
    fn layers(&self, i: usize) -> Vec<usize> {
        let (mut out, mut layer): (Vec<usize>, Vec<usize>) = (vec![i], vec![i]);
        while !layer.is_empty() { layer = layer.iter().flat_map(|&l| self.spots[l].kids.clone()).collect(); out.extend(&layer); }
        out
    }
    /// A path from one to the other: up, then down.
    fn way(&self, from: usize, to: usize) -> String {
        let (a, z): (Vec<usize>, Vec<usize>) = (self.ups(from), self.ups(to));
        let meet: usize = *a.iter().find(|x| z.contains(x)).unwrap();
        let mut segs: Vec<String> = vec!["..".to_string(); a.iter().position(|x| *x == meet).unwrap()];
        segs.extend(z.iter().take_while(|x| **x != meet).map(|x| self.spots[*x].name.clone()).collect::<Vec<_>>().into_iter().rev());
        if segs.is_empty() { ".".into() } else { segs.join("/") }
    }
    fn kill(&mut self, i: usize) {
        let mut all: Vec<usize> = Vec::new();
        self.below(i, &mut all);
        if let Some(u) = self.spots[i].up { self.spots[u].kids.retain(|k| *k != i); }
        for k in all { self.spots[k].live = false; self.single.retain(|s| s.1 != k); }
    }
    fn put(&mut self, sc: &Sc, up: Option<usize>, owner: Option<usize>) {
        let i: usize = self.spots.len();
        let owner: usize = match owner { Some(o) if !sc.owner => o, _ => i };
        self.spots.push(Spot { tag: sc.tag, name: format!("n{}", sc.tag), class: sc.class, up, owner, kids: Vec::new(), live: true });
        if let Some(u) = up { self.spots[u].kids.push(i); }
        for k in &sc.kids { self.put(k, Some(i), Some(owner)); }
    }
}

/*
 * Classes
 */

struct Watch { model: Model, on: bool, found: Option<String>, calls: u64 }

thread_local! { static WATCH: RefCell<Watch> = const { RefCell::new(Watch { model: Model { spots: Vec::new(), single: Vec::new() }, on: false, found: None, calls: 0 }) }; }

thread_local! { static ASKED: RefCell<Option<Vec<usize>>> = const { RefCell::new(None) }; }

/// Whether that node is among those that are asked, and asked about; in large trees only some are.
fn asked(i: usize) -> bool { ASKED.with(|a| a.borrow().as_ref().is_none_or(|a| a.contains(&i))) }

fn look(n: &dyn Node, hook: &str) {
    if ASKED.with(|a| a.borrow().is_some()) { let t: usize = tag_of(n) as usize; if !asked(t) { return; } }
    let model: Option<Model> = WATCH.with(|w| { let mut w = w.borrow_mut(); if w.on && w.found.is_none() { w.calls += 1; Some(w.model.clone()) } else { None } });
    let Some(m) = model else { return };
    let res: Result<(), String> = (|| {
        let i: usize = m.spots.iter().position(|s| s.tag == tag_of(n)).ok_or("a hook of a node that should not be there")?;
        let rids: Vec<Option<RID>> = bind(n.tree_mut().ok_or("no tree")?, &m)?;
        ask(n, i, &m, &rids)
    })();
    if let Err(e) = res { WATCH.with(|w| w.borrow_mut().found = Some(format!("inside {hook} of {:?}: {e}", n.name()))); }
}

macro_rules! asking {
    ($($name:ident),*) => {$(
        class! {
            pub declare $name;
            pub export let tag: u32;
            hk _init(t: u32) { let tag: u32 = t; }
            hk loaded(&mut self)                               { look(self.as_dyn(), "loaded"); }
            hk ready(&mut self)                                { look(self.as_dyn(), "ready"); }
            hk process(&mut self, _delta: f32)                 { look(self.as_dyn(), "process"); }
            hk terminal(&mut self, _reason: TerminationReason) { look(self.as_dyn(), "terminal"); }
        }
    )*};
}
asking!(Ka, Kb);

fn tag_of(n: &dyn Node) -> u32 {
    let any: &dyn std::any::Any = n.as_any_ref();
    if let Some(n) = any.downcast_ref::<Ka>() { *n.tag } else if let Some(n) = any.downcast_ref::<Kb>() { *n.tag } else { u32::MAX }
}

/// A getter of the user's own, which answers with a fixed id.
#[derive(Debug)]
struct Fixed(Option<RID>);
impl NodeGetter for Fixed { fn get_from(&self, _: &NodeTreeBase, _: Option<RID>) -> Option<RID> { self.0 } }

/// A getter that answers with the asking node's parent, as the tree knows it.
#[derive(Debug)]
struct Asker;
impl NodeGetter for Asker { fn get_from(&self, tree: &NodeTreeBase, caller: Option<RID>) -> Option<RID> { caller.filter(|c| tree.get_node(*c).is_some()) } }

/*
 * Scenes
 */

#[derive(Clone, PartialEq, Eq, Hash)]
struct Sc { tag: u32, class: u8, owner: bool, kids: Vec<Sc> }

impl std::fmt::Debug for Sc {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}{}{}", ["a", "b"][self.class as usize], self.tag, if self.owner { "!" } else { "" })?;
        if !self.kids.is_empty() { write!(f, "{:?}", self.kids)?; }
        Ok(())
    }
}

impl Sc {
    fn node(&self) -> Box<dyn Node> {
        let mut n: Box<dyn Node> = if self.class == 0 { Box::new(Ka::new(self.tag)) } else { Box::new(Kb::new(self.tag)) };
        n.set_name(&format!("n{}", self.tag));
        n
    }
    fn scene(&self) -> NodeScene {
        let mut s: NodeScene = NodeScene::new_dyn(self.node());
        for k in &self.kids { if k.owner { s.append_as_owner(k.scene()); } else { s.append(k.scene()); } }
        s
    }
}

/// A scene whose nodes get new tags and names on their way into the tree.
struct Retag(NodeScene, u32);
impl Instanceable for Retag {
    fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) {
        let mut t: u32 = self.1;
        self.0.iterate(|up, node, owner| {
            let n: &mut dyn Node = unsafe { &mut *node };
            let any: &mut dyn std::any::Any = n.as_any_mut();
            if let Some(k) = any.downcast_mut::<Ka>() { *k.tag = t; } else if let Some(k) = any.downcast_mut::<Kb>() { *k.tag = t; }
            n.set_name(&format!("n{t}"));
            t += 1;
            iterator(up, node, owner);
        });
    }
}

/// All scenes of n nodes, with every class and owner for each.
fn scenes(n: usize, owners: bool) -> Vec<Sc> {
    fn forests(n: usize) -> Vec<Vec<Sc>> {
        if n == 0 { return vec![Vec::new()]; }
        let mut out: Vec<Vec<Sc>> = Vec::new();
        for first in 1..=n { for t in forests(first - 1) { for rest in forests(n - first) {
            let mut f: Vec<Sc> = vec![Sc { tag: 0, class: 0, owner: false, kids: t.clone() }];
            f.extend(rest);
            out.push(f);
        } } }
        out
    }
    let mut out: Vec<Sc> = Vec::new();
    for kids in forests(n - 1) {
        let top: Sc = Sc { tag: 0, class: 0, owner: true, kids };
        for classes in 0..1u32 << n { for own in 0..if owners { 1u32 << (n - 1) } else { 1 } {
            let mut s: Sc = top.clone();
            let mut i: u32 = 0;
            fn mark(s: &mut Sc, i: &mut u32, classes: u32, own: u32) {
                s.tag = *i; s.class = (classes >> *i & 1) as u8;
                if *i > 0 { s.owner = own >> (*i - 1) & 1 == 1; }
                *i += 1;
                for k in &mut s.kids { mark(k, i, classes, own); }
            }
            mark(&mut s, &mut i, classes, own);
            out.push(s);
        } }
    }
    out
}

/*
 * Asking
 */

/// The id of every live node of the model, found by its tag without asking any node.
fn bind(tree: &dyn NodeTree, m: &Model) -> Result<Vec<Option<RID>>, String> {
    let mut out: Vec<Option<RID>> = vec![None; m.spots.len()];
    for r in 0..(m.spots.len() + 4) as RID {
        let Some(n) = tree.get_node(r) else { continue };
        let i: usize = m.spots.iter().position(|s| s.tag == tag_of(n)).ok_or("the tree holds a node of an unknown tag")?;
        if !m.spots[i].live { return Err(format!("the tree still holds {:?}", m.spots[i].name)); }
        if out[i].replace(r).is_some() { return Err(format!("two ids hold {:?}", m.spots[i].name)); }
    }
    if let Some(i) = (0..out.len()).find(|&i| m.spots[i].live && out[i].is_none()) { return Err(format!("{:?} is not in the tree", m.spots[i].name)); }
    Ok(out)
}

fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} is {got:?} instead of {want:?}")) }
}

/// A dynamic answer: the node, and what the pointer says of it.
fn dynamic(what: &str, got: Result<TpDyn, NodeError>, want: Result<usize, NodeError>, m: &Model, rids: &[Option<RID>]) -> Result<(), String> {
    match (got, want) {
        (Ok(p), Ok(w)) => {
            if !p.is_valid() || p.is_null() { return Err(format!("{what}: the pointer is not valid")); }
            same(what, Some(p.rid()), rids[w])?;
            same(&format!("the tag of {what}"), tag_of(p.get()), m.spots[w].tag)?;
            same(&format!("the class of {what}"), (p.is::<Ka>(), p.is::<Kb>()), (m.spots[w].class == 0, m.spots[w].class == 1))
        },
        (Err(e), Err(w)) => same(&format!("the error of {what}"), e, w),
        (Ok(p), Err(w))  => Err(format!("{what} is {:?} instead of the error {w:?}", p.name())),
        (Err(e), Ok(w))  => Err(format!("{what} is the error {e:?} instead of {:?}", m.spots[w].name))
    }
}

/// A typed answer, asked for as class `c`.
fn typed<T: Node>(what: &str, c: u8, got: Result<Tp<T>, NodeError>, want: Result<usize, NodeError>, m: &Model, rids: &[Option<RID>]) -> Result<(), String> {
    let want: Result<usize, NodeError> = want.and_then(|w| if m.spots[w].class == c { Ok(w) } else { Err(NodeError::TPError(TPError::WrongType)) });
    match (got, want) {
        (Ok(p), Ok(w)) => {
            if !p.is_valid() || p.is_null() { return Err(format!("{what} as class {c}: the pointer is not valid")); }
            same(&format!("{what} as class {c}"), Some(p.rid()), rids[w])?;
            same(&format!("the tag of {what} as class {c}"), tag_of(p.get().as_dyn()), m.spots[w].tag)
        },
        (Err(e), Err(w)) => same(&format!("the error of {what} as class {c}"), e, w),
        (Ok(p), Err(w))  => Err(format!("{what} as class {c} is {:?} instead of the error {w:?}", p.name())),
        (Err(e), Ok(w))  => Err(format!("{what} as class {c} is the error {e:?} instead of {:?}", m.spots[w].name))
    }
}

/// An answer by path; which of the two kinds of invalid path it is stays open.
fn by_path<G: NodeGetter + Clone>(what: &str, n: &dyn Node, g: G, mention: &str, want: Option<usize>, m: &Model, rids: &[Option<RID>]) -> Result<(), String> {
    let invalid = |e: &NodeError| -> bool { matches!(e, NodeError::InvalidPath(t) | NodeError::InvalidRootPath(t) if t.contains(mention)) };
    match want {
        Some(w) => {
            dynamic(what, n.get_node_dyn(g.clone()).to_result(), Ok(w), m, rids)?;
            typed::<Ka>(what, 0, n.get_node::<Ka>(g.clone()).to_result(), Ok(w), m, rids)?;
            typed::<Kb>(what, 1, n.get_node::<Kb>(g).to_result(), Ok(w), m, rids)
        },
        None => {
            let all: [Option<NodeError>; 3] = [n.get_node_dyn(g.clone()).to_result().err(), n.get_node::<Ka>(g.clone()).to_result().err(), n.get_node::<Kb>(g).to_result().err()];
            for e in all {
                match e {
                    None => return Err(format!("{what} leads somewhere")),
                    Some(e) => if !invalid(&e) { return Err(format!("the error of {what} is {e:?}")); } else if !e.to_string().contains(mention) { return Err(format!("the error of {what} reads {e}")); }
                }
            }
            Ok(())
        }
    }
}

/// Every question to one node.
fn ask(n: &dyn Node, i: usize, m: &Model, rids: &[Option<RID>]) -> Result<(), String> {
    let s: &Spot = &m.spots[i];
    let kids: usize = s.kids.len();
    same("the name", n.name(), s.name.as_str())?;
    same("the id", Some(n.rid()), rids[i])?;
    same("the depth", n.depth(), m.depth(i))?;
    same("the number of children", n.num_children(), kids)?;
    same("whether it is childless", n.childless(), kids == 0)?;
    same("whether it is the root", n.is_root(), s.up.is_none())?;
    same("whether it is an owner", n.is_owner(), s.owner == i)?;
    same("whether it is in a tree", (n.in_tree(), n.is_stray()), (true, false))?;
    same("its absolute path", n.get_absolute_path().to_string(), m.path(i))?;
    same("the listing with itself", n.top_down(true), m.layers(i).iter().map(|l| rids[*l].unwrap()).collect::<Vec<_>>())?;
    same("the listing without itself", n.top_down(false), m.layers(i)[1..].iter().map(|l| rids[*l].unwrap()).collect::<Vec<_>>())?;
    same("the list of children", n.children().iter().map(|c| Some(c.rid())).collect::<Vec<_>>(), s.kids.iter().map(|k| rids[*k]).collect::<Vec<_>>())?;

    for k in (0..kids + 2).chain([usize::MAX]) {
        let what: String = format!("child {k}");
        let want: Result<usize, NodeError> = s.kids.get(k).copied().ok_or(NodeError::IndexOutOfRange { index: k, children_count: kids });
        if let Err(e) = &want { let t: String = e.to_string(); if !t.contains(&k.to_string()) || !t.contains(&kids.to_string()) { return Err(format!("the error of {what} of {kids} reads {t}")); } }
        dynamic(&what, n.get_child_dyn(k).to_result(), want.clone(), m, rids)?;
        typed::<Ka>(&what, 0, n.get_child::<Ka>(k).to_result(), want.clone(), m, rids)?;
        typed::<Kb>(&what, 1, n.get_child::<Kb>(k).to_result(), want, m, rids)?;
    }

    let up: Result<usize, NodeError> = s.up.ok_or(NodeError::NoParent);
    dynamic("the parent", n.parent_dyn().to_result(), up.clone(), m, rids)?;
    typed::<Ka>("the parent", 0, n.parent::<Ka>().to_result(), up.clone(), m, rids)?;
    typed::<Kb>("the parent", 1, n.parent::<Kb>().to_result(), up, m, rids)?;

    dynamic("the owner", Ok(n.owner_dyn()), Ok(s.owner), m, rids)?;
    typed::<Ka>("the owner", 0, n.owner::<Ka>().to_result(), Ok(s.owner), m, rids)?;
    typed::<Kb>("the owner", 1, n.owner::<Kb>().to_result(), Ok(s.owner), m, rids)?;

    dynamic("itself", Ok(n.this_dyn()), Ok(i), m, rids)?;
    if s.class == 0 { typed::<Ka>("itself", 0, Ok(n.this::<Ka>()), Ok(i), m, rids)?; } else { typed::<Kb>("itself", 1, Ok(n.this::<Kb>()), Ok(i), m, rids)?; }

    for t in m.live().into_iter().filter(|t| asked(*t)) {
        let (way, abs): (String, String) = (m.way(i, t), m.path(t));
        by_path(&format!("{way:?}"), n, NodePath::from_str(&way), "", Some(t), m, rids)?;
        by_path(&format!("{abs:?}"), n, NodePath::from_str(&abs), "", Some(t), m, rids)?;
        same(&format!("the id at {way:?}"), n.get_node_raw(NodePath::from_str(&way)), rids[t])?;
        by_path("what a getter of one's own names", n, Got(rids[t]), "", Some(t), m, rids)?;
    }
    by_path("what a getter told of the asker names", n, Who, "", Some(i), m, rids)?;
    let over: String = vec![".."; m.depth(i) + 1].join("/");
    for (bad, mention) in [("nobody", "nobody"), ("/nobody", "nobody"), (&over, ".."), ("./nobody/..", "nobody")] {
        by_path(&format!("{bad:?}"), n, NodePath::from_str(bad), mention, None, m, rids)?;
    }
    same("the id at \"nobody\"", n.get_node_raw(NodePath::from_str("nobody")), None)?;
    for t in (0..m.spots.len()).filter(|t| asked(*t)) {
        let name: &str = &m.spots[t].name;
        let kid: Option<usize> = s.kids.iter().copied().find(|k| m.spots[*k].name == name);
        by_path(&format!("{name:?}"), n, NodePath::from_str(name), name, kid, m, rids)?;
    }
    by_path("what a getter without an answer names", n, Got(None), "Got", None, m, rids)?;
    // An id that no longer, or never, names a node.
    let free: RID = (0..).find(|r| !rids.contains(&Some(*r))).unwrap();
    for dead in [free, 77_777, RID::MAX] {
        let null: NodeError = NodeError::TPError(TPError::IsNull);
        same("the error of a getter that names a dead id", n.get_node_dyn(Got(Some(dead))).to_result().err(), Some(null.clone()))?;
        same("the error of a getter that names a dead id", n.get_node::<Ka>(Got(Some(dead))).to_result().err(), Some(null))?;
    }

    for name in ["S0", "S1", "n0", ""] {
        let want: Option<usize> = m.single.iter().find(|s| s.0 == name).map(|s| s.1);
        by_path(&format!("the singleton {name:?}"), n, name, name, want, m, rids)?;
        by_path(&format!("the singleton {name:?}"), n, name.to_string(), name, want, m, rids)?;
    }
    Ok(())
}

/// `Fixed` and `Asker`, which can be copied.
#[derive(Debug, Clone)] struct Got(Option<RID>);
impl NodeGetter for Got { fn get_from(&self, t: &NodeTreeBase, c: Option<RID>) -> Option<RID> { Fixed(self.0).get_from(t, c) } }
#[derive(Debug, Clone)] struct Who;
impl NodeGetter for Who { fn get_from(&self, t: &NodeTreeBase, c: Option<RID>) -> Option<RID> { Asker.get_from(t, c) } }

/// Every question to the tree about ids.
fn ask_tree(t: &mut dyn NodeTree, m: &Model, rids: &[Option<RID>], deep: bool) -> Result<(), String> {
    let top: RID = (m.spots.len() + 2) as RID;
    let all: Vec<RID> = (0..top).chain([RID::MAX]).collect();
    let tag = |r: RID| -> Option<u32> { rids.iter().position(|x| *x == Some(r)).map(|i| m.spots[i].tag) };
    for &r in &all {
        same(&format!("the node of id {r}"), t.get_node(r).map(tag_of), tag(r))?;
        same(&format!("the node of id {r}, to be changed"), t.get_node_mut(r).map(|n| tag_of(n)), tag(r))?;
        same(&format!("the pointer to the node of id {r}"), t.get_node_mut_raw(r).map(|n| tag_of(unsafe { &*n })), tag(r))?;
        same(&format!("the constant pointer to the node of id {r}"), NodeTreeBase::get_node_raw(t, r).map(|n| tag_of(unsafe { &*n })), tag(r))?;
        let single: Option<String> = m.single.iter().find(|s| rids[s.1] == Some(r)).map(|s| s.0.clone());
        let ident: Option<Option<String>> = t.get_node_identity(r).map(|i| match i { NodeIdentity::UniqueName(n) => Some(n), NodeIdentity::NodePath => None });
        same(&format!("the identity of id {r}"), ident, tag(r).map(|_| single))?;
    }
    let want: Vec<Option<u32>> = all.iter().map(|r| tag(*r)).collect();
    let live: Vec<u32> = want.iter().flatten().copied().collect();
    same("the nodes of all ids", t.get_nodes(&all).into_iter().map(|n| n.map(tag_of)).collect::<Vec<_>>(), want.clone())?;
    same("the nodes of all ids, to be changed", t.get_nodes_mut(&all).into_iter().map(|n| n.map(|n| tag_of(n))).collect::<Vec<_>>(), want)?;
    same("the valid nodes of all ids", t.get_all_valid_nodes(&all).into_iter().map(tag_of).collect::<Vec<_>>(), live.clone())?;
    same("the valid nodes of all ids, to be changed", t.get_all_valid_nodes_mut(&all).into_iter().map(|n| tag_of(n)).collect::<Vec<_>>(), live.clone())?;
    let back: Vec<RID> = all.iter().rev().copied().collect();
    same("the valid nodes of all ids, backwards", t.get_all_valid_nodes(&back).into_iter().map(tag_of).collect::<Vec<_>>(), live.iter().rev().copied().collect::<Vec<_>>())?;
    same("the nodes of no ids", (t.get_nodes(&[]).len(), t.get_nodes_mut(&[]).len()), (0, 0))?;
    if m.spots[0].live {
        same("the root", tag_of(t.root()), m.spots[0].tag)?;
        same("the root, to be changed", tag_of(t.root_mut()), m.spots[0].tag)?;
        // The same node twice: only to be read.
        same("a node twice", t.get_nodes(&[0, 0]).into_iter().flatten().map(tag_of).collect::<Vec<_>>(), vec![m.spots[0].tag; 2])?;
        same("a node twice, valid", t.get_all_valid_nodes(&[0, 0]).into_iter().map(tag_of).collect::<Vec<_>>(), vec![m.spots[0].tag; 2])?;
        // Every list of up to three ids out of three, living and dead: refused exactly if an id is repeated.
        let some: [RID; 3] = [0, all[all.len() - 2], all[m.spots.len() / 2]];
        for code in 0..if deep { 36usize } else { 9 } {
            let list: Vec<RID> = if code < 9 { vec![some[code / 3], some[code % 3]] } else { vec![some[(code - 9) / 9], some[(code - 9) / 3 % 3], some[(code - 9) % 3]] };
            let twice: bool = (1..list.len()).any(|i| list[..i].contains(&list[i]));
            let want: Option<Vec<Option<u32>>> = (!twice).then(|| list.iter().map(|r| tag(*r)).collect());
            let got:  Option<Vec<Option<u32>>> = catch_unwind(AssertUnwindSafe(|| t.get_nodes_mut(&list).into_iter().map(|n| n.map(|n| tag_of(n))).collect())).ok();
            same(&format!("the nodes of {list:?}, to be changed"), got, want.clone())?;
            let got: Option<Vec<u32>> = catch_unwind(AssertUnwindSafe(|| t.get_all_valid_nodes_mut(&list).into_iter().map(|n| tag_of(n)).collect())).ok();
            same(&format!("the valid nodes of {list:?}, to be changed"), got, want.map(|w| w.into_iter().flatten().collect()))?;
        }
    } else {
        if catch_unwind(AssertUnwindSafe(|| t.root().depth())).is_ok() { return Err("a freed root is still there".into()); }
        if catch_unwind(AssertUnwindSafe(|| t.root_mut().depth())).is_ok() { return Err("a freed root is still there to be changed".into()); }
    }
    forget_panic();
    Ok(())
}

fn forget_panic() { LAST_PANIC.with(|p| p.borrow_mut().clear()); }

/*
 * C27
 */

pub const C27: Prop = Prop {
    meta: Meta {
        id: "C27",
        rule: "the states reached are all trees over two classes with every owner, after every operation history up to the length bound; in each of them every node is asked every question - from outside, and in the histories also from inside every hook that runs - and the answers are compared with a model of the structure; every way of asking that fails is repeated with unwrap, and every pointer kept until what it points to is gone, to see on whose behalf the failure is logged; strays come from every origin",
        bounds: |t| b(t, "trees of up to 5 nodes with 2 classes and every owner; 3 nodes and 1 operation, 2 nodes and 2 operations; with one owner, 4 nodes and 1 operation, 3 nodes (the first two of different classes) and 2 operations; strays of 2 classes from 7 origins; blame over trees of 3 nodes, every pointer a node can get and every way of failing to use it; up to 17 nodes of trees of up to 300, after up to 3 operations; nodes with up to 2100 children",
                          "trees of up to 6 nodes; 4 nodes and 1 operation, 3 nodes and 2 operations, 2 nodes and 3 operations, 4 nodes and 2 operations with one owner; blame over trees of 4 nodes; up to 17 nodes of trees of up to 513, after up to 3 operations; nodes with up to 4097 children"),
        assumptions: &["which of the two kinds of invalid path a failed lookup reports is left open; it has to name the path", "where the documentation says that a question panics outside a tree, it has to panic; the message is left open"]
    },
    body: |ctx| {
        for n in 1..=ctx.pick(5, 6) {
            ctx.family(&format!("every question, trees of {n}"));
            for sc in scenes(n, true) {
                if ctx.done() { return; }
                ctx.case(|| format!("{sc:?}"), |ctx| history(ctx, &sc, &[]));
            }
        }
        for (n, len, owners) in ctx.pick(vec![(3, 1, true), (2, 2, true), (4, 1, false), (3, 2, false)], vec![(4, 1, true), (3, 2, true), (2, 3, true), (4, 2, false)]) {
            ctx.family(&format!("trees of {n} after {len} operations"));
            for sc in scenes(n, owners) {
                if ctx.quick() && n == 3 && len == 2 && (sc.class != 0 || sc.kids[0].class != 1) { continue; }
                let ops: Vec<Q> = questions(n);
                let mut hs: Vec<Vec<Q>> = vec![vec![]];
                for _ in 0..len { hs = hs.into_iter().flat_map(|h| ops.iter().map(move |o| { let mut h = h.clone(); h.push(*o); h })).collect(); }
                for h in hs {
                    if ctx.done() { return; }
                    ctx.case(|| format!("{sc:?}, then {h:?}"), |ctx| history(ctx, &sc, &h));
                }
            }
        }
        ctx.family("large trees");
        for n in ctx.pick(vec![9u32, 17, 33, 65, 130, 300], vec![8, 9, 16, 17, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513]) { for form in 0..4u32 { for owners in 0..3u32 {
            let up = |i: u32| -> u32 { match form { 0 => 0, 1 => i - 1, 2 => (i - 1) / 2, _ => if i % 3 == 0 { i - 3 } else { i - i % 3 } } };
            fn grow(i: u32, n: u32, up: &dyn Fn(u32) -> u32, dress: &dyn Fn(u32) -> (u8, bool), next: &mut u32) -> Sc {
                let tag: u32 = *next;
                *next += 1;
                let (class, owner): (u8, bool) = dress(i);
                let kids: Vec<u32> = (1..n).filter(|k| up(*k) == i).collect();
                Sc { tag, class, owner, kids: kids.into_iter().map(|k| grow(k, n, up, dress, next)).collect() }
            }
            let sc: Sc = grow(0, n, &up, &|i| ((i % 3 == 1) as u8, match owners { 0 => i == 0, 1 => i % 5 == 3, _ => i == n / 2 }), &mut 0);
            let ops: [&[Q]; 4] = [&[], &[Q::Node(0), Q::Free(3)], &[Q::Scene(4), Q::Name(2), Q::Remove(0, 0)], &[Q::Branch(1, 2), Q::Single(1, 0), Q::Frame]];
            for ops in ops {
                if ctx.done() { return; }
                ctx.case(|| format!("{n} nodes in form {form}, owners in pattern {owners}, {ops:?}"), |ctx| {
                    let some: Vec<usize> = [0, 1, 2, 7, n / 2 - 1, n / 2, n / 2 + 1, n - 2, n - 1, n, n + 1, n + 2, 254, 255, 256, 257, 258].into_iter().map(|i| i as usize).collect();
                    ASKED.with(|a| *a.borrow_mut() = Some(some));
                    struct All; impl Drop for All { fn drop(&mut self) { ASKED.with(|a| *a.borrow_mut() = None); } }
                    let _all: All = All;
                    history(ctx, &sc, ops)
                });
            }
        } } }
        ctx.family("wide nodes");
        for n in ctx.pick(vec![255usize, 256, 257, 513, 1025, 2100], vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2100, 4097]) { for below in [false, true] {
            ctx.case(|| format!("a node with {n} children, below the root {below}"), |ctx| {
                let make = |i: usize| -> NodeScene { if i % 3 == 1 { let mut x: Ka = Ka::new(i as u32); x.set_name(&format!("n{i}x")); NodeScene::new(x) } else { let mut x: Kb = Kb::new(i as u32); x.set_name(&format!("n{i}x")); NodeScene::new(x) } };
                let mut wide: NodeScene = make(if below { 2 } else { 0 });
                for i in 0..n { wide.append(make(i + if below { 3 } else { 1 })); }
                let scene: NodeScene = if below { let mut root: NodeScene = make(0); root.append(make(1)); root.append(wide); root.append(make(n + 3)); root } else { wide };
                let mut l: Lab = Lab::new(scene);
                let at: RID = if below { l.at(0).children()[1].rid() } else { 0 };
                let first: usize = if below { 3 } else { 1 };
                let want: Vec<RID> = (first..first + n).map(|i| l.tree().get_node_rid(NodePath::from_str(&if below { format!("/n0x/n2x/n{i}x") } else { format!("/n0x/n{i}x") }), None).unwrap_or(RID::MAX)).collect();
                let node: &dyn Node = l.node(at);
                if node.num_children() != n { return Err(format!("there are {} children instead of {n}", node.num_children()).into()); }
                if node.children().iter().map(|c| c.rid()).collect::<Vec<_>>() != want { return Err("the list of children is not in order".into()); }
                if node.top_down(false) != want { return Err("the nodes below are not in order".into()); }
                for (i, w) in want.iter().enumerate() {
                    let (c, t): (Option<RID>, Option<RID>) = (node.get_child_dyn(i).to_option().map(|c| c.rid()), if (first + i) % 3 == 1 { node.get_child::<Ka>(i).to_option().map(|c| c.rid()) } else { node.get_child::<Kb>(i).to_option().map(|c| c.rid()) });
                    if c != Some(*w) || t != Some(*w) { return Err(format!("child {i} is {c:?} or {t:?} instead of {w}").into()); }
                    if node.get_child_dyn(i).to_option().map(|c| c.name().to_string()) != Some(format!("n{}x", first + i)) { return Err(format!("child {i} has another name").into()); }
                }
                for i in [n, n + 1, n + 256, n + 65_536, 1 << 32, usize::MAX / 2, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX] { if node.get_child_dyn(i).is_ok() || node.get_child::<Kb>(i).is_ok() { return Err(format!("there is a child {i}").into()); } }
                ctx.st.executions += 1; ctx.st.transitions += 3 * n as u64;
                Ok(())
            });
        } }
        ctx.family("strays");
        for class in 0..2u8 { for origin in 0..7u8 { for act in 0..STRAY.len() {
            if ctx.done() { return; }
            ctx.case(|| format!("a stray of class {class}, origin {origin}: {}", STRAY[act]), |ctx| stray(ctx, class, origin, act));
        } } }
        for n in 1..=ctx.pick(3, 4) {
            ctx.family(&format!("blame, trees of {n}"));
            for sc in scenes(n, n < 4) { for i in 0..n { for what in 0..BLAME.len() { for single in [false, true] {
                if ctx.done() { return; }
                ctx.case(|| format!("{sc:?}: node {i} asks for {}{}", BLAME[what], if single { ", as a singleton" } else { "" }), |ctx| blame(ctx, &sc, i, what, single));
            } } } }
            ctx.family(&format!("blame of pointers, trees of {n}"));
            for sc in scenes(n, n < 4) { for i in 0..n { for source in 0..SOURCES.len() { for made in [false, true] { for how in 0..USES.len() {
                if ctx.done() { return; }
                ctx.case(|| format!("{sc:?}: node {i} gets its {}{} and uses it {}", SOURCES[source], if made { ", typed" } else { "" }, USES[how]), |ctx| {
                    for single in [false, true] { pointer_blame(ctx, &sc, i, source, made, how, single)?; }
                    Ok(())
                });
            } } } } }
        }
    }
};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum Q { Node(u8), Scene(u8), Loaded(u8), Branch(u8, u8), Free(u8), Remove(u8, u8), Name(u8), Single(u8, u8), Frame, Copy(u8) }

fn questions(n: usize) -> Vec<Q> {
    let mut v: Vec<Q> = vec![Q::Frame];
    for k in 0..n as u8 {
        v.extend([Q::Node(k), Q::Scene(k), Q::Loaded(k), Q::Copy(k), Q::Free(k), Q::Remove(k, 0), Q::Name(k), Q::Single(k, 0)]);
        if k > 0 { v.push(Q::Remove(0, k)); v.push(Q::Single(k, 1)); }
        for j in 0..n as u8 { v.push(Q::Branch(k, j)); }
    }
    v
}

fn extra(tag: u32) -> Sc {
    Sc { tag, class: 1, owner: true, kids: vec![Sc { tag: tag + 1, class: 0, owner: false, kids: vec![] }, Sc { tag: tag + 2, class: 1, owner: true, kids: vec![Sc { tag: tag + 3, class: 0, owner: false, kids: vec![] }] }] }
}

/// A copy of the model's branch, with new tags; the top one owns what it owned by being in the tree.
fn copied(m: &Model, i: usize, tag: &mut u32, top: bool) -> Sc {
    let s: &Spot = &m.spots[i];
    let mut c: Sc = Sc { tag: *tag, class: s.class, owner: top || s.owner == i, kids: vec![] };
    *tag += 1;
    c.kids = s.kids.iter().map(|k| copied(m, *k, tag, false)).collect();
    c
}

fn history(ctx: &mut Ctx, sc: &Sc, ops: &[Q]) -> Res {
    ctx.st.executions += 1;
    let mut m: Model = Model::default();
    m.put(sc, None, None);
    let watch = |m: &Model| WATCH.with(|w| { let mut w = w.borrow_mut(); w.model = m.clone(); w.on = true; w.found = None; });
    let found = |at: &str| -> Res { match WATCH.with(|w| w.borrow_mut().found.take()) { Some(e) => Err(Fail { key: "hook".into(), msg: format!("{at}: {e}") }), None => Ok(()) } };

    struct Quiet; impl Drop for Quiet { fn drop(&mut self) { WATCH.with(|w| w.borrow_mut().on = false); } }
    let _quiet: Quiet = Quiet;
    watch(&m);
    let mut lab: Lab = Lab::with(sc.scene(), LoggerVerbosity::All);
    found("at the start")?;
    everything(ctx, &mut lab, &m, "at the start")?;

    let mut tag: u32 = m.spots.len() as u32;
    for (step, op) in ops.iter().enumerate() {
        ctx.st.transitions += 1;
        let live: Vec<usize> = m.live();
        let rids: Vec<Option<RID>> = bind(lab.tree(), &m)?;
        let node = |lab: &mut Lab, k: u8| -> Option<(usize, &'static mut dyn Node)> { let i: usize = *live.get(k as usize)?; Some((i, lab.node(rids[i]?))) };
        let add = |m: &mut Model, s: &Sc, at: usize| { let o: usize = m.spots[at].owner; m.put(s, Some(at), Some(o)); };
        match *op {
            Q::Frame => if !live.is_empty() { watch(&m); lab.tree().process(); },
            Q::Node(k) => if let Some((i, n)) = node(&mut lab, k) {
                add(&mut m, &Sc { tag, class: 0, owner: false, kids: vec![] }, i);
                watch(&m);
                let mut new: Ka = Ka::new(tag);
                new.set_name(&format!("n{tag}"));
                tag += 1;
                n.add_child(new);
            },
            Q::Scene(k) | Q::Loaded(k) | Q::Copy(k) => if let Some((i, n)) = node(&mut lab, k) {
                let s: Sc = extra(tag);
                tag += 4;
                add(&mut m, &s, i);
                watch(&m);
                match *op {
                    Q::Scene(_)  => n.add_child(s.scene()),
                    Q::Loaded(_) => n.add_child(NodeScene::load_from_str(&s.scene().save_to_str()?)?),
                    _            => n.add_child(s.scene().clone())
                }
            },
            Q::Branch(k, j) => if let (Some((i, n)), Some((at, to))) = (node(&mut lab, k), node(&mut lab, j)) {
                let branch: NodeScene = n.save_as_branch();
                let from: u32 = tag;
                let s: Sc = copied(&m, i, &mut tag, true);
                add(&mut m, &s, at);
                watch(&m);
                to.add_child(Retag(branch, from));
            },
            Q::Free(k) => if let Some((i, n)) = node(&mut lab, k) { watch(&m); n.free(); m.kill(i); },
            Q::Remove(k, j) => if let Some((i, n)) = node(&mut lab, k) {
                watch(&m);
                match m.spots[i].kids.get(j as usize).copied() {
                    Some(c) => { let name: String = m.spots[c].name.clone(); if !n.remove_child(&name) { return Err(format!("{name:?} is not removed").into()); } m.kill(c); },
                    None    => if n.remove_child("nobody") { return Err("nobody is removed".into()); }
                }
            },
            Q::Name(k) => if let Some((i, n)) = node(&mut lab, k) { let name: String = format!("m{tag}"); tag += 1; n.set_name(&name); m.spots[i].name = name; },
            Q::Single(k, s) => if let Some((i, n)) = node(&mut lab, k) {
                let name: String = format!("S{s}");
                let taken: bool = m.single.iter().any(|x| x.0 == name);
                if m.single.iter().any(|x| x.0 == name && x.1 == i) { continue; }
                same("whether the name is given", n.register_as_singleton(name.clone()), !taken)?;
                if !taken { m.single.retain(|x| x.1 != i); m.single.push((name, i)); }
            }
        }
        // Renumbered: the model and the tree hold the same tags from here on.
        let at: String = format!("after step {step} ({op:?})");
        found(&at)?;
        everything(ctx, &mut lab, &m, &at)?;
    }
    ctx.state_str(&format!("{m:?}"));
    Ok(())
}

/// Asks every node and the tree everything, twice, and sees to it that asking has changed nothing.
fn everything(ctx: &mut Ctx, lab: &mut Lab, m: &Model, at: &str) -> Res {
    let f = |e: String| -> Fail { Fail { key: "answer".into(), msg: format!("{at}: {e}") } };
    let log: String = lab.tree().get_log().to_string();
    let status: Vec<String> = m.live().iter().map(|i| format!("{:?}", lab_node(lab, m, *i).map(|n| n.status()))).collect();
    for round in 0..2 {
        let rids: Vec<Option<RID>> = bind(lab.tree(), m).map_err(f)?;
        for i in m.live().into_iter().filter(|i| asked(*i)) {
            let n: &dyn Node = lab.tree().get_node(rids[i].unwrap()).unwrap();
            ctx.st.transitions += 1;
            ask(n, i, m, &rids).map_err(|e| f(format!("{}: {e}", m.spots[i].name)))?;
            let seen: Option<usize> = n.tree().map(|t| t as *const dyn NodeTree as *const u8 as usize);
            if seen != Some(lab.ptr() as *const u8 as usize) || n.tree_mut().is_none() { return Err(f(format!("{} does not see its tree", m.spots[i].name))); }
        }
        ask_tree(lab.tree(), m, &rids, round == 0).map_err(f)?;
    }
    if lab.tree().get_log() != log { return Err(f("asking has written to the log".into())); }
    let after: Vec<String> = m.live().iter().map(|i| format!("{:?}", lab_node(lab, m, *i).map(|n| n.status()))).collect();
    if after != status { return Err(f("asking has changed a status".into())); }
    Ok(())
}

fn lab_node(lab: &mut Lab, m: &Model, i: usize) -> Option<&'static dyn Node> {
    let r: RID = (*bind(lab.tree(), m).ok()?.get(i)?)?;
    Some(lab.node(r))
}

/*
 * Strays
 */

const STRAY: [&str; 20] = [
    "plain answers", "this", "this_dyn", "register_as_singleton", "add_child", "remove_child", "get_child", "get_child_dyn", "children", "get_node", "get_node_dyn", "get_node_raw",
    "top_down", "get_absolute_path", "post", "free", "save_as_branch", "owner", "owner_dyn", "parent"
];

fn stray(ctx: &mut Ctx, class: u8, origin: u8, act: usize) -> Res {
    ctx.st.executions += 1;
    let sc: Sc = Sc { tag: 0, class, owner: true, kids: vec![] };
    let mut lab: Lab = Lab::new(Sc { tag: 9, class: 0, owner: true, kids: vec![Sc { tag: 0, class, owner: false, kids: vec![Sc { tag: 5, class: 0, owner: false, kids: vec![] }] }] }.scene());
    let mut n: Box<dyn Node> = match origin {
        0 => sc.node(),
        1 => sc.node().clone_as_instance(),
        2 => lab.at(1).clone_as_instance(),                                                       // a copy of a node in a tree, with a child there
        3 => { let s: NodeScene = NodeScene::load_from_str(&sc.scene().save_to_str()?)?; unsafe { s.get_node() } },
        4 => on_the_way(NodeScene::load_from_str(&sc.scene().save_to_str()?)?),                      // loaded, on its way into a tree
        5 => on_the_way(sc.scene()),
        _ => { let s: NodeScene = lab.at(1).save_as_branch(); let b: Box<dyn Node> = unsafe { s.get_node() }; for k in s.children() { drop(unsafe { k.get_node() }); } b }
    };
    plain(&*n, "n0")?;
    let went: bool = match STRAY[act] {
        "plain answers" => true,
        what => {
            let r = catch_unwind(AssertUnwindSafe(|| { match what {
                "this"                  => { if class == 0 { n.this::<Ka>(); } else { n.this::<Kb>(); } },
                "this_dyn"              => { n.this_dyn(); },
                "register_as_singleton" => { n.register_as_singleton("S".into()); },
                "add_child"             => { n.add_child(Ka::new(1)); },
                "remove_child"          => { n.remove_child("x"); },
                "get_child"             => { n.get_child::<Ka>(0); },
                "get_child_dyn"         => { n.get_child_dyn(0); },
                "children"              => { n.children(); },
                "get_node"              => { n.get_node::<Ka>("S"); },
                "get_node_dyn"          => { n.get_node_dyn(NodePath::from_str(".")); },
                "get_node_raw"          => { n.get_node_raw(NodePath::from_str("x")); },
                "top_down"              => { n.top_down(true); },
                "get_absolute_path"     => { n.get_absolute_path(); },
                "post"                  => { n.post(Log::Info("x")); },
                "free"                  => { n.free(); },
                "save_as_branch"        => { n.save_as_branch(); },
                "owner"                 => { n.owner::<Ka>(); },
                "owner_dyn"             => { n.owner_dyn(); },
                _                       => { n.parent_dyn(); n.parent::<Ka>(); }
            } }));
            forget_panic();
            r.is_err()
        }
    };
    ctx.state_str(&format!("{class}{origin}{}", STRAY[act]));
    if !went { return Err(Fail { key: "stray".into(), msg: format!("{} of a node without a tree does not panic", STRAY[act]) }); }
    // It is none the worse for it.
    plain(&*n, "n0")?;
    n.set_name("other");
    plain(&*n, "other")?;
    n.set_name("n0");
    let mut m: Model = Model::default();
    m.put(&Sc { tag: 9, class: 0, owner: true, kids: vec![Sc { tag: 0, class, owner: false, kids: vec![Sc { tag: 5, class: 0, owner: false, kids: vec![] }] }] }, None, None);
    everything(ctx, &mut lab, &m, "beside a stray")?;
    let any: &mut dyn std::any::Any = n.as_any_mut();
    if let Some(k) = any.downcast_mut::<Ka>() { *k.tag = 20; } else if let Some(k) = any.downcast_mut::<Kb>() { *k.tag = 20; }
    n.set_name("n20");
    m.put(&Sc { tag: 20, class, owner: true, kids: vec![] }, Some(0), Some(0));
    lab.at(0).add_child(NodeScene::new_dyn(n));
    everything(ctx, &mut lab, &m, "after the stray was added")
}

/// The node of a scene of one node, as it is handed to a tree.
fn on_the_way(s: NodeScene) -> Box<dyn Node> {
    let mut n: Option<Box<dyn Node>> = None;
    s.iterate(|_, node, _| n = Some(unsafe { Box::from_raw(node) }));
    n.expect("a node")
}

/// What a node in no tree says of itself.
fn plain(n: &dyn Node, name: &str) -> Res {
    let r: Result<(), String> = (|| {
        same("whether it is in a tree", (n.in_tree(), n.is_stray()), (false, true))?;
        same("whether it is the root", n.is_root(), false)?;
        same("whether it is an owner", n.is_owner(), false)?;
        same("its depth", n.depth(), 0)?;
        same("its name", n.name(), name)?;
        same("its number of children", (n.num_children(), n.childless()), (0, true))?;
        same("whether it sees a tree", (n.tree().is_some(), n.tree_mut().is_some()), (false, false))?;
        same("its status", matches!(n.status(), NodeStatus::Normal), true)
    })();
    r.map_err(|e| Fail { key: "stray".into(), msg: format!("a stray: {e}") })
}

/*
 * Blame
 */

const BLAME: [&str; 14] = [
    "a child beyond the last, unwrapped", "a child beyond the last, dynamic, unwrapped", "a child of the wrong class, unwrapped", "the parent of the wrong class, unwrapped", "the parent of the root, unwrapped",
    "the parent of the root, dynamic, unwrapped", "the owner of the wrong class, unwrapped", "a node at no path, unwrapped", "a node at no path, dynamic, unwrapped", "itself, of the wrong class",
    "its first child, which is then freed", "its first child, dynamic, which is then freed", "its first child by path, which is then freed", "its first child by a getter, dynamic, which is then freed"
];

/// The failure is the asking node's: it is logged under its name, it is in its status, and it ends the tree.
fn blame(ctx: &mut Ctx, sc: &Sc, i: usize, what: usize, single: bool) -> Res {
    let mut m: Model = Model::default();
    m.put(sc, None, None);
    let s: Spot = m.spots[i].clone();
    let other = |j: usize| -> bool { m.spots[j].class == 1 };       // whether it is not of class 0
    let kid: Option<usize> = s.kids.first().copied();
    let apt: bool = match what { 2 => kid.is_some(), 3 => s.up.is_some(), 4 | 5 => s.up.is_none(), 10..=13 => kid.is_some(), _ => true };
    if !apt { return Ok(()); }
    ctx.st.executions += 1;
    ctx.st.transitions += 1;

    let mut lab: Lab = Lab::with(sc.scene(), LoggerVerbosity::OnlyPanics);
    let rids: Vec<Option<RID>> = bind(lab.tree(), &m)?;
    let n: &'static mut dyn Node = lab.node(rids[i].unwrap());
    if single { n.register_as_singleton("Asker".into()); }
    let calls: std::thread::Result<()> = {
        let keep_dyn: Option<TpDyn> = match what { 11 => n.get_child_dyn(0).to_option(), 13 => n.get_node_dyn(Got(rids[kid.unwrap()])).to_option(), _ => None };
        let way: NodePath = NodePath::from_str(&kid.map(|k| m.way(i, k)).unwrap_or_default());
        let (keep_a, keep_b): (Option<Tp<Ka>>, Option<Tp<Kb>>) = match what {
            10 => (n.get_child::<Ka>(0).to_option(), n.get_child::<Kb>(0).to_option()),
            12 => (n.get_node::<Ka>(way.clone()).to_option(), n.get_node::<Kb>(way).to_option()),
            _  => (None, None)
        };
        if what >= 10 { lab.node(rids[kid.unwrap()].unwrap()).free(); }
        let r = catch_unwind(AssertUnwindSafe(|| { match what {
            0 => { n.get_child::<Ka>(s.kids.len()).unwrap(); },
            1 => { n.get_child_dyn(s.kids.len() + 3).unwrap(); },
            2 => { if other(kid.unwrap()) { n.get_child::<Ka>(0).unwrap(); } else { n.get_child::<Kb>(0).unwrap(); } },
            3 => { if other(s.up.unwrap()) { n.parent::<Ka>().unwrap(); } else { n.parent::<Kb>().unwrap(); } },
            4 => { n.parent::<Ka>().unwrap(); },
            5 => { n.parent_dyn().unwrap(); },
            6 => { if other(s.owner) { n.owner::<Ka>().unwrap(); } else { n.owner::<Kb>().unwrap(); } },
            7 => { n.get_node::<Ka>(NodePath::from_str("nobody")).unwrap(); },
            8 => { n.get_node_dyn("nobody").unwrap(); },
            9 => { if s.class == 1 { n.this::<Ka>(); } else { n.this::<Kb>(); } },
            11 | 13 => { keep_dyn.unwrap().get().depth(); },
            _  => if let Some(p) = keep_a { p.get().depth(); } else { keep_b.unwrap().get().depth(); }
        } }));
        r.map_err(|e| { forget_panic(); e })
    };
    blamed(ctx, lab, &m, &rids, i, single, calls.is_ok())?;
    ctx.state_str(&format!("{sc:?}{i}{what}{single}"));
    Ok(())
}

const SOURCES: [&str; 10] = ["parent", "owner", "itself", "first child", "first in the list of children", "root by path", "itself by a getter", "first child by path", "singleton", "last child"];
const USES: [&str; 8] = [
    "as a wrong class", "as its class, dynamic again, and then as a wrong class", "as a trait it does not extend", "as a trait it does not extend, to be changed", "as nothing, the node having been freed",
    "as its class, the node having been freed", "as a trait, the node having been freed", "as its class, dynamic again, the node having been freed"
];

trait Stranger {}

/// Every pointer that node `i` can get, typed or dynamic, is used in a way that fails: it is node `i` that fails.
fn pointer_blame(ctx: &mut Ctx, sc: &Sc, i: usize, source: usize, made: bool, how: usize, single: bool) -> Res {
    let mut m: Model = Model::default();
    m.put(sc, None, None);
    let s: Spot = m.spots[i].clone();
    let target: Option<usize> = match source { 0 => s.up, 1 => Some(s.owner), 2 | 6 => Some(i), 3 | 4 | 7 => s.kids.first().copied(), 5 => Some(0), 8 => Some(m.spots.len() - 1), _ => s.kids.last().copied() };
    let Some(j) = target else { return Ok(()) };
    // The asking node has to outlive what it points to.
    if how >= 4 && m.ups(i).contains(&j) { return Ok(()); }
    if made && source == 4 || source == 8 && j == i && !single { return Ok(()); }
    ctx.st.executions += 1;
    ctx.st.transitions += 1;
    let mut lab: Lab = Lab::with(sc.scene(), LoggerVerbosity::OnlyPanics);
    let rids: Vec<Option<RID>> = bind(lab.tree(), &m)?;
    let n: &'static mut dyn Node = lab.node(rids[i].unwrap());
    if single { n.register_as_singleton("Asker".into()); }
    let called: &str = if single && j == i { "Asker" } else { "Other" };
    if source == 8 && called == "Other" { lab.node(rids[j].unwrap()).register_as_singleton("Other".into()); }
    let n: &dyn Node = lab.node(rids[i].unwrap());
    fn get<'n, T: Node>(n: &'n dyn Node, source: usize, m: &Model, i: usize, j: usize, rids: &[Option<RID>], called: &str) -> Option<TpDyn<'n>> {
        Some(match source {
            0 => n.parent::<T>().to_option()?, 1 => n.owner::<T>().to_option()?, 2 => n.this::<T>(), 3 => n.get_child::<T>(0).to_option()?, 5 => n.get_node::<T>(NodePath::from_str(&m.path(0))).to_option()?,
            6 => n.get_node::<T>(Who).to_option()?, 7 => n.get_node::<T>(NodePath::from_str(&m.way(i, j))).to_option()?, 8 => n.get_node::<T>(called.to_string()).to_option()?, _ => n.get_child::<T>(n.num_children() - 1).to_option()?
        }.to_dyn())
    }
    let p: Option<TpDyn> = if made {
        if m.spots[j].class == 0 { get::<Ka>(n, source, &m, i, j, &rids, called) } else { get::<Kb>(n, source, &m, i, j, &rids, called) }
    } else {
        match source {
            0 => n.parent_dyn().to_option(), 1 => Some(n.owner_dyn()), 2 => Some(n.this_dyn()), 3 => n.get_child_dyn(0).to_option(), 4 => n.children().first().copied(), 5 => n.get_node_dyn(NodePath::from_str(&m.path(0))).to_option(),
            6 => n.get_node_dyn(Who).to_option(), 7 => n.get_node_dyn(NodePath::from_str(&m.way(i, j))).to_option(), 8 => n.get_node_dyn(called).to_option(), _ => n.get_child_dyn(n.num_children() - 1).to_option()
        }
    };
    let Some(mut p) = p else { return Err(Fail { key: "blame".into(), msg: "there is no such pointer".into() }) };
    let own: bool = m.spots[j].class == 0;
    let (ta, tb): (Option<Tp<Ka>>, Option<Tp<Kb>>) = if own { (p.to::<Ka>().to_option(), None) } else { (None, p.to::<Kb>().to_option()) };
    if how >= 4 { lab.node(rids[j].unwrap()).free(); }
    let calls = catch_unwind(AssertUnwindSafe(|| { match how {
        0 => { if own { p.to::<Kb>().unwrap(); } else { p.to::<Ka>().unwrap(); } },
        1 => { if own { ta.unwrap().to_dyn().to::<Kb>().unwrap(); } else { tb.unwrap().to_dyn().to::<Ka>().unwrap(); } },
        2 => { p.cast::<dyn Stranger>().unwrap(); },
        3 => { p.cast_mut::<dyn Stranger>().unwrap(); },
        4 => { p.get_mut().set_name("x"); },
        5 => { if own { ta.unwrap().get_mut().set_name("x"); } else { tb.unwrap().get_mut().set_name("x"); } },
        6 => { p.cast::<dyn Node>().unwrap(); },
        _ => { if own { ta.unwrap().to_dyn(); } else { tb.unwrap().to_dyn(); } }
    } }));
    forget_panic();
    if how >= 4 { m.kill(j); }
    blamed(ctx, lab, &m, &rids, i, single, calls.is_ok())?;
    ctx.state_str(&format!("{sc:?}{i}{source}{made}{how}{single}"));
    Ok(())
}

/// Whether a failure was put down to node `i`, and to it alone.
fn blamed(_: &mut Ctx, mut lab: Lab, m: &Model, rids: &[Option<RID>], i: usize, single: bool, succeeded: bool) -> Res {
    let fail = |msg: String| -> Res { Err(Fail { key: "blame".into(), msg }) };
    if succeeded { return fail("it does not fail".into()); }
    let log: String = lab.tree().get_log().to_string();
    let as_whom: String = if single { "Asker".into() } else { format!("[{}]", m.path(i).trim_start_matches('/')) };
    let lines: Vec<&str> = log.lines().filter(|l| l.split(" | ").nth(1) == Some(as_whom.as_str())).collect();
    if lines.is_empty() { return fail(format!("the failure is not logged as {as_whom:?}'s:\n{log}")); }
    let n: &dyn Node = lab.tree().get_node(rids[i].unwrap()).ok_or("the asking node is gone")?;
    if !matches!(n.status(), NodeStatus::JustPanicked(_)) { return fail(format!("the asking node's status is {:?}", n.status())); }
    for (j, r) in rids.iter().enumerate() {
        if j == i { continue; }
        if let Some(o) = r.and_then(|r| lab.tree().get_node(r)) && !matches!(o.status(), NodeStatus::Normal) { return fail(format!("{:?} is blamed: {:?}", m.spots[j].name, o.status())); }
    }
    if lab.tree().process() != TreeStatus::Terminated { return fail("the tree goes on".into()); }
    Ok(())
}
