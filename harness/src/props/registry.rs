//! Singletons and signals.

use std::cell::RefCell;
use std::panic::{ AssertUnwindSafe, catch_unwind, resume_unwind };
use std::rc::Rc;

use node_tree::prelude::*;

use super::{ Prop, b };
use crate::ctx::{ Ctx, Fail, LAST_PANIC, Meta, Res };
use crate::engine::*;
use crate::lab::Lab;
use crate::sys;
use crate::world::*;

/*
 * C10
 */

const SINGLE: Mask = &[Cat::Single];

fn menu_names(tags: &[Tg], next: Tg, p: (K, Tg, u32)) -> Vec<Act> {
    let mut out: Vec<Act> = Vec::new();
    for &t in tags {
        out.extend([Act::Name(t, "a"), Act::Name(t, "b"), Act::Free(t)]);
        if t != p.1 { out.push(Act::Remove(t)); }
    }
    out.push(Act::Add(tags[0], Form::Scene, Rc::new(retag(Spec::leaf(0).with(vec![Spec::leaf(0)]), next))));
    out.push(Act::Name(next, "a"));
    out
}

/// Looks every name up in every way, and has every node post.
fn look(w: &mut World) {
    w.check_names();
    let nodes: Vec<Tg> = w.model.all();
    for name in NAMES {
        let want: Option<Tg> = w.holder(name);
        let rid: Option<RID> = want.and_then(|t| w.model.n[t as usize].rid);
        let got: [Option<RID>; 3] = [w.tree().get_node_rid(*name, None), w.tree().get_node_rid(name.to_string(), None), w.tree().get_node_rid(name.to_string(), rid)];
        if got.iter().any(|g| *g != rid) { w.err(Cat::Single, format!("the name {name:?} gives {got:?} instead of {rid:?}")); }
        for &t in &nodes {
            let n: &'static mut dyn Node = w.real(t).unwrap();
            let dynamic: Option<Tg> = n.get_node_dyn(*name).to_option().map(|p| tag_of(&*p as &dyn Node));
            if dynamic != want { w.err(Cat::Single, format!("the name {name:?} looked up from node {t} leads to {dynamic:?} instead of {want:?}")); }
            let typed: Option<Tg> = n.get_node::<N0>(name.to_string()).to_option().map(|p| p.tag.id);
            let want0: Option<Tg> = want.filter(|&t| w.model.n[t as usize].class == 0);
            if typed != want0 { w.err(Cat::Single, format!("the name {name:?} looked up from node {t} as N0 leads to {typed:?} instead of {want0:?}")); }
            let other: Option<Tg> = n.get_node::<N1>(*name).to_option().map(|p| p.tag.id);
            let want1: Option<Tg> = want.filter(|&t| w.model.n[t as usize].class == 1);
            if other != want1 { w.err(Cat::Single, format!("the name {name:?} looked up from node {t} as N1 leads to {other:?} instead of {want1:?}")); }
        }
    }
    // Paths are not affected.
    for &from in &nodes {
        for &to in &nodes {
            let path: NodePath = w.real(to).unwrap().get_absolute_path();
            let got: Option<Tg> = w.real(from).unwrap().get_node_dyn(path).to_option().map(|p| tag_of(&*p as &dyn Node));
            if got != Some(to) { w.err(Cat::Single, format!("the path of node {to} looked up from node {from} leads to {got:?}")); }
            if w.model.n[to as usize].parent == Some(from) {
                let name: String = w.model.n[to as usize].name.clone().unwrap();
                let got: Option<Tg> = w.real(from).unwrap().get_node_dyn(NodePath::from_str(&name)).to_option().map(|p| tag_of(&*p as &dyn Node));
                if got != Some(to) { w.err(Cat::Single, format!("the child {name:?} looked up from node {from} leads to {got:?}")); }
            }
        }
    }
    // Nodes that have left can no longer be given a name.
    for t in 0..w.model.n.len() {
        let n: &MNode = &w.model.n[t];
        if n.known && !n.in_tree && let Some(rid) = n.rid {
            let got: Option<bool> = w.tree().register_as_singleton(rid, "ghost".into());
            if got.is_some() { w.err(Cat::Single, format!("registering node {t}, which has left, gives {got:?}")); }
            if w.tree().get_node_identity(rid).is_some() { w.err(Cat::Single, format!("node {t} has left but still has an identity")); }
        }
    }
    if w.tree().get_node_rid("ghost", None).is_some() { w.err(Cat::Single, "a refused name is in use".into()); }
    if w.expects_warnings() { for t in nodes { w.act(&Act::Info(t)); } }
}

pub const C10: Prop = Prop {
    meta: Meta {
        id: "C10",
        rule: "all histories of registering, freeing, removing, renaming and adding on all shapes, and all placements of these in hooks, on the real tree; after every operation every name is looked up in every way (by the tree, from every node, typed and untyped), every path is looked up, every departed node is registered again, and every node posts; the identity in its log line is compared with the model; all pairs of trees with equal names",
        bounds: |t| b(t, "3 names; shapes up to 3 nodes x 4 operations, up to 2 x 5; hook scripts of 1 operation on shapes up to 4, 2 on shapes up to 2 after every registration; all ordered pairs of 65 odd names; up to 300 names in one tree; histories of pausing and ending the tree; the mixed histories of C01; lives of 70000 nodes beside lasting ones",
                         "3 names; shapes up to 4 nodes x 4 operations, up to 3 x 5, up to 2 x 6; hook scripts of 2 operations on shapes up to 3; all ordered pairs of 65 odd names; up to 1100 names in one tree; histories of pausing and ending the tree; the mixed histories of C01; lives of 140000 nodes beside lasting ones"),
        assumptions: &["whether registering a node again under the name it already has reports success is left open", "hooks do not use `self` after having removed themselves from the tree"]
    },
    body: |ctx| {
        let mut a: Alphabet = Alphabet::structural();
        a.adds = vec![(Form::Node, Spec::leaf(0).class(1))];
        a.missing = false; a.frame = false; a.names = &["a", "A", "N0"];
        let all = |n: usize| shapes(n).into_iter().map(|mut s| { s.each_mut(&mut |x| x.class = (x.tag % 2) as u8); s });
        ctx.family("histories");
        for (lo, hi, d) in ctx.pick(vec![(1, 3, 4), (1, 2, 5)], vec![(1, 4, 4), (1, 3, 5), (1, 2, 6)]) { for n in lo..=hi { for s in all(n) {
            histories(&s, Form::Scene, &a, d, &mut |steps| {
                if ctx.done() { return; }
                // Those that do not register anything are of no interest.
                if !steps.iter().take(d - 1).any(|s| matches!(s, Step::Do(Act::Name(..)))) { return; }
                let sc: Scenario = Scenario { root: s.clone(), form: Form::Scene, steps: steps.to_vec(), verbosity: LoggerVerbosity::OnlyPanics, snap: false };
                let last: usize = sc.steps.len();
                ctx.case(|| sc.show(&[]), |ctx| { let mut i: usize = 0; run(ctx, &sc, &[], SINGLE, &mut |w| { if i == last { look(w); } i = (i + 1) % (last + 1); })?; Ok(()) });
            });
        } } }
        super::tree::long_lives(ctx, SINGLE);
        ctx.family("log lines");
        a.rename = &["N0"]; a.frame = true;
        for (lo, hi, d) in ctx.pick(vec![(1, 3, 3)], vec![(1, 4, 3), (1, 2, 5)]) { for n in lo..=hi { for s in all(n) {
            histories(&s, Form::Scene, &a, d, &mut |steps| {
                if ctx.done() { return; }
                let sc: Scenario = Scenario { root: s.clone(), form: Form::Scene, steps: steps.to_vec(), verbosity: LoggerVerbosity::NoDebug, snap: false };
                ctx.case(|| sc.show(&[]), |ctx| { run(ctx, &sc, &[], SINGLE, &mut look)?; Ok(()) });
            });
        } } }
        ctx.family("at every stage of the tree's life");
        let mut c: Alphabet = a.clone();
        c.rename = &[]; c.control = true; c.names = &["a", "N0"];
        for (n, d) in ctx.pick(vec![(1, 4), (2, 3), (3, 2)], vec![(1, 5), (2, 4), (3, 3)]) { for s in all(n) { for t in s.tags() {
            histories(&s, Form::Scene, &c, d, &mut |steps| {
                if ctx.done() { return; }
                if !steps.iter().any(|s| matches!(s, Step::Do(Act::Queue | Act::Terminate | Act::Pause | Act::Panic(_)))) { return; }
                let steps: Vec<Step> = [Step::Do(Act::Name(t, "A"))].into_iter().chain(steps.iter().cloned()).chain([Step::Frame(1)]).collect();
                let sc: Scenario = Scenario { root: s.clone(), form: Form::Scene, steps, verbosity: LoggerVerbosity::OnlyPanics, snap: false };
                ctx.case(|| sc.show(&[]), |ctx| { run(ctx, &sc, &[], SINGLE, &mut look)?; Ok(()) });
            });
        } } }
        super::tree::mixed(ctx, SINGLE);
        ctx.family("names in hooks");
        for (lo, hi, d) in ctx.pick(vec![(1, 4, 1), (1, 2, 2)], vec![(1, 4, 1), (1, 3, 2)]) { for n in lo..=hi { for s in all(n) { for t in s.tags() {
            let mut steps: Vec<Step> = vec![Step::Do(Act::Name(t, "a")), Step::Frame(1), Step::Do(Act::Add(0, Form::Scene, Rc::new(retag(Spec::leaf(0).with(vec![Spec::leaf(0)]), 20)))), Step::Do(Act::Name(20, "b")), Step::Do(Act::Free(n as Tg - 1)), Step::Do(Act::Remove(20))];
            steps.extend([Step::Do(Act::Name(0, "b")), Step::Do(Act::Name(0, "a")), Step::Frame(1)]);
            explore_scripts(ctx, &Scenario::new(s.clone()).steps(steps), &[menu_names], &[K::Ready, K::Process, K::Terminal], d, SINGLE);
        } } } }
        ctx.family("two trees");
        for x in NAMES { for y in NAMES { for first in 0..3u32 { for gone in [false, true] {
            ctx.case(|| format!("two trees, {x:?} in the first at node {first}, {y:?} in the second, freed: {gone}"), |ctx| {
                let spec = || retag(Spec::leaf(0).with(vec![Spec::leaf(0).with(vec![Spec::leaf(0)])]), 0);
                let (mut l, mut m): (Lab, Lab) = (Lab::new(spec().scene()), Lab::new(spec().scene()));
                let r: RID = l.pre_order()[first as usize];
                if !l.node(r).register_as_singleton(x.to_string()) { return Err("the first registration fails".into()); }
                if m.tree().get_node_rid(*x, None).is_some() { return Err("a name of one tree is known to another".into()); }
                if !m.at(0).register_as_singleton(y.to_string()) { return Err("the second registration fails".into()); }
                if gone && first > 0 { l.node(r).free(); if m.tree().get_node_rid(*y, None) != Some(0) { return Err("freeing in one tree affects another".into()); } }
                for n in NAMES {
                    let want: Option<RID> = if n == x && !(gone && first > 0) { Some(r) } else { None };
                    if l.tree().get_node_rid(*n, None) != want { return Err(format!("the name {n:?} is wrong").into()); }
                }
                ctx.st.executions += 1;
                Ok(())
            });
        } } } }
        ctx.family("odd names");
        for x in odd_names() { for y in odd_names() {
            ctx.case(|| format!("a node registered as {x:?}, another as {y:?}"), |ctx| odd_pair(ctx, &x, &y));
        } }
        ctx.family("many names");
        for n in ctx.pick(vec![9usize, 17, 33, 65, 130, 300], vec![8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 300, 512, 513, 1100]) { for deep in [false, true] { for kind in 0..4usize {
            ctx.case(|| format!("{n} names in a {}, in way {kind}", if deep { "chain" } else { "fan" }), |ctx| many_names(ctx, n, deep, kind));
        } } }
    }
};

/// Names that are unlike those of nodes, or nearly like each other.
fn odd_names() -> Vec<String> {
    let mut v: Vec<String> = ["", " ", "  ", "a", "A", "a ", " a", "\ta", "a\n", "\n", "/", "/a", "a/", "a/b", "//", ".", "..", "./a", "../a", "0", "1", "-1", "00", "N0", "N01", "N0/N0", "/N0", "\"", "'", "\\", "\\n", "|", "a | b", "[N0]", "%s", "{}", "\0", "é", "e\u{301}", "É", "ß", "ss", "漢字", "🦀", "root", "Root", "self", "self::a", "a::b", "*", "#", "$a", "~"].iter().map(|s| s.to_string()).collect();
    for n in [15, 16, 17, 63, 64, 65, 255, 256, 257, 300] { v.push("x".repeat(n)); }
    v.push("x".repeat(255) + "y");
    v.push("é".repeat(128));
    v
}

/// What a node is called in its log line.
fn called(l: &mut Lab, r: RID) -> Result<String, String> {
    let before: usize = l.tree().get_log().len();
    l.node(r).post(Log::Info("of mine"));
    let line: String = l.tree().get_log()[before..].to_string();
    let rest: &str = line.split_once(" | ").map(|x| x.1).ok_or_else(|| format!("the log line {line:?} has no parts"))?;
    rest.rsplit_once(" | of mine").and_then(|x| x.0.rsplit_once(" | ")).map(|x| x.0.to_string()).ok_or_else(|| format!("the log line {line:?} has no parts"))
}

fn called_by_path(l: &mut Lab, r: RID) -> String {
    let mut parts: Vec<String> = vec![];
    let mut at: Option<RID> = Some(r);
    while let Some(r) = at { let n: &dyn Node = l.node(r); parts.push(n.name().to_string()); at = if n.is_root() { None } else { Some(n.parent_dyn().unwrap().rid()) }; }
    parts.reverse();
    format!("[{}]", parts.join("/"))
}

fn looked_up(l: &mut Lab, name: &str) -> Option<RID> { l.tree().get_node_rid(name, None) }

fn odd_pair(ctx: &mut Ctx, x: &str, y: &str) -> Res {
    let mut l: Lab = Lab::with(retag(Spec::leaf(0).with(vec![Spec::leaf(0).with(vec![Spec::leaf(0).class(1)]), Spec::leaf(0)]), 0).scene(), LoggerVerbosity::All);
    let r: Vec<RID> = l.pre_order();
    let (p, q): (RID, RID) = (r[1], r[2]);
    // `holders` says who has which of the two names.
    let see = |l: &mut Lab, what: &str, holders: &[(&str, Option<RID>)]| -> Result<(), String> {
        for (name, want) in holders {
            let got: [Option<RID>; 4] = [looked_up(l, name), l.tree().get_node_rid(name.to_string(), None), l.node(0).get_node_dyn(*name).to_option().map(|d| d.rid()), l.node(0).get_node::<N0>(name.to_string()).to_option().map(|d| d.to_dyn().rid())];
            let class1: bool = *want == Some(q);
            if got[..3].iter().any(|g| g != want) || got[3] != want.filter(|_| !class1) { return Err(format!("{what}, the name {name:?} gives {got:?} instead of {want:?}")); }
        }
        for n in [0, p, q, r[3]] {
            if l.tree().get_node(n).is_none() { continue; }
            let name: Option<&str> = holders.iter().find(|h| h.1 == Some(n)).map(|h| h.0);
            let want: String = name.map(|s| s.to_string()).unwrap_or_else(|| called_by_path(l, n));
            let got: String = called(l, n)?;
            if got != want { return Err(format!("{what}, a node called {want:?} is called {got:?} in the log")); }
            let path: NodePath = l.node(n).get_absolute_path();
            if l.node(0).get_node_dyn(path).to_option().map(|d| d.rid()) != Some(n) { return Err(format!("{what}, a path leads elsewhere")); }
        }
        for other in odd_names() { if holders.iter().all(|h| h.0 != other) && let Some(got) = looked_up(l, &other) { return Err(format!("{what}, the name {other:?} gives {got}")); } }
        Ok(())
    };
    see(&mut l, "before", &[])?;
    if !l.node(p).register_as_singleton(x.to_string()) { return Err("the first registration fails".into()); }
    see(&mut l, "after the first", &[(x, Some(p))])?;
    let ok: bool = l.node(q).register_as_singleton(y.to_string());
    if ok == (x == y) { return Err(format!("the second registration gives {ok}").into()); }
    if x == y { see(&mut l, "after the second", &[(x, Some(p))])?; } else { see(&mut l, "after the second", &[(x, Some(p)), (y, Some(q))])?; }
    // The first takes a third name, and what it had is free for the fourth node.
    if !l.node(p).register_as_singleton("third".into()) { return Err("the third registration fails".into()); }
    if x == y { see(&mut l, "after the third", &[("third", Some(p)), (x, None)])?; } else { see(&mut l, "after the third", &[("third", Some(p)), (x, None), (y, Some(q))])?; }
    if !l.node(r[3]).register_as_singleton(x.to_string()) { return Err("the fourth registration fails".into()); }
    let now: Vec<(&str, Option<RID>)> = if x == y { vec![("third", Some(p)), (x, Some(r[3]))] } else { vec![("third", Some(p)), (x, Some(r[3])), (y, Some(q))] };
    see(&mut l, "after the fourth", &now)?;
    l.node(q).free();
    let now: Vec<(&str, Option<RID>)> = if x == y { now } else { vec![("third", Some(p)), (x, Some(r[3])), (y, None)] };
    see(&mut l, "after freeing", &now)?;
    if x != y { if !l.node(0).register_as_singleton(y.to_string()) { return Err("the fifth registration fails".into()); } see(&mut l, "at the end", &[("third", Some(p)), (x, Some(r[3])), (y, Some(0))])?; }
    ctx.st.executions += 1; ctx.st.transitions += 6;
    Ok(())
}

/// Every node of a large tree is registered; then some are renamed, leave, come and take up names again, against a table.
fn many_names(ctx: &mut Ctx, n: usize, deep: bool, kind: usize) -> Res {
    let mut l: Lab = Lab::with((if deep { super::tree::chain(n) } else { super::tree::fan(n) }).scene(), LoggerVerbosity::OnlyPanics);
    let mut rids: Vec<RID> = l.pre_order();
    let mut names: Vec<Option<String>> = vec![None; n];
    let name = |i: usize| -> String { match kind { 0 => format!("{i}"), 1 => format!("name {i}"), 2 => format!("{}{i}", "x".repeat(i % 270)), _ => format!("{i:>300}") } };
    fn see(l: &mut Lab, what: &str, rids: &[RID], names: &[Option<String>], known: usize, name: &dyn Fn(usize) -> String) -> Result<(), String> {
        let table: std::collections::HashMap<&str, RID> = names.iter().zip(rids).filter_map(|(n, r)| n.as_deref().map(|n| (n, *r))).collect();
        for i in 0..known {
            let x: String = name(i);
            let (got, want): (Option<RID>, Option<RID>) = (looked_up(l, &x), table.get(x.as_str()).copied());
            if got != want { return Err(format!("{what}, name {i} gives {got:?} instead of {want:?}")); }
        }
        for (i, r) in rids.iter().enumerate() {
            if l.tree().get_node(*r).is_none() { if names[i].is_some() { return Err(format!("{what}, node {i} has gone")); } continue; }
            if i % 7 > 1 && i > 40 { continue; }
            let got: Option<String> = match l.tree().get_node_identity(*r) { Some(node_tree::structs::node_tree_base::NodeIdentity::UniqueName(s)) => Some(s), Some(_) => None, None => return Err(format!("{what}, node {i} has no identity")) };
            if got != names[i] { return Err(format!("{what}, node {i} is called {got:?} instead of {:?}", names[i])); }
        }
        Ok(())
    }
    for i in 0..n {
        if !l.node(rids[i]).register_as_singleton(name(i)) { return Err(format!("registration {i} fails").into()); }
        names[i] = Some(name(i));
        if i % 64 == 0 { see(&mut l, "while registering", &rids, &names, n, &name)?; }
    }
    see(&mut l, "with all registered", &rids, &names, 2 * n, &name)?;
    for i in 0..n { let j: usize = (i + n / 2) % n; if i != j && l.node(rids[i]).register_as_singleton(name(j)) { return Err(format!("node {i} gets the name of node {j}").into()); } }
    see(&mut l, "after the refused ones", &rids, &names, 2 * n, &name)?;
    // Every third one moves on to another name; the next takes what it had.
    for i in (0..n - 1).step_by(3) {
        let a: bool = l.node(rids[i]).register_as_singleton(name(n + i));
        let had: String = names[i].replace(name(n + i)).unwrap();
        let b: bool = l.node(rids[i + 1]).register_as_singleton(had.clone());
        names[i + 1] = Some(had);
        if !a || !b { return Err(format!("moving on at {i}: {a}, {b}").into()); }
    }
    see(&mut l, "after moving on", &rids, &names, 2 * n, &name)?;
    // Some leave: each by itself in a fan, the lower part of a chain.
    let gone: Vec<usize> = if deep { (n - n / 3..n).collect() } else { (1..n).filter(|i| i % 4 == 1 || *i == n - 1).collect() };
    for &i in &gone { if l.tree().get_node(rids[i]).is_some() { l.node(rids[i]).free(); } }
    let free: Vec<String> = gone.iter().filter_map(|&i| names[i].take()).collect();
    see(&mut l, "after some have left", &rids, &names, 2 * n, &name)?;
    // New ones take up the names that are free.
    for x in &free {
        l.node(0).add_child(Spec::leaf(0).scene());
        let r: RID = *l.pre_order().last().unwrap();
        let r: RID = if deep { l.node(0).children().last().map(|c| c.rid()).unwrap() } else { r };
        if !l.node(r).register_as_singleton(x.clone()) { return Err(format!("the name {x:?} is not free").into()); }
        rids.push(r); names.push(Some(x.clone()));
        if rids.len() % 16 == 0 { ctx.beat(); }
    }
    see(&mut l, "at the end", &rids, &names, 2 * n, &name)?;
    ctx.st.executions += 1; ctx.st.transitions += 4 * n as u64;
    Ok(())
}

/*
 * C12
 */

#[derive(Clone, Copy, Debug, PartialEq)]
enum S { Emit(usize), Connect(usize, bool), Disconnect(usize), DisconnectMe, Bogus(usize), Panic, Free(usize) }

/// A listener's script: what it does, and in which of its calls (0: every one).
type Script = (&'static [S], u32);

struct Conn { sig: usize, id: RID, once: bool, live: bool, script: Script, calls: u32, node: Option<usize> }
struct Em   { sig: usize, value: u32, snap: Vec<usize>, called: Vec<usize> }

/// Where signals live: free-standing, or in nodes.
trait Place {
    fn connect(&mut self, sig: usize, once: bool, conn: usize) -> RID;
    fn signal(&mut self, sig: usize) -> Option<*const Signal<u32>>;
    fn emit(&mut self, sig: usize, value: u32);
    fn free(&mut self, _node: usize) {}
    fn has(&mut self, _node: usize) -> bool { true }
}

struct Sw { conns: Vec<Conn>, ems: Vec<Em>, value: u32, errs: Vec<String>, trace: Vec<String>, record: bool, calls: u64, orders: u64, place: *mut dyn Place, nest: usize, cap: usize, most: u64 }

thread_local! { static SW: RefCell<*mut Sw> = const { RefCell::new(std::ptr::null_mut()) }; }

fn sw() -> &'static mut Sw { SW.with(|s| unsafe { &mut **s.borrow() }) }

fn on_call(conn: usize, value: u32) {
    let w: &mut Sw = sw();
    w.calls += 1;
    if w.record { w.trace.push(format!("call of {conn} with {value}")); }
    if conn >= w.conns.len() { w.errs.push(format!("connection {conn} is called while it is being made")); return; }
    if w.conns[conn].id == u32::MAX as RID { w.errs.push(format!("connection {conn} is called before it exists")); }
    match w.ems.last_mut() {
        None => w.errs.push(format!("connection {conn} is called although nothing is emitted")),
        Some(e) => {
            if value != e.value { w.errs.push(format!("connection {conn} is called with {value} instead of {}", e.value)); }
            if e.sig != w.conns[conn].sig { w.errs.push(format!("connection {conn} of another signal is called")); }
            else if !e.snap.contains(&conn) { w.errs.push(format!("connection {conn} is called by an emission that began before it was made or after it was gone")); }
            else if e.called.contains(&conn) { w.errs.push(format!("connection {conn} is called again in one emission")); }
            else if !w.conns[conn].live { w.errs.push(format!("connection {conn} is called although it is gone")); }
            e.called.push(conn);
            w.orders = w.orders.wrapping_mul(31).wrapping_add(conn as u64 + 1);
        }
    }
    let c: &mut Conn = &mut w.conns[conn];
    c.calls += 1;
    if c.once { c.live = false; }
    let (script, when): Script = c.script;
    if when == 0 || when == c.calls { for &s in script { act(s, Some(conn)); } }
}

fn act(s: S, me: Option<usize>) {
    let w: &mut Sw = sw();
    if !w.errs.is_empty() { return; }
    let place: *mut dyn Place = w.place;
    let p = || unsafe { &mut *place };
    if w.record { w.trace.push(format!("{s:?}{}", me.map(|m| format!(" by {m}")).unwrap_or_default())); }
    match s {
        S::Emit(sig) => {
            if w.ems.len() >= w.nest || w.calls > w.most || p().signal(sig).is_none() { return; }
            w.value += 1;
            let snap: Vec<usize> = (0..w.conns.len()).filter(|&i| w.conns[i].live && w.conns[i].sig == sig).collect();
            w.ems.push(Em { sig, value: w.value, snap, called: Vec::new() });
            let depth: usize = w.ems.len();
            let value: u32 = w.value;
            let r = catch_unwind(AssertUnwindSafe(|| p().emit(sig, value)));
            let w: &mut Sw = sw();
            if w.ems.len() != depth { w.errs.push("the explorer lost count".into()); }
            let e: Em = w.ems.pop().unwrap();
            if r.is_ok() { for i in e.snap { if w.conns[i].live && !e.called.contains(&i) {
                w.errs.push(format!("connection {i} was not called by an emission")); } } }
            // Whoever has to call a listener that is gone fails.
            if w.record { w.trace.push(format!("end of {} ({})", e.value, if r.is_ok() { "done" } else { "unwound" })); }
            if let Err(e) = r { resume_unwind(e); }
        },
        S::Connect(sig, once) => {
            if w.conns.len() >= w.cap || p().signal(sig).is_none() { return; }
            connect(sig, once, (&[], 0), None);
        },
        S::Disconnect(i) => if i < w.conns.len() { disconnect(i); },
        S::DisconnectMe  => if let Some(m) = me { disconnect(m); },
        S::Bogus(sig)    => if let Some(s) = p().signal(sig) && unsafe { &*s }.disconnect(99_999) { w.errs.push("disconnecting an unknown connection reports success".into()); },
        S::Panic         => { std::panic::panic_any("scripted".to_string()); },
        S::Free(n)       => if p().has(n) { p().free(n); }
    }
}

fn connect(sig: usize, once: bool, script: Script, node: Option<usize>) {
    let w: &mut Sw = sw();
    let i: usize = w.conns.len();
    w.conns.push(Conn { sig, id: u32::MAX as RID, once, live: false, script, calls: 0, node });
    let id: RID = unsafe { &mut *w.place }.connect(sig, once, i);
    let w: &mut Sw = sw();
    if w.conns.iter().any(|c| c.sig == sig && c.id == id) { w.errs.push(format!("the id {id} is given to a second connection of the signal")); }
    w.conns[i].id = id; w.conns[i].live = true;
    if w.record { w.trace.push(format!("connection {i}: {}{script:?} at signal {sig} with id {id}", if once { "one-shot " } else { "" })); }
}

fn disconnect(i: usize) {
    let w: &mut Sw = sw();
    let Some(s) = unsafe { &mut *w.place }.signal(w.conns[i].sig) else { return };
    let got: bool = unsafe { &*s }.disconnect(w.conns[i].id);
    if got != w.conns[i].live { w.errs.push(format!("disconnecting connection {i} reports {got}")); }
    w.conns[i].live = false;
    if w.record { w.trace.push(format!("disconnecting {i} reports {got}")); }
}

/// Signals that stand on their own.
struct Bare { sigs: Vec<Signal<u32>> }

impl Place for Bare {
    fn connect(&mut self, sig: usize, once: bool, conn: usize) -> RID {
        let mut mine: Box<u32> = Box::new(0);   // state of the closure itself
        let f = move |v: &u32| { *mine += 1; let n: u32 = *mine; on_call(conn, *v); if sw().conns[conn].calls < n { sw().errs.push("a listener lost its state".into()); } };
        unsafe { if once { self.sigs[sig].connect_once(f) } else { self.sigs[sig].connect(f) } }
    }
    fn signal(&mut self, sig: usize) -> Option<*const Signal<u32>> { Some(&self.sigs[sig]) }
    fn emit(&mut self, sig: usize, value: u32) {
        match value % 3 { 0 => self.sigs[sig].emit(value), 1 => { let f: Field<u32> = Field::new(value); self.sigs[sig].emit(f) }, _ => { let f: UniqueField<u32> = UniqueField::new(value); self.sigs[sig].emit(f) } }
    }
}

#[derive(Clone, Copy, Debug)]
enum H { Conn(usize, bool, Script), Do(S) }

fn with_sw<R>(place: &mut dyn Place, record: bool, f: impl FnOnce() -> R) -> (R, Box<Sw>) {
    let place: *mut dyn Place = unsafe { std::mem::transmute(place as *mut dyn Place) };
    let mut w: Box<Sw> = Box::new(Sw { conns: Vec::with_capacity(32), ems: Vec::new(), value: 0, errs: Vec::new(), trace: Vec::new(), record, calls: 0, orders: 0, place, nest: 3, cap: 8, most: 400 });
    SW.with(|s| *s.borrow_mut() = &mut *w);
    let r: R = f();
    (r, w)
}

/// An operation from outside; scripted panics end here.
fn step(h: H) {
    let r = catch_unwind(AssertUnwindSafe(|| match h { H::Conn(sig, once, script) => connect(sig, once, script, None), H::Do(s) => act(s, None) }));
    if let Err(e) = r {
        if !matches!(e.downcast_ref::<String>(), Some(s) if s == "scripted") { let msg: String = LAST_PANIC.with(|p| p.borrow().clone()); sw().errs.push(format!("{h:?} panics: {msg}")); }
        LAST_PANIC.with(|p| p.borrow_mut().clear());
        // Emissions that were unwound are over.
        sw().ems.clear();
    }
}

fn bare_run(nsigs: usize, hist: &[H], record: bool) -> (Vec<String>, Vec<String>, u64, u64) {
    let mut place: Bare = Bare { sigs: (0..nsigs).map(|_| Signal::new()).collect() };
    let p: *mut Bare = &mut place;
    let ((), mut w) = with_sw(unsafe { &mut *p }, record, || {
        for &h in hist { step(h); if !sw().errs.is_empty() { return; } }
        // A copy of a signal starts without connections, and does not touch the original.
        let b: &mut Bare = unsafe { &mut *p };
        for s in 0..b.sigs.len() {
            for c in [b.sigs[s].clone(), Signal::void(), Signal::default()] {
                let before: u64 = sw().calls;
                c.emit(7u32);
                if sw().calls != before { sw().errs.push("a copy of a signal calls listeners".into()); }
                let id: RID = unsafe { c.connect(|_| ()) };
                c.emit(8u32);
                if !c.disconnect(id) { sw().errs.push("a copy of a signal lost its connection".into()); }
            }
        }
        for i in 0..sw().conns.len() { disconnect(i); }
        for s in 0..b.sigs.len() { step(H::Do(S::Emit(s))); }
    });
    SW.with(|s| *s.borrow_mut() = std::ptr::null_mut());
    (std::mem::take(&mut w.errs), std::mem::take(&mut w.trace), w.calls, w.orders)
}

fn judge(ctx: &mut Ctx, nsigs: usize, hist: &[H]) -> Res {
    let (errs, _, calls, orders): (Vec<String>, _, u64, u64) = bare_run(nsigs, hist, false);
    ctx.st.executions += 1; ctx.st.transitions += calls + hist.len() as u64;
    ctx.state(orders);
    if let Some(e) = errs.first() {
        let mut trace: Vec<String> = Vec::new();
        for _ in 0..40 { let r = bare_run(nsigs, hist, true); if !r.0.is_empty() { trace = r.1; break; } }
        return Err(format!("{e}\n  history: {hist:?}\n  {}", trace.join("\n  ")).into());
    }
    Ok(())
}

/// Runs something on a thread of its own, where hash maps are seeded afresh.
fn on_thread(ctx: &mut Ctx, seed: u64, f: impl FnOnce(&mut Ctx) -> Res + Send) -> Res {
    struct Send1<T>(T);
    unsafe impl<T> Send for Send1<T> {}
    impl<T> Send1<T> { fn get(self) -> T { self.0 } }
    sys::set_hash_seed(seed.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1);
    let c: Send1<&mut Ctx> = Send1(ctx);
    let r: Result<Res, String> = std::thread::scope(|s| {
        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(s, move || {
            let ctx: &mut Ctx = c.get();
            let r = catch_unwind(AssertUnwindSafe(|| Send1(f(ctx))));
            match r { Ok(r) => Ok(r), Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())) }
        }).expect("thread").join().map_err(|_| "the thread died".to_string()).and_then(|r| r.map(|s| s.get()))
    });
    match r { Ok(r) => r, Err(e) => Err(Fail { key: "panic".into(), msg: format!("unexpected panic: {e}") }) }
}

const SCRIPTS: &[Script] = &[
    (&[], 0),
    (&[S::Emit(0)], 0), (&[S::Emit(0)], 1), (&[S::Emit(0)], 2), (&[S::Emit(0), S::Emit(0)], 1),
    (&[S::Emit(1)], 0),
    (&[S::Connect(0, false)], 0), (&[S::Connect(0, true)], 0), (&[S::Connect(0, false), S::Emit(0)], 1), (&[S::Connect(0, true), S::Emit(0)], 1), (&[S::Connect(1, false)], 1),
    (&[S::DisconnectMe], 0), (&[S::DisconnectMe], 2), (&[S::DisconnectMe, S::Connect(0, false)], 1), (&[S::DisconnectMe, S::Emit(0)], 1), (&[S::DisconnectMe, S::DisconnectMe], 1),
    (&[S::Disconnect(0)], 0), (&[S::Disconnect(1)], 0), (&[S::Disconnect(2)], 0), (&[S::Disconnect(3)], 0), (&[S::Disconnect(0), S::Connect(0, true)], 1), (&[S::Disconnect(1), S::Emit(0)], 1), (&[S::Disconnect(2), S::Connect(0, false), S::Emit(0)], 1),
    (&[S::Panic], 0), (&[S::Panic], 1), (&[S::Panic], 2), (&[S::Emit(0), S::Panic], 1), (&[S::Connect(0, false), S::Panic], 1), (&[S::DisconnectMe, S::Panic], 1),
    (&[S::Bogus(0)], 0)
];

pub const C12: Prop = Prop {
    meta: Meta {
        id: "C12",
        rule: "all histories of connect, connect-once, disconnect (current, stale and unknown ids) and emit on one and two signals, and all assignments of re-entrant scripts (emit, connect, disconnect, panic) to all listeners, on the real signals on fresh threads with several hash seeds; every call is judged by a monitor (called once per emission, in the emission's snapshot, still connected, with its value), and every disconnect result; signals of nodes connected with the connect macro, with listeners that free listeners and the emitter",
        bounds: |t| b(t, "histories of 6 operations on one signal, 5 on two; 3 listeners with 30 scripts x 2 kinds each (one listener restricted to 12 scripts), emissions nested up to 3; 1 and 3 hash seeds; nodes: 1 emitter and up to 3 listeners with all frees; 1500 listeners; emissions up to 128 deep in rings of up to 3 signals; churn of 20000 connections with up to 64 kept, and of 70000 with the first one kept",
                         "histories of 8 operations on one signal, 7 on two; 3 listeners with all 30 scripts x 2 kinds each, 4 with 8; 5 hash seeds; nodes: 1 emitter and up to 3 listeners with all frees; emissions up to 190 deep in rings of up to 3 signals; churn of 200000 connections with up to 64 kept, and of 300000 with the first one kept"),
        assumptions: &["the order in which listeners are called is left open", "an emission is abandoned when a listener panics"]
    },
    body: |ctx| {
        ctx.family("histories");
        fn hist(nsigs: usize, left: usize, conns: usize, h: &mut Vec<H>, f: &mut dyn FnMut(&[H])) {
            if left == 0 { f(h); return; }
            let mut go = |x: H, c: usize, h: &mut Vec<H>| { h.push(x); hist(nsigs, left - 1, c, h, f); h.pop(); };
            for s in 0..nsigs {
                if conns < 4 { for once in [false, true] { go(H::Conn(s, once, (&[], 0)), conns + 1, h); } }
                if conns > 0 { go(H::Do(S::Emit(s)), conns, h); }
            }
            for i in 0..conns { go(H::Do(S::Disconnect(i)), conns, h); }
            if conns > 0 { go(H::Do(S::Bogus(0)), conns, h); }
        }
        for (nsigs, d) in ctx.pick(vec![(1, 6), (2, 5)], vec![(1, 8), (2, 7)]) {
            for seed in 0..ctx.pick(2, 5) {
                // The first operations make a case; the rest is explored inside.
                let mut prefixes: Vec<Vec<H>> = Vec::new();
                hist(nsigs, 3, 0, &mut Vec::new(), &mut |h| prefixes.push(h.to_vec()));
                for p in prefixes {
                    let conns: usize = p.iter().filter(|h| matches!(h, H::Conn(..))).count();
                    ctx.case(|| format!("all continuations of {p:?}, seed {seed}"), |ctx| on_thread(ctx, seed + 1, |ctx| {
                        let mut res: Res = Ok(());
                        hist(nsigs, d - 3, conns, &mut p.clone(), &mut |h| { if res.is_ok() { res = judge(ctx, nsigs, h); if ctx.st.executions & 0xFFF == 0 { ctx.beat(); } } });
                        res
                    }));
                }
            }
        }
        ctx.family("scripts");
        let tail: &[H] = &[H::Do(S::Emit(0)), H::Do(S::Emit(0)), H::Do(S::Emit(1)), H::Do(S::Disconnect(0)), H::Do(S::Emit(0))];
        for seed in 0..ctx.pick(3, 5) {
            for a in 0..SCRIPTS.len() { for b in 0..SCRIPTS.len() { for kinds in 0..4 {
                ctx.case(|| format!("listeners with scripts {:?} and {:?}, kinds {kinds}, and all third ones, seed {seed}", SCRIPTS[a], SCRIPTS[b]), |ctx| on_thread(ctx, seed + 10, |ctx| {
                    let two: Vec<H> = vec![H::Conn(0, kinds & 1 == 1, SCRIPTS[a]), H::Conn(0, kinds & 2 == 2, SCRIPTS[b])];
                    judge(ctx, 2, &[&two[..], tail].concat())?;
                    let step: usize = ctx.pick(2, 1);
                    for c in ((a + b) % step..SCRIPTS.len()).step_by(step) { for once in [false, true] {
                        judge(ctx, 2, &[&two[..], &[H::Conn(0, once, SCRIPTS[c])], tail].concat())?;
                        judge(ctx, 2, &[&two[..], &[H::Conn(1, once, SCRIPTS[c])], tail].concat())?;
                    } }
                    ctx.beat();
                    Ok(())
                }));
            } } }
        }
        if !ctx.quick() {
            ctx.family("four scripts");
            let some: Vec<Script> = [1, 5, 6, 11, 13, 16, 17, 23].iter().map(|&i| SCRIPTS[i]).collect();
            for a in some.clone() { for b in some.clone() {
                ctx.case(|| format!("listeners with scripts {a:?} and {b:?} and all further two"), |ctx| on_thread(ctx, 3, |ctx| {
                    for c in &some { for d in &some { for kinds in 0..16 {
                        let h: Vec<H> = [a, b, *c, *d].iter().enumerate().map(|(i, s)| H::Conn(0, kinds >> i & 1 == 1, *s)).collect();
                        judge(ctx, 2, &[&h[..], tail].concat())?;
                    } } ctx.beat(); }
                    Ok(())
                }));
            } }
        }
        ctx.family("many listeners");
        for n in ctx.pick(vec![20usize, 300, 1500], vec![20, 300, 1500, 5000]) { for every in [1usize, 2, 7] {
            ctx.case(|| format!("{n} listeners, every {every}th one-shot"), |ctx| on_thread(ctx, 5, |ctx| {
                let mut place: Bare = Bare { sigs: vec![Signal::new()] };
                let ((), w) = with_sw(&mut place, false, || {
                    sw().cap = 2 * n;
                    for i in 0..n { connect(0, i % every == 0, if i % 5 == 3 { (&[S::DisconnectMe, S::Connect(0, false)], 1) } else { (&[], 0) }, None); }
                    for i in 0..n { if sw().calls > 0 { sw().calls = 1; } if i % 3 == 0 { disconnect(i); } if i % if n > 1000 { 250 } else { 20 } == 0 { sw().calls = 0; step(H::Do(S::Emit(0))); } }
                });
                ctx.st.executions += 1; ctx.st.transitions += n as u64 * 3;
                match w.errs.first() { Some(e) => Err(e.clone().into()), None => Ok(()) }
            }));
        } }
        ctx.family("deep emissions");
        // Listeners that emit in every call, down to that depth, among others that only listen, and in rings of signals.
        for depth in ctx.pick(vec![4usize, 8, 12, 13, 16, 17, 33, 65, 100, 128], vec![4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 150, 190]) { for ring in 1..=3usize { for before in 0..3usize { for after in 0..3usize { for kind in 0..4usize {
            ctx.case(|| format!("{depth} deep in a ring of {ring}, {before} listeners before and {after} after, kind {kind}"), |ctx| on_thread(ctx, 3 + kind as u64, |ctx| {
                const NEXT: [&[&[S]]; 3] = [&[&[S::Emit(0)]], &[&[S::Emit(1)], &[S::Emit(0)]], &[&[S::Emit(1)], &[S::Emit(2)], &[S::Emit(0)]]];
                let mut place: Bare = Bare { sigs: (0..ring).map(|_| Signal::new()).collect() };
                let ((), w) = with_sw(&mut place, false, || {
                    sw().nest = depth; sw().most = 1000;
                    sw().cap  = 20;
                    for (sig, script) in NEXT[ring - 1].iter().enumerate() {
                        for i in 0..before { connect(sig, kind & 1 == 1 && i == 0, (&[], 0), None); }
                        connect(sig, false, (script, 0), None);
                        for i in 0..after { connect(sig, kind & 2 == 2 && i == 0, (&[], 0), None); }
                    }
                    for sig in 0..ring { step(H::Do(S::Emit(sig))); sw().calls = 0; }
                    // One that goes at the bottom, and the rest.
                    disconnect(0);
                    for sig in 0..ring { step(H::Do(S::Emit(sig))); sw().calls = 0; }
                });
                ctx.st.executions += 1; ctx.st.transitions += (2 * depth * ring * (before + after + 1)) as u64;
                match w.errs.first() { Some(e) => Err(e.clone().into()), None => Ok(()) }
            }));
        } } } } }
        ctx.family("connections that come and go");
        for keep in [0usize, 1, 3, 64] { for once in 0..3usize { for elder in [false, true] {
            if elder && (keep == 0 || once == 2) { continue; }
            let rounds: usize = if elder { ctx.pick(70_000, 300_000) } else { ctx.pick(20_000, 200_000) };
            ctx.case(|| format!("{rounds} connections, {keep} at a time, one-shot {once}, the first stays {elder}"), |ctx| on_thread(ctx, 7, |ctx| {
                let s: Signal<u32> = Signal::new();
                let calls: Rc<RefCell<Vec<(usize, u32)>>> = Default::default();
                let mut had: std::collections::HashSet<RID> = Default::default();
                let mut live: std::collections::VecDeque<(usize, RID, bool)> = Default::default();
                for i in 0..rounds {
                    let one_shot: bool = match once { _ if elder && i == 0 => false, 0 => false, 1 => i % 2 == 0, _ => true };
                    let c = calls.clone();
                    let id: RID = unsafe { if one_shot { s.connect_once(move |v| c.borrow_mut().push((i, *v))) } else { s.connect(move |v| c.borrow_mut().push((i, *v))) } };
                    if !had.insert(id) { return Err(format!("connection {i} has the id {id}, which another had").into()); }
                    live.push_back((i, id, one_shot));
                    if i % 37 == 0 || i % 1000 == 1 || i >= 128 && ((i + 1) & i == 0 || i & (i - 1) == 0 || (i - 1) & (i - 2) == 0) {
                        calls.borrow_mut().clear();
                        s.emit(i as u32);
                        let mut got: Vec<(usize, u32)> = calls.borrow().clone();
                        got.sort_unstable();
                        if got != live.iter().map(|l| (l.0, i as u32)).collect::<Vec<_>>() { return Err(format!("in round {i} {got:?} are called, connected are {live:?}").into()); }
                        let gone: Vec<RID> = live.iter().filter(|l| l.2).map(|l| l.1).collect();
                        live.retain(|l| !l.2);
                        if gone.iter().any(|&g| s.disconnect(g)) { return Err(format!("in round {i} a one-shot connection is still there").into()); }
                    }
                    while live.len() > keep + usize::from(elder) {
                        let at: usize = if i % 3 == 0 { live.len() - 1 } else { usize::from(elder && live.len() > 1) };
                        let (_, id, _) = live.remove(at).unwrap();
                        if !s.disconnect(id) || s.disconnect(id) { return Err(format!("disconnecting {id} in round {i} goes wrong").into()); }
                    }
                    if i % 1000 == 0 { ctx.beat(); }
                }
                ctx.st.executions += 1; ctx.st.transitions += 2 * rounds as u64;
                Ok(())
            }));
        } } }
        ctx.family("nodes");
        nodes(ctx);
    }
};

/*
 * Signals of nodes
 */

class! {
    pub declare Caster;
    pub signal first(v: u32);
    pub signal second(v: u32);
    pub signal pair(a: u32, b: u8);
    pub signal none();

    fn hook_up(&self, to: Tp<'static, Ear>, sig: usize, once: bool, slot: usize) -> RID {
        macro_rules! to { ($f:ident) => { match (sig, once) { (0, false) => connect! { first -> to.$f }, (0, true) => connect! { first ~> to.$f }, (_, false) => connect! { second -> to.$f }, (_, true) => connect! { second ~> to.$f } } } }
        match slot { 0 => to!(e0), 1 => to!(e1), 2 => to!(e2), 3 => to!(e3), 4 => to!(e4), 5 => to!(e5), 6 => to!(e6), _ => to!(e7) }
    }
    fn hook_up_others(&self, to: Tp<'static, Ear>) -> (RID, RID) {
        let other: Tp<'static, Ear> = to.clone();
        (connect! { pair -> to.on_pair }, connect! { none ~> other.on_none })
    }
}

class! {
    pub declare Ear;
    pub let number: usize = 0;
    fn e0(&self, v: &u32) { on_call(0, *v) }
    fn e1(&self, v: &u32) { on_call(1, *v) }
    fn e2(&self, v: &u32) { on_call(2, *v) }
    fn e3(&self, v: &u32) { on_call(3, *v) }
    fn e4(&self, v: &u32) { on_call(4, *v) }
    fn e5(&self, v: &u32) { on_call(5, *v) }
    fn e6(&self, v: &u32) { on_call(6, *v) }
    fn e7(&self, v: &u32) { on_call(7, *v) }
    fn on_pair(&self, v: &(u32, u8)) { PAIR.with(|p| p.borrow_mut().push(*v)); }
    fn on_none(&self, _v: &()) { PAIR.with(|p| p.borrow_mut().push((u32::MAX, 0))); }
}

thread_local! { static PAIR: RefCell<Vec<(u32, u8)>> = const { RefCell::new(Vec::new()) }; }

/// A caster (node 0) with ears (nodes 1..=n), below a root.
struct Trees { lab: Lab, rids: Vec<RID>, by_macro: bool }

impl Trees {
    fn new(ears: usize, nested: bool, by_macro: bool) -> Trees {
        let mut caster: NodeScene = NodeScene::new(Caster::new());
        if nested { for _ in 0..ears { caster.append(NodeScene::new(Ear::new())); } }
        let mut root: NodeScene = NodeScene::new(N0::new(0));
        root.append(caster);
        if !nested { for _ in 0..ears { root.append(NodeScene::new(Ear::new())); } }
        let mut lab: Lab = Lab::new(root);
        let rids: Vec<RID> = lab.pre_order()[1..].to_vec();
        Trees { lab, rids, by_macro }
    }
    fn caster(&mut self) -> Option<Tp<'static, Caster>> { let (t, r): (*mut dyn NodeTree, RID) = (self.lab.ptr(), self.rids[0]); unsafe { Tp::new(t, 0, r) }.to_option() }
}

impl Place for Trees {
    fn connect(&mut self, sig: usize, once: bool, conn: usize) -> RID {
        let node: usize = sw().conns[conn].node.unwrap_or(1);
        let (t, r): (*mut dyn NodeTree, RID) = (self.lab.ptr(), self.rids[node]);
        let c: Tp<'static, Caster> = self.caster().expect("caster");
        if self.by_macro {
            let to: Tp<'static, Ear> = unsafe { Tp::new(t, r, r) }.to_option().expect("ear");
            c.hook_up(to, sig, once, conn)
        } else {
            let s: &Signal<u32> = if sig == 0 { &c.first } else { &c.second };
            unsafe { if once { s.connect_once(move |v| on_call(conn, *v)) } else { s.connect(move |v| on_call(conn, *v)) } }
        }
    }
    fn signal(&mut self, sig: usize) -> Option<*const Signal<u32>> { self.caster().map(|c| if sig == 0 { &c.first as *const Signal<u32> } else { &c.second as *const Signal<u32> }) }
    fn emit(&mut self, sig: usize, value: u32) { let s: *const Signal<u32> = self.signal(sig).expect("signal"); unsafe { &*s }.emit(value) }
    fn free(&mut self, node: usize) { let r: RID = self.rids[node]; self.lab.node(r).free(); }
    fn has(&mut self, node: usize) -> bool { let Some(&r) = self.rids.get(node) else { return false }; self.lab.tree().get_node(r).is_some() }
}

fn nodes(ctx: &mut Ctx) {
    const FREES: [&[S]; 9] = [&[], &[S::Free(0)], &[S::Free(1)], &[S::Free(2)], &[S::Free(3)], &[S::Free(0), S::Emit(0)], &[S::Free(2), S::Disconnect(1)], &[S::Emit(0), S::Free(0)], &[S::Emit(0)]];
    for ears in 1..=3usize { for nested in [false, true] { for by_macro in [false, true] { for kinds in 0..1usize << ears { for seed in 0..ctx.pick(2, 5) {
        let mut plans: Vec<Vec<usize>> = Vec::new();
        assignments(ears, FREES.len(), &mut |v| plans.push(v.to_vec()));
        for plan in plans {
            if plan.iter().filter(|&&x| x != 0).count() > ctx.pick(2, 3) { continue; }
            let label = || format!("{ears} ears (nested {nested}, by macro {by_macro}, kinds {kinds}) doing {:?}, seed {seed}", plan.iter().map(|&i| FREES[i]).collect::<Vec<_>>());
            ctx.case(label, |ctx| on_thread(ctx, seed + 20, |ctx| {
                let mut t: Trees = Trees::new(ears, nested, by_macro);
                let p: *mut Trees = &mut t;
                let ((), w) = with_sw(unsafe { &mut *p }, true, || {
                    for i in 0..ears { connect(0, kinds >> i & 1 == 1, (FREES[plan[i]], 1), Some(i + 1)); }
                    for _ in 0..3 {
                        let t: &mut Trees = unsafe { &mut *p };
                        if t.caster().is_none() { break; }
                        let calls: u64 = sw().calls;
                        let r = catch_unwind(AssertUnwindSafe(|| act(S::Emit(0), None)));
                        if !sw().errs.is_empty() { return; }
                        let dead: bool = (0..ears).any(|i| sw().conns[i].node.is_some_and(|n| !t.has(n)));
                        if r.is_err() {
                            // A listener that was reached through the pointer of a node that is gone.
                            if !by_macro || !dead { let m: String = LAST_PANIC.with(|p| p.borrow().clone()); sw().errs.push(format!("the emission unwinds: {m}")); return; }
                            LAST_PANIC.with(|p| p.borrow_mut().clear());
                            sw().ems.clear();
                            break;
                        }
                        if sw().calls == calls && (0..ears).any(|i| sw().conns[i].live) { sw().errs.push("an emission calls nobody".into()); return; }
                    }
                });
                ctx.st.executions += 1; ctx.st.transitions += w.calls + ears as u64;
                ctx.state(w.orders);
                SW.with(|s| *s.borrow_mut() = std::ptr::null_mut());
                match w.errs.first() { Some(e) => Err(format!("{e}\n  {}", w.trace.join("\n  ")).into()), None => Ok(()) }
            }));
        }
    } } } } }
    ctx.case(|| "signals with no and with two parameters".into(), |ctx| {
        let mut t: Trees = Trees::new(2, false, true);
        PAIR.with(|p| p.borrow_mut().clear());
        let (ptr, r): (*mut dyn NodeTree, Vec<RID>) = (t.lab.ptr(), t.rids.clone());
        let c: Tp<'static, Caster> = t.caster().expect("caster");
        let ear = |i: usize| unsafe { Tp::<Ear>::new(ptr, r[i], r[i]) }.to_option().expect("ear");
        let a: (RID, RID) = c.hook_up_others(ear(1));
        let b: (RID, RID) = c.hook_up_others(ear(2));
        if a.0 == b.0 || a.1 == b.1 { return Err("the connect macro returns the same id twice".into()); }
        c.pair.emit((3, 4)); c.none.emit(()); c.none.emit(()); c.pair.emit((u32::MAX - 1, 255));
        let got: Vec<(u32, u8)> = PAIR.with(|p| std::mem::take(&mut *p.borrow_mut()));
        let want: Vec<(u32, u8)> = vec![(3, 4), (3, 4), (u32::MAX, 0), (u32::MAX, 0), (u32::MAX - 1, 255), (u32::MAX - 1, 255)];
        if got != want { return Err(format!("the listeners got {got:?} instead of {want:?}").into()); }
        if !c.pair.disconnect(a.0) || c.pair.disconnect(a.0) || c.none.disconnect(b.1) { return Err("a disconnect result is wrong".into()); }
        c.pair.emit((1, 1));
        if PAIR.with(|p| std::mem::take(&mut *p.borrow_mut())) != vec![(1, 1)] { return Err("a disconnected listener is called".into()); }
        ctx.st.executions += 1;
        Ok(())
    });
}
