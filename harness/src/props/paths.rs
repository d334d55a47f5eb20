//! Names and paths.

use std::collections::HashSet;

use node_tree::prelude::*;

use super::{ Prop, b };
use crate::ctx::{ Ctx, Meta, Res, Tier };
use crate::engine::*;
use crate::lab::*;
use crate::world::*;

/*
 * C02
 */

/// Whether `got` is what asking for `want` next to `taken` may lead to.
fn name_ok(want: &str, taken: &[String], got: &str) -> bool {
    if !taken.iter().any(|t| t == want) { return got == want; }
    if taken.iter().any(|t| t == got) { return false; }
    let digits = |s: &str| !s.is_empty() && s.chars().all(|c| c.is_ascii_digit());
    got.strip_prefix(want.trim_end_matches(|c: char| c.is_ascii_digit())).is_some_and(digits)
}

/// All strings over `alphabet` of up to `n` characters.
pub fn strings(alphabet: &[char], n: usize) -> Vec<String> {
    let mut out: Vec<String> = vec![String::new()];
    let mut from: usize = 0;
    for _ in 0..n {
        let to: usize = out.len();
        for i in from..to { for &c in alphabet { let mut s: String = out[i].clone(); s.push(c); out.push(s); } }
        from = to;
    }
    out
}

const ODD: &[&str] = &[
    "N", "N1", "N01", "N09", "N9", "N99", "9", "0", "00", "18446744073709551614", "18446744073709551615", "18446744073709551616", "N18446744073709551615", "N18446744073709551616",
    "N340282366920938463463374607431768211455", "N340282366920938463463374607431768211456", "N99999999999999999999999999999999999999999999999", "é1", "é", "1é", "N１", "N٣", " ", "N ", " N", "n", "n1", "É", "ß", "SS", "N 1", "a.1", "-1", "N-1", "🌳7"
];

fn plain(name: &str) -> N0 { let mut n: N0 = N0::new(0); n.set_name(name); n }

fn names_under(lab: &mut Lab, r: RID) -> Vec<String> { lab.node(r).children().iter().map(|c| c.name().to_string()).collect() }

/// Adds a child that asks for `name` below `r` and judges the outcome.
fn add_named(lab: &mut Lab, r: RID, name: &str, form: usize) -> Res {
    let before: Vec<String> = names_under(lab, r);
    match form {
        0 => lab.node(r).add_child(plain(name)),
        1 => lab.node(r).add_child(NodeScene::new(plain(name))),
        _ => { unsafe { lab.node(r).add_child_from_ptr(Box::into_raw(plain(name).to_dyn_box()), true, false); } }
    }
    let after: Vec<String> = names_under(lab, r);
    if after.len() != before.len() + 1 || after[..before.len()] != before[..] { return Err(format!("adding {name:?} to {before:?} gave {after:?}").into()); }
    if !name_ok(name, &before, after.last().unwrap()) { return Err(format!("adding {name:?} to {before:?} made it {:?}", after.last().unwrap()).into()); }
    Ok(())
}

fn rename_child(lab: &mut Lab, r: RID, i: usize, name: &str) -> Res {
    let before: Vec<String> = names_under(lab, r);
    let mut others: Vec<String> = before.clone();
    others.remove(i);
    let k: RID = lab.node(r).children()[i].rid();
    lab.node(k).set_name(name);
    let after: Vec<String> = names_under(lab, r);
    let mut rest: Vec<String> = after.clone();
    let got: String = rest.remove(i);
    if rest != others { return Err(format!("renaming child {i} of {before:?} to {name:?} gave {after:?}").into()); }
    if !name_ok(name, &others, &got) { return Err(format!("renaming child {i} of {before:?} to {name:?} made it {got:?}").into()); }
    Ok(())
}

pub const C02: Prop = Prop {
    meta: Meta {
        id: "C02",
        rule: "all sequences of additions and renamings with names out of systematic families (all short strings over letters, digits and non-ASCII characters; numbers around every representation limit), in every form of adding, on the real tree; every resulting name is judged by the naming rule and all others must stay",
        bounds: |t| b(t, "sequences of 3 additions out of 31 names (all strings of up to 2 of 5 characters) and out of 21 alike names (all strings of up to 2 of 2 cases, blank and digit), all pairs and re-renamings of 156 names, sequences of 4 out of 9, all pairs and triples of 34 odd names; triples of 6 alike names of up to 70000 characters (22 lengths, 5 alphabets); scenes with 4 equal or different siblings; 260 equal names; renaming from hooks",
                         "sequences of 4 additions out of 31 names, 5 out of 9, all pairs of 781 names, triples of 34 odd names, 1500 equal names"),
        assumptions: &[]
    },
    body: |ctx| {
        let short: Vec<String> = strings(&['a', '0', '1', '9', 'é'], 2);
        let alike: Vec<String> = strings(&['a', 'A', ' ', '1'], 2);
        let seq = |ctx: &mut Ctx, names: &[String], len: usize, forms: usize| {
            assignments(len, names.len(), &mut |v| {
                if ctx.done() { return; }
                ctx.case(|| format!("add {:?}", v.iter().map(|&i| &names[i]).collect::<Vec<_>>()), |ctx| {
                    for f in 0..forms {
                        let mut lab: Lab = Lab::new(plain("root"));
                        for (k, &i) in v.iter().enumerate() { add_named(&mut lab, 0, &names[i], (f + k) % 3)?; }
                        // Then every child asks for the name of every other one.
                        if len <= 3 {
                            for i in 0..len { for j in 0..len { rename_child(&mut lab, 0, i, &names[v[j]])?; ctx.st.transitions += 1; } }
                        }
                        ctx.state_str(&names_under(&mut lab, 0).join("\u{1}"));
                        ctx.st.executions += 1; ctx.st.transitions += len as u64;
                    }
                    Ok(())
                });
            });
        };
        ctx.family("sequences of short names");
        seq(ctx, &short, ctx.pick(3, 4), 1);
        seq(ctx, &alike, ctx.pick(3, 4), 1);
        let few: Vec<String> = ["a", "a1", "a2", "a01", "a9", "a10", "1", "9", ""].iter().map(|s| s.to_string()).collect();
        seq(ctx, &few, ctx.pick(4, 5), 1);
        ctx.family("pairs of longer names");
        seq(ctx, &strings(&['a', '0', '1', '9', 'é'], ctx.pick(3, 4)), 2, 1);
        ctx.family("odd names");
        let odd: Vec<String> = ODD.iter().map(|s| s.to_string()).collect();
        seq(ctx, &odd, 2, 3);
        seq(ctx, &odd, 3, 1);
        ctx.family("long names");
        // Names as long as that, which differ early, late or only in their number, added and asked for again.
        for len in ctx.pick(vec![15usize, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 1024, 1025, 5000, 70_000], vec![15, 16, 17, 22, 23, 24, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 65_535, 65_536, 70_000]) {
            for unit in ["a", "é", "a ", "7", "z9"] {
                let body: String = unit.chars().cycle().take(len).collect();
                let names: Vec<String> = vec![body.clone(), format!("{body}1"), format!("{body}9"), format!("{body}b"), format!("b{body}"), format!("{body}b1")];
                seq(ctx, &names, 3, 1);
            }
        }
        ctx.family("scenes with equal names");
        let opts: Vec<String> = ["a", "a1", "a2", "b", "1", "18446744073709551615"].iter().map(|s| s.to_string()).collect();
        assignments(4, opts.len(), &mut |v| {
            if ctx.done() { return; }
            ctx.case(|| format!("scene with {:?}", v.iter().map(|&i| &opts[i]).collect::<Vec<_>>()), |ctx| {
                let scene = |nested: bool| {
                    let mut s: NodeScene = NodeScene::new(plain("host"));
                    for (k, &i) in v.iter().enumerate() {
                        let mut kid: NodeScene = NodeScene::new(plain(&opts[i]));
                        if nested { for &i in &v[..=k] { kid.append(NodeScene::new(plain(&opts[i]))); } }
                        s.append(kid);
                    }
                    s
                };
                let judge = |names: &[String]| -> Res {
                    for (k, n) in names.iter().enumerate() {
                        if !name_ok(&opts[v[k]], &names[..k], n) { return Err(format!("asking for {:?} next to {:?} gave {n:?}", opts[v[k]], &names[..k]).into()); }
                    }
                    Ok(())
                };
                for nested in [false, true] {
                    let mut lab: Lab = Lab::new(scene(nested));
                    judge(&names_under(&mut lab, 0))?;
                    if nested {
                        let kids: Vec<RID> = lab.node(0).children().iter().map(|c| c.rid()).collect();
                        for k in kids { judge(&names_under(&mut lab, k))?; }
                    }
                    lab.node(0).add_child(scene(nested));
                    let host: RID = lab.node(0).children().last().unwrap().rid();
                    if lab.node(host).name() != "host" { return Err("a free name was not kept".into()); }
                    judge(&names_under(&mut lab, host))?;
                    // A second one of the same name, taken from the tree as a branch.
                    let branch: NodeScene = lab.node(host).save_as_branch();
                    lab.node(0).add_child(branch);
                    let twin: RID = lab.node(0).children().last().unwrap().rid();
                    if !name_ok("host", &["host".to_string()], lab.node(twin).name()) { return Err(format!("a second host is called {:?}", lab.node(twin).name()).into()); }
                    let (a, b): (Vec<String>, Vec<String>) = (names_under(&mut lab, host), names_under(&mut lab, twin));
                    if a != b { return Err(format!("the names {a:?} became {b:?} although they were free").into()); }
                    ctx.st.executions += 1; ctx.st.transitions += 14;
                    ctx.state_str(&a.join("\u{1}"));
                }
                Ok(())
            });
        });
        ctx.family("additions, renamings and removals");
        let opts: Vec<String> = ["a", "a1", "b", "a2"].iter().map(|s| s.to_string()).collect();
        // op: 0..4 add name, 4.. rename child (op-4)/4 to name (op-4)%4, then removals
        assignments(ctx.pick(5, 6), 4 + 8 + 2, &mut |v| {
            if ctx.done() { return; }
            // Sequences in which an operation has no object are the same as shorter ones.
            let mut n: usize = 0;
            for &op in v { match op { 0..4 => n += 1, 4..12 => if (op - 4) / 4 >= n { return }, _ => { if op - 12 >= n { return } n -= 1; } } }
            ctx.case(|| format!("operations {v:?}"), |ctx| {
                let mut lab: Lab = Lab::new(plain("root"));
                for (k, &op) in v.iter().enumerate() {
                    match op {
                        0..4  => add_named(&mut lab, 0, &opts[op], k % 3)?,
                        4..12 => rename_child(&mut lab, 0, (op - 4) / 4, &opts[(op - 4) % 4])?,
                        _     => {
                            let mut names: Vec<String> = names_under(&mut lab, 0);
                            let kid: RID = lab.node(0).children()[op - 12].rid();
                            let name: String = names.remove(op - 12);
                            if k % 2 == 0 { lab.node(kid).free(); } else { lab.node(0).remove_child(&name); }
                            let after: Vec<String> = names_under(&mut lab, 0);
                            if after != names { return Err(format!("removing {name:?} changed the names to {after:?}").into()); }
                        }
                    }
                }
                ctx.st.executions += 1; ctx.st.transitions += v.len() as u64;
                ctx.state_str(&names_under(&mut lab, 0).join("\u{1}"));
                Ok(())
            });
        });
        ctx.family("names in other places");
        ctx.case(|| "names at different parents, of strays and of the root".into(), |_| {
            let mut lab: Lab = Lab::new(plain("same"));
            add_named(&mut lab, 0, "same", 0)?;
            let k: RID = lab.node(0).children()[0].rid();
            add_named(&mut lab, k, "same", 1)?;
            add_named(&mut lab, 0, "other", 1)?;
            let o: RID = lab.node(0).children()[1].rid();
            add_named(&mut lab, o, "same", 2)?;
            rename_child(&mut lab, 0, 1, "same")?;
            lab.node(0).set_name("other");
            if lab.node(0).name() != "other" { return Err("renaming the root failed".into()); }
            let mut stray: N0 = plain("x");
            stray.set_name("x1");
            if stray.name() != "x1" { return Err("renaming a stray failed".into()); }
            Ok(())
        });
        ctx.family("many equal names");
        for base in ["a", "a7", "9", "é", "a18446744073709551610", "a99"] {
            let n: usize = ctx.pick(260, 1500);
            ctx.case(|| format!("{n} times {base:?}"), |ctx| {
                let mut lab: Lab = Lab::new(plain("root"));
                let mut taken: Vec<String> = Vec::new();
                let mut set: HashSet<String> = HashSet::new();
                for i in 0..n {
                    lab.node(0).add_child(plain(base));
                    let kids = lab.node(0).children();
                    let got: String = kids.last().unwrap().name().to_string();
                    if i % 50 == 0 { let names: Vec<String> = kids.iter().map(|c| c.name().to_string()).collect(); if names[..i] != taken[..] { return Err("other names changed".into()); } }
                    if i > 0 && !name_ok(base, &[base.to_string()], &got) || i == 0 && got != base || !set.insert(got.clone()) { return Err(format!("the {i}-th {base:?} is called {got:?}").into()); }
                    taken.push(got);
                    if i % 100 == 0 { ctx.beat(); }
                }
                ctx.st.executions += 1; ctx.st.transitions += n as u64;
                Ok(())
            });
        }
        ctx.family("renaming in hooks");
        fn menu(tags: &[Tg], next: Tg, _p: (K, Tg, u32)) -> Vec<Act> {
            let mut out: Vec<Act> = Vec::new();
            for &t in tags { for n in ["N0", "N01", "x"] { out.push(Act::Rename(t, n)); } out.push(Act::Add(t, Form::Node, std::rc::Rc::new(Spec::leaf(next)))); }
            out
        }
        for n in 1..=ctx.pick(3, 4) { for s in shapes(n) {
            let add: Act = Act::Add(0, Form::Scene, std::rc::Rc::new(retag(Spec::leaf(0).with(vec![Spec::leaf(0), Spec::leaf(0).named("N01")]), 20)));
            let sc: Scenario = Scenario::new(s).steps(vec![Step::Frame(1), Step::Do(add), Step::Frame(1)]);
            explore_scripts(ctx, &sc, &[menu], &[K::Ready, K::Process, K::Terminal], if n <= 2 { 2 } else { 1 }, &[Cat::Name]);
        } }
    }
};

/*
 * C03
 */

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Seg { Empty, This, Up, Name(usize) }

struct Named { parent: Vec<Option<usize>>, name: Vec<String> }

impl Named {
    fn resolve(&self, from: usize, abs: bool, segs: &[&str]) -> Option<usize> {
        let segs: Vec<&str> = segs.iter().copied().filter(|s| !s.is_empty()).collect();
        let (mut at, mut rest): (usize, &[&str]) = (from, &segs);
        if abs {
            let (first, more): (&&str, &[&str]) = rest.split_first()?;
            if *first != self.name[0] { return None; }
            at = 0; rest = more;
        }
        for s in rest {
            match *s {
                "."  => (),
                ".." => at = self.parent[at]?,
                n    => at = (0..self.name.len()).find(|&k| self.parent[k] == Some(at) && self.name[k] == n)?
            }
        }
        Some(at)
    }
}

fn build(spec: &Spec, names: &[String]) -> (Lab, Vec<RID>, Named) {
    let mut s: Spec = spec.clone();
    let mut i: usize = 0;
    s.each_mut(&mut |x| { x.name = Some(names[i].clone()); x.class = (i % 2) as u8; x.tag = i as Tg; i += 1; });
    let mut lab: Lab = Lab::new(s.scene());
    let rids: Vec<RID> = lab.pre_order();
    let parent: Vec<Option<usize>> = rids.iter().map(|&r| lab.node(r).parent_dyn().to_option().map(|p| p.rid()).map(|p| rids.iter().position(|&x| x == p).unwrap())).collect();
    let name: Vec<String> = rids.iter().map(|&r| lab.node(r).name().to_string()).collect();
    (lab, rids, Named { parent, name })
}

fn lookup(lab: &mut Lab, rids: &[RID], model: &Named, from: usize, text: &str, segs: &[&str], path: NodePath) -> Res {
    let abs: bool = text.starts_with('/');
    let want: Option<RID> = model.resolve(from, abs, segs).map(|i| rids[i]);
    let fail = |how: &str, got: String| -> Res { Err(format!("{text:?} from node {from} of {:?} with parents {:?} leads to {got} instead of {want:?} ({how})", model.name, model.parent).into()) };
    if path.is_absolute() != abs { return fail("is_absolute", format!("{}", path.is_absolute())); }
    let tree: &'static mut dyn NodeTree = lab.tree();
    let node: &'static mut dyn Node = lab.node(rids[from]);
    let got: Option<RID> = tree.get_node_rid(path.clone(), Some(rids[from]));
    if got != want { return fail("get_node_rid", format!("{got:?}")); }
    let got: Option<RID> = node.get_node_dyn(path.clone()).to_option().map(|p| p.rid());
    if got != want { return fail("get_node_dyn", format!("{got:?}")); }
    let is0: Option<RID> = want.filter(|&w| class_of(tree.get_node(w).unwrap()) == 0);
    let is1: Option<RID> = want.filter(|&w| class_of(tree.get_node(w).unwrap()) == 1);
    let got: Option<RID> = node.get_node::<N0>(path.clone()).to_option().map(|p| p.rid());
    if got != is0 { return fail("get_node::<N0>", format!("{got:?}")); }
    let got: Option<RID> = node.get_node::<N1>(path.clone()).to_option().map(|p| p.rid());
    if got != is1 { return fail("get_node::<N1>", format!("{got:?}")); }
    if !abs {
        let got: Option<RID> = node.get_node_raw(path.clone());
        if got != want { return fail("get_node_raw", format!("{got:?}")); }
        if tree.get_node_rid(path.clone(), None).is_some() { return fail("get_node_rid without a caller", "something".into()); }
    } else {
        let got: Option<RID> = tree.get_node_rid(path.clone(), None);
        if got != want { return fail("get_node_rid without a caller", format!("{got:?}")); }
    }
    // Text and back.
    let back: NodePath = NodePath::from_str(&path.clone().to_string());
    if back != path { return fail("conversion to text", format!("the path {:?}", path.to_string())); }
    let got: Option<RID> = tree.get_node_rid(back, Some(rids[from]));
    if got != want { return fail("after conversion to text", format!("{got:?}")); }
    Ok(())
}

fn compose(abs: bool, segs: &[&str]) -> NodePath {
    let mut p: NodePath = if abs { NodePath::new_abs() } else { NodePath::new() };
    for s in segs { p.add_node(s); }
    p
}

pub const C03: Prop = Prop {
    meta: Meta {
        id: "C03",
        rule: "all paths of bounded length over the segments `.`, `..`, empty, and the names, relative and absolute, from every node of all named trees, through every lookup; the answer is compared with a reference resolver, every absolute path leads back, and paths survive conversion to text",
        bounds: |t| b(t, "trees up to 4 nodes with all sibling-unique namings out of 3 names (and 3 names that differ in case or length) x paths up to 4 segments; trees of 3 nodes x paths of 5 segments; 30 odd names; after renamings, additions and removals; chains of 1500 nodes; lives of 70000 nodes beside lasting ones",
                         "trees up to 5 nodes x paths up to 5 segments; trees of 3 nodes x paths up to 7; chains of 6000 nodes; lives of 140000 nodes beside lasting ones"),
        assumptions: &["names are not empty, contain no slash, and are not `.` or `..`"]
    },
    body: |ctx| {
        super::tree::long_lives(ctx, &[crate::world::Cat::Path]);
        ctx.family("named trees and paths");
        const PLAIN: [&str; 3] = ["A", "B", "R"];
        const ALIKE: [&str; 3] = ["A", "a", "AA"];
        for (lo, hi, len, pool) in ctx.pick(vec![(1, 3, 4, PLAIN), (4, 4, 3, PLAIN), (3, 3, 5, PLAIN), (1, 3, 4, ALIKE), (4, 4, 3, ALIKE)], vec![(1, 4, 5, PLAIN), (5, 5, 4, PLAIN), (3, 3, 7, PLAIN), (1, 4, 5, ALIKE), (5, 5, 4, ALIKE)]) {
            for n in lo..=hi { for s in shapes(n) {
                assignments(n, 3, &mut |v| {
                    if ctx.done() { return; }
                    if len > 4 && ctx.quick() && v[0] != 0 { return; }
                    let names: Vec<String> = v.iter().map(|&i| pool[i].to_string()).collect();
                    {   // siblings differ
                        let mut s2: Spec = s.clone(); let mut i: usize = 0; let mut ok: bool = true;
                        s2.each_mut(&mut |x| { x.name = Some(names[i].clone()); i += 1; });
                        s2.each(&mut |x| { let mut k: Vec<&String> = x.kids.iter().map(|k| k.name.as_ref().unwrap()).collect(); k.sort(); ok &= k.windows(2).all(|w| w[0] != w[1]); });
                        if !ok { return; }
                    }
                    ctx.case(|| format!("paths up to {len} in {} named {names:?}", s.show()), |ctx| {
                        let (mut lab, rids, model): (Lab, Vec<RID>, Named) = build(&s, &names);
                        if model.name != names { return Err(format!("the names {names:?} became {:?}", model.name).into()); }
                        ctx.state_str(&format!("{}{names:?}", s.show()));
                        let segs_of: [&str; 6] = [".", "..", "", pool[0], pool[1], pool[2]];
                        for l in 0..=len {
                            assignments_try(l, 6, &mut |v| {
                                let segs: Vec<&str> = v.iter().map(|&i| segs_of[i]).collect();
                                for abs in [false, true] {
                                    // An empty first segment makes a path absolute.
                                    let text: String = format!("{}{}", if abs { "/" } else { "" }, segs.join("/"));
                                    if !abs && l > 1 && segs[0].is_empty() { continue; }
                                    if !abs && l > 0 && text.starts_with('/') { continue; }
                                    for from in 0..rids.len() {
                                        lookup(&mut lab, &rids, &model, from, &text, &segs, NodePath::from_str(&text))?;
                                        ctx.st.executions += 1; ctx.st.transitions += l as u64;
                                    }
                                    if l <= 3 { lookup(&mut lab, &rids, &model, 0, &text, &segs, compose(abs, &segs))?; }
                                    if l <= 3 {
                                        let mut p: NodePath = NodePath::from_str(&text);
                                        let mut got: Vec<String> = Vec::new();
                                        while let Some(s) = p.pop_front_as_string() { got.push(s); }
                                        let want: Vec<&str> = segs.iter().copied().filter(|s| !s.is_empty()).collect();
                                        if got != want { return Err(format!("the path {text:?} has the segments {got:?}").into()); }
                                    }
                                }
                                ctx.beat();
                                Ok(())
                            })?;
                        }
                        absolute(&mut lab)
                    });
                });
            } }
        }
        ctx.family("odd names");
        const NAMES: &[&str] = &["é", "...", ". ", " ", " .", "a.b", "..a", "a..", "~", "%2F", "\\", "a b", "日本", "🌳", "\n", "\t", "N0", "-", "*", "'", "\"", "{}", "{0}", "a\u{0}b", "A", "a", "A ", "É", "n0", "N00"];
        for x in NAMES { for y in NAMES {
            ctx.case(|| format!("names {x:?} and {y:?}"), |ctx| {
                for s in shapes(3) {
                    if x == y && s.kids.len() == 2 { continue; }
                    let (mut lab, rids, model) = build(&s, &[y.to_string(), x.to_string(), y.to_string()]);
                    for (i, segs) in [vec![*x], vec![*x, *y], vec![*y, *x], vec![*y, *x, *y], vec!["..", *x], vec!["..", *y], vec![*x, "..", *y], vec![*y, ".", *x]].into_iter().enumerate() {
                        for abs in [false, true] { for from in 0..3 {
                            let text: String = format!("{}{}{}", if abs { "/" } else { "" }, segs.join("/"), if i % 2 == 0 { "//" } else { "" });
                            lookup(&mut lab, &rids, &model, from, &text, &segs, NodePath::from_str(&text))?;
                            ctx.st.executions += 1; ctx.st.transitions += 3;
                        } }
                    }
                    absolute(&mut lab)?;
                }
                ctx.state_str(&format!("{x}|{y}"));
                Ok(())
            });
        } }
        ctx.family("changing trees");
        let mut a: Alphabet = Alphabet::structural();
        a.rename = &["N0", "n0"]; a.missing = false; a.frame = false;
        for n in 1..=3 { for s in shapes(n) {
            histories(&s, Form::Scene, &a, ctx.pick(if n < 3 { 3 } else { 2 }, 3), &mut |steps| {
                if ctx.done() { return; }
                let sc: Scenario = Scenario::new(s.clone()).steps(steps.to_vec());
                ctx.case(|| sc.show(&[]), |ctx| {
                    run(ctx, &sc, &[], &[Cat::Path], &mut |w| { let e: Option<String> = leads_back(w); if let Some(e) = e { w.err(Cat::Path, e); } })?;
                    Ok(())
                });
            });
        } }
        ctx.family("long paths");
        for n in ctx.pick(vec![300, 1500], vec![300, 1500, 6000]) {
        ctx.case(|| format!("a chain of {n} nodes"), |ctx| {
            let mut lab: Lab = Lab::new(super::tree::chain(n).scene());
            ctx.st.executions += 1; ctx.st.transitions += n as u64;
            let rids: Vec<RID> = lab.pre_order();
            for &(i, j) in &[(0, n - 1), (n - 1, 0), (n / 2, n - 1), (n - 1, n / 2), (0, 1), (n - 1, n - 2)] {
                let p: NodePath = lab.node(rids[j]).get_absolute_path();
                if lab.tree().get_node_rid(p.clone(), Some(rids[i])) != Some(rids[j]) { return Err(format!("the path of node {j} does not lead there from node {i}").into()); }
                if NodePath::from_str(&p.clone().to_string()) != p { return Err("a long path does not survive conversion".into()); }
                let up: String = vec![".."; i].join("/");
                if lab.node(rids[i]).get_node_raw(NodePath::from_str(&up)) != Some(rids[0]) { return Err(format!("going up {i} times from node {i} fails").into()); }
                let up: String = vec![".."; i + 1].join("/");
                if lab.node(rids[i]).get_node_raw(NodePath::from_str(&up)).is_some() { return Err("going up beyond the root succeeds".into()); }
            }
            Ok(())
        }); }
    }
};

/// The absolute path of every node, used from every node, leads back to it.
fn absolute(lab: &mut Lab) -> Res {
    let rids: Vec<RID> = lab.pre_order();
    for &r in &rids {
        let p: NodePath = lab.node(r).get_absolute_path();
        if !p.is_absolute() { return Err(format!("the absolute path {:?} is not absolute", p.to_string()).into()); }
        for &from in &rids {
            for p in [p.clone(), NodePath::from_str(&p.clone().to_string())] {
                let got: Option<RID> = lab.tree().get_node_rid(p.clone(), Some(from));
                if got != Some(r) { return Err(format!("the absolute path {:?} of node {r} leads to {got:?} from node {from}", p.to_string()).into()); }
            }
        }
    }
    Ok(())
}

fn leads_back(w: &mut World) -> Option<String> {
    let all: Vec<Tg> = w.model.all();
    for &t in &all {
        let p: NodePath = w.real(t)?.get_absolute_path();
        for &f in &all {
            let rid: RID = w.model.n[f as usize].rid?;
            let got: Option<RID> = w.tree().get_node_rid(p.clone(), Some(rid));
            if got != w.model.n[t as usize].rid { return Some(format!("the absolute path {:?} of node {t} leads to id {got:?} from node {f}", p.to_string())); }
        }
        for s in w.model.n[t as usize].kids.clone() {
            let name: String = w.real(s)?.name().to_string();
            let got: Option<RID> = w.real(t)?.get_node_raw(NodePath::from_str(&name));
            if got != w.model.n[s as usize].rid { return Some(format!("the child {name:?} of node {t} is not found")); }
            if w.real(s)?.get_node_raw(NodePath::from_str("..")) != w.model.n[t as usize].rid { return Some(format!("the parent of node {s} is not found")); }
        }
    }
    // Nodes that have left are not found, also when nothing else is left.
    if w.model.root.is_none() && w.tree().get_node_rid(NodePath::from_str("/N0"), None).is_some() { return Some("a freed root is found".into()); }
    for n in &w.model.n {
        if n.known && !n.in_tree && let Some(r) = n.rid && w.tree().get_node_rid(NodePath::from_str("."), Some(r)).is_some() { return Some("a path is followed from a node that has left".into()); }
    }
    None
}

/// Like `assignments`, but stops at the first failure.
pub fn assignments_try(n: usize, base: usize, f: &mut dyn FnMut(&[usize]) -> Res) -> Res {
    let mut res: Res = Ok(());
    assignments(n, base, &mut |v| if res.is_ok() { res = f(v); });
    res
}
