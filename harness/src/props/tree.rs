//! Properties of the tree itself, decided by exploring histories and hook scripts.

use std::rc::Rc;

use node_tree::prelude::*;

use super::{ Prop, b };
use node_tree::trees::tree_simple::TreeSimple;

use crate::ctx::{ Ctx, Meta, Res };
use crate::engine::*;
use crate::world::*;

const HOOKS: &[K] = &[K::Loaded, K::Ready, K::Process, K::Terminal];

/// Steps that make every kind of hook run on a tree with `n` nodes.
pub fn life(n: usize) -> Vec<Step> {
    let last: Tg = n as Tg - 1;
    let mut s: Vec<Step> = vec![Step::Frame(16_000_000), Step::Do(Act::Add(last, Form::Scene, Rc::new(retag(Spec::leaf(0).owned(true).with(vec![Spec::leaf(0)]), 20)))), Step::Frame(17_000_000)];
    if n > 1 { s.push(Step::Do(Act::Free(1))); }
    s.push(Step::Frame(1));
    s
}

pub fn end_life() -> Vec<Step> { vec![Step::Do(Act::Queue), Step::Frame(5), Step::Frame(6), Step::Frame(7)] }

type MenuFn = fn(&[Tg], Tg, (K, Tg, u32)) -> Vec<Act>;

/// Hook scripts on all shapes: (fewest nodes, most nodes, operations, with the end of life).
fn scripts(ctx: &mut Ctx, mask: Mask, menus: &[MenuFn], kinds: &[K], plan: &[(usize, usize, usize, bool)]) {
    for &(lo, hi, d, end) in plan {
        for n in lo..=hi {
            for s in shapes(n) {
                let mut steps: Vec<Step> = life(n);
                if end { steps.extend(end_life()); }
                explore_scripts(ctx, &Scenario::new(s).steps(steps), menus, kinds, d, mask);
            }
        }
    }
}

fn hist(ctx: &mut Ctx, mask: Mask, a: &Alphabet, plan: &[(usize, usize, usize)]) {
    for &(lo, hi, d) in plan { for n in lo..=hi { for s in shapes(n) { explore_histories(ctx, &s, Form::Scene, a, d, mask, &|_| ()); } } }
}

fn one(ctx: &mut Ctx, sc: Scenario, devs: Vec<Dev>, mask: Mask) {
    ctx.case(|| sc.show(&devs), |ctx| { run_plain(ctx, &sc, &devs, mask)?; Ok(()) });
}

/// Histories of all kinds of operations on nodes with like names.
pub fn mixed(ctx: &mut Ctx, mask: Mask) {
    ctx.family("mixed histories");
    let a: Alphabet = Alphabet::mixed();
    for (n, d) in ctx.pick(vec![(1, 3), (2, 2), (3, 2), (4, 1)], vec![(1, 3), (2, 3), (3, 3), (4, 2), (5, 2)]) {
        for s in shapes(n) {
            histories(&alike(s.clone()), Form::Scene, &a, d, &mut |steps| {
                if ctx.done() { return; }
                let steps: Vec<Step> = steps.iter().cloned().chain([Step::Frame(7)]).collect();
                one(ctx, Scenario::new(alike(s.clone())).steps(steps), vec![], mask);
            });
        }
    }
    ctx.family("mixed operations in hooks");
    for n in 1..=ctx.pick(3, 4) { for s in shapes(n) {
        let sc: Scenario = Scenario::new(alike(s)).steps(life(n).into_iter().chain(end_life()).collect());
        explore_scripts(ctx, &sc, &[menu_mixed], HOOKS, 1, mask);
    } }
}

fn menu_mixed(tags: &[Tg], next: Tg, p: (K, Tg, u32)) -> Vec<Act> {
    let mut out: Vec<Act> = Vec::new();
    for &t in tags {
        for (form, s) in Alphabet::mixed().adds { out.push(Act::Add(t, form, Rc::new(retag(s, next)))); }
        out.extend([Act::Rename(t, "A"), Act::Rename(t, "b"), Act::Name(t, "a"), Act::Free(t), Act::Remove(t)]);
    }
    out.extend([Act::Queue, Act::Pause, Act::Unpause, Act::Warn(p.1), Act::Sleep(3_000_000)]);
    out
}

const HOOK_RULES: &[&str] = &["hooks do not use `self` after having removed themselves from the tree", "operations on nodes that are not in the tree are not issued"];

/*
 * C01
 */

const STRUCT: Mask = &[Cat::Struct, Cat::Mem, Cat::Rid, Cat::Name];

pub const C01: Prop = Prop {
    meta: Meta {
        id: "C01",
        rule: "all operation histories on all tree shapes, and all placements of operations in hooks, on the real tree; after every operation and at every hook the tree is compared with a reference model (children, parents, depths, listings, reachability by id, instances in memory)",
        bounds: |t| b(t, "histories: shapes up to 3 nodes x 3 operations, up to 2 x 4; hook scripts: 1 operation on shapes up to 4, 2 on shapes up to 2, 2 structural ones on shapes of 3; chains and fans up to 1100 nodes; churn of 5000 additions and removals; mixed histories (all forms of adding, renaming, names, control) of 3 operations on 1 node, 2 on up to 3, and 1 operation in any hook; lives of 70000 nodes beside lasting ones",
                         "histories: shapes up to 4 nodes x 4 operations, up to 2 x 5; hook scripts: 2 operations on shapes up to 4, 3 on shapes up to 2; chains and fans up to 2000 nodes; churn of 70000 additions and removals; mixed histories of 3 operations on up to 3 nodes, 2 on up to 5, and 1 operation in any hook; lives of 140000 nodes beside lasting ones"),
        assumptions: HOOK_RULES
    },
    body: |ctx| {
        ctx.family("histories");
        let plan = ctx.pick(vec![(1, 3, 3), (1, 2, 4)], vec![(1, 4, 4), (1, 2, 5)]);
        hist(ctx, STRUCT, &Alphabet::structural(), &plan);
        ctx.family("hook scripts");
        let plan = ctx.pick(vec![(1, 4, 1, true), (1, 2, 2, true)], vec![(1, 4, 2, true), (1, 4, 2, false), (1, 2, 3, false)]);
        scripts(ctx, STRUCT, &[menu_structural, menu_control], HOOKS, &plan);
        scripts(ctx, STRUCT, &[menu_structural], HOOKS, &[(3, 3, 2, false)]);
        ctx.family("scale");
        scale(ctx, STRUCT);
        long_lives(ctx, STRUCT);
        mixed(ctx, STRUCT);
    }
};

/*
 * C05
 */

const START: Mask = &[Cat::Start];

/// All ways to make nodes of a shape come from disk.
fn disk_variants(s: &Spec, f: &mut dyn FnMut(Spec)) {
    let n: usize = s.size();
    assignments(n, 2, &mut |v| {
        let mut s: Spec = s.clone();
        let mut i: usize = 0;
        s.each_mut(&mut |x| { x.disk = v[i] == 1; i += 1; });
        f(s);
    });
}

fn owner_variants(s: &Spec, f: &mut dyn FnMut(Spec)) {
    assignments(s.size(), 2, &mut |v| { let mut s: Spec = s.clone(); let mut i: usize = 0; s.each_mut(&mut |x| { x.owner = v[i] == 1; i += 1; }); f(s); });
}

pub const C05: Prop = Prop {
    meta: Meta {
        id: "C05",
        rule: "all scenes (shapes, origins from disk or not, owners, names) created or added at all positions of a tree, and all placements of operations in loaded and ready hooks; at every start hook the whole tree is compared with the reference model the order and number of the hooks is judged, and a node counts as just loaded until it has been started",
        bounds: |t| b(t, "scenes up to 4 nodes with all disk origins (owners up to 3); added below every node of trees up to 3 nodes; hook scripts of 1 operation on scenes up to 3 nodes with all origins, 2 on scenes up to 2; mixed histories (all forms of adding, renaming, names, control) of 3 operations on 1 node, 2 on up to 3, and 1 operation in any hook; 140 to 1500 nodes started at once with 1 operation in the start hook of the first, middle or last",
                         "scenes up to 6 nodes with all disk origins (owners up to 4); added below every node of trees up to 4 nodes; hook scripts of 2 operations on scenes up to 4 nodes, 3 on scenes up to 2; mixed histories of 3 operations on up to 3 nodes, 2 on up to 5, and 1 operation in any hook; 129 to 2100 nodes started at once with 1 operation in the start hook of the first, middle or last"),
        assumptions: HOOK_RULES
    },
    body: |ctx| {
        ctx.family("creation");
        let end = || vec![Step::Frame(1), Step::Do(Act::Queue), Step::Frame(1), Step::Frame(1)];
        for s in shapes_upto(ctx.pick(4, 6)) {
            disk_variants(&s, &mut |s| {
                let mut named: Spec = s.clone();
                named.each_mut(&mut |x| { if x.tag % 3 == 1 { x.name = Some("N01".into()); } x.class = (x.tag % 3) as u8; });
                for s in [s, named] {
                    one(ctx, Scenario::new(s.clone()).steps(end()), vec![], START);
                    one(ctx, Scenario::new(s.clone().via(Via::Cloned)).steps(end()), vec![], START);
                    let mut fresh: bool = true; s.each(&mut |x| fresh &= !x.disk);
                    if fresh { one(ctx, Scenario::new(s.via(Via::Branch)).steps(end()), vec![], START); }
                }
            });
        }
        for s in shapes_upto(ctx.pick(3, 4)) { disk_variants(&s, &mut |s| owner_variants(&s, &mut |s| one(ctx, Scenario::new(s).steps(end()), vec![], START))); }
        for c in 0..3 { one(ctx, Scenario::new(Spec::leaf(0).class(c)).form(Form::Node).steps(end()), vec![], START); }

        ctx.family("additions");
        for host in shapes_upto(ctx.pick(3, 4)) {
            for at in host.tags() {
                for s in shapes_upto(ctx.pick(3, 4)) {
                    disk_variants(&s, &mut |s| for own in [false, true] {
                        if s.disk && !own { continue; }
                        let s: Rc<Spec> = Rc::new(retag(s.clone(), 10).owned(own));
                        let t: Rc<Spec> = Rc::new(retag((*s).clone(), 20).via(Via::Cloned));
                        let steps: Vec<Step> = vec![Step::Do(Act::Add(at, Form::Scene, s)), Step::Frame(1), Step::Do(Act::Add(at, Form::Scene, t)), Step::Frame(1)];
                        one(ctx, Scenario::new(host.clone()).steps(steps), vec![], START);
                    });
                }
                for form in [Form::Node, Form::Ptr] { one(ctx, Scenario::new(host.clone()).steps(vec![Step::Do(Act::Add(at, form, Rc::new(Spec::leaf(10).class(1)))), Step::Frame(1)]), vec![], START); }
            }
        }

        ctx.family("operations in start hooks");
        for (hi, d) in ctx.pick(vec![(3, 1), (2, 2)], vec![(4, 2), (2, 3)]) {
            for s in shapes_upto(hi) {
                disk_variants(&s, &mut |s| {
                    let last: Tg = s.size() as Tg - 1;
                    explore_scripts(ctx, &Scenario::new(s.clone()), &[menu_structural, menu_control], &[K::Loaded, K::Ready], d, START);
                    let steps: Vec<Step> = vec![Step::Do(Act::Add(0, Form::Scene, Rc::new(retag(s.clone().owned(true), 10)))), Step::Frame(1), Step::Do(Act::Add(last, Form::Ptr, Rc::new(Spec::leaf(30)))) ];
                    if d < 3 { explore_scripts(ctx, &Scenario::new(Spec::leaf(0).with(vec![retag(Spec::leaf(0), 1)])).steps(steps), &[menu_structural], &[K::Loaded, K::Ready], d, START); }
                });
            }
        }
        ctx.family("additions in other hooks");
        let plan = ctx.pick(vec![(1, 3, 1, true)], vec![(1, 3, 2, true)]);
        scripts(ctx, START, &[menu_adds], HOOKS, &plan);
        ctx.family("many at once");
        for n in ctx.pick(vec![140usize, 300, 1100, 1500], vec![129, 140, 257, 300, 513, 1025, 1100, 1500, 2100]) {
            for form in 0..3 { for added in [true, false] { for disk in [false, true] {
                if n > 1200 && form != 0 { continue; }
                let first: Tg = if added { 2 } else { 0 };
                let mut s: Spec = retag(match form { 0 => fan(n), 1 => chain(n), _ => brush(n) }, first);
                if disk { s = retag(s.all_disk().owned(true), first); }
                s.each_mut(&mut |x| x.name = Some(format!("n{}x", x.tag)));
                let s: Rc<Spec> = Rc::new(s);
                let (mid, last): (Tg, Tg) = (first + n as Tg / 2, first + n as Tg - 1);
                // What one of the nodes does in its start hook: the last one starts first.
                let acts: Vec<Act> = vec![Act::Queue, Act::Terminate, Act::Pause, Act::Panic(mid), Act::Warn(last), Act::Free(mid), Act::Remove(last), Act::Add(mid, Form::Node, Rc::new(Spec::leaf(first + n as Tg)))];
                let few: bool = ctx.quick() && n > 1000;
                for k in if disk { vec![K::Loaded, K::Ready] } else { vec![K::Ready] } { for by in [first, mid, last] { for act in &acts {
                    if few && (by == mid || disk && k == K::Ready || form == 2 && by != first) { continue; }
                    if ctx.done() { return; }
                    let mut sc: Scenario = if added { Scenario::new(Spec::leaf(0).with(vec![retag(Spec::leaf(0), 1)])).steps(vec![Step::Do(Act::Add(1, Form::Scene, s.clone())), Step::Frame(1)]) } else { Scenario::new((*s).clone()).steps(vec![Step::Frame(1)]) };
                    sc.snap = false;
                    let dev: Dev = Dev { k, tag: by, occ: 1, act: act.clone() };
                    ctx.case(|| format!("{} of {n} nodes{}, {}: {}", ["a fan", "a chain", "a brush"][form], if disk { " from disk" } else { "" }, if added { "added" } else { "created" }, dev.show()), |ctx| { run_plain(ctx, &sc, &[dev.clone()], START)?; Ok(()) });
                } } }
            } } }
        }
        ctx.family("scale");
        scale(ctx, START);
        mixed(ctx, START);
    }
};

/// Additions of all kinds.
fn menu_adds(tags: &[Tg], next: Tg, _p: (K, Tg, u32)) -> Vec<Act> {
    let mut out: Vec<Act> = Vec::new();
    for &t in tags {
        for s in [Spec::leaf(0), Spec::leaf(0).disk(true).owned(true), Spec::leaf(0).with(vec![Spec::leaf(0), Spec::leaf(0)]), Spec::leaf(0).with(vec![Spec::leaf(0).owned(true).with(vec![Spec::leaf(0)])]).all_disk().owned(true)] {
            out.push(Act::Add(t, Form::Scene, Rc::new(retag(s, next))));
        }
        out.push(Act::Add(t, Form::Node, Rc::new(Spec::leaf(next))));
        out.push(Act::Add(t, Form::Ptr,  Rc::new(Spec::leaf(next))));
    }
    out
}

/*
 * C06
 */

const TERM: Mask = &[Cat::Term];

pub const C06: Prop = Prop {
    meta: Meta {
        id: "C06",
        rule: "all histories of additions and removals on all tree shapes and all placements of operations in hooks; at every terminal hook the whole tree is compared with the reference model, and number, order and reason of the hooks is judged; any later hook of a removed node is a violation",
        bounds: |t| b(t, "histories: shapes up to 4 nodes x 2 operations, up to 3 x 3; hook scripts: 1 operation on shapes up to 4, 2 on shapes up to 3; all pairs of 19 names with removal by 37 names; chains and fans up to 1100 nodes; mixed histories (all forms of adding, renaming, names, control) of 3 operations on 1 node, 2 on up to 3, and 1 operation in any hook; lives of 70000 nodes beside lasting ones",
                         "histories: shapes up to 5 nodes x 3 operations, up to 3 x 4; all pairs of 19 names with removal by 37 names; hook scripts: 2 operations on shapes up to 4, 3 on shapes up to 2; chains and fans up to 2000 nodes; mixed histories of 3 operations on up to 3 nodes, 2 on up to 5, and 1 operation in any hook; lives of 140000 nodes beside lasting ones"),
        assumptions: &["hooks do not use `self` after having removed themselves from the tree", "operations on nodes that are not in the tree are not issued", "left open: terminal hooks that add to the part being removed or remove it again"]
    },
    body: |ctx| {
        ctx.family("histories");
        let mut a: Alphabet = Alphabet::structural();
        a.adds.truncate(2);
        let plan = ctx.pick(vec![(1, 4, 2), (1, 3, 3)], vec![(1, 5, 3), (1, 3, 4)]);
        hist(ctx, TERM, &a, &plan);
        ctx.family("refused removals");
        for s in shapes_upto(4) {
            for t in s.tags() {
                for pre in [vec![], vec![Step::Do(Act::Pause)], vec![Step::Do(Act::Queue)], vec![Step::Do(Act::Queue), Step::Frame(1)]] {
                    let mut steps: Vec<Step> = pre;
                    steps.extend([Step::Do(Act::RemoveMissing(t)), Step::Frame(1)]);
                    one(ctx, Scenario::new(s.clone()).verbose(LoggerVerbosity::All).steps(steps), vec![], TERM);
                }
            }
        }
        ctx.family("removal by name");
        const NAMES: &[&str] = &["A", "a", "A ", " A", "A1", "A01", "AB", "B", "é", "É", "e\u{301}", ".", "..", "-", "*", "A.", "[A]", "A\u{0}", "A\n"];
        const ASKED: &[&str] = &["A/", "/A", "./A", "A/B", "A//", "../R/A", "/R/A", "R", "", "/", "A*", "?", "AA", "0", "1", "A1 ", "Ａ"];
        for (i, x) in NAMES.iter().enumerate() { for (j, y) in NAMES.iter().enumerate() {
            if i == j { continue; }
            for below in [None, Some("A"), Some("zz")] {
                ctx.case(|| format!("children {x:?} and {y:?}, with {below:?} below them: removal by every name"), |ctx| {
                    for name in NAMES.iter().chain(ASKED).chain(&["zz"]) {
                        let leaf = || Spec::leaf(0).with(below.map(|_| Spec::leaf(0)).into_iter().collect());
                        let spec: Spec = retag(Spec::leaf(0).with(vec![leaf(), leaf()]), 0);
                        let names: Vec<String> = match below { Some(b) => vec!["R", x, b, y, b], None => vec!["R", x, y] }.into_iter().map(String::from).collect();
                        let mut l: crate::lab::Lab = crate::lab::Lab::with(super::logs::plain_scene(&spec, &names), LoggerVerbosity::All);
                        let log: usize = l.tree().get_log().len();
                        let got: bool = l.at(0).remove_child(name);
                        let log: String = l.tree().get_log()[log..].to_string();
                        let left: Vec<String> = l.at(0).children().iter().map(|c| c.name().to_string()).collect();
                        let want: Vec<String> = [x, y].iter().filter(|n| **n != name).map(|n| n.to_string()).collect();
                        if left != want || got != (want.len() < 2) { return Err(format!("removing {name:?} reports {got} and leaves {left:?} instead of {want:?}").into()); }
                        if l.pre_order().len() != 1 + want.len() * if below.is_some() { 2 } else { 1 } { return Err(format!("removing {name:?} leaves {} nodes", l.pre_order().len()).into()); }
                        if got == log.contains("| WARN |") { return Err(format!("removing {name:?} reports {got} and logs {log:?}").into()); }
                        ctx.st.transitions += 1;
                    }
                    ctx.st.executions += 1;
                    Ok(())
                });
            }
        } }
        ctx.family("freeing the root ends the tree");
        const ROOT: Mask = &[Cat::Term, Cat::Life];
        for s in shapes_upto(4) {
            for pre in [vec![], vec![Step::Frame(1)], vec![Step::Do(Act::Pause)], vec![Step::Do(Act::Queue)], vec![Step::Do(Act::Queue), Step::Frame(1)], vec![Step::Do(Act::Queue), Step::Frame(1), Step::Frame(1)]] {
                let mut steps: Vec<Step> = pre;
                steps.extend([Step::Do(Act::Free(0)), Step::Frame(1), Step::Frame(1)]);
                one(ctx, Scenario::new(s.clone()).steps(steps), vec![], ROOT);
            }
        }
        ctx.family("hook scripts");
        let plan = ctx.pick(vec![(1, 4, 1, true), (1, 2, 2, false)], vec![(1, 4, 2, true), (1, 2, 3, false)]);
        scripts(ctx, TERM, &[menu_structural, menu_control], HOOKS, &plan);
        scripts(ctx, TERM, &[menu_removals], HOOKS, &[(3, 3, 2, false)]);
        ctx.family("scale");
        scale(ctx, TERM);
        long_lives(ctx, TERM);
        mixed(ctx, TERM);
    }
};

fn menu_removals(tags: &[Tg], _next: Tg, _p: (K, Tg, u32)) -> Vec<Act> { tags.iter().flat_map(|&t| [Act::Free(t), Act::Remove(t)]).collect() }

/*
 * C07
 */

const ORDER: Mask = &[Cat::Order, Cat::Delta];

fn menu_time(tags: &[Tg], next: Tg, p: (K, Tg, u32)) -> Vec<Act> {
    let mut out: Vec<Act> = Vec::new();
    if matches!(p.0, K::Process | K::Terminal) { out.extend([Act::Sleep(3_000_000), Act::Warn(p.1)]); }
    out.extend(menu_structural(tags, next, p));
    out
}

pub const C07: Prop = Prop {
    meta: Meta {
        id: "C07",
        rule: "all frames of all tree shapes with all placements of additions, removals and delays in hooks and between frames, under a virtual clock; the turn of every node is judged against the tree order at the beginning of the frame, the delta against the clock",
        bounds: |t| b(t, "histories: shapes up to 4 nodes x 3 operations between frames; hook scripts: 1 operation on shapes up to 5, 2 on shapes up to 3; 40 frame lengths from 0 to 10 years in all pairs; trees of up to 300 nodes with slow hooks in any frame; mixed histories (all forms of adding, renaming, names, control) of 3 operations on 1 node, 2 on up to 3, and 1 operation in any hook",
                         "histories: shapes up to 5 nodes x 3 operations, up to 3 x 4; hook scripts: 1 operation on shapes up to 6, 2 on shapes up to 4, 3 on shapes up to 2; 40 frame lengths in all pairs; trees of up to 1000 nodes with slow hooks in any frame; mixed histories of 3 operations on up to 3 nodes, 2 on up to 5, and 1 operation in any hook"),
        assumptions: HOOK_RULES
    },
    body: |ctx| {
        ctx.family("frame lengths");
        let lens: Vec<u64> = {
            let mut v: Vec<u64> = vec![0, 1, 2, 3, 7, 999, 1000, 1001, 65_535, 999_999, 1_000_000, 6_944_444, 16_666_666, 16_666_667, 33_333_333, 123_456_789, 500_000_000, 999_999_999, 1_000_000_000, 1_000_000_001, 1_999_999_999, 2_000_000_000, 2_147_483_647, 2_147_483_648, 4_294_967_295, 4_294_967_296, 59_000_000_007, 60_000_000_000, 3_600_000_000_000, 3_723_004_005_006];
            v.extend([10_000_000_000, 86_400_000_000_000, 100_000_000_000_000, 2_592_000_000_000_000, 31_536_000_000_000_000, 157_680_000_000_000_000, 315_360_000_000_000_000]);
            v
        };
        for &x in &lens { for &y in &lens {
            one(ctx, Scenario::new(shapes(3)[(x % 2) as usize].clone()).steps(vec![Step::Frame(x), Step::Frame(y), Step::Frame(x)]), vec![], ORDER);
        } }
        ctx.family("frames between operations");
        let mut a: Alphabet = Alphabet::structural();
        a.adds.truncate(2); a.missing = false;
        let plan: Vec<(usize, usize, usize)> = ctx.pick(vec![(1, 3, 3), (4, 5, 2)], vec![(1, 5, 3), (1, 3, 4)]);
        for (lo, hi, d) in plan {
            for n in lo..=hi { for s in shapes(n) {
                histories(&s, Form::Scene, &a, d, &mut |steps| {
                    if ctx.done() { return; }
                    let mut v: Vec<Step> = Vec::new();
                    for s in steps { v.push(s.clone()); if matches!(s, Step::Do(_)) { v.push(Step::Frame(5_000_000)); } }
                    one(ctx, Scenario { root: s.clone(), form: Form::Scene, steps: v, verbosity: LoggerVerbosity::OnlyPanics, snap: false }, vec![], ORDER);
                });
            } }
        }
        ctx.family("operations in hooks");
        let plan: Vec<(usize, usize, usize)> = ctx.pick(vec![(1, 5, 1), (1, 3, 2)], vec![(1, 6, 1), (1, 4, 2), (1, 2, 3)]);
        for (lo, hi, d) in plan {
            for n in lo..=hi { for s in shapes(n) {
                let mut sc: Scenario = Scenario::new(s).steps(vec![Step::Frame(16_000_000), Step::Frame(17_000_000)]);
                sc.snap = false;
                explore_scripts(ctx, &sc, &[menu_time, menu_control], &[K::Process], d, ORDER);
            } }
        }
        let plan = ctx.pick(vec![(1, 3, 1, true)], vec![(1, 4, 1, true), (1, 3, 2, true)]);
        scripts(ctx, ORDER, &[menu_time, menu_control], HOOKS, &plan);
        ctx.family("frames that take long");
        for n in ctx.pick(vec![1usize, 2, 9, 17, 33, 65, 130, 300], vec![1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000]) { for s in [chain(n), fan(n)] {
            for slow in 0..4usize { for ns in [1u64, 20_000_000, 3_600_000_000_000] { for (k, occ) in [(K::Process, 1), (K::Process, 2), (K::Process, 3), (K::Ready, 1), (K::Terminal, 1)] {
                // One node, at the front, in the middle or at the end, or all of them take their time in one frame.
                let who: Vec<Tg> = match slow { 0 => vec![0], 1 => vec![n as Tg / 2], 2 => vec![n as Tg - 1], _ => s.tags() };
                if slow > 0 && slow < 3 && n < 3 { continue; }
                let devs: Vec<Dev> = who.iter().map(|&tag| Dev { k, tag, occ, act: Act::Sleep(ns) }).collect();
                let mut sc: Scenario = Scenario::new(s.clone()).steps(vec![Step::Frame(1), Step::Frame(16_000_000), Step::Frame(0), Step::Frame(7), Step::Do(Act::Pause), Step::Frame(3), Step::Do(Act::Unpause), Step::Frame(5), Step::Do(Act::Queue), Step::Frame(9), Step::Frame(2)]);
                sc.snap = false;
                one(ctx, sc, devs, ORDER);
            } } }
        } }
        ctx.family("scale");
        scale(ctx, ORDER);
        mixed(ctx, ORDER);
    }
};

/*
 * C08
 */

const MODE: Mask = &[Cat::Mode];

/// Pauses switched by hooks and between frames.
fn menu_pause(_tags: &[Tg], _next: Tg, _p: (K, Tg, u32)) -> Vec<Act> { vec![Act::Pause, Act::Unpause] }

fn with_modes(s: &Spec, v: &[usize]) -> Spec { let mut s: Spec = s.clone(); let mut i: usize = 0; s.each_mut(&mut |x| { x.mode = v[i] as u8; i += 1; }); s }

pub const C08: Prop = Prop {
    meta: Meta {
        id: "C08",
        rule: "all assignments of the four process modes to the nodes of all tree shapes, run through frames in every pause state, with pauses switched between frames and by every hook; who runs is judged by the reference rule for effective modes; classes that do not set a mode; all owners, origins and classes beside all modes",
        bounds: |t| b(t, "shapes up to 5 nodes x all mode assignments x paused, unpaused, queued; pauses by 1 hook on shapes up to 4 and by 2 on shapes up to 3, all modes; the mode of any node changed between any two frames on shapes up to 4 and in any process hook on shapes up to 3; pause operations in all histories of 5 operations; no effect when terminating or terminated; chains, fans and combs of up to 1100 nodes with about 30 patterns of modes",
                         "shapes up to 6 nodes x all mode assignments; pauses by 2 hooks on shapes up to 4 and 3 on shapes up to 3, all modes; modes changed in hooks on shapes up to 4; histories of 7 operations; chains, fans and combs of up to 1000 nodes"),
        assumptions: &["hooks do not use `self` after having removed themselves from the tree", "operations on nodes that are not in the tree are not issued", "left open: what an inheriting node takes when its ancestor's mode is changed between their two turns of one frame"]
    },
    body: |ctx| {
        let frames = || vec![Step::Frame(1), Step::Do(Act::Pause), Step::Frame(1), Step::Do(Act::Unpause), Step::Frame(1)];
        ctx.family("mode assignments");
        for s in shapes_upto(ctx.pick(5, 6)) {
            assignments(s.size(), 4, &mut |v| {
                let mut sc: Scenario = Scenario::new(with_modes(&s, v)).steps(frames());
                sc.snap = false;
                one(ctx, sc, vec![], MODE);
            });
        }
        ctx.family("pauses switched by hooks");
        for (lo, hi, d) in ctx.pick(vec![(4, 4, 1), (1, 3, 2)], vec![(1, 4, 2), (1, 3, 3)]) {
            for n in lo..=hi { for s in shapes(n) {
                assignments(n, 4, &mut |v| {
                    for pre in [None, Some(Act::Pause)] {
                        let mut steps: Vec<Step> = pre.into_iter().map(Step::Do).collect();
                        steps.extend([Step::Frame(1), Step::Frame(1)]);
                        let mut sc: Scenario = Scenario::new(with_modes(&s, v)).steps(steps);
                        sc.snap = false;
                        explore_scripts(ctx, &sc, &[menu_pause], &[K::Process], d, MODE);
                    }
                });
            } }
        }
        ctx.family("pauses and removals in hooks");
        for n in 1..=ctx.pick(3, 4) { for s in shapes(n) {
            assignments(n, 4, &mut |v| {
                let mut sc: Scenario = Scenario::new(with_modes(&s, v)).steps(vec![Step::Do(Act::Pause), Step::Frame(1), Step::Do(Act::Unpause), Step::Frame(1)]);
                sc.snap = false;
                explore_scripts(ctx, &sc, &[menu_removals, menu_moded], &[K::Process], 1, MODE);
            });
        } }
        ctx.family("histories of pauses");
        // A pause switch changes nothing else: states, hooks and structure are judged as well.
        const ALL: Mask = &[Cat::Mode, Cat::Struct, Cat::Life, Cat::Order, Cat::Name, Cat::Owner];
        for s in [shapes(3)[0].clone(), shapes(3)[1].clone()] {
            for modes in [[0, 0, 0], [2, 1, 3], [1, 3, 0], [3, 0, 2], [0, 3, 1]] {
                let root: Spec = with_modes(&s, &modes);
                let ops: [Step; 5] = [Step::Do(Act::Pause), Step::Do(Act::Unpause), Step::Do(Act::Queue), Step::Do(Act::Terminate), Step::Frame(1)];
                for len in 1..=ctx.pick(5, 7) {
                    assignments(len, 5, &mut |v| {
                        let steps: Vec<Step> = v.iter().map(|&i| ops[i].clone()).chain([Step::Frame(1)]).collect();
                        one(ctx, Scenario::new(root.clone()).steps(steps), vec![], ALL);
                    });
                }
            }
        }
        ctx.family("modes that change between frames");
        for n in 1..=ctx.pick(4, 5) { for s in shapes(n) { assignments(n, 4, &mut |v| {
            if ctx.quick() && n == 4 && v.iter().filter(|&&m| m != 0).count() > 2 { return; }
            for t in s.tags() { for m in 0..4u8 { if v[t as usize] as u8 != m { for paused in [false, true] {
                let mut steps: Vec<Step> = if paused { vec![Step::Do(Act::Pause)] } else { vec![] };
                steps.extend([Step::Frame(1), Step::Do(Act::Mode(t, m)), Step::Frame(1), Step::Do(if paused { Act::Unpause } else { Act::Pause }), Step::Frame(1), Step::Do(Act::Mode(t, v[t as usize] as u8)), Step::Frame(1)]);
                let mut sc: Scenario = Scenario::new(with_modes(&s, v)).steps(steps);
                sc.snap = false;
                one(ctx, sc, vec![], MODE);
            } } } }
        }); } }
        ctx.family("modes that change in hooks");
        for n in 2..=ctx.pick(3, 4) { for s in shapes(n) { assignments(n, 4, &mut |v| {
            let mut sc: Scenario = Scenario::new(with_modes(&s, v)).steps(vec![Step::Frame(1), Step::Do(Act::Pause), Step::Frame(1), Step::Frame(1)]);
            sc.snap = false;
            explore_scripts(ctx, &sc, &[menu_modes], &[K::Process], if n < 3 { 2 } else { 1 }, MODE);
        }); } }
        ctx.family("nodes without a mode of their own");
        for n in 1..=ctx.pick(4, 5) { for s in shapes(n) { assignments(n, 5, &mut |v| {
            if !v.contains(&4) { return; }
            let mut root: Spec = with_modes(&s, &v.iter().map(|&m| if m == 4 { 0 } else { m }).collect::<Vec<_>>());
            root.each_mut(&mut |x| if v[x.tag as usize] == 4 { x.class = 3; });
            let mut sc: Scenario = Scenario::new(root).steps(frames());
            sc.snap = false;
            one(ctx, sc, vec![], MODE);
        }); } }
        ctx.family("large trees");
        for n in ctx.pick(vec![9, 17, 33, 65, 130, 300, 1100], vec![8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 256, 257, 300, 512, 513, 1000, 1100, 2100]) {
            // A chain, a fan, and a chain of nodes with two children each.
            let mut comb: Spec = Spec::leaf(0);
            for _ in 0..n / 3 { comb = Spec::leaf(0).with(vec![Spec::leaf(0), comb, Spec::leaf(0)]); }
            for s in [chain(n), fan(n), retag(comb, 0)] {
                let n: usize = s.size();
                let mut all: Vec<Vec<usize>> = vec![vec![0; n], (0..n).map(|i| i % 4).collect(), (0..n).map(|i| i / 7 % 4).collect(), (0..n).map(|i| [0, 0, 0, 3, 0, 0, 0, 0, 1, 0, 2][i % 11]).collect()];
                for m in 1..4 { for at in [0, 1, n / 2, n - 2, n - 1] { let mut v: Vec<usize> = vec![0; n]; v[at] = m; all.push(v.clone()); v[(at + 5) % n] = 4 - m; all.push(v); } }
                for v in all {
                    let mut sc: Scenario = Scenario::new(with_modes(&s, &v)).steps(frames());
                    sc.snap = false;
                    one(ctx, sc, vec![], MODE);
                }
            }
        }
        ctx.family("owners, origins and classes");
        // A mode is that of the node or its nearest ancestor with one, whoever owns it and wherever it comes from.
        for s in shapes_upto(ctx.pick(4, 5)) {
            let n: usize = s.size();
            assignments(n, 4, &mut |v| {
                let own: usize = v.iter().filter(|&&m| m != 0).count();
                if n > 3 && own > ctx.pick(2, 3) || n > 4 && own > 2 { return; }
                owner_variants(&s, &mut |s| for kind in 0..4usize {
                    if n > 3 && kind > 0 && ctx.quick() && (own + kind) % 3 != 0 { continue; }
                    let mut root: Spec = with_modes(&s, v);
                    match kind { 0 => (), 1 => if root.owner { root = root.all_disk() } else { continue }, 2 => root.each_mut(&mut |x| x.class = (x.tag % 3) as u8), _ => root = root.via(Via::Cloned) }
                    let mut sc: Scenario = Scenario::new(root).steps(frames());
                    sc.snap = false;
                    one(ctx, sc, vec![], MODE);
                });
            });
        }
        for s in shapes_upto(2) { assignments(s.size(), 4, &mut |v| for at in s.tags() { for add in shapes_upto(3) { assignments(add.size(), 4, &mut |u| owner_variants(&add, &mut |add| for via in 0..3usize {
            if ctx.quick() && (via > 0 || add.size() == 3 && v.iter().chain(u).filter(|&&m| m != 0).count() > 2) && (u.iter().sum::<usize>() + via) % 4 != 0 { return; }
            let mut add: Spec = retag(with_modes(&add, u), 10);
            match via { 0 => (), 1 => add = add.via(Via::Cloned), _ => if add.owner { add = add.all_disk() } else { continue } }
            let mut steps: Vec<Step> = vec![Step::Do(Act::Add(at, Form::Scene, Rc::new(add)))];
            steps.extend(frames());
            let mut sc: Scenario = Scenario::new(with_modes(&s, v)).steps(steps);
            sc.snap = false;
            one(ctx, sc, vec![], MODE);
        })); } }); }
        ctx.family("modes of added nodes");
        for s in shapes_upto(3) {
            assignments(s.size(), 4, &mut |v| for at in s.tags() { for m1 in 0..4 { for m2 in 0..4 {
                let mut add: Spec = retag(Spec::leaf(0).with(vec![Spec::leaf(0)]), 10);
                add.mode = m1; add.kids[0].mode = m2;
                let mut steps: Vec<Step> = vec![Step::Do(Act::Add(at, Form::Scene, Rc::new(add)))];
                steps.extend(frames());
                let mut sc: Scenario = Scenario::new(with_modes(&s, v)).steps(steps);
                sc.snap = false;
                if ctx.quick() && s.size() == 3 && (m1 + m2 + v[0] as u8) % 3 != 0 { continue; }
                one(ctx, sc, vec![], MODE);
            } } });
        }
    }
};

/// Changes of the mode of any node (refused by the world where the outcome is left open).
fn menu_modes(tags: &[Tg], _next: Tg, p: (K, Tg, u32)) -> Vec<Act> {
    tags.iter().filter(|&&t| t != p.1).flat_map(|&t| (0..4).map(move |m| Act::Mode(t, m))).collect()
}

/// Additions of nodes of every mode.
fn menu_moded(tags: &[Tg], next: Tg, _p: (K, Tg, u32)) -> Vec<Act> {
    tags.iter().flat_map(|&t| (0..4).map(move |m| { let mut s: Spec = Spec::leaf(next); s.mode = m; Act::Add(t, Form::Scene, Rc::new(s)) })).collect()
}

/*
 * C09
 */

const LIFE: Mask = &[Cat::Life];

fn menu_ends(_tags: &[Tg], _next: Tg, p: (K, Tg, u32)) -> Vec<Act> { vec![Act::Queue, Act::Terminate, Act::Panic(p.1), Act::Free(0), Act::Free(p.1), Act::Pause, Act::Unpause] }

pub const C09: Prop = Prop {
    meta: Meta {
        id: "C09",
        rule: "all histories of queueing, terminating, pausing, panicking, freeing and frames, and all placements of these in hooks, of all phases of a tree's life; status returned by every frame and every hook run is judged by the documented life cycle",
        bounds: |t| b(t, "all sequences of up to 6 operations out of queue, terminate, pause, unpause, frame, panic on 4 shapes; hook scripts on shapes up to 4 (1 operation) and up to 3 (2 operations) over a whole life; structural histories of 3 operations with a terminating frame; mixed histories (all forms of adding, renaming, names, control) of 3 operations on 1 node, 2 on up to 3, and 1 operation in any hook",
                         "sequences of up to 8; hook scripts of 2 operations on shapes up to 4, 3 on shapes up to 3; structural histories of 4 operations; mixed histories of 3 operations on up to 3 nodes, 2 on up to 5, and 1 operation in any hook"),
        assumptions: &["hooks do not use `self` after having removed themselves from the tree", "when the tree is ended while a scene is being started or a part removed, the ready and terminal hooks of that start or removal still run"]
    },
    body: |ctx| {
        ctx.family("control histories");
        for s in [Spec::leaf(0), shapes(2)[0].clone(), shapes(3)[0].clone(), with_modes(&shapes(3)[1], &[2, 1, 3])] {
            let last: Tg = s.size() as Tg - 1;
            let ops: [Step; 6] = [Step::Do(Act::Queue), Step::Do(Act::Pause), Step::Do(Act::Unpause), Step::Frame(1), Step::Do(Act::Terminate), Step::Do(Act::Panic(last))];
            for len in 1..=ctx.pick(6, 8) {
                assignments(len, ops.len(), &mut |v| {
                    if v[..len - 1].iter().filter(|&&i| i >= 4).count() > 1 { return; }
                    let steps: Vec<Step> = v.iter().map(|&i| ops[i].clone()).chain([Step::Frame(1), Step::Frame(1), Step::Frame(1)]).collect();
                    let mut sc: Scenario = Scenario::new(s.clone()).steps(steps);
                    sc.snap = false;
                    one(ctx, sc, vec![], LIFE);
                });
            }
        }
        ctx.family("ends in hooks");
        for (lo, hi, d) in ctx.pick(vec![(4, 4, 1), (1, 3, 2)], vec![(1, 4, 2), (1, 3, 3)]) {
            for n in lo..=hi { for s in shapes(n) {
                for root_mode in [0, 1, 3] {
                    let mut s: Spec = s.clone();
                    s.mode = root_mode;
                    let mut steps: Vec<Step> = vec![Step::Frame(16_000_000)];
                    steps.extend(end_life());
                    let mut sc: Scenario = Scenario::new(s).steps(steps);
                    sc.snap = false;
                    explore_scripts(ctx, &sc, &[menu_ends], HOOKS, d, LIFE);
                }
                let mut sc: Scenario = Scenario::new(s).steps(life(n).into_iter().chain(end_life()).collect());
                sc.snap = false;
                explore_scripts(ctx, &sc, &[menu_ends], HOOKS, d.min(ctx.pick(1, 2)), LIFE);
            } }
        }
        ctx.family("changes while terminating");
        for n in 1..=ctx.pick(3, 4) { for s in shapes(n) {
            let mut sc: Scenario = Scenario::new(s).steps(end_life());
            sc.snap = false;
            explore_scripts(ctx, &sc, &[menu_structural], HOOKS, ctx.pick(if n < 3 { 2 } else { 1 }, 2), LIFE);
        } }
        ctx.family("structural histories");
        let mut a: Alphabet = Alphabet::structural();
        a.control = true; a.missing = false; a.adds.truncate(2);
        for n in 1..=3 { for s in shapes(n) {
            histories(&s, Form::Scene, &a, if n == 3 { ctx.pick(2, 3) } else { ctx.pick(3, 4) }, &mut |steps| {
                if ctx.done() { return; }
                let steps: Vec<Step> = steps.iter().cloned().chain([Step::Frame(1), Step::Do(Act::Queue), Step::Frame(1), Step::Frame(1), Step::Frame(1)]).collect();
                let mut sc: Scenario = Scenario::new(s.clone()).steps(steps);
                sc.snap = false;
                one(ctx, sc, vec![], LIFE);
            });
        } }
        ctx.family("scale");
        scale(ctx, LIFE);
        mixed(ctx, LIFE);
    }
};

/*
 * C11
 */

const OWNER: Mask = &[Cat::Owner];

pub const C11: Prop = Prop {
    meta: Meta {
        id: "C11",
        rule: "all ownership assignments of all scenes, created or added anywhere, plainly, cloned, saved and loaded or taken as a branch, and all histories of additions and removals after them; the owner of every node is compared with the reference rule at every hook and after every operation",
        bounds: |t| b(t, "scenes up to 4 nodes with all ownerships, as tree, added below any node of trees up to 2 nodes, cloned, saved and loaded, taken as a branch at every node; histories of 3 operations on shapes up to 3; mixed histories (all forms of adding, renaming, names, control) of 3 operations on 1 node, 2 on up to 3, and 1 operation in any hook",
                         "scenes up to 6 nodes with all ownerships, trees up to 3 nodes; histories of 4 operations on shapes up to 3, of 3 on shapes of 4; mixed histories of 3 operations on up to 3 nodes, 2 on up to 5, and 1 operation in any hook"),
        assumptions: HOOK_RULES
    },
    body: |ctx| {
        ctx.family("created");
        for s in shapes_upto(ctx.pick(5, 6)) { owner_variants(&s, &mut |s| one(ctx, Scenario::new(s).steps(vec![Step::Frame(1)]), vec![], OWNER)); }
        for s in shapes_upto(ctx.pick(4, 5)) { owner_variants(&s, &mut |s| if s.owner { one(ctx, Scenario::new(s.all_disk()).steps(vec![Step::Frame(1)]), vec![], OWNER) }); }
        ctx.family("added");
        for host in shapes_upto(ctx.pick(2, 3)) { owner_variants(&host, &mut |host| for at in host.tags() {
            for s in shapes_upto(ctx.pick(3, 4)) { owner_variants(&s, &mut |s| for disk in [false, true] {
                if disk && !s.owner { continue; }
                let add: Spec = retag(if disk { s.clone().all_disk() } else { s.clone() }, 10);
                let more: Spec = retag(s.clone().via(if s.owner { Via::Branch } else { Via::Cloned }), 20);
                let steps: Vec<Step> = vec![Step::Do(Act::Add(at, Form::Scene, Rc::new(add))), Step::Do(Act::Add(10, Form::Node, Rc::new(Spec::leaf(19)))), Step::Do(Act::Add(19, Form::Ptr, Rc::new(Spec::leaf(18).owned(true)))), Step::Do(Act::Add(18, Form::Scene, Rc::new(more))), Step::Frame(1)];
                one(ctx, Scenario::new(host.clone()).steps(steps), vec![], OWNER);
            }); }
        }); }
        ctx.family("copies");
        for s in shapes_upto(ctx.pick(4, 5)) { owner_variants(&s, &mut |s| copies(ctx, &s)); }
        ctx.family("histories");
        let a: Alphabet = Alphabet::structural();
        for (n, d) in ctx.pick(vec![(1, 3), (2, 3), (3, 2)], vec![(1, 4), (2, 4), (3, 3), (4, 3)]) { for s in shapes(n) { owner_variants(&s, &mut |s| {
            if ctx.quick() && d == 3 && s.owner { return; }
            explore_histories(ctx, &s, Form::Scene, &a, d, OWNER, &|_| ())
        }); } }
        ctx.family("hook scripts");
        let plan = ctx.pick(vec![(1, 3, 1, true)], vec![(1, 3, 2, true)]);
        scripts(ctx, OWNER, &[menu_structural, menu_adds], HOOKS, &plan);
        ctx.family("scale");
        scale(ctx, OWNER);
        mixed(ctx, OWNER);
    }
};

/// Owners in a tree, as positions in pre-order.
fn owners_in(tree: &dyn NodeTree) -> Vec<(usize, bool)> {
    let mut rids: Vec<RID> = Vec::new();
    let mut stack: Vec<RID> = vec![tree.root().rid()];
    while let Some(r) = stack.pop() {
        rids.push(r);
        let kids: Vec<RID> = tree.get_node(r).unwrap().children().iter().map(|c| c.rid()).collect();
        stack.extend(kids.into_iter().rev());
    }
    rids.iter().map(|&r| { let n: &dyn Node = tree.get_node(r).unwrap(); let o: RID = n.owner_dyn().rid(); (rids.iter().position(|&x| x == o).unwrap_or(usize::MAX), n.is_owner()) }).collect()
}

/// The owners the rule demands for a scene that makes up a whole tree.
fn owners_of(s: &Spec) -> Vec<(usize, bool)> {
    fn tail(s: &Spec, top: usize, root: bool, out: &mut Vec<(usize, bool)>) {
        let me: usize = out.len();
        let own: usize = if root || s.owner { me } else { top };
        out.push((own, own == me));
        for k in &s.kids { tail(k, own, false, out); }
    }
    let mut out = Vec::new();
    tail(s, 0, true, &mut out);
    out
}

fn copies(ctx: &mut Ctx, s: &Spec) {
    ctx.case(|| format!("copies of {}", s.show()), |ctx| {
        let want: Vec<(usize, bool)> = owners_of(s);
        let check = |what: &str, got: Vec<(usize, bool)>, want: &[(usize, bool)]| -> Res { if got != want { Err(format!("{what} of {} has owners {got:?} instead of {want:?}", s.show()).into()) } else { Ok(()) } };
        let tree_of = |sc: NodeScene| TreeSimple::new(sc, LoggerVerbosity::OnlyPanics);
        let plain: Box<TreeSimple> = tree_of(s.scene());
        check("the tree", owners_in(&*plain), &want)?;
        let scene: NodeScene = s.scene();
        let twin: NodeScene = scene.clone();
        check("a clone", owners_in(&*tree_of(twin.clone())), &want)?;
        check("the clone's original", owners_in(&*tree_of(scene)), &want)?;
        let text: String = twin.save_to_str().map_err(|e| format!("{e:?}"))?;
        let loaded: NodeScene = NodeScene::load_from_str(&text).map_err(|e| format!("{e:?}"))?;
        check("the loaded scene", owners_in(&*tree_of(loaded.clone())), &want)?;
        check("the saved scene", owners_in(&*tree_of(twin)), &want)?;
        let again: NodeScene = NodeScene::load_from_str(&loaded.save_to_str().map_err(|e| format!("{e:?}"))?).map_err(|e| format!("{e:?}"))?;
        check("the scene loaded twice", owners_in(&*tree_of(again)), &want)?;
        // Every branch of the tree, as a tree of its own and below another node.
        let mut subs: Vec<Spec> = Vec::new();
        s.each(&mut |x| subs.push(x.clone()));
        let mut rids: Vec<RID> = Vec::new();
        let mut stack: Vec<RID> = vec![plain.root().rid()];
        while let Some(r) = stack.pop() { rids.push(r); let k: Vec<RID> = plain.get_node(r).unwrap().children().iter().map(|c| c.rid()).collect(); stack.extend(k.into_iter().rev()); }
        for (sub, rid) in subs.iter().zip(rids) {
            let branch: NodeScene = plain.get_node(rid).unwrap().save_as_branch();
            check("a branch", owners_in(&*tree_of(branch.clone())), &owners_of(sub))?;
            check("a cloned branch", owners_in(&*tree_of(branch.clone().clone())), &owners_of(sub))?;
            let text: String = branch.save_to_str().map_err(|e| format!("{e:?}"))?;
            check("a saved branch", owners_in(&*tree_of(NodeScene::load_from_str(&text).map_err(|e| format!("{e:?}"))?)), &owners_of(sub))?;
            let mut host: Box<TreeSimple> = tree_of(NodeScene::new(N0::new(99)));
            host.root_mut().add_child(branch.clone());
            let under: Vec<(usize, bool)> = { let mut v = vec![(0, true)]; let mut sub: Spec = sub.clone(); sub.owner = true; v.extend(owners_of(&sub).into_iter().map(|(o, is)| (o + 1, is))); v };
            check("an added branch", owners_in(&*host), &under)?;
            ctx.st.executions += 4; ctx.st.transitions += 6;
        }
        check("the tree after all this", owners_in(&*plain), &want)?;
        ctx.st.executions += 6; ctx.st.transitions += 10;
        ctx.state_str(&s.show());
        Ok(())
    });
}

pub fn chain(n: usize) -> Spec { let mut s: Spec = Spec::leaf(0); for _ in 1..n { s = Spec::leaf(0).with(vec![s]); } retag(s, 0) }
/// A chain of half of the nodes, beside the other half.
pub fn brush(n: usize) -> Spec {
    let mut s: Spec = Spec::leaf(0).with(vec![Spec::leaf(0); n - n / 2 - 1]);
    s.kids.insert(s.kids.len() / 2, chain(n / 2));
    retag(s, 0)
}
pub fn fan(n: usize) -> Spec { retag(Spec::leaf(0).with(vec![Spec::leaf(0); n - 1]), 0) }

pub fn scale(ctx: &mut Ctx, mask: Mask) {
    let sizes: Vec<usize> = ctx.pick(vec![5, 8, 9, 16, 17, 33, 65, 130, 300, 1100], vec![5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1100, 2000]);
    for n in sizes {
        for s in [chain(n), fan(n), brush(n)] {
            for cut in [1, n / 2, n - 1] {
                for free in [true, false] {
                    let a: Act = if free { Act::Free(cut as Tg) } else { Act::Remove(cut as Tg) };
                    let mut sc: Scenario = Scenario::new(s.clone()).steps(vec![Step::Frame(1), Step::Do(a), Step::Frame(2), Step::Do(Act::Queue), Step::Frame(3), Step::Frame(4)]);
                    sc.snap = n <= 17;
                    let sc: Scenario = sc;
                    ctx.case(|| format!("{} nodes, {}", n, match s.kids.len() { 0 | 1 => "chain", k if k == n - 1 => "fan", _ => "brush" }), |ctx| { run_plain(ctx, &sc, &[], mask)?; Ok(()) });
                }
            }
        }
    }
    // Parts that branch out, removed at their top.
    for (n, m) in ctx.pick(vec![(1, 5), (1, 17), (1, 64), (3, 3), (4, 5), (5, 4), (8, 9), (2, 40)], vec![(1, 4), (1, 5), (1, 6), (1, 17), (1, 64), (1, 65), (1, 257), (1, 1000), (3, 3), (4, 5), (5, 4), (8, 9), (16, 17), (2, 129), (40, 40)]) {
        for cut in [0, 1, 2, n / 2 + 1, n] {
            for free in [true, false] {
                // Node 1 has n children with m children each.
                let s: Spec = retag(Spec::leaf(0).with(vec![Spec::leaf(0).with(vec![Spec::leaf(0).with(vec![Spec::leaf(0); m]); n]), Spec::leaf(0)]), 0);
                let t: Tg = if cut < 2 { 1 } else { 2 + (cut as Tg - 2).min(n as Tg - 1) * (m as Tg + 1) };
                let mut steps: Vec<Step> = vec![Step::Frame(1), Step::Do(if free { Act::Free(t) } else { Act::Remove(t) }), Step::Frame(2)];
                if cut == 0 { steps.push(Step::Do(Act::Add(0, Form::Scene, Rc::new(retag(s.clone().via(Via::Cloned), 10_000))))); steps.push(Step::Do(Act::Free(10_001))); }
                steps.extend([Step::Do(Act::Queue), Step::Frame(3), Step::Frame(4)]);
                let mut sc: Scenario = Scenario::new(s).steps(steps);
                sc.snap = n * m <= 20;
                ctx.case(|| format!("{n} branches of {m} nodes, node {t} {}", if free { "freed" } else { "removed" }), |ctx| { run_plain(ctx, &sc, &[], mask)?; Ok(()) });
            }
        }
    }
    // Long churn: the k-th round adds below the root and removes according to the pattern.
    let rounds: usize = ctx.pick(5000, 70_000);
    for keep in 0..4usize {
        for free in [true, false] {
            ctx.case(|| format!("churn of {rounds} rounds keeping {keep}, {}", if free { "free" } else { "remove" }), |ctx| {
                let mut w: Box<World> = World::start_with(&Spec::leaf(0), Form::Node, &[], LoggerVerbosity::OnlyPanics, false, false);
                let mut alive: std::collections::VecDeque<Tg> = Default::default();
                for i in 0..rounds {
                    let t: Tg = 1 + i as Tg;
                    w.act(&Act::Add(0, Form::Node, Rc::new(Spec::leaf(t))));
                    alive.push_back(t);
                    if i % 64 == 63 || i < 300 && i % 8 == 0 { w.check_light(); }
                    if alive.len() > keep { let t: Tg = if i % 3 == 0 { alive.pop_back().unwrap() } else { alive.pop_front().unwrap() }; w.act(&if free { Act::Free(t) } else { Act::Remove(t) }); }
                    if w.errs.iter().any(|e| mask.contains(&e.0)) { break; }
                    if i % 1000 == 999 { ctx.beat(); }
                }
                if !w.errs.iter().any(|e| mask.contains(&e.0)) { w.quiescent(); }
                ctx.st.executions += 1; ctx.st.transitions += w.acts + w.hooks;
                if let Some(e) = w.errs.iter().find(|e| mask.contains(&e.0)) { return Err(format!("[{:?}] {}", e.0, e.1).into()); }
                Ok(())
            });
        }
    }
}

/*
 * Long lives
 */

/// What is there from the beginning stays what it is while many nodes come and go beside it, and below it.
pub(super) fn long_lives(ctx: &mut Ctx, mask: Mask) {
    let on = |c: Cat| mask.contains(&c);
    ctx.family("long lives");
    for way in 0..6usize { for kept in [0usize, 1, 3] {
        let rounds: usize = ctx.pick(70_000, 140_000);
        ctx.case(|| format!("{rounds} nodes come and go, way {way}, {kept} at a time"), |ctx| {
            let names: Vec<String> = ["R", "E", "G", "Z"].iter().map(|s| s.to_string()).collect();
            let spec: Spec = retag(Spec::leaf(0).with(vec![Spec::leaf(0).with(vec![Spec::leaf(0)]), Spec::leaf(0)]), 0);
            let mut l: crate::lab::Lab = crate::lab::Lab::new(super::logs::plain_scene(&spec, &names));
            let elders: Vec<RID> = l.pre_order();
            if !l.node(elders[1]).register_as_singleton("elder".into()) { return Err("registration fails".into()); }
            let tree: *mut dyn NodeTree = l.ptr();
            let points: Vec<TpDyn> = (0..4).map(|i| unsafe { TpDyn::new(tree, elders[0], elders[i]) }.to_option().expect("pointer")).collect();
            // Where the others are: below the root, below the elder, or by turns.
            let home = |i: usize| -> usize { [0, 1, 0, 1, i % 2, 2 * (i % 2)][way] };
            let mut had:  std::collections::HashSet<RID> = elders.iter().copied().collect();
            let mut here: std::collections::VecDeque<(RID, usize, String)> = Default::default();
            for i in 0..rounds {
                let (name, at): (String, usize) = (format!("n{i}x"), home(i));
                l.node(elders[at]).add_child(super::logs::plain_scene(&Spec::leaf(0), &[name.clone()]));
                let rid: RID = l.node(elders[at]).children().last().expect("child").rid();
                if !had.insert(rid) && on(Cat::Rid) { return Err(format!("node {i} has the id {rid}, which another had").into()); }
                here.push_back((rid, at, name));
                let mut gone: Option<RID> = None;
                if here.len() > kept {
                    let (rid, at, name): (RID, usize, String) = if i % 5 == 0 { here.pop_back() } else { here.pop_front() }.unwrap();
                    if way >= 2 && i % 2 == 0 { if !l.node(elders[at]).remove_child(&name) && on(Cat::Term) { return Err(format!("{name:?} is not removed").into()); } } else { l.node(rid).free(); }
                    gone = Some(rid);
                }
                if i % 1000 == 999 { l.tree().process(); ctx.beat(); }
                let all: bool = i % 512 < 3 || (i + 8).next_power_of_two().saturating_sub(i) < 16 || i % 65_536 < 8;
                if let Some(g) = gone && on(Cat::Rid) && l.tree().get_node(g).is_some() { return Err(format!("after node {i} id {g} still names a node").into()); }
                if !all && i % 16 != 0 { continue; }
                for p in 0..3 {
                    let got: Vec<RID> = l.node(elders[p]).children().iter().map(|c| c.rid()).collect();
                    let want: Vec<RID> = [&elders[1..1], &elders[2..3], &elders[0..0]][p].iter().copied().chain(here.iter().filter(|h| h.1 == p).map(|h| h.0)).collect();
                    let want: Vec<RID> = if p == 0 { [elders[1], elders[3]].into_iter().chain(want).collect() } else { want };
                    if got != want && on(Cat::Struct) { return Err(format!("after node {i} the children of {p} are {got:?} instead of {want:?}").into()); }
                }
                for (k, e) in elders.iter().enumerate() {
                    let path: &str = ["/R", "/R/E", "/R/E/G", "/R/Z"][k];
                    if on(Cat::Struct) && (l.node(*e).name() != names[k]) || on(Cat::Path) && l.node(*e).get_absolute_path().to_string() != path { return Err(format!("after node {i} elder {k} is {:?} at {}", l.node(*e).name(), l.node(*e).get_absolute_path().to_string()).into()); }
                    if on(Cat::Ptr) && (!points[k].is_valid() || points[k].is_null() || points[k].rid() != *e) { return Err(format!("after node {i} the pointer to elder {k} does not lead there").into()); }
                    if on(Cat::Path) && l.tree().get_node_rid(NodePath::from_str(path), None) != Some(*e) { return Err(format!("after node {i} the path {path} leads to {:?}", l.tree().get_node_rid(NodePath::from_str(path), None)).into()); }
                    if on(Cat::Rid) && l.tree().get_node(*e).map(|n| n.rid()) != Some(*e) { return Err(format!("after node {i} elder {k} is not found by its id").into()); }
                }
                if on(Cat::Single) && l.tree().get_node_rid("elder", None) != Some(elders[1]) { return Err(format!("after node {i} the name leads to {:?}", l.tree().get_node_rid("elder", None)).into()); }
                for (rid, _, name) in &here { if on(Cat::Rid) && l.tree().get_node(*rid).map(|n| n.name()) != Some(name) { return Err(format!("after node {i} {name:?} is not found").into()); } }
                ctx.st.transitions += 1;
            }
            // The end of the elders takes nobody else with it.
            l.node(elders[1]).free();
            let got: Vec<RID> = l.pre_order();
            let want: Vec<RID> = [elders[0], elders[3]].into_iter().chain(here.iter().filter(|h| h.1 == 0).map(|h| h.0)).collect();
            if got != want && on(Cat::Struct) { return Err(format!("without the elder the tree is {got:?} instead of {want:?}").into()); }
            if on(Cat::Single) && l.tree().get_node_rid("elder", None).is_some() { return Err("the name still leads to the elder that has gone".into()); }
            if on(Cat::Ptr) && (points[1].is_valid() || points[2].is_valid() || !points[3].is_valid()) { return Err("a pointer still leads to the elder that has gone, or not to the one that has not".into()); }
            ctx.st.executions += 1;
            Ok(())
        });
    } }
}
