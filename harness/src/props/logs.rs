//! The log and the drawing of the tree.


use std::rc::Rc;

use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use node_tree::utils::functions::draw_tree;

use super::tree::{ chain, life };
use super::{ Prop, b };
use crate::ctx::{ Ctx, Meta, Res };
use crate::engine::*;
use crate::lab::Lab;
use crate::world::*;

/*
 * C21
 */

const LOG: Mask = &[Cat::Log, Cat::Single, Cat::Life];

const TEXTS: &[&str] = &["", "text", "two\nlines", "{} {0} {x} {{ %s", "ü | PANIC! | 空 \u{1b}[0m", " padded "];
/// Headers and footers that are set, one pair after the other.
const REPORTS: &[&[(&str, &str)]] = &[
    &[("== {head}\nof the report ==", "== foot {}")],
    &[("", "")], &[("", "foot")], &[("head", "")], &[("head", "head")], &[(" ", "\n")], &[("a", "b"), ("", "")], &[("a", "b"), ("c", "d")], &[("", ""), ("e", "f")],
    &[("\n\nhead\n", "\nfoot\n\n")], &[("[REPORT START]", "[REPORT END]")], &[("\u{1b}[1mhead\u{1b}[0m", "ü 空 | PANIC!")]
];
const LEVELS: [LoggerVerbosity; 4] = [LoggerVerbosity::All, LoggerVerbosity::NoDebug, LoggerVerbosity::OnlyIssues, LoggerVerbosity::OnlyPanics];

fn menu_posts(tags: &[Tg], _next: Tg, p: (K, Tg, u32)) -> Vec<Act> {
    let mut out: Vec<Act> = Vec::new();
    for &t in tags { for lv in 0..4 { if t == p.1 || lv >= 2 { out.push(Act::Post(t, lv, TEXTS[1])); } } }
    out.push(Act::Name(p.1, "a"));
    out.push(Act::Rename(p.1, "new"));
    out
}

fn post_alphabet(n: usize, texts: usize) -> Vec<Step> {
    let mut out: Vec<Step> = vec![Step::Frame(1), Step::Do(Act::Name(n as Tg - 1, "a")), Step::Do(Act::Rename(0, "new")), Step::Do(Act::Pause), Step::Do(Act::Queue), Step::Do(Act::Terminate)];
    for t in 0..n as Tg { for lv in 0..4 { for s in &TEXTS[..texts] { out.push(Step::Do(Act::Post(t, lv, s))); } } }
    if n > 1 { out.push(Step::Do(Act::Free(n as Tg - 1))); out.push(Step::Do(Act::Remove(1))); }
    out.push(Step::Do(Act::RemoveMissing(0)));
    out.push(Step::Do(Act::Add(0, Form::Scene, Rc::new(retag(Spec::leaf(0).with(vec![Spec::leaf(0)]), 20)))));
    out
}

class! {
    pub declare Talker;
    pub let number: i32 = 7;

    fn talk(&self, how: usize) {
        let (name, list): (&str, Vec<u8>) = ("Zoë", vec![1, 2]);
        match how {
            0 => debug!(self, "plain"),           1 => info!(self, "plain"),           2 => warn!(self, "plain"),           3 => error!(self, "plain"),
            4 => debug!(self, "named {name}"),    5 => info!(self, "named {name}"),    6 => warn!(self, "named {name}"),    7 => error!(self, "named {name}"),
            8 => debug!(self, "{} and {:?}", name, list), 9 => info!(self, "{} and {:?}", name, list), 10 => warn!(self, "{} and {:?}", name, list), 11 => error!(self, "{} and {:?}", name, list),
            12 => debug!(self, "{:>5}|{{}}", 42), 13 => info!(self, "{:>5}|{{}}", 42), 14 => warn!(self, "{:>5}|{{}}", 42), _ => error!(self, "{:>5}|{{}}", 42)
        }
    }
}

pub const C21: Prop = Prop {
    meta: Meta {
        id: "C21",
        rule: "all sequences of posts of all levels by all nodes, mixed with frames, registrations, renames, pauses, ends and changes of the tree, under all verbosities, on the real tree; after every operation the text added to the log is compared with what has to be there, and the status of every node with the model; posts placed in every hook; every form of the log macros; headers and footers of crash reports set in every way, once and twice",
        bounds: |t| b(t, "2 nodes: sequences of 3 operations out of 27 (with 6 texts: of 2 out of 59) under 4 verbosities; shapes up to 4 nodes x 1 post in any hook, up to 2 x 2; chains of 30 nodes; logs of 4000 messages and messages of 256 KiB; posts at every hour of 388 days",
                         "3 nodes: sequences of 3 operations out of 35; 2 nodes: of 4 operations; shapes up to 4 nodes x 2 posts in any hooks; chains of 30 nodes; logs of 40000 messages"),
        assumptions: &["the drawing inside a crash report is decided by C24", "the text of the library's own messages is left open"]
    },
    body: |ctx| {
        ctx.family("sequences");
        let plan: Vec<(usize, usize, usize)> = ctx.pick(vec![(1, 2, 3), (2, 2, 3), (2, 6, 2)], vec![(1, 2, 4), (3, 2, 3), (2, 2, 4), (3, 6, 2)]);
        for (n, texts, len) in plan {
            let a: Vec<Step> = post_alphabet(n, texts);
            for (vi, v) in LEVELS.iter().enumerate() { for s in shapes(n) { for custom in 0..if len == 3 && n == 1 || len == 2 { 1 + REPORTS.len() } else { 2 } {
                assignments(len, a.len(), &mut |ix| {
                    if ctx.done() { return; }
                    // Something has to be posted.
                    if !ix.iter().any(|&i| matches!(a[i], Step::Do(Act::Post(..) | Act::RemoveMissing(_)))) { return; }
                    if custom > 0 && !ix.iter().any(|&i| matches!(a[i], Step::Do(Act::Post(_, 3, _)))) { return; }
                    if len == 4 && custom > 0 { return; }
                    let steps = || -> Vec<Step> { ix.iter().enumerate().map(|(at, &i)| match &a[i] { Step::Do(Act::Add(t, f, x)) => Step::Do(Act::Add(*t, *f, Rc::new(retag((**x).clone(), 20 + 4 * at as Tg)))), s => s.clone() }).chain([Step::Frame(1), Step::Frame(1)]).collect() };
                    let mk = || Scenario { root: s.clone(), form: Form::Scene, steps: steps(), verbosity: v.clone(), snap: true };
                    ctx.case(|| format!("verbosity {vi}, own report {custom}: {}", mk().show(&[])), |ctx| {
                        let mut first: bool = true;
                        run(ctx, &mk(), &[], LOG, &mut |w| { if first && custom > 0 { for (h, f) in REPORTS[custom - 1] { w.set_report(h, f); } first = false; } })?;
                        Ok(())
                    });
                });
            } } }
        }
        ctx.family("posts in hooks");
        for (lo, hi, d) in ctx.pick(vec![(1, 4, 1), (1, 2, 2)], vec![(1, 4, 1), (1, 3, 2)]) { for n in lo..=hi { for s in shapes(n) { for v in &LEVELS {
            let mut steps: Vec<Step> = life(n);
            steps.extend([Step::Do(Act::Queue), Step::Frame(5), Step::Frame(6)]);
            explore_scripts(ctx, &Scenario::new(s.clone()).verbose(v.clone()).steps(steps), &[menu_posts], &[K::Loaded, K::Ready, K::Process, K::Terminal], d, LOG);
        } } } }
        ctx.family("deep and wide");
        for (name, s) in [("chain", chain(30)), ("fan", super::tree::fan(30))] { for t in [0u32, 1, 5, 12, 29] { for lv in 0..4u8 { for v in &LEVELS {
            let sc: Scenario = Scenario::new(s.clone()).verbose(v.clone()).steps(vec![Step::Do(Act::Post(29 - t, 2, "first")), Step::Do(Act::Post(t, lv, "text")), Step::Frame(1), Step::Frame(1), Step::Do(Act::Post(t, lv, "again")), Step::Frame(1)]);
            ctx.case(|| format!("{name} of 30, level {lv} by node {t}"), |ctx| { run_plain(ctx, &sc, &[], LOG)?; Ok(()) });
        } } } }
        ctx.family("long logs");
        for (vi, v) in LEVELS.iter().enumerate() { for pattern in 0..5usize { for framed in [false, true] {
            let many: usize = if pattern == 4 { 12 } else { ctx.pick(4000, 40000) };
            ctx.case(|| format!("{many} posts, pattern {pattern}, verbosity {vi}, frames {framed}"), |ctx| {
                let names: Vec<String> = (0..3).map(|i| format!("n{i}")).collect();
                let mut l: Lab = Lab::with(plain_scene(&retag(Spec::leaf(0).with(vec![Spec::leaf(0), Spec::leaf(0)]), 0), &names), v.clone());
                let rids: Vec<RID> = l.pre_order();
                let paths: [&str; 3] = ["[n0]", "[n0/n1]", "[n0/n2]"];
                let mut at: usize = l.tree().get_log().len();
                let (mut want, mut last): (Vec<String>, [Option<String>; 3]) = (Vec::new(), Default::default());
                let check = |log: &str, at: usize, want: &[String]| -> Res {
                    let lines: Vec<&str> = log.get(at..).ok_or("the log has lost text")?.lines().collect();
                    if lines.len() != want.len() { return Err(format!("{} lines are logged instead of {}", lines.len(), want.len()).into()); }
                    for (a, b) in lines.iter().zip(want) { if !a.starts_with('<') || a.split_once(" UTC> | ").map(|x| x.1) != Some(b) { return Err(format!("the log has {:?} instead of {:?}", a.get(..200).unwrap_or(a), b.get(..200).unwrap_or(b)).into()); } }
                    Ok(())
                };
                for i in 0..many {
                    let (who, lv): (usize, usize) = match pattern { 0 => (1, 2), 1 => (i % 3, 2), 2 => (i / 2 % 3, 1 + i % 2), 3 => (1, i / 7 % 3), _ => (i % 3, i % 3) };
                    let text: String = match pattern { 0 | 2 => "the same message".into(), 1 => format!("message {}", i / 3), 3 => format!("{i}{}", "x".repeat(i % 300)), _ => "é".repeat(1 << (2 * i).min(18)) };
                    l.node(rids[who]).post(match lv { 0 => Log::Debug(&text), 1 => Log::Info(&text), _ => Log::Warn(&text) });
                    if lv >= vi { want.push(format!("{} | {} | {text}", paths[who], ["DEBUG", "INFO", "WARN"][lv])); }
                    if lv == 2 { last[who] = Some(text); }
                    if framed && i % 50 == 49 { l.tree().process(); last = Default::default(); }
                    if i % 250 == 249 || i + 1 == many || pattern == 4 {
                        check(l.tree().get_log(), at, &want)?;
                        at = l.tree().get_log().len(); want.clear();
                        for (k, w) in last.iter().enumerate() {
                            let got: Option<String> = match l.node(rids[k]).status() { NodeStatus::Normal => None, NodeStatus::JustWarned(t) => Some(t), NodeStatus::JustPanicked(t) => Some(format!("panic {t}")) };
                            if got != *w { return Err(format!("after {} posts the status of node {k} is wrong", i + 1).into()); }
                        }
                        ctx.beat();
                    }
                }
                ctx.st.executions += 1; ctx.st.transitions += many as u64;
                Ok(())
            });
        } } }
        ctx.family("dates");
        let mut days: Vec<u64> = vec![0, 1, 58, 59, 364, 365, 789, 10_956, 11_015, 11_016, 11_017, 11_322, 11_323, 19_675, 24_855, 24_856, 47_540, 47_541, 49_710, 49_711, 73_108, 73_109];
        for first in ctx.pick(vec![19_358u64], vec![19_358, 19_723, 47_481]) { days.extend(first..first + 366); }
        for (nth, &day) in days.iter().enumerate() { for second in 0..ctx.pick(3, 24usize) {
            let clock = |i: usize| -> u64 { (match (nth + second) % 4 { 0 => i as u64 * 3600 + i as u64, 1 => i as u64 * 3600 + 59 * 60 + 59, 2 => i as u64 * 3607 + 12, _ => i as u64 * 3600 + (i as u64 % 60) * 60 }) + second as u64 % 3 };
            ctx.case(|| format!("posts at every hour of day {day} from 1970, series {second}"), |ctx| {
                let (y, m, d): (i64, u32, u32) = civil(day as i64);
                let mut l: Lab = Lab::with(plain_scene(&retag(Spec::leaf(0), 0), &["n0".into()]), LoggerVerbosity::All);
                let rid: RID = l.pre_order()[0];
                for hour in 0..24usize {
                    let (at, nanos): (u64, u64) = (clock(hour) % 86_400, [0, 1, 500_000_000, 999_999_999][hour % 4]);
                    crate::sys::set_wall((day * 86_400 + at) * 1_000_000_000 + nanos);
                    let from: usize = l.tree().get_log().len();
                    let last: bool = hour == 23 && second == 0;
                    l.node(rid).post(match hour % 3 { _ if last => Log::Panic("x"), 0 => Log::Debug("x"), 1 => Log::Info("x"), _ => Log::Warn("x") });
                    let got: String = l.tree().get_log()[from..].lines().next().unwrap_or_default().to_string();
                    let want: String = format!("<{d:02}/{m:02}/{y:04} {:02}:{:02}:{:02} UTC> | [n0] | {} | x", at / 3600, at / 60 % 60, at % 60, if last { "PANIC!" } else { ["DEBUG", "INFO", "WARN"][hour % 3] });
                    if got != want { crate::sys::set_wall(WALL); return Err(format!("{got:?} is logged instead of {want:?}").into()); }
                    ctx.st.transitions += 1;
                }
                crate::sys::set_wall(WALL);
                ctx.st.executions += 1;
                Ok(())
            });
        } }
        ctx.family("macros");
        for how in 0..16 { for v in 0..4usize { for named in [false, true] {
            ctx.case(|| format!("macro {how}, verbosity {v}, named {named}"), |ctx| {
                let mut root: NodeScene = NodeScene::new(N0::new(0));
                root.append(NodeScene::new(Talker::new()));
                let mut l: Lab = Lab::with(root, LEVELS[v].clone());
                if named && !l.at(1).register_as_singleton("tom".into()) { return Err("registration fails".into()); }
                let log: usize = l.tree().get_log().len();
                let (tree, rid): (*mut dyn NodeTree, RID) = (l.ptr(), l.pre_order()[1]);
                unsafe { Tp::<Talker>::new(tree, rid, rid) }.to_option().expect("talker").talk(how);
                let new: String = l.tree().get_log()[log..].to_string();
                let text: &str = ["plain", "named Zoë", "Zoë and [1, 2]", "   42|{}"][how / 4];
                let line: String = format!(" UTC> | {} | {} | {text}\n", if named { "tom" } else { "[N0/Talker]" }, ["DEBUG", "INFO", "WARN", "PANIC!"][how % 4]);
                let lv: usize = how % 4;
                let ok: bool = if lv >= v { new.matches(&line).count() == 1 && (lv == 3) == (new.lines().count() > 1) } else { new.is_empty() };
                if !ok { return Err(format!("the log got {new:?} instead of {line:?} (if admitted)").into()); }
                let ended: bool = l.tree().process() == TreeStatus::Terminated;
                if ended != (lv == 3) { return Err(format!("the tree has ended: {ended}").into()); }
                ctx.st.executions += 1;
                Ok(())
            });
        } } }
    }
};

/// The time of day of everything else.
const WALL: u64 = 1_700_000_000_000_000_000;

/// The year, month and day that is so many days from the first of January 1970: counted day by day.
fn civil(days: i64) -> (i64, u32, u32) {
    let (mut y, mut left): (i64, i64) = (1970, days);
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    while left >= if leap(y) { 366 } else { 365 } { left -= if leap(y) { 366 } else { 365 }; y += 1; }
    let mut m: u32 = 1;
    loop {
        let n: i64 = match m { 2 if leap(y) => 29, 2 => 28, 4 | 6 | 9 | 11 => 30, _ => 31 };
        if left < n { return (y, m, left as u32 + 1); }
        left -= n; m += 1;
    }
}

/*
 * C24
 */

class! {
    pub declare Leafy;
    pub let number: usize = 0;
}


struct Shape { parent: Vec<Option<usize>>, kids: Vec<Vec<usize>> }

fn shape_of(s: &Spec) -> Shape {
    let mut sh: Shape = Shape { parent: vec![None; s.size()], kids: vec![Vec::new(); s.size()] };
    s.each(&mut |x| for k in &x.kids { sh.kids[x.tag as usize].push(k.tag as usize); sh.parent[k.tag as usize] = Some(x.tag as usize); });
    sh
}

pub(super) fn plain_scene(s: &Spec, names: &[String]) -> NodeScene { owned_scene(s, names, 0) }

/// The nodes of the mask are owners.
fn owned_scene(s: &Spec, names: &[String], owners: usize) -> NodeScene {
    let mut sc: NodeScene = if s.tag % 3 == 1 { let mut n: Talker = Talker::new(); n.set_name(&names[s.tag as usize]); NodeScene::new(n) } else { let mut n: Leafy = Leafy::new(); n.set_name(&names[s.tag as usize]); NodeScene::new(n) };
    for k in &s.kids { let x: NodeScene = owned_scene(k, names, owners); if owners >> (k.tag as usize % 64) & 1 == 1 { sc.append_as_owner(x); } else { sc.append(x); } }
    sc
}

/// Names and messages: all different, or as similar as siblings may be called.
fn dress(sh: &Shape, how: usize) -> (Vec<String>, Vec<String>) {
    let n: usize = sh.parent.len();
    if how == 0 { return ((0..n).map(|t| format!("n{t}")).collect(), (0..n).map(|i| if i == 3 { String::new() } else { format!("message {i} - {{}}") }).collect()); }
    let at = |t: usize| sh.parent[t].map_or(0, |p| { let i: usize = sh.kids[p].iter().position(|&k| k == t).unwrap(); if how == 2 { sh.kids[p].len() - 1 - i } else { i } });
    ((0..n).map(|t| ["a", "A", "b", "a ", "n", "..."].get(at(t)).map(|s| s.to_string()).unwrap_or_else(|| format!("a{}", at(t)))).collect(), vec!["same".to_string(); n])
}

/// Text without colours.
fn plain(s: &str) -> String {
    let mut out: String = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' { for c in it.by_ref() { if c == 'm' { break; } } } else { out.push(c); }
    }
    out
}

/// What has to be drawn, and which nodes are in the drawing in that order.
fn expected(sh: &Shape, names: &[String], origin: usize, up: usize, down: usize) -> (String, Vec<usize>) {
    let mut top: usize = origin;
    for _ in 0..up.min(sh.kids.len()) { if let Some(p) = sh.parent[top] { top = p; } }
    let mut out: String = format!("{}\n", names[top]);
    let mut seen: Vec<usize> = vec![top];
    fn walk(sh: &Shape, names: &[String], n: usize, prefix: &str, depth: usize, limit: usize, out: &mut String, seen: &mut Vec<usize>) {
        for (i, &k) in sh.kids[n].iter().enumerate() {
            let last: bool = i + 1 == sh.kids[n].len();
            seen.push(k);
            *out += &format!("{prefix}{}{}\n", if last { "└── " } else { "├── " }, if depth <= limit { &names[k] } else { "..." });
            if depth <= limit { walk(sh, names, k, &format!("{prefix}{}", if last { "    " } else { "│   " }), depth + 1, limit, out, seen); }
        }
    }
    walk(sh, names, top, "", 1, up.saturating_add(down).saturating_add(1), &mut out, &mut seen);
    (out, seen)
}

/// Compares one drawing; `stat` is 0: nothing, 1: warned, 2: panicked.
fn check_drawing(got: &str, sh: &Shape, names: &[String], stat: &[u8], msgs: &[String], origin: usize, up: usize, down: usize) -> Res {
    let got: String = plain(got);
    let (want, seen): (String, Vec<usize>) = expected(sh, names, origin, up, down);
    let fail = |what: &str| -> Res { Err(format!("the drawing from node {origin} with {up} up and {down} down {what}:\n{got}\nexpected:\n{want}").into()) };
    let Some((_, body)) = got.split_once("[REPORT START]\n") else { return fail("has no beginning") };
    let Some((body, _)) = body.split_once("[REPORT END]") else { return fail("has no end") };
    let Some((tree, lists)) = body.split_once("\n[Same-Frame Warnings]\n") else { return fail("lists no warnings") };
    let Some((warns, panics)) = lists.split_once("\n\n[Same-Frame Panics]\n") else { return fail("lists no panics") };
    if tree != want { return fail("differs"); }
    for (what, list, kind) in [("warnings", warns, 1u8), ("panics", panics.trim_end_matches('\n'), 2)] {
        let want: Vec<String> = seen.iter().filter(|&&n| stat[n] == kind).map(|&n| format!("{} - {}", names[n], msgs[n])).collect();
        let want: String = if want.is_empty() { "None".into() } else { want.join("\n") };
        if list != want { return fail(&format!("lists the {what} {list:?} instead of {want:?}")); }
    }
    Ok(())
}

fn set_statuses(l: &mut Lab, rids: &[RID], stat: &[u8], msgs: &[String]) {
    for (i, &r) in rids.iter().enumerate() {
        let s: NodeStatus = match stat[i] { 0 => NodeStatus::Normal, 1 => NodeStatus::JustWarned(msgs[i].clone()), _ => NodeStatus::JustPanicked(msgs[i].clone()) };
        unsafe { l.node(r).set_status(s); }
    }
}

pub const C24: Prop = Prop {
    meta: Meta {
        id: "C24",
        rule: "the tree is drawn for all shapes, all origins, all windows and all placements of warnings and panics, on the real tree, and compared line by line with an independent drawing; crash reports of panics posted by every node of deep, wide and combined trees are taken out of the log and compared in the same way",
        bounds: |t| b(t, "shapes up to 5 nodes x all origins x windows up to 4 x 4 x all placements; shapes of 6 and 7 nodes x windows up to 3 x 3 x up to 1 placement; shapes up to 4 nodes x windows up to the largest; chains, fans, combs and brooms of 20 to 80 nodes with no, some and all nodes as owners and long names and messages x windows up to 8 x 8; fans, chains and both joined of up to 300 nodes with some and with all nodes warned or panicked; crash reports of all of these nodes",
                         "shapes up to 6 nodes x all origins x windows up to 4 x 4 x all placements; shapes up to 8 nodes x windows up to 5 x 5 x up to 2 placements; shapes up to 6 nodes x windows up to the largest; chains, fans, combs and brooms of 20 to 80 nodes with no, some and all nodes as owners and long names and messages x windows up to 20 x 20; fans, chains and both joined of up to 1000 nodes with some and with all nodes warned or panicked; crash reports of all of these nodes"),
        assumptions: &["colours are left open", "names and messages contain no line breaks"]
    },
    body: |ctx| {
        let name = |t: usize| format!("n{t}");
        ctx.family("all placements");
        for s in shapes_upto(ctx.pick(5, 6)) {
            let n: usize = s.size();
            let sh: Shape = shape_of(&s);
            let mut plan: Vec<(usize, usize)> = Vec::new();
            for owners in 0..1usize << (n - 1) { for how in 0..3 { if n < 4 || owners.count_ones() < 2 || owners.count_ones() + 2 > n as u32 || (owners + how) % 5 == 0 { plan.push((owners << 1, how)); } } }
            for (owners, how) in plan { for origin in 0..n {
                ctx.case(|| format!("{} from {origin}, owners {owners:b}, names {how}, all windows and placements", s.show()), |ctx| {
                    let (names, msgs): (Vec<String>, Vec<String>) = dress(&sh, how);
                    let mut l: Lab = Lab::new(owned_scene(&s, &names, owners));
                    let rids: Vec<RID> = l.pre_order();
                    let mut res: Res = Ok(());
                    assignments(n, 3, &mut |v| {
                        if res.is_err() { return; }
                        let stat: Vec<u8> = v.iter().map(|&x| x as u8).collect();
                        set_statuses(&mut l, &rids, &stat, &msgs);
                        for up in 0..=4 { for down in 0..=4 {
                            if res.is_err() { return; }
                            // Windows beyond the tree make no difference; a few of them are tried.
                            if up + down > n + 1 && (up, down) != (4, 4) { continue; }
                            let got: String = draw_tree(l.0.base(), rids[origin], up, down);
                            ctx.st.executions += 1; ctx.st.transitions += n as u64;
                            res = check_drawing(&got, &sh, &names, &stat, &msgs, origin, up, down);
                        } }
                    });
                    ctx.state_str(&format!("{} {owners} {how}", s.show()));
                    res
                });
            } if ctx.done() { return; } }
        }
        ctx.family("larger shapes");
        for n in ctx.pick(6..=7, 7..=8) { for s in shapes(n) {
            let names: Vec<String> = (0..n).map(|t| ["Node", "", "...", "└── x", "Zoë"].get(t).map(|s| s.to_string()).unwrap_or_else(|| name(t))).collect();
            let msgs:  Vec<String> = (0..n).map(|i| format!("m{i}")).collect();
            ctx.case(|| format!("{} from all nodes", s.show()), |ctx| {
                let mut l: Lab = Lab::new(plain_scene(&s, &names));
                let (sh, rids): (Shape, Vec<RID>) = (shape_of(&s), l.pre_order());
                // The names that the tree gave.
                let names: Vec<String> = rids.iter().map(|&r| l.node(r).name().to_string()).collect();
                let most: usize = ctx.pick(3, 5);
                let mut places: Vec<Vec<(usize, u8)>> = vec![vec![]];
                for i in 0..n { for k in 1..3u8 { places.push(vec![(i, k)]); if !ctx.quick() { for j in 0..i { for m in 1..3u8 { places.push(vec![(i, k), (j, m)]); } } } } }
                for pl in &places {
                    let mut stat: Vec<u8> = vec![0; n];
                    for &(i, k) in pl { stat[i] = k; }
                    set_statuses(&mut l, &rids, &stat, &msgs);
                    for origin in 0..n { for up in 0..=most { for down in 0..=most {
                        let got: String = draw_tree(l.0.base(), rids[origin], up, down);
                        ctx.st.executions += 1; ctx.st.transitions += n as u64;
                        check_drawing(&got, &sh, &names, &stat, &msgs, origin, up, down)?;
                    } } }
                    ctx.beat();
                }
                ctx.state_str(&s.show());
                Ok(())
            });
        } }
        ctx.family("large trees");
        let mut big: Vec<(String, Spec)> = vec![("chain".into(), chain(40)), ("fan".into(), super::tree::fan(30))];
        for (teeth, len) in [(10, 2), (5, 4), (3, 10)] { big.push((format!("comb {teeth}x{len}"), comb(teeth, len))); }
        big.push(("binary".into(), retag(full(4, 2), 0)));
        big.push(("ternary".into(), retag(full(3, 3), 0)));
        // Wide nodes below and above one another.
        for (width, at) in [(20, 0), (20, 10), (34, 33), (70, 5)] {
            let mut s: Spec = Spec::leaf(0).with((0..width).map(|i| Spec::leaf(0).with(if i == at { vec![Spec::leaf(0).with((0..3).map(|_| Spec::leaf(0)).collect())] } else { vec![] })).collect());
            s = Spec::leaf(0).with(vec![Spec::leaf(0), s, Spec::leaf(0)]);
            big.push((format!("broom {width}/{at}"), retag(s, 0)));
        }
        for (what, s, owners) in big.into_iter().flat_map(|(w, s)| [(w.clone(), s.clone(), 0usize), (w.clone(), s.clone(), usize::MAX), (w, s, 0x6db6_db6d_b6db_6db6)]) {
            let n: usize = s.size();
            // Names and messages of up to some hundred characters.
            let names: Vec<String> = (0..n).map(|t| if owners == 0 { name(t) } else { format!("{}{}", name(t), ["x", "é", " "][t % 3].repeat(t * 29 % 250)) }).map(|s| s.trim_end().to_string()).collect();
            let msgs:  Vec<String> = (0..n).map(|i| format!("m{i}{}", if owners == 0 { String::new() } else { "!y".repeat(i * 31 % 160) })).collect();
            for origin in 0..n {
                let (s, names, msgs) = (&s, &names, &msgs);
                ctx.case(|| format!("{what} of {n} from {origin}, owners {owners:x}"), |ctx| {
                    let mut l: Lab = Lab::new(owned_scene(s, names, owners));
                    let (sh, rids): (Shape, Vec<RID>) = (shape_of(s), l.pre_order());
                    let stat: Vec<u8> = (0..n).map(|i| if i % 7 == 3 { 1 } else if i % 11 == 5 { 2 } else { 0 }).collect();
                    set_statuses(&mut l, &rids, &stat, msgs);
                    let most: usize = if owners != 0 { ctx.pick(3, 8) } else { ctx.pick(8, 20) };
                    for up in 0..=most { for down in 0..=most {
                        let got: String = draw_tree(l.0.base(), rids[origin], up, down);
                        ctx.st.executions += 1; ctx.st.transitions += n as u64;
                        check_drawing(&got, &sh, names, &stat, msgs, origin, up, down)?;
                    } }
                    Ok(())
                });
                ctx.case(|| format!("crash report of {origin} in {what} of {n}, owners {owners:x}"), |ctx| {
                    let mut l: Lab = Lab::new(owned_scene(s, names, owners));
                    let (sh, rids): (Shape, Vec<RID>) = (shape_of(s), l.pre_order());
                    let mut stat: Vec<u8> = vec![0; n];
                    for (i, st) in stat.iter_mut().enumerate() { if i % 5 == 2 { l.node(rids[i]).post(Log::Warn(&msgs[i])); *st = 1; } }
                    l.node(rids[origin]).post(Log::Panic(&msgs[origin]));
                    stat[origin] = 2;
                    ctx.st.executions += 1; ctx.st.transitions += n as u64;
                    check_drawing(l.tree().get_log(), &sh, names, &stat, msgs, origin, 6, 6)
                });
            }
        }
        ctx.family("views without bounds");
        for s in shapes_upto(ctx.pick(4, 6)).into_iter().chain([chain(30), super::tree::fan(20)]) {
            let n: usize = s.size();
            let sh: Shape = shape_of(&s);
            for how in 0..3 { for origin in 0..n {
                ctx.case(|| format!("{} from {origin}, names {how}", s.show()), |ctx| {
                    let (names, msgs): (Vec<String>, Vec<String>) = dress(&sh, how);
                    let mut l: Lab = Lab::new(plain_scene(&s, &names));
                    let rids: Vec<RID> = l.pre_order();
                    let stat: Vec<u8> = (0..n).map(|i| (i % 3) as u8).collect();
                    set_statuses(&mut l, &rids, &stat, &msgs);
                    const FAR: [usize; 9] = [0, 1, 255, 65536, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX / 2 + 1, usize::MAX - 1, usize::MAX];
                    for up in FAR { for down in FAR {
                        let got: String = draw_tree(l.0.base(), rids[origin], up, down);
                        ctx.st.executions += 1; ctx.st.transitions += n as u64;
                        check_drawing(&got, &sh, &names, &stat, &msgs, origin, up, down)?;
                    } }
                    Ok(())
                });
            } }
        }
        ctx.family("very large trees");
        for n in ctx.pick(vec![100usize, 129, 140, 257, 300], vec![99, 100, 101, 127, 128, 129, 140, 255, 256, 257, 300, 511, 512, 513, 1000]) { for form in 0..4usize {
            // A fan, a chain, a fan at the end of a chain, a chain at the end of a fan.
            let s: Spec = match form {
                0 => super::tree::fan(n), 1 => chain(n),
                2 => { let mut s: Spec = super::tree::fan(n - 6); for _ in 0..6 { s = Spec::leaf(0).with(vec![s]); } retag(s, 0) },
                _ => { let mut s: Spec = super::tree::fan(n - 6); s.kids.last_mut().unwrap().kids = vec![chain(5)]; s.kids[1].kids = vec![Spec::leaf(0)]; retag(s, 0) }
            };
            let n: usize = s.size();
            let (names, msgs): (Vec<String>, Vec<String>) = ((0..n).map(name).collect(), (0..n).map(|i| format!("m{i}")).collect());
            let mut origins: Vec<usize> = vec![0, 1, n / 2, n - 2, n - 1];
            origins.dedup();
            for origin in origins {
                let (s, names, msgs) = (&s, &names, &msgs);
                ctx.case(|| format!("{n} nodes in form {form} from {origin}"), |ctx| {
                    let (sh, stat): (Shape, Vec<u8>) = (shape_of(s), (0..n).map(|i| if i % 7 == 3 || i + 1 == n { 1 } else if i % 11 == 5 { 2 } else { 0 }).collect());
                    let mut l: Lab = Lab::new(plain_scene(s, names));
                    let rids: Vec<RID> = l.pre_order();
                    set_statuses(&mut l, &rids, &stat, msgs);
                    for (up, down) in [(0, 0), (1, 1), (6, 6), (2, 0), (n, n), (90, 3), (0, n)] {
                        if up + down > 200 && form == 1 && n > 300 { continue; }
                        let got: String = draw_tree(l.0.base(), rids[origin], up, down);
                        ctx.st.executions += 1; ctx.st.transitions += n as u64;
                        check_drawing(&got, &sh, names, &stat, msgs, origin, up, down)?;
                    }
                    let mut l: Lab = Lab::new(plain_scene(s, names));
                    let rids: Vec<RID> = l.pre_order();
                    let mut stat: Vec<u8> = vec![0; n];
                    for (i, st) in stat.iter_mut().enumerate() { if i % 5 == 2 || i + 1 == n { l.node(rids[i]).post(Log::Warn(&msgs[i])); *st = 1; } }
                    l.node(rids[origin]).post(Log::Panic(&msgs[origin]));
                    stat[origin] = 2;
                    ctx.st.executions += 1; ctx.st.transitions += n as u64;
                    check_drawing(l.tree().get_log(), &sh, names, &stat, msgs, origin, 6, 6)
                });
            }
        } }
        ctx.family("many nodes with something to report");
        for n in ctx.pick(vec![16usize, 17, 33, 65, 70, 130, 300], vec![9, 10, 16, 17, 32, 33, 64, 65, 66, 70, 100, 127, 128, 129, 130, 255, 256, 257, 300, 513, 1000]) { for form in 0..3usize { for how in 0..4usize {
            // A fan, a chain, a fan in the middle of a chain; all warned, all panicked, by turns, all but one.
            let s: Spec = match form {
                0 => super::tree::fan(n), 1 => chain(n),
                _ => { let mut s: Spec = super::tree::fan(n - 6); s.kids.last_mut().unwrap().kids = vec![chain(3)]; for _ in 0..3 { s = Spec::leaf(0).with(vec![s]); } retag(s, 0) }
            };
            let n: usize = s.size();
            let stat: Vec<u8> = (0..n).map(|i| match how { 0 => 1, 1 => 2, 2 => 1 + (i % 2) as u8, _ => (i != n / 2) as u8 }).collect();
            let (names, msgs): (Vec<String>, Vec<String>) = ((0..n).map(name).collect(), (0..n).map(|i| format!("m{i}")).collect());
            for origin in [0, n / 2, n - 1] {
                let (s, names, msgs, stat) = (&s, &names, &msgs, &stat);
                ctx.case(|| format!("{n} nodes in form {form} from {origin}, issues {how}"), |ctx| {
                    let sh: Shape = shape_of(s);
                    let mut l: Lab = Lab::new(plain_scene(s, names));
                    let rids: Vec<RID> = l.pre_order();
                    set_statuses(&mut l, &rids, stat, msgs);
                    for (up, down) in [(0, 0), (1, 1), (6, 6), (n, n)] {
                        if up + down > 200 && form == 1 && n > 300 { continue; }
                        let got: String = draw_tree(l.0.base(), rids[origin], up, down);
                        ctx.st.executions += 1; ctx.st.transitions += n as u64;
                        check_drawing(&got, &sh, names, stat, msgs, origin, up, down)?;
                    }
                    if how == 1 || how == 2 { return Ok(()); }
                    let mut l: Lab = Lab::new(plain_scene(s, names));
                    let rids: Vec<RID> = l.pre_order();
                    let mut stat: Vec<u8> = stat.clone();
                    for i in 0..n { if stat[i] == 1 { l.node(rids[i]).post(Log::Warn(&msgs[i])); } }
                    l.node(rids[origin]).post(Log::Panic(&msgs[origin]));
                    stat[origin] = 2;
                    ctx.st.executions += 1; ctx.st.transitions += n as u64;
                    check_drawing(l.tree().get_log(), &sh, names, &stat, msgs, origin, 6, 6)
                });
            }
        } } }
        ctx.family("crash reports of all shapes");
        for s in shapes_upto(ctx.pick(6, 7)) {
            let n: usize = s.size();
            let sh: Shape = shape_of(&s);
            for origin in 0..n { for other in 0..n { for frame in [false, true] { for how in 0..3 { for odd in 0..4 {
                ctx.case(|| format!("{}: {other} warns, {}{origin} panics; names {how}, state {odd}", s.show(), if frame { "then a frame, then " } else { "" }), |ctx| {
                    let (names, msgs): (Vec<String>, Vec<String>) = dress(&sh, how);
                    let mut l: Lab = Lab::new(owned_scene(&s, &names, if odd == 1 { usize::MAX } else { 0 }));
                    let rids: Vec<RID> = l.pre_order();
                    if odd == 2 { for (i, &r) in rids.iter().enumerate() { if !l.node(r).register_as_singleton(format!("single{i}")) { return Err("registration fails".into()); } } }
                    if odd == 3 { l.tree().pause(); }
                    let mut stat: Vec<u8> = vec![0; n];
                    l.node(rids[other]).post(Log::Warn(&msgs[other]));
                    stat[other] = 1;
                    if frame { l.tree().process(); stat[other] = 0; }
                    l.node(rids[origin]).post(Log::Panic(&msgs[origin]));
                    stat[origin] = 2;
                    ctx.st.executions += 1; ctx.st.transitions += 3;
                    check_drawing(l.tree().get_log(), &sh, &names, &stat, &msgs, origin, 6, 6)
                });
            } } } } if ctx.done() { return; } }
        }
        ctx.family("crashes in hooks");
        for s in shapes_upto(ctx.pick(5, 6)) {
            let n: usize = s.size();
            let sh: Shape = shape_of(&s);
            for how in 0..3 { for hook in 0..2u8 { for a in 0..n { for b in 0..n { for second in 1..=2u8 { if a == b && second == 2 { continue; }
                ctx.case(|| format!("{}: names {how}: node {a} panics and node {b} {} in {}", s.show(), if second == 2 { "panics" } else { "warns" }, if hook == 0 { "ready" } else { "process" }), |ctx| {
                    let (names, msgs): (Vec<String>, Vec<String>) = dress(&sh, how);
                    fn scene(s: &Spec, names: &[String], msgs: &[String], set: &dyn Fn(usize) -> Vec<(u8, u8)>) -> NodeScene {
                        let t: usize = s.tag as usize;
                        let mut n: Crier = Crier::new(t, set(t), msgs[t].clone());
                        n.set_name(&names[t]);
                        let mut sc: NodeScene = NodeScene::new(n);
                        for k in &s.kids { sc.append(scene(k, names, msgs, set)); }
                        sc
                    }
                    CRIES.with(|c| c.borrow_mut().clear());
                    // A node that does both warns first.
                    let set = |t: usize| -> Vec<(u8, u8)> { let mut v: Vec<(u8, u8)> = Vec::new(); if t == b { v.push((hook, second)); } if t == a { v.push((hook, 2)); } v };
                    let mut l: Lab = Lab::new(scene(&s, &names, &msgs, &set));
                    l.tree().process();
                    let cries: Vec<(usize, u8)> = CRIES.with(|c| c.borrow().clone());
                    if !cries.iter().any(|c| c.1 == 2) { return Err("no hook of a panicking node is called".into()); }
                    let mut stat: Vec<u8> = vec![0; n];
                    let log: String = l.tree().get_log().to_string();
                    let mut reports: std::str::Split<&str> = log.split("[REPORT START]\n");
                    reports.next();
                    for (t, level) in cries {
                        stat[t] = level;
                        if level < 2 { continue; }
                        let Some(r) = reports.next() else { return Err(format!("there is no report of the panic of node {t}").into()); };
                        ctx.st.executions += 1; ctx.st.transitions += n as u64;
                        check_drawing(&format!("[REPORT START]\n{r}"), &sh, &names, &stat, &msgs, t, 6, 6)?;
                    }
                    if reports.next().is_some() { return Err("there are more reports than panics".into()); }
                    Ok(())
                });
            } } } } if ctx.done() { return; } }
        }
    }
};

thread_local! { static CRIES: std::cell::RefCell<Vec<(usize, u8)>> = const { std::cell::RefCell::new(Vec::new()) }; }

class! {
    pub declare Crier;
    pub let number: usize;
    pub let cries: Vec<(u8, u8)>;
    pub let text: String;
    hk _init(number: usize, cries: Vec<(u8, u8)>, text: String) {}

    hk ready(&mut self) { self.cry(0); }
    hk process(&mut self, _delta: f32) { self.cry(1); }

    fn cry(&self, hook: u8) {
        for (h, level) in self.cries.iter() { if *h == hook {
            CRIES.with(|c| c.borrow_mut().push((*self.number, *level)));
            self.post(if *level == 2 { Log::Panic(&self.text) } else { Log::Warn(&self.text) });
        } }
    }
}

/// A spine of `teeth` nodes, each with a chain of `len` below it before the next one.
fn comb(teeth: usize, len: usize) -> Spec {
    let mut s: Option<Spec> = None;
    for i in 0..teeth {
        let mut kids: Vec<Spec> = Vec::new();
        if len > 0 { kids.push(chain(len)); }
        if let Some(x) = s { if i % 2 == 0 { kids.push(x); } else { kids.insert(0, x); } }
        s = Some(Spec::leaf(0).with(kids));
    }
    retag(s.unwrap(), 0)
}

fn full(depth: usize, width: usize) -> Spec { if depth == 0 { Spec::leaf(0) } else { Spec::leaf(0).with((0..width).map(|_| full(depth - 1, width)).collect()) } }
