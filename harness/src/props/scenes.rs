//! Scenes on their own: saving and loading (C13), copies (C16) and the structural hash (C17).

use std::cell::RefCell;
use std::collections::HashMap;
use std::hash::{ Hash, Hasher };
use std::path::{ Path, PathBuf };
use std::rc::Rc;

use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use node_tree::traits::element::AsElement;
use toml_edit as toml;

use crate::ctx::{ Ctx, Fail, Meta, Res };
use crate::lab::{ pre_order, Lab };
use super::{ b, Prop };

/*
 * Classes
 */

pub mod east {
    use node_tree::prelude::*;
    class! { pub declare Twin; pub export let v: i64; hk _init(v: i64) { } }
}
pub mod west {
    use node_tree::prelude::*;
    class! { pub declare Twin; pub export let v: i64; hk _init(v: i64) { } }
}

class! { pub declare Plain; }

class! {
    pub declare All;
    pub signal on_it(x: i64);
    pub                let reg:  i64;
    pub export         let exp:  String;
    pub export default let expd: Vec<i64>;
    pub unique         let uni:  i64;
    pub default        let def:  String;
    hk _init(r: i64) { let reg: i64 = r; let exp: String = format!("e{r}"); let uni: i64 = -r; }
}

class! {
    pub declare Rich;
    pub export let int:  i64;
    pub export let num:  f64;
    pub export let text: String;
    pub export let list: Vec<String>;
    pub export let some: Option<i32>;
    pub export let map:  std::collections::BTreeMap<String, i32>;
    pub export let flag: bool;
    pub export let ch:   char;
    pub export let deep: Vec<Vec<(i32, String)>>;
    hk _init(k: usize) {
        let int:  i64                = [0, -1, 1, i64::MAX, i64::MIN][k % 5];
        let num:  f64                = [0.0, -0.0, 1.5, 1e300, f64::INFINITY, f64::NEG_INFINITY, 5e-324][k % 7];
        let text: String             = TEXTS[k % TEXTS.len()].to_string();
        let list: Vec<String>        = TEXTS[..k % 4].iter().map(|s| s.to_string()).collect();
        let some: Option<i32>        = [None, Some(0), Some(-7)][k % 3];
        let map                      = TEXTS[..k % 3].iter().enumerate().map(|(i, s)| (s.to_string(), i as i32)).collect();
        let flag: bool               = k % 2 == 1;
        let ch:   char               = ['a', '"', '\n', '漢', '\0', '\u{7f}'][k % 6];
        let deep: Vec<Vec<(i32, String)>> = (0..k % 3).map(|i| (0..i).map(|j| (j as i32, TEXTS[(k + j) % TEXTS.len()].to_string())).collect()).collect();
    }
}

class! {
    pub declare Odd;
    pub export let parent:    i64;
    pub export let type_name: String;
    pub export let is_owner:  bool;
    pub export let children:  Vec<i64>;
    pub export let r#type:    i64;
    pub export let _x_1:      i64;
    hk _init(k: i64) { let parent: i64 = k; let type_name: String = "Plain".to_string(); let is_owner: bool = k % 2 == 0; let children: Vec<i64> = vec![k; 2]; let r#type: i64 = k + 1; let _x_1: i64 = k + 2; }
}

class! { pub declare Meta1; pub export let metadata: i64; hk _init(k: i64) { let metadata: i64 = k; } }

/// A type of value that is never written and never read.
#[derive(Debug, Clone, PartialEq)]
pub struct Ghost(pub Vec<String>);
impl Default for Ghost { fn default() -> Self { Ghost(vec!["blank".into()]) } }
impl Exportable for Ghost {
    unsafe fn is_ghost_export(&self) -> bool { true }
    fn to_value(&self) -> toml::Value { unimplemented!() }
    fn from_value(_: toml::Value) -> Option<Self> { unimplemented!() }
}

class! {
    pub declare Haunted;
    pub export let before: i64;
    pub export let none:   ();
    pub export let ghost:  Ghost;
    pub export let after:  i64;
    hk _init(k: i64) { let before: i64 = k; let none: () = (); let ghost: Ghost = Ghost(vec!["set".to_string(); 2]); let after: i64 = -k; }
}

const TEXTS: &[&str] = &["", "a", "é\"'\\", "line\nline\r\n", "'''", "\"\"\"", "[x_1]\nk = 1", "\u{0}\u{1b}\u{7f}", "# no", "  漢 "];

/*
 * Descriptions of scenes
 */

#[derive(Clone, Debug, PartialEq)]
pub struct Sp { pub class: u8, pub name: Option<String>, pub owner: bool, pub val: i64, pub kids: Vec<Sp> }

impl Sp {
    pub fn leaf(class: u8, val: i64) -> Sp { Sp { class, name: None, owner: false, val, kids: Vec::new() } }
    pub fn named(mut self, n: &str) -> Sp { self.name = Some(n.into()); self }
    pub fn owned(mut self, o: bool) -> Sp { self.owner = o; self }
    pub fn with(mut self, kids: Vec<Sp>) -> Sp { self.kids = kids; self }
    pub fn each_mut(&mut self, f: &mut dyn FnMut(&mut Sp)) { f(self); for k in &mut self.kids { k.each_mut(f); } }
    pub fn each<'a>(&'a self, f: &mut dyn FnMut(&'a Sp)) { f(self); for k in &self.kids { k.each(f); } }
    pub fn size(&self) -> usize { let mut n: usize = 0; self.each(&mut |_| n += 1); n }

    pub fn show(&self) -> String {
        let kids: Vec<String> = self.kids.iter().map(|k| k.show()).collect();
        let name: String = self.name.as_ref().map(|n| format!(":{n:?}")).unwrap_or_default();
        let kids: String = if kids.is_empty() { String::new() } else { format!("[{}]", kids.join(" ")) };
        format!("{}{}{}{name}{kids}", CLASSES[self.class as usize], self.val, if self.owner { "!" } else { "" })
    }

    pub fn node(&self) -> Box<dyn Node> {
        let mut n: Box<dyn Node> = match self.class {
            0 => east::Twin::new(self.val).to_dyn_box(), 1 => west::Twin::new(self.val).to_dyn_box(), 2 => Plain::new().to_dyn_box(),
            3 => All::new(self.val).to_dyn_box(), 4 => Rich::new(self.val as usize).to_dyn_box(), 5 => Odd::new(self.val).to_dyn_box(), 6 => Meta1::new(self.val).to_dyn_box(), _ => Haunted::new(self.val).to_dyn_box()
        };
        if let Some(name) = &self.name { unsafe { n.set_name_unchecked(name); } }
        n
    }

    pub fn scene(&self) -> NodeScene {
        let mut s: NodeScene = NodeScene::new_dyn(self.node());
        for k in &self.kids { if k.owner { s.append_as_owner(k.scene()); } else { s.append(k.scene()); } }
        s.is_owner = self.owner;
        s
    }

    /// What the scene is to look like.
    pub fn expect(&self) -> Ob {
        let n: Box<dyn Node> = self.node();
        Ob { owner: self.owner, kids: self.kids.iter().map(|k| k.expect()).collect(), ..look(&*n) }
    }
}

pub const CLASSES: &[&str] = &["e.Twin", "w.Twin", "Plain", "All", "Rich", "Odd", "Meta1", "Haunted"];

/// All trees of `n` nodes.
pub fn forms(n: usize) -> Vec<Sp> {
    fn forests(n: usize) -> Vec<Vec<Sp>> {
        if n == 0 { return vec![Vec::new()]; }
        let mut out: Vec<Vec<Sp>> = Vec::new();
        for first in 1..=n { for kids in forests(first - 1) { for rest in forests(n - first) {
            let mut f: Vec<Sp> = vec![Sp::leaf(0, 0).with(kids.clone())];
            f.extend(rest);
            out.push(f);
        } } }
        out
    }
    forests(n - 1).into_iter().map(|k| number(Sp::leaf(0, 0).with(k))).collect()
}

/// Numbers the nodes in pre-order.
pub fn number(mut s: Sp) -> Sp { let mut i: i64 = 0; s.each_mut(&mut |x| { x.val = i; i += 1; }); s }

/// Every assignment of classes and owner flags.
pub fn dressed(s: &Sp, classes: usize, f: &mut dyn FnMut(Sp)) {
    let n: usize = s.size();
    let base: usize = classes * 2;
    for code in 0..base.pow(n as u32) {
        let mut t: Sp = s.clone();
        let mut c: usize = code;
        t.each_mut(&mut |x| { x.class = (c % base / 2) as u8; x.owner = c % 2 == 1; c /= base; });
        f(t);
    }
}

/*
 * Observation
 */

#[derive(Clone, Debug, PartialEq)]
pub struct Ob { pub ty: String, pub name: String, pub owner: bool, pub exported: String, pub rest: String, pub kids: Vec<Ob> }

impl Ob {
    pub fn each_mut(&mut self, f: &mut dyn FnMut(&mut Ob)) { f(self); for k in &mut self.kids { k.each_mut(f); } }
    pub fn show(&self) -> String {
        let kids: Vec<String> = self.kids.iter().map(|k| k.show()).collect();
        format!("{}:{:?}{}({}{}{}){}", self.ty.rsplit("::").take(2).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("::"), self.name, if self.owner { "!" } else { "" },
            self.exported, if self.rest.is_empty() { "" } else { " | " }, self.rest, if kids.is_empty() { String::new() } else { format!("[{}]", kids.join(" ")) })
    }
    /// Without the fields that are not saved.
    pub fn saved(mut self) -> Ob { self.each_mut(&mut |o| o.rest.clear()); self }
}

/// The fields of All that are not saved, as shown by `look`.
fn all_rest(reg: Option<i64>, uni: Option<i64>, def: &str) -> String { format!("reg={reg:?} uni={uni:?} def={def:?}") }

/// One node, without ownership and children.
pub fn look(n: &dyn Node) -> Ob {
    let any: &dyn std::any::Any = n.as_any_ref();
    let (mut exported, mut rest): (String, String) = Default::default();
    if let Some(t) = any.downcast_ref::<east::Twin>() { exported = format!("{}", *t.v); }
    if let Some(t) = any.downcast_ref::<west::Twin>() { exported = format!("{}", *t.v); }
    if let Some(t) = any.downcast_ref::<Meta1>()      { exported = format!("{}", *t.metadata); }
    if let Some(t) = any.downcast_ref::<Haunted>()    { exported = format!("{} {}", *t.before, *t.after); rest = format!("{:?} {:?}", *t.none, *t.ghost); }
    if let Some(t) = any.downcast_ref::<Odd>()        { exported = format!("{} {:?} {} {:?} {} {}", *t.parent, *t.type_name, *t.is_owner, *t.children, *t.r#type, *t._x_1); }
    if let Some(t) = any.downcast_ref::<Rich>()       { exported = format!("{} {:?} {:?} {:?} {:?} {:?} {} {:?} {:?}", *t.int, *t.num, *t.text, *t.list, *t.some, *t.map, *t.flag, *t.ch, *t.deep); }
    if let Some(t) = any.downcast_ref::<All>() {
        exported = format!("{:?} {:?}", *t.exp, *t.expd);
        rest     = all_rest(if t.reg.is_void() { None } else { Some(*t.reg) }, if t.uni.is_void() { None } else { Some(*t.uni) }, &t.def);
    }
    Ob { ty: n.name_as_type(), name: n.name().to_string(), owner: false, exported, rest, kids: Vec::new() }
}

pub fn ptr_of(s: &NodeScene) -> *mut dyn Node { unsafe { Box::into_raw(s.get_node()) } }

pub fn observe(s: &NodeScene) -> Ob {
    let mut o: Ob = look(unsafe { &*ptr_of(s) });
    o.owner = s.is_owner;
    o.kids  = s.children().iter().map(observe).collect();
    o
}

pub fn observe_tree(t: &dyn NodeTree, r: RID) -> Ob {
    let n: &dyn Node = t.get_node(r).expect("node");
    let mut o: Ob = look(n);
    o.owner = n.is_owner();
    o.kids  = n.children().iter().map(|c| observe_tree(t, c.rid())).collect();
    o
}

/// Gives the nodes of a scene back to the allocator.
pub fn burn(s: NodeScene) { fn go(s: &NodeScene) { for c in s.children() { go(c); } drop(unsafe { s.get_node() }); } go(&s); }

pub fn same(what: &str, got: &Ob, want: &Ob) -> Result<(), String> {
    if got == want { Ok(()) } else { Err(format!("{what} is\n  {}\ninstead of\n  {}", got.show(), want.show())) }
}

/// Which documents mean the same: the same nodes in the same order, each with the same entries in any order.
fn canon(doc: &str) -> Result<Vec<(String, Vec<(String, String)>)>, String> {
    let d: toml::DocumentMut = doc.parse().map_err(|e| format!("what was saved is not TOML: {e}"))?;
    let mut out: Vec<(String, Vec<(String, String)>)> = Vec::new();
    for (k, v) in d.iter() {
        let t: &toml::Table = v.as_table().ok_or("an entry of the document is not a table")?;
        let mut es: Vec<(String, String)> = Vec::new();
        for (k, v) in t.iter() {
            match v.as_inline_table() {
                Some(m) if k == "metadata" => for (k, v) in m.iter() { es.push((format!("metadata.{k}"), v.to_string().trim().to_string())); },
                _ => es.push((k.to_string(), v.to_string().trim().to_string()))
            }
        }
        es.sort();
        out.push((k.to_string(), es));
    }
    Ok(out)
}

fn equivalent(what: &str, a: &str, b: &str) -> Result<(), String> {
    if canon(a)? == canon(b)? { Ok(()) } else { Err(format!("{what} gives\n{a}\ninstead of an equivalent of\n{b}")) }
}

/*
 * C13
 */

/// Saves the scene in memory, loads the result, and compares all there is to compare. Gives the document.
fn round_trip(ctx: &mut Ctx, s: &NodeScene, want: &Ob) -> Result<String, String> {
    let saved: Ob = want.clone().saved();
    let before: Ob = observe(s);
    same("the scene", &before.clone().saved(), &saved)?;
    let text: String = s.save_to_str().map_err(|e| format!("saving fails: {e}"))?;
    same("the scene, once saved,", &observe(s), &before)?;
    let loaded: NodeScene = NodeScene::load_from_str(&text).map_err(|e| format!("loading what was saved fails: {e}\n{text}"))?;
    same("the loaded scene", &observe(&loaded).saved(), &saved)?;
    let again: String = loaded.save_to_str().map_err(|e| format!("saving the loaded scene fails: {e}"))?;
    equivalent("saving the loaded scene", &again, &text)?;
    equivalent("saving once more", &s.save_to_str()?, &text)?;
    same("the loaded scene, once saved,", &observe(&loaded).saved(), &saved)?;
    burn(loaded);
    ctx.st.executions += 1; ctx.st.transitions += 4;
    Ok(text)
}

/// The whole scene, every part of it, and the whole scene again.
fn save_load(ctx: &mut Ctx, sp: &Sp) -> Res {
    fn parts(ctx: &mut Ctx, s: &NodeScene, want: &Ob) -> Result<(), String> {
        for (c, w) in s.children().iter().zip(&want.kids) { round_trip(ctx, c, w).map_err(|e| format!("the part at {:?}: {e}", w.name))?; parts(ctx, c, w)?; }
        Ok(())
    }
    let want: Ob = sp.expect();
    let s: NodeScene = sp.scene();
    let text: String = round_trip(ctx, &s, &want)?;
    if !sp.kids.is_empty() {
        parts(ctx, &s, &want)?;
        let again: String = round_trip(ctx, &s, &want).map_err(|e| format!("after saving parts: {e}"))?;
        equivalent("saving after saving parts", &again, &text)?;
    }
    ctx.state_str(&want.show());
    burn(s);
    Ok(())
}

/// Fields of types that are never written: they are left out of the document, are at their default once loaded, and are copied like others.
fn ghosts(ctx: &mut Ctx, sp: &Sp) -> Res {
    save_load(ctx, sp)?;
    let s: NodeScene = sp.scene();
    let text: String = s.save_to_str()?;
    if text.lines().any(|l| l.starts_with("ghost") || l.starts_with("none")) { return Err(format!("a ghost was written:\n{text}").into()); }
    let want: Ob = sp.expect();
    let mut blank: Ob = want.clone();
    blank.each_mut(&mut |o| if !o.rest.is_empty() { o.rest = format!("() {:?}", Ghost::default()); });
    let loaded: NodeScene = NodeScene::load_from_str(&text)?;
    same("the loaded scene", &observe(&loaded), &blank)?;
    let copy: NodeScene = loaded.clone();
    same("the copy of the loaded scene", &observe(&copy), &blank)?;
    let copy2: NodeScene = s.clone();
    same("the copy", &observe(&copy2), &want)?;
    for s in [loaded, copy, copy2, s] { burn(s); }
    ctx.st.executions += 1; ctx.st.transitions += 4;
    Ok(())
}

fn name_alphabet() -> Vec<char> {
    "aA1_- .=\"'\\/[]{}#,\n\r\t\0\u{1b}\u{7f}\u{85}\u{2028}\u{feff}é漢\u{301}😀\u{10ffff}".chars().collect()
}

fn name_list() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "b", "a_0", "a_1", "a_", "_", "__", "_1", "1", "0", "a_1_2", "Plain", "Plain_1", "metadata", "a.b", "\"a\"", "'", "\\n", "\n", "a b", " ", "]", "[a]", "#", "é", "漢字", "😀", "a\0b", "\u{7f}", "true", "1979-05-27", "-1", "1e5", "nan", "a = 1", "\"\"\"", "\r\n", "18446744073709551615", "a_18446744073709551616"].iter().map(|s| s.to_string()).collect();
    v.push("x".repeat(300));
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op { Leaf(bool), Self_(bool), Loaded, Save, SavePart(usize), Clone, Load, Wrap(bool), Own(bool) }

fn save_history(ctx: &mut Ctx, start: &Sp, ops: &[Op]) -> Res {
    let mut s: NodeScene = start.scene();
    let mut m: Ob = start.expect().saved();
    let mut next: i64 = 100;
    for (i, op) in ops.iter().enumerate() {
        let leaf: Sp = Sp::leaf((next % 2) as u8, next);
        match op {
            Op::Leaf(o) => {
                next += 1;
                let mut e: Ob = leaf.expect().saved(); e.owner = *o;
                m.kids.push(e);
                if *o { s.append_as_owner(leaf.scene()) } else { s.append(leaf.scene()) }
            },
            Op::Self_(o) => {
                let mut e: Ob = m.clone(); e.owner = *o;
                m.kids.push(e);
                let c: NodeScene = s.clone();
                if *o { s.append_as_owner(c) } else { s.append(c) }
            },
            Op::Loaded => {
                let c: NodeScene = NodeScene::load_from_str(&s.save_to_str()?)?;
                let mut e: Ob = m.clone(); e.owner = true;
                m.kids.push(e);
                s.append_as_owner(c);
            },
            Op::Save => { round_trip(ctx, &s, &m)?; },
            Op::SavePart(k) => if let Some(c) = s.children().get(*k) { round_trip(ctx, c, &m.kids[*k])?; },
            Op::Clone => { let c: NodeScene = s.clone(); burn(std::mem::replace(&mut s, c)); },
            Op::Load  => { let c: NodeScene = NodeScene::load_from_str(&s.save_to_str()?)?; burn(std::mem::replace(&mut s, c)); },
            Op::Wrap(o) => {
                next += 1;
                let old: NodeScene = std::mem::replace(&mut s, leaf.scene());
                let mut top: Ob = leaf.expect().saved();
                let mut e: Ob = m.clone(); e.owner = *o;
                top.kids.push(e);
                m = top;
                if *o { s.append_as_owner(old) } else { s.append(old) }
            },
            Op::Own(o) => { s.is_owner = *o; m.owner = *o; }
        }
        same(&format!("after operation {} the scene", i + 1), &observe(&s).saved(), &m)?;
        ctx.st.transitions += 1;
        ctx.state_str(&m.show());
    }
    round_trip(ctx, &s, &m)?;
    burn(s);
    Ok(())
}

fn scratch_dir() -> PathBuf { PathBuf::from(std::env::var("MC_SCRATCH").unwrap_or_else(|_| ".".into())) }

fn files(ctx: &mut Ctx, a: &Sp, z: &Sp, name: &str) -> Res {
    let dir: PathBuf = scratch_dir().join(format!("files-{}", std::process::id()));
    std::fs::create_dir_all(&dir).map_err(|e| e.to_string())?;
    let path: PathBuf = dir.join(format!("{name}.scn"));
    let r = (|| -> Result<(), String> {
        for (i, sp) in [a, z, a].into_iter().enumerate() {
            let s: NodeScene = sp.scene();
            s.save(&dir, name).map_err(|e| format!("saving to a file fails: {e}"))?;
            same("the scene saved to a file", &observe(&s).saved(), &sp.expect().saved())?;
            let found: Vec<String> = std::fs::read_dir(&dir).map_err(|e| e.to_string())?.flatten().map(|e| e.file_name().to_string_lossy().to_string()).collect();
            if found != [format!("{name}.scn")] { return Err(format!("saving under {name:?} leaves the files {found:?}")); }
            let l: NodeScene = NodeScene::load(&path).map_err(|e| format!("loading file number {} of the same name fails: {e}", i + 1))?;
            same("the scene loaded from a file", &observe(&l).saved(), &sp.expect().saved())?;
            equivalent("the file", &std::fs::read_to_string(&path).map_err(|e| e.to_string())?, &s.save_to_str()?)?;
            burn(s); burn(l);
            ctx.st.executions += 1; ctx.st.transitions += 2;
        }
        // What is not a scene file is refused.
        let s: NodeScene = a.scene();
        if s.save(&dir.join("missing"), name).is_ok()       { return Err("saving into a missing directory reports success".into()); }
        if NodeScene::load(&dir.join("missing.scn")).is_ok() { return Err("loading a missing file succeeds".into()); }
        if NodeScene::load(Path::new("")).is_ok()            { return Err("loading from an empty path succeeds".into()); }
        std::fs::write(&path, b"[A_0]\nmetadata = { type_name = \"\xff\" }").map_err(|e| e.to_string())?;
        if NodeScene::load(&path).is_ok() { return Err("loading a file that is not text succeeds".into()); }
        burn(s);
        Ok(())
    })();
    let _ = std::fs::remove_dir_all(&dir);
    r.map_err(|e| e.into())
}

pub const C13: Prop = Prop {
    meta: Meta {
        id: "C13",
        rule: "every scene over the shapes, classes, owner flags and names is saved to text, loaded, compared node by node with what was built, saved again and compared as a document; so is every part of it, and the whole again afterwards; every sequence of appending, wrapping, cloning, loading and saving is followed by the same comparison; the same through files, also over an older file",
        bounds: |t| b(t, "shapes up to 4 nodes with 3 classes and all owner flags, 5 nodes with 2 classes; all names up to 2 characters out of 35 on a root and a child, all pairs of 41 names on siblings and on parent and child; 80 rows of field values, and exported fields of ghost types on all layouts up to 4 nodes; histories of 4 operations; chains and fans up to 1100",
                         "shapes up to 5 nodes with 3 classes and all owner flags, 6 nodes with 2 classes; all names up to 3 characters out of 35; histories of 5 operations; chains and fans up to 1500"),
        assumptions: &["the equality of stored values themselves is C14's; here a few rows of values of each kind are used", "files are written in a scratch directory of the check; failures of the disk are not simulated"]
    },
    body: |ctx| {
        ctx.family("shapes");
        for n in 1..=ctx.pick(5, 6) { for f in forms(n) {
            dressed(&f, if n <= ctx.pick(4, 5) { 3 } else { 2 }, &mut |s| ctx.case(|| format!("save and load {}", s.show()), |ctx| save_load(ctx, &s)));
            if ctx.done() { return; }
        } }
        ctx.family("names");
        let ab: Vec<char> = name_alphabet();
        let mut names: Vec<String> = vec![String::new()];
        let mut last: Vec<String> = names.clone();
        for _ in 0..ctx.pick(2, 3) { last = last.iter().flat_map(|s| ab.iter().map(move |c| format!("{s}{c}"))).collect(); names.extend(last.iter().cloned()); }
        for n in &names {
            ctx.case(|| format!("root and child named {n:?}"), |ctx| save_load(ctx, &Sp::leaf(0, 1).named(n).with(vec![Sp::leaf(1, 2).named(n).owned(true)])));
            ctx.case(|| format!("three children named {n:?}"), |ctx| save_load(ctx, &Sp::leaf(2, 1).owned(true).with((0..3).map(|i| Sp::leaf(0, i).named(n)).collect())));
        }
        let list: Vec<String> = name_list();
        for x in &list { for y in &list {
            ctx.case(|| format!("siblings {x:?} {y:?}"), |ctx| save_load(ctx, &Sp::leaf(2, 0).with(vec![Sp::leaf(0, 1).named(x), Sp::leaf(0, 2).named(y).with(vec![Sp::leaf(1, 3).named(x)])])));
            ctx.case(|| format!("chain {x:?} {y:?}"), |ctx| save_load(ctx, &Sp::leaf(0, 1).named(x).with(vec![Sp::leaf(1, 2).named(y).with(vec![Sp::leaf(1, 3).named(x).owned(true)])])));
        } }
        ctx.family("values");
        for k in 0..ctx.pick(80, 420) { for class in [3, 4, 5] {
            ctx.case(|| format!("fields {} {k}", CLASSES[class as usize]), |ctx| save_load(ctx, &Sp::leaf(class, k).with(vec![Sp::leaf(2, 0), Sp::leaf(class, k + 1).with(vec![Sp::leaf(class, k + 2)])])));
        } }
        ctx.case(|| "a class with an exported field called metadata".into(), |ctx| save_load(ctx, &Sp::leaf(6, 5)).map_err(|e| Fail { key: "exported-field-called-metadata".into(), msg: e.msg }));
        ctx.family("values that are never written");
        for f in (1..=4).flat_map(forms) {
            let n: usize = f.size();
            for code in 0..2usize.pow(n as u32) {
                let mut sp: Sp = f.clone();
                let mut c: usize = code;
                sp.each_mut(&mut |x| { x.class = if c % 2 == 0 { 7 } else { 2 }; x.owner = c % 3 == 1; c /= 2; });
                ctx.case(|| sp.show(), |ctx| ghosts(ctx, &sp));
            }
        }
        ctx.family("histories");
        let ops: Vec<Op> = vec![Op::Leaf(false), Op::Leaf(true), Op::Self_(false), Op::Self_(true), Op::Loaded, Op::Save, Op::SavePart(0), Op::SavePart(1), Op::Clone, Op::Load, Op::Wrap(false), Op::Wrap(true), Op::Own(true), Op::Own(false)];
        let depth: usize = ctx.pick(4, 5);
        for start in [Sp::leaf(0, 1), Sp::leaf(0, 1).owned(true).with(vec![Sp::leaf(1, 2).with(vec![Sp::leaf(2, 3).owned(true)])])] {
            for code in 0..ops.len().pow(depth as u32) {
                let seq: Vec<Op> = (0..depth).map(|i| ops[code / ops.len().pow(i as u32) % ops.len()]).collect();
                if seq.iter().filter(|o| matches!(o, Op::Self_(_) | Op::Loaded)).count() > 3 { continue; }
                ctx.case(|| format!("{} then {seq:?}", start.show()), |ctx| save_history(ctx, &start, &seq));
                if code & 0xFFF == 0 && ctx.done() { return; }
            }
        }
        ctx.family("files");
        for f in (1..=3).flat_map(forms) { for name in ["a", "a b", "a.b", "é漢", ".scn", "x.scn", "-", "'\""] {
            let mut big: Sp = f.clone(); big.kids.push(Sp::leaf(3, 8).named("long name 漢"));
            ctx.case(|| format!("files called {name:?} for {}", f.show()), |ctx| files(ctx, &f, &big, name));
            ctx.case(|| format!("files called {name:?} for a larger {}", f.show()), |ctx| files(ctx, &big, &f, name));
        } }
        ctx.family("scale");
        for n in ctx.pick(vec![8, 9, 10, 11, 12, 33, 99, 100, 101, 128, 256, 257, 300, 1100], vec![8, 9, 10, 11, 12, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300, 511, 512, 999, 1000, 1001, 1100, 1500]) {
            let fan: Sp = number(Sp::leaf(0, 0).with((1..n).map(|i| Sp::leaf((i % 3) as u8, 0).owned(i % 5 == 0)).collect()));
            let mut c: Sp = Sp::leaf(1, 0);
            for i in 1..n { c = Sp::leaf((i % 3) as u8, 0).owned(i % 4 == 0).with(vec![c]); }
            let chain: Sp = number(c);
            let mut c: Sp = Sp::leaf(1, 0);
            for i in 1..n / 2 { c = Sp::leaf(0, 0).with(vec![Sp::leaf((i % 2) as u8, 1), c]); }
            let comb: Sp = number(c);
            for (what, s) in [("fan", fan), ("chain", chain), ("comb", comb)] {
                ctx.case(|| format!("{what} of {n}"), |ctx| { let t: NodeScene = s.scene(); round_trip(ctx, &t, &s.expect())?; round_trip(ctx, &t.children()[0], &s.expect().kids[0])?; burn(t); Ok(()) });
            }
        }
    }
};

/*
 * C16
 */

#[derive(Clone, Debug, PartialEq)]
struct M { class: u8, val: i64, name: String, owner: bool, reg: Option<i64>, exp: String, expd: Vec<i64>, uni: Option<i64>, def: String, ears: Vec<usize>, warned: Option<String>, kids: Vec<M> }

impl M {
    fn of(s: &Sp) -> M {
        M { class: s.class, val: s.val, name: s.expect().name, owner: s.owner, reg: Some(s.val), exp: format!("e{}", s.val), expd: vec![], uni: Some(-s.val), def: String::new(), ears: vec![], warned: None, kids: s.kids.iter().map(M::of).collect() }
    }
    fn list(&mut self) -> Vec<*mut M> { let mut v: Vec<*mut M> = vec![self as *mut M]; for k in &mut self.kids { v.extend(k.list()); } v }
    fn at(&mut self, i: usize) -> &mut M { unsafe { &mut *self.list()[i] } }
    fn size(&self) -> usize { 1 + self.kids.iter().map(|k| k.size()).sum::<usize>() }
    fn each(&mut self, f: &mut dyn FnMut(&mut M)) { f(self); for k in &mut self.kids { k.each(f); } }
    fn cloned(&self) -> M { let mut m: M = self.clone(); m.each(&mut |x| { x.uni = None; x.warned = None; x.ears.clear(); }); m }
    fn loaded(&self) -> M { let mut m: M = self.clone(); m.each(&mut |x| { x.uni = None; x.reg = None; x.def = String::new(); x.warned = None; x.ears.clear(); }); m }
    fn ob(&self) -> Ob {
        let sp: Sp = Sp::leaf(self.class, self.val);
        let mut o: Ob = sp.expect();
        o.name = self.name.clone(); o.owner = self.owner;
        if self.class == 3 { o.exported = format!("{:?} {:?}", self.exp, self.expd); o.rest = all_rest(self.reg, self.uni, &self.def); }
        o.kids = self.kids.iter().map(|k| k.ob()).collect();
        o
    }
}

enum Body { Scene(NodeScene), Tree(Lab) }

struct Inst { body: Body, m: M, spent: bool }

fn scene_ptrs(s: &NodeScene, out: &mut Vec<*mut dyn Node>) { out.push(ptr_of(s)); for c in s.children() { scene_ptrs(c, out); } }

impl Inst {
    fn ptrs(&mut self) -> Vec<*mut dyn Node> {
        match &mut self.body {
            Body::Scene(s) => { let mut v: Vec<*mut dyn Node> = Vec::new(); scene_ptrs(s, &mut v); v },
            Body::Tree(l)  => l.pre_order().into_iter().map(|r| l.node(r) as *mut dyn Node).collect()
        }
    }
    fn observe(&mut self) -> Ob { match &mut self.body { Body::Scene(s) => observe(s), Body::Tree(l) => observe_tree(l.tree(), 0) } }
    fn all(&mut self, i: usize) -> Option<&'static mut All> { let p: *mut dyn Node = self.ptrs()[i]; unsafe { (*p).as_any_mut().downcast_mut::<All>() } }
}

/// Operations of a history of copies; the first number picks the instance, the second the node.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Cop { Clone(usize), Tree(usize), Branch(usize, usize), Load(usize), SetReg(usize, usize), TakeReg(usize, usize), SetExp(usize, usize), PushExpd(usize, usize), SetUni(usize, usize), TakeUni(usize, usize), SetDef(usize, usize), Name(usize, usize), Connect(usize, usize), Emit(usize, usize), Append(usize), Add(usize, usize), Warn(usize, usize), Free(usize, usize) }

struct Copies { v: Vec<Inst>, ears: Rc<RefCell<Vec<i64>>>, heard: Vec<i64>, n: i64 }

impl Copies {
    fn new(s: &Sp) -> Copies { Copies { v: vec![Inst { body: Body::Scene(s.scene()), m: M::of(s), spent: false }], ears: Rc::default(), heard: Vec::new(), n: 10 } }

    /// Every operation that can follow.
    fn menu(&self, small: bool) -> Vec<Cop> {
        let mut out: Vec<Cop> = Vec::new();
        for (i, x) in self.v.iter().enumerate() {
            if x.spent { continue; }
            let n: usize = x.m.size();
            match &x.body {
                Body::Scene(_) => { out.extend([Cop::Clone(i), Cop::Tree(i), Cop::Load(i), Cop::Append(i)]); },
                Body::Tree(_)  => { for k in 0..n { out.extend([Cop::Branch(i, k), Cop::Warn(i, k)]); if k > 0 { out.push(Cop::Free(i, k)); } } out.push(Cop::Add(i, n - 1)); }
            }
            let mut m: M = x.m.clone();
            for k in 0..n {
                out.push(Cop::Name(i, k));
                if m.at(k).class != 3 { continue; }
                if small && k > 0 { out.extend([Cop::SetExp(i, k), Cop::TakeReg(i, k), Cop::Connect(i, k)]); continue; }
                out.extend([Cop::SetReg(i, k), Cop::TakeReg(i, k), Cop::SetExp(i, k), Cop::PushExpd(i, k), Cop::SetUni(i, k), Cop::TakeUni(i, k), Cop::SetDef(i, k), Cop::Connect(i, k), Cop::Emit(i, k)]);
            }
        }
        out
    }

    fn apply(&mut self, op: Cop) -> Result<(), String> {
        self.n += 1;
        let n: i64 = self.n;
        match op {
            Cop::Clone(i)  => { let Body::Scene(s) = &self.v[i].body else { unreachable!() }; let (c, m) = (s.clone(), self.v[i].m.cloned()); self.v.push(Inst { body: Body::Scene(c), m, spent: false }); },
            Cop::Load(i)   => { let Body::Scene(s) = &self.v[i].body else { unreachable!() }; let (c, m) = (NodeScene::load_from_str(&s.save_to_str()?)?, self.v[i].m.loaded()); self.v.push(Inst { body: Body::Scene(c), m, spent: false }); },
            Cop::Tree(i)   => {
                let inst: Inst = std::mem::replace(&mut self.v[i], Inst { body: Body::Tree(Lab::new(Plain::new())), m: M::of(&Sp::leaf(2, 0)), spent: true });
                let Body::Scene(s) = inst.body else { unreachable!() };
                let mut m: M = inst.m;
                m.owner = true;
                self.v[i] = Inst { body: Body::Tree(Lab::new(s)), m, spent: false };
            },
            Cop::Branch(i, k) => {
                let p: *mut dyn Node = self.v[i].ptrs()[k];
                let s: NodeScene = unsafe { (*p).save_as_branch() };
                let mut m: M = self.v[i].m.at(k).cloned();
                m.owner = true;
                self.v.push(Inst { body: Body::Scene(s), m, spent: false });
            },
            Cop::Append(i) => { let Body::Scene(s) = &mut self.v[i].body else { unreachable!() }; let mut sp: Sp = Sp::leaf(3, n).owned(true); sp.name = Some(format!("x{n}")); s.append_as_owner(sp.scene()); self.v[i].m.kids.push(M::of(&sp)); },
            Cop::Add(i, k) => {
                let sp: Sp = Sp::leaf(3, n).owned(true).named(&format!("x{n}"));
                let p: *mut dyn Node = self.v[i].ptrs()[k];
                unsafe { (*p).add_child(sp.scene()); }
                self.v[i].m.at(k).kids.push(M::of(&sp));
            },
            Cop::Free(i, k) => {
                fn cut(m: &mut M, at: &mut usize, k: usize) { let mut j: usize = 0; while j < m.kids.len() { *at += 1; if *at == k { m.kids.remove(j); *at = usize::MAX / 2; return; } cut(&mut m.kids[j], at, k); if *at >= usize::MAX / 2 { return; } j += 1; } }
                let p: *mut dyn Node = self.v[i].ptrs()[k];
                unsafe { (*p).free(); }
                let mut at: usize = 0;
                cut(&mut self.v[i].m, &mut at, k);
            },
            Cop::Warn(i, k)  => { let p: *mut dyn Node = self.v[i].ptrs()[k]; unsafe { (*p).post(node_tree::prelude::Log::Warn(&format!("w{n}"))); } self.v[i].m.at(k).warned = Some(format!("w{n}")); },
            Cop::Name(i, k)  => { let p: *mut dyn Node = self.v[i].ptrs()[k]; unsafe { (*p).set_name(&format!("n{n}")); } self.v[i].m.at(k).name = format!("n{n}"); },
            Cop::SetReg(i, k)   => { self.v[i].all(k).unwrap().reg = n.wrap();                        self.v[i].m.at(k).reg = Some(n); },
            Cop::TakeReg(i, k)  => { let a: Option<i64> = self.v[i].all(k).unwrap().reg.take(); let m: &mut M = self.v[i].m.at(k); if a != m.reg { return Err(format!("the regular field gives {a:?} instead of {:?}", m.reg)); } m.reg = None; },
            Cop::SetExp(i, k)   => { self.v[i].all(k).unwrap().exp.push_str(&n.to_string());          self.v[i].m.at(k).exp.push_str(&n.to_string()); },
            Cop::PushExpd(i, k) => { self.v[i].all(k).unwrap().expd.push(n);                          self.v[i].m.at(k).expd.push(n); },
            Cop::SetUni(i, k)   => { self.v[i].all(k).unwrap().uni = n.wrap();                        self.v[i].m.at(k).uni = Some(n); },
            Cop::TakeUni(i, k)  => { let a: Option<i64> = self.v[i].all(k).unwrap().uni.take(); let m: &mut M = self.v[i].m.at(k); if a != m.uni { return Err(format!("the unique field gives {a:?} instead of {:?}", m.uni)); } m.uni = None; },
            Cop::SetDef(i, k)   => { *self.v[i].all(k).unwrap().def = format!("d{n}");                self.v[i].m.at(k).def = format!("d{n}"); },
            Cop::Connect(i, k)  => {
                let id: usize = self.heard.len();
                self.heard.push(0); self.ears.borrow_mut().push(0);
                let ears: Rc<RefCell<Vec<i64>>> = self.ears.clone();
                unsafe { self.v[i].all(k).unwrap().on_it.connect(move |x: &i64| ears.borrow_mut()[id] += *x); }
                self.v[i].m.at(k).ears.push(id);
            },
            Cop::Emit(i, k) => {
                self.v[i].all(k).unwrap().on_it.emit(n);
                for &e in &self.v[i].m.at(k).ears { self.heard[e] += n; }
            }
        }
        Ok(())
    }

    fn check(&mut self) -> Result<(), String> {
        for i in 0..self.v.len() {
            if self.v[i].spent { continue; }
            let want: Ob = self.v[i].m.ob();
            same(&format!("number {i}"), &self.v[i].observe(), &want)?;
            let warned: Vec<Option<String>> = self.v[i].m.list().iter().map(|&m| unsafe { (*m).warned.clone() }).collect();
            for (k, p) in self.v[i].ptrs().into_iter().enumerate() {
                let got: Option<String> = match unsafe { (*p).status() } { NodeStatus::Normal => None, NodeStatus::JustWarned(x) => Some(x), NodeStatus::JustPanicked(x) => Some(format!("panic {x}")) };
                if got != warned[k] { return Err(format!("the warning of node {k} of number {i} is {got:?} instead of {:?}", warned[k])); }
            }
        }
        if *self.ears.borrow() != self.heard { return Err(format!("the listeners heard {:?} instead of {:?}", self.ears.borrow(), self.heard)); }
        Ok(())
    }

    /// Emits on every node of every copy at the end.
    fn finish(&mut self) -> Result<(), String> {
        for i in 0..self.v.len() {
            if self.v[i].spent { continue; }
            let want: Vec<bool> = self.v[i].m.list().iter().map(|&m| unsafe { !(*m).ears.is_empty() }).collect();
            let tree: bool = matches!(self.v[i].body, Body::Tree(_));
            for (k, p) in self.v[i].ptrs().into_iter().enumerate() {
                if self.v[i].all(k).is_some() { self.apply(Cop::Emit(i, k))?; }
                let n: &dyn Node = unsafe { &*p };
                if n.tree().is_some() != tree { return Err(format!("node {k} of number {i} is in a tree: {}", !tree)); }
                let _ = want[k];
            }
        }
        self.check()
    }

    fn burn(self) { for x in self.v { if let Body::Scene(s) = x.body { burn(s); } } }
}

fn copy_history(s: &Sp, ops: &[Cop], ctx: &mut Ctx) -> Res {
    let mut c: Copies = Copies::new(s);
    for op in ops { c.apply(*op)?; c.check().map_err(|e| format!("after {op:?}: {e}"))?; ctx.st.transitions += 1; }
    ctx.state_str(&c.v.iter().map(|i| if i.spent { "-".into() } else { i.m.clone().ob().show() }).collect::<Vec<_>>().join(";"));
    c.finish()?;
    ctx.st.executions += 1;
    c.burn();
    Ok(())
}

/// All histories; the menus are found by running the prefix.
fn copy_histories(ctx: &mut Ctx, s: &Sp, depth: usize, small: bool) {
    fn go(ctx: &mut Ctx, s: &Sp, pre: &mut Vec<Cop>, depth: usize, small: bool) {
        if ctx.done() { return; }
        let mut c: Copies = Copies::new(s);
        let mut ok: bool = true;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| { for op in pre.iter() { if c.apply(*op).is_err() { return false; } } true }));
        if !matches!(r, Ok(true)) { ok = false; }
        let menu: Vec<Cop> = if ok { c.menu(small) } else { vec![] };
        if ok { c.burn(); } else { std::mem::forget(c); }
        for op in menu {
            pre.push(op);
            if pre.len() == depth { let seq: Vec<Cop> = pre.clone(); ctx.case(|| format!("{} {seq:?}", s.show()), |ctx| copy_history(s, &seq, ctx)); }
            else { go(ctx, s, pre, depth, small); }
            pre.pop();
        }
    }
    go(ctx, s, &mut Vec::new(), depth, small);
}

/// A scene with every combination of field states through one chain of copies, without changes in between.
fn copy_chain(ctx: &mut Ctx, s: &Sp, voids: usize, chain: &[usize]) -> Res {
    let mut c: Copies = Copies::new(s);
    let n: usize = s.size();
    for k in 0..n {
        if c.v[0].all(k).is_none() { continue; }
        if voids >> (2 * k % 60) & 1 == 1     { c.apply(Cop::TakeReg(0, k))?; } else { c.apply(Cop::SetReg(0, k))?; }
        if voids >> (2 * k % 60 + 1) & 1 == 1 { c.apply(Cop::TakeUni(0, k))?; } else { c.apply(Cop::SetUni(0, k))?; }
        c.apply(Cop::SetDef(0, k))?; c.apply(Cop::PushExpd(0, k))?; c.apply(Cop::SetExp(0, k))?; c.apply(Cop::Connect(0, k))?;
    }
    c.check()?;
    for &x in chain {
        let i: usize = c.v.len() - 1;
        match x {
            0 => { c.apply(Cop::Clone(i))?; },
            1 => { c.apply(Cop::Load(i))?; },
            _ => { let m: usize = c.v[i].m.size(); c.apply(Cop::Tree(i))?; c.apply(Cop::Branch(i, (x - 2).min(m - 1)))?; }
        }
        c.check().map_err(|e| format!("after copying by {chain:?} (0 clone, 1 save and load, else branch at that node less two): {e}"))?;
        ctx.st.transitions += 1;
    }
    ctx.state_str(&c.v.iter().map(|i| i.m.clone().ob().show()).collect::<Vec<_>>().join(";"));
    c.finish()?;
    ctx.st.executions += 1;
    c.burn();
    Ok(())
}

/// Distinct names, so that entering a tree changes none.
fn distinct(mut s: Sp) -> Sp { let mut i: i64 = 0; s.each_mut(&mut |x| { x.name = Some(format!("{}{}", ["k", "m ", "é", "_1_"][i as usize % 4], ["", "x", "y", "z", "w", "v"][i as usize % 6])); i += 1; }); s }

pub const C16: Prop = Prop {
    meta: Meta {
        id: "C16",
        rule: "every history of cloning scenes, putting them in trees, taking branches, saving and loading, changing any field, name, connection or child of any copy, and emitting; after every step every copy is compared node by node with a model, and at the end every signal of every copy is emitted; and every chain of copies of scenes with every combination of field states",
        bounds: |t| b(t, "histories of 4 operations on single nodes, 3 on scenes up to 2 nodes; chains of 4 copies of scenes up to 3 nodes of 2 classes with all owner flags and void states; chains of up to 3 copies of scenes of up to 1100 nodes; chains of 2 copies of scenes with all pairs out of 29 names",
                         "histories of 5 operations on single nodes, 4 on scenes of 2 nodes, 3 on scenes of 3; chains of 5 copies of scenes up to 4 nodes of 2 classes with all owner flags and void states; chains of up to 3 copies of scenes of up to 600 nodes; chains of 2 copies of scenes with all pairs out of 29 names"),
        assumptions: &["node names are distinct, so that entering a tree changes none of them (that is C02)", "a listener is a closure that counts"]
    },
    body: |ctx| {
        ctx.family("chains of copies");
        for n in 1..=ctx.pick(3, 4) { for f in forms(n) { dressed(&f, 2, &mut |mut s| {
            s.each_mut(&mut |x| x.class = [3, 0][x.class as usize]);
            let s: Sp = distinct(s);
            let len: usize = ctx.pick(if n == 3 { 3 } else { 4 }, if n == 4 { 4 } else { 5 });
            let kinds: usize = 2 + n;
            let mut voids: Vec<usize> = Vec::new();
            let mut classes: Vec<u8> = Vec::new();
            s.each(&mut |x| classes.push(x.class));
            for v in 0..1 << (2 * n) { if (0..n).all(|k| classes[k] == 3 || v >> (2 * k) & 3 == 0) { voids.push(v); } }
            for (vi, &v) in voids.iter().enumerate() {
                for code in 0..kinds.pow(len as u32) {
                    // The largest scenes: every pattern of voids with the short chains, every chain with a few patterns.
                    if n >= 3 && vi > 1 && vi + 1 < voids.len() && code >= kinds * kinds { break; }
                    let chain: Vec<usize> = (0..len).map(|i| code / kinds.pow(i as u32) % kinds).collect();
                    ctx.case(|| format!("copies {chain:?} of {} with voids {v:b}", s.show()), |ctx| copy_chain(ctx, &s, v, &chain));
                }
                if ctx.done() { return; }
            }
        }); } }
        ctx.family("large scenes");
        for n in ctx.pick(vec![6usize, 9, 17, 33, 65, 130, 300, 1100], vec![5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 600, 1100]) { for form in 0..3 { for pat in 0..3usize {
            let ps: Vec<usize> = (0..n).map(|i| match form { 0 => 0, 1 => i.saturating_sub(1), _ => if i % 3 == 0 { i.saturating_sub(3) } else { i - i % 3 } }).collect();
            let mut nodes: Vec<Option<Sp>> = (0..n).map(|i| Some(Sp::leaf(if pat == 1 && i % 5 == 2 { 0 } else { 3 }, i as i64).named(&format!("{}{i}", if pat == 2 && i == n / 2 { "long ".repeat(60) } else { "n".into() })).owned([i % 2 == 0, i == n / 2, i % 7 == 3][pat]))).collect();
            for i in (1..n).rev() { let s: Sp = nodes[i].take().unwrap(); nodes[ps[i]].as_mut().unwrap().kids.insert(0, s); }
            let s: Sp = nodes[0].take().unwrap();
            let voids: usize = [0b1001_0011_1000_0110, 0, usize::MAX][pat];
            for chain in [vec![0, 1, 0], vec![1, 1], vec![2, 0, 1], vec![1, 2], vec![0, 2, 1], vec![2 + n / 2, 0, 1], vec![1, 2 + n - 1, 0]] {
                if n > 1000 && (chain.len() > 2 && chain[0] != 2 + n / 2 || pat > 0 && ctx.quick()) { continue; }
                ctx.case(|| format!("copies {chain:?} of {n} nodes in form {form}, pattern {pat}"), |ctx| copy_chain(ctx, &s, voids, &chain));
            }
        } } }
        ctx.family("names");
        const NAMES: &[&str] = &["n", "N", "n ", " n", "n  n", "n n", "\t", "a\nb", "a.b", ".", "..", "0", "00", "01", "n01", "n1", "é", "e\u{301}", "漢", "\u{0}", "'", "\"", "\\", "[x]", "# x", "True", "-1", "{}", "long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long long name"];
        for (i, a) in NAMES.iter().enumerate() { for (j, b) in NAMES.iter().enumerate() {
            if i == j { continue; }
            for shape in 0..ctx.pick(2, 3usize) {
                let leaf = |name: &str, val: i64| Sp::leaf(3, val).named(name);
                let s: Sp = match shape { 0 => leaf(a, 0).with(vec![leaf(b, 1), leaf(a, 2)]), 1 => leaf(a, 0).with(vec![leaf(b, 1).with(vec![leaf(a, 2), leaf(b, 3)])]), _ => leaf("x", 0).with(vec![leaf(a, 1), leaf(b, 2).owned(true), leaf("x", 3)]) };
                for chain in [vec![0, 2], vec![1, 0], vec![2, 1], vec![3, 0]] {
                    ctx.case(|| format!("copies {chain:?} of {}", s.show()), |ctx| copy_chain(ctx, &s, 0, &chain));
                }
            }
        } }
        ctx.family("histories");
        for (n, d) in ctx.pick(vec![(1, 4), (2, 3)], vec![(1, 5), (2, 4), (3, 3)]) { for f in forms(n) {
            let mut s: Sp = distinct(f);
            s.each_mut(&mut |x| x.class = 3);
            copy_histories(ctx, &s, d, true);
        } }
        ctx.family("changes after one copy");
        for n in 1..=ctx.pick(3, 4) { for f in forms(n) { for owners in 0..1 << n {
            let mut s: Sp = distinct(f.clone());
            let mut k: usize = 0;
            s.each_mut(&mut |x| { x.class = 3; x.owner = owners >> k & 1 == 1; k += 1; });
            for first in [vec![Cop::Clone(0)], vec![Cop::Load(0)], vec![Cop::Tree(0), Cop::Branch(0, 0)], vec![Cop::Tree(0), Cop::Branch(0, n - 1)], vec![Cop::Clone(0), Cop::Tree(0)], vec![Cop::Clone(0), Cop::Tree(1)], vec![Cop::Load(0), Cop::Tree(1)]] {
                let mut c: Copies = Copies::new(&s);
                for op in &first { if c.apply(*op).is_err() { break; } }
                let menu: Vec<Cop> = c.menu(false);
                c.burn();
                for a in &menu { for z in menu.iter().step_by(if n > 2 { 5 } else { 1 }) {
                    if matches!(a, Cop::Free(..) | Cop::Tree(_)) { continue; }
                    let mut seq: Vec<Cop> = first.clone(); seq.extend([*a, *z]);
                    if matches!(a, Cop::Branch(..) | Cop::Clone(_) | Cop::Load(_)) && matches!(z, Cop::Tree(_)) { continue; }
                    ctx.case(|| format!("{} {seq:?}", s.show()), |ctx| copy_history(&s, &seq, ctx));
                } }
                if ctx.done() { return; }
            }
        } } }
    }
};

/*
 * C17
 */

/// Records what it is given.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape { fn finish(&self) -> u64 { 0 } fn write(&mut self, bytes: &[u8]) { self.0.extend_from_slice(bytes); } }

fn tape(s: &NodeScene) -> Vec<u8> { let mut t: Tape = Tape::default(); s.hash(&mut t); t.0 }

/// Class, ownership and children of every node.
fn layout(s: &Sp) -> String { format!("{}{}({})", s.class, if s.owner { "!" } else { "" }, s.kids.iter().map(layout).collect::<Vec<_>>().join("")) }

fn table(ctx: &mut Ctx, scenes: Vec<Sp>) -> Res {
    let mut seen: HashMap<u64, String> = HashMap::new();
    let mut tapes: HashMap<Vec<u8>, String> = HashMap::new();
    for s in scenes {
        let l: String = layout(&s);
        let sc: NodeScene = s.scene();
        let h: u64 = sc.structural_hash();
        let t: Vec<u8> = tape(&sc);
        burn(sc);
        if let Some(o) = seen.insert(h, l.clone()) && o != l { return Err(format!("layouts {o} and {l} have the same structural hash").into()); }
        if let Some(o) = tapes.insert(t, l.clone()) && o != l { return Err(format!("layouts {o} and {l} hash alike under any hash function").into()); }
        ctx.st.executions += 1; ctx.st.transitions += 1;
        if seen.len() % 65536 == 0 { ctx.beat(); }
        ctx.state(h);
    }
    Ok(())
}

/// The same layout in other guises.
fn guises(ctx: &mut Ctx, s: &Sp) -> Res {
    let base: NodeScene = s.scene();
    let (h, t): (u64, Vec<u8>) = (base.structural_hash(), tape(&base));
    let mut check = |what: &str, o: &NodeScene| -> Result<(), String> {
        ctx.st.executions += 1; ctx.st.transitions += 1;
        if o.structural_hash() != h { return Err(format!("{what} changes the structural hash")); }
        if tape(o) != t { return Err(format!("{what} changes what is hashed")); }
        Ok(())
    };
    check("hashing twice", &base)?;
    let mut other: Sp = s.clone();
    let mut i: i64 = 0;
    other.each_mut(&mut |x| { i += 1; x.val = 100 + i; x.name = Some(["a", "", "漢_1", "Twin"][i as usize % 4].into()); });
    let o: NodeScene = other.scene();
    check("other names and values", &o)?;
    check("a clone", &o.clone())?;
    check("the original of a clone", &o)?;
    let text: String = o.save_to_str()?;
    check("saving", &o)?;
    let l: NodeScene = NodeScene::load_from_str(&text)?;
    check("loading", &l)?;
    check("a clone of a loaded scene", &l.clone())?;
    let l2: NodeScene = NodeScene::load_from_str(&l.clone().save_to_str()?)?;
    check("loading twice", &l2)?;
    o.update_internal(77);
    check("other ids", &o)?;
    burn(o); burn(l2);
    // Built by setting the flags afterwards, bottom-up with everything appended as the opposite first.
    fn late(s: &Sp) -> NodeScene {
        let mut sc: NodeScene = NodeScene::new_dyn(s.node());
        sc.is_owner = !s.owner;
        for k in &s.kids { let mut c: NodeScene = late(k); c.is_owner = !k.owner; if k.owner { sc.append_as_owner(c); } else { sc.append(c); } }
        sc
    }
    let mut o: NodeScene = late(s);
    o.is_owner = s.owner;
    check("another way of building", &o)?;
    burn(o);
    if s.owner {
        for (what, sc) in [("a branch", s.scene()), ("a branch of a loaded scene", l.clone()), ("a branch of a renamed scene", other.scene())] {
            let mut lab: Lab = Lab::new(sc);
            let b: NodeScene = lab.at(0).save_as_branch();
            check(what, &b)?;
            check(&format!("{what}, saved and loaded,"), &{ let t: String = b.save_to_str()?; NodeScene::load_from_str(&t)? })?;
            burn(b);
        }
        // As part of a larger tree.
        let mut lab: Lab = Lab::new(Sp::leaf(2, 0).with(vec![Sp::leaf(0, 1), Sp::leaf(1, 2)]).scene());
        lab.at(1).add_child(s.scene());
        let at: RID = pre_order(lab.tree(), 0)[2];
        let b: NodeScene = lab.node(at).save_as_branch();
        check("a branch of a larger tree", &b)?;
        burn(b);
    }
    burn(l); burn(base);
    ctx.state_str(&layout(s));
    Ok(())
}

pub const C17: Prop = Prop {
    meta: Meta {
        id: "C17",
        rule: "the hashes of all layouts within the bounds are put in one table, which must have as many entries as there are layouts, both for the default hash and for the bytes given to any hasher; every layout is then built in a dozen other guises, which must all hash the same",
        bounds: |t| b(t, "all layouts up to 5 nodes over 3 classes (two of the same name in different modules) and all owner flags, 6 nodes over 1 class and all owner flags; guises of all layouts up to 4 nodes; single differences at every position of chains and fans up to 600, and counts around 256 and 65536",
                         "all layouts up to 6 nodes over 2 classes and all owner flags, 5 over 4 classes, 7 over 1; guises of all layouts up to 5 nodes; chains and fans up to 1000"),
        assumptions: &["equal 64-bit hashes of different layouts are taken for a fault, not an accident (chance below 1e-5 for the layouts explored)"]
    },
    body: |ctx| {
        ctx.family("table of all layouts");
        let plan: Vec<(usize, usize)> = ctx.pick(vec![(4, 4), (5, 3), (6, 1)], vec![(5, 4), (6, 2), (7, 1)]);
        for (n, classes) in plan {
            ctx.case(|| format!("table of layouts up to {n} nodes over {classes} classes"), |ctx| {
                let mut all: Vec<Sp> = Vec::new();
                for k in 1..=n { for f in forms(k) { dressed(&f, classes, &mut |s| all.push(s)); } }
                table(ctx, all)
            });
        }
        ctx.family("guises");
        for n in 1..=ctx.pick(4, 5) { for f in forms(n) { dressed(&f, 3, &mut |s| ctx.case(|| format!("guises of {}", s.show()), |ctx| guises(ctx, &s))); if ctx.done() { return; } } }
        ctx.family("single differences");
        for n in ctx.pick(vec![8, 16, 17, 33, 64, 65, 130, 300, 600], vec![8, 16, 17, 32, 33, 64, 65, 100, 128, 129, 130, 256, 257, 300, 600, 1100]) {
            for fan in [false, true] { ctx.case(|| format!("single differences in a {} of {n}", if fan { "fan" } else { "chain" }), |ctx| {
                let make = |odd: usize, how: usize| -> Sp {
                    let node = |i: usize| if i != odd { Sp::leaf(0, 0) } else { match how { 0 => Sp::leaf(1, 0), 1 => Sp::leaf(0, 0).owned(true), 2 => Sp::leaf(0, 0).with(vec![Sp::leaf(0, 0)]), _ => Sp::leaf(2, 0).owned(true) } };
                    if fan { let mut s: Sp = node(0); let first: Vec<Sp> = (1..n).map(node).collect(); s.kids.extend(first); return s; }
                    let mut s: Sp = node(n - 1);
                    for i in (0..n - 1).rev() { let mut t: Sp = node(i); t.kids.insert(0, s); s = t; }
                    s
                };
                let mut all: Vec<Sp> = vec![make(usize::MAX, 0)];
                for i in 0..n { for how in 0..4 { if how == 2 && i + 1 == n && !fan { continue; } all.push(make(i, how)); } }
                table(ctx, all)
            }); }
        }
        ctx.case(|| "the same nodes under one parent or another".into(), |ctx| {
            let mut all: Vec<Sp> = Vec::new();
            for k in ctx.pick(vec![1, 2, 127, 128, 255, 256, 257, 512, 65535, 65536, 65537], vec![1, 2, 3, 127, 128, 129, 255, 256, 257, 511, 512, 65535, 65536, 65537, 131072]) {
                let kids = || (0..k).map(|_| Sp::leaf(0, 0)).collect::<Vec<Sp>>();
                all.push(Sp::leaf(0, 0).with(vec![Sp::leaf(0, 0).with(kids())]));
                let mut v: Vec<Sp> = vec![Sp::leaf(0, 0)]; v.extend(kids());
                all.push(Sp::leaf(0, 0).with(v));
                let mut v: Vec<Sp> = vec![Sp::leaf(0, 0).with(kids())]; v.extend(kids());
                all.push(Sp::leaf(0, 0).with(v));
                all.push(Sp::leaf(0, 0).with(kids()));
            }
            let mut seen: Vec<String> = Vec::new();
            all.retain(|s| { let l: String = layout(s); if seen.contains(&l) { false } else { seen.push(l); true } });
            table(ctx, all)
        });
    }
};
