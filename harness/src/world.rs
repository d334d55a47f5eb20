//! Scripted node classes, the reference model of a tree, and the monitors that compare the two.
//!
//! Every hook of the node classes below reports to the `World` of the case being run. The world keeps a
//! reference model of the tree, which is updated by the operations applied (additions when they begin,
//! removals when they end), compares the real tree with it at every hook and after every operation, and
//! judges the order and number of the hooks. A script can attach operations to any occurrence of any hook.

use std::cell::Cell;
use std::collections::{ HashMap, HashSet };
use std::rc::Rc;

use node_tree::prelude::*;
use node_tree::structs::node_tree_base::NodeIdentity;
use node_tree::trees::tree_simple::TreeSimple;
use node_tree::structs::node_base::NodeStatus;
use node_tree::utils::functions::draw_tree;
use toml_edit::Value;

use crate::sys;

pub type Tg = u32;

/// Singleton names that are looked up; one is a name that nodes bear.
pub const NAMES: &[&str] = &["a", "b", "A", "N0", " a"];

/*
 * Tags
 */

/// Identifies a node instance and counts how many live instances of it there are.
#[derive(Debug)]
pub struct Tag { pub id: Tg, epoch: u32 }

thread_local! {
    static EPOCH: Cell<u32> = const { Cell::new(0) };
    static LIVE:  std::cell::RefCell<Vec<i32>> = const { std::cell::RefCell::new(Vec::new()) };
    static WORLD: Cell<*mut World> = const { Cell::new(std::ptr::null_mut()) };
    static DOCS:  std::cell::RefCell<HashMap<String, String>> = std::cell::RefCell::new(HashMap::new());
}

fn count(id: Tg, epoch: u32, by: i32) {
    if epoch == 0 || epoch != EPOCH.get() { return; }
    let _ = LIVE.try_with(|l| {
        let mut l = l.borrow_mut();
        if l.len() <= id as usize { l.resize(id as usize + 8, 0); }
        l[id as usize] += by;
    });
}

pub fn live(id: Tg) -> i32 { LIVE.with(|l| l.borrow().get(id as usize).copied().unwrap_or(0)) }

impl Tag {
    pub fn new(id: Tg) -> Tag { let epoch: u32 = EPOCH.get(); count(id, epoch, 1); Tag { id, epoch } }
}
impl Clone for Tag { fn clone(&self) -> Tag { Tag::new(self.id) } }
impl Drop  for Tag { fn drop(&mut self) { count(self.id, self.epoch, -1); } }
impl Default for Tag { fn default() -> Tag { Tag::new(0) } }
impl Exportable for Tag {
    fn to_value(&self) -> Value { Value::from(self.id as i64) }
    fn from_value(value: Value) -> Option<Self> { value.as_integer().map(|i| Tag::new(i as Tg)) }
}

/*
 * Classes
 */

macro_rules! scripted {
    ($($name:ident $([$($mode:tt)*])?),*) => {$(
        class! {
            pub declare $name;
            pub export let tag: Tag;

            hk _init(id: u32) { let tag: Tag = Tag::new(id); }
            hk loaded(&mut self)                               { hook(self.tag.id, K::Loaded,   Arg::None, self.tree_ptr()); }
            hk ready(&mut self)                                { hook(self.tag.id, K::Ready,    Arg::None, self.tree_ptr()); }
            hk process(&mut self, delta: f32)                  { hook(self.tag.id, K::Process,  Arg::Delta(delta), self.tree_ptr()); }
            hk terminal(&mut self, reason: TerminationReason)  { hook(self.tag.id, K::Terminal, Arg::Reason(reason), self.tree_ptr()); }
            $($($mode)*)?

            fn tree_ptr(&self) -> Option<*mut dyn NodeTree> { self.tree_mut().map(|t| t as *mut dyn NodeTree) }
        }
    )*};
}

scripted!(N0 [hk process_mode(&self) -> ProcessMode { mode_of(self.tag.id) }], N1 [hk process_mode(&self) -> ProcessMode { mode_of(self.tag.id) }], N2 [hk process_mode(&self) -> ProcessMode { mode_of(self.tag.id) }], N3);

pub fn tag_of(node: &dyn Node) -> Tg {
    let any: &dyn std::any::Any = node.as_any_ref();
    if let Some(n) = any.downcast_ref::<N0>() { return n.tag.id; }
    if let Some(n) = any.downcast_ref::<N1>() { return n.tag.id; }
    if let Some(n) = any.downcast_ref::<N2>() { return n.tag.id; }
    if let Some(n) = any.downcast_ref::<N3>() { return n.tag.id; }
    u32::MAX
}

pub fn class_of(node: &dyn Node) -> u8 {
    let any: &dyn std::any::Any = node.as_any_ref();
    if any.is::<N0>() { 0 } else if any.is::<N1>() { 1 } else if any.is::<N2>() { 2 } else if any.is::<N3>() { 3 } else { 255 }
}

/*
 * Specifications of nodes and scenes
 */

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Spec { pub tag: Tg, pub class: u8, pub name: Option<String>, pub owner: bool, pub disk: bool, pub mode: u8, pub via: Via, pub kids: Vec<Spec> }

/// How a scene is come by: built, cloned from one that was built, or taken as a branch of another tree.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, Hash)]
pub enum Via { #[default] Built, Cloned, Branch }

impl Spec {
    pub fn leaf(tag: Tg) -> Spec { Spec { tag, class: 0, name: None, owner: false, disk: false, mode: 0, via: Via::Built, kids: Vec::new() } }
    pub fn owned(mut self, owner: bool) -> Spec { self.owner = owner; self }
    pub fn with(mut self, kids: Vec<Spec>) -> Spec { self.kids = kids; self }
    pub fn class(mut self, c: u8) -> Spec { self.class = c; self }
    pub fn named(mut self, n: &str) -> Spec { self.name = Some(n.into()); self }
    pub fn disk(mut self, d: bool) -> Spec { self.disk = d; self }
    pub fn via(mut self, v: Via) -> Spec { self.via = v; self }
    pub fn all_disk(mut self) -> Spec { self.each_mut(&mut |s| s.disk = true); self }

    fn is_all_disk(&self) -> bool { self.disk && self.kids.iter().all(|k| k.is_all_disk()) }

    pub fn each<'a>(&'a self, f: &mut dyn FnMut(&'a Spec)) { f(self); for k in &self.kids { k.each(f); } }
    pub fn each_mut(&mut self, f: &mut dyn FnMut(&mut Spec)) { f(self); for k in &mut self.kids { k.each_mut(f); } }
    pub fn tags(&self) -> Vec<Tg> { let mut v: Vec<Tg> = Vec::new(); self.each(&mut |s| v.push(s.tag)); v }
    pub fn size(&self) -> usize { self.tags().len() }

    /// The name that the node asks for.
    pub fn request(&self) -> String { self.name.clone().unwrap_or_else(|| ["N0", "N1", "N2", "N3"][self.class as usize].to_string()) }

    pub fn node(&self) -> Box<dyn Node> {
        let mut n: Box<dyn Node> = match self.class { 0 => N0::new(self.tag).to_dyn_box(), 1 => N1::new(self.tag).to_dyn_box(), 3 => N3::new(self.tag).to_dyn_box(), _ => N2::new(self.tag).to_dyn_box() };
        if let Some(name) = &self.name { n.set_name(name); }
        n
    }

    /// Builds the scene; parts that come from disk are loaded from a document.
    pub fn scene(&self) -> NodeScene {
        if self.via != Via::Built {
            // The original is not counted among the live instances.
            let epoch: u32 = EPOCH.replace(0);
            let orig: NodeScene = self.clone().via(Via::Built).scene();
            if self.via == Via::Cloned { EPOCH.set(epoch); return orig.clone(); }
            let w: *mut World = WORLD.replace(std::ptr::null_mut());
            let other: Box<TreeSimple> = TreeSimple::new(orig, LoggerVerbosity::OnlyPanics);
            EPOCH.set(epoch);
            let branch: NodeScene = other.root().save_as_branch();
            EPOCH.set(0);
            let mut lab: crate::lab::Lab = crate::lab::Lab(other);
            lab.0.process();
            drop(lab);
            EPOCH.set(epoch);
            WORLD.set(w);
            return branch;
        }
        if self.disk {
            let mut loaded: Spec = self.clone();
            let whole: usize = self.kids.iter().take_while(|k| k.is_all_disk()).count();
            loaded.kids.truncate(whole);
            let doc: String = DOCS.with(|d| d.borrow().get(&format!("{loaded:?}")).cloned()).unwrap_or_else(|| {
                let key: String = format!("{loaded:?}");
                let mut plain: Spec = loaded.clone();
                plain.each_mut(&mut |s| s.disk = false);
                let epoch: u32 = EPOCH.replace(0);
                let doc: String = plain.scene().save_to_str().expect("saving");
                EPOCH.set(epoch);
                DOCS.with(|d| { let mut d = d.borrow_mut(); if d.len() > 20_000 { d.clear(); } d.insert(key, doc.clone()); });
                doc
            });
            let mut s: NodeScene = NodeScene::load_from_str(&doc).expect("loading");
            for k in &self.kids[whole..] { k.append_to(&mut s); }
            return s;
        }
        let mut s: NodeScene = NodeScene::new_dyn(self.node());
        s.is_owner = self.owner;
        for k in &self.kids { k.append_to(&mut s); }
        s
    }

    /// Appending decides about the ownership, whatever the scene said before.
    fn append_to(&self, s: &mut NodeScene) {
        let mut k: NodeScene = self.scene();
        if self.tag % 2 == 1 { k.is_owner = !k.is_owner; }
        if self.owner { s.append_as_owner(k) } else { s.append(k) }
    }

    pub fn show(&self) -> String {
        let mut s: String = format!("{}", self.tag);
        if self.class != 0 { s += &format!("c{}", self.class); }
        if let Some(n) = &self.name { s += &format!("{n:?}"); }
        if self.owner { s.push('o'); }
        if self.disk { s.push('d'); }
        if self.via != Via::Built { s += &format!("{:?}", self.via); }
        if self.mode != 0 { s.push(['i', 'A', 'P', 'V'][self.mode as usize]); }
        if !self.kids.is_empty() { s += &format!("[{}]", self.kids.iter().map(|k| k.show()).collect::<Vec<_>>().join(" ")); }
        s
    }
}

/*
 * Operations
 */

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K { Loaded, Ready, Process, Terminal }

#[derive(Clone, Copy, Debug)]
pub enum Arg { None, Delta(f32), Reason(TerminationReason) }

/// How something is added.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Form { Node, Scene, Ptr }

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Act {
    Free(Tg), Remove(Tg), RemoveMissing(Tg), Add(Tg, Form, Rc<Spec>), Rename(Tg, &'static str),
    Queue, Terminate, Pause, Unpause, Warn(Tg), Panic(Tg), Info(Tg), Sleep(u64), Name(Tg, &'static str), Post(Tg, u8, &'static str), Mode(Tg, u8),
    Stale(Tg, Tg, u8)   // a node gets a pointer to another one, frees that, and uses the pointer
}

impl Act {
    pub fn show(&self) -> String {
        match self {
            Act::Add(p, f, s) => format!("Add{f:?}({p} <- {})", s.show()),
            a => format!("{a:?}")
        }
    }
}

#[derive(Clone, Debug)]
pub enum Step { Do(Act), Frame(u64) }

impl Step { pub fn show(&self) -> String { match self { Step::Do(a) => a.show(), Step::Frame(n) => format!("Frame(+{n}ns)") } } }

/// An operation attached to the `occ`-th occurrence of a hook of a node.
#[derive(Clone, Debug)]
pub struct Dev { pub k: K, pub tag: Tg, pub occ: u32, pub act: Act }

impl Dev { pub fn show(&self) -> String { format!("{:?}({})#{} => {}", self.k, self.tag, self.occ, self.act.show()) } }

/*
 * Model
 */

#[derive(Clone, Debug, Default)]
pub struct MNode {
    pub known: bool, pub in_tree: bool, pub parent: Option<Tg>, pub kids: Vec<Tg>, pub owner: Tg, pub depth: usize, pub class: u8, pub disk: bool, pub mode: u8,
    pub request: String, pub name: Option<String>, pub rid: Option<RID>, pub stat: Option<(bool, String)>,
    pub ready: u32, pub loaded: u32, pub term: u32, pub frame: u32,
    pub doomed_add: bool,   // was added below a branch that was being removed
    pub doubled: bool       // its removal was requested again during its removal
}

#[derive(Clone, Copy)]
pub struct Brief { in_tree: bool, parent: Option<Tg>, owner: Tg, depth: usize, disk: bool, rid: Option<RID>, ready: u32, loaded: u32, term: u32, doomed_add: bool, doubled: bool }

impl MNode {
    pub fn brief(&self) -> Brief {
        Brief { in_tree: self.in_tree, parent: self.parent, owner: self.owner, depth: self.depth, disk: self.disk, rid: self.rid, ready: self.ready, loaded: self.loaded, term: self.term, doomed_add: self.doomed_add, doubled: self.doubled }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Model { pub n: Vec<MNode>, pub root: Option<Tg> }

impl Model {
    pub fn get(&self, t: Tg) -> Option<&MNode> { self.n.get(t as usize).filter(|n| n.known) }
    pub fn has(&self, t: Tg) -> bool { self.n.get(t as usize).is_some_and(|n| n.in_tree) }
    pub fn at(&mut self, t: Tg) -> &mut MNode { &mut self.n[t as usize] }

    pub fn add(&mut self, spec: &Spec, parent: Option<Tg>, form: Form) {
        self.add_tail(spec, parent, if form == Form::Node { false } else { spec.owner });
    }

    fn add_tail(&mut self, spec: &Spec, parent: Option<Tg>, owner: bool) {
        if self.n.len() <= spec.tag as usize { self.n.resize(spec.tag as usize + 1, MNode::default()); }
        assert!(!self.n[spec.tag as usize].known, "tag {} used twice", spec.tag);
        let (own, depth): (Tg, usize) = match parent {
            None    => { self.root = Some(spec.tag); (spec.tag, 0) },
            Some(p) => { self.n[p as usize].kids.push(spec.tag); (if owner { spec.tag } else { self.n[p as usize].owner }, self.n[p as usize].depth + 1) }
        };
        self.n[spec.tag as usize] = MNode {
            known: true, in_tree: true, parent, owner: own, depth, class: spec.class, disk: spec.disk, mode: spec.mode, request: spec.request(), ..MNode::default()
        };
        for k in &spec.kids { self.add_tail(k, Some(spec.tag), k.owner); }
    }

    pub fn remove(&mut self, t: Tg) {
        if !self.has(t) { return; }
        match self.n[t as usize].parent {
            Some(p) => self.n[p as usize].kids.retain(|&k| k != t),
            None    => self.root = None
        }
        for x in self.pre_order(t) { self.n[x as usize].in_tree = false; }
    }

    pub fn pre_order(&self, t: Tg) -> Vec<Tg> {
        let mut out: Vec<Tg> = Vec::new();
        let mut stack: Vec<Tg> = vec![t];
        while let Some(x) = stack.pop() { out.push(x); stack.extend(self.n[x as usize].kids.iter().rev()); }
        out
    }

    pub fn layers(&self, t: Tg) -> Vec<Tg> {
        let mut out: Vec<Tg> = vec![t];
        let mut i: usize = 0;
        while i < out.len() { let k: Vec<Tg> = self.n[out[i] as usize].kids.clone(); out.extend(k); i += 1; }
        out
    }

    pub fn all(&self) -> Vec<Tg> { self.root.map(|r| self.pre_order(r)).unwrap_or_default() }

    pub fn is_below(&self, mut t: Tg, top: Tg) -> bool {
        loop { if t == top { return true; } match self.n[t as usize].parent { Some(p) => t = p, None => return false } }
    }

    /// 1: Always, 2: Pausable, 3: Inverse
    pub fn mode(&self, t: Tg) -> u8 {
        match self.n[t as usize].mode {
            0 => match self.n[t as usize].parent { Some(p) => self.mode(p), None => 2 },
            m => m
        }
    }

    pub fn canon(&self) -> String {
        fn tail(m: &Model, t: Tg, s: &mut String) {
            let n: &MNode = &m.n[t as usize];
            s.push((b'a' + n.class) as char);
            if n.owner == t { s.push('o'); }
            if n.mode != 0 { s.push((b'0' + n.mode) as char); }
            s.push('(');
            for &k in &n.kids { tail(m, k, s); }
            s.push(')');
        }
        let mut s: String = String::new();
        if let Some(r) = self.root { tail(self, r, &mut s); }
        s
    }
}

/*
 * World
 */

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Cat { Struct, Mem, Start, Term, Order, Mode, Delta, Life, Owner, Name, Rid, Status, Path, Ptr, Single, Log }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum St { Running, Paused, QueuedRunning, QueuedPaused, Terminating, Terminated }

struct AddCtx { nodes: Vec<Tg>, loaded: Option<Tg> }
struct RemCtx { top: Tg, members: Vec<Tg>, reason: TerminationReason }
struct FrameCtx { list: Rc<Vec<Tg>>, at: usize, delta: f32, first: Option<f32>, exit: bool, exited: Vec<Tg> }

pub struct World {
    pub tree:    Option<*mut dyn NodeTree>,
    owned:       Option<Box<TreeSimple>>,
    pub model:   Model,
    pub devs:    Vec<Dev>,
    occ:         HashMap<(K, Tg), u32>,
    pub points:  Vec<(K, Tg, u32)>,
    pub errs:    Vec<(Cat, String)>,
    pub status:  St,
    adds:        Vec<AddCtx>,
    rems:        Vec<RemCtx>,
    frame:       Option<FrameCtx>,
    frame_no:    u32,
    last_frame:  u64,
    clock:       u64,
    pub acts:    u64,
    pub hooks:   u64,
    pub events:  Vec<String>,
    pub record:  bool,
    pub snap:    bool,
    pub record_warnings: bool,
    names:       HashMap<&'static str, Tg>,
    ids:         HashMap<RID, Tg>,      // every id ever given out
    least:       u8,           // lowest level that is logged
    posted:      bool,
    log_seen:    usize,
    header:      String,
    footer:      String,
    stale:       Vec<String>,  // what is no longer the header or footer
    now:         String,
    now_quiet:   bool,
    turn:        Option<Tg>
}

fn world() -> Option<&'static mut World> { let p: *mut World = WORLD.get(); if p.is_null() { None } else { Some(unsafe { &mut *p }) } }

fn mode_of(tag: Tg) -> ProcessMode {
    match world().and_then(|w| w.model.get(tag)).map(|n| n.mode).unwrap_or(0) { 0 => ProcessMode::Inherit, 1 => ProcessMode::Always, 2 => ProcessMode::Pausable, _ => ProcessMode::Inverse }
}

fn hook(tag: Tg, k: K, arg: Arg, tree: Option<*mut dyn NodeTree>) {
    if let Some(w) = world() { w.on_hook(tag, k, arg, tree); }
}

impl World {
    /// Starts a world and creates its tree. The world must stay where it is (hence the box).
    pub fn start(root: &Spec, form: Form, devs: &[Dev], verbosity: LoggerVerbosity) -> Box<World> {
        World::start_with(root, form, devs, verbosity, false, true)
    }

    pub fn start_with(root: &Spec, form: Form, devs: &[Dev], verbosity: LoggerVerbosity, record: bool, snap: bool) -> Box<World> {
        EPOCH.set(EPOCH.get().wrapping_add(1).max(1));
        LIVE.with(|l| l.borrow_mut().clear());
        let clock: u64 = 1_000_000_000_000;
        sys::set_clock(clock);
        let mut w: Box<World> = Box::new(World {
            tree: None, owned: None, model: Model::default(), devs: devs.to_vec(), occ: HashMap::new(), points: Vec::new(), errs: Vec::new(), status: St::Running,
            adds: Vec::new(), rems: Vec::new(), frame: None, frame_no: 0, last_frame: clock, clock, acts: 0, hooks: 0, events: Vec::new(), record, snap, record_warnings: !matches!(verbosity, LoggerVerbosity::OnlyPanics), now: String::new(), now_quiet: false, turn: None, names: HashMap::new(), ids: HashMap::new(),
            least: match verbosity { LoggerVerbosity::All => 0, LoggerVerbosity::NoDebug => 1, LoggerVerbosity::OnlyIssues => 2, LoggerVerbosity::OnlyPanics => 3 }, posted: false, log_seen: 0, header: String::new(), footer: String::new(), stale: Vec::new()
        });
        WORLD.set(&mut *w);
        w.model.add(root, None, form);
        w.adds.push(AddCtx { nodes: root.tags(), loaded: None });
        if w.record { w.note(format!("create {}", root.show())); }
        let mut tree: Box<TreeSimple> = match form {
            Form::Scene => TreeSimple::new(root.scene(), verbosity),
            _ => match root.class { 0 => TreeSimple::new(named(N0::new(root.tag), root), verbosity), 1 => TreeSimple::new(named(N1::new(root.tag), root), verbosity), 3 => TreeSimple::new(named(N3::new(root.tag), root), verbosity), _ => TreeSimple::new(named(N2::new(root.tag), root), verbosity) }
        };
        w.tree  = Some(tree.as_dyn_raw_mut());
        w.owned = Some(tree);
        w.end_add();
        w.log_seen = w.tree().get_log().len();
        w.quiescent();
        w
    }

    fn note(&mut self, s: String) { self.events.push(s); }

    /// The run goes on after an error, since it may be of no concern to the property being decided.
    pub fn err(&mut self, c: Cat, s: String) { if self.errs.iter().filter(|e| e.0 == c).count() < 6 { let s: String = if self.now.is_empty() { s } else { format!("{s} (at {})", self.now) }; self.errs.push((c, s)); } }

    pub fn tree(&self) -> &'static mut dyn NodeTree { unsafe { &mut *self.tree.expect("tree") } }

    /// The real node of that tag, found by the id it was seen with.
    pub fn real(&self, t: Tg) -> Option<&'static mut dyn Node> {
        let rid: RID = self.model.get(t)?.rid?;
        self.tree().get_node_mut(rid)
    }

    /*
     * Comparison
     */

    /// Compares the real tree with the model.
    pub fn compare(&mut self, also: Option<Cat>) {
        let before: usize = self.errs.len();
        self.compare_tail();
        if let Some(c) = also && self.errs.len() > before {
            let relevant: &[Cat] = if c == Cat::Start { &[Cat::Struct, Cat::Rid, Cat::Name, Cat::Owner] } else { &[Cat::Struct, Cat::Rid] };
            let m: Vec<String> = self.errs[before..].iter().filter(|e| relevant.contains(&e.0)).map(|e| e.1.clone()).collect();
            for e in m { self.err(c, e); }
        }
    }

    fn compare_tail(&mut self) {
        let full: bool = self.now_quiet;
        if self.tree.is_none() { return; }
        let tree: &'static mut dyn NodeTree = self.tree();
        let mut rids:  Vec<RID>  = Vec::new();
        let mut names: Vec<&str> = Vec::new();
        if let Some(r) = self.model.root {
            let root: &dyn Node = match self.model.n[r as usize].rid { Some(rid) => match tree.get_node(rid) { Some(n) => n, None => { self.err(Cat::Struct, "the root is gone".into()); return; } }, None => tree.root() };
            if !std::ptr::eq(root as *const dyn Node as *const u8, tree.root() as *const dyn Node as *const u8) { self.err(Cat::Struct, "root() is not the root".into()); }
            let mut stack: Vec<(Tg, RID)> = vec![(r, root.rid())];
            while let Some((t, rid)) = stack.pop() {
                let Some(node) = tree.get_node(rid) else { self.err(Cat::Struct, format!("node {t} is listed but unknown to the tree")); continue };
                if tag_of(node) != t { self.err(Cat::Struct, format!("expected node {t} but found node {}", tag_of(node))); continue; }
                rids.push(rid);
                if rids.len() > self.model.n.len() { self.err(Cat::Struct, "the tree has more nodes than were ever added".into()); return; }
                let m: Brief = self.model.n[t as usize].brief();
                match m.rid { None => self.give(t, rid), Some(x) => if x != rid { self.err(Cat::Rid, format!("id of node {t} changed from {x} to {rid}")); } }
                if node.rid() != rid { self.err(Cat::Rid, format!("node {t} with id {rid} reports id {}", node.rid())); }
                if !node.in_tree() || node.is_stray() { self.err(Cat::Struct, format!("node {t} says it is not in the tree")); continue; }
                if node.depth() != m.depth { self.err(Cat::Struct, format!("node {t} has depth {} instead of {}", node.depth(), m.depth)); }
                if node.is_root() != m.parent.is_none() { self.err(Cat::Struct, format!("is_root() of node {t} is {}", node.is_root())); }
                let parent: Option<RID> = node.parent_dyn().to_option().map(|p| p.rid());
                let want: Option<RID> = m.parent.and_then(|p| self.model.n[p as usize].rid);
                if parent != want { self.err(Cat::Struct, format!("node {t} names {parent:?} as its parent instead of {want:?}")); }

                let owner: Tg = tag_of(&*node.owner_dyn() as &dyn Node);
                if owner != m.owner { self.err(Cat::Owner, format!("node {t} has owner {owner} instead of {}", m.owner)); }
                if node.is_owner() != (m.owner == t) { self.err(Cat::Owner, format!("is_owner() of node {t} is {}", node.is_owner())); }

                let name: &str = node.name();
                match &self.model.n[t as usize].name {
                    Some(n) => if n != name { let n: String = n.clone(); self.err(Cat::Name, format!("the name of node {t} changed from {n:?} to {name:?}")); },
                    None    => {
                        let req: &String = &self.model.n[t as usize].request;
                        let ok: bool = name == req || name.strip_prefix(req.trim_end_matches(|c: char| c.is_ascii_digit())).is_some_and(|r| r.chars().all(|c| c.is_ascii_digit()));
                        if !ok { self.err(Cat::Name, format!("node {t} asked for name {:?} and got {name:?}", self.model.n[t as usize].request)); }
                        self.model.n[t as usize].name = Some(name.to_string());
                    }
                }

                let kids: Vec<RID> = node.children().iter().map(|c| c.rid()).collect();
                let same: bool = kids.len() == self.model.n[t as usize].kids.len() && kids.iter().zip(&self.model.n[t as usize].kids).all(|(&k, &w)| tree.get_node(k).is_some_and(|n| tag_of(n) == w));
                if !same || full && (node.num_children() != kids.len() || node.childless() != kids.is_empty()) {
                    let tags: Vec<Tg> = kids.iter().map(|&k| tree.get_node(k).map(tag_of).unwrap_or(u32::MAX)).collect();
                    let want: Vec<Tg> = self.model.n[t as usize].kids.clone();
                    self.err(Cat::Struct, format!("children of node {t} are {tags:?} instead of {want:?}"));
                    continue;
                }
                names.clear();
                for (i, &k) in kids.iter().enumerate() {
                    if let Some(kid) = tree.get_node(k) { names.push(kid.name()); }
                    if full && (i < 12 || i + 2 > kids.len()) && node.get_child_dyn(i).to_option().map(|c| c.rid()) != Some(k) { self.err(Cat::Struct, format!("child {i} of node {t} is wrong")); }
                    stack.push((self.model.n[t as usize].kids[i], k));
                }
                names.sort_unstable();
                if let Some(w) = names.windows(2).find(|w| w[0] == w[1]) { self.err(Cat::Name, format!("two children of node {t} are called {:?}", w[0])); }
            }
            rids.sort_unstable();
            if let Some(w) = rids.windows(2).find(|w| w[0] == w[1]) { self.err(Cat::Rid, format!("two nodes with id {}", w[0])); }
        }
        for t in 0..self.model.n.len() {
            let n: &MNode = &self.model.n[t];
            if n.known && !n.in_tree && let Some(rid) = n.rid && tree.get_node(rid).is_some() { self.err(Cat::Struct, format!("node {t} has left but its id {rid} still leads to a node")); }
        }
    }

    /// The node was seen with that id for the first time.
    fn give(&mut self, t: Tg, rid: RID) {
        self.model.n[t as usize].rid = Some(rid);
        if let Some(x) = self.ids.insert(rid, t) { self.err(Cat::Rid, format!("node {t} has the id {rid}, which node {x} had")); }
    }

    /// Checks made when no operation is going on.
    pub fn quiescent(&mut self) {
        if self.tree.is_none() { return; }
        self.now_quiet = true;
        self.compare(None);
        self.now_quiet = false;
        for t in 0..self.model.n.len() {
            if !self.model.n[t].known { continue; }
            let (want, l): (i32, i32) = (self.model.n[t].in_tree as i32, live(t as Tg));
            if l != want { self.err(Cat::Mem, format!("there are {l} instances of node {t} in memory instead of {want}")); }
        }
        if !self.names.is_empty() { self.names.retain(|_, t| self.model.n[*t as usize].in_tree); self.check_names(); }
        for t in self.model.all() {
            let want: Vec<Tg> = self.model.layers(t);
            let Some(node) = self.real(t) else { continue };
            let tree: &'static mut dyn NodeTree = self.tree();
            for incl in [true, false] {
                let got: Vec<Tg> = node.top_down(incl).into_iter().map(|r| tree.get_node(r).map(tag_of).unwrap_or(u32::MAX)).collect();
                if got != want[(!incl) as usize..] { self.err(Cat::Struct, format!("top-down listing of node {t} is {got:?} instead of {:?}", &want[(!incl) as usize..])); }
            }
        }
    }

    /*
     * Hooks
     */

    fn on_hook(&mut self, tag: Tg, k: K, arg: Arg, tree: Option<*mut dyn NodeTree>) {
        self.hooks += 1;
        if self.hooks > 200_000 { panic!("too many hooks"); }
        if self.record { self.note(format!("{k:?}({tag}) {arg:?}")); }
        if self.tree.is_none() { self.tree = tree; }
        if self.model.get(tag).is_none() { self.err(Cat::Struct, format!("{k:?} of an unknown node {tag}")); return; }
        let occ: u32 = { let o: &mut u32 = self.occ.entry((k, tag)).or_insert(0); *o += 1; *o };
        let was: String = if self.record { std::mem::replace(&mut self.now, format!("{k:?}({tag})")) } else { String::new() };
        if !self.model.has(tag) {
            self.err(Cat::Term, format!("{k:?} of node {tag} runs after it has left the tree"));
            self.err(Cat::Struct, format!("{k:?} of node {tag} runs after it has left the tree"));
            self.now = was;
            return;
        }
        self.points.push((k, tag, occ));
        if self.snap {
            let also: Option<Cat> = match k { K::Loaded | K::Ready => Some(Cat::Start), K::Terminal => if matches!(arg, Arg::Reason(TerminationReason::TreeExit)) { None } else { Some(Cat::Term) }, K::Process => None };
            self.compare(also);
        }
        if !self.names.is_empty() { self.check_names(); }
        self.check_stats();
        match (k, arg) {
            (K::Loaded, _)                  => self.on_start(tag, true),
            (K::Ready, _)                   => self.on_start(tag, false),
            (K::Process, Arg::Delta(d))     => self.on_process(tag, d),
            (K::Terminal, Arg::Reason(r))   => self.on_terminal(tag, r),
            _                               => ()
        }
        // From here on the node may be freed by the acts.
        if !self.devs.is_empty() {
            let acts: Vec<Act> = self.devs.iter().filter(|d| d.k == k && d.tag == tag && d.occ == occ).map(|d| d.act.clone()).collect();
            self.turn = if k == K::Process { Some(tag) } else { None };
            for a in acts { self.act(&a); }
            self.turn = None;
        }
        self.now = was;
        if k == K::Loaded && let Some(c) = self.adds.last_mut() { c.loaded = Some(tag); }
    }

    fn on_start(&mut self, t: Tg, is_loaded: bool) {
        let what: &str = if is_loaded { "loaded" } else { "ready" };
        let n: Brief = self.model.n[t as usize].brief();
        let Some(c) = self.adds.last() else { self.err(Cat::Start, format!("{what} of node {t} runs although nothing is being added")); return };
        if !c.nodes.contains(&t) { self.err(Cat::Start, format!("{what} of node {t} runs although it is not being added")); return; }
        let pending: Option<Tg> = c.loaded;
        let members: Vec<Tg> = c.nodes.clone();
        if let Some(p) = pending && p != t && self.model.has(p) && self.model.n[p as usize].ready == 0 { self.err(Cat::Start, format!("{what} of node {t} runs between loaded and ready of node {p}")); }
        if is_loaded {
            if !n.disk       { self.err(Cat::Start, format!("loaded runs on node {t}, which does not come from disk")); }
            if n.loaded != 0 { self.err(Cat::Start, format!("loaded runs again on node {t}")); }
            if self.real(t).is_some_and(|n| !n.has_just_loaded()) { self.err(Cat::Start, format!("loaded runs on node {t}, which does not count as just loaded")); }
            if n.ready  != 0 { self.err(Cat::Start, format!("loaded runs after ready on node {t}")); }
            self.model.at(t).loaded += 1;
        } else {
            if n.ready != 0 { self.err(Cat::Start, format!("ready runs again on node {t}")); }
            if n.disk && (n.loaded != 1 || pending != Some(t)) { self.err(Cat::Start, format!("ready of node {t}, which comes from disk, is not directly preceded by loaded")); }
            self.model.at(t).ready += 1;
        }
        for d in self.model.pre_order(t) {
            if d != t && members.contains(&d) && self.model.n[d as usize].ready == 0 { self.err(Cat::Start, format!("{what} of node {t} runs before ready of its descendant {d}")); }
        }
        if let Some(c) = self.adds.last_mut() { c.loaded = None; }
    }

    fn end_add(&mut self) {
        let Some(c) = self.adds.pop() else { return };
        for t in c.nodes {
            let n: Brief = self.model.n[t as usize].brief();
            if n.in_tree && n.ready != 1 { self.err(Cat::Start, format!("ready ran {} times on node {t}", n.ready)); }
            if n.in_tree && n.loaded != n.disk as u32 { self.err(Cat::Start, format!("loaded ran {} times on node {t}", n.loaded)); }
            if n.in_tree && n.ready == 1 && self.real(t).is_some_and(|n| n.has_just_loaded()) { self.err(Cat::Start, format!("node {t} has been started and still counts as just loaded")); }
        }
    }

    fn runs(&self, t: Tg) -> bool {
        match (self.model.mode(t), self.status) {
            (1, _) => true,
            (2, St::Running | St::QueuedRunning) => true,
            (3, St::Paused  | St::QueuedPaused)  => true,
            _ => false
        }
    }

    /// Passes the nodes whose turns come before that of `upto` (or all of them).
    fn pass(&mut self, upto: Option<usize>) {
        let Some(f) = &self.frame else { return };
        let (mut at, list): (usize, Rc<Vec<Tg>>) = (f.at, f.list.clone());
        while at < upto.unwrap_or(list.len()) {
            let t: Tg = list[at];
            if self.model.has(t) && self.status != St::Terminated && self.model.n[t as usize].frame != self.frame_no {
                if self.runs(t) {
                    let own_mode: bool = self.model.all().iter().any(|&x| self.model.n[x as usize].mode != 0) || matches!(self.status, St::Paused | St::QueuedPaused);
                    self.err(if own_mode { Cat::Mode } else { Cat::Order }, format!("process did not run on node {t} when its turn came"));
                    if own_mode { self.err(Cat::Order, format!("process did not run on node {t} when its turn came")); }
                    if matches!(self.status, St::QueuedRunning | St::QueuedPaused) { self.err(Cat::Life, format!("process did not run on node {t} although the frame in which termination was queued has to finish")); }
                }
            }
            at += 1;
        }
        if let Some(f) = &mut self.frame { f.at = f.at.max(at); }
    }

    fn on_process(&mut self, t: Tg, delta: f32) {
        if self.status == St::Terminated { self.err(Cat::Life, format!("process of node {t} runs although the tree has terminated")); return; }
        let Some(f) = &mut self.frame else { self.err(Cat::Order, format!("process of node {t} runs outside of a frame")); return };
        if f.exit { self.err(Cat::Life, format!("process of node {t} runs while the tree is terminating")); return; }
        let (want, first): (f32, f32) = (f.delta, *f.first.get_or_insert(delta));
        let pos: Option<usize> = f.list.iter().position(|&x| x == t);
        if (delta - want).abs() > want.abs() * 2e-7 { self.err(Cat::Delta, format!("process of node {t} got delta {delta:e} instead of {want:e}")); }
        if delta.to_bits() != first.to_bits() { self.err(Cat::Delta, format!("process of node {t} got another delta ({delta:e}) than the first node of the frame ({first:e})")); }
        if self.model.n[t as usize].frame == self.frame_no { self.err(Cat::Order, format!("process runs again on node {t} in one frame")); return; }
        match pos {
            Some(i) => {
                if i < self.frame.as_ref().unwrap().at { self.err(Cat::Order, format!("process of node {t} runs out of order")); }
                self.pass(Some(i));
                self.model.at(t).frame = self.frame_no;
                if let Some(f) = &mut self.frame { f.at = f.at.max(i + 1); }
            },
            None => {
                // A node that was added during this frame: everything before it in tree order has had its turn.
                let all: Vec<Tg> = self.model.all();
                let me: usize = all.iter().position(|&x| x == t).unwrap_or(0);
                let list: Rc<Vec<Tg>> = self.frame.as_ref().unwrap().list.clone();
                if let Some(last) = list.iter().rposition(|x| all[..me].contains(x)) { self.pass(Some(last + 1)); }
                self.model.at(t).frame = self.frame_no;
            }
        }
        if !self.runs(t) { self.err(Cat::Mode, format!("process runs on node {t} although its process mode forbids it")); }
    }

    fn on_terminal(&mut self, t: Tg, r: TerminationReason) {
        let n: Brief = self.model.n[t as usize].brief();
        if r == TerminationReason::TreeExit {
            if self.status == St::Terminated { self.err(Cat::Life, format!("terminal (tree exit) runs on node {t} of a terminated tree")); return; }
            match &mut self.frame {
                Some(f) if f.exit => {
                    if f.exited.contains(&t) { self.err(Cat::Life, format!("terminal (tree exit) runs again on node {t}")); } else { f.exited.push(t); }
                },
                _ => self.err(Cat::Life, format!("terminal (tree exit) runs on node {t} although the tree is not terminating"))
            }
            if !self.rems.is_empty() && self.rems.iter().any(|c| c.members.contains(&t)) { self.err(Cat::Term, format!("node {t} is removed with the wrong reason {r:?}")); }
            return;
        }
        let Some(c) = self.rems.iter().rev().find(|c| c.members.contains(&t)) else { self.err(Cat::Term, format!("terminal ({r:?}) runs on node {t}, which is not being removed")); return };
        let (reason, top): (TerminationReason, Tg) = (c.reason, c.top);
        if !self.rems.last().unwrap().members.contains(&t) { self.err(Cat::Term, format!("terminal ({r:?}) of node {t} runs during another removal")); }
        if reason != r { self.err(Cat::Term, format!("terminal of node {t} got the reason {r:?} instead of {reason:?}")); }
        if n.term != 0 && !n.doubled { self.err(Cat::Term, format!("terminal runs again on node {t}")); }
        if t != top && let Some(p) = n.parent && self.model.n[p as usize].term == 0 { self.err(Cat::Term, format!("terminal of node {t} runs before that of its parent {p}")); }
        self.model.at(t).term += 1;
    }

    /*
     * Operations
     */

    /// Applies an operation; one whose target is not in the tree is skipped.
    pub fn act(&mut self, a: &Act) -> bool {
        let was: String = if self.record { self.note(format!("> {}", a.show())); std::mem::replace(&mut self.now, a.show()) } else { String::new() };
        let done: bool = self.act_tail(a);
        if self.record { self.note(format!("< {}", if done { a.show() } else { format!("skipped {}", a.show()) })); self.now = was; }
        if done { self.acts += 1; }
        done
    }

    fn act_tail(&mut self, a: &Act) -> bool {
        // Additions and removals report to the log themselves.
        let loud: bool = matches!(a, Act::Add(..) | Act::Remove(_) | Act::RemoveMissing(_) | Act::Free(_) | Act::Stale(..));
        self.check_silence();
        let done: bool = self.act_inner(a);
        if loud && (self.least == 0 || matches!(a, Act::RemoveMissing(_))) { self.log_seen = self.tree().get_log().len(); }
        self.check_silence();
        done
    }

    fn act_inner(&mut self, a: &Act) -> bool {
        let target: Option<Tg> = match a { Act::Free(t) | Act::Remove(t) | Act::RemoveMissing(t) | Act::Add(t, ..) | Act::Rename(t, _) | Act::Warn(t) | Act::Panic(t) | Act::Info(t) | Act::Name(t, _) | Act::Post(t, ..) | Act::Mode(t, _) | Act::Stale(t, ..) => Some(*t), _ => None };
        if let Some(t) = target {
            if !self.model.has(t) { return false; }
            if self.model.n[t as usize].rid.is_none() { self.compare(None); }
            if self.real(t).is_none() { self.err(Cat::Struct, format!("node {t} should be in the tree but is not")); return false; }
        }
        match a {
            Act::Free(t) => {
                self.begin_removal(*t, TerminationReason::Freed);
                let is_root: bool = self.model.root == Some(*t);
                self.real(*t).unwrap().free();
                self.end_removal(*t);
                if is_root { self.status = St::Terminated; }
            },
            Act::Remove(t) => {
                let Some(p) = self.model.n[*t as usize].parent else { return false };
                let name: String = self.real(*t).unwrap().name().to_string();
                if self.real(p).is_none() { self.err(Cat::Struct, format!("node {p} should be in the tree but is not")); return false; }
                self.begin_removal(*t, TerminationReason::RemovedAsChild);
                let plain: bool = self.rems.len() == 1;
                let ok: bool = self.real(p).unwrap().remove_child(&name);
                if !ok && plain { self.err(Cat::Term, format!("removing node {t} by its name {name:?} reports false")); }
                self.end_removal(*t);
            },
            Act::RemoveMissing(t) => {
                let log: usize = self.tree().get_log().len();
                self.rems.push(RemCtx { top: u32::MAX, members: Vec::new(), reason: TerminationReason::RemovedAsChild });
                let hooks: u64 = self.hooks;
                let ok: bool = self.real(*t).unwrap().remove_child("no such child");
                self.rems.pop();
                if ok { self.err(Cat::Term, "removing a missing child reports true".into()); }
                if hooks != self.hooks { self.err(Cat::Term, "removing a missing child runs hooks".into()); }
                let log: String = self.tree().get_log()[log..].to_string();
                if self.expects_warnings() && (log.matches("| WARN |").count() != 1 || log.lines().count() != 1) { self.err(Cat::Term, format!("removing a missing child logged {log:?}")); }
                if let Some(n) = self.real(*t) && let NodeStatus::JustWarned(m) = n.status() { self.model.at(*t).stat = Some((false, m)); self.posted = true; }
                self.compare(Some(Cat::Term));
            },
            Act::Add(p, form, spec) => {
                self.model.add(spec, Some(*p), *form);
                if self.rems.iter().any(|c| c.members.contains(p)) { for t in spec.tags() { self.model.at(t).doomed_add = true; } for t in spec.tags() { for c in self.rems.iter_mut() { if c.members.contains(p) { c.members.push(t); } } } }
                self.adds.push(AddCtx { nodes: spec.tags(), loaded: None });
                let node: &'static mut dyn Node = self.real(*p).unwrap();
                match form {
                    Form::Scene => node.add_child(spec.scene()),
                    Form::Node  => match spec.class { 0 => node.add_child(named(N0::new(spec.tag), spec)), 1 => node.add_child(named(N1::new(spec.tag), spec)), 3 => node.add_child(named(N3::new(spec.tag), spec)), _ => node.add_child(named(N2::new(spec.tag), spec)) },
                    Form::Ptr   => {
                        let rid: RID = unsafe { node.add_child_from_ptr(Box::into_raw(spec.node()), spec.owner, false) };
                        match self.model.n[spec.tag as usize].rid { Some(r) => if r != rid { self.err(Cat::Rid, format!("adding node {} returned the id {rid} instead of {r}", spec.tag)); }, None => self.give(spec.tag, rid) }
                    }
                }
                self.end_add();
            },
            Act::Rename(t, name) => {
                let taken: Vec<String> = self.model.n[*t as usize].parent.map(|p| self.model.n[p as usize].kids.iter().filter(|k| *k != t).filter_map(|&k| self.model.n[k as usize].name.clone()).collect()).unwrap_or_default();
                self.real(*t).unwrap().set_name(name);
                let got: String = self.real(*t).unwrap().name().to_string();
                if !taken.iter().any(|x| x == name) && got != *name { self.err(Cat::Name, format!("renaming node {t} to the free name {name:?} made it {got:?}")); }
                if taken.contains(&got) { self.err(Cat::Name, format!("renaming node {t} to {name:?} made it {got:?}, which is taken")); }
                let n: &mut MNode = self.model.at(*t);
                n.request = name.to_string(); n.name = Some(got);
            },
            Act::Queue => { self.tree().queue_termination(); self.status = match self.status { St::Running => St::QueuedRunning, St::Paused => St::QueuedPaused, s => s }; },
            Act::Terminate => { self.tree().terminate(); self.status = St::Terminated; },
            Act::Pause     => { self.tree().pause();   self.status = match self.status { St::Running => St::Paused, St::QueuedRunning => St::QueuedPaused, s => s }; },
            Act::Unpause   => { self.tree().unpause(); self.status = match self.status { St::Paused => St::Running, St::QueuedPaused => St::QueuedRunning, s => s }; },
            Act::Mode(t, m) => {
                // In the hook of the node itself or of a node below it, some that inherit the mode are still to come: what these take is left open.
                let mut x: Option<Tg> = self.turn;
                while let Some(y) = x { if y == *t { return false; } x = self.model.n[y as usize].parent; }
                if self.model.n[*t as usize].class == 3 { return false; }
                self.model.at(*t).mode = *m;
            },
            Act::Sleep(ns) => { self.clock += ns; sys::set_clock(self.clock); },
            Act::Info(t)    => self.post(*t, 1, "info"),
            Act::Warn(t)    => self.post(*t, 2, "warning"),
            Act::Panic(t)   => self.post(*t, 3, "panic"),
            Act::Post(t, lv, msg) => self.post(*t, *lv, msg),
            Act::Stale(by, to, how) => {
                if !self.model.has(*to) || self.model.n[*to as usize].class > 1 || self.model.n[*to as usize].rid.is_none() { return false; }
                let (tree, by_rid, rid): (*mut dyn NodeTree, RID, RID) = (self.tree(), self.model.n[*by as usize].rid.unwrap(), self.model.n[*to as usize].rid.unwrap());
                let class: u8 = self.model.n[*to as usize].class;
                let held: TpDyn<'static> = match unsafe { TpDyn::new(tree, by_rid, rid) }.to_option() { Some(p) => p, None => { self.err(Cat::Ptr, format!("node {to} cannot be obtained by id")); return false; } };
                let (t0, t1): (Option<Tp<'static, N0>>, Option<Tp<'static, N1>>) = if class == 0 { (held.clone().to::<N0>().to_option(), None) } else { (None, held.clone().to::<N1>().to_option()) };
                if t0.is_none() && t1.is_none() { self.err(Cat::Ptr, format!("a pointer to node {to} has another class")); return false; }
                self.act_inner(&Act::Free(*to));
                if self.tree().get_node(rid).is_some() || !self.errs.is_empty() { return true; }
                let log: usize = self.tree().get_log().len();
                let hooks: u64 = self.hooks;
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match (how, &t0, &t1) {
                    (0, Some(p), _) => { p.get(); }, (0, _, Some(p)) => { p.get(); },
                    (1, Some(p), _) => { p.clone().to_dyn(); }, (1, _, Some(p)) => { p.clone().to_dyn(); },
                    (2, ..) => { held.get(); },
                    _ => { held.clone().get_mut(); }
                }));
                if res.is_ok() { self.err(Cat::Ptr, format!("unchecked use {how} of a dead pointer to node {to} obtained by node {by} succeeds in a hook")); return true; }
                let new: String = self.tree().get_log()[log..].to_string();
                if !new.contains("| PANIC! |") { self.err(Cat::Ptr, format!("unchecked use {how} of a dead pointer to node {to} obtained by node {by} in a hook logs {new:?}")); }
                if hooks != self.hooks { self.err(Cat::Ptr, "using a dead pointer runs hooks".into()); }
                self.status = St::Terminated;
                // If the node that used the pointer is still there, the failure is its own.
                if self.model.has(*by) && let Some(n) = self.real(*by) {
                    match n.status() { NodeStatus::JustPanicked(m) => { self.model.at(*by).stat = Some((true, m)); self.posted = true; }, s => self.err(Cat::Ptr, format!("after its use of a dead pointer, node {by} is {s:?}")) }
                }
                self.log_seen = self.tree().get_log().len();
            },
            Act::Name(t, name) => {
                let free: bool = self.holder(name).is_none();
                let again: bool = self.holder(name) == Some(*t);
                let ok: bool = self.real(*t).unwrap().register_as_singleton(name.to_string());
                if ok != free && !again { self.err(Cat::Single, format!("registering node {t} as {name:?} reports {ok}")); }
                if free { self.names.retain(|_, x| x != t); self.names.insert(name, *t); }
                self.check_names();
            },
        }
        true
    }

    /// The node's name in log lines.
    pub fn who(&self, t: Tg) -> String {
        if let Some((n, _)) = self.names.iter().find(|x| *x.1 == t) { return n.to_string(); }
        let mut p: Vec<&str> = Vec::new();
        let mut x: Option<Tg> = Some(t);
        while let Some(t) = x { p.push(self.model.n[t as usize].name.as_deref().unwrap_or("?")); x = self.model.n[t as usize].parent; }
        p.reverse();
        format!("[{}]", p.join("/"))
    }

    /// Posts a message: 0: debug, 1: info, 2: warning, 3: panic.
    fn post(&mut self, t: Tg, lv: u8, msg: &'static str) {
        let log: usize = self.tree().get_log().len();
        let before: u64 = self.hooks;
        let ptr: *const dyn Node = self.real(t).unwrap();
        unsafe { (*ptr).post(match lv { 0 => Log::Debug(msg), 1 => Log::Info(msg), 2 => Log::Warn(msg), _ => Log::Panic(msg) }); }
        if lv == 3 { self.status = St::Terminated; }
        if lv >= 2 { self.model.at(t).stat = Some((lv == 3, msg.to_string())); self.posted = true; }
        if self.hooks != before { self.err(Cat::Log, "posting runs hooks".into()); }
        let admitted: bool = lv >= self.least;
        let new: &str = &self.tree().get_log()[log.min(self.tree().get_log().len())..];
        let who: String = self.who(t);
        let line: String = format!(" UTC> | {who} | {} | {msg}\n", ["DEBUG", "INFO", "WARN", "PANIC!"][lv as usize]);
        let bad: Option<String> = if !admitted { (!new.is_empty()).then(|| "not be logged".to_string()) } else {
            match new.find(&line) {
                None => Some(format!("be logged as {line:?}")),
                Some(i) => {
                    let rest: &str = &new[i + line.len()..];
                    if !new.starts_with('<') || new[..i].contains('\n') || i > 40 { Some("be logged on a line of its own".into()) }
                    else if lv != 3 { (!rest.is_empty()).then(|| "be logged without anything more".to_string()) }
                    else {
                        let drawing: String = draw_tree(self.tree().base(), self.model.n[t as usize].rid.unwrap(), 6, 6);
                        let parts: [&str; 3] = [&self.header, &drawing, &self.footer];
                        let mut at: usize = 0;
                        let mut ok: bool = true;
                        for p in parts { match rest[at..].find(p) { Some(i) => at += i + p.len(), None => ok = false } }
                        // The footer comes last.
                        ok = ok && (at == rest.len() || rest.ends_with(&self.footer) && rest.len() - self.footer.len() >= at - self.footer.len());
                        // With a header of its own nothing else comes before the drawing, and replaced texts are gone.
                        if ok && !self.stale.is_empty() { ok = rest.split(&drawing).next().is_some_and(|h| h.trim() == self.header.trim()) && !self.stale.iter().any(|s| ![&self.header, &drawing, &self.footer].iter().any(|p| p.contains(s)) && rest.contains(s)); }
                        if !ok { Some("be followed by a crash report with header, drawing and footer".into()) } else { None }
                    }
                }
            }
        };
        if let Some(b) = bad { let new: String = new.to_string(); self.err(Cat::Log, format!("a message of node {t} (level {lv}, text {msg:?}) should {b}, but the log got {new:?}")); if !new.contains(&format!("| {who} |")) && admitted { self.err(Cat::Single, format!("node {t} should be called {who:?} in the log line {new:?}")); } }
        self.log_seen = self.tree().get_log().len();
        self.check_stats();
    }

    /// Compares the status of every node.
    pub fn check_stats(&mut self) {
        if !self.posted { return; }
        for t in self.model.all() {
            let Some(n) = self.real(t) else { continue };
            let ok: bool = match (n.status(), &self.model.n[t as usize].stat) { (NodeStatus::Normal, None) => true, (NodeStatus::JustWarned(m), Some((false, w))) => m == *w, (NodeStatus::JustPanicked(m), Some((true, w))) => m == *w, _ => false };
            if !ok { let (got, want): (NodeStatus, String) = (n.status(), format!("{:?}", self.model.n[t as usize].stat)); self.err(Cat::Log, format!("the status of node {t} is {got:?} instead of {want} (true: panicked)")); }
        }
    }

    /// Nothing may be in the log but what was posted.
    fn check_silence(&mut self) {
        if self.least == 0 && !(self.adds.is_empty() && self.rems.is_empty()) { return; }
        let log: &str = self.tree().get_log();
        if log.len() != self.log_seen { let s: String = log[self.log_seen.min(log.len())..].to_string(); self.err(Cat::Log, format!("the log got {s:?} without a post")); self.log_seen = log.len(); }
    }

    pub fn set_report(&mut self, header: &str, footer: &str) {
        self.tree().set_default_header_on_panic(header);
        self.tree().set_default_footer_on_panic(footer);
        if self.stale.is_empty() { self.stale.extend(["Unfortunately the program".to_string(), "Goodbye World".to_string()]); }
        self.stale.extend([&self.header, &self.footer].into_iter().filter(|s| s.len() > 1).cloned());
        self.header = header.into(); self.footer = footer.into();
    }

    /// The node that bears a singleton name.
    pub fn holder(&self, name: &str) -> Option<Tg> { self.names.get(name).copied().filter(|&t| self.model.has(t)) }

    pub fn check_names(&mut self) {
        for name in NAMES {
            let want: Option<Tg> = self.holder(name);
            let rid: Option<RID> = want.and_then(|t| self.model.n[t as usize].rid);
            let got: Option<RID> = self.tree().get_node_rid(*name, None);
            if got != rid { self.err(Cat::Single, format!("the name {name:?} gives the id {got:?} instead of {rid:?} (node {want:?})")); }
        }
        for t in self.model.all() {
            let Some(rid) = self.model.n[t as usize].rid else { continue };
            let want: Option<&str> = self.names.iter().find(|x| *x.1 == t).map(|x| *x.0);
            let got: Option<Option<String>> = match self.tree().get_node_identity(rid) { Some(NodeIdentity::UniqueName(n)) => Some(Some(n)), Some(NodeIdentity::NodePath) => Some(None), None => None };
            if got.as_ref().map(|g| g.as_deref()) != Some(want) { self.err(Cat::Single, format!("node {t} is known as {got:?} instead of {want:?}")); }
        }
    }

    pub fn expects_warnings(&self) -> bool { self.record_warnings }

    fn begin_removal(&mut self, t: Tg, reason: TerminationReason) {
        let members: Vec<Tg> = self.model.pre_order(t);
        // A removal within a removal that reaches nodes which already had their turn.
        for &m in &members { if self.model.n[m as usize].term > 0 { self.model.at(m).doubled = true; } }
        let outer: Vec<Tg> = self.rems.iter().map(|c| c.top).filter(|x| members.contains(x)).collect();
        for o in outer { for m in self.model.pre_order(o) { self.model.at(m).doubled = true; } }
        self.rems.push(RemCtx { top: t, members, reason });
    }

    fn end_removal(&mut self, t: Tg) {
        let c: RemCtx = self.rems.pop().unwrap();
        self.model.remove(t);
        for m in c.members {
            let n: Brief = self.model.n[m as usize].brief();
            if n.in_tree { self.err(Cat::Term, format!("node {m} is still in the tree")); }
            if n.term != 1 && !n.doubled && !n.doomed_add { self.err(Cat::Term, format!("terminal ran {} times on node {m}, which was removed", n.term)); }
        }
    }

    pub fn step(&mut self, s: &Step) {
        match s {
            Step::Do(a)     => { self.act(a); },
            Step::Frame(ns) => self.run_frame(*ns)
        }
        self.quiescent();
    }

    pub fn run_frame(&mut self, ns: u64) {
        self.clock += ns;
        sys::set_clock(self.clock);
        self.frame_no += 1;
        if self.record { self.note(format!("frame {}", self.frame_no)); }
        let start: St = self.status;
        let exit: bool = self.status == St::Terminating;
        let delta: f32 = std::time::Duration::from_nanos(self.clock - self.last_frame).as_secs_f32();
        if self.status != St::Terminated {
            self.last_frame = self.clock;
            self.frame = Some(FrameCtx { list: Rc::new(self.model.all()), at: 0, delta, first: None, exit, exited: Vec::new() });
        }
        if self.posted && self.status != St::Terminated { for n in &mut self.model.n { n.stat = None; } }
        let hooks: u64 = self.hooks;
        let got: TreeStatus = self.tree().process();
        self.check_silence();
        self.check_stats();

        if start == St::Terminated && self.hooks != hooks { self.err(Cat::Life, "a frame of a terminated tree runs hooks".into()); }
        if !exit { self.pass(None); }
        if let Some(f) = self.frame.take() && exit && self.status != St::Terminated {
            for &t in f.list.iter() { if self.model.has(t) && !f.exited.contains(&t) { self.err(Cat::Life, format!("terminal (tree exit) did not run on node {t}")); } }
        }
        self.status = match self.status { St::QueuedRunning | St::QueuedPaused => St::Terminating, St::Terminating => St::Terminated, s => s };
        let want: TreeStatus = match self.status {
            St::Running => TreeStatus::Process(TreeProcess::Running), St::Paused => TreeStatus::Process(TreeProcess::Paused),
            St::Terminating => TreeStatus::Terminating, St::Terminated => TreeStatus::Terminated, _ => unreachable!()
        };
        if got != want { self.err(Cat::Life, format!("the frame ends with status {got:?} instead of {want:?}")); }
        if got.is_active() != (want != TreeStatus::Terminated) || got.has_terminated() != (want == TreeStatus::Terminated) { self.err(Cat::Life, format!("status {got:?} answers wrongly")); }
    }

    /// Takes the tree apart; afterwards no node may be left in memory.
    pub fn finish(&mut self) {
        if let Some(mut tree) = self.owned.take() {
            let rids: Vec<RID> = self.model.n.iter().filter_map(|n| n.rid).collect();
            for r in rids { let _ = unsafe { tree.unregister_node(r) }; }
            drop(tree);
            self.tree = None;
            if !self.errs.iter().any(|e| e.0 == Cat::Struct) {
                for t in 0..self.model.n.len() { let l: i32 = live(t as Tg); if l != 0 { self.err(Cat::Mem, format!("{l} instances of node {t} are left in memory at the end")); } }
            }
        }
    }
}

impl Drop for World { fn drop(&mut self) { WORLD.set(std::ptr::null_mut()); EPOCH.set(EPOCH.get().wrapping_add(1).max(1)); } }

fn named<T: Node>(mut n: T, spec: &Spec) -> T { if let Some(name) = &spec.name { n.set_name(name); } n }

impl World {
    /// A cheap comparison for long histories: the nodes the model holds, and their ids.
    pub fn check_light(&mut self) {
        let tree: &'static mut dyn NodeTree = self.tree();
        let Some(r) = self.model.root else { return };
        let all: Vec<Tg> = self.model.pre_order(r);
        let mut rids: HashSet<RID> = HashSet::new();
        for t in all {
            if self.model.n[t as usize].rid.is_none() { self.compare(None); }
            let Some(rid) = self.model.n[t as usize].rid else { continue };
            if !rids.insert(rid) { self.err(Cat::Rid, format!("two nodes with id {rid}")); }
            match tree.get_node(rid) { Some(n) if tag_of(n) == t => (), other => { let o: Option<Tg> = other.map(tag_of); self.err(Cat::Rid, format!("id {rid} of node {t} leads to {o:?}")); } }
            if live(t) != 1 { self.err(Cat::Mem, format!("there are {} instances of node {t}", live(t))); }
        }
    }
}
