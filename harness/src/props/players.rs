//! Histories over whole trees: several trees at once (C26), and hand-written nodes and trees against generated ones (C28).
//!
//! A player is a tree together with the history of operations done to it.  After every operation the whole tree is
//! written down: nodes, names, depths, parents, owners, classes, statuses, fields, singletons, held pointers, hook calls,
//! the log and the status the last frame reported.

use std::cell::{ Cell, RefCell };
use std::collections::HashMap;
use std::fmt::Write as _;
use std::sync::mpsc;

use node_tree::prelude::*;
use node_tree::structs::node_base::NodeStatus;
use node_tree::structs::node_tree_base::NodeIdentity;
use node_tree::trees::tree_simple::TreeSimple;

use crate::ctx::{ Ctx, Fail, Meta, Res, Tier };
use crate::lab::pre_order;
use crate::props::{ b, Prop };
use crate::sys;

/*
 * Hooks
 */

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Hk { Loaded, Ready, Process, Terminal }

/// In the n-th call of that hook by a node of that player, the other player does something.
#[derive(Clone, Copy, Debug)]
struct Cross { who: u8, hook: Hk, nth: usize, op: Op }

/// In the n-th call of that hook in that player's tree, the node itself does something.
#[derive(Clone, Copy, Debug)]
struct Deed { who: u8, hook: Hk, nth: usize, what: u8, seen: usize }

/// What the nodes can do in their hooks.
const DEEDS: u8 = 17;

struct Stage { deed: Option<Deed>, players: Vec<*mut Player>, trace: [String; 64], last: [u64; 64], cross: Option<Cross>, seen: usize, crossed: Option<Result<(), Fail>>, expect: Vec<String> }

thread_local! {
    static STAGE: RefCell<Stage> = const { RefCell::new(Stage { deed: None, players: Vec::new(), trace: [const { String::new() }; 64], last: [0; 64], cross: None, seen: 0, crossed: None, expect: Vec::new() }) };
    static NOW:   Cell<u64>      = const { Cell::new(0) };
}

/// The time of the virtual clock, which this module alone sets while it runs.
static CLOCK: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn tick() -> u64 {
    let t: u64 = CLOCK.fetch_add(7_000_000, std::sync::atomic::Ordering::SeqCst) + 7_000_000;
    sys::set_clock(5_000_000_000_000 + t);
    t
}
fn now() -> u64 { CLOCK.load(std::sync::atomic::Ordering::SeqCst) }

fn on(who: u8, hook: Hk, name: &str, delta: Option<f32>, why: Option<TerminationReason>) {
    let cross: Option<(Op, *mut Player)> = STAGE.with(|s| {
        let mut s = s.borrow_mut();
        let w: usize = who as usize & 63;
        let _ = write!(s.trace[w], "{hook:?} {name}");
        if let Some(why) = why { let _ = write!(s.trace[w], " {why:?}"); }
        if let Some(d) = delta {
            let want: f32 = std::time::Duration::from_nanos(now() - s.last[w]).as_secs_f32();
            let _ = if (d - want).abs() <= want.abs() * 2e-7 { write!(s.trace[w], " whole time") } else { write!(s.trace[w], " {d} s instead of {want} s") };
        }
        s.trace[w].push(';');
        match s.cross {
            Some(c) if c.who == who && c.hook == hook => {
                s.seen += 1;
                if s.seen - 1 == c.nth { s.cross = None; Some((c.op, s.players[1 - (w & 1)])) } else { None }
            },
            _ => None
        }
    });
    if let Some((op, p)) = cross {
        let got:  String = unsafe { (*p).apply(op) };
        let want: Option<String> = STAGE.with(|s| s.borrow().expect.first().cloned());
        let res:  Result<(), Fail> = match want {
            Some(w) if w != got => Err(Fail { key: "inside".into(), msg: format!("done inside a hook of the other tree: {}", differ(&w, &got)) }),
            _ => Ok(())
        };
        STAGE.with(|s| s.borrow_mut().crossed = Some(res));
    }
}

/// The last thing in a hook.
fn deed(n: &mut dyn Node, hook: Hk) {
    let any: &dyn std::any::Any = n.as_any_ref();
    let Some(who) = any.downcast_ref::<Ant>().map(|a| *a.who).or_else(|| any.downcast_ref::<HAnt>().map(|a| *a.who)) else { return };
    let hand: bool = any.is::<HAnt>();
    let what: Option<u8> = STAGE.with(|s| {
        let mut s = s.borrow_mut();
        let d: &mut Deed = s.deed.as_mut()?;
        if d.who != who || d.hook != hook { return None; }
        d.seen += 1;
        if d.seen - 1 != d.nth { return None; }
        let what: u8 = d.what;
        s.deed = None;
        Some(what)
    });
    let new = || -> Box<dyn Node> { if hand { HAnt::new(who, 0).to_dyn_box() } else { Ant::new(who, 0).to_dyn_box() } };
    match what {
        None     => (),
        Some(0)  => n.free(),
        Some(1)  => n.tree_mut().unwrap().root_mut().free(),
        Some(2)  => n.tree_mut().unwrap().queue_termination(),
        Some(3)  => n.tree_mut().unwrap().terminate(),
        Some(4)  => n.tree_mut().unwrap().pause(),
        Some(5)  => n.tree_mut().unwrap().unpause(),
        Some(6)  => n.post(Log::Warn("odd")),
        Some(7)  => n.post(Log::Panic("too much")),
        Some(8)  => n.add_child(NodeScene::new_dyn(new())),
        Some(9)  => n.add_child({ let mut s: NodeScene = NodeScene::new_dyn(new()); s.append(NodeScene::new_dyn(new())); s }),
        Some(10) => { let name: Option<String> = n.children().last().map(|c| c.name().to_string()); if let Some(c) = name { n.remove_child(&c); } },
        Some(11) => { n.register_as_singleton("S1".into()); },
        Some(12) => n.set_name("Z"),
        Some(13) => if let Some(mut p) = n.parent_dyn().to_option() { p.add_child(NodeScene::new_dyn(new())) },
        Some(14) => { let s: NodeScene = n.save_as_branch(); n.add_child(s) },
        Some(15) => if let Some(mut p) = n.parent_dyn().to_option() { p.free() },
        Some(_)  => n.owner_dyn().post(Log::Warn("mine"))
    }
}

pub fn mode(m: u8) -> ProcessMode { [ProcessMode::Inherit, ProcessMode::Always, ProcessMode::Pausable, ProcessMode::Inverse][m as usize & 3] }

/*
 * Generated and hand-written classes
 */

pub trait Insect { fn legs(&self) -> u8; }

class! {
    pub declare Ant extends Insect;
    pub signal hit(n: i64);
    pub export         let who:  u8;
    pub export         let mode: u8;
    pub                let seen: i64;
    pub unique         let key:  i64;
    pub default        let note: String;
    hk _init(w: u8, m: u8) { let who: u8 = w; let mode: u8 = m; let seen: i64 = 0; let key: i64 = 5; }
    hk loaded(&mut self) { on(*self.who, Hk::Loaded, self.name(), None, None); deed(self, Hk::Loaded); }
    hk ready(&mut self) {
        on(*self.who, Hk::Ready, self.name(), None, None);
        if self.is_root() { let this: Tp<Ant> = self.this(); connect! { hit -> this.heard }; }
        else if let Ok(up) = self.parent::<Ant>().to_result() { connect! { hit -> up.heard }; }
        deed(self, Hk::Ready);
    }
    hk process(&mut self, delta: f32) { on(*self.who, Hk::Process, self.name(), Some(delta), None); self.hit.emit(3); deed(self, Hk::Process); }
    hk terminal(&mut self, reason: TerminationReason) { on(*self.who, Hk::Terminal, self.name(), None, Some(reason)); deed(self, Hk::Terminal); }
    hk process_mode(&self) -> ProcessMode { mode(*self.mode) }
    pub fn heard(&self, n: &i64) { HEARD.with(|h| h.borrow_mut().push((*self.who, self.name().to_string(), *n))); }
}

thread_local! { static HEARD: RefCell<Vec<(u8, String, i64)>> = const { RefCell::new(Vec::new()) }; }

impl Insect for Ant { fn legs(&self) -> u8 { 6 } }

class! { pub declare Bee; }

/// `Ant`, written out as the documentation of the traits describes.
#[derive(Debug, Clone, Abstract, Register)]
pub struct HAnt {
    base:     NodeBase,
    pub hit:  Signal<i64>,
    pub who:  ExportableField<u8>,
    pub mode: ExportableField<u8>,
    pub seen: Field<i64>,
    pub key:  UniqueField<i64>,
    pub note: DefaultField<String>
}

impl HAnt {
    pub fn new(w: u8, m: u8) -> Self {
        HAnt {
            base: NodeBase::new("Ant".to_string()), hit: Signal::new(), who: ExportableField::new(w), mode: ExportableField::new(m),
            seen: Field::new(0), key: UniqueField::new(5), note: DefaultField::new(String::default())
        }
    }
    pub fn heard(&self, n: &i64) { HEARD.with(|h| h.borrow_mut().push((*self.who, self.name().to_string(), *n))); }
}

impl Node for HAnt {
    fn loaded(&mut self) { on(*self.who, Hk::Loaded, self.name(), None, None); deed(self, Hk::Loaded); }
    fn ready(&mut self) {
        on(*self.who, Hk::Ready, self.name(), None, None);
        if self.is_root() { let this: Tp<HAnt> = self.this(); connect! { hit -> this.heard }; }
        else if let Ok(up) = self.parent::<HAnt>().to_result() { connect! { hit -> up.heard }; }
        deed(self, Hk::Ready);
    }
    fn process(&mut self, delta: f32) { on(*self.who, Hk::Process, self.name(), Some(delta), None); self.hit.emit(3); deed(self, Hk::Process); }
    fn terminal(&mut self, reason: TerminationReason) { on(*self.who, Hk::Terminal, self.name(), None, Some(reason)); deed(self, Hk::Terminal); }
    fn process_mode(&self) -> ProcessMode { mode(*self.mode) }
}

impl Insect for HAnt { fn legs(&self) -> u8 { 6 } }
node_tree::intertrait::castable_to!(crate = node_tree::intertrait | HAnt => Node, Insect);

/// A class with nothing of its own.
#[derive(Debug, Clone, Abstract, Register)]
pub struct HBee { base: NodeBase }
impl HBee { pub fn new() -> Self { HBee { base: NodeBase::new("Bee".to_string()) } } }
impl Node for HBee {}

/// A tree with more to it than its base.
#[derive(Debug, Tree)]
pub struct Field2 { pub before: u64, base: Option<NodeTreeBase>, pub after: Vec<String> }

impl Field2 {
    pub fn new<I: Instanceable>(scene: I, verbosity: LoggerVerbosity) -> Box<Self> {
        let mut tree: Box<Field2> = Box::new(Field2 { before: 0xAB, base: None, after: vec!["x".into()] });
        initialize_base(&mut tree, scene, verbosity);
        tree
    }
}

/// A collection of nodes of the user's own making: a node and the nodes below it.
struct Bunch(Box<dyn Node>, Vec<Bunch>, bool);

impl Bunch {
    fn walk<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, up: Option<*mut dyn Node>, it: &mut F) {
        let me: *mut dyn Node = Box::into_raw(self.0);
        it(up, me, self.2);
        for k in self.1 { k.walk(Some(me), it); }
    }
}

impl Instanceable for Bunch {
    fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) { self.walk(None, &mut iterator); }
}

/// Several of them side by side, without a common root.
struct Forest(Vec<Bunch>);

impl Instanceable for Forest {
    fn iterate<F: FnMut(Option<*mut dyn Node>, *mut dyn Node, bool)>(self, mut iterator: F) { for b in self.0 { b.walk(None, &mut iterator); } }
}

/*
 * Classes declared in odd places
 */

pub trait Odd: Node { fn mark(&self) -> i64; fn make(mark: i64) -> Box<dyn Node> where Self: Sized; }

macro_rules! odd { ($t:ty) => { impl super::Odd for $t { fn mark(&self) -> i64 { *self.mark } fn make(mark: i64) -> Box<dyn Node> { Box::new(<$t>::new(mark)) } } } }

mod left {
    use node_tree::prelude::*;
    class! { pub declare Twin; pub export let mark: i64; hk _init(m: i64) { let mark: i64 = m; } }
    odd!(Twin);
    pub mod deep {
        use node_tree::prelude::*;
        #[derive(Debug, Clone, Abstract, Register)]
        pub struct Twin { base: NodeBase, pub mark: ExportableField<i64> }
        impl Twin { pub fn new(m: i64) -> Self { Twin { base: NodeBase::new("Twin".into()), mark: ExportableField::new(m) } } }
        impl Node for Twin {}
        node_tree::intertrait::castable_to!(crate = node_tree::intertrait | Twin => Node);
        use super::super as super_;
        impl super_::Odd for Twin { fn mark(&self) -> i64 { *self.mark } fn make(mark: i64) -> Box<dyn Node> { Box::new(Twin::new(mark)) } }
    }
}
mod right {
    use node_tree::prelude::*;
    #[derive(Debug, Clone, Abstract, Register)]
    pub struct Twin { pub mark: ExportableField<i64>, base: NodeBase }
    impl Twin { pub fn new(m: i64) -> Self { Twin { base: NodeBase::new("Twin".into()), mark: ExportableField::new(m) } } }
    impl Node for Twin {}
    odd!(Twin);
}

#[derive(Clone, Copy)]
struct OddClass { name: &'static str, make: fn(i64) -> Box<dyn Node>, mark: fn(&dyn Node) -> Option<i64> }

fn odd_of<T: Odd>() -> OddClass {
    OddClass { name: std::any::type_name::<T>(), make: T::make, mark: |n| { let a: &dyn std::any::Any = n.as_any_ref(); a.downcast_ref::<T>().map(|t| t.mark()) } }
}

/// All of them, two of which only exist inside this function.
fn odd_classes() -> Vec<OddClass> {
    class! { pub declare Inner; pub export let mark: i64; hk _init(m: i64) { let mark: i64 = m; } }
    impl Odd for Inner { fn mark(&self) -> i64 { *self.mark } fn make(mark: i64) -> Box<dyn Node> { Box::new(Inner::new(mark)) } }
    #[derive(Debug, Clone, Abstract, Register)]
    struct Twin { base: NodeBase, pub mark: ExportableField<i64> }
    impl Node for Twin {}
    impl Odd for Twin { fn mark(&self) -> i64 { *self.mark } fn make(mark: i64) -> Box<dyn Node> { Box::new(Twin { base: NodeBase::new("Twin".into()), mark: ExportableField::new(mark) }) } }
    vec![odd_of::<left::Twin>(), odd_of::<left::deep::Twin>(), odd_of::<right::Twin>(), odd_of::<Inner>(), odd_of::<Twin>()]
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Kit { ants: bool, bees: bool, tree: bool, bunch: bool }   // hand-written classes, a hand-written tree, a collection of one's own instead of a scene

impl Kit {
    const PLAIN: Kit = Kit { ants: false, bees: false, tree: false, bunch: false };

    fn ant(self, who: u8, mode: u8, name: &str) -> Box<dyn Node> {
        let mut n: Box<dyn Node> = if self.ants { Box::new(HAnt::new(who, mode)) } else { Box::new(Ant::new(who, mode)) };
        n.set_name(name);
        n
    }
    fn bee(self, name: &str) -> Box<dyn Node> {
        let mut n: Box<dyn Node> = if self.bees { Box::new(HBee::new()) } else { Box::new(Bee::new()) };
        n.set_name(name);
        n
    }
}

/// A scene: class (ants have a mode), name, whether it owns what is below it, children.
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Sc { bee: bool, mode: u8, name: String, owner: bool, kids: Vec<Sc> }

pub fn ant(name: &str, mode: u8, owner: bool, kids: Vec<Sc>) -> Sc { Sc { bee: false, mode, name: name.into(), owner, kids } }
pub fn bee(name: &str, kids: Vec<Sc>) -> Sc { Sc { bee: true, mode: 0, name: name.into(), owner: false, kids } }

impl Sc {
    fn node(&self, kit: Kit, who: u8) -> Box<dyn Node> { if self.bee { kit.bee(&self.name) } else { kit.ant(who, self.mode, &self.name) } }

    fn scene(&self, kit: Kit, who: u8) -> NodeScene {
        let mut s: NodeScene = NodeScene::new_dyn(self.node(kit, who));
        for k in &self.kids { if k.owner { s.append_as_owner(k.scene(kit, who)); } else { s.append(k.scene(kit, who)); } }
        s
    }

    fn bunch(&self, kit: Kit, who: u8, top: bool) -> Bunch { Bunch(self.node(kit, who), self.kids.iter().map(|k| k.bunch(kit, who, false)).collect(), top || self.owner) }
}

/*
 * Players
 */

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add(u8), Scene(u8), Loaded(u8), Copy(u8), Branch(u8, u8), Free(u8), Remove(u8), Frame, Single(u8, u8), Name(u8, u8),
    Warn(u8), Info(u8), Panic(u8), Queue, Terminate, Pause, Unpause, Words, Drop, Wait(u8)
}

pub struct Player {
    who:  u8,
    kit:  Kit,
    tree: Option<Box<dyn NodeTree>>,
    held: Vec<(RID, TpDyn<'static>)>,
    left: String       // what the last frame reported
}

/// How long nobody does anything: up to some years.
const WAITS: [u64; 6] = [3_600_000_000_000, 1_000_000_000, 61_000_000_001, 90_000_000_000_000, 4_294_967_296_000_000, 99_999_999];
const NAMES: [&str; 3] = ["R", "C", "Z"];

/// The scenes that the operations add.
fn extra() -> Sc { ant("C", 0, true, vec![ant("D", 3, false, vec![bee("E", vec![])])]) }

impl Player {
    pub fn new(who: u8, kit: Kit, start: &Sc, v: u8) -> Player {
        let v: LoggerVerbosity = verbosity(v);
        let t: u64 = tick();
        STAGE.with(|s| { let mut s = s.borrow_mut(); s.last[who as usize & 63] = t; s.trace[who as usize & 63].clear(); });
        let tree: Box<dyn NodeTree> = match (kit.tree, kit.bunch) {
            (false, false) => TreeSimple::new(start.scene(kit, who), v),
            (false, true)  => TreeSimple::new(start.bunch(kit, who, true), v),
            (true, false)  => Field2::new(start.scene(kit, who), v),
            (true, true)   => Field2::new(start.bunch(kit, who, true), v)
        };
        let mut p: Player = Player { who, kit, tree: Some(tree), held: Vec::new(), left: String::new() };
        p.hold();
        p
    }

    fn raw(&mut self) -> Option<&'static mut dyn NodeTree> { self.tree.as_mut().map(|t| unsafe { &mut *t.as_dyn_raw_mut() }) }

    fn nodes(&mut self) -> Vec<RID> {
        match self.raw() { Some(t) if t.get_node(0).is_some() => pre_order(t, 0), _ => Vec::new() }
    }

    fn at(&mut self, k: u8) -> Option<&'static mut dyn Node> {
        let r: RID = *self.nodes().get(k as usize)?;
        self.raw()?.get_node_mut(r)
    }

    /// Holds a pointer to every node of the tree.
    fn hold(&mut self) {
        for r in self.nodes() {
            if self.held.iter().any(|h| h.0 == r) { continue; }
            if let Some(t) = self.raw() && let Some(n) = t.get_node(r) { let p: TpDyn<'static> = n.this_dyn(); self.held.push((r, p)); }
        }
    }

    pub fn apply(&mut self, op: Op) -> String {
        let (who, kit): (u8, Kit) = (self.who, self.kit);
        let t: u64 = tick();
        STAGE.with(|s| s.borrow_mut().trace[who as usize & 63].clear());
        if self.raw().is_some() { match op {
            Op::Add(k)    => if let Some(n) = self.at(k) { if kit.ants { n.add_child(HAnt::new(who, 0)) } else { n.add_child(Ant::new(who, 0)) } },
            Op::Scene(k)  => if let Some(n) = self.at(k) { if kit.bunch { n.add_child(extra().bunch(kit, who, true)) } else { n.add_child(extra().scene(kit, who)) } },
            Op::Loaded(k) => if let Some(n) = self.at(k) {
                let doc: String = extra().scene(kit, who).save_to_str().expect("saving");
                match NodeScene::load_from_str(&doc) { Ok(s) => n.add_child(s), Err(e) => self.left = format!("loading failed: {e}") }
            },
            Op::Copy(k) => if let Some(n) = self.at(k) { n.add_child(extra().scene(kit, who).clone()) },
            Op::Branch(k, j) => if let Some(n) = self.at(k) {
                let s: NodeScene = n.save_as_branch();
                self.left = format!("branch of hash {:x}", s.structural_hash());
                if let Some(m) = self.at(j) { m.add_child(s); }
            },
            Op::Free(k)   => if let Some(n) = self.at(k) { n.free() },
            Op::Remove(k) => if let Some(n) = self.at(k) {
                let name: String = n.children().first().map(|c| c.name().to_string()).unwrap_or("nobody".into());
                let done: bool = n.remove_child(&name);
                self.left = format!("removed: {done}");
            },
            Op::Frame => {
                let s: TreeStatus = self.raw().unwrap().process();
                STAGE.with(|s| s.borrow_mut().last[who as usize & 63] = t);
                self.left = format!("{s:?}");
            },
            Op::Single(k, n) => if let Some(m) = self.at(k) { let ok: bool = m.register_as_singleton(format!("S{n}")); self.left = format!("registered: {ok}"); },
            Op::Name(k, n)   => if let Some(m) = self.at(k) { m.set_name(NAMES[n as usize % 3]); },
            Op::Warn(k)      => if let Some(m) = self.at(k) { m.post(Log::Warn("careful\nplease")); },
            Op::Info(k)      => if let Some(m) = self.at(k) { m.post(Log::Info(&format!("of {who}"))); },
            Op::Panic(k)     => if let Some(m) = self.at(k) { m.post(Log::Panic("broken")); },
            Op::Queue        => self.raw().unwrap().queue_termination(),
            Op::Terminate    => self.raw().unwrap().terminate(),
            Op::Pause        => self.raw().unwrap().pause(),
            Op::Unpause      => self.raw().unwrap().unpause(),
            Op::Words        => { let t = self.raw().unwrap(); t.set_default_header_on_panic(&format!("head of {who}")); t.set_default_footer_on_panic(&format!("foot of {who}")); },
            Op::Wait(k)      => { CLOCK.fetch_add(WAITS[k as usize % WAITS.len()], std::sync::atomic::Ordering::SeqCst); },
            Op::Drop         => self.end()
        } }
        self.hold();
        self.observe()
    }

    /// Everything about this tree that can be seen from outside.
    pub fn observe(&mut self) -> String {
        let mut o: String = String::new();
        let w: usize = self.who as usize & 63;
        let Some(t) = self.raw() else { return "dropped".into() };
        let ids:  Vec<RID> = self.nodes();
        let pos = |r: RID| ids.iter().position(|x| *x == r).map(|i| i.to_string()).unwrap_or("?".into());
        for &r in &ids {
            let n: &dyn Node = t.get_node(r).unwrap();
            let ty: String = n.name_as_type();
            let ty: &str   = ty.rsplit("::").next().unwrap_or("").trim_start_matches('H');
            let _ = write!(o, "{} id {r} {:?} {ty} depth {}", pos(r), n.name(), n.depth());
            let _ = match n.parent_dyn().to_option() { Some(p) => write!(o, " under {}", pos(p.rid())), None => write!(o, " on top") };
            let _ = write!(o, " of {} kids {:?}", pos(n.owner_dyn().rid()), n.children().iter().map(|c| pos(c.rid())).collect::<Vec<_>>());
            let _ = write!(o, " {}{}{}", n.is_owner() as u8, n.is_root() as u8, n.has_just_loaded() as u8);
            let _ = match n.status() { NodeStatus::Normal => Ok(()), s => write!(o, " {s:?}") };
            if let Some(NodeIdentity::UniqueName(s)) = t.get_node_identity(r) { let _ = write!(o, " called {s:?}"); }
            let any: &dyn std::any::Any = n.as_any_ref();
            if let Some(a) = any.downcast_ref::<Ant>() { let _ = write!(o, " who {} mode {} seen {} key {} note {:?}", *a.who, *a.mode, a.seen.is_void(), a.key.is_void(), &*a.note); }
            if let Some(a) = any.downcast_ref::<HAnt>() { let _ = write!(o, " who {} mode {} seen {} key {} note {:?}", *a.who, *a.mode, a.seen.is_void(), a.key.is_void(), &*a.note); }
            let insect: bool = n.this_dyn().is_of::<dyn Insect>();
            if insect { o.push_str(" insect"); }
            let _ = write!(o, " at {}", n.get_absolute_path().to_string());
            o.push('\n');
        }
        for s in 0..3 { if let Some(r) = t.get_node_rid(format!("S{s}"), None) { let _ = writeln!(o, "S{s} is {}", pos(r)); } }
        for p in ["/R", "/R/C", "/R/C/D", "/C", "/R/Z"] { if let Some(r) = t.get_node_rid(NodePath::from_str(p), None) { let _ = writeln!(o, "{p} is {}", pos(r)); } }
        let _ = write!(o, "held");
        for (r, p) in &self.held { let _ = write!(o, " {}", if p.is_valid() { let n: &str = p.name(); if p.rid() == *r { format!("{}={n}", pos(*r)) } else { "ANOTHER".into() } } else { "gone".into() }); }
        let _ = writeln!(o, "\nlast {}", self.left);
        STAGE.with(|s| { let _ = writeln!(o, "hooks {}", s.borrow().trace[w]); });
        let heard: Vec<(u8, String, i64)> = HEARD.with(|h| { let mut h = h.borrow_mut(); let (mine, rest): (Vec<_>, Vec<_>) = h.drain(..).partition(|e| e.0 as usize & 63 == w); *h = rest; mine });
        let _ = writeln!(o, "heard {heard:?}\nlog {}", t.get_log());
        o
    }

    /// Ends this player's tree and gives its nodes back.
    fn end(&mut self) {
        self.held.clear();
        let ids: Vec<RID> = self.nodes();
        if let Some(t) = self.raw() { for r in ids { drop(unsafe { t.unregister_node(r) }); } }
        self.tree = None;
    }
}

impl Drop for Player { fn drop(&mut self) { if !std::thread::panicking() { self.end(); } } }

fn clear_stage() {
    STAGE.with(|s| { let mut s = s.borrow_mut(); s.deed = None; s.players.clear(); s.cross = None; s.seen = 0; s.crossed = None; s.expect.clear(); s.trace = [const { String::new() }; 64]; });
    HEARD.with(|h| h.borrow_mut().clear());
}

/// The first line that differs.
fn differ(want: &str, got: &str) -> String {
    let (mut a, mut g) = (want.lines(), got.lines());
    loop {
        match (a.next(), g.next()) {
            (None, None) => return "nothing differs".into(),
            (x, y) if x == y => (),
            (x, y) => return format!("alone: {}\n  here: {}", x.unwrap_or("(nothing)"), y.unwrap_or("(nothing)"))
        }
    }
}

/// The observations of a history by itself; the first one is of the start.
fn solo(who: u8, kit: Kit, start: &Sc, v: u8, ops: &[Op]) -> Vec<String> {
    solo_with(who, kit, start, v, ops, None)
}

fn solo_with(who: u8, kit: Kit, start: &Sc, v: u8, ops: &[Op], deed: Option<Deed>) -> Vec<String> {
    clear_stage();
    STAGE.with(|s| s.borrow_mut().deed = deed);
    let mut p: Player = Player::new(who, kit, start, v);
    let mut out: Vec<String> = vec![p.observe()];
    for &op in ops { out.push(p.apply(op)); }
    out
}

/*
 * C26: Trees are independent of one another
 */

pub const C26: Prop = Prop {
    meta: Meta {
        id: "C26",
        rule: "the states reached are all those of: two trees; every pair of operation histories over the alphabet up to the length bound; every interleaving of the two histories; every operation of one tree placed in every hook call of an operation of the other; every such pair with each tree on a thread of its own under every order of turns; every branch of one tree given to the other between operations. After every step each tree is compared, as a whole, with the same history run by itself in a process in which nothing else ever happened (self-composition)",
        bounds: |t| b(t, "2 starts, 14 operations: histories of 2+2 in all 6 interleavings; 3+1 and 1+3 over 10 operations; 2+1 operations with the one inside every hook call of each of the two; threads: 2+2 over 6 operations; names: 2+2 over 10 operations, 2+1 next to trees of 40 nodes or 25 levels; gifts: 1 operation before, every branch, 1+1 operations after; idle times of up to 50 days, 2+2 and 3+2; 3, 9 and 20 trees taking turns with 5 operations each; pairs of nearly alike trees asked by turns",
                          "2 starts, 20 operations: histories of 2+2; 3+2 and 2+3 over 9 operations; 2+1 inside hooks over all 20; threads: 2+2 over 10, 3+3 over 4; names: 2+2 over 16; gifts: 2 operations before, every branch, 1+1 after; idle times up to 3+3; up to 64 trees taking turns with 6 operations each; pairs of nearly alike trees asked by turns"),
        assumptions: &["the trees are used as the documentation describes: a node belongs to one tree, and scenes or copies are what passes from one to another", "on two threads, each tree is created, used and dropped on a thread of its own"]
    },
    body: c26
};

fn starts() -> [(Sc, Sc); 2] {
    let plain: Sc = ant("R", 0, false, vec![ant("C", 0, false, vec![])]);
    let rich:  Sc = ant("R", 1, false, vec![ant("C", 3, true, vec![bee("D", vec![])]), ant("Z", 2, false, vec![])]);
    [(plain.clone(), plain.clone()), (rich, plain)]
}

/// The verbosities of the two trees.
const VERB: [u8; 2] = [1, 2];

fn verbosity(v: u8) -> LoggerVerbosity {
    match v { 0 => LoggerVerbosity::All, 1 => LoggerVerbosity::NoDebug, 2 => LoggerVerbosity::OnlyIssues, _ => LoggerVerbosity::OnlyPanics }
}

fn alphabet(n: usize) -> Vec<Op> {
    let all: [Op; 20] = [Op::Add(0), Op::Free(1), Op::Frame, Op::Single(1, 0), Op::Panic(1), Op::Scene(1), Op::Warn(1), Op::Pause, Op::Queue, Op::Words, Op::Drop, Op::Remove(0), Op::Branch(0, 1), Op::Loaded(1), Op::Free(0), Op::Name(1, 2), Op::Copy(1), Op::Unpause, Op::Info(0), Op::Single(0, 0)];
    all[..n].to_vec()
}

fn histories(ops: &[Op], len: usize) -> Vec<Vec<Op>> {
    let mut out: Vec<Vec<Op>> = vec![Vec::new()];
    for _ in 0..len { out = out.iter().flat_map(|h| ops.iter().map(move |o| { let mut h = h.clone(); h.push(*o); h })).collect(); }
    out
}

/// All orders of `a` turns of the first and `b` turns of the second.
fn orders(a: usize, b: usize) -> Vec<Vec<u8>> {
    if a == 0 { return vec![vec![1; b]]; }
    if b == 0 { return vec![vec![0; a]]; }
    let mut out: Vec<Vec<u8>> = Vec::new();
    for (first, (x, y)) in [(0u8, (a - 1, b)), (1u8, (a, b - 1))] { for mut o in orders(x, y) { o.insert(0, first); out.push(o); } }
    out
}

/// What histories look like in a process in which nothing else has ever happened.
struct Solos { known: HashMap<(u8, usize, Vec<Op>), std::rc::Rc<Vec<String>>>, fresh: sys::Fresh }

/// The starts of the two trees, by number.
fn start_of(si: usize) -> (Sc, Sc) {
    match si {
        0 | 1 => starts()[si].clone(),
        // Trees of the same ids and other names.
        2 => (ant("R", 0, false, vec![ant("C", 0, false, vec![]), ant("Z", 0, false, vec![])]), ant("R", 0, false, vec![ant("X", 0, false, vec![]), ant("Y", 0, true, vec![])])),
        // Many nodes of the names that are added, and few of them.
        3 => (ant("R", 0, false, (0..40).map(|i| ant(["C", "Z", "D", "C7"][i % 4], 0, i % 8 == 3, vec![])).collect()), ant("R", 0, false, vec![ant("C", 0, false, vec![ant("C", 0, false, vec![]), ant("C", 0, false, vec![])])])),
        // A deep tree and a shallow one.
        _ => { let mut d: Sc = ant("C", 0, false, vec![]); for i in 0..24 { d = ant(["C", "Z"][i % 2], 0, i % 5 == 0, vec![d]); } (ant("R", 0, false, vec![d]), ant("R", 0, false, vec![ant("C", 0, false, vec![ant("Z", 0, false, vec![])])])) }
    }
}

fn question(who: u8, si: usize, h: &[Op]) -> Vec<u8> {
    let mut q: Vec<u8> = vec![who, si as u8];
    q.extend_from_slice(unsafe { std::slice::from_raw_parts(h.as_ptr() as *const u8, size_of_val(h)) });
    q
}

fn answer(q: &[u8]) -> Vec<u8> {
    let (who, si, n): (u8, usize, usize) = (q[0], q[1] as usize, (q.len() - 2) / size_of::<Op>());
    let h: Vec<Op> = (0..n).map(|i| unsafe { (q[2..].as_ptr() as *const Op).add(i).read_unaligned() }).collect();
    let (a, b): (Sc, Sc) = start_of(si);
    let mut out: Vec<u8> = Vec::new();
    for s in solo(who, Kit::PLAIN, if who & 1 == 0 { &a } else { &b }, VERB[who as usize & 1], &h) { out.extend((s.len() as u64).to_le_bytes()); out.extend(s.as_bytes()); }
    out
}

fn solo_of(solos: &mut Solos, who: u8, si: usize, h: &[Op]) -> Result<std::rc::Rc<Vec<String>>, Fail> {
    if solos.known.len() > 60_000 { solos.known.clear(); }
    if let Some(k) = solos.known.get(&(who, si, h.to_vec())) { return Ok(k.clone()); }
    let Some(mut a) = solos.fresh.find(&question(who, si, h)).map(std::collections::VecDeque::from) else { return Err(Fail { key: "alone".into(), msg: format!("a process with nothing but tree {who} of start {si} and the operations {h:?} crashes") }) };
    let mut out: Vec<String> = Vec::new();
    while !a.is_empty() {
        let n: usize = u64::from_le_bytes(a.drain(..8).collect::<Vec<u8>>().try_into().unwrap()) as usize;
        out.push(String::from_utf8(a.drain(..n).collect()).unwrap());
    }
    let out: std::rc::Rc<Vec<String>> = std::rc::Rc::new(out);
    solos.known.insert((who, si, h.to_vec()), out.clone());
    Ok(out)
}

fn c26(ctx: &mut Ctx) {
    let starts: [(Sc, Sc); 2] = starts();
    let mut solos: Solos = Solos { known: HashMap::new(), fresh: sys::Fresh::new(answer) };
    let n: usize = ctx.pick(14, 20);

    let mut lens: Vec<(usize, usize, usize)> = vec![(2, 2, n)];
    lens.extend(ctx.pick(vec![(3, 1, 10), (1, 3, 10)], vec![(3, 2, 9), (2, 3, 9), (3, 1, 20), (1, 3, 20)]));
    for (si, (sa, sb)) in starts.iter().enumerate() {
        for &(la, lb, n) in &lens {
            ctx.family(&format!("interleavings of {la} and {lb} operations, start {si}"));
            let ops: Vec<Op> = alphabet(n);
            let (ha, hb): (Vec<Vec<Op>>, Vec<Vec<Op>>) = (histories(&ops, la), histories(&ops, lb));
            let orders: Vec<Vec<u8>> = orders(la, lb);
            for a in &ha { for bh in &hb {
                if ctx.done() { return; }
                ctx.case(|| format!("start {si}, tree 0: {a:?}, tree 1: {bh:?}"), |ctx| {
                    let (wa, wb) = (solo_of(&mut solos, 0, si, a)?, solo_of(&mut solos, 1, si, bh)?);
                    for order in &orders { interleave(ctx, sa, sb, a, bh, order, &wa, &wb)?; }
                    Ok(())
                });
            } }
        }
    }

    // Trees of the same ids and other names, of many and few nodes, of great and small depth, whose nodes are named and named anew.
    for si in 2..=4 {
        let (sa, sb): (Sc, Sc) = start_of(si);
        let mut ops: Vec<Op> = vec![Op::Name(1, 1), Op::Name(1, 2), Op::Name(2, 1), Op::Name(2, 2), Op::Add(0), Op::Free(1), Op::Scene(0), Op::Single(1, 0), Op::Single(2, 0), Op::Panic(1)];
        if !ctx.quick() { ops.extend([Op::Name(1, 0), Op::Name(2, 0), Op::Remove(0), Op::Copy(0), Op::Branch(1, 0), Op::Frame]); }
        for (la, lb) in [(1, 2), (2, 1), (2, 2)] {
            if ctx.quick() && si > 2 && la + lb > 3 { continue; }
            ctx.family(&format!("names: interleavings of {la} and {lb} operations, start {si}"));
            let orders: Vec<Vec<u8>> = orders(la, lb);
            for a in &histories(&ops, la) { for bh in &histories(&ops, lb) {
                if ctx.done() { return; }
                ctx.case(|| format!("start {si}, tree 0: {a:?}, tree 1: {bh:?}"), |ctx| {
                    let (wa, wb) = (solo_of(&mut solos, 0, si, a)?, solo_of(&mut solos, 1, si, bh)?);
                    for order in &orders { interleave(ctx, &sa, &sb, a, bh, order, &wa, &wb)?; }
                    Ok(())
                });
            } }
        }
    }

    // Trees that are left alone for a while.
    for (si, (sa, sb)) in starts.iter().enumerate() {
        for (la, lb) in ctx.pick(vec![(2, 2), (2, 3), (3, 2)], vec![(2, 2), (2, 3), (3, 2), (3, 3)]) {
            ctx.family(&format!("left alone: interleavings of {la} and {lb} operations, start {si}"));
            let orders: Vec<Vec<u8>> = orders(la, lb);
            for k in 0..WAITS.len() as u8 {
                let ops: Vec<Op> = if la + lb > 4 { vec![Op::Wait(k), Op::Frame, Op::Scene(0)] } else { vec![Op::Wait(k), Op::Frame, Op::Pause, Op::Free(1), Op::Queue, Op::Add(0)] };
                for a in &histories(&ops, la) { for bh in &histories(&ops, lb) {
                    if ctx.done() { return; }
                    if !a.iter().chain(bh).any(|o| matches!(o, Op::Wait(_))) { continue; }
                    ctx.case(|| format!("start {si}, tree 0: {a:?}, tree 1: {bh:?}"), |ctx| {
                        let (wa, wb) = (solo_of(&mut solos, 0, si, a)?, solo_of(&mut solos, 1, si, bh)?);
                        for order in &orders { interleave(ctx, sa, sb, a, bh, order, &wa, &wb)?; }
                        Ok(())
                    });
                } }
            }
        }
    }

    for (si, (sa, sb)) in starts.iter().enumerate() {
        ctx.family(&format!("inside hooks, start {si}"));
        let ops: Vec<Op> = alphabet(n);
        let outer: Vec<Op> = ops.iter().copied().filter(|o| matches!(o, Op::Add(_) | Op::Free(_) | Op::Frame | Op::Scene(_) | Op::Remove(_) | Op::Branch(..) | Op::Loaded(_) | Op::Copy(_) | Op::Queue | Op::Pause)).collect();
        for swap in [false, true] {
            for h in histories(&outer, 2) { for &x in &ops { for hook in [Hk::Ready, Hk::Loaded, Hk::Process, Hk::Terminal] {
                if ctx.done() { return; }
                let who: u8 = swap as u8;
                let (sx, sy): (&Sc, &Sc) = if swap { (sb, sa) } else { (sa, sb) };
                ctx.case(|| format!("start {si}, tree {who}: {h:?}, then a frame; the other tree: {x:?} and a frame in each {hook:?} call"), |ctx| {
                    let mut hist: Vec<Op> = h.clone();
                    hist.push(Op::Frame);
                    let want = solo_of(&mut solos, who, si, &hist)?;
                    let other = solo_of(&mut solos, 1 - who, si, &[x, Op::Frame])?;
                    for nth in 0..12 {
                        if !inside(ctx, who, sx, sy, &hist, Cross { who, hook, nth, op: x }, &want, &other)? { break; }
                    }
                    Ok(())
                });
            } } }
        }
    }

    let threads: Vec<(usize, usize)> = ctx.pick(vec![(2, 6)], vec![(2, 10), (3, 4)]);
    for (si, (sa, sb)) in starts.iter().enumerate() {
        for &(len, n) in &threads {
            ctx.family(&format!("on two threads, {len} operations each, start {si}"));
            let hs: Vec<Vec<Op>> = histories(&alphabet(n), len);
            let orders: Vec<Vec<u8>> = orders(len + 1, len + 1);   // the first turn of each creates its tree
            for a in &hs { for bh in &hs {
                if ctx.done() { return; }
                ctx.case(|| format!("start {si}, thread 0: {a:?}, thread 1: {bh:?}"), |ctx| {
                    let (wa, wb) = (solo_of(&mut solos, 0, si, a)?, solo_of(&mut solos, 1, si, bh)?);
                    on_threads(ctx, sa, sb, a, bh, &orders, &wa, &wb)
                });
            } }
        }
    }

    // Many trees, the i-th of which is i operations ahead of the first, or as many cycles.
    for &count in ctx.pick::<&[usize]>(&[3, 9, 20], &[3, 4, 5, 8, 9, 16, 17, 20, 33, 64]) {
        ctx.family(&format!("{count} trees at once"));
        let ops: Vec<Op> = vec![Op::Add(0), Op::Single(1, 0), Op::Scene(1), Op::Frame, Op::Branch(0, 1), Op::Loaded(1), Op::Name(1, 2), Op::Free(1), Op::Pause, Op::Panic(1), Op::Copy(0), Op::Words, Op::Queue, Op::Frame, Op::Drop];
        let len: usize = ctx.pick(5, 6);
        for si in 0..3usize { for step in 0..ops.len() { for from in 0..ctx.pick(5, ops.len()) { for how in 0..3usize {
            if ctx.done() { return; }
            ctx.case(|| format!("{count} trees of start {si}, operations from {from}, each {step} further, order {how}"), |ctx| {
                let (sa, sb): (Sc, Sc) = start_of(si);
                let hs: Vec<Vec<Op>> = (0..count).map(|i| (0..len).map(|j| ops[(from + i * step + j) % ops.len()]).collect()).collect();
                let ws: Vec<std::rc::Rc<Vec<String>>> = (0..count).map(|i| solo_of(&mut solos, i as u8, si, &hs[i])).collect::<Result<_, _>>()?;
                crowd(ctx, &sa, &sb, &hs, &ws, how)
            });
        } } } }
    }

    ctx.family("asked by turns");
    for (bi, base) in alikes(ctx.quick()).into_iter().enumerate() {
        let vs: Vec<Sc> = variants(&base);
        for (i, v) in vs.iter().enumerate() { for how in 0..3u8 {
            if ctx.done() { return; }
            ctx.case(|| format!("base {bi} and its variant {i}, in way {how}"), |ctx| by_turns(ctx, &base, v, how));
            if i > 0 { ctx.case(|| format!("variants {} and {i} of base {bi}, in way {how}", i - 1), |ctx| by_turns(ctx, &vs[i - 1], v, how)); }
        } }
    }

    let before: usize = ctx.pick(1, 2);
    for (si, (sa, sb)) in starts.iter().enumerate() {
        ctx.family(&format!("gifts, start {si}"));
        let ops:  Vec<Op> = alphabet(n);
        let pre:  Vec<Vec<Op>> = (0..=before).flat_map(|l| histories(&ops, l)).collect();
        for h in &pre { for k in 0..4u8 { for at in 0..2u8 {
            if ctx.done() { return; }
            ctx.case(|| format!("start {si}, tree 0: {h:?}, then its branch {k} goes under node {at} of tree 1"), |ctx| {
                for &x in &ops { for &y in &ops { gift(ctx, sa, sb, h, k, at, x, y)?; } }
                Ok(())
            });
        } } }
    }
}

fn interleave(ctx: &mut Ctx, sa: &Sc, sb: &Sc, a: &[Op], bh: &[Op], order: &[u8], wa: &[String], wb: &[String]) -> Res {
    clear_stage();
    ctx.st.executions += 1;
    let mut ps: [Player; 2] = [Player::new(0, Kit::PLAIN, sa, VERB[0]), Player::new(1, Kit::PLAIN, sb, VERB[1])];
    let (hs, ws): ([&[Op]; 2], [&[String]; 2]) = ([a, bh], [wa, wb]);
    let mut at: [usize; 2] = [0, 0];
    for (i, &w) in order.iter().enumerate() {
        let w: usize = w as usize;
        ctx.st.transitions += 1;
        let got: String = ps[w].apply(hs[w][at[w]]);
        at[w] += 1;
        ctx.state_str(&got);
        if got != ws[w][at[w]] { return Err(Fail { key: "own".into(), msg: format!("order {order:?}, after turn {i}: tree {w} is not what it is by itself\n  {}", differ(&ws[w][at[w]], &got)) }); }
        // The other tree is as it was.
        let o: usize = 1 - w;
        let idle: String = ps[o].observe();
        if idle_part(&idle) != idle_part(&ws[o][at[o]]) { return Err(Fail { key: "other".into(), msg: format!("order {order:?}, after turn {i} of tree {w}: tree {o} has changed\n  {}", differ(&ws[o][at[o]], &idle)) }); }
    }
    Ok(())
}

/// Trees that are varied.
fn alikes(quick: bool) -> Vec<Sc> {
    let names: [&str; 9] = ["R", "A", "B", "C", "D", "E", "F", "G", "H"];
    let mut out: Vec<Sc> = Vec::new();
    for n in 1..=if quick { 7 } else { 9 } { let mut s: Sc = ant(names[n - 1], 0, false, vec![]); for i in (0..n - 1).rev() { s = ant(names[i], 0, i == 2, vec![s]); } out.push(s); }
    out.push(ant("R", 0, false, (1..6).map(|i| ant(names[i], 0, i == 2, vec![])).collect()));
    out.push(ant("R", 0, false, (1..4).map(|i| ant(names[i], 0, i == 2, vec![bee("A", vec![ant("B", 0, true, vec![])]), ant("C", 0, false, vec![])])).collect()));
    out.push(ant("R", 0, false, vec![ant("A", 0, true, vec![ant("B", 0, false, vec![ant("A", 0, false, vec![ant("B", 0, false, vec![]), bee("A", vec![])])])]), ant("B", 0, false, vec![])]));
    out
}

fn sc_at<'a>(s: &'a mut Sc, k: &mut usize) -> Option<&'a mut Sc> {
    if *k == 0 { return Some(s); }
    *k -= 1;
    for c in s.kids.iter_mut() { if let Some(x) = sc_at(c, k) { return Some(x); } }
    None
}

/// Trees that differ from the given one in one thing.
fn variants(s: &Sc) -> Vec<Sc> {
    fn size(s: &Sc) -> usize { 1 + s.kids.iter().map(size).sum::<usize>() }
    let mut out: Vec<Sc> = vec![s.clone()];
    for k in 0..size(s) { for what in 0..5 {
        let mut v: Sc = s.clone();
        let x: &mut Sc = sc_at(&mut v, &mut { k }).unwrap();
        match what {
            0 => x.name = "X".into(),
            1 => x.name = x.name.to_lowercase(),
            2 => if k == 0 || x.bee { continue } else { x.owner = !x.owner },
            3 => x.kids.push(ant("X", 0, false, vec![])),
            _ => if x.kids.len() > 1 { x.kids.rotate_left(1) } else { continue }
        }
        out.push(v);
    } }
    out
}

/// What the nodes have to answer, in tree order, by the description.
fn answers(s: &Sc) -> Vec<String> {
    fn walk(s: &Sc, path: &str, depth: usize, owner: &str, at: usize, out: &mut Vec<String>) {
        let path: String = format!("{path}/{}", s.name);
        let owner: String = if s.owner || depth == 0 { path.clone() } else { owner.to_string() };
        let me: usize = out.len();
        out.push(String::new());
        for (i, k) in s.kids.iter().enumerate() { walk(k, &path, depth + 1, &owner, i, out); }
        out[me] = format!("{} at {path} depth {depth} child {at} owner {owner} kids {:?} below {} id {me}", s.name, s.kids.iter().map(|k| k.name.as_str()).collect::<Vec<_>>(), out.len() - me);
    }
    let mut out: Vec<String> = Vec::new();
    walk(s, "", 0, "", 0, &mut out);
    out
}

fn answer_of(t: &dyn NodeTree, r: RID, base: usize) -> String {
    let Some(n) = t.get_node(r) else { return "gone".into() };
    let path: String = n.get_absolute_path().to_string();
    let at: usize = n.parent_dyn().to_option().map_or(0, |p| p.children().iter().position(|c| c.rid() == r).unwrap_or(99));
    let found: Option<RID> = t.get_node_rid(NodePath::from_str(&path), None);
    let same: Option<RID> = n.get_node_dyn(NodePath::from_str(&path)).to_option().map(|p| p.rid());
    if found != Some(r) || same != found { return format!("{path} leads to {found:?} and {same:?} instead of {r}"); }
    format!("{} at {path} depth {} child {at} owner {} kids {:?} below {} id {}", n.name(), n.depth() - base, n.owner_dyn().get_absolute_path().to_string(), n.children().iter().map(|k| k.name().to_string()).collect::<Vec<_>>(), n.top_down(true).len(), n.rid())
}

/// Two trees that are nearly alike are asked by turns: every node of one before and after every node of the other.
/// Both there at once, one replacing the other, or one in the place the other had.
fn by_turns(ctx: &mut Ctx, a: &Sc, b: &Sc, how: u8) -> Res {
    clear_stage();
    ctx.st.executions += 1;
    let (wa, wb): (Vec<String>, Vec<String>) = (answers(a), answers(b));
    let mut p: Player = Player::new(0, Kit::PLAIN, a, 3);
    let base: usize = p.raw().unwrap().root().depth();
    let ask = |p: &mut Player, i: usize, want: &[String], what: &str| -> Res {
        let got: String = p.nodes().get(i).map(|&r| answer_of(p.raw().unwrap(), r, base)).unwrap_or("nothing".into());
        // Ids are compared with the order of creation only where they are that.
        let cut = |s: &str| s.rsplit_once(" id ").map(|x| x.0.to_string()).unwrap_or(s.to_string());
        if cut(&got) != cut(&want[i]) { return Err(Fail { key: what.into(), msg: format!("node {i} of the {what} is\n  {got}\ninstead of\n  {}", want[i]) }); }
        Ok(())
    };
    if how == 0 {
        let mut q: Player = Player::new(1, Kit::PLAIN, b, 3);
        for i in 0..wa.len() { for j in 0..wb.len() {
            ask(&mut p, i, &wa, "first tree")?; ask(&mut q, j, &wb, "second tree")?; ask(&mut p, i, &wa, "first tree")?;
            ctx.st.transitions += 3;
        } }
    } else {
        for i in 0..wa.len() { for j in 0..wb.len() {
            ask(&mut p, i, &wa, "first tree")?;
            if how == 2 { p.end(); }
            let mut q: Player = Player::new(0, Kit::PLAIN, b, 3);
            ask(&mut q, j, &wb, "second tree")?;
            if how == 1 { ask(&mut p, i, &wa, "first tree")?; }
            drop(q);
            if how == 2 { p = Player::new(0, Kit::PLAIN, a, 3); }
            ask(&mut p, i, &wa, "first tree")?;
            ctx.st.transitions += 3;
        } }
    }
    Ok(())
}

/// Many trees taking turns: in order, in order backwards, or each doing all it does while the ones before it are already done.
fn crowd(ctx: &mut Ctx, sa: &Sc, sb: &Sc, hs: &[Vec<Op>], ws: &[std::rc::Rc<Vec<String>>], how: usize) -> Res {
    clear_stage();
    ctx.st.executions += 1;
    let (count, len): (usize, usize) = (hs.len(), hs[0].len());
    let mut ps: Vec<Player> = (0..count).map(|i| Player::new(i as u8, Kit::PLAIN, if i & 1 == 0 { sa } else { sb }, VERB[i & 1])).collect();
    let mut at: Vec<usize> = vec![0; count];
    let turns: Vec<usize> = match how {
        0 => (0..len * count).map(|t| t % count).collect(),
        1 => (0..len * count).map(|t| count - 1 - t % count).collect(),
        _ => (0..len * count).map(|t| t / len).collect()
    };
    for (t, &w) in turns.iter().enumerate() {
        ctx.st.transitions += 1;
        let got: String = ps[w].apply(hs[w][at[w]]);
        at[w] += 1;
        ctx.state_str(&got);
        if got != ws[w][at[w]] { return Err(Fail { key: "own".into(), msg: format!("after turn {t}: tree {w} of {count} is not what it is by itself\n  {}", differ(&ws[w][at[w]], &got)) }); }
        for o in 0..count {
            // All of the others at the end of a round, a few of them at every turn.
            if o == w || !(t % count == count - 1 || o + 1 == w || w + 1 == o || o == (t * 7) % count) { continue; }
            let idle: String = ps[o].observe();
            if idle_part(&idle) != idle_part(&ws[o][at[o]]) { return Err(Fail { key: "other".into(), msg: format!("after turn {t} of tree {w}: tree {o} of {count} has changed\n  {}", differ(&ws[o][at[o]], &idle)) }); }
        }
    }
    Ok(())
}

/// What is seen without doing anything (signals heard are only reported once).
fn idle_part(s: &str) -> String { s.lines().filter(|l| !l.starts_with("heard ")).collect::<Vec<_>>().join("\n") }

/// Whether there was such a hook call.
fn inside(ctx: &mut Ctx, who: u8, sx: &Sc, sy: &Sc, hist: &[Op], cross: Cross, want: &[String], other: &[String]) -> Result<bool, Fail> {
    clear_stage();
    ctx.st.executions += 1;
    let mut outer: Player = Player::new(who, Kit::PLAIN, sx, VERB[who as usize]);
    let mut inner: Player = Player::new(1 - who, Kit::PLAIN, sy, VERB[1 - who as usize]);
    let (op, ip): (*mut Player, *mut Player) = (&mut outer, &mut inner);
    STAGE.with(|s| { let mut s = s.borrow_mut(); s.players = if who == 0 { vec![op, ip] } else { vec![ip, op] }; s.cross = Some(cross); s.expect = vec![other[1].clone()]; });
    let mut crossed: bool = false;
    for (i, &o) in hist.iter().enumerate() {
        ctx.st.transitions += 1;
        // The clock goes on while the other tree acts inside, which this tree's own frame does not see.
        let got: String = unsafe { (*op).apply(o) };
        let done: Option<Result<(), Fail>> = STAGE.with(|s| s.borrow_mut().crossed.take());
        let now_crossed: bool = done.is_some();
        if let Some(Err(f)) = done { clear_stage(); return Err(f); }
        crossed |= now_crossed;
        let (g, w): (String, String) = if now_crossed { (untimed(&got), untimed(&want[i + 1])) } else { (got, want[i + 1].clone()) };
        if g != w { clear_stage(); return Err(Fail { key: "outer".into(), msg: format!("call {} of {:?}, step {i}: the tree in whose hook the other one acted is not what it is by itself\n  {}", cross.nth, cross.hook, differ(&w, &g)) }); }
        ctx.state_str(&g);
    }
    if crossed {
        let got: String = unsafe { (*ip).apply(Op::Frame) };
        if got != other[2] { clear_stage(); return Err(Fail { key: "inner".into(), msg: format!("call {} of {:?}: the tree that acted inside a hook of the other is not what it is by itself, a frame later\n  {}", cross.nth, cross.hook, differ(&other[2], &got)) }); }
    }
    clear_stage();
    Ok(crossed)
}

/// Without the deltas, for an operation during which the clock was moved on.
fn untimed(s: &str) -> String {
    s.lines().map(|l| if let Some(h) = l.strip_prefix("hooks ") {
        h.split(';').map(|c| match c.find(|x: char| x.is_ascii_digit()) { Some(_) if c.starts_with("Process") => c.split_whitespace().take(2).collect::<Vec<_>>().join(" "), _ => c.replace(" whole time", "") }).collect::<Vec<_>>().join(";")
    } else { l.to_string() }).collect::<Vec<_>>().join("\n")
}

fn on_threads(ctx: &mut Ctx, sa: &Sc, sb: &Sc, a: &[Op], bh: &[Op], orders: &[Vec<u8>], wa: &[String], wb: &[String]) -> Res {
    struct Lane { go: Option<mpsc::Sender<Option<Op>>>, done: mpsc::Receiver<String>, handle: Option<std::thread::JoinHandle<()>> }
    let lane = |who: u8, start: &Sc| -> Lane {
        let (go, orders):  (mpsc::Sender<Option<Op>>, mpsc::Receiver<Option<Op>>) = mpsc::channel();
        let (tell, done):  (mpsc::Sender<String>, mpsc::Receiver<String>)         = mpsc::channel();
        let start: Sc = start.clone();
        let handle = std::thread::Builder::new().stack_size(4 << 20).spawn(move || {
            // Every order of turns begins with a new tree.
            let mut p: Option<Player> = None;
            while let Ok(turn) = orders.recv() {
                let said: String = match turn {
                    Some(op) if p.is_some() => p.as_mut().unwrap().apply(op),
                    _ => { p = None; clear_stage(); p = Some(Player::new(who, Kit::PLAIN, &start, VERB[who as usize])); p.as_mut().unwrap().observe() }
                };
                if tell.send(said).is_err() { break; }
            }
        }).expect("thread");
        Lane { go: Some(go), done, handle: Some(handle) }
    };
    let mut lanes: [Lane; 2] = [lane(0, sa), lane(1, sb)];
    let (hs, ws): ([&[Op]; 2], [&[String]; 2]) = ([a, bh], [wa, wb]);
    let mut res: Res = Ok(());
    'all: for order in orders {
        ctx.st.executions += 1;
        let mut at: [usize; 2] = [0, 0];
        for &w in order {
            let w: usize = w as usize;
            ctx.st.transitions += 1;
            let turn: Option<Op> = if at[w] == 0 { None } else { Some(hs[w][at[w] - 1]) };
            let _ = lanes[w].go.as_ref().unwrap().send(turn);
            let Ok(got) = lanes[w].done.recv() else { res = Err(Fail { key: "thread".into(), msg: format!("order {order:?}: thread {w} panicked in {turn:?}") }); break 'all };
            if got != ws[w][at[w]] { res = Err(Fail { key: "threads".into(), msg: format!("order {order:?}, turn {}: the tree of thread {w} is not what it is by itself\n  {}", at[w], differ(&ws[w][at[w]], &got)) }); break 'all; }
            at[w] += 1;
        }
    }
    for l in &mut lanes { l.go = None; if let Some(h) = l.handle.take() { let _ = h.join(); } }
    res
}

/// What a branch from there on holds, as a scene.
fn describe(p: &mut Player, r: RID, top: bool) -> Sc {
    let t = p.raw().unwrap();
    let n: &dyn Node = t.get_node(r).unwrap();
    let any: &dyn std::any::Any = n.as_any_ref();
    let (bee, mode): (bool, u8) = match any.downcast_ref::<Ant>() { Some(a) => (false, *a.mode), None => (true, 0) };
    let (name, owner): (String, bool) = (n.name().to_string(), n.is_owner());
    let kids: Vec<RID> = n.children().iter().map(|c| c.rid()).collect();
    Sc { bee, mode, name, owner: owner && !top, kids: kids.into_iter().map(|k| describe(p, k, false)).collect() }
}

fn gift(ctx: &mut Ctx, sa: &Sc, sb: &Sc, h: &[Op], k: u8, at: u8, x: Op, y: Op) -> Res {
    ctx.st.executions += 1;
    // Both together: the branch of the first goes to the second, then each acts.
    clear_stage();
    let (mut got_a, mut got_b, doc): (Vec<String>, Vec<String>, Option<Sc>);
    {
        let mut a: Player = Player::new(0, Kit::PLAIN, sa, VERB[0]);
        let mut o: Player = Player::new(1, Kit::PLAIN, sb, VERB[1]);
        for &op in h { a.apply(op); }
        let Some(n) = a.at(k) else { return Ok(()) };
        let r: RID = n.rid();
        let branch: NodeScene = n.save_as_branch();
        doc = Some(describe(&mut a, r, true));
        got_a = Vec::new(); got_b = Vec::new();
        if let Some(m) = o.at(at) { m.add_child(branch); }
        o.hold();
        got_b.push(o.observe());
        got_a.push(a.apply(x));
        got_b.push(o.apply(y));
        got_a.push(a.apply(Op::Frame));
        got_b.push(o.apply(Op::Frame));
        ctx.st.transitions += 5;
    }
    // Each by itself.
    let mut hist: Vec<Op> = h.to_vec();
    hist.extend([x, Op::Frame]);
    let want_a: Vec<String> = solo(0, Kit::PLAIN, sa, VERB[0], &hist);
    for (i, g) in got_a.iter().enumerate() {
        if neutral(g) != neutral(&want_a[h.len() + 1 + i]) { return Err(Fail { key: "giver".into(), msg: format!("{x:?} / {y:?}: the giving tree is not what it is by itself\n  {}", differ(&neutral(&want_a[h.len() + 1 + i]), &neutral(g))) }); }
        ctx.state_str(g);
    }
    clear_stage();
    let mut o: Player = Player::new(1, Kit::PLAIN, sb, VERB[1]);
    // The nodes given carry the first player's mark, so the scene is built with it.
    if let Some(m) = o.at(at) { m.add_child(doc.unwrap().scene(Kit::PLAIN, 0)); }
    o.hold();
    let want_b: [String; 3] = [o.observe(), o.apply(y), o.apply(Op::Frame)];
    for (g, w) in got_b.iter().zip(&want_b) {
        if neutral(g) != neutral(w) { return Err(Fail { key: "taker".into(), msg: format!("{x:?} / {y:?}: the tree that was given a branch is not what it is with a scene like it\n  {}", differ(&neutral(w), &neutral(g))) }); }
        ctx.state_str(g);
    }
    Ok(())
}

/// Without what nodes of both marks write into the same trace, and without the fields that a copy or loading does not keep.
fn neutral(s: &str) -> String {
    s.lines().filter(|l| !l.starts_with("hooks ") && !l.starts_with("heard ")).map(|l| l.replace(" key true", "").replace(" key false", "").replace(" seen true", "").replace(" seen false", "")).collect::<Vec<_>>().join("\n")
}

/*
 * C28: Hand-written nodes, trees and collections are as good as generated ones
 */

pub const C28: Prop = Prop {
    meta: Meta {
        id: "C28",
        rule: "every operation history over the alphabet up to the length bound, from every start, at every verbosity, is run with generated classes in a TreeSimple and with every combination of hand-written classes, hand-written tree and a collection of one's own, and compared after every step (differential exploration); in every state reached, every accessor of every node and of the tree is compared with the object it belongs to; every scene over the shapes is saved, loaded and re-typed between the two",
        bounds: |t| b(t, "19 operations: histories of length 3 for 4 combinations, of length 2 for all 15, of length 4 for all hand-written; 2 starts, 2 larger ones (40 children, 25 levels) for 4 combinations up to length 2; 4 verbosities up to length 2; 17 deeds in every hook call of histories of up to 2 operations; collections of up to 3 parts without a common root after up to 1 operation; chains of up to 4 nodes over 5 classes that share names or are local; scenes of up to 4 nodes over the 2 classes, each saved, loaded, re-typed, and with every one line left out",
                          "19 operations: histories of length 4 for 4 combinations, of length 3 for all 15; 2 starts, 2 larger ones up to length 3; 4 verbosities up to length 3; 17 deeds in every hook call of histories of up to 3; scenes of up to 5 nodes"),
        assumptions: &["hand-written classes, trees and collections follow the documentation of the traits and derive macros"]
    },
    body: c28
};

fn shared(s: &str) -> String {
    s.lines().map(|l| if l.starts_with("last branch of hash") { "last branch of hash" } else { l }).collect::<Vec<_>>().join("\n")
}

fn c28(ctx: &mut Ctx) {
    let starts: Vec<Sc> = vec![starts()[0].0.clone(), starts()[1].0.clone()];
    let mut ops: Vec<Op> = alphabet(20);
    ops.retain(|o| *o != Op::Drop);
    let kits: Vec<Kit> = (1..16u8).map(|m| Kit { ants: m & 1 != 0, bees: m & 2 != 0, tree: m & 4 != 0, bunch: m & 8 != 0 }).collect();
    let long: Vec<Kit> = vec![kits[14], kits[3], kits[2], kits[0]];   // all, the tree, ants and bees, ants

    let len: usize = ctx.pick(3, 4);
    for (si, start) in starts.iter().enumerate() {
        ctx.family(&format!("histories of length {len}, start {si}"));
        for h in histories(&ops, len) {
            if ctx.done() { return; }
            ctx.case(|| format!("start {si}: {h:?}"), |ctx| alike(ctx, start, &h, &long, 1));
        }
        for vi in 0..4u8 {
            ctx.family(&format!("histories of length {}, start {si}, verbosity {vi}, all combinations", len - 1));
            for h in histories(&ops, len - 1) {
                if ctx.done() { return; }
                ctx.case(|| format!("start {si}, verbosity {vi}: {h:?}"), |ctx| alike(ctx, start, &h, &kits, vi));
            }
        }
        ctx.family(&format!("accessors, start {si}"));
        for l in 0..len { for h in histories(&ops, l) {
            if ctx.done() { return; }
            ctx.case(|| format!("start {si}, {h:?}, then every accessor"), |ctx| {
                for &kit in std::iter::once(&Kit::PLAIN).chain(&kits) { accessors(ctx, start, &h, kit)?; }
                Ok(())
            });
        } }
    }

    if ctx.quick() {
        ctx.family("histories of length 4, start 1, all hand-written");
        for h in histories(&ops, 4) {
            if ctx.done() { return; }
            ctx.case(|| format!("start 1: {h:?}"), |ctx| alike(ctx, &starts[1], &h, &long[..1], 1));
        }
    }

    // Nodes that do something themselves, while their tree is being made or later.
    for (si, start) in starts.iter().enumerate() {
        for len in 0..=ctx.pick(2, 3) {
            ctx.family(&format!("deeds of nodes, {len} operations, start {si}"));
            let kits: &[Kit] = match len { 0 => &kits, 1 => &long, 2 => ctx.pick(&long[..2], &long), _ => &long[..1] };
            for h in histories(&ops, len) { for what in 0..DEEDS {
                if ctx.done() { return; }
                if ctx.quick() && len == 2 && !h.iter().any(|o| matches!(o, Op::Frame | Op::Loaded(_) | Op::Scene(_) | Op::Queue)) { continue; }
                ctx.case(|| format!("start {si}: {h:?}, then a frame, deed {what} in every hook call"), |ctx| {
                    let mut h: Vec<Op> = h.clone();
                    h.push(Op::Frame);
                    for hook in [Hk::Loaded, Hk::Ready, Hk::Process, Hk::Terminal] {
                        if hook == Hk::Terminal && !matches!(what, 2..=7 | 11) { continue; }
                        for nth in 0..12 { if !alike_with(ctx, start, &h, kits, 1, Some(Deed { who: 0, hook, nth, what, seen: 0 }))? { break; } }
                    }
                    Ok(())
                });
            } }
        }
    }

    // Many nodes side by side, and a deep tree.
    for si in [3usize, 4] {
        let start: Sc = start_of(si).0;
        for len in 1..=ctx.pick(2, 3) {
            ctx.family(&format!("histories of length {len}, start {si}"));
            for h in histories(&ops, len) {
                if ctx.done() { return; }
                ctx.case(|| format!("start {si}: {h:?}"), |ctx| alike(ctx, &start, &h, &long, 1));
            }
        }
    }

    for (si, start) in starts.iter().enumerate() {
        ctx.family(&format!("several at once, start {si}"));
        let shapes: [Sc; 4] = [ant("C", 3, false, vec![]), bee("B", vec![]), extra(), ant("Z", 0, true, vec![ant("Z", 0, true, vec![]), bee("Z", vec![])])];
        let mut lists: Vec<Vec<usize>> = vec![vec![]];
        let mut last: Vec<Vec<usize>> = lists.clone();
        for _ in 0..ctx.pick(3, 4) { last = last.iter().flat_map(|l| (0..shapes.len()).map(move |s| { let mut l = l.clone(); l.push(s); l })).collect(); lists.extend(last.clone()); }
        for l in 0..=1 { for h in histories(&ops, l) { for k in 0..3u8 {
            if ctx.done() { return; }
            ctx.case(|| format!("start {si}, {h:?}, then collections without a common root under node {k}"), |ctx| {
                for list in &lists { for kit in [Kit::PLAIN, kits[14]] { several(ctx, start, &h, k, &list.iter().map(|s| shapes[*s].clone()).collect::<Vec<_>>(), kit)?; } }
                Ok(())
            });
        } } }
    }

    ctx.family("classes declared in odd places");
    let odd: Vec<OddClass> = odd_classes();
    for n in 1..=ctx.pick(4, 5) {
        for code in 0..odd.len().pow(n) {
            if ctx.done() { return; }
            let picked: Vec<usize> = (0..n).map(|i| code / odd.len().pow(i) % odd.len()).collect();
            ctx.case(|| format!("a chain of {:?}", picked.iter().map(|i| odd[*i].name).collect::<Vec<_>>()), |ctx| odd_chain(ctx, &picked.iter().map(|i| odd[*i]).collect::<Vec<_>>()));
        }
    }

    ctx.family("saved and loaded");
    for n in 1..=ctx.pick(4, 5) {
        for sc in scenes_of(n) {
            if ctx.done() { return; }
            ctx.case(|| format!("{sc:?}"), |ctx| documents(ctx, &sc));
        }
    }
}

fn alike(ctx: &mut Ctx, start: &Sc, h: &[Op], kits: &[Kit], v: u8) -> Res { alike_with(ctx, start, h, kits, v, None).map(|_| ()) }

/// Whether the deed was done.
fn alike_with(ctx: &mut Ctx, start: &Sc, h: &[Op], kits: &[Kit], v: u8, deed: Option<Deed>) -> Result<bool, Fail> {
    let want: Vec<String> = solo_with(0, Kit::PLAIN, start, v, h, deed);
    let done: bool = STAGE.with(|s| s.borrow().deed.is_none());
    for w in &want { ctx.state_str(w); }
    for kit in kits {
        ctx.st.executions += 1;
        ctx.st.transitions += h.len() as u64;
        let got: Vec<String> = solo_with(0, *kit, start, v, h, deed);
        for (i, (w, g)) in want.iter().zip(&got).enumerate() {
            let (w, g): (String, String) = (shared(w), shared(g));
            if w != g { return Err(Fail { key: "unlike".into(), msg: format!("{kit:?}, {deed:?}, after step {i}: not what it is with generated classes in a TreeSimple\n  {}", differ(&w, &g).replace("alone:", "generated:").replace("here:", "hand-written:")) }); }
        }
    }
    Ok(done)
}

/// A collection without a common root comes in as its parts would one by one, except that no hook runs before all of it is there.
fn several(ctx: &mut Ctx, start: &Sc, h: &[Op], k: u8, parts: &[Sc], kit: Kit) -> Res {
    let split = |o: String| -> (String, String) {
        let (hooks, rest): (Vec<&str>, Vec<&str>) = o.lines().partition(|l| l.starts_with("hooks "));
        (hooks.concat().trim_start_matches("hooks ").to_string(), rest.join("\n"))
    };
    let run = |together: bool| -> Option<(Vec<String>, String, String)> {
        clear_stage();
        let mut p: Player = Player::new(0, kit, start, 0);
        for &op in h { p.apply(op); }
        let n: &mut dyn Node = p.at(k)?;
        let mut hooks: Vec<String> = Vec::new();
        let take = || -> String { STAGE.with(|s| std::mem::take(&mut s.borrow_mut().trace[0])) };
        take();
        if together { n.add_child(Forest(parts.iter().map(|s| s.bunch(kit, 0, true)).collect())); hooks.push(take()); }
        else { for s in parts { n.add_child(s.bunch(kit, 0, true)); hooks.push(take()); } hooks.reverse(); }
        p.hold();
        let state: String = split(p.observe()).1;
        let frame: String = p.apply(Op::Frame);
        Some((hooks, state, frame))
    };
    let (Some(one), Some(all)) = (run(false), run(true)) else { return Ok(()) };
    ctx.st.executions += 1;
    ctx.st.transitions += parts.len() as u64;
    ctx.state_str(&all.1);
    let bad = |what: &str, w: &str, g: &str| -> Res { Err(Fail { key: "several".into(), msg: format!("{kit:?}, {} parts: {what}\n  {}", parts.len(), differ(w, g).replace("alone:", "one by one:").replace("here:", "together:")) }) };
    if one.0.concat() != all.0.concat() { return bad("the hooks", &one.0.concat(), &all.0.concat()); }
    if one.1 != all.1 { return bad("the tree", &one.1, &all.1); }
    if one.2 != all.2 { return bad("a frame later", &one.2, &all.2); }
    Ok(())
}

/// A chain of nodes of classes that share their names, or are local: saved, loaded, copied, and each of its own class.
fn odd_chain(ctx: &mut Ctx, classes: &[OddClass]) -> Res {
    let bad = |what: String| -> Res { Err(Fail { key: "odd".into(), msg: what }) };
    ctx.st.executions += 1;
    fn chain(classes: &[OddClass], i: usize) -> NodeScene {
        let mut s: NodeScene = NodeScene::new_dyn((classes[i].make)(i as i64 + 7));
        if i + 1 < classes.len() { s.append(chain(classes, i + 1)); }
        s
    }
    let scene: NodeScene = chain(classes, 0);
    let text: String = scene.save_to_str()?;
    ctx.state_str(&text);
    let loaded: NodeScene = match NodeScene::load_from_str(&text) { Ok(s) => s, Err(e) => return bad(format!("what was saved does not load: {e}\n{text}")) };
    let copy: NodeScene = loaded.clone();
    for (what, s) in [("as built", scene), ("loaded", loaded), ("copied", copy)] {
        ctx.st.transitions += 1;
        let mut lab: crate::lab::Lab = crate::lab::Lab::new(s);
        let ids: Vec<RID> = lab.pre_order();
        if ids.len() != classes.len() { return bad(format!("{what}: {} nodes", ids.len())); }
        for (i, r) in ids.into_iter().enumerate() {
            let n: &dyn Node = lab.node(r);
            if (classes[i].mark)(n) != Some(i as i64 + 7) { return bad(format!("{what}: node {i} is of class {} and not of {}, or has lost its field", n.name_as_type(), classes[i].name)); }
            if n.name_as_type() != classes[i].name { return bad(format!("{what}: node {i} of class {} calls itself {}", classes[i].name, n.name_as_type())); }
            let c: Box<dyn Node> = n.clone_as_instance();
            if (classes[i].mark)(&*c) != Some(i as i64 + 7) { return bad(format!("{what}: the copy of node {i} is of another class")); }
        }
    }
    Ok(())
}

fn thin<T: ?Sized>(p: *const T) -> usize { p as *const u8 as usize }

fn accessors(ctx: &mut Ctx, start: &Sc, h: &[Op], kit: Kit) -> Res {
    clear_stage();
    ctx.st.executions += 1;
    let mut p: Player = Player::new(0, kit, start, 3);
    for &op in h { p.apply(op); }
    let bad = |what: String| -> Res { Err(Fail { key: "accessor".into(), msg: format!("{kit:?}: {what}") }) };

    // The tree.
    let t: &mut dyn NodeTree = p.raw().unwrap();
    let home: usize = thin(t as *const dyn NodeTree);
    let views: [(&str, usize); 6] = [
        ("as_dyn", thin(t.as_dyn() as *const dyn NodeTree)), ("as_dyn_mut", thin(t.as_dyn_mut() as *const dyn NodeTree)), ("as_dyn_raw", thin(t.as_dyn_raw())),
        ("as_dyn_raw_mut", thin(t.as_dyn_raw_mut() as *const dyn NodeTree)), ("as_any", thin(t.as_any() as *const dyn std::any::Any)), ("as_any_mut", thin(t.as_any_mut() as *const dyn std::any::Any))
    ];
    for (n, a) in views { if a != home { return bad(format!("the tree's {n} is another object")); } }
    let base: usize = thin(t.base() as *const NodeTreeBase);
    let (derefd, derefd_mut): (usize, usize) = (thin(std::ops::Deref::deref(t) as *const NodeTreeBase), thin(std::ops::DerefMut::deref_mut(t) as *const NodeTreeBase));
    if base != derefd || base != derefd_mut || base != thin(t.base_mut() as *const NodeTreeBase) { return bad("the tree's base, base_mut, deref and deref_mut are not one".into()); }
    if t.as_any().is::<Field2>() != kit.tree || t.as_any().is::<TreeSimple>() == kit.tree { return bad("the tree is not of its own type".into()); }

    // The tree as its nodes see it.
    for r in p.nodes() {
        ctx.st.transitions += 1;
        let n: &mut dyn Node = p.raw().unwrap().get_node_mut(r).unwrap();
        let Some(seen) = n.tree() else { return bad(format!("{:?} sees no tree", n.name())) };
        if thin(seen as *const dyn NodeTree) != home { return bad(format!("{:?} sees another tree", n.name())); }
        if kit.tree {
            let Some(f) = seen.as_any().downcast_ref::<Field2>() else { return bad(format!("{:?} cannot reach what its tree is", n.name())) };
            if thin(f as *const Field2) != home || f.before < 0xAB { return bad(format!("{:?} does not reach its tree's fields", n.name())); }
            let want: (u64, usize) = (f.before + 1, f.after.len() + 1);
            let Some(f) = n.tree_mut().and_then(|t| t.as_any_mut().downcast_mut::<Field2>()) else { return bad(format!("{:?} cannot change what its tree is", n.name())) };
            f.before += 1;
            f.after.push(format!("{}", want.1));
            let f: &Field2 = p.tree.as_ref().unwrap().as_any().downcast_ref::<Field2>().unwrap();
            if (f.before, f.after.len()) != want { return bad("a node's change to its tree's fields is not seen".into()); }
        }
        let n: &mut dyn Node = p.raw().unwrap().get_node_mut(r).unwrap();
        node_views(n, kit).or_else(|e| bad(e))?;

        // A copy is a stray of the same class with the same name and a fresh base.
        let name: String = n.name().to_string();
        let mut c: Box<dyn Node> = n.clone_as_instance();
        if thin(&*c as *const dyn Node) == thin(n as *const dyn Node) { return bad(format!("the copy of {name:?} is itself")); }
        if c.name() != name || c.name_as_type() != n.name_as_type() || (*c).type_id_of() != n.type_id_of() { return bad(format!("the copy of {name:?} is of another name or class")); }
        if !c.is_stray() || c.in_tree() || c.is_root() || c.is_owner() || c.depth() != 0 || c.has_just_loaded() || c.rid() != HBee::new().rid() || !matches!(c.status(), NodeStatus::Normal) { return bad(format!("the copy of {name:?} is not a stray")); }
        node_views(&mut *c, kit).or_else(|e| bad(format!("copy: {e}")))?;
    }
    Ok(())
}

trait TypeIdOf { fn type_id_of(&self) -> std::any::TypeId; }
impl TypeIdOf for dyn Node { fn type_id_of(&self) -> std::any::TypeId { std::any::Any::type_id(self.as_any_ref()) } }

fn node_views(n: &mut dyn Node, kit: Kit) -> Result<(), String> {
    let name: String = n.name().to_string();
    let home: usize = thin(n as *const dyn Node);
    let views: [(&str, usize); 6] = [
        ("as_dyn", thin(n.as_dyn() as *const dyn Node)), ("as_dyn_mut", thin(n.as_dyn_mut() as *const dyn Node)), ("as_dyn_raw", thin(n.as_dyn_raw())),
        ("as_dyn_raw_mut", thin(n.as_dyn_raw_mut() as *const dyn Node)), ("as_any_ref", thin(n.as_any_ref() as *const dyn std::any::Any)), ("as_any_mut", thin(n.as_any_mut() as *const dyn std::any::Any))
    ];
    for (v, a) in views { if a != home { return Err(format!("{v} of {name:?} is another object")); } }
    let base: usize = thin(n.base() as *const NodeBase);
    if base != thin(n.base_mut() as *const NodeBase) || base != thin(std::ops::Deref::deref(n) as *const NodeBase) || base != thin(std::ops::DerefMut::deref_mut(n) as *const NodeBase) {
        return Err(format!("base, base_mut, deref and deref_mut of {name:?} are not one"));
    }
    let any: &dyn std::any::Any = n.as_any_ref();
    let (is, ty): (&str, String) = (match (any.is::<Ant>(), any.is::<HAnt>(), any.is::<Bee>(), any.is::<HBee>()) {
        (true, ..) => "Ant", (_, true, ..) => "HAnt", (_, _, true, _) => "Bee", (_, _, _, true) => "HBee", _ => "nothing known"
    }, n.name_as_type());
    let ant: bool = is.ends_with("Ant");
    if (ant && (is == "HAnt") != kit.ants) || (!ant && (is == "HBee") != kit.bees) { return Err(format!("{name:?} is {is}")); }
    if ty.rsplit("::").next() != Some(is) { return Err(format!("{name:?} of class {is} calls itself {ty}")); }
    let same: bool = match is { "Ant" => ty == std::any::type_name::<Ant>(), "HAnt" => ty == std::any::type_name::<HAnt>(), "Bee" => ty == std::any::type_name::<Bee>(), _ => ty == std::any::type_name::<HBee>() };
    if !same { return Err(format!("{name:?} of class {is} calls itself {ty}")); }
    let saved: Vec<String> = { let m = n.save_from_owned(); let mut k: Vec<String> = m.keys().map(|k| k.to_string()).collect(); k.sort(); k };
    let want: Vec<&str> = if ant { vec!["hit", "key", "mode", "note", "seen", "who"] } else { vec![] };
    if saved != want { return Err(format!("the fields of {name:?} of class {is} are {saved:?}")); }
    Ok(())
}

/// Scenes of n nodes over the two classes, with every owner among the inner ones.
fn scenes_of(n: usize) -> Vec<Sc> {
    fn forests(n: usize) -> Vec<Vec<Sc>> {
        if n == 0 { return vec![Vec::new()]; }
        let mut out: Vec<Vec<Sc>> = Vec::new();
        for first in 1..=n { for t in trees(first) { for rest in forests(n - first) {
            let mut f: Vec<Sc> = vec![t.clone()];
            f.extend(rest);
            for (i, s) in f.iter_mut().enumerate() { s.name = format!("{}{i}", ["C", "q q", "ü"][i % 3]); }
            out.push(f);
        } } }
        out
    }
    fn trees(n: usize) -> Vec<Sc> {
        let mut out: Vec<Sc> = Vec::new();
        for kids in forests(n - 1) {
            out.push(bee("B", kids.clone()));
            out.push(ant("A", (kids.len() % 4) as u8, !kids.is_empty(), kids));
        }
        out
    }
    trees(n)
}

fn typed(s: &str, from: Kit) -> String {
    // As written by either kit, in the other's types.
    if from.ants { s.replace("::HAnt\"", "::Ant\"").replace("::HBee\"", "::Bee\"") } else { s.replace("::Ant\"", "::HAnt\"").replace("::Bee\"", "::HBee\"") }
}

fn seen_of(s: NodeScene, kit: Kit) -> String {
    clear_stage();
    let t: u64 = tick();
    STAGE.with(|st| st.borrow_mut().last[0] = t);
    let tree: Box<dyn NodeTree> = if kit.tree { Field2::new(s, LoggerVerbosity::OnlyPanics) } else { TreeSimple::new(s, LoggerVerbosity::OnlyPanics) };
    let mut p: Player = Player { who: 0, kit, tree: Some(tree), held: Vec::new(), left: String::new() };
    p.hold();
    let mut o: String = p.observe();
    o.push_str(&p.apply(Op::Frame));
    o
}

fn documents(ctx: &mut Ctx, sc: &Sc) -> Res {
    let (gen_, hand): (Kit, Kit) = (Kit::PLAIN, Kit { ants: true, bees: true, tree: true, bunch: false });
    let bad = |what: String| -> Res { Err(Fail { key: "document".into(), msg: what }) };
    ctx.st.executions += 1;
    let (dg, dh): (String, String) = (sc.scene(gen_, 0).save_to_str()?, sc.scene(hand, 0).save_to_str()?);
    let sorted = |s: &str| -> Vec<String> { let mut v: Vec<String> = s.lines().map(|l| l.to_string()).collect(); v.sort(); v };
    if sorted(&typed(&dh, hand)) != sorted(&dg) { return bad(format!("the documents differ:\n{dg}\n---\n{dh}")); }
    ctx.state_str(&sorted(&dg).join("\n"));

    let load = |d: &str, kit: Kit| -> Result<String, String> { Ok(seen_of(NodeScene::load_from_str(d)?, kit)) };
    let want: Result<String, String> = load(&dg, gen_);
    if want.is_err() { return bad(format!("the generated scene does not load: {want:?}")); }
    for (what, d, kit) in [("hand-written", dh.clone(), hand), ("generated, re-typed as hand-written", typed(&dg, gen_), hand), ("hand-written, re-typed as generated", typed(&dh, hand), gen_)] {
        ctx.st.transitions += 1;
        let got: Result<String, String> = load(&d, kit);
        if got != want { return bad(format!("{what}, loaded: {}", match (&want, &got) { (Ok(w), Ok(g)) => differ(w, g), (w, g) => format!("{w:?} / {g:?}") })); }
    }

    // Every line left out: both load, or neither.
    let lines: Vec<&str> = dg.lines().collect();
    for i in 0..lines.len() {
        let cut: String = lines.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, l)| *l).collect::<Vec<_>>().join("\n");
        let (g, h): (Result<String, String>, Result<String, String>) = (load(&cut, gen_), load(&typed(&cut, gen_), hand));
        ctx.st.transitions += 1;
        if g.is_ok() != h.is_ok() { return bad(format!("without the line {:?}: {:?} / {:?}", lines[i], g.map(|_| "loads"), h.map(|_| "loads"))); }
        if let (Ok(g), Ok(h)) = (g, h) && g != h { return bad(format!("without the line {:?}: {}", lines[i], differ(&g, &h))); }
    }
    Ok(())
}
