//! Programs over the grammars of scene! and class!, generated by tools/gen_macros.py (C23).

use std::cell::RefCell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;

use node_tree::prelude::*;
use toml_edit as toml;

use crate::ctx::{ Ctx, Meta };
use super::{ b, Prop };

#[allow(unused, non_camel_case_types, non_snake_case, uncommon_codepoints, mixed_script_confusables, non_upper_case_globals, clippy::all)]
mod gen_ {
    pub use super::*;
    pub use crate::lab::Lab;

    pub const TEN: u8 = 10;

    /*
     * The classes of the scenes
     */

    class! {
        pub declare P;
        pub                let a: i64    = 0;
        pub export         let b: String = "b".to_string();
        pub unique         let c: u8     = 1;
        pub default        let d: i32;
        pub export default let e: Vec<i64>;
    }
    class! {
        pub declare Q;
        pub        let x: i64;
        pub export let y: String;
        pub        let t: i64 = 0;
        hk _init(x_: i64, y_: String) { let x: i64 = x_; let y: String = y_; }
    }
    pub mod inner {
        use node_tree::prelude::*;
        class! { pub declare R; pub let k: i64; hk _init(k: i64) {} }
        pub mod deeper {
            use node_tree::prelude::*;
            class! { pub declare S; pub export let z: String = "s".to_string(); }
        }
    }

    pub trait Speak { fn speak(&self) -> i64; }
    pub trait Count { fn count(&self) -> i64; }
    pub trait Third { fn third(&self) -> i64; }

    /*
     * What the programs observe
     */

    thread_local! {
        static TICKS: RefCell<BTreeMap<u32, u32>> = RefCell::default();
        static NOTES: RefCell<String> = RefCell::default();
    }

    /// Counts the evaluations of an expression.
    pub fn tick<T>(i: u32, v: T) -> T { TICKS.with(|t| *t.borrow_mut().entry(i).or_insert(0) += 1); v }
    /// How many expressions have been evaluated, exactly once each.
    pub fn ticked() -> String { TICKS.with(|t| { let t = std::mem::take(&mut *t.borrow_mut()); if t.values().all(|n| *n == 1) { format!(" once:{}", t.len()) } else { format!(" counts:{t:?}") } }) }
    pub fn note(s: &str) { NOTES.with(|n| { n.borrow_mut().push_str(s); n.borrow_mut().push(','); }) }
    pub fn noted() -> String { NOTES.with(|n| std::mem::take(&mut *n.borrow_mut())) }

    pub trait Show { fn show(&self) -> String; }
    impl <T: Debug> Show for Field<T> { fn show(&self) -> String { if self.is_void() { "-".into() } else { format!("{:?}", **self) } } }
    impl <T: Debug> Show for UniqueField<T> { fn show(&self) -> String { if self.is_void() { "-".into() } else { format!("{:?}", **self) } } }
    impl <T: Debug + Exportable> Show for ExportableField<T> { fn show(&self) -> String { format!("{:?}", **self) } }
    impl <T: Debug + Default> Show for DefaultField<T> { fn show(&self) -> String { format!("{:?}", **self) } }

    pub fn raw_node(s: &NodeScene) -> *mut dyn Node { unsafe { Box::into_raw(s.get_node()) } }
    pub fn with<N: Node, R>(s: &NodeScene, f: impl FnOnce(&N) -> R) -> R { unsafe { f((*raw_node(s)).as_any_ref().downcast_ref::<N>().expect("another class")) } }
    pub fn setting(s: &NodeScene, v: i64) { unsafe { *(*raw_node(s)).as_any_mut().downcast_mut::<P>().expect("another class").a = v; } }
    /// Gives the nodes back to the allocator.
    pub fn gone(s: NodeScene) { fn go(s: &NodeScene) { for c in s.children() { go(c); } drop(unsafe { s.get_node() }); } go(&s); }

    pub fn dump(s: &NodeScene) -> String {
        let n: &dyn Node = unsafe { &*raw_node(s) };
        let any: &dyn std::any::Any = n.as_any_ref();
        let it: String =
            if let Some(p) = any.downcast_ref::<P>()                     { format!("P({},{},{},{},{})", p.a.show(), p.b.show(), p.c.show(), p.d.show(), p.e.show()) }
            else if let Some(q) = any.downcast_ref::<Q>()                { format!("Q({},{},{})", q.x.show(), q.y.show(), q.t.show()) }
            else if let Some(r) = any.downcast_ref::<inner::R>()         { format!("R({})", r.k.show()) }
            else if let Some(s) = any.downcast_ref::<inner::deeper::S>() { format!("S({})", s.z.show()) }
            else { "?".into() };
        format!("{it}:{:?}[{}]", n.name(), s.children().iter().map(dump).collect::<Vec<_>>().join(" "))
    }

    /// The names of the fields that a saved document of one node holds.
    pub fn keys(doc: &str) -> String {
        let d: toml::DocumentMut = doc.parse().expect("not TOML");
        let mut ks: Vec<String> = d.iter().filter_map(|(_, t)| t.as_table()).flat_map(|t| t.iter().map(|(k, _)| k.to_string()).collect::<Vec<_>>()).filter(|k| k != "metadata").collect();
        ks.sort();
        ks.join(",")
    }

    pub fn fired<T: Debug + 'static>(s: &Signal<T>, v: T) -> String {
        let out: Rc<RefCell<String>> = Rc::default();
        let ear: Rc<RefCell<String>> = out.clone();
        unsafe { s.connect(move |t| ear.borrow_mut().push_str(&format!("|{t:?}"))); }
        s.emit(v);
        out.borrow().clone()
    }

    /// Lets a node live in a tree: two frames, one more while the tree is paused, and the end; then the same for it loaded from a document.
    pub fn life<N: Node>(n: N) -> String {
        let child: NodeScene = NodeScene::new(n);
        let doc:   String    = child.save_to_str().expect("save");
        fn run(child: NodeScene) -> String {
            let mut s: NodeScene = NodeScene::new(P::new());
            s.append(child);
            let mut l: Lab = Lab::new(s);
            l.tree().process(); l.tree().process();
            l.tree().pause(); l.tree().process(); l.tree().unpause();
            l.at(1).free();
            noted()
        }
        let first: String = run(child);
        format!("{first};{}", run(NodeScene::load_from_str(&doc).expect("load")))
    }

    pub fn casts<N: Node>(n: N) -> String {
        let mut l: Lab = Lab::new(n);
        let p: TpDyn = l.at(0).this_dyn();
        let f = |v: Option<i64>| v.map(|v| v.to_string()).unwrap_or("no".into());
        let (a, b, c) = (p.cast::<dyn Speak>().to_option().map(|s| s.speak()), p.cast::<dyn Count>().to_option().map(|s| s.count()), p.cast::<dyn Third>().to_option().map(|s| s.third()));
        format!("{} {} {}", f(a), f(b), f(c))
    }

    include!(concat!(env!("CARGO_MANIFEST_DIR"), "/../target/gen/macros.rs"));
}

pub const C23: Prop = Prop {
    meta: Meta {
        id: "C23",
        rule: "programs over the grammars of scene! (constructor arguments, names, settings, children, links, variables of the user) and class! (field keywords, ways of initialising, types, members, hooks, constructors, traits) and connect! are enumerated from descriptions, expanded and compiled by the macros of the current tree, run, and what they show is compared with what the description says",
        bounds: |t| b(t, "scenes: single nodes in all forms, settings of up to 5 fields, all shapes up to 4 nodes, links at all places; classes: all field keywords and ways for 1 field over 10 types and for 2 fields, all 32 sets of hooks, all pairs of 12 members, conditions on every hook, all pairs of public members from outside, classes called like things of the standard library or of this one, 15 scopes in which such names mean something else, 15 methods of the types of fields that are called like the library's, attributes in effect, 6 to 33 of every kind of member, and as many children, arguments and settings in scenes",
                         "scenes: additionally all pairs of setting expressions, all orders of 5 settings, shapes up to 5 nodes, more styles of writing; classes: additionally all types for 1 field, more for 2, all orders of the five kinds, all triples of members"),
        assumptions: &["a field set twice in one node of a scene, and the order in which independent expressions are evaluated, are left open", "outside of the grammar: hooks returning anything but a plain type name, pub(crate), const and async functions, cfg attributes on fields"]
    },
    body: |ctx: &mut Ctx| {
        let mut last: &str = "";
        for (family, text, run, want) in gen_::PROGRAMS {
            if *family != last { ctx.family(family); last = family; }
            ctx.case(|| text.to_string(), |ctx| {
                gen_::noted(); gen_::ticked();
                let got: String = run();
                ctx.st.executions += 1; ctx.st.transitions += 1; ctx.state_str(text); ctx.outcome(&got);
                if got == *want { Ok(()) } else { Err(format!("shows\n  {got}\ninstead of\n  {want}").into()) }
            });
        }
    }
};
