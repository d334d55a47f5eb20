//! C18: tree options and results. Every expression below is compiled twice, once over the tree-bound types and once over the standard ones.

use std::cell::{ Cell, RefCell };
use std::ops::{ Deref, DerefMut };

use node_tree::prelude::*;

use super::{ Prop, b };
use crate::ctx::{ Ctx, Meta, Res };
use crate::lab::Lab;

thread_local! {
    static LIVE:  Cell<i64> = const { Cell::new(0) };
    static CALLS: RefCell<String> = const { RefCell::new(String::new()) };
}

/// A value that is counted: it must be dropped exactly once.
#[derive(Debug, PartialEq, Eq, Hash)]
pub struct D(i32, Box<i32>);
pub fn d(n: i32) -> D { LIVE.with(|l| l.set(l.get() + 1)); D(n, Box::new(n)) }
impl Clone   for D { fn clone(&self) -> D { call("clone", self.0); d(self.0) } }
impl Default for D { fn default() -> D { call("default", 0); d(70) } }
impl Drop    for D { fn drop(&mut self) { assert!(*self.1 == self.0, "a value was dropped that is none"); LIVE.with(|l| l.set(l.get() - 1)); } }
impl D { fn set(&mut self, n: i32) { self.0 = n; *self.1 = n; } }
impl Deref    for D { type Target = i32; fn deref(&self) -> &i32 { &self.1 } }
impl DerefMut for D { fn deref_mut(&mut self) -> &mut i32 { &mut self.1 } }

fn call(what: &str, n: i32) { CALLS.with(|c| { let mut c = c.borrow_mut(); c.push_str(what); c.push(' '); c.push_str(&n.to_string()); c.push(';'); }); }

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Er(D);

/// What a closure was given.
trait Num { fn num(&self) -> i32; }
impl Num for D { fn num(&self) -> i32 { self.0 } }
impl Num for Er { fn num(&self) -> i32 { 1000 + self.0.0 } }
impl <T: Num + ?Sized> Num for &T { fn num(&self) -> i32 { (**self).num() } }
impl <T: Num + ?Sized> Num for &mut T { fn num(&self) -> i32 { (**self).num() } }

/// What an expression gave, the same text for both kinds of type.
trait Norm { fn norm(&self) -> String; }
impl Norm for D  { fn norm(&self) -> String { format!("D{}", self.0) } }
impl Norm for Er { fn norm(&self) -> String { format!("E{}", self.0.0) } }
impl Norm for bool { fn norm(&self) -> String { self.to_string() } }
impl Norm for i32  { fn norm(&self) -> String { self.to_string() } }
impl Norm for usize  { fn norm(&self) -> String { self.to_string() } }
impl Norm for String { fn norm(&self) -> String { self.clone() } }
impl Norm for () { fn norm(&self) -> String { "()".into() } }
impl <T: Norm + ?Sized> Norm for &T { fn norm(&self) -> String { format!("&{}", (**self).norm()) } }
impl <T: Norm + ?Sized> Norm for &mut T { fn norm(&self) -> String { format!("&mut {}", (**self).norm()) } }
impl <T: Norm> Norm for [T] { fn norm(&self) -> String { format!("[{}]", self.iter().map(|x| x.norm()).collect::<Vec<_>>().join(",")) } }
impl <T: Norm> Norm for Vec<T> { fn norm(&self) -> String { self.as_slice().norm() } }
impl <A: Norm, B: Norm> Norm for (A, B) { fn norm(&self) -> String { format!("({},{})", self.0.norm(), self.1.norm()) } }
impl <A: Norm, B: Norm, C: Norm> Norm for (A, B, C) { fn norm(&self) -> String { format!("({},{},{})", self.0.norm(), self.1.norm(), self.2.norm()) } }
impl <T: Norm> Norm for Option<T> { fn norm(&self) -> String { match self { Some(x) => format!("Some({})", x.norm()), None => "None".into() } } }
impl <T: Norm, E: Norm> Norm for Result<T, E> { fn norm(&self) -> String { match self { Ok(x) => format!("Ok({})", x.norm()), Err(e) => format!("Err({})", e.norm()) } } }
impl <T: Norm> Norm for TreeOption<'_, T> { fn norm(&self) -> String { match self.as_ref().to_option() { Some(x) => format!("Some({})", x.norm()), None => "None".into() } } }
impl <T: Norm, E: Norm> Norm for TreeResult<'_, T, E> { fn norm(&self) -> String { match self.as_ref().to_result() { Ok(x) => format!("Ok({})", x.norm()), Err(e) => format!("Err({})", e.norm()) } } }

#[derive(Clone, Copy)]
struct At { tree: *mut dyn NodeTree, rid: RID, other: RID }

fn opt(n: u32) -> Option<D> { if n == 0 { None } else { Some(d(n as i32)) } }
fn res(n: u32) -> Result<D, Er> { if n < 2 { Err(Er(d(n as i32))) } else { Ok(d(n as i32)) } }

fn to<'a>(at: At, o: Option<D>) -> TreeOption<'a, D> { unsafe { TreeOption::new(at.tree, at.rid, o) } }
fn tr<'a>(at: At, o: Result<D, Er>) -> TreeResult<'a, D, Er> { unsafe { TreeResult::new(at.tree, at.rid, o) } }

const NA: u32 = 4;   // First values: nothing, 1, 2, 3 (errors 0 and 1, values 2 and 3).

/// Names of the expressions, and both versions of each.
macro_rules! expressions {
    ($name:ident, $t:ident, $s:ident, $tt:ty, $st:ty; |$o:ident, $b:ident, $v:ident, $mk:ident, $mr:ident| $( $label:literal => $e:expr; )*) => {
        const $name: &[&str] = &[$($label),*];
        #[allow(unused_variables, unused_mut, unused_assignments)]
        fn $t(which: usize, at: At, a: u32, $b: u32, $v: u32) -> String {
            let $mk = |o: Option<D>| to(At { rid: at.other, ..at }, o);
            let $mr = |o: Result<D, Er>| tr(At { rid: at.other, ..at }, o);
            let mut i: usize = 0;
            $( if i == which { let mut $o: $tt = <$tt as Input>::input(at, a); return { let r = $e; r.norm() }; } i += 1; )*
            unreachable!()
        }
        #[allow(unused_variables, unused_mut, unused_assignments)]
        fn $s(which: usize, at: At, a: u32, $b: u32, $v: u32) -> String {
            let $mk = |o: Option<D>| o;
            let $mr = |o: Result<D, Er>| o;
            let mut i: usize = 0;
            $( if i == which { let mut $o: $st = <$st as Input>::input(at, a); return { let r = $e; r.norm() }; } i += 1; )*
            unreachable!()
        }
    }
}

trait Input { fn input(at: At, a: u32) -> Self; }
impl Input for Option<D> { fn input(_: At, a: u32) -> Self { opt(a) } }
impl Input for TreeOption<'_, D> { fn input(at: At, a: u32) -> Self { to(at, opt(a)) } }
impl Input for Result<D, Er> { fn input(_: At, a: u32) -> Self { res(a) } }
impl Input for TreeResult<'_, D, Er> { fn input(at: At, a: u32) -> Self { tr(at, res(a)) } }

expressions! { OPTION, option_tree, option_std, TreeOption<'_, D>, Option<D>; |o, b, v, mk, mr|
    "is_some"            => (o.is_some(), o.is_none(), o.norm());
    "is_some_and"        => { let want = v as i32; o.is_some_and(|x| { call("f", x.num()); x.num() > want }) };
    "as_ref"             => { let r = o.as_ref().map(|x: &D| x.num()).norm(); (r, o.norm()) };
    "as_ref then as_ref" => { let p = o.as_ref(); let r = p.as_ref().map(|x: &&D| { call("f", x.num()); x.num() }).norm(); r };
    "as_mut"             => { let r = o.as_mut().map(|x: &mut D| { x.set(9); x.num() }).norm(); (r, o.norm()) };
    "as_slice"           => (o.as_slice().norm(), o.as_slice().len(), o.norm());
    "as_mut_slice"       => { let r = { let s = o.as_mut_slice(); for x in s.iter_mut() { let n: i32 = x.num(); x.set(n + 5); } s.len() }; (r, o.norm()) };
    "iter"               => (o.iter().map(|x: &D| x.num()).collect::<Vec<i32>>(), o.iter().rev().count(), o.norm());
    "iter len"           => (o.iter().len(), o.iter().size_hint().0, o.iter().next().is_some());
    "iter_mut"           => { for x in o.iter_mut() { x.set(8); } o };
    "expect"             => if a_is_some(&o.norm()) { Some(o.expect("no")) } else { None };
    "unwrap"             => if a_is_some(&o.norm()) { Some(o.unwrap()) } else { None };
    "unwrap_unchecked"   => if a_is_some(&o.norm()) { Some(unsafe { o.unwrap_unchecked() }) } else { None };
    "unwrap_or"          => o.unwrap_or(d(50));
    "unwrap_or_else"     => o.unwrap_or_else(|| { call("f", 0); d(51) });
    "unwrap_or_default"  => o.unwrap_or_default();
    "map"                => o.map(|x: D| { call("f", x.num()); d(x.num() * 10 + v as i32) });
    "inspect"            => o.inspect(|x| call("f", x.num()));
    "map_or"             => o.map_or(d(52), |x: D| { call("f", x.num()); d(x.num() + 100) });
    "map_or_else"        => o.map_or_else(|| { call("d", 0); d(53) }, |x: D| { call("f", x.num()); d(x.num() + 100) });
    "ok_or"              => o.ok_or(Er(d(60)));
    "ok_or_else"         => o.ok_or_else(|| { call("e", 0); Er(d(61)) });
    "as_deref"           => { let r = o.as_deref().norm(); (r, o.norm()) };
    "as_deref_mut"       => { let r = o.as_deref_mut().map(|x: &mut i32| { let y: i32 = *x; *x = y; y }).norm(); (r, o.norm()) };
    "and"                => o.and(mk(opt(b)));
    "and another type"   => o.and(mk(opt(b)).map(|x: D| x.num()));
    "and_then"           => o.and_then(|x: D| { call("f", x.num()); mk(if v == 0 { None } else { Some(d(x.num() * 10 + v as i32)) }) });
    "filter"             => { let want = v as i32; o.filter(|x| { call("f", x.num()); x.num() > want }) };
    "or"                 => o.or(mk(opt(b)));
    "or_else"            => o.or_else(|| { call("f", 0); mk(opt(b)) });
    "xor"                => o.xor(mk(opt(b)));
    "insert"             => { let r = { let x: &mut D = o.insert(d(30)); let n: i32 = x.num(); x.set(n + v as i32); n }; (r, o.norm()) };
    "get_or_insert"      => { let r = { let x: &mut D = o.get_or_insert(d(31)); let n: i32 = x.num(); x.set(n + 100 * v as i32); n }; (r, o.norm()) };
    "get_or_insert_default" => { let r = { let x: &mut D = o.get_or_insert_default(); let n: i32 = x.num(); x.set(n + 100 * v as i32); n }; (r, o.norm()) };
    "get_or_insert_with" => { let r = { let x: &mut D = o.get_or_insert_with(|| { call("f", 0); d(32) }); let n: i32 = x.num(); x.set(n + 100 * v as i32); n }; (r, o.norm()) };
    "take"               => { let r = o.take().norm(); (r, o.norm()) };
    "take_if"            => { let want = v as i32; let r = o.take_if(|x| { call("f", x.num()); let n: i32 = x.num(); x.set(n + 20); n > want }).norm(); (r, o.norm()) };
    "replace"            => { let r = o.replace(d(33)); (r, o.norm()) };
    "zip"                => o.zip(mk(opt(b)));
    "zip another type"   => o.zip(mk(opt(b)).map(|x: D| x.num()));
    "unzip"              => o.map(|x: D| { let n: i32 = x.num(); (x, n + 1) }).unzip();
    "copied"             => { let p = o.as_ref().map(|x: &D| x.num()); let r = p.as_ref().copied().norm(); r };
    "copied from mut"    => { let mut p = o.as_ref().map(|x: &D| x.num()); let r = p.as_mut().copied().norm(); r };
    "cloned"             => { let r = o.as_ref().cloned().norm(); (r, o.norm()) };
    "cloned from mut"    => { let r = o.as_mut().cloned().norm(); (r, o.norm()) };
    "transpose"          => o.map(|x: D| mr(if v == 0 { Err(Er(x)) } else { Ok(x) })).transpose();
    "transpose nothing"  => o.map(|x: D| mr(if x.num() as u32 > v { Err(Er(x)) } else { Ok(x) })).transpose();
    "flatten"            => o.map(|x: D| mk(if v == 0 { None } else { Some(x) })).flatten();
    "clone"              => { let c = o.clone(); if let Some(x) = o.as_mut_slice().first_mut() { x.set(99); } (c.norm(), o.norm()) };
    "equality"           => (o == o.clone(), o != o.clone(), { let mut c = o.clone(); let _ = c.insert(d(77)); o == c });
}

expressions! { RESULT, result_tree, result_std, TreeResult<'_, D, Er>, Result<D, Er>; |o, b, v, mk, mr|
    "is_ok"              => (o.is_ok(), o.is_err(), o.norm());
    "is_ok_and"          => { let want = v as i32; o.is_ok_and(|x| { call("f", x.num()); x.num() > want + 1 }) };
    "is_err_and"         => { let want = v as i32; o.is_err_and(|x| { call("f", x.num()); x.num() > 1000 + want - 1 }) };
    "ok"                 => o.ok();
    "err"                => o.err();
    "as_ref"             => { let r = o.as_ref().map(|x: &D| x.num()).norm(); (r, o.norm()) };
    "as_mut"             => { let r = o.as_mut().map(|x: &mut D| { x.set(9); x.num() }).map_err(|x: &mut Er| { x.0.set(19); x.num() }).norm(); (r, o.norm()) };
    "map"                => o.map(|x: D| { call("f", x.num()); d(x.num() * 10 + v as i32) });
    "map_or"             => o.map_or(d(52), |x: D| { call("f", x.num()); d(x.num() + 100) });
    "map_or_else"        => o.map_or_else(|e: Er| { call("d", e.num()); d(53) }, |x: D| { call("f", x.num()); d(x.num() + 100) });
    "map_err"            => o.map_err(|e: Er| { call("f", e.num()); e.num() + 1 });
    "inspect"            => o.inspect(|x| call("f", x.num()));
    "inspect_err"        => o.inspect_err(|x| call("f", x.num()));
    "as_deref"           => o.as_deref().norm();
    "as_deref_mut"       => o.as_deref_mut().map(|x: &mut i32| { let y: i32 = *x; *x = y; y }).map_err(|e: &mut Er| { e.0.set(19); e.num() }).norm();
    "iter"               => (o.iter().map(|x: &D| x.num()).collect::<Vec<i32>>(), o.iter().len(), o.norm());
    "iter_mut"           => { for x in o.iter_mut() { x.set(8); } o };
    "expect"             => if is_ok(&o.norm()) { Some(o.expect("no")) } else { None };
    "unwrap"             => if is_ok(&o.norm()) { Some(o.unwrap()) } else { None };
    "unwrap_unchecked"   => if is_ok(&o.norm()) { Some(unsafe { o.unwrap_unchecked() }) } else { None };
    "expect_err"         => if is_ok(&o.norm()) { None } else { Some(o.expect_err("no")) };
    "unwrap_err"         => if is_ok(&o.norm()) { None } else { Some(o.unwrap_err()) };
    "unwrap_err_unchecked" => if is_ok(&o.norm()) { None } else { Some(unsafe { o.unwrap_err_unchecked() }) };
    "unwrap_or_default"  => o.unwrap_or_default();
    "unwrap_or"          => o.unwrap_or(d(50));
    "unwrap_or_else"     => o.unwrap_or_else(|e| { call("f", e.num()); d(51) });
    "and"                => o.and(mr(res(b)));
    "and another type"   => o.and(mr(res(b)).map(|x: D| x.num()));
    "and_then"           => o.and_then(|x: D| { call("f", x.num()); mr(if v == 0 { Err(Er(d(62))) } else { Ok(d(x.num() * 10 + v as i32)) }) });
    "or"                 => o.or(mr(res(b)));
    "or_else"            => o.or_else::<Er, _>(|e| { call("f", e.num()); mr(res(b)) });
    "copied"             => { let p = o.as_ref().map(|x: &D| x.num()); let r = p.as_ref().map_err(|e: &&Er| e.num()).copied().norm(); r };
    "copied from mut"    => { let mut p = o.as_ref().map(|x: &D| x.num()); let r = p.as_mut().map_err(|e: &mut &Er| e.num()).copied().norm(); r };
    "cloned"             => { let r = o.as_ref().cloned().norm(); (r, o.norm()) };
    "cloned from mut"    => { let r = o.as_mut().cloned().norm(); (r, o.norm()) };
    "transpose"          => o.map(|x: D| mk(if v == 0 { None } else { Some(x) })).transpose();
    "transpose by value" => o.map(|x: D| mk(if x.num() as u32 > v + 1 { None } else { Some(x) })).transpose();
    "flatten"            => o.map(|x: D| mr(if v == 0 { Err(Er(x)) } else { Ok(x) })).flatten();
    "clone"              => { let c = o.clone(); for x in o.iter_mut() { x.set(99); } (c.norm(), o.norm()) };
    "equality"           => (o == o.clone(), o != o.clone(), { let mut c = o.clone(); for x in c.iter_mut() { x.set(77); } o == c });
}

fn a_is_some(norm: &str) -> bool { norm != "None" }
fn is_ok(norm: &str) -> bool { norm.starts_with("Ok") }

/// Steps from an option or result to another of the same type, for chains; the other operands belong to another node.
macro_rules! steps {
    ($count:ident, $t:ident, $s:ident, $tt:ty, $st:ty; |$o:ident, $mk:ident, $mr:ident| $( $label:literal => $e:expr; )*) => {
        const $count: &[&str] = &[$($label),*];
        #[allow(unused_mut, unused_variables, unused_assignments)]
        fn $t<'a>(which: usize, at: At, o: $tt) -> $tt {
            let $mk = |o: Option<D>| to::<'a>(At { rid: at.other, ..at }, o);
            let $mr = |o: Result<D, Er>| tr::<'a>(At { rid: at.other, ..at }, o);
            let mut i: usize = 0;
            let mut $o: $tt = o;
            $( if i == which { return $e; } i += 1; )*
            unreachable!()
        }
        #[allow(unused_mut, unused_variables, unused_assignments)]
        fn $s(which: usize, o: $st) -> $st {
            let $mk = |o: Option<D>| o;
            let $mr = |o: Result<D, Er>| o;
            let mut i: usize = 0;
            let mut $o: $st = o;
            $( if i == which { return $e; } i += 1; )*
            unreachable!()
        }
    }
}

steps! { OPTION_STEPS, option_step_tree, option_step_std, TreeOption<'a, D>, Option<D>; |o, mk, mr|
    "map"           => o.map(|x: D| { call("map", x.num()); d(x.num() + 1) });
    "filter odd"    => o.filter(|x| { call("filter", x.num()); x.num() % 2 == 1 });
    "inspect"       => o.inspect(|x| call("inspect", x.num()));
    "or"            => o.or(mk(Some(d(5))));
    "or nothing"    => o.or(mk(None));
    "or_else"       => o.or_else(|| { call("or_else", 0); mk(Some(d(6))) });
    "and"           => o.and(mk(Some(d(7))));
    "and nothing"   => o.and(mk(None));
    "and_then"      => o.and_then(|x: D| { call("and_then", x.num()); mk(if x.num() > 6 { None } else { Some(d(x.num() * 2)) }) });
    "xor"           => o.xor(mk(Some(d(4))));
    "xor nothing"   => o.xor(mk(None));
    "zip"           => o.zip(mk(Some(d(3)))).map(|(a, b): (D, D)| d(a.num() * 10 + b.num()));
    "unzip"         => o.map(|x: D| (d(x.num()), x)).unzip().1;
    "ok_or"         => o.ok_or(Er(d(8))).ok();
    "ok_or_else"    => o.ok_or_else(|| Er(d(8))).err().map(|e: Er| d(e.num()));
    "flatten"       => o.map(|x: D| mk(if x.num() > 4 { None } else { Some(x) })).flatten();
    "transpose"     => o.map(|x: D| mr(if x.num() > 4 { Err(Er(x)) } else { Ok(x) })).transpose().ok().flatten();
    "take"          => { let r = o.take(); drop_it(r.map(|x: D| x.num()).norm()); o };
    "insert"        => { o.insert(d(9)); o };
    "replace"       => { o.replace(d(10)); o };
    "get_or_insert" => { o.get_or_insert(d(11)).set(12); o };
    "take_if"       => { let r = o.take_if(|x| x.num() > 4); drop_it(r.map(|x: D| x.num()).norm()); o };
    "clone"         => o.clone();
    "as_mut"        => { drop_it(o.as_mut().map(|x: &mut D| { x.set(2); 0 }).norm()); o };
}
fn drop_it(s: String) { CALLS.with(|c| c.borrow_mut().push_str(&s)); }

steps! { RESULT_STEPS, result_step_tree, result_step_std, TreeResult<'a, D, Er>, Result<D, Er>; |o, mk, mr|
    "map"         => o.map(|x: D| { call("map", x.num()); d(x.num() + 1) });
    "map_err"     => o.map_err(|e: Er| { call("map_err", e.num()); Er(d(e.num() + 1)) });
    "inspect"     => o.inspect(|x| call("inspect", x.num()));
    "inspect_err" => o.inspect_err(|x| call("inspect_err", x.num()));
    "or"          => o.or(mr(Ok(d(5))));
    "or failure"  => o.or(mr(Err(Er(d(6)))));
    "or_else"     => o.or_else::<Er, _>(|e| { call("or_else", e.num()); mr(if e.num() % 2 == 0 { Ok(d(7)) } else { Err(Er(d(8))) }) });
    "and"         => o.and(mr(Ok(d(9))));
    "and failure" => o.and(mr(Err(Er(d(10)))));
    "flatten"     => o.map(|x: D| mr(if x.num() > 4 { Err(Er(x)) } else { Ok(x) })).flatten();
    "transpose"   => o.map(|x: D| mk(if x.num() > 4 { None } else { Some(x) })).transpose().unwrap_or(mr(Err(Er(d(11)))));
    "ok"          => o.ok().ok_or(Er(d(12)));
    "err"         => o.err().ok_or(d(13)).map(|e: Er| d(e.num())).map_err(|x: D| Er(x));
    "clone"       => o.clone();
    "as_mut"      => { drop_it(o.as_mut().map(|x: &mut D| { x.set(2); 0 }).map_err(|e: &mut Er| { e.0.set(3); 1 }).norm()); o };
}

/// A tree of four nodes: the root, two children, and a grandchild. Only the texts matter here.
class! {
    pub declare Asker;
    pub let number: i32 = 7;
}
class! {
    pub declare Other;
    pub let number: i32 = 8;
}

fn tree() -> Lab {
    let mut root: NodeScene = NodeScene::new(Asker::new());
    let mut a: NodeScene = NodeScene::new(Asker::new());
    a.append(NodeScene::new(Other::new()));
    root.append(a);
    root.append(NodeScene::new(Other::new()));
    Lab::with(root, LoggerVerbosity::OnlyPanics)
}
const SHOWN: [&str; 4] = ["[Asker]", "[Asker/Asker]", "[Asker/Asker/Other]", "[Asker/Other]"];

fn clean() -> String {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}

/// Nothing may be left alive.
fn settled(what: &dyn Fn() -> String) -> Res {
    let n: i64 = LIVE.with(|l| l.replace(0));
    if n != 0 { return Err(format!("{}: {n} values are left undropped (or were dropped too often)", what()).into()); }
    Ok(())
}

fn compare(ctx: &mut Ctx, what: &dyn Fn() -> String, tree: impl FnOnce() -> String, std: impl FnOnce() -> String) -> Res {
    ctx.st.executions += 1; ctx.st.transitions += 1;
    clean();
    let want: String = std();
    let want_calls: String = clean();
    settled(what)?;
    let got: String = tree();
    let got_calls: String = clean();
    settled(what)?;
    if got != want { return Err(format!("{} gives {got}, and {want} with the standard type", what()).into()); }
    if got_calls != want_calls { return Err(format!("{} calls {got_calls:?}, and {want_calls:?} with the standard type", what()).into()); }
    ctx.outcome(&got);
    ctx.state_str(&format!("{}{got}{got_calls}", what()));
    Ok(())
}

/// Something that cannot succeed has to log, end the tree and unwind.
fn fails(l: &mut Lab, what: &str, shown: Option<&str>, parts: &[&str], f: impl FnOnce()) -> Res {
    let before: usize = l.tree().get_log().len();
    let unwound: bool = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    let new: String = l.tree().get_log()[before..].to_string();
    if !unwound { return Err(format!("{what} does not unwind; the log got {new:?}").into()); }
    let lines: Vec<&str> = new.lines().filter(|s| s.contains("| PANIC! |")).collect();
    if lines.len() != 1 { return Err(format!("{what} logs {} panics: {new:?}", lines.len()).into()); }
    if let Some(s) = shown { if !lines[0].contains(&format!(" UTC> | {s} | PANIC! | ")) { return Err(format!("{what}, asked by {s}, logs {:?}", lines[0]).into()); } }
    for p in parts { if !new.contains(p) { return Err(format!("{what} logs {:?} without {p:?}", new).into()); } }
    if l.tree().process() != TreeStatus::Terminated { return Err(format!("{what} does not end the tree").into()); }
    Ok(())
}

/// How the line names the node: with the part after " | ".
fn failing_line(parts: &[&str]) -> String { parts.concat() }

/// What a failing use is given to say.
const WORDS: [&str; 5] = ["message {one}", "", " ", "two\nlines: {} {0} {:?} %s \\ \"q\" \u{e9}\u{1f980}", "a message of more than sixty-four bytes, which says at length what went wrong and where and why, so that it is never in doubt, whatever it was that went wrong and wherever and whyever it did: abcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz."];

fn c18(ctx: &mut Ctx) {
    let nb: u32 = 4;
    ctx.family("every operation of an option");
    for w in 0..OPTION.len() { ctx.case(|| format!("option: {}", OPTION[w]), |ctx| {
        let mut l: Lab = tree();
        let at: At = At { tree: l.ptr(), rid: l.pre_order()[1], other: l.pre_order()[3] };
        for a in 0..NA { for b in 0..nb { for v in 0..4 {
            compare(ctx, &|| format!("{} of {}, with {} and variant {v}", OPTION[w], if a == 0 { "None".into() } else { format!("Some({a})") }, if b == 0 { "None".into() } else { format!("Some({b})") }), || option_tree(w, at, a, b, v), || option_std(w, at, a, b, v))?;
        } } }
        quiet(&mut l, OPTION[w])
    }); }
    ctx.family("every operation of a result");
    for w in 0..RESULT.len() { ctx.case(|| format!("result: {}", RESULT[w]), |ctx| {
        let mut l: Lab = tree();
        let at: At = At { tree: l.ptr(), rid: l.pre_order()[1], other: l.pre_order()[3] };
        for a in 0..NA { for b in 0..nb { for v in 0..4 {
            let show = |n: u32| if n < 2 { format!("Err({n})") } else { format!("Ok({n})") };
            compare(ctx, &|| format!("{} of {}, with {} and variant {v}", RESULT[w], show(a), show(b)), || result_tree(w, at, a, b, v), || result_std(w, at, a, b, v))?;
        } } }
        quiet(&mut l, RESULT[w])
    }); }

    ctx.family("chains of operations on an option");
    let depth: usize = ctx.pick(5, 6);
    let n: usize = OPTION_STEPS.len();
    for first in 0..n { for second in 0..n { ctx.case(|| format!("option: {} and {} and up to {} more", OPTION_STEPS[first], OPTION_STEPS[second], depth - 2), |ctx| {
        let mut l: Lab = tree();
        let at: At = At { tree: l.ptr(), rid: l.pre_order()[1], other: l.pre_order()[3] };
        for rest in 0..n.pow(depth as u32 - 2) {
            let mut ops: Vec<usize> = vec![first, second];
            let mut r: usize = rest;
            for _ in 2..depth { ops.push(r % n); r /= n; }
            if rest % 256 == 0 { ctx.beat(); }
            for a in 0..2 {
                compare(ctx, &|| format!("{:?} on {}", ops.iter().map(|&i| OPTION_STEPS[i]).collect::<Vec<_>>(), if a == 0 { "None".into() } else { format!("Some({a})") }),
                    || ops.iter().fold(to(at, opt(a)), |o, &w| option_step_tree(w, at, o)).norm(),
                    || ops.iter().fold(opt(a), |o, &w| option_step_std(w, o)).norm())?;
            }
        }
        quiet(&mut l, "a chain")
    }); } }
    ctx.family("chains of operations on a result");
    let depth: usize = ctx.pick(5, 7);
    let n: usize = RESULT_STEPS.len();
    for first in 0..n { for second in 0..n { ctx.case(|| format!("result: {} and {} and up to {} more", RESULT_STEPS[first], RESULT_STEPS[second], depth - 2), |ctx| {
        let mut l: Lab = tree();
        let at: At = At { tree: l.ptr(), rid: l.pre_order()[1], other: l.pre_order()[3] };
        for rest in 0..n.pow(depth as u32 - 2) {
            let mut ops: Vec<usize> = vec![first, second];
            let mut r: usize = rest;
            for _ in 2..depth { ops.push(r % n); r /= n; }
            if rest % 256 == 0 { ctx.beat(); }
            for a in [0, 3] {
                compare(ctx, &|| format!("{:?} on {}", ops.iter().map(|&i| RESULT_STEPS[i]).collect::<Vec<_>>(), if a < 2 { format!("Err({a})") } else { format!("Ok({a})") }),
                    || ops.iter().fold(tr(at, res(a)), |o, &w| result_step_tree(w, at, o)).norm(),
                    || ops.iter().fold(res(a), |o, &w| result_step_std(w, o)).norm())?;
            }
        }
        quiet(&mut l, "a chain")
    }); } }

    // What cannot succeed: asked by every node, named or not, on options and results made in every way.
    ctx.family("uses that cannot succeed");
    for (nth, words) in WORDS.into_iter().enumerate() { for who in 0..4usize { for named in [false, true] { for how in 0..9usize {
        if nth > 0 && how / 3 != 1 { continue; }
        for s1 in 0..=OPTION_STEPS.len() {
        ctx.case(|| format!("failing use {how} of an option after {:?}, asked by node {who}, named {named}, with words {nth}", OPTION_STEPS.get(s1)), |ctx| {
            let mut l: Lab = tree();
            let order: Vec<RID> = l.pre_order();
            if named && !l.at(who).register_as_singleton("tom".into()) { return Err("registration fails".into()); }
            let at: At = At { tree: l.ptr(), rid: order[who], other: order[(who + 1) % 4] };
            let shown: &str = if named { "tom" } else { SHOWN[who] };
            let a: u32 = (how % 3) as u32;
            let o: TreeOption<'_, D> = if s1 < OPTION_STEPS.len() { option_step_tree(s1, at, to(at, opt(a))) } else { to(at, opt(a)) };
            ctx.st.executions += 1; ctx.st.transitions += 1;
            let said: String = format!("| PANIC! | {words}\n");
            let some: bool = a_is_some(&o.norm());
            let r: Res = match (some, how / 3) {
                (true, 0)  => { let _ = o.unwrap(); quiet(&mut l, "unwrap") },
                (true, 1)  => { let _ = o.expect("message one"); quiet(&mut l, "expect") },
                (true, _)  => { let _ = o.ok_or(Er(d(1))).unwrap(); quiet(&mut l, "unwrap") },
                (false, 0) => fails(&mut l, "unwrap of nothing", Some(shown), &["| PANIC! | ", "unwrap"], || { let _ = o.unwrap(); }),
                (false, 1) => fails(&mut l, "expect of nothing", Some(shown), &[&said], || { let _ = o.expect(words); }),
                (false, _) => fails(&mut l, "unwrap of nothing turned into a failure", Some(shown), &["Er(D(1, 1))"], || { let _ = o.ok_or(Er(d(1))).unwrap(); })
            };
            clean();
            LIVE.with(|l| l.set(0));
            r
        });
    } } } } }
    for (nth, words) in WORDS.into_iter().enumerate() { for who in 0..4usize { for named in [false, true] { for how in 0..16usize {
        if nth > 0 && !(how / 4 == 1 || how / 4 == 3) { continue; }
        for s1 in 0..=RESULT_STEPS.len() {
        ctx.case(|| format!("failing use {how} of a result after {:?}, asked by node {who}, named {named}, with words {nth}", RESULT_STEPS.get(s1)), |ctx| {
            let mut l: Lab = tree();
            let order: Vec<RID> = l.pre_order();
            if named && !l.at(who).register_as_singleton("tom".into()) { return Err("registration fails".into()); }
            let at: At = At { tree: l.ptr(), rid: order[who], other: order[(who + 1) % 4] };
            let shown: &str = if named { "tom" } else { SHOWN[who] };
            let a: u32 = (how % 4) as u32;
            let o: TreeResult<'_, D, Er> = if s1 < RESULT_STEPS.len() { result_step_tree(s1, at, tr(at, res(a))) } else { tr(at, res(a)) };
            ctx.st.executions += 1; ctx.st.transitions += 1;
            let text: String = match o.as_ref().to_result() { Ok(x) => format!("{x:?}"), Err(e) => format!("{e:?}") };
            let msg: String = failing_line(&["| PANIC! | ", words, ": ", &text, "\n"]);
            let ok: bool = is_ok(&o.norm());
            let r: Res = match (ok, how / 4) {
                (true, 0)  => { let _ = o.unwrap();                quiet(&mut l, "unwrap") },
                (true, 1)  => { let _ = o.expect("message one");   quiet(&mut l, "expect") },
                (false, 2) => { let _ = o.unwrap_err();            quiet(&mut l, "unwrap_err") },
                (false, 3) => { let _ = o.expect_err("message 1"); quiet(&mut l, "expect_err") },
                (false, 0) => fails(&mut l, "unwrap of a failure", Some(shown), &["| PANIC! | ", "unwrap", &text], || { let _ = o.unwrap(); }),
                (false, _) => fails(&mut l, "expect of a failure", Some(shown), &[&msg], || { let _ = o.expect(words); }),
                (true, 2)  => fails(&mut l, "unwrap_err of a value", Some(shown), &["| PANIC! | ", "unwrap_err", &text], || { let _ = o.unwrap_err(); }),
                (true, _)  => fails(&mut l, "expect_err of a value", Some(shown), &[&msg], || { let _ = o.expect_err(words); })
            };
            clean();
            LIVE.with(|l| l.set(0));
            r
        });
    } } } } }
    ctx.family("failing uses of what the tree gives");
    for who in 0..4usize { for named in [false, true] { for how in 0..10usize { for verb in 0..2 {
        ctx.case(|| format!("way {how}, {}, asked by node {who}, named {named}", ["unwrap", "expect"][verb]), |ctx| {
            let mut l: Lab = tree();
            let order: Vec<RID> = l.pre_order();
            if named && !l.at(who).register_as_singleton("tom".into()) { return Err("registration fails".into()); }
            let shown: &str = if named { "tom" } else { SHOWN[who] };
            let ptr: *mut dyn NodeTree = l.ptr();
            let n: &'static mut dyn Node = l.node(order[who]);
            let other: TpDyn<'static> = unsafe { TpDyn::new(ptr, order[who], order[3]) }.to_result().ok().ok_or("no pointer")?;
            ctx.st.executions += 1; ctx.st.transitions += 1;
            macro_rules! try_it { ($e:expr) => { { let r = $e; fails(&mut l, stringify!($e), Some(shown), if verb == 0 { &["| PANIC! | ", "unwrap"] } else { &["| PANIC! | must be"] }, move || { if verb == 0 { let _ = r.unwrap(); } else { let _ = r.expect("must be"); } }) } } }
            match how {
                0 => try_it!(n.get_child::<Asker>(9)),
                1 => try_it!(n.get_child_dyn(9)),
                2 => try_it!(n.get_node::<Asker>(NodePath::from_str("nowhere"))),
                3 => try_it!(n.get_node_dyn(NodePath::from_str("/nowhere/at/all"))),
                4 => try_it!(n.get_node_dyn("no singleton".to_string())),
                5 => if who == 0 { try_it!(n.parent::<Asker>()) } else { try_it!(n.parent::<Leaf>()) },
                6 => if who == 0 { try_it!(n.parent_dyn()) } else { Ok(()) },
                7 => try_it!(n.owner::<Leaf>()),
                8 => try_it!(other.to::<Asker>()),
                _ => try_it!(other.cast::<dyn Never>())
            }
        });
    } } } }
    ctx.family("failing uses on behalf of a departed node");
    for how in 0..4usize { for who in 1..4usize { for later in [false, true] {
        ctx.case(|| format!("failing use {how} on behalf of the departed node {who}, nodes added later {later}"), |ctx| {
            let mut l: Lab = tree();
            let order: Vec<RID> = l.pre_order();
            let at: At = At { tree: l.ptr(), rid: order[who], other: order[0] };
            l.at(who).free();
            if later { for _ in 0..3 { l.at(0).add_child(Other::new()); } }
            ctx.st.executions += 1; ctx.st.transitions += 1;
            let r: Res = match how {
                0 => fails(&mut l, "unwrap of nothing", None, &["unwrap"], || { let _ = to(at, None).unwrap(); }),
                1 => fails(&mut l, "expect of nothing", None, &["| PANIC! | message one\n"], || { let _ = to(at, None).expect("message one"); }),
                2 => fails(&mut l, "unwrap of a failure", None, &["unwrap", "Er(D(1, 1))"], || { let _ = tr(at, Err(Er(d(1)))).unwrap(); }),
                _ => fails(&mut l, "expect_err of a value", None, &["| PANIC! | message one: D(1, 1)\n"], || { let _ = tr(at, Ok(d(1))).expect_err("message one"); })
            };
            LIVE.with(|l| l.set(0));
            r
        });
    } } }
}

class! { pub declare Leaf; pub let number: i32 = 7; }
trait Never { #[allow(dead_code)] fn never(&self) {} }

/// Nothing that succeeds leaves a trace.
fn quiet(l: &mut Lab, what: &str) -> Res {
    if l.tree().get_log().contains("PANIC") { return Err(format!("{what} logs {:?}", l.tree().get_log()).into()); }
    if !matches!(l.tree().process(), TreeStatus::Process(TreeProcess::Running)) { return Err(format!("{what} ends the tree").into()); }
    Ok(())
}

pub const C18: Prop = Prop {
    meta: Meta {
        id: "C18",
        rule: "every operation of tree options and results, and every chain of them within the bounds, compiled once over the tree-bound and once over the standard types and run on every input with every second operand and closure behaviour; results, contents, closure calls with arguments, and the life of every value are compared; every failing unwrap and expect is made on behalf of every node after every operation",
        bounds: |t| b(t,
            "48 option and 40 result expressions x 4 inputs x 4 second operands x 4 closure behaviours; chains of 5 of 24 option steps and of 5 of 15 result steps; failing uses after each step by 4 nodes, named or not, and of 10 things a tree gives, and on behalf of departed nodes",
            "as quick, with chains of 6 option steps and of 7 result steps"),
        assumptions: &["which node a result of and_then on a tree result is attributed to is left open", "the wording of unwrap's own message is left open"]
    },
    body: c18
};
