//! C14 and C25: exportable values.

use std::collections::{ BTreeMap, BTreeSet, HashMap, HashSet };
use std::hash::Hash;
use std::net::{ IpAddr, Ipv4Addr, Ipv6Addr };
use std::path::PathBuf;
use std::rc::Rc;
use std::str::FromStr;
use std::sync::{ Arc, Mutex };
use std::time::Duration;

use node_tree::prelude::*;
use toml_edit::{ Array, Datetime, DocumentMut, InlineTable, Value };

use super::{ Prop, b };
use crate::ctx::{ Ctx, Meta, Res, Tier, fnv };

/// What reading a stored form has to give.
pub enum Spec<T> { Refuse, Is(T), Open }

impl <T> Spec<T> {
    fn map<U>(self, f: impl FnOnce(T) -> U) -> Spec<U> { match self { Spec::Refuse => Spec::Refuse, Spec::Open => Spec::Open, Spec::Is(t) => Spec::Is(f(t)) } }
}

fn all<T>(it: impl Iterator<Item = Spec<T>>) -> Spec<Vec<T>> {
    let mut out:  Vec<T> = Vec::new();
    let mut open: bool   = false;
    for s in it { match s { Spec::Refuse => return Spec::Refuse, Spec::Open => open = true, Spec::Is(t) => out.push(t) } }
    if open { Spec::Open } else { Spec::Is(out) }
}

/// An exportable type with a reference reading of its stored forms.
pub trait Ex: Exportable + Sized {
    fn same(&self, o: &Self) -> bool;
    fn spec(v: &Value) -> Spec<Self>;
    fn vals(big: bool) -> Vec<Self>;
}

/*
 * Leaves
 */

macro_rules! ints { ($($t:ty: [$($few:expr),*] [$($more:expr),*]),*) => { $(
    impl Ex for $t {
        fn same(&self, o: &Self) -> bool { self == o }
        fn spec(v: &Value) -> Spec<Self> {
            match v {
                Value::Integer(i) => match <$t>::try_from(*i.value()) { Ok(x) => Spec::Is(x), Err(_) if stringify!($t) == "u64" => Spec::Open, Err(_) => Spec::Refuse },
                _ => Spec::Refuse
            }
        }
        fn vals(big: bool) -> Vec<Self> { let mut v: Vec<$t> = vec![$($few as $t),*]; if big { v.extend([$($more as $t),*]); } v }
    }
)* } }

ints!(
    u8: [1, 0, 255] [127, 128], u16: [1, 0, 65535] [255, 256, 32767, 32768], u32: [1, 0, u32::MAX] [65535, 65536, i32::MAX, i32::MAX as u32 + 1], u64: [1, 0, u64::MAX] [u32::MAX, i64::MAX, i64::MAX as u64 + 1, 1u64 << 53, (1u64 << 53) + 1, u64::MAX - 1],
    i8: [1, -128, 127] [0, -1], i16: [1, i16::MIN, i16::MAX] [0, -1, 127, 128, -129], i32: [1, i32::MIN, i32::MAX] [0, -1, 32768, -32769], i64: [1, i64::MIN, i64::MAX] [0, -1, (1i64 << 53) + 1, -(1i64 << 53) - 1, i64::MIN + 1]
);

impl Ex for bool {
    fn same(&self, o: &Self) -> bool { self == o }
    fn spec(v: &Value) -> Spec<Self> { match v { Value::Boolean(b) => Spec::Is(*b.value()), _ => Spec::Refuse } }
    fn vals(_: bool) -> Vec<Self> { vec![true, false] }
}

fn floats(big: bool) -> Vec<f64> {
    let mut v: Vec<f64> = vec![1.5, -0.0, f64::NAN];
    if big { v.extend([0.0, 0.1, -1.0, 1.0, 1e15, 1e16, 1e17, 123456789.125, f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, f64::EPSILON, 1e300, 1e-300, 1.0 / 3.0, 9007199254740993.0, std::f64::consts::PI]); }
    v
}
fn same64(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn same32(a: f32, b: f32) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }

impl Ex for f64 {
    fn same(&self, o: &Self) -> bool { same64(*self, *o) }
    fn spec(v: &Value) -> Spec<Self> { match v { Value::Float(f) => Spec::Is(*f.value()), _ => Spec::Refuse } }
    fn vals(big: bool) -> Vec<Self> { floats(big) }
}
impl Ex for f32 {
    fn same(&self, o: &Self) -> bool { same32(*self, *o) }
    fn spec(v: &Value) -> Spec<Self> {
        match v {
            Value::Float(f) => { let x: f64 = *f.value(); if same64(x as f32 as f64, x) { Spec::Is(x as f32) } else { Spec::Open } }, // Rounding is left open.
            _ => Spec::Refuse
        }
    }
    fn vals(big: bool) -> Vec<Self> {
        let mut v: Vec<f32> = vec![1.5, -0.0, f32::NAN];
        if big { v.extend([0.0, 0.1, -1.0, 1e7, 16777217.0, f32::MAX, f32::MIN, f32::MIN_POSITIVE, 1e-45, f32::INFINITY, f32::NEG_INFINITY, 1.0 / 3.0]); }
        v
    }
}

fn strings(big: bool) -> Vec<String> {
    let mut v: Vec<&str> = vec!["a", "", "\"\\\n"];
    if big { v.extend(["'", "''' \"\"\"", "\t\r\n", "\u{0}", "\u{7f}", "\u{1b}[0m", "é", "日本", "😀", "\u{feff}", "a.b = [1]", "# no", "{}", " lead and trail ", "\\u0041", "\u{85}\u{2028}", "e\u{301}", "1", "true", "nan"]); }
    v.into_iter().map(|s| s.to_string()).collect()
}
fn text(v: &Value) -> Option<&str> { match v { Value::String(s) => Some(s.value()), _ => None } }

impl Ex for String {
    fn same(&self, o: &Self) -> bool { self == o }
    fn spec(v: &Value) -> Spec<Self> { match text(v) { Some(s) => Spec::Is(s.to_string()), None => Spec::Refuse } }
    fn vals(big: bool) -> Vec<Self> { strings(big) }
}
impl Ex for char {
    fn same(&self, o: &Self) -> bool { self == o }
    fn spec(v: &Value) -> Spec<Self> {
        let Some(s) = text(v) else { return Spec::Refuse };
        let mut it = s.chars();
        match (it.next(), it.next()) { (Some(c), None) => Spec::Is(c), _ => Spec::Refuse }
    }
    fn vals(big: bool) -> Vec<Self> { let mut v: Vec<char> = vec!['a', '"', '日']; if big { v.extend(['\0', '\n', '\\', '\'', ' ', '\u{7f}', 'é', '😀', char::MAX, '\u{d7ff}', '\u{e000}', '\u{301}']); } v }
}
impl Ex for NodePath {
    fn same(&self, o: &Self) -> bool { self == o }
    fn spec(v: &Value) -> Spec<Self> { match text(v) { Some(s) => Spec::Is(NodePath::from_str(s)), None => Spec::Refuse } }
    fn vals(big: bool) -> Vec<Self> {
        let mut v: Vec<&str> = vec!["a/b", "", "/"];
        if big { v.extend(["/a", "..", ".", "../a", "./a/../b", "a//b", "a/", "é/\"", " /x"]); }
        v.into_iter().map(NodePath::from_str).collect()
    }
}
impl Ex for PathBuf {
    fn same(&self, o: &Self) -> bool { self.as_os_str() == o.as_os_str() }
    fn spec(v: &Value) -> Spec<Self> { match text(v) { Some(s) => Spec::Is(PathBuf::from(s)), None => Spec::Refuse } }
    fn vals(big: bool) -> Vec<Self> {
        let mut v: Vec<&str> = vec!["a/b", "", "/"];
        if big { v.extend(["/tmp/x.toml", "..", "a//b/", "C:\\x", "é/ \"'", "./."]); }
        v.into_iter().map(PathBuf::from).collect()
    }
}

macro_rules! parsed { ($($t:ty: [$($few:expr),*] [$($more:expr),*]),*) => { $(
    impl Ex for $t {
        fn same(&self, o: &Self) -> bool { self == o }
        fn spec(v: &Value) -> Spec<Self> { match text(v).map(<$t>::from_str) { Some(Ok(x)) => Spec::Is(x), _ => Spec::Refuse } }
        fn vals(big: bool) -> Vec<Self> { let mut v: Vec<&str> = vec![$($few),*]; if big { v.extend([$($more),*]); } v.into_iter().map(|s| s.parse().unwrap()).collect() }
    }
)* } }
parsed!(
    Ipv4Addr: ["1.2.3.4", "0.0.0.0"] ["255.255.255.255", "127.0.0.1"],
    Ipv6Addr: ["::1", "::"] ["2001:db8::1:0:0:1", "::ffff:1.2.3.4", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff", "1:0:0:2:0:0:0:3"],
    IpAddr:   ["::1", "1.2.3.4"] ["::ffff:1.2.3.4", "0.0.0.0", "::"]
);

impl Ex for Duration {
    fn same(&self, o: &Self) -> bool { self == o }
    fn spec(v: &Value) -> Spec<Self> {
        match v {
            Value::InlineTable(t) => {
                if t.len() != 2 { return if t.get("secs").is_some() && t.get("nanos").is_some() { Spec::Open } else { Spec::Refuse } }
                match (t.get("secs").and_then(|x| x.as_integer()), t.get("nanos").and_then(|x| x.as_integer())) {
                    (Some(s), Some(n)) if (0..1_000_000_000).contains(&n) => if s >= 0 { Spec::Is(Duration::new(s as u64, n as u32)) } else { Spec::Open },
                    _ => Spec::Refuse
                }
            },
            Value::Float(f) => if Duration::try_from_secs_f64(*f.value()).is_ok() { Spec::Open } else { Spec::Refuse }, // Older scenes.
            _ => Spec::Refuse
        }
    }
    fn vals(big: bool) -> Vec<Self> {
        let mut v: Vec<Duration> = vec![Duration::new(1, 500_000_000), Duration::ZERO, Duration::MAX];
        if big { for s in [0, 1, 59, u32::MAX as u64, 1 << 53, (1 << 53) + 1, i64::MAX as u64, i64::MAX as u64 + 1] { for n in [0, 1, 999, 1_000, 999_999_999, 123_456_789] { v.push(Duration::new(s, n)); } } }
        v
    }
}
impl Ex for Datetime {
    fn same(&self, o: &Self) -> bool { self == o }
    fn spec(v: &Value) -> Spec<Self> { match v { Value::Datetime(d) => Spec::Is(*d.value()), _ => Spec::Refuse } }
    fn vals(big: bool) -> Vec<Self> {
        let mut v: Vec<&str> = vec!["1979-05-27T07:32:00Z", "07:32:00"];
        if big { v.extend(["1979-05-27", "1979-05-27T07:32:00", "0001-01-01T00:00:00.000000001Z", "9999-12-31T23:59:59.999999999+23:59", "1979-05-27T00:32:00-07:00", "2000-02-29T23:59:60Z", "00:00:00.5"]); }
        v.into_iter().map(|s| s.parse().unwrap()).collect()
    }
}

/*
 * Containers
 */

fn array(v: &Value) -> Option<Vec<&Value>> { match v { Value::Array(a) => Some(a.iter().collect()), _ => None } }

/// Lists over the few values of a type: all up to length `full`, then one of each length given.
fn lists<T: Ex>(full: usize, long: &[usize]) -> Vec<Vec<T>> {
    let n: usize = T::vals(false).len();
    let mut idx: Vec<Vec<usize>> = vec![vec![]];
    let mut layer: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..full {
        layer = layer.into_iter().flat_map(|l| (0..n).map(move |i| { let mut l: Vec<usize> = l.clone(); l.push(i); l })).collect();
        idx.extend(layer.clone());
    }
    for &k in long { idx.push((0..k).map(|i| i % n.max(1)).collect()); }
    if n == 0 { idx.truncate(1); }
    idx.into_iter().map(|l| pick(&l)).collect()
}
fn pick<T: Ex>(l: &[usize]) -> Vec<T> {
    l.iter().map(|i| T::vals(false).swap_remove(*i)).collect()
}

impl <T: Ex> Ex for Option<T> {
    fn same(&self, o: &Self) -> bool { match (self, o) { (None, None) => true, (Some(a), Some(b)) => a.same(b), _ => false } }
    fn spec(v: &Value) -> Spec<Self> {
        match v {
            Value::InlineTable(t) => match t.get("value") {
                Some(x) => match T::spec(x) { Spec::Is(_) if t.len() > 1 => Spec::Open, s => s.map(Some) },
                None    => if t.is_empty() { Spec::Is(None) } else { Spec::Open }
            },
            _ => Spec::Refuse
        }
    }
    fn vals(big: bool) -> Vec<Self> { std::iter::once(None).chain(T::vals(big).into_iter().map(Some)).collect() }
}
impl <T: Ex> Ex for Vec<T> {
    fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn spec(v: &Value) -> Spec<Self> { match array(v) { Some(a) => all(a.into_iter().map(T::spec)), None => Spec::Refuse } }
    fn vals(big: bool) -> Vec<Self> { if big { lists(2, &[3, 17]) } else { lists(1, &[2]).into_iter().take(3).collect() } }
}
impl <T: Ex + Hash + Eq> Ex for HashSet<T> {
    fn same(&self, o: &Self) -> bool { self == o }
    fn spec(v: &Value) -> Spec<Self> { <Vec<T>>::spec(v).map(|l| l.into_iter().collect()) }
    fn vals(big: bool) -> Vec<Self> { if big { lists(2, &[3]) } else { lists(1, &[2]).into_iter().take(3).collect() }.into_iter().map(|l| l.into_iter().collect()).collect() }
}
impl <T: Ex + Ord> Ex for BTreeSet<T> {
    fn same(&self, o: &Self) -> bool { self == o }
    fn spec(v: &Value) -> Spec<Self> { <Vec<T>>::spec(v).map(|l| l.into_iter().collect()) }
    fn vals(big: bool) -> Vec<Self> { if big { lists(2, &[3]) } else { lists(1, &[2]).into_iter().take(3).collect() }.into_iter().map(|l| l.into_iter().collect()).collect() }
}

trait MapKey: Sized + Clone { fn keys(big: bool) -> Vec<Self>; fn read(s: &str) -> Option<Self>; }
impl MapKey for String {
    fn keys(big: bool) -> Vec<Self> { let mut v: Vec<&str> = vec!["a", "", "b.c"]; if big { v.extend(["\"", "'\"", "é", "\n", "value", " ", "-", "1", "日本", "#"]); } v.into_iter().map(|s| s.to_string()).collect() }
    fn read(s: &str) -> Option<Self> { Some(s.to_string()) }
}
impl MapKey for char {
    fn keys(big: bool) -> Vec<Self> { let mut v: Vec<char> = vec!['a', '.', '日']; if big { v.extend(['"', '\'', '\n', ' ', '=', '😀', '\0', '1']); } v }
    fn read(s: &str) -> Option<Self> { let mut it = s.chars(); match (it.next(), it.next()) { (Some(c), None) => Some(c), _ => None } }
}
fn entries<K: MapKey, V: Ex>(v: &Value) -> Spec<Vec<(K, V)>> {
    let Value::InlineTable(t) = v else { return Spec::Refuse };
    all(t.iter().map(|(k, x)| match K::read(k) { None => Spec::Refuse, Some(k) => V::spec(x).map(|x| (k, x)) }))
}
fn map_lists<K: MapKey, V: Ex>(big: bool) -> Vec<Vec<(K, V)>> {
    let mut out: Vec<Vec<(K, V)>> = vec![vec![]];
    for k in K::keys(big) { for v in V::vals(false) { out.push(vec![(k.clone(), v)]); } }
    let all = || K::keys(big).into_iter().enumerate().map(|(i, k)| { let mut vs: Vec<V> = V::vals(false); let n: usize = vs.len(); (k, vs.swap_remove(i % n)) }).collect();
    out.push(all());
    if big {
        // All maps with two of the few keys.
        let n: usize = V::vals(false).len();
        let ks: Vec<K> = K::keys(false);
        for i in 0..ks.len() { for j in 0..i { for x in 0..n { for y in 0..n {
            out.push(vec![(ks[i].clone(), V::vals(false).swap_remove(x)), (ks[j].clone(), V::vals(false).swap_remove(y))]);
        } } } }
    } else { let last = out.pop(); out.truncate(2); out.extend(last); }
    out
}
macro_rules! maps { ($($m:ident<$k:ty>),*) => { $(
    impl <V: Ex> Ex for $m<$k, V> {
        fn same(&self, o: &Self) -> bool { self.len() == o.len() && self.iter().all(|(k, v)| o.get(k).is_some_and(|x| v.same(x))) }
        fn spec(v: &Value) -> Spec<Self> { entries(v).map(|l| l.into_iter().collect()) }
        fn vals(big: bool) -> Vec<Self> { map_lists(big).into_iter().map(|l| l.into_iter().collect()).collect() }
    }
)* } }
maps!(HashMap<String>, HashMap<char>, BTreeMap<String>, BTreeMap<char>);

macro_rules! boxes { ($($b:ident),*) => { $(
    impl <T: Ex> Ex for $b<T> {
        fn same(&self, o: &Self) -> bool { (**self).same(&**o) }
        fn spec(v: &Value) -> Spec<Self> { T::spec(v).map($b::new) }
        fn vals(big: bool) -> Vec<Self> { T::vals(big).into_iter().map($b::new).collect() }
    }
)* } }
boxes!(Box, Rc, Arc);

impl <T: Ex> Ex for Mutex<T> {
    fn same(&self, o: &Self) -> bool { self.lock().unwrap().same(&o.lock().unwrap()) }
    fn spec(v: &Value) -> Spec<Self> { T::spec(v).map(Mutex::new) }
    fn vals(big: bool) -> Vec<Self> { T::vals(big).into_iter().map(Mutex::new).collect() }
}
impl <const N: usize, T: Ex> Ex for [T; N] {
    fn same(&self, o: &Self) -> bool { self.iter().zip(o).all(|(a, b)| a.same(b)) }
    fn spec(v: &Value) -> Spec<Self> {
        let Some(a) = array(v) else { return Spec::Refuse };
        if a.len() != N { return Spec::Refuse; }
        all(a.into_iter().map(T::spec)).map(|l| l.try_into().ok().unwrap())
    }
    fn vals(big: bool) -> Vec<Self> { positional::<T>(N, big).into_iter().map(|l| l.try_into().ok().unwrap()).collect() }
}

/// Lists of one length: a list whose neighbours differ, and that list with any one position set to any of the few values.
fn positional<T: Ex>(n: usize, big: bool) -> Vec<Vec<T>> {
    let k: usize = T::vals(big).len().max(1);
    let base: Vec<usize> = (0..n).map(|i| i % k).collect();
    let mut out: Vec<Vec<T>> = Vec::new();
    let make = |l: &[usize]| l.iter().map(|i| T::vals(big).swap_remove(*i)).collect::<Vec<T>>();
    out.push(make(&base));
    for i in 0..n { for x in 0..k { if x != base[i] { let mut l: Vec<usize> = base.clone(); l[i] = x; out.push(make(&l)); } } }
    if !big { out.truncate(3); }
    out
}

macro_rules! tuples { ($( ($($t:ident $i:tt),*) $n:expr; )*) => { $(
    impl <$($t: Ex),*> Ex for ($($t,)*) {
        fn same(&self, o: &Self) -> bool { $( self.$i.same(&o.$i) )&&* }
        fn spec(v: &Value) -> Spec<Self> {
            let Some(a) = array(v) else { return Spec::Refuse };
            if a.len() != $n { return Spec::Refuse; }
            let parts: ($(Spec<$t>,)*) = ($($t::spec(a[$i]),)*);
            $( if let Spec::Refuse = parts.$i { return Spec::Refuse; } )*
            Spec::Is(($( match parts.$i { Spec::Is(x) => x, _ => return Spec::Open }, )*))
        }
        fn vals(big: bool) -> Vec<Self> {
            let lens: Vec<usize> = vec![$($t::vals(big).len()),*];
            let base: Vec<usize> = lens.iter().enumerate().map(|(i, n)| i % n).collect();
            let mut idx: Vec<Vec<usize>> = vec![base.clone()];
            for i in 0..lens.len() { for x in 0..lens[i] { if x != base[i] { let mut l: Vec<usize> = base.clone(); l[i] = x; idx.push(l); } } }
            if !big { idx.truncate(3); }
            idx.into_iter().map(|l| ($( $t::vals(big).swap_remove(l[$i]), )*)).collect()
        }
    }
)* } }
tuples!(
    (A 0) 1;
    (A 0, B 1) 2;
    (A 0, B 1, C 2) 3;
    (A 0, B 1, C 2, D 3) 4;
    (A 0, B 1, C 2, D 3, E 4) 5;
    (A 0, B 1, C 2, D 3, E 4, F 5) 6;
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6) 7;
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7) 8;
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8) 9;
    (A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9) 10;
);

/*
 * Checks
 */

/// The value after having been written to a document and read back.
pub fn through_text(v: Value) -> Result<Value, String> {
    let mut doc: DocumentMut = DocumentMut::new();
    doc.insert("x", toml_edit::Item::Value(v));
    let text: String = doc.to_string();
    let mut doc: DocumentMut = text.parse().map_err(|e| format!("the document {text:?} does not parse: {e}"))?;
    match doc.remove("x") { Some(toml_edit::Item::Value(v)) => Ok(v), _ => Err(format!("no value in {text:?}")) }
}

fn in_array(v: Value) -> Result<Value, String> {
    let mut a: Array = Array::new();
    a.push(v);
    match through_text(Value::Array(a))? { Value::Array(mut a) => Ok(a.remove(0)), _ => Err("no array".into()) }
}

fn round<T: Ex>(v: &T) -> Result<u64, String> {
    let stored: Value = v.to_value();
    let print:  String = stored.to_string();
    match T::from_value(stored.clone()) { Some(x) if x.same(v) => (), Some(x) => return Err(format!("{print}: reads back as {}", x.to_value())), None => return Err(format!("{print}: refused")) }
    let back: Value = through_text(stored.clone())?;
    match T::from_value(back) { Some(x) if x.same(v) => (), Some(x) => return Err(format!("{print}: reads back from text as {}", x.to_value())), None => return Err(format!("{print}: refused after going through text")) }
    match T::from_value(in_array(stored)?) { Some(x) if x.same(v) => (), _ => return Err(format!("{print}: reads back differently from text within a list")) }
    Ok(fnv(print.as_bytes()))
}

/// Compares the reading of any stored form with the reference.
fn read<T: Ex>(v: &Value) -> Result<&'static str, String> {
    let got: Option<T> = T::from_value(v.clone());
    match (T::spec(v), got) {
        (Spec::Open, _)               => Ok("open"),
        (Spec::Refuse, None)          => Ok("refused"),
        (Spec::Refuse, Some(x))       => Err(format!("{v} is accepted and reads as {}", x.to_value())),
        (Spec::Is(_), None)           => Err(format!("{v} is refused")),
        (Spec::Is(s), Some(x))        => if s.same(&x) { Ok("read") } else { Err(format!("{v} reads as {}", x.to_value())) }
    }
}

fn dt(s: &str) -> Value { Value::from(s.parse::<Datetime>().unwrap()) }
fn arr(it: impl IntoIterator<Item = Value>) -> Value { let mut a: Array = Array::new(); for v in it { a.push(v); } Value::Array(a) }
fn table(it: &[(&str, Value)]) -> Value { let mut t: InlineTable = InlineTable::new(); for (k, v) in it { t.insert(*k, v.clone()); } Value::InlineTable(t) }

fn scalars() -> Vec<Value> {
    let mut v: Vec<Value> = Vec::new();
    for i in [0i64, 1, -1, 127, 128, -128, -129, 255, 256, 257, 32767, 32768, -32768, -32769, 65535, 65536, 0xD800, 0x10FFFF, 999_999_999, 1_000_000_000, i32::MAX as i64, i32::MAX as i64 + 1, i32::MIN as i64, i32::MIN as i64 - 1, u32::MAX as i64, u32::MAX as i64 + 1, (1 << 32) + 5, i64::MAX, i64::MIN] { v.push(i.into()); }
    for f in [0.0, -0.0, 1.0, 1.5, -1.0, 0.1, 255.0, 1e300, -1e-300, 1.8e19, 3.5e38, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] { v.push(f.into()); }
    for s in ["", "a", "ab", "é", "éé", "日", "e\u{301}", "1", "1.5", "true", "nan", "1.2.3.4", "1.2.3", "1.2.3.256", "01.2.3.4", "::1", "::g", "1:2", "::ffff:1.2.3.4", "1.2.3.4 ", "/", "a/b", "\0", "1979-05-27", "07:32:00", "[]"] { v.push(s.into()); }
    v.push(true.into()); v.push(false.into());
    for s in ["1979-05-27T07:32:00Z", "1979-05-27T07:32:00", "1979-05-27", "07:32:00"] { v.push(dt(s)); }
    v
}

/// Stored forms of every kind and size.
fn corpus() -> Vec<Value> {
    let mut v: Vec<Value> = scalars();
    let kinds: Vec<Value> = vec![1.into(), 300.into(), (-1).into(), 1.5.into(), "a".into(), "ab".into(), true.into(), dt("1979-05-27"), arr([]), arr([1.into()]), table(&[]), table(&[("value", 1.into())]), table(&[("a", "b".into())])];
    v.push(arr([]));
    for k in &kinds { for n in 1..=11 { v.push(arr((0..n).map(|_| k.clone()))); } }
    for a in &kinds { for b in &kinds { v.push(arr([a.clone(), b.clone()])); } }
    v.push(table(&[]));
    for k in &kinds { for key in ["value", "a", "ab", "", "日", "secs"] { v.push(table(&[(key, k.clone())])); } }
    for a in &kinds { for b in &kinds { v.push(table(&[("a", a.clone()), ("b", b.clone())])); v.push(table(&[("value", a.clone()), ("other", b.clone())])); v.push(table(&[("secs", a.clone()), ("nanos", b.clone())])); } }
    for n in [0i64, 1, 999_999_999, 1_000_000_000, -1, i64::MAX] { for s in [0i64, 1, -1, i64::MAX] { v.push(table(&[("secs", s.into()), ("nanos", n.into())])); } }
    v
}

/// All stored forms that differ from this one in one place.
pub fn mutants(v: &Value, kinds: &[Value]) -> Vec<Value> {
    let mut out: Vec<Value> = kinds.to_vec();
    match v {
        Value::Array(a) => {
            let l: Vec<Value> = a.iter().cloned().collect();
            for i in 0..l.len() {
                let mut m: Vec<Value> = l.clone(); m.remove(i); out.push(arr(m));
                let mut m: Vec<Value> = l.clone(); m.insert(i, l[i].clone()); out.push(arr(m));
                for x in mutants(&l[i], kinds) { let mut m: Vec<Value> = l.clone(); m[i] = x; out.push(arr(m)); }
            }
            for k in kinds { let mut m: Vec<Value> = l.clone(); m.push(k.clone()); out.push(arr(m)); }
        },
        Value::InlineTable(t) => {
            let l: Vec<(String, Value)> = t.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
            let mk = |l: &[(String, Value)]| table(&l.iter().map(|(k, v)| (k.as_str(), v.clone())).collect::<Vec<_>>());
            for i in 0..l.len() {
                let mut m: Vec<(String, Value)> = l.clone(); m.remove(i); out.push(mk(&m));
                for k in ["", "zz", "é"] { let mut m: Vec<(String, Value)> = l.clone(); m[i].0 = k.into(); out.push(mk(&m)); }
                for x in mutants(&l[i].1, kinds) { let mut m: Vec<(String, Value)> = l.clone(); m[i].1 = x; out.push(mk(&m)); }
            }
            for k in kinds { let mut m: Vec<(String, Value)> = l.clone(); m.push(("zz".into(), k.clone())); out.push(mk(&m)); }
        },
        _ => ()
    }
    out
}

fn few_kinds() -> Vec<Value> { vec![7.into(), (-7).into(), i64::MAX.into(), 2.5.into(), "q".into(), "qq".into(), true.into(), dt("07:32:00"), arr([]), table(&[]), table(&[("value", 7.into())])] }

struct Run { corpus: Vec<Value>, kinds: Vec<Value>, mutated: usize }

fn ty<T: Ex>(ctx: &mut Ctx, r: &Run) {
    let name: &str = std::any::type_name::<T>();
    if ctx.done() { return; }
    ctx.case(|| format!("round trips of {name}"), |ctx| {
        for v in T::vals(true) {
            ctx.st.executions += 1; ctx.st.transitions += 3; ctx.beat();
            match round(&v) { Ok(h) => ctx.state(h ^ fnv(name.as_bytes())), Err(e) => return Err(format!("{name}: {e}").into()) }
        }
        Ok(())
    });
    ctx.case(|| format!("stored forms of every kind read as {name}"), |ctx| {
        for v in &r.corpus {
            ctx.st.executions += 1; ctx.st.transitions += 1; ctx.beat();
            match read::<T>(v) { Ok(o) => ctx.outcome(o), Err(e) => return Err(format!("{name}: {e}").into()) }
        }
        Ok(())
    });
    ctx.case(|| format!("damaged stored forms read as {name}"), |ctx| {
        for v in T::vals(true).into_iter().take(r.mutated) {
            for m in mutants(&v.to_value(), &r.kinds) {
                ctx.st.executions += 1; ctx.st.transitions += 1; ctx.beat();
                match read::<T>(&m) { Ok(o) => ctx.outcome(o), Err(e) => return Err(format!("{name}: {e}").into()) }
            }
        }
        Ok(())
    });
}

/// Every container around a type.
fn around<T: Ex>(ctx: &mut Ctx, r: &Run) {
    ty::<Option<T>>(ctx, r); ty::<Vec<T>>(ctx, r); ty::<Box<T>>(ctx, r); ty::<Rc<T>>(ctx, r); ty::<Arc<T>>(ctx, r); ty::<Mutex<T>>(ctx, r);
    ty::<HashMap<String, T>>(ctx, r); ty::<HashMap<char, T>>(ctx, r); ty::<BTreeMap<String, T>>(ctx, r); ty::<BTreeMap<char, T>>(ctx, r);
    ty::<[T; 0]>(ctx, r); ty::<[T; 1]>(ctx, r); ty::<[T; 3]>(ctx, r); ty::<(T,)>(ctx, r); ty::<(T, u8)>(ctx, r); ty::<(bool, T, T)>(ctx, r);
}
fn around_hash<T: Ex + Hash + Eq>(ctx: &mut Ctx, r: &Run) { ty::<HashSet<T>>(ctx, r); }
fn around_ord<T: Ex + Ord>(ctx: &mut Ctx, r: &Run) { ty::<BTreeSet<T>>(ctx, r); }

fn around_some<T: Ex>(ctx: &mut Ctx, r: &Run) { ty::<Option<T>>(ctx, r); ty::<Vec<T>>(ctx, r); }

fn around_few<T: Ex>(ctx: &mut Ctx, r: &Run) {
    ty::<Option<T>>(ctx, r); ty::<Vec<T>>(ctx, r); ty::<Box<T>>(ctx, r); ty::<Mutex<T>>(ctx, r); ty::<HashMap<String, T>>(ctx, r); ty::<BTreeMap<char, T>>(ctx, r); ty::<[T; 2]>(ctx, r); ty::<(T, u8)>(ctx, r);
}

/// Containers around containers around a type.
fn around_two<T: Ex>(ctx: &mut Ctx, r: &Run) {
    around_few::<Option<T>>(ctx, r); around_few::<Vec<T>>(ctx, r); around_few::<Mutex<T>>(ctx, r); around_few::<HashMap<String, T>>(ctx, r);
    around_few::<BTreeMap<char, T>>(ctx, r); around_few::<[T; 2]>(ctx, r); around_few::<(T, u8)>(ctx, r); around_few::<Arc<T>>(ctx, r);
}

macro_rules! leaves { ($ctx:expr, $r:expr, $f:ident: $($t:ty),*) => { $( $f::<$t>($ctx, $r); )* } }

fn c14(ctx: &mut Ctx) {
    let r: Run = Run { corpus: corpus(), kinds: few_kinds(), mutated: ctx.pick(6, 40) };

    ctx.family("every single type");
    leaves!(ctx, &r, ty: bool, u8, u16, u32, u64, i8, i16, i32, i64, f32, f64, char, String, NodePath, PathBuf, Ipv4Addr, Ipv6Addr, IpAddr, Duration, Datetime);
    ctx.family("every container around some types, some containers around every type");
    leaves!(ctx, &r, around: u8, String, f64);
    leaves!(ctx, &r, around_some: bool, u16, u32, u64, i8, i16, i32, i64, f32, char, NodePath, PathBuf, Ipv4Addr, Ipv6Addr, IpAddr, Duration, Datetime);
    leaves!(ctx, &r, around_hash: u8, char, String, NodePath, IpAddr, Vec<String>, Option<u8>, BTreeSet<u8>);
    leaves!(ctx, &r, around_ord: u8, char, String, Ipv6Addr, Vec<String>, Option<u8>, (u8, String));
    ctx.family("containers in containers");
    around_two::<String>(ctx, &r);
    leaves!(ctx, &r, ty: Vec<HashSet<u8>>, Option<BTreeSet<String>>, Option<Option<Option<u8>>>, Vec<Vec<Vec<u8>>>, HashMap<String, Vec<Option<(u8, NodePath)>>>, [Option<BTreeMap<char, Duration>>; 2], Arc<Mutex<Box<Vec<char>>>>, Vec<f64>, Option<Vec<f64>>);
    ctx.family("tuples of every length");
    ty::<(i64, u8)>(ctx, &r); ty::<(u8, u16, u32)>(ctx, &r); ty::<(u8, u16, String, bool)>(ctx, &r); ty::<(u8, f64, String, bool, char)>(ctx, &r); ty::<(u8, u16, u32, u64, i8, i16)>(ctx, &r);
    ty::<(u8, u16, u32, u64, i8, i16, i32)>(ctx, &r); ty::<(String, u16, bool, u64, char, i16, i32, f64)>(ctx, &r); ty::<(u8, u16, u32, u64, i8, i16, i32, i64, f32)>(ctx, &r); ty::<(u8, u16, u32, u64, i8, i16, i32, i64, f32, String)>(ctx, &r);
    ty::<(i64, i64, i64, i64)>(ctx, &r); ty::<(i64, i64, i64, i64, i64)>(ctx, &r); ty::<(i64, i64, i64, i64, i64, i64)>(ctx, &r); ty::<(i64, i64, i64, i64, i64, i64, i64)>(ctx, &r);
    ty::<(i64, i64, i64, i64, i64, i64, i64, i64)>(ctx, &r); ty::<(i64, i64, i64, i64, i64, i64, i64, i64, i64)>(ctx, &r); ty::<(i64, i64, i64, i64, i64, i64, i64, i64, i64, i64)>(ctx, &r);
    ty::<[u8; 40]>(ctx, &r); ty::<[String; 2]>(ctx, &r); ty::<[[i8; 2]; 2]>(ctx, &r); ty::<[Box<String>; 4]>(ctx, &r);

    // Tuples and arrays in which every position holds a value of its own.
    ctx.family("positions of tuples and arrays");
    ctx.case(|| "every tuple and array with all values different".into(), |ctx| {
        macro_rules! pos { ($($v:expr),* $(,)?) => { $( ctx.st.executions += 1; if let Err(e) = round(&$v) { return Err(format!("{}: {e}", stringify!($v)).into()); } )* } }
        pos!((1i64,), (1i64, 2i64), (1i64, 2i64, 3i64), (1i64, 2i64, 3i64, 4i64), (1i64, 2i64, 3i64, 4i64, 5i64), (1i64, 2i64, 3i64, 4i64, 5i64, 6i64), (1i64, 2i64, 3i64, 4i64, 5i64, 6i64, 7i64),
             (1i64, 2i64, 3i64, 4i64, 5i64, 6i64, 7i64, 8i64), (1i64, 2i64, 3i64, 4i64, 5i64, 6i64, 7i64, 8i64, 9i64), (1i64, 2i64, 3i64, 4i64, 5i64, 6i64, 7i64, 8i64, 9i64, 10i64),
             [1u8, 2, 3, 4, 5, 6, 7], vec![5u8, 4, 3, 2, 1], [[1u8, 2], [3, 4]], vec![vec![1i64], vec![2, 3]]);
        Ok(())
    });

    // Whole value domains.
    ctx.family("all values of the small types");
    ctx.case(|| "all values of bool, u8 and i8".into(), |ctx| {
        for i in 0..=255u8 { whole(ctx, &i)?; whole(ctx, &(i as i8))?; }
        Ok(())
    });
    for hi in 0..64u16 { ctx.case(|| format!("all values of u16 and i16 from {}", hi << 10), |ctx| { for lo in 0..1024u16 { let x: u16 = hi << 10 | lo; whole(ctx, &x)?; whole(ctx, &(x as i16))?; } Ok(()) }); }
    for i in 0..65u32 * 16 { ctx.case(|| format!("all integers around the limits of the integer types, and characters from {:x}", i << 10), |ctx| {
        for c in (i << 10)..(i + 1) << 10 { if let Some(c) = char::from_u32(c) { whole(ctx, &c)?; if c as u32 % 16 == 3 { whole(ctx, &String::from_iter([c, 'x', c]))?; whole(ctx, &BTreeMap::from_iter([(c, c)]))?; } } }
        Ok(())
    }); }
    for bit in 0..64u32 { ctx.case(|| format!("integers near 2^{bit}"), |ctx| {
        for d in -3i64..=3 {
            let x: u64 = (1u64 << bit).wrapping_add(d as u64);
            whole(ctx, &x)?; whole(ctx, &(x as i64))?; whole(ctx, &(x as u32))?; whole(ctx, &(x as i32))?; whole(ctx, &x.wrapping_neg())?;
            let v: Value = (x as i64).into();
            for e in [read::<u8>(&v), read::<u16>(&v), read::<u32>(&v), read::<u64>(&v), read::<i8>(&v), read::<i16>(&v), read::<i32>(&v), read::<i64>(&v)] { ctx.st.executions += 1; e?; }
        }
        Ok(())
    }); }

    ctx.family("floating point values by exponent");
    let step: usize = ctx.pick(37, 1);
    for e in (0..2048u64).step_by(step) { ctx.case(|| format!("f64 with exponent bits {e}"), |ctx| {
        for m in mantissas() { for s in [0, 1u64 << 63] { whole(ctx, &f64::from_bits(s | e << 52 | m))?; } }
        Ok(())
    }); }
    for e in (0..256u32).step_by(ctx.pick(5, 1)) { ctx.case(|| format!("f32 with exponent bits {e}"), |ctx| {
        for m in mantissas() { for s in [0, 1u32 << 31] { whole(ctx, &f32::from_bits(s | e << 23 | (m >> 29) as u32))?; } }
        Ok(())
    }); }

    ctx.family("texts");
    const ODD: [char; 14] = ['a', '"', '\'', '\\', '\n', '\r', '\t', '\0', '\u{7f}', '#', '=', ' ', 'é', '😀'];
    let max: u32 = ctx.pick(4, 5);
    for len in 0..=max { for first in 0..if len == 0 { 1 } else { ODD.len() } { for second in 0..if len < 2 { 1 } else { ODD.len() } { ctx.case(|| format!("all texts of length {len} over the odd characters, beginning with number {first}, {second}"), |ctx| {
        let rest: u32 = len.saturating_sub(2);
        for i in 0..ODD.len().pow(rest) {
            let mut s: String = String::new();
            if len > 0 { s.push(ODD[first]); }
            if len > 1 { s.push(ODD[second]); }
            let mut i: usize = i;
            for _ in 0..rest { s.push(ODD[i % ODD.len()]); i /= ODD.len(); }
            let mut m: InlineTable = InlineTable::new();
            m.insert(&s, 1.into());
            whole(ctx, &BTreeMap::from_iter([(s.clone(), true)]))?;
            whole(ctx, &PathBuf::from(&s))?;
            whole(ctx, &s)?;
            read::<Ipv4Addr>(&Value::from(s.as_str()))?; read::<IpAddr>(&Value::from(s.as_str()))?; read::<char>(&Value::from(s.as_str()))?;
            read::<BTreeMap<char, i64>>(&Value::InlineTable(m))?;
        }
        Ok(())
    }); } } }
    const PATH: [&str; 6] = ["a", "/", ".", " ", "é", "\""];
    let max: u32 = ctx.pick(6, 8);
    for len in 0..=max { for first in 0..if len == 0 { 1 } else { PATH.len() } { ctx.case(|| format!("all paths of {len} characters beginning with number {first}"), |ctx| {
        for i in 0..PATH.len().pow(len.saturating_sub(1)) {
            let mut s: String = String::new();
            if len > 0 { s.push_str(PATH[first]); }
            let mut i: usize = i;
            for _ in 1..len { s.push_str(PATH[i % PATH.len()]); i /= PATH.len(); }
            whole(ctx, &NodePath::from_str(&s))?;
        }
        Ok(())
    }); } }

    ctx.family("large values");
    for n in ctx.pick(vec![100usize, 127, 128, 129, 255, 256, 257, 1000, 1024, 1025, 4097, 32_768, 65_535, 65_536, 70_000], vec![63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537, 70_000, 131_073, 300_000]) {
        for kind in 0..16usize { ctx.case(|| format!("values of {n} parts, kind {kind}"), |ctx| {
            let few: usize = n.min(20_000);
            let chars = || (0..n as u32 * 2).filter_map(|i| char::from_u32(i * 3)).take(few);
            let d: u64 = match kind {
                0  => round(&(0..n).map(|i| i as u8).collect::<Vec<u8>>()),
                1  => round(&(0..n).map(|i| i as i64 - 7).collect::<Vec<i64>>()),
                2  => round(&(0..n).map(|i| i as u32).collect::<HashSet<u32>>()),
                3  => round(&(0..n).map(|i| format!("k{i}")).collect::<BTreeSet<String>>()),
                4  => round(&(0..few).map(|i| (format!("{i}"), i as u16)).collect::<HashMap<String, u16>>()),
                5  => round(&(0..few).map(|i| (format!("k {i}"), i % 2 == 0)).collect::<BTreeMap<String, bool>>()),
                6  => round(&chars().map(|c| (c, c)).collect::<HashMap<char, char>>()),
                7  => round(&chars().enumerate().map(|(i, c)| (c, i as i32)).collect::<BTreeMap<char, i32>>()),
                8  => round(&"x".repeat(n)),
                9  => round(&(0..n).map(|i| ['a', '"', 'é', '\n', '日', ' '][i % 6]).collect::<String>()),
                10 => round(&PathBuf::from("ab/".repeat(n))),
                11 => round(&NodePath::from_str(&"ab/".repeat(n))),
                12 => round(&vec![Some((0..few).map(|i| (i % 3 > 0).then_some(i as u8)).collect::<Vec<Option<u8>>>())]),
                13 => round(&(0..few).map(|i| (i as u8, format!("{i}"))).collect::<Vec<(u8, String)>>()),
                14 => round(&(0..few).map(|i| vec![i as u16; i % 4]).collect::<Vec<Vec<u16>>>()),
                _  => round(&BTreeMap::from_iter([("k".repeat(n), 7u8), ("k".repeat(n) + "k", 8u8)]))
            }.map_err(|e| if e.len() > 300 { format!("{}...{}", e.chars().take(100).collect::<String>(), e.chars().rev().take(100).collect::<Vec<_>>().into_iter().rev().collect::<String>()) } else { e })?;
            ctx.state(d); ctx.st.executions += 1;
            Ok(())
        }); }
    }
    for n in [1usize, 7, 8, 9, 31, 32, 33, 63] { ctx.case(|| format!("arrays of {n} parts and more"), |ctx| {
        macro_rules! arrays { ($($k:literal),*) => { $( if n <= $k && $k < 2 * n + 2 { ctx.st.executions += 1; round(&<[i64; $k]>::try_from((0..$k).map(|i| i as i64 * 3 - 5).collect::<Vec<i64>>()).unwrap())?; } )* } }
        arrays!(1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127);
        Ok(())
    }); }

    ctx.family("addresses");
    for hi in 0..8u32 { ctx.case(|| format!("addresses {hi}"), |ctx| {
        const OCT: [u8; 8] = [0, 1, 9, 10, 99, 100, 199, 255];
        for b in OCT { for c in OCT { for d in OCT { let a: Ipv4Addr = Ipv4Addr::new(OCT[hi as usize], b, c, d); whole(ctx, &a)?; whole(ctx, &IpAddr::V4(a))?; whole(ctx, &IpAddr::V6(a.to_ipv6_mapped()))?; } } }
        const SEG: [u16; 3] = [0, 1, 0xffff];
        for i in 0..3usize.pow(8) { if i as u32 % 8 != hi { continue; }
            let mut s: [u16; 8] = [0; 8]; let mut x: usize = i;
            for j in 0..8 { s[j] = SEG[x % 3]; x /= 3; }
            let a: Ipv6Addr = Ipv6Addr::from(s); whole(ctx, &a)?; whole(ctx, &IpAddr::V6(a))?;
        }
        Ok(())
    }); }

    ctx.family("durations and dates");
    for e in 0..64u32 { ctx.case(|| format!("durations near 2^{e} seconds"), |ctx| {
        for d in -1i64..=1 { let s: u64 = (1u64 << e).wrapping_add(d as u64);
            for n in [0u32, 1, 2, 3, 10, 99, 100, 101, 999, 1000, 333_333_333, 499_999_999, 500_000_000, 500_000_001, 999_999_000, 999_999_998, 999_999_999] { whole(ctx, &Duration::new(s, n))?; }
            whole(ctx, &Some(vec![Duration::new(s, 7)]))?;
        }
        Ok(())
    }); }
    for y in [0u16, 1, 1970, 1999, 2000, 2024, 9999] { ctx.case(|| format!("dates in {y}"), |ctx| {
        use toml_edit::{ Date, Offset, Time };
        for month in 1..=12u8 { for day in [1u8, 28] {
            let date: Date = Date { year: y, month, day };
            for (hour, minute, second, nanosecond) in [(0, 0, 0, 0), (23, 59, 59, 999_999_999), (1, 2, 3, 4), (12, 30, 15, 500_000_000)] {
                let time: Time = Time { hour, minute, second, nanosecond };
                for offset in [None, Some(Offset::Z), Some(Offset::Custom { minutes: 0 }), Some(Offset::Custom { minutes: 90 }), Some(Offset::Custom { minutes: -1439 }), Some(Offset::Custom { minutes: -30 })] {
                    whole(ctx, &Datetime { date: Some(date), time: Some(time), offset })?;
                }
                whole(ctx, &Datetime { date: None, time: Some(time), offset: None })?;
            }
            whole(ctx, &Datetime { date: Some(date), time: None, offset: None })?;
        } }
        Ok(())
    }); }

    ctx.family("documents written by hand");
    ctx.case(|| "values written by hand".into(), |ctx| {
        macro_rules! hand { ($($t:ty: $s:expr => $e:expr),* $(,)?) => { $( {
            ctx.st.executions += 1;
            let mut doc: DocumentMut = format!("x = {}", $s).parse().map_err(|e| format!("{}: {e}", $s))?;
            let v: Value = doc.remove("x").unwrap().into_value().unwrap();
            let got: Option<$t> = <$t>::from_value(v);
            let want: Option<$t> = $e;
            if !got.same(&want) { return Err(format!("{} as {}: {}", $s, stringify!($t), got.to_value()).into()); }
        } )* } }
        hand!(
            u8: "0xFF" => Some(255), u8: "0x100" => None, u16: "1_000" => Some(1000), i8: "-0" => Some(0), i8: "+5" => Some(5), u8: "0b11 # three" => Some(3), i64: "0o17" => Some(15),
            f64: "+1.5e3" => Some(1500.0), f64: "-inf" => Some(f64::NEG_INFINITY), f64: "nan" => Some(f64::NAN), f64: "1" => None, f32: "0.1" => Some(0.1),
            String: "'a\\b'" => Some("a\\b".into()), String: "\"\"\"\na\\\n   b\"\"\"" => Some("ab".into()), String: "\"\\u00e9\"" => Some("é".into()), char: "'''\n'''" => None, char: "'é'" => Some('é'),
            Vec<u8>: "[ 1,\n # two\n 2, ]" => Some(vec![1, 2]), Option<u8>: "{ value = 3 }" => Some(Some(3)), Option<u8>: "{ }" => Some(None), Option<Vec<u8>>: "{ value = [ ] }" => Some(Some(vec![])),
            BTreeMap<String, u8>: "{ a = 1, \"b c\" = 2, '' = 3 }" => Some(BTreeMap::from_iter([("a".into(), 1), ("b c".into(), 2), ("".into(), 3)])), BTreeMap<char, u8>: "{ ab = 1 }" => None, BTreeMap<char, u8>: "{ '' = 1 }" => None,
            bool: "true # yes" => Some(true), bool: "1" => None, (u8, String): "[1, 'x']" => Some((1, "x".into())), (u8, String): "['x', 1]" => None, (u8,): "[1, 2]" => None, (u8,): "[]" => None, [u8; 2]: "[1]" => None, [u8; 2]: "[1, 2, 3]" => None, [u8; 0]: "[]" => Some([])
        );
        Ok(())
    });
}

fn whole<T: Ex>(ctx: &mut Ctx, v: &T) -> Result<(), String> {
    ctx.st.executions += 1; ctx.st.transitions += 3;
    if ctx.st.executions % 64 == 0 { ctx.beat(); }
    let h: u64 = round(v).map_err(|e| format!("{}: {e}", std::any::type_name::<T>()))?;
    if ctx.st.executions % 16 == 0 { ctx.state(h); }
    Ok(())
}

fn mantissas() -> Vec<u64> {
    let mut m: Vec<u64> = vec![0, (1 << 52) - 1, 0x5555_5555_5555_5, 0xAAAA_AAAA_AAAA_A, 0x999_9999_9999_9A, 1, 2, 3];
    for i in (0..52).step_by(4) { m.push(1 << i); m.push(((1u64 << 52) - 1) ^ (1 << i)); m.push((1 << 29) << (i / 3)); }
    for x in m.iter_mut() { *x &= (1 << 52) - 1; }
    m
}

pub const C14: Prop = Prop {
    meta: Meta {
        id: "C14",
        rule: "every value listed by the bounds is stored and read back directly, through the text of a document and within a list; every stored form of every kind and size, and every form that differs from a stored one in one place, is read as every type and compared with a reference reading",
        bounds: |t| b(t,
            "20 single types, 18 containers around each, 16 containers around 7 containers around 2 of them, tuples of 1 to 10; all bool, u8, i8, u16, i16 and char values; integers within 3 of every power of 2; f64/f32 with 47 significands x 2 signs per exponent (every 37th/5th exponent); texts up to length 4 over 14 odd characters; paths up to 6 characters over 6; IPv4 over 8 octet values, IPv6 over 3 segment values; durations near every power of 2; dates of 7 years; texts, paths, lists, sets and maps of up to 70000 parts; about 1400 stored forms for each type",
            "as quick, with every exponent of f64 and f32, texts up to length 5, paths up to 8, up to 300000 parts, and one-place changes of up to 40 values of each type"),
        assumptions: &["the text form is that of toml_edit, as used by scene documents", "left open: precision lost when an f32 is read from a more precise number, u64 from negative numbers, tables with keys beyond the needed ones, options from tables without a value key, durations from plain numbers as older versions wrote them"]
    },
    body: c14
};

