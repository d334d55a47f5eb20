//! C20: field wrappers.

use std::cell::Cell;
use std::cmp::Ordering;
use std::num::Wrapping;
use std::ops::*;
use std::panic::{ AssertUnwindSafe, catch_unwind };

use node_tree::prelude::*;

use super::{ Prop, b };
use crate::ctx::{ Ctx, Meta, Res };

/// A kind of field, as the class macro chooses it.
trait Kind<T>: Deref<Target = T> + DerefMut + From<T> + Sized {
    const NAME: &'static str;
    const VOIDS: bool;
    fn make(x: T) -> Self;
    /// The void form of the kinds that have one.
    fn void() -> Option<Self>;
    fn empty(&self) -> bool;
}
impl <T> Kind<T> for Field<T>       { const NAME: &'static str = "Field";       const VOIDS: bool = true; fn make(x: T) -> Self { Field::new(x) } fn void() -> Option<Self> { Some(Voidable::void()) } fn empty(&self) -> bool { self.is_void() } }
impl <T> Kind<T> for UniqueField<T> { const NAME: &'static str = "UniqueField"; const VOIDS: bool = true; fn make(x: T) -> Self { UniqueField::new(x) } fn void() -> Option<Self> { Some(Voidable::void()) } fn empty(&self) -> bool { self.is_void() } }
impl <T: Exportable> Kind<T> for ExportableField<T> { const NAME: &'static str = "ExportableField"; const VOIDS: bool = false; fn make(x: T) -> Self { ExportableField::new(x) } fn void() -> Option<Self> { None } fn empty(&self) -> bool { false } }
impl <T: Default> Kind<T> for DefaultField<T> { const NAME: &'static str = "DefaultField"; const VOIDS: bool = false; fn make(x: T) -> Self { DefaultField::new(x) } fn void() -> Option<Self> { None } fn empty(&self) -> bool { false } }

fn caught<R>(f: impl FnOnce() -> R) -> Option<R> { catch_unwind(AssertUnwindSafe(f)).ok() }

/// One compound assignment, done plainly and on the field, with the right side plain and wrapped, and with void sides.
macro_rules! assign { ($ctx:expr, $t:ty, $k:ident, $op:tt, $a:expr, $b:expr, $same:expr) => { {
    let (a, b): ($t, $t) = ($a, $b);
    let mut plain: $t = a.clone();
    let want: Option<()> = caught(|| { plain $op b.clone(); });
    let mut f: $k<$t> = <$k<$t> as Kind<$t>>::make(a.clone());
    let got: Option<()> = caught(|| { f $op b.clone(); });
    let mut g: $k<$t> = <$k<$t> as Kind<$t>>::make(a.clone());
    let got2: Option<()> = caught(|| { g $op <$k<$t> as Kind<$t>>::make(b.clone()); });
    $ctx.st.executions += 2;
    if got.is_some() != want.is_some() || f.empty() || !$same(&*f, &plain) { return Err(format!("{}: {a:?} {} {b:?} leaves {:?} (done: {}) and plainly {plain:?} (done: {})", $k::<$t>::NAME, stringify!($op), *f, got.is_some(), want.is_some()).into()); }
    if got2.is_some() != want.is_some() || g.empty() || !$same(&*g, &plain) { return Err(format!("{}: {a:?} {} field {b:?} leaves {:?} (done: {}) and plainly {plain:?} (done: {})", $k::<$t>::NAME, stringify!($op), *g, got2.is_some(), want.is_some()).into()); }
} } }

macro_rules! void_sides { ($ctx:expr, $t:ty, $k:ident, $op:tt, $a:expr) => { {
    let a: $t = $a;
    if <$k<$t> as Kind<$t>>::VOIDS {
        let void = || <$k<$t> as Kind<$t>>::void().unwrap();
        $ctx.st.executions += 3;
        let mut f: $k<$t> = void();
        if caught(|| { f $op a.clone(); }).is_some() || !f.empty() { return Err(format!("{}: void {} {a:?} does not fail, or fills the field", $k::<$t>::NAME, stringify!($op)).into()); }
        let mut f: $k<$t> = void();
        if caught(|| { f $op <$k<$t> as Kind<$t>>::make(a.clone()); }).is_some() || !f.empty() { return Err(format!("{}: void {} field {a:?} does not fail, or fills the field", $k::<$t>::NAME, stringify!($op)).into()); }
        let mut f: $k<$t> = <$k<$t> as Kind<$t>>::make(a.clone());
        if caught(|| { f $op void(); }).is_some() || f.empty() || format!("{:?}", *f) != format!("{a:?}") { return Err(format!("{}: {a:?} {} void does not fail, or changes the field", $k::<$t>::NAME, stringify!($op)).into()); }
        let mut f: $k<$t> = void();
        if caught(|| { f $op void(); }).is_some() || !f.empty() { return Err(format!("{}: void {} void does not fail", $k::<$t>::NAME, stringify!($op)).into()); }
    }
} } }

macro_rules! kinds { ($m:ident! ($ctx:expr, $t:ty) $($rest:tt)*) => { $m!($ctx, $t, Field, $($rest)*); $m!($ctx, $t, ExportableField, $($rest)*); $m!($ctx, $t, UniqueField, $($rest)*); $m!($ctx, $t, DefaultField, $($rest)*); } }
macro_rules! arithmetic { ($m:ident! ($ctx:expr, $t:ty) $($rest:tt)*) => { kinds!($m! ($ctx, $t) +=, $($rest)*); kinds!($m! ($ctx, $t) -=, $($rest)*); kinds!($m! ($ctx, $t) *=, $($rest)*); kinds!($m! ($ctx, $t) /=, $($rest)*); kinds!($m! ($ctx, $t) %=, $($rest)*); } }
macro_rules! bitwise { ($m:ident! ($ctx:expr, $t:ty) $($rest:tt)*) => { kinds!($m! ($ctx, $t) |=, $($rest)*); kinds!($m! ($ctx, $t) ^=, $($rest)*); kinds!($m! ($ctx, $t) &=, $($rest)*); } }
macro_rules! shifts { ($m:ident! ($ctx:expr, $t:ty) $($rest:tt)*) => { kinds!($m! ($ctx, $t) <<=, $($rest)*); kinds!($m! ($ctx, $t) >>=, $($rest)*); } }

/// A type whose operations are told apart, do not commute, may fail, and keep account of their operands.
#[derive(Debug, PartialEq)]
struct Trace(String, Alive);
impl Clone for Trace { fn clone(&self) -> Self { Trace(self.0.clone(), Alive::new()) } }
impl Default for Trace { fn default() -> Self { trace("") } }
fn trace(s: &str) -> Trace { Trace(s.into(), Alive::new()) }
impl Exportable for Trace {
    fn to_value(&self) -> toml_edit::Value { self.0.as_str().into() }
    fn from_value(v: toml_edit::Value) -> Option<Self> { Some(trace(v.as_str()?)) }
}
macro_rules! traced { ($($tr:ident $f:ident $s:literal),*) => { $( impl $tr for Trace { fn $f(&mut self, r: Trace) { if r.0 == "fail" { panic!("refused"); } self.0 = format!("({}{}{})", self.0, $s, r.0); } } )* } }
traced!(AddAssign add_assign "+", SubAssign sub_assign "-", MulAssign mul_assign "*", DivAssign div_assign "/", RemAssign rem_assign "%", BitOrAssign bitor_assign "|", BitXorAssign bitxor_assign "^", BitAndAssign bitand_assign "&", ShlAssign shl_assign "<", ShrAssign shr_assign ">");

thread_local! { static ALIVE: Cell<i64> = const { Cell::new(0) }; }
#[derive(Debug)]
struct Alive(Box<u64>);
impl PartialEq for Alive { fn eq(&self, _: &Self) -> bool { true } }
impl Alive { fn new() -> Self { ALIVE.with(|a| a.set(a.get() + 1)); Alive(Box::new(0x5EED)) } }
impl Drop for Alive { fn drop(&mut self) { assert!(*self.0 == 0x5EED); *self.0 = 0; ALIVE.with(|a| a.set(a.get() - 1)); } }
fn balanced(what: &str) -> Res { let n: i64 = ALIVE.with(|a| a.replace(0)); if n == 0 { Ok(()) } else { Err(format!("{what}: {n} values are left undropped (or were dropped too often)").into()) } }

/// A counted value for the life of a field.
#[derive(Debug)]
struct V(i32, #[allow(dead_code)] Alive);
fn v(n: i32) -> V { V(n, Alive::new()) }
impl Clone for V { fn clone(&self) -> V { v(self.0) } }
impl PartialEq for V { fn eq(&self, o: &V) -> bool { self.0 == o.0 } }
impl Eq for V {}
impl PartialOrd for V { fn partial_cmp(&self, o: &V) -> Option<Ordering> { Some(self.cmp(o)) } }
impl Ord for V { fn cmp(&self, o: &V) -> Ordering { self.0.cmp(&o.0) } }
impl Default for V { fn default() -> V { v(70) } }
impl Exportable for V {
    fn to_value(&self) -> toml_edit::Value { (self.0 as i64).into() }
    fn from_value(x: toml_edit::Value) -> Option<Self> { Some(v(x.as_integer()? as i32)) }
}

const OPS: usize = 18;

/// One step in the life of a voidable field beside that of an option; tells what was seen.
macro_rules! life { ($name:ident, $k:ident, $unique:literal) => {
    fn $name(op: usize, f: &mut $k<V>, spare: &mut $k<V>) -> String {
        match op {
            0  => format!("{:?}", f.write_valid(v(1)).map(|x| x.0)),
            1  => format!("{:?}", f.write_valid(v(2)).map(|x| x.0)),
            2  => format!("{:?}", f.take().map(|x| x.0)),
            3  => format!("{:?}", caught(|| f.0)),
            4  => format!("{:?}", caught(|| { f.deref_mut().0 += 1; })),
            5  => { let c: $k<V> = f.clone(); let r = format!("{}{:?}", c.is_void(), caught(|| c.0)); drop(c); r },
            6  => { *f = f.clone(); String::new() },
            7  => { *f = $k::from(v(3)); String::new() },
            8  => { *f = v(4).into(); String::new() },
            9  => { *f = Voidable::void(); String::new() },
            10 => format!("{} {}", f.is_reachable(), f.is_void()),
            11 => { std::mem::swap(f, spare); String::new() },
            12 => { let x: $k<V> = std::mem::replace(f, $k::Void); format!("{:?}", caught(|| x.force_take().0)) },
            13 => format!("{} {} {}", *f == *spare, *f != *spare, *f == $k::Void),
            14 => format!("{:?}", caught(|| { *f.deref_mut() = v(5); })),
            16 => { f.clone_from(spare); format!("{}", f.is_void()) },
            15 => format!("{:?}", caught(|| { let x: &V = f; let y: &V = spare; (x.0, y.0) })),
            _  => { let r = std::mem::take(&mut Some(f.take())).flatten(); let s = format!("{:?}", r.as_ref().map(|x| x.0)); if let Some(x) = r { f.write_valid(x); } s }
        }
    }
    #[allow(dead_code)] const _: bool = $unique;
} }
life!(life_field, Field, false);
life!(life_unique, UniqueField, true);

/// The same step on options.
fn model(op: usize, f: &mut Option<i32>, spare: &mut Option<i32>, unique: bool) -> String {
    let kept = |f: &Option<i32>| if unique { None } else { *f };
    match op {
        0 | 1 => format!("{:?}", f.replace(op as i32 + 1)),
        2  => format!("{:?}", f.take()),
        3  => format!("{:?}", *f),
        4  => format!("{:?}", f.as_mut().map(|x| { *x += 1; })),
        5  => { let c: Option<i32> = kept(f); format!("{}{:?}", c.is_none(), c) },
        6  => { *f = kept(f); String::new() },
        7  => { *f = Some(3); String::new() },
        8  => { *f = Some(4); String::new() },
        9  => { *f = None; String::new() },
        10 => format!("{} {}", f.is_some(), f.is_none()),
        11 => { std::mem::swap(f, spare); String::new() },
        12 => format!("{:?}", f.take()),
        13 => format!("{} {} {}", f == spare, f != spare, f.is_none()),
        14 => format!("{:?}", f.as_mut().map(|x| { *x = 5; })),
        16 => { *f = kept(spare); format!("{}", f.is_none()) },
        15 => format!("{:?}", match (&*f, &*spare) { (Some(x), Some(y)) => Some((*x, *y)), _ => None }),
        _  => format!("{:?}", *f)
    }
}

fn lives<F>(ctx: &mut Ctx, name: &str, unique: bool, len: usize, make: fn() -> F, step: fn(usize, &mut F, &mut F) -> String, look: fn(&F) -> Option<i32>) {
    for first in 0..OPS { for second in 0..OPS { ctx.case(|| format!("{name}: operations {first}, {second} and up to {} more", len - 2), |ctx| {
        for rest in 0..OPS.pow(len as u32 - 2) {
            let mut ops: Vec<usize> = vec![first, second];
            let mut r: usize = rest;
            for _ in 2..len { ops.push(r % OPS); r /= OPS; }
            if rest % 64 == 0 { ctx.beat(); }
            ctx.st.executions += 1;
            {
                let (mut f, mut g): (F, F) = (make(), make());
                let (mut mf, mut mg): (Option<i32>, Option<i32>) = (None, None);
                for (i, &op) in ops.iter().enumerate() {
                    ctx.st.transitions += 1;
                    let got:  String = step(op, &mut f, &mut g);
                    let want: String = model(op, &mut mf, &mut mg, unique);
                    if got != want { return Err(format!("{name}: operations {:?}: the last gives {got}, and {want} on an option", &ops[..=i]).into()); }
                    if look(&f) != mf || look(&g) != mg { return Err(format!("{name}: operations {:?} leave {:?} and {:?}, and an option {mf:?} and {mg:?}", &ops[..=i], look(&f), look(&g)).into()); }
                }
                ctx.state_str(&format!("{name}{mf:?}{mg:?}"));
            }
            balanced(name)?;
        }
        Ok(())
    }); } }
}

fn c20(ctx: &mut Ctx) {
    let eq8 = |a: &u8, b: &u8| a == b;
    let eqi = |a: &i8, b: &i8| a == b;
    ctx.family("all pairs of bytes");
    for a in 0..=255u8 { ctx.case(|| format!("every operator on {a} (also as i8) and every byte"), |ctx| {
        for b in 0..=255u8 {
            ctx.beat();
            arithmetic!(assign! (ctx, u8) a, b, eq8); bitwise!(assign! (ctx, u8) a, b, eq8); shifts!(assign! (ctx, u8) a, b, eq8);
            let (a, b): (i8, i8) = (a as i8, b as i8);
            arithmetic!(assign! (ctx, i8) a, b, eqi); bitwise!(assign! (ctx, i8) a, b, eqi); shifts!(assign! (ctx, i8) a, b, eqi);
            ctx.st.transitions += 160;
        }
        Ok(())
    }); }
    ctx.family("other types");
    let e64 = |a: &f64, b: &f64| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan());
    let i64s: Vec<i64> = vec![0, 1, -1, 2, 7, 63, 64, -64, i64::MAX, i64::MIN, i64::MAX - 1, 1 << 32, 3037000500];
    for a in i64s.clone() { ctx.case(|| format!("every operator on the i64 {a}"), |ctx| {
        let eq = |a: &i64, b: &i64| a == b;
        for &b in &i64s { arithmetic!(assign! (ctx, i64) a, b, eq); bitwise!(assign! (ctx, i64) a, b, eq); shifts!(assign! (ctx, i64) a, b, eq); }
        let eq = |a: &u64, b: &u64| a == b;
        for &b in &i64s { arithmetic!(assign! (ctx, u64) a as u64, b as u64, eq); bitwise!(assign! (ctx, u64) a as u64, b as u64, eq); shifts!(assign! (ctx, u64) a as u64, b as u64, eq); }
        Ok(())
    }); }
    let fs: Vec<f64> = vec![0.0, -0.0, 1.0, -1.5, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.1, 1e-300, 3.0];
    for a in fs.clone() { ctx.case(|| format!("every operator on the f64 {a}"), |ctx| { for &b in &fs { arithmetic!(assign! (ctx, f64) a, b, e64); } Ok(()) }); }
    ctx.case(|| "operators on bool".into(), |ctx| { for a in [false, true] { for b in [false, true] { bitwise!(assign! (ctx, bool) a, b, |a: &bool, b: &bool| a == b); } } Ok(()) });
    ctx.case(|| "operators on wrapping numbers".into(), |ctx| {
        macro_rules! two { ($op:tt) => { for a in [0u8, 1, 128, 255] { for b in [1u8, 2, 128, 255] { for wrapped in [false, true] {
            let mut plain: Wrapping<u8> = Wrapping(a); plain $op Wrapping(b);
            let mut f: Field<Wrapping<u8>> = Field::new(Wrapping(a)); let mut u: UniqueField<Wrapping<u8>> = UniqueField::new(Wrapping(a)); let mut d: DefaultField<Wrapping<u8>> = DefaultField::new(Wrapping(a));
            if wrapped { f $op Field::new(Wrapping(b)); u $op UniqueField::new(Wrapping(b)); d $op DefaultField::new(Wrapping(b)); } else { f $op Wrapping(b); u $op Wrapping(b); d $op Wrapping(b); }
            ctx.st.executions += 3;
            if *f != plain || *u != plain || *d != plain { return Err(format!("{a} {} {b} leaves {f:?}, {u:?}, {d:?}", stringify!($op)).into()); }
        } } } } }
        two!(+=); two!(-=); two!(*=); two!(/=); two!(%=); two!(|=); two!(^=); two!(&=);
        Ok(())
    });
    for (ai, a) in ["x", "fail", ""].iter().enumerate() { for (bi, b) in ["y", "fail", ""].iter().enumerate() { ctx.case(|| format!("every operator on a type that tells them apart, operands {ai} and {bi}"), |ctx| {
        let eq = |a: &Trace, b: &Trace| a.0 == b.0;
        arithmetic!(assign! (ctx, Trace) trace(a), trace(b), eq); bitwise!(assign! (ctx, Trace) trace(a), trace(b), eq); shifts!(assign! (ctx, Trace) trace(a), trace(b), eq);
        balanced("a compound assignment")
    }); } }
    ctx.family("void operands");
    ctx.case(|| "every operator with void sides".into(), |ctx| {
        for a in [0u8, 1, 255] { arithmetic!(void_sides! (ctx, u8) a); bitwise!(void_sides! (ctx, u8) a); shifts!(void_sides! (ctx, u8) a); }
        for a in ["", "x", "fail"] { arithmetic!(void_sides! (ctx, Trace) trace(a)); bitwise!(void_sides! (ctx, Trace) trace(a)); shifts!(void_sides! (ctx, Trace) trace(a)); }
        for a in [0.0f64, f64::NAN] { arithmetic!(void_sides! (ctx, f64) a); }
        balanced("an assignment with a void side")
    });

    ctx.family("the life of a voidable field");
    let len: usize = ctx.pick(5, 6);
    lives::<Field<V>>(ctx, "Field", false, len, || Field::Void, life_field, |f| match f { Field::Valid(x) => Some(x.0), Field::Void => None });
    lives::<UniqueField<V>>(ctx, "UniqueField", true, len, || UniqueField::Void, life_unique, |f| match f { UniqueField::Valid(x) => Some(x.0), UniqueField::Void => None });

    ctx.family("fields without a void form");
    ctx.case(|| "ExportableField and DefaultField".into(), |ctx| {
        for n in -2..3 { for m in -2..3 {
            ctx.st.executions += 2;
            macro_rules! plain { ($k:ident) => { {
                let f: $k<V> = $k::new(v(n));
                let mut g: $k<V> = v(m).into();
                let name: &str = stringify!($k);
                if f.0 != n || g.deref().0 != m { return Err(format!("{name}: {n} and {m} read as {f:?} and {g:?}").into()); }
                if (f == g) != (n == m) || (f != g) != (n != m) || f.cmp(&g) != n.cmp(&m) || f.partial_cmp(&g) != n.partial_cmp(&m) || (f < g) != (n < m) || (f >= g) != (n >= m) { return Err(format!("{name}: {n} and {m} compare wrongly").into()); }
                let c: $k<V> = g.clone();
                let mut into: $k<V> = $k::new(v(n));
                into.clone_from(&g);
                if into.deref().0 != m { return Err(format!("{name}: cloning {m} over {n} leaves {into:?}").into()); }
                g.deref_mut().0 += 10;
                if c.deref().0 != m || g.deref().0 != m + 10 { return Err(format!("{name}: a clone of {m} is {c:?}").into()); }
                *g = v(n + 20);
                if g.deref().0 != n + 20 { return Err(format!("{name}: writing leaves {g:?}").into()); }
                let e: $k<V> = Default::default();
                let w: $k<V> = Voidable::void();
                if e.deref().0 != 70 || w.deref().0 != 70 { return Err(format!("{name}: default {e:?}, void {w:?}").into()); }
                if f.deref().0 != n { return Err(format!("{name}: {n} has become {f:?}").into()); }
            } } }
            plain!(ExportableField); plain!(DefaultField);
            let f: ExportableField<V> = ExportableField::new(v(n));
            let back: Option<ExportableField<V>> = Exportable::from_value(f.to_value());
            if back.as_ref() != Some(&f) { return Err(format!("ExportableField: {n} is stored and read as {back:?}").into()); }
            if <ExportableField<V> as Exportable>::from_value("x".into()).is_some() { return Err("ExportableField: a wrong stored form is accepted".into()); }
        } }
        if unsafe { ExportableField::new(v(1)).is_ghost_export() } { return Err("ExportableField is not exported".into()); }
        if !unsafe { DefaultField::new(v(1)).is_ghost_export() && Field::new(v(1)).is_ghost_export() && UniqueField::new(v(1)).is_ghost_export() } { return Err("a kind of field that is not exported says it is".into()); }
        balanced("fields without a void form")
    });
    ctx.family("comparisons");
    ctx.case(|| "Field and UniqueField".into(), |ctx| {
        let all: [Option<i32>; 4] = [None, Some(1), Some(2), Some(3)];
        macro_rules! cmp { ($k:ident) => { {
            let mk = |o: Option<i32>| -> $k<V> { match o { Some(n) => $k::Valid(v(n)), None => $k::Void } };
            for a in all { for b in all {
                ctx.st.executions += 1;
                let (f, g): ($k<V>, $k<V>) = (mk(a), mk(b));
                let name: &str = stringify!($k);
                if (f == g) != (a == b) || (f != g) != (a != b) { return Err(format!("{name}: {a:?} == {b:?} is {}", f == g).into()); }
                let o: Ordering = f.cmp(&g);
                if f.partial_cmp(&g) != Some(o) || (o == Ordering::Equal) != (a == b) || g.cmp(&f) != o.reverse() { return Err(format!("{name}: {a:?} and {b:?} compare as {o:?}").into()); }
                if a.is_some() && b.is_some() && o != a.cmp(&b) { return Err(format!("{name}: {a:?} and {b:?} compare as {o:?}").into()); }
                for c in all { if o == Ordering::Less && g.cmp(&mk(c)) == Ordering::Less && f.cmp(&mk(c)) != Ordering::Less { return Err(format!("{name}: {a:?}, {b:?}, {c:?} are not in order").into()); } }
            } }
            let (x, y): ($k<f64>, $k<f64>) = ($k::Valid(f64::NAN), $k::Valid(1.0));
            if x == x || x.partial_cmp(&y).is_some() || x < y { return Err("not-a-number compares".into()); }
        } } }
        cmp!(Field); cmp!(UniqueField);
        // Copies of copyable fields.
        let f: Field<i32> = Field::new(3); let g: Field<i32> = f; let h: Field<i32> = Field::Void; let i: Field<i32> = h;
        if f != g || h != i { return Err("a copy of a field differs".into()); }
        balanced("comparisons")
    });
}

pub const C20: Prop = Prop {
    meta: Meta {
        id: "C20",
        rule: "every compound assignment on every kind of field with plain, wrapped and void operands, over all pairs of bytes and over the edges of other types, beside the plain operator; every sequence of operations on a voidable field within the bounds beside an option, with every value counted",
        bounds: |t| b(t,
            "10 operators x 4 kinds x 2 forms x all 65536 pairs of u8 and of i8; 13 x 13 i64 and u64, 12 x 12 f64, bool, wrapping numbers, and a type that tells operators and operands apart and fails; sequences of 5 of 17 operations on two fields",
            "as quick, with sequences of 6 operations"),
        assumptions: &["whether a void field compares less or greater than a valid one is left open", "the code is compiled with overflow checks, as the tests are"]
    },
    body: c20
};
