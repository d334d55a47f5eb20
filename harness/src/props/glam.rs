//! C25: glam values. Every type is seen as its flat list of components and its stored form as what storing gives.

use glam::*;
use node_tree::prelude::*;
use toml_edit::{ Array, InlineTable, Value };

use super::{ Prop, b };
use super::values::{ mutants, through_text };
use crate::ctx::{ Ctx, Meta, fnv };

pub trait Comp: Copy + 'static { fn bits(self) -> u64; fn odd() -> Vec<Self>; fn nth(i: usize) -> Self; fn kind() -> &'static str; fn fits(v: &Value) -> Option<Option<u64>>; }

macro_rules! ints { ($($t:ty),*) => { $( impl Comp for $t {
    fn bits(self) -> u64 { self as i64 as u64 }
    fn odd() -> Vec<Self> { vec![<$t>::MIN, <$t>::MAX, 0, 1, <$t>::MAX / 2 + 1, (0 as $t).wrapping_sub(1)] }
    fn nth(i: usize) -> Self { i as $t + 2 }
    fn kind() -> &'static str { "integer" }
    /// What a stored component has to be read as; outer None where that is left open.
    fn fits(v: &Value) -> Option<Option<u64>> {
        let Some(i) = v.as_integer() else { return Some(None) };
        match <$t>::try_from(i) { Ok(x) => Some(Some(x.bits())), Err(_) if stringify!($t) == "u64" => None, Err(_) => Some(None) }
    }
} )* } }
ints!(u8, u16, u32, u64, i8, i16, i32, i64);

impl Comp for bool {
    fn bits(self) -> u64 { self as u64 }
    fn odd() -> Vec<Self> { vec![true, false] }
    fn nth(i: usize) -> Self { i % 2 == 0 }
    fn kind() -> &'static str { "boolean" }
    fn fits(v: &Value) -> Option<Option<u64>> { Some(v.as_bool().map(|b| b as u64)) }
}
impl Comp for f32 {
    fn bits(self) -> u64 { if self.is_nan() { u64::MAX } else { self.to_bits() as u64 } }
    fn odd() -> Vec<Self> { vec![-0.0, f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, 1e-45, 0.1, 16777217.0, 1.0 / 3.0, -1.0] }
    fn nth(i: usize) -> Self { i as f32 + 2.25 }
    fn kind() -> &'static str { "float" }
    fn fits(v: &Value) -> Option<Option<u64>> {
        let Some(f) = v.as_float() else { return Some(None) };
        if f.is_nan() || (f as f32 as f64).to_bits() == f.to_bits() { Some(Some((f as f32).bits())) } else { None }
    }
}
impl Comp for f64 {
    fn bits(self) -> u64 { if self.is_nan() { u64::MAX } else { self.to_bits() } }
    fn odd() -> Vec<Self> { vec![-0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.1, 9007199254740993.0, 1.0 / 3.0, -1.0, 1e17] }
    fn nth(i: usize) -> Self { i as f64 + 2.25 }
    fn kind() -> &'static str { "float" }
    fn fits(v: &Value) -> Option<Option<u64>> { Some(v.as_float().map(|f| f.bits())) }
}

pub trait G: Exportable + Sized { type C: Comp; const N: usize; fn make(c: &[Self::C]) -> Self; fn comps(&self) -> Vec<Self::C>; }

macro_rules! glams { ($($t:ident $c:ty, $n:literal, |$a:ident| $make:expr, |$v:ident| $comps:expr;)*) => { $( impl G for $t {
    type C = $c;
    const N: usize = $n;
    fn make(c: &[$c]) -> Self { let $a: [$c; $n] = c.try_into().unwrap(); $make }
    fn comps(&self) -> Vec<$c> { let $v = self; $comps.to_vec() }
} )* } }
glams!(
    BVec2 bool, 2, |a| BVec2::new(a[0], a[1]), |v| [v.x, v.y]; BVec3 bool, 3, |a| BVec3::new(a[0], a[1], a[2]), |v| [v.x, v.y, v.z]; BVec4 bool, 4, |a| BVec4::new(a[0], a[1], a[2], a[3]), |v| [v.x, v.y, v.z, v.w];
    U8Vec2 u8, 2, |a| U8Vec2::from_array(a), |v| v.to_array(); U8Vec3 u8, 3, |a| U8Vec3::from_array(a), |v| v.to_array(); U8Vec4 u8, 4, |a| U8Vec4::from_array(a), |v| v.to_array();
    U16Vec2 u16, 2, |a| U16Vec2::from_array(a), |v| v.to_array(); U16Vec3 u16, 3, |a| U16Vec3::from_array(a), |v| v.to_array(); U16Vec4 u16, 4, |a| U16Vec4::from_array(a), |v| v.to_array();
    UVec2 u32, 2, |a| UVec2::from_array(a), |v| v.to_array(); UVec3 u32, 3, |a| UVec3::from_array(a), |v| v.to_array(); UVec4 u32, 4, |a| UVec4::from_array(a), |v| v.to_array();
    U64Vec2 u64, 2, |a| U64Vec2::from_array(a), |v| v.to_array(); U64Vec3 u64, 3, |a| U64Vec3::from_array(a), |v| v.to_array(); U64Vec4 u64, 4, |a| U64Vec4::from_array(a), |v| v.to_array();
    I8Vec2 i8, 2, |a| I8Vec2::from_array(a), |v| v.to_array(); I8Vec3 i8, 3, |a| I8Vec3::from_array(a), |v| v.to_array(); I8Vec4 i8, 4, |a| I8Vec4::from_array(a), |v| v.to_array();
    I16Vec2 i16, 2, |a| I16Vec2::from_array(a), |v| v.to_array(); I16Vec3 i16, 3, |a| I16Vec3::from_array(a), |v| v.to_array(); I16Vec4 i16, 4, |a| I16Vec4::from_array(a), |v| v.to_array();
    IVec2 i32, 2, |a| IVec2::from_array(a), |v| v.to_array(); IVec3 i32, 3, |a| IVec3::from_array(a), |v| v.to_array(); IVec4 i32, 4, |a| IVec4::from_array(a), |v| v.to_array();
    I64Vec2 i64, 2, |a| I64Vec2::from_array(a), |v| v.to_array(); I64Vec3 i64, 3, |a| I64Vec3::from_array(a), |v| v.to_array(); I64Vec4 i64, 4, |a| I64Vec4::from_array(a), |v| v.to_array();
    Vec2 f32, 2, |a| Vec2::from_array(a), |v| v.to_array(); Vec3 f32, 3, |a| Vec3::from_array(a), |v| v.to_array(); Vec3A f32, 3, |a| Vec3A::from_array(a), |v| v.to_array(); Vec4 f32, 4, |a| Vec4::from_array(a), |v| v.to_array();
    Mat2 f32, 4, |a| Mat2::from_cols_array(&a), |v| v.to_cols_array(); Mat3 f32, 9, |a| Mat3::from_cols_array(&a), |v| v.to_cols_array(); Mat3A f32, 9, |a| Mat3A::from_cols_array(&a), |v| v.to_cols_array(); Mat4 f32, 16, |a| Mat4::from_cols_array(&a), |v| v.to_cols_array();
    Quat f32, 4, |a| Quat::from_array(a), |v| v.to_array(); Affine2 f32, 6, |a| Affine2::from_cols_array(&a), |v| v.to_cols_array(); Affine3A f32, 12, |a| Affine3A::from_cols_array(&a), |v| v.to_cols_array();
    DVec2 f64, 2, |a| DVec2::from_array(a), |v| v.to_array(); DVec3 f64, 3, |a| DVec3::from_array(a), |v| v.to_array(); DVec4 f64, 4, |a| DVec4::from_array(a), |v| v.to_array();
    DMat2 f64, 4, |a| DMat2::from_cols_array(&a), |v| v.to_cols_array(); DMat3 f64, 9, |a| DMat3::from_cols_array(&a), |v| v.to_cols_array(); DMat4 f64, 16, |a| DMat4::from_cols_array(&a), |v| v.to_cols_array();
    DQuat f64, 4, |a| DQuat::from_array(a), |v| v.to_array(); DAffine2 f64, 6, |a| DAffine2::from_cols_array(&a), |v| v.to_cols_array(); DAffine3 f64, 12, |a| DAffine3::from_cols_array(&a), |v| v.to_cols_array();
);

fn bits<T: G>(v: &T) -> Vec<u64> { v.comps().into_iter().map(|c| c.bits()).collect() }

fn round<T: G>(c: &[T::C]) -> Result<u64, String> {
    let v:      T     = T::make(c);
    let stored: Value = v.to_value();
    let print: String = stored.to_string();
    let want: Vec<u64> = c.iter().map(|c| c.bits()).collect();
    let check = |got: Option<T>, how: &str| match got {
        Some(x) if bits(&x) == want => Ok(()),
        Some(x) => Err(format!("{print} {how} reads as {}", x.to_value())),
        None    => Err(format!("{print} {how} is refused"))
    };
    check(T::from_value(stored.clone()), "directly")?;
    check(T::from_value(through_text(stored.clone())?), "through text")?;
    let nested: Option<Vec<Option<T>>> = Exportable::from_value(through_text(vec![Some(v)].to_value())?);
    check(nested.and_then(|mut l| l.pop()).flatten(), "in a list of options")?;
    Ok(fnv(print.as_bytes()))
}

/// The components in a stored form, in the order in which they are met.
fn leaves(v: &Value, out: &mut Vec<Value>) {
    match v {
        Value::Array(a)       => a.iter().for_each(|x| leaves(x, out)),
        Value::InlineTable(t) => t.iter().for_each(|(_, x)| leaves(x, out)),
        x => out.push(x.clone())
    }
}

/// The nesting, sizes and keys of a stored form without the components.
fn layout(v: &Value) -> String {
    match v {
        Value::Array(a)       => format!("[{}]", a.iter().map(layout).collect::<Vec<_>>().join(",")),
        Value::InlineTable(t) => { let mut l: Vec<String> = t.iter().map(|(k, x)| format!("{k}={}", layout(x))).collect(); l.sort(); format!("{{{}}}", l.join(",")) },
        _ => "c".into()
    }
}

fn damaged<T: G>(ctx: &mut Ctx, forms: &[Value], top: &Value) -> Result<(), String> {
    let shape: String = layout(top);
    for m in forms {
        ctx.st.executions += 1; ctx.st.transitions += 1; ctx.beat();
        let got: Option<T> = T::from_value(m.clone());
        if layout(m) != shape {
            // A table with more than the needed keys is left open.
            if let (Value::InlineTable(t), Value::InlineTable(o)) = (m, top) {
                if t.len() > o.len() { continue; }
            }
            if let Some(x) = got { return Err(format!("{m} is accepted and reads as {}", x.to_value())); }
            ctx.outcome("refused for its layout");
            continue;
        }
        let mut cs: Vec<Value> = Vec::new();
        leaves(m, &mut cs);
        let want: Vec<Option<Option<u64>>> = cs.iter().map(<T::C as Comp>::fits).collect();
        if want.iter().any(|w| *w == Some(None)) {
            if let Some(x) = got { return Err(format!("{m} is accepted and reads as {}", x.to_value())); }
            ctx.outcome("refused for a component");
        } else if want.iter().all(|w| w.is_some()) {
            let Some(x) = got else { return Err(format!("{m} is refused")) };
            // The order of the components within the form is that of the form itself.
            let mut again: Vec<Value> = Vec::new();
            leaves(&x.to_value(), &mut again);
            let a: Vec<Option<Option<u64>>> = again.iter().map(<T::C as Comp>::fits).collect();
            if a != want { return Err(format!("{m} reads as {}", x.to_value())); }
            ctx.outcome("read");
        }
    }
    Ok(())
}

fn ty<T: G>(ctx: &mut Ctx) {
    let name: &str = std::any::type_name::<T>();
    let base: Vec<T::C> = (0..T::N).map(<T::C as Comp>::nth).collect();
    let odd:  Vec<T::C> = <T::C as Comp>::odd();
    let fail = |e: String| crate::ctx::Fail::from(format!("{name}: {e}"));
    let run = |ctx: &mut Ctx, c: &[T::C]| { ctx.st.executions += 1; ctx.st.transitions += 3; ctx.beat(); match round::<T>(c) { Ok(h) => { ctx.state(h ^ fnv(name.as_bytes())); Ok(()) }, Err(e) => Err(fail(e)) } };

    ctx.case(|| format!("{name} with one or two odd components"), |ctx| {
        run(ctx, &base)?;
        for i in 0..T::N { for x in &odd {
            let mut c: Vec<T::C> = base.clone(); c[i] = *x;
            run(ctx, &c)?;
            for j in 0..i { for y in &odd { let mut c: Vec<T::C> = c.clone(); c[j] = *y; run(ctx, &c)?; } }
        } }
        for x in &odd { run(ctx, &vec![*x; T::N])?; }
        Ok(())
    });
    if T::N <= 4 {
        ctx.case(|| format!("{name} with any odd components"), |ctx| {
            for i in 0..odd.len().pow(T::N as u32) {
                let mut c: Vec<T::C> = Vec::new(); let mut i: usize = i;
                for _ in 0..T::N { c.push(odd[i % odd.len()]); i /= odd.len(); }
                run(ctx, &c)?;
            }
            Ok(())
        });
    }
    ctx.case(|| format!("{name}: every component at every place of its form"), |ctx| {
        // Storing keeps all components apart: each appears in the form exactly once.
        let mut out: Vec<Value> = Vec::new();
        leaves(&T::make(&base).to_value(), &mut out);
        ctx.st.executions += 1;
        if out.len() != T::N && <T::C as Comp>::kind() != "boolean" { return Err(fail(format!("{} components are stored as {}", T::N, T::make(&base).to_value()))); }
        Ok(())
    });
    let kinds: Vec<Value> = vec![7.into(), (-1).into(), 256.into(), 65536.into(), (1i64 << 32).into(), i64::MIN.into(), 2.5.into(), f64::NAN.into(), "1".into(), true.into(), "1979-05-27".parse::<toml_edit::Datetime>().unwrap().into(), Value::Array(Array::new()), Value::InlineTable(InlineTable::new()), Value::Array(Array::from_iter([1.5f64])), Value::Array(Array::from_iter([1.5f64, 2.5])), Value::Array(Array::from_iter([1i64, 2])), Value::Array(Array::from_iter([true, false, true]))];
    let top: Value = T::make(&base).to_value();
    ctx.case(|| format!("{name} from forms damaged in one place"), |ctx| damaged::<T>(ctx, &mutants(&top, &kinds), &top).map_err(fail));
    let deep: bool = !ctx.quick() || T::N <= 4;
    if deep {
        ctx.case(|| format!("{name} from forms damaged in two places"), |ctx| {
            for m in mutants(&top, &kinds) { damaged::<T>(ctx, &mutants(&m, &kinds[..11]), &top).map_err(fail)?; }
            Ok(())
        });
    }
}

fn c25(ctx: &mut Ctx) {
    macro_rules! every { ($($t:ident)*) => { $( ty::<$t>(ctx); )* } }
    ctx.family("every glam type");
    every!(BVec2 BVec3 BVec4 U8Vec2 U8Vec3 U8Vec4 U16Vec2 U16Vec3 U16Vec4 UVec2 UVec3 UVec4 U64Vec2 U64Vec3 U64Vec4 I8Vec2 I8Vec3 I8Vec4 I16Vec2 I16Vec3 I16Vec4 IVec2 IVec3 IVec4 I64Vec2 I64Vec3 I64Vec4
           Vec2 Vec3 Vec3A Vec4 Mat2 Mat3 Mat3A Mat4 Quat Affine2 Affine3A DVec2 DVec3 DVec4 DMat2 DMat3 DMat4 DQuat DAffine2 DAffine3);
}

pub const C25: Prop = Prop {
    meta: Meta {
        id: "C25",
        rule: "every value listed by the bounds of every glam type is stored and read back directly, through text and nested; every form that differs from a stored one in one or two places is read and compared with a reference reading",
        bounds: |t| b(t,
            "47 glam types; every pair of components at every pair of odd values (limits, zeroes, not-a-number, infinities), all combinations of odd values for up to 4 components; forms damaged in one place by 17 replacements, drops, repeats and renamed keys, in two places for types of up to 4 components",
            "as quick, with two damaged places for all types"),
        assumptions: &["left open: precision lost when an f32 is read from a more precise number, u64 components from negative numbers, tables with keys beyond the needed ones"]
    },
    body: c25
};
