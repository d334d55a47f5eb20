use crate::ctx::{ Ctx, Meta, Tier };

pub struct Prop { pub meta: Meta, pub body: fn(&mut Ctx) }

// Several builds: the checks of values, of wrapped types and of scenes are builds of their own, which do not need the tree model.
#[cfg(feature = "values")] pub mod values;
#[cfg(feature = "withglam")] pub mod glam;
#[cfg(feature = "wrapped")] pub mod options;
#[cfg(feature = "wrapped")] pub mod fields;
#[cfg(feature = "world")] pub mod logs;
#[cfg(feature = "world")] pub mod paths;
#[cfg(feature = "world")] pub mod pointers;
#[cfg(feature = "world")] pub mod registry;
#[cfg(feature = "world")] pub mod tree;
#[cfg(feature = "more")] pub mod players;
#[cfg(feature = "more")] pub mod queries;
#[cfg(feature = "macros")] pub mod macros;
#[cfg(feature = "scenes")] pub mod casts;
#[cfg(feature = "scenes")] pub mod damage;
#[cfg(feature = "scenes")] pub mod scenes;

#[cfg(feature = "world")]
pub const ALL: &[&Prop] = &[
    &tree::C01, &paths::C02, &paths::C03, &pointers::C04, &tree::C05, &tree::C06, &tree::C07, &tree::C08, &tree::C09, &registry::C10, &tree::C11, &registry::C12, &pointers::C19, &logs::C21, &logs::C24
];
#[cfg(feature = "scenes")]
pub const ALL: &[&Prop] = &[&scenes::C13, &damage::C15, &scenes::C16, &scenes::C17, &casts::C22];
#[cfg(feature = "more")]
pub const ALL: &[&Prop] = &[&players::C26, &queries::C27, &players::C28];
#[cfg(feature = "macros")]
pub const ALL: &[&Prop] = &[&macros::C23];
#[cfg(feature = "wrapped")]
pub const ALL: &[&Prop] = &[&options::C18, &fields::C20];
#[cfg(feature = "withglam")]
pub const ALL: &[&Prop] = &[&values::C14, &glam::C25];
#[cfg(all(feature = "values", not(feature = "withglam")))]
pub const ALL: &[&Prop] = &[&values::C14];

pub fn find(id: &str) -> Option<&'static Prop> { ALL.iter().find(|p| p.meta.id == id).copied() }

/// Picks a description by tier.
pub fn b(t: Tier, q: &str, th: &str) -> String { if t == Tier::Quick { q.into() } else { th.into() } }
