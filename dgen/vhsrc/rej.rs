//! D02: definitions the derive macro has to reject. What matters is how the compiler gets on with it.
#![allow(warnings)]
pub const TG: sval::Tag = sval::Tag::new("t");
pub const LB: sval::Label<'static> = sval::Label::new("l");
pub const IX: sval::Index = sval::Index::new(7);
pub const FLAG: bool = true;
pub fn f() -> sval::Label<'static> { LB }
pub mod inner { pub use super::{IX, LB, TG}; }
include!(concat!(env!("VH_REJ"), "/defs.rs"));
fn main() {}
