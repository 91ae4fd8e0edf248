//! Concrete Rust types implementing both sval and serde, with random values.

use crate::gen::Gen;
use crate::tree::{gen_f32, gen_f64, gen_int, gen_string, gen_uint};
use serde_derive::Serialize;
use std::collections::BTreeMap;
use sval_derive::Value;

#[derive(Value, Serialize, Debug, Clone, PartialEq)]
pub struct Unit;
#[derive(Value, Serialize, Debug, Clone, PartialEq, PartialOrd, Eq, Ord)]
pub struct Newtype(pub String);
#[derive(Value, Serialize, Debug, Clone, PartialEq)]
pub struct Pair(pub i32, pub String);
#[derive(Value, Serialize, Debug, Clone, PartialEq)]
pub struct Point {
    pub x: i64,
    pub y: f64,
    pub name: String,
}
#[derive(Value, Serialize, Debug, Clone, PartialEq, PartialOrd, Eq, Ord)]
pub enum Kind {
    Alpha,
    Beta,
    Gamma,
}
#[derive(Value, Serialize, Debug, Clone, PartialEq)]
pub enum Shape {
    Empty,
    Wrapped(Box<T>),
    Two(i8, Box<T>),
    Named { kind: Kind, inner: Box<T> },
    Opt(Option<Box<T>>),
    NoFields {},
}
#[derive(Value, Serialize, Debug, Clone, PartialEq)]
pub struct Generic<A, B> {
    pub first: A,
    pub second: Option<B>,
}
#[derive(Value, Serialize, Debug, Clone, PartialEq)]
pub struct EmptyRecord {}
#[derive(Value, Serialize, Debug, Clone, PartialEq)]
pub struct Renamed {
    #[sval(label = "type")]
    #[serde(rename = "type")]
    pub ty: u8,
    #[sval(label = "with space \"q\"")]
    #[serde(rename = "with space \"q\"")]
    pub odd: bool,
    #[sval(skip)]
    #[serde(skip)]
    #[allow(dead_code)]
    pub hidden: u8,
}

#[derive(Value, Serialize, Debug, Clone, PartialEq)]
#[sval(dynamic)]
#[serde(untagged)]
pub enum T {
    Unit(Unit),
    Newtype(Newtype),
    Pair(Pair),
    Point(Point),
    Kind(Kind),
    Shape(Shape),
    Gen(Box<Generic<T, T>>),
    EmptyRecord(EmptyRecord),
    Renamed(Renamed),
    Bool(bool),
    U8(u8),
    U64(u64),
    I32(i32),
    I64(i64),
    I128(i128),
    U128(u128),
    F32(f32),
    F64(f64),
    Str(String),
    Char(char),
    Opt(Option<Box<T>>),
    Seq(Vec<T>),
    Arr([u16; 3]),
    Tup((Box<T>, bool, Box<T>)),
    StrMap(BTreeMap<String, T>),
    IntMap(BTreeMap<i64, T>),
    KindMap(BTreeMap<Kind, T>),
    NewMap(BTreeMap<Newtype, T>),
    /// not comparable with serde_json (keys it rejects)
    OptMap(BTreeMap<Option<u8>, T>),
    UnitMap(BTreeMap<(), T>),
}

pub fn gen(g: &mut Gen) -> T {
    let mut left = 12;
    value(g, 0, &mut left, false)
}
/// also types serde_json cannot write
pub fn gen_any(g: &mut Gen) -> T {
    let mut left = 12;
    value(g, 0, &mut left, true)
}

fn kind(g: &mut Gen) -> Kind {
    g.pick(&[Kind::Alpha, Kind::Beta, Kind::Gamma]).clone()
}

fn value(g: &mut Gen, d: u32, left: &mut i32, any: bool) -> T {
    *left -= 1;
    let simple = d > 4 || *left <= 0;
    let k = if simple { g.below(16) } else { g.below(if any { 30 } else { 28 }) };
    match k {
        0 => T::Bool(g.bool()),
        1 => T::U8(gen_uint(g, 8) as u8),
        2 => T::U64(gen_uint(g, 64) as u64),
        3 => T::I32(gen_int(g, 32) as i32),
        4 => T::I64(gen_int(g, 64) as i64),
        5 => T::I128(gen_int(g, 128)),
        6 => T::U128(gen_uint(g, 128)),
        7 => T::F32(f32::from_bits(gen_f32(g))),
        8 => T::F64(f64::from_bits(gen_f64(g))),
        9 => T::Str(gen_string(g)),
        10 => T::Char(crate::tree::gen_char(g)),
        11 if any => T::Unit(Unit), // written by name by sval, as null by serde_json
        11 => T::Opt(None),
        12 => T::Newtype(Newtype(gen_string(g))),
        13 => T::Kind(kind(g)),
        14 => T::EmptyRecord(EmptyRecord {}),
        15 => T::Renamed(Renamed { ty: g.below(256) as u8, odd: g.bool(), hidden: 1 }),
        16 => T::Pair(Pair(gen_int(g, 32) as i32, gen_string(g))),
        17 => T::Point(Point { x: gen_int(g, 64) as i64, y: f64::from_bits(gen_f64(g)), name: gen_string(g) }),
        18 => T::Shape(match g.below(6) {
            0 => Shape::Empty,
            1 => Shape::Wrapped(Box::new(value(g, d + 1, left, any))),
            2 => Shape::Two(g.below(200) as u8 as i8, Box::new(value(g, d + 1, left, any))),
            3 => Shape::Named { kind: kind(g), inner: Box::new(value(g, d + 1, left, any)) },
            4 => Shape::Opt(if g.bool() { None } else { Some(Box::new(value(g, d + 1, left, any))) }),
            _ => Shape::NoFields {},
        }),
        19 => T::Gen(Box::new(Generic { first: value(g, d + 1, left, any), second: if g.bool() { Some(value(g, d + 1, left, any)) } else { None } })),
        20 => T::Opt(if g.chance(1, 3) { None } else { Some(Box::new(value(g, d + 1, left, any))) }),
        21 => {
            let n = g.idx(4);
            T::Seq((0..n).map(|_| value(g, d + 1, left, any)).collect())
        }
        22 => T::Arr([g.below(65536) as u16, 0, 65535]),
        23 => T::Tup((Box::new(value(g, d + 1, left, any)), g.bool(), Box::new(value(g, d + 1, left, any)))),
        24 => {
            let n = g.idx(4);
            T::StrMap((0..n).map(|_| (gen_string(g), value(g, d + 1, left, any))).collect())
        }
        25 => {
            let n = g.idx(4);
            T::IntMap((0..n).map(|_| (gen_int(g, 64) as i64, value(g, d + 1, left, any))).collect())
        }
        26 => {
            let n = g.idx(4);
            T::KindMap((0..n).map(|_| (kind(g), value(g, d + 1, left, any))).collect())
        }
        27 => {
            let n = g.idx(4);
            T::NewMap((0..n).map(|_| (Newtype(gen_string(g)), value(g, d + 1, left, any))).collect())
        }
        28 => {
            let n = g.idx(4);
            T::OptMap((0..n).map(|_| (if g.bool() { Some(g.below(9) as u8) } else { None }, value(g, d + 1, left, any))).collect())
        }
        _ => {
            let n = g.idx(2);
            T::UnitMap((0..n).map(|_| ((), value(g, d + 1, left, any))).collect())
        }
    }
}
