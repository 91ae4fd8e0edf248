//! D01: generated type definitions whose derived implementations are compared with a model of the definition.
#![allow(warnings)]
#[path = "../../harness/vhsrc/cli.rs"]
mod cli;
#[path = "../../harness/vhsrc/fw.rs"]
mod fw;
#[path = "../../harness/vhsrc/gen.rs"]
mod gen;
#[path = "../../harness/vhsrc/rec.rs"]
mod rec;
#[path = "../../harness/vhsrc/tree.rs"]
mod tree;
mod props;
mod d;
mod types {
    include!(concat!(env!("VH_DGEN"), "/types.rs"));
    use crate::d::*;
    use crate::gen::Gen;
    use crate::props::f::Parent;
    use crate::rec::Ev;
    use crate::tree::{T_IDENT, T_OFFSET};
    use crate::{ix, lb, tg};
    use sval_derive::Value;
}

pub mod tg {
    pub const A: sval::Tag = sval::Tag::new("vh::CUSTOM_1");
    pub const B: sval::Tag = sval::Tag::new("vh::custom two");
    pub const C: sval::Tag = sval::Tag::new("");
    pub mod inner {
        pub const NUM: sval::Tag = sval::tags::NUMBER;
    }
}
pub mod lb {
    pub const PLAIN: sval::Label<'static> = sval::Label::new("plain path label");
    pub const TAGGED: sval::Label<'static> = sval::Label::new("tagged").with_tag(&super::tg::A);
    pub const EMPTY: sval::Label<'static> = sval::Label::new("");
}
pub mod ix {
    pub const INDEX: sval::Index = sval::Index::new(7);
    pub const TAGGED: sval::Index = sval::Index::new(3).with_tag(&super::tg::B);
    pub const I32: i32 = -9;
    pub const USIZE: usize = 12;
    pub const I64: i64 = 1 << 40;
    pub const U64: u64 = 77;
}

fn main() {
    cli::main(vec![&d::D01]);
}
