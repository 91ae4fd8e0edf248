use crate::fw::{Prop, Stats, Sub, R};
use crate::gen::Gen;
use crate::props::f;
use crate::rec::*;
use crate::tree::*;
use std::collections::BTreeMap;
use sval::Value;

/// The calls a value has to make.
#[derive(Default)]
pub struct Want {
    e: Expected,
    keys: Vec<f::Str>,
}
impl Want {
    pub fn put(&mut self, e: Ev) {
        self.e.ev.push(e)
    }
    pub fn flatten(&mut self, p: f::Parent, n: &FNode, at: isize) -> isize {
        f::expect(p, &n.0, at, &mut self.e, &mut self.keys).0
    }
}
pub fn lab(t: &str, tag: Option<u8>) -> Lab {
    Lab { text: t.to_string(), tag }
}
pub fn idx(n: i128, tag: Option<u8>) -> Idx {
    Idx { n, tag }
}
/// a position
pub fn off(n: isize) -> Idx {
    Idx { n: n as i128, tag: Some(T_OFFSET) }
}
pub fn id(tag: Option<u8>, label: Option<Lab>, index: Option<Idx>) -> Id {
    Id { tag, label, index }
}

/// Types with random values whose expected calls are known.
pub trait Mk: Value {
    fn mk(g: &mut Gen) -> Self
    where
        Self: Sized;
    /// For types that aren't derived: whatever their own implementation does (S05 judges those).
    fn exp(&self, w: &mut Want) {
        let mut r = Rec::new();
        self.stream(&mut r).expect("HARNESS: recorder");
        w.e.ev.extend(r.ev)
    }
    fn want_tag(&self) -> Option<u8> {
        None
    }
    fn known_tag() -> bool
    where
        Self: Sized,
    {
        false
    }
}
/// An arbitrary value.
#[derive(Debug, Clone)]
pub struct FNode(pub Node);
impl Value for FNode {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
        stream.value(&self.0)
    }
}
impl Mk for FNode {
    fn mk(g: &mut Gen) -> Self {
        FNode(f::gen_flat(g))
    }
    fn exp(&self, w: &mut Want) {
        exp_node(&self.0, false, &mut w.e)
    }
}
macro_rules! ints {
    ($($t:ident)*) => { $(impl Mk for $t { fn mk(g: &mut Gen) -> Self { if g.bool() { g.u64() as $t } else { g.below(5) as $t } } })* };
}
ints!(u8 u16 u32 u64 u128 i8 i16 i32 i64 i128);
impl Mk for f32 {
    fn mk(g: &mut Gen) -> Self {
        f32::from_bits(gen_f32(g))
    }
}
impl Mk for f64 {
    fn mk(g: &mut Gen) -> Self {
        f64::from_bits(gen_f64(g))
    }
}
impl Mk for bool {
    fn mk(g: &mut Gen) -> Self {
        g.bool()
    }
}
impl Mk for char {
    fn mk(g: &mut Gen) -> Self {
        gen_string(g).chars().next().unwrap_or('x')
    }
}
impl Mk for String {
    fn mk(g: &mut Gen) -> Self {
        gen_string(g)
    }
}
impl Mk for &'static str {
    fn mk(g: &mut Gen) -> Self {
        *g.pick(&["", "a", "text", "h\u{e9}llo", "\0\"\\"])
    }
}
impl Mk for () {
    fn mk(_: &mut Gen) -> Self {}
}
impl<T: Mk> Mk for Option<T> {
    fn mk(g: &mut Gen) -> Self {
        if g.bool() {
            Some(T::mk(g))
        } else {
            None
        }
    }
}
impl<T: Mk> Mk for Vec<T> {
    fn mk(g: &mut Gen) -> Self {
        (0..g.below(3)).map(|_| T::mk(g)).collect()
    }
}
impl<T: Mk> Mk for Box<T> {
    fn mk(g: &mut Gen) -> Self {
        Box::new(T::mk(g))
    }
    fn exp(&self, w: &mut Want) {
        (**self).exp(w)
    }
}
impl<T: Mk, const N: usize> Mk for [T; N] {
    fn mk(g: &mut Gen) -> Self {
        [(); N].map(|_| T::mk(g))
    }
}
impl<T: Mk> Mk for BTreeMap<String, T> {
    fn mk(g: &mut Gen) -> Self {
        (0..g.below(3)).map(|_| (gen_string(g), T::mk(g))).collect()
    }
}
macro_rules! tuples {
    ($($($t:ident)*;)*) => { $(impl<$($t: Mk),*> Mk for ($($t,)*) { fn mk(g: &mut Gen) -> Self { ($($t::mk(g),)*) } })* };
}
tuples!(A; A B; A B C; A B C D;);

pub struct Entry {
    pub name: &'static str,
    pub run: fn(&'static str, &mut Gen, &mut Stats) -> R,
    pub feat: &'static [&'static str],
}

pub fn run<T: Mk + std::fmt::Debug>(name: &'static str, g: &mut Gen, st: &mut Stats) -> R {
    let v = T::mk(g);
    let mut w = Want::default();
    v.exp(&mut w);
    let mut r = Rec::new();
    v.stream(&mut r).map_err(|_| format!("{name}: streaming failed for {v:?}"))?;
    st.events += r.ev.len() as u64;
    let got = no_hints(&norm_hints(&r.ev));
    let mut want = no_hints(&norm_hints(&w.e.ev));
    f::unmark(&got, &mut want, &w.keys);
    if let Some(d) = diff(&got, &want) {
        return Err(format!("{name}: {d}\n got {}\n want {}\n for {v:?}", crate::props::short(&format!("{got:?}")), crate::props::short(&format!("{want:?}"))));
    }
    if let Some(b) = &r.bad_static {
        return Err(format!("{name}: {b}"));
    }
    parse_opt(&r.ev, false).map_err(|e| format!("{name}: not well-formed: {e} for {v:?}"))?;
    if T::known_tag() {
        let t = v.tag().as_ref().map(tag_id);
        if t != v.want_tag() {
            return Err(format!("{name}: tag() is {t:?}, declared {:?}", v.want_tag()));
        }
    }
    // the same through a stream that refuses one call
    let k = g.idx(r.ev.len());
    let mut p = Rec::failing(k);
    if v.stream(&mut p).is_ok() || p.after_failure > 0 || p.ev[..] != r.ev[..k] {
        return Err(format!("{name}: call {k} was refused, yet {} calls followed and {} came before, for {v:?}", p.after_failure, p.ev.len()));
    }
    let kinds: Vec<_> = r.ev.iter().map(std::mem::discriminant).collect();
    st.seen(&(name, kinds));
    st.sample(|| format!("{name} {v:?}"));
    Ok(())
}

fn types(g: &mut Gen, st: &mut Stats) -> R {
    let e = g.pick(crate::types::TYPES);
    for f in e.feat {
        st.count(f, 1);
    }
    (e.run)(e.name, g, st)
}

pub static D01: Prop = Prop {
    id: "D01",
    rule: "distinct = (generated type, kinds of calls made) compared with the model of the definition",
    assumptions: &[
        "definitions mixing explicit field indexes with flattened fields are left out: the documentation doesn't say how they number",
        "attributes that contradict each other on accepted definitions (a label on a variant of an enum with unlabeled variants, a tag on a transparent variant or on a flattened field) are left out",
        "discriminants are literals",
    ],
    level: "exploration",
    subs: &[Sub { name: "types", weight: 1, f: types, once: false }],
    must_see: &[
        "kind_unit", "kind_newtype", "kind_named", "kind_tuple", "kind_enum", "kind_dynamic", "as_RecordTuple", "as_Record", "as_Tuple", "as_Seq", "transparent", "skip", "flatten_RecordTuple",
        "flatten_Record", "flatten_Tuple", "flatten_Seq", "field_tag", "data_tag", "field_label", "field_index", "index_after_explicit", "container_tag", "container_label", "container_index", "discriminant",
        "variant_after_discriminant", "variant_index", "variant_label", "variant_tag", "unlabeled_variants", "unindexed_variants", "generics", "raw_ident", "index_path", "label_path", "tag_string", "tag_path",
        "index_negative", "nested_derived", "split_attrs",
    ],
};
