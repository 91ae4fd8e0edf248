//! S03 (scalar conversions), S04 (labels, indexes, tags) and S05 (built-in types).

use super::s1::{convs, Conv};
use super::{note, short};
use crate::fw::*;
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use std::collections::{BTreeMap, HashMap};
use std::hash::{Hash, Hasher};
use sval::{Index, Label, Tag};
use sval_dynamic::Value as DV;
use sval_ref::{Ref, ValueRef};

// ------------------------------------------------------------------------------------------- S03

#[derive(Clone, Debug, PartialEq)]
pub enum Want<T> {
    /// this answer exactly
    Is(Option<T>),
    /// nothing, or this
    AtMost(T),
}
impl<T: PartialEq + std::fmt::Debug> Want<T> {
    fn ok(&self, got: &Option<T>) -> bool {
        match self {
            Want::Is(w) => w == got,
            Want::AtMost(w) => got.is_none() || got.as_ref() == Some(w),
        }
    }
}
fn no<T>() -> Want<T> {
    Want::Is(None)
}

/// What a value may answer.
#[derive(Clone, Debug)]
pub struct Model {
    bool: Want<bool>,
    f32: Want<u32>,
    f64: Want<u64>,
    i: [Want<i128>; 5],
    u: [Want<u128>; 5],
    /// the text must lie at this place
    text_at: Option<(usize, usize)>,
    text: Want<String>,
    bin_at: Option<(usize, usize)>,
    bin: Want<Vec<u8>>,
}
impl Model {
    fn none() -> Model {
        Model {
            bool: no(),
            f32: no(),
            f64: no(),
            i: [no(), no(), no(), no(), no()],
            u: [no(), no(), no(), no(), no()],
            text_at: None,
            text: no(),
            bin_at: None,
            bin: no(),
        }
    }
    fn signed(v: i128) -> Model {
        let mut m = Model::none();
        for (k, b) in BITS.iter().enumerate() {
            m.i[k] = Want::Is(if fits_i(v, *b) { Some(v) } else { None });
            if v >= 0 && fits_u(v as u128, *b) {
                m.u[k] = Want::AtMost(v as u128);
            }
        }
        m
    }
    fn unsigned(v: u128) -> Model {
        let mut m = Model::none();
        for (k, b) in BITS.iter().enumerate() {
            m.u[k] = Want::Is(if fits_u(v, *b) { Some(v) } else { None });
            if let Ok(v) = i128::try_from(v) {
                if fits_i(v, *b) {
                    m.i[k] = Want::AtMost(v);
                }
            }
        }
        m
    }
    fn single(b: u32) -> Model {
        let mut m = Model::none();
        m.f32 = Want::Is(Some(nan32(b)));
        m.f64 = Want::AtMost(nan64((f32::from_bits(b) as f64).to_bits()));
        m
    }
    fn double(b: u64) -> Model {
        let mut m = Model::none();
        m.f64 = Want::Is(Some(nan64(b)));
        let v = f64::from_bits(b);
        if v.is_nan() || (v as f32) as f64 == v {
            m.f32 = Want::AtMost(nan32((v as f32).to_bits()));
        }
        m
    }
    fn boolean(b: bool) -> Model {
        Model { bool: Want::Is(Some(b)), ..Model::none() }
    }
    fn text_here(s: &str) -> Model {
        Model { text: Want::Is(Some(s.to_string())), text_at: Some(at(s.as_bytes())), ..Model::none() }
    }
    fn text_maybe(s: String) -> Model {
        Model { text: Want::AtMost(s), ..Model::none() }
    }
    fn bin_here(s: &[u8]) -> Model {
        Model { bin: Want::Is(Some(s.to_vec())), bin_at: Some(at(s)), ..Model::none() }
    }
}
const BITS: [u32; 5] = [8, 16, 32, 64, 128];
fn fits_i(v: i128, b: u32) -> bool {
    b == 128 || (v >= -(1i128 << (b - 1)) && v < (1i128 << (b - 1)))
}
fn fits_u(v: u128, b: u32) -> bool {
    b == 128 || v < (1u128 << b)
}
fn nan32(b: u32) -> u32 {
    if f32::from_bits(b).is_nan() {
        f32::NAN.to_bits()
    } else {
        b
    }
}
fn nan64(b: u64) -> u64 {
    if f64::from_bits(b).is_nan() {
        f64::NAN.to_bits()
    } else {
        b
    }
}
fn at(b: &[u8]) -> (usize, usize) {
    if b.is_empty() {
        (0, 0)
    } else {
        (b.as_ptr() as usize, b.len())
    }
}

/// The model of a generated value: wrappers are looked through, anything compound has no scalar form.
fn model(n: &Node, computed: bool) -> Model {
    match n {
        Node::Hint(_, n) => model(n, computed),
        Node::Tagged(_, c) => model(&c.node, computed || c.via == Via::Computed),
        Node::Enum(_, Some(c)) => model(&c.node, computed || c.via == Via::Computed),
        Node::Bool(b) => Model::boolean(*b),
        Node::U(_, v) => Model::unsigned(*v),
        Node::I(_, v) => Model::signed(*v),
        Node::F32(b) => Model::single(*b),
        Node::F64(b) => Model::double(*b),
        Node::Text(f, _) => match &f[..] {
            [(s, false)] if !computed => Model::text_here(s),
            f => Model::text_maybe(f.iter().map(|f| &*f.0).collect()),
        },
        Node::Bin(f, _) => match &f[..] {
            [(s, false)] if !computed => Model::bin_here(s),
            f => Model { bin: Want::AtMost(f.iter().flat_map(|f| f.0.iter().copied()).collect()), ..Model::none() },
        },
        Node::Tag(id) => match &id.label {
            Some(l) => Model::text_maybe(l.text.clone()),
            None => Model::none(),
        },
        _ => Model::none(),
    }
}

fn check_conv<V: sval::Value + ?Sized>(what: &str, v: &V, m: &Model) -> R {
    let c: Conv = convs(v);
    let bad = |k: &str, got: String, want: String| -> R { Err(format!("{what}: {k} gives {got}, expected {want}")) };
    if !m.bool.ok(&c.bool) {
        return bad("to_bool", format!("{:?}", c.bool), format!("{:?}", m.bool));
    }
    if !m.f32.ok(&c.f32.map(nan32)) {
        return bad("to_f32", format!("{:?}", c.f32.map(f32::from_bits)), format!("{:?}", m.f32));
    }
    if !m.f64.ok(&c.f64.map(nan64)) {
        return bad("to_f64", format!("{:?}", c.f64.map(f64::from_bits)), format!("{:?}", m.f64));
    }
    for k in 0..5 {
        if !m.i[k].ok(&c.i[k]) {
            return bad(&format!("to_i{}", BITS[k]), format!("{:?}", c.i[k]), format!("{:?}", m.i[k]));
        }
        if !m.u[k].ok(&c.u[k]) {
            return bad(&format!("to_u{}", BITS[k]), format!("{:?}", c.u[k]), format!("{:?}", m.u[k]));
        }
    }
    let t = v.to_text().map(|t| t.to_string());
    if !m.text.ok(&t) {
        return bad("to_text", format!("{t:?}"), format!("{:?}", m.text));
    }
    if let (Some(a), Some(b)) = (m.text_at, c.text) {
        if a != b {
            return bad("to_text", "a copy".into(), "the original text".into());
        }
    }
    let b = v.to_binary().map(|t| t.to_vec());
    if !m.bin.ok(&b) {
        return bad("to_binary", format!("{b:?}"), format!("{:?}", m.bin));
    }
    if let (Some(a), Some(b)) = (m.bin_at, c.bin) {
        if a != b {
            return bad("to_binary", "a copy".into(), "the original bytes".into());
        }
    }
    Ok(())
}

/// Through every wrapper.
fn check_wrapped<V: sval::Value>(what: &str, v: &V, m: &Model) -> R {
    check_conv(what, v, m)?;
    check_conv(&format!("&{what}"), &v, m)?;
    check_conv(&format!("Box<&{what}>"), &Box::new(v), m)?;
    check_conv(&format!("Some(&{what})"), &Some(v), m)?;
    check_conv(&format!("Some(Some(Box(&{what})))"), &Some(Some(Box::new(v))), m)?;
    let d: &dyn DV = v;
    check_conv(&format!("dyn {what}"), d, m)?;
    check_conv(&format!("Some(dyn {what})"), &Some(d), m)?;
    let o = Some(v);
    let d: &dyn DV = &o;
    check_conv(&format!("dyn Some({what})"), d, m)?;
    check_conv(&format!("Ref(Some(&{what}))"), &Ref::new(Some(v)), m)?;
    check_conv(&format!("Ref(Box<&{what}>)"), Ref::new_borrowed(&Box::new(v)), m)?;
    Ok(())
}

fn gen_core(g: &mut Gen) -> Node {
    match g.below(9) {
        0 | 1 => {
            let (w, b) = gen_w(g);
            Node::U(w, gen_uint(g, b))
        }
        2 | 3 => {
            let (w, b) = gen_w(g);
            Node::I(w, gen_int(g, b))
        }
        4 => Node::F32(gen_f32(g)),
        5 => Node::F64(gen_f64(g)),
        6 => Node::Bool(g.bool()),
        7 => {
            let s = gen_string(g);
            gen_text(g, &Cfg::full(), &s)
        }
        _ => gen_bin(g, &Cfg::full()),
    }
}
fn s03_scalars(g: &mut Gen, st: &mut Stats) -> R {
    let mut n = gen_core(g);
    let depth = g.idx(4);
    for _ in 0..depth {
        let via = *g.pick(&[Via::Value, Via::Inline, Via::Value, Via::Computed]);
        n = match g.below(5) {
            0 => Node::Hint(g.below(10) as u8, Box::new(n)),
            1 => {
                let id = gen_id(g, &Cfg::full());
                let t = Node::Tagged(gen_id(g, &Cfg::full()), Box::new(Child { via, node: n }));
                Node::Enum(id, Some(Box::new(Child { via: Via::Inline, node: t })))
            }
            2 => Node::Tagged(NId { tag: Some(g.below(10) as u8), label: None, index: None }, Box::new(Child { via, node: n })),
            _ => Node::Tagged(gen_id(g, &Cfg::full()), Box::new(Child { via, node: n })),
        };
    }
    note(st, &n.sem());
    st.count("scalars", 1);
    st.events += 16 * 10;
    let m = model(&n, false);
    check_wrapped("value", &n, &m).map_err(|e| format!("{e}\n value: {}", short(&format!("{n:?}"))))
}
/// Anything at all; and the same calls followed by a failure.
fn s03_any(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 6, ..Cfg::full() });
    note(st, &n.sem());
    st.count("any", 1);
    st.events += 16 * 11;
    let m = model(&n, false);
    check_wrapped("value", &n, &m).map_err(|e| format!("{e}\n value: {}", short(&format!("{n:?}"))))?;
    // a value that fails has no scalar form
    let ev = expected(&n).ev;
    let k = if g.bool() { ev.len() } else { g.idx(ev.len()) };
    let p = Play { ev: ev[..k].to_vec(), fail: true };
    st.count("failing", 1);
    check_conv("failing value", &p, &Model::none()).map_err(|e| format!("{e}\n calls: {}", short(&format!("{:?}", p.ev))))
}
fn s03_builtin(g: &mut Gen, st: &mut Stats) -> R {
    st.count("builtins", 1);
    st.events += 16 * 10;
    let pick = g.below(22);
    st.seen(&("builtin", pick));
    match pick {
        0 => {
            let v = gen_uint(g, 8) as u8;
            check_wrapped("u8", &v, &Model::unsigned(v as u128))
        }
        1 => {
            let v = gen_uint(g, 16) as u16;
            check_wrapped("u16", &v, &Model::unsigned(v as u128))
        }
        2 => {
            let v = gen_uint(g, 32) as u32;
            check_wrapped("u32", &v, &Model::unsigned(v as u128))
        }
        3 => {
            let v = gen_uint(g, 64) as u64;
            check_wrapped("u64", &v, &Model::unsigned(v as u128))
        }
        4 => {
            let v = gen_uint(g, 128);
            check_wrapped("u128", &v, &Model::unsigned(v))
        }
        5 => {
            let v = gen_int(g, 8) as i8;
            check_wrapped("i8", &v, &Model::signed(v as i128))
        }
        6 => {
            let v = gen_int(g, 16) as i16;
            check_wrapped("i16", &v, &Model::signed(v as i128))
        }
        7 => {
            let v = gen_int(g, 32) as i32;
            check_wrapped("i32", &v, &Model::signed(v as i128))
        }
        8 => {
            let v = gen_int(g, 64) as i64;
            check_wrapped("i64", &v, &Model::signed(v as i128))
        }
        9 => {
            let v = gen_int(g, 128);
            check_wrapped("i128", &v, &Model::signed(v))
        }
        10 => {
            let v = f32::from_bits(gen_f32(g));
            check_wrapped("f32", &v, &Model::single(v.to_bits()))
        }
        11 => {
            let v = f64::from_bits(gen_f64(g));
            check_wrapped("f64", &v, &Model::double(v.to_bits()))
        }
        12 => {
            let v = g.bool();
            check_wrapped("bool", &v, &Model::boolean(v))
        }
        13 => {
            let s = gen_string(g);
            check_wrapped("&str", &&*s, &Model::text_here(&s))?;
            check_conv("str", &*s, &Model::text_here(&s))?;
            check_wrapped("String", &s, &Model::text_here(&s))?;
            let b: Box<str> = s.into();
            check_wrapped("Box<str>", &b, &Model::text_here(&b))
        }
        14 => {
            let c = gen_char(g);
            check_wrapped("char", &c, &Model::text_maybe(c.to_string()))?;
            let s = gen_string(g);
            check_wrapped("Display", &sval::Display::new(&s), &Model::text_maybe(s.clone()))
        }
        15 => {
            let n = gen_bin(g, &Cfg::full());
            let Sem::Bin(b) = n.sem() else { unreachable!() };
            check_wrapped("BinarySlice", &sval::BinarySlice::new(&b), &Model::bin_here(&b))?;
            if sval::BinarySlice::new(&b).as_slice() != b || sval::BinarySlice::new(&b).as_ref() != b {
                return Err(format!("BinarySlice shows other bytes than {b:?}"));
            }
            // a sequence of bytes is not binary
            check_wrapped("[u8]", &&b[..], &Model::none())?;
            check_wrapped("Vec<u8>", &b, &Model::none())
        }
        16 => {
            let b: [u8; 5] = std::array::from_fn(|_| g.below(256) as u8);
            check_wrapped("BinaryArray", &sval::BinaryArray::new(&b), &Model::bin_here(&b))?;
            if sval::BinaryArray::new(&b).as_slice() != &b || sval::BinaryArray::new(&b).as_ref() != &b {
                return Err(format!("BinaryArray shows other bytes than {b:?}"));
            }
            check_wrapped("[u8; 5]", &b, &Model::none())
        }
        17 => check_wrapped("()", &(), &Model::none()),
        18 => check_wrapped("Null", &sval::Null, &Model::none()),
        19 => {
            // `None` is nothing at all, at any depth; its name is not text
            check_wrapped("None", &None::<i64>, &Model::none())?;
            check_wrapped("None", &None::<&str>, &Model::none())?;
            check_wrapped("Some(None)", &Some(None::<bool>), &Model::none())
        }
        20 => {
            let (a, b) = (g.below(256) as u8, g.bool());
            check_wrapped("(u8,)", &(a,), &Model::none())?;
            check_wrapped("(bool, u8)", &(b, a), &Model::none())?;
            check_wrapped("[bool; 1]", &[b], &Model::none())?;
            check_wrapped("[[i32; 1]; 1]", &[[a as i32]], &Model::none())
        }
        _ => {
            let s = gen_string(g);
            let v = gen_int(g, 32) as i32;
            let m = [(s, v)];
            check_wrapped("MapSlice", &sval::MapSlice::new(&m), &Model::none())?;
            let b: BTreeMap<i32, bool> = [(v, true)].into_iter().collect();
            check_wrapped("BTreeMap", &b, &Model::none())
        }
    }
}
/// What derived and adapted types answer.
#[derive(sval_derive::Value)]
struct NewI(i64);
#[derive(sval_derive::Value)]
struct NewU(u32);
#[derive(sval_derive::Value)]
struct NewS<'a>(&'a str);
#[derive(sval_derive::Value)]
enum Wrap {
    A(i16),
    B(u64),
    C(bool),
    D(String),
    E { x: i32 },
    F(f64),
    G(i32, i32),
}
fn s03_derived(g: &mut Gen, st: &mut Stats) -> R {
    st.count("derived", 1);
    st.events += 16 * 10;
    let k = g.below(11);
    st.seen(&("derived", k));
    let s = gen_string(g);
    let (i, u) = (gen_int(g, 16) as i16, gen_uint(g, 64) as u64);
    match k {
        0 => check_wrapped("NewI", &NewI(i as i64), &Model::signed(i as i128)),
        1 => check_wrapped("NewU", &NewU(u as u32), &Model::unsigned(u as u32 as u128)),
        2 => check_wrapped("NewS", &NewS(&s), &Model::text_here(&s)),
        3 => check_wrapped("Wrap::A", &Wrap::A(i), &Model::signed(i as i128)),
        4 => check_wrapped("Wrap::B", &Wrap::B(u), &Model::unsigned(u as u128)),
        5 => check_wrapped("Wrap::C", &Wrap::C(i > 0), &Model::boolean(i > 0)),
        6 => {
            let w = Wrap::D(s);
            let Wrap::D(t) = &w else { unreachable!() };
            let m = Model::text_here(t);
            check_wrapped("Wrap::D", &w, &m)
        }
        7 => check_wrapped("Wrap::E", &Wrap::E { x: i as i32 }, &Model::none()),
        8 => {
            let f = f64::from_bits(gen_f64(g));
            check_wrapped("Wrap::F", &Wrap::F(f), &Model::double(f.to_bits()))
        }
        9 => check_wrapped("Wrap::G", &Wrap::G(1, 2), &Model::none()),
        _ => {
            // text and binary buffers
            let b = sval_buffer::TextBuf::from(&*s);
            check_wrapped("TextBuf", &b, &Model::text_here(&s))?;
            let c = sval_buffer::BinaryBuf::from(s.as_bytes());
            check_wrapped("BinaryBuf", &c, &Model::bin_here(s.as_bytes()))
        }
    }
}

pub static S03: Prop = Prop {
    id: "S03",
    rule: "a case counts as distinct when the structure of the value or the built-in type is new; sixteen accessors are asked through ten wrappers per value and compared with a reference model",
    assumptions: &[
        "signed to unsigned and between float widths an answer may be absent even if it would be exact",
        "text in several fragments, text without fragments and unit variant names may be reported as text or not",
    ],
    level: "exploration",
    subs: &[
        Sub { name: "scalars", weight: 4, f: s03_scalars, once: false },
        Sub { name: "any", weight: 2, f: s03_any, once: false },
        Sub { name: "builtin", weight: 3, f: s03_builtin, once: false },
        Sub { name: "derived", weight: 1, f: s03_derived, once: false },
    ],
    must_see: &["scalars", "any", "failing", "builtins", "derived"],
};

// ------------------------------------------------------------------------------------------- S04

fn hash<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// Leaks a little: labels and tags want static text. A bounded pool.
fn leak(g: &mut Gen, s: &str) -> &'static str {
    use std::sync::Mutex;
    static POOL: Mutex<Option<HashMap<String, Vec<&'static str>>>> = Mutex::new(None);
    let mut p = POOL.lock().unwrap();
    let p = p.get_or_insert_with(HashMap::new);
    if p.len() > 20_000 && !p.contains_key(s) {
        let k = g.idx(STATIC_LABELS.len());
        return STATIC_LABELS[k];
    }
    // two copies at different addresses
    let v = p.entry(s.to_string()).or_insert_with(|| (0..2).map(|_| &*Box::leak(s.to_string().into_boxed_str())).collect());
    v[g.idx(2)]
}
/// The whole text or a part of it, often sharing its start.
fn part<'a>(g: &mut Gen, s: &'a str) -> &'a str {
    if g.chance(1, 2) {
        return s;
    }
    let cuts: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    let a = if g.chance(2, 3) { 0 } else { g.idx(cuts.len()) };
    let b = a + g.idx(cuts.len() - a);
    &s[cuts[a]..cuts[b]]
}
#[derive(Clone, Debug)]
struct LModel {
    text: String,
    tag: Option<u8>,
    stat: bool,
}
fn check_label(what: &str, l: &Label, m: &LModel) -> R {
    if l.as_str() != m.text {
        return Err(format!("{what}: text {:?} instead of {:?}", l.as_str(), m.text));
    }
    if l.tag().map(tag_id) != m.tag {
        return Err(format!("{what}: tag {:?} instead of {:?} (label {:?})", l.tag(), m.tag.map(tag_ref), m.text));
    }
    match l.as_static_str() {
        Some(s) if s != m.text => return Err(format!("{what}: static form {s:?} of label {:?}", m.text)),
        Some(_) if !m.stat => return Err(format!("{what}: label {:?} over short-lived text offers a static form", m.text)),
        None if m.stat => return Err(format!("{what}: label {:?} over static text offers no static form", m.text)),
        _ => (),
    }
    let b: &str = std::borrow::Borrow::borrow(l);
    if b != m.text {
        return Err(format!("{what}: Borrow<str> gives {b:?} instead of {:?}", m.text));
    }
    if hash(l) != hash(&*m.text) {
        return Err(format!("{what}: label {:?} does not hash like its text", m.text));
    }
    if !format!("{l:?}").contains(&format!("{:?}", m.text)) {
        return Err(format!("{what}: Debug of label {:?} is {l:?}", m.text));
    }
    Ok(())
}
fn s04_labels(g: &mut Gen, st: &mut Stats) -> R {
    // a small population of labels, transformed step by step
    let backing: Vec<String> = (0..2 + g.idx(3)).map(|i| if i > 0 && g.chance(1, 3) { "a".into() } else { gen_string(g) }).collect();
    let mut pop: Vec<(Label, LModel)> = Vec::new();
    let steps = 4 + g.idx(14);
    let mut log = Vec::new();
    for _ in 0..steps {
        let op = if pop.is_empty() { g.below(3) } else { g.below(11) };
        log.push(op);
        match op {
            0 => {
                let i = g.idx(backing.len());
                let s = leak(g, &backing[i]);
                let s = part(g, s);
                pop.push((Label::new(s), LModel { text: s.into(), tag: None, stat: true }));
            }
            1 => {
                let i = g.idx(backing.len());
                let s = part(g, &backing[i]);
                pop.push((Label::new_computed(s), LModel { text: s.into(), tag: None, stat: false }));
            }
            2 => {
                let i = g.idx(backing.len());
                let mut s = String::with_capacity(g.idx(40));
                s.push_str(&backing[i]);
                pop.push((Label::new_owned(s), LModel { text: backing[i].clone(), tag: None, stat: false }));
            }
            3 => {
                let i = g.idx(pop.len());
                let c = pop[i].0.clone();
                let m = pop[i].1.clone();
                pop.push((c, m));
            }
            4 => {
                let i = g.idx(pop.len());
                let c = pop[i].0.to_owned();
                let m = pop[i].1.clone();
                pop.push((c, m));
            }
            5 => {
                let i = g.idx(pop.len());
                let c = pop[i].0.try_to_owned().map_err(|_| "try_to_owned failed with an allocator".to_string())?;
                let m = pop[i].1.clone();
                pop.push((c, m));
            }
            6 => {
                let i = g.idx(pop.len());
                let (l, mut m) = pop.swap_remove(i);
                let t = g.below(13) as u8;
                m.tag = Some(t);
                pop.push((l.with_tag(tag_ref(t)), m));
            }
            7 => {
                let i = g.idx(pop.len());
                drop(pop.swap_remove(i));
            }
            8 => {
                // moves: through a box, a vector and another thread
                let i = g.idx(pop.len());
                let (l, m) = pop.swap_remove(i);
                let b = Box::new(l);
                let l = std::thread::scope(|s| if g.chance(1, 40) { s.spawn(move || vec![*b]).join().unwrap().pop().unwrap() } else { *b });
                pop.push((l, m));
            }
            9 => {
                // replace in place
                let i = g.idx(pop.len());
                let j = g.idx(pop.len());
                let (c, m) = (pop[j].0.clone(), pop[j].1.clone());
                pop[i] = (c, m);
            }
            _ => {
                // owned beyond its source
                let i = g.idx(backing.len());
                let t = if g.bool() { Some(g.below(13) as u8) } else { None };
                let s = format!("{}!", backing[i]);
                let l = {
                    let c = Label::new_computed(&s);
                    let c = match t {
                        Some(t) => c.with_tag(tag_ref(t)),
                        None => c,
                    };
                    if g.bool() {
                        c.to_owned()
                    } else {
                        c.clone().to_owned().clone()
                    }
                };
                let m = LModel { text: s.clone(), tag: t, stat: false };
                drop(s);
                pop.push((l, m));
            }
        }
        for (k, (l, m)) in pop.iter().enumerate() {
            check_label(&format!("label #{k} after steps {log:?}"), l, m)?;
        }
        st.events += pop.len() as u64;
    }
    st.seen(&log);
    // equality and use as a key
    let mut by: HashMap<Label, usize> = HashMap::new();
    for (i, (a, ma)) in pop.iter().enumerate() {
        for (b, mb) in &pop {
            if (a == b) != (ma.text == mb.text) || (a != b) != (ma.text != mb.text) {
                return Err(format!("labels {:?} and {:?} compare {}", ma.text, mb.text, a == b));
            }
        }
        by.insert(a.clone(), i);
    }
    for (_, m) in &pop {
        let i = by.get(&*m.text).ok_or_else(|| format!("label {:?} not found by its text in a map", m.text))?;
        if pop[*i].1.text != m.text {
            return Err(format!("label {:?} found another label by its text", m.text));
        }
    }
    st.count("label_histories", 1);
    Ok(())
}

fn gen_index_num(g: &mut Gen) -> i128 {
    match g.below(5) {
        0 => g.below(5) as i128 - 2,
        1 => gen_int(g, 64),
        2 => gen_uint(g, 64) as i128,
        3 => gen_int(g, 33),
        _ => {
            let e = *g.pick(&[i32::MAX as i128, i32::MIN as i128, u32::MAX as i128, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 0]);
            e + g.below(5) as i128 - 2
        }
    }
    .clamp(i64::MIN as i128, u64::MAX as i128)
}
fn mk(g: &mut Gen, n: i128) -> Index {
    let mut c: Vec<Index> = Vec::new();
    if let Ok(v) = i32::try_from(n) {
        c.extend([Index::new_i32(v), Index::from(v)]);
    }
    if let Ok(v) = u32::try_from(n) {
        c.extend([Index::new_u32(v), Index::from(v)]);
    }
    if let Ok(v) = i64::try_from(n) {
        c.extend([Index::new_i64(v), Index::from(v), Index::new_isize(v as isize), Index::from(v as isize)]);
    }
    if let Ok(v) = u64::try_from(n) {
        c.extend([Index::new_u64(v), Index::from(v), Index::new(v as usize), Index::from(v as usize)]);
    }
    let k = g.idx(c.len());
    c.swap_remove(k)
}
fn s04_indexes(g: &mut Gen, st: &mut Stats) -> R {
    let mut v: Vec<(Index, i128)> = Vec::new();
    for _ in 0..1 + g.idx(6) {
        let n = if !v.is_empty() && g.chance(1, 3) { v[0].1 } else { gen_index_num(g) };
        let mut x = mk(g, n);
        let mut t = None;
        if g.bool() {
            let k = g.below(13) as u8;
            x = x.with_tag(tag_ref(k));
            t = Some(k);
        }
        if g.bool() {
            x = x.clone();
        }
        if x.tag().map(tag_id) != t {
            return Err(format!("index {n}: tag {:?}", x.tag()));
        }
        let want = (
            usize::try_from(n).ok(),
            u32::try_from(n).ok(),
            u64::try_from(n).ok(),
            isize::try_from(n).ok(),
            i32::try_from(n).ok(),
            i64::try_from(n).ok(),
        );
        let got = (x.to_usize(), x.to_u32(), x.to_u64(), x.to_isize(), x.to_i32(), x.to_i64());
        if got != want {
            return Err(format!("index {n} converts (usize, u32, u64, isize, i32, i64) to {got:?}"));
        }
        if x.to_string() != n.to_string() || format!("{x:>25}|{x:<+5}") != format!("{n:>25}|{n:<+5}") {
            return Err(format!("index {n} displays as {x}"));
        }
        st.seen(&n);
        v.push((x, n));
        st.events += 8;
    }
    for (a, m) in &v {
        for (b, n) in &v {
            if (a == b) != (m == n) || a.cmp(b) != m.cmp(n) || a.partial_cmp(b) != m.partial_cmp(n) {
                return Err(format!("indexes {m} and {n} compare {:?}, equal {}", a.cmp(b), a == b));
            }
            if m == n && hash(a) != hash(b) {
                return Err(format!("equal indexes {m} hash differently"));
            }
        }
    }
    let mut s = v.clone();
    s.sort_by(|a, b| a.0.cmp(&b.0));
    if s.windows(2).any(|w| w[0].1 > w[1].1) {
        return Err("indexes sort out of order".into());
    }
    st.count("index_sets", 1);
    Ok(())
}

fn s04_tags(g: &mut Gen, st: &mut Stats) -> R {
    // identifiers chosen to collide under simple hashes: NULs, shared prefixes and suffixes, permutations
    let base = if g.bool() { gen_string(g) } else { g.pick(&["", "a", "ab", "abcd", "abcdefgh", "RUST_UNIT", "NUMBER", "\0"]).to_string() };
    let mut ids: Vec<String> = vec![base.clone()];
    for _ in 0..5 {
        let s = match g.below(8) {
            0 => format!("{base}{}", "\0".repeat(1 + g.idx(9))),
            1 => format!("{}{base}", "\0".repeat(1 + g.idx(16))),
            2 => base.chars().rev().collect(),
            3 => format!("{base}{}", gen_char(g)),
            4 => base.chars().skip(1).collect(),
            5 => {
                let mut c: Vec<char> = base.chars().collect();
                if !c.is_empty() {
                    let k = g.idx(c.len());
                    c[k] = gen_char(g);
                }
                c.into_iter().collect()
            }
            6 => base.clone(),
            _ => "\0".repeat(g.idx(20)),
        };
        ids.push(s);
    }
    // a pair that provably collides under the multiply-rotate hash: two eight byte blocks
    if g.chance(1, 3) {
        if let Some((a, b)) = collide(g) {
            ids.push(a);
            ids.push(b);
            st.count("colliding_ids", 1);
        }
    }
    let tags: Vec<(Tag, &'static str)> = ids
        .iter()
        .map(|s| {
            let s = leak(g, s);
            let s = part(g, s);
            let t = Tag::new(s);
            (if g.bool() { t.clone() } else { t }, s)
        })
        .collect();
    for (a, m) in &tags {
        for (b, n) in &tags {
            st.events += 1;
            if (a == b) != (m == n) || (a != b) != (m != n) {
                return Err(format!("tags {m:?} and {n:?} compare {}", a == b));
            }
        }
        let l = Label::new("x").with_tag(a);
        let i = Index::new(1).with_tag(a);
        if l.tag() != Some(a) || i.tag() != Some(a) || l.clone().tag() != Some(a) || i.clone().tag() != Some(a) {
            return Err(format!("tag {m:?} changes on a label or index"));
        }
    }
    st.seen(&ids);
    st.count("tag_sets", 1);
    Ok(())
}
/// Two texts of sixteen bytes with the same value under `h = (rotl(h, 5) ^ block) * K`.
fn collide(g: &mut Gen) -> Option<(String, String)> {
    const K: u64 = 0x517cc1b727220a95;
    let blk = |b: &[u8]| u64::from_ne_bytes(b.try_into().unwrap());
    for _ in 0..200 {
        let mut a = [0u8; 16];
        a.iter_mut().for_each(|x| *x = b'0' + g.below(75) as u8);
        let mut b = [0u8; 16];
        b[..8].copy_from_slice(&a[..8]);
        // change the first block a little and repair with the second
        let k = g.idx(8);
        b[k] = g.below(128) as u8;
        if b[k] == a[k] {
            continue;
        }
        let h = |x: u64| x.wrapping_mul(K).rotate_left(5);
        let fix = h(blk(&a[..8])) ^ h(blk(&b[..8])) ^ blk(&a[8..]);
        b[8..].copy_from_slice(&fix.to_ne_bytes());
        if let Ok(s) = std::str::from_utf8(&b) {
            return Some((std::str::from_utf8(&a).unwrap().to_string(), s.to_string()));
        }
    }
    None
}

fn s04_builtin_tags(_: &mut Gen, st: &mut Stats) -> R {
    let all = [
        sval::tags::RUST_OPTION_SOME,
        sval::tags::RUST_OPTION_NONE,
        sval::tags::RUST_UNIT,
        sval::tags::NUMBER,
        sval::tags::CONSTANT_SIZE,
        sval::tags::VALUE_IDENT,
        sval::tags::VALUE_OFFSET,
        sval_json::tags::JSON_TEXT,
        sval_json::tags::JSON_VALUE,
        sval_json::tags::JSON_NUMBER,
    ];
    for (i, a) in all.iter().enumerate() {
        for (j, b) in all.iter().enumerate() {
            if (a == b) != (i == j) {
                return Err(format!("built-in tags {a:?} and {b:?} compare {}", a == b));
            }
        }
    }
    st.count("builtin_tags", 1);
    Ok(())
}

pub static S04: Prop = Prop {
    id: "S04",
    rule: "a case counts as distinct when the sequence of label operations, the index number or the set of tag identifiers is new; after each operation every live label is compared with a model",
    assumptions: &["static text for generated labels and tags comes from a bounded pool of leaked strings"],
    level: "exploration",
    subs: &[
        Sub { name: "builtin_tags", weight: 1, f: s04_builtin_tags, once: true },
        Sub { name: "labels", weight: 3, f: s04_labels, once: false },
        Sub { name: "indexes", weight: 2, f: s04_indexes, once: false },
        Sub { name: "tags", weight: 1, f: s04_tags, once: false },
    ],
    must_see: &["label_histories", "index_sets", "tag_sets", "builtin_tags", "colliding_ids"],
};

// ------------------------------------------------------------------------------------------- S05

/// The calls a built-in type should make, and the memory it may hand out as borrowed.
pub trait Exp {
    fn exp(&self, o: &mut Vec<Ev>);
    fn own(&self, _: &mut Vec<(usize, usize)>) {}
}
pub trait Arb: Sized {
    fn arb(g: &mut Gen) -> Self;
}
macro_rules! prim {
    ($($t:ident, $ev:expr, $gen:expr;)*) => {
        $(
            impl Exp for $t {
                fn exp(&self, o: &mut Vec<Ev>) {
                    let f: fn($t) -> Ev = $ev;
                    o.push(f(*self));
                }
            }
            impl Arb for $t {
                fn arb(g: &mut Gen) -> Self {
                    let f: fn(&mut Gen) -> $t = $gen;
                    f(g)
                }
            }
        )*
    };
}
prim! {
    u8, |v| Ev::U(W::W8, v as u128), |g| gen_uint(g, 8) as u8;
    u16, |v| Ev::U(W::W16, v as u128), |g| gen_uint(g, 16) as u16;
    u32, |v| Ev::U(W::W32, v as u128), |g| gen_uint(g, 32) as u32;
    u64, |v| Ev::U(W::W64, v as u128), |g| gen_uint(g, 64) as u64;
    u128, |v| Ev::U(W::W128, v), |g| gen_uint(g, 128);
    i8, |v| Ev::I(W::W8, v as i128), |g| gen_int(g, 8) as i8;
    i16, |v| Ev::I(W::W16, v as i128), |g| gen_int(g, 16) as i16;
    i32, |v| Ev::I(W::W32, v as i128), |g| gen_int(g, 32) as i32;
    i64, |v| Ev::I(W::W64, v as i128), |g| gen_int(g, 64) as i64;
    i128, |v| Ev::I(W::W128, v), |g| gen_int(g, 128);
    f32, |v| Ev::F32(v.to_bits()), |g| f32::from_bits(gen_f32(g));
    f64, |v| Ev::F64(v.to_bits()), |g| f64::from_bits(gen_f64(g));
    bool, |v| Ev::Bool(v), |g| g.bool();
}
impl Exp for str {
    fn exp(&self, o: &mut Vec<Ev>) {
        o.extend([Ev::TextBegin(None), Ev::TextFrag(self.to_string(), true), Ev::TextEnd]);
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        v.push((self.as_ptr() as usize, self.len()));
    }
}
impl Exp for String {
    fn exp(&self, o: &mut Vec<Ev>) {
        self.as_str().exp(o)
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        self.as_str().own(v)
    }
}
impl Arb for String {
    fn arb(g: &mut Gen) -> Self {
        gen_string(g)
    }
}
impl Exp for char {
    fn exp(&self, o: &mut Vec<Ev>) {
        self.to_string().exp(o)
    }
}
impl Arb for char {
    fn arb(g: &mut Gen) -> Self {
        gen_char(g)
    }
}
impl Exp for () {
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::Tag(Id { tag: Some(T_UNIT), label: None, index: None }));
    }
}
impl Arb for () {
    fn arb(_: &mut Gen) -> Self {}
}
impl Exp for sval::Null {
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::Null);
    }
}
impl Arb for sval::Null {
    fn arb(_: &mut Gen) -> Self {
        sval::Null
    }
}
fn some_id() -> Id {
    Id { tag: Some(T_SOME), label: Some(Lab { text: "Some".into(), tag: Some(T_IDENT) }), index: Some(Idx { n: 1, tag: Some(T_OFFSET) }) }
}
fn none_id() -> Id {
    Id { tag: Some(T_NONE), label: Some(Lab { text: "None".into(), tag: Some(T_IDENT) }), index: Some(Idx { n: 0, tag: Some(T_OFFSET) }) }
}
fn const_id() -> Id {
    Id { tag: Some(T_CONST), label: None, index: None }
}
impl<T: Exp> Exp for Option<T> {
    fn exp(&self, o: &mut Vec<Ev>) {
        match self {
            Some(v) => {
                o.push(Ev::TaggedBegin(some_id()));
                v.exp(o);
                o.push(Ev::TaggedEnd(some_id()));
            }
            None => o.push(Ev::Tag(none_id())),
        }
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        if let Some(x) = self {
            x.own(v)
        }
    }
}
impl<T: Arb> Arb for Option<T> {
    fn arb(g: &mut Gen) -> Self {
        if g.chance(2, 3) {
            Some(T::arb(g))
        } else {
            None
        }
    }
}
impl<T: Exp + ?Sized> Exp for Box<T> {
    fn exp(&self, o: &mut Vec<Ev>) {
        (**self).exp(o)
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        (**self).own(v)
    }
}
impl<T: Arb> Arb for Box<T> {
    fn arb(g: &mut Gen) -> Self {
        Box::new(T::arb(g))
    }
}
impl<T: Exp + ?Sized> Exp for &T {
    fn exp(&self, o: &mut Vec<Ev>) {
        (**self).exp(o)
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        (**self).own(v)
    }
}
impl<T: Exp> Exp for [T] {
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::SeqBegin(None));
        for x in self {
            o.push(Ev::ElBegin);
            x.exp(o);
            o.push(Ev::ElEnd);
        }
        o.push(Ev::SeqEnd);
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        self.iter().for_each(|x| x.own(v));
    }
}
impl<T: Exp> Exp for Vec<T> {
    fn exp(&self, o: &mut Vec<Ev>) {
        self[..].exp(o)
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        self[..].own(v)
    }
}
fn arb_len(g: &mut Gen) -> usize {
    match g.below(8) {
        0 => 0,
        1 | 2 => 1,
        7 => g.idx(20),
        _ => g.idx(5),
    }
}
impl<T: Arb> Arb for Vec<T> {
    fn arb(g: &mut Gen) -> Self {
        let n = arb_len(g);
        (0..n).map(|_| T::arb(g)).collect()
    }
}
impl<T: Exp, const N: usize> Exp for [T; N] {
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::TaggedBegin(const_id()));
        self[..].exp(o);
        o.push(Ev::TaggedEnd(const_id()));
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        self[..].own(v)
    }
}
impl<T: Arb, const N: usize> Arb for [T; N] {
    fn arb(g: &mut Gen) -> Self {
        std::array::from_fn(|_| T::arb(g))
    }
}
fn exp_map<'a, K: Exp + 'a, V: Exp + 'a>(it: impl Iterator<Item = (&'a K, &'a V)>, o: &mut Vec<Ev>) {
    o.push(Ev::MapBegin(None));
    for (k, v) in it {
        o.push(Ev::KeyBegin);
        k.exp(o);
        o.push(Ev::KeyEnd);
        o.push(Ev::ValBegin);
        v.exp(o);
        o.push(Ev::ValEnd);
    }
    o.push(Ev::MapEnd);
}
impl<K: Exp, V: Exp> Exp for sval::MapSlice<K, V> {
    fn exp(&self, o: &mut Vec<Ev>) {
        exp_map(self.as_slice().iter().map(|(k, v)| (k, v)), o)
    }
    fn own(&self, o: &mut Vec<(usize, usize)>) {
        self.as_slice().iter().for_each(|(k, v)| {
            k.own(o);
            v.own(o)
        })
    }
}
impl<K: Exp, V: Exp> Exp for BTreeMap<K, V> {
    fn exp(&self, o: &mut Vec<Ev>) {
        exp_map(self.iter(), o)
    }
    fn own(&self, o: &mut Vec<(usize, usize)>) {
        self.iter().for_each(|(k, v)| {
            k.own(o);
            v.own(o)
        })
    }
}
impl<K: Arb + Ord, V: Arb> Arb for BTreeMap<K, V> {
    fn arb(g: &mut Gen) -> Self {
        let n = arb_len(g);
        (0..n).map(|_| (K::arb(g), V::arb(g))).collect()
    }
}
impl<K: Exp, V: Exp, H> Exp for HashMap<K, V, H> {
    fn exp(&self, o: &mut Vec<Ev>) {
        exp_map(self.iter(), o)
    }
    fn own(&self, o: &mut Vec<(usize, usize)>) {
        self.iter().for_each(|(k, v)| {
            k.own(o);
            v.own(o)
        })
    }
}
impl<K: Arb + Hash + Eq, V: Arb, H: std::hash::BuildHasher + Default> Arb for HashMap<K, V, H> {
    fn arb(g: &mut Gen) -> Self {
        let n = arb_len(g);
        (0..n).map(|_| (K::arb(g), V::arb(g))).collect()
    }
}
impl Exp for sval::BinarySlice {
    fn exp(&self, o: &mut Vec<Ev>) {
        o.extend([Ev::BinBegin(None), Ev::BinFrag(self.as_slice().to_vec(), true), Ev::BinEnd]);
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        v.push((self.as_slice().as_ptr() as usize, self.as_slice().len()));
    }
}
impl<const N: usize> Exp for sval::BinaryArray<N> {
    fn exp(&self, o: &mut Vec<Ev>) {
        o.push(Ev::TaggedBegin(const_id()));
        o.extend([Ev::BinBegin(None), Ev::BinFrag(self.as_slice().to_vec(), true), Ev::BinEnd]);
        o.push(Ev::TaggedEnd(const_id()));
    }
    fn own(&self, v: &mut Vec<(usize, usize)>) {
        v.push((self.as_slice().as_ptr() as usize, N));
    }
}
impl<T: std::fmt::Display> Exp for sval::Display<T> {
    fn exp(&self, o: &mut Vec<Ev>) {
        self.inner().to_string().exp(o)
    }
}
macro_rules! tuples {
    ($($n:ident: ($($i:tt $t:ident),+);)*) => {
        $(
            impl<$($t: Exp),+> Exp for ($($t,)+) {
                fn exp(&self, o: &mut Vec<Ev>) {
                    o.push(Ev::TupBegin(Id::default(), None));
                    $(
                        o.push(Ev::TupValBegin(None, Idx { n: $i, tag: Some(T_OFFSET) }));
                        self.$i.exp(o);
                        o.push(Ev::TupValEnd(None, Idx { n: $i, tag: Some(T_OFFSET) }));
                    )+
                    o.push(Ev::TupEnd(Id::default()));
                }
                fn own(&self, v: &mut Vec<(usize, usize)>) {
                    $(self.$i.own(v);)+
                }
            }
            impl<$($t: Arb),+> Arb for ($($t,)+) {
                fn arb(g: &mut Gen) -> Self {
                    ($($t::arb(g),)+)
                }
            }
            fn $n(g: &mut Gen, st: &mut Stats) -> R {
                // distinct types and contents in every position
                let v: ($(tuples!(@ty $t),)+) = Arb::arb(g);
                check_builtin(stringify!($n), &v, st)?;
                let r = ($(Ref::new(&v.$i),)+);
                check_ref(stringify!($n), &r, &v, st)?;
                check_builtin("nested tuple", &(1u8, Some(v)), st)
            }
        )*
    };
    (@ty T0) => { u8 }; (@ty T1) => { String }; (@ty T2) => { i64 }; (@ty T3) => { bool };
    (@ty T4) => { Option<u16> }; (@ty T5) => { f64 }; (@ty T6) => { Vec<i8> }; (@ty T7) => { char };
    (@ty T8) => { u128 }; (@ty T9) => { () }; (@ty T10) => { i32 }; (@ty T11) => { String };
    (@ty T12) => { [u8; 2] }; (@ty T13) => { f32 }; (@ty T14) => { (i16, u64) }; (@ty T15) => { i128 };
}
tuples! {
    tup1: (0 T0);
    tup2: (0 T0, 1 T1);
    tup3: (0 T0, 1 T1, 2 T2);
    tup4: (0 T0, 1 T1, 2 T2, 3 T3);
    tup5: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4);
    tup6: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5);
    tup7: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6);
    tup8: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7);
    tup9: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7, 8 T8);
    tup10: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7, 8 T8, 9 T9);
    tup11: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7, 8 T8, 9 T9, 10 T10);
    tup12: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7, 8 T8, 9 T9, 10 T10, 11 T11);
    tup13: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7, 8 T8, 9 T9, 10 T10, 11 T11, 12 T12);
    tup14: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7, 8 T8, 9 T9, 10 T10, 11 T11, 12 T12, 13 T13);
    tup15: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7, 8 T8, 9 T9, 10 T10, 11 T11, 12 T12, 13 T13, 14 T14);
    tup16: (0 T0, 1 T1, 2 T2, 3 T3, 4 T4, 5 T5, 6 T6, 7 T7, 8 T8, 9 T9, 10 T10, 11 T11, 12 T12, 13 T13, 14 T14, 15 T15);
}

/// Fragments joined, size hints dropped (their truth is checked apart).
pub fn bare(ev: &[Ev]) -> Vec<Ev> {
    norm(ev)
        .into_iter()
        .map(|e| match e {
            Ev::TextBegin(_) => Ev::TextBegin(None),
            Ev::BinBegin(_) => Ev::BinBegin(None),
            Ev::SeqBegin(_) => Ev::SeqBegin(None),
            Ev::MapBegin(_) => Ev::MapBegin(None),
            Ev::RecBegin(i, _) => Ev::RecBegin(i, None),
            Ev::TupBegin(i, _) => Ev::TupBegin(i, None),
            Ev::RTBegin(i, _) => Ev::RTBegin(i, None),
            e => e,
        })
        .collect()
}
/// The tag a value reports by default: that of the outermost call that has one.
pub fn tag_of(ev: &[Ev]) -> Option<u8> {
    for e in ev {
        return match e {
            Ev::Hint(_) => continue,
            Ev::EnumBegin(i) | Ev::TaggedBegin(i) | Ev::Tag(i) => i.tag,
            Ev::RecBegin(i, _) | Ev::TupBegin(i, _) | Ev::RTBegin(i, _) => i.tag,
            Ev::U(..) | Ev::I(..) | Ev::F32(_) | Ev::F64(_) => Some(T_NUMBER),
            _ => None,
        };
    }
    None
}
fn judge_builtin(what: &str, r: &Rec, want: &[Ev], own: &[(usize, usize)]) -> R {
    parse(&r.ev).map_err(|e| format!("{what}: malformed stream: {e}"))?;
    if let Some(d) = diff(&bare(&r.ev), &bare(want)) {
        return Err(format!("{what}: {d}\n expected {}", short(&format!("{want:?}"))));
    }
    if let Some(b) = &r.bad_static {
        return Err(format!("{what}: {b}"));
    }
    for (i, a, l) in &r.borrowed {
        if *l > 0 && !own.iter().any(|(b, m)| a >= b && a + l <= b + m) {
            return Err(format!("{what}: call #{i} hands out memory outside the value as long-lived"));
        }
    }
    Ok(())
}
thread_local! {
    /// check that failures stop streaming instead of what is streamed
    pub static FAIL_STOP: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
pub fn check_builtin<T: Exp + sval::Value + ?Sized>(what: &str, v: &T, st: &mut Stats) -> R {
    if FAIL_STOP.get() {
        return super::s3::stops_value(what, v, st);
    }
    let mut want = Vec::new();
    v.exp(&mut want);
    let mut own = Vec::new();
    v.own(&mut own);
    let mut r = Rec::new();
    v.stream(&mut r).map_err(|_| format!("{what}: failed for a stream that accepts everything"))?;
    judge_builtin(what, &r, &want, &own)?;
    let mut r2 = Rec::new();
    sval::stream(&mut r2, v).map_err(|_| format!("{what}: failed for a stream that accepts everything"))?;
    if r2.ev != r.ev {
        return Err(format!("{what}: streamed twice, {}", diff(&r2.ev, &r.ev).unwrap_or_default()));
    }
    let mut r3 = Rec::new();
    sval::stream_computed(&mut r3, v).map_err(|_| format!("{what}: failed for a stream that accepts everything"))?;
    judge_builtin(what, &r3, &want, &[])?;
    let (t, w) = (v.tag().as_ref().map(tag_id), tag_of(&want));
    if t != w {
        return Err(format!("{what}: reports tag {t:?}, streams tag {w:?}"));
    }
    st.events += (r.ev.len() * 2) as u64;
    let sh: Vec<u8> = want.iter().map(|e| kind(e)).collect();
    st.seen(&sh);
    Ok(())
}
fn kind(e: &Ev) -> u8 {
    match e {
        Ev::Null => 0,
        Ev::Bool(_) => 1,
        Ev::TextBegin(_) => 2,
        Ev::TextFrag(s, _) => 100 + s.len().min(20) as u8,
        Ev::U(w, _) => 10 + *w as u8,
        Ev::I(w, _) => 20 + *w as u8,
        Ev::F32(_) => 3,
        Ev::F64(_) => 4,
        Ev::MapBegin(_) => 5,
        Ev::SeqBegin(_) => 6,
        Ev::TaggedBegin(_) => 7,
        Ev::Tag(_) => 8,
        Ev::TupBegin(..) => 9,
        Ev::BinFrag(s, _) => 130 + s.len().min(20) as u8,
        _ => 30,
    }
}
fn check_ref<'a, V: ValueRef<'a>, T: Exp>(what: &str, v: &V, model: &T, st: &mut Stats) -> R {
    if FAIL_STOP.get() {
        super::s3::stops(what, st, &mut |r| v.stream_ref(r))?;
        return super::s3::stops_value(what, v, st);
    }
    let mut want = Vec::new();
    model.exp(&mut want);
    let mut own = Vec::new();
    model.own(&mut own);
    let mut r = Rec::new();
    v.stream_ref(&mut r).map_err(|_| format!("{what} (ref): failed for a stream that accepts everything"))?;
    judge_builtin(&format!("{what} (ref)"), &r, &want, &own)?;
    let mut r = Rec::new();
    sval_ref::stream_ref(&mut r, v).map_err(|_| format!("{what} (ref): failed for a stream that accepts everything"))?;
    judge_builtin(&format!("{what} (ref)"), &r, &want, &own)?;
    let mut r = Rec::new();
    sval::stream(&mut r, v).map_err(|_| format!("{what} (ref as value): failed for a stream that accepts everything"))?;
    judge_builtin(&format!("{what} (ref as value)"), &r, &want, &own)?;
    st.count("refs", 1);
    Ok(())
}

#[derive(Default, Clone)]
struct Fnv(u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ *x as u64).wrapping_mul(0x100000001b3);
        }
    }
}
type FnvB = std::hash::BuildHasherDefault<Fnv>;

/// Display in a chosen number of pieces, with padding and empty pieces.
struct Pieces(Vec<String>);
impl std::fmt::Display for Pieces {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        use std::fmt::Write;
        for (i, p) in self.0.iter().enumerate() {
            match i % 3 {
                0 => f.write_str(p)?,
                1 => write!(f, "{p}")?,
                _ => {
                    for c in p.chars() {
                        f.write_char(c)?;
                    }
                }
            }
        }
        Ok(())
    }
}

fn one<T: Arb + Exp + sval::Value>(what: &str, g: &mut Gen, st: &mut Stats) -> R {
    let v = T::arb(g);
    check_builtin(what, &v, st)
}
pub fn s05_types(g: &mut Gen, st: &mut Stats) -> R {
    st.count("types", 1);
    match g.below(26) {
        0 => one::<u8>("u8", g, st).and_then(|_| one::<i8>("i8", g, st)),
        1 => one::<u16>("u16", g, st).and_then(|_| one::<i16>("i16", g, st)),
        2 => one::<u32>("u32", g, st).and_then(|_| one::<i32>("i32", g, st)),
        3 => one::<u64>("u64", g, st).and_then(|_| one::<i64>("i64", g, st)),
        4 => one::<u128>("u128", g, st).and_then(|_| one::<i128>("i128", g, st)),
        5 => one::<f32>("f32", g, st).and_then(|_| one::<f64>("f64", g, st)),
        6 => one::<bool>("bool", g, st).and_then(|_| one::<char>("char", g, st)),
        7 => {
            let s = gen_string(g);
            check_builtin("str", &*s, st)?;
            check_builtin("String", &s, st)?;
            check_builtin("&&str", &&&*s, st)?;
            let b: Box<str> = s.into();
            check_builtin("Box<str>", &b, st)
        }
        8 => one::<()>("()", g, st).and_then(|_| one::<sval::Null>("Null", g, st)),
        9 => one::<Option<String>>("Option<String>", g, st),
        10 => one::<Option<Option<Box<i32>>>>("Option<Option<Box<i32>>>", g, st),
        11 => one::<Vec<String>>("Vec<String>", g, st),
        12 => one::<Vec<Option<Vec<u8>>>>("Vec<Option<Vec<u8>>>", g, st),
        13 => one::<[String; 0]>("[String; 0]", g, st).and_then(|_| one::<[i32; 1]>("[i32; 1]", g, st)),
        14 => one::<[Option<f32>; 7]>("[Option<f32>; 7]", g, st).and_then(|_| one::<[[u8; 2]; 3]>("[[u8; 2]; 3]", g, st)),
        15 => one::<BTreeMap<String, i64>>("BTreeMap", g, st),
        16 => one::<BTreeMap<i32, BTreeMap<char, Option<()>>>>("BTreeMap of BTreeMap", g, st),
        17 => one::<HashMap<String, Vec<u8>>>("HashMap", g, st),
        18 => one::<HashMap<u16, String, FnvB>>("HashMap with hasher", g, st),
        19 => {
            let v: Vec<(String, Option<i32>)> = Arb::arb(g);
            check_builtin("MapSlice", sval::MapSlice::new(&v), st)?;
            check_builtin("[(K, V)]", &v[..], st)?;
            let v: Vec<((), (u8,))> = Arb::arb(g);
            check_builtin("MapSlice", sval::MapSlice::new(&v), st)
        }
        20 => {
            let Sem::Bin(b) = gen_bin(g, &Cfg::full()).sem() else { unreachable!() };
            check_builtin("BinarySlice", sval::BinarySlice::new(&b), st)?;
            check_builtin("[u8]", &b[..], st)?;
            let a: [u8; 9] = Arb::arb(g);
            check_builtin("BinaryArray", sval::BinaryArray::new(&a), st)?;
            check_builtin("BinaryArray<0>", sval::BinaryArray::new(&[]), st)
        }
        21 => {
            let n = g.idx(6);
            let p = Pieces((0..n).map(|_| gen_string(g)).collect());
            check_builtin("Display", &sval::Display::new(&p), st)?;
            check_builtin("Display", sval::Display::new_borrowed(&p), st)?;
            // as part of something larger
            let mut r = Rec::new();
            let all = p.to_string();
            sval::stream_display(&mut r, &p).map_err(|_| "stream_display failed")?;
            judge_builtin("stream_display", &r, &[Ev::TextBegin(None), Ev::TextFrag(all.clone(), false), Ev::TextEnd], &[])?;
            let mut r = Rec::new();
            r.put(Ev::TextBegin(None)).unwrap();
            sval::stream_display_fragments(&mut r, &p).map_err(|_| "stream_display_fragments failed")?;
            r.put(Ev::TextEnd).unwrap();
            judge_builtin("stream_display_fragments", &r, &[Ev::TextBegin(None), Ev::TextFrag(all, false), Ev::TextEnd], &[])?;
            let num = gen_number_text(g);
            let mut r = Rec::new();
            sval::stream_number(&mut r, &num).map_err(|_| "stream_number failed")?;
            let id = Id { tag: Some(T_NUMBER), label: None, index: None };
            let want = [Ev::TaggedBegin(id.clone()), Ev::TextBegin(None), Ev::TextFrag(num, false), Ev::TextEnd, Ev::TaggedEnd(id)];
            judge_builtin("stream_number", &r, &want, &[])?;
            let d = sval::Display::new(gen_string(g));
            let s = d.inner().clone();
            if d.into_inner() != s {
                return Err("Display::into_inner gives something else".into());
            }
            Ok(())
        }
        22 => {
            let v: Vec<String> = Arb::arb(g);
            let r: Vec<Ref<&String>> = v.iter().map(Ref::new).collect();
            check_ref("Vec", &r, &v, st)?;
            check_ref("[T]", &&r[..], &v, st)?;
            let a: [Option<String>; 3] = Arb::arb(g);
            let r: [Ref<&Option<String>>; 3] = std::array::from_fn(|i| Ref::new(&a[i]));
            check_ref("[T; N]", &r, &a, st)?;
            let (e0, r0): ([u8; 0], [Ref<&u8>; 0]) = ([], []);
            check_ref("[T; 0]", &r0, &e0, st)?;
            let a1: [Vec<u8>; 1] = Arb::arb(g);
            check_ref("[T; 1]", &[Ref::new(&a1[0])], &a1, st)?;
            let a40: [u16; 40] = std::array::from_fn(|i| i as u16);
            let r40: [Ref<&u16>; 40] = std::array::from_fn(|i| Ref::new(&a40[i]));
            check_ref("[T; 40]", &r40, &a40, st)?;
            let b = Box::new(Ref::new(&a));
            check_ref("Box<Ref>", &b, &a, st)
        }
        23 => one::<(Vec<(String, [u8; 2])>, Option<BTreeMap<u8, ()>>)>("mixture", g, st),
        24 => {
            let v: Vec<i64> = (0..g.idx(300)).map(|i| i as i64).collect();
            check_builtin("long Vec", &v, st)?;
            let m: BTreeMap<i64, i64> = v.iter().map(|i| (*i, -i)).collect();
            check_builtin("long BTreeMap", &m, st)
        }
        _ => {
            let s: Vec<Vec<String>> = Arb::arb(g);
            check_builtin("Vec<Vec<String>>", &s, st)
        }
    }
}
pub fn s05_tuples(g: &mut Gen, st: &mut Stats) -> R {
    let all: [fn(&mut Gen, &mut Stats) -> R; 16] =
        [tup1, tup2, tup3, tup4, tup5, tup6, tup7, tup8, tup9, tup10, tup11, tup12, tup13, tup14, tup15, tup16];
    let k = g.idx(16);
    st.count("tuples", 1);
    all[k](g, st)
}
/// The default `tag` of any value is the tag it streams.
fn s05_tag(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 8, ..Cfg::full() });
    note(st, &n.sem());
    st.count("default_tags", 1);
    st.events += 1;
    let (t, w) = (sval::Value::tag(&n).as_ref().map(tag_id), tag_of(&expected(&n).ev));
    if t != w {
        return Err(format!("reports tag {t:?}, streams tag {w:?}: {}", short(&format!("{n:?}"))));
    }
    Ok(())
}

pub static S05: Prop = Prop {
    id: "S05",
    rule: "a case counts as distinct when the sequence of call kinds expected for the value is new; recorded calls are compared with the calls the Rust value's contents call for, and the stream is checked for balance and truthful sizes",
    assumptions: &["a size hint may be absent but not wrong"],
    level: "exploration",
    subs: &[
        Sub { name: "types", weight: 4, f: s05_types, once: false },
        Sub { name: "tuples", weight: 2, f: s05_tuples, once: false },
        Sub { name: "tag", weight: 1, f: s05_tag, once: false },
    ],
    must_see: &["types", "tuples", "refs", "default_tags"],
};
