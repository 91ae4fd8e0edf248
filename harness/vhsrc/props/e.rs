//! E01, E02: bridges to and from serde.

use crate::fw::{Prop, Stats, Sub, R};
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
#[cfg(not(feature = "noalloc"))]
use crate::types;
use serde::ser::{self, Serialize};
use std::cell::{Cell, RefCell};
use std::rc::Rc;

/// Without an allocator a value may be refused, but never altered.
const NOALLOC: bool = cfg!(feature = "noalloc");

/// Data as serde sees it.
#[derive(Clone, Debug, PartialEq)]
pub enum Sv {
    Bool(bool),
    U(W, u128),
    I(W, i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    /// text given through `collect_str`
    Disp(Vec<String>),
    Bytes(Vec<u8>),
    None,
    Some(Box<Sv>),
    Unit,
    UnitStruct(&'static str),
    UnitVariant(&'static str, u32, &'static str),
    NewStruct(&'static str, Box<Sv>),
    NewVariant(&'static str, u32, &'static str, Box<Sv>),
    Seq(Option<usize>, Vec<Sv>),
    Tuple(usize, Vec<Sv>),
    TupStruct(&'static str, usize, Vec<Sv>),
    TupVariant(&'static str, u32, &'static str, usize, Vec<Sv>),
    Map(Option<usize>, Vec<(Sv, Sv)>),
    Struct(&'static str, usize, Vec<(&'static str, Sv)>),
    StructVariant(&'static str, u32, &'static str, usize, Vec<(&'static str, Sv)>),
}

// ---------------------------------------------------------------------------------------------
// A recording serializer

#[derive(Default)]
pub struct Log {
    pub calls: Cell<usize>,
    pub fail_at: Cell<Option<usize>>,
    pub failed: Cell<bool>,
    pub after: Cell<usize>,
    pub problem: RefCell<Option<String>>,
}
#[derive(Debug)]
pub struct E(pub String);
impl std::fmt::Display for E {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(t: T) -> E {
        E(t.to_string())
    }
}
type LR = Rc<Log>;
fn hit(l: &LR) -> Result<(), E> {
    if l.failed.get() {
        l.after.set(l.after.get() + 1);
        return Err(E("called after a failure".into()));
    }
    if l.fail_at.get() == Some(l.calls.get()) {
        l.failed.set(true);
        return Err(E("injected".into()));
    }
    l.calls.set(l.calls.get() + 1);
    Ok(())
}
#[derive(Clone)]
pub struct Ser(pub LR);
pub struct Parts {
    l: LR,
    mk: Sv,
    vals: Vec<Sv>,
    names: Vec<&'static str>,
}
impl Parts {
    fn add<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        hit(&self.l)?;
        let v = v.serialize(Ser(self.l.clone()))?;
        self.vals.push(v);
        Ok(())
    }
    fn done(self) -> Result<Sv, E> {
        hit(&self.l)?;
        let Parts { l, mut mk, vals, names } = self;
        let n = vals.len();
        let len = match &mut mk {
            Sv::Seq(l, v) => {
                *v = vals;
                *l
            }
            Sv::Tuple(l, v) | Sv::TupStruct(_, l, v) | Sv::TupVariant(_, _, _, l, v) => {
                *v = vals;
                Some(*l)
            }
            Sv::Struct(_, l, v) | Sv::StructVariant(_, _, _, l, v) => {
                *v = names.into_iter().zip(vals).collect();
                Some(*l)
            }
            Sv::Map(l, es) => {
                let mut it = vals.into_iter();
                while let (Some(k), Some(v)) = (it.next(), it.next()) {
                    es.push((k, v));
                }
                l.map(|l| l * 2)
            }
            _ => Some(n),
        };
        if len.is_some_and(|l| l != n) {
            l.problem.borrow_mut().get_or_insert(format!("announced length {len:?}, got {n} entries in {mk:?}"));
        }
        Ok(mk)
    }
}
macro_rules! ser_scalar {
    ($($m:ident $t:ty => |$x:ident| $e:expr;)*) => {
        $(fn $m(self, $x: $t) -> Result<Sv, E> {
            hit(&self.0)?;
            Ok($e)
        })*
    };
}
impl ser::Serializer for Ser {
    type Ok = Sv;
    type Error = E;
    type SerializeSeq = Parts;
    type SerializeTuple = Parts;
    type SerializeTupleStruct = Parts;
    type SerializeTupleVariant = Parts;
    type SerializeMap = Parts;
    type SerializeStruct = Parts;
    type SerializeStructVariant = Parts;
    ser_scalar! {
        serialize_bool bool => |x| Sv::Bool(x);
        serialize_i8 i8 => |x| Sv::I(W::W8, x as i128);
        serialize_i16 i16 => |x| Sv::I(W::W16, x as i128);
        serialize_i32 i32 => |x| Sv::I(W::W32, x as i128);
        serialize_i64 i64 => |x| Sv::I(W::W64, x as i128);
        serialize_i128 i128 => |x| Sv::I(W::W128, x);
        serialize_u8 u8 => |x| Sv::U(W::W8, x as u128);
        serialize_u16 u16 => |x| Sv::U(W::W16, x as u128);
        serialize_u32 u32 => |x| Sv::U(W::W32, x as u128);
        serialize_u64 u64 => |x| Sv::U(W::W64, x as u128);
        serialize_u128 u128 => |x| Sv::U(W::W128, x);
        serialize_f32 f32 => |x| Sv::F32(x.to_bits());
        serialize_f64 f64 => |x| Sv::F64(x.to_bits());
        serialize_char char => |x| Sv::Char(x);
        serialize_str &str => |x| Sv::Str(x.into());
        serialize_bytes &[u8] => |x| Sv::Bytes(x.to_vec());
        serialize_unit_struct &'static str => |x| Sv::UnitStruct(x);
    }
    fn serialize_none(self) -> Result<Sv, E> {
        hit(&self.0)?;
        Ok(Sv::None)
    }
    fn serialize_unit(self) -> Result<Sv, E> {
        hit(&self.0)?;
        Ok(Sv::Unit)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> Result<Sv, E> {
        hit(&self.0)?;
        Ok(Sv::Some(Box::new(v.serialize(self)?)))
    }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<Sv, E> {
        hit(&self.0)?;
        Ok(Sv::UnitVariant(n, i, v))
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, n: &'static str, v: &T) -> Result<Sv, E> {
        hit(&self.0)?;
        Ok(Sv::NewStruct(n, Box::new(v.serialize(self)?)))
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, n: &'static str, i: u32, va: &'static str, v: &T) -> Result<Sv, E> {
        hit(&self.0)?;
        Ok(Sv::NewVariant(n, i, va, Box::new(v.serialize(self)?)))
    }
    fn serialize_seq(self, len: Option<usize>) -> Result<Parts, E> {
        self.parts(Sv::Seq(len, vec![]))
    }
    fn serialize_tuple(self, len: usize) -> Result<Parts, E> {
        self.parts(Sv::Tuple(len, vec![]))
    }
    fn serialize_tuple_struct(self, n: &'static str, len: usize) -> Result<Parts, E> {
        self.parts(Sv::TupStruct(n, len, vec![]))
    }
    fn serialize_tuple_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Parts, E> {
        self.parts(Sv::TupVariant(n, i, v, len, vec![]))
    }
    fn serialize_map(self, len: Option<usize>) -> Result<Parts, E> {
        self.parts(Sv::Map(len, vec![]))
    }
    fn serialize_struct(self, n: &'static str, len: usize) -> Result<Parts, E> {
        self.parts(Sv::Struct(n, len, vec![]))
    }
    fn serialize_struct_variant(self, n: &'static str, i: u32, v: &'static str, len: usize) -> Result<Parts, E> {
        self.parts(Sv::StructVariant(n, i, v, len, vec![]))
    }
}
impl Ser {
    fn parts(self, mk: Sv) -> Result<Parts, E> {
        hit(&self.0)?;
        Ok(Parts { l: self.0, mk, vals: vec![], names: vec![] })
    }
}
macro_rules! ser_list {
    ($($t:ident $m:ident;)*) => {
        $(impl ser::$t for Parts {
            type Ok = Sv;
            type Error = E;
            fn $m<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
                self.add(v)
            }
            fn end(self) -> Result<Sv, E> {
                self.done()
            }
        })*
    };
}
ser_list! {
    SerializeSeq serialize_element;
    SerializeTuple serialize_element;
    SerializeTupleStruct serialize_field;
    SerializeTupleVariant serialize_field;
}
macro_rules! ser_named {
    ($($t:ident)*) => {
        $(impl ser::$t for Parts {
            type Ok = Sv;
            type Error = E;
            fn serialize_field<T: Serialize + ?Sized>(&mut self, n: &'static str, v: &T) -> Result<(), E> {
                self.add(v)?;
                self.names.push(n);
                Ok(())
            }
            fn end(self) -> Result<Sv, E> {
                self.done()
            }
        })*
    };
}
ser_named!(SerializeStruct SerializeStructVariant);
impl ser::SerializeMap for Parts {
    type Ok = Sv;
    type Error = E;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        if self.vals.len() % 2 != 0 {
            self.l.problem.borrow_mut().get_or_insert("two keys in a row".into());
        }
        self.add(v)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> {
        if self.vals.len() % 2 != 1 {
            self.l.problem.borrow_mut().get_or_insert("a map value without a key".into());
        }
        self.add(v)
    }
    fn end(self) -> Result<Sv, E> {
        self.done()
    }
}

// ---------------------------------------------------------------------------------------------
// E01

const NO: Option<Sv> = None;
/// `None`: serde has no way to say it.
fn to_serde(n: &Node) -> Option<Sv> {
    let stat = |l: &Option<NLab>| -> Option<&'static str> {
        match l {
            Some(l) if l.kind == LK::Static => Some(l.stat),
            _ => None,
        }
    };
    let u32_of = |i: &Option<Idx>| i.as_ref().and_then(|i| u32::try_from(i.n).ok());
    let many = |cs: Vec<&Child>| cs.into_iter().map(|c| to_serde(&c.node)).collect::<Option<Vec<Sv>>>();
    let size = |s: bool, n: usize| if s { Some(n) } else { None };
    Some(match n {
        Node::Hint(_, n) => return to_serde(n),
        Node::Null => Sv::None,
        Node::Bool(b) => Sv::Bool(*b),
        Node::Text(..) | Node::Bin(..) => match n.sem() {
            Sem::Text(t) => Sv::Str(t),
            Sem::Bin(b) => Sv::Bytes(b),
            _ => return NO,
        },
        Node::U(w, v) => Sv::U(*w, *v),
        Node::I(w, v) => Sv::I(*w, *v),
        Node::F32(b) => Sv::F32(*b),
        Node::F64(b) => Sv::F64(*b),
        Node::Map(s, es) => Sv::Map(
            size(*s, es.len()),
            es.iter().map(|(k, v)| Some((to_serde(&k.node)?, to_serde(&v.node)?))).collect::<Option<_>>()?,
        ),
        Node::Seq(s, es) => Sv::Seq(size(*s, es.len()), many(es.iter().collect())?),
        Node::Tag(id) if id.tag == Some(T_NONE) => Sv::None,
        Node::Tag(id) if id.tag == Some(T_UNIT) => Sv::Unit,
        Node::Tag(id) => Sv::UnitStruct(stat(&id.label)?),
        Node::Tagged(id, c) if id.tag == Some(T_SOME) => Sv::Some(Box::new(to_serde(&c.node)?)),
        Node::Tagged(id, c) if id.label.is_none() => return to_serde(&c.node),
        Node::Tagged(id, c) => Sv::NewStruct(stat(&id.label)?, Box::new(to_serde(&c.node)?)),
        Node::Tuple(id, s, fs) => {
            let len = size(*s, fs.len())?;
            let vs = many(fs.iter().map(|f| &f.2).collect())?;
            match &id.label {
                None => Sv::Tuple(len, vs),
                l => Sv::TupStruct(stat(l)?, len, vs),
            }
        }
        Node::Record(id, s, fs) => {
            return rec_to_serde(id, size(*s, fs.len()), fs.iter().map(|f| (&f.1, &f.2)).collect());
        }
        Node::RecordTuple(id, s, fs) => {
            return rec_to_serde(id, size(*s, fs.len()), fs.iter().map(|f| (&f.1, &f.3)).collect());
        }
        Node::Enum(id, c) => {
            let name = stat(&id.label)?;
            let mut v = match c {
                None => return Some(Sv::UnitStruct(name)),
                Some(c) => &c.node,
            };
            while let Node::Hint(_, n) = v {
                v = n;
            }
            match v {
                Node::Tag(i) => Sv::UnitVariant(name, u32_of(&i.index)?, stat(&i.label)?),
                Node::Tagged(i, c) => Sv::NewVariant(name, u32_of(&i.index)?, stat(&i.label)?, Box::new(to_serde(&c.node)?)),
                Node::Tuple(i, s, fs) => Sv::TupVariant(
                    name,
                    u32_of(&i.index)?,
                    stat(&i.label)?,
                    size(*s, fs.len())?,
                    many(fs.iter().map(|f| &f.2).collect())?,
                ),
                Node::Record(i, s, fs) => Sv::StructVariant(
                    name,
                    u32_of(&i.index)?,
                    stat(&i.label)?,
                    size(*s, fs.len())?,
                    fs.iter().map(|f| Some((stat(&Some(f.1.clone()))?, to_serde(&f.2.node)?))).collect::<Option<_>>()?,
                ),
                Node::RecordTuple(i, s, fs) => Sv::StructVariant(
                    name,
                    u32_of(&i.index)?,
                    stat(&i.label)?,
                    size(*s, fs.len())?,
                    fs.iter().map(|f| Some((stat(&Some(f.1.clone()))?, to_serde(&f.3.node)?))).collect::<Option<_>>()?,
                ),
                _ => return NO,
            }
        }
    })
}
fn rec_to_serde(id: &NId, len: Option<usize>, fs: Vec<(&NLab, &Child)>) -> Option<Sv> {
    let len = len?;
    match &id.label {
        None => Some(Sv::Map(
            Some(len),
            fs.iter().map(|(l, c)| Some((Sv::Str(l.text.clone()), to_serde(&c.node)?))).collect::<Option<_>>()?,
        )),
        Some(l) if l.kind == LK::Static => Some(Sv::Struct(
            l.stat,
            len,
            fs.iter()
                .map(|(l, c)| if l.kind == LK::Static { Some((l.stat, to_serde(&c.node)?)) } else { None })
                .collect::<Option<_>>()?,
        )),
        Some(_) => None,
    }
}

/// Make a value serde can express, mostly.
fn serdeify(g: &mut Gen, n: &mut Node, must: bool, variant: bool) {
    let keep = |g: &mut Gen| !must && g.chance(1, 30);
    let lab = |g: &mut Gen, id: &mut NId, opt: bool| {
        if !keep(g) && !(opt && g.chance(1, 3)) {
            let s: &'static str = g.pick(STATIC_LABELS);
            id.label = Some(NLab { text: s.into(), kind: LK::Static, tag: None, stat: s });
        } else if opt && must {
            id.label = None;
        }
        if variant && !keep(g) {
            let n = match g.below(4) {
                0 => u32::MAX as i128,
                1 => g.below(1 << 32) as i128,
                _ => g.below(9) as i128,
            };
            id.index = Some(Idx { n, tag: None });
        }
    };
    let flab = |g: &mut Gen, l: &mut NLab| {
        if !keep(g) {
            let s: &'static str = g.pick(STATIC_LABELS);
            *l = NLab { text: s.into(), kind: LK::Static, tag: None, stat: s };
        }
    };
    match n {
        Node::Hint(_, n) => serdeify(g, n, must, variant),
        Node::Map(_, es) => {
            for (k, v) in es {
                serdeify(g, &mut k.node, must, false);
                serdeify(g, &mut v.node, must, false);
            }
        }
        Node::Seq(_, es) => es.iter_mut().for_each(|c| serdeify(g, &mut c.node, must, false)),
        Node::Enum(id, c) => {
            lab(g, id, false);
            if let Some(c) = c {
                if must {
                    if let Node::Enum(..) = c.node {
                        c.node = Node::Tag(NId::default());
                    }
                }
                serdeify(g, &mut c.node, must, true);
            }
        }
        Node::Tagged(id, c) => {
            lab(g, id, !variant);
            serdeify(g, &mut c.node, must, false)
        }
        Node::Tag(id) => lab(g, id, false),
        Node::Record(id, s, fs) => {
            lab(g, id, !variant);
            *s = !keep(g);
            for (_, l, c) in fs {
                flab(g, l);
                serdeify(g, &mut c.node, must, false);
            }
        }
        Node::Tuple(id, s, fs) => {
            lab(g, id, !variant);
            *s = !keep(g);
            fs.iter_mut().for_each(|f| serdeify(g, &mut f.2.node, must, false));
        }
        Node::RecordTuple(id, s, fs) => {
            lab(g, id, !variant);
            *s = !keep(g);
            for (_, l, _, c) in fs {
                flab(g, l);
                serdeify(g, &mut c.node, must, false);
            }
        }
        _ => (),
    }
}
fn e_value(g: &mut Gen, must: bool) -> Node {
    let cfg = Cfg { dyn_labels: !must && g.chance(1, 5), huge: g.chance(1, 8), ..Cfg::full() };
    let mut n = if g.chance(1, 16) {
        let d = g.range(3, 25) as usize;
        gen_deep(g, &cfg, d)
    } else {
        gen_node(g, &cfg)
    };
    serdeify(g, &mut n, must, false);
    n
}
/// The value with all its lengths given up front.
fn with_sizes(n: &Node) -> Node {
    let ch = |c: &Child| Child { via: c.via, node: with_sizes(&c.node) };
    match n {
        Node::Map(_, es) => Node::Map(true, es.iter().map(|(k, v)| (ch(k), ch(v))).collect()),
        Node::Seq(_, es) => Node::Seq(true, es.iter().map(ch).collect()),
        Node::Enum(id, c) => Node::Enum(id.clone(), c.as_ref().map(|c| Box::new(ch(c)))),
        Node::Tagged(id, c) => Node::Tagged(id.clone(), Box::new(ch(c))),
        Node::Record(id, _, fs) => Node::Record(id.clone(), true, fs.iter().map(|(t, l, c)| (*t, l.clone(), ch(c))).collect()),
        Node::Tuple(id, _, fs) => Node::Tuple(id.clone(), true, fs.iter().map(|(t, i, c)| (*t, i.clone(), ch(c))).collect()),
        Node::RecordTuple(id, _, fs) => {
            Node::RecordTuple(id.clone(), true, fs.iter().map(|(t, l, i, c)| (*t, l.clone(), i.clone(), ch(c))).collect())
        }
        Node::Hint(t, n) => Node::Hint(*t, Box::new(with_sizes(n))),
        n => n.clone(),
    }
}
fn serialize_node(g: &mut Gen, n: &Node, l: &LR) -> Result<Sv, E> {
    match g.below(5) {
        0 => sval_serde::serialize(Ser(l.clone()), n),
        1 => sval_serde::ToSerialize::new(n).serialize(Ser(l.clone())),
        2 => sval_serde::ToSerialize::new_borrowed(n).serialize(Ser(l.clone())),
        3 => (&&sval_serde::ToSerialize::new(n)).serialize(Ser(l.clone())),
        _ => sval_serde::serialize(Ser(l.clone()), &&n),
    }
}
fn to_serializer(g: &mut Gen, st: &mut Stats) -> R {
    let n = e_value(g, false);
    super::note(st, &n.sem());
    let want = to_serde(&n);
    let l = LR::default();
    let got = serialize_node(g, &n, &l);
    st.events += l.calls.get() as u64;
    if let Some(p) = l.problem.borrow_mut().take() {
        return Err(format!("{p}\n serializing {n:?}"));
    }
    match (got, want) {
        (Ok(a), Some(b)) if a == b => {
            st.count("expressible", 1);
            st.sample(|| format!("{b:?}"));
        }
        (Ok(a), Some(b)) => return Err(format!("the serializer saw\n {a:?}\nwanted\n {b:?}\n for {n:?}")),
        (Err(_), Some(_)) if NOALLOC => st.count("noalloc_refused", 1),
        (Err(e), Some(b)) => return Err(format!("failed ({e}) though serde can express it as {b:?}: {n:?}")),
        (Ok(a), None) => {
            // a length could be worked out, but not a name or an index serde has no room for
            st.count("accepted_inexpressible", 1);
            if to_serde(&with_sizes(&n)).is_none() {
                return Err(format!("the serializer saw\n {a:?}\nthough serde can't express\n {n:?}"));
            }
        }
        (Err(_), None) => st.count("inexpressible", 1),
    }
    Ok(())
}
fn e01_failing(g: &mut Gen, st: &mut Stats) -> R {
    let n = e_value(g, true);
    let want = to_serde(&n).ok_or_else(|| format!("HARNESS: not expressible: {n:?}"))?;
    let l = LR::default();
    let got = sval_serde::serialize(Ser(l.clone()), &n);
    if NOALLOC && got.is_err() {
        return Ok(());
    }
    let got = got.map_err(|e| format!("failed ({e}) though serde can express {n:?}"))?;
    if got != want {
        return Err(format!("the serializer saw\n {got:?}\nwanted\n {want:?}\n for {n:?}"));
    }
    let total = l.calls.get();
    for _ in 0..4 {
        let k = g.idx(total);
        let l = LR::default();
        l.fail_at.set(Some(k));
        let r = serialize_node(g, &n, &l);
        st.events += l.calls.get() as u64;
        if let Ok(r) = r {
            return Err(format!("the serializer failed at call {k} of {total} but the result is {r:?} for {n:?}"));
        }
        if l.after.get() > 0 {
            return Err(format!("{} serializer calls after call {k} of {total} had failed, for {n:?}", l.after.get()));
        }
        st.count("failing_serializers", 1);
    }
    for _ in 0..4 {
        let k = g.idx(2 * n.size() + 1);
        let l = LR::default();
        arm(k);
        let r = serialize_node(g, &n, &l);
        let blown = disarm();
        match r {
            Ok(r) if blown => return Err(format!("the value failed (step {k}) but the result is {r:?} for {n:?}")),
            Err(e) if !blown => return Err(format!("failed ({e}) with a healthy value {n:?}")),
            _ => (),
        }
        st.count("failing_values", blown as u64);
    }
    Ok(())
}
/// serde's own view of a type against sval's, as far as both data models agree.
fn agree(a: &Sv) -> Sv {
    let b = |v: &Sv| Box::new(agree(v));
    let m = |v: &[Sv]| v.iter().map(agree).collect::<Vec<_>>();
    match a {
        Sv::Char(c) => Sv::Str(c.to_string()),
        Sv::Disp(p) => Sv::Str(p.concat()),
        // fixed-size arrays are tuples for serde
        Sv::Tuple(n, v) => Sv::Seq(Some(*n), m(v)),
        Sv::Seq(_, v) => Sv::Seq(Some(v.len()), m(v)),
        Sv::Map(_, es) => Sv::Map(Some(es.len()), es.iter().map(|(k, v)| (agree(k), agree(v))).collect()),
        Sv::Some(v) => Sv::Some(b(v)),
        Sv::NewStruct(n, v) => Sv::NewStruct(n, b(v)),
        Sv::NewVariant(n, i, va, v) => Sv::NewVariant(n, *i, va, b(v)),
        Sv::TupStruct(n, l, v) => Sv::TupStruct(n, *l, m(v)),
        Sv::TupVariant(n, i, va, l, v) => Sv::TupVariant(n, *i, va, *l, m(v)),
        Sv::Struct(n, l, v) => Sv::Struct(n, *l, v.iter().map(|(k, v)| (*k, agree(v))).collect()),
        Sv::StructVariant(n, i, va, l, v) => Sv::StructVariant(n, *i, va, *l, v.iter().map(|(k, v)| (*k, agree(v))).collect()),
        a => a.clone(),
    }
}
#[cfg(not(feature = "noalloc"))]
fn e01_types(g: &mut Gen, st: &mut Stats) -> R {
    let t = types::gen_any(g);
    let l = LR::default();
    let serde = t.serialize(Ser(l.clone())).map_err(|e| format!("HARNESS: serde itself fails: {e}"))?;
    let l2 = LR::default();
    let sval = sval_serde::ToSerialize::new(&t).serialize(Ser(l2.clone())).map_err(|e| format!("serializing {t:?} through sval failed: {e}"))?;
    st.events += l2.calls.get() as u64;
    st.seen(&format!("{:?}", std::mem::discriminant(&t)));
    if let Some(p) = l2.problem.borrow_mut().take() {
        return Err(format!("{p}: {t:?}"));
    }
    if agree(&serde) != agree(&sval) {
        return Err(format!("serde alone:\n {:?}\nthrough sval:\n {:?}\n for {t:?}", agree(&serde), agree(&sval)));
    }
    let a = serde_json::to_string(&t);
    let b = serde_json::to_string(&sval_serde::ToSerialize::new(&t));
    match (a, b) {
        (Ok(a), Ok(b)) if a == b => st.count("same_json", 1),
        (Err(_), _) => (),
        (a, b) => return Err(format!("serde_json: {a:?} through sval: {b:?}")),
    }
    Ok(())
}

/// Values that don't keep to the protocol mustn't panic, and one that breaks off is no success.
fn e01_broken(g: &mut Gen, st: &mut Stats) -> R {
    let (v, lost) = super::r::gen_broken(g, &Cfg { empty_enum: true, ..Cfg::full() })?;
    st.events += v.play.ev.len() as u64;
    st.count("broken", 1);
    let l = LR::default();
    let own = sval_serde::serialize(Ser(l.clone()), &v);
    let json = serde_json::to_string(&sval_serde::ToSerialize::new(&v));
    if lost {
        st.count("broken_off", 1);
        if let Ok(r) = own {
            return Err(format!("a value that breaks off is a success, {r:?}: {:?}", v.play.ev));
        }
        if let Ok(r) = json {
            return Err(format!("a value that breaks off is a success, {r}: {:?}", v.play.ev));
        }
    }
    Ok(())
}

pub static E01: Prop = Prop {
    id: "E01",
    rule: "distinct = value shapes whose serializer calls were compared with the model",
    assumptions: &[
        "serde can express labels only if they are static, variants only with a label and an index that fits 32 bits, structs, tuples and variants only with a known length, and no enum nested directly in an enum",
    ],
    level: "exploration",
    subs: &[
        Sub { name: "calls", weight: 4, f: to_serializer, once: false },
        Sub { name: "failing", weight: 2, f: e01_failing, once: false },
        Sub { name: "broken", weight: 1, f: e01_broken, once: false },
        #[cfg(not(feature = "noalloc"))]
        Sub { name: "types", weight: 2, f: e01_types, once: false },
    ],
    must_see: if NOALLOC { &["expressible", "inexpressible", "noalloc_refused", "failing_serializers", "failing_values", "broken_off"] } else { &["expressible", "inexpressible", "failing_serializers", "failing_values", "broken_off", "same_json"] },
};

// ---------------------------------------------------------------------------------------------
// E02

thread_local! {
    static STEP: Cell<(i64, bool)> = const { Cell::new((i64::MIN, false)) };
}
fn step<EE: ser::Error>() -> Result<(), EE> {
    STEP.with(|s| {
        let (n, _) = s.get();
        if n == i64::MIN {
            return Ok(());
        }
        if n <= 0 {
            s.set((0, true));
            return Err(EE::custom("injected"));
        }
        s.set((n - 1, false));
        Ok(())
    })
}
struct Pieces<'a>(&'a [String]);
impl<'a> std::fmt::Display for Pieces<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for p in self.0 {
            if p.chars().count() == 1 {
                std::fmt::Write::write_char(f, p.chars().next().unwrap())?;
            } else {
                f.write_str(p)?;
            }
        }
        Ok(())
    }
}
impl Serialize for Sv {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        step::<S::Error>()?;
        let r = self.emit(s)?;
        step::<S::Error>()?;
        Ok(r)
    }
}
impl Sv {
    fn emit<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ser::*;
        match self {
            Sv::Bool(b) => s.serialize_bool(*b),
            Sv::U(w, v) => match w {
                W::W8 => s.serialize_u8(*v as u8),
                W::W16 => s.serialize_u16(*v as u16),
                W::W32 => s.serialize_u32(*v as u32),
                W::W64 => s.serialize_u64(*v as u64),
                W::W128 => s.serialize_u128(*v),
            },
            Sv::I(w, v) => match w {
                W::W8 => s.serialize_i8(*v as i8),
                W::W16 => s.serialize_i16(*v as i16),
                W::W32 => s.serialize_i32(*v as i32),
                W::W64 => s.serialize_i64(*v as i64),
                W::W128 => s.serialize_i128(*v),
            },
            Sv::F32(b) => s.serialize_f32(f32::from_bits(*b)),
            Sv::F64(b) => s.serialize_f64(f64::from_bits(*b)),
            Sv::Char(c) => s.serialize_char(*c),
            Sv::Str(t) => s.serialize_str(t),
            Sv::Disp(p) => s.collect_str(&Pieces(p)),
            Sv::Bytes(b) => s.serialize_bytes(b),
            Sv::None => s.serialize_none(),
            Sv::Some(v) => s.serialize_some(&**v),
            Sv::Unit => s.serialize_unit(),
            Sv::UnitStruct(n) => s.serialize_unit_struct(n),
            Sv::UnitVariant(n, i, v) => s.serialize_unit_variant(n, *i, v),
            Sv::NewStruct(n, v) => s.serialize_newtype_struct(n, &**v),
            Sv::NewVariant(n, i, va, v) => s.serialize_newtype_variant(n, *i, va, &**v),
            Sv::Seq(l, v) => {
                let mut q = s.serialize_seq(*l)?;
                for v in v {
                    q.serialize_element(v)?;
                    step::<S::Error>()?;
                }
                q.end()
            }
            Sv::Tuple(l, v) => {
                let mut q = s.serialize_tuple(*l)?;
                for v in v {
                    q.serialize_element(v)?;
                    step::<S::Error>()?;
                }
                q.end()
            }
            Sv::TupStruct(n, l, v) => {
                let mut q = s.serialize_tuple_struct(n, *l)?;
                for v in v {
                    q.serialize_field(v)?;
                }
                q.end()
            }
            Sv::TupVariant(n, i, va, l, v) => {
                let mut q = s.serialize_tuple_variant(n, *i, va, *l)?;
                for v in v {
                    q.serialize_field(v)?;
                }
                q.end()
            }
            Sv::Map(l, es) => {
                let mut q = s.serialize_map(*l)?;
                for (k, v) in es {
                    if l.is_some() {
                        q.serialize_key(k)?;
                        step::<S::Error>()?;
                        q.serialize_value(v)?;
                    } else {
                        q.serialize_entry(k, v)?;
                    }
                }
                q.end()
            }
            Sv::Struct(n, l, v) => {
                let mut q = s.serialize_struct(n, *l)?;
                for (k, v) in v {
                    q.serialize_field(k, v)?;
                    step::<S::Error>()?;
                }
                q.end()
            }
            Sv::StructVariant(n, i, va, l, v) => {
                let mut q = s.serialize_struct_variant(n, *i, va, *l)?;
                for (k, v) in v {
                    q.serialize_field(k, v)?;
                }
                q.end()
            }
        }
    }
    fn to_sem(&self) -> Sem {
        let id = |n: &str| Id { tag: None, label: Some(Lab { text: n.into(), tag: None }), index: None };
        let var = |n: &str, i: u32| Id { index: Some(Idx { n: i as i128, tag: None }), ..id(n) };
        let tup = |v: &[Sv]| v.iter().enumerate().map(|(i, v)| (None, Idx { n: i as i128, tag: None }, v.to_sem())).collect::<Vec<_>>();
        let rec = |v: &[(&'static str, Sv)]| v.iter().map(|(k, v)| (None, Lab { text: k.to_string(), tag: None }, v.to_sem())).collect::<Vec<_>>();
        let en = |n: &str, s: Sem| Sem::Enum(id(n), Some(Box::new(s)));
        match self {
            Sv::Bool(b) => Sem::Bool(*b),
            Sv::U(w, v) => Sem::U(*w, *v),
            Sv::I(w, v) => Sem::I(*w, *v),
            Sv::F32(b) => Sem::F32(*b),
            Sv::F64(b) => Sem::F64(*b),
            Sv::Char(c) => Sem::Text(c.to_string()),
            Sv::Str(s) => Sem::Text(s.clone()),
            Sv::Disp(p) => Sem::Text(p.concat()),
            Sv::Bytes(b) => Sem::Bin(b.clone()),
            Sv::None => Sem::Tag(option_id(false)),
            Sv::Some(v) => Sem::Tagged(option_id(true), Box::new(v.to_sem())),
            Sv::Unit => Sem::Tag(Id { tag: Some(T_UNIT), ..Default::default() }),
            Sv::UnitStruct(n) => Sem::Tag(id(n)),
            Sv::UnitVariant(n, i, v) => en(n, Sem::Tag(var(v, *i))),
            Sv::NewStruct(n, v) => Sem::Tagged(id(n), Box::new(v.to_sem())),
            Sv::NewVariant(n, i, va, v) => en(n, Sem::Tagged(var(va, *i), Box::new(v.to_sem()))),
            Sv::Seq(_, v) => Sem::Seq(v.iter().map(|v| v.to_sem()).collect()),
            Sv::Tuple(_, v) => Sem::Tuple(Id::default(), tup(v)),
            Sv::TupStruct(n, _, v) => Sem::Tuple(id(n), tup(v)),
            Sv::TupVariant(n, i, va, _, v) => en(n, Sem::Tuple(var(va, *i), tup(v))),
            Sv::Map(_, es) => Sem::Map(es.iter().map(|(k, v)| (k.to_sem(), v.to_sem())).collect()),
            Sv::Struct(n, _, v) => Sem::Record(id(n), rec(v)),
            Sv::StructVariant(n, i, va, _, v) => en(n, Sem::Record(var(va, *i), rec(v))),
        }
    }
    fn steps(&self) -> usize {
        let mut n = 4;
        match self {
            Sv::Some(v) | Sv::NewStruct(_, v) | Sv::NewVariant(_, _, _, v) => n += v.steps(),
            Sv::Seq(_, v) | Sv::Tuple(_, v) | Sv::TupStruct(_, _, v) | Sv::TupVariant(_, _, _, _, v) => {
                n += v.iter().map(|v| v.steps() + 1).sum::<usize>()
            }
            Sv::Map(_, es) => n += es.iter().map(|(k, v)| k.steps() + v.steps() + 1).sum::<usize>(),
            Sv::Struct(_, _, v) | Sv::StructVariant(_, _, _, _, v) => n += v.iter().map(|v| v.1.steps() + 1).sum::<usize>(),
            _ => (),
        }
        n
    }
    fn has_unit_struct(&self) -> bool {
        match self {
            Sv::UnitStruct(_) => true,
            Sv::Some(v) | Sv::NewStruct(_, v) | Sv::NewVariant(_, _, _, v) => v.has_unit_struct(),
            Sv::Seq(_, v) | Sv::Tuple(_, v) | Sv::TupStruct(_, _, v) | Sv::TupVariant(_, _, _, _, v) => v.iter().any(|v| v.has_unit_struct()),
            Sv::Map(_, es) => es.iter().any(|(k, v)| k.has_unit_struct() || v.has_unit_struct()),
            Sv::Struct(_, _, v) | Sv::StructVariant(_, _, _, _, v) => v.iter().any(|v| v.1.has_unit_struct()),
            _ => false,
        }
    }
}
fn option_id(some: bool) -> Id {
    let v: Option<u8> = if some { Some(1) } else { None };
    match parse(&record(&v).expect("HARNESS: option").ev) {
        Ok(Sem::Tagged(id, _)) | Ok(Sem::Tag(id)) => id,
        o => panic!("HARNESS: an option streams as {o:?}"),
    }
}
const NAMES: &[&str] = &["A", "b", "type", "", "with space", "q\"uote", "é😀", "field_0", "None", "Some"];
fn long_name(g: &mut Gen) -> &'static str {
    static L: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    g.pick(L.get_or_init(|| [31, 32, 33, 64, 129, 255, 256, 257, 1025].iter().map(|n| "x".repeat(*n)).collect()))
}
fn gen_sv(g: &mut Gen, depth: u32, left: &mut i32) -> Sv {
    *left -= 1;
    let name = |g: &mut Gen| -> &'static str { if g.chance(1, 60) { long_name(g) } else { g.pick(NAMES) } };
    let vi = |g: &mut Gen| match g.below(4) {
        0 => u32::MAX,
        1 => g.below(1 << 32) as u32,
        _ => g.below(6) as u32,
    };
    let len = |g: &mut Gen| {
        if cfg!(miri) || !g.chance(1, 50) {
            g.idx(4)
        } else if g.chance(1, 60) {
            65534 + g.idx(4)
        } else {
            *g.pick(&[7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300])
        }
    };
    let k = if depth > 5 || *left <= 0 { g.below(13) } else { g.below(24) };
    match k {
        0 => Sv::Bool(g.bool()),
        1 => {
            let (w, b) = gen_w(g);
            Sv::U(w, gen_uint(g, b))
        }
        2 => {
            let (w, b) = gen_w(g);
            Sv::I(w, gen_int(g, b))
        }
        3 => Sv::F32(gen_f32(g)),
        4 => Sv::F64(gen_f64(g)),
        5 => Sv::Char(gen_char(g)),
        6 | 7 => Sv::Str(gen_string(g)),
        8 => Sv::Disp((0..g.idx(4)).map(|_| gen_string(g)).collect()),
        9 if g.chance(1, 60) => {
            let mut b = gen_long_string(g).into_bytes();
            for _ in 0..3 {
                let i = g.idx(b.len());
                b[i] = g.below(256) as u8
            }
            Sv::Bytes(b)
        }
        9 => Sv::Bytes((0..g.idx(9)).map(|_| g.below(256) as u8).collect()),
        10 => Sv::None,
        11 => Sv::Unit,
        12 => {
            if g.bool() {
                Sv::UnitStruct(name(g))
            } else {
                Sv::UnitVariant(name(g), vi(g), name(g))
            }
        }
        13 => Sv::UnitVariant(name(g), vi(g), name(g)),
        14 => Sv::Some(Box::new(gen_sv(g, depth + 1, left))),
        15 => Sv::NewStruct(name(g), Box::new(gen_sv(g, depth + 1, left))),
        16 => Sv::NewVariant(name(g), vi(g), name(g), Box::new(gen_sv(g, depth + 1, left))),
        17 | 18 => {
            let n = len(g);
            let v: Vec<Sv> = (0..n).map(|_| gen_sv(g, depth + 1, left)).collect();
            Sv::Seq(if g.bool() { Some(n) } else { None }, v)
        }
        19 => {
            let n = len(g);
            Sv::Tuple(n, (0..n).map(|_| gen_sv(g, depth + 1, left)).collect())
        }
        20 => {
            let n = len(g);
            let v: Vec<Sv> = (0..n).map(|_| gen_sv(g, depth + 1, left)).collect();
            if g.bool() {
                Sv::TupStruct(name(g), n, v)
            } else {
                Sv::TupVariant(name(g), vi(g), name(g), n, v)
            }
        }
        21 => {
            let n = len(g);
            let v: Vec<(Sv, Sv)> = (0..n)
                .map(|_| {
                    let k = if g.chance(2, 3) { Sv::Str(gen_string(g)) } else { gen_sv(g, depth + 1, left) };
                    (k, gen_sv(g, depth + 1, left))
                })
                .collect();
            Sv::Map(if g.bool() { Some(n) } else { None }, v)
        }
        _ => {
            let n = len(g);
            let v: Vec<(&'static str, Sv)> = (0..n).map(|_| (name(g), gen_sv(g, depth + 1, left))).collect();
            if g.bool() {
                Sv::Struct(name(g), n, v)
            } else {
                Sv::StructVariant(name(g), vi(g), name(g), n, v)
            }
        }
    }
}
fn top_sv(g: &mut Gen) -> Sv {
    let mut left = *g.pick(&[3, 12, 30]);
    if !cfg!(miri) && g.chance(1, 40) {
        // deep
        let mut v = gen_sv(g, 5, &mut left);
        for _ in 0..g.range(6, 150) {
            v = match g.below(8) {
                0 => Sv::Some(Box::new(v)),
                1 => Sv::NewStruct(g.pick(NAMES), Box::new(v)),
                2 => Sv::NewVariant("A", 1, g.pick(NAMES), Box::new(v)),
                3 => Sv::Seq(Some(1), vec![v]),
                4 => Sv::Map(None, vec![(Sv::Str("k".into()), v)]),
                5 => Sv::TupVariant("A", 2, "b", 1, vec![v]),
                6 => Sv::StructVariant("A", 3, "b", 1, vec![("type", v)]),
                _ => Sv::Tuple(2, vec![v, Sv::Unit]),
            };
        }
        return v;
    }
    gen_sv(g, 0, &mut left)
}
fn stream_sv(g: &mut Gen, v: &Sv, r: &mut Rec) -> sval::Result {
    match g.below(5) {
        0 => sval_serde::stream(r, v),
        1 => sval::Value::stream(&sval_serde::ToValue::new(v), r),
        2 => sval::Value::stream(sval_serde::ToValue::new_borrowed(v), r),
        3 => sval::stream_computed(r, &sval_serde::ToValue::new(v)),
        #[cfg(feature = "noalloc")]
        _ => sval_serde::stream(&mut &mut *r, v),
        #[cfg(not(feature = "noalloc"))]
        _ => {
            let v: &dyn sval_dynamic::Value = &sval_serde::ToValue::new(v);
            sval::stream_computed(r, v)
        }
    }
}
fn to_stream(g: &mut Gen, st: &mut Stats) -> R {
    let v = top_sv(g);
    let want = v.to_sem();
    super::note(st, &want);
    let mut r = Rec::new();
    stream_sv(g, &v, &mut r).map_err(|_| format!("streaming serde data failed: {v:?}"))?;
    st.events += r.ev.len() as u64;
    let got = parse(&r.ev).map_err(|e| format!("the stream of serde data {v:?} is malformed: {e}: {:?}", r.ev))?;
    if got != want {
        return Err(format!("serde data streams as\n {got:?}\nwanted\n {want:?}\n for {v:?}"));
    }
    st.count("streamed", 1);
    // and back
    let l = LR::default();
    let back = sval_serde::ToSerialize::new(sval_serde::ToValue::new(&v))
        .serialize(Ser(l.clone()));
    if NOALLOC && back.is_err() {
        st.count("noalloc_refused", 1);
        return Ok(());
    }
    let back = back.map_err(|e| format!("serde to sval to serde failed ({e}) for {v:?}"))?;
    if exact(&back) != exact(&v) {
        return Err(format!("serde to sval to serde gives\n {back:?}\nfor\n {v:?}"));
    }
    // JSON
    #[cfg(not(feature = "noalloc"))]
    if !v.has_unit_struct() {
        if let Ok(a) = serde_json::to_string(&v) {
            let mut b = String::new();
            match sval_json::stream_to_fmt_write(&mut b, sval_serde::ToValue::new(&v)) {
                Ok(()) => {
                    let (x, y) = (crate::json::parse(a.as_bytes()), crate::json::parse(b.as_bytes()));
                    let x = x.map_err(|e| format!("HARNESS: serde_json wrote {a}: {e}"))?;
                    let y = y.map_err(|e| format!("malformed JSON {b}: {e}"))?;
                    if let Err(e) = super::j::same_j(&y, &x) {
                        return Err(format!("{e}\nserde_json writes {a}\nsval_json writes {b}\n for {v:?}"));
                    }
                    st.count("same_json", 1);
                }
                Err(_) => return Err(format!("sval_json failed where serde_json writes {a} for {v:?}")),
            }
        }
    }
    st.sample(|| format!("{v:?}"));
    Ok(())
}
/// serde data that went through sval: characters and displayed text are text.
fn exact(a: &Sv) -> Sv {
    let b = |v: &Sv| Box::new(exact(v));
    let m = |v: &[Sv]| v.iter().map(exact).collect::<Vec<_>>();
    match a {
        Sv::Char(c) => Sv::Str(c.to_string()),
        Sv::Disp(p) => Sv::Str(p.concat()),
        Sv::Tuple(n, v) => Sv::Tuple(*n, m(v)),
        Sv::Seq(l, v) => Sv::Seq(*l, m(v)),
        Sv::Map(l, es) => Sv::Map(*l, es.iter().map(|(k, v)| (exact(k), exact(v))).collect()),
        Sv::Some(v) => Sv::Some(b(v)),
        Sv::NewStruct(n, v) => Sv::NewStruct(n, b(v)),
        Sv::NewVariant(n, i, va, v) => Sv::NewVariant(n, *i, va, b(v)),
        Sv::TupStruct(n, l, v) => Sv::TupStruct(n, *l, m(v)),
        Sv::TupVariant(n, i, va, l, v) => Sv::TupVariant(n, *i, va, *l, m(v)),
        Sv::Struct(n, l, v) => Sv::Struct(n, *l, v.iter().map(|(k, v)| (*k, exact(v))).collect()),
        Sv::StructVariant(n, i, va, l, v) => Sv::StructVariant(n, *i, va, *l, v.iter().map(|(k, v)| (*k, exact(v))).collect()),
        a => a.clone(),
    }
}
fn e02_failing(g: &mut Gen, st: &mut Stats) -> R {
    let v = top_sv(g);
    let mut r = Rec::new();
    sval_serde::stream(&mut r, &v).map_err(|_| format!("streaming serde data failed: {v:?}"))?;
    let full = r.ev;
    for _ in 0..4 {
        let k = g.idx(full.len());
        let mut r = Rec::failing(k);
        let res = stream_sv(g, &v, &mut r);
        st.events += r.ev.len() as u64;
        if res.is_ok() {
            return Err(format!("the stream rejected call {k} but streaming {v:?} succeeded"));
        }
        if r.after_failure > 0 {
            return Err(format!("{} calls after call {k} was rejected, streaming {v:?}", r.after_failure));
        }
        if r.ev[..] != full[..k] {
            return Err(format!("calls before the rejected one differ: {:?} and {:?}", r.ev, &full[..k]));
        }
        st.count("failing_streams", 1);
    }
    for _ in 0..4 {
        let k = g.idx(v.steps());
        STEP.with(|s| s.set((k as i64, false)));
        let mut r = Rec::new();
        let res = stream_sv(g, &v, &mut r);
        let blown = STEP.with(|s| s.replace((i64::MIN, false)).1);
        if res.is_ok() == blown {
            return Err(format!("serialization failed: {blown}, streaming ok: {} for {v:?} (step {k})", res.is_ok()));
        }
        st.count("failing_serialize", blown as u64);
    }
    Ok(())
}
#[cfg(not(feature = "noalloc"))]
fn e02_types(g: &mut Gen, st: &mut Stats) -> R {
    let t = types::gen_any(g);
    let mut r = Rec::new();
    sval::Value::stream(&sval_serde::ToValue::new(&t), &mut r).map_err(|_| format!("streaming {t:?} through serde failed"))?;
    st.events += r.ev.len() as u64;
    let sem = parse(&r.ev).map_err(|e| format!("malformed stream of {t:?} through serde: {e}"))?;
    let l = LR::default();
    let sv = t.serialize(Ser(l)).map_err(|e| format!("HARNESS: {e}"))?;
    super::note(st, &sem);
    if sem != sv.to_sem() {
        return Err(format!("{t:?} streams through serde as\n {sem:?}\nwanted\n {:?}", sv.to_sem()));
    }
    st.count("types", 1);
    Ok(())
}

pub static E02: Prop = Prop {
    id: "E02",
    rule: "distinct = shapes of serde data whose stream was compared with the model",
    assumptions: &["serde implementations are well-behaved: they announce truthful lengths and alternate keys and values"],
    level: "exploration",
    subs: &[
        Sub { name: "calls", weight: 4, f: to_stream, once: false },
        Sub { name: "failing", weight: 2, f: e02_failing, once: false },
        #[cfg(not(feature = "noalloc"))]
        Sub { name: "types", weight: 1, f: e02_types, once: false },
    ],
    must_see: if NOALLOC { &["streamed", "failing_streams", "failing_serialize"] } else { &["streamed", "same_json", "failing_streams", "failing_serialize", "types"] },
};
