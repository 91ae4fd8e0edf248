//! N01: the recursive stream interface.

use crate::fw::{Prop, Stats, Sub, R};
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use std::cell::RefCell;
use std::rc::Rc;
use sval_nested::{Error, StreamEnum, StreamMap, StreamRecord, StreamSeq, StreamTuple, Unsupported, ValueRef};

/// Without an allocator a value may be refused, but never altered.
const NOALLOC: bool = cfg!(feature = "noalloc");

/// What the recursive recorders share.
#[derive(Default)]
pub struct Log {
    /// size hints in the order containers are begun
    pub sizes: Vec<Option<usize>>,
    pub calls: usize,
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_failure: usize,
    /// (address, length) of everything received as borrowed
    pub borrowed: Vec<(usize, usize)>,
    /// how children are taken: bits consumed per child
    pub style: u64,
    pub problem: Option<String>,
}
pub type L = Rc<RefCell<Log>>;
impl Log {
    fn call(&mut self) -> sval_nested::Result {
        if self.failed {
            self.after_failure += 1;
            return Err(Error::invalid_value("called after a failure"));
        }
        if self.fail_at == Some(self.calls) {
            self.failed = true;
            return Err(Error::invalid_value("injected"));
        }
        self.calls += 1;
        Ok(())
    }
    fn style(&mut self) -> u64 {
        let x = self.style & 3;
        self.style = self.style.rotate_right(2);
        x
    }
}
fn call(l: &L) -> sval_nested::Result {
    l.borrow_mut().call()
}

/// Overrides everything.
pub struct Full(pub L);
pub struct FSeq(L, Option<usize>, Vec<Sem>);
pub struct FMap(L, Option<usize>, Vec<Sem>);
pub struct FRec(L, Id, Vec<(Option<u8>, Lab, Sem)>, Option<Id>);
pub struct FTup(L, Id, Vec<(Option<u8>, Idx, Sem)>, Option<Id>);
pub struct FEnum(L, Id);

fn nid(t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>) -> Id {
    id_of(t.as_ref(), l.as_ref(), i.as_ref())
}

/// Take a child value: recursively, or by recording the flat stream.
fn child<'sval, V: ValueRef<'sval>>(l: &L, v: V) -> sval_nested::Result<Sem> {
    let style = l.borrow_mut().style();
    match style {
        0 => flat(l, |r| sval_ref::stream_ref(r, &v)),
        1 => {
            let mut fs = 0;
            flat(l, |r| {
                fs += 1;
                sval::Value::stream(&v, r)
            })
        }
        2 => sval_nested::stream(Full(l.clone()), v),
        _ => sval_nested::Stream::value(Full(l.clone()), &v),
    }
}
fn child_computed<V: sval::Value>(l: &L, v: V) -> sval_nested::Result<Sem> {
    let style = l.borrow_mut().style();
    match style {
        0 | 1 => flat(l, |r| v.stream(r)),
        2 => sval_nested::stream_computed(Full(l.clone()), v),
        _ => sval_nested::Stream::value_computed(Full(l.clone()), &v),
    }
}
fn flat(l: &L, f: impl FnOnce(&mut Rec) -> sval::Result) -> sval_nested::Result<Sem> {
    let mut r = Rec::new();
    if f(&mut r).is_err() {
        return Err(Error::invalid_value("the child failed"));
    }
    if l.borrow().fail_at.is_none() {
        let mut lb = l.borrow_mut();
        for e in &r.ev {
            if let Some(s) = size_of(e) {
                lb.sizes.push(s);
            }
        }
    }
    match parse(&r.ev) {
        Ok(s) => Ok(s),
        Err(e) => {
            l.borrow_mut().problem.get_or_insert(format!("a child handed to the recursive stream is malformed: {e}: {:?}", r.ev));
            Err(Error::invalid_value("malformed child"))
        }
    }
}
fn size_of(e: &Ev) -> Option<Option<usize>> {
    match e {
        Ev::MapBegin(n) | Ev::SeqBegin(n) | Ev::RecBegin(_, n) | Ev::TupBegin(_, n) | Ev::RTBegin(_, n) => Some(*n),
        _ => None,
    }
}

macro_rules! scalar {
    ($($m:ident $t:ty => |$x:ident| $e:expr;)*) => {
        $(fn $m(self, $x: $t) -> sval_nested::Result<Sem> {
            call(&self.0)?;
            Ok($e)
        })*
    };
}

impl<'sval> sval_nested::Stream<'sval> for Full {
    type Ok = Sem;
    type Seq = FSeq;
    type Map = FMap;
    type Tuple = FTup;
    type Record = FRec;
    type Enum = FEnum;
    fn null(self) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        Ok(Sem::Null)
    }
    scalar! {
        bool bool => |x| Sem::Bool(x);
        i8 i8 => |x| Sem::I(W::W8, x as i128);
        i16 i16 => |x| Sem::I(W::W16, x as i128);
        i32 i32 => |x| Sem::I(W::W32, x as i128);
        i64 i64 => |x| Sem::I(W::W64, x as i128);
        i128 i128 => |x| Sem::I(W::W128, x);
        u8 u8 => |x| Sem::U(W::W8, x as u128);
        u16 u16 => |x| Sem::U(W::W16, x as u128);
        u32 u32 => |x| Sem::U(W::W32, x as u128);
        u64 u64 => |x| Sem::U(W::W64, x as u128);
        u128 u128 => |x| Sem::U(W::W128, x);
        f32 f32 => |x| Sem::F32(x.to_bits());
        f64 f64 => |x| Sem::F64(x.to_bits());
        text_computed &str => |x| Sem::Text(x.to_string());
        binary_computed &[u8] => |x| Sem::Bin(x.to_vec());
    }
    fn text(self, x: &'sval str) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        self.0.borrow_mut().borrowed.push((x.as_ptr() as usize, x.len()));
        Ok(Sem::Text(x.to_string()))
    }
    fn binary(self, x: &'sval [u8]) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        self.0.borrow_mut().borrowed.push((x.as_ptr() as usize, x.len()));
        Ok(Sem::Bin(x.to_vec()))
    }
    fn tag(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        Ok(Sem::Tag(nid(t, l, i)))
    }
    fn tagged<V: ValueRef<'sval>>(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, v: V) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        let id = nid(t, l, i);
        Ok(Sem::Tagged(id, Box::new(child(&self.0, v)?)))
    }
    fn tagged_computed<V: sval::Value>(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, v: V) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        let id = nid(t, l, i);
        Ok(Sem::Tagged(id, Box::new(child_computed(&self.0, v)?)))
    }
    fn seq_begin(self, n: Option<usize>) -> sval_nested::Result<FSeq> {
        call(&self.0)?;
        self.0.borrow_mut().sizes.push(n);
        Ok(FSeq(self.0, n, vec![]))
    }
    fn map_begin(self, n: Option<usize>) -> sval_nested::Result<FMap> {
        call(&self.0)?;
        self.0.borrow_mut().sizes.push(n);
        Ok(FMap(self.0, n, vec![]))
    }
    fn tuple_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, n: Option<usize>) -> sval_nested::Result<FTup> {
        call(&self.0)?;
        self.0.borrow_mut().sizes.push(n);
        Ok(FTup(self.0, nid(t, l, i), vec![], None))
    }
    fn record_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, n: Option<usize>) -> sval_nested::Result<FRec> {
        call(&self.0)?;
        self.0.borrow_mut().sizes.push(n);
        Ok(FRec(self.0, nid(t, l, i), vec![], None))
    }
    fn enum_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>) -> sval_nested::Result<FEnum> {
        call(&self.0)?;
        Ok(FEnum(self.0, nid(t, l, i)))
    }
}
impl<'sval> StreamSeq<'sval> for FSeq {
    type Ok = Sem;
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> sval_nested::Result {
        call(&self.0)?;
        self.2.push(child(&self.0, v)?);
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> sval_nested::Result {
        call(&self.0)?;
        self.2.push(child_computed(&self.0, v)?);
        Ok(())
    }
    fn end(self) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        Ok(Sem::Seq(self.2))
    }
}
const ORDER: &str = "map keys and values do not alternate";
impl<'sval> StreamMap<'sval> for FMap {
    type Ok = Sem;
    fn key<V: ValueRef<'sval>>(&mut self, v: V) -> sval_nested::Result {
        call(&self.0)?;
        if self.2.len() % 2 != 0 {
            self.0.borrow_mut().problem.get_or_insert(ORDER.into());
        }
        self.2.push(child(&self.0, v)?);
        Ok(())
    }
    fn key_computed<V: sval::Value>(&mut self, v: V) -> sval_nested::Result {
        call(&self.0)?;
        if self.2.len() % 2 != 0 {
            self.0.borrow_mut().problem.get_or_insert(ORDER.into());
        }
        self.2.push(child_computed(&self.0, v)?);
        Ok(())
    }
    fn value<V: ValueRef<'sval>>(&mut self, v: V) -> sval_nested::Result {
        call(&self.0)?;
        if self.2.len() % 2 != 1 {
            self.0.borrow_mut().problem.get_or_insert(ORDER.into());
        }
        self.2.push(child(&self.0, v)?);
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> sval_nested::Result {
        call(&self.0)?;
        if self.2.len() % 2 != 1 {
            self.0.borrow_mut().problem.get_or_insert(ORDER.into());
        }
        self.2.push(child_computed(&self.0, v)?);
        Ok(())
    }
    fn end(self) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        if self.2.len() % 2 != 0 {
            self.0.borrow_mut().problem.get_or_insert(ORDER.into());
            return Err(Error::invalid_value(ORDER));
        }
        let mut it = self.2.into_iter();
        let mut es = vec![];
        while let (Some(k), Some(v)) = (it.next(), it.next()) {
            es.push((k, v));
        }
        Ok(Sem::Map(es))
    }
}
fn up(id: Option<Id>, s: Sem) -> Sem {
    match id {
        Some(id) => Sem::Enum(id, Some(Box::new(s))),
        None => s,
    }
}
impl<'sval> StreamTuple<'sval> for FTup {
    type Ok = Sem;
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<sval::Tag>, i: sval::Index, v: V) -> sval_nested::Result {
        call(&self.0)?;
        let c = child(&self.0, v)?;
        self.2.push((t.as_ref().map(tag_id), idx_of(&i), c));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, t: Option<sval::Tag>, i: sval::Index, v: V) -> sval_nested::Result {
        call(&self.0)?;
        let c = child_computed(&self.0, v)?;
        self.2.push((t.as_ref().map(tag_id), idx_of(&i), c));
        Ok(())
    }
    fn end(self) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        Ok(up(self.3, Sem::Tuple(self.1, self.2)))
    }
}
impl<'sval> StreamRecord<'sval> for FRec {
    type Ok = Sem;
    fn value<V: ValueRef<'sval>>(&mut self, t: Option<sval::Tag>, l: sval::Label, v: V) -> sval_nested::Result {
        call(&self.0)?;
        let c = child(&self.0, v)?;
        self.2.push((t.as_ref().map(tag_id), lab_of(&l), c));
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, t: Option<sval::Tag>, l: sval::Label, v: V) -> sval_nested::Result {
        call(&self.0)?;
        let c = child_computed(&self.0, v)?;
        self.2.push((t.as_ref().map(tag_id), lab_of(&l), c));
        Ok(())
    }
    fn end(self) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        Ok(up(self.3, Sem::Record(self.1, self.2)))
    }
}
impl<'sval> StreamEnum<'sval> for FEnum {
    type Ok = Sem;
    type Tuple = FTup;
    type Record = FRec;
    type Nested = FEnum;
    fn tag(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        Ok(up(Some(self.1), Sem::Tag(nid(t, l, i))))
    }
    fn tagged<V: ValueRef<'sval>>(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, v: V) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        let id = nid(t, l, i);
        let c = child(&self.0, v)?;
        Ok(up(Some(self.1), Sem::Tagged(id, Box::new(c))))
    }
    fn tagged_computed<V: sval::Value>(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, v: V) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        let id = nid(t, l, i);
        let c = child_computed(&self.0, v)?;
        Ok(up(Some(self.1), Sem::Tagged(id, Box::new(c))))
    }
    fn tuple_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, n: Option<usize>) -> sval_nested::Result<FTup> {
        call(&self.0)?;
        self.0.borrow_mut().sizes.push(n);
        Ok(FTup(self.0, nid(t, l, i), vec![], Some(self.1)))
    }
    fn record_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, n: Option<usize>) -> sval_nested::Result<FRec> {
        call(&self.0)?;
        self.0.borrow_mut().sizes.push(n);
        Ok(FRec(self.0, nid(t, l, i), vec![], Some(self.1)))
    }
    fn nested<F: FnOnce(FEnum) -> sval_nested::Result<Sem>>(
        self,
        t: Option<sval::Tag>,
        l: Option<sval::Label>,
        i: Option<sval::Index>,
        f: F,
    ) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        let v = f(FEnum(self.0, nid(t, l, i)))?;
        Ok(up(Some(self.1), v))
    }
    fn empty(self) -> sval_nested::Result<Sem> {
        call(&self.0)?;
        Ok(Sem::Enum(self.1, None))
    }
}

// ---------------------------------------------------------------------------------------------
// A stream that implements the required methods only.

struct Min;
struct MSeq(Vec<Sem>);
struct MMap(Vec<Sem>);
struct MRec(Id, Vec<(Option<u8>, Lab, Sem)>, Option<Id>);
struct MTup(Id, Vec<(Option<u8>, Idx, Sem)>, Option<Id>);
struct MEnum(Id);

impl<'sval> sval_nested::Stream<'sval> for Min {
    type Ok = Sem;
    type Seq = MSeq;
    type Map = MMap;
    type Tuple = MTup;
    type Record = MRec;
    type Enum = MEnum;
    fn null(self) -> sval_nested::Result<Sem> {
        Ok(Sem::Null)
    }
    fn bool(self, x: bool) -> sval_nested::Result<Sem> {
        Ok(Sem::Bool(x))
    }
    fn i64(self, x: i64) -> sval_nested::Result<Sem> {
        Ok(Sem::I(W::W64, x as i128))
    }
    fn f64(self, x: f64) -> sval_nested::Result<Sem> {
        Ok(Sem::F64(x.to_bits()))
    }
    fn text_computed(self, x: &str) -> sval_nested::Result<Sem> {
        Ok(Sem::Text(x.into()))
    }
    fn seq_begin(self, _: Option<usize>) -> sval_nested::Result<MSeq> {
        Ok(MSeq(vec![]))
    }
    fn map_begin(self, _: Option<usize>) -> sval_nested::Result<MMap> {
        Ok(MMap(vec![]))
    }
    fn tuple_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<MTup> {
        Ok(MTup(nid(t, l, i), vec![], None))
    }
    fn record_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<MRec> {
        Ok(MRec(nid(t, l, i), vec![], None))
    }
    fn enum_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>) -> sval_nested::Result<MEnum> {
        Ok(MEnum(nid(t, l, i)))
    }
}
impl<'sval> StreamSeq<'sval> for MSeq {
    type Ok = Sem;
    fn value_computed<V: sval::Value>(&mut self, v: V) -> sval_nested::Result {
        self.0.push(sval_nested::stream_computed(Min, v)?);
        Ok(())
    }
    fn end(self) -> sval_nested::Result<Sem> {
        Ok(Sem::Seq(self.0))
    }
}
impl<'sval> StreamMap<'sval> for MMap {
    type Ok = Sem;
    fn key_computed<V: sval::Value>(&mut self, v: V) -> sval_nested::Result {
        self.0.push(sval_nested::stream_computed(Min, v)?);
        Ok(())
    }
    fn value_computed<V: sval::Value>(&mut self, v: V) -> sval_nested::Result {
        self.0.push(sval_nested::stream_computed(Min, v)?);
        Ok(())
    }
    fn end(self) -> sval_nested::Result<Sem> {
        let mut it = self.0.into_iter();
        let mut es = vec![];
        while let Some(k) = it.next() {
            es.push((k, it.next().ok_or_else(|| Error::invalid_value("odd map"))?));
        }
        Ok(Sem::Map(es))
    }
}
impl<'sval> StreamTuple<'sval> for MTup {
    type Ok = Sem;
    fn value_computed<V: sval::Value>(&mut self, t: Option<sval::Tag>, i: sval::Index, v: V) -> sval_nested::Result {
        self.1.push((t.as_ref().map(tag_id), idx_of(&i), sval_nested::stream_computed(Min, v)?));
        Ok(())
    }
    fn end(self) -> sval_nested::Result<Sem> {
        Ok(up(self.2, Sem::Tuple(self.0, self.1)))
    }
}
impl<'sval> StreamRecord<'sval> for MRec {
    type Ok = Sem;
    fn value_computed<V: sval::Value>(&mut self, t: Option<sval::Tag>, l: sval::Label, v: V) -> sval_nested::Result {
        self.1.push((t.as_ref().map(tag_id), lab_of(&l), sval_nested::stream_computed(Min, v)?));
        Ok(())
    }
    fn end(self) -> sval_nested::Result<Sem> {
        Ok(up(self.2, Sem::Record(self.0, self.1)))
    }
}
impl<'sval> StreamEnum<'sval> for MEnum {
    type Ok = Sem;
    type Tuple = MTup;
    type Record = MRec;
    type Nested = MEnum;
    fn tag(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>) -> sval_nested::Result<Sem> {
        Ok(up(Some(self.0), Sem::Tag(nid(t, l, i))))
    }
    fn tagged_computed<V: sval::Value>(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, v: V) -> sval_nested::Result<Sem> {
        let id = nid(t, l, i);
        Ok(up(Some(self.0), Sem::Tagged(id, Box::new(sval_nested::stream_computed(Min, v)?))))
    }
    fn tuple_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<MTup> {
        Ok(MTup(nid(t, l, i), vec![], Some(self.0)))
    }
    fn record_begin(self, t: Option<sval::Tag>, l: Option<sval::Label>, i: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<MRec> {
        Ok(MRec(nid(t, l, i), vec![], Some(self.0)))
    }
    fn nested<F: FnOnce(MEnum) -> sval_nested::Result<Sem>>(
        self,
        t: Option<sval::Tag>,
        l: Option<sval::Label>,
        i: Option<sval::Index>,
        f: F,
    ) -> sval_nested::Result<Sem> {
        let v = f(MEnum(nid(t, l, i)))?;
        Ok(up(Some(self.0), v))
    }
    fn empty(self) -> sval_nested::Result<Sem> {
        Ok(Sem::Enum(self.0, None))
    }
}

/// A stream for scalars; everything else is declared unsupported.
struct Scalars;
impl<'sval> sval_nested::Stream<'sval> for Scalars {
    type Ok = Sem;
    type Seq = Unsupported<Sem>;
    type Map = Unsupported<Sem>;
    type Tuple = Unsupported<Sem>;
    type Record = Unsupported<Sem>;
    type Enum = Unsupported<Sem>;
    fn null(self) -> sval_nested::Result<Sem> {
        Ok(Sem::Null)
    }
    fn bool(self, x: bool) -> sval_nested::Result<Sem> {
        Ok(Sem::Bool(x))
    }
    fn i64(self, x: i64) -> sval_nested::Result<Sem> {
        Ok(Sem::I(W::W64, x as i128))
    }
    fn f64(self, x: f64) -> sval_nested::Result<Sem> {
        Ok(Sem::F64(x.to_bits()))
    }
    fn text_computed(self, x: &str) -> sval_nested::Result<Sem> {
        Ok(Sem::Text(x.into()))
    }
    fn seq_begin(self, _: Option<usize>) -> sval_nested::Result<Self::Seq> {
        Err(Error::invalid_value("no seq"))
    }
    fn map_begin(self, _: Option<usize>) -> sval_nested::Result<Self::Map> {
        Err(Error::invalid_value("no map"))
    }
    fn tuple_begin(self, _: Option<sval::Tag>, _: Option<sval::Label>, _: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<Self::Tuple> {
        Err(Error::invalid_value("no tuple"))
    }
    fn record_begin(self, _: Option<sval::Tag>, _: Option<sval::Label>, _: Option<sval::Index>, _: Option<usize>) -> sval_nested::Result<Self::Record> {
        Err(Error::invalid_value("no record"))
    }
    fn enum_begin(self, _: Option<sval::Tag>, _: Option<sval::Label>, _: Option<sval::Index>) -> sval_nested::Result<Self::Enum> {
        Err(Error::invalid_value("no enum"))
    }
}

// ---------------------------------------------------------------------------------------------
// Reference

/// Record tuples arrive as records.
pub fn lower_rt(s: &Sem) -> Sem {
    match s {
        Sem::Map(es) => Sem::Map(es.iter().map(|(k, v)| (lower_rt(k), lower_rt(v))).collect()),
        Sem::Seq(es) => Sem::Seq(es.iter().map(lower_rt).collect()),
        Sem::Enum(id, c) => Sem::Enum(id.clone(), c.as_ref().map(|c| Box::new(lower_rt(c)))),
        Sem::Tagged(id, c) => Sem::Tagged(id.clone(), Box::new(lower_rt(c))),
        Sem::Record(id, fs) => Sem::Record(id.clone(), fs.iter().map(|(t, l, c)| (*t, l.clone(), lower_rt(c))).collect()),
        Sem::Tuple(id, fs) => Sem::Tuple(id.clone(), fs.iter().map(|(t, l, c)| (*t, l.clone(), lower_rt(c))).collect()),
        Sem::RecordTuple(id, fs) => Sem::Record(id.clone(), fs.iter().map(|(t, l, _, c)| (*t, l.clone(), lower_rt(c))).collect()),
        s => s.clone(),
    }
}
/// What a stream with the required methods only is documented to get.
fn lower_min(s: &Sem) -> Sem {
    match s {
        Sem::U(_, v) => i64::try_from(*v).map(|v| Sem::I(W::W64, v as i128)).unwrap_or_else(|_| Sem::Text(v.to_string())),
        Sem::I(_, v) => i64::try_from(*v).map(|v| Sem::I(W::W64, v as i128)).unwrap_or_else(|_| Sem::Text(v.to_string())),
        Sem::F32(b) => Sem::F64((f32::from_bits(*b) as f64).to_bits()),
        Sem::Bin(b) => Sem::Seq(b.iter().map(|b| Sem::I(W::W64, *b as i128)).collect()),
        Sem::Map(es) => Sem::Map(es.iter().map(|(k, v)| (lower_min(k), lower_min(v))).collect()),
        Sem::Seq(es) => Sem::Seq(es.iter().map(lower_min).collect()),
        Sem::Enum(id, c) => Sem::Enum(
            id.clone(),
            c.as_ref().map(|c| {
                Box::new(match &**c {
                    Sem::Tagged(id, c) => Sem::Tagged(id.clone(), Box::new(lower_min(c))),
                    Sem::Tag(id) => Sem::Tag(id.clone()),
                    c => lower_min(c),
                })
            }),
        ),
        Sem::Tagged(_, c) => lower_min(c),
        Sem::Tag(id) => match &id.label {
            _ if id.tag == Some(T_NONE) => Sem::Null,
            Some(l) => Sem::Text(l.text.clone()),
            None => Sem::Null,
        },
        Sem::Record(id, fs) => Sem::Record(id.clone(), fs.iter().map(|(t, l, c)| (*t, l.clone(), lower_min(c))).collect()),
        Sem::Tuple(id, fs) => Sem::Tuple(id.clone(), fs.iter().map(|(t, l, c)| (*t, l.clone(), lower_min(c))).collect()),
        Sem::RecordTuple(id, fs) => Sem::Record(id.clone(), fs.iter().map(|(t, l, _, c)| (*t, l.clone(), lower_min(c))).collect()),
        s => s.clone(),
    }
}
/// Contains an enum nested in an enum whose variant is a record or tuple: the recursive form has no way to say it.
pub fn inexpressible(n: &Node) -> bool {
    fn strip(n: &Node) -> &Node {
        match n {
            Node::Hint(_, n) => strip(n),
            n => n,
        }
    }
    let mut bad = false;
    n.walk(&mut |n| {
        if let Node::Enum(_, Some(c)) = n {
            if let Node::Enum(_, Some(c)) = strip(&c.node) {
                bad |= matches!(strip(&c.node), Node::Record(..) | Node::Tuple(..) | Node::RecordTuple(..));
            }
        }
    });
    bad
}
fn sizes(n: &Node) -> Vec<Option<usize>> {
    let mut v = vec![];
    n.walk(&mut |n| {
        let (s, l) = match n {
            Node::Map(s, e) => (s, e.len()),
            Node::Seq(s, e) => (s, e.len()),
            Node::Record(_, s, e) => (s, e.len()),
            Node::Tuple(_, s, e) => (s, e.len()),
            Node::RecordTuple(_, s, e) => (s, e.len()),
            _ => return,
        };
        v.push(if *s { Some(l) } else { None });
    });
    v
}
pub fn new_log(g: &mut Gen) -> L {
    let style = match g.below(3) {
        0 => u64::MAX / 3 * 2,
        1 => g.u64(),
        _ => 0,
    };
    Rc::new(RefCell::new(Log { style, ..Default::default() }))
}
/// Drive the recursive recorder through one of the entry points.
pub fn drive(g: &mut Gen, l: &L, n: &Node) -> sval_nested::Result<Sem> {
    let s = Full(l.clone());
    match g.below(6) {
        0 => sval_nested::stream_ref(s, n),
        1 => sval_nested::stream(s, sval_ref::to_ref(n)),
        2 => sval_nested::stream_computed(s, n),
        3 => sval_nested::stream(s, &sval_ref::Ref::new(n)),
        #[cfg(not(feature = "noalloc"))]
        4 => sval_nested::stream(s, Box::new(sval_ref::to_ref(n))),
        _ => sval_nested::stream_computed(s, sval_ref::Ref::new(n)),
    }
}
fn gen_val(g: &mut Gen) -> Node {
    let cfg = Cfg { empty_enum: true, huge: g.chance(1, 8), ..Cfg::full() };
    if g.chance(1, 12) {
        let d = g.range(4, 40) as usize;
        gen_deep(g, &cfg, d)
    } else if g.chance(1, 6) {
        gen_enum_chain(g, &cfg)
    } else {
        gen_node(g, &cfg)
    }
}
/// Enums in enums, ending in any kind of variant or nothing.
fn gen_enum_chain(g: &mut Gen, cfg: &Cfg) -> Node {
    let via = |g: &mut Gen| *g.pick(&[Via::Value, Via::Inline, Via::Computed]);
    let c = Child { via: via(g), node: gen_node(g, &Cfg { budget: 6, ..cfg.clone() }) };
    let last = match g.below(8) {
        0 => None,
        1 => Some(Node::Record(gen_id(g, cfg), g.bool(), vec![(None, gen_lab(g, cfg), c)])),
        2 => Some(Node::Tuple(gen_id(g, cfg), g.bool(), vec![(None, gen_idx(g, 0), c)])),
        3 => Some(Node::RecordTuple(gen_id(g, cfg), g.bool(), vec![(None, gen_lab(g, cfg), gen_idx(g, 0), c)])),
        4 | 5 => Some(Node::Tag(gen_id(g, cfg))),
        _ => Some(Node::Tagged(gen_id(g, cfg), Box::new(c))),
    };
    let mut n = Node::Enum(gen_id(g, cfg), last.map(|n| Box::new(Child { via: via(g), node: n })));
    for _ in 0..g.below(5) {
        n = Node::Enum(gen_id(g, cfg), Some(Box::new(Child { via: via(g), node: n })));
    }
    if g.chance(1, 3) {
        n = Node::Seq(true, vec![Child { via: via(g), node: n }, Child { via: Via::Inline, node: Node::Null }]);
    }
    n
}

fn faithful(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_val(g);
    let sem = n.sem();
    super::note(st, &sem);
    let bad = inexpressible(&n);
    let l = new_log(g);
    let got = drive(g, &l, &n);
    st.events += l.borrow().calls as u64;
    if let Some(p) = &l.borrow().problem {
        return Err(format!("{p}\n value {n:?}"));
    }
    let want = lower_rt(&sem);
    match got {
        Ok(s) => {
            let s = lower_rt(&s);
            if s != want {
                return Err(format!("the recursive stream saw\n {s:?}\nbut the value is\n {want:?}\n delivered as {n:?}"));
            }
            if l.borrow().sizes != sizes(&n) {
                return Err(format!("size hints seen {:?}, given {:?} for {n:?}", l.borrow().sizes, sizes(&n)));
            }
            st.count("delivered", 1);
        }
        Err(_) if NOALLOC => st.count("noalloc_rejected", 1),
        Err(e) => {
            if !bad {
                return Err(format!("rejected ({e:?}) a value the recursive form can express: {n:?}"));
            }
            st.count("rejected_inexpressible", 1);
        }
    }
    st.sample(|| format!("{want:?}"));
    Ok(())
}

fn minimal(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_val(g);
    let sem = n.sem();
    super::note(st, &sem);
    let got = match g.below(3) {
        0 => sval_nested::stream_ref(Min, &n),
        1 => sval_nested::stream_computed(Min, &n),
        _ => sval_nested::stream(Min, sval_ref::to_ref(&n)),
    };
    let want = lower_min(&sem);
    st.events += n.size() as u64;
    match got {
        Ok(s) if s == want => st.count("minimal", 1),
        Ok(s) => return Err(format!("a minimal recursive stream saw\n {s:?}\nwanted\n {want:?}\n delivered as {n:?}")),
        Err(_) if NOALLOC => (),
        Err(e) if !inexpressible(&n) => return Err(format!("rejected ({e:?}) by a minimal stream: {n:?}")),
        Err(_) => (),
    }
    // scalars only
    let got = sval_nested::stream_ref(Scalars, &n);
    let scalar = !matches!(want, Sem::Map(_) | Sem::Seq(_) | Sem::Enum(..) | Sem::Record(..) | Sem::Tuple(..) | Sem::RecordTuple(..));
    match got {
        Ok(s) if scalar && s == want => (),
        Err(_) if !scalar || NOALLOC => (),
        other => return Err(format!("a stream supporting scalars only returned {other:?} for {n:?}, wanted {want:?}")),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// The recursive interface called directly, the way a caller that already has the parts does.

fn can_hand(n: &Node) -> bool {
    match n {
        Node::Enum(_, Some(c)) => match &c.node {
            Node::Enum(..) => can_hand(&c.node),
            Node::Tag(_) | Node::Tagged(..) | Node::Record(..) | Node::Tuple(..) => true,
            _ => false,
        },
        Node::RecordTuple(..) | Node::Hint(..) => false,
        _ => true,
    }
}
macro_rules! give {
    ($how:expr, $s:expr, $v:ident, $r:ident, $c:ident, ($($a:expr),*), $n:expr) => {
        match $how {
            0 => $s.$r($($a,)* $n),
            1 => $s.$v($($a,)* sval_ref::to_ref($n)),
            2 => $s.$v($($a,)* &sval_ref::Ref::new($n)),
            3 => $s.$c($($a,)* sval_ref::Ref::new($n)),
            _ => $s.$c($($a,)* $n),
        }
    };
}
fn hand_record<'a, S: StreamRecord<'a>>(mut s: S, fs: &'a [(Option<u8>, NLab, Child)], how: &mut impl FnMut() -> u64) -> sval_nested::Result<S::Ok> {
    for (t, l, c) in fs {
        let t = t.map(|t| tag_ref(t).clone());
        l.with(|l| give!(how(), s, value, value_ref, value_computed, (t.clone(), l.clone()), &c.node))?;
    }
    s.end()
}
fn hand_tuple<'a, S: StreamTuple<'a>>(mut s: S, fs: &'a [(Option<u8>, Idx, Child)], how: &mut impl FnMut() -> u64) -> sval_nested::Result<S::Ok> {
    for (t, i, c) in fs {
        let t = t.map(|t| tag_ref(t).clone());
        give!(how(), s, value, value_ref, value_computed, (t.clone(), mk_index(i)), &c.node)?;
    }
    s.end()
}
fn hand_enum<'a, S: StreamEnum<'a>>(s: S, c: Option<&'a Child>, how: &mut dyn FnMut() -> u64) -> sval_nested::Result<S::Ok> {
    let mut how = how;
    match c.map(|c| &c.node) {
        None => s.empty(),
        Some(Node::Tag(id)) => id.with(|t, l, i| s.tag(t.cloned(), l.cloned(), i.cloned())),
        Some(Node::Tagged(id, c)) => id.with(|t, l, i| give!(how(), s, tagged, tagged_ref, tagged_computed, (t.cloned(), l.cloned(), i.cloned()), &c.node)),
        Some(Node::Record(id, sized, fs)) => {
            let r = id.with(|t, l, i| s.record_begin(t.cloned(), l.cloned(), i.cloned(), sized.then_some(fs.len())))?;
            hand_record(r, fs, &mut how)
        }
        Some(Node::Tuple(id, sized, fs)) => {
            let r = id.with(|t, l, i| s.tuple_begin(t.cloned(), l.cloned(), i.cloned(), sized.then_some(fs.len())))?;
            hand_tuple(r, fs, &mut how)
        }
        Some(Node::Enum(id, c)) => id.with(|t, l, i| s.nested(t.cloned(), l.cloned(), i.cloned(), |e| hand_enum(e, c.as_deref(), how))),
        _ => unreachable!(),
    }
}
fn hand<'a, S: sval_nested::Stream<'a>>(s: S, n: &'a Node, how: &mut impl FnMut() -> u64) -> sval_nested::Result<S::Ok> {
    match n {
        Node::Null => s.null(),
        Node::Bool(b) => s.bool(*b),
        Node::Text(fr, _) => match &fr[..] {
            [(f, false)] => s.text(f),
            _ => s.text_computed(&fr.iter().map(|f| &*f.0).collect::<String>()),
        },
        Node::Bin(fr, _) => match &fr[..] {
            [(f, false)] => s.binary(f),
            _ => s.binary_computed(&fr.iter().flat_map(|f| f.0.iter().copied()).collect::<Vec<u8>>()),
        },
        Node::U(w, v) => match w {
            W::W8 => s.u8(*v as u8),
            W::W16 => s.u16(*v as u16),
            W::W32 => s.u32(*v as u32),
            W::W64 => s.u64(*v as u64),
            W::W128 => s.u128(*v),
        },
        Node::I(w, v) => match w {
            W::W8 => s.i8(*v as i8),
            W::W16 => s.i16(*v as i16),
            W::W32 => s.i32(*v as i32),
            W::W64 => s.i64(*v as i64),
            W::W128 => s.i128(*v),
        },
        Node::F32(b) => s.f32(f32::from_bits(*b)),
        Node::F64(b) => s.f64(f64::from_bits(*b)),
        Node::Seq(sized, cs) => {
            let mut q = s.seq_begin(sized.then_some(cs.len()))?;
            for c in cs {
                give!(how(), q, value, value_ref, value_computed, (), &c.node)?;
            }
            q.end()
        }
        Node::Map(sized, cs) => {
            let mut q = s.map_begin(sized.then_some(cs.len()))?;
            for (k, c) in cs {
                give!(how(), q, key, key_ref, key_computed, (), &k.node)?;
                give!(how(), q, value, value_ref, value_computed, (), &c.node)?;
            }
            q.end()
        }
        Node::Record(id, sized, fs) => {
            let r = id.with(|t, l, i| s.record_begin(t.cloned(), l.cloned(), i.cloned(), sized.then_some(fs.len())))?;
            hand_record(r, fs, how)
        }
        Node::Tuple(id, sized, fs) => {
            let r = id.with(|t, l, i| s.tuple_begin(t.cloned(), l.cloned(), i.cloned(), sized.then_some(fs.len())))?;
            hand_tuple(r, fs, how)
        }
        Node::Tag(id) => id.with(|t, l, i| s.tag(t.cloned(), l.cloned(), i.cloned())),
        Node::Tagged(id, c) => id.with(|t, l, i| give!(how(), s, tagged, tagged_ref, tagged_computed, (t.cloned(), l.cloned(), i.cloned()), &c.node)),
        Node::Enum(id, c) => {
            let e = id.with(|t, l, i| s.enum_begin(t.cloned(), l.cloned(), i.cloned()))?;
            hand_enum(e, c.as_deref(), how)
        }
        Node::RecordTuple(..) | Node::Hint(..) => s.value_ref(n),
    }
}
/// Calling the recursive interface by hand, with children given by value, by reference or as short-lived, is the same
/// as streaming the whole value.
fn by_hand(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_val(g);
    if !can_hand(&n) {
        return Ok(());
    }
    let sem = n.sem();
    super::note(st, &sem);
    let hows: Vec<u64> = (0..16).map(|_| g.below(5)).collect();
    let mut k = 0;
    let mut how = || {
        k += 1;
        hows[k % hows.len()]
    };
    let bad = inexpressible(&n);
    let l = new_log(g);
    let full = hand(Full(l.clone()), &n, &mut how).map(|s| lower_rt(&s));
    let min = hand(Min, &n, &mut how);
    st.events += l.borrow().calls as u64;
    if let Some(p) = &l.borrow().problem {
        return Err(format!("{p}\n value {n:?}"));
    }
    for (what, got, want) in [("a full recursive stream", full, lower_rt(&sem)), ("a minimal recursive stream", min, lower_min(&sem))] {
        match got {
            Ok(s) if s == want => st.count("by_hand", 1),
            Ok(s) => return Err(format!("{what} called directly saw\n {s:?}\nwanted\n {want:?}\n delivered as {n:?} by {hows:?}")),
            Err(_) if bad || NOALLOC => (),
            Err(e) => return Err(format!("{what} called directly failed ({e:?}): {n:?} by {hows:?}")),
        }
    }
    Ok(())
}

/// The recorder's own error comes back at once, whatever it is raised from.
fn failing(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_val(g);
    let mk = |fail: Option<usize>, style: u64| Rc::new(RefCell::new(Log { style, fail_at: fail, ..Default::default() }));
    let style = if g.bool() { u64::MAX / 3 * 2 } else { g.u64() };
    let entry = g.below(2);
    let go = |l: &L| {
        if entry == 0 {
            sval_nested::stream_ref(Full(l.clone()), &n)
        } else {
            sval_nested::stream_computed(Full(l.clone()), &n)
        }
    };
    let l = mk(None, style);
    let ok = go(&l).is_ok();
    let total = l.borrow().calls;
    for _ in 0..4 {
        let k = g.idx(total.max(1));
        if k >= total {
            break;
        }
        let l = mk(Some(k), style);
        let r = go(&l);
        let l = l.borrow();
        st.events += l.calls as u64;
        if r.is_ok() {
            return Err(format!("callback {k} of {total} failed but the caller got {r:?} for {n:?}"));
        }
        if l.after_failure > 0 {
            return Err(format!("{} callbacks after callback {k} of {total} had failed, for {n:?}", l.after_failure));
        }
        if !l.failed {
            return Err(format!("HARNESS: callback {k} of {total} never came for {n:?}"));
        }
        st.count("failing_streams", 1);
    }
    // a value that fails by itself, at any point
    for _ in 0..4 {
        let k = g.idx(2 * n.size() + 1);
        let l = mk(None, style);
        arm(k);
        let r = go(&l);
        let blown = disarm();
        if blown && r.is_ok() {
            return Err(format!("the value failed (step {k}) but the caller got {r:?} for {n:?}"));
        }
        if !blown && r.is_ok() != ok {
            return Err(format!("{r:?} for {n:?}, earlier the result was ok={ok}"));
        }
        if blown {
            st.count("failing_values", 1);
        }
    }
    Ok(())
}

/// Ill-formed calls (an enum around a bare scalar, sequence or map) are rejected.
fn odd_enum(g: &mut Gen, st: &mut Stats) -> R {
    let cfg = Cfg::full();
    let mut inner = gen_node(g, &Cfg { budget: 8, ..cfg.clone() });
    while matches!(inner, Node::Tag(..) | Node::Tagged(..) | Node::Record(..) | Node::Tuple(..) | Node::RecordTuple(..) | Node::Enum(..) | Node::Hint(..)) {
        inner = gen_bare(g);
    }
    let via = |g: &mut Gen| *g.pick(&[Via::Value, Via::Inline, Via::Computed]);
    let mut n = Node::Enum(gen_id(g, &cfg), Some(Box::new(Child { via: via(g), node: inner })));
    if g.bool() {
        n = Node::Enum(gen_id(g, &cfg), Some(Box::new(Child { via: via(g), node: n })));
    }
    super::note(st, &n.sem());
    let l = new_log(g);
    let r = drive(g, &l, &n);
    st.events += l.borrow().calls as u64;
    if let Ok(s) = r {
        return Err(format!("an enum holding a value without a tag was accepted as {s:?}: {n:?}"));
    }
    st.count("rejected_odd", 1);
    Ok(())
}
fn gen_bare(g: &mut Gen) -> Node {
    match g.below(6) {
        0 => Node::Null,
        1 => Node::Bool(g.bool()),
        2 => Node::I(W::W32, 5),
        3 => gen_text(g, &Cfg::full(), "abc"),
        4 => Node::Seq(true, vec![Child { via: Via::Inline, node: Node::Null }]),
        _ => Node::Map(true, vec![]),
    }
}

/// Values that don't keep to the protocol: nothing to be said about what is seen of them, but they are no reason to
/// panic, and one that breaks off is no success.
fn broken(g: &mut Gen, st: &mut Stats) -> R {
    let (v, lost) = super::r::gen_broken(g, &Cfg { empty_enum: true, ..Cfg::full() })?;
    st.events += v.play.ev.len() as u64;
    st.count("broken", 1);
    let l = new_log(g);
    let s = Full(l.clone());
    let full = match g.below(3) {
        0 => sval_nested::stream_ref(s, &v),
        1 => sval_nested::stream_computed(s, &v),
        _ => sval_nested::stream(s, sval_ref::to_ref(&v)),
    };
    let min = match g.below(2) {
        0 => sval_nested::stream_ref(Min, &v),
        _ => sval_nested::stream_computed(Min, &v),
    };
    if lost {
        st.count("broken_off", 1);
        for r in [full, min] {
            if let Ok(r) = r {
                return Err(format!("a value that breaks off is a success, {r:?}: {:?}", v.play.ev));
            }
        }
    }
    Ok(())
}

pub static N01: Prop = Prop {
    id: "N01",
    rule: "distinct = value shapes (structure, widths, label/index/tag presence) whose recursive reading was compared with the data",
    assumptions: &["tag hints are documented to be discarded by the recursive interface"],
    level: "exploration",
    subs: &[
        Sub { name: "faithful", weight: 4, f: faithful, once: false },
        Sub { name: "minimal", weight: 2, f: minimal, once: false },
        Sub { name: "by_hand", weight: 2, f: by_hand, once: false },
        Sub { name: "failing", weight: 2, f: failing, once: false },
        Sub { name: "odd_enum", weight: 1, f: odd_enum, once: false },
        Sub { name: "broken", weight: 1, f: broken, once: false },
    ],
    must_see: if NOALLOC { &["delivered", "noalloc_rejected", "minimal", "by_hand", "failing_streams", "failing_values", "rejected_odd", "broken_off"] } else { &["delivered", "rejected_inexpressible", "minimal", "by_hand", "failing_streams", "failing_values", "rejected_odd", "broken_off"] },
};
