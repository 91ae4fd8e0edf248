//! Recording streams: the monitors' eyes. `Rec` writes down every call it receives (with arguments, borrowed /
//! computed flavour, addresses and staticness of labels), can reject a chosen call, and counts calls made after a
//! rejection. `MaskRec` implements a chosen subset of the optional interface and leaves the rest to the defaults.

use crate::tree::*;
use sval::{Index, Label, Stream, Tag};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    Null,
    Bool(bool),
    TextBegin(Option<usize>),
    /// text, borrowed
    TextFrag(String, bool),
    TextEnd,
    BinBegin(Option<usize>),
    BinFrag(Vec<u8>, bool),
    BinEnd,
    U(W, u128),
    I(W, i128),
    F32(u32),
    F64(u64),
    MapBegin(Option<usize>),
    KeyBegin,
    KeyEnd,
    ValBegin,
    ValEnd,
    MapEnd,
    SeqBegin(Option<usize>),
    ElBegin,
    ElEnd,
    SeqEnd,
    EnumBegin(Id),
    EnumEnd(Id),
    TaggedBegin(Id),
    TaggedEnd(Id),
    Tag(Id),
    Hint(u8),
    RecBegin(Id, Option<usize>),
    RecValBegin(Option<u8>, Lab),
    RecValEnd(Option<u8>, Lab),
    RecEnd(Id),
    TupBegin(Id, Option<usize>),
    TupValBegin(Option<u8>, Idx),
    TupValEnd(Option<u8>, Idx),
    TupEnd(Id),
    RTBegin(Id, Option<usize>),
    RTValBegin(Option<u8>, Lab, Idx),
    RTValEnd(Option<u8>, Lab, Idx),
    RTEnd(Id),
}

pub fn idx_of(i: &Index) -> Idx {
    let n = if let Some(x) = i.to_i64() { x as i128 } else if let Some(x) = i.to_u64() { x as i128 } else { i128::MIN };
    Idx { n, tag: i.tag().map(tag_id) }
}
pub fn lab_of(l: &Label) -> Lab {
    Lab { text: l.as_str().to_string(), tag: l.tag().map(tag_id) }
}
pub fn id_of(tag: Option<&Tag>, label: Option<&Label>, index: Option<&Index>) -> Id {
    Id { tag: tag.map(tag_id), label: label.map(lab_of), index: index.map(idx_of) }
}

#[derive(Default, Debug, Clone)]
pub struct Rec {
    pub ev: Vec<Ev>,
    /// (event number, address, length) of every fragment received as borrowed
    pub borrowed: Vec<(usize, usize, usize)>,
    /// for every label received: does it claim to be static?
    pub stat: Vec<bool>,
    /// a label whose static form differs from its text
    pub bad_static: Option<String>,
    /// reject the call with this number
    pub fail_at: Option<usize>,
    pub failed: bool,
    pub after_failure: usize,
    pub value_calls: usize,
    pub computed_calls: usize,
    /// stop accepting (out of budget): guards against runaway streams
    pub limit: usize,
}

impl Rec {
    pub fn new() -> Rec {
        Rec { limit: 2_000_000, ..Default::default() }
    }
    pub fn failing(at: usize) -> Rec {
        Rec { fail_at: Some(at), ..Rec::new() }
    }
    pub fn put(&mut self, e: Ev) -> sval::Result {
        if self.failed {
            self.after_failure += 1;
            return sval::error();
        }
        if self.fail_at == Some(self.ev.len()) {
            self.failed = true;
            return sval::error();
        }
        if self.ev.len() >= self.limit {
            self.failed = true;
            return sval::error();
        }
        self.ev.push(e);
        Ok(())
    }
    pub fn label(&mut self, l: Option<&Label>) {
        if let Some(l) = l {
            let s = l.as_static_str();
            self.stat.push(s.is_some());
            if let Some(s) = s {
                if s != l.as_str() {
                    self.bad_static = Some(format!("label {:?} has static form {:?}", l.as_str(), s));
                }
            }
        }
    }
}

impl<'sval> Stream<'sval> for Rec {
    fn value<V: sval::Value + ?Sized>(&mut self, v: &'sval V) -> sval::Result {
        self.value_calls += 1;
        v.stream(self)
    }
    fn value_computed<V: sval::Value + ?Sized>(&mut self, v: &V) -> sval::Result {
        self.computed_calls += 1;
        sval::default_stream::value_computed(self, v)
    }
    fn null(&mut self) -> sval::Result {
        self.put(Ev::Null)
    }
    fn bool(&mut self, v: bool) -> sval::Result {
        self.put(Ev::Bool(v))
    }
    fn text_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.put(Ev::TextBegin(n))
    }
    fn text_fragment(&mut self, f: &'sval str) -> sval::Result {
        self.borrowed.push((self.ev.len(), f.as_ptr() as usize, f.len()));
        self.put(Ev::TextFrag(f.to_string(), true))
    }
    fn text_fragment_computed(&mut self, f: &str) -> sval::Result {
        self.put(Ev::TextFrag(f.to_string(), false))
    }
    fn text_end(&mut self) -> sval::Result {
        self.put(Ev::TextEnd)
    }
    fn binary_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.put(Ev::BinBegin(n))
    }
    fn binary_fragment(&mut self, f: &'sval [u8]) -> sval::Result {
        self.borrowed.push((self.ev.len(), f.as_ptr() as usize, f.len()));
        self.put(Ev::BinFrag(f.to_vec(), true))
    }
    fn binary_fragment_computed(&mut self, f: &[u8]) -> sval::Result {
        self.put(Ev::BinFrag(f.to_vec(), false))
    }
    fn binary_end(&mut self) -> sval::Result {
        self.put(Ev::BinEnd)
    }
    fn u8(&mut self, v: u8) -> sval::Result {
        self.put(Ev::U(W::W8, v as u128))
    }
    fn u16(&mut self, v: u16) -> sval::Result {
        self.put(Ev::U(W::W16, v as u128))
    }
    fn u32(&mut self, v: u32) -> sval::Result {
        self.put(Ev::U(W::W32, v as u128))
    }
    fn u64(&mut self, v: u64) -> sval::Result {
        self.put(Ev::U(W::W64, v as u128))
    }
    fn u128(&mut self, v: u128) -> sval::Result {
        self.put(Ev::U(W::W128, v))
    }
    fn i8(&mut self, v: i8) -> sval::Result {
        self.put(Ev::I(W::W8, v as i128))
    }
    fn i16(&mut self, v: i16) -> sval::Result {
        self.put(Ev::I(W::W16, v as i128))
    }
    fn i32(&mut self, v: i32) -> sval::Result {
        self.put(Ev::I(W::W32, v as i128))
    }
    fn i64(&mut self, v: i64) -> sval::Result {
        self.put(Ev::I(W::W64, v as i128))
    }
    fn i128(&mut self, v: i128) -> sval::Result {
        self.put(Ev::I(W::W128, v))
    }
    fn f32(&mut self, v: f32) -> sval::Result {
        self.put(Ev::F32(v.to_bits()))
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        self.put(Ev::F64(v.to_bits()))
    }
    fn map_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.put(Ev::MapBegin(n))
    }
    fn map_key_begin(&mut self) -> sval::Result {
        self.put(Ev::KeyBegin)
    }
    fn map_key_end(&mut self) -> sval::Result {
        self.put(Ev::KeyEnd)
    }
    fn map_value_begin(&mut self) -> sval::Result {
        self.put(Ev::ValBegin)
    }
    fn map_value_end(&mut self) -> sval::Result {
        self.put(Ev::ValEnd)
    }
    fn map_end(&mut self) -> sval::Result {
        self.put(Ev::MapEnd)
    }
    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.put(Ev::SeqBegin(n))
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.put(Ev::ElBegin)
    }
    fn seq_value_end(&mut self) -> sval::Result {
        self.put(Ev::ElEnd)
    }
    fn seq_end(&mut self) -> sval::Result {
        self.put(Ev::SeqEnd)
    }
    fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        self.label(l);
        self.put(Ev::EnumBegin(id_of(t, l, i)))
    }
    fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        self.label(l);
        self.put(Ev::EnumEnd(id_of(t, l, i)))
    }
    fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        self.label(l);
        self.put(Ev::TaggedBegin(id_of(t, l, i)))
    }
    fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        self.label(l);
        self.put(Ev::TaggedEnd(id_of(t, l, i)))
    }
    fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        self.label(l);
        self.put(Ev::Tag(id_of(t, l, i)))
    }
    fn tag_hint(&mut self, t: &Tag) -> sval::Result {
        self.put(Ev::Hint(tag_id(t)))
    }
    fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        self.label(l);
        self.put(Ev::RecBegin(id_of(t, l, i), n))
    }
    fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result {
        self.label(Some(l));
        self.put(Ev::RecValBegin(t.map(tag_id), lab_of(l)))
    }
    fn record_value_end(&mut self, t: Option<&Tag>, l: &Label) -> sval::Result {
        self.label(Some(l));
        self.put(Ev::RecValEnd(t.map(tag_id), lab_of(l)))
    }
    fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        self.label(l);
        self.put(Ev::RecEnd(id_of(t, l, i)))
    }
    fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        self.label(l);
        self.put(Ev::TupBegin(id_of(t, l, i), n))
    }
    fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result {
        self.put(Ev::TupValBegin(t.map(tag_id), idx_of(i)))
    }
    fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index) -> sval::Result {
        self.put(Ev::TupValEnd(t.map(tag_id), idx_of(i)))
    }
    fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        self.label(l);
        self.put(Ev::TupEnd(id_of(t, l, i)))
    }
    fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>) -> sval::Result {
        self.label(l);
        self.put(Ev::RTBegin(id_of(t, l, i), n))
    }
    fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result {
        self.label(Some(l));
        self.put(Ev::RTValBegin(t.map(tag_id), lab_of(l), idx_of(i)))
    }
    fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index) -> sval::Result {
        self.label(Some(l));
        self.put(Ev::RTValEnd(t.map(tag_id), lab_of(l), idx_of(i)))
    }
    fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>) -> sval::Result {
        self.label(l);
        self.put(Ev::RTEnd(id_of(t, l, i)))
    }
}

// ---------------------------------------------------------------------------------------------
// The expected calls for a `Node`, computed from the data alone.

#[derive(Default)]
pub struct Expected {
    pub ev: Vec<Ev>,
    pub stat: Vec<bool>,
}

pub fn expected(n: &Node) -> Expected {
    let mut e = Expected::default();
    exp_node(n, false, &mut e);
    e
}
fn exp_lab(l: &Option<NLab>, e: &mut Expected) {
    if let Some(l) = l {
        e.stat.push(l.kind == LK::Static);
    }
}
fn exp_child(c: &Child, computed: bool, e: &mut Expected) {
    exp_node(&c.node, computed || c.via == Via::Computed, e)
}
pub fn exp_node(n: &Node, computed: bool, e: &mut Expected) {
    match n {
        Node::Null => e.ev.push(Ev::Null),
        Node::Bool(b) => e.ev.push(Ev::Bool(*b)),
        Node::Text(fr, sized) => {
            e.ev.push(Ev::TextBegin(if *sized { Some(fr.iter().map(|f| f.0.len()).sum()) } else { None }));
            for (f, c) in fr {
                e.ev.push(Ev::TextFrag(f.clone(), !(computed || *c)));
            }
            e.ev.push(Ev::TextEnd);
        }
        Node::Bin(fr, sized) => {
            e.ev.push(Ev::BinBegin(if *sized { Some(fr.iter().map(|f| f.0.len()).sum()) } else { None }));
            for (f, c) in fr {
                e.ev.push(Ev::BinFrag(f.clone(), !(computed || *c)));
            }
            e.ev.push(Ev::BinEnd);
        }
        Node::U(w, v) => e.ev.push(Ev::U(*w, *v)),
        Node::I(w, v) => e.ev.push(Ev::I(*w, *v)),
        Node::F32(b) => e.ev.push(Ev::F32(*b)),
        Node::F64(b) => e.ev.push(Ev::F64(*b)),
        Node::Map(sized, es) => {
            e.ev.push(Ev::MapBegin(if *sized { Some(es.len()) } else { None }));
            for (k, v) in es {
                e.ev.push(Ev::KeyBegin);
                exp_child(k, computed, e);
                e.ev.push(Ev::KeyEnd);
                e.ev.push(Ev::ValBegin);
                exp_child(v, computed, e);
                e.ev.push(Ev::ValEnd);
            }
            e.ev.push(Ev::MapEnd);
        }
        Node::Seq(sized, es) => {
            e.ev.push(Ev::SeqBegin(if *sized { Some(es.len()) } else { None }));
            for v in es {
                e.ev.push(Ev::ElBegin);
                exp_child(v, computed, e);
                e.ev.push(Ev::ElEnd);
            }
            e.ev.push(Ev::SeqEnd);
        }
        Node::Enum(id, inner) => {
            exp_lab(&id.label, e);
            e.ev.push(Ev::EnumBegin(id.data()));
            if let Some(c) = inner {
                exp_child(c, computed, e);
            }
            exp_lab(&id.label, e);
            e.ev.push(Ev::EnumEnd(id.data()));
        }
        Node::Tagged(id, c) => {
            exp_lab(&id.label, e);
            e.ev.push(Ev::TaggedBegin(id.data()));
            exp_child(c, computed, e);
            exp_lab(&id.label, e);
            e.ev.push(Ev::TaggedEnd(id.data()));
        }
        Node::Tag(id) => {
            exp_lab(&id.label, e);
            e.ev.push(Ev::Tag(id.data()));
        }
        Node::Record(id, sized, fs) => {
            exp_lab(&id.label, e);
            e.ev.push(Ev::RecBegin(id.data(), if *sized { Some(fs.len()) } else { None }));
            for (t, l, c) in fs {
                e.stat.push(l.kind == LK::Static);
                e.ev.push(Ev::RecValBegin(*t, l.data()));
                exp_child(c, computed, e);
                e.stat.push(l.kind == LK::Static);
                e.ev.push(Ev::RecValEnd(*t, l.data()));
            }
            exp_lab(&id.label, e);
            e.ev.push(Ev::RecEnd(id.data()));
        }
        Node::Tuple(id, sized, fs) => {
            exp_lab(&id.label, e);
            e.ev.push(Ev::TupBegin(id.data(), if *sized { Some(fs.len()) } else { None }));
            for (t, x, c) in fs {
                e.ev.push(Ev::TupValBegin(*t, x.clone()));
                exp_child(c, computed, e);
                e.ev.push(Ev::TupValEnd(*t, x.clone()));
            }
            exp_lab(&id.label, e);
            e.ev.push(Ev::TupEnd(id.data()));
        }
        Node::RecordTuple(id, sized, fs) => {
            exp_lab(&id.label, e);
            e.ev.push(Ev::RTBegin(id.data(), if *sized { Some(fs.len()) } else { None }));
            for (t, l, x, c) in fs {
                e.stat.push(l.kind == LK::Static);
                e.ev.push(Ev::RTValBegin(*t, l.data(), x.clone()));
                exp_child(c, computed, e);
                e.stat.push(l.kind == LK::Static);
                e.ev.push(Ev::RTValEnd(*t, l.data(), x.clone()));
            }
            exp_lab(&id.label, e);
            e.ev.push(Ev::RTEnd(id.data()));
        }
        Node::Hint(t, n) => {
            e.ev.push(Ev::Hint(*t));
            exp_node(n, computed, e);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Protocol monitor: events -> data, checking nesting, pairing and size hints on the way.

pub struct Parse<'a> {
    ev: &'a [Ev],
    at: usize,
    pub hints: usize,
    pub check_sizes: bool,
}

/// Check that `ev` is exactly one well-formed value and return its data.
pub fn parse(ev: &[Ev]) -> Result<Sem, String> {
    parse_opt(ev, true)
}
/// Without `check_sizes`, neither size hints nor what may stand in an enum are judged.
pub fn parse_opt(ev: &[Ev], check_sizes: bool) -> Result<Sem, String> {
    let mut p = Parse { ev, at: 0, hints: 0, check_sizes };
    let v = p.value()?;
    p.skip_hints();
    if p.at != ev.len() {
        return Err(format!("calls after the end of the value: #{} {:?}", p.at, ev[p.at]));
    }
    Ok(v)
}

impl<'a> Parse<'a> {
    fn skip_hints(&mut self) {
        while let Some(Ev::Hint(_)) = self.ev.get(self.at) {
            self.at += 1;
            self.hints += 1;
        }
    }
    fn next(&mut self) -> Result<&'a Ev, String> {
        self.skip_hints();
        let e = self.ev.get(self.at).ok_or_else(|| "stream ended early".to_string())?;
        self.at += 1;
        Ok(e)
    }
    fn peek(&mut self) -> Option<&'a Ev> {
        self.skip_hints();
        self.ev.get(self.at)
    }
    fn expect(&mut self, want: &Ev) -> Result<(), String> {
        let at = self.at;
        let e = self.next()?;
        if e == want {
            Ok(())
        } else {
            Err(format!("call #{at}: got {e:?}, expected {want:?}"))
        }
    }
    fn size(&self, what: &str, hint: &Option<usize>, n: usize) -> Result<(), String> {
        match hint {
            Some(h) if *h != n && self.check_sizes => Err(format!("{what}: size hint {h} but {n} seen")),
            _ => Ok(()),
        }
    }
    fn value(&mut self) -> Result<Sem, String> {
        let at = self.at;
        Ok(match self.next()? {
            Ev::Null => Sem::Null,
            Ev::Bool(b) => Sem::Bool(*b),
            Ev::U(w, v) => Sem::U(*w, *v),
            Ev::I(w, v) => Sem::I(*w, *v),
            Ev::F32(b) => Sem::F32(*b),
            Ev::F64(b) => Sem::F64(*b),
            Ev::Tag(id) => Sem::Tag(id.clone()),
            Ev::TextBegin(n) => {
                let mut s = String::new();
                loop {
                    match self.next()? {
                        Ev::TextFrag(f, _) => s.push_str(f),
                        Ev::TextEnd => break,
                        e => return Err(format!("{e:?} inside text")),
                    }
                }
                self.size("text", n, s.len())?;
                Sem::Text(s)
            }
            Ev::BinBegin(n) => {
                let mut s = Vec::new();
                loop {
                    match self.next()? {
                        Ev::BinFrag(f, _) => s.extend_from_slice(f),
                        Ev::BinEnd => break,
                        e => return Err(format!("{e:?} inside binary")),
                    }
                }
                self.size("binary", n, s.len())?;
                Sem::Bin(s)
            }
            Ev::MapBegin(n) => {
                let mut es = Vec::new();
                loop {
                    match self.next()? {
                        Ev::KeyBegin => (),
                        Ev::MapEnd => break,
                        e => return Err(format!("{e:?} directly inside map")),
                    }
                    let k = self.value()?;
                    self.expect(&Ev::KeyEnd)?;
                    self.expect(&Ev::ValBegin)?;
                    let v = self.value()?;
                    self.expect(&Ev::ValEnd)?;
                    es.push((k, v));
                }
                self.size("map", n, es.len())?;
                Sem::Map(es)
            }
            Ev::SeqBegin(n) => {
                let mut es = Vec::new();
                loop {
                    match self.next()? {
                        Ev::ElBegin => (),
                        Ev::SeqEnd => break,
                        e => return Err(format!("{e:?} directly inside seq")),
                    }
                    es.push(self.value()?);
                    self.expect(&Ev::ElEnd)?;
                }
                self.size("seq", n, es.len())?;
                Sem::Seq(es)
            }
            Ev::EnumBegin(id) => {
                let inner = if self.peek() == Some(&Ev::EnumEnd(id.clone())) { None } else { Some(Box::new(self.value()?)) };
                self.expect(&Ev::EnumEnd(id.clone()))?;
                if let Some(v) = &inner {
                    if self.check_sizes && !matches!(**v, Sem::Tag(_) | Sem::Tagged(..) | Sem::Record(..) | Sem::Tuple(..) | Sem::RecordTuple(..) | Sem::Enum(..)) {
                        return Err(format!("{v:?} directly inside enum"));
                    }
                }
                Sem::Enum(id.clone(), inner)
            }
            Ev::TaggedBegin(id) => {
                let v = self.value()?;
                self.expect(&Ev::TaggedEnd(id.clone()))?;
                Sem::Tagged(id.clone(), Box::new(v))
            }
            Ev::RecBegin(id, n) => {
                let mut fs = Vec::new();
                loop {
                    match self.next()? {
                        Ev::RecValBegin(t, l) => {
                            let v = self.value()?;
                            self.expect(&Ev::RecValEnd(*t, l.clone()))?;
                            fs.push((*t, l.clone(), v));
                        }
                        Ev::RecEnd(e) if e == id => break,
                        e => return Err(format!("{e:?} directly inside record")),
                    }
                }
                self.size("record", n, fs.len())?;
                Sem::Record(id.clone(), fs)
            }
            Ev::TupBegin(id, n) => {
                let mut fs = Vec::new();
                loop {
                    match self.next()? {
                        Ev::TupValBegin(t, i) => {
                            let v = self.value()?;
                            self.expect(&Ev::TupValEnd(*t, i.clone()))?;
                            fs.push((*t, i.clone(), v));
                        }
                        Ev::TupEnd(e) if e == id => break,
                        e => return Err(format!("{e:?} directly inside tuple")),
                    }
                }
                self.size("tuple", n, fs.len())?;
                Sem::Tuple(id.clone(), fs)
            }
            Ev::RTBegin(id, n) => {
                let mut fs = Vec::new();
                loop {
                    match self.next()? {
                        Ev::RTValBegin(t, l, i) => {
                            let v = self.value()?;
                            self.expect(&Ev::RTValEnd(*t, l.clone(), i.clone()))?;
                            fs.push((*t, l.clone(), i.clone(), v));
                        }
                        Ev::RTEnd(e) if e == id => break,
                        e => return Err(format!("{e:?} directly inside record tuple")),
                    }
                }
                self.size("record tuple", n, fs.len())?;
                Sem::RecordTuple(id.clone(), fs)
            }
            e => return Err(format!("call #{at}: unexpected {e:?}")),
        })
    }
}

/// First difference of two call sequences, for messages.
pub fn diff(got: &[Ev], want: &[Ev]) -> Option<String> {
    for i in 0..got.len().max(want.len()) {
        if got.get(i) != want.get(i) {
            return Some(format!("call #{i}: got {:?}, expected {:?}", got.get(i), want.get(i)));
        }
    }
    None
}

/// Merge adjacent fragments, drop empty ones, hints and flavour: what must survive any faithful adapter.
pub fn norm(ev: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    for e in ev {
        match e {
            Ev::TextFrag(s, _) => {
                if s.is_empty() {
                    continue;
                }
                if let Some(Ev::TextFrag(p, _)) = out.last_mut() {
                    p.push_str(s);
                } else {
                    out.push(Ev::TextFrag(s.clone(), false));
                }
            }
            Ev::BinFrag(s, _) => {
                if s.is_empty() {
                    continue;
                }
                if let Some(Ev::BinFrag(p, _)) = out.last_mut() {
                    p.extend_from_slice(s);
                } else {
                    out.push(Ev::BinFrag(s.clone(), false));
                }
            }
            Ev::Hint(_) => (),
            e => out.push(e.clone()),
        }
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Driving recorded calls into a stream.

fn with_id<R>(i: &Id, f: impl FnOnce(Option<&Tag>, Option<&Label>, Option<&Index>) -> R) -> R {
    let ix = i.index.as_ref().map(mk_index);
    match &i.label {
        Some(l) => with_lab(l, |l| f(i.tag.map(tag_ref), Some(l), ix.as_ref())),
        None => f(i.tag.map(tag_ref), None, ix.as_ref()),
    }
}
fn with_lab<R>(l: &Lab, f: impl FnOnce(&Label) -> R) -> R {
    let x = Label::new_computed(&l.text);
    match l.tag {
        Some(t) => f(&x.with_tag(tag_ref(t))),
        None => f(&x),
    }
}
pub fn drive_one<'sval, S: Stream<'sval> + ?Sized>(e: &'sval Ev, s: &mut S) -> sval::Result {
    match e {
        Ev::Null => s.null(),
        Ev::Bool(b) => s.bool(*b),
        Ev::TextBegin(n) => s.text_begin(*n),
        Ev::TextFrag(t, true) => s.text_fragment(t),
        Ev::TextFrag(t, false) => s.text_fragment_computed(t),
        Ev::TextEnd => s.text_end(),
        Ev::BinBegin(n) => s.binary_begin(*n),
        Ev::BinFrag(t, true) => s.binary_fragment(t),
        Ev::BinFrag(t, false) => s.binary_fragment_computed(t),
        Ev::BinEnd => s.binary_end(),
        Ev::U(w, v) => match w {
            W::W8 => s.u8(*v as u8),
            W::W16 => s.u16(*v as u16),
            W::W32 => s.u32(*v as u32),
            W::W64 => s.u64(*v as u64),
            W::W128 => s.u128(*v),
        },
        Ev::I(w, v) => match w {
            W::W8 => s.i8(*v as i8),
            W::W16 => s.i16(*v as i16),
            W::W32 => s.i32(*v as i32),
            W::W64 => s.i64(*v as i64),
            W::W128 => s.i128(*v),
        },
        Ev::F32(b) => s.f32(f32::from_bits(*b)),
        Ev::F64(b) => s.f64(f64::from_bits(*b)),
        Ev::MapBegin(n) => s.map_begin(*n),
        Ev::KeyBegin => s.map_key_begin(),
        Ev::KeyEnd => s.map_key_end(),
        Ev::ValBegin => s.map_value_begin(),
        Ev::ValEnd => s.map_value_end(),
        Ev::MapEnd => s.map_end(),
        Ev::SeqBegin(n) => s.seq_begin(*n),
        Ev::ElBegin => s.seq_value_begin(),
        Ev::ElEnd => s.seq_value_end(),
        Ev::SeqEnd => s.seq_end(),
        Ev::EnumBegin(i) => with_id(i, |t, l, i| s.enum_begin(t, l, i)),
        Ev::EnumEnd(i) => with_id(i, |t, l, i| s.enum_end(t, l, i)),
        Ev::TaggedBegin(i) => with_id(i, |t, l, i| s.tagged_begin(t, l, i)),
        Ev::TaggedEnd(i) => with_id(i, |t, l, i| s.tagged_end(t, l, i)),
        Ev::Tag(i) => with_id(i, |t, l, i| s.tag(t, l, i)),
        Ev::Hint(t) => s.tag_hint(tag_ref(*t)),
        Ev::RecBegin(i, n) => with_id(i, |t, l, i| s.record_begin(t, l, i, *n)),
        Ev::RecValBegin(t, l) => with_lab(l, |l| s.record_value_begin(t.map(tag_ref), l)),
        Ev::RecValEnd(t, l) => with_lab(l, |l| s.record_value_end(t.map(tag_ref), l)),
        Ev::RecEnd(i) => with_id(i, |t, l, i| s.record_end(t, l, i)),
        Ev::TupBegin(i, n) => with_id(i, |t, l, i| s.tuple_begin(t, l, i, *n)),
        Ev::TupValBegin(t, x) => s.tuple_value_begin(t.map(tag_ref), &mk_index(x)),
        Ev::TupValEnd(t, x) => s.tuple_value_end(t.map(tag_ref), &mk_index(x)),
        Ev::TupEnd(i) => with_id(i, |t, l, i| s.tuple_end(t, l, i)),
        Ev::RTBegin(i, n) => with_id(i, |t, l, i| s.record_tuple_begin(t, l, i, *n)),
        Ev::RTValBegin(t, l, x) => with_lab(l, |l| s.record_tuple_value_begin(t.map(tag_ref), l, &mk_index(x))),
        Ev::RTValEnd(t, l, x) => with_lab(l, |l| s.record_tuple_value_end(t.map(tag_ref), l, &mk_index(x))),
        Ev::RTEnd(i) => with_id(i, |t, l, i| s.record_tuple_end(t, l, i)),
    }
}
/// A value that makes the given calls and then succeeds or fails.
pub struct Play {
    pub ev: Vec<Ev>,
    pub fail: bool,
}
impl sval::Value for Play {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        for e in &self.ev {
            drive_one(e, s)?;
        }
        if self.fail {
            sval::error()
        } else {
            Ok(())
        }
    }
}

/// Everything a recorder is told about a value.
pub fn record<V: sval::Value + ?Sized>(v: &V) -> Result<Rec, String> {
    let mut r = Rec::new();
    v.stream(&mut r).map_err(|_| "streaming a value into a stream that accepts everything failed".to_string())?;
    if let Some(b) = r.bad_static.take() {
        return Err(b);
    }
    Ok(r)
}

/// Tag hints are allowed anywhere and must never matter: put some in.
pub fn sprinkle(g: &mut crate::gen::Gen, ev: &[Ev]) -> Vec<Ev> {
    let mut out = Vec::with_capacity(ev.len() + 4);
    let den = 2 + g.below(ev.len() as u64 + 1);
    for e in ev {
        if g.chance(1, den) {
            out.push(Ev::Hint(g.below(10) as u8));
        }
        out.push(e.clone());
    }
    if g.chance(1, 6) {
        out.push(Ev::Hint(g.below(10) as u8));
    }
    out
}
/// Like `norm` but hints stay, and the (redundant) sizes of text and binary go.
pub fn norm_hints(ev: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    for e in ev {
        match e {
            Ev::TextFrag(s, _) if s.is_empty() => (),
            Ev::BinFrag(s, _) if s.is_empty() => (),
            Ev::TextFrag(s, _) => {
                if let Some(Ev::TextFrag(p, _)) = out.last_mut() {
                    p.push_str(s);
                } else {
                    out.push(Ev::TextFrag(s.clone(), false));
                }
            }
            Ev::BinFrag(s, _) => {
                if let Some(Ev::BinFrag(p, _)) = out.last_mut() {
                    p.extend_from_slice(s);
                } else {
                    out.push(Ev::BinFrag(s.clone(), false));
                }
            }
            Ev::TextBegin(_) => out.push(Ev::TextBegin(None)),
            Ev::BinBegin(_) => out.push(Ev::BinBegin(None)),
            e => out.push(e.clone()),
        }
    }
    out
}
pub fn hints(ev: &[Ev]) -> Vec<u8> {
    ev.iter()
        .filter_map(|e| match e {
            Ev::Hint(t) => Some(*t),
            _ => None,
        })
        .collect()
}
pub fn no_hints(ev: &[Ev]) -> Vec<Ev> {
    ev.iter().filter(|e| !matches!(e, Ev::Hint(_))).cloned().collect()
}
