//! Random well-formed values. `Node` carries both the data and the way it is delivered to a stream
//! (fragment boundaries, borrowed / short-lived parts, size hints, tag hints); `Sem` is the data alone.

use crate::gen::Gen;
use sval::{Index, Label, Stream, Tag};

pub static CUSTOM1: Tag = Tag::new("vh::CUSTOM_1");
pub static CUSTOM2: Tag = Tag::new("vh::custom two");
pub static CUSTOM3: Tag = Tag::new("");

/// The tag table; events refer to tags by position in it.
pub fn tag_table() -> &'static [Tag; 13] {
    static T: std::sync::OnceLock<[Tag; 13]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        [
            CUSTOM1.clone(),
            CUSTOM2.clone(),
            CUSTOM3.clone(),
            sval::tags::RUST_OPTION_SOME,
            sval::tags::RUST_OPTION_NONE,
            sval::tags::RUST_UNIT,
            sval::tags::NUMBER,
            sval::tags::CONSTANT_SIZE,
            sval::tags::VALUE_IDENT,
            sval::tags::VALUE_OFFSET,
            sval_json::tags::JSON_TEXT,
            sval_json::tags::JSON_VALUE,
            sval_json::tags::JSON_NUMBER,
        ]
    })
}
pub const T_SOME: u8 = 3;
pub const T_NONE: u8 = 4;
pub const T_UNIT: u8 = 5;
pub const T_NUMBER: u8 = 6;
pub const T_CONST: u8 = 7;
pub const T_IDENT: u8 = 8;
pub const T_OFFSET: u8 = 9;
pub const T_JTEXT: u8 = 10;
pub const T_JVALUE: u8 = 11;
pub const T_JNUMBER: u8 = 12;

pub fn tag_ref(t: u8) -> &'static Tag {
    &tag_table()[t as usize]
}
pub fn tag_id(t: &Tag) -> u8 {
    tag_table().iter().position(|x| x == t).map(|i| i as u8).unwrap_or(255)
}

/// A label as data: text plus tag hint.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Lab {
    pub text: String,
    pub tag: Option<u8>,
}
/// An index as data.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Idx {
    pub n: i128,
    pub tag: Option<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Id {
    pub tag: Option<u8>,
    pub label: Option<Lab>,
    pub index: Option<Idx>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum W {
    W8,
    W16,
    W32,
    W64,
    W128,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Sem {
    Null,
    Bool(bool),
    Text(String),
    Bin(Vec<u8>),
    U(W, u128),
    I(W, i128),
    F32(u32),
    F64(u64),
    Map(Vec<(Sem, Sem)>),
    Seq(Vec<Sem>),
    Enum(Id, Option<Box<Sem>>),
    Tagged(Id, Box<Sem>),
    Tag(Id),
    Record(Id, Vec<(Option<u8>, Lab, Sem)>),
    Tuple(Id, Vec<(Option<u8>, Idx, Sem)>),
    RecordTuple(Id, Vec<(Option<u8>, Lab, Idx, Sem)>),
}

// ---------------------------------------------------------------------------------------------
// Delivery

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Via {
    /// `stream.value(child)`
    Value,
    /// `child.stream(stream)`: call by call
    Inline,
    /// `stream.value_computed(child)`
    Computed,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum LK {
    Static,
    Borrowed,
    Owned,
}

#[derive(Clone, Debug, PartialEq)]
pub struct NLab {
    pub text: String,
    pub kind: LK,
    pub tag: Option<u8>,
    pub stat: &'static str,
}
impl NLab {
    pub fn data(&self) -> Lab {
        Lab { text: self.text.clone(), tag: self.tag }
    }
    pub fn with<R>(&self, f: impl FnOnce(&Label) -> R) -> R {
        let l = match self.kind {
            LK::Static => Label::new(self.stat),
            LK::Borrowed => Label::new_computed(&self.text),
            #[cfg(not(feature = "noalloc"))]
            LK::Owned => Label::new_owned(self.text.clone()),
            #[cfg(feature = "noalloc")]
            LK::Owned => Label::new_computed(&self.text),
        };
        let l = match self.tag {
            Some(t) => l.with_tag(tag_ref(t)),
            None => l,
        };
        f(&l)
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct NId {
    pub tag: Option<u8>,
    pub label: Option<NLab>,
    pub index: Option<Idx>,
}
pub fn mk_index(i: &Idx) -> Index {
    let x = if i.n < 0 {
        Index::new_i64(i.n as i64)
    } else if i.n > i64::MAX as i128 {
        Index::new_u64(i.n as u64)
    } else {
        match i.n % 5 {
            0 => Index::new(i.n as usize),
            1 => Index::new_u64(i.n as u64),
            2 => Index::new_i64(i.n as i64),
            3 => Index::from(i.n as i64),
            _ => Index::new_isize(i.n as isize),
        }
    };
    match i.tag {
        Some(t) => x.with_tag(tag_ref(t)),
        None => x,
    }
}
impl NId {
    pub fn data(&self) -> Id {
        Id { tag: self.tag, label: self.label.as_ref().map(|l| l.data()), index: self.index.clone() }
    }
    pub fn with<R>(&self, f: impl FnOnce(Option<&Tag>, Option<&Label>, Option<&Index>) -> R) -> R {
        let tag = self.tag.map(tag_ref);
        let ix = self.index.as_ref().map(mk_index);
        match &self.label {
            Some(l) => l.with(|l| f(tag, Some(l), ix.as_ref())),
            None => f(tag, None, ix.as_ref()),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Child {
    pub via: Via,
    pub node: Node,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Null,
    Bool(bool),
    /// fragments with `computed` flag, and whether a size hint is given
    Text(Vec<(String, bool)>, bool),
    Bin(Vec<(Vec<u8>, bool)>, bool),
    U(W, u128),
    I(W, i128),
    F32(u32),
    F64(u64),
    Map(bool, Vec<(Child, Child)>),
    Seq(bool, Vec<Child>),
    Enum(NId, Option<Box<Child>>),
    Tagged(NId, Box<Child>),
    Tag(NId),
    Record(NId, bool, Vec<(Option<u8>, NLab, Child)>),
    Tuple(NId, bool, Vec<(Option<u8>, Idx, Child)>),
    RecordTuple(NId, bool, Vec<(Option<u8>, NLab, Idx, Child)>),
    /// a tag hint in front of the value
    Hint(u8, Box<Node>),
}

impl Child {
    pub fn go<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self.via {
            Via::Value => s.value(&self.node),
            Via::Inline => sval::Value::stream(&self.node, s),
            Via::Computed => s.value_computed(&self.node),
        }
    }
    pub fn sem(&self) -> Sem {
        self.node.sem()
    }
}

thread_local! {
    static FUSE: std::cell::Cell<(i64, bool)> = const { std::cell::Cell::new((i64::MIN, false)) };
}
/// Make the `n`th step (entering or leaving a node) of the values streamed from now on by this thread fail.
pub fn arm(n: usize) {
    FUSE.with(|f| f.set((n as i64, false)))
}
thread_local! {
    static BLAST: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Like `arm`, but the step panics.
pub fn arm_panic(n: usize) {
    arm(n);
    BLAST.with(|b| b.set(true))
}
/// Stop failing; did a value fail since `arm`?
pub fn disarm() -> bool {
    BLAST.with(|b| b.set(false));
    FUSE.with(|f| f.replace((i64::MIN, false)).1)
}
fn step() -> sval::Result {
    FUSE.with(|f| {
        let (n, b) = f.get();
        if n == i64::MIN {
            return Ok(());
        }
        if n <= 0 {
            f.set((0, true));
            if BLAST.with(|b| b.get()) {
                f.set((i64::MIN, true));
                std::panic::panic_any("fuse");
            }
            return sval::error();
        }
        f.set((n - 1, b));
        Ok(())
    })
}

impl sval::Value for Node {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        step()?;
        self.emit(s)?;
        step()
    }
}

impl Node {
    fn emit<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self {
            Node::Null => s.null(),
            Node::Bool(b) => s.bool(*b),
            Node::Text(fr, sized) => {
                s.text_begin(if *sized { Some(fr.iter().map(|f| f.0.len()).sum()) } else { None })?;
                for (f, c) in fr {
                    if *c {
                        s.text_fragment_computed(f)?;
                    } else {
                        s.text_fragment(f)?;
                    }
                }
                s.text_end()
            }
            Node::Bin(fr, sized) => {
                s.binary_begin(if *sized { Some(fr.iter().map(|f| f.0.len()).sum()) } else { None })?;
                for (f, c) in fr {
                    if *c {
                        s.binary_fragment_computed(f)?;
                    } else {
                        s.binary_fragment(f)?;
                    }
                }
                s.binary_end()
            }
            Node::U(w, v) => match w {
                W::W8 => s.u8(*v as u8),
                W::W16 => s.u16(*v as u16),
                W::W32 => s.u32(*v as u32),
                W::W64 => s.u64(*v as u64),
                W::W128 => s.u128(*v),
            },
            Node::I(w, v) => match w {
                W::W8 => s.i8(*v as i8),
                W::W16 => s.i16(*v as i16),
                W::W32 => s.i32(*v as i32),
                W::W64 => s.i64(*v as i64),
                W::W128 => s.i128(*v),
            },
            Node::F32(b) => s.f32(f32::from_bits(*b)),
            Node::F64(b) => s.f64(f64::from_bits(*b)),
            Node::Map(sized, es) => {
                s.map_begin(if *sized { Some(es.len()) } else { None })?;
                for (k, v) in es {
                    s.map_key_begin()?;
                    k.go(s)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    v.go(s)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
            Node::Seq(sized, es) => {
                s.seq_begin(if *sized { Some(es.len()) } else { None })?;
                for v in es {
                    s.seq_value_begin()?;
                    v.go(s)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Node::Enum(id, inner) => {
                id.with(|t, l, i| s.enum_begin(t, l, i))?;
                if let Some(c) = inner {
                    c.go(s)?;
                }
                id.with(|t, l, i| s.enum_end(t, l, i))
            }
            Node::Tagged(id, inner) => {
                id.with(|t, l, i| s.tagged_begin(t, l, i))?;
                inner.go(s)?;
                id.with(|t, l, i| s.tagged_end(t, l, i))
            }
            Node::Tag(id) => id.with(|t, l, i| s.tag(t, l, i)),
            Node::Record(id, sized, fs) => {
                id.with(|t, l, i| s.record_begin(t, l, i, if *sized { Some(fs.len()) } else { None }))?;
                for (t, l, c) in fs {
                    l.with(|l| s.record_value_begin(t.map(tag_ref), l))?;
                    c.go(s)?;
                    l.with(|l| s.record_value_end(t.map(tag_ref), l))?;
                }
                id.with(|t, l, i| s.record_end(t, l, i))
            }
            Node::Tuple(id, sized, fs) => {
                id.with(|t, l, i| s.tuple_begin(t, l, i, if *sized { Some(fs.len()) } else { None }))?;
                for (t, x, c) in fs {
                    let x = mk_index(x);
                    s.tuple_value_begin(t.map(tag_ref), &x)?;
                    c.go(s)?;
                    s.tuple_value_end(t.map(tag_ref), &x)?;
                }
                id.with(|t, l, i| s.tuple_end(t, l, i))
            }
            Node::RecordTuple(id, sized, fs) => {
                id.with(|t, l, i| s.record_tuple_begin(t, l, i, if *sized { Some(fs.len()) } else { None }))?;
                for (t, l, x, c) in fs {
                    let x = mk_index(x);
                    l.with(|l| s.record_tuple_value_begin(t.map(tag_ref), l, &x))?;
                    c.go(s)?;
                    l.with(|l| s.record_tuple_value_end(t.map(tag_ref), l, &x))?;
                }
                id.with(|t, l, i| s.record_tuple_end(t, l, i))
            }
            Node::Hint(t, n) => {
                s.tag_hint(tag_ref(*t))?;
                sval::Value::stream(&**n, s)
            }
        }
    }
}

impl Node {
    pub fn sem(&self) -> Sem {
        match self {
            Node::Null => Sem::Null,
            Node::Bool(b) => Sem::Bool(*b),
            Node::Text(f, _) => Sem::Text(f.iter().map(|f| &*f.0).collect()),
            Node::Bin(f, _) => Sem::Bin(f.iter().flat_map(|f| f.0.iter().copied()).collect()),
            Node::U(w, v) => Sem::U(*w, *v),
            Node::I(w, v) => Sem::I(*w, *v),
            Node::F32(b) => Sem::F32(*b),
            Node::F64(b) => Sem::F64(*b),
            Node::Map(_, es) => Sem::Map(es.iter().map(|(k, v)| (k.sem(), v.sem())).collect()),
            Node::Seq(_, es) => Sem::Seq(es.iter().map(|v| v.sem()).collect()),
            Node::Enum(id, inner) => Sem::Enum(id.data(), inner.as_ref().map(|c| Box::new(c.sem()))),
            Node::Tagged(id, inner) => Sem::Tagged(id.data(), Box::new(inner.sem())),
            Node::Tag(id) => Sem::Tag(id.data()),
            Node::Record(id, _, fs) => Sem::Record(id.data(), fs.iter().map(|(t, l, c)| (*t, l.data(), c.sem())).collect()),
            Node::Tuple(id, _, fs) => Sem::Tuple(id.data(), fs.iter().map(|(t, x, c)| (*t, x.clone(), c.sem())).collect()),
            Node::RecordTuple(id, _, fs) => {
                Sem::RecordTuple(id.data(), fs.iter().map(|(t, l, x, c)| (*t, l.data(), x.clone(), c.sem())).collect())
            }
            Node::Hint(_, n) => n.sem(),
        }
    }

    /// Visit nodes, pre-order.
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Node)) {
        f(self);
        match self {
            Node::Map(_, es) => {
                for (k, v) in es {
                    k.node.walk(f);
                    v.node.walk(f);
                }
            }
            Node::Seq(_, es) => es.iter().for_each(|c| c.node.walk(f)),
            Node::Enum(_, Some(c)) | Node::Tagged(_, c) => c.node.walk(f),
            Node::Record(_, _, fs) => fs.iter().for_each(|c| c.2.node.walk(f)),
            Node::Tuple(_, _, fs) => fs.iter().for_each(|c| c.2.node.walk(f)),
            Node::RecordTuple(_, _, fs) => fs.iter().for_each(|c| c.3.node.walk(f)),
            Node::Hint(_, n) => n.walk(f),
            _ => (),
        }
    }

    pub fn size(&self) -> usize {
        let mut n = 0;
        self.walk(&mut |_| n += 1);
        n
    }
}

// ---------------------------------------------------------------------------------------------
// Generation

#[derive(Clone)]
pub struct Cfg {
    /// allow compound map keys
    pub compound_keys: bool,
    /// allow tag hints in front of values
    pub hints: bool,
    /// allow arbitrary-precision number text
    pub numbers: bool,
    /// allow JSON-specific tags
    pub json_tags: bool,
    /// allow labels without static text
    pub dyn_labels: bool,
    /// allow empty enums
    pub empty_enum: bool,
    /// vary delivery (computed, inline); when false everything is borrowed through `value`
    pub vary_delivery: bool,
    pub binary: bool,
    /// probability weights are scaled for this depth
    pub max_depth: u32,
    pub budget: i64,
    /// now and then, more entries than 16 bits can count
    pub huge: bool,
}

impl Cfg {
    pub fn full() -> Cfg {
        Cfg {
            compound_keys: true,
            hints: true,
            numbers: true,
            json_tags: false,
            dyn_labels: true,
            empty_enum: true,
            vary_delivery: true,
            binary: true,
            max_depth: 6,
            budget: 40,
            huge: false,
        }
    }
}

pub static STATIC_LABELS: &[&str] = &[
    "a", "b", "field_0", "Some", "None", "Variant", "MyStruct", "x1", "r", "snake_case_name", "éß", "名前", "",
    "with space", "quo\"te", "back\\slash", "line\nbreak", "tab\t", "nul\0", "\u{7f}", "emoji 😀", "0", "1", "-1", "null", "a.b", "{", "}",
    "\u{1}\u{1f}", "a:b", "'", "RUST_OPTION_SOME", "ΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩΩ",
];
const N_IDENTS: usize = 12;

pub fn gen_char(g: &mut Gen) -> char {
    match g.below(12) {
        0..=3 => (b'a' + g.below(26) as u8) as char,
        4 => char::from_u32(g.below(0x20) as u32).unwrap(),
        5 => *g.pick(&['"', '\\', '/', '\'', '\u{7f}', '\u{8}', '\u{c}', '\n', '\r', '\t', ' ', '{', '}', '[', ']', ',', ':', '`', '<', '&']),
        6 => char::from_u32(0x20 + g.below(0x60) as u32).unwrap(),
        7 => char::from_u32(0x80 + g.below(0x780) as u32).unwrap(),
        8 => *g.pick(&[
            '\u{2028}', '\u{2029}', '\u{feff}', '\u{fffd}', '\u{ffff}', '\u{d7ff}', '\u{e000}', '\u{300}', '\u{200d}', '\u{10ffff}', '\u{10000}',
            '\u{a0}', '\u{80}', '\u{9f}', '\u{7ff}', '\u{800}',
        ]),
        9 => char::from_u32(0x10000 + g.below(0xFFFFF) as u32).unwrap_or('😀'),
        10 => (b'0' + g.below(10) as u8) as char,
        _ => char::from_u32(0x800 + g.below(0xD000) as u32).unwrap_or('名'),
    }
}

thread_local! {
    /// One in how many strings is long.
    static LONG: std::cell::Cell<u64> = const { std::cell::Cell::new(1500) };
}
pub fn with_long<R>(one_in: u64, f: impl FnOnce() -> R) -> R {
    struct Back(u64);
    impl Drop for Back {
        fn drop(&mut self) {
            LONG.with(|l| l.set(self.0))
        }
    }
    let _back = Back(LONG.with(|l| l.replace(one_in)));
    f()
}
/// A length around the sizes that buffers, blocks and narrow integers have.
fn long_len(g: &mut Gen) -> usize {
    let base = if cfg!(miri) { *g.pick(&[32usize, 64, 128]) } else { *g.pick(&[64usize, 128, 256, 512, 1024, 255, 2048, 4096, 8192, 32768, 65536]) };
    base + g.idx(5) - 2
}
/// Is the next string or byte string a long one?
fn is_long(g: &mut Gen) -> bool {
    let n = LONG.with(|l| l.get());
    g.chance(1, n)
}
pub fn gen_long_string(g: &mut Gen) -> String {
    let n = long_len(g);
    let filler = *g.pick(&["x", "a", " ", "7", "é", "名", "😀", "abc\u{7f}", "\"", "\n"]);
    // in bytes, as that is what sizes are counted in
    let mut s = filler.repeat(n / filler.len());
    while s.len() < n {
        s.push('.');
    }
    for _ in 0..g.below(5) {
        let c = gen_char(g);
        let mut at = match g.below(3) {
            0 => s.len(),
            1 => 0,
            _ => g.idx(s.len() + 1),
        };
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        s.insert(at, c);
    }
    s
}

pub fn gen_string(g: &mut Gen) -> String {
    if is_long(g) {
        return gen_long_string(g);
    }
    let n = match g.below(10) {
        0 => 0,
        1..=6 => g.below(6),
        7 | 8 => g.below(20),
        _ => g.below(90),
    };
    (0..n).map(|_| gen_char(g)).collect()
}

pub fn split_text(g: &mut Gen, s: &str) -> Vec<String> {
    let bounds: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    let cuts = match g.below(6) {
        0..=2 => 0,
        3 => 1,
        4 => 2,
        _ => g.below(6) as usize,
    };
    let mut at: Vec<usize> = (0..cuts).map(|_| bounds[g.idx(bounds.len())]).collect();
    at.sort();
    let mut out = Vec::new();
    let mut p = 0;
    for a in at {
        out.push(s[p..a].to_string());
        p = a;
    }
    out.push(s[p..].to_string());
    out
}

pub fn gen_text(g: &mut Gen, cfg: &Cfg, s: &str) -> Node {
    let sized = !g.chance(1, 4);
    if s.is_empty() && g.chance(1, 3) {
        return Node::Text(vec![], sized);
    }
    let fr = split_text(g, s);
    let fr = fr.into_iter().map(|f| (f, cfg.vary_delivery && g.chance(1, 3))).collect();
    Node::Text(fr, sized)
}

fn gen_bytes(g: &mut Gen) -> Vec<u8> {
    if is_long(g) {
        let n = long_len(g);
        let (a, b) = (g.below(256) as u8, g.below(256) as u8);
        return (0..n).map(|i| a.wrapping_add(b.wrapping_mul(i as u8))).collect();
    }
    let n = match g.below(8) {
        0 => 0,
        1..=5 => g.below(5),
        _ => g.below(40),
    };
    (0..n).map(|_| if g.chance(1, 3) { *g.pick(&[0u8, 255, 128, 127, 34, 92]) } else { g.below(256) as u8 }).collect()
}

pub fn gen_bin(g: &mut Gen, cfg: &Cfg) -> Node {
    let b = gen_bytes(g);
    let sized = !g.chance(1, 4);
    if b.is_empty() && g.chance(1, 3) {
        return Node::Bin(vec![], sized);
    }
    let mut fr = Vec::new();
    let mut rest = &b[..];
    while g.chance(2, 5) && fr.len() < 4 {
        let k = g.idx(rest.len() + 1);
        fr.push((rest[..k].to_vec(), cfg.vary_delivery && g.chance(1, 3)));
        rest = &rest[k..];
    }
    fr.push((rest.to_vec(), cfg.vary_delivery && g.chance(1, 3)));
    Node::Bin(fr, sized)
}

pub fn gen_uint(g: &mut Gen, bits: u32) -> u128 {
    let max: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    match g.below(6) {
        0 => g.below(10) as u128,
        1 => max - g.below(3) as u128,
        2 => {
            // around a power of two
            let p = g.below(bits as u64) as u32;
            let b = 1u128 << p;
            let d = g.below(3) as u128;
            (b + d).wrapping_sub(1).min(max)
        }
        3 => {
            let p = g.below(bits as u64) as u32;
            let r = (g.u64() as u128) << 64 | g.u64() as u128;
            (r >> (127 - p)) & max
        }
        4 => {
            // around powers of ten
            let mut v = 1u128;
            for _ in 0..g.below(39) {
                v = v.saturating_mul(10);
            }
            v.saturating_sub(g.below(2) as u128).min(max)
        }
        _ => (((g.u64() as u128) << 64) | g.u64() as u128) & max,
    }
}

pub fn gen_int(g: &mut Gen, bits: u32) -> i128 {
    let m = gen_uint(g, bits - 1) as i128;
    if g.chance(1, 2) {
        -m - g.below(2) as i128
    } else {
        m
    }
}

pub fn gen_w(g: &mut Gen) -> (W, u32) {
    *g.pick(&[(W::W8, 8), (W::W16, 16), (W::W32, 32), (W::W64, 64), (W::W128, 128)])
}

pub fn gen_f64(g: &mut Gen) -> u64 {
    match g.below(8) {
        0 => (g.below(20) as f64).to_bits(),
        1 => (g.below(2000) as f64 / 8.0 - 100.0).to_bits(),
        2 => *g.pick(&[
            0u64,
            0x8000_0000_0000_0000,
            1,
            0x7ff0_0000_0000_0000,
            0xfff0_0000_0000_0000,
            0x7ff8_0000_0000_0000,
            0x7fef_ffff_ffff_ffff,
            0x0010_0000_0000_0000,
            0x000f_ffff_ffff_ffff,
            0x3ff0_0000_0000_0000,
            0x4340_0000_0000_0000,
            0x4330_0000_0000_0001,
        ]),
        3 => (f64::from_bits(g.u64()) as f32 as f64).to_bits(),
        4 => {
            let e = g.below(40) as i32 - 20;
            ((g.below(1000) as f64) * 10f64.powi(e)).to_bits()
        }
        5 => (g.u64() as i64 as f64).to_bits(),
        _ => g.u64(),
    }
}
pub fn gen_f32(g: &mut Gen) -> u32 {
    match g.below(5) {
        0 => (g.below(20) as f32).to_bits(),
        1 => *g.pick(&[0u32, 0x8000_0000, 1, 0x7f80_0000, 0xff80_0000, 0x7fc0_0000, 0x7f7f_ffff, 0x0080_0000, 0x007f_ffff, 0x4b80_0000, 0x3dcc_cccd]),
        2 => ((g.below(2000) as f32) / 10.0 - 100.0).to_bits(),
        _ => g.u64() as u32,
    }
}

pub fn gen_lab(g: &mut Gen, cfg: &Cfg) -> NLab {
    let (text, stat, mut kind, ident): (String, &'static str, LK, bool) = if cfg.dyn_labels && g.chance(1, 4) {
        let s = gen_string(g);
        (s, "", if g.bool() { LK::Owned } else { LK::Borrowed }, false)
    } else {
        let i = if g.chance(1, 3) { g.idx(STATIC_LABELS.len()) } else { g.idx(N_IDENTS) };
        let s = STATIC_LABELS[i];
        (s.to_string(), s, LK::Static, i < N_IDENTS)
    };
    if cfg.dyn_labels && kind == LK::Static && g.chance(1, 4) {
        kind = if g.bool() { LK::Owned } else { LK::Borrowed };
    }
    let tag = if ident && g.chance(1, 2) {
        Some(T_IDENT)
    } else if g.chance(1, 8) {
        Some(g.below(3) as u8)
    } else {
        None
    };
    NLab { text, kind, tag, stat }
}

pub fn gen_idx(g: &mut Gen, pos: usize) -> Idx {
    match g.below(8) {
        0..=4 => Idx { n: pos as i128, tag: if g.bool() { Some(T_OFFSET) } else { None } },
        // an offset needn't be the position, nor positive
        5 => Idx { n: g.below(100) as i128, tag: *g.pick(&[None, None, Some(T_OFFSET), Some(1)]) },
        6 => Idx { n: -(g.below(10) as i128), tag: *g.pick(&[None, None, Some(T_OFFSET), Some(2)]) },
        _ => Idx {
            n: *g.pick(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, i32::MAX as i128, u32::MAX as i128 + 1]),
            tag: if g.chance(1, 3) { Some(0) } else { None },
        },
    }
}

pub fn gen_id(g: &mut Gen, cfg: &Cfg) -> NId {
    NId {
        tag: if g.chance(1, 4) { Some(g.below(3) as u8) } else { None },
        label: if g.chance(3, 4) { Some(gen_lab(g, cfg)) } else { None },
        index: if g.chance(1, 2) {
            let p = g.idx(4);
            Some(gen_idx(g, p))
        } else {
            None
        },
    }
}

/// A string matching the documented NUMBER grammar.
pub fn gen_number_text(g: &mut Gen) -> String {
    let mut s = String::new();
    match g.below(4) {
        0 | 1 => (),
        2 => s.push('-'),
        _ => s.push('+'),
    }
    for _ in 0..if g.chance(1, 3) { g.below(4) } else { 0 } {
        s.push('0');
    }
    if is_long(g) {
        s.extend(std::iter::repeat('0').take(*g.pick(&[20usize, 63, 127, 128, 254, 255, 256, 300, 1030])));
    }
    let n = 1 + if g.chance(1, 6) { g.below(45) } else { g.below(4) };
    if is_long(g) {
        let d = (b'1' + g.below(9) as u8) as char;
        s.extend(std::iter::repeat(d).take(*g.pick(&[60usize, 126, 127, 128, 254, 255, 256, 300, 1030])));
    }
    for _ in 0..n {
        s.push(if g.chance(1, 3) { '0' } else { (b'0' + g.below(10) as u8) as char });
    }
    if g.chance(1, 3) {
        s.push('.');
        for _ in 0..1 + g.below(5) {
            s.push((b'0' + g.below(10) as u8) as char);
        }
    }
    if g.chance(1, 3) {
        s.push(if g.bool() { 'E' } else { 'e' });
        match g.below(3) {
            0 => (),
            1 => s.push('-'),
            _ => s.push('+'),
        }
        for _ in 0..1 + g.below(4) {
            s.push((b'0' + g.below(10) as u8) as char);
        }
    }
    s
}

pub struct Build<'a> {
    pub g: &'a mut Gen,
    pub cfg: &'a Cfg,
    pub left: i64,
    /// inside a map key: pre-serialized JSON is not a valid key
    pub in_key: bool,
    /// the number of entries of the next container, if it is to be a wide one
    pub wide: usize,
}

pub fn gen_node(g: &mut Gen, cfg: &Cfg) -> Node {
    let budget = cfg.budget;
    // mix small and large values
    let left = match g.below(4) {
        0 => budget / 8,
        1 => budget / 3,
        _ => budget,
    };
    if left >= 20 && !cfg!(miri) && g.chance(1, 200) {
        return gen_big(g, cfg);
    }
    let mut b = Build { g, cfg, left, in_key: false, wide: 0 };
    b.node(0)
}

/// Values beyond the usual sizes: long text, many entries, deep nesting.
fn gen_big(g: &mut Gen, cfg: &Cfg) -> Node {
    match g.below(4) {
        0 => with_long(6, || Build { g, cfg, left: 20, in_key: false, wide: 0 }.node(0)),
        1 | 2 => {
            let wide = if cfg.huge && g.chance(1, 60) { 65533 + g.idx(4) } else { *g.pick(&[17usize, 33, 64, 65, 128, 129, 255, 256, 257, 300, 1025]) };
            if wide > 60000 {
                let cfg = Cfg { max_depth: 2, huge: false, ..cfg.clone() };
                let mut b = Build { g, cfg: &cfg, left: 10, in_key: false, wide };
                return b.container(1);
            }
            let mut b = Build { g, cfg, left: 3 * wide as i64, in_key: false, wide };
            let n = b.container(1);
            // on its own, or within something else
            match b.g.below(3) {
                0 => n,
                1 => {
                    let before = b.child(5);
                    let via = b.via();
                    let after = b.child(5);
                    Node::Seq(b.g.bool(), vec![before, Child { via, node: n }, after])
                }
                _ => {
                    let via = b.via();
                    let l = gen_lab(b.g, cfg);
                    let after = b.child(5);
                    let l2 = gen_lab(b.g, cfg);
                    let id = gen_id(b.g, cfg);
                    Node::Record(id, b.g.bool(), vec![(None, l, Child { via, node: n }), (None, l2, after)])
                }
            }
        }
        _ => {
            let d = *g.pick(&[16usize, 31, 33, 64, 65, 127, 128, 129, 160]);
            gen_deep(g, &Cfg { budget: 4, ..cfg.clone() }, d)
        }
    }
}

impl<'a> Build<'a> {
    pub fn scalar(&mut self) -> Node {
        let g = &mut *self.g;
        match g.below(14) {
            0 => {
                let (w, b) = gen_w(g);
                Node::U(w, gen_uint(g, b))
            }
            1 | 2 => {
                let (w, b) = gen_w(g);
                Node::I(w, gen_int(g, b))
            }
            3 => Node::Null,
            4 => Node::Bool(g.bool()),
            5 | 6 | 7 | 8 => {
                let s = gen_string(g);
                gen_text(g, self.cfg, &s)
            }
            9 => Node::F32(gen_f32(g)),
            10 => Node::F64(gen_f64(g)),
            11 => {
                if self.cfg.binary {
                    gen_bin(g, self.cfg)
                } else {
                    Node::Null
                }
            }
            12 => {
                let id = self.tag_id();
                Node::Tag(id)
            }
            _ => {
                if self.cfg.numbers {
                    let s = gen_number_text(g);
                    let t = gen_text(g, self.cfg, &s);
                    let via = self.via();
                    let id = self.plain_id();
                    Node::Tagged(NId { tag: Some(T_NUMBER), ..id }, Box::new(Child { via, node: t }))
                } else {
                    Node::Null
                }
            }
        }
    }

    fn tag_id(&mut self) -> NId {
        let g = &mut *self.g;
        match g.below(6) {
            0 => NId {
                tag: Some(T_NONE),
                label: Some(NLab { text: "None".into(), kind: LK::Static, tag: Some(T_IDENT), stat: "None" }),
                index: Some(Idx { n: 0, tag: Some(T_OFFSET) }),
            },
            1 => NId { tag: Some(T_UNIT), label: None, index: None },
            _ => gen_id(g, self.cfg),
        }
    }

    fn via(&mut self) -> Via {
        if !self.cfg.vary_delivery {
            return Via::Value;
        }
        match self.g.below(8) {
            0..=3 => Via::Value,
            4..=6 => Via::Inline,
            _ => Via::Computed,
        }
    }

    pub fn child(&mut self, depth: u32) -> Child {
        let node = self.node(depth);
        let via = self.via();
        Child { via, node }
    }

    fn key(&mut self, depth: u32) -> Child {
        let node = if self.cfg.compound_keys && self.g.chance(1, 12) {
            let was = std::mem::replace(&mut self.in_key, true);
            let n = self.node(depth);
            self.in_key = was;
            n
        } else {
            match self.g.below(10) {
                0..=4 => {
                    let s = gen_string(self.g);
                    gen_text(self.g, self.cfg, &s)
                }
                5 => {
                    let (w, b) = gen_w(self.g);
                    Node::I(w, gen_int(self.g, b))
                }
                6 => {
                    // newtype-like key
                    let id = gen_id(self.g, self.cfg);
                    let inner = self.simple_key();
                    let via = self.via();
                    Node::Tagged(id, Box::new(Child { via, node: inner }))
                }
                7 | 8 => {
                    // unit-variant key
                    let id = gen_id(self.g, self.cfg);
                    let t = Node::Tag(self.tag_id());
                    let via = self.via();
                    Node::Enum(id, Some(Box::new(Child { via, node: t })))
                }
                _ => self.simple_key(),
            }
        };
        let via = self.via();
        Child { via, node }
    }

    fn simple_key(&mut self) -> Node {
        for _ in 0..4 {
            let n = self.scalar();
            if !matches!(n, Node::Bin(..)) || self.cfg.compound_keys {
                return n;
            }
        }
        Node::Bool(true)
    }

    fn len(&mut self) -> usize {
        if self.wide > 0 {
            return std::mem::take(&mut self.wide);
        }
        match self.g.below(8) {
            0 => 0,
            1 | 2 => 1,
            3..=5 => 2,
            6 => self.g.idx(5),
            _ => self.g.idx(9),
        }
    }

    /// Something that may stand directly inside an enum.
    fn variant(&mut self, depth: u32) -> Node {
        if self.cfg.json_tags && !self.in_key && self.g.chance(1, 12) {
            return self.json_tagged();
        }
        if self.cfg.numbers && self.g.chance(1, 20) {
            let s = gen_number_text(self.g);
            let t = gen_text(self.g, self.cfg, &s);
            let via = self.via();
            let id = gen_id(self.g, self.cfg);
            return Node::Tagged(NId { tag: Some(T_NUMBER), ..id }, Box::new(Child { via, node: t }));
        }
        match self.g.below(9) {
            0 | 1 => Node::Tag(self.tag_id()),
            2 | 3 => self.tagged(depth),
            4 => self.record(depth),
            5 => self.tuple(depth),
            6 | 7 => self.record_tuple(depth),
            _ => {
                if depth < self.cfg.max_depth {
                    self.enumeration(depth)
                } else {
                    Node::Tag(self.tag_id())
                }
            }
        }
    }

    fn enumeration(&mut self, depth: u32) -> Node {
        let id = gen_id(self.g, self.cfg);
        if self.cfg.empty_enum && self.g.chance(1, 25) {
            return Node::Enum(id, None);
        }
        let v = self.variant(depth + 1);
        let via = self.via();
        Node::Enum(id, Some(Box::new(Child { via, node: v })))
    }
    fn tagged(&mut self, depth: u32) -> Node {
        if self.g.chance(1, 4) {
            let c = self.child(depth + 1);
            return Node::Tagged(
                NId {
                    tag: Some(T_SOME),
                    label: Some(NLab { text: "Some".into(), kind: LK::Static, tag: Some(T_IDENT), stat: "Some" }),
                    index: Some(Idx { n: 1, tag: Some(T_OFFSET) }),
                },
                Box::new(c),
            );
        }
        let id = gen_id(self.g, self.cfg);
        let c = self.child(depth + 1);
        Node::Tagged(id, Box::new(c))
    }
    fn field_tag(&mut self) -> Option<u8> {
        if self.g.chance(1, 8) {
            Some(self.g.below(3) as u8)
        } else {
            None
        }
    }
    fn record(&mut self, depth: u32) -> Node {
        let id = gen_id(self.g, self.cfg);
        let n = self.len();
        let sized = !self.g.chance(1, 4);
        let fs = (0..n)
            .map(|_| {
                let t = self.field_tag();
                let l = gen_lab(self.g, self.cfg);
                (t, l, self.child(depth + 1))
            })
            .collect();
        Node::Record(id, sized, fs)
    }
    fn tuple(&mut self, depth: u32) -> Node {
        let id = gen_id(self.g, self.cfg);
        let n = self.len();
        let sized = !self.g.chance(1, 4);
        let fs = (0..n)
            .map(|i| {
                let t = self.field_tag();
                let l = gen_idx(self.g, i);
                (t, l, self.child(depth + 1))
            })
            .collect();
        Node::Tuple(id, sized, fs)
    }
    fn record_tuple(&mut self, depth: u32) -> Node {
        let id = gen_id(self.g, self.cfg);
        let n = self.len();
        let sized = !self.g.chance(1, 4);
        let fs = (0..n)
            .map(|i| {
                let t = self.field_tag();
                let l = gen_lab(self.g, self.cfg);
                let x = gen_idx(self.g, i);
                (t, l, x, self.child(depth + 1))
            })
            .collect();
        Node::RecordTuple(id, sized, fs)
    }

    /// Something with entries.
    fn container(&mut self, depth: u32) -> Node {
        let k = self.g.below(10);
        self.container_of(k, depth)
    }
    fn container_of(&mut self, k: u64, depth: u32) -> Node {
        match k {
            0..=2 => {
                let n = self.len();
                let sized = !self.g.chance(1, 4);
                Node::Seq(sized, (0..n).map(|_| self.child(depth + 1)).collect())
            }
            3..=5 => {
                let n = self.len();
                let sized = !self.g.chance(1, 4);
                Node::Map(
                    sized,
                    (0..n)
                        .map(|_| {
                            let k = self.key(depth + 1);
                            (k, self.child(depth + 1))
                        })
                        .collect(),
                )
            }
            6 => self.record(depth),
            7 => self.tuple(depth),
            _ => self.record_tuple(depth),
        }
    }

    pub fn node(&mut self, depth: u32) -> Node {
        self.left -= 1;
        let n = if depth >= self.cfg.max_depth || self.left <= 0 {
            self.scalar()
        } else {
            match self.g.below(20) {
                0..=4 => self.scalar(),
                k @ 5..=14 => self.container_of(k - 5, depth),
                15 | 16 => self.tagged(depth),
                _ => self.enumeration(depth),
            }
        };
        let n = if self.cfg.json_tags && !self.in_key && self.g.chance(1, 12) { self.json_tagged() } else { n };
        if self.cfg.hints && self.g.chance(1, 16) {
            Node::Hint(self.g.below(10) as u8, Box::new(n))
        } else {
            n
        }
    }

    /// Mostly nothing.
    fn plain_id(&mut self) -> NId {
        if self.g.chance(1, 3) {
            gen_id(self.g, self.cfg)
        } else {
            NId { tag: None, label: None, index: None }
        }
    }

    fn json_tagged(&mut self) -> Node {
        let (t, s): (u8, String) = match self.g.below(3) {
            0 => (T_JTEXT, self.g.pick(&["plain", "esc\\n\\u0041", "", "é😀", "a\\\\b"]).to_string()),
            1 => (T_JVALUE, self.g.pick(&["1", "{\"a\":[1,2]}", "[]", "null", "\"x\\ny\"", "{}", "[1,{\"b\":null}]", "-1.5e10"]).to_string()),
            _ => (T_JNUMBER, self.g.pick(&["0", "-1", "1.5", "123456789012345678901234567890", "1e5", "-0.25E-3"]).to_string()),
        };
        let n = gen_text(self.g, self.cfg, &s);
        let via = self.via();
        let id = self.plain_id();
        Node::Tagged(NId { tag: Some(t), ..id }, Box::new(Child { via, node: n }))
    }
}

// ---------------------------------------------------------------------------------------------
// The same data, delivered differently.

fn re_text(g: &mut Gen, s: &str) -> Node {
    let cfg = Cfg::full();
    gen_text(g, &cfg, s)
}
fn re_via(g: &mut Gen) -> Via {
    *g.pick(&[Via::Value, Via::Inline, Via::Computed])
}
fn re_child(g: &mut Gen, c: &Child, tags: bool) -> Child {
    Child { via: re_via(g), node: redeliver(g, &c.node, tags) }
}
fn re_lab(g: &mut Gen, l: &NLab) -> NLab {
    let kind = match g.below(3) {
        0 => l.kind,
        1 => LK::Owned,
        _ => LK::Borrowed,
    };
    NLab { kind, ..l.clone() }
}
fn re_tag(g: &mut Gen, t: Option<u8>, tags: bool) -> Option<u8> {
    match t {
        Some(x) if x > 2 => t,
        _ if tags && g.chance(1, 3) => {
            if g.bool() {
                Some(g.below(3) as u8)
            } else {
                None
            }
        }
        _ => t,
    }
}
fn re_id(g: &mut Gen, i: &NId, tags: bool) -> NId {
    NId { tag: re_tag(g, i.tag, tags), label: i.label.as_ref().map(|l| re_lab(g, l)), index: i.index.clone() }
}

/// A node with the same data; fragment boundaries, borrowing, delivery style, size hints, tag hints and (with
/// `tags`) purely informative tags may differ.
pub fn redeliver(g: &mut Gen, n: &Node, tags: bool) -> Node {
    let out = match n {
        Node::Text(f, _) => {
            let s: String = f.iter().map(|f| &*f.0).collect();
            re_text(g, &s)
        }
        Node::Bin(f, _) => {
            let b: Vec<u8> = f.iter().flat_map(|f| f.0.iter().copied()).collect();
            let mut fr = Vec::new();
            let mut rest = &b[..];
            while g.chance(1, 2) && fr.len() < 4 {
                let k = g.idx(rest.len() + 1);
                fr.push((rest[..k].to_vec(), g.bool()));
                rest = &rest[k..];
            }
            fr.push((rest.to_vec(), g.bool()));
            Node::Bin(fr, g.bool())
        }
        Node::Map(_, es) => Node::Map(g.bool(), es.iter().map(|(k, v)| (re_child(g, k, tags), re_child(g, v, tags))).collect()),
        Node::Seq(_, es) => Node::Seq(g.bool(), es.iter().map(|v| re_child(g, v, tags)).collect()),
        Node::Enum(id, c) => Node::Enum(re_id(g, id, tags), c.as_ref().map(|c| Box::new(re_child(g, c, tags)))),
        Node::Tagged(id, c) => Node::Tagged(re_id(g, id, tags), Box::new(re_child(g, c, tags))),
        Node::Tag(id) => Node::Tag(re_id(g, id, tags)),
        Node::Record(id, _, fs) => Node::Record(
            re_id(g, id, tags),
            g.bool(),
            fs.iter().map(|(t, l, c)| (re_tag(g, *t, tags), re_lab(g, l), re_child(g, c, tags))).collect(),
        ),
        Node::Tuple(id, _, fs) => Node::Tuple(
            re_id(g, id, tags),
            g.bool(),
            fs.iter().map(|(t, x, c)| (re_tag(g, *t, tags), x.clone(), re_child(g, c, tags))).collect(),
        ),
        Node::RecordTuple(id, _, fs) => Node::RecordTuple(
            re_id(g, id, tags),
            g.bool(),
            fs.iter().map(|(t, l, x, c)| (re_tag(g, *t, tags), re_lab(g, l), x.clone(), re_child(g, c, tags))).collect(),
        ),
        Node::Hint(_, n) => redeliver(g, n, tags),
        n => n.clone(),
    };
    if g.chance(1, 12) {
        Node::Hint(g.below(10) as u8, Box::new(out))
    } else {
        out
    }
}

/// Shape of a value without leaf data: used to count distinct structures seen.
pub fn shape(n: &Sem, out: &mut Vec<u8>) {
    fn id(i: &Id, out: &mut Vec<u8>) {
        out.push(i.label.is_some() as u8 | (i.index.is_some() as u8) << 1 | (i.tag.is_some() as u8) << 2);
    }
    match n {
        Sem::Null => out.push(1),
        Sem::Bool(_) => out.push(2),
        Sem::Text(s) => out.extend([3, s.len().min(8) as u8]),
        Sem::Bin(s) => out.extend([4, s.len().min(8) as u8]),
        Sem::U(w, _) => out.extend([5, *w as u8]),
        Sem::I(w, _) => out.extend([6, *w as u8]),
        Sem::F32(_) => out.push(7),
        Sem::F64(_) => out.push(8),
        Sem::Map(es) => {
            out.extend([9, es.len() as u8]);
            es.iter().for_each(|(k, v)| {
                shape(k, out);
                shape(v, out)
            });
        }
        Sem::Seq(es) => {
            out.extend([10, es.len() as u8]);
            es.iter().for_each(|v| shape(v, out));
        }
        Sem::Enum(i, c) => {
            out.push(11);
            id(i, out);
            if let Some(c) = c {
                shape(c, out)
            }
        }
        Sem::Tagged(i, c) => {
            out.push(12);
            id(i, out);
            shape(c, out)
        }
        Sem::Tag(i) => {
            out.push(13);
            id(i, out)
        }
        Sem::Record(i, fs) => {
            out.extend([14, fs.len() as u8]);
            id(i, out);
            fs.iter().for_each(|f| shape(&f.2, out))
        }
        Sem::Tuple(i, fs) => {
            out.extend([15, fs.len() as u8]);
            id(i, out);
            fs.iter().for_each(|f| shape(&f.2, out))
        }
        Sem::RecordTuple(i, fs) => {
            out.extend([16, fs.len() as u8]);
            id(i, out);
            fs.iter().for_each(|f| shape(&f.3, out))
        }
    }
}

/// A deep chain of containers around a small value.
pub fn gen_deep(g: &mut Gen, cfg: &Cfg, depth: usize) -> Node {
    let small = Cfg { budget: 2, ..cfg.clone() };
    let mut n = gen_node(g, &small);
    for _ in 0..depth {
        let via = if cfg.vary_delivery { *g.pick(&[Via::Value, Via::Inline, Via::Computed]) } else { Via::Value };
        let c = Child { via, node: n };
        let side = |g: &mut Gen| Child { via: Via::Inline, node: gen_node(g, &Cfg { budget: 1, ..cfg.clone() }) };
        n = match g.below(7) {
            0 => Node::Seq(g.bool(), if g.bool() { vec![c] } else { vec![side(g), c, side(g)] }),
            1 => Node::Map(g.bool(), vec![(Child { via: Via::Value, node: Node::Text(vec![("k".into(), false)], true) }, c)]),
            2 => {
                let l = gen_lab(g, cfg);
                Node::Record(gen_id(g, cfg), g.bool(), vec![(None, l, c)])
            }
            3 => Node::Tuple(gen_id(g, cfg), g.bool(), vec![(None, gen_idx(g, 0), c)]),
            4 => Node::Tagged(gen_id(g, cfg), Box::new(c)),
            5 => {
                let t = Node::Tagged(gen_id(g, cfg), Box::new(c));
                Node::Enum(gen_id(g, cfg), Some(Box::new(Child { via: Via::Inline, node: t })))
            }
            _ => {
                let l = gen_lab(g, cfg);
                Node::RecordTuple(gen_id(g, cfg), g.bool(), vec![(None, l, gen_idx(g, 0), c)])
            }
        };
    }
    n
}

/// Address ranges of what a value delivers as long-lived.
pub fn lent(n: &Node, computed: bool, out: &mut Vec<(usize, usize)>) {
    let ch = |c: &Child, out: &mut Vec<(usize, usize)>| lent(&c.node, computed || c.via == Via::Computed, out);
    match n {
        Node::Text(f, _) if !computed => out.extend(f.iter().filter(|f| !f.1).map(|f| (f.0.as_ptr() as usize, f.0.len()))),
        Node::Bin(f, _) if !computed => out.extend(f.iter().filter(|f| !f.1).map(|f| (f.0.as_ptr() as usize, f.0.len()))),
        Node::Map(_, es) => es.iter().for_each(|(k, v)| {
            ch(k, out);
            ch(v, out)
        }),
        Node::Seq(_, es) => es.iter().for_each(|v| ch(v, out)),
        Node::Enum(_, Some(c)) => ch(c, out),
        Node::Tagged(_, c) => ch(c, out),
        Node::Record(_, _, fs) => fs.iter().for_each(|f| ch(&f.2, out)),
        Node::Tuple(_, _, fs) => fs.iter().for_each(|f| ch(&f.2, out)),
        Node::RecordTuple(_, _, fs) => fs.iter().for_each(|f| ch(&f.3, out)),
        Node::Hint(_, n) => lent(n, computed, out),
        _ => (),
    }
}

/// Address ranges of the text and binary fragments a value owns.
pub fn ranges(n: &Node) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    n.walk(&mut |n| match n {
        Node::Text(f, _) => v.extend(f.iter().map(|f| (f.0.as_ptr() as usize, f.0.len()))),
        Node::Bin(f, _) => v.extend(f.iter().map(|f| (f.0.as_ptr() as usize, f.0.len()))),
        _ => (),
    });
    v
}
/// Places of text and binary that `n` streams as exactly one, long-lived, fragment, leaving out
/// what is within a container its parent streams inline (an adapter may have to buffer those).
pub fn lent_whole(n: &Node, computed: bool, out: &mut Vec<(usize, usize)>) {
    let ch = |c: &Child, out: &mut Vec<(usize, usize)>| {
        if c.via == Via::Value || matches!(c.node, Node::Text(..) | Node::Bin(..)) {
            lent_whole(&c.node, computed || c.via == Via::Computed, out)
        }
    };
    match n {
        Node::Text(f, _) if !computed && f.len() == 1 && !f[0].1 && !f[0].0.is_empty() => out.push((f[0].0.as_ptr() as usize, f[0].0.len())),
        Node::Bin(f, _) if !computed && f.len() == 1 && !f[0].1 && !f[0].0.is_empty() => out.push((f[0].0.as_ptr() as usize, f[0].0.len())),
        Node::Map(_, es) => es.iter().for_each(|(k, v)| {
            ch(k, out);
            ch(v, out)
        }),
        Node::Seq(_, es) => es.iter().for_each(|v| ch(v, out)),
        Node::Tagged(_, c) => ch(c, out),
        Node::Record(_, _, fs) => fs.iter().for_each(|f| ch(&f.2, out)),
        Node::Tuple(_, _, fs) => fs.iter().for_each(|f| ch(&f.2, out)),
        _ => (),
    }
}
