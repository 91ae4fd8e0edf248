//! F01: flattening.

use crate::fw::{Prop, Stats, Sub, R};
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use sval::{Index, Label, Stream};

/// Without an allocator a value may be refused, but never altered.
const NOALLOC: bool = cfg!(feature = "noalloc");

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Parent {
    Map,
    Seq,
    Record,
    Tuple,
    RecordTuple,
}
pub const PARENTS: [Parent; 5] = [Parent::Map, Parent::Seq, Parent::Record, Parent::Tuple, Parent::RecordTuple];

/// Where the label of a flattened entry comes from.
enum From<'a> {
    Label(Lab),
    Index,
    Key(&'a Child),
}
struct Entry<'a> {
    tag: Option<u8>,
    from: From<'a>,
    index: Option<Idx>,
    computed: bool,
    value: &'a Child,
}

/// The entries a value contributes, from the data alone.
fn entries<'a>(n: &'a Node, computed: bool, in_enum: bool, out: &mut Vec<Entry<'a>>) {
    match n {
        Node::Hint(_, n) => entries(n, computed, in_enum, out),
        Node::Enum(_, Some(c)) => entries(&c.node, computed || c.via == Via::Computed, true, out),
        Node::Tagged(id, c) => {
            if in_enum {
                out.push(Entry {
                    tag: None,
                    from: match &id.label {
                        Some(l) => From::Label(l.data()),
                        None => From::Index,
                    },
                    index: id.index.clone(),
                    computed,
                    value: c,
                })
            } else {
                entries(&c.node, computed || c.via == Via::Computed, false, out)
            }
        }
        Node::Map(_, es) => {
            for (k, v) in es {
                out.push(Entry { tag: None, from: From::Key(k), index: None, computed, value: v })
            }
        }
        Node::Seq(_, es) => {
            for v in es {
                out.push(Entry { tag: None, from: From::Index, index: None, computed, value: v })
            }
        }
        Node::Record(_, _, fs) => {
            for (t, l, v) in fs {
                out.push(Entry { tag: *t, from: From::Label(l.data()), index: None, computed, value: v })
            }
        }
        Node::Tuple(_, _, fs) => {
            for (t, x, v) in fs {
                out.push(Entry { tag: *t, from: From::Index, index: Some(x.clone()), computed, value: v })
            }
        }
        Node::RecordTuple(_, _, fs) => {
            for (t, l, x, v) in fs {
                out.push(Entry { tag: *t, from: From::Label(l.data()), index: Some(x.clone()), computed, value: v })
            }
        }
        _ => (),
    }
}

/// A stringified key: `Err(x)` where a lone float may be spelled in more than one way, `None` where floats are mixed in.
pub enum Str {
    Exact(String),
    Float(f64),
    Mixed,
}
fn stringify(s: &Sem) -> Str {
    fn go(s: &Sem, out: &mut String, floats: &mut Vec<f64>) {
        match s {
            Sem::Null => out.push_str("null"),
            Sem::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
            Sem::Text(t) => out.push_str(t),
            Sem::Bin(b) => b.iter().for_each(|b| out.push_str(&b.to_string())),
            Sem::U(_, v) => out.push_str(&v.to_string()),
            Sem::I(_, v) => out.push_str(&v.to_string()),
            Sem::F32(b) => floats.push(f32::from_bits(*b) as f64),
            Sem::F64(b) => floats.push(f64::from_bits(*b)),
            Sem::Map(es) => es.iter().for_each(|(k, v)| {
                go(k, out, floats);
                go(v, out, floats)
            }),
            Sem::Seq(es) => es.iter().for_each(|v| go(v, out, floats)),
            Sem::Enum(_, Some(c)) => go(c, out, floats),
            Sem::Enum(_, None) => (),
            Sem::Tagged(_, c) => go(c, out, floats),
            Sem::Tag(id) => match (&id.label, &id.index) {
                (Some(l), _) => out.push_str(&l.text),
                (None, Some(i)) => out.push_str(&i.n.to_string()),
                _ => out.push_str("null"),
            },
            Sem::Record(_, fs) => fs.iter().for_each(|(_, l, v)| {
                out.push_str(&l.text);
                go(v, out, floats)
            }),
            Sem::Tuple(_, fs) => fs.iter().for_each(|(_, _, v)| go(v, out, floats)),
            Sem::RecordTuple(_, fs) => fs.iter().for_each(|(_, l, _, v)| {
                out.push_str(&l.text);
                go(v, out, floats)
            }),
        }
    }
    let (mut s0, mut f) = (String::new(), Vec::new());
    go(s, &mut s0, &mut f);
    match (f.len(), s0.is_empty()) {
        (0, _) => Str::Exact(s0),
        (1, true) => Str::Float(f[0]),
        _ => Str::Mixed,
    }
}

/// Offsets as documented: implicit entries take the next offset, offsets given by the value are moved by the
/// starting offset, any other index is kept.
struct Alloc {
    init: i128,
    cur: i128,
}
impl Alloc {
    fn next(&mut self, i: &Option<Idx>) -> Idx {
        let fits = |n: i128| n >= isize::MIN as i128 && n <= isize::MAX as i128;
        let x = match i {
            None => Idx { n: self.cur, tag: Some(T_OFFSET) },
            Some(i) if i.tag == Some(T_OFFSET) && fits(i.n) => Idx { n: i.n + self.init, tag: Some(T_OFFSET) },
            Some(i) => i.clone(),
        };
        self.cur = if fits(x.n) { x.n } else { self.cur } + 1;
        x
    }
}

const MARK: char = '\u{10FFFF}';

/// The expected calls; stringified keys are given as a mark and looked up in `keys`.
pub fn expect(p: Parent, n: &Node, start: isize, out: &mut Expected, keys: &mut Vec<Str>) -> (isize, usize) {
    let mut es = Vec::new();
    entries(n, false, false, &mut es);
    let mut a = Alloc { init: start as i128, cur: start as i128 };
    for e in &es {
        let ix = a.next(&e.index);
        let lab = match &e.from {
            From::Label(l) => l.clone(),
            From::Index => Lab { text: ix.n.to_string(), tag: None },
            From::Key(k) => {
                let text = match stringify(&k.sem()) {
                    Str::Exact(s) => s,
                    s => {
                        keys.push(s);
                        format!("{MARK}{}", keys.len() - 1)
                    }
                };
                Lab { text, tag: None }
            }
        };
        let val = |out: &mut Expected| exp_node(&e.value.node, e.computed || e.value.via == Via::Computed, out);
        match p {
            Parent::Map => {
                out.ev.push(Ev::KeyBegin);
                if let From::Key(k) = &e.from {
                    exp_node(&k.node, e.computed || k.via == Via::Computed, out);
                } else {
                    out.ev.push(Ev::TextBegin(None));
                    out.ev.push(Ev::TextFrag(lab.text.clone(), false));
                    out.ev.push(Ev::TextEnd);
                }
                out.ev.push(Ev::KeyEnd);
                out.ev.push(Ev::ValBegin);
                val(out);
                out.ev.push(Ev::ValEnd);
            }
            Parent::Seq => {
                out.ev.push(Ev::ElBegin);
                val(out);
                out.ev.push(Ev::ElEnd);
            }
            Parent::Record => {
                out.ev.push(Ev::RecValBegin(e.tag, lab.clone()));
                val(out);
                out.ev.push(Ev::RecValEnd(e.tag, lab));
            }
            Parent::Tuple => {
                out.ev.push(Ev::TupValBegin(e.tag, ix.clone()));
                val(out);
                out.ev.push(Ev::TupValEnd(e.tag, ix));
            }
            Parent::RecordTuple => {
                out.ev.push(Ev::RTValBegin(e.tag, lab.clone(), ix.clone()));
                val(out);
                out.ev.push(Ev::RTValEnd(e.tag, lab, ix));
            }
        }
    }
    (a.cur as isize, es.len())
}

/// Take the place of marks by what was actually used, where that is right.
pub fn unmark(got: &[Ev], want: &mut [Ev], keys: &[Str]) {
    let ok = |g: &str, w: &str| {
        let Some(i) = w.strip_prefix(MARK).and_then(|i| i.parse::<usize>().ok()) else { return false };
        match keys.get(i) {
            Some(Str::Mixed) => true,
            Some(Str::Float(x)) => match g.parse::<f64>() {
                Ok(y) => x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) || (*x as f32 as f64 == *x && g.parse::<f32>().ok() == Some(*x as f32)),
                Err(_) => false,
            },
            _ => false,
        }
    };
    for (g, w) in got.iter().zip(want.iter_mut()) {
        match (g, w) {
            (Ev::RecValBegin(_, g), Ev::RecValBegin(_, w))
            | (Ev::RecValEnd(_, g), Ev::RecValEnd(_, w))
            | (Ev::RTValBegin(_, g, _), Ev::RTValBegin(_, w, _))
            | (Ev::RTValEnd(_, g, _), Ev::RTValEnd(_, w, _))
                if ok(&g.text, &w.text) =>
            {
                w.text = g.text.clone()
            }
            _ => (),
        }
    }
}

pub fn flatten<'sval, S: Stream<'sval> + ?Sized, V: sval::Value + ?Sized>(p: Parent, s: &mut S, v: &'sval V, at: isize) -> sval::Result<isize> {
    match p {
        Parent::Map => sval_flatten::flatten_to_map(s, v, at),
        Parent::Seq => sval_flatten::flatten_to_seq(s, v).map(|_| 0),
        Parent::Record => sval_flatten::flatten_to_record(s, v, at),
        Parent::Tuple => sval_flatten::flatten_to_tuple(s, v, at),
        Parent::RecordTuple => sval_flatten::flatten_to_record_tuple(s, v, at),
    }
}
pub fn begin<'sval, S: Stream<'sval> + ?Sized>(p: Parent, s: &mut S) -> sval::Result {
    match p {
        Parent::Map => s.map_begin(None),
        Parent::Seq => s.seq_begin(None),
        Parent::Record => s.record_begin(None, None, None, None),
        Parent::Tuple => s.tuple_begin(None, None, None, None),
        Parent::RecordTuple => s.record_tuple_begin(None, None, None, None),
    }
}
pub fn end<'sval, S: Stream<'sval> + ?Sized>(p: Parent, s: &mut S) -> sval::Result {
    match p {
        Parent::Map => s.map_end(),
        Parent::Seq => s.seq_end(),
        Parent::Record => s.record_end(None, None, None),
        Parent::Tuple => s.tuple_end(None, None, None),
        Parent::RecordTuple => s.record_tuple_end(None, None, None),
    }
}
/// A field of the parent's own.
pub fn own<'sval, S: Stream<'sval> + ?Sized>(p: Parent, s: &mut S, at: isize) -> sval::Result {
    let l = Label::new("own");
    let i = Index::new_isize(at);
    match p {
        Parent::Map => {
            s.map_key_begin()?;
            s.value("own")?;
            s.map_key_end()?;
            s.map_value_begin()?;
            s.bool(true)?;
            s.map_value_end()
        }
        Parent::Seq => {
            s.seq_value_begin()?;
            s.bool(true)?;
            s.seq_value_end()
        }
        Parent::Record => {
            s.record_value_begin(None, &l)?;
            s.bool(true)?;
            s.record_value_end(None, &l)
        }
        Parent::Tuple => {
            s.tuple_value_begin(None, &i)?;
            s.bool(true)?;
            s.tuple_value_end(None, &i)
        }
        Parent::RecordTuple => {
            s.record_tuple_value_begin(None, &l, &i)?;
            s.bool(true)?;
            s.record_tuple_value_end(None, &l, &i)
        }
    }
}

/// Indexes at the top of the range have no successor; keep clear of them at the level being flattened.
pub fn tame(n: &mut Node) {
    let t = |i: &mut Idx| {
        if i.n >= isize::MAX as i128 - 1_000_000 && i.n <= isize::MAX as i128 || i.n <= isize::MIN as i128 + 1_000_000 {
            i.n = 1 << 40;
        }
    };
    match n {
        Node::Hint(_, n) => tame(n),
        Node::Enum(_, Some(c)) => tame(&mut c.node),
        Node::Tagged(id, c) => {
            id.index.as_mut().map(t);
            tame(&mut c.node)
        }
        Node::Tuple(_, _, fs) => fs.iter_mut().for_each(|f| t(&mut f.1)),
        Node::RecordTuple(_, _, fs) => fs.iter_mut().for_each(|f| t(&mut f.2)),
        _ => (),
    }
}

/// Values worth flattening: mostly containers, under layers of wrappers.
pub fn gen_flat(g: &mut Gen) -> Node {
    let cfg = Cfg { budget: *g.pick(&[6, 14, 40]), huge: g.chance(1, 4), ..Cfg::full() };
    let mut n = gen_node(g, &cfg);
    for _ in 0..3 {
        if matches!(n, Node::Map(..) | Node::Seq(..) | Node::Record(..) | Node::Tuple(..) | Node::RecordTuple(..)) || g.chance(1, 4) {
            break;
        }
        n = gen_node(g, &cfg);
    }
    for _ in 0..*g.pick(&[0, 0, 1, 1, 2, 3]) {
        let via = *g.pick(&[Via::Value, Via::Inline, Via::Inline, Via::Computed]);
        let id = gen_id(g, &cfg);
        let may = matches!(n, Node::Tag(..) | Node::Tagged(..) | Node::Record(..) | Node::Tuple(..) | Node::RecordTuple(..) | Node::Enum(..));
        let c = Box::new(Child { via, node: n });
        n = match g.below(5) {
            0 | 1 if may => Node::Enum(id, Some(c)),
            4 => Node::Hint(g.below(10) as u8, Box::new(c.node)),
            _ => Node::Tagged(id, c),
        };
    }
    tame(&mut n);
    n
}

fn splice(g: &mut Gen, st: &mut Stats) -> R {
    let p = *g.pick(&PARENTS);
    let start = *g.pick(&[0isize, 0, 0, 1, 2, 5, 100, -1, 1 << 33]);
    let k = *g.pick(&[1, 1, 2, 3]);
    let ns: Vec<Node> = (0..k).map(|_| gen_flat(g)).collect();
    let mut r = Rec::new();
    let mut want = Expected::default();
    let mut keys = Vec::new();
    let fail = |_| "flattening onto a stream that accepts everything failed".to_string();
    let h0 = |_| "HARNESS: recorder failed".to_string();
    begin(p, &mut r).map_err(h0)?;
    want.ev.push(r.ev[0].clone());
    let mut at = start;
    for n in &ns {
        st.seen(&(p, hashable(n), at));
        if g.chance(1, 3) {
            let b = r.ev.len();
            own(p, &mut r, at).map_err(h0)?;
            want.ev.extend_from_slice(&r.ev[b..]);
            at += 1;
        }
        let got = match flatten(p, &mut r, n, at) {
            Err(_) if NOALLOC => {
                st.count("noalloc_refused", 1);
                return Ok(());
            }
            got => got.map_err(fail)?,
        };
        let (next, m) = expect(p, n, at, &mut want, &mut keys);
        st.count("entries", m as u64);
        if m == 0 {
            st.count("nothing_to_flatten", 1);
        }
        if p == Parent::Seq {
            at += m as isize;
        } else {
            if got != next {
                return Err(format!("flattening onto a {p:?} at {at} returned offset {got}, expected {next}, for {n:?}"));
            }
            at = next;
        }
    }
    let b = r.ev.len();
    end(p, &mut r).map_err(h0)?;
    want.ev.extend_from_slice(&r.ev[b..]);
    st.events += r.ev.len() as u64;
    if let Some(b) = r.bad_static {
        return Err(b);
    }
    let got = no_hints(&norm_hints(&r.ev));
    let mut want = no_hints(&norm_hints(&want.ev));
    // marks stand where got and want have the same position
    unmark(&got, &mut want, &keys);
    if let Some(d) = diff(&got, &want) {
        return Err(format!("flattening onto a {p:?} from {start}: {d}\n got {}\n want {}\n for {ns:?}", super::short(&format!("{got:?}")), super::short(&format!("{want:?}"))));
    }
    parse_opt(&r.ev, false).map_err(|e| format!("the parent is not well-formed: {e} for {ns:?}"))?;
    st.count(
        match p {
            Parent::Map => "onto_map",
            Parent::Seq => "onto_seq",
            Parent::Record => "onto_record",
            Parent::Tuple => "onto_tuple",
            Parent::RecordTuple => "onto_record_tuple",
        },
        1,
    );
    if !keys.is_empty() {
        st.count("float_keys", 1);
    }
    st.sample(|| format!("{p:?} {start} {ns:?}"));
    Ok(())
}
fn hashable(n: &Node) -> Vec<u8> {
    let mut v = Vec::new();
    shape(&n.sem(), &mut v);
    v
}

/// The same calls, with tag hints anywhere: nothing changes.
fn hinted(g: &mut Gen, st: &mut Stats) -> R {
    let p = *g.pick(&PARENTS);
    let n = gen_flat(g);
    let v = Play { ev: sprinkle(g, &expected(&n).ev), fail: false };
    let at = g.below(3) as isize;
    let mut r = Rec::new();
    let got = flatten(p, &mut r, &v, at);
    if NOALLOC && got.is_err() {
        return Ok(());
    }
    let got = got.map_err(|_| format!("flattening a value with tag hints failed: {:?}", v.ev))?;
    let (mut want, mut keys) = (Expected::default(), Vec::new());
    let (next, _) = expect(p, &n, at, &mut want, &mut keys);
    let got_ev = no_hints(&norm_hints(&r.ev));
    let got_ev: Vec<Ev> = merge_again(got_ev);
    let mut want = no_hints(&norm_hints(&want.ev));
    unmark(&got_ev, &mut want, &keys);
    st.events += r.ev.len() as u64;
    st.seen(&(p, hashable(&n)));
    if let Some(d) = diff(&got_ev, &want) {
        return Err(format!("flattening onto a {p:?}: {d}\n for {:?}", v.ev));
    }
    if p != Parent::Seq && got != next {
        return Err(format!("offset {got} instead of {next} for {:?}", v.ev));
    }
    st.count("hinted", 1);
    Ok(())
}
fn merge_again(ev: Vec<Ev>) -> Vec<Ev> {
    norm_hints(&ev)
}

/// Every way to combine five sources with five parents, under the usual wrappers, with small known data.
fn table(g: &mut Gen, st: &mut Stats) -> R {
    let leaf = |g: &mut Gen| Child { via: *g.pick(&[Via::Value, Via::Inline, Via::Computed]), node: gen_node(g, &Cfg { budget: 3, ..Cfg::full() }) };
    let id = NId::default();
    for src in 0..5 {
        for wrap in 0..8 {
            let k = g.below(4) as usize;
            let n = match src {
                0 => Node::Seq(true, (0..k).map(|_| leaf(g)).collect()),
                1 => Node::Map(
                    true,
                    (0..k)
                        .map(|_| {
                            let node = match g.below(6) {
                                0 => Node::Seq(true, (0..g.idx(3)).map(|_| leaf(g)).collect()),
                                1 => gen_node(g, &Cfg { budget: 6, ..Cfg::full() }),
                                2 => Node::I(W::W64, gen_int(g, 64)),
                                _ => {
                                    let s = gen_string(g);
                                    gen_text(g, &Cfg::full(), &s)
                                }
                            };
                            (Child { via: *g.pick(&[Via::Value, Via::Inline, Via::Computed]), node }, leaf(g))
                        })
                        .collect(),
                ),
                2 => Node::Record(id.clone(), true, (0..k).map(|_| (None, gen_lab(g, &Cfg::full()), leaf(g))).collect()),
                3 => Node::Tuple(id.clone(), true, (0..k).map(|i| (None, gen_idx(g, i), leaf(g))).collect()),
                _ => Node::RecordTuple(id.clone(), true, (0..k).map(|i| (None, gen_lab(g, &Cfg::full()), gen_idx(g, i), leaf(g))).collect()),
            };
            let c = |n: Node, g: &mut Gen| Box::new(Child { via: *g.pick(&[Via::Value, Via::Inline, Via::Computed]), node: n });
            let gid = |g: &mut Gen| gen_id(g, &Cfg::full());
            let t = |n: Node, g: &mut Gen| Node::Tagged(gid(g), c(n, g));
            let e = |n: Node, g: &mut Gen| Node::Enum(gid(g), Some(c(n, g)));
            let mut n = match wrap {
                0 => n,
                1 => t(n, g),
                2 => {
                    let n = t(n, g);
                    e(n, g)
                }
                3 => {
                    let n = t(n, g);
                    let n = e(n, g);
                    t(n, g)
                }
                4 => {
                    let n = if src >= 2 { e(n, g) } else { n };
                    t(n, g)
                }
                5 => {
                    let n = t(n, g);
                    let n = e(n, g);
                    let n = t(n, g);
                    e(n, g)
                }
                6 => {
                    let n = t(n, g);
                    let n = e(n, g);
                    e(n, g)
                }
                _ => {
                    let n = if src >= 2 { e(n, g) } else { t(n, g) };
                    let n = t(n, g);
                    t(n, g)
                }
            };
            tame(&mut n);
            for p in PARENTS {
                let at = g.below(4) as isize;
                let mut r = Rec::new();
                let got = flatten(p, &mut r, &n, at);
                if NOALLOC && got.is_err() {
                    continue;
                }
                let got = got.map_err(|_| format!("flattening failed for {n:?}"))?;
                let (mut want, mut keys) = (Expected::default(), Vec::new());
                let (next, _) = expect(p, &n, at, &mut want, &mut keys);
                let got_ev = no_hints(&norm_hints(&r.ev));
                let mut want = no_hints(&norm_hints(&want.ev));
                unmark(&got_ev, &mut want, &keys);
                st.events += r.ev.len() as u64;
                st.seen(&(p, src, wrap, k, &got_ev));
                if let Some(d) = diff(&got_ev, &want) {
                    return Err(format!("flattening onto a {p:?} from {at}: {d}\n for {n:?}"));
                }
                if p != Parent::Seq && got != next {
                    return Err(format!("offset {got} instead of {next}, onto a {p:?} from {at}, for {n:?}"));
                }
                st.count("combinations", 1);
            }
        }
    }
    Ok(())
}

pub static F01: Prop = Prop {
    id: "F01",
    rule: "distinct = (parent kind, shape of the flattened value, offset) whose calls on the parent were compared with the model",
    assumptions: &[
        "explicit indexes at the flattened level stay a million away from the ends of the machine integer range",
        "a key mixing floats with other parts is checked for position and pairing, not for the spelling of the float",
    ],
    level: "exploration",
    subs: &[
        Sub { name: "splice", weight: 4, f: splice, once: false },
        Sub { name: "table", weight: 1, f: table, once: false },
        Sub { name: "hinted", weight: 2, f: hinted, once: false },
    ],
    must_see: &["entries", "nothing_to_flatten", "onto_map", "onto_seq", "onto_record", "onto_tuple", "onto_record_tuple", "combinations", "hinted", "float_keys"],
};
