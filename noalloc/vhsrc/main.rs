//! B02, S04, N01, F01, E01 and E02 in the allocator-less configuration.
#![allow(dead_code)]
#[path = "../../harness/vhsrc/cli.rs"]
mod cli;
#[path = "../../harness/vhsrc/fw.rs"]
mod fw;
#[path = "../../harness/vhsrc/gen.rs"]
mod gen;
#[path = "../../harness/vhsrc/rec.rs"]
mod rec;
#[path = "../../harness/vhsrc/tree.rs"]
mod tree;

#[path = "../../harness/vhsrc/props"]
mod props {
    pub mod e;
    pub mod f;
    pub mod n;
    pub mod r;
    use crate::fw::Stats;
    use crate::tree::{shape, Sem};
    pub fn note(st: &mut Stats, s: &Sem) {
        let mut v = Vec::new();
        shape(s, &mut v);
        st.seen(&v);
    }
    pub fn short(s: &str) -> String {
        s.chars().take(600).collect()
    }
}

use fw::*;
use gen::Gen;
use rec::*;
use sval_buffer::{BinaryBuf, TextBuf, ValueBuf};
use sval_ref::ValueRef;
use tree::*;

fn record_ref<'s, T: ValueRef<'s>>(v: &T) -> Result<Rec, String> {
    let mut r = Rec::new();
    v.stream_ref(&mut r).map_err(|_| "streaming a buffered value failed".to_string())?;
    match r.bad_static.take() {
        Some(b) => Err(b),
        None => Ok(r),
    }
}

fn frags(g: &mut Gen) -> Vec<(String, bool)> {
    let n = g.idx(5);
    (0..n)
        .map(|_| {
            let s = if g.chance(1, 3) { String::new() } else { gen_string(g) };
            (s, g.chance(1, 3))
        })
        .collect()
}

/// Whatever was accepted is there, and nothing else.
fn push(g: &mut Gen, st: &mut Stats) -> R {
    let fr = frags(g);
    st.seen(&fr);
    st.events += fr.len() as u64;
    let mut t = TextBuf::new();
    let mut b = BinaryBuf::new();
    let (mut wt, mut wb) = (String::new(), Vec::<u8>::new());
    let mut any = false;
    for (i, (f, c)) in fr.iter().enumerate() {
        let (rt, rb) = if *c {
            (t.push_fragment_computed(f), b.push_fragment_computed(f.as_bytes()))
        } else {
            (t.push_fragment(f), b.push_fragment(f.as_bytes()))
        };
        if i == 0 && !c && (rt.is_err() || rb.is_err()) {
            return Err(format!("a single borrowed fragment was refused: {fr:?}"));
        }
        any |= rt.is_err();
        if rt.is_ok() {
            wt.push_str(f);
        }
        if rb.is_ok() {
            wb.extend_from_slice(f.as_bytes());
        }
        if t.as_str() != wt || t.as_borrowed_str().map_or(false, |s| s != wt) {
            return Err(format!("text buffer holds {:?} after accepting {wt:?}: {fr:?}", t.as_str()));
        }
        if b.as_slice() != wb || b.as_borrowed_slice().map_or(false, |s| s != wb) {
            return Err(format!("binary buffer holds {:?} after accepting {wb:?}: {fr:?}", b.as_slice()));
        }
    }
    if any {
        st.count("noalloc_refused", 1);
    } else {
        st.count("noalloc_kept", 1);
        let (mt, mb) = (format!("{wt}x"), [&wb[..], &[7]].concat());
        if t != TextBuf::from(&*wt) || t == TextBuf::from(&*mt) || t.clone() != t || b != BinaryBuf::from(&wb[..]) || b == BinaryBuf::from(&mb[..]) || b.clone() != b {
            return Err(format!("equality of buffers holding {wt:?} is not by their contents"));
        }
    }
    t.clear();
    b.clear();
    if !t.as_str().is_empty() || !b.as_slice().is_empty() {
        return Err("cleared buffers are not empty".into());
    }
    Ok(())
}

/// all bytes in (possibly nested) sequences
fn bytes(s: &Sem) -> Option<Vec<u8>> {
    Some(match s {
        Sem::U(W::W8, b) => vec![*b as u8],
        Sem::Bin(b) => b.clone(),
        Sem::Tagged(_, v) | Sem::Enum(_, Some(v)) => bytes(v)?,
        Sem::Enum(_, None) => vec![],
        Sem::Seq(vs) => vs.iter().map(bytes).collect::<Option<Vec<_>>>()?.concat(),
        Sem::Tuple(_, vs) => vs.iter().map(|v| bytes(&v.2)).collect::<Option<Vec<_>>>()?.concat(),
        _ => return None,
    })
}

fn collect(g: &mut Gen, st: &mut Stats) -> R {
    let cfg = Cfg { budget: 4, max_depth: 2, ..Cfg::full() };
    let n = match g.below(4) {
        0 => gen_node(g, &cfg),
        1 => Node::Text(frags(g), g.bool()),
        2 => Node::Bin(frags(g).into_iter().map(|(s, c)| (s.into_bytes(), c)).collect(), g.bool()),
        _ => {
            let s = gen_string(g);
            let t = Node::Text(vec![(s, false)], true);
            Node::Tagged(gen_id(g, &cfg), Box::new(Child { via: *g.pick(&[Via::Value, Via::Inline, Via::Computed]), node: t }))
        }
    };
    st.seen(&format!("{n:?}"));
    st.events += 2;
    if let Ok(b) = TextBuf::collect(&n) {
        let mut s = n.sem();
        while let Sem::Tagged(_, v) | Sem::Enum(_, Some(v)) = s {
            s = *v;
        }
        match s {
            Sem::Text(t) if t == b.as_str() => st.count("noalloc_texts", 1),
            Sem::Text(t) => return Err(format!("text {t:?} collected as {:?}", b.as_str())),
            Sem::Tag(_) | Sem::Enum(_, None) | Sem::U(..) | Sem::I(..) => (),
            s => return Err(format!("{s:?} collected as text {:?}", b.as_str())),
        }
    } else if let Node::Text(f, _) = &n {
        if f.len() == 1 && !f[0].1 {
            return Err(format!("a single borrowed fragment was refused: {n:?}"));
        }
    }
    if let Ok(b) = BinaryBuf::collect(&n) {
        let mut s = n.sem();
        while let Sem::Tagged(_, v) | Sem::Enum(_, Some(v)) = s {
            s = *v;
        }
        match s {
            Sem::Bin(t) if t == b.as_slice() => st.count("noalloc_binaries", 1),
            Sem::Bin(t) => return Err(format!("binary {t:?} collected as {:?}", b.as_slice())),
            Sem::Enum(_, None) | Sem::U(..) => (),
            s @ (Sem::Seq(_) | Sem::Tuple(..)) if bytes(&s).as_deref() == Some(b.as_slice()) => (),
            s => return Err(format!("{s:?} collected as binary {:?}", b.as_slice())),
        }
    }
    Ok(())
}

fn value(g: &mut Gen, st: &mut Stats) -> R {
    let cfg = Cfg { budget: 3, max_depth: 2, ..Cfg::full() };
    let k = 1 + g.idx(4);
    let nodes: Vec<Node> = (0..k).map(|_| gen_node(g, &cfg)).collect();
    let mut kept = Vec::new();
    let mut buf = ValueBuf::new();
    for n in &nodes {
        let want = norm_hints(&expected(n).ev);
        st.events += want.len() as u64;
        match sval::Value::stream(n, &mut buf) {
            Ok(()) => {
                if !buf.is_complete() {
                    return Err(format!("captured but not complete: {n:?}"));
                }
                let r = record_ref(&buf)?;
                if let Some(d) = diff(&norm_hints(&r.ev), &want) {
                    return Err(format!("replay differs: {d}\n value: {n:?}"));
                }
                kept.push((want, buf.to_value()));
                st.count("noalloc_values", 1);
            }
            Err(_) => st.count("noalloc_values_refused", 1),
        }
        buf.clear();
        if buf.is_complete() {
            return Err("cleared buffer reports itself complete".into());
        }
    }
    for (want, v) in &kept {
        let r = record_ref(&v.clone())?;
        if let Some(d) = diff(&norm_hints(&r.ev), want) {
            return Err(format!("replay of a kept value differs: {d}"));
        }
    }
    st.seen(&format!("{:?}", nodes));
    Ok(())
}

fn fail(g: &mut Gen, st: &mut Stats) -> R {
    let n = Node::Text(frags(g), g.bool());
    let ev = expected(&n).ev;
    let at = g.idx(ev.len() + 1);
    let p = Play { ev: ev[..at].to_vec(), fail: true };
    if TextBuf::collect(&p).is_ok() || BinaryBuf::collect(&p).is_ok() || ValueBuf::collect(&p).is_ok() {
        return Err(format!("a failing value was collected: {ev:?}"));
    }
    st.seen(&(at, ev.len()));
    st.count("noalloc_failing", 1);
    Ok(())
}

/// Labels that cannot own their text.
fn labels(g: &mut Gen, st: &mut Stats) -> R {
    use sval::Label;
    let cfg = Cfg::full();
    let l = gen_lab(g, &cfg);
    let k = g.below(3);
    st.seen(&format!("{l:?}{k}"));
    st.events += 1;
    l.with(|a| {
        let mut b = a.clone();
        for _ in 0..k {
            b = Box::new(b.clone()).as_ref().clone();
        }
        for (w, x) in [("original", a), ("clone", &b)] {
            if x.as_str() != l.text || x.tag() != a.tag() || x.as_static_str() != a.as_static_str() || x != a {
                return Err(format!("{w} of {l:?} is {:?} {:?} {:?}", x.as_str(), x.tag(), x.as_static_str()));
            }
            if x.as_static_str().map_or(false, |s| s != l.text) {
                return Err(format!("{w} of {l:?} has the static text {:?}", x.as_static_str()));
            }
            if x.as_static_str().is_some() != (l.kind == LK::Static) {
                return Err(format!("{w} of {l:?} offers {:?} as static text", x.as_static_str()));
            }
            match x.try_to_owned() {
                Ok(o) => {
                    if l.kind != LK::Static {
                        return Err(format!("{w} of {l:?}, which is not static, became owned without an allocator"));
                    }
                    if o.as_str() != l.text || o.tag() != a.tag() || o.as_static_str() != a.as_static_str() || o != *a {
                        return Err(format!("{w} of {l:?} taken ownership of is {:?} {:?} {:?}", o.as_str(), o.tag(), o.as_static_str()));
                    }
                    st.count("noalloc_label_owned", 1);
                }
                Err(_) => {
                    if l.kind == LK::Static {
                        return Err(format!("{w} of {l:?}, which is static, was not made owned"));
                    }
                    st.count("noalloc_label_refused", 1);
                }
            }
        }
        let text = l.text.clone();
        let n = Label::new_computed(&text);
        if n != *a || hash(&n) != hash(a) {
            return Err(format!("{l:?} and a borrowed label of the same text are not interchangeable"));
        }
        Ok(())
    })
}
fn hash<T: std::hash::Hash>(t: &T) -> u64 {
    use std::hash::Hasher;
    let mut h = std::collections::hash_map::DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
static S04: Prop = Prop {
    id: "S04",
    rule: "allocator-less build",
    assumptions: &[],
    level: "exploration",
    subs: &[Sub { name: "noalloc_labels", weight: 1, f: labels, once: false }],
    must_see: &["noalloc_label_owned", "noalloc_label_refused"],
};

static B02: Prop = Prop {
    id: "B02",
    rule: "allocator-less build",
    assumptions: &[],
    level: "exploration",
    subs: &[
        Sub { name: "noalloc_push", weight: 2, f: push, once: false },
        Sub { name: "noalloc_collect", weight: 2, f: collect, once: false },
        Sub { name: "noalloc_value", weight: 2, f: value, once: false },
        Sub { name: "noalloc_fail", weight: 1, f: fail, once: false },
    ],
    must_see: &["noalloc_refused", "noalloc_kept", "noalloc_texts", "noalloc_binaries", "noalloc_values", "noalloc_values_refused", "noalloc_failing"],
};

fn main() {
    cli::main(vec![&B02, &S04, &props::n::N01, &props::f::F01, &props::e::E01, &props::e::E02]);
}
