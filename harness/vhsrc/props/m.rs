//! M01: workloads for the sanitizers. The deciding monitors are Miri (aliasing, validity, bounds, leaks, data races) and
//! AddressSanitizer; what is read is also compared with what was written, since freed memory often reads as garbage.

use super::f::{self, PARENTS};
use crate::fw::{Prop, Stats, Sub, R};
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use std::borrow::Borrow;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Barrier};
use sval::{BinaryArray, BinarySlice, Display, Index, Label, MapSlice, Stream, Tag, Value as _};
use sval_buffer::{BinaryBuf, TextBuf, Value, ValueBuf};
use sval_ref::{Ref, ValueRef};

fn small(g: &mut Gen) -> Node {
    let cfg = Cfg { json_tags: true, budget: *g.pick(&[2, 4, 7]), max_depth: 3, ..Cfg::full() };
    // long text is where small-size shortcuts end
    if g.chance(1, 12) {
        with_long(8, || gen_node(g, &cfg))
    } else {
        gen_node(g, &cfg)
    }
}
fn text(g: &mut Gen) -> String {
    if g.chance(1, 30) {
        return gen_long_string(g);
    }
    (0..g.below(5)).map(|_| *g.pick(&['a', 'b', '"', '\n', 'é', '😀', '0'])).collect()
}
fn bytes(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 30) {
        return gen_long_string(g).into_bytes();
    }
    (0..g.below(6)).map(|_| g.below(256) as u8).collect()
}
/// Put freed memory to use.
fn churn() {
    let mut v = Vec::new();
    for n in [1usize, 2, 3, 5, 8, 16, 24, 32, 48, 64, 128] {
        v.push(vec![0xA5u8; n]);
    }
    std::hint::black_box(&v);
}
fn record<V: sval::Value + ?Sized>(v: &V) -> Vec<Ev> {
    let mut r = Rec::new();
    let _ = v.stream(&mut r);
    r.ev
}
fn forget_borrow(ev: &[Ev]) -> Vec<Ev> {
    ev.iter()
        .map(|e| match e {
            Ev::TextFrag(s, _) => Ev::TextFrag(s.clone(), false),
            Ev::BinFrag(s, _) => Ev::BinFrag(s.clone(), false),
            e => e.clone(),
        })
        .collect()
}
fn same(what: &str, got: &[Ev], want: &[Ev]) -> R {
    match diff(&forget_borrow(got), &forget_borrow(want)) {
        None => Ok(()),
        Some(d) => Err(format!("{what}: {d}")),
    }
}

// ---------------------------------------------------------------------------------------------------- labels

fn use_label(l: &Label, want: &str) -> R {
    let s: &str = l.borrow();
    let mut h = std::collections::hash_map::DefaultHasher::new();
    l.hash(&mut h);
    std::hint::black_box(h.finish());
    if l.as_str() != want || s != want || l.as_static_str().is_some_and(|s| s != want) {
        return Err(format!("a label of {want:?} reads as {:?}", l.as_str()));
    }
    std::hint::black_box(format!("{l:?}"));
    if let Some(t) = l.tag() {
        std::hint::black_box(format!("{t:?}"));
    }
    Ok(())
}

fn labels(g: &mut Gen, st: &mut Stats) -> R {
    let texts: Vec<String> = (0..3).map(|_| text(g)).collect();
    let tag = Tag::new("vh::m");
    let mut kept: Vec<(Label<'static>, String)> = Vec::new();
    {
        let mut pool: Vec<(Label, String)> = Vec::new();
        let steps = g.range(3, 14);
        for _ in 0..steps {
            let k = g.below(12);
            let i = if pool.is_empty() { 0 } else { g.idx(pool.len()) };
            st.count("label_steps", 1);
            match k {
                0 => pool.push((Label::new("static"), "static".into())),
                1 => {
                    let t = g.pick(&texts);
                    pool.push((Label::new_computed(t), t.clone()))
                }
                2 => {
                    let t = text(g);
                    pool.push((Label::new_owned(t.clone()), t))
                }
                _ if pool.is_empty() => (),
                3 => {
                    let (l, t) = &pool[i];
                    let c = (l.clone(), t.clone());
                    pool.push(c)
                }
                4 => kept.push((pool[i].0.to_owned(), pool[i].1.clone())),
                5 => {
                    if let Ok(l) = pool[i].0.try_to_owned() {
                        kept.push((l, pool[i].1.clone()))
                    }
                }
                6 => {
                    let (l, t) = pool.remove(i);
                    pool.push((l.with_tag(&tag), t))
                }
                7 => drop(pool.remove(i)),
                8 => {
                    let j = g.idx(pool.len());
                    if (pool[i].0 == pool[j].0) != (pool[i].1 == pool[j].1) {
                        return Err(format!("labels {:?} and {:?} compare wrongly", pool[i].1, pool[j].1));
                    }
                    pool.swap(i, j)
                }
                9 => {
                    // replace in place
                    let t = text(g);
                    pool[i] = (Label::new_owned(t.clone()), t)
                }
                10 => {
                    let j = g.idx(pool.len());
                    let (l, t) = (pool[j].0.clone(), pool[j].1.clone());
                    pool[i].0.clone_from(&l);
                    pool[i].1 = t;
                }
                _ => use_label(&pool[i].0, &pool[i].1)?,
            }
        }
        for (l, t) in &pool {
            use_label(l, t)?;
        }
    }
    drop(texts);
    churn();
    for (l, t) in &kept {
        use_label(l, t)?;
        use_label(&l.clone(), t)?;
    }
    if !kept.is_empty() {
        st.count("labels_kept", kept.len() as u64);
        let h = std::thread::spawn(move || {
            let r = kept.iter().try_for_each(|(l, t)| use_label(l, t));
            drop(kept);
            r
        });
        h.join().map_err(|_| "reading labels on another thread panicked".to_string())??;
    }
    st.seen(&("labels", g.rec.clone()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------------- buffers

/// Read a buffered value in every way after everything it was made from is gone.
fn read_back(what: &str, v: &Value<'static>, want: &[Ev]) -> R {
    same(what, &record(v), want)?;
    let mut r = Rec::new();
    v.stream_ref(&mut r).map_err(|_| format!("{what}: replay failed"))?;
    same(what, &r.ev, want)?;
    std::hint::black_box(format!("{v:?}").len());
    Ok(())
}

fn owned(g: &mut Gen, st: &mut Stats) -> R {
    let n = Box::new(small(g));
    let want = record(&ValueBuf::collect(&*n).map_err(|e| format!("collect failed: {e}"))?);
    let k = g.below(8);
    let v: Value<'static> = match k {
        0 => Value::collect(&*n).and_then(|v| v.into_owned()),
        1 => ValueBuf::collect(&*n).and_then(|v| v.into_owned()).map(|v| v.into_value()),
        2 => Value::collect_owned(&*n),
        3 => ValueBuf::collect(&*n).and_then(|v| v.to_value().into_owned()),
        4 => ValueBuf::collect(&*n).and_then(|v| v.into_owned()).map(|v| v.to_value()),
        5 => Value::collect(&*n).map(|v| v.clone()).and_then(|v| v.into_owned()),
        6 => Value::collect(&*n).and_then(|v| v.into_owned()).and_then(|v| v.clone().into_owned()),
        _ => Value::collect(&*n).and_then(|v| {
            // a buffer of a buffer
            let w = Value::collect(&v)?.into_owned();
            drop(v);
            w
        }),
    }
    .map_err(|e| format!("buffering failed: {e}"))?;
    drop(n);
    churn();
    st.seen(&("owned", k, hashes(&want)));
    st.count("owned_values", 1);
    read_back("an owned buffer", &v, &want)?;
    let c = v.clone();
    drop(v);
    churn();
    read_back("a clone of an owned buffer", &c, &want)?;
    let h = std::thread::spawn(move || read_back("an owned buffer on another thread", &c, &want));
    h.join().map_err(|_| "reading a buffer on another thread panicked".to_string())?
}
fn hashes(ev: &[Ev]) -> u64 {
    crate::fw::hash_of(&ev.iter().map(std::mem::discriminant).collect::<Vec<_>>())
}

/// Buffers stopped in the middle, then converted, cleared, reused, dropped.
fn partial(g: &mut Gen, st: &mut Stats) -> R {
    let n = Box::new(small(g));
    let m = small(g);
    let calls = record(&*n).len();
    let at = g.idx(calls + 1);
    let mut b = ValueBuf::new();
    {
        // truncate the stream after `at` calls
        let mut t = Cut { left: at, to: &mut b };
        let _ = (*n).stream(&mut t);
    }
    st.count("partial_buffers", 1);
    st.seen(&("partial", at, hashes(&record(&*n))));
    std::hint::black_box(b.is_complete());
    let _ = format!("{b:?}");
    match g.below(5) {
        0 => {
            let o = b.into_owned();
            drop(n);
            churn();
            if let Ok(o) = o {
                let _ = format!("{o:?}");
                std::hint::black_box(o.is_complete());
                quiet(|| {
                    record(&o);
                });
                let mut o = o;
                o.clear();
                let m = Box::new(m.clone());
                let _ = sval::stream_computed(&mut o, &*m);
                drop(m);
                churn();
                record(&o);
            }
        }
        1 => {
            b.clear();
            m.stream(&mut b).map_err(|_| "buffering into a cleared buffer failed".to_string())?;
            let want = record(&ValueBuf::collect(&m).map_err(|e| e.to_string())?);
            let v = b.into_owned().map_err(|e| e.to_string())?.into_value();
            drop(n);
            churn();
            read_back("a reused buffer", &v, &want)?;
        }
        2 => drop(b),
        3 => {
            let c = b.to_value();
            drop(b);
            quiet(|| {
                record(&c);
            });
        }
        _ => {
            quiet(|| {
                record(&b.to_value());
            });
            let _ = b.into_err();
        }
    }
    Ok(())
}
/// A panic about a malformed (cut short) stream is not a memory error.
fn quiet(f: impl FnOnce()) {
    let _ = catch_unwind(AssertUnwindSafe(f));
}
/// Forwards the first calls only, then fails.
struct Cut<'a, S> {
    left: usize,
    to: &'a mut S,
}
macro_rules! cut {
    ($($f:ident($($a:ident: $t:ty),*);)*) => {
        impl<'sval, S: Stream<'sval>> Stream<'sval> for Cut<'_, S> {
            $(fn $f(&mut self, $($a: $t),*) -> sval::Result {
                if self.left == 0 { return sval::error(); }
                self.left -= 1;
                self.to.$f($($a),*)
            })*
        }
    };
}
cut! {
    null(); bool(v: bool); u8(v: u8); u16(v: u16); u32(v: u32); u64(v: u64); u128(v: u128); i8(v: i8); i16(v: i16); i32(v: i32); i64(v: i64); i128(v: i128);
    f32(v: f32); f64(v: f64); text_begin(n: Option<usize>); text_fragment(f: &'sval str); text_fragment_computed(f: &str); text_end();
    binary_begin(n: Option<usize>); binary_fragment(f: &'sval [u8]); binary_fragment_computed(f: &[u8]); binary_end();
    map_begin(n: Option<usize>); map_key_begin(); map_key_end(); map_value_begin(); map_value_end(); map_end();
    seq_begin(n: Option<usize>); seq_value_begin(); seq_value_end(); seq_end(); tag_hint(t: &Tag);
    enum_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>); enum_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tagged_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>); tagged_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tag(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    record_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>); record_value_begin(t: Option<&Tag>, l: &Label);
    record_value_end(t: Option<&Tag>, l: &Label); record_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>); tuple_value_begin(t: Option<&Tag>, i: &Index);
    tuple_value_end(t: Option<&Tag>, i: &Index); tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    record_tuple_begin(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>); record_tuple_value_begin(t: Option<&Tag>, l: &Label, i: &Index);
    record_tuple_value_end(t: Option<&Tag>, l: &Label, i: &Index); record_tuple_end(t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
}

/// Text and binary buffers: histories of pushes, clears, clones, conversions; results outlive what isn't borrowed.
fn fragments(g: &mut Gen, st: &mut Stats) -> R {
    let src: Vec<String> = (0..3).map(|_| text(g)).collect();
    let bin: Vec<Vec<u8>> = (0..3).map(|_| bytes(g)).collect();
    let (mut t, mut want) = (TextBuf::new(), String::new());
    let (mut b, mut bwant) = (BinaryBuf::new(), Vec::<u8>::new());
    for _ in 0..g.range(1, 8) {
        st.count("fragment_steps", 1);
        match g.below(9) {
            0 => {
                let s = g.pick(&src);
                t.push_fragment(s).map_err(|e| e.to_string())?;
                want.push_str(s);
            }
            1 => {
                let s = text(g);
                t.push_fragment_computed(&s).map_err(|e| e.to_string())?;
                want.push_str(&s);
            }
            2 => {
                let x = g.below(1000);
                t.push_display(x).map_err(|e| e.to_string())?;
                write!(want, "{x}").unwrap();
            }
            3 => {
                let s = g.pick(&bin);
                b.push_fragment(s).map_err(|e| e.to_string())?;
                bwant.extend_from_slice(s);
            }
            4 => {
                let s = bytes(g);
                b.push_fragment_computed(&s).map_err(|e| e.to_string())?;
                bwant.extend_from_slice(&s);
            }
            5 => {
                t.clear();
                b.clear();
                want.clear();
                bwant.clear();
            }
            6 => {
                let (c, d) = (t.clone(), b.clone());
                drop(std::mem::replace(&mut t, c));
                drop(std::mem::replace(&mut b, d));
            }
            7 => {
                let i = g.idx(3);
                t = TextBuf::from(&*src[i]);
                want = src[i].clone();
                b = BinaryBuf::from(&*bin[i]);
                bwant = bin[i].clone();
            }
            _ => {
                t.write_str("w").map_err(|_| "write failed".to_string())?;
                want.push('w');
            }
        }
        if t.as_str() != want || b.as_slice() != bwant || t.as_borrowed_str().is_some_and(|s| s != want) || b.as_borrowed_slice().is_some_and(|s| s != bwant) {
            return Err(format!("collected {t:?} and {b:?}, expected {want:?} and {bwant:?}"));
        }
    }
    let keep = (t.as_borrowed_str(), b.as_borrowed_slice());
    let (v, w) = (Value::collect(&t), Value::collect(&b));
    let (v, w) = (v.and_then(|v| v.into_owned()), w.and_then(|v| v.into_owned()));
    let (rt, rb) = (record(&t), record(&b));
    drop((t, b));
    churn();
    if keep.0.is_some_and(|s| s != want) || keep.1.is_some_and(|s| s != bwant) {
        return Err("borrowed contents changed when the buffer was dropped".into());
    }
    drop((src, bin));
    churn();
    read_back("a buffered text", &v.map_err(|e| e.to_string())?, &rt)?;
    read_back("a buffered binary", &w.map_err(|e| e.to_string())?, &rb)?;
    st.seen(&("fragments", g.rec.clone()));
    Ok(())
}

// ---------------------------------------------------------------------------------------------------- wrappers

/// Reinterpreting references: the wrapper must see exactly the wrapped memory, sized or not.
fn casts(g: &mut Gen, st: &mut Stats) -> R {
    let s = text(g).into_boxed_str();
    let by = bytes(g).into_boxed_slice();
    let k = g.below(10);
    st.seen(&("casts", k, s.len(), by.len()));
    st.count("casts", 1);
    let n = small(g);
    match k {
        0 => {
            let d: &Display<str> = Display::new_borrowed(&s);
            std::hint::black_box(std::mem::size_of_val(d));
            if std::mem::size_of_val(d) != s.len() {
                return Err("Display::new_borrowed resized its value".into());
            }
            let owned = Display::new(String::from(&*s));
            record(&owned);
            if owned.inner() != &*s || owned.into_inner() != *s {
                return Err("Display lost its value".into());
            }
            let num = g.below(100);
            same("Display", &record(Display::new_borrowed(&num)), &[Ev::TextBegin(None), Ev::TextFrag(num.to_string(), false), Ev::TextEnd])?;
        }
        1 => {
            let b = BinarySlice::new(&by);
            record(b);
            if b.as_slice() != &*by || b.as_ref() != &*by {
                return Err("BinarySlice shows other bytes".into());
            }
            std::hint::black_box(format!("{b:?}"));
        }
        2 => {
            let a = [g.below(256) as u8, 2, 3];
            let b = BinaryArray::new(&a);
            record(b);
            if b.as_slice() != &a || record(BinaryArray::new(&[])).len() != 3 && false {
                return Err("BinaryArray shows other bytes".into());
            }
        }
        3 => {
            let m: Vec<(String, Node)> = (0..g.below(4)).map(|_| (text(g), small(g))).collect();
            let w = MapSlice::new(&m);
            record(w);
            if w.as_slice().len() != m.len() || w.as_slice().iter().zip(&m).any(|(a, b)| a.0 != b.0) {
                return Err("MapSlice shows other entries".into());
            }
            record(MapSlice::<(), ()>::new(&[((), ()), ((), ())]));
        }
        4 => {
            let r = Ref::new_borrowed(&n);
            same("Ref", &record(r), &record(&n))?;
            let _: &Ref<str> = Ref::new_borrowed(&*s);
            let o = Ref::new(&n);
            let mut rec = Rec::new();
            let _ = o.stream_ref(&mut rec);
            same("Ref", &rec.ev, &record(&n))?;
            std::hint::black_box(*o.inner());
            std::hint::black_box(o.into_inner());
        }
        5 => {
            std::hint::black_box(format!("{} {:?}", sval_fmt::ToFmt::new_borrowed(&n), sval_fmt::ToFmt::new(&n)));
            record(sval_fmt::DebugToValue::new_borrowed(&n));
            record(sval_fmt::DisplayToValue::new_borrowed(&s));
        }
        6 => {
            let x = sval_serde::ToSerialize::new_borrowed(&n);
            std::hint::black_box(serde_json::to_string(x).is_ok());
            let m: BTreeMap<String, Option<u8>> = (0..g.below(3)).map(|i| (text(g), (i > 0).then_some(1))).collect();
            record(sval_serde::ToValue::new_borrowed(&m));
            record(sval_serde::ToValue::new_borrowed(&s));
        }
        7 => {
            let j = sval_json::JsonStr::new(&s);
            record(j);
            std::hint::black_box((j.as_str().len(), j.as_bytes().len(), format!("{j:?} {j}")));
            let b = sval_json::JsonStr::boxed(s.clone());
            let c: Box<sval_json::JsonStr> = Box::<str>::from(&*s).into();
            let d = sval_json::JsonStr::boxed(String::from(&*s));
            if b.as_str() != &*s || c.as_str() != &*s || d.as_str() != &*s {
                return Err("boxed JSON shows other text".into());
            }
            let h = std::thread::spawn(move || (b.as_str().len(), drop(b), drop(c)));
            h.join().map_err(|_| "dropping boxed JSON panicked".to_string())?;
        }
        8 => {
            // streams reinterpreted as short-lived ones, several layers deep
            let mut r = Rec::new();
            sval::stream_computed(&mut r, &n).map_err(|_| "streaming failed".to_string())?;
            let v = Twice(Twice(n));
            let mut q = Rec::new();
            q.value_computed(&v).map_err(|_| "streaming failed".to_string())?;
            same("value_computed", &q.ev, &r.ev)?;
        }
        _ => {
            // trait objects
            let d: Box<dyn sval_dynamic::Value> = Box::new(n);
            let ev = record(&*d);
            let mut r = Rec::new();
            {
                let mut s: Box<dyn sval_dynamic::Stream> = Box::new(&mut r);
                let _ = (*d).stream(&mut s);
            }
            same("dyn", &r.ev, &ev)?;
            let v = Value::collect(&*d).and_then(|v| v.into_owned()).map_err(|e| e.to_string())?;
            drop(d);
            churn();
            record(&v);
        }
    }
    Ok(())
}
struct Twice<T>(T);
impl<T: sval::Value> sval::Value for Twice<T> {
    fn stream<'sval, S: Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value_computed(&self.0)
    }
}

// ---------------------------------------------------------------------------------------------------- panics

/// A stream that panics at a chosen call.
struct Bomb(usize);
impl Bomb {
    fn tick(&mut self) -> sval::Result {
        if self.0 == 0 {
            std::panic::panic_any("bomb");
        }
        self.0 -= 1;
        Ok(())
    }
}
impl<'sval> Stream<'sval> for Bomb {
    fn null(&mut self) -> sval::Result {
        self.tick()
    }
    fn bool(&mut self, _: bool) -> sval::Result {
        self.tick()
    }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result {
        self.tick()
    }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result {
        self.tick()
    }
    fn text_end(&mut self) -> sval::Result {
        self.tick()
    }
    fn i64(&mut self, _: i64) -> sval::Result {
        self.tick()
    }
    fn f64(&mut self, _: f64) -> sval::Result {
        self.tick()
    }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
        self.tick()
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.tick()
    }
    fn seq_value_end(&mut self) -> sval::Result {
        self.tick()
    }
    fn seq_end(&mut self) -> sval::Result {
        self.tick()
    }
}

/// Values, streams and callbacks that panic half-way: whatever was under construction is dropped or used afterwards.
fn unwind(g: &mut Gen, st: &mut Stats) -> R {
    let n = small(g);
    let steps = g.idx(8);
    let k = g.below(12);
    st.count("unwinds", 1);
    st.seen(&("unwind", k, steps, hashes(&record(&n))));
    let mut buf = ValueBuf::new();
    let mut tb = TextBuf::new();
    let mut rec = Rec::new();
    arm_panic(steps);
    quiet(|| match k {
        0 => {
            let _ = sval::stream(&mut buf, &n);
        }
        1 => {
            let _ = Value::collect_owned(&n);
        }
        2 => {
            let _ = Value::collect(&n).and_then(|v| v.into_owned());
        }
        3 => {
            let _ = sval_json::stream_to_string(&n);
        }
        4 => {
            let _ = tb.push_display(sval_fmt::ToFmt::new(&n));
        }
        5 => {
            let _ = serde_json::to_string(&sval_serde::ToSerialize::new(&n));
        }
        6 => {
            let _ = sval::stream_computed(&mut rec, &n);
        }
        7 => {
            let p = *g.pick(&PARENTS);
            let _ = f::flatten(p, &mut rec, &n, 0);
        }
        8 => {
            let _ = TextBuf::collect(&n).map(|t| t.as_str().len());
            let _ = BinaryBuf::collect(&n).map(|t| t.as_slice().len());
        }
        9 => {
            let d: &dyn sval_dynamic::Value = &n;
            let mut s: Box<dyn sval_dynamic::Stream> = Box::new(&mut rec);
            let _ = d.stream(&mut s);
        }
        10 => {
            disarm();
            let v = Value::collect_owned(&n).unwrap();
            let _ = v.stream(&mut Bomb(steps));
        }
        _ => {
            disarm();
            let _ = sval::stream_computed(&mut Bomb(steps), &n);
        }
    });
    if disarm() {
        st.count("unwound", 1);
    }
    churn();
    // what survived is still usable
    quiet(|| {
        record(&buf);
    });
    std::hint::black_box(buf.is_complete());
    let o = buf.to_value().into_owned();
    buf.clear();
    sval::stream(&mut buf, &n).map_err(|_| "a cleared buffer failed".to_string())?;
    same("a buffer cleared after a panic", &record(&buf), &record(&ValueBuf::collect(&n).map_err(|e| e.to_string())?))?;
    drop(buf);
    drop(n);
    if let Ok(o) = o {
        quiet(|| {
            record(&o);
        });
        std::hint::black_box(format!("{o:?}"));
    }
    std::hint::black_box(tb.as_str().len());
    Ok(())
}

// ---------------------------------------------------------------------------------------------------- threads

/// Shared objects cloned, read and dropped by several threads at once.
fn threads(g: &mut Gen, st: &mut Stats) -> R {
    let n = small(g);
    let t = text(g);
    let borrowed = text(g);
    let lab = Arc::new((Label::new_owned(t.clone()).with_tag(&CUSTOM1), Label::new("static"), t.clone()));
    let view = Label::new_computed(&borrowed);
    let val = Arc::new(Value::collect_owned(&n).map_err(|e| e.to_string())?);
    let bv = ValueBuf::collect(&n).map_err(|e| e.to_string())?;
    let mut tb = TextBuf::from(&*borrowed);
    if g.bool() {
        tb.push_fragment_computed("x").map_err(|e| e.to_string())?;
    }
    let js: Arc<sval_json::JsonStr> = Arc::from(sval_json::JsonStr::boxed("{\"a\":1}"));
    let want = record(&*val);
    let ways: Vec<Vec<u64>> = (0..3).map(|_| (0..g.range(1, 4)).map(|_| g.below(7)).collect()).collect();
    let start = Barrier::new(ways.len());
    st.count("thread_cases", 1);
    st.seen(&("threads", ways.clone()));
    let out: Vec<R> = std::thread::scope(|s| {
        let hs: Vec<_> = ways
            .iter()
            .map(|w| {
                let (lab, val, js) = (lab.clone(), val.clone(), js.clone());
                let (view, bv, tb, borrowed, want, start) = (&view, &bv, &tb, &borrowed, &want, &start);
                s.spawn(move || -> R {
                    start.wait();
                    for k in w {
                        match k {
                            0 => {
                                let c = lab.0.clone();
                                use_label(&lab.0, &lab.2)?;
                                use_label(&c, &lab.2)?;
                                drop(c)
                            }
                            1 => {
                                use_label(&view.clone(), borrowed)?;
                                use_label(&view.to_owned(), borrowed)?;
                            }
                            2 => {
                                same("a shared buffer", &record(&*val), want)?;
                                let c = (*val).clone();
                                same("a clone of a shared buffer", &record(&c), want)?;
                            }
                            3 => {
                                let c = bv.to_value().into_owned().map_err(|e| e.to_string())?;
                                same("an owned copy of a shared buffer", &record(&c), want)?;
                            }
                            4 => {
                                if tb.clone().as_str() != tb.as_str() {
                                    return Err("a clone of a shared text differs".into());
                                }
                            }
                            5 => {
                                record(&*js);
                            }
                            _ => use_label(&lab.1.clone().with_tag(&CUSTOM2), "static")?,
                        }
                    }
                    drop((lab, val, js));
                    Ok(())
                })
            })
            .collect();
        drop((lab, val, js));
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
    });
    out.into_iter().collect()
}

// ---------------------------------------------------------------------------------------------------- other monitors

/// The workloads of the other properties; only memory errors count here.
fn others(g: &mut Gen, st: &mut Stats) -> R {
    let props = super::all();
    let subs: Vec<&Sub> = props.iter().filter(|p| p.id != "M01").flat_map(|p| p.subs.iter()).filter(|s| !s.once && s.name != "deep" && !(cfg!(miri) && s.slow_under_miri())).collect();
    let s = subs[g.idx(subs.len())];
    st.count("other_workloads", 1);
    st.seen(&("others", s.name, g.below(1 << 20)));
    let _ = crate::fw::run_case(s.f, g, &mut Stats::default());
    Ok(())
}

pub static M01: Prop = Prop {
    id: "M01",
    rule: "distinct = (workload, choices) executed to the end under the sanitizer",
    assumptions: &[
        "Miri's default aliasing model (stacked borrows) and weak-memory emulation; its scheduler explores random interleavings",
        "AddressSanitizer runs without leak detection (it needs ptrace); leaks are judged by Miri",
    ],
    level: "exploration",
    subs: &[
        Sub { name: "labels", weight: 3, f: labels, once: false },
        Sub { name: "owned", weight: 3, f: owned, once: false },
        Sub { name: "partial", weight: 2, f: partial, once: false },
        Sub { name: "fragments", weight: 2, f: fragments, once: false },
        Sub { name: "casts", weight: 3, f: casts, once: false },
        Sub { name: "unwind", weight: 2, f: unwind, once: false },
        Sub { name: "threads", weight: 3, f: threads, once: false },
        Sub { name: "others", weight: 2, f: others, once: false },
    ],
    must_see: &["label_steps", "labels_kept", "owned_values", "partial_buffers", "fragment_steps", "casts", "unwinds", "unwound", "thread_cases", "other_workloads"],
};
