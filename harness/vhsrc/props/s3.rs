//! S06: failures stop streaming and are reported. S07: short-lived data stays short-lived.

use super::f::{self, PARENTS};
use super::{note, short};
use crate::fw::{Prop, Stats, Sub, R};
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use crate::types;
use sval::{Index, Label, Stream, Tag, Value as _};
use sval_buffer::{BinaryBuf, TextBuf, ValueBuf};
use sval_ref::{Ref, ValueRef};
use std::collections::BTreeMap;

// ------------------------------------------------------------------------------------------- S06

/// Drive a recorder rejecting each call in turn: nothing may follow a rejection, and the caller must hear of it.
pub fn stops(what: &str, st: &mut Stats, f: &mut dyn FnMut(&mut Rec) -> sval::Result) -> R {
    let mut clean = Rec::new();
    f(&mut clean).map_err(|_| format!("{what}: failed for a stream that accepts everything"))?;
    let n = clean.ev.len();
    // all positions of small values, the ends and an even spread of large ones
    let step = if n <= 80 { 1 } else { n / 60 };
    let mut k = 0;
    while k < n {
        let mut r = Rec::failing(k);
        let res = f(&mut r);
        st.count("failing_streams", 1);
        if !r.failed {
            return Err(format!("{what}: {} calls at first, {} calls when call #{k} is to be rejected", n, r.ev.len()));
        }
        if r.after_failure > 0 {
            return Err(format!("{what}: {} more calls after call #{k} of {n} ({:?}) was rejected", r.after_failure, clean.ev[k]));
        }
        if let Some(d) = diff(&r.ev, &clean.ev[..k]) {
            return Err(format!("{what}: before the failing call #{k}: {d}"));
        }
        if res.is_ok() {
            return Err(format!("{what}: success reported although call #{k} of {n} ({:?}) was rejected", clean.ev[k]));
        }
        st.events += k as u64 + 1;
        k += if k + step >= n && k + 1 < n { n - 1 - k } else { step };
    }
    let mut again = Rec::new();
    f(&mut again).map_err(|_| format!("{what}: failed after an earlier failure"))?;
    if let Some(d) = diff(&again.ev, &clean.ev) {
        return Err(format!("{what}: streamed again after failures: {d}"));
    }
    let sh: Vec<std::mem::Discriminant<Ev>> = clean.ev.iter().map(std::mem::discriminant).collect();
    st.seen(&sh);
    Ok(())
}
pub fn stops_value<V: sval::Value + ?Sized>(what: &str, v: &V, st: &mut Stats) -> R {
    stops(what, st, &mut |r| v.stream(r))?;
    stops(what, st, &mut |r| sval::stream(r, v))?;
    stops(what, st, &mut |r| sval::stream_computed(r, v))
}

fn s06_stacks(g: &mut Gen, st: &mut Stats) -> R {
    use super::s1::*;
    let n = gen_node(g, &Cfg { json_tags: true, budget: 14, ..Cfg::full() });
    let (vb, sb) = (g.below(4) as u8, g.below(4) as u8);
    let (pv, ps) = (gen_plan(g, 8), gen_plan(g, 4));
    let route = g.below(8);
    let ctx = format!("value wrappers {vb}/{pv:?}, stream wrappers {sb}/{ps:?}, route {route}: {}", short(&format!("{n:?}")));
    let mut out = Ok(());
    base_value(&n, vb, &pv, &mut |v| {
        let (vv, vc) = (ViaValue(v), ViaComputed(v, route == 3));
        let rf = Ref::new(v);
        out = stops(&ctx, st, &mut |r| {
            let mut res = Ok(());
            base_stream(r, sb, &ps, &mut |s| {
                res = match route {
                    0 => sval::Value::stream(v, s),
                    1 => s.value(v),
                    2 => s.value(&vv),
                    3 | 4 => s.value(&vc),
                    5 => s.value_computed(&vv),
                    6 => sval::stream(s, v),
                    _ => sval_ref::stream_ref(s, &rf),
                }
            });
            res
        });
    });
    st.count("stacks", 1);
    out
}
/// Streams implementing parts of the interface, reached through the documented fallbacks.
fn s06_lowered(g: &mut Gen, st: &mut Stats) -> R {
    use super::s1::{MaskRec, MinRec, M_ALL};
    let n = gen_node(g, &Cfg { budget: 12, ..Cfg::full() });
    let mask = g.u64() as u32 & M_ALL;
    st.count("lowered", 1);
    stops(&format!("stream implementing {mask:#x}: {}", short(&format!("{n:?}"))), st, &mut |r| {
        let mut m = MaskRec { rec: std::mem::take(r), mask };
        let res = sval::Value::stream(&n, &mut m);
        *r = m.rec;
        res
    })?;
    // 128-bit numbers a minimal stream cannot take are fine: they arrive as text
    stops(&format!("minimal stream: {}", short(&format!("{n:?}"))), st, &mut |r| {
        let mut m = MinRec { rec: std::mem::take(r) };
        let res = sval::Value::stream(&n, &mut m);
        *r = m.rec;
        res
    })
}
fn s06_builtins(g: &mut Gen, st: &mut Stats) -> R {
    super::s2::FAIL_STOP.set(true);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| if g.chance(2, 3) { super::s2::s05_types(g, st) } else { super::s2::s05_tuples(g, st) }));
    super::s2::FAIL_STOP.set(false);
    st.count("builtins", 1);
    match r {
        Ok(r) => r,
        Err(e) => std::panic::resume_unwind(e),
    }
}
fn s06_sources(g: &mut Gen, st: &mut Stats) -> R {
    st.count("sources", 1);
    match g.below(9) {
        0 => {
            let t = types::gen_any(g);
            stops_value(&format!("derived {t:?}"), &t, st)
        }
        1 => {
            let t = types::gen_any(g);
            stops_value(&format!("serde {t:?}"), &sval_serde::ToValue::new(&t), st)?;
            stops_value(&format!("serde {t:?}"), sval_serde::ToValue::new_borrowed(&t), st)?;
            stops("sval_serde::stream", st, &mut |r| sval_serde::stream(r, &t))
        }
        2 | 3 => {
            let n = gen_node(g, &Cfg { budget: 16, ..Cfg::full() });
            let Ok(b) = ValueBuf::collect(&n) else { return Err(format!("buffering failed for {n:?}")) };
            let w = format!("buffered {}", short(&format!("{n:?}")));
            stops_value(&w, &b, st)?;
            stops(&w, st, &mut |r| b.stream_ref(r))?;
            let v = b.to_value();
            stops_value(&w, &v, st)?;
            stops(&w, st, &mut |r| v.stream_ref(r))?;
            let o = b.into_owned().map_err(|_| "into_owned failed".to_string())?;
            stops(&w, st, &mut |r| sval_ref::stream_ref(r, &o))
        }
        4 => {
            let s = gen_string(g);
            let mut t = TextBuf::new();
            for f in split_text(g, &s) {
                t.push_fragment_computed(&f).map_err(|_| "push failed".to_string())?;
            }
            stops_value("TextBuf", &t, st)?;
            stops("TextBuf", st, &mut |r| t.stream_ref(r))?;
            let mut b = BinaryBuf::new();
            b.push_fragment_computed(s.as_bytes()).map_err(|_| "push failed".to_string())?;
            stops_value("BinaryBuf", &b, st)?;
            stops("BinaryBuf", st, &mut |r| b.stream_ref(r))?;
            let b = BinaryBuf::from(s.as_bytes());
            stops("BinaryBuf", st, &mut |r| b.stream_ref(r))?;
            stops_value("JsonStr", sval_json::JsonStr::new("{\"a\":1}"), st)
        }
        5 | 6 => {
            let n = f::gen_flat(g);
            let p = *g.pick(&PARENTS);
            stops(&format!("flattened onto {p:?}: {}", short(&format!("{n:?}"))), st, &mut |r| {
                f::begin(p, r)?;
                let at = f::flatten(p, r, &n, 1)?;
                f::own(p, r, at)?;
                f::end(p, r)
            })
        }
        7 => {
            let v: Vec<String> = (0..g.idx(4)).map(|_| gen_string(g)).collect();
            stops_value("Debug", &sval_fmt::DebugToValue::new(&v), st)?;
            stops_value("Display", &sval_fmt::DisplayToValue::new(&v.concat()), st)?;
            stops("stream_debug", st, &mut |r| sval_fmt::stream_debug(r, &v))?;
            stops("stream_display", st, &mut |r| sval_fmt::stream_display(r, v.concat()))?;
            stops("sval::stream_display", st, &mut |r| sval::stream_display(r, v.concat()))?;
            stops("stream_display_fragments", st, &mut |r| sval::stream_display_fragments(r, v.concat()))?;
            stops("stream_number", st, &mut |r| sval::stream_number(r, "12.50e3"))
        }
        _ => {
            // containers of wrapped things
            let n = gen_node(g, &Cfg { budget: 8, ..Cfg::full() });
            let t = types::Generic { first: (Some(Ref::new(&n)), [&n]), second: Some(Box::new(&n)) };
            stops_value(&format!("composite of {}", short(&format!("{n:?}"))), &t, st)?;
            let d: Box<dyn sval_dynamic::Value> = Box::new(vec![n.clone(), Node::Null]);
            stops_value("dynamic", &d, st)
        }
    }
}

struct Tok(String);
impl std::fmt::Write for Tok {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.push_str(s);
        Ok(())
    }
}
impl sval_fmt::TokenWrite for Tok {}
struct Fm<V>(V);
impl<V: sval::Value> std::fmt::Display for Fm<V> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        sval_fmt::stream_to_fmt(f, &self.0)
    }
}
const OUTPUTS: u64 = 24;
fn output<V: sval::Value>(k: u64, v: &V) -> Result<String, ()> {
    fn e<E>(_: E) {}
    use std::fmt::Write;
    fn rec(f: impl FnOnce(&mut Rec) -> sval::Result) -> Result<String, ()> {
        let mut r = Rec::new();
        f(&mut r).map_err(e)?;
        Ok(format!("{:?}", norm_hints(&r.ev)))
    }
    match k {
        0 => sval_json::stream_to_string(v).map_err(e),
        1 => sval_json::stream_to_vec(v).map_err(e).map(|v| String::from_utf8_lossy(&v).into_owned()),
        2 => sval_json::stream_to_json_str(v).map_err(e).map(|s| s.as_str().to_string()),
        3 => {
            let mut s = String::new();
            sval_json::stream_to_fmt_write(&mut s, v).map_err(e).map(|_| s)
        }
        4 => {
            let mut s = Vec::new();
            sval_json::stream_to_io_write(&mut s, v).map_err(e).map(|_| String::from_utf8_lossy(&s).into_owned())
        }
        5 => {
            let mut s = String::new();
            sval_fmt::stream_to_write(&mut s, v).map_err(e).map(|_| s)
        }
        6 => {
            let mut s = Tok(String::new());
            sval_fmt::stream_to_token_write(&mut s, v).map_err(e).map(|_| s.0)
        }
        7 => {
            let mut s = String::new();
            write!(s, "{}", Fm(v)).map_err(e).map(|_| s)
        }
        8 => ValueBuf::collect(v).map_err(e).and_then(|b| rec(|r| b.stream_ref(r))),
        9 => ValueBuf::collect_owned(v).map_err(e).and_then(|b| rec(|r| b.stream_ref(r))),
        10 => sval_buffer::Value::collect(v).map_err(e).and_then(|b| rec(|r| b.stream_ref(r))),
        11 => sval_buffer::Value::collect_owned(v).map_err(e).and_then(|b| rec(|r| b.stream_ref(r))),
        12 => TextBuf::collect(v).map_err(e).map(|b| b.as_str().to_string()),
        13 => BinaryBuf::collect(v).map_err(e).map(|b| format!("{:?}", b.as_slice())),
        14 => serde_json::to_string(&sval_serde::ToSerialize::new(v)).map_err(e),
        15 => sval_serde::serialize(super::e::Ser(Default::default()), v).map_err(e).map(|s| format!("{s:?}")),
        16..=20 => rec(|r| f::flatten(PARENTS[(k - 16) as usize], r, v, 0).map(|_| ())),
        21 => rec(|r| v.stream(r)),
        22 => rec(|r| sval::stream_computed(r, v)),
        _ => {
            // the infallible adapter shows that something went wrong instead
            let s = sval_fmt::ToFmt::new(v).to_string();
            if s.ends_with(&format!("<{}>", std::fmt::Error)) {
                Err(())
            } else {
                Ok(s)
            }
        }
    }
}
fn failing<V: sval::Value>(what: &str, v: &V, g: &mut Gen, st: &mut Stats) -> R {
    let k = g.below(OUTPUTS);
    let base = output(k, v);
    let mut at = 0;
    loop {
        arm(at);
        let r = output(k, v);
        let blown = disarm();
        if blown && r.is_ok() {
            return Err(format!("output {k} of {what}: the value failed (step {at}) and success was reported: {r:?}"));
        }
        if !blown {
            if r != base {
                return Err(format!("output {k} of {what}: {base:?} at first, {r:?} later"));
            }
            break;
        }
        st.count("failing_values", 1);
        st.events += 1;
        at += if at > 60 { 17 } else { 1 };
    }
    let r = output(k, v);
    if r != base {
        return Err(format!("output {k} of {what}: {base:?} before a failure, {r:?} after it"));
    }
    st.seen(&(k, at, what.len()));
    Ok(())
}
#[derive(sval_derive::Value)]
struct Fields<'a> {
    a: &'a Node,
    #[sval(flatten)]
    b: Option<&'a Node>,
    c: bool,
}
#[derive(sval_derive::Value)]
#[sval(transparent)]
struct Through<'a>(&'a Node);
#[derive(sval_derive::Value)]
enum Variants<'a> {
    New(&'a Node),
    Two(u8, &'a Node),
    Named { x: &'a Node, y: Option<Box<Variants<'a>>> },
}
#[derive(sval_derive::Value)]
#[sval(dynamic)]
enum Dynamic<'a> {
    A(&'a Node),
    B(Vec<&'a Node>),
}

fn s06_values(g: &mut Gen, st: &mut Stats) -> R {
    let budget = *g.pick(&[1, 3, 8]);
    let mut n = gen_node(g, &Cfg { budget, empty_enum: false, ..Cfg::full() });
    f::tame(&mut n);
    note(st, &n.sem());
    st.count("contexts", 1);
    let w = |c: &str| format!("{c} of {}", short(&format!("{n:?}")));
    let n = &n;
    match g.below(18) {
        0 | 1 => failing(&w("value"), n, g, st),
        2 => failing(&w("Vec"), &vec![n, n], g, st),
        3 => failing(&w("Option"), &Some(n), g, st),
        4 => failing(&w("array"), &[n, n], g, st),
        5 => failing(&w("tuple"), &(1, n, n), g, st),
        6 => failing(&w("BTreeMap"), &BTreeMap::from([("k", n), ("l", n)]), g, st),
        7 => failing(&w("keys"), &sval::MapSlice::new(&[(n, 1), (n, 2)]), g, st),
        8 => {
            let d: Box<dyn sval_dynamic::Value> = Box::new(n.clone());
            failing(&w("dynamic"), &d, g, st)
        }
        9 => failing(&w("Ref"), &Ref::new(n), g, st),
        10 => failing(&w("Box<slice>"), &Box::new(&[n, n][..]), g, st),
        11 => failing(&w("record"), &types::Generic { first: n, second: Some(n) }, g, st),
        12 => failing(&w("flattened field"), &Fields { a: n, b: if g.bool() { Some(n) } else { None }, c: true }, g, st),
        13 => failing(&w("transparent"), &Through(n), g, st),
        14 => failing(&w("newtype variant"), &Variants::New(n), g, st),
        15 => failing(&w("tuple variant"), &Variants::Two(1, n), g, st),
        16 => failing(&w("record variant"), &Variants::Named { x: n, y: Some(Box::new(Variants::New(n))) }, g, st),
        _ => failing(&w("dynamic enum"), &if g.bool() { Dynamic::A(n) } else { Dynamic::B(vec![n, n]) }, g, st),
    }
}

/// Values failing at a chosen call rather than between values.
fn s06_truncated(g: &mut Gen, st: &mut Stats) -> R {
    let mut n = gen_node(g, &Cfg { budget: 6, ..Cfg::full() });
    f::tame(&mut n);
    let ev = expected(&n).ev;
    let k = g.below(OUTPUTS);
    // flattening ignores what cannot be flattened, but not its failure
    let step = 1 + ev.len() / 40;
    let mut at = 0;
    while at <= ev.len() {
        let p = Play { ev: ev[..at].to_vec(), fail: true };
        let ok = match g.below(3) {
            0 => output(k, &p).is_ok(),
            1 => output(k, &Some(&p)).is_ok(),
            _ => output(k, &vec![&p]).is_ok(),
        };
        if ok {
            return Err(format!("output {k}: a value failing after {at} calls was reported as success: {:?}", p.ev));
        }
        st.count("truncated_values", 1);
        st.events += at as u64;
        at += step;
    }
    st.seen(&(k, ev.len()));
    Ok(())
}

pub static S06: Prop = Prop {
    id: "S06",
    rule: "distinct = kinds of calls made by a source whose every (or, for long ones, an even spread of) call was rejected in turn, and (output, failing step) pairs for failing values",
    assumptions: &[
        "formatting through Display cannot fail by itself: sval_fmt::ToFmt shows a placeholder instead and sval_fmt::stream_to_string, which has no way to report, is left out",
        "Display and Debug implementations stop at the first write error, as std asks",
        "explicit indexes at a flattened level stay a million away from the ends of the machine integer range",
    ],
    level: "exploration",
    subs: &[
        Sub { name: "stacks", weight: 2, f: s06_stacks, once: false },
        Sub { name: "lowered", weight: 2, f: s06_lowered, once: false },
        Sub { name: "builtins", weight: 2, f: s06_builtins, once: false },
        Sub { name: "sources", weight: 3, f: s06_sources, once: false },
        Sub { name: "values", weight: 3, f: s06_values, once: false },
        Sub { name: "truncated", weight: 2, f: s06_truncated, once: false },
    ],
    must_see: &["failing_streams", "failing_values", "stacks", "lowered", "builtins", "sources", "contexts", "truncated_values"],
};

// ------------------------------------------------------------------------------------------- S07

/// Address ranges of the program's static data.
fn image() -> &'static [(usize, usize)] {
    static I: std::sync::OnceLock<Vec<(usize, usize)>> = std::sync::OnceLock::new();
    I.get_or_init(|| {
        let exe = std::fs::read_link("/proc/self/exe").map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
        let mut v = Vec::new();
        for l in std::fs::read_to_string("/proc/self/maps").unwrap_or_default().lines() {
            if l.ends_with(&exe) && !exe.is_empty() {
                let mut it = l.split_whitespace().next().unwrap_or("").split('-');
                if let (Some(a), Some(b)) = (it.next(), it.next()) {
                    if let (Ok(a), Ok(b)) = (usize::from_str_radix(a, 16), usize::from_str_radix(b, 16)) {
                        v.push((a, b - a));
                    }
                }
            }
        }
        v
    })
}
fn inside(rs: &[(usize, usize)], a: usize, l: usize) -> bool {
    rs.iter().any(|(b, m)| a >= *b && a + l <= b + m)
}
fn within(what: &str, got: impl Iterator<Item = (usize, usize)>, lent: &[(usize, usize)], st: &mut Stats) -> R {
    for (a, l) in got {
        if l == 0 {
            continue;
        }
        if inside(lent, a, l) {
            st.count("borrowed_from_value", 1);
        } else if inside(image(), a, l) {
            st.count("borrowed_static", 1);
        } else {
            return Err(format!("{what}: memory that was not lent for the stream's lifetime is handed out as long-lived"));
        }
    }
    Ok(())
}
fn within_rec(what: &str, r: &Rec, lent: &[(usize, usize)], st: &mut Stats) -> R {
    st.events += r.ev.len() as u64;
    within(what, r.borrowed.iter().map(|b| (b.1, b.2)), lent, st)
}

/// Keeps what it is lent, and what that looked like.
#[derive(Default)]
pub struct Keep<'s> {
    text: Vec<(&'s str, String)>,
    bin: Vec<(&'s [u8], Vec<u8>)>,
}
impl<'s> Keep<'s> {
    fn check(&self, what: &str) -> R {
        for (a, b) in &self.text {
            if a != b {
                return Err(format!("{what}: long-lived text changed from {b:?} to {a:?}"));
            }
        }
        for (a, b) in &self.bin {
            if a != b {
                return Err(format!("{what}: long-lived binary changed from {b:?} to {a:?}"));
            }
        }
        Ok(())
    }
}
impl<'s> Stream<'s> for Keep<'s> {
    fn null(&mut self) -> sval::Result {
        Ok(())
    }
    fn bool(&mut self, _: bool) -> sval::Result {
        Ok(())
    }
    fn text_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
    fn text_fragment(&mut self, f: &'s str) -> sval::Result {
        self.text.push((f, f.to_string()));
        Ok(())
    }
    fn text_fragment_computed(&mut self, _: &str) -> sval::Result {
        Ok(())
    }
    fn text_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn binary_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
    fn binary_fragment(&mut self, f: &'s [u8]) -> sval::Result {
        self.bin.push((f, f.to_vec()));
        Ok(())
    }
    fn binary_fragment_computed(&mut self, _: &[u8]) -> sval::Result {
        Ok(())
    }
    fn binary_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn i64(&mut self, _: i64) -> sval::Result {
        Ok(())
    }
    fn f64(&mut self, _: f64) -> sval::Result {
        Ok(())
    }
    fn seq_begin(&mut self, _: Option<usize>) -> sval::Result {
        Ok(())
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_value_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn seq_end(&mut self) -> sval::Result {
        Ok(())
    }
    fn tag(&mut self, _: Option<&Tag>, _: Option<&Label>, _: Option<&Index>) -> sval::Result {
        Ok(())
    }
}
/// Overwrite recently freed memory of the usual sizes.
fn churn() {
    let v: Vec<Vec<u8>> = (0..40).map(|i| vec![0xA5u8; 1 + i * 3]).collect();
    let w: Vec<Vec<u8>> = (0..4).map(|i| vec![0xA5u8; 200 << i]).collect();
    std::hint::black_box((&v, &w));
}

fn gen_val(g: &mut Gen) -> Node {
    if g.chance(1, 10) {
        let d = g.range(3, 20) as usize;
        return gen_deep(g, &Cfg::full(), d);
    }
    let budget = *g.pick(&[3, 10, 24]);
    gen_node(g, &Cfg { json_tags: true, budget, ..Cfg::full() })
}

fn s07_adapters(g: &mut Gen, st: &mut Stats) -> R {
    use super::s1::{MaskRec, ViaComputed, ViaValue, M_ALL};
    let n = gen_val(g);
    note(st, &n.sem());
    let mut ok = Vec::new();
    lent(&n, false, &mut ok);
    st.count("adapters", 1);
    let fail = |_| format!("failed for a stream that accepts everything: {}", short(&format!("{n:?}")));
    let w = |c: &str| format!("{c}: {}", short(&format!("{n:?}")));
    match g.below(8) {
        0 => {
            let mut m = MaskRec { rec: Rec::new(), mask: g.u64() as u32 & M_ALL };
            sval::Value::stream(&n, &mut m).map_err(fail)?;
            within_rec(&w("partial stream"), &m.rec, &ok, st)?;
            let mut m = MaskRec { rec: Rec::new(), mask: m.mask };
            sval::stream_computed(&mut m, &n).map_err(fail)?;
            within_rec(&w("partial stream, short-lived"), &m.rec, &[], st)
        }
        1 => {
            // short-lived parts at any level
            let mut r = Rec::new();
            let v = (ViaValue(&n), ViaComputed(&n, true), [ViaComputed(ViaValue(&n), false)]);
            v.stream(&mut r).map_err(fail)?;
            within_rec(&w("mixed tuple"), &r, &ok, st)?;
            let mut r = Rec::new();
            let v = ViaComputed(vec![Some(&n)], true);
            v.stream(&mut r).map_err(fail)?;
            within_rec(&w("short-lived Vec"), &r, &[], st)?;
            let mut r = Rec::new();
            let d: &dyn sval_dynamic::Value = &n;
            r.value_computed(&ViaValue(d)).map_err(fail)?;
            within_rec(&w("short-lived dynamic value"), &r, &[], st)?;
            let mut r = Rec::new();
            {
                let s: &mut dyn sval_dynamic::Stream = &mut r;
                s.value_computed(&n).map_err(fail)?;
            }
            within_rec(&w("short-lived value into a dynamic stream"), &r, &[], st)?;
            let mut r = Rec::new();
            {
                let mut s: Box<dyn sval_dynamic::Stream> = Box::new(&mut r);
                (&mut s).value_computed(&ViaValue(&n)).map_err(fail)?;
            }
            within_rec(&w("short-lived value into a boxed dynamic stream"), &r, &[], st)
        }
        2 => {
            let mut r = Rec::new();
            let p = *g.pick(&PARENTS);
            let n = f::gen_flat(g);
            let mut ok = Vec::new();
            lent(&n, false, &mut ok);
            let (vb, comp) = (ViaComputed(&n, true), g.bool());
            if comp {
                f::flatten(p, &mut r, &vb, 0).map_err(fail)?;
            } else {
                f::flatten(p, &mut r, &n, 0).map_err(fail)?;
            }
            within_rec(&w("flatten"), &r, if comp { &[] } else { &ok }, st)?;
            // values within the flattened entries are passed on as they are
            struct Two<'a>(&'a Node, bool);
            impl<'a> sval::Value for Two<'a> {
                fn stream<'s, S: Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
                    let (a, b) = (Label::new("a"), Label::new("b"));
                    if self.1 {
                        s.map_begin(None)?;
                        for k in ["a", "b"] {
                            s.map_key_begin()?;
                            s.value(k)?;
                            s.map_key_end()?;
                            s.map_value_begin()?;
                            s.value(self.0)?;
                            s.map_value_end()?;
                        }
                        s.map_end()
                    } else {
                        s.record_begin(None, None, None, Some(2))?;
                        s.record_value_begin(None, &a)?;
                        s.value(self.0)?;
                        s.record_value_end(None, &a)?;
                        s.record_value_begin(None, &b)?;
                        self.0.stream(s)?;
                        s.record_value_end(None, &b)?;
                        s.record_end(None, None, None)
                    }
                }
            }
            let n = gen_val(g);
            let t = Two(&n, g.bool());
            let mut r = Rec::new();
            f::flatten(p, &mut r, &t, 0).map_err(fail)?;
            let e = expected(&n).ev;
            let frag = |e: &&Ev| matches!(e, Ev::TextFrag(..) | Ev::BinFrag(..)) && !matches!(e, Ev::TextFrag(x, ..) if x == "a" || x == "b");
            let got: Vec<&Ev> = r.ev.iter().filter(frag).collect();
            let want: Vec<&Ev> = e.iter().chain(e.iter()).filter(frag).collect();
            if got != want {
                return Err(w("flatten: borrowed data within an entry is no longer offered as borrowed"));
            }
            st.count("preserved_flat", 1);
            Ok(())
        }
        3 => {
            let l = super::n::new_log(g);
            let comp = g.bool();
            let all = l.borrow().style == u64::MAX / 3 * 2;
            let res = if comp {
                sval_nested::stream_computed(super::n::Full(l.clone()), &n)
            } else if g.bool() {
                sval_nested::stream_ref(super::n::Full(l.clone()), &n)
            } else {
                sval_nested::stream(super::n::Full(l.clone()), sval_ref::to_ref(&n))
            };
            let b = l.borrow();
            st.events += b.calls as u64;
            if res.is_ok() && all && !comp {
                // every child was taken recursively: what is lent whole is still lent
                let mut whole = Vec::new();
                lent_whole(&n, false, &mut whole);
                if let Some(x) = whole.iter().find(|x| !b.borrowed.contains(x)) {
                    return Err(w(&format!("nested: text or binary at {x:x?} is no longer offered as borrowed")));
                }
                st.count("preserved_nested", 1);
            }
            within(&w("nested"), b.borrowed.iter().copied(), if comp { &[] } else { &ok }, st)
        }
        4 => {
            // nothing serialized by serde or formatted lives on
            let t = types::gen_any(g);
            let mut r = Rec::new();
            let v = sval_serde::ToValue::new(&t);
            sval::Value::stream(&v, &mut r).map_err(fail)?;
            within_rec("serde", &r, &[], st)?;
            let mut r = Rec::new();
            let v = sval_fmt::DebugToValue::new(&t);
            sval::Value::stream(&v, &mut r).map_err(fail)?;
            within_rec("debug", &r, &[], st)?;
            let mut r = Rec::new();
            let v = sval::Display::new(gen_string(g));
            sval::Value::stream(&v, &mut r).map_err(fail)?;
            within_rec("display", &r, &[], st)
        }
        5 => {
            let s = "[1,2]".to_string();
            let mut r = Rec::new();
            let j = sval_json::JsonStr::new(&*s);
            j.stream(&mut r).map_err(fail)?;
            if r.borrowed.is_empty() {
                return Err("JsonStr no longer lends its text".into());
            }
            within_rec("JsonStr", &r, &[(s.as_ptr() as usize, s.len())], st)
        }
        _ => {
            // wrappers that keep borrowing keep all of it
            let e = expected(&n).ev;
            let v = (Ref::new(&n), Box::new(&n));
            let mut r = Rec::new();
            v.stream(&mut r).map_err(fail)?;
            within_rec(&w("Ref and Box"), &r, &ok, st)?;
            let got: Vec<&Ev> = r.ev.iter().filter(|e| matches!(e, Ev::TextFrag(..) | Ev::BinFrag(..))).collect();
            let want: Vec<&Ev> = e.iter().chain(e.iter()).filter(|e| matches!(e, Ev::TextFrag(..) | Ev::BinFrag(..))).collect();
            if got != want {
                return Err(w("borrowed data is no longer offered as borrowed, or short-lived data is"));
            }
            st.count("preserved", 1);
            Ok(())
        }
    }
}

/// For each text and binary in order: the place it is lent from if it is a single lent fragment.
fn single(n: &Node, computed: bool, out: &mut Vec<Option<(usize, usize)>>) {
    let ch = |c: &Child, out: &mut Vec<Option<(usize, usize)>>| single(&c.node, computed || c.via == Via::Computed, out);
    fn of<T: AsRef<[u8]>>(f: &[(T, bool)], computed: bool) -> Option<(usize, usize)> {
        match f {
            [(s, false)] if !computed => Some((s.as_ref().as_ptr() as usize, s.as_ref().len())),
            _ => None,
        }
    }
    match n {
        Node::Text(f, _) => out.push(of(f, computed)),
        Node::Bin(f, _) => out.push(of(f, computed)),
        Node::Map(_, es) => es.iter().for_each(|(k, v)| {
            ch(k, out);
            ch(v, out)
        }),
        Node::Seq(_, es) => es.iter().for_each(|v| ch(v, out)),
        Node::Enum(_, Some(c)) => ch(c, out),
        Node::Tagged(_, c) => ch(c, out),
        Node::Record(_, _, fs) => fs.iter().for_each(|f| ch(&f.2, out)),
        Node::Tuple(_, _, fs) => fs.iter().for_each(|f| ch(&f.2, out)),
        Node::RecordTuple(_, _, fs) => fs.iter().for_each(|f| ch(&f.3, out)),
        Node::Hint(_, n) => single(n, computed, out),
        _ => (),
    }
}
/// The same from a recording: the place of the borrowed fragments of each text or binary.
fn places(r: &Rec) -> Vec<Vec<(usize, usize)>> {
    let mut out: Vec<Vec<(usize, usize)>> = Vec::new();
    for (i, e) in r.ev.iter().enumerate() {
        match e {
            Ev::TextBegin(_) | Ev::BinBegin(_) => out.push(Vec::new()),
            _ => {
                if let Some(b) = r.borrowed.iter().find(|b| b.0 == i) {
                    if let Some(l) = out.last_mut() {
                        l.push((b.1, b.2));
                    }
                }
            }
        }
    }
    out
}
fn preserved(what: &str, r: &Rec, n: &Node, st: &mut Stats) -> R {
    let mut want = Vec::new();
    single(n, false, &mut want);
    let got = places(r);
    if got.len() != want.len() {
        return Err(format!("{what}: {} texts and binaries instead of {}: {n:?}", got.len(), want.len()));
    }
    for (g, w) in got.iter().zip(&want) {
        if let Some(w) = w {
            if w.1 > 0 {
                if g != &[*w] {
                    return Err(format!("{what}: borrowed data is not offered as borrowed any more: {}", short(&format!("{n:?}"))));
                }
                st.count("preserved", 1);
            }
        }
    }
    Ok(())
}

fn s07_buffers(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_val(g);
    note(st, &n.sem());
    let mut ok = Vec::new();
    lent(&n, false, &mut ok);
    let w = |c: &str| format!("{c}: {}", short(&format!("{n:?}")));
    let fail = |_| w("failed");
    let failb = |_| w("buffering failed");
    st.count("buffers", 1);
    let buf = ValueBuf::collect(&n).map_err(failb)?;
    let mut keep = Keep::default();
    {
        let mut r = Rec::new();
        buf.stream_ref(&mut r).map_err(fail)?;
        within_rec(&w("buffer"), &r, &ok, st)?;
        preserved("buffer", &r, &n, st)?;
        buf.stream_ref(&mut keep).map_err(fail)?;
    }
    match g.below(6) {
        0 => {
            let v = buf.to_value();
            drop(buf);
            let v2 = v.clone();
            let mut r = Rec::new();
            v2.stream_ref(&mut r).map_err(fail)?;
            within_rec(&w("buffered value"), &r, &ok, st)?;
            preserved("buffered value", &r, &n, st)?;
            drop(v);
            v2.stream_ref(&mut keep).map_err(fail)?;
        }
        1 => {
            let v = buf.into_value();
            let mut r = Rec::new();
            sval_ref::stream_ref(&mut r, &v).map_err(fail)?;
            within_rec(&w("into_value"), &r, &ok, st)?;
            preserved("into_value", &r, &n, st)?;
            // a buffer filled from a buffer
            let mut b2 = ValueBuf::new();
            v.stream_ref(&mut b2).map_err(fail)?;
            drop(v);
            let mut r = Rec::new();
            b2.stream_ref(&mut r).map_err(fail)?;
            within_rec(&w("buffer of a buffer"), &r, &ok, st)?;
            preserved("buffer of a buffer", &r, &n, st)?;
            b2.stream_ref(&mut keep).map_err(fail)?;
        }
        2 => {
            let o = buf.into_owned().map_err(failb)?;
            let mut r = Rec::new();
            o.stream_ref(&mut r).map_err(fail)?;
            within_rec(&w("owned buffer"), &r, &[], st)?;
            let o = o.into_value();
            let mut r = Rec::new();
            o.stream_ref(&mut r).map_err(fail)?;
            within_rec(&w("owned value"), &r, &[], st)?;
        }
        3 => {
            // a short-lived capture keeps nothing
            let mut b = ValueBuf::new();
            sval::stream_computed(&mut b, &n).map_err(fail)?;
            let mut r = Rec::new();
            b.stream_ref(&mut r).map_err(fail)?;
            within_rec(&w("buffer filled short-lived"), &r, &[], st)?;
            let b = ValueBuf::collect_owned(&n).map_err(failb)?;
            let mut r = Rec::new();
            b.stream_ref(&mut r).map_err(fail)?;
            within_rec(&w("collect_owned"), &r, &[], st)?;
        }
        4 => {
            // long-lived data of the buffer itself
            let mut k2 = Keep::default();
            sval::Value::stream(&buf, &mut k2).map_err(fail)?;
            churn();
            k2.check(&w("buffer as a value"))?;
            drop(k2);
            let v = buf.to_value();
            let mut k2 = Keep::default();
            sval::Value::stream(&v, &mut k2).map_err(fail)?;
            drop(buf);
            churn();
            k2.check(&w("buffered value as a value"))?;
        }
        _ => {
            let mut b = buf;
            b.clear();
            let _ = sval::Value::stream(&n, &mut b);
            let mut r = Rec::new();
            b.stream_ref(&mut r).map_err(fail)?;
            within_rec(&w("reused buffer"), &r, &ok, st)?;
            b.stream_ref(&mut keep).map_err(fail)?;
        }
    }
    churn();
    keep.check(&w("after the buffer is gone"))?;
    st.count("kept", (keep.text.len() + keep.bin.len()) as u64);
    Ok(())
}

fn s07_fragments(g: &mut Gen, st: &mut Stats) -> R {
    let k = g.idx(4);
    let parts: Vec<(String, bool)> = (0..k).map(|_| (gen_string(g), g.chance(1, 3))).collect();
    let mut ok: Vec<(usize, usize)> = parts.iter().filter(|p| !p.1).map(|p| (p.0.as_ptr() as usize, p.0.len())).collect();
    if g.chance(1, 4) {
        ok.retain(|r| r.1 > 0);
    }
    let mut t = TextBuf::new();
    let mut b = BinaryBuf::new();
    for (s, c) in &parts {
        let r = if *c {
            t.push_fragment_computed(s).is_ok() & b.push_fragment_computed(s.as_bytes()).is_ok()
        } else {
            t.push_fragment(s).is_ok() & b.push_fragment(s.as_bytes()).is_ok()
        };
        if !r {
            return Err(format!("pushing failed: {parts:?}"));
        }
    }
    let sole = matches!(&parts[..], [(_, false)]);
    let (mut kt, mut kb) = (Keep::default(), Keep::default());
    let lab = t.as_borrowed_str();
    let bin = b.as_borrowed_slice();
    within(&format!("TextBuf of {parts:?}"), lab.iter().map(|s| (s.as_ptr() as usize, s.len())), &ok, st)?;
    within(&format!("BinaryBuf of {parts:?}"), bin.iter().map(|s| (s.as_ptr() as usize, s.len())), &ok, st)?;
    if sole && (lab.map(|s| s.as_ptr()) != Some(parts[0].0.as_ptr()) || bin.map(|s| s.as_ptr()) != Some(parts[0].0.as_ptr())) {
        return Err(format!("a single borrowed fragment is not borrowed any more: {parts:?}"));
    }
    t.stream_ref(&mut kt).map_err(|_| "failed".to_string())?;
    b.stream_ref(&mut kb).map_err(|_| "failed".to_string())?;
    let mut r = Rec::new();
    t.stream_ref(&mut r).map_err(|_| "failed".to_string())?;
    b.stream_ref(&mut r).map_err(|_| "failed".to_string())?;
    within_rec(&format!("fragments {parts:?}"), &r, &ok, st)?;
    if sole && parts[0].0.len() > 0 && r.borrowed.len() != 2 {
        return Err(format!("a single borrowed fragment is not offered as borrowed: {parts:?}"));
    }
    let t2 = t.clone();
    drop(t);
    drop(b);
    churn();
    kt.check(&format!("text {parts:?}"))?;
    kb.check(&format!("binary {parts:?}"))?;
    if t2.as_borrowed_str().is_some() != lab.is_some() {
        return Err("a clone borrows differently".into());
    }
    st.count("fragments", 1);
    st.seen(&(parts.iter().map(|p| (p.0.len().min(3), p.1)).collect::<Vec<_>>()));
    Ok(())
}

/// What a recording with lifetimes keeps is intact after every adapter is gone.
fn s07_keep(g: &mut Gen, st: &mut Stats) -> R {
    use super::s1::*;
    let n = gen_val(g);
    let fl = f::gen_flat(g);
    note(st, &n.sem());
    let mut keep = Keep::default();
    let w = |c: &str| format!("{c}: {}", short(&format!("{n:?}")));
    let fail = |_| w("failed");
    match g.below(6) {
        0 => {
            let v = Box::new(Ref::new(&n));
            v.stream_ref(&mut keep).map_err(fail)?;
            drop(v);
        }
        1 => {
            let v: Vec<Ref<&Node>> = vec![Ref::new(&n), Ref::new(&n)];
            v.stream_ref(&mut keep).map_err(fail)?;
            drop(v);
        }
        2 => {
            let (m, p) = (n.clone(), gen_plan(g, 8));
            // only computed data may come out of something short-lived
            let mut out = Ok(());
            base_value(&m, 0, &p, &mut |v| out = keep.value_computed(v));
            out.map_err(fail)?;
            if keep.text.iter().any(|t| t.0.len() > 0 && !inside(image(), t.0.as_ptr() as usize, t.0.len())) || keep.bin.iter().any(|b| b.0.len() > 0) {
                return Err(w("short-lived data was handed out as long-lived"));
            }
            drop(m);
        }
        3 => {
            let mut b = ValueBuf::new();
            b.value(&n).map_err(fail)?;
            let v = b.into_value();
            v.stream_ref(&mut keep).map_err(fail)?;
        }
        4 => {
            let p = *g.pick(&PARENTS);
            f::flatten(p, &mut keep, &fl, 3).map_err(fail)?;
        }
        _ => {
            // through a buffer that goes away half-way
            let b = ValueBuf::collect(&n).map_err(|_| w("buffering failed"))?;
            let b2 = {
                let mut b2 = ValueBuf::new();
                b.stream_ref(&mut b2).map_err(fail)?;
                b2
            };
            drop(b);
            churn();
            b2.stream_ref(&mut keep).map_err(fail)?;
        }
    }
    churn();
    st.events += (keep.text.len() + keep.bin.len()) as u64;
    st.count("kept", (keep.text.len() + keep.bin.len()) as u64);
    keep.check(&w("kept"))
}

pub static S07: Prop = Prop {
    id: "S07",
    rule: "distinct = shapes of values, with borrowed and short-lived parts mixed, whose long-lived fragments were traced back to memory lent for the stream's lifetime",
    assumptions: &["memory of the program image counts as static; empty fragments have no place"],
    level: "exploration",
    subs: &[
        Sub { name: "adapters", weight: 3, f: s07_adapters, once: false },
        Sub { name: "buffers", weight: 3, f: s07_buffers, once: false },
        Sub { name: "fragments", weight: 1, f: s07_fragments, once: false },
        Sub { name: "keep", weight: 2, f: s07_keep, once: false },
    ],
    must_see: &["adapters", "buffers", "fragments", "kept", "preserved", "preserved_nested", "preserved_flat", "borrowed_from_value", "borrowed_static"],
};
