//! S01 (forwarding layers) and S02 (default lowering).

use super::{note, short};
use crate::fw::*;
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use sval::Stream as _;
use sval_dynamic::{Stream as DS, Value as DV};
use sval_ref::{Ref, ValueRef};

// ------------------------------------------------------------------------------------------- conversions

/// Everything a value reports about itself besides its stream.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Conv {
    pub tag: Option<u8>,
    pub bool: Option<bool>,
    pub f32: Option<u32>,
    pub f64: Option<u64>,
    pub i: [Option<i128>; 5],
    pub u: [Option<u128>; 5],
    /// address and length
    pub text: Option<(usize, usize)>,
    pub bin: Option<(usize, usize)>,
}
fn place(a: usize, l: usize) -> (usize, usize) {
    // empty data has no meaningful address
    if l == 0 {
        (0, 0)
    } else {
        (a, l)
    }
}
pub fn convs<V: sval::Value + ?Sized>(v: &V) -> Conv {
    Conv {
        tag: v.tag().as_ref().map(tag_id),
        bool: v.to_bool(),
        f32: v.to_f32().map(f32::to_bits),
        f64: v.to_f64().map(f64::to_bits),
        i: [
            v.to_i8().map(|x| x as i128),
            v.to_i16().map(|x| x as i128),
            v.to_i32().map(|x| x as i128),
            v.to_i64().map(|x| x as i128),
            v.to_i128(),
        ],
        u: [
            v.to_u8().map(|x| x as u128),
            v.to_u16().map(|x| x as u128),
            v.to_u32().map(|x| x as u128),
            v.to_u64().map(|x| x as u128),
            v.to_u128(),
        ],
        text: v.to_text().map(|t| place(t.as_ptr() as usize, t.len())),
        bin: v.to_binary().map(|t| place(t.as_ptr() as usize, t.len())),
    }
}

/// A value that answers every question differently.
pub struct Odd {
    pub node: Node,
    pub mask: u32,
}
macro_rules! odd {
    ($self:ident, $bit:expr, $v:expr) => {
        if $self.mask & (1 << $bit) != 0 {
            Some($v)
        } else {
            None
        }
    };
}
static ODD_TEXT: &str = "odd text";
static ODD_BIN: &[u8] = b"odd binary";
impl sval::Value for Odd {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        self.node.stream(s)
    }
    fn tag(&self) -> Option<sval::Tag> {
        odd!(self, 0, CUSTOM2.clone())
    }
    fn to_bool(&self) -> Option<bool> {
        odd!(self, 1, self.mask & 1 == 0)
    }
    fn to_f32(&self) -> Option<f32> {
        odd!(self, 2, 1.5)
    }
    fn to_f64(&self) -> Option<f64> {
        odd!(self, 3, 2.5)
    }
    fn to_i8(&self) -> Option<i8> {
        odd!(self, 4, -8)
    }
    fn to_i16(&self) -> Option<i16> {
        odd!(self, 5, -1600)
    }
    fn to_i32(&self) -> Option<i32> {
        odd!(self, 6, -320000)
    }
    fn to_i64(&self) -> Option<i64> {
        odd!(self, 7, -(1 << 40))
    }
    fn to_i128(&self) -> Option<i128> {
        odd!(self, 8, -(1 << 100))
    }
    fn to_u8(&self) -> Option<u8> {
        odd!(self, 9, 8)
    }
    fn to_u16(&self) -> Option<u16> {
        odd!(self, 10, 1600)
    }
    fn to_u32(&self) -> Option<u32> {
        odd!(self, 11, 320000)
    }
    fn to_u64(&self) -> Option<u64> {
        odd!(self, 12, 1 << 40)
    }
    fn to_u128(&self) -> Option<u128> {
        odd!(self, 13, 1 << 100)
    }
    fn to_text(&self) -> Option<&str> {
        odd!(self, 14, ODD_TEXT)
    }
    fn to_binary(&self) -> Option<&[u8]> {
        odd!(self, 15, ODD_BIN)
    }
}

// ------------------------------------------------------------------------------------------- S01

/// Delivers through `value`.
pub struct ViaValue<V>(pub V);
impl<V: sval::Value> sval::Value for ViaValue<V> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        s.value(&self.0)
    }
}
/// Delivers through the short-lived route.
pub struct ViaComputed<V>(pub V, pub bool);
impl<V: sval::Value> sval::Value for ViaComputed<V> {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        if self.1 {
            s.value_computed(&self.0)
        } else {
            sval::stream_computed(s, &self.0)
        }
    }
}

/// Wrap `v` as the plan says and hand the result on. Each step also adds a dynamic object.
pub fn with_value(v: &dyn DV, plan: &[u8], f: &mut dyn FnMut(&dyn DV)) {
    let Some((k, rest)) = plan.split_first() else {
        return f(v);
    };
    match k {
        0 => with_value(&v, rest, f),
        1 => with_value(&Box::new(v), rest, f),
        2 => with_value(&Ref::new(v), rest, f),
        3 => with_value(Ref::new_borrowed(&v), rest, f),
        4 => {
            let b: Box<dyn DV + '_> = Box::new(v);
            with_value(&b, rest, f)
        }
        5 => with_value(&&&v, rest, f),
        6 => with_value(&sval_ref::to_ref(v), rest, f),
        _ => with_value(&Box::new(Ref::new(Box::new(&v))), rest, f),
    }
}
pub fn with_stream<'s>(s: &mut dyn DS<'s>, plan: &[u8], f: &mut dyn FnMut(&mut dyn DS<'s>)) {
    let Some((k, rest)) = plan.split_first() else {
        return f(s);
    };
    match k {
        0 => {
            let mut r = s;
            with_stream(&mut r, rest, f)
        }
        1 => {
            let mut r = Box::new(s);
            with_stream(&mut r, rest, f)
        }
        2 => {
            let mut r: Box<dyn DS<'s> + '_> = Box::new(s);
            with_stream(&mut r, rest, f)
        }
        _ => {
            let mut r = s;
            let mut r = &mut r;
            let mut r = Box::new(&mut r);
            with_stream(&mut r, rest, f)
        }
    }
}
/// Base of the stream stack: the variants of dynamic stream objects.
pub fn base_stream<'s>(r: &mut Rec, k: u8, plan: &[u8], f: &mut dyn FnMut(&mut dyn DS<'s>)) {
    match k {
        0 => with_stream(r, plan, f),
        1 => {
            let mut d: &mut (dyn DS<'s> + Send) = r;
            with_stream(&mut d, plan, f)
        }
        2 => {
            let mut d: &mut (dyn DS<'s> + Send + Sync) = r;
            with_stream(&mut d, plan, f)
        }
        _ => {
            let mut d: Box<dyn DS<'s> + Send + Sync + '_> = Box::new(r);
            with_stream(&mut d, plan, f)
        }
    }
}
pub fn base_value<V: sval::Value + Send + Sync>(v: &V, k: u8, plan: &[u8], f: &mut dyn FnMut(&dyn DV)) {
    match k {
        0 => with_value(v, plan, f),
        1 => {
            let d: &(dyn DV + Send) = v;
            with_value(&d, plan, f)
        }
        2 => {
            let d: &(dyn DV + Send + Sync) = v;
            with_value(&d, plan, f)
        }
        _ => {
            let d: Box<dyn DV + Send + Sync + '_> = Box::new(v);
            with_value(&d, plan, f)
        }
    }
}
pub fn gen_plan(g: &mut Gen, k: u64) -> Vec<u8> {
    let n = g.idx(6);
    (0..n).map(|_| g.below(k) as u8).collect()
}

/// all fragments short-lived
pub fn computed(ev: &[Ev]) -> Vec<Ev> {
    ev.iter()
        .map(|e| match e {
            Ev::TextFrag(s, _) => Ev::TextFrag(s.clone(), false),
            Ev::BinFrag(s, _) => Ev::BinFrag(s.clone(), false),
            e => e.clone(),
        })
        .collect()
}

fn judge(what: &str, r: &Rec, want: &[Ev], stat: &[bool], own: &[(usize, usize)], n: &Node) -> R {
    if let Some(d) = diff(&r.ev, want) {
        return Err(format!("{what}: {d}\n value: {}", short(&format!("{n:?}"))));
    }
    if let Some(b) = &r.bad_static {
        return Err(format!("{what}: {b}"));
    }
    if r.stat != stat {
        return Err(format!("{what}: labels changed between static and computed\n value: {}", short(&format!("{n:?}"))));
    }
    for (i, a, l) in &r.borrowed {
        if *l > 0 && !own.iter().any(|(b, m)| a >= b && a + l <= b + m) {
            return Err(format!("{what}: call #{i} hands out memory outside the value as long-lived\n value: {}", short(&format!("{n:?}"))));
        }
    }
    Ok(())
}

fn s01_stack(g: &mut Gen, st: &mut Stats) -> R {
    let n = if g.chance(1, 12) {
        let d = 5 + g.idx(30);
        gen_deep(g, &Cfg::full(), d)
    } else {
        gen_node(g, &Cfg { json_tags: true, budget: 20, ..Cfg::full() })
    };
    let e = expected(&n);
    let own = ranges(&n);
    let (vb, sb) = (g.below(4) as u8, g.below(4) as u8);
    let (pv, ps) = (gen_plan(g, 8), gen_plan(g, 4));
    let route = g.below(8);
    note(st, &n.sem());
    st.seen(&(vb, sb, &pv, &ps, route));
    st.events += e.ev.len() as u64;
    let odd = Odd { node: n.clone(), mask: g.below(1 << 16) as u32 };
    let want_odd = convs(&odd);
    let want_conv = convs(&n);
    let mut direct = Rec::new();
    sval::Value::stream(&n, &mut direct).map_err(|_| "HARNESS: direct streaming failed".to_string())?;
    if direct.ev != e.ev {
        return Err("HARNESS: the model of direct streaming is wrong".into());
    }
    let ctx = format!("value wrappers {vb}/{pv:?}, stream wrappers {sb}/{ps:?}, route {route}");
    let mut out: R = Ok(());
    base_value(&odd, vb, &pv, &mut |v| {
        let got = convs(v);
        if got != want_odd && out.is_ok() {
            out = Err(format!("{ctx}: tag or conversions changed: {got:?} instead of {want_odd:?}"));
        }
    });
    base_value(&n, vb, &pv, &mut |v| {
        if out.is_err() {
            return;
        }
        let got = convs(v);
        if got != want_conv {
            out = Err(format!("{ctx}: tag or conversions changed: {got:?} instead of {want_conv:?}\n value: {}", short(&format!("{n:?}"))));
            return;
        }
        let mut r = Rec::new();
        let mut comp = false;
        let (vv, vc) = (ViaValue(v), ViaComputed(v, route == 3));
        let rf = Ref::new(v);
        let mut res = Ok(());
        base_stream(&mut r, sb, &ps, &mut |s| {
            res = match route {
                0 => sval::Value::stream(v, s),
                1 => s.value(v),
                2 => s.value(&vv),
                3 | 4 => {
                    comp = true;
                    s.value(&vc)
                }
                5 => {
                    comp = true;
                    s.value_computed(&vv)
                }
                6 => sval::stream(s, v),
                _ => sval_ref::stream_ref(s, &rf),
            };
        });
        let want = if comp { computed(&e.ev) } else { e.ev.clone() };
        if res.is_err() {
            out = Err(format!("{ctx}: failed for a stream that accepts everything\n value: {}", short(&format!("{n:?}"))));
            return;
        }
        out = judge(&ctx, &r, &want, &e.stat, &own, &n);
        if comp && !r.borrowed.is_empty() && out.is_ok() {
            out = Err(format!("{ctx}: short-lived delivery handed out long-lived data"));
        }
    });
    st.count("stacks", 1);
    st.count("layers", (pv.len() + ps.len() + 2) as u64);
    st.sample(|| format!("{ctx}: {} calls", e.ev.len()));
    out
}

/// Statically typed stacks, without dynamic objects in between.
fn s01_static(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { json_tags: true, budget: 14, ..Cfg::full() });
    let odd = Odd { node: n.clone(), mask: g.below(1 << 16) as u32 };
    let own = ranges(&odd.node);
    let e = expected(&odd.node);
    let want = convs(&odd);
    note(st, &n.sem());
    let o = &odd;
    macro_rules! check {
        ($what:expr, $v:expr) => {{
            let v = $v;
            let got = convs(&v);
            if got != want {
                return Err(format!("{}: tag or conversions changed: {got:?} instead of {want:?}", $what));
            }
            let mut r = Rec::new();
            sval::Value::stream(&v, &mut r).map_err(|_| format!("{}: failed", $what))?;
            judge($what, &r, &e.ev, &e.stat, &own, &o.node)?;
            let mut r = Box::new(Rec::new());
            sval::Value::stream(&v, &mut r).map_err(|_| format!("{}: failed", $what))?;
            judge($what, &r, &e.ev, &e.stat, &own, &o.node)?;
            let mut r = Rec::new();
            {
                let mut b = Box::new(&mut r);
                (&mut b).value(&v).map_err(|_| format!("{}: failed", $what))?;
            }
            judge($what, &r, &e.ev, &e.stat, &own, &o.node)?;
            let mut r = Rec::new();
            {
                let mut b = Box::new(&mut r);
                (&mut b).value_computed(&v).map_err(|_| format!("{}: failed", $what))?;
            }
            judge($what, &r, &computed(&e.ev), &e.stat, &[], &o.node)?;
            let mut r = Rec::new();
            sval::stream_computed(&mut &mut r, &v).map_err(|_| format!("{}: failed", $what))?;
            judge($what, &r, &computed(&e.ev), &e.stat, &[], &o.node)?;
            st.count("static_stacks", 1);
        }};
    }
    macro_rules! check_ref {
        ($what:expr, $v:expr) => {{
            let v = $v;
            let mut r = Rec::new();
            v.stream_ref(&mut r).map_err(|_| format!("{}: failed", $what))?;
            judge($what, &r, &e.ev, &e.stat, &own, &o.node)?;
            let mut r = Rec::new();
            sval_ref::stream_ref(&mut Box::new(&mut r), &v).map_err(|_| format!("{}: failed", $what))?;
            judge($what, &r, &e.ev, &e.stat, &own, &o.node)?;
        }};
    }
    match g.below(4) {
        0 => {
            check!("&T", o);
            check!("&&T", &o);
            check!("Box<&T>", Box::new(o));
            check!("Box<Box<&&T>>", Box::new(Box::new(&o)));
        }
        1 => {
            check!("Ref<&T>", Ref::new(o));
            check!("&Ref<&T>", Ref::new_borrowed(&o));
            check!("to_ref", sval_ref::to_ref(o));
            check!("Box<Ref<Box<&T>>>", Box::new(Ref::new(Box::new(o))));
            let r = Ref::new(o);
            if !std::ptr::eq(*r.inner(), o) || !std::ptr::eq(r.into_inner(), o) {
                return Err("Ref::inner/into_inner return something else".into());
            }
        }
        2 => {
            check_ref!("Ref<&T>", Ref::new(o));
            check_ref!("to_ref", sval_ref::to_ref(o));
            check_ref!("&Ref<&T>", &Ref::new(o));
            check_ref!("Box<Ref<&T>>", Box::new(Ref::new(o)));
            let rr = Ref::new(o);
            let r2 = &rr;
            check_ref!("Box<&&Ref<&T>>", Box::new(&r2));
        }
        _ => {
            let d: &dyn DV = o;
            check!("dyn Value", d);
            let d: &(dyn DV + Send) = o;
            check!("dyn Value + Send", d);
            let d: &(dyn DV + Send + Sync) = o;
            check!("dyn Value + Send + Sync", d);
            let d: Box<dyn DV + '_> = Box::new(o);
            check!("Box<dyn Value>", d);
        }
    }
    Ok(())
}

/// Arbitrary calls, well-nested or not, with a stream that rejects one of them: a forwarding layer passes each call
/// and each answer through.
fn s01_calls(g: &mut Gen, st: &mut Stats) -> R {
    let mut ev: Vec<Ev> = Vec::new();
    for _ in 0..1 + g.idx(3) {
        let n = gen_node(g, &Cfg { budget: 8, ..Cfg::full() });
        ev.extend(expected(&n).ev);
    }
    let mut ev = sprinkle(g, &ev);
    if g.bool() {
        // any order
        for i in (1..ev.len()).rev() {
            let j = g.idx(i + 1);
            ev.swap(i, j);
        }
        ev.truncate(30);
    }
    let fail = if g.bool() { Some(g.idx(ev.len() + 1)) } else { None };
    let mut a = Rec::new();
    a.fail_at = fail;
    let ra: Vec<bool> = ev.iter().map(|e| drive_one(e, &mut a).is_ok()).collect();
    let (sb, ps) = (g.below(4) as u8, gen_plan(g, 4));
    let mut b = Rec::new();
    b.fail_at = fail;
    let mut rb: Vec<bool> = Vec::new();
    base_stream(&mut b, sb, &ps, &mut |s| rb = ev.iter().map(|e| drive_one(e, s).is_ok()).collect());
    st.events += ev.len() as u64;
    st.seen(&(&ev, sb, &ps));
    st.count("call_sequences", 1);
    if a.ev != b.ev || ra != rb || a.borrowed != b.borrowed || a.after_failure != b.after_failure || a.stat != b.stat {
        return Err(format!(
            "stream wrappers {sb}/{ps:?} change calls: {}\n results {rb:?} instead of {ra:?}\n calls {ev:?}",
            diff(&b.ev, &a.ev).unwrap_or_default()
        ));
    }
    // short-lived delivery of the same calls
    if fail.is_none() {
        let mut c = Rec::new();
        let p = Play { ev: ev.clone(), fail: false };
        let ok = match g.below(3) {
            0 => c.value_computed(&p),
            1 => (&mut Box::new(&mut c)).value_computed(&p),
            _ => {
                let mut d: &mut dyn DS = &mut c;
                d.value_computed(&p)
            }
        };
        if ok.is_err() || c.ev != computed(&a.ev) || c.stat != a.stat {
            return Err(format!("short-lived delivery changes calls: {}\n calls {ev:?}", diff(&c.ev, &computed(&a.ev)).unwrap_or_default()));
        }
    }
    Ok(())
}

/// A stream that wants to see values whole is offered them whole through references and boxes, and short-lived ones
/// through dynamic objects, too.
fn s01_whole(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 12, ..Cfg::full() });
    let mut a = Rec::new();
    a.value(&n).map_err(|_| "HARNESS: direct")?;
    let mut b = Rec::new();
    let how = g.below(4);
    let ok = match how {
        0 => (&mut b).value(&n).is_ok(),
        1 => Box::new(&mut b).value(&n).is_ok(),
        2 => (&mut &mut Box::new(Box::new(&mut b))).value(&n).is_ok(),
        _ => {
            let mut bx = Box::new(b.clone());
            let r = bx.value(&n).is_ok();
            b = *bx;
            r
        }
    };
    st.events += a.ev.len() as u64;
    st.count("whole_values", (a.value_calls + a.computed_calls) as u64);
    if !ok || b.value_calls != a.value_calls || b.computed_calls != a.computed_calls || b.ev != a.ev {
        return Err(format!(
            "stream wrappers #{how}: {} whole and {} short-lived whole values offered instead of {} and {}\n value: {}",
            b.value_calls, b.computed_calls, a.value_calls, a.computed_calls, short(&format!("{n:?}"))
        ));
    }
    let (sb, ps) = (g.below(4) as u8, gen_plan(g, 4));
    st.seen(&(sb, &ps));
    let mut c = Rec::new();
    base_stream(&mut c, sb, &ps, &mut |s| {
        let _ = s.value_computed(&n);
    });
    if c.computed_calls < 1 {
        return Err(format!("stream wrappers {sb}/{ps:?}: `value_computed` is not forwarded"));
    }
    Ok(())
}

pub static S01: Prop = Prop {
    id: "S01",
    rule: "a case counts as distinct when the structure of the streamed value, the stack of value wrappers, the stack of stream wrappers or the call sequence is new; recorded calls, results, borrowed addresses and conversions are compared with direct streaming",
    assumptions: &["the addresses of empty fragments are not compared"],
    level: "exploration",
    subs: &[
        Sub { name: "stack", weight: 4, f: s01_stack, once: false },
        Sub { name: "static", weight: 3, f: s01_static, once: false },
        Sub { name: "calls", weight: 3, f: s01_calls, once: false },
        Sub { name: "whole", weight: 1, f: s01_whole, once: false },
    ],
    must_see: &["stacks", "static_stacks", "call_sequences", "whole_values"],
};

// ------------------------------------------------------------------------------------------- S02

/// Required methods only.
#[derive(Default)]
pub struct MinRec {
    pub rec: Rec,
}
impl<'sval> sval::Stream<'sval> for MinRec {
    fn null(&mut self) -> sval::Result {
        self.rec.put(Ev::Null)
    }
    fn bool(&mut self, v: bool) -> sval::Result {
        self.rec.put(Ev::Bool(v))
    }
    fn text_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.rec.put(Ev::TextBegin(n))
    }
    fn text_fragment_computed(&mut self, f: &str) -> sval::Result {
        self.rec.put(Ev::TextFrag(f.to_string(), false))
    }
    fn text_end(&mut self) -> sval::Result {
        self.rec.put(Ev::TextEnd)
    }
    fn i64(&mut self, v: i64) -> sval::Result {
        self.rec.put(Ev::I(W::W64, v as i128))
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        self.rec.put(Ev::F64(v.to_bits()))
    }
    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.rec.put(Ev::SeqBegin(n))
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.rec.put(Ev::ElBegin)
    }
    fn seq_value_end(&mut self) -> sval::Result {
        self.rec.put(Ev::ElEnd)
    }
    fn seq_end(&mut self) -> sval::Result {
        self.rec.put(Ev::SeqEnd)
    }
}

pub const M_U8: u32 = 0;
pub const M_U128: u32 = 4;
pub const M_I8: u32 = 5;
pub const M_I128: u32 = 8;
pub const M_F32: u32 = 9;
pub const M_TEXT: u32 = 10;
pub const M_BIN: u32 = 11;
pub const M_BINB: u32 = 12;
pub const M_MAP: u32 = 13;
pub const M_ENUM: u32 = 14;
pub const M_TAGGED: u32 = 15;
pub const M_TAG: u32 = 16;
pub const M_HINT: u32 = 17;
pub const M_REC: u32 = 18;
pub const M_TUP: u32 = 19;
pub const M_RT: u32 = 20;
pub const M_ALL: u32 = (1 << 21) - 1;

/// Implements the groups of optional methods chosen by the mask.
pub struct MaskRec {
    pub rec: Rec,
    pub mask: u32,
}
use sval::{default_stream as ds, Index, Label, Tag};
macro_rules! group {
    ($($bit:expr => fn $name:ident(&mut self $(, $a:ident : $t:ty)*);)*) => {
        $(
            fn $name(&mut self $(, $a: $t)*) -> sval::Result {
                if self.mask & (1 << $bit) != 0 {
                    sval::Stream::$name(&mut self.rec $(, $a)*)
                } else {
                    ds::$name(self $(, $a)*)
                }
            }
        )*
    };
}
impl<'sval> sval::Stream<'sval> for MaskRec {
    fn null(&mut self) -> sval::Result {
        self.rec.null()
    }
    fn bool(&mut self, v: bool) -> sval::Result {
        sval::Stream::bool(&mut self.rec, v)
    }
    fn text_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.rec.text_begin(n)
    }
    fn text_fragment_computed(&mut self, f: &str) -> sval::Result {
        self.rec.text_fragment_computed(f)
    }
    fn text_end(&mut self) -> sval::Result {
        self.rec.text_end()
    }
    fn i64(&mut self, v: i64) -> sval::Result {
        sval::Stream::i64(&mut self.rec, v)
    }
    fn f64(&mut self, v: f64) -> sval::Result {
        sval::Stream::f64(&mut self.rec, v)
    }
    fn seq_begin(&mut self, n: Option<usize>) -> sval::Result {
        self.rec.seq_begin(n)
    }
    fn seq_value_begin(&mut self) -> sval::Result {
        self.rec.seq_value_begin()
    }
    fn seq_value_end(&mut self) -> sval::Result {
        self.rec.seq_value_end()
    }
    fn seq_end(&mut self) -> sval::Result {
        self.rec.seq_end()
    }
    group! {
        0 => fn u8(&mut self, v: u8);
        1 => fn u16(&mut self, v: u16);
        2 => fn u32(&mut self, v: u32);
        3 => fn u64(&mut self, v: u64);
        4 => fn u128(&mut self, v: u128);
        5 => fn i8(&mut self, v: i8);
        6 => fn i16(&mut self, v: i16);
        7 => fn i32(&mut self, v: i32);
        8 => fn i128(&mut self, v: i128);
        9 => fn f32(&mut self, v: f32);
        10 => fn text_fragment(&mut self, v: &'sval str);
        11 => fn binary_begin(&mut self, n: Option<usize>);
        11 => fn binary_fragment_computed(&mut self, v: &[u8]);
        11 => fn binary_end(&mut self);
        12 => fn binary_fragment(&mut self, v: &'sval [u8]);
        13 => fn map_begin(&mut self, n: Option<usize>);
        13 => fn map_key_begin(&mut self);
        13 => fn map_key_end(&mut self);
        13 => fn map_value_begin(&mut self);
        13 => fn map_value_end(&mut self);
        13 => fn map_end(&mut self);
        14 => fn enum_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        14 => fn enum_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        15 => fn tagged_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        15 => fn tagged_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        16 => fn tag(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        17 => fn tag_hint(&mut self, t: &Tag);
        18 => fn record_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
        18 => fn record_value_begin(&mut self, t: Option<&Tag>, l: &Label);
        18 => fn record_value_end(&mut self, t: Option<&Tag>, l: &Label);
        18 => fn record_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        19 => fn tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
        19 => fn tuple_value_begin(&mut self, t: Option<&Tag>, i: &Index);
        19 => fn tuple_value_end(&mut self, t: Option<&Tag>, i: &Index);
        19 => fn tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
        20 => fn record_tuple_begin(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>, n: Option<usize>);
        20 => fn record_tuple_value_begin(&mut self, t: Option<&Tag>, l: &Label, i: &Index);
        20 => fn record_tuple_value_end(&mut self, t: Option<&Tag>, l: &Label, i: &Index);
        20 => fn record_tuple_end(&mut self, t: Option<&Tag>, l: Option<&Label>, i: Option<&Index>);
    }
}

/// The model of what a stream implementing only `mask` receives.
pub struct Lower<'a> {
    mask: u32,
    stat: std::slice::Iter<'a, bool>,
    pub out: Vec<Ev>,
}
fn wbit(w: W) -> u32 {
    match w {
        W::W8 => 0,
        W::W16 => 1,
        W::W32 => 2,
        W::W64 => 3,
        W::W128 => 4,
    }
}
const WS: [W; 5] = [W::W8, W::W16, W::W32, W::W64, W::W128];

impl<'a> Lower<'a> {
    pub fn run(e: &'a Expected, mask: u32) -> Vec<Ev> {
        let mut l = Lower { mask, stat: e.stat.iter(), out: Vec::new() };
        for x in &e.ev {
            l.top(x);
        }
        l.out
    }
    fn has(&self, b: u32) -> bool {
        self.mask & (1 << b) != 0
    }
    fn next_stat(&mut self, l: &Option<Lab>) -> bool {
        if l.is_some() {
            *self.stat.next().expect("HARNESS: label staticness")
        } else {
            false
        }
    }
    /// a call made by the value
    fn top(&mut self, e: &Ev) {
        let st = match e {
            Ev::EnumBegin(i) | Ev::EnumEnd(i) | Ev::TaggedBegin(i) | Ev::TaggedEnd(i) | Ev::Tag(i) => self.next_stat(&i.label),
            Ev::RecBegin(i, _) | Ev::RecEnd(i) | Ev::TupBegin(i, _) | Ev::TupEnd(i) | Ev::RTBegin(i, _) | Ev::RTEnd(i) => self.next_stat(&i.label),
            Ev::RecValBegin(_, l) | Ev::RecValEnd(_, l) | Ev::RTValBegin(_, l, _) | Ev::RTValEnd(_, l, _) => self.next_stat(&Some(l.clone())),
            _ => false,
        };
        self.lo(e.clone(), st)
    }
    fn text(&mut self, s: &str, stat: bool) {
        self.lo(Ev::TextBegin(Some(s.len())), false);
        self.lo(Ev::TextFrag(s.to_string(), stat), false);
        self.lo(Ev::TextEnd, false);
    }
    fn number(&mut self, s: String) {
        let id = Id { tag: Some(T_NUMBER), label: None, index: None };
        self.lo(Ev::TaggedBegin(id.clone()), false);
        self.out.push(Ev::TextBegin(None));
        self.out.push(Ev::TextFrag(s, false));
        self.out.push(Ev::TextEnd);
        self.lo(Ev::TaggedEnd(id), false);
    }
    fn idx(n: i128) -> Idx {
        Idx { n, tag: None }
    }
    fn lo(&mut self, e: Ev, st: bool) {
        match e {
            Ev::U(w, v) if !self.has(M_U8 + wbit(w)) => {
                let k = wbit(w) as usize;
                if k < 4 {
                    self.lo(Ev::U(WS[k + 1], v), false)
                } else if v <= i64::MAX as u128 {
                    self.out.push(Ev::I(W::W64, v as i128))
                } else {
                    self.number(v.to_string())
                }
            }
            Ev::I(w, v) if w != W::W64 => {
                let bit = match w {
                    W::W8 => M_I8,
                    W::W16 => M_I8 + 1,
                    W::W32 => M_I8 + 2,
                    _ => M_I128,
                };
                if self.has(bit) {
                    self.out.push(e)
                } else {
                    match w {
                        W::W8 => self.lo(Ev::I(W::W16, v), false),
                        W::W16 => self.lo(Ev::I(W::W32, v), false),
                        W::W32 => self.out.push(Ev::I(W::W64, v)),
                        _ => match i64::try_from(v) {
                            Ok(v) => self.out.push(Ev::I(W::W64, v as i128)),
                            Err(_) => self.number(v.to_string()),
                        },
                    }
                }
            }
            Ev::F32(b) if !self.has(M_F32) => self.out.push(Ev::F64((f32::from_bits(b) as f64).to_bits())),
            Ev::TextFrag(s, true) if !self.has(M_TEXT) => self.out.push(Ev::TextFrag(s, false)),
            Ev::BinBegin(n) if !self.has(M_BIN) => self.out.push(Ev::SeqBegin(n)),
            Ev::BinEnd if !self.has(M_BIN) => self.out.push(Ev::SeqEnd),
            Ev::BinFrag(b, true) if !self.has(M_BINB) => self.lo(Ev::BinFrag(b, false), false),
            Ev::BinFrag(b, false) if !self.has(M_BIN) => {
                for x in b {
                    self.out.push(Ev::ElBegin);
                    self.lo(Ev::U(W::W8, x as u128), false);
                    self.out.push(Ev::ElEnd);
                }
            }
            Ev::MapBegin(n) if !self.has(M_MAP) => self.out.push(Ev::SeqBegin(n)),
            Ev::MapEnd if !self.has(M_MAP) => self.out.push(Ev::SeqEnd),
            Ev::KeyBegin if !self.has(M_MAP) => {
                self.out.push(Ev::ElBegin);
                self.lo(Ev::TupBegin(Id::default(), Some(2)), false);
                self.lo(Ev::TupValBegin(None, Self::idx(0)), false);
            }
            Ev::KeyEnd if !self.has(M_MAP) => self.lo(Ev::TupValEnd(None, Self::idx(0)), false),
            Ev::ValBegin if !self.has(M_MAP) => self.lo(Ev::TupValBegin(None, Self::idx(1)), false),
            Ev::ValEnd if !self.has(M_MAP) => {
                self.lo(Ev::TupValEnd(None, Self::idx(1)), false);
                self.lo(Ev::TupEnd(Id::default()), false);
                self.out.push(Ev::ElEnd);
            }
            Ev::EnumBegin(i) if !self.has(M_ENUM) => self.lo(Ev::TaggedBegin(i), st),
            Ev::EnumEnd(i) if !self.has(M_ENUM) => self.lo(Ev::TaggedEnd(i), st),
            Ev::TaggedBegin(_) | Ev::TaggedEnd(_) if !self.has(M_TAGGED) => (),
            Ev::Tag(i) if !self.has(M_TAG) => {
                self.lo(Ev::TaggedBegin(i.clone()), st);
                match &i.label {
                    _ if i.tag == Some(T_NONE) => self.out.push(Ev::Null),
                    Some(l) => self.text(&l.text.clone(), st),
                    None => self.out.push(Ev::Null),
                }
                self.lo(Ev::TaggedEnd(i), st);
            }
            Ev::Hint(_) if !self.has(M_HINT) => (),
            Ev::RecBegin(i, n) if !self.has(M_REC) => {
                self.lo(Ev::TaggedBegin(i), st);
                self.lo(Ev::MapBegin(n), false);
            }
            Ev::RecEnd(i) if !self.has(M_REC) => {
                self.lo(Ev::MapEnd, false);
                self.lo(Ev::TaggedEnd(i), st);
            }
            Ev::RecValBegin(_, l) if !self.has(M_REC) => {
                self.lo(Ev::KeyBegin, false);
                self.text(&l.text, st);
                self.lo(Ev::KeyEnd, false);
                self.lo(Ev::ValBegin, false);
            }
            Ev::RecValEnd(_, _) if !self.has(M_REC) => self.lo(Ev::ValEnd, false),
            Ev::TupBegin(i, n) if !self.has(M_TUP) => {
                self.lo(Ev::TaggedBegin(i), st);
                self.out.push(Ev::SeqBegin(n));
            }
            Ev::TupEnd(i) if !self.has(M_TUP) => {
                self.out.push(Ev::SeqEnd);
                self.lo(Ev::TaggedEnd(i), st);
            }
            Ev::TupValBegin(_, _) if !self.has(M_TUP) => self.out.push(Ev::ElBegin),
            Ev::TupValEnd(_, _) if !self.has(M_TUP) => self.out.push(Ev::ElEnd),
            Ev::RTBegin(i, n) if !self.has(M_RT) => self.lo(Ev::RecBegin(i, n), st),
            Ev::RTEnd(i) if !self.has(M_RT) => self.lo(Ev::RecEnd(i), st),
            Ev::RTValBegin(t, l, _) if !self.has(M_RT) => self.lo(Ev::RecValBegin(t, l), st),
            Ev::RTValEnd(t, l, _) if !self.has(M_RT) => self.lo(Ev::RecValEnd(t, l), st),
            e => self.out.push(e),
        }
    }
}

/// Computed text between borrowed fragments may arrive in several pieces (integers are formatted); join those.
pub fn join(ev: &[Ev]) -> Vec<Ev> {
    let mut out: Vec<Ev> = Vec::new();
    for e in ev {
        match e {
            Ev::TextFrag(s, false) => {
                if let Some(Ev::TextFrag(p, false)) = out.last_mut() {
                    p.push_str(s);
                } else {
                    out.push(e.clone());
                }
            }
            // which NaN it is may change when widened
            Ev::F64(b) if f64::from_bits(*b).is_nan() => out.push(Ev::F64(f64::NAN.to_bits())),
            e => out.push(e.clone()),
        }
    }
    out
}

fn s02_of(g: &mut Gen, st: &mut Stats, n: &Node) -> R {
    let e = expected(n);
    note(st, &n.sem());
    let mask = match g.below(4) {
        0 => 0,
        1 => 1 << g.below(21),
        2 => M_ALL & !(1 << g.below(21)),
        _ => g.below(1 << 21) as u32,
    };
    // borrowed binary fragments only make sense for a stream that takes binary
    let mask = if mask & (1 << M_BIN) == 0 { mask & !(1 << M_BINB) } else { mask };
    let want = join(&Lower::run(&e, mask));
    let (got, how) = match (mask, g.below(3)) {
        (0, 0) => {
            let mut r = MinRec { rec: Rec::new() };
            sval::Value::stream(n, &mut r).map_err(|_| format!("streaming into a minimal stream failed: {}", short(&format!("{n:?}"))))?;
            (r.rec.ev, "stream")
        }
        (0, 1) => {
            let mut r = MinRec { rec: Rec::new() };
            sval::stream_computed(&mut r, n).map_err(|_| format!("streaming into a minimal stream failed: {}", short(&format!("{n:?}"))))?;
            (r.rec.ev, "stream_computed")
        }
        (0, _) => {
            let mut r = MinRec { rec: Rec::new() };
            let mut d: &mut dyn DS = &mut r;
            d.value(n).map_err(|_| format!("streaming into a minimal stream failed: {}", short(&format!("{n:?}"))))?;
            (r.rec.ev, "dyn value")
        }
        _ => {
            let mut r = MaskRec { rec: Rec::new(), mask };
            sval::Value::stream(n, &mut r).map_err(|_| format!("streaming into a stream implementing {mask:#x} failed: {}", short(&format!("{n:?}"))))?;
            (r.rec.ev, "stream")
        }
    };
    st.events += got.len() as u64;
    st.seen(&mask);
    st.count(if mask == 0 { "minimal" } else { "subsets" }, 1);
    if let Some(d) = diff(&join(&got), &want) {
        return Err(format!("{how} into a stream implementing subset {mask:#x}: {d}\n value: {}", short(&format!("{n:?}"))));
    }
    parse_opt(&got, false).map_err(|e| format!("subset {mask:#x}: malformed: {e}\n value: {}", short(&format!("{n:?}"))))?;
    Ok(())
}
fn s02_any(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { json_tags: true, budget: 20, empty_enum: false, huge: true, ..Cfg::full() });
    s02_of(g, st, &n)
}
fn s02_scalars(g: &mut Gen, st: &mut Stats) -> R {
    let k = 1 + g.idx(6);
    let es = (0..k)
        .map(|_| {
            let node = match g.below(5) {
                0 => Node::U(W::W128, gen_uint(g, 128)),
                1 => Node::I(W::W128, gen_int(g, 128)),
                2 => Node::F32(gen_f32(g)),
                3 => Node::U(W::W64, gen_uint(g, 64)),
                _ => gen_bin(g, &Cfg::full()),
            };
            Child { via: *g.pick(&[Via::Value, Via::Inline, Via::Computed]), node }
        })
        .collect();
    let n = Node::Seq(g.bool(), es);
    st.count("wide_scalars", k as u64);
    s02_of(g, st, &n)
}

pub static S02: Prop = Prop {
    id: "S02",
    rule: "a case counts as distinct when the structure of the value or the subset of implemented methods is new; the calls received are compared with an independent model of the lowering",
    assumptions: &["streams implement whole groups of methods (begin, end and entries of one kind)", "how the text of a wide integer is split into fragments is not compared, nor which NaN a widened NaN is"],
    level: "exploration",
    subs: &[
        Sub { name: "any", weight: 4, f: s02_any, once: false },
        Sub { name: "scalars", weight: 1, f: s02_scalars, once: false },
    ],
    must_see: &["minimal", "subsets", "wide_scalars"],
};
