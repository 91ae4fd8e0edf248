//! J01-J04: JSON.

use super::{note, short};
use crate::fw::*;
use crate::gen::Gen;
use crate::json::{self, X};
use crate::tree::*;

fn cfg_any() -> Cfg {
    Cfg { json_tags: true, ..Cfg::full() }
}
/// no compound keys (they make whole documents fail)
fn cfg_plain() -> Cfg {
    Cfg { json_tags: true, compound_keys: false, ..Cfg::full() }
}

/// Collects without help from the std `String` writer so that the bytes are what the formatter wrote.
struct Sink(String, usize);
impl std::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.1 += 1;
        self.0.push_str(s);
        Ok(())
    }
}

// ------------------------------------------------------------------------------------------- J01

fn doc_check(st: &mut Stats, n: &Node) -> R {
    let sem = n.sem();
    let x = json::json_of(&sem);
    let mut sink = Sink(String::new(), 0);
    let r = sval_json::stream_to_fmt_write(&mut sink, n);
    st.events += sink.1 as u64;
    note(st, &sem);
    match (r, x) {
        (Ok(()), Ok(_)) => {
            json::parse(sink.0.as_bytes()).map_err(|e| format!("invalid JSON reported as success: {e}\n json: {}\n value: {n:?}", short(&sink.0)))?;
            st.count("documents", 1);
            st.sample(|| sink.0.clone());
            Ok(())
        }
        (Ok(()), Err(_)) => Err(format!("a value with a compound key was written as JSON and reported as success\n json: {}\n value: {n:?}", short(&sink.0))),
        (Err(e), Ok(_)) => Err(format!("a representable value failed: {e}\n written: {}\n value: {n:?}", short(&sink.0))),
        (Err(_), Err(_)) => {
            st.count("rejected_compound_keys", 1);
            Ok(())
        }
    }
}

fn j01_any(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { huge: true, ..cfg_any() });
    doc_check(st, &n)
}
fn j01_plain(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &cfg_plain());
    doc_check(st, &n)
}

/// Enum-heavy values: chains of enums, variants, keys that are enums.
fn j01_enums(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_enumish(g, 4);
    doc_check(st, &n)
}
pub fn gen_enumish(g: &mut Gen, depth: u32) -> Node {
    let cfg = Cfg { budget: 6, max_depth: 2, ..cfg_plain() };
    let child = |g: &mut Gen, d: u32| -> Box<Child> {
        let node = if d == 0 { gen_node(g, &Cfg { budget: 1, ..cfg_plain() }) } else { gen_enumish(g, d - 1) };
        Box::new(Child { via: *g.pick(&[Via::Value, Via::Inline]), node })
    };
    let variant = |g: &mut Gen, d: u32| -> Node {
        let mut k = g.below(6);
        if d == 0 && k == 5 {
            k = 0;
        }
        match k {
            0 => Node::Tag(gen_id(g, &cfg)),
            1 => Node::Tagged(gen_id(g, &cfg), child(g, d)),
            2 => {
                let l = gen_lab(g, &cfg);
                let n = g.idx(3);
                Node::Record(gen_id(g, &cfg), true, (0..n).map(|_| (None, l.clone(), *child(g, d))).collect())
            }
            3 => {
                let n = g.idx(3);
                Node::Tuple(gen_id(g, &cfg), true, (0..n).map(|i| (None, gen_idx(g, i), *child(g, d))).collect())
            }
            4 => {
                let n = g.idx(3);
                Node::RecordTuple(gen_id(g, &cfg), true, (0..n).map(|i| (None, gen_lab(g, &cfg), gen_idx(g, i), *child(g, d))).collect())
            }
            _ => {
                let id = gen_id(g, &cfg);
                let v = match g.below(4) {
                    0 => None,
                    _ => {
                        let node = match g.below(3) {
                            0 => Node::Tag(gen_id(g, &cfg)),
                            1 => Node::Tagged(gen_id(g, &cfg), child(g, d - 1)),
                            _ => Node::Enum(gen_id(g, &cfg), Some(Box::new(Child { via: Via::Inline, node: Node::Tagged(gen_id(g, &cfg), child(g, d - 1)) }))),
                        };
                        Some(Box::new(Child { via: Via::Inline, node }))
                    }
                };
                Node::Enum(id, v)
            }
        }
    };
    match g.below(8) {
        0..=4 => {
            let id = gen_id(g, &cfg);
            let v = variant(g, depth);
            Node::Enum(id, Some(Box::new(Child { via: *g.pick(&[Via::Inline, Via::Value]), node: v })))
        }
        5 => {
            let n = g.idx(4);
            Node::Seq(true, (0..n).map(|_| *child(g, depth)).collect())
        }
        6 => {
            let n = g.idx(4);
            Node::Map(
                true,
                (0..n)
                    .map(|_| {
                        let kid = gen_id(g, &cfg);
                        let k = match g.below(4) {
                            0 => Node::Enum(kid, Some(Box::new(Child { via: Via::Inline, node: Node::Tag(gen_id(g, &cfg)) }))),
                            1 => Node::Tagged(kid, Box::new(Child { via: Via::Inline, node: gen_text(g, &cfg, "k") })),
                            2 => Node::Tag(kid),
                            _ => gen_text(g, &cfg, "k"),
                        };
                        (Child { via: Via::Value, node: k }, *child(g, depth))
                    })
                    .collect(),
            )
        }
        _ => variant(g, depth),
    }
}

/// Very deep nesting.
/// Tagged values with nothing inside are written like a bare tag, wherever they are.
enum Emp {
    Tagged(Option<String>, Option<i64>),
    Bool(bool),
    Seq(Vec<Emp>),
    Tuple(Vec<Emp>),
    Rec(Vec<(String, Emp)>),
    Map(Vec<(String, Emp)>),
}
impl sval::Value for Emp {
    fn stream<'s, S: sval::Stream<'s> + ?Sized>(&'s self, s: &mut S) -> sval::Result {
        match self {
            Emp::Tagged(l, i) => {
                let (l, i) = (l.as_deref().map(sval::Label::new_computed), i.map(|i| sval::Index::from(i)));
                s.tagged_begin(None, l.as_ref(), i.as_ref())?;
                s.tagged_end(None, l.as_ref(), i.as_ref())
            }
            Emp::Bool(b) => s.bool(*b),
            Emp::Seq(es) => {
                s.seq_begin(Some(es.len()))?;
                for e in es {
                    s.seq_value_begin()?;
                    s.value(e)?;
                    s.seq_value_end()?;
                }
                s.seq_end()
            }
            Emp::Tuple(es) => {
                s.tuple_begin(None, None, None, Some(es.len()))?;
                for (i, e) in es.iter().enumerate() {
                    let i = sval::Index::new(i);
                    s.tuple_value_begin(None, &i)?;
                    e.stream(s)?;
                    s.tuple_value_end(None, &i)?;
                }
                s.tuple_end(None, None, None)
            }
            Emp::Rec(es) => {
                s.record_begin(None, None, None, Some(es.len()))?;
                for (k, e) in es {
                    let l = sval::Label::new_computed(k);
                    s.record_value_begin(None, &l)?;
                    s.value(e)?;
                    s.record_value_end(None, &l)?;
                }
                s.record_end(None, None, None)
            }
            Emp::Map(es) => {
                s.map_begin(None)?;
                for (k, e) in es {
                    s.map_key_begin()?;
                    s.value(k)?;
                    s.map_key_end()?;
                    s.map_value_begin()?;
                    s.value(e)?;
                    s.map_value_end()?;
                }
                s.map_end()
            }
        }
    }
}
impl Emp {
    fn gen(g: &mut Gen, d: u32) -> Emp {
        let name = |g: &mut Gen| g.pick(&["a", "Tagged", "", "x\"y", "\u{1f600}", "k\n"]).to_string();
        match if d == 0 { g.below(3) } else { g.below(9) } {
            0 | 1 => Emp::Tagged(if g.bool() { Some(name(g)) } else { None }, if g.bool() { Some(g.below(300) as i64 - 20) } else { None }),
            2 => Emp::Bool(g.bool()),
            3 | 4 => Emp::Seq((0..g.below(4)).map(|_| Emp::gen(g, d - 1)).collect()),
            5 => Emp::Tuple((0..g.below(4)).map(|_| Emp::gen(g, d - 1)).collect()),
            6 | 7 => Emp::Rec((0..g.below(4)).map(|_| (name(g), Emp::gen(g, d - 1))).collect()),
            _ => Emp::Map((0..g.below(4)).map(|_| (name(g), Emp::gen(g, d - 1))).collect()),
        }
    }
    fn want(&self) -> json::J {
        use json::J;
        match self {
            Emp::Tagged(Some(l), _) => J::Str(l.clone()),
            Emp::Tagged(None, Some(i)) => J::Num(i.to_string()),
            Emp::Tagged(None, None) => J::Null,
            Emp::Bool(b) => J::Bool(*b),
            Emp::Seq(es) | Emp::Tuple(es) => J::Arr(es.iter().map(Emp::want).collect()),
            Emp::Rec(es) | Emp::Map(es) => J::Obj(es.iter().map(|(k, v)| (k.clone(), v.want())).collect()),
        }
    }
}
fn j_empty_tagged(g: &mut Gen, st: &mut Stats) -> R {
    let e = Emp::gen(g, 3);
    let out = sval_json::stream_to_string(&e).map_err(|_| format!("writing failed for {:?}", e.want()))?;
    let got = json::parse(out.as_bytes()).map_err(|x| format!("not JSON: {x}: {} for {:?}", short(&out), e.want()))?;
    st.events += 1;
    st.count("empty_tagged", 1);
    if got != e.want() {
        return Err(format!("values tagging nothing: wrote {} for {:?}", short(&out), e.want()));
    }
    Ok(())
}

fn j01_deep(g: &mut Gen, st: &mut Stats) -> R {
    let depth = 1 + g.idx(150);
    let cfg = Cfg { budget: 2, ..cfg_plain() };
    let mut n = gen_node(g, &cfg);
    for _ in 0..depth {
        let c = Child { via: if g.chance(1, 20) { Via::Computed } else { Via::Inline }, node: n };
        n = match g.below(7) {
            0 => Node::Seq(true, vec![c]),
            1 => Node::Map(true, vec![(Child { via: Via::Inline, node: gen_text(g, &cfg, "k") }, c)]),
            2 => Node::Tagged(gen_id(g, &cfg), Box::new(c)),
            3 => Node::Enum(gen_id(g, &cfg), Some(Box::new(Child { via: Via::Inline, node: Node::Tagged(gen_id(g, &cfg), Box::new(c)) }))),
            4 => Node::Record(gen_id(g, &cfg), true, vec![(None, gen_lab(g, &cfg), c)]),
            5 => Node::Tuple(gen_id(g, &cfg), true, vec![(None, gen_idx(g, 0), c)]),
            _ => Node::Enum(gen_id(g, &cfg), Some(Box::new(Child { via: Via::Inline, node: Node::Tuple(gen_id(g, &cfg), true, vec![(None, gen_idx(g, 0), c)]) }))),
        };
    }
    doc_check(st, &n)
}

/// Every single character, and every pair with an escape, through text, keys and labels.
fn j_chars_all(_: &mut Gen, st: &mut Stats) -> R {
    let mut buf = String::new();
    for c in (0u32..=0x10ffff).filter_map(char::from_u32) {
        buf.push(c);
        if buf.len() >= 3000 || c == '\u{10ffff}' || (c as u32) < 0x100 {
            let j = sval_json::stream_to_string(&*buf).map_err(|e| format!("{e} on {buf:?}"))?;
            match json::parse(j.as_bytes()) {
                Ok(json::J::Str(s)) if s == buf => (),
                r => return Err(format!("text {buf:?} became {j} -> {r:?}")),
            }
            st.count("char_blocks", 1);
            st.events += 1;
            buf.clear();
        }
    }
    for a in 0u8..128 {
        for b in 0u8..128 {
            let s = format!("{}{}é", a as char, b as char);
            let j = sval_json::stream_to_string(&*s).map_err(|e| format!("{e} on {s:?}"))?;
            match json::parse(j.as_bytes()) {
                Ok(json::J::Str(t)) if t == s => (),
                r => return Err(format!("text {s:?} became {j} -> {r:?}")),
            }
            st.events += 1;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- J02

fn fidelity(st: &mut Stats, n: &Node) -> R {
    let sem = n.sem();
    note(st, &sem);
    let x = match json::json_of(&sem) {
        Ok(x) => x,
        Err(_) => {
            st.count("unrepresentable", 1);
            return Ok(());
        }
    };
    let s = sval_json::stream_to_string(n).map_err(|e| format!("failed: {e}\n value: {n:?}"))?;
    st.events += s.len() as u64;
    let j = json::parse(s.as_bytes()).map_err(|e| format!("invalid JSON: {e}\n json: {}\n value: {n:?}", short(&s)))?;
    json::matches(&j, &x).map_err(|e| format!("JSON does not carry the data: {e}\n json: {}\n value: {n:?}", short(&s)))?;
    st.count("documents", 1);
    st.sample(|| s.clone());
    Ok(())
}
fn j02_model(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { huge: true, ..cfg_plain() });
    fidelity(st, &n)
}
fn j02_enums(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_enumish(g, 3);
    fidelity(st, &n)
}
fn j02_delivery(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &cfg_plain());
    let m = redeliver(g, &n, true);
    note(st, &n.sem());
    let a = sval_json::stream_to_string(&n).ok();
    let b = sval_json::stream_to_string(&m).ok();
    st.count("deliveries", 1);
    st.events += 2;
    if a != b {
        return Err(format!("the same data delivered differently gives different JSON\n {}\n {}\n {n:?}\n {m:?}", short(&format!("{a:?}")), short(&format!("{b:?}"))));
    }
    Ok(())
}
fn j02_floats(g: &mut Gen, st: &mut Stats) -> R {
    for _ in 0..200 {
        let b = gen_f64(g);
        let v = f64::from_bits(b);
        let s = sval_json::stream_to_string(v).map_err(|e| e.to_string())?;
        let x = if v.is_finite() { X::F64(b) } else { X::Null };
        let j = json::parse(s.as_bytes()).map_err(|e| format!("{e}: {s}"))?;
        json::matches(&j, &x)?;
        let b = gen_f32(g);
        let v = f32::from_bits(b);
        let s = sval_json::stream_to_string(v).map_err(|e| e.to_string())?;
        let x = if v.is_finite() { X::F32(b) } else { X::Null };
        let j = json::parse(s.as_bytes()).map_err(|e| format!("{e}: {s}"))?;
        json::matches(&j, &x)?;
        st.seen(&b);
        st.count("floats", 2);
        st.events += 2;
    }
    Ok(())
}
fn j02_serde(g: &mut Gen, st: &mut Stats) -> R {
    let v = crate::types::gen(g);
    let a = sval_json::stream_to_string(&v).map_err(|e| format!("sval_json failed: {e} on {v:?}"))?;
    let b = serde_json::to_string(&v).map_err(|e| format!("HARNESS: serde_json failed: {e} on {v:?}"))?;
    st.count("serde_compared", 1);
    st.events += 1;
    st.seen(&a);
    same_json(&a, &b).map_err(|e| format!("{e}\n sval:  {a}\n serde: {b}\n value: {v:?}"))
}

/// Same document, numbers compared as f64/f32-exact or integer-exact.
pub fn same_json(a: &str, b: &str) -> R {
    if a == b {
        return Ok(());
    }
    let ja = json::parse(a.as_bytes()).map_err(|e| format!("invalid: {e}"))?;
    let jb = json::parse(b.as_bytes()).map_err(|e| format!("HARNESS: serde_json invalid: {e}"))?;
    same_j(&ja, &jb)
}
pub fn same_j(a: &json::J, b: &json::J) -> R {
    use json::J::*;
    match (a, b) {
        (Num(x), Num(y)) => {
            if x == y || json::decimal(x) == json::decimal(y) {
                return Ok(());
            }
            Err(format!("number {x} vs {y}"))
        }
        (Arr(x), Arr(y)) if x.len() == y.len() => x.iter().zip(y).try_for_each(|(x, y)| same_j(x, y)),
        (Obj(x), Obj(y)) if x.len() == y.len() => x.iter().zip(y).try_for_each(|(x, y)| {
            if x.0 != y.0 && json::decimal(&x.0).is_none() {
                return Err(format!("key {:?} vs {:?}", x.0, y.0));
            }
            if x.0 != y.0 && json::decimal(&x.0) != json::decimal(&y.0) {
                return Err(format!("key {:?} vs {:?}", x.0, y.0));
            }
            same_j(&x.1, &y.1)
        }),
        (a, b) if a == b => Ok(()),
        (a, b) => Err(format!("{a:?} vs {b:?}")),
    }
}

// ------------------------------------------------------------------------------------------- J03

#[derive(Clone, Debug)]
enum Fault {
    Full,
    Short(usize),
    Interrupted,
    Zero,
    Err(std::io::ErrorKind),
}
struct FaultIo<'a> {
    plan: &'a [Fault],
    at: usize,
    out: &'a mut Vec<u8>,
    calls: usize,
    /// after the plan: accept everything, or keep failing with the last fault
    sticky: bool,
    runaway: bool,
    hard: bool,
}
impl<'a> std::io::Write for &mut FaultIo<'a> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.calls += 1;
        if self.calls > 2_000_000 {
            self.runaway = true;
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "runaway"));
        }
        let f = match self.plan.get(self.at) {
            Some(f) => {
                self.at += 1;
                f.clone()
            }
            None => {
                if self.sticky && !matches!(self.plan.last(), Some(Fault::Interrupted)) {
                    self.plan.last().cloned().unwrap_or(Fault::Full)
                } else {
                    Fault::Full
                }
            }
        };
        match f {
            Fault::Full => {
                self.out.extend_from_slice(buf);
                Ok(buf.len())
            }
            Fault::Short(n) => {
                let n = n.min(buf.len());
                self.out.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Fault::Interrupted => Err(std::io::ErrorKind::Interrupted.into()),
            Fault::Zero => {
                if !buf.is_empty() {
                    self.hard = true;
                }
                Ok(0)
            }
            Fault::Err(k) => {
                self.hard = true;
                Err(k.into())
            }
        }
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn gen_plan(g: &mut Gen) -> Vec<Fault> {
    use std::io::ErrorKind::*;
    let n = g.idx(40);
    let style = g.below(4);
    (0..n)
        .map(|_| match if style == 0 { g.below(3) } else { g.below(12) } {
            0 => Fault::Short(1 + g.idx(3)),
            1 => Fault::Interrupted,
            2 => Fault::Short(1),
            3..=6 => Fault::Full,
            7 | 8 => Fault::Short(1 + g.idx(20)),
            9 if style == 1 => Fault::Zero,
            10 if style >= 2 => Fault::Err(*g.pick(&[Other, WouldBlock, BrokenPipe, ConnectionReset, TimedOut, WriteZero, UnexpectedEof])),
            _ => Fault::Full,
        })
        .collect()
}

fn j03_io(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 25, ..cfg_any() });
    let mut whole = Sink(String::new(), 0);
    let ref_ok = sval_json::stream_to_fmt_write(&mut whole, &n).is_ok();
    let whole = whole.0.into_bytes();
    let plan = gen_plan(g);
    let sticky = g.chance(1, 3);
    let mut out = Vec::new();
    let mut io = FaultIo { plan: &plan, at: 0, out: &mut out, calls: 0, sticky, runaway: false, hard: false };
    let r = sval_json::stream_to_io_write(&mut io, &n);
    let (runaway, hard, calls, at) = (io.runaway, io.hard, io.calls, io.at);
    st.events += calls as u64;
    st.count("writer_calls", calls as u64);
    st.count("faults_consumed", at as u64);
    st.seen(&(calls, at, hard, ref_ok, whole.len()));
    let ctx = || format!("\n plan: {plan:?} sticky={sticky}\n delivered: {:?}\n document: {:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&whole));
    if runaway {
        return Err(format!("the writer was called over 2000000 times{}", ctx()));
    }
    if !whole.starts_with(&out) {
        return Err(format!("delivered bytes are not a prefix of the document{}", ctx()));
    }
    match r {
        Ok(()) => {
            if out != whole || !ref_ok {
                return Err(format!("success reported but the document is incomplete{}", ctx()));
            }
            if hard {
                st.count("complete_despite_fault", 1);
            }
            st.count("completed", 1);
        }
        Err(e) => {
            st.count("errors", 1);
            if ref_ok && !hard {
                return Err(format!("short writes and interruptions alone made it fail: {e}{}", ctx()));
            }
        }
    }
    Ok(())
}

/// Fail each write call in turn (every fault position of one document).
fn j03_every_position(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 12, ..cfg_plain() });
    let whole = match sval_json::stream_to_vec(&n) {
        Ok(w) => w,
        Err(_) => return Ok(()),
    };
    let kind = g.below(3);
    let mut k = 0;
    loop {
        let mut plan = vec![Fault::Full; k];
        plan.push(match kind {
            0 => Fault::Err(std::io::ErrorKind::BrokenPipe),
            1 => Fault::Zero,
            _ => Fault::Short(1),
        });
        let mut out = Vec::new();
        let mut io = FaultIo { plan: &plan, at: 0, out: &mut out, calls: 0, sticky: kind != 2, runaway: false, hard: false };
        let r = sval_json::stream_to_io_write(&mut io, &n);
        let (runaway, reached) = (io.runaway, io.at > k);
        st.events += io.calls as u64;
        st.count("fault_positions", 1);
        if runaway {
            return Err(format!("runaway writer at fault position {k} kind {kind} value {n:?}"));
        }
        let ctx = || format!("fault kind {kind} at write #{k}\n delivered: {:?}\n document: {:?}\n value: {n:?}", String::from_utf8_lossy(&out), String::from_utf8_lossy(&whole));
        if !whole.starts_with(&out) {
            return Err(format!("delivered bytes are not a prefix: {}", ctx()));
        }
        match r {
            Ok(()) if out != whole => return Err(format!("success for truncated output: {}", ctx())),
            Err(_) if kind == 2 || !reached => return Err(format!("error without a fault: {}", ctx())),
            _ => (),
        }
        if !reached || k > 300 {
            break;
        }
        k += 1;
    }
    st.seen(&(k, kind));
    Ok(())
}

/// fmt::Write that fails at a chosen call.
struct FailFmt(String, usize, usize);
impl std::fmt::Write for FailFmt {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.1 == self.2 {
            return Err(std::fmt::Error);
        }
        self.1 += 1;
        self.0.push_str(s);
        Ok(())
    }
}
fn j03_fmt_faults(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 12, ..cfg_plain() });
    let mut f = FailFmt(String::new(), 0, usize::MAX);
    if sval_json::stream_to_fmt_write(FmtRef(&mut f), &n).is_err() {
        return Ok(());
    }
    let (whole, calls) = (f.0, f.1);
    for k in super::positions(calls) {
        let mut f = FailFmt(String::new(), 0, k);
        let r = sval_json::stream_to_fmt_write(FmtRef(&mut f), &n);
        st.events += 1;
        st.count("fault_positions", 1);
        if r.is_ok() {
            return Err(format!("destination failed at write #{k} but success was reported\n delivered {:?}\n document {whole:?}\n value {n:?}", f.0));
        }
        if !whole.starts_with(&f.0) {
            return Err(format!("delivered {:?} is not a prefix of {whole:?}", f.0));
        }
        if f.1 > k {
            return Err("HARNESS: wrote after failure".into());
        }
    }
    st.seen(&whole);
    Ok(())
}
struct FmtRef<'a>(&'a mut FailFmt);
impl<'a> std::fmt::Write for FmtRef<'a> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.0.write_str(s)
    }
}

fn j03_sinks(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &cfg_any());
    let mut sink = Sink(String::new(), 0);
    let a = sval_json::stream_to_fmt_write(&mut sink, &n).is_ok().then_some(sink.0);
    let b = sval_json::stream_to_string(&n).ok();
    let c = sval_json::stream_to_vec(&n).ok().map(|v| String::from_utf8(v).unwrap_or_else(|e| format!("not utf8: {e}")));
    let d = sval_json::stream_to_json_str(&n).ok().map(|v| v.as_str().to_string());
    let mut io = Vec::new();
    let e = sval_json::stream_to_io_write(&mut io, &n).is_ok().then(|| String::from_utf8_lossy(&io).to_string());
    st.count("sinks_compared", 5);
    st.events += 5;
    st.seen(&a);
    for (w, x) in [("string", &b), ("vec", &c), ("json_str", &d), ("io", &e)] {
        if x != &a {
            return Err(format!("{w} output differs\n {w}: {}\n fmt: {}", short(&format!("{x:?}")), short(&format!("{a:?}"))));
        }
    }
    Ok(())
}

fn j03_embed(g: &mut Gen, st: &mut Stats) -> R {
    // pre-serialized JSON is embedded verbatim, wherever it stands
    let n = gen_node(g, &Cfg { budget: 8, ..cfg_plain() });
    let text = match sval_json::stream_to_string(&n) {
        Ok(t) => t,
        Err(_) => return Ok(()),
    };
    let text = if g.chance(1, 4) { format!(" {text}\n") } else { text };
    let js = sval_json::JsonStr::new(&text);
    let boxed = sval_json::JsonStr::boxed(text.clone());
    st.events += 6;
    st.count("embedded", 1);
    st.seen(&text);
    if js.as_str() != text || boxed.as_str() != text || js.as_bytes() != text.as_bytes() {
        return Err(format!("JsonStr does not hold its text: {text:?}"));
    }
    let from: &sval_json::JsonStr = (&*text).into();
    let from_box: Box<sval_json::JsonStr> = text.clone().into_boxed_str().into();
    let (as_ref, borrow): (&str, &str) = ((*from_box).as_ref(), std::borrow::Borrow::borrow(from));
    if from.as_str() != text || from_box.as_str() != text || as_ref != text || borrow != text || from.to_string() != text {
        return Err(format!("JsonStr made from {text:?} does not hold it"));
    }
    let longer = format!("{text} ");
    let shorter = &text[..text.char_indices().next_back().map_or(0, |c| c.0)];
    if *js != *text || *js == *longer || *js == *shorter {
        return Err(format!("comparing a JsonStr is not comparing its text: {text:?}"));
    }
    let one = sval_json::stream_to_string(js).map_err(|e| format!("{e} on {text:?}"))?;
    if one != text {
        return Err(format!("JsonStr {text:?} streamed as {one:?}"));
    }
    let arr = sval_json::stream_to_string([js, &*boxed]).map_err(|e| format!("{e} on {text:?}"))?;
    if arr != format!("[{text},{text}]") {
        return Err(format!("JsonStr in a sequence: {arr:?}"));
    }
    let mut m: std::collections::BTreeMap<&str, &sval_json::JsonStr> = Default::default();
    m.insert("k", js);
    m.insert("l", &boxed);
    let obj = sval_json::stream_to_string(&m).map_err(|e| e.to_string())?;
    if obj != format!("{{\"k\":{text},\"l\":{text}}}") {
        return Err(format!("JsonStr in a map: {obj:?}"));
    }
    let after = sval_json::stream_to_string((js, "a\"b", Some(js), "c")).map_err(|e| e.to_string())?;
    if after != format!("[{text},\"a\\\"b\",{text},\"c\"]") {
        return Err(format!("text after embedded JSON: {after:?}"));
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------- J04

fn num_child(g: &mut Gen, s: &str, id: NId) -> Node {
    let cfg = Cfg { hints: false, ..Cfg::full() };
    let t = gen_text(g, &cfg, s);
    let via = *g.pick(&[Via::Value, Via::Inline, Via::Computed]);
    Node::Tagged(id, Box::new(Child { via, node: t }))
}
fn ch(node: Node) -> Child {
    Child { via: Via::Inline, node }
}

fn j04_number(g: &mut Gen, st: &mut Stats) -> R {
    for _ in 0..8 {
        let s = if g.chance(1, 4) {
            (*g.pick(&["0", "-0", "+0", "0e0", "0e5", "-0e5", "00e1", "0.0", "-0.0e0", "000", "0E+0", "1e2", "0.1", "00.10e-0", "10", "-10", "+010", "1E400", "100e0"])).to_string()
        } else {
            gen_number_text(g)
        };
        let cfg = Cfg { hints: false, ..Cfg::full() };
        let plain = NId { tag: Some(T_NUMBER), label: None, index: None };
        let pos = g.below(9);
        // numbers next to numbers and text, so that leftovers of one show in the next
        let n = match pos {
            0 => num_child(g, &s, plain),
            1 => Node::Seq(true, vec![ch(num_child(g, &s, plain.clone())), ch(gen_text(g, &cfg, "x\"y")), ch(num_child(g, &s, plain))]),
            2 => Node::Map(
                true,
                vec![
                    (ch(num_child(g, &s, plain.clone())), ch(num_child(g, "0", plain.clone()))),
                    (ch(num_child(g, "007", plain.clone())), ch(gen_text(g, &cfg, "t"))),
                ],
            ),
            3 => Node::Map(true, vec![(ch(gen_text(g, &cfg, "k")), ch(num_child(g, &s, plain)))]),
            4 => {
                let l = gen_lab(g, &cfg);
                Node::Record(gen_id(g, &cfg), true, vec![(None, l.clone(), ch(num_child(g, &s, plain.clone()))), (None, l, ch(num_child(g, &s, plain)))])
            }
            5 => Node::Enum(NId::default(), Some(Box::new(ch(num_child(g, &s, plain))))),
            6 => {
                // a labelled number as a variant
                let mut id = gen_id(g, &cfg);
                id.tag = Some(T_NUMBER);
                let v = num_child(g, &s, id);
                Node::Seq(true, vec![ch(Node::Enum(gen_id(g, &cfg), Some(Box::new(ch(v))))), ch(Node::Bool(true))])
            }
            7 => {
                let mut id = gen_id(g, &cfg);
                id.tag = Some(T_NUMBER);
                let v = num_child(g, &s, id);
                Node::Tuple(gen_id(g, &cfg), true, vec![(None, gen_idx(g, 0), ch(v)), (None, gen_idx(g, 1), ch(gen_text(g, &cfg, "1")))])
            }
            _ => {
                let id = gen_id(g, &cfg);
                let c = num_child(g, &s, plain);
                Node::Enum(gen_id(g, &cfg), Some(Box::new(ch(Node::Tagged(id, Box::new(ch(c)))))))
            }
        };
        st.count("numbers", 1);
        st.seen(&(pos, json::decimal(&s), s.len()));
        fidelity(st, &n)?;
    }
    Ok(())
}
/// Every number text up to five characters over a small alphabet, in one piece and split everywhere.
fn j04_enumerate(_: &mut Gen, st: &mut Stats) -> R {
    let alpha = ['0', '1', '9', '.', 'e', 'E', '+', '-'];
    let mut cur: Vec<String> = vec![String::new()];
    for _ in 0..6 {
        let mut next = Vec::new();
        for p in &cur {
            for c in alpha {
                next.push(format!("{p}{c}"));
            }
        }
        for s in &next {
            if is_number_text(s) {
                for cut in 0..=s.len() {
                    let fr = if cut == s.len() { vec![(s.clone(), false)] } else { vec![(s[..cut].to_string(), true), (s[cut..].to_string(), false)] };
                    let n = Node::Tagged(NId { tag: Some(T_NUMBER), label: None, index: None }, Box::new(ch(Node::Text(fr, false))));
                    st.count("numbers", 1);
                    fidelity(st, &n)?;
                }
            }
        }
        cur = next;
    }
    Ok(())
}
pub fn is_number_text(s: &str) -> bool {
    let b = s.as_bytes();
    let mut i = 0;
    let dig = |i: &mut usize| {
        let s = *i;
        while *i < b.len() && b[*i].is_ascii_digit() {
            *i += 1;
        }
        *i > s
    };
    if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
        i += 1;
    }
    if !dig(&mut i) {
        return false;
    }
    if i < b.len() && b[i] == b'.' {
        i += 1;
        if !dig(&mut i) {
            return false;
        }
    }
    if i < b.len() && (b[i] | 32) == b'e' {
        i += 1;
        if i < b.len() && (b[i] == b'+' || b[i] == b'-') {
            i += 1;
        }
        if !dig(&mut i) {
            return false;
        }
    }
    i == b.len()
}
fn j04_nonfinite(g: &mut Gen, st: &mut Stats) -> R {
    let s = g.pick(&["nan", "NaN", "NAN", "snan", "SNAN", "inf", "Inf", "INFINITY", "infinity", "-inf", "-Infinity", "-nan", "+inf", "sNaN123", "nan5"]);
    let n = num_child(g, s, NId { tag: Some(T_NUMBER), label: None, index: None });
    let n = Node::Seq(true, vec![ch(n), ch(num_child(g, "-05", NId { tag: Some(T_NUMBER), label: None, index: None }))]);
    let j = sval_json::stream_to_string(&n).map_err(|e| format!("{e} on {s}"))?;
    st.count("nonfinite", 1);
    st.events += 1;
    st.seen(&(s.to_string(), &j));
    if j != "[null,-5]" {
        return Err(format!("{s:?} written as {j}"));
    }
    Ok(())
}
fn j04_wide_ints(g: &mut Gen, st: &mut Stats) -> R {
    for _ in 0..100 {
        let u = gen_uint(g, 128);
        let i = gen_int(g, 128);
        let j = sval_json::stream_to_string((u, i, u as u64, i as i64)).map_err(|e| e.to_string())?;
        st.count("numbers", 4);
        st.events += 1;
        st.seen(&u);
        let want = format!("[{u},{i},{},{}]", u as u64, i as i64);
        if j != want {
            return Err(format!("integers written as {j}, expected {want}"));
        }
        // and through number text
        struct N(i128);
        impl sval::Value for N {
            fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, stream: &mut S) -> sval::Result {
                sval::stream_number(stream, self.0)
            }
        }
        let j = sval_json::stream_to_string(N(i)).map_err(|e| e.to_string())?;
        if j != i.to_string() {
            return Err(format!("stream_number({i}) written as {j}"));
        }
    }
    Ok(())
}

/// Values that don't keep to the protocol are no reason to panic.
fn j01_broken(g: &mut Gen, st: &mut Stats) -> R {
    let (v, _) = super::r::gen_broken(g, &Cfg { empty_enum: true, ..cfg_any() })?;
    st.events += v.play.ev.len() as u64;
    st.count("broken", 1);
    st.seen(&v.play.ev);
    let a = sval_json::stream_to_string(&v);
    let b = sval_json::stream_to_vec(&v);
    let mut io = Vec::new();
    let c = sval_json::stream_to_io_write(&mut io, &v);
    if a.is_ok() != b.is_ok() || a.is_ok() != c.is_ok() {
        return Err(format!("string {}, vec {}, io {} on {}", a.is_ok(), b.is_ok(), c.is_ok(), short(&format!("{:?}", v.play.ev))));
    }
    Ok(())
}

pub static J01: Prop = Prop {
    id: "J01",
    rule: "distinct value shapes (structure, label/index presence, scalar kinds) whose JSON the RFC 8259 monitor judged",
    assumptions: &["values are generated as well-formed streams (DESIGN.md, value generator)", "labels tagged VALUE_IDENT are Rust identifiers, as that tag requires"],
    level: "exploration",
    subs: &[
        Sub { name: "chars", weight: 1, f: j_chars_all, once: true },
        Sub { name: "any", weight: 6, f: j01_any, once: false },
        Sub { name: "plain", weight: 10, f: j01_plain, once: false },
        Sub { name: "enums", weight: 10, f: j01_enums, once: false },
        Sub { name: "deep", weight: 1, f: j01_deep, once: false },
        Sub { name: "broken", weight: 1, f: j01_broken, once: false },
        Sub { name: "emptytagged", weight: 1, f: j_empty_tagged, once: false },
        Sub { name: "rust", weight: 3, f: j01_rust, once: false },
    ],
    must_see: &["documents", "rejected_compound_keys", "char_blocks", "rust_documents", "broken"],
};
fn j01_rust(g: &mut Gen, st: &mut Stats) -> R {
    let v = crate::types::gen_any(g);
    let a = sval_json::stream_to_string(&v).map_err(|e| format!("failed: {e} on {v:?}"))?;
    st.count("rust_documents", 1);
    st.events += 1;
    st.seen(&a.len());
    json::parse(a.as_bytes()).map_err(|e| format!("invalid JSON reported as success: {e}\n json: {a}\n value: {v:?}"))?;
    Ok(())
}
pub static J02: Prop = Prop {
    id: "J02",
    rule: "distinct value shapes whose decoded JSON was compared with the data (model), with a second delivery, or with serde_json",
    assumptions: &["the JSON model in harness/src/json.rs states the documented encoding (externally tagged enums, null for unit-like and non-finite values)"],
    level: "exploration",
    subs: &[
        Sub { name: "chars", weight: 1, f: j_chars_all, once: true },
        Sub { name: "model", weight: 10, f: j02_model, once: false },
        Sub { name: "enums", weight: 8, f: j02_enums, once: false },
        Sub { name: "delivery", weight: 6, f: j02_delivery, once: false },
        Sub { name: "serde", weight: 6, f: j02_serde, once: false },
        Sub { name: "floats", weight: 1, f: j02_floats, once: false },
        Sub { name: "emptytagged", weight: 1, f: j_empty_tagged, once: false },
    ],
    must_see: &["documents", "deliveries", "serde_compared", "floats"],
};
pub static J03: Prop = Prop {
    id: "J03",
    rule: "distinct (writer calls, faults consumed, outcome) combinations seen by the fault-injecting destinations, plus distinct documents compared across sinks",
    assumptions: &["destinations follow the std::io::Write contract (a short write reports how much it took)"],
    level: "fault_enumeration",
    subs: &[
        Sub { name: "io", weight: 10, f: j03_io, once: false },
        Sub { name: "everypos", weight: 3, f: j03_every_position, once: false },
        Sub { name: "fmtfaults", weight: 3, f: j03_fmt_faults, once: false },
        Sub { name: "sinks", weight: 5, f: j03_sinks, once: false },
        Sub { name: "embed", weight: 3, f: j03_embed, once: false },
    ],
    must_see: &["completed", "errors", "fault_positions", "sinks_compared", "embedded"],
};
pub static J04: Prop = Prop {
    id: "J04",
    rule: "distinct (position in the document, decimal value, spelling length) of number texts whose JSON number was compared exactly",
    assumptions: &["number text follows the grammar documented on sval::tags::NUMBER"],
    level: "exploration",
    subs: &[
        Sub { name: "enumerate", weight: 1, f: j04_enumerate, once: true },
        Sub { name: "number", weight: 10, f: j04_number, once: false },
        Sub { name: "nonfinite", weight: 1, f: j04_nonfinite, once: false },
        Sub { name: "wide", weight: 1, f: j04_wide_ints, once: false },
    ],
    must_see: &["numbers", "nonfinite"],
};
