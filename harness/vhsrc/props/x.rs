//! X01: the experimental JSON reader. A generated document is written out with arbitrary white space and read back;
//! the monitor records every call and compares it with the document. Only what the prototype supports is generated
//! (it stops with `todo!` at the other escapes and at an upper-case exponent).

use super::short;
use crate::fw::*;
use crate::gen::Gen;
use crate::json;
use crate::rec::*;
use crate::tree::*;

#[derive(Debug, Clone)]
enum D {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<D>),
    Obj(Vec<(String, D)>),
}

fn num(g: &mut Gen) -> String {
    let mut s = String::new();
    if g.bool() {
        s.push('-')
    }
    let digits = |g: &mut Gen, s: &mut String| {
        for _ in 0..g.range(1, 12) {
            s.push((b'0' + g.below(10) as u8) as char)
        }
    };
    if g.chance(1, 3) {
        s.push('0')
    } else {
        s.push((b'1' + g.below(9) as u8) as char);
        if g.bool() {
            digits(g, &mut s)
        }
    }
    if g.chance(1, 3) {
        s.push('.');
        digits(g, &mut s)
    }
    if g.chance(1, 3) {
        s.push('e');
        s.push_str(["", "+", "-"][g.idx(3)]);
        s.push_str(&g.below(400).to_string())
    }
    s
}
/// No characters that JSON only has as other escapes.
fn text(g: &mut Gen) -> String {
    let s = if g.chance(1, 60) { gen_long_string(g) } else { gen_string(g) };
    let mut o: String = s.chars().filter(|c| *c >= ' ' || matches!(c, '\n' | '\r')).collect();
    if g.bool() {
        for _ in 0..g.below(4) {
            let at = o.char_indices().map(|(i, _)| i).nth(g.idx(o.chars().count().max(1))).unwrap_or(0);
            o.insert(at, *g.pick(&['\n', '\r', '"', '\\']));
        }
    }
    o
}
fn doc(g: &mut Gen, depth: u32, budget: &mut i32) -> D {
    *budget -= 1;
    if depth == 0 || *budget <= 0 || g.chance(2, 5) {
        return match g.below(5) {
            0 => D::Null,
            1 => D::Bool(g.bool()),
            2 => D::Num(num(g)),
            _ => D::Str(text(g)),
        };
    }
    let n = if g.chance(1, 200) { g.range(60, 300) } else { g.below(5) };
    if g.bool() {
        D::Arr((0..n).map(|_| doc(g, depth - 1, budget)).collect())
    } else {
        D::Obj((0..n).map(|_| (text(g), doc(g, depth - 1, budget))).collect())
    }
}
fn ws(g: &mut Gen, dense: bool, o: &mut String) {
    if !dense && g.chance(1, 3) {
        for _ in 0..g.range(1, 3) {
            o.push(*g.pick(&[' ', '\t', '\r', '\n']))
        }
    }
}
fn quote(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c => o.push(c),
        }
    }
    o.push('"')
}
fn write(g: &mut Gen, d: &D, dense: bool, o: &mut String) {
    ws(g, dense, o);
    match d {
        D::Null => o.push_str("null"),
        D::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
        D::Num(n) => o.push_str(n),
        D::Str(s) => quote(s, o),
        D::Arr(v) => {
            o.push('[');
            for (i, d) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                write(g, d, dense, o);
            }
            ws(g, dense, o);
            o.push(']')
        }
        D::Obj(v) => {
            o.push('{');
            for (i, (k, d)) in v.iter().enumerate() {
                if i > 0 {
                    o.push(',')
                }
                ws(g, dense, o);
                quote(k, o);
                ws(g, dense, o);
                o.push(':');
                write(g, d, dense, o);
            }
            ws(g, dense, o);
            o.push('}')
        }
    }
    ws(g, dense, o)
}
/// The data the document consists of: size hints and number tags left out.
fn want(d: &D, ev: &mut Vec<Ev>) {
    let t = |s: &str, ev: &mut Vec<Ev>| {
        ev.push(Ev::TextBegin(None));
        if !s.is_empty() {
            ev.push(Ev::TextFrag(s.into(), false))
        }
        ev.push(Ev::TextEnd);
    };
    match d {
        D::Null => ev.push(Ev::Null),
        D::Bool(b) => ev.push(Ev::Bool(*b)),
        D::Num(n) => t(n, ev),
        D::Str(s) => t(s, ev),
        D::Arr(v) => {
            ev.push(Ev::SeqBegin(None));
            for d in v {
                ev.push(Ev::ElBegin);
                want(d, ev);
                ev.push(Ev::ElEnd);
            }
            ev.push(Ev::SeqEnd)
        }
        D::Obj(v) => {
            ev.push(Ev::MapBegin(None));
            for (k, d) in v {
                ev.push(Ev::KeyBegin);
                t(k, ev);
                ev.push(Ev::KeyEnd);
                ev.push(Ev::ValBegin);
                want(d, ev);
                ev.push(Ev::ValEnd);
            }
            ev.push(Ev::MapEnd)
        }
    }
}
fn kinds(d: &D, o: &mut Vec<u8>) {
    match d {
        D::Null => o.push(0),
        D::Bool(_) => o.push(1),
        D::Num(_) => o.push(2),
        D::Str(_) => o.push(3),
        D::Arr(v) => {
            o.push(4);
            v.iter().for_each(|d| kinds(d, o));
            o.push(5)
        }
        D::Obj(v) => {
            o.push(6);
            v.iter().for_each(|(_, d)| kinds(d, o));
            o.push(7)
        }
    }
}
fn strip(ev: &[Ev]) -> Vec<Ev> {
    norm(ev)
        .into_iter()
        .filter(|e| !matches!(e, Ev::TaggedBegin(_) | Ev::TaggedEnd(_)))
        .map(|e| match e {
            Ev::TextBegin(_) => Ev::TextBegin(None),
            Ev::MapBegin(_) => Ev::MapBegin(None),
            Ev::SeqBegin(_) => Ev::SeqBegin(None),
            e => e,
        })
        .collect()
}

/// Truthful size hints, numbers tagged as numbers and nothing else tagged.
fn tags_and_hints(ev: &[Ev]) -> R {
    let mut open = Vec::new();
    let mut i = 0;
    while i < ev.len() {
        match &ev[i] {
            Ev::TaggedBegin(id) => open.push(id.clone()),
            Ev::TaggedEnd(id) => {
                if open.pop().as_ref() != Some(id) {
                    return Err(format!("unbalanced tagged value at call {i}"));
                }
            }
            Ev::TextBegin(n) => {
                let mut s = String::new();
                while let Some(Ev::TextFrag(f, _)) = ev.get(i + 1) {
                    s.push_str(f);
                    i += 1
                }
                if n.map_or(false, |n| n != s.len()) {
                    return Err(format!("text of {} bytes announced as {n:?}", s.len()));
                }
            }
            _ => (),
        }
        i += 1
    }
    if open.is_empty() {
        Ok(())
    } else {
        Err("a tagged value is left open".into())
    }
}

fn judge(st: &mut Stats, d: &D, src: &str, may_fail: bool, fail: Option<usize>) -> R {
    let mut k = Vec::new();
    kinds(d, &mut k);
    st.seen(&k);
    let v = sval_experiments::json::from_slice(src);
    let mut rec = Rec::new();
    if sval::Value::stream(v, &mut rec).is_err() {
        if may_fail {
            st.count("too_deep", 1);
            return Ok(());
        }
        return Err(format!("a valid document is rejected: {}", short(src)));
    }
    st.count("documents", 1);
    st.events += rec.ev.len() as u64;
    let mut w = Vec::new();
    want(d, &mut w);
    if let Some(x) = diff(&strip(&rec.ev), &w) {
        return Err(format!("{x}\n document: {}", short(src)));
    }
    tags_and_hints(&rec.ev).map_err(|e| format!("{e}\n document: {}", short(src)))?;
    // borrowed text is the document's
    let (lo, hi) = (src.as_ptr() as usize, src.as_ptr() as usize + src.len());
    for (_, p, n) in &rec.borrowed {
        if *n > 1 && !(*p >= lo && p + n <= hi) {
            return Err(format!("borrowed text outside the document: {}", short(src)));
        }
    }
    // written out again it is the same document
    let again = sval_json::stream_to_string(v).map_err(|_| format!("cannot be written out again: {}", short(src)))?;
    let (a, b) = (json::parse(again.as_bytes())?, json::parse(src.as_bytes())?);
    if a != b {
        return Err(format!("written out again as {}\n document: {}", short(&again), short(src)));
    }
    if let Some(f) = fail {
        let at = f % rec.ev.len();
        let mut r = Rec::failing(at);
        let res = sval::Value::stream(v, &mut r);
        st.count("rejections", 1);
        if res.is_ok() || r.after_failure > 0 || r.ev[..] != rec.ev[..at] {
            return Err(format!("call {at} rejected: result {res:?}, {} calls afterwards\n document: {}", r.after_failure, short(src)));
        }
    }
    Ok(())
}

fn x_doc(g: &mut Gen, st: &mut Stats) -> R {
    let mut budget = *g.pick(&[6, 20, 80, 400]);
    let d = doc(g, 7, &mut budget);
    let mut src = String::new();
    let dense = g.bool();
    write(g, &d, dense, &mut src);
    let fail = g.idx(1 << 20);
    judge(st, &d, &src, false, Some(fail))
}
fn x_deep(g: &mut Gen, st: &mut Stats) -> R {
    // the reader may give up on deep alternating nesting (its nesting counters are 64-bit), never misread it
    let n = g.range(1, 140);
    let style = g.below(4);
    let mut d = match g.below(3) {
        0 => D::Arr(vec![]),
        1 => D::Obj(vec![]),
        _ => D::Num("1".into()),
    };
    for i in 0..n {
        let map = match style {
            0 => true,
            1 => false,
            2 => i % 2 == 0,
            _ => g.bool(),
        };
        let before = g.chance(1, 8);
        let after = g.chance(1, 8);
        let x = |g: &mut Gen| if g.bool() { D::Null } else { D::Arr(vec![]) };
        let mut v = vec![];
        if before {
            v.push(x(g))
        }
        v.push(d);
        if after {
            v.push(x(g))
        }
        d = if map { D::Obj(v.into_iter().enumerate().map(|(i, d)| (format!("k{i}"), d)).collect()) } else { D::Arr(v) };
    }
    let mut src = String::new();
    write(g, &d, true, &mut src);
    st.count("deep", 1);
    judge(st, &d, &src, style >= 2 && n > 60, None)
}
/// Brackets that do not match make the reader fail.
fn x_unbalanced(g: &mut Gen, st: &mut Stats) -> R {
    let mut budget = 20;
    let d = D::Arr(vec![doc(g, 4, &mut budget)]);
    let mut src = String::new();
    write(g, &d, true, &mut src);
    let cut = src.trim_end_matches(|c| matches!(c, ']' | '}'));
    let tail = &src[cut.len()..];
    let keep = g.idx(tail.len());
    let part = &src[..cut.len() + keep];
    let mut rec = Rec::new();
    st.count("unbalanced", 1);
    match sval::Value::stream(sval_experiments::json::from_slice(part), &mut rec) {
        Ok(()) => Err(format!("a document with missing closing brackets is accepted: {}", short(part))),
        Err(_) => Ok(()),
    }
}

pub static X01: Prop = Prop {
    id: "X01",
    rule: "documents are generated and written with arbitrary white space; distinct by their structure",
    assumptions: &["escapes other than \\n \\r \\\" \\\\ and upper-case exponents are outside what the prototype implements"],
    level: "exploration",
    subs: &[
        Sub { name: "doc", weight: 6, f: x_doc, once: false },
        Sub { name: "deep", weight: 1, f: x_deep, once: false },
        Sub { name: "unbalanced", weight: 1, f: x_unbalanced, once: false },
    ],
    must_see: &["documents", "deep", "rejections", "unbalanced"],
};
