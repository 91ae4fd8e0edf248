//! G01: the test-support crate. Its recorder must write down what was streamed, and its assertions must hold exactly
//! when they say they do. The monitor is an independent recorder driven by the same value.

use super::{note, short};
use crate::fw::*;
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use sval::{Index, Label, Tag};
use sval_test::{Token, TokenBuf};

fn id(t: &Option<Tag>, l: &Option<Label<'static>>, i: &Option<Index>) -> Id {
    id_of(t.as_ref(), l.as_ref(), i.as_ref())
}
fn tg(t: &Option<Tag>) -> Option<u8> {
    t.as_ref().map(tag_id)
}

fn ev_of(t: &Token) -> Result<Ev, String> {
    Ok(match t {
        Token::U8(v) => Ev::U(W::W8, *v as u128),
        Token::U16(v) => Ev::U(W::W16, *v as u128),
        Token::U32(v) => Ev::U(W::W32, *v as u128),
        Token::U64(v) => Ev::U(W::W64, *v as u128),
        Token::U128(v) => Ev::U(W::W128, *v),
        Token::I8(v) => Ev::I(W::W8, *v as i128),
        Token::I16(v) => Ev::I(W::W16, *v as i128),
        Token::I32(v) => Ev::I(W::W32, *v as i128),
        Token::I64(v) => Ev::I(W::W64, *v as i128),
        Token::I128(v) => Ev::I(W::W128, *v),
        Token::F32(v) => Ev::F32(v.to_bits()),
        Token::F64(v) => Ev::F64(v.to_bits()),
        Token::Bool(v) => Ev::Bool(*v),
        Token::Null => Ev::Null,
        Token::Tag(t, l, i) => Ev::Tag(id(t, l, i)),
        Token::TagHint(t) => Ev::Hint(tag_id(t)),
        Token::TextBegin(n) => Ev::TextBegin(*n),
        Token::TextFragment(s) => Ev::TextFrag(s.to_string(), true),
        Token::TextFragmentComputed(s) => Ev::TextFrag(s.clone(), false),
        Token::TextEnd => Ev::TextEnd,
        Token::BinaryBegin(n) => Ev::BinBegin(*n),
        Token::BinaryFragment(s) => Ev::BinFrag(s.to_vec(), true),
        Token::BinaryFragmentComputed(s) => Ev::BinFrag(s.clone(), false),
        Token::BinaryEnd => Ev::BinEnd,
        Token::MapBegin(n) => Ev::MapBegin(*n),
        Token::MapKeyBegin => Ev::KeyBegin,
        Token::MapKeyEnd => Ev::KeyEnd,
        Token::MapValueBegin => Ev::ValBegin,
        Token::MapValueEnd => Ev::ValEnd,
        Token::MapEnd => Ev::MapEnd,
        Token::SeqBegin(n) => Ev::SeqBegin(*n),
        Token::SeqValueBegin => Ev::ElBegin,
        Token::SeqValueEnd => Ev::ElEnd,
        Token::SeqEnd => Ev::SeqEnd,
        Token::EnumBegin(t, l, i) => Ev::EnumBegin(id(t, l, i)),
        Token::EnumEnd(t, l, i) => Ev::EnumEnd(id(t, l, i)),
        Token::TaggedBegin(t, l, i) => Ev::TaggedBegin(id(t, l, i)),
        Token::TaggedEnd(t, l, i) => Ev::TaggedEnd(id(t, l, i)),
        Token::RecordBegin(t, l, i, n) => Ev::RecBegin(id(t, l, i), *n),
        Token::RecordValueBegin(t, l) => Ev::RecValBegin(tg(t), lab_of(l)),
        Token::RecordValueEnd(t, l) => Ev::RecValEnd(tg(t), lab_of(l)),
        Token::RecordEnd(t, l, i) => Ev::RecEnd(id(t, l, i)),
        Token::TupleBegin(t, l, i, n) => Ev::TupBegin(id(t, l, i), *n),
        Token::TupleValueBegin(t, i) => Ev::TupValBegin(tg(t), idx_of(i)),
        Token::TupleValueEnd(t, i) => Ev::TupValEnd(tg(t), idx_of(i)),
        Token::TupleEnd(t, l, i) => Ev::TupEnd(id(t, l, i)),
        Token::RecordTupleBegin(t, l, i, n) => Ev::RTBegin(id(t, l, i), *n),
        Token::RecordTupleValueBegin(t, l, i) => Ev::RTValBegin(tg(t), lab_of(l), idx_of(i)),
        Token::RecordTupleValueEnd(t, l, i) => Ev::RTValEnd(tg(t), lab_of(l), idx_of(i)),
        Token::RecordTupleEnd(t, l, i) => Ev::RTEnd(id(t, l, i)),
        t => return Err(format!("unknown token {t:?}")),
    })
}

fn cfg() -> Cfg {
    Cfg { json_tags: true, ..Cfg::full() }
}

fn g_record(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { huge: true, ..cfg() });
    note(st, &n.sem());
    let want = record(&n)?;
    let mut buf = TokenBuf::new();
    sval::Value::stream(&n, &mut buf).map_err(|_| format!("the token buffer rejected a value: {}", short(&format!("{n:?}"))))?;
    let got = buf.as_tokens().iter().map(ev_of).collect::<Result<Vec<_>, _>>()?;
    st.count("recordings", 1);
    st.count("tokens", got.len() as u64);
    st.events += got.len() as u64;
    if let Some(d) = diff(&got, &want.ev) {
        return Err(format!("tokens: {d}\n value: {}", short(&format!("{n:?}"))));
    }
    // borrowed fragments are the value's own
    for (k, at, len) in &want.borrowed {
        let (p, l) = match &buf.as_tokens()[*k] {
            Token::TextFragment(s) => (s.as_ptr() as usize, s.len()),
            Token::BinaryFragment(s) => (s.as_ptr() as usize, s.len()),
            t => return Err(format!("token #{k} should be borrowed: {t:?}")),
        };
        if (p, l) != (*at, *len) {
            return Err(format!("token #{k} borrows something else\n value: {}", short(&format!("{n:?}"))));
        }
    }
    Ok(())
}

/// What equality of tokens is documented to see: labels by text, indexes by number, floats as floats.
fn plain(ev: &[Ev]) -> Vec<Ev> {
    let l = |l: &Lab| Lab { tag: None, ..l.clone() };
    let x = |i: &Idx| Idx { tag: None, ..i.clone() };
    let d = |i: &Id| Id { tag: i.tag, label: i.label.as_ref().map(l), index: i.index.as_ref().map(x) };
    ev.iter()
        .map(|e| match e {
            Ev::F32(b) if f32::from_bits(*b) == 0.0 => Ev::F32(0),
            Ev::F64(b) if f64::from_bits(*b) == 0.0 => Ev::F64(0),
            Ev::EnumBegin(i) => Ev::EnumBegin(d(i)),
            Ev::EnumEnd(i) => Ev::EnumEnd(d(i)),
            Ev::TaggedBegin(i) => Ev::TaggedBegin(d(i)),
            Ev::TaggedEnd(i) => Ev::TaggedEnd(d(i)),
            Ev::Tag(i) => Ev::Tag(d(i)),
            Ev::RecBegin(i, n) => Ev::RecBegin(d(i), *n),
            Ev::RecValBegin(t, a) => Ev::RecValBegin(*t, l(a)),
            Ev::RecValEnd(t, a) => Ev::RecValEnd(*t, l(a)),
            Ev::RecEnd(i) => Ev::RecEnd(d(i)),
            Ev::TupBegin(i, n) => Ev::TupBegin(d(i), *n),
            Ev::TupValBegin(t, i) => Ev::TupValBegin(*t, x(i)),
            Ev::TupValEnd(t, i) => Ev::TupValEnd(*t, x(i)),
            Ev::TupEnd(i) => Ev::TupEnd(d(i)),
            Ev::RTBegin(i, n) => Ev::RTBegin(d(i), *n),
            Ev::RTValBegin(t, a, i) => Ev::RTValBegin(*t, l(a), x(i)),
            Ev::RTValEnd(t, a, i) => Ev::RTValEnd(*t, l(a), x(i)),
            Ev::RTEnd(i) => Ev::RTEnd(d(i)),
            e => e.clone(),
        })
        .collect()
}
fn no_nan(ev: &mut [Ev]) {
    for e in ev {
        match e {
            Ev::F32(b) if f32::from_bits(*b).is_nan() => *b = 0,
            Ev::F64(b) if f64::from_bits(*b).is_nan() => *b = 0,
            _ => (),
        }
    }
}

fn change(g: &mut Gen, ev: &mut Vec<Ev>) {
    let i = g.idx(ev.len());
    match g.below(6) {
        0 => drop(ev.remove(i)),
        1 => {
            let j = g.idx(ev.len());
            ev.swap(i, j)
        }
        2 => {
            let e = ev[i].clone();
            ev.insert(i, e)
        }
        3 => {
            ev.pop();
        }
        4 => ev.push(Ev::Hint(0)),
        _ => {
            let w = |g: &mut Gen, i: &mut Id| match g.below(3) {
                0 => i.tag = Some(1 - i.tag.unwrap_or(0).min(1)),
                1 => i.label = if i.label.is_some() { None } else { Some(Lab { text: "x".into(), tag: None }) },
                _ => i.index = if i.index.is_some() { None } else { Some(Idx { n: 1, tag: None }) },
            };
            match &mut ev[i] {
                Ev::Bool(b) => *b = !*b,
                Ev::U(_, v) => *v ^= 1,
                Ev::I(_, v) => *v ^= 1,
                Ev::F32(b) => *b ^= 1,
                Ev::F64(b) => *b ^= 1,
                Ev::TextFrag(s, b) => {
                    if g.bool() {
                        s.push('x')
                    } else {
                        *b = !*b
                    }
                }
                Ev::BinFrag(s, b) => {
                    if g.bool() {
                        s.push(7)
                    } else {
                        *b = !*b
                    }
                }
                Ev::TextBegin(n) | Ev::BinBegin(n) | Ev::MapBegin(n) | Ev::SeqBegin(n) => *n = Some(n.map_or(0, |n| n + 1)),
                Ev::EnumBegin(i) | Ev::EnumEnd(i) | Ev::TaggedBegin(i) | Ev::TaggedEnd(i) | Ev::Tag(i) | Ev::RecEnd(i) | Ev::TupEnd(i) | Ev::RTEnd(i) => w(g, i),
                Ev::RecBegin(i, n) | Ev::TupBegin(i, n) | Ev::RTBegin(i, n) => {
                    if g.bool() {
                        w(g, i)
                    } else {
                        *n = if n.is_some() { None } else { Some(0) }
                    }
                }
                Ev::RecValBegin(t, l) | Ev::RecValEnd(t, l) => {
                    if g.bool() {
                        l.text.push('x')
                    } else {
                        *t = Some(1 - t.unwrap_or(0).min(1))
                    }
                }
                Ev::TupValBegin(t, x) | Ev::TupValEnd(t, x) | Ev::RTValBegin(t, _, x) | Ev::RTValEnd(t, _, x) => {
                    if g.bool() {
                        x.n ^= 1
                    } else {
                        *t = Some(1 - t.unwrap_or(0).min(1))
                    }
                }
                e => *e = Ev::Null,
            }
        }
    }
}

fn panics(f: impl FnOnce()) -> bool {
    catch_unwind(AssertUnwindSafe(f)).is_err()
}

fn g_assert(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 12, ..cfg() });
    let mut ev = record(&n)?.ev;
    no_nan(&mut ev);
    note(st, &n.sem());
    let value = Play { ev: ev.clone(), fail: false };
    let mut other = ev.clone();
    if g.chance(3, 4) {
        change(g, &mut other);
        no_nan(&mut other);
    }
    let other = Play { ev: other, fail: false };
    let mut tokens = TokenBuf::new();
    let _ = sval::Value::stream(&other, &mut tokens);
    // what the recorders saw, as widths may not fit after a change
    let (a, b) = (plain(&record(&value)?.ev), plain(&record(&other)?.ev));
    let equal = a == b;
    st.count(if equal { "equal" } else { "unequal" }, 1);
    st.events += 1;
    let refused = panics(|| sval_test::assert_tokens(&value, tokens.as_tokens()));
    if refused == equal {
        return Err(format!("assert_tokens {} {a:?}\n against {b:?}", if refused { "refuses equal tokens" } else { "accepts unequal tokens" }));
    }
    // and the same for a value that fails after making those very calls
    let mut own = TokenBuf::new();
    let _ = sval::Value::stream(&value, &mut own);
    let cut = g.idx(ev.len() + 1);
    let failing = Play { ev: ev[..cut].to_vec(), fail: true };
    let mut part = TokenBuf::new();
    let _ = sval::Value::stream(&failing, &mut part);
    st.count("verdicts", 5);
    if !panics(|| sval_test::assert_tokens(&failing, part.as_tokens())) {
        return Err(format!("assert_tokens accepts a value that fails: {:?}", &ev[..cut]));
    }
    if !panics(|| sval_test::assert_valid(&failing)) || panics(|| sval_test::assert_invalid(&failing)) {
        return Err(format!("a failing value is taken for a valid one: {:?}", &ev[..cut]));
    }
    if panics(|| sval_test::assert_valid(&value)) || !panics(|| sval_test::assert_invalid(&value)) {
        return Err(format!("a valid value is taken for a failing one: {ev:?}"));
    }
    Ok(())
}

pub static G01: Prop = Prop {
    id: "G01",
    rule: "a recording counts as distinct when the structure of the recorded value is new; assertions are put to equal and to minimally changed token lists",
    assumptions: &["NaN is unequal to itself and left out of equal token lists", "labels compare by text and indexes by number, as S04 has it"],
    level: "exploration",
    subs: &[Sub { name: "record", weight: 3, f: g_record, once: false }, Sub { name: "assert", weight: 1, f: g_assert, once: false }],
    must_see: &["recordings", "tokens", "equal", "unequal", "verdicts"],
};
