//! T01: Debug-style formatting.

use super::{note, short};
use crate::fw::*;
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use std::fmt::{self, Write as _};

#[derive(Debug, Clone)]
enum P {
    Lit(String),
    Text(String),
    F32(u32),
    F64(u64),
}
struct Out(Vec<P>);
impl Out {
    fn lit(&mut self, s: &str) {
        if let Some(P::Lit(l)) = self.0.last_mut() {
            l.push_str(s)
        } else {
            self.0.push(P::Lit(s.into()))
        }
    }
}

fn pieces(s: &Sem, num: bool, o: &mut Out) {
    match s {
        Sem::Null => o.lit("()"),
        Sem::Bool(b) => o.lit(if *b { "true" } else { "false" }),
        Sem::Text(t) => {
            if num {
                o.lit(t)
            } else {
                o.0.push(P::Text(t.clone()))
            }
        }
        Sem::Bin(b) => {
            o.lit("[");
            for (i, x) in b.iter().enumerate() {
                if i > 0 {
                    o.lit(", ");
                }
                o.lit(&x.to_string());
            }
            o.lit("]");
        }
        Sem::U(_, v) => o.lit(&v.to_string()),
        Sem::I(_, v) => o.lit(&v.to_string()),
        Sem::F32(b) => o.0.push(P::F32(*b)),
        Sem::F64(b) => o.0.push(P::F64(*b)),
        Sem::Map(es) => {
            o.lit("{");
            for (i, (k, v)) in es.iter().enumerate() {
                o.lit(if i > 0 { ", " } else { " " });
                pieces(k, false, o);
                o.lit(": ");
                pieces(v, false, o);
            }
            o.lit(if es.is_empty() { "}" } else { " }" });
        }
        Sem::Seq(es) => {
            o.lit("[");
            for (i, v) in es.iter().enumerate() {
                if i > 0 {
                    o.lit(", ");
                }
                pieces(v, false, o);
            }
            o.lit("]");
        }
        Sem::Enum(id, None) => pieces(&Sem::Tag(id.clone()), false, o),
        Sem::Enum(_, Some(v)) => pieces(v, num, o),
        Sem::Tagged(id, v) => {
            let num = num || id.tag == Some(T_NUMBER);
            if let Some(l) = &id.label {
                o.lit(&l.text);
                o.lit("(");
                pieces(v, num, o);
                o.lit(")");
            } else {
                pieces(v, num, o)
            }
        }
        Sem::Tag(id) => match &id.label {
            Some(l) => o.lit(&l.text),
            None => o.lit("()"),
        },
        Sem::Record(id, fs) => record_p(id, fs.iter().map(|(_, l, v)| (l, v)).collect(), o),
        Sem::RecordTuple(id, fs) => record_p(id, fs.iter().map(|(_, l, _, v)| (l, v)).collect(), o),
        Sem::Tuple(id, fs) => {
            if let Some(l) = &id.label {
                o.lit(&l.text);
            }
            o.lit("(");
            for (i, (_, _, v)) in fs.iter().enumerate() {
                if i > 0 {
                    o.lit(", ");
                }
                pieces(v, false, o);
            }
            o.lit(")");
        }
    }
}
fn record_p(id: &Id, fs: Vec<(&Lab, &Sem)>, o: &mut Out) {
    if let Some(l) = &id.label {
        o.lit(&l.text);
        o.lit(" ");
    }
    o.lit("{");
    let n = fs.len();
    for (i, (l, v)) in fs.into_iter().enumerate() {
        o.lit(if i > 0 { ", " } else { " " });
        o.lit(&l.text);
        o.lit(": ");
        pieces(v, false, o);
    }
    o.lit(if n == 0 { "}" } else { " }" });
}

/// Read one escaped, quoted text off the front of `s`.
fn unescape(s: &str) -> Result<(String, &str), String> {
    let mut it = s.char_indices();
    match it.next() {
        Some((_, '"')) => (),
        c => return Err(format!("expected an opening quote, got {c:?}")),
    }
    let mut out = String::new();
    while let Some((i, c)) = it.next() {
        match c {
            '"' => return Ok((out, &s[i + 1..])),
            '\\' => match it.next() {
                Some((_, 'n')) => out.push('\n'),
                Some((_, 'r')) => out.push('\r'),
                Some((_, 't')) => out.push('\t'),
                Some((_, '0')) => out.push('\0'),
                Some((_, '\\')) => out.push('\\'),
                Some((_, '"')) => out.push('"'),
                Some((_, '\'')) => out.push('\''),
                Some((_, 'u')) => {
                    if !matches!(it.next(), Some((_, '{'))) {
                        return Err("malformed unicode escape".into());
                    }
                    let mut h = String::new();
                    loop {
                        match it.next() {
                            Some((_, '}')) => break,
                            Some((_, c)) if c.is_ascii_hexdigit() && h.len() < 6 => h.push(c),
                            _ => return Err("malformed unicode escape".into()),
                        }
                    }
                    let c = u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).ok_or("unicode escape out of range")?;
                    out.push(c);
                }
                c => return Err(format!("unknown escape {c:?}")),
            },
            c if (c as u32) < 0x20 || c == '\u{7f}' => return Err(format!("unescaped control character {c:?} in text")),
            c => out.push(c),
        }
    }
    Err("unterminated text".into())
}

fn check(out: &str, want: &[P]) -> Result<(), String> {
    let mut rest = out;
    for p in want {
        match p {
            P::Lit(l) => {
                rest = rest.strip_prefix(&**l).ok_or_else(|| format!("expected {:?} at {:?}", l, short(rest)))?;
            }
            P::Text(t) => {
                let (got, r) = unescape(rest)?;
                if got != *t {
                    return Err(format!("text {:?} reads back as {:?}", t, got));
                }
                rest = r;
            }
            P::F32(b) => {
                let (tok, r) = num_token(rest);
                let f: f32 = tok.parse().map_err(|_| format!("{tok:?} is not a number"))?;
                let w = f32::from_bits(*b);
                if !(f.to_bits() == *b || f.is_nan() && w.is_nan()) {
                    return Err(format!("f32 {w:?} written as {tok:?}"));
                }
                rest = r;
            }
            P::F64(b) => {
                let (tok, r) = num_token(rest);
                let f: f64 = tok.parse().map_err(|_| format!("{tok:?} is not a number"))?;
                let w = f64::from_bits(*b);
                if !(f.to_bits() == *b || f.is_nan() && w.is_nan()) {
                    return Err(format!("f64 {w:?} written as {tok:?}"));
                }
                rest = r;
            }
        }
    }
    if !rest.is_empty() {
        return Err(format!("trailing output {:?}", short(rest)));
    }
    Ok(())
}
fn num_token(s: &str) -> (&str, &str) {
    let n = s.find(|c: char| !(c.is_ascii_alphanumeric() || matches!(c, '+' | '-' | '.'))).unwrap_or(s.len());
    s.split_at(n)
}

fn cfg() -> Cfg {
    Cfg { json_tags: false, ..Cfg::full() }
}
fn want_of(n: &Node) -> Vec<P> {
    let mut o = Out(Vec::new());
    pieces(&n.sem(), false, &mut o);
    o.0
}

fn t_model_of(st: &mut Stats, n: &Node) -> R {
    let want = want_of(n);
    note(st, &n.sem());
    let out = sval_fmt::stream_to_string(n);
    st.events += want.len() as u64;
    st.count("renderings", 1);
    check(&out, &want).map_err(|e| format!("{e}\n output: {}\n value: {n:?}", short(&out)))?;
    st.sample(|| out.clone());
    Ok(())
}
fn t_model(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { huge: true, ..cfg() });
    t_model_of(st, &n)
}
fn t_enums(g: &mut Gen, st: &mut Stats) -> R {
    let n = super::j::gen_enumish(g, 4);
    t_model_of(st, &n)
}

/// A number's text that only comes after more wrapping.
fn t_numbers(g: &mut Gen, st: &mut Stats) -> R {
    let c = cfg();
    let text = gen_number_text(g);
    let mut n = gen_text(g, &c, &text);
    for _ in 0..g.below(4) {
        let via = *g.pick(&[Via::Value, Via::Inline, Via::Computed]);
        let id = NId { tag: if g.chance(1, 3) { Some(T_SOME) } else { None }, ..gen_id(g, &c) };
        n = Node::Tagged(id, Box::new(Child { via, node: n }));
        if g.chance(1, 3) {
            n = Node::Enum(gen_id(g, &c), Some(Box::new(Child { via, node: n })));
        }
    }
    let via = *g.pick(&[Via::Value, Via::Inline, Via::Computed]);
    let id = NId { tag: Some(T_NUMBER), label: if g.bool() { Some(gen_lab(g, &c)) } else { None }, index: None };
    let n = Node::Tagged(id, Box::new(Child { via, node: n }));
    let side = |g: &mut Gen| Child { via: Via::Value, node: gen_node(g, &Cfg { budget: 3, ..cfg() }) };
    let n = match g.below(3) {
        0 => n,
        1 => Node::Seq(true, vec![side(g), Child { via, node: n }, side(g)]),
        _ => Node::Map(true, vec![(Child { via, node: n }, side(g)), (side(g), side(g))]),
    };
    st.count("wrapped_numbers", 1);
    t_model_of(st, &n)
}

/// A token writer that only sees write_token.
#[derive(Default)]
struct Tok {
    text: String,
    tokens: usize,
    bad: Option<String>,
}
impl fmt::Write for Tok {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.text.push_str(s);
        Ok(())
    }
}
impl sval_fmt::TokenWrite for Tok {
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, t: T) -> fmt::Result {
        self.tokens += 1;
        let s = t.to_string();
        use sval_fmt::tags::*;
        let ok = if *tag == WS {
            s.chars().all(|c| c == ' ')
        } else if *tag == PUNCT {
            s.len() == 1 && "{}[](),:".contains(&s)
        } else if *tag == NUMBER {
            !s.contains('"')
        } else if *tag == ATOM {
            matches!(&*s, "()" | "true" | "false")
        } else {
            *tag == TEXT || *tag == IDENT
        };
        if !ok {
            self.bad = Some(format!("token {s:?} reported as {tag:?}"));
        }
        self.text.push_str(&s);
        Ok(())
    }
}
/// A token writer that renders integers its own way, to see that every number goes through its own callback.
#[derive(Default)]
struct Typed {
    text: String,
    nums: Vec<Ev>,
}
impl fmt::Write for Typed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.text.push_str(s);
        Ok(())
    }
}
macro_rules! typed {
    ($($f:ident $t:ty => $v:expr),*) => {
        impl sval_fmt::TokenWrite for Typed {
            $(fn $f(&mut self, value: $t) -> fmt::Result {
                let f: fn($t) -> Ev = $v;
                self.nums.push(f(value));
                write!(self.text, "{}", value)
            })*
        }
    };
}
typed!(write_u8 u8 => |v| Ev::U(W::W8, v as u128), write_u16 u16 => |v| Ev::U(W::W16, v as u128), write_u32 u32 => |v| Ev::U(W::W32, v as u128),
    write_u64 u64 => |v| Ev::U(W::W64, v as u128), write_u128 u128 => |v| Ev::U(W::W128, v),
    write_i8 i8 => |v| Ev::I(W::W8, v as i128), write_i16 i16 => |v| Ev::I(W::W16, v as i128), write_i32 i32 => |v| Ev::I(W::W32, v as i128),
    write_i64 i64 => |v| Ev::I(W::W64, v as i128), write_i128 i128 => |v| Ev::I(W::W128, v),
    write_f32 f32 => |v| Ev::F32(v.to_bits()), write_f64 f64 => |v| Ev::F64(v.to_bits()));

fn nums(s: &Node) -> Vec<Ev> {
    expected(s)
        .ev
        .into_iter()
        .flat_map(|e| match e {
            Ev::U(..) | Ev::I(..) | Ev::F32(_) | Ev::F64(_) => vec![e],
            Ev::BinFrag(b, _) => b.into_iter().map(|b| Ev::U(W::W8, b as u128)).collect(),
            _ => vec![],
        })
        .collect()
}

struct Fmt<'a>(&'a Node);
impl fmt::Display for Fmt<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        sval_fmt::stream_to_fmt(f, self.0)
    }
}

fn t_entry(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &cfg());
    let want = want_of(&n);
    note(st, &n.sem());
    let main = sval_fmt::stream_to_string(&n);
    let mut w = String::new();
    sval_fmt::stream_to_write(&mut w, &n).map_err(|_| format!("stream_to_write failed for {n:?}"))?;
    if w != main {
        return Err(format!("stream_to_write differs from stream_to_string\n {}\n {}\n value: {n:?}", short(&w), short(&main)));
    }
    let mut tok = Tok::default();
    sval_fmt::stream_to_token_write(&mut tok, &n).map_err(|_| format!("stream_to_token_write failed for {n:?}"))?;
    if let Some(b) = tok.bad {
        return Err(format!("{b}\n value: {n:?}"));
    }
    st.count("tokens", tok.tokens as u64);
    let mut typed = Typed::default();
    {
        let mut r1 = &mut typed;
        let mut r2 = &mut r1;
        let r3 = &mut r2;
        sval_fmt::stream_to_token_write(r3, &n).map_err(|_| format!("stream_to_token_write failed for {n:?}"))?;
    }
    let wn = nums(&n);
    if typed.nums != wn {
        return Err(format!("typed number callbacks through references: {}\n value: {n:?}", diff(&typed.nums, &wn).unwrap_or_default()));
    }
    for (name, out) in [
        ("ToFmt Display", format!("{}", sval_fmt::ToFmt::new(&n))),
        ("ToFmt Debug", format!("{:?}", sval_fmt::ToFmt::new(&n))),
        ("ToFmt borrowed", format!("{}", sval_fmt::ToFmt::new_borrowed(&n))),
        ("ToFmt to_string", sval_fmt::ToFmt::new(&n).to_string()),
        ("stream_to_fmt", Fmt(&n).to_string()),
        ("stream_to_token_write", tok.text),
        ("stream_to_token_write (typed)", typed.text),
    ] {
        check(&out, &want).map_err(|e| format!("{name}: {e}\n output: {}\n value: {n:?}", short(&out)))?;
        st.events += 1;
    }
    st.count("entry_points", 9);
    Ok(())
}

/// A token writer that implements every method itself. Behind any number of references each of
/// its methods must be the one that is called.
#[derive(Default)]
struct Every {
    text: String,
    log: Vec<(&'static str, String)>,
    counts: Vec<usize>,
    bad: Option<String>,
}
impl Every {
    fn at(&mut self, m: &'static str, a: impl fmt::Debug) {
        self.log.push((m, format!("{a:?}")));
    }
    fn put(&mut self, m: &'static str, s: &str) -> fmt::Result {
        self.at(m, s);
        self.text.push_str(s);
        Ok(())
    }
    fn begin(&mut self, m: &'static str, s: &str) -> fmt::Result {
        self.counts.push(0);
        self.put(m, s)
    }
    fn first(&mut self, m: &'static str, is_first: bool) -> bool {
        let n = self.counts.last_mut();
        match n {
            Some(n) => {
                *n += 1;
                if (*n == 1) != is_first {
                    self.bad = Some(format!("{m}: is_first is {is_first} for element {n}"));
                }
            }
            None => self.bad = Some(format!("{m} outside of a container")),
        }
        is_first
    }
    fn end(&mut self, m: &'static str, is_empty: bool, s: &str) -> fmt::Result {
        match self.counts.pop() {
            // a tagged value is written as a tuple without announcing its element
            Some(0) if m == "tuple_end" => (),
            Some(n) if (n == 0) != is_empty => self.bad = Some(format!("{m}: is_empty is {is_empty} after {n} elements")),
            Some(_) => (),
            None => self.bad = Some(format!("{m} without a begin")),
        }
        self.put(m, s)
    }
}
impl fmt::Write for Every {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.put("str", s)
    }
}
macro_rules! every_num {
    ($($f:ident $t:ty),*) => {
        $(fn $f(&mut self, v: $t) -> fmt::Result {
            self.put(stringify!($f), &v.to_string())
        })*
    };
}
impl sval_fmt::TokenWrite for Every {
    every_num!(write_u8 u8, write_u16 u16, write_u32 u32, write_u64 u64, write_u128 u128, write_i8 i8, write_i16 i16, write_i32 i32,
        write_i64 i64, write_i128 i128, write_f32 f32, write_f64 f64);
    fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, t: T) -> fmt::Result {
        self.at("token_tag", tag);
        self.put("token", &t.to_string())
    }
    fn write_number<N: fmt::Display>(&mut self, n: N) -> fmt::Result {
        self.put("number", &n.to_string())
    }
    fn write_null(&mut self) -> fmt::Result {
        self.put("null", "()")
    }
    fn write_bool(&mut self, v: bool) -> fmt::Result {
        self.put("bool", &v.to_string())
    }
    fn write_atom<A: fmt::Display>(&mut self, a: A) -> fmt::Result {
        self.put("atom", &a.to_string())
    }
    fn write_type(&mut self, t: &str) -> fmt::Result {
        self.put("type", t)
    }
    fn write_field(&mut self, f: &str) -> fmt::Result {
        self.put("field", f)
    }
    fn write_ident(&mut self, i: &str) -> fmt::Result {
        self.put("ident", i)
    }
    fn write_punct(&mut self, p: &str) -> fmt::Result {
        self.put("punct", p)
    }
    fn write_ws(&mut self, w: &str) -> fmt::Result {
        self.put("ws", w)
    }
    fn write_text_quote(&mut self) -> fmt::Result {
        self.put("quote", "\"")
    }
    fn write_text(&mut self, t: &str) -> fmt::Result {
        let e = t.escape_debug().to_string();
        self.put("text", &e)
    }
    fn write_map_begin(&mut self) -> fmt::Result {
        self.begin("map_begin", "{")
    }
    fn write_map_key_begin(&mut self, f: bool) -> fmt::Result {
        let f = self.first("map_key_begin", f);
        self.put("map_key_begin", if f { " " } else { ", " })
    }
    fn write_map_value_begin(&mut self, _: bool) -> fmt::Result {
        self.put("map_value_begin", ": ")
    }
    fn write_map_end(&mut self, e: bool) -> fmt::Result {
        self.end("map_end", e, if e { "}" } else { " }" })
    }
    fn write_record_type(&mut self, t: &str) -> fmt::Result {
        self.put("record_type", &format!("{t} "))
    }
    fn write_record_begin(&mut self) -> fmt::Result {
        self.begin("record_begin", "{")
    }
    fn write_record_value_begin(&mut self, field: &str, f: bool) -> fmt::Result {
        let f = self.first("record_value_begin", f);
        self.put("record_value_begin", &format!("{}{field}: ", if f { " " } else { ", " }))
    }
    fn write_record_end(&mut self, e: bool) -> fmt::Result {
        self.end("record_end", e, if e { "}" } else { " }" })
    }
    fn write_seq_begin(&mut self) -> fmt::Result {
        self.begin("seq_begin", "[")
    }
    fn write_seq_value_begin(&mut self, f: bool) -> fmt::Result {
        let f = self.first("seq_value_begin", f);
        self.put("seq_value_begin", if f { "" } else { ", " })
    }
    fn write_seq_end(&mut self, e: bool) -> fmt::Result {
        self.end("seq_end", e, "]")
    }
    fn write_tuple_type(&mut self, t: &str) -> fmt::Result {
        self.put("tuple_type", t)
    }
    fn write_tuple_begin(&mut self) -> fmt::Result {
        self.begin("tuple_begin", "(")
    }
    fn write_tuple_value_begin(&mut self, f: bool) -> fmt::Result {
        let f = self.first("tuple_value_begin", f);
        self.put("tuple_value_begin", if f { "" } else { ", " })
    }
    fn write_tuple_end(&mut self, e: bool) -> fmt::Result {
        self.end("tuple_end", e, ")")
    }
}

struct Shared(std::rc::Rc<std::cell::RefCell<Every>>);
impl fmt::Write for Shared {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0.borrow_mut().write_str(s)
    }
}
macro_rules! shared {
    ($($f:ident($($a:ident: $t:ty),*)),* $(,)?) => {
        impl sval_fmt::TokenWrite for Shared {
            fn write_token<T: fmt::Display>(&mut self, tag: &sval::Tag, t: T) -> fmt::Result { self.0.borrow_mut().write_token(tag, t) }
            fn write_number<N: fmt::Display>(&mut self, n: N) -> fmt::Result { self.0.borrow_mut().write_number(n) }
            fn write_atom<A: fmt::Display>(&mut self, a: A) -> fmt::Result { self.0.borrow_mut().write_atom(a) }
            $(fn $f(&mut self, $($a: $t),*) -> fmt::Result { self.0.borrow_mut().$f($($a),*) })*
        }
        /// Call one method, directly or behind references.
        fn poke<W: sval_fmt::TokenWrite>(g: &mut Gen, mut w: W) -> fmt::Result {
            let fs: &[fn(&mut Gen, &mut W) -> fmt::Result] = &[
                |_, w| w.write_token(&sval_fmt::tags::IDENT, "tok"),
                |g, w| w.write_number(g.below(100)),
                |_, w| w.write_atom("atom"),
                $(|_g, w| w.$f($(<$t as Arb>::arb(_g)),*),)*
            ];
            let k = g.below(fs.len() as u64);
            fs[k as usize](g, &mut w)
        }
    };
}
shared!(write_u8(v: u8), write_u16(v: u16), write_u32(v: u32), write_u64(v: u64), write_u128(v: u128), write_i8(v: i8), write_i16(v: i16),
    write_i32(v: i32), write_i64(v: i64), write_i128(v: i128), write_f32(v: f32), write_f64(v: f64), write_null(), write_bool(v: bool),
    write_type(v: &str), write_field(v: &str), write_ident(v: &str), write_punct(v: &str), write_ws(v: &str), write_text_quote(),
    write_text(v: &str), write_map_begin(), write_map_key_begin(f: bool), write_map_value_begin(f: bool), write_map_end(e: bool),
    write_record_type(v: &str), write_record_begin(), write_record_value_begin(v: &str, f: bool), write_record_end(e: bool),
    write_seq_begin(), write_seq_value_begin(f: bool), write_seq_end(e: bool), write_tuple_type(v: &str), write_tuple_begin(),
    write_tuple_value_begin(f: bool), write_tuple_end(e: bool));
trait Arb {
    fn arb(g: &mut Gen) -> Self;
}
macro_rules! arb {
    ($($t:ty => $e:expr),*) => { $(impl Arb for $t { fn arb(g: &mut Gen) -> Self { let f: fn(&mut Gen) -> $t = $e; f(g) } })* };
}
arb!(u8 => |g| g.u64() as u8, u16 => |g| g.u64() as u16, u32 => |g| g.u64() as u32, u64 => |g| g.u64(), u128 => |g| g.u64() as u128 * 3,
    i8 => |g| g.u64() as i8, i16 => |g| g.u64() as i16, i32 => |g| g.u64() as i32, i64 => |g| g.u64() as i64, i128 => |g| g.u64() as i128 * -3,
    f32 => |g| g.u64() as u16 as f32 / 8.0, f64 => |g| g.u64() as u32 as f64 / 16.0, bool => |g| g.bool(),
    &'static str => |g| *g.pick(&["a", "", "b\n", "x y", "\"q\"", "\u{1f600}"]));

fn t_every(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &cfg());
    let want = want_of(&n);
    note(st, &n.sem());
    let direct = std::rc::Rc::new(std::cell::RefCell::new(Every::default()));
    sval_fmt::stream_to_token_write(Shared(direct.clone()), &n).map_err(|_| format!("stream_to_token_write failed for {n:?}"))?;
    let d = direct.borrow();
    let mut e = Every::default();
    match g.below(3) {
        0 => sval_fmt::stream_to_token_write(&mut e, &n),
        1 => sval_fmt::stream_to_token_write(&mut &mut e, &n),
        _ => sval_fmt::stream_to_token_write(&mut &mut &mut e, &n),
    }
    .map_err(|_| format!("stream_to_token_write failed for {n:?}"))?;
    st.events += e.log.len() as u64;
    st.count("every_method", e.log.len() as u64);
    for (w, e) in [("directly", &*d), ("behind references", &e)] {
        if let Some(b) = &e.bad {
            return Err(format!("custom token writer {w}: {b}\n value: {n:?}"));
        }
        if !e.counts.is_empty() {
            return Err(format!("custom token writer {w}: containers left open\n value: {n:?}"));
        }
        check(&e.text, &want).map_err(|x| format!("custom token writer {w}: {x}\n output: {}\n value: {n:?}", short(&e.text)))?;
    }
    if let Some(k) = (0..d.log.len().max(e.log.len())).find(|k| d.log.get(*k) != e.log.get(*k)) {
        return Err(format!("custom token writer: call {k} is {:?} directly but {:?} behind a reference\n value: {n:?}", d.log.get(k), e.log.get(k)));
    }
    // each method by itself
    let seed = g.u64();
    let (mut a, mut b) = (Every::default(), Every::default());
    let (mut ga, mut gb) = (Gen::seeded(seed, 0), Gen::seeded(seed, 0));
    for _ in 0..8 {
        let sh = std::rc::Rc::new(std::cell::RefCell::new(std::mem::take(&mut a)));
        let _ = poke(&mut ga, Shared(sh.clone()));
        a = std::mem::take(&mut *sh.borrow_mut());
        let _ = if seed % 2 == 0 { poke(&mut gb, &mut b) } else { poke(&mut gb, &mut &mut b) };
    }
    if a.log != b.log {
        return Err(format!("custom token writer: methods called {:?} but {:?} behind a reference", a.log, b.log));
    }
    Ok(())
}

fn t_redeliver(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &cfg());
    let m = redeliver(g, &n, true);
    note(st, &n.sem());
    let (a, b) = (sval_fmt::stream_to_string(&n), sval_fmt::stream_to_string(&m));
    st.events += 2;
    st.count("deliveries", 1);
    if a != b {
        return Err(format!("same data, different rendering\n {}\n {}\n first: {n:?}\n second: {m:?}", short(&a), short(&b)));
    }
    Ok(())
}

struct FailW {
    text: String,
    left: usize,
    sticky: bool,
    failed: bool,
}
impl fmt::Write for FailW {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        if self.failed && self.sticky {
            return Err(fmt::Error);
        }
        if self.left == 0 && !self.failed {
            self.failed = true;
            return Err(fmt::Error);
        }
        self.left = self.left.saturating_sub(1);
        self.text.push_str(s);
        Ok(())
    }
}

fn t_faults(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 12, ..cfg() });
    note(st, &n.sem());
    let full = sval_fmt::stream_to_string(&n);
    let mut count = FailW { text: String::new(), left: usize::MAX, sticky: true, failed: false };
    sval_fmt::stream_to_write(&mut count, &n).map_err(|_| "stream_to_write failed".to_string())?;
    let writes = usize::MAX - count.left;
    for k in super::positions(writes) {
        for sticky in [true, false] {
            let mut w = FailW { text: String::new(), left: k, sticky, failed: false };
            let r = sval_fmt::stream_to_write(&mut w, &n);
            st.count("fault_positions", 1);
            if r.is_ok() {
                return Err(format!("write {k} of {writes} failed but success was reported (got {:?}) for {n:?}", short(&w.text)));
            }
            if !full.starts_with(&w.text) {
                return Err(format!("after a failed write {k} the output {:?} is no prefix of {:?} for {n:?}", short(&w.text), short(&full)));
            }
        }
        let mut w = FailW { text: String::new(), left: k, sticky: true, failed: false };
        if write!(w, "{}", sval_fmt::ToFmt::new(&n)).is_ok() && w.failed {
            return Err(format!("ToFmt: write {k} failed but success was reported for {n:?}"));
        }
        st.events += 3;
    }
    // a value that fails part-way
    let ev = expected(&n).ev;
    let k = g.idx(ev.len() + 1);
    let bad = Play { ev: ev[..k].to_vec(), fail: true };
    let mut s = String::new();
    if sval_fmt::stream_to_write(&mut s, &bad).is_ok() {
        return Err(format!("a value failing after {k} calls was formatted successfully as {:?}", short(&s)));
    }
    if !full.starts_with(&s) {
        return Err(format!("value failing after {k} calls: output {:?} is no prefix of {:?}", short(&s), short(&full)));
    }
    let shown = format!("{} {:?}", sval_fmt::ToFmt::new(&bad), sval_fmt::ToFmt::new_borrowed(&bad));
    st.count("failing_values", 1);
    st.seen(&(k, shown.len()));
    Ok(())
}

/// Display / Debug values as sval values.
struct Chunks(Vec<String>);
impl fmt::Display for Chunks {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for (i, c) in self.0.iter().enumerate() {
            if i % 3 == 2 {
                for c in c.chars() {
                    f.write_char(c)?;
                }
            } else {
                f.write_str(c)?;
            }
        }
        Ok(())
    }
}
impl fmt::Debug for Chunks {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        for c in &self.0 {
            write!(f, "{:?}", c)?;
        }
        Ok(())
    }
}
struct Disp(Chunks, bool);
impl sval::Value for Disp {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        if self.1 {
            sval_fmt::stream_display(s, &self.0)
        } else {
            sval_fmt::stream_debug(s, &self.0)
        }
    }
}
fn t_values(g: &mut Gen, st: &mut Stats) -> R {
    let k = g.idx(6);
    let c = Chunks((0..k).map(|_| gen_string(g)).collect());
    let disp = c.to_string();
    let dbg = format!("{c:?}");
    let text = |r: Rec, want: &str, what: &str| -> R {
        match parse(&r.ev)? {
            Sem::Text(t) if t == want => Ok(()),
            o => Err(format!("{what}: streamed {o:?}, formatted {want:?}")),
        }
    };
    text(record(&sval_fmt::DisplayToValue::new(&c))?, &disp, "DisplayToValue")?;
    text(record(sval_fmt::DisplayToValue::new_borrowed(&c))?, &disp, "DisplayToValue borrowed")?;
    text(record(&sval_fmt::DebugToValue::new(&c))?, &dbg, "DebugToValue")?;
    text(record(sval_fmt::DebugToValue::new_borrowed(&c))?, &dbg, "DebugToValue borrowed")?;
    let d = Disp(c, true);
    text(record(&d)?, &disp, "stream_display")?;
    // a destination that rejects the nth call is reported
    let n = record(&d)?.ev.len();
    for at in super::positions(n) {
        let mut r = Rec::failing(at);
        if sval::Value::stream(&d, &mut r).is_ok() || r.after_failure > 0 {
            return Err(format!("stream_display: call {at} was rejected; reported as success or continued"));
        }
        st.events += 1;
    }
    let d = Disp(d.0, false);
    text(record(&d)?, &dbg, "stream_debug")?;
    st.seen(&disp);
    st.count("fmt_values", 6);
    Ok(())
}

/// Every character, on its own and after a character that is escaped.
fn t_chars(_: &mut Gen, st: &mut Stats) -> R {
    let mut buf = String::new();
    for c in (0u32..=0x10ffff).filter_map(char::from_u32) {
        if (c as u32) % 7 == 0 {
            buf.push('\n');
        }
        buf.push(c);
        if buf.len() >= 3000 || c == '\u{10ffff}' || (c as u32) < 0x100 {
            check(&sval_fmt::stream_to_string(&*buf), &[P::Text(buf.clone())]).map_err(|e| format!("{e} on {buf:?}"))?;
            st.count("char_blocks", 1);
            st.events += 1;
            buf.clear();
        }
    }
    Ok(())
}

/// Values that don't keep to the protocol are no reason to panic.
fn t_broken(g: &mut Gen, st: &mut Stats) -> R {
    let (v, _) = super::r::gen_broken(g, &Cfg { empty_enum: true, ..Cfg::full() })?;
    st.events += v.play.ev.len() as u64;
    st.count("broken", 1);
    st.seen(&v.play.ev);
    let mut a = String::new();
    let x = sval_fmt::stream_to_write(&mut a, &v).is_ok();
    let mut b = String::new();
    let y = write!(b, "{:?}", sval_fmt::ToFmt::new(&v)).is_ok();
    if x != y {
        return Err(format!("{x} {a:?} through a stream, {y} {b:?} through Debug: {}", short(&format!("{:?}", v.play.ev))));
    }
    Ok(())
}

pub static T01: Prop = Prop {
    id: "T01",
    rule: "a rendering counts as distinct when the structure of the formatted value (kinds, arity, which of label/index/tag are present, nesting) is new; all are read back piece by piece against the value's data",
    assumptions: &["floats are compared by value because the string and formatter entry points spell them differently", "labels are shown verbatim"],
    level: "exploration",
    subs: &[
        Sub { name: "chars", weight: 1, f: t_chars, once: true },
        Sub { name: "model", weight: 4, f: t_model, once: false },
        Sub { name: "enums", weight: 2, f: t_enums, once: false },
        Sub { name: "numbers", weight: 1, f: t_numbers, once: false },
        Sub { name: "entry", weight: 2, f: t_entry, once: false },
        Sub { name: "every", weight: 2, f: t_every, once: false },
        Sub { name: "redeliver", weight: 2, f: t_redeliver, once: false },
        Sub { name: "faults", weight: 1, f: t_faults, once: false },
        Sub { name: "values", weight: 1, f: t_values, once: false },
        Sub { name: "broken", weight: 1, f: t_broken, once: false },
    ],
    must_see: &["char_blocks", "renderings", "wrapped_numbers", "tokens", "every_method", "entry_points", "deliveries", "fault_positions", "failing_values", "fmt_values", "broken"],
};
