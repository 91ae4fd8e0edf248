//! A strict RFC 8259 reader (order-preserving, duplicate keys kept) and the model of how data maps to JSON.

use crate::tree::*;

#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}

struct P<'a> {
    b: &'a [u8],
    i: usize,
    depth: usize,
}

pub fn parse(s: &[u8]) -> Result<J, String> {
    std::str::from_utf8(s).map_err(|e| format!("not UTF-8: {e}"))?;
    let mut p = P { b: s, i: 0, depth: 0 };
    p.ws();
    let v = p.value()?;
    p.ws();
    if p.i != s.len() {
        return Err(format!("trailing bytes at {}", p.i));
    }
    Ok(v)
}

impl<'a> P<'a> {
    fn ws(&mut self) {
        while matches!(self.b.get(self.i), Some(b' ' | b'\t' | b'\n' | b'\r')) {
            self.i += 1;
        }
    }
    fn lit(&mut self, s: &str, v: J) -> Result<J, String> {
        if self.b[self.i..].starts_with(s.as_bytes()) {
            self.i += s.len();
            Ok(v)
        } else {
            Err(format!("bad literal at {}", self.i))
        }
    }
    fn value(&mut self) -> Result<J, String> {
        self.depth += 1;
        if self.depth > 5000 {
            return Err("HARNESS: too deep".into());
        }
        let r = match self.b.get(self.i) {
            Some(b'n') => self.lit("null", J::Null),
            Some(b't') => self.lit("true", J::Bool(true)),
            Some(b'f') => self.lit("false", J::Bool(false)),
            Some(b'"') => Ok(J::Str(self.string()?)),
            Some(b'[') => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.b.get(self.i) == Some(&b']') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        v.push(self.value()?);
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b']') => {
                                self.i += 1;
                                break;
                            }
                            c => return Err(format!("expected , or ] at {} got {c:?}", self.i)),
                        }
                    }
                }
                Ok(J::Arr(v))
            }
            Some(b'{') => {
                self.i += 1;
                let mut v = Vec::new();
                self.ws();
                if self.b.get(self.i) == Some(&b'}') {
                    self.i += 1;
                } else {
                    loop {
                        self.ws();
                        if self.b.get(self.i) != Some(&b'"') {
                            return Err(format!("expected key at {}", self.i));
                        }
                        let k = self.string()?;
                        self.ws();
                        if self.b.get(self.i) != Some(&b':') {
                            return Err(format!("expected : at {}", self.i));
                        }
                        self.i += 1;
                        self.ws();
                        let x = self.value()?;
                        v.push((k, x));
                        self.ws();
                        match self.b.get(self.i) {
                            Some(b',') => self.i += 1,
                            Some(b'}') => {
                                self.i += 1;
                                break;
                            }
                            c => return Err(format!("expected , or }} at {} got {c:?}", self.i)),
                        }
                    }
                }
                Ok(J::Obj(v))
            }
            Some(b'-' | b'0'..=b'9') => Ok(J::Num(self.number()?)),
            c => Err(format!("unexpected {c:?} at {}", self.i)),
        };
        self.depth -= 1;
        r
    }
    fn number(&mut self) -> Result<String, String> {
        let s = self.i;
        let at = |p: &Self| p.b.get(p.i).copied().unwrap_or(0);
        if at(self) == b'-' {
            self.i += 1;
        }
        match at(self) {
            b'0' => self.i += 1,
            b'1'..=b'9' => {
                while at(self).is_ascii_digit() {
                    self.i += 1;
                }
            }
            _ => return Err(format!("bad number at {s}")),
        }
        if at(self) == b'.' {
            self.i += 1;
            if !at(self).is_ascii_digit() {
                return Err(format!("bad fraction at {s}"));
            }
            while at(self).is_ascii_digit() {
                self.i += 1;
            }
        }
        if matches!(at(self), b'e' | b'E') {
            self.i += 1;
            if matches!(at(self), b'+' | b'-') {
                self.i += 1;
            }
            if !at(self).is_ascii_digit() {
                return Err(format!("bad exponent at {s}"));
            }
            while at(self).is_ascii_digit() {
                self.i += 1;
            }
        }
        Ok(String::from_utf8(self.b[s..self.i].to_vec()).unwrap())
    }
    fn hex4(&mut self) -> Result<u32, String> {
        let h = self.b.get(self.i..self.i + 4).ok_or("short \\u")?;
        let mut v = 0;
        for c in h {
            v = v * 16 + (*c as char).to_digit(16).ok_or("bad \\u digit")?;
        }
        self.i += 4;
        Ok(v)
    }
    fn string(&mut self) -> Result<String, String> {
        self.i += 1;
        let mut out = Vec::new();
        loop {
            match self.b.get(self.i) {
                None => return Err("unterminated string".into()),
                Some(b'"') => {
                    self.i += 1;
                    return String::from_utf8(out).map_err(|e| e.to_string());
                }
                Some(b'\\') => {
                    self.i += 1;
                    let c = *self.b.get(self.i).ok_or("short escape")?;
                    self.i += 1;
                    match c {
                        b'"' | b'\\' | b'/' => out.push(c),
                        b'b' => out.push(8),
                        b'f' => out.push(12),
                        b'n' => out.push(10),
                        b'r' => out.push(13),
                        b't' => out.push(9),
                        b'u' => {
                            let mut v = self.hex4()?;
                            if (0xd800..0xdc00).contains(&v) {
                                if self.b.get(self.i..self.i + 2) != Some(b"\\u") {
                                    return Err("lone surrogate".into());
                                }
                                self.i += 2;
                                let lo = self.hex4()?;
                                if !(0xdc00..0xe000).contains(&lo) {
                                    return Err("bad low surrogate".into());
                                }
                                v = 0x10000 + ((v - 0xd800) << 10) + (lo - 0xdc00);
                            }
                            let ch = char::from_u32(v).ok_or("lone surrogate")?;
                            let mut b = [0; 4];
                            out.extend_from_slice(ch.encode_utf8(&mut b).as_bytes());
                        }
                        c => return Err(format!("bad escape \\{}", c as char)),
                    }
                }
                Some(c) if *c < 0x20 => return Err(format!("raw control byte {c:#x} in string at {}", self.i)),
                Some(c) => {
                    out.push(*c);
                    self.i += 1;
                }
            }
        }
    }
}

/// Is `s` exactly one JSON number?
pub fn is_number(s: &str) -> bool {
    matches!(parse(s.as_bytes()), Ok(J::Num(ref n)) if n == s)
}

/// Exact decimal value of a number text: (negative, digits without leading/trailing zeros, exponent).
pub fn decimal(s: &str) -> Option<(bool, String, i128)> {
    let (neg, s) = match s.as_bytes().first()? {
        b'-' => (true, &s[1..]),
        b'+' => (false, &s[1..]),
        _ => (false, s),
    };
    let (m, e) = match s.find(['e', 'E']) {
        Some(k) => (&s[..k], s[k + 1..].parse::<i128>().ok()?),
        None => (s, 0),
    };
    let (ip, fp) = match m.find('.') {
        Some(k) => (&m[..k], &m[k + 1..]),
        None => (m, ""),
    };
    if ip.is_empty() || !ip.bytes().chain(fp.bytes()).all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut e = e - fp.len() as i128;
    let all = format!("{ip}{fp}");
    let t = all.trim_start_matches('0');
    let t2 = t.trim_end_matches('0');
    e += (t.len() - t2.len()) as i128;
    if t2.is_empty() {
        return Some((false, String::new(), 0));
    }
    Some((neg, t2.to_string(), e))
}

// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub enum X {
    Null,
    Bool(bool),
    Int(String),
    F32(u32),
    F64(u64),
    Dec(String),
    Str(String),
    Arr(Vec<X>),
    Obj(Vec<(X, X)>),
    /// pre-serialized JSON
    Raw(J),
}

/// What has no JSON form (a compound map key).
#[derive(Debug)]
pub struct NoJson;

fn id_key(id: &Id) -> Option<X> {
    if let Some(l) = &id.label {
        return Some(X::Str(l.text.clone()));
    }
    match &id.index {
        Some(i) if i.n >= i64::MIN as i128 && i.n <= i64::MAX as i128 => Some(X::Int(i.n.to_string())),
        _ => None,
    }
}
fn tag_x(id: &Id) -> X {
    if id.tag == Some(T_NONE) {
        return X::Null;
    }
    id_key(id).unwrap_or(X::Null)
}
fn f32_x(b: u32) -> X {
    if f32::from_bits(b).is_finite() {
        X::F32(b)
    } else {
        X::Null
    }
}
fn f64_x(b: u64) -> X {
    if f64::from_bits(b).is_finite() {
        X::F64(b)
    } else {
        X::Null
    }
}

pub fn json_of(s: &Sem) -> Result<X, NoJson> {
    val(s, false)
}

fn val(s: &Sem, variant: bool) -> Result<X, NoJson> {
    let wrap = |id: &Id, body: X| -> X {
        match (variant, id_key(id)) {
            (true, Some(k)) => X::Obj(vec![(k, body)]),
            _ => body,
        }
    };
    Ok(match s {
        Sem::Null => X::Null,
        Sem::Bool(b) => X::Bool(*b),
        Sem::Text(t) => X::Str(t.clone()),
        Sem::Bin(b) => X::Arr(b.iter().map(|b| X::Int(b.to_string())).collect()),
        Sem::U(_, v) => X::Int(v.to_string()),
        Sem::I(_, v) => X::Int(v.to_string()),
        Sem::F32(b) => f32_x(*b),
        Sem::F64(b) => f64_x(*b),
        Sem::Map(es) => {
            let mut v = Vec::new();
            for (k, x) in es {
                v.push((key(k, false)?, val(x, false)?));
            }
            X::Obj(v)
        }
        Sem::Seq(es) => X::Arr(es.iter().map(|e| val(e, false)).collect::<Result<_, _>>()?),
        Sem::Tag(id) => tag_x(id),
        Sem::Tagged(id, inner) => {
            let body = match (id.tag, &**inner) {
                (Some(T_NUMBER), Sem::Text(t)) => X::Dec(t.clone()),
                (Some(T_JNUMBER), Sem::Text(t)) | (Some(T_JVALUE), Sem::Text(t)) => X::Raw(parse(t.as_bytes()).expect("generator")),
                (Some(T_JTEXT), Sem::Text(t)) => X::Raw(parse(format!("\"{t}\"").as_bytes()).expect("generator")),
                _ => val(inner, false)?,
            };
            wrap(id, body)
        }
        Sem::Enum(id, inner) => {
            let body = match inner {
                None => tag_x(id),
                Some(v) => val(v, true)?,
            };
            wrap(id, body)
        }
        Sem::Record(id, fs) => {
            let mut v = Vec::new();
            for f in fs {
                v.push((X::Str(f.1.text.clone()), val(&f.2, false)?));
            }
            wrap(id, X::Obj(v))
        }
        Sem::RecordTuple(id, fs) => {
            let mut v = Vec::new();
            for f in fs {
                v.push((X::Str(f.1.text.clone()), val(&f.3, false)?));
            }
            wrap(id, X::Obj(v))
        }
        Sem::Tuple(id, fs) => wrap(id, X::Arr(fs.iter().map(|f| val(&f.2, false)).collect::<Result<_, _>>()?)),
    })
}

fn key(s: &Sem, variant: bool) -> Result<X, NoJson> {
    Ok(match s {
        Sem::Null | Sem::Bool(_) | Sem::Text(_) | Sem::U(..) | Sem::I(..) | Sem::F32(_) | Sem::F64(_) | Sem::Tag(_) => val(s, false).unwrap_or(X::Null),
        Sem::Tagged(id, inner) => {
            if variant && id_key(id).is_some() {
                return Err(NoJson);
            }
            match (id.tag, &**inner) {
                (Some(T_NUMBER), Sem::Text(t)) => X::Dec(t.clone()),
                _ => key(inner, false)?,
            }
        }
        Sem::Enum(id, inner) => {
            if variant && id_key(id).is_some() {
                return Err(NoJson);
            }
            match inner {
                None => tag_x(id),
                Some(v) => key(v, true)?,
            }
        }
        _ => return Err(NoJson),
    })
}

pub fn matches(j: &J, x: &X) -> Result<(), String> {
    let bad = || Err(format!("got {j:?}, expected {x:?}"));
    match (j, x) {
        (J::Null, X::Null) => Ok(()),
        (J::Bool(a), X::Bool(b)) if a == b => Ok(()),
        (J::Num(a), X::Int(b)) if a == b => Ok(()),
        (J::Num(a), X::F32(b)) if a.parse::<f32>().map(|v| v.to_bits()) == Ok(*b) => Ok(()),
        (J::Num(a), X::F64(b)) if a.parse::<f64>().map(|v| v.to_bits()) == Ok(*b) => Ok(()),
        (J::Num(a), X::Dec(b)) => {
            if decimal(a).is_some() && decimal(a) == decimal(b) {
                Ok(())
            } else {
                bad()
            }
        }
        (J::Str(a), X::Str(b)) if a == b => Ok(()),
        (J::Arr(a), X::Arr(b)) => {
            if a.len() != b.len() {
                return Err(format!("array of {} elements, expected {}: {j:?} vs {x:?}", a.len(), b.len()));
            }
            a.iter().zip(b).try_for_each(|(a, b)| matches(a, b))
        }
        (J::Obj(a), X::Obj(b)) => {
            if a.len() != b.len() {
                return Err(format!("object of {} entries, expected {}: {j:?} vs {x:?}", a.len(), b.len()));
            }
            a.iter().zip(b).try_for_each(|((ak, av), (bk, bv))| {
                key_matches(ak, bk)?;
                matches(av, bv)
            })
        }
        (j, X::Raw(r)) if j == r => Ok(()),
        _ => bad(),
    }
}

fn key_matches(k: &str, x: &X) -> Result<(), String> {
    let ok = match x {
        X::Null => k == "null",
        X::Bool(b) => k == if *b { "true" } else { "false" },
        X::Int(i) => k == i,
        X::Str(s) => k == s,
        X::F32(b) => is_number(k) && k.parse::<f32>().map(|v| v.to_bits()) == Ok(*b),
        X::F64(b) => is_number(k) && k.parse::<f64>().map(|v| v.to_bits()) == Ok(*b),
        X::Dec(d) => is_number(k) && decimal(k).is_some() && decimal(k) == decimal(d),
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("key {k:?}, expected {x:?}"))
    }
}
