//! B01, B02: buffers.

use super::{note, short};
use crate::fw::*;
use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;
use sval_buffer::{BinaryBuf, TextBuf, ValueBuf};
use sval_ref::ValueRef;

// ------------------------------------------------------------------------------------------- B01

/// Stream a `ValueRef` so that borrowed data keeps the lifetime of the original.
fn record_ref<'s, T: ValueRef<'s>>(v: &T) -> Result<Rec, String> {
    let mut r = Rec::new();
    v.stream_ref(&mut r).map_err(|_| "streaming a buffered value into a stream that accepts everything failed".to_string())?;
    if let Some(b) = r.bad_static.take() {
        return Err(b);
    }
    Ok(r)
}

fn same(what: &str, r: &Rec, want: &[Ev], n: &dyn std::fmt::Debug) -> R {
    let got = norm_hints(&r.ev);
    if let Some(d) = diff(&got, want) {
        return Err(format!("{what}: {d}\n value: {}", short(&format!("{n:?}"))));
    }
    parse(&r.ev).map_err(|e| format!("{what}: malformed replay: {e}\n value: {}", short(&format!("{n:?}"))))?;
    Ok(())
}

fn b_routes_of(g: &mut Gen, st: &mut Stats, n: Node) -> R {
    let want = norm_hints(&expected(&n).ev);
    note(st, &n.sem());
    st.events += want.len() as u64;
    let err = |w: &str| format!("{w} failed for a well-formed value {}", short(&format!("{n:?}")));
    let own = ranges(&n);
    let owned_ok = |what: &str, r: &Rec| -> R {
        for (i, a, l) in &r.borrowed {
            if *l > 0 && own.iter().any(|(b, m)| *a < b + m && *b < a + l) {
                return Err(format!("{what}: call #{i} of an owned buffer still refers to the original's memory\n value: {}", short(&format!("{n:?}"))));
            }
        }
        Ok(())
    };

    let buf = ValueBuf::collect(&n).map_err(|_| err("collect"))?;
    if !buf.is_complete() {
        return Err(format!("collected buffer is not complete: {}", short(&format!("{n:?}"))));
    }
    same("collect", &record_ref(&buf)?, &want, &n)?;
    same("collect, second replay", &record(&buf)?, &want, &n)?;
    st.count("replays", 2);
    match g.below(8) {
        0 => {
            let v = buf.to_value();
            same("to_value", &record_ref(&v)?, &want, &n)?;
            same("to_value clone", &record(&v.clone())?, &want, &n)?;
            same("buffer after to_value", &record(&buf)?, &want, &n)?;
            let o = v.into_owned().map_err(|_| err("Value::into_owned"))?;
            let r = record_ref(&o)?;
            same("to_value into_owned", &r, &want, &n)?;
            owned_ok("Value::into_owned", &r)?;
        }
        1 => {
            let v = buf.into_value();
            same("into_value", &record(&v)?, &want, &n)?;
            same("into_value clone", &record_ref(&v.clone())?, &want, &n)?;
        }
        2 => {
            let o = buf.into_owned().map_err(|_| err("into_owned"))?;
            if !o.is_complete() {
                return Err(err("is_complete after into_owned"));
            }
            let r = record_ref(&o)?;
            same("into_owned", &r, &want, &n)?;
            owned_ok("into_owned", &r)?;
            let r = record_ref(&o.into_value())?;
            same("into_owned into_value", &r, &want, &n)?;
            owned_ok("into_owned into_value", &r)?;
        }
        3 => {
            let o = ValueBuf::collect_owned(&n).map_err(|_| err("collect_owned"))?;
            let r = record_ref(&o)?;
            same("collect_owned", &r, &want, &n)?;
            owned_ok("collect_owned", &r)?;
            let o = sval_buffer::stream_to_value_owned(&n).map_err(|_| err("stream_to_value_owned"))?;
            let r = record_ref(&o)?;
            same("stream_to_value_owned", &r, &want, &n)?;
            owned_ok("stream_to_value_owned", &r)?;
        }
        4 => {
            let v = sval_buffer::Value::collect(&n).map_err(|_| err("Value::collect"))?;
            same("Value::collect", &record_ref(&v)?, &want, &n)?;
            let o = sval_buffer::Value::collect_owned(&n).map_err(|_| err("Value::collect_owned"))?;
            let r = record_ref(&o)?;
            same("Value::collect_owned", &r, &want, &n)?;
            owned_ok("Value::collect_owned", &r)?;
        }
        5 => {
            let v = sval_buffer::stream_to_value(&n).map_err(|_| err("stream_to_value"))?;
            same("stream_to_value", &record_ref(&v)?, &want, &n)?;
            // buffer the buffer
            let vv = ValueBuf::collect(&v).map_err(|_| err("collect of a buffer"))?;
            same("buffer of a buffer", &record(&vv)?, &want, &n)?;
            drop(vv);
            let vv = ValueBuf::collect_owned(&v).map_err(|_| err("collect_owned of a buffer"))?;
            drop(v);
            same("owned buffer of a buffer", &record(&vv)?, &want, &n)?;
        }
        6 => {
            // an owned buffer outlives the original: free and reuse the original's memory first
            let boxed = Box::new(n.clone());
            let o = ValueBuf::collect(&*boxed).map_err(|_| err("collect"))?.into_owned().map_err(|_| err("into_owned"))?;
            let lens: Vec<usize> = ranges(&boxed).iter().map(|r| r.1).collect();
            drop(boxed);
            let fill: Vec<Vec<u8>> = lens.iter().map(|l| vec![0xA5u8; *l]).collect();
            let r = record_ref(&o);
            drop(fill);
            same("into_owned after the original is gone", &r?, &want, &n)?;
        }
        _ => {
            // every output sees the same thing
            let (a, b) = (sval_fmt::stream_to_string(&n), sval_fmt::stream_to_string(&buf));
            if a != b {
                return Err(format!("formatting the replay differs: {} vs {}", short(&b), short(&a)));
            }
            let (a, b) = (sval_json::stream_to_string(&n).ok(), sval_json::stream_to_string(buf.to_value()).ok());
            if a != b {
                return Err(format!("JSON of the replay differs: {b:?} vs {a:?}\n value: {}", short(&format!("{n:?}"))));
            }
        }
    }
    st.count("replays", 2);
    st.count("routes", 1);
    st.sample(|| format!("{} calls replayed: {}", want.len(), short(&format!("{:?}", n))));
    Ok(())
}
fn b_routes(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { json_tags: true, huge: true, ..Cfg::full() });
    b_routes_of(g, st, n)
}
fn b_deep(g: &mut Gen, st: &mut Stats) -> R {
    let d = 10 + g.idx(120);
    let n = gen_deep(g, &Cfg::full(), d);
    st.count("deep", 1);
    b_routes_of(g, st, n)
}

/// Hints anywhere, any capture prefix: completeness.
fn b_complete(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 14, hints: false, ..Cfg::full() });
    let plain = expected(&n).ev;
    let ev = if g.bool() { sprinkle(g, &plain) } else { plain.clone() };
    // position after which the value is whole
    let last = ev.iter().rposition(|e| !matches!(e, Ev::Hint(_))).unwrap_or(0);
    note(st, &n.sem());
    let mut buf = ValueBuf::new();
    for (i, e) in ev.iter().enumerate() {
        if buf.is_complete() != (i > last) {
            return Err(format!("after {i} of {} calls is_complete() is {}: {ev:?}", ev.len(), buf.is_complete()));
        }
        st.events += 1;
        st.count("prefixes", 1);
        drive_one(e, &mut buf).map_err(|e2| format!("call #{i} {e:?} of a well-formed value was rejected ({e2}): {ev:?}"))?;
    }
    if !buf.is_complete() {
        return Err(format!("a whole value was captured but is_complete() is false: {ev:?}"));
    }
    let r = record_ref(&buf)?;
    let want = no_hints(&norm_hints(&plain));
    if let Some(d) = diff(&norm_hints(&no_hints(&r.ev)), &want) {
        return Err(format!("capture with hints: {d}\n calls: {ev:?}"));
    }
    if hints(&r.ev) != hints(&ev) {
        return Err(format!("hints {:?} replayed as {:?}: {ev:?}", hints(&ev), hints(&r.ev)));
    }
    Ok(())
}

/// One buffer used over and over.
fn b_history(g: &mut Gen, st: &mut Stats) -> R {
    let cfg = Cfg { budget: 12, ..Cfg::full() };
    let k = 2 + g.idx(7);
    let nodes: Vec<Node> = (0..k).map(|_| gen_node(g, &cfg)).collect();
    let evs: Vec<Vec<Ev>> = nodes.iter().map(|n| expected(n).ev).collect();
    let mut keep: Vec<(usize, sval_buffer::Value)> = Vec::new();
    let mut log: Vec<String> = Vec::new();
    let mut buf = ValueBuf::new();
    for i in 0..k {
        if buf.is_complete() {
            return Err(format!("an empty buffer reports itself complete; history {log:?}"));
        }
        let r = record(&buf)?;
        if r.ev != [Ev::Null] {
            return Err(format!("an empty buffer streams {:?}; history {log:?}", r.ev));
        }
        let want = norm_hints(&evs[i]);
        match g.below(6) {
            0 => {
                // abandoned part-way
                let at = g.idx(evs[i].len());
                for e in &evs[i][..at] {
                    drive_one(e, &mut buf).map_err(|_| format!("{e:?} rejected; history {log:?}"))?;
                }
                log.push(format!("partial {at} of {i}"));
            }
            1 => {
                // a call that does not fit is reported (and must not survive the clear)
                let at = g.idx(evs[i].len() + 1);
                for e in &evs[i][..at] {
                    drive_one(e, &mut buf).map_err(|_| format!("{e:?} rejected; history {log:?}"))?;
                }
                if at == evs[i].len() {
                    if sval::Stream::seq_end(&mut buf).is_ok() {
                        return Err(format!("closing a container that was never opened succeeded; history {log:?}"));
                    }
                }
                log.push(format!("broken {at} of {i}"));
            }
            2 => {
                sval::Value::stream(&nodes[i], &mut buf).map_err(|_| format!("stream failed; history {log:?}"))?;
                keep.push((i, buf.to_value()));
                log.push(format!("snapshot {i}"));
                same("history", &record_ref(&buf)?, &want, &log)?;
            }
            3 => {
                sval::Value::stream(&nodes[i], &mut buf).map_err(|_| format!("stream failed; history {log:?}"))?;
                log.push(format!("into_value {i}"));
                let b = std::mem::replace(&mut buf, ValueBuf::new());
                keep.push((i, b.into_value()));
                continue;
            }
            _ => {
                sval::stream(&mut buf, &nodes[i]).map_err(|_| format!("stream failed; history {log:?}"))?;
                log.push(format!("whole {i}"));
                if !buf.is_complete() {
                    return Err(format!("not complete after {log:?}"));
                }
                same("history", &record_ref(&buf)?, &want, &log)?;
            }
        }
        buf.clear();
        st.events += evs[i].len() as u64;
    }
    for (i, v) in &keep {
        same("value kept through the history", &record_ref(v)?, &norm_hints(&evs[*i]), &log)?;
    }
    st.seen(&log);
    st.count("histories", 1);
    Ok(())
}

/// Failing values and rejected calls are errors.
fn b_fail(g: &mut Gen, st: &mut Stats) -> R {
    let n = gen_node(g, &Cfg { budget: 12, ..Cfg::full() });
    let ev = expected(&n).ev;
    let at = g.idx(ev.len() + 1);
    let p = Play { ev: ev[..at].to_vec(), fail: true };
    st.seen(&(at, ev.len()));
    if ValueBuf::collect(&p).is_ok() || ValueBuf::collect_owned(&p).is_ok() || sval_buffer::Value::collect(&p).is_ok() || sval_buffer::Value::collect_owned(&p).is_ok() {
        return Err(format!("a value failing after {at} calls was buffered: {ev:?}"));
    }
    let mut b = ValueBuf::new();
    if sval::Value::stream(&p, &mut b).is_ok() {
        return Err("a failing value streamed into a buffer succeeded".into());
    }
    st.events += at as u64;
    st.count("failed_captures", 1);
    Ok(())
}

/// Values that don't keep to the protocol are no reason to panic, and what breaks off is not complete.
fn b_broken(g: &mut Gen, st: &mut Stats) -> R {
    let (v, lost) = super::r::gen_broken(g, &Cfg { empty_enum: true, ..Cfg::full() })?;
    st.events += v.play.ev.len() as u64;
    st.count("broken", 1);
    st.seen(&v.play.ev);
    let before = gen_node(g, &Cfg { budget: 3, ..Cfg::full() });
    let mut by_hand = ValueBuf::new();
    if g.chance(1, 4) {
        let _ = sval::Value::stream(&before, &mut by_hand);
        by_hand.clear();
    }
    let done = sval::Value::stream(&v, &mut by_hand).is_ok();
    if lost && by_hand.is_complete() {
        return Err(format!("a value that breaks off is complete: {}", short(&format!("{:?}", v.play.ev))));
    }
    // whatever arrived can be looked at
    let _ = record(&by_hand)?;
    let _ = sval_json::stream_to_string(&by_hand);
    let _ = record(&by_hand.to_value())?;
    match g.below(3) {
        0 => {
            by_hand.clear();
            if by_hand.is_complete() {
                return Err("a cleared buffer is complete".into());
            }
            sval::Value::stream(&7u8, &mut by_hand).map_err(|_| "a cleared buffer takes no value".to_string())?;
            if !by_hand.is_complete() || record(&by_hand)?.ev != record(&7u8)?.ev {
                return Err("a cleared buffer does not hold the next value alone".into());
            }
        }
        1 => {
            if let Ok(o) = by_hand.into_owned() {
                let _ = record(&o)?;
            }
        }
        _ => {
            let _ = record(&by_hand.into_value())?;
        }
    }
    let a = ValueBuf::collect(&v);
    let b = ValueBuf::collect_owned(&v);
    for x in [a.as_ref().ok(), b.as_ref().ok()].into_iter().flatten() {
        let _ = record(x)?;
        if lost && x.is_complete() {
            return Err(format!("a collected value that breaks off is complete: {}", short(&format!("{:?}", v.play.ev))));
        }
    }
    if a.is_ok() != done {
        return Err(format!("collecting {}, streaming into a buffer {}: {}", a.is_ok(), done, short(&format!("{:?}", v.play.ev))));
    }
    if lost {
        st.count("broken_off", 1);
    }
    let _ = TextBuf::collect(&v);
    let _ = BinaryBuf::collect(&v);
    Ok(())
}

pub static B01: Prop = Prop {
    id: "B01",
    rule: "a replay counts as distinct when the structure of the captured value (kinds, arity, which of label/index/tag are present, nesting) or the capture history is new; every replay is compared call by call with the calls the original makes",
    assumptions: &["size hints of text and binary, fragment boundaries and whether a label is static are delivery details and not compared", "buffers are driven with well-formed prefixes of values only"],
    level: "exploration",
    subs: &[
        Sub { name: "routes", weight: 4, f: b_routes, once: false },
        Sub { name: "deep", weight: 1, f: b_deep, once: false },
        Sub { name: "complete", weight: 2, f: b_complete, once: false },
        Sub { name: "history", weight: 2, f: b_history, once: false },
        Sub { name: "fail", weight: 1, f: b_fail, once: false },
        Sub { name: "broken", weight: 1, f: b_broken, once: false },
    ],
    must_see: &["replays", "deep", "prefixes", "histories", "failed_captures", "broken_off"],
};

// ------------------------------------------------------------------------------------------- B02

fn frags(g: &mut Gen) -> Vec<(String, bool)> {
    let n = g.idx(6);
    (0..n)
        .map(|_| {
            let s = if g.chance(1, 4) { String::new() } else { gen_string(g) };
            (s, g.bool())
        })
        .collect()
}

fn judge_text(what: &str, b: &TextBuf, fr: &[(String, bool)]) -> R {
    let want: String = fr.iter().map(|f| &*f.0).collect();
    if b.as_str() != want || AsRef::<str>::as_ref(b) != want {
        return Err(format!("{what}: fragments {fr:?} collected as {:?}", b.as_str()));
    }
    if let Some(s) = b.as_borrowed_str() {
        if s != want {
            return Err(format!("{what}: borrowed form {s:?} of {want:?} ({fr:?})"));
        }
        let (a, l) = (s.as_ptr() as usize, s.len());
        if l > 0 && !fr.iter().any(|(f, c)| !c && f.as_ptr() as usize == a && f.len() == l) {
            return Err(format!("{what}: {s:?} claimed as borrowed but is not one of the borrowed fragments {fr:?}"));
        }
    }
    if fr.len() == 1 && !fr[0].1 && b.as_borrowed_str().is_none() {
        return Err(format!("{what}: a single borrowed fragment is not available as borrowed: {fr:?}"));
    }
    for r in [record(b)?, record_ref(b)?] {
        match parse(&r.ev)? {
            Sem::Text(t) if t == want => (),
            o => return Err(format!("{what}: text {want:?} streams as {o:?}")),
        }
    }
    if b.clone() != *b {
        return Err(format!("{what}: a clone differs"));
    }
    let more = format!("{want}x");
    if *b != TextBuf::from(&*want) || *b == TextBuf::from(&*more) {
        return Err(format!("{what}: equality of {want:?} is not by its text"));
    }
    Ok(())
}
fn judge_bin(what: &str, b: &BinaryBuf, fr: &[(Vec<u8>, bool)]) -> R {
    let want: Vec<u8> = fr.iter().flat_map(|f| f.0.iter().copied()).collect();
    if b.as_slice() != want || AsRef::<[u8]>::as_ref(b) != want {
        return Err(format!("{what}: fragments {fr:?} collected as {:?}", b.as_slice()));
    }
    if let Some(s) = b.as_borrowed_slice() {
        if s != want {
            return Err(format!("{what}: borrowed form {s:?} of {want:?} ({fr:?})"));
        }
        let (a, l) = (s.as_ptr() as usize, s.len());
        if l > 0 && !fr.iter().any(|(f, c)| !c && f.as_ptr() as usize == a && f.len() == l) {
            return Err(format!("{what}: {s:?} claimed as borrowed but is not one of the borrowed fragments {fr:?}"));
        }
    }
    if fr.len() == 1 && !fr[0].1 && b.as_borrowed_slice().is_none() {
        return Err(format!("{what}: a single borrowed fragment is not available as borrowed: {fr:?}"));
    }
    for r in [record(b)?, record_ref(b)?] {
        match parse(&r.ev)? {
            Sem::Bin(t) if t == want => (),
            o => return Err(format!("{what}: binary {want:?} streams as {o:?}")),
        }
    }
    if b.clone() != *b {
        return Err(format!("{what}: a clone differs"));
    }
    let more = [&want[..], &[7]].concat();
    if *b != BinaryBuf::from(&want[..]) || *b == BinaryBuf::from(&more[..]) {
        return Err(format!("{what}: equality of {want:?} is not by its bytes"));
    }
    Ok(())
}

fn b2_push(g: &mut Gen, st: &mut Stats) -> R {
    let fr = frags(g);
    st.seen(&fr);
    st.events += fr.len() as u64;
    st.count("fragments", fr.len() as u64);
    let mut t = TextBuf::new();
    let reuse = g.bool();
    let junk = gen_string(g);
    if reuse {
        t.push_fragment(&junk).map_err(|_| "push_fragment failed")?;
        t.push_fragment_computed(&junk).map_err(|_| "push_fragment_computed failed")?;
        t.clear();
    }
    for (f, c) in &fr {
        if *c {
            match g.below(3) {
                0 => t.push_fragment_computed(f).map_err(|_| "push_fragment_computed failed")?,
                1 => t.push_display(f).map_err(|_| "push_display failed")?,
                _ => std::fmt::Write::write_str(&mut t, f).map_err(|_| "write_str failed")?,
            }
        } else {
            t.push_fragment(f).map_err(|_| "push_fragment failed")?;
        }
    }
    judge_text("pushed", &t, &fr)?;
    let whole: String = fr.iter().map(|f| &*f.0).collect();
    judge_text("collect_display", &TextBuf::collect_display(&whole).map_err(|_| "collect_display failed")?, &[(whole.clone(), true)])?;
    let one = [(whole, false)];
    judge_text("from", &TextBuf::from(&*one[0].0), &one)?;

    let bf: Vec<(Vec<u8>, bool)> = fr.iter().map(|(f, c)| (f.as_bytes().iter().map(|b| b ^ 0x9c).collect(), *c)).collect();
    let mut b = BinaryBuf::new();
    if reuse {
        b.push_fragment(junk.as_bytes()).map_err(|_| "push_fragment failed")?;
        b.push_fragment_computed(junk.as_bytes()).map_err(|_| "push_fragment_computed failed")?;
        b.clear();
    }
    for (f, c) in &bf {
        if *c {
            b.push_fragment_computed(f).map_err(|_| "push_fragment_computed failed")?;
        } else {
            b.push_fragment(f).map_err(|_| "push_fragment failed")?;
        }
    }
    judge_bin("pushed", &b, &bf)?;
    let whole: Vec<u8> = bf.iter().flat_map(|f| f.0.clone()).collect();
    let arr: [u8; 6] = std::array::from_fn(|i| whole.get(i).copied().unwrap_or(i as u8));
    let owner = [(arr.to_vec(), false)];
    let held: &[u8; 6] = owner[0].0[..].try_into().unwrap();
    judge_bin("from an array", &BinaryBuf::from(held), &owner)?;
    let one = [(whole, false)];
    judge_bin("from", &BinaryBuf::from(&one[0].0[..]), &one)
}

/// What text a value amounts to once tags are stripped: None = must fail, Some(None) = either.
fn as_text(n: &Sem) -> Option<Option<String>> {
    match n {
        Sem::Text(s) => Some(Some(s.clone())),
        Sem::Tagged(_, v) => as_text(v),
        Sem::Enum(_, Some(v)) => as_text(v),
        // labels of unit variants and integers beyond the native width are lowered to text
        Sem::Tag(_) | Sem::Enum(_, None) => Some(None),
        Sem::U(_, v) if *v > i64::MAX as u128 => Some(None),
        Sem::I(_, v) if *v > i64::MAX as i128 || *v < i64::MIN as i128 => Some(None),
        _ => None,
    }
}
/// Likewise for binary; a flat sequence of bytes is binary, too.
fn as_bin(n: &Sem) -> Option<Option<Vec<u8>>> {
    fn u8s<'a>(vs: impl Iterator<Item = &'a Sem>) -> Option<Option<Vec<u8>>> {
        let mut out = Some(Vec::new());
        for v in vs {
            match (v, &mut out) {
                (Sem::U(W::W8, b), Some(o)) => o.push(*b as u8),
                (v, _) => {
                    as_bin(v)?;
                    out = None;
                }
            }
        }
        Some(out)
    }
    match n {
        Sem::Bin(s) => Some(Some(s.clone())),
        Sem::Tagged(_, v) => as_bin(v),
        Sem::Enum(_, Some(v)) => as_bin(v),
        Sem::Enum(_, None) => Some(None),
        Sem::U(W::W8, _) => Some(None),
        Sem::Seq(vs) => u8s(vs.iter()),
        Sem::Tuple(_, vs) => u8s(vs.iter().map(|v| &v.2)),
        _ => None,
    }
}

fn b2_collect(g: &mut Gen, st: &mut Stats) -> R {
    let cfg = Cfg { budget: 6, max_depth: 3, json_tags: true, ..Cfg::full() };
    let n = match g.below(6) {
        0 => gen_node(g, &cfg),
        1 => {
            let fr = frags(g);
            Node::Text(fr, g.bool())
        }
        2 => Node::Bin(frags(g).into_iter().map(|(s, c)| (s.into_bytes(), c)).collect(), g.bool()),
        3 => {
            let k = g.idx(5);
            let bad = g.chance(1, 4);
            let mut es: Vec<Child> = (0..k).map(|_| Child { via: Via::Value, node: Node::U(W::W8, g.below(256) as u128) }).collect();
            if bad {
                let at = g.idx(k + 1);
                es.insert(at, Child { via: Via::Value, node: gen_node(g, &Cfg { budget: 1, ..cfg.clone() }) });
            }
            Node::Seq(g.bool(), es)
        }
        _ => {
            let fr = frags(g);
            let t = if g.bool() { Node::Text(fr, true) } else { Node::Bin(fr.into_iter().map(|(s, c)| (s.into_bytes(), c)).collect(), true) };
            let t = Node::Tagged(gen_id(g, &cfg), Box::new(Child { via: *g.pick(&[Via::Value, Via::Inline, Via::Computed]), node: t }));
            if g.bool() {
                Node::Enum(gen_id(g, &cfg), Some(Box::new(Child { via: Via::Value, node: t })))
            } else {
                t
            }
        }
    };
    let sem = n.sem();
    note(st, &sem);
    st.events += 2;
    match (TextBuf::collect(&n), as_text(&sem)) {
        (Ok(b), Some(Some(t))) => {
            if b.as_str() != t {
                return Err(format!("text {t:?} collected as {:?}", b.as_str()));
            }
            if let Some(s) = b.as_borrowed_str() {
                let (a, l) = (s.as_ptr() as usize, s.len());
                if l > 0 && !ranges(&n).contains(&(a, l)) {
                    return Err(format!("{s:?} claimed as borrowed but is no fragment of {n:?}"));
                }
            }
            if let Node::Text(fr, _) = &n {
                judge_text("collect", &b, fr)?;
            }
            st.count("texts", 1);
        }
        (Err(_), Some(Some(t))) => return Err(format!("text {t:?} could not be collected from {n:?}")),
        (Ok(b), None) => return Err(format!("not text, but collected as {:?}: {n:?}", b.as_str())),
        (_, Some(None)) => (),
        (Err(_), None) => st.count("rejected", 1),
    }
    match (BinaryBuf::collect(&n), as_bin(&sem)) {
        (Ok(b), Some(Some(t))) => {
            if b.as_slice() != t {
                return Err(format!("binary {t:?} collected as {:?}", b.as_slice()));
            }
            if let Some(s) = b.as_borrowed_slice() {
                let (a, l) = (s.as_ptr() as usize, s.len());
                if l > 0 && !ranges(&n).contains(&(a, l)) {
                    return Err(format!("{s:?} claimed as borrowed but is no fragment of {n:?}"));
                }
            }
            if let Node::Bin(fr, _) = &n {
                judge_bin("collect", &b, fr)?;
            }
            st.count("binaries", 1);
        }
        (Err(_), Some(Some(t))) => return Err(format!("binary {t:?} could not be collected from {n:?}")),
        (Ok(b), None) => return Err(format!("not binary, but collected as {:?}: {n:?}", b.as_slice())),
        (_, Some(None)) => (),
        (Err(_), None) => st.count("rejected", 1),
    }
    Ok(())
}

struct FailDisplay(Vec<String>);
impl std::fmt::Display for FailDisplay {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for s in &self.0 {
            f.write_str(s)?;
        }
        Err(std::fmt::Error)
    }
}

fn b2_fail(g: &mut Gen, st: &mut Stats) -> R {
    let fr = frags(g);
    let n = if g.bool() { Node::Text(fr.clone(), g.bool()) } else { Node::Bin(fr.iter().map(|(s, c)| (s.clone().into_bytes(), *c)).collect(), g.bool()) };
    let ev = expected(&n).ev;
    let at = g.idx(ev.len() + 1);
    let p = Play { ev: ev[..at].to_vec(), fail: true };
    st.seen(&(at, ev.len(), &fr));
    st.events += at as u64;
    if TextBuf::collect(&p).is_ok() || BinaryBuf::collect(&p).is_ok() {
        return Err(format!("a value failing after {at} calls was collected: {ev:?}"));
    }
    let d = FailDisplay(fr.iter().map(|f| f.0.clone()).collect());
    if TextBuf::collect_display(&d).is_ok() {
        return Err(format!("a failing Display was collected: {fr:?}"));
    }
    st.count("failing_values", 1);
    Ok(())
}

pub static B02: Prop = Prop {
    id: "B02",
    rule: "a case counts as distinct when its fragment list, the structure of the collected value, or the point of failure is new; contents, borrowed accessor (by address) and streamed form are compared with the fragments",
    assumptions: &["unit variants, integers beyond 64 bits and nested byte sequences may either be collected or be rejected"],
    level: "exploration",
    subs: &[
        Sub { name: "push", weight: 2, f: b2_push, once: false },
        Sub { name: "collect", weight: 3, f: b2_collect, once: false },
        Sub { name: "fail", weight: 1, f: b2_fail, once: false },
    ],
    must_see: &["fragments", "texts", "binaries", "rejected", "failing_values"],
};
