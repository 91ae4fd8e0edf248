//! Values that break the streaming protocol: calls left out, doubled, swapped, or broken off.

use crate::gen::Gen;
use crate::rec::*;
use crate::tree::*;

/// Some calls, and whether they are a value that breaks off: what is left of it after its last call.
pub fn broken(g: &mut Gen, cfg: &Cfg) -> Result<(Vec<Ev>, Option<Vec<Ev>>), String> {
    let n = gen_node(g, &Cfg { budget: 12, ..cfg.clone() });
    let mut ev = record(&n)?.ev;
    if g.chance(1, 3) && !ev.is_empty() {
        let i = g.idx(ev.len());
        let rest = ev.split_off(i);
        return Ok((ev, Some(rest)));
    }
    for _ in 0..g.range(1, 3) {
        if ev.is_empty() {
            break;
        }
        let i = g.idx(ev.len());
        match g.below(6) {
            0 => drop(ev.remove(i)),
            1 => {
                let j = g.idx(ev.len());
                ev.swap(i, j)
            }
            2 => {
                let e = ev[i].clone();
                ev.insert(i, e)
            }
            3 => ev.truncate(i),
            4 => drop(ev.drain(..i)),
            _ => {
                let m = gen_node(g, &Cfg { budget: 3, ..cfg.clone() });
                let e = record(&m)?.ev;
                for (k, x) in e.into_iter().enumerate() {
                    ev.insert(i + k, x)
                }
            }
        }
    }
    Ok((ev, None))
}

/// Nothing of the data is missing if only these calls are.
pub fn immaterial(rest: &[Ev]) -> bool {
    rest.iter().all(|e| {
        matches!(
            e,
            Ev::Hint(_) | Ev::TextEnd | Ev::BinEnd | Ev::KeyEnd | Ev::ValEnd | Ev::MapEnd | Ev::ElEnd | Ev::SeqEnd | Ev::EnumEnd(_) | Ev::TaggedEnd(_) | Ev::RecValEnd(..) | Ev::RecEnd(_) | Ev::TupValEnd(..) | Ev::TupEnd(_) | Ev::RTValEnd(..) | Ev::RTEnd(_)
        )
    })
}

/// Such a value as it is, or as a part of a sound one.
pub struct Broken {
    pub play: Play,
    pub how: u64,
}
pub fn gen_broken(g: &mut Gen, cfg: &Cfg) -> Result<(Broken, bool), String> {
    let (ev, rest) = broken(g, cfg)?;
    let lost = !ev.is_empty() && rest.map_or(false, |r| !immaterial(&r));
    // parts may be buffered, which mends them
    let how = g.below(12);
    Ok((Broken { play: Play { ev, fail: false }, how }, lost && !(1..=8).contains(&how)))
}
impl sval::Value for Broken {
    fn stream<'sval, S: sval::Stream<'sval> + ?Sized>(&'sval self, s: &mut S) -> sval::Result {
        match self.how {
            1 | 2 => {
                s.seq_begin(None)?;
                s.seq_value_begin()?;
                if self.how == 1 {
                    s.value(&self.play)?
                } else {
                    s.value_computed(&self.play)?
                }
                s.seq_value_end()?;
                s.seq_end()
            }
            3 => {
                s.map_begin(None)?;
                s.map_key_begin()?;
                s.value(&self.play)?;
                s.map_key_end()?;
                s.map_value_begin()?;
                s.i64(1)?;
                s.map_value_end()?;
                s.map_end()
            }
            4 | 5 => {
                s.map_begin(None)?;
                s.map_key_begin()?;
                s.value("k")?;
                s.map_key_end()?;
                s.map_value_begin()?;
                if self.how == 4 {
                    s.value(&self.play)?
                } else {
                    s.value_computed(&self.play)?
                }
                s.map_value_end()?;
                s.map_end()
            }
            6 => {
                let l = sval::Label::new("r");
                s.record_begin(None, Some(&l), None, Some(1))?;
                s.record_value_begin(None, &l)?;
                s.value(&self.play)?;
                s.record_value_end(None, &l)?;
                s.record_end(None, Some(&l), None)
            }
            7 => {
                let (l, i) = (sval::Label::new("t"), sval::Index::new(0));
                s.enum_begin(None, Some(&l), None)?;
                s.tuple_begin(None, Some(&l), Some(&i), Some(1))?;
                s.tuple_value_begin(None, &i)?;
                s.value_computed(&self.play)?;
                s.tuple_value_end(None, &i)?;
                s.tuple_end(None, Some(&l), Some(&i))?;
                s.enum_end(None, Some(&l), None)
            }
            8 => {
                let l = sval::Label::new("w");
                s.tagged_begin(None, Some(&l), None)?;
                s.value(&self.play)?;
                s.tagged_end(None, Some(&l), None)
            }
            _ => self.play.stream(s),
        }
    }
}
