pub mod j;
pub mod t;
pub mod b;
#[cfg(not(feature = "noalloc"))]
pub mod s1;
#[cfg(not(feature = "noalloc"))]
pub mod s2;
#[cfg(not(feature = "noalloc"))]
pub mod n;
#[cfg(not(feature = "noalloc"))]
pub mod e;
#[cfg(not(feature = "noalloc"))]
pub mod f;
#[cfg(not(feature = "noalloc"))]
pub mod s3;
#[cfg(not(feature = "noalloc"))]
pub mod m;
#[cfg(not(feature = "noalloc"))]
pub mod g;
#[cfg(not(feature = "noalloc"))]
pub mod x;
#[cfg(not(feature = "noalloc"))]
pub mod r;
use crate::fw::{Prop, Stats};
use crate::tree::{shape, Sem};
pub fn all() -> Vec<&'static Prop> {
    vec![&j::J01, &j::J02, &j::J03, &j::J04, &t::T01, &b::B01, &b::B02, &s1::S01, &s1::S02, &s2::S03, &s2::S04, &s2::S05, &s3::S06, &s3::S07, &n::N01, &e::E01, &e::E02, &f::F01, &m::M01, &g::G01, &x::X01]
}

pub fn note(st: &mut Stats, s: &Sem) {
    let mut v = Vec::new();
    shape(s, &mut v);
    st.seen(&v);
}

pub fn short(s: &str) -> String {
    if s.len() > 600 {
        let mut k = 600;
        while !s.is_char_boundary(k) {
            k -= 1;
        }
        format!("{}…", &s[..k])
    } else {
        s.to_string()
    }
}

/// Positions among `n` to fail at: all of them, or a selection if there are very many.
pub fn positions(n: usize) -> impl Iterator<Item = usize> {
    let step = ((n / 60) | 1).max(1);
    (0..n).filter(move |i| n <= 400 || *i < 100 || n - *i <= 60 || *i % step == 0)
}
