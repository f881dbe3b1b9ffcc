// generated by gen.py
#![allow(unused, static_mut_refs)]
#[cfg(not(feature = "vmem"))]
mod m {
use mc::ring::*;
use mc::rt::{self, cc};
use mutringbuf::{ConcurrentStackRB, StackSplit};
pub fn win(o: &mut Out, v: &str, tag: &str, len: usize, sz: usize, w3: bool, band: usize) -> Option<()> {
    if v != "CS" { return None; }
    macro_rules! stk { ($($S:literal $N:literal,)*) => { match (sz, len) { $(($S, $N) => { type T = By<$S>; type Q = ConcurrentStackRB<T, $N>;
        let mk = || -> Option<&'static mut Q> { cc(|| { let a: [T; $N] = std::array::from_fn(|i| T::mk(900 + i as u64)); let b: Q = a.into(); b }).map(|b| unsafe { let q = rt::rt_alloc(std::mem::size_of::<Q>() as u64, std::mem::align_of::<Q>() as u64, 2) as *mut Q; std::ptr::write(q, b); &mut *q }) };
        if w3 { explore::<Q, T, true>(o, tag, len, band, || { let b = mk()?; cc(|| b.split_mut()).map(|(p, w, c)| (p, Some(w), c)) }) } else { explore::<Q, T, false>(o, tag, len, band, || { let b = mk()?; cc(|| b.split()).map(|(p, c)| (p, None, c)) }) } })* _ => return None } } }
    stk!(4 2, 4 3, 4 5, 4 7, 4 8, 4 13, 4 16,);
    Some(())
}
}
#[cfg(not(feature = "vmem"))]
pub use m::win;
#[cfg(feature = "vmem")]
pub fn win(_: &mut mc::ring::Out, _: &str, _: &str, _: usize, _: usize, _: bool, _: usize) -> Option<()> { None }
