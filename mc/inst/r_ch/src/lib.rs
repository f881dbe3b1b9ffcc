// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::ring::*;
use mc::rt::cc;
#[cfg(feature = "alloc")]
use mutringbuf::{ConcurrentHeapRB as Q, HeapSplit};
pub fn win(o: &mut Out, v: &str, tag: &str, len: usize, sz: usize, w3: bool, band: usize) -> Option<()> {
    if v != "CH" { return None; }
    #[cfg(feature = "alloc")] {
    macro_rules! heap { ($S:ty) => { { type T = $S;
        let mk = || { let v = cc(|| (0..len).map(|i| T::mk(900 + i as u64)).collect::<Vec<T>>())?; cc(|| Q::<T>::from(v)) };
        if w3 { explore::<Q<T>, T, true>(o, tag, len, band, || { let b = mk()?; cc(|| b.split_mut()).map(|(p, w, c)| (p, Some(w), c)) }) } else { explore::<Q<T>, T, false>(o, tag, len, band, || { let b = mk()?; cc(|| b.split()).map(|(p, c)| (p, None, c)) }) } } } }
    #[cfg(not(feature = "vmem"))]
    return match sz { 1 => Some(heap!(By<1>)), 4 => Some(heap!(By<4>)), _ => None };
    #[cfg(feature = "vmem")]
    return match sz { 1 => Some(heap!(By<1>)), 2 => Some(heap!(By<2>)), 3 => Some(heap!(By<3>)), 4 => Some(heap!(By<4>)), _ => None };
    }
    #[allow(unreachable_code)] None
}
