// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::ring::*;
use mc::rt::{self, cc};
use mutringbuf::*;
#[cfg(feature = "alloc")]
macro_rules! heap_ctor { ($o:ident, $v:expr, $B:ident, $T:ty, $ctor:expr, $n:expr, $len:expr, $init:expr, $mk:expr) => { for w3 in [false, true] {
    let (n, len): (usize, usize) = ($n, $len);
    let tag = format!("{}{}::{}({n}){}", $v, if <$T as Cv>::TINY { "<u8>" } else { "" }, $ctor, if w3 { " split_mut" } else { " split" });
    if $o.skip(tag.clone()) { continue; }
    begin();
    let b: Option<$B<$T>> = $mk;
    unsafe { rt::PANICKED = false; }
    match b {
        None => if n != 0 { let m = unsafe { rt::PANIC_MSG.take().unwrap_or_default() }; $o.bad("constructor", format!("{tag}: panics: {m}")); } else { $o.states += 1; },
        Some(b) => if n == 0 { $o.bad("constructor", format!("{tag}: no panic")); std::mem::forget(b); } else if w3 {
            let Some((mut p, mut w, mut c)) = cc(|| b.split_mut()) else { $o.bad("panic", format!("{tag}: split panics")); return };
            session($o, &tag, len, $init, &mut p, Some(&mut w), &mut c);
            if $o.stop() { return; }
            cc(|| drop(w)); cc(|| drop(p)); cc(|| drop(c));
        } else {
            let Some((mut p, mut c)) = cc(|| b.split()) else { $o.bad("panic", format!("{tag}: split panics")); return };
            session($o, &tag, len, $init, &mut p, None, &mut c);
            if $o.stop() { return; }
            cc(|| drop(c)); cc(|| drop(p));
        }
    }
    // (a constructor that panics on purpose may leave its arguments behind)
    if n != 0 { end($o, &tag); }
    if $o.stop() { return; }
    if $o.samples.len() < 6 && n % 7 == 5 { $o.samples.push(tag); }
} } }
#[cfg(feature = "alloc")]
fn items<T: Cv>(n: usize, extra: usize) -> Vec<T> { cc(|| { let mut v = Vec::with_capacity(n + extra); for i in 0..n { v.push(T::mk(100 + i as u32)); } v }).unwrap() }
#[cfg(feature = "alloc")]
pub fn ctors(o: &mut Out, ns: &[usize], round: impl Fn(usize) -> usize, vmem: bool) {
    macro_rules! both { ($T:ty) => { for &n in ns {
        let len = round(n);
        if !vmem || n == len { for extra in [0usize, 1, 7] { if extra != 0 && vmem { continue; }
            heap_ctor!(o, "ConcurrentHeapRB", ConcurrentHeapRB, $T, format!("from(vec, spare {extra})"), n, len, Init::Items, { let v = items::<$T>(n, extra); cc(|| ConcurrentHeapRB::<$T>::from(v)) });
            heap_ctor!(o, "LocalHeapRB", LocalHeapRB, $T, format!("from(vec, spare {extra})"), n, len, Init::Items, { let v = items::<$T>(n, extra); cc(|| LocalHeapRB::<$T>::from(v)) });
        } }
        heap_ctor!(o, "ConcurrentHeapRB", ConcurrentHeapRB, $T, "default", n, len, Init::Def, cc(|| ConcurrentHeapRB::<$T>::default(n)));
        heap_ctor!(o, "LocalHeapRB", LocalHeapRB, $T, "default", n, len, Init::Def, cc(|| LocalHeapRB::<$T>::default(n)));
        heap_ctor!(o, "ConcurrentHeapRB", ConcurrentHeapRB, $T, "new_zeroed", n, len, Init::Zero, cc(|| unsafe { ConcurrentHeapRB::<$T>::new_zeroed(n) }));
        heap_ctor!(o, "LocalHeapRB", LocalHeapRB, $T, "new_zeroed", n, len, Init::Zero, cc(|| unsafe { LocalHeapRB::<$T>::new_zeroed(n) }));
    } } }
    both!(Tr);
    if !vmem { both!(Cc); both!(Cb); }
}
