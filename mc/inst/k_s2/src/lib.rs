// generated by gen.py
#![allow(unused, static_mut_refs)]
#[cfg(not(feature = "vmem"))]
mod m {
use mc::ring::*;
use mutringbuf::*;
fn arr<T: Cv, const N: usize>() -> [T; N] { std::array::from_fn(|i| T::mk(100 + i as u32)) }
pub fn ctors(o: &mut Out) {
    macro_rules! n { ($($N:literal)*) => { $( {
        fn go(o: &mut Out) {
            stack_ctor::<ConcurrentStackRB<Tr, $N>, Tr>(o, "ConcurrentStackRB", "from(array)", $N, Init::Items, &|| ConcurrentStackRB::from(arr::<Tr, $N>()));
            stack_ctor::<ConcurrentStackRB<Tr, $N>, Tr>(o, "ConcurrentStackRB", "new_zeroed", $N, Init::Zero, &|| unsafe { ConcurrentStackRB::<Tr, $N>::new_zeroed() });
            stack_ctor::<ConcurrentStackRB<Cc, $N>, Cc>(o, "ConcurrentStackRB", "default", $N, Init::Def, &|| ConcurrentStackRB::<Cc, $N>::default());
            stack_ctor::<LocalStackRB<Tr, $N>, Tr>(o, "LocalStackRB", "from(array)", $N, Init::Items, &|| LocalStackRB::from(arr::<Tr, $N>()));
            stack_ctor::<LocalStackRB<Tr, $N>, Tr>(o, "LocalStackRB", "new_zeroed", $N, Init::Zero, &|| unsafe { LocalStackRB::<Tr, $N>::new_zeroed() });
            stack_ctor::<LocalStackRB<Cc, $N>, Cc>(o, "LocalStackRB", "default", $N, Init::Def, &|| LocalStackRB::<Cc, $N>::default());
            stack_ctor::<ConcurrentStackRB<Cb, $N>, Cb>(o, "ConcurrentStackRB<u8>", "from(array)", $N, Init::Items, &|| ConcurrentStackRB::from(arr::<Cb, $N>()));
            stack_ctor::<LocalStackRB<Cb, $N>, Cb>(o, "LocalStackRB<u8>", "default", $N, Init::Def, &|| LocalStackRB::<Cb, $N>::default());
        }
        go(o);
        if o.stop() { return; }
    } )* } }
    n!(2 48 11 9);
}
}
#[cfg(not(feature = "vmem"))]
pub use m::ctors;
