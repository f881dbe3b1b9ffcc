// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(feature = "alloc")]
    if kind == "CH" { return match (item, cfg.len) {
        ("ds5", _) => Some(heap::mk_conc::<Ds<u8, 5>>(cfg, mode)),
        ("ds12", _) => Some(heap::mk_conc::<Ds<u32, 12>>(cfg, mode)),
        ("ds24", _) => Some(heap::mk_conc::<Ds<u64, 24>>(cfg, mode)),
        ("ds100", _) => Some(heap::mk_conc::<Ds<u8, 100>>(cfg, mode)),
        ("ds320", _) => Some(heap::mk_conc::<Ds<u64, 320>>(cfg, mode)),
        ("ds1100", _) => Some(heap::mk_conc::<Ds<u32, 1100>>(cfg, mode)),
        ("ds4k", _) => Some(heap::mk_conc::<Ds<u64, 4104>>(cfg, mode)),
        _ => None,
    }; }
    None
}
