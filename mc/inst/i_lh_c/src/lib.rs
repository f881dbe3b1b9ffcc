// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(feature = "alloc")]
    if kind == "LH" { return match (item, cfg.len) {
        ("cp3", _) => Some(heap::mk_local::<Cp<3>>(cfg, mode)),
        ("cpa", _) => Some(heap::mk_local::<CpA>(cfg, mode)),
        #[cfg(feature = "vmem")] ("cpv", _) => Some(heap::mk_local::<Cp<4096>>(cfg, mode)),
        _ => None,
    }; }
    None
}
