// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(feature = "alloc")]
    if kind == "CH" { return match (item, cfg.len) {
        ("dr8", _) => Some(heap::mk_conc::<Dr<0>>(cfg, mode)),
        ("dr24", _) => Some(heap::mk_conc::<Dr<2>>(cfg, mode)),
        #[cfg(feature = "vmem")] ("drv", _) => Some(heap::mk_conc::<Dr<511>>(cfg, mode)),
        _ => None,
    }; }
    None
}
