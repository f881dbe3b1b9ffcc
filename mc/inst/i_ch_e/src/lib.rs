// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(feature = "alloc")]
    if kind == "CH" { return match (item, cfg.len) {
        ("cp1", _) => Some(heap::mk_conc::<Cp<1>>(cfg, mode)),
        ("cp16", _) => Some(heap::mk_conc::<Cp<16>>(cfg, mode)),
        _ => None,
    }; }
    None
}
