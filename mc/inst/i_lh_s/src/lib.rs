// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(feature = "alloc")]
    if kind == "LH" { return match (item, cfg.len) {
        ("ds12", _) => Some(heap::mk_local::<Ds<u32, 12>>(cfg, mode)),
        _ => None,
    }; }
    None
}
