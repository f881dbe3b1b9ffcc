// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(not(feature = "vmem"))]
    if kind == "LS" { return match (item, cfg.len) {
        ("cp1", 3) => Some(stack::mk_local::<Cp<1>, 3>(cfg, mode)),
        ("cp1", 5) => Some(stack::mk_local::<Cp<1>, 5>(cfg, mode)),
        ("cp16", 3) => Some(stack::mk_local::<Cp<16>, 3>(cfg, mode)),
        ("cp16", 5) => Some(stack::mk_local::<Cp<16>, 5>(cfg, mode)),
        _ => None,
    }; }
    None
}
