// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(not(feature = "vmem"))]
    if kind == "CS" { return match (item, cfg.len) {
        ("ds12", 3) => Some(stack::mk_conc::<Ds<u32, 12>, 3>(cfg, mode)),
        ("ds24", 3) => Some(stack::mk_conc::<Ds<u64, 24>, 3>(cfg, mode)),
        _ => None,
    }; }
    None
}
