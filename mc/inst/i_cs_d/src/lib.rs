// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(not(feature = "vmem"))]
    if kind == "CS" { return match (item, cfg.len) {
        ("dr8", 2) => Some(stack::mk_conc::<Dr<0>, 2>(cfg, mode)),
        ("dr8", 3) => Some(stack::mk_conc::<Dr<0>, 3>(cfg, mode)),
        ("dr8", 4) => Some(stack::mk_conc::<Dr<0>, 4>(cfg, mode)),
        _ => None,
    }; }
    None
}
