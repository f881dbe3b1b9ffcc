// generated by gen.py
#![allow(unused, static_mut_refs)]
use mc::item::*;
use mc::sys::*;
pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    #[cfg(not(feature = "vmem"))]
    if kind == "CS" { return match (item, cfg.len) {
        ("cp3", 1) => Some(stack::mk_conc::<Cp<3>, 1>(cfg, mode)),
        ("cp3", 2) => Some(stack::mk_conc::<Cp<3>, 2>(cfg, mode)),
        ("cp3", 3) => Some(stack::mk_conc::<Cp<3>, 3>(cfg, mode)),
        ("cp3", 4) => Some(stack::mk_conc::<Cp<3>, 4>(cfg, mode)),
        ("cp3", 5) => Some(stack::mk_conc::<Cp<3>, 5>(cfg, mode)),
        _ => None,
    }; }
    None
}
