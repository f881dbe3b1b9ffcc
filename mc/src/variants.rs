// generated by gen.py
use mc::sys::*;
pub fn dut(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {
    None.or_else(|| i_ch_c::get(kind, item, cfg, mode)).or_else(|| i_ch_e::get(kind, item, cfg, mode)).or_else(|| i_ch_d::get(kind, item, cfg, mode)).or_else(|| i_lh_c::get(kind, item, cfg, mode)).or_else(|| i_lh_e::get(kind, item, cfg, mode)).or_else(|| i_lh_d::get(kind, item, cfg, mode)).or_else(|| i_ch_s::get(kind, item, cfg, mode)).or_else(|| i_lh_s::get(kind, item, cfg, mode)).or_else(|| i_cs_s::get(kind, item, cfg, mode)).or_else(|| i_cs_c::get(kind, item, cfg, mode)).or_else(|| i_cs_d::get(kind, item, cfg, mode)).or_else(|| i_cs_e::get(kind, item, cfg, mode)).or_else(|| i_ls_c::get(kind, item, cfg, mode)).or_else(|| i_ls_d::get(kind, item, cfg, mode)).or_else(|| i_ls_e::get(kind, item, cfg, mode)).or_else(|| i_bs_c::get(kind, item, cfg, mode)).or_else(|| i_bs_d::get(kind, item, cfg, mode))
}
