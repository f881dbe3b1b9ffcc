//! conc <key=value>...   explores one concurrent scenario, prints one JSON line
use mc::conc::*;
use mc::model::*;
use mc::sys::*;
use std::collections::HashMap;
#[path = "../variants.rs"]
mod variants;

#[global_allocator]
static A: mc::rt::Alloc = mc::rt::Alloc;

fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o + "\"" }

fn main() {
    mc::rt::start();
    let mut a: HashMap<String, String> = HashMap::new();
    for x in std::env::args().skip(1) { if let Some((k, v)) = x.split_once('=') { a.insert(k.into(), v.into()); } }
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let len: usize = g("len", "3").parse().unwrap();
    let w3 = g("w", "0") == "1";
    let item = g("item", if cfg!(feature = "vmem") { "cpv" } else { "cp3" });
    #[cfg(feature = "vmem")]
    unsafe {
        mc::rt::rt_track_maps(1);
        let fp: i64 = g("page", "0").parse().unwrap();
        if fp != 0 { mc::rt::rt_fake_page(fp); }
    }
    let v = g("v", "CH");
    let asplit = g("asplit", "0") == "1" || v.starts_with("BS");
    let cfg = Cfg { len, w3, ctor: if v.contains('z') { Ctor::Zeroed } else { Ctor::From }, asplit };
    let dut = variants::dut(&v[..2], &item, cfg, Mode::Direct).expect("variant");
    let pre: Vec<u64> = g("pre", "0,0,0").split(',').map(|x| x.parse().unwrap()).collect();
    let forms = if asplit { F_ASYNC } else { F_PLAIN };
    if let Some(u) = a.get("under") { return grow(u, &a, len, w3, forms, dut); }
    let mut c = Conc::new(dut, len, w3, forms, [Talph::parse(&g("p", "2:item")), Talph::parse(&g("q", "2:item")), Talph::parse(&g("c", "2:item"))], [pre[0], pre[1], pre[2]], g("sc", "0") == "1", kmask(&g("mask", "all")));
    c.polls = g("polls", "3").parse().unwrap();
    let t0 = std::time::Instant::now();
    unsafe {
        if !prepare(&mut c) { println!("{{\"error\":\"construction failed\"}}"); std::process::exit(0); }
        if let Some(p) = a.get("path") {
            let path: Vec<u16> = p.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let k = replay(&mut c, &path);
            println!("REPLAY kinds={} hit={} {}", knames(k), k & c.mask != 0, c.msg);
            std::process::exit(if k & c.mask != 0 { 1 } else { 0 });
        }
        let (r, p) = explore(&mut c, g("max", "3000000").parse().unwrap(), g("secs", "60").parse().unwrap());
        println!("{{\"states\":{},\"transitions\":{},\"executions\":{},\"completed\":{},\"depth\":{},\"complete\":{},\"rf_choices\":{},\"multi_writer\":{},\"steps_max\":{},\"outcomes\":{},\"granted\":{},\"refused\":{},\"pruned\":{},\"viol\":{},\"kinds\":{},\"path\":{},\"msg\":{},\"secs\":{:.2}}}",
            r.states, r.transitions, r.executions, r.complete, r.max_depth, p.is_none() && r.capped == 0, r.rf_choices, r.multi_writer, r.steps_max, c.outcomes.len(), c.granted, c.refused, r.viol_exec, p.is_some(), jstr(&knames(c.viol)),
            jstr(&p.map(|p| p.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")).unwrap_or_default()), jstr(&c.msg), t0.elapsed().as_secs_f64());
    }
}

/// under=c:item,reset:1 with=2,4,6: the longest call of the thread under test, in atomic steps, while the others
/// complete 2, 4, 6 operations in its way; a call whose length goes on growing with them is not bounded
fn grow(u: &str, a: &HashMap<String, String>, len: usize, w3: bool, forms: u8, dut: Box<dyn Dut>) {
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let f: Vec<&str> = u.split(':').collect();
    let s = ["p", "q", "c"].iter().position(|x| *x == f[0]).expect("stage");
    let toks: Vec<String> = f[1].split(',').map(|x| x.replace('+', ",")).collect();
    let times = f.get(2).unwrap_or(&"1");
    let ks: Vec<usize> = g("with", "2,4,6").split(',').map(|x| x.parse().unwrap()).collect();
    let only = a.get("path").cloned();
    let peers = g("peers", "item");
    let pre: Vec<u64> = g("pre", "0,0,0").split(',').map(|x| x.parse().unwrap()).collect();
    let mask = kmask(&g("mask", "all"));
    let t0 = std::time::Instant::now();
    let mut dut = Some(dut);
    let (mut st, mut tr, mut ex, mut comp, mut dep, mut out, mut gr, mut rf) = (0, 0, 0, 0, 0, 0, 0, 0);
    let mut viol: Option<(String, String)> = None;
    let mut all = true;
    for t in &toks {
        if let Some(o) = &only { if *o != t.replace(',', "+") { continue; } }
        let mut seen = vec![];
        for k in &ks {
            let al = |x: usize| if x == s { Talph::parse(&format!("{times}:{t}")) } else { Talph::parse(&format!("{k}:{peers}")) };
            let mut c = Conc::new(dut.take().unwrap(), len, w3, forms, [al(0), al(1), al(2)], [pre[0], pre[1], pre[2]], true, mask & (1 << STEPS));
            c.polls = g("polls", "1").parse().unwrap();
            unsafe {
                if !prepare(&mut c) { println!("{{\"error\":\"construction failed\"}}"); std::process::exit(0); }
                let (r, p) = explore(&mut c, 3000000, g("secs", "60").parse().unwrap());
                st += r.states; tr += r.transitions; ex += r.executions; comp += r.complete; dep = dep.max(r.max_depth); out += c.outcomes.len(); gr += c.granted; rf += c.refused;
                if r.capped != 0 { all = false; }
                if p.is_some() { viol = Some((t.replace(',', "+"), format!("{t}: {}", c.msg))); break; }
                let th = c.order.iter().position(|x| *x == s).unwrap() + 1;
                seen.push(mc::rt::rt_max_call_steps_of(th as u32));
            }
            dut = Some(c.dut);
        }
        if viol.is_some() { break; }
        if only.is_some() { println!("  {t}: longest call {seen:?} atomic steps while the others complete {ks:?} operations each"); }
        if all && seen.len() > 2 && seen.windows(2).all(|w| w[0] < w[1]) { viol = Some((t.replace(',', "+"), format!("{t} of the {}: a call takes up to {seen:?} atomic steps while the others complete {ks:?} operations each: its length is not bounded", ["producer", "worker", "consumer"][s]))); break; }
    }
    if only.is_some() { println!("REPLAY kinds={} hit={} {}", if viol.is_some() { "unbounded-steps" } else { "" }, viol.is_some(), viol.as_ref().map(|x| x.1.clone()).unwrap_or_default()); std::process::exit(viol.is_some() as i32); }
    println!("{{\"states\":{st},\"transitions\":{tr},\"executions\":{ex},\"completed\":{comp},\"depth\":{dep},\"complete\":{},\"outcomes\":{out},\"granted\":{gr},\"refused\":{rf},\"viol\":{},\"kinds\":{},\"path\":{},\"msg\":{},\"secs\":{:.2}}}", all && viol.is_none(), viol.is_some(), jstr(if viol.is_some() { "unbounded-steps" } else { "" }),
        jstr(&viol.as_ref().map(|x| x.0.clone()).unwrap_or_default()), jstr(&viol.map(|x| x.1).unwrap_or_default()), t0.elapsed().as_secs_f64());
}
