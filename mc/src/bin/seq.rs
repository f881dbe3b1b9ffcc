//! seq <key=value>...   explores one configuration, prints one JSON line
use mc::explore::*;
use mc::item::*;
use mc::model::*;
use mc::sys::*;
use std::collections::HashMap;
#[path = "../variants.rs"]
mod variants;

#[global_allocator]
static A: mc::rt::Alloc = mc::rt::Alloc;

fn jstr(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o + "\"" }

fn main() {
    mc::rt::start();
    let mut a: HashMap<String, String> = HashMap::new();
    for x in std::env::args().skip(1) { if let Some((k, v)) = x.split_once('=') { a.insert(k.into(), v.into()); } }
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let len: usize = g("len", "3").parse().unwrap();
    let w3 = g("w", "0") == "1";
    let item = g("item", "cp3");
    unsafe { L = len; }
    #[cfg(feature = "vmem")]
    unsafe {
        mc::rt::rt_track_maps(1);
        let fp: i64 = g("page", "0").parse().unwrap();
        if fp != 0 { mc::rt::rt_fake_page(fp); }
    }
    let asplit = g("asplit", "0") == "1";
    let mut duts = vec![];
    // v=CH,LH.d,CS.p,CHz   (.d detach-attach form, .p polled form; z zeroed, n default)
    for v in g("v", "CH").split(',') {
        let (kind, mode) = match v.split_once('.') { Some((k, "d")) => (k, Mode::DetAtt), Some((k, "p")) => (k, Mode::Poll), _ => (v, Mode::Direct) };
        let ctor = match kind.chars().nth(2) { Some('z') => Ctor::Zeroed, Some('n') => Ctor::Default, _ => match g("ctor", "from").as_str() { "zeroed" => Ctor::Zeroed, "default" => Ctor::Default, _ => Ctor::From } };
        let cfg = Cfg { len, w3, ctor, asplit };
        let d = variants::dut(&kind[..2], &item, cfg, mode);
        duts.push(d.unwrap_or_else(|| panic!("variant {v} item {item} len {len}")));
    }
    let taint = g("taint", "").split(',').map(|t| match t { "reset" => T_RESET, "det" => T_DET, "fut" => T_FUT, "resplit" => T_RESPLIT, "move" => T_MOVE, "drop" => T_DROP, "zero" => T_ZERO, "preset" => T_PRESET, _ => 0 }).fold(0, |x, y| x | y);
    let secs: u64 = g("secs", "60").parse().unwrap();
    let forms = if asplit || g("v", "CH").starts_with("BS") { F_ASYNC } else { F_PLAIN };
    let zero = g("v", "CH").split(',').next().unwrap().contains('z') || g("ctor", "from") == "zeroed";
    let mut j = Job { duts, alph: Alph::parse(&g("al", "item,slice")), mask: dmask(&g("mask", "all")), taint, max_states: g("max", "3000000").parse().unwrap(), len, w3, forms, zero, known: g("known", "").split(',').filter(|x| !x.is_empty()).map(|x| { let (o, k) = x.split_once(':').unwrap(); (o.to_string(), dmask(&k.replace('+', ","))) }).collect(), deadline: std::time::Instant::now() + std::time::Duration::from_secs(secs) };
    if let Some(p) = a.get("path") {
        let path: Vec<Op> = p.split_whitespace().map(|x| Op::unpack(x.parse().unwrap())).collect();
        println!("history ({} operations):", path.len());
        let r = replay(&mut j, &path, true);
        let d = r.map(|x| x.1).unwrap_or(D_CTOR);
        println!("REPLAY kinds={} hit={}", dnames(d), d & j.mask != 0);
        std::process::exit(if d & j.mask != 0 { 1 } else { 0 });
    }
    let t0 = std::time::Instant::now();
    let r = run(&mut j);
    let (vk, vp, vm, vt) = match &r.viol {
        Some((k, p, m)) => (dnames(*k), p.iter().map(|o| o.pack().to_string()).collect::<Vec<_>>().join(" "), m.clone(), p.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ")),
        None => Default::default(),
    };
    println!("{{\"states\":{},\"transitions\":{},\"depth\":{},\"complete\":{},\"pruned\":{},\"closed\":{},\"replayed\":{},\"padded\":{},\"mismatch\":{},\"granted\":{},\"refused\":{},\"wraps\":{},\"other\":{},\"othernames\":{},\"known\":{},\"known_text\":{},\"viol\":{},\"kinds\":{},\"path\":{},\"msg\":{},\"text\":{},\"samples\":[{}],\"secs\":{:.2}}}",
        r.states, r.transitions, r.depth, r.complete, r.pruned, r.drained, r.replayed, r.padded, r.mismatch, r.granted, r.refused, r.wraps, r.other, jstr(&dnames(r.other & 0x7fffffff)), r.known, jstr(&r.known_text), r.viol.is_some(), jstr(&vk), jstr(&vp), jstr(&vm), jstr(&vt),
        r.samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64());
}
