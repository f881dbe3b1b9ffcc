#![allow(static_mut_refs)]
//! ring <key=value>...   see core/src/ring.rs
use mc::ring::*;
use mc::rt::{self, cc};
use mutringbuf::iterators::{ConsIter, ProdIter, WorkIter};
use mutringbuf::*;
use std::collections::HashMap;

#[global_allocator]
static A: rt::Alloc = rt::Alloc;

fn main() {
    rt::start();
    let mut a: HashMap<String, String> = HashMap::new();
    for x in std::env::args().skip(1) { if let Some((k, v)) = x.split_once('=') { a.insert(k.into(), v.into()); } }
    let g = |k: &str, d: &str| a.get(k).cloned().unwrap_or(d.to_string());
    let mut out = Out { only: a.get("only").map(|s| s.replace('_', " ").replace('~', "_")), mask: g("mask", "").split(',').filter(|x| !x.is_empty()).map(|x| x.into()).collect(), ..Default::default() };
    let o = &mut out;
    unsafe { rt::rt_mode(1); rt::rt_reset(); }
    #[cfg(feature = "vmem")]
    unsafe { rt::rt_track_maps(1); let fp: i64 = g("page", "0").parse().unwrap(); if fp != 0 { rt::rt_fake_page(fp); } }
    let t0 = std::time::Instant::now();
    let range = |s: String| -> Vec<usize> { s.split(',').flat_map(|x| match x.split_once('-') { Some((a, b)) => (a.parse().unwrap()..=b.parse().unwrap()).collect::<Vec<usize>>(), None => vec![x.parse().unwrap()] }).collect() };
    match g("mode", "windows").as_str() {
        "ctor" => {
            let ns = range(g("n", "0-64"));
            #[cfg(all(feature = "alloc", not(feature = "vmem")))]
            k_h::ctors(o, &ns, |n| n, false);
            #[cfg(feature = "vmem")]
            {
                let page: usize = g("page", "4096").parse().unwrap();
                for n in 0..=4 * page {
                    if o.skip(format!("get_page_size_mul({n})")) { continue; }
                    let m = cc(|| mutringbuf::vmem_helper::get_page_size_mul(n)).unwrap_or(usize::MAX);
                    o.calls += 1;
                    if m != n.div_ceil(page) * page { o.bad("buffer-length", format!("get_page_size_mul({n}) = {m} with pages of {page}")); break; }
                }
                // the memory object behind the two views is given back too: building buffers does not pile up descriptors
                if !o.skip("descriptors".into()) {
                    let mut n = [0; 4];
                    unsafe { rt::rt_reset(); }
                    for k in &mut n {
                        for m in [1usize, page, 3 * page] { let _ = cc(|| { let (mut p, mut c) = ConcurrentHeapRB::<u32>::default(m).split(); let _ = p.push(1); let _ = c.pop(); }); o.calls += 4; }
                        *k = unsafe { rt::rt_nfds() };
                    }
                    unsafe { rt::PANICKED = false; }
                    if n[3] > n[1] { o.bad("leak", format!("{} file descriptor(s) are left behind by each buffer", (n[3] - n[1] + 5) / 6)); }
                    o.states += 1;
                }
                k_h::ctors(o, &ns, |n| n.div_ceil(page) * page, true);
            }
            #[cfg(not(feature = "vmem"))]
            for f in [k_s0::ctors, k_s1::ctors, k_s2::ctors, k_s3::ctors, k_s4::ctors, k_s5::ctors] { if !o.stop() { f(o); } }
        }
        "units" => {
            let _lens = range(g("len", "1-9"));
            #[cfg(feature = "alloc")]
            for &len in &_lens { for w3 in [false, true] {
                macro_rules! h { ($B:ident) => { if !o.stop() { let tag = format!("{}<()> len={len}{}", stringify!($B), if w3 { " worker" } else { "" });
                    if w3 { units::<$B<()>, true>(o, &tag, len, || cc(|| $B::<()>::from(vec![(); len]).split_mut()).map(|(p, w, c)| (p, Some(w), c))) } else { units::<$B<()>, false>(o, &tag, len, || cc(|| $B::<()>::from(vec![(); len]).split()).map(|(p, c)| (p, None, c))) } } } }
                h!(ConcurrentHeapRB); h!(LocalHeapRB);
            } }
            #[cfg(not(feature = "vmem"))]
            for w3 in [false, true] {
                macro_rules! k { ($B:ident $($N:literal)*) => { $( if !o.stop() { let tag = format!("{}<(), {}>{}", stringify!($B), $N, if w3 { " worker" } else { "" });
                    let mk = || -> Option<&'static mut $B<(), $N>> { cc(|| $B::<(), $N>::from([(); $N])).map(|b| unsafe { let q = rt::rt_alloc(std::mem::size_of::<$B<(), $N>>() as u64, std::mem::align_of::<$B<(), $N>>() as u64, 2) as *mut $B<(), $N>; std::ptr::write(q, b); &mut *q }) };
                    if w3 { units::<$B<(), $N>, true>(o, &tag, $N, || { let b = mk()?; cc(|| b.split_mut()).map(|(p, w, c)| (p, Some(w), c)) }) } else { units::<$B<(), $N>, false>(o, &tag, $N, || { let b = mk()?; cc(|| b.split()).map(|(p, c)| (p, None, c)) }) } } )* } }
                k!(ConcurrentStackRB 1 2 3 5); k!(LocalStackRB 1 2 3 5);
            }
        }
        _ => {
            let lens = range(g("len", "2-20"));
            let sizes = range(g("size", "4"));
            let band: usize = g("band", "20").parse().unwrap();
            for v in g("v", "CH").split(',') { for &len in &lens { for &sz in &sizes { for w3 in [false, true] {
                if o.stop() { continue; }
                let tag = format!("{v} len={len} item={sz}B{}", if w3 { " worker" } else { "" });
                if let Some(x) = &o.only { if !x.starts_with(&(tag.clone() + " i=")) { continue; } }
                let _ = r_ch::win(o, v, &tag, len, sz, w3, band).or_else(|| r_ch2::win(o, v, &tag, len, sz, w3, band)).or_else(|| r_ch3::win(o, v, &tag, len, sz, w3, band)).or_else(|| r_ch4::win(o, v, &tag, len, sz, w3, band))
                    .or_else(|| r_lh::win(o, v, &tag, len, sz, w3, band)).or_else(|| r_cs::win(o, v, &tag, len, sz, w3, band)).or_else(|| r_ls::win(o, v, &tag, len, sz, w3, band)).or_else(|| r_cs2::win(o, v, &tag, len, sz, w3, band)).or_else(|| r_ls2::win(o, v, &tag, len, sz, w3, band));
            } } } }
        }
    }
    o.complete = o.viol.is_empty();
    if o.only.is_none() && o.states == 0 && o.viol.is_empty() { println!("nothing explored: no such instantiation"); std::process::exit(3); }
    if o.only.is_some() {
        for (k, _, m) in &o.viol { println!("{k}: {m}"); }
        println!("REPLAY kinds={} hit={}", o.viol.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join("+"), !o.viol.is_empty());
        std::process::exit(if o.viol.is_empty() { 0 } else { 1 });
    }
    println!("{{\"states\":{},\"transitions\":{},\"windows\":{},\"wraps\":{},\"refused\":{},\"complete\":{},\"viol\":{},\"kinds\":{},\"path\":{},\"msg\":{},\"other\":{},\"samples\":[{}],\"secs\":{:.2}}}", o.states, o.calls, o.windows, o.wraps, o.refused, o.complete, !o.viol.is_empty(),
        js(&o.viol.iter().map(|v| v.0.clone()).collect::<Vec<_>>().join("+")), js(&o.viol.first().map(|v| v.1.replace('_', "~").replace(' ', "_")).unwrap_or_default()), js(&o.viol.first().map(|v| v.2.clone()).unwrap_or_default()),
        js(&o.other.iter().cloned().collect::<Vec<_>>().join("+")), o.samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), t0.elapsed().as_secs_f64());
}
