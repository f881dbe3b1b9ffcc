#!/usr/bin/env python3
# writes the instantiation crates (one per variant and item, so that they compile in parallel); run by hand
import os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
def crate(name, body):
    os.makedirs(f'inst/{name}/src', exist_ok=True)
    open(f'inst/{name}/Cargo.toml','w').write(f'''[package]
name = "{name}"
version = "0.1.0"
edition = "2021"

[features]
alloc = ["mc/alloc"]
vmem = ["alloc", "mc/vmem"]

[dependencies]
mc = {{ path = "../../core" }}
mutringbuf = {{ path = "/repo", default-features = false, features = ["async"] }}
''')
    open(f'inst/{name}/src/lib.rs','w').write('// generated by gen.py\n#![allow(unused, static_mut_refs)]\n'+body)
names=[]
def dut(name, kind, items, mk, lens=None, cfg=''):
    b='use mc::item::*;\nuse mc::sys::*;\n'
    arms=''
    for it,t,*c in items:
        pre = f'#[cfg({c[0]})] ' if c else ''
        if lens: arms += ''.join(f'        {pre}("{it}", {n}) => Some(stack::{mk}::<{t}, {n}>(cfg, mode)),\n' for n in lens)
        else: arms += f'        {pre}("{it}", _) => Some(heap::{mk}::<{t}>(cfg, mode)),\n'
    b+=f'''pub fn get(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {{
    #[cfg({cfg})]
    if kind == "{kind}" {{ return match (item, cfg.len) {{
{arms}        _ => None,
    }}; }}
    None
}}
'''
    crate(name,b); names.append(name)
V='not(feature = "vmem")'
for k,l,mk in (('CH','ch','mk_conc'),('LH','lh','mk_local')):
    dut(f'i_{l}_c',k,[('cp3','Cp<3>'),('cpa','CpA'),('cpv','Cp<4096>','feature = "vmem"')],mk,cfg='feature = "alloc"')
    dut(f'i_{l}_e',k,[('cp1','Cp<1>'),('cp16','Cp<16>')],mk,cfg='feature = "alloc"')
    dut(f'i_{l}_d',k,[('dr8','Dr<0>'),('dr24','Dr<2>'),('drv','Dr<511>','feature = "vmem"')],mk,cfg='feature = "alloc"')
dut('i_ch_s','CH',[('ds5','Ds<u8, 5>'),('ds12','Ds<u32, 12>'),('ds24','Ds<u64, 24>'),('ds100','Ds<u8, 100>'),('ds320','Ds<u64, 320>'),('ds1100','Ds<u32, 1100>'),('ds4k','Ds<u64, 4104>')],'mk_conc',cfg='feature = "alloc"')
dut('i_lh_s','LH',[('ds12','Ds<u32, 12>')],'mk_local',cfg='feature = "alloc"')
dut('i_cs_s','CS',[('ds12','Ds<u32, 12>'),('ds24','Ds<u64, 24>')],'mk_conc',[3],V)
for k,l,mk in (('CS','cs','mk_conc'),('LS','ls','mk_local'),('BS','bs','mk_boxed')):
    dut(f'i_{l}_c',k,[('cp3','Cp<3>')],mk,[1,2,3,4,5],V)
    dut(f'i_{l}_d',k,[('dr8','Dr<0>')],mk,[2,3,4],V)
    if l != 'bs': dut(f'i_{l}_e',k,[('cp1','Cp<1>'),('cp16','Cp<16>')],mk,[3,5],V)
def ringh(name, kind, B, sizes, vs, vv=None):
    arms=lambda s: ''.join(f'{n} => Some(heap!({ {640: "Al64"}.get(n, f"By<{n}>")})), ' for n in s)
    crate(name, f'''use mc::ring::*;
use mc::rt::cc;
#[cfg(feature = "alloc")]
use mutringbuf::{{{B} as Q, HeapSplit}};
pub fn win(o: &mut Out, v: &str, tag: &str, len: usize, sz: usize, w3: bool, band: usize) -> Option<()> {{
    if v != "{kind}" {{ return None; }}
    #[cfg(feature = "alloc")] {{
    macro_rules! heap {{ ($S:ty) => {{ {{ type T = $S;
        let mk = || {{ let v = cc(|| (0..len).map(|i| T::mk(900 + i as u64)).collect::<Vec<T>>())?; cc(|| Q::<T>::from(v)) }};
        if w3 {{ explore::<Q<T>, T, true>(o, tag, len, band, || {{ let b = mk()?; cc(|| b.split_mut()).map(|(p, w, c)| (p, Some(w), c)) }}) }} else {{ explore::<Q<T>, T, false>(o, tag, len, band, || {{ let b = mk()?; cc(|| b.split()).map(|(p, c)| (p, None, c)) }}) }} }} }} }}
    #[cfg(not(feature = "vmem"))]
    return match sz {{ {arms(sizes)}_ => None }};
    #[cfg(feature = "vmem")]
    return match sz {{ {arms(vs)}_ => None }};
    }}
    #[allow(unreachable_code)] None
}}
'''); rn.append(name)
rn=[]
ringh('r_ch','CH','ConcurrentHeapRB',[1,4],[1,2,3,4])
ringh('r_ch2','CH','ConcurrentHeapRB',[16,2],[5,6,7,8])
ringh('r_ch3','CH','ConcurrentHeapRB',[3,8,640],[9,10,11,12])
ringh('r_ch4','CH','ConcurrentHeapRB',[64,12],[13,14,15,16])
ringh('r_lh','LH','LocalHeapRB',[4,16,1,640],[1,7,8,16])
SK=[[(4,[2,3,5,7,8,13,16])],[(1,[2,3,5,8,17]),(12,[3,4]),(4,[256,257])]]
for kind,B,nm in (('CS','ConcurrentStackRB','r_cs'),('LS','LocalStackRB','r_ls')):
  for j,sk in enumerate(SK):
    name=nm+(str(j+1) if j else '')
    crate(name, f'''#[cfg(not(feature = "vmem"))]
mod m {{
use mc::ring::*;
use mc::rt::{{self, cc}};
use mutringbuf::{{{B}, StackSplit}};
pub fn win(o: &mut Out, v: &str, tag: &str, len: usize, sz: usize, w3: bool, band: usize) -> Option<()> {{
    if v != "{kind}" {{ return None; }}
    macro_rules! stk {{ ($($S:literal $N:literal,)*) => {{ match (sz, len) {{ $(($S, $N) => {{ type T = By<$S>; type Q = {B}<T, $N>;
        let mk = || -> Option<&'static mut Q> {{ cc(|| {{ let a: [T; $N] = std::array::from_fn(|i| T::mk(900 + i as u64)); let b: Q = a.into(); b }}).map(|b| unsafe {{ let q = rt::rt_alloc(std::mem::size_of::<Q>() as u64, std::mem::align_of::<Q>() as u64, 2) as *mut Q; std::ptr::write(q, b); &mut *q }}) }};
        if w3 {{ explore::<Q, T, true>(o, tag, len, band, || {{ let b = mk()?; cc(|| b.split_mut()).map(|(p, w, c)| (p, Some(w), c)) }}) }} else {{ explore::<Q, T, false>(o, tag, len, band, || {{ let b = mk()?; cc(|| b.split()).map(|(p, c)| (p, None, c)) }}) }} }})* _ => return None }} }} }}
    stk!({' '.join(f'{z} {n},' for z,l in sk for n in l)});
    Some(())
}}
}}
#[cfg(not(feature = "vmem"))]
pub use m::win;
#[cfg(feature = "vmem")]
pub fn win(_: &mut mc::ring::Out, _: &str, _: &str, _: usize, _: usize, _: bool, _: usize) -> Option<()> {{ None }}
'''); rn.append(name)
HEAPC='''use mc::ring::*;
use mc::rt::{self, cc};
use mutringbuf::*;
#[cfg(feature = "alloc")]
macro_rules! heap_ctor { ($o:ident, $v:expr, $B:ident, $T:ty, $ctor:expr, $n:expr, $len:expr, $init:expr, $mk:expr) => { for w3 in [false, true] {
    let (n, len): (usize, usize) = ($n, $len);
    let tag = format!("{}{}::{}({n}){}", $v, if <$T as Cv>::TINY { "<u8>" } else { "" }, $ctor, if w3 { " split_mut" } else { " split" });
    if $o.skip(tag.clone()) { continue; }
    begin();
    let b: Option<$B<$T>> = $mk;
    unsafe { rt::PANICKED = false; }
    match b {
        None => if n != 0 { let m = unsafe { rt::PANIC_MSG.take().unwrap_or_default() }; $o.bad("constructor", format!("{tag}: panics: {m}")); } else { $o.states += 1; },
        Some(b) => if n == 0 { $o.bad("constructor", format!("{tag}: no panic")); std::mem::forget(b); } else if w3 {
            let Some((mut p, mut w, mut c)) = cc(|| b.split_mut()) else { $o.bad("panic", format!("{tag}: split panics")); return };
            session($o, &tag, len, $init, &mut p, Some(&mut w), &mut c);
            if $o.stop() { return; }
            cc(|| drop(w)); cc(|| drop(p)); cc(|| drop(c));
        } else {
            let Some((mut p, mut c)) = cc(|| b.split()) else { $o.bad("panic", format!("{tag}: split panics")); return };
            session($o, &tag, len, $init, &mut p, None, &mut c);
            if $o.stop() { return; }
            cc(|| drop(c)); cc(|| drop(p));
        }
    }
    // (a constructor that panics on purpose may leave its arguments behind)
    if n != 0 { end($o, &tag); }
    if $o.stop() { return; }
    if $o.samples.len() < 6 && n % 7 == 5 { $o.samples.push(tag); }
} } }
#[cfg(feature = "alloc")]
fn items<T: Cv>(n: usize, extra: usize) -> Vec<T> { cc(|| { let mut v = Vec::with_capacity(n + extra); for i in 0..n { v.push(T::mk(100 + i as u32)); } v }).unwrap() }
#[cfg(feature = "alloc")]
pub fn ctors(o: &mut Out, ns: &[usize], round: impl Fn(usize) -> usize, vmem: bool) {
    macro_rules! both { ($T:ty) => { for &n in ns {
        let len = round(n);
        if !vmem || n == len { for extra in [0usize, 1, 7] { if extra != 0 && vmem { continue; }
            heap_ctor!(o, "ConcurrentHeapRB", ConcurrentHeapRB, $T, format!("from(vec, spare {extra})"), n, len, Init::Items, { let v = items::<$T>(n, extra); cc(|| ConcurrentHeapRB::<$T>::from(v)) });
            heap_ctor!(o, "LocalHeapRB", LocalHeapRB, $T, format!("from(vec, spare {extra})"), n, len, Init::Items, { let v = items::<$T>(n, extra); cc(|| LocalHeapRB::<$T>::from(v)) });
        } }
        heap_ctor!(o, "ConcurrentHeapRB", ConcurrentHeapRB, $T, "default", n, len, Init::Def, cc(|| ConcurrentHeapRB::<$T>::default(n)));
        heap_ctor!(o, "LocalHeapRB", LocalHeapRB, $T, "default", n, len, Init::Def, cc(|| LocalHeapRB::<$T>::default(n)));
        heap_ctor!(o, "ConcurrentHeapRB", ConcurrentHeapRB, $T, "new_zeroed", n, len, Init::Zero, cc(|| unsafe { ConcurrentHeapRB::<$T>::new_zeroed(n) }));
        heap_ctor!(o, "LocalHeapRB", LocalHeapRB, $T, "new_zeroed", n, len, Init::Zero, cc(|| unsafe { LocalHeapRB::<$T>::new_zeroed(n) }));
    } } }
    both!(Tr);
    if !vmem { both!(Cc); both!(Cb); }
}
'''
crate('k_h',HEAPC); rn.append('k_h')
NS=[[0,64,12,13],[1,63,10],[2,48,11,9],[3,33,8],[4,32,7,24],[5,31,6,15,16,17]]
for i,ns in enumerate(NS):
    crate(f'k_s{i}', """#[cfg(not(feature = "vmem"))]
mod m {
use mc::ring::*;
use mutringbuf::*;
fn arr<T: Cv, const N: usize>() -> [T; N] { std::array::from_fn(|i| T::mk(100 + i as u32)) }
pub fn ctors(o: &mut Out) {
    macro_rules! n { ($($N:literal)*) => { $( {
        fn go(o: &mut Out) {
            stack_ctor::<ConcurrentStackRB<Tr, $N>, Tr>(o, "ConcurrentStackRB", "from(array)", $N, Init::Items, &|| ConcurrentStackRB::from(arr::<Tr, $N>()));
            stack_ctor::<ConcurrentStackRB<Tr, $N>, Tr>(o, "ConcurrentStackRB", "new_zeroed", $N, Init::Zero, &|| unsafe { ConcurrentStackRB::<Tr, $N>::new_zeroed() });
            stack_ctor::<ConcurrentStackRB<Cc, $N>, Cc>(o, "ConcurrentStackRB", "default", $N, Init::Def, &|| ConcurrentStackRB::<Cc, $N>::default());
            stack_ctor::<LocalStackRB<Tr, $N>, Tr>(o, "LocalStackRB", "from(array)", $N, Init::Items, &|| LocalStackRB::from(arr::<Tr, $N>()));
            stack_ctor::<LocalStackRB<Tr, $N>, Tr>(o, "LocalStackRB", "new_zeroed", $N, Init::Zero, &|| unsafe { LocalStackRB::<Tr, $N>::new_zeroed() });
            stack_ctor::<LocalStackRB<Cc, $N>, Cc>(o, "LocalStackRB", "default", $N, Init::Def, &|| LocalStackRB::<Cc, $N>::default());
            stack_ctor::<ConcurrentStackRB<Cb, $N>, Cb>(o, "ConcurrentStackRB<u8>", "from(array)", $N, Init::Items, &|| ConcurrentStackRB::from(arr::<Cb, $N>()));
            stack_ctor::<LocalStackRB<Cb, $N>, Cb>(o, "LocalStackRB<u8>", "default", $N, Init::Def, &|| LocalStackRB::<Cb, $N>::default());
        }
        go(o);
        if o.stop() { return; }
    } )* } }
    n!(LIST);
}
}
#[cfg(not(feature = "vmem"))]
pub use m::ctors;
""".replace('LIST',' '.join(map(str,ns)))); rn.append(f'k_s{i}')
feats=lambda f: ', '.join(f'"{n}/{f}"' for n in names+rn)
dep='\n'.join(f'{n} = {{ path = "inst/{n}", optional = true }}' for n in names+rn)
open('Cargo.toml','w').write(f'''# generated by gen.py
[workspace]

[package]
name = "mcbin"
version = "0.1.0"
edition = "2021"
autobins = false

[features]
alloc = ["mc/alloc", "mutringbuf/alloc", {', '.join(f'"{n}?/alloc"' for n in names+rn)}]
vmem = ["alloc", "mc/vmem", "mutringbuf/vmem", {', '.join(f'"{n}?/vmem"' for n in names+rn)}]
duts = [{', '.join(f'"dep:{n}"' for n in names)}]
rings = [{', '.join(f'"dep:{n}"' for n in rn)}]

[[bin]]
name = "seq"
path = "src/bin/seq.rs"
required-features = ["duts"]
[[bin]]
name = "conc"
path = "src/bin/conc.rs"
required-features = ["duts"]
[[bin]]
name = "ring"
path = "src/bin/ring.rs"
required-features = ["rings"]
[[bin]]
name = "types"
path = "src/bin/types.rs"

[dependencies]
mc = {{ path = "core" }}
mutringbuf = {{ path = "/repo", default-features = false, features = ["async"] }}
{dep}

[profile.release]
opt-level = 1
debug = 0
debug-assertions = false
overflow-checks = false
panic = "unwind"
codegen-units = 64
incremental = false
lto = "off"

[profile.release.package.mutringbuf]
overflow-checks = true
''')
open('src/variants.rs','w').write('// generated by gen.py\nuse mc::sys::*;\npub fn dut(kind: &str, item: &str, cfg: Cfg, mode: Mode) -> Option<Box<dyn Dut>> {\n    None'+''.join(f'.or_else(|| {n}::get(kind, item, cfg, mode))' for n in names)+'\n}\n')
print(names,rn)
