//! ring <key=value>...
//! Engine RING: exhaustive products over lengths, ring positions, request sizes and operations that the
//! state-space search (seq) keeps small: every window of rings of many lengths, element sizes and page layouts
//! (mode=windows), and every constructor x length x split (mode=ctor).
use crate::rt::{self, cc};
use mutringbuf::iterators::{ConsIter, ProdIter, WorkIter};
use mutringbuf::*;

pub fn js(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")) }

#[derive(Default)]
pub struct Out { pub states: u64, pub calls: u64, pub windows: u64, pub wraps: u64, pub refused: u64, pub viol: Vec<(String, String, String)>, pub mask: Vec<String>, pub other: std::collections::BTreeSet<String>, pub only: Option<String>, pub samples: Vec<String>, pub key: String, pub complete: bool }
impl Out {
    pub fn bad(&mut self, kind: &str, m: String) {
        if !self.mask.is_empty() && !self.mask.iter().any(|k| k == kind) { self.other.insert(kind.into()); return; }
        if self.viol.len() < 10 { self.viol.push((kind.into(), self.key.clone(), m)); }
    }
    /// is this kind of deviation one the property at hand is about?
    pub fn wants(&self, kind: &str) -> bool { self.mask.is_empty() || self.mask.iter().any(|k| k == kind) }
    pub fn stop(&self) -> bool { !self.viol.is_empty() }
    pub fn skip(&mut self, key: String) -> bool { self.key = key; if let Some(o) = &self.only { return *o != self.key; } false }
}

// ---------------------------------------------------------------- items
pub trait It: Copy + 'static { fn mk(x: u64) -> Self; fn edit(&mut self); const S: usize; }
#[derive(Clone, Copy, PartialEq)]
pub struct By<const S: usize>(pub [u8; S]);
impl<const S: usize> Default for By<S> { fn default() -> Self { By([0; S]) } }
pub fn mix(mut x: u64) -> u64 { x = x.wrapping_add(0x9E3779B97F4A7C15); x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB); x ^ (x >> 31) }
impl<const S: usize> It for By<S> {
    const S: usize = S;
    fn mk(x: u64) -> Self { let mut b = [0u8; S]; let h = mix(x).to_ne_bytes(); for i in 0..S { b[i] = h[i % 8] ^ (i / 8 * 91) as u8; } b[0] = (x % 251) as u8; By(b) }
    fn edit(&mut self) { for b in self.0.iter_mut() { *b = b.wrapping_mul(3) ^ 0xA5; } }
}

/// an item with more than the usual alignment
#[derive(Clone, Copy)]
#[repr(align(64))]
pub struct Al64(pub [u8; 64]);
impl It for Al64 {
    const S: usize = 64;
    fn mk(x: u64) -> Self { Al64(By::<64>::mk(x).0) }
    fn edit(&mut self) { for b in self.0.iter_mut() { *b = b.wrapping_mul(3) ^ 0xA5; } }
}

const WRITERS: [&str; 13] = ["push", "push_slice", "push_slice_clone", "push_slice_init", "push_slice_clone_init", "get_next_slices_mut", "get_workable_slice_exact", "push_init", "get_next_item_mut", "get_next_item_mut_init", "get_workable", "get_workable_slice_avail", "multiples"];
const EDITORS: [&str; 6] = ["none", "get_workable", "get_workable_slice_exact", "get_workable_slice_avail", "get_workable_slice_multiple_of", "multiples"];
const READERS: [&str; 13] = ["pop", "peek_ref", "peek_slice", "peek_available", "copy_slice", "clone_slice", "copy_item", "pop_move", "clone_item", "get_workable", "get_workable_slice_exact", "get_workable_slice_avail", "multiples"];
/// multipliers asked for with n slots available
fn mults(n: usize) -> Vec<usize> { let mut v: Vec<usize> = (1..=n.min(17) + 1).chain([24, 32, 48, 64, 100, 256, n / 3 + 1, n / 2, n / 2 + 1, n - n / 8, n.saturating_sub(1), n, n + 1, 2 * n, usize::MAX / 2 + 1, usize::MAX]).filter(|q| *q > 0).collect(); v.sort(); v.dedup(); v }

#[cfg(not(feature = "vmem"))]
pub fn segs_m<T>(s: (&mut [T], &mut [T])) -> [(*mut T, usize); 2] { [(s.0.as_mut_ptr(), s.0.len()), (s.1.as_mut_ptr(), s.1.len())] }
#[cfg(not(feature = "vmem"))]
pub fn segs_c<T>(s: (&[T], &[T])) -> [(*mut T, usize); 2] { [(s.0.as_ptr() as *mut T, s.0.len()), (s.1.as_ptr() as *mut T, s.1.len())] }
#[cfg(feature = "vmem")]
pub fn segs_m<T>(s: &mut [T]) -> [(*mut T, usize); 2] { [(s.as_mut_ptr(), s.len()), (std::ptr::null_mut(), 0)] }
#[cfg(feature = "vmem")]
pub fn segs_c<T>(s: &[T]) -> [(*mut T, usize); 2] { [(s.as_ptr() as *mut T, s.len()), (std::ptr::null_mut(), 0)] }

struct Ring<B: MutRB<Item = T> + 'static, T: It, const X: bool> { p: ProdIter<'static, B>, w: Option<WorkIter<'static, B>>, c: ConsIter<'static, B, X>, len: usize, base: *mut T, shadow: Vec<T>, pos: usize, ctr: u64 }

fn eq<T: It>(a: &T, b: &T) -> bool { unsafe { std::slice::from_raw_parts(a as *const T as *const u8, T::S) == std::slice::from_raw_parts(b as *const T as *const u8, T::S) } }

impl<B: MutRB<Item = T> + 'static, T: It, const X: bool> Ring<B, T, X> {
    /// judges a window granted for n slots at the current position
    fn window(&self, o: &mut Out, what: &str, n: usize, s: [(*mut T, usize); 2]) -> Option<Vec<*mut T>> {
        let (len, sz) = (self.len, T::S);
        let mut v = vec![];
        for (p, m) in s { for k in 0..m.min(4 * len) { v.push(unsafe { p.add(k) }); } }
        if v.len() != n { o.bad("slice-window", format!("{what}: {} slots instead of {n}", v.len())); return None; }
        let mirror = cfg!(feature = "vmem");
        for (k, q) in v.iter().enumerate() {
            let e = (self.pos + k) % len;
            let a = (*q as usize).wrapping_sub(self.base as usize);
            if *q as usize % std::mem::align_of::<T>() != 0 { o.bad("slice-window", format!("{what}: element {k} is not aligned")); return None; }
            if !(a == e * sz || (mirror && a == (e + len) * sz)) { o.bad("slice-window", format!("{what}: element {k} is at byte {} of the storage ({} slots of {sz}), ring position {e} expected", a as isize, len)); if o.wants("slice-window") || a % sz != 0 || a / sz >= len * if mirror { 2 } else { 1 } { return None; } }
        }
        if !mirror {
            let head = n.min(len - self.pos);
            if s[0].1 != head && n > 0 { o.bad("slice-window", format!("{what}: head of {} slots instead of {head}", s[0].1)); if o.wants("slice-window") { return None; } }
        }
        o.windows += 1;
        if self.pos + n > len { o.wraps += 1; }
        Some(v)
    }
    fn same(&self, o: &mut Out, what: &str, all: bool, n: usize) -> bool {
        let len = self.len;
        let lim = if all { len } else { (n + 4).min(len) };
        for k in 0..lim {
            let j = (self.pos + len - 2.min(len - 1) + k) % len;
            let x = unsafe { &*self.base.add(j) };
            if !eq(x, &self.shadow[j]) { o.bad("in-flight-contents", format!("{what}: slot {j} holds other data than the {} say(s)", "operations")); return !o.wants("in-flight-contents"); }
            if cfg!(feature = "vmem") {
                let y = unsafe { &*self.base.add(j + len) };
                if !eq(y, x) { o.bad("mirror", format!("{what}: slot {j} differs between the two views")); if o.wants("mirror") { return false; } }
            }
        }
        true
    }
    fn avail(&mut self, o: &mut Out, e: [usize; 3], what: &str) -> bool {
        let a = [cc(|| self.p.available()), self.w.as_mut().map(|w| cc(|| w.available())).unwrap_or(Some(e[1])), cc(|| self.c.available())];
        o.calls += 3;
        for i in 0..3 {
            let who = ["producer", "worker", "consumer"][i];
            match a[i] { None => { o.bad("panic", format!("{what}: {who}.available() panics")); return false; }
                Some(x) if x > e[i] => { o.bad("available-over-reports", format!("{what}: {who}.available() = {x}, {} expected", e[i])); if o.wants("available-over-reports") { return false; } }
                Some(x) if x < e[i] => { o.bad("available-under-reports", format!("{what}: {who}.available() = {x}, {} expected", e[i])); if o.wants("available-under-reports") { return false; } }
                _ => {} }
        }
        true
    }
    /// writes n items with `wr`, edits them with `ed`, reads them with `rd`; then moves on to come back to the same position
    fn round(&mut self, o: &mut Out, n: usize, wr: usize, ed: usize, rd: usize, all: bool) {
        let len = self.len;
        let what = format!("{} at {} for {n}", WRITERS[wr], self.pos);
        let data: Vec<T> = (0..n).map(|_| { self.ctr += 1; T::mk(self.ctr) }).collect();
        macro_rules! call { ($w:expr, $e:expr) => { { o.calls += 1; match cc(|| $e) { Some(r) => r, None => { let m = unsafe { rt::PANIC_MSG.take().unwrap_or_default() }; unsafe { rt::PANICKED = false; } o.bad("panic", format!("{}: {m}", $w)); return; } } } } }
        let cap = len - 1;
        // ---- requests beyond what is available have no effect
        macro_rules! refused { ($w:expr, $e:expr) => { { o.refused += 1; if call!($w, $e.is_some()) { o.bad("granted-beyond-available", format!("{}: granted", $w)); return; } } } }
        let big: Vec<T> = (0..cap + 1).map(|i| T::mk(i as u64)).collect();
        match wr {
            1 => refused!(format!("push_slice({}) with {cap} available", cap + 1), self.p.push_slice(&big)),
            2 => refused!(format!("push_slice_clone({})", cap + 1), self.p.push_slice_clone(&big)),
            3 => refused!(format!("push_slice_init({})", cap + 1), self.p.push_slice_init(&big)),
            4 => refused!(format!("push_slice_clone_init({})", cap + 1), self.p.push_slice_clone_init(&big)),
            5 => refused!(format!("get_next_slices_mut({})", cap + 1), unsafe { self.p.get_next_slices_mut(cap + 1) }),
            6 => refused!(format!("get_workable_slice_exact({})", cap + 1), self.p.get_workable_slice_exact(cap + 1)),
            _ => {}
        }
        // ---- write
        macro_rules! must { ($w:expr, $x:expr) => { match $x { Some(x) => x, None => { o.bad("satisfiable-request-refused", format!("{}: refused", $w)); return; } } } }
        match wr {
            0 | 7 => for d in &data { let d = *d; if !call!(&what, if wr == 0 { self.p.push(d).is_ok() } else { self.p.push_init(d).is_ok() }) { o.bad("satisfiable-request-refused", format!("{what}: refused")); return; } },
            1 => must!(what, call!(&what, self.p.push_slice(&data))),
            2 => must!(what, call!(&what, self.p.push_slice_clone(&data))),
            3 => must!(what, call!(&what, self.p.push_slice_init(&data))),
            4 => must!(what, call!(&what, self.p.push_slice_clone_init(&data))),
            5 | 6 => {
                let s = must!(what, call!(&what, if wr == 5 { unsafe { self.p.get_next_slices_mut(n) }.map(segs_m) } else { self.p.get_workable_slice_exact(n).map(segs_m) }));
                let Some(v) = self.window(o, &what, n, s) else { return };
                for (q, d) in v.iter().zip(&data) { unsafe { **q = *d; } }
                call!(&what, unsafe { self.p.advance(n) });
            }
            11 => {
                let s = must!(what, call!(&what, self.p.get_workable_slice_avail().map(segs_m)));
                let Some(v) = self.window(o, &what, cap, s) else { return };
                for (q, d) in v.iter().zip(&data) { unsafe { **q = *d; } }
                call!(&what, unsafe { self.p.advance(n) });
            }
            12 => {
                // n slots written through the biggest window that is a multiple of q, for every q
                for q in mults(cap) {
                    let what = format!("{what}, get_workable_slice_multiple_of({q})");
                    let m = cap - cap % q;
                    let s = call!(&what, self.p.get_workable_slice_multiple_of(q).map(segs_m));
                    if m == 0 { if s.is_some() { o.bad("granted-beyond-available", format!("{what}: granted with {cap} available")); return; } continue; }
                    let Some(v) = self.window(o, &what, m, must!(what, s)) else { return };
                    for (q, d) in v.iter().zip(&data) { unsafe { **q = *d; } }
                }
                call!(&what, unsafe { self.p.advance(n) });
            }
            _ => for d in &data { let q = must!(what, match wr { 8 => call!(&what, unsafe { self.p.get_next_item_mut() }.map(|r| r as *mut T)), 9 => call!(&what, self.p.get_next_item_mut_init()), _ => call!(&what, self.p.get_workable().map(|r| r as *mut T)) }); unsafe { *q = *d; } call!(&what, unsafe { self.p.advance(1) }); },
        }
        for (k, d) in data.iter().enumerate() { let j = (self.pos + k) % len; self.shadow[j] = *d; }
        if !self.same(o, &what, all, n) { return; }
        let w3 = self.w.is_some();
        if !self.avail(o, [cap - n, n, if w3 { 0 } else { n }], &what) { return; }
        // ---- edit
        if let Some(w) = self.w.as_mut() {
            let what = format!("{} at {} for {n}", EDITORS[ed], self.pos);
            macro_rules! edits { ($s:expr, $m:expr, $off:expr) => { { let s = must!(what, $s); let me = unsafe { &*(self as *const Self) }; let sv = self.pos; let vv = { self.pos = (sv + $off) % len; let v = me.window(o, &what, $m, s); self.pos = sv; v }; let Some(v) = vv else { return };
                for q in v { unsafe { (*q).edit(); } } } } }
            let wp = w as *mut WorkIter<'static, B>;
            let w = unsafe { &mut *wp };
            if n < cap && ed == 2 { refused!(format!("get_workable_slice_exact({})", n + 1), w.get_workable_slice_exact(n + 1)); }
            match ed {
                0 => { call!(&what, unsafe { w.advance(n) }); }
                1 => for k in 0..n { edits!(call!(&what, w.get_workable().map(|r| [(r as *mut T, 1), (std::ptr::null_mut(), 0)])), 1, k); call!(&what, unsafe { w.advance(1) }); },
                2 => { edits!(call!(&what, w.get_workable_slice_exact(n).map(segs_m)), n, 0); call!(&what, unsafe { w.advance(n) }); }
                5 => {
                    for q in mults(n) {
                        let what = format!("{what}, get_workable_slice_multiple_of({q})");
                        let m = n - n % q;
                        let s = call!(&what, w.get_workable_slice_multiple_of(q).map(segs_m));
                        if m == 0 { if s.is_some() { o.bad("granted-beyond-available", format!("{what}: granted with {n} available")); return; } continue; }
                        if unsafe { &*(self as *const Self) }.window(o, &what, m, must!(what, s)).is_none() { return; }
                    }
                    call!(&what, unsafe { w.advance(n) });
                }
                3 => { edits!(call!(&what, w.get_workable_slice_avail().map(segs_m)), n, 0); call!(&what, unsafe { w.advance(n) }); }
                _ => {
                    let q = n.min(3);
                    let m = n - n % q;
                    edits!(call!(&what, w.get_workable_slice_multiple_of(q).map(segs_m)), m, 0);
                    call!(&what, unsafe { w.advance(m) });
                    for k in m..n { edits!(call!(&what, w.get_workable().map(|r| [(r as *mut T, 1), (std::ptr::null_mut(), 0)])), 1, k); call!(&what, unsafe { w.advance(1) }); }
                }
            }
            if ed != 0 && ed != 5 { for k in 0..n { let j = (self.pos + k) % len; self.shadow[j].edit(); } }
            if !self.same(o, &what, all, n) { return; }
            if !self.avail(o, [cap - n, 0, n], &what) { return; }
        }
        // ---- read
        let what = format!("{} at {} for {n}", READERS[rd], self.pos);
        let exp: Vec<T> = (0..n).map(|k| self.shadow[(self.pos + k) % len]).collect();
        let mut dst: Vec<T> = vec![T::mk(77); n + 2];
        let mut got: Vec<T> = vec![];
        match rd {
            0 => for _ in 0..n { got.push(must!(what, call!(&what, self.c.pop()))); },
            7 => for _ in 0..n { got.push(must!(what, call!(&what, unsafe { self.c.pop_move() }))); },
            1 => for _ in 0..n { got.push(must!(what, call!(&what, self.c.peek_ref().copied()))); call!(&what, unsafe { self.c.advance(1) }); },
            6 => for k in 0..n { let d = &mut dst[k]; must!(what, call!(&what, self.c.copy_item(d))); got.push(dst[k]); },
            8 => for k in 0..n { let d = &mut dst[k]; must!(what, call!(&what, self.c.clone_item(d))); got.push(dst[k]); },
            9 => for _ in 0..n { got.push(must!(what, call!(&what, self.c.get_workable().map(|x| *x)))); call!(&what, unsafe { self.c.advance(1) }); },
            10 | 11 => {
                if rd == 10 { refused!(format!("get_workable_slice_exact({})", n + 1), self.c.get_workable_slice_exact(n + 1)); }
                let s = must!(what, call!(&what, if rd == 10 { self.c.get_workable_slice_exact(n) } else { self.c.get_workable_slice_avail() }.map(segs_m)));
                let Some(v) = self.window(o, &what, n, s) else { return };
                for q in v { got.push(unsafe { *q }); }
                call!(&what, unsafe { self.c.advance(n) });
            }
            12 => {
                for q in mults(n) {
                    let what = format!("{what}, get_workable_slice_multiple_of({q})");
                    let m = n - n % q;
                    let s = call!(&what, self.c.get_workable_slice_multiple_of(q).map(segs_m));
                    if m == 0 { if s.is_some() { o.bad("granted-beyond-available", format!("{what}: granted with {n} available")); return; } continue; }
                    let Some(v) = self.window(o, &what, m, must!(what, s)) else { return };
                    if q == 1 { for q in v { got.push(unsafe { *q }); } }
                }
                call!(&what, unsafe { self.c.advance(n) });
            }
            2 | 3 => {
                if rd == 2 { refused!(format!("peek_slice({})", n + 1), self.c.peek_slice(n + 1)); }
                let s = must!(what, call!(&what, if rd == 2 { self.c.peek_slice(n).map(segs_c) } else { self.c.peek_available().map(segs_c) }));
                let Some(v) = self.window(o, &what, n, s) else { return };
                for q in v { got.push(unsafe { *q }); }
                call!(&what, unsafe { self.c.advance(n) });
            }
            _ => {
                let mut big = vec![T::mk(77); n + 1];
                if rd == 4 { refused!(format!("copy_slice({})", n + 1), self.c.copy_slice(&mut big)); } else { refused!(format!("clone_slice({})", n + 1), self.c.clone_slice(&mut big)); }
                if big.iter().any(|x| !eq(x, &T::mk(77))) { o.bad("refused-request-had-effect", format!("{what}: destination written")); return; }
                let d = &mut dst[..n];
                must!(what, if rd == 4 { call!(&what, self.c.copy_slice(d)) } else { call!(&what, self.c.clone_slice(d)) });
                got.extend_from_slice(&dst[..n]);
            }
        }
        for k in 0..n { if !eq(&got[k], &exp[k]) { o.bad("consumer-value", format!("{what}: element {k} is not the item at ring position {}", (self.pos + k) % len)); return; } }
        for k in n..n + 2 { if !eq(&dst[k], &T::mk(77)) { o.bad("slice-window", format!("{what}: destination written beyond {n} items")); return; } }
        if rd == 7 { for k in 0..n { let j = (self.pos + k) % len; self.shadow[j] = unsafe { *self.base.add(j) }; } }
        if !self.same(o, &what, all, n) { return; }
        if !self.avail(o, [cap, 0, 0], &what) { return; }
        let i = (self.pos + n) % len;
        for (who, x) in [("producer", self.p.index()), ("consumer", self.c.index())] { if x != i { o.bad("index", format!("{what}: {who}.index() = {x} instead of {i}")); return; } }
        self.pos = i;
        let (nv, t) = unsafe { (rt::rt_nviol(), rt::rt_viol(0)) };
        if nv > 0 { let k = unsafe { (*t).kind }; o.bad(if k == rt::V_UAF { "use-after-free" } else { "out-of-bounds" }, format!("{}: access outside the storage", self.what(n, wr, ed, rd))); return; }
        o.states += 1;
    }
    fn what(&self, n: usize, wr: usize, ed: usize, rd: usize) -> String { format!("{} / {} / {} of {n}", WRITERS[wr], EDITORS[ed], READERS[rd]) }
    /// moves all iterators (nothing in flight) to ring position i
    fn go(&mut self, o: &mut Out, i: usize) {
        let mut d = (i + self.len - self.pos) % self.len;
        while d > 0 {
            let s = d.min(self.len - 1);
            let (p, w, c) = (&mut self.p, &mut self.w, &mut self.c);
            if cc(|| unsafe { p.advance(s); if let Some(w) = w { w.advance(s); } c.advance(s) }).is_none() { o.bad("panic", format!("advance({s}) panics")); return; }
            o.calls += 3;
            d -= s;
        }
        self.pos = i;
    }
}

pub fn explore<B: MutRB<Item = T> + 'static, T: It, const X: bool>(o: &mut Out, tag: &str, len: usize, band: usize, mk: impl Fn() -> Option<(ProdIter<'static, B>, Option<WorkIter<'static, B>>, ConsIter<'static, B, X>)>) {
    if len < 2 { return; }
    unsafe { rt::rt_reset(); }
    let Some((mut p, w, c)) = mk() else { o.bad("constructor", format!("{tag}: construction panics")); return };
    let Some(Some(base)) = cc(|| p.get_next_item_mut_init()) else { o.bad("satisfiable-request-refused", format!("{tag}: a fresh buffer gives no slot")); return };
    let shadow: Vec<T> = (0..len).map(|j| unsafe { *base.add(j) }).collect();
    let w3 = w.is_some();
    let mut r = Ring::<B, T, X> { p, w, c, len, base, shadow, pos: 0, ctr: 1 };
    let small = len <= 2 * band;
    let idx: Vec<usize> = if small { (0..len).collect() } else { (0..(band / 2).max(1)).chain(len / 2..len / 2 + 1).chain(len - band..len).collect() };
    for &i in &idx {
        let ns: Vec<usize> = if small { (1..len).collect() } else {
            let mut v: Vec<usize> = (1..=band).chain([len / 2]).chain(len - 1 - band / 2..len).collect();
            // windows ending around the physical end
            for e in 0..4usize { let x = (len - i + 2).saturating_sub(e); if x >= 1 && x < len { v.push(x); } }
            v.sort(); v.dedup(); v
        };
        for &n in &ns {
            let mut combos: Vec<(usize, usize, usize)> = (0..WRITERS.len()).map(|w| (w, 1, 0)).collect();
            if w3 { combos.extend((0..EDITORS.len()).map(|e| (1, e, 1))); }
            combos.extend((0..READERS.len()).map(|x| (1, 0, x)));
            let item = n <= 64 || small;
            for (wr, ed, rd) in combos {
                if !item && (matches!(wr, 0 | 7 | 8 | 9 | 10 | 12) || matches!(rd, 0 | 1 | 6 | 7 | 8 | 9 | 12) || matches!(ed, 1 | 5)) && n != len - 1 && (n != len / 2 || len > 600) { continue; }
                if o.skip(format!("{tag} i={i} n={n} {}", r.what(n, wr, ed, rd).replace(' ', ""))) { continue; }
                r.go(o, i);
                if o.only.is_some() { println!("  at ring position {i} of {len}: {}", r.what(n, wr, ed, rd)); }
                r.round(o, n, wr, ed, rd, small);
                if o.stop() { return; }
            }
            if !r.same(o, "after the rounds", true, 0) { return; }
        }
    }
    let Ring { p, w, c, .. } = r;
    if o.samples.len() < 4 { o.samples.push(format!("{tag}: {} ring positions, requests up to {}", idx.len(), len - 1)); }
    cc(|| drop(p)); cc(|| drop(w)); cc(|| drop(c));
    after(o, tag);
}
pub fn after(o: &mut Out, tag: &str) {
    unsafe {
        for i in 0..rt::rt_nviol() { let v = &*rt::rt_viol(i); o.bad(match v.kind { rt::V_UAF => "use-after-free", rt::V_DFREE => "double-free", rt::V_BADFREE => "bad-free", _ => "out-of-bounds" }, format!("{tag}: on drop")); }
        if rt::rt_live_blocks() != 0 { o.bad("leak", format!("{tag}: {} block(s) not released", rt::rt_live_blocks())); }
        if rt::rt_nregions() != 0 { o.bad("leak", format!("{tag}: {} mapping(s) left after the buffer was dropped", rt::rt_nregions())); }
        if rt::rt_munmap_bad() != 0 { o.bad("bad-free", format!("{tag}: unmaps memory it did not map")); }
    }
}


// ---------------------------------------------------------------- items without a size
/// a ring of `()` counts: every position x number in flight x request; only numbers can be observed
pub fn units<B: MutRB<Item = ()> + 'static, const X: bool>(o: &mut Out, tag: &str, len: usize, mk: impl Fn() -> Option<(ProdIter<'static, B>, Option<WorkIter<'static, B>>, ConsIter<'static, B, X>)>) {
    let big = len > 40;
    let at: Vec<usize> = if big { vec![0, 1, len / 2, len - 2, len - 1] } else { (0..len).collect() };
    let us = vec![(); len + 1];
    for &i in &at { for &f in &at { if f >= len { continue; }
        let key = format!("{tag} i={i} f={f}");
        if o.skip(key.clone()) { continue; }
        if let Some(x) = &o.only { if *x != key { continue; } }
        unsafe { rt::rt_reset(); }
        let Some((mut p, mut w, mut c)) = mk() else { o.bad("constructor", format!("{tag}: construction panics")); return };
        macro_rules! call { ($w:expr, $e:expr) => { { o.calls += 1; match cc(|| $e) { Some(r) => r, None => { let m = unsafe { rt::PANIC_MSG.take().unwrap_or_default() }; unsafe { rt::PANICKED = false; } o.bad("panic", format!("{key}: {} panics: {m}", $w)); return; } } } } }
        macro_rules! adv { ($n:expr) => { { let mut d = $n; while d > 0 { let s = d.min(len - 1).min(len); if len == 1 { break; } call!("advance", unsafe { p.advance(s); if let Some(w) = w.as_mut() { w.advance(s); } c.advance(s) }); d -= s; } } } }
        adv!(i);
        if len == 1 && i > 0 { continue; }
        call!("advance", unsafe { p.advance(f); if let Some(w) = w.as_mut() { w.advance(f); } });
        let (free, used) = (len - 1 - f, f);
        let pi = (i + f) % len;
        let seg = |n: usize, at: usize| -> (usize, usize) { if cfg!(feature = "vmem") { (n, 0) } else { let h = n.min(len - at); (h, n - h) } };
        macro_rules! is { ($w:expr, $g:expr, $e:expr) => { { let (g, e) = (call!($w, $g), $e); if g != e { let k = if format!("{g:?}").contains("None") || format!("{g:?}") == "false" { "satisfiable-request-refused" } else if format!("{e:?}").contains("None") || format!("{e:?}") == "false" { "granted-beyond-available" } else { "slice-window" }; o.bad(k, format!("{key}: {} gives {g:?} instead of {e:?}", $w)); return; } } } }
        macro_rules! av { ($w:expr, $p:expr, $c:expr) => { { let (a, b) = (call!("available", p.available()), call!("available", c.available())); if (a, b) != ($p, $c) { o.bad(if a > $p || b > $c { "available-over-reports" } else { "available-under-reports" }, format!("{key}: after {} producer and consumer have {a} and {b} available instead of {} and {}", $w, $p, $c)); return; } } } }
        macro_rules! sm { ($e:expr) => { $e.map(|s| { let [a, b] = segs_m(s); (a.1, b.1) }) } }
        macro_rules! sc { ($e:expr) => { $e.map(|s| { let [a, b] = segs_c(s); (a.1, b.1) }) } }
        av!("moving there", free, used);
        let ns = |m: usize| -> Vec<usize> { if big { vec![1, 2, m / 2, m.saturating_sub(1), m, m + 1, len] } else { (1..=len).collect() }.into_iter().filter(|n| *n > 0 && *n <= len).collect() };
        for n in ns(free) {
            let g = n <= free;
            let e = g.then(|| seg(n, pi));
            is!(format!("get_next_slices_mut({n})"), sm!(unsafe { p.get_next_slices_mut(n) }), e);
            is!(format!("get_workable_slice_exact({n})"), sm!(p.get_workable_slice_exact(n)), e);
            let m = free - free % n;
            is!(format!("get_workable_slice_multiple_of({n})"), sm!(p.get_workable_slice_multiple_of(n)), (m > 0).then(|| seg(m, pi)));
            for k in 0..4 {
                let w_ = ["push_slice", "push_slice_init", "push_slice_clone", "push_slice_clone_init"][k];
                is!(format!("{w_}({n})"), match k { 0 => p.push_slice(&us[..n]), 1 => p.push_slice_init(&us[..n]), 2 => p.push_slice_clone(&us[..n]), _ => p.push_slice_clone_init(&us[..n]) }.is_some(), g);
                if g {
                    if let Some(w) = w.as_mut() { is!("worker.available()", w.available(), n); is!(format!("worker.get_workable_slice_exact({n})"), sm!(w.get_workable_slice_exact(n)), Some(seg(n, pi))); call!("advance", unsafe { w.advance(n) }); }
                    av!(format!("{w_}({n})"), free - n, used + n);
                    // and back to where it was, all the way round
                    call!("advance", unsafe { c.advance(used + n) });
                    adv!(2 * len - used - n);
                    call!("advance", unsafe { p.advance(f); if let Some(w) = w.as_mut() { w.advance(f); } });
                    av!("coming back", free, used);
                }
            }
        }
        is!("get_workable_slice_avail()", sm!(p.get_workable_slice_avail()), (free > 0).then(|| seg(free, pi)));
        is!("get_next_item_mut()", unsafe { p.get_next_item_mut() }.is_some(), free > 0);
        is!("get_next_item_mut_init()", p.get_next_item_mut_init().is_some(), free > 0);
        for n in ns(used) {
            let g = n <= used;
            is!(format!("peek_slice({n})"), sc!(c.peek_slice(n)), g.then(|| seg(n, i)));
            is!(format!("consumer.get_workable_slice_exact({n})"), sm!(c.get_workable_slice_exact(n)), g.then(|| seg(n, i)));
            let mut d = vec![(); n];
            if !g { is!(format!("copy_slice({n})"), c.copy_slice(&mut d).is_some(), false); is!(format!("clone_slice({n})"), c.clone_slice(&mut d).is_some(), false); }
        }
        is!("peek_available()", if used > 0 { sc!(c.peek_available()) } else { None }, (used > 0).then(|| seg(used, i)));
        // item by item until full, then until empty
        for k in free..0 { let _ = k; }
        for k in 0..free.min(50) { is!("push", if k % 2 == 0 { p.push(()).is_ok() } else { p.push_init(()).is_ok() }, true); }
        if free <= 50 { is!("push into the full ring", p.push(()).is_ok(), false); is!("push_init into the full ring", p.push_init(()).is_ok(), false); }
        let t = used + free.min(50);
        if let Some(w) = w.as_mut() { for _ in 0..free.min(50) { is!("get_workable()", w.get_workable().is_some(), true); call!("advance", unsafe { w.advance(1) }); } is!("get_workable()", w.get_workable().is_some(), false); }
        av!("the pushes", free - free.min(50), t);
        let mut left = t;
        let mut d = ();
        for k in 0..t.min(60) { is!("taking an item", match k % 5 { 0 => c.pop().is_some(), 1 => unsafe { c.pop_move() }.is_some(), 2 => c.copy_item(&mut d).is_some(), 3 => c.clone_item(&mut d).is_some(), _ => { let r = c.peek_ref().is_some(); if r { unsafe { c.advance(1) } } r } }, true); left -= 1; }
        let h = left / 2;
        if h > 0 { is!(format!("copy_slice({h})"), c.copy_slice(&mut vec![(); h]).is_some(), true); left -= h; }
        if left > 0 { is!(format!("clone_slice({left})"), c.clone_slice(&mut vec![(); left]).is_some(), true); }
        is!("taking from the empty ring", c.pop().is_some() || unsafe { c.pop_move() }.is_some() || c.copy_item(&mut d).is_some() || c.clone_item(&mut d).is_some() || c.peek_ref().is_some(), false);
        av!("the pops", len - 1, 0);
        let x = (i + t) % len;
        for (who, g) in [("producer", call!("index", p.index())), ("consumer", call!("index", c.index()))] { if g != x { o.bad("index", format!("{key}: {who}.index() = {g} instead of {x}")); return; } }
        cc(|| drop(w)); cc(|| drop(p)); cc(|| drop(c));
        after(o, &key);
        if o.stop() { return; }
        o.states += 1;
    } }
    if o.samples.len() < 4 { o.samples.push(format!("{tag}: {} positions x numbers in flight", at.len() * at.len())); }
}

// ---------------------------------------------------------------- constructors
pub static mut LIVE: Vec<i32> = vec![];
pub static mut EV: u32 = 0;
/// non-zero, owned
pub struct Tr { pub id: u32, pub can: u32 }
impl Tr { fn new(id: u32) -> Tr { unsafe { #[allow(static_mut_refs)] { if LIVE.len() <= id as usize { rt::rt_call_save(|| LIVE.resize(id as usize + 1, 0)); } LIVE[id as usize] += 1; } } Tr { id, can: !id } } fn ok(&self) -> bool { self.id != 0 && self.can == !self.id } }
impl Drop for Tr { fn drop(&mut self) { unsafe { #[allow(static_mut_refs)] if self.ok() && (self.id as usize) < LIVE.len() { LIVE[self.id as usize] -= 1; if LIVE[self.id as usize] < 0 { EV |= 1; } } else { EV |= 2; } } } }
impl Clone for Tr { fn clone(&self) -> Tr { unsafe { if !self.ok() { EV |= 4; return Tr::new(DEF); } } Tr::new(self.id) } }
pub const DEF: u32 = 9;
impl Default for Tr { fn default() -> Tr { Tr::new(DEF) } }
/// Copy item for constructors that ask for Copy
#[derive(Clone, Copy)]
pub struct Cc { pub id: u32, pub can: u32 }
impl Default for Cc { fn default() -> Cc { Cc { id: DEF, can: !DEF } } }
pub trait Cv: 'static { fn mk(id: u32) -> Self; fn id(&self) -> u32; const OWNED: bool; const TINY: bool = false; fn n(id: u32) -> u32 { id } }
impl Cv for Tr { fn mk(id: u32) -> Tr { Tr::new(id) } fn id(&self) -> u32 { if self.ok() { self.id } else { 0 } } const OWNED: bool = true; }
impl Cv for Cc { fn mk(id: u32) -> Cc { Cc { id, can: !id } } fn id(&self) -> u32 { if self.can == !self.id { self.id } else { 0 } } const OWNED: bool = false; }

/// one byte
#[derive(Clone, Copy)]
pub struct Cb(pub u8);
impl Default for Cb { fn default() -> Cb { Cb(DEF as u8) } }
impl Cv for Cb { fn mk(id: u32) -> Cb { Cb(Cb::n(id) as u8) } fn id(&self) -> u32 { self.0 as u32 } const OWNED: bool = false; const TINY: bool = true; fn n(id: u32) -> u32 { id % 251 } }

#[derive(Clone, Copy, PartialEq)]
pub enum Init { Items, Def, Zero }

/// one session on a fresh buffer of `len` slots: sizes, contents, capacity, first results
pub fn session<B: MutRB<Item = T> + 'static, T: Cv, const X: bool>(o: &mut Out, tag: &str, len: usize, init: Init, p: &mut ProdIter<'static, B>, mut w: Option<&mut WorkIter<'static, B>>, c: &mut ConsIter<'static, B, X>) {
    macro_rules! call { ($e:expr) => { { o.calls += 1; match cc(|| $e) { Some(r) => r, None => { let m = unsafe { rt::PANIC_MSG.take().unwrap_or_default() }; o.bad("panic", format!("{tag}: {} panics: {m}", stringify!($e))); return; } } } } }
    macro_rules! chk { ($k:expr, $a:expr, $e:expr, $w:expr) => { { let (a, e) = ($a, $e); if a != e { o.bad($k, format!("{tag}: {} = {a} instead of {e}", $w)); return; } } } }
    chk!("buffer-length", call!(p.buf_len()), len, "producer.buf_len()");
    chk!("buffer-length", call!(c.buf_len()), len, "consumer.buf_len()");
    chk!("split-session", call!(p.available()), len - 1, "producer.available() right after the split");
    if let Some(w) = w.as_mut() { chk!("split-session", call!(w.available()), 0, "worker.available() right after the split"); chk!("buffer-length", call!(w.buf_len()), len, "worker.buf_len()"); }
    chk!("split-session", call!(c.available()), 0, "consumer.available() right after the split");
    if call!(c.peek_ref().is_some()) { o.bad("split-session", format!("{tag}: the consumer obtains an item nobody pushed")); return; }
    chk!("split-session", call!(p.index()), call!(c.index()), "producer and consumer start at");
    if len == 1 {
        // nothing fits
        let v = T::mk(1000);
        match call!(p.push_init(v)) { Ok(()) => { o.bad("granted-beyond-available", format!("{tag}: a push into a buffer of capacity 0 is accepted")); } Err(v) => drop(v) }
        o.states += 1;
        return;
    }
    // contents, slot by slot: the producer looks at them before anything is pushed
    if init != Init::Zero {
        for i in 0..len {
            let id = match call!(unsafe { p.get_next_item_mut() }.map(|x| x.id())) { Some(x) => x, None => { o.bad("satisfiable-request-refused", format!("{tag}: slot {i} is not given to the producer")); return; } };
            let e = if init == Init::Items { T::n(100 + i as u32) } else { DEF };
            if id != e { o.bad("constructor", format!("{tag}: slot {i} holds item {id} instead of {e}")); return; }
            call!(unsafe { p.advance(1) });
            if let Some(w) = w.as_mut() { call!(unsafe { w.advance(1) }); }
            call!(unsafe { c.advance(1) });
        }
    } else {
        for i in 0..len {
            let z = match call!(p.get_next_item_mut_init()) { Some(q) => unsafe { std::slice::from_raw_parts(q as *const u8, std::mem::size_of::<T>()).iter().all(|b| *b == 0) }, None => { o.bad("satisfiable-request-refused", format!("{tag}: slot {i} is not given to the producer")); return; } };
            if !z { o.bad("constructor", format!("{tag}: slot {i} of a zeroed buffer is not empty")); return; }
            call!(unsafe { p.advance(1) });
            if let Some(w) = w.as_mut() { call!(unsafe { w.advance(1) }); }
            call!(unsafe { c.advance(1) });
        }
    }
    // exactly len - 1 items fit
    for i in 0..len - 1 { let v = T::mk(1000 + i as u32); if let Err(v) = call!(p.push_init(v)) { drop(v); o.bad("satisfiable-request-refused", format!("{tag}: push {} of {} refused", i + 1, len - 1)); return; } }
    let v = T::mk(5000);
    match call!(p.push_init(v)) { Ok(()) => { o.bad("granted-beyond-available", format!("{tag}: {len} items accepted")); return; } Err(v) => { if v.id() != T::n(5000) { o.bad("refused-value-altered", format!("{tag}: refused push hands back {}", v.id())); } drop(v); } }
    if let Some(w) = w.as_mut() { chk!("split-session", call!(w.available()), len - 1, "worker.available()"); chk!("split-session", call!(c.available()), 0, "consumer.available() before the worker moved"); call!(unsafe { w.advance(len - 1) }); }
    for i in 0..len - 1 {
        match call!(c.peek_ref().map(|x| x.id())) { Some(x) if x == T::n(1000 + i as u32) => {} x => { o.bad("consumer-value", format!("{tag}: item {i} is {x:?} instead of {}", 1000 + i)); return; } }
        call!(unsafe { c.advance(1) });
    }
    chk!("split-session", call!(c.available()), 0, "consumer.available() of the drained buffer");
    chk!("split-session", call!(p.available()), len - 1, "producer.available() of the drained buffer");
    o.states += 1;
}
pub fn begin() { unsafe { rt::rt_reset(); EV = 0; #[allow(static_mut_refs)] LIVE.iter_mut().for_each(|x| *x = 0); rt::PANICKED = false; } }
pub fn end(o: &mut Out, tag: &str) {
    after(o, tag);
    unsafe {
        if EV & 1 != 0 { o.bad("destructor-ledger", format!("{tag}: a value is destroyed twice")); }
        if EV & 6 != 0 { o.bad("empty-slot-read-or-dropped", format!("{tag}: destructor or clone ran on an empty slot or garbage")); }
        #[allow(static_mut_refs)]
        if let Some(i) = LIVE.iter().position(|x| *x > 0) { o.bad("destructor-ledger", format!("{tag}: value {i} is never destroyed ({} object(s) left)", LIVE[i])); }
    }
}
#[cfg(not(feature = "vmem"))]
pub fn stack_ctor<B: MutRB<Item = T> + StackSplit<B> + 'static, T: Cv>(o: &mut Out, v: &str, ctor: &str, n: usize, init: Init, mk: &dyn Fn() -> B) {
    for w3 in [false, true] {
        let tag = format!("{v}::{ctor} of {n}{}", if w3 { " split_mut" } else { " split" });
        if o.skip(tag.clone()) { continue; }
        begin();
        let b = cc(|| Box::new(mk()));
        unsafe { rt::PANICKED = false; }
        let Some(b) = b else { if n != 0 { o.bad("constructor", format!("{tag}: panics")); return; } o.states += 1; continue };
        let q: *mut B = Box::into_raw(b);
        if n == 0 { o.bad("constructor", format!("{tag}: no panic")); return; }
        let r: &'static mut B = unsafe { &mut *q };
        if w3 {
            let Some((mut p, mut w, mut c)) = cc(|| r.split_mut()) else { o.bad("panic", format!("{tag}: split panics")); return };
            session(o, &tag, n, init, &mut p, Some(&mut w), &mut c);
            if o.stop() { return; }
            cc(|| drop((p, w, c)));
        } else {
            let Some((mut p, mut c)) = cc(|| r.split()) else { o.bad("panic", format!("{tag}: split panics")); return };
            session(o, &tag, n, init, &mut p, None, &mut c);
            if o.stop() { return; }
            cc(|| drop((p, c)));
        }
        // a second session on the drained buffer
        let r: &'static mut B = unsafe { &mut *q };
        let Some((mut p, mut c)) = cc(|| r.split()) else { o.bad("panic", format!("{tag}: second split panics")); return };
        let (pa, ca) = (cc(|| p.available()).unwrap_or(n), cc(|| c.available()).unwrap_or(n));
        if pa + ca != n - 1 || ca != 0 { o.bad("split-session", format!("{tag}: after all items were consumed and the buffer was split again, {pa} + {ca} are available")); return; }
        cc(|| drop((p, c)));
        cc(|| drop(unsafe { Box::from_raw(q) }));
        end(o, &tag);
        if o.stop() { return; }
    }
}
