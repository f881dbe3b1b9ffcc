//! The system under test: real buffer + real iterators (+ futures), all in arena memory.
use crate::item::*;
use crate::model::*;
use crate::rt::{self, cc};
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::{AsyncConsIter, AsyncDetached, AsyncProdIter, AsyncWorkIter, ConsIter, Detached, ProdIter, WorkIter};
use mutringbuf::{MRBIterator, MutRB};
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

pub type Segs<T> = [(*mut T, usize); 2];
pub enum Raw<T> { No, Ok, Val(T), Back(T), Segs(Segs<T>), Pending, Panic, Other }

#[cfg(not(feature = "vmem"))]
pub type WS<'a, T> = (&'a mut [T], &'a mut [T]);
#[cfg(not(feature = "vmem"))]
pub type NS<'a, T> = (&'a [T], &'a [T]);
#[cfg(feature = "vmem")]
pub type WS<'a, T> = &'a mut [T];
#[cfg(feature = "vmem")]
pub type NS<'a, T> = &'a [T];
#[cfg(not(feature = "vmem"))]
pub fn ws<T>(s: WS<T>) -> Segs<T> { [(s.0.as_mut_ptr(), s.0.len()), (s.1.as_mut_ptr(), s.1.len())] }
#[cfg(not(feature = "vmem"))]
pub fn ns<T>(s: NS<T>) -> Segs<T> { [(s.0.as_ptr() as *mut T, s.0.len()), (s.1.as_ptr() as *mut T, s.1.len())] }
#[cfg(feature = "vmem")]
pub fn ws<T>(s: WS<T>) -> Segs<T> { [(s.as_mut_ptr(), s.len()), (std::ptr::null_mut(), 0)] }
#[cfg(feature = "vmem")]
pub fn ns<T>(s: NS<T>) -> Segs<T> { [(s.as_ptr() as *mut T, s.len()), (std::ptr::null_mut(), 0)] }
fn one<T>(p: *mut T) -> Segs<T> { [(p, 1), (std::ptr::null_mut(), 0)] }
fn osegs<T>(o: Option<Segs<T>>) -> Raw<T> { match o { Some(s) => Raw::Segs(s), None => Raw::No } }
fn ounit<T>(o: Option<()>) -> Raw<T> { match o { Some(()) => Raw::Ok, None => Raw::No } }
fn oval<T>(o: Option<T>) -> Raw<T> { match o { Some(v) => Raw::Val(v), None => Raw::No } }
fn rpush<T>(o: Result<(), T>) -> Raw<T> { match o { Ok(()) => Raw::Ok, Err(v) => Raw::Back(v) } }

// ------------------------------------------------------------------ wakers: data pointer = byte in arena memory
unsafe fn wk_clone(p: *const ()) -> RawWaker { RawWaker::new(p, &WVT) }
unsafe fn wk_wake(p: *const ()) { *(p as *mut u8) = 1; }
unsafe fn wk_drop(_: *const ()) {}
static WVT: RawWakerVTable = RawWakerVTable::new(wk_clone, wk_wake, wk_wake, wk_drop);
pub fn mk_waker(p: *mut u8) -> Waker { unsafe { Waker::from_raw(RawWaker::new(p as *const (), &WVT)) } }

// ------------------------------------------------------------------ type-erased future in arena memory
#[cfg(not(feature = "vmem"))]
pub const FUTSZ: usize = 40;
#[cfg(feature = "vmem")]
pub const FUTSZ: usize = 600;
#[repr(C)]
pub struct FutSlot<T> {
    poll: Option<unsafe fn(*mut FutSlot<T>, &mut Context) -> Raw<T>>,
    drop: Option<unsafe fn(*mut u8)>,
    conv: usize,
    data: [u64; FUTSZ],
}
impl<T: 'static> FutSlot<T> {
    pub unsafe fn put<F: Future<Output = Option<O>>, O>(s: *mut Self, f: F, conv: fn(O) -> Raw<T>) {
        assert!(std::mem::size_of::<F>() <= FUTSZ * 8 && std::mem::align_of::<F>() <= 8);
        unsafe fn p<F: Future<Output = Option<O>>, O, T>(s: *mut FutSlot<T>, cx: &mut Context) -> Raw<T> {
            let f = Pin::new_unchecked(&mut *(&raw mut (*s).data as *mut F));
            let conv: fn(O) -> Raw<T> = std::mem::transmute((*s).conv);
            match cc(|| f.poll(cx)) {
                None => Raw::Panic,
                Some(Poll::Pending) => Raw::Pending,
                Some(Poll::Ready(Some(o))) => conv(o),
                Some(Poll::Ready(None)) => Raw::Other,
            }
        }
        unsafe fn d<F>(p: *mut u8) { std::ptr::drop_in_place(p as *mut F) }
        std::ptr::write_bytes(s as *mut u8, 0, std::mem::size_of::<Self>());
        std::ptr::write(&raw mut (*s).data as *mut F, f);
        (*s).conv = conv as usize;
        (*s).poll = Some(p::<F, O, T>);
        (*s).drop = Some(d::<F>);
    }
    pub unsafe fn put_unit<F: Future<Output = Option<()>>>(s: *mut Self, f: F) { Self::put(s, f, |_| Raw::Ok) }
    pub unsafe fn poll(s: *mut Self, cx: &mut Context) -> Raw<T> { ((*s).poll.unwrap())(s, cx) }
    pub unsafe fn dropf(s: *mut Self) {
        let d = (*s).drop.unwrap();
        cc(|| d(&raw mut (*s).data as *mut u8));
        std::ptr::write_bytes(s as *mut u8, 0, std::mem::size_of::<Self>());
    }
}

// ------------------------------------------------------------------ forms of an iterator
pub enum Form<I: MRBIterator, A: AsyncIterator<I = I>> { None, Plain(I), Det(Detached<I>), Async(A), ADet(AsyncDetached<A, A::B>) }
pub type PF<B> = Form<ProdIter<'static, B>, AsyncProdIter<'static, B>>;
pub type WF<B> = Form<WorkIter<'static, B>, AsyncWorkIter<'static, B>>;
pub type CF<B, const X: bool> = Form<ConsIter<'static, B, X>, AsyncConsIter<'static, B, X>>;

pub unsafe fn place<X>(p: *mut X, x: X) {
    std::ptr::write_bytes(p as *mut u8, 0, std::mem::size_of::<X>());
    std::ptr::write(p, x);
}

#[derive(Clone, Default, PartialEq, Debug)]
pub struct Ov { pub idx: [i32; 3], pub publ: [[i32; 3]; 3], pub alive: [[i8; 3]; 3], pub blen: [i32; 3] }

pub trait Stage<T> {
    fn s_avail(&mut self) -> Option<usize>;
    fn s_wait(&mut self, n: usize);
    fn s_common(&mut self, k: u8, n: usize) -> Raw<T>;
    fn s_obs(&self, i: usize, o: &mut Ov);
}
macro_rules! obs_body { ($x:expr, $i:expr, $o:expr, $T:tt) => { {
    let x = $x;
    $o.publ[$i] = [x.prod_index() as i32, x.work_index() as i32, x.cons_index() as i32];
    $o.alive[$i] = [x.is_prod_alive() as i8, x.is_work_alive() as i8, x.is_cons_alive() as i8];
    $o.idx[$i] = x.index() as i32;
} } }
fn common_plain<T, I: MRBIterator<Item = T>>(x: &mut I, k: u8, n: usize) -> Raw<T> {
    match k {
        K_WORK1 => osegs(x.get_workable().map(|r| one(r as *mut T))),
        K_SLX => osegs(x.get_workable_slice_exact(n).map(ws)),
        K_SLA => osegs(x.get_workable_slice_avail().map(ws)),
        K_SLM => osegs(x.get_workable_slice_multiple_of(n).map(ws)),
        _ => unreachable!(),
    }
}
fn common_det<T, I: MRBIterator<Item = T>>(x: &mut Detached<I>, k: u8, n: usize) -> Raw<T> {
    match k {
        K_WORK1 => osegs(x.get_workable().map(|r| one(r as *mut T))),
        K_SLX => osegs(x.get_workable_slice_exact(n).map(ws)),
        K_SLA => osegs(x.get_workable_slice_avail().map(ws)),
        K_SLM => osegs(x.get_workable_slice_multiple_of(n).map(ws)),
        _ => unreachable!(),
    }
}

/// operations shared by the three stages on any form
unsafe fn form_op<T: Item, I: MRBIterator<Item = T>, A: AsyncIterator<I = I>>(f: *mut Form<I, A>, st: usize, op: &Op, md: &Cx, o: &mut Obs) -> bool
where A::B: MutRB<Item = T> {
    let take = |f: *mut Form<I, A>| { let x = std::ptr::read(f); std::ptr::write_bytes(f as *mut u8, 0, std::mem::size_of::<Form<I, A>>()); std::ptr::write(f, Form::None); x };
    let put = |f: *mut Form<I, A>, x: Form<I, A>| place(f, x);
    let n = op.n as usize;
    macro_rules! step { ($e:expr) => { match cc(|| $e) { Some(r) => Some(r), None => { o.st = 3; None } } } }
    match (op.c, &mut *f) {
        (AVAIL, Form::Plain(x)) => { if let Some(r) = step!(x.available()) { o.n = r as u32; } }
        (AVAIL, Form::Det(x)) => { if let Some(r) = step!(x.available()) { o.n = r as u32; } }
        (AVAIL, Form::Async(x)) => { if let Some(r) = step!(x.available()) { o.n = r as u32; } }
        (ALIVE, Form::Plain(x)) => { if let Some(r) = step!(match n { 0 => x.is_prod_alive(), 1 => x.is_work_alive(), _ => x.is_cons_alive() }) { o.n = r as u32; } }
        (ALIVE, Form::Det(x)) => { if let Some(r) = step!(match n { 0 => x.is_prod_alive(), 1 => x.is_work_alive(), _ => x.is_cons_alive() }) { o.n = r as u32; } }
        (ALIVE, Form::Async(x)) => { if let Some(r) = step!(match n { 0 => x.is_prod_alive(), 1 => x.is_work_alive(), _ => x.is_cons_alive() }) { o.n = r as u32; } }
        (GETIDX, Form::Plain(x)) => { if let Some(r) = step!(match n { 0 => x.prod_index(), 1 => x.work_index(), _ => x.cons_index() }) { o.n = r as u32; } }
        (GETIDX, Form::Det(x)) => { if let Some(r) = step!(match n { 0 => x.prod_index(), 1 => x.work_index(), _ => x.cons_index() }) { o.n = r as u32; } }
        (GETIDX, Form::Async(x)) => { if let Some(r) = step!(match n { 0 => x.prod_index(), 1 => x.work_index(), _ => x.cons_index() }) { o.n = r as u32; } }
        (WAIT, Form::Plain(x)) => { step!(x.wait_for(n)); }
        (WAIT, Form::Det(x)) => { step!(x.wait_for(n)); }
        (ADV, Form::Plain(x)) => { step!(x.advance(n)); }
        (ADV, Form::Det(x)) => { step!(x.advance(n)); }
        (ADV, Form::Async(x)) => { step!(x.advance(n)); }
        (ADV, Form::ADet(x)) => { step!(x.advance(n)); }
        (RESET, Form::Det(x)) => { step!(x.reset_index()); }
        (SYNC, Form::Det(x)) => { step!(x.sync_index()); }
        (SYNC, Form::ADet(x)) => { step!(x.sync_index()); }
        (BACK, Form::Det(x)) => { step!(x.go_back(n)); }
        (BACK, Form::ADet(x)) => { step!(x.go_back(n)); }
        (SET, Form::Det(x)) => { let i = ((md.publ[st] + n as u64) % md.len) as usize; step!(x.set_index(i)); }
        (DETACH, Form::Plain(_)) => { if let Form::Plain(x) = take(f) { if let Some(d) = step!(x.detach()) { put(f, Form::Det(d)); } } }
        (DETACH, Form::Async(_)) => { if let Form::Async(x) = take(f) { if let Some(d) = step!(x.detach()) { put(f, Form::ADet(d)); } } }
        (ATTACH, Form::Det(_)) => { if let Form::Det(x) = take(f) { if let Some(d) = step!(x.attach()) { put(f, Form::Plain(d)); } } }
        (ATTACH, Form::ADet(_)) => { if let Form::ADet(x) = take(f) { if let Some(d) = step!(x.attach()) { put(f, Form::Async(d)); } } }
        (TOASYNC, Form::Plain(_)) => { if let Form::Plain(x) = take(f) { if let Some(d) = step!(A::from_sync(x)) { put(f, Form::Async(d)); } } }
        (TOSYNC, Form::Async(_)) => { if let Form::Async(x) = take(f) { if let Some(d) = step!(x.into_sync()) { put(f, Form::Plain(d)); } } }
        (DROP, _) => { let x = take(f); step!(drop(x)); }
        _ => return false,
    }
    true
}
unsafe fn form_obs<T, I: MRBIterator<Item = T>, A: AsyncIterator<I = I>>(f: *mut Form<I, A>, i: usize, o: &mut Ov) where A::B: MutRB<Item = T> {
    match &*f {
        Form::Plain(x) => { obs_body!(x, i, o, T); o.blen[i] = x.buf_len() as i32; }
        Form::Det(x) => { obs_body!(x, i, o, T); o.blen[i] = x.buf_len() as i32; }
        Form::Async(x) => { obs_body!(x, i, o, T); }
        _ => {}
    }
}

/// what an operation needs to know about positions
#[derive(Clone, Copy, Default, Debug)]
pub struct Cx { pub len: u64, pub lp: u64, pub publ: [u64; 3] }

/// how a request made on a plain iterator is carried out
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode { Direct, DetAtt, Poll }

pub struct Sys<B: MutRB<Item = T> + 'static, T: Item> {
    pub len: usize,
    pub base: *mut u8,
    pub p: *mut PF<B>, pub w: *mut WF<B>, pub c0: *mut CF<B, false>, pub c1: *mut CF<B, true>,
    pub w3: bool,
    pub fut: [*mut FutSlot<T>; 3],
    pub src: *mut T, pub dst: *mut T, pub cap: usize,
    pub woken: *mut u8,
    pub ledger: *mut i16,
    pub buf: *mut B,
    pub mode: Mode,
    pub build: unsafe fn(&mut Sys<B, T>, &Cfg) -> bool,
    pub resplit: Option<unsafe fn(&mut Sys<B, T>, bool)>,
    pub dropbuf: Option<unsafe fn(&mut Sys<B, T>)>,
    pub heap: bool,
    pub cfg: Cfg,
    pub keep_base: bool,
    pub probing: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ctor { From, Default, Zeroed }
#[derive(Clone, Copy, Debug)]
pub struct Cfg { pub len: usize, pub w3: bool, pub ctor: Ctor, pub asplit: bool }

pub trait Dut {
    /// builds buffer and iterators from scratch (arena must be reset); false if construction failed
    unsafe fn init(&mut self) -> bool;
    unsafe fn exec(&mut self, op: &Op, cx: &Cx, o: &mut Obs);
    unsafe fn observe(&mut self, o: &mut Ov);
    unsafe fn exec_raw(&mut self, op: &Op, cx: &Cx, o: &mut Obs);
    unsafe fn observe1(&self, i: usize, o: &mut Ov);
    fn slot_addr(&self, i: usize) -> *mut u8;
    fn has_base(&self) -> bool;
    fn size(&self) -> usize;
    fn enc(&self, v: u16, out: &mut [u8]);
    unsafe fn dec(&self, i: usize) -> u16;
    fn is_copy(&self) -> bool;
    fn heap(&self) -> bool;
    fn woken(&self) -> *mut u8;
    fn ledger(&self) -> *mut i16;
    fn initial(&self) -> Vec<u16>;
    fn activate(&self);
    fn set_w3(&mut self, w: bool);
    fn keep_base(&mut self);
    fn ctor(&self) -> Ctor;
}

fn hal<X>(n: usize) -> *mut X { unsafe { rt::rt_alloc((std::mem::size_of::<X>() * n.max(1)) as u64, std::mem::align_of::<X>().max(8) as u64, 1) as *mut X } }

/// memory of a stack buffer: checked like the crate's own, but not the crate's to release
#[allow(dead_code)]
fn sal<X>() -> *mut X { unsafe { rt::rt_alloc(std::mem::size_of::<X>() as u64, std::mem::align_of::<X>() as u64, 2) as *mut X } }

impl<B: MutRB<Item = T> + 'static, T: Item> Sys<B, T> {
    pub fn raw(build: unsafe fn(&mut Self, &Cfg) -> bool, resplit: Option<unsafe fn(&mut Self, bool)>, dropbuf: Option<unsafe fn(&mut Self)>, cfg: Cfg, mode: Mode, heap: bool) -> Self {
        let z = std::ptr::null_mut();
        Sys { len: cfg.len, base: z, p: z as _, w: z as _, c0: z as _, c1: z as _, w3: cfg.w3, fut: [z as _; 3], src: z as _, dst: z as _, cap: 0, woken: z, ledger: z as _, buf: z as _, mode, build, resplit, dropbuf, heap, cfg, keep_base: false, probing: false }
    }
    unsafe fn begin_dst(&mut self) { for i in 0..self.cap { std::ptr::write(self.dst.add(i), T::mk(id_dummy())); } }
    unsafe fn end_dst(&mut self) { for i in 0..self.cap { std::ptr::drop_in_place(self.dst.add(i)); } std::ptr::write_bytes(self.dst as *mut u8, 0, self.cap * std::mem::size_of::<T>()); }
    unsafe fn begin_src(&mut self, cx: &Cx) { for i in 0..self.cap { std::ptr::write(self.src.add(i), T::mk(idx_push(cx.lp + i as u64))); } }
    unsafe fn end_src(&mut self) { for i in 0..self.cap { std::ptr::drop_in_place(self.src.add(i)); } std::ptr::write_bytes(self.src as *mut u8, 0, self.cap * std::mem::size_of::<T>()); }
    unsafe fn src_ok(&self, cx: &Cx) -> bool { (0..self.cap).all(|i| (*self.src.add(i)).val() == idx_push(cx.lp + i as u64)) }

    fn cons_call<const X: bool>(c: &mut ConsIter<'static, B, X>, k: u8, n: usize, dst: *mut T) -> Raw<T> {
        unsafe {
            match k {
                K_PEEK1 => osegs(c.peek_ref().map(|r| one(r as *const T as *mut T))),
                K_PEEKS => osegs(c.peek_slice(n).map(ns)),
                K_PEEKA => osegs(c.peek_available().map(ns)),
                K_POP => oval(c.pop()),
                K_POPM => oval(c.pop_move()),
                K_COPY1 => ounit(T::copy_item(c, &mut *dst)),
                K_CLONE1 => ounit(c.clone_item(&mut *dst)),
                K_COPYS => ounit(T::copy_slice(c, std::slice::from_raw_parts_mut(dst, n))),
                K_CLONES => ounit(c.clone_slice(std::slice::from_raw_parts_mut(dst, n))),
                _ => common_plain(c, k, n),
            }
        }
    }
    unsafe fn prod_call(p: &mut ProdIter<'static, B>, k: u8, n: usize, src: *mut T, v: Option<T>) -> Raw<T> {
        let s = |n| std::slice::from_raw_parts(src as *const T, n);
        match k {
            K_PUSH => rpush(p.push(v.unwrap_unchecked())),
            K_PUSHI => rpush(p.push_init(v.unwrap_unchecked())),
            K_PUSHS => ounit(T::push_slice(p, s(n))),
            K_PUSHSI => ounit(T::push_slice_init(p, s(n))),
            K_PUSHC => ounit(p.push_slice_clone(s(n))),
            K_PUSHCI => ounit(p.push_slice_clone_init(s(n))),
            K_GET1 => osegs(p.get_next_item_mut().map(|r| one(r as *mut T))),
            K_GETI1 => osegs(p.get_next_item_mut_init().map(one)),
            K_GETS => osegs(p.get_next_slices_mut(n).map(ws)),
            _ => common_plain(p, k, n),
        }
    }
    unsafe fn fut_common<A: AsyncIterator>(_: &A) {}
    /// creates the future of request k on the async iterator of stage s
    unsafe fn fut_new(&mut self, s: usize, k: u8, n: usize, cx: &Cx) -> bool {
        let o = self.fut[s];
        macro_rules! comm { ($a:expr) => { { let a = $a; match k {
            K_WORK1 => { let f = cc(|| a.get_workable()); if let Some(f) = f { FutSlot::put(o, f, |r: &'static mut T| Raw::Segs(one(r))) } }
            K_SLX => { let f = cc(|| a.get_workable_slice_exact(n)); if let Some(f) = f { FutSlot::put(o, f, |r: WS<'static, T>| Raw::Segs(ws(r))) } }
            K_SLA => { let f = cc(|| a.get_workable_slice_avail()); if let Some(f) = f { FutSlot::put(o, f, |r: WS<'static, T>| Raw::Segs(ws(r))) } }
            K_SLM => { let f = cc(|| a.get_workable_slice_multiple_of(n)); if let Some(f) = f { FutSlot::put(o, f, |r: WS<'static, T>| Raw::Segs(ws(r))) } }
            _ => return false,
        } } } }
        match s {
            P => {
                let a: &'static mut AsyncProdIter<'static, B> = match &mut *self.p { Form::Async(a) => &mut *(a as *mut _), _ => return false };
                let src = self.src;
                match k {
                    K_PUSH => { let v = T::mk(idx_push(cx.lp)); if let Some(f) = cc(|| a.push(v)) { FutSlot::put_unit(o, f) } }
                    K_PUSHS => { self.begin_src(cx); let s = std::slice::from_raw_parts(src, n); cc(|| T::f_push_slice(a, s, o)); }
                    K_PUSHC => { self.begin_src(cx); let s: &'static [T] = std::slice::from_raw_parts(src, n); if let Some(f) = cc(|| a.push_slice_clone(s)) { FutSlot::put_unit(o, f) } }
                    K_GET1 => { if let Some(f) = cc(|| a.get_next_item_mut()) { FutSlot::put(o, f, |r: &'static mut T| Raw::Segs(one(r))) } }
                    K_GETI1 => { if let Some(f) = cc(|| a.get_next_item_mut_init()) { FutSlot::put(o, f, |r: *mut T| Raw::Segs(one(r))) } }
                    K_GETS => { if let Some(f) = cc(|| a.get_next_slices_mut(n)) { FutSlot::put(o, f, |r: WS<'static, T>| Raw::Segs(ws(r))) } }
                    _ => comm!(a),
                }
            }
            W => {
                let a: &'static mut AsyncWorkIter<'static, B> = match &mut *self.w { Form::Async(a) => &mut *(a as *mut _), _ => return false };
                comm!(a);
            }
            _ => {
                macro_rules! cons { ($c:expr) => { {
                    let a: &'static mut AsyncConsIter<'static, B, _> = match &mut *$c { Form::Async(a) => &mut *(a as *mut _), _ => return false };
                    let dst = self.dst;
                    match k {
                        K_PEEK1 => { if let Some(f) = cc(|| a.peek_ref()) { FutSlot::put(o, f, |r: &'static T| Raw::Segs(one(r as *const T as *mut T))) } }
                        K_PEEKS => { if let Some(f) = cc(|| a.peek_slice(n)) { FutSlot::put(o, f, |r: NS<'static, T>| Raw::Segs(ns(r))) } }
                        K_PEEKA => { if let Some(f) = cc(|| a.peek_available()) { FutSlot::put(o, f, |r: NS<'static, T>| Raw::Segs(ns(r))) } }
                        K_POP => { if let Some(f) = cc(|| a.pop()) { FutSlot::put(o, f, |r: T| Raw::Val(r)) } }
                        K_POPM => { if let Some(f) = cc(|| a.pop_move()) { FutSlot::put(o, f, |r: T| Raw::Val(r)) } }
                        K_COPY1 => { self.begin_dst(); cc(|| T::f_copy_item(a, &mut *dst, o)); }
                        K_CLONE1 => { self.begin_dst(); let d: &'static mut T = &mut *dst; if let Some(f) = cc(|| a.clone_item(d)) { FutSlot::put_unit(o, f) } }
                        K_COPYS => { self.begin_dst(); let d = std::slice::from_raw_parts_mut(dst, n); cc(|| T::f_copy_slice(a, d, o)); }
                        K_CLONES => { self.begin_dst(); let d: &'static mut [T] = std::slice::from_raw_parts_mut(dst, n); if let Some(f) = cc(|| a.clone_slice(d)) { FutSlot::put_unit(o, f) } }
                        _ => comm!(a),
                    }
                } } }
                if self.w3 { cons!(self.c1) } else { cons!(self.c0) }
            }
        }
        (*o).poll.is_some()
    }
    fn in_ring(&self, p: *mut T, n: usize) -> bool {
        let a = p as usize; let b = self.base as usize; let sz = std::mem::size_of::<T>();
        let span = self.len * sz * if cfg!(feature = "vmem") { 2 } else { 1 };
        !self.base.is_null() && a >= b && n <= self.len * 2 && a + n * sz <= b + span && (a - b) % sz == 0
    }
    /// looks at the result of a request: reads / writes the granted slots as that stage's user would
    unsafe fn post(&mut self, s: usize, k: u8, n: usize, r: Raw<T>, cx: &Cx, o: &mut Obs) -> usize {
        match r {
            Raw::Panic => { o.st = 3; 0 }
            Raw::Pending => { o.st = 2; 0 }
            Raw::Other => { o.st = 4; 0 }
            Raw::No => { o.st = 0; 0 }
            Raw::Ok => {
                o.st = 1;
                o.n = match k { K_PUSHS | K_PUSHSI | K_PUSHC | K_PUSHCI | K_COPYS | K_CLONES => n as u32, _ => 1 };
                if matches!(k, K_COPY1 | K_CLONE1 | K_COPYS | K_CLONES) { for i in 0..o.n as usize { o.vals.push((*self.dst.add(i)).val()); } }
                0
            }
            Raw::Back(v) => { o.st = 0; o.back = v.val(); drop(v); 0 }
            Raw::Val(v) => {
                o.st = 1; o.n = 1; o.vals.push(v.val());
                if T::COPY { std::mem::forget(v) } else { drop(v) }
                0
            }
            Raw::Segs(sg) => {
                o.st = 1;
                let sz = std::mem::size_of::<T>();
                let mut tot = 0;
                for (p, m) in sg {
                    if m == 0 { continue; }
                    if !self.in_ring(p, m) { o.pos.push(0xffff); o.n = (tot + m) as u32; o.st = 4; return 0; }
                    for i in 0..m {
                        let q = p.add(i);
                        let sl = ((q as usize - self.base as usize) / sz) % self.len;
                        o.pos.push(sl as u16);
                        match s {
                            P => { let v = T::mk(idx_push(cx.lp + tot as u64)); if k == K_GETI1 && mutringbuf::UnsafeSyncCell::check_zeroed(q as *const T) { q.write(v) } else { *q = v } }
                            W => { o.vals.push((*q).val()); (*q).set_edit(); }
                            _ => o.vals.push((*q).val()),
                        }
                        tot += 1;
                    }
                }
                o.n = tot as u32;
                tot
            }
        }
    }
    unsafe fn sync_call(&mut self, s: usize, k: u8, n: usize, cx: &Cx) -> Raw<T> {
        let (src, dst) = (self.src, self.dst);
        let r = match s {
            P => { let v = if matches!(k, K_PUSH | K_PUSHI) { Some(T::mk(idx_push(cx.lp))) } else { None };
                match &mut *self.p { Form::Plain(x) => cc(|| Self::prod_call(x, k, n, src, v)), Form::Det(x) => cc(|| common_det(x, k, n)), _ => Some(Raw::Other) } }
            W => match &mut *self.w { Form::Plain(x) => cc(|| common_plain(x, k, n)), Form::Det(x) => cc(|| common_det(x, k, n)), _ => Some(Raw::Other) },
            _ => if self.w3 { match &mut *self.c1 { Form::Plain(x) => cc(|| Self::cons_call(x, k, n, dst)), Form::Det(x) => cc(|| common_det(x, k, n)), _ => Some(Raw::Other) } }
                 else { match &mut *self.c0 { Form::Plain(x) => cc(|| Self::cons_call(x, k, n, dst)), Form::Det(x) => cc(|| common_det(x, k, n)), _ => Some(Raw::Other) } },
        };
        r.unwrap_or(Raw::Panic)
    }
    unsafe fn shared(&mut self, op: &Op, cx: &Cx, o: &mut Obs) -> bool {
        match op.s as usize {
            P => form_op(self.p, P, op, cx, o),
            W => form_op(self.w, W, op, cx, o),
            _ => if self.w3 { form_op(self.c1, C, op, cx, o) } else { form_op(self.c0, C, op, cx, o) },
        }
    }
    fn is_plain(&self, s: usize) -> bool { unsafe { match s { P => matches!(&*self.p, Form::Plain(_)), W => matches!(&*self.w, Form::Plain(_)), _ => if self.w3 { matches!(&*self.c1, Form::Plain(_)) } else { matches!(&*self.c0, Form::Plain(_)) } } } }
    fn uses_src(k: u8) -> bool { matches!(k, K_PUSHS | K_PUSHSI | K_PUSHC | K_PUSHCI) }
    fn uses_dst(k: u8) -> bool { matches!(k, K_COPY1 | K_CLONE1 | K_COPYS | K_CLONES) }
    unsafe fn check_dst(&mut self, k: u8, n: usize, o: &mut Obs) {
        let from = if o.st == 1 { if matches!(k, K_COPYS | K_CLONES) { n } else { 1 } } else { 0 };
        for i in from..self.cap { if (*self.dst.add(i)).val() != id_dummy() { o.dst_ok = false; } }
    }
}

impl<B: MutRB<Item = T> + 'static, T: Item> Sys<B, T> {
    unsafe fn prepare(&mut self) {
        self.cap = self.len + 3;
        self.ledger = hal(nids());
        self.p = hal(1); self.w = hal(1); self.c0 = hal(1); self.c1 = hal(1);
        self.woken = hal(6); // two wakers per stage
        self.src = hal(self.cap); self.dst = hal(self.cap);
        for i in 0..3 { self.fut[i] = hal(1); }
        place(self.p, Form::None); place(self.w, Form::None); place(self.c0, Form::None); place(self.c1, Form::None);
        self.w3 = self.cfg.w3;
        if !self.keep_base { self.base = std::ptr::null_mut(); }
        self.activate();
        }
    unsafe fn exec_(&mut self, op: &Op, cx: &Cx, o: &mut Obs) {
        o.clear();
        o.st = 1;
        let s = op.s as usize;
        let n = real_n(op.n, self.len as u64);
        match op.c {
            CALL => {
                let k = op.k;
                if Self::uses_src(k) { self.begin_src(cx); }
                if Self::uses_dst(k) { self.begin_dst(); }
                let mut mode = self.mode;
                if op.a >= 2 { mode = Mode::Direct; }
                if mode == Mode::DetAtt && !(common(k) && self.is_plain(s)) { mode = Mode::Direct; }
                if mode == Mode::Poll && !(has_async(k) && self.is_plain(s)) { mode = Mode::Direct; }
                let mut o2 = Obs::default();
                let sub = |c| Op { c, s: op.s, ..Default::default() };
                let granted;
                match mode {
                    Mode::Direct if op.a >= 2 => { FAULT = op.a as u32 - 1; let r = self.sync_call(s, k, n, cx); FAULT = 0; granted = self.post(s, k, n, r, cx, o); }
                    Mode::Direct => { let r = self.sync_call(s, k, n, cx); granted = self.post(s, k, n, r, cx, o); }
                    Mode::DetAtt => { self.shared(&sub(DETACH), cx, &mut o2); let r = self.sync_call(s, k, n, cx); granted = self.post(s, k, n, r, cx, o); }
                    Mode::Poll => {
                        self.shared(&sub(TOASYNC), cx, &mut o2);
                        // begin_src/dst are done by fut_new for the kinds that need them
                        if Self::uses_src(k) { self.end_src(); }
                        if Self::uses_dst(k) { self.end_dst(); }
                        if !self.fut_new(s, k, n, cx) { o.st = 3; return; }
                        let wk = mk_waker(self.woken.add(2 * s));
                        let mut c = Context::from_waker(&wk);
                        let r = FutSlot::poll(self.fut[s], &mut c);
                        let r = match r { Raw::Pending => Raw::No, r => r };
                        if k == K_PUSH && matches!(r, Raw::No) { o.back = idx_push(cx.lp); }
                        FutSlot::dropf(self.fut[s]);
                        let b = o.back;
                        granted = self.post(s, k, n, r, cx, o);
                        o.back = b;
                        self.shared(&sub(TOSYNC), cx, &mut o2);
                        *self.woken.add(2 * s) = 0;
                    }
                }
                if op.a == 1 && granted > 0 && o.st == 1 {
                    let mut x = Obs::default();
                    self.shared(&Op { c: ADV, s: op.s, n: granted as u16, ..Default::default() }, cx, &mut x);
                }
                if mode == Mode::DetAtt { self.shared(&sub(ATTACH), cx, &mut o2); }
                if o2.st == 3 { o.st = 3; }
                if Self::uses_src(k) { o.src_ok = self.src_ok(cx); self.end_src(); }
                if Self::uses_dst(k) { self.check_dst(k, n, o); self.end_dst(); }
            }
            RESET => {
                macro_rules! rs { ($f:expr) => { match &mut *$f {
                    Form::Plain(x) => { if cc(|| x.reset_index()).is_none() { o.st = 3 } }
                    Form::Async(x) => { if cc(|| x.reset_index()).is_none() { o.st = 3 } }
                    _ => { self.shared(op, cx, o); }
                } } }
                match s { W => rs!(self.w), P => { self.shared(op, cx, o); } _ => if self.w3 { rs!(self.c1) } else { rs!(self.c0) } }
            }
            FNEW => { if !self.fut_new(s, op.k, n, cx) { o.st = 3; } }
            FPOLL => {
                let k = op.k; // filled in by the caller from the model
                let wb = self.woken.add(2 * s + op.a as usize);
                *wb = 0;
                let wk = mk_waker(wb);
                let mut c = Context::from_waker(&wk);
                let r = FutSlot::poll(self.fut[s], &mut c);
                let pend = matches!(r, Raw::Pending);
                if !pend { FutSlot::dropf(self.fut[s]); }
                self.post(s, k, n, r, cx, o);
                if Self::uses_src(k) { o.src_ok = self.src_ok(cx); if !pend { self.end_src(); } }
                if Self::uses_dst(k) { self.check_dst(k, n, o); if !pend { self.end_dst(); } }
            }
            FDROP => {
                let k = op.k;
                FutSlot::dropf(self.fut[s]);
                if Self::uses_src(k) { o.src_ok = self.src_ok(cx); self.end_src(); }
                if Self::uses_dst(k) { o.st = 0; self.check_dst(k, n, o); o.st = 1; self.end_dst(); }
            }
            RESPLIT => { let f = self.resplit.unwrap(); self.w3 = n == 1; place(self.c0, Form::None); place(self.c1, Form::None); f(self, n == 1); if rt::PANICKED { o.st = 3; } }
            DROPBUF => { let f = self.dropbuf.unwrap(); f(self); }
            _ => { if !self.shared(op, cx, o) { o.st = 4; } }
        }
        if o.st == 3 { rt::PANICKED = false; }
    }
}
impl<B: MutRB<Item = T> + 'static, T: Item> Dut for Sys<B, T> {
    unsafe fn init(&mut self) -> bool {
        self.prepare();
        let cfg = self.cfg;
        if self.base.is_null() {
            let snap = rt::rt_snap_new();
            rt::rt_snapshot(snap);
            self.probing = true;
            let ok = rt::on_stack(|| (self.build)(self, &cfg));
            self.probing = false;
            #[cfg(feature = "vmem")] { rt_unmap_since(snap); }
            rt::rt_restore(snap);
            rt::rt_snap_free(snap);
            if !ok { return false; }
        }
        rt::on_stack(|| (self.build)(self, &cfg))
    }
    unsafe fn exec(&mut self, op: &Op, cx: &Cx, o: &mut Obs) { self.activate(); rt::on_stack(|| self.exec_(op, cx, o)) }
    unsafe fn exec_raw(&mut self, op: &Op, cx: &Cx, o: &mut Obs) { self.exec_(op, cx, o) }
    unsafe fn observe1(&self, i: usize, o: &mut Ov) { match i { P => form_obs(self.p, P, o), W => form_obs(self.w, W, o), _ => if self.w3 { form_obs(self.c1, C, o) } else { form_obs(self.c0, C, o) } } }
    fn activate(&self) { unsafe { LEDGER = self.ledger; EVENTS = 0; } }
    unsafe fn observe(&mut self, o: &mut Ov) {
        *o = Ov { idx: [-1; 3], publ: [[-1; 3]; 3], alive: [[-1; 3]; 3], blen: [-1; 3] };
        let r = cc(|| {
            form_obs(self.p, P, o);
            form_obs(self.w, W, o);
            if self.w3 { form_obs(self.c1, C, o) } else { form_obs(self.c0, C, o) }
        });
        if r.is_none() { rt::PANICKED = false; o.blen = [-9; 3]; }
    }
    fn slot_addr(&self, i: usize) -> *mut u8 { unsafe { self.base.add(i * std::mem::size_of::<T>()) } }
    fn has_base(&self) -> bool { !self.base.is_null() }
    fn size(&self) -> usize { std::mem::size_of::<T>() }
    fn enc(&self, v: u16, out: &mut [u8]) { if v == 0 { out.fill(0) } else { T::enc(v, out) } }
    unsafe fn dec(&self, i: usize) -> u16 { (*(self.slot_addr(i) as *const T)).val() }
    fn is_copy(&self) -> bool { T::COPY }
    fn heap(&self) -> bool { self.heap }
    fn woken(&self) -> *mut u8 { self.woken }
    fn ledger(&self) -> *mut i16 { self.ledger }
    fn initial(&self) -> Vec<u16> {
        (0..self.len).map(|i| match self.cfg.ctor { Ctor::From => id_init(i), Ctor::Default => id_default(), Ctor::Zeroed => 0 }).collect()
    }
    fn set_w3(&mut self, w: bool) { self.w3 = w; }
    fn keep_base(&mut self) { self.keep_base = true; }
    fn ctor(&self) -> Ctor { self.cfg.ctor }
}
#[allow(dead_code)]
fn _u<T: Item, B: MutRB<Item = T> + 'static, A: AsyncIterator>(a: &A) { unsafe { Sys::<B, T>::fut_common(a) } }

// ------------------------------------------------------------------ construction of every variant

/// place the iterators of a split and learn where slot 0 is
unsafe fn learn_base<B: MutRB<Item = T> + 'static, T: Item>(s: &mut Sys<B, T>, p: &mut ProdIter<'static, B>) {
    if s.len < 2 { return; }
    // a fresh producer stands at slot 0; the look is undone by the caller restoring the arena
    if let Some(Some(a)) = cc(|| p.get_next_item_mut_init()) { s.base = (a as *mut u8).sub(cc(|| p.index()).unwrap_or(0) * std::mem::size_of::<T>()); }
}

macro_rules! put2 { ($s:expr, $e:expr, $probe:expr) => { {
    let r = cc(|| $e);
    match r { None => { rt::PANICKED = false; return false } Some((mut p, c)) => { if $probe { learn_base($s, &mut p); std::mem::forget((p, c)); } else { place($s.p, Form::Plain(p)); place($s.c0, Form::Plain(c)); } } }
} } }
macro_rules! put3 { ($s:expr, $e:expr, $probe:expr) => { {
    let r = cc(|| $e);
    match r { None => { rt::PANICKED = false; return false } Some((mut p, w, c)) => { if $probe { learn_base($s, &mut p); std::mem::forget((p, w, c)); } else { place($s.p, Form::Plain(p)); place($s.w, Form::Plain(w)); place($s.c1, Form::Plain(c)); } } }
} } }
macro_rules! aput2 { ($s:expr, $e:expr, $probe:expr) => { {
    let r = cc(|| $e);
    match r { None => { rt::PANICKED = false; return false } Some((p, c)) => { if $probe { let mut q = p.into_sync(); learn_base($s, &mut q); std::mem::forget((q, c)); } else { place($s.p, Form::Async(p)); place($s.c0, Form::Async(c)); } } }
} } }
macro_rules! aput3 { ($s:expr, $e:expr, $probe:expr) => { {
    let r = cc(|| $e);
    match r { None => { rt::PANICKED = false; return false } Some((p, w, c)) => { if $probe { let mut q = p.into_sync(); learn_base($s, &mut q); std::mem::forget((q, w, c)); } else { place($s.p, Form::Async(p)); place($s.w, Form::Async(w)); place($s.c1, Form::Async(c)); } } }
} } }

pub fn mk_vec<T: Item>(len: usize) -> Vec<T> { (0..len).map(|i| T::mk(id_init(i))).collect() }

/// init() runs the construction twice: first to learn the address of slot 0 (addresses are deterministic), then for real
macro_rules! two_pass { ($s:ident, $probe:ident, $body:block) => { {
    let $probe = $s.probing;
    $body
    true
} } }
#[cfg(feature = "vmem")]
extern "C" { fn rt_unmap_since(s: *mut u8); }

#[cfg(feature = "alloc")]
pub mod heap {
    use super::*;
    use mutringbuf::{ConcurrentHeapRB, HeapSplit, LocalHeapRB};
    macro_rules! mkbuf { ($B:ident, $T:ty, $cfg:expr) => { match $cfg.ctor {
        Ctor::From => { let v = cc(|| mk_vec::<$T>($cfg.len)).unwrap(); cc(|| $B::<$T>::from(v)) }
        Ctor::Default => cc(|| $B::<$T>::default($cfg.len)),
        Ctor::Zeroed => cc(|| $B::<$T>::new_zeroed($cfg.len)),
    } } }
    pub unsafe fn conc<T: Item>(s: &mut Sys<ConcurrentHeapRB<T>, T>, cfg: &Cfg) -> bool {
        let cfg = *cfg;
        two_pass!(s, probe, {
            let b = match mkbuf!(ConcurrentHeapRB, T, cfg) { Some(b) => b, None => { rt::PANICKED = false; return false } };
            match (cfg.w3, cfg.asplit) {
                (false, false) => put2!(s, b.split(), probe),
                (true, false) => put3!(s, b.split_mut(), probe),
                (false, true) => aput2!(s, b.split_async(), probe),
                (true, true) => aput3!(s, b.split_mut_async(), probe),
            }
        })
    }
    pub unsafe fn local<T: Item>(s: &mut Sys<LocalHeapRB<T>, T>, cfg: &Cfg) -> bool {
        let cfg = *cfg;
        two_pass!(s, probe, {
            let b = match mkbuf!(LocalHeapRB, T, cfg) { Some(b) => b, None => { rt::PANICKED = false; return false } };
            if cfg.w3 { put3!(s, b.split_mut(), probe) } else { put2!(s, b.split(), probe) }
        })
    }
    pub fn mk_conc<T: Item>(cfg: Cfg, mode: Mode) -> Box<dyn Dut> { Box::new(Sys::raw(conc::<T>, None, None, cfg, mode, true)) }
    pub fn mk_local<T: Item>(cfg: Cfg, mode: Mode) -> Box<dyn Dut> { Box::new(Sys::raw(local::<T>, None, None, cfg, mode, true)) }
}

#[cfg(not(feature = "vmem"))]
pub mod stack {
    use super::*;
    use mutringbuf::{ConcurrentStackRB, LocalStackRB, StackSplit};
    fn arr<T: Item, const N: usize>() -> [T; N] { std::array::from_fn(|i| T::mk(id_init(i))) }
    fn darr<T: Item, const N: usize>() -> [T; N] { std::array::from_fn(|_| T::mk(id_default())) }
    macro_rules! mkbuf { ($B:ident, $T:ty, $N:expr, $cfg:expr) => { match $cfg.ctor {
        Ctor::From => { let a = arr::<$T, $N>(); cc(|| $B::<$T, $N>::from(a)) }
        Ctor::Default => { let a = darr::<$T, $N>(); cc(|| $B::<$T, $N>::from(a)) }
        Ctor::Zeroed => cc(|| $B::<$T, $N>::new_zeroed()),
    } } }
    macro_rules! imp { ($conc:ident, $B:ident, $mk:ident, $re:ident, $db:ident, $async:expr) => {
        pub unsafe fn $conc<T: Item, const N: usize>(s: &mut Sys<$B<T, N>, T>, cfg: &Cfg) -> bool {
            let cfg = *cfg;
            s.buf = sal::<$B<T, N>>();
            two_pass!(s, probe, {
                let b = match mkbuf!($B, T, N, cfg) { Some(b) => b, None => { rt::PANICKED = false; return false } };
                place(s.buf, b);
                let b: &'static mut $B<T, N> = &mut *s.buf;
                if cfg.w3 { put3!(s, b.split_mut(), probe) } else { put2!(s, b.split(), probe) }
            })
        }
        unsafe fn $re<T: Item, const N: usize>(s: &mut Sys<$B<T, N>, T>, w: bool) {
            unsafe fn go<T: Item, const N: usize>(s: &mut Sys<$B<T, N>, T>, w: bool) -> bool {
                let b: &'static mut $B<T, N> = &mut *s.buf;
                if w { put3!(s, b.split_mut(), false) } else { put2!(s, b.split(), false) }
                true
            }
            if !go(s, w) { rt::PANICKED = true; }
        }
        unsafe fn $db<T: Item, const N: usize>(s: &mut Sys<$B<T, N>, T>) { let b = s.buf; cc(|| std::ptr::drop_in_place(b)); }
        pub fn $mk<T: Item, const N: usize>(cfg: Cfg, mode: Mode) -> Box<dyn Dut> { Box::new(Sys::raw($conc::<T, N>, Some($re::<T, N>), Some($db::<T, N>), cfg, mode, false)) }
    } }
    imp!(conc, ConcurrentStackRB, mk_conc, re_conc, db_conc, true);
    imp!(local, LocalStackRB, mk_local, re_local, db_local, false);

    /// ConcurrentStackRB split through split_async / split_mut_async (boxed by the crate when alloc is on)
    #[cfg(feature = "alloc")]
    pub unsafe fn boxed<T: Item, const N: usize>(s: &mut Sys<ConcurrentStackRB<T, N>, T>, cfg: &Cfg) -> bool {
        let cfg = *cfg;
        two_pass!(s, probe, {
            let b = match mkbuf!(ConcurrentStackRB, T, N, cfg) { Some(b) => b, None => { rt::PANICKED = false; return false } };
            if cfg.w3 { aput3!(s, b.split_mut_async(), probe) } else { aput2!(s, b.split_async(), probe) }
        })
    }
    #[cfg(feature = "alloc")]
    pub fn mk_boxed<T: Item, const N: usize>(cfg: Cfg, mode: Mode) -> Box<dyn Dut> { Box::new(Sys::raw(boxed::<T, N>, None, None, cfg, mode, true)) }
    #[cfg(not(feature = "alloc"))]
    pub unsafe fn boxed<T: Item, const N: usize>(s: &mut Sys<ConcurrentStackRB<T, N>, T>, cfg: &Cfg) -> bool {
        let cfg = *cfg;
        s.buf = sal::<ConcurrentStackRB<T, N>>();
        two_pass!(s, probe, {
            let b = match mkbuf!(ConcurrentStackRB, T, N, cfg) { Some(b) => b, None => { rt::PANICKED = false; return false } };
            place(s.buf, b);
            let b: &'static mut ConcurrentStackRB<T, N> = &mut *s.buf;
            if cfg.w3 { aput3!(s, b.split_mut_async(), probe) } else { aput2!(s, b.split_async(), probe) }
        })
    }
    #[cfg(not(feature = "alloc"))]
    pub fn mk_boxed<T: Item, const N: usize>(cfg: Cfg, mode: Mode) -> Box<dyn Dut> { Box::new(Sys::raw(boxed::<T, N>, Some(re_conc::<T, N>), Some(db_conc::<T, N>), cfg, mode, false)) }
}
