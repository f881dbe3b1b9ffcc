//! Item types. Every value is an id: 0 = the all-zero slot, 1..=2L pushes (position mod 2L + 1),
//! then initial contents, the Default value and the harness's dummy. Bit 0x8000 = edited by the worker.
use crate::rt;
use crate::sys::FutSlot;
use mutringbuf::iterators::{AsyncConsIter, AsyncProdIter, ConsIter, ProdIter};
use mutringbuf::MutRB;

pub const EDIT: u16 = 0x8000;
pub const BAD: u16 = 0x7fff;

/// number of ring slots of the scenario; fixes the id ranges
pub static mut L: usize = 1;
pub fn idx_push(pos: u64) -> u16 { unsafe { (pos % (2 * L as u64)) as u16 + 1 } }
pub fn id_init(i: usize) -> u16 { unsafe { (2 * L + 1 + i) as u16 } }
pub fn id_default() -> u16 { unsafe { (3 * L + 1) as u16 } }
pub fn id_dummy() -> u16 { unsafe { (3 * L + 2) as u16 } }
pub fn nids() -> usize { unsafe { 3 * L + 3 } }

/// live objects per id (Drop types); lives in arena memory so that it is part of the explored state
pub static mut LEDGER: *mut i16 = std::ptr::null_mut();
/// events raised by destructors / clones: bit 0 zero object dropped, 1 garbage dropped, 2 double drop, 3 zero object cloned, 4 garbage cloned
pub static mut EVENTS: u32 = 0;

pub trait Item: Sized + Clone + Default + 'static {
    const COPY: bool;
    fn mk(v: u16) -> Self;
    fn val(&self) -> u16;
    fn set_edit(&mut self);
    fn enc(v: u16, out: &mut [u8]);
    unsafe fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<'static, B>, s: &[Self]) -> Option<()>;
    unsafe fn push_slice_init<B: MutRB<Item = Self>>(p: &mut ProdIter<'static, B>, s: &[Self]) -> Option<()>;
    unsafe fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<'static, B, W>, d: &mut Self) -> Option<()>;
    unsafe fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<'static, B, W>, d: &mut [Self]) -> Option<()>;
    unsafe fn f_push_slice<B: MutRB<Item = Self> + 'static>(p: &'static mut AsyncProdIter<'static, B>, s: &'static [Self], o: *mut FutSlot<Self>);
    unsafe fn f_copy_item<B: MutRB<Item = Self> + 'static, const W: bool>(c: &'static mut AsyncConsIter<'static, B, W>, d: &'static mut Self, o: *mut FutSlot<Self>);
    unsafe fn f_copy_slice<B: MutRB<Item = Self> + 'static, const W: bool>(c: &'static mut AsyncConsIter<'static, B, W>, d: &'static mut [Self], o: *mut FutSlot<Self>);
}

macro_rules! copy_ops { () => {
    unsafe fn push_slice<B: MutRB<Item = Self>>(p: &mut ProdIter<'static, B>, s: &[Self]) -> Option<()> { p.push_slice(s) }
    unsafe fn push_slice_init<B: MutRB<Item = Self>>(p: &mut ProdIter<'static, B>, s: &[Self]) -> Option<()> { p.push_slice_init(s) }
    unsafe fn copy_item<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<'static, B, W>, d: &mut Self) -> Option<()> { c.copy_item(d) }
    unsafe fn copy_slice<B: MutRB<Item = Self>, const W: bool>(c: &mut ConsIter<'static, B, W>, d: &mut [Self]) -> Option<()> { c.copy_slice(d) }
    unsafe fn f_push_slice<B: MutRB<Item = Self> + 'static>(p: &'static mut AsyncProdIter<'static, B>, s: &'static [Self], o: *mut FutSlot<Self>) { FutSlot::put_unit(o, p.push_slice(s)) }
    unsafe fn f_copy_item<B: MutRB<Item = Self> + 'static, const W: bool>(c: &'static mut AsyncConsIter<'static, B, W>, d: &'static mut Self, o: *mut FutSlot<Self>) { FutSlot::put_unit(o, c.copy_item(d)) }
    unsafe fn f_copy_slice<B: MutRB<Item = Self> + 'static, const W: bool>(c: &'static mut AsyncConsIter<'static, B, W>, d: &'static mut [Self], o: *mut FutSlot<Self>) { FutSlot::put_unit(o, c.copy_slice(d)) }
} }
macro_rules! no_copy_ops { () => {
    unsafe fn push_slice<B: MutRB<Item = Self>>(_: &mut ProdIter<'static, B>, _: &[Self]) -> Option<()> { unreachable!() }
    unsafe fn push_slice_init<B: MutRB<Item = Self>>(_: &mut ProdIter<'static, B>, _: &[Self]) -> Option<()> { unreachable!() }
    unsafe fn copy_item<B: MutRB<Item = Self>, const W: bool>(_: &mut ConsIter<'static, B, W>, _: &mut Self) -> Option<()> { unreachable!() }
    unsafe fn copy_slice<B: MutRB<Item = Self>, const W: bool>(_: &mut ConsIter<'static, B, W>, _: &mut [Self]) -> Option<()> { unreachable!() }
    unsafe fn f_push_slice<B: MutRB<Item = Self> + 'static>(_: &'static mut AsyncProdIter<'static, B>, _: &'static [Self], _: *mut FutSlot<Self>) { unreachable!() }
    unsafe fn f_copy_item<B: MutRB<Item = Self> + 'static, const W: bool>(_: &'static mut AsyncConsIter<'static, B, W>, _: &'static mut Self, _: *mut FutSlot<Self>) { unreachable!() }
    unsafe fn f_copy_slice<B: MutRB<Item = Self> + 'static, const W: bool>(_: &'static mut AsyncConsIter<'static, B, W>, _: &'static mut [Self], _: *mut FutSlot<Self>) { unreachable!() }
} }

fn enc_bytes(v: u16, o: &mut [u8]) {
    let n = o.len();
    if n == 0 { return; }
    if n == 1 { o[0] = ((v & 0x7f) as u8 | if v & EDIT != 0 { 0x80 } else { 0 }) ^ 1; return; }
    o[0] = (v & 0xff) as u8 ^ 1;
    o[1] = (v >> 8) as u8;
    for i in 2..n {
        o[i] = if o[0] == 0 && o[1] == 0 { 0 } else { o[0].wrapping_mul(3) ^ o[1] ^ ((i % 251) as u8).wrapping_mul(29) };
    }
}
fn dec_bytes(b: &[u8]) -> u16 {
    let n = b.len();
    if n == 1 { let x = b[0] ^ 1; return (x & 0x7f) as u16 | if x & 0x80 != 0 { EDIT } else { 0 }; }
    let v = (b[0] ^ 1) as u16 | (b[1] as u16) << 8;
    for i in 2..n {
        let e = if b[0] == 0 && b[1] == 0 { 0 } else { b[0].wrapping_mul(3) ^ b[1] ^ ((i % 251) as u8).wrapping_mul(29) };
        if b[i] != e { return BAD; }
    }
    v
}

/// Copy item of N bytes, alignment 1. Id 1 is the all-zero pattern: zero is an ordinary value of a Copy type.
#[derive(Clone, Copy)]
pub struct Cp<const N: usize>(pub [u8; N]);
impl<const N: usize> Default for Cp<N> { fn default() -> Self { Self::mk(id_default()) } }
impl<const N: usize> Item for Cp<N> {
    const COPY: bool = true;
    fn mk(v: u16) -> Self { let mut b = [0; N]; enc_bytes(v, &mut b); Cp(b) }
    fn val(&self) -> u16 { dec_bytes(&self.0) }
    fn set_edit(&mut self) { let v = self.val(); if v != BAD { *self = Self::mk(v | EDIT); } }
    fn enc(v: u16, o: &mut [u8]) { enc_bytes(v, o) }
    copy_ops!();
}
/// Copy item, 8 bytes, alignment 8.
#[derive(Clone, Copy)]
pub struct CpA(pub u64);
impl Default for CpA { fn default() -> Self { Self::mk(id_default()) } }
impl Item for CpA {
    const COPY: bool = true;
    fn mk(v: u16) -> Self { let mut b = [0; 8]; enc_bytes(v, &mut b); CpA(u64::from_ne_bytes(b)) }
    fn val(&self) -> u16 { dec_bytes(&self.0.to_ne_bytes()) }
    fn set_edit(&mut self) { let v = self.val(); if v != BAD { *self = Self::mk(v | EDIT); } }
    fn enc(v: u16, o: &mut [u8]) { enc_bytes(v, o) }
    copy_ops!();
}

/// Owned item with a destructor ledger and a canary.
#[repr(C)]
pub struct Dr<const X: usize> { id: u16, ed: u16, can: u32, ext: [u64; X] }
const CAN: u32 = 0xC0DE_0000;
impl<const X: usize> Dr<X> {
    fn is_zero(&self) -> bool { unsafe { std::slice::from_raw_parts(self as *const Self as *const u8, std::mem::size_of::<Self>()).iter().all(|b| *b == 0) } }
    fn check(&self) -> bool {
        (self.id as usize) < nids() && self.id != 0 && self.can == CAN ^ self.id as u32 && self.ed <= 1 && self.ext.iter().all(|e| *e == 0x0101_0101_0101_0101 * self.id as u64)
    }
}
fn led(v: u16, d: i16) { unsafe { if !LEDGER.is_null() { *LEDGER.add(v as usize) += d; } } }
impl<const X: usize> Drop for Dr<X> {
    fn drop(&mut self) {
        unsafe {
            if !self.check() { EVENTS |= if self.is_zero() { 1 } else { 2 }; return; }
            if !LEDGER.is_null() && *LEDGER.add(self.id as usize) <= 0 { EVENTS |= 4; }
            led(self.id, -1);
        }
    }
}
impl<const X: usize> Clone for Dr<X> {
    fn clone(&self) -> Self {
        unsafe {
            if !self.check() { EVENTS |= if self.is_zero() { 8 } else { 16 }; return Self::mk(id_dummy()); }
            fault();
            let mut x = Self::mk(self.id);
            x.ed = self.ed;
            x
        }
    }
}
impl<const X: usize> Default for Dr<X> { fn default() -> Self { Self::mk(id_default()) } }
impl<const X: usize> Item for Dr<X> {
    const COPY: bool = false;
    fn mk(v: u16) -> Self {
        let id = v & !EDIT;
        led(id, 1);
        Dr { id, ed: (v & EDIT != 0) as u16, can: CAN ^ id as u32, ext: [0x0101_0101_0101_0101 * id as u64; X] }
    }
    fn val(&self) -> u16 { if self.check() { self.id | if self.ed != 0 { EDIT } else { 0 } } else if self.is_zero() { 0 } else { BAD } }
    fn set_edit(&mut self) { if self.check() { self.ed = 1; } }
    fn enc(v: u16, o: &mut [u8]) {
        if v == 0 { o.fill(0); return; }
        let id = v & !EDIT;
        o[0..2].copy_from_slice(&id.to_ne_bytes());
        o[2..4].copy_from_slice(&((v & EDIT != 0) as u16).to_ne_bytes());
        o[4..8].copy_from_slice(&(CAN ^ id as u32).to_ne_bytes());
        for i in 0..X { o[8 + 8 * i..16 + 8 * i].copy_from_slice(&(0x0101_0101_0101_0101u64 * id as u64).to_ne_bytes()); }
    }
    no_copy_ops!();
}
/// Owned item whose live values differ from all-zero in a single byte only, at a place that depends on the value.
#[repr(C)]
pub struct Ds<A: Copy + 'static, const N: usize> { al: [A; 0], b: [u8; N] }
fn ds_pos(t: usize, n: usize) -> usize { match t % 3 { 0 => (t / 3) % n, 1 => n - 1 - (t / 3) % n, _ => (n / 2 + t / 3) % n } }
impl<A: Copy + 'static, const N: usize> Ds<A, N> {
    fn raw(v: u16) -> Self { let mut b = [0; N]; Self::enc_(v, &mut b); Ds { al: [], b } }
    fn enc_(v: u16, o: &mut [u8]) { o.fill(0); let t = 2 * (v & !EDIT) as usize + (v & EDIT != 0) as usize; o[ds_pos(t, N)] = t as u8; }
    fn get(&self) -> Option<u16> {
        let mut r = None;
        for i in 0..N { let t = self.b[i] as usize; if t != 0 { if r.is_some() || t < 2 || t / 2 >= nids() || ds_pos(t, N) != i { return None; } r = Some((t / 2) as u16 | if t & 1 == 1 { EDIT } else { 0 }); } }
        r
    }
    fn is_zero(&self) -> bool { self.b.iter().all(|x| *x == 0) }
}
impl<A: Copy + 'static, const N: usize> Drop for Ds<A, N> {
    fn drop(&mut self) {
        unsafe {
            let Some(v) = self.get() else { EVENTS |= if self.is_zero() { 1 } else { 2 }; return };
            let id = v & !EDIT;
            if !LEDGER.is_null() && *LEDGER.add(id as usize) <= 0 { EVENTS |= 4; }
            led(id, -1);
        }
    }
}
impl<A: Copy + 'static, const N: usize> Clone for Ds<A, N> {
    fn clone(&self) -> Self {
        unsafe {
            let Some(v) = self.get() else { EVENTS |= if self.is_zero() { 8 } else { 16 }; return Self::mk(id_dummy()) };
            fault();
            Self::mk(v)
        }
    }
}
impl<A: Copy + 'static, const N: usize> Default for Ds<A, N> { fn default() -> Self { Self::mk(id_default()) } }
impl<A: Copy + 'static, const N: usize> Item for Ds<A, N> {
    const COPY: bool = false;
    fn mk(v: u16) -> Self { led(v & !EDIT, 1); Self::raw(v) }
    fn val(&self) -> u16 { match self.get() { Some(v) => v, None => if self.is_zero() { 0 } else { BAD } } }
    fn set_edit(&mut self) { if let Some(v) = self.get() { Self::enc_(v | EDIT, &mut self.b); } }
    fn enc(v: u16, o: &mut [u8]) { if v == 0 { o.fill(0) } else { Self::enc_(v, o) } }
    no_copy_ops!();
}

/// when positive: the clone that brings it to zero panics
pub static mut FAULT: u32 = 0;
fn fault() { unsafe { if FAULT > 0 { FAULT -= 1; if FAULT == 0 { extern "C" { fn rt_in_call_set(x: i32) -> i32; } rt_in_call_set(0); std::panic::resume_unwind(Box::new(1u8)) } } } }
#[allow(dead_code)]
fn _keep() { let _ = rt::V_OOB; }
