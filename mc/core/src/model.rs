//! Operation alphabet and the reference model (a queue of positions; no index arithmetic of the crate).
use crate::item::*;

pub const P: usize = 0;
pub const W: usize = 1;
pub const C: usize = 2;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Default)]
pub struct Op { pub c: u8, pub s: u8, pub k: u8, pub n: u16, pub a: u8 }

// op classes
pub const CALL: u8 = 1;    // request k on stage s for n slots; a: 1 = advance over what a zero-copy getter granted
pub const AVAIL: u8 = 2;
pub const WAIT: u8 = 3;
pub const ADV: u8 = 4;
pub const RESET: u8 = 5;   // plain / async: publishes; detached: local
pub const DETACH: u8 = 6;
pub const ATTACH: u8 = 7;
pub const SYNC: u8 = 8;
pub const BACK: u8 = 9;
pub const SET: u8 = 10;    // n = distance from published position
pub const TOASYNC: u8 = 11;
pub const TOSYNC: u8 = 12;
pub const DROP: u8 = 13;
pub const FNEW: u8 = 14;
pub const FPOLL: u8 = 15;  // a = waker
pub const FDROP: u8 = 16;
pub const RESPLIT: u8 = 17; // n = 1: with worker
pub const DROPBUF: u8 = 18; // stack buffers
pub const ALIVE: u8 = 19;   // n = whose flag
pub const GETIDX: u8 = 20;  // n = whose published index
pub const AWAIT: u8 = 21;   // CONC: create the future of k, poll on every wake-up, at most n' times

// request kinds
pub const K_PUSH: u8 = 1; pub const K_PUSHI: u8 = 2; pub const K_PUSHS: u8 = 3; pub const K_PUSHSI: u8 = 4; pub const K_PUSHC: u8 = 5; pub const K_PUSHCI: u8 = 6;
pub const K_GET1: u8 = 7; pub const K_GETI1: u8 = 8; pub const K_GETS: u8 = 9;
pub const K_WORK1: u8 = 10; pub const K_SLX: u8 = 11; pub const K_SLA: u8 = 12; pub const K_SLM: u8 = 13;
pub const K_PEEK1: u8 = 14; pub const K_PEEKS: u8 = 15; pub const K_PEEKA: u8 = 16; pub const K_POP: u8 = 17; pub const K_POPM: u8 = 18;
pub const K_COPY1: u8 = 19; pub const K_CLONE1: u8 = 20; pub const K_COPYS: u8 = 21; pub const K_CLONES: u8 = 22;

pub fn kname(k: u8) -> &'static str {
    ["?", "push", "push_init", "push_slice", "push_slice_init", "push_slice_clone", "push_slice_clone_init", "get_next_item_mut", "get_next_item_mut_init", "get_next_slices_mut",
     "get_workable", "get_workable_slice_exact", "get_workable_slice_avail", "get_workable_slice_multiple_of", "peek_ref", "peek_slice", "peek_available", "pop", "pop_move",
     "copy_item", "clone_item", "copy_slice", "clone_slice"][k as usize]
}
/// requests that hand out slots and leave advancing to the caller
pub fn zero_copy(k: u8) -> bool { (K_GET1..=K_PEEKA).contains(&k) }
pub fn sized(k: u8) -> bool { matches!(k, K_PUSHS | K_PUSHSI | K_PUSHC | K_PUSHCI | K_GETS | K_SLX | K_SLM | K_PEEKS | K_COPYS | K_CLONES) }
pub fn plain_write(k: u8) -> bool { matches!(k, K_PUSH | K_PUSHS | K_PUSHC | K_GET1 | K_GETS | K_WORK1 | K_SLX | K_SLA | K_SLM) }
pub fn has_async(k: u8) -> bool { !matches!(k, K_PUSHI | K_PUSHSI | K_PUSHCI) }
pub fn copy_only(k: u8) -> bool { matches!(k, K_PUSHS | K_PUSHSI | K_COPY1 | K_COPYS) }
pub fn common(k: u8) -> bool { (K_WORK1..=K_SLM).contains(&k) }

/// requests for numbers that no ring can hold are written as 0xfff0 and up
pub const HUGE: u16 = 0xfff0;
pub const NHUGE: u16 = 5;
pub fn real_n(n: u16, len: u64) -> usize { match n { 0xfff0 => usize::MAX, 0xfff1 => usize::MAX - 1, 0xfff2 => 1 << 63, 0xfff3 => usize::MAX - len as usize + 1, 0xfff4 => 1 << 32, n => n as usize } }
fn ntext(n: u16) -> String { match n { 0xfff0 => "usize::MAX".into(), 0xfff1 => "usize::MAX-1".into(), 0xfff2 => "1<<63".into(), 0xfff3 => "usize::MAX-len+1".into(), 0xfff4 => "1<<32".into(), n => n.to_string() } }
impl Op {
    pub fn pack(&self) -> u64 { self.c as u64 | (self.s as u64) << 8 | (self.k as u64) << 16 | (self.n as u64) << 24 | (self.a as u64) << 40 }
    pub fn unpack(x: u64) -> Op { Op { c: x as u8, s: (x >> 8) as u8, k: (x >> 16) as u8, n: (x >> 24) as u16, a: (x >> 40) as u8 } }
    pub fn text(&self) -> String {
        let s = ["prod", "work", "cons"].get(self.s as usize).copied().unwrap_or("?");
        let n = self.n;
        match self.c {
            CALL => format!("{s}.{}({}){}", kname(self.k), if sized(self.k) { ntext(n) } else { String::new() }, match self.a { 0 => String::new(), 1 => "+advance".into(), a => format!(" while clone {} panics", a - 1) }),
            AVAIL => format!("{s}.available()"), WAIT => format!("{s}.wait_for({n})"), ADV => format!("{s}.advance({n})"), RESET => format!("{s}.reset_index()"),
            DETACH => format!("{s}.detach()"), ATTACH => format!("{s}.attach()"), SYNC => format!("{s}.sync_index()"), BACK => format!("{s}.go_back({n})"),
            SET => format!("{s}.set_index(published+{n})"), TOASYNC => format!("{s}.from_sync"), TOSYNC => format!("{s}.into_sync"), DROP => format!("drop({s})"),
            FNEW => format!("{s}.future {}({n})", kname(self.k)), FPOLL => format!("{s}.poll(waker {})", self.a), FDROP => format!("{s}.drop future"),
            RESPLIT => if n == 1 { "split_mut again".into() } else { "split again".into() }, DROPBUF => "drop(buffer)".into(),
            ALIVE => format!("{s}.is_{}_alive()", ["prod", "work", "cons"][n as usize]), GETIDX => format!("{s}.{}_index()", ["prod", "work", "cons"][n as usize]), AWAIT => format!("{s}.{}({n}).await", kname(self.k)), _ => "?".into(),
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Obs {
    pub st: u8,          // 0 refused 1 done 2 pending 3 panic 4 mismatched kind of answer
    pub n: u32,          // number reported / granted
    pub vals: Vec<u16>,  // values obtained
    pub pos: Vec<u16>,   // ring slot of every element of a granted slice
    pub back: u16,       // value handed back by a refused push
    pub dst_ok: bool,    // destination untouched (refused) / guards intact
    pub src_ok: bool,    // source slice untouched
}
impl Obs { pub fn clear(&mut self) { self.st = 0; self.n = 0; self.vals.clear(); self.pos.clear(); self.back = 0; self.dst_ok = true; self.src_ok = true; } }

#[derive(Clone, Copy, Default, Debug, PartialEq)]
pub struct Fut { pub on: bool, pub k: u8, pub n: u16, pub polled: bool, pub waker: u8 }

// forms
pub const F_NONE: u8 = 0; pub const F_PLAIN: u8 = 1; pub const F_DET: u8 = 2; pub const F_ASYNC: u8 = 3; pub const F_ADET: u8 = 4;

pub const T_RESET: u32 = 1; pub const T_DET: u32 = 2; pub const T_FUT: u32 = 4; pub const T_RESPLIT: u32 = 8; pub const T_MOVE: u32 = 16; pub const T_DROP: u32 = 32; pub const T_ZERO: u32 = 64; pub const T_PRESET: u32 = 128;

#[derive(Clone, Debug)]
pub struct Model {
    pub len: u64, pub w3: bool, pub copy: bool, pub heap: bool,
    pub publ: [u64; 3], pub loc: [u64; 3],
    pub form: [u8; 3], pub alive: [bool; 3],
    pub fut: [Fut; 3],
    pub slots: Vec<u16>,
    pub taint: u32,
    pub gone: bool,
    pub resplits: u8,
}

impl Model {
    pub fn new(len: usize, w3: bool, copy: bool, heap: bool, slots: Vec<u16>, forms: u8) -> Model {
        Model { len: len as u64, w3, copy, heap, publ: [0; 3], loc: [0; 3], form: [forms, if w3 { forms } else { 0 }, forms], alive: [true, w3, true], fut: Default::default(), slots, taint: 0, gone: false, resplits: 0 }
    }
    pub fn limit(&self, s: usize) -> u64 {
        match s { P => self.publ[C] + self.len - 1, W => self.publ[P], _ => if self.w3 { self.publ[W] } else { self.publ[P] } }
    }
    pub fn avail(&self, s: usize) -> u64 { self.limit(s).saturating_sub(self.loc[s]) }
    pub fn slot(&self, pos: u64) -> usize { (pos % self.len) as usize }
    pub fn stages(&self) -> impl Iterator<Item = usize> { let w = self.w3; (0..3).filter(move |s| *s != W || w) }
    pub fn prepared(&self, n: u64) -> bool { (0..n).all(|i| { let p = self.loc[P] + i; self.slots[self.slot(p)] == idx_push(p) }) }
    fn occupied(&self, s: usize, n: u64) -> bool { (0..n).all(|i| self.slots[self.slot(self.loc[s] + i)] != 0) }

    /// number of slots the request k(n) asks for (given availability)
    pub fn want(&self, s: usize, k: u8, n: u64) -> u64 {
        let av = self.avail(s);
        match k {
            K_PUSHS | K_PUSHSI | K_PUSHC | K_PUSHCI | K_GETS | K_SLX | K_PEEKS | K_COPYS | K_CLONES => n,
            K_SLA | K_PEEKA => av,
            K_SLM => if n == 0 { 0 } else { av - av % n },
            _ => 1,
        }
    }
    /// granted?  None: unspecified (a request for nothing)
    pub fn granted(&self, s: usize, k: u8, n: u64) -> Option<bool> {
        let w = self.want(s, k, n);
        if w == 0 { return match k { K_SLA | K_SLM => Some(false), _ => None }; }
        Some(w <= self.avail(s))
    }
    fn norm(&mut self) {
        let m = 2 * self.len;
        let lo = *self.publ.iter().chain(self.loc.iter()).min().unwrap();
        if lo >= m { let d = lo / m * m; for i in 0..3 { self.publ[i] -= d; self.loc[i] -= d; } }
    }
    fn publish(&mut self, s: usize) { self.publ[s] = self.loc[s]; if !self.w3 { self.publ[W] = self.publ[C]; self.loc[W] = self.publ[C]; } }

    /// the effect of op, and what must be observed
    pub fn apply(&mut self, op: &Op, e: &mut Obs) {
        e.clear();
        e.st = 1;
        let s = op.s as usize;
        let n = op.n as u64;
        match op.c {
            CALL if op.a >= 2 => e.st = 3,
            CALL => self.request(s, op.k, n, op.a == 1, e),
            AVAIL => e.n = self.avail(s) as u32,
            WAIT => {}
            ADV => { self.loc[s] += n; if self.form[s] == F_PLAIN || self.form[s] == F_ASYNC { self.publish(s); } }
            RESET => {
                if s == P { self.taint |= T_PRESET; }
                self.taint |= T_RESET;
                if s != P { self.loc[s] = self.limit(s); }
                if self.form[s] == F_PLAIN || self.form[s] == F_ASYNC { self.publish(s); }
            }
            DETACH => { self.taint |= T_DET; self.form[s] = if self.form[s] == F_PLAIN { F_DET } else { F_ADET }; }
            ATTACH => { self.form[s] = if self.form[s] == F_DET { F_PLAIN } else { F_ASYNC }; self.publish(s); }
            SYNC => self.publish(s),
            BACK => self.loc[s] -= n,
            SET => self.loc[s] = self.publ[s] + n,
            TOASYNC => self.form[s] = F_ASYNC,
            TOSYNC => self.form[s] = F_PLAIN,
            DROP => { self.taint |= T_DROP; self.form[s] = F_NONE; self.alive[s] = false; self.loc[s] = self.publ[s]; if self.heap && !self.alive.iter().any(|a| *a) { self.gone = true; } }
            FNEW => { self.taint |= T_FUT; self.fut[s] = Fut { on: true, k: op.k, n: op.n, polled: false, waker: 0 }; }
            FPOLL => {
                let f = self.fut[s];
                match self.granted(s, f.k, f.n as u64) {
                    Some(false) => { e.st = 2; self.fut[s].polled = true; self.fut[s].waker = op.a; }
                    _ => { self.fut[s] = Fut::default(); self.request(s, f.k, f.n as u64, false, e); }
                }
            }
            FDROP => self.fut[s] = Fut::default(),
            DROPBUF => self.gone = true,
            RESPLIT => { self.taint |= T_RESPLIT; self.resplits += 1; self.w3 = n == 1; self.form = [F_PLAIN, if n == 1 { F_PLAIN } else { 0 }, F_PLAIN]; self.alive = [true, n == 1, true]; }
            _ => unreachable!(),
        }
        self.norm();
    }
    fn request(&mut self, s: usize, k: u8, n: u64, adv: bool, e: &mut Obs) {
        let w = self.want(s, k, n);
        if self.granted(s, k, n) == Some(false) || (w == 0 && k != K_PEEKA) {
            e.st = 0;
            if matches!(k, K_PUSH | K_PUSHI) { e.back = idx_push(self.loc[P]); }
            return;
        }
        e.n = w as u32;
        for i in 0..w {
            let pos = self.loc[s] + i;
            let sl = self.slot(pos);
            if zero_copy(k) { e.pos.push(sl as u16); }
            match s {
                P => self.slots[sl] = idx_push(pos),
                W => { e.vals.push(self.slots[sl]); self.slots[sl] |= EDIT; }
                _ => { e.vals.push(self.slots[sl]); if k == K_POPM { self.slots[sl] = 0; self.taint |= T_MOVE; } }
            }
        }
        if !zero_copy(k) || adv { self.loc[s] += w; if self.form[s] == F_PLAIN || self.form[s] == F_ASYNC { self.publish(s); } }
    }
    /// every contract-respecting operation of the alphabet in this state
    pub fn ops(&self, al: &Alph, out: &mut Vec<Op>) {
        out.clear();
        if self.gone { return; }
        let maxn = if al.overask { self.len + 1 } else { self.len };
        for s in self.stages() {
            let f = self.form[s];
            if f == F_NONE { continue; }
            let sb = s as u8;
            let o = |c: u8, k: u8, n: u64, a: u8| Op { c, s: sb, k, n: n as u16, a };
            if self.fut[s].on {
                let (fk, fn_) = (self.fut[s].k, self.fut[s].n as u64);
                // a future that would now write (plainly) or read a vacated slot is outside the documented rules
                let w = self.want(s, fk, fn_);
                let illegal = self.granted(s, fk, fn_) == Some(true) && ((s == P && plain_write(fk) && !self.occupied(P, w)) || (s == C && !self.occupied(C, w)));
                if !illegal {
                    out.push(o(FPOLL, fk, fn_, 0));
                    if al.wakers > 1 { out.push(o(FPOLL, fk, fn_, 1)); }
                }
                out.push(o(FDROP, fk, fn_, 0));
                continue;
            }
            let av = self.avail(s);
            // requests
            if f == F_PLAIN || f == F_DET || (f == F_ASYNC && al.futs) {
                for &k in al.kinds(s) {
                    if (copy_only(k) || (k == K_POP && f == F_ASYNC)) && !self.copy { continue; }
                    if f == F_DET && !common(k) { continue; }
                    if f == F_ASYNC && !has_async(k) { continue; }
                    // futures of every kind on the chosen stages, one kind on the others
                    if f == F_ASYNC && al.rich != 0 && al.rich & (1 << s) == 0 && k != [K_PUSH, K_WORK1, if self.copy { K_POP } else { K_CLONE1 }][s] { continue; }
                    if al.overask && matches!(k, K_SLX | K_GETS | K_PEEKS | K_SLM) && !(s == P && plain_write(k) && self.slots.iter().any(|x| *x == 0) && !al.plain_refused) {
                        for h in 0..NHUGE { out.push(o(if f == F_ASYNC { FNEW } else { CALL }, k, (HUGE + h) as u64, 0)); if f == F_ASYNC { break; } }
                    }
                    let (lo, hi) = if k == K_SLM { (1, al.maxmul.min(self.len + 1)) } else if sized(k) { (al.minn, maxn) } else { (0, 0) };
                    for n in lo..=hi {
                        if al.sparse && sized(k) && k != K_SLM && !al.keep_n(n, self.len, av) { continue; }
                        let w = self.want(s, k, n);
                        let g = w <= av && w > 0;
                        if g {
                            if s == P && plain_write(k) && !self.occupied(P, w) { continue; }
                            if s == P && !self.copy && common(k) && !al.prodwork { continue; }
                            if s == C && !self.occupied(C, w) { continue; }
                            if k == K_POP && !self.copy { continue; }
                        } else if s == P && plain_write(k) && self.slots.iter().any(|x| *x == 0) && !al.plain_refused { continue; }
                        if f == F_ASYNC { out.push(o(FNEW, k, n, 0)); continue; }
                        if g && al.fault && f == F_PLAIN && !self.copy && matches!(k, K_PUSHC | K_PUSHCI | K_CLONES | K_CLONE1) { for j in 0..w { out.push(o(CALL, k, n, 2 + j as u8)); } }
                        if !zero_copy(k) { out.push(o(CALL, k, n, 0)); continue; }
                        if al.adv0 || !g { out.push(o(CALL, k, n, 0)); }
                        if g { out.push(o(CALL, k, n, 1)); }
                    }
                }
            }
            if f == F_PLAIN || f == F_DET || f == F_ASYNC {
                if al.avail { out.push(o(AVAIL, 0, 0, 0)); }
            }
            if al.wait && (f == F_PLAIN || f == F_DET) { for n in 1..=av { out.push(o(WAIT, 0, n, 0)); } }
            if al.adv || f == F_ADET || f == F_DET {
                for n in 1..=av {
                    if s == P && !self.prepared(n) { break; }
                    if al.sparse && n > 2 && n < av { continue; }
                    out.push(o(ADV, 0, n, 0));
                }
            }
            if al.reset && s != P && (f == F_PLAIN || f == F_ASYNC) { out.push(o(RESET, 0, 0, 0)); }
            if al.preset && s == P && f == F_DET && self.taint & T_PRESET == 0 { out.push(o(RESET, 0, 0, 0)); }
            if al.det & (1 << s) != 0 && (f == F_PLAIN || (f == F_ASYNC && al.adet)) { out.push(o(DETACH, 0, 0, 0)); }
            if f == F_DET || f == F_ADET {
                out.push(o(ATTACH, 0, 0, 0));
                out.push(o(SYNC, 0, 0, 0));
                let win = self.loc[s] - self.publ[s];
                for n in 1..=win { out.push(o(BACK, 0, n, 0)); }
                if f == F_DET {
                    if al.set {
                        for n in 0..=(self.limit(s) - self.publ[s]) {
                            if s == P { let ok = (0..n).all(|i| { let p = self.publ[P] + i; self.slots[self.slot(p)] == idx_push(p) }); if !ok { break; } }
                            out.push(o(SET, 0, n, 0));
                        }
                    }
                    if s != P && al.dreset { out.push(o(RESET, 0, 0, 0)); }
                }
            }
            if al.conv & (1 << s) != 0 {
                if f == F_PLAIN { out.push(o(TOASYNC, 0, 0, 0)); }
                if f == F_ASYNC { out.push(o(TOSYNC, 0, 0, 0)); }
            }
            if al.drop { out.push(o(DROP, 0, 0, 0)); }
        }
        if !self.heap && self.form == [0; 3] {
            if al.resplit > self.resplits { out.push(Op { c: RESPLIT, s: 0, k: 0, n: 0, a: 0 }); out.push(Op { c: RESPLIT, s: 0, k: 0, n: 1, a: 0 }); }
            if al.drop { out.push(Op { c: DROPBUF, s: 0, k: 0, n: 0, a: 0 }); }
        }
    }
    pub fn key(&self, v: &mut Vec<u8>) {
        v.clear();
        let m = 2 * self.len;
        for s in 0..3 {
            v.extend_from_slice(&((self.publ[s] % m) as u16).to_ne_bytes());
            v.extend_from_slice(&((self.loc[s] % m) as u16).to_ne_bytes());
            v.push(self.form[s] | (self.alive[s] as u8) << 4);
            let f = self.fut[s];
            v.push(f.on as u8 | (f.polled as u8) << 1 | f.waker << 2);
            v.push(f.k);
            v.extend_from_slice(&f.n.to_ne_bytes());
        }
        for x in &self.slots { v.extend_from_slice(&x.to_ne_bytes()); }
        v.push(self.taint as u8);
        v.push(self.gone as u8 | (self.w3 as u8) << 1 | self.resplits << 2);
        // relative distances (positions are reduced mod 2 len)
        v.push((self.publ[P] - self.publ[C]) as u8);
    }
}

#[derive(Clone, Debug)]
pub struct Alph {
    pub k: [Vec<u8>; 3],
    pub minn: u64, pub overask: bool, pub maxmul: u64, pub adv0: bool, pub avail: bool, pub wait: bool, pub adv: bool, pub reset: bool, pub preset: bool,
    pub det: u8, pub adet: bool, pub set: bool, pub dreset: bool, pub conv: u8, pub futs: bool, pub rich: u8, pub wakers: u8, pub drop: bool, pub resplit: u8, pub sparse: bool,
    pub prodwork: bool, pub plain_refused: bool, pub fault: bool,
}
impl Default for Alph {
    fn default() -> Self {
        Alph { k: [vec![], vec![], vec![]], minn: 0, overask: false, maxmul: 3, adv0: true, avail: true, wait: false, adv: true, reset: false, preset: false, det: 0, adet: false, set: false, dreset: false, conv: 0,
            futs: false, rich: 0, wakers: 1, drop: false, resplit: 0, sparse: false, prodwork: true, plain_refused: true, fault: false }
    }
}
impl Alph {
    fn kinds(&self, s: usize) -> &[u8] { &self.k[s] }
    fn keep_n(&self, n: u64, len: u64, av: u64) -> bool { n <= 1 || n + 1 >= len || n == av || n == av + 1 || n == len / 2 || n + 1 == av }
    /// comma separated: item,slice,init,zc,clone,move,reset,det,...
    pub fn parse(s: &str) -> Alph {
        let mut a = Alph::default();
        for t in s.split(',').filter(|t| !t.is_empty()) {
            match t {
                "item" => { a.k[P].push(K_PUSH); a.k[C].extend([K_POP, K_PEEK1]); a.k[W].push(K_WORK1); }
                "itemd" => { a.k[P].push(K_PUSH); a.k[C].extend([K_PEEK1, K_CLONE1]); a.k[W].push(K_WORK1); }
                "copy1" => { a.k[C].push(K_COPY1); }
                "clone1" => { a.k[C].push(K_CLONE1); }
                "slice" => { a.k[P].push(K_PUSHS); a.k[C].extend([K_COPYS, K_PEEKS]); a.k[W].push(K_SLX); }
                "pushc" => { a.k[P].push(K_PUSHC); }
                "pushci" => { a.k[P].push(K_PUSHCI); }
                "clones" => { a.k[C].push(K_CLONES); }
                "init" => { a.k[P].extend([K_PUSHI, K_PUSHSI, K_PUSHCI]); }
                "pushi" => { a.k[P].push(K_PUSHI); }
                "zc" => { a.k[P].extend([K_GET1, K_GETS]); }
                "geti" => { a.k[P].push(K_GETI1); }
                "pwork" => { a.k[P].extend([K_WORK1, K_SLX, K_SLA, K_SLM]); }
                "cwork" => { a.k[C].extend([K_WORK1, K_SLX, K_SLA, K_SLM]); }
                "wavail" => { a.k[W].extend([K_SLA, K_SLM]); }
                "peeka" => { a.k[C].push(K_PEEKA); }
                "move" => { a.k[C].push(K_POPM); }
                "noadv0" => a.adv0 = false, "noavail" => a.avail = false, "noadv" => a.adv = false, "wait" => a.wait = true,
                "over" => a.overask = true, "min1" => a.minn = 1, "reset" => a.reset = true, "preset" => a.preset = true,
                "detp" => a.det |= 1, "detw" => a.det |= 2, "detc" => a.det |= 4, "adet" => a.adet = true, "set" => a.set = true, "dreset" => a.dreset = true,
                "conv" => a.conv = 7, "convp" => a.conv |= 1, "convw" => a.conv |= 2, "convc" => a.conv |= 4, "futs" => a.futs = true, "fp" => { a.futs = true; a.rich |= 1; } "fw" => { a.futs = true; a.rich |= 2; } "fc" => { a.futs = true; a.rich |= 4; } "wakers" => a.wakers = 2, "drop" => a.drop = true, "sparse" => a.sparse = true,
                "resplit" => a.resplit = 1, "resplit2" => a.resplit = 2, "noprodwork" => a.prodwork = false, "mul" => a.maxmul = 64, "fault" => a.fault = true, "noplainref" => a.plain_refused = false,
                _ => panic!("alphabet: {t}"),
            }
        }
        for i in 0..3 { a.k[i].sort(); a.k[i].dedup(); }
        a
    }
}
