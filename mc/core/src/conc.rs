//! Stateless exploration of two or three threads under the C11 model (engine CONC).
use crate::item::*;
use crate::model::*;
use crate::rt;
use crate::sys::*;

pub const KN: [&str; 23] = ["consumer-value", "lost", "race-slot", "race-other", "race-release", "overlap", "granted-beyond-available", "available-over-reports", "use-after-free", "double-free", "leak", "bad-free",
    "dead-peer-view", "dead-too-early", "unbounded-steps", "not-woken", "panic", "refused-value-altered", "destructor-ledger", "empty-slot-read-or-dropped", "out-of-bounds", "worker-value", "published-index"];
pub const VALUE: u32 = 0; pub const LOST: u32 = 1; pub const RACE_SLOT: u32 = 2; pub const RACE_OTHER: u32 = 3; pub const RACE_REL: u32 = 4; pub const OVERLAP: u32 = 5; pub const GRANT: u32 = 6; pub const OVER: u32 = 7;
pub const UAF: u32 = 8; pub const DFREE: u32 = 9; pub const LEAK: u32 = 10; pub const BADFREE: u32 = 11; pub const DEADVIEW: u32 = 12; pub const EARLY: u32 = 13; pub const STEPS: u32 = 14; pub const WAKE: u32 = 15; pub const PANIC: u32 = 16;
pub const RETVAL: u32 = 17; pub const LEDG: u32 = 18; pub const ZERO: u32 = 19; pub const OOB: u32 = 20; pub const WVAL: u32 = 21; pub const PUBX: u32 = 22;
pub fn knames(d: u32) -> String { (0..KN.len()).filter(|i| d >> i & 1 == 1).map(|i| KN[i]).collect::<Vec<_>>().join("+") }
pub fn kmask(s: &str) -> u32 { if s == "all" { return !0; } s.split(',').filter(|t| !t.is_empty()).map(|t| 1u32 << KN.iter().position(|n| *n == t).unwrap_or_else(|| panic!("kind {t}"))).fold(0, |a, b| a | b) }

/// what one thread may do
#[derive(Clone, Debug, Default)]
pub struct Talph { pub k: u32, pub toks: Vec<String> }
impl Talph {
    /// "3:item,slice,det"
    pub fn parse(s: &str) -> Talph { let (k, t) = s.split_once(':').unwrap_or((s, "")); Talph { k: k.parse().unwrap(), toks: t.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect() } }
    fn has(&self, t: &str) -> bool { self.toks.iter().any(|x| x == t) }
}

#[derive(Clone, Copy, Default)]
struct Lst { loc: u64, publ: u64, pold: u64, wait: u64, form: u8, granted: u64, edited: u128, prepared: u64, dropped: bool, indrop: bool, fut: bool, fk: u8, fnn: u16 }

pub struct Conc {
    pub dut: Box<dyn Dut>, pub len: usize, pub w3: bool, pub forms: u8, pub alph: [Talph; 3], pub pre: [u64; 3], pub sc: bool, pub mask: u32, pub polls: u32,
    pub order: Vec<usize>, // thread t (1..) runs stage order[t-1]
    l: [Lst; 3], own: Vec<u8>, obs: [Obs; 3], copy: bool, pub verbose: bool, pub msg: String, pub hits: u64, pub viol: u32, pub outcomes: std::collections::HashSet<u64>, hist: u64,
    pub granted: u64, pub refused: u64, pub other: u32,
}

struct Ops { v: [Op; 24], n: usize }
impl Ops { fn add(&mut self, o: Op) { if self.n < 24 { self.v[self.n] = o; self.n += 1; } } }

impl Conc {
    pub fn new(dut: Box<dyn Dut>, len: usize, w3: bool, forms: u8, alph: [Talph; 3], pre: [u64; 3], sc: bool, mask: u32) -> Conc {
        let copy = dut.is_copy();
        let order = if w3 { vec![P, W, C] } else { vec![P, C] };
        Conc { dut, len, w3, forms, alph, pre, sc, mask, polls: 3, order, l: Default::default(), own: vec![0; len], obs: Default::default(), copy, verbose: false, msg: String::new(), hits: 0, viol: 0, outcomes: Default::default(), hist: 0, granted: 0, refused: 0, other: 0 }
    }
    fn fail(&mut self, k: u32, m: String) { self.msg = m; unsafe { rt::rt_fail(k, rt::rt_nviol() as u64 + 1, k as u64) } }
    /// a finding of this kind ends the run only if it is among the property's own; otherwise the consequences are followed
    fn soft(&mut self, k: u32, m: String) -> bool { if self.mask >> k & 1 == 1 { self.fail(k, m); true } else { self.other |= 1 << k; false } }
    fn cx(&self) -> Cx { Cx { len: self.len as u64, lp: self.l[P].loc, publ: [self.l[P].publ, self.l[W].publ, self.l[C].publ] } }
    /// own index and the three published indices as they are in memory now
    unsafe fn truth(&mut self, s: usize) -> Option<([usize; 3], usize)> {
        let f = self.l[s].form;
        if self.l[s].dropped || !matches!(f, F_PLAIN | F_DET | F_ASYNC) { return None; }
        let mut o = Ov { idx: [-1; 3], publ: [[-1; 3]; 3], alive: [[-1; 3]; 3], blen: [-1; 3] };
        let m = rt::rt_set_mode_raw(0);
        self.dut.observe1(s, &mut o);
        rt::rt_set_mode_raw(m);
        if o.idx[s] < 0 { return None; }
        // what a detached iterator has published: the position of its last synchronisation, or that of the one under way
        for q in 0..3 {
            let l = self.l[q];
            if !matches!(l.form, F_DET | F_ADET) || l.dropped && !l.indrop { continue; }
            let (i, n) = (o.publ[s][q] as u64, self.len as u64);
            if i != l.publ % n && i != l.pold % n { self.soft(PUBX, format!("the detached {} is seen at slot {i}; it published {} and then {}", ["producer", "worker", "consumer"][q], l.pold % n, l.publ % n)); }
        }
        Some(([o.publ[s][0] as usize, o.publ[s][1] as usize, o.publ[s][2] as usize], o.idx[s] as usize))
    }
    fn dist(&self, s: usize, t: &([usize; 3], usize), i0: usize) -> usize {
        let n = self.len;
        let a = match s { P => t.0[C] + n - 1, W => t.0[P], _ => if self.w3 { t.0[W] } else { t.0[P] } };
        (a % n + n - i0 % n) % n
    }
    fn list(&self, s: usize, v: &mut Ops) {
        let a = &self.alph[s];
        let l = &self.l[s];
        let o = |c: u8, k: u8, n: u64, x: u8| Op { c, s: s as u8, k, n: n as u16, a: x };
        v.n = 0;
        if l.dropped { return; }
        let pop = if self.copy { K_POP } else { K_CLONE1 };
        match l.form {
            F_PLAIN => {
                for t in &a.toks {
                    let (t, n) = match t.strip_suffix('3') { Some(t) => (t, 3), None => (t.as_str(), 2) };
                    match (t, s) {
                        ("item", P) => v.add(o(CALL, K_PUSH, 1, 0)),
                        ("item", W) => v.add(o(CALL, K_WORK1, 1, 1)),
                        ("item", _) => v.add(o(CALL, pop, 1, 0)),
                        ("clone", C) => v.add(o(CALL, K_CLONE1, 1, 0)),
                        ("slice", P) => v.add(o(CALL, if self.copy { K_PUSHS } else { K_PUSHC }, n, 0)),
                        ("slice", W) => v.add(o(CALL, K_SLX, n, 1)),
                        ("slice", _) => v.add(o(CALL, if self.copy { K_COPYS } else { K_CLONES }, n, 0)),
                        ("init", P) => v.add(o(CALL, K_PUSHI, 1, 0)),
                        ("zc", P) => v.add(o(CALL, K_GETS, n, 1)),
                        ("zc", W) => v.add(o(CALL, K_SLX, n, 1)),
                        ("zc", _) => v.add(o(CALL, K_PEEKS, n, 1)),
                        ("sla", P) => v.add(o(CALL, K_SLA, 0, 1)),
                        ("sla", W) => v.add(o(CALL, K_SLA, 0, 1)),
                        ("sla", _) => v.add(o(CALL, K_PEEKA, 0, 1)),
                        ("slm", _) => v.add(o(CALL, K_SLM, n, 1)),
                        ("hold", P) => v.add(o(CALL, K_GETS, n, 0)),
                        ("hold", W) => v.add(o(CALL, K_SLX, n, 0)),
                        ("hold", _) => v.add(o(CALL, K_PEEKS, n, 0)),
                        ("initc", P) => v.add(o(CALL, if self.copy { K_PUSHSI } else { K_PUSHCI }, n, 0)),
                        ("initcc", P) => v.add(o(CALL, K_PUSHCI, n, 0)),
                        ("pushc", P) => v.add(o(CALL, K_PUSHC, n, 0)),
                        ("geti", P) => v.add(o(CALL, K_GETI1, 1, 1)),
                        ("get1", P) => v.add(o(CALL, K_GET1, 1, 1)),
                        ("work1", P | C) => v.add(o(CALL, K_WORK1, 1, 1)),
                        ("slx", P | C) => v.add(o(CALL, K_SLX, n, 1)),
                        ("peek1", C) => v.add(o(CALL, K_PEEK1, 1, 1)),
                        ("popm", C) => v.add(o(CALL, K_POPM, 1, 0)),
                        ("copy1", C) => v.add(o(CALL, K_COPY1, 1, 0)),
                        ("clones", C) => v.add(o(CALL, K_CLONES, n, 0)),
                        ("sla2", C) => v.add(o(CALL, K_SLA, 0, 1)),
                        ("wait", _) => { v.add(o(WAIT, 0, 1, 0)); if self.len > 2 { v.add(o(WAIT, 0, 2, 0)); } }
                        ("avail", _) => v.add(o(AVAIL, 0, 0, 0)),
                        ("reset", W | C) => v.add(o(RESET, 0, 0, 0)),
                        ("det", _) => v.add(o(DETACH, 0, 0, 0)),
                        ("drop", _) => v.add(o(DROP, 0, 0, 0)),
                        ("alive", P) => v.add(o(ALIVE, 0, C as u64, 0)),
                        ("alive", W) => v.add(o(ALIVE, 0, P as u64, 0)),
                        ("alive", _) => v.add(o(ALIVE, 0, if self.w3 { W } else { P } as u64, 0)),
                        ("alive2", P) => if self.w3 { v.add(o(ALIVE, 0, W as u64, 0)) },
                        ("alive2", W) => v.add(o(ALIVE, 0, C as u64, 0)),
                        ("alive2", _) => v.add(o(ALIVE, 0, P as u64, 0)),
                        _ => {}
                    }
                }
                if a.has("hold") && l.granted > 0 { v.add(o(ADV, 0, 1, 0)); if l.granted > 1 { v.add(o(ADV, 0, l.granted, 0)); } }
            }
            F_DET => {
                if a.has("drop") { v.add(o(DROP, 0, 0, 0)); }
                v.add(o(CALL, K_SLX, 1, 1));
                if a.has("slice") { v.add(o(CALL, K_SLX, 2, 1)); }
                if a.has("sla") { v.add(o(CALL, K_SLA, 0, 1)); }
                v.add(o(SYNC, 0, 0, 0));
                v.add(o(ATTACH, 0, 0, 0));
                if a.has("avail") { v.add(o(AVAIL, 0, 0, 0)); }
                if a.has("wait") { v.add(o(WAIT, 0, 1, 0)); }
                if l.loc > l.publ { v.add(o(BACK, 0, 1, 0)); }
            }
            F_ASYNC => {
                for t in &a.toks {
                    let (t, n) = match t.strip_suffix('3') { Some(t) => (t, 3), None => (t.as_str(), 2) };
                    match (t, s) {
                        ("item", P) => v.add(o(AWAIT, K_PUSH, 1, 0)),
                        ("item", W) => v.add(o(AWAIT, K_WORK1, 1, 1)),
                        ("item", _) => v.add(o(AWAIT, pop, 1, 0)),
                        ("slice", P) => v.add(o(AWAIT, if self.copy { K_PUSHS } else { K_PUSHC }, n, 0)),
                        ("slice", W) => v.add(o(AWAIT, K_SLX, n, 1)),
                        ("slice", _) => v.add(o(AWAIT, if self.copy { K_COPYS } else { K_CLONES }, n, 0)),
                        ("pushc", P) => v.add(o(AWAIT, K_PUSHC, n, 0)),
                        ("geti", P) => v.add(o(AWAIT, K_GETI1, 1, 1)),
                        ("get1", P) => v.add(o(AWAIT, K_GET1, 1, 1)),
                        ("zc", P) => v.add(o(AWAIT, K_GETS, n, 1)),
                        ("zc", C) => v.add(o(AWAIT, K_PEEKS, n, 1)),
                        ("work1", P | C) => v.add(o(AWAIT, K_WORK1, 1, 1)),
                        ("slx", P | C) => v.add(o(AWAIT, K_SLX, n, 1)),
                        ("slm", _) => v.add(o(AWAIT, K_SLM, n, 1)),
                        ("peek1", C) => v.add(o(AWAIT, K_PEEK1, 1, 1)),
                        ("popm", C) => v.add(o(AWAIT, K_POPM, 1, 0)),
                        ("copy1", C) => v.add(o(AWAIT, K_COPY1, 1, 0)),
                        ("clone", C) => v.add(o(AWAIT, K_CLONE1, 1, 0)),
                        ("clones", C) => v.add(o(AWAIT, K_CLONES, n, 0)),
                        ("avail", _) => v.add(o(AVAIL, 0, 0, 0)),
                        ("sla", P | W) => v.add(o(AWAIT, K_SLA, 0, 1)),
                        ("sla", _) => v.add(o(AWAIT, K_PEEKA, 0, 1)),
                        ("drop", _) => v.add(o(DROP, 0, 0, 0)),
                        ("alive", P) => v.add(o(ALIVE, 0, C as u64, 0)),
                        ("alive", W) => v.add(o(ALIVE, 0, P as u64, 0)),
                        ("alive", _) => v.add(o(ALIVE, 0, if self.w3 { W } else { P } as u64, 0)),
                        ("det", _) => v.add(o(DETACH, 0, 0, 0)),
                        _ => {}
                    }
                }
            }
            F_ADET => {
                if a.has("drop") { v.add(o(DROP, 0, 0, 0)); }
                v.add(o(SYNC, 0, 0, 0));
                v.add(o(ATTACH, 0, 0, 0));
            }
            _ => {}
        }
    }
    fn want(&self, op: &Op, d: usize) -> usize { match op.k { K_SLA | K_PEEKA => d.max(1), K_SLM => if op.n as usize <= d { d - d % op.n as usize } else { d + 1 }, k if sized(k) => op.n as usize, _ => 1 } }
    unsafe fn x(&mut self, s: usize, op: &Op) {
        let cx = self.cx();
        let mut o = std::mem::take(&mut self.obs[s]);
        self.dut.exec_raw(op, &cx, &mut o);
        self.obs[s] = o;
        if EVENTS & 9 != 0 { self.fail(ZERO, format!("an empty slot was read or passed to a destructor")); }
        if EVENTS & 0x16 != 0 { self.fail(LEDG, format!("destructor or clone ran on a destroyed value or on garbage")); }
        EVENTS = 0;
    }
    unsafe fn step(&mut self, s: usize, op: &Op) {
        self.hist = self.hist.wrapping_mul(31);
        match op.c {
            AWAIT => {
                let w = self.dut.woken().add(2 * s);
                self.x(s, &Op { c: FNEW, ..*op });
                self.l[s].fut = true; self.l[s].fk = op.k; self.l[s].fnn = op.n;
                let mut n = 0;
                loop {
                    let pre = self.truth(s);
                    let t0 = pre;
                    self.x(s, &Op { c: FPOLL, a: 0, ..*op });
                    if rt::rt_nviol() != 0 { return; }
                    if self.obs[s].st != 2 { self.l[s].fut = false; self.done_request(s, &Op { c: CALL, ..*op }, t0); return; }
                    n += 1;
                    if self.verbose { eprintln!("        -> pending"); }
                    if n >= self.polls { break; }
                    rt::rt_wait(w);
                }
                self.l[s].fut = false;
                self.x(s, &Op { c: FDROP, ..*op });
            }
            CALL => {
                let pre = self.truth(s);
                self.x(s, &Op { a: 0, ..*op });
                if rt::rt_nviol() != 0 { return; }
                self.done_request(s, op, pre);
            }
            AVAIL => {
                let pre = self.truth(s);
                self.x(s, op);
                if rt::rt_nviol() != 0 || self.obs[s].st == 3 { return; }
                let n = self.obs[s].n as usize;
                if let (Some(p), Some(t)) = (pre, self.truth(s)) {
                    let d = self.dist(s, &t, p.1);
                    if n > d { self.soft(OVER, format!("{} = {n}, only {d} usable", op.text())); }
                    if self.sc && n < self.dist(s, &p, p.1) { self.fail(LOST, format!("{} = {n} although {} were published before the call (sequentially consistent run)", op.text(), self.dist(s, &p, p.1))); }
                }
                rt::rt_observe(n as u64);
            }
            WAIT => {
                let pre = self.truth(s);
                self.l[s].wait = op.n as u64;
                rt::rt_spin(1);
                self.x(s, op);
                rt::rt_spin(0);
                self.l[s].wait = 0;
                if rt::rt_nviol() != 0 || self.obs[s].st == 3 { return; }
                if let (Some(p), Some(t)) = (pre, self.truth(s)) { let d = self.dist(s, &t, p.1); if d < op.n as usize { self.soft(OVER, format!("{} returned, only {d} usable", op.text())); } }
                rt::rt_observe(77);
            }
            ADV => {
                let n = op.n as u64;
                self.disown(s, n);
                self.l[s].granted -= n; self.l[s].loc += n;
                self.x(s, op);
                if self.l[s].form == F_PLAIN { self.l[s].publ = self.l[s].loc; }
            }
            RESET => {
                self.disown(s, self.len as u64);
                self.l[s].granted = 0;
                let pre = self.truth(s);
                self.x(s, op);
                if rt::rt_nviol() != 0 { return; }
                if let (Some(p), Some(t)) = (pre, self.truth(s)) {
                    let k = (t.1 + self.len - p.1) % self.len;
                    let d = self.dist(s, &t, p.1);
                    if k > d && self.soft(GRANT, format!("reset_index moved the {} {k} slots, only {d} were released to it", ["producer", "worker", "consumer"][s])) { return; }
                    self.l[s].loc += k as u64; self.l[s].publ = self.l[s].loc;
                    rt::rt_observe(k as u64 + 100);
                }
            }
            ALIVE => {
                self.x(s, op);
                if rt::rt_nviol() != 0 { return; }
                let q = op.n as usize;
                if self.obs[s].n == 0 && (q != W || self.w3) {
                    if !self.l[q].indrop && !self.l[q].dropped { self.fail(EARLY, format!("{} is false while that iterator exists", op.text())); return; }
                    // everything the dead peer published must be visible now
                    let t = self.truth(s);
                    self.x(s, &Op { c: GETIDX, ..*op });
                    if rt::rt_nviol() != 0 { return; }
                    if let Some(t) = t { if self.obs[s].n as usize != t.0[q] { self.fail(DEADVIEW, format!("peer seen dead, but its published index is read as {} instead of {}", self.obs[s].n, t.0[q])); return; } }
                    let pred = match s { P => C, W => P, _ => if self.w3 { W } else { P } };
                    if q == pred {
                        self.x(s, &Op { c: AVAIL, s: s as u8, ..Default::default() });
                        if rt::rt_nviol() != 0 { return; }
                        if let Some(t) = self.truth(s) { let d = self.dist(s, &t, t.1); if (self.obs[s].n as usize) < d { self.fail(DEADVIEW, format!("peer seen dead, but only {} of the {d} slots it released are available", self.obs[s].n)); } }
                    }
                }
            }
            DETACH => { self.l[s].pold = self.l[s].publ; self.x(s, op); self.l[s].form = if self.l[s].form == F_PLAIN { F_DET } else { F_ADET }; }
            ATTACH => { self.l[s].pold = self.l[s].publ; self.l[s].publ = self.l[s].loc; self.x(s, op); self.l[s].form = if self.l[s].form == F_DET { F_PLAIN } else { F_ASYNC }; }
            SYNC => { self.l[s].pold = self.l[s].publ; self.l[s].publ = self.l[s].loc; self.x(s, op); self.l[s].pold = self.l[s].publ; }
            BACK => { self.l[s].loc -= op.n as u64; self.x(s, op); }
            DROP => { self.disown(s, self.len as u64); self.l[s].indrop = true; self.x(s, op); self.l[s].indrop = false; self.l[s].dropped = true; self.l[s].loc = self.l[s].publ; }
            _ => unreachable!(),
        }
        if self.obs[s].st == 3 { self.panic(op); }
    }
    fn panic(&mut self, op: &Op) { unsafe { let m = rt::PANIC_MSG.take().unwrap_or_default(); self.fail(PANIC, format!("{} panics: {m}", op.text())); } }
    unsafe fn done_request(&mut self, s: usize, op: &Op, pre: Option<([usize; 3], usize)>) {
        let (st, n) = (self.obs[s].st, self.obs[s].n as u64);
        if st == 3 { self.panic(op); return; }
        if st == 1 { self.granted += 1 } else { self.refused += 1 }
        let post = self.truth(s);
        if st == 1 {
            if let (Some(p), Some(t)) = (pre, post) {
                let d = self.dist(s, &t, p.1) as u64;
                if n > d && self.soft(GRANT, format!("{} granted, only {d} slot(s) were released to the {}", op.text(), ["producer", "worker", "consumer"][s])) { return; }
            }
            for (i, v) in self.obs[s].vals.clone().iter().enumerate() {
                let pos = self.l[s].loc + i as u64;
                let e = idx_push(pos) | if s != P && self.w3 && self.l[W].edited >> (pos & 127) & 1 == 1 { EDIT } else { 0 };
                rt::rt_observe(*v as u64 + 1000);
                self.hist = self.hist.wrapping_mul(31) + *v as u64;
                if *v != e && self.soft(if s == C { VALUE } else { WVAL }, format!("{}: item {pos} is {v:x} instead of {e:x}", op.text())) { return; }
            }
            if s == W { for i in 0..n { self.l[W].edited |= 1 << ((self.l[W].loc + i) & 127); } }
            if zero_copy(op.k) {
                // grants until advance
                for i in 0..self.obs[s].pos.len() {
                    let sl = self.obs[s].pos[i] as usize;
                    if sl >= self.len { self.fail(OOB, format!("{}: window outside the storage", op.text())); return; }
                    let me = s as u8 + 1;
                    if self.own[sl] != 0 && self.own[sl] != me { let w = self.own[sl] as usize - 1; if self.soft(OVERLAP, format!("{}: slot {sl} is still granted to the {}", op.text(), ["producer", "worker", "consumer"][w])) { return; } }
                    self.own[sl] = me;
                }
                if op.a == 1 && n > 0 {
                    rt::rt_observe(5);
                    self.disown(s, self.len as u64);
                    self.l[s].granted = 0;
                    self.l[s].loc += n;
                    let a = Op { c: ADV, s: s as u8, n: n as u16, ..Default::default() };
                    if matches!(self.l[s].form, F_PLAIN | F_ASYNC) { self.l[s].publ = self.l[s].loc; }
                    self.x(s, &a);
                    if self.obs[s].st == 3 { self.panic(&a); }
                } else { self.l[s].granted = self.l[s].granted.max(n); }
            } else {
                self.disown(s, n.max(1));
                self.l[s].granted = self.l[s].granted.saturating_sub(n);
                self.l[s].loc += n; self.l[s].publ = self.l[s].loc;
            }
        } else {
            if st == 4 { self.fail(OOB, format!("{}: window outside the storage", op.text())); return; }
            if matches!(op.k, K_PUSH | K_PUSHI) && op.c == CALL && self.obs[s].st == 0 && self.obs[s].back != idx_push(self.l[P].loc) { self.soft(RETVAL, format!("refused push hands back {:x}", self.obs[s].back)); }
            if self.sc { if let Some(p) = pre { let d = self.dist(s, &p, p.1); if d > 0 && self.want(op, d) <= d { self.fail(LOST, format!("{} refused although {d} slot(s) were released before the call (sequentially consistent run)", op.text())); } } }
        }
    }
    fn disown(&mut self, s: usize, n: u64) {
        let me = s as u8 + 1;
        for i in 0..(n as usize).min(self.len) { let k = (self.l[s].loc as usize + i) % self.len; if self.own[k] == me { self.own[k] = 0; } }
        if n as usize >= self.len { for x in self.own.iter_mut() { if *x == me { *x = 0; } } }
    }
    unsafe fn setup(&mut self) {
        self.l = Default::default();
        self.own.iter_mut().for_each(|x| *x = 0);
        self.hist = 7;
        EVENTS = 0;
        for s in 0..3 { if s != W || self.w3 { self.l[s].form = self.forms; } else { self.l[s].dropped = true; } }
        if !self.dut.init() { self.fail(PANIC, format!("construction failed")); return; }
        self.dut.activate();
        // a first, single-threaded part: puts the indices where the threads shall start
        for s in [P, W, C] {
            if s == W && !self.w3 { continue; }
            let k = match s { P => K_PUSH, W => K_WORK1, _ => if self.copy { K_POP } else { K_CLONE1 } };
            for _ in 0..self.pre[s] {
                if self.l[s].form == F_ASYNC { self.step(s, &Op { c: AWAIT, s: s as u8, k, n: 1, a: 1 }); } else { self.step(s, &Op { c: CALL, s: s as u8, k, n: 1, a: 1 }); }
                if rt::rt_nviol() != 0 { return; }
            }
        }
    }
    unsafe fn thread(&mut self, t: usize) {
        let s = self.order[t - 1];
        let mut ops = Ops { v: [Op::default(); 24], n: 0 };
        for _ in 0..self.alph[s].k {
            self.list(s, &mut ops);
            if ops.n == 0 { break; }
            let c = rt::rt_choose(ops.n as u32) as usize;
            let op = ops.v[c];
            if self.verbose { eprintln!("    [{}] {}", ["producer", "worker", "consumer"][s], op.text()); }
            self.step(s, &op);
            if self.verbose { eprintln!("    [{}] {} -> {}", ["producer", "worker", "consumer"][s], op.text(), match self.obs[s].st { 0 => "refused".into(), 1 => format!("ok n={} {:x?}", self.obs[s].n, self.obs[s].vals), 2 => "pending".into(), _ => "panic".to_string() }); }
            if rt::rt_nviol() != 0 { return; }
        }
        if self.alph[s].has("end") && !self.l[s].dropped { let op = Op { c: DROP, s: s as u8, ..Default::default() }; if self.verbose { eprintln!("    [{}] {}", ["producer", "worker", "consumer"][s], op.text()); } self.step(s, &op); }
    }
    /// all threads joined
    unsafe fn fin(&mut self) {
        let stuck = rt::rt_stuck();
        for (i, s) in self.order.clone().into_iter().enumerate() {
            if stuck >> (i + 1) & 1 == 1 && self.l[s].wait > 0 {
                let n = self.l[s].wait as usize;
                if let Some(t) = self.truth(s) { let d = self.dist(s, &t, t.1); if d >= n { self.fail(LOST, format!("{}'s wait_for({n}) never returns although {d} slot(s) are available and everything there is has been read", ["producer", "worker", "consumer"][s])); return; } }
            } else if stuck >> (i + 1) & 1 == 1 {
                let (k, n) = (self.l[s].fk, self.l[s].fnn);
                if let Some(t) = self.truth(s) { let d = self.dist(s, &t, t.1); let op = Op { c: CALL, s: s as u8, k, n, a: 0 }; if d > 0 && self.want(&op, d) <= d { self.fail(WAKE, format!("{}'s task awaiting {} stays parked although {d} slot(s) are available", ["producer", "worker", "consumer"][s], kname(k))); return; } }
                self.x(s, &Op { c: FDROP, s: s as u8, k, n, a: 0 });
                self.l[s].fut = false;
            }
        }
        for s in [P, W, C] {
            if self.l[s].dropped { continue; }
            match self.l[s].form { F_DET => { self.step(s, &Op { c: ATTACH, s: s as u8, ..Default::default() }); } F_ADET => { self.step(s, &Op { c: ATTACH, s: s as u8, ..Default::default() }); } _ => {} }
            if self.l[s].form == F_ASYNC { self.x(s, &Op { c: TOSYNC, s: s as u8, ..Default::default() }); self.l[s].form = F_PLAIN; }
            if rt::rt_nviol() != 0 { return; }
        }
        self.own.iter_mut().for_each(|x| *x = 0);
        let acc = self.l[P].publ;
        if self.w3 && !self.l[W].dropped {
            for _ in 0..2 * self.len {
                self.step(W, &Op { c: CALL, s: W as u8, k: K_WORK1, n: 1, a: 1 });
                if rt::rt_nviol() != 0 { return; }
                if self.l[W].loc == acc || self.l[W].loc > acc { break; }
            }
            if self.l[W].loc < acc { self.fail(LOST, format!("after joining, the worker reaches only item {} of {acc}", self.l[W].loc)); return; }
        }
        let lim = if self.w3 { self.l[W].publ } else { acc };
        if !self.l[C].dropped {
            for _ in 0..3 * self.len {
                let a = self.l[C].loc;
                self.step(C, &Op { c: CALL, s: C as u8, k: if self.copy { K_POP } else { K_CLONE1 }, n: 1, a: 0 });
                if rt::rt_nviol() != 0 { return; }
                if self.l[C].loc == a { break; }
            }
            if self.l[C].loc != lim { self.fail(if self.l[C].loc < lim { LOST } else { VALUE }, format!("after joining, {} item(s) consumed in total, {lim} released", self.l[C].loc)); return; }
        }
        // everybody has joined: each remaining stage must see exactly what was released to it
        for s in [P, W, C] {
            if self.l[s].dropped || self.l[s].form != F_PLAIN { continue; }
            if let Some(t) = self.truth(s) {
                let d = self.dist(s, &t, t.1);
                let op = Op { c: AVAIL, s: s as u8, ..Default::default() };
                self.x(s, &op);
                if rt::rt_nviol() != 0 { return; }
                let n = self.obs[s].n as usize;
                if n < d { self.fail(LOST, format!("after joining, {} = {n} although {d} slot(s) were released", op.text())); return; }
                if n > d && self.soft(OVER, format!("after joining, {} = {n}, only {d} usable", op.text())) { return; }
            }
        }
        for s in [P, W, C] { if !self.l[s].dropped { self.step(s, &Op { c: DROP, s: s as u8, ..Default::default() }); if rt::rt_nviol() != 0 { return; } } }
        if !self.dut.heap() { self.x(P, &Op { c: DROPBUF, ..Default::default() }); }
        if rt::rt_nviol() != 0 { return; }
        if rt::rt_live_blocks() != 0 { self.fail(LEAK, format!("{} block(s) never released", rt::rt_live_blocks())); return; }
        #[cfg(feature = "vmem")]
        if rt::rt_nregions() != 0 { self.fail(LEAK, format!("{} mapping(s) left", rt::rt_nregions())); return; }
        if !self.copy { for i in 1..nids() { let a = *self.dut.ledger().add(i); if a != 0 { self.fail(LEDG, format!("value {i}: {a} object(s) left after everything was dropped")); return; } } }
        if self.outcomes.len() < 100000 { let h = self.hist; self.outcomes.insert(h ^ self.l[P].publ << 40 ^ self.l[C].publ << 48); }
    }
    /// kinds of the current violations
    pub fn kinds(&self) -> u32 {
        let mut d = 0;
        unsafe {
            for i in 0..rt::rt_nviol() {
                let v = &*rt::rt_viol(i);
                let slot = self.dut.has_base() && { let b = self.dut.slot_addr(0) as u64; v.addr >= b && v.addr < b + (self.len * self.dut.size() * if cfg!(feature = "vmem") { 2 } else { 1 }) as u64 };
                let st = if v.tid >= 1 { self.order[v.tid as usize - 1] } else { 3 };
                let indrop = st < 3 && self.l[st].indrop;
                d |= 1 << match v.kind {
                    rt::V_OOB => OOB, rt::V_UAF => UAF, rt::V_DFREE => DFREE, rt::V_RACEFREE => RACE_REL, rt::V_BADFREE => BADFREE, rt::V_STEPS => STEPS,
                    rt::V_RACE => if indrop || st == 3 { RACE_REL } else if slot { RACE_SLOT } else { RACE_OTHER },
                    k if k >= rt::V_USER => k - rt::V_USER, _ => continue,
                };
            }
        }
        d
    }
}

extern "C" fn setup(c: *mut u8) { unsafe { (*(c as *mut Conc)).setup() } }
extern "C" fn thread(c: *mut u8, t: u32) { unsafe { (*(c as *mut Conc)).thread(t as usize) } }
extern "C" fn fin(c: *mut u8) { unsafe { (*(c as *mut Conc)).fin() } }
extern "C" fn on_viol(c: *mut u8) -> i32 { unsafe { let c = &mut *(c as *mut Conc); c.hits += 1; let k = c.kinds(); if k & c.mask != 0 { c.viol = k; 1 } else { c.viol = 0; 0 } } }

pub fn scenario(c: &mut Conc) -> rt::Scenario { rt::Scenario { nthr: c.order.len() as u32, step_bound: 200, ctx: c as *mut Conc as *mut u8, setup, thread, fin } }

/// learn where slot 0 is (single-threaded construction), then explore
pub unsafe fn prepare(c: &mut Conc) -> bool {
    L = c.len;
    rt::rt_mode(1);
    rt::rt_reset();
    let ok = c.dut.init();
    rt::rt_mode(0);
    c.dut.keep_base();
    rt::rt_sc_only(c.sc as i32);
    ok
}
pub unsafe fn explore(c: &mut Conc, max: u64, secs: u64) -> (rt::ExpRes, Option<Vec<u16>>) {
    let mut r = rt::ExpRes::default();
    rt::rt_deadline(secs * 1000);
    let s = scenario(c);
    let v = rt::rt_explore(&s, &mut r, max, on_viol, None);
    if v == 1 { let mut n = 0; let p = rt::rt_path(&mut n); return (r, Some(std::slice::from_raw_parts(p, n as usize).to_vec())); }
    (r, None)
}
pub unsafe fn replay(c: &mut Conc, path: &[u16]) -> u32 {
    let mut r = rt::ExpRes::default();
    c.verbose = true;
    let s = scenario(c);
    let rc = rt::rt_replay(&s, path.as_ptr(), path.len() as u64, &mut r);
    if rc == 2 { c.kinds() } else { 0 }
}
