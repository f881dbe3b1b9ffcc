//! Explicit-state search over the real objects (engine SEQ).
use crate::item::*;
use crate::model::*;
use crate::rt;
use crate::sys::*;
use std::collections::{HashSet, VecDeque};

// kinds of divergence
pub const D_VAL: u32 = 1 << 0;      // consumer obtained a wrong value / lost or invented items
pub const D_GRANT: u32 = 1 << 1;    // request granted beyond availability
pub const D_REFUSE: u32 = 1 << 2;   // satisfiable request refused
pub const D_OVER: u32 = 1 << 3;     // available() over-reports
pub const D_UNDER: u32 = 1 << 4;    // available() under-reports
pub const D_INDEX: u32 = 1 << 5;    // index of an iterator
pub const D_PUB: u32 = 1 << 6;      // published index
pub const D_SLICE: u32 = 1 << 7;    // window handed out
pub const D_MEMREF: u32 = 1 << 8;   // refused request had an effect
pub const D_MEM: u32 = 1 << 9;      // in-flight contents
pub const D_OOB: u32 = 1 << 10;
pub const D_UAF: u32 = 1 << 11;
pub const D_DFREE: u32 = 1 << 12;
pub const D_LEAK: u32 = 1 << 13;
pub const D_BADFREE: u32 = 1 << 14;
pub const D_LEDGER: u32 = 1 << 15;
pub const D_ZERO: u32 = 1 << 16;
pub const D_ALIVE: u32 = 1 << 17;
pub const D_POLL: u32 = 1 << 18;
pub const D_PENDFX: u32 = 1 << 19;
pub const D_WAKE: u32 = 1 << 20;
pub const D_PANIC: u32 = 1 << 21;
pub const D_RETVAL: u32 = 1 << 22;
pub const D_BLEN: u32 = 1 << 23;
pub const D_VARIANT: u32 = 1 << 24;
pub const D_WVAL: u32 = 1 << 25;    // worker saw a wrong value
pub const D_CTOR: u32 = 1 << 26;
pub const D_SPLIT: u32 = 1 << 27;
pub const D_STEPS: u32 = 1 << 28;
pub const D_REFUSE2: u32 = 1 << 29; // refused although published items / space are there, also on a fresh look
pub const D_CUT: u32 = 1 << 31;      // history not followed further (no verdict)
pub const D_ORDER: u32 = 1 << 30;   // an operation moved an iterator past the one ahead
pub const NAMES: [&str; 31] = ["consumer-value", "granted-beyond-available", "satisfiable-request-refused", "available-over-reports", "available-under-reports", "index", "published-index", "slice-window", "refused-request-had-effect",
    "in-flight-contents", "out-of-bounds", "use-after-free", "double-free", "leak", "bad-free", "destructor-ledger", "empty-slot-read-or-dropped", "liveness-flags", "poll-result", "pending-had-effect", "not-woken", "panic",
    "refused-value-altered", "buffer-length", "variants-differ", "worker-value", "constructor", "split-session", "unbounded-steps", "publication-lost", "stage-order"];
pub fn dnames(d: u32) -> String { (0..31).filter(|i| d >> i & 1 == 1).map(|i| NAMES[i]).collect::<Vec<_>>().join("+") }
pub fn dmask(s: &str) -> u32 {
    if s == "all" { return !D_CUT; }
    let mut m = 0;
    for t in s.split(',').filter(|t| !t.is_empty()) { m |= 1 << NAMES.iter().position(|n| *n == t).unwrap_or_else(|| panic!("kind {t}")); }
    m
}

pub struct Job {
    pub duts: Vec<Box<dyn Dut>>,
    pub alph: Alph,
    pub mask: u32,
    pub taint: u32,      // report only in histories with one of these marks (0: always)
    pub max_states: u64,
    pub len: usize, pub w3: bool,
    pub forms: u8,
    pub zero: bool,      // started from new_zeroed
    pub known: Vec<(String, u32)>, // listed findings: (operation, kinds)
    pub deadline: std::time::Instant,
}
#[derive(Default, Debug)]
pub struct Report {
    pub states: u64, pub transitions: u64, pub depth: u32, pub complete: bool, pub pruned: u64, pub replayed: u64, pub padded: u64, pub mismatch: u64, pub refused: u64, pub granted: u64, pub wraps: u64, pub drained: u64,
    pub viol: Option<(u32, Vec<Op>, String)>, pub samples: Vec<String>, pub other: u32, pub known: u64, pub known_text: String }

struct St { snap: *mut u8, model: Model, node: u32 }

pub fn model_of(j: &Job) -> Model {
    let mut m = Model::new(j.len, j.w3, j.duts[0].is_copy(), j.duts[0].heap(), j.duts[0].initial(), j.forms);
    if j.zero { m.taint |= T_ZERO; }
    m
}

/// fresh start of every variant; None if construction failed
pub unsafe fn start(j: &mut Job) -> bool {
    rt::rt_mode(1);
    rt::rt_reset();
    for d in j.duts.iter_mut() { if !d.init() { return false; } }
    true
}

pub struct Check { pub d: u32, pub msg: String }

unsafe fn read_slots(d: &dyn Dut, len: usize, out: &mut Vec<u8>) {
    out.clear();
    if d.has_base() { out.extend_from_slice(std::slice::from_raw_parts(d.slot_addr(0), len * d.size())); }
}
pub fn cx_of(m: &Model) -> Cx { Cx { len: m.len, lp: m.loc[P], publ: m.publ } }

/// what the ledger must say
fn ledger_ok(d: &dyn Dut, m: &Model) -> Option<String> {
    if d.is_copy() { return None; }
    let n = nids();
    let mut e = vec![0i16; n];
    if !m.gone { for v in &m.slots { if *v != 0 { e[(*v & !EDIT) as usize] += 1; } } }
    let cap = m.len as usize + 3;
    for s in 0..3 {
        let f = m.fut[s];
        if !f.on { continue; }
        match f.k {
            K_PUSH => e[idx_push(m.loc[P]) as usize] += 1,
            K_PUSHC => for i in 0..cap { e[idx_push(m.loc[P] + i as u64) as usize] += 1; },
            K_CLONE1 | K_CLONES => e[id_dummy() as usize] += cap as i16,
            _ => {}
        }
    }
    for i in 1..n {
        let a = unsafe { *d.ledger().add(i) };
        if a != e[i] { return Some(format!("value {i}: {a} live object(s), {} expected", e[i])); }
    }
    None
}

fn viol_bits() -> (u32, String) {
    let mut d = 0; let mut s = String::new();
    unsafe {
        for i in 0..rt::rt_nviol() {
            let v = &*rt::rt_viol(i);
            let (b, n) = match v.kind { rt::V_OOB => (D_OOB, "access outside the storage"), rt::V_UAF => (D_UAF, "access to released memory"), rt::V_DFREE => (D_DFREE, "released twice"), rt::V_BADFREE => (D_BADFREE, "release of memory the crate does not own"), rt::V_STEPS => (D_STEPS, "step bound"), _ => (0, "?") };
            d |= b;
            s += &format!("{n}; ");
        }
    }
    (d, s)
}

/// executes op on every variant from the current memory image; compares with the model (updated in place)
pub unsafe fn step(j: &mut Job, m: &mut Model, op: &Op, obs: &mut Vec<Obs>, pre: &mut Vec<u8>, post: &mut Vec<u8>, alph_wakers: bool) -> Check {
    let cx = cx_of(m);
    let mut d = 0u32;
    let mut msg = String::new();
    macro_rules! flag { ($k:expr, $($a:tt)*) => { { d |= $k; if msg.len() < 400 { if !msg.is_empty() { msg += "; " } msg += &format!($($a)*); } } } }
    let s = op.s as usize;
    let pre_m = m.clone();
    let unspec = match op.c { CALL | FPOLL => m.granted(s, op.k, op.n as u64).is_none(), _ => false };
    let faulty = op.c == CALL && op.a >= 2;
    let mut e = Obs::default();
    m.apply(op, &mut e);
    let mut ov0 = Ov::default();
    for i in 0..j.duts.len() {
        let mode2 = i > 0;
        if !mode2 { read_slots(&*j.duts[0], j.len, pre); }
        let mut o = std::mem::take(&mut obs[i]);
        j.duts[i].exec(op, &cx, &mut o);
        if m.gone && op.c == DROP && !j.duts[i].heap() { let mut x = Obs::default(); j.duts[i].exec(&Op { c: DROPBUF, ..Default::default() }, &cx, &mut x); }
        obs[i] = o;
        let ev = EVENTS;
        if ev & (1 | 8) != 0 { flag!(D_ZERO, "an empty (all-zero) slot was {}", if ev & 1 != 0 { "passed to the destructor" } else { "cloned" }); }
        if ev & (2 | 4 | 16) != 0 { flag!(D_LEDGER, "destructor/clone ran on {}", if ev & 4 != 0 { "an already destroyed value" } else { "garbage" }); }
        EVENTS = 0;
        let (vd, vs) = viol_bits();
        if vd != 0 { flag!(vd, "{vs}"); rt::rt_clear_viol(); }
        if mode2 && d == 0 {
            let (a, b) = (&obs[0], &obs[i]);
            if a.st != b.st || a.n != b.n || a.vals != b.vals || a.pos != b.pos || a.back != b.back || a.dst_ok != b.dst_ok { flag!(D_VARIANT, "variant {i}: {:?} instead of {:?}", b, a); }
        }
        if d & (D_UAF | D_DFREE | D_OOB | D_BADFREE) != 0 && !m.gone { continue; }
        if !m.gone && (obs[i].st != 3 || faulty) {
            let mut ov = Ov::default();
            j.duts[i].observe(&mut ov);
            let (vd, vs) = viol_bits();
            if vd != 0 { flag!(vd, "observing the iterators: {vs}"); rt::rt_clear_viol(); continue; }
            if !mode2 { ov0 = ov; } else if ov != ov0 { flag!(D_VARIANT, "variant {i}: observables {:?} instead of {:?}", ov, ov0); }
        }
    }
    let o = &obs[0];
    if faulty {
        rt::PANIC_MSG = None;
        if d == 0 && o.st != 3 { d |= D_CUT; return Check { d, msg }; }
    }
    if o.st == 3 && !faulty {
        let pm = rt::PANIC_MSG.take().unwrap_or_default();
        flag!(D_PANIC, "panic: {pm}");
        return Check { d, msg };
    }
    if d & (D_UAF | D_DFREE | D_OOB | D_BADFREE) != 0 { return Check { d, msg }; }
    let dut = &*j.duts[0];
    let len = j.len as u64;
    // ---- result
    let isreq = matches!(op.c, CALL | FPOLL) && !faulty;
    if isreq {
        let (k, n) = (op.k, op.n as u64);
        let poll = op.c == FPOLL;
        if unspec {
            // a request for nothing: any answer, no effect
            if o.n != 0 || !o.vals.is_empty() || !o.pos.is_empty() { flag!(D_SLICE, "request for 0 slots gave {} slot(s)", o.n); }
            if poll && o.st == 2 { m.fut[s] = pre_m.fut[s]; m.fut[s].polled = true; m.fut[s].waker = op.a; }
        } else if e.st == 1 && o.st == 1 {
            if o.n != e.n {
                flag!(D_SLICE, "{} slots instead of {}", o.n, e.n);
                if matches!(k, K_SLA | K_SLM | K_PEEKA) {
                    d |= if o.n as u64 > pre_m.avail(s) { D_GRANT } else if o.n < e.n { D_REFUSE } else { 0 };
                    if k == K_SLM && o.n % op.n.max(1) as u32 != 0 { msg += " (not a multiple)"; }
                } else if o.n > e.n && o.n as u64 > pre_m.avail(s) { d |= D_GRANT; }
            }
            else if o.pos != e.pos { flag!(D_SLICE, "ring slots {:?} instead of {:?}", o.pos, e.pos); }
            else if o.vals != e.vals { flag!(if s == C { D_VAL } else { D_WVAL }, "values {:x?} instead of {:x?}", o.vals, e.vals); }
            if !o.dst_ok { flag!(D_SLICE, "destination written beyond the requested items"); }
            if poll && d != 0 { d |= D_POLL; }
        } else if e.st != 1 && o.st == 1 {
            flag!(D_GRANT, "request for {} granted with {} available", if k == K_SLM { format!("a multiple of {n}") } else { pre_m.want(s, k, n).to_string() }, pre_m.avail(s));
            if poll { d |= D_POLL; }
            if s == C && !o.vals.is_empty() && pre_m.avail(C) < o.n as u64 { d |= D_VAL; }
        } else if e.st == 1 && o.st != 1 {
            if o.st == 4 { flag!(D_SLICE, "window reaches outside the storage: {:?}", o.pos); }
            else { flag!(D_REFUSE, "request for {} refused with {} available", pre_m.want(s, k, n), pre_m.avail(s)); }
            if poll { d |= D_POLL; }
        } else if e.st != o.st {
            if o.st == 4 { flag!(D_SLICE | if poll { D_POLL } else { 0 }, "window reaches outside the storage"); }
            else { flag!(D_POLL, "answer {} instead of {}", o.st, e.st); }
        } else {
            if op.c == CALL && o.back != e.back { flag!(D_RETVAL, "refused push hands back {:x} instead of {:x}", o.back, e.back); }
            if !o.dst_ok { flag!(D_MEMREF, "refused request wrote the destination"); if poll { d |= D_PENDFX; } }
        }
        if !o.src_ok { flag!(D_MEMREF, "source slice altered"); }
    } else if op.c == AVAIL && o.n != e.n {
        flag!(if o.n > e.n { D_OVER } else { D_UNDER }, "available() = {} instead of {}", o.n, e.n);
    } else if op.c == FDROP && (!o.dst_ok || !o.src_ok) {
        flag!(D_PENDFX, "dropping the future wrote the caller's memory");
    } else if o.st == 4 { flag!(D_PANIC, "harness: operation not possible in this form"); }
    // ---- after the buffer is gone
    if m.gone {
        if rt::rt_live_blocks() != 0 { flag!(D_LEAK, "{} block(s) not released after the last iterator was dropped", rt::rt_live_blocks()); }
        if rt::rt_nregions() != 0 { flag!(D_LEAK, "{} mapping(s) left", rt::rt_nregions()); }
        for i in 0..j.duts.len() { if j.duts[i].ctor() != j.duts[0].ctor() { continue; } if let Some(x) = ledger_ok(&*j.duts[i], m) { flag!(D_LEDGER, "after the buffer was released: {x}"); } }
        return Check { d, msg };
    }
    // ---- indices, liveness
    let noeff = (isreq && o.st != 1) || matches!(op.c, FNEW | FDROP | AVAIL | WAIT);
    for i in m.stages() {
        if ov0.blen[i] == -1 && ov0.idx[i] == -1 { continue; }
        if ov0.idx[i] >= 0 {
            let x = (m.loc[i] % len) as i32;
            if ov0.idx[i] != x { flag!(D_INDEX, "{}.index() = {} instead of {x}", ["prod", "work", "cons"][i], ov0.idx[i]); if noeff { d |= D_MEMREF; } }
            for q in m.stages() {
                let x = (m.publ[q] % len) as i32;
                if ov0.publ[i][q] != x { flag!(D_PUB, "{}_index() = {} instead of {x}", ["prod", "work", "cons"][q], ov0.publ[i][q]); if noeff { d |= D_MEMREF; } }
            }
            for q in 0..3 { if ov0.alive[i][q] != m.alive[q] as i8 { flag!(D_ALIVE, "is_{}_alive() = {}", ["prod", "work", "cons"][q], ov0.alive[i][q]); } }
        }
        if ov0.blen[i] >= 0 && ov0.blen[i] != len as i32 { flag!(D_BLEN, "buf_len() = {}", ov0.blen[i]); }
        if ov0.blen[i] == -9 { flag!(D_PANIC, "panic in a getter"); }
    }
    if op.c == RESET && s == P {
        // where the documentation puts it (the consumer's position) is one past what the producer may reach
        d = 0; msg.clear();
        let x = ov0.idx[P] as u64;
        if x == m.publ[C] % len && m.loc[P] != m.publ[C] { flag!(D_ORDER, "detached producer with {} item(s) in flight is moved to slot {x}, the consumer's own position, and may publish it", m.publ[P] - m.publ[C]); }
        else if x != m.loc[P] % len { flag!(D_CUT, "not followed further"); }
    }
    // ---- contents
    if dut.has_base() {
        read_slots(dut, j.len, post);
        if (noeff || matches!(op.c, DETACH | ATTACH | SYNC | BACK | SET | TOASYNC | TOSYNC)) && pre != post { flag!(if noeff { D_MEMREF } else { D_MEM }, "slots changed"); }
        // the futures of the reading requests leave the items where they are, as the plain requests do
        if op.c == FPOLL && s == C && o.st == 1 && !matches!(op.k, K_POPM | K_WORK1 | K_SLX | K_SLA | K_SLM) && pre != post { flag!(D_POLL, "completing {} altered the slots, which the plain request leaves alone", kname(op.k)); }
        if faulty && d == 0 {
            // slots nobody holds may have been written or not; whatever they hold now must be a value, and counted as one
            for p in m.publ[C] + len..m.publ[C] + 2 * len {
                let sl = m.slot(p);
                if p - len < m.loc[P].max(m.publ[P]) { continue; }
                let v = dut.dec(sl);
                if v == BAD || (v != 0 && v & !EDIT >= nids() as u16) { flag!(D_MEM | D_LEDGER, "after a clone panicked slot {sl} holds neither a value nor nothing"); break; }
                m.slots[sl] = v;
            }
            if s == C && pre != post { flag!(D_MEM, "slots changed by a read that panicked"); }
        }
        if d == 0 {
            let sz = dut.size();
            let mut b = vec![0u8; sz];
            for i in 0..m.publ[P].max(m.loc[P]) - m.publ[C] {
                let sl = m.slot(m.publ[C] + i);
                dut.enc(m.slots[sl], &mut b);
                if m.slots[sl] != 0 && post[sl * sz..(sl + 1) * sz] != b[..] { flag!(D_MEM, "slot {sl} holds {:x} instead of {:x}", dut.dec(sl), m.slots[sl]); break; }
            }
        }
    }
    if d == 0 { for i in 0..j.duts.len() { if j.duts[i].ctor() != j.duts[0].ctor() { continue; } if let Some(x) = ledger_ok(&*j.duts[i], m) { flag!(D_LEDGER, "{x}"); } } }
    if d & (D_MEMREF | D_LEDGER | D_RETVAL) != 0 && matches!(op.c, FNEW | FDROP | FPOLL) { d |= D_PENDFX; }
    // ---- wake-ups
    if d == 0 {
        for q in m.stages() {
            let f = m.fut[q];
            if !(f.on && f.polled) { continue; }
            if m.granted(q, f.k, f.n as u64) == Some(true) {
                let w = *dut.woken().add(2 * q + f.waker as usize);
                if w == 0 { flag!(D_WAKE, "{}'s pending {} is possible now but its task was never woken", ["prod", "work", "cons"][q], kname(f.k)); }
            }
        }
    }
    let _ = alph_wakers;
    Check { d, msg }
}

/// After a divergence that is not the property's own: close the history (attach, work, drain, push, drain) and
/// see whether the consumer obtains exactly the accepted values; then drop everything and balance the ledger.
unsafe fn close(j: &mut Job, pre: &Model, op: &Op, o: &Obs) -> (u32, String) {
    let mut m = pre.clone();
    // values accepted and not yet consumed, by position, with the edits made so far
    let mut q: VecDeque<(u64, bool)> = (m.publ[C].max(m.loc[C])..m.publ[P].max(m.loc[P])).map(|p| (p, m.slots[m.slot(p)] & EDIT != 0)).collect();
    let orig: Vec<u16> = q.iter().map(|(p, _)| m.slots[m.slot(*p)]).collect();
    let mut exp: VecDeque<u16> = orig.into();
    let s = op.s as usize;
    if m.form.iter().any(|f| *f == F_DET || *f == F_ADET) || matches!(op.c, ADV | RESET | SET | BACK | ATTACH | SYNC | DETACH | RESPLIT | DROP | DROPBUF) { return (0, String::new()); }
    let mut next = m.publ[P];
    if matches!(op.c, CALL | FPOLL) && o.st == 1 {
        let adv = !zero_copy(op.k) || (op.c == CALL && op.a == 1);
        match s {
            P => { if adv { for i in 0..o.n as u64 { exp.push_back(idx_push(next + i)); q.push_back((next + i, false)); } next += o.n as u64; } }
            W => { if zero_copy(op.k) { let off = (m.publ[W] - m.publ[C]) as usize; for i in 0..(o.n as usize) { if let Some(x) = exp.get_mut(off + i) { *x |= EDIT; } } } if adv { m.publ[W] += o.n as u64; } }
            _ => { if adv { for v in &o.vals { match exp.pop_front() { Some(e) if e == *v => {} e => return (D_VAL, format!("consumer obtained {v:x} instead of {e:x?}")) } } } }
        }
    }
    let mut d = 0; let mut msg = String::new();
    let mut ob = Obs::default();
    let any = if m.copy { K_POP } else { K_CLONE1 };
    let mut cx = Cx { len: m.len, lp: next, publ: m.publ };
    let mut run = |j: &mut Job, o: &Op, cx: &Cx, ob: &mut Obs| -> bool { j.duts[0].exec(o, cx, ob); if EVENTS & 0x17 != 0 { d |= D_LEDGER; } if EVENTS & 9 != 0 { d |= D_ZERO; } ob.st != 3 };
    for i in m.stages() {
        if m.fut[i].on && !(op.c == FPOLL && s == i && o.st == 1) && !(op.c == FDROP && s == i) { run(j, &Op { c: FDROP, s: i as u8, k: m.fut[i].k, n: m.fut[i].n, a: 0 }, &cx, &mut ob); }
        if m.form[i] == F_ASYNC { run(j, &Op { c: TOSYNC, s: i as u8, ..Default::default() }, &cx, &mut ob); }
    }
    let mut wfrom = (m.publ[W] - m.publ[C]) as usize;
    if s == C && o.st == 1 && matches!(op.c, CALL | FPOLL) && (!zero_copy(op.k) || (op.c == CALL && op.a == 1)) { wfrom = wfrom.saturating_sub(o.vals.len()); }
    if m.form[C] != 0 && (!m.w3 || m.form[W] != 0) && !m.slots.iter().any(|x| *x == 0) {
        for round in 0..3 {
            if m.w3 {
                for _ in 0..2 {
                    if !run(j, &Op { c: CALL, s: W as u8, k: K_SLA, n: 0, a: 1 }, &cx, &mut ob) { break; }
                    if ob.st == 1 { for _ in 0..ob.n { if let Some(x) = exp.get_mut(wfrom) { *x |= EDIT; } wfrom += 1; } }
                }
            }
            for _ in 0..3 * m.len {
                if !run(j, &Op { c: CALL, s: C as u8, k: any, n: 0, a: 0 }, &cx, &mut ob) { break; }
                if ob.st != 1 { break; }
                wfrom = wfrom.saturating_sub(1);
                let v = ob.vals.get(0).copied().unwrap_or(BAD);
                match exp.pop_front() { Some(e) if e == v => {} e => return (D_VAL | d, format!("afterwards the consumer obtains {v:x} instead of {e:x?}")) }
            }
            if !exp.is_empty() { return (D_VAL | D_REFUSE2 | d, format!("accepted values {:x?} are never delivered", exp)); }
            if round == 2 || m.form[P] == 0 { break; }
            for _ in 0..2 {
                cx.lp = next;
                if !run(j, &Op { c: CALL, s: P as u8, k: K_PUSH, n: 0, a: 0 }, &cx, &mut ob) { break; }
                if ob.st == 1 { exp.push_back(idx_push(next)); next += 1; }
            }
            if m.len > 1 && exp.is_empty() { return (d | D_REFUSE2, "a push into the drained buffer is refused".into()); }
        }
    }
    // drop everything: P, W, C
    for i in [P, W, C] { if m.form[i] != 0 && (i != W || m.w3) { run(j, &Op { c: DROP, s: i as u8, ..Default::default() }, &cx, &mut ob); } }
    if !m.heap { run(j, &Op { c: DROPBUF, ..Default::default() }, &cx, &mut ob); }
    if m.copy { return (d, msg); }
    for i in 1..nids() { let a = *j.duts[0].ledger().add(i); if a != 0 { d |= D_LEDGER; msg = format!("value {i}: {a} object(s) left after everything was dropped"); } }
    if d & D_LEDGER != 0 && msg.is_empty() { msg = "destructor ran twice or on garbage after the divergence".into(); }
    (d, msg)
}

pub fn path_of(nodes: &[(u32, u64)], mut n: u32) -> Vec<Op> {
    let mut v = vec![];
    while n != 0 { v.push(Op::unpack(nodes[n as usize].1)); n = nodes[n as usize].0; }
    v.reverse();
    v
}
pub fn note_path(path: &[Op]) {
    unsafe {
        let b = std::slice::from_raw_parts_mut(rt::rt_note(), 1 << 16);
        let mut n = 0;
        for o in path { for c in format!("{} ", o.pack()).bytes() { if n < b.len() { b[n] = c; n += 1; } } }
        rt::rt_note_len(n as u32);
    }
}

/// adopt the session a re-split produced, if it is a legal one
unsafe fn adopt_resplit(j: &mut Job, m: &mut Model) -> Option<(u32, String)> {
    let mut ov = Ov::default();
    j.duts[0].observe(&mut ov);
    let len = m.len;
    let snap = rt::rt_snap_new();
    rt::rt_snapshot(snap);
    let mut av = [0u64; 3];
    for s in m.stages().collect::<Vec<_>>() {
        let mut o = Obs::default();
        j.duts[0].exec(&Op { c: AVAIL, s: s as u8, ..Default::default() }, &cx_of(m), &mut o);
        av[s] = o.n as u64;
    }
    rt::rt_restore(snap);
    rt::rt_snap_free(snap);
    let sum = av[P] + av[C] + if m.w3 { av[W] } else { 0 };
    if sum != len - 1 { return Some((D_SPLIT, format!("right after the split the availabilities are {:?}: sum {sum}, not {}", av, len - 1))); }
    let inflight = av[C] + if m.w3 { av[W] } else { 0 };
    let old = m.publ[P] - m.publ[C];
    let pi = ov.idx[P] as u64;
    if ov.idx[P] < 0 || pi >= len { return Some((D_SPLIT, format!("producer index {}", ov.idx[P]))); }
    if inflight > old { return Some((D_SPLIT, format!("{inflight} item(s) in flight after the split, only {old} were pushed and not consumed"))); }
    if inflight > 0 && pi != m.publ[P] % len { return Some((D_SPLIT, format!("items in flight after the split are not the unconsumed ones: producer at slot {pi}, last push ended at {}", m.publ[P] % len))); }
    let np = m.publ[P] + (pi + len - m.publ[P] % len) % len;
    let nc = np - inflight;
    let nw = nc + av[C];
    m.publ = [np, if m.w3 { nw } else { nc }, nc];
    m.loc = m.publ;
    if ov.idx[C] as u64 != nc % len { return Some((D_SPLIT, format!("consumer stands at slot {} instead of {}", ov.idx[C], nc % len))); }
    if m.w3 && ov.idx[W] as u64 != nw % len { return Some((D_SPLIT, format!("worker stands at slot {} instead of {}", ov.idx[W], nw % len))); }
    None
}

/// what construction and the split leave behind, before any operation
unsafe fn initial_check(j: &mut Job, m: &Model) -> Option<(u32, String)> {
    let (vd, vs) = viol_bits();
    if vd != 0 { return Some((vd, format!("construction: {vs}"))); }
    if EVENTS != 0 { let e = EVENTS; EVENTS = 0; return Some((if e & 9 != 0 { D_ZERO } else { D_LEDGER } | D_CTOR, "construction drops or clones what is not a value".into())); }
    // (variants which do not all show the same: C13)
    let ob: Vec<Ov> = (0..j.duts.len()).map(|i| { let mut ov = Ov::default(); j.duts[i].observe(&mut ov); ov }).collect();
    let dv = if ob.iter().any(|a| ob.iter().any(|b| m.stages().any(|s| a.blen[s] >= 0 && b.blen[s] >= 0 && a.blen[s] != b.blen[s] || a.idx[s] >= 0 && b.idx[s] >= 0 && (a.idx[s] != b.idx[s] || a.publ[s] != b.publ[s])))) { D_VARIANT } else { 0 };
    for i in 0..j.duts.len() {
        let d = &mut j.duts[i];
        let ov = &ob[i];
        for s in m.stages() {
            if ov.idx[s] > 0 || ov.publ[s].iter().any(|x| *x > 0) { return Some((D_INDEX | D_CTOR | D_SPLIT | dv, format!("right after construction: indices {:?} / {:?}", ov.idx, ov.publ))); }
            if ov.blen[s] >= 0 && ov.blen[s] != m.len as i32 { return Some((D_BLEN | D_CTOR | dv, format!("buf_len() = {}", ov.blen[s]))); }
            if ov.blen[s] == -9 { return Some((D_PANIC, "panic in a getter".into())); }
        }
        if d.has_base() {
            let want = d.initial();
            for k in 0..m.len as usize {
                let v = d.dec(k);
                if want[k] == 0 { let b = std::slice::from_raw_parts(d.slot_addr(k), d.size()); if b.iter().any(|x| *x != 0) { return Some((D_CTOR | D_MEM, format!("slot {k} of a zeroed buffer is not zero"))); } }
                else if v != want[k] { return Some((D_CTOR | D_MEM, format!("slot {k} holds {v:x} instead of {:x} after construction", want[k]))); }
            }
        }
        if d.ctor() == j.duts[0].ctor() { j.duts[i].activate(); if let Some(x) = ledger_ok(&*j.duts[i], m) { return Some((D_LEDGER | D_CTOR, format!("after construction: {x}"))); } }
    }
    None
}

fn fnv(b: &[u8]) -> u64 { b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ *x as u64).wrapping_mul(0x100000001b3)) }

pub fn run(j: &mut Job) -> Report {
    unsafe {
        let mut r = Report::default();
        L = j.len;
        start(j); // warm up lazily bound symbols: what they leave on the stack ends up in padding bytes
        if !start(j) { r.viol = Some((D_CTOR | D_PANIC, vec![], format!("construction failed: {}", rt::PANIC_MSG.take().unwrap_or_default()))); if r.viol.as_ref().unwrap().0 & j.mask == 0 || j.taint != 0 { r.other |= D_CTOR; r.viol = None; } return r; }
        let m0 = model_of(j);
        if let Some((d, msg)) = initial_check(j, &m0) { if d & j.mask != 0 && j.taint == 0 { r.viol = Some((d, vec![], msg)); } r.other |= d; return r; }
        let mut visited: HashSet<u128> = HashSet::new();
        let mut nodes: Vec<(u32, u64)> = vec![(0, 0)];
        let mut depth: Vec<u16> = vec![0];
        let mut q: VecDeque<St> = VecDeque::new();
        let mut kb = vec![];
        let mut h = [0u64; 2];
        let key = |m: &Model, kb: &mut Vec<u8>, h: &mut [u64; 2]| -> u128 { m.key(kb); rt::rt_hash(kb.as_ptr(), kb.len() as u64, h.as_mut_ptr()); (h[0] as u128) << 64 | h[1] as u128 };
        let k0 = key(&m0, &mut kb, &mut h);
        visited.insert(k0);
        let snap = rt::rt_snap_new();
        rt::rt_snapshot(snap);
        q.push_back(St { snap, model: m0, node: 0 });
        r.states = 1;
        let mut ops = vec![];
        let mut obs: Vec<Obs> = j.duts.iter().map(|_| Obs::default()).collect();
        let (mut pre, mut post) = (vec![], vec![]);
        let mut keys_to_replay: Vec<(u32, u128)> = vec![];
        let mut mkeys: std::collections::HashMap<u32, u64> = Default::default();
        r.complete = true;
        let resplit_al = j.alph.resplit;
        let _ = resplit_al;
        'outer: while let Some(st) = q.pop_front() {
            if r.states > j.max_states || std::time::Instant::now() > j.deadline { r.complete = false; rt::rt_snap_free(st.snap); break; }
            st.model.ops(&j.alph, &mut ops);
            let path = path_of(&nodes, st.node);
            note_path(&path);
            let base_len = { let mut n = 0; for o in &path { n += format!("{} ", o.pack()).len(); } n };
            for op in ops.iter() {
                if rt::rt_restore(st.snap) == 0 {
                    // a mapping went away: rebuild by replaying the history
                    start(j);
                    let mut mm = model_of(j);
                    for o in &path { step(j, &mut mm, o, &mut obs, &mut pre, &mut post, false); }
                }
                // resync the harness's own view of the two-/three-stage split
                for d in j.duts.iter_mut() { d.set_w3(st.model.w3); }
                let t = format!("{} ", op.pack());
                let b = std::slice::from_raw_parts_mut(rt::rt_note(), 1 << 16);
                b[base_len..base_len + t.len()].copy_from_slice(t.as_bytes());
                rt::rt_note_len((base_len + t.len()) as u32);
                rt::rt_beat();
                let mut m = st.model.clone();
                let mut c = step(j, &mut m, op, &mut obs, &mut pre, &mut post, false);
                r.transitions += 1;
                if matches!(op.c, CALL | FPOLL) { if obs[0].st == 1 { r.granted += 1; if obs[0].pos.windows(2).any(|w| w[1] < w[0]) { r.wraps += 1; } } else { r.refused += 1; } }
                if op.c == RESPLIT && c.d & (D_UAF | D_DFREE | D_OOB | D_BADFREE | D_PANIC) == 0 {
                    match adopt_resplit(j, &mut m) {
                        Some((d, s)) => { c.d = d; c.msg = s; }
                        None => { c.d &= D_ALIVE | D_BLEN; }
                    }
                }
                if c.d & j.mask == 0 && c.d != 0 && c.d & (D_UAF | D_DFREE | D_OOB | D_BADFREE | D_PANIC) == 0 && !m.gone {
                    let (d2, s2) = close(j, &st.model, op, &obs[0]);
                    rt::rt_clear_viol(); EVENTS = 0;
                    if d2 & j.mask != 0 { c.msg = format!("{}; {}", c.msg, s2); }
                    c.d |= d2;
                    r.drained += 1;
                }
                if c.d != 0 {
                    r.other |= c.d & !D_CUT;
                    if c.d & D_CUT != 0 { continue; }
                    if c.d & j.mask != 0 && (j.taint == 0 || m.taint & j.taint != 0) {
                        let mut p = path.clone();
                        p.push(*op);
                        let t = op.text();
                        if j.known.iter().any(|(o, k)| t.split('(').next() == Some(o) && *k == c.d & j.mask) {
                            r.known += 1;
                            if r.known == 1 { r.known_text = format!("{}: {}", p.iter().map(|o| o.text()).collect::<Vec<_>>().join("; "), c.msg); }
                            continue;
                        }
                        r.viol = Some((c.d, p, c.msg));
                        break 'outer;
                    }
                    r.pruned += 1;
                    continue;
                }
                let k = key(&m, &mut kb, &mut h);
                if visited.insert(k) {
                    r.states += 1;
                    nodes.push((st.node, op.pack()));
                    let nd = depth[st.node as usize] + 1;
                    depth.push(nd);
                    r.depth = r.depth.max(nd as u32);
                    let id = (nodes.len() - 1) as u32;
                    if r.states % 997 == 1 || r.states < 300 { keys_to_replay.push((id, k)); mkeys.insert(id, fnv(&kb)); }
                    if !m.gone {
                        let snap = rt::rt_snap_new();
                        rt::rt_snapshot(snap);
                        q.push_back(St { snap, model: m, node: id });
                    }
                }
            }
            rt::rt_snap_free(st.snap);
        }
        // conformance of snapshot/restore: histories replayed from construction reach the recorded state
        if r.viol.is_none() {
            let lim = 400;
            let stp = (keys_to_replay.len() / lim).max(1);
            for (i, (id, k)) in keys_to_replay.iter().enumerate() {
                if i % stp != 0 { continue; }
                let path = path_of(&nodes, *id);
                match replay(j, &path, false) {
                    Some((m, last)) => {
                        // images may differ in padding bytes (what a call left on the stack); the reference state and the answers may not
                        let k2 = key(&m, &mut kb, &mut h);
                        if k2 == *k { r.replayed += 1; } else if last == 0 && mkeys.get(id) == Some(&fnv(&kb)) { r.padded += 1; } else { r.mismatch += 1; }
                    }
                    None => r.mismatch += 1,
                }
                if r.samples.len() < 3 && path.len() > 4 && i % (7 * stp) == 0 { r.samples.push(path.iter().map(|o| o.text()).collect::<Vec<_>>().join("; ")); }
            }
        }
        r
    }
}

/// replays a history from construction; prints it if verbose. Returns the model and the kinds found at the last step
pub fn replay(j: &mut Job, path: &[Op], verbose: bool) -> Option<(Model, u32)> {
    unsafe {
        L = j.len;
        if !start(j) { if verbose { println!("  construction failed"); } return None; }
        let mut m = model_of(j);
        let mut obs: Vec<Obs> = j.duts.iter().map(|_| Obs::default()).collect();
        let (mut pre, mut post) = (vec![], vec![]);
        let mut last = 0;
        for (i, o) in path.iter().enumerate() {
            note_path(&path[..=i]);
            for d in j.duts.iter_mut() { d.set_w3(m.w3); }
            let pm = m.clone();
            let mut c = step(j, &mut m, o, &mut obs, &mut pre, &mut post, false);
            if o.c == RESPLIT && c.d & (D_UAF | D_DFREE | D_OOB | D_BADFREE | D_PANIC) == 0 { match adopt_resplit(j, &mut m) { Some((d, s)) => { c.d = d; c.msg = s; } None => c.d &= D_ALIVE | D_BLEN } }
            if c.d & j.mask == 0 && c.d != 0 && c.d & (D_UAF | D_DFREE | D_OOB | D_BADFREE | D_PANIC) == 0 && !m.gone {
                let (d2, s2) = close(j, &pm, o, &obs[0]);
                rt::rt_clear_viol(); EVENTS = 0;
                c.d |= d2; c.msg = format!("{}; {}", c.msg, s2);
            }
            if verbose { println!("  {:2}. {:50} -> {} {}", i + 1, o.text(), show(&obs[0]), if c.d != 0 { format!("  ** {}: {}", dnames(c.d), c.msg) } else { String::new() }); }
            last = c.d;
            if c.d != 0 { break; }
        }
        Some((m, last))
    }
}
fn show(o: &Obs) -> String {
    let st = ["refused", "ok", "pending", "panic", "bad"][o.st as usize];
    format!("{st}{}{}{}", if o.n > 0 { format!(" n={}", o.n) } else { String::new() }, if o.pos.is_empty() { String::new() } else { format!(" slots={:?}", o.pos) }, if o.vals.is_empty() { String::new() } else { format!(" values={:x?}", o.vals) })
}
