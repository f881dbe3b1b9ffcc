//! FFI to the runtime (rt/rt.cc), the global allocator and small helpers.
use std::alloc::{GlobalAlloc, Layout, System};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[repr(C)]
#[derive(Clone, Copy, Debug)]
pub struct Viol { pub kind: u32, pub tid: u32, pub addr: u64, pub a: u64, pub b: u64, pub other: u32, pub blk: u32 }

#[repr(C)]
pub struct Scenario {
    pub nthr: u32,
    pub step_bound: u32,
    pub ctx: *mut u8,
    pub setup: extern "C" fn(*mut u8),
    pub thread: extern "C" fn(*mut u8, u32),
    pub fin: extern "C" fn(*mut u8),
}
#[repr(C)]
#[derive(Default, Clone, Copy, Debug)]
pub struct ExpRes {
    pub states: u64, pub transitions: u64, pub executions: u64, pub pruned: u64, pub complete: u64, pub max_depth: u64,
    pub multi_writer: u64, pub capped: u64, pub rf_choices: u64, pub steps_max: u64, pub viol_exec: u64,
}

extern "C" {
    pub fn rt_init();
    pub fn rt_mode(m: i32);
    pub fn rt_reset();
    pub fn rt_alloc(size: u64, align: u64, harness: i32) -> *mut u8;
    pub fn rt_dealloc(p: *mut u8, size: u64);
    pub fn rt_in_arena(p: *const u8) -> i32;
    pub fn rt_live_blocks() -> u64;
    pub fn rt_frees() -> u64;
    pub fn rt_nblocks() -> u64;
    pub fn rt_call(on: i32);
    pub fn rt_steps() -> u64;
    pub fn rt_seq_bound(b: u64);
    pub fn rt_nviol() -> i32;
    pub fn rt_viol(i: i32) -> *const Viol;
    pub fn rt_clear_viol();
    pub fn rt_fail(code: u32, a: u64, b: u64);
    pub fn rt_observe(x: u64);
    pub fn rt_tid() -> i32;
    pub fn rt_spin(on: i32);
    pub fn rt_on_stack(f: unsafe extern "C" fn(*mut u8), a: *mut u8);
    pub fn rt_snap_new() -> *mut u8;
    pub fn rt_snap_free(p: *mut u8);
    pub fn rt_snapshot(p: *mut u8);
    pub fn rt_restore(p: *mut u8) -> i32;
    pub fn rt_hash(extra: *const u8, n: u64, out: *mut u64);
    pub fn rt_track_maps(on: i32);
    pub fn rt_nregions() -> i32;
    pub fn rt_nfds() -> i32;
    pub fn rt_region(i: i32, out: *mut u64);
    pub fn rt_munmap_bad() -> u64;
    pub fn rt_note() -> *mut u8;
    pub fn rt_note_len(n: u32);
    pub fn rt_beat();
    pub fn rt_handlers();
    pub fn rt_explore(s: *const Scenario, r: *mut ExpRes, max_states: u64, on_viol: extern "C" fn(*mut u8) -> i32, on_complete: Option<extern "C" fn(*mut u8) -> i32>) -> i32;
    pub fn rt_path(n: *mut u64) -> *const u16;
    pub fn rt_replay(s: *const Scenario, ch: *const u16, n: u64, r: *mut ExpRes) -> i32;
    pub fn rt_max_call_steps() -> u64;
    pub fn rt_max_call_steps_of(t: u32) -> u64;
    pub fn rt_dump_image();
    pub fn rt_in_call() -> i32;
    pub fn rt_set_mode_raw(m: i32) -> i32;
    pub fn rt_stale() -> u64;
    pub fn rt_choose(n: u32) -> u32;
    pub fn rt_wait(p: *mut u8);
    pub fn rt_sc_only(x: i32);
    pub fn rt_stuck() -> u32;
    pub fn rt_deadline(ms: u64);
}
#[cfg(feature = "vmem")]
extern "C" {
    pub fn rt_fake_page(n: i64);
    pub fn rt_sysconf_calls() -> u64;
}

pub const V_OOB: u32 = 1;
pub const V_UAF: u32 = 2;
pub const V_DFREE: u32 = 3;
pub const V_RACE: u32 = 4;
pub const V_RACEFREE: u32 = 5;
pub const V_STEPS: u32 = 7;
pub const V_BADFREE: u32 = 9;
pub const V_USER: u32 = 100;

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if rt_in_call() != 0 { rt_alloc(l.size() as u64, l.align() as u64, 0) } else { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if rt_in_arena(p) != 0 { rt_dealloc(p, l.size() as u64) } else { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if rt_in_call() != 0 { rt_alloc(l.size() as u64, l.align() as u64, 0) } else { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if rt_in_arena(p) != 0 || rt_in_call() != 0 {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            q
        } else { System.realloc(p, l, n) }
    }
}

pub static mut PANICKED: bool = false;
pub static mut PANIC_MSG: Option<String> = None;

/// One call into the crate.
#[inline(always)]
pub fn cc<R>(f: impl FnOnce() -> R) -> Option<R> {
    unsafe {
        rt_call(1);
        let r = catch_unwind(AssertUnwindSafe(f));
        rt_call(0);
        match r {
            Ok(v) => Some(v),
            Err(_) => { PANICKED = true; None }
        }
    }
}

/// run f on the fixed, zeroed stack
pub fn on_stack<R, F: FnOnce() -> R>(f: F) -> R {
    static mut BUF: [u64; 512] = [0; 512];
    unsafe extern "C" fn tr<R, F: FnOnce() -> R>(p: *mut u8) { let s = &mut *(p as *mut (Option<F>, Option<R>)); let f = s.0.take().unwrap(); s.1 = Some(f()); }
    unsafe {
        let p = &raw mut BUF as *mut (Option<F>, Option<R>);
        assert!(std::mem::size_of::<(Option<F>, Option<R>)>() <= 4096);
        std::ptr::write(p, (Some(f), None));
        rt_on_stack(tr::<R, F>, p as *mut u8);
        std::ptr::read(p).1.unwrap()
    }
}

pub fn start() {
    unsafe {
        // deterministic addresses: re-exec without ASLR
        extern "C" { fn personality(p: u64) -> i32; }
        let cur = personality(0xffff_ffff);
        if cur != -1 && cur & 0x0040000 == 0 && std::env::var_os("MC_NOREEXEC").is_none() {
            if personality(cur as u64 | 0x0040000) != -1 {
                use std::os::unix::process::CommandExt;
                let me = std::env::current_exe().unwrap();
                let _ = std::process::Command::new(me).args(std::env::args_os().skip(1)).env("MC_NOREEXEC", "1").exec();
            }
        }
        rt_init();
        rt_handlers();
        std::panic::set_hook(Box::new(|i| {
            rt_call_save(|| {
                let m = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { String::new() };
                let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
                #[allow(static_mut_refs)]
                { PANIC_MSG = Some(format!("{m} at {loc}")); }
                if IN.load(std::sync::atomic::Ordering::Relaxed) == 0 { eprintln!("harness panic: {m} at {loc}"); }
            });
        }));
    }
}
static IN: std::sync::atomic::AtomicI32 = std::sync::atomic::AtomicI32::new(0);
/// run harness code from inside a crate call (item destructors, panic hook) without counting it as crate code
pub fn rt_call_save(f: impl FnOnce()) {
    extern "C" { fn rt_in_call_set(x: i32) -> i32; }
    unsafe {
        let o = rt_in_call_set(0);
        IN.store(o, std::sync::atomic::Ordering::Relaxed);
        f();
        rt_in_call_set(o);
    }
}
