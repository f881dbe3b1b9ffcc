// Model-checking runtime, linked in place of the ThreadSanitizer runtime.
//
// The harness and the crate under test are compiled with -Zsanitizer=thread, so every memory access,
// atomic operation and fence of the *unmodified* source arrives here as a __tsan_* call.
//
//  mode OFF   calls are ignored / executed natively
//  mode SEQ   single-threaded: atomics executed natively, arena accesses checked (bounds, lifetime)
//  mode CONC  fibers under a controlled scheduler; C11 views; race detection; exhaustive exploration
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <csignal>
#include <vector>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>

typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32; typedef uint64_t u64; typedef unsigned __int128 u128;
#define EXP_ extern "C" __attribute__((visibility("default")))

// ------------------------------------------------------------------------------------ arena

static const u64 ARENA = 0x200000000000ull;
static const u64 ASIZE = 64ull << 20;
static const u64 REDZONE = 32;
enum { ST_NONE = 0, ST_LIVE = 1, ST_FREED = 2, ST_HARN = 3 };
static u8 *st;                       // per arena byte
struct Block { u32 off, size; u8 state; };
static const int MAXBLK = 512;
static Block blk[MAXBLK];
static int nblk;
static u64 brk_;                     // bump pointer (offset)
static u64 hw_;                      // high-water mark of dirty bytes
static int mode_;                    // 0 off 1 seq 2 conc
static int in_call;
static u64 frees_;                   // crate blocks released in this execution

enum VK { V_NONE = 0, V_OOB = 1, V_UAF = 2, V_DFREE = 3, V_RACE = 4, V_RACEFREE = 5, V_LEAK = 6,
          V_STEPS = 7, V_PANIC = 8, V_BADFREE = 9, V_USER = 100 };
struct Viol { u32 kind; u32 tid; u64 addr; u64 a, b; u32 other; u32 blkkind; };
static Viol viol[16];
static int nviol;

static inline bool inarena(u64 a) { return a - ARENA < ASIZE; }
static int cur_tid;                  // 0 main, 1.. fibers

static void add_viol(u32 kind, u64 addr, u64 a, u64 b, u32 other = 0, u32 bk = 0) {
  for (int i = 0; i < nviol; i++) if (viol[i].kind == kind && viol[i].addr == addr) return;
  if (nviol < 16) viol[nviol++] = Viol{kind, (u32)cur_tid, addr, a, b, other, bk};
}

static void die(const char *m) { fprintf(stderr, "rt: fatal: %s\n", m); fflush(stderr); _exit(70); }

// ------------------------------------------------------------------------------------ vmem regions

struct Region { u64 addr, len; };
static const int MAXREG = 32;
static Region reg[MAXREG]; static int nreg;   // currently mapped by the crate
static u64 next_map = 0x300000000000ull;
static u64 map_base = 0x300000000000ull;
static int track_maps;

// ------------------------------------------------------------------------------------ conc state

static const int NT = 4, NL = 24;
struct View { u16 vc[NT]; u16 loc[NL]; };
struct Msg { u64 val; View v; u8 wtid; };
struct Loc { u64 addr; u8 size; std::vector<Msg> h; u8 multi; };
static Loc locs[NL]; static int nloc;
static View scv;
struct Pend { u8 kind; u8 size; u8 mo, mo2, rmw; u64 addr, val, cmp; };
enum { K_LOAD = 1, K_STORE, K_RMW, K_CAS, K_FENCE, K_START, K_DONE, K_CHOOSE, K_WAIT };
struct Fiber {
  void *sp; char *stack; bool done; bool started;
  Pend p; int choice; u64 h1, h2; View cur, acq, rel; u32 steps, bound; u64 plain, plain_bound; int call;
  int spin; u64 oth; u64 sgen[NL]; int sidx[NL]; bool sread[NL];   // a busy-waiting call: what it has read, how many stores of others it knew of
};
static Fiber fib[NT];
static int nthr;
static void *sched_sp;
static const size_t STK = 256 << 10;

// race shadow, per byte
struct Sh { u16 wclk; u8 wtid; u8 pad; u16 r[NT]; u16 al[NT]; u16 as_[NT]; };
static const u64 SHN = 1 << 20, RGRAN = 256, RSHN = 4096;   // mapped regions: one shadow cell per 256 bytes of one view
static Sh *sh;

static inline void vjoin(View &a, const View &b) {
  for (int i = 0; i < NT; i++) if (b.vc[i] > a.vc[i]) a.vc[i] = b.vc[i];
  for (int i = 0; i < NL; i++) if (b.loc[i] > a.loc[i]) a.loc[i] = b.loc[i];
}
static inline void ljoin(View &a, const View &b) {
  for (int i = 0; i < NL; i++) if (b.loc[i] > a.loc[i]) a.loc[i] = b.loc[i];
}

static void to_sched();

static u32 blockkind(u64 off) {  // index of the crate block containing off, 0xff if none
  int k = 0;
  for (int i = 0; i < nblk; i++) { if (blk[i].state == ST_HARN) continue;
    if (off >= blk[i].off && off < blk[i].off + blk[i].size) return k; k++; }
  return 0xff;
}

extern "C" void rt_hang();

// slots of a mirrored mapping: both views of a slot share their shadow
static long map_shadow(u64 a) {
  u64 base = SHN;
  for (int i = 0; i < nreg; i++) {
    u64 half = reg[i].len / 2;
    if (a >= reg[i].addr && a < reg[i].addr + reg[i].len) { u64 k = base + (a - reg[i].addr) % half / RGRAN; if (k >= SHN + RSHN) die("map shadow too small"); return k; }
    base += half / RGRAN;
  }
  return -1;
}
static bool map_dirty;
static void access_map(u64 a, u64 n, bool wr) {
  map_dirty = true;
  Fiber &f = fib[cur_tid]; View &c = f.cur; u16 me = c.vc[cur_tid];
  for (u64 x = a / RGRAN * RGRAN; x < a + n; x += RGRAN) {
    long k = map_shadow(x < a ? a : x); if (k < 0) return;
    Sh &s = sh[k]; bool bad = s.wclk && s.wclk > c.vc[s.wtid]; int ot = s.wtid;
    if (wr) for (int t = 0; t < NT; t++) if (s.r[t] > c.vc[t]) { bad = true; ot = t; }
    if (bad) { add_viol(V_RACE, a, k, (n << 1) | wr, ot, 0xfe); return; }
    if (wr) { s.wclk = me; s.wtid = cur_tid; } else s.r[cur_tid] = me;
  }
}
static void release_map(u64 a, u64 n) {
  View &c = fib[cur_tid].cur;
  for (u64 x = a; x < a + n; x += RGRAN) {
    long k = map_shadow(x); if (k < 0) return;
    Sh &s = sh[k]; bool bad = s.wclk && s.wclk > c.vc[s.wtid]; int ot = s.wtid;
    for (int t = 0; t < NT; t++) if (s.r[t] > c.vc[t]) { bad = true; ot = t; }
    if (bad) { add_viol(V_RACEFREE, a, k, n, ot, 0xfe); return; }
  }
}

// check a plain access
static void access(u64 a, u64 n, bool wr) {
  if (!inarena(a)) { if (mode_ == 2 && nreg) access_map(a, n, wr); return; }
  u64 off = a - ARENA;
  bool cf = false;
  for (u64 i = 0; i < n; i++) {
    u8 s = st[off + i];
    if (s == ST_LIVE) { cf = true; continue; }
    if (s == ST_HARN) continue;
    if (!cf && s == ST_NONE && !in_call) continue;
    add_viol(s == ST_FREED ? V_UAF : V_OOB, a, off + i, n);
    return;
  }
  if (mode_ == 2 && cf) {
    Fiber &f = fib[cur_tid]; View &c = f.cur; u16 me = c.vc[cur_tid];
    if (off + n > SHN) die("shadow too small");
    for (u64 i = 0; i < n; i++) {
      Sh &s = sh[off + i];
      bool bad = false; int ot = 0;
      if (s.wclk && s.wclk > c.vc[s.wtid]) { bad = true; ot = s.wtid; }
      for (int t = 0; t < NT; t++) {
        if (s.as_[t] > c.vc[t]) { bad = true; ot = t; }
        if (wr && (s.r[t] > c.vc[t] || s.al[t] > c.vc[t])) { bad = true; ot = t; }
      }
      if (bad) { add_viol(V_RACE, a, off + i, (n << 1) | wr, ot, blockkind(off)); return; }
      if (wr) { s.wclk = me; s.wtid = cur_tid; } else s.r[cur_tid] = me;
    }
  }
}

static u64 ev_count;
static u64 seq_bound = 0, seq_steps = 0;

static inline void plain(void *p, u64 n, bool wr) {
  if (!mode_) return;
  access((u64)p, n, wr);
  if (in_call) {
    if (mode_ == 2 && cur_tid) {
      Fiber &f = fib[cur_tid];
      if (f.call && ++f.plain > 200000) { add_viol(V_STEPS, 0, f.plain, 1); to_sched(); }
    } else if (mode_ == 1) { if (++ev_count > 400000000ull) rt_hang(); }
  }
}

// ------------------------------------------------------------------------------------ atomics

static int find_loc(u64 addr, int size) {
  for (int i = 0; i < nloc; i++) if (locs[i].addr == addr) return i;
  if (nloc == NL) die("too many atomic locations");
  Loc &l = locs[nloc];
  l.addr = addr; l.size = size; l.h.clear(); l.multi = 0;
  Msg m; memset(&m, 0, sizeof m); m.wtid = 0xff;
  memcpy(&m.val, (void *)addr, size);
  l.h.push_back(m);
  return nloc++;
}

static inline bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
static inline bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

static void atomic_shadow(u64 a, int n, bool rd, bool wr) {
  if (!inarena(a)) return;
  u64 off = a - ARENA; Fiber &f = fib[cur_tid]; View &c = f.cur;
  for (int i = 0; i < n; i++) {
    u8 s = st[off + i];
    if (s != ST_LIVE && s != ST_HARN) { add_viol(s == ST_FREED ? V_UAF : V_OOB, a, off + i, n); return; }
    if (s == ST_HARN) return;
    Sh &x = sh[off + i];
    bool bad = x.wclk && x.wclk > c.vc[x.wtid]; int ot = x.wtid;
    if (wr) for (int t = 0; t < NT; t++) if (x.r[t] > c.vc[t]) { bad = true; ot = t; }
    if (bad) { add_viol(V_RACE, a, off + i, (u64)n << 1 | wr, ot, blockkind(off)); return; }
    if (rd) x.al[cur_tid] = c.vc[cur_tid];
    if (wr) x.as_[cur_tid] = c.vc[cur_tid];
  }
}

static void sc_before(Fiber &f) { ljoin(f.cur, scv); }
static void sc_after(Fiber &f) { ljoin(scv, f.cur); }

static u64 rmw_apply(int op, u64 old, u64 v, int size) {
  u64 m = size == 8 ? ~0ull : ((1ull << (8 * size)) - 1);
  switch (op) {
    case 0: return v & m; case 1: return (old + v) & m; case 2: return (old - v) & m; case 3: return old & v & m;
    case 4: return (old | v) & m; case 5: return (old ^ v) & m; case 6: return ~(old & v) & m;
  }
  return v;
}

static u64 do_load(Fiber &f, int li, int idx, int mo) {
  Loc &l = locs[li];
  if (mo == 5) sc_before(f);
  Msg &m = l.h[idx];
  if (idx > f.cur.loc[li]) f.cur.loc[li] = idx;
  if (is_acq(mo)) vjoin(f.cur, m.v);
  vjoin(f.acq, m.v);
  vjoin(f.acq, f.cur);
  if (mo == 5) sc_after(f);
  return m.val;
}
static void do_store(Fiber &f, int li, u64 val, int mo, const View *carry) {
  Loc &l = locs[li];
  if (mo == 5) sc_before(f);
  int ts = l.h.size();
  Msg m; memset(&m, 0, sizeof m);
  m.val = val; m.wtid = cur_tid;
  for (auto &o : l.h) if (!carry && o.wtid != 0xff && o.wtid != 0 && cur_tid && o.wtid != cur_tid) l.multi = 1;
  f.cur.loc[li] = ts;
  if (is_rel(mo)) m.v = f.cur; else { m.v = f.rel; m.v.loc[li] = ts; }
  if (carry) vjoin(m.v, *carry);
  l.h.push_back(m);
  for (int t = 1; t < NT; t++) if (t != cur_tid) fib[t].oth++;
  vjoin(f.acq, f.cur);
  memcpy((void *)l.addr, &val, l.size);
  if (mo == 5) sc_after(f);
}
static void do_fence(Fiber &f, int mo) {
  if (is_acq(mo)) vjoin(f.cur, f.acq);
  if (mo == 5) { ljoin(f.cur, scv); ljoin(scv, f.cur); }
  if (is_rel(mo)) f.rel = f.cur;
}

static inline u64 mix(u64 h, u64 x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }
static inline void obs(Fiber &f, u64 x) { f.h1 = mix(f.h1, x); f.h2 = mix(f.h2 ^ 0x5bd1e995, x * 0xc4ceb9fe1a85ec53ull + 1); }

// trace of the current execution
struct Ev { u8 tid, kind, mo, size; u16 opt, nopt; u64 addr, val, res; };
static std::vector<Ev> trace; static bool tracing = true;

static u32 stuck; EXP_ u32 rt_stuck() { return stuck; }
static u64 stale_reads;   // loads of this execution that did not read the newest store
static u64 exec_pending(Fiber &f, int choice, bool &ok) {
  Pend &p = f.p; u64 res = 0; ok = true;
  u64 adr = p.addr;
  if (p.kind == K_FENCE) { do_fence(f, p.mo); }
  else {
    atomic_shadow(p.addr, p.size, p.kind != K_STORE, p.kind != K_LOAD);
    if (nviol) { return 0; }
    int li = find_loc(p.addr, p.size); Loc &l = locs[li];
    if (f.spin) { f.sread[li] = true; f.sgen[li] = f.oth; f.sidx[li] = p.kind == K_LOAD ? (int)l.h.size() - 1 - choice : (int)l.h.size() - (p.kind == K_CAS); }
    if (p.kind == K_LOAD) { if (choice) stale_reads++; res = do_load(f, li, l.h.size() - 1 - choice, p.mo); }
    else if (p.kind == K_STORE) { do_store(f, li, p.val, p.mo, nullptr); }
    else if (p.kind == K_RMW) {
      int last = l.h.size() - 1; View carry = l.h[last].v;
      u64 old = do_load(f, li, last, p.mo);
      do_store(f, li, rmw_apply(p.rmw, old, p.val, p.size), p.mo, &carry); res = old;
    } else if (p.kind == K_CAS) {
      int last = l.h.size() - 1;
      if (choice == 0 && l.h[last].val == p.cmp) {
        View carry = l.h[last].v;
        res = do_load(f, li, last, p.mo);
        do_store(f, li, p.val, p.mo, &carry);
      } else {
        // failure: choice selects a visible store whose value differs
        int k = (l.h[last].val == p.cmp) ? choice - 1 : choice, idx = -1;
        for (int i = last; i >= (int)f.cur.loc[li]; i--) if (l.h[i].val != p.cmp && k-- == 0) { idx = i; break; }
        if (idx < 0) die("bad cas choice");
        res = do_load(f, li, idx, p.mo2);
      }
    }
  }
  f.cur.vc[cur_tid]++;
  if (f.cur.vc[cur_tid] > 60000) die("clock overflow");
  obs(f, p.kind | p.mo << 4 | (u64)p.size << 8); obs(f, adr); obs(f, p.val); obs(f, res);
  return res;
}

static int sc_only; EXP_ void rt_sc_only(int x) { sc_only = x; }
// A busy-waiting call reads a store again only after something it could see has changed: a turn of its loop that reads
// what the last one read changes nothing, and is the same run as one in which the thread was not scheduled.
static bool spin_news(Fiber &f) { for (int l = 0; l < nloc; l++) if (f.sread[l] && (int)locs[l].h.size() - 1 > f.sidx[l]) return true; return false; }
static int options(Fiber &f, int tid) {
  Pend &p = f.p;
  if (f.spin && p.kind != K_FENCE && p.kind != K_STORE) {
    int li = find_loc(p.addr, p.size); int last = locs[li].h.size() - 1;
    if (f.sread[li] && f.oth == f.sgen[li]) {
      if (p.kind == K_LOAD && last > f.sidx[li]) { if (sc_only) return 1; int lo = f.cur.loc[li]; if (p.mo == 5 && scv.loc[li] > lo) lo = scv.loc[li]; return f.sidx[li] + 1 > lo ? last - f.sidx[li] : last - lo + 1; }
      if (!spin_news(f)) return 0;
    }
  }
  if (p.kind == K_LOAD || p.kind == K_CAS) {
    int li = find_loc(p.addr, p.size); Loc &l = locs[li];
    u16 lo = f.cur.loc[li];
    if (p.mo == 5 || (p.kind == K_CAS && p.mo2 == 5)) { if (scv.loc[li] > lo) lo = scv.loc[li]; }
    int last = l.h.size() - 1;
    if (sc_only) return 1;
    if (p.kind == K_LOAD) return last - lo + 1;
    int n = l.h[last].val == p.cmp ? 1 : 0;
    for (int i = last; i >= lo; i--) if (l.h[i].val != p.cmp) n++;
    return n;
  }
  return 1;
}

static u64 atomic_op(u8 kind, void *addr, u8 size, u64 val, u64 cmp, int mo, int mo2, int rmw);

// ------------------------------------------------------------------------------------ fibers

asm(R"(
.text
.globl rt_switch
.type rt_switch,@function
rt_switch:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_switch, .-rt_switch
)");
extern "C" void rt_switch(void **save, void *load);

struct Scenario {
  u32 nthr;
  u32 step_bound;
  void *ctx;
  void (*setup)(void *);
  void (*thread)(void *, u32);
  void (*fin)(void *);
};
static Scenario *scn;

static void to_sched() { int t = cur_tid; rt_switch(&fib[t].sp, sched_sp); cur_tid = t; }
static void to_fiber(int t) { cur_tid = t; int ic = in_call; in_call = fib[t].call; rt_switch(&sched_sp, fib[t].sp); in_call = ic; cur_tid = 0; }

static void fiber_main() {
  int t = cur_tid;
  scn->thread(scn->ctx, t);
  cur_tid = t;
  fib[t].done = true; fib[t].p.kind = K_DONE; fib[t].call = 0;
  for (;;) to_sched();
}

static void start_fiber(int t) {
  Fiber &f = fib[t];
  if (!f.stack) {
    f.stack = (char *)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (f.stack == MAP_FAILED) die("stack");
  }
  u64 *sp = (u64 *)(f.stack + STK);
  *--sp = 0; *--sp = 0; *--sp = 0;      // alignment + fake return
  *--sp = (u64)fiber_main;
  for (int i = 0; i < 6; i++) *--sp = 0;
  f.sp = sp;
}

// nondeterminism of the harness: 0..n-1
EXP_ u32 rt_choose(u32 n) {
  Fiber &f = fib[cur_tid];
  if (!cur_tid) return 0;
  if (n <= 1) return 0;
  int c = f.call; f.p = Pend{K_CHOOSE, 0, 0, 0, 0, 0, n, 0}; f.choice = 0;
  to_sched();
  Fiber &g = fib[cur_tid]; g.call = c; in_call = c;
  obs(g, 0x7000 + g.choice);
  return g.choice;
}
// the call that follows may busy-wait
EXP_ void rt_spin(int on) { Fiber &f = fib[cur_tid]; if (!cur_tid) return; f.spin = on; memset(f.sread, 0, sizeof f.sread); }
// blocks the fiber until *p is set
EXP_ void rt_wait(u8 *p) {
  Fiber &f = fib[cur_tid];
  if (!cur_tid) return;
  f.p = Pend{K_WAIT, 1, 0, 0, 0, (u64)p, 0, 0}; f.choice = 0;
  to_sched();
  obs(fib[cur_tid], 0x9001);
}
static u64 atomic_op(u8 kind, void *addr, u8 size, u64 val, u64 cmp, int mo, int mo2, int rmw) {
  Fiber &f = fib[cur_tid];
  f.p = Pend{kind, size, (u8)mo, (u8)mo2, (u8)rmw, (u64)addr, val, cmp};
  if (cur_tid == 0) {  // setup / final: latest, no scheduling
    if (kind != K_FENCE) { atomic_shadow((u64)addr, size, kind != K_STORE, kind != K_LOAD); if (nviol) return 0; }
    bool ok; u64 r = exec_pending(f, 0, ok); return r;
  }
  if (f.call && !f.spin && ++f.steps > f.bound) { add_viol(V_STEPS, 0, f.steps, 0); }
  f.choice = 0;
  to_sched();
  bool ok;
  return exec_pending(fib[cur_tid], fib[cur_tid].choice, ok);
}

// ------------------------------------------------------------------------------------ tsan entry points

#define EXP extern "C" __attribute__((visibility("default")))
EXP void __tsan_init() {}
EXP void __tsan_func_entry(void *) {}
EXP void __tsan_func_exit() {}
#define RW(n) \
  EXP void __tsan_read##n(void *a) { plain(a, n, false); } EXP void __tsan_write##n(void *a) { plain(a, n, true); } \
  EXP void __tsan_unaligned_read##n(void *a) { plain(a, n, false); } EXP void __tsan_unaligned_write##n(void *a) { plain(a, n, true); } \
  EXP void __tsan_volatile_read##n(void *a) { plain(a, n, false); } EXP void __tsan_volatile_write##n(void *a) { plain(a, n, true); } \
  EXP void __tsan_unaligned_volatile_read##n(void *a) { plain(a, n, false); } EXP void __tsan_unaligned_volatile_write##n(void *a) { plain(a, n, true); } \
  EXP void __tsan_read_write##n(void *a) { plain(a, n, true); } EXP void __tsan_unaligned_read_write##n(void *a) { plain(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_vptr_update(void **, void *) {}
EXP void __tsan_vptr_read(void **) {}
EXP void __tsan_read_range(void *a, u64 n) { plain(a, n, false); }
EXP void __tsan_write_range(void *a, u64 n) { plain(a, n, true); }
EXP void *__tsan_memcpy(void *d, const void *s, u64 n) { plain((void *)s, n, false); plain(d, n, true); return memcpy(d, s, n); }
EXP void *__tsan_memmove(void *d, const void *s, u64 n) { plain((void *)s, n, false); plain(d, n, true); return memmove(d, s, n); }
EXP void *__tsan_memset(void *d, int c, u64 n) { plain(d, n, true); return memset(d, c, n); }
EXP void __tsan_ignore_thread_begin() {}
EXP void __tsan_ignore_thread_end() {}

static inline bool conc(void *a) { return mode_ == 2 && inarena((u64)a) && st[(u64)a - ARENA] != ST_HARN; }
static inline void seqat(void *a, u64 n, bool wr) {
  if (mode_ == 1) { access((u64)a, n, wr); if (in_call) { seq_steps++; if (seq_bound && seq_steps > seq_bound) rt_hang(); } }
}
#define AT(b, T) \
  EXP T __tsan_atomic##b##_load(const volatile T *a, int mo) { \
    if (conc((void *)a)) return (T)atomic_op(K_LOAD, (void *)a, b / 8, 0, 0, mo, 0, 0); seqat((void *)a, b / 8, false); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
  EXP void __tsan_atomic##b##_store(volatile T *a, T v, int mo) { \
    if (conc((void *)a)) { atomic_op(K_STORE, (void *)a, b / 8, v, 0, mo, 0, 0); return; } seqat((void *)a, b / 8, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##b##_exchange(volatile T *a, T v, int mo) { \
    if (conc((void *)a)) return (T)atomic_op(K_RMW, (void *)a, b / 8, v, 0, mo, 0, 0); seqat((void *)a, b / 8, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##b##_fetch_add(volatile T *a, T v, int mo) { \
    if (conc((void *)a)) return (T)atomic_op(K_RMW, (void *)a, b / 8, v, 0, mo, 0, 1); seqat((void *)a, b / 8, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##b##_fetch_sub(volatile T *a, T v, int mo) { \
    if (conc((void *)a)) return (T)atomic_op(K_RMW, (void *)a, b / 8, v, 0, mo, 0, 2); seqat((void *)a, b / 8, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##b##_fetch_and(volatile T *a, T v, int mo) { \
    if (conc((void *)a)) return (T)atomic_op(K_RMW, (void *)a, b / 8, v, 0, mo, 0, 3); seqat((void *)a, b / 8, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##b##_fetch_or(volatile T *a, T v, int mo) { \
    if (conc((void *)a)) return (T)atomic_op(K_RMW, (void *)a, b / 8, v, 0, mo, 0, 4); seqat((void *)a, b / 8, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##b##_fetch_xor(volatile T *a, T v, int mo) { \
    if (conc((void *)a)) return (T)atomic_op(K_RMW, (void *)a, b / 8, v, 0, mo, 0, 5); seqat((void *)a, b / 8, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##b##_fetch_nand(volatile T *a, T v, int mo) { \
    if (conc((void *)a)) return (T)atomic_op(K_RMW, (void *)a, b / 8, v, 0, mo, 0, 6); seqat((void *)a, b / 8, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
  EXP T __tsan_atomic##b##_compare_exchange_val(volatile T *a, T c, T v, int mo, int fmo) { \
    if (conc((void *)a)) return (T)atomic_op(K_CAS, (void *)a, b / 8, v, c, mo, fmo, 0); seqat((void *)a, b / 8, true); \
    T x = c; __atomic_compare_exchange_n(a, &x, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return x; } \
  EXP int __tsan_atomic##b##_compare_exchange_strong(volatile T *a, T *c, T v, int mo, int fmo) { \
    T r = __tsan_atomic##b##_compare_exchange_val(a, *c, v, mo, fmo); if (r == *c) return 1; *c = r; return 0; } \
  EXP int __tsan_atomic##b##_compare_exchange_weak(volatile T *a, T *c, T v, int mo, int fmo) { \
    return __tsan_atomic##b##_compare_exchange_strong(a, c, v, mo, fmo); }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
EXP void __tsan_atomic_thread_fence(int mo) { if (mode_ == 2) atomic_op(K_FENCE, nullptr, 0, 0, 0, mo, 0, 0); else if (mode_ == 1 && in_call) seq_steps++; }
EXP void __tsan_atomic_signal_fence(int) {}

// ------------------------------------------------------------------------------------ allocation

EXP int rt_in_arena(void *p) { return inarena((u64)p); }
EXP void *rt_alloc(u64 size, u64 align, int harness) {
  if (nblk >= MAXBLK) die("too many blocks");
  u64 off = brk_ + REDZONE; off = (off + align - 1) & ~(align - 1);
  if (off + size + REDZONE > ASIZE) die("arena exhausted");
  memset(st + off, harness == 1 ? ST_HARN : ST_LIVE, size);
  blk[nblk++] = Block{(u32)off, (u32)size, (u8)(harness ? ST_HARN : ST_LIVE)};
  brk_ = off + size;
  if (brk_ > hw_) hw_ = brk_;
  if (mode_ == 2) {
    if (off + size > SHN) die("conc arena too small");
    memset(sh + off, 0, size * sizeof(Sh));
  }
  return (void *)(ARENA + off);
}
EXP void rt_dealloc(void *p, u64 size) {
  u64 off = (u64)p - ARENA;
  for (int i = 0; i < nblk; i++) if (blk[i].off == off && (blk[i].size == size || !size)) {
    if (blk[i].state == ST_HARN && in_call) { add_viol(V_BADFREE, (u64)p, off, size); return; }
    if (blk[i].state == ST_FREED) { add_viol(V_DFREE, (u64)p, off, size); return; }
    if (mode_ == 2 && blk[i].state == ST_LIVE) {
      Fiber &f = fib[cur_tid]; View &c = f.cur;
      for (u64 k = 0; k < blk[i].size; k++) {
        Sh &s = sh[off + k]; bool bad = s.wclk && s.wclk > c.vc[s.wtid]; int ot = s.wtid;
        for (int t = 0; t < NT; t++) if (s.r[t] > c.vc[t] || s.al[t] > c.vc[t] || s.as_[t] > c.vc[t]) { bad = true; ot = t; }
        if (bad) { add_viol(V_RACEFREE, (u64)p, off + k, size, ot, blockkind(off)); break; }
      }
    }
    if (blk[i].state == ST_LIVE) frees_++;
    blk[i].state = ST_FREED;
    memset(st + off, ST_FREED, blk[i].size);
    return;
  }
  add_viol(V_BADFREE, (u64)p, off, size);
}
EXP u64 rt_live_blocks() { u64 n = 0; for (int i = 0; i < nblk; i++) n += blk[i].state == ST_LIVE; return n; }
EXP u64 rt_frees() { return frees_; }
EXP u64 rt_nblocks() { u64 n = 0; for (int i = 0; i < nblk; i++) n += blk[i].state != ST_HARN; return n; }

static void unmap_all() {
  for (int i = 0; i < nreg; i++) syscall(SYS_munmap, reg[i].addr, reg[i].len);
  nreg = 0;
}
EXP void rt_reset() {
  memset((void *)ARENA, 0, hw_); memset(st, 0, hw_ + REDZONE);
  nblk = 0; brk_ = 0; hw_ = 0; nviol = 0; frees_ = 0; seq_steps = 0; ev_count = 0;
  if (map_dirty) { memset(sh + SHN, 0, RSHN * sizeof(Sh)); map_dirty = false; }
  unmap_all(); next_map = map_base;
#ifdef RT_VMEM
  if (track_maps) syscall(SYS_close_range, 3u, ~0u, 0u);   // descriptors the crate left open
#endif
}

EXP void rt_init() {
  void *p = mmap((void *)ARENA, ASIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if ((u64)p != ARENA) die("arena");
  st = (u8 *)mmap(nullptr, ASIZE + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  sh = (Sh *)mmap(nullptr, (SHN + RSHN) * sizeof(Sh), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
EXP void rt_mode(int m) { mode_ = m; }
static int call_nblk;
EXP void rt_call(int on) { in_call = on;
  if (mode_ == 1) {
    if (on) call_nblk = nblk;
    else while (nblk > call_nblk && blk[nblk - 1].state == ST_FREED) {  // temporaries of one call leave no trace
      Block &b = blk[--nblk]; memset((void *)(ARENA + b.off), 0, b.size); memset(st + b.off, 0, b.size);
      brk_ = nblk ? blk[nblk - 1].off + blk[nblk - 1].size : 0; frees_--; }
  }
  if (on) { ev_count = 0; seq_steps = 0; } if (mode_ == 2) { Fiber &f = fib[cur_tid]; f.call = on; if (on) { f.steps = 0; f.plain = 0; } } }
EXP u64 rt_steps() { return mode_ == 2 ? fib[cur_tid].steps : seq_steps; }
EXP void rt_seq_bound(u64 b) { seq_bound = b; }
EXP int rt_in_call() { return mode_ && in_call; }
EXP int rt_in_call_set(int x) { int o = in_call; in_call = x; if (mode_ == 2) fib[cur_tid].call = x; return o; }
EXP int rt_set_mode_raw(int m) { int o = mode_; mode_ = m; return o; }
EXP u64 rt_stale() { return stale_reads; }
EXP int rt_nviol() { return nviol; }
EXP const Viol *rt_viol(int i) { return &viol[i]; }
EXP void rt_clear_viol() { nviol = 0; }
EXP void rt_fail(u32 code, u64 a, u64 b) { add_viol(V_USER + code, a, a, b); if (mode_ == 2 && cur_tid) obs(fib[cur_tid], code + 77); }
EXP void rt_observe(u64 x) { if (mode_ == 2) obs(fib[cur_tid], x); }
EXP void rt_dump_image() { for (int i = 0; i < nblk; i++) { fprintf(stderr, "blk %d off %u size %u st %d:", i, blk[i].off, blk[i].size, blk[i].state); for (u32 k = 0; k < blk[i].size; k++) fprintf(stderr, "%s%02x", k % 8 ? "" : " ", *(u8 *)(ARENA + blk[i].off + k)); fprintf(stderr, "\n"); } }
EXP int rt_tid() { return cur_tid; }
// run f on a zeroed stack at a fixed place: padding bytes of moved structs are then deterministic
asm(R"(
.text
.globl rt_on_sp
.type rt_on_sp,@function
rt_on_sp:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, rt_saved_sp(%rip)
  movq %rdx, %rsp
  movq %rdi, %rax
  movq %rsi, %rdi
  xorl %ebp, %ebp
  xorl %ebx, %ebx
  xorl %r12d, %r12d
  xorl %r13d, %r13d
  xorl %r14d, %r14d
  xorl %r15d, %r15d
  xorl %esi, %esi
  xorl %edx, %edx
  xorl %ecx, %ecx
  xorl %r8d, %r8d
  xorl %r9d, %r9d
  xorl %r10d, %r10d
  xorl %r11d, %r11d
  pxor %xmm0, %xmm0
  pxor %xmm1, %xmm1
  pxor %xmm2, %xmm2
  pxor %xmm3, %xmm3
  call *%rax
  movq rt_saved_sp(%rip), %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size rt_on_sp, .-rt_on_sp
)");
extern "C" { void *rt_saved_sp; }
extern "C" void rt_on_sp(void (*f)(void *), void *a, void *sp);
static char *fstack; static const size_t FSTK = 1 << 20;
#ifdef RT_VMEM
static const size_t ZSTK = 200 << 10;   // items of a page
#else
static const size_t ZSTK = 24 << 10;
#endif
EXP void rt_on_stack(void (*f)(void *), void *a) {
  if (!fstack) fstack = (char *)::mmap((void *)0x250000000000ull, FSTK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  memset(fstack + FSTK - ZSTK, 0, ZSTK);
  rt_on_sp(f, a, fstack + FSTK - 64);
}

// snapshot / restore of the whole arena (and of mapped regions)
struct Snap { u64 hw, brk, frees, next_map; int nblk, nreg; Block blk[MAXBLK]; Region reg[MAXREG]; std::vector<u8> mem, stt, maps; };
EXP void *rt_snap_new() { return new Snap(); }
EXP void rt_snap_free(void *p) { delete (Snap *)p; }
EXP void rt_snapshot(void *p) {
  Snap &s = *(Snap *)p; s.hw = hw_; s.brk = brk_; s.frees = frees_; s.nblk = nblk; s.nreg = nreg; s.next_map = next_map;
  memcpy(s.blk, blk, sizeof(Block) * nblk); memcpy(s.reg, reg, sizeof(Region) * nreg);
  s.mem.resize(hw_); s.stt.resize(hw_);
  memcpy(s.mem.data(), (void *)ARENA, hw_); memcpy(s.stt.data(), st, hw_);
  s.maps.clear();
  for (int i = 0; i < nreg; i++) s.maps.insert(s.maps.end(), (u8 *)reg[i].addr, (u8 *)reg[i].addr + reg[i].len);
}
// unmap what was mapped since the snapshot
EXP void rt_unmap_since(void *p) {
  Snap &s = *(Snap *)p;
  for (int i = 0; i < nreg; i++) { bool old = false; for (int k = 0; k < s.nreg; k++) old |= !memcmp(&s.reg[k], &reg[i], sizeof(Region)); if (!old) syscall(SYS_munmap, reg[i].addr, reg[i].len); }
  nreg = s.nreg; memcpy(reg, s.reg, sizeof(Region) * nreg);
}
// false if the snapshot can not be restored (a mapping went away)
EXP int rt_restore(void *p) {
  Snap &s = *(Snap *)p;
  if (s.nreg != nreg || memcmp(s.reg, reg, sizeof(Region) * nreg)) return 0;
  if (hw_ > s.hw) { memset((void *)(ARENA + s.hw), 0, hw_ - s.hw); memset(st + s.hw, 0, hw_ - s.hw); }
  memcpy((void *)ARENA, s.mem.data(), s.hw); memcpy(st, s.stt.data(), s.hw);
  hw_ = s.hw; brk_ = s.brk; frees_ = s.frees; nblk = s.nblk; next_map = s.next_map;
  memcpy(blk, s.blk, sizeof(Block) * nblk);
  u64 o = 0; for (int i = 0; i < nreg; i++) { memcpy((void *)reg[i].addr, s.maps.data() + o, reg[i].len); o += reg[i].len; }
  nviol = 0; return 1;
}
static void hash_bytes(u64 &a, u64 &b, const u8 *p, u64 n) {
  u64 i = 0;
  for (; i + 8 <= n; i += 8) { u64 x; memcpy(&x, p + i, 8); a = (a ^ x) * 0x9E3779B97F4A7C15ull; a ^= a >> 29; b = (b + x) * 0xC2B2AE3D27D4EB4Full; b ^= b >> 31; }
  u64 x = 0; if (i < n) { memcpy(&x, p + i, n - i); a = (a ^ x) * 0x9E3779B97F4A7C15ull; a ^= a >> 29; b = (b + x) * 0xC2B2AE3D27D4EB4Full; b ^= b >> 31; }
}
// hash of the memory image; block states included (freed bytes do not count: they are dead)
EXP void rt_hash(const u8 *extra, u64 n, u64 *out) {
  u64 a = 0x1234567, b = 0x89abcdef;
  for (int i = 0; i < nblk; i++) {
    u64 x = blk[i].off | (u64)blk[i].state << 40; hash_bytes(a, b, (u8 *)&x, 8);
    if (blk[i].state != ST_FREED) hash_bytes(a, b, (u8 *)(ARENA + blk[i].off), blk[i].size);
  }
  for (int i = 0; i < nreg; i++) { hash_bytes(a, b, (u8 *)&reg[i], sizeof(Region)); hash_bytes(a, b, (u8 *)reg[i].addr, reg[i].len); }
  hash_bytes(a, b, extra, n);
  out[0] = a; out[1] = b;
}

// ------------------------------------------------------------------------------------ vmem interposition

EXP void rt_track_maps(int on) { track_maps = on; }
EXP int rt_nregions() { return nreg; }
EXP int rt_nfds() { int n = 0; for (int i = 0; i < 1024; i++) n += syscall(SYS_fcntl, i, F_GETFD) >= 0; return n; }
EXP void rt_region(int i, u64 *out) { out[0] = reg[i].addr; out[1] = reg[i].len; }
static u64 munmap_bad; EXP u64 rt_munmap_bad() { return munmap_bad; }
static void reg_remove(u64 a, u64 n) {
  for (int i = 0; i < nreg; i++) {
    u64 s = reg[i].addr, e = s + reg[i].len, x = a, y = a + n;
    if (y <= s || x >= e) continue;
    Region l{s, x > s ? x - s : 0}, r{y, y < e ? e - y : 0};
    reg[i] = reg[--nreg]; i--;
    if (l.len && nreg < MAXREG) reg[nreg++] = l;
    if (r.len && nreg < MAXREG) reg[nreg++] = r;
  }
}
static void reg_add(u64 a, u64 n) {
  reg_remove(a, n);
  for (int i = 0; i < nreg; i++) {
    if (reg[i].addr + reg[i].len == a) { reg[i].len += n; return; }
    if (a + n == reg[i].addr) { reg[i].addr = a; reg[i].len += n; return; }
  }
  if (nreg >= MAXREG) die("regions"); reg[nreg++] = Region{a, n};
}
#ifdef RT_VMEM
EXP void *mmap(void *addr, size_t len, int prot, int flags, int fd, off_t off) noexcept {
  if (mode_ && in_call && track_maps) {
    void *hint = addr;
    bool fresh = !addr && len;
    if (fresh) { hint = (void *)next_map; }
    long r = syscall(SYS_mmap, hint, len, prot, flags, fd, off);
    if (r < 0 && r > -4096) { errno = -r; return MAP_FAILED; }
    if (r == -1) return MAP_FAILED;
    if (fresh) next_map += ((len + 4095) & ~4095ull) + 65536;
    reg_add((u64)r, (len + 4095) & ~4095ull);
    return (void *)r;
  }
  long r = syscall(SYS_mmap, addr, len, prot, flags, fd, off);
  return (void *)r;
}
EXP int munmap(void *addr, size_t len) noexcept {
  if (mode_ && in_call && track_maps) {
    u64 a = (u64)addr, n = (len + 4095) & ~4095ull; bool inside = false;
    for (int i = 0; i < nreg; i++) if (a >= reg[i].addr && a + n <= reg[i].addr + reg[i].len) inside = true;
    if (!inside && len) { munmap_bad++; errno = EINVAL; return -1; }
    if (mode_ == 2) release_map(a, n);
    reg_remove(a, n);
  }
  return syscall(SYS_munmap, addr, len);
}
static long fake_page; EXP void rt_fake_page(long n) { fake_page = n; }
static u64 sysconf_calls; EXP u64 rt_sysconf_calls() { return sysconf_calls; }
EXP long sysconf(int name) noexcept {
  if (in_call && mode_ && name == _SC_PAGESIZE) { sysconf_calls++; if (fake_page) return fake_page; return 4096; }
  if (name == _SC_PAGESIZE) return 4096;
  if (name == _SC_NPROCESSORS_ONLN || name == _SC_NPROCESSORS_CONF) return 8;
  if (name == _SC_GETPW_R_SIZE_MAX || name == _SC_GETGR_R_SIZE_MAX) return 1024;
  if (name == _SC_SIGSTKSZ || name == _SC_MINSIGSTKSZ) return 65536;
  return -1;
}
#endif

// ------------------------------------------------------------------------------------ exploration

struct H128 { size_t operator()(const u128 &x) const { return (u64)x ^ (u64)(x >> 64); } };
struct Choice { u16 n, cur; u128 key; };
struct Result {
  u64 states, transitions, executions, pruned, complete, max_depth, multi_writer, capped, rf_choices, steps_max, viol_exec;
};
static std::unordered_set<u128, H128> *visited;
static std::vector<Choice> path;
static u64 max_call_steps, max_call_steps_t[8];
EXP u64 rt_max_call_steps_of(u32 t) { return max_call_steps_t[t & 7]; }
EXP u64 rt_max_call_steps() { return max_call_steps; }

static u128 state_key() {
  // trim store histories to what is still readable
  u64 a = 1, b = 2;
  u16 lo[NL];
  for (int l = 0; l < nloc; l++) { lo[l] = 0xffff; for (int t = 1; t <= nthr; t++) if (fib[t].cur.loc[l] < lo[l]) lo[l] = fib[t].cur.loc[l]; }
  for (int t = 1; t <= nthr; t++) {
    Fiber &f = fib[t]; struct { u64 h1, h2; View c, q, r; u64 d; } x; memset(&x, 0, sizeof x);
    if (f.spin) for (int l = 0; l < nloc; l++) { struct { int l, i, n; } z{l, f.sread[l] ? f.sidx[l] : -9, f.sread[l] ? f.oth > f.sgen[l] : 0}; hash_bytes(a, b, (u8 *)&z, sizeof z); }
    x.h1 = f.h1; x.h2 = f.h2; x.c = f.cur; x.q = f.acq; x.r = f.rel; x.d = f.done;
    hash_bytes(a, b, (u8 *)&x, sizeof x);
  }
  for (int l = 0; l < nloc; l++) {
    struct { u64 addr, n; } y{locs[l].addr, locs[l].h.size()}; hash_bytes(a, b, (u8 *)&y, sizeof y);
    for (size_t i = lo[l]; i < locs[l].h.size(); i++) { Msg m; memset(&m, 0, sizeof m); m.val = locs[l].h[i].val; m.v = locs[l].h[i].v; hash_bytes(a, b, (u8 *)&m, sizeof m); }
  }
  hash_bytes(a, b, (u8 *)&scv, sizeof scv);
  return ((u128)a << 64) | b;
}

static void begin_exec() {
  rt_reset(); stale_reads = 0; stuck = 0;
  for (int i = 0; i < nloc; i++) locs[i].h.clear();
  nloc = 0; memset(&scv, 0, sizeof scv); trace.clear();
  for (int t = 0; t < NT; t++) {
    Fiber &f = fib[t]; f.done = false; f.started = false; memset(&f.p, 0, sizeof f.p); f.h1 = 11 + t; f.h2 = 17 + t;
    memset(&f.cur, 0, sizeof(View)); memset(&f.acq, 0, sizeof(View)); memset(&f.rel, 0, sizeof(View));
    f.spin = 0; f.oth = 0; memset(f.sread, 0, sizeof f.sread); f.call = 0; f.steps = 0; f.plain = 0; f.bound = scn->step_bound;
  }
  fib[0].cur.vc[0] = 1;
}

static int opt_trunc;
// enabled (thread, choice) pairs. Choices of the harness and fences that are not SC touch nothing another thread can
// see or change: such a step is taken alone (it commutes with every step of every other thread).
static int list_options(int last, int *opt_t, int *opt_c, Result *res) {
  int n = 0;
  for (int k = 0; k < nthr; k++) {
    int t = (last - 1 + k) % nthr + 1; Fiber &f = fib[t];
    if (f.done) continue;
    if (f.p.kind == K_CHOOSE) { n = 0; for (u64 c = 0; c < f.p.val && n < 64; c++) { opt_t[n] = t; opt_c[n++] = c; } return n; }
    if (f.p.kind == K_FENCE && f.p.mo != 5) { opt_t[0] = t; opt_c[0] = 0; return 1; }
  }
  for (int k = 0; k < nthr; k++) {
    int t = (last - 1 + k) % nthr + 1; Fiber &f = fib[t];
    if (f.done) continue;
    if (f.p.kind == K_WAIT) { if (*(volatile u8 *)f.p.addr) { opt_t[n] = t; opt_c[n++] = 0; } continue; }
    if (f.p.kind != K_FENCE) {   // pending access to dead memory: let it run and be reported
      u8 s = st[f.p.addr - ARENA];
      if (s != ST_LIVE && s != ST_HARN) { opt_t[n] = t; opt_c[n++] = 0; continue; }
    }
    int o = options(f, t);
    for (int c = 0; c < o; c++) { if (n >= 64) { opt_trunc = 1; break; } opt_t[n] = t; opt_c[n++] = c; }
    if (o > 1) res->rf_choices++;
  }
  return n;
}

// returns 0 complete, 1 pruned, 2 violation
static int run_exec(size_t fixed, Result *res, bool dedup) {
  begin_exec();
  cur_tid = 0; mode_ = 2; in_call = 0;
  scn->setup(scn->ctx);
  if (nviol) { mode_ = 0; return 2; }
  for (int t = 1; t <= nthr; t++) {
    fib[t].cur = fib[0].cur; fib[t].cur.vc[t] = 1; fib[t].acq = fib[t].cur; memset(&fib[t].rel, 0, sizeof(View));
    // thread creation releases everything main did
    fib[t].rel = fib[t].cur;
    start_fiber(t);
  }
  for (int t = 1; t <= nthr; t++) { to_fiber(t); if (nviol) { mode_ = 0; return 2; } }
  int last = 1;
  for (size_t depth = 0;; depth++) {
    if (nviol) { mode_ = 0; return 2; }
    int opt_t[64], opt_c[64], n = list_options(last, opt_t, opt_c, res);
    if (!n) { for (int t = 1; t <= nthr; t++) if (!fib[t].done) stuck |= 1u << t; break; }
    int c;
    if (depth < fixed) {
      if (path[depth].n != n) { fprintf(stderr, "rt: replay divergence at depth %zu: %d options, recorded %d\n", depth, n, path[depth].n); _exit(71); }
      c = path[depth].cur;
    } else {
      u128 k = 0;
      if (dedup) { k = state_key(); if (!visited->insert(k).second) { mode_ = 0; res->pruned++; return 1; } res->states++; }
      path.push_back(Choice{(u16)n, 0, k}); c = 0;
    }
    int t = opt_t[c]; Fiber &f = fib[t];
    f.choice = opt_c[c]; last = t;
    if (depth + 1 >= fixed || !dedup) res->transitions++;
    Pend p = f.p;
    to_fiber(t);
    if (tracing) trace.push_back(Ev{(u8)t, p.kind, p.mo, p.size, (u16)opt_c[c], (u16)n, p.addr, p.val, 0});
    if (f.steps > max_call_steps) max_call_steps = f.steps;
    if (f.steps > max_call_steps_t[t & 7]) max_call_steps_t[t & 7] = f.steps;
    if (depth + 1 > res->max_depth) res->max_depth = depth + 1;
    if (depth > 20000) die("runaway execution");
  }
  if (nviol) { mode_ = 0; return 2; }
  for (int t = 1; t <= nthr; t++) vjoin(fib[0].cur, fib[t].cur);
  fib[0].cur.vc[0]++;
  cur_tid = 0;
  scn->fin(scn->ctx);
  for (int l = 0; l < nloc; l++) if (locs[l].multi) res->multi_writer = 1;
  mode_ = 0;
  return nviol ? 2 : 0;
}

EXP const u16 *rt_path(u64 *n) { static std::vector<u16> v; v.clear(); for (auto &c : path) v.push_back(c.cur); *n = v.size(); return v.data(); }

static u64 deadline_; EXP void rt_deadline(u64 ms) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); deadline_ = ms ? (u64)ts.tv_sec * 1000 + ts.tv_nsec / 1000000 + ms : 0; }
// callback decides whether a violating execution is one the caller looks for: 1 stop, 0 ignore
EXP int rt_explore(Scenario *s, Result *res, u64 max_states, int (*on_viol)(void *), int (*on_complete)(void *)) {
  scn = s; nthr = s->nthr; path.clear(); memset(res, 0, sizeof *res);
  if (visited) delete visited; visited = new std::unordered_set<u128, H128>();
  tracing = false; max_call_steps = 0; memset(max_call_steps_t, 0, sizeof max_call_steps_t);
  size_t fixed = 0;
  for (;;) {
    int r = run_exec(fixed, res, true);
    res->executions++;
    if (r == 0) { res->complete++; if (on_complete && on_complete(s->ctx)) return 1; }
    if (r == 2) { res->viol_exec++; if (on_viol(s->ctx)) return 1; }
    if (res->states > max_states || opt_trunc) { res->capped = 1; break; }
    if (deadline_ && (res->executions & 255) == 0) { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); if ((u64)ts.tv_sec * 1000 + ts.tv_nsec / 1000000 > deadline_) { res->capped = 1; break; } }
    while (!path.empty() && path.back().cur + 1 >= path.back().n) path.pop_back();
    if (path.empty()) break;
    path.back().cur++;
    // the state at path.size()-1 is known; the choice made there is new
    fixed = path.size();
  }
  res->steps_max = max_call_steps;
  return 0;
}

// run one schedule
EXP int rt_replay(Scenario *s, const u16 *ch, u64 n, Result *res) {
  scn = s; nthr = s->nthr; path.clear(); memset(res, 0, sizeof *res); tracing = true;
  // options counts are not recorded in replay files: take them as they come
  for (u64 i = 0; i < n; i++) path.push_back(Choice{0, ch[i], 0});
  begin_exec(); cur_tid = 0; mode_ = 2; in_call = 0;
  s->setup(s->ctx);
  for (int t = 1; t <= nthr; t++) { fib[t].cur = fib[0].cur; fib[t].cur.vc[t] = 1; fib[t].acq = fib[t].cur; fib[t].rel = fib[t].cur; start_fiber(t); }
  for (int t = 1; t <= nthr && !nviol; t++) to_fiber(t);
  int last = 1;
  for (size_t depth = 0; !nviol; depth++) {
    int opt_t[64], opt_c[64], k = list_options(last, opt_t, opt_c, res);
    if (!k) { for (int t = 1; t <= nthr; t++) if (!fib[t].done) stuck |= 1u << t; break; }
    int c = depth < n ? ch[depth] : 0;
    if (c >= k) { fprintf(stderr, "rt: replay: choice %d of %d at step %zu\n", c, k, depth); return 3; }
    int t = opt_t[c]; fib[t].choice = opt_c[c]; last = t; Pend p = fib[t].p;
    static const char *kn[] = {"", "load", "store", "rmw", "cas", "fence", "start", "done", "choose", "wait"}; static const char *mn[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"};
    fprintf(stderr, "  step %zu: thread %d %s %s", depth, t, kn[p.kind], mn[p.mo]);
    if (p.kind == K_CHOOSE) fprintf(stderr, " %d of %d", fib[t].choice, (int)p.val);
    if (p.kind != K_FENCE && p.kind < K_START) fprintf(stderr, " @%llx", (unsigned long long)(p.addr - ARENA));
    if (p.kind == K_STORE || p.kind == K_RMW) fprintf(stderr, " value %llu", (unsigned long long)p.val);
    if (p.kind == K_LOAD && st[p.addr - ARENA] != ST_FREED) { int li = find_loc(p.addr, p.size); Loc &l = locs[li]; fprintf(stderr, " reads %llu (%d newer store(s) not seen)", (unsigned long long)l.h[l.h.size() - 1 - opt_c[c]].val, opt_c[c]); }
    fprintf(stderr, "\n");
    to_fiber(t);
  }
  if (!nviol) { for (int t = 1; t <= nthr; t++) vjoin(fib[0].cur, fib[t].cur); fib[0].cur.vc[0]++; cur_tid = 0; s->fin(s->ctx); }
  mode_ = 0;
  return nviol ? 2 : 0;
}

// ------------------------------------------------------------------------------------ crashes and hangs

static u8 *crash_note; static volatile u32 crash_len;   // harness keeps its current history here
EXP u8 *rt_note() { if (!crash_note) crash_note = (u8 *)calloc(1, 1 << 16); return crash_note; }
EXP void rt_note_len(u32 n) { crash_len = n; }
static void dump(const char *why, int code) {
  char b[64]; int n = snprintf(b, sizeof b, "CRASH %s incall=%d ", why, in_call); (void)!write(1, b, n);
  if (mode_ == 2) {
    for (auto &c : path) { n = snprintf(b, sizeof b, "%u ", c.cur); (void)!write(1, b, n); }
  } else if (crash_note) (void)!write(1, crash_note, crash_len);
  (void)!write(1, "\n", 1);
  _exit(code);
}
static void on_sig(int s) {
  char b[16]; snprintf(b, sizeof b, "sig%d", s); dump(b, in_call ? 77 : 79);
}
EXP void rt_hang() { dump("hang", 78); }
static u64 last_ev; static int stale; static volatile u64 beat;
EXP void rt_beat() { beat++; }
static void on_timer(int) { if (!in_call) { stale = 0; return; } if (beat == last_ev) { if (++stale >= 15) dump("hang", 78); } else { stale = 0; last_ev = beat; } }
EXP void rt_handlers() {
  stack_t ss; memset(&ss, 0, sizeof ss); ss.ss_size = 1 << 16; ss.ss_sp = malloc(ss.ss_size); sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_sig; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP}; for (int s : sg) sigaction(s, &sa, nullptr);
  struct sigaction st2; memset(&st2, 0, sizeof st2); st2.sa_handler = on_timer; st2.sa_flags = SA_ONSTACK | SA_RESTART; sigaction(SIGPROF, &st2, nullptr);
  struct itimerval it; it.it_interval.tv_sec = 1; it.it_interval.tv_usec = 0; it.it_value = it.it_interval; setitimer(ITIMER_PROF, &it, nullptr);
}
