//! types   Engine TYPES: every iterator-valued program of the safe API (construction, split, wrapping and
//! unwrapping, creation of futures) up to the wrapping depth, for every buffer variant and item class; the
//! compiler decides for each resulting type whether it can be sent / shared. Nothing is executed.
use mutringbuf::iterators::async_iterators::AsyncIterator;
use mutringbuf::iterators::{AsyncConsIter, AsyncProdIter, AsyncWorkIter, ConsIter, ProdIter, WorkIter};
#[allow(unused_imports)]
use mutringbuf::*;
use std::collections::{BTreeMap, BTreeSet};
use std::marker::PhantomData;

#[global_allocator]
static A: mc::rt::Alloc = mc::rt::Alloc;

struct W<R>(PhantomData<fn() -> R>);
fn prog<X, R>(_: impl FnOnce(X) -> R) -> W<R> { W(PhantomData) }
trait No { fn send(&self) -> bool { false } fn sync(&self) -> bool { false } }
impl<R> No for W<R> {}
struct WS<'a, R>(&'a W<R>);
struct WY<'a, R>(&'a W<R>);
impl<R: Send> WS<'_, R> { fn send(&self) -> bool { true } }
impl<R: Sync> WY<'_, R> { fn sync(&self) -> bool { true } }
trait NoS { fn send(&self) -> bool { false } }
trait NoY { fn sync(&self) -> bool { false } }
impl<R> NoS for WS<'_, R> {}
impl<R> NoY for WY<'_, R> {}
fn leak<T>(t: T) -> &'static mut T { Box::leak(Box::new(t)) }
fn mk<T>() -> T { unreachable!() }
fn ms<T>() -> &'static mut [T] { unreachable!() }

#[derive(Default)]
struct Out { n: u64, types: BTreeSet<&'static str>, edges: BTreeSet<(&'static str, &'static str)>, send: u64, viol: Vec<(String, String)>, table: BTreeMap<&'static str, (bool, bool)>, conc: bool, is: bool, tag: String }
impl Out {
    #[inline(never)]
    fn put(&mut self, from: &'static str, ty: &'static str, send: bool, sync: bool, text: &'static str) {
        self.n += 1;
        self.edges.insert((from, ty));
        self.types.insert(from);
        self.types.insert(ty);
        if send { self.send += 1; }
        if !(!self.conc && (send || sync) || self.conc && !self.is && send) { self.table.insert(ty, (send, sync)); return; }
        let text = format!("{}: {}", self.tag, text.split_whitespace().collect::<Vec<_>>().join(" "));
        let mut why = vec![];
        if !self.conc && send { why.push("of a local buffer can be sent to another thread"); }
        if !self.conc && sync { why.push("of a local buffer can be shared by reference with another thread"); }
        if self.conc && !self.is && send { why.push("over items that are not sendable can be sent to another thread"); }
        for w in why { self.viol.push((text.clone(), format!("{text}: the result {ty} {w}"))); }
        self.table.insert(ty, (send, sync));
    }
}
fn names<X, R>(_: &impl FnOnce(X) -> R) -> (&'static str, &'static str) { (std::any::type_name::<X>(), std::any::type_name::<R>()) }

macro_rules! judge { ($o:ident, $f:expr) => { { let f = $f; let n = names(&f); let w = prog(f); $o.put(n.0, n.1, WS(&w).send(), WY(&w).sync(), stringify!($f)); } } }
macro_rules! when { (y, $($t:tt)*) => { $($t)* }; (n, $($t:tt)*) => {} }

/// what can be done with a sync iterator of type $I (async form $A, whose alias is $AN)
macro_rules! sync_it { ($o:ident, $I:ty, $A:ty) => { {
    fn go($o: &mut Out) {
        type I = $I; type A = $A;
        judge!($o, |x: I| x);
        judge!($o, |x: I| leak(x));
        judge!($o, |x: I| &*leak(x));
        judge!($o, |x: I| Some(Box::new(x)));
        judge!($o, |x: I| std::sync::Mutex::new(x));
        judge!($o, |x: I| std::sync::Arc::new(x));
        judge!($o, |x: I| x.detach());
        judge!($o, |x: I| leak(x.detach()));
        judge!($o, |x: I| &*leak(x.detach()));
        judge!($o, |x: I| x.detach().attach());
        judge!($o, |x: I| x.detach().attach().detach());
        judge!($o, |x: I| A::from_sync(x));
        judge!($o, |x: I| A::from_sync(x.detach().attach()));
        judge!($o, |x: A| x);
        judge!($o, |x: A| leak(x));
        judge!($o, |x: A| &*leak(x));
        judge!($o, |x: A| x.into_sync());
        judge!($o, |x: A| AsyncIterator::detach(x));
        judge!($o, |x: A| leak(AsyncIterator::detach(x)));
        judge!($o, |x: A| &*leak(AsyncIterator::detach(x)));
        judge!($o, |x: A| AsyncIterator::detach(x).attach());
        judge!($o, |x: A| AsyncIterator::detach(x).attach().into_sync());
        judge!($o, |x: A| x.into_sync().detach());
        judge!($o, |x: &'static mut A| x.inner_mut());
        judge!($o, |x: &'static A| x.inner());
        // futures hold the iterator by reference
        judge!($o, |x: &'static mut A| x.get_workable());
        judge!($o, |x: &'static mut A| x.get_workable_slice_exact(1));
        judge!($o, |x: &'static mut A| x.get_workable_slice_avail());
        judge!($o, |x: &'static mut A| x.get_workable_slice_multiple_of(1));
    }
    go($o);
} } }
macro_rules! prod { ($o:ident, $B:ty, $T:ty, $clone:tt $copy:tt) => { {
    sync_it!($o, ProdIter<'static, $B>, AsyncProdIter<'static, $B>);
    fn go($o: &mut Out) {
        type A = AsyncProdIter<'static, $B>;
        judge!($o, |x: &'static mut A| x.push(mk::<$T>()));
        judge!($o, |x: &'static mut A| unsafe { x.get_next_item_mut() });
        judge!($o, |x: &'static mut A| x.get_next_item_mut_init());
        judge!($o, |x: &'static mut A| unsafe { x.get_next_slices_mut(1) });
        when!($clone, judge!($o, |x: &'static mut A| x.push_slice_clone(&*ms::<$T>())));
        when!($copy, judge!($o, |x: &'static mut A| x.push_slice(&*ms::<$T>())));
    }
    go($o);
} } }
macro_rules! cons { ($o:ident, $B:ty, $W:tt, $T:ty, $clone:tt $copy:tt) => { {
    sync_it!($o, ConsIter<'static, $B, $W>, AsyncConsIter<'static, $B, $W>);
    fn go($o: &mut Out) {
        type A = AsyncConsIter<'static, $B, $W>;
        judge!($o, |x: &'static mut A| x.peek_ref());
        judge!($o, |x: &'static mut A| x.peek_slice(1));
        judge!($o, |x: &'static mut A| x.peek_available());
        judge!($o, |x: &'static mut A| unsafe { x.pop_move() });
        when!($copy, judge!($o, |x: &'static mut A| x.pop()));
        when!($copy, judge!($o, |x: &'static mut A| x.copy_item(leak(mk::<$T>()))));
        when!($copy, judge!($o, |x: &'static mut A| x.copy_slice(ms::<$T>())));
        when!($clone, judge!($o, |x: &'static mut A| x.clone_item(leak(mk::<$T>()))));
        when!($clone, judge!($o, |x: &'static mut A| x.clone_slice(ms::<$T>())));
    }
    go($o);
} } }
/// every program over one buffer type. $S: what it is split from (sync), $V: what it is split from (async)
macro_rules! buffer { ($o:ident, $c:tt, $item:expr, $bn:expr, $B:ty, $S:ty, $V:ty, $T:ty, $clone:tt $copy:tt) => { {
    $o.tag = format!("{} of {}", $bn, $item);
    $o.conc = stringify!($c) == "y";
    fn go($o: &mut Out) {
        judge!($o, |b: $S| b.split());
        judge!($o, |b: $S| b.split_mut());
        judge!($o, |b: $S| b.split().0);
        judge!($o, |b: $S| b.split().1);
        judge!($o, |b: $S| b.split_mut().0);
        judge!($o, |b: $S| b.split_mut().1);
        judge!($o, |b: $S| b.split_mut().2);
        when!($c, judge!($o, |b: $V| b.split_async()));
        when!($c, judge!($o, |b: $V| b.split_mut_async()));
        when!($c, judge!($o, |b: $V| b.split_async().0));
        when!($c, judge!($o, |b: $V| b.split_async().1));
        when!($c, judge!($o, |b: $V| b.split_mut_async().0));
        when!($c, judge!($o, |b: $V| b.split_mut_async().1));
        when!($c, judge!($o, |b: $V| b.split_mut_async().2));
    }
    go($o);
    prod!($o, $B, $T, $clone $copy);
    sync_it!($o, WorkIter<'static, $B>, AsyncWorkIter<'static, $B>);
    cons!($o, $B, false, $T, $clone $copy);
    cons!($o, $B, true, $T, $clone $copy);
} } }
macro_rules! item { ($o:ident, $T:ty, $clone:tt $copy:tt) => { {
    fn go($o: &mut Out) {
        $o.is = WS(&W::<$T>(PhantomData)).send();
        let n = std::any::type_name::<$T>();
        #[cfg(feature = "alloc")]
        {
            buffer!($o, y, n, "ConcurrentHeapRB", ConcurrentHeapRB<$T>, ConcurrentHeapRB<$T>, ConcurrentHeapRB<$T>, $T, $clone $copy);
            buffer!($o, n, n, "LocalHeapRB", LocalHeapRB<$T>, LocalHeapRB<$T>, LocalHeapRB<$T>, $T, $clone $copy);
        }
        #[cfg(all(feature = "alloc", not(feature = "vmem")))]
        {
            buffer!($o, y, n, "ConcurrentStackRB", ConcurrentStackRB<$T, 4>, &'static mut ConcurrentStackRB<$T, 4>, ConcurrentStackRB<$T, 4>, $T, $clone $copy);
            buffer!($o, n, n, "LocalStackRB", LocalStackRB<$T, 4>, &'static mut LocalStackRB<$T, 4>, LocalStackRB<$T, 4>, $T, $clone $copy);
        }
        #[cfg(not(feature = "alloc"))]
        {
            buffer!($o, y, n, "ConcurrentStackRB", ConcurrentStackRB<$T, 4>, &'static mut ConcurrentStackRB<$T, 4>, &'static mut ConcurrentStackRB<$T, 4>, $T, $clone $copy);
            buffer!($o, n, n, "LocalStackRB", LocalStackRB<$T, 4>, &'static mut LocalStackRB<$T, 4>, &'static mut LocalStackRB<$T, 4>, $T, $clone $copy);
        }
    }
    go($o);
} } }

// item classes. The Max* ones satisfy every derivable bound, so that no bound other than Send can tell them from sendable items.
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MaxNeither(PhantomData<*const u8>);
#[derive(Clone, Copy, Default, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct MaxSync(PhantomData<*const u8>);
unsafe impl Sync for MaxSync {}
/// neither sendable nor shareable, and nothing else either
pub struct Bare(#[allow(dead_code)] *const u8, std::marker::PhantomPinned);
/// sendable, not shareable
#[derive(Clone, Copy, Default)]
pub struct SendOnly(PhantomData<*const u8>);
unsafe impl Send for SendOnly {}

fn js(s: &str) -> String { format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ")) }

fn main() {
    let mut out = Out::default();
    let o = &mut out;
    item!(o, i32, y y);
    item!(o, SendOnly, y y);
    item!(o, MaxNeither, y y);
    item!(o, MaxSync, y y);
    item!(o, Bare, n n);
    item!(o, std::rc::Rc<i32>, y n);
    item!(o, std::sync::MutexGuard<'static, i32>, n n);
    if let Some(x) = std::env::args().nth(1) {
        let h: Vec<_> = o.viol.iter().filter(|(p, _)| *p == x).collect();
        for (_, m) in &h { println!("{m}"); }
        println!("REPLAY kinds={} hit={}", if h.is_empty() { "" } else { "crosses-threads" }, !h.is_empty());
        std::process::exit(if h.is_empty() { 0 } else { 1 });
    }
    // a non-vacuous matrix: iterators of concurrent buffers over sendable items are sendable
    let samples: Vec<String> = o.table.iter().step_by(o.table.len() / 6 + 1).map(|(t, (a, b))| js(&format!("{t}: Send={a} Sync={b}"))).collect();
    println!("{{\"programs\":{},\"types\":{},\"edges\":{},\"sendable\":{},\"viol\":[{}],\"samples\":[{}]}}", o.n, o.types.len(), o.edges.len(), o.send,
        o.viol.iter().take(20).map(|(p, m)| format!("[{},{}]", js(p), js(m))).collect::<Vec<_>>().join(","), samples.join(","));
}
