//! Driver of the real wasmtimer code. Each exported function is one public
//! API call on a numbered object; the node side (runner/) owns the host clock,
//! the host's timeouts and the log. Nothing here judges anything.
use futures::{Future, Stream};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::RefCell;
use std::collections::HashMap;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;
use wasm_bindgen::prelude::*;
use wasmtimer::std::{Instant, SystemTime, UNIX_EPOCH};
use wasmtimer::tokio::{
    interval, interval_at, sleep, sleep_until, timeout, timeout_at, Interval, MissedTickBehavior,
    Sleep, Timeout,
};
use wasmtimer::tokio_util::delay_queue::{Expired, Key};
use wasmtimer::tokio_util::DelayQueue;

type DynFut = Pin<Box<dyn Future<Output = u64>>>;

#[derive(Default)]
struct Inner {
    ready: Option<u64>,
    waker: Option<Waker>,
    polls: u32,
}

struct Manual(Rc<RefCell<Inner>>);
impl Future for Manual {
    type Output = u64;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<u64> {
        let mut i = self.0.borrow_mut();
        i.polls += 1;
        match i.ready {
            Some(v) => Poll::Ready(v),
            None => {
                i.waker = Some(cx.waker().clone());
                Poll::Pending
            }
        }
    }
}

/// A queued value; its release is logged.
struct Tok(u32);
impl Drop for Tok {
    fn drop(&mut self) {
        let _ = DROPS.try_with(|d| d.borrow_mut().push(self.0));
    }
}

struct Q {
    q: DelayQueue<Tok>,
    keys: Vec<Key>,
}

#[derive(Default)]
struct World {
    base: Option<Instant>,
    sleeps: HashMap<u32, Pin<Box<Sleep>>>,
    intervals: HashMap<u32, Box<Interval>>,
    timeouts: HashMap<u32, Pin<Box<Timeout<DynFut>>>>,
    inners: HashMap<u32, Rc<RefCell<Inner>>>,
    queues: HashMap<u32, Q>,
    inst: HashMap<u32, Instant>,
    st: HashMap<u32, SystemTime>,
}

thread_local! {
    static W: RefCell<World> = RefCell::new(World::default());
    static WAKES: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static DROPS: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
    static PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static WAKERS: RefCell<HashMap<u32, Arc<IdWaker>>> = RefCell::new(HashMap::new());
    // waker id -> what it does inline (0: none): sleep to drop, sleep to create, sleep to reset
    static REACT: RefCell<HashMap<u32, (u32, u32, u64, u32, u32)>> = RefCell::new(HashMap::new());
    // wakers that keep their task, which has a sleep: waker id -> sleep
    static OWN: RefCell<HashMap<u32, u32>> = RefCell::new(HashMap::new());
    static OWNERS: RefCell<HashMap<u32, std::sync::Weak<IdWaker>>> = RefCell::new(HashMap::new());
    static RELEASED: RefCell<Vec<u32>> = const { RefCell::new(Vec::new()) };
}

struct IdWaker(u32);
impl Wake for IdWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        WAKES.with(|w| w.borrow_mut().push(self.0));
        let r = REACT.with(|r| r.borrow_mut().remove(&self.0));
        if let Some((drop_id, new_id, secs, nanos, rst_id)) = r {
            // an executor that runs the woken task at once
            if drop_id != 0 {
                let s = W.with(|w| w.borrow_mut().sleeps.remove(&drop_id));
                drop(s);
            }
            if new_id != 0 {
                let s = Box::pin(sleep(Duration::new(secs, nanos)));
                W.with(|w| w.borrow_mut().sleeps.insert(new_id, s));
            }
            if W.with(|w| w.borrow().sleeps.contains_key(&rst_id)) {
                with_sleep(rst_id, |s| s.as_mut().reset(Instant::now() + Duration::new(secs, nanos)));
            }
        }
    }
}
/// The last clone of a waker is gone, and with it its task, if it kept one.
impl Drop for IdWaker {
    fn drop(&mut self) {
        if let Some(id) = OWN.with(|o| o.borrow_mut().remove(&self.0)) {
            RELEASED.with(|r| r.borrow_mut().extend([self.0, id]));
            let s = W.with(|w| w.borrow_mut().sleeps.remove(&id));
            drop(s);
        }
    }
}

fn waker(id: u32) -> Waker {
    if OWN.with(|o| o.borrow().contains_key(&id)) {
        return OWNERS.with(|o| {
            let mut o = o.borrow_mut();
            let a = o.get(&id).and_then(|a| a.upgrade()).unwrap_or_else(|| Arc::new(IdWaker(id)));
            o.insert(id, Arc::downgrade(&a));
            a.into()
        });
    }
    WAKERS.with(|w| {
        w.borrow_mut()
            .entry(id)
            .or_insert_with(|| Arc::new(IdWaker(id)))
            .clone()
            .into()
    })
}

// ---- what is kept: wakers, and memory
struct Counting;
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        LIVE.fetch_add(l.size(), Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
}
#[global_allocator]
static ALLOC: Counting = Counting;

/// Ids of the wakers of which someone keeps a clone.
#[wasm_bindgen]
pub fn held() -> Vec<u32> {
    WAKERS.with(|w| {
        let mut v: Vec<u32> = w.borrow().iter().filter(|(_, a)| Arc::strong_count(a) > 1).map(|(k, _)| *k).collect();
        v.sort_unstable();
        v
    })
}
/// Bytes in use.
#[wasm_bindgen]
pub fn live_bytes() -> u32 {
    LIVE.load(Relaxed) as u32
}
/// `n` short lives, one after the other, of what `kind` says; none of them completes.
/// `id`: a queue that is empty, and is so afterwards.
#[wasm_bindgen]
pub fn churn(kind: u32, n: u32, id: u32, secs: u64, nanos: u32, wk: u32) {
    let d = Duration::new(secs, nanos);
    let w = waker(wk);
    let mut cx = Context::from_waker(&w);
    let later = Instant::now() + d + d;
    match kind {
        0 => (0..n).for_each(|_| drop(sleep(d))),
        1 | 2 => {
            for _ in 0..n {
                let mut s = Box::pin(sleep(d));
                let _ = s.as_mut().poll(&mut cx);
                if kind == 2 {
                    s.as_mut().reset(later);
                }
            }
        }
        3 => {
            for _ in 0..n {
                let mut i = interval_at(later, d);
                let _ = i.poll_tick(&mut cx);
                i.reset();
            }
        }
        4 => {
            for _ in 0..n {
                let mut t = Box::pin(timeout(d, futures::future::pending::<u64>()));
                let _ = t.as_mut().poll(&mut cx);
            }
        }
        5 => {
            for _ in 0..n {
                let mut q = DelayQueue::new();
                for k in 0..3 {
                    q.insert(k, d);
                }
                let _ = q.poll_expired(&mut cx);
            }
        }
        6 => {
            // a sleep that is reset, and polled, over and over
            let mut s = Box::pin(sleep(d));
            for _ in 0..n {
                let _ = s.as_mut().poll(&mut cx);
                s.as_mut().reset(later);
            }
        }
        10 | 11 => with_q(id, |q| {
            for k in 0..n {
                let key = q.q.insert(Tok(k), d);
                let _ = q.q.poll_expired(&mut cx);
                if kind == 10 {
                    q.q.clear()
                } else {
                    drop(q.q.remove(&key))
                }
            }
        }),
        _ => with_q(id, |q| {
            let keys: Vec<Key> = (0..n).map(|k| q.q.insert(Tok(k), if k % 3 == 0 { d } else { d + d })).collect();
            match kind {
                7 => keys.iter().for_each(|k| drop(q.q.remove(k))),
                8 => {
                    for (i, k) in keys.iter().enumerate() {
                        q.q.reset_at(k, later);
                        if i % 16 == 3 {
                            q.q.compact();
                        }
                        drop(q.q.try_remove(k));
                    }
                }
                _ => q.q.clear(),
            }
        }),
    }
    DROPS.with(|w| w.borrow_mut().clear());
}

fn base() -> Instant {
    W.with(|w| w.borrow().base.expect("harness: init first"))
}
fn abs(secs: u64, nanos: u32) -> Instant {
    base()
        .checked_add(Duration::new(secs, nanos))
        .expect("harness: instant out of range")
}
fn pair(d: Duration) -> Vec<u64> {
    vec![d.as_secs(), d.subsec_nanos() as u64]
}
fn rel(i: Instant) -> Vec<u64> {
    pair(i.checked_duration_since(base()).expect("harness: instant before base"))
}

/// Called with the host clock at 0: takes the origin of all instants.
#[wasm_bindgen]
pub fn init() {
    std::panic::set_hook(Box::new(|i| {
        PANIC.with(|p| *p.borrow_mut() = i.to_string());
    }));
    let b = Instant::now();
    W.with(|w| w.borrow_mut().base = Some(b));
}
#[wasm_bindgen]
pub fn last_panic() -> String {
    PANIC.with(|p| p.borrow().clone())
}
#[wasm_bindgen]
pub fn now() -> Vec<u64> {
    rel(Instant::now())
}
#[wasm_bindgen]
pub fn take_wakes() -> Vec<u32> {
    WAKES.with(|w| std::mem::take(&mut *w.borrow_mut()))
}
#[wasm_bindgen]
pub fn take_drops() -> Vec<u32> {
    DROPS.with(|w| std::mem::take(&mut *w.borrow_mut()))
}
#[wasm_bindgen]
pub fn react(wk: u32, drop_id: u32, new_id: u32, secs: u64, nanos: u32, rst_id: u32) {
    REACT.with(|r| r.borrow_mut().insert(wk, (drop_id, new_id, secs, nanos, rst_id)));
}
/// The sleep belongs to a task that only this waker keeps.
#[wasm_bindgen]
pub fn own(wk: u32, id: u32) {
    OWN.with(|o| o.borrow_mut().insert(wk, id));
}
/// The wakers that were released, each followed by the sleep that was dropped with it.
#[wasm_bindgen]
pub fn take_released() -> Vec<u32> {
    RELEASED.with(|r| std::mem::take(&mut *r.borrow_mut()))
}

// ---- test clock
#[cfg(feature = "tu")]
#[wasm_bindgen]
pub fn pause() {
    wasmtimer::tokio::pause()
}
#[cfg(feature = "tu")]
#[wasm_bindgen]
pub fn resume() {
    wasmtimer::tokio::resume()
}
#[cfg(feature = "tu")]
#[wasm_bindgen]
pub fn advance(secs: u64, nanos: u32) -> bool {
    let mut f = Box::pin(wasmtimer::tokio::advance(Duration::new(secs, nanos)));
    f.as_mut()
        .poll(&mut Context::from_waker(futures::task::noop_waker_ref()))
        .is_ready()
}

// ---- sleeps
#[wasm_bindgen]
pub fn sleep_new(id: u32, secs: u64, nanos: u32) -> Vec<u64> {
    let s = sleep(Duration::new(secs, nanos));
    let d = s.deadline();
    W.with(|w| w.borrow_mut().sleeps.insert(id, Box::pin(s)));
    rel(d)
}
#[wasm_bindgen]
pub fn sleep_until_(id: u32, secs: u64, nanos: u32) -> Vec<u64> {
    let s = sleep_until(abs(secs, nanos));
    let d = s.deadline();
    W.with(|w| w.borrow_mut().sleeps.insert(id, Box::pin(s)));
    rel(d)
}
fn with_sleep<R>(id: u32, f: impl FnOnce(&mut Pin<Box<Sleep>>) -> R) -> R {
    // taken out so that a waker running inline can touch the table
    let mut s = W.with(|w| w.borrow_mut().sleeps.remove(&id)).expect("harness: no such sleep");
    let r = f(&mut s);
    W.with(|w| w.borrow_mut().sleeps.insert(id, s));
    r
}
#[wasm_bindgen]
pub fn sleep_poll(id: u32, wk: u32) -> bool {
    with_sleep(id, |s| s.as_mut().poll(&mut Context::from_waker(&waker(wk))).is_ready())
}
#[wasm_bindgen]
pub fn sleep_reset(id: u32, secs: u64, nanos: u32) -> Vec<u64> {
    with_sleep(id, |s| {
        s.as_mut().reset(abs(secs, nanos));
        rel(s.deadline())
    })
}
/// `n` resets in a row, the last one to (secs, nanos), the others spread before and after it.
#[wasm_bindgen]
pub fn sleep_reset_burst(id: u32, n: u32, secs: u64, nanos: u32) -> Vec<u64> {
    with_sleep(id, |s| {
        for k in (0..n).rev() {
            let d = abs(secs, nanos) + Duration::from_millis(k as u64 * 7 % 1000);
            s.as_mut().reset(d);
        }
        rel(s.deadline())
    })
}
#[wasm_bindgen]
pub fn sleep_drop(id: u32) {
    let s = W.with(|w| w.borrow_mut().sleeps.remove(&id));
    drop(s);
}
#[wasm_bindgen]
pub fn sleep_deadline(id: u32) -> Vec<u64> {
    with_sleep(id, |s| rel(s.deadline()))
}
/// Ids of the live sleeps that say they have elapsed.
#[wasm_bindgen]
pub fn elapsed_ids() -> Vec<u32> {
    W.with(|w| {
        let w = w.borrow();
        let mut v: Vec<u32> = w.sleeps.iter().filter(|(_, s)| s.is_elapsed()).map(|(k, _)| *k).collect();
        v.sort_unstable();
        v
    })
}

// ---- intervals
#[wasm_bindgen]
pub fn interval_new(id: u32, secs: u64, nanos: u32) {
    let i = interval(Duration::new(secs, nanos));
    W.with(|w| w.borrow_mut().intervals.insert(id, Box::new(i)));
}
#[wasm_bindgen]
pub fn interval_at_(id: u32, asecs: u64, ananos: u32, secs: u64, nanos: u32) {
    let i = interval_at(abs(asecs, ananos), Duration::new(secs, nanos));
    W.with(|w| w.borrow_mut().intervals.insert(id, Box::new(i)));
}
fn with_interval<R>(id: u32, f: impl FnOnce(&mut Interval) -> R) -> R {
    let mut s = W.with(|w| w.borrow_mut().intervals.remove(&id)).expect("harness: no such interval");
    let r = f(&mut s);
    W.with(|w| w.borrow_mut().intervals.insert(id, s));
    r
}
/// Empty: pending. Otherwise the instant of the tick.
#[wasm_bindgen]
pub fn interval_poll(id: u32, wk: u32, via_tick: bool) -> Vec<u64> {
    with_interval(id, |i| {
        let w = waker(wk);
        let mut cx = Context::from_waker(&w);
        let p = if via_tick {
            let mut f = Box::pin(i.tick());
            f.as_mut().poll(&mut cx)
        } else {
            i.poll_tick(&mut cx)
        };
        match p {
            Poll::Pending => vec![],
            Poll::Ready(t) => rel(t),
        }
    })
}
#[wasm_bindgen]
pub fn interval_reset(id: u32) {
    with_interval(id, |i| i.reset())
}
#[wasm_bindgen]
pub fn interval_behavior(id: u32, b: u32) {
    let b = match b {
        0 => MissedTickBehavior::Burst,
        1 => MissedTickBehavior::Delay,
        _ => MissedTickBehavior::Skip,
    };
    with_interval(id, |i| i.set_missed_tick_behavior(b))
}
/// [behaviour, period secs, period nanos]
#[wasm_bindgen]
pub fn interval_info(id: u32) -> Vec<u64> {
    with_interval(id, |i| {
        let b = match i.missed_tick_behavior() {
            MissedTickBehavior::Burst => 0,
            MissedTickBehavior::Delay => 1,
            MissedTickBehavior::Skip => 2,
        };
        vec![b, i.period().as_secs(), i.period().subsec_nanos() as u64]
    })
}
#[wasm_bindgen]
pub fn interval_drop(id: u32) {
    let s = W.with(|w| w.borrow_mut().intervals.remove(&id));
    drop(s);
}

// ---- timeouts
fn mk_inner(id: u32, kind: u32, secs: u64, nanos: u32) -> DynFut {
    match kind {
        0 => {
            let rc = Rc::new(RefCell::new(Inner::default()));
            W.with(|w| w.borrow_mut().inners.insert(id, rc.clone()));
            Box::pin(Manual(rc))
        }
        // a sleep, with a value of its own
        _ => {
            let s = sleep(Duration::new(secs, nanos));
            Box::pin(async move {
                s.await;
                77
            })
        }
    }
}
/// form 0: timeout(duration), 1: timeout_at(instant)
#[wasm_bindgen]
pub fn timeout_new(id: u32, form: u32, secs: u64, nanos: u32, kind: u32, isecs: u64, inanos: u32) {
    let inner = mk_inner(id, kind, isecs, inanos);
    let t = if form == 0 {
        timeout(Duration::new(secs, nanos), inner)
    } else {
        timeout_at(abs(secs, nanos), inner)
    };
    W.with(|w| w.borrow_mut().timeouts.insert(id, Box::pin(t)));
}
/// [0]: pending, [1, v]: Ok(v), [2]: Err(Elapsed); then the number of polls of a manual inner future.
#[wasm_bindgen]
pub fn timeout_poll(id: u32, wk: u32) -> Vec<u64> {
    let mut t = W.with(|w| w.borrow_mut().timeouts.remove(&id)).expect("harness: no such timeout");
    let polls = |id: u32| W.with(|w| w.borrow().inners.get(&id).map(|i| i.borrow().polls as u64).unwrap_or(0));
    let before = polls(id);
    let w = waker(wk);
    let r = t.as_mut().poll(&mut Context::from_waker(&w));
    W.with(|w| w.borrow_mut().timeouts.insert(id, t));
    let n = polls(id) - before;
    match r {
        Poll::Pending => vec![0, 0, n],
        Poll::Ready(Ok(v)) => vec![1, v, n],
        Poll::Ready(Err(e)) => {
            let io: std::io::Error = e.into();
            assert!(io.kind() == std::io::ErrorKind::TimedOut, "elapsed error is not TimedOut");
            vec![2, 0, n]
        }
    }
}
#[wasm_bindgen]
pub fn inner_complete(id: u32, v: u64) {
    let wk = W.with(|w| {
        let w = w.borrow();
        let mut i = w.inners.get(&id).expect("harness: no inner").borrow_mut();
        i.ready = Some(v);
        i.waker.take()
    });
    if let Some(wk) = wk {
        wk.wake()
    }
}
/// How many keep the wrapped future (a manual one) afterwards.
#[wasm_bindgen]
pub fn timeout_drop(id: u32) -> u32 {
    let s = W.with(|w| w.borrow_mut().timeouts.remove(&id));
    drop(s);
    let i = W.with(|w| w.borrow_mut().inners.remove(&id));
    i.map(|i| Rc::strong_count(&i) as u32 - 1).unwrap_or(0)
}
/// Takes the inner future back out and polls it once: [0] pending, [1, v] ready.
#[wasm_bindgen]
pub fn timeout_into_inner(id: u32, wk: u32) -> Vec<u64> {
    let t = W.with(|w| w.borrow_mut().timeouts.remove(&id)).expect("harness: no such timeout");
    let mut t = *Pin::into_inner(t);
    let _ = t.get_ref();
    let _ = t.get_mut();
    let mut f = t.into_inner();
    let w = waker(wk);
    let r = match f.as_mut().poll(&mut Context::from_waker(&w)) {
        Poll::Pending => vec![0, 0],
        Poll::Ready(v) => vec![1, v],
    };
    W.with(|w| w.borrow_mut().inners.remove(&id));
    r
}

// ---- delay queues
#[wasm_bindgen]
pub fn q_new(id: u32, form: u32, cap: u32) {
    let q = match form {
        0 => DelayQueue::new(),
        1 => DelayQueue::default(),
        _ => DelayQueue::with_capacity(cap as usize),
    };
    W.with(|w| w.borrow_mut().queues.insert(id, Q { q, keys: vec![] }));
}
fn with_q<R>(id: u32, f: impl FnOnce(&mut Q) -> R) -> R {
    let mut s = W.with(|w| w.borrow_mut().queues.remove(&id)).expect("harness: no such queue");
    let r = f(&mut s);
    W.with(|w| w.borrow_mut().queues.insert(id, s));
    r
}
impl Q {
    /// A small number standing for the key, the same for equal keys.
    fn num(&mut self, k: Key) -> u64 {
        match self.keys.iter().position(|x| *x == k) {
            Some(p) => p as u64 + 1,
            None => {
                self.keys.push(k);
                self.keys.len() as u64
            }
        }
    }
    fn key(&self, n: u32) -> Key {
        self.keys[n as usize - 1]
    }
    /// [1, key, value, deadline secs, deadline nanos]
    fn exp(&mut self, mut e: Expired<Tok>) -> Vec<u64> {
        let k = self.num(e.key());
        let d = rel(e.deadline());
        let v = e.get_ref().0;
        assert_eq!(e.get_mut().0, v);
        let t = e.into_inner();
        assert_eq!(t.0, v);
        std::mem::forget(t);
        vec![1, k, v as u64, d[0], d[1]]
    }
}
/// form 0: insert(duration), 1: insert_at(instant). Returns the key's number.
#[wasm_bindgen]
pub fn q_insert(id: u32, form: u32, val: u32, secs: u64, nanos: u32) -> u64 {
    with_q(id, |q| {
        let k = if form == 0 {
            q.q.insert(Tok(val), Duration::new(secs, nanos))
        } else {
            q.q.insert_at(Tok(val), abs(secs, nanos))
        };
        q.num(k)
    })
}
#[wasm_bindgen]
pub fn q_reset(id: u32, form: u32, key: u32, secs: u64, nanos: u32) {
    with_q(id, |q| {
        let k = q.key(key);
        if form == 0 {
            q.q.reset(&k, Duration::new(secs, nanos))
        } else {
            q.q.reset_at(&k, abs(secs, nanos))
        }
    })
}
#[wasm_bindgen]
pub fn q_remove(id: u32, key: u32) -> Vec<u64> {
    with_q(id, |q| {
        let k = q.key(key);
        let e = q.q.remove(&k);
        q.exp(e)
    })
}
/// [0]: None
#[wasm_bindgen]
pub fn q_try_remove(id: u32, key: u32) -> Vec<u64> {
    with_q(id, |q| {
        let k = q.key(key);
        match q.q.try_remove(&k) {
            None => vec![0],
            Some(e) => q.exp(e),
        }
    })
}
/// [2]: pending, [0]: Ready(None), [1, ...]: an entry
#[wasm_bindgen]
pub fn q_poll(id: u32, wk: u32, stream: bool) -> Vec<u64> {
    with_q(id, |q| {
        let w = waker(wk);
        let mut cx = Context::from_waker(&w);
        let p = if stream {
            Pin::new(&mut q.q).poll_next(&mut cx)
        } else {
            q.q.poll_expired(&mut cx)
        };
        match p {
            Poll::Pending => vec![2],
            Poll::Ready(None) => vec![0],
            Poll::Ready(Some(e)) => q.exp(e),
        }
    })
}
#[wasm_bindgen]
pub fn q_clear(id: u32) {
    with_q(id, |q| q.q.clear())
}
#[wasm_bindgen]
pub fn q_compact(id: u32) {
    with_q(id, |q| q.q.compact())
}
#[wasm_bindgen]
pub fn q_shrink(id: u32) {
    with_q(id, |q| q.q.shrink_to_fit())
}
#[wasm_bindgen]
pub fn q_reserve(id: u32, n: u32) {
    with_q(id, |q| q.q.reserve(n as usize))
}
/// [len, is_empty, capacity]
#[wasm_bindgen]
pub fn q_info(id: u32) -> Vec<u32> {
    with_q(id, |q| vec![q.q.len() as u32, q.q.is_empty() as u32, q.q.capacity() as u32])
}
#[wasm_bindgen]
pub fn q_drop(id: u32) {
    let s = W.with(|w| w.borrow_mut().queues.remove(&id));
    drop(s);
}

// ---- std::Instant as a value
fn inst(i: u32) -> Instant {
    W.with(|w| *w.borrow().inst.get(&i).expect("harness: no instant"))
}
fn set_inst(i: u32, v: Instant) -> Vec<u64> {
    W.with(|w| w.borrow_mut().inst.insert(i, v));
    rel(v)
}
#[wasm_bindgen]
pub fn i_now(dst: u32) -> Vec<u64> {
    set_inst(dst, Instant::now())
}
#[wasm_bindgen]
pub fn i_set(dst: u32, secs: u64, nanos: u32) -> Vec<u64> {
    set_inst(dst, abs(secs, nanos))
}
/// op 0 checked_add, 1 checked_sub (empty: None), 2 +, 3 -, 4 +=, 5 -=
#[wasm_bindgen]
pub fn i_arith(op: u32, dst: u32, a: u32, secs: u64, nanos: u32) -> Vec<u64> {
    let x = inst(a);
    let d = Duration::new(secs, nanos);
    let r = match op {
        0 => x.checked_add(d),
        1 => x.checked_sub(d),
        2 => Some(x + d),
        3 => Some(x - d),
        4 => {
            let mut y = x;
            y += d;
            Some(y)
        }
        _ => {
            let mut y = x;
            y -= d;
            Some(y)
        }
    };
    match r {
        None => vec![],
        Some(v) => set_inst(dst, v),
    }
}
/// op 0 checked_duration_since, 1 saturating_, 2 duration_since, 3 `-`; empty: None
#[wasm_bindgen]
pub fn i_diff(op: u32, a: u32, b: u32) -> Vec<u64> {
    let (x, y) = (inst(a), inst(b));
    match op {
        0 => x.checked_duration_since(y).map(pair).unwrap_or_default(),
        1 => pair(x.saturating_duration_since(y)),
        2 => pair(x.duration_since(y)),
        _ => pair(x - y),
    }
}
fn cmp3(o: std::cmp::Ordering) -> u32 {
    match o {
        std::cmp::Ordering::Less => 0,
        std::cmp::Ordering::Equal => 1,
        std::cmp::Ordering::Greater => 2,
    }
}
/// [cmp, partial_cmp, eq, lt, le, gt, ge]
#[wasm_bindgen]
#[allow(clippy::double_comparisons)]
pub fn i_cmp(a: u32, b: u32) -> Vec<u32> {
    let (x, y) = (inst(a), inst(b));
    vec![
        cmp3(x.cmp(&y)),
        x.partial_cmp(&y).map(cmp3).unwrap_or(9),
        (x == y) as u32,
        (x < y) as u32,
        (x <= y) as u32,
        (x > y) as u32,
        (x >= y) as u32,
    ]
}
#[wasm_bindgen]
pub fn i_elapsed(a: u32) -> Vec<u64> {
    pair(inst(a).elapsed())
}

// ---- std::SystemTime as a value. Observed as a signed distance to the epoch:
// [0 or 1 (before the epoch), secs, nanos]
fn st(i: u32) -> SystemTime {
    W.with(|w| *w.borrow().st.get(&i).expect("harness: no system time"))
}
fn signed(r: Result<Duration, wasmtimer::std::SystemTimeError>) -> Vec<u64> {
    let (s, d) = match r {
        Ok(d) => (0, d),
        Err(e) => (1, e.duration()),
    };
    vec![s, d.as_secs(), d.subsec_nanos() as u64]
}
fn set_st(i: u32, v: SystemTime) -> Vec<u64> {
    W.with(|w| w.borrow_mut().st.insert(i, v));
    signed(v.duration_since(UNIX_EPOCH))
}
#[wasm_bindgen]
pub fn s_now(dst: u32) -> Vec<u64> {
    set_st(dst, SystemTime::now())
}
#[wasm_bindgen]
pub fn s_epoch(dst: u32) -> Vec<u64> {
    assert!(SystemTime::UNIX_EPOCH == UNIX_EPOCH);
    set_st(dst, UNIX_EPOCH)
}
/// op 0 checked_add, 1 checked_sub (empty: None), 2 +, 3 -, 4 +=, 5 -=
#[wasm_bindgen]
pub fn s_arith(op: u32, dst: u32, a: u32, secs: u64, nanos: u32) -> Vec<u64> {
    let x = st(a);
    let d = Duration::new(secs, nanos);
    let r = match op {
        0 => x.checked_add(d),
        1 => x.checked_sub(d),
        2 => Some(x + d),
        3 => Some(x - d),
        4 => {
            let mut y = x;
            y += d;
            Some(y)
        }
        _ => {
            let mut y = x;
            y -= d;
            Some(y)
        }
    };
    match r {
        None => vec![],
        Some(v) => set_st(dst, v),
    }
}
#[wasm_bindgen]
pub fn s_diff(a: u32, b: u32) -> Vec<u64> {
    signed(st(a).duration_since(st(b)))
}
#[wasm_bindgen]
pub fn s_elapsed(a: u32) -> Vec<u64> {
    signed(st(a).elapsed())
}
/// [cmp, partial_cmp, eq, lt, le, gt, ge]
#[wasm_bindgen]
pub fn s_cmp(a: u32, b: u32) -> Vec<u32> {
    let (x, y) = (st(a), st(b));
    vec![
        cmp3(x.cmp(&y)),
        x.partial_cmp(&y).map(cmp3).unwrap_or(9),
        (x == y) as u32,
        (x < y) as u32,
        (x <= y) as u32,
        (x > y) as u32,
        (x >= y) as u32,
    ]
}
/// A format which writes records only, and writes how many fields there are before the fields.
mod headed {
    use serde::ser::{Error as _, Impossible, Serialize, SerializeMap, SerializeStruct, Serializer};
    use serde_json::{Error, Map, Value};

    pub struct Format;
    pub struct Record {
        announced: Option<usize>,
        fields: Map<String, Value>,
        name: Option<String>,
    }
    impl Record {
        fn new(announced: Option<usize>) -> Result<Record, Error> {
            Ok(Record {
                announced,
                fields: Map::new(),
                name: None,
            })
        }
        fn put<T: ?Sized + Serialize>(&mut self, k: String, v: &T) -> Result<(), Error> {
            match self.fields.insert(k, serde_json::to_value(v)?) {
                None => Ok(()),
                Some(_) => Err(Error::custom("a field is written twice")),
            }
        }
        fn finish(self) -> Result<Value, Error> {
            match self.announced {
                Some(n) if n != self.fields.len() => Err(Error::custom("not as many fields")),
                _ => Ok(Value::Object(self.fields)),
            }
        }
    }
    impl SerializeStruct for Record {
        type Ok = Value;
        type Error = Error;
        fn serialize_field<T: ?Sized + Serialize>(
            &mut self,
            k: &'static str,
            v: &T,
        ) -> Result<(), Error> {
            self.put(k.into(), v)
        }
        fn end(self) -> Result<Value, Error> {
            self.finish()
        }
    }
    impl SerializeMap for Record {
        type Ok = Value;
        type Error = Error;
        fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), Error> {
            match serde_json::to_value(k)? {
                Value::String(k) => self.name = Some(k),
                _ => return Err(Error::custom("the name of a field")),
            }
            Ok(())
        }
        fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> {
            let k = self.name.take().ok_or_else(|| Error::custom("no name"))?;
            self.put(k, v)
        }
        fn end(self) -> Result<Value, Error> {
            self.finish()
        }
    }
    type No = Impossible<Value, Error>;
    macro_rules! no {
        ($($f:ident($($t:ty),*) -> $r:ty;)*) => {
            $(fn $f(self, $(_: $t),*) -> Result<$r, Error> { Err(Error::custom("not a record")) })*
        };
    }
    impl Serializer for Format {
        type Ok = Value;
        type Error = Error;
        type SerializeSeq = No;
        type SerializeTuple = No;
        type SerializeTupleStruct = No;
        type SerializeTupleVariant = No;
        type SerializeMap = Record;
        type SerializeStruct = Record;
        type SerializeStructVariant = No;
        fn serialize_map(self, n: Option<usize>) -> Result<Record, Error> {
            Record::new(n)
        }
        fn serialize_struct(self, _: &'static str, n: usize) -> Result<Record, Error> {
            Record::new(Some(n))
        }
        fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Value, Error> {
            v.serialize(self)
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            v: &T,
        ) -> Result<Value, Error> {
            v.serialize(self)
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(
            self,
            _: &'static str,
            _: u32,
            _: &'static str,
            _: &T,
        ) -> Result<Value, Error> {
            Err(Error::custom("not a record"))
        }
        no! {
            serialize_bool(bool) -> Value;
            serialize_i8(i8) -> Value;
            serialize_i16(i16) -> Value;
            serialize_i32(i32) -> Value;
            serialize_i64(i64) -> Value;
            serialize_u8(u8) -> Value;
            serialize_u16(u16) -> Value;
            serialize_u32(u32) -> Value;
            serialize_u64(u64) -> Value;
            serialize_f32(f32) -> Value;
            serialize_f64(f64) -> Value;
            serialize_char(char) -> Value;
            serialize_str(&str) -> Value;
            serialize_bytes(&[u8]) -> Value;
            serialize_none() -> Value;
            serialize_unit() -> Value;
            serialize_unit_struct(&'static str) -> Value;
            serialize_unit_variant(&'static str, u32, &'static str) -> Value;
            serialize_seq(Option<usize>) -> No;
            serialize_tuple(usize) -> No;
            serialize_tuple_struct(&'static str, usize) -> No;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> No;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> No;
        }
    }
}
/// "" stands for an error. via 1: by way of a tree of values, not text; 2: by a format with headers
#[wasm_bindgen]
pub fn s_ser(a: u32, via: u32) -> String {
    use serde::Serialize;
    match via {
        2 => st(a)
            .serialize(headed::Format)
            .map(|v| v.to_string())
            .unwrap_or_default(),
        0 => serde_json::to_string(&st(a)).unwrap_or_default(),
        _ => serde_json::to_value(st(a))
            .map(|v| v.to_string())
            .unwrap_or_default(),
    }
}
/// empty: error. via 0: from text. Otherwise `s` lists [name, value] pairs, and these come
/// from a format which knows the names as 1: bytes, 2: strings; 3: from the sequence of the values.
#[wasm_bindgen]
pub fn s_de(dst: u32, s: &str, via: u32) -> Vec<u64> {
    use serde::de::value::{MapDeserializer, SeqDeserializer};
    use serde::Deserialize;
    use serde_json::{Error, Value};
    let pairs = || serde_json::from_str::<Vec<(String, Value)>>(s).unwrap();
    let r: Result<SystemTime, Error> = match via {
        0 => serde_json::from_str(s),
        1 => {
            // a name is given as its bytes, which need not be text
            let pairs: Vec<(Vec<u8>, Value)> = pairs()
                .into_iter()
                .map(|(k, v)| (k.chars().map(|c| c as u8).collect(), v))
                .collect();
            let it = pairs.iter().map(|(k, v)| (&k[..], v.clone()));
            SystemTime::deserialize(MapDeserializer::<_, Error>::new(it))
        }
        2 => SystemTime::deserialize(MapDeserializer::<_, Error>::new(pairs().into_iter())),
        _ => SystemTime::deserialize(SeqDeserializer::<_, Error>::new(
            pairs().into_iter().map(|(_, v)| v),
        )),
    };
    match r {
        Ok(v) => set_st(dst, v),
        Err(_) => vec![],
    }
}
