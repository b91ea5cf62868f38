//! Deterministic simulation kernel: choice tapes, seeded task scheduler,
//! virtual clock, event log, fault and probe counters.
//!
//! One run = one thread-local kernel + one single-threaded tokio runtime with
//! a paused clock. Everything that is not fixed by the code under test is
//! drawn from three tapes (workload, schedule, fault) that are either
//! generated from a seed or replayed from a file.

use std::any::Any;
use std::cell::RefCell;
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;
use std::future::Future;
use std::panic::AssertUnwindSafe;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use std::time::Duration;

// ---------------------------------------------------------------- PRNG

#[derive(Clone)]
pub struct Rng([u64; 4]);

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    pub fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

// ---------------------------------------------------------------- tapes

/// Which tape a decision is drawn from
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Dom {
    /// what the users do
    W = 0,
    /// who runs next
    S = 1,
    /// what goes wrong, and how long things take
    F = 2,
}
pub use Dom::{F, S, W};

pub type Tapes = [Vec<u32>; 3];

enum Source {
    Gen([Rng; 3]),
    Replay(Tapes, [usize; 3]),
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}

// ---------------------------------------------------------------- tasks

struct Shared {
    ready: Mutex<Vec<usize>>,
    root: Mutex<Option<Waker>>,
}

struct TaskWaker {
    id: usize,
    queued: Mutex<bool>,
    shared: Arc<Shared>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        {
            let mut q = self.queued.lock().unwrap();
            if *q {
                return;
            }
            *q = true;
        }
        self.shared.ready.lock().unwrap().push(self.id);
        let w = self.shared.root.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
        preempt(&self.shared);
    }
}

/// Waking somebody is where another thread would take over: sometimes run
/// other tasks right here, in the middle of the waking task's step.
fn preempt(shared: &Arc<Shared>) {
    let (depth, off) = PREEMPT.with(|p| p.get());
    // (whoever holds a blocking lock is not interrupted: there is only one real thread)
    if depth == 0 || depth > 3 || off > 0 || lock_held() {
        return;
    }
    let p = K.with(|k| match k.try_borrow() {
        Ok(k) => k.as_ref().map(|k| if k.violation.is_some() || k.steps >= k.max_steps { 0 } else { k.p_preempt }).unwrap_or(0),
        Err(_) => 0,
    });
    if p == 0 || !chance(S, p, 16) {
        return;
    }
    let n = 1 + choose(S, 8);
    with(|k| *k.probes.entry("preempted").or_default() += 1);
    for _ in 0..n {
        if failed() {
            return;
        }
        let now = now_ms();
        let r = shared.ready.lock().unwrap().clone();
        let cand: Vec<usize> =
            with(|k| r.into_iter().filter(|i| k.tasks[*i].fut.is_some() && k.tasks[*i].stalled_until <= now).collect());
        if cand.is_empty() {
            return;
        }
        let id = cand[choose(S, cand.len())];
        step(shared, id);
    }
}

#[cfg(prpc_sim)]
fn lock_held() -> bool {
    postcard_rpc::sim_sync::held() > 0
}
#[cfg(not(prpc_sim))]
fn lock_held() -> bool {
    false
}

/// An access to a shared variable (see sim_sync.rs in the repository): another
/// place where another thread may come first.
#[cfg(prpc_sim)]
/// How many calls a new client has already made
fn counted_before() -> u32 {
    if !K.with(|k| k.try_borrow().map(|k| k.is_some()).unwrap_or(false)) {
        return 0;
    }
    let n = [0, 0, 0, 0, 0, 250, 65_530, 0xffff_fffa][choose(Dom::W, 8)];
    if n > 0 {
        probe("counter_near_its_end");
    }
    n
}

fn point() {
    let shared = K.with(|k| k.try_borrow().ok().and_then(|k| k.as_ref().map(|k| k.shared.clone())));
    if let Some(s) = shared {
        preempt(&s);
    }
}

/// Whoever wakes others while holding a lock of the simulator does it in here
pub fn unpreempted<R>(f: impl FnOnce() -> R) -> R {
    PREEMPT.with(|p| {
        let (d, o) = p.get();
        p.set((d, o + 1));
    });
    let r = f();
    PREEMPT.with(|p| {
        let (d, o) = p.get();
        p.set((d, o - 1));
    });
    r
}

/// This world can stand preemption in the middle of a step
fn allow_preemption() {
    with(|k| k.p_preempt = k.drawn_preempt)
}

type BoxFut = Pin<Box<dyn Future<Output = ()>>>;

struct Task {
    name: String,
    fut: Option<BoxFut>,
    waker: Arc<TaskWaker>,
    done: bool,
    stalled_until: u64,
    join_wakers: Vec<Waker>,
}

struct Kernel {
    src: Source,
    rec: Tapes,
    tasks: Vec<Task>,
    shared: Arc<Shared>,
    hash: u64,
    nev: u64,
    trace: Option<Vec<String>>,
    faults: BTreeMap<&'static str, u64>,
    probes: BTreeMap<&'static str, u64>,
    steps: u64,
    max_steps: u64,
    violation: Option<Violation>,
    start: Option<tokio::time::Instant>,
    timers: BinaryHeap<Reverse<(u64, u64)>>,
    timer_wakers: BTreeMap<u64, Waker>,
    timer_seq: u64,
    // scheduler policy of this run (drawn at start)
    p_yield: u32,
    p_spurious: u32,
    p_stall: u32,
    policy: u32,
    p_preempt: u32,
    drawn_preempt: u32,
    arena: Vec<Box<dyn Any>>,
    max_tape: usize,
    prop: String,
    foreign: Vec<String>,
    idled: bool,
    no_idle: bool,
    nontrivial: bool,
    clock: u64,
    /// steps without any passing of time after which a millisecond passes (0: never)
    busy_limit: u32,
    busy: (u64, u32),
}

thread_local! {
    static K: RefCell<Option<Kernel>> = const { RefCell::new(None) };
    static PREEMPT: std::cell::Cell<(u32, u32)> = const { std::cell::Cell::new((0, 0)) };
    static PANIC_MSG: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) };
}

fn with<R>(f: impl FnOnce(&mut Kernel) -> R) -> R {
    K.with(|k| f(k.borrow_mut().as_mut().expect("no simulation on this thread")))
}

pub fn active() -> bool {
    K.with(|k| k.borrow().is_some())
}

// ---------------------------------------------------------------- choices

/// Draw a number in 0..n; 0 is always the simplest alternative.
pub fn choose(d: Dom, n: usize) -> usize {
    if n <= 1 {
        return 0;
    }
    with(|k| {
        let i = d as usize;
        let v = match &mut k.src {
            Source::Gen(r) => (r[i].next() >> 16) as u32 % n as u32,
            Source::Replay(t, pos) => {
                let v = t[i].get(pos[i]).copied().unwrap_or(0);
                pos[i] += 1;
                v.min(n as u32 - 1)
            }
        };
        if k.rec[i].len() < k.max_tape {
            k.rec[i].push(v);
        }
        v as usize
    })
}

/// True with probability num/den (false when the tape says 0)
pub fn chance(d: Dom, num: u32, den: u32) -> bool {
    if num == 0 {
        return false;
    }
    if num >= den {
        return true;
    }
    choose(d, den as usize) as u32 >= den - num
}

pub fn range(d: Dom, lo: usize, hi: usize) -> usize {
    lo + choose(d, hi - lo + 1)
}

pub fn pick<'a, T>(d: Dom, xs: &'a [T]) -> &'a T {
    &xs[choose(d, xs.len())]
}

/// How many: usually `lo` to `hi`, now and then up to `many`
pub fn count(lo: usize, hi: usize, many: usize) -> usize {
    if chance(Dom::W, 1, 400) {
        probe("long_run");
        range(Dom::W, many / 2, many)
    } else {
        range(Dom::W, lo, hi)
    }
}

/// How long: usually below `usual`, now and then up to `long`
pub fn size(usual: usize, long: usize) -> usize {
    if chance(Dom::W, 1, 200) {
        probe("long_message");
        let top = [300, 1_100, 5_000, 18_000, 70_000][choose(Dom::W, 5)];
        choose(Dom::W, top.min(long) + 1)
    } else {
        choose(Dom::W, usual)
    }
}

pub fn bytes(d: Dom, n: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(n);
    if n > 200 {
        let mut x = choose(d, 1 << 16) as u64;
        if x == 0 {
            return vec![0; n];
        }
        while v.len() < n {
            v.extend(splitmix(&mut x).to_le_bytes());
        }
        v.truncate(n);
        return v;
    }
    while v.len() < n {
        let x = choose(d, 1 << 16) as u16;
        v.push(x as u8);
        if v.len() < n {
            v.push((x >> 8) as u8);
        }
    }
    v
}

// ---------------------------------------------------------------- log

pub fn ev(tag: &'static str, a: u64, b: u64, c: u64) {
    with(|k| {
        k.nev += 1;
        let mut h = k.hash;
        for x in [tag.as_ptr() as u64 * 0 + tag_hash(tag), a, b, c] {
            h = (h ^ x).wrapping_mul(0x0000_0100_0000_01B3);
            h ^= h >> 29;
        }
        k.hash = h;
        if k.trace.is_some() {
            let t = now_of(k);
            if let Some(tr) = &mut k.trace {
                tr.push(format!("{t:>6}ms {tag} {a} {b} {c}"));
            }
        }
    })
}

fn tag_hash(s: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in s.bytes() {
        h = (h ^ b as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in b {
        h = (h ^ *x as u64).wrapping_mul(0x100_0000_01b3);
    }
    h
}

pub fn evb(tag: &'static str, a: u64, data: &[u8]) {
    ev(tag, a, data.len() as u64, hash_bytes(data));
    note(|| format!("    {}", hex(data)));
}

pub fn hex(d: &[u8]) -> String {
    let mut s = String::new();
    for (i, b) in d.iter().enumerate() {
        if i == 48 {
            s.push_str("..");
            break;
        }
        s.push_str(&format!("{b:02x}"));
    }
    s
}

pub fn note(f: impl FnOnce() -> String) {
    let tr = with(|k| k.trace.is_some());
    if tr {
        let s = f();
        with(|k| {
            let t = now_of(k);
            k.trace.as_mut().unwrap().push(format!("{t:>6}ms {s}"))
        });
    }
}

/// A fresh, strictly increasing event number
pub fn clock() -> u64 {
    with(|k| {
        k.clock += 1;
        k.clock
    })
}

/// An injected fault fired
pub fn fault(name: &'static str) {
    with(|k| *k.faults.entry(name).or_default() += 1);
    ev("FAULT", tag_hash(name), 0, 0);
    note(|| format!("FAULT {name}"));
}

/// Something worth reaching was reached
pub fn probe(name: &'static str) {
    with(|k| *k.probes.entry(name).or_default() += 1);
}

/// The property this run decides
pub fn prop() -> String {
    with(|k| k.prop.clone())
}
pub fn is_prop(p: &str) -> bool {
    with(|k| k.prop == p)
}

/// This run exercised what the property is about
pub fn nontrivial() {
    with(|k| k.nontrivial = true)
}

/// Report a violation. `kind` is "C01,C07:name": the properties it breaks and
/// a name; a violation of other properties than the one being decided is
/// only counted.
/// Whether a finding of this kind counts for the property being checked
pub fn mine(kind: &str) -> bool {
    match kind.split_once(':') {
        Some((tags, _)) if tags.starts_with('C') => {
            with(|k| tags.split(',').any(|t| t == k.prop))
        }
        _ => true,
    }
}

pub fn fail(kind: impl Into<String>, msg: impl Into<String>) {
    let mut kind: String = kind.into();
    let msg = msg.into();
    if let Some((tags, name)) = kind.clone().split_once(':') {
        if tags.starts_with('C') {
            let mine = with(|k| tags.split(',').any(|t| t == k.prop));
            if !mine {
                note(|| format!("(not this property) {kind}: {msg}"));
                with(|k| {
                    if k.foreign.len() < 8 {
                        k.foreign.push(kind)
                    }
                });
                return;
            }
            kind = name.to_string();
        }
    }
    note(|| format!("VIOLATION {kind}: {msg}"));
    with(|k| {
        if k.violation.is_none() {
            k.violation = Some(Violation { kind, msg });
        }
        let w = k.shared.root.lock().unwrap().take();
        if let Some(w) = w {
            w.wake();
        }
    });
}

pub fn failed() -> bool {
    with(|k| k.violation.is_some())
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !$cond {
            $crate::kernel::fail($kind, format!($($arg)*));
        }
    };
}

// ---------------------------------------------------------------- time

fn now_of(k: &Kernel) -> u64 {
    match k.start {
        Some(s) => (tokio::time::Instant::now() - s).as_millis() as u64,
        None => 0,
    }
}

pub fn now_ms() -> u64 {
    with(|k| now_of(k))
}

pub async fn sleep(ms: u64) {
    if ms == 0 {
        yield_now().await
    } else {
        tokio::time::sleep(Duration::from_millis(ms)).await
    }
}

/// A pause of up to `max` ms between two actions of a user; now and then,
/// at most once per run, a long one
pub async fn idle(max: u64) {
    let ms = choose(Dom::W, max as usize + 1) as u64;
    if with(|k| !k.idled) && chance(Dom::W, 1, 48) {
        with(|k| k.idled = true);
        let end = now_ms() + [700, 4_000, 25_000][choose(Dom::W, 3)];
        probe("long_idle");
        while now_ms() < end && with(|k| !k.no_idle) {
            sleep(100).await;
        }
    } else {
        sleep(ms).await
    }
}

/// Users no longer make long pauses
pub fn stop_idles() {
    with(|k| {
        k.idled = true;
        k.no_idle = true;
    })
}

/// Give up the rest of this step
pub async fn yield_now() {
    let mut once = false;
    std::future::poll_fn(|cx| {
        if once {
            Poll::Ready(())
        } else {
            once = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    })
    .await
}

pub async fn timeout<T>(ms: u64, f: impl Future<Output = T>) -> Option<T> {
    tokio::time::timeout(Duration::from_millis(ms), f).await.ok()
}

/// The device clock (embassy-time) is the same virtual clock
struct SimTimeDriver;
impl embassy_time_driver::Driver for SimTimeDriver {
    fn now(&self) -> u64 {
        if !active() {
            return 0;
        }
        now_ms() * (embassy_time_driver::TICK_HZ / 1000)
    }
    fn schedule_wake(&self, at: u64, waker: &Waker) {
        if !active() {
            return;
        }
        let per_ms = embassy_time_driver::TICK_HZ / 1000;
        let ms = at.div_ceil(per_ms);
        with(|k| {
            k.timer_seq += 1;
            let s = k.timer_seq;
            k.timers.push(Reverse((ms, s)));
            k.timer_wakers.insert(s, waker.clone());
            let w = k.shared.root.lock().unwrap().take();
            if let Some(w) = w {
                w.wake();
            }
        });
    }
}
embassy_time_driver::time_driver_impl!(static SIM_DRIVER: SimTimeDriver = SimTimeDriver);

// ---------------------------------------------------------------- tasks

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TaskId(usize);

pub fn spawn(name: impl Into<String>, f: impl Future<Output = ()> + 'static) -> TaskId {
    let f: BoxFut = Box::pin(tokio::task::unconstrained(f));
    with(|k| {
        let id = k.tasks.len();
        let waker = Arc::new(TaskWaker { id, queued: Mutex::new(false), shared: k.shared.clone() });
        k.tasks.push(Task {
            name: name.into(),
            fut: Some(f),
            waker: waker.clone(),
            done: false,
            stalled_until: 0,
            join_wakers: vec![],
        });
        waker.wake_by_ref();
        TaskId(id)
    })
}

pub fn is_done(t: TaskId) -> bool {
    with(|k| k.tasks[t.0].done)
}

/// Drop a task's future where it stands (cancellation)
pub fn abort(t: TaskId) -> bool {
    let f = with(|k| {
        let t = &mut k.tasks[t.0];
        if t.done {
            None
        } else {
            t.fut.take()
        }
    });
    let hit = f.is_some();
    if hit {
        drop(f);
        finish(t.0);
    }
    hit
}

fn finish(id: usize) {
    let ws = with(|k| {
        k.tasks[id].done = true;
        std::mem::take(&mut k.tasks[id].join_wakers)
    });
    for w in ws {
        w.wake();
    }
}

pub async fn join(t: TaskId) {
    std::future::poll_fn(|cx| {
        with(|k| {
            let t = &mut k.tasks[t.0];
            if t.done {
                Poll::Ready(())
            } else {
                t.join_wakers.push(cx.waker().clone());
                Poll::Pending
            }
        })
    })
    .await
}

/// Names of the tasks still alive
pub fn alive() -> Vec<String> {
    with(|k| k.tasks.iter().filter(|t| !t.done).map(|t| t.name.clone()).collect())
}

// ---------------------------------------------------------------- arena

/// `'static` storage that lives until the end of the run
pub fn leak<T: 'static>(v: T) -> &'static mut T {
    let b = Box::new(v);
    with(|k| {
        let mut b: Box<dyn Any> = b;
        let p: *mut T = b.downcast_mut::<T>().unwrap();
        k.arena.push(b);
        // Safety: the box is kept by the kernel until all futures of the run
        // have been dropped; nobody else touches it.
        unsafe { &mut *p }
    })
}

pub fn leak_buf(n: usize) -> &'static mut [u8] {
    let v: &'static mut Vec<u8> = leak(vec![0u8; n]);
    v.as_mut_slice()
}

// ---------------------------------------------------------------- root

#[derive(Default, Clone, Debug)]
pub struct Outcome {
    pub hash: u64,
    pub nev: u64,
    pub steps: u64,
    pub sim_ms: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub violation: Option<Violation>,
    pub tapes: Tapes,
    pub trace: Vec<String>,
    pub foreign: Vec<String>,
    pub nontrivial: bool,
}

pub enum Input<'a> {
    Seed(u64),
    Tapes(&'a Tapes),
}

/// Sim time after which a run that has nothing to do is called stuck
const IDLE_CAP_MS: u64 = 3_600_000;
const MAX_STEPS: u64 = 400_000;

pub fn set_scheduler(yield_: u32, spurious: u32, stall: u32, policy: u32) {
    with(|k| {
        k.p_yield = yield_;
        k.p_spurious = spurious;
        k.p_stall = stall;
        k.policy = policy;
    })
}

/// Switch stall injection off (for bounded-liveness phases)
pub fn stop_stalls() {
    stop_idles();
    with(|k| {
        k.p_stall = 0;
        for t in k.tasks.iter_mut() {
            t.stalled_until = 0;
        }
    })
}

fn draw_policy(stalls: bool) {
    let y = [0, 1, 3, 8][choose(S, 4)];
    let sp = [0, 0, 1, 2][choose(S, 4)];
    let st = if stalls { [0, 0, 1, 3][choose(F, 4)] } else { 0 };
    let pol = choose(S, 4) as u32;
    set_scheduler(y, sp, st, pol);
    let pre = [0, 0, 1, 4][choose(S, 4)];
    with(|k| k.drawn_preempt = pre);
}

/// Some waiters of the real code spin (embassy's Mutex with two waiters wakes
/// one by the other): let time pass although somebody can always run
pub fn set_busy_limit(steps: u32) {
    with(|k| k.busy_limit = steps)
}

struct Root {
    adv: Option<Pin<Box<dyn Future<Output = ()>>>>,
    main: usize,
    sleep: Pin<Box<tokio::time::Sleep>>,
    idle: Pin<Box<tokio::time::Sleep>>,
    rr: usize,
}

impl Future for Root {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let shared = with(|k| k.shared.clone());
        *shared.root.lock().unwrap() = Some(cx.waker().clone());
        if let Some(a) = &mut self.adv {
            if a.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.adv = None;
        }
        loop {
            if failed() || with(|k| k.tasks[self.main].done) {
                return Poll::Ready(());
            }
            // fire due device timers
            let due: Vec<Waker> = with(|k| {
                let now = now_of(k);
                let mut v = vec![];
                while let Some(Reverse((at, s))) = k.timers.peek().copied() {
                    if at > now {
                        break;
                    }
                    k.timers.pop();
                    v.extend(k.timer_wakers.remove(&s));
                }
                v
            });
            for w in due {
                w.wake();
            }
            let over = with(|k| k.steps >= k.max_steps);
            if over {
                fail("no-progress", "step limit reached: the system keeps running without getting anywhere");
                return Poll::Ready(());
            }
            // who can run?
            let now = now_ms();
            let (cand, stalled_min): (Vec<usize>, u64) = {
                let r = shared.ready.lock().unwrap().clone();
                with(|k| {
                    let mut m = u64::MAX;
                    let c = r
                        .iter()
                        .copied()
                        .filter(|i| {
                            let t = &k.tasks[*i];
                            if t.stalled_until > now {
                                m = m.min(t.stalled_until);
                                false
                            } else {
                                true
                            }
                        })
                        .collect();
                    (c, m)
                })
            };
            if cand.is_empty() {
                // wait for the next device timer / end of stall / wakeup
                let next = with(|k| k.timers.peek().map(|Reverse((at, _))| *at).unwrap_or(u64::MAX))
                    .min(stalled_min);
                let start = with(|k| k.start.unwrap());
                if next != u64::MAX {
                    self.sleep.as_mut().reset(start + Duration::from_millis(next));
                    if self.sleep.as_mut().poll(cx).is_ready() {
                        continue;
                    }
                }
                self.idle.as_mut().reset(start + Duration::from_millis(now + IDLE_CAP_MS));
                if self.idle.as_mut().poll(cx).is_ready() {
                    fail("no-progress", format!("deadlock: nothing left to run, alive: {:?}", alive()));
                    return Poll::Ready(());
                }
                let idle_since = with(|k| k.nev);
                let _ = idle_since;
                if now >= 10 * IDLE_CAP_MS {
                    fail("no-progress", format!("deadlock: nothing happens any more, alive: {:?}", alive()));
                    return Poll::Ready(());
                }
                return Poll::Pending;
            }
            let spinning = with(|k| {
                if k.busy.0 != now {
                    k.busy = (now, 0);
                }
                k.busy.1 += 1;
                k.busy_limit > 0 && k.busy.1 > k.busy_limit
            });
            if spinning {
                with(|k| k.busy = (now, 0));
                probe("spinning");
                let mut a: Pin<Box<dyn Future<Output = ()>>> = Box::pin(tokio::time::advance(Duration::from_millis(1)));
                cx.waker().wake_by_ref();
                if a.as_mut().poll(cx).is_pending() {
                    self.adv = Some(a);
                }
                return Poll::Pending;
            }
            let (y, sp, st, pol) = with(|k| (k.p_yield, k.p_spurious, k.p_stall, k.policy));
            // let tokio's own tasks run
            if y > 0 && chance(S, y, 16) {
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            let id = match pol {
                // uniform
                0 | 1 => cand[choose(S, cand.len())],
                // mostly FIFO
                2 => {
                    if chance(S, 1, 4) {
                        cand[choose(S, cand.len())]
                    } else {
                        cand[0]
                    }
                }
                // mostly LIFO (starve the old ones)
                _ => {
                    if chance(S, 1, 4) {
                        cand[choose(S, cand.len())]
                    } else {
                        cand[cand.len() - 1]
                    }
                }
            };
            if st > 0 && id != self.main && chance(F, st, 256) {
                let d = 1 + choose(F, 40) as u64;
                fault("task_stall");
                with(|k| k.tasks[id].stalled_until = now + d);
                continue;
            }
            let mut poll_id = id;
            if sp > 0 && chance(S, sp, 32) {
                // poll somebody who was not woken
                let n = with(|k| k.tasks.len());
                let c = choose(S, n);
                if with(|k| !k.tasks[c].done && k.tasks[c].stalled_until <= now) {
                    poll_id = c;
                }
            }
            self.rr = self.rr.wrapping_add(1);
            step(&shared, poll_id);
        }
    }
}

fn step(shared: &Arc<Shared>, id: usize) {
    shared.ready.lock().unwrap().retain(|x| *x != id);
    let (fut, waker) = with(|k| {
        k.steps += 1;
        let t = &mut k.tasks[id];
        *t.waker.queued.lock().unwrap() = false;
        (t.fut.take(), t.waker.clone())
    });
    let Some(mut fut) = fut else { return };
    with(|k| {
        // part of the interleaving fingerprint
        k.hash = (k.hash ^ (id as u64 + 0x51)).wrapping_mul(0x100_0000_01b3);
    });
    let w = Waker::from(waker);
    let mut cx = Context::from_waker(&w);
    let pre = PREEMPT.with(|p| {
        let old = p.get();
        p.set((old.0 + 1, 0));
        old
    });
    let r = std::panic::catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
    PREEMPT.with(|p| p.set(pre));
    match r {
        Ok(Poll::Pending) => with(|k| k.tasks[id].fut = Some(fut)),
        Ok(Poll::Ready(())) => {
            drop(fut);
            finish(id);
        }
        Err(_) => {
            // do not run destructors of a half-polled future twice
            let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(fut)));
            let m = PANIC_MSG.with(|p| p.borrow().last().cloned()).unwrap_or_default();
            let name = with(|k| k.tasks[id].name.clone());
            fail(panic_kind(&m), format!("task {name} panicked: {m}"));
            finish(id);
        }
    }
}

fn panic_kind(m: &str) -> String {
    // the location, without line numbers, tells panics apart when shrinking
    let loc = m.rsplit(" @ ").next().unwrap_or("");
    let file = loc.split(':').next().unwrap_or("");
    format!("panic:{}", file.rsplit('/').next().unwrap_or(""))
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if !active() && PANIC_MSG.try_with(|_| ()).is_err() {
            eprintln!("{info}");
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "panic".to_string()
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        if !K.with(|k| k.try_borrow().map(|k| k.is_some()).unwrap_or(true)) {
            eprintln!("harness panic: {msg} @ {loc}");
        }
        PANIC_MSG.with(|p| p.borrow_mut().push(format!("{msg} @ {loc}")));
    }));
}

/// Run one simulation. `main` builds and drives the world; the run ends when
/// it returns.
pub fn run<Fut>(prop: &str, input: Input<'_>, stalls: bool, preempt: bool, trace: bool, main: impl FnOnce() -> Fut) -> Outcome
where
    Fut: Future<Output = ()> + 'static,
{
    PANIC_MSG.with(|p| p.borrow_mut().clear());
    PREEMPT.with(|p| p.set((0, 0)));
    #[cfg(prpc_sim)]
    {
        let _ = postcard_rpc::sim_sync::POINT.set(point);
        let _ = postcard_rpc::sim_sync::START.set(counted_before);
    }
    let src = match &input {
        Input::Seed(s) => {
            let mut x = *s;
            Source::Gen([
                Rng::new(splitmix(&mut x)),
                Rng::new(splitmix(&mut x)),
                Rng::new(splitmix(&mut x)),
            ])
        }
        Input::Tapes(t) => Source::Replay((*t).clone(), [0; 3]),
    };
    let shared = Arc::new(Shared { ready: Mutex::new(vec![]), root: Mutex::new(None) });
    K.with(|k| {
        *k.borrow_mut() = Some(Kernel {
            src,
            rec: Default::default(),
            tasks: vec![],
            shared,
            hash: 0xcbf2_9ce4_8422_2325,
            nev: 0,
            trace: trace.then(Vec::new),
            faults: Default::default(),
            probes: Default::default(),
            steps: 0,
            max_steps: MAX_STEPS,
            violation: None,
            start: None,
            timers: Default::default(),
            timer_wakers: Default::default(),
            timer_seq: 0,
            p_yield: 0,
            p_spurious: 0,
            p_stall: 0,
            policy: 0,
            p_preempt: 0,
            drawn_preempt: 0,
            arena: vec![],
            max_tape: 4_000_000,
            prop: prop.to_string(),
            foreign: vec![],
            idled: false,
            no_idle: false,
            nontrivial: false,
            clock: 0,
            busy_limit: 0,
            busy: (0, 0),
        })
    });
    // the only randomness inside tokio (select! branch order) is seeded from the tape
    let rs = choose(S, 1 << 30) as u64;
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .event_interval(1)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&rs.to_le_bytes()))
        .build()
        .unwrap();
    draw_policy(stalls);
    if preempt {
        allow_preemption();
    }
    let sim_ms = rt.block_on(async {
        with(|k| k.start = Some(tokio::time::Instant::now()));
        let t = spawn("main", main());
        Root {
            adv: None,
            main: t.0,
            sleep: Box::pin(tokio::time::sleep(Duration::from_millis(1))),
            idle: Box::pin(tokio::time::sleep(Duration::from_millis(1))),
            rr: 0,
        }
        .await;
        let ms = now_ms();
        // tear down inside the runtime: timers need it
        let futs: Vec<BoxFut> = with(|k| k.tasks.iter_mut().filter_map(|t| t.fut.take()).collect());
        let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(futs)));
        ms
    });
    // tokio-spawned tasks are dropped here
    let _ = std::panic::catch_unwind(AssertUnwindSafe(|| drop(rt)));
    nusb::sim::set_devices(vec![]);
    tokio_serial::sim::set_ports(vec![]);
    let panics = PANIC_MSG.with(|p| p.borrow().clone());
    let mut k = K.with(|k| k.borrow_mut().take()).unwrap();
    if k.violation.is_none() {
        if let Some(m) = panics.first() {
            // a panic inside a task spawned on tokio is swallowed by tokio
            k.violation = Some(Violation { kind: panic_kind(m), msg: format!("panicked: {m}") });
        }
    }
    Outcome {
        hash: k.hash,
        nev: k.nev,
        steps: k.steps,
        sim_ms,
        faults: k.faults,
        probes: k.probes,
        violation: k.violation,
        tapes: k.rec,
        trace: k.trace.take().unwrap_or_default(),
        foreign: k.foreign,
        nontrivial: k.nontrivial,
    }
    // k.arena dropped last
}

/// Shared mutable state of a world
pub type Sh<T> = Rc<RefCell<T>>;
pub fn sh<T>(t: T) -> Sh<T> {
    Rc::new(RefCell::new(t))
}
