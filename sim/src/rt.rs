//! The executor: one thread, every poll chosen by the seeded scheduler, simulated time by tokio's
//! paused clock (which jumps to the next timer when nothing is runnable).

use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BinaryHeap};
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::alloc;
use crate::interpose;
use crate::plan::{Sched, Strategy};
use crate::prng::Rng;

pub type Task = Pin<Box<dyn Future<Output = ()>>>;

struct Shared {
    ready: Mutex<Vec<usize>>,
    main: Mutex<Option<Waker>>,
    /// for each task the call it runs, and whether its last poll had no cooperative budget left
    calls: Mutex<Vec<(Option<usize>, bool)>>,
}

/// What is going on while a waker is used.
#[derive(Clone, Copy, PartialEq)]
enum Phase {
    /// a delivery, a cancellation, an answer
    Event,
    Poll(usize),
    /// nothing but the passing of time
    Idle,
}

struct TaskWaker {
    id: usize,
    shared: Arc<Shared>,
}

impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let _as = alloc::outside();
        let mut ready = self.shared.ready.lock().unwrap();
        if !ready.contains(&self.id) {
            ready.push(self.id);
            let phase = PHASE.try_with(|p| p.get()).unwrap_or(Phase::Event);
            if phase == Phase::Idle || phase == Phase::Poll(self.id) {
                if let Some((Some(op), false)) = self.shared.calls.lock().unwrap().get(self.id) {
                    let _ = IDLE_WAKES.try_with(|w| *w.borrow_mut().entry(*op).or_default() += 1);
                    let _ = WOKEN_IDLE.try_with(|w| w.set(w.get() + 1));
                }
            }
        }
        drop(ready);
        if let Some(w) = self.shared.main.lock().unwrap().as_ref() {
            w.wake_by_ref();
        }
    }
}

struct Slot {
    fut: Option<Task>,
    waker: Waker,
    op: Option<usize>,
    polls: u32,
    prio: u64,
    held: bool,
}

struct Ev {
    at: u64,
    seq: u64,
    run: Box<dyn FnOnce()>,
}
impl PartialEq for Ev {
    fn eq(&self, o: &Self) -> bool {
        self.at == o.at && self.seq == o.seq
    }
}
impl Eq for Ev {}
impl PartialOrd for Ev {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Ev {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        (o.at, o.seq).cmp(&(self.at, self.seq))
    }
}

pub struct Chooser {
    sched: Sched,
    rng: Rng,
    pos: usize,
    pub recorded: Vec<u32>,
}

impl Chooser {
    /// 0..n; recorded, so that a replay makes the same choices.
    fn choose(&mut self, n: u32, f: impl FnOnce(&mut Rng) -> u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let v = match &self.sched.choices {
            Some(c) => {
                let v = c.get(self.pos).copied().unwrap_or(0) % n;
                self.pos += 1;
                v
            }
            None => f(&mut self.rng) % n,
        };
        self.recorded.push(v);
        v
    }
}

/// What a poll of an operation's task came to.
pub enum Polled {
    Pending,
    Done,
    Panicked(String),
}

thread_local! {
    static EVENTS: RefCell<BinaryHeap<Ev>> = RefCell::new(BinaryHeap::new());
    static SEQ: Cell<u64> = const { Cell::new(0) };
    static SPAWNED: RefCell<Vec<(Task, Option<usize>)>> = const { RefCell::new(Vec::new()) };
    static CHOOSER: RefCell<Option<Chooser>> = const { RefCell::new(None) };
    static CUR_OP: Cell<Option<usize>> = const { Cell::new(None) };
    static TO_CANCEL: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    static BACKGROUND: Cell<usize> = const { Cell::new(0) };
    static STEPS: Cell<u64> = const { Cell::new(0) };
    static PHASE: Cell<Phase> = const { Cell::new(Phase::Idle) };
    static IDLE_WAKES: RefCell<BTreeMap<usize, u32>> = const { RefCell::new(BTreeMap::new()) };
    static WOKEN_IDLE: Cell<u64> = const { Cell::new(0) };
    pub static HOOK: RefCell<Option<Box<dyn Fn(usize, &Polled, u32)>>> = const { RefCell::new(None) };
    pub static BEFORE: RefCell<Option<Box<dyn Fn(usize)>>> = const { RefCell::new(None) };
}

/// A number that grows with every event and poll; orders the history.
pub fn seq() -> u64 {
    SEQ.with(|s| {
        s.set(s.get() + 1);
        s.get()
    })
}

/// Background tasks that have not ended.
pub fn background_tasks() -> usize {
    BACKGROUND.with(|b| b.get())
}

/// How often each call was woken by itself or by the clock, with nothing having happened.
pub fn idle_wakes() -> BTreeMap<usize, u32> {
    IDLE_WAKES.with(|w| w.borrow().clone())
}

pub fn steps() -> u64 {
    STEPS.with(|s| s.get())
}

pub fn at(ms: u64, run: impl FnOnce() + 'static) {
    let _as = alloc::outside();
    let now = interpose::now_ms();
    let ev = Ev {
        at: ms.max(now),
        seq: seq(),
        run: Box::new(run),
    };
    EVENTS.with(|e| e.borrow_mut().push(ev));
}

pub fn spawn(fut: Task, op: Option<usize>) {
    let _as = alloc::outside();
    SPAWNED.with(|s| s.borrow_mut().push((fut, op)));
}

pub fn cur_op() -> Option<usize> {
    CUR_OP.with(|c| c.get())
}

/// Drops the operation's future (as soon as no poll is in progress).
pub fn cancel(op: usize) {
    let _as = alloc::outside();
    TO_CANCEL.with(|c| c.borrow_mut().push(op));
}

pub fn choose(n: u32) -> u32 {
    let _as = alloc::outside();
    CHOOSER.with(|c| match c.borrow_mut().as_mut() {
        None => 0,
        Some(c) => c.choose(n, |r| r.below(u64::from(n)) as u32),
    })
}

/// true with p in 1000; 0 (no) on replay exhaustion.
pub fn chance(p: u32) -> bool {
    if p == 0 {
        return false;
    }
    let _as = alloc::outside();
    CHOOSER.with(|c| match c.borrow_mut().as_mut() {
        None => false,
        Some(c) => c.choose(2, |r| u32::from(r.permille(u64::from(p)))) == 1,
    })
}

pub fn take_choices() -> Vec<u32> {
    CHOOSER.with(|c| c.borrow_mut().take().map(|c| c.recorded).unwrap_or_default())
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let _as = alloc::outside();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        let s = format!("{msg} at {loc}");
        *ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = s.clone();
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = s);
    }));
}

static ANY_PANIC: Mutex<String> = Mutex::new(String::new());

/// The last panic of any thread.
pub fn last_panic_any() -> String {
    ANY_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

struct Exec {
    slots: Vec<Slot>,
    shared: Arc<Shared>,
    sched: Sched,
    heal: u64,
    prio_rng: Rng,
}

pub enum End {
    Finished,
    Horizon,
    Steps,
}

impl Exec {
    fn absorb(&mut self) {
        let spawned = SPAWNED.with(|s| std::mem::take(&mut *s.borrow_mut()));
        for (fut, op) in spawned {
            let id = self.slots.len();
            let waker = Waker::from(Arc::new(TaskWaker {
                id,
                shared: self.shared.clone(),
            }));
            if op.is_none() {
                BACKGROUND.with(|b| b.set(b.get() + 1));
            }
            let prio = self.prio_rng.next();
            self.shared.calls.lock().unwrap().push((op, false));
            self.slots.push(Slot {
                fut: Some(fut),
                waker,
                op,
                polls: 0,
                prio,
                held: false,
            });
            self.shared.ready.lock().unwrap().push(id);
        }
    }

    fn cancels(&mut self) {
        loop {
            let Some(op) = TO_CANCEL.with(|c| c.borrow_mut().pop()) else {
                return;
            };
            let Some(i) = self.slots.iter().position(|s| s.op == Some(op)) else {
                continue;
            };
            let Some(fut) = self.slots[i].fut.take() else {
                continue;
            };
            let was = interpose::set_in_task(true);
            let r = catch_unwind(AssertUnwindSafe(move || drop(fut)));
            interpose::set_in_task(was);
            self.shared.ready.lock().unwrap().retain(|x| *x != i);
            if r.is_err() {
                hook(op, &Polled::Panicked(last_panic()), u32::MAX);
            } else {
                hook(op, &Polled::Done, u32::MAX);
            }
        }
    }

    fn fire(&mut self, now: u64) {
        loop {
            let ev = EVENTS.with(|e| {
                let mut e = e.borrow_mut();
                match e.peek() {
                    Some(ev) if ev.at <= now => e.pop(),
                    _ => None,
                }
            });
            match ev {
                None => return,
                Some(ev) => {
                    PHASE.with(|p| p.set(Phase::Event));
                    (ev.run)();
                    self.cancels();
                    PHASE.with(|p| p.set(Phase::Idle));
                }
            }
        }
    }

    /// One scheduling decision. false: nothing is runnable.
    fn step(&mut self, now: u64) -> bool {
        let ready: Vec<usize> = {
            let mut r = self.shared.ready.lock().unwrap();
            r.retain(|i| self.slots[*i].fut.is_some());
            r.iter().copied().filter(|i| !self.slots[*i].held).collect()
        };
        if ready.is_empty() {
            return false;
        }
        let n = ready.len() as u32;
        let strategy = self.sched.strategy;
        let prio: Vec<u64> = ready.iter().map(|i| self.slots[*i].prio).collect();
        let i = CHOOSER.with(|c| {
            c.borrow_mut().as_mut().unwrap().choose(n, |r| match strategy {
                Strategy::Fifo => 0,
                Strategy::Lifo => n - 1,
                Strategy::Uniform => r.below(u64::from(n)) as u32,
                Strategy::Priority => {
                    let mut best = 0;
                    for k in 1..prio.len() {
                        if prio[k] > prio[best] {
                            best = k;
                        }
                    }
                    if r.permille(60) {
                        r.below(u64::from(n)) as u32
                    } else {
                        best as u32
                    }
                }
            })
        });
        let id = ready[i as usize];
        if now < self.heal && chance(self.sched.hold) {
            let d = 1 + choose(self.sched.hold_max_ms.max(1));
            self.slots[id].held = true;
            crate::world::probe("sched:held");
            let shared = self.shared.clone();
            at(now + u64::from(d), move || {
                UNHOLD.with(|u| u.borrow_mut().push(id));
                if let Some(w) = shared.main.lock().unwrap().as_ref() {
                    w.wake_by_ref();
                }
            });
            return true;
        }
        self.shared.ready.lock().unwrap().retain(|x| *x != id);
        self.poll(id);
        true
    }

    fn poll(&mut self, id: usize) {
        let slot = &mut self.slots[id];
        let Some(mut fut) = slot.fut.take() else { return };
        slot.polls += 1;
        let (op, polls, waker) = (slot.op, slot.polls, slot.waker.clone());
        let burn = if op.is_some() && chance(self.sched.burn) {
            crate::world::probe("sched:budget-burned");
            Some(choose(4))
        } else {
            None
        };
        if let Some(op) = op {
            BEFORE.with(|b| {
                if let Some(b) = b.borrow().as_ref() {
                    b(op)
                }
            });
        }
        if op.is_some() {
            self.shared.calls.lock().unwrap()[id].1 = burn.is_some();
        }
        CUR_OP.with(|c| c.set(op));
        PHASE.with(|p| p.set(Phase::Poll(id)));
        let was = interpose::set_in_task(true);
        let r = catch_unwind(AssertUnwindSafe(|| {
            let mut cx = Context::from_waker(&waker);
            if let Some(left) = burn {
                burn_budget(left, &mut cx);
            }
            // an operation's task turns to the code under test by itself
            let _as = (op.is_none()).then(alloc::inside);
            fut.as_mut().poll(&mut cx)
        }));
        interpose::set_in_task(was);
        CUR_OP.with(|c| c.set(None));
        STEPS.with(|s| s.set(s.get() + 1));
        if op.is_none() && !matches!(r, Ok(Poll::Pending)) {
            BACKGROUND.with(|b| b.set(b.get() - 1));
        }
        let polled = match r {
            Ok(Poll::Pending) => {
                self.slots[id].fut = Some(fut);
                Polled::Pending
            }
            Ok(Poll::Ready(())) => {
                let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                Polled::Done
            }
            Err(_) => {
                let msg = last_panic();
                let _ = catch_unwind(AssertUnwindSafe(move || drop(fut)));
                Polled::Panicked(msg)
            }
        };
        PHASE.with(|p| p.set(Phase::Event));
        match op {
            Some(op) => hook(op, &polled, polls),
            None => {
                if let Polled::Panicked(m) = &polled {
                    crate::world::background_panic(m);
                }
            }
        }
        PHASE.with(|p| p.set(Phase::Idle));
    }
}

thread_local! {
    static UNHOLD: RefCell<Vec<usize>> = const { RefCell::new(Vec::new()) };
}

fn hook(op: usize, p: &Polled, polls: u32) {
    HOOK.with(|h| {
        if let Some(h) = h.borrow().as_ref() {
            h(op, p, polls)
        }
    });
}

/// Leaves `left` units of tokio's cooperative budget for this poll.
fn burn_budget(left: u32, _cx: &mut Context<'_>) {
    let noop = Waker::noop();
    let mut cx = Context::from_waker(noop);
    for _ in 0..(128 - left.min(127)) {
        let mut f = Box::pin(tokio::task::coop::consume_budget());
        if f.as_mut().poll(&mut cx).is_pending() {
            return;
        }
    }
}

/// How long, of real time, one turn of the executor may take before the run counts as hung.
pub const POLL_S: u32 = 30;

/// Each turn gets its own time: a long run is not a hang.
fn watch(seconds: u32) {
    unsafe { libc::alarm(seconds) };
}

pub fn run(
    sched: &Sched,
    heal: u64,
    horizon: u64,
    max_steps: u64,
    setup: impl FnOnce(),
    mut finished: impl FnMut() -> bool,
) -> End {
    let runtime = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .expect("runtime");
    CHOOSER.with(|c| {
        *c.borrow_mut() = Some(Chooser {
            sched: sched.clone(),
            rng: Rng::new(sched.seed),
            pos: 0,
            recorded: vec![],
        })
    });
    watch(POLL_S);
    let end = runtime.block_on(async move {
        interpose::set_epoch();
        let epoch = tokio::time::Instant::now();
        let mut exec = Exec {
            slots: vec![],
            shared: Arc::new(Shared {
                ready: Mutex::new(vec![]),
                main: Mutex::new(None),
                calls: Mutex::new(vec![]),
            }),
            sched: sched.clone(),
            heal,
            prio_rng: Rng::new(sched.seed ^ 0x9_1234),
        };
        setup();
        let mut at_ms = (0u64, 0u32);
        let mut sleep = Box::pin(tokio::time::sleep_until(epoch));
        std::future::poll_fn(move |cx| {
            *exec.shared.main.lock().unwrap() = Some(cx.waker().clone());
            watch(POLL_S);
            let now = interpose::now_ms();
            exec.fire(now);
            for id in UNHOLD.with(|u| std::mem::take(&mut *u.borrow_mut())) {
                exec.slots[id].held = false;
            }
            PHASE.with(|p| p.set(Phase::Event));
            exec.absorb();
            exec.cancels();
            PHASE.with(|p| p.set(Phase::Idle));
            if finished() {
                return Poll::Ready(End::Finished);
            }
            if now >= horizon {
                return Poll::Ready(End::Horizon);
            }
            if STEPS.with(|s| s.get()) >= max_steps {
                return Poll::Ready(End::Steps);
            }
            // time goes by for a call that spins, too
            if at_ms.0 != now {
                at_ms = (now, 0);
            }
            at_ms.1 += 1;
            let spinning = at_ms.1 > 50 && WOKEN_IDLE.with(|w| w.get()) > 1_000;
            if !spinning && exec.step(now) {
                PHASE.with(|p| p.set(Phase::Event));
                exec.absorb();
                exec.cancels();
                PHASE.with(|p| p.set(Phase::Idle));
                cx.waker().wake_by_ref();
                return Poll::Pending;
            }
            let next = EVENTS
                .with(|e| e.borrow().peek().map(|e| e.at))
                .unwrap_or(horizon)
                .min(horizon)
                .min(if spinning { now + 1 } else { u64::MAX });
            sleep
                .as_mut()
                .reset(epoch + std::time::Duration::from_millis(next));
            if sleep.as_mut().poll(cx).is_ready() {
                cx.waker().wake_by_ref();
            }
            Poll::Pending
        })
        .await
    });
    watch(0);
    end
}
