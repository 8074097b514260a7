//! Single-threaded executor owned by the simulator: which task is polled next,
//! how long each I/O takes, spurious polls and cancellations are all decided by
//! the recorded choice list of the case.
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BinaryHeap};
use std::cmp::Reverse;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};

/// Explicit list of scheduling decisions; exhausted means "always 0".
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize, PartialEq)]
pub struct Sched(pub Vec<u16>);
impl Sched {
    pub fn random(r: &mut crate::rng::Rng, n: usize) -> Sched {
        Sched((0..n).map(|_| (r.next() & 0x3ff) as u16).collect())
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub polls: u64,
    pub spurious: u64,
    pub cancelled: u64,
    pub switches: u64,
    pub sim_ms: u64,
    pub io: u64,
    pub fired: BTreeMap<String, u64>,
    pub sig: u64,
}

pub struct Inner {
    pub now: u64,
    seq: u64,
    choices: Vec<u16>,
    pos: usize,
    timers: BinaryHeap<Reverse<(u64, u64)>>,
    timer_state: BTreeMap<u64, (bool, Option<Waker>)>,
    pub log: Vec<String>,
    pub stats: Stats,
    pub current: usize,
    pub max_latency: u64,
}
#[derive(Clone)]
pub struct Sim(pub Rc<RefCell<Inner>>);

impl Sim {
    pub fn new(s: &Sched, max_latency: u64) -> Sim {
        Sim(Rc::new(RefCell::new(Inner {
            now: 0,
            seq: 0,
            choices: s.0.clone(),
            pos: 0,
            timers: BinaryHeap::new(),
            timer_state: BTreeMap::new(),
            log: vec![],
            stats: Stats::default(),
            current: usize::MAX,
            max_latency,
        })))
    }
    pub fn choose(&self, n: usize) -> usize {
        let mut i = self.0.borrow_mut();
        if n <= 1 {
            return 0;
        }
        let c = i.choices.get(i.pos).copied().unwrap_or(0);
        i.pos += 1;
        let c = c as usize % n;
        i.stats.sig = i.stats.sig.wrapping_mul(0x100000001b3).wrapping_add((c + 1) as u64);
        c
    }
    pub fn log(&self, s: String) {
        let mut i = self.0.borrow_mut();
        let l = format!("t={} {}", i.now, s);
        i.log.push(l);
    }
    pub fn fire(&self, k: &str) {
        *self.0.borrow_mut().stats.fired.entry(k.to_string()).or_default() += 1;
    }
    pub fn current(&self) -> usize {
        self.0.borrow().current
    }
    pub fn now(&self) -> u64 {
        self.0.borrow().now
    }
    /// A simulated I/O wait: completes at a simulated time picked by the schedule.
    pub fn io(&self) -> Sleep {
        let max = self.0.borrow().max_latency;
        self.0.borrow_mut().stats.io += 1;
        let d = if max == 0 { 0 } else { self.choose(max as usize + 1) as u64 };
        self.sleep(d)
    }
    pub fn sleep(&self, d: u64) -> Sleep {
        let mut i = self.0.borrow_mut();
        i.seq += 1;
        let id = i.seq;
        if d > 0 {
            let at = i.now + d;
            i.timers.push(Reverse((at, id)));
            i.timer_state.insert(id, (false, None));
        }
        Sleep { sim: self.clone(), id, immediate: d == 0 }
    }
}
pub struct Sleep {
    sim: Sim,
    id: u64,
    immediate: bool,
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.immediate {
            return Poll::Ready(());
        }
        let mut i = self.sim.0.borrow_mut();
        match i.timer_state.get_mut(&self.id) {
            Some((true, _)) => {
                i.timer_state.remove(&self.id);
                Poll::Ready(())
            }
            Some((false, w)) => {
                *w = Some(cx.waker().clone());
                Poll::Pending
            }
            None => Poll::Ready(()),
        }
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Ok(mut i) = self.sim.0.try_borrow_mut() {
            i.timer_state.remove(&self.id);
        }
    }
}

struct TaskWaker {
    id: usize,
    queue: Arc<Mutex<Vec<usize>>>,
}
impl Wake for TaskWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let mut q = self.queue.lock().unwrap();
        if !q.contains(&self.id) {
            q.push(self.id);
        }
    }
}

pub struct Task<'a> {
    pub fut: Pin<Box<dyn Future<Output = ()> + 'a>>,
    /// Dropped just before its n-th poll (a client giving up).
    pub cancel_at: Option<u64>,
    /// Simulated arrival time.
    pub start_at: u64,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Outcome {
    Done,
    Cancelled,
    /// Never completed although nothing can make progress any more.
    Stuck,
    Panicked(String),
}

pub fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs the tasks to completion under the schedule.
pub fn run<'a>(sim: &Sim, tasks: Vec<Task<'a>>, spurious_pct: u16) -> Vec<Outcome> {
    let n = tasks.len();
    let queue = Arc::new(Mutex::new(Vec::new()));
    let mut slots: Vec<Option<Task<'a>>> = tasks.into_iter().map(Some).collect();
    let mut outcome = vec![Outcome::Stuck; n];
    let mut polls = vec![0u64; n];
    let mut started = vec![false; n];
    let wakers: Vec<Waker> =
        (0..n).map(|id| Waker::from(Arc::new(TaskWaker { id, queue: queue.clone() }))).collect();
    let mut last = usize::MAX;
    let arrivals: Vec<Sleep> = slots.iter().map(|t| sim.sleep(t.as_ref().unwrap().start_at)).collect();
    let mut arrivals: Vec<Option<Sleep>> = arrivals.into_iter().map(Some).collect();
    for i in 0..n {
        queue.lock().unwrap().push(i);
    }
    let budget = Cell::new(2_000_000u64);
    loop {
        budget.set(budget.get() - 1);
        if budget.get() == 0 {
            return outcome;
        }
        let ready = {
            let q = queue.lock().unwrap();
            q.len()
        };
        let pick = if ready > 0 {
            let k = sim.choose(ready);
            queue.lock().unwrap().remove(k)
        } else {
            // Nothing runnable: spurious poll of a pending task, or next event.
            let pending: Vec<usize> = (0..n).filter(|i| slots[*i].is_some() && started[*i]).collect();
            if pending.is_empty() && slots.iter().all(|s| s.is_none()) {
                break;
            }
            if !pending.is_empty() && spurious_pct > 0 && sim.choose(100) >= 100 - spurious_pct as usize {
                sim.0.borrow_mut().stats.spurious += 1;
                pending[sim.choose(pending.len())]
            } else {
                // Advance the simulated clock to the next live timer.
                let mut fired = false;
                let mut w = None;
                {
                    let mut i = sim.0.borrow_mut();
                    while let Some(Reverse((at, id))) = i.timers.pop() {
                        if let Some(s) = i.timer_state.get_mut(&id) {
                            s.0 = true;
                            w = s.1.take();
                            i.now = i.now.max(at);
                            fired = true;
                            break;
                        }
                    }
                }
                if let Some(w) = w {
                    w.wake();
                }
                if !fired {
                    break; // deadlock: remaining tasks are stuck
                }
                continue;
            }
        };
        if slots[pick].is_none() {
            continue;
        }
        if let Some(a) = arrivals[pick].as_mut() {
            let mut cx = Context::from_waker(&wakers[pick]);
            if Pin::new(a).poll(&mut cx).is_pending() {
                continue;
            }
            arrivals[pick] = None;
        }
        started[pick] = true;
        if last != pick {
            sim.0.borrow_mut().stats.switches += 1;
            last = pick;
        }
        polls[pick] += 1;
        if slots[pick].as_ref().unwrap().cancel_at == Some(polls[pick]) {
            sim.log(format!("task {pick} cancelled at poll {}", polls[pick]));
            sim.0.borrow_mut().current = pick;
            let t = slots[pick].take();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(t)));
            outcome[pick] = match r {
                Ok(()) => Outcome::Cancelled,
                Err(e) => Outcome::Panicked(panic_message(e)),
            };
            sim.0.borrow_mut().stats.cancelled += 1;
            continue;
        }
        sim.0.borrow_mut().current = pick;
        sim.0.borrow_mut().stats.polls += 1;
        let mut cx = Context::from_waker(&wakers[pick]);
        let fut = &mut slots[pick].as_mut().unwrap().fut;
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
        match r {
            Ok(Poll::Pending) => {}
            Ok(Poll::Ready(())) => {
                outcome[pick] = Outcome::Done;
                slots[pick] = None;
            }
            Err(e) => {
                outcome[pick] = Outcome::Panicked(panic_message(e));
                let t = slots[pick].take();
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || drop(t)));
            }
        }
    }
    let now = sim.0.borrow().now;
    sim.0.borrow_mut().stats.sim_ms = now;
    outcome
}
