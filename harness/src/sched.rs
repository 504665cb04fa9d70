//! Deterministic scheduler for real OS threads.
//!
//! Exactly one registered thread runs at a time. Control can change hands at every acquisition
//! and release of an instrumented spin mutex, whenever a future is pending, and at explicit
//! [point]s. Threads are blocked on spin contention or on a waker.
use lxi_device::verif::Event;
use std::cell::Cell;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Condvar, Mutex};
use std::task::{Context, Poll, Wake, Waker};

use crate::util::Rng;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum St {
    Runnable,
    /// Waiting for spin mutex at address
    Spin(usize),
    /// Waiting for waker; true if it may give up at any time
    Wake(bool),
    Done,
}

/// Why a blocked thread was resumed
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Resume {
    Woken,
    GiveUp,
}

struct Inner {
    st: Vec<St>,
    woken: Vec<bool>,
    resume: Vec<Resume>,
    current: Option<usize>,
    strategy: Strategy,
    steps: usize,
    deadlock: bool,
    on_quiet: Option<Box<dyn FnMut(&[usize]) + Send>>,
    trace: Vec<u8>,
}

pub struct Sched {
    inner: Mutex<Inner>,
    cv: Condvar,
}

/// How the next thread is chosen
pub enum Strategy {
    /// Stay on current thread with probability stay/16
    Random { rng: Rng, stay: usize },
    /// Priorities with a few random priority change points
    Pct { rng: Rng, prio: Vec<u32>, changes: Vec<usize> },
    /// Replay a prefix of choices, then first candidate; records the number of alternatives
    Dfs { prefix: Vec<usize>, taken: Vec<(usize, usize)>, bound: usize, preempts: usize },
}

impl Strategy {
    fn choose(&mut self, cands: &[usize], current: Option<usize>, step: usize) -> usize {
        match self {
            Strategy::Random { rng, stay } => {
                if let Some(c) = current {
                    if cands.contains(&c) && rng.below(16) < *stay {
                        return c;
                    }
                }
                *rng.pick(cands)
            }
            Strategy::Pct { rng, prio, changes } => {
                if changes.contains(&step) {
                    if let Some(c) = current {
                        prio[c] = rng.below(8) as u32;
                    }
                }
                *cands.iter().max_by_key(|c| prio[**c]).unwrap()
            }
            Strategy::Dfs { prefix, taken, bound, preempts } => {
                // Order candidates with the current thread first
                let mut order: Vec<usize> = Vec::new();
                let cont = current.filter(|c| cands.contains(c));
                if let Some(c) = cont {
                    order.push(c);
                }
                order.extend(cands.iter().copied().filter(|c| Some(*c) != cont));
                if cont.is_some() && *preempts >= *bound {
                    order.truncate(1);
                }
                let i = taken.len();
                let pick = if i < prefix.len() { prefix[i].min(order.len() - 1) } else { 0 };
                taken.push((pick, order.len()));
                if cont.is_some() && pick != 0 {
                    *preempts += 1;
                }
                order[pick]
            }
        }
    }
}

thread_local! {
    static TID: Cell<Option<usize>> = Cell::new(None);
}
static CURRENT: Mutex<Option<Arc<Sched>>> = Mutex::new(None);

pub fn hook(ev: Event, addr: usize) {
    let Some(me) = TID.with(|t| t.get()) else {
        if ev == Event::Contended {
            crate::on_unscheduled_contention();
        }
        return;
    };
    let s = CURRENT.lock().unwrap().clone().unwrap();
    match ev {
        Event::Acquire => s.switch(me, St::Runnable),
        Event::Contended => s.switch(me, St::Spin(addr)),
        Event::Released => {
            {
                let mut g = s.inner.lock().unwrap();
                for st in g.st.iter_mut() {
                    if *st == St::Spin(addr) {
                        *st = St::Runnable;
                    }
                }
            }
            s.switch(me, St::Runnable)
        }
    }
}

/// Explicit scheduling point
pub fn point() {
    if let Some(me) = TID.with(|t| t.get()) {
        let s = CURRENT.lock().unwrap().clone().unwrap();
        s.switch(me, St::Runnable);
    }
}

impl Sched {
    fn pick_next(&self, g: &mut Inner, prev: Option<usize>) {
        loop {
            let cands: Vec<usize> = (0..g.st.len())
                .filter(|i| matches!(g.st[*i], St::Runnable | St::Wake(true)))
                .collect();
            let runnable = (0..g.st.len()).any(|i| g.st[i] == St::Runnable);
            if !runnable {
                // Quiescent: everybody is done or blocked
                if g.st.iter().all(|s| *s == St::Done) {
                    g.current = None;
                    self.cv.notify_all();
                    return;
                }
                if g.st.iter().any(|s| matches!(s, St::Spin(_))) {
                    g.deadlock = true;
                    g.current = None;
                    self.cv.notify_all();
                    return;
                }
                let blocked: Vec<usize> = (0..g.st.len())
                    .filter(|i| matches!(g.st[*i], St::Wake(_)))
                    .collect();
                if let Some(f) = g.on_quiet.as_mut() {
                    f(&blocked)
                }
                // Let somebody give up
                let step = g.steps;
                let n = g.strategy.choose(&blocked, None, step);
                g.st[n] = St::Runnable;
                g.resume[n] = Resume::GiveUp;
                continue;
            }
            g.steps += 1;
            let step = g.steps;
            let n = g.strategy.choose(&cands, prev, step);
            if g.st[n] == St::Wake(true) {
                g.st[n] = St::Runnable;
                g.resume[n] = Resume::GiveUp;
            }
            g.trace.push(n as u8);
            g.current = Some(n);
            self.cv.notify_all();
            return;
        }
    }

    fn switch(&self, me: usize, st: St) {
        let mut g = self.inner.lock().unwrap();
        g.st[me] = st;
        if let St::Wake(_) = st {
            if g.woken[me] {
                g.st[me] = St::Runnable;
                g.resume[me] = Resume::Woken;
            }
        }
        self.pick_next(&mut g, Some(me));
        if st == St::Done {
            return;
        }
        loop {
            if g.deadlock {
                // Never continue, the run is over
                drop(g);
                loop {
                    std::thread::park();
                }
            }
            if g.current == Some(me) {
                return;
            }
            g = self.cv.wait(g).unwrap();
        }
    }
}

struct ThreadWaker {
    sched: Arc<Sched>,
    tid: usize,
}

impl Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let mut g = self.sched.inner.lock().unwrap();
        g.woken[self.tid] = true;
        if matches!(g.st[self.tid], St::Wake(_)) {
            g.st[self.tid] = St::Runnable;
            g.resume[self.tid] = Resume::Woken;
        }
    }
}

/// Run future on the current scheduled thread. Returns None if the thread gave up waiting
pub fn block_on<F: Future>(mut fut: Pin<&mut F>, impatient: bool) -> Option<F::Output> {
    let me = TID.with(|t| t.get()).expect("scheduled thread");
    let s = CURRENT.lock().unwrap().clone().unwrap();
    let waker: Waker = Arc::new(ThreadWaker { sched: s.clone(), tid: me }).into();
    let mut cx = Context::from_waker(&waker);
    loop {
        s.inner.lock().unwrap().woken[me] = false;
        if let Poll::Ready(x) = fut.as_mut().poll(&mut cx) {
            return Some(x);
        }
        s.switch(me, St::Wake(impatient));
        let r = s.inner.lock().unwrap().resume[me];
        if r == Resume::GiveUp && !s.inner.lock().unwrap().woken[me] {
            return None;
        }
    }
}

pub struct RunResult {
    pub deadlock: bool,
    pub panicked: bool,
    pub steps: usize,
    pub strategy: Strategy,
    pub schedule: Vec<u8>,
}

/// Run all bodies to completion (or deadlock) under the strategy
pub fn run(
    bodies: Vec<Box<dyn FnOnce() + Send>>,
    strategy: Strategy,
    on_quiet: Box<dyn FnMut(&[usize]) + Send>,
) -> RunResult {
    let n = bodies.len();
    let s = Arc::new(Sched {
        inner: Mutex::new(Inner {
            st: vec![St::Runnable; n],
            woken: vec![false; n],
            resume: vec![Resume::Woken; n],
            current: None,
            strategy,
            steps: 0,
            deadlock: false,
            on_quiet: Some(on_quiet),
            trace: Vec::new(),
        }),
        cv: Condvar::new(),
    });
    *CURRENT.lock().unwrap() = Some(s.clone());
    let panicked = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let mut joins = Vec::new();
    for (i, body) in bodies.into_iter().enumerate() {
        let s = s.clone();
        let p = panicked.clone();
        joins.push(
            std::thread::Builder::new()
                .stack_size(256 * 1024)
                .spawn(move || {
                    TID.with(|t| t.set(Some(i)));
                    // Wait for first turn
                    {
                        let mut g = s.inner.lock().unwrap();
                        while g.current != Some(i) {
                            if g.deadlock {
                                return;
                            }
                            g = s.cv.wait(g).unwrap();
                        }
                    }
                    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(body)).is_err() {
                        p.store(true, std::sync::atomic::Ordering::SeqCst);
                    }
                    s.switch(i, St::Done);
                })
                .unwrap(),
        );
    }
    // Start
    {
        let mut g = s.inner.lock().unwrap();
        s.pick_next(&mut g, None);
    }
    let deadlock = {
        let mut g = s.inner.lock().unwrap();
        loop {
            if g.deadlock {
                break true;
            }
            if g.st.iter().all(|x| *x == St::Done) {
                break false;
            }
            g = s.cv.wait(g).unwrap();
        }
    };
    if !deadlock {
        for j in joins {
            let _ = j.join();
        }
    }
    let mut g = s.inner.lock().unwrap();
    g.on_quiet = None;
    let strategy = std::mem::replace(&mut g.strategy, Strategy::Random { rng: Rng::new(0), stay: 0 });
    RunResult {
        deadlock,
        panicked: panicked.load(std::sync::atomic::Ordering::SeqCst),
        steps: g.steps,
        strategy,
        schedule: std::mem::take(&mut g.trace),
    }
}
