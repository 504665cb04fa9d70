//! Single threaded world: in-memory connections, an executor with random scheduling, and the event log.
use std::cell::{Cell, RefCell};
use std::collections::VecDeque;
use std::future::Future;
use std::io;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex as StdMutex};
use std::task::{Context, Poll, Wake, Waker};

use futures::{AsyncRead, AsyncWrite};
use serde_json::{json, Value};

use crate::util::Rng;

thread_local! {
    static LOG: RefCell<Vec<Value>> = RefCell::new(vec![]);
    static CUR: Cell<usize> = Cell::new(0);
    static RNG: RefCell<Rng> = RefCell::new(Rng::new(1));
}

pub fn log(v: Value) {
    LOG.with(|l| l.borrow_mut().push(v))
}
pub fn take_log() -> Vec<Value> {
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
pub fn log_len() -> usize {
    LOG.with(|l| l.borrow().len())
}
/// Connection whose task is running
pub fn current() -> usize {
    CUR.with(|c| c.get())
}
pub fn seed(s: u64) {
    RNG.with(|r| *r.borrow_mut() = Rng::new(s))
}
pub fn rng<T>(f: impl FnOnce(&mut Rng) -> T) -> T {
    RNG.with(|r| f(&mut r.borrow_mut()))
}

#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub wclosed: bool,
    pub rclosed: bool,
    rw: Option<Waker>,
    ww: Option<Waker>,
}

pub type PipeRef = Arc<StdMutex<Pipe>>;

pub fn pipe(cap: usize) -> PipeRef {
    Arc::new(StdMutex::new(Pipe { cap, ..Default::default() }))
}

impl Pipe {
    pub fn wake(&mut self) {
        if let Some(w) = self.rw.take() {
            w.wake()
        }
        if let Some(w) = self.ww.take() {
            w.wake()
        }
    }
    /// Unscheduled side: put bytes
    pub fn put(&mut self, b: &[u8]) {
        if !self.rclosed {
            self.buf.extend(b);
        }
        self.wake();
    }
    /// Unscheduled side: take up to n bytes
    pub fn take(&mut self, n: usize) -> Vec<u8> {
        let n = n.min(self.buf.len());
        let v = self.buf.drain(..n).collect();
        if n > 0 {
            self.wake();
        }
        v
    }
}

/// Server side of a connection
pub struct Stream {
    pub rx: PipeRef,
    pub tx: PipeRef,
}

impl Drop for Stream {
    fn drop(&mut self) {
        let mut r = self.rx.lock().unwrap();
        r.rclosed = true;
        r.wake();
        drop(r);
        let mut t = self.tx.lock().unwrap();
        t.wclosed = true;
        t.wake();
    }
}

fn stutter(cx: &mut Context<'_>) -> bool {
    if rng(|r| r.chance(1, 10)) {
        cx.waker().wake_by_ref();
        return true;
    }
    false
}

impl AsyncRead for Stream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, out: &mut [u8]) -> Poll<io::Result<usize>> {
        if stutter(cx) {
            return Poll::Pending;
        }
        let mut p = self.rx.lock().unwrap();
        if out.is_empty() {
            return Poll::Ready(Ok(0));
        }
        if p.buf.is_empty() {
            if p.wclosed {
                return Poll::Ready(Ok(0));
            }
            p.rw = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let m = p.buf.len().min(out.len());
        let n = rng(|r| if r.chance(1, 3) { 1 + r.below(m) } else { m });
        for b in out[..n].iter_mut() {
            *b = p.buf.pop_front().unwrap();
        }
        Poll::Ready(Ok(n))
    }
}

impl AsyncWrite for Stream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if stutter(cx) {
            return Poll::Pending;
        }
        let mut p = self.tx.lock().unwrap();
        if p.rclosed {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        if p.buf.len() >= p.cap {
            p.ww = Some(cx.waker().clone());
            return Poll::Pending;
        }
        let m = (p.cap - p.buf.len()).min(b.len());
        let n = rng(|r| if m > 1 && r.chance(1, 4) { 1 + r.below(m) } else { m });
        p.buf.extend(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        let mut p = self.tx.lock().unwrap();
        p.wclosed = true;
        Poll::Ready(Ok(()))
    }
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

pub struct Task {
    fut: Option<Pin<Box<dyn Future<Output = ()>>>>,
    flag: Arc<Flag>,
    pub tag: usize,
}

#[derive(Default)]
pub struct Exec {
    pub tasks: Vec<Task>,
    pub dead: bool,
    pub polls: usize,
}

impl Exec {
    pub fn spawn(&mut self, tag: usize, f: impl Future<Output = ()> + 'static) {
        self.tasks.push(Task { fut: Some(Box::pin(f)), flag: Arc::new(Flag(AtomicBool::new(true))), tag });
    }
    pub fn woken(&self) -> Vec<usize> {
        (0..self.tasks.len())
            .filter(|i| self.tasks[*i].fut.is_some() && self.tasks[*i].flag.0.load(Ordering::SeqCst))
            .collect()
    }
    pub fn done(&self, tag: usize) -> bool {
        self.tasks.iter().all(|t| t.tag != tag || t.fut.is_none())
    }
    /// Poll one task that was woken; false if there is none
    pub fn step(&mut self) -> bool {
        if self.dead {
            return false;
        }
        let w = self.woken();
        if w.is_empty() {
            return false;
        }
        let i = rng(|r| *r.pick(&w));
        self.polls += 1;
        let t = &mut self.tasks[i];
        t.flag.0.store(false, Ordering::SeqCst);
        let waker: Waker = t.flag.clone().into();
        let mut cx = Context::from_waker(&waker);
        CUR.with(|c| c.set(t.tag));
        let fut = t.fut.as_mut().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| fut.as_mut().poll(&mut cx)));
        CUR.with(|c| c.set(0));
        match r {
            Ok(Poll::Pending) => (),
            Ok(Poll::Ready(())) => {
                // The end of a task drops what it owned, which must not fail either
                let f = t.fut.take();
                if catch_unwind(AssertUnwindSafe(|| drop(f))).is_err() {
                    log(json!({"e":"panic","c":t.tag}));
                    self.dead = true;
                }
            }
            Err(e) => {
                let spin = e.downcast_ref::<&str>().map_or(false, |s| *s == SPIN);
                let msg = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
                    .unwrap_or_default();
                log(json!({"e": if spin {"spin"} else {"panic"}, "c":t.tag, "msg": msg}));
                self.dead = true;
            }
        }
        true
    }
}

pub const SPIN: &str = "spinning on a lock held by a suspended task";

/// Call before a run: a spin lock that is taken while the holder is suspended never ends
pub fn arm() {
    *crate::CONTENTION.lock().unwrap() = Some(|| std::panic::panic_any(SPIN));
}
