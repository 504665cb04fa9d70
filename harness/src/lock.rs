//! Drivers for the device lock (lxi-device::lock).
//!
//! `seq`  : one thread, futures polled by hand, full observation after every step
//! `conc` : OS threads under the deterministic scheduler
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex as StdMutex};
use std::task::{Context, Poll, Wake, Waker};

use lxi_device::lock::{
    LockHandle, Mutex, MutexGuard, RemoteLockHandle, SharedLock, SharedLockError, SharedLockMode,
    SpinMutex,
};
use serde_json::{json, Value};

use crate::sched::{self, Strategy};
use crate::util::{Args, Out, Rng};

pub struct Dev;
type Guard = MutexGuard<'static, Dev>;

const KEYS: [&[u8]; 4] = [b"", b"a", b"ab", b"A"];

fn acq_res(r: &Result<(), SharedLockError>) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(SharedLockError::AlreadyLocked) => "already",
        Err(SharedLockError::LockedByShared) | Err(SharedLockError::LockedByExclusive) => "refused",
        Err(SharedLockError::AlreadyUnlocked) => "unlocked",
        Err(SharedLockError::Busy) => "busy",
        Err(SharedLockError::Timeout) => "timeout",
        Err(SharedLockError::Aborted) => "aborted",
    }
}

fn lock_res(r: &Result<Guard, SharedLockError>) -> &'static str {
    match r {
        Ok(_) => "ok",
        Err(SharedLockError::Busy) => "busy",
        Err(SharedLockError::LockedByShared) | Err(SharedLockError::LockedByExclusive) => "refused",
        _ => "error",
    }
}

fn rel_res(r: &Result<SharedLockMode, SharedLockError>) -> &'static str {
    match r {
        Ok(SharedLockMode::Exclusive) => "excl",
        Ok(SharedLockMode::Shared) => "shared",
        Err(_) => "none",
    }
}

/// A lock handle used either directly or through remote handles
#[derive(Clone)]
enum Hnd {
    Own(*mut LockHandle<Dev>),
    Rem(Arc<SpinMutex<LockHandle<Dev>>>),
}
// Harness only touches an Own handle from the thread that owns it
unsafe impl Send for Hnd {}
unsafe impl Sync for Hnd {}

fn ext<'a>(g: MutexGuard<'a, Dev>) -> Guard {
    // The device outlives every guard in the harness
    unsafe { std::mem::transmute(g) }
}

impl Hnd {
    fn new(s: &Arc<SpinMutex<SharedLock>>, d: &Arc<Mutex<Dev>>, remote: bool) -> Self {
        let h = LockHandle::new(s.clone(), d.clone());
        if remote {
            Hnd::Rem(Arc::new(SpinMutex::new(h)))
        } else {
            Hnd::Own(Box::into_raw(Box::new(h)))
        }
    }
    fn close(self) {
        match self {
            Hnd::Own(p) => drop(unsafe { Box::from_raw(p) }),
            Hnd::Rem(a) => drop(a),
        }
    }
    fn try_acq(&self, key: usize, alt: bool) -> Result<(), SharedLockError> {
        let k = KEYS[key];
        match self {
            Hnd::Own(p) => {
                let h = unsafe { &mut **p };
                match (alt, key) {
                    (false, _) => h.try_acquire(k),
                    (true, 0) => h.try_acquire_exclusive(),
                    (true, _) => h.try_acquire_shared(k),
                }
            }
            Hnd::Rem(a) => {
                if alt {
                    a.lock().try_acquire(k)
                } else {
                    RemoteLockHandle::new(a.clone()).try_acquire(k)
                }
            }
        }
    }
    async fn acq(self, key: usize, alt: bool) -> Result<(), SharedLockError> {
        let k = KEYS[key];
        match &self {
            Hnd::Own(p) => {
                let h = unsafe { &mut **p };
                match (alt, key) {
                    (false, _) => h.async_acquire(k).await,
                    (true, 0) => h.async_acquire_exclusive().await,
                    (true, _) => h.async_acquire_shared(k).await,
                }
            }
            Hnd::Rem(a) => {
                let r = RemoteLockHandle::new(a.clone());
                r.async_acquire(k).await
            }
        }
    }
    fn rel(&self, alt: bool) -> Result<SharedLockMode, SharedLockError> {
        let _ = alt;
        match self {
            Hnd::Own(p) => unsafe { &mut **p }.try_release(),
            Hnd::Rem(a) => a.lock().try_release(),
        }
    }
    fn force(&self) {
        match self {
            Hnd::Own(p) => unsafe { &mut **p }.force_release(),
            Hnd::Rem(a) => a.lock().force_release(),
        }
    }
    async fn try_lock(self, alt: bool) -> Result<Guard, SharedLockError> {
        match &self {
            Hnd::Own(p) => unsafe { &**p }.try_lock().map(ext),
            Hnd::Rem(a) => {
                if alt {
                    a.lock().try_lock().map(ext)
                } else {
                    let r = RemoteLockHandle::new(a.clone());
                    let x = r.try_lock().await.map(ext);
                    x
                }
            }
        }
    }
    async fn lock(self) -> Result<Guard, SharedLockError> {
        match &self {
            Hnd::Own(p) => unsafe { &**p }.async_lock().await.map(ext),
            Hnd::Rem(a) => {
                let r = RemoteLockHandle::new(a.clone());
                let x = r.async_lock().await.map(ext);
                x
            }
        }
    }
    async fn inner(self) -> Guard {
        match &self {
            Hnd::Own(p) => ext(unsafe { &**p }.inner_lock().await),
            Hnd::Rem(a) => {
                let r = RemoteLockHandle::new(a.clone());
                let x = ext(r.inner_lock().await);
                x
            }
        }
    }
    fn can(&self, alt: bool) -> bool {
        match self {
            Hnd::Own(p) => unsafe { &**p }.can_lock().is_ok(),
            Hnd::Rem(a) => {
                if alt {
                    a.lock().can_lock().is_ok()
                } else {
                    RemoteLockHandle::new(a.clone()).can_lock().is_ok()
                }
            }
        }
    }
    fn info(&self) -> (bool, u32) {
        match self {
            Hnd::Own(p) => unsafe { &**p }.lock_info(),
            Hnd::Rem(a) => a.lock().lock_info(),
        }
    }
    fn flags(&self) -> (bool, bool) {
        match self {
            Hnd::Own(p) => {
                let h = unsafe { &**p };
                (h.has_exclusive(), h.has_shared())
            }
            Hnd::Rem(a) => {
                let h = a.lock();
                (h.has_exclusive(), h.has_shared())
            }
        }
    }
}

enum Done {
    Acq(Result<(), SharedLockError>),
    Lock(Result<Guard, SharedLockError>),
}

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

struct Slot {
    h: usize,
    excl_borrow: bool,
    fut: Pin<Box<dyn Future<Output = Done>>>,
    flag: Arc<Flag>,
}

/// Sequential world
pub struct Seq {
    shared: Arc<SpinMutex<SharedLock>>,
    dev: Arc<Mutex<Dev>>,
    handles: Vec<Option<(Hnd, bool)>>,
    slots: Vec<Option<Slot>>,
    guards: Vec<Option<(usize, Guard)>>,
    ev: Vec<Value>,
    eager: bool,
    rng: Rng,
}

impl Seq {
    fn new(nh: usize, np: usize, eager: bool, seed: u64) -> Self {
        Seq {
            shared: SharedLock::new(),
            dev: Arc::new(Mutex::new(Dev)),
            handles: (0..nh).map(|_| None).collect(),
            slots: (0..np).map(|_| None).collect(),
            guards: (0..np).map(|_| None).collect(),
            ev: Vec::new(),
            eager,
            rng: Rng::new(seed),
        }
    }

    fn poll(&mut self, p: usize) {
        let Some(slot) = self.slots[p].as_mut() else { return };
        slot.flag.0.store(false, Ordering::SeqCst);
        let waker: Waker = slot.flag.clone().into();
        let mut cx = Context::from_waker(&waker);
        if let Poll::Ready(d) = slot.fut.as_mut().poll(&mut cx) {
            let h = slot.h;
            self.slots[p] = None;
            self.done(p, h, d);
        }
    }

    fn done(&mut self, p: usize, h: usize, d: Done) {
        match d {
            Done::Acq(r) => self.ev.push(json!({"e":"ret","t":p+1,"r":acq_res(&r)})),
            Done::Lock(r) => {
                self.ev.push(json!({"e":"ret","t":p+1,"r":lock_res(&r)}));
                if let Ok(g) = r {
                    self.guards[p] = Some((h, g));
                }
            }
        }
    }

    fn run_woken(&mut self, all: bool) {
        loop {
            let w: Vec<usize> = (0..self.slots.len())
                .filter(|p| self.slots[*p].as_ref().map_or(false, |s| s.flag.0.load(Ordering::SeqCst)))
                .collect();
            if w.is_empty() {
                self.ev.push(json!({"e":"quiet"}));
                return;
            }
            let p = *self.rng.pick(&w);
            self.poll(p);
            if !all {
                return;
            }
        }
    }

    fn obs(&mut self) {
        let mut can = Vec::new();
        let mut hx = Vec::new();
        let mut hs = Vec::new();
        let mut x = Value::Null;
        for (i, h) in self.handles.iter().enumerate() {
            let borrowed = self
                .slots
                .iter()
                .flatten()
                .any(|s| s.h == i && s.excl_borrow && matches!(self.handles[i], Some((Hnd::Own(_), _))));
            if let (Some((h, _)), false) = (h, borrowed) {
                let alt = self.rng.chance(1, 2);
                if h.can(alt) {
                    can.push(i + 1)
                } else {
                    // explicitly not
                    can.push(100 + i + 1)
                }
                let (e, s) = h.flags();
                hx.push(if e { i + 1 } else { 100 + i + 1 });
                hs.push(if s { i + 1 } else { 100 + i + 1 });
                let (e, n) = h.info();
                x = json!([e, n]);
            }
        }
        let (e, n) = {
            let s = self.shared.lock();
            (s.exclusive_lock(), s.num_shared_locks())
        };
        if !x.is_null() && x != json!([e, n]) {
            self.ev.push(json!({"e":"inconsistent"}));
        }
        self.ev
            .push(json!({"e":"obs","x":e,"n":n,"can":can,"hx":hx,"hs":hs}));
    }

    /// Returns false if step is not applicable
    fn step(&mut self, st: &[Value]) -> bool {
        let op = st[0].as_str().unwrap();
        let a = |i: usize| st[i].as_u64().unwrap() as usize;
        let alt = self.rng.chance(1, 2);
        let busy_mut = |s: &Seq, h: usize, needs_mut: bool| {
            matches!(s.handles[h], Some((Hnd::Own(_), _)))
                && (s.slots.iter().flatten().any(|x| x.h == h && (x.excl_borrow || needs_mut))
                    || (needs_mut && s.guards.iter().flatten().any(|(gh, _)| *gh == h)))
        };
        match op {
            "new" => {
                let h = a(1) - 1;
                if h >= self.handles.len() || self.handles[h].is_some() {
                    return false;
                }
                let rem = st.get(2).map_or(alt, |v| v.as_u64() == Some(1));
                self.handles[h] = Some((Hnd::new(&self.shared, &self.dev, rem), rem));
                self.ev.push(json!({"e":"new","h":h+1}));
            }
            "drop" => {
                let h = a(1) - 1;
                if self.handles[h].is_none()
                    || self.slots.iter().flatten().any(|x| x.h == h)
                    || self.guards.iter().flatten().any(|(gh, _)| *gh == h)
                {
                    return false;
                }
                let (hd, _) = self.handles[h].take().unwrap();
                hd.close();
                self.ev.push(json!({"e":"drop","h":h+1}));
            }
            "acq" | "lock" => {
                // p h key wait
                let (p, h, key, wait) = (a(1) - 1, a(2) - 1, a(3), a(4) == 1);
                if self.slots[p].is_some()
                    || self.guards[p].is_some()
                    || self.handles[h].is_none()
                    || busy_mut(self, h, op == "acq")
                {
                    return false;
                }
                let hd = self.handles[h].as_ref().unwrap().0.clone();
                self.ev
                    .push(json!({"e":"inv","t":p+1,"op":op,"h":h+1,"k":key,"w":wait}));
                if op == "acq" && !wait {
                    let r = hd.try_acq(key, alt);
                    self.done(p, h, Done::Acq(r));
                } else {
                    let fut: Pin<Box<dyn Future<Output = Done>>> = match (op, wait) {
                        ("acq", _) => Box::pin(async move { Done::Acq(hd.acq(key, alt).await) }),
                        (_, true) => Box::pin(async move { Done::Lock(hd.lock().await) }),
                        (_, false) => {
                            Box::pin(async move { Done::Lock(hd.try_lock(alt).await) })
                        }
                    };
                    self.slots[p] = Some(Slot {
                        h,
                        excl_borrow: op == "acq",
                        fut,
                        flag: Arc::new(Flag(AtomicBool::new(true))),
                    });
                    self.poll(p);
                }
            }
            "rel" => {
                let (p, h) = (a(1) - 1, a(2) - 1);
                if self.handles[h].is_none() || busy_mut(self, h, true) || self.slots[p].is_some() {
                    return false;
                }
                self.ev.push(json!({"e":"inv","t":p+1,"op":"rel","h":h+1,"k":0,"w":false}));
                let hd = self.handles[h].as_ref().unwrap().0.clone();
                let r = hd.rel(alt);
                self.ev.push(json!({"e":"ret","t":p+1,"r":rel_res(&r)}));
            }
            "unlock" => {
                let p = a(1) - 1;
                let Some((h, g)) = self.guards[p].take() else { return false };
                self.ev
                    .push(json!({"e":"inv","t":p+1,"op":"unlock","h":h+1,"k":0,"w":false}));
                drop(g);
                self.ev.push(json!({"e":"ret","t":p+1,"r":"ok"}));
            }
            "cancel" => {
                let p = a(1) - 1;
                if self.slots[p].is_none() {
                    return false;
                }
                self.slots[p] = None;
                self.ev.push(json!({"e":"cancel","t":p+1}));
            }
            "poll" => {
                // Spurious poll
                let p = a(1) - 1;
                if self.slots[p].is_none() {
                    return false;
                }
                self.poll(p);
            }
            _ => panic!("bad op {op}"),
        }
        let all = self.eager || self.rng.chance(1, 4);
        if all || self.rng.chance(1, 3) {
            self.run_woken(all);
        }
        self.obs();
        true
    }

    fn finish(mut self) -> Vec<Value> {
        self.run_woken(true);
        // End of life: everything goes, everything must be free again
        for p in 0..self.slots.len() {
            self.step(&[json!("unlock"), json!(p + 1)]);
        }
        for p in 0..self.slots.len() {
            self.step(&[json!("cancel"), json!(p + 1)]);
            self.step(&[json!("unlock"), json!(p + 1)]);
        }
        for h in 0..self.handles.len() {
            self.step(&[json!("drop"), json!(h + 1)]);
        }
        self.obs();
        self.ev
    }
}

fn random_step(rng: &mut Rng, nh: usize, np: usize, nk: usize) -> Vec<Value> {
    let p = rng.below(np) + 1;
    let h = rng.below(nh) + 1;
    let k = rng.below(nk + 1);
    let w = rng.below(2);
    match rng.weighted(&[4, 2, 8, 8, 4, 4, 3, 1]) {
        0 => vec![json!("new"), json!(h)],
        1 => vec![json!("drop"), json!(h)],
        2 => vec![json!("acq"), json!(p), json!(h), json!(k), json!(w)],
        3 => vec![json!("lock"), json!(p), json!(h), json!(0), json!(w)],
        4 => vec![json!("rel"), json!(p), json!(h)],
        5 => vec![json!("unlock"), json!(p)],
        6 => vec![json!("cancel"), json!(p)],
        _ => vec![json!("poll"), json!(p)],
    }
}

pub fn seq(args: &Args) {
    let mut out = Out::new(args.get("out").unwrap());
    let seed = args.num("seed", 1);
    let nh = args.num("nh", 3) as usize;
    let np = args.num("np", 3) as usize;
    let run = |id: usize, steps: &mut dyn FnMut(&mut Rng, usize) -> Option<Vec<Value>>, eager: bool, out: &mut Out| {
        let mut s = Seq::new(nh, np, eager, seed ^ (id as u64) << 20);
        let mut rng = Rng::new(seed.wrapping_add(id as u64 * 7919));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut i = 0;
            while let Some(st) = steps(&mut rng, i) {
                s.step(&st);
                i += 1;
            }
        }));
        let (ev, panicked) = match res {
            Ok(()) => {
                let mut ev = None;
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    ev = Some(s.finish());
                }));
                (ev.unwrap_or_default(), r.is_err())
            }
            Err(_) => {
                let ev = std::mem::take(&mut s.ev);
                std::mem::forget(s);
                (ev, true)
            }
        };
        let mut ev = ev;
        if panicked {
            ev.push(json!({"e":"panic"}));
        }
        out.line(&json!({"id":id,"drv":"seq","eager":eager,"ev":ev}));
    };
    let mut id = 0;
    if let Some(f) = args.get("seqs") {
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let v: Vec<Value> = serde_json::from_str(line).unwrap();
            id += 1;
            run(
                id,
                &mut |_, i| v.get(i).map(|x| x.as_array().unwrap().clone()),
                true,
                &mut out,
            );
        }
    }
    for j in 0..args.num("n", 0) {
        id += 1;
        let len = args.num("len", 30) as usize;
        run(
            id,
            &mut |rng, i| {
                if i < nh {
                    Some(vec![json!("new"), json!(i + 1)])
                } else if i < len {
                    Some(random_step(rng, nh, np, 3))
                } else {
                    None
                }
            },
            j % 2 == 0,
            &mut out,
        );
    }
    out.flush();
}

// ---------------------------------------------------------------------------------------------
// Concurrent

#[derive(Clone, Debug)]
enum Op {
    Acq { k: usize, w: bool, imp: bool, alt: bool },
    Rel,
    Force,
    Lock { w: bool, imp: bool, alt: bool },
    Unlock,
    Can(bool),
    Info,
    Drop,
}

fn gen_program(rng: &mut Rng, len: usize, profile: usize) -> Vec<Op> {
    let mut v = Vec::new();
    for _ in 0..len {
        let w = rng.chance(2, 3);
        let imp = rng.chance(1, 4);
        let alt = rng.chance(1, 2);
        let ws: [usize; 8] = match profile {
            0 => [6, 4, 1, 6, 3, 1, 1, 1], // mixed
            1 => [3, 3, 0, 8, 5, 0, 0, 0], // device access vs locks
            2 => [8, 6, 1, 2, 1, 0, 1, 1], // lock churn
            _ => [5, 3, 0, 5, 3, 2, 2, 2],
        };
        v.push(match rng.weighted(&ws) {
            0 => Op::Acq { k: if rng.chance(1, 2) { 0 } else { 1 + rng.below(2) }, w, imp, alt },
            1 => Op::Rel,
            2 => Op::Force,
            3 => Op::Lock { w, imp, alt },
            4 => Op::Unlock,
            5 => Op::Can(alt),
            6 => Op::Info,
            _ => Op::Drop,
        });
    }
    v
}

/// Hand written program templates around the critical windows
fn templates() -> Vec<Vec<Vec<Op>>> {
    let l = || Op::Lock { w: true, imp: false, alt: false };
    let tl = || Op::Lock { w: false, imp: false, alt: false };
    let x = || Op::Acq { k: 0, w: true, imp: false, alt: false };
    let tx = || Op::Acq { k: 0, w: false, imp: false, alt: false };
    let s = |k| Op::Acq { k, w: true, imp: false, alt: true };
    let ts = |k| Op::Acq { k, w: false, imp: false, alt: true };
    vec![
        // grant while another one takes the lock
        vec![vec![l(), Op::Unlock], vec![tx(), tl(), Op::Unlock, Op::Rel]],
        vec![vec![tl(), Op::Unlock], vec![tx(), tl(), Op::Unlock, Op::Rel]],
        vec![vec![l(), Op::Unlock], vec![ts(1), tl(), Op::Unlock, Op::Rel]],
        vec![vec![tl(), Op::Unlock], vec![ts(1), tl(), Op::Unlock, Op::Drop]],
        vec![vec![tl()], vec![tx(), tl(), Op::Unlock]],
        vec![vec![l()], vec![tx(), tl(), Op::Unlock]],
        vec![vec![tl()], vec![s(1), tl(), Op::Unlock]],
        vec![vec![s(1), tl()], vec![s(1), tx(), tl(), Op::Unlock]],
        vec![vec![tx(), Op::Rel], vec![l()]],
        vec![vec![tx(), Op::Rel], vec![x()]],
        vec![vec![s(1), Op::Rel], vec![s(2)]],
        // waiters behind the device
        vec![vec![tl(), Op::Unlock], vec![l(), Op::Unlock], vec![tx(), l(), Op::Unlock, Op::Rel]],
        vec![vec![l(), Op::Unlock], vec![l(), Op::Unlock], vec![tx(), Op::Rel]],
        // waiters for the lock
        vec![vec![tx(), Op::Rel], vec![x(), Op::Rel], vec![x(), Op::Rel]],
        vec![vec![tx(), Op::Drop], vec![x(), Op::Drop], vec![s(1), Op::Rel]],
        vec![vec![s(1), Op::Rel], vec![s(2), Op::Rel], vec![x(), Op::Rel]],
        vec![vec![s(1), Op::Rel], vec![s(1), Op::Rel], vec![s(2), l(), Op::Unlock, Op::Rel]],
        vec![vec![s(1), x(), Op::Rel], vec![s(1), x(), Op::Rel]],
        vec![vec![s(1), x(), Op::Rel], vec![s(1), l(), Op::Unlock, Op::Rel]],
        vec![vec![tx(), Op::Rel], vec![l(), Op::Unlock], vec![l(), Op::Unlock]],
        // give up while waiting
        vec![
            vec![tx(), Op::Rel],
            vec![Op::Acq { k: 0, w: true, imp: true, alt: false }, Op::Rel],
            vec![x(), Op::Rel],
        ],
        vec![
            vec![tl(), Op::Unlock],
            vec![Op::Lock { w: true, imp: true, alt: false }, Op::Unlock],
            vec![l(), Op::Unlock],
        ],
        vec![
            vec![tx(), Op::Drop],
            vec![Op::Lock { w: true, imp: true, alt: false }, Op::Unlock],
            vec![l(), Op::Unlock],
        ],
    ]
}

/// How threads map to handles: (handle index, remote?)
#[derive(Clone)]
struct Conf {
    progs: Vec<Vec<Op>>,
    map: Vec<usize>,
    remote: Vec<bool>,
}

fn run_conc(conf: &Conf, strat: Strategy) -> (Vec<Value>, sched::RunResult) {
    let shared = SharedLock::new();
    let dev = Arc::new(Mutex::new(Dev));
    let log: Arc<StdMutex<Vec<Value>>> = Default::default();
    let nh = conf.remote.len();
    let handles: Vec<Hnd> = (0..nh).map(|i| Hnd::new(&shared, &dev, conf.remote[i])).collect();
    for h in 0..nh {
        log.lock().unwrap().push(json!({"e":"new","h":h+1}));
    }
    let users: Vec<usize> = (0..nh).map(|h| conf.map.iter().filter(|m| **m == h).count()).collect();
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
    let leak = Arc::new(AtomicBool::new(false));
    for (t, prog) in conf.progs.iter().enumerate() {
        let h = conf.map[t];
        let hd = handles[h].clone();
        let prog = prog.clone();
        let log = log.clone();
        let sole = users[h] == 1;
        let dev2 = dev.clone();
        bodies.push(Box::new(move || {
            let _keep = dev2;
            let put = |v: Value| log.lock().unwrap().push(v);
            let mut guard: Option<Guard> = None;
            let mut hd = Some(hd);
            let inv = |op: &str, k: usize, w: bool| {
                put(json!({"e":"inv","t":t+1,"op":op,"h":h+1,"k":k,"w":w}))
            };
            let ret = |r: &str| put(json!({"e":"ret","t":t+1,"r":r}));
            let unlock = |guard: &mut Option<Guard>| {
                if guard.is_some() {
                    inv("unlock", 0, false);
                    drop(guard.take());
                    ret("ok");
                }
            };
            for op in &prog {
                let Some(hh) = hd.clone() else { break };
                match op.clone() {
                    Op::Acq { k, w: false, alt, .. } => {
                        inv("acq", k, false);
                        let r = hh.try_acq(k, alt);
                        ret(acq_res(&r));
                    }
                    Op::Acq { k, w: true, imp, alt } => {
                        inv("acq", k, true);
                        let mut f = Box::pin(hh.acq(k, alt));
                        match sched::block_on(f.as_mut(), imp) {
                            Some(r) => ret(acq_res(&r)),
                            None => {
                                drop(f);
                                put(json!({"e":"cancel","t":t+1}));
                            }
                        }
                    }
                    Op::Rel => {
                        inv("rel", 0, false);
                        let r = hh.rel(false);
                        ret(rel_res(&r));
                    }
                    Op::Force => {
                        inv("force", 0, false);
                        hh.force();
                        ret("ok");
                    }
                    Op::Lock { w, imp, alt } => {
                        if guard.is_some() {
                            continue;
                        }
                        inv("lock", 0, w);
                        if w {
                            let mut f = Box::pin(hh.lock());
                            match sched::block_on(f.as_mut(), imp) {
                                Some(r) => {
                                    ret(lock_res(&r));
                                    guard = r.ok();
                                }
                                None => {
                                    drop(f);
                                    put(json!({"e":"cancel","t":t+1}));
                                }
                            }
                        } else {
                            let mut f = Box::pin(hh.try_lock(alt));
                            match sched::block_on(f.as_mut(), false) {
                                Some(r) => {
                                    ret(lock_res(&r));
                                    guard = r.ok();
                                }
                                None => put(json!({"e":"stuck","t":t+1})),
                            }
                        }
                        sched::point();
                    }
                    Op::Unlock => unlock(&mut guard),
                    Op::Can(alt) => {
                        inv("can", 0, false);
                        let r = hh.can(alt);
                        ret(if r { "ok" } else { "refused" });
                    }
                    Op::Info => {
                        inv("info", 0, false);
                        let (x, n) = hh.info();
                        put(json!({"e":"ret","t":t+1,"r":"ok","x":x,"n":n}));
                    }
                    Op::Drop => {
                        if sole {
                            unlock(&mut guard);
                            drop(hh);
                            inv("drop", 0, false);
                            hd.take().unwrap().close();
                            ret("ok");
                        }
                    }
                }
            }
            unlock(&mut guard);
            if sole {
                if let Some(hh) = hd.take() {
                    inv("drop", 0, false);
                    hh.close();
                    ret("ok");
                }
            }
        }));
    }
    // Handles used by one thread only are given away entirely
    let keep: Vec<Hnd> = handles
        .into_iter()
        .enumerate()
        .filter(|(i, _)| users[*i] != 1)
        .map(|x| x.1)
        .collect();
    let log2 = log.clone();
    let res = sched::run(
        bodies,
        strat,
        Box::new(move |_blocked| log2.lock().unwrap().push(json!({"e":"quiet"}))),
    );
    let mut ev = log.lock().unwrap().clone();
    if res.deadlock {
        ev.push(json!({"e":"deadlock"}));
        leak.store(true, Ordering::SeqCst);
        std::mem::forget(keep);
        std::mem::forget(shared);
        std::mem::forget(dev);
        return (ev, res);
    }
    if res.panicked {
        ev.push(json!({"e":"panic"}));
    }
    let (x, n) = {
        let s = shared.lock();
        (s.exclusive_lock(), s.num_shared_locks())
    };
    ev.push(json!({"e":"obs","x":x,"n":n,"can":[],"hx":[],"hs":[]}));
    drop(keep);
    (ev, res)
}

pub fn conc(args: &Args) {
    let mut out = Out::new(args.get("out").unwrap());
    let seed = args.num("seed", 1);
    let n = args.num("n", 1000);
    let dfs_runs = args.num("dfs", 200);
    let bound = args.num("bound", 2) as usize;
    let profile = args.num("profile", 0) as usize;
    // Work is shared by several processes
    let (part, parts) = (args.num("part", 0), args.num("parts", 1));
    let mut seen = std::collections::HashSet::new();
    let mut id = part * 1_000_000;
    let mut total = 0u64;
    let mut switches = 0u64;
    let mut deadlocks = 0;
    let mut emit = |conf: &Conf, ev: Vec<Value>, res: &sched::RunResult, drv: &str, out: &mut Out| {
        total += 1;
        switches += res.steps as u64;
        if res.deadlock {
            deadlocks += 1;
        }
        let key = serde_json::to_string(&ev).unwrap();
        if seen.insert(key) {
            id += 1;
            out.line(&json!({"id":id,"drv":drv,"prog":format!("{:?}", conf.progs),
                "sched":res.schedule.iter().map(|x| (b'0'+*x) as char).collect::<String>(),"ev":ev}));
        }
        deadlocks < 20
    };
    let variants = |progs: &Vec<Vec<Op>>, rng: &mut Rng| -> Conf {
        let n = progs.len();
        match rng.below(5) {
            0 => Conf { progs: progs.clone(), map: (0..n).collect(), remote: vec![true; n] },
            1 => {
                let remote = (0..n).map(|_| rng.chance(1, 2)).collect();
                Conf { progs: progs.clone(), map: (0..n).collect(), remote }
            }
            2 if n == 3 => {
                // Two threads share one remote handle
                Conf { progs: progs.clone(), map: vec![0, 1, 1], remote: vec![false, true] }
            }
            _ => Conf { progs: progs.clone(), map: (0..n).collect(), remote: vec![false; n] },
        }
    };
    'all: {
        // Preemption bounded depth first search over the templates
        let mut rng = Rng::new(seed);
        let ts = templates();
        for (i, t) in ts.iter().enumerate() {
            for rem in [false, true] {
                if (2 * i as u64 + rem as u64) % parts != part {
                    continue;
                }
                let k = t.len();
                let conf = Conf { progs: t.clone(), map: (0..k).collect(), remote: vec![rem; k] };
                // Few preemptions first: the search changes the last decisions first
                for b in 1..=bound {
                    let mut prefix: Vec<usize> = Vec::new();
                    for _ in 0..dfs_runs {
                        let (ev, res) = run_conc(
                            &conf,
                            Strategy::Dfs { prefix: prefix.clone(), taken: vec![], bound: b, preempts: 0 },
                        );
                        let taken = match &res.strategy {
                            Strategy::Dfs { taken, .. } => taken.clone(),
                            _ => unreachable!(),
                        };
                        if !emit(&conf, ev, &res, "dfs", &mut out) {
                            break 'all;
                        }
                        // Next prefix
                        let mut t = taken;
                        let mut next = None;
                        while let Some((pick, alts)) = t.pop() {
                            if pick + 1 < alts {
                                let mut p: Vec<usize> = t.iter().map(|x| x.0).collect();
                                p.push(pick + 1);
                                next = Some(p);
                                break;
                            }
                        }
                        match next {
                            Some(p) => prefix = p,
                            None => break,
                        }
                    }
                }
            }
        }
        // Random programs and schedules
        let mut rng = Rng::new(seed + part * 7919);
        for i in (part..n).step_by(parts as usize) {
            let progs: Vec<Vec<Op>> = if rng.chance(1, 3) {
                rng.pick(&ts).clone()
            } else {
                let k = 2 + rng.below(2);
                let pf = if profile == 9 { rng.below(4) } else { profile };
                (0..k)
                    .map(|_| {
                        let l = 2 + rng.below(4);
                        gen_program(&mut rng, l, pf)
                    })
                    .collect()
            };
            let conf = variants(&progs, &mut rng);
            let r2 = Rng::new(seed.wrapping_mul(1000003).wrapping_add(i));
            let strat = if rng.chance(1, 2) {
                let mut r = r2.clone();
                let k = progs.len();
                Strategy::Pct {
                    prio: (0..k).map(|_| r.below(8) as u32).collect(),
                    changes: (0..3).map(|_| 1 + r.below(60)).collect(),
                    rng: r,
                }
            } else {
                Strategy::Random { rng: r2, stay: rng.below(15) }
            };
            let (ev, res) = run_conc(&conf, strat);
            if !emit(&conf, ev, &res, "rand", &mut out) {
                break 'all;
            }
        }
    }
    out.flush();
    println!("{}", json!({"runs":total,"distinct":id - part * 1_000_000,"switches":switches,"deadlocks":deadlocks}));
}

/// Cycles of the specification, repeated under a counting allocator: nothing may be left behind
pub fn cycle(args: &Args) {
    let mut out = Out::new(args.get("out").unwrap());
    let reps = args.num("reps", 100) as usize;
    let seed = args.num("seed", 1);
    let (nh, np) = (args.num("nh", 3) as usize, args.num("np", 3) as usize);
    let mut id = 0;
    for line in std::fs::read_to_string(args.get("seqs").unwrap()).unwrap().lines() {
        let v: Value = serde_json::from_str(line).unwrap();
        let pre: Vec<Vec<Value>> = serde_json::from_value(v["pre"].clone()).unwrap();
        let cyc: Vec<Vec<Value>> = serde_json::from_value(v["cyc"].clone()).unwrap();
        id += 1;
        let mut s = Seq::new(nh, np, true, seed.wrapping_add(id));
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            for st in &pre {
                s.step(st);
            }
            s.ev.push(json!({"e":"mark"}));
            let k = s.ev.len();
            let mut grow = vec![];
            // Each window is longer than all before: containers which double grow in every one
            for w in 0..4 {
                let mut b0 = 0;
                let reps = [reps / 8, reps / 8, reps / 2, 2 * reps][w].max(2);
                for i in 0..reps {
                    s.rng = Rng::new(seed.wrapping_add(id));
                    for st in &cyc {
                        s.step(st);
                    }
                    if w > 0 || i > 0 {
                        s.ev.truncate(k);
                    }
                    if i == 0 {
                        // The first round decides where everything is kept
                        b0 = crate::live_bytes();
                    }
                }
                if w > 0 {
                    grow.push((crate::live_bytes() - b0) / (reps as i64 - 1));
                }
            }
            s.rng = Rng::new(seed.wrapping_add(id));
            for st in &cyc {
                s.step(st);
            }
            let g = (*grow.iter().min().unwrap()).max(0);
            s.ev.push(json!({"e":"mem","g":g}));
        }));
        let mut ev = std::mem::take(&mut s.ev);
        if res.is_err() {
            ev.push(json!({"e":"panic"}));
            std::mem::forget(s);
        }
        out.line(&json!({"id":id,"drv":"cycle","pre":pre,"cyc":cyc,"ev":ev}));
    }
    out.flush();
}
