//! Drivers for the status broadcast (lxi-device::status).
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::{Arc, Mutex as StdMutex};
use std::task::{Context, Poll, Wake, Waker};

use futures::StreamExt;
use lxi_device::status::{Receiver, Sender};
use serde_json::{json, Value};

use crate::sched::{self, Strategy};
use crate::util::{Args, Out, Rng};

const EMPTY: u64 = 999;
/// The end of everything
const END: u64 = 998;

struct Flag(AtomicBool);
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.0.store(true, Ordering::SeqCst)
    }
}

fn inv(t: usize, op: &str, r: usize, v: u64) -> Value {
    json!({"e":"inv","t":t,"op":op,"r":r,"v":v})
}
fn ret(t: usize, v: u64) -> Value {
    json!({"e":"ret","t":t,"v":v})
}

struct Seq {
    tx: Vec<Sender>,
    rx: Vec<Option<Receiver>>,
    /// Process waiting for the next value of a receiver
    wait: Vec<Option<(usize, Arc<Flag>)>>,
    next: u64,
    ev: Vec<Value>,
    rng: Rng,
}

impl Seq {
    fn new(subs: usize, procs: usize, seed: u64) -> Self {
        Seq {
            tx: vec![Sender::new()],
            rx: (0..subs).map(|_| None).collect(),
            wait: (0..procs).map(|_| None).collect(),
            next: [0, 1, 127, 250, 255][seed as usize % 5],
            ev: vec![],
            rng: Rng::new(seed),
        }
    }
    fn poll(&mut self, p: usize) {
        let Some((r, flag)) = self.wait[p].clone() else { return };
        flag.0.store(false, Ordering::SeqCst);
        let waker: Waker = flag.into();
        let mut cx = Context::from_waker(&waker);
        if let Poll::Ready(x) = self.rx[r].as_mut().unwrap().poll_next_unpin(&mut cx) {
            self.wait[p] = None;
            self.ev.push(ret(p + 1, x.map_or(END, |v| v as u64)));
        }
    }
    fn run_woken(&mut self) {
        loop {
            let w: Vec<usize> = (0..self.wait.len())
                .filter(|p| self.wait[*p].as_ref().map_or(false, |x| x.1 .0.load(Ordering::SeqCst)))
                .collect();
            if w.is_empty() {
                self.ev.push(json!({"e":"quiet"}));
                return;
            }
            let p = *self.rng.pick(&w);
            self.poll(p);
        }
    }
    fn step(&mut self, st: &[Value]) -> bool {
        let a = |i: usize| st[i].as_u64().unwrap() as usize;
        match st[0].as_str().unwrap() {
            "pub" => {
                if self.tx.is_empty() {
                    return false;
                }
                if self.wait[0].is_some() {
                    return false;
                }
                let v = self.next;
                if !self.rng.chance(1, 6) {
                    self.next = (self.next + 1) % 256;
                }
                self.ev.push(inv(1, "pub", 0, v));
                let i = self.rng.below(self.tx.len());
                self.tx[i].send_status(v as u8);
                if self.rng.chance(1, 8) {
                    let c = self.tx[i].clone();
                    self.tx.push(c);
                }
                self.ev.push(ret(1, 0));
            }
            "droptx" => {
                if self.tx.is_empty() || self.wait[0].is_some() {
                    return false;
                }
                self.ev.push(inv(1, "droptx", 0, 0));
                self.tx.clear();
                self.ev.push(ret(1, 0));
            }
            k @ ("sub" | "recv" | "try" | "close" | "shut") => {
                let (p, r) = (a(1) - 1, a(2) - 1);
                if self.wait[p].is_some() || self.wait.iter().flatten().any(|w| w.0 == r) {
                    return false;
                }
                if k == "sub" {
                    if self.rx[r].is_some() || self.tx.is_empty() {
                        return false;
                    }
                    self.ev.push(inv(p + 1, k, r + 1, 0));
                    let i = self.rng.below(self.tx.len());
                    self.rx[r] = Some(self.tx[i].get_new_receiver());
                    self.ev.push(ret(p + 1, 0));
                } else {
                    if self.rx[r].is_none() {
                        return false;
                    }
                    self.ev.push(inv(p + 1, k, r + 1, 0));
                    match k {
                        "recv" => {
                            self.wait[p] = Some((r, Arc::new(Flag(AtomicBool::new(true)))));
                            self.poll(p);
                        }
                        "try" => {
                            let v = match self.rx[r].as_mut().unwrap().try_next() {
                                Ok(Some(v)) => v as u64,
                                Ok(None) => END,
                                Err(_) => EMPTY,
                            };
                            self.ev.push(ret(p + 1, v));
                        }
                        "shut" => {
                            self.rx[r].as_mut().unwrap().close();
                            self.ev.push(ret(p + 1, 0));
                        }
                        _ => {
                            self.rx[r] = None;
                            self.ev.push(ret(p + 1, 0));
                        }
                    }
                }
            }
            "cancel" => {
                let p = a(1) - 1;
                if self.wait[p].take().is_none() {
                    return false;
                }
                self.ev.push(json!({"e":"cancel","t":p+1}));
            }
            x => panic!("bad op {x}"),
        }
        self.run_woken();
        true
    }
    /// Take everything that is left
    fn finish(&mut self) {
        for p in 0..self.wait.len() {
            self.step(&[json!("cancel"), json!(p + 1)]);
        }
        for r in 0..self.rx.len() {
            for _ in 0..4 {
                self.step(&[json!("try"), json!(1), json!(r + 1)]);
            }
        }
    }
    fn close(&mut self) {
        for p in 0..self.wait.len() {
            self.step(&[json!("cancel"), json!(p + 1)]);
        }
        for r in 0..self.rx.len() {
            self.step(&[json!("close"), json!(1), json!(r + 1)]);
        }
    }
}

fn random_step(rng: &mut Rng, subs: usize, procs: usize) -> Vec<Value> {
    let p = rng.below(procs) + 1;
    let r = rng.below(subs) + 1;
    match rng.weighted(&[8, 3, 4, 5, 2, 1, 1]) {
        0 => vec![json!("pub")],
        1 => vec![json!("sub"), json!(p), json!(r)],
        2 => vec![json!("recv"), json!(p), json!(r)],
        3 => vec![json!("try"), json!(p), json!(r)],
        4 => vec![json!("close"), json!(p), json!(r)],
        5 => vec![json!("shut"), json!(p), json!(r)],
        _ => vec![json!("cancel"), json!(p)],
    }
}

fn seq(args: &Args, out: &mut Out, id: &mut usize) {
    let seed = args.num("seed", 1);
    let mut run = |steps: &mut dyn FnMut(usize, &mut Rng) -> Option<Vec<Value>>, subs, procs, out: &mut Out| {
        *id += 1;
        let mut s = Seq::new(subs, procs, seed ^ ((*id as u64) << 24));
        let mut rng = Rng::new(seed.wrapping_mul(77) + *id as u64);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let mut i = 0;
            while let Some(st) = steps(i, &mut rng) {
                s.step(&st);
                i += 1;
            }
            s.finish();
        }));
        if r.is_err() {
            s.ev.push(json!({"e":"panic"}));
        }
        out.line(&json!({"id":*id,"drv":"seq","ev":s.ev}));
    };
    if let Some(f) = args.get("seqs") {
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let v: Vec<Value> = serde_json::from_str(line).unwrap();
            run(&mut |i, _| v.get(i).map(|x| x.as_array().unwrap().clone()), 3, 2, out);
        }
    }
    for _ in 0..args.num("n", 0) {
        run(
            &mut |i, rng| if i < 40 { Some(random_step(rng, 8, 4)) } else { None },
            8,
            4,
            out,
        );
    }
}

/// Repeat a history many times: nothing may be left behind
fn cycles(args: &Args, out: &mut Out, id: &mut usize) {
    let seed = args.num("seed", 1);
    for c in 0..args.num("cycles", 0) {
        *id += 1;
        let mut rng = Rng::new(seed.wrapping_mul(313) + c);
        let mut s = Seq::new(8, 4, seed + c);
        // Some subscribers stay, and do not keep up
        let keep = rng.below(3);
        for r in 0..keep {
            s.step(&[json!("sub"), json!(1), json!(r + 1)]);
        }
        let n = 1 + rng.below(8);
        let steps: Vec<Vec<Value>> = (0..n)
            .map(|_| random_step(&mut rng, 8, 4))
            .filter(|s| s.len() < 3 || s[2].as_u64().unwrap() as usize > keep)
            .collect();
        let reps = args.num("reps", 300);
        let mut grow = vec![];
        let mut ev = vec![];
        // Growth of containers which double shows in every window
        for w in 0..4 {
            let b0 = crate::live_bytes();
            let reps = [reps / 20, reps / 20, reps / 5, 4 * reps / 5][w].max(1);
            for _ in 0..reps {
                s.rng = Rng::new(5);
                s.tx.truncate(1);
                for st in &steps {
                    s.step(st);
                }
                for p in 0..4 {
                    s.step(&[json!("cancel"), json!(p + 1)]);
                }
                for r in keep..8 {
                    s.step(&[json!("close"), json!(1), json!(r + 1)]);
                }
                s.tx.truncate(1);
                s.ev = vec![];
            }
            if w > 0 {
                grow.push((crate::live_bytes() - b0) / reps as i64);
            }
        }
        // One more, recorded
        for st in &steps {
            s.step(st);
        }
        s.close();
        ev.append(&mut s.ev);
        let g = (*grow.iter().min().unwrap()).max(0);
        out.line(&json!({"id":*id,"drv":"cycle","ev":[{"e":"mem","g":g}],"hist":steps,"kept":keep}));
    }
}

fn conc(args: &Args, out: &mut Out, id: &mut usize) {
    let seed = args.num("seed", 1);
    let mut seen = std::collections::HashSet::new();
    let mut switches = 0usize;
    let mut runs = 0usize;
    for c in 0..args.num("conc", 0) {
        let mut rng = Rng::new(seed.wrapping_mul(911) + c);
        let log: Arc<StdMutex<Vec<Value>>> = Default::default();
        let tx = Sender::new();
        let np = 2 + rng.below(2);
        let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
        let sid = Arc::new(StdMutex::new(0usize));
        let val = Arc::new(StdMutex::new(*rng.pick(&[0u64, 126, 250, 255])));
        for t in 1..=np {
            let log = log.clone();
            let mut tx = tx.clone();
            let mut rng = Rng::new(rng.next());
            let sid = sid.clone();
            let val = val.clone();
            let kind = if t == 1 { 0 } else { rng.below(3) };
            bodies.push(Box::new(move || {
                let put = |v: Value| log.lock().unwrap().push(v);
                let mut publish = |tx: &mut Sender| {
                    let v = {
                        let mut g = val.lock().unwrap();
                        *g = (*g + 1) % 256;
                        *g
                    };
                    put(inv(t, "pub", 0, v));
                    tx.send_status(v as u8);
                    put(ret(t, 0));
                };
                let fresh = || {
                    let mut g = sid.lock().unwrap();
                    *g += 1;
                    *g
                };
                if kind == 0 {
                    for _ in 0..1 + rng.below(3) {
                        publish(&mut tx);
                        sched::point();
                    }
                    return;
                }
                for _ in 0..1 + rng.below(2) {
                    let r = fresh();
                    if r > 8 {
                        return;
                    }
                    put(inv(t, "sub", r, 0));
                    let mut rx = tx.get_new_receiver();
                    put(ret(t, 0));
                    for _ in 0..1 + rng.below(4) {
                        match rng.below(6) {
                            0 => publish(&mut tx),
                            1 | 2 => {
                                put(inv(t, "try", r, 0));
                                let v = match rx.try_next() {
                                    Ok(Some(v)) => v as u64,
                                    Ok(None) => END,
                                    Err(_) => EMPTY,
                                };
                                put(ret(t, v));
                            }
                            _ => {
                                put(inv(t, "recv", r, 0));
                                let imp = rng.chance(1, 3);
                                let x = {
                                    let mut f = rx.next();
                                    let p = Pin::new(&mut f);
                                    wait(p, imp)
                                };
                                match x {
                                    Some(v) => put(ret(t, v.map_or(END, |v| v as u64))),
                                    None => put(json!({"e":"cancel","t":t})),
                                }
                            }
                        }
                        sched::point();
                    }
                    put(inv(t, "close", r, 0));
                    drop(rx);
                    put(ret(t, 0));
                }
            }));
        }
        let strat = if rng.chance(1, 2) {
            let mut r = Rng::new(rng.next());
            Strategy::Pct {
                prio: (0..np).map(|_| r.below(8) as u32).collect(),
                changes: (0..3).map(|_| 1 + r.below(40)).collect(),
                rng: r,
            }
        } else {
            Strategy::Random { rng: Rng::new(rng.next()), stay: rng.below(15) }
        };
        let log2 = log.clone();
        let res = sched::run(bodies, strat, Box::new(move |_| log2.lock().unwrap().push(json!({"e":"quiet"}))));
        let mut ev = log.lock().unwrap().clone();
        if res.deadlock {
            ev.push(json!({"e":"deadlock"}));
            std::mem::forget(tx);
        }
        if res.panicked {
            ev.push(json!({"e":"panic"}));
        }
        switches += res.steps;
        runs += 1;
        if seen.insert(serde_json::to_string(&ev).unwrap()) {
            *id += 1;
            out.line(&json!({"id":*id,"drv":"conc","ev":ev}));
        }
    }
    println!("{}", json!({"runs":runs,"switches":switches}));
}

fn wait<F: Future>(f: Pin<&mut F>, imp: bool) -> Option<F::Output> {
    sched::block_on(f, imp)
}

pub fn run(args: &Args) {
    let mut out = Out::new(args.get("out").unwrap());
    let mut id = 0;
    seq(args, &mut out, &mut id);
    cycles(args, &mut out, &mut id);
    conc(args, &mut out, &mut id);
    out.flush();
}
