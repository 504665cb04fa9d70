//! Raw socket and telnet servers over in-memory streams
use crate::mini::{self, log, pipe, Exec, PipeRef, Stream};
use crate::util::{bytes, Args, Out, Rng};
use futures::lock::{Mutex, OwnedMutexGuard};
use futures::AsyncReadExt;
use lxi_device::lock::{LockHandle, SharedLock, SharedLockError, SharedLockMode, SpinMutex};
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use serde_json::{json, Value};
use std::sync::Arc;

struct Dev {
    rng: Rng,
}

impl Device for Dev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        let n = self.rng.weighted(&[3, 3, 3, 3, 2, 1]);
        let n = if n == 5 { 1 + self.rng.below(200) } else { n };
        let wild = self.rng.chance(1, 2);
        let r: Vec<u8> = (0..n)
            .map(|_| if wild { *self.rng.pick(&[255u8, 255, 10, 13, 0, 254, 250, 97]) } else { self.rng.below(256) as u8 })
            .map(|b| if b == b'S' { b's' } else { b })
            .collect();
        let s = n > 0 || self.rng.chance(1, 2);
        log(json!({"e":"exec","c":mini::current(),"cmd":bytes(cmd),"s":s,"r":bytes(&r)}));
        s.then_some(r)
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        log(json!({"e":"call","op":"stb"}));
        Ok(0)
    }
    fn trigger(&mut self, _: Source) -> Result<(), DeviceError> {
        log(json!({"e":"call","op":"trig"}));
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        log(json!({"e":"call","op":"clear"}));
        Ok(())
    }
    fn set_remote(&mut self, _: bool) -> Result<(), DeviceError> {
        log(json!({"e":"call","op":"rem"}));
        Ok(())
    }
    fn set_local_lockout(&mut self, _: bool) {
        log(json!({"e":"call","op":"llo"}));
    }
}

#[derive(Clone, Copy)]
struct Cfg {
    tel: bool,
    rt: u8,
    wt: u8,
    /// Read buffer
    buf: usize,
}

struct Conn {
    rx: PipeRef,
    tx: PipeRef,
    got: Vec<u8>,
    slow: bool,
    gone: bool,
    half: bool,
    done: bool,
}

struct World {
    cfg: Vec<Cfg>,
    lock: Arc<SpinMutex<SharedLock>>,
    dev: Arc<Mutex<Dev>>,
    ext: Vec<LockHandle<Dev>>,
    held: Option<OwnedMutexGuard<Dev>>,
    conns: Vec<Option<Conn>>,
    exec: Exec,
    rng: Rng,
}

const PROMPT: &[u8] = b"SCPI> ";

/// What the client makes of the bytes: data, negotiations (1000 * verb + option); prompts and go
/// aheads are left out.  Also how many bytes that were.
fn tokens(tel: bool, b: &[u8], all: bool) -> Option<(Vec<u32>, usize)> {
    if !tel {
        return Some((b.iter().map(|b| *b as u32).collect(), b.len()));
    }
    let mut v = vec![];
    let mut i = 0;
    while i < b.len() {
        let r = &b[i..];
        if r.starts_with(PROMPT) {
            i += PROMPT.len();
        } else if !all && PROMPT.starts_with(r) {
            break;
        } else if r[0] != 255 {
            v.push(r[0] as u32);
            i += 1;
        } else if r.len() < 2 {
            break;
        } else {
            match r[1] {
                255 => {
                    v.push(255);
                    i += 2;
                }
                // Go ahead
                3 | 249 => i += 2,
                251..=254 => {
                    if r.len() < 3 {
                        break;
                    }
                    v.push(1000 * r[1] as u32 + r[2] as u32);
                    i += 3;
                }
                _ => return None,
            }
        }
    }
    Some((v, i))
}

fn raw(v: &Value) -> Vec<u8> {
    v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u8).collect()
}

impl World {
    fn new(cfg: Vec<Cfg>, seed: u64) -> Self {
        mini::seed(seed ^ 0x5555);
        let mut rng = Rng::new(seed);
        let lock = SharedLock::new();
        let dev = Arc::new(Mutex::new(Dev { rng: Rng::new(rng.next()) }));
        let ext = (0..2).map(|_| LockHandle::new(lock.clone(), dev.clone())).collect();
        let conns = cfg.iter().map(|_| None).collect();
        World { cfg, lock, dev, ext, held: None, conns, exec: Exec::default(), rng }
    }

    fn conn(&mut self, c: usize) {
        if self.conns[c - 1].is_some() {
            return;
        }
        log(json!({"e":"conn","c":c}));
        let rx = pipe(usize::MAX);
        let tx = pipe(*self.rng.pick(&[1, 3, 16, 300, 100_000]));
        let s = Stream { rx: rx.clone(), tx: tx.clone() };
        let cfg = self.cfg[c - 1];
        let (l, d) = (self.lock.clone(), self.dev.clone());
        if cfg.tel {
            let srv = lxi_telnet::server::ServerConfig::new(cfg.buf).build();
            self.exec.spawn(c, async move {
                let _ = srv.process_client(s, l, d, c).await;
            });
        } else {
            let srv = lxi_socket::server::ServerConfig::default()
                .read_buffer(cfg.buf)
                .read_termination(cfg.rt)
                .write_termination(cfg.wt)
                .build();
            let (r, w) = s.split();
            self.exec.spawn(c, async move {
                let _ = srv.process_client(r, w, l, d, c).await;
            });
        }
        self.conns[c - 1] = Some(Conn { rx, tx, got: vec![], slow: false, gone: false, half: false, done: false });
    }

    /// What clients receive and see; whether there was anything
    fn clients(&mut self, all: bool) -> bool {
        let mut p = false;
        for c in 1..=self.conns.len() {
            let n = if all || self.rng.chance(3, 4) { usize::MAX } else { 1 + self.rng.below(6) };
            let tel = self.cfg[c - 1].tel;
            let done = self.exec.done(c);
            let Some(k) = &mut self.conns[c - 1] else { continue };
            if !k.gone && !k.slow {
                let b = k.tx.lock().unwrap().take(n);
                p |= !b.is_empty();
                k.got.extend(b);
                match tokens(tel, &k.got, false) {
                    Some((v, n)) => {
                        k.got.drain(..n);
                        if !v.is_empty() {
                            log(json!({"e":"out","c":c,"b":v}));
                        }
                    }
                    None => {
                        log(json!({"e":"garbage","c":c,"b":bytes(&k.got)}));
                        self.exec.dead = true;
                        return false;
                    }
                }
            }
            if done && !k.done {
                k.done = true;
                p = true;
                log(json!({"e":"done","c":c}));
            }
        }
        p
    }

    fn polls(&mut self, n: usize) {
        for _ in 0..n {
            if !self.exec.step() {
                break;
            }
        }
    }

    fn settle(&mut self) {
        let start = self.exec.polls;
        loop {
            while self.exec.step() {
                if self.exec.polls - start > 60_000 {
                    log(json!({"e":"spin","c":0,"msg":"busy for ever"}));
                    self.exec.dead = true;
                }
                if self.rng.chance(1, 6) {
                    self.clients(false);
                }
            }
            if self.exec.dead || !self.clients(true) {
                return;
            }
        }
    }

    fn quiet(&mut self) {
        self.settle();
        if self.exec.dead {
            return;
        }
        let mut slow = vec![];
        for c in 1..=self.conns.len() {
            let Some(k) = &mut self.conns[c - 1] else { continue };
            if k.slow && !k.gone {
                slow.push(c);
            } else if !k.gone && !k.got.is_empty() {
                // Nothing more will come, so this is not a prompt
                match tokens(self.cfg[c - 1].tel, &k.got, true) {
                    Some((v, n)) if n == k.got.len() => {
                        k.got.clear();
                        log(json!({"e":"out","c":c,"b":v}));
                    }
                    _ => log(json!({"e":"garbage","c":c,"b":bytes(&k.got)})),
                }
            }
        }
        log(json!({"e":"quiet","slow":slow}));
    }

    fn go(&mut self, a: &Value) {
        if self.exec.dead {
            return;
        }
        let n = |i: usize| a[i].as_u64().unwrap() as usize;
        match a[0].as_str().unwrap() {
            "conn" => self.conn(n(1)),
            "feed" => {
                let c = n(1);
                let Some(k) = &mut self.conns[c - 1] else { return };
                let b = raw(&a[2]);
                if k.gone || k.half || k.done || b.is_empty() {
                    return;
                }
                log(json!({"e":"feed","c":c,"b":bytes(&b)}));
                k.rx.lock().unwrap().put(&b);
            }
            "half" => {
                let c = n(1);
                let Some(k) = &mut self.conns[c - 1] else { return };
                if k.gone || k.half || k.done {
                    return;
                }
                k.half = true;
                log(json!({"e":"half","c":c}));
                let mut r = k.rx.lock().unwrap();
                r.wclosed = true;
                r.wake();
            }
            "gone" => {
                let c = n(1);
                let Some(k) = &mut self.conns[c - 1] else { return };
                if k.gone || k.done {
                    return;
                }
                k.gone = true;
                log(json!({"e":"gone","c":c}));
                let mut r = k.rx.lock().unwrap();
                if self.rng.chance(1, 3) {
                    r.buf.clear();
                }
                r.wclosed = true;
                r.wake();
                drop(r);
                let mut t = k.tx.lock().unwrap();
                t.rclosed = true;
                t.wake();
            }
            "slow" => {
                if let Some(k) = &mut self.conns[n(1) - 1] {
                    k.slow = true
                }
            }
            "fast" => {
                if let Some(k) = &mut self.conns[n(1) - 1] {
                    k.slow = false
                }
            }
            "hold" => {
                if self.held.is_none() {
                    self.settle();
                    if self.exec.dead {
                        return;
                    }
                    match self.dev.try_lock_owned() {
                        Some(g) => {
                            log(json!({"e":"hold"}));
                            self.held = Some(g);
                        }
                        None => {
                            log(json!({"e":"busy"}));
                            self.exec.dead = true;
                        }
                    }
                }
            }
            "unhold" => {
                if self.held.is_some() {
                    log(json!({"e":"unhold"}));
                    self.held = None;
                }
            }
            "xacq" => {
                let x = n(1);
                let key = raw(&a[2]);
                let r = match self.ext[x - 1].try_acquire(&key) {
                    Ok(()) => "ok",
                    Err(SharedLockError::AlreadyLocked) => "already",
                    Err(_) => "refused",
                };
                log(json!({"e":"xacq","x":100+x,"k":bytes(&key),"r":r}));
            }
            "xrel" => {
                let x = n(1);
                let r = match self.ext[x - 1].try_release() {
                    Ok(SharedLockMode::Exclusive) => "excl",
                    Ok(SharedLockMode::Shared) => "shared",
                    Err(_) => "none",
                };
                log(json!({"e":"xrel","x":100+x,"r":r}));
            }
            "polls" => {
                self.polls(n(1));
                if self.rng.chance(1, 2) {
                    self.clients(false);
                }
            }
            "quiet" => self.quiet(),
            o => panic!("unknown step {o}"),
        }
    }

    fn finish(&mut self) {
        self.go(&json!(["unhold"]));
        for x in 1..=2 {
            self.go(&json!(["xrel", x]));
        }
        for c in 1..=self.conns.len() {
            self.go(&json!(["fast", c]));
        }
        self.go(&json!(["quiet"]));
        for c in 1..=self.conns.len() {
            let s = if self.rng.chance(1, 2) { "half" } else { "gone" };
            self.go(&json!([s, c]));
        }
        self.go(&json!(["quiet"]));
    }

    fn end(mut self) {
        if self.exec.dead {
            std::mem::forget(self);
        } else {
            self.held = None;
        }
    }

    fn cfg(&self) -> Value {
        self.cfg.iter().map(|c| json!({"tel":c.tel,"rt":c.rt,"wt":c.wt})).collect()
    }
}

/// Some bytes of a client
fn speech(rng: &mut Rng, tel: bool, rt: u8) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..1 + rng.below(8) {
        if !tel {
            match rng.below(10) {
                0..=3 => b.push(rt),
                4 => b.extend([13, rt]),
                5 => b.push(rng.below(256) as u8),
                6 if rng.chance(1, 8) => b.extend(vec![rng.below(256) as u8; 200]),
                _ => b.push(*rng.pick(&[97, 98, 10, 13, 0, 255, 32])),
            }
            continue;
        }
        match rng.below(16) {
            0 | 1 => b.extend([13, 10]),
            2 | 3 => b.push(10),
            4 => b.push(13),
            5 => b.extend([255, 255]),
            6 => b.extend([255, 247]),
            7 => b.extend([255, *rng.pick(&[241, 242, 244, 246, 248, 248, 249])]),
            8 | 9 => {
                b.extend([255, 251 + rng.below(4) as u8, *rng.pick(&[0, 1, 1, 1, 3, 24, 34, 86, 255, 254, 10])])
            }
            10 if rng.chance(1, 2) => {
                b.extend([255, 250, *rng.pick(&[0, 1, 24, 86])]);
                for _ in 0..rng.below(4) {
                    match rng.below(4) {
                        0 => b.extend([255, 255]),
                        _ => b.push(*rng.pick(&[0, 1, 10, 13, 97, 240, 250, 86])),
                    }
                }
                b.extend([255, 240]);
            }
            11 if rng.chance(1, 8) => b.extend(vec![*rng.pick(&[97, 13, 0, 240]); 150]),
            12 => {
                let x = rng.below(255) as u8;
                b.push(if x == b'S' { 0 } else { x });
            }
            _ => b.push(*rng.pick(&[97, 98, 99, 32, 0, 8, 127])),
        }
    }
    b
}

fn random_run(seed: u64, prof: &str, len: usize) -> Value {
    let mut rng = Rng::new(seed ^ 0x77);
    let n = 1 + rng.below(3);
    let cfg: Vec<Cfg> = (0..n)
        .map(|_| {
            let tel = match prof {
                "raw" => false,
                "tel" => true,
                _ => rng.chance(1, 2),
            };
            let (rt, wt) = if rng.chance(1, 2) { (10, 10) } else { (*rng.pick(&[10, 13, 0, 3]), *rng.pick(&[10, 13, 0])) };
            Cfg { tel, rt, wt, buf: *rng.pick(&[1, 2, 7, 64, 1024]) }
        })
        .collect();
    let locky = rng.chance(1, 2);
    let mut w = World::new(cfg.clone(), seed);
    let mut pending: Vec<Vec<u8>> = vec![vec![]; n];
    for c in 1..=n {
        if rng.chance(2, 3) {
            w.go(&json!(["conn", c]));
        }
    }
    for _ in 0..len {
        let c = 1 + rng.below(n);
        let st = match rng.weighted(&[10, 8, 1, 1, 2, 2, if locky { 5 } else { 0 }, if locky { 2 } else { 0 }, 2, 1]) {
            0 => {
                // What is sent at once has nothing to do with lines and commands
                let p = &mut pending[c - 1];
                if p.len() < 12 {
                    p.extend(speech(&mut rng, cfg[c - 1].tel, cfg[c - 1].rt));
                }
                let k = 1 + rng.below(p.len());
                let b: Vec<u8> = p.drain(..k).collect();
                json!(["feed", c, b])
            }
            1 => json!(["polls", 1 + rng.below(12)]),
            2 if rng.chance(1, 3) => json!(["half", c]),
            3 if rng.chance(1, 3) => json!(["gone", c]),
            4 => json!(["conn", c]),
            5 => json!([if rng.chance(1, 3) { "slow" } else { "fast" }, c]),
            6 => {
                if rng.chance(1, 2) {
                    json!(["xrel", 1 + rng.below(2)])
                } else {
                    json!(["xacq", 1 + rng.below(2), *rng.pick(&[&[][..], &[], &[65], &[66]])])
                }
            }
            7 => json!([if rng.chance(1, 2) { "hold" } else { "unhold" }]),
            8 => json!(["quiet"]),
            _ => json!(["polls", 100]),
        };
        w.go(&st);
    }
    w.finish();
    let v = json!({"cfg": w.cfg(), "ev": mini::take_log()});
    w.end();
    v
}

/// Behaviours of the specification; how bytes are put together is up to us
fn replay(seed: u64, v: &Value) -> Value {
    let mut rng = Rng::new(seed ^ 0x99);
    let cfg: Vec<Cfg> = v["cfg"]
        .as_array()
        .unwrap()
        .iter()
        .map(|c| Cfg {
            tel: c["tel"].as_bool().unwrap(),
            rt: c["rt"].as_u64().unwrap() as u8,
            wt: c["wt"].as_u64().unwrap() as u8,
            buf: *rng.pick(&[1, 2, 64]),
        })
        .collect();
    let mut w = World::new(cfg, seed);
    for c in 1..=w.conns.len() {
        w.go(&json!(["conn", c]));
    }
    let mut acc: Option<(usize, Vec<u8>)> = None;
    let flush = |w: &mut World, acc: &mut Option<(usize, Vec<u8>)>| {
        if let Some((c, b)) = acc.take() {
            w.go(&json!(["feed", c, b]));
        }
    };
    for s in v["steps"].as_array().unwrap() {
        if s[0] == "feed" {
            let c = s[1].as_u64().unwrap() as usize;
            let b = raw(&s[2]);
            match &mut acc {
                Some((d, v)) if *d == c => v.extend(b),
                _ => {
                    flush(&mut w, &mut acc);
                    acc = Some((c, b));
                }
            }
            if rng.chance(1, 2) {
                flush(&mut w, &mut acc);
                if rng.chance(2, 3) {
                    w.go(&json!(["polls", 1 + rng.below(30)]));
                }
            }
            continue;
        }
        flush(&mut w, &mut acc);
        w.go(s);
        if rng.chance(1, 3) {
            w.go(&json!(["quiet"]));
        }
    }
    flush(&mut w, &mut acc);
    w.finish();
    let v = json!({"cfg": w.cfg(), "ev": mini::take_log()});
    w.end();
    v
}

pub fn run(args: &Args) {
    mini::arm();
    let mut out = Out::new(args.get("out").unwrap());
    let seed = args.num("seed", 1);
    let mut id = 0;
    if let Some(f) = args.get("seqs") {
        for line in std::fs::read_to_string(f).unwrap().lines() {
            id += 1;
            let mut v = replay(seed.wrapping_mul(1_000_003) + id as u64, &serde_json::from_str(line).unwrap());
            v["id"] = json!(id);
            out.line(&v);
            out.flush();
        }
    }
    let profs: Vec<String> = args.str("prof", "raw,tel,mix").split(',').map(|s| s.to_string()).collect();
    for i in 0..args.num("n", 0) {
        id += 1;
        let p = &profs[i as usize % profs.len()];
        let mut v = random_run(seed.wrapping_mul(7_000_003).wrapping_add(i), p, args.num("len", 25) as usize);
        v["id"] = json!(id);
        v["drv"] = json!(p);
        out.line(&v);
        out.flush();
    }
}
