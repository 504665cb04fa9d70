//! Driver for the HiSLIP server: random and generated histories over in-memory connections.
use std::collections::VecDeque;
use std::sync::Arc;
use std::time::{Duration, Instant};

use futures::lock::{Mutex, OwnedMutexGuard};
use lxi_device::lock::{LockHandle, SharedLock, SharedLockError, SharedLockMode, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use lxi_hislip::server::{Server, ServerBuilder, ServerConfig};
use serde_json::{json, Value};

use crate::mini::{self, current, log, pipe, Exec, PipeRef, Stream};
use crate::util::{bytes, Args, Out, Rng};

const DEFAULT: &str = "hislip0";

/// Records every call together with the connection on whose behalf it is made
pub struct Dev {
    pub idx: usize,
    pub rng: Rng,
    pub maxresp: usize,
}

impl Device for Dev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        let n = match self.rng.below(6) {
            0 | 1 => 0,
            2 => self.rng.below(4),
            // Around sizes which matter somewhere
            3 if self.maxresp > 100 => *self.rng.pick(&[127, 128, 255, 256, 257, 300]),
            _ => 1 + self.rng.below(self.maxresp.min(80)),
        };
        let r: Vec<u8> = (0..n).map(|_| self.rng.below(256) as u8).collect();
        log(json!({"e":"exec","c":current(),"dev":self.idx,"cmd":bytes(cmd),"r":bytes(&r)}));
        if r.is_empty() && self.rng.chance(1, 2) {
            None
        } else {
            Some(r)
        }
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        let v = self.rng.below(256) as u8;
        if self.rng.chance(1, 12) {
            log(json!({"e":"call","c":current(),"dev":self.idx,"op":"stb","arg":false,"v":0}));
            return Err(DeviceError::IoError);
        }
        log(json!({"e":"call","c":current(),"dev":self.idx,"op":"stb","arg":false,"v":v}));
        Ok(v)
    }
    fn trigger(&mut self, _: Source) -> Result<(), DeviceError> {
        log(json!({"e":"trig","c":current(),"dev":self.idx}));
        if self.rng.chance(1, 8) {
            return Err(DeviceError::IoError);
        }
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        log(json!({"e":"clear","c":current(),"dev":self.idx}));
        if self.rng.chance(1, 8) {
            return Err(DeviceError::NotSupported);
        }
        Ok(())
    }
    fn set_remote(&mut self, remote: bool) -> Result<(), DeviceError> {
        let v = self.rng.weighted(&[10, 1, 1]);
        log(json!({"e":"call","c":current(),"dev":self.idx,"op":"rem","arg":remote,"v":v}));
        match v {
            0 => Ok(()),
            1 => Err(DeviceError::NotSupported),
            _ => Err(DeviceError::IoError),
        }
    }
    fn set_local_lockout(&mut self, enable: bool) {
        log(json!({"e":"call","c":current(),"dev":self.idx,"op":"llo","arg":enable,"v":0}));
    }
}

/// Bytes still to be sent; the event is due once `at` bytes are out
struct Part {
    data: Vec<u8>,
    at: usize,
    ev: Value,
    pos: usize,
    /// The end of the payload is another event
    more: bool,
    /// The payload never ends
    stuck: bool,
}

struct Conn {
    to: PipeRef,
    from: PipeRef,
    inbuf: Vec<u8>,
    queue: VecDeque<Part>,
    slow: bool,
    shut: bool,
    gone: bool,
    eof: bool,
    /// What the client believes
    role: &'static str,
    sess: usize,
    /// Session identifier (synchronous connections)
    sid: Option<u16>,
    proto: u16,
    has_async: usize,
    /// Outstanding asynchronous requests: (is a lock request with timeout, when, timeout)
    reqs: VecDeque<Option<(Instant, u64)>>,
    clearing: bool,
    /// In the middle of a payload which never ends
    stuck: bool,
}

struct Cfg {
    maxs: usize,
    overlap: bool,
    idn: Vec<u8>,
    vendor: u16,
    max: u64,
    subs: Vec<String>,
    cap: usize,
    maxresp: usize,
}

struct World {
    cfg: Cfg,
    server: Arc<Server<Dev>>,
    locks: Vec<Arc<SpinMutex<SharedLock>>>,
    devs: Vec<Arc<Mutex<Dev>>>,
    srq: StatusSender,
    ext: Vec<(usize, LockHandle<Dev>)>,
    held: Vec<Option<OwnedMutexGuard<Dev>>>,
    conns: Vec<Conn>,
    exec: Exec,
    rng: Rng,
    maxconns: usize,
    stalled: bool,
    steps: Vec<Value>,
}

fn be64(v: u64) -> Vec<u8> {
    v.to_be_bytes().to_vec()
}

impl World {
    fn new(cfg: Cfg, seed: u64, maxconns: usize) -> Self {
        mini::seed(seed ^ 0x5555);
        let mut rng = Rng::new(seed);
        let mut sc = ServerConfig::default()
            .vendor_id(cfg.vendor)
            .max_message_size(cfg.max)
            .max_num_sessions(cfg.maxs);
        sc = if cfg.overlap { sc.prefer_overlap() } else { sc.prefer_synchronized() };
        if !cfg.idn.is_empty() {
            sc = sc.short_idn(&cfg.idn);
        }
        let mut b = ServerBuilder::new(sc);
        let mut locks = vec![];
        let mut devs = vec![];
        for (i, s) in cfg.subs.iter().enumerate() {
            let l = SharedLock::new();
            let d = Arc::new(Mutex::new(Dev { idx: i + 1, rng: Rng::new(rng.next()), maxresp: cfg.maxresp }));
            b = b.device(s.clone(), d.clone(), l.clone());
            locks.push(l);
            devs.push(d);
        }
        let ext = (0..2)
            .map(|i| {
                let d = i % devs.len();
                (d, LockHandle::new(locks[d].clone(), devs[d].clone()))
            })
            .collect();
        World {
            server: b.build(),
            held: devs.iter().map(|_| None).collect(),
            locks,
            devs,
            srq: StatusSender::new(),
            ext,
            conns: vec![],
            exec: Exec::default(),
            rng,
            maxconns,
            cfg,
            stalled: false,
            steps: vec![],
        }
    }

    fn cfg_json(&self) -> Value {
        let d = |b: &[u8]| bytes(b);
        json!({"maxs": self.cfg.maxs, "overlap": self.cfg.overlap as u8, "idn": d(&self.cfg.idn),
               "vendor": self.cfg.vendor, "def": d(DEFAULT.as_bytes()),
               "sub": self.cfg.subs.iter().map(|s| d(s.as_bytes())).collect::<Vec<_>>(),
               "maxd": d(&be64(self.cfg.max))})
    }

    fn connect(&mut self) -> usize {
        let c = self.conns.len() + 1;
        let cap = if self.rng.chance(1, 3) { 1 + self.rng.below(24) } else { self.cfg.cap };
        let (to, from) = (pipe(usize::MAX), pipe(cap));
        log(json!({"e":"conn","c":c}));
        let s = self.server.clone();
        let rx = self.srq.get_new_receiver();
        let stream = Stream { rx: to.clone(), tx: from.clone() };
        self.exec.spawn(c, async move {
            let _ = s.verif_handle_session(format!("c{c}"), stream, rx).await;
        });
        self.conns.push(Conn {
            to,
            from,
            inbuf: vec![],
            queue: VecDeque::new(),
            slow: false,
            shut: false,
            gone: false,
            eof: false,
            role: "new",
            sess: 0,
            sid: None,
            proto: 0,
            has_async: 0,
            reqs: VecDeque::new(),
            clearing: false,
            stuck: false,
        });
        c
    }

    /// Queue a message; how: "" regular, "bad" prologue, "big" payload beyond the maximum
    fn message(&mut self, c: usize, t: u8, cc: u8, ph: u16, pl: u16, d: &[u8], x: &str, claim: u64) {
        let mut b = vec![b'H', b'S', t, cc];
        b.extend(ph.to_be_bytes());
        b.extend(pl.to_be_bytes());
        b.extend(be64(if x == "big" { claim } else { d.len() as u64 }));
        let mut at = 16 + d.len();
        if x == "bad" {
            match self.rng.below(4) {
                0 => b[0] = b'h',
                1 => b[1] = 0,
                2 => {
                    b[0] = b'S';
                    b[1] = b'H'
                }
                _ => b[0] = self.rng.below(72) as u8,
            }
            at = 16;
        }
        if x == "big" {
            at = 16;
        }
        b.extend(d);
        let u = std::str::from_utf8(d).is_ok();
        let dd: &[u8] = if x.is_empty() { d } else { &[] };
        // Complete once its payload is
        let more = x == "big";
        let stuck = x == "big" && claim > d.len() as u64;
        let x = if x == "big" { "huge" } else { x };
        let ev = json!({"e":"send","c":c,"t":t,"cc":cc,"ph":ph,"pl":pl,"d":bytes(dd),"x":x,"u":u});
        self.conns[c - 1].queue.push_back(Part { data: b, at, ev, pos: 0, more, stuck });
    }

    /// Send up to n queued bytes
    fn flush(&mut self, c: usize, mut n: usize) {
        let k = &mut self.conns[c - 1];
        if k.shut || k.gone || k.stuck {
            k.queue.clear();
            return;
        }
        while n > 0 {
            let Some(p) = k.queue.front_mut() else { return };
            let m = n.min(p.data.len() - p.pos);
            let upto = p.pos + m;
            if p.pos < p.at && upto >= p.at {
                let e = p.ev.clone();
                if k.role == "async" && e["x"] == "" {
                    let t = e["t"].as_u64().unwrap();
                    if t != 2 && t != 3 {
                        let to = (e["ph"].as_u64().unwrap() << 16) + e["pl"].as_u64().unwrap();
                        k.reqs.push_back(
                            (t == 4 && e["cc"] != 0 && to > 0 && e["u"] == true).then(|| (Instant::now(), to)),
                        );
                    }
                } else if k.role == "async" {
                    k.reqs.push_back(None);
                }
                log(e);
            }
            k.to.lock().unwrap().put(&p.data[p.pos..upto]);
            p.pos = upto;
            n -= m;
            if p.pos == p.data.len() {
                if p.stuck {
                    k.stuck = true;
                    k.queue.clear();
                    return;
                }
                if p.more {
                    log(json!({"e":"full","c":c}));
                }
                k.queue.pop_front();
            }
        }
    }

    /// Read what the server sent to one client
    fn read(&mut self, c: usize) -> bool {
        let part = self.rng.chance(1, 4);
        let k = &mut self.conns[c - 1];
        if k.gone || k.eof {
            return false;
        }
        let n = if part { 1 + self.rng.below(20) } else { usize::MAX };
        let (b, closed) = {
            let mut p = k.from.lock().unwrap();
            let b = p.take(n);
            (b, p.wclosed && p.buf.is_empty())
        };
        let progress = !b.is_empty() || closed;
        k.inbuf.extend(b);
        loop {
            if k.inbuf.len() < 16 {
                break;
            }
            let len = u64::from_be_bytes(k.inbuf[8..16].try_into().unwrap());
            if &k.inbuf[..2] != b"HS" || len > 1 << 20 {
                log(json!({"e":"garbage","c":c,"d":bytes(&k.inbuf)}));
                k.inbuf.clear();
                break;
            }
            if k.inbuf.len() < 16 + len as usize {
                break;
            }
            let m: Vec<u8> = k.inbuf.drain(..16 + len as usize).collect();
            let (t, cc) = (m[2], m[3]);
            let ph = u16::from_be_bytes([m[4], m[5]]);
            let pl = u16::from_be_bytes([m[6], m[7]]);
            if k.role == "async" && t != 20 && t != 2 && t != 18 {
                if let Some(Some((at, to))) = k.reqs.pop_front() {
                    if t == 5 && cc == 0 && at.elapsed() < Duration::from_millis(to) {
                        log(json!({"e":"early","c":c}));
                    }
                }
            }
            let d: &[u8] = if t == 2 || t == 3 { &[] } else { &m[16..] };
            if t == 1 && k.role == "sync" {
                k.sid = Some(pl);
                k.proto = ph;
            }
            if t == 9 || t == 3 {
                k.clearing = false;
            }
            log(json!({"e":"recv","c":c,"t":t,"cc":cc,"ph":ph,"pl":pl,"d":bytes(d)}));
        }
        if closed {
            k.eof = true;
            if !k.inbuf.is_empty() {
                log(json!({"e":"truncated","c":c,"d":bytes(&k.inbuf)}));
            }
            log(json!({"e":"eof","c":c}));
        }
        progress
    }

    fn clients(&mut self) -> bool {
        let mut p = false;
        let mut order: Vec<usize> = (1..=self.conns.len()).collect();
        for i in (1..order.len()).rev() {
            let j = self.rng.below(i + 1);
            order.swap(i, j);
        }
        for c in order {
            let k = &self.conns[c - 1];
            if k.gone && !k.eof {
                if self.exec.done(c) {
                    self.conns[c - 1].eof = true;
                    log(json!({"e":"eof","c":c}));
                    p = true;
                }
            } else if !k.slow {
                p |= self.read(c);
            }
        }
        p
    }

    fn polls(&mut self, n: usize) {
        for _ in 0..n {
            if !self.exec.step() {
                break;
            }
        }
    }

    /// Until nothing happens any more
    fn settle(&mut self) {
        let start = self.exec.polls;
        loop {
            while self.exec.step() {
                if self.exec.polls - start > 100_000 {
                    log(json!({"e":"spin","c":0,"msg":"busy for ever"}));
                    self.exec.dead = true;
                }
                if self.rng.chance(1, 6) {
                    self.clients();
                }
            }
            if self.exec.dead || !self.clients() {
                return;
            }
        }
    }

    fn timed(&self) -> Vec<usize> {
        (1..=self.conns.len())
            .filter(|c| {
                let k = &self.conns[c - 1];
                k.reqs.iter().flatten().any(|(_, to)| *to < 1000)
            })
            .collect()
    }

    fn quiet(&mut self, wait: bool) {
        self.settle();
        if wait {
            let t0 = Instant::now();
            while !self.exec.dead && t0.elapsed() < Duration::from_millis(12) && !self.timed().is_empty() {
                std::thread::sleep(Duration::from_micros(500));
                self.settle();
            }
        }
        if self.exec.dead {
            return;
        }
        let slow: Vec<usize> =
            (1..=self.conns.len()).filter(|c| self.conns[c - 1].slow && !self.conns[c - 1].gone).collect();
        let mut tim = self.timed();
        // A timer may end just now: settle again so that the snapshot is taken at rest
        loop {
            self.settle();
            tim.retain(|c| self.timed().contains(c));
            if self.exec.dead || self.exec.woken().is_empty() {
                break;
            }
        }
        if self.exec.dead {
            return;
        }
        let locks: Vec<Value> = self
            .locks
            .iter()
            .map(|l| {
                let l = l.lock();
                json!([l.exclusive_lock(), l.num_shared_locks()])
            })
            .collect();
        log(json!({"e":"quiet","slow":slow,"tim":tim,"locks":locks}));
    }

    /// Requests with a short timeout that nothing precedes must have been decided by now
    fn deadlines(&mut self) {
        let t0 = Instant::now();
        loop {
            self.settle();
            if self.exec.dead {
                return;
            }
            let due: Vec<usize> = (1..=self.conns.len())
                .filter(|c| {
                    let k = &self.conns[c - 1];
                    !k.gone
                        && !k.eof
                        && !k.slow
                        && k.role == "async"
                        && matches!(k.reqs.front(), Some(Some((_, to))) if *to < 1000)
                })
                .collect();
            if due.is_empty() {
                return;
            }
            if t0.elapsed() > Duration::from_secs(5) {
                log(json!({"e":"late","c":due[0]}));
                self.exec.dead = true;
                return;
            }
            std::thread::sleep(Duration::from_micros(500));
        }
    }

    fn usable(&self, c: usize) -> bool {
        c >= 1 && c <= self.conns.len() && !self.conns[c - 1].shut && !self.conns[c - 1].gone
    }

    /// One step of a history; unknown or impossible ones are ignored
    fn step(&mut self, st: &Value) {
        let a = st.as_array().unwrap();
        let n = |i: usize| a[i].as_u64().unwrap_or(0) as usize;
        let raw = |v: &Value| -> Vec<u8> {
            v.as_array().map(|x| x.iter().map(|b| b.as_u64().unwrap() as u8).collect()).unwrap_or_default()
        };
        match a[0].as_str().unwrap() {
            // ["init", proto, subaddr]
            "init" => {
                if self.conns.len() >= self.maxconns {
                    return;
                }
                let c = self.connect();
                self.conns[c - 1].role = "sync";
                self.conns[c - 1].sess = c;
                let v = self.rng.below(65536) as u16;
                let cc = self.rng.below(256) as u8;
                self.message(c, 0, cc, n(1) as u16, v, &raw(&a[2]), "", 0);
                self.flush(c, usize::MAX);
            }
            // ["att", sync connection]
            "att" => {
                let s = n(1);
                if self.conns.len() >= self.maxconns || s < 1 || s > self.conns.len() {
                    return;
                }
                let Some(id) = self.conns[s - 1].sid else { return };
                let c = self.connect();
                self.conns[c - 1].role = "async";
                self.conns[c - 1].sess = s;
                self.conns[c - 1].proto = self.conns[s - 1].proto;
                if self.conns[s - 1].has_async == 0 {
                    self.conns[s - 1].has_async = c;
                }
                let ph = if self.rng.chance(1, 4) { self.rng.below(65536) as u16 } else { 0 };
                self.message(c, 17, 0, ph, id, &[], "", 0);
                self.flush(c, usize::MAX);
                self.conns[c - 1].reqs.clear();
            }
            // ["initon", c, proto, subaddr], ["atton", c, sync connection]: on an existing connection
            "initon" | "atton" => {
                let c = n(1);
                if !self.usable(c) {
                    return;
                }
                if a[0] == "initon" {
                    if self.conns[c - 1].role == "new" {
                        self.conns[c - 1].role = "sync";
                        self.conns[c - 1].sess = c;
                    }
                    self.message(c, 0, 0, n(2) as u16, 7, &raw(&a[3]), "", 0);
                } else {
                    let s = n(2);
                    let id = self.conns.get(s.wrapping_sub(1)).and_then(|k| k.sid);
                    if id.is_some() && self.conns[c - 1].role == "new" {
                        self.conns[c - 1].role = "async";
                        self.conns[c - 1].sess = s;
                        self.conns[c - 1].proto = self.conns[s - 1].proto;
                        if self.conns[s - 1].has_async == 0 {
                            self.conns[s - 1].has_async = c;
                        }
                    }
                    self.message(c, 17, 0, 0, id.unwrap_or(9), &[], "", 0);
                }
                self.flush(c, usize::MAX);
                if self.conns[c - 1].role == "async" && a[0] == "atton" {
                    self.conns[c - 1].reqs.clear();
                }
            }
            // ["conn"]: without any message
            "conn" => {
                if self.conns.len() < self.maxconns {
                    self.connect();
                }
            }
            // ["send", c, t, cc, ph, pl, data, x, claim, split]
            "send" => {
                let c = n(1);
                if !self.usable(c) {
                    return;
                }
                let x = a.get(7).and_then(|v| v.as_str()).unwrap_or("").to_string();
                let claim = a.get(8).and_then(|v| v.as_u64()).unwrap_or(0);
                self.message(c, n(2) as u8, n(3) as u8, n(4) as u16, n(5) as u16, &raw(&a[6]), &x, claim);
                if n(2) == 8 {
                    self.conns[c - 1].clearing = true;
                }
                let split = a.get(9).and_then(|v| v.as_u64()).unwrap_or(0) as usize;
                if split == 0 {
                    self.flush(c, usize::MAX);
                } else {
                    self.flush(c, split);
                }
            }
            // ["more", c, n]: the rest of what was split
            "more" => {
                let c = n(1);
                if self.usable(c) {
                    self.flush(c, n(2).max(1));
                }
            }
            "shut" => {
                let c = n(1);
                if self.usable(c) {
                    log(json!({"e":"shut","c":c}));
                    let k = &mut self.conns[c - 1];
                    k.shut = true;
                    k.queue.clear();
                    let mut p = k.to.lock().unwrap();
                    p.wclosed = true;
                    p.wake();
                }
            }
            "gone" => {
                let c = n(1);
                if c >= 1 && c <= self.conns.len() && !self.conns[c - 1].gone {
                    log(json!({"e":"gone","c":c}));
                    let k = &mut self.conns[c - 1];
                    k.gone = true;
                    k.queue.clear();
                    k.reqs.clear();
                    let mut p = k.to.lock().unwrap();
                    p.wclosed = true;
                    p.wake();
                    drop(p);
                    let mut p = k.from.lock().unwrap();
                    p.rclosed = true;
                    p.wake();
                }
            }
            "slow" => {
                if let Some(k) = self.conns.get_mut(n(1).wrapping_sub(1)) {
                    k.slow = true
                }
            }
            "fast" => {
                if let Some(k) = self.conns.get_mut(n(1).wrapping_sub(1)) {
                    k.slow = false
                }
            }
            "pub" => {
                let v = n(1) as u8;
                log(json!({"e":"pub","v":v}));
                self.srq.send_status(v);
            }
            "hold" => {
                let d = n(1) - 1;
                if d < self.devs.len() && self.held[d].is_none() {
                    // Only at rest it is known that nobody else uses the device
                    self.settle();
                    if self.exec.dead {
                        return;
                    }
                    match self.devs[d].try_lock_owned() {
                        Some(g) => {
                            log(json!({"e":"hold","d":d+1}));
                            self.held[d] = Some(g);
                        }
                        None => {
                            log(json!({"e":"busy","d":d+1}));
                            self.exec.dead = true;
                        }
                    }
                }
            }
            "unhold" => {
                let d = n(1) - 1;
                if d < self.devs.len() && self.held[d].is_some() {
                    log(json!({"e":"unhold","d":d+1}));
                    self.held[d] = None;
                }
            }
            "xacq" => {
                let x = n(1) - 1;
                let key = raw(&a[2]);
                let (d, h) = &mut self.ext[x];
                let r = match h.try_acquire(&key) {
                    Ok(()) => "ok",
                    Err(SharedLockError::AlreadyLocked) => "already",
                    Err(_) => "refused",
                };
                log(json!({"e":"xacq","x":101+x,"d":*d+1,"k":bytes(&key),"r":r}));
            }
            "xrel" => {
                let x = n(1) - 1;
                let (d, h) = &mut self.ext[x];
                let r = match h.try_release() {
                    Ok(SharedLockMode::Exclusive) => "excl",
                    Ok(SharedLockMode::Shared) => "shared",
                    Err(_) => "none",
                };
                log(json!({"e":"xrel","x":101+x,"d":*d+1,"r":r}));
            }
            "quiet" => self.quiet(true),
            "polls" => {
                self.polls(n(1));
                if self.rng.chance(1, 2) {
                    self.clients();
                }
            }
            "clients" => {
                self.clients();
            }
            o => panic!("unknown step {o}"),
        }
    }

    fn go(&mut self, st: Value) {
        if self.exec.dead {
            return;
        }
        self.step(&st);
        self.steps.push(st);
    }

    fn end(mut self) -> Vec<Value> {
        let s = std::mem::take(&mut self.steps);
        if self.exec.dead {
            // Locks may be taken for ever, even dropping can hang
            std::mem::forget(self);
        }
        s
    }

    /// Everything is released, then everybody leaves
    fn finish(&mut self) {
        for c in 1..=self.conns.len() {
            self.go(json!(["fast", c]));
            if self.rng.chance(3, 4) {
                self.go(json!(["more", c, 1_000_000]));
            }
        }
        for d in 1..=self.devs.len() {
            self.go(json!(["unhold", d]));
        }
        for x in 1..=2 {
            self.go(json!(["xrel", x]));
        }
        self.go(json!(["quiet"]));
        self.deadlines();
        if self.exec.dead {
            return;
        }
        self.quiet(false);
        let mut order: Vec<usize> = (1..=self.conns.len()).collect();
        for i in (1..order.len()).rev() {
            let j = self.rng.below(i + 1);
            order.swap(i, j);
        }
        for c in order {
            let how = if self.rng.chance(1, 2) { "gone" } else { "shut" };
            self.go(json!([how, c]));
            if self.rng.chance(1, 2) {
                self.go(json!(["quiet"]));
            }
        }
        self.quiet(true);
        self.deadlines();
        if !self.exec.dead {
            self.quiet(false);
        }
    }
}

struct Weights {
    open: usize,
    badopen: usize,
    data: usize,
    sother: usize,
    clear: usize,
    lock: usize,
    info: usize,
    status: usize,
    remote: usize,
    maxmsg: usize,
    aother: usize,
    bad: usize,
    slow: usize,
    close: usize,
    publish: usize,
    hold: usize,
    ext: usize,
}

fn weights(profile: &str) -> Weights {
    let m = Weights {
        open: 2,
        badopen: 1,
        data: 12,
        sother: 1,
        clear: 3,
        lock: 6,
        info: 1,
        status: 2,
        remote: 2,
        maxmsg: 1,
        aother: 1,
        bad: 1,
        slow: 2,
        close: 1,
        publish: 2,
        hold: 2,
        ext: 2,
    };
    match profile {
        "setup" => Weights { open: 12, badopen: 8, data: 6, close: 6, lock: 4, clear: 1, slow: 1, bad: 1, ..m },
        "data" => Weights { data: 40, maxmsg: 4, clear: 1, lock: 3, slow: 4, bad: 2, ..m },
        "clear" => Weights { clear: 14, data: 20, maxmsg: 2, lock: 4, hold: 4, ext: 3, slow: 5, ..m },
        "lock" => Weights { lock: 24, info: 5, data: 6, ext: 6, hold: 1, close: 2, clear: 1, ..m },
        "chan" => Weights { lock: 10, clear: 5, remote: 6, status: 6, info: 4, hold: 8, ext: 5, slow: 6, data: 14, ..m },
        "srq" => Weights { status: 12, publish: 16, data: 6, lock: 3, hold: 2, slow: 3, ..m },
        "bad" => Weights { bad: 20, data: 14, badopen: 4, sother: 5, aother: 6, open: 4, ..m },
        "remote" => Weights { remote: 20, status: 10, lock: 5, hold: 5, ext: 4, data: 3, ..m },
        _ => m,
    }
}

fn random_cfg(rng: &mut Rng, profile: &str) -> Cfg {
    let subs: Vec<String> = match rng.below(4) {
        0 => vec![DEFAULT.into()],
        1 => vec!["inst1".into(), DEFAULT.into()],
        2 => vec!["inst1".into(), "hislip".into()],
        _ => vec![DEFAULT.into(), "inst1".into()],
    };
    Cfg {
        maxs: if profile == "setup" { 1 + rng.below(3) } else { 4 },
        overlap: rng.chance(1, 2),
        idn: if rng.chance(1, 3) { b"Me,1".to_vec() } else { vec![] },
        vendor: rng.below(65536) as u16,
        max: if rng.chance(1, 10) { 300 } else { 24 + rng.below(40) as u64 },
        subs,
        cap: *rng.pick(&[16, 40, 100, 4096]),
        maxresp: if rng.chance(1, 4) { *rng.pick(&[80, 80, 200]) } else { 20 },
    }
}

fn some_bytes(rng: &mut Rng, n: usize) -> Vec<u8> {
    let n = rng.below(n + 1);
    (0..n).map(|_| if rng.chance(1, 2) { b'a' + rng.below(4) as u8 } else { rng.below(256) as u8 }).collect()
}

fn random_step(w: &World, rng: &mut Rng, ws: &Weights) -> Option<Value> {
    let open: Vec<usize> = (1..=w.conns.len()).filter(|c| w.usable(*c) && !w.conns[c - 1].eof).collect();
    let of = |r: &str| -> Vec<usize> { open.iter().copied().filter(|c| w.conns[c - 1].role == r).collect() };
    let (syn, asy) = (of("sync"), of("async"));
    let pick = |rng: &mut Rng, v: &[usize]| if v.is_empty() { None } else { Some(v[rng.below(v.len())]) };
    let id = |rng: &mut Rng| (rng.below(65536), rng.below(65536));
    let list = [
        ws.open, ws.badopen, ws.data, ws.sother, ws.clear, ws.lock, ws.info, ws.status, ws.remote, ws.maxmsg,
        ws.aother, ws.bad, ws.slow, ws.close, ws.publish, ws.hold, ws.ext, 3,
    ];
    Some(match rng.weighted(&list) {
        0 => {
            // Prefer to complete sessions
            let half: Vec<usize> = (1..=w.conns.len())
                .filter(|c| w.conns[c - 1].sid.is_some() && w.conns[c - 1].has_async == 0)
                .collect();
            if !half.is_empty() && rng.chance(3, 4) {
                json!(["att", pick(rng, &half)?])
            } else {
                let p = *rng.pick(&[0x100u64, 0x101, 0x200, 0x200, 0x300, 0xffff, 0]);
                let s = rng.pick(&w.cfg.subs).clone();
                let d: Vec<u8> = if rng.chance(1, 2) { vec![] } else { s.into_bytes() };
                json!(["init", p, d])
            }
        }
        1 => match rng.below(6) {
            0 => json!(["init", 0x200, some_bytes(rng, 8)]),
            1 => {
                let d: &[u8] = *rng.pick(&[b"hislip" as &[u8], b"hislip0\0", b"HISLIP0", b"inst", b"\xff\xfe", b"hislip0 "]);
                json!(["init", 0x100, d])
            }
            2 => {
                // Twice, or after the end
                let k: Vec<usize> = (1..=w.conns.len()).filter(|c| w.conns[c - 1].sid.is_some()).collect();
                json!(["att", pick(rng, &k)?])
            }
            3 => json!(["conn"]),
            _ => {
                // Any other first message
                let c: Vec<usize> = open.iter().copied().filter(|c| w.conns[c - 1].role == "new").collect();
                let c = pick(rng, &c)?;
                let (a, b) = id(rng);
                let t = if rng.chance(1, 3) { 17 } else { rng.below(256) };
                // No session has an odd identifier... unless the server chooses so, which is fine as well
                let b = if t == 17 { b | 1 } else { b };
                json!(["send", c, t, rng.below(256), a, b, some_bytes(rng, 10)])
            }
        },
        2 => {
            let c = pick(rng, &syn)?;
            let (a, b) = id(rng);
            let cc = rng.below(4);
            let split = if rng.chance(1, 8) { 1 + rng.below(20) } else { 0 };
            match rng.below(12) {
                0..=4 => json!(["send", c, 7, cc, a, b, some_bytes(rng, 12), "", 0, split]),
                5..=7 => json!(["send", c, 6, cc, a, b, some_bytes(rng, 12), "", 0, split]),
                8 => {
                    let mut d = some_bytes(rng, w.cfg.max as usize);
                    if rng.chance(1, 3) {
                        // As long as possible, or nearly
                        d.resize(*rng.pick(&[w.cfg.max as usize, w.cfg.max as usize - 1, 255.min(w.cfg.max as usize), 256.min(w.cfg.max as usize)]), 9);
                    }
                    json!(["send", c, 7, cc, a, b, d, "", 0, split])
                }
                9 => {
                    let d: &[u8] = *rng.pick(&[b"*idn?" as &[u8], b"*IDN?", b"*Idn?\n", b"*idn", b"?", b"*idn?*idn?"]);
                    json!(["send", c, if d.len() == 4 {6} else {7}, cc, a, b, d])
                }
                _ => json!(["send", c, 12, cc, a, b, some_bytes(rng, 2), "", 0, split]),
            }
        }
        3 => {
            let c = pick(rng, &syn)?;
            let (a, b) = id(rng);
            let t = *rng.pick(&[0, 1, 2, 3, 4, 5, 8, 9, 10, 13, 15, 16, 17, 19, 21, 24, 26, 27, 26, 30, 35, 38, 28, 31, 34, 36, 37]);
            // Messages which end the session less often
            let t = if [28, 31, 34, 36, 37].contains(&t) && rng.chance(2, 3) { 26 } else { t };
            json!(["send", c, t, rng.below(256), a, b, some_bytes(rng, 6)])
        }
        4 => {
            let c = pick(rng, &asy)?;
            let s = w.conns[c - 1].sess;
            // Complete a clear, or start one
            if rng.chance(1, 2) && w.usable(s) {
                let (a, b) = id(rng);
                return Some(json!(["send", s, 8, rng.below(256), a, b, some_bytes(rng, 1)]));
            }
            let (a, b) = id(rng);
            json!(["send", c, 19, rng.below(256), a, b, some_bytes(rng, 1)])
        }
        5 => {
            let c = pick(rng, &asy)?;
            if rng.chance(2, 5) {
                let (a, b) = id(rng);
                json!(["send", c, 4, 0, a, b, []])
            } else {
                let keys: [&[u8]; 9] = [b"", b"", b"", b"k1", b"k1", b"k2", b"k1\0", b"k", b"k1\n"];
                let mut d = rng.pick(&keys).to_vec();
                if rng.chance(1, 5) {
                    d = rng.pick(&[vec![0xffu8], vec![0], vec![0, 0], b"k1\0\0".to_vec(), b"\0k".to_vec(), vec![0xc3], b" k1".to_vec(), b"K1".to_vec(), b"k1\n\0".to_vec(), b"\n\0".to_vec(), b"\0k1\0".to_vec(), b"k1 \0\0".to_vec(), b"k1\0k1".to_vec()]).clone();
                }
                let (ph, pl) = match rng.below(6) {
                    0 | 1 => (0, 0),
                    2 | 3 => (0, 1 + rng.below(5)),
                    4 => *rng.pick(&[(0, 60000), (1, 0), (1, 2), (0x100, 0)]),
                    _ => *rng.pick(&[(0x7fff, 0xffff), (0xffff, 0xffff), (0x8000, 1)]),
                };
                json!(["send", c, 4, if rng.chance(1, 10) { 2 + rng.below(254) } else { 1 }, ph, pl, d])
            }
        }
        6 => json!(["send", pick(rng, &asy)?, 24, rng.below(2), 0, 0, []]),
        7 => {
            let (a, b) = id(rng);
            json!(["send", pick(rng, &asy)?, 21, rng.below(2), a, b, []])
        }
        8 => json!(["send", pick(rng, &asy)?, 10, if rng.chance(1, 8) { rng.below(256) } else { rng.below(7) }, 0, 7, []]),
        9 => {
            let v: u64 = *rng.pick(&[0, 1, 2, 3, 5, 8, 64, 1 << 40, u64::MAX, 1000]);
            let mut d = be64(v);
            if rng.chance(1, 15) {
                d.truncate(rng.below(8));
            }
            json!(["send", pick(rng, &asy)?, 15, 0, 0, 0, d])
        }
        10 => {
            let (a, b) = id(rng);
            let t = *rng.pick(&[0, 1, 2, 3, 5, 6, 7, 8, 9, 11, 12, 13, 14, 16, 17, 18, 20, 22, 23, 25, 26, 28, 29, 30, 31, 32, 33, 34, 38]);
            let t = if [29, 32].contains(&t) && rng.chance(2, 3) { 26 } else { t };
            json!(["send", pick(rng, &asy)?, t, rng.below(256), a, b, some_bytes(rng, 6)])
        }
        11 => {
            let c = pick(rng, &open)?;
            let (a, b) = id(rng);
            let split = if rng.chance(1, 4) { 1 + rng.below(40) } else { 0 };
            match rng.below(10) {
                0 | 1 => json!(["send", c, 39 + rng.below(89), rng.below(256), a, b, some_bytes(rng, 20), "", 0, split]),
                2 | 3 => json!(["send", c, 128 + rng.below(128), rng.below(256), a, b, some_bytes(rng, 20), "", 0, split]),
                4 => json!(["send", c, rng.below(256), rng.below(256), a, b, some_bytes(rng, 20), "bad", 0, split]),
                5..=7 => {
                    let n = w.cfg.max + 1 + rng.below(60) as u64;
                    let t = *rng.pick(&[6usize, 7, 7, 12, 0, 4, 19, 17, 200, 50]);
                    // Bytes which look like messages
                    let mut d: Vec<u8> = some_bytes(rng, 5);
                    while (d.len() as u64) < n {
                        d.extend([b'H', b'S', 7, 0, 0, 0, 0, 9, 0, 0, 0, 0, 0, 0, 0, 3, b'b', b'a', b'd']);
                    }
                    d.truncate(n as usize);
                    json!(["send", c, t, rng.below(256), a, b, d, "big", n, split])
                }
                8 => {
                    let n = *rng.pick(&[u64::MAX, 1 << 63, 1 << 40, w.cfg.max + 1, w.cfg.max + 100]);
                    let m = rng.below(w.cfg.max as usize);
                    json!(["send", c, 7, 0, a, b, vec![7u8; m], "big", n, split])
                }
                _ => {
                    // Cut in the middle
                    let k = 1 + rng.below(25);
                    json!(["send", c, 7, 0, a, b, vec![b'z'; 10], "", 0, k])
                }
            }
        }
        12 => {
            let slow: Vec<usize> = open.iter().copied().filter(|c| w.conns[c - 1].slow).collect();
            if !slow.is_empty() && rng.chance(1, 2) {
                json!(["fast", pick(rng, &slow)?])
            } else {
                json!(["slow", pick(rng, &open)?])
            }
        }
        13 => json!([if rng.chance(1, 2) { "gone" } else { "shut" }, pick(rng, &open)?]),
        14 => json!(["pub", rng.below(256)]),
        15 => {
            let d = 1 + rng.below(w.devs.len());
            json!([if rng.chance(1, 2) { "hold" } else { "unhold" }, d])
        }
        16 => {
            let x = 1 + rng.below(2);
            if rng.chance(1, 2) {
                json!(["xrel", x])
            } else {
                let keys: [&[u8]; 3] = [b"", b"k1", b"k2"];
                json!(["xacq", x, *rng.pick(&keys)])
            }
        }
        _ => {
            let pend: Vec<usize> = open.iter().copied().filter(|c| !w.conns[c - 1].queue.is_empty()).collect();
            match pick(rng, &pend) {
                Some(c) => json!(["more", c, 1 + rng.below(60)]),
                None => json!(["quiet"]),
            }
        }
    })
}

/// A device clear finds a message which waits for a lock, and parts of another one
fn cleared_while_waiting(w: &mut World, rng: &mut Rng) {
    let pairs: Vec<(usize, usize)> = (1..=w.conns.len())
        .filter(|c| {
            let k = &w.conns[c - 1];
            k.role == "async" && w.usable(*c) && !k.eof && k.sess > 0 && w.usable(k.sess) && !w.conns[k.sess - 1].eof
        })
        .map(|c| (w.conns[c - 1].sess, c))
        .collect();
    if pairs.is_empty() {
        return;
    }
    let (s, a) = *rng.pick(&pairs);
    let data = |rng: &mut Rng, t: usize, c: usize| {
        let (x, y) = (rng.below(65536), rng.below(65536));
        json!(["send", c, t, rng.below(4), x, y, some_bytes(rng, 6)])
    };
    let mut l = vec![json!(["quiet"])];
    for _ in 0..1 + rng.below(2) {
        l.push(data(rng, 6, s));
    }
    l.push(json!(["quiet"]));
    let ext = rng.chance(2, 3);
    if ext {
        let key: &[u8] = *rng.pick(&[b"" as &[u8], b"k9"]);
        l.push(json!(["xacq", 1, key]));
        l.push(json!(["xacq", 2, key]));
    } else {
        l.push(json!(["hold", 1]));
        l.push(json!(["hold", 2]));
    }
    l.push(json!(["quiet"]));
    let t = *rng.pick(&[6, 7, 7, 12]);
    l.push(data(rng, t, s));
    l.push(json!(["quiet"]));
    l.push(json!(["send", a, 19, rng.below(4), 0, 0, []]));
    if rng.chance(1, 2) {
        l.push(json!(["quiet"]));
    } else {
        // The way is free after the acknowledgement, but before the session has noticed any of it
        l.push(json!(["polls", 1 + rng.below(3)]));
        l.push(json!(["clients"]));
        for x in 1..=2 {
            l.push(json!(["xrel", x]));
            l.push(json!(["unhold", x]));
        }
        l.push(json!(["quiet"]));
    }
    l.push(json!(["send", s, 8, rng.below(2), 0, 0, []]));
    l.push(json!(["quiet"]));
    for x in 1..=2 {
        l.push(json!(["xrel", x]));
        l.push(json!(["unhold", x]));
    }
    l.push(json!(["quiet"]));
    l.push(data(rng, 7, s));
    for st in l {
        if !rng.chance(1, 20) {
            w.go(st);
        }
    }
}

fn random_run(seed: u64, profile: &str, len: usize) -> Value {
    let mut rng = Rng::new(seed);
    let cfg = random_cfg(&mut rng, profile);
    let mut w = World::new(cfg, rng.next(), 12);
    let ws = weights(profile);
    let cj = w.cfg_json();
    // A few complete sessions to begin with
    let n = if profile == "setup" { rng.below(2) } else { 1 + rng.below(3) };
    for _ in 0..n {
        let s = rng.pick(&w.cfg.subs).clone();
        let d: Vec<u8> = if s == DEFAULT && rng.chance(1, 2) { vec![] } else { s.into_bytes() };
        let p = *rng.pick(&[0x100u64, 0x200]);
        w.go(json!(["init", p, d]));
        w.go(json!(["quiet"]));
        let c = w.conns.len();
        w.go(json!(["att", c]));
        w.go(json!(["quiet"]));
    }
    let calm = 1 + rng.below(6);
    let early = rng.below(len + 1);
    for i in 0..len {
        if w.exec.dead {
            break;
        }
        if i == early && ["clear", "mix", "chan"].contains(&profile) && rng.chance(1, 2) {
            cleared_while_waiting(&mut w, &mut rng);
        }
        if let Some(st) = random_step(&w, &mut rng, &ws) {
            w.go(st);
        }
        match rng.below(8) {
            x if x < calm => w.go(json!(["quiet"])),
            6 => (),
            _ => {
                let k = rng.below(12);
                w.go(json!(["polls", k]))
            }
        }
    }
    w.finish();
    let ev = mini::take_log();
    json!({"seed": seed, "cfg": cj, "ev": ev, "hist": w.end()})
}

fn replay_run(seed: u64, v: &Value, out: &mut Out, id: usize) {
    let mut rng = Rng::new(seed);
    let mut cfg = random_cfg(&mut rng, "");
    cfg.subs = vec![DEFAULT.into(), "inst1".into()];
    cfg.maxs = v["maxs"].as_u64().unwrap_or(2) as usize;
    cfg.idn = if v["idn"] == true { b"Me,1".to_vec() } else { vec![] };
    cfg.max = 24;
    let mut w = World::new(cfg, rng.next(), 12);
    let cj = w.cfg_json();
    let calm = rng.below(9);
    for st in v["steps"].as_array().unwrap() {
        w.go(st.clone());
        match rng.below(8) {
            x if x < calm => w.go(json!(["quiet"])),
            7 => (),
            _ => {
                let k = rng.below(8);
                w.go(json!(["polls", k]))
            }
        }
    }
    w.finish();
    let ev = mini::take_log();
    out.line(&json!({"id": id, "drv": "walk", "seed": seed, "cfg": cj, "ev": ev, "hist": w.end()}));
}

/// A history which ends where it started, repeated under the counting allocator: the server keeps nothing of it
fn cycle_run(seed: u64, n0: usize) -> Value {
    let mut rng = Rng::new(seed);
    let mut cfg = random_cfg(&mut rng, "");
    cfg.maxs = 4;
    let mut w = World::new(cfg, rng.next(), 12);
    let ws = weights(*rng.pick(&["lock", "mix", "srq", "setup", "chan", "remote", "clear"]));
    let cj = w.cfg_json();
    // Somebody who stays, with a lock perhaps
    for _ in 0..rng.below(3) {
        let s = rng.pick(&w.cfg.subs).clone();
        let d: Vec<u8> = s.into_bytes();
        w.go(json!(["init", 0x200, d]));
        w.go(json!(["quiet"]));
        let c = w.conns.len();
        w.go(json!(["att", c]));
        w.go(json!(["quiet"]));
        let k: &[u8] = *rng.pick(&[b"" as &[u8], b"k1", b"k1"]);
        if rng.chance(2, 3) {
            w.go(json!(["send", c + 1, 4, 1, 0, 0, k]));
        }
        w.go(json!(["quiet"]));
    }
    let base = w.conns.len();
    let tasks = w.exec.tasks.len();
    let mut steps: Vec<Value> = vec![];
    let goes = |w: &mut World, steps: &mut Vec<Value>, st: Value| {
        w.go(st.clone());
        steps.push(st);
    };
    let n = 1 + rng.below(2);
    for _ in 0..n {
        let s = rng.pick(&w.cfg.subs).clone();
        goes(&mut w, &mut steps, json!(["init", 0x200, s.into_bytes()]));
        goes(&mut w, &mut steps, json!(["quiet"]));
        let c = w.conns.len();
        if rng.chance(5, 6) {
            goes(&mut w, &mut steps, json!(["att", c]));
        }
        goes(&mut w, &mut steps, json!(["quiet"]));
    }
    let len = 1 + rng.below(14);
    for _ in 0..len {
        if w.exec.dead {
            break;
        }
        let Some(st) = random_step(&w, &mut rng, &ws) else { continue };
        let ok = match st[0].as_str().unwrap() {
            "init" | "att" | "conn" => w.conns.len() < base + 5 && st.get(1).and_then(|v| v.as_u64()).map_or(true, |c| st[0] != "att" || c as usize > base),
            "hold" | "unhold" | "pub" | "quiet" | "xacq" | "xrel" => true,
            // Only those who go again
            _ => st[1].as_u64().unwrap() as usize > base,
        };
        if ok {
            goes(&mut w, &mut steps, st);
        }
        if rng.chance(1, 2) {
            goes(&mut w, &mut steps, json!(["quiet"]));
        }
    }
    // Everything is let go of, everybody new leaves
    for d in 1..=w.devs.len() {
        goes(&mut w, &mut steps, json!(["unhold", d]));
    }
    for x in 1..=2 {
        goes(&mut w, &mut steps, json!(["xrel", x]));
    }
    for c in base + 1..=w.conns.len() {
        goes(&mut w, &mut steps, json!(["fast", c]));
        goes(&mut w, &mut steps, json!(["more", c, 1_000_000]));
    }
    goes(&mut w, &mut steps, json!(["quiet"]));
    for c in base + 1..=w.conns.len() {
        goes(&mut w, &mut steps, json!([if rng.chance(1, 2) { "gone" } else { "shut" }, c]));
        if rng.chance(1, 2) {
            goes(&mut w, &mut steps, json!(["quiet"]));
        }
    }
    goes(&mut w, &mut steps, json!(["quiet"]));
    w.deadlines();
    w.quiet(false);
    let out = |w: &World| w.exec.dead || (base + 1..=w.conns.len()).any(|c| !w.exec.done(c));
    let mut m = vec![];
    // Somebody may still have to wait for a lock
    if !out(&w) {
        let keep = mini::log_len();
        let head = mini::take_log();
        let (conns, rec) = (w.conns.len(), w.steps.len());
        for i in 1..=9 * n0 {
            w.conns.truncate(base);
            w.exec.tasks.truncate(tasks);
            w.rng = Rng::new(seed);
            mini::seed(seed);
            for d in &w.devs {
                if let Some(mut d) = d.try_lock() {
                    d.rng = Rng::new(seed);
                }
            }
            for st in &steps {
                if !w.exec.dead {
                    w.step(st);
                }
            }
            w.deadlines();
            if out(&w) {
                break;
            }
            mini::take_log();
            if i == n0 || i == 3 * n0 || i == 9 * n0 {
                m.push(crate::live_bytes());
            }
        }
        let tail = mini::take_log();
        for e in head {
            log(e);
        }
        assert_eq!(mini::log_len(), keep);
        if m.len() == 3 {
            let g = ((m[1] - m[0]) / (2 * n0 as i64)).min((m[2] - m[1]) / (6 * n0 as i64)).max(0);
            log(json!({"e":"mem","g":g}));
        } else {
            // What ended it
            let last = tail.last().cloned().unwrap_or(json!({}));
            if ["panic", "spin", "late", "busy", "garbage"].iter().any(|k| last["e"] == *k) {
                log(last);
            }
        }
        assert!(w.exec.dead || m.len() < 3 || (w.conns.len() == conns && w.steps.len() == rec));
    }
    if !w.exec.dead && m.len() == 3 {
        w.finish();
    }
    let ev = mini::take_log();
    json!({"seed": seed, "cfg": cj, "ev": ev, "rounds": if m.len() == 3 { 9 * n0 } else { 0 }, "hist": w.end()})
}

/// Sessions come and go until identifiers have to be used again, while some stay. Rounds which look like the
/// first one are not recorded.
fn wrap_run(seed: u64, rounds: usize) -> Value {
    let mut rng = Rng::new(seed);
    let mut cfg = random_cfg(&mut rng, "");
    cfg.maxs = 4;
    cfg.cap = 4096;
    let mut w = World::new(cfg, rng.next(), 12);
    let cj = w.cfg_json();
    let open = |w: &mut World, rng: &mut Rng, att: bool| {
        let s = rng.pick(&w.cfg.subs).clone();
        w.go(json!(["init", 0x200, s.into_bytes()]));
        w.go(json!(["quiet"]));
        let c = w.conns.len();
        if att {
            w.go(json!(["att", c]));
            w.go(json!(["quiet"]));
        }
        c
    };
    // The ones who stay; some started later than others, some are not complete
    let skip = rng.below(3);
    for _ in 0..skip {
        let c = open(&mut w, &mut rng, false);
        w.go(json!(["gone", c]));
        w.go(json!(["quiet"]));
    }
    let mut half = vec![];
    for _ in 0..1 + rng.below(2) {
        let att = rng.chance(1, 3);
        let c = open(&mut w, &mut rng, att);
        if !att {
            half.push(c);
        }
    }
    let base = w.conns.len();
    let tasks = w.exec.tasks.len();
    let ids: Vec<u16> =
        w.conns.iter().filter(|k| !k.gone).filter_map(|k| k.sid).collect();
    let head = mini::take_log();
    let one = |w: &mut World| -> Vec<Value> {
        w.conns.truncate(base);
        w.exec.tasks.truncate(tasks);
        w.rng = Rng::new(seed);
        mini::seed(seed);
        let c = base + 1;
        let d = w.cfg.subs[0].clone().into_bytes();
        for st in [
            json!(["init", 0x200, d]),
            json!(["quiet"]),
            json!(["att", c]),
            json!(["quiet"]),
            json!(["gone", c]),
            json!(["gone", c + 1]),
            json!(["quiet"]),
        ] {
            if !w.exec.dead {
                w.step(&st);
            }
        }
        mini::take_log()
    };
    let mut tail = vec![];
    let mut n = 0;
    let shape = |ev: &[Value]| -> String {
        let mut s = String::new();
        for e in ev {
            let mut e = e.clone();
            let id = e["e"] == "recv" && e["t"] == 1 || e["e"] == "send" && e["t"] == 17;
            if id && !ids.contains(&(e["pl"].as_u64().unwrap() as u16)) {
                e["pl"] = json!(0);
            }
            s += &e.to_string();
        }
        s
    };
    let mut first = String::new();
    while n < rounds {
        n += 1;
        let ev = one(&mut w);
        if n == 1 {
            first = shape(&ev);
        }
        if shape(&ev) != first || w.exec.dead || n == rounds {
            tail = ev;
            break;
        }
    }
    for e in head.into_iter().chain(tail) {
        log(e);
    }
    if !w.exec.dead && n == rounds {
        // Who stayed can still go on
        for c in half {
            w.go(json!(["att", c]));
            w.go(json!(["quiet"]));
        }
        open(&mut w, &mut rng, true);
        w.finish();
    }
    let ev = mini::take_log();
    json!({"seed": seed, "cfg": cj, "ev": ev, "rounds": n, "hist": w.end()})
}

pub fn cycle(args: &Args) {
    mini::arm();
    let mut out = Out::new(args.get("out").unwrap());
    let seed = args.num("seed", 1);
    for i in 0..args.num("wrap", 0) {
        let mut v = wrap_run(seed.wrapping_mul(9_000_021).wrapping_add(i), 32768 + 10);
        v["id"] = json!(format!("w{i}"));
        v["drv"] = json!("wrap");
        out.line(&v);
        out.flush();
    }
    let mut slow = 0;
    for i in 0..args.num("n", 0) {
        let t = Instant::now();
        let mut v = cycle_run(seed.wrapping_mul(9_000_011).wrapping_add(i), args.num("reps", 10) as usize);
        v["id"] = json!(i);
        v["drv"] = json!("cycle");
        out.line(&v);
        out.flush();
        slow += (t.elapsed() > Duration::from_secs(4)) as u32;
        if slow >= 8 {
            crate::util::STOPPED.store(true, std::sync::atomic::Ordering::SeqCst);
            return;
        }
    }
}

pub fn run(args: &Args) {
    mini::arm();
    let mut out = Out::new(args.get("out").unwrap());
    let seed = args.num("seed", 1);
    let mut id = 0;
    let mut slow = 0;
    // Too many which wait for what does not come are enough
    let mut stuck = |t: Instant| {
        slow += (t.elapsed() > Duration::from_secs(4)) as u32;
        if slow >= 8 {
            crate::util::STOPPED.store(true, std::sync::atomic::Ordering::SeqCst);
        }
        slow >= 8
    };
    if let Some(f) = args.get("seqs") {
        for line in std::fs::read_to_string(f).unwrap().lines() {
            let v: Value = serde_json::from_str(line).unwrap();
            id += 1;
            let t = Instant::now();
            replay_run(seed.wrapping_mul(1_000_003) + id as u64, &v, &mut out, id);
            out.flush();
            if stuck(t) {
                return;
            }
        }
    }
    let profs: Vec<String> = args.str("prof", "mix").split(',').map(|s| s.to_string()).collect();
    for i in 0..args.num("n", 0) {
        id += 1;
        let p = &profs[i as usize % profs.len()];
        let s = seed.wrapping_mul(7_000_003).wrapping_add(i);
        let t = Instant::now();
        let mut v = random_run(s, p, args.num("len", 25) as usize);
        v["id"] = json!(id);
        v["drv"] = json!(p);
        out.line(&v);
        out.flush();
        if stuck(t) {
            return;
        }
    }
    if let Some(s) = args.get("one") {
        let (p, s) = s.split_once(':').unwrap();
        out.line(&random_run(s.parse().unwrap(), p, args.num("len", 25) as usize));
    }
    out.flush();
}
