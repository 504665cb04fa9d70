//! One device, served by several servers at once
use std::io::{ErrorKind, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpStream};
use std::os::fd::AsRawFd;
use std::sync::{Arc, Mutex as StdMutex};
use std::time::{Duration, Instant};

use async_std::task::JoinHandle;
use futures::lock::Mutex;
use lxi_device::lock::SharedLock;
use lxi_device::status::Sender as StatusSender;
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use lxi_vxi11::server::vxi11::prelude::*;
use serde_json::{json, Value};

use crate::net::{address, Spawner};
use crate::util::{bytes, parallel, Args, Out, Rng};
use crate::vxi::{callmsg, fragments, opaque, push, u, Hdr, Log, Rd};

const PATIENCE: Duration = Duration::from_secs(6);
const LONG: u32 = 20_000_000;
const SHORT: u32 = 25;

struct Dev {
    log: Log,
    state: Arc<StdMutex<(bool, Vec<u32>)>>,
    rng: Rng,
}
impl Dev {
    fn think(&mut self) {
        if self.rng.chance(1, 4) {
            std::thread::sleep(Duration::from_micros(self.rng.below(600) as u64));
        }
    }
}
impl Device for Dev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        self.state.lock().unwrap().0 = true;
        self.think();
        let id: Option<u32> = std::str::from_utf8(cmd).ok().and_then(|s| s.strip_prefix('c')?.parse().ok());
        match id {
            Some(id) => {
                push(&self.log, json!({"e":"exec","id":id}));
                self.state.lock().unwrap().1.push(id);
            }
            None => push(&self.log, json!({"e":"wrong","cmd":bytes(cmd)})),
        }
        self.think();
        self.state.lock().unwrap().0 = false;
        Some(cmd.to_vec())
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        Ok(0)
    }
    fn trigger(&mut self, _: Source) -> Result<(), DeviceError> {
        push(&self.log, json!({"e":"call"}));
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        push(&self.log, json!({"e":"call"}));
        Ok(())
    }
    fn set_remote(&mut self, _: bool) -> Result<(), DeviceError> {
        Ok(())
    }
    fn set_local_lockout(&mut self, _: bool) {}
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Raw,
    Tel,
    Vxi,
    His,
}

fn kind(s: &str) -> Kind {
    match s {
        "raw" => Kind::Raw,
        "tel" => Kind::Tel,
        "vxi" => Kind::Vxi,
        "his" => Kind::His,
        _ => panic!("kind {s}"),
    }
}

#[derive(Clone)]
struct Op {
    op: String,
    id: u32,
    wait: String,
    key: Vec<u8>,
}

struct Client {
    k: Kind,
    /// Synchronous channel first
    s: Vec<TcpStream>,
    got: Vec<Vec<u8>>,
    pend: Vec<Op>,
    lid: u32,
    msg: u32,
    left: bool,
}

/// What the lock must be like, as far as clients know
#[derive(Default)]
struct Belief {
    x: usize,
    sh: Vec<usize>,
    key: Vec<u8>,
}
impl Belief {
    fn may(&self, c: usize) -> bool {
        if self.x != 0 {
            self.x == c
        } else {
            self.sh.is_empty() || self.sh.contains(&c)
        }
    }
    /// A request for the lock has to wait
    fn refused(&self, c: usize, k: &[u8]) -> bool {
        if k.is_empty() {
            self.x != c && (self.x != 0 || !(self.sh.is_empty() || self.sh.contains(&c)))
        } else {
            !self.sh.contains(&c) && if self.sh.is_empty() { self.x != 0 && self.x != c } else { self.key != k }
        }
    }
    fn granted(&mut self, c: usize, k: &[u8]) {
        if k.is_empty() {
            self.x = c
        } else {
            self.sh.push(c);
            self.key = k.to_vec();
        }
    }
    fn release(&mut self, c: usize) {
        if self.x == c {
            self.x = 0;
        }
        self.sh.retain(|h| *h != c);
        if self.sh.is_empty() {
            self.key.clear();
        }
    }
    fn holds(&self, c: usize) -> bool {
        self.x == c || self.sh.contains(&c)
    }
    /// As release does it: the exclusive lock goes with the shared one
    fn unlock(&mut self, c: usize) {
        self.release(c)
    }
}

struct World {
    ip: Ipv4Addr,
    tasks: Vec<JoinHandle<std::io::Result<()>>>,
    cl: Vec<Client>,
    lock: Belief,
    state: Arc<StdMutex<(bool, Vec<u32>)>>,
    log: Log,
    rng: Rng,
    next: u32,
    dead: bool,
}

fn core_hdr(pr: u32) -> Hdr {
    Hdr { rv: 2, cr: 0, ve: 0, pg: DEVICE_CORE, vs: DEVICE_CORE_VERSION, pr }
}

fn hislip(t: u8, c: u8, p: u32, payload: &[u8]) -> Vec<u8> {
    let mut b = b"HS".to_vec();
    b.push(t);
    b.push(c);
    u(&mut b, p);
    b.extend((payload.len() as u64).to_be_bytes());
    b.extend(payload);
    b
}

/// Complete message at the front
fn hislip_msg(b: &mut Vec<u8>) -> Option<(u8, u8, u32, Vec<u8>)> {
    let h = b.get(..16)?;
    let n = u64::from_be_bytes(h[8..16].try_into().unwrap()) as usize;
    let m = (h[2], h[3], u32::from_be_bytes(h[4..8].try_into().unwrap()));
    if b.len() < 16 + n {
        return None;
    }
    let v: Vec<u8> = b.drain(..16 + n).collect();
    Some((m.0, m.1, m.2, v[16..].to_vec()))
}

fn record(b: &mut Vec<u8>) -> Option<Vec<u8>> {
    let h = u32::from_be_bytes(b.get(..4)?.try_into().unwrap());
    let n = (h & 0x7fff_ffff) as usize;
    if b.len() < 4 + n {
        return None;
    }
    let v: Vec<u8> = b.drain(..4 + n).collect();
    Some(v[4..].to_vec())
}

/// Results of an accepted, successful call
fn results(b: &[u8], xid: u32) -> Option<Vec<u8>> {
    let mut r = Rd(b);
    let ok = r.u()? == xid && r.u()? == 1 && r.u()? == 0 && r.u().is_some() && r.opaque().is_some() && r.u()? == 0;
    ok.then(|| r.0.to_vec())
}

impl World {
    fn connect(&self, port: u16) -> Result<TcpStream, String> {
        let t = Instant::now();
        loop {
            match TcpStream::connect_timeout(&SocketAddr::from((self.ip, port)), PATIENCE) {
                Ok(s) => {
                    s.set_nodelay(true).unwrap();
                    s.set_nonblocking(true).unwrap();
                    return Ok(s);
                }
                Err(e) if t.elapsed() > PATIENCE => return Err(e.to_string()),
                Err(_) => std::thread::sleep(Duration::from_millis(1)),
            }
        }
    }

    fn send(s: &mut TcpStream, b: &[u8]) {
        let mut pos = 0;
        let t = Instant::now();
        while pos < b.len() && t.elapsed() < PATIENCE {
            match s.write(&b[pos..]) {
                Ok(n) => pos += n,
                Err(e) if e.kind() == ErrorKind::WouldBlock => std::thread::sleep(Duration::from_micros(200)),
                Err(_) => return,
            }
        }
    }

    /// Bytes which arrived; whether there will be no more
    fn recv(s: &mut TcpStream, got: &mut Vec<u8>) -> bool {
        let mut b = [0; 4096];
        loop {
            crate::util::quickack(s);
            match s.read(&mut b) {
                Ok(0) => return true,
                Ok(n) => got.extend(&b[..n]),
                Err(e) if e.kind() == ErrorKind::WouldBlock => return false,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => return true,
            }
        }
    }

    fn join(&mut self, k: Kind) -> Result<(), String> {
        let port = match k {
            Kind::Raw => 5025,
            Kind::Tel => 5024,
            Kind::Vxi => 4322,
            Kind::His => 4880,
        };
        let mut c = Client { k, s: vec![self.connect(port)?], got: vec![vec![], vec![]], pend: vec![], lid: 0, msg: 0xffff_ff00, left: false };
        let t = Instant::now();
        macro_rules! wait {
            ($i:expr, $f:expr) => {
                loop {
                    let eof = World::recv(&mut c.s[$i], &mut c.got[$i]);
                    if let Some(x) = $f(&mut c.got[$i]) {
                        break x;
                    }
                    if eof || t.elapsed() > PATIENCE {
                        return Err(format!("{k:?} set-up"));
                    }
                    std::thread::sleep(Duration::from_micros(200));
                }
            };
        }
        match k {
            Kind::Raw | Kind::Tel => {}
            Kind::Vxi => {
                let mut a = vec![];
                u(&mut a, 1);
                u(&mut a, 0);
                u(&mut a, 0);
                opaque(&mut a, b"inst0");
                let m = callmsg(1, &core_hdr(10), &a, b"");
                World::send(&mut c.s[0], &fragments(&mut self.rng, &m));
                let r = wait!(0, record);
                let r = results(&r, 1).ok_or("create link")?;
                let mut r = Rd(&r);
                if r.u() != Some(0) {
                    return Err("create link".into());
                }
                c.lid = r.u().ok_or("create link")?;
            }
            Kind::His => {
                World::send(&mut c.s[0], &hislip(0, 0, 0x0100_4142, b"hislip0"));
                let r = wait!(0, hislip_msg);
                if r.0 != 1 {
                    return Err("initialize".into());
                }
                c.s.push(self.connect(port)?);
                World::send(&mut c.s[1], &hislip(17, 0, r.2 & 0xffff, b""));
                if wait!(1, hislip_msg).0 != 18 {
                    return Err("async initialize".into());
                }
            }
        }
        self.cl.push(c);
        Ok(())
    }

    fn request(&mut self, c: usize, op: &str, wait: &str, key: &[u8]) {
        let n = self.next + 1;
        let log = self.log.clone();
        let rng = &mut self.rng;
        let k = &mut self.cl[c - 1];
        let simple = matches!(k.k, Kind::Raw | Kind::Tel);
        if k.left || (simple && op != "cmd") || (!simple && !k.pend.is_empty()) {
            return;
        }
        self.next = n;
        let wait = match (k.k, op) {
            (Kind::Raw | Kind::Tel, _) | (Kind::His, "cmd") => "long",
            (_, "unlock") => "no",
            _ => wait,
        };
        let key = if k.k == Kind::His { key } else { b"" };
        k.pend.push(Op { op: op.into(), id: n, wait: wait.into(), key: key.to_vec() });
        push(&log, json!({"e":"send","c":c,"op":op,"id":n,"wait":wait,"k":bytes(key)}));
        let text = format!("c{n}").into_bytes();
        let time = match wait {
            "no" => 0,
            "short" => SHORT,
            _ => LONG,
        };
        match k.k {
            Kind::Raw => {
                let mut b = text;
                b.push(10);
                World::send(&mut k.s[0], &b);
            }
            Kind::Tel => {
                let mut b = text;
                b.extend(b"\r\n");
                World::send(&mut k.s[0], &b);
            }
            Kind::Vxi => {
                let mut a = vec![];
                u(&mut a, k.lid);
                let pr = match op {
                    "cmd" => {
                        u(&mut a, LONG);
                        u(&mut a, if wait == "no" { *rng.pick(&[0, LONG]) } else { time });
                        u(&mut a, 8 | (wait != "no") as u32);
                        opaque(&mut a, &text);
                        11
                    }
                    "lock" => {
                        u(&mut a, (wait != "no") as u32);
                        u(&mut a, if wait == "no" { *rng.pick(&[0, LONG]) } else { time });
                        18
                    }
                    _ => 19,
                };
                let m = callmsg(n, &core_hdr(pr), &a, b"");
                World::send(&mut k.s[0], &fragments(rng, &m));
            }
            Kind::His => match op {
                "cmd" => {
                    k.msg = k.msg.wrapping_add(2);
                    let m = hislip(7, 0, k.msg, &text);
                    World::send(&mut k.s[0], &m);
                }
                "lock" => World::send(&mut k.s[1], &hislip(4, 1, time, key)),
                _ => World::send(&mut k.s[1], &hislip(4, 0, k.msg, b"")),
            },
        }
    }

    /// Result of the first request: "ok", "no", or that it is not what it should be
    fn result(k: &mut Client) -> Option<Result<&'static str, String>> {
        let first = k.pend.first().cloned();
        let text = first.as_ref().map(|o| format!("c{}", o.id)).unwrap_or_default();
        let verdict = |b: bool| Some(Ok(if b { "ok" } else { "no" }));
        match k.k {
            Kind::Raw | Kind::Tel => {
                if k.k == Kind::Tel {
                    loop {
                        let g = &mut k.got[0];
                        if g.starts_with(b"SCPI> ") {
                            g.drain(..6);
                        } else if g.starts_with(&[255, 3]) || g.starts_with(&[255, 249]) {
                            g.drain(..2);
                        } else {
                            break;
                        }
                    }
                }
                let i = k.got[0].iter().position(|b| *b == 10)?;
                let l: Vec<u8> = k.got[0].drain(..=i).collect();
                let want = text + if k.k == Kind::Tel { "\r\n" } else { "\n" };
                Some(if first.is_some() && l == want.as_bytes() { Ok("ok") } else { Err(format!("{l:?}")) })
            }
            Kind::Vxi => {
                let r = record(&mut k.got[0])?;
                let Some(o) = first else { return Some(Err("reply".into())) };
                let Some(r) = results(&r, o.id) else { return Some(Err("reply".into())) };
                let mut r = Rd(&r);
                match (r.u()?, r.u()) {
                    (0, Some(n)) if o.op == "cmd" && n as usize != text.len() => Some(Err(format!("{n} bytes written"))),
                    (e, _) => verdict(e == 0),
                }
            }
            Kind::His => {
                if let Some((t, _, p, b)) = hislip_msg(&mut k.got[0]) {
                    let ok = first.as_ref().is_some_and(|o| o.op == "cmd") && t == 7 && p == k.msg && b == text.as_bytes();
                    return if ok { verdict(true) } else { Some(Err(format!("{t} {p} {b:?}"))) };
                }
                let (t, c, _, _) = hislip_msg(&mut k.got[1])?;
                match first {
                    Some(o) if t == 5 && o.op == "lock" => verdict(c == 1),
                    Some(o) if t == 5 && o.op == "unlock" => verdict(c == 1 || c == 2),
                    _ => Some(Err(format!("async {t} {c}"))),
                }
            }
        }
    }

    fn poll(&mut self) -> bool {
        let mut any = false;
        for c in 1..=self.cl.len() {
            let k = &mut self.cl[c - 1];
            if k.left {
                continue;
            }
            let mut eof = false;
            for i in 0..k.s.len() {
                eof |= World::recv(&mut k.s[i], &mut k.got[i]);
            }
            while let Some(r) = Self::result(k) {
                any = true;
                match r {
                    Ok(r) => {
                        let o = k.pend.remove(0);
                        push(&self.log, json!({"e":"res","c":c,"id":o.id,"r":r}));
                        if r == "ok" && o.op == "lock" {
                            self.lock.granted(c, &o.key);
                        }
                        if r == "ok" && o.op == "unlock" {
                            self.lock.unlock(c);
                        }
                    }
                    Err(m) => {
                        push(&self.log, json!({"e":"wrong","c":c,"msg":m}));
                        self.dead = true;
                        return true;
                    }
                }
            }
            if eof {
                push(&self.log, json!({"e":"eof","c":c}));
                self.dead = true;
                return true;
            }
        }
        any
    }

    fn stuck(&self, c: usize) -> bool {
        let Some(o) = self.cl[c - 1].pend.first() else { return false };
        o.wait == "long"
            && match o.op.as_str() {
                "cmd" => !self.lock.may(c) && !self.state.lock().unwrap().1.contains(&o.id),
                "lock" => self.lock.refused(c, &o.key),
                _ => false,
            }
    }

    /// Whether nothing else will happen
    fn rest(&mut self) -> bool {
        for c in 1..=self.cl.len() {
            if self.cl[c - 1].left && self.lock.holds(c) && !self.stuck(c) {
                self.lock.release(c);
            }
        }
        (1..=self.cl.len()).all(|c| self.cl[c - 1].left || self.cl[c - 1].pend.is_empty() || self.stuck(c))
    }

    fn quiet(&mut self) {
        let t = Instant::now();
        // Those who left may still be at it
        let more = Duration::from_millis(2 + self.rng.below(3) as u64 * 2);
        let mut since: Option<(Instant, usize)> = None;
        while !self.dead {
            self.poll();
            let n = self.log.lock().unwrap().len();
            if !self.rest() || self.state.lock().unwrap().0 {
                since = None;
            } else if since.is_none_or(|s| s.1 != n) {
                since = Some((Instant::now(), n));
            } else if since.unwrap().0.elapsed() > more {
                break;
            }
            if t.elapsed() > PATIENCE {
                self.dead = true;
                push(&self.log, json!({"e":"quiet"}));
                return;
            }
            std::thread::sleep(Duration::from_micros(200));
        }
        if !self.dead {
            push(&self.log, json!({"e":"quiet"}));
        }
    }

    fn go(&mut self, a: &Value) {
        if self.dead {
            return;
        }
        let c = a[1].as_u64().unwrap_or(0) as usize;
        match a[0].as_str().unwrap() {
            "quiet" => self.quiet(),
            "poll" => {
                self.poll();
            }
            "sleep" => {
                std::thread::sleep(Duration::from_micros(300));
                self.poll();
            }
            "leave" => {
                let how = self.rng.below(4);
                let k = &mut self.cl[c - 1];
                if k.left {
                    return;
                }
                k.left = true;
                push(&self.log, json!({"e":"leave","c":c}));
                if how % 2 == 0 {
                    for s in &k.s {
                        let l = libc::linger { l_onoff: 1, l_linger: 0 };
                        unsafe {
                            libc::setsockopt(
                                s.as_raw_fd(),
                                libc::SOL_SOCKET,
                                libc::SO_LINGER,
                                &l as *const _ as *const libc::c_void,
                                std::mem::size_of::<libc::linger>() as u32,
                            );
                        }
                    }
                }
                if how >= 2 {
                    k.s.reverse();
                }
                while k.s.pop().is_some() {
                    if how == 3 {
                        std::thread::sleep(Duration::from_micros(300));
                    }
                }
            }
            op => {
                let key: Vec<u8> = a[3].as_array().map_or(vec![], |v| v.iter().map(|x| x.as_u64().unwrap() as u8).collect());
                let w = a[2].as_str().unwrap_or("no").to_string();
                self.request(c, op, &w, &key)
            }
        }
    }

    fn finish(&mut self) {
        // Locks are given back one after the other, until nobody waits any more
        for _ in 0..self.cl.len() {
            self.go(&json!(["quiet"]));
            for c in 1..=self.cl.len() {
                if self.lock.holds(c) {
                    let op = if self.rng.chance(1, 3) { "leave" } else { "unlock" };
                    self.go(&json!([op, c]));
                    self.go(&json!(["quiet"]));
                }
            }
        }
        for c in 1..=self.cl.len() {
            self.go(&json!(["cmd", c, "no"]));
        }
        self.go(&json!(["quiet"]));
        for c in 1..=self.cl.len() {
            self.go(&json!(["leave", c]));
        }
        self.go(&json!(["quiet"]));
    }

    fn end(mut self) -> Vec<Value> {
        self.cl.clear();
        for t in self.tasks.drain(..) {
            async_std::task::block_on(t.cancel());
        }
        let v = std::mem::take(&mut *self.log.lock().unwrap());
        v
    }
}

fn world(seed: u64, kinds: &[Kind]) -> (World, Result<(), String>) {
    let mut rng = Rng::new(seed);
    let ip = address();
    let log: Log = Arc::new(StdMutex::new(vec![]));
    let state = Arc::new(StdMutex::new((false, vec![])));
    let dev = Arc::new(Mutex::new(Dev { log: log.clone(), state: state.clone(), rng: Rng::new(rng.next()) }));
    let lock = SharedLock::new();
    let mut tasks = vec![];
    tasks.push(async_std::task::spawn(
        lxi_socket::server::ServerConfig::default().read_buffer(256).build().accept((ip, 5025), lock.clone(), dev.clone()),
    ));
    tasks.push(async_std::task::spawn(
        lxi_telnet::server::ServerConfig::new(256).build().accept((ip, 5024), lock.clone(), dev.clone()),
    ));
    let (core, _) = VxiServerBuilder::new()
        .core_port(4322)
        .async_port(4323)
        .device("inst0".to_string(), dev.clone(), lock.clone())
        .build(StatusSender::new());
    tasks.push(async_std::task::spawn(core.bind(ip.into())));
    let his = lxi_hislip::server::ServerBuilder::new(lxi_hislip::server::ServerConfig::default())
        .device("hislip0".to_string(), dev.clone(), lock.clone())
        .build();
    tasks.push(async_std::task::spawn(his.accept((ip, 4880), StatusSender::new(), Spawner)));
    let mut w = World { ip, tasks, cl: vec![], lock: Belief::default(), state, log, rng, next: 10, dead: false };
    for k in kinds {
        if let Err(e) = w.join(*k) {
            return (w, Err(e));
        }
    }
    (w, Ok(()))
}

fn result(seed: u64, kinds: &[Kind], f: impl FnOnce(&mut World)) -> Value {
    let (mut w, r) = world(seed, kinds);
    match r {
        Ok(()) => {
            f(&mut w);
            w.finish();
        }
        Err(e) => push(&w.log, json!({"e":"setup","msg":e})),
    }
    let names: Vec<String> = kinds.iter().map(|k| format!("{k:?}")).collect();
    json!({"n":kinds.len(),"cfg":{},"kinds":names,"ev":w.end()})
}

fn random_run(seed: u64, len: usize) -> Value {
    let mut rng = Rng::new(seed ^ 0x3333);
    let n = 2 + rng.below(4);
    let mut kinds: Vec<Kind> = (0..n).map(|_| *rng.pick(&[Kind::Raw, Kind::Tel, Kind::Vxi, Kind::Vxi, Kind::His, Kind::His])).collect();
    // Somebody must be able to lock
    kinds[0] = *rng.pick(&[Kind::Vxi, Kind::His]);
    let calm = rng.chance(1, 3);
    let keys: &[&[u8]] = if rng.chance(1, 2) { &[b""] } else { &[b"", b"A", b"A", b"B"] };
    result(seed, &kinds, |w| {
        for _ in 0..len {
            let c = 1 + rng.below(n);
            let wait = *rng.pick(&["no", "short", "long", "long"]);
            match rng.weighted(&[8, 5, 5, 1, 4, 3]) {
                0 => w.go(&json!(["cmd", c, wait])),
                1 => w.go(&json!(["lock", c, wait, *rng.pick(keys)])),
                2 => w.go(&json!(["unlock", c])),
                3 if rng.chance(1, 2) => w.go(&json!(["leave", c])),
                4 => w.go(&json!(["quiet"])),
                _ => w.go(&json!(["sleep"])),
            }
            if calm && rng.chance(1, 2) {
                w.go(&json!(["quiet"]));
            }
        }
    })
}

fn replay(seed: u64, v: &Value) -> Value {
    let mut rng = Rng::new(seed ^ 0x4321);
    let kinds: Vec<Kind> = v["kinds"].as_array().unwrap().iter().map(|s| kind(s.as_str().unwrap())).collect();
    result(seed, &kinds, |w| {
        let hasty = rng.chance(1, 3);
        for s in v["steps"].as_array().unwrap() {
            w.go(s);
            if !hasty || rng.chance(1, 4) {
                w.go(&json!(["quiet"]));
            }
        }
    })
}

pub fn run(args: &Args) {
    let mut out = Out::new(args.get("out").unwrap());
    let seed = args.num("seed", 1);
    let par = args.num("par", 24);
    let mut all = vec![];
    if let Some(f) = args.get("seqs") {
        let s = std::fs::read_to_string(f).unwrap();
        let lines: Vec<&str> = s.lines().collect();
        all.extend(parallel(lines.len() as u64, par, |i| {
            replay(seed.wrapping_mul(1_000_003) + i, &serde_json::from_str(lines[i as usize]).unwrap())
        }));
    }
    all.extend(parallel(args.num("n", 0), par, |i| {
        random_run(seed.wrapping_mul(7_000_003).wrapping_add(i), args.num("len", 25) as usize)
    }));
    for (i, mut v) in all.into_iter().enumerate() {
        v["id"] = json!(i + 1);
        out.line(&v);
    }
    out.flush();
}
