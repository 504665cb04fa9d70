//! Accept loops over real sockets: limits, faults, garbage
use std::io::{BufRead, ErrorKind, Read, Write};
use std::net::{Ipv4Addr, Shutdown, SocketAddr, TcpStream, UdpSocket};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::path::PathBuf;
use std::sync::atomic::{AtomicU32, Ordering};
use std::sync::Arc;
use std::time::{Duration, Instant};

use async_std::task::JoinHandle;
use futures::lock::Mutex;
use lxi_device::lock::SharedLock;
use lxi_device::status::Sender as StatusSender;
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use lxi_vxi11::server::portmapper::prelude::*;
use lxi_vxi11::server::vxi11::prelude::*;
use serde_json::{json, Value};

use crate::util::{parallel, Args, Out, Rng};
use crate::vxi::{callmsg, fragments, u, Hdr, Rd};

const PATIENCE: Duration = Duration::from_secs(6);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Proto {
    Raw,
    Unix,
    Tel,
    Core,
    Abort,
    Pm,
    His,
}

const ALL: [Proto; 7] = [Proto::Raw, Proto::Unix, Proto::Tel, Proto::Core, Proto::Abort, Proto::Pm, Proto::His];

impl Proto {
    fn name(self) -> &'static str {
        match self {
            Proto::Raw => "raw",
            Proto::Unix => "unix",
            Proto::Tel => "tel",
            Proto::Core => "core",
            Proto::Abort => "abort",
            Proto::Pm => "pm",
            Proto::His => "his",
        }
    }
    fn parse(s: &str) -> Self {
        *ALL.iter().find(|p| p.name() == s).expect("protocol")
    }
    fn port(self) -> u16 {
        match self {
            Proto::Raw | Proto::Unix => 5025,
            Proto::Tel => 5024,
            Proto::Core => 4322,
            Proto::Abort => 4323,
            Proto::Pm => 11111,
            Proto::His => 4880,
        }
    }
    fn prog(self) -> (u32, u32) {
        match self {
            Proto::Core => (DEVICE_CORE, DEVICE_CORE_VERSION),
            Proto::Abort => (DEVICE_ASYNC, DEVICE_ASYNC_VERSION),
            _ => (PORTMAPPER_PROG, PORTMAPPER_VERS),
        }
    }
    /// Clients are limited by the server itself, not configurable
    fn fixed(self) -> Option<usize> {
        match self {
            Proto::Core | Proto::Abort | Proto::Pm => Some(10),
            _ => None,
        }
    }
}

/// Says what it is told
struct Echo;
impl Device for Echo {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        Some(cmd.to_vec())
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        Ok(0)
    }
    fn trigger(&mut self, _: Source) -> Result<(), DeviceError> {
        Ok(())
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        Ok(())
    }
    fn set_remote(&mut self, _: bool) -> Result<(), DeviceError> {
        Ok(())
    }
    fn set_local_lockout(&mut self, _: bool) {}
}

pub struct Spawner;
impl futures::task::Spawn for Spawner {
    fn spawn_obj(&self, f: futures::future::FutureObj<'static, ()>) -> Result<(), futures::task::SpawnError> {
        async_std::task::spawn(f);
        Ok(())
    }
}

/// An address of our own
pub fn address() -> Ipv4Addr {
    static NEXT: AtomicU32 = AtomicU32::new(1);
    let n = NEXT.fetch_add(1, Ordering::SeqCst) % (250 * 250);
    Ipv4Addr::new(127, 10 + (std::process::id() % 240) as u8, (n / 250) as u8, 1 + (n % 250) as u8)
}

fn serve(p: Proto, ip: Ipv4Addr, lim: usize, path: &std::path::Path) -> JoinHandle<std::io::Result<()>> {
    let lock = SharedLock::new();
    let dev = Arc::new(Mutex::new(Echo));
    let at = (ip, p.port());
    let path = path.to_owned();
    match p {
        Proto::Raw | Proto::Unix => {
            let s = lxi_socket::server::ServerConfig::default().read_buffer(4096).backpressure(lim).build();
            if p == Proto::Raw {
                async_std::task::spawn(s.accept(at, lock, dev))
            } else {
                async_std::task::spawn(async move { s.accept_unix(async_std::path::Path::new(&path), lock, dev).await })
            }
        }
        Proto::Tel => {
            let s = lxi_telnet::server::ServerConfig::new(4096).backpressure(lim).build();
            async_std::task::spawn(s.accept(at, lock, dev))
        }
        Proto::Core | Proto::Abort => {
            let (c, a) = VxiServerBuilder::new()
                .core_port(Proto::Core.port())
                .async_port(Proto::Abort.port())
                .device("inst0".to_string(), dev, lock)
                .build(StatusSender::new());
            if p == Proto::Core {
                async_std::task::spawn(c.bind(ip.into()))
            } else {
                async_std::task::spawn(a.bind(ip.into()))
            }
        }
        Proto::Pm => {
            let m = StaticPortMap::new([Mapping::new(DEVICE_CORE, DEVICE_CORE_VERSION, PORTMAPPER_PROT_TCP, 4322)]);
            async_std::task::spawn(m.bind(at))
        }
        Proto::His => {
            let cfg = lxi_hislip::server::ServerConfig::default().max_num_sessions(1000);
            let s = lxi_hislip::server::ServerBuilder::new(cfg).device("hislip0".to_string(), dev, lock).build();
            async_std::task::spawn(s.accept(at, StatusSender::new(), Spawner))
        }
    }
}

enum Sock {
    T(TcpStream),
    U(UnixStream),
}
impl Sock {
    fn io(&mut self) -> &mut dyn ReadWrite {
        match self {
            Sock::T(s) => s,
            Sock::U(s) => s,
        }
    }
}
trait ReadWrite: Read + Write {}
impl<T: Read + Write> ReadWrite for T {}

struct Client {
    s: Option<Sock>,
    got: Vec<u8>,
    /// Requests to be answered
    exp: Vec<u32>,
    hello: bool,
    bad: bool,
    /// Was served
    seen: bool,
    /// Does not even read
    mute: bool,
    half: bool,
    eof: bool,
}

enum Place {
    Here(Option<JoinHandle<std::io::Result<()>>>),
    Child(std::process::Child),
}

struct World {
    p: Proto,
    ip: Ipv4Addr,
    dir: PathBuf,
    lim: usize,
    place: Place,
    fill: Vec<Client>,
    cl: Vec<Option<Client>>,
    order: Vec<usize>,
    ev: Vec<Value>,
    rng: Rng,
    next: u32,
    dead: bool,
}

fn hdr(p: Proto) -> Hdr {
    let (pg, vs) = p.prog();
    Hdr { rv: 2, cr: 0, ve: 0, pg, vs, pr: 0 }
}

fn is_reply(b: &[u8], xid: u32) -> bool {
    // Accepted, successful, no results
    let mut r = Rd(b);
    r.u() == Some(xid)
        && r.u() == Some(1)
        && r.u() == Some(0)
        && r.u().is_some()
        && r.opaque().is_some()
        && r.u() == Some(0)
        && r.0.is_empty()
}

impl World {
    fn push(&mut self, v: Value) {
        self.ev.push(v)
    }

    fn connect(&self, wait: Duration) -> std::io::Result<Sock> {
        let s = match self.p {
            Proto::Unix => Sock::U(UnixStream::connect(self.dir.join("sock"))?),
            p => {
                let s = TcpStream::connect_timeout(&SocketAddr::from((self.ip, p.port())), wait)?;
                s.set_nodelay(true)?;
                Sock::T(s)
            }
        };
        match &s {
            Sock::T(s) => s.set_nonblocking(true)?,
            Sock::U(s) => s.set_nonblocking(true)?,
        }
        Ok(s)
    }

    fn client(&self, s: Sock) -> Client {
        Client { s: Some(s), got: vec![], exp: vec![], hello: self.p != Proto::Tel, seen: false, bad: false, mute: false, half: false, eof: false }
    }

    fn request(&mut self) -> (u32, Vec<u8>) {
        self.next += 1;
        let n = self.next;
        let b = match self.p {
            Proto::Raw | Proto::Unix => format!("p{n}\n").into_bytes(),
            Proto::Tel => format!("p{n}\r\n").into_bytes(),
            Proto::Core | Proto::Abort | Proto::Pm => {
                let m = callmsg(n, &hdr(self.p), b"", b"");
                fragments(&mut self.rng, &m)
            }
            // Vendor specific, refused
            Proto::His => {
                let mut b = b"HS".to_vec();
                b.push(128 + (n % 128) as u8);
                b.push(0);
                u(&mut b, n);
                u(&mut b, 0);
                u(&mut b, 3);
                b.extend(b"abc");
                b
            }
        };
        (n, b)
    }

    /// Next answer: request it belongs to, or that it is none
    fn answer(p: Proto, k: &mut Client) -> Option<Result<u32, ()>> {
        if !k.hello {
            let want = b"SCPI> ";
            let n = want.len().min(k.got.len());
            if k.got[..n] != want[..n] {
                return Some(Err(()));
            }
            if n < want.len() {
                return None;
            }
            k.got.drain(..n);
            k.hello = true;
            return Some(Ok(0));
        }
        let first = k.exp.first().copied();
        match p {
            Proto::Raw | Proto::Unix | Proto::Tel => {
                if p == Proto::Tel {
                    // Prompts and go aheads
                    loop {
                        if k.got.starts_with(b"SCPI> ") {
                            k.got.drain(..6);
                        } else if k.got.starts_with(&[255, 3]) || k.got.starts_with(&[255, 249]) {
                            k.got.drain(..2);
                        } else {
                            break;
                        }
                    }
                }
                let i = k.got.iter().position(|b| *b == b'\n')?;
                let line: Vec<u8> = k.got.drain(..=i).collect();
                let want = format!("p{}{}", first?, if p == Proto::Tel { "\r\n" } else { "\n" });
                Some(if line == want.as_bytes() { Ok(first?) } else { Err(()) })
            }
            Proto::Core | Proto::Abort | Proto::Pm => {
                let h = u32::from_be_bytes(k.got.get(..4)?.try_into().unwrap());
                let n = (h & 0x7fff_ffff) as usize;
                if k.got.len() < 4 + n {
                    return None;
                }
                let b: Vec<u8> = k.got.drain(..4 + n).collect();
                Some(match first {
                    Some(x) if h >> 31 == 1 && is_reply(&b[4..], x) => Ok(x),
                    _ => Err(()),
                })
            }
            Proto::His => {
                let h = k.got.get(..16)?;
                let n = u64::from_be_bytes(h[8..16].try_into().unwrap()) as usize;
                if n > 100_000 || &h[..2] != b"HS" || h[2] != 3 {
                    return Some(Err(()));
                }
                if k.got.len() < 16 + n {
                    return None;
                }
                k.got.drain(..16 + n);
                Some(first.ok_or(()))
            }
        }
    }

    /// What arrives at a client; whether it is no longer connected, something is wrong, and answers
    fn receive(p: Proto, k: &mut Client) -> (usize, bool, bool) {
        let (mut n, mut eof, mut wrong) = (0, false, false);
        let Some(s) = &mut k.s else { return (0, false, false) };
        let mut b = [0; 4096];
        loop {
            if let Sock::T(s) = s {
                crate::util::quickack(s);
            }
            match s.io().read(&mut b) {
                Ok(0) => {
                    eof = true;
                    break;
                }
                Ok(n) => k.got.extend(&b[..n]),
                Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => {
                    eof = true;
                    break;
                }
            }
        }
        if k.bad {
            k.got.clear();
            return (0, eof, false);
        }
        while let Some(r) = Self::answer(p, k) {
            match r {
                Ok(0) => n += 1,
                Ok(_) => {
                    k.exp.remove(0);
                    n += 1;
                }
                Err(()) => {
                    wrong = true;
                    break;
                }
            }
        }
        (n, eof, wrong)
    }

    fn poll(&mut self) -> bool {
        let mut any = false;
        for c in 1..=self.cl.len() {
            let p = self.p;
            let Some(k) = &mut self.cl[c - 1] else { continue };
            if k.eof || k.mute || k.s.is_none() {
                continue;
            }
            let (n, eof, wrong) = Self::receive(p, k);
            k.eof = eof;
            k.seen |= n > 0;
            for _ in 0..n {
                self.ev.push(json!({"e":"ans","c":c}));
            }
            if wrong {
                self.ev.push(json!({"e":"wrong","c":c}));
                self.dead = true;
            }
            if eof {
                self.ev.push(json!({"e":"eof","c":c}));
            }
            any |= n > 0 || eof;
        }
        any
    }

    /// Whether everybody who should be served is
    fn served(&self) -> bool {
        let mut n = 0;
        for c in &self.order {
            let Some(k) = &self.cl[*c - 1] else { continue };
            if k.s.is_none() || k.eof {
                continue;
            }
            n += 1;
            // Some may have lost their place unnoticed
            if n > self.lim && !k.seen {
                continue;
            }
            if !k.bad && (!k.exp.is_empty() || !k.hello || k.half) {
                return false;
            }
        }
        true
    }

    fn quiet(&mut self) {
        let t = Instant::now();
        let more = Duration::from_millis(self.rng.below(4) as u64 * 3 + 1);
        let mut since: Option<Instant> = None;
        while !self.dead {
            let any = self.poll();
            if any || !self.served() {
                since = None;
            } else if since.is_none() {
                since = Some(Instant::now());
            } else if since.unwrap().elapsed() > more {
                break;
            }
            if t.elapsed() > PATIENCE {
                break;
            }
            std::thread::sleep(Duration::from_micros(300));
        }
        if !self.dead {
            if t.elapsed() > PATIENCE {
                self.dead = true;
            }
            self.push(json!({"e":"quiet"}));
        }
    }

    /// Send, whatever the server makes of it
    fn send(k: &mut Client, b: &[u8]) {
        let mut pos = 0;
        let t = Instant::now();
        let Some(s) = &mut k.s else { return };
        while pos < b.len() {
            match s.io().write(&b[pos..]) {
                Ok(n) => pos += n,
                Err(e) if e.kind() == ErrorKind::WouldBlock && !k.bad && t.elapsed() < PATIENCE => {
                    std::thread::sleep(Duration::from_micros(200))
                }
                Err(e) if e.kind() == ErrorKind::Interrupted => {}
                Err(_) => break,
            }
        }
    }

    fn garbage(&mut self) -> Vec<u8> {
        let p = self.p;
        let rng = &mut self.rng;
        let mut noise = |n: usize| -> Vec<u8> { (0..n).map(|_| rng.below(256) as u8).collect() };
        let n = noise(1)[0] as usize;
        let mut b = match p {
            Proto::Raw | Proto::Unix => match n % 4 {
                0 => noise(n),
                1 => noise(20_000),
                2 => b"xx\n".repeat(2000),
                _ => b"unfinished".to_vec(),
            },
            Proto::Tel => match n % 5 {
                0 => noise(n),
                1 => noise(20_000),
                2 => [255, 250, 1].to_vec(),
                3 => [255, 253, 1, 255, 254, 1].repeat(500),
                _ => [255, 253].to_vec(),
            },
            Proto::Core | Proto::Abort | Proto::Pm => match n % 7 {
                0 => noise(n),
                1 => noise(20_000),
                2 => vec![0xff, 0xff, 0xff, 0xff, 0, 0, 0, 1],
                3 => vec![0x80, 0, 0, 60, 1, 2],
                4 => vec![0x80, 0, 0, 0].repeat(20),
                5 => vec![0; 4000],
                _ => {
                    // Arguments which do not make sense
                    let mut h = hdr(p);
                    h.pr = 1 + (n as u32 % 30);
                    let mut a = noise(n % 60);
                    if n % 2 == 0 {
                        a.splice(0..0, [0xff, 0xff, 0xff, 0xff]);
                    }
                    let m = callmsg(n as u32, &h, &a, b"");
                    let mut o = vec![];
                    u(&mut o, 0x8000_0000 | m.len() as u32);
                    o.extend(m);
                    o
                }
            },
            Proto::His => {
                let mut b = if n % 3 == 0 { noise(2) } else { b"HS".to_vec() };
                b.push(if n % 2 == 0 { noise(1)[0] } else { [0, 17, 2, 3, 26][n % 5] });
                b.push(0);
                b.extend(noise(4));
                if n % 4 == 0 {
                    b.extend(noise(8));
                } else {
                    b.extend([0; 6]);
                    b.extend([0, [0, 7, 100, 200][n % 4]]);
                }
                b.extend(noise(n % 50));
                b
            }
        };
        if n % 11 == 0 {
            let k = self.rng.below(b.len() + 1);
            b.truncate(k);
        }
        b
    }

    fn go(&mut self, a: &Value) {
        if self.dead {
            return;
        }
        let c = a[1].as_u64().unwrap_or(0) as usize;
        let op = a[0].as_str().unwrap();
        if op == "conn" {
            if self.cl[c - 1].is_some() {
                return;
            }
            self.push(json!({"e":"conn","c":c}));
            match self.connect(PATIENCE) {
                Ok(s) => {
                    self.cl[c - 1] = Some(self.client(s));
                    self.order.push(c);
                }
                Err(e) => {
                    self.push(json!({"e":"refused","c":c,"msg":e.to_string()}));
                    self.dead = true;
                }
            }
            return;
        }
        if op == "quiet" {
            return self.quiet();
        }
        if op == "poll" {
            self.poll();
            return;
        }
        if op == "udp" {
            return self.udp();
        }
        let p = self.p;
        let b = match op {
            "bad" => self.garbage(),
            "probe" => self.request().1,
            _ => vec![],
        };
        let n = self.next;
        let how = self.rng.below(4);
        let Some(k) = &mut self.cl[c - 1] else { return };
        if k.s.is_none() || ((k.eof || k.half) && op != "leave") {
            return;
        }
        match op {
            "probe" => {
                if !k.bad {
                    self.ev.push(json!({"e":"probe","c":c}));
                    k.exp.push(n);
                }
                Self::send(k, &b);
            }
            "bad" => {
                self.ev.push(json!({"e":"bad","c":c}));
                k.bad = true;
                k.mute = how == 0;
                Self::send(k, &b);
            }
            "half" => {
                self.ev.push(json!({"e":"half","c":c}));
                k.half = true;
                let _ = match k.s.as_ref().unwrap() {
                    Sock::T(s) => s.shutdown(Shutdown::Write),
                    Sock::U(s) => s.shutdown(Shutdown::Write),
                };
            }
            "leave" => {
                if how == 0 && !k.half && !k.eof {
                    // With something in the way
                    let _ = match p {
                        Proto::Raw | Proto::Unix | Proto::Tel => k.s.as_mut().unwrap().io().write(b"half a comm"),
                        _ => k.s.as_mut().unwrap().io().write(&[0x80, 0, 0]),
                    };
                }
                self.ev.push(json!({"e":"leave","c":c}));
                let s = k.s.take().unwrap();
                if how % 2 == 0 {
                    if let Sock::T(s) = &s {
                        let l = libc::linger { l_onoff: 1, l_linger: 0 };
                        unsafe {
                            libc::setsockopt(
                                s.as_raw_fd(),
                                libc::SOL_SOCKET,
                                libc::SO_LINGER,
                                &l as *const _ as *const libc::c_void,
                                std::mem::size_of::<libc::linger>() as u32,
                            );
                        }
                    }
                }
                drop(s);
            }
            o => panic!("unknown step {o}"),
        }
    }

    /// The port mapper over UDP: garbage, and calls
    fn udp(&mut self) {
        if self.p != Proto::Pm {
            return;
        }
        let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).unwrap();
        s.connect((self.ip, self.p.port())).unwrap();
        for _ in 0..self.rng.below(4) {
            let b = self.garbage();
            let _ = s.send(&b[..b.len().min(1400)]);
        }
        if self.rng.chance(1, 2) {
            // Somebody who does not want the answer
            let g = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).unwrap();
            let _ = g.send_to(&callmsg(1, &hdr(Proto::Pm), b"", b""), (self.ip, self.p.port()));
        }
        self.next += 1;
        let m = callmsg(self.next, &hdr(Proto::Pm), b"", b"");
        s.set_read_timeout(Some(Duration::from_millis(500))).unwrap();
        let t = Instant::now();
        let mut sent = None;
        while t.elapsed() < PATIENCE {
            if sent.is_none_or(|x: Instant| x.elapsed() > Duration::from_secs(1)) {
                // Datagrams may be lost
                let _ = s.send(&m);
                sent = Some(Instant::now());
            }
            let mut b = [0; 2000];
            match s.recv(&mut b) {
                Ok(n) if is_reply(&b[..n], self.next) => return,
                _ => {}
            }
        }
        self.push(json!({"e":"late","msg":"no answer over UDP"}));
        self.dead = true;
    }

    fn finish(&mut self) {
        self.go(&json!(["quiet"]));
        // Everybody else is still there
        for i in 0..self.fill.len() {
            let (n, b) = self.request();
            self.fill[i].exp.push(n);
            Self::send(&mut self.fill[i], &b);
        }
        let t = Instant::now();
        let p = self.p;
        for i in 0..self.fill.len() {
            while !self.dead {
                let (n, eof, wrong) = Self::receive(p, &mut self.fill[i]);
                if n > 0 && !eof && !wrong {
                    break;
                }
                if eof || wrong || t.elapsed() > PATIENCE {
                    self.push(json!({"e":"lost","i":i,"eof":eof,"wrong":wrong}));
                    self.dead = true;
                }
                std::thread::sleep(Duration::from_micros(300));
            }
        }
        // All leave, a new one comes
        for c in 1..self.cl.len() {
            self.go(&json!(["leave", c]));
        }
        self.fill.clear();
        let c = self.cl.len();
        self.go(&json!(["conn", c]));
        self.go(&json!(["probe", c]));
        self.go(&json!(["quiet"]));
    }

    fn end(mut self) -> Vec<Value> {
        let ev = std::mem::take(&mut self.ev);
        self.cl.clear();
        self.fill.clear();
        match self.place {
            Place::Here(Some(t)) => {
                async_std::task::block_on(t.cancel());
            }
            Place::Here(None) => {}
            Place::Child(mut c) => {
                drop(c.stdin.take());
                let _ = c.kill();
                let _ = c.wait();
            }
        }
        let _ = std::fs::remove_dir_all(&self.dir);
        ev
    }
}

/// Start a server and wait until it serves
fn world(p: Proto, seed: u64, clients: usize, lim: usize, fd: bool) -> Result<World, String> {
    let rng = Rng::new(seed);
    let ip = address();
    let dir = std::env::temp_dir().join(format!("lxinet-{}-{}", std::process::id(), u32::from(ip)));
    std::fs::create_dir_all(&dir).unwrap();
    let place = if fd {
        let c = std::process::Command::new(std::env::current_exe().unwrap())
            .args(["net-serve", &format!("proto={}", p.name()), &format!("ip={ip}"), &format!("free={lim}")])
            .arg(format!("path={}", dir.join("sock").display()))
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .stderr(std::process::Stdio::null())
            .spawn()
            .expect("child");
        Place::Child(c)
    } else {
        // Those of a limit which cannot be configured are taken by others
        Place::Here(Some(serve(p, ip, p.fixed().unwrap_or(lim), &dir.join("sock"))))
    };
    let mut w = World {
        p,
        ip,
        dir,
        lim: if p == Proto::His && !fd { 1000 } else { lim },
        place,
        fill: vec![],
        cl: (0..=clients).map(|_| None).collect(),
        order: vec![],
        ev: vec![],
        rng,
        next: 0,
        dead: false,
    };
    let t = Instant::now();
    let s = loop {
        match w.connect(PATIENCE) {
            Ok(s) => break s,
            Err(e) if t.elapsed() > PATIENCE => return Err(format!("no server: {e}")),
            Err(_) => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let mut more = vec![s];
    if !fd {
        for _ in 1..p.fixed().map_or(0, |n| n - lim) {
            more.push(w.connect(PATIENCE).map_err(|e| format!("refused: {e}"))?);
        }
    }
    for s in more {
        let mut k = w.client(s);
        let (n, b) = w.request();
        k.exp.push(n);
        World::send(&mut k, &b);
        w.fill.push(k);
    }
    let t = Instant::now();
    for k in &mut w.fill {
        while !k.exp.is_empty() || !k.hello {
            let (_, eof, wrong) = World::receive(p, k);
            if eof || wrong || t.elapsed() > PATIENCE {
                return Err("first clients are not served".into());
            }
            std::thread::sleep(Duration::from_micros(200));
        }
    }
    if fd || p.fixed().is_none() {
        w.fill.clear();
    }
    if let Place::Child(c) = &mut w.place {
        // Wait until our first connection is forgotten
        std::thread::sleep(Duration::from_millis(30));
        writeln!(c.stdin.as_mut().unwrap(), "limit").unwrap();
        let mut l = String::new();
        std::io::BufReader::new(c.stdout.as_mut().unwrap()).read_line(&mut l).unwrap();
        if l.trim() != "ok" {
            return Err("child".into());
        }
    }
    Ok(w)
}

/// Child with few file descriptors
pub fn child(args: &Args) {
    let p = Proto::parse(args.get("proto").unwrap());
    let ip: Ipv4Addr = args.get("ip").unwrap().parse().unwrap();
    let t = serve(p, ip, 1000, std::path::Path::new(args.get("path").unwrap()));
    let mut l = String::new();
    let _ = std::io::stdin().read_line(&mut l);
    if l.is_empty() {
        return;
    }
    // All below the highest one count as used
    let top = std::fs::read_dir("/proc/self/fd")
        .unwrap()
        .filter_map(|e| e.ok()?.file_name().to_str()?.parse::<u64>().ok())
        .collect::<std::collections::BTreeSet<_>>();
    // The directory itself is one of them
    let n = args.num("free", 3) + top.len() as u64 - 1;
    let r = libc::rlimit { rlim_cur: n, rlim_max: n };
    unsafe { libc::setrlimit(libc::RLIMIT_NOFILE, &r) };
    println!("ok");
    let _ = std::io::stdin().read_line(&mut l);
    drop(t);
}

fn result(w: Result<World, String>, p: Proto, lim: usize, fd: bool, n: usize, f: impl FnOnce(&mut World)) -> Value {
    // The operating system's limit is met more or less
    let (lo, hi) = if p == Proto::His && !fd { (1000, 1000) } else if fd { (lim, lim + 3) } else { (lim, lim) };
    let cfg = json!({"lo":lo,"hi":hi,"hello":p == Proto::Tel});
    let ev = match w {
        Ok(mut w) => {
            f(&mut w);
            w.finish();
            w.end()
        }
        Err(e) => vec![json!({"e":"died","msg":e})],
    };
    json!({"cfg":cfg,"n":n + 1,"ev":ev,"p":p.name(),"fd":fd})
}

fn random_run(seed: u64, p: Proto, len: usize, fd: bool) -> Value {
    let mut rng = Rng::new(seed ^ 0x1234);
    let lim = if fd { 2 + rng.below(2) } else { 1 + rng.below(3) };
    let n = 4 + rng.below(if fd { 6 } else { 9 });
    result(world(p, seed, n, lim, fd), p, lim, fd, n, |w| {
        let mut next = 1;
        let calm = rng.chance(1, 3);
        for _ in 0..len {
            // Mostly those who are there
            let here: Vec<usize> = (1..=n).filter(|c| w.cl[c - 1].as_ref().is_some_and(|k| k.s.is_some())).collect();
            let c = if here.is_empty() { 1 } else { *rng.pick(&here) };
            let st = match rng.weighted(&[6, 7, 2, 2, 5, 3, 4, 1]) {
                0 if next <= n => {
                    next += 1;
                    json!(["conn", next - 1])
                }
                1 => json!(["probe", c]),
                2 if !calm => json!(["half", c]),
                3 if !calm => json!(["bad", c]),
                4 => json!(["leave", c]),
                5 => json!(["quiet"]),
                6 => json!(["poll"]),
                7 => json!(["udp"]),
                _ => continue,
            };
            w.go(&st);
        }
    })
}

fn replay(seed: u64, v: &Value) -> Value {
    let mut rng = Rng::new(seed ^ 0x4321);
    let p = Proto::parse(v["p"].as_str().unwrap());
    let lim = v["lim"].as_u64().unwrap() as usize;
    let steps = v["steps"].as_array().unwrap();
    let n = steps.iter().map(|s| s[1].as_u64().unwrap()).max().unwrap_or(0) as usize;
    result(world(p, seed, n, lim, false), p, lim, false, n, |w| {
        let hasty = rng.chance(1, 2);
        for s in steps {
            w.go(s);
            if !hasty || rng.chance(1, 4) {
                w.go(&json!(["quiet"]));
            }
        }
    })
}

pub fn run(args: &Args) {
    let mut out = Out::new(args.get("out").unwrap());
    let seed = args.num("seed", 1);
    let par = args.num("par", 32);
    let mut all = vec![];
    if let Some(f) = args.get("seqs") {
        let s = std::fs::read_to_string(f).unwrap();
        let lines: Vec<&str> = s.lines().collect();
        all.extend(parallel(lines.len() as u64, par, |i| {
            replay(seed.wrapping_mul(1_000_003) + i, &serde_json::from_str(lines[i as usize]).unwrap())
        }));
    }
    let ps: Vec<Proto> = args.str("prof", "raw,unix,tel,core,abort,pm,his").split(',').map(Proto::parse).collect();
    let fd = args.get("fd").is_some();
    all.extend(parallel(args.num("n", 0), par, |i| {
        random_run(seed.wrapping_mul(7_000_003).wrapping_add(i), ps[i as usize % ps.len()], args.num("len", 25) as usize, fd)
    }));
    for (i, mut v) in all.into_iter().enumerate() {
        v["id"] = json!(i + 1);
        out.line(&v);
    }
    out.flush();
}
