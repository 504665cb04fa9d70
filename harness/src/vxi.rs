//! Driver for the VXI-11 server, its abort channel and the port mapper: clients over loopback sockets.
use std::collections::{BTreeSet, HashMap};
use std::io::{ErrorKind, Read, Write};
use std::net::{Ipv4Addr, Shutdown, SocketAddr, TcpListener, TcpStream, UdpSocket};
use std::sync::{Arc, Mutex as StdMutex};
use std::time::{Duration, Instant};

use futures::lock::{Mutex, OwnedMutexGuard};
use lxi_device::lock::{LockHandle, SharedLock, SpinMutex};
use lxi_device::status::Sender as StatusSender;
use lxi_device::trigger::Source;
use lxi_device::{Device, DeviceError};
use lxi_vxi11::server::portmapper::prelude::*;
use lxi_vxi11::server::vxi11::prelude::*;
use serde_json::{json, Value};

use crate::util::{bytes, Args, Out, Rng};

pub type Log = Arc<StdMutex<Vec<Value>>>;
pub fn push(l: &Log, v: Value) {
    l.lock().unwrap().push(v)
}

const LONG: u64 = 20_000_000;
pub const PATIENCE: Duration = Duration::from_secs(6);

/// Records every call
pub struct Dev {
    d: usize,
    log: Log,
    rng: Rng,
    maxresp: usize,
    errs: bool,
}

impl Dev {
    fn think(&mut self) {
        if self.rng.chance(1, 12) {
            std::thread::sleep(Duration::from_micros(self.rng.below(400) as u64));
        }
    }
    fn err(&mut self) -> usize {
        if self.errs && self.rng.chance(1, 6) {
            1 + self.rng.below(3)
        } else {
            0
        }
    }
}

fn deverr(e: usize) -> Result<(), DeviceError> {
    match e {
        0 => Ok(()),
        1 => Err(DeviceError::NotSupported),
        2 => Err(DeviceError::IoTimeout),
        _ => Err(DeviceError::IoError),
    }
}

/// A response: bytes from a small alphabet, so that termination characters occur
pub fn response(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = match rng.below(5) {
        0 => 0,
        1 => rng.below(3),
        _ => 1 + rng.below(max),
    };
    (0..n).map(|_| *rng.pick(&[10u8, 13, 65, 66, 0, 255])).collect()
}

impl Device for Dev {
    fn execute(&mut self, cmd: &[u8]) -> Option<Vec<u8>> {
        self.think();
        let m = self.maxresp;
        let r = response(&mut self.rng, m);
        push(&self.log, json!({"e":"exec","d":self.d,"cmd":bytes(cmd),"r":bytes(&r)}));
        self.think();
        if r.is_empty() && self.rng.chance(1, 2) {
            None
        } else {
            Some(r)
        }
    }
    fn get_status(&mut self) -> Result<u8, DeviceError> {
        self.think();
        let e = self.err();
        let v = self.rng.below(256) as u8;
        push(&self.log, json!({"e":"stb","d":self.d,"v":v,"err":e}));
        deverr(e).map(|_| v)
    }
    fn trigger(&mut self, _: Source) -> Result<(), DeviceError> {
        self.think();
        let e = self.err();
        push(&self.log, json!({"e":"trig","d":self.d,"err":e}));
        deverr(e)
    }
    fn clear(&mut self) -> Result<(), DeviceError> {
        self.think();
        let e = self.err();
        push(&self.log, json!({"e":"clear","d":self.d,"err":e}));
        deverr(e)
    }
    fn set_remote(&mut self, remote: bool) -> Result<(), DeviceError> {
        let e = self.err();
        push(&self.log, json!({"e":"rem","d":self.d,"on":remote,"err":e}));
        deverr(e)
    }
    fn set_local_lockout(&mut self, _: bool) {
        push(&self.log, json!({"e":"llo","d":self.d}));
    }
}

// ------------------------------------------------------------------------------------------
// XDR

pub fn u(o: &mut Vec<u8>, v: u32) {
    o.extend(v.to_be_bytes())
}
pub fn opaque(o: &mut Vec<u8>, b: &[u8]) {
    u(o, b.len() as u32);
    o.extend(b);
    o.extend(std::iter::repeat(0).take((4 - b.len() % 4) % 4));
}

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    pub fn u(&mut self) -> Option<u32> {
        if self.0.len() < 4 {
            return None;
        }
        let (a, b) = self.0.split_at(4);
        self.0 = b;
        Some(u32::from_be_bytes(a.try_into().unwrap()))
    }
    pub fn opaque(&mut self) -> Option<Vec<u8>> {
        let n = self.u()? as usize;
        let p = n.checked_add(3)? & !3;
        if self.0.len() < p {
            return None;
        }
        let (a, b) = self.0.split_at(p);
        self.0 = b;
        Some(a[..n].to_vec())
    }
}

/// Header of a call
#[derive(Clone, Copy)]
pub struct Hdr {
    pub rv: u32,
    pub cr: u32,
    pub ve: u32,
    pub pg: u32,
    pub vs: u32,
    pub pr: u32,
}

pub fn callmsg(xid: u32, h: &Hdr, args: &[u8], body: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    u(&mut o, xid);
    u(&mut o, 0);
    for v in [h.rv, h.pg, h.vs, h.pr, h.cr] {
        u(&mut o, v);
    }
    opaque(&mut o, if h.cr != 0 { body } else { b"" });
    u(&mut o, h.ve);
    opaque(&mut o, if h.ve != 0 { body } else { b"" });
    o.extend(args);
    o
}

/// Cut a record into fragments
pub fn fragments(rng: &mut Rng, rec: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut pos = 0;
    while rng.chance(1, 3) {
        let n = rng.below(rec.len() - pos + 1);
        u(&mut o, n as u32);
        o.extend(&rec[pos..pos + n]);
        pos += n;
    }
    u(&mut o, 0x8000_0000 | (rec.len() - pos) as u32);
    o.extend(&rec[pos..]);
    o
}

fn num(v: u32) -> u32 {
    v.min(0x7fff_ffff)
}

// ------------------------------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Core,
    Abort,
    Pmt,
    Pmu,
}
impl Kind {
    fn name(self) -> &'static str {
        match self {
            Kind::Core => "core",
            Kind::Abort => "abort",
            Kind::Pmt => "pmt",
            Kind::Pmu => "pmu",
        }
    }
    fn prog(self) -> (u32, u32) {
        match self {
            Kind::Core => (395183, 1),
            Kind::Abort => (395184, 1),
            _ => (100000, 2),
        }
    }
}

enum Sock {
    T(TcpStream),
    U(UdpSocket),
}

#[derive(Clone)]
struct Pend {
    c: usize,
    x: u32,
    op: &'static str,
    lid: u32,
    /// Waits for a lock: timeout
    w: Option<u64>,
    d: usize,
    b: bool,
    h: Vec<u8>,
    p: usize,
    at: Instant,
    name: i64,
}

struct Conn {
    kind: Kind,
    sock: Option<Sock>,
    inbuf: Vec<u8>,
    pend: Vec<Pend>,
    /// Rest of a record and the event which goes with it
    part: Option<(Vec<u8>, Option<(Value, Pend)>)>,
    shut: bool,
    gone: bool,
    eof: bool,
    junk: bool,
    lids: Vec<u32>,
    murky: bool,
    chan: Option<usize>,
}

#[derive(Clone)]
struct LinkS {
    c: usize,
    d: usize,
    srq: bool,
}

struct Peer {
    tl: Option<TcpListener>,
    ts: Option<TcpStream>,
    us: Option<UdpSocket>,
    buf: Vec<u8>,
    port: u16,
    expect: usize,
    dead: bool,
}

#[derive(Default, Clone)]
struct LockS {
    x: i64,
    sh: BTreeSet<i64>,
    key: Vec<u8>,
}
impl LockS {
    fn can_use(&self, h: i64) -> bool {
        if self.x != 0 {
            self.x == h
        } else {
            self.sh.is_empty() || self.sh.contains(&h)
        }
    }
    fn free_for(&self, h: i64) -> bool {
        self.x == 0 && (self.sh.is_empty() || self.sh.contains(&h))
    }
    fn rel(&mut self, h: i64) {
        if self.x == h {
            self.x = 0
        }
        self.sh.remove(&h);
    }
}

struct World {
    log: Log,
    rng: Rng,
    core: SocketAddr,
    abort: SocketAddr,
    pmt: SocketAddr,
    pmu: SocketAddr,
    devs: Vec<Arc<Mutex<Dev>>>,
    locks: Vec<Arc<SpinMutex<SharedLock>>>,
    x: Vec<(usize, LockHandle<Dev>)>,
    held: Vec<Option<OwnedMutexGuard<Dev>>>,
    status: StatusSender,
    conns: Vec<Conn>,
    peers: Vec<Peer>,
    links: HashMap<u32, LinkS>,
    dead: Vec<u32>,
    shadow: Vec<LockS>,
    lidmap: HashMap<u32, u32>,
    lidreal: Vec<u32>,
    xid: u32,
    table: Vec<[u32; 4]>,
    big: bool,
    stuck: bool,
    late: bool,
    maxconns: usize,
    named: HashMap<i64, u32>,
}

const NAMES: [&str; 2] = ["inst0", "gpib,1"];

fn kindname(op: &str) -> u32 {
    match op {
        "null" => 0,
        "create" => 10,
        "write" => 11,
        "read" => 12,
        "stb" => 13,
        "trig" => 14,
        "clear" => 15,
        "rem" => 16,
        "loc" => 17,
        "lock" => 18,
        "unlock" => 19,
        "srq" => 20,
        "docmd" => 22,
        "destroy" => 23,
        "ichan" => 25,
        "dchan" => 26,
        "abort" => 1,
        "getport" => 3,
        "dump" => 4,
        _ => 99,
    }
}

/// What a call asks for
#[derive(Clone, Default)]
struct Op {
    op: &'static str,
    lid: u32,
    w: bool,
    to: u64,
    e: bool,
    tc: i64,
    n: u32,
    data: Vec<u8>,
    b: bool,
    h: Vec<u8>,
    d: usize,
    p: usize,
    ipg: u32,
    ipv: u32,
    name: String,
    /// Name of the link it creates in a script
    nm: i64,
}

impl World {
    fn norm(&mut self, real: u32) -> u32 {
        if let Some(v) = self.lidmap.get(&real) {
            return *v;
        }
        let v = self.lidreal.len() as u32;
        self.lidreal.push(real);
        self.lidmap.insert(real, v);
        v
    }

    fn connect(&mut self, kind: Kind) -> Option<usize> {
        if self.conns.len() >= self.maxconns {
            return None;
        }
        let c = self.conns.len() + 1;
        let addr = match kind {
            Kind::Core => self.core,
            Kind::Abort => self.abort,
            Kind::Pmt => self.pmt,
            Kind::Pmu => self.pmu,
        };
        push(&self.log, json!({"e":"conn","c":c,"k":kind.name()}));
        let sock = if kind == Kind::Pmu {
            let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).expect("udp");
            s.connect(addr).expect("udp");
            s.set_nonblocking(true).unwrap();
            Sock::U(s)
        } else {
            let s = match TcpStream::connect(addr) {
                Ok(s) => s,
                Err(e) => {
                    push(&self.log, json!({"e":"refused","c":c,"msg":e.to_string()}));
                    self.late = true;
                    return None;
                }
            };
            s.set_nodelay(true).unwrap();
            s.set_nonblocking(true).unwrap();
            Sock::T(s)
        };
        self.conns.push(Conn {
            kind,
            sock: Some(sock),
            inbuf: vec![],
            pend: vec![],
            part: None,
            shut: false,
            gone: false,
            eof: false,
            junk: false,
            lids: vec![],
            murky: false,
            chan: None,
        });
        Some(c)
    }

    fn usable(&self, c: usize) -> bool {
        let k = &self.conns[c - 1];
        !k.shut && !k.gone && !k.eof && !k.junk && k.part.is_none()
    }

    fn write(&mut self, c: usize, b: &[u8]) {
        let Some(s) = self.conns[c - 1].sock.as_mut() else { return };
        match s {
            Sock::U(s) => {
                let _ = s.send(b);
            }
            Sock::T(s) => {
                let mut pos = 0;
                let t = Instant::now();
                while pos < b.len() && t.elapsed() < PATIENCE {
                    let n = if self.rng.chance(1, 4) { 1 + self.rng.below(b.len() - pos) } else { b.len() - pos };
                    match s.write(&b[pos..pos + n]) {
                        Ok(n) => pos += n,
                        Err(e) if e.kind() == ErrorKind::WouldBlock => {
                            std::thread::sleep(Duration::from_micros(100))
                        }
                        Err(_) => return,
                    }
                    if self.rng.chance(1, 8) {
                        std::thread::sleep(Duration::from_micros(self.rng.below(300) as u64));
                    }
                }
            }
        }
    }

    fn args(&self, o: &Op) -> Vec<u8> {
        let mut a = vec![];
        let lid = *self.lidreal.get(o.lid as usize).unwrap_or(&0);
        let flags = o.w as u32 | (o.e as u32) << 3 | ((o.tc >= 0) as u32) << 7;
        let to = o.to as u32;
        match o.op {
            "create" => {
                u(&mut a, 7);
                u(&mut a, o.b as u32);
                u(&mut a, to);
                opaque(&mut a, o.name.as_bytes());
            }
            "write" => {
                for v in [lid, 1000, to, flags] {
                    u(&mut a, v);
                }
                opaque(&mut a, &o.data);
            }
            "read" => {
                for v in [lid, o.n, 1000, to, flags, if o.tc >= 0 { o.tc as u32 } else { 10 }] {
                    u(&mut a, v);
                }
            }
            "stb" | "trig" | "clear" | "rem" | "loc" => {
                for v in [lid, flags, to, 1000] {
                    u(&mut a, v);
                }
            }
            "lock" => {
                for v in [lid, flags, to] {
                    u(&mut a, v);
                }
            }
            "unlock" | "destroy" | "abort" => u(&mut a, lid),
            "srq" => {
                u(&mut a, lid);
                u(&mut a, o.b as u32);
                opaque(&mut a, &o.h);
            }
            "docmd" => {
                for v in [lid, flags, 1000, to, 1, 1, 1] {
                    u(&mut a, v);
                }
                opaque(&mut a, &o.data);
            }
            "ichan" => {
                let (port, udp) = if o.p == 0 {
                    (1, false)
                } else {
                    let p = &self.peers[o.p - 1];
                    (p.port, p.us.is_some())
                };
                for v in [u32::from(Ipv4Addr::LOCALHOST), port as u32, o.ipg, o.ipv, udp as u32] {
                    u(&mut a, v);
                }
            }
            "getport" => {
                for b in o.data.chunks(4) {
                    a.extend(b);
                }
            }
            _ => (),
        }
        a
    }

    /// Send a call, or part of it
    fn call(&mut self, c: usize, o: Op) {
        self.call_with(c, o, None, 0)
    }

    fn call_with(&mut self, c: usize, o: Op, hdr: Option<Hdr>, style: usize) {
        let kind = self.conns[c - 1].kind;
        let (pg, vs) = kind.prog();
        let h = hdr.unwrap_or(Hdr { rv: 2, cr: 0, ve: 0, pg, vs, pr: kindname(o.op) });
        self.xid = self.xid.wrapping_add(1 + self.rng.below(3) as u32);
        let xid = self.xid;
        let mut args = self.args(&o);
        let mut op = o.op;
        if style == 2 {
            // Not all of the arguments
            if args.is_empty() {
                return;
            }
            let n = self.rng.below(args.len());
            args.truncate(n);
            op = "bad";
        }
        let mut body = response(&mut self.rng, 9);
        body.push(1);
        let mut msg = callmsg(xid, &h, &args, &body);
        // What is cut off may also follow a complete call
        let tail = if style == 1 && self.rng.chance(1, 2) { 1 + self.rng.below(24) } else { 0 };
        for _ in 0..tail {
            msg.push(self.rng.below(256) as u8);
        }
        let rec = if kind == Kind::Pmu { msg } else { fragments(&mut self.rng, &msg) };
        let data = if o.op == "getport" {
            Value::Array(o.data.chunks(4).map(|b| json!(u32::from_be_bytes(b.try_into().unwrap()))).collect())
        } else {
            bytes(&o.data)
        };
        let ev = json!({"e":"call","c":c,"m":{
            "x":format!("x{xid}"),"rv":num(h.rv),"cr":h.cr,"ve":h.ve,"pg":num(h.pg),"vs":num(h.vs),"pr":num(h.pr),
            "op":op,"lid":o.lid,"w":o.w,"e":o.e,"tc":o.tc,"n":o.n,"data":data,"b":o.b,"h":bytes(&o.h),
            "d":o.d,"nl":0,"p":o.p,"ipg":o.ipg,"ipv":o.ipv}});
        let ok = hdr.is_none() && style != 2;
        let waits = ok && (o.w && !matches!(o.op, "docmd") || o.op == "create" && o.b);
        let d = if o.op == "create" { o.d } else { self.links.get(&o.lid).map_or(0, |l| l.d) };
        let p = Pend {
            c,
            x: xid,
            op: if ok { o.op } else { "other" },
            lid: o.lid,
            w: if waits { Some(o.to) } else { None },
            d,
            b: o.b,
            h: o.h.clone(),
            p: o.p,
            at: Instant::now(),
            name: o.nm,
        };
        if style == 1 && kind != Kind::Pmu {
            let n = if tail > 0 { rec.len() - 1 - self.rng.below(tail) } else { self.rng.below(rec.len()) };
            self.write(c, &rec[..n]);
            self.conns[c - 1].part = Some((rec[n..].to_vec(), Some((ev, p))));
        } else {
            push(&self.log, ev);
            let p = Pend { at: Instant::now(), ..p };
            self.write(c, &rec);
            self.sent(c, p, style == 2);
        }
    }

    fn sent(&mut self, c: usize, p: Pend, bad: bool) {
        let k = &mut self.conns[c - 1];
        if bad {
            if k.kind == Kind::Pmu {
                return;
            }
            k.junk = true;
        }
        k.pend.push(p);
    }

    fn complete(&mut self, c: usize) {
        if let Some((rest, e)) = self.conns[c - 1].part.take() {
            if let Some((ev, p)) = e {
                push(&self.log, ev);
                let p = Pend { at: Instant::now(), ..p };
                self.write(c, &rest);
                self.sent(c, p, false);
            }
        }
    }

    /// Something which is not a call
    fn junk(&mut self, c: usize) {
        let kind = self.conns[c - 1].kind;
        self.xid += 1;
        let msg: Vec<u8> = match self.rng.below(7) {
            0 => vec![],
            1 => (0..1 + self.rng.below(30)).map(|_| self.rng.below(256) as u8).collect(),
            2 => {
                // A reply
                let mut o = vec![];
                for v in [self.xid, 1, 0, 0, 0, 0] {
                    u(&mut o, v);
                }
                o
            }
            3 => {
                // Neither call nor reply
                let mut o = vec![];
                for v in [self.xid, 2 + self.rng.below(9) as u32, 2, kind.prog().0, kind.prog().1, 0, 0, 0, 0, 0] {
                    u(&mut o, v);
                }
                o
            }
            4 => {
                // Incomplete header, also where only the padding or the body of a credential is missing
                let (pg, vs) = kind.prog();
                let h = Hdr { rv: 2, cr: 1, ve: 0, pg, vs, pr: 0 };
                let m = callmsg(self.xid, &h, b"", &[1, 2, 3, 4, 5]);
                let n = self.rng.below(m.len());
                m[..n].to_vec()
            }
            5 if kind != Kind::Pmu && self.conns[c - 1].pend.is_empty() && self.rng.chance(1, 3) => {
                // Only the fragments together are longer than anything reasonable
                let (pg, vs) = kind.prog();
                let h = Hdr { rv: 2, cr: 0, ve: 0, pg, vs, pr: 0 };
                let mut m = callmsg(self.xid, &h, b"", &[]);
                m.resize((1 << 20) + 1 + self.rng.below(1 << 19), 0);
                let k = 2 + self.rng.below(3);
                let mut o = vec![];
                for (i, p) in m.chunks(m.len().div_ceil(k)).enumerate() {
                    u(&mut o, p.len() as u32 | if i == k - 1 { 0x8000_0000 } else { 0 });
                    o.extend(p);
                }
                self.rawjunk(c, o);
                return;
            }
            5 if kind != Kind::Pmu => {
                // Longer than anything reasonable
                let mut o = vec![];
                u(&mut o, *self.rng.pick(&[0x8011_0000u32, 0x0011_0000, 0xffff_ffff, 0x7fff_ffff]));
                o.extend([0; 40]);
                self.rawjunk(c, o);
                return;
            }
            _ => {
                // A credential which is longer than the record
                let (pg, vs) = kind.prog();
                let mut o = vec![];
                for v in [self.xid, 0, 2, pg, vs, 0, 0] {
                    u(&mut o, v);
                }
                u(&mut o, *self.rng.pick(&[8u32, 400, 0xffff_ffff, 0x7fff_fffc]));
                u(&mut o, 0);
                o
            }
        };
        let rec = if kind == Kind::Pmu { msg } else { fragments(&mut self.rng, &msg) };
        self.rawjunk(c, rec);
    }

    fn rawjunk(&mut self, c: usize, rec: Vec<u8>) {
        let mut m = blank();
        m["op"] = json!("junk");
        push(&self.log, json!({"e":"call","c":c,"m":m}));
        self.write(c, &rec);
        if self.conns[c - 1].kind != Kind::Pmu {
            self.conns[c - 1].junk = true;
        }
    }

    fn shut(&mut self, c: usize) {
        push(&self.log, json!({"e":"shut","c":c}));
        if let Some(Sock::T(s)) = &self.conns[c - 1].sock {
            let _ = s.shutdown(Shutdown::Write);
        }
        self.conns[c - 1].shut = true;
        self.conns[c - 1].part = None;
    }

    fn gone(&mut self, c: usize) {
        push(&self.log, json!({"e":"gone","c":c}));
        let k = &mut self.conns[c - 1];
        if let Some(Sock::T(s)) = &k.sock {
            if self.rng.chance(1, 3) {
                // Reset instead of an orderly end
                let l = libc::linger { l_onoff: 1, l_linger: 0 };
                use std::os::fd::AsRawFd;
                unsafe {
                    libc::setsockopt(
                        s.as_raw_fd(),
                        libc::SOL_SOCKET,
                        libc::SO_LINGER,
                        &l as *const _ as *const _,
                        std::mem::size_of::<libc::linger>() as u32,
                    );
                }
            }
        }
        k.sock = None;
        k.gone = true;
        k.part = None;
        k.murky = !k.pend.is_empty() && !k.eof;
        self.ended(c);
    }

    /// What happens to the links of a connection which ends, as far as we can tell
    fn ended(&mut self, c: usize) {
        let lids: Vec<u32> = self.links.iter().filter(|(_, l)| l.c == c).map(|(i, _)| *i).collect();
        for i in lids {
            let l = self.links.remove(&i).unwrap();
            self.shadow[l.d - 1].rel(i as i64);
            self.dead.push(i);
        }
        self.conns[c - 1].chan = None;
    }

    /// Read whatever has arrived
    fn poll(&mut self) -> bool {
        let mut any = false;
        for c in 1..=self.conns.len() {
            let mut buf = [0u8; 4096];
            loop {
                let k = &mut self.conns[c - 1];
                let r = match k.sock.as_mut() {
                    None => break,
                    Some(Sock::T(s)) => {
                        // Replies come in two segments, the second waits for the first to be acknowledged
                        crate::util::quickack(s);
                        s.read(&mut buf)
                    }
                    Some(Sock::U(s)) => s.recv(&mut buf),
                };
                match r {
                    Ok(0) if k.kind != Kind::Pmu => {
                        self.ateof(c);
                        any = true;
                        break;
                    }
                    Ok(n) => {
                        any = true;
                        if k.kind == Kind::Pmu {
                            let b = buf[..n].to_vec();
                            self.reply(c, &b);
                        } else {
                            k.inbuf.extend(&buf[..n]);
                            self.records(c);
                        }
                    }
                    Err(e) if e.kind() == ErrorKind::WouldBlock => break,
                    Err(e) if e.kind() == ErrorKind::Interrupted => (),
                    Err(_) if k.kind == Kind::Pmu => break,
                    Err(_) => {
                        self.ateof(c);
                        any = true;
                        break;
                    }
                }
            }
        }
        for p in 1..=self.peers.len() {
            any |= self.peer(p);
        }
        if !self.late {
            for c in 1..=self.conns.len() {
                let k = &self.conns[c - 1];
                if k.gone || k.eof {
                    continue;
                }
                if let Some(q) = k.pend.first() {
                    if matches!(q.w, Some(t) if q.at.elapsed() > Duration::from_millis(t) + PATIENCE) && k.pend.len() == 1 {
                        push(&self.log, json!({"e":"late","c":c}));
                        self.late = true;
                    }
                }
            }
        }
        any
    }

    fn ateof(&mut self, c: usize) {
        let k = &mut self.conns[c - 1];
        k.sock = None;
        k.eof = true;
        // A reset may cut what had been sent before
        if !k.inbuf.is_empty() && !k.junk {
            push(&self.log, json!({"e":"garbage","c":c,"b":bytes(&k.inbuf)}));
        }
        push(&self.log, json!({"e":"eof","c":c}));
        self.conns[c - 1].pend.clear();
        self.ended(c);
    }

    fn records(&mut self, c: usize) {
        loop {
            let k = &mut self.conns[c - 1];
            // Reassemble
            let mut pos = 0;
            let mut rec = vec![];
            let done = loop {
                if k.inbuf.len() < pos + 4 {
                    break false;
                }
                let h = u32::from_be_bytes(k.inbuf[pos..pos + 4].try_into().unwrap());
                let n = (h & 0x7fff_ffff) as usize;
                if k.inbuf.len() < pos + 4 + n {
                    break false;
                }
                rec.extend(&k.inbuf[pos + 4..pos + 4 + n]);
                pos += 4 + n;
                if h & 0x8000_0000 != 0 {
                    break true;
                }
            };
            if !done {
                break;
            }
            k.inbuf.drain(..pos);
            self.reply(c, &rec);
        }
    }

    fn reply(&mut self, c: usize, b: &[u8]) {
        let mut r = Rd(b);
        let x = r.u().unwrap_or(0);
        let i = self.conns[c - 1].pend.iter().position(|p| p.x == x);
        let p = i.map(|i| self.conns[c - 1].pend.remove(i));
        let mut ev = json!({"e":"reply","c":c,"x":format!("x{x}"),"st":"?","err":0,"v":0,"data":[],
            "early":false,"ap":0,"lo":0,"hi":0});
        if self.parse(c, &mut r, p.as_ref(), &mut ev).is_none() || !r.0.is_empty() {
            ev["st"] = json!("malformed");
        }
        push(&self.log, ev);
    }

    fn parse(&mut self, c: usize, r: &mut Rd, p: Option<&Pend>, ev: &mut Value) -> Option<()> {
        if r.u()? != 1 {
            return None;
        }
        match r.u()? {
            0 => {
                r.u()?;
                r.opaque()?;
                match r.u()? {
                    0 => ev["st"] = json!("ok"),
                    1 => ev["st"] = json!("prog"),
                    2 => {
                        ev["st"] = json!("mism");
                        ev["lo"] = json!(num(r.u()?));
                        ev["hi"] = json!(num(r.u()?));
                    }
                    3 => ev["st"] = json!("proc"),
                    4 => ev["st"] = json!("garb"),
                    5 => ev["st"] = json!("sys"),
                    _ => return None,
                }
            }
            1 => match r.u()? {
                0 => {
                    ev["st"] = json!("rpcv");
                    ev["lo"] = json!(num(r.u()?));
                    ev["hi"] = json!(num(r.u()?));
                }
                1 => match r.u()? {
                    1 | 2 => ev["st"] = json!("cred"),
                    3 | 4 => ev["st"] = json!("verf"),
                    _ => return None,
                },
                _ => return None,
            },
            _ => return None,
        }
        if ev["st"] != "ok" {
            return Some(());
        }
        let p = p?;
        let mut err = 0;
        match p.op {
            "null" => return Some(()),
            "getport" => {
                ev["v"] = json!(num(r.u()?));
                return Some(());
            }
            "dump" => {
                let mut l = vec![];
                while r.u()? == 1 {
                    for _ in 0..4 {
                        l.push(json!(num(r.u()?)));
                    }
                }
                ev["data"] = json!(l);
                return Some(());
            }
            "create" => {
                err = r.u()?;
                let lid = r.u()?;
                ev["ap"] = json!(num(r.u()?));
                r.u()?;
                if err == 0 {
                    let lid = self.norm(lid);
                    self.named.insert(p.name, lid);
                    ev["v"] = json!(lid);
                    self.conns[c - 1].lids.push(lid);
                    self.dead.retain(|x| *x != lid);
                    self.links.insert(lid, LinkS { c, d: p.d.max(1), srq: false });
                    if p.b {
                        self.shadow[p.d.max(1) - 1].x = lid as i64;
                    }
                }
            }
            "write" => {
                err = r.u()?;
                ev["v"] = json!(num(r.u()?));
            }
            "read" => {
                err = r.u()?;
                ev["v"] = json!(num(r.u()?));
                ev["data"] = bytes(&r.opaque()?);
            }
            "stb" => {
                err = r.u()?;
                ev["v"] = json!(num(r.u()?));
            }
            "docmd" => {
                err = r.u()?;
                ev["data"] = bytes(&r.opaque()?);
            }
            "other" => return None,
            _ => {
                err = r.u()?;
            }
        }
        ev["err"] = json!(num(err));
        if err == 0 {
            let h = p.lid as i64;
            match p.op {
                "lock" => {
                    if p.d > 0 {
                        self.shadow[p.d - 1].x = h
                    }
                }
                "unlock" => {
                    if p.d > 0 {
                        self.shadow[p.d - 1].rel(h)
                    }
                }
                "destroy" => {
                    if let Some(l) = self.links.remove(&p.lid) {
                        self.shadow[l.d - 1].rel(h);
                        self.dead.push(p.lid);
                    }
                }
                "srq" => {
                    if let Some(l) = self.links.get_mut(&p.lid) {
                        l.srq = p.b
                    }
                }
                "ichan" => self.conns[c - 1].chan = Some(p.p),
                "dchan" => self.conns[c - 1].chan = None,
                _ => (),
            }
        } else if let Some(t) = p.w {
            if p.at.elapsed() + Duration::from_millis(2) < Duration::from_millis(t) && err == 11 {
                ev["early"] = json!(true);
            }
            if p.op == "create" && p.at.elapsed() + Duration::from_millis(2) < Duration::from_millis(t) {
                ev["early"] = json!(true);
            }
        }
        Some(())
    }

    /// Traffic on the client's end of an interrupt channel
    fn peer(&mut self, p: usize) -> bool {
        let q = &mut self.peers[p - 1];
        if q.dead {
            return false;
        }
        let mut any = false;
        let mut recs = vec![];
        if let Some(l) = &q.tl {
            while let Ok((s, _)) = l.accept() {
                s.set_nonblocking(true).unwrap();
                q.ts = Some(s);
            }
        }
        let mut buf = [0u8; 2048];
        if let Some(s) = &mut q.ts {
            crate::util::quickack(s);
            while let Ok(n) = s.read(&mut buf) {
                if n == 0 {
                    break;
                }
                q.buf.extend(&buf[..n]);
            }
            while q.buf.len() >= 4 {
                let h = u32::from_be_bytes(q.buf[..4].try_into().unwrap());
                let n = (h & 0x7fff_ffff) as usize;
                if q.buf.len() < 4 + n {
                    break;
                }
                recs.push(q.buf[4..4 + n].to_vec());
                q.buf.drain(..4 + n);
            }
        }
        if let Some(s) = &q.us {
            while let Ok(n) = s.recv(&mut buf) {
                recs.push(buf[..n].to_vec());
            }
        }
        for b in recs {
            any = true;
            self.peers[p - 1].expect = self.peers[p - 1].expect.saturating_sub(1);
            let ev = intr_event(p, &b).unwrap_or_else(|| json!({"e":"noise","p":p,"b":bytes(&b)}));
            push(&self.log, ev);
        }
        any
    }

    fn new_peer(&mut self) -> Option<usize> {
        if self.peers.len() >= 8 {
            return None;
        }
        let (tl, us, port) = if self.rng.chance(1, 3) {
            let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).unwrap();
            s.set_nonblocking(true).unwrap();
            let p = s.local_addr().unwrap().port();
            (None, Some(s), p)
        } else {
            let l = TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).unwrap();
            l.set_nonblocking(true).unwrap();
            let p = l.local_addr().unwrap().port();
            (Some(l), None, p)
        };
        self.peers.push(Peer { tl, ts: None, us, buf: vec![], port, expect: 0, dead: false });
        Some(self.peers.len())
    }

    fn peer_gone(&mut self, p: usize) {
        self.poll();
        push(&self.log, json!({"e":"pgone","p":p}));
        let q = &mut self.peers[p - 1];
        q.dead = true;
        q.tl = None;
        q.ts = None;
        q.us = None;
        q.expect = 0;
    }

    // -- other users of the devices --------------------------------------------------------

    fn xacq(&mut self, i: usize, k: &[u8]) {
        let log = self.log.clone();
        let mut l = log.lock().unwrap();
        let (d, h) = &mut self.x[i];
        let r = h.try_acquire(k).is_ok();
        let id = -1 - i as i64;
        l.push(json!({"e":"xacq","x":id,"d":*d,"k":bytes(k),"r":r}));
        if r {
            let s = &mut self.shadow[*d - 1];
            if k.is_empty() {
                s.x = id
            } else {
                s.sh.insert(id);
                s.key = k.to_vec();
            }
        }
    }
    fn xrel(&mut self, i: usize) {
        let log = self.log.clone();
        let mut l = log.lock().unwrap();
        let (d, h) = &mut self.x[i];
        let r = h.try_release().is_ok();
        let id = -1 - i as i64;
        l.push(json!({"e":"xrel","x":id,"d":*d,"r":r}));
        self.shadow[*d - 1].rel(id);
    }
    fn hold(&mut self, d: usize) {
        if self.held[d - 1].is_some() {
            return;
        }
        let log = self.log.clone();
        let mut l = log.lock().unwrap();
        if let Some(g) = self.devs[d - 1].clone().try_lock_owned() {
            l.push(json!({"e":"hold","d":d}));
            self.held[d - 1] = Some(g);
        }
    }
    fn unhold(&mut self, d: usize) {
        if let Some(g) = self.held[d - 1].take() {
            push(&self.log, json!({"e":"unhold","d":d}));
            drop(g);
        }
    }

    fn publish(&mut self, v: u8) {
        // Not while it is open who gets it
        if self.conns.iter().any(|k| {
            (k.murky || !k.gone) && k.pend.iter().any(|p| matches!(p.op, "srq" | "ichan" | "dchan" | "destroy"))
        }) {
            return;
        }
        {
            let log = self.log.clone();
            let mut l = log.lock().unwrap();
            l.push(json!({"e":"pub"}));
            self.status.send_status(v);
        }
        for l in self.links.values().filter(|l| l.srq) {
            if let Some(p) = self.conns[l.c - 1].chan {
                self.peers[p - 1].expect += 1;
            }
        }
    }

    // -- waiting ---------------------------------------------------------------------------

    fn blocked(&self, p: &Pend) -> bool {
        if p.w.is_none() || p.d == 0 {
            return false;
        }
        // Links of others cannot be used
        if p.op != "create" && self.links.get(&p.lid).map_or(true, |l| l.c != p.c) {
            return false;
        }
        let s = &self.shadow[p.d - 1];
        let h = p.lid as i64;
        match p.op {
            "lock" => s.x != h && !s.free_for(h),
            "create" => s.x != 0 || !s.sh.is_empty(),
            _ => !s.can_use(h) || self.held[p.d - 1].is_some(),
        }
    }

    fn obs(&self) -> Vec<(bool, u32)> {
        self.locks
            .iter()
            .map(|l| {
                let l = l.lock();
                (l.exclusive_lock(), l.num_shared_locks())
            })
            .collect()
    }

    fn settled(&self) -> bool {
        let conns = self.conns.iter().all(|k| {
            k.gone
                || k.eof
                || (k.pend.first().map_or(true, |p| self.blocked(p))
                    && !(k.shut && k.pend.is_empty() && k.kind != Kind::Pmu)
                    && !k.junk)
        });
        conns
            && self.peers.iter().all(|p| p.dead || p.expect == 0)
            && self.obs().iter().zip(&self.shadow).all(|(o, s)| o.0 == (s.x != 0) && o.1 as usize == s.sh.len())
    }

    fn wait_settled(&mut self) {
        let t = Instant::now();
        while t.elapsed() < PATIENCE && !self.late {
            self.poll();
            if self.settled() {
                return;
            }
            std::thread::sleep(Duration::from_micros(50));
        }
    }

    /// Wait for the reply to the last call of a connection
    fn wait_reply(&mut self, c: usize) {
        let t = Instant::now();
        while t.elapsed() < PATIENCE {
            self.poll();
            let k = &self.conns[c - 1];
            if k.pend.is_empty() || k.eof || k.gone {
                return;
            }
            std::thread::sleep(Duration::from_micros(30));
        }
    }

    fn abort_conn(&mut self) -> Option<usize> {
        for c in 1..=self.conns.len() {
            if self.conns[c - 1].kind == Kind::Abort && self.usable(c) && self.conns[c - 1].pend.is_empty() {
                return Some(c);
            }
        }
        self.maxconns += 1;
        if self.conns.len() >= 12 {
            return None;
        }
        self.connect(Kind::Abort)
    }

    fn last_err(&self, c: usize) -> i64 {
        let l = self.log.lock().unwrap();
        l.iter().rev().find(|e| e["e"] == "reply" && e["c"] == c).map_or(-1, |e| e["err"].as_i64().unwrap())
    }

    /// Abort what `c` waits for until it gives up
    fn abort_until(&mut self, c: usize) {
        let Some(a) = self.abort_conn() else { return };
        let t = Instant::now();
        let mut n = 0;
        while t.elapsed() < PATIENCE {
            let Some(p) = self.conns[c - 1].pend.first().cloned() else { return };
            if p.w.is_none() || p.op == "create" {
                return;
            }
            self.call(a, Op { op: "abort", lid: p.lid, tc: -1, ..Op::default() });
            self.wait_reply(a);
            let until = Instant::now() + Duration::from_millis(if n < 3 { 3 } else { 60 });
            n += 1;
            while Instant::now() < until && self.conns[c - 1].pend.first().map_or(false, |q| q.x == p.x) {
                self.poll();
                std::thread::sleep(Duration::from_micros(50));
            }
            if !self.conns[c - 1].pend.first().map_or(false, |q| q.x == p.x) {
                return;
            }
        }
    }

    /// Links of a connection which is gone must go, too
    fn probe_gone(&mut self, c: usize) {
        let lids: Vec<u32> = self.conns[c - 1].lids.iter().copied().filter(|l| !self.links.contains_key(l)).collect();
        let Some(lid) = lids.last().copied() else { return };
        let Some(a) = self.abort_conn() else { return };
        let t = Instant::now();
        let mut n = 0;
        while t.elapsed() < PATIENCE {
            self.call(a, Op { op: "abort", lid, tc: -1, ..Op::default() });
            self.wait_reply(a);
            if self.last_err(a) != 0 {
                return;
            }
            std::thread::sleep(Duration::from_millis(if n < 5 { 1 } else { 50 }));
            n += 1;
        }
    }

    fn quiet(&mut self) {
        if self.conns.iter().any(|k| k.murky) || self.late {
            return;
        }
        self.wait_settled();
        for c in 1..=self.conns.len() {
            if self.conns[c - 1].gone && !self.conns[c - 1].lids.is_empty() {
                self.probe_gone(c);
                self.conns[c - 1].lids.clear();
            }
        }
        // Connections without links leave no other mark
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(if self.rng.chance(1, 4) { 3 } else { 1 }) {
            self.poll();
            std::thread::sleep(Duration::from_micros(200));
        }
        self.wait_settled();
        let o: Vec<Value> = self.obs().iter().map(|(x, n)| json!([x, n])).collect();
        if self.late {
            return;
        }
        let open: Vec<usize> = (1..=self.conns.len()).filter(|c| !self.conns[*c - 1].pend.is_empty()).collect();
        push(&self.log, json!({"e":"quiet","locks":o,"open":open}));
    }

    fn finish(&mut self) {
        for d in 1..=self.devs.len() {
            self.unhold(d);
        }
        for i in 0..self.x.len() {
            self.xrel(i);
        }
        for c in 1..=self.conns.len() {
            self.complete(c);
        }
        self.poll();
        // Nobody is left waiting for ever
        let mut rounds = 0;
        loop {
            let t = Instant::now();
            while t.elapsed() < Duration::from_millis(if rounds == 0 { 2 } else { 30 }) {
                self.poll();
                std::thread::sleep(Duration::from_micros(100));
            }
            let w: Vec<usize> = (1..=self.conns.len())
                .filter(|c| {
                    let k = &self.conns[*c - 1];
                    !k.gone && !k.eof && k.pend.iter().any(|p| p.w.is_some())
                })
                .collect();
            rounds += 1;
            if w.is_empty() || rounds > 20 || self.late {
                break;
            }
            for c in w {
                if self.conns[c - 1].pend.first().map_or(false, |p| self.blocked(p)) {
                    self.abort_until(c);
                }
            }
        }
        for c in 1..=self.conns.len() {
            if self.conns[c - 1].murky {
                // Abort until its links are gone
                let lids: Vec<u32> = self.conns[c - 1].pend.iter().filter(|p| p.w.is_some()).map(|p| p.lid).collect();
                for l in lids {
                    if let Some(a) = self.abort_conn() {
                        let t = Instant::now();
                        while t.elapsed() < PATIENCE {
                            self.call(a, Op { op: "abort", lid: l, tc: -1, ..Op::default() });
                            self.wait_reply(a);
                            if self.last_err(a) != 0 {
                                break;
                            }
                            std::thread::sleep(Duration::from_millis(3));
                        }
                    }
                }
                self.conns[c - 1].murky = false;
            }
        }
        self.quiet();
        for c in 1..=self.conns.len() {
            let k = &self.conns[c - 1];
            if k.gone || k.eof || k.kind == Kind::Pmu {
                continue;
            }
            if !k.shut && self.rng.chance(2, 3) {
                self.shut(c);
            } else if !k.shut {
                self.gone(c);
            }
        }
        self.quiet();
    }
}

pub fn intr_event(p: usize, b: &[u8]) -> Option<Value> {
    let mut r = Rd(b);
    r.u()?;
    if r.u()? != 0 || r.u()? != 2 {
        return None;
    }
    let (pg, pv, pr) = (r.u()?, r.u()?, r.u()?);
    for _ in 0..2 {
        if r.u()? != 0 || !r.opaque()?.is_empty() {
            return None;
        }
    }
    let h = r.opaque()?;
    if pr != 30 || !r.0.is_empty() {
        return None;
    }
    Some(json!({"e":"intr","p":p,"pg":num(pg),"pv":num(pv),"h":bytes(&h)}))
}

fn blank() -> Value {
    json!({"x":"-","rv":2,"cr":0,"ve":0,"pg":0,"vs":0,"pr":0,"op":"","lid":0,"w":false,"e":false,"tc":-1,"n":0,
        "data":[],"b":false,"h":[],"d":0,"nl":0,"p":0,"ipg":0,"ipv":0})
}

/// Which link a call created is only known from the reply
fn annotate(ev: &mut Vec<Value>) {
    let mut lids = HashMap::new();
    for e in ev.iter() {
        if e["e"] == "reply" {
            let lid = if e["err"] == 0 && e["st"] == "ok" { e["v"].as_i64().unwrap() } else { 0 };
            lids.insert((e["c"].as_i64(), e["x"].as_str().unwrap().to_string()), lid);
        }
    }
    let mut fresh = 1_000_000;
    for e in ev.iter_mut() {
        if e["e"] == "call" && e["m"]["op"] == "create" {
            let k = (e["c"].as_i64(), e["m"]["x"].as_str().unwrap().to_string());
            let nl = lids.get(&k).copied().unwrap_or_else(|| {
                fresh += 1;
                fresh
            });
            e["m"]["nl"] = json!(nl);
        }
    }
}

// ------------------------------------------------------------------------------------------
// Random histories

struct Prof {
    name: &'static str,
    /// link, data, status, lock, abort, srq, rpc, pm, x, leave
    w: [usize; 10],
}

const PROFS: [Prof; 9] = [
    Prof { name: "mix", w: [4, 6, 3, 4, 2, 3, 1, 1, 4, 1] },
    Prof { name: "link", w: [10, 2, 2, 3, 3, 2, 0, 0, 2, 4] },
    Prof { name: "lock", w: [4, 4, 4, 8, 1, 0, 0, 0, 8, 2] },
    Prof { name: "data", w: [3, 16, 2, 1, 0, 0, 0, 0, 2, 1] },
    Prof { name: "abort", w: [3, 3, 2, 4, 8, 0, 0, 0, 5, 1] },
    Prof { name: "stb", w: [3, 8, 8, 1, 0, 0, 0, 0, 1, 1] },
    Prof { name: "srq", w: [4, 1, 0, 0, 0, 16, 0, 0, 0, 2] },
    Prof { name: "rpc", w: [2, 3, 1, 1, 1, 1, 10, 3, 0, 1] },
    Prof { name: "pm", w: [0, 0, 0, 0, 0, 0, 3, 10, 0, 1] },
];

impl World {
    fn conn_of(&mut self, k: Kind) -> Option<usize> {
        let v: Vec<usize> =
            (1..=self.conns.len()).filter(|c| self.conns[*c - 1].kind == k && self.usable(*c)).collect();
        if v.is_empty() || (v.len() < 3 && self.rng.chance(1, 8)) {
            if let Some(c) = self.connect(k) {
                return Some(c);
            }
        }
        if v.is_empty() {
            None
        } else {
            Some(*self.rng.pick(&v))
        }
    }

    fn some_lid(&mut self, c: usize) -> u32 {
        let own: Vec<u32> = {
            let mut v: Vec<u32> = self.links.iter().filter(|(_, l)| l.c == c).map(|(i, _)| *i).collect();
            v.sort();
            v
        };
        let mut all: Vec<u32> = self.links.keys().copied().collect();
        all.sort();
        match self.rng.below(24) {
            0 if !self.dead.is_empty() => *self.rng.pick(&self.dead.clone()),
            1 if !all.is_empty() => *self.rng.pick(&all),
            2 => {
                let r = 0x7fff_0000u32 + self.rng.below(3) as u32;
                self.norm(r)
            }
            _ if !own.is_empty() => *self.rng.pick(&own),
            _ if !all.is_empty() => *self.rng.pick(&all),
            _ => self.norm(0x7fff_0007),
        }
    }

    fn waits(&mut self, o: &mut Op) {
        if self.rng.chance(1, 2) {
            o.w = true;
            o.to = match self.rng.below(8) {
                0 => 0,
                1..=3 => 1 + self.rng.below(25) as u64,
                _ => *self.rng.pick(&[LONG, 0x20000, 0x100_0000, 0xffff_ffff]),
            };
        } else {
            o.to = *self.rng.pick(&[0, 10, LONG, 0x20000]);
        }
    }

    fn bytes(&mut self, max: usize) -> Vec<u8> {
        let n = if self.big && self.rng.chance(1, 10) { self.rng.below(300) } else { self.rng.below(max + 1) };
        (0..n).map(|_| *self.rng.pick(&[10u8, 13, 65, 66, 0, 255])).collect()
    }

    fn pick_op(&mut self, group: usize, c: usize) -> Op {
        let mut o = Op { tc: -1, ..Op::default() };
        match group {
            0 => {
                // Links
                let many = self.links.len() >= 6;
                if !many && (self.links.values().all(|l| l.c != c) || self.rng.chance(1, 2)) {
                    o.op = "create";
                    o.d = 1 + self.rng.weighted(&[3, 1]);
                    o.name = NAMES[o.d - 1].to_string();
                    if self.rng.chance(1, 8) {
                        o.d = 0;
                        o.name = self.rng.pick(&["", "inst", "inst00", "INST0", "\u{e5}"]).to_string();
                    }
                    o.b = self.rng.chance(1, 4);
                    o.to = *self.rng.pick(&[0, 3, 10, 25]);
                } else {
                    o.op = "destroy";
                    o.lid = self.some_lid(c);
                }
            }
            1 => {
                o.lid = self.some_lid(c);
                self.waits(&mut o);
                match self.rng.below(20) {
                    0..=9 => {
                        o.op = "write";
                        o.e = self.rng.chance(2, 3);
                        o.data = self.bytes(6);
                    }
                    10..=18 => {
                        o.op = "read";
                        o.n = *self.rng.pick(&[0, 1, 2, 3, 5, 8, 100, 0x7fff_ffff]);
                        o.tc = *self.rng.pick(&[-1, 10, 10, 65, 255]);
                    }
                    _ => o.op = "clear",
                }
            }
            2 => {
                o.lid = self.some_lid(c);
                self.waits(&mut o);
                o.op = *self.rng.pick(&["stb", "stb", "stb", "trig", "clear", "rem", "loc", "docmd"]);
            }
            3 => {
                o.lid = self.some_lid(c);
                self.waits(&mut o);
                o.op = *self.rng.pick(&["lock", "lock", "unlock"]);
                if o.op == "unlock" {
                    o.w = false;
                }
            }
            _ => {
                // Service requests
                match self.rng.below(12) {
                    0 | 1 => {
                        o.op = "ichan";
                        o.p = if self.rng.chance(1, 8) { 0 } else { self.new_peer().unwrap_or(0) };
                        o.ipg = *self.rng.pick(&[395185, 0x2000_0001]);
                        o.ipv = *self.rng.pick(&[1, 7]);
                    }
                    2 => o.op = "dchan",
                    _ => {
                        o.op = "srq";
                        o.lid = self.some_lid(c);
                        o.b = self.rng.chance(3, 4);
                        let n = *self.rng.pick(&[0, 1, 3, 40]);
                        o.h = (0..n).map(|_| self.rng.below(256) as u8).collect();
                    }
                }
            }
        }
        o
    }

    fn step(&mut self, prof: &Prof) {
        let g = self.rng.weighted(&prof.w);
        match g {
            0..=3 | 5 => {
                let Some(c) = self.conn_of(Kind::Core) else { return };
                if g == 5 && self.rng.chance(1, 3) {
                    if self.rng.chance(2, 3) {
                        self.wait_settled();
                    }
                    self.publish(self.rng.clone().below(256) as u8);
                    if self.rng.chance(1, 2) {
                        self.wait_settled();
                    }
                    return;
                }
                if g == 5 && self.rng.chance(1, 25) {
                    let live: Vec<usize> = (1..=self.peers.len()).filter(|p| !self.peers[*p - 1].dead).collect();
                    if !live.is_empty() {
                        let p = *self.rng.pick(&live);
                        self.peer_gone(p);
                    }
                    return;
                }
                let n = if self.rng.chance(1, 8) { 2 + self.rng.below(2) } else { 1 };
                for _ in 0..n {
                    if !self.usable(c) {
                        break;
                    }
                    // No more than a few calls behind one which waits
                    if self.conns[c - 1].pend.len() >= 3 {
                        break;
                    }
                    let o = self.pick_op(g, c);
                    let style = if self.rng.chance(1, 14) { 1 } else { 0 };
                    if n == 1 && self.conns[c - 1].pend.is_empty() && self.rng.chance(1, 2) {
                        self.call(c, o);
                        self.brief(c);
                    } else {
                        self.call_with(c, o, None, style);
                    }
                }
            }
            4 => {
                // Abort
                let Some(a) = self.conn_of(Kind::Abort) else { return };
                let w: Vec<u32> = self
                    .conns
                    .iter()
                    .filter(|k| !k.gone)
                    .filter_map(|k| k.pend.first().filter(|p| p.w.is_some() && p.op != "create").map(|p| p.lid))
                    .collect();
                let lid = if !w.is_empty() && self.rng.chance(2, 3) {
                    *self.rng.pick(&w)
                } else {
                    self.some_lid(0)
                };
                self.call(a, Op { op: "abort", lid, tc: -1, ..Op::default() });
                if self.rng.chance(1, 2) {
                    self.wait_reply(a);
                }
                // A waiting call must end
                let cs: Vec<usize> = (1..=self.conns.len())
                    .filter(|c| {
                        let k = &self.conns[*c - 1];
                        !k.gone && !k.eof && k.pend.first().map_or(false, |p| p.w.is_some() && p.op != "create")
                    })
                    .collect();
                if !cs.is_empty() && self.rng.chance(1, 3) {
                    let c = *self.rng.pick(&cs);
                    if self.conns[c - 1].pend.first().map_or(false, |p| self.blocked(p)) {
                        self.abort_until(c);
                    }
                }
            }
            6 => self.rpc_step(),
            7 => {
                let k = *self.rng.pick(&[Kind::Pmt, Kind::Pmu]);
                let Some(c) = self.conn_of(k) else { return };
                let o = self.pm_op();
                self.call(c, o);
                if self.rng.chance(1, 2) {
                    self.wait_reply(c);
                }
            }
            8 => {
                let i = self.rng.below(self.x.len());
                match self.rng.below(10) {
                    0..=2 => self.xacq(i, b""),
                    3 => {
                        let k = *self.rng.pick(&[&b"k"[..], b"l"]);
                        self.xacq(i, k)
                    }
                    4..=6 => self.xrel(i),
                    7 => {
                        let d = 1 + self.rng.below(2);
                        self.hold(d)
                    }
                    _ => {
                        for d in 1..=2 {
                            self.unhold(d)
                        }
                    }
                }
            }
            _ => {
                let v: Vec<usize> = (1..=self.conns.len())
                    .filter(|c| {
                        let k = &self.conns[*c - 1];
                        !k.gone && !k.eof && k.kind != Kind::Pmu
                    })
                    .collect();
                if v.is_empty() {
                    return;
                }
                let c = *self.rng.pick(&v);
                if self.conns[c - 1].shut || self.rng.chance(1, 2) {
                    if self.conns[c - 1].pend.iter().any(|p| p.w.is_some()) && self.rng.chance(2, 3) {
                        return;
                    }
                    self.gone(c)
                } else {
                    self.shut(c)
                }
            }
        }
        self.poll();
    }

    /// Give a call the chance to be handled, without insisting
    fn brief(&mut self, c: usize) {
        let t = Instant::now();
        while t.elapsed() < Duration::from_millis(3) {
            self.poll();
            let k = &self.conns[c - 1];
            if k.pend.is_empty() || k.eof || self.settled() {
                return;
            }
            std::thread::sleep(Duration::from_micros(30));
        }
    }

    fn pm_op(&mut self) -> Op {
        let mut o = Op { tc: -1, ..Op::default() };
        match self.rng.below(8) {
            0 => o.op = "null",
            1 => o.op = "dump",
            _ => {
                o.op = "getport";
                let mut t = if self.rng.chance(2, 3) && !self.table.is_empty() {
                    *self.rng.pick(&self.table.clone())
                } else {
                    [395183, 1, 6, 0]
                };
                if self.rng.chance(1, 2) {
                    let i = self.rng.below(3);
                    t[i] = match i {
                        0 => *self.rng.pick(&[395183, 395184, 395185, 100000]),
                        1 => *self.rng.pick(&[1, 2, 0]),
                        _ => *self.rng.pick(&[6, 17, 0]),
                    };
                }
                t[3] = self.rng.below(3) as u32;
                o.data = t.iter().flat_map(|v| v.to_be_bytes()).collect();
            }
        }
        o
    }

    fn rpc_step(&mut self) {
        let k = *self.rng.pick(&[Kind::Core, Kind::Core, Kind::Abort, Kind::Pmt, Kind::Pmu]);
        let Some(c) = self.conn_of(k) else { return };
        let any = match k {
            Kind::Core => {
                let g = *self.rng.pick(&[0, 1, 2, 3]);
                self.pick_op(g, c)
            }
            Kind::Abort => Op { op: "abort", lid: self.some_lid(0), tc: -1, ..Op::default() },
            _ => self.pm_op(),
        };
        let (pg, vs) = k.prog();
        let mut h = Hdr { rv: 2, cr: 0, ve: 0, pg, vs, pr: kindname(any.op) };
        match self.rng.below(14) {
            0 => self.call(c, Op { op: "null", tc: -1, ..Op::default() }),
            1 => {
                h.pg = *self.rng.pick(&[395183, 395184, 100000, 395185, 0, 0x7fff_ffff]);
                if h.pg != pg {
                    self.call_with(c, any, Some(h), 0)
                }
            }
            2 => {
                h.vs = *self.rng.pick(&[0, 3, 0x7fff_ffff]);
                self.call_with(c, any, Some(h), 0)
            }
            3 => {
                h.pr = *self.rng.pick(&[5, 21, 24, 27, 0x7fff_ffff]);
                self.call_with(c, any, Some(h), 0)
            }
            4 => {
                h.rv = *self.rng.pick(&[0, 1, 3, 0x7fff_ffff]);
                self.call_with(c, any, Some(h), 0)
            }
            5 => {
                h.cr = *self.rng.pick(&[1, 2, 3, 6]);
                self.call_with(c, any, Some(h), 0)
            }
            6 => {
                h.ve = *self.rng.pick(&[1, 2, 6]);
                self.call_with(c, any, Some(h), 0)
            }
            7 => self.junk(c),
            8 => self.call_with(c, any, None, 2),
            9 => {
                // The connection ends in the middle of a record
                if k != Kind::Pmu {
                    self.call_with(c, any, None, 1);
                    if self.rng.chance(1, 2) {
                        self.shut(c)
                    } else {
                        self.gone(c)
                    }
                }
            }
            10 => self.call_with(c, any, None, 1),
            _ => {
                for _ in 0..2 + self.rng.below(3) {
                    let o = match k {
                        Kind::Pmt | Kind::Pmu => self.pm_op(),
                        _ => Op { op: "null", tc: -1, ..Op::default() },
                    };
                    if self.usable(c) {
                        self.call(c, o);
                    }
                }
            }
        }
    }
}

fn serve_portmap(table: &[[u32; 4]], tcp: TcpListener, udp: UdpSocket) -> Vec<async_std::task::JoinHandle<()>> {
    fn go<const N: usize>(m: [Mapping; N], tcp: TcpListener, udp: UdpSocket) -> Vec<async_std::task::JoinHandle<()>> {
        let p = StaticPortMap::new(m);
        let q = p.clone();
        vec![
            async_std::task::spawn(async move {
                let _ = p.serve_tcp(tcp.into()).await;
            }),
            async_std::task::spawn(async move {
                let _ = q.serve_udp(udp.into()).await;
            }),
        ]
    }
    let m: Vec<Mapping> = table.iter().map(|t| Mapping::new(t[0], t[1], t[2], t[3])).collect();
    match m.len() {
        0 => go::<0>([], tcp, udp),
        1 => go([m[0]], tcp, udp),
        2 => go([m[0], m[1]], tcp, udp),
        _ => go([m[0], m[1], m[2]], tcp, udp),
    }
}

pub fn listener() -> TcpListener {
    TcpListener::bind((Ipv4Addr::LOCALHOST, 0)).expect("listener")
}

impl World {
    fn script(&mut self, steps: &[Value]) {
        // Calls made on each connection so far
        let mut calls: HashMap<usize, i64> = HashMap::new();
        for s in steps {
            let n = |i: usize| s[i].as_i64().unwrap();
            let c = s[1].as_i64().unwrap_or(0) as usize;
            match s[0].as_str().unwrap() {
                "conn" => {
                    self.connect(if s[1] == "abort" { Kind::Abort } else { Kind::Core });
                }
                "call" => {
                    let k = calls.entry(c).or_insert(0);
                    *k += 1;
                    let k = *k;
                    if !self.usable(c) {
                        continue;
                    }
                    let op = ["create", "destroy", "lock", "unlock", "trig", "write", "read", "clear", "stb", "loc", "srq",
                        "ichan", "dchan", "null", "abort", "bad"]
                        .into_iter()
                        .find(|o| s[2] == *o)
                        .expect("operation");
                    let lid = match self.named.get(&n(3)) {
                        Some(l) => *l,
                        None => self.norm(0x7fff_0007),
                    };
                    let mut o = Op { op, lid, tc: n(6), n: n(7) as u32, ..Op::default() };
                    o.w = s[4] == true;
                    o.to = if self.rng.chance(1, 4) { 4 } else { LONG };
                    match op {
                        "create" => {
                            o.b = s[5] == true;
                            o.d = 1;
                            o.name = NAMES[0].to_string();
                            o.to = 4;
                            // Links which are there from the start are named after their connection
                            o.nm = s.get(8).map_or(10 * c as i64 + k, |v| v.as_i64().unwrap());
                            if s.get(8).is_some() {
                                calls.insert(c, 0);
                            }
                        }
                        "write" => {
                            o.e = s[5] == true;
                            o.data = self.bytes(4);
                        }
                        "srq" => {
                            o.b = s[5] == true;
                            o.h = vec![lid as u8, k as u8];
                        }
                        "ichan" => {
                            o.p = self.new_peer().unwrap_or(0);
                            o.ipg = 395185;
                            o.ipv = 1;
                        }
                        _ => (),
                    }
                    if op == "bad" {
                        o.op = "trig";
                        self.call_with(c, o, None, 2);
                    } else {
                        self.call(c, o);
                    }
                }
                "gone" => self.gone(c),
                "shut" => {
                    if self.usable(c) {
                        self.shut(c)
                    }
                }
                "hold" => self.hold(1),
                "unhold" => self.unhold(1),
                "xacq" => {
                    let k: Vec<u8> = s[2].as_array().unwrap().iter().map(|v| v.as_u64().unwrap() as u8).collect();
                    self.xacq(0, &k)
                }
                "xrel" => self.xrel(0),
                "pub" => {
                    if self.rng.chance(2, 3) {
                        self.wait_settled();
                    }
                    self.publish(self.rng.clone().below(256) as u8)
                }
                "pgone" => {
                    if let Some(p) = (1..=self.peers.len()).rev().find(|p| !self.peers[*p - 1].dead) {
                        self.peer_gone(p)
                    }
                }
                "quiet" => self.quiet(),
                // Until everything is answered
                "answers" => {
                    let t = Instant::now();
                    while t.elapsed() < Duration::from_millis(400)
                        && self.conns.iter().any(|k| !k.pend.is_empty() && !k.gone && !k.eof)
                    {
                        self.poll();
                        std::thread::sleep(Duration::from_micros(50));
                    }
                }
                o => panic!("script: {o}"),
            }
            self.poll();
            match self.rng.below(8) {
                0 => self.quiet(),
                1..=5 => self.wait_settled(),
                _ => (),
            }
            if self.late {
                return;
            }
        }
    }
}

type Tasks = Vec<async_std::task::JoinHandle<()>>;

fn make(seed: u64) -> (World, Tasks, Value) {
    let mut rng = Rng::new(seed);
    let log: Log = Default::default();
    let big = rng.chance(1, 4);
    let maxresp = if rng.chance(1, 6) { 200 } else { 7 };
    let errs = rng.chance(1, 3);
    let devs: Vec<_> = (1..=2)
        .map(|d| Arc::new(Mutex::new(Dev { d, log: log.clone(), rng: Rng::new(seed ^ d as u64), maxresp, errs })))
        .collect();
    let locks: Vec<_> = (0..2).map(|_| SharedLock::new()).collect();
    let status = StatusSender::new();
    let (cl, al, pl) = (listener(), listener(), listener());
    let ul = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).unwrap();
    let (core, abort) = (cl.local_addr().unwrap(), al.local_addr().unwrap());
    let (pmt, pmu) = (pl.local_addr().unwrap(), ul.local_addr().unwrap());
    let mut b = VxiServerBuilder::new().core_port(core.port()).async_port(abort.port());
    for d in 0..2 {
        b = b.device(NAMES[d].to_string(), devs[d].clone(), locks[d].clone());
    }
    let (s, a) = b.build(status.clone());
    let mut tasks = vec![
        async_std::task::spawn(async move {
            let _ = s.serve(cl.into()).await;
        }),
        async_std::task::spawn(async move {
            let _ = a.serve(al.into()).await;
        }),
    ];
    let mut table = vec![];
    for _ in 0..rng.below(4) {
        let t = [
            *rng.pick(&[395183, 395184, 395185]),
            *rng.pick(&[1, 2]),
            *rng.pick(&[6, 17]),
            *rng.pick(&[111, 4322, 65535, 1]),
        ];
        if !table.iter().any(|o: &[u32; 4]| o[..3] == t[..3]) {
            table.push(t);
        }
    }
    tasks.extend(serve_portmap(&table, pl, ul));
    let x = vec![
        (1, LockHandle::new(locks[0].clone(), devs[0].clone())),
        (2, LockHandle::new(locks[1].clone(), devs[1].clone())),
        (1, LockHandle::new(locks[0].clone(), devs[0].clone())),
    ];
    let mut w = World {
        log: log.clone(),
        rng,
        core,
        abort,
        pmt,
        pmu,
        devs,
        locks,
        x,
        held: vec![None, None],
        status,
        conns: vec![],
        peers: vec![],
        links: HashMap::new(),
        dead: vec![],
        shadow: vec![LockS::default(), LockS::default()],
        lidmap: HashMap::new(),
        lidreal: vec![0],
        xid: 0,
        table: table.clone(),
        big,
        stuck: false,
        late: false,
        maxconns: 7,
        named: HashMap::new(),
    };
    w.xid = w.rng.next() as u32;
    (w, tasks, json!({"ap": abort.port(), "pm": table}))
}

fn world(id: u64, seed: u64, prof: &Prof, len: usize, script: Option<&Vec<Value>>) -> Value {
    let (mut w, tasks, cfg) = make(seed);
    if let Some(steps) = script {
        w.script(steps);
    }
    for _ in 0..if script.is_some() { 0 } else { len } {
        w.step(prof);
        if w.stuck || w.late {
            break;
        }
        if w.rng.chance(1, 4) {
            w.quiet();
        }
        // Let a half sent record wait for a while
        for c in 1..=w.conns.len() {
            if w.conns[c - 1].part.is_some() && w.rng.chance(1, 4) {
                w.complete(c);
            }
        }
    }
    w.finish();
    for t in tasks {
        async_std::task::block_on(t.cancel());
    }
    let mut ev = std::mem::take(&mut *w.log.lock().unwrap());
    annotate(&mut ev);
    json!({"id": format!("{}-{id}", prof.name), "cfg": cfg, "ev": ev})
}

/// Links which come and go again and again: nothing of them is kept
fn cycle_run(id: u64, seed: u64, n0: usize) -> Value {
    let (mut w, tasks, cfg) = make(seed);
    let mut rng = Rng::new(seed ^ 77);
    // Who stays: a link with or without lock, an external holder of the lock
    let mut pre = vec![json!(["conn", "core"])];
    let held = rng.below(4);
    if held != 1 {
        pre.push(json!(["call", 1, "create", 0, false, held == 2, -1, 0, 1]));
    }
    if held == 3 {
        pre.push(json!(["xacq", 1, if rng.chance(1, 2) { vec![] } else { vec![107] }]));
    }
    pre.push(json!(["answers", 0]));
    w.script(&pre);
    w.quiet();
    let mut cyc = vec![];
    let own = rng.chance(1, 2);
    let c = if own {
        cyc.push(json!(["conn", "core"]));
        2
    } else {
        1
    };
    let k = 1 + rng.below(3) as i64;
    let mut chan = false;
    for i in 0..k {
        cyc.push(json!(["call", c, "create", 0, false, rng.chance(1, 3), -1, 0, 20 + i]));
    }
    for _ in 0..rng.below(8) {
        let op = *rng.pick(&["lock", "lock", "unlock", "trig", "write", "read", "clear", "stb", "srq", "ichan", "dchan", "create"]);
        chan |= op == "ichan";
        let wait = held < 2 && k == 1 && op != "create" && rng.chance(1, 3);
        let l = 20 + rng.below(k as usize) as i64;
        let mut st = json!(["call", c, op, l, wait, rng.chance(1, 2), -1, rng.below(6)]);
        if op == "create" {
            // Of a name which is taken: another link, found again by its connection only
            if !own {
                continue;
            }
            st = json!(["call", c, op, 0, false, rng.chance(1, 3), -1, 0, 30]);
        }
        cyc.push(st);
        if rng.chance(1, 8) {
            cyc.push(json!(["pub", 0]));
        }
    }
    cyc.push(json!(["answers", 0]));
    if own {
        cyc.push(json!([if rng.chance(1, 2) { "gone" } else { "shut" }, c]));
    } else {
        if chan {
            cyc.push(json!(["call", c, "dchan", 0, false, false, -1, 0]));
        }
        for i in 0..k {
            cyc.push(json!(["call", c, "destroy", 20 + i, false, false, -1, 0]));
        }
    }
    cyc.push(json!(["answers", 0]));
    cyc.push(json!(["quiet"]));
    let (conns, peers) = (w.conns.len(), w.peers.len());
    let lids: Vec<_> = w.conns.iter().map(|k| k.lids.clone()).collect();
    let (links, dead, shadow) = (w.links.clone(), w.dead.clone(), w.shadow.clone());
    let (lidmap, lidreal, named) = (w.lidmap.clone(), w.lidreal.clone(), w.named.clone());
    let bad = |w: &World| w.late || w.stuck || w.conns.iter().any(|k| k.murky || (!k.pend.is_empty() && !k.gone && !k.eof));
    w.script(&cyc);
    w.quiet();
    let head = std::mem::take(&mut *w.log.lock().unwrap());
    let mut m = Vec::with_capacity(8);
    let mut next = n0;
    let mut g = i64::MAX;
    if !bad(&w) {
        for i in 1..=81 * n0 {
            w.conns.truncate(conns);
            w.peers.truncate(peers);
            for (k, l) in w.conns.iter_mut().zip(&lids) {
                k.lids = l.clone();
            }
            (w.links, w.dead, w.shadow) = (links.clone(), dead.clone(), shadow.clone());
            (w.lidmap, w.lidreal, w.named) = (lidmap.clone(), lidreal.clone(), named.clone());
            w.rng = Rng::new(seed);
            w.script(&cyc);
            w.quiet();
            if bad(&w) {
                break;
            }
            w.log.lock().unwrap().clear();
            if i == next {
                // Tasks on other threads may still be ending
                let (mut low, t) = (crate::live_bytes(), Instant::now());
                while t.elapsed() < Duration::from_millis(60) {
                    std::thread::sleep(Duration::from_millis(2));
                    low = low.min(crate::live_bytes());
                }
                if let Some(l) = m.last() {
                    g = g.min((low - l) / (i - i / 3) as i64).max(0);
                }
                m.push(low);
                // Whatever is kept each time shows in all of them
                if g == 0 && m.len() > 2 {
                    break;
                }
                next = 3 * i;
            }
        }
    }
    let mut ev = head;
    if m.len() > 2 {
        ev.push(json!({"e":"mem","g":g}));
    } else if w.late {
        // What did not come
        let l = w.log.lock().unwrap();
        ev.extend(l.iter().filter(|e| e["e"] == "garbage" || e["e"] == "late" || e["e"] == "refused" || e["e"] == "panic").cloned());
    }
    for t in tasks {
        async_std::task::block_on(t.cancel());
    }
    annotate(&mut ev);
    json!({"id": format!("cycle-{id}"), "cfg": cfg, "ev": ev, "m": m, "hist": cyc, "pre": pre})
}

pub fn cycle(a: &Args) {
    std::env::set_var("ASYNC_STD_THREAD_COUNT", "3");
    let (seed, part, parts) = (a.num("seed", 1), a.num("part", 0), a.num("parts", 1));
    let mut out = Out::new(a.get("out").unwrap());
    for i in (part..a.num("n", 20)).step_by(parts as usize) {
        out.line(&cycle_run(i, seed.wrapping_mul(3_000_017).wrapping_add(i), a.num("reps", 10) as usize));
        out.flush();
    }
}

pub fn run(a: &Args) {
    std::env::set_var("ASYNC_STD_THREAD_COUNT", "8");
    let n = a.num("n", 50);
    let seed = a.num("seed", 1);
    let len = a.num("len", 25) as usize;
    let profs = a.str("prof", "mix");
    let profs: Vec<&'static Prof> =
        profs.split(',').map(|p| PROFS.iter().find(|q| q.name == p).expect("profile")).collect();
    let par = a.num("par", 12);
    let f = a.str("seqs", "");
    let scripts: Vec<Vec<Value>> = if f.is_empty() {
        vec![]
    } else {
        let t = std::fs::read_to_string(&f).expect("seqs");
        t.lines().map(|l| serde_json::from_str(l).expect("json")).collect()
    };
    let n = if f.is_empty() { n } else { scripts.len() as u64 };
    let res = crate::util::parallel(n, par, |i| {
        let prof = profs[i as usize % profs.len()];
        world(i, seed.wrapping_mul(1_000_003).wrapping_add(i), prof, len, scripts.get(i as usize))
    });
    let mut out = Out::new(&a.str("out", "/dev/stdout"));
    for v in &res {
        out.line(v);
    }
    out.flush();
}
