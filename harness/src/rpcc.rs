//! The RPC clients (through the port mapper client) against a peer which says anything
use crate::util::{Args, Out, Rng};
use crate::vxi::{fragments, listener, opaque, u, Rd, PATIENCE};
use lxi_vxi11::client::portmapper::prelude::*;
use lxi_vxi11::server::vxi11::prelude::*;
use serde_json::{json, Value};
use std::io::{ErrorKind, Read, Write};
use std::net::{Ipv4Addr, SocketAddr, TcpStream, UdpSocket};
use std::sync::mpsc::{channel, Receiver, Sender};
use std::time::{Duration, Instant};

type Answer = (String, Vec<u32>);

/// What an operation gave, or the words of the error
fn outcome<T, E: std::fmt::Debug>(r: Result<T, E>, f: impl FnOnce(T) -> Vec<u32>) -> Answer {
    match r {
        Ok(v) => ("ok".into(), f(v)),
        Err(e) => {
            let t = format!("{e:?}");
            let k = match t.split(|c: char| !c.is_alphanumeric()).next().unwrap() {
                "ProgUnavail" => "prog",
                "ProgMissmatch" => "mism",
                "ProcUnavail" => "proc",
                "GarbageArgs" => "garb",
                "SystemErr" => "sys",
                "RpcMissmatch" => "rpcv",
                "AuthError" => "auth",
                "Portmap" => "portmap",
                "Io" => "io",
                _ => "other",
            };
            let nums = t.split(|c: char| !c.is_ascii_digit()).filter_map(|s| s.parse().ok());
            (k.into(), if matches!(k, "mism" | "rpcv") { nums.collect() } else { vec![] })
        }
    }
}

fn client(udp: bool, addr: SocketAddr, jobs: Receiver<(String, Vec<u32>)>, out: Sender<Answer>) {
    async_std::task::block_on(async {
        let mut pm = None;
        while let Ok((op, a)) = jobs.recv() {
            if op == "regpm" {
                let b = VxiServerBuilder::<crate::vxi::Dev>::new().core_port(a[0] as u16).async_port(a[1] as u16);
                let r = b.register_portmap(addr).await;
                let _ = out.send(outcome(r.map(|_| ()), |_| vec![]));
                continue;
            }
            if pm.is_none() {
                pm = Some(if udp {
                    PortMapperClient::connect_udp(addr).await.expect("udp")
                } else {
                    PortMapperClient::connect_tcp(addr).await.expect("tcp")
                });
            }
            let c = pm.as_mut().unwrap();
            let m = || Mapping::new(a[0], a[1], a[2], a[3]);
            let r = match op.as_str() {
                "null" => outcome(c.null().await, |_| vec![]),
                "set" => outcome(c.set(m()).await, |b| vec![b as u32]),
                "unset" => outcome(c.unset(m()).await, |b| vec![b as u32]),
                "getport" => outcome(c.getport(m()).await, |p| vec![p as u32]),
                "register" => outcome(c.register(m()).await, |_| vec![]),
                "callit" => {
                    let r = c.callit::<u32, u32>(a[0], a[1], a[2], a[3]).await;
                    outcome(r, |v| vec![v])
                }
                o => panic!("operation {o}"),
            };
            if out.send(r).is_err() {
                break;
            }
        }
    });
}

enum Sock {
    T(TcpStream),
    U(UdpSocket, SocketAddr),
}

struct World {
    ev: Vec<Value>,
    rng: Rng,
    sock: Option<Sock>,
    inbuf: Vec<u8>,
    jobs: Sender<(String, Vec<u32>)>,
    out: Receiver<Answer>,
    op: Option<String>,
    /// Identifiers seen, the last one still to be answered
    xids: Vec<u32>,
    /// Identifiers of replies to calls not made yet
    early: Vec<u32>,
    /// Calls seen when the operation began
    before: usize,
    want: bool,
    late: bool,
    udp: Option<UdpSocket>,
    tcp: Option<std::net::TcpListener>,
    closed: bool,
}

fn clamp(v: u32) -> u32 {
    v.min(0x7fff_ffff)
}

impl World {
    fn poll(&mut self) {
        // What it called came before what it answers
        let answer = self.out.try_recv();
        self.receive();
        if answer.is_ok() && self.tcp.is_some() && !self.closed {
            // A call which was answered before it was made may still be held back by the network
            let t = Instant::now();
            let most = if matches!(self.op.as_deref(), Some("register" | "regpm")) { 2 } else { 1 };
            while self.xids.len() < self.before + most
                && self.early.contains(&(self.xids.last().copied().unwrap_or(0) + 1))
                && t.elapsed() < Duration::from_millis(400)
            {
                std::thread::sleep(Duration::from_micros(100));
                self.receive();
            }
        }
        match answer {
            Ok(a) => self.result(a),
            Err(std::sync::mpsc::TryRecvError::Disconnected) if self.op.is_some() => {
                self.ev.push(json!({"e":"panic"}));
                self.op = None;
                self.late = true;
            }
            _ => (),
        }
    }

    fn receive(&mut self) {
        let mut b = [0u8; 4096];
        if let Some(l) = &self.tcp {
            if let Ok((s, _)) = l.accept() {
                s.set_nodelay(true).unwrap();
                s.set_nonblocking(true).unwrap();
                self.sock = Some(Sock::T(s));
            }
        }
        let mut recs = vec![];
        match &mut self.sock {
            Some(Sock::T(s)) => {
                while let Ok(n) = s.read(&mut b) {
                    if n == 0 {
                        break;
                    }
                    self.inbuf.extend(&b[..n]);
                }
                while self.inbuf.len() >= 4 {
                    let h = u32::from_be_bytes(self.inbuf[..4].try_into().unwrap());
                    let n = (h & 0x7fff_ffff) as usize;
                    if self.inbuf.len() < 4 + n {
                        break;
                    }
                    if h >> 31 == 0 {
                        self.ev.push(json!({"e":"noise"}));
                    }
                    recs.push(self.inbuf[4..4 + n].to_vec());
                    self.inbuf.drain(..4 + n);
                }
            }
            _ => (),
        }
        if let Some(s) = &self.udp {
            while let Ok((n, from)) = s.recv_from(&mut b) {
                recs.push(b[..n].to_vec());
                self.sock = Some(Sock::U(s.try_clone().unwrap(), from));
            }
        }
        for r in recs {
            let e = self.seen(&r).unwrap_or_else(|| json!({"e":"noise","n":r.len()}));
            self.ev.push(e);
            self.want = false;
        }
    }

    fn seen(&mut self, r: &[u8]) -> Option<Value> {
        let mut d = Rd(r);
        let x = d.u()?;
        if d.u()? != 0 {
            return None;
        }
        let (rv, pg, vs, pr) = (d.u()?, d.u()?, d.u()?, d.u()?);
        let auth = d.u()?;
        d.opaque()?;
        let vf = d.u()?;
        d.opaque()?;
        let mut args = vec![];
        let mut left = d.0;
        if pr == 5 {
            for _ in 0..3 {
                args.push(clamp(d.u()?));
            }
            let o = d.opaque()?;
            if o.len() != 4 {
                return None;
            }
            args.push(u32::from_be_bytes(o[..].try_into().unwrap()));
            left = d.0;
        } else {
            while left.len() >= 4 {
                args.push(clamp(u32::from_be_bytes(left[..4].try_into().unwrap())));
                left = &left[4..];
            }
        }
        if !left.is_empty() {
            return None;
        }
        self.xids.push(x);
        Some(json!({"e":"saw","x":format!("x{x}"),"rv":clamp(rv),"pg":clamp(pg),"vs":clamp(vs),"pr":clamp(pr),
            "auth":auth | vf,"args":args}))
    }

    fn result(&mut self, (k, mut v): Answer) {
        if self.op.as_deref() == Some("callit") && k == "ok" {
            // The port the call was forwarded to is not returned
            v.insert(0, 0);
        }
        self.op = None;
        self.want = false;
        self.ev.push(json!({"e":"res","k":k,"v":v}));
    }

    /// Wait for something
    fn until(&mut self, f: impl Fn(&World) -> bool) -> bool {
        let t = Instant::now();
        while t.elapsed() < PATIENCE {
            self.poll();
            if f(self) || self.late {
                return true;
            }
            std::thread::sleep(Duration::from_micros(30));
        }
        self.ev.push(json!({"e":"late"}));
        self.late = true;
        false
    }

    fn invoke(&mut self, op: &str) {
        if self.op.is_some() {
            return;
        }
        let r = |g: &mut Rng| *g.pick(&[0u32, 1, 6, 17, 100000, 395183, 0x7fff_ffff]);
        let a: Vec<u32> = match op {
            "null" => vec![],
            "regpm" => vec![1 + self.rng.below(65535) as u32, 1 + self.rng.below(65535) as u32],
            _ => (0..4).map(|_| r(&mut self.rng)).collect(),
        };
        self.ev.push(json!({"e":"invoke","op":op,"a":a}));
        self.op = Some(op.to_string());
        self.before = self.xids.len();
        self.want = !self.closed;
        self.jobs.send((op.to_string(), a)).unwrap();
        // A call, or a result if there is nobody to call
        let n = self.xids.len();
        self.until(|w| w.op.is_none() || w.xids.len() > n);
    }

    fn header(x: u32, ty: u32) -> Vec<u8> {
        let mut m = vec![];
        u(&mut m, x);
        u(&mut m, ty);
        m
    }

    fn put(&mut self, o: usize, k: &str, val: u32) {
        if self.sock.is_none() || self.closed {
            return;
        }
        let n = self.xids.len();
        let new = self.xids.last().copied().unwrap_or(0);
        let x = match o {
            0 => new,
            1 if n >= 2 => self.xids[n - 2],
            1 => return,
            _ => new.wrapping_add(1),
        };
        if o == 2 {
            self.early.push(x);
        }
        let mut v: Vec<u32> = vec![];
        let mut m = Self::header(x, 1);
        let accepted = |m: &mut Vec<u8>, s: u32, rng: &mut Rng| {
            u(m, 0);
            // Verifier
            if rng.chance(1, 4) {
                u(m, 0);
                opaque(m, &[1, 2, 3][..rng.below(4)]);
            } else {
                u(m, 0);
                u(m, 0);
            }
            u(m, s);
        };
        let op = self.op.clone().unwrap_or_else(|| "getport".to_string());
        match k {
            "ok" | "cut" => {
                accepted(&mut m, 0, &mut self.rng);
                let body: Vec<u8> = match op.as_str() {
                    "null" => vec![],
                    "callit" => {
                        v = vec![0, if val == 0 { 0 } else { self.rng.below(100000) as u32 }];
                        let mut b = vec![];
                        u(&mut b, 0);
                        opaque(&mut b, &v[1].to_be_bytes());
                        b
                    }
                    "getport" => {
                        v = vec![if val == 0 { 0 } else { *self.rng.pick(&[111, 4322, 65535, 65536]) }];
                        v[0].to_be_bytes().to_vec()
                    }
                    _ => {
                        v = vec![val];
                        val.to_be_bytes().to_vec()
                    }
                };
                if k == "cut" {
                    if body.is_empty() {
                        return;
                    }
                    v.clear();
                    let n = self.rng.below(body.len());
                    m.extend(&body[..n]);
                } else {
                    m.extend(body);
                }
            }
            "prog" => accepted(&mut m, 1, &mut self.rng),
            "mism" => {
                accepted(&mut m, 2, &mut self.rng);
                v = vec![self.rng.below(5) as u32, self.rng.below(5) as u32];
                u(&mut m, v[0]);
                u(&mut m, v[1]);
            }
            "proc" => accepted(&mut m, 3, &mut self.rng),
            "garb" => accepted(&mut m, 4, &mut self.rng),
            "sys" => accepted(&mut m, 5, &mut self.rng),
            "rpcv" => {
                v = vec![self.rng.below(5) as u32, self.rng.below(5) as u32];
                for w in [1, 0, v[0], v[1]] {
                    u(&mut m, w);
                }
            }
            "auth" => {
                for w in [1, 1, 1 + self.rng.below(5) as u32] {
                    u(&mut m, w);
                }
            }
            "call" => {
                m = Self::header(x, 0);
                for w in [2, 100000, 2, 0, 0, 0, 0, 0] {
                    u(&mut m, w);
                }
            }
            "tiny" => m.truncate(self.rng.below(4)),
            "bad" => match self.rng.below(5) {
                0 => m.truncate(4 + self.rng.below(4)),
                1 => accepted(&mut m, 6 + self.rng.below(1000) as u32, &mut self.rng),
                2 => u(&mut m, 2 + self.rng.below(9) as u32),
                3 => m = Self::header(x, 2 + self.rng.below(9) as u32),
                _ => {
                    accepted(&mut m, 2, &mut self.rng);
                    u(&mut m, 1);
                }
            },
            k => panic!("reply {k}"),
        }
        if op == "callit" && k == "cut" {
            // Cut, but the results themselves could be there
            v.clear();
        }
        let shown = if matches!(k, "tiny") { "none".to_string() } else { format!("x{x}") };
        self.ev.push(json!({"e":"put","m":{"x":shown,"k":k,"v":v}}));
        match self.sock.as_mut().unwrap() {
            Sock::U(s, to) => {
                let _ = s.send_to(&m, *to);
            }
            Sock::T(s) => {
                let b = fragments(&mut self.rng, &m);
                let mut pos = 0;
                while pos < b.len() {
                    let n = if self.rng.chance(1, 3) { 1 + self.rng.below(b.len() - pos) } else { b.len() - pos };
                    match s.write(&b[pos..pos + n]) {
                        Ok(n) => pos += n,
                        Err(e) if e.kind() == ErrorKind::WouldBlock => (),
                        Err(_) => break,
                    }
                }
            }
        }
        if o == 0 && self.op.is_some() && !self.want && k != "call" && k != "tiny" {
            let n = self.xids.len();
            self.until(|w| w.op.is_none() || w.xids.len() > n);
        } else {
            let t = Instant::now();
            while t.elapsed() < Duration::from_micros(if self.rng.chance(1, 3) { 400 } else { 0 }) {
                self.poll();
            }
        }
    }

    fn close(&mut self) {
        if self.closed || self.sock.is_none() || self.udp.is_some() {
            return;
        }
        self.poll();
        self.ev.push(json!({"e":"close"}));
        self.closed = true;
        if let Some(Sock::T(s)) = &self.sock {
            let _ = s.shutdown(std::net::Shutdown::Write);
        }
        if self.op.is_some() {
            self.until(|w| w.op.is_none());
        }
    }
}

fn world(id: u64, seed: u64, len: usize, script: Option<&Vec<Value>>) -> Value {
    let mut rng = Rng::new(seed);
    let reg = script.map_or(rng.chance(1, 8), |s| s.iter().any(|s| s[1] == "regpm"));
    let is_udp = !reg && rng.chance(1, 2);
    let (tcp, udp, addr) = if is_udp {
        let s = UdpSocket::bind((Ipv4Addr::LOCALHOST, 0)).unwrap();
        s.set_nonblocking(true).unwrap();
        let a = s.local_addr().unwrap();
        (None, Some(s), a)
    } else {
        let l = listener();
        l.set_nonblocking(true).unwrap();
        let a = l.local_addr().unwrap();
        (Some(l), None, a)
    };
    let (jobs, rx) = channel();
    let (tx, out) = channel();
    let h = std::thread::spawn(move || client(is_udp, addr, rx, tx));
    let mut w = World {
        ev: vec![],
        rng,
        sock: None,
        inbuf: vec![],
        jobs,
        out,
        op: None,
        xids: vec![],
        early: vec![],
        before: 0,
        want: false,
        late: false,
        udp,
        tcp,
        closed: false,
    };
    const OPS: [&str; 6] = ["null", "set", "unset", "getport", "callit", "register"];
    const KINDS: [&str; 12] =
        ["ok", "cut", "prog", "mism", "proc", "garb", "sys", "rpcv", "auth", "call", "tiny", "bad"];
    if let Some(steps) = script {
        for s in steps {
            match s[0].as_str().unwrap() {
                "invoke" => w.invoke(s[1].as_str().unwrap()),
                "put" => w.put(s[1].as_u64().unwrap() as usize, s[2].as_str().unwrap(), s[3].as_u64().unwrap() as u32),
                "close" => w.close(),
                _ => (),
            }
            if w.late {
                break;
            }
        }
    } else {
        if reg {
            w.invoke("regpm");
        }
        for _ in 0..len {
            if w.late {
                break;
            }
            if w.op.is_none() {
                if reg || w.rng.chance(1, 30) {
                    break;
                }
                let op = *w.rng.pick(&OPS);
                w.invoke(op);
            } else if w.rng.chance(1, 40) {
                w.close();
            } else {
                let o = w.rng.weighted(&[5, 3, 2]);
                let k = if w.rng.chance(1, 2) { "ok" } else { *w.rng.pick(&KINDS) };
                let v = w.rng.below(3) as u32;
                w.put(o, k, v);
            }
        }
    }
    // Nobody is left waiting
    let mut n = 0;
    while w.op.is_some() && !w.late && n < 4 {
        if w.udp.is_none() && w.rng.chance(1, 2) {
            w.close();
        } else {
            w.put(0, "ok", 1);
        }
        n += 1;
    }
    drop(w.jobs);
    if !w.late {
        let _ = h.join();
    }
    json!({"id": format!("rpc-{}{id}", if is_udp { "u" } else { "t" }), "ev": w.ev})
}

pub fn run(a: &Args) {
    let n = a.num("n", 50);
    let seed = a.num("seed", 1);
    let len = a.num("len", 20) as usize;
    let f = a.str("seqs", "");
    let scripts: Vec<Vec<Value>> = if f.is_empty() {
        vec![]
    } else {
        let t = std::fs::read_to_string(&f).expect("seqs");
        t.lines().map(|l| serde_json::from_str(l).expect("json")).collect()
    };
    let n = if f.is_empty() { n } else { scripts.len() as u64 };
    let res = crate::util::parallel(n, a.num("par", 12), |i| {
        world(i, seed.wrapping_mul(1_000_003).wrapping_add(i), len, scripts.get(i as usize))
    });
    let mut out = Out::new(&a.str("out", "/dev/stdout"));
    for v in &res {
        out.line(v);
    }
    out.flush();
}

