//! Small helpers: argument parsing, random numbers, trace output.
use serde_json::Value;
use std::io::Write;

#[derive(Clone)]
pub struct Rng(u64);

impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03);
        for _ in 0..4 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn chance(&mut self, num: usize, den: usize) -> bool {
        self.below(den) < num
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len())]
    }
    /// Weighted choice, returns index
    pub fn weighted(&mut self, ws: &[usize]) -> usize {
        let tot: usize = ws.iter().sum();
        let mut x = self.below(tot);
        for (i, w) in ws.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
}

pub struct Args(std::collections::HashMap<String, String>);

impl Args {
    pub fn parse(it: impl Iterator<Item = String>) -> Self {
        let mut m = std::collections::HashMap::new();
        for a in it {
            if let Some((k, v)) = a.split_once('=') {
                m.insert(k.to_string(), v.to_string());
            } else {
                m.insert(a, "1".into());
            }
        }
        Args(m)
    }
    pub fn get(&self, k: &str) -> Option<&str> {
        self.0.get(k).map(|s| s.as_str())
    }
    pub fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).map_or(d, |s| s.parse().expect("number"))
    }
    pub fn str(&self, k: &str, d: &str) -> String {
        self.get(k).unwrap_or(d).to_string()
    }
}

/// Writes one JSON document per line
pub struct Out(std::io::BufWriter<std::fs::File>);

impl Out {
    pub fn new(path: &str) -> Self {
        Out(std::io::BufWriter::new(
            std::fs::File::create(path).expect("create output"),
        ))
    }
    pub fn line(&mut self, v: &Value) {
        serde_json::to_writer(&mut self.0, v).unwrap();
        self.0.write_all(b"\n").unwrap();
    }
    pub fn flush(&mut self) {
        self.0.flush().unwrap();
    }
}

pub fn bytes(b: &[u8]) -> Value {
    Value::Array(b.iter().map(|x| Value::from(*x)).collect())
}

/// Some job was not done
pub static STOPPED: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Run n jobs on some threads; stops early once too many of them got stuck
pub fn parallel(n: u64, par: u64, f: impl Fn(u64) -> Value + Sync) -> Vec<Value> {
    use std::sync::atomic::{AtomicU64, Ordering};
    let next = AtomicU64::new(0);
    let slow = AtomicU64::new(0);
    let res = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..par.min(n) {
            s.spawn(|| loop {
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n {
                    break;
                }
                if slow.load(Ordering::SeqCst) >= 2 * par {
                    STOPPED.store(true, Ordering::SeqCst);
                    break;
                }
                let t = std::time::Instant::now();
                let v = f(i);
                if t.elapsed() > std::time::Duration::from_secs(5) {
                    slow.fetch_add(1, Ordering::SeqCst);
                }
                res.lock().unwrap().push((i, v));
            });
        }
    });
    let mut r = res.into_inner().unwrap();
    r.sort_by_key(|x| x.0);
    r.into_iter().map(|x| x.1).collect()
}

/// Acknowledge what came right away
pub fn quickack(s: &impl std::os::fd::AsRawFd) {
    let on: libc::c_int = 1;
    unsafe {
        libc::setsockopt(s.as_raw_fd(), libc::IPPROTO_TCP, libc::TCP_QUICKACK, &on as *const _ as *const _, 4);
    }
}
