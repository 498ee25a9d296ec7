//! C01, C02: byte streams reach hash and MAC instances through a simulated
//! transport that fragments, stalls, corrupts, truncates, loses, duplicates and
//! reorders; consumers crash and restart; streams interleave.

use super::*;
use crate::ev;
use crate::reference as r;
use dumb_crypto::hmac::HMac;
use dumb_crypto::sha256::SHA256;

enum Real {
    Sha(Box<SHA256>),
    Mac(Box<HMac>),
}
#[derive(Clone)]
enum Model {
    Sha(r::Sha),
    Mac(r::Mac),
}

impl Real {
    fn update(&mut self, d: &[u8]) {
        match self {
            Real::Sha(s) => rt::call("digest/panic", "SHA256::update", || s.update(d)),
            Real::Mac(s) => rt::call("digest/panic", "HMac::update", || s.update(d)),
        }
    }
    fn digest(&mut self) -> [u8; 32] {
        match self {
            Real::Sha(s) => rt::call("digest/panic", "SHA256::digest", || s.digest()),
            Real::Mac(s) => rt::call("digest/panic", "HMac::digest", || s.digest()),
        }
    }
}
impl Model {
    fn put(&mut self, d: &[u8]) {
        match self {
            Model::Sha(s) => s.put(d),
            Model::Mac(s) => s.put(d),
        }
    }
    fn end(self) -> [u8; 32] {
        match self {
            Model::Sha(s) => s.end(),
            Model::Mac(s) => s.end(),
        }
    }
}

pub fn mac_key() -> Vec<u8> {
    let n = match rt::weighted(&[3, 4, 3, 2, 1]) {
        0 => rt::range(0, 40),
        1 => rt::range(62, 67),
        2 => rt::range(0, 140),
        3 => one64(),
        _ if rt::chance(1, 8) => magnitude(10, if rt::instrumented() { 14 } else { 18 }),
        _ => rt::range(0, 1000),
    };
    let mut k = rt::bytes(n);
    if n > 0 && rt::chance(1, 8) {
        // trailing zeros are significant only through the key length rule
        let z = rt::range(1, n);
        for b in k[n - z..].iter_mut() {
            *b = 0
        }
    }
    if n > 64 {
        rt::count(K::KeyLong)
    } else if n == 64 {
        rt::count(K::KeyBlock)
    }
    k
}
fn one64() -> usize {
    rt::one_of(&[64, 32, 128, 65, 63, 96])
}

struct Stream {
    is_mac: bool,
    key: Vec<u8>,
    msg: Vec<u8>,
    datagram: bool,
    real: Option<Real>,
    model: Option<Model>,
    off: usize,
    fed: usize,
    hold: Option<Vec<u8>>,
    crashes: u32,
    damaged: bool,
    done: bool,
}

impl Stream {
    fn open(&mut self) {
        if self.is_mac {
            let k = &placed(&self.key);
            self.real = Some(Real::Mac(Box::new(rt::call("digest/panic", "HMac::new", || HMac::new(k)))));
            self.model = Some(Model::Mac(r::Mac::new(k)));
        } else {
            let via_default = rt::chance(1, 8);
            self.real = Some(Real::Sha(Box::new(rt::call("digest/panic", "SHA256::new", || {
                if via_default {
                    SHA256::default()
                } else {
                    SHA256::new()
                }
            }))));
            self.model = Some(Model::Sha(r::Sha::new()));
        }
        self.off = 0;
        self.fed = 0;
        self.hold = None;
    }
    fn feed(&mut self, d: &[u8]) {
        self.real.as_mut().unwrap().update(&placed(d));
        self.model.as_mut().unwrap().put(d);
        self.fed += d.len();
    }
}

fn world(mac: bool, prop: &str) {
    if let Some(n) = marathon::long() {
        return marathon::digests(mac, n);
    }
    let n = 1 + rt::weighted(&[5, 3, 2, 1]);
    let faults = rt::weighted(&[2, 5]) == 1;
    let (f_empty, f_stall, f_eof, f_bits, f_crash, f_mig) = if faults {
        (
            rt::chance(1, 2),
            rt::chance(1, 2),
            rt::chance(1, 2),
            rt::chance(1, 2),
            rt::chance(1, 2),
            rt::chance(1, 2),
        )
    } else {
        Default::default()
    };
    let mut q: Queue<usize> = Queue::new();
    let mut st: Vec<Stream> = vec![];
    for i in 0..n {
        // C01 runs some MAC streams as the "other computations", and the reverse
        let is_mac = if i == 0 { mac } else { mac ^ rt::chance(1, 4) };
        let key = if is_mac { mac_key() } else { vec![] };
        let len = len_class(i == 0);
        let msg = rt::bytes(len);
        let datagram = faults && rt::chance(1, 4);
        ev!("stream {i}: {} key {} bytes, message {} bytes, datagram {}", if is_mac { "mac" } else { "sha" }, key.len(), len, datagram);
        let mut s = Stream {
            is_mac,
            key,
            msg,
            datagram,
            real: None,
            model: None,
            off: 0,
            fed: 0,
            hold: None,
            crashes: 0,
            damaged: false,
            done: false,
        };
        s.open();
        st.push(s);
        q.after(latency(false), i);
    }
    while let Some(i) = q.next() {
        let s = &mut st[i];
        if s.done {
            continue;
        }
        if f_crash && s.crashes < 3 && s.off > 0 && rt::chance(1, 24) {
            // the consumer dies in mid-stream; a fresh instance starts over
            ev!("t={} stream {i}: consumer crashes at offset {}", q.now, s.off);
            rt::count(K::Crash);
            s.crashes += 1;
            s.open();
            q.after(latency(f_stall), i);
            continue;
        }
        if f_eof && rt::chance(1, 40) {
            ev!("t={} stream {i}: EOF at offset {} of {}", q.now, s.off, s.msg.len());
            rt::count(K::Eof);
            s.damaged |= s.off < s.msg.len();
            s.msg.truncate(s.off);
        }
        if s.off >= s.msg.len() && s.hold.is_none() {
            if f_eof && f_crash && rt::chance(1, 20) {
                ev!("stream {i}: abandoned without a digest");
                rt::count(K::Abandon);
                s.real = None;
                s.done = true;
                continue;
            }
            let got = s.real.as_mut().unwrap().digest();
            let want = s.model.take().unwrap().end();
            rt::count(K::PHash);
            if s.fed % 64 >= 56 {
                rt::count(K::PadOverflow)
            }
            if s.fed >= 1 << 13 {
                rt::count(K::LongStream)
            }
            if s.fed >= 1 << 21 {
                rt::count(K::VeryLong)
            }
            ev!("t={} stream {i}: digest of {} bytes {}", q.now, s.fed, hex(&got[..8]));
            if got != want {
                rt::violate(
                    &format!("{prop}/digest"),
                    &format!(
                        "{} over {} delivered bytes (key {} bytes): {}",
                        if s.is_mac { "HMAC" } else { "SHA-256" },
                        s.fed,
                        s.key.len(),
                        diff(&got, &want)
                    ),
                );
            }
            s.real = None;
            s.done = true;
            continue;
        }
        if f_empty && rt::chance(1, 6) {
            rt::count(K::EmptyRead);
            ev!("t={} stream {i}: empty read", q.now);
            s.feed(&[]);
        }
        if f_mig && rt::chance(1, 8) {
            // the instance moves to another place in memory
            rt::count(K::Migrate);
            s.real = match s.real.take().unwrap() {
                Real::Sha(b) => Some(Real::Sha(Box::new(*b))),
                Real::Mac(b) => Some(Real::Mac(Box::new(*b))),
            };
        }
        let mut p;
        if s.off < s.msg.len() {
            let k = piece(s.msg.len() - s.off, s.fed, 64);
            if k < s.msg.len() - s.off {
                rt::count(K::Fragment)
            }
            p = s.msg[s.off..s.off + k].to_vec();
            s.off += k;
        } else {
            p = s.hold.take().unwrap();
        }
        if f_bits && !p.is_empty() && rt::chance(1, 12) {
            rt::count(K::FlipBit);
            let at = rt::choose(p.len() as u64) as usize;
            p[at] ^= 1 << rt::choose(8);
            s.damaged = true;
            ev!("stream {i}: bit flipped in transit");
        }
        let mut fed = true;
        if s.datagram {
            match rt::weighted(&[8, 1, 1, 1]) {
                1 => {
                    rt::count(K::LoseBytes);
                    ev!("stream {i}: datagram of {} lost", p.len());
                    fed = false;
                }
                2 => {
                    rt::count(K::DupBytes);
                    ev!("stream {i}: datagram of {} duplicated", p.len());
                    s.feed(&p);
                }
                3 if s.hold.is_none() => {
                    rt::count(K::Reorder);
                    ev!("stream {i}: datagram of {} overtaken", p.len());
                    s.hold = Some(std::mem::take(&mut p));
                    fed = false;
                }
                _ => {}
            }
        }
        if fed {
            ev!("t={} stream {i}: {} bytes delivered, {} so far", q.now, p.len(), s.fed + p.len());
            s.feed(&p);
        }
        q.after(latency(f_stall), i);
    }
}

pub fn sha() {
    world(false, "C01")
}
pub fn mac() {
    world(true, "C02")
}

/// How a long stream is cut: in random pieces, in as few as possible, in small ones.
fn soak_plan(total: u64, seed: u64) -> Vec<usize> {
    let mut x = (seed ^ total.rotate_left(21)).wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut next = move || {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        x >> 33
    };
    let mut style = next() % 4;
    if style == 3 && total > 1 << 24 {
        style = 0
    }
    let (mut left, mut v) = (total, vec![]);
    // now and then the huge pieces start in the middle of a block
    if style == 1 && next() % 4 == 0 {
        v.push((next() % 64 + 1).min(left) as usize);
        left -= v[0] as u64;
    }
    while left > 0 {
        let n = match style {
            1 => SOAK_CHUNK as u64,
            2 if next() % 4 == 0 => next() % SOAK_CHUNK as u64 + 1,
            3 => next() % 300 + 1,
            _ => next() % (1 << 20) + 1,
        };
        let n = n.min(left);
        v.push(n as usize);
        left -= n;
    }
    v
}

const SOAK_CHUNK: usize = 24 << 20;

/// Lengths near powers of two, where counters of blocks, bytes or bits go round.
pub fn soak_totals(thorough: bool, seed: u64) -> Vec<Vec<u64>> {
    let mut x = seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1;
    let mut near = move |t: u64, spread: u64| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        t + (x >> 33) % spread
    };
    let mut v = vec![vec![], vec![]];
    for k in 16..29 {
        let t = 1u64 << k;
        let g = (k & 1) as usize;
        v[g].extend([near(t, 64), near(t - 64, 64), near(t, 200), t]);
        if k < 27 {
            let m = near(2, 14);
            v[g].push(near(t * m, 64));
        }
    }
    v[0].push(near(1 << 29, 64));
    v[1].push((1 << 29) + 12_345);
    v.push(vec![near(1 << 32, 64)]);
    if thorough {
        v.push(vec![(1 << 32) + 54_321, near(3 << 30, 64), near(1 << 30, 64), near(1 << 31, 64)]);
        v.push(vec![near(1 << 33, 64), (1 << 34) + 7]);
    }
    v
}

/// Long streams (plain build only): one instance fed the given number of
/// bytes in varying pieces, against the reference running beside it.
pub fn soak(mac: bool, total: u64, seed: u64) -> Result<u64, String> {
    let key = [0x5au8; 77];
    let size = SOAK_CHUNK.min(total as usize).max(1);
    let mut x = seed | 1;
    let chunk: Vec<u8> = (0..size)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 56) as u8
        })
        .collect();
    let plan = soak_plan(total, seed);
    // every piece from another place
    let at = |i: usize, n: usize| i.wrapping_mul(7919 * 64) % (size - n + 1);
    std::thread::scope(|sc| {
        let h = sc.spawn(|| {
            let put = |f: &mut dyn FnMut(&[u8])| {
                for (i, &n) in plan.iter().enumerate() {
                    let a = at(i, n);
                    f(&chunk[a..a + n]);
                }
            };
            if mac {
                let mut m = r::Mac::new(&key);
                put(&mut |d| m.put(d));
                m.end()
            } else {
                let mut m = r::Sha::new();
                put(&mut |d| m.put(d));
                m.end()
            }
        });
        let got = std::panic::catch_unwind(|| {
            if mac {
                let mut m = HMac::new(&key);
                for (i, &n) in plan.iter().enumerate() {
                    let a = at(i, n);
                    m.update(&chunk[a..a + n]);
                }
                m.digest()
            } else {
                let mut m = SHA256::new();
                for (i, &n) in plan.iter().enumerate() {
                    let a = at(i, n);
                    m.update(&chunk[a..a + n]);
                }
                m.digest()
            }
        });
        let want = h.join().unwrap();
        let what = format!("stream of {total} bytes in {} pieces, the longest of {}", plan.len(), plan.iter().max().unwrap_or(&0));
        match got {
            Ok(g) if g == want => Ok(plan.len() as u64),
            Ok(g) => Err(format!("{what}: {}", diff(&g, &want))),
            Err(_) => Err(format!("{what}: panic")),
        }
    })
}
