//! C21: what a message, a key or a derivation costs is proportional to its own
//! size, whatever the instances, the process or the other sessions did before.
//!
//! The cost is what the simulator counts while calls run: steps of the real
//! code (instrumented build) and memory traffic (both builds). Nothing here is
//! an absolute figure: a cost is only ever compared with the cost of the same
//! thing earlier, or of the same thing k times smaller, in the same run.

use super::stream::mac_key;
use super::*;
use crate::ev;
use crate::reference::{self as r, AesKey};
use crate::rt::Stop;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

const PANIC: &str = "C24/panic";

/// Long-lived instances the phases and the history have in common.
struct Shop {
    aes: AES,
    enc: Cipher,
    dec: Decipher,
    /// Key and last ciphertext block of the decipher's session.
    key: Vec<u8>,
    chain: [u8; 16],
    kdf: Scrypt,
    kp: [usize; 3],
}

/// One thing whose cost is looked at.
#[derive(Clone, Debug, PartialEq)]
enum U {
    Sha { piece: usize, n: usize },
    Mac { key: usize, piece: usize, n: usize },
    Enc { piece: usize, n: usize },
    Dec { piece: usize, n: usize },
    EncKey { len: usize, n: usize },
    DecKey { len: usize, n: usize },
    AesKey { len: usize, n: usize },
    Aes { n: usize, inverse: bool },
    Kdf { pw: usize, salt: usize, out: usize, n: usize },
    Pbkdf2 { pw: usize, salt: usize, c: usize, out: usize },
    Scrypt { pw: usize, r: usize, n: usize, p: usize, out: usize },
    /// New instances with a new key: a message there and back.
    Session { key: usize, len: usize },
    /// A damaged message refused.
    Refusal { len: usize },
}

fn cost<T>(sum: &mut u64, what: &str, f: impl FnOnce() -> T) -> T {
    let v = rt::call(PANIC, what, f);
    *sum += rt::last_work();
    v
}

impl Shop {
    fn new() -> Shop {
        let key = rt::aes_key();
        let iv = rt::arr16();
        let kp = [rt::range(1, 3), 1 << rt::range(1, 4), rt::range(1, 2)];
        let mut s = Shop { aes: AES::new(), enc: Cipher::new(iv), dec: Decipher::new(iv), key: key.clone(), chain: iv, kdf: Scrypt::new(kp[0], kp[1], kp[2]), kp };
        let _ = rt::call(PANIC, "AES::init", || s.aes.init(&key));
        let _ = rt::call(PANIC, "Cipher::init", || s.enc.init(&key));
        let _ = rt::call(PANIC, "Decipher::init", || s.dec.init(&key));
        s
    }

    /// Does it once and says what it cost.
    fn once(&mut self, u: &U) -> u64 {
        let mut w = 0;
        match *u {
            U::Sha { piece, n } => {
                let d = rt::bytes(piece);
                let mut s = cost(&mut w, "SHA256::new", SHA256::new);
                for _ in 0..n {
                    cost(&mut w, "SHA256::update", || s.update(&d));
                }
                cost(&mut w, "SHA256::digest", || s.digest());
            }
            U::Mac { key, piece, n } => {
                let (k, d) = (rt::bytes(key), rt::bytes(piece));
                let mut s = cost(&mut w, "HMac::new", || HMac::new(&k));
                for _ in 0..n {
                    cost(&mut w, "HMac::update", || s.update(&d));
                }
                cost(&mut w, "HMac::digest", || s.digest());
            }
            U::Enc { piece, n } => {
                let d = rt::bytes(piece);
                for _ in 0..n {
                    let _ = cost(&mut w, "Cipher::write", || self.enc.write(&d));
                }
                let _ = cost(&mut w, "Cipher::flush", || self.enc.flush());
            }
            U::Dec { piece, n } => {
                let d = rt::bytes(piece * n);
                let ct = r::cbc_enc(&AesKey::new(&self.key), &self.chain, &d);
                self.chain.copy_from_slice(&ct[ct.len() - 16..]);
                let m = ct.len().div_ceil(n.max(1)).max(1);
                for c in ct.chunks(m) {
                    if cost(&mut w, "Decipher::write", || self.dec.write(c)).is_err() {
                        rt::violate("C04/refused", "a valid ciphertext was refused");
                    }
                }
                if cost(&mut w, "Decipher::flush", || self.dec.flush()).is_err() {
                    rt::violate("C04/refused", "a valid ciphertext was refused");
                }
            }
            U::EncKey { len, n } => {
                for _ in 0..n {
                    let k = rt::bytes(len);
                    let _ = cost(&mut w, "Cipher::init", || self.enc.init(&k));
                }
            }
            U::DecKey { len, n } => {
                for _ in 0..n {
                    let k = rt::bytes(len);
                    if cost(&mut w, "Decipher::init", || self.dec.init(&k)).is_ok() {
                        self.key = k;
                    }
                }
            }
            U::AesKey { len, n } => {
                for _ in 0..n {
                    let k = rt::bytes(len);
                    let _ = cost(&mut w, "AES::init", || self.aes.init(&k));
                }
            }
            U::Aes { n, inverse } => {
                for _ in 0..n {
                    let b = rt::arr16();
                    let _ = cost(&mut w, "AES block", || if inverse { self.aes.decrypt(&b) } else { self.aes.encrypt(&b) });
                }
            }
            U::Kdf { pw, salt, out, n } => {
                for _ in 0..n {
                    let (a, b) = (rt::bytes(pw), rt::bytes(salt));
                    let mut o = vec![0; out];
                    let _ = cost(&mut w, "Scrypt::derive", || self.kdf.derive(&a, &b, &mut o));
                }
            }
            U::Pbkdf2 { pw, salt, c, out } => {
                let (a, b) = (rt::bytes(pw), rt::bytes(salt));
                let mut o = vec![0; out];
                cost(&mut w, "pbkdf2_sha256", || pbkdf2_sha256(&a, &b, c, &mut o));
            }
            U::Scrypt { pw, r, n, p, out } => {
                let (a, b) = (rt::bytes(pw), rt::bytes(16));
                let mut o = vec![0; out];
                let s = cost(&mut w, "Scrypt::new", || Scrypt::new(r, n, p));
                let _ = cost(&mut w, "Scrypt::derive", || s.derive(&a, &b, &mut o));
            }
            U::Session { key, len } => {
                let (k, d, iv) = (rt::bytes(key), rt::bytes(len), rt::arr16());
                let mut e = cost(&mut w, "Cipher::new", || Cipher::new(iv));
                let _ = cost(&mut w, "Cipher::init", || e.init(&k));
                let mut ct = cost(&mut w, "Cipher::write", || e.write(&d)).unwrap_or_default();
                ct.extend(cost(&mut w, "Cipher::flush", || e.flush()).unwrap_or_default());
                let mut e = cost(&mut w, "Decipher::new", || Decipher::new(iv));
                let _ = cost(&mut w, "Decipher::init", || e.init(&k));
                let _ = cost(&mut w, "Decipher::write", || e.write(&ct));
                let _ = cost(&mut w, "Decipher::flush", || e.flush());
            }
            U::Refusal { len } => {
                let d = rt::bytes(len);
                let _ = cost(&mut w, "Decipher::write", || self.dec.write(&d));
                let _ = cost(&mut w, "Decipher::flush", || self.dec.flush());
                // brought to the end of a block, and of a message
                let _ = cost(&mut w, "Decipher::write", || self.dec.write(&d[..(16 - len % 16) % 16 % (len + 1)]));
                let _ = cost(&mut w, "Decipher::flush", || self.dec.flush());
            }
        }
        rt::count(rt::K::PWork);
        w
    }

    /// The least of a few times: work done once and for all drops out.
    fn measure(&mut self, u: &U, times: usize) -> u64 {
        (0..times).map(|_| self.once(u)).min().unwrap_or(0)
    }

    /// Something that may have an effect on what comes later, but must not.
    fn happen(&mut self, heavy: bool) {
        let big = |a: usize, b: usize| if heavy { b } else { a };
        match rt::weighted(&[3, 3, 3, 3, 4, 2, 2, 2, 1, 2]) {
            0 if rt::chance(1, 2) => {
                // one that is large
                let top = if rt::instrumented() { 16 } else { 18 };
                let piece = (1 << rt::range(8, top)) + rt::range(0, 20);
                let u = match rt::choose(4) {
                    0 => U::Sha { piece, n: 1 },
                    1 => U::Mac { key: 20, piece, n: 1 },
                    2 => U::Enc { piece, n: 1 },
                    _ => U::Dec { piece, n: 1 },
                };
                ev!("history: {u:?}");
                self.once(&u);
            }
            0 => {
                let n = rt::range(1, big(8, 60));
                let piece = rt::range(0, 100);
                ev!("history: SHA-256 of {n} pieces of {piece}");
                self.once(&U::Sha { piece, n });
            }
            1 => {
                let n = rt::range(1, big(8, 60));
                let piece = rt::range(0, 100);
                ev!("history: HMAC of {n} pieces of {piece}");
                self.once(&U::Mac { key: rt::range(0, 100), piece, n });
            }
            2 => {
                let n = rt::range(1, big(10, 120));
                let piece = rt::range(0, big(40, 200));
                ev!("history: {n} pieces of {piece} encrypted");
                self.once(&U::Enc { piece, n });
            }
            3 => {
                let n = rt::range(1, big(10, 120));
                let piece = rt::range(0, big(40, 200));
                ev!("history: {n} pieces of {piece} decrypted");
                self.once(&U::Dec { piece, n });
            }
            4 => {
                let len = if rt::chance(1, 4) { rt::range(0, 40) } else { rt::one_of(&[16usize, 24, 32]) };
                let n = rt::range(1, big(6, 80));
                ev!("history: {n} keys of {len}");
                rt::count(if [16, 24, 32].contains(&len) { K::Rekey } else { K::Refused });
                match rt::choose(3) {
                    0 => self.once(&U::AesKey { len, n }),
                    1 => self.once(&U::EncKey { len, n }),
                    _ => self.once(&U::DecKey { len, n }),
                };
            }
            5 => {
                let n = rt::range(1, big(10, 100));
                ev!("history: {n} blocks");
                self.once(&U::Aes { n, inverse: rt::chance(1, 2) });
            }
            6 => {
                // a peer that sends rubbish
                let n = rt::range(1, big(6, 40));
                ev!("history: {n} damaged messages");
                for _ in 0..n {
                    let d = rt::bytes(rt::range(0, 80));
                    let _ = rt::call(PANIC, "Decipher::write", || self.dec.write(&d));
                    if d.len() >= 16 {
                        let e = d.len() / 16 * 16;
                        self.chain.copy_from_slice(&d[e - 16..e]);
                    }
                    let _ = rt::call(PANIC, "Decipher::flush", || self.dec.flush());
                    rt::count(K::PktTrunc);
                }
                // back to a state the model knows
                let (key, iv) = (self.key.clone(), rt::arr16());
                self.dec = Decipher::new(iv);
                self.chain = iv;
                let _ = rt::call(PANIC, "Decipher::init", || self.dec.init(&key));
            }
            7 => {
                // sessions opened and abandoned in the middle
                let n = rt::range(1, big(6, 60));
                ev!("history: {n} sessions abandoned");
                rt::count(K::Abandon);
                for _ in 0..n {
                    let k = rt::aes_key();
                    let d = rt::bytes(rt::range(0, 40));
                    rt::call(PANIC, "an abandoned session", || {
                        let mut c = Cipher::new([7; 16]);
                        let _ = c.init(&k);
                        let _ = c.write(&d);
                        let mut c = Decipher::new([7; 16]);
                        let _ = c.init(&k);
                        let _ = c.write(&d);
                        let mut h = HMac::new(&k);
                        h.update(&d);
                        let mut h = SHA256::new();
                        h.update(&d);
                    });
                }
            }
            8 => {
                let n = rt::range(1, big(2, 12));
                ev!("history: {n} derivations of {:?}", self.kp);
                self.once(&U::Kdf { pw: rt::range(0, 80), salt: rt::range(0, 80), out: rt::range(1, 70), n });
            }
            _ => {
                // keys that run into failing allocations
                let n = rt::range(1, big(4, 30));
                ev!("history: {n} interrupted keys");
                for _ in 0..n {
                    let k = rt::aes_key();
                    rt::fail_alloc(1 + rt::choose(20), rt::chance(1, 3));
                    let done = match rt::op(|| self.aes.init(&k)) {
                        Ok(_) | Err(Stop::Oom) | Err(Stop::Skipped) => true,
                        Err(Stop::Panic(_)) => false,
                    };
                    if !done {
                        rt::violate(PANIC, "AES::init panicked");
                    }
                }
                let k = self.key.clone();
                let _ = rt::call(PANIC, "AES::init", || self.aes.init(&k));
            }
        }
    }
}

fn any_unit() -> U {
    let len = rt::one_of(&[16usize, 24, 32]);
    let n = rt::range(1, 6);
    let piece = rt::range(0, 200);
    match rt::weighted(&[3, 3, 4, 4, 2, 2, 2, 3, 2, 2, 1]) {
        0 => U::Sha { piece, n },
        1 => U::Mac { key: mac_key().len(), piece, n },
        2 => U::Enc { piece, n },
        3 => U::Dec { piece, n },
        4 => U::EncKey { len, n },
        5 => U::DecKey { len, n },
        6 => U::AesKey { len, n },
        7 => U::Aes { n, inverse: rt::chance(1, 2) },
        8 => U::Kdf { pw: rt::range(0, 80), salt: rt::range(0, 80), out: rt::range(1, 70), n: 1 },
        9 => U::Pbkdf2 { pw: rt::range(0, 80), salt: rt::range(0, 80), c: rt::range(1, 12), out: rt::range(1, 100) },
        _ => U::Scrypt { pw: rt::range(0, 80), r: rt::range(1, 4), n: 1 << rt::range(1, 4), p: rt::range(1, 3), out: rt::range(1, 70) },
    }
}

/// Costs now against costs after a long history.
fn history() {
    let mut s = Shop::new();
    let us: Vec<U> = (0..rt::range(1, 4)).map(|_| any_unit()).collect();
    let before: Vec<u64> = us.iter().map(|u| s.measure(u, 3)).collect();
    let heavy = rt::chance(1, 3);
    let kinds = rt::range(1, if heavy { 8 } else { 25 });
    for _ in 0..kinds {
        s.happen(heavy);
    }
    if rt::chance(1, 12) {
        // thousands of one thing: enough for a search through all of them to show
        let n = rt::range(500, 3000);
        let u = match rt::choose(7) {
            0 => U::AesKey { len: 16, n },
            1 => U::EncKey { len: 16, n },
            2 => U::DecKey { len: 32, n },
            3 => U::Aes { n, inverse: rt::chance(1, 2) },
            4 => U::Enc { piece: rt::range(0, 40), n },
            5 => U::Dec { piece: rt::range(0, 40), n },
            _ => U::Mac { key: 20, piece: rt::range(0, 40), n },
        };
        ev!("history: {u:?}");
        rt::count(K::ManyCalls);
        s.once(&u);
    }
    for (u, &b) in us.iter().zip(&before) {
        let a = s.measure(u, 3);
        ev!("{u:?}: cost {b} before, {a} after");
        if a > 2 * b + 15_000 {
            rt::violate("C21/history", &format!("{u:?} cost {b} at first and {a} after the history of this run: its cost depends on what came before"));
        }
    }
}

/// Costs of a small thing against costs of the same thing k times as large.
fn scaling() {
    let mut s = Shop::new();
    let inst = rt::instrumented();
    let k = rt::range(4, 40);
    // bytes the large one may have
    let top = if inst { 60_000 } else { 400_000 };
    let base = rt::range(600, (top / k).clamp(700, 4000));
    let pieces = rt::range(1, 12);
    let by_count = rt::chance(1, 2);
    // the same bytes as k times larger pieces, or as k times more pieces
    let grow = |piece: usize, n: usize| if by_count { (piece, n * k) } else { (piece * k, n) };
    let (piece, n) = (base.div_ceil(pieces), pieces);
    let (bp, bn) = grow(piece, n);
    let kk = k.min(if inst { 10 } else { 24 });
    let (small, large, k) = match rt::weighted(&[4, 4, 4, 4, 1, 1, 2, 1, 1, 1]) {
        0 => (U::Sha { piece, n }, U::Sha { piece: bp, n: bn }, k),
        1 => (U::Mac { key: 32, piece, n }, U::Mac { key: 32, piece: bp, n: bn }, k),
        2 => (U::Enc { piece, n }, U::Enc { piece: bp, n: bn }, k),
        3 => (U::Dec { piece, n }, U::Dec { piece: bp, n: bn }, k),
        4 => (U::Mac { key: base, piece: 10, n: 1 }, U::Mac { key: base * k, piece: 10, n: 1 }, k),
        5 => {
            let c = rt::range(2, 10);
            let kk = rt::range(4, if inst { 100 } else { 1000 });
            (U::Pbkdf2 { pw: 20, salt: 20, c, out: 32 }, U::Pbkdf2 { pw: 20, salt: 20, c: c * kk, out: 32 }, kk)
        }
        6 => {
            let out = rt::range(3, 5) * 32;
            let c = rt::range(1, 4);
            let kk = rt::range(4, if inst { 40 } else { 400 });
            (U::Pbkdf2 { pw: 20, salt: 20, c, out }, U::Pbkdf2 { pw: 20, salt: 20, c, out: out * kk }, kk)
        }
        7 => {
            let e = rt::range(2, 3);
            let (r, p) = (rt::range(1, 2), rt::range(1, 2));
            let more = rt::range(3, if inst { 6 } else { 10 });
            (U::Scrypt { pw: 20, r, n: 1 << e, p, out: 32 }, U::Scrypt { pw: 20, r, n: 1 << (e + more), p, out: 32 }, 1 << more)
        }
        8 => {
            let (r, n) = (rt::range(1, 2), 1 << rt::range(1, 3));
            let kk = if inst { kk } else { rt::range(4, 200) };
            (U::Scrypt { pw: 20, r, n, p: 2, out: 32 }, U::Scrypt { pw: 20, r, n, p: 2 * kk, out: 32 }, kk)
        }
        _ => {
            let (p, n) = (rt::range(1, 2), 1 << rt::range(1, 3));
            let kk = if inst { kk } else { rt::range(4, 200) };
            (U::Scrypt { pw: 20, r: 1, n, p, out: 32 }, U::Scrypt { pw: 20, r: kk, n, p, out: 32 }, kk)
        }
    };
    // on instances that did it before, or on new ones: the memory a long-lived
    // instance keeps hides what it cost to get it
    let anew = rt::chance(1, 2);
    let mut measure = |u: &U| {
        if !anew {
            return s.measure(u, 2);
        }
        s = Shop::new();
        let a = s.once(u);
        s = Shop::new();
        a.min(s.once(u))
    };
    let (a, b) = (measure(&small), measure(&large));
    ev!("{small:?}: cost {a}; {k} times as much, {large:?}: cost {b}");
    let limit = 2 * k as u64 * a + 30_000;
    if b > limit {
        rt::violate("C21/scaling", &format!("{small:?} cost {a}, and {large:?}, {k} times as much, cost {b}"));
    }
}

/// One small thing again and again, thousands of times: what the later ones
/// cost together against what as many earlier ones did.
fn aging() {
    let mut s = Shop::new();
    let len = rt::one_of(&[0usize, 1, 15, 16, 17, 31, 32, 33, 8]);
    let key = rt::one_of(&[16usize, 32, 24]);
    let (u, dear) = match rt::weighted(&[3, 3, 2, 2, 3, 1, 2, 2, 2, 2, 1, 2]) {
        0 => (U::Enc { piece: len, n: 1 }, 2),
        1 => (U::Dec { piece: len, n: 1 }, 2),
        2 => (U::EncKey { len: key, n: 1 }, 3),
        3 => (U::DecKey { len: key, n: 1 }, 3),
        4 => (U::AesKey { len: key, n: 1 }, 3),
        5 => (U::AesKey { len: len + 33, n: 1 }, 1),
        6 => (U::Aes { n: 1, inverse: rt::chance(1, 2) }, 2),
        7 => (U::Mac { key: rt::one_of(&[20usize, 64, 65]), piece: len, n: 1 }, 4),
        8 => (U::Sha { piece: len, n: 1 }, 2),
        9 => (U::Pbkdf2 { pw: 10, salt: 10, c: 1, out: 20 }, 6),
        10 => (U::Kdf { pw: 10, salt: 10, out: 20, n: 1 }, 30),
        _ => (U::Session { key, len }, 8),
    };
    let (u, dear) = if rt::chance(1, 12) { (U::Refusal { len }, 4) } else { (u, dear) };
    let n = rt::range(6_000, 12_000) * if rt::instrumented() { 1 } else { 6 } / dear;
    let n = n.clamp(600, 30_000) / 20 * 20;
    ev!("aging: {n} of {u:?}");
    rt::count(K::ManyCalls);
    let mut st = rt::private_stream(rt::choose(1 << 32));
    let (mut early, mut late, mut peak) = (0, 0, 0);
    rt::with_private(&mut st, || {
        for i in 0..n {
            let w = s.once(&u);
            match i / (n / 20) {
                1 | 2 => early += w,
                18 | 19 => late += w,
                _ => {}
            }
            peak = peak.max(w);
        }
    });
    let each = n as u64 / 10;
    ev!("cost {early} for {each} early ones, {late} for {each} late ones, {peak} at most");
    if late > early + early / 4 + 20_000 {
        rt::violate("C21/history", &format!("{u:?}, {n} times: {each} of the first cost {early} together, {each} of the last {late}: the cost grows with what came before"));
    }
}

pub fn run() {
    if rt::chance(1, if rt::instrumented() { 60 } else { 25 }) {
        aging()
    } else if rt::chance(1, 2) {
        history()
    } else {
        scaling()
    }
}
