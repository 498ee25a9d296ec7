//! C06: refused calls are injected anywhere in the history of several instances;
//! in the reference history they never happened.

use super::*;
use crate::ev;
use crate::reference::{self as r, AesKey, DecModel, EncModel};
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::scrypt::{Scrypt, ScryptError};

/// A key of a size no AES accepts.
pub fn bad_key() -> Vec<u8> {
    let n = match rt::weighted(&[4, 3, 2, 1]) {
        0 => rt::range(0, 40),
        1 => rt::one_of(&[0, 15, 17, 23, 25, 31, 33, 8, 48, 64, 128, 192, 256, 272, 280, 288]),
        2 => rt::range(33, 600),
        // valid once cut down to a byte, or to sixteen bits
        _ => rt::one_of(&[16, 24, 32]) + rt::one_of(&[256, 512, 768, 1024, 4096, 65_536]),
    };
    let n = if n == 16 || n == 24 || n == 32 { n + 1 } else { n };
    rt::bytes(n)
}

enum Inst {
    Aes(Box<AES>, Option<AesKey>),
    Enc(Box<Cipher>, EncModel),
    Dec(Box<Decipher>, DecModel),
}

/// A use before a key is installed: either refused, or (a short write) taken
/// and remembered. True if it was taken.
fn early<E: std::fmt::Debug>(what: &str, got: Option<Result<Vec<u8>, E>>, may_take: bool) -> bool {
    let Some(got) = got else { return false };
    match got {
        Err(e) => {
            let s = format!("{e:?}");
            if !s.contains("NotInitialized") {
                rt::violate("C06/error-kind", &format!("{what} before a key is installed: {s}"));
            }
            rt::count(K::Refused);
            false
        }
        Ok(o) if o.is_empty() && may_take => true,
        Ok(o) => rt::violate("C06/invalid", &format!("{what} before a key is installed returned {}", hex(&o))),
    }
}

fn step(i: usize, inst: &mut Inst) {
    match inst {
        Inst::Aes(a, k) => match rt::weighted(&[6, 3, 2]) {
            0 => {
                let b = rt::arr16();
                let enc = rt::chance(1, 2);
                let Some(got) = rt::refusable("C06/panic", "AES block call", || if enc { a.encrypt(&b) } else { a.decrypt(&b) }) else { return };
                rt::count(K::PAesOp);
                match (k.as_ref(), got) {
                    (None, Err(e)) => {
                        rt::count(K::Refused);
                        ev!("aes {i}: block call refused {e:?}");
                        if format!("{e:?}") != "NotInitialized" {
                            rt::violate("C06/error-kind", &format!("block call without a key: {e:?}"));
                        }
                    }
                    (None, Ok(o)) => rt::violate("C06/invalid", &format!("block call without a key returned {}", hex(&o))),
                    (Some(_), Err(e)) => rt::violate("C06/refused", &format!("block call with a key installed: {e:?}")),
                    (Some(k), Ok(o)) => {
                        let want = if enc { k.enc(&b) } else { k.dec(&b) };
                        ev!("aes {i}: block call");
                        if o != want {
                            rt::violate("C06/aes", &format!("instance {i}: {}", diff(&o, &want)));
                        }
                    }
                }
            }
            1 => {
                let key = bad_key();
                let got = rt::refusable("C06/panic", "AES::init", || a.init(&key));
                refused_key(i, &key, got);
            }
            _ => {
                let key = rt::aes_key();
                ev!("aes {i}: key of {} bytes", key.len());
                if let Err(e) = rt::call("C06/panic", "AES::init", || a.init(&key)) {
                    rt::violate("C06/refused", &format!("init with {} bytes: {e:?}", key.len()));
                }
                *k = Some(AesKey::new(&key));
            }
        },
        Inst::Enc(c, m) => match rt::weighted(&[6, 2, 3, 2]) {
            0 => {
                let n = small_len();
                let d = rt::bytes(n);
                ev!("cipher {i}: write of {n}");
                let got = rt::refusable("C06/panic", "Cipher::write", || c.write(&d));
                if m.key.is_none() {
                    if early("Cipher::write", got, m.part.len() + n < 16) {
                        m.part.extend_from_slice(&d);
                    }
                } else {
                    agree(&format!("cipher {i}: write of {n} bytes"), got, m.write(&d));
                }
            }
            1 => {
                ev!("cipher {i}: flush");
                let got = rt::refusable("C06/panic", "Cipher::flush", || c.flush());
                if m.key.is_none() {
                    early("Cipher::flush", got, false);
                } else {
                    agree(&format!("cipher {i}: flush"), got, m.flush());
                }
            }
            2 => {
                let key = bad_key();
                let got = rt::refusable("C06/panic", "Cipher::init", || c.init(&key));
                refused_key(i, &key, got);
            }
            _ => {
                // a valid key: the first one, or between messages
                if m.key.is_none() || m.part.is_empty() {
                    let key = rt::aes_key();
                    ev!("cipher {i}: key of {} bytes", key.len());
                    if let Err(e) = rt::call("C06/panic", "Cipher::init", || c.init(&key)) {
                        rt::violate("C06/refused", &format!("init with {} bytes: {e:?}", key.len()));
                    }
                    m.key = Some(AesKey::new(&key));
                }
            }
        },
        Inst::Dec(c, m) => match rt::weighted(&[6, 4, 2, 2, 3]) {
            0 => {
                let n = small_len();
                let d = rt::bytes(n);
                dec_write(i, c, m, &d);
            }
            1 => {
                ev!("decipher {i}: flush");
                let got = rt::refusable("C06/panic", "Decipher::flush", || c.flush());
                if m.key.is_none() {
                    match got {
                        None => {}
                        Some(Err(_)) => rt::count(K::Refused),
                        Some(Ok(o)) => rt::violate("C06/invalid", &format!("Decipher::flush of nothing returned {}", hex(&o))),
                    }
                } else {
                    let want = m.flush();
                    if want.is_err() {
                        rt::count(K::Refused);
                        ev!("decipher {i}: flush refused {want:?}");
                    }
                    agree(&format!("decipher {i}: flush"), got, want);
                }
            }
            2 => {
                let key = bad_key();
                let got = rt::refusable("C06/panic", "Decipher::init", || c.init(&key));
                refused_key(i, &key, got);
            }
            3 => {
                if m.key.is_none() || (m.part.is_empty() && m.held.is_empty()) {
                    let key = rt::aes_key();
                    ev!("decipher {i}: key of {} bytes", key.len());
                    if let Err(e) = rt::call("C06/panic", "Decipher::init", || c.init(&key)) {
                        rt::violate("C06/refused", &format!("init with {} bytes: {e:?}", key.len()));
                    }
                    m.key = Some(AesKey::new(&key));
                }
            }
            _ => {
                // bytes that bring the stream to a well padded end
                if let Some(k) = m.key.clone() {
                    if m.part.is_empty() {
                        let n = rt::range(0, 20);
                        let ct = r::cbc_enc(&k, &m.chain, &rt::bytes(n));
                        let cut = rt::range(0, ct.len());
                        dec_write(i, c, m, &ct[..cut]);
                        if rt::chance(2, 3) {
                            let got = rt::refusable("C06/panic", "Decipher::flush", || c.flush());
                            let want = m.flush();
                            if want.is_err() {
                                rt::count(K::Refused);
                            }
                            ev!("decipher {i}: flush in mid-stream: {}", want.is_ok());
                            agree(&format!("decipher {i}: flush in mid-stream"), got, want);
                        }
                        dec_write(i, c, m, &ct[cut..]);
                    }
                }
            }
        },
    }
}

fn dec_write(i: usize, c: &mut Decipher, m: &mut DecModel, d: &[u8]) {
    ev!("decipher {i}: write of {}", d.len());
    let got = rt::refusable("C06/panic", "Decipher::write", || c.write(d));
    if m.key.is_none() {
        if early("Decipher::write", got, m.part.len() + d.len() < 16) {
            m.part.extend_from_slice(d);
        }
    } else {
        agree(&format!("decipher {i}: write of {} bytes", d.len()), got, m.write(d));
    }
}

/// A call with a key installed: the model's outcome, unless left out.
fn agree<E: std::fmt::Debug>(what: &str, got: Option<Result<Vec<u8>, E>>, want: Result<Vec<u8>, r::Err_>) {
    if let Some(got) = got {
        same("C06", what, &got, &want);
    }
}

fn small_len() -> usize {
    match rt::weighted(&[3, 3, 1]) {
        0 => rt::range(0, 17),
        1 => rt::range(1, 5) * 16,
        _ => rt::range(0, 150),
    }
}

fn refused_key<E: std::fmt::Debug>(i: usize, key: &[u8], got: Option<Result<(), E>>) {
    let Some(got) = got else { return };
    rt::count(K::Refused);
    ev!("instance {i}: key of {} bytes refused", key.len());
    match got {
        Ok(()) => rt::violate("C06/invalid", &format!("a key of {} bytes was accepted", key.len())),
        Err(e) => {
            if format!("{e:?}") != "InvalidKeySize" {
                rt::violate("C06/error-kind", &format!("a key of {} bytes: {e:?}", key.len()));
            }
        }
    }
}

fn bad_n() -> usize {
    match rt::weighted(&[3, 3, 1]) {
        0 => rt::one_of(&[3, 5, 6, 7, 9, 12, 15, 17, 24, 31, 33, 48]),
        1 => {
            let n = rt::range(3, 5000);
            if n.is_power_of_two() {
                n + 1
            } else {
                n
            }
        }
        _ => {
            let k = rt::range(13, 62) as u32;
            match rt::choose(3) {
                0 => (1usize << k) + 1,
                1 => (1usize << k) - 1,
                _ => (1usize << k) | 1 << (k / 2),
            }
        }
    }
}

/// Refused derivations, with a good one before or after.
fn derivation() {
    let (mut n, mut rr, mut p) = (1usize << rt::range(1, 5), rt::range(1, 2), rt::range(1, 2));
    let which = 1 + rt::choose(15);
    let (br, bz, bn, bp) = (which & 1 != 0, which & 2 != 0, which & 4 != 0, which & 8 != 0);
    if br {
        rr = 0
    }
    if bz {
        n = 0
    } else if bn {
        n = bad_n()
    }
    if bp {
        p = 0
    }
    if !br && !bp && rt::chance(1, 4) {
        rr = rt::range(1, 8);
        p = rt::range(1, 8);
    }
    let mut pw = rt::bytes(sized(20));
    let mut salt = rt::bytes(sized(20));
    let out0 = rt::bytes(if rt::chance(1, 20) { magnitude(7, 13) } else { rt::range(0, 90) });
    affordable(&mut pw, &mut salt, 1, out0.len().max(128 * 64));
    if br || bz || bn || bp {
        let mut out = out0.clone();
        let s = Scrypt::new(rr, n, p);
        for _ in 0..rt::range(1, 2) {
            let Some(got) = rt::refusable("C06/panic", "Scrypt::derive", || s.derive(&pw, &salt, &mut out)) else { continue };
            rt::count(K::Refused);
            ev!("scrypt r {rr} n {n} p {p}: {got:?}");
            let fits = match &got {
                Ok(()) => rt::violate("C06/invalid", &format!("scrypt accepted r={rr} n={n} p={p}")),
                Err(ScryptError::RIsTooSmall) => br,
                Err(ScryptError::NIsTooSmall) => bz,
                Err(ScryptError::NIsNotAPowerOfTwo) => bn || bz,
                Err(ScryptError::PIsTooSmall) => bp,
                #[allow(unreachable_patterns)]
                Err(_) => true,
            };
            if !fits {
                rt::violate("C06/error-kind", &format!("scrypt r={rr} n={n} p={p}: {got:?}"));
            }
            if out != out0 {
                rt::violate("C06/buffer", &format!("refused scrypt r={rr} n={n} p={p} wrote to the output: {}", diff(&out, &out0)));
            }
        }
    }
    if rt::chance(1, 4) {
        let (n, rr, p) = (1usize << rt::range(1, 4), rt::range(1, 2), rt::range(1, 2));
        let mut out = out0.clone();
        let s = Scrypt::new(rr, n, p);
        if let Err(e) = rt::call("C06/panic", "Scrypt::derive", || s.derive(&pw, &salt, &mut out)) {
            rt::violate("C06/refused", &format!("scrypt r={rr} n={n} p={p}: {e:?}"));
        }
        rt::count(K::PKdf);
        let want = r::scrypt(&pw, &salt, rr, n, p, out.len());
        ev!("scrypt r {rr} n {n} p {p}: {} bytes", out.len());
        if out != want {
            rt::violate("C06/scrypt", &format!("scrypt r={rr} n={n} p={p} after a refused one: {}", diff(&out, &want)));
        }
    }
}

pub fn run() {
    if let Some(n) = marathon::long() {
        return marathon::refused(n);
    }
    let n = rt::range(1, 4);
    let mut v = vec![];
    for i in 0..n {
        let late = rt::chance(1, 2);
        let kind = rt::choose(3);
        let iv = rt::arr16();
        let key = rt::aes_key();
        ev!("instance {i}: kind {kind}, key {} bytes, installed late: {late}", key.len());
        let k = Some(AesKey::new(&key));
        v.push(match kind {
            0 => {
                let mut a = Box::new(rt::call("C06/panic", "AES::new", AES::new));
                if !late && rt::call("C06/panic", "AES::init", || a.init(&key)).is_err() {
                    rt::violate("C06/refused", "init");
                }
                Inst::Aes(a, if late { None } else { k })
            }
            1 => {
                let c = if late { rt::call("C06/panic", "Cipher::new", || Cipher::new(iv)) } else { cbc::new_cipher("C06", iv, &key) };
                let mut m = EncModel::new(iv);
                if !late {
                    m.key = k
                }
                Inst::Enc(Box::new(c), m)
            }
            _ => {
                let c = if late { rt::call("C06/panic", "Decipher::new", || Decipher::new(iv)) } else { cbc::new_decipher("C06", iv, &key) };
                let mut m = DecModel::new(iv);
                if !late {
                    m.key = k
                }
                Inst::Dec(Box::new(c), m)
            }
        });
    }
    let steps = rt::range(4, 40);
    for _ in 0..steps {
        if rt::chance(1, 8) {
            derivation();
        } else {
            let i = rt::choose(n as u64) as usize;
            step(i, &mut v[i]);
        }
    }
    // carry on to the end: what was put in comes out
    for (i, x) in v.iter_mut().enumerate() {
        match x {
            Inst::Enc(c, m) if m.key.is_some() => {
                let got = rt::call("C06/panic", "Cipher::flush", || c.flush());
                same("C06", &format!("cipher {i}: last flush"), &got, &m.flush());
            }
            Inst::Dec(c, m) if m.key.is_some() => {
                let k = m.key.clone().unwrap();
                if !m.part.is_empty() {
                    let n = 16 - m.part.len();
                    let d = rt::bytes(n);
                    dec_write(i, c, m, &d);
                }
                let ct = r::cbc_enc(&k, &m.chain, &rt::bytes(rt::range(0, 20)));
                dec_write(i, c, m, &ct);
                let got = rt::refusable("C06/panic", "Decipher::flush", || c.flush());
                agree(&format!("decipher {i}: last flush"), got, m.flush());
            }
            _ => {}
        }
    }
}
