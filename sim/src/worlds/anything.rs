//! C23: the other worlds again, in an environment that answers everything
//! adversely. C24: any history of calls at all.

use super::stream::mac_key;
use super::*;
use crate::ev;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

pub fn hostile() {
    rt::hostile_env();
    let worlds: [fn(); 14] = [
        super::refused::run,
        super::stream::sha,
        super::stream::mac,
        super::cbc::encrypt,
        super::cbc::decrypt,
        super::cbc::damaged,
        super::cbc::session,
        super::disk::run,
        super::memory::oom,
        super::shared_aes::run,
        super::tasks::mixed,
        super::tasks::kdf,
        super::channel::run,
        misuse,
    ];
    worlds[rt::weighted(&[8, 4, 4, 4, 4, 6, 4, 4, 6, 4, 6, 2, 3, 4])]();
    if !rt::panics_reported() {
        rt::violate("C23/effect", "calls replaced the process's panic hook");
    }
}

enum T {
    Sha(SHA256),
    Mac(HMac),
    Aes(AES),
    Enc(Cipher),
    Dec(Decipher),
}

const P: &str = "C24/panic";

fn any_key() -> Vec<u8> {
    if rt::chance(1, 3) {
        super::refused::bad_key()
    } else {
        rt::aes_key()
    }
}

fn any_len() -> usize {
    if rt::chance(1, 3_000) {
        return magnitude(17, if rt::instrumented() { 20 } else { 22 });
    }
    match rt::weighted(&[4, 4, 4, 1]) {
        0 => 0,
        1 => rt::range(0, 20),
        2 => rt::one_of(&[15usize, 16, 17, 31, 32, 33, 48, 55, 56, 63, 64, 65, 119, 120, 127, 128]),
        _ => cbc_len(),
    }
}

/// Every instance at any stage of its life gets any call, in any order.
pub fn misuse() {
    if let Some(n) = marathon::long() {
        return marathon::again(n);
    }
    if rt::chance(1, 2) {
        return rt::run_threads(vec![Box::new(calls)]);
    }
    calls()
}

/// On a stack of 8 MiB, or of the 2 MiB a thread has.
fn calls() {
    let n = rt::range(1, 3);
    let mut v: Vec<T> = vec![];
    for _ in 0..n {
        let iv = rt::arr16();
        v.push(match rt::choose(5) {
            0 => T::Sha(rt::call(P, "SHA256::new", SHA256::new)),
            1 => {
                let k = mac_key();
                T::Mac(rt::call(P, "HMac::new", || HMac::new(&k)))
            }
            2 => T::Aes(rt::call(P, "AES::new", AES::new)),
            3 => T::Enc(rt::call(P, "Cipher::new", || Cipher::new(iv))),
            _ => T::Dec(rt::call(P, "Decipher::new", || Decipher::new(iv))),
        });
    }
    for _ in 0..rt::range(1, 40) {
        if rt::chance(1, 12) {
            derivation();
            continue;
        }
        let i = rt::choose(n as u64) as usize;
        match &mut v[i] {
            T::Sha(s) => {
                if rt::chance(1, 3) {
                    rt::call(P, "SHA256::digest", || s.digest());
                    rt::count(K::Misuse);
                    ev!("{i}: digest");
                } else {
                    let d = rt::bytes(any_len());
                    ev!("{i}: {} bytes to SHA-256", d.len());
                    rt::call(P, "SHA256::update", || s.update(&d));
                }
            }
            T::Mac(s) => {
                if rt::chance(1, 3) {
                    rt::call(P, "HMac::digest", || s.digest());
                    rt::count(K::Misuse);
                    ev!("{i}: tag");
                } else {
                    let d = rt::bytes(any_len());
                    ev!("{i}: {} bytes to HMAC", d.len());
                    rt::call(P, "HMac::update", || s.update(&d));
                }
            }
            T::Aes(a) => match rt::choose(3) {
                0 => {
                    let k = any_key();
                    ev!("{i}: AES key of {}", k.len());
                    if rt::call(P, "AES::init", || rt::shown(a.init(&k))).is_err() {
                        rt::count(K::Refused);
                    }
                }
                c => {
                    let b = rt::arr16();
                    if rt::call(P, "AES block call", || rt::shown(if c == 1 { a.encrypt(&b) } else { a.decrypt(&b) })).is_err() {
                        rt::count(K::Refused);
                    }
                }
            },
            T::Enc(c) => match rt::weighted(&[4, 3, 2]) {
                0 => {
                    let d = rt::bytes(any_len());
                    ev!("{i}: {} bytes to the cipher", d.len());
                    if rt::call(P, "Cipher::write", || rt::shown(c.write(&d))).is_err() {
                        rt::count(K::Refused);
                    }
                }
                1 => {
                    ev!("{i}: cipher flush");
                    rt::count(K::Misuse);
                    if rt::call(P, "Cipher::flush", || rt::shown(c.flush())).is_err() {
                        rt::count(K::Refused);
                    }
                }
                _ => {
                    let k = any_key();
                    ev!("{i}: cipher key of {}", k.len());
                    rt::count(K::Rekey);
                    if rt::call(P, "Cipher::init", || rt::shown(c.init(&k))).is_err() {
                        rt::count(K::Refused);
                    }
                }
            },
            T::Dec(c) => match rt::weighted(&[4, 3, 2]) {
                0 => {
                    let d = rt::bytes(any_len());
                    ev!("{i}: {} bytes to the decipher", d.len());
                    if rt::call(P, "Decipher::write", || rt::shown(c.write(&d))).is_err() {
                        rt::count(K::Refused);
                    }
                }
                1 => {
                    ev!("{i}: decipher flush");
                    rt::count(K::Misuse);
                    if rt::call(P, "Decipher::flush", || rt::shown(c.flush())).is_err() {
                        rt::count(K::Refused);
                    }
                }
                _ => {
                    let k = any_key();
                    ev!("{i}: decipher key of {}", k.len());
                    rt::count(K::Rekey);
                    if rt::call(P, "Decipher::init", || rt::shown(c.init(&k))).is_err() {
                        rt::count(K::Refused);
                    }
                }
            },
        }
    }
}

fn derivation() {
    let mut pw = mac_key();
    let mut salt = rt::bytes(sized(150));
    let mut out = rt::bytes(match rt::weighted(&[6, 4, 2, 1]) {
        0 => rt::range(0, 70),
        1 => rt::range(0, 5) * 32,
        2 => rt::range(0, 2000),
        _ => magnitude(8, if rt::instrumented() { 13 } else { 15 }),
    });
    match rt::choose(3) {
        0 => {
            let any = |top: usize| if rt::chance(1, 6) { 0 } else { rt::range(1, top) };
            let p = [any(9), if rt::chance(1, 2) { any(40) } else { 1 << rt::range(1, 6) }, any(4)];
            affordable(&mut pw, &mut salt, 1, out.len().max(128 * p[0] * p[2]));
            ev!("scrypt r {} n {} p {}, output {}", p[0], p[1], p[2], out.len());
            let s = rt::call(P, "Scrypt::new", || Scrypt::new(p[0], p[1], p[2]));
            if rt::call(P, "Scrypt::derive", || rt::shown(s.derive(&pw, &salt, &mut out))).is_err() {
                rt::count(K::Refused);
            }
        }
        1 => {
            let c = rt::range(1, 20);
            affordable(&mut pw, &mut salt, c, out.len());
            ev!("pbkdf2 c {c}, output {}", out.len());
            rt::call(P, "pbkdf2_sha256", || pbkdf2_sha256(&pw, &salt, c, &mut out));
        }
        _ => {
            let b = rt::bytes(64);
            let mut o = rt::bytes(64);
            let rounds = rt::range(0, 30);
            ev!("salsa20, {rounds} rounds");
            rt::call(P, "salsa20", || salsa20(&b, rounds, &mut o));
        }
    }
}
