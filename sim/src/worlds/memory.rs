//! C12: allocations fail inside calls. C13: accounting of every byte obtained
//! inside calls, over repeated workloads.

use super::stream::mac_key;
use super::*;
use crate::ev;
use crate::reference::{self as r, AesKey, DecModel, EncModel};
use crate::rt::Stop;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

// ------------------------------------------------------------------------ C12

/// Maybe makes an allocation of the next call fail.
fn arm(far: bool) {
    match rt::weighted(&[5, 4, 1, if far { 4 } else { 0 }]) {
        0 => {}
        1 => rt::fail_alloc(1 + rt::choose(4), rt::chance(1, 4)),
        2 => rt::fail_alloc(1 + rt::choose(40), rt::chance(1, 4)),
        _ => {
            let c = rt::choose(13);
            rt::fail_alloc((1 << c) + rt::choose(1 << c), rt::chance(1, 4));
        }
    }
}

/// The call's outcome; None if a failed allocation unwound out of it.
fn attempt<T>(what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match rt::op(f) {
        Ok(v) => Some(v),
        Err(Stop::Oom) => {
            ev!("{what}: interrupted by a failed allocation");
            None
        }
        Err(Stop::Skipped) => None,
        Err(Stop::Panic(m)) => rt::violate("C12/panic", &format!("{what}: the call panicked: {m}")),
    }
}

enum I {
    Sha(SHA256, r::Sha),
    Mac(HMac, r::Mac),
    Aes(AES, Option<AesKey>),
    Enc(Cipher, EncModel),
    Dec(Decipher, DecModel),
    Kdf(Scrypt, [usize; 3]),
}

fn fresh() -> Option<I> {
    let kind = rt::choose(6);
    let iv = rt::arr16();
    let key = mac_key();
    arm(false);
    Some(match kind {
        0 => I::Aes(attempt("AES::new", AES::new)?, None),
        1 => I::Enc(attempt("Cipher::new", || Cipher::new(iv))?, EncModel::new(iv)),
        2 => I::Dec(attempt("Decipher::new", || Decipher::new(iv))?, DecModel::new(iv)),
        3 => I::Sha(attempt("SHA256::new", SHA256::new)?, r::Sha::new()),
        4 => I::Mac(attempt("HMac::new", || HMac::new(&key))?, r::Mac::new(&key)),
        _ => {
            let p = [rt::range(1, 3), 1 << rt::range(1, 4), rt::range(1, 2)];
            I::Kdf(attempt("Scrypt::new", || Scrypt::new(p[0], p[1], p[2]))?, p)
        }
    })
}

/// Installs a key; what an interruption leaves behind is judged by later calls.
fn install<E: std::fmt::Debug>(f: impl FnOnce(&[u8]) -> Result<(), E>, key: &mut Option<AesKey>) {
    let k = if rt::chance(1, 8) { super::refused::bad_key() } else { rt::aes_key() };
    let good = k.len() == 16 || k.len() == 24 || k.len() == 32;
    if key.is_none() && rt::chance(1, 2) {
        // sometimes let the first installation through
    } else {
        arm(false);
    }
    match attempt("init", || f(&k)) {
        None => rt::count(K::OomInit),
        Some(Ok(())) if good => {
            ev!("key of {} bytes installed", k.len());
            if key.is_some() {
                rt::count(K::Rekey)
            }
            *key = Some(AesKey::new(&k))
        }
        Some(Ok(())) => rt::violate("C12/accepted", &format!("a key of {} bytes was accepted", k.len())),
        Some(Err(e)) if good => rt::violate("C12/refused", &format!("a key of {} bytes: {e:?}", k.len())),
        Some(Err(_)) => rt::count(K::Refused),
    }
}

fn aes_check(a: &AES, k: &Option<AesKey>, faulty: bool) {
    let b = rt::arr16();
    let enc = rt::chance(1, 2);
    if faulty {
        arm(false);
    }
    let Some(got) = attempt("AES block call", || if enc { a.encrypt(&b) } else { a.decrypt(&b) }) else { return };
    rt::count(K::PAesOp);
    match (k, got) {
        (None, Err(_)) => {}
        (Some(k), Ok(o)) => {
            let want = if enc { k.enc(&b) } else { k.dec(&b) };
            if o != want {
                rt::violate("C12/aes", &format!("block call under the installed key: {}", diff(&o, &want)));
            }
        }
        (None, Ok(_)) => rt::violate("C12/half-installed", "a block call succeeded although no key was ever installed"),
        (Some(_), Err(e)) => rt::violate("C12/lost-key", &format!("the installed key is gone: {e:?}")),
    }
}

/// One step on an instance; false if the instance is to be given up.
fn advance(x: &mut I) -> bool {
    match x {
        I::Sha(s, m) => {
            if rt::chance(1, 4) {
                arm(false);
                if let Some(got) = attempt("SHA256::digest", || s.digest()) {
                    let want = m.clone().end();
                    rt::count(K::PHash);
                    if got != want {
                        rt::violate("C12/sha256", &diff(&got, &want));
                    }
                }
                return false;
            }
            let d = rt::bytes(sized(200));
            arm(false);
            if attempt("SHA256::update", || s.update(&d)).is_none() {
                return false;
            }
            m.put(&d);
        }
        I::Mac(s, m) => {
            if rt::chance(1, 4) {
                arm(false);
                if let Some(got) = attempt("HMac::digest", || s.digest()) {
                    let want = m.clone().end();
                    rt::count(K::PHash);
                    if got != want {
                        rt::violate("C12/hmac", &diff(&got, &want));
                    }
                }
                return false;
            }
            let d = rt::bytes(sized(200));
            arm(false);
            if attempt("HMac::update", || s.update(&d)).is_none() {
                return false;
            }
            m.put(&d);
        }
        I::Aes(a, k) => {
            if rt::chance(1, 2) {
                install(|key| a.init(key), k);
            }
            aes_check(a, k, true);
            if rt::chance(1, 2) {
                aes_check(a, k, false);
            }
        }
        I::Enc(c, m) => {
            if m.key.is_none() || rt::chance(1, 4) {
                // re-keying between messages
                if m.part.is_empty() {
                    install(|key| c.init(key), &mut m.key);
                } else {
                    // an interrupted or refused one may come at any time
                    rt::fail_alloc(1, true);
                    let k = rt::aes_key();
                    match attempt("init", || c.init(&k)) {
                        None => rt::count(K::OomInit),
                        Some(x) => {
                            // no allocation was needed: it took effect
                            if x.is_err() {
                                rt::violate("C12/refused", "valid key refused");
                            }
                            m.key = Some(AesKey::new(&k));
                        }
                    }
                }
            }
            if m.key.is_none() {
                return true;
            }
            if rt::chance(1, 3) {
                arm(false);
                match attempt("Cipher::flush", || c.flush()) {
                    None => {
                        rt::count(K::OomCbc);
                        return false;
                    }
                    Some(got) => same("C12", "Cipher::flush", &got, &m.flush()),
                }
            } else {
                let d = rt::bytes(sized(90));
                arm(false);
                match attempt("Cipher::write", || c.write(&d)) {
                    None => {
                        rt::count(K::OomCbc);
                        return false;
                    }
                    Some(got) => same("C12", &format!("Cipher::write of {}", d.len()), &got, &m.write(&d)),
                }
            }
        }
        I::Dec(c, m) => {
            if m.key.is_none() || rt::chance(1, 4) {
                if m.part.is_empty() && m.held.is_empty() {
                    install(|key| c.init(key), &mut m.key);
                } else {
                    rt::fail_alloc(1, true);
                    let k = rt::aes_key();
                    match attempt("init", || c.init(&k)) {
                        None => rt::count(K::OomInit),
                        Some(x) => {
                            if x.is_err() {
                                rt::violate("C12/refused", "valid key refused");
                            }
                            m.key = Some(AesKey::new(&k));
                        }
                    }
                }
            }
            let Some(k) = m.key.clone() else { return true };
            if rt::chance(1, 3) {
                arm(false);
                match attempt("Decipher::flush", || c.flush()) {
                    None => {
                        rt::count(K::OomCbc);
                        return false;
                    }
                    Some(got) => same("C12", "Decipher::flush", &got, &m.flush()),
                }
            } else {
                let d = if m.part.is_empty() && rt::chance(2, 3) {
                    r::cbc_enc(&k, &m.chain, &rt::bytes(sized(60)))
                } else {
                    rt::bytes(sized(50))
                };
                arm(false);
                match attempt("Decipher::write", || c.write(&d)) {
                    None => {
                        rt::count(K::OomCbc);
                        return false;
                    }
                    Some(got) => same("C12", &format!("Decipher::write of {}", d.len()), &got, &m.write(&d)),
                }
            }
        }
        I::Kdf(s, p) => {
            let mut pw = rt::bytes(sized(80));
            let mut salt = rt::bytes(sized(80));
            let mut out = rt::bytes(if rt::chance(1, 30) { magnitude(7, 13) } else { rt::range(1, 100) });
            let which = rt::choose(3);
            let c = rt::range(1, 5);
            affordable(&mut pw, &mut salt, c, out.len().max(128 * p[0] * p[2]));
            let (want, what) = match which {
                0 => (r::scrypt(&pw, &salt, p[0], p[1], p[2], out.len()), "Scrypt::derive"),
                1 => (r::pbkdf2(&pw, &salt, c, out.len()), "pbkdf2_sha256"),
                _ => {
                    let mut b = [7u8; 64];
                    b[..pw.len().min(64)].copy_from_slice(&pw[..pw.len().min(64)]);
                    out = vec![0x55; 64];
                    (r::salsa(&b, c).to_vec(), "salsa20")
                }
            };
            for round in 0..4 {
                if round < 3 {
                    arm(true)
                }
                let done = match which {
                    0 => attempt(what, || s.derive(&pw, &salt, &mut out).is_ok()),
                    1 => attempt(what, || {
                        pbkdf2_sha256(&pw, &salt, c, &mut out);
                        true
                    }),
                    _ => {
                        let mut b = [7u8; 64];
                        b[..pw.len().min(64)].copy_from_slice(&pw[..pw.len().min(64)]);
                        attempt(what, || {
                            salsa20(&b, c, &mut out);
                            true
                        })
                    }
                };
                match done {
                    None => rt::count(K::OomKdf),
                    Some(false) => rt::violate("C12/refused", &format!("{what} r,n,p={p:?}: valid parameters refused")),
                    Some(true) => {
                        rt::count(K::PKdf);
                        ev!("{what}: {} bytes, attempt {round}", out.len());
                        if out != want {
                            rt::violate("C12/key", &format!("{what}, attempt {round}: {}", diff(&out, &want)));
                        }
                        break;
                    }
                }
            }
        }
    }
    true
}

pub fn oom() {
    if let Some(n) = marathon::long() {
        return marathon::interrupted(n);
    }
    let n = rt::range(1, 4);
    let mut v: Vec<Option<I>> = vec![];
    for _ in 0..n {
        v.push(None);
    }
    let steps = rt::range(4, 40);
    for _ in 0..steps {
        let i = rt::choose(n as u64) as usize;
        let keep = match &mut v[i] {
            None => {
                v[i] = fresh();
                true
            }
            Some(x) => advance(x),
        };
        ev!("slot {i}: {}", if keep { "kept" } else { "given up" });
        if !keep {
            // dropping an interrupted instance must be safe
            if let Err(e @ Stop::Panic(_)) = rt::op(|| v[i] = None) {
                rt::violate("C12/drop", &format!("dropping an instance panicked: {e:?}"));
            }
        }
    }
    // every instance still in use answers exactly, without faults
    for x in v.iter_mut().flatten() {
        match x {
            I::Aes(a, k) => aes_check(a, k, false),
            I::Enc(c, m) if m.key.is_some() => {
                let got = rt::call("C12/panic", "Cipher::flush", || c.flush());
                same("C12", "last Cipher::flush", &got, &m.flush());
            }
            I::Dec(c, m) if m.key.is_some() => {
                let d = rt::bytes(40);
                let got = rt::call("C12/panic", "Decipher::write", || c.write(&d));
                same("C12", "last Decipher::write", &got, &m.write(&d));
            }
            I::Sha(s, m) => {
                let got = rt::call("C12/panic", "SHA256::digest", || s.digest());
                if got != m.clone().end() {
                    rt::violate("C12/sha256", "last digest");
                }
            }
            I::Mac(s, m) => {
                let got = rt::call("C12/panic", "HMac::digest", || s.digest());
                if got != m.clone().end() {
                    rt::violate("C12/hmac", "last digest");
                }
            }
            _ => {}
        }
    }
}

// ------------------------------------------------------------------------ C13

#[derive(Debug, Clone)]
enum A {
    /// (Re)opens a slot; a slot that was open is dropped as it is.
    Open(usize, u8, Vec<u8>),
    /// key, how often
    Key(usize, Vec<u8>, usize),
    /// data, how often
    Write(usize, Vec<u8>, usize),
    Flush(usize, usize),
    /// whole messages: a write and a flush each
    Msg(usize, Vec<u8>, usize),
    Close(usize),
    Kdf(Vec<u8>, [usize; 4], usize),
    Salsa,
}

enum S {
    Sha(SHA256),
    Mac(HMac),
    Aes(AES),
    Enc(Cipher),
    Dec(Decipher),
}

struct Slot13 {
    s: S,
    big: usize,
}

/// How often a call is repeated; very often only where that is affordable.
fn times(small: bool) -> usize {
    match rt::weighted(&[6, 6, 2, if small && !rt::instrumented() { 1 } else { 0 }]) {
        0 => 1,
        1 => rt::range(1, 30),
        2 => rt::range(1, 400),
        _ => {
            rt::count(K::ManyCalls);
            rt::range(5_000, 30_000)
        }
    }
}

fn script(slots: usize) -> Vec<(A, u64)> {
    let n = rt::range(3, 24);
    let mut v = vec![];
    for i in 0..slots {
        v.push((A::Open(i, rt::choose(5) as u8, mac_key()), 0));
        v.push((A::Key(i, rt::aes_key(), 1), 0));
    }
    for _ in 0..n {
        let i = rt::choose(slots as u64) as usize;
        let a = match rt::weighted(&[6, 3, 2, 1, 1, 1, 1, 3]) {
            0 => {
                let len = match rt::weighted(&[4, 2, 1]) {
                    0 => rt::range(0, 40),
                    1 => rt::range(0, 10) * 16,
                    _ => rt::range(0, 2500),
                };
                A::Write(i, rt::bytes(len), times(len < 50))
            }
            1 => A::Flush(i, times(true)),
            2 => A::Key(i, if rt::chance(1, 3) { super::refused::bad_key() } else { rt::aes_key() }, times(true)),
            7 => A::Msg(i, rt::bytes(rt::range(0, 40)), times(true)),
            3 => A::Open(i, rt::choose(5) as u8, mac_key()),
            4 => A::Close(i),
            5 => {
                let mut p = [rt::range(1, 3), 1 << rt::range(1, 4), rt::range(1, 2), rt::range(0, 80)];
                match rt::weighted(&[6, 1, 1, 1]) {
                    0 => {}
                    1 => p[1] = 3,
                    2 => p[rt::choose(3) as usize] = 0,
                    _ => p[2] = 0,
                }
                A::Kdf(mac_key(), p, rt::range(0, 4))
            }
            _ => A::Salsa,
        };
        let oom = if rt::chance(1, 6) {
            let c = rt::choose(9);
            (1 << c) + rt::choose(1 << c)
        } else {
            0
        };
        v.push((a, oom));
    }
    v
}

fn run_op<T>(oom: u64, f: impl FnOnce() -> T) -> Option<T> {
    if oom > 0 {
        rt::fail_alloc(oom, false);
    }
    match rt::op(f) {
        Ok(v) => Some(v),
        // however the call ended, its memory must be given back
        Err(_) => None,
    }
}

const ONCE: usize = 32_768;

fn budget(v: &[Option<Slot13>], base: i64) {
    // what the process may hold once and for all, then what each session may
    let limit: usize = ONCE + v.iter().flatten().map(|s| 16_384 + 8 * s.big).sum::<usize>();
    let (live, n) = rt::live();
    if live - base > limit as i64 && !rt::starts_threads() {
        rt::violate(
            "C13/unbounded",
            &format!("{} bytes in {n} blocks are held between calls; the sessions open allow {limit}", live - base),
        );
    }
}

/// n calls on a slot; a call that reports false, or is interrupted, ends the
/// session (an AES instance and an interrupted key installation survive).
fn repeat(n: usize, oom: u64, v: &mut [Option<Slot13>], i: usize, base: i64, len: usize, survives: bool, f: impl Fn(&mut S, usize) -> bool) {
    for t in 0..n {
        let Some(s) = &mut v[i] else { return };
        s.big = s.big.max(len);
        let o = if t + 1 == n { oom } else { 0 };
        let done = run_op(o, || f(&mut s.s, t));
        if done == Some(false) || (done.is_none() && !survives && !matches!(s.s, S::Aes(_))) {
            v[i] = None;
        }
        budget(v, base);
    }
}

/// Runs one action, `times` calls at most; returns what happened, for the log.
fn act(a: &A, oom: u64, v: &mut [Option<Slot13>], base: i64) {
    match a {
        A::Open(i, kind, key) => {
            v[*i] = None;
            let mut iv = [3u8; 16];
            iv[0] = key.len() as u8;
            v[*i] = run_op(oom, || match kind {
                0 => S::Enc(Cipher::new(iv)),
                1 => S::Dec(Decipher::new(iv)),
                2 => S::Sha(SHA256::new()),
                3 => S::Mac(HMac::new(key)),
                _ => S::Aes(AES::new()),
            })
            .map(|s| Slot13 { s, big: key.len() });
        }
        A::Close(i) => v[*i] = None,
        A::Key(i, k, n) => repeat(*n, oom, v, *i, base, k.len(), true, |s, _| {
            match s {
                S::Aes(a) => drop(rt::shown(a.init(k))),
                S::Enc(a) => drop(rt::shown(a.init(k))),
                S::Dec(a) => drop(rt::shown(a.init(k))),
                _ => {}
            }
            true
        }),
        A::Write(i, d, n) => {
            let mut b = [0u8; 16];
            for (x, y) in b.iter_mut().zip(d) {
                *x = *y
            }
            repeat(*n, oom, v, *i, base, d.len(), false, |s, _| {
                match s {
                    S::Sha(x) => x.update(d),
                    S::Mac(x) => x.update(d),
                    S::Aes(x) => drop((rt::shown(x.encrypt(&b)), x.decrypt(&b))),
                    S::Enc(x) => drop(rt::shown(x.write(d))),
                    S::Dec(x) => drop(rt::shown(x.write(d))),
                }
                true
            })
        }
        A::Flush(i, n) => repeat(*n, oom, v, *i, base, 0, false, |s, _| match s {
            S::Sha(x) => {
                x.digest();
                false
            }
            S::Mac(x) => {
                x.digest();
                false
            }
            S::Aes(_) => true,
            S::Enc(x) => {
                let _ = rt::shown(x.flush());
                true
            }
            S::Dec(x) => {
                let _ = rt::shown(x.flush());
                true
            }
        }),
        A::Msg(i, d, n) => repeat(2 * *n, oom, v, *i, base, d.len(), false, |s, t| match s {
            S::Enc(x) if t % 2 == 0 => {
                let _ = rt::shown(x.write(d));
                true
            }
            S::Enc(x) => {
                let _ = rt::shown(x.flush());
                true
            }
            S::Dec(x) if t % 2 == 0 => {
                let _ = rt::shown(x.write(d));
                true
            }
            S::Dec(x) => {
                let _ = rt::shown(x.flush());
                true
            }
            S::Sha(x) => {
                x.update(d);
                true
            }
            S::Mac(x) => {
                x.update(d);
                true
            }
            S::Aes(_) => true,
        }),
        A::Kdf(pw, p, c) => {
            let mut out = vec![1u8; p[3]];
            let _ = run_op(oom, || {
                if *c == 0 {
                    rt::shown(Scrypt::new(p[0], p[1], p[2]).derive(pw, b"salt", &mut out)).is_ok()
                } else {
                    pbkdf2_sha256(pw, b"salt", *c, &mut out);
                    true
                }
            });
        }
        A::Salsa => {
            let mut out = [0u8; 64];
            let _ = run_op(oom, || salsa20(&[9; 64], 4, &mut out));
        }
    }
}

pub fn bounded() {
    if !rt::instrumented() && rt::chance(1, 150) {
        return marathon::at_rest(rt::range(1, 4) * 60_000);
    }
    let slots = rt::range(1, 3);
    let sc = script(slots);
    let rounds = 3 + rt::choose(5) as usize;
    for (a, oom) in &sc {
        let mut t = match a {
            A::Write(i, d, n) => format!("write to {i}: {} bytes, {n} times", d.len()),
            A::Open(i, k, key) => format!("open {i}: kind {k}, {} bytes", key.len()),
            A::Key(i, k, n) => format!("key of {} bytes for {i}, {n} times", k.len()),
            A::Msg(i, d, n) => format!("{n} messages of {} bytes to {i}", d.len()),
            A::Kdf(p, q, c) => format!("derivation c={c} {q:?}, passphrase {}", p.len()),
            a => format!("{a:?}"),
        };
        if *oom > 0 {
            t += &format!(", allocation {oom} fails");
        }
        ev!("{t}");
        match a {
            A::Key(_, k, _) if ![16, 24, 32].contains(&k.len()) => rt::count(K::Refused),
            A::Key(..) => rt::count(K::Rekey),
            A::Close(_) => rt::count(K::Abandon),
            _ => {}
        }
    }
    let keep_open = rt::chance(1, 2);
    let mut v: Vec<Option<Slot13>> = (0..slots).map(|_| None).collect();
    let start = rt::live().0;
    let mut base = start;
    // what is held while no session is open, after whole rounds of the workload
    let mut closed: Vec<i64> = vec![];
    let mut round = 0;
    let mut last = rounds;
    while round < last {
        for (a, oom) in &sc {
            act(&vary(a, round), *oom, &mut v, base);
            budget(&v, base);
        }
        round += 1;
        if keep_open && round % 2 == 1 && round != last {
            ev!("round {round} leaves its sessions open");
            continue;
        }
        for s in v.iter_mut() {
            *s = None;
        }
        let (live, n) = rt::live();
        if round <= rounds {
            ev!("round {round}: {} bytes in {n} blocks are left with every session closed", live - start);
        }
        // what the library sets up once for the whole process is not a session's
        base = base.max(live);
        closed.push(live);
        if round == rounds && live > closed[0] {
            // a leak, or something bounded that is still filling up?
            last = rounds + GROWTH;
        }
    }
    if last > rounds {
        let (mid, end) = (closed[closed.len() - closed.len() / 2], closed[closed.len() - 1]);
        ev!("{} more rounds: {} bytes", GROWTH, end - start);
        if end > mid && !rt::starts_threads() {
            rt::violate(
                "C13/leak",
                &format!("with every session closed, the same workload repeated leaves {} bytes after the first round, {} halfway, {} after {last} rounds", closed[0] - start, mid - start, end - start),
            );
        }
    }
}

/// Further rounds when memory grew, so that a bounded set-up can come to rest.
const GROWTH: usize = 96;

/// The same action with other contents of the same lengths.
fn vary(a: &A, round: usize) -> A {
    let mut a = a.clone();
    match &mut a {
        A::Open(_, _, d) | A::Key(_, d, _) | A::Write(_, d, _) | A::Msg(_, d, _) | A::Kdf(d, ..) => {
            let mut x = round as u32;
            for b in d.iter_mut().take(8) {
                x = x.wrapping_mul(0x9e37_79b1).rotate_left(9);
                *b ^= x as u8;
            }
        }
        _ => {}
    }
    a
}

/// One ordinary call of everything, small and larger.
pub fn one_of_each() {
    let key = [5u8; 16];
    let mut out = [0u8; 200];
    let _ = rt::op(|| {
        for len in [5usize, 200, 70_000] {
            let d = vec![1u8; len];
            let mut s = SHA256::new();
            s.update(&d);
            s.digest();
            let mut c = Cipher::new(key);
            let _ = c.init(&key);
            let ct = [c.write(&d).unwrap_or_default(), c.flush().unwrap_or_default()].concat();
            let mut c = Decipher::new(key);
            let _ = c.init(&key);
            let _ = (c.write(&ct), c.flush());
            for c in [1, 40] {
                pbkdf2_sha256(&d, b"salt", c, &mut out);
            }
        }
        salsa20(&[9; 64], 8, &mut out[..64]);
    });
    for (r, n, p) in [(1, 4, 1), (1, 2, 4), (8, 64, 3), (1, 2048, 2)] {
        let _ = rt::op(|| Scrypt::new(r, n, p).derive(b"pass", b"salt", &mut out));
    }
}
