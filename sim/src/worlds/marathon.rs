//! Very many calls: on one instance, and on very many instances in one process.
//! What counts calls, messages, keys or blocks in 8 or 16 bits goes round here.

use super::cbc::{DecPair, EncPair};
use super::*;
use crate::ev;
use crate::reference::{self as r, AesKey};
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;

/// Now and then a number of repetitions, past 2^8 or past 2^16.
pub fn long() -> Option<usize> {
    if rt::instrumented() {
        return rt::chance(1, 300).then(|| rt::range(250, 300));
    }
    match rt::weighted(&[1990, 12, 2, 1]) {
        0 => None,
        1 => Some(rt::range(250, 1100)),
        2 => Some(rt::range(65_530, 66_000)),
        _ => Some(rt::range(131_060, 131_200)),
    }
}

fn alone<T>(f: impl FnOnce() -> T) -> T {
    rt::count(K::ManyCalls);
    let mut s = rt::private_stream(rt::choose(1 << 32));
    rt::with_private(&mut s, f)
}

/// C01, C02.
pub fn digests(mac: bool, n: usize) {
    let prop = if mac { "C02" } else { "C01" };
    let one = rt::chance(1, 2);
    ev!("marathon: {n} {}", if one { "updates of one instance" } else { "instances" });
    alone(|| {
        // one key, or many, and those met long ago come back
        let keys: Vec<Vec<u8>> = {
            let first = super::stream::mac_key();
            let many = if one || !mac { 1 } else { rt::one_of(&[1, 2, 5, 60, 70, 140, 300, 1100]) };
            let alike = !first.is_empty() && rt::chance(1, 2);
            let mut v = vec![first];
            while v.len() < many {
                let k = if alike {
                    let mut k = v[0].clone();
                    let at = rt::choose(k.len() as u64) as usize;
                    k[at] ^= 1 + rt::choose(255) as u8;
                    k
                } else {
                    super::stream::mac_key()
                };
                v.push(k);
            }
            if !one {
                for k in &mut v {
                    k.truncate(40_000_000 / n + 1);
                }
            }
            v
        };
        let in_turn = rt::chance(1, 2);
        let mut left = n;
        while left > 0 {
            let key = if in_turn { &keys[left % keys.len()] } else { rt::one_of_ref(&keys) };
            let pieces = if one { n } else { rt::range(0, 2) };
            let (mut h, mut s) = if mac {
                (Some(rt::call("digest/panic", "HMac::new", || HMac::new(key))), None)
            } else {
                (None, Some(rt::call("digest/panic", "SHA256::new", SHA256::new)))
            };
            let (mut mh, mut ms) = (r::Mac::new(key), r::Sha::new());
            for _ in 0..pieces {
                let d = rt::bytes(rt::range(0, 3) + if rt::chance(1, 50) { 64 } else { 0 });
                match (&mut h, &mut s) {
                    (Some(h), _) => rt::call("digest/panic", "HMac::update", || h.update(&d)),
                    (_, Some(s)) => rt::call("digest/panic", "SHA256::update", || s.update(&d)),
                    _ => {}
                }
                if mac {
                    mh.put(&d)
                } else {
                    ms.put(&d)
                }
            }
            let (got, want) = match (h, s) {
                (Some(mut h), _) => (rt::call("digest/panic", "HMac::digest", || h.digest()), mh.end()),
                (_, Some(mut s)) => (rt::call("digest/panic", "SHA256::digest", || s.digest()), ms.end()),
                _ => return,
            };
            rt::count(K::PHash);
            if got != want {
                rt::violate(&format!("{prop}/digest"), &format!("{} more of {n}: {}", left, diff(&got, &want)));
            }
            left = if one { 0 } else { left - 1 };
        }
    })
}

/// C03: very many writes, or very many blocks.
pub fn encrypt(n: usize) {
    let (key, iv) = (rt::aes_key(), rt::arr16());
    let by_blocks = rt::chance(1, 2);
    ev!("marathon: {n} {}", if by_blocks { "blocks" } else { "writes" });
    alone(|| {
        let mut p = EncPair::new("C03", iv, &key);
        if by_blocks {
            let pt = rt::bytes(16 * n + rt::range(0, 40));
            let cut = rt::range(0, pt.len());
            p.write(&pt[..cut]);
            p.write(&pt[cut..]);
        } else {
            for _ in 0..n {
                p.write(&rt::bytes(rt::range(0, 5)));
            }
        }
        p.flush();
        p.write(&rt::bytes(33));
        p.flush();
    })
}

/// C04, likewise.
pub fn decrypt(n: usize) {
    let (key, iv) = (rt::aes_key(), rt::arr16());
    let by_blocks = rt::chance(1, 2);
    ev!("marathon: {n} {}", if by_blocks { "blocks" } else { "writes" });
    alone(|| {
        let mut p = DecPair::new("C04", iv, &key);
        let k = AesKey::new(&key);
        let pt = rt::bytes(if by_blocks { 16 * n + rt::range(0, 40) } else { n * 3 });
        let ct = r::cbc_enc(&k, &iv, &pt);
        let mut out = vec![];
        if by_blocks {
            let cut = rt::range(0, ct.len());
            out.extend(p.write(&ct[..cut]));
            out.extend(p.write(&ct[cut..]));
        } else {
            let mut off = 0;
            while off < ct.len() {
                let k = rt::range(0, 6).min(ct.len() - off);
                out.extend(p.write(&ct[off..off + k]));
                off += k;
            }
        }
        out.extend(p.flush().unwrap_or_default());
        if out != pt {
            rt::violate("C04/total", &diff(&out, &pt));
        }
    })
}

/// C05: very many damaged messages, one process; often one session.
pub fn damaged(n: usize) {
    let (key, iv) = (rt::aes_key(), rt::arr16());
    let one = rt::chance(1, 2);
    ev!("marathon: {n} damaged messages, {}", if one { "one session" } else { "a session each" });
    alone(|| {
        let mut p = DecPair::new("C05", iv, &key);
        let k = AesKey::new(&key);
        for _ in 0..n {
            if !one {
                p = DecPair::new("C05", iv, &key);
            }
            let pt = rt::bytes(rt::range(0, 17));
            let mut ct = r::cbc_enc(&k, &p.model.chain, &pt);
            match rt::choose(4) {
                0 => {}
                1 => ct.truncate(rt::range(0, ct.len())),
                _ => {
                    let at = rt::choose(ct.len() as u64) as usize;
                    ct[at] ^= 1 << rt::choose(8);
                }
            }
            p.write(&ct);
            if p.flush().is_err() {
                let _ = p.flush();
            }
        }
    })
}

/// C06: very many refused calls in a row, then business as usual.
pub fn refused(n: usize) {
    let (key, iv) = (rt::aes_key(), rt::arr16());
    let which = rt::choose(8);
    // before or after the first key, now and then in the middle of a block
    let late = rt::chance(1, 2);
    ev!("marathon: {n} refused calls of kind {which}, {} the first key", if late { "before" } else { "after" });
    alone(|| {
        let k = AesKey::new(&key);
        let mut a = rt::call("C06/panic", "AES::new", AES::new);
        let mut c = rt::call("C06/panic", "Cipher::new", || Cipher::new(iv));
        let mut d = rt::call("C06/panic", "Decipher::new", || Decipher::new(iv));
        let install = |a: &mut AES, c: &mut Cipher, d: &mut Decipher| {
            let x = rt::call("C06/panic", "init", || (a.init(&key), c.init(&key), d.init(&key)));
            if x.0.is_err() || x.1.is_err() || x.2.is_err() {
                rt::violate("C06/refused", "a valid key is refused");
            }
        };
        let mut m = EncModel::new(iv);
        let mut dm = DecModel::new(iv);
        use crate::reference::{DecModel, EncModel};
        m.key = Some(k.clone());
        dm.key = Some(k.clone());
        if !late {
            install(&mut a, &mut c, &mut d);
            let part = rt::bytes(rt::range(0, 40));
            let got = rt::call("C06/panic", "Cipher::write", || c.write(&part));
            same("C06", "first write", &got, &m.write(&part));
            let ct = r::cbc_enc(&k, &iv, &rt::bytes(rt::range(0, 40)));
            // cut where a flush is refused
            let cut = rt::range(0, ct.len() - 1);
            let cut = if cut % 16 == 0 { cut + 1 } else { cut };
            let got = rt::call("C06/panic", "Decipher::write", || d.write(&ct[..cut]));
            same("C06", "first write", &got, &dm.write(&ct[..cut]));
        }
        let bad = super::refused::bad_key();
        let mut out = [9u8; 40];
        let s = Scrypt::new(1, 3, 1);
        let z = Scrypt::new(0, 2, 0);
        for _ in 0..n {
            let err = match which {
                0 => rt::refusable("C06/panic", "AES::init", || a.init(&bad)).map(|x| x.is_err()),
                1 => rt::refusable("C06/panic", "Cipher::init", || c.init(&bad)).map(|x| x.is_err()),
                2 => rt::refusable("C06/panic", "Decipher::init", || d.init(&bad)).map(|x| x.is_err()),
                3 if late => rt::refusable("C06/panic", "AES::encrypt", || a.encrypt(&iv)).map(|x| x.is_err()),
                4 if late => rt::refusable("C06/panic", "Cipher::write", || c.write(&[7; 20])).map(|x| x.is_err()),
                5 if late => rt::refusable("C06/panic", "Decipher::write", || d.write(&[7; 20])).map(|x| x.is_err()),
                3..=5 => rt::refusable("C06/panic", "Decipher::flush", || d.flush()).map(|x| x.is_err()),
                6 => rt::refusable("C06/panic", "Scrypt::derive", || s.derive(b"p", b"s", &mut out)).map(|x| x.is_err()),
                _ => rt::refusable("C06/panic", "Scrypt::derive", || z.derive(b"p", b"s", &mut out)).map(|x| x.is_err()),
            };
            if err == Some(false) {
                rt::violate(if which < 3 || which > 5 { "C06/invalid" } else { "C06/accepted" }, "a call refused before was accepted");
            }
            rt::count(K::Refused);
        }
        if out != [9u8; 40] {
            rt::violate("C06/buffer", "a refused derivation wrote to the output");
        }
        if late {
            install(&mut a, &mut c, &mut d);
        }
        match rt::call("C06/panic", "AES::encrypt", || a.encrypt(&iv)) {
            Ok(o) if o == k.enc(&iv) => {}
            x => rt::violate("C06/aes", &format!("after {n} refused calls: {x:?}")),
        }
        let more = rt::bytes(20);
        let got = rt::call("C06/panic", "Cipher::write", || c.write(&more));
        same("C06", "write", &got, &m.write(&more));
        let got = rt::call("C06/panic", "Cipher::flush", || c.flush());
        same("C06", "flush", &got, &m.flush());
        let more = rt::bytes((16 - dm.part.len()) % 16 + 16);
        let got = rt::call("C06/panic", "Decipher::write", || d.write(&more));
        same("C06", "write", &got, &dm.write(&more));
        let mut key = [0u8; 40];
        if rt::call("C06/panic", "Scrypt::derive", || Scrypt::new(1, 2, 1).derive(b"p", b"s", &mut key)).is_err() {
            rt::violate("C06/refused", "valid scrypt parameters are refused");
        }
        if key[..] != r::scrypt(b"p", b"s", 1, 2, 1, 40)[..] {
            rt::violate("C06/scrypt", "wrong key after refused calls");
        }
    })
}

/// C07: very many keys and blocks on one instance.
pub fn keys(n: usize) {
    let pool: Vec<(Vec<u8>, AesKey)> = (0..rt::range(2, 5))
        .map(|_| {
            let k = rt::aes_key();
            let m = AesKey::new(&k);
            (k, m)
        })
        .collect();
    let often = rt::chance(1, 2);
    ev!("marathon: {n} {}", if often { "keys" } else { "blocks" });
    alone(|| {
        let mut a = rt::call("C07/panic", "AES::new", AES::new);
        let mut k: Option<&AesKey> = None;
        let block = |a: &AES, k: &AesKey, enc: bool, i: usize| {
            let b = rt::arr16();
            let want = if enc { k.enc(&b) } else { k.dec(&b) };
            rt::count(K::PAesOp);
            match rt::call("C07/panic", "AES block call", || if enc { a.encrypt(&b) } else { a.decrypt(&b) }) {
                Ok(o) if o == want => {}
                x => rt::violate("C07/block", &format!("after {i} calls: {x:?}")),
            }
        };
        if rt::chance(1, 2) {
            // runs of installs and runs of calls one way, near where counters go round
            let mut i = 0;
            while i < n {
                let run = match rt::weighted(&[3, 3, if n > 60_000 { 1 } else { 0 }]) {
                    0 => rt::range(1, 4),
                    1 => rt::range(254, 258),
                    _ => rt::range(65_534, 65_538),
                };
                let one = rt::chance(1, 3);
                for j in 0..run {
                    let (b, m) = if one { &pool[0] } else { &pool[(i + j) % pool.len()] };
                    if rt::call("C07/panic", "AES::init", || a.init(b)).is_err() {
                        rt::violate("C07/refused", &format!("key {}", i + j));
                    }
                    k = Some(m);
                }
                i += run;
                let calls = if rt::chance(1, 4) { rt::range(254, 258) } else { rt::range(1, 3) };
                let (way, both) = (rt::chance(1, 2), rt::chance(1, 3));
                for _ in 0..calls {
                    if let Some(k) = k {
                        block(&a, k, if both { rt::chance(1, 2) } else { way }, i);
                    }
                }
                i += calls;
            }
            return;
        }
        for i in 0..n {
            if often || k.is_none() || rt::chance(1, 1000) {
                let (b, m) = rt::one_of_ref(&pool);
                if rt::call("C07/panic", "AES::init", || a.init(b)).is_err() {
                    rt::violate("C07/refused", &format!("key {i}"));
                }
                k = Some(m);
            }
            if often && i < n - 3 && rt::chance(7, 8) {
                continue;
            }
            let Some(k) = k else { return };
            block(&a, k, rt::chance(1, 2), i);
        }
    })
}

/// C09: very many derivations through one object.
pub fn derivations(n: usize) {
    let scrypt = rt::chance(1, 2);
    let n = n.min(70_000);
    ev!("marathon: {n} derivations");
    alone(|| {
        let p = [rt::range(1, 2), 2, 1];
        let s = rt::call("C09/panic", "Scrypt::new", || Scrypt::new(p[0], p[1], p[2]));
        let jobs: Vec<(Vec<u8>, Vec<u8>, Vec<u8>)> = (0..3)
            .map(|_| {
                let (a, b) = (rt::bytes(rt::range(0, 70)), rt::bytes(rt::range(0, 70)));
                let w = if scrypt { r::scrypt(&a, &b, p[0], p[1], p[2], 40) } else { r::pbkdf2(&a, &b, 1, 40) };
                (a, b, w)
            })
            .collect();
        for i in 0..n {
            let (a, b, want) = rt::one_of_ref(&jobs);
            let mut out = [i as u8; 40];
            if scrypt {
                if rt::call("C09/panic", "Scrypt::derive", || s.derive(a, b, &mut out)).is_err() {
                    rt::violate("C09/refused", &format!("derivation {i}"));
                }
            } else {
                rt::call("C09/panic", "pbkdf2_sha256", || pbkdf2_sha256(a, b, 1, &mut out));
            }
            rt::count(K::PKdf);
            if out[..] != want[..] {
                rt::violate("C09/key", &format!("derivation {i}: {}", diff(&out, want)));
            }
        }
    })
}

/// C10: very many messages in one session.
pub fn messages(n: usize) {
    let (key, iv) = (rt::aes_key(), rt::arr16());
    let rekey = rt::chance(1, 3);
    ev!("marathon: {n} messages");
    alone(|| {
        let mut e = super::cbc::new_cipher("C10", iv, &key);
        let mut d = super::cbc::new_decipher("C10", iv, &key);
        for i in 0..n {
            if rekey && rt::chance(1, 30) {
                let key = rt::aes_key();
                let x = rt::call("C10/panic", "init", || (e.init(&key), d.init(&key)));
                if x.0.is_err() || x.1.is_err() {
                    rt::violate("C10/init", "re-keying refused");
                }
            }
            let msg = rt::bytes(if rt::chance(1, 3) { rt::range(0, 33) } else { rt::range(0, 4) });
            let step = |what: &str, x: Result<Vec<u8>, String>| x.unwrap_or_else(|e| rt::violate("C10/lost-step", &format!("message {i}, {what}: {e}")));
            let mut ct = step("write", rt::call("C10/panic", "Cipher::write", || e.write(&msg).map_err(|e| format!("{e:?}"))));
            ct.extend(step("flush", rt::call("C10/panic", "Cipher::flush", || e.flush().map_err(|e| format!("{e:?}")))));
            let mut pt = step("write", rt::call("C10/panic", "Decipher::write", || d.write(&ct).map_err(|e| format!("{e:?}"))));
            pt.extend(step("flush", rt::call("C10/panic", "Decipher::flush", || d.flush().map_err(|e| format!("{e:?}")))));
            rt::count(K::Messages);
            if pt != msg {
                rt::violate("C10/round-trip", &format!("message {i}: {}", diff(&pt, &msg)));
            }
        }
    })
}

/// C13: one session, the same call again and again; memory must come to rest.
pub fn at_rest(n: usize) {
    let n = n.max(30_000);
    let kind = rt::choose(8);
    let len = rt::one_of(&[1usize, 16, 0, 5, 17, 40]);
    ev!("marathon: {n} calls of kind {kind} with {len} bytes");
    alone(|| {
        let (key, iv) = ([3u8; 32], [4u8; 16]);
        let mut a = AES::new();
        let mut c = Cipher::new(iv);
        let mut d = Decipher::new(iv);
        let mut s = SHA256::new();
        let mut h = HMac::new(&key);
        let _ = rt::op(|| (a.init(&key), c.init(&key), d.init(&key)));
        let data = rt::bytes(len);
        let mut b = [0u8; 16];
        let bad = rt::bytes(len + if len == 16 { 1 } else { 0 });
        let mut half = 0;
        for i in 0..n {
            if i == n / 2 {
                half = rt::live().0;
            }
            b[i % 16] ^= i as u8;
            let _ = rt::op(|| match kind {
                0 => s.update(&data),
                1 => h.update(&data),
                2 => drop(c.write(&data)),
                3 => drop((c.write(&data), c.flush())),
                4 => drop((d.write(&data), d.flush())),
                5 => drop((a.init(&key), c.init(&key), d.init(&key))),
                6 => drop((rt::shown(a.init(&bad)), rt::shown(c.init(&bad)), rt::shown(d.init(&bad)), d.flush())),
                _ => drop((a.encrypt(&b), a.decrypt(&b))),
            });
        }
        let (live, blocks) = rt::live();
        if live - half > 4096 && !rt::starts_threads() {
            rt::violate("C13/unbounded", &format!("{half} bytes are held after {} calls, {live} in {blocks} blocks after {n}", n / 2));
        }
    })
}

/// C12: very many interrupted calls, then business as usual.
pub fn interrupted(n: usize) {
    let (key, iv) = (rt::aes_key(), rt::arr16());
    ev!("marathon: {n} interrupted calls");
    alone(|| {
        let mut p = EncPair::new("C12", iv, &key);
        let mut k = p.model.key.clone().unwrap();
        let mut a = rt::call("C12/panic", "AES::new", AES::new);
        if rt::call("C12/panic", "AES::init", || a.init(&key)).is_err() {
            rt::violate("C12/refused", "valid key");
        }
        let new = rt::aes_key();
        for _ in 0..n {
            rt::fail_alloc(1 + rt::choose(3), rt::chance(1, 3));
            let (x, oom) = match rt::choose(3) {
                0 => match rt::op(|| a.init(&new)) {
                    Ok(x) => {
                        k = AesKey::new(&new);
                        (x.is_ok(), false)
                    }
                    Err(e) => (e == rt::Stop::Oom || e == rt::Stop::Skipped, true),
                },
                1 => {
                    let mut out = [0u8; 33];
                    let r = rt::op(|| pbkdf2_sha256(b"p", b"s", 1, &mut out));
                    (!matches!(r, Err(rt::Stop::Panic(_))), true)
                }
                _ => {
                    let r = rt::op(|| {
                        let mut c = Cipher::new(iv);
                        let _ = c.init(&new);
                        drop((c.write(&[1; 20]), c.flush()));
                    });
                    (!matches!(r, Err(rt::Stop::Panic(_))), true)
                }
            };
            let _ = oom;
            if !x {
                rt::violate("C12/panic", "an interrupted call panicked, or a valid key was refused");
            }
        }
        match rt::call("C12/panic", "AES::encrypt", || a.encrypt(&iv)) {
            Ok(o) if o == k.enc(&iv) => {}
            x => rt::violate("C12/aes", &format!("after {n} interrupted calls: {x:?}")),
        }
        p.write(&rt::bytes(40));
        p.flush();
    })
}

/// C24: the same call again and again.
pub fn again(n: usize) {
    let kind = rt::choose(14);
    // with overflow checks as well
    let n = if rt::instrumented() && rt::chance(1, 4) { rt::range(65_530, 65_600) } else { n };
    ev!("marathon: {n} calls of kind {kind}");
    const P: &str = "C24/panic";
    alone(|| {
        let (key, iv) = ([3u8; 16], [4u8; 16]);
        let keyed = rt::chance(2, 3);
        let mut a = AES::new();
        let mut c = Cipher::new(iv);
        let mut d = Decipher::new(iv);
        let mut s = SHA256::new();
        let mut h = HMac::new(&key);
        if keyed {
            let _ = rt::call(P, "init", || (a.init(&key), c.init(&key), d.init(&key)));
        }
        // more than 2^16 blocks either way
        let data = rt::bytes(rt::one_of(&[0usize, 1, 16, 15, 4100, 4100]));
        let n = n.min(1_400_000 / data.len().max(1));
        let mut out = [0u8; 8];
        let z = Scrypt::new(1, 3, 1);
        // some are dear under instrumentation
        let n = if rt::instrumented() && matches!(kind, 1 | 3 | 7 | 9 | 12 | 13) { n.min(400) } else { n };
        for _ in 0..n {
            rt::call(P, "one of very many calls", || match kind {
                0 => s.update(&data),
                1 => drop(s.digest()),
                2 => h.update(&data),
                3 => drop(h.digest()),
                4 => drop(c.write(&data)),
                5 => drop(c.flush()),
                6 => drop(d.write(&data)),
                7 => drop(c.init(&key)),
                8 => drop(d.flush()),
                9 => drop((a.init(&key), d.init(&key))),
                10 => drop((a.init(&data[..data.len() / 2]), c.init(&data[..data.len() / 2]), d.init(&data[..data.len() / 2]))),
                11 => drop(z.derive(&data, &data, &mut out)),
                12 => drop((a.encrypt(&iv), a.decrypt(&iv))),
                _ => pbkdf2_sha256(&data, &data, 1, &mut out),
            });
        }
        rt::count(K::Misuse);
    })
}
