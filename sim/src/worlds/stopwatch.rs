//! C20: an adversary with a stopwatch. It sends forged final blocks and looks at
//! how long - in simulated time, which passes with every step of the real code -
//! the decipher takes to refuse them.

use super::*;
use crate::ev;
use crate::reference::{self as r, AesKey};
use dumb_crypto::aes_cbc::Decipher;

/// A final block whose last byte is `len`, wrong in some of its padding.
fn forged(len: u8, single: Option<usize>) -> ([u8; 16], String) {
    let mut b = rt::arr16();
    b[15] = len;
    if (2..=16).contains(&len) {
        let off = 16 - len as usize;
        // right everywhere, then wrong in one or several places
        b[off..].fill(len);
        match single {
            Some(i) => b[off + i % (len as usize - 1)] ^= 1 << rt::choose(8),
            None => {
                for x in &mut b[off..15] {
                    if rt::chance(1, 2) {
                        *x ^= rt::range(1, 255) as u8;
                    }
                }
                if b[off..15].iter().all(|&x| x == len) {
                    b[off + rt::choose(len as u64 - 1) as usize] ^= 0x80;
                }
            }
        }
    }
    (b, super::hex(&b))
}

pub fn run() {
    let key = rt::aes_key();
    let iv = rt::arr16();
    let k = AesKey::new(&key);
    // the claimed length: mostly one that needs its bytes looked at
    let len = match rt::weighted(&[8, 1, 1]) {
        0 => rt::range(2, 16) as u8,
        1 => 0,
        _ => rt::range(17, 255) as u8,
    };
    let before = rt::bytes(rt::range(0, 4) * 16);
    let anchor = rt::arr16();
    let cut = rt::range(0, before.len() + 32);
    let messages = rt::range(0, 2);
    let tries = rt::range(2, 8);
    let probing = rt::chance(1, 2);
    let mut first: [Option<(u64, String)>; 2] = [None, None];
    // the first attempt only warms up whatever is set up once
    for t in 0..=tries {
        let (last, shown) = forged(len, if probing { Some(t) } else { None });
        rt::count(K::PktDamage);
        // the last block of ciphertext is always the same, and only what it is
        // chained to differs: the block cipher's own work tells nothing here
        let mut mask = k.dec(&anchor);
        for (m, l) in mask.iter_mut().zip(&last) {
            *m ^= l;
        }
        let direct = before.is_empty() && messages == 0;
        let iv = if direct { mask } else { iv };
        let mut d = rt::call("C24/panic", "Decipher::new", || Decipher::new(iv));
        let mut chain = iv;
        let _ = rt::call("C24/panic", "Decipher::init", || d.init(&key));
        for _ in 0..messages {
            let ct = r::cbc_enc(&k, &chain, &before);
            chain.copy_from_slice(&ct[ct.len() - 16..]);
            let _ = rt::call("C24/panic", "Decipher::write", || d.write(&ct));
            let _ = rt::call("C24/panic", "Decipher::flush", || d.flush());
        }
        let mut ct = r::cbc_raw_enc(&k, &chain, &before);
        if !direct {
            ct.extend_from_slice(&mask);
        }
        ct.extend_from_slice(&anchor);
        let cut = cut.min(ct.len());
        for part in [&ct[..cut], &ct[cut..]] {
            let _ = rt::call("C24/panic", "Decipher::write", || d.write(part));
        }
        let again = rt::range(1, 2);
        for nth in 0..again {
            let refused = rt::call("C24/panic", "Decipher::flush", || d.flush()).is_err();
            let w = rt::last_work();
            rt::count(K::PWork);
            if !refused {
                // the verdict is C05's matter
                rt::violate("C05/accepted", &format!("{shown} was accepted"));
            }
            rt::count(K::BadPadSeen);
            ev!("final block {shown}: refused after {w} steps");
            if t == 0 {
                continue;
            }
            match &first[nth] {
                None => first[nth] = Some((w, shown.clone())),
                Some((v, s)) if *v != w => rt::violate(
                    "C20/stopwatch",
                    &format!("refusing the padding of {s} takes {v} steps and that of {shown}, with the same last byte, {w}: the time tells which padding bytes are wrong"),
                ),
                _ => {}
            }
        }
    }
}
