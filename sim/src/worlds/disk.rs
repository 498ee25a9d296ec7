//! C11: an encrypting and a decrypting process that crash at any point; only
//! what the simulated disk kept survives.

use super::cbc::{new_cipher, new_decipher};
use super::*;
use crate::ev;

/// An append-only file behind a write cache.
struct File {
    data: Vec<u8>,
    synced: usize,
}
impl File {
    fn sync(&mut self) {
        self.synced = self.data.len();
    }
    /// What survives: everything synced and any prefix of the rest.
    fn crash(&mut self, what: &str) {
        let rest = self.data.len() - self.synced;
        let keep = self.synced
            + match rt::weighted(&[3, 2, 4]) {
                0 => 0,
                1 => rest,
                _ => rt::range(0, rest),
            };
        rt::count(K::Crash);
        if keep < self.data.len() {
            rt::count(K::LostWrite);
            if keep % 16 != 0 {
                rt::count(K::TornWrite);
            }
        }
        ev!("crash of the {what}: {} of {} bytes survive ({} were synced)", keep, self.data.len(), self.synced);
        self.data.truncate(keep);
        self.synced = keep;
    }
}

pub fn run() {
    let key = rt::aes_key();
    let iv = rt::arr16();
    let len = if rt::chance(1, 2) { rt::range(0, 120) } else { cbc_len() };
    let pt = super::cbc::plaintext(&key, &iv, len);
    // the uninterrupted run
    let want = {
        let mut c = new_cipher("C11", iv, &key);
        let w = rt::call("C11/panic", "Cipher::write", || c.write(&pt));
        let mut w = w.unwrap_or_else(|e| rt::violate("C11/refused", &format!("write: {e:?}")));
        let f = rt::call("C11/panic", "Cipher::flush", || c.flush());
        w.extend(f.unwrap_or_else(|e| rt::violate("C11/refused", &format!("flush: {e:?}"))));
        w
    };
    if want.len() != len / 16 * 16 + 16 {
        rt::violate("C11/length", &format!("{} bytes of ciphertext for {len} bytes", want.len()));
    }
    let mut crashes = rt::range(0, 5);
    ev!("key {} bytes, plaintext {} bytes, up to {crashes} crashes a side", key.len(), len);
    let total = crashes;

    // the encrypting process
    let mut f = File { data: vec![], synced: 0 };
    'process: loop {
        // recovery: whole blocks only, the last of them is the IV
        let whole = f.data.len() / 16 * 16;
        f.data.truncate(whole);
        f.synced = f.synced.min(whole);
        if f.data != want[..whole] {
            rt::violate("C11/prefix", &format!("durable ciphertext: {}", diff(&f.data, &want)));
        }
        if whole == want.len() {
            break;
        }
        let mut siv = iv;
        if whole > 0 {
            siv.copy_from_slice(&f.data[whole - 16..]);
            rt::count(K::Resume);
        }
        ev!("cipher starts at {whole}");
        let mut c = new_cipher("C11", siv, &key);
        let mut off = whole;
        loop {
            if crashes > 0 && rt::chance(1, 5) {
                crashes -= 1;
                f.crash("encrypter");
                continue 'process;
            }
            if off < pt.len() {
                let n = piece(pt.len() - off, off, 16);
                let o = rt::call("C11/panic", "Cipher::write", || c.write(&pt[off..off + n]));
                let o = o.unwrap_or_else(|e| rt::violate("C11/refused", &format!("write: {e:?}")));
                off += n;
                ev!("write of {n}: {} bytes", o.len());
                f.data.extend(o);
                if rt::chance(1, 3) {
                    f.sync();
                }
            } else {
                let o = rt::call("C11/panic", "Cipher::flush", || c.flush());
                f.data.extend(o.unwrap_or_else(|e| rt::violate("C11/refused", &format!("flush: {e:?}"))));
                if f.data != want {
                    rt::violate("C11/ciphertext", &format!("resumed at {whole}: {}", diff(&f.data, &want)));
                }
                if crashes > 0 && rt::chance(1, 3) {
                    crashes -= 1;
                    f.crash("encrypter");
                    continue 'process;
                }
                f.sync();
                break 'process;
            }
        }
    }

    // the decrypting process
    let mut crashes = total;
    let mut out = File { data: vec![], synced: 0 };
    'reader: loop {
        if out.data.len() > pt.len() || out.data != pt[..out.data.len()] {
            rt::violate("C11/prefix", &format!("durable plaintext: {}", diff(&out.data, &pt)));
        }
        // at or before the last whole durable block
        let mut b = out.data.len() / 16;
        if b > 0 && rt::chance(1, 4) {
            b = rt::range(0, b);
        }
        out.data.truncate(16 * b);
        out.synced = out.synced.min(16 * b);
        let mut siv = iv;
        if b > 0 {
            siv.copy_from_slice(&want[16 * b - 16..16 * b]);
            rt::count(K::Resume);
        }
        ev!("decipher starts at block {b}");
        let mut c = new_decipher("C11", siv, &key);
        let mut off = 16 * b;
        loop {
            if crashes > 0 && rt::chance(1, 5) {
                crashes -= 1;
                out.crash("decrypter");
                continue 'reader;
            }
            if off < want.len() {
                let n = piece(want.len() - off, off, 16);
                let o = rt::call("C11/panic", "Decipher::write", || c.write(&want[off..off + n]));
                let o = o.unwrap_or_else(|e| rt::violate("C11/refused", &format!("write: {e:?}")));
                off += n;
                ev!("write of {n}: {} bytes", o.len());
                out.data.extend(o);
                if rt::chance(1, 3) {
                    out.sync();
                }
            } else {
                let o = rt::call("C11/panic", "Decipher::flush", || c.flush());
                out.data.extend(o.unwrap_or_else(|e| rt::violate("C11/refused", &format!("flush: {e:?}"))));
                if out.data != pt {
                    rt::violate("C11/plaintext", &format!("resumed at block {b}: {}", diff(&out.data, &pt)));
                }
                if crashes > 0 && rt::chance(1, 3) {
                    crashes -= 1;
                    out.crash("decrypter");
                    continue 'reader;
                }
                break 'reader;
            }
        }
    }

    // a reader that seeks
    for _ in 0..rt::range(0, 3) {
        let b = rt::choose((want.len() / 16) as u64) as usize;
        let mut siv = iv;
        if b > 0 {
            siv.copy_from_slice(&want[16 * b - 16..16 * b]);
        }
        let mut c = new_decipher("C11", siv, &key);
        let mut got = vec![];
        let mut off = 16 * b;
        while off < want.len() {
            let n = piece(want.len() - off, off, 16);
            let o = rt::call("C11/panic", "Decipher::write", || c.write(&want[off..off + n]));
            got.extend(o.unwrap_or_else(|e| rt::violate("C11/refused", &format!("write: {e:?}"))));
            off += n;
        }
        let o = rt::call("C11/panic", "Decipher::flush", || c.flush());
        got.extend(o.unwrap_or_else(|e| rt::violate("C11/refused", &format!("flush: {e:?}"))));
        ev!("read from block {b}: {} bytes", got.len());
        if got != pt[16 * b..] {
            rt::violate("C11/seek", &format!("from block {b}: {}", diff(&got, &pt[16 * b..])));
        }
    }
}
