//! C03, C04, C05, C10: CBC sessions behind fragmenting, interleaving and
//! damaging links, compared call by call with the session state machines.

use super::*;
use crate::ev;
use crate::reference::{self as r, AesKey, DecModel, EncModel};
use dumb_crypto::aes_cbc::{Cipher, Decipher};

pub fn new_cipher(class: &str, iv: [u8; 16], key: &[u8]) -> Cipher {
    let key = &placed(key);
    rt::call(class, "Cipher::new/init", || {
        let mut c = Cipher::new(iv);
        c.init(key).map(|_| c)
    })
    .unwrap_or_else(|e| rt::violate(&format!("{class}/init"), &format!("init with a {}-byte key refused: {e:?}", key.len())))
}
pub fn new_decipher(class: &str, iv: [u8; 16], key: &[u8]) -> Decipher {
    let key = &placed(key);
    rt::call(class, "Decipher::new/init", || {
        let mut c = Decipher::new(iv);
        c.init(key).map(|_| c)
    })
    .unwrap_or_else(|e| rt::violate(&format!("{class}/init"), &format!("init with a {}-byte key refused: {e:?}", key.len())))
}

pub struct EncPair {
    pub real: Cipher,
    pub model: EncModel,
    pub class: &'static str,
}
impl EncPair {
    pub fn new(class: &'static str, iv: [u8; 16], key: &[u8]) -> EncPair {
        let mut model = EncModel::new(iv);
        model.key = Some(AesKey::new(key));
        EncPair { real: new_cipher(class, iv, key), model, class }
    }
    pub fn write(&mut self, d: &[u8]) -> Vec<u8> {
        if !self.model.part.is_empty() && self.model.part.len() + d.len() >= 16 {
            rt::count(K::Completed)
        }
        let real = &mut self.real;
        let at = placed(d);
        let got = rt::call(self.class, "Cipher::write", || real.write(&at));
        let want = self.model.write(d);
        if !self.model.part.is_empty() {
            rt::count(K::MidBlock)
        }
        same(self.class, &format!("write of {} bytes", d.len()), &got, &want);
        want.unwrap_or_default()
    }
    pub fn flush(&mut self) -> Vec<u8> {
        if self.model.part.is_empty() {
            rt::count(K::FullPad)
        }
        let real = &mut self.real;
        let got = rt::call(self.class, "Cipher::flush", || real.flush());
        let want = self.model.flush();
        same(self.class, "flush", &got, &want);
        want.unwrap_or_default()
    }
}

pub struct DecPair {
    pub real: Decipher,
    pub model: DecModel,
    pub class: &'static str,
}
impl DecPair {
    pub fn new(class: &'static str, iv: [u8; 16], key: &[u8]) -> DecPair {
        let mut model = DecModel::new(iv);
        model.key = Some(AesKey::new(key));
        DecPair { real: new_decipher(class, iv, key), model, class }
    }
    pub fn write(&mut self, d: &[u8]) -> Vec<u8> {
        if !self.model.part.is_empty() && self.model.part.len() + d.len() >= 16 {
            rt::count(K::Completed)
        }
        let real = &mut self.real;
        let at = placed(d);
        let got = rt::call(self.class, "Decipher::write", || real.write(&at));
        let want = self.model.write(d);
        if !self.model.part.is_empty() {
            rt::count(K::MidBlock)
        }
        same(self.class, &format!("write of {} bytes", d.len()), &got, &want);
        want.unwrap_or_default()
    }
    /// Flush; the verdict must be the model's.
    pub fn flush(&mut self) -> Result<Vec<u8>, r::Err_> {
        let real = &mut self.real;
        let got = rt::call(self.class, "Decipher::flush", || real.flush());
        let want = self.model.flush();
        match &want {
            Err(r::Err_::BadPadding) => {
                rt::count(K::BadPadSeen);
                if self.model.held.last() == Some(&0) {
                    rt::count(K::ZeroPad)
                }
            }
            Err(r::Err_::Unfinished) => rt::count(K::UnfinSeen),
            _ => {}
        }
        same(self.class, "flush", &got, &want);
        want
    }
}

/// A plaintext of this length. Now and then it is chosen against the key and
/// the IV: ciphertext blocks that repeat the one before or the IV, or are all
/// zeros; block cipher inputs that are special; plaintexts that look like
/// padding or repeat.
pub fn plaintext(key: &[u8], iv: &[u8; 16], len: usize) -> Vec<u8> {
    Past::default().plaintext(key, iv, len)
}

/// What went into the block cipher, and what came out, in the messages before.
#[derive(Default)]
struct Past {
    ins: Vec<[u8; 16]>,
    outs: Vec<[u8; 16]>,
}

impl Past {
    /// As `plaintext`, but the blocks may also repeat what went into or came
    /// out of the block cipher in earlier messages, under whatever key.
    fn plaintext(&mut self, key: &[u8], iv: &[u8; 16], len: usize) -> Vec<u8> {
        let pt = chosen(key, iv, len, self);
        // with the padding
        let k = AesKey::new(key);
        let mut prev = *iv;
        for b in r::pad(&pt).chunks_exact(16).take(64) {
            for (x, y) in prev.iter_mut().zip(b) {
                *x ^= y
            }
            self.ins.push(prev);
            prev = k.enc(&prev);
            self.outs.push(prev);
        }
        pt
    }
    /// One of them, the latest more often.
    fn any(v: &[[u8; 16]]) -> [u8; 16] {
        match rt::choose(3) {
            0 => v[v.len() - 1],
            1 => v[v.len() - 1 - rt::choose(v.len().min(4) as u64) as usize],
            _ => v[rt::choose(v.len() as u64) as usize],
        }
    }
}

fn chosen(key: &[u8], iv: &[u8; 16], len: usize, past: &Past) -> Vec<u8> {
    let mut pt = rt::bytes(len);
    if len < 16 || !rt::chance(1, 6) {
        return pt;
    }
    rt::count(K::ChosenText);
    let k = AesKey::new(key);
    let xor = |a: &[u8; 16], b: &[u8; 16]| {
        let mut o = *a;
        for (x, y) in o.iter_mut().zip(b) {
            *x ^= y
        }
        o
    };
    let often = rt::chance(1, 3);
    let (mut prev, mut before, mut last_in) = (*iv, *iv, [0u8; 16]);
    for (n, b) in pt.chunks_exact_mut(16).enumerate().take(64) {
        let mut p = [0u8; 16];
        p.copy_from_slice(b);
        if often || rt::chance(1, 3) || n == 0 && rt::chance(1, 2) {
            let c = match rt::choose(if past.ins.is_empty() { 12 } else { 18 }) {
                0 | 1 => Some(prev),
                2 => Some(*iv),
                3 => Some(before),
                4 => Some([rt::one_of(&[0u8, 0xff, 0x10, 1]); 16]),
                5 => {
                    // the last byte only, or the first
                    let mut c = rt::arr16();
                    let at = rt::one_of(&[0usize, 15]);
                    c[at] = prev[at];
                    Some(c)
                }
                6 => {
                    p = prev;
                    None
                }
                7 => {
                    p = [rt::one_of(&[0u8, 0xff, 0x10, 15, 1]); 16];
                    None
                }
                8 => {
                    let v = rt::range(1, 16);
                    p[16 - v..].fill(v as u8);
                    None
                }
                9 => {
                    p = xor(&prev, &last_in);
                    None
                }
                10 => {
                    p = xor(&prev, &[rt::one_of(&[0u8, 0xff]); 16]);
                    None
                }
                11 => {
                    p = xor(&prev, iv);
                    None
                }
                12..=14 => {
                    p = xor(&prev, &Past::any(&past.ins));
                    None
                }
                15 | 16 => Some(Past::any(&past.outs)),
                _ => {
                    p = xor(&prev, &Past::any(&past.outs));
                    None
                }
            };
            if let Some(c) = c {
                p = xor(&k.dec(&c), &prev);
            }
            b.copy_from_slice(&p);
        }
        last_in = xor(&p, &prev);
        before = prev;
        prev = k.enc(&last_in);
    }
    pt
}

struct Sess<P> {
    p: P,
    key: Vec<u8>,
    /// messages to follow
    more: u32,
    data: Vec<u8>,
    off: usize,
    out: Vec<u8>,
    want: Vec<u8>,
    done: bool,
}

/// Delivery of the next piece of a session's input; None at its end.
fn deliver<'a>(i: usize, off: &mut usize, data: &'a [u8], now: u64) -> Option<&'a [u8]> {
    if *off >= data.len() {
        return None;
    }
    let k = piece(data.len() - *off, *off, 16);
    if k < data.len() - *off {
        rt::count(K::Fragment)
    }
    ev!("t={now} session {i}: {k} bytes at {}", *off);
    let d = &data[*off..*off + k];
    *off += k;
    Some(d)
}

pub fn encrypt() {
    if let Some(n) = marathon::long() {
        return marathon::encrypt(n);
    }
    let n = 1 + rt::weighted(&[5, 3, 2, 1]);
    let stalls = rt::chance(1, 2);
    let empties = rt::chance(1, 2);
    let eofs = rt::chance(1, 3);
    let mut past = Past::default();
    let mut q = Queue::new();
    let mut ss = vec![];
    for i in 0..n {
        let (key, iv) = (rt::aes_key(), rt::arr16());
        let pt = past.plaintext(&key, &iv, cbc_len());
        let want = r::cbc_enc(&AesKey::new(&key), &iv, &pt);
        let more = rt::weighted(&[4, 3, 2, 1]) as u32;
        ev!("session {i}: key {} bytes, plaintext {} bytes, {more} more to follow", key.len(), pt.len());
        ss.push(Sess { p: EncPair::new("C03", iv, &key), key, more, data: pt, off: 0, out: vec![], want, done: false });
        q.after(latency(stalls), i);
    }
    while let Some(i) = q.next() {
        let s = &mut ss[i];
        if s.done {
            continue;
        }
        if empties && rt::chance(1, 6) {
            rt::count(K::EmptyRead);
            ev!("session {i}: empty write");
            s.p.write(&[]);
        }
        if eofs && rt::chance(1, 30) && s.off < s.data.len() {
            rt::count(K::Eof);
            ev!("session {i}: input ends early at {}", s.off);
            s.data.truncate(s.off);
            let k = s.p.model.key.clone().unwrap();
            // everything already emitted stays valid: same prefix, new end
            let done = s.out.len();
            let mut chain = s.p.model.chain;
            if done == 0 {
                chain = s.p.model.chain;
            }
            let tail = r::cbc_enc(&k, &chain, &s.data[done..]);
            s.want.truncate(done);
            s.want.extend(tail);
        }
        match deliver(i, &mut s.off, &s.data, q.now) {
            Some(d) => {
                let o = s.p.write(d);
                s.out.extend(o);
                if s.out.len() != s.off / 16 * 16 || s.out != s.want[..s.out.len()] {
                    rt::violate("C03/prefix", &format!("session {i}: after {} bytes: {}", s.off, diff(&s.out, &s.want)));
                }
                q.after(latency(stalls), i);
            }
            None => {
                let o = s.p.flush();
                if o.len() != 16 {
                    rt::violate("C03/flush-size", &format!("flush returned {} bytes", o.len()));
                }
                s.out.extend(o);
                ev!("t={} session {i}: flushed, {} bytes", q.now, s.out.len());
                if s.out != s.want {
                    rt::violate("C03/total", &format!("session {i}: {}", diff(&s.out, &s.want)));
                }
                if s.more == 0 {
                    s.done = true;
                    continue;
                }
                s.more -= 1;
                let chain = s.p.model.chain;
                s.data = past.plaintext(&s.key, &chain, len_class(false));
                s.want = r::cbc_enc(&AesKey::new(&s.key), &chain, &s.data);
                (s.off, s.out) = (0, vec![]);
                rt::count(K::Messages);
                ev!("session {i}: the next message, {} bytes", s.data.len());
                q.after(latency(stalls), i);
            }
        }
    }
}

pub fn decrypt() {
    if let Some(n) = marathon::long() {
        return marathon::decrypt(n);
    }
    let n = 1 + rt::weighted(&[5, 3, 2, 1]);
    let stalls = rt::chance(1, 2);
    let empties = rt::chance(1, 2);
    let mut past = Past::default();
    let mut q = Queue::new();
    let mut ss = vec![];
    for i in 0..n {
        let (key, iv) = (rt::aes_key(), rt::arr16());
        let pt = past.plaintext(&key, &iv, cbc_len());
        let ct = r::cbc_enc(&AesKey::new(&key), &iv, &pt);
        let more = rt::weighted(&[4, 3, 2, 1]) as u32;
        ev!("session {i}: key {} bytes, plaintext {} bytes, {more} more to follow", key.len(), pt.len());
        ss.push(Sess { p: DecPair::new("C04", iv, &key), key, more, data: ct, off: 0, out: vec![], want: pt, done: false });
        q.after(latency(stalls), i);
    }
    while let Some(i) = q.next() {
        let s = &mut ss[i];
        if s.done {
            continue;
        }
        if empties && rt::chance(1, 6) {
            rt::count(K::EmptyRead);
            ev!("session {i}: empty write");
            s.p.write(&[]);
        }
        match deliver(i, &mut s.off, &s.data, q.now) {
            Some(d) => {
                let o = s.p.write(d);
                s.out.extend(o);
                let due = (s.off / 16).saturating_sub(1) * 16;
                if s.out.len() != due || s.out != s.want[..s.out.len()] {
                    rt::violate("C04/prefix", &format!("session {i}: after {} bytes: {}", s.off, diff(&s.out, &s.want)));
                }
                q.after(latency(stalls), i);
            }
            None => {
                match s.p.flush() {
                    Ok(o) => s.out.extend(o),
                    Err(e) => rt::harness_error(&format!("model refused a valid ciphertext: {e:?}")),
                }
                ev!("t={} session {i}: flushed, {} bytes", q.now, s.out.len());
                if s.out != s.want {
                    rt::violate("C04/total", &format!("session {i}: {}", diff(&s.out, &s.want)));
                }
                if s.more == 0 {
                    s.done = true;
                    continue;
                }
                s.more -= 1;
                let chain = s.p.model.chain;
                s.want = past.plaintext(&s.key, &chain, len_class(false));
                s.data = r::cbc_enc(&AesKey::new(&s.key), &chain, &s.want);
                (s.off, s.out) = (0, vec![]);
                rt::count(K::Messages);
                ev!("session {i}: the next message, {} bytes", s.data.len());
                q.after(latency(stalls), i);
            }
        }
    }
}

struct Damage {
    ct: Vec<u8>,
    iv: [u8; 16],
    key: Vec<u8>,
    /// still the original length and alignment, with these bytes changed
    flips_only: bool,
    key_ok: bool,
}

fn damage(d: &mut Damage, k: &AesKey) {
    let len = d.ct.len();
    let nb = len / 16;
    match rt::weighted(&[4, 3, 2, 2, 2, 2, 2, 2, 1, 8, 1]) {
        0 => {
            rt::count(K::FlipBit);
            if len > 0 {
                let at = rt::choose(len as u64) as usize;
                d.ct[at] ^= 1 << rt::choose(8);
                ev!("fault: bit flip at byte {at}");
            }
        }
        1 => {
            rt::count(K::Eof);
            let to = if rt::chance(1, 2) { len.saturating_sub(rt::range(1, 33)) } else { rt::range(0, len) };
            d.ct.truncate(to);
            d.flips_only = false;
            ev!("fault: truncated to {to} of {len}");
        }
        2 => {
            rt::count(K::LoseBytes);
            let at = rt::range(0, len);
            let n = rt::range(0, 20).min(len - at);
            d.ct.drain(at..at + n);
            d.flips_only = false;
            ev!("fault: {n} bytes lost at {at}");
        }
        3 if nb > 0 => {
            rt::count(K::LoseBytes);
            let b = rt::choose(nb as u64) as usize;
            d.ct.drain(16 * b..16 * b + 16);
            d.flips_only = false;
            ev!("fault: block {b} lost");
        }
        4 if nb > 0 => {
            rt::count(K::DupBytes);
            let b = rt::choose(nb as u64) as usize;
            let blk = d.ct[16 * b..16 * b + 16].to_vec();
            let at = if rt::chance(1, 2) { b + 1 } else { rt::range(0, nb) };
            d.ct.splice(16 * at..16 * at, blk);
            d.flips_only = false;
            ev!("fault: block {b} delivered again at {at}");
        }
        5 if nb > 1 => {
            rt::count(K::Reorder);
            let a = rt::choose(nb as u64) as usize;
            let b = rt::choose(nb as u64) as usize;
            for j in 0..16 {
                d.ct.swap(16 * a + j, 16 * b + j);
            }
            d.flips_only = false;
            ev!("fault: blocks {a} and {b} swapped");
        }
        6 => {
            rt::count(K::Insert);
            let at = if rt::chance(1, 2) { len } else { rt::range(0, len) };
            let n = if rt::chance(1, 3) { 16 } else { rt::range(1, 40) };
            let x = rt::bytes(n);
            d.ct.splice(at..at, x);
            d.flips_only = false;
            ev!("fault: {n} bytes inserted at {at}");
        }
        7 => {
            rt::count(K::WrongIv);
            d.iv[rt::choose(16) as usize] ^= 1 << rt::choose(8);
            ev!("fault: receiver's IV damaged");
        }
        8 => {
            rt::count(K::WrongKey);
            if rt::chance(1, 2) {
                d.key = rt::aes_key();
            } else {
                let i = rt::choose(d.key.len() as u64) as usize;
                d.key[i] ^= 1 << rt::choose(8);
            }
            d.key_ok = false;
            ev!("fault: receiver has a different key ({} bytes)", d.key.len());
        }
        9 if nb > 0 && d.key_ok && len % 16 == 0 => {
            // bits flipped so that the final block decrypts to a chosen ending
            rt::count(K::ForgePad);
            let mut last = [0u8; 16];
            last.copy_from_slice(&d.ct[len - 16..]);
            let dec = k.dec(&last);
            let mut want = rt::arr16();
            let v = match rt::weighted(&[4, 2, 2, 1, 1]) {
                0 => rt::range(1, 16),
                1 => 0,
                2 => rt::range(15, 18),
                3 => rt::range(17, 255),
                _ => rt::one_of(&[16usize, 32, 128, 129, 240, 255]),
            };
            for j in (16 - v.min(16))..16 {
                want[j] = v as u8;
            }
            want[15] = v as u8;
            if rt::chance(1, 2) && v > 0 {
                // one byte of the padding (or right before it) is off
                let lo = 16 - v.min(16);
                let j = rt::range(lo.saturating_sub(1), 14.max(lo.saturating_sub(1)));
                want[j] ^= match rt::choose(3) {
                    0 => 1,
                    1 => 0x80,
                    _ => 1 + rt::choose(255) as u8,
                };
            }
            for j in 0..16 {
                let c = dec[j] ^ want[j];
                if nb > 1 {
                    d.ct[len - 32 + j] = c
                } else {
                    d.iv[j] = c
                }
            }
            ev!("fault: final block forged to {}", hex(&want));
        }
        _ => {
            rt::count(K::FlipBit);
            if len > 0 {
                let at = rt::choose(len as u64) as usize;
                let n = rt::range(1, 16).min(len - at);
                let x = rt::bytes(n);
                d.ct[at..at + n].copy_from_slice(&x);
                ev!("fault: {n} bytes overwritten at {at}");
            }
        }
    }
}

pub fn damaged() {
    if let Some(n) = marathon::long() {
        return marathon::damaged(n);
    }
    let n = 1 + rt::weighted(&[8, 1]);
    let empties = rt::chance(1, 4);
    let mut q = Queue::new();
    let mut ss = vec![];
    let mut meta = vec![];
    for i in 0..n {
        let (key, iv) = (rt::aes_key(), rt::arr16());
        let len = if rt::chance(1, 10) { cbc_len() } else { rt::range(0, 70) };
        let pt = plaintext(&key, &iv, len);
        let k = AesKey::new(&key);
        let ct = r::cbc_enc(&k, &iv, &pt);
        let mut d = Damage { ct: ct.clone(), iv, key: key.clone(), flips_only: true, key_ok: true };
        let m = rt::weighted(&[1, 8, 4, 2, 1]);
        ev!("session {i}: key {} bytes, plaintext {} bytes, {m} faults", key.len(), pt.len());
        for _ in 0..m {
            damage(&mut d, &k);
        }
        ss.push(Sess { p: DecPair::new("C05", d.iv, &d.key), key, more: 0, data: d.ct.clone(), off: 0, out: vec![], want: pt, done: false });
        meta.push((d, ct, iv));
        q.after(latency(false), i);
    }
    while let Some(i) = q.next() {
        let s = &mut ss[i];
        if s.done {
            continue;
        }
        if empties && rt::chance(1, 6) {
            rt::count(K::EmptyRead);
            s.p.write(&[]);
        }
        if let Some(d) = deliver(i, &mut s.off, &s.data, q.now) {
            let o = s.p.write(d);
            s.out.extend(o);
            q.after(latency(true), i);
            continue;
        }
        let (d, ct, iv) = &meta[i];
        let verdict = s.p.flush();
        ev!("t={} session {i}: verdict {:?}", q.now, verdict.as_ref().map(|v| v.len()));
        if let Ok(o) = &verdict {
            s.out.extend_from_slice(o);
            if d.ct != *ct {
                rt::count(K::OkAfterDamage)
            }
        }
        // containment, stated independently of the session model
        if d.flips_only && d.key_ok {
            let orig = r::pad(&s.want);
            for b in 0..s.out.len() / 16 {
                let cur = 16 * b..16 * b + 16;
                if d.ct[cur.clone()] != ct[cur.clone()] {
                    continue; // the damaged block itself may be anything
                }
                for j in cur {
                    let x = if b == 0 { iv[j] ^ d.iv[j] } else { ct[j - 16] ^ d.ct[j - 16] };
                    if s.out[j] != orig[j] ^ x {
                        rt::violate("C05/containment", &format!("session {i}: plaintext byte {j} is damaged beyond the faulty block and its successor's matching bits"));
                    }
                }
            }
        }
        s.done = true;
    }
}

/// C10: two parties, one session, any sequence of messages and re-keyings.
pub fn session() {
    if let Some(n) = marathon::long() {
        return marathon::messages(n);
    }
    let pairs = 1 + rt::weighted(&[5, 2]);
    let rekeys = rt::chance(1, 2);
    let empties = rt::chance(1, 3);
    struct Pair {
        e: Cipher,
        d: Decipher,
        key: Vec<u8>,
        chain: [u8; 16],
        left: usize,
        msg: usize,
    }
    fn enc(r: Result<Vec<u8>, dumb_crypto::aes::AESError>) -> Vec<u8> {
        r.unwrap_or_else(|e| rt::violate("C10/refused", &format!("cipher: {e:?}")))
    }
    fn dec(r: Result<Vec<u8>, dumb_crypto::aes_cbc::DecipherError>) -> Vec<u8> {
        r.unwrap_or_else(|e| rt::violate("C10/refused", &format!("decipher: {e:?}")))
    }
    const P: &str = "C10/panic";
    let mut ps = vec![];
    let mut past = Past::default();
    let mut q = Queue::new();
    for i in 0..pairs {
        let (key, iv) = (rt::aes_key(), rt::arr16());
        let left = 1 + rt::weighted(&[2, 4, 4, 2, 1, 1]) + if rt::chance(1, 30) { 40 } else { 0 };
        ev!("pair {i}: key {} bytes, {left} messages", key.len());
        let (e, d) = (new_cipher("C10", iv, &key), new_decipher("C10", iv, &key));
        ps.push(Pair { e, d, key, chain: iv, left, msg: 0 });
        q.after(latency(false), i);
    }
    while let Some(i) = q.next() {
        let p = &mut ps[i];
        if p.msg > 0 {
            rt::count(K::Messages);
            if rekeys && rt::chance(1, 3) {
                let key = rt::aes_key();
                rt::count(K::Rekey);
                ev!("pair {i}: re-key with {} bytes", key.len());
                if key.len() != p.key.len() {
                    rt::count(K::SizeChange)
                }
                let (a, b) = (&mut p.e, &mut p.d);
                let x = rt::call(P, "init", || (a.init(&key), b.init(&key)));
                if x.0.is_err() || x.1.is_err() {
                    rt::violate("C10/init", "re-keying refused");
                }
                p.key = key;
            }
        }
        let len = if p.left > 10 { rt::range(0, 40) } else { cbc_len() };
        let msg = past.plaintext(&p.key, &p.chain, len);
        ev!("t={} pair {i}: message {} of {} bytes", q.now, p.msg, msg.len());
        // sender and link: write pieces; the receiver sees ciphertext re-fragmented
        let mut off = 0;
        let mut wire: Vec<u8> = vec![];
        let mut got = vec![];
        let mut sent = 0;
        loop {
            let (e, d) = (&mut p.e, &mut p.d);
            if empties && rt::chance(1, 5) {
                rt::count(K::EmptyRead);
                wire.extend(enc(rt::call(P, "Cipher::write", || e.write(&[]))));
                got.extend(dec(rt::call(P, "Decipher::write", || d.write(&[]))));
            }
            let flushed = match deliver(i, &mut off, &msg, q.now) {
                Some(x) => {
                    wire.extend(enc(rt::call(P, "Cipher::write", || e.write(x))));
                    false
                }
                None => {
                    wire.extend(enc(rt::call(P, "Cipher::flush", || e.flush())));
                    true
                }
            };
            // what the link carries now; all of it once the message is flushed
            while sent < wire.len() && (flushed || rt::chance(1, 2)) {
                let k = piece(wire.len() - sent, sent, 16).max(1);
                got.extend(dec(rt::call(P, "Decipher::write", || d.write(&wire[sent..sent + k]))));
                sent += k;
            }
            if flushed {
                break;
            }
        }
        let d = &mut p.d;
        match rt::call(P, "Decipher::flush", || d.flush()) {
            Ok(o) => got.extend(o),
            Err(e) => rt::violate("C10/lost-step", &format!("pair {i}, message {}: the two sides fell out of step: {e:?}", p.msg)),
        }
        rt::count(K::PCbcOp);
        if got != msg {
            rt::violate("C10/round-trip", &format!("pair {i}, message {}: {}", p.msg, diff(&got, &msg)));
        }
        // the message continues the chain: a fresh cipher started from the last
        // ciphertext block gives the same bytes
        if wire.len() != len / 16 * 16 + 16 {
            rt::violate("C10/length", &format!("pair {i}, message {}: {} bytes of ciphertext for {len}", p.msg, wire.len()));
        }
        let mut c = new_cipher("C10", p.chain, &p.key);
        let mut want = enc(rt::call(P, "Cipher::write", || c.write(&msg)));
        want.extend(enc(rt::call(P, "Cipher::flush", || c.flush())));
        if wire != want {
            rt::violate("C10/chain", &format!("pair {i}, message {}: {}", p.msg, diff(&wire, &want)));
        }
        if len % 16 == 0 {
            rt::count(K::FullPad)
        }
        p.chain.copy_from_slice(&wire[wire.len() - 16..]);
        p.msg += 1;
        p.left -= 1;
        if p.left > 0 {
            q.after(latency(true), i);
        }
    }
}
