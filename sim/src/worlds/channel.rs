//! C14: two parties on a simulated network. Keys, tags, ciphertexts and
//! plaintexts come from the real code; the record protocol around it is part of
//! the simulation.

use super::cbc::{new_cipher, new_decipher};
use super::*;
use crate::ev;
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::scrypt::Scrypt;
use std::collections::HashSet;

const RTO: u64 = 200_000;
const LAT: u64 = 5_000;

#[derive(Clone)]
struct Keys {
    enc: Vec<u8>,
    mac: Vec<u8>,
}

/// What a party keeps on stable storage.
struct Party {
    // durable
    outbox: Vec<Vec<u8>>,
    acked: usize,
    inbox: Vec<Vec<u8>>,
    sends: u32,
    // volatile: keys for sending and receiving
    keys: Option<[Keys; 2]>,
    epoch: u32,
    skew: u64,
}

enum E {
    Packet { to: usize, data: Vec<u8>, damaged: bool },
    Timer { who: usize, epoch: u32 },
    Crash { who: usize },
    Restart { who: usize },
    Calm,
}

struct Net {
    q: Queue<E>,
    calm: bool,
    loss: u64,
    dup: u64,
    slow: u64,
    damage: u64,
    /// length of the header: kind, sender, number, and what the application adds
    head: usize,
    sent: [HashSet<Vec<u8>>; 2],
}

fn tag(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut m = rt::call("C14/panic", "HMac::new", || HMac::new(key));
    let mut off = 0;
    while off < data.len() {
        let n = piece(data.len() - off, off, 64).max(1);
        rt::call("C14/panic", "HMac::update", || m.update(&data[off..off + n]));
        off += n;
    }
    let t = rt::call("C14/panic", "HMac::digest", || m.digest());
    rt::count(K::PHash);
    t
}

fn derive(pw: &[u8], salt: &[u8], par: [usize; 3], enc_len: usize, agreed: &mut Option<[Keys; 2]>) -> [Keys; 2] {
    let mut master = rt::bytes(64);
    let s = Scrypt::new(par[0], par[1], par[2]);
    if let Err(e) = rt::call("C14/panic", "Scrypt::derive", || s.derive(pw, salt, &mut master)) {
        rt::violate("C14/kdf", &format!("valid parameters refused: {e:?}"));
    }
    let mut v = vec![];
    for d in 0..2u8 {
        let mut b = rt::bytes(enc_len + 32);
        rt::call("C14/panic", "pbkdf2_sha256", || pbkdf2_sha256(&master, &[b'd', d], 2, &mut b));
        v.push(Keys { enc: b[..enc_len].to_vec(), mac: b[enc_len..].to_vec() });
    }
    rt::count(K::PKdf);
    let b = v.pop().unwrap();
    let a = v.pop().unwrap();
    // both parties, and every restart of each, must arrive at the same keys
    let want = agreed.get_or_insert_with(|| [a.clone(), b.clone()]);
    for (x, y) in [(&a, &want[0]), (&b, &want[1])] {
        if x.enc != y.enc || x.mac != y.mac {
            let cat = |k: &Keys| [&k.enc[..], &k.mac[..]].concat();
            rt::violate("C14/kdf", &format!("the parties' keys differ: {}", diff(&cat(x), &cat(y))));
        }
    }
    [a, b]
}

impl Net {
    fn send(&mut self, to: usize, data: Vec<u8>) {
        self.sent[to].insert(data.clone());
        let mut copies = vec![(data.clone(), false)];
        if !self.calm {
            if rt::chance(self.loss, 20) {
                rt::count(K::PktLoss);
                ev!("t={} packet to {to} lost", self.q.now);
                copies.clear();
            }
            if rt::chance(self.dup, 20) {
                rt::count(K::PktDup);
                ev!("t={} packet to {to} duplicated", self.q.now);
                copies.push((data.clone(), false));
            }
            if rt::chance(self.damage, 20) {
                let mut d = data.clone();
                mangle(&mut d, self.head);
                if d != data {
                    ev!("t={} packet to {to} damaged", self.q.now);
                    copies.push((d, true));
                    if rt::chance(1, 2) && copies.len() > 1 {
                        copies.remove(0);
                    }
                }
            }
        }
        for (d, damaged) in copies {
            let mut lat = 500 + rt::choose(LAT - 500);
            if !self.calm && rt::chance(self.slow, 20) {
                rt::count(K::PktDelay);
                lat += rt::choose(1_000_000);
            }
            self.q.after(lat, E::Packet { to, data: d, damaged });
        }
    }
}

/// Damage to a packet: header, IV, ciphertext, then a 32-byte tag.
fn mangle(d: &mut Vec<u8>, head: usize) {
    let n = d.len();
    let body = n - 32;
    // a place the layout makes interesting, or any place
    let place = |n: usize| -> usize {
        match rt::weighted(&[4, 3, 2, 2, 2]) {
            0 => rt::range(0, n),
            1 => body.min(n),
            2 => (head + 16 * (1 + rt::choose(4) as usize)).min(n),
            3 => rt::one_of(&[0usize, 1, 2, 6, head]).min(n),
            _ => n,
        }
    };
    match rt::choose(11) {
        0 => {
            rt::count(K::PktTrunc);
            d.truncate(rt::range(0, n - 1));
        }
        1 => {
            rt::count(K::PktTrunc);
            let at = place(n - 1);
            let k = rt::one_of(&[1usize, 1, 2, 4, 8, 16, 32]).min(n - at);
            d.drain(at..at + k);
        }
        2 => {
            rt::count(K::PktDamage);
            let x = rt::bytes(rt::range(1, 33));
            d.extend(x);
        }
        3 => {
            // something inserted: zeros, a repeated byte, or anything
            rt::count(K::PktInsert);
            let at = place(n);
            let k = rt::one_of(&[1usize, 1, 2, 3, 4, 8, 16, 32, 64]);
            let x = match rt::choose(4) {
                0 => rt::bytes(k),
                1 => vec![if at > 0 { d[at - 1] } else { 0 }; k],
                2 => vec![0x80; k],
                _ => vec![0; k],
            };
            d.splice(at..at, x);
        }
        4 => {
            // a stretch repeated or overtaken
            rt::count(K::PktInsert);
            let k = rt::one_of(&[1usize, 4, 16, 32, 64]).min(n / 2);
            let at = place(n - k);
            let x = d[at..at + k].to_vec();
            d.splice(at..at, x);
        }
        5 => {
            rt::count(K::PktSwap);
            let k = rt::one_of(&[1usize, 2, 4, 8, 16, 64]).min(n / 2);
            let a = place(n - k) / k * k;
            let b = place(n - k) / k * k;
            for j in 0..k {
                d.swap(a + j, b + j);
            }
        }
        6 => {
            // two bytes, or a whole stretch, changed so that sums cancel
            rt::count(K::PktDamage);
            let x = 1 + rt::choose(255) as u8;
            let (a, b) = (place(n - 1), place(n - 1));
            d[a] ^= x;
            d[b] ^= x;
        }
        7 => {
            rt::count(K::PktDamage);
            let at = place(n - 1);
            let k = rt::one_of(&[1usize, 4, 8, 16, 31, 32, 64]).min(n - at);
            let v = rt::one_of(&[0u8, 0xff, 0x80, 1]);
            d[at..at + k].fill(v);
        }
        8 => {
            // damage confined to the tag
            rt::count(K::PktDamage);
            let at = body + rt::choose(32) as usize;
            d[at] ^= 1 << rt::choose(8);
        }
        _ => {
            rt::count(K::PktDamage);
            for _ in 0..rt::range(1, 3) {
                let at = rt::choose(n as u64) as usize;
                d[at] ^= 1 << rt::choose(8);
            }
        }
    }
}

/// kind 1: record; kind 2: acknowledgement of everything below seq.
fn transmit(p: &mut Party, me: usize, net: &mut Net, kind: u8, seq: usize) {
    let k = p.keys.as_ref().unwrap()[me].clone();
    p.sends += 1;
    let mut pkt = vec![kind, me as u8];
    pkt.extend_from_slice(&(seq as u32).to_le_bytes());
    pkt.extend((6..net.head).map(|j| j as u8 ^ me as u8));
    if kind == 1 {
        let msg = &p.outbox[seq];
        let mut iv = [0u8; 16];
        let mut nonce = vec![b'n'];
        nonce.extend_from_slice(&p.sends.to_le_bytes());
        iv.copy_from_slice(&tag(&k.mac, &nonce)[..16]);
        let mut c = new_cipher("C14", iv, &k.enc);
        let mut ct = vec![];
        let mut off = 0;
        while off < msg.len() {
            let n = piece(msg.len() - off, off, 16).max(1);
            let o = rt::call("C14/panic", "Cipher::write", || c.write(&msg[off..off + n]));
            ct.extend(o.unwrap_or_else(|e| rt::violate("C14/refused", &format!("write: {e:?}"))));
            off += n;
        }
        let o = rt::call("C14/panic", "Cipher::flush", || c.flush());
        ct.extend(o.unwrap_or_else(|e| rt::violate("C14/refused", &format!("flush: {e:?}"))));
        pkt.extend_from_slice(&iv);
        pkt.extend(ct);
    }
    let t = tag(&k.mac, &pkt);
    pkt.extend_from_slice(&t);
    ev!("t={} party {me} sends {} {seq}, {} bytes", net.q.now, if kind == 1 { "record" } else { "ack" }, pkt.len());
    net.send(1 - me, pkt);
}

fn receive(ps: &mut [Party; 2], me: usize, net: &mut Net, data: &[u8], damaged: bool, crash_at: u64) {
    let p = &mut ps[me];
    let Some(keys) = &p.keys else { return };
    let k = keys[1 - me].clone();
    if damaged {
        rt::count(K::Tampered)
    }
    let genuine = net.sent[me].contains(data);
    if data.len() < net.head + 32 {
        if genuine {
            rt::harness_error("short genuine packet");
        }
        return;
    }
    let (body, t) = data.split_at(data.len() - 32);
    let ok = tag(&k.mac, body) == *t;
    if ok && !genuine {
        rt::violate("C14/forged", "a damaged record verified");
    }
    if !ok && genuine {
        rt::violate("C14/rejected", "a record that arrived intact did not verify");
    }
    if !ok {
        ev!("t={} party {me} rejects a packet of {} bytes", net.q.now, data.len());
        return;
    }
    let seq = u32::from_le_bytes([body[2], body[3], body[4], body[5]]) as usize;
    if body[0] == 2 {
        if seq > p.acked {
            p.acked = seq;
            ev!("t={} party {me}: {seq} acknowledged", net.q.now);
            if p.acked < p.outbox.len() {
                let s = p.acked;
                transmit(p, me, net, 1, s);
            }
        }
        return;
    }
    let mut iv = [0; 16];
    iv.copy_from_slice(&body[net.head..net.head + 16]);
    let ct = &body[net.head + 16..];
    let mut c = new_decipher("C14", iv, &k.enc);
    let mut pt = vec![];
    let mut off = 0;
    while off < ct.len() {
        let n = piece(ct.len() - off, off, 16).max(1);
        let o = rt::call("C14/panic", "Decipher::write", || c.write(&ct[off..off + n]));
        pt.extend(o.unwrap_or_else(|e| rt::violate("C14/refused", &format!("write: {e:?}"))));
        off += n;
    }
    match rt::call("C14/panic", "Decipher::flush", || c.flush()) {
        Ok(o) => pt.extend(o),
        Err(e) => rt::violate("C14/decrypt", &format!("an intact record does not decrypt: {e:?}")),
    }
    let other = &ps[1 - me].outbox;
    if other.get(seq) != Some(&pt) {
        rt::violate("C14/plaintext", &format!("record {seq}: {}", diff(&pt, other.get(seq).map(|v| &v[..]).unwrap_or(&[]))));
    }
    let p = &mut ps[me];
    if crash_at == 1 {
        // before the delivery is durable
        crash(p, me, net);
        return;
    }
    if seq == p.inbox.len() {
        p.inbox.push(pt);
        rt::count(K::Delivered);
        ev!("t={} party {me} delivers record {seq}", net.q.now);
    }
    if crash_at == 2 {
        // after it, before the acknowledgement
        crash(p, me, net);
        return;
    }
    let n = p.inbox.len();
    transmit(p, me, net, 2, n);
}

fn crash(p: &mut Party, me: usize, net: &mut Net) {
    if p.keys.is_none() {
        return;
    }
    rt::count(K::Crash);
    ev!("t={} party {me} crashes", net.q.now);
    p.keys = None;
    p.epoch += 1;
    let down = 1_000 + rt::choose(500_000);
    net.q.after(down, E::Restart { who: me });
}

pub fn run() {
    let secret = || match rt::weighted(&[12, 4, 1]) {
        0 => rt::range(0, 40),
        1 => rt::range(0, 140),
        _ => magnitude(7, 13),
    };
    let pw = rt::bytes(secret());
    let salt = rt::bytes(secret());
    let par = [rt::range(1, 2), 1 << rt::range(1, 3), rt::range(1, 2)];
    let enc_len = rt::one_of(&[16, 32, 24]);
    let mut agreed = None;
    let head = 6 + match rt::weighted(&[3, 3, 2]) {
        0 => 0,
        1 => rt::range(0, 80),
        _ => rt::one_of(&[10, 26, 42, 58]),
    };
    let large = rt::chance(1, if rt::instrumented() { 250 } else { 20 });
    let msgs = |n: usize| -> Vec<Vec<u8>> {
        (0..n)
            .map(|_| {
                let l = match rt::weighted(&[3, 3, 1, if large { 3 } else { 0 }]) {
                    0 => rt::range(0, 40),
                    1 => rt::range(0, 8) * 16,
                    2 => rt::range(0, 1200),
                    _ => {
                        // what is authenticated ends at or near a block of the hash
                        let t = rt::one_of(&[2048usize, 4096, 8192, 16_384, 16_384, 32_768, 65_536]);
                        let t = t + 64 * rt::range(0, 8) + if rt::chance(1, 3) { rt::range(0, 64) } else { 0 };
                        t - head - 16 - rt::range(1, 16)
                    }
                };
                match rt::choose(12) {
                    0 => vec![rt::one_of(&[0u8, 0xff, 0x10, 15]); l],
                    1 => rt::bytes(16).into_iter().cycle().take(l).collect(),
                    _ => rt::bytes(l),
                }
            })
            .collect()
    };
    let mut counts = [rt::range(1, 6), rt::range(0, 4)];
    if large {
        counts = [rt::range(1, 3), rt::range(0, 2)];
    } else if !rt::instrumented() && rt::chance(1, 300) {
        counts[0] = rt::range(250, 600);
    }
    let skews = [100 + rt::choose(101), 100 + rt::choose(101)];
    let party = |i: usize| Party {
        outbox: msgs(counts[i]),
        acked: 0,
        inbox: vec![],
        sends: 0,
        keys: None,
        epoch: 0,
        skew: skews[i],
    };
    let mut ps = [party(0), party(1)];
    let faulty = rt::chance(5, 6);
    let lvl = |on: bool| if on { rt::weighted(&[1, 2, 2, 1]) as u64 * 3 } else { 0 };
    let mut net = Net {
        q: Queue::new(),
        calm: !faulty,
        loss: lvl(faulty),
        dup: lvl(faulty),
        slow: lvl(faulty),
        damage: lvl(faulty),
        head,
        sent: Default::default(),
    };
    ev!(
        "r,n,p {par:?}, {enc_len}-byte keys, {} and {} records, header of {} bytes, loss {} dup {} delay {} damage {} (of 20), clock rates {skews:?}%",
        counts[0], counts[1], net.head, net.loss, net.dup, net.slow, net.damage
    );
    let mut inline_crashes = 0;
    if faulty {
        let until = 200_000 + rt::choose(4_000_000);
        net.q.after(until, E::Calm);
        for _ in 0..rt::range(0, 3) {
            let who = rt::choose(2) as usize;
            let at = rt::choose(until);
            net.q.after(at, E::Crash { who });
        }
        inline_crashes = rt::range(0, 2);
    }
    for who in 0..2 {
        net.q.after(rt::choose(1_000), E::Restart { who });
    }
    let mut deadline = None;
    let left = |ps: &[Party; 2]| ps[0].outbox.len() - ps[0].acked + ps[1].outbox.len() - ps[1].acked;
    // once calm: a restart, then one timeout and one round trip a record, at the slowest clock rate
    let bound = |ps: &[Party; 2], now: u64| now + 1_600_000 + (left(ps) as u64 + 2) * (2 * RTO + 4 * LAT);
    if net.calm {
        deadline = Some(bound(&ps, 0));
    }
    while let Some(e) = net.q.next() {
        if left(&ps) == 0 {
            break;
        }
        if let Some(d) = deadline {
            if net.q.now > d {
                rt::violate("C14/liveness", &format!("{} records are still undelivered {} us after the faults stopped", left(&ps), net.q.now));
            }
        }
        match e {
            E::Calm => {
                net.calm = true;
                inline_crashes = 0;
                deadline = Some(bound(&ps, net.q.now));
                ev!("t={} the faults stop, {} records to go", net.q.now, left(&ps));
            }
            E::Crash { who } => {
                if !net.calm {
                    crash(&mut ps[who], who, &mut net)
                }
            }
            E::Restart { who } => {
                let p = &mut ps[who];
                ev!("t={} party {who} starts, record {} next", net.q.now, p.acked);
                p.keys = Some(derive(&pw, &salt, par, enc_len, &mut agreed));
                let (epoch, d) = (p.epoch, 1_000);
                net.q.after(d, E::Timer { who, epoch });
            }
            E::Timer { who, epoch } => {
                let p = &mut ps[who];
                if p.epoch == epoch && p.keys.is_some() && p.acked < p.outbox.len() {
                    if p.sends > 0 {
                        rt::count(K::Retrans)
                    }
                    let s = p.acked;
                    transmit(p, who, &mut net, 1, s);
                    let rto = RTO * p.skew / 100;
                    net.q.after(rto, E::Timer { who, epoch });
                }
            }
            E::Packet { to, data, damaged } => {
                let mut c = 0;
                if inline_crashes > 0 && rt::chance(1, 8) {
                    inline_crashes -= 1;
                    c = 1 + rt::choose(2);
                }
                receive(&mut ps, to, &mut net, &data, damaged, c);
            }
        }
    }
    if left(&ps) > 0 {
        rt::violate("C14/liveness", &format!("{} records were never delivered", left(&ps)));
    }
    // exactly once, in order, on both sides
    for i in 0..2 {
        if ps[i].inbox.len() != ps[1 - i].outbox.len() || ps[i].inbox != ps[1 - i].outbox {
            rt::violate("C14/delivery", &format!("party {i} delivered {} records of {}", ps[i].inbox.len(), ps[1 - i].outbox.len()));
        }
    }
}
