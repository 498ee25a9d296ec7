//! C07: one AES instance shared by several simulated threads, re-keyed by some.

use super::*;
use crate::ev;
use crate::reference::AesKey;
use crate::rt::{RwSim, Shared};
use dumb_crypto::aes::AES;
use std::sync::Arc;

struct W {
    aes: Shared<AES>,
    key: Shared<Option<AesKey>>,
    lock: RwSim,
    keys: Vec<Vec<u8>>,
    blocks: Vec<[u8; 16]>,
    last: Shared<[u8; 16]>,
}

/// Keys that resemble each other: equal ones, prefixes, shared tails, one bit apart.
fn key_pool() -> Vec<Vec<u8>> {
    let base = rt::bytes(64);
    let mut v: Vec<Vec<u8>> = vec![];
    for _ in 0..rt::range(1, 6) {
        let n = rt::one_of(&[16usize, 32, 24]);
        let k = match rt::weighted(&[3, 2, 2, 1]) {
            0 => rt::bytes(n),
            1 => base[..n].to_vec(),
            2 => base[64 - n..].to_vec(),
            _ => {
                let mut k = base[..n].to_vec();
                k[rt::choose(n as u64) as usize] ^= 1 << rt::choose(8);
                k
            }
        };
        v.push(k);
    }
    v
}

fn block_op(w: &W) {
    let me = rt::me();
    let b = match rt::weighted(&[6, 4, 4, 1, 1]) {
        0 => rt::one_of(&w.blocks),
        1 => rt::arr16(),
        2 => *w.last.get(),
        // the key, or what almost was asked before
        3 => w.keys[rt::choose(w.keys.len() as u64) as usize][..16].try_into().unwrap(),
        _ => {
            let mut b = rt::one_of(&w.blocks);
            b[rt::choose(16) as usize] ^= 1 << rt::choose(8);
            b
        }
    };
    let here = placed(&b);
    let enc = rt::chance(1, 2);
    w.lock.read();
    if w.lock.readers() > 1 {
        rt::count(K::ReadersMid)
    }
    let key = w.key.get().clone();
    let got = rt::call("C07/panic", "AES block call", || if enc { w.aes.get().encrypt(here.arr16()) } else { w.aes.get().decrypt(here.arr16()) });
    w.lock.unread();
    rt::count(K::PAesOp);
    match (key, got) {
        (None, Err(e)) => {
            rt::count(K::Refused);
            ev!("t{me} refused {e:?}");
        }
        (None, Ok(o)) => rt::violate("C07/accepted", &format!("block call without a key returned {}", hex(&o))),
        (Some(_), Err(e)) => rt::violate("C07/refused", &format!("block call with a key installed: {e:?}")),
        (Some(k), Ok(o)) => {
            let want = if enc { k.enc(&b) } else { k.dec(&b) };
            ev!("t{me} {} -> {}", if enc { "encrypt" } else { "decrypt" }, hex(&o[..4]));
            if o != want {
                rt::violate(
                    "C07/block",
                    &format!("{} under the latest key ({} round keys): {}", if enc { "encrypt" } else { "decrypt" }, k.round_keys(), diff(&o, &want)),
                );
            }
            *w.last.get() = o;
        }
    }
}

fn rekey(w: &W) {
    let me = rt::me();
    w.lock.write();
    if rt::chance(1, 3) {
        let k = super::refused::bad_key();
        let got = rt::call("C07/panic", "AES::init", || w.aes.get().init(&k));
        rt::count(K::Refused);
        ev!("t{me} key of {} bytes refused", k.len());
        if got.is_ok() {
            rt::violate("C07/accepted", &format!("a key of {} bytes was accepted", k.len()));
        }
    } else {
        let k = &w.keys[rt::choose(w.keys.len() as u64) as usize];
        let got = rt::call("C07/panic", "AES::init", || w.aes.get().init(&placed(k)));
        rt::count(K::Rekey);
        ev!("t{me} key of {} bytes installed", k.len());
        if let Err(e) = got {
            rt::violate("C07/refused", &format!("init with {} bytes: {e:?}", k.len()));
        }
        let new = AesKey::new(k);
        if let Some(old) = w.key.get() {
            if old.round_keys() != new.round_keys() {
                rt::count(K::SizeChange)
            }
        }
        *w.key.get() = Some(new);
    }
    w.lock.unwrite();
}

pub fn run() {
    if let Some(n) = marathon::long() {
        return marathon::keys(n);
    }
    if !is_sync!(AES) {
        rt::violate("C07/not-shareable", "an AES instance cannot be shared between threads");
    }
    let threads = 1 + rt::weighted(&[1, 4, 3, 2, 1]);
    let w = Arc::new(Shared::new(W {
        aes: Shared::new(rt::call("C07/panic", "AES::new", AES::new)),
        key: Shared::new(None),
        lock: RwSim::new(),
        keys: key_pool(),
        blocks: (0..3).map(|_| rt::arr16()).collect(),
        last: Shared::new([0; 16]),
    }));
    rt::shared_object::<AES>(w.get().aes.get());
    if rt::chance(7, 8) {
        rekey(w.get());
    }
    let rekeyers = rt::range(0, threads);
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for i in 0..threads {
        let w = w.clone();
        bodies.push(Box::new(move || {
            let w: &W = w.get();
            let n = rt::range(2, 14);
            for _ in 0..n {
                if i < rekeyers && rt::chance(1, 4) {
                    rekey(w);
                } else {
                    block_op(w);
                }
                rt::yield_point();
            }
        }));
    }
    rt::run_threads(bodies);
    block_op(w.get());
}
