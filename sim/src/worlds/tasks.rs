//! C08: a pool of unlike tasks stepped by simulated threads, moving between them.
//! C09: concurrent key derivations through shared parameter objects.

use super::cbc::{new_cipher, new_decipher};
use super::stream::mac_key;
use super::*;
use crate::ev;
use crate::reference::{self as r, AesKey, DecModel, EncModel};
use crate::rt::Shared;
use dumb_crypto::aes::AES;
use dumb_crypto::aes_cbc::{Cipher, Decipher};
use dumb_crypto::hmac::HMac;
use dumb_crypto::pbkdf2::pbkdf2_sha256;
use dumb_crypto::salsa20::salsa20;
use dumb_crypto::scrypt::Scrypt;
use dumb_crypto::sha256::SHA256;
use std::sync::Arc;

const C8: &str = "C08/panic";

/// One unlike user of the library after another. Everything a task decides comes
/// from a stream of its own, so running it alone takes exactly the same steps.
enum Body {
    Sha(Option<(Box<SHA256>, r::Sha)>),
    Mac(Option<(Box<HMac>, r::Mac)>),
    Aes(Option<(Box<AES>, Option<AesKey>)>, [u8; 16]),
    Enc(Option<(Box<Cipher>, EncModel)>),
    Dec(Option<(Box<Decipher>, DecModel)>, Vec<u8>, usize),
    Salsa,
    Kdf(Option<(Scrypt, [usize; 3])>),
    /// Through a reference shared with other tasks.
    SharedAes,
    SharedKdf,
}

/// One block cipher and one parameter object all tasks share.
struct Joint {
    aes: Shared<AES>,
    key: AesKey,
    scrypt: Shared<Scrypt>,
    params: [usize; 3],
}

impl Joint {
    fn new() -> Joint {
        let key = rt::aes_key();
        let mut aes = rt::call(C8, "AES::new", AES::new);
        if rt::call(C8, "AES::init", || aes.init(&key)).is_err() {
            rt::violate("C08/init", "valid key refused");
        }
        let p = some_params();
        let s = rt::call(C8, "Scrypt::new", || Scrypt::new(p[0], p[1], p[2]));
        Joint { aes: Shared::new(aes), key: AesKey::new(&key), scrypt: Shared::new(s), params: p }
    }
}

fn some_params() -> [usize; 3] {
    if rt::chance(1, 10) {
        match rt::choose(4) {
            0 => [rt::range(1, 8), 1 << rt::range(1, 4), 1],
            1 => [1, 1 << rt::range(4, 8), 1],
            2 => [1, 1 << rt::range(1, 3), rt::range(2, 9)],
            _ => [rt::range(2, 4), 1 << rt::range(4, 5), rt::range(1, 2)],
        }
    } else {
        [rt::range(1, 2), 1 << rt::range(1, 3), rt::range(1, 2)]
    }
}

/// Contents that several tasks happen to use: equal keys and passwords, ones of
/// equal lengths, and texts with a common beginning.
struct Common {
    keys: Vec<Vec<u8>>,
    texts: Vec<Vec<u8>>,
    ivs: Vec<[u8; 16]>,
    rekey: bool,
    /// Large inputs, outputs and iteration counts, more often than not.
    big: bool,
    joint: Option<Joint>,
}

impl Common {
    fn new(big: bool) -> Common {
        let sizes: Vec<usize> = (0..2).map(|_| rt::one_of(&[16usize, 32, 24])).collect();
        let base = rt::bytes(90);
        Common {
            keys: (0..rt::range(2, 4)).map(|_| rt::bytes(rt::one_of(&sizes))).collect(),
            texts: (0..3)
                .map(|_| {
                    let mut t = base[..rt::one_of(&[8usize, 8, 20, 64, 90])].to_vec();
                    let n = t.len() as u64;
                    t[rt::choose(n) as usize] ^= rt::choose(3) as u8;
                    t
                })
                .collect(),
            ivs: (0..2).map(|_| rt::arr16()).collect(),
            rekey: rt::chance(1, 3),
            big,
            joint: None,
        }
    }
    fn key(&self) -> Vec<u8> {
        if rt::chance(2, 3) {
            rt::one_of_ref(&self.keys).clone()
        } else {
            rt::aes_key()
        }
    }
    fn text(&self, max: usize) -> Vec<u8> {
        if self.big && rt::chance(1, 2) {
            rt::bytes(if rt::chance(1, 8) { magnitude(12, if rt::instrumented() { 15 } else { 17 }) } else { magnitude(8, 13) })
        } else if rt::chance(1, 2) {
            let mut t = rt::one_of_ref(&self.texts).clone();
            t.truncate(max);
            t
        } else if rt::chance(1, 40) {
            // enough for whatever treats long input differently
            let top = rt::one_of(&[400usize, 1200, 5000]);
            rt::bytes(rt::range(max, top))
        } else {
            rt::bytes(rt::range(0, max))
        }
    }
    fn iv(&self) -> [u8; 16] {
        if rt::chance(1, 2) {
            rt::one_of(&self.ivs)
        } else {
            rt::arr16()
        }
    }
}

struct Task {
    common: Arc<Common>,
    body: Body,
    left: u32,
    pieces: u32,
    steps: u32,
    stream: [u64; 4],
    busy: bool,
    done: bool,
    owner: usize,
}

const NAMES: [&str; 9] = ["sha256", "hmac", "aes", "cipher", "decipher", "salsa20", "kdf", "shared aes", "shared scrypt"];

/// The instance in use is dropped as it is.
fn abandon(b: Body) -> Body {
    rt::count(K::Abandon);
    b
}

impl Body {
    fn new(kind: u64) -> Body {
        match kind {
            0 => Body::Sha(None),
            1 => Body::Mac(None),
            2 => Body::Aes(None, [0; 16]),
            3 => Body::Enc(None),
            4 => Body::Dec(None, vec![], 0),
            5 => Body::Salsa,
            7 => Body::SharedAes,
            8 => Body::SharedKdf,
            _ => Body::Kdf(None),
        }
    }
    fn name(&self) -> &'static str {
        NAMES[match self {
            Body::Sha(_) => 0,
            Body::Mac(_) => 1,
            Body::Aes(..) => 2,
            Body::Enc(_) => 3,
            Body::Dec(..) => 4,
            Body::Salsa => 5,
            Body::Kdf(_) => 6,
            Body::SharedAes => 7,
            Body::SharedKdf => 8,
        }]
    }
    /// One call into the real code (or two); true when a piece of work is complete.
    fn step(&mut self, com: &Common) -> bool {
        let agree = |what: &str, got: &[u8], want: &[u8]| {
            if got != want {
                rt::violate(&format!("C08/{what}"), &diff(got, want));
            }
        };
        match self {
            Body::Sha(None) => {
                *self = Body::Sha(Some((Box::new(rt::call(C8, "SHA256::new", SHA256::new)), r::Sha::new())));
                false
            }
            Body::Sha(Some((s, m))) => {
                if rt::chance(1, 20) {
                    *self = abandon(Body::Sha(None));
                    return false;
                }
                if rt::chance(1, 4) {
                    let got = rt::call(C8, "SHA256::digest", || s.digest());
                    rt::count(K::PHash);
                    agree("sha256", &got, &m.clone().end());
                    *self = Body::Sha(None);
                    return true;
                }
                let d = placed(&com.text(150));
                rt::call(C8, "SHA256::update", || s.update(&d));
                m.put(&d);
                false
            }
            Body::Mac(None) => {
                let key = if rt::chance(1, 2) { com.text(90) } else { mac_key() };
                *self = Body::Mac(Some((Box::new(rt::call(C8, "HMac::new", || HMac::new(&key))), r::Mac::new(&key))));
                false
            }
            Body::Mac(Some((s, m))) => {
                if rt::chance(1, 20) {
                    *self = abandon(Body::Mac(None));
                    return false;
                }
                if rt::chance(1, 4) {
                    let got = rt::call(C8, "HMac::digest", || s.digest());
                    rt::count(K::PHash);
                    agree("hmac", &got, &m.clone().end());
                    *self = Body::Mac(None);
                    return true;
                }
                let d = placed(&com.text(150));
                rt::call(C8, "HMac::update", || s.update(&d));
                m.put(&d);
                false
            }
            Body::Aes(None, _) => {
                *self = Body::Aes(Some((Box::new(rt::call(C8, "AES::new", AES::new)), None)), [0; 16]);
                false
            }
            Body::Aes(Some((a, k)), last) => {
                if k.is_none() || rt::chance(1, if com.rekey { 2 } else { 6 }) {
                    let key = com.key();
                    if rt::call(C8, "AES::init", || a.init(&key)).is_err() {
                        rt::violate("C08/init", "valid key refused");
                    }
                    *k = Some(AesKey::new(&key));
                    return false;
                }
                let k = k.as_ref().unwrap();
                let b = if rt::chance(1, 2) { com.iv() } else { *last };
                let enc = rt::chance(1, 2);
                let here = placed(&b);
                let got = rt::call(C8, "AES block call", || if enc { a.encrypt(here.arr16()) } else { a.decrypt(here.arr16()) });
                let want = if enc { k.enc(&b) } else { k.dec(&b) };
                rt::count(K::PAesOp);
                match got {
                    Ok(o) => {
                        agree("aes", &o, &want);
                        *last = o
                    }
                    Err(e) => rt::violate("C08/aes", &format!("refused: {e:?}")),
                }
                true
            }
            Body::Enc(None) => {
                let (iv, key) = (com.iv(), com.key());
                let mut m = EncModel::new(iv);
                m.key = Some(AesKey::new(&key));
                *self = Body::Enc(Some((Box::new(new_cipher("C08", iv, &key)), m)));
                false
            }
            Body::Enc(Some((c, m))) => {
                if rt::chance(1, if com.big { 5 } else { 16 }) {
                    *self = abandon(Body::Enc(None));
                    return false;
                }
                if rt::chance(1, 3) {
                    let got = rt::call(C8, "Cipher::flush", || c.flush());
                    same("C08", "Cipher::flush", &got, &m.flush());
                    if rt::chance(1, if com.rekey { 2 } else { 6 }) {
                        let key = com.key();
                        if rt::call(C8, "Cipher::init", || c.init(&key)).is_err() {
                            rt::violate("C08/init", "valid key refused");
                        }
                        m.key = Some(AesKey::new(&key));
                    }
                    return true;
                }
                let d = placed(&com.text(70));
                let got = rt::call(C8, "Cipher::write", || c.write(&d));
                same("C08", "Cipher::write", &got, &m.write(&d));
                false
            }
            Body::Dec(None, ..) => {
                let (iv, key) = (com.iv(), com.key());
                let mut m = DecModel::new(iv);
                m.key = Some(AesKey::new(&key));
                *self = Body::Dec(Some((Box::new(new_decipher("C08", iv, &key)), m)), vec![], 0);
                false
            }
            Body::Dec(Some((c, m)), ct, off) => {
                if rt::chance(1, if com.big { 8 } else { 16 }) {
                    *self = abandon(Body::Dec(None, vec![], 0));
                    return false;
                }
                if ct.is_empty() {
                    *ct = r::cbc_enc(m.key.as_ref().unwrap(), &m.chain, &com.text(80));
                    *off = 0;
                }
                let early = rt::chance(1, 8);
                if *off < ct.len() && !early {
                    let most = if com.big && rt::chance(2, 3) { 6000 } else { 40 };
                    let n = rt::range(1, most).max(if ct.len() > 2000 { 40 } else { 0 }).min(ct.len() - *off);
                    let got = rt::call(C8, "Decipher::write", || c.write(&ct[*off..*off + n]));
                    same("C08", "Decipher::write", &got, &m.write(&ct[*off..*off + n]));
                    *off += n;
                    return false;
                }
                // an early flush is most likely refused, and then without effect
                let got = rt::call(C8, "Decipher::flush", || c.flush());
                let want = m.flush();
                same("C08", "Decipher::flush", &got, &want);
                if *off == ct.len() {
                    ct.clear();
                    if want.is_ok() && rt::chance(1, if com.rekey { 2 } else { 6 }) {
                        let key = com.key();
                        if rt::call(C8, "Decipher::init", || c.init(&key)).is_err() {
                            rt::violate("C08/init", "valid key refused");
                        }
                        m.key = Some(AesKey::new(&key));
                    }
                }
                !early
            }
            Body::Salsa => {
                let b = rt::bytes(64);
                let rounds = rt::range(0, 12);
                let mut out = rt::bytes(64);
                rt::call(C8, "salsa20", || salsa20(&b, rounds, &mut out));
                let mut x = [0; 64];
                x.copy_from_slice(&b);
                rt::count(K::PSalsa);
                agree("salsa20", &out, &r::salsa(&x, rounds));
                true
            }
            Body::SharedAes => {
                let Some(j) = &com.joint else { return true };
                let b = com.iv();
                let enc = rt::chance(1, 2);
                let got = rt::call(C8, "AES block call", || if enc { j.aes.get().encrypt(&b) } else { j.aes.get().decrypt(&b) });
                let want = if enc { j.key.enc(&b) } else { j.key.dec(&b) };
                rt::count(K::PAesOp);
                match got {
                    Ok(o) => agree("aes", &o, &want),
                    Err(e) => rt::violate("C08/aes", &format!("refused: {e:?}")),
                }
                true
            }
            Body::SharedKdf => {
                let Some(j) = &com.joint else { return true };
                let (mut pw, mut salt) = (com.text(70), com.text(70));
                affordable(&mut pw, &mut salt, 1, 2000);
                let mut out = rt::bytes(rt::range(0, 100));
                if let Err(e) = rt::call(C8, "Scrypt::derive", || j.scrypt.get().derive(&pw, &salt, &mut out)) {
                    rt::violate("C08/scrypt", &format!("refused: {e:?}"));
                }
                let [rr, n, p] = j.params;
                agree("scrypt", &out, &r::scrypt(&pw, &salt, rr, n, p, out.len()));
                rt::count(K::PKdf);
                true
            }
            Body::Kdf(obj) => {
                let (mut pw, mut salt) = (com.text(70), com.text(70));
                let mut out = rt::bytes(rt::range(0, 100));
                if rt::chance(1, 2) {
                    affordable(&mut pw, &mut salt, 1, 2000);
                    let (pw, salt) = (placed(&pw), placed(&salt));
                    let (s, [rr, n, p]) = obj.get_or_insert_with(|| {
                        let p = some_params();
                        (rt::call(C8, "Scrypt::new", || Scrypt::new(p[0], p[1], p[2])), p)
                    });
                    if let Err(e) = rt::call(C8, "Scrypt::derive", || s.derive(&pw, &salt, &mut out)) {
                        rt::violate("C08/scrypt", &format!("refused: {e:?}"));
                    }
                    agree("scrypt", &out, &r::scrypt(&pw, &salt, *rr, *n, *p, out.len()));
                } else {
                    let mut c = rt::range(1, 6);
                    if com.big && rt::chance(1, 2) {
                        // many iterations of a few blocks of output
                        c = rt::range(60, if rt::instrumented() { 140 } else { 1100 });
                        out.truncate(rt::range(33, 70));
                    } else if com.big && rt::chance(1, 3) {
                        out.resize(magnitude(7, 12), 7);
                    }
                    affordable(&mut pw, &mut salt, c, out.len());
                    let (pw, salt) = (placed(&pw), placed(&salt));
                    rt::call(C8, "pbkdf2_sha256", || pbkdf2_sha256(&pw, &salt, c, &mut out));
                    agree("pbkdf2", &out, &r::pbkdf2(&pw, &salt, c, out.len()));
                }
                rt::count(K::PKdf);
                true
            }
        }
    }
}

impl Task {
    fn step(&mut self, i: usize) {
        rt::focus(i);
        let mut st = self.stream;
        let body = &mut self.body;
        let common = self.common.clone();
        let over = rt::with_private(&mut st, || body.step(&common));
        self.stream = st;
        self.steps += 1;
        if over {
            self.left -= 1;
        }
        self.done = self.left == 0 || self.steps > 300.max(4 * self.pieces);
    }
}

pub fn mixed() {
    pool_of_tasks(false)
}

/// C22: the same users, and shared objects; one thread comes to a standstill
/// inside a call, and everybody else must finish without it.
pub fn stalled() {
    // what the library sets up once for the process is set up now
    let warm = Common::new(false);
    for kind in 0..7 {
        let mut b = Body::new(kind);
        for _ in 0..if kind == 5 { 1 } else { 6 } {
            b.step(&warm);
        }
    }
    rt::stall_one();
    pool_of_tasks(true)
}

fn pool_of_tasks(stall: bool) {
    if !(is_send!(SHA256) && is_send!(HMac) && is_send!(AES) && is_send!(Cipher) && is_send!(Decipher) && is_send!(Scrypt)) {
        rt::violate("C08/not-movable", "an instance cannot be handed from one thread to another");
    }
    let threads = if stall { 2 + rt::weighted(&[3, 2, 1]) } else { 1 + rt::weighted(&[1, 4, 3, 2, 1]) };
    let sessions = rt::range(1, 3) * threads;
    let migrate = rt::chance(1, 2);
    let alike = rt::chance(1, 3);
    // now and then very many calls, and instances, in one process
    let marathon = !stall && !rt::instrumented() && rt::chance(1, 100);
    let kinds = if stall { 9 } else { 7 };
    let first = rt::choose(kinds);
    let big = rt::chance(1, if stall { 4 } else { 10 });
    if big {
        ev!("large pieces of work");
    }
    let mut common = Common::new(big);
    if stall {
        common.joint = Some(Joint::new());
    }
    let common = Arc::new(common);
    if let Some(j) = &common.joint {
        rt::shared_object(j.aes.get());
        rt::shared_object(j.scrypt.get());
    }
    let pool: Vec<Task> = (0..sessions)
        .map(|i| {
            let kind = if alike { first } else { rt::choose(kinds) };
            let left = if marathon && kind < 6 { rt::range(200, 3000) as u32 } else { rt::range(1, if big { 3 } else { 5 }) as u32 };
            Task {
                common: common.clone(),
                body: Body::new(kind),
                left: if kind == 6 { left.min(3) } else { left },
                pieces: left,
                steps: 0,
                stream: rt::private_stream(rt::choose(1 << 32)),
                busy: false,
                done: false,
                owner: i % threads,
            }
        })
        .collect();
    for (i, s) in pool.iter().enumerate() {
        ev!("task {i}: {} (thread {}), {} pieces of work", s.body.name(), s.owner, s.left);
    }
    let pool = Arc::new(Shared::new(pool));
    if rt::control() {
        // the suspected task, alone
        let i = rt::focused();
        let t = &mut pool.get()[i];
        while !t.done {
            t.step(i);
        }
        return;
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..threads {
        let pool = pool.clone();
        bodies.push(Box::new(move || loop {
            let p: &mut Vec<Task> = pool.get();
            let mine: Vec<usize> = (0..p.len()).filter(|&i| !p[i].done && !p[i].busy && p[i].owner == t).collect();
            let other: Vec<usize> = (0..p.len()).filter(|&i| !p[i].done && !p[i].busy && p[i].owner != t).collect();
            let i = if migrate && !other.is_empty() && rt::chance(1, 6) {
                let i = rt::one_of(&other);
                rt::count(K::Migrate);
                ev!("task {i} moves from thread {} to {t}", p[i].owner);
                p[i].owner = t;
                i
            } else if !mine.is_empty() {
                rt::one_of(&mine)
            } else {
                break;
            };
            p[i].busy = true;
            // the pool itself never moves while threads run
            let s: *mut Task = &mut p[i];
            unsafe { (*s).step(i) };
            let p: &mut Vec<Task> = pool.get();
            p[i].busy = false;
            ev!("t{t} task {i}: step {} of {}{}", p[i].steps, p[i].body.name(), if p[i].done { ", done" } else { "" });
            rt::yield_point();
        }));
    }
    rt::run_threads(bodies);
    // whatever was in another thread's hands when its owner left is finished here
    for (i, t) in pool.get().iter_mut().enumerate() {
        while !t.done {
            t.step(i);
        }
    }
}

// ------------------------------------------------------------------------ C09

#[derive(Clone)]
struct Job {
    obj: Option<usize>, // scrypt object, or PBKDF2 with c iterations
    c: usize,
    pw: Vec<u8>,
    salt: Vec<u8>,
    len: usize,
    want: Option<Vec<u8>>,
}

fn out_len(n: usize) -> usize {
    match rt::weighted(&[4, 4, 2, n as u64]) {
        0 => rt::range(1, 64),
        1 => (rt::range(1, 6) * 32 + rt::range(0, 2)) - 1,
        2 => rt::range(0, 400),
        _ => rt::range(255 * 32 - 3, 258 * 32 + 3),
    }
}

fn params(heavy: bool) -> [usize; 3] {
    if heavy {
        // lanes, or blocks of a lane, beyond 16 bits
        match rt::choose(6) {
            0 => return [1, 2, rt::range(65_530, 66_000)],
            1 => return [rt::range(32_760, 33_000), 2, 1],
            2 => return [rt::range(1, 9), 1 << rt::range(8, 11), rt::range(2, 9)],
            _ => {}
        }
        let rr = rt::one_of(&[1usize, 1, 2, 3, 5, 8]);
        let n = match rr {
            1 => 1usize << rt::range(8, 15), // N < 2^(16 r)
            2 => 1 << rt::range(8, 17),
            _ => 1 << rt::range(6, 12),
        };
        return [rr, n, if n <= 1024 { rt::range(1, 4) } else { 1 }];
    }
    match rt::weighted(&[4, 3, 2, 2, 1]) {
        0 => [rt::range(1, 2), 1 << rt::range(1, 4), rt::range(1, 2)],
        1 => {
            let rr = rt::range(1, 9);
            [rr, 1 << rt::range(1, 3), rt::range(1, 2)]
        }
        2 => [1, 1 << rt::range(1, 8), 1],
        3 => [rt::range(1, 2), 1 << rt::range(1, 3), rt::range(1, 20)],
        _ => match rt::choose(5) {
            0 => [rt::range(10, 40), 2, 1],
            1 => [1, 2, rt::range(20, 70)],
            // 2 r, r p, p or 128 r p past 8 or 16 bits
            4 => match rt::choose(3) {
                0 => [rt::range(120, 270), 2, 1],
                1 => [1, 2, rt::range(250, 270)],
                _ => [rt::range(20, 40), 2, rt::range(8, 20)],
            },
            2 => [1, 1 << rt::range(9, 10), 1],
            _ => [8, 16, 1],
        },
    }
}

pub fn kdf() {
    if let Some(n) = marathon::long() {
        return marathon::derivations(n);
    }
    if !is_sync!(Scrypt) {
        rt::violate("C09/not-shareable", "a scrypt parameter object cannot be shared between threads");
    }
    let threads = 1 + rt::weighted(&[1, 4, 3, 2]);
    // big parameters are affordable only without instrumentation
    let heavy = !rt::instrumented() && rt::chance(1, 60);
    if heavy {
        rt::count(K::HugeKdf)
    }
    let nobj = if heavy { 1 } else { rt::range(1, 3) };
    let ps: Vec<[usize; 3]> = (0..nobj).map(|_| params(heavy)).collect();
    let objs: Vec<Scrypt> = ps
        .iter()
        .map(|&[rr, n, p]| {
            ev!("scrypt object r {rr} n {n} p {p}");
            rt::call("C09/panic", "Scrypt::new", || Scrypt::new(rr, n, p))
        })
        .collect();
    let mut last: Option<(Vec<u8>, Vec<u8>)> = None;
    let secrets: Vec<(Vec<u8>, Vec<u8>)> = (0..rt::range(1, 3))
        .map(|_| {
            if let Some((mut pw, mut salt)) = last.take() {
                if rt::chance(1, 2) {
                    // like another one, but for a byte
                    let s = if rt::chance(2, 3) { &mut pw } else { &mut salt };
                    if !s.is_empty() {
                        let n = s.len();
                        let at = if rt::chance(1, 2) { n - 1 - rt::choose(n.min(3) as u64) as usize } else { rt::choose(n as u64) as usize };
                        s[at] ^= 1 + rt::choose(255) as u8;
                    }
                    last = Some((pw.clone(), salt.clone()));
                    return (pw, salt);
                }
            }
            let pw = if rt::chance(1, 3) {
                mac_key()
            } else if heavy && rt::chance(1, 3) {
                rt::bytes(len_class(true))
            } else {
                rt::bytes(rt::range(0, 30))
            };
            // the salt is the data of a MAC: any length
            let salt = match rt::weighted(&[8, 2, 1]) {
                0 => rt::range(0, 100),
                1 => len_class(heavy),
                _ => rt::range(240, 270),
            };
            last = Some((pw, rt::bytes(salt)));
            last.clone().unwrap()
        })
        .collect();
    let jobs: Vec<Job> = (0..if heavy { 2 } else { rt::range(2, 5) })
        .map(|i| {
            let (mut pw, mut salt) = secrets[rt::choose(secrets.len() as u64) as usize].clone();
            let obj = if rt::chance(2, 3) || i == 0 { Some(rt::choose(nobj as u64) as usize) } else { None };
            let mut c = match rt::weighted(&[4, 2, 1]) {
                0 => rt::range(1, 4),
                1 => rt::range(1, 40),
                _ => rt::range(1, if rt::instrumented() || rt::chance(2, 3) { 600 } else { 5000 }),
            };
            let mut len = out_len(if c < 5 { 1 } else { 0 });
            if heavy && obj.is_none() {
                if rt::chance(1, 2) {
                    c = rt::range(60_000, 70_000);
                    len = rt::range(1, 64);
                } else {
                    c = 1;
                    len = 65_536 * 32 + rt::range(0, 64) - 20;
                }
            } else if heavy && rt::chance(1, 4) {
                len = 65_536 * 32 + rt::range(0, 64) - 20;
            } else if c > 40 {
                len = len.min(100);
            }
            if heavy {
                // every block hashes the password, or its hash, and the salt
                let size = obj.map_or(0, |o| ps[o][0] * ps[o][2] * 128);
                len = len.min((20_000_000 / size.max(1)).max(2) * 32);
                let blocks = size.max(len) / 32 + c;
                pw.truncate(20_000_000 / blocks + 1);
                salt.truncate(20_000_000 / blocks + 1);
            } else {
                affordable(&mut pw, &mut salt, obj.map_or(c, |_| 1), obj.map_or(0, |o| ps[o][0] * ps[o][2] * 128).max(len));
            }
            ev!("job {i}: {} passphrase {} salt {} output {len}", if obj.is_some() { "scrypt".into() } else { format!("pbkdf2 c={c}") }, pw.len(), salt.len());
            Job { obj, c, pw, salt, len, want: None }
        })
        .collect();
    let w = Arc::new(Shared::new((objs, ps, jobs, 0u32)));
    for s in &w.get().0 {
        rt::shared_object::<Scrypt>(s);
    }
    let mut bodies: Vec<Box<dyn FnOnce() + Send>> = vec![];
    for t in 0..threads {
        let w = w.clone();
        bodies.push(Box::new(move || {
            let (objs, ps, jobs, busy) = w.get();
            for _ in 0..rt::range(1, if heavy { 1 } else { 3 }) {
                let ji = rt::choose(jobs.len() as u64) as usize;
                let j = jobs[ji].clone();
                let (pw, salt) = (placed(&j.pw), placed(&j.salt));
                // the output starts anywhere
                let skew = rt::choose(8) as usize;
                let mut whole = rt::bytes(j.len + skew + 3);
                let around = (whole[..skew].to_vec(), whole[j.len + skew..].to_vec());
                let out = &mut whole[skew..skew + j.len];
                *busy += 1;
                if *busy > 1 {
                    rt::count(K::KdfMid)
                }
                match j.obj {
                    Some(o) => {
                        let got = rt::call("C09/panic", "Scrypt::derive", || objs[o].derive(&pw, &salt, out));
                        if let Err(e) = got {
                            rt::violate("C09/refused", &format!("{:?}: {e:?}", ps[o]));
                        }
                    }
                    None => rt::call("C09/panic", "pbkdf2_sha256", || pbkdf2_sha256(&pw, &salt, j.c, out)),
                }
                *busy -= 1;
                rt::count(K::PKdf);
                ev!("t{t} job {ji}: {}", hex(&out[..out.len().min(8)]));
                if jobs[ji].want.is_none() {
                    jobs[ji].want = Some(match j.obj {
                        Some(o) => r::scrypt(&j.pw, &j.salt, ps[o][0], ps[o][1], ps[o][2], j.len),
                        None => r::pbkdf2(&j.pw, &j.salt, j.c, j.len),
                    });
                }
                let want = jobs[ji].want.as_ref().unwrap();
                if *out != **want {
                    let what = match j.obj {
                        Some(o) => format!("scrypt r,N,p={:?}", ps[o]),
                        None => format!("pbkdf2 c={}", j.c),
                    };
                    rt::violate("C09/key", &format!("{what}, {} bytes: {}", j.len, diff(out, want)));
                }
                if whole[..skew] != around.0 || whole[j.len + skew..] != around.1 {
                    rt::violate("C09/beyond", "a derivation wrote outside its output");
                }
                rt::yield_point();
            }
        }));
    }
    rt::run_threads(bodies);
}
