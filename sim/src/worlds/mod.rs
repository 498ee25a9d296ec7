//! The simulated worlds, one per property (some share an engine).

/// Whether a concrete type is Sync or Send, without requiring it.
macro_rules! has_bound {
    ($t:ty, $b:path) => {{
        struct Probe<T>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        impl<T: $b> Probe<T> {
            fn yes(&self) -> bool {
                true
            }
        }
        #[allow(dead_code)]
        trait Otherwise {
            fn yes(&self) -> bool {
                false
            }
        }
        impl<T> Otherwise for Probe<T> {}
        Probe::<$t>(std::marker::PhantomData).yes()
    }};
}
macro_rules! is_sync { ($t:ty) => { has_bound!($t, Sync) } }
macro_rules! is_send { ($t:ty) => { has_bound!($t, Send) } }

pub mod anything;
pub mod cbc;
pub mod channel;
pub mod disk;
pub mod marathon;
pub mod memory;
pub mod refused;
pub mod shared_aes;
pub mod stopwatch;
pub mod stream;
pub mod tasks;
pub mod work;

use crate::reference::Err_;
use crate::rt::{self, K};

pub struct World {
    pub id: &'static str,
    pub run: fn(),
    /// Runs per tier, for the instrumented and the plain build together.
    pub quick: u64,
    pub thorough: u64,
    pub real: &'static str,
    pub stub: &'static str,
    /// Deviations are checked against a control run without the faults.
    pub control: bool,
    /// Only its own classes count; wrong results are other properties' matter.
    pub own: bool,
}

pub const WORLDS: &[World] = &[
    World { id: "C01", run: stream::sha, quick: 60_000, thorough: 3_000_000, real: "SHA256", stub: "transport, consumers", control: false, own: false },
    World { id: "C02", run: stream::mac, quick: 60_000, thorough: 3_000_000, real: "HMac, SHA256", stub: "transport, consumers", control: false, own: false },
    World { id: "C03", run: cbc::encrypt, quick: 160_000, thorough: 3_000_000, real: "aes_cbc::Cipher, AES, PKCS#7 padding", stub: "writers", control: false, own: false },
    World { id: "C04", run: cbc::decrypt, quick: 160_000, thorough: 3_000_000, real: "aes_cbc::Decipher, AES, PKCS#7 unpadding", stub: "peer (reference ciphertext), transport", control: false, own: false },
    World { id: "C05", run: cbc::damaged, quick: 200_000, thorough: 5_000_000, real: "aes_cbc::Decipher, AES, PKCS#7 unpadding", stub: "peer (reference ciphertext), faulty transport", control: false, own: false },
    World { id: "C06", run: refused::run, quick: 200_000, thorough: 3_000_000, real: "AES, Cipher, Decipher, Scrypt", stub: "callers", control: true, own: false },
    World { id: "C07", run: shared_aes::run, quick: 90_000, thorough: 1_500_000, real: "AES", stub: "thread scheduler, reader-writer lock", control: false, own: false },
    World { id: "C08", run: tasks::mixed, quick: 40_000, thorough: 1_200_000, real: "every public type and function", stub: "thread scheduler", control: true, own: false },
    World { id: "C09", run: tasks::kdf, quick: 12_000, thorough: 600_000, real: "Scrypt, pbkdf2_sha256, HMac, SHA256, salsa20", stub: "thread scheduler", control: false, own: false },
    World { id: "C10", run: cbc::session, quick: 80_000, thorough: 2_500_000, real: "aes_cbc::Cipher, aes_cbc::Decipher, AES, PKCS#7", stub: "link", control: false, own: false },
    World { id: "C11", run: disk::run, quick: 150_000, thorough: 2_500_000, real: "aes_cbc::Cipher, aes_cbc::Decipher, AES, PKCS#7", stub: "disk, process lifetime", control: false, own: false },
    World { id: "C12", run: memory::oom, quick: 120_000, thorough: 2_500_000, real: "every public type and function", stub: "allocator failures", control: true, own: false },
    World { id: "C13", run: memory::bounded, quick: 16_000, thorough: 800_000, real: "every public type and function", stub: "allocator accounting and failures", control: false, own: false },
    World { id: "C14", run: channel::run, quick: 60_000, thorough: 3_000_000, real: "Scrypt, pbkdf2_sha256, HMac, SHA256, Cipher, Decipher, AES", stub: "network, clock, durable state, process lifetime, record protocol", control: false, own: false },
    World { id: "C20", run: stopwatch::run, quick: 80_000, thorough: 1_000_000, real: "aes_cbc::Decipher, AES, PKCS#7 unpadding", stub: "adversary, link, clock (steps executed)", control: false, own: true },
    World { id: "C21", run: work::run, quick: 30_000, thorough: 1_000_000, real: "every public type and function", stub: "callers, allocator failures", control: false, own: true },
    World { id: "C22", run: tasks::stalled, quick: 24_000, thorough: 1_200_000, real: "every public type and function", stub: "thread scheduler", control: false, own: true },
    World { id: "C23", run: anything::hostile, quick: 80_000, thorough: 1_500_000, real: "every public type and function", stub: "clock, randomness, environment variables, files, standard streams, heap layout and contents", control: true, own: false },
    World { id: "C24", run: anything::misuse, quick: 90_000, thorough: 3_000_000, real: "every public type and function", stub: "callers", control: false, own: false },
];

pub fn by_id(id: &str) -> Option<&'static World> {
    WORLDS.iter().find(|w| w.id == id)
}

pub fn hex(b: &[u8]) -> String {
    if b.len() > 40 {
        let f = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
        format!("{}..{} ({} bytes)", f(&b[..20]), f(&b[b.len() - 8..]), b.len())
    } else {
        b.iter().map(|x| format!("{x:02x}")).collect()
    }
}

/// First difference between two byte strings, for messages.
pub fn diff(got: &[u8], want: &[u8]) -> String {
    let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap_or(got.len().min(want.len()));
    format!("got {} want {}, first difference at byte {}", hex(got), hex(want), i)
}

/// The same bytes at an address of any alignment (a function of the contents).
pub struct Placed(Vec<u128>, usize, usize);
impl std::ops::Deref for Placed {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts((self.0.as_ptr() as *const u8).add(self.1), self.2) }
    }
}
impl Placed {
    pub fn arr16(&self) -> &[u8; 16] {
        (**self).try_into().unwrap()
    }
}
pub fn placed(d: &[u8]) -> Placed {
    let h = d.iter().take(8).chain(d.iter().rev().take(3)).fold(d.len() as u64, |a, &b| (a ^ b as u64).wrapping_mul(0x1000_0000_01b3));
    let off = if h >> 36 & 3 == 0 { 0 } else { (h >> 40) as usize % 16 };
    let mut v = vec![0u128; d.len() / 16 + 2];
    unsafe { std::ptr::copy_nonoverlapping(d.as_ptr(), (v.as_mut_ptr() as *mut u8).add(off), d.len()) };
    Placed(v, off, d.len())
}

/// Length of a message or buffer: mostly small, around block boundaries, with tails.
pub fn len_class(huge: bool) -> usize {
    match rt::weighted(&[4, 5, 8, 4, 3, if huge { 1 } else { 0 }]) {
        0 => rt::range(0, 16),
        1 => {
            let k = rt::range(0, 12) * 16;
            (k + rt::range(0, 4)).saturating_sub(2)
        }
        2 => {
            let k = rt::range(0, 5) * 64;
            (k + rt::range(0, 14)).saturating_sub(11)
        }
        3 => rt::range(0, 300),
        4 => rt::range(0, 3000),
        _ => match rt::choose(30) {
            0..=19 => rt::range(3000, 40_000),
            20..=28 => rt::range(40_000, 140_000),
            _ => rt::range(2_090_000, 2_110_000),
        },
    }
}

/// A length of any order of magnitude from 2^lo to 2^hi.
pub fn magnitude(lo: usize, hi: usize) -> usize {
    let e = rt::range(lo, hi - 1);
    (1 << e) + rt::choose(1 << e) as usize
}

/// A length up to `top`, and now and then one far beyond.
pub fn sized(top: usize) -> usize {
    if rt::chance(1, 50) {
        magnitude(8, if rt::instrumented() { 14 } else { 17 })
    } else {
        rt::range(0, top)
    }
}

/// Cuts a password and a salt down to what c iterations for a key of so many
/// bytes can afford.
pub fn affordable(pw: &mut Vec<u8>, salt: &mut Vec<u8>, c: usize, bytes: usize) {
    let top = if rt::instrumented() { 1_000_000 } else { 6_000_000 };
    let blocks = bytes / 32 + 1;
    pw.truncate(top / (blocks * c.max(1)));
    salt.truncate(top / blocks);
}

/// Length of a CBC message: as above, and now and then long enough for
/// anything that counts, batches or indexes blocks to wrap.
pub fn cbc_len() -> usize {
    let plain = !rt::instrumented();
    match rt::weighted(&[200, 8, 4, if plain { 1 } else { 0 }]) {
        0 => len_class(false),
        1 => rt::range(3_000, if plain { 20_000 } else { 9_000 }),
        2 => {
            let unit = rt::one_of(&[1024usize, 2048, 4096, 8192]);
            let k = if plain { rt::range(1, 4) } else { 1 };
            (unit * k + rt::range(0, 40)).saturating_sub(20)
        }
        _ => match rt::choose(4) {
            0 => rt::range(65_500, 65_580),
            1 => rt::range(131_000, 131_110),
            _ => rt::range(20_000, 200_000),
        },
    }
}

/// How much of what is left the next delivery carries; `unit` is the block size.
pub fn piece(left: usize, buffered: usize, unit: usize) -> usize {
    let to_boundary = unit - buffered % unit;
    let n = match rt::weighted(&[3, 3, 3, 2, 3, 2, 1, 2]) {
        0 => left,
        1 => 1,
        2 => to_boundary,
        3 => (to_boundary + rt::range(0, 2)).saturating_sub(1),
        4 => rt::range(0, unit),
        5 => to_boundary + unit * rt::range(0, 4),
        6 => rt::range(1, 2000),
        _ => rt::range(unit, 4 * unit),
    };
    // keep very long streams from turning into very many deliveries
    let floor = if left > 20_000 { left / 64 + (n & 127) } else { 0 };
    n.max(floor).min(left)
}

/// Compares the outcome of a CBC call with the model's.
pub fn same<E: std::fmt::Debug>(
    class: &str,
    what: &str,
    got: &Result<Vec<u8>, E>,
    want: &Result<Vec<u8>, Err_>,
) {
    rt::count(K::PCbcOp);
    match (got, want) {
        (Ok(a), Ok(b)) => {
            if a != b {
                rt::violate(&format!("{class}/output"), &format!("{what}: {}", diff(a, b)));
            }
        }
        (Err(e), Err(w)) => {
            let s = format!("{e:?}");
            let ok = match w {
                Err_::NotInitialized => s.contains("NotInitialized"),
                Err_::Unfinished => s.contains("UnfinishedBlock"),
                Err_::BadPadding => s.contains("InvalidPadding"),
            };
            if !ok {
                rt::violate(&format!("{class}/error-kind"), &format!("{what}: got error {s}, want {w:?}"));
            }
        }
        (Ok(a), Err(w)) => rt::violate(
            &format!("{class}/accepted"),
            &format!("{what}: succeeded with {}, must be refused with {w:?}", hex(a)),
        ),
        (Err(e), Ok(b)) => rt::violate(
            &format!("{class}/refused"),
            &format!("{what}: refused with {e:?}, must succeed with {}", hex(b)),
        ),
    }
}

/// A discrete-event queue: (time, sequence) is a total order.
pub struct Queue<E> {
    heap: std::collections::BinaryHeap<std::cmp::Reverse<(u64, u64, usize)>>,
    slot: Vec<Option<E>>,
    seq: u64,
    pub now: u64,
}
impl<E> Queue<E> {
    pub fn new() -> Self {
        Queue { heap: Default::default(), slot: vec![], seq: 0, now: 0 }
    }
    pub fn after(&mut self, us: u64, e: E) {
        self.seq += 1;
        self.slot.push(Some(e));
        self.heap.push(std::cmp::Reverse((self.now + us, self.seq, self.slot.len() - 1)));
    }
    pub fn next(&mut self) -> Option<E> {
        let std::cmp::Reverse((t, _, i)) = self.heap.pop()?;
        self.now = t;
        rt::simtime(t);
        self.slot[i].take()
    }
}

/// Latency of a delivery in simulated microseconds.
pub fn latency(stalls: bool) -> u64 {
    match rt::weighted(&[6, 3, if stalls { 1 } else { 0 }]) {
        0 => 50 + rt::choose(100),
        1 => 50 + rt::choose(5_000),
        _ => {
            rt::count(K::Stall);
            1_000_000 + rt::choose(60_000_000)
        }
    }
}
