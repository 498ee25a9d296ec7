//! Independent reference models: SHA-256, HMAC, PBKDF2, Salsa20, scrypt, AES and
//! the CBC/PKCS#7 session state machines. Written from the standards, sharing no
//! code and no tables with the crate under test (tables are computed).

use std::sync::OnceLock;

// ------------------------------------------------------------------ SHA-256

fn frac_root(p: u64, cube: bool) -> u32 {
    // floor(frac(p^(1/2 or 1/3)) * 2^32) by integer search.
    let mut lo: u128 = 0;
    let mut hi: u128 = 1 << 40;
    // find the largest x with x^k <= p * 2^(32k)
    while lo + 1 < hi {
        let mid = (lo + hi) / 2;
        let ok = if cube {
            // mid < 2^40 so mid^3 < 2^120
            mid * mid * mid <= (p as u128) << 96
        } else {
            mid * mid <= (p as u128) << 64
        };
        if ok {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo as u32
}

struct ShaTab {
    k: [u32; 64],
    h: [u32; 8],
}

fn sha_tab() -> &'static ShaTab {
    static T: OnceLock<ShaTab> = OnceLock::new();
    T.get_or_init(|| {
        let mut primes = vec![];
        let mut n = 2u64;
        while primes.len() < 64 {
            if primes.iter().all(|p| n % p != 0) {
                primes.push(n);
            }
            n += 1;
        }
        let mut k = [0; 64];
        let mut h = [0; 8];
        for i in 0..64 {
            k[i] = frac_root(primes[i], true);
        }
        for i in 0..8 {
            h[i] = frac_root(primes[i], false);
        }
        ShaTab { k, h }
    })
}

#[derive(Clone)]
pub struct Sha {
    h: [u32; 8],
    part: [u8; 64],
    fill: usize,
    total: u128,
}

impl Sha {
    pub fn new() -> Sha {
        Sha { h: sha_tab().h, part: [0; 64], fill: 0, total: 0 }
    }
    fn block(h: &mut [u32; 8], b: &[u8]) {
        let k = &sha_tab().k;
        let mut w = [0u32; 16];
        for i in 0..16 {
            w[i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        let mut s = *h;
        for t in 0..64 {
            if t >= 16 {
                let w15 = w[(t + 1) & 15];
                let w2 = w[(t + 14) & 15];
                let s0 = w15.rotate_right(7) ^ w15.rotate_right(18) ^ (w15 >> 3);
                let s1 = w2.rotate_right(17) ^ w2.rotate_right(19) ^ (w2 >> 10);
                w[t & 15] = w[t & 15].wrapping_add(s0).wrapping_add(w[(t + 9) & 15]).wrapping_add(s1);
            }
            let e = s[4];
            let t1 = s[7]
                .wrapping_add(e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25))
                .wrapping_add(s[6] ^ (e & (s[5] ^ s[6])))
                .wrapping_add(k[t])
                .wrapping_add(w[t & 15]);
            let a = s[0];
            let t2 = (a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22))
                .wrapping_add((a & (s[1] | s[2])) | (s[1] & s[2]));
            s = [t1.wrapping_add(t2), a, s[1], s[2], s[3].wrapping_add(t1), e, s[5], s[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    pub fn put(&mut self, mut d: &[u8]) {
        self.total += d.len() as u128;
        if self.fill > 0 {
            let n = d.len().min(64 - self.fill);
            self.part[self.fill..self.fill + n].copy_from_slice(&d[..n]);
            self.fill += n;
            d = &d[n..];
            if self.fill == 64 {
                let p = self.part;
                Self::block(&mut self.h, &p);
                self.fill = 0;
            }
        }
        while d.len() >= 64 {
            Self::block(&mut self.h, &d[..64]);
            d = &d[64..];
        }
        if !d.is_empty() {
            self.part[..d.len()].copy_from_slice(d);
            self.fill = d.len();
        }
    }
    pub fn end(mut self) -> [u8; 32] {
        let bits = (self.total as u64).wrapping_mul(8);
        let mut tail = vec![0x80u8];
        while (self.fill + tail.len()) % 64 != 56 {
            tail.push(0);
        }
        tail.extend_from_slice(&bits.to_be_bytes());
        self.put(&tail);
        let mut o = [0; 32];
        for i in 0..8 {
            o[4 * i..4 * i + 4].copy_from_slice(&self.h[i].to_be_bytes());
        }
        o
    }
}

pub fn sha256(d: &[u8]) -> [u8; 32] {
    let mut s = Sha::new();
    s.put(d);
    s.end()
}

// --------------------------------------------------------------------- HMAC

#[derive(Clone)]
pub struct Mac {
    i: Sha,
    o: Sha,
}

impl Mac {
    pub fn new(key: &[u8]) -> Mac {
        let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
        k.resize(64, 0);
        let mut i = Sha::new();
        let mut o = Sha::new();
        i.put(&k.iter().map(|b| b ^ 0x36).collect::<Vec<_>>());
        o.put(&k.iter().map(|b| b ^ 0x5c).collect::<Vec<_>>());
        Mac { i, o }
    }
    pub fn put(&mut self, d: &[u8]) {
        self.i.put(d)
    }
    pub fn end(mut self) -> [u8; 32] {
        self.o.put(&self.i.end());
        self.o.end()
    }
}

pub fn hmac(key: &[u8], d: &[u8]) -> [u8; 32] {
    let mut m = Mac::new(key);
    m.put(d);
    m.end()
}

// ------------------------------------------------------------------- PBKDF2

pub fn pbkdf2(pw: &[u8], salt: &[u8], c: usize, len: usize) -> Vec<u8> {
    let base = Mac::new(pw);
    let mut out = Vec::with_capacity(len + 32);
    let mut idx = 0u32;
    while out.len() < len {
        idx += 1;
        let mut m = base.clone();
        m.put(salt);
        m.put(&idx.to_be_bytes());
        let mut u = m.end();
        let mut acc = u;
        for _ in 1..c {
            let mut m = base.clone();
            m.put(&u);
            u = m.end();
            for (a, b) in acc.iter_mut().zip(u) {
                *a ^= b;
            }
        }
        out.extend_from_slice(&acc);
    }
    out.truncate(len);
    out
}

// ------------------------------------------------------------------ Salsa20

fn salsa_words(x: &[u32; 16], double_rounds: usize) -> [u32; 16] {
    let mut s = *x;
    fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
        s[b] ^= s[a].wrapping_add(s[d]).rotate_left(7);
        s[c] ^= s[b].wrapping_add(s[a]).rotate_left(9);
        s[d] ^= s[c].wrapping_add(s[b]).rotate_left(13);
        s[a] ^= s[d].wrapping_add(s[c]).rotate_left(18);
    }
    for _ in 0..double_rounds {
        for i in 0..4 {
            // column i, starting on the diagonal
            let p = |k: usize| ((i + k) % 4) * 4 + i;
            qr(&mut s, p(0), p(1), p(2), p(3));
        }
        for i in 0..4 {
            let p = |k: usize| i * 4 + (i + k) % 4;
            qr(&mut s, p(0), p(1), p(2), p(3));
        }
    }
    for i in 0..16 {
        s[i] = s[i].wrapping_add(x[i]);
    }
    s
}

fn words(b: &[u8]) -> Vec<u32> {
    b.chunks(4).map(|c| u32::from_le_bytes([c[0], c[1], c[2], c[3]])).collect()
}

pub fn salsa(b: &[u8; 64], double_rounds: usize) -> [u8; 64] {
    let mut x = [0; 16];
    x.copy_from_slice(&words(b));
    let y = salsa_words(&x, double_rounds);
    let mut o = [0; 64];
    for i in 0..16 {
        o[4 * i..4 * i + 4].copy_from_slice(&y[i].to_le_bytes());
    }
    o
}

// ------------------------------------------------------------------- scrypt

pub fn scrypt(pw: &[u8], salt: &[u8], r: usize, n: usize, p: usize, len: usize) -> Vec<u8> {
    let lane = 32 * r; // words
    let raw = pbkdf2(pw, salt, 1, p * lane * 4);
    let mut all = words(&raw);
    let mix = |x: &mut Vec<u32>| {
        let mut out = vec![0u32; lane];
        let mut cur = [0u32; 16];
        cur.copy_from_slice(&x[lane - 16..]);
        for i in 0..2 * r {
            for k in 0..16 {
                cur[k] ^= x[16 * i + k];
            }
            cur = salsa_words(&cur, 4);
            let dst = (i / 2 + if i % 2 == 1 { r } else { 0 }) * 16;
            out[dst..dst + 16].copy_from_slice(&cur);
        }
        *x = out;
    };
    for l in 0..p {
        let mut x = all[l * lane..(l + 1) * lane].to_vec();
        let mut v = Vec::with_capacity(n);
        for _ in 0..n {
            v.push(x.clone());
            mix(&mut x);
        }
        for _ in 0..n {
            let lo = x[lane - 16] as u64 | ((x[lane - 15] as u64) << 32);
            let j = (lo % n as u64) as usize;
            for (a, b) in x.iter_mut().zip(&v[j]) {
                *a ^= b;
            }
            mix(&mut x);
        }
        all[l * lane..(l + 1) * lane].copy_from_slice(&x);
    }
    let bytes: Vec<u8> = all.iter().flat_map(|w| w.to_le_bytes()).collect();
    pbkdf2(pw, &bytes, 1, len)
}

// ---------------------------------------------------------------------- AES

fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 == 1 {
            r ^= a
        }
        a = (a << 1) ^ if a & 0x80 != 0 { 0x1b } else { 0 };
        b >>= 1;
    }
    r
}

struct AesTab {
    s: [u8; 256],
    i: [u8; 256],
    m: [[u8; 256]; 16],
}

fn aes_tab() -> &'static AesTab {
    static T: OnceLock<AesTab> = OnceLock::new();
    T.get_or_init(|| {
        let mut s = [0u8; 256];
        let mut i = [0u8; 256];
        for x in 0..256usize {
            let inv = (0..=255u8).find(|&y| gmul(x as u8, y) == 1).unwrap_or(0);
            let mut v = 0x63;
            for k in 0..5 {
                v ^= inv.rotate_left(k);
            }
            s[x] = v;
            i[v as usize] = x as u8;
        }
        let mut m = [[0u8; 256]; 16];
        for a in 0..16 {
            for b in 0..256 {
                m[a][b] = gmul(a as u8, b as u8);
            }
        }
        AesTab { s, i, m }
    })
}

#[derive(Clone)]
pub struct AesKey {
    rk: Vec<[u8; 16]>,
}

impl AesKey {
    pub fn new(key: &[u8]) -> AesKey {
        let nk = key.len() / 4;
        assert!(key.len() == 16 || key.len() == 24 || key.len() == 32);
        let t = aes_tab();
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rc = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x.rotate_left(1);
                for b in x.iter_mut() {
                    *b = t.s[*b as usize];
                }
                x[0] ^= rc;
                rc = gmul(rc, 2);
            } else if nk == 8 && i % 8 == 4 {
                for b in x.iter_mut() {
                    *b = t.s[*b as usize];
                }
            }
            let p = w[i - nk];
            w.push([p[0] ^ x[0], p[1] ^ x[1], p[2] ^ x[2], p[3] ^ x[3]]);
        }
        let rk = w
            .chunks(4)
            .map(|c| {
                let mut k = [0; 16];
                for j in 0..16 {
                    k[j] = c[j / 4][j % 4];
                }
                k
            })
            .collect();
        AesKey { rk }
    }
    pub fn enc(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = aes_tab();
        let mut s = *b;
        let nr = self.rk.len() - 1;
        for j in 0..16 {
            s[j] ^= self.rk[0][j];
        }
        for r in 1..=nr {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * c + row] = t.s[s[4 * ((c + row) % 4) + row] as usize];
                }
            }
            if r != nr {
                for c in 0..4 {
                    let a = [n[4 * c], n[4 * c + 1], n[4 * c + 2], n[4 * c + 3]];
                    for row in 0..4 {
                        n[4 * c + row] = t.m[2][a[row] as usize]
                            ^ t.m[3][a[(row + 1) % 4] as usize]
                            ^ a[(row + 2) % 4]
                            ^ a[(row + 3) % 4];
                    }
                }
            }
            for j in 0..16 {
                n[j] ^= self.rk[r][j];
            }
            s = n;
        }
        s
    }
    pub fn dec(&self, b: &[u8; 16]) -> [u8; 16] {
        let t = aes_tab();
        let mut s = *b;
        let nr = self.rk.len() - 1;
        for r in (1..=nr).rev() {
            for j in 0..16 {
                s[j] ^= self.rk[r][j];
            }
            if r != nr {
                for c in 0..4 {
                    let a = [s[4 * c], s[4 * c + 1], s[4 * c + 2], s[4 * c + 3]];
                    for row in 0..4 {
                        s[4 * c + row] = t.m[14][a[row] as usize]
                            ^ t.m[11][a[(row + 1) % 4] as usize]
                            ^ t.m[13][a[(row + 2) % 4] as usize]
                            ^ t.m[9][a[(row + 3) % 4] as usize];
                    }
                }
            }
            let mut n = [0u8; 16];
            for c in 0..4 {
                for row in 0..4 {
                    n[4 * ((c + row) % 4) + row] = t.i[s[4 * c + row] as usize];
                }
            }
            s = n;
        }
        for j in 0..16 {
            s[j] ^= self.rk[0][j];
        }
        s
    }
}

// -------------------------------------------------- CBC session state machines

fn xor16(a: &[u8], b: &[u8]) -> [u8; 16] {
    let mut o = [0; 16];
    for i in 0..16 {
        o[i] = a[i] ^ b[i];
    }
    o
}

/// Raw CBC over whole blocks, no padding.
pub fn cbc_raw_enc(k: &AesKey, iv: &[u8; 16], pt: &[u8]) -> Vec<u8> {
    let mut prev = *iv;
    let mut o = Vec::with_capacity(pt.len());
    for b in pt.chunks(16) {
        prev = k.enc(&xor16(b, &prev));
        o.extend_from_slice(&prev);
    }
    o
}

pub fn pad(pt: &[u8]) -> Vec<u8> {
    let n = 16 - pt.len() % 16;
    let mut v = pt.to_vec();
    v.extend(std::iter::repeat(n as u8).take(n));
    v
}

/// Whole-message AES-CBC with PKCS#7.
pub fn cbc_enc(k: &AesKey, iv: &[u8; 16], pt: &[u8]) -> Vec<u8> {
    cbc_raw_enc(k, iv, &pad(pt))
}

#[derive(Clone, PartialEq, Debug)]
pub enum Err_ {
    NotInitialized,
    Unfinished,
    BadPadding,
}

/// Encrypting session: what every call must return.
#[derive(Clone)]
pub struct EncModel {
    pub key: Option<AesKey>,
    pub chain: [u8; 16],
    pub part: Vec<u8>,
}

impl EncModel {
    pub fn new(iv: [u8; 16]) -> EncModel {
        EncModel { key: None, chain: iv, part: vec![] }
    }
    pub fn write(&mut self, d: &[u8]) -> Result<Vec<u8>, Err_> {
        let k = match &self.key {
            None => return Err(Err_::NotInitialized),
            Some(k) => k,
        };
        self.part.extend_from_slice(d);
        let whole = self.part.len() / 16 * 16;
        let out = cbc_raw_enc(k, &self.chain, &self.part[..whole]);
        if whole > 0 {
            self.chain.copy_from_slice(&out[whole - 16..]);
        }
        self.part.drain(..whole);
        Ok(out)
    }
    pub fn flush(&mut self) -> Result<Vec<u8>, Err_> {
        let k = match &self.key {
            None => return Err(Err_::NotInitialized),
            Some(k) => k,
        };
        let out = cbc_raw_enc(k, &self.chain, &pad(&self.part));
        self.chain.copy_from_slice(&out);
        self.part.clear();
        Ok(out)
    }
}

/// Decrypting session: what every call must return.
#[derive(Clone)]
pub struct DecModel {
    pub key: Option<AesKey>,
    pub chain: [u8; 16],
    pub part: Vec<u8>,
    pub held: Vec<u8>,
}

impl DecModel {
    pub fn new(iv: [u8; 16]) -> DecModel {
        DecModel { key: None, chain: iv, part: vec![], held: vec![] }
    }
    pub fn write(&mut self, d: &[u8]) -> Result<Vec<u8>, Err_> {
        let k = match &self.key {
            None => return Err(Err_::NotInitialized),
            Some(k) => k,
        };
        self.part.extend_from_slice(d);
        let whole = self.part.len() / 16 * 16;
        for i in (0..whole).step_by(16) {
            let mut b = [0; 16];
            b.copy_from_slice(&self.part[i..i + 16]);
            let p = xor16(&k.dec(&b), &self.chain);
            self.held.extend_from_slice(&p);
            self.chain = b;
        }
        self.part.drain(..whole);
        let keep = self.held.len().min(16);
        let emit = self.held.len() - keep;
        Ok(self.held.drain(..emit).collect())
    }
    pub fn flush(&mut self) -> Result<Vec<u8>, Err_> {
        if !self.part.is_empty() || self.held.len() != 16 {
            return Err(Err_::Unfinished);
        }
        let n = self.held[15] as usize;
        if n == 0 || n > 16 || self.held[16 - n..].iter().any(|&b| b as usize != n) {
            return Err(Err_::BadPadding);
        }
        let out = self.held[..16 - n].to_vec();
        self.held.clear();
        Ok(out)
    }
}

// ---------------------------------------------------------------- self-test

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

/// Published vectors (RFC 6234, 4231, 7914, 6070-style, FIPS 197, SP 800-38A).
pub fn self_test() -> Result<(), String> {
    let ck = |name: &str, got: &[u8], want: &str| {
        if got == &unhex(want)[..] {
            Ok(())
        } else {
            Err(format!("reference model fails vector {name}"))
        }
    };
    ck("sha abc", &sha256(b"abc"), "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")?;
    ck("sha empty", &sha256(b""), "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")?;
    ck("sha 1M a", &sha256(&vec![b'a'; 1_000_000]), "cdc76e5c9914fb9281a1c7e284d73e67f1809a48a497200e046d39ccc7112cd0")?;
    ck("hmac 2", &hmac(b"Jefe", b"what do ya want for nothing?"), "5bdcc146bf60754e6a042426089575c75a003f089d2739839dec58b964ec3843")?;
    ck(
        "hmac 6",
        &hmac(&[0xaa; 131], b"Test Using Larger Than Block-Size Key - Hash Key First"),
        "60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54",
    )?;
    ck(
        "pbkdf2 1",
        &pbkdf2(b"passwd", b"salt", 1, 64),
        "55ac046e56e3089fec1691c22544b605f94185216dde0465e68b9d57c20dacbc49ca9cccf179b645991664b39d77ef317c71b845b1e30bd509112041d3a19783",
    )?;
    ck(
        "pbkdf2 4096",
        &pbkdf2(b"password", b"salt", 4096, 32),
        "c5e478d59288c841aa530db6845c4c8d962893a001ce4e11a4963873aa98134a",
    )?;
    ck(
        "scrypt 16",
        &scrypt(b"", b"", 1, 16, 1, 64),
        "77d6576238657b203b19ca42c18a0497f16b4844e3074ae8dfdffa3fede21442fcd0069ded0948f8326a753a0fc81f17e8d3e0fb2e0d3628cf35e20c38d18906",
    )?;
    ck(
        "scrypt 1024",
        &scrypt(b"password", b"NaCl", 8, 1024, 16, 64),
        "fdbabe1c9d3472007856e7190d01e9fe7c6ad7cbc8237830e77376634b3731622eaf30d92e22a3886ff109279d9830dac727afb94a83ee6d8360cbdfa2cc0640",
    )?;
    let mut b = [0u8; 16];
    b.copy_from_slice(&unhex("00112233445566778899aabbccddeeff"));
    for (n, want) in [
        (16, "69c4e0d86a7b0430d8cdb78070b4c55a"),
        (24, "dda97ca4864cdfe06eaf70a0ec0d7191"),
        (32, "8ea2b7ca516745bfeafc49904b496089"),
    ] {
        let key: Vec<u8> = (0..n as u8).collect();
        let k = AesKey::new(&key);
        ck("aes", &k.enc(&b), want)?;
        ck("aes inverse", &k.dec(&k.enc(&b)), "00112233445566778899aabbccddeeff")?;
    }
    let k = AesKey::new(&unhex("2b7e151628aed2a6abf7158809cf4f3c"));
    let mut iv = [0u8; 16];
    iv.copy_from_slice(&unhex("000102030405060708090a0b0c0d0e0f"));
    let pt = unhex("6bc1bee22e409f96e93d7e117393172aae2d8a571e03ac9c9eb76fac45af8e51");
    ck(
        "cbc",
        &cbc_raw_enc(&k, &iv, &pt),
        "7649abac8119b246cee98e9b12e9197d5086cb9b507219ee95db113a917678b2",
    )?;
    let mut x = [0u8; 64];
    x.copy_from_slice(&unhex("7e879a214f3ec9867ca940e641718f26baee555b8c61c1b50df846116dcd3b1dee24f319df9b3d8514121e4b5ac5aa3276021d2909c74829edebc68db8b8c25e"));
    ck(
        "salsa",
        &salsa(&x, 4),
        "a41f859c6608cc993b81cacb020cef05044b2181a2fd337dfd7b1c6396682f29b4393168e3c9e6bcfe6bc5b7a06d96bae424cc102c91745c24ad673dc7618f81",
    )?;
    Ok(())
}

impl AesKey {
    /// Number of round keys (identifies the key size).
    pub fn round_keys(&self) -> usize {
        self.rk.len()
    }
}
