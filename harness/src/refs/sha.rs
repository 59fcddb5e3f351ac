//! FIPS 180-4.  The SHA-2 constants are computed from their definition (fractional parts of
//! square and cube roots of primes) with exact integer roots.
use super::nat::Nat;
use std::sync::OnceLock;

fn pad_be(m: &[u8], block: usize) -> Vec<u8> {
    let lf = block / 8;
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % block != block - lf {
        d.push(0);
    }
    let bits = m.len() as u128 * 8;
    d.extend_from_slice(&bits.to_be_bytes()[16 - lf..]);
    d
}

const IV1: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];

fn step1(v: [u32; 5], t: usize, w: u32) -> [u32; 5] {
    let [a, b, c, d, e] = v;
    let (f, k) = if t < 20 {
        (d ^ (b & (c ^ d)), 0x5a827999u32)
    } else if t < 40 {
        (b ^ c ^ d, 0x6ed9eba1)
    } else if t < 60 {
        ((b & c) ^ (b & d) ^ (c & d), 0x8f1bbcdc)
    } else {
        (b ^ c ^ d, 0xca62c1d6)
    };
    let x = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(w);
    [x, a, b.rotate_left(30), c, d]
}

pub fn sha1(m: &[u8]) -> Vec<u8> {
    let mut h = IV1;
    for b in pad_be(m, 64).chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for t in 16..80 {
            w.push((w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1));
        }
        let mut v = h;
        for t in 0..80 {
            v = step1(v, t, w[t]);
        }
        for i in 0..5 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

/// First 64 bits of the fractional part of the k-th root of p (k = 2 or 3).
fn frac_root(p: u32, k: u32) -> u64 {
    // floor(root(p * 2^(64k))) by bisection; its low 64 bits are the fraction
    let target = Nat::from_u128(p as u128).shl(64 * k);
    let (mut lo, mut hi) = (Nat::zero(), Nat::one().shl(70));
    while lo.add(&Nat::one()) < hi {
        let mid = lo.add(&hi).shr(1);
        let mut q = mid.clone();
        for _ in 1..k {
            q = q.mul(&mid);
        }
        if q <= target {
            lo = mid
        } else {
            hi = mid
        }
    }
    lo.to_u128().unwrap() as u64
}

struct C {
    k: [u64; 80],
    iv512: [u64; 8],
    iv384: [u64; 8],
}

fn consts() -> &'static C {
    static T: OnceLock<C> = OnceLock::new();
    T.get_or_init(|| {
        let primes: Vec<u32> = (2u32..410).filter(|n| (2..*n).all(|d| n % d != 0)).collect();
        C {
            k: std::array::from_fn(|i| frac_root(primes[i], 3)),
            iv512: std::array::from_fn(|i| frac_root(primes[i], 2)),
            iv384: std::array::from_fn(|i| frac_root(primes[i + 8], 2)),
        }
    })
}

fn step32(v: [u32; 8], k: u32, w: u32) -> [u32; 8] {
    let [a, b, c, d, e, f, g, hh] = v;
    let s1 = e.rotate_right(6) ^ e.rotate_right(11) ^ e.rotate_right(25);
    let s0 = a.rotate_right(2) ^ a.rotate_right(13) ^ a.rotate_right(22);
    let t1 = hh.wrapping_add(s1).wrapping_add(g ^ (e & (f ^ g))).wrapping_add(k).wrapping_add(w);
    let t2 = s0.wrapping_add((a & b) | (c & (a | b)));
    [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g]
}

fn core32(m: &[u8], iv: [u32; 8], n: usize) -> Vec<u8> {
    let k = &consts().k;
    let mut h = iv;
    for b in pad_be(m, 64).chunks(64) {
        let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
        for t in 16..64 {
            let (x, y) = (w[t - 15], w[t - 2]);
            let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
            let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v = h;
        for t in 0..64 {
            v = step32(v, (k[t] >> 32) as u32, w[t]);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).take(n).collect()
}

fn step64(v: [u64; 8], k: u64, w: u64) -> [u64; 8] {
    let [a, b, c, d, e, f, g, hh] = v;
    let s1 = e.rotate_right(14) ^ e.rotate_right(18) ^ e.rotate_right(41);
    let s0 = a.rotate_right(28) ^ a.rotate_right(34) ^ a.rotate_right(39);
    let t1 = hh.wrapping_add(s1).wrapping_add(g ^ (e & (f ^ g))).wrapping_add(k).wrapping_add(w);
    let t2 = s0.wrapping_add((a & b) | (c & (a | b)));
    [t1.wrapping_add(t2), a, b, c, d.wrapping_add(t1), e, f, g]
}

fn core64(m: &[u8], iv: [u64; 8], n: usize) -> Vec<u8> {
    let k = &consts().k;
    let mut h = iv;
    for b in pad_be(m, 128).chunks(128) {
        let mut w: Vec<u64> = b.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
        for t in 16..80 {
            let (x, y) = (w[t - 15], w[t - 2]);
            let s0 = x.rotate_right(1) ^ x.rotate_right(8) ^ (x >> 7);
            let s1 = y.rotate_right(19) ^ y.rotate_right(61) ^ (y >> 6);
            w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
        }
        let mut v = h;
        for t in 0..80 {
            v = step64(v, k[t], w[t]);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).take(n).collect()
}

pub fn sha224(m: &[u8]) -> Vec<u8> {
    core32(m, consts().iv384.map(|x| x as u32), 28)
}
pub fn sha256(m: &[u8]) -> Vec<u8> {
    core32(m, consts().iv512.map(|x| (x >> 32) as u32), 32)
}
pub fn sha384(m: &[u8]) -> Vec<u8> {
    core64(m, consts().iv384, 48)
}
pub fn sha512(m: &[u8]) -> Vec<u8> {
    core64(m, consts().iv512, 64)
}

/// What one of the first sixteen steps should produce.
#[derive(Clone, Copy, Debug, Hash, serde::Serialize, serde::Deserialize)]
pub enum Aim {
    /// this message word
    Word(u64),
    /// the new first register
    A(u64),
    /// the new register e (SHA-2); the first one otherwise
    E(u64),
    /// the new first register equal to an old one
    Same(u8),
}

/// The first block of a message for which the first sixteen steps produce what is aimed at.
pub fn steer(alg: &str, aims: &[Aim; 16]) -> Vec<u8> {
    let k = &consts().k;
    let mut o = vec![];
    macro_rules! go {
        ($w:ty, $iv:expr, $e:literal, $step:expr) => {{
            let mut v = $iv;
            for (t, aim) in aims.iter().enumerate() {
                let z = $step(v, t, 0);
                let x: $w = match *aim {
                    Aim::Word(x) => x as $w,
                    Aim::A(x) => (x as $w).wrapping_sub(z[0]),
                    Aim::E(x) => (x as $w).wrapping_sub(z[$e]),
                    Aim::Same(i) => v[i as usize % v.len()].wrapping_sub(z[0]),
                };
                v = $step(v, t, x);
                o.extend_from_slice(&x.to_be_bytes());
            }
        }};
    }
    let c = consts();
    match alg {
        "sha1" => go!(u32, IV1, 0, |v, t: usize, w| step1(v, t, w)),
        "sha224" => go!(u32, c.iv384.map(|x| x as u32), 4, |v, t: usize, w| step32(v, (k[t] >> 32) as u32, w)),
        "sha256" => go!(u32, c.iv512.map(|x| (x >> 32) as u32), 4, |v, t: usize, w| step32(v, (k[t] >> 32) as u32, w)),
        "sha384" => go!(u64, c.iv384, 4, |v, t: usize, w| step64(v, k[t], w)),
        _ => go!(u64, c.iv512, 4, |v, t: usize, w| step64(v, k[t], w)),
    }
    o
}

/// The first block of a message whose expanded schedule holds `words` from word `pos` on.
pub fn schedule(alg: &str, words: &[u64; 16], pos: usize) -> Vec<u8> {
    match alg {
        "sha1" => {
            let mut w = words.map(|x| x as u32);
            for _ in 0..pos.min(64) {
                // w = words t-15..=t; word t-16 = rotr(word t, 1) ^ t-3 ^ t-8 ^ t-14
                let x = w[15].rotate_right(1) ^ w[12] ^ w[7] ^ w[1];
                w.rotate_right(1);
                w[0] = x;
            }
            w.iter().flat_map(|x| x.to_be_bytes()).collect()
        }
        "sha224" | "sha256" => {
            let mut w = words.map(|x| x as u32);
            for _ in 0..pos.min(48) {
                let (x, y) = (w[0], w[13]);
                let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
                let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
                let z = w[15].wrapping_sub(s1).wrapping_sub(w[8]).wrapping_sub(s0);
                w.rotate_right(1);
                w[0] = z;
            }
            w.iter().flat_map(|x| x.to_be_bytes()).collect()
        }
        _ => {
            let mut w = *words;
            for _ in 0..pos.min(64) {
                let (x, y) = (w[0], w[13]);
                let s0 = x.rotate_right(1) ^ x.rotate_right(8) ^ (x >> 7);
                let s1 = y.rotate_right(19) ^ y.rotate_right(61) ^ (y >> 6);
                let z = w[15].wrapping_sub(s1).wrapping_sub(w[8]).wrapping_sub(s0);
                w.rotate_right(1);
                w[0] = z;
            }
            w.iter().flat_map(|x| x.to_be_bytes()).collect()
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn schedules_meet_the_words() {
        let words: [u64; 16] = std::array::from_fn(|i| if i % 3 == 0 { 0 } else { 0x1234_5678_9abc_def1u64.wrapping_mul(i as u64) });
        for pos in [0usize, 1, 5, 16, 30, 48] {
            let b = schedule("sha1", &words, pos);
            let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
            for t in 16..80 {
                w.push((w[t - 3] ^ w[t - 8] ^ w[t - 14] ^ w[t - 16]).rotate_left(1));
            }
            assert_eq!(w[pos..pos + 16], words.map(|x| x as u32));
            let b = schedule("sha256", &words, pos);
            let mut w: Vec<u32> = b.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
            for t in 16..64 {
                let (x, y) = (w[t - 15], w[t - 2]);
                let s0 = x.rotate_right(7) ^ x.rotate_right(18) ^ (x >> 3);
                let s1 = y.rotate_right(17) ^ y.rotate_right(19) ^ (y >> 10);
                w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
            }
            assert_eq!(w[pos..pos + 16], words.map(|x| x as u32));
            let b = schedule("sha512", &words, pos);
            let mut w: Vec<u64> = b.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
            for t in 16..80 {
                let (x, y) = (w[t - 15], w[t - 2]);
                let s0 = x.rotate_right(1) ^ x.rotate_right(8) ^ (x >> 7);
                let s1 = y.rotate_right(19) ^ y.rotate_right(61) ^ (y >> 6);
                w.push(s1.wrapping_add(w[t - 7]).wrapping_add(s0).wrapping_add(w[t - 16]));
            }
            assert_eq!(w[pos..pos + 16], words);
        }
    }
}
