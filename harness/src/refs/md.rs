//! MD2 (RFC 1319), MD4 (RFC 1320), MD5 (RFC 1321).
use std::sync::OnceLock;

fn md2_table() -> &'static [u8; 256] {
    static T: OnceLock<[u8; 256]> = OnceLock::new();
    T.get_or_init(|| {
        let h = "292e43c9a2d87c013d3654a1ecf0061362a705f3c0c7738c98932bd9bc4c82ca\
1e9b573cfdd4e01667426f188a17e512be4ec4d6da9ede49a0fbf58ebb2fee7a\
a968799115b2073f94c210890b225f21807f5d9a5a903227353ecce7bff79703\
ff1930b348a5b5d1d75e922aac56aac64fb838d296a47db676fc6be29c7404f1\
459d70596471872086 5bcf65e62da8021b6025adaeb0b9f61c46616934407e0f\
5547a323dd51af3ac35cf9ceba c5ea262c530d6e85288409d3dfcdf441814d52\
6adc37c86cc1abfa24e17b080cbdb14a7888958be363e86de9cbd5fe3b001d39\
f2efb70e6658d0e4a67772f8eb754b0a314450b48fed1f1adb998d339f118314"
            .replace(' ', "");
        hex::decode(h).unwrap().try_into().unwrap()
    })
}

pub fn md2(m: &[u8]) -> [u8; 16] {
    let s = md2_table();
    let pad = 16 - m.len() % 16;
    let mut d = m.to_vec();
    d.extend(std::iter::repeat_n(pad as u8, pad));
    let mut c = [0u8; 16];
    let mut l = 0u8;
    for b in d.chunks(16) {
        for j in 0..16 {
            c[j] ^= s[(b[j] ^ l) as usize];
            l = c[j];
        }
    }
    d.extend_from_slice(&c);
    let mut x = [0u8; 48];
    for b in d.chunks(16) {
        for j in 0..16 {
            x[16 + j] = b[j];
            x[32 + j] = b[j] ^ x[j];
        }
        let mut t = 0usize;
        for j in 0..18 {
            for k in 0..48 {
                x[k] ^= s[t];
                t = x[k] as usize;
            }
            t = (t + j) % 256;
        }
    }
    x[..16].try_into().unwrap()
}

/// Little-endian Merkle-Damgard padding of MD4/MD5.
fn pad_le(m: &[u8]) -> Vec<u8> {
    let mut d = m.to_vec();
    d.push(0x80);
    while d.len() % 64 != 56 {
        d.push(0);
    }
    d.extend_from_slice(&((m.len() as u64).wrapping_mul(8)).to_le_bytes());
    d
}

fn words(b: &[u8]) -> [u32; 16] {
    std::array::from_fn(|i| u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap()))
}

fn out(h: [u32; 4]) -> [u8; 16] {
    let mut o = [0; 16];
    for i in 0..4 {
        o[4 * i..4 * i + 4].copy_from_slice(&h[i].to_le_bytes());
    }
    o
}

const IV: [u32; 4] = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476];

fn step4(v: [u32; 4], i: usize, x: &[u32; 16]) -> [u32; 4] {
    let (a, bb, c, d) = (v[0], v[1], v[2], v[3]);
    let (f, k, s, t) = match i / 16 {
        0 => ((bb & c) | (!bb & d), i, [3, 7, 11, 19][i % 4], 0),
        1 => {
            let j = i - 16;
            ((bb & c) | (bb & d) | (c & d), (j % 4) * 4 + j / 4, [3, 5, 9, 13][i % 4], 0x5a827999)
        }
        _ => {
            let j = (i - 32) as u32;
            // bit-reversed order
            let k = ((j & 1) << 3 | (j & 2) << 1 | (j & 4) >> 1 | (j & 8) >> 3) as usize;
            (bb ^ c ^ d, k, [3, 9, 11, 15][i % 4], 0x6ed9eba1)
        }
    };
    let n = a.wrapping_add(f).wrapping_add(x[k]).wrapping_add(t).rotate_left(s);
    [d, n, bb, c]
}

pub fn md4(m: &[u8]) -> [u8; 16] {
    let mut h = IV;
    for b in pad_le(m).chunks(64) {
        let x = words(b);
        let mut v = h; // a b c d
        for i in 0..48 {
            v = step4(v, i, &x);
        }
        for i in 0..4 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    out(h)
}

fn md5_t() -> &'static [u32; 64] {
    static T: OnceLock<[u32; 64]> = OnceLock::new();
    T.get_or_init(|| std::array::from_fn(|i| (((i + 1) as f64).sin().abs() * 4294967296.0) as u32))
}

fn step5(v: [u32; 4], i: usize, x: &[u32; 16], t: &[u32; 64]) -> [u32; 4] {
    let (a, b, c, d) = (v[0], v[1], v[2], v[3]);
    let (f, k, s) = match i / 16 {
        0 => ((b & c) | (!b & d), i, [7, 12, 17, 22][i % 4]),
        1 => ((b & d) | (c & !d), (5 * i + 1) % 16, [5, 9, 14, 20][i % 4]),
        2 => (b ^ c ^ d, (3 * i + 5) % 16, [4, 11, 16, 23][i % 4]),
        _ => (c ^ (b | !d), (7 * i) % 16, [6, 10, 15, 21][i % 4]),
    };
    let n = b.wrapping_add(a.wrapping_add(f).wrapping_add(x[k]).wrapping_add(t[i]).rotate_left(s));
    [d, n, b, c]
}

pub fn md5(m: &[u8]) -> [u8; 16] {
    let t = md5_t();
    let mut h = IV;
    for blk in pad_le(m).chunks(64) {
        let x = words(blk);
        let mut v = h;
        for i in 0..64 {
            v = step5(v, i, &x, t);
        }
        for i in 0..4 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    out(h)
}

/// The first block of a message for which the first sixteen steps produce what is aimed at
/// (MD4, MD5), or the first four blocks' checksum does (MD2: the low byte of each aim).
pub fn steer(alg: u8, aims: &[super::sha::Aim; 16]) -> Vec<u8> {
    use super::sha::Aim;
    if alg == 0 {
        let s = md2_table();
        let (mut c, mut l, mut o) = ([0u8; 16], 0u8, vec![]);
        for i in 0..64 {
            let b = match aims[i / 4 % 16] {
                Aim::Word(x) => (x >> (8 * (i % 4))) as u8,
                Aim::A(x) | Aim::E(x) => {
                    let want = (x >> (8 * (i % 4))) as u8 ^ c[i % 16];
                    s.iter().position(|&y| y == want).unwrap() as u8 ^ l
                }
                Aim::Same(_) => l,
            };
            c[i % 16] ^= s[(b ^ l) as usize];
            l = c[i % 16];
            o.push(b);
        }
        return o;
    }
    let t = md5_t();
    let mut x = [0u32; 16];
    let mut v = IV;
    for i in 0..16 {
        let want = match aims[i] {
            Aim::Word(w) => {
                x[i] = w as u32;
                None
            }
            Aim::A(w) | Aim::E(w) => Some(w as u32),
            Aim::Same(k) => Some(v[k as usize % 4]),
        };
        if let Some(w) = want {
            x[i] = if alg == 1 {
                let s = [3, 7, 11, 19][i % 4];
                let z = step4(v, i, &x)[1];
                w.rotate_right(s).wrapping_sub(z.rotate_right(s))
            } else {
                let s = [7, 12, 17, 22][i % 4];
                let z = step5(v, i, &x, t)[1].wrapping_sub(v[1]);
                w.wrapping_sub(v[1]).rotate_right(s).wrapping_sub(z.rotate_right(s))
            };
        }
        v = if alg == 1 { step4(v, i, &x) } else { step5(v, i, &x, t) };
        if let Some(w) = want {
            assert_eq!(v[1], w);
        }
    }
    x.iter().flat_map(|w| w.to_le_bytes()).collect()
}
