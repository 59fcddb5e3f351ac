//! Shared generators.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::ops::Deref;

/// Bytes that serialise as hex text.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Hx(pub Vec<u8>);

impl std::fmt::Debug for Hx {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "x\"{}\"", hex::encode(&self.0))
    }
}
impl Deref for Hx {
    type Target = Vec<u8>;
    fn deref(&self) -> &Vec<u8> {
        &self.0
    }
}
impl From<Vec<u8>> for Hx {
    fn from(v: Vec<u8>) -> Hx {
        Hx(v)
    }
}
impl Serialize for Hx {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&hex::encode(&self.0))
    }
}
impl<'de> Deserialize<'de> for Hx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Hx, D::Error> {
        let s = String::deserialize(d)?;
        hex::decode(s).map(Hx).map_err(serde::de::Error::custom)
    }
}

/// Byte values where carries, signs and paddings change behaviour.
pub fn edge_byte() -> BoxedStrategy<u8> {
    select(vec![0u8, 1, 2, 3, 7, 8, 0x0f, 0x10, 0x2a, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0xff, 0]).boxed()
}

/// Four bytes as one machine word: zero, ones, single bit, or arbitrary.
fn word4() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        2 => Just(0u32),
        2 => Just(u32::MAX),
        1 => (0u32..32).prop_map(|b| 1 << b),
        1 => (0u32..32).prop_map(|b| (1u32 << b).wrapping_sub(1)),
        3 => any::<u32>(),
    ]
    .prop_map(|w| w.to_be_bytes().to_vec())
    .boxed()
}

/// Exactly `n` bytes: uniform, edge-valued, constant, one-hot on zero or ones, progressions,
/// word-structured and short periods.
pub fn arr(n: usize) -> BoxedStrategy<Hx> {
    if n == 0 {
        return Just(Hx(vec![])).boxed();
    }
    Union::new_weighted(vec![
        (6, vec(any::<u8>(), n).boxed()),
        (2, vec(edge_byte(), n).boxed()),
        (1, any::<u8>().prop_map(move |b| vec![b; n]).boxed()),
        (1, (0..n, any::<u8>(), select(vec![0u8, 0xff])).prop_map(move |(p, v, base)| {
            let mut a = vec![base; n];
            a[p] = v;
            a
        }).boxed()),
        (1, (any::<u8>(), any::<u8>()).prop_map(move |(s, d)| (0..n).map(|i| s.wrapping_add(d.wrapping_mul(i as u8))).collect()).boxed()),
        (1, (vec(word4(), n.div_ceil(4)), 0usize..4).prop_map(move |(w, rot)| {
            let mut v: Vec<u8> = w.concat();
            v.truncate(n);
            v.rotate_left(rot % n);
            v
        }).boxed()),
        (1, (any::<[u8; 8]>(), 1usize..=8).prop_map(move |(p, k)| (0..n).map(|i| p[i % k]).collect()).boxed()),
    ])
    .prop_map(Hx)
    .boxed()
}

/// A byte string whose length is drawn from `len`.
pub fn bytes(len: impl Strategy<Value = usize> + 'static) -> BoxedStrategy<Hx> {
    len.prop_flat_map(arr).boxed()
}

/// Variable-size bytes that shrink element-wise.
pub fn small_bytes(max: usize) -> BoxedStrategy<Hx> {
    prop_oneof![3 => vec(any::<u8>(), 0..=max), 1 => vec(edge_byte(), 0..=max)].prop_map(Hx).boxed()
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9e3779b97f4a7c15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

/// A message: short ones explicit, long ones described by (kind, seed, length) so that cases stay
/// small and shrink in length.
#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Msg {
    Raw(Hx),
    Fill { kind: u8, seed: u64, len: usize },
}

impl Msg {
    pub fn len(&self) -> usize {
        match self {
            Msg::Raw(v) => v.len(),
            Msg::Fill { len, .. } => *len,
        }
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn expand(&self) -> Vec<u8> {
        match self {
            Msg::Raw(v) => v.0.clone(),
            Msg::Fill { kind, seed, len } => fill(*kind, *seed, *len),
        }
    }
}

pub const KINDS: u8 = 10;

pub fn fill(kind: u8, seed: u64, len: usize) -> Vec<u8> {
    let mut s = seed;
    match kind {
        0 => vec![0; len],
        1 => {
            let mut v = Vec::with_capacity(len + 8);
            while v.len() < len {
                v.extend_from_slice(&splitmix(&mut s).to_le_bytes());
            }
            v.truncate(len);
            v
        }
        2 => vec![0xff; len],
        3 => (0..len).map(|i| (i as u8).wrapping_mul(seed as u8 | 1)).collect(),
        4 => {
            let p = [(seed & 0xff) as u8, 0, 0x80, (seed >> 8) as u8];
            (0..len).map(|i| p[i % 4]).collect()
        }
        6 | 7 => {
            // machine words (4 or 8 bytes) that are zero, all ones, one bit, a repetition or arbitrary
            let w = if kind == 6 { 4 } else { 8 };
            let mut v: Vec<u8> = Vec::with_capacity(len + w);
            let mut last = 0u64;
            while v.len() < len {
                let r = splitmix(&mut s);
                last = match r % 8 {
                    0 | 1 => 0,
                    2 => u64::MAX,
                    3 => 1u64.rotate_left((r >> 8) as u32 % 64),
                    4 => last,
                    _ => splitmix(&mut s),
                };
                v.extend_from_slice(&last.to_be_bytes()[8 - w..]);
            }
            v.truncate(len);
            v
        }
        8 => {
            // arbitrary, with runs of zeros at the start, at the end or inside
            let mut v = fill(1, seed, len);
            let r = splitmix(&mut s);
            let n = (r >> 16) as usize % (len + 1);
            match r % 3 {
                0 => v[..n].fill(0),
                1 => v[len - n..].fill(0),
                _ => {
                    let a = (r >> 40) as usize % (len - n + 1);
                    v[a..a + n].fill(0)
                }
            }
            v
        }
        9 => (0..len).map(|_| b" etaoinshrdlu\nABC-=+/09"[splitmix(&mut s) as usize % 23]).collect(),
        _ => vec![seed as u8; len],
    }
}

/// Lengths next to powers of two from 2^lo to 2^hi.
pub fn len_pow2(lo: u32, hi: u32) -> BoxedStrategy<usize> {
    (lo..=hi, -3i64..=3).prop_map(|(k, d)| ((1i64 << k) + d).max(0) as usize).boxed()
}

/// A machine word worth meeting inside a computation.
pub fn word64() -> BoxedStrategy<u64> {
    prop_oneof![
        4 => Just(0u64),
        3 => Just(u64::MAX),
        1 => (0u32..64).prop_map(|b| 1 << b),
        1 => (0u32..64).prop_map(|b| (1u64 << b).wrapping_sub(1)),
        1 => Just(0x8000_0000_8000_0000),
        1 => Just(0x7fff_ffff_7fff_ffff),
        1 => (0u64..256).prop_map(|b| b * 0x0101_0101_0101_0101),
        3 => any::<u64>(),
    ]
    .boxed()
}

pub fn msg_of_len(len: usize) -> BoxedStrategy<Msg> {
    if len <= 48 {
        return arr(len).prop_map(Msg::Raw).boxed();
    }
    (0..KINDS, any::<u64>()).prop_map(move |(kind, seed)| Msg::Fill { kind, seed, len }).boxed()
}

pub fn msg(len: impl Strategy<Value = usize> + 'static) -> BoxedStrategy<Msg> {
    len.prop_flat_map(|n| if n <= 48 { arr(n).prop_map(Msg::Raw).boxed() } else { (0..KINDS, any::<u64>(), (n - n / 8)..=n).prop_map(|(kind, seed, len)| Msg::Fill { kind, seed, len }).boxed() }).boxed()
}

/// Lengths with weight on multiples of `b` and their neighbours, up to `max`.
pub fn len_near(b: usize, max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        2 => 0..=max.min(3 * b),
        3 => (0..=max / b, 0usize..=2).prop_map(move |(k, d)| (k * b + d).saturating_sub(1).min(max)),
        1 => 0..=max,
    ]
    .boxed()
}

pub fn a16(v: &[u8]) -> [u8; 16] {
    v.try_into().unwrap()
}
pub fn a8(v: &[u8]) -> [u8; 8] {
    v.try_into().unwrap()
}

/// Reads a fuzzer's input from front to back; what is missing reads as zero.
pub struct Feed<'a>(pub &'a [u8]);

impl Feed<'_> {
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn u8(&mut self) -> u8 {
        self.take(1)[0]
    }
    pub fn u16(&mut self) -> u16 {
        let b = self.take(2);
        u16::from_le_bytes([b[0], b[1]])
    }
    pub fn u32(&mut self) -> u32 {
        let b = self.take(4);
        u32::from_le_bytes([b[0], b[1], b[2], b[3]])
    }
    pub fn take(&mut self, n: usize) -> Hx {
        let (a, b) = self.0.split_at(n.min(self.0.len()));
        self.0 = b;
        let mut v = a.to_vec();
        v.resize(n, 0);
        Hx(v)
    }
    /// At most `max` bytes, as many as there are up to the length given first.
    pub fn some(&mut self, max: usize) -> Hx {
        let n = self.u8() as usize;
        let n = n.min(max).min(self.0.len());
        self.take(n)
    }
    pub fn rest(&mut self) -> Hx {
        let n = self.0.len();
        self.take(n)
    }
}

/// `count` pseudo-random byte strings of the given lengths, as seeds of a corpus.
pub fn blobs(tag: u64, lens: &[usize]) -> Vec<Vec<u8>> {
    let mut s = tag;
    lens.iter().map(|&n| (0..n).map(|_| splitmix(&mut s) as u8).collect()).collect()
}
