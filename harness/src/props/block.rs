//! C01 AES, C02 RC2, C04 RC5: block ciphers against independent implementations.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::aes::{key_meeting, RefAes};
use crate::refs::rc::{RefRc2, RefRc5};
use cryptography::aes::{Aes, Key128, Key192, Key256};
use cryptography::BlockCipher;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Op {
    Enc,
    Dec,
}

pub fn op() -> impl Strategy<Value = Op> {
    prop_oneof![Just(Op::Enc), Just(Op::Dec)]
}

/// A history on one cipher object: every step's result is compared, then the step is inverted.
fn history<const N: usize>(name: &str, c: &dyn BlockCipher<N>, enc: &dyn Fn([u8; N]) -> [u8; N], dec: &dyn Fn([u8; N]) -> [u8; N], ops: &[(Op, Hx)], chain: bool) -> Result<(), Fail> {
    let mut prev = [0u8; N];
    for (i, (o, b)) in ops.iter().enumerate() {
        let mut blk: [u8; N] = b[..].try_into().unwrap();
        if chain {
            for k in 0..N {
                blk[k] ^= prev[k];
            }
        }
        let (got, want, back, d) = match o {
            Op::Enc => {
                let g = c.encrypt(blk);
                (g, enc(blk), c.decrypt(g), "encrypt")
            }
            Op::Dec => {
                let g = c.decrypt(blk);
                (g, dec(blk), c.encrypt(g), "decrypt")
            }
        };
        ensure!(got == want, format!("{name}:{d}"), "{name} {d} of {} gave {}, the standard gives {} (step {i})", short(&blk), short(&got), short(&want));
        ensure!(back == blk, format!("{name}:inverse"), "{name}: inverting {d} of {} gave {} (step {i})", short(&blk), short(&back));
        prev = got;
    }
    Ok(())
}

// ------------------------------------------------------------------ C01

pub const AES_KEY: [usize; 3] = [16, 24, 32];

pub fn aes_from_bytes(k: &[u8]) -> Aes {
    match k.len() {
        16 => Aes::with_128_bit_key(k.try_into().unwrap()),
        24 => Aes::with_192_bit_key(k.try_into().unwrap()),
        _ => Aes::with_256_bit_key(k.try_into().unwrap()),
    }
}

pub fn aes_from_words(k: &[u8]) -> Aes {
    let w: Vec<u64> = k.chunks(8).map(|c| c.iter().fold(0u64, |a, &b| a << 8 | b as u64)).collect();
    match k.len() {
        16 => Aes::from(Key128::from(<[u64; 2]>::try_from(w).unwrap())),
        24 => Aes::from(Key192::from(<[u64; 3]>::try_from(w).unwrap())),
        _ => Aes::from(Key256::from(<[u64; 4]>::try_from(w).unwrap())),
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct AesCase {
    key: Hx,
    ops: Vec<(Op, Hx)>,
    chain: bool,
}

fn aes_check(c: &AesCase) -> Res {
    let r = RefAes::new(&c.key);
    let a = aes_from_bytes(&c.key);
    let name = match c.key.len() {
        16 => "aes128",
        24 => "aes192",
        _ => "aes256",
    };
    history::<16>(name, &a, &|b| r.enc(b), &|b| r.dec(b), &c.ops, c.chain)?;
    // the same key given as words, after and beside the first object
    let w = aes_from_words(&c.key);
    if let Some((o, b)) = c.ops.first() {
        let b = a16(b);
        let (g1, g2, want) = match o {
            Op::Enc => (a.encrypt(b), w.encrypt(b), r.enc(b)),
            Op::Dec => (a.decrypt(b), w.decrypt(b), r.dec(b)),
        };
        ensure!(g1 == want, format!("{name}:reuse"), "{name}: the object gives {} for {} when used again, expected {}", short(&g1), short(&b), short(&want));
        ensure!(g2 == want, format!("{name}:words"), "{name} with the key as words gives {} for {}, expected {}", short(&g2), short(&b), short(&want));
    }
    Ok(Info::new(c.key.iter().any(|&b| b != c.key[0]) && !c.ops.is_empty())
        .label(c.ops.iter().any(|o| o.0 == Op::Enc) && c.ops.iter().any(|o| o.0 == Op::Dec), "mixed directions")
        .label(c.key.len() == 16, "128")
        .label(c.key.len() == 24, "192")
        .label(c.key.len() == 32, "256"))
}

fn aes_ops(n: std::ops::Range<usize>) -> impl Strategy<Value = Vec<(Op, Hx)>> {
    vec((op(), arr(16)), n)
}

/// A block chosen so that a given state is met inside the cipher.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct AesInner {
    key: Hx,
    state: Hx,
    round: u8,
    before_mix: bool,
}

fn aes_inner_check(c: &AesInner) -> Res {
    let r = RefAes::new(&c.key);
    let b = r.block_meeting(a16(&c.state), 1 + c.round as usize % r.rounds(), c.before_mix);
    let ct = r.enc(b);
    aes_check(&AesCase { key: c.key.clone(), ops: vec![(Op::Enc, Hx(b.to_vec())), (Op::Dec, Hx(ct.to_vec()))], chain: false })
}

/// A key chosen so that given words are met inside its schedule.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct AesSchedule {
    words: Hx,
    pos: u8,
    ops: Vec<(Op, Hx)>,
}

fn aes_schedule_check(c: &AesSchedule) -> Res {
    let w: Vec<[u8; 4]> = c.words.chunks(4).map(|x| x.try_into().unwrap()).collect();
    let pos = c.pos as usize % (4 * (w.len() + 7) - w.len() + 1);
    let key = key_meeting(&w, pos);
    if RefAes::new(&key).w[pos..pos + w.len()] != w[..] {
        panic!("the key does not lead to the chosen words");
    }
    aes_check(&AesCase { key: Hx(key), ops: c.ops.clone(), chain: false })
}

/// A state: four columns, each arbitrary or special.
fn state(n: usize) -> BoxedStrategy<Hx> {
    prop_oneof![
        2 => vec(word64(), n / 4).prop_map(|v| Hx(v.iter().flat_map(|w| (*w as u32).to_be_bytes()).collect())),
        1 => arr(n),
        1 => (word64(), vec(any::<bool>(), n / 4), vec(any::<u32>(), n / 4)).prop_map(|(w, m, o)| Hx(m.iter().zip(o).flat_map(|(k, x)| if *k { w as u32 } else { x }.to_be_bytes()).collect())),
    ]
    .boxed()
}

/// Many operations on one object; the case holds only a seed.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Many {
    key: Hx,
    param: u16,
    seed: u64,
    count: u32,
}

fn many<const N: usize>(name: &str, c: &Many, l: &dyn BlockCipher<N>, enc: &dyn Fn([u8; N]) -> [u8; N], dec: &dyn Fn([u8; N]) -> [u8; N]) -> Res {
    let mut s = c.seed;
    let mut b = [0u8; N];
    for i in 0..c.count {
        let r = splitmix(&mut s);
        for (k, x) in r.to_le_bytes().iter().enumerate() {
            b[(k + (r >> 60) as usize) % N] ^= x;
        }
        let e = r >> 32 & 1 == 1;
        let (g, w) = if e { (l.encrypt(b), enc(b)) } else { (l.decrypt(b), dec(b)) };
        ensure!(g == w, format!("{name}:many"), "{name}: operation {i} on one object ({} of {}) gave {} instead of {}", if e { "encrypt" } else { "decrypt" }, short(&b), short(&g), short(&w));
        b = g;
    }
    Ok(Info::new(c.count > 65_536).label(c.count > 65_536, "more than 65536 operations on one object"))
}

fn aes_many(c: &Many) -> Res {
    let (l, r) = (aes_from_bytes(&c.key), RefAes::new(&c.key));
    many::<16>("aes", c, &l, &|b| r.enc(b), &|b| r.dec(b))
}
fn rc2_many(c: &Many) -> Res {
    let (l, r) = (cryptography::rc2::from_key(&c.key, c.param), RefRc2::new(&c.key, c.param as usize));
    many::<8>("rc2", c, &l, &|b| r.enc(b), &|b| r.dec(b))
}
fn rc5_many(c: &Many) -> Res {
    let (l, r) = (cryptography::rc5::new(&c.key, c.param as u8), RefRc5::new(&c.key, c.param as u8 as usize));
    many::<8>("rc5", c, &l, &|b| r.enc(b), &|b| r.dec(b))
}

fn fed_ops(f: &mut Feed, n: usize) -> Option<Vec<(Op, Hx)>> {
    let mut ops = vec![];
    while !f.is_empty() && ops.len() < 12 {
        ops.push((if f.u8() & 1 == 0 { Op::Enc } else { Op::Dec }, f.take(n)));
    }
    (!ops.is_empty()).then_some(ops)
}

fn aes_fed(b: &[u8]) -> Option<AesCase> {
    let f = &mut Feed(b);
    let k = f.u8();
    Some(AesCase { key: f.take(AES_KEY[k as usize % 3]), chain: k & 0x80 != 0, ops: fed_ops(f, 16)? })
}

fn rc2_fed(b: &[u8]) -> Option<Rc2Case> {
    let f = &mut Feed(b);
    let (k, bits, chain) = (f.u8() % 128, f.u16() % 1024 + 1, f.u8() & 1 == 1);
    Some(Rc2Case { key: f.take(k as usize + 1), bits, chain, ops: fed_ops(f, 8)? })
}

fn rc5_fed(b: &[u8]) -> Option<Rc5Case> {
    let f = &mut Feed(b);
    let (k, rounds, chain) = (f.u8(), f.u8(), f.u8() & 1 == 1);
    Some(Rc5Case { key: f.take(k as usize), rounds, chain, ops: fed_ops(f, 8)? })
}

pub fn c01() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("aes-bytes", "libFuzzer's bytes as key and history", 60_000, 200, || blobs(1, &[34, 42, 50, 84, 150]), aes_fed, aes_check).boxed(),
        Facet::random(
            "aes-histories",
            "random/edge-structured key of each size, a history of 1..16 encryptions and decryptions on one object (plain or chained), each compared with an independent FIPS-197 and inverted; non-trivial: key bytes not all equal",
            40_000,
            || (0usize..3, any::<bool>()).prop_flat_map(|(k, chain)| (arr(AES_KEY[k]), aes_ops(1..16), Just(chain))).prop_map(|(key, ops, chain)| AesCase { key, ops, chain }),
            aes_check,
        )
        .boxed(),
        Facet::indexed(
            "aes-key-byte-sweep",
            "every value of every key byte of every key size (other bytes generated), two blocks",
            72 * 256,
            |i| {
                let (pos, v) = ((i / 256) as usize, (i % 256) as u8);
                let (n, p) = if pos < 16 {
                    (16, pos)
                } else if pos < 40 {
                    (24, pos - 16)
                } else {
                    (32, pos - 40)
                };
                (arr(n), vec((op(), arr(16)), 2)).prop_map(move |(mut key, ops)| {
                    key.0[p] = v;
                    AesCase { key, ops, chain: false }
                })
            },
            aes_check,
        )
        .boxed(),
        Facet::indexed(
            "aes-block-byte-sweep",
            "every value of every block byte, in both directions, for every key size (other bytes generated)",
            3 * 16 * 256,
            |i| {
                let (k, p, v) = ((i / 4096) as usize, (i / 256 % 16) as usize, (i % 256) as u8);
                (arr(AES_KEY[k]), arr(16), arr(16)).prop_map(move |(key, mut a, mut b)| {
                    a.0[p] = v;
                    b.0[p] = v;
                    AesCase { key, ops: vec![(Op::Enc, a), (Op::Dec, b)], chain: false }
                })
            },
            aes_check,
        )
        .boxed(),
        Facet::random(
            "aes-chosen-states",
            "a round, and a state with zero, all-ones, one-bit or equal columns to be met there (before byte substitution or before column mixing); the block leading to it is encrypted and the ciphertext decrypted",
            30_000,
            || (0usize..3).prop_flat_map(|k| (arr(AES_KEY[k]), state(16), any::<u8>(), any::<bool>())).prop_map(|(key, state, round, before_mix)| AesInner { key, state, round, before_mix }),
            aes_inner_check,
        )
        .boxed(),
        Facet::random(
            "aes-chosen-schedules",
            "special words to be met at some place of the key schedule; the key leading to them is used on two blocks",
            20_000,
            || (0usize..3).prop_flat_map(|k| (state(AES_KEY[k]), any::<u8>(), aes_ops(2..3))).prop_map(|(words, pos, ops)| AesSchedule { words, pos, ops }),
            aes_schedule_check,
        )
        .boxed(),
        Facet::random("aes-many-uses", "70000..90000 operations on one object; non-trivial: over 65536", 1, || (0usize..3).prop_flat_map(|k| (arr(AES_KEY[k]), any::<u64>(), 70_000u32..90_000)).prop_map(|(key, seed, count)| Many { key, param: 0, seed, count }), aes_many).chunk(1).boxed(),
        Facet::random(
            "aes-long-histories",
            "chained histories of 500..1500 operations on one object",
            150,
            || (0usize..3).prop_flat_map(|k| (arr(AES_KEY[k]), aes_ops(500..1500))).prop_map(|(key, ops)| AesCase { key, ops, chain: true }),
            aes_check,
        )
        .chunk(2)
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Rc2Case {
    key: Hx,
    bits: u16,
    ops: Vec<(Op, Hx)>,
    chain: bool,
}

fn rc2_check(c: &Rc2Case) -> Res {
    let r = RefRc2::new(&c.key, c.bits as usize);
    let a = cryptography::rc2::from_key(&c.key, c.bits);
    history::<8>("rc2", &a, &|b| r.enc(b), &|b| r.dec(b), &c.ops, c.chain)?;
    Ok(Info::new(c.key.iter().any(|&b| b != 0))
        .label(c.bits % 8 != 0, "partial byte of effective bits")
        .label(c.bits as usize > 8 * c.key.len(), "effective bits above the key size")
        .label(c.key.len() == 128, "128-byte key"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct KeyOnly {
    key: Hx,
    param: u16,
}

fn rc2_refuse(c: &KeyOnly) -> Res {
    let bad = c.key.is_empty() || c.key.len() > 128 || c.param == 0 || c.param > 1024;
    let r = attempt(|| cryptography::rc2::from_key(&c.key, c.param));
    ensure!(r.is_err() == bad, "rc2:range", "RC2 with a {}-byte key and {} effective bits was {}", c.key.len(), c.param, if bad { "accepted" } else { "refused" });
    Ok(Info::new(bad))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Rc2Inner {
    key: Hx,
    bits: u16,
    words: [u16; 4],
    steps: u8,
}

fn rc2_inner_check(c: &Rc2Inner) -> Res {
    let r = RefRc2::new(&c.key, c.bits as usize);
    let b = r.block_meeting(c.words, c.steps as usize % 73);
    let ct = r.enc(b);
    rc2_check(&Rc2Case { key: c.key.clone(), bits: c.bits, ops: vec![(Op::Enc, Hx(b.to_vec())), (Op::Dec, Hx(ct.to_vec()))], chain: false })
}

fn word16() -> BoxedStrategy<u16> {
    prop_oneof![2 => word64().prop_map(|w| w as u16), 1 => (0u16..64).prop_map(|k| k), 1 => any::<u16>()].boxed()
}

pub fn c02() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("rc2-bytes", "libFuzzer's bytes as key, effective size and history", 60_000, 260, || blobs(2, &[30, 60, 100, 160]).into_iter().chain([vec![15, 127, 0, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 0, 1, 2, 3, 4, 5, 6, 7, 8]]).collect(), rc2_fed, rc2_check).boxed(),
        Facet::indexed(
            "rc2-grid",
            "every key length 1..=128 with every effective size 1..=1024, generated key and blocks; non-trivial: key not all zero",
            128 * 1024,
            |i| (arr((i / 1024) as usize + 1), vec((op(), arr(8)), 2)).prop_map(move |(key, ops)| Rc2Case { key, bits: (i % 1024) as u16 + 1, ops, chain: false }),
            rc2_check,
        )
        .boxed(),
        Facet::random(
            "rc2-histories",
            "generated key, effective size and a history of operations on one object",
            60_000,
            || (bytes(1usize..=128), 1u16..=1024, vec((op(), arr(8)), 1..24), any::<bool>()).prop_map(|(key, bits, ops, chain)| Rc2Case { key, bits, ops, chain }),
            rc2_check,
        )
        .boxed(),
        Facet::indexed(
            "rc2-block-byte-sweep",
            "every value of every block byte in both directions, generated key and size",
            8 * 256,
            |i| {
                (bytes(1usize..=128), 1u16..=1024, arr(8), arr(8)).prop_map(move |(key, bits, mut a, mut b)| {
                    a.0[(i / 256) as usize] = i as u8;
                    b.0[(i / 256) as usize] = i as u8;
                    Rc2Case { key, bits, ops: vec![(Op::Enc, a), (Op::Dec, b)], chain: false }
                })
            },
            rc2_check,
        )
        .boxed(),
        Facet::random(
            "rc2-chosen-states",
            "four words (zero, all ones, one bit, small, arbitrary) to be met after some of the 72 steps; the block leading to them is encrypted and the ciphertext decrypted; half of the keys have 128 bytes and full effective size, so that their words are the round keys",
            40_000,
            || {
                prop_oneof![(bytes(1usize..=128), 1u16..=1024), (state(128), Just(1024u16))]
                    .prop_flat_map(|(key, bits)| (Just(key), Just(bits), [word16(), word16(), word16(), word16()], any::<u8>()))
                    .prop_map(|(key, bits, words, steps)| Rc2Inner { key, bits, words, steps })
            },
            rc2_inner_check,
        )
        .boxed(),
        Facet::random("rc2-many-uses", "70000..90000 operations on one object; non-trivial: over 65536", 1, || (bytes(1usize..=128), 1u16..=1024, any::<u64>(), 70_000u32..90_000).prop_map(|(key, param, seed, count)| Many { key, param, seed, count }), rc2_many).chunk(1).boxed(),
        Facet::random(
            "rc2-ranges",
            "key lengths 0, 1..=128 and 129..=300 with effective sizes in and out of range; refused exactly when out of range (non-trivial: out of range)",
            20_000,
            || {
                (
                    prop_oneof![1 => Just(0usize), 2 => 1usize..=128, 1 => Just(128), 1 => Just(129), 2 => 129usize..=300].prop_flat_map(arr),
                    prop_oneof![1 => Just(0u16), 3 => 1u16..=1024, 1 => Just(1024), 1 => Just(1025), 2 => 1025u16..=65535, 1 => 65500u16..=65535],
                )
                    .prop_map(|(key, param)| KeyOnly { key, param })
            },
            rc2_refuse,
        )
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Rc5Case {
    key: Hx,
    rounds: u8,
    ops: Vec<(Op, Hx)>,
    chain: bool,
}

fn rc5_check(c: &Rc5Case) -> Res {
    let r = RefRc5::new(&c.key, c.rounds as usize);
    let a = cryptography::rc5::new(&c.key, c.rounds);
    history::<8>("rc5", &a, &|b| r.enc(b), &|b| r.dec(b), &c.ops, c.chain)?;
    Ok(Info::new(!c.ops.is_empty())
        .label(c.key.len() % 4 != 0, "partial key word")
        .label(c.key.is_empty(), "empty key")
        .label(c.rounds == 0, "zero rounds")
        .label(c.key.len().div_ceil(4) > 2 * (c.rounds as usize + 1), "more key words than subkeys"))
}

fn rc5_refuse(c: &KeyOnly) -> Res {
    let bad = c.key.len() > 255;
    let r = attempt(|| cryptography::rc5::new(&c.key, c.param as u8));
    ensure!(r.is_err() == bad, "rc5:range", "RC5 with a {}-byte key and {} rounds was {}", c.key.len(), c.param as u8, if bad { "accepted" } else { "refused" });
    Ok(Info::new(bad))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Rc5Inner {
    key: Hx,
    rounds: u8,
    a: u32,
    b: u32,
    half: u16,
}

fn rc5_inner_check(c: &Rc5Inner) -> Res {
    let r = RefRc5::new(&c.key, c.rounds as usize);
    let b = r.block_meeting(c.a, c.b, c.half as usize % (2 * c.rounds as usize + 1));
    let ct = r.enc(b);
    rc5_check(&Rc5Case { key: c.key.clone(), rounds: c.rounds, ops: vec![(Op::Enc, Hx(b.to_vec())), (Op::Dec, Hx(ct.to_vec()))], chain: false })
}

pub fn c04() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("rc5-bytes", "libFuzzer's bytes as key, rounds and history", 50_000, 400, || blobs(3, &[30, 60, 160, 300]).into_iter().chain([vec![8, 12, 0, 1, 2, 3, 4, 5, 6, 7, 8, 0, 1, 2, 3, 4, 5, 6, 7, 8]]).collect(), rc5_fed, rc5_check).boxed(),
        Facet::indexed(
            "rc5-grid",
            "every key length 0..=255 with every round count 0..=255, generated key and blocks",
            256 * 256,
            |i| (arr((i / 256) as usize), vec((op(), arr(8)), 2)).prop_map(move |(key, ops)| Rc5Case { key, rounds: i as u8, ops, chain: false }),
            rc5_check,
        )
        .boxed(),
        Facet::random(
            "rc5-histories",
            "generated key, round count and a history of operations on one object",
            40_000,
            || (bytes(0usize..=255), prop_oneof![0u8..=20, any::<u8>()], vec((op(), arr(8)), 1..24), any::<bool>()).prop_map(|(key, rounds, ops, chain)| Rc5Case { key, rounds, ops, chain }),
            rc5_check,
        )
        .boxed(),
        Facet::random(
            "rc5-few-rounds",
            "0..=3 rounds, where the exact data-dependent rotations show through",
            60_000,
            || (bytes(0usize..=16), 0u8..=3, vec((op(), arr(8)), 4), any::<bool>()).prop_map(|(key, rounds, ops, chain)| Rc5Case { key, rounds, ops, chain }),
            rc5_check,
        )
        .boxed(),
        Facet::random(
            "rc5-chosen-states",
            "two words (zero, all ones, one bit, equal, small, arbitrary) to be met after some half-round; the block leading to them is encrypted and the ciphertext decrypted",
            60_000,
            || {
                (bytes(0usize..=255), prop_oneof![3 => 0u8..=20, 1 => any::<u8>()], word64(), word64(), 0u8..5, any::<u16>()).prop_map(|(key, rounds, a, b, k, half)| {
                    let (a, b) = match k {
                        0 => (a as u32, a as u32),
                        1 => (a as u32 & !31, b as u32),
                        2 => (a as u32, b as u32 & !31),
                        _ => (a as u32, b as u32),
                    };
                    Rc5Inner { key, rounds, a, b, half }
                })
            },
            rc5_inner_check,
        )
        .boxed(),
        Facet::random("rc5-many-uses", "70000..90000 operations on one object; non-trivial: over 65536", 1, || (bytes(0usize..=255), 0u16..=20, any::<u64>(), 70_000u32..90_000).prop_map(|(key, param, seed, count)| Many { key, param, seed, count }), rc5_many).chunk(1).boxed(),
        Facet::random(
            "rc5-ranges",
            "key lengths 0..=600 and some beyond 65535; refused exactly above 255 bytes (non-trivial: above)",
            8_000,
            || (prop_oneof![3 => 0usize..=600, 1 => 250usize..=260, 1 => 65530usize..=65800], any::<u8>()).prop_flat_map(|(n, r)| (arr(n), Just(r as u16))).prop_map(|(key, param)| KeyOnly { key, param }),
            rc5_refuse,
        )
        .boxed(),
    ]
}
