//! C09 MD2/MD4/MD5, C10 SHA-1/224/256, C11 SHA-384/512, C12 digest values.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::{md, sha as rs};
use cryptography::sha::*;
use hex::FromHex;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::{LinkedList, VecDeque};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ C09

const MD: [&str; 3] = ["md2", "md4", "md5"];
pub const SHA: [&str; 5] = ["sha1", "sha224", "sha256", "sha384", "sha512"];

fn md_lib<'a>(a: u8, d: impl IntoIterator<Item = &'a u8>) -> [u8; 16] {
    match a {
        0 => cryptography::md2(d),
        1 => cryptography::md4(d),
        _ => cryptography::md5(d),
    }
}
pub fn md_ref(a: u8, d: &[u8]) -> [u8; 16] {
    match a {
        0 => md::md2(d),
        1 => md::md4(d),
        _ => md::md5(d),
    }
}

/// An iterator that claims nothing about its length.
struct Opaque<'a>(&'a [u8]);
impl<'a> Iterator for Opaque<'a> {
    type Item = &'a u8;
    fn next(&mut self) -> Option<&'a u8> {
        let (f, r) = self.0.split_first()?;
        self.0 = r;
        Some(f)
    }
}

pub const SHAPES: u8 = 8;

pub fn md_shaped(a: u8, m: &[u8], shape: u8) -> [u8; 16] {
    let mid = m.len() / 3;
    match shape % SHAPES {
        0 => md_lib(a, m),
        1 => md_lib(a, &m.to_vec()),
        2 => md_lib(a, m[..mid].iter().chain(&m[mid..])),
        3 => md_lib(a, m.iter().filter(|_| true)),
        4 => md_lib(a, &m.iter().copied().collect::<VecDeque<u8>>()),
        5 => md_lib(a, &m.iter().copied().collect::<LinkedList<u8>>()),
        6 => md_lib(a, Opaque(m)),
        _ => md_lib(a, m.chunks(5).flatten()),
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct MdCase {
    alg: u8,
    shape: u8,
    msg: Msg,
}

fn md_check(c: &MdCase) -> Res {
    let m = c.msg.expand();
    let want = md_ref(c.alg, &m);
    let got = md_shaped(c.alg, &m, c.shape);
    let n = MD[c.alg as usize];
    ensure!(got == want, n.to_string(), "{n} of {} ({} bytes, iterator shape {}) is {}, the RFC gives {}", short(&m), m.len(), c.shape, short(&got), short(&want));
    let b = if c.alg == 0 { 16 } else { 64 };
    Ok(Info::new(!m.is_empty())
        .label(m.len() % b == 0, "whole blocks")
        .label(c.alg != 0 && m.len() % 64 >= 56, "length does not fit the last block")
        .label(m.len() > b, "several blocks")
        .label(c.shape != 0, "not a slice"))
}

/// data[i] = i mod 251, of `len` bytes
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Huge {
    alg: String,
    len: u64,
    digest: String,
}

/// A shared buffer of at least `len` bytes of the pattern.
fn pattern(len: u64) -> Arc<Vec<u8>> {
    static P: Mutex<Option<Arc<Vec<u8>>>> = Mutex::new(None);
    let mut g = P.lock().unwrap();
    if let Some(v) = &*g {
        if v.len() as u64 >= len {
            return v.clone();
        }
    }
    *g = None;
    let p: Vec<u8> = (0..251u8).collect();
    let base = p.repeat(251);
    let mut v = Vec::with_capacity(len as usize + base.len());
    while (v.len() as u64) < len {
        v.extend_from_slice(&base);
    }
    let v = Arc::new(v);
    *g = Some(v.clone());
    v
}

pub fn sha_lib(a: &str, m: &[u8]) -> Vec<u8> {
    match a {
        "sha1" => <[u8; 20]>::from(sha1(m)).to_vec(),
        "sha224" => <[u8; 28]>::from(sha224(m)).to_vec(),
        "sha256" => <[u8; 32]>::from(sha256(m)).to_vec(),
        "sha384" => <[u8; 48]>::from(sha384(m)).to_vec(),
        _ => <[u8; 64]>::from(sha512(m)).to_vec(),
    }
}
pub fn sha_ref(a: &str, m: &[u8]) -> Vec<u8> {
    match a {
        "sha1" => rs::sha1(m),
        "sha224" => rs::sha224(m),
        "sha256" => rs::sha256(m),
        "sha384" => rs::sha384(m),
        _ => rs::sha512(m),
    }
}

/// The largest messages are hashed one at a time: an implementation may well copy its input.
static LARGEST: std::sync::Mutex<()> = std::sync::Mutex::new(());

fn huge_check(c: &Huge) -> Res {
    let _one = (c.len >= 1 << 31).then(|| LARGEST.lock().unwrap_or_else(|p| p.into_inner()));
    let want = hex::decode(&c.digest).unwrap();
    let got = match c.alg.as_str() {
        a @ ("md2" | "md4" | "md5") => {
            let base: Vec<u8> = (0..251u8).collect();
            let it = base.iter().cycle().take(c.len as usize);
            match a {
                "md2" => cryptography::md2(it),
                "md4" => cryptography::md4(it),
                _ => cryptography::md5(it),
            }
            .to_vec()
        }
        a => sha_lib(a, &pattern(c.len)[..c.len as usize]),
    };
    ensure!(got == want, format!("{}:huge", c.alg), "{} of the {}-byte message i mod 251 is {}, OpenSSL gives {}", c.alg, c.len, hex::encode(&got), c.digest);
    Ok(Info::new(true).label(c.len >= 1 << 29, "2^29 bytes or more").label(c.len >= 1 << 32, "2^32 bytes or more"))
}

fn huge(algs: &'static [&'static str], quick: u64) -> Box<dyn DynFacet> {
    let all: Vec<Huge> = include_str!("huge.txt")
        .lines()
        .map(|l| {
            let f: Vec<&str> = l.split_whitespace().collect();
            Huge { alg: f[0].into(), len: f[1].parse().unwrap(), digest: f[2].into() }
        })
        .filter(|h| algs.contains(&h.alg.as_str()))
        .collect();
    // most telling lengths first: above 2^29, above 2^32, then the others
    let mut all = all;
    all.sort_by_key(|h| (![(1u64 << 32) + 123, (1 << 29) + 5].contains(&h.len), ["sha224", "sha384"].contains(&h.alg.as_str()) && h.len > 1 << 31, std::cmp::Reverse(h.len)));
    let total = all.len() as u64;
    let mut f = Facet::indexed(
        "huge-messages",
        "messages around and above 2^29 and 2^32 bytes, where the bit length needs more than 32 bits; digests from OpenSSL",
        total,
        move |i| Just(all[i as usize].clone()),
        huge_check,
    )
    .release_only()
    .limit(700)
    .chunk(1)
    .thorough(total);
    f.quick = quick;
    f.boxed()
}

/// A message whose first block leads the computation through chosen values.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Steered {
    alg: u8,
    aims: [rs::Aim; 16],
    tail: Msg,
}

fn aim() -> BoxedStrategy<rs::Aim> {
    prop_oneof![
        2 => word64().prop_map(rs::Aim::Word),
        3 => word64().prop_map(rs::Aim::A),
        2 => word64().prop_map(rs::Aim::E),
        1 => (0u8..8).prop_map(rs::Aim::Same),
        2 => any::<u64>().prop_map(rs::Aim::Word),
    ]
    .boxed()
}

fn aims() -> BoxedStrategy<[rs::Aim; 16]> {
    proptest::collection::vec(aim(), 16).prop_map(|v| v.try_into().unwrap()).boxed()
}

fn md_steered(c: &Steered) -> Res {
    let mut m = md::steer(c.alg, &c.aims);
    m.extend(c.tail.expand());
    md_check(&MdCase { alg: c.alg, shape: 0, msg: Msg::Raw(Hx(m)) })
}

fn sha_steered(c: &Steered) -> Res {
    let alg = SHA[c.alg as usize];
    let mut m = rs::steer(alg, &c.aims);
    m.extend(c.tail.expand());
    sha_check(&ShaCase { alg: alg.into(), msg: Msg::Raw(Hx(m)) })
}

/// A message whose expanded schedule holds chosen words.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Scheduled {
    alg: u8,
    words: [u64; 16],
    pos: u8,
    tail: Msg,
}

fn sha_scheduled(c: &Scheduled) -> Res {
    let alg = SHA[c.alg as usize];
    let mut m = rs::schedule(alg, &c.words, c.pos as usize % 65);
    m.extend(c.tail.expand());
    sha_check(&ShaCase { alg: alg.into(), msg: Msg::Raw(Hx(m)) })
}

fn md_fed(b: &[u8]) -> Option<MdCase> {
    let [a, s, m @ ..] = b else { return None };
    Some(MdCase { alg: a % 3, shape: *s, msg: Msg::Raw(Hx(m.to_vec())) })
}

fn msg_seeds() -> Vec<Vec<u8>> {
    blobs(5, &[2, 5, 17, 18, 19, 57, 58, 60, 65, 66, 67, 113, 115, 129, 130, 131, 200, 260]).into_iter().chain([vec![0; 66], vec![255; 130]]).collect()
}

pub fn c09() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("md-bytes", "libFuzzer's bytes as algorithm, iterator and message", 80_000, 300, msg_seeds, md_fed, md_check).boxed(),
        Facet::indexed(
            "md-lengths",
            "every length 0..=1100 with every algorithm and iterator shape, generated contents; non-trivial: not empty",
            1101 * 3 * SHAPES as u64,
            |i| msg_of_len((i / (3 * SHAPES as u64)) as usize).prop_map(move |msg| MdCase { alg: (i % 3) as u8, shape: (i / 3 % SHAPES as u64) as u8, msg }),
            md_check,
        )
        .boxed(),
        Facet::random(
            "md-messages",
            "generated messages up to 4 kB with weight around block boundaries",
            60_000,
            || (0u8..3, 0..SHAPES, prop_oneof![4 => msg(len_near(64, 700)), 1 => msg(len_near(64, 4096))]).prop_map(|(alg, shape, msg)| MdCase { alg, shape, msg }),
            md_check,
        )
        .boxed(),
        Facet::random(
            "md-long",
            "messages of 60 kB to 2 MB, and of 2^10..=2^20 bytes and a few more or less",
            100,
            || (0u8..3, 0..SHAPES, 0..KINDS, any::<u64>(), prop_oneof![60_000usize..140_000, 1_000_000usize..2_000_000, len_pow2(10, 20)]).prop_map(|(alg, shape, kind, seed, len)| MdCase { alg, shape, msg: Msg::Fill { kind, seed, len } }),
            md_check,
        )
        .chunk(1)
        .boxed(),
        Facet::random(
            "md-steered",
            "first block chosen so that the steps of its first round meet zero, all-ones, one-bit or repeated registers (MD2: checksum bytes)",
            30_000,
            || (0u8..3, aims(), msg(0usize..=130)).prop_map(|(alg, aims, tail)| Steered { alg, aims, tail }),
            md_steered,
        )
        .boxed(),
        huge(&["md2", "md4", "md5"], 5),
    ]
}

// ------------------------------------------------------------------ C10, C11

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ShaCase {
    alg: String,
    msg: Msg,
}

fn sha_check(c: &ShaCase) -> Res {
    let m = c.msg.expand();
    let want = sha_ref(&c.alg, &m);
    let got = sha_lib(&c.alg, &m);
    ensure!(got == want, c.alg.clone(), "{} of {} ({} bytes) is {}, FIPS 180-4 gives {}", c.alg, short(&m), m.len(), hex::encode(&got), hex::encode(&want));
    let b = if matches!(c.alg.as_str(), "sha384" | "sha512") { 128 } else { 64 };
    Ok(Info::new(!m.is_empty())
        .label(m.len() % b == 0, "whole blocks")
        .label(m.len() % b >= b - b / 8, "length does not fit the last block")
        .label(m.len() > b, "several blocks"))
}

fn sha_fed32(b: &[u8]) -> Option<ShaCase> {
    let (a, m) = b.split_first()?;
    Some(ShaCase { alg: SHA[*a as usize % 3].into(), msg: Msg::Raw(Hx(m.to_vec())) })
}

fn sha_fed64(b: &[u8]) -> Option<ShaCase> {
    let (a, m) = b.split_first()?;
    Some(ShaCase { alg: SHA[3 + *a as usize % 2].into(), msg: Msg::Raw(Hx(m.to_vec())) })
}

fn sha_facets(algs: &'static [&'static str], b: usize, quick_huge: u64) -> Vec<Box<dyn DynFacet>> {
    let k = algs.len() as u64;
    let max = 12 * b as u64;
    let fed: fn(&[u8]) -> Option<ShaCase> = if b == 64 { sha_fed32 } else { sha_fed64 };
    vec![
        Facet::fuzzed("sha-bytes", "libFuzzer's bytes as algorithm and message", 80_000, 300, msg_seeds, fed, sha_check).boxed(),
        Facet::indexed(
            "sha-lengths",
            "every length 0..=12 blocks with every algorithm, eight generated contents each; non-trivial: not empty",
            (max + 1) * k * 8,
            move |i| msg_of_len((i / (8 * k)) as usize).prop_map(move |msg| ShaCase { alg: algs[(i % k) as usize].into(), msg }),
            sha_check,
        )
        .boxed(),
        Facet::random(
            "sha-messages",
            "generated messages up to 8 kB with weight around block boundaries",
            60_000,
            move || (select(algs.to_vec()), prop_oneof![4 => msg(len_near(b, 6 * b)), 1 => msg(len_near(b, 8192))]).prop_map(|(alg, msg)| ShaCase { alg: alg.into(), msg }),
            sha_check,
        )
        .boxed(),
        Facet::random(
            "sha-long",
            "messages of 60 kB to 4 MB, and of 2^10..=2^21 bytes and a few more or less",
            100,
            move || (select(algs.to_vec()), 0..KINDS, any::<u64>(), prop_oneof![60_000usize..140_000, 1_000_000usize..4_000_000, len_pow2(10, 21)]).prop_map(|(alg, kind, seed, len)| ShaCase { alg: alg.into(), msg: Msg::Fill { kind, seed, len } }),
            sha_check,
        )
        .chunk(1)
        .boxed(),
        Facet::random(
            "sha-steered",
            "first block chosen so that its first sixteen steps meet zero, all-ones, one-bit or repeated registers",
            30_000,
            move || (select(algs.to_vec()), aims(), msg(0usize..=260)).prop_map(|(alg, aims, tail)| Steered { alg: SHA.iter().position(|a| *a == alg).unwrap() as u8, aims, tail }),
            sha_steered,
        )
        .boxed(),
        Facet::random(
            "sha-scheduled",
            "first block chosen so that the expanded message schedule holds sixteen special words at a chosen place",
            20_000,
            move || (select(algs.to_vec()), proptest::collection::vec(word64(), 16), any::<u8>(), msg(0usize..=260)).prop_map(|(alg, w, pos, tail)| Scheduled { alg: SHA.iter().position(|a| *a == alg).unwrap() as u8, words: w.try_into().unwrap(), pos, tail }),
            sha_scheduled,
        )
        .boxed(),
        huge(algs, quick_huge),
    ]
}

pub fn c10() -> Vec<Box<dyn DynFacet>> {
    sha_facets(&["sha1", "sha224", "sha256"], 64, 5)
}

pub fn c11() -> Vec<Box<dyn DynFacet>> {
    sha_facets(&["sha384", "sha512"], 128, 3)
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct DigestCase {
    width: usize,
    bytes: Hx,
    other: Hx,
    upper: u64,
}

fn w32<const W: usize>(b: &[u8]) -> [u32; W] {
    std::array::from_fn(|i| b[4 * i..4 * i + 4].iter().fold(0, |a, &x| a << 8 | x as u32))
}
fn w64<const W: usize>(b: &[u8]) -> [u64; W] {
    std::array::from_fn(|i| b[8 * i..8 * i + 8].iter().fold(0, |a, &x| a << 8 | x as u64))
}

fn mixed_hex(b: &[u8], upper: u64) -> String {
    let mut s = upper;
    hex::encode(b).chars().map(|c| if splitmix(&mut s) & 1 == 1 && upper != 0 { c.to_ascii_uppercase() } else { c }).collect()
}

macro_rules! width_check {
    ($c:expr, $h:ty, $n:literal, $w:literal, $word:ty, $split:ident) => {{
        let c = $c;
        let words: [$word; $w] = $split(&c.bytes);
        let name = concat!("Hash", stringify!($n));
        let v = <$h>::from(words);
        let by: [u8; $n] = v.clone().into();
        ensure!(by[..] == c.bytes[..], format!("{name}:bytes"), "{name} from words {words:x?} gives bytes {}", short(&by));
        let back: [$word; $w] = v.clone().into();
        ensure!(back == words, format!("{name}:words"), "{name} from words {words:x?} converts back to {back:x?}");
        let text = mixed_hex(&c.bytes, c.upper);
        for t in [hex::encode(&c.bytes[..]), hex::encode_upper(&c.bytes[..]), text] {
            match <$h>::from_hex(&t) {
                Ok(p) => ensure!(p == v && <[u8; $n]>::from(p.clone())[..] == c.bytes[..], format!("{name}:hex"), "{name} parsed from {t} is {p:?}"),
                Err(e) => ensure!(false, format!("{name}:hex"), "{name} does not parse {t}: {e}"),
            }
        }
        let o = <$h>::from_hex(hex::encode(&c.other[..]));
        match o {
            Ok(o) => ensure!((o == v) == (c.other == c.bytes), format!("{name}:eq"), "{name}: {o:?} == {v:?} is {}", o == v),
            Err(e) => ensure!(false, format!("{name}:hex"), "{name} does not parse {}: {e}", short(&c.other)),
        }
        Ok::<(), Fail>(())
    }};
}

fn digest_check(c: &DigestCase) -> Res {
    match c.width {
        20 => width_check!(c, Hash160, 20, 5, u32, w32),
        28 => width_check!(c, Hash224, 28, 7, u32, w32),
        32 => width_check!(c, Hash256, 32, 8, u32, w32),
        48 => width_check!(c, Hash384, 48, 6, u64, w64),
        _ => width_check!(c, Hash512, 64, 8, u64, w64),
    }?;
    let d = c.bytes.iter().zip(c.other.iter()).filter(|(a, b)| a != b).count();
    Ok(Info::new(c.bytes.iter().any(|&b| b != c.bytes[0])).label(d == 0, "equal pair").label(d == 1, "pair differing in one byte"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct HexCase {
    width: usize,
    text: Hx,
}

/// A digest's hex text with `more` digits after it.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct LongText {
    width: usize,
    head: Hx,
    more: usize,
    digit: u8,
}

fn hex_val(c: u8) -> Option<u8> {
    match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    }
}

fn hex_check(c: &HexCase) -> Res {
    let want: Option<Vec<u8>> = (c.text.len() == 2 * c.width).then(|| c.text.chunks(2).map(|p| Some(hex_val(p[0])? << 4 | hex_val(p[1])?)).collect()).flatten();
    let got: Option<Vec<u8>> = match c.width {
        20 => Hash160::from_hex(&c.text[..]).ok().map(|h| <[u8; 20]>::from(h).to_vec()),
        28 => Hash224::from_hex(&c.text[..]).ok().map(|h| <[u8; 28]>::from(h).to_vec()),
        32 => Hash256::from_hex(&c.text[..]).ok().map(|h| <[u8; 32]>::from(h).to_vec()),
        48 => Hash384::from_hex(&c.text[..]).ok().map(|h| <[u8; 48]>::from(h).to_vec()),
        _ => Hash512::from_hex(&c.text[..]).ok().map(|h| <[u8; 64]>::from(h).to_vec()),
    };
    ensure!(got == want, format!("hex:{}", c.width), "{:?} ({} characters) parsed as a {}-byte digest gives {:?}, expected {:?}", String::from_utf8_lossy(&c.text[..c.text.len().min(300)]), c.text.len(), c.width, got.map(hex::encode), want.map(hex::encode));
    Ok(Info::new(true)
        .label(want.is_some(), "valid")
        .label(want.is_none() && c.text.len() == 2 * c.width, "right length, bad character")
        .label(c.text.len() % 2 == 1, "odd length")
        .label(c.text.len() != 2 * c.width, "wrong length"))
}

const WIDTHS: [usize; 5] = [20, 28, 32, 48, 64];

fn hex_fed(b: &[u8]) -> Option<HexCase> {
    let (w, t) = b.split_first()?;
    Some(HexCase { width: WIDTHS[*w as usize % 5], text: Hx(t.to_vec()) })
}

fn digest_fed(b: &[u8]) -> Option<DigestCase> {
    let f = &mut Feed(b);
    let (w, k) = (WIDTHS[f.u8() as usize % 5], f.u8());
    let bytes = f.take(w);
    let mut other = bytes.clone();
    other.0[k as usize % w] ^= f.u8();
    Some(DigestCase { width: w, bytes, other, upper: f.u8() as u64 })
}

pub fn c12() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("hex-bytes", "libFuzzer's bytes as the text of a digest", 150_000, 160, || (0u8..5).flat_map(|i| { let w = 2 * WIDTHS[i as usize]; [w, w, w - 1, w + 1, w + 2, 0].map(|n| [vec![i], b"0123456789abcdefABCDEF".iter().copied().cycle().take(n).collect()].concat()) }).collect(), hex_fed, hex_check).boxed(),
        Facet::fuzzed("digest-bytes", "libFuzzer's bytes as digest and change", 60_000, 70, || (0u8..5).map(|i| { let mut v = blobs(i as u64, &[68])[0].clone(); v[0] = i; v }).collect(), digest_fed, digest_check).boxed(),
        Facet::random(
            "digest-conversions",
            "bytes of each width: words to value, to bytes, to words, hex in lower, upper and mixed case; equality with a second value that is equal, differs in one byte, or is arbitrary; non-trivial: bytes not all equal",
            120_000,
            || {
                select(WIDTHS.to_vec())
                    .prop_flat_map(|w| (Just(w), arr(w), arr(w), 0usize..3, any::<usize>(), 1u8.., prop_oneof![1 => Just(0u64), 3 => any::<u64>()]))
                    .prop_map(|(width, bytes, o, k, at, x, upper)| {
                        let other = match k {
                            0 => bytes.clone(),
                            1 => {
                                let mut v = bytes.clone();
                                v.0[at % width] ^= x;
                                v
                            }
                            _ => o,
                        };
                        DigestCase { width, bytes, other, upper }
                    })
            },
            digest_check,
        )
        .boxed(),
        Facet::indexed(
            "digest-byte-sweep",
            "every value of every byte of every width",
            WIDTHS.iter().map(|w| *w as u64 * 256).sum(),
            |mut i| {
                let mut k = 0;
                while i >= WIDTHS[k] as u64 * 256 {
                    i -= WIDTHS[k] as u64 * 256;
                    k += 1;
                }
                let w = WIDTHS[k];
                (arr(w), 1u8..).prop_map(move |(mut bytes, x)| {
                    bytes.0[(i / 256) as usize] = i as u8;
                    let mut other = bytes.clone();
                    other.0[(i / 256) as usize] ^= x;
                    DigestCase { width: w, bytes, other, upper: i }
                })
            },
            digest_check,
        )
        .boxed(),
        Facet::random(
            "digest-hex-text",
            "text of hex digits with one inserted, removed, replaced (any byte, including non-ASCII) or none, whole lengths of other widths, and arbitrary bytes; value or error decided by definition",
            80_000,
            || {
                select(WIDTHS.to_vec()).prop_flat_map(|w| {
                    let valid = (arr(w), any::<u64>()).prop_map(|(b, u)| mixed_hex(&b, u).into_bytes());
                    let near = (arr(w), any::<u64>(), any::<usize>(), any::<u8>(), 0usize..4).prop_map(|(b, u, at, ch, k)| {
                        let mut t = mixed_hex(&b, u).into_bytes();
                        let n = t.len();
                        match k {
                            0 => t.insert(at % (n + 1), b'0' + ch % 10),
                            1 => {
                                t.remove(at % n);
                            }
                            2 => t[at % n] = ch,
                            _ => t[at % n] = [b'g', b'G', b' ', b'/', b':', b'@', b'`', 0, b'\n', b'x', b'-', b'+'][ch as usize % 12],
                        }
                        t
                    });
                    let len = (0usize..=140, any::<u64>()).prop_map(|(n, s)| {
                        let mut s = s;
                        (0..n).map(|_| b"0123456789abcdefABCDEF"[splitmix(&mut s) as usize % 22]).collect::<Vec<u8>>()
                    });
                    let other = select(WIDTHS.to_vec()).prop_flat_map(arr).prop_map(|b| hex::encode(&b[..]).into_bytes());
                    let pre = arr(w).prop_map(|b| format!("0x{}", hex::encode(&b[..])).into_bytes());
                    prop_oneof![2 => valid.boxed(), 4 => near.boxed(), 2 => len.boxed(), 1 => other.boxed(), 1 => pre.boxed(), 1 => small_bytes(140).prop_map(|h| h.0).boxed()].prop_map(move |t| HexCase { width: w, text: Hx(t) })
                })
            },
            hex_check,
        )
        .boxed(),
        Facet::indexed(
            "digest-long-texts",
            "hex text of a digest followed by 2^8, 2^9, 2^15, 2^16, 2^17, 2^20 and 2^24 more digits (and twice as many, and one more): refused with an error",
            5 * 7 * 3,
            |i| {
                let w = WIDTHS[i as usize % 5];
                let more = [8, 9, 15, 16, 17, 20, 24][i as usize / 5 % 7];
                let d = i as usize / 35;
                (arr(w), any::<u8>()).prop_map(move |(b, x)| LongText { width: w, head: b, more: (1usize << more) * [1, 2, 1][d] + [0, 0, 1][d], digit: b"0123456789abcdefABCDEF"[x as usize % 22] })
            },
            |c| hex_check(&HexCase { width: c.width, text: Hx([hex::encode(&c.head[..]).into_bytes(), vec![c.digit; c.more]].concat()) }),
        )
        .chunk(4)
        .boxed(),
        Facet::random(
            "digest-of-functions",
            "the value returned by each SHA function: bytes, words and hex agree with the reference digest",
            20_000,
            || (select(vec!["sha1", "sha224", "sha256", "sha384", "sha512"]), msg(len_near(64, 400))).prop_map(|(a, msg)| ShaCase { alg: a.into(), msg }),
            fn_digest_check,
        )
        .boxed(),
    ]
}

fn fn_digest_check(c: &ShaCase) -> Res {
    let m = c.msg.expand();
    let want = sha_ref(&c.alg, &m);
    let ok = match c.alg.as_str() {
        "sha1" => sha1(&m) == Hash160::from(w32(&want)) && <[u32; 5]>::from(sha1(&m)) == w32(&want),
        "sha224" => sha224(&m) == Hash224::from(w32(&want)) && <[u32; 7]>::from(sha224(&m)) == w32(&want),
        "sha256" => sha256(&m) == Hash256::from(w32(&want)) && <[u32; 8]>::from(sha256(&m)) == w32(&want),
        "sha384" => sha384(&m) == Hash384::from(w64(&want)) && <[u64; 6]>::from(sha384(&m)) == w64(&want),
        _ => sha512(&m) == Hash512::from(w64(&want)) && <[u64; 8]>::from(sha512(&m)) == w64(&want),
    };
    ensure!(ok, format!("{}:value", c.alg), "the value returned by {} of {} does not equal / convert to the digest's words", c.alg, short(&m));
    Ok(Info::new(!m.is_empty()))
}
