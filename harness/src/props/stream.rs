//! C03 RC4 key stream, C08 stream encryption of split messages.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::rc::RefRc4;
use cryptography::StreamCipher;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::rc::Rc;

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Use {
    Next(usize),
    Take(usize),
    Nth(usize),
    SkipNext(usize),
    StepBy(usize, usize),
    FoldSome(usize),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Rc4Case {
    key: Hx,
    uses: Vec<Use>,
    msg: Msg,
}

/// Consumes the key stream through the given iterator operations, then encrypts the message from
/// the position reached.
fn rc4_check(c: &Rc4Case) -> Res {
    let mut ks = cryptography::rc4::new(&c.key);
    let mut r = RefRc4::new(&c.key);
    let mut pos = 0usize;
    for (i, u) in c.uses.iter().enumerate() {
        let (got, want): (Vec<u8>, Vec<u8>) = match *u {
            Use::Next(n) => {
                pos += n;
                ((0..n).map(|_| ks.next().unwrap()).collect(), (0..n).map(|_| r.byte()).collect())
            }
            Use::Take(n) => {
                pos += n;
                (ks.by_ref().take(n).collect(), (0..n).map(|_| r.byte()).collect())
            }
            Use::Nth(n) => {
                pos += n + 1;
                (vec![ks.nth(n).unwrap()], vec![(0..=n).map(|_| r.byte()).last().unwrap()])
            }
            Use::SkipNext(n) => {
                pos += n + 1;
                (vec![ks.by_ref().skip(n).next().unwrap()], vec![(0..=n).map(|_| r.byte()).last().unwrap()])
            }
            Use::StepBy(k, n) => {
                // takes n elements, then brings the stream to a whole number of steps
                let k = k.max(1);
                let total = 1 + (n.max(1) - 1) * k;
                pos += total;
                (ks.by_ref().take(total).step_by(k).collect(), (0..total).map(|_| r.byte()).step_by(k).collect())
            }
            Use::FoldSome(n) => {
                pos += n;
                let mut g = vec![];
                ks.by_ref().take(n).for_each(|b| g.push(b));
                (g, (0..n).map(|_| r.byte()).collect())
            }
        };
        ensure!(got == want, "rc4:keystream", "key {}: {u:?} (step {i}, ending at offset {pos}) gave {} instead of {}", short(&c.key), short(&got), short(&want));
    }
    let m = c.msg.expand();
    let k: Vec<u8> = m.iter().map(|_| r.byte()).collect();
    let ct = ks.encrypt(&m);
    let want: Vec<u8> = m.iter().zip(&k).map(|(a, b)| a ^ b).collect();
    let diff = ct.iter().zip(&want).position(|(a, b)| a != b);
    ensure!(ct == want, "rc4:encrypt", "key {}: encrypting {} bytes from offset {pos} gave {} bytes, first difference at {diff:?}", short(&c.key), m.len(), ct.len());
    let mut ks = cryptography::rc4::new(&c.key);
    if pos > 0 {
        ks.nth(pos - 1);
    }
    let pt = ks.decrypt(&ct);
    ensure!(pt == m, "rc4:decrypt", "key {}: decrypting {} bytes from offset {pos} did not give the message back", short(&c.key), m.len());
    Ok(Info::new(pos + m.len() > 0)
        .label(pos + m.len() > 256, "past 256 bytes")
        .label(pos + m.len() > 65536, "past 65536 bytes")
        .label(pos > 0 && !m.is_empty(), "encrypts from an offset")
        .label(c.key.len() == 256, "256-byte key"))
}

fn uses() -> impl Strategy<Value = Vec<Use>> {
    vec(
        prop_oneof![
            3 => (0usize..40).prop_map(Use::Next),
            2 => (0usize..300).prop_map(Use::Take),
            2 => (0usize..300).prop_map(Use::Nth),
            1 => (0usize..300).prop_map(Use::SkipNext),
            1 => (1usize..9, 1usize..40).prop_map(|(a, b)| Use::StepBy(a, b)),
            1 => (0usize..100).prop_map(Use::FoldSome),
        ],
        0..8,
    )
}

fn rc4_empty(key: &Hx) -> Res {
    let bad = key.is_empty();
    let r = attempt(|| cryptography::rc4::new(key).take(4).collect::<Vec<u8>>());
    ensure!(r.is_err() == bad, "rc4:range", "RC4 with a {}-byte key was {}", key.len(), if bad { "accepted" } else { "refused" });
    Ok(Info::new(bad))
}

/// The reference, written for speed, is checked against the plain one at the start.
fn rc4_far_check(key: &Hx) -> Res {
    let mut plain = RefRc4::new(key);
    let mut s = [0u8; 256];
    for (i, b) in s.iter_mut().enumerate() {
        *b = i as u8;
    }
    let mut j = 0u8;
    for i in 0..256 {
        j = j.wrapping_add(s[i]).wrapping_add(key[i % key.len()]);
        s.swap(i, j as usize);
    }
    let (mut i, mut j) = (0u8, 0u8);
    let mut fast = move || {
        i = i.wrapping_add(1);
        let a = s[i as usize];
        j = j.wrapping_add(a);
        let b = s[j as usize];
        s[i as usize] = b;
        s[j as usize] = a;
        s[a.wrapping_add(b) as usize]
    };
    let mut ks = cryptography::rc4::new(key);
    let bad = |n: u64| Err(Fail::new("rc4:keystream", format!("key {}: the key byte at offset {n} is wrong", short(key))));
    for n in 0..100_000u64 {
        let w = fast();
        assert!(w == plain.byte());
        if ks.next() != Some(w) {
            return bad(n);
        }
    }
    for n in 100_000..(1u64 << 32) + 70_000 {
        if ks.next() != Some(fast()) {
            return bad(n);
        }
    }
    Ok(Info::new(true).label(true, "past 2^32 bytes"))
}

fn rc4_fed(b: &[u8]) -> Option<Rc4Case> {
    let f = &mut Feed(b);
    let k = f.u8();
    let key = f.take(k as usize + 1);
    let n = f.u8() % 6;
    let uses = (0..n)
        .map(|_| {
            let (k, x) = (f.u8(), f.u16() as usize % 600);
            match k % 6 {
                0 => Use::Next(x),
                1 => Use::Take(x),
                2 => Use::Nth(x),
                3 => Use::SkipNext(x),
                4 => Use::StepBy(x % 9 + 1, x / 9 + 1),
                _ => Use::FoldSome(x),
            }
        })
        .collect();
    Some(Rc4Case { key, uses, msg: Msg::Raw(f.rest()) })
}

pub fn c03() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("rc4-bytes", "libFuzzer's bytes as key, consumption and message", 60_000, 700, || blobs(4, &[4, 12, 40, 300, 500]), rc4_fed, rc4_check).boxed(),
        Facet::indexed(
            "rc4-key-lengths",
            "every key length 1..=256, 16 times each, 600 key bytes and a message; non-trivial: something was produced",
            256 * 16,
            |i| (arr((i % 256) as usize + 1), msg_of_len(300)).prop_map(|(key, msg)| Rc4Case { key, uses: vec![Use::Next(300)], msg }),
            rc4_check,
        )
        .boxed(),
        Facet::random(
            "rc4-consumption",
            "generated key, a program of iterator operations (next, take, nth, skip, step_by, for_each) and a message encrypted and decrypted from the offset reached",
            40_000,
            || (bytes(1usize..=256), uses(), msg(len_near(256, 1200))).prop_map(|(key, uses, msg)| Rc4Case { key, uses, msg }),
            rc4_check,
        )
        .boxed(),
        Facet::random(
            "rc4-short-keys",
            "keys of 1..=8 bytes with repeated and edge bytes",
            30_000,
            || (small_bytes(7), any::<u8>(), msg(0usize..=64)).prop_map(|(mut key, b, msg)| {
                key.0.push(b);
                Rc4Case { key, uses: vec![], msg }
            }),
            rc4_check,
        )
        .boxed(),
        Facet::random(
            "rc4-long-streams",
            "offsets and messages of 60 kB to 600 kB",
            300,
            || (bytes(1usize..=256), 0usize..300_000, (0..KINDS, any::<u64>(), 60_000usize..300_000)).prop_map(|(key, skip, (kind, seed, len))| Rc4Case { key, uses: vec![Use::Nth(skip)], msg: Msg::Fill { kind, seed, len } }),
            rc4_check,
        )
        .chunk(2)
        .boxed(),
        Facet::random(
            "rc4-very-long",
            "offsets beyond 2^24",
            8,
            || (bytes(1usize..=256), (1usize << 24) - 50..(1usize << 24) + 100_000, msg(0usize..=2000)).prop_map(|(key, skip, msg)| Rc4Case { key, uses: vec![Use::Nth(skip), Use::Next(200)], msg }),
            rc4_check,
        )
        .chunk(1)
        .thorough(64)
        .release_only()
        .boxed(),
        Facet::indexed("rc4-32-bit-edge", "every key byte up to 2^32 and beyond", 1, |_| bytes(1usize..=256), rc4_far_check).chunk(1).limit(600).thorough(4).release_only().boxed(),
        Facet::random("rc4-empty-key", "keys of 0..=2 bytes; refused exactly when empty (non-trivial: empty)", 200, || small_bytes(2), rc4_empty).boxed(),
    ]
}

// ------------------------------------------------------------------ C08

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum How {
    Next(usize),
    All,
    TakeCollect(usize),
    ForEach,
    ExtendInto,
    Peek(usize),
    /// the byte after so many others
    Nth(usize),
    /// all but so many
    Skip(usize),
    /// every so manyth
    Step(usize),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Piece {
    data: Hx,
    how: How,
    /// shape of the data iterator
    shape: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct StreamCase {
    keys: Msg,
    rc4: bool,
    pieces: Vec<Piece>,
}

struct Counting<I> {
    it: I,
    n: Rc<Cell<usize>>,
}
impl<I: Iterator<Item = u8>> Iterator for Counting<I> {
    type Item = u8;
    fn next(&mut self) -> Option<u8> {
        let r = self.it.next();
        if r.is_some() {
            self.n.set(self.n.get() + 1);
        }
        r
    }
}

fn shape(data: &[u8], s: u8) -> Box<dyn Iterator<Item = u8>> {
    let v = data.to_vec();
    match s % 5 {
        0 => Box::new(v.into_iter()),
        1 => Box::new(v.into_iter().filter(|_| true)), // lower size bound 0
        2 => {
            let mid = v.len() / 2;
            let b = v[mid..].to_vec();
            Box::new(v[..mid].to_vec().into_iter().chain(b))
        }
        3 => {
            let mut i = 0;
            Box::new(std::iter::from_fn(move || {
                i += 1;
                v.get(i - 1).copied()
            }))
        }
        _ => Box::new(std::collections::VecDeque::from(v).into_iter()),
    }
}

fn stream_check(c: &StreamCase) -> Res {
    let total: usize = c.pieces.iter().map(|p| p.data.len()).sum();
    let ks: Vec<u8> = match (c.rc4, &c.keys) {
        (true, k) => {
            let mut k = k.expand();
            k.truncate(256);
            if k.is_empty() {
                k.push(7);
            }
            RefRc4::stream(&k, total + 1)
        }
        (false, k) => {
            // exactly as many key bytes as the pieces may need
            let mut v = k.expand();
            v.resize(total, 0x5c);
            v
        }
    };
    let n = Rc::new(Cell::new(0));
    let src: Box<dyn Iterator<Item = u8>> = if c.rc4 {
        let mut k = c.keys.expand();
        k.truncate(256);
        if k.is_empty() {
            k.push(7);
        }
        Box::new(cryptography::rc4::new(&k))
    } else {
        Box::new(ks.clone().into_iter())
    };
    let mut sc = StreamCipher::new(Counting { it: src, n: n.clone() });
    ensure!(n.get() == 0, "stream:ahead", "creating the stream cipher took {} key bytes", n.get());
    let mut pos = 0usize;
    let mut partial = false;
    let mut switches = 0;
    for (pi, p) in c.pieces.iter().enumerate() {
        let want: Vec<u8> = p.data.iter().zip(&ks[pos..]).map(|(a, b)| a ^ b).collect();
        let at = pos;
        let mut it = sc.encrypt(shape(&p.data, p.shape));
        ensure!(n.get() == at, "stream:ahead", "piece {pi}: key bytes were taken before any output was requested ({} instead of {at})", n.get());
        let mut got: Vec<u8> = vec![];
        // the bytes that are passed over are processed all the same
        let passing: Option<(Vec<u8>, Vec<u8>, usize)> = match p.how {
            How::Nth(k) => Some((it.nth(k).into_iter().collect(), want.get(k).copied().into_iter().collect(), want.len().min(k + 1))),
            How::Skip(k) => Some((it.by_ref().skip(k).collect(), want.iter().copied().skip(k).collect(), want.len())),
            How::Step(k) => Some((it.by_ref().step_by(k + 1).collect(), want.iter().copied().step_by(k + 1).collect(), want.len())),
            _ => None,
        };
        if let Some((got, want, used)) = passing {
            drop(it);
            ensure!(got == want, "stream:bytes", "piece {pi} (from key offset {at}), {:?}: gave {} instead of {}", p.how, short(&got), short(&want));
            pos += used;
            switches += (used > 0) as usize;
            ensure!(n.get() == pos, "stream:count", "after piece {pi} ({:?}): {} bytes processed but {} key bytes used", p.how, pos, n.get());
            continue;
        }
        match p.how {
            How::Nth(_) | How::Skip(_) | How::Step(_) => {}
            How::Next(k) => {
                for j in 0..k {
                    match it.next() {
                        Some(b) => got.push(b),
                        None => break,
                    }
                    ensure!(n.get() == at + j + 1, "stream:count", "piece {pi}: after {} output bytes, {} key bytes were used", j + 1, n.get() - at);
                }
            }
            How::All => got = it.collect(),
            How::TakeCollect(k) => got = it.by_ref().take(k).collect(),
            How::ForEach => it.for_each(|b| got.push(b)),
            How::ExtendInto => got.extend(it),
            How::Peek(k) => {
                // peeking processes the peeked byte once
                let mut pk = it.peekable();
                for _ in 0..k {
                    pk.peek();
                    match pk.next() {
                        Some(b) => got.push(b),
                        None => break,
                    }
                }
            }
        }
        ensure!(got[..] == want[..got.len().min(want.len())] && got.len() <= want.len(), "stream:bytes", "piece {pi} (from key offset {at}) gave {} instead of {}", short(&got), short(&want));
        let expect = match p.how {
            How::Nth(_) | How::Skip(_) | How::Step(_) | How::All | How::ForEach | How::ExtendInto => want.len(),
            How::Next(k) | How::TakeCollect(k) | How::Peek(k) => want.len().min(k),
        };
        ensure!(got.len() == expect, "stream:length", "piece {pi}: {} output bytes for {} requested", got.len(), expect);
        partial |= got.len() < want.len();
        pos += got.len();
        switches += (got.len() > 0) as usize;
        ensure!(n.get() == pos, "stream:count", "after piece {pi}: {} bytes processed but {} key bytes used", pos, n.get());
    }
    Ok(Info::new(switches >= 2).label(partial, "a partly consumed piece").label(c.pieces.iter().any(|p| p.data.is_empty()), "an empty piece").label(c.rc4, "rc4 keys").label(pos > 256, "past 256 key bytes"))
}

fn piece(max: usize) -> impl Strategy<Value = Piece> {
    (
        small_bytes(max),
        prop_oneof![
            2 => Just(How::All),
            2 => (0..max + 3).prop_map(How::Next),
            1 => (0..max + 3).prop_map(How::TakeCollect),
            1 => Just(How::ForEach),
            1 => Just(How::ExtendInto),
            1 => (0..max + 3).prop_map(How::Peek),
            1 => (0..max + 3).prop_map(How::Nth),
            1 => (0..max + 3).prop_map(How::Skip),
            1 => (0..9usize).prop_map(How::Step),
        ],
        0u8..5,
    )
        .prop_map(|(data, how, shape)| Piece { data, how, shape })
}

/// Splitting invariance on whole messages, library against itself is not used: both sides are
/// compared with message XOR keys.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct SplitCase {
    key: Hx,
    msg: Msg,
    cuts: Vec<usize>,
}

fn split_check(c: &SplitCase) -> Res {
    let m = c.msg.expand();
    let ks = RefRc4::stream(&c.key, m.len());
    let want: Vec<u8> = m.iter().zip(&ks).map(|(a, b)| a ^ b).collect();
    let mut cuts: Vec<usize> = c.cuts.iter().map(|x| x % (m.len() + 1)).collect();
    cuts.sort();
    cuts.push(m.len());
    let mut sc = StreamCipher::new(cryptography::rc4::new(&c.key));
    let mut out = vec![];
    let mut a = 0;
    for &b in &cuts {
        out.extend(sc.encrypt(m[a..b].iter().copied()));
        a = b;
    }
    ensure!(out == want, "stream:split", "message of {} bytes cut at {cuts:?}: output differs at {:?}", m.len(), out.iter().zip(&want).position(|(x, y)| x != y));
    // decrypting with another split gives the message back
    let mut sc = StreamCipher::new(cryptography::rc4::new(&c.key));
    let mut back = vec![];
    for ch in out.chunks(7 + c.cuts.len()) {
        back.extend(sc.encrypt(ch.iter().copied()));
    }
    ensure!(back == m, "stream:inverse", "decrypting a {}-byte message in pieces of {} failed", m.len(), 7 + c.cuts.len());
    Ok(Info::new(cuts.len() > 1 && !m.is_empty()).label(m.len() > 4096, "over 4 kB"))
}

/// A key stream that ends, and messages that need more of it.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct ShortCase {
    keys: Hx,
    pieces: Vec<Piece>,
    /// data bytes beyond the last key byte
    beyond: usize,
    how: u8,
}

fn short_check(c: &ShortCase) -> Res {
    let mut sc = StreamCipher::new(c.keys.0.clone());
    let mut pos = 0;
    for p in &c.pieces {
        let k = p.data.len().min(c.keys.len() - pos);
        let want: Vec<u8> = p.data[..k].iter().zip(&c.keys[pos..]).map(|(a, b)| a ^ b).collect();
        let got: Vec<u8> = sc.encrypt(shape(&p.data[..k], p.shape)).collect();
        ensure!(got == want, "stream:bytes", "piece from key offset {pos} gave {} instead of {}", short(&got), short(&want));
        pos += k;
    }
    let left = c.keys.len() - pos;
    let data: Vec<u8> = (0..left + c.beyond.max(1)).map(|i| i as u8).collect();
    let res = attempt(|| {
        let mut it = sc.encrypt(shape(&data, c.how / 4));
        match c.how % 4 {
            0 => it.collect::<Vec<u8>>(),
            1 => {
                let mut v = vec![];
                it.for_each(|b| v.push(b));
                v
            }
            2 => it.by_ref().take(left + 1).collect(),
            _ => {
                let mut v = vec![];
                while let Some(b) = it.next() {
                    v.push(b);
                }
                v
            }
        }
    });
    if let Ok(v) = res {
        return Err(Fail::new("stream:exhausted", format!("{} data bytes with {left} key bytes left gave {} (not refused)", data.len(), short(&v))));
    }
    Ok(Info::new(left > 0).label(pos > 0, "after other pieces").label(left == 0, "no key byte left"))
}

/// Pieces too long to be kept: keys and data are computed, and the output is compared as it comes.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct LongCase {
    seed: u64,
    /// length and consumption
    pieces: Vec<(u64, u8)>,
}

fn key_at(seed: u64, i: u64) -> u8 {
    ((i ^ seed) >> 3) as u8 ^ (i >> 16) as u8 ^ (i as u8).wrapping_mul(201)
}

fn data_at(i: u64) -> u8 {
    (i >> 7) as u8 ^ (i as u8).wrapping_mul(67)
}

fn long_check(c: &LongCase) -> Res {
    let seed = c.seed;
    let mut drawn = 0u64;
    let mut sc = StreamCipher::new(std::iter::from_fn(|| {
        drawn += 1;
        Some(key_at(seed, drawn - 1))
    }));
    let mut at = 0u64;
    for &(len, how) in &c.pieces {
        let data = (at..at + len).map(data_at);
        let want = |i: u64| data_at(i) ^ key_at(seed, i);
        let mut wrong: Option<u64> = None;
        let mut i = at;
        let mut it = sc.encrypt(data);
        match how % 3 {
            0 => it.for_each(|b| {
                if b != want(i) && wrong.is_none() {
                    wrong = Some(i);
                }
                i += 1;
            }),
            1 => {
                while let Some(b) = it.next() {
                    if b != want(i) {
                        wrong = Some(i);
                        break;
                    }
                    i += 1;
                }
            }
            // pass over most of it
            _ => {
                if len > 0 {
                    let k = len - 1 - len / 8;
                    i += k;
                    if it.nth(k as usize) != Some(want(i)) {
                        wrong = Some(i);
                    }
                    i += 1;
                    while let (Some(b), None) = (it.next(), wrong) {
                        if b != want(i) {
                            wrong = Some(i);
                        }
                        i += 1;
                    }
                }
            }
        }
        if let Some(w) = wrong {
            return Err(Fail::new("stream:bytes", format!("pieces {:?}: the byte at offset {w} of the stream is wrong", c.pieces)));
        }
        ensure!(i == at + len, "stream:length", "pieces {:?}: {} output bytes for the {} from offset {at}", c.pieces, i - at, len);
        at += len;
    }
    Ok(Info::new(at > 0).label(at > 1 << 16, "past 2^16 bytes").label(at > 1 << 24, "past 2^24 bytes").label(at > 1 << 32, "past 2^32 bytes"))
}

fn long_case(below: u64, n: usize) -> BoxedStrategy<LongCase> {
    (any::<u64>(), vec((prop_oneof![2 => 0u64..5, 2 => 0u64..300, 3 => 0..below], 0u8..3), 1..n)).prop_map(|(seed, pieces)| LongCase { seed, pieces }).boxed()
}

/// A piece that ends around `edge`, then others.
fn around(edge: u64) -> BoxedStrategy<LongCase> {
    (any::<u64>(), 0u64..3, 0u8..2, vec((0u64..70_000, 0u8..3), 1..4)).prop_map(move |(seed, d, how, more)| LongCase { seed, pieces: [vec![(edge - 1 + d, how)], more].concat() }).boxed()
}

pub fn c08() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::random("stream-long", "pieces of up to 200 kB, consumed one by one, folded, or mostly passed over", 400, || long_case(200_000, 8), long_check).chunk(4).boxed(),
        Facet::random("stream-16-bit-edge", "a piece that ends at 2^16 bytes or next to it, then others", 200, || around(1 << 16), long_check).chunk(4).boxed(),
        Facet::random("stream-24-bit-edge", "a piece that ends at 2^24 bytes or next to it, then others", 16, || around(1 << 24), long_check).chunk(1).release_only().boxed(),
        Facet::indexed("stream-32-bit-edge", "a piece that ends at 2^32 bytes or next to it, then others", 2, |_| around(1 << 32), long_check).chunk(1).limit(600).thorough(6).release_only().boxed(),
        Facet::random(
            "stream-pieces",
            "1..10 pieces with different data iterators and consumption (one by one, collected, taken in part, peeked, dropped) on one stream cipher, key stream counted byte by byte; non-trivial: at least two pieces produced output",
            100_000,
            || (msg(0usize..=64), any::<bool>(), vec(piece(24), 1..10)).prop_map(|(keys, rc4, pieces)| StreamCase { keys, rc4, pieces }),
            stream_check,
        )
        .boxed(),
        Facet::random(
            "stream-big-pieces",
            "pieces of up to 700 bytes (finite key stream exactly long enough, or RC4)",
            6_000,
            || (msg(0usize..=300), any::<bool>(), vec(piece(700), 1..6)).prop_map(|(keys, rc4, pieces)| StreamCase { keys, rc4, pieces }),
            stream_check,
        )
        .boxed(),
        Facet::random(
            "stream-splits",
            "a message up to 20 kB cut at 0..12 points; compared with message XOR reference key stream, then decrypted under another split",
            6_000,
            || (bytes(1usize..=64), msg(len_near(256, 20_000)), vec(any::<usize>(), 0..12)).prop_map(|(key, msg, cuts)| SplitCase { key, msg, cuts }),
            split_check,
        )
        .boxed(),
        Facet::random(
            "stream-exhausted",
            "a finite key stream used up to its end in pieces, then a message that needs more key bytes than are left is refused; non-trivial: some are left",
            20_000,
            || (small_bytes(40), vec(piece(12), 0..4), 1usize..20, 0u8..20).prop_map(|(keys, pieces, beyond, how)| ShortCase { keys, pieces, beyond, how }),
            short_check,
        )
        .boxed(),
    ]
}
