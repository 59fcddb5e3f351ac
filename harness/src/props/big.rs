//! C13/C14: BigUint against an independent natural-number type.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::nat::Nat;
use cryptography::big::BigUint;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;

fn b(n: &Nat) -> BigUint {
    BigUint::from_be_bytes(n.to_be())
}

/// Everything observable about a value agrees with the number.
fn same(x: &BigUint, n: &Nat, what: &dyn Fn() -> String) -> Result<(), Fail> {
    let by = x.to_be_bytes();
    let want = n.to_be();
    ensure!(by == want, "big:value", "{}: got {}, expected {}", what(), short(&by), short(&want));
    ensure!(*x == b(n), "big:eq", "{}: the result {} is not equal to the same number built from bytes", what(), short(&by));
    ensure!(x.bits_used() == n.bits(), "big:bits", "{}: bits_used {} instead of {}", what(), x.bits_used(), n.bits());
    Ok(())
}

// ------------------------------------------------------------------ C13

const REGS: usize = 4;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum BOp {
    Set(usize, Hx),
    Copy(usize, usize),
    AddU8(usize, u8),
    Add(usize, usize),
    Sub(usize, usize),
    SubNew(usize, usize, usize),
    Rem(usize, usize),
    Shl(usize, u32),
    Shr(usize, u32),
    /// a - b where a is first brought within `d` of b, so that long borrows and zero results occur
    NearSub(usize, usize, u8, bool),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Hist {
    init: Vec<Hx>,
    ops: Vec<BOp>,
}

fn refused(r: Result<BigUint, String>, what: String) -> Result<(), Fail> {
    match r {
        Err(_) => Ok(()),
        Ok(v) => Err(Fail::new("big:no-result", format!("{what} has no natural-number result but gave {}", short(&v.to_be_bytes())))),
    }
}

fn hist_check(c: &Hist) -> Res {
    let mut n: Vec<Nat> = (0..REGS).map(|i| c.init.get(i).map(|h| Nat::from_be(h)).unwrap_or(Nat::zero())).collect();
    let mut x: Vec<BigUint> = n.iter().map(b).collect();
    let (mut zero, mut refusals, mut multi) = (false, 0, false);
    for (i, op) in c.ops.iter().enumerate() {
        let dst;
        match op {
            BOp::Set(d, h) => {
                n[*d] = Nat::from_be(h);
                x[*d] = BigUint::from_be_bytes(&h[..]);
                dst = *d;
            }
            BOp::Copy(d, s) => {
                n[*d] = n[*s].clone();
                x[*d] = x[*s].clone();
                dst = *d;
            }
            BOp::AddU8(d, k) => {
                n[*d] = n[*d].add(&Nat::from_u128(*k as u128));
                x[*d] += *k;
                dst = *d;
            }
            BOp::Add(d, s) => {
                n[*d] = n[*d].add(&n[*s]);
                let r = x[*s].clone();
                x[*d] += &r;
                dst = *d;
            }
            BOp::NearSub(d, s, k, below) => {
                // d := s + k or s - k (when that exists); then d -= s
                let kn = Nat::from_u128(*k as u128);
                n[*d] = if *below { n[*s].checked_sub(&kn).unwrap_or(n[*s].clone()) } else { n[*s].add(&kn) };
                x[*d] = b(&n[*d]);
                let r = x[*s].clone();
                match n[*d].checked_sub(&n[*s]) {
                    Some(v) => {
                        n[*d] = v;
                        x[*d] -= &r;
                    }
                    None => {
                        let l = x[*d].clone();
                        refusals += 1;
                        refused(attempt(move || { let mut l = l; l -= &r; l }), format!("step {i}: {} - {}", short(&n[*d].to_be()), short(&n[*s].to_be())))?;
                    }
                }
                dst = *d;
            }
            BOp::Sub(d, s) => {
                let r = x[*s].clone();
                match n[*d].checked_sub(&n[*s]) {
                    Some(v) => {
                        n[*d] = v;
                        x[*d] -= &r;
                    }
                    None => {
                        let l = x[*d].clone();
                        refusals += 1;
                        refused(attempt(move || { let mut l = l; l -= &r; l }), format!("step {i}: {} - {}", short(&n[*d].to_be()), short(&n[*s].to_be())))?;
                    }
                }
                dst = *d;
            }
            BOp::SubNew(d, p, q) => {
                let (l, r) = (x[*p].clone(), x[*q].clone());
                match n[*p].checked_sub(&n[*q]) {
                    Some(v) => {
                        n[*d] = v;
                        x[*d] = l - &r;
                    }
                    None => {
                        refusals += 1;
                        refused(attempt(move || l - &r), format!("step {i}: {} - {}", short(&n[*p].to_be()), short(&n[*q].to_be())))?;
                    }
                }
                dst = *d;
            }
            BOp::Rem(d, s) => {
                let r = x[*s].clone();
                if n[*s].is_zero() {
                    let l = x[*d].clone();
                    refusals += 1;
                    refused(attempt(move || { let mut l = l; l %= &r; l }), format!("step {i}: {} % 0", short(&n[*d].to_be())))?;
                } else {
                    n[*d] = n[*d].rem(&n[*s]);
                    x[*d] %= &r;
                }
                dst = *d;
            }
            BOp::Shl(d, k) => {
                if n[*d].bits() + k > 40_000 {
                    continue;
                }
                n[*d] = n[*d].shl(*k);
                x[*d] <<= *k;
                dst = *d;
            }
            BOp::Shr(d, k) => {
                n[*d] = n[*d].shr(*k);
                x[*d] >>= *k;
                dst = *d;
            }
        }
        same(&x[dst], &n[dst], &|| format!("step {i}: {op:?}"))?;
        zero |= n[dst].is_zero();
        multi |= n[dst].bits() > 64;
        // equality and order between everything reached so far
        for a in 0..REGS {
            ensure!((x[a] == x[dst]) == (n[a] == n[dst]), "big:history-eq", "step {i}: registers {a} and {dst} compare {} although the numbers are {}equal", x[a] == x[dst], if n[a] == n[dst] { "" } else { "not " });
        }
        let o = (dst + 1) % REGS;
        ensure!(x[o].cmp(&x[dst]) == n[o].cmp(&n[dst]), "big:history-ord", "step {i}: order of registers {o} and {dst}");
    }
    for r in 0..REGS {
        same(&x[r], &n[r], &|| format!("register {r} at the end"))?;
    }
    Ok(Info::new(c.ops.len() >= 2).label(zero, "reaches zero").label(refusals > 0, "an operation with no result").label(multi, "more than 64 bits"))
}

/// Numbers with long carry and borrow chains: runs of zeros and ones, powers of two plus or minus
/// a little, as well as arbitrary ones.
pub fn number(max: usize) -> BoxedStrategy<Hx> {
    let runs = vec((select(vec![0u8, 0xff, 0x80, 0x01, 0x7f]), 1usize..=6), 0..=max.div_ceil(4)).prop_map(move |v| {
        let mut o: Vec<u8> = v.into_iter().flat_map(|(b, n)| std::iter::repeat_n(b, n)).collect();
        o.truncate(max);
        Hx(o)
    });
    let pow = (0..max as u32 * 8, -3i32..=3).prop_map(|(k, d)| {
        let p = Nat::one().shl(k);
        let m = Nat::from_u128(d.unsigned_abs() as u128);
        Hx(if d >= 0 { p.add(&m) } else { p.checked_sub(&m).unwrap_or(p) }.to_be())
    });
    prop_oneof![4 => bytes(0..=max), 2 => runs, 2 => pow, 1 => Just(Hx(vec![])), 1 => any::<u8>().prop_map(|b| Hx(vec![b]))].boxed()
}

fn shift() -> BoxedStrategy<u32> {
    prop_oneof![3 => 0u32..=20, 3 => (0u32..40).prop_map(|k| 8 * k), 2 => 0u32..600, 1 => 0u32..3000].boxed()
}

fn bop(max: usize) -> BoxedStrategy<BOp> {
    let r = 0..REGS;
    prop_oneof![
        1 => (r.clone(), number(max)).prop_map(|(a, h)| BOp::Set(a, h)),
        1 => (r.clone(), r.clone()).prop_map(|(a, b)| BOp::Copy(a, b)),
        2 => (r.clone(), any::<u8>()).prop_map(|(a, k)| BOp::AddU8(a, k)),
        3 => (r.clone(), r.clone()).prop_map(|(a, b)| BOp::Add(a, b)),
        3 => (r.clone(), r.clone()).prop_map(|(a, b)| BOp::Sub(a, b)),
        2 => (r.clone(), r.clone(), r.clone()).prop_map(|(a, b, c)| BOp::SubNew(a, b, c)),
        3 => (r.clone(), r.clone()).prop_map(|(a, b)| BOp::Rem(a, b)),
        3 => (r.clone(), shift()).prop_map(|(a, k)| BOp::Shl(a, k)),
        3 => (r.clone(), prop_oneof![3 => shift(), 1 => Just(u32::MAX), 1 => any::<u32>()]).prop_map(|(a, k)| BOp::Shr(a, k)),
        2 => (r.clone(), r.clone(), any::<u8>(), any::<bool>()).prop_map(|(a, b, k, l)| BOp::NearSub(a, b, k, l)),
    ]
    .boxed()
}

fn hist(max: usize, ops: usize) -> BoxedStrategy<Hist> {
    (vec(number(max), REGS), vec(bop(max), 1..ops)).prop_map(|(init, ops)| Hist { init, ops }).boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Pair {
    a: Hx,
    b: Hx,
    k: u32,
}

/// One pair under every operation.
fn pair_check(c: &Pair) -> Res {
    let (n, m) = (Nat::from_be(&c.a), Nat::from_be(&c.b));
    let (x, y) = (b(&n), b(&m));
    let w = |o: &'static str| {
        let (n, m, k) = (short(&n.to_be()), short(&m.to_be()), c.k);
        move || format!("{n} {o} {m} (k={k})")
    };
    let mut t = x.clone();
    t += &y;
    same(&t, &n.add(&m), &w("+"))?;
    let mut t = x.clone();
    t += (c.k % 256) as u8;
    same(&t, &n.add(&Nat::from_u128(c.k as u128 % 256)), &w("+ k for"))?;
    // subtraction of the sum always has a result
    let mut t = b(&n.add(&m));
    t -= &y;
    same(&t, &n, &w("+ then -"))?;
    match n.checked_sub(&m) {
        Some(v) => {
            let mut t = x.clone();
            t -= &y;
            same(&t, &v, &w("-"))?;
            same(&(x.clone() - &y), &v, &w("- (new)"))?;
        }
        None => {
            let (p, q) = (x.clone(), y.clone());
            refused(attempt(move || p - &q), w("-")())?;
        }
    }
    if m.is_zero() {
        let (mut p, q) = (x.clone(), y.clone());
        refused(attempt(move || { p %= &q; p }), w("%")())?;
    } else {
        let mut t = x.clone();
        t %= &y;
        same(&t, &n.rem(&m), &w("%"))?;
    }
    let mut t = x.clone();
    t <<= c.k;
    same(&t, &n.shl(c.k), &w("<< k for"))?;
    t >>= c.k;
    same(&t, &n, &w("<< k >> k for"))?;
    let mut t = x.clone();
    t >>= c.k;
    same(&t, &n.shr(c.k), &w(">> k for"))?;
    ensure!((x == y) == (n == m), "big:eq", "{}", w("==")());
    Ok(Info::new(!n.is_zero() && !m.is_zero()).label(n < m, "a < b").label(n == m, "a = b").label(n.is_zero() || m.is_zero(), "with zero"))
}

/// Sizes around the powers of two where a narrower length or bit index would wrap.
fn huge_len(max: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        3 => (5u32..=17, -2i64..=2).prop_map(move |(k, d)| (((1i64 << k) + d).max(1) as usize).min(max)),
        1 => 1..=max,
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct HugePair {
    a: Msg,
    b: Msg,
    /// the second operand is the first plus or minus this, instead of `b`
    near: Option<i16>,
    k: u32,
}

fn huge_pair(max: usize) -> BoxedStrategy<HugePair> {
    (huge_len(max), huge_len(max))
        .prop_flat_map(|(n, m)| (msg_of_len(n), msg_of_len(m), proptest::option::of(any::<i16>()), prop_oneof![2 => 0u32..64, 2 => (3u32..=20, -9i64..=9).prop_map(|(e, d)| ((1i64 << e) + d).max(0) as u32), 1 => 0u32..1_200_000]))
        .prop_map(|(a, b, near, k)| HugePair { a, b, near, k })
        .boxed()
}

fn huge_pair_check(c: &HugePair) -> Res {
    let n = Nat::from_be(&c.a.expand());
    let m = match c.near {
        None => Nat::from_be(&c.b.expand()),
        Some(d) => {
            let m = Nat::from_u128(d.unsigned_abs() as u128);
            if d < 0 { n.checked_sub(&m).unwrap_or(n.clone()) } else { n.add(&m) }
        }
    };
    let (x, y) = (b(&n), b(&m));
    let w = |o: &'static str| {
        let (n, m, k) = (n.bits(), m.bits(), c.k);
        move || format!("{o} on numbers of {n} and {m} bits (k={k})")
    };
    let mut t = x.clone();
    t += &y;
    same(&t, &n.add(&m), &w("+"))?;
    t -= &x;
    same(&t, &m, &w("+ then -"))?;
    let mut t = x.clone();
    t += (c.k % 256) as u8;
    same(&t, &n.add(&Nat::from_u128(c.k as u128 % 256)), &w("+ k"))?;
    match n.checked_sub(&m) {
        Some(v) => same(&(x.clone() - &y), &v, &w("-"))?,
        None => {
            let (p, q) = (x.clone(), y.clone());
            refused(attempt(move || p - &q), w("-")())?;
        }
    }
    // the remainder takes one pass per bit of the quotient
    if !m.is_zero() && n.bits().saturating_sub(m.bits()) <= 24 {
        let mut t = x.clone();
        t %= &y;
        same(&t, &n.rem(&m), &w("%"))?;
    }
    let mut t = x.clone();
    t <<= c.k;
    same(&t, &n.shl(c.k), &w("<< k"))?;
    t >>= c.k;
    same(&t, &n, &w("<< k >> k"))?;
    t >>= c.k;
    same(&t, &n.shr(c.k), &w(">> k"))?;
    ensure!((x == y) == (n == m) && x.cmp(&y) == n.cmp(&m), "big:order", "{}", w("order")());
    Ok(Info::new(!n.is_zero() && !m.is_zero()).label(n.bits() > 65_536, "over 65536 bits").label(n.bits() > 524_288, "over 65536 bytes").label(c.k > 65_536, "shift over 65536"))
}

fn pair_fed(b: &[u8]) -> Option<Pair> {
    let f = &mut Feed(b);
    let (k, near) = (f.u16() as u32 % 1200, f.u8());
    let a = f.some(255);
    // an unrelated number, the same one, or the same with one byte changed
    let b = match near % 4 {
        0 => a.clone(),
        1 if !a.is_empty() => {
            let mut v = a.clone();
            let n = v.len();
            v.0[f.u8() as usize % n] = f.u8();
            v
        }
        _ => f.rest(),
    };
    Some(Pair { a, b, k })
}

fn hist_fed(b: &[u8]) -> Option<Hist> {
    let f = &mut Feed(b);
    let init = (0..REGS).map(|_| f.some(24)).collect();
    let mut ops = vec![];
    while !f.is_empty() && ops.len() < 40 {
        let (k, r) = (f.u8(), f.u8());
        let (d, s, q) = (r as usize % REGS, (r / 4) as usize % REGS, (r / 16) as usize % REGS);
        ops.push(match k % 10 {
            0 => BOp::Set(d, f.some(24)),
            1 => BOp::Copy(d, s),
            2 => BOp::AddU8(d, f.u8()),
            3 => BOp::Add(d, s),
            4 => BOp::Sub(d, s),
            5 => BOp::SubNew(d, s, q),
            6 => BOp::Rem(d, s),
            7 => BOp::Shl(d, f.u8() as u32),
            8 => BOp::Shr(d, if r & 0x80 != 0 { f.u32() } else { f.u8() as u32 }),
            _ => BOp::NearSub(d, s, f.u8(), r & 0x80 != 0),
        });
    }
    (!ops.is_empty()).then_some(Hist { init, ops })
}

pub fn c13() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("pair-bytes", "libFuzzer's bytes as two numbers and a shift, under every operation", 60_000, 300, || blobs(6, &[6, 12, 24, 60, 120]).into_iter().chain([vec![8, 0, 2, 3, 255, 255, 255, 1], vec![1, 0, 0, 4, 128, 0, 0, 0]]).collect(), pair_fed, pair_check).boxed(),
        Facet::fuzzed("history-bytes", "libFuzzer's bytes as four numbers and a program", 50_000, 250, || blobs(7, &[20, 40, 90, 160]), hist_fed, hist_check).boxed(),
        Facet::random(
            "histories",
            "4 registers, 1..16 operations (set, copy, +u8, +, -, new -, %, <<, >>) on numbers up to 40 bytes; after each step value, equality, bit length and order against an independent natural-number type; impossible operations must be refused; non-trivial: two or more operations",
            120_000,
            || hist(40, 16),
            hist_check,
        )
        .boxed(),
        Facet::random("small-histories", "the same on numbers of 0..3 bytes, where zero, equality and refusals are common", 200_000, || hist(3, 12), hist_check).boxed(),
        Facet::random("large-histories", "the same on numbers up to 600 bytes", 1_500, || hist(600, 10), hist_check).chunk(8).boxed(),
        Facet::random(
            "operand-pairs",
            "one pair under every operation; second operand independent, near the first, or the first shifted",
            80_000,
            || {
                (number(48), number(48), -2i32..=2, 0usize..4, shift()).prop_map(|(a, o, d, kind, k)| {
                    let n = Nat::from_be(&a);
                    let near = |n: &Nat| {
                        let m = Nat::from_u128(d.unsigned_abs() as u128);
                        if d < 0 { n.checked_sub(&m).unwrap_or(n.clone()) } else { n.add(&m) }
                    };
                    let b = match kind {
                        0 => near(&n).to_be(),
                        1 => near(&n.shr(k % 200)).to_be(),
                        2 => near(&n.shl(k % 64)).to_be(),
                        _ => o.0,
                    };
                    Pair { a, b: Hx(b), k }
                })
            },
            pair_check,
        )
        .boxed(),
        Facet::random("huge-pairs", "one pair of numbers of up to 70000 bytes, lengths around powers of two, under every operation, shifts up to 1.2 million; non-trivial: neither is zero", 400, || huge_pair(70_000), huge_pair_check).chunk(4).boxed(),
        Facet::indexed(
            "small-pairs",
            "all pairs of numbers 0..=511 under every operation, shift counts 0..=34",
            512 * 512,
            |i| {
                let (a, b) = ((i / 512) as u16, (i % 512) as u16);
                (0u32..=34).prop_map(move |k| Pair { a: Hx(a.to_be_bytes().to_vec()), b: Hx(b.to_be_bytes().to_vec()), k })
            },
            pair_check,
        )
        .boxed(),
        Facet::indexed(
            "shift-grid",
            "every shift count 0..=400 on numbers of 0..=20 bytes",
            401 * 21,
            |i| (prop_oneof![arr((i % 21) as usize), number((i % 21) as usize + 1)], number(4)).prop_map(move |(a, b)| Pair { a, b, k: (i / 21) as u32 }),
            pair_check,
        )
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C14

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Conv {
    num: Hx,
    zeros: usize,
    other: Hx,
    bits: Vec<u32>,
}

fn conv_check(c: &Conv) -> Res {
    let n = Nat::from_be(&c.num);
    let min = n.to_be();
    let mut be = vec![0u8; c.zeros];
    be.extend_from_slice(&min);
    let le: Vec<u8> = be.iter().rev().copied().collect();
    let x = BigUint::from_be_bytes(&be);
    let y = BigUint::from_le_bytes(&le);
    let what = || format!("{} with {} redundant zero bytes", short(&min), c.zeros);
    same(&x, &n, &|| format!("from_be_bytes of {}", what()))?;
    same(&y, &n, &|| format!("from_le_bytes of {}", what()))?;
    ensure!(x == y && x.cmp(&y) == Ordering::Equal, "conv:eq", "{}: big- and little-endian construction differ", what());
    match (n.to_u128(), x.as_u128()) {
        (Some(v), Ok(g)) => {
            ensure!(g == v, "conv:as_u128", "{}: as_u128 gave {g:#x}, expected {v:#x}", what());
            let z = BigUint::from(v);
            same(&z, &n, &|| format!("from u128 {v:#x}"))?;
            ensure!(z == x, "conv:eq", "{v:#x}: u128 and byte construction differ");
        }
        (None, Err(_)) => {}
        (Some(_), Err(e)) => ensure!(false, "conv:as_u128", "{}: as_u128 refused ({e}) although it fits", what()),
        (None, Ok(g)) => ensure!(false, "conv:as_u128", "{}: as_u128 gave {g:#x} although the number does not fit", what()),
    }
    for &i in &c.bits {
        ensure!(x.is_set(i) == n.bit(i), "conv:bit", "{}: is_set({i}) is {}", what(), x.is_set(i));
    }
    let top = n.bits();
    for i in [top.saturating_sub(1), top, top + 1, top + 7, top + 8, u32::MAX] {
        ensure!(x.is_set(i) == n.bit(i), "conv:bit", "{}: is_set({i}) is {}", what(), x.is_set(i));
    }
    let m = Nat::from_be(&c.other);
    let o = BigUint::from_be_bytes(&c.other[..]);
    ensure!(x.cmp(&o) == n.cmp(&m) && o.cmp(&x) == m.cmp(&n), "conv:order", "{} compared with {}: {:?}", what(), short(&m.to_be()), x.cmp(&o));
    ensure!(x.partial_cmp(&o) == Some(n.cmp(&m)), "conv:order", "partial_cmp disagrees for {}", what());
    ensure!((x == o) == (n == m) && (x < o) == (n < m) && (x <= o) == (n <= m) && (x > o) == (n > m) && (x >= o) == (n >= m), "conv:order", "{} and {}: comparison operators disagree", what(), short(&m.to_be()));
    let cl = x.clone();
    ensure!(cl == x, "conv:eq", "{}: a clone differs", what());
    Ok(Info::new(!n.is_zero())
        .label(n.is_zero(), "zero")
        .label(c.zeros > 0, "redundant zeros")
        .label(n.bits() > 128, "over 128 bits")
        .label((121..=136).contains(&n.bits()), "around 128 bits")
        .label(n == m, "equal pair")
        .label(n != m && n.bits() == m.bits(), "same length, different"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Upd {
    num: Hx,
    steps: Vec<(u32, bool)>,
}

/// Single-bit updates inside the stored number.  Clearing the last set bit of the top byte is
/// documented to leave the length stale, so such a step is left out.
fn upd_check(c: &Upd) -> Res {
    let mut n = Nat::from_be(&c.num);
    if n.is_zero() {
        n = Nat::one();
    }
    let mut x = b(&n);
    let mut done = 0;
    for (i, &(bit, set)) in c.steps.iter().enumerate() {
        let len = n.bits().div_ceil(8);
        let bit = bit % (8 * len);
        let m = n.with_bit(bit, set);
        if m.bits().div_ceil(8) != len {
            continue;
        }
        x.update(bit, set);
        n = m;
        done += 1;
        same(&x, &n, &|| format!("step {i}: update({bit}, {set})"))?;
        ensure!(x.is_set(bit) == set, "upd:bit", "step {i}: update({bit}, {set}) then is_set gives {}", x.is_set(bit));
    }
    for i in 0..n.bits() + 9 {
        ensure!(x.is_set(i) == n.bit(i), "upd:bit", "is_set({i}) is {} at the end", x.is_set(i));
    }
    Ok(Info::new(done >= 2))
}

fn sort_check(v: &Vec<Hx>) -> Res {
    let mut xs: Vec<BigUint> = v.iter().map(|h| BigUint::from_be_bytes(&h[..])).collect();
    let mut ns: Vec<Nat> = v.iter().map(|h| Nat::from_be(h)).collect();
    xs.sort();
    ns.sort();
    for (x, n) in xs.iter().zip(&ns) {
        ensure!(x.to_be_bytes() == n.to_be(), "conv:sort", "sorting {} numbers gave another order than the numbers'", v.len());
    }
    let (a, z) = (xs.iter().min(), ns.iter().min());
    ensure!(a.map(|x| x.to_be_bytes()) == z.map(|n| n.to_be()), "conv:sort", "minimum");
    Ok(Info::new(v.len() > 2))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct HugeConv {
    num: Msg,
    zeros: usize,
    flip: u32,
    bits: Vec<u32>,
}

fn huge_conv_check(c: &HugeConv) -> Res {
    let num = c.num.expand();
    let n = Nat::from_be(&num);
    let top = n.bits();
    let mut bits: Vec<u32> = c.bits.iter().flat_map(|b| [*b, b % (top + 1)]).collect();
    for k in 3..22 {
        bits.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    let other = if top == 0 { Nat::one() } else { let k = c.flip % top; n.with_bit(k, !n.bit(k)) };
    let i = conv_check(&Conv { num: Hx(num), zeros: c.zeros, other: Hx(other.to_be()), bits: bits.clone() })?;
    let mut x = b(&n);
    let mut m = n.clone();
    for (j, &k) in bits.iter().enumerate() {
        if k < top.saturating_sub(1) {
            let set = j % 3 != 0;
            x.update(k, set);
            m = m.with_bit(k, set);
        }
    }
    same(&x, &m, &|| format!("bits updated in a number of {top} bits"))?;
    Ok(i.label(top > 65_536, "over 65536 bits").label(top > 524_288, "over 65536 bytes"))
}

fn conv_fed(b: &[u8]) -> Option<Conv> {
    let f = &mut Feed(b);
    let (zeros, near, nb) = (f.u8() as usize % 12, f.u8(), f.u8() % 6);
    let bits = (0..nb).map(|_| f.u16() as u32).collect();
    let num = f.some(255);
    let other = match near % 4 {
        0 => num.clone(),
        1 if !num.is_empty() => {
            let mut v = num.clone();
            let n = v.len();
            v.0[f.u8() as usize % n] = f.u8();
            v
        }
        _ => f.rest(),
    };
    Some(Conv { num, zeros, other, bits })
}

pub fn c14() -> Vec<Box<dyn DynFacet>> {
    let pairs = |max: usize| {
        (number(max), 0usize..=3, number(max), -2i32..=2, 0usize..4, vec(0u32..(max as u32 * 8 + 20), 0..12), any::<u32>(), prop_oneof![4 => 0usize..=2, 1 => 0usize..=40]).prop_map(|(num, _, o, d, kind, bits, flip, zeros)| {
            let n = Nat::from_be(&num);
            let other = match kind {
                0 => num.clone(),
                1 => {
                    let m = Nat::from_u128(d.unsigned_abs() as u128);
                    Hx(if d < 0 { n.checked_sub(&m).unwrap_or(n) } else { n.add(&m) }.to_be())
                }
                2 if n.bits() > 0 => {
                    let k = flip % n.bits();
                    Hx(n.with_bit(k, !n.bit(k)).to_be())
                }
                _ => o,
            };
            Conv { num, zeros, other, bits }
        })
    };
    vec![
        Facet::fuzzed("conversion-bytes", "libFuzzer's bytes as two numbers, redundant zeros and bit positions", 80_000, 200, || blobs(8, &[6, 12, 24, 40, 60, 120]).into_iter().chain([vec![0, 1, 0, 16, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255, 255], vec![0, 0, 1, 17, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1]]).collect(), conv_fed, conv_check).boxed(),
        Facet::random(
            "conversions",
            "numbers up to 40 bytes built three ways with 0..40 redundant zero bytes, bytes and u128 exported, bits read in and beyond the number, ordered against an equal, near, one-bit-different or independent number; non-trivial: not zero",
            200_000,
            move || pairs(40),
            conv_check,
        )
        .boxed(),
        Facet::random(
            "around-128-bits",
            "numbers of 14..=18 bytes",
            60_000,
            move || (14usize..=18).prop_flat_map(|n| (arr(n), any::<bool>(), 0usize..3, number(18), vec(100u32..160, 4))).prop_map(|(mut num, top, zeros, other, bits)| {
                if top {
                    num.0[0] = num.0[0].max(1);
                }
                Conv { num, zeros, other, bits }
            }),
            conv_check,
        )
        .boxed(),
        Facet::random("large-conversions", "numbers up to 2000 bytes", 3_000, move || pairs(2000), conv_check).boxed(),
        Facet::random(
            "huge-conversions",
            "numbers of up to 70000 bytes, lengths around powers of two, against the same with one bit flipped; bits read and updated around powers of two",
            400,
            || huge_len(70_000).prop_flat_map(|n| (msg_of_len(n), prop_oneof![Just(0usize), 0usize..1000], any::<u32>(), vec(any::<u32>(), 4..20))).prop_map(|(num, zeros, flip, bits)| HugeConv { num, zeros, flip, bits }),
            huge_conv_check,
        )
        .chunk(4)
        .boxed(),
        Facet::indexed(
            "small-pairs",
            "all numbers 0..=1023 against all numbers of 0..=1023 near them, and generated ones",
            1024 * 16,
            |i| {
                let a = (i / 16) as u16;
                let d = (i % 16) as u16;
                (prop_oneof![Just(a.saturating_add(d)), Just(a.saturating_sub(d)), 0u16..1024], 0usize..4, vec(0u32..20, 4)).prop_map(move |(o, zeros, bits)| Conv { num: Hx(a.to_be_bytes().to_vec()), zeros, other: Hx(o.to_be_bytes().to_vec()), bits })
            },
            conv_check,
        )
        .boxed(),
        Facet::random("bit-updates", "1..20 single-bit updates inside a number, value and bits after each; non-trivial: two or more took place", 80_000, || (number(40), vec((any::<u32>(), any::<bool>()), 1..20)).prop_map(|(num, steps)| Upd { num, steps }), upd_check).boxed(),
        Facet::random("sorting", "0..24 numbers sorted", 20_000, || vec(number(12), 0..24), sort_check).boxed(),
    ]
}
