//! C15 raw RSA, C16 key creation, C17-C19 RSA-OAEP, C25 randomisation.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::big::number;
use crate::refs::der::Tree;
use crate::refs::nat::Nat;
use crate::refs::oaep;
use cryptography::big::BigUint;
use cryptography::pem::PEM;
use cryptography::rsa::{create_keys, PaddingScheme, PrivateKey, PublicKey, RsaEncryption, RsaPadding};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

pub const OID_RSA: [u8; 9] = [0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 1, 1, 1];

/// Non-negative DER INTEGER contents.
pub fn der_int(n: &Nat) -> Tree {
    let mut b = n.to_be();
    if b.first().is_none_or(|x| x & 0x80 != 0) {
        b.insert(0, 0);
    }
    Tree::Int(b)
}

pub fn alg_id() -> Tree {
    Tree::Seq(vec![Tree::Oid(OID_RSA.to_vec()), Tree::Null])
}

pub fn spki(n: &Nat, e: &Nat) -> Tree {
    let inner = Tree::Seq(vec![der_int(n), der_int(e)]).encode();
    Tree::Seq(vec![alg_id(), Tree::Bit(inner, 0)])
}

pub fn pkcs8_inner(n: &Nat, e: &Nat, d: &Nat, rest: [&Nat; 5]) -> Tree {
    let mut v = vec![Tree::Int(vec![0]), der_int(n), der_int(e), der_int(d)];
    v.extend(rest.iter().map(|x| der_int(x)));
    Tree::Seq(v)
}

pub fn pkcs8(inner: &Tree) -> Tree {
    Tree::Seq(vec![Tree::Int(vec![0]), alg_id(), Tree::Oct(inner.encode())])
}

pub fn pem(label: &str, data: Vec<u8>) -> PEM {
    PEM { label: label.to_string(), data }
}

pub fn import_public(n: &Nat, e: &Nat) -> Result<PublicKey, Fail> {
    PublicKey::try_from(pem("PUBLIC KEY", spki(n, e).encode())).map_err(|m| Fail::new("import:public", format!("a public key (n={}, e={}) was not imported: {m}", short(&n.to_be()), short(&e.to_be()))))
}

pub fn import_private(n: &Nat, d: &Nat) -> Result<PrivateKey, Fail> {
    let one = Nat::one();
    PrivateKey::try_from(pem("PRIVATE KEY", pkcs8(&pkcs8_inner(n, &one, d, [&one; 5])).encode())).map_err(|m| Fail::new("import:private", format!("a private key (n={}, d={}) was not imported: {m}", short(&n.to_be()), short(&d.to_be()))))
}

fn big(n: &Nat) -> BigUint {
    BigUint::from_be_bytes(n.to_be())
}
fn nat(b: &BigUint) -> Nat {
    Nat::from_be(&b.to_be_bytes())
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct RawCase {
    n: Hx,
    exp: Hx,
    nums: Vec<Hx>,
    private: bool,
}

fn raw_check(c: &RawCase) -> Res {
    let n = Nat::from_be(&c.n);
    let e = Nat::from_be(&c.exp);
    let r: RsaEncryption = if c.private { import_private(&n, &e)?.into() } else { import_public(&n, &e)?.into() };
    let mut above = false;
    for (i, x) in c.nums.iter().enumerate() {
        let x = Nat::from_be(x);
        let want = x.modpow(&e, &n);
        above |= x >= n;
        for (what, got) in [("encrypt", r.encrypt(big(&x))), ("decrypt", r.decrypt(big(&x)))] {
            ensure!(got == big(&want) && nat(&got) == want, format!("raw:{what}"), "{what} of {} with exponent {} modulo {} gave {}, expected {} (number {i})", short(&x.to_be()), short(&e.to_be()), short(&n.to_be()), short(&got.to_be_bytes()), short(&want.to_be()));
        }
    }
    // again, in the other order
    if let Some(x) = c.nums.first() {
        let x = Nat::from_be(x);
        let got = r.decrypt(big(&x));
        ensure!(nat(&got) == x.modpow(&e, &n), "raw:reuse", "the same key gave another answer when used again");
    }
    Ok(Info::new(!c.nums.is_empty() && e > Nat::one())
        .label(above, "number above the modulus")
        .label(e.is_zero(), "zero exponent")
        .label(n.is_even(), "even modulus")
        .label(c.nums.iter().any(|x| Nat::from_be(x).is_zero()), "zero")
        .label(n.bits() > 128, "over 128 bits"))
}

/// A modulus of at least 2 with at most `max` bytes.
fn modulus(max: usize) -> BoxedStrategy<Hx> {
    number(max)
        .prop_map(|h| {
            let n = Nat::from_be(&h);
            Hx(if n < Nat::from_u128(2) { vec![2] } else { n.to_be() })
        })
        .boxed()
}

/// Numbers related to the modulus: 0, 1, n-1, n, n+1, multiples, and independent ones.
fn base_for(n: Nat, max: usize) -> BoxedStrategy<Hx> {
    (number(max), 0usize..10, 0u32..40)
        .prop_map(move |(h, k, s)| {
            let one = Nat::one();
            Hx(match k {
                0 => Nat::zero(),
                1 => one,
                2 => n.sub(&one),
                3 => n.clone(),
                4 => n.add(&one),
                5 => n.shl(s),
                6 => Nat::from_be(&h).rem(&n),
                _ => Nat::from_be(&h),
            }
            .to_be())
        })
        .boxed()
}

fn raw_case(nmax: usize, emax: usize, count: usize) -> BoxedStrategy<RawCase> {
    (modulus(nmax), number(emax), any::<bool>())
        .prop_flat_map(move |(n, exp, private)| {
            let nn = Nat::from_be(&n);
            (Just(n), Just(exp), vec(base_for(nn, nmax + 4), 1..=count), Just(private))
        })
        .prop_map(|(n, exp, nums, private)| RawCase { n, exp, nums, private })
        .boxed()
}

fn raw_fed(b: &[u8]) -> Option<RawCase> {
    let f = &mut Feed(b);
    let k = f.u8();
    let n = f.some(if k & 2 == 0 { 4 } else { 12 });
    let exp = f.some(if k & 2 == 0 { 4 } else { 2 });
    let x = f.some(16);
    let nn = Nat::from_be(&n);
    let x = match k % 5 {
        0 => nn.clone(),
        1 => nn.add(&Nat::one()),
        _ => Nat::from_be(&x),
    };
    (nn >= Nat::from_u128(2)).then(|| RawCase { n: Hx(nn.to_be()), exp, nums: vec![Hx(x.to_be())], private: k & 0x80 != 0 })
}

pub fn c15() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("raw-bytes", "libFuzzer's bytes as modulus, exponent and number", 5_000, 40, || blobs(9, &[10, 14, 20, 30, 36]).into_iter().map(|mut v| { v[1] = 3; v[5] = 2; v }).collect(), raw_fed, raw_check).boxed(),
        Facet::random("small-moduli", "moduli of 1..=3 bytes, exponents of 0..=3 bytes, three numbers (0, 1, n-1, n, n+1, multiples, arbitrary), both key kinds and both operations, against square-and-multiply on an independent integer type; non-trivial: exponent above 1", 20_000, || raw_case(3, 3, 3), raw_check).boxed(),
        Facet::random("medium-moduli", "moduli up to 20 bytes, exponents up to 8 bytes", 2_400, || raw_case(20, 8, 2), raw_check).chunk(8).boxed(),
        Facet::random("large-moduli", "moduli up to 70 bytes, exponents up to 3 bytes", 400, || raw_case(70, 3, 1), raw_check).chunk(2).boxed(),
        Facet::random("large-exponents", "moduli up to 10 bytes, exponents up to 60 bytes", 500, || raw_case(10, 60, 1), raw_check).chunk(4).boxed(),
        Facet::random("huge-exponents", "moduli up to 3 bytes, exponents up to 600 bytes", 100, || raw_case(3, 600, 1), raw_check).chunk(2).boxed(),
        Facet::random("huge-moduli", "moduli up to 600 bytes, exponents of 0..=1 bytes", 40, || raw_case(600, 1, 1), raw_check).chunk(1).boxed(),
        Facet::random("key-sized", "modulus and exponent both up to 140 bytes", 12, || raw_case(140, 140, 1), raw_check).chunk(1).boxed(),
        Facet::indexed(
            "tiny-exhaustive",
            "every modulus 2..=41 with every exponent 0..=15, every number 0..=modulus+2",
            40 * 16,
            |i| {
                let (n, e) = (i / 16 + 2, i % 16);
                any::<bool>().prop_map(move |private| RawCase { n: Hx(vec![n as u8]), exp: Hx(vec![e as u8]), nums: (0..=n + 2).map(|x| Hx(vec![x as u8])).collect(), private })
            },
            raw_check,
        )
        .chunk(8)
        .boxed(),
        Facet::indexed(
            "16-bit-length-edge",
            "moduli of 65530..=65540 and about 131072 bytes with exponents 0..=3 and numbers of up to 3 bytes: a modulus whose length in bytes needs more than 16 bits; non-trivial: always",
            16,
            |i| {
                let len = if i < 11 { 65_530 + i } else { 131_068 + i - 11 };
                (1u8..=255, 0u8..4, vec(number(3), 1..=2), any::<bool>(), any::<u8>()).prop_map(move |(top, e, nums, private, fill)| {
                    let mut n = vec![fill; len as usize];
                    n[0] = top;
                    RawCase { n: Hx(n), exp: Hx(vec![e]), nums, private }
                })
            },
            |c| raw_check(c).map(|mut i| { i.nontrivial = true; i }),
        )
        .chunk(1)
        .boxed(),
        Facet::indexed(
            "giant-exponents",
            "moduli of 1 or 2 bytes with exponents of 8190..=8197 and 16385 bytes: bit counts beyond 16 bits",
            18,
            |i| {
                let len = if i % 9 == 8 { 16_385 } else { 8190 + i as usize % 9 };
                (modulus(2), 1u8..=255, any::<u64>(), 0..KINDS, number(2), any::<bool>()).prop_map(move |(n, top, seed, kind, x, private)| {
                    let mut e = fill(kind, seed, len);
                    e[0] = top;
                    RawCase { n, exp: Hx(e), nums: vec![x], private }
                })
            },
            raw_check,
        )
        .chunk(1)
        .boxed(),
        Facet::indexed(
            "giant-numbers",
            "a modulus of 8192..=8194 bytes with exponent 1 and a number above or just below it: bit counts beyond 16 bits; non-trivial: always",
            3,
            |i| {
                (1u8..=255, any::<u8>(), any::<u8>(), any::<bool>()).prop_map(move |(top, fill, b, above)| {
                    let mut n = vec![fill; 8192 + i as usize];
                    n[0] = top;
                    let nn = Nat::from_be(&n);
                    let x = if above { nn.add(&Nat::from_u128(b as u128)) } else { nn.sub(&Nat::from_u128(b as u128)) };
                    RawCase { n: Hx(n), exp: Hx(vec![1]), nums: vec![Hx(x.to_be())], private: true }
                })
            },
            giant_check,
        )
        .chunk(1)
        .release_only()
        .limit(600)
        .boxed(),
    ]
}

/// Exponent 1 on a giant number, once: each operation takes seconds.
fn giant_check(c: &RawCase) -> Res {
    let (n, x) = (Nat::from_be(&c.n), Nat::from_be(&c.nums[0]));
    let r: RsaEncryption = import_private(&n, &Nat::one())?.into();
    // speed is not part of the property: an eighth of the size tells whether this would take minutes
    let eighth = Nat::from_be(&c.n[..1024]);
    let small: RsaEncryption = import_private(&eighth, &Nat::one())?.into();
    let t = std::time::Instant::now();
    let got = small.encrypt(big(&eighth.sub(&Nat::one())));
    ensure!(nat(&got) == eighth.sub(&Nat::one()), "raw:giant", "encrypting n-1 modulo n={} with exponent 1 gave {}", short(&c.n[..1024]), short(&got.to_be_bytes()));
    if t.elapsed() > std::time::Duration::from_millis(1500) {
        return Ok(Info::new(false).label(true, "left out: too slow"));
    }
    let got = r.encrypt(big(&x));
    let want = x.rem(&n);
    ensure!(nat(&got) == want, "raw:giant", "encrypting {} modulo {} with exponent 1 gave {}, expected {}", short(&x.to_be()), short(&n.to_be()), short(&got.to_be_bytes()), short(&want.to_be()));
    Ok(Info::new(true).label(x >= n, "number above the modulus"))
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct KeyGen {
    p: Hx,
    q: Hx,
    e: Hx,
    nums: Vec<Hx>,
}

fn keygen_check(c: &KeyGen) -> Res {
    let (p, q, e) = (Nat::from_be(&c.p), Nat::from_be(&c.q), Nat::from_be(&c.e));
    let one = Nat::one();
    let n = p.mul(&q);
    let l = p.sub(&one).lcm(&q.sub(&one));
    let inv = e.modinv(&l).is_some();
    let show = || format!("create_keys(p={}, q={}, e={})", short(&p.to_be()), short(&q.to_be()), short(&e.to_be()));
    let r = attempt(|| create_keys(big(&p), big(&q), big(&e)));
    let fits = n.bits() <= 128 && e.bits() <= 128;
    let info = Info::new((fits && inv && e > one) || !fits)
        .label(!inv, "exponent not invertible")
        .label(n.bits() > 128, "product above 128 bits")
        .label((120..=128).contains(&n.bits()), "product of 120 to 128 bits")
        .label(e > l, "exponent above lcm")
        .label(p < q, "p < q");
    let (sk, pk) = match r {
        Err(m) => {
            ensure!(!(inv && fits), "keygen:refused", "{} was refused: {m}", show());
            return Ok(info.label(true, "refused"));
        }
        Ok(v) => v,
    };
    ensure!(inv, "keygen:accepts", "{} returned keys although the exponent has no inverse", show());
    ensure!(pk == import_public(&n, &e)?, "keygen:public", "{} returned a public key other than (p*q, e): {pk:?}", show());
    let (s, t): (RsaEncryption, RsaEncryption) = (sk.clone().into(), pk.clone().into());
    // the private modulus is p*q
    for (x, w) in [(n.clone(), Nat::zero()), (n.add(&one), one.clone())] {
        ensure!(nat(&s.encrypt(big(&x))) == w, "keygen:private-modulus", "{}: the private key does not compute modulo p*q", show());
    }
    for x in &c.nums {
        let x = Nat::from_be(x).rem(&n);
        let y = t.encrypt(big(&x));
        ensure!(nat(&y) == x.modpow(&e, &n), "keygen:public", "{}: public operation on {} is wrong", show(), short(&x.to_be()));
        ensure!(nat(&s.decrypt(y)) == x, "keygen:inverse", "{}: {} does not survive encrypting with the public key and decrypting with the private key", show(), short(&x.to_be()));
        let y = s.encrypt(big(&x));
        ensure!(nat(&t.decrypt(y)) == x, "keygen:inverse", "{}: {} does not survive encrypting with the private key and decrypting with the public key", show(), short(&x.to_be()));
    }
    Ok(info.label(true, "keys returned"))
}

fn prime_bits(lo: u32, hi: u32) -> BoxedStrategy<Nat> {
    (lo..=hi, any::<u128>(), 0usize..8)
        .prop_map(|(b, v, k)| {
            let top = Nat::one().shl(b - 1);
            let v = if b >= 128 { v } else { v & ((1u128 << (b - 1)) - 1) };
            let start = match k {
                0 => top.clone(),                                  // just above a power of two
                1 => top.shl(1).checked_sub(&Nat::from_u128((v & 0xfff) | 1)).unwrap_or(top.clone()), // just below one
                _ => top.add(&Nat::from_u128(v)),
            };
            start.next_prime()
        })
        .boxed()
}

fn exponent(p: &Nat, q: &Nat) -> BoxedStrategy<Nat> {
    let one = Nat::one();
    let l = p.sub(&one).lcm(&q.sub(&one));
    let (l2, l3, l4, l5) = (l.clone(), l.clone(), l.clone(), l.clone());
    let pm = p.sub(&one);
    // the next invertible exponent at or above x
    let up = move |mut x: Nat| {
        for _ in 0..200 {
            if x.gcd(&l) == Nat::one() {
                return x;
            }
            x = x.add(&Nat::one());
        }
        Nat::one()
    };
    let (up2, up3) = (up.clone(), up.clone());
    prop_oneof![
        4 => select(vec![1u128, 3, 5, 7, 17, 257, 65537]).prop_map(move |e| up(Nat::from_u128(e))),
        4 => any::<u128>().prop_map(move |v| up2(Nat::from_u128(v).rem(&l2))),
        1 => any::<u128>().prop_map(move |v| { let x = up3(Nat::from_u128(v)); if x.bits() > 128 { Nat::one() } else { x } }),
        1 => (0u32..200).prop_map(move |k| l3.checked_sub(&Nat::from_u128(k as u128)).unwrap_or(Nat::one())),
        1 => any::<u128>().prop_map(move |v| { let x = l4.add(&Nat::from_u128(v % 1000)); if x.bits() > 128 { Nat::one() } else { x } }),
        // never invertible
        1 => (1u128..50).prop_map(move |k| { let x = pm.mul(&Nat::from_u128(k)); if x.bits() > 128 || l5 == Nat::one() { pm.clone() } else { x } }),
        1 => Just(Nat::zero()),
    ]
    .boxed()
}

fn keygen_case(lo: u32, hi: u32, count: usize) -> BoxedStrategy<KeyGen> {
    (prime_bits(lo, hi), prime_bits(lo, hi))
        .prop_flat_map(move |(p, q)| {
            let q = if p == q { q.add(&Nat::one()).next_prime() } else { q };
            let n = p.mul(&q);
            (exponent(&p, &q), Just(p), Just(q), vec(base_for(n, 16), 1..=count))
        })
        .prop_map(|(e, p, q, nums)| KeyGen { p: Hx(p.to_be()), q: Hx(q.to_be()), e: Hx(e.to_be()), nums })
        .boxed()
}

pub fn c16() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::random("small-primes", "distinct primes of 2..=12 bits, invertible and other exponents; public key compared with an imported (p*q, e), private key by round trips in both directions; non-trivial: keys returned for an exponent above 1, or a product or exponent beyond 128 bits", 6_000, || keygen_case(2, 12, 6), keygen_check).chunk(16).boxed(),
        Facet::indexed(
            "tiny-primes",
            "all ordered pairs of distinct primes below 44 with every exponent 0..=63, all numbers below the modulus where it is small",
            14 * 14 * 64,
            |i| {
                const P: [u8; 14] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43];
                let (a, b) = ((i / (14 * 64)) as usize, (i / 64 % 14) as usize);
                let b = if a == b { (b + 1) % 14 } else { b };
                let e = (i % 64) as u8;
                vec(any::<u16>(), 3).prop_map(move |r| {
                    let n = P[a] as u32 * P[b] as u32;
                    let nums = if n <= 15 { (0..n).map(|x| Hx(vec![x as u8])).collect() } else { r.iter().map(|x| Hx(x.to_be_bytes().to_vec())).collect() };
                    KeyGen { p: Hx(vec![P[a]]), q: Hx(vec![P[b]]), e: Hx(vec![e]), nums }
                })
            },
            keygen_check,
        )
        .thorough(14 * 14 * 64 * 2)
        .boxed(),
        Facet::random("medium-primes", "distinct primes of 13..=40 bits", 1_200, || keygen_case(13, 40, 2), keygen_check).chunk(4).boxed(),
        Facet::random("64-bit-primes", "distinct primes of 48..=66 bits: products from 96 bits to just above 128", 500, || keygen_case(48, 66, 1), keygen_check).chunk(2).boxed(),
        Facet::random(
            "unbalanced-primes",
            "one prime of 2..=20 bits, the other of 80..=128 bits",
            400,
            || {
                (prime_bits(2, 20), prime_bits(80, 127), any::<bool>())
                    .prop_flat_map(|(p, q, swap)| {
                        let (p, q) = if swap { (q, p) } else { (p, q) };
                        let n = p.mul(&q);
                        (exponent(&p, &q), Just(p), Just(q), vec(base_for(n, 16), 1))
                    })
                    .prop_map(|(e, p, q, nums)| KeyGen { p: Hx(p.to_be()), q: Hx(q.to_be()), e: Hx(e.to_be()), nums })
            },
            keygen_check,
        )
        .chunk(2)
        .boxed(),
        Facet::random(
            "too-big-products",
            "primes of 60..=130 bits whose product mostly exceeds 128 bits: refused, or exactly right",
            1_500,
            || keygen_case(60, 130, 1),
            keygen_check,
        )
        .chunk(4)
        .boxed(),
    ]
}

// ------------------------------------------------------------------ keys for C17, C19

#[derive(Clone, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub struct Key {
    pub n: Hx,
    pub e: Hx,
    pub d: Hx,
}

impl Key {
    pub fn nn(&self) -> Nat {
        Nat::from_be(&self.n)
    }
    pub fn k(&self) -> usize {
        self.n.len()
    }
    pub fn e(&self) -> Nat {
        Nat::from_be(&self.e)
    }
    pub fn d(&self) -> Nat {
        Nat::from_be(&self.d)
    }
}

fn unhex(s: &str) -> Hx {
    Hx(hex::decode(if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() }).unwrap())
}

/// (modulus bits, the small exponent is e, key)
pub fn pool() -> &'static [(u32, bool, Key)] {
    static P: OnceLock<Vec<(u32, bool, Key)>> = OnceLock::new();
    P.get_or_init(|| {
        include_str!("keys.txt")
            .lines()
            .map(|l| {
                let f: Vec<&str> = l.split(' ').collect();
                let k = Key { n: unhex(f[1]), e: unhex(f[2]), d: unhex(f[3]) };
                (f[0].parse().unwrap(), k.e.len() <= 3, k)
            })
            .collect()
    })
}

pub fn keys(small_e: bool, lo: u32, hi: u32) -> BoxedStrategy<Key> {
    select(pool().iter().filter(|k| k.1 == small_e && (lo..=hi).contains(&k.0)).map(|k| k.2.clone()).collect::<Vec<_>>()).boxed()
}

/// Message length for a modulus of k bytes: anything allowed, with weight on the ends.
fn oaep_msg(k: usize) -> BoxedStrategy<Hx> {
    let max = k - 66;
    prop_oneof![3 => bytes(0..=max), 1 => arr(max), 1 => Just(Hx(vec![])), 1 => bytes(0..=max).prop_map(|mut h| { if !h.is_empty() { h.0[0] = 0; } h }), 1 => bytes(0..=max).prop_map(|mut h| { if !h.is_empty() { h.0[0] = 1; } h })].boxed()
}

// ------------------------------------------------------------------ C17

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct EncM {
    key: Key,
    msg: Hx,
}

fn lib_public(k: &Key) -> Result<RsaEncryption, Fail> {
    Ok(import_public(&k.nn(), &k.e())?.into())
}
fn lib_private(k: &Key) -> Result<RsaEncryption, Fail> {
    Ok(import_private(&k.nn(), &k.d())?.into())
}

fn ref_decrypt(k: &Key, ct: &[u8]) -> Option<Vec<u8>> {
    let c = Nat::from_be(ct);
    if ct.len() != k.k() || c >= k.nn() {
        return None;
    }
    oaep::decode(b"", &c.modpow(&k.d(), &k.nn()).to_be_len(k.k()), k.k())
}

fn lib_encrypt_check(c: &EncM) -> Res {
    let k = c.key.k();
    let r = lib_public(&c.key)?;
    let ct = r.encrypt_message(&c.msg, RsaPadding);
    ensure!(ct.len() == k, "rsa:length", "encrypting {} under a {k}-byte modulus gave {} bytes", short(&c.msg), ct.len());
    ensure!(Nat::from_be(&ct) < c.key.nn(), "rsa:range", "the ciphertext is not below the modulus");
    let back = ref_decrypt(&c.key, &ct);
    ensure!(back.as_ref() == Some(&c.msg.0), "rsa:interop", "an RFC 8017 decryption of the ciphertext gives {:?} instead of {}", back.map(hex::encode), short(&c.msg));
    Ok(Info::new(true).label(ct[0] == 0, "ciphertext begins with zero").label(c.msg.is_empty(), "empty message").label(c.msg.len() == k - 66, "longest message").label(c.key.nn().bits() % 8 == 1, "modulus of 8k+1 bits"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct DecM {
    key: Key,
    msg: Hx,
    seed: Hx,
    /// search seeds until the encoded message has a zero second byte
    zero_second: bool,
}

fn seed_for(c: &DecM) -> (Vec<u8>, Vec<u8>) {
    let k = c.key.k();
    let mut seed = c.seed.0.clone();
    let mut s = seed.iter().fold(0u64, |a, &b| a.wrapping_mul(257).wrapping_add(b as u64));
    loop {
        let em = oaep::encode(b"", &c.msg, &seed, k).unwrap();
        if !c.zero_second || em[1] == 0 {
            return (seed, em);
        }
        let i = splitmix(&mut s) as usize;
        seed[i % 32] ^= (i >> 8) as u8 | 1;
    }
}

fn lib_decrypt_check(c: &DecM) -> Res {
    let k = c.key.k();
    let (seed, em) = seed_for(c);
    let ct = Nat::from_be(&em).modpow(&c.key.e(), &c.key.nn()).to_be_len(k);
    let r = lib_private(&c.key)?;
    let got = attempt(|| r.decrypt_message(&ct, RsaPadding));
    match got {
        Ok(m) => ensure!(m == c.msg.0, "rsa:decrypt", "an RFC 8017 ciphertext of {} (seed {}) decrypted to {}", short(&c.msg), short(&seed), short(&m)),
        Err(e) => ensure!(false, "rsa:decrypt", "an RFC 8017 ciphertext of {} (seed {}, begins {}) was refused: {e}", short(&c.msg), short(&seed), short(&ct[..4])),
    }
    Ok(Info::new(true).label(ct[0] == 0, "ciphertext begins with zero").label(em[1] == 0, "encoded message begins with two zeros").label(c.msg.is_empty(), "empty message").label(c.msg.len() == k - 66, "longest message").label(c.key.nn().bits() % 8 == 1, "modulus of 8k+1 bits"))
}

fn roundtrip_check(c: &EncM) -> Res {
    let ct = lib_public(&c.key)?.encrypt_message(&c.msg, RsaPadding);
    let r = lib_private(&c.key)?;
    let got = attempt(|| r.decrypt_message(&ct, RsaPadding));
    ensure!(got.as_ref().ok() == Some(&c.msg.0), "rsa:roundtrip", "{} encrypted and decrypted gives {:?}", short(&c.msg), got.map(hex::encode));
    Ok(Info::new(true))
}

fn too_long_check(c: &EncM) -> Res {
    let r = lib_public(&c.key)?;
    let max = c.key.k().checked_sub(66);
    let over = max.is_none_or(|m| c.msg.len() > m);
    let got = attempt(|| r.encrypt_message(&c.msg, RsaPadding));
    ensure!(got.is_err() == over, "rsa:limit", "a message of {} bytes under a {}-byte modulus was {}", c.msg.len(), c.key.k(), if over { "encrypted" } else { "refused" });
    Ok(Info::new(over))
}

pub fn c17() -> Vec<Box<dyn DynFacet>> {
    let enc = |lo, hi| move || keys(true, lo, hi).prop_flat_map(|key| { let k = key.k(); (Just(key), oaep_msg(k)) }).prop_map(|(key, msg)| EncM { key, msg });
    let dec = |lo, hi| {
        move || {
            keys(false, lo, hi)
                .prop_flat_map(|key| { let k = key.k(); (Just(key), oaep_msg(k), prop_oneof![3 => arr(32), 1 => Just(Hx(vec![0; 32])), 1 => Just(Hx(vec![42; 32]))], prop::bool::weighted(0.4)) })
                .prop_map(|(key, msg, seed, zero_second)| DecM { key, msg, seed, zero_second })
        }
    };
    vec![
        Facet::random("library-encrypts", "keys of 521..=620 bits (all lengths mod 8, some just above or below a power of two) with a small public exponent; the ciphertext has the modulus length and decrypts under an independent RFC 8017 implementation", 2_400, enc(521, 620), lib_encrypt_check).chunk(8).boxed(),
        Facet::random("library-decrypts", "reference ciphertexts with generated seeds (some searched so that the padded message starts 00 00) for keys with a small private exponent", 2_400, dec(521, 620), lib_decrypt_check).chunk(8).boxed(),
        Facet::random("library-encrypts-large", "keys of 641..=1033 bits", 250, enc(621, 1033), lib_encrypt_check).chunk(2).boxed(),
        Facet::random("library-decrypts-large", "keys of 641..=1033 bits", 250, dec(621, 1033), lib_decrypt_check).chunk(2).boxed(),
        Facet::random("library-encrypts-2048", "keys of 1536..=2049 bits", 16, enc(1500, 2100), lib_encrypt_check).chunk(1).boxed(),
        Facet::random("library-decrypts-2048", "keys of 1536..=2049 bits", 16, dec(1500, 2100), lib_decrypt_check).chunk(1).boxed(),
        Facet::random("library-encrypts-4096", "keys of 2600..=4099 bits: the separator can stand beyond 256 bytes", 10, enc(2500, 4200), lib_encrypt_check).chunk(1).thorough(80).boxed(),
        Facet::random("library-decrypts-4096", "keys of 2600..=4099 bits", 20, dec(2500, 4200), lib_decrypt_check).chunk(1).thorough(160).boxed(),
        Facet::random("library-both-ways", "encrypted and decrypted by the library, full-size private exponents", 24, enc(521, 560), roundtrip_check).chunk(1).thorough(300).boxed(),
        Facet::random(
            "message-limit",
            "messages around the longest allowed one and moduli too small for any; refused exactly when too long (non-trivial: too long)",
            1_000,
            || {
                prop_oneof![
                    3 => keys(true, 521, 620).prop_flat_map(|key| { let m = key.k() - 66; (Just(key), prop_oneof![m.saturating_sub(1)..=m + 2, m + 1..=m + 70, Just(m + 66), Just(m + 300)].prop_flat_map(arr)) }).boxed(),
                    1 => (1usize..=65, any::<u8>()).prop_flat_map(|(k, b)| (arr(k).prop_map(move |mut n| { n.0[0] = b | 1; Key { n, e: Hx(vec![3]), d: Hx(vec![3]) } }), bytes(0usize..=70))).boxed(),
                ]
                .prop_map(|(key, msg)| EncM { key, msg })
            },
            too_long_check,
        )
        .chunk(8)
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C18

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct OaepEnc {
    label: Msg,
    msg: Msg,
    k: usize,
}

fn oaep_enc_check(c: &OaepEnc) -> Res {
    let (label, msg) = (c.label.expand(), c.msg.expand());
    let fits = c.k >= msg.len() + 66;
    let em = match attempt(|| RsaPadding.encode(&label, &msg, c.k)) {
        Ok(em) => em,
        Err(e) => {
            ensure!(!fits, "oaep:refused", "encoding {} bytes into {} was refused: {e}", msg.len(), c.k);
            return Ok(Info::new(true).label(true, "too small refused"));
        }
    };
    ensure!(fits, "oaep:limit", "{} bytes were encoded into {} (at least {} needed)", msg.len(), c.k, msg.len() + 66);
    ensure!(em.len() == c.k && em[0] == 0, "oaep:shape", "the encoded message has {} bytes (asked {}), first byte {:?}", em.len(), c.k, em.first());
    let back = oaep::decode(&label, &em, c.k);
    ensure!(back.as_ref() == Some(&msg), "oaep:encode", "an RFC 8017 decoder maps the encoding of {} (label {}, length {}) to {:?}", short(&msg), short(&label), c.k, back.map(|b| short(&b)));
    let own = RsaPadding.decode(&label, &em, c.k);
    ensure!(own.as_ref().ok() == Some(&msg), "oaep:roundtrip", "decode(encode({})) is {:?}", short(&msg), own.map(|b| short(&b)));
    Ok(Info::new(true).label(c.k == msg.len() + 66, "no padding string").label(msg.is_empty(), "empty message").label(label.is_empty(), "empty label"))
}

/// How an encoded message is built before it is decoded.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Twist {
    None,
    FirstByte(u8),
    /// xor into the (unmasked) data block
    Db(usize, u8),
    /// xor into the encoded bytes
    Em(usize, u8),
    /// replaces everything after the label hash
    Rest(Hx),
    WrongLabel(Hx),
    /// lengths: cut that many bytes, or add these
    Cut(usize),
    Extend(Hx),
    /// n_len argument differs from the block length
    NLen(usize),
    Replace(Hx),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct OaepDec {
    label: Hx,
    msg: Hx,
    seed: Hx,
    k: usize,
    twist: Twist,
}

fn oaep_dec_check(c: &OaepDec) -> Res {
    let mut db = oaep::db(&c.label, &c.msg, c.k).unwrap();
    let mut first = 0;
    match &c.twist {
        Twist::FirstByte(b) => first = *b,
        Twist::Db(i, x) => {
            let n = db.len();
            db[i % n] ^= x
        }
        Twist::Rest(r) => {
            let n = db.len();
            for i in oaep::H..n {
                db[i] = *r.get(i - oaep::H).unwrap_or(&0);
            }
        }
        Twist::WrongLabel(l) => db = oaep::db(l, &c.msg, c.k).unwrap(),
        _ => {}
    }
    let mut em = oaep::mask(first, &c.seed, &db);
    let mut n_len = em.len();
    match &c.twist {
        Twist::Em(i, x) => {
            let n = em.len();
            em[i % n] ^= x
        }
        Twist::Cut(k) => {
            em.truncate(em.len().saturating_sub(*k));
            n_len = em.len();
        }
        Twist::Extend(e) => {
            em.extend_from_slice(e);
            n_len = em.len();
        }
        Twist::NLen(k) => n_len = *k,
        Twist::Replace(r) => {
            em = r.0.clone();
            n_len = em.len();
        }
        _ => {}
    }
    let want = oaep::decode(&c.label, &em, n_len);
    let got = attempt(|| RsaPadding.decode(&c.label, &em, n_len));
    let what = || format!("decoding {} (length {}, n_len {n_len}, label {}, {:?})", short(&em), em.len(), short(&c.label), c.twist);
    match (&got, &want) {
        (Err(p), _) => ensure!(false, "oaep:panic", "{} panicked: {p}", what()),
        (Ok(Ok(g)), Some(w)) => ensure!(g == w, "oaep:decode", "{} gave {} instead of {}", what(), short(g), short(w)),
        (Ok(Ok(g)), None) => ensure!(false, "oaep:accepts", "{} gave {} instead of an error", what(), short(g)),
        (Ok(Err(e)), Some(w)) => ensure!(false, "oaep:decode", "{} gave the error {e:?} instead of {}", what(), short(w)),
        (Ok(Err(_)), None) => {}
    }
    Ok(Info::new(true).label(want.is_some(), "valid").label(want.is_none(), "must be an error").label(em.len() < 66, "shorter than any encoding").label(em.len() != n_len, "length argument differs"))
}

fn twist(k: usize) -> BoxedStrategy<Twist> {
    let rest = k - 1 - 2 * oaep::H;
    prop_oneof![
        3 => Just(Twist::None),
        2 => (1u8..).prop_map(Twist::FirstByte),
        3 => (any::<usize>(), prop_oneof![1u8.., (0u32..8).prop_map(|b| 1 << b)]).prop_map(|(i, x)| Twist::Db(i, x)),
        2 => (0usize..oaep::H, (0u32..8).prop_map(|b| 1u8 << b)).prop_map(|(i, x)| Twist::Db(i, x)),
        3 => (any::<usize>(), prop_oneof![1u8.., (0u32..8).prop_map(|b| 1 << b)]).prop_map(|(i, x)| Twist::Em(i, x)),
        2 => arr(rest).prop_map(Twist::Rest),
        3 => (vec(select(vec![0u8, 0, 0, 0, 1, 2, 0x80, 0xff]), rest)).prop_map(|v| Twist::Rest(Hx(v))),
        1 => Just(Twist::Rest(Hx(vec![]))),
        2 => (0..rest, any::<u8>()).prop_map(|(z, b)| { let mut v = vec![0; z]; v.push(b); Twist::Rest(Hx(v)) }),
        2 => small_bytes(10).prop_map(Twist::WrongLabel),
        2 => prop_oneof![1usize..=3, 1..=k].prop_map(Twist::Cut),
        2 => bytes(1usize..=40).prop_map(Twist::Extend),
        2 => prop_oneof![0..=k + 40, Just(k - 1), Just(k + 1), Just(0), Just(33), Just(65)].prop_map(Twist::NLen),
        1 => bytes(0usize..=140).prop_map(Twist::Replace),
        1 => bytes(0usize..=140).prop_map(|mut h| { if !h.is_empty() { h.0[0] = 0; } Twist::Replace(h) }),
    ]
    .boxed()
}

/// A label a careless comparison would identify with the given one (or the same).
fn kin_label(l: &[u8], at: usize, how: usize, x: u8) -> Vec<u8> {
    let mut v = l.to_vec();
    let n = v.len();
    match how {
        0 => {}
        1 => v.push(0),
        2 => v.push(x),
        3 => v.insert(0, x),
        4 => {
            v.pop();
        }
        5 if n > 0 => v[n - 1] ^= x,
        6 if n > 0 => v[0] ^= x,
        7 if n > 0 => v[at % n] ^= x,
        8 => v.truncate(at % (n + 1)),
        _ => v.extend([x; 64]),
    }
    v
}

fn oaep_enc_fed(b: &[u8]) -> Option<OaepEnc> {
    let f = &mut Feed(b);
    let d = f.u8() as usize;
    let label = Msg::Raw(f.some(80));
    let msg = Msg::Raw(f.rest());
    let k = (msg.len() + 60 + d % 128).saturating_sub(if d >= 250 { 64 } else { 0 });
    Some(OaepEnc { label, msg, k })
}

/// The bytes are what lies behind the masks: seed, and the data block after the label hash.
fn oaep_dec_fed(b: &[u8]) -> Option<OaepDec> {
    let f = &mut Feed(b);
    let (kind, x) = (f.u8(), f.u8());
    let label = f.some(40);
    let seed = f.take(32);
    let rest = f.rest();
    let k = 66.max(65 + rest.len());
    let twist = match kind % 8 {
        0 => Twist::FirstByte(x),
        1 => Twist::Db(f.u8() as usize + x as usize, 1 << (kind >> 5)),
        2 => Twist::NLen(x as usize),
        3 => Twist::Cut(x as usize),
        4 => Twist::Replace(rest),
        _ => Twist::Rest(rest),
    };
    Some(OaepDec { label, msg: Hx(vec![]), seed, k, twist })
}

pub fn c18() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("encoding-bytes", "libFuzzer's bytes as label, message and length", 60_000, 300, || blobs(10, &[2, 5, 10, 40, 120, 260]), oaep_enc_fed, oaep_enc_check).boxed(),
        Facet::fuzzed("decoding-bytes", "libFuzzer's bytes as label, seed, data block and damage", 60_000, 300, || blobs(11, &[40, 60, 120, 200]).into_iter().chain((0u8..8).map(|i| [&[i, 0, 3, 7, 7, 7][..], &[9; 32], &[0, 0, 0, 0, 1, 65, 66]].concat())).collect(), oaep_dec_fed, oaep_dec_check).boxed(),
        Facet::random(
            "encoding",
            "label, message and output length (from too small to 400 above the minimum); shape, and an independent RFC 8017 decoder maps it back; refused exactly when too small",
            30_000,
            || (msg(0usize..=100), msg(0usize..=200), prop_oneof![2 => 0i64..=3, 2 => 0i64..=400, 1 => -70i64..0]).prop_map(|(label, msg, d)| { let k = (msg.len() as i64 + 66 + d).max(0) as usize; OaepEnc { label, msg, k } }),
            oaep_enc_check,
        )
        .boxed(),
        Facet::indexed(
            "encoding-lengths",
            "every message length 0..=120 with every output length 0..=260",
            121 * 261,
            |i| (small_bytes(3), msg_of_len((i / 261) as usize)).prop_map(move |(l, msg)| OaepEnc { label: Msg::Raw(l), msg, k: (i % 261) as usize }),
            oaep_enc_check,
        )
        .boxed(),
        Facet::random(
            "long-encoding",
            "output lengths where the mask generation counter passes 255 (8 kB) and 65535 (2 MB)",
            24,
            || (msg(0usize..=300), prop_oneof![2 => msg(7000usize..12_000), 1 => Just(Msg::Fill { kind: 1, seed: 9, len: 2_100_000 })], 0usize..3000).prop_map(|(label, msg, d)| { let k = msg.len() + 66 + d; OaepEnc { label, msg, k } }),
            oaep_enc_check,
        )
        .chunk(1)
        .boxed(),
        Facet::random(
            "decoding",
            "reference encodings with any seed, untouched or twisted in one way (first byte, data block, label hash, separator, other label, encoded byte, cut, extended, length argument, arbitrary bytes); message or error decided by an independent decoder, never a panic",
            120_000,
            || {
                (66usize..=200, small_bytes(12), arr(32))
                    .prop_flat_map(|(k, label, seed)| (Just(k), Just(label), Just(seed), bytes(0..=k - 66), twist(k)))
                    .prop_map(|(k, label, seed, msg, twist)| OaepDec { label, msg, seed, k, twist })
            },
            oaep_dec_check,
        )
        .boxed(),
        Facet::random(
            "decoding-longer",
            "the same with encodings of 200..=1100 bytes, messages from none to the longest, labels to 300 bytes, and length arguments off by 256",
            6_000,
            || {
                (200usize..=1100, bytes(0usize..=300), arr(32))
                    .prop_flat_map(|(k, label, seed)| (Just(k), Just(label), Just(seed), prop_oneof![bytes(0..=k - 66), bytes(0usize..=20), bytes(k - 80..=k - 66)], prop_oneof![5 => twist(k), 1 => select(vec![k + 256, k + 512, k.saturating_sub(256), k + 65_536, k + (1 << 32), k + (1 << 63), usize::MAX]).prop_map(Twist::NLen)]))
                    .prop_map(|(k, label, seed, msg, twist)| OaepDec { label, msg, seed, k, twist })
            },
            oaep_dec_check,
        )
        .chunk(8)
        .boxed(),
        Facet::random(
            "decoding-long",
            "encodings of about 8 kB (mask counter past 255), 64 kB and 2 MB (mask counter past 65535), with separators everywhere in them",
            24,
            || {
                (prop_oneof![4 => 7_000usize..12_000, 4 => 65_500usize..65_700, 1 => 2_097_000usize..2_110_000], bytes(0usize..=300), arr(32))
                    .prop_flat_map(|(k, label, seed)| (Just(k), Just(label), Just(seed), prop_oneof![2 => bytes(0usize..=20), 2 => bytes(k - 80..=k - 66), 1 => bytes(0..=k - 66)], prop_oneof![3 => Just(Twist::None), 1 => (any::<usize>(), 1u8..).prop_map(|(i, x)| Twist::Db(i, x)), 1 => (any::<usize>(), 1u8..).prop_map(|(i, x)| Twist::Em(i, x)), 1 => select(vec![k + 65_536, k.saturating_sub(65_536), k + 1, k - 1]).prop_map(Twist::NLen)]))
                    .prop_map(|(k, label, seed, msg, twist)| OaepDec { label, msg, seed, k, twist })
            },
            oaep_dec_check,
        )
        .chunk(1)
        .boxed(),
        Facet::random(
            "similar-labels",
            "an encoding under a label that is the expected one with bytes added, removed or changed at one place (zeros, white space, past any whole number of hash blocks), labels to 70000 bytes; non-trivial: the labels differ",
            20_000,
            || {
                (prop_oneof![4 => bytes(0usize..=20), 4 => bytes(50usize..=140), 2 => bytes(250usize..=260), 1 => bytes(1000usize..=1100)], arr(32), bytes(0usize..=20), any::<usize>(), 0usize..9, any::<u8>()).prop_map(|(label, seed, msg, at, how, x)| {
                    let other = kin_label(&label, at, how, x);
                    OaepDec { label, msg, seed, k: 100, twist: Twist::WrongLabel(Hx(other)) }
                })
            },
            oaep_dec_check,
        )
        .boxed(),
        Facet::indexed(
            "huge-labels",
            "the same with labels around 65536 bytes",
            40,
            |i| {
                (arr(65_530 + i as usize % 10), arr(32), any::<usize>(), 0usize..9, any::<u8>()).prop_map(|(label, seed, at, how, x)| {
                    let other = kin_label(&label, at, how, x);
                    OaepDec { label, msg: Hx(vec![1]), seed, k: 70, twist: Twist::WrongLabel(Hx(other)) }
                })
            },
            oaep_dec_check,
        )
        .chunk(1)
        .boxed(),
        Facet::indexed(
            "decoding-single-byte-damage",
            "every byte position of a 100-byte encoding with every flipped bit, and every byte of its data block",
            100 * 8 + 67 * 8,
            |i| {
                (small_bytes(5), arr(32), bytes(0usize..=34)).prop_map(move |(label, seed, msg)| {
                    let twist = if i < 800 { Twist::Em((i / 8) as usize, 1 << (i % 8)) } else { Twist::Db(((i - 800) / 8) as usize, 1 << (i % 8)) };
                    OaepDec { label, msg, seed, k: 100, twist }
                })
            },
            oaep_dec_check,
        )
        .boxed(),
        Facet::indexed(
            "decoding-short",
            "byte strings of every length 0..=140 (zero or generated first byte) with every kind of length argument",
            141 * 8,
            |i| {
                let n = (i / 8) as usize;
                (arr(n), small_bytes(2), prop_oneof![Just(n), 0usize..=150]).prop_map(move |(mut b, label, nl)| {
                    if i % 2 == 0 && n > 0 {
                        b.0[0] = 0;
                    }
                    let twist = if nl == n { Twist::Replace(b) } else { Twist::NLen(nl) };
                    OaepDec { label, msg: Hx(vec![]), seed: Hx(vec![3; 32]), k: n.max(66), twist }
                })
            },
            oaep_dec_check,
        )
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C19

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Damage {
    None,
    Flip(usize, u8),
    Cut(usize),
    CutFront(usize),
    Extend(Hx),
    ExtendFront(Hx),
    Random(Hx),
    /// a label other than the empty one
    Label(Hx),
    /// c + n, where it still fits the modulus length
    PlusN,
    /// minus: n - c
    Negated,
    /// c * x^e: a multiplied message
    Scaled(u8),
    /// encrypts this encoded block instead (damaged before encryption)
    Block(Twist),
    OtherKey(usize),
    Zero,
    One,
    NMinusOne,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Damaged {
    key: Key,
    msg: Hx,
    seed: Hx,
    how: Damage,
}

fn damaged_check(c: &Damaged) -> Res {
    let k = c.key.k();
    let (n, e) = (c.key.nn(), c.key.e());
    let mut em = oaep::encode(b"", &c.msg, &c.seed, k).unwrap();
    if let Damage::Label(l) = &c.how {
        em = oaep::encode(l, &c.msg, &c.seed, k).unwrap();
    }
    if let Damage::Block(t) = &c.how {
        let mut db = oaep::db(b"", &c.msg, k).unwrap();
        let mut first = 0;
        match t {
            // must stay below the modulus
            Twist::FirstByte(b) => first = (*b).min(n.to_be()[0].saturating_sub(1)),
            Twist::Db(i, x) => {
                let l = db.len();
                db[i % l] ^= x
            }
            Twist::Rest(r) => {
                for i in oaep::H..db.len() {
                    db[i] = *r.get(i - oaep::H).unwrap_or(&0);
                }
            }
            _ => {}
        }
        em = oaep::mask(first, &c.seed, &db);
        if let Twist::Em(i, x) = t {
            em[1 + i % (k - 1)] ^= x;
        }
    }
    let enc = |m: &Nat, n: &Nat, e: &Nat| m.modpow(e, n);
    let cn = match &c.how {
        Damage::OtherKey(i) => {
            let same: Vec<&Key> = pool().iter().filter(|x| x.2.k() == k && x.2.n != c.key.n && !x.1).map(|x| &x.2).collect();
            if same.is_empty() {
                enc(&Nat::from_be(&em), &n, &e)
            } else {
                let o = same[i % same.len()];
                let c2 = enc(&Nat::from_be(&em), &o.nn(), &o.e());
                if c2 < n { c2 } else { c2.rem(&n) }
            }
        }
        _ => enc(&Nat::from_be(&em), &n, &e),
    };
    let cn = match &c.how {
        Damage::PlusN if cn.add(&n).to_be().len() <= k => cn.add(&n),
        Damage::Negated => n.sub(&cn),
        Damage::Scaled(x) => cn.mul(&Nat::from_u128(*x as u128).modpow(&e, &n)).rem(&n),
        Damage::Zero => Nat::zero(),
        Damage::One => Nat::one(),
        Damage::NMinusOne => n.sub(&Nat::one()),
        _ => cn,
    };
    let mut ct = cn.to_be_len(k);
    match &c.how {
        Damage::Flip(i, x) => ct[i % k] ^= x,
        Damage::Cut(j) => ct.truncate(k.saturating_sub(*j)),
        Damage::CutFront(j) => {
            ct.drain(..(*j).min(k));
        }
        Damage::Extend(x) => ct.extend_from_slice(x),
        Damage::ExtendFront(x) => {
            ct.splice(0..0, x.iter().copied());
        }
        Damage::Random(x) => ct = x.0.clone(),
        _ => {}
    }
    let want = ref_decrypt(&c.key, &ct);
    let r = lib_private(&c.key)?;
    let got = attempt(|| r.decrypt_message(&ct, RsaPadding));
    let what = || format!("{} ({} bytes, {:?}) under a {k}-byte modulus", short(&ct), ct.len(), c.how);
    match (&got, &want) {
        (Ok(g), None) => ensure!(false, "rsa:accepts", "{} is not an encryption of any message but decrypted to {}", what(), short(g)),
        (Ok(g), Some(w)) => ensure!(g == w, "rsa:wrong", "{} decrypted to {} instead of {}", what(), short(g), short(w)),
        (Err(e), Some(w)) => ensure!(false, "rsa:refuses", "{} encrypts {} but was refused: {e}", what(), short(w)),
        (Err(_), None) => {}
    }
    Ok(Info::new(want.is_none())
        .label(want.is_some(), "undamaged")
        .label(ct.len() != k, "wrong length")
        .label(matches!(c.how, Damage::Block(_)) && want.is_none(), "bad block, properly encrypted")
        .label(ct.len() == k && Nat::from_be(&ct) >= n, "not below the modulus"))
}

fn damage(k: usize) -> BoxedStrategy<Damage> {
    let rest = k - 1 - 2 * oaep::H;
    let block = prop_oneof![
        1 => (1u8..).prop_map(Twist::FirstByte),
        2 => (any::<usize>(), (0u32..8).prop_map(|b| 1u8 << b)).prop_map(|(i, x)| Twist::Db(i, x)),
        2 => (0usize..oaep::H, (0u32..8).prop_map(|b| 1u8 << b)).prop_map(|(i, x)| Twist::Db(i, x)),
        2 => (any::<usize>(), 1u8..).prop_map(|(i, x)| Twist::Em(i, x)),
        2 => vec(select(vec![0u8, 0, 0, 0, 1, 2, 0x80]), rest).prop_map(|v| Twist::Rest(Hx(v))),
        1 => Just(Twist::Rest(Hx(vec![]))),
    ];
    prop_oneof![
        1 => Just(Damage::None),
        3 => (any::<usize>(), 1u8..).prop_map(|(i, x)| Damage::Flip(i, x)),
        2 => (any::<usize>(), (0u32..8).prop_map(|b| 1u8 << b)).prop_map(|(i, x)| Damage::Flip(i, x)),
        1 => prop_oneof![1usize..=3, 1..=k].prop_map(Damage::Cut),
        1 => prop_oneof![1usize..=3, 1..=k].prop_map(Damage::CutFront),
        1 => bytes(1usize..=10).prop_map(Damage::Extend),
        1 => prop_oneof![bytes(1usize..=3), (1usize..=3).prop_map(|n| Hx(vec![0; n]))].prop_map(Damage::ExtendFront),
        1 => prop_oneof![arr(k), bytes(0..=k + 5)].prop_map(Damage::Random),
        1 => arr(k).prop_map(|mut h| { h.0[0] = 0; Damage::Random(h) }),
        2 => bytes(1usize..=20).prop_map(Damage::Label),
        2 => Just(Damage::PlusN),
        1 => Just(Damage::Negated),
        1 => (2u8..).prop_map(Damage::Scaled),
        5 => block.prop_map(Damage::Block),
        1 => any::<usize>().prop_map(Damage::OtherKey),
        1 => select(vec![Damage::Zero, Damage::One, Damage::NMinusOne]),
    ]
    .boxed()
}

pub fn c19() -> Vec<Box<dyn DynFacet>> {
    let f = |lo, hi| {
        move || {
            keys(false, lo, hi)
                .prop_flat_map(|key| { let k = key.k(); (Just(key), oaep_msg(k), arr(32), damage(k)) })
                .prop_map(|(key, msg, seed, how)| Damaged { key, msg, seed, how })
        }
    };
    vec![
        Facet::random(
            "damaged-ciphertexts",
            "keys of 521..=620 bits with a small private exponent; reference ciphertexts damaged in one of 16 ways before or after encryption (bits, length, label, key, multiples, out of range, crafted blocks); returned or refused as an independent RFC 8017 decryption decides; non-trivial: must be refused",
            4_000,
            f(521, 620),
            damaged_check,
        )
        .chunk(8)
        .boxed(),
        Facet::random("damaged-large", "keys of 641..=1033 bits", 300, f(621, 1033), damaged_check).chunk(2).boxed(),
        Facet::random("damaged-4096", "keys of 1536..=4099 bits", 16, f(1500, 4200), damaged_check).chunk(1).thorough(160).boxed(),
    ]
}

// ------------------------------------------------------------------ C25

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Seeds {
    label: Hx,
    msg: Hx,
    label2: Hx,
    msg2: Hx,
    k: usize,
    k2: usize,
}

fn seeds_check(c: &Seeds) -> Res {
    let seed = |l: &Hx, m: &Hx, k: usize| -> Result<Vec<u8>, Fail> {
        let k = k.max(m.len() + 66);
        let em = RsaPadding.encode(l, m, k);
        match oaep::unmask(&em) {
            Some((0, s, d)) if Some(&d) == oaep::db(l, m, k).as_ref() => Ok(s),
            _ => Err(Fail::new("oaep:encode", format!("encoding of {} is not RFC 8017, so it has no seed", short(m)))),
        }
    };
    let all = [seed(&c.label, &c.msg, c.k)?, seed(&c.label, &c.msg, c.k)?, seed(&c.label2, &c.msg2, c.k2)?, seed(&c.label, &c.msg, c.k)?];
    let distinct: std::collections::HashSet<&Vec<u8>> = all.iter().collect();
    if distinct.len() == all.len() {
        return Ok(Info::new(true).label(true, "all seeds distinct"));
    }
    if distinct.len() == 1 {
        return Err(Fail::new(format!("constant-seed:{}", hex::encode(&all[0])), format!("four encodings (of {} and {}) used the one seed {}", short(&c.msg), short(&c.msg2), hex::encode(&all[0]))));
    }
    Err(Fail::new("repeated-seed", format!("encodings of {} / {} / {} repeat seeds {:?}: the seed depends on the input", short(&c.msg), short(&c.msg), short(&c.msg2), all.iter().map(hex::encode).collect::<Vec<_>>())))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Twice {
    key: Key,
    msg: Hx,
}

fn twice_check(c: &Twice) -> Res {
    let r = lib_public(&c.key)?;
    let a = r.encrypt_message(&c.msg, RsaPadding);
    let b = r.encrypt_message(&c.msg, RsaPadding);
    if a != b {
        return Ok(Info::new(true));
    }
    // which seed was it
    let m = Nat::from_be(&a).modpow(&c.key.d(), &c.key.nn()).to_be_len(c.key.k());
    let s = oaep::unmask(&m).map(|x| hex::encode(x.1)).unwrap_or_default();
    Err(Fail::new(format!("constant-seed:{s}"), format!("encrypting {} twice gave the same ciphertext (seed {s})", short(&c.msg))))
}

pub fn c25() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::random(
            "encoding-seeds",
            "seeds recovered by unmasking from four encodings (three of one message and label, one of another, often to another length); all must differ",
            10_000,
            || (bytes(0usize..=20), bytes(0usize..=60), bytes(0usize..=20), bytes(0usize..=60), 126usize..=200, prop_oneof![1 => Just(None), 1 => (66usize..=300).prop_map(Some)]).prop_map(|(label, msg, label2, msg2, k, k2)| Seeds { label, msg, label2, msg2, k, k2: k2.unwrap_or(k) }),
            seeds_check,
        )
        .boxed(),
        Facet::random(
            "encoding-seeds-long",
            "the same with labels and messages up to 700 bytes and lengths up to 3000",
            1_500,
            || {
                let b = || bytes(prop_oneof![0usize..=5, 0usize..=700, 60usize..=70, 120usize..=130, 250usize..=260, 505usize..=515]);
                let k = || prop_oneof![66usize..=3000, select(vec![128usize, 256, 384, 512, 513, 1024, 2048])];
                (b(), b(), b(), b(), k(), k()).prop_map(|(label, msg, label2, msg2, k, k2)| Seeds { label, msg, label2, msg2, k, k2 })
            },
            seeds_check,
        )
        .boxed(),
        Facet::random("ciphertexts-differ", "the same message encrypted twice with one key", 200, || keys(true, 521, 620).prop_flat_map(|key| { let k = key.k(); (Just(key), oaep_msg(k)) }).prop_map(|(key, msg)| Twice { key, msg }), twice_check).chunk(4).boxed(),
    ]
}

// ------------------------------------------------------------------ C27

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct AnyScheme {
    n: Hx,
    exp: Hx,
    private: bool,
    /// what the caller passes: message to encrypt, ciphertext to decrypt
    input: Hx,
    /// what the scheme's encode (or decode, if it does not fail) returns
    answer: Hx,
    fails: bool,
    decrypt: bool,
}

/// A padding scheme that records what it was asked and answers what the case says.
struct Probe<'a> {
    c: &'a AnyScheme,
    asked: &'a std::cell::RefCell<Vec<(bool, Vec<u8>, Vec<u8>, usize)>>,
}

impl PaddingScheme for Probe<'_> {
    fn encode(&self, label: &[u8], message: &[u8], n_len: usize) -> Vec<u8> {
        self.asked.borrow_mut().push((false, label.to_vec(), message.to_vec(), n_len));
        self.c.answer.0.clone()
    }
    fn decode(&self, label: &[u8], encoded_message: &[u8], n_len: usize) -> Result<Vec<u8>, &'static str> {
        self.asked.borrow_mut().push((true, label.to_vec(), encoded_message.to_vec(), n_len));
        if self.c.fails {
            Err("the scheme says no")
        } else {
            Ok(self.c.answer.0.clone())
        }
    }
}

fn scheme_check(c: &AnyScheme) -> Res {
    let (n, e) = (Nat::from_be(&c.n), Nat::from_be(&c.exp));
    let r: RsaEncryption = if c.private { import_private(&n, &e)?.into() } else { import_public(&n, &e)?.into() };
    let k = n.bits().div_ceil(8) as usize;
    let fixed = |x: &Nat| {
        let b = x.to_be();
        [vec![0; k - b.len()], b].concat()
    };
    let asked = std::cell::RefCell::new(vec![]);
    let probe = Probe { c, asked: &asked };
    let got = attempt(|| if c.decrypt { r.decrypt_message(&c.input, probe) } else { r.encrypt_message(&c.input, probe) });
    let asked = asked.into_inner();
    let (want, ask) = if c.decrypt {
        let x = Nat::from_be(&c.input);
        if c.input.len() != k || x >= n {
            (None, None)
        } else {
            ((!c.fails).then(|| c.answer.0.clone()), Some((true, fixed(&x.modpow(&e, &n)))))
        }
    } else {
        let x = Nat::from_be(&c.answer);
        ((x < n).then(|| fixed(&x.modpow(&e, &n))), Some((false, c.input.0.clone())))
    };
    let op = if c.decrypt { "decrypt" } else { "encrypt" };
    match (&got, &want) {
        (Ok(g), Some(w)) => ensure!(g == w, format!("{op}:bytes"), "{op}ing {} modulo {} (exponent {}) gave {}, expected {} (the scheme answers {})", short(&c.input), short(&c.n), short(&c.exp), short(g), short(w), short(&c.answer)),
        (Ok(g), None) => ensure!(false, format!("{op}:accepts"), "{op}ing {} modulo {} (the scheme answers {}, fails: {}) gave {} instead of refusing", short(&c.input), short(&c.n), short(&c.answer), c.fails, short(g)),
        (Err(p), Some(w)) => ensure!(false, format!("{op}:refuses"), "{op}ing {} modulo {} (the scheme answers {}) was refused ({p}), expected {}", short(&c.input), short(&c.n), short(&c.answer), short(w)),
        (Err(_), None) => {}
    }
    if let Some((decode, bytes)) = &ask {
        ensure!(!asked.is_empty(), format!("{op}:scheme"), "the padding scheme was not asked");
        for (d, label, b, l) in &asked {
            ensure!(d == decode && label.is_empty() && b == bytes && *l == k, format!("{op}:scheme"), "{op}ing {} modulo {}: the scheme was asked for {} with label {}, {} and length {l}; expected {} and {k}", short(&c.input), short(&c.n), if *d { "decode" } else { "encode" }, short(label), short(b), short(bytes));
        }
    }
    Ok(Info::new(e > Nat::one() && k > 1)
        .label(want.is_none(), "refused")
        .label(c.decrypt && want.is_none() && !c.fails, "ciphertext out of range")
        .label(c.decrypt && c.fails, "the scheme fails")
        .label(want.as_ref().is_some_and(|w| !c.decrypt && w[0] == 0), "ciphertext starts with a zero")
        .label(c.decrypt && ask.as_ref().is_some_and(|a| a.1[0] == 0), "padded message starts with a zero")
        .label(n.bits() % 8 == 1, "modulus of one bit more than whole bytes"))
}

/// Byte strings that stand for numbers around the modulus, in about its length.
fn near_modulus(n: Nat) -> BoxedStrategy<Hx> {
    let k = n.bits().div_ceil(8) as usize;
    (base_for(n.clone(), k + 1), prop_oneof![6 => Just(0i32), 1 => Just(-1i32), 1 => Just(1), 1 => 2i32..20, 1 => Just(-99)], 0u8..4)
        .prop_map(move |(x, d, reduce)| {
            let mut x = Nat::from_be(&x);
            if reduce > 0 {
                x = x.rem(&n);
            }
            let b = x.to_be();
            if d == -99 {
                return Hx(b);
            }
            let len = (k as i32 + d).max(0) as usize;
            Hx(if b.len() > len { b[b.len() - len..].to_vec() } else { [vec![0; len - b.len()], b].concat() })
        })
        .boxed()
}

fn scheme_case(nmax: usize, emax: usize) -> BoxedStrategy<AnyScheme> {
    (modulus(nmax), number(emax), any::<bool>(), any::<bool>())
        .prop_flat_map(|(n, exp, private, decrypt)| {
            let near = near_modulus(Nat::from_be(&n));
            let other = prop_oneof![3 => bytes(0usize..=20), 1 => bytes(0usize..=300)].boxed();
            let (input, answer) = if decrypt { (near, other) } else { (other, near) };
            (Just(n), Just(exp), Just(private), input, answer, prop::bool::weighted(0.15), Just(decrypt))
        })
        .prop_map(|(n, exp, private, input, answer, fails, decrypt)| AnyScheme { n, exp, private, input, answer, fails, decrypt })
        .boxed()
}

fn scheme_fed(b: &[u8]) -> Option<AnyScheme> {
    let f = &mut Feed(b);
    let k = f.u8();
    let n = f.some(12);
    let exp = f.some(2);
    let (input, answer) = (f.some(20), f.some(20));
    let nn = Nat::from_be(&n);
    (nn >= Nat::from_u128(2)).then(|| AnyScheme { n: Hx(nn.to_be()), exp, private: k & 1 != 0, input, answer, fails: k & 0x70 == 0x70, decrypt: k & 2 != 0 })
}

pub fn c27() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("scheme-bytes", "libFuzzer's bytes as modulus, exponent, input and the scheme's answer", 15_000, 60, || (0u8..4).map(|k| vec![k, 3, 200, 5, 7, 1, 3, 3, 100, 2, 3, 3, 10, 2, 3]).chain(blobs(12, &[20, 40])).collect(), scheme_fed, scheme_check).boxed(),
        Facet::random("small-moduli", "moduli of 1..=3 bytes and exponents of 0..=2 bytes, public and private keys; a scheme that records what it is asked and gives a generated answer (or, when decoding, an error); ciphertexts and encodings around the modulus, shorter, longer and out of range; against raw RSA on an independent integer type; non-trivial: exponent above 1 and a modulus of two bytes or more", 40_000, || scheme_case(3, 2), scheme_check).boxed(),
        Facet::random("medium-moduli", "moduli up to 20 bytes, exponents up to 3 bytes", 6_000, || scheme_case(20, 3), scheme_check).chunk(16).boxed(),
        Facet::random("large-moduli", "moduli up to 70 bytes, exponents up to 2 bytes", 600, || scheme_case(70, 2), scheme_check).chunk(2).boxed(),
        Facet::random("trivial-exponents", "moduli up to 300 bytes with exponents 0..=3", 1_000, || (scheme_case(300, 1), 0u8..4).prop_map(|(mut c, e)| { c.exp = Hx(vec![e]); c }), scheme_check).chunk(4).boxed(),
        Facet::indexed(
            "16-bit-length-edge",
            "moduli of 65530..=65540 and about 131072 bytes with exponents 0..=3 and encodings or ciphertexts that stand for numbers of up to 3 bytes (zero padded to the modulus length): lengths that need more than 16 bits; non-trivial: always",
            32,
            |i| {
                let j = i / 2;
                let len = if j < 11 { 65_530 + j } else { 131_068 + j - 11 };
                (1u8..=255, 0u8..4, number(3), any::<bool>(), any::<u8>(), bytes(0usize..=20), prop_oneof![4 => Just(0i64), 1 => -2i64..=2, 1 => Just(-65_536i64), 1 => Just(65_536)]).prop_map(move |(top, e, x, private, fill, other, d)| {
                    let mut n = vec![fill; len as usize];
                    n[0] = top;
                    let want = ((len as i64 + d).max(0) as usize).max(x.len());
                    let near = Hx([vec![0; want - x.len()], x.0].concat());
                    let decrypt = i % 2 == 0;
                    let (input, answer) = if decrypt { (near, other) } else { (other, near) };
                    AnyScheme { n: Hx(n), exp: Hx(vec![e]), private, input, answer, fails: false, decrypt }
                })
            },
            |c| scheme_check(c).map(|mut i| { i.nontrivial = true; i }),
        )
        .chunk(1)
        .boxed(),
    ]
}
