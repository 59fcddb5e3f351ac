//! C26: results depend only on arguments - interleaved histories and concurrent use.
use crate::engine::*;
use crate::gen::*;
use crate::props::block::{aes_from_bytes, aes_from_words, AES_KEY};
use crate::props::hash::{md_ref, md_shaped, sha_lib, sha_ref, SHA};
use crate::props::rsa::{import_private, import_public};
use crate::refs::aes::RefAes;
use crate::refs::der::Tree;
use crate::refs::nat::Nat;
use crate::refs::rc::{RefRc2, RefRc4, RefRc5};
use crate::refs::{oaep, pem as rpem};
use cryptography::aes::Aes;
use cryptography::big::BigUint;
use cryptography::pad::{BitPadding, PkcsPadding};
use cryptography::pem::asn1::Asn1;
use cryptography::pem::PEM;
use cryptography::rsa::{create_keys, PaddingScheme, RsaEncryption, RsaPadding};
use cryptography::sha::{Hash256, Hash512};
use hex::FromHex;
use cryptography::{rc2, rc4, rc5, BlockCipher, BlockEncryption, EcbMode, StreamCipher};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::str::FromStr;
use std::sync::Barrier;

/// Which bytes an operation works on: one of the related strings of the case, cut to a length.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
struct Arg {
    i: u8,
    len: u8,
    off: u8,
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum New {
    Aes(Arg, u8, bool),
    Rc2(Arg, u8),
    Rc5(Arg, u8),
    Rsa(Arg, Arg, bool),
    Rc4(Arg),
    Stream(Arg),
}

#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
enum Act {
    Digest(u8, Arg, u8),
    New(u8, New),
    /// encrypt (true) or decrypt a block, a number, or take key-stream bytes, with that object
    Use(u8, bool, Arg),
    /// a whole message with that object
    Message(u8, Arg),
    Pad(u8, Arg),
    Pem(Arg, Arg),
    Der(Arg, Arg),
    Big(Arg, Arg),
    Oaep(Arg, Arg),
    /// a key pair from two small primes, used both ways
    Keys(u8, u8, u8, Arg),
    /// a digest and its hex text
    Hex(Arg),
    /// something that is refused
    Refuse(u8, Arg),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Program {
    pool: Vec<Hx>,
    setup: Vec<New>,
    acts: Vec<Act>,
}

const SLOTS: usize = 6;

struct Pool<'a>(&'a [Hx]);

impl Pool<'_> {
    fn get(&self, a: Arg) -> Vec<u8> {
        let s = &self.0[a.i as usize % self.0.len()];
        (0..a.len as usize).map(|j| s[(j + a.off as usize) % s.len()]).collect()
    }
    fn sized(&self, a: Arg, n: usize) -> Vec<u8> {
        self.get(Arg { len: n as u8, ..a })
    }
}

enum Obj {
    Aes(Aes, RefAes),
    Rc2(Box<dyn BlockCipher<8>>, RefRc2),
    Rc5(Box<dyn BlockCipher<8>>, RefRc5),
    Rsa(RsaEncryption, Nat, Nat),
    Rc4(rc4, RefRc4),
    Stream(StreamCipher<rc4>, RefRc4),
}

/// Shares objects between threads even if a change to the library removes `Sync`: such a change is
/// then judged by what it computes.
struct Shared<T>(T);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

fn make(p: &Pool, n: New) -> Result<Obj, Fail> {
    Ok(match n {
        New::Aes(a, k, words) => {
            let key = p.sized(a, AES_KEY[k as usize % 3]);
            Obj::Aes(if words { aes_from_words(&key) } else { aes_from_bytes(&key) }, RefAes::new(&key))
        }
        New::Rc2(a, bits) => {
            let mut key = p.get(a);
            key.push(a.i);
            let b = (bits as u16 * 4).clamp(1, 1024);
            Obj::Rc2(Box::new(rc2::from_key(&key, b)), RefRc2::new(&key, b as usize))
        }
        New::Rc5(a, r) => {
            let mut key = p.get(a);
            key.push(a.i);
            let r = r % 24;
            Obj::Rc5(Box::new(rc5::new(&key, r)), RefRc5::new(&key, r as usize))
        }
        New::Rsa(a, b, private) => {
            let mut n = Nat::from_be(&p.sized(a, 1 + a.len as usize % 8));
            if n < Nat::from_u128(2) {
                n = Nat::from_u128(35);
            }
            let e = Nat::from_be(&p.sized(b, 1 + b.len as usize % 2));
            let r: RsaEncryption = if private { import_private(&n, &e)?.into() } else { import_public(&n, &e)?.into() };
            Obj::Rsa(r, n, e)
        }
        New::Rc4(a) => {
            let mut key = p.get(a);
            key.push(a.i);
            Obj::Rc4(rc4::new(&key), RefRc4::new(&key))
        }
        New::Stream(a) => {
            let mut key = p.get(a);
            key.push(a.i);
            Obj::Stream(StreamCipher::new(rc4::new(&key)), RefRc4::new(&key))
        }
    })
}

fn check<T: PartialEq + std::fmt::Debug>(what: &str, step: usize, got: T, want: T) -> Result<(), Fail> {
    if got == want {
        return Ok(());
    }
    let f = |x: &T| format!("{x:?}").chars().take(300).collect::<String>();
    Err(Fail::new(format!("indep:{what}"), format!("{what} at step {step} gave {} instead of {}", f(&got), f(&want))))
}

/// Uses an object without changing it.
fn use_shared(o: &Obj, p: &Pool, enc: bool, a: Arg, step: usize) -> Result<bool, Fail> {
    match o {
        Obj::Aes(l, r) => {
            let b: [u8; 16] = p.sized(a, 16).try_into().unwrap();
            if enc {
                check("aes", step, l.encrypt(b), r.enc(b))?;
            } else {
                check("aes", step, l.decrypt(b), r.dec(b))?;
            }
        }
        Obj::Rc2(l, r) => {
            let b: [u8; 8] = p.sized(a, 8).try_into().unwrap();
            if enc {
                check("rc2", step, l.encrypt(b), r.enc(b))?;
            } else {
                check("rc2", step, l.decrypt(b), r.dec(b))?;
            }
        }
        Obj::Rc5(l, r) => {
            let b: [u8; 8] = p.sized(a, 8).try_into().unwrap();
            if enc {
                check("rc5", step, l.encrypt(b), r.enc(b))?;
            } else {
                check("rc5", step, l.decrypt(b), r.dec(b))?;
            }
        }
        Obj::Rsa(l, n, e) => {
            let x = p.sized(a, a.len as usize % 12);
            let b = BigUint::from_be_bytes(&x);
            let got = if enc { l.encrypt(b) } else { l.decrypt(b) };
            check("rsa", step, Nat::from_be(&got.to_be_bytes()), Nat::from_be(&x).modpow(e, n))?;
        }
        _ => return Ok(false),
    }
    Ok(true)
}

struct ByRef<'a, const N: usize>(&'a dyn BlockCipher<N>);
impl<const N: usize> BlockCipher<N> for ByRef<'_, N> {
    fn encrypt(&self, p: [u8; N]) -> [u8; N] {
        self.0.encrypt(p)
    }
    fn decrypt(&self, c: [u8; N]) -> [u8; N] {
        self.0.decrypt(c)
    }
}

/// A padding scheme that gives the same answer to everything.
struct Fixed(Vec<u8>);
impl PaddingScheme for Fixed {
    fn encode(&self, _: &[u8], _: &[u8], _: usize) -> Vec<u8> {
        self.0.clone()
    }
    fn decode(&self, _: &[u8], m: &[u8], _: usize) -> Result<Vec<u8>, &'static str> {
        Ok(m.to_vec())
    }
}

fn rsa_message(l: &RsaEncryption, n: &Nat, e: &Nat, m: &[u8], step: usize) -> Result<(), Fail> {
    let k = n.to_be().len();
    let x = Nat::from_be(m).rem(n);
    let want = x.modpow(e, n).to_be_len(k);
    check("rsa message", step, l.encrypt_message(m, Fixed(x.to_be_len(k))), want.clone())?;
    check("rsa message", step, l.decrypt_message(&x.to_be_len(k), Fixed(vec![])), want)
}

fn message<const N: usize>(c: &dyn BlockCipher<N>, enc: &dyn Fn([u8; N]) -> [u8; N], m: &[u8], step: usize) -> Result<(), Fail> {
    let mut got = vec![];
    BlockEncryption::encrypt(ByRef(c), EcbMode::<N>, m, |b| got.push(b));
    let k = N - m.len() % N;
    let mut padded = m.to_vec();
    padded.extend(vec![k as u8; k]);
    let want: Vec<u8> = padded.chunks(N).flat_map(|b| enc(b.try_into().unwrap())).collect();
    check("message", step, &got, &want)?;
    let mut back = vec![];
    BlockEncryption::decrypt(ByRef(c), EcbMode::<N>, &want, |b| back.push(b));
    check("message", step, &back[..], m)
}

/// Everything that needs no object.
fn pure(p: &Pool, a: Act, step: usize) -> Result<(), Fail> {
    match a {
        Act::Digest(alg, a, shape) => {
            let m = p.get(a);
            let alg = alg % 8;
            if alg < 3 {
                check("md", step, md_shaped(alg, &m, shape), md_ref(alg, &m))
            } else {
                let n = SHA[alg as usize - 3];
                check("sha", step, sha_lib(n, &m), sha_ref(n, &m))
            }
        }
        Act::Pad(n, a) => {
            let (b8, b16) = (p.sized(a, a.len as usize % 8), p.sized(a, a.len as usize % 16));
            if n % 2 == 0 {
                let g: [u8; 8] = PkcsPadding::<8>.pad(&b8);
                check("pad", step, PkcsPadding::<8>.unpad(g), b8.len())?;
                let g: [u8; 16] = PkcsPadding::<16>.pad(&b16);
                check("pad", step, &g[..b16.len()], &b16[..])?;
                check("pad", step, PkcsPadding::<16>.unpad(g), b16.len())
            } else {
                let g: [u8; 8] = BitPadding::<8>.pad(&b8);
                check("pad", step, BitPadding::<8>.unpad(g).1, b8.len())?;
                let g: [u8; 16] = BitPadding::<16>.pad(&b16);
                check("pad", step, &g[..b16.len()], &b16[..])?;
                check("pad", step, BitPadding::<16>.unpad(g).1, b16.len())
            }
        }
        Act::Pem(l, d) => {
            let label: String = p.sized(l, l.len as usize % 12).iter().map(|b| (b'A' + b % 26) as char).collect();
            let data = p.get(d);
            let t = PEM { label: label.clone(), data: data.clone() }.to_string();
            if !data.is_empty() {
                check("pem", step, t.clone(), rpem::text(&label, &data))?;
            }
            check("pem", step, PEM::from_str(&t).map(|x| (x.label, x.data)), Ok((label, data)))
        }
        Act::Der(a, b) => {
            let (x, y) = (p.get(a), p.get(b));
            let t = Tree::Seq(vec![Tree::Oct(x.clone()), Tree::Seq(vec![Tree::Bit(y.clone(), 0), Tree::Null])]);
            let want = Asn1::Sequence(vec![Asn1::OctetString(x), Asn1::Sequence(vec![Asn1::BitString(y, 0), Asn1::Null])]);
            check("der", step, Asn1::try_from(&t.encode()[..]), Ok(want))
        }
        Act::Big(a, b) => {
            let (x, y) = (p.get(a), p.get(b));
            let (nx, ny) = (Nat::from_be(&x), Nat::from_be(&y));
            let mut s = BigUint::from_be_bytes(&x);
            s += &BigUint::from_be_bytes(&y);
            check("big", step, Nat::from_be(&s.to_be_bytes()), nx.add(&ny))?;
            if !ny.is_zero() {
                s %= &BigUint::from_be_bytes(&y);
                check("big", step, Nat::from_be(&s.to_be_bytes()), nx.rem(&ny))?;
            }
            let (mut bx, by) = (BigUint::from_be_bytes(&x), BigUint::from_be_bytes(&y));
            check("big", step, bx.cmp(&by), nx.cmp(&ny))?;
            if ny <= nx {
                bx -= &by;
                check("big", step, Nat::from_be(&bx.to_be_bytes()), nx.sub(&ny))?;
            }
            let k = a.off as u32 + b.off as u32;
            let mut bs = by.clone();
            bs <<= k;
            check("big", step, Nat::from_be(&bs.to_be_bytes()), ny.shl(k))?;
            bs >>= k;
            check("big", step, bs, by)
        }
        Act::Oaep(a, b) => {
            let (label, m) = (p.get(a), p.get(b));
            let k = m.len() + 66 + a.len as usize % 20;
            let em = RsaPadding.encode(&label, &m, k);
            check("oaep", step, oaep::decode(&label, &em, k), Some(m.clone()))?;
            let em = oaep::encode(&label, &m, &p.sized(b, 32), k).unwrap();
            check("oaep", step, RsaPadding.decode(&label, &em, k), Ok(m))
        }
        Act::Keys(i, j, e, a) => {
            const P: [u128; 8] = [101, 103, 251, 257, 65521, 65537, 4294967291, 18446744073709551557];
            const E: [u128; 6] = [3, 5, 7, 11, 17, 65537];
            let (p1, q) = (P[i as usize % 8], P[(i as usize + 1 + j as usize % 7) % 8]);
            let e = E[e as usize % 6];
            let n = p1 * q;
            let made = attempt(|| create_keys(BigUint::from(p1), BigUint::from(q), BigUint::from(e)));
            let g = |mut a: u128, mut b: u128| { while b != 0 { (a, b) = (b, a % b) } a };
            let ok = g(e, p1 - 1) == 1 && g(e, q - 1) == 1;
            check("key creation", step, made.is_ok(), ok)?;
            if let Ok((sk, pk)) = made {
                let x = Nat::from_be(&p.sized(a, 7)).rem(&Nat::from_u128(n));
                let c = RsaEncryption::from(pk).encrypt(BigUint::from_be_bytes(x.to_be()));
                check("created key", step, Nat::from_be(&c.to_be_bytes()), x.modpow(&Nat::from_u128(e), &Nat::from_u128(n)))?;
                if n < 1 << 36 {
                    let back = RsaEncryption::from(sk).decrypt(c);
                    check("created key", step, Nat::from_be(&back.to_be_bytes()), x)?;
                }
            }
            Ok(())
        }
        Act::Hex(a) => {
            let m = p.get(a);
            let (h1, h2) = (cryptography::sha::sha256(&m), cryptography::sha::sha512(&m));
            let text = |b: &[u8]| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
            check("hex", step, Hash256::from_hex(text(&sha_ref("sha256", &m))), Ok(h1))?;
            check("hex", step, Hash512::from_hex(text(&sha_ref("sha512", &m))), Ok(h2))
        }
        Act::Refuse(kind, a) => {
            let x = p.get(a);
            // whatever happens here must not matter to any other step
            let _ = attempt(|| match kind % 7 {
                0 => BlockEncryption::decrypt(ByRef::<8>(&rc5::new(&[1, 2, 3], 4)), EcbMode::<8>, &x, |_| {}),
                1 => drop(RsaPadding.encode(&x, &x, x.len())),
                2 => drop(RsaPadding.decode(&x, &x, x.len())),
                3 => drop(Asn1::try_from(&x[..])),
                4 => drop(PEM::from_str(&String::from_utf8_lossy(&x))),
                5 => {
                    let mut b = BigUint::from_be_bytes(&x);
                    b %= &BigUint::from(0);
                }
                _ => {
                    let mut c = StreamCipher::new(x.clone());
                    drop(c.encrypt(vec![1u8; x.len() + 3]).collect::<Vec<u8>>());
                }
            });
            Ok(())
        }
        _ => Ok(()),
    }
}

fn program_check(c: &Program) -> Res {
    let p = Pool(&c.pool);
    let mut objs: Vec<Obj> = vec![];
    for n in &c.setup {
        objs.push(make(&p, *n)?);
    }
    let (mut used, mut kinds) = (0, std::collections::HashSet::new());
    for (i, a) in c.acts.iter().enumerate() {
        kinds.insert(std::mem::discriminant(a));
        match *a {
            Act::New(s, n) => {
                let o = make(&p, n)?;
                let s = s as usize % SLOTS;
                if s < objs.len() {
                    objs[s] = o;
                } else {
                    objs.push(o);
                }
            }
            Act::Use(s, enc, a) if !objs.is_empty() => {
                let s = s as usize % objs.len();
                used += 1;
                if !use_shared(&objs[s], &p, enc, a, i)? {
                    match &mut objs[s] {
                        Obj::Rc4(l, r) => {
                            let n = a.len as usize % 40;
                            check("rc4", i, l.by_ref().take(n).collect::<Vec<_>>(), (0..n).map(|_| r.byte()).collect())?;
                        }
                        Obj::Stream(l, r) => {
                            let m = p.get(a);
                            let want: Vec<u8> = m.iter().map(|b| b ^ r.byte()).collect();
                            check("stream", i, l.encrypt(m).collect::<Vec<_>>(), want)?;
                        }
                        _ => unreachable!(),
                    }
                }
            }
            Act::Message(s, a) if !objs.is_empty() => {
                let s = s as usize % objs.len();
                used += 1;
                let m = p.get(a);
                match &objs[s] {
                    Obj::Aes(l, r) => message::<16>(l, &|b| r.enc(b), &m, i)?,
                    Obj::Rc2(l, r) => message::<8>(&**l, &|b| r.enc(b), &m, i)?,
                    Obj::Rc5(l, r) => message::<8>(&**l, &|b| r.enc(b), &m, i)?,
                    Obj::Rsa(l, n, e) => rsa_message(l, n, e, &m, i)?,
                    _ => {}
                }
            }
            a => pure(&p, a, i)?,
        }
    }
    Ok(Info::new(c.acts.len() > 3 && kinds.len() > 1).label(used > 3, "objects used several times").label(objs.len() > 2, "three or more objects alive").label(c.acts.iter().any(|a| matches!(a, Act::Refuse(..))), "with refused operations"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Threads {
    pool: Vec<Hx>,
    setup: Vec<New>,
    acts: Vec<Vec<Act>>,
    repeat: u8,
}

fn threads_check(c: &Threads) -> Res {
    let p = Pool(&c.pool);
    let mut objs: Vec<Obj> = vec![];
    for n in &c.setup {
        objs.push(make(&p, *n)?);
    }
    let objs = Shared(objs);
    let bar = Barrier::new(c.acts.len().max(1));
    let run = |acts: &[Act]| -> Result<(), Fail> {
        let objs = objs.get();
        let p = Pool(&c.pool);
        // objects of this thread alone
        let mut own: Vec<Obj> = vec![];
        bar.wait();
        for k in 0..c.repeat as usize {
            for (i, a) in acts.iter().enumerate() {
                let i = i + 1000 * k;
                match *a {
                    Act::New(_, n) => {
                        own.push(make(&p, n)?);
                        if own.len() > 4 {
                            own.remove(0);
                        }
                    }
                    Act::Use(s, enc, a) if !objs.is_empty() => {
                        let n = objs.len() + own.len();
                        let s = s as usize % n;
                        let o = if s < objs.len() { &objs[s] } else { &own[s - objs.len()] };
                        use_shared(o, &p, enc, a, i)?;
                    }
                    Act::Message(s, a) if !objs.is_empty() => {
                        let m = p.get(a);
                        match &objs[s as usize % objs.len()] {
                            Obj::Aes(l, r) => message::<16>(l, &|b| r.enc(b), &m, i)?,
                            Obj::Rc2(l, r) => message::<8>(&**l, &|b| r.enc(b), &m, i)?,
                            Obj::Rc5(l, r) => message::<8>(&**l, &|b| r.enc(b), &m, i)?,
                            Obj::Rsa(l, n, e) => rsa_message(l, n, e, &m, i)?,
                            _ => {}
                        }
                    }
                    a => pure(&p, a, i)?,
                }
            }
        }
        Ok(())
    };
    let res: Vec<Result<Result<(), Fail>, String>> = std::thread::scope(|s| {
        let run = &run;
        let hs: Vec<_> = c.acts.iter().map(|a| s.spawn(move || attempt(|| run(a)))).collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("thread died".into()))).collect()
    });
    for r in res {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(f)) => return Err(f),
            Err(m) => return Err(Fail::new("indep:panic", format!("an operation panicked while other threads used the library: {m}"))),
        }
    }
    Ok(Info::new(c.acts.iter().filter(|a| a.len() > 2).count() > 1).label(c.setup.len() > 1, "several shared objects"))
}

/// Related byte strings: the later ones differ from the first in a byte or two, often so that length,
/// sum, exclusive or, set of bytes or either end stay the same.
fn pool() -> BoxedStrategy<Vec<Hx>> {
    (arr(40), vec((0usize..40, any::<u8>(), 0usize..9, 0usize..40), 3))
        .prop_map(|(b, e)| {
            let mut v = vec![b.clone()];
            for (i, x, k, j) in e {
                let mut n = b.0.clone();
                match k {
                    0 => n[i] ^= x,
                    1 => {
                        n[39] ^= 1;
                        n[i] = x
                    }
                    2 => n.rotate_left(i),
                    3 => n.swap(i % 16, j % 16),
                    4 => n.swap(i, j),
                    5 => {
                        n[i % 16] = n[i % 16].wrapping_add(x);
                        n[j % 16] = n[j % 16].wrapping_sub(x)
                    }
                    6 => {
                        n[i % 16] ^= x;
                        n[j % 16] ^= x
                    }
                    7 => n[i % 16] ^= 1 << (x % 8),
                    _ => n[..16 + i % 17].reverse(),
                }
                v.push(Hx(n));
            }
            v
        })
        .boxed()
}

fn arg() -> BoxedStrategy<Arg> {
    (0u8..4, prop_oneof![4 => 0u8..40, 1 => 50u8..70, 1 => 0u8..=200], prop_oneof![3 => Just(0u8), 1 => 0u8..40]).prop_map(|(i, len, off)| Arg { i, len, off }).boxed()
}

fn new(shared: bool) -> BoxedStrategy<New> {
    let mut v: Vec<BoxedStrategy<New>> = vec![
        (arg(), 0u8..3, any::<bool>()).prop_map(|(a, k, w)| New::Aes(a, k, w)).boxed(),
        (arg(), 2u8..=255).prop_map(|(a, b)| New::Rc2(Arg { len: a.len % 100, ..a }, b)).boxed(),
        (arg(), 0u8..24).prop_map(|(a, b)| New::Rc5(Arg { len: a.len % 60, ..a }, b)).boxed(),
        (arg(), arg(), any::<bool>()).prop_map(|(a, b, c)| New::Rsa(a, b, c)).boxed(),
    ];
    if !shared {
        v.push(arg().prop_map(New::Rc4).boxed());
        v.push(arg().prop_map(New::Stream).boxed());
    }
    proptest::strategy::Union::new(v).boxed()
}

fn act(shared: bool) -> BoxedStrategy<Act> {
    prop_oneof![
        4 => (0u8..8, arg(), 0u8..8).prop_map(|(a, b, c)| Act::Digest(a, b, c)),
        2 => (0u8..6, new(shared)).prop_map(|(s, n)| Act::New(s, n)),
        8 => (any::<u8>(), any::<bool>(), arg()).prop_map(|(s, e, a)| Act::Use(s, e, a)),
        2 => (any::<u8>(), arg()).prop_map(|(s, a)| Act::Message(s, a)),
        1 => (0u8..2, arg()).prop_map(|(s, a)| Act::Pad(s, a)),
        1 => (arg(), arg()).prop_map(|(a, b)| Act::Pem(a, b)),
        1 => (arg(), arg()).prop_map(|(a, b)| Act::Der(a, b)),
        2 => (arg(), arg()).prop_map(|(a, b)| Act::Big(a, b)),
        1 => (arg(), arg()).prop_map(|(a, b)| Act::Oaep(a, b)),
        1 => (0u8..7, arg()).prop_map(|(s, a)| Act::Refuse(s, a)),
        1 => (0u8..8, 0u8..7, 0u8..6, arg()).prop_map(|(i, j, e, a)| Act::Keys(i, j, e, a)),
        1 => arg().prop_map(Act::Hex),
    ]
    .boxed()
}

/// Many objects of one kind alive at once, used in a generated order, some replaced on the way.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Crowd {
    kind: u8,
    count: u16,
    seed: u64,
    steps: u32,
}

fn crowd_check(c: &Crowd) -> Res {
    let mut at = 0u64;
    let mut next = || {
        at += 1;
        let b = fill(1, c.seed.wrapping_add(at.wrapping_mul(0x9e37_79b9_7f4a_7c15)), 8);
        u64::from_le_bytes(b.try_into().unwrap())
    };
    let base = fill(1, c.seed, 40);
    // every key is the base with two bytes changed
    let one = |r: u64| -> Result<Obj, Fail> {
        let mut k = base.clone();
        let (i, j) = (r as usize % 16, (r >> 8) as usize % 32);
        k[i] ^= (r >> 16) as u8;
        k[j] ^= (r >> 24) as u8;
        let p = Hx(k);
        let p = Pool(std::slice::from_ref(&p));
        let a = Arg { i: 0, len: 16 + (r >> 32) as u8 % 4, off: 0 };
        make(&p, match c.kind % 4 {
            0 => New::Aes(a, (r >> 40) as u8 % 3, r >> 50 & 1 == 1),
            1 => New::Rc2(a, 2 + (r >> 40) as u8 % 200),
            2 => New::Rc5(a, (r >> 40) as u8 % 24),
            _ => New::Rsa(a, Arg { off: (r >> 40) as u8 % 40, ..a }, r >> 50 & 1 == 1),
        })
    };
    let mut objs: Vec<Obj> = vec![];
    for _ in 0..c.count.max(1) {
        objs.push(one(next())?);
    }
    let text = [Hx(fill(1, !c.seed, 40))];
    let p = Pool(&text);
    for i in 0..c.steps as usize {
        let r = next();
        let s = (r >> 8) as usize % objs.len();
        if r % 16 == 0 {
            objs[s] = one(next())?;
        }
        use_shared(&objs[s], &p, r & 32 == 0, Arg { i: 0, len: 16 + (r >> 40) as u8 % 20, off: (r >> 48) as u8 % 8 }, i)?;
    }
    Ok(Info::new(c.count > 64))
}

pub fn c26() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::random(
            "interleaved-histories",
            "programs of 1..=40 operations of every kind over up to 6 live objects whose keys and messages are closely related (one byte apart, rotations), refused operations included; every result against the references; non-trivial: more than 3 operations of at least 2 kinds",
            12_000,
            || (pool(), vec(new(false), 1..4), vec(act(false), 1..40)).prop_map(|(pool, setup, acts)| Program { pool, setup, acts }),
            program_check,
        )
        .chunk(16)
        .boxed(),
        Facet::random("many-objects", "100..=600 cipher or key objects of one kind alive together, keys two bytes apart, used 1000..3000 times in a generated order, one in sixteen replaced before its use; non-trivial: over 64 objects", 60, || (0u8..4, 100u16..=600, any::<u64>(), 1000u32..3000).prop_map(|(kind, count, seed, steps)| Crowd { kind, count, seed, steps }), crowd_check).chunk(2).boxed(),
        Facet::random(
            "concurrent-use",
            "4 threads, started together, running such programs against shared cipher and key objects",
            1_200,
            || (pool(), vec(new(true), 1..4), vec(vec(act(true), 3..20), 4), 1u8..4).prop_map(|(pool, setup, acts, repeat)| Threads { pool, setup, acts, repeat }),
            threads_check,
        )
        .chunk(8)
        .boxed(),
        Facet::random(
            "concurrent-same-work",
            "4 threads running the same program on the same shared objects",
            600,
            || (pool(), vec(new(true), 1..3), vec(act(true), 3..25), 1u8..6).prop_map(|(pool, setup, a, repeat)| Threads { pool, setup, acts: vec![a; 4], repeat }),
            threads_check,
        )
        .chunk(8)
        .boxed(),
    ]
}
