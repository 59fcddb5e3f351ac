//! C05/C06 message encryption with block modes, C07 paddings.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::refs::aes::RefAes;
use crate::refs::rc::{RefRc2, RefRc5};
use cryptography::pad::{BitPadding, PkcsPadding};
use cryptography::{Block, BlockCipher, BlockCipherMode, BlockEncryption, EcbMode};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::rc::Rc;

macro_rules! each_n {
    ($n:expr, $f:ident, $($a:expr),*) => {
        each_n!(@go $n, $f, ($($a),*),
            1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27 28 29 30 31 32
            33 34 35 36 37 38 39 40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59 60 61 62 63 64
            65 66 67 68 69 70 71 72 73 74 75 76 77 78 79 80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96
            97 98 99 100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119 120 121 122 123 124 125 126 127 128
            129 130 131 132 133 134 135 136 137 138 139 140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159 160
            161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179 180 181 182 183 184 185 186 187 188 189 190 191 192
            193 194 195 196 197 198 199 200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219 220 221 222 223 224
            225 226 227 228 229 230 231 232 233 234 235 236 237 238 239 240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255)
    };
    (@go $n:expr, $f:ident, $a:tt, $($k:literal)*) => {
        match $n { $($k => each_n!(@call $f, $k, $a),)* _ => unreachable!() }
    };
    (@call $f:ident, $k:literal, ($($a:expr),*)) => { $f::<$k>($($a),*) };
}

// ---------------------------------------------------------------- ciphers

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum CipherSpec {
    Aes(Hx),
    Rc2(Hx, u16),
    Rc5(Hx, u8),
    /// keyed bijection on blocks of any size
    Toy(usize, u64),
    /// identity
    Plain(usize),
}

impl CipherSpec {
    pub fn n(&self) -> usize {
        match self {
            CipherSpec::Aes(_) => 16,
            CipherSpec::Rc2(..) | CipherSpec::Rc5(..) => 8,
            CipherSpec::Toy(n, _) | CipherSpec::Plain(n) => *n,
        }
    }
}

fn toy_enc(seed: u64, b: &mut [u8]) {
    let n = b.len();
    let mut s = seed;
    for r in 0..2 {
        b.rotate_left((splitmix(&mut s) as usize) % n);
        let mut acc = r as u8;
        for x in b.iter_mut() {
            let k = splitmix(&mut s) as u8;
            *x = x.wrapping_mul(k << 1 | 1).wrapping_add(acc) ^ k;
            acc = acc.wrapping_add(*x).rotate_left(1);
        }
    }
}

fn inv_mod256(a: u8) -> u8 {
    // Newton iteration for the inverse of an odd number modulo 256
    let mut x = a;
    for _ in 0..3 {
        x = x.wrapping_mul(2u8.wrapping_sub(a.wrapping_mul(x)));
    }
    x
}

fn toy_dec(seed: u64, b: &mut [u8]) {
    let n = b.len();
    let mut s = seed;
    let mut rots = vec![];
    let mut ks = vec![];
    for _ in 0..2 {
        rots.push((splitmix(&mut s) as usize) % n);
        ks.push((0..n).map(|_| splitmix(&mut s) as u8).collect::<Vec<_>>());
    }
    for r in (0..2).rev() {
        let mut acc = r as u8;
        for (x, &k) in b.iter_mut().zip(&ks[r]) {
            let y = *x;
            *x = (y ^ k).wrapping_sub(acc).wrapping_mul(inv_mod256(k << 1 | 1));
            acc = acc.wrapping_add(y).rotate_left(1);
        }
        b.rotate_right(rots[r]);
    }
}

/// The cipher handed to the library.
struct LibCipher<'a, const N: usize>(&'a dyn BlockCipher<N>);
impl<const N: usize> BlockCipher<N> for LibCipher<'_, N> {
    fn encrypt(&self, p: Block<N>) -> Block<N> {
        self.0.encrypt(p)
    }
    fn decrypt(&self, c: Block<N>) -> Block<N> {
        self.0.decrypt(c)
    }
}

struct Toy(u64);
impl<const N: usize> BlockCipher<N> for Toy {
    fn encrypt(&self, mut p: Block<N>) -> Block<N> {
        toy_enc(self.0, &mut p);
        p
    }
    fn decrypt(&self, mut c: Block<N>) -> Block<N> {
        toy_dec(self.0, &mut c);
        c
    }
}
struct Plain;
impl<const N: usize> BlockCipher<N> for Plain {
    fn encrypt(&self, p: Block<N>) -> Block<N> {
        p
    }
    fn decrypt(&self, c: Block<N>) -> Block<N> {
        c
    }
}

type BlkFn = Box<dyn Fn(&[u8]) -> Vec<u8>>;

/// Reference encryption and decryption of one block.
fn ref_cipher(c: &CipherSpec) -> (BlkFn, BlkFn) {
    match c.clone() {
        CipherSpec::Aes(k) => {
            let (a, b) = (RefAes::new(&k), RefAes::new(&k));
            (Box::new(move |x| a.enc(a16(x)).to_vec()), Box::new(move |x| b.dec(a16(x)).to_vec()))
        }
        CipherSpec::Rc2(k, t) => {
            let (a, b) = (RefRc2::new(&k, t as usize), RefRc2::new(&k, t as usize));
            (Box::new(move |x| a.enc(a8(x)).to_vec()), Box::new(move |x| b.dec(a8(x)).to_vec()))
        }
        CipherSpec::Rc5(k, r) => {
            let (a, b) = (RefRc5::new(&k, r as usize), RefRc5::new(&k, r as usize));
            (Box::new(move |x| a.enc(a8(x)).to_vec()), Box::new(move |x| b.dec(a8(x)).to_vec()))
        }
        CipherSpec::Toy(_, s) => (
            Box::new(move |x| {
                let mut v = x.to_vec();
                toy_enc(s, &mut v);
                v
            }),
            Box::new(move |x| {
                let mut v = x.to_vec();
                toy_dec(s, &mut v);
                v
            }),
        ),
        CipherSpec::Plain(_) => (Box::new(|x| x.to_vec()), Box::new(|x| x.to_vec())),
    }
}

// ------------------------------------------------------------------ modes

pub const MODES: [&str; 6] = ["ecb", "cbc", "pcbc", "counter", "cfb", "countdown"];

/// The library's own ECB mode.
const ECB: u8 = 100;

/// A mode written against the library's trait; `kind` selects the construction.
struct Mode<const N: usize> {
    kind: u8,
    v: [u8; N],
    i: u64,
}

fn xor<const N: usize>(a: [u8; N], b: [u8; N]) -> [u8; N] {
    std::array::from_fn(|i| a[i] ^ b[i])
}

fn ctr<const N: usize>(iv: [u8; N], i: u64) -> [u8; N] {
    let mut v = iv;
    for (k, b) in i.to_le_bytes().iter().enumerate() {
        v[k % N] = v[k % N].wrapping_add(b.wrapping_mul(k as u8 + 1));
    }
    v
}

impl<const N: usize> BlockCipherMode<N> for Mode<N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> {
        match self.kind {
            ECB => EcbMode::<N>.encrypt_block(c, b),
            0 => c.encrypt(b),
            1 => {
                self.v = c.encrypt(xor(b, self.v));
                self.v
            }
            2 => {
                let o = c.encrypt(xor(b, self.v));
                self.v = xor(o, b);
                o
            }
            3 => {
                self.i += 1;
                c.encrypt(xor(b, ctr(self.v, self.i)))
            }
            4 => {
                self.v = xor(b, c.encrypt(self.v));
                self.v
            }
            _ => {
                self.i = self.i.wrapping_mul(3).wrapping_add(7);
                xor(c.encrypt(b), ctr(self.v, self.i))
            }
        }
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, c: &C, b: Block<N>) -> Block<N> {
        match self.kind {
            ECB => EcbMode::<N>.decrypt_block(c, b),
            0 => c.decrypt(b),
            1 => {
                let o = xor(c.decrypt(b), self.v);
                self.v = b;
                o
            }
            2 => {
                let o = xor(c.decrypt(b), self.v);
                self.v = xor(o, b);
                o
            }
            3 => {
                self.i += 1;
                xor(c.decrypt(b), ctr(self.v, self.i))
            }
            4 => {
                let o = xor(b, c.encrypt(self.v));
                self.v = b;
                o
            }
            _ => {
                self.i = self.i.wrapping_mul(3).wrapping_add(7);
                c.decrypt(xor(b, ctr(self.v, self.i)))
            }
        }
    }
}

/// The same constructions over whole messages, on vectors.
fn ref_mode(kind: u8, iv: &[u8], enc: &BlkFn, dec: &BlkFn, blocks: &[Vec<u8>], forward: bool) -> Vec<Vec<u8>> {
    let x = |a: &[u8], b: &[u8]| -> Vec<u8> { a.iter().zip(b).map(|(p, q)| p ^ q).collect() };
    let n = iv.len();
    let tweak = |i: u64| {
        let mut v = iv.to_vec();
        for k in 0..8 {
            v[k % n] = v[k % n].wrapping_add(((i >> (8 * k)) as u8).wrapping_mul(k as u8 + 1));
        }
        v
    };
    let mut out: Vec<Vec<u8>> = vec![];
    let mut cd = 0u64;
    for (i, b) in blocks.iter().enumerate() {
        cd = cd.wrapping_mul(3).wrapping_add(7);
        let prev_in = if i == 0 { None } else { Some(&blocks[i - 1]) };
        let prev_out = if i == 0 { None } else { Some(&out[i - 1]) };
        let iv = iv.to_vec();
        let o = match (kind, forward) {
            (0, true) => enc(b),
            (0, false) => dec(b),
            (1, true) => enc(&x(b, prev_out.unwrap_or(&iv))),
            (1, false) => x(&dec(b), prev_in.unwrap_or(&iv)),
            (2, f) => {
                let t = match (prev_in, prev_out) {
                    (Some(a), Some(c)) => x(a, c),
                    _ => iv,
                };
                if f {
                    enc(&x(b, &t))
                } else {
                    x(&dec(b), &t)
                }
            }
            (3, true) => enc(&x(b, &tweak(i as u64 + 1))),
            (3, false) => x(&dec(b), &tweak(i as u64 + 1)),
            (4, true) => x(b, &enc(prev_out.unwrap_or(&iv))),
            (4, false) => x(b, &enc(prev_in.unwrap_or(&iv))),
            (_, true) => x(&enc(b), &tweak(cd)),
            (_, false) => dec(&x(b, &tweak(cd))),
        };
        out.push(o);
    }
    out
}

fn pkcs_blocks(m: &[u8], n: usize) -> Vec<Vec<u8>> {
    let mut d = m.to_vec();
    let p = n - m.len() % n;
    d.extend(std::iter::repeat_n(p as u8, p));
    d.chunks(n).map(|c| c.to_vec()).collect()
}

/// The message of these plaintext blocks, if the last one is well padded.
fn pkcs_strip(blocks: &[Vec<u8>]) -> Option<Vec<u8>> {
    let last = blocks.last()?;
    let n = last.len();
    let p = last[n - 1] as usize;
    if p == 0 || p > n || last[n - p..].iter().any(|&b| b as usize != p) {
        return None;
    }
    let mut m = blocks.concat();
    m.truncate(m.len() - p);
    Some(m)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct EncCase {
    cipher: CipherSpec,
    mode: u8,
    lib_ecb: bool,
    iv: Hx,
    msg: Msg,
}

fn lib_run<const N: usize>(c: &CipherSpec, mode: u8, lib_ecb: bool, iv: &[u8], data: &[u8], forward: bool) -> Vec<u8> {
    let mut out = vec![];
    let boxed: Box<dyn BlockCipher<N>> = match c {
        CipherSpec::Toy(_, s) => Box::new(Toy(*s)),
        CipherSpec::Plain(_) => Box::new(Plain),
        _ => unreachable!(),
    };
    // one instance of the message layer per size and direction: the library's ECB is reached
    // through the mode
    let m = Mode { kind: if mode == 0 && lib_ecb { ECB } else { mode }, v: iv.try_into().unwrap(), i: 0 };
    let lc = LibCipher(&*boxed);
    if forward {
        BlockEncryption::encrypt(lc, m, data, |b| out.push(b));
    } else {
        BlockEncryption::decrypt(lc, m, data, |b| out.push(b));
    }
    out
}

fn lib_run_with<const N: usize>(c: &dyn BlockCipher<N>, mode: u8, lib_ecb: bool, iv: &[u8], data: &[u8], forward: bool, out: &mut Vec<u8>) {
    let m = Mode { kind: mode, v: iv.try_into().unwrap(), i: 0 };
    let lc = LibCipher(c);
    match (forward, mode == 0 && lib_ecb) {
        (true, true) => BlockEncryption::encrypt(lc, EcbMode::<N>, data, |b| out.push(b)),
        (false, true) => BlockEncryption::decrypt(lc, EcbMode::<N>, data, |b| out.push(b)),
        (true, false) => BlockEncryption::encrypt(lc, m, data, |b| out.push(b)),
        (false, false) => BlockEncryption::decrypt(lc, m, data, |b| out.push(b)),
    }
}

pub const SIZES: [usize; 24] = [1, 2, 3, 4, 5, 7, 8, 12, 15, 16, 17, 24, 31, 32, 33, 48, 64, 100, 127, 128, 129, 200, 254, 255];

fn lib(c: &CipherSpec, mode: u8, lib_ecb: bool, iv: &[u8], data: &[u8], forward: bool) -> Vec<u8> {
    let mut out = vec![];
    match c {
        CipherSpec::Aes(k) => {
            // one run with the cipher passed by value, as callers do
            if mode == 0 && lib_ecb && forward {
                BlockEncryption::encrypt(super::block::aes_from_bytes(k), EcbMode::<16>, data, |b| out.push(b));
            } else {
                lib_run_with::<16>(&super::block::aes_from_bytes(k), mode, lib_ecb, iv, data, forward, &mut out)
            }
            out
        }
        CipherSpec::Rc2(k, t) => {
            lib_run_with::<8>(&cryptography::rc2::from_key(k, *t), mode, lib_ecb, iv, data, forward, &mut out);
            out
        }
        CipherSpec::Rc5(k, r) => {
            lib_run_with::<8>(&cryptography::rc5::new(k, *r), mode, lib_ecb, iv, data, forward, &mut out);
            out
        }
        _ => {
            each_n!(c.n(), lib_run, c, mode, lib_ecb, iv, data, forward)
        }
    }
}

fn enc_check(c: &EncCase) -> Res {
    let n = c.cipher.n();
    let m = c.msg.expand();
    let (e, d) = ref_cipher(&c.cipher);
    let want = ref_mode(c.mode, &c.iv, &e, &d, &pkcs_blocks(&m, n), true).concat();
    let got = lib(&c.cipher, c.mode, c.lib_ecb, &c.iv, &m, true);
    ensure!(got.len() == (m.len() / n + 1) * n, "enc:length", "{} bytes under blocks of {n} encrypted to {} bytes", m.len(), got.len());
    ensure!(got == want, "enc:bytes", "{:?} {}: encrypting {} bytes: output differs from byte {:?}", c.cipher, MODES[c.mode as usize], m.len(), got.iter().zip(&want).position(|(a, b)| a != b));
    let back = lib(&c.cipher, c.mode, c.lib_ecb, &c.iv, &got, false);
    ensure!(back == m, "enc:roundtrip", "{:?} {}: decrypting gave {} instead of {}", c.cipher, MODES[c.mode as usize], short(&back), short(&m));
    Ok(Info::new(m.len() >= n || c.mode != 0)
        .label(m.is_empty(), "empty message")
        .label(!m.is_empty() && m.len() % n == 0, "whole blocks")
        .label(m.len() % n == n - 1, "one byte short of a block")
        .label(m.len() >= 3 * n, "three blocks or more")
        .label(matches!(c.cipher, CipherSpec::Aes(_)), "aes")
        .label(c.mode == 0 && c.lib_ecb, "the library's ECB"))
}

fn size() -> BoxedStrategy<usize> {
    prop_oneof![2 => select(SIZES.to_vec()), 1 => 1usize..=255].boxed()
}

fn cipher_spec() -> BoxedStrategy<CipherSpec> {
    prop_oneof![
        2 => select(vec![16usize, 24, 32]).prop_flat_map(arr).prop_map(CipherSpec::Aes),
        1 => (bytes(1usize..=128), 1u16..=1024).prop_map(|(k, t)| CipherSpec::Rc2(k, t)),
        1 => (bytes(0usize..=255), any::<u8>()).prop_map(|(k, r)| CipherSpec::Rc5(k, r)),
        4 => (size(), any::<u64>()).prop_map(|(n, s)| CipherSpec::Toy(n, s)),
        1 => size().prop_map(CipherSpec::Plain),
    ]
    .boxed()
}

/// Message contents that look like padding are as likely as any other.
fn pad_like(n: usize) -> BoxedStrategy<Msg> {
    (0..=4 * n, 0..=n.min(255)).prop_map(move |(len, p)| Msg::Raw(Hx(vec![p as u8; len]))).boxed()
}

fn enc_case() -> BoxedStrategy<EncCase> {
    cipher_spec()
        .prop_flat_map(|cipher| {
            let n = cipher.n();
            (Just(cipher), 0..MODES.len() as u8, any::<bool>(), arr(n), prop_oneof![4 => msg(len_near(n, 8 * n + 40)), 1 => pad_like(n), 1 => msg(0usize..=5000)])
        })
        .prop_map(|(cipher, mode, lib_ecb, iv, msg)| EncCase { cipher, mode, lib_ecb, iv, msg })
        .boxed()
}

// A mode whose outputs have nothing to do with its inputs: shows exactly which blocks the message
// layer hands over, in which order, and that it emits what it was given back.
struct Recorder<const N: usize> {
    log: Rc<RefCell<Vec<(bool, Vec<u8>)>>>,
    outs: Vec<[u8; N]>,
    i: usize,
}
impl<const N: usize> BlockCipherMode<N> for Recorder<N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, _: &C, b: Block<N>) -> Block<N> {
        self.log.borrow_mut().push((true, b.to_vec()));
        self.i += 1;
        *self.outs.get(self.i - 1).unwrap_or(&[0xee; N])
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, _: &C, b: Block<N>) -> Block<N> {
        self.log.borrow_mut().push((false, b.to_vec()));
        self.i += 1;
        *self.outs.get(self.i - 1).unwrap_or(&[0xee; N])
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct RecCase {
    n: usize,
    data: Msg,
    seed: u64,
    pad: u8,
}

fn rec_n<const N: usize>(c: &RecCase) -> Res {
    let m = c.data.expand();
    let blocks = pkcs_blocks(&m, N);
    let mut s = c.seed;
    let outs: Vec<[u8; N]> = blocks.iter().map(|_| std::array::from_fn(|_| splitmix(&mut s) as u8)).collect();
    let log = Rc::new(RefCell::new(vec![]));
    let mut got = vec![];
    BlockEncryption::encrypt(Plain, Recorder { log: log.clone(), outs: outs.clone(), i: 0 }, &m, |b| got.push(b));
    let want: Vec<(bool, Vec<u8>)> = blocks.iter().map(|b| (true, b.clone())).collect();
    ensure!(*log.borrow() == want, "enc:calls", "encrypting {} bytes in blocks of {N}: the mode saw {} calls {:?}", m.len(), log.borrow().len(), log.borrow().iter().map(|x| short(&x.1)).collect::<Vec<_>>());
    ensure!(got == outs.concat(), "enc:emits", "encryption did not emit the mode's outputs in order");
    // decryption: arbitrary plaintext blocks from the mode, the last one well padded
    let mut outs = outs;
    let k = outs.len();
    let p = 1 + c.pad as usize % N;
    for b in &mut outs[k - 1][N - p..] {
        *b = p as u8;
    }
    let ct = vec![0xa5u8; k * N].iter().enumerate().map(|(i, x)| x ^ i as u8).collect::<Vec<_>>();
    let log = Rc::new(RefCell::new(vec![]));
    let mut got = vec![];
    BlockEncryption::decrypt(Plain, Recorder { log: log.clone(), outs: outs.clone(), i: 0 }, &ct, |b| got.push(b));
    let want: Vec<(bool, Vec<u8>)> = ct.chunks(N).map(|b| (false, b.to_vec())).collect();
    ensure!(*log.borrow() == want, "dec:calls", "decrypting {} blocks of {N}: the mode saw {} calls", k, log.borrow().len());
    let mut w = outs.concat();
    w.truncate(k * N - p);
    ensure!(got == w, "dec:emits", "decryption of {k} blocks of {N} with padding {p} emitted {} bytes instead of {}", got.len(), w.len());
    Ok(Info::new(k > 1))
}

fn rec_check(c: &RecCase) -> Res {
    each_n!(c.n, rec_n, c)
}

/// A message or ciphertext too long to keep the outputs: mode and sink check everything on the fly.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct FarCase {
    n: usize,
    /// message bytes, or ciphertext bytes when decrypting
    len: u64,
    seed: u64,
    decrypt: bool,
    /// padding of the last block; 0 and values above n are not valid
    pad: u8,
}

/// The mode's i-th output; the last block of a decryption ends in the padding.
fn far_out<const N: usize>(seed: u64, i: u64, last: Option<(u64, u8)>) -> [u8; N] {
    let mut s = seed ^ i.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    let x = splitmix(&mut s).to_le_bytes();
    let mut b: [u8; N] = std::array::from_fn(|k| x[k % 8].wrapping_add((k / 8) as u8));
    if let Some((_, p)) = last.filter(|l| l.0 == i) {
        for v in &mut b[N - (p as usize).clamp(1, N)..] {
            *v = p;
        }
    }
    b
}

/// Whether the mode is given the right blocks, block by block.
struct FarMode<'a, const N: usize> {
    data: &'a [u8],
    seed: u64,
    i: &'a std::cell::Cell<u64>,
    wrong: &'a std::cell::Cell<Option<(u64, bool)>>,
    decrypt: bool,
    last: Option<(u64, u8)>,
}

impl<const N: usize> FarMode<'_, N> {
    fn step(&mut self, decrypt: bool, b: Block<N>) -> Block<N> {
        let i = self.i.get();
        self.i.set(i + 1);
        let at = (i as usize).saturating_mul(N).min(self.data.len());
        let part = &self.data[at..(at + N).min(self.data.len())];
        let p = (N - part.len()) as u8;
        if decrypt != self.decrypt || b[..part.len()] != *part || b[part.len()..].iter().any(|x| *x != p) {
            self.wrong.set(self.wrong.get().or(Some((i, decrypt))));
        }
        far_out(self.seed, i, self.last)
    }
}

impl<const N: usize> BlockCipherMode<N> for FarMode<'_, N> {
    fn encrypt_block<C: BlockCipher<N>>(&mut self, _: &C, b: Block<N>) -> Block<N> {
        self.step(false, b)
    }
    fn decrypt_block<C: BlockCipher<N>>(&mut self, _: &C, b: Block<N>) -> Block<N> {
        self.step(true, b)
    }
}

fn far_n<const N: usize>(c: &FarCase) -> Res {
    // zeros cost no memory; marks around the powers of two and every few megabytes tell places apart
    let mut data = vec![0u8; c.len as usize];
    let mut mark = |at: u64, len: u64| {
        let mut s = c.seed ^ at;
        for k in at..at.saturating_add(len).min(c.len) {
            data[k as usize] = splitmix(&mut s) as u8;
        }
    };
    for i in 0..=c.len >> 22 {
        mark((i << 22) + (c.seed >> 3) % 4096, 64);
    }
    for e in 8..34 {
        for at in [1u64 << e, (N as u64) << e] {
            mark(at.saturating_sub(300), 600);
        }
    }
    mark(0, 300);
    mark(c.len.saturating_sub(300), 300);
    let n = N as u64;
    let blocks = if c.decrypt { c.len / n } else { c.len / n + 1 };
    let last = c.decrypt.then(|| (blocks.wrapping_sub(1), c.pad));
    let valid = !c.decrypt || (c.len % n == 0 && blocks > 0 && (1..=N).contains(&(c.pad as usize)));
    let total = if c.decrypt { (blocks * n).saturating_sub(c.pad as u64) } else { blocks * n };
    let (i, wrong) = (std::cell::Cell::new(0), std::cell::Cell::new(None));
    let mode = FarMode::<N> { data: &data, seed: c.seed, i: &i, wrong: &wrong, decrypt: c.decrypt, last };
    let (mut at, mut bad) = (0u64, None);
    let (mut idx, mut k, mut cur) = (0u64, 0usize, far_out::<N>(c.seed, 0, last));
    let sink = |b: u8| {
        if b != cur[k] && bad.is_none() {
            bad = Some(at);
        }
        at += 1;
        k += 1;
        if k == N {
            k = 0;
            idx += 1;
            cur = far_out::<N>(c.seed, idx, last);
        }
    };
    let op = if c.decrypt { "dec" } else { "enc" };
    let r = attempt(|| if c.decrypt { BlockEncryption::decrypt(Plain, mode, &data, sink) } else { BlockEncryption::encrypt(Plain, mode, &data, sink) });
    let what = || format!("{} of {} bytes in blocks of {N} (last pad byte {})", if c.decrypt { "decryption" } else { "encryption" }, c.len, c.pad);
    match r {
        Ok(()) => ensure!(valid, format!("{op}:accepts"), "{} was not refused", what()),
        Err(m) => {
            ensure!(!valid, format!("{op}:refuses"), "{} was refused: {m}", what());
            return Ok(Info::new(true).label(true, "refused"));
        }
    }
    ensure!(wrong.get().is_none(), format!("{op}:calls"), "{}: the mode was given a wrong block, number {:?}", what(), wrong.get().map(|w| w.0));
    ensure!(i.get() == blocks, format!("{op}:calls"), "{}: {} blocks were given to the mode instead of {blocks}", what(), i.get());
    ensure!(bad.is_none(), format!("{op}:emits"), "{}: the byte at {} is not the mode's", what(), bad.unwrap_or(0));
    ensure!(at == total, format!("{op}:emits"), "{}: {at} bytes emitted instead of {total}", what());
    Ok(Info::new(true).label(c.len > 1 << 32, "over 2^32 bytes").label(blocks > 1 << 16, "over 2^16 blocks"))
}

/// The longest messages one at a time: an implementation may well copy them.
static LONGEST: std::sync::Mutex<()> = std::sync::Mutex::new(());

fn far_check(c: &FarCase) -> Res {
    let _one = (c.len >= 1 << 30).then(|| LONGEST.lock().unwrap_or_else(|p| p.into_inner()));
    match c.n {
        1 => far_n::<1>(c),
        2 => far_n::<2>(c),
        8 => far_n::<8>(c),
        16 => far_n::<16>(c),
        128 => far_n::<128>(c),
        _ => far_n::<255>(c),
    }
}

/// Lengths next to `blocks` blocks of n bytes; whole blocks when decrypting, mostly.
fn far_case(n: usize, len: u64, decrypt: bool, broken: u32) -> BoxedStrategy<FarCase> {
    (prop_oneof![3 => Just(0i64), 3 => -2i64..=2, 2 => -300i64..=300], any::<u64>(), any::<u8>(), 0u32..100, 0u8..3)
        .prop_map(move |(d, seed, pad, br, how)| {
            let good = 1 + pad % n as u8;
            let mut c = FarCase { n, len, seed, decrypt, pad: good };
            if !decrypt {
                c.len = (len as i64 + d).max(0) as u64;
                return c;
            }
            c.len = ((len / n as u64) as i64 + d.clamp(-2, 2)).max(1) as u64 * n as u64;
            if br < broken {
                match how {
                    0 => c.pad = 0,
                    1 if n < 255 => c.pad = n as u8 + 1 + pad % (255 - n as u8),
                    _ if n > 1 => c.len += 1 + seed % (n as u64 - 1),
                    _ => c.pad = 0,
                }
            }
            c
        })
        .boxed()
}

/// Both directions, or decryption of well-formed and other ciphertexts.
fn far_facets(both: bool) -> Vec<Box<dyn DynFacet>> {
    let broken = if both { 0 } else { 30 };
    let times = if both { 2 } else { 1 };
    const NS: [usize; 6] = [1, 2, 8, 16, 128, 255];
    vec![
        Facet::indexed(
            "16-bit-edges",
            "2^8 and 2^16 blocks, 2^16 bytes and next to them, with block sizes 1, 2, 8, 16, 128 and 255; a mode that checks each block it is given and answers with generated blocks; non-trivial: always",
            6 * 3 * 4 * times,
            move |i| {
                let (decrypt, i) = (!both || i % 2 == 1, i / times);
                let n = NS[i as usize % 6];
                far_case(n, [(n as u64) << 8, (n as u64) << 16, 1 << 16][i as usize / 6 % 3], decrypt, broken)
            },
            far_check,
        )
        .chunk(2)
        .boxed(),
        Facet::indexed(
            "24-bit-edges",
            "2^24 blocks, 2^24 bytes and next to them",
            6 * times,
            move |i| {
                let (decrypt, i) = (!both || i % 2 == 1, i / times);
                let (n, len) = [(1, 1 << 24), (2, 2 << 24), (8, 8 << 24), (16, 16 << 24), (16, 1 << 24), (255, 1 << 24)][i as usize];
                far_case(n, len, decrypt, broken)
            },
            far_check,
        )
        .chunk(1)
        .release_only()
        .limit(600)
        .boxed(),
        Facet::indexed("32-bit-edge", "2^32 bytes and next to them (and, in the thorough tier, 2^32 blocks)", 1, move |i| { let (n, len) = [(16, (1u64 << 32) + 4096), (128, 1 << 32), (2, 2u64 << 32)][i as usize % 3]; far_case(n, len, !both || i % 2 == 1, broken) }, far_check)
            .chunk(1)
            .release_only()
            .limit(700)
            .thorough(6)
            .boxed(),
    ]
}

pub fn c05() -> Vec<Box<dyn DynFacet>> {
    let mut v = far_facets(true);
    v.extend(c05_more());
    v
}

fn c05_more() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::random(
            "message-encryption",
            "cipher (AES, RC2, RC5, keyed bijections and identity on block sizes 1..=255), mode (library ECB, CBC, PCBC, counter, CFB, index-dependent), IV and message; ciphertext against an independent mode and cipher, then decrypted; non-trivial: at least one whole block, or a stateful mode",
            40_000,
            enc_case,
            enc_check,
        )
        .boxed(),
        Facet::indexed(
            "message-lengths",
            "every block size of the list with every message length 0..=3N+1 (cipher: keyed bijection), generated mode",
            SIZES.iter().map(|n| 3 * *n as u64 + 2).sum(),
            |mut i| {
                let mut k = 0;
                while i >= 3 * SIZES[k] as u64 + 2 {
                    i -= 3 * SIZES[k] as u64 + 2;
                    k += 1;
                }
                let n = SIZES[k];
                (any::<u64>(), 0..MODES.len() as u8, any::<bool>(), arr(n), msg_of_len(i as usize)).prop_map(move |(s, mode, lib_ecb, iv, msg)| EncCase { cipher: CipherSpec::Toy(n, s), mode, lib_ecb, iv, msg })
            },
            enc_check,
        )
        .boxed(),
        Facet::indexed(
            "all-block-sizes",
            "every block size 1..=255 with messages of k*N-1, k*N and k*N+1 bytes, k = 0..=4 (cipher: keyed bijection), generated mode",
            255 * 15,
            |i| {
                let n = (i / 15) as usize + 1;
                let len = ((i % 15 / 3) as usize * n + (i % 3) as usize).saturating_sub(1);
                (any::<u64>(), 0..MODES.len() as u8, any::<bool>(), arr(n), msg_of_len(len)).prop_map(move |(s, mode, lib_ecb, iv, msg)| EncCase { cipher: CipherSpec::Toy(n, s), mode, lib_ecb, iv, msg })
            },
            enc_check,
        )
        .boxed(),
        Facet::random(
            "mode-calls",
            "recording mode with outputs unrelated to its inputs: the blocks handed over, their order and number, and what is emitted; non-trivial: more than one block",
            30_000,
            || size().prop_flat_map(|n| (Just(n), msg(len_near(n, 6 * n)), any::<u64>(), any::<u8>())).prop_map(|(n, data, seed, pad)| RecCase { n, data, seed, pad }),
            rec_check,
        )
        .boxed(),
        Facet::random(
            "long-messages",
            "messages of 60 kB to 400 kB",
            120,
            || {
                cipher_spec()
                    .prop_filter_map("small block", |c| (c.n() >= 4).then_some(c))
                    .prop_flat_map(|cipher| {
                        let n = cipher.n();
                        (Just(cipher), 0..MODES.len() as u8, any::<bool>(), arr(n), (1..KINDS, any::<u64>(), 60_000usize..400_000))
                    })
                    .prop_map(|(cipher, mode, lib_ecb, iv, (kind, seed, len))| EncCase { cipher, mode, lib_ecb, iv, msg: Msg::Fill { kind, seed, len } })
            },
            enc_check,
        )
        .chunk(1)
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C06

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct DecCase {
    cipher: CipherSpec,
    mode: u8,
    lib_ecb: bool,
    iv: Hx,
    /// plaintext blocks before padding is looked at (a whole number of blocks)
    plain: Hx,
    /// applied to the ciphertext
    cut: usize,
    extra: Hx,
    flip: Option<(usize, u8)>,
}

fn dec_check(c: &DecCase) -> Res {
    let n = c.cipher.n();
    let (e, d) = ref_cipher(&c.cipher);
    let blocks: Vec<Vec<u8>> = c.plain.chunks(n).map(|x| x.to_vec()).collect();
    let mut ct = ref_mode(c.mode, &c.iv, &e, &d, &blocks, true).concat();
    ct.truncate(ct.len().saturating_sub(c.cut));
    ct.extend_from_slice(&c.extra);
    if let (Some((p, x)), false) = (c.flip, ct.is_empty()) {
        let k = p % ct.len();
        ct[k] ^= x;
    }
    let want = if ct.is_empty() || ct.len() % n != 0 {
        None
    } else {
        let cb: Vec<Vec<u8>> = ct.chunks(n).map(|x| x.to_vec()).collect();
        pkcs_strip(&ref_mode(c.mode, &c.iv, &e, &d, &cb, false))
    };
    let got = attempt(|| lib(&c.cipher, c.mode, c.lib_ecb, &c.iv, &ct, false));
    match (&want, &got) {
        (Some(w), Ok(g)) => ensure!(g == w, "dec:wrong", "{:?} {}: decrypting {} gave {} instead of {}", c.cipher, MODES[c.mode as usize], short(&ct), short(g), short(w)),
        (None, Ok(g)) => ensure!(false, "dec:accepts", "{:?} {}: {} is not the encryption of any message but decrypted to {}", c.cipher, MODES[c.mode as usize], short(&ct), short(g)),
        (Some(w), Err(m)) => ensure!(false, "dec:refuses", "{:?} {}: {} encrypts {} but was refused: {m}", c.cipher, MODES[c.mode as usize], short(&ct), short(w)),
        (None, Err(_)) => {}
    }
    Ok(Info::new(want.is_none() || blocks.len() > 1)
        .label(want.is_none(), "must refuse")
        .label(want.is_some(), "must decrypt")
        .label(ct.is_empty(), "empty ciphertext")
        .label(ct.len() % n != 0, "not whole blocks")
        .label(want.is_none() && !ct.is_empty() && ct.len() % n == 0, "bad padding"))
}

/// Last plaintext block: well padded, or wrong in one of the ways that look almost right.
pub fn last_block(n: usize) -> BoxedStrategy<Hx> {
    (arr(n), 0usize..=n.min(255), 0usize..7, any::<u8>(), any::<usize>())
        .prop_map(move |(mut b, p, kind, x, at)| {
            let p1 = p.max(1);
            let q = if kind == 1 { 0 } else { p1 };
            if kind != 6 {
                for v in b.0[n - p1..].iter_mut() {
                    *v = q as u8;
                }
            }
            match kind {
                // one wrong byte inside the padding
                2 => b.0[n - p1 + at % p1] = x,
                // the byte count exceeds the block
                3 => b.0[n - 1] = (n as u64 + 1 + x as u64).min(255) as u8,
                // only the last byte right
                4 => b.0[n - p1..n - 1].fill(x),
                // zero
                5 => b.0[n - 1] = 0,
                _ => {}
            }
            b
        })
        .boxed()
}

fn dec_case() -> BoxedStrategy<DecCase> {
    cipher_spec()
        .prop_flat_map(|cipher| {
            let n = cipher.n();
            let damage = prop_oneof![
                6 => Just((0usize, Hx(vec![]), None)),
                1 => (1..=n).prop_map(|c| (c, Hx(vec![]), None)),
                1 => bytes(1..=n).prop_map(|e| (0, e, None)),
                1 => (any::<usize>(), 1u8..).prop_map(|f| (0, Hx(vec![]), Some(f))),
                1 => Just((usize::MAX, Hx(vec![]), None)),
                1 => bytes(0..=3 * n).prop_map(|e| (usize::MAX, e, None)),
            ];
            (Just(cipher), 0..MODES.len() as u8, any::<bool>(), arr(n), (0usize..4).prop_flat_map(move |k| arr(k * n)), last_block(n), damage)
        })
        .prop_map(|(cipher, mode, lib_ecb, iv, mut plain, last, (cut, extra, flip))| {
            plain.0.extend(last.0);
            DecCase { cipher, mode, lib_ecb, iv, plain, cut, extra, flip }
        })
        .boxed()
}

/// The identity cipher (or a bijection), so that the bytes are the padded message itself.
fn dec_fed(b: &[u8]) -> Option<DecCase> {
    let f = &mut Feed(b);
    let (s, k) = (f.u8(), f.u8());
    let n = SIZES[s as usize % SIZES.len()];
    let cipher = if k & 1 == 0 { CipherSpec::Plain(n) } else { CipherSpec::Toy(n, k as u64) };
    let (mode, iv) = if k & 2 == 0 { (0, Hx(vec![0; n])) } else { ((k >> 2) % MODES.len() as u8, f.take(n)) };
    let extra = f.some(if k & 0x80 != 0 { 40 } else { 0 });
    let mut plain = f.rest();
    let whole = plain.len() / n * n;
    plain.0.truncate(whole);
    Some(DecCase { cipher, mode, lib_ecb: k & 0x40 == 0, iv, plain, cut: 0, extra, flip: None })
}

fn fed_seeds() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for (i, n) in SIZES.iter().enumerate().filter(|(_, n)| **n <= 64) {
        for p in [1, n / 2, *n] {
            for k in [0u8, 1, 2] {
                let mut b = vec![i as u8, k];
                if k == 2 {
                    b.extend(vec![5; *n]);
                }
                b.push(0);
                b.extend((0..2 * n - p).map(|x| x as u8));
                b.extend(vec![p as u8; p]);
                v.push(b);
            }
        }
    }
    v
}

pub fn c06() -> Vec<Box<dyn DynFacet>> {
    let mut v = far_facets(false);
    v.extend(c06_more());
    v
}

fn c06_more() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("decryption-bytes", "libFuzzer's bytes as cipher, mode and plaintext blocks", 50_000, 300, fed_seeds, dec_fed, dec_check).boxed(),
        Facet::random(
            "crafted-ciphertexts",
            "reference-encrypted plaintext blocks whose last block is well padded or wrong in one way (zero count, count above N, one wrong pad byte, only last byte right, arbitrary), optionally cut, extended, bit-flipped, emptied or random; expected outcome from reference decryption; non-trivial: must refuse, or several blocks",
            80_000,
            dec_case,
            dec_check,
        )
        .boxed(),
        Facet::indexed(
            "all-pad-counts",
            "every block size of the list with every last byte 0..=255 and the pad bytes before it right or (odd repeats) one wrong",
            SIZES.len() as u64 * 256 * 2,
            |i| {
                let n = SIZES[(i / 512) as usize];
                let v = (i / 2 % 256) as u8;
                let wrong = i % 2 == 1;
                (any::<u64>(), 0..MODES.len() as u8, any::<bool>(), arr(n), arr(n), any::<usize>(), 1u8.., any::<bool>()).prop_map(move |(s, mode, lib_ecb, iv, mut plain, at, x, two)| {
                    let p = (v as usize).min(n);
                    for b in plain.0[n - p..].iter_mut() {
                        *b = v;
                    }
                    plain.0[n - 1] = v;
                    if wrong && p > 0 {
                        plain.0[n - p + at % p] ^= x;
                    }
                    if two {
                        let mut first = iv.0.clone();
                        first.extend_from_slice(&plain);
                        plain = Hx(first);
                    }
                    DecCase { cipher: CipherSpec::Toy(n, s), mode, lib_ecb, iv, plain, cut: 0, extra: Hx(vec![]), flip: None }
                })
            },
            dec_check,
        )
        .boxed(),
        Facet::indexed(
            "all-lengths",
            "ciphertext of every length 0..=2N+1 for every block size of the list",
            SIZES.iter().map(|n| 2 * *n as u64 + 2).sum(),
            |mut i| {
                let mut k = 0;
                while i >= 2 * SIZES[k] as u64 + 2 {
                    i -= 2 * SIZES[k] as u64 + 2;
                    k += 1;
                }
                let n = SIZES[k];
                let len = i as usize;
                (any::<u64>(), 0..MODES.len() as u8, any::<bool>(), arr(n), arr(3 * n), last_block(n)).prop_map(move |(s, mode, lib_ecb, iv, plain, last)| {
                    // truncation of a valid ciphertext to this length, the last whole block well formed
                    let mut p = plain.0;
                    let whole = len / n;
                    if whole > 0 {
                        p[(whole - 1) * n..whole * n].copy_from_slice(&last);
                    }
                    DecCase { cipher: CipherSpec::Toy(n, s), mode, lib_ecb, iv, plain: Hx(p), cut: 3 * n - len, extra: Hx(vec![]), flip: None }
                })
            },
            dec_check,
        )
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C07

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct PadCase {
    n: usize,
    part: Hx,
}

fn pkcs_pad<const N: usize>(p: &[u8]) -> Vec<u8> {
    PkcsPadding::<N>.pad(p).to_vec()
}
fn pkcs_unpad<const N: usize>(b: &[u8]) -> usize {
    PkcsPadding::<N>.unpad(b.try_into().unwrap())
}
fn bit_pad<const N: usize>(p: &[u8]) -> Vec<u8> {
    BitPadding::<N>.pad(p).to_vec()
}
fn bit_unpad<const N: usize>(b: &[u8]) -> (Vec<u8>, usize) {
    let (b, l) = BitPadding::<N>.unpad(b.try_into().unwrap());
    (b.to_vec(), l)
}

fn pad_check(c: &PadCase) -> Res {
    let (n, len) = (c.n, c.part.len());
    if len >= n {
        for (what, r) in [("pkcs", attempt(|| each_n!(n, pkcs_pad, &c.part))), ("bit", attempt(|| each_n!(n, bit_pad, &c.part)))] {
            ensure!(r.is_err(), format!("{what}:overfull"), "{what} padding accepted {len} bytes for a block of {n}: {}", short(&r.unwrap()));
        }
        return Ok(Info::new(true).label(true, "over-full refused").label(len == n, "exactly full"));
    }
    let mut want = c.part.0.clone();
    want.resize(n, (n - len) as u8);
    let p = each_n!(n, pkcs_pad, &c.part);
    ensure!(p == want, "pkcs:block", "PKCS#7 pads {} to {}, expected {}", short(&c.part), short(&p), short(&want));
    let l = each_n!(n, pkcs_unpad, &want);
    ensure!(l == len, "pkcs:unpad", "PKCS#7 unpad of {} gave length {l}, expected {len}", short(&want));
    let mut want = c.part.0.clone();
    want.push(0x80);
    want.resize(n, 0);
    let p = each_n!(n, bit_pad, &c.part);
    ensure!(p == want, "bit:block", "bit padding pads {} to {}, expected {}", short(&c.part), short(&p), short(&want));
    let (b, l) = each_n!(n, bit_unpad, &want);
    ensure!(l == len && b[..len] == c.part[..], "bit:unpad", "bit unpad of {} gave {} (length {l}), expected length {len}", short(&want), short(&b));
    Ok(Info::new(true).label(len + 1 == n, "one byte short").label(len == 0, "empty part"))
}

fn unpad_check(c: &PadCase) -> Res {
    // c.part is a whole block; decide by the definition what may have produced it
    let (n, b) = (c.n, &c.part.0);
    let p = b[n - 1] as usize;
    let pk = (p >= 1 && p <= n && b[n - p..].iter().all(|&x| x as usize == p)).then(|| n - p);
    let got = attempt(|| each_n!(n, pkcs_unpad, b));
    match (&got, pk) {
        (Ok(g), Some(w)) => ensure!(*g == w, "pkcs:unpad", "PKCS#7 unpad of {} gave {g}, expected {w}", short(b)),
        (Ok(g), None) => ensure!(false, "pkcs:accepts", "PKCS#7 unpad of {} (N={n}) gave {g}; no padding produces that block", short(b)),
        (Err(m), Some(w)) => ensure!(false, "pkcs:refuses", "PKCS#7 unpad of {} refused ({m}), expected {w}", short(b)),
        (Err(_), None) => {}
    }
    let bi = b.iter().rposition(|&x| x != 0).filter(|&i| b[i] == 0x80);
    let got = attempt(|| each_n!(n, bit_unpad, b));
    match (&got, bi) {
        (Ok((g, l)), Some(w)) => ensure!(*l == w && g[..w] == b[..w], "bit:unpad", "bit unpad of {} gave {} (length {l}), expected length {w}", short(b), short(g)),
        (Ok((g, l)), None) => ensure!(false, "bit:accepts", "bit unpad of {} (N={n}) gave {} (length {l}); no padding produces that block", short(b), short(g)),
        (Err(m), Some(w)) => ensure!(false, "bit:refuses", "bit unpad of {} refused ({m}), expected {w}", short(b)),
        (Err(_), None) => {}
    }
    Ok(Info::new(pk.is_none() || bi.is_none() || p > 1)
        .label(pk.is_some(), "valid pkcs")
        .label(bi.is_some(), "valid bit padding")
        .label(pk.is_none() && bi.is_none(), "valid under neither")
        .label(bi.is_none() && b.contains(&0x80), "0x80 present but not a marker"))
}

fn bit_block(n: usize) -> BoxedStrategy<Hx> {
    (arr(n), 0..n, 0usize..5, any::<u8>(), any::<usize>())
        .prop_map(move |(mut b, at, kind, x, j)| {
            b.0[at] = if kind == 1 { x } else { 0x80 };
            b.0[at + 1..].fill(0);
            if kind == 2 && at + 1 < n {
                let w = n - at - 1;
                b.0[at + 1 + j % w] = x;
            }
            if kind == 3 {
                b.0.fill(0);
            }
            if kind == 4 && at + 1 < n {
                let w = n - at - 1;
                b.0[at + 1 + j % w] = 0x80;
            }
            b
        })
        .boxed()
}

fn unpad_fed(b: &[u8]) -> Option<PadCase> {
    (1..=255).contains(&b.len()).then(|| PadCase { n: b.len(), part: Hx(b.to_vec()) })
}

fn pad_fed(b: &[u8]) -> Option<PadCase> {
    let (n, p) = b.split_first()?;
    Some(PadCase { n: (*n).max(1) as usize, part: Hx(p.to_vec()) })
}

pub fn c07() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("unpadding-bytes", "libFuzzer's bytes as a block of 1..=255 bytes", 60_000, 255, || [1usize, 2, 8, 16, 17, 64, 200, 255].iter().flat_map(|&n| [vec![n as u8; n], [vec![7; n - 1], vec![0x80]].concat(), [vec![0x80], vec![0; n - 1]].concat(), vec![1; n]]).collect(), unpad_fed, unpad_check).boxed(),
        Facet::fuzzed("padding-bytes", "libFuzzer's bytes as block size and partial block", 40_000, 300, || blobs(13, &[1, 4, 9, 17, 30, 100, 256]), pad_fed, pad_check).boxed(),
        Facet::indexed(
            "pad-grid",
            "every block size 1..=255 with every partial length 0..N, generated contents: both schemes' blocks and their inverse",
            (1..=255u64).sum(),
            |i| {
                let mut i = i;
                let mut n = 1u64;
                while i >= n {
                    i -= n;
                    n += 1;
                }
                let n = n as usize;
                prop_oneof![3 => arr(i as usize), 1 => vec(select(vec![0u8, 0x80, 1, (n - i as usize) as u8]), i as usize).prop_map(Hx)].prop_map(move |part| PadCase { n, part })
            },
            pad_check,
        )
        .boxed(),
        Facet::random(
            "over-full",
            "parts of N..=N+260 and up to N+65536 bytes for every N",
            8_000,
            || (1usize..=255, prop_oneof![2 => Just(0usize), 1 => 1usize..=3, 1 => 0usize..=80, 1 => 250usize..=260, 1 => select(vec![512usize, 1024, 32_768, 65_535, 65_536])]).prop_flat_map(|(n, d)| arr(n + d).prop_map(move |part| PadCase { n, part })),
            pad_check,
        )
        .boxed(),
        Facet::indexed(
            "unpad-all-counts",
            "every block size 1..=255 with every last byte, pad bytes right or wrong in one place",
            255 * 256 * 2,
            |i| {
                let (n, v, wrong) = ((i / 512) as usize + 1, (i / 2) as u8, i % 2 == 1);
                (arr(n), any::<usize>(), 1u8..).prop_map(move |(mut b, at, x)| {
                    let p = (v as usize).min(n);
                    b.0[n - p..].fill(v);
                    b.0[n - 1] = v;
                    if wrong && p > 1 {
                        b.0[n - p + at % (p - 1)] ^= x;
                    }
                    PadCase { n, part: b }
                })
            },
            unpad_check,
        )
        .boxed(),
        Facet::random(
            "unpad-crafted",
            "whole blocks of every size that are valid or almost valid under one of the schemes; refused exactly when no partial block pads to them",
            150_000,
            || prop_oneof![2 => 1usize..=255, 2 => 1usize..=17].prop_flat_map(|n| prop_oneof![3 => last_block(n), 3 => bit_block(n), 1 => arr(n)].prop_map(move |part| PadCase { n, part })),
            unpad_check,
        )
        .boxed(),
        Facet::indexed(
            "unpad-two-byte-blocks",
            "all 65536 blocks of two bytes and all 256 of one byte",
            65536 + 256,
            |i| Just(if i < 65536 { PadCase { n: 2, part: Hx(vec![(i >> 8) as u8, i as u8]) } } else { PadCase { n: 1, part: Hx(vec![i as u8]) } }),
            unpad_check,
        )
        .thorough(65536 + 256)
        .boxed(),
    ]
}
