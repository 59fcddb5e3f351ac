//! Natural numbers on 32-bit limbs: schoolbook multiplication and long division.
use std::cmp::Ordering;

#[derive(Clone, Debug, PartialEq, Eq, Hash, Default)]
pub struct Nat {
    l: Vec<u32>, // little endian, no high zero limbs
}

impl Nat {
    pub fn zero() -> Nat {
        Nat { l: vec![] }
    }
    pub fn one() -> Nat {
        Nat::from_u128(1)
    }
    fn norm(mut self) -> Nat {
        while self.l.last() == Some(&0) {
            self.l.pop();
        }
        self
    }
    pub fn from_u128(v: u128) -> Nat {
        Nat { l: (0..4).map(|i| (v >> (32 * i)) as u32).collect() }.norm()
    }
    pub fn from_be(b: &[u8]) -> Nat {
        let mut l = vec![0u32; b.len().div_ceil(4)];
        for (i, &x) in b.iter().rev().enumerate() {
            l[i / 4] |= (x as u32) << (8 * (i % 4));
        }
        Nat { l }.norm()
    }
    pub fn from_le(b: &[u8]) -> Nat {
        let v: Vec<u8> = b.iter().rev().copied().collect();
        Nat::from_be(&v)
    }
    /// Minimal big-endian bytes; empty for zero.
    pub fn to_be(&self) -> Vec<u8> {
        let mut v = Vec::with_capacity(self.l.len() * 4);
        for w in self.l.iter().rev() {
            v.extend_from_slice(&w.to_be_bytes());
        }
        let z = v.iter().take_while(|&&b| b == 0).count();
        v.drain(..z);
        v
    }
    /// Big-endian bytes left-padded with zeros to `k` bytes.
    pub fn to_be_len(&self, k: usize) -> Vec<u8> {
        let b = self.to_be();
        assert!(b.len() <= k);
        let mut v = vec![0u8; k - b.len()];
        v.extend(b);
        v
    }
    pub fn to_u128(&self) -> Option<u128> {
        if self.l.len() > 4 {
            return None;
        }
        Some(self.l.iter().rev().fold(0u128, |a, &w| (a << 32) | w as u128))
    }
    pub fn is_zero(&self) -> bool {
        self.l.is_empty()
    }
    pub fn is_even(&self) -> bool {
        self.l.first().is_none_or(|w| w & 1 == 0)
    }
    pub fn bits(&self) -> u32 {
        match self.l.last() {
            None => 0,
            Some(w) => 32 * self.l.len() as u32 - w.leading_zeros(),
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        self.l.get(i as usize / 32).is_some_and(|w| (w >> (i % 32)) & 1 == 1)
    }
    pub fn with_bit(&self, i: u32, set: bool) -> Nat {
        let mut l = self.l.clone();
        let k = i as usize / 32;
        if l.len() <= k {
            l.resize(k + 1, 0);
        }
        if set {
            l[k] |= 1 << (i % 32)
        } else {
            l[k] &= !(1 << (i % 32))
        }
        Nat { l }.norm()
    }
    pub fn add(&self, o: &Nat) -> Nat {
        let n = self.l.len().max(o.l.len());
        let mut l = Vec::with_capacity(n + 1);
        let mut c = 0u64;
        for i in 0..n {
            let s = *self.l.get(i).unwrap_or(&0) as u64 + *o.l.get(i).unwrap_or(&0) as u64 + c;
            l.push(s as u32);
            c = s >> 32;
        }
        l.push(c as u32);
        Nat { l }.norm()
    }
    pub fn checked_sub(&self, o: &Nat) -> Option<Nat> {
        if (*self).cmp(o) == Ordering::Less {
            return None;
        }
        let mut l = Vec::with_capacity(self.l.len());
        let mut b = 0i64;
        for i in 0..self.l.len() {
            let mut d = self.l[i] as i64 - *o.l.get(i).unwrap_or(&0) as i64 - b;
            b = 0;
            if d < 0 {
                d += 1 << 32;
                b = 1;
            }
            l.push(d as u32);
        }
        Some(Nat { l }.norm())
    }
    pub fn sub(&self, o: &Nat) -> Nat {
        self.checked_sub(o).expect("reference subtraction underflow")
    }
    pub fn mul(&self, o: &Nat) -> Nat {
        let mut l = vec![0u32; self.l.len() + o.l.len()];
        for (i, &a) in self.l.iter().enumerate() {
            let mut c = 0u64;
            for (j, &b) in o.l.iter().enumerate() {
                let t = a as u64 * b as u64 + l[i + j] as u64 + c;
                l[i + j] = t as u32;
                c = t >> 32;
            }
            l[i + o.l.len()] = c as u32;
        }
        Nat { l }.norm()
    }
    pub fn shl(&self, n: u32) -> Nat {
        if self.is_zero() {
            return Nat::zero();
        }
        let (w, b) = ((n / 32) as usize, n % 32);
        let mut l = vec![0u32; w];
        let mut c = 0u32;
        for &x in &self.l {
            let t = (x as u64) << b;
            l.push(t as u32 | c);
            c = (t >> 32) as u32;
        }
        l.push(c);
        Nat { l }.norm()
    }
    pub fn shr(&self, n: u32) -> Nat {
        let (w, b) = ((n / 32) as usize, n % 32);
        if w >= self.l.len() {
            return Nat::zero();
        }
        let s = &self.l[w..];
        let l = (0..s.len())
            .map(|i| {
                let hi = *s.get(i + 1).unwrap_or(&0) as u64;
                ((((hi << 32) | s[i] as u64) >> b) & 0xffff_ffff) as u32
            })
            .collect();
        Nat { l }.norm()
    }
    pub fn divrem(&self, d: &Nat) -> (Nat, Nat) {
        assert!(!d.is_zero(), "reference division by zero");
        if (*self).cmp(d) == Ordering::Less {
            return (Nat::zero(), self.clone());
        }
        if d.l.len() == 1 {
            let dv = d.l[0] as u64;
            let mut q = vec![0u32; self.l.len()];
            let mut r = 0u64;
            for i in (0..self.l.len()).rev() {
                let cur = (r << 32) | self.l[i] as u64;
                q[i] = (cur / dv) as u32;
                r = cur % dv;
            }
            return (Nat { l: q }.norm(), Nat::from_u128(r as u128));
        }
        // Knuth, algorithm D
        let s = d.l.last().unwrap().leading_zeros();
        let v = d.shl(s).l;
        let mut u = self.shl(s).l;
        if u.len() == self.l.len() {
            u.push(0);
        }
        let n = v.len();
        let m = u.len() - n - 1;
        let mut q = vec![0u32; m + 1];
        let b = 1u64 << 32;
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u64) << 32) | u[j + n - 1] as u64;
            let mut qh = num / v[n - 1] as u64;
            let mut rh = num % v[n - 1] as u64;
            while qh >= b || qh * v[n - 2] as u64 > ((rh << 32) | u[j + n - 2] as u64) {
                qh -= 1;
                rh += v[n - 1] as u64;
                if rh >= b {
                    break;
                }
            }
            let mut borrow = 0i64;
            let mut carry = 0u64;
            for i in 0..n {
                let p = qh * v[i] as u64 + carry;
                carry = p >> 32;
                let t = u[i + j] as i64 - borrow - (p & 0xffff_ffff) as i64;
                u[i + j] = t as u32;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i64 - borrow - carry as i64;
            u[j + n] = t as u32;
            if t < 0 {
                qh -= 1;
                let mut c = 0u64;
                for i in 0..n {
                    let t = u[i + j] as u64 + v[i] as u64 + c;
                    u[i + j] = t as u32;
                    c = t >> 32;
                }
                u[j + n] = (u[j + n] as u64 + c) as u32;
            }
            q[j] = qh as u32;
        }
        u.truncate(n);
        (Nat { l: q }.norm(), Nat { l: u }.norm().shr(s))
    }
    pub fn rem(&self, d: &Nat) -> Nat {
        self.divrem(d).1
    }
    pub fn gcd(&self, o: &Nat) -> Nat {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn lcm(&self, o: &Nat) -> Nat {
        self.mul(o).divrem(&self.gcd(o)).0
    }
    /// Mathematical a^e mod m for m >= 1 (0^0 = 1).
    pub fn modpow(&self, e: &Nat, m: &Nat) -> Nat {
        let mut r = Nat::one().rem(m);
        let a = self.rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mul(&r).rem(m);
            if e.bit(i) {
                r = r.mul(&a).rem(m);
            }
        }
        r
    }
    pub fn modinv(&self, m: &Nat) -> Option<Nat> {
        // coefficients kept modulo m, so everything stays non-negative
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (Nat::zero(), Nat::one().rem(m));
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let qt = q.mul(&t1).rem(m);
            let t = t0.add(m).sub(&qt).rem(m);
            (r0, r1) = (r1, r);
            (t0, t1) = (t1, t);
        }
        (r0 == Nat::one()).then_some(t0)
    }
    /// Miller-Rabin: first 13 primes as bases (deterministic below 3.3e24, else overwhelming).
    pub fn is_prime(&self) -> bool {
        const B: [u32; 13] = [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41];
        if *self < Nat::from_u128(2) {
            return false;
        }
        for b in B {
            let p = Nat::from_u128(b as u128);
            if *self == p {
                return true;
            }
            if self.rem(&p).is_zero() {
                return false;
            }
        }
        let one = Nat::one();
        let n1 = self.sub(&one);
        let mut d = n1.clone();
        let mut s = 0;
        while d.is_even() {
            d = d.shr(1);
            s += 1;
        }
        'b: for b in B {
            let mut x = Nat::from_u128(b as u128).modpow(&d, self);
            if x == one || x == n1 {
                continue;
            }
            for _ in 1..s {
                x = x.mul(&x).rem(self);
                if x == n1 {
                    continue 'b;
                }
            }
            return false;
        }
        true
    }
    /// Smallest prime >= self.
    pub fn next_prime(&self) -> Nat {
        let two = Nat::from_u128(2);
        if *self <= two {
            return two;
        }
        let mut n = self.clone();
        if n.is_even() {
            n = n.add(&Nat::one());
        }
        while !n.is_prime() {
            n = n.add(&two);
        }
        n
    }
}

impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Nat) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Nat {
    fn cmp(&self, o: &Nat) -> Ordering {
        self.l.len().cmp(&o.l.len()).then_with(|| self.l.iter().rev().cmp(o.l.iter().rev()))
    }
}
