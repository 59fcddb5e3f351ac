//! RC2 (RFC 2268), RC4, RC5-32 (RFC 2040 / Rivest).

const PI: &[u8; 512] = b"\
d978f9c419ddb5ed28e9fd794aa0d89dc67e37832b76538e624c6488448bfba2\
179a59f587b34f1361456d8d09817d32bd8f40eb86b77b0bf09521225c6b4e82\
54d66593ce60b21c7356c014a78cf1dc1275ca1f3bbee4d1423dd430a33cb626\
6fbf0eda4669075727f21d9bbc944303f811c7f690ef3ee706c3d52fc8661ed7\
08e8eade8052eef784aa72ac354d6a2a961ad2715a1549744b9fd05e0418a4ec\
c2e0416e0f51cbcc2491af50a1f47039997c3a8523b8b47afc02365b25559731\
2d5dfa98e38a92ae05df2910676cbac9d300e6cfe19ea82c6316013f58e289a9\
0d38341bab33ffb0bb480c5fb9b1cd2ec5f3db47e5a59c770aa62068fe7fc1ad";

fn pi() -> &'static [u8; 256] {
    static T: std::sync::OnceLock<[u8; 256]> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let v = hex::decode(&PI[..]).unwrap();
        v.try_into().unwrap()
    })
}

pub struct RefRc2 {
    k: [u16; 64],
}

impl RefRc2 {
    pub fn new(key: &[u8], t1: usize) -> RefRc2 {
        assert!((1..=128).contains(&key.len()) && (1..=1024).contains(&t1));
        let p = pi();
        let t = key.len();
        let t8 = (t1 + 7) / 8;
        let tm = (255u32 % (1u32 << (8 + t1 - 8 * t8))) as u8;
        let mut l = [0u8; 128];
        l[..t].copy_from_slice(key);
        for i in t..128 {
            l[i] = p[((l[i - 1] as usize) + (l[i - t] as usize)) % 256];
        }
        l[128 - t8] = p[(l[128 - t8] & tm) as usize];
        let mut i = 128 - t8;
        while i > 0 {
            i -= 1;
            l[i] = p[(l[i + 1] ^ l[i + t8]) as usize];
        }
        let mut k = [0u16; 64];
        for i in 0..64 {
            k[i] = l[2 * i] as u16 + 256 * l[2 * i + 1] as u16;
        }
        RefRc2 { k }
    }
    pub fn enc(&self, b: [u8; 8]) -> [u8; 8] {
        let mut r: [u32; 4] = std::array::from_fn(|i| b[2 * i] as u32 | (b[2 * i + 1] as u32) << 8);
        let mut j = 0;
        let s = [1, 2, 3, 5];
        let mut mix = |r: &mut [u32; 4]| {
            for i in 0..4 {
                let (a, bb, c) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
                let v = (r[i] + self.k[j] as u32 + (a & bb) + ((a ^ 0xffff) & c)) & 0xffff;
                r[i] = (v << s[i] | v >> (16 - s[i])) & 0xffff;
                j += 1;
            }
        };
        let mash = |r: &mut [u32; 4]| {
            for i in 0..4 {
                r[i] = (r[i] + self.k[(r[(i + 3) & 3] % 64) as usize] as u32) & 0xffff;
            }
        };
        for _ in 0..5 {
            mix(&mut r)
        }
        mash(&mut r);
        for _ in 0..6 {
            mix(&mut r)
        }
        mash(&mut r);
        for _ in 0..5 {
            mix(&mut r)
        }
        std::array::from_fn(|i| (r[i / 2] >> (8 * (i % 2))) as u8)
    }
    pub fn dec(&self, b: [u8; 8]) -> [u8; 8] {
        let mut r: [u32; 4] = std::array::from_fn(|i| b[2 * i] as u32 | (b[2 * i + 1] as u32) << 8);
        let mut j = 64;
        let s = [1, 2, 3, 5];
        let mut rmix = |r: &mut [u32; 4]| {
            for i in (0..4).rev() {
                j -= 1;
                let (a, bb, c) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
                let v = (r[i] >> s[i] | r[i] << (16 - s[i])) & 0xffff;
                r[i] = (v + 4 * 0x10000 - self.k[j] as u32 - (a & bb) - ((a ^ 0xffff) & c)) & 0xffff;
            }
        };
        let rmash = |r: &mut [u32; 4]| {
            for i in (0..4).rev() {
                r[i] = (r[i] + 0x10000 - self.k[(r[(i + 3) & 3] % 64) as usize] as u32) & 0xffff;
            }
        };
        for _ in 0..5 {
            rmix(&mut r)
        }
        rmash(&mut r);
        for _ in 0..6 {
            rmix(&mut r)
        }
        rmash(&mut r);
        for _ in 0..5 {
            rmix(&mut r)
        }
        std::array::from_fn(|i| (r[i / 2] >> (8 * (i % 2))) as u8)
    }
}

impl RefRc2 {
    /// The block whose encryption meets words `r` after `steps` of its 72 single-word steps.
    pub fn block_meeting(&self, mut r: [u16; 4], steps: usize) -> [u8; 8] {
        // (mashing?, word index, key index)
        let mut ops = vec![];
        let mut j = 0;
        for (rounds, mash) in [(5, true), (6, true), (5, false)] {
            for _ in 0..rounds {
                for i in 0..4 {
                    ops.push((false, i, j));
                    j += 1;
                }
            }
            if mash {
                ops.extend((0..4).map(|i| (true, i, 0)));
            }
        }
        for &(mash, i, j) in ops[..steps].iter().rev() {
            let (a, b, c) = (r[(i + 3) & 3], r[(i + 2) & 3], r[(i + 1) & 3]);
            r[i] = if mash { r[i].wrapping_sub(self.k[(a % 64) as usize]) } else { r[i].rotate_right([1, 2, 3, 5][i]).wrapping_sub(self.k[j]).wrapping_sub(a & b).wrapping_sub(!a & c) };
        }
        std::array::from_fn(|i| (r[i / 2] >> (8 * (i % 2))) as u8)
    }
}

pub struct RefRc4 {
    s: Vec<usize>,
    i: usize,
    j: usize,
}

impl RefRc4 {
    pub fn new(key: &[u8]) -> RefRc4 {
        let mut s: Vec<usize> = (0..256).collect();
        let mut j = 0;
        for i in 0..256 {
            j = (j + s[i] + key[i % key.len()] as usize) % 256;
            s.swap(i, j);
        }
        RefRc4 { s, i: 0, j: 0 }
    }
    pub fn byte(&mut self) -> u8 {
        self.i = (self.i + 1) % 256;
        self.j = (self.j + self.s[self.i]) % 256;
        self.s.swap(self.i, self.j);
        self.s[(self.s[self.i] + self.s[self.j]) % 256] as u8
    }
    pub fn stream(key: &[u8], n: usize) -> Vec<u8> {
        let mut r = RefRc4::new(key);
        (0..n).map(|_| r.byte()).collect()
    }
}

pub struct RefRc5 {
    s: Vec<u32>,
    r: usize,
}

fn rol(x: u32, n: u32) -> u32 {
    let n = n % 32;
    if n == 0 {
        x
    } else {
        x << n | x >> (32 - n)
    }
}
fn ror(x: u32, n: u32) -> u32 {
    rol(x, (32 - n % 32) % 32)
}

impl RefRc5 {
    pub fn new(key: &[u8], r: usize) -> RefRc5 {
        let b = key.len();
        let c = std::cmp::max(1, (b + 3) / 4);
        let mut l = vec![0u32; c];
        for i in (0..b).rev() {
            l[i / 4] = (l[i / 4] << 8).wrapping_add(key[i] as u32);
        }
        let t = 2 * (r + 1);
        let mut s = vec![0u32; t];
        s[0] = 0xb7e15163;
        for i in 1..t {
            s[i] = s[i - 1].wrapping_add(0x9e3779b9);
        }
        let (mut i, mut j, mut a, mut bb) = (0, 0, 0u32, 0u32);
        for _ in 0..3 * std::cmp::max(t, c) {
            a = rol(s[i].wrapping_add(a).wrapping_add(bb), 3);
            s[i] = a;
            let n = a.wrapping_add(bb);
            bb = rol(l[j].wrapping_add(n), n);
            l[j] = bb;
            i = (i + 1) % t;
            j = (j + 1) % c;
        }
        RefRc5 { s, r }
    }
    pub fn enc(&self, p: [u8; 8]) -> [u8; 8] {
        let w = |o: usize| (0..4).fold(0u32, |v, i| v | (p[o + i] as u32) << (8 * i));
        let mut a = w(0).wrapping_add(self.s[0]);
        let mut b = w(4).wrapping_add(self.s[1]);
        for i in 1..=self.r {
            a = rol(a ^ b, b).wrapping_add(self.s[2 * i]);
            b = rol(b ^ a, a).wrapping_add(self.s[2 * i + 1]);
        }
        std::array::from_fn(|i| if i < 4 { (a >> (8 * i)) as u8 } else { (b >> (8 * (i - 4))) as u8 })
    }
    pub fn dec(&self, p: [u8; 8]) -> [u8; 8] {
        let w = |o: usize| (0..4).fold(0u32, |v, i| v | (p[o + i] as u32) << (8 * i));
        let (mut a, mut b) = (w(0), w(4));
        for i in (1..=self.r).rev() {
            b = ror(b.wrapping_sub(self.s[2 * i + 1]), a) ^ a;
            a = ror(a.wrapping_sub(self.s[2 * i]), b) ^ b;
        }
        a = a.wrapping_sub(self.s[0]);
        b = b.wrapping_sub(self.s[1]);
        std::array::from_fn(|i| if i < 4 { (a >> (8 * i)) as u8 } else { (b >> (8 * (i - 4))) as u8 })
    }
}

impl RefRc5 {
    /// The block whose encryption meets (a, b) after `half` half-rounds.
    pub fn block_meeting(&self, mut a: u32, mut b: u32, half: usize) -> [u8; 8] {
        for h in (0..half).rev() {
            let i = h / 2 + 1;
            if h % 2 == 1 {
                b = ror(b.wrapping_sub(self.s[2 * i + 1]), a) ^ a;
            } else {
                a = ror(a.wrapping_sub(self.s[2 * i]), b) ^ b;
            }
        }
        a = a.wrapping_sub(self.s[0]);
        b = b.wrapping_sub(self.s[1]);
        std::array::from_fn(|i| if i < 4 { (a >> (8 * i)) as u8 } else { (b >> (8 * (i - 4))) as u8 })
    }
}
