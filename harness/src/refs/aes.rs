//! FIPS-197, written directly from the standard; the S-box is computed from its definition
//! (inverse in GF(2^8), then the affine map), with inverses found by exhaustive search.
use std::sync::OnceLock;

fn gmul(a: u8, b: u8) -> u8 {
    // carry-less product, then reduction by x^8+x^4+x^3+x+1
    let mut p: u16 = 0;
    for i in 0..8 {
        if b >> i & 1 == 1 {
            p ^= (a as u16) << i;
        }
    }
    for i in (8..15).rev() {
        if p >> i & 1 == 1 {
            p ^= 0x11b << (i - 8);
        }
    }
    p as u8
}

struct Tab {
    s: [u8; 256],
    si: [u8; 256],
    mul: [[u8; 256]; 16],
}

fn tab() -> &'static Tab {
    static T: OnceLock<Tab> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Tab { s: [0; 256], si: [0; 256], mul: [[0; 256]; 16] };
        for x in 0..=255u8 {
            let inv = (0..=255u8).find(|&y| gmul(x, y) == 1).unwrap_or(0);
            let mut r = 0u8;
            for i in 0..8 {
                let bit = (inv >> i) ^ (inv >> ((i + 4) % 8)) ^ (inv >> ((i + 5) % 8)) ^ (inv >> ((i + 6) % 8)) ^ (inv >> ((i + 7) % 8)) ^ (0x63 >> i);
                r |= (bit & 1) << i;
            }
            t.s[x as usize] = r;
            t.si[r as usize] = x;
            for k in 0..16 {
                t.mul[k][x as usize] = gmul(x, k as u8);
            }
        }
        t
    })
}

pub struct RefAes {
    pub w: Vec<[u8; 4]>,
    nr: usize,
}

impl RefAes {
    pub fn new(key: &[u8]) -> RefAes {
        let t = tab();
        let nk = key.len() / 4;
        let nr = nk + 6;
        let mut w: Vec<[u8; 4]> = key.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect();
        let mut rcon = 1u8;
        for i in nk..4 * (nr + 1) {
            let mut x = w[i - 1];
            if i % nk == 0 {
                x.rotate_left(1);
                x = x.map(|b| t.s[b as usize]);
                x[0] ^= rcon;
                rcon = gmul(rcon, 2);
            } else if nk > 6 && i % nk == 4 {
                x = x.map(|b| t.s[b as usize]);
            }
            let p = w[i - nk];
            w.push([p[0] ^ x[0], p[1] ^ x[1], p[2] ^ x[2], p[3] ^ x[3]]);
        }
        RefAes { w, nr }
    }
    fn add(&self, s: &mut [u8; 16], r: usize) {
        for c in 0..4 {
            for i in 0..4 {
                s[4 * c + i] ^= self.w[4 * r + c][i];
            }
        }
    }
    pub fn enc(&self, b: [u8; 16]) -> [u8; 16] {
        let t = tab();
        let mut s = b;
        self.add(&mut s, 0);
        for r in 1..=self.nr {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    n[4 * c + i] = t.s[s[4 * ((c + i) % 4) + i] as usize];
                }
            }
            if r != self.nr {
                let o = n;
                for c in 0..4 {
                    for i in 0..4 {
                        let g = |k: usize, m: usize| t.mul[m][o[4 * c + (i + k) % 4] as usize];
                        n[4 * c + i] = g(0, 2) ^ g(1, 3) ^ g(2, 1) ^ g(3, 1);
                    }
                }
            }
            s = n;
            self.add(&mut s, r);
        }
        s
    }
    pub fn dec(&self, b: [u8; 16]) -> [u8; 16] {
        let t = tab();
        let mut s = b;
        for r in (1..=self.nr).rev() {
            self.add(&mut s, r);
            if r != self.nr {
                let o = s;
                for c in 0..4 {
                    for i in 0..4 {
                        let g = |k: usize, m: usize| t.mul[m][o[4 * c + (i + k) % 4] as usize];
                        s[4 * c + i] = g(0, 14) ^ g(1, 11) ^ g(2, 13) ^ g(3, 9);
                    }
                }
            }
            let mut n = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    n[4 * ((c + i) % 4) + i] = t.si[s[4 * c + i] as usize];
                }
            }
            s = n;
        }
        self.add(&mut s, 0);
        s
    }
    /// The block whose encryption meets state `s` at the start of round `r` (1..=rounds): before its
    /// byte substitution, or, with `before_mix`, after its row shift.
    pub fn block_meeting(&self, s: [u8; 16], r: usize, before_mix: bool) -> [u8; 16] {
        let t = tab();
        let mut s = s;
        let unsub = |s: [u8; 16]| {
            let mut n = [0u8; 16];
            for c in 0..4 {
                for i in 0..4 {
                    n[4 * ((c + i) % 4) + i] = t.si[s[4 * c + i] as usize];
                }
            }
            n
        };
        if before_mix {
            s = unsub(s);
        }
        for q in (1..r).rev() {
            self.add(&mut s, q);
            let o = s;
            for c in 0..4 {
                for i in 0..4 {
                    let g = |k: usize, m: usize| t.mul[m][o[4 * c + (i + k) % 4] as usize];
                    s[4 * c + i] = g(0, 14) ^ g(1, 11) ^ g(2, 13) ^ g(3, 9);
                }
            }
            s = unsub(s);
        }
        self.add(&mut s, 0);
        s
    }
    pub fn rounds(&self) -> usize {
        self.nr
    }
}

/// The key (of nk words) whose schedule holds `words` from word `pos` on.
pub fn key_meeting(words: &[[u8; 4]], pos: usize) -> Vec<u8> {
    let t = tab();
    let nk = words.len();
    let mut w = words.to_vec();
    for j in (0..pos).rev() {
        // w holds words j+1..j+1+nk; word j = word j+nk ^ f(word j+nk-1)
        let i = j + nk;
        let mut x = if nk >= 2 { w[nk - 2] } else { unreachable!() };
        if i % nk == 0 {
            x.rotate_left(1);
            x = x.map(|b| t.s[b as usize]);
            let mut rcon = 1u8;
            for _ in 1..i / nk {
                rcon = gmul(rcon, 2);
            }
            x[0] ^= rcon;
        } else if nk > 6 && i % nk == 4 {
            x = x.map(|b| t.s[b as usize]);
        }
        let y = w[nk - 1];
        w.pop();
        w.insert(0, [x[0] ^ y[0], x[1] ^ y[1], x[2] ^ y[2], x[3] ^ y[3]]);
    }
    w.concat()
}
