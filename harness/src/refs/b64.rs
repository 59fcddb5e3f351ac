//! Standard-alphabet base64, canonical padding (RFC 4648 section 4), strict.
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";

pub fn enc(d: &[u8]) -> String {
    let mut s = String::new();
    for c in d.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                s.push(A[(v >> (18 - 6 * i)) as usize & 63] as char)
            } else {
                s.push('=')
            }
        }
    }
    s
}

/// None unless `s` is exactly what `enc` would produce for some bytes.
pub fn dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::new();
    let n = b.len() / 4;
    for (gi, g) in b.chunks(4).enumerate() {
        let pad = g.iter().rev().take_while(|&&c| c == b'=').count();
        if pad > 2 || (pad > 0 && gi + 1 != n) {
            return None;
        }
        let mut v = 0u32;
        for &c in &g[..4 - pad] {
            v = v << 6 | A.iter().position(|&a| a == c)? as u32;
        }
        v <<= 6 * pad;
        let full = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if full[3 - pad..].iter().any(|&x| x != 0) {
            return None; // non-zero trailing bits
        }
        out.extend_from_slice(&full[..3 - pad]);
    }
    Some(out)
}
