//! EME-OAEP with SHA-256 and MGF1-SHA-256 (RFC 8017, 7.1).
use super::sha::sha256;

pub const H: usize = 32;

pub fn mgf1(seed: &[u8], n: usize) -> Vec<u8> {
    let mut t = Vec::new();
    let mut c = 0u32;
    while t.len() < n {
        let mut m = seed.to_vec();
        m.extend_from_slice(&c.to_be_bytes());
        t.extend(sha256(&m));
        c += 1;
    }
    t.truncate(n);
    t
}

fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

/// Masks an arbitrary data block; a correct one is lHash || 0* || 1 || M.
pub fn mask(first: u8, seed: &[u8], db: &[u8]) -> Vec<u8> {
    let mdb = xor(db, &mgf1(seed, db.len()));
    let ms = xor(seed, &mgf1(&mdb, H));
    let mut o = vec![first];
    o.extend(ms);
    o.extend(mdb);
    o
}

/// (first byte, seed, data block)
pub fn unmask(em: &[u8]) -> Option<(u8, Vec<u8>, Vec<u8>)> {
    if em.len() < 1 + H {
        return None;
    }
    let (ms, mdb) = (&em[1..1 + H], &em[1 + H..]);
    let seed = xor(ms, &mgf1(mdb, H));
    let db = xor(mdb, &mgf1(&seed, mdb.len()));
    Some((em[0], seed, db))
}

pub fn db(label: &[u8], msg: &[u8], k: usize) -> Option<Vec<u8>> {
    if k < msg.len() + 2 * H + 2 {
        return None;
    }
    let mut d = sha256(label);
    d.resize(k - H - 1 - msg.len() - 1, 0);
    d.push(1);
    d.extend_from_slice(msg);
    Some(d)
}

pub fn encode(label: &[u8], msg: &[u8], seed: &[u8], k: usize) -> Option<Vec<u8>> {
    Some(mask(0, seed, &db(label, msg, k)?))
}

pub fn decode(label: &[u8], em: &[u8], k: usize) -> Option<Vec<u8>> {
    if em.len() != k || k < 2 * H + 2 {
        return None;
    }
    let (y, _, d) = unmask(em)?;
    if y != 0 || d[..H] != sha256(label)[..] {
        return None;
    }
    let rest = &d[H..];
    let i = rest.iter().position(|&b| b != 0)?;
    (rest[i] == 1).then(|| rest[i + 1..].to_vec())
}
