//! A DER encoder and a reference decoder for the six supported types.
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Tree {
    Int(Vec<u8>),
    Oct(Vec<u8>),
    Bit(Vec<u8>, u8),
    Null,
    Oid(Vec<u8>),
    Seq(Vec<Tree>),
}

/// Sequences nested at most this deep must decode; deeper ones may be refused.
pub const MUST_NEST: usize = 24;

pub fn len_min(n: usize) -> Vec<u8> {
    if n < 128 {
        vec![n as u8]
    } else {
        let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|&x| x == 0).collect();
        let mut o = vec![0x80 | b.len() as u8];
        o.extend(b);
        o
    }
}

/// Long form with `width` length bytes.
pub fn len_wide(n: usize, width: usize) -> Vec<u8> {
    let mut o = vec![0x80 | width as u8];
    let be = (n as u128).to_be_bytes();
    let mut v = vec![0u8; width.saturating_sub(16)];
    v.extend_from_slice(&be[16 - width.min(16)..]);
    o.extend(v);
    o
}

pub fn tlv(tag: u8, content: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    o.extend(len_min(content.len()));
    o.extend_from_slice(content);
    o
}

impl Tree {
    pub fn content(&self) -> (u8, Vec<u8>) {
        match self {
            Tree::Int(v) => (2, v.clone()),
            Tree::Oct(v) => (4, v.clone()),
            Tree::Bit(v, u) => {
                let mut c = vec![*u];
                c.extend_from_slice(v);
                (3, c)
            }
            Tree::Null => (5, vec![]),
            Tree::Oid(v) => (6, v.clone()),
            Tree::Seq(v) => (0x30, v.iter().flat_map(|t| t.encode()).collect()),
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let (t, c) = self.content();
        tlv(t, &c)
    }
    pub fn depth(&self) -> usize {
        match self {
            Tree::Seq(v) => 1 + v.iter().map(|t| t.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn count(&self) -> usize {
        match self {
            Tree::Seq(v) => 1 + v.iter().map(|t| t.count()).sum::<usize>(),
            _ => 1,
        }
    }
}

#[derive(Debug, PartialEq)]
pub enum Want {
    /// must decode to this tree
    Exactly(Tree),
    /// not DER in a way the decoder may tolerate: an error, or this tree
    Tolerated(Tree),
    /// must be an error
    Error(&'static str),
}

/// Base-128 arcs, each minimal and complete.
pub fn oid_ok(c: &[u8]) -> bool {
    let mut start = true;
    for &b in c {
        if start && b == 0x80 {
            return false;
        }
        start = b < 0x80;
    }
    !c.is_empty() && start
}

struct P {
    lenient: bool,
}

impl P {
    fn one<'a>(&mut self, b: &'a [u8], depth: usize) -> Result<(Tree, &'a [u8]), &'static str> {
        if b.is_empty() {
            return Err("no tag");
        }
        if b.len() < 2 {
            return Err("no length");
        }
        let (n, head): (u128, usize) = if b[1] < 0x80 {
            (b[1] as u128, 2)
        } else if b[1] == 0x80 {
            return Err("indefinite length");
        } else {
            let w = (b[1] & 0x7f) as usize;
            if b.len() < 2 + w {
                return Err("truncated length");
            }
            let lb = &b[2..2 + w];
            let z = lb.iter().take_while(|&&x| x == 0).count();
            let sig = &lb[z..];
            if sig.len() > 8 {
                return Err("length beyond the data");
            }
            let n = sig.iter().fold(0u128, |a, &x| a << 8 | x as u128);
            if n < 128 || z > 0 {
                self.lenient = true; // valid BER, not DER
            }
            (n, 2 + w)
        };
        let rest = &b[head..];
        if n > rest.len() as u128 {
            return Err("length beyond the data");
        }
        let (c, left) = rest.split_at(n as usize);
        let t = match b[0] {
            0x02 => {
                if c.is_empty() {
                    return Err("empty integer");
                }
                if c.len() > 1 && ((c[0] == 0 && c[1] < 0x80) || (c[0] == 0xff && c[1] >= 0x80)) {
                    self.lenient = true; // not minimal
                }
                Tree::Int(c.to_vec())
            }
            0x04 => Tree::Oct(c.to_vec()),
            0x06 => {
                if c.is_empty() {
                    return Err("empty object identifier");
                }
                if !oid_ok(c) {
                    self.lenient = true;
                }
                Tree::Oid(c.to_vec())
            }
            0x03 => {
                let Some((&u, d)) = c.split_first() else {
                    return Err("empty bit string");
                };
                if u > 7 || (u > 0 && d.is_empty()) {
                    return Err("unused bits");
                }
                if d.last().is_some_and(|l| l & ((1u16 << u) - 1) as u8 != 0) {
                    self.lenient = true;
                }
                Tree::Bit(d.to_vec(), u)
            }
            0x05 => {
                if !c.is_empty() {
                    return Err("null with content");
                }
                Tree::Null
            }
            0x30 => {
                if depth >= MUST_NEST {
                    self.lenient = true;
                }
                let mut v = Vec::new();
                let mut r = c;
                while !r.is_empty() {
                    let (t, l) = self.one(r, depth + 1)?;
                    v.push(t);
                    r = l;
                }
                Tree::Seq(v)
            }
            _ => return Err("unknown tag"),
        };
        Ok((t, left))
    }
}

pub fn want(b: &[u8]) -> Want {
    let mut p = P { lenient: false };
    match p.one(b, 0) {
        Err(e) => Want::Error(e),
        Ok((_, left)) if !left.is_empty() => Want::Error("trailing bytes"),
        Ok((t, _)) if p.lenient => Want::Tolerated(t),
        Ok((t, _)) => Want::Exactly(t),
    }
}
