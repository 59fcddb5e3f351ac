//! C20, C21 PEM text; C22, C23 DER; C24 key import.
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::big::number;
use crate::props::rsa::{der_int, pem, pkcs8, pkcs8_inner, pool, spki, OID_RSA};
use crate::refs::der::{self, Tree, Want};
use crate::refs::nat::Nat;
use crate::refs::{b64, pem as rpem};
use cryptography::big::BigUint;
use cryptography::pem::asn1::Asn1;
use cryptography::pem::PEM;
use cryptography::rsa::{PrivateKey, PublicKey, RsaEncryption};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use proptest::strategy::Union;
use serde::{Deserialize, Serialize};
use std::str::FromStr;

fn parse(s: &str) -> Result<Result<(String, Vec<u8>), String>, String> {
    attempt(|| PEM::from_str(s).map(|p| (p.label, p.data)))
}

fn head(s: &str) -> String {
    let t: String = s.chars().take(400).collect();
    format!("{t:?}")
}

// ------------------------------------------------------------------ C20

/// Labels in use (RFC 7468, OpenSSL, OpenSSH, OpenPGP).
const LABELS: [&str; 32] = [
    "PRIVATE KEY",
    "PUBLIC KEY",
    "ENCRYPTED PRIVATE KEY",
    "RSA PRIVATE KEY",
    "RSA PUBLIC KEY",
    "EC PRIVATE KEY",
    "EC PARAMETERS",
    "DSA PRIVATE KEY",
    "DSA PARAMETERS",
    "DH PARAMETERS",
    "X9.42 DH PARAMETERS",
    "ANY PRIVATE KEY",
    "OPENSSH PRIVATE KEY",
    "SSH2 PUBLIC KEY",
    "CERTIFICATE",
    "X509 CERTIFICATE",
    "X.509 CERTIFICATE",
    "TRUSTED CERTIFICATE",
    "ATTRIBUTE CERTIFICATE",
    "CERTIFICATE REQUEST",
    "NEW CERTIFICATE REQUEST",
    "X509 CRL",
    "CRL",
    "PKCS7",
    "PKCS #7 SIGNED DATA",
    "CMS",
    "SSL SESSION PARAMETERS",
    "PGP MESSAGE",
    "PGP PUBLIC KEY BLOCK",
    "PGP PRIVATE KEY BLOCK",
    "SIGNATURE",
    "MESSAGE",
];

/// Payloads as they occur in practice begin with a DER header.
fn payload(len: impl Strategy<Value = usize> + 'static) -> BoxedStrategy<Hx> {
    (bytes(len), select(vec![vec![], vec![], vec![], vec![0x30], vec![0x30, 0x82], vec![0x30, 0x82, 4], vec![0x30, 0x82, 2, 0x5c, 2, 1, 0], vec![0x30, 0x81, 0x9f, 0x30, 0x0d], vec![0x30, 0x80], vec![0xff; 6], vec![0xfb, 0xff, 0xbf], b"openssh-key-v1\0".to_vec(), vec![0; 3]])).prop_map(|(mut b, h)| {
        let n = h.len().min(b.len());
        b.0[..n].copy_from_slice(&h[..n]);
        b
    }).boxed()
}

fn label() -> BoxedStrategy<String> {
    prop_oneof![
        2 => select(LABELS.to_vec()).prop_map(str::to_string),
        3 => select(vec!["PRIVATE KEY", "PUBLIC KEY", "CERTIFICATE", "A", "", "ABC DEF", "X-", "-", "-----", "END", "BEGIN ", "----- -----", " lead", "trail ", "é", "a=b+c/d", "-----END X-----", "0"]).prop_map(str::to_string),
        2 => vec(select("ABCXYZ -_=/:.09az".chars().collect::<Vec<_>>()), 0..20).prop_map(|v| v.into_iter().collect()),
        1 => vec(any::<char>(), 0..12).prop_map(|v| v.into_iter().filter(|c| !"\n\r\u{b}\u{c}\u{85}\u{2028}\u{2029}".contains(*c)).collect()),
        1 => (1usize..200).prop_map(|n| "L".repeat(n)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Block {
    label: String,
    data: Msg,
}

fn layout_check(c: &Block) -> Res {
    let data = c.data.expand();
    let text = PEM { label: c.label.clone(), data: data.clone() }.to_string();
    let body = text.strip_suffix('\n').unwrap_or(&text);
    let mut lines: Vec<&str> = body.split('\n').collect();
    ensure!(lines.first() == Some(&format!("-----BEGIN {}-----", c.label).as_str()), "pem:begin", "first line is {:?}", lines.first());
    ensure!(lines.len() >= 2 && lines.last() == Some(&format!("-----END {}-----", c.label).as_str()), "pem:end", "last line is {:?}", lines.last());
    lines.pop();
    let mut mid = &lines[1..];
    if data.is_empty() {
        while mid.first() == Some(&"") {
            mid = &mid[1..];
        }
    }
    for (i, l) in mid.iter().enumerate() {
        let ok = if i + 1 < mid.len() { l.len() == 64 } else { (1..=64).contains(&l.len()) };
        ensure!(ok, "pem:wrap", "payload of {} bytes: content line {i} of {} has {} characters", data.len(), mid.len(), l.len());
    }
    let got = mid.concat();
    ensure!(got == b64::enc(&data), "pem:base64", "payload {} is written as {}", short(&data), head(&got));
    match parse(&text) {
        Ok(Ok((l, d))) => {
            ensure!(l == c.label, "pem:label", "label {:?} came back as {l:?}", c.label);
            ensure!(d == data, "pem:data", "payload {} came back as {}", short(&data), short(&d));
        }
        r => ensure!(false, "pem:roundtrip", "the text of label {:?}, payload {} ({} bytes) parses to {r:?}", c.label, short(&data), data.len()),
    }
    Ok(Info::new(!data.is_empty()).label(data.len() % 48 == 0, "last line full").label(data.len() > 48, "several lines").label(c.label.contains('-'), "label with dashes"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Layout {
    label: String,
    data: Hx,
    widths: Vec<usize>,
    indents: Vec<String>,
    tails: Vec<String>,
    crlf: Vec<bool>,
    /// blank lines before the given content line (modulo their number)
    blanks: Vec<usize>,
    before: Vec<String>,
    after: Vec<String>,
    last_newline: bool,
}

impl Layout {
    fn text(&self) -> String {
        let mut lines: Vec<String> = self.before.clone();
        lines.push(format!("-----BEGIN {}-----", self.label));
        let b = b64::enc(&self.data);
        let mut mid: Vec<String> = vec![];
        let (mut at, mut i) = (0, 0);
        while at < b.len() {
            let w = self.widths.get(i % self.widths.len().max(1)).copied().unwrap_or(64).max(1).min(b.len() - at);
            mid.push(b[at..at + w].to_string());
            at += w;
            i += 1;
        }
        for &p in &self.blanks {
            let p = p % (mid.len() + 1);
            mid.insert(p, String::new());
        }
        lines.extend(mid);
        lines.push(format!("-----END {}-----", self.label));
        lines.extend(self.after.iter().cloned());
        let pick = |v: &[String], i: usize| if v.is_empty() { String::new() } else { v[i % v.len()].clone() };
        let mut s = String::new();
        let n = lines.len();
        for (i, l) in lines.into_iter().enumerate() {
            s += &pick(&self.indents, i);
            s += &l;
            s += &pick(&self.tails, i);
            if i + 1 < n || self.last_newline {
                s += if !self.crlf.is_empty() && self.crlf[i % self.crlf.len()] { "\r\n" } else { "\n" };
            }
        }
        s
    }
}

fn relayout_check(c: &Layout) -> Res {
    let text = c.text();
    match parse(&text) {
        Ok(Ok((l, d))) => {
            ensure!(l == c.label, "pem:label", "label {:?} was read as {l:?} from {}", c.label, head(&text));
            ensure!(d == c.data.0, "pem:data", "payload {} was read as {} from {}", short(&c.data), short(&d), head(&text));
        }
        r => ensure!(false, "pem:relayout", "{} parses to {r:?}", head(&text)),
    }
    Ok(Info::new(!c.data.is_empty())
        .label(!c.before.is_empty() || !c.after.is_empty(), "surrounding text")
        .label(c.crlf.iter().any(|x| *x), "CRLF")
        .label(!c.blanks.is_empty(), "blank lines")
        .label(c.widths.iter().any(|w| w % 4 != 0), "lines broken inside a quantum")
        .label(c.indents.iter().any(|i| !i.is_empty()), "indented"))
}

fn junk() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(vec!["some info", "", "hello", "c29tZSBkYXRh", "====", "-----", "---", "Key: value", "BEGIN", "END", "BEGIN X", "x -----BEGIN X-----", "#-----END X-----", "ü☃", "-----\tBEGIN X-----", "----BEGIN X-----", "---- BEGIN X ----"]).prop_map(str::to_string),
        1 => "[ -~]{0,40}".prop_filter("marker", |s| !s.trim().starts_with("-----BEGIN") && !s.trim().starts_with("-----END")),
    ]
    .boxed()
}

fn pad() -> BoxedStrategy<String> {
    select(vec!["", "", "", " ", "  ", "\t", "        ", " \t "]).prop_map(str::to_string).boxed()
}

pub fn c20() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::indexed("every-length", "payloads of every length 0..=1100, generated label: text laid out as RFC 7468 and parsed back; non-trivial: payload not empty", 1101, |i| (label(), msg_of_len(i as usize)).prop_map(|(label, data)| Block { label, data }), layout_check).boxed(),
        Facet::random("labels-and-payloads", "arbitrary single-line labels (dashes, marker-like, Unicode, spaces, empty), payloads near multiples of 48 up to 20000 bytes", 12_000, || (label(), msg(len_near(48, 20_000).prop_map(|n| if n > 2000 { n } else { n % 400 }))).prop_map(|(label, data)| Block { label, data }), layout_check).boxed(),
        Facet::random("huge-payloads", "payloads up to 2 MB", 24, || (label(), msg(20_000usize..2_000_000)).prop_map(|(label, data)| Block { label, data }), layout_check).chunk(2).thorough(300).boxed(),
        Facet::indexed("line-count-edges", "payloads of 256 and 65536 lines of text, and next to them, and of 2^24 bytes", 15, |i| (label(), any::<u64>(), 0..KINDS).prop_map(move |(label, seed, kind)| Block { label, data: Msg::Fill { kind, seed, len: [48 * 256, 48 * 65_536, 1 << 24][i as usize / 5] + i as usize % 5 - 2 } }), layout_check).chunk(1).boxed(),
        Facet::random(
            "re-layout",
            "the same block re-wrapped at generated widths, indented, with trailing blanks, CRLF, blank lines and unrelated text around it parses to the same label and payload",
            30_000,
            || {
                (label(), payload(prop_oneof![0usize..60, 0usize..300]), vec(prop_oneof![1usize..8, 1usize..100, Just(64), Just(76)], 1..4), vec(pad(), 0..4), vec(pad(), 0..4), (vec(any::<bool>(), 0..3), vec(0usize..20, 0..3), vec(junk(), 0..4), vec(junk(), 0..4), any::<bool>()))
                    .prop_map(|(label, data, widths, indents, tails, (crlf, blanks, before, after, last_newline))| Layout { label, data, widths, indents, tails, crlf, blanks, before, after, last_newline })
            },
            relayout_check,
        )
        .boxed(),
        Facet::indexed(
            "many-lines",
            "blocks with 1, 255..=257, 65535..=65537 or 131072 unrelated lines before or after, blank lines or one-character lines inside, and labels of that many characters; non-trivial: always",
            8 * 5,
            |i| (label(), payload(0usize..60)).prop_map(move |(label, data)| Many { kind: (i / 8) as u8, count: MANY[i as usize % 8], label, data }),
            many_check,
        )
        .chunk(1)
        .boxed(),
    ]
}

const MANY: [u32; 8] = [1, 255, 256, 257, 65_535, 65_536, 65_537, 131_072];

/// One block and very many lines of some kind.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Many {
    kind: u8,
    count: u32,
    label: String,
    data: Hx,
}

fn many_check(c: &Many) -> Res {
    let n = c.count as usize;
    let label = if c.kind == 4 { c.label.chars().cycle().take(n).collect::<String>() } else { c.label.clone() };
    let data = if c.kind == 3 { c.data.iter().copied().cycle().take(if c.data.is_empty() { 0 } else { n / 4 * 3 }).collect() } else { c.data.0.clone() };
    let l = Layout {
        label,
        data: Hx(data),
        widths: vec![if c.kind == 3 { 1 } else { 64 }],
        indents: vec![],
        tails: vec![],
        crlf: vec![false],
        blanks: if c.kind == 2 { vec![0; n] } else { vec![] },
        before: if c.kind == 0 { vec!["text".into(); n] } else { vec![] },
        after: if c.kind == 1 { vec!["text".into(); n] } else { vec![] },
        last_newline: true,
    };
    relayout_check(&l).map(|i| Info { nontrivial: true, ..i })
}

/// Very many lines of one kind around or inside a text that is (or is not) one block.
fn many_text(c: &Many) -> String {
    let n = c.count as usize;
    let block = rpem::text(&c.label, &c.data);
    let (begin, end) = (format!("-----BEGIN {}-----\n", c.label), format!("-----END {}-----\n", c.label));
    let long = "L".repeat(n);
    match c.kind {
        0 => block.repeat(n),
        1 => format!("{}{block}", begin.repeat(n)),
        2 => format!("{block}{}", end.repeat(n)),
        3 => format!("{}{block}", block.repeat(n)),
        4 => format!("{begin}{}!\n{end}", "QUJD\n".repeat(n)),
        5 => format!("{begin}{}=\n{end}", "QUJD".repeat(n)),
        6 => format!("-----BEGIN {long}A-----\n-----END {long}B-----\n"),
        7 => format!("-----BEGIN A{long}-----\n-----END A-----\n"),
        8 => format!("-----BEGIN A-----\n-----END A{long}-----\n"),
        9 => format!("{block}{}{block}", "text\n".repeat(n)),
        _ => format!("{begin}{}\n{end}", "=".repeat(n)),
    }
}

// ------------------------------------------------------------------ C21

fn text_check(text: &str) -> Res {
    let want = rpem::parse(text);
    let vague = rpem::ambiguous(text);
    let got = parse(text);
    match (&got, &want) {
        (Err(p), _) => ensure!(false, "pem:panic", "parsing {} panicked: {p}", head(text)),
        (Ok(Ok(g)), Some(w)) => ensure!(g == w, "pem:wrong", "{} parses to {:?} instead of {:?}", head(text), g, w),
        (Ok(Ok(g)), None) => ensure!(false, "pem:accepts", "{} parses to label {:?}, payload {}, but is not one well-formed block", head(text), g.0, short(&g.1)),
        (Ok(Err(e)), Some(_)) => ensure!(vague, "pem:rejects", "{} is one well-formed block but gives the error {e}", head(text)),
        (Ok(Err(_)), None) => {}
    }
    let marks = text.contains("-----BEGIN ") || text.contains("-----END ");
    Ok(Info::new(marks).label(want.is_some(), "well-formed").label(want.is_none(), "must be an error").label(vague, "grammar leaves room"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Text(String);

fn raw_text_check(c: &Text) -> Res {
    text_check(&c.0)
}

const TOKENS: [&str; 12] = [
    "-----BEGIN A-----",
    "-----END A-----",
    "-----BEGIN B-----",
    "-----END B-----",
    "c29tZSBk",
    "",
    "-----BEGIN A",
    "-----END A",
    "YQ==",
    "not base64!",
    "-----BEGIN -----",
    "-----END A----- ",
];

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Lines(Vec<u8>, String);

fn lines_check(c: &Lines) -> Res {
    let v: Vec<&str> = c.0.iter().map(|&i| TOKENS[i as usize % TOKENS.len()]).collect();
    text_check(&v.join(&c.1))
}

/// i-th sequence of at most 5 tokens over the first 8.
fn nth(mut i: u64, a: u64) -> Vec<u8> {
    let mut n = 0;
    let mut c = 1;
    while i >= c {
        i -= c;
        n += 1;
        c *= a;
    }
    (0..n).map(|_| { let d = (i % a) as u8; i /= a; d }).collect()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum Edit {
    Set(Index2, char),
    Ins(Index2, String),
    Del(Index2, usize),
    Swap(Index2, Index2),
    Dup(Index2, Index2),
    Cut(Index2),
}

/// A position as a fraction of the length.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize)]
pub struct Index2(pub u32);

impl Index2 {
    pub fn at(self, n: usize) -> usize {
        ((self.0 as u64 * n as u64) >> 32) as usize
    }
}

pub fn ix() -> BoxedStrategy<Index2> {
    any::<u32>().prop_map(Index2).boxed()
}

fn apply(s: &str, edits: &[Edit], region: (usize, usize)) -> String {
    // positions are relative to the region (in chars), which grows and shrinks with the edits
    let mut v: Vec<char> = s.chars().collect();
    let (lo, mut hi) = region;
    for e in edits {
        let n = hi - lo;
        match e {
            Edit::Set(i, c) if n > 0 => v[lo + i.at(n)] = *c,
            Edit::Ins(i, t) => {
                let p = lo + i.at(n + 1);
                let t: Vec<char> = t.chars().collect();
                hi += t.len();
                v.splice(p..p, t);
            }
            Edit::Del(i, k) if n > 0 => {
                let p = lo + i.at(n);
                let k = (*k).min(hi - p);
                v.drain(p..p + k);
                hi -= k;
            }
            Edit::Swap(i, j) if n > 0 => v.swap(lo + i.at(n), lo + j.at(n)),
            Edit::Dup(i, j) if n > 0 => {
                let (a, b) = (i.at(n), j.at(n));
                let part: Vec<char> = v[lo + a.min(b)..lo + a.max(b)].to_vec();
                let p = lo + a.max(b);
                hi += part.len();
                v.splice(p..p, part);
            }
            Edit::Cut(i) if n > 0 => {
                let p = lo + i.at(n);
                v.drain(p..hi);
                hi = p;
            }
            _ => {}
        }
    }
    v.into_iter().collect()
}

fn edit() -> BoxedStrategy<Edit> {
    let ch = prop_oneof![3 => select("ABab09+/=".chars().collect::<Vec<_>>()), 2 => select("-_=.!* \t\n\r\0é\u{a0}".chars().collect::<Vec<_>>()), 1 => any::<char>()].boxed();
    prop_oneof![
        4 => (ix(), ch.clone()).prop_map(|(i, c)| Edit::Set(i, c)),
        2 => (ix(), ch).prop_map(|(i, c)| Edit::Ins(i, c.to_string())),
        1 => (ix(), select(vec!["=", "==", "A", "AA", "AAA", "AAAA", "A===", "\n-----END X-----\n", "-----BEGIN X-----\n", "-----", "\n=njUN\n", "\n=AAAA", "\n# comment\n", "\n; comment\n", "\nProc-Type: 4,ENCRYPTED\nDEK-Info: AES-128-CBC,00\n\n", "\nVersion: 1\n\n", "\n\n", "\r", "\u{feff}", "\\n", "%0A", "> "])).prop_map(|(i, t)| Edit::Ins(i, t.to_string())),
        2 => (ix(), 1usize..6).prop_map(|(i, k)| Edit::Del(i, k)),
        1 => (ix(), ix()).prop_map(|(i, j)| Edit::Swap(i, j)),
        1 => (ix(), ix()).prop_map(|(i, j)| Edit::Dup(i, j)),
        1 => ix().prop_map(Edit::Cut),
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Damage {
    label: String,
    data: Hx,
    edits: Vec<Edit>,
    /// true: only the base64 content is edited; false: anything
    content: bool,
    /// last base64 character before the padding is replaced by one with the same leading bits
    tail_bits: Option<u8>,
}

fn damage_check(c: &Damage) -> Res {
    let mut text = rpem::text(&c.label, &c.data);
    let n = text.chars().count();
    let h = c.label.chars().count();
    if let Some(x) = c.tail_bits {
        let padn = text.matches('=').count().min(2);
        if !c.label.contains('=') && padn > 0 {
            const A: &str = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let p = text.find('=').unwrap() - 1;
            let v = A.find(text.as_bytes()[p] as char).unwrap();
            let w = v | (x as usize & if padn == 1 { 3 } else { 15 });
            text.replace_range(p..p + 1, &A[w..w + 1]);
        }
    }
    let region = if c.content { (17 + h - 1, n - (15 + h - 1)) } else { (0, n) };
    text_check(&apply(&text, &c.edits, region))
}

/// A block whose two labels are the given ones.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Labels {
    begin: String,
    end: String,
    data: Hx,
}

fn labels_check(c: &Labels) -> Res {
    let text = rpem::text(&c.begin, &c.data);
    let at = text.rfind("-----END ").unwrap();
    let mut i = text_check(&format!("{}-----END {}-----", &text[..at], c.end))?;
    i.nontrivial = c.begin != c.end;
    Ok(i)
}

/// Labels that some notion of similarity would identify with the given one.
fn kin(l: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![
        l.into(),
        l.to_lowercase(),
        l.to_uppercase(),
        format!("{l} "),
        format!(" {l}"),
        format!("{l}-"),
        format!("{l}-----"),
        format!("{l}\0"),
        format!("X{l}"),
        format!("{l}S"),
        format!("{l}{l}"),
        l.replace(' ', ""),
        l.replace(' ', "  "),
        l.replace(' ', "\t"),
        l.replace(' ', "_"),
        l.replace('.', ""),
        l.replace('A', "\u{410}"),
        l.split(' ').rev().collect::<Vec<_>>().join(" "),
        l.chars().rev().collect(),
        l.split(' ').next().unwrap_or("").into(),
        l.split(' ').next_back().unwrap_or("").into(),
        l.split_once(' ').map_or("", |x| x.1).into(),
        l.rsplit_once(' ').map_or("", |x| x.0).into(),
        String::new(),
    ];
    for i in 0..l.chars().count() {
        let c: Vec<char> = l.chars().collect();
        v.push(c[..i].iter().collect());
        v.push(c[i + 1..].iter().collect());
        v.push(c[..i].iter().chain(&c[i + 1..]).collect());
        v.push(c[..i].iter().chain(&['Z']).chain(&c[i + 1..]).collect());
        v.push(c[..i].iter().cloned().chain(c[i].to_lowercase()).chain(c[i + 1..].iter().cloned()).collect());
    }
    v
}

fn text_fed(b: &[u8]) -> Option<Text> {
    Some(Text(String::from_utf8(b.to_vec()).ok()?))
}

fn text_seeds() -> Vec<Vec<u8>> {
    let a = "-----BEGIN A-----\nc29tZSBk\n-----END A-----\n";
    let long = rpem::text("PUBLIC KEY", &fill(1, 3, 120));
    let crl = rpem::text("X509 CRL", &[0x30, 0x82, 4]);
    [
        a.to_string(),
        a.replace('\n', "\r\n"),
        format!("text before\n{a}text after\n"),
        format!("{a}{}", a.replace('A', "B")),
        a.replace("c29tZSBk", "c29tZQ=="),
        a.replace("c29tZSBk", " c29t\n\n ZSBk \t"),
        a.replace("c29tZSBk\n", ""),
        a.replace("END A", "END B"),
        a.replace("A-----", "-----"),
        "-----BEGIN A-----END A-----".into(),
        "-----END A-----\n-----BEGIN A-----\n".into(),
        long,
        crl.replace("END X509 CRL", "END X509"),
        crl.replace("MIIE", "Proc-Type: 4,ENCRYPTED\n\nMIIE"),
        crl,
        String::new(),
    ]
    .into_iter()
    .map(|s| s.into_bytes())
    .collect()
}

pub fn c21() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("text-bytes", "libFuzzer's bytes as text", 120_000, 400, text_seeds, text_fed, raw_text_check).boxed(),
        Facet::indexed("standard-label-pairs", "every pair of 32 labels in use at the two ends of a block; non-trivial: they differ", 32 * 32, |i| payload(0usize..70).prop_map(move |data| Labels { begin: LABELS[i as usize / 32].into(), end: LABELS[i as usize % 32].into(), data }), labels_check).boxed(),
        Facet::random(
            "similar-labels",
            "a label and one that a loose comparison would identify with it (case, white space, prefix, suffix, word order, one character, dashes), in either order; non-trivial: they differ",
            30_000,
            || (label(), any::<prop::sample::Index>(), any::<bool>(), payload(0usize..70)).prop_map(|(a, i, swap, data)| {
                let b = i.get(&kin(&a)).clone();
                let (begin, end) = if swap { (b, a) } else { (a, b) };
                Labels { begin, end, data }
            }),
            labels_check,
        )
        .boxed(),
        Facet::indexed("line-sequences", "every sequence of up to 5 of: BEGIN A, END A, BEGIN B, END B, base64, blank, unfinished BEGIN, unfinished END; non-trivial: contains a marker", 1 + 8 + 64 + 512 + 4096 + 32768, |i| Just(Lines(nth(i, 8), "\n".into())), lines_check).thorough(1 + 8 + 64 + 512 + 4096 + 32768 + 262144).boxed(),
        Facet::random("longer-line-sequences", "random sequences of up to 12 of 12 line kinds, LF or CRLF", 40_000, || (vec(0u8..12, 0..12), select(vec!["\n", "\r\n", "\n "])).prop_map(|(v, s)| Lines(v, s.to_string())), lines_check).boxed(),
        Facet::indexed(
            "many-lines",
            "1, 255..=257, 65535..=65537 or 131072 copies of a block, of its BEGIN line before it, of its END line after it, of content lines before a bad one, of padding characters, of lines between two blocks, and labels that differ only after that many characters",
            8 * 11,
            |i| (select(vec!["A", "", "PRIVATE KEY", "X-"]), payload(0usize..60)).prop_map(move |(label, data)| Many { kind: (i / 8) as u8, count: MANY[i as usize % 8], label: label.into(), data }),
            |c| text_check(&many_text(c)),
        )
        .chunk(1)
        .boxed(),
        Facet::random(
            "damaged-content",
            "the base64 content of a valid block with edits (substitutions incl. URL-safe alphabet, padding, white space, NUL, non-ASCII; insertions; deletions; cuts) and non-canonical trailing bits, against an independent strict decoder",
            60_000,
            || (select(vec!["A", "PRIVATE KEY", "", "CERTIFICATE", "PGP MESSAGE", "RSA PRIVATE KEY"]), payload(prop_oneof![0usize..12, 40usize..60, 0usize..200]), vec(edit(), 0..4), proptest::option::weighted(0.2, 0u8..16)).prop_map(|(l, data, edits, tail_bits)| Damage { label: l.to_string(), data, edits, content: true, tail_bits }),
            damage_check,
        )
        .boxed(),
        Facet::random(
            "damaged-text",
            "a valid text with edits anywhere, markers included",
            40_000,
            || (label(), payload(0usize..60), vec(edit(), 1..4)).prop_map(|(label, data, edits)| Damage { label, data, edits, content: false, tail_bits: None }),
            damage_check,
        )
        .boxed(),
        Facet::random(
            "arbitrary-text",
            "texts built from marker fragments, base64, white space and arbitrary characters",
            20_000,
            || {
                vec(prop_oneof![3 => select(vec!["-----BEGIN ", "-----END ", "-----", "A", "\n", "\r\n", " ", "QUJD", "=", "-", "BEGIN", "END ", "\n-----BEGIN X-----\n", "\n-----END X-----\n"]).prop_map(str::to_string), 1 => any::<char>().prop_map(|c| c.to_string())], 0..30).prop_map(|v| Text(v.concat()))
            },
            raw_text_check,
        )
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C22

fn to_lib(t: &Tree) -> Asn1 {
    match t {
        Tree::Int(v) => Asn1::Integer(v.clone()),
        Tree::Oct(v) => Asn1::OctetString(v.clone()),
        Tree::Bit(v, u) => Asn1::BitString(v.clone(), *u),
        Tree::Null => Asn1::Null,
        Tree::Oid(v) => Asn1::ObjectIdentifier(v.clone()),
        Tree::Seq(v) => Asn1::Sequence(v.iter().map(to_lib).collect()),
    }
}

/// Minimal two's-complement contents.
fn min_int(mut v: Vec<u8>) -> Vec<u8> {
    if v.is_empty() {
        v.push(0);
    }
    while v.len() > 1 && ((v[0] == 0 && v[1] < 0x80) || (v[0] == 0xff && v[1] >= 0x80)) {
        v.remove(0);
    }
    v
}

fn fix_oid(mut v: Vec<u8>) -> Vec<u8> {
    if v.is_empty() {
        v.push(0x2a);
    }
    let mut start = true;
    for b in v.iter_mut() {
        if start && *b == 0x80 {
            *b = 0x81;
        }
        start = *b < 0x80;
    }
    if let Some(l) = v.last_mut() {
        *l &= 0x7f;
    }
    v
}

fn bits(mut v: Vec<u8>, u: u8) -> Tree {
    match v.last_mut() {
        Some(l) => *l &= (0xffu16 << u) as u8,
        None => return Tree::Bit(v, 0),
    }
    Tree::Bit(v, u)
}

/// Contents usually short, sometimes around the length-form boundaries.
fn content() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        8 => bytes(0usize..12).prop_map(|h| h.0),
        2 => bytes(prop_oneof![125usize..131, 253usize..259]).prop_map(|h| h.0),
        1 => bytes(0usize..400).prop_map(|h| h.0),
    ]
    .boxed()
}

fn leaf() -> BoxedStrategy<Tree> {
    prop_oneof![
        content().prop_map(|v| Tree::Int(min_int(v))),
        content().prop_map(Tree::Oct),
        (content(), 0u8..8).prop_map(|(v, u)| bits(v, u)),
        Just(Tree::Null),
        content().prop_map(|v| Tree::Oid(fix_oid(v))),
        Just(Tree::Seq(vec![])),
    ]
    .boxed()
}

fn tree(depth: u32, size: u32) -> BoxedStrategy<Tree> {
    leaf().prop_recursive(depth, size, 6, |inner| vec(inner, 0..6).prop_map(Tree::Seq)).boxed()
}

fn tree_check(c: &Tree) -> Res {
    let enc = c.encode();
    let want = to_lib(c);
    match attempt(|| Asn1::try_from(&enc[..])) {
        Ok(Ok(t)) => ensure!(t == want, "der:tree", "{} decodes to {}", short(&enc), format!("{t:?}").chars().take(400).collect::<String>()),
        r => ensure!(false, "der:rejects", "the DER text {} ({} bytes) gives {r:?}", short(&enc), enc.len()),
    }
    // the same bytes inside a larger buffer
    let mut buf = vec![0x30, 0xff];
    buf.extend_from_slice(&enc);
    buf.extend_from_slice(&[5, 0, 0x30]);
    let r = Asn1::try_from(&buf[2..2 + enc.len()]);
    ensure!(r.as_ref() == Ok(&want), "der:slice", "{} decodes differently as part of a larger buffer", short(&enc));
    Ok(Info::new(c.count() > 1).label(c.depth() > 1, "nested").label(enc.len() > 130, "long form").label(enc.len() > 65540, "three length bytes or more"))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Sized {
    kind: u8,
    len: usize,
    fill: u8,
    seed: u64,
    /// wrapped in that many sequences, with a NULL after it in each
    wrap: u8,
}

fn sized_check(c: &Sized) -> Res {
    let v = fill(c.fill, c.seed, c.len);
    let mut t = match c.kind {
        0 => {
            let mut v = v;
            if v.len() > 1 && (v[0] == 0 || v[0] == 0xff) {
                v[0] = 0x41;
            }
            Tree::Int(min_int(v))
        }
        1 => Tree::Oct(v),
        2 => bits(v.get(1..).unwrap_or(&[]).to_vec(), (c.seed % 8) as u8),
        3 => Tree::Oid(fix_oid(v)),
        // a sequence of that content length, filled with NULLs and one octet string
        _ => {
            let mut v = vec![Tree::Null; c.len / 2];
            if c.len % 2 == 1 && !v.is_empty() {
                v.pop();
                v.push(Tree::Oct(vec![7]));
            }
            Tree::Seq(v)
        }
    };
    for i in 0..c.wrap {
        t = if i % 2 == 0 { Tree::Seq(vec![t, Tree::Null]) } else { Tree::Seq(vec![Tree::Oct(vec![i]), t]) };
    }
    tree_check(&t).map(|i| Info { nontrivial: c.len > 0, ..i })
}

fn boundary_lengths() -> Vec<usize> {
    let mut v: Vec<usize> = (0..=4).chain(120..=136).chain(250..=262).chain(508..=516).chain(65530..=65542).chain(131070..=131074).collect();
    v.extend([4095, 4096, 32767, 32768, 1 << 20, 16_777_215, 16_777_216, 16_777_217]);
    v
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Nest {
    depth: usize,
    leaf: Tree,
    sides: Vec<u8>,
}

fn nest_tree(c: &Nest) -> Tree {
    let mut t = c.leaf.clone();
    for i in 0..c.depth {
        let mut v = vec![t];
        match c.sides.get(i % c.sides.len().max(1)) {
            Some(1) => v.push(Tree::Null),
            Some(2) => v.insert(0, Tree::Int(vec![i as u8 & 0x7f])),
            Some(3) => {
                v.push(Tree::Oct(vec![i as u8; 3]));
                v.insert(0, Tree::Seq(vec![]))
            }
            _ => {}
        }
        t = Tree::Seq(v);
    }
    t
}

fn nest_check(c: &Nest) -> Res {
    tree_check(&nest_tree(c))
}

pub fn c22() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::random("trees", "random trees of the six types, up to 6 levels and 40 elements, contents of every small size and around 127/128 and 255/256; the decoded tree equals the encoded one; non-trivial: more than one element", 40_000, || tree(6, 40), tree_check).boxed(),
        Facet::random("wide-trees", "flat sequences of up to 400 elements", 600, || vec(leaf(), 0..400).prop_map(Tree::Seq), tree_check).chunk(8).boxed(),
        Facet::indexed(
            "length-boundaries",
            "each type at each content length around 127/128, 255/256, 65535/65536 and at 2^20, 2^24-1, 2^24, 2^24+1, also inside sequences",
            5 * 70 * 2,
            |i| {
                let v = boundary_lengths();
                let len = v[(i / 10) as usize % v.len()];
                let kind = (i % 5) as u8;
                let deep = i / 5 % 2 == 1;
                (0..KINDS, any::<u64>(), 1u8..4).prop_map(move |(fill, seed, w)| Sized { kind, len: if kind == 4 { len.min(140_000) } else { len }, fill, seed, wrap: if deep { w } else { 0 } })
            },
            sized_check,
        )
        .chunk(4)
        .boxed(),
        Facet::random("random-lengths", "each type with random content lengths up to 70000, up to three sequences around it", 1_500, || (0u8..5, prop_oneof![0usize..1200, 0usize..70_000], 0..KINDS, any::<u64>(), 0u8..4).prop_map(|(kind, len, fill, seed, wrap)| Sized { kind, len, fill, seed, wrap }), sized_check).chunk(16).boxed(),
        Facet::random("nested", "sequences nested 1..=24 deep with siblings at each level", 3_000, || (1usize..=der::MUST_NEST, leaf(), vec(0u8..4, 0..5)).prop_map(|(depth, leaf, sides)| Nest { depth, leaf: if matches!(leaf, Tree::Seq(_)) { Tree::Null } else { leaf }, sides }), nest_check).boxed(),
    ]
}

// ------------------------------------------------------------------ C23

fn der_check(b: &[u8]) -> Res {
    let want = der::want(b);
    let got = attempt(|| Asn1::try_from(b));
    let got = match got {
        Err(p) => return Err(Fail::new("der:panic", format!("decoding {} ({} bytes) panicked: {p}", short(b), b.len()))),
        Ok(g) => g,
    };
    match (&got, &want) {
        (Ok(t), Want::Exactly(w) | Want::Tolerated(w)) => ensure!(*t == to_lib(w), "der:wrong", "{} decodes to {} instead of {}", short(b), format!("{t:?}").chars().take(300).collect::<String>(), format!("{w:?}").chars().take(300).collect::<String>()),
        (Ok(t), Want::Error(e)) => ensure!(false, "der:accepts", "{} ({e}) decodes to {}", short(b), format!("{t:?}").chars().take(300).collect::<String>()),
        (Err(e), Want::Exactly(_)) => ensure!(false, "der:rejects", "{} is well-formed but gives the error {e}", short(b)),
        (Err(_), _) => {}
    }
    Ok(Info::new(b.len() > 1).label(matches!(want, Want::Error(_)), "must be an error").label(matches!(want, Want::Exactly(_)), "well-formed").label(matches!(want, Want::Tolerated(_)), "not DER, may be tolerated").label(
        matches!(want, Want::Error("length beyond the data")),
        "length beyond the data",
    ))
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Raw(Hx);

fn raw_der_check(c: &Raw) -> Res {
    der_check(&c.0)
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum BEdit {
    Set(Index2, u8),
    Flip(Index2, u8),
    Ins(Index2, Hx),
    Del(Index2, usize),
    Cut(Index2),
    Append(Hx),
    Add(Index2, u8),
}

fn bedit() -> BoxedStrategy<BEdit> {
    let b = prop_oneof![3 => select(vec![0u8, 1, 2, 3, 4, 5, 6, 0x30, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x88, 0x89, 0x90, 0x91, 0xa0, 0xff]), 1 => any::<u8>()].boxed();
    prop_oneof![
        4 => (ix(), b.clone()).prop_map(|(i, v)| BEdit::Set(i, v)),
        1 => (ix(), 0u8..8).prop_map(|(i, v)| BEdit::Flip(i, v)),
        2 => (ix(), prop_oneof![Just(1u8), Just(255), any::<u8>()]).prop_map(|(i, v)| BEdit::Add(i, v)),
        2 => (ix(), vec(b.clone(), 1..4)).prop_map(|(i, v)| BEdit::Ins(i, Hx(v))),
        2 => (ix(), 1usize..4).prop_map(|(i, v)| BEdit::Del(i, v)),
        2 => ix().prop_map(BEdit::Cut),
        1 => vec(b, 1..4).prop_map(|v| BEdit::Append(Hx(v))),
    ]
    .boxed()
}

fn bapply(b: &mut Vec<u8>, edits: &[BEdit]) {
    for e in edits {
        let n = b.len();
        match e {
            BEdit::Append(v) => b.extend_from_slice(v),
            BEdit::Ins(i, v) => {
                let p = i.at(n + 1);
                b.splice(p..p, v.0.iter().copied());
            }
            _ if n == 0 => {}
            BEdit::Set(i, v) => b[i.at(n)] = *v,
            BEdit::Flip(i, k) => b[i.at(n)] ^= 1 << (k % 8),
            BEdit::Add(i, v) => {
                let p = i.at(n);
                b[p] = b[p].wrapping_add(*v)
            }
            BEdit::Del(i, k) => {
                let p = i.at(n);
                b.drain(p..(p + k).min(n));
            }
            BEdit::Cut(i) => b.truncate(i.at(n)),
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Mutated {
    tree: Tree,
    edits: Vec<BEdit>,
}

fn mutated_check(c: &Mutated) -> Res {
    let mut b = c.tree.encode();
    bapply(&mut b, &c.edits);
    der_check(&b)
}

fn prefix_check(c: &Tree) -> Res {
    let b = c.encode();
    let mut info = Info::new(b.len() > 2);
    let step = (b.len() / 80).max(1);
    for n in (0..b.len()).step_by(step).chain(b.len().saturating_sub(3)..b.len()) {
        let i = der_check(&b[..n])?;
        ensure!(i.labels.contains(&"must be an error"), "harness:prefix", "a proper prefix is well-formed: {}", short(&b[..n]));
    }
    let mut more = b.clone();
    for extra in [&[0u8][..], &[5, 0], &[0x30], &[0x30, 0x80], &b] {
        more.truncate(b.len());
        more.extend_from_slice(extra);
        der_check(&more)?;
    }
    info = info.label(c.depth() > 0, "sequence");
    Ok(info)
}

/// A length field of `width` bytes holding `value`, relative to the real content length.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct LenField {
    tag: u8,
    width: u8,
    value: LenVal,
    content: Hx,
    /// bytes missing at the end of the length field itself
    short: u8,
    /// inside a sequence of the right size
    wrapped: bool,
    after: Hx,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum LenVal {
    Exact,
    Off(i8),
    /// 2^bit + the real length
    Plus(u16),
    /// 2^bit - 1
    Ones(u16),
    Bytes(Hx),
}

fn len_field(c: &LenField) -> Vec<u8> {
    let w = c.width as usize;
    let n = c.content.len() as i128;
    let mut be = vec![0u8; 160];
    let put = |be: &mut Vec<u8>, v: u128| {
        let l = be.len();
        be[l - 16..].copy_from_slice(&v.to_be_bytes());
    };
    match &c.value {
        LenVal::Exact => put(&mut be, n as u128),
        LenVal::Off(d) => put(&mut be, (n + *d as i128).max(0) as u128),
        LenVal::Plus(b) => {
            put(&mut be, n as u128);
            let l = be.len();
            be[l - 1 - *b as usize / 8] |= 1 << (b % 8);
        }
        LenVal::Ones(b) => {
            let l = be.len();
            for i in 0..*b as usize {
                be[l - 1 - i / 8] |= 1 << (i % 8);
            }
        }
        LenVal::Bytes(h) => {
            let l = be.len();
            for (i, x) in h.iter().rev().take(w).enumerate() {
                be[l - 1 - i] = *x;
            }
        }
    }
    let mut o = vec![c.tag];
    if w == 0 {
        o.push(0x80 * (c.short % 2) + (be[159] & 0x7f) * (1 - c.short % 2));
    } else {
        o.push(0x80 | w as u8);
        let keep = w - (c.short as usize).min(w);
        o.extend_from_slice(&be[160 - w..160 - w + keep]);
    }
    if c.short == 0 || w == 0 {
        o.extend_from_slice(&c.content);
        o.extend_from_slice(&c.after);
    }
    if c.wrapped {
        o = der::tlv(0x30, &o);
    }
    o
}

fn len_field_check(c: &LenField) -> Res {
    der_check(&len_field(c))
}

fn len_case(width: BoxedStrategy<u8>) -> BoxedStrategy<LenField> {
    let val = prop_oneof![
        3 => Just(LenVal::Exact),
        2 => (-3i8..=3).prop_map(LenVal::Off),
        4 => prop_oneof![0u16..1016, select(vec![7u16, 8, 15, 16, 31, 32, 33, 56, 62, 63, 64, 65, 72, 127, 128, 129, 136, 192, 256])].prop_map(LenVal::Plus),
        2 => prop_oneof![1u16..1016, select(vec![31u16, 32, 63, 64, 127, 128])].prop_map(LenVal::Ones),
        1 => vec(any::<u8>(), 0..127).prop_map(|v| LenVal::Bytes(Hx(v))),
    ];
    (select(vec![2u8, 3, 4, 5, 6, 0x30, 0x30, 0x31, 0x00]), width, val, prop_oneof![2 => Just(Hx(vec![])), 1 => Just(Hx(vec![5, 0])), 1 => Just(Hx(vec![2, 1, 9, 5, 0])), 2 => bytes(0usize..8), 1 => bytes(prop_oneof![126usize..130, 254usize..258])], prop_oneof![6 => Just(0u8), 1 => 1u8..3], any::<bool>(), prop_oneof![4 => Just(Hx(vec![])), 1 => bytes(1usize..4)])
        .prop_map(|(tag, width, value, content, short, wrapped, after)| LenField { tag, width, value, content, short, wrapped, after })
        .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Deep {
    depth: usize,
    /// 0: minimal lengths, exact; 1: every level claims all the rest with four length bytes; 2: truncated; 3: indefinite
    kind: u8,
    leaf: Hx,
    /// how many nulls stand before and after the nested element, level by level from the inside (repeated)
    sides: Vec<(u8, u8)>,
    /// decode while a 2 MB thread (Rust's default) is running it
    stack_kb: usize,
}

fn deep_side(c: &Deep, i: usize) -> (usize, usize) {
    if c.sides.is_empty() {
        return (0, 0);
    }
    let (a, b) = c.sides[i % c.sides.len()];
    (a as usize, b as usize)
}

fn deep_bytes(c: &Deep) -> Vec<u8> {
    match c.kind {
        3 => {
            let mut v = [0x30, 0x80].repeat(c.depth);
            v.extend_from_slice(&c.leaf);
            v.extend([0u8, 0].repeat(c.depth));
            v
        }
        1 => {
            let mut rev: Vec<u8> = c.leaf.iter().rev().copied().collect();
            let mut after = vec![];
            for i in 0..c.depth {
                let (a, b) = deep_side(c, i);
                after.extend([5u8, 0].repeat(b));
                rev.extend([0u8, 5].repeat(a));
                rev.extend(((rev.len() + after.len()) as u32).to_le_bytes());
                rev.extend([0x84, 0x30]);
            }
            rev.reverse();
            rev.extend(after);
            rev
        }
        k => {
            // built back to front
            let mut rev: Vec<u8> = c.leaf.iter().rev().copied().collect();
            let mut after = vec![];
            for i in 0..c.depth {
                let (a, b) = deep_side(c, i);
                after.extend([5u8, 0].repeat(b));
                rev.extend([0u8, 5].repeat(a));
                let mut h = vec![0x30];
                h.extend(der::len_min(rev.len() + after.len()));
                rev.extend(h.iter().rev());
            }
            rev.reverse();
            rev.extend(after);
            if k == 2 {
                let n = rev.len();
                rev.truncate(n - n / 7 - 1);
            }
            rev
        }
    }
}

fn deep_check(c: &Deep) -> Res {
    let b = deep_bytes(c);
    let stack = c.stack_kb.max(512) << 10;
    // Err(panic) or whether it was accepted
    let got = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(stack)
            .spawn_scoped(s, || {
                attempt(|| match Asn1::try_from(&b[..]) {
                    Err(_) => None,
                    Ok(mut t) => {
                        // walked without recursion
                        let mut n = 0;
                        while n < c.depth {
                            let (x, y) = deep_side(c, c.depth - 1 - n);
                            let inner = (n + 1 < c.depth || !c.leaf.is_empty()) as usize;
                            match t {
                                Asn1::Sequence(mut v) if v.len() == x + inner + y => {
                                    n += 1;
                                    if inner == 0 {
                                        t = Asn1::Null;
                                        break;
                                    }
                                    t = v.swap_remove(x);
                                    if v.iter().any(|e| *e != Asn1::Null) {
                                        n = usize::MAX;
                                    }
                                }
                                _ => break,
                            }
                        }
                        let leaf = match c.leaf.first() {
                            Some(0x30) => Asn1::Sequence(vec![]),
                            Some(2) => Asn1::Integer(vec![7]),
                            _ => Asn1::Null,
                        };
                        Some(if t == leaf { n } else { usize::MAX })
                    }
                })
            })
            .unwrap()
            .join()
    });
    let got = match got {
        Ok(g) => g,
        Err(_) => return Err(Fail::new("der:panic", format!("decoding {} nested sequences panicked", c.depth))),
    };
    match got {
        Err(p) => ensure!(false, "der:panic", "decoding {} nested sequences panicked: {p}", c.depth),
        Ok(None) => ensure!(c.kind != 0 || c.depth > der::MUST_NEST, "der:rejects", "{} nested sequences were rejected", c.depth),
        Ok(Some(n)) => {
            ensure!(c.kind < 2, "der:accepts", "{} nested sequences, truncated or of indefinite length, were accepted", c.depth);
            ensure!(n == c.depth, "der:wrong", "{} nested sequences decoded to something else ({n})", c.depth);
        }
    }
    Ok(Info::new(c.depth > 24).label(c.depth >= 2000, "2000 levels or more"))
}

fn der_seeds() -> Vec<Vec<u8>> {
    let l = |n: usize| fill(1, n as u64, n);
    let all = vec![Tree::Null, Tree::Int(vec![5]), Tree::Int(vec![0, 0x80]), Tree::Oct(l(3)), Tree::Bit(vec![0xf0], 4), Tree::Bit(l(2), 0), Tree::Bit(vec![], 0), Tree::Oid(vec![0x2a, 0x86, 0x48]), Tree::Seq(vec![]), Tree::Oct(l(127)), Tree::Oct(l(128)), Tree::Int(l(200)), Tree::Oct(l(256))];
    let mut v: Vec<Vec<u8>> = all.iter().map(|t| t.encode()).collect();
    v.push(Tree::Seq(all[..9].to_vec()).encode());
    v.push(Tree::Seq(vec![Tree::Seq(vec![Tree::Seq(all[..4].to_vec()), Tree::Null]), all[5].clone()]).encode());
    v.push(Tree::Seq(vec![all[10].clone(), all[11].clone()]).encode());
    let (n, e) = (Nat::from_u128(3233), Nat::from_u128(17));
    v.push(doc(true, &n, &e, &six(&[])).0.encode());
    v.push(doc(false, &n, &e, &six(&[])).0.encode());
    v.push(vec![0x30, 0x80, 0x05, 0x00, 0x00, 0x00]);
    v.push(vec![0x04, 0x84, 0, 0, 0, 1, 7]);
    v.push(vec![]);
    v
}

fn der_fed(b: &[u8]) -> Option<Raw> {
    Some(Raw(Hx(b.to_vec())))
}

pub fn c23() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::fuzzed("der-bytes", "libFuzzer's bytes as an encoding", 250_000, 400, der_seeds, der_fed, raw_der_check).boxed(),
        Facet::random("mutated-trees", "valid encodings with 1..=4 byte edits (tags, lengths, cuts, insertions), against an independent decoder that says error, exactly this tree, or (for BER that is not DER) either; non-trivial: at least two bytes", 60_000, || (tree(4, 16), vec(bedit(), 1..5)).prop_map(|(tree, edits)| Mutated { tree, edits }), mutated_check).boxed(),
        Facet::indexed("all-short-strings", "every byte string of at most 2 bytes", 1 + 256 + 65536, |i| Just(Raw(Hx(match i { 0 => vec![], 1..=256 => vec![(i - 1) as u8], _ => ((i - 257) as u16).to_be_bytes().to_vec() }))), raw_der_check).thorough(1 + 256 + 65536).chunk(512).boxed(),
        Facet::indexed(
            "tag-length-strings",
            "every (tag of the six or two unknown ones, length byte, number of following bytes 0..=18) with generated contents",
            8 * 256 * 19,
            |i| {
                let tag = [2u8, 3, 4, 5, 6, 0x30, 0x31, 0x24][(i % 8) as usize];
                let l = (i / 8 % 256) as u8;
                let n = (i / 2048) as usize;
                prop_oneof![bytes(n..=n), vec(select(vec![0u8, 0, 1, 2, 5, 0x30, 0x80, 0xff]), n).prop_map(Hx)].prop_map(move |h| {
                    let mut v = vec![tag, l];
                    v.extend_from_slice(&h);
                    Raw(Hx(v))
                })
            },
            raw_der_check,
        )
        .chunk(256)
        .boxed(),
        Facet::random("length-fields", "length fields of 0..=127 bytes holding the exact length, off-by-some, the length plus a power of two up to 2^1015, all ones or arbitrary bytes; whole or cut short; alone or in a sequence", 60_000, || len_case(prop_oneof![2 => 0u8..=10, 2 => 0u8..=18, 1 => 0u8..=127].boxed()), len_field_check).boxed(),
        Facet::random("all-prefixes", "prefixes (all when short, else about 80) of valid encodings are errors, and so is anything appended", 3_000, || tree(4, 12), prefix_check).boxed(),
        Facet::random("arbitrary-bytes", "random strings over a DER-like alphabet", 60_000, || vec(prop_oneof![4 => select(vec![0u8, 1, 2, 3, 4, 5, 6, 7, 0x30, 0x30, 0x30, 0x80, 0x81, 0x82, 0x88]), 1 => any::<u8>()], 0..24).prop_map(|v| Raw(Hx(v))), raw_der_check).boxed(),
        Facet::random(
            "deep-nesting",
            "1..=12000 nested sequences, alone or between other elements, with exact, four-byte, truncated or indefinite lengths, decoded in a thread with a 2 MB or 512 KB stack; an error or the right tree, never a crash",
            120,
            || (prop_oneof![1usize..70, 25usize..1200, 2000usize..12_000], 0u8..4, select(vec![vec![], vec![5u8, 0], vec![2, 1, 7], vec![0x30, 0]]), prop_oneof![1 => Just(vec![]), 2 => vec((0u8..3, 0u8..3), 1..4)], select(vec![2048usize, 2048, 512])).prop_map(|(depth, kind, leaf, sides, stack_kb)| Deep { depth, kind, leaf: Hx(leaf), sides, stack_kb }),
            deep_check,
        )
        .thorough(400)
        .isolated()
        .boxed(),
    ]
}

// ------------------------------------------------------------------ C24

#[derive(Debug, PartialEq)]
enum Imp {
    Key(Nat, Nat),
    /// an error, or this key
    Maybe(Nat, Nat),
    Error(&'static str),
}

fn ref_import(private: bool, label: &str, data: &[u8]) -> Imp {
    if label != if private { "PRIVATE KEY" } else { "PUBLIC KEY" } {
        return Imp::Error("label");
    }
    let mut lenient = false;
    let mut get = |b: &[u8]| match der::want(b) {
        Want::Exactly(t) => Some(t),
        Want::Tolerated(t) => {
            lenient = true;
            Some(t)
        }
        Want::Error(_) => None,
    };
    let Some(Tree::Seq(outer)) = get(data) else { return Imp::Error("not a sequence") };
    let alg = |t: &Tree| *t == Tree::Seq(vec![Tree::Oid(OID_RSA.to_vec()), Tree::Null]);
    let inner = match (private, &outer[..]) {
        (true, [v, a, Tree::Oct(k)]) => {
            if *v != Tree::Int(vec![0]) {
                return Imp::Error("version");
            }
            if !alg(a) {
                return Imp::Error("algorithm");
            }
            k
        }
        (false, [a, Tree::Bit(k, u)]) => {
            if !alg(a) {
                return Imp::Error("algorithm");
            }
            if *u != 0 {
                return Imp::Error("unused bits");
            }
            k
        }
        _ => return Imp::Error("elements"),
    };
    let Some(Tree::Seq(v)) = get(inner) else { return Imp::Error("inner") };
    if v.len() != if private { 9 } else { 2 } {
        return Imp::Error("inner count");
    }
    let mut ints = vec![];
    for t in &v {
        let Tree::Int(c) = t else { return Imp::Error("inner types") };
        if c.first().is_none_or(|&b| b >= 0x80) {
            return Imp::Error("inner negative");
        }
        ints.push(c);
    }
    let (n, x) = if private {
        if *ints[0] != vec![0] {
            return Imp::Error("inner version");
        }
        (Nat::from_be(ints[1]), Nat::from_be(ints[3]))
    } else {
        (Nat::from_be(ints[0]), Nat::from_be(ints[1]))
    };
    // not the numbers of any key
    lenient |= n < Nat::from_u128(2) || x.is_zero();
    if lenient {
        Imp::Maybe(n, x)
    } else {
        Imp::Key(n, x)
    }
}

fn import(private: bool, label: &str, data: &[u8], via_text: bool) -> Result<Result<RsaEncryption, String>, String> {
    attempt(|| {
        let p = if via_text { PEM::from_str(&rpem::text(label, data))? } else { pem(label, data.to_vec()) };
        if private {
            PrivateKey::try_from(p).map(|k| k.into())
        } else {
            PublicKey::try_from(p).map(|k| k.into())
        }
    })
}

fn import_check(private: bool, label: &str, data: &[u8], via_text: bool, nums: &[Hx]) -> Res {
    let want = ref_import(private, label, data);
    let kind = if private { "private" } else { "public" };
    let what = || format!("importing a {kind} key, label {label:?}, {} ({} bytes)", short(data), data.len());
    let got = match import(private, label, data, via_text) {
        Err(p) => return Err(Fail::new("import:panic", format!("{} panicked: {p}", what()))),
        Ok(g) => g,
    };
    let info = Info::new(true);
    match (got, &want) {
        (Err(_), Imp::Error(w)) => Ok(info.label(true, "must be an error").label(*w == "label", "label").label(*w == "version" || *w == "inner version", "version").label(*w == "algorithm", "algorithm").label(w.contains("inner"), "inner structure").label(*w == "unused bits", "unused bits").label(*w == "elements", "elements")),
        (Err(_), Imp::Maybe(..)) => Ok(info.label(true, "odd, rejected")),
        (Err(e), Imp::Key(..)) => Err(Fail::new("import:rejects", format!("{} gave the error {e}", what()))),
        (Ok(_), Imp::Error(w)) => Err(Fail::new(format!("import:accepts:{w}"), format!("{} was accepted ({w})", what()))),
        (Ok(k), Imp::Key(n, x) | Imp::Maybe(n, x)) => {
            if *n < Nat::from_u128(2) {
                return Ok(info.label(true, "degenerate modulus"));
            }
            let one = Nat::one();
            let mut all: Vec<Nat> = nums.iter().map(|h| Nat::from_be(h)).collect();
            if !x.is_zero() {
                all.extend([n.clone(), n.add(&one)]);
            }
            for m in all {
                let w = m.modpow(x, n);
                let g = Nat::from_be(&k.encrypt(BigUint::from_be_bytes(m.to_be())).to_be_bytes());
                ensure!(g == w, "import:numbers", "{}: the key computes {} for {}, expected {} (n={}, exponent={})", what(), short(&g.to_be()), short(&m.to_be()), short(&w.to_be()), short(&n.to_be()), short(&x.to_be()));
            }
            Ok(info.label(true, "imported").label(n.bits() > 128, "over 128 bits"))
        }
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Good {
    private: bool,
    n: Hx,
    x: Hx,
    others: Vec<Hx>,
    nums: Vec<Hx>,
    via_text: bool,
}

fn doc(private: bool, n: &Nat, x: &Nat, o: &[Nat]) -> (Tree, Tree) {
    // (outer without the wrapped part, inner)
    if private {
        let inner = pkcs8_inner(n, &o[0], x, [&o[1], &o[2], &o[3], &o[4], &o[5]]);
        (pkcs8(&inner), inner)
    } else {
        (spki(n, x), Tree::Seq(vec![der_int(n), der_int(x)]))
    }
}

fn six(v: &[Hx]) -> Vec<Nat> {
    (0..6).map(|i| v.get(i).map(|h| Nat::from_be(h)).unwrap_or(Nat::from_u128(3 + i as u128))).collect()
}

fn good_check(c: &Good) -> Res {
    let (n, x) = (Nat::from_be(&c.n), Nat::from_be(&c.x));
    let (outer, _) = doc(c.private, &n, &x, &six(&c.others));
    import_check(c.private, if c.private { "PRIVATE KEY" } else { "PUBLIC KEY" }, &outer.encode(), c.via_text, &c.nums)
}

fn good(nmax: usize, xmax: usize) -> BoxedStrategy<Good> {
    (any::<bool>(), number(nmax), number(xmax), vec(number(nmax), 6), vec(number(nmax), 1..3), any::<bool>())
        .prop_map(|(private, n, x, others, nums, via_text)| {
            let up = |h: Hx, lo: u128| if Nat::from_be(&h) < Nat::from_u128(lo) { Hx(vec![lo as u8]) } else { h };
            Good { private, n: up(n, 2), x: up(x, 1), others, nums, via_text }
        })
        .boxed()
}

/// Edits of the document, applied to the outer tree and (at the same time) to the inner one.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
enum TEdit {
    Drop(u8),
    Dup(u8),
    Insert(u8, Tree),
    Replace(u8, Tree),
    Swap(u8, u8),
    Wrap,
    Unwrap,
}

fn tapply(t: Tree, e: &TEdit) -> Tree {
    let mut v = match t {
        Tree::Seq(v) => v,
        o => vec![o],
    };
    let n = v.len();
    match e {
        TEdit::Drop(i) if n > 0 => {
            v.remove(*i as usize % n);
        }
        TEdit::Dup(i) if n > 0 => {
            let x = v[*i as usize % n].clone();
            v.insert(*i as usize % n, x);
        }
        TEdit::Insert(i, x) => v.insert(*i as usize % (n + 1), x.clone()),
        TEdit::Replace(i, x) if n > 0 => v[*i as usize % n] = x.clone(),
        TEdit::Swap(i, j) if n > 0 => v.swap(*i as usize % n, *j as usize % n),
        TEdit::Wrap => return Tree::Seq(vec![Tree::Seq(v)]),
        TEdit::Unwrap if n > 0 => return v.remove(0),
        _ => {}
    }
    Tree::Seq(v)
}

fn small_leaf() -> BoxedStrategy<Tree> {
    let b = || bytes(0usize..4).prop_map(|h| h.0);
    prop_oneof![
        3 => select(vec![0u8, 1, 2, 3, 0x7f]).prop_map(|v| Tree::Int(vec![v])),
        1 => b().prop_map(|v| Tree::Int(min_int(v))),
        1 => b().prop_map(Tree::Oct),
        1 => (b(), 0u8..8).prop_map(|(v, u)| bits(v, u)),
        2 => Just(Tree::Null),
        1 => b().prop_map(|v| Tree::Oid(fix_oid(v))),
        1 => Just(Tree::Oid(OID_RSA.to_vec())),
        1 => Just(Tree::Seq(vec![])),
        1 => Just(Tree::Seq(vec![Tree::Oid(OID_RSA.to_vec()), Tree::Null])),
    ]
    .boxed()
}

fn tedit() -> BoxedStrategy<TEdit> {
    prop_oneof![
        2 => any::<u8>().prop_map(TEdit::Drop),
        2 => any::<u8>().prop_map(TEdit::Dup),
        3 => (any::<u8>(), small_leaf()).prop_map(|(i, t)| TEdit::Insert(i, t)),
        5 => (any::<u8>(), small_leaf()).prop_map(|(i, t)| TEdit::Replace(i, t)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(i, j)| TEdit::Swap(i, j)),
        1 => Just(TEdit::Wrap),
        1 => Just(TEdit::Unwrap),
    ]
    .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Bad {
    private: bool,
    label: String,
    n: Hx,
    x: Hx,
    others: Vec<Hx>,
    outer: Vec<TEdit>,
    alg: Vec<TEdit>,
    oid: Vec<BEdit>,
    inner: Vec<TEdit>,
    inner_bytes: Vec<BEdit>,
    unused: u8,
    bytes: Vec<BEdit>,
    via_text: bool,
}

fn bad_check(c: &Bad) -> Res {
    let (n, x) = (Nat::from_be(&c.n), Nat::from_be(&c.x));
    let (outer, inner) = doc(c.private, &n, &x, &six(&c.others));
    let inner = c.inner.iter().fold(inner, tapply);
    let mut ib = inner.encode();
    bapply(&mut ib, &c.inner_bytes);
    let Tree::Seq(mut o) = outer else { unreachable!() };
    let ai = if c.private { 1 } else { 0 };
    o[ai] = {
        let mut oid = OID_RSA.to_vec();
        bapply(&mut oid, &c.oid);
        let a = Tree::Seq(vec![Tree::Oid(oid), Tree::Null]);
        c.alg.iter().fold(a, tapply)
    };
    let last = o.len() - 1;
    o[last] = if c.private { Tree::Oct(ib) } else { Tree::Bit(ib, c.unused) };
    let o = c.outer.iter().fold(Tree::Seq(o), tapply);
    let mut b = o.encode();
    bapply(&mut b, &c.bytes);
    import_check(c.private, &c.label, &b, c.via_text && !c.label.contains('\n'), &[Hx(vec![2])])
}

fn labels(private: bool) -> BoxedStrategy<String> {
    let (own, other) = if private { ("PRIVATE KEY", "PUBLIC KEY") } else { ("PUBLIC KEY", "PRIVATE KEY") };
    prop_oneof![
        30 => Just(own.to_string()),
        1 => Just(other.to_string()),
        2 => select(vec!["", "RSA PRIVATE KEY", "RSA PUBLIC KEY", "private key", "public key", "PRIVATE KEY ", " PUBLIC KEY", "ENCRYPTED PRIVATE KEY", "CERTIFICATE", "PRIVATE", "PUBLIC", "KEY", "EC PRIVATE KEY", "PUBLIC KEYS", "PRIVATEKEY", "Public Key"]).prop_map(str::to_string),
    ]
    .boxed()
}

/// One class of damage (or several) at a time.
fn bad() -> BoxedStrategy<Bad> {
    (any::<bool>(), number(12), number(3), vec(number(12), 6), 0usize..9, any::<bool>())
        .prop_flat_map(|(private, n, x, others, class, via_text)| {
            let when = |on: bool, s: BoxedStrategy<Vec<TEdit>>| if on { s } else { Just(vec![]).boxed() };
            let bwhen = |on: bool| if on { vec(bedit(), 1..3).boxed() } else { Just(vec![]).boxed() };
            let te = || vec(tedit(), 1..3).boxed();
            let all = class == 8;
            (
                labels(private),
                when(class == 0 || all, te()),
                when(class == 1 || all, te()),
                bwhen(class == 2 || all),
                when(class == 3 || class == 4 || all, te()),
                bwhen(class == 5 || all),
                if class == 6 { (0u8..8).boxed() } else { Just(0u8).boxed() },
                bwhen(class == 7 || all),
            )
                .prop_map(move |(label, outer, alg, oid, inner, inner_bytes, unused, bytes)| {
                    let up = |h: &Hx, lo: u128| if Nat::from_be(h) < Nat::from_u128(lo) { Hx(vec![lo as u8]) } else { h.clone() };
                    Bad { private, label, n: up(&n, 2), x: up(&x, 1), others: others.clone(), outer, alg, oid, inner, inner_bytes, unused, bytes, via_text }
                })
        })
        .boxed()
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Any24 {
    private: bool,
    label: String,
    data: Hx,
}

fn any24_check(c: &Any24) -> Res {
    import_check(c.private, &c.label, &c.data, false, &[Hx(vec![3])]).map(|i| Info { nontrivial: c.data.len() > 2, ..i })
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Real {
    private: bool,
    key: Index2,
    num: Hx,
    swap_text: bool,
}

/// Genuine keys of the pool, with all nine numbers.
fn real_check(c: &Real) -> Res {
    let p = pool();
    let k = &p[c.key.at(p.len())].2;
    let (n, e, d) = (k.nn(), k.e(), k.d());
    let x = if c.private { d } else { e };
    let (outer, _) = doc(c.private, &n, &x, &six(&[]));
    let heavy = x.bits() > 64;
    let label = if c.private { "PRIVATE KEY" } else { "PUBLIC KEY" };
    if !heavy {
        return import_check(c.private, label, &outer.encode(), c.swap_text, &[c.num.clone()]);
    }
    // full-size exponents: one number only
    let r = match import(c.private, label, &outer.encode(), c.swap_text) {
        Ok(Ok(r)) => r,
        o => return Err(Fail::new("import:rejects", format!("a {}-bit key was not imported: {:?}", n.bits(), o.map(|x| x.err())))),
    };
    let m = Nat::from_be(&c.num);
    let w = m.modpow(&x, &n);
    let g = Nat::from_be(&r.encrypt(BigUint::from_be_bytes(m.to_be())).to_be_bytes());
    ensure!(g == w, "import:numbers", "a {}-bit key computes {} for {}, expected {}", n.bits(), short(&g.to_be()), short(&m.to_be()), short(&w.to_be()));
    Ok(Info::new(true).label(true, "full-size exponent"))
}

fn key_fed(b: &[u8]) -> Option<Any24> {
    let (k, d) = b.split_first()?;
    let private = k & 1 != 0;
    Some(Any24 { private, label: if private { "PRIVATE KEY" } else { "PUBLIC KEY" }.into(), data: Hx(d.to_vec()) })
}

fn key_seeds() -> Vec<Vec<u8>> {
    let mut v = vec![];
    for p in [0u8, 1] {
        for (n, x) in [(3233u128, 17u128), (2, 1), (200, 0x80), (0xffff, 3), (u64::MAX as u128, 300)] {
            v.push([vec![p], doc(p == 1, &Nat::from_u128(n), &Nat::from_u128(x), &six(&[])).0.encode()].concat());
        }
    }
    v
}

/// A document one of whose sequences has very many elements too many, or one of whose numbers has very many bytes.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Crowd {
    private: bool,
    n: u32,
    x: u32,
    /// 0: outer, 1: algorithm, 2: inner, 3: bytes of the version, 4: bytes of the algorithm OID
    at: u8,
    more: u32,
    null: bool,
    front: bool,
}

fn crowd_check(c: &Crowd) -> Res {
    let (mut outer, mut inner) = doc(c.private, &Nat::from_u128(c.n as u128), &Nat::from_u128(c.x as u128), &six(&[]));
    let add = |v: &mut Vec<Tree>| {
        let extra = vec![if c.null { Tree::Null } else { Tree::Int(vec![1]) }; c.more as usize];
        let at = if c.front { 0 } else { v.len() };
        v.splice(at..at, extra);
    };
    let bytes = |v: &mut Vec<u8>| {
        let at = if c.front { 0 } else { v.len() };
        v.splice(at..at, vec![0; c.more as usize]);
    };
    let Tree::Seq(els) = &mut outer else { unreachable!() };
    match c.at {
        0 => add(els),
        1 | 4 => {
            let Tree::Seq(a) = &mut els[c.private as usize] else { unreachable!() };
            match &mut a[0] {
                Tree::Oid(v) if c.at == 4 => bytes(v),
                _ => add(a),
            }
        }
        k => {
            match &mut inner {
                Tree::Seq(v) if k == 2 => add(v),
                Tree::Seq(v) => {
                    if let Tree::Int(b) = &mut v[0] {
                        bytes(b)
                    }
                }
                _ => unreachable!(),
            }
            let last = els.len() - 1;
            els[last] = if c.private { Tree::Oct(inner.encode()) } else { Tree::Bit(inner.encode(), 0) };
        }
    }
    let label = if c.private { "PRIVATE KEY" } else { "PUBLIC KEY" };
    import_check(c.private, label, &outer.encode(), false, &[Hx(vec![3])]).map(|i| Info { nontrivial: true, ..i })
}

/// Two documents whose numbers are related, and whether the keys are equal.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
struct Pair {
    private: bool,
    n: Hx,
    x: Hx,
    others: Vec<Hx>,
    /// how the second document's modulus, exponent and other numbers come from the first's
    how: (u8, u8, u8),
    at: Index2,
}

fn kin_number(a: &Nat, how: u8, at: Index2, other: &Nat) -> Nat {
    let mut b = a.to_be();
    if b.is_empty() {
        b.push(0);
    }
    match how {
        0 => {}
        // one bit differs
        1 => {
            let i = at.at(b.len() * 8);
            b[i / 8] ^= 1 << (i % 8);
        }
        2 => b.reverse(),
        3 => b.push(0),
        4 => b.insert(0, 1),
        5 => {
            b.pop();
        }
        6 => return other.clone(),
        _ => return a.add(&Nat::one()),
    }
    Nat::from_be(&b)
}

fn pair_check(c: &Pair) -> Res {
    let up = |v: Nat, lo: u128| if v < Nat::from_u128(lo) { Nat::from_u128(lo) } else { v };
    let (n, x) = (up(Nat::from_be(&c.n), 2), up(Nat::from_be(&c.x), 1));
    let (n2, x2) = (up(kin_number(&n, c.how.0, c.at, &x), 2), up(kin_number(&x, c.how.1, c.at, &n), 1));
    let o = six(&c.others);
    let mut o2 = o.clone();
    if c.how.2 != 0 {
        let i = c.how.2 as usize % 6;
        o2[i] = up(kin_number(&o[i], c.how.2 % 8, c.at, &n), 1);
    }
    let want = n == n2 && x == x2;
    let text = || format!("{} keys with n={}, exponent={} and n={}, exponent={}", if c.private { "private" } else { "public" }, short(&n.to_be()), short(&x.to_be()), short(&n2.to_be()), short(&x2.to_be()));
    macro_rules! judge {
        ($key:ty, $label:expr) => {{
            let get = |n: &Nat, x: &Nat, o: &[Nat]| <$key>::try_from(pem($label, doc(c.private, n, x, o).0.encode())).map_err(|e| Fail::new("import:rejects", format!("{}: not imported: {e}", text())));
            let (a, b) = (get(&n, &x, &o)?, get(&n2, &x2, &o2)?);
            ensure!((a == b) == want && (b == a) == want && (a != b) == !want, "keys:equality", "{} compare as {}", text(), if want { "different" } else { "equal" });
            ensure!(a.clone() == a && b.clone() == b, "keys:clone", "{}: a clone differs from its original", text());
        }};
    }
    if c.private {
        judge!(PrivateKey, "PRIVATE KEY")
    } else {
        judge!(PublicKey, "PUBLIC KEY")
    }
    Ok(Info::new(true).label(want, "equal").label(!want, "different").label(want && o != o2, "equal, other numbers differ").label(n == n2 && x != x2, "same modulus only").label(n != n2 && x == x2, "same exponent only").label(n2 == x && x2 == n, "swapped"))
}

fn pair() -> BoxedStrategy<Pair> {
    let size = || prop_oneof![4 => number(3), 3 => number(20), 1 => number(300)];
    (any::<bool>(), size(), size(), vec(number(6), 6), (prop_oneof![3 => Just(0u8), 4 => 0u8..8], prop_oneof![3 => Just(0u8), 4 => 0u8..8], 0u8..48), ix()).prop_map(|(private, n, x, others, how, at)| Pair { private, n, x, others, how, at }).boxed()
}

pub fn c24() -> Vec<Box<dyn DynFacet>> {
    vec![
        Facet::random("key-equality", "pairs of documents whose moduli, exponents and other numbers are the same or related (one bit, reversed, longer, shorter, swapped): the keys are equal exactly when modulus and exponent are", 12_000, pair, pair_check).boxed(),
        Facet::fuzzed("document-bytes", "libFuzzer's bytes as a key document of either kind", 60_000, 110, key_seeds, key_fed, any24_check).boxed(),
        Facet::random("well-formed-small", "key documents with moduli up to 12 bytes and exponents up to 3 bytes, from PEM values or PEM text; the imported key must compute with exactly those numbers (also on n and n+1)", 6_000, || good(12, 3), good_check).chunk(16).boxed(),
        Facet::random("well-formed-medium", "moduli up to 40 bytes, exponents up to 2 bytes; and moduli up to 6 bytes, exponents up to 40 bytes", 800, || Union::new(vec![good(40, 2), good(6, 40)]), good_check).chunk(8).boxed(),
        Facet::random("well-formed-large", "moduli of 127..=300 bytes, exponents of at most 3 and small numbers", 120, || (good(300, 1), 127usize..=300, any::<u8>()).prop_map(|(mut g, k, t)| { g.n = Hx({ let mut v = fill(1, t as u64 * 77 + 5, k); v[0] = t | 1; v }); g.x = Hx(vec![1 + t % 3]); g.nums = vec![Hx(vec![2])]; g }), good_check).chunk(4).boxed(),
        Facet::random("real-keys", "genuine 521..=2049-bit keys with a small exponent, and some with a full-size one", 40, || (any::<bool>(), ix(), bytes(1usize..8), any::<bool>()).prop_map(|(private, key, num, swap_text)| Real { private, key: Index2(key.0 / 3), num, swap_text }), real_check).chunk(1).thorough(400).boxed(),
        Facet::random("damaged-documents", "one class of damage at a time (label, outer elements, algorithm, OID bytes, inner elements, inner bytes, unused bits, raw bytes) or all at once, against a reference importer that says error, exactly these numbers, or (odd but harmless encodings) either", 60_000, bad, bad_check).boxed(),
        Facet::indexed(
            "crowded-documents",
            "documents with 1, 255..=257, 65535..=65537 or 131072 elements too many in one of their sequences, or bytes too many in the version or the algorithm's identifier, before or after the genuine ones",
            2 * 5 * 8 * 4,
            |i| {
                let (a, b, m, k) = (i % 2, i / 2 % 5, i / 10 % 8, i / 80);
                (2u32..5000, 0u32..300).prop_map(move |(n, x)| Crowd { private: a == 1, n, x, at: b as u8, more: [1, 255, 256, 257, 65_535, 65_536, 65_537, 131_072][m as usize], null: k % 2 == 1, front: k / 2 == 1 || (a == 0 && b == 3) })
            },
            crowd_check,
        )
        .chunk(4)
        .boxed(),
        Facet::random("arbitrary-documents", "arbitrary trees and DER-like bytes under either label", 20_000, || (any::<bool>(), prop_oneof![tree(3, 12).prop_map(|t| t.encode()), vec(select(vec![0u8, 1, 2, 3, 4, 5, 6, 0x30, 0x30, 0x80, 0x81]), 0..20)]).prop_flat_map(|(private, v)| labels(private).prop_map(move |label| Any24 { private, label, data: Hx(v.clone()) })), any24_check).boxed(),
    ]
}

