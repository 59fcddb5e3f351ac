//! Reference model of the accepted PEM text.
use super::b64;

enum L<'a> {
    Begin(Option<&'a str>),
    End(Option<&'a str>),
    Other(&'a str),
}

fn line(l: &str) -> L<'_> {
    let l = l.trim();
    if let Some(r) = l.strip_prefix("-----BEGIN ") {
        return L::Begin(r.strip_suffix("-----"));
    }
    if let Some(r) = l.strip_prefix("-----END ") {
        return L::End(r.strip_suffix("-----"));
    }
    L::Other(l)
}

/// Exactly one BEGIN line, then exactly one END line with the same label, canonical base64
/// between them, anything that is not a marker line elsewhere.
pub fn parse(s: &str) -> Option<(String, Vec<u8>)> {
    let ls: Vec<L> = s.split('\n').map(line).collect();
    let b: Vec<usize> = (0..ls.len()).filter(|&i| matches!(ls[i], L::Begin(_))).collect();
    let e: Vec<usize> = (0..ls.len()).filter(|&i| matches!(ls[i], L::End(_))).collect();
    if b.len() != 1 || e.len() != 1 || b[0] > e[0] {
        return None;
    }
    let (L::Begin(Some(bl)), L::End(Some(el))) = (&ls[b[0]], &ls[e[0]]) else {
        return None;
    };
    if bl != el {
        return None;
    }
    let text: String = ls[b[0] + 1..e[0]]
        .iter()
        .map(|l| match l {
            L::Other(t) => *t,
            _ => unreachable!(),
        })
        .collect();
    Some((bl.to_string(), b64::dec(&text)?))
}

pub fn text(label: &str, data: &[u8]) -> String {
    let b = b64::enc(data);
    let mut s = format!("-----BEGIN {label}-----\n");
    for c in b.as_bytes().chunks(64) {
        s.push_str(std::str::from_utf8(c).unwrap());
        s.push('\n');
    }
    s.push_str(&format!("-----END {label}-----"));
    s
}

/// Texts on which the line grammar leaves room: lines that look like markers without being one,
/// and white space other than blank, tab, CR and LF.
pub fn ambiguous(s: &str) -> bool {
    if s.chars().any(|c| c.is_whitespace() && !" \t\r\n".contains(c)) {
        return true;
    }
    s.split('\n').any(|l| {
        let t = l.trim();
        (t.starts_with("-----BEGIN") && !t.starts_with("-----BEGIN ")) || (t.starts_with("-----END") && !t.starts_with("-----END ")) || l.trim_end_matches('\r').contains('\r')
    })
}
