//! One JSON request per line on stdin, one JSON answer per line on stdout: lets
//! `tools/validate_refs.py` compare the references with other implementations.
use super::nat::Nat;
use super::{aes, b64, der, md, oaep, pem, rc, sha};
use serde_json::{json, Value};
use std::io::{BufRead, Write};

fn h(v: &Value, k: &str) -> Vec<u8> {
    hex::decode(v[k].as_str().unwrap_or("")).unwrap()
}
fn n(v: &Value, k: &str) -> Nat {
    Nat::from_be(&h(v, k))
}
fn nx(x: &Nat) -> Value {
    json!(hex::encode(x.to_be()))
}

fn answer(v: &Value) -> Value {
    let m = h(v, "m");
    let key = h(v, "key");
    let num = |k: &str| v[k].as_u64().unwrap_or(0) as usize;
    let hx = |b: &[u8]| json!(hex::encode(b));
    match v["op"].as_str().unwrap_or("") {
        "md2" => hx(&md::md2(&m)),
        "md4" => hx(&md::md4(&m)),
        "md5" => hx(&md::md5(&m)),
        "sha1" => hx(&sha::sha1(&m)),
        "sha224" => hx(&sha::sha224(&m)),
        "sha256" => hx(&sha::sha256(&m)),
        "sha384" => hx(&sha::sha384(&m)),
        "sha512" => hx(&sha::sha512(&m)),
        "aes-enc" => hx(&aes::RefAes::new(&key).enc(m.try_into().unwrap())),
        "aes-dec" => hx(&aes::RefAes::new(&key).dec(m.try_into().unwrap())),
        "rc2-enc" => hx(&rc::RefRc2::new(&key, num("bits")).enc(m.try_into().unwrap())),
        "rc2-dec" => hx(&rc::RefRc2::new(&key, num("bits")).dec(m.try_into().unwrap())),
        "rc5-enc" => hx(&rc::RefRc5::new(&key, num("rounds")).enc(m.try_into().unwrap())),
        "rc5-dec" => hx(&rc::RefRc5::new(&key, num("rounds")).dec(m.try_into().unwrap())),
        "rc4" => hx(&rc::RefRc4::stream(&key, num("n"))),
        "b64enc" => json!(b64::enc(&m)),
        "b64dec" => json!(b64::dec(v["s"].as_str().unwrap_or("")).map(hex::encode)),
        "pem" => json!(pem::parse(v["s"].as_str().unwrap_or("")).map(|(l, d)| (l, hex::encode(d)))),
        "der" => match der::want(&m) {
            der::Want::Exactly(t) => json!(["exactly", t]),
            der::Want::Tolerated(t) => json!(["tolerated", t]),
            der::Want::Error(e) => json!(["error", e]),
        },
        "oaep-enc" => json!(oaep::encode(&h(v, "label"), &m, &h(v, "seed"), num("k")).map(hex::encode)),
        "oaep-dec" => json!(oaep::decode(&h(v, "label"), &m, num("k")).map(hex::encode)),
        "add" => nx(&n(v, "a").add(&n(v, "b"))),
        "sub" => n(v, "a").checked_sub(&n(v, "b")).map(|x| nx(&x)).unwrap_or(Value::Null),
        "mul" => nx(&n(v, "a").mul(&n(v, "b"))),
        "divrem" => {
            let (q, r) = n(v, "a").divrem(&n(v, "b"));
            json!([nx(&q), nx(&r)])
        }
        "shl" => nx(&n(v, "a").shl(num("n") as u32)),
        "shr" => nx(&n(v, "a").shr(num("n") as u32)),
        "modpow" => nx(&n(v, "a").modpow(&n(v, "e"), &n(v, "b"))),
        "modinv" => n(v, "a").modinv(&n(v, "b")).map(|x| nx(&x)).unwrap_or(Value::Null),
        "gcd" => nx(&n(v, "a").gcd(&n(v, "b"))),
        "prime" => json!(n(v, "a").is_prime()),
        "bits" => json!(n(v, "a").bits()),
        o => json!({"error": o}),
    }
}

pub fn serve() {
    let out = std::io::stdout();
    let mut out = out.lock();
    for l in std::io::stdin().lock().lines() {
        let v: Value = serde_json::from_str(&l.unwrap()).unwrap();
        writeln!(out, "{}", answer(&v)).unwrap();
    }
}
