//! Independent reference implementations used as oracles.  None of them calls the code under
//! test.  `tools/validate_refs.py` compares them with OpenSSL, hashlib and Python integers.
pub mod aes;
pub mod b64;
pub mod cli;
pub mod der;
pub mod md;
pub mod nat;
pub mod oaep;
pub mod pem;
pub mod rc;
pub mod sha;
