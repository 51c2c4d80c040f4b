use crate::keys::{self, Priv, Pub};
use crate::wire::*;
use crate::Tri;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Sig {
    pub key: Pub,
    pub namespace: String,
    pub hash: String,
    pub sig: Vec<u8>,
}
pub fn hash(alg: &str, m: &[u8]) -> Option<Vec<u8>> {
    match alg {
        "sha256" => Some(crate::sha256(m)),
        "sha512" => Some(crate::sha512(m)),
        _ => None,
    }
}
pub fn payload(ns: &[u8], reserved: &[u8], alg: &str, m: &[u8]) -> Vec<u8> {
    Enc::new().raw(b"SSHSIG").bytes(ns).bytes(reserved).str(alg).bytes(&hash(alg, m).unwrap_or_default()).0
}
pub fn blob(key: &[u8], ns: &[u8], reserved: &[u8], alg: &[u8], sig: &[u8]) -> Vec<u8> {
    Enc::new().raw(b"SSHSIG").u32(1).bytes(key).bytes(ns).bytes(reserved).bytes(alg).bytes(sig).0
}
pub fn make(k: &Priv, ns: &str, alg: &str, m: &[u8]) -> Vec<u8> {
    let s = k.sign(&payload(ns.as_bytes(), &[], alg, m));
    blob(&k.public().encode(), ns.as_bytes(), &[], alg.as_bytes(), &s)
}
pub fn armor(b: &[u8], width: usize) -> String {
    let e = base64::encode(b);
    let mut s = String::from("-----BEGIN SSH SIGNATURE-----\n");
    let c: Vec<char> = e.chars().collect();
    for l in c.chunks(width) {
        s.extend(l.iter());
        s.push('\n');
    }
    s.push_str("-----END SSH SIGNATURE-----");
    s
}
/// (must it parse, value)
pub fn parse(b: &[u8]) -> (Tri, Option<Sig>) {
    match parse_opt(b) {
        None => (Tri::No, None),
        Some((s, t)) => (t, Some(s)),
    }
}
fn parse_opt(b: &[u8]) -> Option<(Sig, Tri)> {
    let mut d = Dec::new(b);
    if d.raw(6)? != b"SSHSIG" || d.u32()? != 1 {
        return None;
    }
    let kb = d.bytes()?;
    let mut t = Tri::Yes;
    let (key, exact) = match Pub::decode(kb) {
        Some((_, false)) => return None,
        Some(x) => x,
        None => {
            let mut i = Dec::new(kb);
            let n = i.utf8()?;
            if !keys::SIG_ONLY.contains(&n.as_str()) {
                return None;
            }
            (Pub::decode_data("ssh-rsa", &mut i)?, false)
        }
    };
    if !exact || !key.well_sized() {
        t = Tri::May;
    }
    let namespace = d.utf8()?;
    if namespace.is_empty() {
        return None;
    }
    d.bytes()?;
    let hash = d.utf8()?;
    if hash != "sha256" && hash != "sha512" {
        return None;
    }
    let sig = d.bytes()?.to_vec();
    if !d.done() {
        t = Tri::May;
    }
    Some((Sig { key, namespace, hash, sig }, t))
}
/// What verification of a parsed signature must say.
pub fn verify(s: &Sig, m: &[u8], ns: &str, expect: Option<&Pub>) -> Tri {
    if ns != s.namespace {
        return Tri::No;
    }
    if let Some(k) = expect {
        if *k != s.key {
            return Tri::No;
        }
    }
    keys::verify(&s.key, &s.sig, &payload(s.namespace.as_bytes(), &[], &s.hash, m))
}
