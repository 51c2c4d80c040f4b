//! X.509 certificates, requests and SubjectPublicKeyInfo, built by hand.
use crate::der::*;
use crate::ec::C;
use crate::keys::{self, Priv, Pub};

pub const OID_EC: &str = "1.2.840.10045.2.1";
pub const OID_RSA: &str = "1.2.840.113549.1.1.1";
pub const OID_P256: &str = "1.2.840.10045.3.1.7";
pub const OID_P384: &str = "1.3.132.0.34";
pub const OID_P521: &str = "1.3.132.0.35";
pub const OID_ED25519: &str = "1.3.101.112";
pub const ECDSA_SHA256: &str = "1.2.840.10045.4.3.2";
pub const ECDSA_SHA384: &str = "1.2.840.10045.4.3.3";
pub const RSA_SHA1: &str = "1.2.840.113549.1.1.5";
pub const RSA_SHA256: &str = "1.2.840.113549.1.1.11";
pub const RSA_SHA512: &str = "1.2.840.113549.1.1.13";

pub fn spki_ec(curve: &str, pt: &[u8]) -> Vec<u8> {
    seq(&[seq(&[oid(OID_EC), oid(curve)]), bits(pt)])
}
pub fn spki(k: &Pub) -> Vec<u8> {
    match k {
        Pub::Ec { c, pt } => spki_ec(
            match c {
                C::P256 => OID_P256,
                C::P384 => OID_P384,
                C::P521 => OID_P521,
            },
            pt,
        ),
        Pub::Rsa { e, n } => seq(&[seq(&[oid(OID_RSA), null()]), bits(&seq(&[uint(n), uint(e)]))]),
        Pub::Ed { pk } => seq(&[seq(&[oid(OID_ED25519)]), bits(pk)]),
        _ => panic!("no SPKI for security keys"),
    }
}
pub fn name(cn: &str) -> Vec<u8> {
    seq(&[set(&[seq(&[oid("2.5.4.3"), utf8(cn)])])])
}
pub fn ext(o: &str, critical: bool, value: &[u8]) -> Vec<u8> {
    let mut p = vec![oid(o)];
    if critical {
        p.push(tlv(1, &[0xff]));
    }
    p.push(octets(value));
    seq(&p)
}
#[derive(Clone, Debug)]
pub struct Tbs {
    pub serial: Vec<u8>,
    pub sig_alg: Vec<u8>,
    pub issuer: Vec<u8>,
    pub validity: Vec<u8>,
    pub subject: Vec<u8>,
    pub spki: Vec<u8>,
    pub exts: Vec<Vec<u8>>,
}
pub fn alg_id(k: &Priv) -> Vec<u8> {
    match k {
        Priv::Ec { c: C::P256, .. } => seq(&[oid(ECDSA_SHA256)]),
        Priv::Ec { c: C::P384, .. } => seq(&[oid(ECDSA_SHA384)]),
        Priv::Rsa(_) => seq(&[oid(RSA_SHA256), null()]),
        Priv::Ed { .. } => seq(&[oid(OID_ED25519)]),
        _ => panic!(),
    }
}
pub fn sign_raw(k: &Priv, m: &[u8]) -> Vec<u8> {
    match k {
        Priv::Ec { c, d } => {
            let (r, s) = keys::ring_ecdsa(*c, d, m);
            ecdsa_sig(&r, &s)
        }
        Priv::Rsa(_) => k.sign_parts("rsa-sha2-256", 0, 0, m).0,
        Priv::Ed { seed } => keys::ed_sign(seed, m),
        _ => panic!(),
    }
}
impl Tbs {
    pub fn new(issuer: &str, subject: &str, k: &Pub, signer: &Priv, exts: Vec<Vec<u8>>) -> Tbs {
        Tbs {
            serial: uint(&[1, 2, 3]),
            sig_alg: alg_id(signer),
            issuer: name(issuer),
            validity: seq(&[tlv(0x17, b"160314000000Z"), tlv(0x18, b"20520417000000Z")]),
            subject: name(subject),
            spki: spki(k),
            exts,
        }
    }
    pub fn encode(&self) -> Vec<u8> {
        let mut p = vec![
            tlv(0xa0, &uint(&[2])),
            self.serial.clone(),
            self.sig_alg.clone(),
            self.issuer.clone(),
            self.validity.clone(),
            self.subject.clone(),
            self.spki.clone(),
        ];
        if !self.exts.is_empty() {
            p.push(tlv(0xa3, &seq(&self.exts)));
        }
        seq(&p)
    }
    pub fn sign(&self, k: &Priv) -> Vec<u8> {
        let t = self.encode();
        let s = sign_raw(k, &t);
        seq(&[t, self.sig_alg.clone(), bits(&s)])
    }
}
pub fn assemble(tbs: &[u8], alg: &[u8], sig: &[u8]) -> Vec<u8> {
    seq(&[tbs.to_vec(), alg.to_vec(), bits(sig)])
}
pub fn csr(subject: &str, spki_der: &[u8], k: &Priv) -> Vec<u8> {
    let info = seq(&[uint(&[]), name(subject), spki_der.to_vec(), tlv(0xa0, &[])]);
    let s = sign_raw(k, &info);
    seq(&[info, alg_id(k), bits(&s)])
}
pub fn pem(label: &str, der: &[u8]) -> String {
    let e = base64::encode(der);
    let mut s = format!("-----BEGIN {}-----\n", label);
    let c: Vec<char> = e.chars().collect();
    for l in c.chunks(64) {
        s.extend(l.iter());
        s.push('\n');
    }
    s.push_str(&format!("-----END {}-----\n", label));
    s
}

/// Tag number: parsers differ in how closely they look at tags; wrong tags around right contents are not judged.
fn nr(t: u8) -> u8 {
    t & 0x1f
}
/// Whether there are more elements in the key information or its algorithm than there may be.
pub fn surplus(body: &[u8]) -> bool {
    children(body).is_some_and(|p| p.len() > 2 || p.len() == 2 && children(&p[0].1).is_some_and(|a| a.len() > 2))
}
/// What a SubjectPublicKeyInfo (its contents) is as an SSH key: uncompressed P-256 and P-384 points only.
pub fn judge_spki(body: &[u8]) -> (crate::Tri, Option<Pub>) {
    use crate::Tri::*;
    let parts = match leading(body) {
        p if p.len() >= 2 => p,
        _ => return (No, None),
    };
    let alg = match leading(&parts[0].1) {
        a if a.len() >= 2 => a,
        _ => return (No, None),
    };
    // identifiers by value: a sloppy encoding of the right one is not judged
    let is = |b: &[u8], o: &str| arcs(b) == arcs(&oid(o)[2..]);
    let raw = |b: &[u8], o: &str| b == &oid(o)[2..];
    let clean = raw(&alg[0].1, OID_EC) && (raw(&alg[1].1, OID_P256) || raw(&alg[1].1, OID_P384));
    if !is(&alg[0].1, OID_EC) {
        return (No, None);
    }
    let c = if is(&alg[1].1, OID_P256) {
        C::P256
    } else if is(&alg[1].1, OID_P384) {
        C::P384
    } else {
        return (No, None);
    };
    let (unused, pt) = match parts[1].1.split_first() {
        Some((u, p)) => (*u, p.to_vec()),
        None => return (No, None),
    };
    if pt.len() != 2 * c.len() + 1 || pt[0] != 4 {
        return (No, None);
    }
    let k = Pub::Ec { c, pt: pt.clone() };
    let on = crate::ec::Pt::from_sec1(&pt, c).is_some();
    // surplus elements are not judged
    (if on && clean && unused == 0 && parts.len() == 2 && alg.len() == 2 && parts[0].0 == 0x30 && parts[1].0 == 3 && alg[0].0 == 6 && alg[1].0 == 6 { Yes } else { May }, Some(k))
}
/// The SubjectPublicKeyInfo contents of a certificate.
pub fn cert_spki(b: &[u8]) -> Option<Vec<u8>> {
    let (_, body, _) = read(b)?;
    let top = leading(body);
    if top.is_empty() {
        return None;
    }
    let tbs = leading(&top[0].1);
    let i = (nr(tbs.first()?.0) == 0) as usize;
    Some(tbs.get(i + 5)?.1.clone())
}
pub fn csr_spki(b: &[u8]) -> Option<Vec<u8>> {
    let (_, body, _) = read(b)?;
    let top = leading(body);
    if top.is_empty() {
        return None;
    }
    Some(leading(&top[0].1).get(2)?.1.clone())
}
fn arcs(b: &[u8]) -> Vec<u128> {
    let mut v = vec![];
    let mut x = 0u128;
    for (i, y) in b.iter().enumerate() {
        x = x << 7 | (y & 0x7f) as u128;
        if y & 0x80 == 0 || i + 1 == b.len() {
            v.push(x);
            x = 0;
        }
    }
    v
}
/// The elements at the start of `b`, as far as they can be read.
fn leading(mut b: &[u8]) -> Vec<(u8, Vec<u8>)> {
    let mut r = vec![];
    while let Some((t, body, rest)) = read(b) {
        r.push((t, body.to_vec()));
        b = rest;
    }
    r
}
/// The signed part (with its header) and the signature of a certificate, as far as the bytes can be read.
pub fn parts(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (_, body, _) = read(b)?;
    let (_, _, rest) = read(body)?;
    let tbs = body[..body.len() - rest.len()].to_vec();
    let (_, _, rest) = read(rest)?;
    let (_, sig, _) = read(rest)?;
    Some((tbs, sig.get(1..)?.to_vec()))
}
