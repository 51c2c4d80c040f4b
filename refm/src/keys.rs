use crate::ec::{self, C};
use crate::wire::*;
use crate::{der, Tri};
use num_bigint::BigUint;
use ring::rand::SystemRandom;
use ring::signature::{self, EcdsaKeyPair, Ed25519KeyPair, KeyPair, RsaKeyPair, UnparsedPublicKey};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Pub {
    Rsa { e: Vec<u8>, n: Vec<u8> },
    Ec { c: C, pt: Vec<u8> },
    Ed { pk: Vec<u8> },
    SkEd { pk: Vec<u8>, app: String },
    SkEc { pt: Vec<u8>, app: String },
}

pub const KEY_TYPES: [&str; 7] = [
    "ssh-rsa",
    "ecdsa-sha2-nistp256",
    "ecdsa-sha2-nistp384",
    "ecdsa-sha2-nistp521",
    "ssh-ed25519",
    "sk-ssh-ed25519@openssh.com",
    "sk-ecdsa-sha2-nistp256@openssh.com",
];
pub const CERT_TYPES: [&str; 7] = [
    "ssh-rsa-cert-v01@openssh.com",
    "ecdsa-sha2-nistp256-cert-v01@openssh.com",
    "ecdsa-sha2-nistp384-cert-v01@openssh.com",
    "ecdsa-sha2-nistp521-cert-v01@openssh.com",
    "ssh-ed25519-cert-v01@openssh.com",
    "sk-ssh-ed25519-cert-v01@openssh.com",
    "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
];
pub const SIG_ONLY: [&str; 2] = ["rsa-sha2-256", "rsa-sha2-512"];

pub fn cert_name_of(key_type: &str) -> &'static str {
    CERT_TYPES[KEY_TYPES.iter().position(|k| *k == key_type).unwrap()]
}
pub fn key_name_of_cert(cert_type: &str) -> Option<&'static str> {
    CERT_TYPES.iter().position(|k| *k == cert_type).map(|i| KEY_TYPES[i])
}

impl Pub {
    pub fn type_name(&self) -> &'static str {
        match self {
            Pub::Rsa { .. } => "ssh-rsa",
            Pub::Ec { c: C::P256, .. } => "ecdsa-sha2-nistp256",
            Pub::Ec { c: C::P384, .. } => "ecdsa-sha2-nistp384",
            Pub::Ec { c: C::P521, .. } => "ecdsa-sha2-nistp521",
            Pub::Ed { .. } => "ssh-ed25519",
            Pub::SkEd { .. } => "sk-ssh-ed25519@openssh.com",
            Pub::SkEc { .. } => "sk-ecdsa-sha2-nistp256@openssh.com",
        }
    }
    /// the fields after the type name
    pub fn data(&self) -> Vec<u8> {
        let e = Enc::new();
        match self {
            Pub::Rsa { e: x, n } => e.mpint(x).mpint(n),
            Pub::Ec { c, pt } => e.str(c.id()).bytes(pt),
            Pub::Ed { pk } => e.bytes(pk),
            Pub::SkEd { pk, app } => e.bytes(pk).str(app),
            Pub::SkEc { pt, app } => e.str("nistp256").bytes(pt).str(app),
        }
        .0
    }
    pub fn encode(&self) -> Vec<u8> {
        Enc::new().str(self.type_name()).raw(&self.data()).0
    }
    pub fn is_sk(&self) -> bool {
        matches!(self, Pub::SkEd { .. } | Pub::SkEc { .. })
    }
    pub fn openssh(&self, comment: Option<&str>) -> String {
        let b = base64::encode(self.encode());
        match comment {
            Some(c) => format!("{} {} {}", self.type_name(), b, c),
            None => format!("{} {}", self.type_name(), b),
        }
    }
    /// Are the component sizes those of a real key of this type?
    pub fn well_sized(&self) -> bool {
        match self {
            Pub::Rsa { e, n } => !e.is_empty() && !n.is_empty(),
            Pub::Ec { c, pt } => pt.len() == 2 * c.len() + 1 && pt[0] == 4,
            Pub::SkEc { pt, .. } => pt.len() == 65 && pt[0] == 4,
            Pub::Ed { pk } | Pub::SkEd { pk, .. } => pk.len() == 32,
        }
    }
    /// Decodes the fields after the type name.
    pub fn decode_data(ty: &str, d: &mut Dec) -> Option<Pub> {
        Some(match ty {
            "ssh-rsa" => {
                let e = d.cmpint()?;
                Pub::Rsa { e, n: d.cmpint()? }
            }
            "ecdsa-sha2-nistp256" | "ecdsa-sha2-nistp384" | "ecdsa-sha2-nistp521" => {
                let c = match &ty[11..] {
                    "nistp256" => C::P256,
                    "nistp384" => C::P384,
                    _ => C::P521,
                };
                if d.utf8()? != c.id() {
                    return None;
                }
                Pub::Ec { c, pt: d.bytes()?.to_vec() }
            }
            "ssh-ed25519" => Pub::Ed { pk: d.bytes()?.to_vec() },
            "sk-ssh-ed25519@openssh.com" => {
                let pk = d.bytes()?.to_vec();
                Pub::SkEd { pk, app: d.utf8()? }
            }
            "sk-ecdsa-sha2-nistp256@openssh.com" => {
                if d.utf8()? != "nistp256" {
                    return None;
                }
                let pt = d.bytes()?.to_vec();
                Pub::SkEc { pt, app: d.utf8()? }
            }
            _ => return None,
        })
    }
    /// None: error. The flag tells whether the blob was consumed exactly.
    pub fn decode(b: &[u8]) -> Option<(Pub, bool)> {
        let mut d = Dec::new(b);
        let ty = d.utf8()?;
        let k = Pub::decode_data(&ty, &mut d)?;
        Some((k, d.done()))
    }
    pub fn bits(&self) -> usize {
        match self {
            Pub::Rsa { n, .. } => n.len() * 8,
            Pub::Ec { c, .. } => match c {
                C::P256 => 256,
                C::P384 => 384,
                C::P521 => 521,
            },
            _ => 256,
        }
    }
}

#[derive(Clone, Debug)]
pub struct RsaPriv {
    pub der: Vec<u8>,
    pub n: Vec<u8>,
    pub e: Vec<u8>,
    pub d: Vec<u8>,
    pub p: Vec<u8>,
    pub q: Vec<u8>,
    pub iqmp: Vec<u8>,
}
impl RsaPriv {
    pub fn from_pkcs1(der_bytes: &[u8]) -> RsaPriv {
        let (_, body, _) = der::read(der_bytes).unwrap();
        let f: Vec<Vec<u8>> = der::children(body).unwrap().into_iter().map(|(_, b)| strip0(&b)).collect();
        RsaPriv {
            der: der_bytes.to_vec(),
            n: f[1].clone(),
            e: f[2].clone(),
            d: f[3].clone(),
            p: f[4].clone(),
            q: f[5].clone(),
            iqmp: f[8].clone(),
        }
    }
    pub fn raw_sign(&self, em: &[u8]) -> Vec<u8> {
        let m = BigUint::from_bytes_be(em);
        let s = m.modpow(&BigUint::from_bytes_be(&self.d), &BigUint::from_bytes_be(&self.n));
        ec::fixed(&s, self.n.len())
    }
}
pub fn digest_info(label: &str, msg: &[u8]) -> Option<Vec<u8>> {
    let (oid, h) = match label {
        "ssh-rsa" => ("1.3.14.3.2.26", crate::sha1(msg)),
        "rsa-sha2-256" => ("2.16.840.1.101.3.4.2.1", crate::sha256(msg)),
        "rsa-sha2-512" => ("2.16.840.1.101.3.4.2.3", crate::sha512(msg)),
        _ => return None,
    };
    Some(der::seq(&[der::seq(&[der::oid(oid), der::null()]), der::octets(&h)]))
}
pub fn emsa_pkcs1(label: &str, msg: &[u8], len: usize) -> Option<Vec<u8>> {
    let t = digest_info(label, msg)?;
    if len < t.len() + 11 {
        return None;
    }
    let mut em = vec![0, 1];
    em.extend(vec![0xff; len - t.len() - 3]);
    em.push(0);
    em.extend(t);
    Some(em)
}

#[derive(Clone, Debug)]
pub enum Priv {
    Ed { seed: [u8; 32] },
    Ec { c: C, d: Vec<u8> },
    Rsa(RsaPriv),
    SkEd { seed: [u8; 32], app: String },
    SkEc { d: Vec<u8>, app: String },
}
pub fn ed_pub(seed: &[u8; 32]) -> Vec<u8> {
    Ed25519KeyPair::from_seed_unchecked(seed).unwrap().public_key().as_ref().to_vec()
}
pub fn ed_sign(seed: &[u8; 32], m: &[u8]) -> Vec<u8> {
    Ed25519KeyPair::from_seed_unchecked(seed).unwrap().sign(m).as_ref().to_vec()
}
fn pub_cache(c: C, d: &[u8]) -> Vec<u8> {
    use std::collections::HashMap;
    use std::sync::{Mutex, OnceLock};
    static M: OnceLock<Mutex<HashMap<(C, Vec<u8>), Vec<u8>>>> = OnceLock::new();
    let m = M.get_or_init(|| Mutex::new(HashMap::new()));
    if let Some(v) = m.lock().unwrap().get(&(c, d.to_vec())) {
        return v.clone();
    }
    let v = ec::pubkey(&BigUint::from_bytes_be(d), c);
    m.lock().unwrap().insert((c, d.to_vec()), v.clone());
    v
}
/// ECDSA by ring: (r, s) as minimal numbers. Nonce from the (harness-owned) random source.
pub fn ring_ecdsa(c: C, d: &[u8], m: &[u8]) -> (Vec<u8>, Vec<u8>) {
    let alg = match c {
        C::P256 => &signature::ECDSA_P256_SHA256_FIXED_SIGNING,
        C::P384 => &signature::ECDSA_P384_SHA384_FIXED_SIGNING,
        _ => panic!(),
    };
    let rng = SystemRandom::new();
    let dd = ec::fixed(&BigUint::from_bytes_be(d), c.len());
    let kp = EcdsaKeyPair::from_private_key_and_public_key(alg, &dd, &pub_cache(c, d), &rng).unwrap();
    let s = kp.sign(&rng, m).unwrap();
    let s = s.as_ref();
    (strip0(&s[..c.len()]), strip0(&s[c.len()..]))
}
/// What a security key signs.
pub fn sk_payload(app: &str, flags: u8, counter: u32, msg: &[u8]) -> Vec<u8> {
    Enc::new().raw(&crate::sha256(app.as_bytes())).u8(flags).u32(counter).raw(&crate::sha256(msg)).0
}
pub fn ecdsa_inner(r: &[u8], s: &[u8]) -> Vec<u8> {
    Enc::new().mpint(r).mpint(s).0
}
impl Priv {
    pub fn public(&self) -> Pub {
        match self {
            Priv::Ed { seed } => Pub::Ed { pk: ed_pub(seed) },
            Priv::SkEd { seed, app } => Pub::SkEd { pk: ed_pub(seed), app: app.clone() },
            Priv::Ec { c, d } => Pub::Ec { c: *c, pt: pub_cache(*c, d) },
            Priv::SkEc { d, app } => Pub::SkEc { pt: pub_cache(C::P256, d), app: app.clone() },
            Priv::Rsa(r) => Pub::Rsa { e: r.e.clone(), n: r.n.clone() },
        }
    }
    /// the signature algorithm names the key may produce, the default first
    pub fn labels(&self) -> Vec<&'static str> {
        match self {
            Priv::Rsa(_) => vec!["rsa-sha2-512", "rsa-sha2-256", "ssh-rsa"],
            _ => vec![self.public().type_name()],
        }
    }
    /// SSH signature blob with the default algorithm
    pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
        self.sign_with(self.labels()[0], 1, 7, msg)
    }
    pub fn sign_with(&self, label: &str, flags: u8, counter: u32, msg: &[u8]) -> Vec<u8> {
        let (inner, tail) = self.sign_parts(label, flags, counter, msg);
        Enc::new().str(label).bytes(&inner).raw(&tail).0
    }
    /// (signature field, what follows it). The mathematics follow `label` only for RSA.
    pub fn sign_parts(&self, label: &str, flags: u8, counter: u32, msg: &[u8]) -> (Vec<u8>, Vec<u8>) {
        match self {
            Priv::Ed { seed } => (ed_sign(seed, msg), vec![]),
            Priv::SkEd { seed, app } => (ed_sign(seed, &sk_payload(app, flags, counter, msg)), Enc::new().u8(flags).u32(counter).0),
            Priv::Ec { c, d } => {
                let (r, s) = ring_ecdsa(*c, d, msg);
                (ecdsa_inner(&r, &s), vec![])
            }
            Priv::SkEc { d, app } => {
                let (r, s) = ring_ecdsa(C::P256, d, &sk_payload(app, flags, counter, msg));
                (ecdsa_inner(&r, &s), Enc::new().u8(flags).u32(counter).0)
            }
            Priv::Rsa(k) => {
                let alg: Option<&dyn signature::RsaEncoding> = match label {
                    "rsa-sha2-256" => Some(&signature::RSA_PKCS1_SHA256),
                    "rsa-sha2-512" => Some(&signature::RSA_PKCS1_SHA512),
                    _ => None,
                };
                if let (Some(alg), Ok(kp)) = (alg, RsaKeyPair::from_der(&k.der)) {
                    let mut s = vec![0; k.n.len()];
                    kp.sign(alg, &SystemRandom::new(), msg, &mut s).unwrap();
                    return (s, vec![]);
                }
                let l = if digest_info(label, msg).is_some() { label } else { "rsa-sha2-512" };
                (k.raw_sign(&emsa_pkcs1(l, msg, k.n.len()).unwrap()), vec![])
            }
        }
    }
}

fn ring_ec_verify(c: C, pt: &[u8], m: &[u8], r: &[u8], s: &[u8]) -> bool {
    let alg: &dyn signature::VerificationAlgorithm = match c {
        C::P256 => &signature::ECDSA_P256_SHA256_FIXED,
        C::P384 => &signature::ECDSA_P384_SHA384_FIXED,
        C::P521 => return false,
    };
    if r.len() > c.len() || s.len() > c.len() {
        return false;
    }
    let mut b = vec![0; c.len() - r.len()];
    b.extend_from_slice(r);
    b.extend(vec![0; c.len() - s.len()]);
    b.extend_from_slice(s);
    UnparsedPublicKey::new(alg, pt).verify(m, &b).is_ok()
}

/// Is `blob` a valid SSH signature over `msg` by `k`?
pub fn verify(k: &Pub, blob: &[u8], msg: &[u8]) -> Tri {
    verify_opt(k, blob, msg).unwrap_or(Tri::No)
}
fn verify_opt(k: &Pub, blob: &[u8], msg: &[u8]) -> Option<Tri> {
    let mut d = Dec::new(blob);
    let label = d.utf8()?;
    let mut may = false;
    let ok = match k {
        Pub::Rsa { e, n } => {
            if !["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512"].contains(&label.as_str()) {
                return None;
            }
            let s = d.bytes()?;
            let bits = BigUint::from_bytes_be(n).bits();
            if !(2048..=8192).contains(&bits) || s.len() != n.len() {
                // sizes nobody promises to support, or an unpadded signature
                may = true;
            }
            let em = emsa_pkcs1(&label, msg, n.len())?;
            if s.len() > n.len() {
                return None;
            }
            let nn = BigUint::from_bytes_be(n);
            let ee = BigUint::from_bytes_be(e);
            let x = BigUint::from_bytes_be(s);
            if nn == BigUint::from(0u8) || x >= nn || ee.bits() > 34 {
                return None;
            }
            if ee < BigUint::from(3u8) {
                may = true;
            }
            // quick refusal by ring; acceptance is recomputed from the definition
            let alg: &signature::RsaParameters = match label.as_str() {
                "rsa-sha2-256" => &signature::RSA_PKCS1_2048_8192_SHA256,
                "rsa-sha2-512" => &signature::RSA_PKCS1_2048_8192_SHA512,
                _ => &signature::RSA_PKCS1_2048_8192_SHA1_FOR_LEGACY_USE_ONLY,
            };
            if !may && (signature::RsaPublicKeyComponents { n, e }).verify(alg, msg, s).is_err() {
                return None;
            }
            x.modpow(&ee, &nn) == BigUint::from_bytes_be(&em)
        }
        Pub::Ec { c, pt } => {
            if label != k.type_name() {
                return None;
            }
            let inner = d.bytes()?;
            let mut i = Dec::new(inner);
            let (r, s) = (i.cmpint()?, i.cmpint()?);
            may |= !i.done();
            ring_ec_verify(*c, pt, msg, &r, &s)
        }
        Pub::Ed { pk } => {
            if label != "ssh-ed25519" {
                return None;
            }
            let s = d.bytes()?;
            UnparsedPublicKey::new(&signature::ED25519, pk).verify(msg, s).is_ok()
        }
        Pub::SkEd { pk, app } => {
            if label != k.type_name() {
                return None;
            }
            let s = d.bytes()?;
            let flags = d.u8()?;
            let ctr = d.u32()?;
            UnparsedPublicKey::new(&signature::ED25519, pk).verify(&sk_payload(app, flags, ctr, msg), s).is_ok()
        }
        Pub::SkEc { pt, app } => {
            if label != k.type_name() {
                return None;
            }
            let inner = d.bytes()?;
            let mut i = Dec::new(inner);
            let (r, s) = (i.cmpint()?, i.cmpint()?);
            may |= !i.done();
            let flags = d.u8()?;
            let ctr = d.u32()?;
            ring_ec_verify(C::P256, pt, &sk_payload(app, flags, ctr, msg), &r, &s)
        }
    };
    may |= !d.done();
    Some(match (ok, may) {
        (false, _) => Tri::No,
        (true, false) => Tri::Yes,
        (true, true) => Tri::May,
    })
}

pub fn seed(n: u8) -> [u8; 32] {
    let mut s = [0u8; 32];
    for (i, x) in s.iter_mut().enumerate() {
        *x = n.wrapping_mul(37).wrapping_add((i as u8).wrapping_mul(11)).wrapping_add(3);
    }
    s
}
pub fn scalar(n: u8, len: usize) -> Vec<u8> {
    let mut s = vec![0u8; len];
    for (i, x) in s.iter_mut().enumerate() {
        *x = n.wrapping_mul(53).wrapping_add((i as u8).wrapping_mul(29)).wrapping_add(17);
    }
    s[0] &= 0x7f;
    if s[0] == 0 {
        s[0] = 0x5a;
    }
    s
}
macro_rules! fx {
    ($f:expr) => {
        RsaPriv::from_pkcs1(include_bytes!(concat!("../../harness/fixtures/", $f)))
    };
}
pub fn rsa(name: &str) -> RsaPriv {
    match name {
        "1024" => fx!("rsa1024.der"),
        "2048" => fx!("rsa2048.der"),
        "2048e3" => fx!("rsa2048e3.der"),
        "3072" => fx!("rsa3072.der"),
        "4096" => fx!("rsa4096.der"),
        "8192" => fx!("rsa8192.der"),
        _ => panic!(),
    }
}
/// One software or hardware-backed signing key of every kind that can sign, in a fixed order.
pub fn signers(apps: &str) -> Vec<(&'static str, Priv)> {
    vec![
        ("ed25519", Priv::Ed { seed: seed(1) }),
        ("p256", Priv::Ec { c: C::P256, d: scalar(1, 32) }),
        ("p384", Priv::Ec { c: C::P384, d: scalar(2, 48) }),
        ("rsa2048", Priv::Rsa(rsa("2048"))),
        ("sk-ed25519", Priv::SkEd { seed: seed(3), app: apps.into() }),
        ("sk-p256", Priv::SkEc { d: scalar(4, 32), app: apps.into() }),
    ]
}
/// A second key of each kind
pub fn signers2(apps: &str) -> Vec<(&'static str, Priv)> {
    vec![
        ("ed25519#2", Priv::Ed { seed: seed(11) }),
        ("p256#2", Priv::Ec { c: C::P256, d: scalar(12, 32) }),
        ("p384#2", Priv::Ec { c: C::P384, d: scalar(13, 48) }),
        ("rsa2048e3", Priv::Rsa(rsa("2048e3"))),
        ("sk-ed25519#2", Priv::SkEd { seed: seed(14), app: apps.into() }),
        ("sk-p256#2", Priv::SkEc { d: scalar(15, 32), app: apps.into() }),
    ]
}
/// A P-521 public key (no arithmetic needed: it is only ever a subject).
pub fn p521_pub() -> Pub {
    let mut pt = vec![4];
    for i in 0..132u32 {
        pt.push((i * 7 + 1) as u8);
    }
    pt[1] = 0;
    pt[67] = 1;
    Pub::Ec { c: C::P521, pt }
}
/// One public key of every type
pub fn subjects(app: &str) -> Vec<Pub> {
    let mut v: Vec<Pub> = signers2(app).into_iter().map(|(_, k)| k.public()).collect();
    v.push(p521_pub());
    v
}
