//! Observation: values of the crate under test, as values of the reference model.
use crate::engine::impl_broken;
use refm::ec::C;
use refm::keys::Pub;
use sshcerts::ssh::*;

/// None: the value is inconsistent in itself (type and kind disagree).
pub fn pubkey(k: &PublicKey) -> Option<Pub> {
    Some(match &k.kind {
        PublicKeyKind::Rsa(r) => {
            if !["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512"].contains(&k.key_type.name) {
                return None;
            }
            Pub::Rsa { e: r.e.clone(), n: r.n.clone() }
        }
        PublicKeyKind::Ecdsa(e) => {
            let c = match (&e.curve.kind, e.curve.identifier) {
                (CurveKind::Nistp256, "nistp256") => C::P256,
                (CurveKind::Nistp384, "nistp384") => C::P384,
                (CurveKind::Nistp521, "nistp521") => C::P521,
                _ => return None,
            };
            match (&e.sk_application, k.key_type.name) {
                (Some(a), "sk-ecdsa-sha2-nistp256@openssh.com") if c == C::P256 => Pub::SkEc { pt: e.key.clone(), app: a.clone() },
                (None, n) if n == Pub::Ec { c, pt: vec![] }.type_name() => Pub::Ec { c, pt: e.key.clone() },
                _ => return None,
            }
        }
        PublicKeyKind::Ed25519(e) => match (&e.sk_application, k.key_type.name) {
            (Some(a), "sk-ssh-ed25519@openssh.com") => Pub::SkEd { pk: e.key.clone(), app: a.clone() },
            (None, "ssh-ed25519") => Pub::Ed { pk: e.key.clone() },
            _ => return None,
        },
    })
}

/// A value of the crate under test for a reference key, built field by field (no parsing).
pub fn to_pubkey(k: &Pub) -> PublicKey {
    let key_type = KeyType::from_name(k.type_name()).unwrap_or_else(|_| impl_broken(k.type_name()));
    let kind = match k {
        Pub::Rsa { e, n } => PublicKeyKind::Rsa(RsaPublicKey { e: e.clone(), n: n.clone() }),
        Pub::Ec { c, pt } => PublicKeyKind::Ecdsa(EcdsaPublicKey { curve: Curve::from_identifier(c.id()).unwrap_or_else(|_| impl_broken("curve")), key: pt.clone(), sk_application: None }),
        Pub::SkEc { pt, app } => {
            PublicKeyKind::Ecdsa(EcdsaPublicKey { curve: Curve::from_identifier("nistp256").unwrap_or_else(|_| impl_broken("curve")), key: pt.clone(), sk_application: Some(app.clone()) })
        }
        Pub::Ed { pk } => PublicKeyKind::Ed25519(Ed25519PublicKey { key: pk.clone(), sk_application: None }),
        Pub::SkEd { pk, app } => PublicKeyKind::Ed25519(Ed25519PublicKey { key: pk.clone(), sk_application: Some(app.clone()) }),
    };
    PublicKey { key_type, kind, comment: None }
}

/// None: the value contradicts itself.
pub fn cert(c: &Certificate) -> Option<refm::cert::Cert> {
    let sorted = |m: &std::collections::HashMap<String, String>| {
        let mut v: Vec<(String, String)> = m.iter().map(|(a, b)| (a.clone(), b.clone())).collect();
        v.sort();
        v
    };
    Some(refm::cert::Cert {
        ty: c.key_type.name.to_string(),
        nonce: c.nonce.clone(),
        key: pubkey(&c.key)?,
        serial: c.serial,
        cert_type: match c.cert_type {
            CertType::User => 1,
            CertType::Host => 2,
        },
        key_id: c.key_id.clone(),
        principals: c.principals.clone(),
        valid_after: c.valid_after,
        valid_before: c.valid_before,
        critical: sorted(&c.critical_options),
        extensions: sorted(&c.extensions),
        reserved: c.reserved.clone(),
        ca: pubkey(&c.signature_key)?,
    })
}

/// A private key of the crate under test for a reference key, built field by field (no parsing).
pub fn to_privkey(k: &refm::keys::Priv) -> PrivateKey {
    to_privkey_with(k, &refm::privkey::SkExtra { flags: 1, handle: vec![0xaa; 64], reserved: vec![] }, 0x01020304, "c")
}
pub fn to_privkey_with(k: &refm::keys::Priv, sk: &refm::privkey::SkExtra, magic: u32, comment: &str) -> PrivateKey {
    use num_bigint::BigUint;
    use refm::keys::Priv;
    let pubkey = to_pubkey(&k.public());
    let kind = match k {
        Priv::Ed { seed } => {
            let mut key = seed.to_vec();
            key.extend(refm::keys::ed_pub(seed));
            PrivateKeyKind::Ed25519(Ed25519PrivateKey { key })
        }
        Priv::Ec { c, d } => PrivateKeyKind::Ecdsa(EcdsaPrivateKey { curve: Curve::from_identifier(c.id()).unwrap_or_else(|_| impl_broken("curve")), key: refm::wire::mpint_body(d) }),
        Priv::Rsa(r) => {
            let modp = |p: &[u8]| (BigUint::from_bytes_be(&r.d) % (BigUint::from_bytes_be(p) - 1u8)).to_bytes_be();
            PrivateKeyKind::Rsa(RsaPrivateKey {
                n: r.n.clone(),
                e: r.e.clone(),
                d: r.d.clone(),
                coefficient: r.iqmp.clone(),
                p: r.p.clone(),
                q: r.q.clone(),
                exp: Some(modp(&r.p)),
                exq: Some(modp(&r.q)),
            })
        }
        Priv::SkEd { .. } => PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey { flags: sk.flags, handle: sk.handle.clone(), reserved: sk.reserved.clone(), pin: None, device_path: None }),
        Priv::SkEc { .. } => PrivateKeyKind::EcdsaSk(EcdsaSkPrivateKey { flags: sk.flags, handle: sk.handle.clone(), reserved: sk.reserved.clone(), pin: None, device_path: None }),
    };
    PrivateKey { key_type: pubkey.key_type.clone(), kind, pubkey, magic, comment: comment.into() }
}

/// None: the value contradicts itself.
pub fn privkey(k: &PrivateKey) -> Option<refm::privkey::Opened> {
    use refm::privkey::{Opened, Secret, SkExtra};
    let public = pubkey(&k.pubkey)?;
    if k.key_type != k.pubkey.key_type {
        return None;
    }
    let secret = match (&k.kind, &public) {
        (PrivateKeyKind::Rsa(r), Pub::Rsa { e, n }) if r.n == *n && r.e == *e => {
            Secret::Rsa { d: r.d.clone(), iqmp: r.coefficient.clone(), p: r.p.clone(), q: r.q.clone() }
        }
        (PrivateKeyKind::Ecdsa(r), Pub::Ec { c, .. }) if r.curve.identifier == c.id() => Secret::Ec(r.key.clone()),
        (PrivateKeyKind::Ed25519(r), Pub::Ed { .. }) => Secret::Ed(r.key.clone()),
        (PrivateKeyKind::Ed25519Sk(r), Pub::SkEd { .. }) => Secret::Sk(SkExtra { flags: r.flags, handle: r.handle.clone(), reserved: r.reserved.clone() }),
        (PrivateKeyKind::EcdsaSk(r), Pub::SkEc { .. }) => Secret::Sk(SkExtra { flags: r.flags, handle: r.handle.clone(), reserved: r.reserved.clone() }),
        _ => return None,
    };
    Some(Opened { public, secret, check: k.magic, comment: k.comment.clone() })
}
