//! Calls of the crate as data: compiled into the explorer (all features) and into builds with fewer features.
use sshcerts::ssh::*;

pub type Answer = Result<String, String>;
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn bad<E: std::fmt::Debug>(e: E) -> String {
    format!("{:?}", e)
}
fn text(b: &[u8]) -> Result<&str, String> {
    std::str::from_utf8(b).map_err(bad)
}
fn key(k: &PublicKey) -> String {
    let mut w = vec![];
    let _ = k.write(&mut w);
    let f = [FingerprintKind::Sha256, FingerprintKind::Sha384, FingerprintKind::Sha512].map(|f| k.fingerprint_with(f).to_string()).join(" ");
    format!("{:?} {} bits {} {} {} [{}]", k, k.bits(), hex(&k.encode()), k.fingerprint(), f, String::from_utf8_lossy(&w))
}
fn sorted(m: &std::collections::HashMap<String, String>) -> Vec<(&String, &String)> {
    let mut v: Vec<_> = m.iter().collect();
    v.sort();
    v
}
fn fields(c: &Certificate) -> String {
    format!(
        "{:?} serial {} {:?} id {:?} {:?} {}..{} {:?} {:?} reserved {} comment {:?}\n key {}\n ca {}",
        c.key_type, c.serial, c.cert_type, c.key_id, c.principals, c.valid_after, c.valid_before, sorted(&c.critical_options), sorted(&c.extensions), hex(&c.reserved), c.comment, key(&c.key), key(&c.signature_key)
    )
}
fn cert(c: &Certificate) -> String {
    let mut report: Vec<String> = format!("{:#}", c).lines().map(String::from).collect();
    report.sort();
    format!("{}\n nonce {} signature {} all {} text {} report {:?}", fields(c), hex(&c.nonce), hex(&c.signature), hex(&c.serialized), c, report)
}
fn private(k: &PrivateKey) -> String {
    let mut w = vec![];
    let _ = k.write(&mut w);
    // the two derived exponents of an RSA key are there only where it can sign
    let parts = match &k.kind {
        PrivateKeyKind::Rsa(r) => format!("rsa n {} e {} d {} c {} p {} q {}", hex(&r.n), hex(&r.e), hex(&r.d), hex(&r.coefficient), hex(&r.p), hex(&r.q)),
        PrivateKeyKind::Ecdsa(e) => format!("ecdsa {:?} {}", e.curve.kind, hex(&e.key)),
        PrivateKeyKind::Ed25519(e) => format!("ed25519 {}", hex(&e.key)),
        PrivateKeyKind::EcdsaSk(s) => format!("ecdsa-sk {} {} {} {:?} {:?}", s.flags, hex(&s.handle), hex(&s.reserved), s.pin, s.device_path),
        PrivateKeyKind::Ed25519Sk(s) => format!("ed25519-sk {} {} {} {:?} {:?}", s.flags, hex(&s.handle), hex(&s.reserved), s.pin, s.device_path),
    };
    format!("{:?} {} {} magic {} comment {:?} {} {} [{}]", k.key_type, parts, key(&k.pubkey), k.magic, k.comment, hex(&k.encode()), k, String::from_utf8_lossy(&w))
}
fn open(t: &[u8], pass: Option<&Vec<u8>>) -> Result<PrivateKey, String> {
    let p = match pass {
        Some(p) => Some(text(p)?.to_string()),
        None => None,
    };
    PrivateKey::from_string_with_passphrase(text(t)?, p).map_err(bad)
}
/// ECDSA signatures differ from call to call.
fn fixed(k: &PublicKey) -> bool {
    !matches!(k.kind, PublicKeyKind::Ecdsa(_))
}
fn create(k: PrivateKey, m: &[u8], ns: &str, h: Option<HashAlgorithm>) -> Answer {
    let p = k.pubkey.clone();
    let v = VerifiedSshSignature::new_with_private_key(m, ns, k, h).map_err(bad)?;
    let t = v.to_string();
    let again = VerifiedSshSignature::from_ssh_signature(m, SshSignature::from_armored_string(&t).map_err(bad)?, ns, Some(p.clone())).map(|v| (v.signature.namespace.clone(), hex(&v.message))).map_err(bad);
    let other = VerifiedSshSignature::from_ssh_signature(b"another message", SshSignature::from_armored_string(&t).map_err(bad)?, ns, Some(p.clone())).is_ok();
    Ok(format!("{} verifies {:?}, for another message {}", if fixed(&p) { t } else { String::new() }, again, other))
}
pub fn run(op: &str, a: &[Vec<u8>]) -> Answer {
    match op {
        "public key text" => PublicKey::from_string(text(&a[0])?).map(|k| key(&k)).map_err(bad),
        "public key bytes" => PublicKey::from_bytes(&a[0]).map(|k| key(&k)).map_err(bad),
        "certificate text" => Certificate::from_string(text(&a[0])?).map(|c| cert(&c)).map_err(bad),
        "certificate bytes" => Certificate::from_bytes(&a[0]).map(|c| cert(&c)).map_err(bad),
        "private key" => open(&a[0], a.get(1)).map(|k| private(&k)),
        "private key bytes" => PrivateKey::from_bytes(&a[0]).map(|k| private(&k)).map_err(bad),
        // key, message, passphrase
        "sign" => {
            let k = open(&a[0], a.get(2))?;
            let s = k.sign(&a[1]).ok_or("no signature")?;
            Ok(if fixed(&k.pubkey) { hex(&s) } else { "a signature".into() })
        }
        // key, message, namespace, hash, passphrase
        "create" => create(open(&a[0], a.get(4))?, &a[1], text(&a[2])?, [None, Some(HashAlgorithm::Sha256), Some(HashAlgorithm::Sha512)][a[3][0] as usize].take()),
        // armor, message, namespace, key
        "verify" => {
            let s = SshSignature::from_armored_string(text(&a[0])?).map_err(bad)?;
            let k = match a.get(3) {
                Some(k) => Some(PublicKey::from_string(text(k)?).map_err(bad)?),
                None => None,
            };
            VerifiedSshSignature::from_ssh_signature(&a[1], s, text(&a[2])?, k).map(|v| format!("{} {} {} {}", v, v.signature.namespace, hex(&v.message), key(&v.signature.pubkey))).map_err(bad)
        }
        "armor" => SshSignature::from_armored_string(text(&a[0])?).map(|s| format!("{} {} {}", s, s.namespace, key(&s.pubkey))).map_err(bad),
        // subject, authority, kind, value, passphrase of the authority
        "issue" => {
            let ca = open(&a[1], a.get(4))?;
            let s = PublicKey::from_string(text(&a[0])?).map_err(bad)?;
            let t = text(&a[3])?;
            let b = Certificate::builder(&s, if a[2][0] == 0 { CertType::User } else { CertType::Host }, &ca.pubkey).map_err(bad)?;
            let b = b.serial(7).key_id(t).principal(t).principal("second").valid_after(3).valid_before(u64::MAX).critical_option("force-command", t).set_extensions(Certificate::standard_extensions()).comment("c");
            let c = b.sign(&ca).map_err(bad)?;
            let p = Certificate::from_string(&c.to_string()).map_err(|e| format!("not accepted: {:?}", e));
            let mut cut = c.serialized.clone();
            let i = cut.len() / 3;
            cut[i] ^= 1;
            Ok(format!("{}\n parsed {:?}\n changed {}", fields(&c), p.map(|p| fields(&p)), Certificate::from_bytes(&cut).is_ok()))
        }
        // authority without a private key at hand: the signature is given
        "add signature" => {
            let s = PublicKey::from_string(text(&a[0])?).map_err(bad)?;
            let b = Certificate::builder(&s, CertType::User, &s).map_err(bad)?;
            b.add_signature(&a[1]).map(|c| cert(&c)).map_err(bad)
        }
        "new key" => {
            let kinds = [KeyTypeKind::Ed25519, KeyTypeKind::Ecdsa, KeyTypeKind::Rsa, KeyTypeKind::Ed25519Cert, KeyTypeKind::EcdsaCert, KeyTypeKind::RsaCert];
            let k = PrivateKey::new(kinds[a[0][0] as usize].clone(), text(&a[1])?).map_err(bad)?;
            let again = PrivateKey::from_string(&k.to_string()).map_err(bad)?;
            let head = format!("{:?} comment {:?} the same after printing {}", k.key_type, k.comment, again.encode() == k.encode());
            Ok(format!("{} {}", head, create(k, b"m", "file", None).is_ok()))
        }
        "allowed signer" => AllowedSigner::from_string(text(&a[0])?).map(|s| format!("{:?} {}", s, s)).map_err(bad),
        "allowed signers" => AllowedSigners::from_string(text(&a[0])?).map(|s| format!("{:?}", s)).map_err(bad),
        // key, DER signature
        "convert" => {
            let k = PublicKey::from_string(text(&a[0])?).map_err(bad)?;
            sshcerts::utils::format_signature_for_ssh(&k, &a[1]).map(|s| hex(&s)).ok_or("none".into())
        }
        "wire" => {
            let mut r = Reader::new(&a[0]);
            let mut o = vec![];
            for c in &a[1] {
                o.push(match c % 6 {
                    0 => format!("{:?}", r.read_string().ok()),
                    1 => format!("{:?}", r.read_bytes().ok()),
                    2 => format!("{:?}", r.read_positive_mpint().ok()),
                    3 => format!("{:?}", r.read_u32().ok()),
                    4 => format!("{:?}", r.read_u64().ok()),
                    _ => format!("{:?}", r.read_cstring().ok()),
                });
                o.push(r.get_offset().to_string());
            }
            let mut w = Writer::new();
            w.write_bytes(&a[0]);
            w.write_mpint(&a[0]);
            w.write_u64(a[0].len() as u64);
            Ok(format!("{:?} {}", o, hex(w.as_bytes())))
        }
        "key type" => KeyType::from_name(text(&a[0])?).map(|k| format!("{:?} {}", k, k)).map_err(bad),
        #[cfg(feature = "x509")]
        "DER key" => sshcerts::x509::der_encoding_to_ssh_public_key(&a[0]).map(|k| key(&k)).map_err(bad),
        #[cfg(feature = "x509")]
        "X.509 request" => sshcerts::x509::extract_ssh_pubkey_from_x509_csr(&a[0]).map(|k| key(&k)).map_err(bad),
        #[cfg(feature = "x509")]
        "X.509 certificate" => sshcerts::x509::extract_ssh_pubkey_from_x509_certificate(&a[0]).map(|k| key(&k)).map_err(bad),
        // client, intermediate, root
        #[cfg(feature = "piv")]
        "PIV attestation" => {
            let r = match a.get(2) {
                Some(r) => Some(text(r)?),
                None => None,
            };
            sshcerts::yubikey::verification::verify_certificate_chain(&a[0], &a[1], r).map(|v| format!("{} {} {} {} {}", key(&v.public_key), v.firmware, v.serial, v.pin_policy, v.touch_policy)).map_err(bad)
        }
        // data, signature, challenge, algorithm, certificate, root
        #[cfg(feature = "fido")]
        "FIDO attestation" => {
            let r = match a.get(5) {
                Some(r) => Some(text(r)?),
                None => None,
            };
            let alg = i32::from_be_bytes([a[3][0], a[3][1], a[3][2], a[3][3]]);
            let v = sshcerts::fido::verification::verify_auth_data(&a[0], &a[1], &a[2], alg, &a[4], r).map_err(bad)?;
            Ok(format!("{:?} {:?} {:?} {:?}", v.firmware, v.aaguid, v.transports, v.auth_data.ssh_public_key("ssh:").map(|k| key(&k)).map_err(bad)))
        }
        _ => panic!("no call {}", op),
    }
}
