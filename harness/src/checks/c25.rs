//! What a call returns depends on its arguments and the random bytes it draws alone, not on what was called before
//! it or on which thread. Every history runs in a process of its own, forked before any code under test has run.
use super::c05::{Fixed, RefSigner};
use super::*;
use crate::conv;
use crate::engine::*;
use crate::interpose::rng_reset;
use refm::cert::Cert;
use refm::der::ecdsa_sig;
use refm::ec::C;
use refm::keys::{self, Priv};
use refm::privkey::File;
use refm::sshsig;
use refm::x509::{self, ext, Tbs};
use sshcerts::fido::verification::verify_auth_data;
use sshcerts::fido::AuthData;
use sshcerts::ssh::*;
use sshcerts::x509::*;
use sshcerts::yubikey::verification::verify_certificate_chain;
use std::io::{Read, Write};
use std::os::unix::io::FromRawFd;
use std::panic::{catch_unwind, AssertUnwindSafe};

type Call = Box<dyn Fn() -> String + Send + Sync>;
struct Entry {
    family: usize,
    name: String,
    call: Call,
}
fn show_key(k: &PublicKey) -> String {
    format!("{:?} {:?} {} {} {}", conv::pubkey(k), k.comment, hex(&k.encode()), k.fingerprint().hash, k)
}
fn show_cert(c: Certificate) -> String {
    // options are reported in no particular order
    let mut report: Vec<String> = format!("{:#}", c).lines().map(String::from).collect();
    report.sort();
    format!("{:?} comment {:?} signature {} serialized {} text {} report {:?}", conv::cert(&c), c.comment, hex(&c.signature), hex(&c.serialized), c, report)
}
fn show_priv(k: PrivateKey) -> String {
    format!("{:?} {} {}", conv::privkey(&k), hex(&k.encode()), k)
}
fn res<T, E: std::fmt::Debug>(r: Result<T, E>, f: impl FnOnce(T) -> String) -> String {
    match r {
        Ok(v) => f(v),
        Err(e) => format!("error {:?}", e),
    }
}
fn p256(n: u8) -> Priv {
    Priv::Ec { c: C::P256, d: keys::scalar(n, 32) }
}

fn catalogue() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    let mut add = |family: usize, name: String, call: Call| v.push(Entry { family, name, call });
    let ed = Priv::Ed { seed: keys::seed(4) };
    let rsa = Priv::Rsa(keys::rsa("2048"));
    let sk = Priv::SkEd { seed: keys::seed(9), app: "ssh:".into() };
    let subj = keys::subjects("ssh:");
    // 0: certificates
    for (ca_name, ca) in [("ed25519", &ed), ("p256", &p256(3)), ("rsa", &rsa), ("sk", &sk)] {
        let mut c = Cert::plain(subj[0].clone(), ca.public());
        c.serial = 7;
        c.principals = vec!["alice".into(), "bob".into()];
        let good = c.issue(ca);
        let mut d = c.clone();
        d.serial = 8;
        d.principals = vec!["root".into()];
        let other = d.issue(ca);
        // the same signature under other contents
        let (sig, sig2) = (ca.sign(&c.tbs()), ca.sign(&d.tbs()));
        let forged = refm::cert::sealed(&d.tbs(), &sig);
        let forged2 = refm::cert::sealed(&c.tbs(), &sig2);
        let mut e = c.clone();
        e.ca = p256(5).public();
        let other_ca = refm::cert::sealed(&e.tbs(), &sig);
        let mut cut = good.clone();
        cut.pop();
        let mut list = vec![("genuine", good.clone()), ("another", other), ("other contents, same signature", forged), ("same contents, other signature", forged2)];
        if ca_name == "ed25519" {
            list.push(("another CA named", other_ca));
            list.push(("cut", cut));
            for k in [1, 3, 6] {
                list.push(("of another key type", Cert::plain(subj[k].clone(), ca.public()).issue(ca)));
            }
        }
        for (n, b) in list {
            let t = format!("{} {} c", refm::keys::cert_name_of(subj[0].type_name()), base64::encode(&b));
            if n == "genuine" {
                add(0, format!("Certificate::from_string {} {}", ca_name, n), Box::new(move || res(Certificate::from_string(&t), show_cert)));
            }
            add(0, format!("Certificate::from_bytes {} {}", ca_name, n), Box::new(move || res(Certificate::from_bytes(&b), show_cert)));
        }
    }
    // 1: public keys
    for (i, k) in subj.iter().enumerate() {
        let t = k.openssh(if i % 2 == 0 { Some("me@home") } else { None });
        let k2 = k.clone();
        add(1, format!("PublicKey::from_string {}", k.type_name()), Box::new(move || res(PublicKey::from_string(&t), |k| show_key(&k))));
        add(1, format!("encode {}", k.type_name()), Box::new(move || show_key(&conv::to_pubkey(&k2))));
    }
    let enc = subj[0].encode();
    for n in ["ssh-rsa", "sk-ssh-ed25519@openssh.com", "ssh-dss"] {
        let t = format!("{} {}", n, base64::encode(&enc));
        add(1, format!("PublicKey::from_string {} stated as {}", subj[0].type_name(), n), Box::new(move || res(PublicKey::from_string(&t), |k| show_key(&k))));
    }
    let half = enc[..20].to_vec();
    add(1, "PublicKey::from_bytes cut".into(), Box::new(move || res(PublicKey::from_bytes(&half), |k| show_key(&k))));
    let e2 = enc.clone();
    add(1, "fingerprints".into(), Box::new(move || res(PublicKey::from_bytes(&e2), |k| [FingerprintKind::Sha256, FingerprintKind::Sha384, FingerprintKind::Sha512].map(|f| k.fingerprint_with(f).to_string()).join(" "))));
    // 2: private keys
    let skx = super::c10::sk0();
    for (n, k) in [("ed25519", ed.clone()), ("p256", p256(3)), ("p384", Priv::Ec { c: C::P384, d: keys::scalar(3, 48) }), ("rsa", rsa.clone()), ("sk", sk.clone())] {
        let f = File::plain(&k, &skx, 0x11223344, "comment");
        let t = refm::privkey::armor(&f.encode(), 70);
        add(2, format!("PrivateKey::from_string {}", n), Box::new(move || res(PrivateKey::from_string(&t), show_priv)));
        if n == "ed25519" || n == "p256" {
            let t = refm::privkey::armor(&f.encrypt(b"pw", &fill(16, 3), 1), 70);
            for p in [Some("pw"), Some("px"), None] {
                let t = t.clone();
                add(2, format!("PrivateKey::from_string_with_passphrase {} {:?}", n, p), Box::new(move || res(PrivateKey::from_string_with_passphrase(&t, p.map(String::from)), show_priv)));
            }
        }
        if n != "sk" {
            for m in [&b"message"[..], b"another message"] {
                let k = k.clone();
                add(2, format!("sign {} {:?}", n, String::from_utf8_lossy(m)), Box::new(move || {
                    rng_reset(5);
                    format!("{:?}", conv::to_privkey(&k).sign(m).map(|s| hex(&s)))
                }));
            }
        }
    }
    for (c, seed) in [("", 5), ("comment", 5), ("comment", 6)] {
        add(2, format!("PrivateKey::new {:?}, random stream {}", c, seed), Box::new(move || {
            rng_reset(seed);
            res(PrivateKey::new(KeyTypeKind::Ed25519, c), show_priv)
        }));
    }
    // 3: detached signatures
    for (n, k) in [("ed25519", ed.clone()), ("p256", p256(3)), ("rsa", rsa.clone()), ("sk", sk.clone())] {
        let blob = sshsig::make(&k, "file", "sha512", b"message");
        let blob2 = sshsig::make(&k, "git", "sha256", b"other");
        // the signature of one file in the clothes of another
        let swapped = sshsig::blob(&k.public().encode(), b"git", b"", b"sha512", &sshsig::parse(&blob).1.map(|s| s.sig).unwrap_or_default());
        for (what, b, m, ns, key) in [
            ("genuine", &blob, &b"message"[..], "file", None),
            ("genuine, expected key", &blob, b"message", "file", Some(k.public())),
            ("other expected key", &blob, b"message", "file", Some(subj[0].clone())),
            ("other message", &blob, b"messagf", "file", None),
            ("other namespace", &blob, b"message", "git", None),
            ("namespace changed", &swapped, b"message", "git", None),
            ("another", &blob2, b"other", "git", None),
            ("another, wrong message", &blob2, b"message", "git", None),
        ] {
            if n != "ed25519" && (what.contains("key") || what == "another, wrong message") {
                continue;
            }
            let t = sshsig::armor(b, 76);
            let (m, ns) = (m.to_vec(), ns.to_string());
            add(3, format!("verify {} {}", n, what), Box::new(move || {
                res(SshSignature::from_armored_string(&t), |s| {
                    res(VerifiedSshSignature::from_ssh_signature(&m, s, &ns, key.as_ref().map(conv::to_pubkey)), |v| format!("{} {} {}", hex(&v.message), v.signature.namespace, v.signature))
                })
            }));
        }
        if n != "sk" {
            add(3, format!("create {}", n), Box::new(move || {
                rng_reset(5);
                res(VerifiedSshSignature::new_with_private_key(b"message", "file", conv::to_privkey(&k), None), |v| v.to_string())
            }));
        }
    }
    // 4: allowed signers
    let kt = subj[0].openssh(None);
    let kt2 = subj[1].openssh(None);
    for l in [
        format!("a,b {}", kt),
        format!("a,b cert-authority {}", kt),
        format!("c namespaces=\"x,y\" valid-after=\"20240101Z\" {}", kt2),
        format!("c namespaces=\"z\" valid-before=\"20240101\" {}", kt),
        format!("d valid-after=20240102,valid-before=20240101 {}", kt),
        format!("\"a b\" {} comment", kt),
        format!("\"a {}", kt),
        kt.clone(),
    ] {
        let l2 = l.clone();
        add(4, format!("AllowedSigner {}", l.chars().take(40).collect::<String>()), Box::new(move || res(AllowedSigner::from_string(&l2), |a| format!("{:?}", a))));
        add(4, format!("AllowedSigners {}", l.chars().take(40).collect::<String>()), Box::new(move || res(AllowedSigners::from_string(&format!("# x\n\nz {}\n{}\n", kt_of(&l), l)), |a| format!("{:?}", a))));
    }
    // 5: X.509, attestations
    let spkis: Vec<Vec<u8>> = [p256(3), Priv::Ec { c: C::P384, d: keys::scalar(3, 48) }, ed.clone()].iter().map(|k| x509::spki(&k.public())).collect();
    for (i, s) in spkis.into_iter().enumerate() {
        let c = x509::csr("s", &s, &p256(3));
        add(5, format!("DER key {}", i), Box::new(move || res(der_encoding_to_ssh_public_key(&s), |k| show_key(&k))));
        add(5, format!("CSR {}", i), Box::new(move || res(extract_ssh_pubkey_from_x509_csr(&c), |k| show_key(&k))));
    }
    for i in 0..2u8 {
        let c = Tbs::new("i", "s", &p256(3 + i).public(), &p256(9), vec![ext("1.2.3", true, &[5, 0])]).sign(&p256(9));
        add(5, format!("X.509 certificate {}", i), Box::new(move || res(extract_ssh_pubkey_from_x509_certificate(&c), |k| show_key(&k))));
    }
    let ch = super::c18::Chain { root: p256(1), inter: p256(2), leaf: super::c18::leaf256(), exts: super::c18::std_exts() };
    let ch2 = super::c18::Chain { root: p256(11), inter: p256(12), leaf: p256(13).public(), exts: super::c18::std_exts() };
    let mut bad = ch.client_cert();
    let at = bad.len() / 2;
    bad[at] ^= 1;
    for (n, c, i, r) in [
        ("genuine", ch.client_cert(), ch.inter_cert(), Some(ch.root_pem())),
        ("another", ch2.client_cert(), ch2.inter_cert(), Some(ch2.root_pem())),
        ("other root", ch.client_cert(), ch.inter_cert(), Some(ch2.root_pem())),
        ("default root", ch.client_cert(), ch.inter_cert(), None),
        ("other client", ch2.client_cert(), ch.inter_cert(), Some(ch.root_pem())),
        ("changed client", bad, ch.inter_cert(), Some(ch.root_pem())),
        ("recorded", include_bytes!("../../fixtures/piv_client.der").to_vec(), include_bytes!("../../fixtures/piv_inter.der").to_vec(), None),
    ] {
        add(5, format!("PIV attestation {}", n), Box::new(move || res(verify_certificate_chain(&c, &i, r.as_deref()), |v| format!("{} {} {} {} {}", show_key(&v.public_key), v.firmware, v.serial, v.pin_policy, v.touch_policy))));
    }
    let att = super::c19::attest(&p256(1), &p256(2), super::c19::std_exts(), super::c19::std_auth(), fill(32, 8));
    let att2 = super::c19::attest(&p256(11), &p256(2), super::c19::std_exts(), super::c19::std_auth(), fill(32, 9));
    let mut o1 = att.clone();
    o1.chal = fill(32, 9);
    let mut o2 = att.clone();
    o2.root = att2.root.clone();
    let mut o3 = att.clone();
    o3.auth[33] ^= 1;
    let mut o4 = att.clone();
    o4.root = None;
    let mut o5 = att.clone();
    o5.cert = att2.cert.clone();
    for (n, a) in [("genuine", att.clone()), ("another", att2), ("other challenge", o1), ("other root", o2), ("changed data", o3), ("default root", o4), ("other certificate", o5)] {
        add(5, format!("FIDO attestation {}", n), Box::new(move || {
            res(verify_auth_data(&a.auth, &a.sig, &a.chal, a.alg, &a.cert, a.root.as_deref()), |v| {
                format!("{:?} {:?} {:?} {}", v.firmware, v.aaguid, v.transports, res(v.auth_data.ssh_public_key("ssh:"), |k| show_key(&k)))
            })
        }));
    }
    for n in [att.auth.len(), 60] {
        let a = att.auth[..n].to_vec();
        add(5, format!("AuthData of {} bytes", n), Box::new(move || res(AuthData::parse(&a), |a| format!("{} {} {} {}", hex(&a.rpid_hash), a.flags, a.sign_count, hex(&a.credential_id)))));
    }
    // 6: builders, wire, conversion
    for (n, key, ca, seed) in [("a", 0, &ed, 5), ("b", 1, &ed, 5), ("c", 0, &p256(3), 6)] {
        let (key, ca) = (subj[key].clone(), ca.clone());
        for (sn, bad) in [("signed", false), ("signer refuses", true)] {
            let (key, ca) = (key.clone(), ca.clone());
            add(6, format!("builder {} {}", n, sn), Box::new(move || {
                rng_reset(seed);
                res(Certificate::builder(&conv::to_pubkey(&key), CertType::User, &conv::to_pubkey(&ca.public())), |b| {
                    let b = b.key_id("id").principal("p").extension("x", "").critical_option("force-command", "c").valid_after(3).valid_before(99);
                    let tbs = hex(&b.tbs_certificate());
                    let s = crate::interpose::off_record(|| if bad { b.sign(&Fixed(None)) } else if matches!(ca, Priv::Ed { .. }) { b.sign(&RefSigner(&ca, Default::default())) } else { b.sign(&Fixed(Some(vec![1, 2]))) });
                    format!("{} {}", tbs, res(s, show_cert))
                })
            }));
        }
    }
    for (n, b) in [("string", vec![0, 0, 0, 2, 0x61, 0x62, 0, 0, 0, 1, 0x80]), ("short", vec![0, 0, 0, 9, 1]), ("empty", vec![])] {
        add(6, format!("Reader {}", n), Box::new(move || {
            let mut r = Reader::new(&b);
            format!("{:?} {:?} {} {:?}", r.read_string().ok(), r.read_positive_mpint().ok(), r.get_offset(), r.read_u64().ok())
        }));
    }
    add(6, "Writer".into(), Box::new(|| {
        let mut w = Writer::new();
        w.write_string("a");
        w.write_mpint(&[0x80]);
        w.write_u32(1);
        w.write_string_vec(&["x".to_string(), "".to_string()]);
        hex(w.as_bytes())
    }));
    for (l, c) in [(32, C::P256), (31, C::P256), (48, C::P384)] {
        let d = ecdsa_sig(&fill(l, 129), &fill(l, 3));
        let k = Priv::Ec { c, d: keys::scalar(3, c.len()) }.public();
        add(6, format!("format_signature_for_ssh {} bytes", l), Box::new(move || format!("{:?}", sshcerts::utils::format_signature_for_ssh(&conv::to_pubkey(&k), &d).map(|x| hex(&x)))));
    }
    v
}
/// Calls with unusual, mostly broken arguments: what they leave behind must not show later.
fn odd() -> Vec<Entry> {
    let mut v: Vec<Entry> = vec![];
    let mut add = |family: usize, name: String, call: Call| v.push(Entry { family, name, call });
    let ed = Priv::Ed { seed: keys::seed(4) };
    let ec = p256(3);
    let subj = keys::subjects("ssh:");
    let variants = |b: &[u8]| -> Vec<(String, Vec<u8>)> {
        let mut o = vec![("empty".to_string(), vec![])];
        let step = (b.len() / 14).max(1);
        for i in (0..b.len()).step_by(step) {
            o.push((format!("cut at {}", i), b[..i].to_vec()));
            let mut c = b.to_vec();
            c[i] ^= 1;
            o.push((format!("bit of byte {}", i), c));
        }
        // lengths
        for i in (0..b.len().saturating_sub(4)).filter(|i| b[*i..*i + 2] == [0, 0]).step_by(1 + b.len() / 200).take(20) {
            let mut c = b.to_vec();
            c[i..i + 4].copy_from_slice(&[0xff; 4]);
            o.push((format!("length at {}", i), c));
        }
        o.push(("tail".into(), [b, &[0][..]].concat()));
        o
    };
    let mut c = Cert::plain(subj[0].clone(), ed.public());
    c.principals = vec!["alice".into()];
    let good = c.issue(&ed);
    let head = refm::keys::cert_name_of(subj[0].type_name());
    for (n, b) in variants(&good) {
        let t = format!("{} {} c", head, base64::encode(&b));
        add(0, format!("Certificate::from_string {}", n), Box::new(move || res(Certificate::from_string(&t), show_cert)));
        add(0, format!("Certificate::from_bytes {}", n), Box::new(move || res(Certificate::from_bytes(&b), show_cert)));
    }
    for i in 0..9u64 {
        let mut d = c.clone();
        match i {
            0 => d.cert_type = 3,
            1 => (d.valid_after, d.valid_before) = (9, 3),
            2 => d.principals = vec![],
            3 => d.critical = vec![("force-command".into(), "x".into()), ("force-command".into(), "y".into())],
            4 => d.extensions = vec![("b".into(), String::new()), ("a".into(), String::new())],
            5 => d.serial = u64::MAX,
            6 => d.key_id = "\u{0}".into(),
            7 => d.principals = (0..300).map(|i| format!("p{}", i)).collect(),
            _ => d.nonce = vec![],
        }
        let b = d.issue(&ed);
        add(0, format!("Certificate::from_bytes unusual {}", i), Box::new(move || res(Certificate::from_bytes(&b), show_cert)));
        for (l, s) in [("no signature", vec![]), ("label only", refm::wire::Enc::new().str("ssh-ed25519").0), ("empty inside", refm::wire::Enc::new().str("ssh-ed25519").bytes(&[]).0), ("other label", refm::wire::Enc::new().str("ssh-rsa").bytes(&fill(64, 3)).0), ("zeros", refm::wire::Enc::new().str("ssh-ed25519").bytes(&[0; 64]).0)] {
            let b = refm::cert::sealed(&d.tbs(), &s);
            add(0, format!("Certificate::from_bytes unusual {}, {}", i, l), Box::new(move || res(Certificate::from_bytes(&b), show_cert)));
        }
    }
    for t in ["", " ", "\n", "ssh-ed25519", "ssh-ed25519 ", "ssh-ed25519 AAAA", "ssh-ed25519 !!!! c", "x y z", "ssh-rsa-cert-v01@openssh.com", "ssh-rsa-cert-v01@openssh.com AAAA", "ssh-rsa AAAAB3NzaC1yc2E= c", "\u{feff}ssh-ed25519 AAAA"] {
        add(0, format!("Certificate::from_string {:?}", t), Box::new(move || res(Certificate::from_string(t), show_cert)));
        add(1, format!("PublicKey::from_string {:?}", t), Box::new(move || res(PublicKey::from_string(t), |k| show_key(&k))));
        add(2, format!("PrivateKey::from_string {:?}", t), Box::new(move || res(PrivateKey::from_string(t), show_priv)));
        add(3, format!("SshSignature {:?}", t), Box::new(move || res(SshSignature::from_armored_string(t), |s| s.to_string())));
        add(4, format!("AllowedSigner {:?}", t), Box::new(move || res(AllowedSigner::from_string(t), |a| format!("{:?}", a))));
        add(4, format!("AllowedSigners {:?}", t), Box::new(move || res(AllowedSigners::from_string(t), |a| format!("{:?}", a))));
    }
    for k in [0, 1, 3, 5] {
        for (n, b) in variants(&subj[k].encode()) {
            let t = format!("{} {}", subj[k].type_name(), base64::encode(&b));
            add(1, format!("PublicKey::from_string {} {}", subj[k].type_name(), n), Box::new(move || res(PublicKey::from_string(&t), |k| show_key(&k))));
            add(1, format!("PublicKey::from_bytes {} {}", subj[k].type_name(), n), Box::new(move || res(PublicKey::from_bytes(&b), |k| show_key(&k))));
        }
    }
    let skx = super::c10::sk0();
    for (kn, k) in [("ed25519", ed.clone()), ("p256", ec.clone())] {
        let f = File::plain(&k, &skx, 0x11223344, "comment");
        for (what, b) in [("plain", f.encode()), ("encrypted", f.encrypt(b"pw", &fill(16, 3), 1))] {
            for (n, b) in variants(&b) {
                // work factors that would take long
                if what == "encrypted" && n.starts_with("length") {
                    continue;
                }
                let t = refm::privkey::armor(&b, 70);
                for p in [None, Some("pw"), Some("")] {
                    let t = t.clone();
                    add(2, format!("PrivateKey {} {} {} with {:?}", kn, what, n, p), Box::new(move || res(PrivateKey::from_string_with_passphrase(&t, p.map(String::from)), show_priv)));
                }
            }
        }
        for m in [0u32, 1, 0x80000000, u32::MAX] {
            for c in ["", "another comment"] {
                let t = refm::privkey::armor(&File::plain(&k, &skx, m, c).encode(), 70);
                add(2, format!("PrivateKey {} check value {} comment {:?}", kn, m, c), Box::new(move || res(PrivateKey::from_string(&t), show_priv)));
            }
        }
        let t = refm::privkey::armor(&f.encode(), 70);
        for i in [0, 10, 36, 100, t.len() - 20] {
            let t = t[..i].to_string();
            add(2, format!("PrivateKey {} armor cut at {}", kn, i), Box::new(move || res(PrivateKey::from_string(&t), show_priv)));
        }
    }
    for k in [KeyTypeKind::Rsa, KeyTypeKind::Ecdsa, KeyTypeKind::RsaCert] {
        add(2, format!("PrivateKey::new {:?}", k), Box::new(move || res(PrivateKey::new(k.clone(), "c"), show_priv)));
    }
    for (n, k) in [("ed25519", ed.clone()), ("p256", ec.clone()), ("rsa", Priv::Rsa(keys::rsa("2048"))), ("sk", Priv::SkEd { seed: keys::seed(9), app: "ssh:".into() })] {
        let blob = sshsig::make(&k, "file", "sha512", b"message");
        let label = refm::wire::Enc::new().str(if n == "rsa" { "rsa-sha2-512" } else { k.public().type_name() }).0;
        let sigs = [vec![], label.clone(), [&label[..], &[0, 0, 0, 0]].concat(), [&label[..], &[0, 0, 0, 64], &[0; 64]].concat(), refm::wire::Enc::new().str("none").bytes(&[1; 64]).0, vec![0xff; 4], [&label[..], &[0xff; 4]].concat()];
        let mut list: Vec<(String, Vec<u8>)> = sigs.iter().enumerate().map(|(i, s)| (format!("bad signature {}", i), sshsig::blob(&k.public().encode(), b"file", b"", b"sha512", s))).collect();
        list.push(("reserved".into(), sshsig::blob(&k.public().encode(), b"file", b"x", b"sha512", &sigs[3])));
        list.push(("hash".into(), sshsig::blob(&k.public().encode(), b"file", b"", b"md5", &sigs[3])));
        list.push(("no namespace".into(), sshsig::blob(&k.public().encode(), b"", b"", b"sha512", &sigs[3])));
        list.extend(variants(&blob));
        for (what, b) in list {
            let t = sshsig::armor(&b, 76);
            for (m, ns) in [("message", "file"), ("", "")] {
                let t = t.clone();
                add(3, format!("verify {} {} {:?} {:?}", n, what, m, ns), Box::new(move || {
                    res(SshSignature::from_armored_string(&t), |s| res(VerifiedSshSignature::from_ssh_signature(m.as_bytes(), s, ns, None), |v| v.to_string()))
                }));
            }
        }
        if n != "sk" {
            for (m, ns) in [("", "x"), ("m", ""), ("", "")] {
                let k = k.clone();
                add(3, format!("create {} {:?} {:?}", n, m, ns), Box::new(move || {
                    rng_reset(5);
                    res(VerifiedSshSignature::new_with_private_key(m.as_bytes(), ns, conv::to_privkey(&k), Some(HashAlgorithm::Sha256)), |v| v.to_string())
                }));
            }
        }
    }
    let kt = subj[0].openssh(None);
    for o in ["", "cert-authority ", "cert-authority,cert-authority ", "cert-authority=\"x\" ", "namespaces= ", "namespaces=\"\" ", "namespaces=\"a ", "namespaces=a,namespaces=b ", "valid-after=0 ", "valid-after=20249999 ", "valid-after=20240101,valid-after=20240101 ", "valid-after=99991231235959Z ", "valid-before=19700101Z ", "valid-after=20240330023000 ", "valid-after=\"20240101 ", "unknown=x ", ", ", "x ", "no-touch-required ", "verify-required "] {
        for p in ["a", "*", "a,", ",", "\"a", "\"\"", "!a", "a\\", "é"] {
            let l = format!("{} {}{}", p, o, kt);
            let l2 = format!("# c\n\n{}\n{}\nbroken\n", l, l);
            add(4, format!("AllowedSigner {} {}", p, o), Box::new(move || res(AllowedSigner::from_string(&l), |a| format!("{:?} {}", a, a))));
            add(4, format!("AllowedSigners {} {}", p, o), Box::new(move || res(AllowedSigners::from_string(&l2), |a| format!("{:?}", a))));
        }
    }
    let csr = x509::csr("s", &x509::spki(&ec.public()), &ec);
    let crt = Tbs::new("i", "s", &ec.public(), &p256(9), vec![ext("1.2.3", true, &[5, 0])]).sign(&p256(9));
    for (n, b) in variants(&csr) {
        add(5, format!("CSR {}", n), Box::new(move || res(extract_ssh_pubkey_from_x509_csr(&b), |k| show_key(&k))));
    }
    for (n, b) in variants(&crt) {
        add(5, format!("X.509 {}", n), Box::new(move || res(extract_ssh_pubkey_from_x509_certificate(&b), |k| show_key(&k))));
    }
    for (n, b) in variants(&x509::spki(&ec.public())) {
        add(5, format!("DER key {}", n), Box::new(move || res(der_encoding_to_ssh_public_key(&b), |k| show_key(&k))));
    }
    let ch = super::c18::Chain { root: p256(1), inter: p256(2), leaf: super::c18::leaf256(), exts: super::c18::std_exts() };
    let chain = |c: Vec<u8>, i: Vec<u8>, r: Vec<u8>| -> Call { Box::new(move || res(verify_certificate_chain(&c, &i, Some(&String::from_utf8_lossy(&r).to_string())), |v| format!("{} {} {}", show_key(&v.public_key), v.firmware, v.serial))) };
    for (n, b) in variants(&ch.client_cert()) {
        add(5, format!("PIV client {}", n), chain(b, ch.inter_cert(), ch.root_pem().into()));
    }
    for (n, b) in variants(&ch.inter_cert()) {
        add(5, format!("PIV intermediate {}", n), chain(ch.client_cert(), b, ch.root_pem().into()));
    }
    for (n, b) in variants(ch.root_pem().as_bytes()) {
        add(5, format!("PIV root {}", n), chain(ch.client_cert(), ch.inter_cert(), b));
    }
    let att = super::c19::attest(&p256(1), &p256(2), super::c19::std_exts(), super::c19::std_auth(), fill(32, 8));
    for (field, b) in [att.auth.clone(), att.sig.clone(), att.chal.clone(), att.cert.clone()].into_iter().enumerate() {
        for (n, b) in variants(&b) {
            let mut a = att.clone();
            *[&mut a.auth, &mut a.sig, &mut a.chal, &mut a.cert][field] = b;
            add(5, format!("FIDO {} {}", ["data", "signature", "challenge", "certificate"][field], n), Box::new(move || res(verify_auth_data(&a.auth, &a.sig, &a.chal, a.alg, &a.cert, a.root.as_deref()), |v| format!("{:?} {:?} {:?}", v.firmware, v.aaguid, v.transports))));
        }
    }
    for (n, b) in variants(&ecdsa_sig(&fill(32, 129), &fill(32, 3))) {
        for k in [ec.public(), subj[0].clone()] {
            let b = b.clone();
            add(6, format!("format_signature_for_ssh {} {}", k.type_name(), n), Box::new(move || format!("{:?}", sshcerts::utils::format_signature_for_ssh(&conv::to_pubkey(&k), &b).map(|x| hex(&x)))));
        }
    }
    for k in &subj {
        let k = k.clone();
        add(6, format!("builder signed by a {}", k.type_name()), Box::new(move || {
            rng_reset(5);
            res(Certificate::builder(&conv::to_pubkey(&k), CertType::Host, &conv::to_pubkey(&k)), |b| {
                let b = b.valid_after(9).valid_before(3).principal("").critical_option("", "");
                let tbs = hex(&b.tbs_certificate());
                format!("{} {}", tbs, res(crate::interpose::off_record(|| b.sign(&Fixed(Some(vec![0; 4])))), show_cert))
            })
        }));
    }
    v
}
/// a key text for the first line of a file
fn kt_of(l: &str) -> String {
    let i = l.find("ssh-").or(l.find("ecdsa-")).unwrap_or(0);
    l[i..].to_string()
}

fn one(e: &Entry) -> String {
    // the seed of hash maps is drawn from the random source once a thread: let that be done
    let _ = std::collections::hash_map::RandomState::new();
    rng_reset(11);
    match catch_unwind(AssertUnwindSafe(|| (e.call)())) {
        Ok(s) => s,
        Err(_) => last_panic(),
    }
}
/// Runs the history in a new process; thread[i] says on which of two threads call i runs.
fn history(cat: &[Entry], calls: &[usize], threads: &[u8]) -> Vec<String> {
    let mut fd = [0i32; 2];
    assert!(unsafe { libc::pipe2(fd.as_mut_ptr(), libc::O_CLOEXEC) } == 0, "pipe: os error");
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork: os error");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::signal(libc::SIGABRT, libc::SIG_DFL);
            libc::signal(libc::SIGSEGV, libc::SIG_DFL);
            libc::close(fd[0]);
        }
        let mut out: Vec<u8> = vec![];
        let mut put = |s: String| {
            out.extend((s.len() as u32).to_be_bytes());
            out.extend(s.as_bytes());
        };
        if threads.iter().all(|t| *t == 0) {
            for c in calls {
                put(one(&cat[*c]));
            }
        } else {
            // a second thread that lives as long as the history does
            let (tx, rx) = std::sync::mpsc::channel::<usize>();
            let (ty, ry) = std::sync::mpsc::channel::<String>();
            std::thread::scope(|s| {
                s.spawn(move || {
                    for c in rx {
                        let _ = ty.send(one(&cat[c]));
                    }
                });
                for (c, t) in calls.iter().zip(threads) {
                    put(if *t == 0 {
                        one(&cat[*c])
                    } else {
                        let _ = tx.send(*c);
                        ry.recv().unwrap_or_default()
                    });
                }
                drop(tx);
            });
        }
        let mut f = unsafe { std::fs::File::from_raw_fd(fd[1]) };
        let _ = f.write_all(&out);
        unsafe { libc::_exit(0) };
    }
    unsafe { libc::close(fd[1]) };
    let mut f = unsafe { std::fs::File::from_raw_fd(fd[0]) };
    let mut b = vec![];
    let _ = f.read_to_end(&mut b);
    let mut st = 0;
    unsafe { libc::waitpid(pid, &mut st, 0) };
    let mut v = vec![];
    let mut p = &b[..];
    while p.len() >= 4 {
        let n = u32::from_be_bytes([p[0], p[1], p[2], p[3]]) as usize;
        if p.len() < 4 + n {
            break;
        }
        v.push(String::from_utf8_lossy(&p[4..4 + n]).to_string());
        p = &p[4 + n..];
    }
    while v.len() < calls.len() {
        v.push(format!("died ({})", st));
    }
    v
}
/// What each call answers as the first one of a process.
type Firsts = [std::sync::OnceLock<String>];
fn first_of<'a>(cat: &[Entry], f: &'a Firsts, i: usize) -> &'a str {
    f[i].get_or_init(|| history(cat, &[i], &[0]).remove(0))
}
fn judge(w: &mut W, cat: &[Entry], first: &Firsts, calls: &[usize], threads: &[u8]) {
    w.case((calls, threads), || if calls.len() > 8 { format!("a history of {} calls", calls.len()) } else { format!("{} (threads {:?})", calls.iter().map(|c| cat[*c].name.clone()).collect::<Vec<_>>().join(", then "), threads) }, |w| {
        w.transition();
        for _ in calls {
            w.transition();
        }
        let g = history(cat, calls, threads);
        for (i, c) in calls.iter().enumerate() {
            let first = first_of(cat, first, *c);
            if g[i] != first {
                return Err(Fail(format!("call {} ({}{}) gives\n    {}\n  but as the first call of a process\n    {}", i + 1, cat[*c].name, if i > 0 { format!(", after {}", calls[i.saturating_sub(2)..i].iter().map(|c| cat[*c].name.clone()).collect::<Vec<_>>().join(", ")) } else { String::new() }, g[i].chars().take(900).collect::<String>(), first.chars().take(900).collect::<String>())));
            }
        }
        Ok("same")
    });
}

/// A cyclic sequence over 0..k in which every triple occurs once.
fn de_bruijn(k: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, a: &mut [usize; 4], out: &mut Vec<usize>) {
        if t > 3 {
            if 3 % p == 0 {
                out.extend(&a[1..=p]);
            }
            return;
        }
        a[t] = a[t - p];
        db(t + 1, p, k, a, out);
        for j in a[t - p] + 1..k {
            a[t] = j;
            db(t + 1, t, k, a, out);
        }
    }
    let mut out = vec![];
    db(1, 1, k, &mut [0; 4], &mut out);
    let seen: std::collections::HashSet<_> = (0..out.len()).map(|i| (out[i], out[(i + 1) % out.len()], out[(i + 2) % out.len()])).collect();
    assert!(out.len() == k * k * k && seen.len() == out.len());
    out
}

pub fn run(cx: &Cx) {
    cx.assume("calls on two threads are interleaved call by call (the code holds no lock and no shared value between them); hash map seeds are not part of a result");
    let cat = &catalogue();
    let first: &Firsts = &(0..cat.len()).map(|_| Default::default()).collect::<Vec<_>>();
    if std::env::var("MC_DEBUG").is_ok() {
        for (i, e) in cat.iter().enumerate() {
            eprintln!("{} {} => {}", e.family, e.name, first_of(cat, first, i).chars().take(150).collect::<String>());
        }
    }
    let n = cat.len();
    cx.bound(format!("{} calls ({})", n, "certificates, public keys, private keys and signing, detached signatures, allowed signers, X.509 and attestations, builders, wire and conversions; genuine, tampered and mismatched inputs of each"));
    cx.group("panics", n, |w, i| {
        w.case(i, || cat[i].name.clone(), |w| {
            w.transition();
            let f = first_of(cat, first, i);
            if f.starts_with("panicked") || f.starts_with("died") {
                return Err(Fail(f.to_string()));
            }
            Ok("an answer")
        });
    });
    cx.bound("every pair of calls on one thread; every pair (quick: of one family) on two");
    cx.group("pairs", n * n, |w, i| judge(w, cat, first, &[i % n, i / n], &[0, 0]));
    cx.group("pairs on two threads", n * n, |w, i| {
        if cx.thorough || cat[i % n].family == cat[i / n].family {
            judge(w, cat, first, &[i % n, i / n], &[0, 1])
        }
    });
    // a, b, a: what a said before must not outlive b
    cx.bound("every call, another, and the first again, on two threads in every way");
    cx.group("there and back", n * n * 2, |w, i| {
        let (a, b) = (i / 2 % n, i / 2 / n);
        let t = [[0, 1, 0], [0, 1, 1]][i % 2];
        if cx.thorough || cat[a].family == cat[b].family {
            judge(w, cat, first, &[a, b, a], &t)
        }
    });
    // every sequence of three calls somewhere in a long history (a de Bruijn sequence), cut into overlapping parts
    cx.bound(if cx.thorough { "every sequence of three calls" } else { "every sequence of three calls of one family" });
    let mut sets: Vec<Vec<usize>> = vec![];
    if cx.thorough {
        sets.push((0..n).collect());
    } else {
        for i in 0..n {
            match sets.iter_mut().find(|s| cat[s[0]].family == cat[i].family) {
                Some(s) => s.push(i),
                None => sets.push(vec![i]),
            }
        }
    }
    const PART: usize = 500;
    let mut parts: Vec<Vec<usize>> = vec![];
    for s in &sets {
        let q = de_bruijn(s.len());
        let l = q.len();
        for start in (0..l).step_by(PART) {
            parts.push((start..(start + PART).min(l) + 2).map(|i| s[q[i % l]]).collect());
        }
    }
    let parts = &parts;
    cx.group("triples", parts.len(), |w, i| judge(w, cat, first, &parts[i], &vec![0; parts[i].len()]));
    let reps = cx.pick(300, 70000);
    cx.bound(format!("every call {} times in a row (expensive ones 300 times)", reps));
    cx.group("repeated", n, |w, i| {
        let t0 = std::time::Instant::now();
        history(cat, &[i; 8], &[0; 8]);
        let k = if t0.elapsed().as_micros() > 1600 { 300 } else { reps };
        judge(w, cat, first, &vec![i; k], &vec![0; k])
    });
    // unusual calls, many times, then everything else
    let odd = odd();
    let m = odd.len();
    let usual = n;
    let times = cx.pick(12, 300);
    cx.bound(format!("each of {} calls, {} of them with broken or unusual arguments, {} times in a row (thorough: also once), then all usual ones out of {} (quick: of the same family)", m + n, m, times, n));
    let mut both = catalogue();
    both.extend(odd);
    let both = &both;
    let firsts: &Firsts = &(0..both.len()).map(|_| Default::default()).collect::<Vec<_>>();
    cx.group("unusual calls", m, |w, i| {
        w.case(i, || both[usual + i].name.clone(), |w| {
            w.transition();
            let f = first_of(both, firsts, usual + i);
            if f.starts_with("panicked") || f.starts_with("died") {
                return Err(Fail(f.to_string()));
            }
            Ok("an answer")
        });
    });
    cx.group("after unusual calls", both.len() * 2, |w, i| {
        let k = if i % 2 == 0 { times } else { 1 };
        if k == 1 && !cx.thorough {
            return;
        }
        let mut s = vec![i / 2; k];
        s.extend((0..usual).filter(|j| cx.thorough || both[*j].family == both[i / 2].family));
        judge(w, both, firsts, &s, &vec![0; s.len()])
    });
    cx.bound("all unusual calls of a family, in order and backwards, with the usual ones (quick: of the family) after every tenth, then all");
    cx.group("among unusual calls", 14, |w, i| {
        let fam = i / 2;
        let mut l: Vec<usize> = (usual..both.len()).filter(|j| both[*j].family == fam).collect();
        if i % 2 == 1 {
            l.reverse();
        }
        let mut s = vec![];
        for (j, c) in l.iter().enumerate() {
            s.push(*c);
            if j % 10 == 9 {
                s.extend((0..usual).filter(|j| cx.thorough || both[*j].family == fam));
            }
        }
        s.extend(0..usual);
        judge(w, both, firsts, &s, &vec![0; s.len()])
    });
    cx.bound("all calls one after another, forwards, backwards, and in every rotation");
    cx.group("all", n * 2, |w, i| {
        let mut s: Vec<usize> = (0..n).map(|j| (j + i / 2) % n).collect();
        if i % 2 == 1 {
            s.reverse();
        }
        judge(w, cat, first, &s, &vec![0; n])
    });
}
