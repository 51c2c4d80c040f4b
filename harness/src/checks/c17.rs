//! SSH keys out of X.509 certificates, requests and DER keys.
use super::c03::edits;
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use num_bigint::BigUint;
use refm::der::*;
use refm::ec::{pubkey, C};
use refm::keys::{self, Priv, Pub};
use refm::x509::{self, *};
use refm::Tri;
use sshcerts::x509::*;

type Res = Result<sshcerts::PublicKey, sshcerts::error::Error>;
fn call(w: &mut W, form: usize, b: &[u8]) -> R<Res> {
    match form {
        0 => w.call("der_encoding_to_ssh_public_key", || der_encoding_to_ssh_public_key(b)),
        1 => w.call("extract_ssh_pubkey_from_x509_certificate", || extract_ssh_pubkey_from_x509_certificate(b)),
        _ => w.call("extract_ssh_pubkey_from_x509_csr", || extract_ssh_pubkey_from_x509_csr(b)),
    }
}
fn exact(g: &sshcerts::PublicKey, k: &Pub) -> R {
    ensure_eq!(conv::pubkey(g), Some(k.clone()), "key");
    ensure_eq!(g.key_type.name, k.type_name(), "key type");
    ensure!(g.comment.is_none(), "comment {:?}", g.comment);
    Ok(())
}
/// A well-formed wrapping of the SPKI.
fn sound(w: &mut W, form: usize, b: &[u8], spki: &[u8]) -> R<&'static str> {
    let (t, k) = read(spki).map_or((Tri::No, None), |s| judge_spki(s.1));
    // the X.509 parser passes over surplus elements, the reader of bare keys has to see them
    let t = if form == 0 && read(spki).is_some_and(|s| x509::surplus(s.1)) { Tri::No } else { t };
    let g = call(w, form, b)?;
    ensure!(t.allows(g.is_ok()), "gives {:?}, expected {:?} {:?}", g, t, k);
    if let Ok(g) = g {
        exact(&g, &k.unwrap())?;
        return Ok("key");
    }
    Ok("refused")
}
/// Any bytes: a key only if the bytes hold it.
fn any(w: &mut W, form: usize, b: &[u8]) -> R<&'static str> {
    let spki = match form {
        0 => read(b).map(|x| x.1.to_vec()),
        1 => cert_spki(b),
        _ => csr_spki(b),
    };
    let (t, k) = spki.map_or((Tri::No, None), |s| if form == 0 && x509::surplus(&s) { (Tri::No, None) } else { judge_spki(&s) });
    match call(w, form, b)? {
        Err(_) => Ok("refused"),
        Ok(g) => {
            ensure!(t != Tri::No, "gives {:?} for data that holds no such key", g);
            exact(&g, &k.unwrap())?;
            Ok("key")
        }
    }
}
fn wrap(form: usize, spki: &[u8], signer: &Priv) -> Vec<u8> {
    match form {
        0 => spki.to_vec(),
        1 => {
            let mut t = Tbs::new("ca", "subject", &signer.public(), signer, vec![]);
            t.spki = spki.to_vec();
            t.sign(signer)
        }
        _ => x509::csr("subject", spki, signer),
    }
}
const FORMS: [&str; 3] = ["DER key", "certificate", "request"];

pub fn run(cx: &Cx) {
    cx.assume("points off the curve, unused bits in the key and bytes after the outermost DER value are not judged");
    let signer = &Priv::Ec { c: C::P256, d: keys::scalar(1, 32) };
    // points
    let n = cx.pick(2000, 20000);
    cx.bound(format!("the points k*G for k = 1..={} of P-256 and P-384, in a DER key, a certificate and a request", n));
    cx.group("points", n * 2 * 3, |w, i| {
        let d = digits(i, &[n, 2, 3]);
        let c = [C::P256, C::P384][d[1]];
        let spki = x509::spki(&Pub::Ec { c, pt: pubkey(&BigUint::from(d[0] + 1), c) });
        let b = wrap(d[2], &spki, signer);
        w.case(&b, || format!("{} {}", FORMS[d[2]], hex(&b)), |w| sound(w, d[2], &b, &spki));
    });
    // points with extreme coordinates: small x, if on the curve
    cx.group("small-x", cx.pick(1000, 10000) * 2 * 3, |w, i| {
        let d = digits(i, &[w.cx.pick(1000, 10000), 2, 3]);
        let c = [C::P256, C::P384][d[1]];
        if let Some(p) = refm::ec::lift_x(&BigUint::from(d[0]), c) {
            for p in [p.clone(), p.neg(c)] {
                let spki = x509::spki(&Pub::Ec { c, pt: p.sec1(c) });
                let b = wrap(d[2], &spki, signer);
                w.case(&b, || format!("{} {}", FORMS[d[2]], hex(&b)), |w| sound(w, d[2], &b, &spki));
            }
        }
    });
    // algorithms, parameters, point forms
    let algs = [OID_EC, OID_RSA, OID_ED25519, "1.3.101.110", "1.3.132.1.12", "1.2.840.10040.4.1", "1.2.840.10045.2", "1.2.840.10045.2.1.1", "1.2.840.10045.2.2", OID_P256, ECDSA_SHA256];
    let mut params: Vec<Vec<u8>> = ["1.2.840.10045.3.1.7", OID_P384, OID_P521, "1.3.132.0.10", "1.3.132.0.33", "1.3.36.3.3.2.8.1.1.7", "1.2.840.10045.3.1.1", "1.2.840.10045.3.1", "1.2.840.10045.3.1.7.1", "1.2.840.10045.3.1.6", "1.3.132.0.3", "1.2.156.10197.1.301", OID_EC]
        .iter()
        .map(|o| oid(o))
        .collect();
    params.extend([vec![], null(), seq(&[]), seq(&[oid(OID_P256)]), octets(&oid(OID_P256)), uint(&[7]), utf8("1.2.840.10045.3.1.7"), [oid(OID_P256), oid(OID_P256)].concat(), [oid(OID_P256), null()].concat()]);
    let p256 = pubkey(&BigUint::from(7u8), C::P256);
    let p384 = pubkey(&BigUint::from(7u8), C::P384);
    let mut pts: Vec<Vec<u8>> = vec![p256.clone(), p384.clone(), vec![], vec![4], vec![0], p256[1..].to_vec(), p384[1..].to_vec(), keys::ed_pub(&keys::seed(1))];
    for p in [&p256, &p384] {
        pts.push(p[..p.len() - 1].to_vec());
        pts.push([&p[..], &[0]].concat());
        let half = p.len() / 2;
        for t in [0u8, 2, 3, 5, 6, 7, 0x40, 0x84] {
            pts.push([&[t][..], &p[1..]].concat());
            pts.push([&[t][..], &p[1..=half]].concat());
        }
        pts.push([&[4, 0][..], &p[1..]].concat());
        pts.push(octets(p));
    }
    if let Pub::Ec { pt, .. } = keys::p521_pub() {
        pts.push(pt);
    }
    if let Priv::Rsa(r) = &keys::signers("")[3].1 {
        if let Pub::Rsa { e, n } = Priv::Rsa(r.clone()).public() {
            pts.push(seq(&[uint(&n), uint(&e)]));
        }
    }
    cx.bound(format!("{} algorithms by {} parameters by {} key contents by 3 forms", algs.len(), params.len(), pts.len()));
    let radix = [algs.len(), params.len(), pts.len(), 3];
    cx.group("algorithms", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let spki = seq(&[seq(&[oid(algs[d[0]]), params[d[1]].clone()]), bits(&pts[d[2]])]);
        let b = wrap(d[3], &spki, signer);
        w.case(&b, || format!("{} algorithm {} parameters {} key {}", FORMS[d[3]], algs[d[0]], hex(&params[d[1]]), hex(&pts[d[2]])), |w| sound(w, d[3], &b, &spki));
    });
    // shapes of the SPKI
    let alg = seq(&[oid(OID_EC), oid(OID_P256)]);
    let bs = bits(&p256);
    let parts: Vec<Vec<u8>> = vec![alg.clone(), bs.clone(), octets(&p256), null(), oid(OID_EC), oid(OID_P256), seq(&[oid(OID_P256), oid(OID_EC)]), bits(&p384), set(&[oid(OID_EC), oid(OID_P256)]), seq(&[alg.clone(), bs.clone()])];
    cx.group("shapes", words(parts.len(), 4) * 3, |w, i| {
        let v: Vec<Vec<u8>> = word(i / 3, parts.len(), 4).into_iter().map(|x| parts[x].clone()).collect();
        let spki = seq(&v);
        let form = i % 3;
        let b = wrap(form, &spki, signer);
        w.case(&b, || format!("{} {}", FORMS[form], hex(&b)), |w| any(w, form, &b));
    });
    // what surrounds the key
    let signers: Vec<Priv> = keys::signers("").into_iter().take(4).map(|x| x.1).collect();
    let subj: Vec<Pub> = vec![Pub::Ec { c: C::P256, pt: p256.clone() }, Pub::Ec { c: C::P384, pt: p384.clone() }, signers[0].public(), signers[3].public(), keys::p521_pub()];
    let serials = [vec![0u8], vec![1], vec![0x7f], vec![0x80], fill(8, 0x11), fill(16, 0x91), fill(20, 0x71)];
    let names = ["", "a", &text(100, 1), &text(128, 2), &text(300, 3)].map(String::from);
    let exts: Vec<Vec<Vec<u8>>> = vec![
        vec![],
        vec![ext("2.5.29.15", true, &bits(&[6]))],
        // another key inside an extension
        vec![ext("1.3.6.1.4.1.41482.3.3", false, &[5, 2, 4]), ext("1.2.3.4", false, &spki_ec(OID_P384, &p384))],
        (0..30).map(|j| ext(&format!("1.2.3.{}", j), j % 2 == 0, &fill(j, 1))).collect(),
    ];
    let radix = [signers.len(), subj.len(), serials.len(), names.len(), exts.len()];
    cx.bound("certificates: 4 signing keys, 5 subject keys, 7 serial numbers, 5 name lengths, 4 extension lists".to_string());
    cx.group("certificates", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let s = &signers[d[0]];
        let mut t = Tbs::new(&names[d[3]], &names[4 - d[3]], &subj[d[1]], s, exts[d[4]].clone());
        t.serial = uint(&serials[d[2]]);
        let b = t.sign(s);
        w.case(&b, || format!("certificate {}", hex(&b)), |w| sound(w, 1, &b, &t.spki));
    });
    let attrs: Vec<Vec<u8>> = vec![vec![], seq(&[oid("1.2.840.113549.1.9.14"), set(&[seq(&[ext("2.5.29.15", true, &bits(&[6]))])])]), seq(&[oid("1.2.840.113549.1.9.7"), set(&[utf8("password")])])];
    let radix = [signers.len(), subj.len(), names.len(), attrs.len()];
    cx.group("requests", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let s = &signers[d[0]];
        let spki = x509::spki(&subj[d[1]]);
        let info = seq(&[uint(&[]), name(&names[d[2]]), spki.clone(), tlv(0xa0, &attrs[d[3]])]);
        let b = assemble(&info, &alg_id(s), &sign_raw(s, &info));
        w.case(&b, || format!("request {}", hex(&b)), |w| sound(w, 2, &b, &spki));
    });
    // damage
    let density = 2;
    cx.bound(format!("edits at every byte ({}) of two keys, certificates and requests", ["", "every bit, removal, insertion, cut", "all byte values, removal, insertion, cut"][density]));
    for (j, k) in subj.iter().take(2).enumerate() {
        for form in 0..3 {
            let b = wrap(form, &x509::spki(k), if j == 0 { signer } else { &signers[3] });
            let mut all = vec![];
            edits(&b, density, |d, v| all.push((d, v)));
            cx.group(&format!("edits {}", FORMS[form]), all.len(), |w, i| {
                let (d, v) = &all[i];
                w.case(v, || format!("{} {}: {}", FORMS[form], d, hex(v)), |w| any(w, form, v));
            });
        }
    }
    // pairs of bytes within the SPKI header: algorithm and curve identifiers, lengths
    for (j, k) in subj.iter().take(2).enumerate() {
        let spki = x509::spki(k);
        let head = spki.len() - [65, 97][j] + 2;
        cx.group("header-pairs", head * head, |w, i| {
            let (a, c) = (i / head, i % head);
            if a >= c {
                return;
            }
            for x in [1u8, 2, 0x10, 0x80, 0xff] {
                for y in [1u8, 2, 0x10, 0x80, 0xff] {
                    let mut v = spki.clone();
                    v[a] ^= x;
                    v[c] ^= y;
                    let form = (i + x as usize) % 3;
                    let b = wrap(form, &v, signer);
                    w.case((&v, form), || format!("{} with SPKI {}", FORMS[form], hex(&v)), |w| any(w, form, &b));
                }
            }
        });
    }
    // one form offered as another, and other inputs
    let mut odd: Vec<Vec<u8>> = vec![vec![], vec![0x30], vec![0x30, 0], vec![0x30, 0x80, 0, 0], fill(300, 1), b"-----BEGIN PUBLIC KEY-----".to_vec()];
    for k in &subj[..2] {
        for f in 0..3 {
            odd.push(wrap(f, &x509::spki(k), signer));
            odd.push(x509::pem("CERTIFICATE", &wrap(f, &x509::spki(k), signer)).into_bytes());
        }
        odd.push(k.encode());
    }
    cx.group("confusion", odd.len() * 3, |w, i| {
        let (b, form) = (&odd[i / 3], i % 3);
        w.case((b, form), || format!("as {}: {}", FORMS[form], hex(b)), |w| any(w, form, b));
    });
}
