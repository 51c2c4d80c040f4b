//! PIV attestation chains.
use super::c03::edits;
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::der::*;
use refm::ec::C;
use refm::keys::{self, Priv, Pub};
use refm::x509::{self, *};
use refm::Tri;
use sshcerts::yubikey::verification::{verify_certificate_chain, ValidPIVKey};

pub const FW: &str = "1.3.6.1.4.1.41482.3.3";
pub const SERIAL: &str = "1.3.6.1.4.1.41482.3.7";
pub const POLICY: &str = "1.3.6.1.4.1.41482.3.8";

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Report {
    pub key: Pub,
    pub fw: String,
    pub serial: u64,
    pub pin: u8,
    pub touch: u8,
}
fn report(v: &ValidPIVKey) -> Option<Report> {
    Some(Report { key: conv::pubkey(&v.public_key)?, fw: v.firmware.clone(), serial: v.serial, pin: v.pin_policy, touch: v.touch_policy })
}
fn judge(w: &mut W, client: &[u8], inter: &[u8], root: Option<&str>, t: Tri, want: Option<&Report>) -> R<&'static str> {
    let g = w.call("verify_certificate_chain", || verify_certificate_chain(client, inter, root))?;
    ensure!(t.allows(g.is_ok()), "gives {:?}, expected {:?} {:?}", g, t, want);
    if let Ok(g) = &g {
        ensure_eq!(report(g), want.cloned(), "report");
        return Ok("valid");
    }
    Ok("refused")
}
pub struct Chain {
    pub root: Priv,
    pub inter: Priv,
    pub leaf: Pub,
    pub exts: Vec<Vec<u8>>,
}
impl Chain {
    pub fn root_pem(&self) -> String {
        pem("CERTIFICATE", &Tbs::new("root", "root", &self.root.public(), &self.root, vec![]).sign(&self.root))
    }
    pub fn inter_cert(&self) -> Vec<u8> {
        Tbs::new("root", "inter", &self.inter.public(), &self.root, vec![ext(FW, false, &[9, 9, 9])]).sign(&self.root)
    }
    pub fn client_cert(&self) -> Vec<u8> {
        Tbs::new("inter", "leaf", &self.leaf, &self.inter, self.exts.clone()).sign(&self.inter)
    }
}
pub fn std_exts() -> Vec<Vec<u8>> {
    vec![ext(FW, false, &[5, 2, 4]), ext(SERIAL, false, &uint(&[0xb3, 0xb7, 0xff])), ext(POLICY, false, &[1, 3]), ext("1.3.6.1.4.1.41482.3.9", false, &[5])]
}
fn std_report(leaf: &Pub) -> Report {
    Report { key: leaf.clone(), fw: "5.2.4".into(), serial: 0xb3b7ff, pin: 1, touch: 3 }
}
fn p256(n: u8) -> Priv {
    Priv::Ec { c: C::P256, d: keys::scalar(n, 32) }
}
fn p384(n: u8) -> Priv {
    Priv::Ec { c: C::P384, d: keys::scalar(n, 48) }
}
pub fn leaf256() -> Pub {
    p256(21).public()
}

pub fn run(cx: &Cx) {
    cx.assume("certificate validity dates, names and CA flags are not part of the property; a duplicated extension, a non-minimal serial number, bytes after it and serial numbers above 2^63 are not judged for acceptance");
    let signers = [p256(1), p384(2), Priv::Rsa(keys::rsa("2048")), Priv::Ed { seed: keys::seed(3) }];
    let signers2 = [p256(31), p384(32), Priv::Rsa(keys::rsa("3072")), Priv::Ed { seed: keys::seed(33) }];
    let leaves: Vec<Pub> = vec![leaf256(), p384(22).public(), Priv::Rsa(keys::rsa("2048e3")).public(), Priv::Ed { seed: keys::seed(23) }.public(), keys::p521_pub()];
    // key kinds of the chain and which certificate is signed by whom
    let radix = [signers.len(), signers.len(), leaves.len(), 7, 7];
    let who = ["root", "intermediate", "other root", "other intermediate", "leaf's twin", "nobody (zero signature)", "itself changed"];
    cx.bound(format!("chains with every combination of root, intermediate (P-256, P-384, RSA, Ed25519) and leaf key kinds, each of the two certificates signed by each of {:?}", who));
    cx.group("links", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let ch = Chain { root: signers[d[0]].clone(), inter: signers2[d[1]].clone(), leaf: leaves[d[2]].clone(), exts: std_exts() };
        let twin = p256(21);
        let (o1, o2) = (&signers2[d[0]], &signers[d[1]]);
        // the other keys are of the same kinds, but different keys
        let pick = |x: usize| -> Option<&Priv> {
            match x {
                0 => Some(&ch.root),
                1 => Some(&ch.inter),
                2 => Some(o1),
                3 => Some(o2),
                4 => Some(&twin),
                _ => None,
            }
        };
        let build = |tbs: Tbs, x: usize, real: &Priv| -> Vec<u8> {
            match pick(x) {
                Some(k) => {
                    let mut t = tbs.clone();
                    t.sig_alg = alg_id(k);
                    t.sign(k)
                }
                None if x == 5 => assemble(&tbs.encode(), &tbs.sig_alg, &[0; 64]),
                None => {
                    let mut t = tbs.clone();
                    let s = sign_raw(real, &t.encode());
                    t.serial = uint(&[1, 2, 4]);
                    assemble(&t.encode(), &tbs.sig_alg, &s)
                }
            }
        };
        let it = Tbs::new("root", "inter", &ch.inter.public(), &ch.root, vec![]);
        let ct = Tbs::new("inter", "leaf", &ch.leaf, &ch.inter, std_exts());
        let ic = build(it, d[3], &ch.root);
        let cc = build(ct, d[4], &ch.inter);
        let same = |x: usize, k: &Priv| pick(x).is_some_and(|p| p.public() == k.public());
        let ok = same(d[3], &ch.root) && same(d[4], &ch.inter) && d[2] < 2;
        let pemr = ch.root_pem();
        let rep = std_report(&ch.leaf);
        w.case((&ic, &cc, i), || format!("root {:?} intermediate {:?} leaf {:?}: intermediate signed by {}, client by {}", d[0], d[1], ch.leaf.type_name(), who[d[3]], who[d[4]]), |w| {
            judge(w, &cc, &ic, Some(&pemr), if ok { Tri::Yes } else { Tri::No }, Some(&rep).filter(|_| ok))
        });
    });
    // which certificates are given in which place
    let ch = &Chain { root: p256(1), inter: p256(2), leaf: leaf256(), exts: std_exts() };
    let ch2 = Chain { root: p256(5), inter: p256(6), leaf: leaf256(), exts: std_exts() };
    let (root_der, root2_der) = (Tbs::new("root", "root", &ch.root.public(), &ch.root, std_exts()).sign(&ch.root), Tbs::new("root", "root", &ch2.root.public(), &ch2.root, std_exts()).sign(&ch2.root));
    let certs: Vec<(&str, Vec<u8>, Pub, Pub)> = vec![
        ("root", root_der.clone(), ch.root.public(), ch.root.public()),
        ("inter", ch.inter_cert(), ch.inter.public(), ch.root.public()),
        ("client", ch.client_cert(), ch.leaf.clone(), ch.inter.public()),
        ("root2", root2_der.clone(), ch2.root.public(), ch2.root.public()),
        ("inter2", ch2.inter_cert(), ch2.inter.public(), ch2.root.public()),
        ("client2", ch2.client_cert(), ch2.leaf.clone(), ch2.inter.public()),
        ("client by root", { let mut t = Tbs::new("root", "leaf", &ch.leaf, &ch.root, std_exts()); t.serial = uint(&[9]); t.sign(&ch.root) }, ch.leaf.clone(), ch.root.public()),
        ("inter by inter", { let t = Tbs::new("inter", "inter", &ch.inter.public(), &ch.inter, std_exts()); t.sign(&ch.inter) }, ch.inter.public(), ch.inter.public()),
        ("inter2 by root", { let t = Tbs::new("root", "inter", &ch2.inter.public(), &ch.root, std_exts()); t.sign(&ch.root) }, ch2.inter.public(), ch.root.public()),
        ("empty", vec![], ch.leaf.clone(), ch.leaf.clone()),
    ];
    let n = certs.len();
    cx.bound(format!("all {} triples of client, intermediate and root out of {} certificates, and the default root", n * n * (n + 1), n));
    let has_exts = |c: &str| !c.starts_with("inter") || c.contains("by");
    cx.group("places", n * n * (n + 1), |w, i| {
        let d = digits(i, &[n, n, n + 1]);
        let (c, m) = (&certs[d[0]], &certs[d[1]]);
        let r = certs.get(d[2]);
        let ok = c.0 != "empty" && m.0 != "empty" && has_exts(c.0) && r.is_some_and(|r| r.0 != "empty" && m.3 == r.2) && c.3 == m.2;
        let rep = std_report(&c.2);
        let pemr = r.map(|r| pem("CERTIFICATE", &r.1));
        w.case(i, || format!("client = {}, intermediate = {}, root = {}", c.0, m.0, r.map_or("default", |r| r.0)), |w| {
            judge(w, &c.1, &m.1, pemr.as_deref(), if ok { Tri::Yes } else { Tri::No }, Some(&rep).filter(|_| ok))
        });
    });
    // extensions
    let pemr = &ch.root_pem();
    let inter = &ch.inter_cert();
    let with = |w: &mut W, exts: Vec<Vec<u8>>, desc: &dyn Fn() -> String, t: Tri, rep: Option<Report>| {
        let c = Chain { root: ch.root.clone(), inter: ch.inter.clone(), leaf: ch.leaf.clone(), exts };
        let cc = c.client_cert();
        w.case(&c.exts, desc, |w| judge(w, &cc, inter, Some(pemr), t, rep.as_ref()));
    };
    let base = std_report(&ch.leaf);
    let base = &base;
    cx.bound("every pair of PIN and touch policy bytes, every value of each firmware byte, serial numbers of 1 to 10 bytes at boundaries".to_string());
    cx.group("policies", 65536, |w, i| {
        let (p, t) = ((i >> 8) as u8, i as u8);
        let mut e = std_exts();
        e[2] = ext(POLICY, false, &[p, t]);
        with(w, e, &|| format!("PIN policy {}, touch policy {}", p, t), Tri::Yes, Some(Report { pin: p, touch: t, ..base.clone() }));
    });
    cx.group("firmware", 256 * 3 + 27, |w, i| {
        let f = if i < 768 { let mut f = [5u8, 2, 4]; f[i / 256] = i as u8; f } else { let d = digits(i - 768, &[3, 3, 3]); [[0, 10, 255][d[0]], [0, 10, 255][d[1]], [0, 10, 255][d[2]]] };
        let mut e = std_exts();
        e[0] = ext(FW, i % 2 == 0, &f);
        with(w, e, &|| format!("firmware {:?}", f), Tri::Yes, Some(Report { fw: format!("{}.{}.{}", f[0], f[1], f[2]), ..base.clone() }));
    });
    let mut serials: Vec<Vec<u8>> = (0..=255u8).map(|x| vec![x]).collect();
    for len in 2..=10usize {
        for top in [0u8, 1, 0x7f, 0x80, 0xff] {
            for low in [0u8, 1, 0x80, 0xff] {
                let mut v = vec![low; len];
                v[0] = top;
                serials.push(v.clone());
                v[len - 1] ^= 0x55;
                serials.push(v.clone());
                v[1] ^= 0x80;
                serials.push(v);
            }
        }
    }
    cx.group("serials", serials.len(), |w, i| {
        let v = &serials[i];
        let mut e = std_exts();
        e[1] = ext(SERIAL, false, &tlv(2, v));
        let negative = v[0] & 0x80 != 0;
        let canonical = v.len() == 1 || !(v[0] == 0 && v[1] & 0x80 == 0);
        let s: Vec<u8> = refm::wire::strip0(v);
        let val = if negative || s.len() > 8 { None } else { Some(s.iter().fold(0u64, |a, b| a << 8 | *b as u64)) };
        let t = match val {
            None => Tri::No,
            Some(_) if !canonical || v.len() > 8 => Tri::May,
            Some(_) => Tri::Yes,
        };
        with(w, e, &|| format!("serial number {}", hex(v)), t, val.map(|s| Report { serial: s, ..base.clone() }));
    });
    cx.group("serial-values", cx.pick(20_000, 1 << 18), |w, i| {
        let v = (i as u32).wrapping_mul(if w.cx.thorough { 0x3fff } else { 0x3_4567 });
        let mut e = std_exts();
        e[1] = ext(SERIAL, false, &uint(&v.to_be_bytes()));
        with(w, e, &|| format!("serial number {}", v), Tri::Yes, Some(Report { serial: v as u64, ..base.clone() }));
    });
    // malformed extension values
    let mut bad: Vec<(usize, Vec<u8>)> = vec![];
    for len in 0..40usize {
        if len != 3 {
            bad.push((0, fill(len, 5)));
        }
        if len != 2 {
            bad.push((2, fill(len, 5)));
        }
    }
    bad.push((0, octets(&[5, 2, 4])));
    bad.push((2, octets(&[1, 3])));
    for v in [vec![], vec![2], vec![2, 0], vec![2, 1], vec![2, 4, 0, 1, 2], vec![2, 0x81], vec![2, 0x80], vec![2, 0x84, 0xff, 0xff, 0xff, 0xff], vec![2, 0x81, 1], vec![2, 0x82, 0, 1], octets(&[1, 2, 3]), null(), bits(&[1]), utf8("1"), seq(&[uint(&[1])]), vec![0, 179, 183, 255], vec![1, 1, 255], vec![0x0a, 1, 5], vec![0x30, 0]] {
        bad.push((1, v));
    }
    cx.group("bad-extension", bad.len(), |w, i| {
        let (which, v) = &bad[i];
        let mut e = std_exts();
        e[*which] = ext([FW, SERIAL, POLICY][*which], false, v);
        with(w, e, &|| format!("extension {} = {}", [FW, SERIAL, POLICY][*which], hex(v)), Tri::No, None);
    });
    // which extensions, in which order
    let pool: Vec<(Vec<u8>, usize)> = vec![
        (ext(FW, false, &[5, 2, 4]), 0),
        (ext(SERIAL, false, &uint(&[0xb3, 0xb7, 0xff])), 1),
        (ext(POLICY, false, &[1, 3]), 2),
        (ext("1.3.6.1.4.1.41482.3.9", false, &[5]), 3),
        (ext("1.3.6.1.4.1.41482.3", false, &[5, 2, 4]), 4),
        (ext("1.3.6.1.4.1.41482.3.3.1", false, &[6, 6, 6]), 5),
        (ext("1.3.6.1.4.1.41482.13.1", false, &[7, 7, 7]), 6),
        (ext("2.5.29.19", true, &seq(&[])), 7),
    ];
    let depth = cx.pick(5, 6);
    cx.bound(format!("all sequences of up to {} distinct extensions out of {}", depth, pool.len()));
    cx.group("extension-lists", words(pool.len(), depth), |w, i| {
        let l = word(i, pool.len(), depth);
        let mut seen = [false; 8];
        for &x in &l {
            if std::mem::replace(&mut seen[x], true) {
                return;
            }
        }
        let ok = seen[0] && seen[1] && seen[2];
        with(w, l.iter().map(|&x| pool[x].0.clone()).collect(), &|| format!("extensions {:?}", l), if ok { Tri::Yes } else { Tri::No }, Some(base.clone()).filter(|_| ok));
    });
    // a duplicate never yields anything but one of the values given
    let vals = [[5u8, 2, 4], [1, 1, 1]];
    cx.group("duplicates", 8, |w, i| {
        let (a, b) = (vals[i % 2], vals[1 - i % 2]);
        let mut e = std_exts();
        e.insert(i / 2 % 4, ext(FW, false, &a));
        e.push(ext(FW, false, &b));
        let c = Chain { root: ch.root.clone(), inter: ch.inter.clone(), leaf: ch.leaf.clone(), exts: e };
        let cc = c.client_cert();
        w.case(i, || format!("firmware given as {:?} and {:?}", a, b), |w| {
            if let Ok(g) = w.call("verify_certificate_chain", || verify_certificate_chain(&cc, inter, Some(pemr)))? {
                ensure!(["5.2.4", "1.1.1"].contains(&g.firmware.as_str()), "firmware {}", g.firmware);
            }
            Ok("not judged")
        });
    });
    // the recorded chain of a real device, under the default root
    let (rc, ri) = (include_bytes!("../../fixtures/piv_client.der").to_vec(), include_bytes!("../../fixtures/piv_inter.der").to_vec());
    let rep = {
        let k = judge_spki(&cert_spki(&rc).unwrap()).1.unwrap();
        Report { key: k, fw: "5.2.4".into(), serial: 11778047, pin: 1, touch: 3 }
    };
    let (rc, ri, rep) = (&rc, &ri, &rep);
    cx.group("recorded", 3, |w, i| {
        w.case(i, || format!("recorded chain, root {}", i), |w| match i {
            0 => judge(w, rc, ri, None, Tri::Yes, Some(rep)),
            1 => judge(w, rc, ri, Some(pemr), Tri::No, None),
            _ => judge(w, ri, rc, None, Tri::No, None),
        });
    });
    // damage to each certificate
    let density = 2;
    cx.bound(format!("edits ({}) of the client and intermediate certificates of a made and a recorded chain", ["", "every bit, removal, insertion, cut, swap", "every byte value, removal, insertion, cut, swap"][density]));
    let rsa = &Chain { root: signers[2].clone(), inter: signers2[2].clone(), leaf: leaves[1].clone(), exts: std_exts() };
    let made: Vec<(String, Vec<u8>, Vec<u8>, Option<String>, Report)> = vec![
        ("made".into(), ch.client_cert(), inter.clone(), Some(pemr.clone()), base.clone()),
        ("RSA".into(), rsa.client_cert(), rsa.inter_cert(), Some(rsa.root_pem()), std_report(&rsa.leaf)),
        ("recorded".into(), rc.clone(), ri.clone(), None, rep.clone()),
    ];
    for (name, c, m, r, rep) in &made {
        for which in 0..2 {
            let orig = [c, m][which];
            let intact = x509::parts(orig);
            let mut all = vec![];
            edits(orig, density, |d, v| all.push((d, v)));
            cx.group(&format!("edits {} {}", name, ["client", "intermediate"][which]), all.len(), |w, i| {
                let (d, v) = &all[i];
                // a change outside the signed bytes and the signature may go unnoticed, if it changes nothing
                let t = if x509::parts(v) == intact { Tri::May } else { Tri::No };
                let (a, b) = if which == 0 { (v, m) } else { (c, v) };
                w.case((which, v), || format!("{} {} {}: {}", name, ["client", "intermediate"][which], d, hex(v)), |w| judge(w, a, b, r.as_deref(), t, Some(rep)));
            });
        }
    }
    // roots
    let good = pemr.as_str();
    let body: String = good.lines().filter(|l| !l.starts_with('-')).collect();
    let der = base64::decode(&body).unwrap();
    let mut roots: Vec<(String, Tri)> = vec![
        (String::new(), Tri::No),
        ("\n".into(), Tri::No),
        ("garbage".into(), Tri::No),
        (body.clone(), Tri::No),
        ("-----BEGIN CERTIFICATE-----".into(), Tri::No),
        ("-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n".into(), Tri::No),
        ("-----BEGIN CERTIFICATE-----\n!!!!\n-----END CERTIFICATE-----\n".into(), Tri::No),
        (pem("CERTIFICATE", b"x"), Tri::No),
        (pem("CERTIFICATE", &x509::spki(&ch.root.public())), Tri::No),
        (pem("PUBLIC KEY", &x509::spki(&ch.root.public())), Tri::No),
        (pem("CERTIFICATE", &der), Tri::Yes),
        (good.replace('\n', "\r\n"), Tri::May),
        (format!("{}{}", good, pem("CERTIFICATE", &root2_der)), Tri::May),
        (format!("{}{}", pem("CERTIFICATE", &root2_der), good), Tri::No),
        (good.trim_end().to_string(), Tri::Yes),
        (pem("CERTIFICATE", &root2_der), Tri::No),
    ];
    for cut in 0..good.len() {
        roots.push((good[..cut].to_string(), if good[..cut].trim_end() == good.trim_end() { Tri::Yes } else { Tri::May }));
    }
    for cut in 0..der.len() {
        roots.push((pem("CERTIFICATE", &der[..cut]), Tri::May));
    }
    // a root whose key is not the one that signed
    let key_at = der.windows(65).position(|x| matches!(&ch.root.public(), Pub::Ec { pt, .. } if pt == x)).unwrap();
    for i in 0..65 {
        for k in 0..8 {
            let mut d = der.clone();
            d[key_at + i] ^= 1 << k;
            roots.push((pem("CERTIFICATE", &d), Tri::No));
        }
    }
    cx.bound(format!("{} root texts: malformed, cut, of another kind, with another key", roots.len()));
    let cc = &ch.client_cert();
    cx.group("roots", roots.len(), |w, i| {
        let (r, t) = &roots[i];
        w.case(r, || format!("root {:?}", r), |w| judge(w, cc, inter, Some(r), *t, Some(base).filter(|_| *t != Tri::No)));
        // a genuine device is not certified by these roots either
        w.case((r, 0), || format!("recorded chain, root {:?}", r), |w| judge(w, rc, ri, Some(r), Tri::No, None));
    });
}
