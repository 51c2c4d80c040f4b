//! FIDO attestations: authenticator data, the SSH key of a credential, and the attestation chain.
use super::c03::edits;
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::der::*;
use refm::ec::C;
use refm::fido::*;
use refm::keys::{self, Priv, Pub};
use refm::x509::{self, ext, pem, Tbs};
use refm::Tri;
use sshcerts::fido::verification::{verify_auth_data, Transport, ValidAttestation};
use sshcerts::fido::AuthData;

pub const FW: &str = "1.3.6.1.4.1.41482.13.1";
pub const AAGUID: &str = "1.3.6.1.4.1.45724.1.1.4";
pub const TRANSPORTS: &str = "1.3.6.1.4.1.45724.2.1.1";

/// What was read agrees with the data.
fn same_auth(g: &AuthData, a: &Auth) -> R<()> {
    ensure_eq!(hex(&g.rpid_hash), hex(&a.rpid), "relying party hash");
    ensure_eq!(g.flags, a.flags, "flags");
    ensure_eq!(g.sign_count, a.count, "signature counter");
    ensure_eq!(hex(&g.aaguid), hex(&a.aaguid), "AAGUID");
    ensure_eq!(hex(&g.credential_id), hex(&a.cred), "credential id");
    if let Some(c) = &a.cose {
        ensure_eq!(g.cose_key.key_type, c.kty, "key type");
        ensure_eq!(g.cose_key.algorithm, c.alg, "algorithm");
        ensure_eq!(hex(&g.cose_key.key), hex(&c.key), "key");
        ensure_eq!(g.cose_key.parameters.get(&-1).cloned(), c.crv.map(|c| c.to_string()), "curve");
    }
    Ok(())
}
fn judge_key(w: &mut W, g: &AuthData, a: &Auth, app: &str) -> R<&'static str> {
    let c = match &a.cose {
        Some(c) => c,
        None => return Ok("not judged"),
    };
    let want = ssh_key(c, app);
    let k = w.call("ssh_public_key", || g.ssh_public_key(app))?;
    match k {
        Ok(k) => {
            ensure!(want.is_some(), "an SSH key {:?} for a credential that has none", conv::pubkey(&k));
            ensure_eq!(conv::pubkey(&k), want, "SSH key");
            ensure_eq!(k.comment, None, "comment");
            Ok("key")
        }
        Err(e) => {
            ensure!(want.is_none(), "no SSH key: {:?}", e);
            Ok("no key")
        }
    }
}
fn judge_data(w: &mut W, b: &[u8], app: &str) -> R<&'static str> {
    let (t, want) = parse(b);
    let g = w.call("AuthData::parse", || AuthData::parse(b))?;
    ensure!(t.allows(g.is_ok()), "gives {:?}, expected {:?} {:?}", g, t, want);
    match (&g, &want) {
        (Ok(g), Some(a)) => {
            same_auth(g, a)?;
            ensure_eq!(w.call("user_presence", || g.user_presence())?, a.flags & 1 != 0, "user presence");
            ensure_eq!(w.call("user_verification", || g.user_verification())?, a.flags & 4 != 0, "user verification");
            judge_key(w, g, a, app)
        }
        _ => Ok("refused"),
    }
}
#[derive(Clone, Debug, Hash, PartialEq, Eq, Default)]
pub struct Device {
    pub fw: Option<String>,
    pub aaguid: Option<Vec<u8>>,
    pub transports: Option<Vec<u8>>,
}
fn device(v: &ValidAttestation) -> Device {
    let no = |t: &Transport| match t {
        Transport::Bluetooth => 0,
        Transport::BluetoothLE => 1,
        Transport::USB => 2,
        Transport::NFC => 3,
        Transport::USBInternal => 4,
    };
    Device { fw: v.firmware.clone(), aaguid: v.aaguid.clone(), transports: v.transports.as_ref().map(|t| t.iter().map(no).collect()) }
}
/// A whole attestation: data, signature, challenge, algorithm, certificate and root.
#[derive(Clone, Debug, Hash)]
pub struct Att {
    pub auth: Vec<u8>,
    pub sig: Vec<u8>,
    pub chal: Vec<u8>,
    pub alg: i32,
    pub cert: Vec<u8>,
    pub root: Option<String>,
}
/// dev: None where the extensions are not judged.
fn judge(w: &mut W, a: &Att, t: Tri, dev: Option<&Device>) -> R<&'static str> {
    let g = w.call("verify_auth_data", || verify_auth_data(&a.auth, &a.sig, &a.chal, a.alg, &a.cert, a.root.as_deref()))?;
    ensure!(t.allows(g.is_ok()), "gives {:?}, expected {:?} {:?}", g, t, dev);
    if let Ok(g) = &g {
        if let (_, Some(p)) = parse(&a.auth) {
            same_auth(&g.auth_data, &p)?;
        }
        if let Some(d) = dev {
            ensure_eq!(&device(g), d, "device");
        }
        return Ok("valid");
    }
    Ok("refused")
}
fn p256(n: u8) -> Priv {
    Priv::Ec { c: C::P256, d: keys::scalar(n, 32) }
}
fn p384(n: u8) -> Priv {
    Priv::Ec { c: C::P384, d: keys::scalar(n, 48) }
}
fn pt256(n: u8) -> Vec<u8> {
    match p256(n).public() {
        Pub::Ec { pt, .. } => pt,
        _ => vec![],
    }
}
pub fn std_exts() -> Vec<Vec<u8>> {
    vec![ext(FW, false, &octets(&[5, 4, 3])), ext(AAGUID, false, &octets(&fill(16, 7))), ext(TRANSPORTS, false, &bits_unused(&[0x30], 4))]
}
fn std_device() -> Device {
    Device { fw: Some("5.4.3".into()), aaguid: Some(fill(16, 7)), transports: Some(vec![2, 3]) }
}
fn root_pem(root: &Priv) -> String {
    pem("CERTIFICATE", &Tbs::new("root", "root", &root.public(), root, vec![]).sign(root))
}
pub fn std_auth() -> Vec<u8> {
    auth_data(&fill(32, 1), 0x45, 0x01020304, &fill(16, 3), &fill(64, 9), &map(&okp(&keys::ed_pub(&keys::seed(7)))))
}
pub fn attest(root: &Priv, att: &Priv, exts: Vec<Vec<u8>>, auth: Vec<u8>, chal: Vec<u8>) -> Att {
    let cert = Tbs::new("root", "att", &att.public(), root, exts).sign(root);
    let sig = x509::sign_raw(att, &[auth.clone(), chal.clone()].concat());
    Att { auth, sig, chal, alg: -7, cert, root: Some(root_pem(root)) }
}

pub fn run(cx: &Cx) {
    cx.assume("certificate validity dates and names are not part of the property; data after the credential key without the extension flag, COSE entries given twice or unknown, integers not in their shortest form or beyond 63 bits, and transport bits past the fifth are not judged for acceptance; (r, n-s) is a valid signature to anyone who knows (r, s)");
    let apps = ["", "ssh:", "ssh:web", "ssh:\u{e9}\u{4e2d}", "a b\"\n", "x"];
    let ed = keys::ed_pub(&keys::seed(7));
    let ec = pt256(9);
    // A. authenticator data
    let creds: Vec<usize> = (0..cx.pick(140, 600)).chain([255, 256, 257, 300, 511, 512, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65534, 65535]).collect();
    cx.bound(format!("authenticator data with every flag byte, 40 counters, {} credential id lengths up to 65535, both key kinds", creds.len()));
    cx.group("flags", 256 * 2 * 6, |w, i| {
        let d = digits(i, &[256, 2, 6]);
        let cose = map(&if d[1] == 0 { okp(&ed) } else { ec2(&ec) });
        let b = auth_data(&fill(32, 1), d[0] as u8, 7, &fill(16, 3), &fill([0, 1, 64, 65, 255, 256][d[2]], 5), &cose);
        w.case(&b, || format!("authenticator data {}", hex(&b)), |w| judge_data(w, &b, "ssh:"));
    });
    let counts: Vec<u32> = (0..32).map(|k| 1 << k).chain([0, 3, 255, 0x1ff, 0xffff, 0x7fffffff, 0xfffffffe, u32::MAX, 0x01020304]).collect();
    cx.group("counters", counts.len() * 4, |w, i| {
        let d = digits(i, &[counts.len(), 4]);
        let f = [0x00u8, 0xff, 0x80, 0x5a][d[1]];
        let b = auth_data(&[f; 32], 0x41, counts[d[0]], &[!f; 16], &[f; 16], &map(&okp(&ed)));
        w.case(&b, || format!("authenticator data {}", hex(&b)), |w| judge_data(w, &b, "ssh:"));
    });
    cx.group("credential-ids", creds.len() * 2, |w, i| {
        let d = digits(i, &[creds.len(), 2]);
        let b = auth_data(&fill(32, 2), 0xc5, 1, &fill(16, 4), &fill(creds[d[0]], 5), &map(&if d[1] == 0 { okp(&ed) } else { ec2(&ec) }));
        w.case(&b, || format!("credential id of {} bytes, kind {}", creds[d[0]], d[1]), |w| judge_data(w, &b, "ssh:"));
    });
    // every bit of every fixed field, alone
    cx.group("field-bits", 53 * 8 * 2, |w, i| {
        let (bit, inv) = (i / 2, i % 2 == 1);
        let mut b = auth_data(&[0; 32], 0, 0, &[0; 16], &fill(64, 5), &map(&ec2(&ec)));
        b[bit / 8] |= 1 << (bit % 8);
        if inv {
            b[..53].iter_mut().for_each(|x| *x = !*x);
        }
        b[32] |= 0x40;
        w.case(&b, || format!("authenticator data {}", hex(&b)), |w| judge_data(w, &b, "ssh:"));
    });
    // the kind of key: type, algorithm, curve and key lengths in every combination
    let ktys = [0i64, 1, 2, 3, 4, 5, -1, 24, 257];
    let algs = [-7i64, -8, -35, -36, -257, 0, 1, 7, 8, -9, -6, 248, 249, 65529];
    let crvs = [1i64, 2, 3, 4, 5, 6, 7, 8, 0, -1, 257, 262];
    let lens = [0usize, 1, 31, 32, 33, 48, 64, 65, 66];
    let radix = [ktys.len(), algs.len(), crvs.len() + 1, lens.len(), 4];
    cx.bound(format!("all combinations of {} key types, {} algorithms, {} curves, {} key lengths and 4 kinds of second coordinate", ktys.len(), algs.len(), crvs.len() + 1, lens.len()));
    cx.group("key-kinds", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let mut e = vec![[int(1), int(ktys[d[0]])].concat(), [int(3), int(algs[d[1]])].concat()];
        if let Some(c) = crvs.get(d[2]) {
            e.push([int(-1), int(*c)].concat());
        }
        let n = lens[d[3]];
        e.push([int(-2), cbytes(&fill(n, 11))].concat());
        match d[4] {
            0 => (),
            1 => e.push([int(-3), cbytes(&fill(n, 77))].concat()),
            2 => e.push([int(-3), cbytes(&fill(n + 1, 77))].concat()),
            _ => e.push([int(-3), cbytes(&fill(n.saturating_sub(1), 77))].concat()),
        }
        let b = auth_data(&fill(32, 1), 0x41, 7, &fill(16, 3), &fill(16, 5), &map(&e));
        w.case(&b, || format!("type {}, algorithm {}, curve {:?}, key of {} bytes, second coordinate {}: {}", ktys[d[0]], algs[d[1]], crvs.get(d[2]), n, d[4], hex(&b)), |w| judge_data(w, &b, "ssh:"));
    });
    // the order of the entries, missing and repeated entries
    for (name, base) in [("okp", okp(&ed)), ("ec2", ec2(&ec))] {
        let mut e = base.clone();
        e.push([int(-2), cbytes(&fill(32, 99))].concat());
        e.push([int(4), vec![0xf7]].concat());
        let (k, depth) = (e.len(), cx.pick(5, 6));
        cx.bound(format!("every sequence of up to {} map entries out of {} ({})", depth, k, name));
        cx.group(&format!("entries {}", name), words(k, depth), |w, i| {
            let l = word(i, k, depth);
            let b = auth_data(&fill(32, 1), 0x41, 7, &fill(16, 3), &fill(16, 5), &map(&l.iter().map(|&x| e[x].clone()).collect::<Vec<_>>()));
            w.case(&b, || format!("{} entries {:?}: {}", name, l, hex(&b)), |w| judge_data(w, &b, "ssh:"));
        });
        // integer widths of labels and values
        let n = base.len();
        let radix = vec![5usize; 6];
        cx.group(&format!("widths {}", name), prod(&radix), |w, i| {
            let d = digits(i, &radix);
            let (kty, alg, crv) = if name == "okp" { (1, -8, 6) } else { (2, -7, 1) };
            let mut e = base.clone();
            e[0] = [int_w(1, d[0]), int_w(kty, d[1])].concat();
            e[1] = [int_w(3, d[2]), int_w(alg, d[3])].concat();
            e[2] = [int_w(-1, d[4]), int_w(crv, d[5])].concat();
            let b = auth_data(&fill(32, 1), 0x41, 7, &fill(16, 3), &fill(16, 5), &map(&e[..n]));
            w.case(&b, || format!("{} integer widths {:?}: {}", name, d, hex(&b)), |w| judge_data(w, &b, "ssh:"));
        });
    }
    // every data item in place of each header byte, every label and value byte pair
    cx.group("headers", 256 * 256, |w, i| {
        let (a, c) = ((i >> 8) as u8, i as u8);
        let body = okp(&ed).concat();
        let b = auth_data(&fill(32, 1), 0x41, 7, &fill(16, 3), &fill(16, 5), &[&[a, c][..], &body].concat());
        w.case(&b, || format!("map header {:02x} {:02x}: {}", a, c, hex(&b)), |w| judge_data(w, &b, "ssh:"));
        let b = auth_data(&fill(32, 1), 0x41, 7, &fill(16, 3), &fill(16, 5), &[&[0xa4, a, c][..], &body[2..]].concat());
        w.case(&b, || format!("first entry {:02x} {:02x}: {}", a, c, hex(&b)), |w| judge_data(w, &b, "ssh:"));
        let b = auth_data(&fill(32, 1), 0x41, 7, &fill(16, 3), &fill(16, 5), &[&[0xa4][..], &body[..2], &[a, c], &body[4..]].concat());
        w.case(&b, || format!("second entry {:02x} {:02x}: {}", a, c, hex(&b)), |w| judge_data(w, &b, "ssh:"));
    });
    // lengths of 64-bit and other absurd items
    let mut odd: Vec<Vec<u8>> = vec![];
    for maj in 0..8u8 {
        for width in 1..5 {
            for v in [0u64, 4, 24, 256, 257, 65536, 1 << 32, 1 << 63, u64::MAX] {
                let h = head_w(maj, v, width);
                odd.push([h.clone(), okp(&ed).concat()].concat());
                odd.push([vec![0xa4], okp(&ed)[..3].concat(), int(-2), h.clone(), ed.clone()].concat());
                odd.push([vec![0xa4], h.clone(), int(1), okp(&ed)[1..].concat()].concat());
                odd.push([vec![0xa4], int(1), h.clone(), okp(&ed)[1..].concat()].concat());
                odd.push([vec![0xa5], okp(&ed).concat(), int(-3), h.clone()].concat());
            }
        }
        odd.push([vec![maj << 5 | 31], okp(&ed).concat(), vec![0xff]].concat());
        odd.push([vec![0xa4], okp(&ed)[..3].concat(), int(-2), vec![maj << 5 | 31], cbytes(&ed), vec![0xff]].concat());
    }
    cx.group("absurd", odd.len(), |w, i| {
        let b = auth_data(&fill(32, 1), 0x41, 7, &fill(16, 3), &fill(16, 5), &odd[i]);
        w.case(&b, || format!("COSE key {}", hex(&odd[i])), |w| judge_data(w, &b, "ssh:"));
    });
    // tails and extension data
    cx.group("tails", 2 * 256 * 5, |w, i| {
        let d = digits(i, &[2, 256, 5]);
        let mut b = auth_data(&fill(32, 1), if d[0] == 0 { 0x41 } else { 0xc1 }, 7, &fill(16, 3), &fill(16, 5), &map(&ec2(&ec)));
        b.extend(vec![d[1] as u8; [1, 2, 3, 16, 100][d[2]]]);
        w.case(&b, || format!("authenticator data {}", hex(&b)), |w| judge_data(w, &b, "ssh:"));
    });
    cx.group("apps", apps.len() * 2 + 300 + 0x800, |w, i| {
        let app = match i {
            _ if i < apps.len() * 2 => apps[i / 2].to_string(),
            _ if i < apps.len() * 2 + 300 => text(i, 3),
            _ => {
                let c = char::from_u32((i - apps.len() * 2 - 300) as u32).unwrap();
                [format!("{}", c), format!("ssh:{}", c), format!("{}ssh:{}", c, c), format!("ssh:a{}b", c)][i % 4].clone()
            }
        };
        let b = auth_data(&fill(32, 1), 0x41, 7, &fill(16, 3), &fill(16, 5), &map(&if i % 2 == 0 { okp(&ed) } else { ec2(&ec) }));
        w.case((&b, &app), || format!("application {:?} of {}", app, hex(&b)), |w| judge_data(w, &b, &app));
    });
    let (bio, nfc) = (Att { auth: include_bytes!("../../fixtures/bio_auth.bin").to_vec(), sig: include_bytes!("../../fixtures/bio_sig.bin").to_vec(), chal: refm::sha256(include_bytes!("../../fixtures/bio_chal.bin")), alg: -7, cert: include_bytes!("../../fixtures/bio_cert.bin").to_vec(), root: None }, Att { auth: include_bytes!("../../fixtures/nfc_auth.bin").to_vec(), sig: include_bytes!("../../fixtures/nfc_sig.bin").to_vec(), chal: refm::sha256(include_bytes!("../../fixtures/nfc_chal.bin")), alg: -7, cert: include_bytes!("../../fixtures/nfc_cert.bin").to_vec(), root: None });
    let samples = [("Ed25519", std_auth()), ("EC2", auth_data(&fill(32, 1), 0xc5, 9, &fill(16, 3), &fill(20, 9), &[map(&ec2(&ec)), vec![0xa0]].concat())), ("recorded", bio.auth.clone())];
    cx.bound("every byte of three authenticator data set to every value, removed, inserted, cut, swapped".to_string());
    for (name, orig) in &samples {
        let mut all = vec![];
        edits(orig, 2, |d, v| all.push((d, v)));
        cx.group(&format!("data edits {}", name), all.len(), |w, i| {
            let (d, v) = &all[i];
            w.case(v, || format!("{} {}: {}", name, d, hex(v)), |w| judge_data(w, v, "ssh:"));
        });
    }

    // B. attestation
    let roots = [p256(1), p384(2), Priv::Rsa(keys::rsa("2048")), Priv::Ed { seed: keys::seed(3) }];
    let others = [p256(11), p384(12), Priv::Rsa(keys::rsa("3072")), Priv::Ed { seed: keys::seed(13) }];
    let atts = [p256(31), p384(32), Priv::Rsa(keys::rsa("2048e3")), Priv::Ed { seed: keys::seed(33) }];
    let att2 = p256(41);
    let who = ["its key", "another key of the kind", "root", "the credential's key", "nobody", "its key, over the data alone", "its key, over challenge and data", "its key, over the hash"];
    let cert_by = ["root", "other root of the kind", "attestation key", "nobody", "root, then changed"];
    let radix = [roots.len(), atts.len(), who.len(), cert_by.len()];
    cx.bound(format!("attestations over every combination of root kind (4), attestation key kind (4), data signed by {:?} and certificate signed by {:?}", who, cert_by));
    cx.group("links", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let (root, att) = (&roots[d[0]], &atts[d[1]]);
        let mut a = attest(root, att, std_exts(), std_auth(), fill(32, 55));
        let all = [a.auth.clone(), a.chal.clone()].concat();
        match d[2] {
            0 => (),
            1 => a.sig = x509::sign_raw(&att2, &all),
            2 => a.sig = x509::sign_raw(root, &all),
            3 => a.sig = x509::sign_raw(&p256(9), &all),
            4 => a.sig = ecdsa_sig(&[1], &[1]),
            5 => a.sig = x509::sign_raw(att, &a.auth),
            6 => a.sig = x509::sign_raw(att, &[a.chal.clone(), a.auth.clone()].concat()),
            _ => a.sig = x509::sign_raw(att, &refm::sha256(&all)),
        }
        let tbs = Tbs::new("root", "att", &att.public(), root, std_exts());
        match d[3] {
            0 => (),
            1 => a.cert = { let mut t = tbs; t.sig_alg = x509::alg_id(&others[d[0]]); t.sign(&others[d[0]]) },
            2 => a.cert = { let mut t = tbs; t.sig_alg = x509::alg_id(att); t.sign(att) },
            3 => a.cert = x509::assemble(&tbs.encode(), &tbs.sig_alg, &[0; 64]),
            _ => {
                let s = x509::sign_raw(root, &tbs.encode());
                let mut t = tbs;
                t.serial = uint(&[1, 2, 4]);
                a.cert = x509::assemble(&t.encode(), &t.sig_alg, &s);
            }
        }
        let ok = d[1] == 0 && d[2] == 0 && d[3] == 0;
        let dev = std_device();
        w.case(&a, || format!("root kind {}, attestation key kind {}, data signed by {}, certificate by {}", d[0], d[1], who[d[2]], cert_by[d[3]]), |w| judge(w, &a, if ok { Tri::Yes } else { Tri::No }, Some(&dev)));
    });
    // parts of different attestations put together
    let pool: Vec<Att> = (0..3u8)
        .map(|k| attest(&p256(1 + k), &p256(31 + k), std_exts(), auth_data(&fill(32, k), 0x41, k as u32, &fill(16, 3), &fill(16, k), &map(&okp(&ed))), fill(32, 50 + k)))
        .chain([nfc.clone(), bio.clone()])
        .collect();
    let n = pool.len();
    cx.bound(format!("all {} ways of putting together parts of {} attestations, two of them recorded from devices", n.pow(5), n));
    let recorded_ok = |a: &Att| a.root.is_none();
    cx.group("parts", n.pow(5), |w, i| {
        let d = digits(i, &[n; 5]);
        let a = Att { auth: pool[d[0]].auth.clone(), sig: pool[d[1]].sig.clone(), chal: pool[d[2]].chal.clone(), alg: -7, cert: pool[d[3]].cert.clone(), root: pool[d[4]].root.clone() };
        let ok = d[1] == d[0] && d[2] == d[0] && d[3] == d[0] && (d[4] == d[0] || recorded_ok(&pool[d[0]]) && recorded_ok(&pool[d[4]]));
        w.case(i, || format!("data, signature, challenge, certificate, root of attestations {:?}", d), |w| judge(w, &a, if ok { Tri::Yes } else { Tri::No }, None));
    });
    // the recorded attestations give what is in them
    cx.group("recorded", 2, |w, i| {
        let a = [&bio, &nfc][i];
        w.case(i, || format!("recorded attestation {}", i), |w| {
            let g = w.call("verify_auth_data", || verify_auth_data(&a.auth, &a.sig, &a.chal, a.alg, &a.cert, None))?;
            let g = match g {
                Ok(g) => g,
                Err(e) => return Err(Fail(format!("refused: {:?}", e))),
            };
            let dev = device(&g);
            ensure_eq!(dev.fw.as_deref(), [Some("5.5.6"), None][i], "firmware");
            ensure_eq!(dev.transports.clone(), Some(vec![vec![2u8], vec![2, 3]][i].clone()), "transports");
            ensure_eq!(dev.aaguid.as_deref().map(hex), Some(hex(&g.auth_data.aaguid)), "AAGUID");
            let p = parse(&a.auth).1.unwrap();
            same_auth(&g.auth_data, &p)?;
            judge_key(w, &g.auth_data, &p, "ssh:")
        });
    });
    let good = &attest(&p256(1), &p256(31), std_exts(), std_auth(), fill(32, 55));
    let good2 = &attest(&roots[2], &p256(31), std_exts(), samples[1].1.clone(), fill(32, 55));
    let dev = &std_device();
    // algorithms
    let algs: Vec<i32> = (-300..300).chain([i32::MIN, i32::MAX, -65535, -65536 - 7, 65529, -7 + 256]).collect();
    cx.group("algorithms", algs.len(), |w, i| {
        let mut a = good.clone();
        a.alg = algs[i];
        w.case(a.alg, || format!("algorithm {}", a.alg), |w| judge(w, &a, if a.alg == -7 { Tri::Yes } else { Tri::No }, Some(dev)));
    });
    // challenges
    let mut lens: Vec<usize> = (0..cx.pick(200, 600)).collect();
    lens.extend([1000, 4096, 65535, 65536, 1 << 20]);
    cx.bound(format!("challenges of every length up to {}, as signed and with one byte more, less or other", cx.pick(200, 600)));
    cx.group("challenges", lens.len() * 5, |w, i| {
        let d = digits(i, &[lens.len(), 5]);
        let mut a = attest(&p256(1), &p256(31), std_exts(), std_auth(), fill(lens[d[0]], 55));
        let mut ok = true;
        match d[1] {
            0 => (),
            1 => { a.chal.push(0); ok = false }
            2 => ok = a.chal.pop().is_none(),
            3 => if let Some(x) = a.chal.last_mut() { *x ^= 1; ok = false },
            _ => if let Some(x) = a.chal.first_mut() { *x ^= 0x80; ok = false },
        }
        w.case(&a, || format!("challenge of {} bytes, change {}", lens[d[0]], d[1]), |w| judge(w, &a, if ok { Tri::Yes } else { Tri::No }, Some(dev)));
    });
    // the boundary between data and challenge moved: whatever is signed is judged by what was parsed
    let all = [good.auth.clone(), good.chal.clone()].concat();
    let all = &all;
    cx.group("boundary", all.len() + 1, |w, i| {
        let a = Att { auth: all[..i].to_vec(), chal: all[i..].to_vec(), ..good.clone() };
        let t = match parse(&a.auth).0 {
            Tri::No => Tri::No,
            _ if i == good.auth.len() => Tri::Yes,
            _ => Tri::May,
        };
        w.case(i, || format!("first {} of the signed bytes as authenticator data", i), |w| judge(w, &a, t, Some(dev)));
    });
    // properly signed authenticator data that is not well-formed
    let mut bad = vec![];
    edits(&std_auth(), 0, |d, v| bad.push((d, v)));
    cx.group("signed-data", bad.len(), |w, i| {
        let (d, v) = &bad[i];
        let a = attest(&p256(1), &p256(31), std_exts(), v.clone(), fill(32, 55));
        w.case(v, || format!("signed authenticator data, {}: {}", d, hex(v)), |w| judge(w, &a, parse(v).0, Some(dev)));
    });
    // damage
    cx.bound("every byte of data, challenge, signature and certificate of three attestations set to every value (recorded and RSA: every bit), removed, inserted, cut, swapped".to_string());
    for (name, o, dens) in [("made", good, 2), ("RSA root", good2, 1), ("recorded", &bio, cx.pick(1, 2))] {
        for part in 0..4 {
            let orig = [&o.auth, &o.sig, &o.chal, &o.cert][part];
            let intact = x509::parts(&o.cert);
            let mut all = vec![];
            edits(orig, dens, |d, v| all.push((d, v)));
            let sig_rs = rs(&o.sig);
            let odev = Some(dev).filter(|_| name != "recorded");
            cx.group(&format!("edits {} {}", name, ["data", "signature", "challenge", "certificate"][part]), all.len(), |w, i| {
                let (d, v) = &all[i];
                let mut a = o.clone();
                *[&mut a.auth, &mut a.sig, &mut a.chal, &mut a.cert][part] = v.clone();
                let t = match part {
                    _ if v == orig => Tri::Yes,
                    1 if rs(v).is_some() && rs(v) == sig_rs => Tri::May,
                    3 if x509::parts(v) == intact => Tri::May,
                    _ => Tri::No,
                };
                w.case((part, v), || format!("{} {} {}: {}", name, ["data", "signature", "challenge", "certificate"][part], d, hex(v)), |w| judge(w, &a, t, odev));
            });
        }
    }
    // signatures related to the right one
    let (r, s) = rs(&good.sig).unwrap();
    let order = refm::ec::params(C::P256).n.to_bytes_be();
    let nums: Vec<Vec<u8>> = vec![vec![], vec![1], r.clone(), s.clone(), order.clone(), add(&r, &order), add(&s, &order), sub(&order, &s), sub(&order, &r), [vec![0; 1], r.clone()].concat(), [r.clone(), vec![0]].concat()];
    cx.group("numbers", nums.len() * nums.len(), |w, i| {
        let (x, y) = (&nums[i % nums.len()], &nums[i / nums.len()]);
        let a = Att { sig: ecdsa_sig(x, y), ..good.clone() };
        let st = |v: &[u8]| refm::wire::strip0(v);
        let t = if st(x) == r && st(y) == s { Tri::Yes } else if st(x) == r && st(y) == sub(&order, &s) { Tri::May } else { Tri::No };
        w.case(&a.sig, || format!("signature numbers {} {}", hex(x), hex(y)), |w| judge(w, &a, t, Some(dev)));
    });
    cx.group("raw-signatures", 4, |w, i| {
        let mut raw = [vec![0; 32 - r.len()], r.clone(), vec![0; 32 - s.len()], s.clone()].concat();
        match i {
            0 => (),
            1 => raw = [good.sig.clone(), vec![0]].concat(),
            2 => raw = [good.sig.clone(), good.sig.clone()].concat(),
            _ => raw = refm::keys::ecdsa_inner(&r, &s),
        }
        let a = Att { sig: raw, ..good.clone() };
        w.case(&a.sig, || format!("signature {}", hex(&a.sig)), |w| judge(w, &a, Tri::No, None));
    });
    // C. extensions of the attestation certificate
    let with = |w: &mut W, exts: Vec<Vec<u8>>, desc: &dyn Fn() -> String, t: Tri, dev: &Device| {
        let a = attest(&p256(1), &p256(31), exts, std_auth(), fill(32, 55));
        w.case(&a, desc, |w| judge(w, &a, t, Some(dev)));
    };
    cx.bound("every firmware byte, AAGUID byte and every transport bit string of one byte, extensions absent, malformed, in every order".to_string());
    cx.group("firmware", 256 * 3 + 27, |w, i| {
        let f = if i < 768 { let mut f = [5u8, 2, 4]; f[i / 256] = i as u8; f } else { let d = digits(i - 768, &[3, 3, 3]); [[0, 10, 255][d[0]], [0, 10, 255][d[1]], [0, 10, 255][d[2]]] };
        let mut e = std_exts();
        e[0] = ext(FW, i % 2 == 0, &octets(&f));
        with(w, e, &|| format!("firmware {:?}", f), Tri::Yes, &Device { fw: Some(format!("{}.{}.{}", f[0], f[1], f[2])), ..dev.clone() });
    });
    cx.group("aaguid", 16 * 256, |w, i| {
        let mut g = fill(16, 7);
        g[i / 256] = i as u8;
        let mut e = std_exts();
        e[1] = ext(AAGUID, i % 2 == 0, &octets(&g));
        with(w, e, &|| format!("AAGUID {}", hex(&g)), Tri::Yes, &Device { aaguid: Some(g.clone()), ..dev.clone() });
    });
    cx.group("transports", 256 * 8, |w, i| {
        let (b, unused) = (i as u8, (i >> 8) as u8);
        if b & ((1u16 << unused) - 1) as u8 != 0 {
            return;
        }
        let mut e = std_exts();
        e[2] = ext(TRANSPORTS, false, &bits_unused(&[b], unused));
        let t: Vec<u8> = (0..5).filter(|k| b & (0x80 >> k) != 0).collect();
        let j = if b & 7 != 0 { Tri::May } else { Tri::Yes };
        with(w, e, &|| format!("transports {:08b} with {} unused bits", b, unused), j, &Device { transports: Some(t.clone()), ..dev.clone() });
    });
    cx.group("long-transports", 4 * 256, |w, i| {
        let b = i as u8;
        let tail = [vec![0u8], vec![0, 0, 0], vec![0xff], vec![0x80, 1]][i / 256].clone();
        let mut e = std_exts();
        e[2] = ext(TRANSPORTS, false, &bits(&[vec![b], tail].concat()));
        let t: Vec<u8> = (0..5).filter(|k| b & (0x80 >> k) != 0).collect();
        with(w, e, &|| format!("transports beginning {:08b}, longer", b), Tri::May, &Device { transports: Some(t.clone()), ..dev.clone() });
    });
    // malformed: refused, or as if absent
    let mut bad: Vec<(usize, Vec<u8>)> = vec![(2, bits(&[])), (2, vec![]), (2, vec![3]), (2, vec![3, 0]), (2, vec![3, 2, 8, 0]), (2, octets(&[4, 0x30])), (2, vec![3, 0x81]), (2, null()), (2, vec![0x30])];
    for len in 0..40usize {
        for k in 0..2 {
            if len != [3, 16][k] {
                bad.push((k, octets(&fill(len, 5))));
            }
            bad.push((k, fill(len, 9)));
            bad.push((k, utf8(&text(len, 1))));
            bad.push((k, bits(&fill(len, 5))));
            bad.push((k, tlv(4, &fill(len, 5))[..1 + len].to_vec()));
            bad.push((k, [&[4, len as u8 + 1][..], &fill(len, 5)].concat()));
        }
    }
    cx.group("bad-extension", bad.len(), |w, i| {
        let (which, v) = &bad[i];
        let mut e = std_exts();
        e[*which] = ext([FW, AAGUID, TRANSPORTS][*which], false, v);
        let mut d = dev.clone();
        match which {
            0 => d.fw = None,
            1 => d.aaguid = None,
            _ => d.transports = None,
        }
        let a = attest(&p256(1), &p256(31), e, std_auth(), fill(32, 55));
        w.case(&a, || format!("extension {} = {}", [FW, AAGUID, TRANSPORTS][*which], hex(v)), |w| {
            let g = w.call("verify_auth_data", || verify_auth_data(&a.auth, &a.sig, &a.chal, a.alg, &a.cert, a.root.as_deref()))?;
            match g {
                Ok(g) => {
                    let mut got = device(&g);
                    // an empty bit string names no transport
                    if got.transports == Some(vec![]) {
                        got.transports = None;
                    }
                    ensure_eq!(got, d, "device");
                    Ok("as if absent")
                }
                Err(_) => Ok("refused"),
            }
        });
    });
    let pool: Vec<Vec<u8>> = vec![
        std_exts()[0].clone(),
        std_exts()[1].clone(),
        std_exts()[2].clone(),
        ext("1.3.6.1.4.1.41482.13", false, &octets(&[9, 9, 9])),
        ext("1.3.6.1.4.1.41482.13.1.1", false, &octets(&[9, 9, 9])),
        ext("1.3.6.1.4.1.41482.3.3", false, &[8, 8, 8]),
        ext("1.3.6.1.4.1.45724.1.1.3", false, &octets(&fill(16, 70))),
        ext("1.3.6.1.4.1.45724.2.1.2", false, &bits(&[0xff])),
        ext("2.5.29.19", true, &seq(&[])),
    ];
    let depth = cx.pick(4, 5);
    cx.bound(format!("all sequences of up to {} distinct extensions out of {}", depth, pool.len()));
    cx.group("extension-lists", words(pool.len(), depth), |w, i| {
        let l = word(i, pool.len(), depth);
        if (0..l.len()).any(|a| l[..a].contains(&l[a])) {
            return;
        }
        let d = Device { fw: dev.fw.clone().filter(|_| l.contains(&0)), aaguid: dev.aaguid.clone().filter(|_| l.contains(&1)), transports: dev.transports.clone().filter(|_| l.contains(&2)) };
        with(w, l.iter().map(|&x| pool[x].clone()).collect(), &|| format!("extensions {:?}", l), Tri::Yes, &d);
    });
    // D. root texts
    let gp = good.root.clone().unwrap();
    let body: String = gp.lines().filter(|l| !l.starts_with('-')).collect();
    let der = base64::decode(&body).unwrap();
    let root2 = root_pem(&p256(5));
    let mut texts: Vec<(String, Tri)> = vec![
        (String::new(), Tri::No),
        ("garbage".into(), Tri::No),
        (body.clone(), Tri::No),
        ("-----BEGIN CERTIFICATE-----\n-----END CERTIFICATE-----\n".into(), Tri::No),
        ("-----BEGIN CERTIFICATE-----\n!!!!\n-----END CERTIFICATE-----\n".into(), Tri::No),
        (pem("CERTIFICATE", b"x"), Tri::No),
        (pem("CERTIFICATE", &x509::spki(&p256(1).public())), Tri::No),
        (gp.clone(), Tri::Yes),
        (gp.replace('\n', "\r\n"), Tri::May),
        (format!("{}{}", gp, root2), Tri::May),
        (format!("{}{}", root2, gp), Tri::No),
        (gp.trim_end().to_string(), Tri::Yes),
        (root2, Tri::No),
    ];
    for cut in 0..gp.len() {
        texts.push((gp[..cut].to_string(), if gp[..cut].trim_end() == gp.trim_end() { Tri::Yes } else { Tri::May }));
    }
    for cut in 0..der.len() {
        texts.push((pem("CERTIFICATE", &der[..cut]), Tri::May));
    }
    let kp = pt256(1);
    let key_at = der.windows(65).position(|x| x == kp).unwrap();
    for i in 0..65 * 8 {
        let mut d = der.clone();
        d[key_at + i / 8] ^= 1 << (i % 8);
        texts.push((pem("CERTIFICATE", &d), Tri::No));
    }
    cx.bound(format!("{} root texts: malformed, cut, of another kind, with another key", texts.len()));
    cx.group("roots", texts.len(), |w, i| {
        let (r, t) = &texts[i];
        let a = Att { root: Some(r.clone()), ..good.clone() };
        w.case(r, || format!("root {:?}", r), |w| judge(w, &a, *t, Some(dev)));
        // a genuine device is not certified by these roots either
        for (n, o) in [("bio", &bio), ("nfc", &nfc)] {
            let a = Att { root: Some(r.clone()), ..o.clone() };
            w.case((r, n), || format!("recorded attestation {}, root {:?}", n, r), |w| judge(w, &a, Tri::No, None));
        }
    });
    // the attestation object of an enrolment
    cx.group("enrolment-object", 5, |w, i| {
        let mut a = sshcerts::fido::generate::U2FAttestation { auth_data: bio.auth.clone(), auth_data_sig: bio.sig.clone(), intermediate: bio.cert.clone(), challenge: bio.chal.clone(), alg: -7 };
        match i {
            0 => (),
            1 => a.challenge[0] ^= 1,
            2 => a.auth_data[40] ^= 1,
            3 => a.alg = -8,
            _ => a.intermediate = good.cert.clone(),
        }
        w.case(i, || format!("attestation object, change {}", i), |w| {
            let g = w.call("U2FAttestation::verify", || a.verify())?;
            ensure_eq!(g.is_ok(), i == 0, "verdict");
            Ok("judged")
        });
    });
}
/// numbers of a DER signature, if it is one at all
fn rs(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    let (t, body, rest) = read(b)?;
    let c = children(body)?;
    if t != 0x30 || !rest.is_empty() || c.len() != 2 || c.iter().any(|x| x.0 != 2) {
        return None;
    }
    Some((refm::wire::strip0(&c[0].1), refm::wire::strip0(&c[1].1)))
}
fn add(a: &[u8], b: &[u8]) -> Vec<u8> {
    use num_bigint::BigUint;
    (BigUint::from_bytes_be(a) + BigUint::from_bytes_be(b)).to_bytes_be()
}
fn sub(a: &[u8], b: &[u8]) -> Vec<u8> {
    use num_bigint::BigUint;
    (BigUint::from_bytes_be(a) - BigUint::from_bytes_be(b)).to_bytes_be()
}
