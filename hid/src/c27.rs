//! FIDO enrolment, signing and device queries over HID, against simulated CTAP2 devices.
use crate::device::*;
use crate::engine::*;
use crate::interpose::{off_record, rng, rng_reset};
use crate::util::*;
use crate::{conv, ensure, ensure_eq};
use refm::der::*;
use refm::ec::{self, C};
use refm::fido::*;
use refm::keys::{self, Priv, Pub};
use refm::privkey::{Secret, SkExtra};
use refm::x509::{self, ext, pem, Tbs};
use refm::Tri;
use sshcerts::fido::generate::generate_new_ssh_key;
use sshcerts::fido::signing::sign_with_private_key;
use sshcerts::fido::verif_hooks::set_root;
use sshcerts::fido::{device_pin_retries, device_requires_pin, list_fido_devices, FIDOSSHKey};
use sshcerts::ssh::*;
use std::rc::Rc;

const FW: &str = "1.3.6.1.4.1.41482.13.1";
#[derive(Clone)]
enum Hw {
    Ed([u8; 32]),
    Ec(Vec<u8>),
}
impl Hw {
    fn public(&self, app: &str) -> Pub {
        match self {
            Hw::Ed(s) => Pub::SkEd { pk: keys::ed_pub(s), app: app.into() },
            Hw::Ec(_) => match self.key().public() {
                Pub::Ec { pt, .. } => Pub::SkEc { pt, app: app.into() },
                k => k,
            },
        }
    }
    fn key(&self) -> Priv {
        match self {
            Hw::Ed(s) => Priv::Ed { seed: *s },
            Hw::Ec(d) => Priv::Ec { c: C::P256, d: d.clone() },
        }
    }
    fn cose(&self) -> Vec<u8> {
        match self.key().public() {
            Pub::Ed { pk } => map(&okp(&pk)),
            Pub::Ec { pt, .. } => map(&ec2(&pt)),
            _ => vec![],
        }
    }
    fn sign(&self, m: &[u8]) -> Vec<u8> {
        match self {
            Hw::Ed(s) => keys::ed_sign(s, m),
            Hw::Ec(_) => x509::sign_raw(&self.key(), m),
        }
    }
    fn alg(&self) -> i128 {
        match self {
            Hw::Ed(_) => -8,
            _ => -7,
        }
    }
}
fn p256(n: u8) -> Priv {
    Priv::Ec { c: C::P256, d: keys::scalar(n, 32) }
}
fn root_pem(root: &Priv) -> String {
    pem("CERTIFICATE", &Tbs::new("root", "root", &root.public(), root, vec![]).sign(root))
}
fn att_cert(root: &Priv, att: &Priv) -> Vec<u8> {
    Tbs::new("root", "att", &att.public(), root, vec![ext(FW, false, &octets(&[5, 4, 3]))]).sign(root)
}
/// The ways the attestation can be wrong; the first two are right.
const HOW: [&str; 18] = [
    "right", "right, two certificates", "none", "U2F", "no certificate", "an empty list of certificates", "algorithm EdDSA", "algorithm RS256", "other root", "signed by another key", "over another challenge", "over no challenge", "over the challenge, hashed", "over other data", "self-signed certificate", "second certificate is the right one", "signature cut", "signature empty",
];
fn attest(how: usize, auth: Vec<u8>, hash: &[u8]) -> Made {
    let (root, att, other) = (p256(1), p256(2), p256(3));
    let over = |m: &[u8], h: &[u8]| x509::sign_raw(&att, &[m, h].concat());
    let cert = att_cert(&root, &att);
    let mut m = Made { fmt: "packed", alg: -7, sig: over(&auth, hash), x5c: Some(vec![cert.clone()]), auth };
    match how {
        1 => m.x5c = Some(vec![cert, att_cert(&other, &other)]),
        2 => m.fmt = "none",
        3 => {
            m.fmt = "fido-u2f";
            m.alg = 0;
        }
        4 => m.x5c = None,
        5 => m.x5c = Some(vec![]),
        6 => m.alg = -8,
        7 => m.alg = -257,
        8 => m.x5c = Some(vec![att_cert(&other, &att)]),
        9 => m.sig = x509::sign_raw(&other, &[&m.auth[..], hash].concat()),
        10 => m.sig = over(&m.auth, &[7; 32]),
        11 => m.sig = over(&m.auth, &[]),
        12 => m.sig = over(&m.auth, &refm::sha256(hash)),
        13 => {
            let mut r = m.auth.clone();
            r[36] ^= 1;
            m.sig = over(&r, hash);
        }
        14 => m.x5c = Some(vec![att_cert(&att, &att)]),
        15 => m.x5c = Some(vec![att_cert(&other, &other), cert]),
        16 => {
            m.sig.pop();
        }
        17 => m.sig.clear(),
        _ => {}
    }
    m
}
/// A device as it should be.
fn good(hw: &Hw, path: &str, app: &str, flags: u8, count: u32, handle: Vec<u8>, how: usize) -> Dev {
    let (h1, h2, cose, app1) = (hw.clone(), hw.clone(), hw.cose(), app.to_string());
    let _ = h1;
    Dev {
        path: path.as_bytes().to_vec(),
        product: Some("Key"),
        page: 0xf1d0,
        opens: true,
        alg: hw.alg(),
        pin: None,
        retries: 8,
        client_pin: Some(false),
        handle: handle.clone(),
        keepalives: 0,
        refuse: None,
        requests: 0,
        make: Box::new(move |_, hash, uv| attest(how, auth_data(&refm::sha256(app1.as_bytes()), flags | 0x40 | (uv as u8) << 2, count, &[3; 16], &handle, &cose), hash)),
        assert: Box::new(move |_, rp, hash, uv| {
            let auth = [&refm::sha256(rp.as_bytes())[..], &[flags | (uv as u8) << 2], &count.to_be_bytes()].concat();
            let sig = h2.sign(&[&auth[..], hash].concat());
            (auth, sig)
        }),
    }
}
fn with<T>(w: &mut W, name: &str, devs: Vec<Dev>, fail: Option<usize>, f: impl FnOnce() -> T) -> R<(T, World)> {
    plug(devs, fail);
    let r = w.call(name, f);
    let world = unplug();
    let v = r?;
    ensure!(world.odd.is_empty(), "{}: the device was told {:?}", name, world.odd);
    ensure_eq!(world.opened.len(), world.closed, "devices opened and closed by {}", name);
    for _ in &world.log {
        w.transition();
    }
    Ok((v, world))
}
struct Ask<'a> {
    app: &'a str,
    comment: &'a str,
    pin: Option<&'a str>,
    path: Option<&'a str>,
}
fn sk_parts(k: &PrivateKey) -> (Option<&str>, Option<&str>) {
    match &k.kind {
        PrivateKeyKind::Ed25519Sk(e) => (e.pin.as_deref(), e.device_path.as_deref()),
        PrivateKeyKind::EcdsaSk(e) => (e.pin.as_deref(), e.device_path.as_deref()),
        _ => (None, None),
    }
}
/// The key that was made agrees with the device's answer.
fn truthful(k: &FIDOSSHKey, a: &Ask, made: &Made, hash: &[u8]) -> R {
    let (t, p) = parse(&made.auth);
    let p = match p {
        Some(p) if t != Tri::No => p,
        _ => return Err(Fail("a key for malformed authenticator data".into())),
    };
    let want = p.cose.as_ref().and_then(|c| ssh_key(c, a.app));
    ensure!(want.is_some(), "a key for a credential of another kind");
    let o = conv::privkey(&k.private_key);
    ensure!(o.is_some(), "the key contradicts itself: {} with {:?}", k.private_key.key_type.name, k.private_key.pubkey.kind);
    let o = o.unwrap();
    ensure_eq!(Some(o.public), want, "public key");
    ensure_eq!(o.secret, Secret::Sk(SkExtra { flags: p.flags, handle: p.cred.clone(), reserved: vec![] }), "handle and flags");
    ensure_eq!(o.comment, a.comment.to_string(), "comment");
    ensure_eq!(sk_parts(&k.private_key), (a.pin, a.path), "PIN and device of the key");
    ensure_eq!(hex(&k.attestation.auth_data), hex(&made.auth), "authenticator data");
    ensure_eq!(hex(&k.attestation.challenge), hex(hash), "challenge");
    ensure_eq!(hex(&k.attestation.auth_data_sig), hex(&made.sig), "attestation signature");
    ensure_eq!(Some(hex(&k.attestation.intermediate)), made.x5c.as_ref().and_then(|x| x.first()).map(|c| hex(c)), "attestation certificate");
    ensure_eq!(k.attestation.alg as i64, made.alg, "attestation algorithm");
    Ok(())
}
fn makes(w: &World) -> Vec<(usize, &Vec<u8>, &String, &Vec<i128>, Option<bool>)> {
    w.log
        .iter()
        .filter_map(|(i, r)| match r {
            Req::Make { hash, rp, algs, verified, .. } => Some((*i, hash, rp, algs, *verified)),
            _ => None,
        })
        .collect()
}
/// At most one PIN is tried, and none unless the caller gave one.
fn pins(w: &World, pin: Option<&str>) -> R {
    let n = w.log.iter().filter(|(_, r)| matches!(r, Req::PinToken(_))).count();
    ensure!(n <= pin.map_or(0, |p| !p.is_empty() as usize), "{} PINs tried, the caller gave {:?}", n, pin);
    Ok(())
}
/// The device the call is about: the one of the path, or the first FIDO device that can be opened.
fn chosen(devs: &[Dev], path: Option<&str>) -> Option<usize> {
    devs.iter().position(|d| {
        d.opens
            && match path {
                Some(p) => d.path == p.as_bytes(),
                None => d.page == 0xf1d0,
            }
    })
}
/// must: the devices do their part, so a key comes out.
fn enrol(w: &mut W, devs: Vec<Dev>, fail: Option<usize>, a: &Ask, must: Option<bool>) -> R<(Option<FIDOSSHKey>, World)> {
    let root = off_record(|| root_pem(&p256(1)));
    let pick = chosen(&devs, a.path);
    let from = rng(|r| r.log.concat().len());
    set_root(Some(root.clone()));
    let r = with(w, "generate_new_ssh_key", devs, fail, || generate_new_ssh_key(a.app, a.comment, a.pin.map(String::from), a.path.map(String::from)));
    set_root(None);
    let (r, world) = r?;
    let served = rng(|r| r.log.concat())[from..].to_vec();
    ensure!(world.opened.iter().all(|i| Some(*i) == pick), "device {:?} was opened, not {:?}", world.opened, pick);
    pins(&world, a.pin)?;
    let m = makes(&world);
    ensure!(m.len() <= 1, "{} credentials asked for", m.len());
    for (_, hash, rp, algs, verified) in &m {
        ensure!(served.windows(32).any(|x| refm::sha256(x)[..] == hash[..]), "the challenge is not fresh output of the random source");
        ensure_eq!(rp.as_str(), a.app, "relying party");
        ensure!(!algs.is_empty() && algs.iter().all(|x| *x == -8 || *x == -7), "credential kinds {:?}", algs);
        ensure_eq!(*verified, a.pin.filter(|p| !p.is_empty()).map(|_| true), "PIN authorisation of the request");
    }
    match r {
        Ok(k) => {
            ensure!(must != Some(false), "a key though there should be none");
            ensure_eq!(m.len(), 1, "credentials asked for");
            let d = &world.devs[m[0].0];
            let made = off_record(|| (d.make)(d, m[0].1, m[0].4 == Some(true)));
            truthful(&k, a, &made, m[0].1)?;
            set_root(Some(root));
            let v = w.call("verify", || k.attestation.verify());
            set_root(None);
            ensure!(v?.is_ok(), "the attestation returned does not verify");
            Ok((Some(k), world))
        }
        Err(e) => {
            ensure!(must != Some(true), "no key: {:?}", e);
            Ok((None, world))
        }
    }
}
fn sk_key(public: &Pub, handle: &[u8], pin: Option<&str>, path: Option<&str>) -> PrivateKey {
    let pubkey = conv::to_pubkey(public);
    let (pin, device_path) = (pin.map(String::from), path.map(String::from));
    let kind = match public {
        Pub::SkEd { .. } => PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey { flags: 1, handle: handle.to_vec(), reserved: vec![], pin, device_path }),
        _ => PrivateKeyKind::EcdsaSk(EcdsaSkPrivateKey { flags: 1, handle: handle.to_vec(), reserved: vec![], pin, device_path }),
    };
    PrivateKey { key_type: pubkey.key_type.clone(), kind, pubkey, magic: 1, comment: "c".into() }
}
/// A signature by the devices, or none; must as above.
fn sign(w: &mut W, devs: Vec<Dev>, fail: Option<usize>, key: &PrivateKey, msg: &[u8], via: usize, must: Option<bool>) -> R<World> {
    let public = conv::pubkey(&key.pubkey).ok_or(Fail("IMPL: no public key".into()))?;
    let (pin, path) = sk_parts(key);
    let (app, handle) = match (&public, &key.kind) {
        (Pub::SkEd { app, .. }, PrivateKeyKind::Ed25519Sk(k)) => (app, &k.handle),
        (Pub::SkEc { app, .. }, PrivateKeyKind::EcdsaSk(k)) => (app, &k.handle),
        _ => return Err(Fail("not a security key".into())),
    };
    let pick = chosen(&devs, path);
    let (g, world) = with(w, "sign", devs, fail, || match via {
        0 => sign_with_private_key(key, msg),
        _ => key.sign(msg),
    })?;
    ensure!(world.opened.iter().all(|i| Some(*i) == pick), "device {:?} was opened, not {:?}", world.opened, pick);
    pins(&world, pin)?;
    let mut n = 0;
    for (_, r) in &world.log {
        if let Req::Assert { hash, rp, allow, verified, up, .. } = r {
            n += 1;
            ensure_eq!(hex(hash), hex(&refm::sha256(msg)), "digest given to the device");
            ensure_eq!(rp, app, "relying party");
            ensure_eq!(allow, &vec![handle.clone()], "credentials allowed");
            ensure_eq!(*verified, pin.filter(|p| !p.is_empty()).map(|_| true), "PIN authorisation of the request");
            ensure!(*up, "no user presence asked for");
        }
    }
    ensure!(n <= 1, "{} signatures asked for", n);
    match g {
        Some(g) => {
            ensure!(must != Some(false), "a signature though there should be none");
            if must == Some(true) {
                ensure!(keys::verify(&public, &g, msg) == Tri::Yes, "the signature does not verify: {}", hex(&g));
            }
        }
        None => ensure!(must != Some(true), "no signature though the device gave one"),
    }
    Ok(world)
}

pub fn run(cx: &Cx) {
    cx.assume("the devices answer in the framing and CBOR of CTAP 2; malformed messages are for the HID library ctap-hid-fido2, which is not part of this repository");
    let ed = Hw::Ed(keys::seed(7));
    let hws: Vec<(&str, Hw)> = vec![("ed25519", ed.clone()), ("p256", Hw::Ec(keys::scalar(9, 32)))];
    let apps = ["ssh:", "ssh:x", "ssh:\u{e9}\u{1f511}", "", "ssh:a b"];
    let ask = |pin: Option<&'static str>, path: Option<&'static str>| Ask { app: "ssh:", comment: "c", pin, path };
    // --------------------------------------------------------------- which device
    // 0 FIDO, 1 without a product name, 2 FIDO, refuses to open, 3 a keyboard, 4 FIDO with a path that is no UTF-8, 5 FIDO with a short path
    let mk = |l: &[usize]| -> Vec<Dev> {
        l.iter()
            .enumerate()
            .map(|(i, k)| {
                let hw = Hw::Ed(keys::seed(40 + i as u8));
                let mut d = good(&hw, &format!("/dev/hidraw{}", i), "ssh:", 1, 5, fill(16, i as u8), 0);
                d.product = Some([" Key A ", "Key B\u{fc}", "", "key\td"][i]);
                d.client_pin = Some(i % 2 == 0);
                d.retries = 3 + i as u8;
                match k {
                    1 => d.product = None,
                    2 => d.opens = false,
                    3 => d.page = 1,
                    4 => d.path = vec![b'/', 0xff, i as u8 + 1],
                    // a path which begins those of the others
                    5 => d.path = b"/dev/hidraw".to_vec(),
                    _ => {}
                }
                d
            })
            .collect()
    };
    let depth = cx.pick(3, 4);
    cx.bound(format!("all lists of up to {} HID devices of 6 sorts (FIDO, without a name, cannot be opened, not FIDO, path that is not UTF-8, path that begins the others): the list of devices, and enrolment, signing, PIN state and PIN retries by each path, a path that does not exist and no path", depth));
    cx.group("devices", words(6, depth), |w, i| {
        let l = word(i, 6, depth);
        w.case(("list", i), || format!("devices {:?}", l), |w| {
            let want: Vec<(String, String)> = mk(&l).iter().filter(|d| d.page == 0xf1d0).filter_map(|d| Some((String::from_utf8(d.path.clone()).ok()?, d.product.unwrap_or("").to_string()))).collect();
            let (got, world) = with(w, "list_fido_devices", mk(&l), None, list_fido_devices)?;
            ensure_eq!(got.into_iter().map(|d| (d.path, d.product_string)).collect::<Vec<_>>(), want, "devices");
            ensure!(world.opened.is_empty() && world.log.is_empty(), "listing the devices talked to one");
            Ok("list")
        });
        let mut paths: Vec<Option<String>> = (0..=l.len()).map(|j| Some(format!("/dev/hidraw{}", j))).collect();
        paths.push(None);
        paths.push(Some("".into()));
        paths.push(Some("/dev/hidraw".into()));
        paths.push(Some("/dev/hidraw0 ".into()));
        paths.push(Some("/DEV/hidraw0".into()));
        paths.push(Some("/dev/hid\0raw0".into()));
        for p in &paths {
            let p = p.as_deref();
            w.case(("enrol", i, p), || format!("enrolment, devices {:?}, path {:?}", l, p), |w| {
                let devs = mk(&l);
                let to = chosen(&devs, p);
                enrol(w, devs, None, &Ask { app: "ssh:", comment: "c", pin: None, path: p }, Some(to.is_some()))?;
                Ok(if to.is_some() { "key" } else { "none" })
            });
            w.case(("sign", i, p), || format!("signature, devices {:?}, path {:?}", l, p), |w| {
                let devs = mk(&l);
                let to = chosen(&devs, p);
                let n = to.unwrap_or(0);
                let key = sk_key(&Hw::Ed(keys::seed(40 + n as u8)).public("ssh:"), &fill(16, n as u8), None, p);
                sign(w, devs, None, &key, b"message", 0, Some(to.is_some()))?;
                Ok(if to.is_some() { "signature" } else { "none" })
            });
            let p = match p {
                Some(p) => p,
                None => continue,
            };
            w.case(("state", i, p), || format!("PIN state, devices {:?}, path {:?}", l, p), |w| {
                let to = chosen(&mk(&l), Some(p));
                let (got, world) = with(w, "device_requires_pin", mk(&l), None, || device_requires_pin(p))?;
                ensure_eq!(got.ok(), to.map(|n| n % 2 == 0), "PIN required");
                ensure!(world.log.iter().all(|(_, r)| *r == Req::Info), "requests {:?}", world.log);
                let (got, world) = with(w, "device_pin_retries", mk(&l), None, || device_pin_retries(p))?;
                ensure_eq!(got.ok(), to.map(|n| 3 + n as i32), "PIN retries");
                ensure!(world.log.iter().all(|(_, r)| *r == Req::Retries), "requests {:?}", world.log);
                Ok("state")
            });
        }
    });
    // --------------------------------------------------------------- PIN state
    cx.bound("PIN state: option true, false, absent; every number of retries");
    cx.group("PIN state", 3 * 256, |w, i| {
        let (o, n) = ([None, Some(true), Some(false)][i % 3], (i / 3) as u8);
        w.case(i, || format!("clientPin {:?}, {} retries", o, n), |w| {
            let dev = || {
                let mut d = good(&ed, "p", "ssh:", 1, 5, fill(16, 1), 0);
                d.client_pin = o;
                d.retries = n;
                d.keepalives = i % 4;
                vec![d]
            };
            let (got, _) = with(w, "device_requires_pin", dev(), None, || device_requires_pin("p"))?;
            ensure_eq!(got.ok(), o, "PIN required");
            let (got, _) = with(w, "device_pin_retries", dev(), None, || device_pin_retries("p"))?;
            ensure_eq!(got.ok(), Some(n as i32), "PIN retries");
            Ok("state")
        });
    });
    // --------------------------------------------------------------- PINs
    let given = [None, Some(""), Some("1234"), Some("0000"), Some("123"), Some(" 1234"), Some("1234 "), Some("1234\n"), Some("12"), Some("abcd"), Some("ABCD"), Some("12345678901234567890123456789012345678901234567890123456789012"), Some("p\u{ef}n\u{1f511}")];
    let set = [None, Some("1234"), Some(" 1234"), Some("1234 "), Some("abcd"), Some("12345678901234567890123456789012345678901234567890123456789012"), Some("p\u{ef}n\u{1f511}")];
    cx.bound(format!("PINs: {} settings of the device x {} of the caller x 4 numbers of retries, enrolment and signing", set.len(), given.len()));
    cx.group("PINs", set.len() * given.len() * 4 * 2 * 2, |w, i| {
        let d = digits(i, &[set.len(), given.len(), 4, 2, 2]);
        let (s, g, n, hw) = (set[d[0]], given[d[1]], d[2] as u8, &hws[d[4]].1);
        w.case(i, || format!("{} device PIN {:?}, {} retries, caller gives {:?}, {}", hws[d[4]].0, s, n, g, ["enrolment", "signature"][d[3]]), |w| {
            let mut dev = good(hw, "p", "ssh:", 1, 5, fill(16, 1), 0);
            dev.pin = s;
            dev.retries = n;
            dev.alg = -8;
            let asks = g.is_some_and(|g| !g.is_empty());
            let right = asks && g == s && n > 0;
            let world = if d[3] == 0 {
                // the P-256 credential was not asked for: a key is as good as an error
                let must = if right || (!asks && s.is_none()) { Some(true).filter(|_| d[4] == 0) } else { Some(false) };
                enrol(w, vec![dev], None, &Ask { app: "ssh:", comment: "c", pin: g, path: Some("p") }, must)?.1
            } else {
                // a device with a PIN signs without it when the key does not insist
                let must = match g {
                    None => Some(true),
                    Some("") => None,
                    _ => Some(right),
                };
                sign(w, vec![dev], None, &sk_key(&hw.public("ssh:"), &fill(16, 1), g, Some("p")), b"m", 0, must)?
            };
            let wrong = asks && s.is_some() && g != s && n > 0;
            ensure_eq!(world.devs[0].retries, n - wrong as u8, "retries left");
            w.state(&(world.devs[0].retries, right, wrong));
            Ok("done")
        });
    });
    // --------------------------------------------------------------- enrolment
    let handles: Vec<usize> = if cx.thorough { (0..=1100).collect() } else { (0..=140).chain([255, 256, 257, 511, 512, 1000, 1023, 1024]).collect() };
    let comments = ["", "c", "a comment \u{e9}", "two\nlines", " spaces around ", "C\0\t"];
    cx.bound(format!("enrolment: {} applications, {} comments, {} handle lengths, 3 numbers of keep-alives, with and without a path", apps.len(), comments.len(), handles.len()));
    let radix = [apps.len(), comments.len(), handles.len(), 2];
    cx.group("enrolment requests", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let (app, n) = (apps[d[0]], handles[d[2]]);
        w.case(i, || format!("application {:?}, comment {:?}, handle of {} bytes", app, comments[d[1]], n), |w| {
            let mut dev = good(&ed, "p", app, 1, n as u32, fill(n, 9), 0);
            dev.keepalives = [0, 1, 5][i % 3];
            enrol(w, vec![dev], None, &Ask { app, comment: comments[d[1]], pin: None, path: Some("p").filter(|_| d[3] == 0) }, Some(true))?;
            Ok("key")
        });
    });
    cx.bound("enrolment answers: every flag byte x 40 counters x both kinds of credential; 18 attestations");
    let counter = |c: usize| if c < 32 { 1u32 << c } else { [0, 3, 255, 0x1ff, 0xffff, 0x7fffffff, 0xfffffffe, u32::MAX][c - 32] };
    let nc = cx.pick(8, 40);
    cx.group("enrolment answers", 256 * nc * 2, |w, i| {
        let d = digits(i, &[256, nc, 2]);
        let c = counter(if nc == 8 { d[1] * 5 } else { d[1] });
        w.case(i, || format!("{} credential, flags {:#x}, counter {}", hws[d[2]].0, d[0], c), |w| {
            let mut dev = good(&hws[d[2]].1, "p", "ssh:", d[0] as u8, c, fill(64, 9), 0);
            dev.alg = -8;
            // flags with extension data that is not there: nothing to rely on
            let must = if d[0] & 0x80 != 0 || d[2] == 1 { None } else { Some(true) };
            let (k, _) = enrol(w, vec![dev], None, &ask(None, Some("p")), must)?;
            Ok(if k.is_some() { "key" } else { "error" })
        });
    });
    cx.group("attestations", HOW.len() * 2 * 3, |w, i| {
        let d = digits(i, &[HOW.len(), 2, 3]);
        w.case(i, || format!("{} credential, attestation {}", hws[d[1]].0, HOW[d[0]]), |w| {
            let mut dev = good(&hws[d[1]].1, "p", "ssh:", 1, 5, fill(64, 9), d[0]);
            dev.alg = -8;
            let pin = [None, Some("1234"), Some("")][d[2]];
            dev.pin = pin.filter(|p| !p.is_empty());
            let must = if d[0] < 2 { Some(true).filter(|_| d[1] == 0) } else { Some(false) };
            let (k, _) = enrol(w, vec![dev], None, &ask(pin, Some("p")), must)?;
            Ok(if k.is_some() { "key" } else { "error" })
        });
    });
    // credentials of other kinds
    let others: Vec<(&str, Vec<u8>)> = vec![
        ("P-384", {
            let pt = match (Priv::Ec { c: C::P384, d: keys::scalar(5, 48) }).public() {
                Pub::Ec { pt, .. } => pt,
                _ => vec![],
            };
            map(&[[int(1), int(2)].concat(), [int(3), int(-35)].concat(), [int(-1), int(2)].concat(), [int(-2), cbytes(&pt[1..49])].concat(), [int(-3), cbytes(&pt[49..])].concat()])
        }),
        ("X25519", map(&[[int(1), int(1)].concat(), [int(3), int(-8)].concat(), [int(-1), int(4)].concat(), [int(-2), cbytes(&fill(32, 1))].concat()])),
        ("Ed448", map(&[[int(1), int(1)].concat(), [int(3), int(-8)].concat(), [int(-1), int(7)].concat(), [int(-2), cbytes(&fill(57, 1))].concat()])),
        ("Ed25519 of 31 bytes", map(&okp(&fill(31, 1)))),
        ("empty", map(&[])),
    ];
    cx.group("other credentials", others.len(), |w, i| {
        w.case(i, || format!("{} credential", others[i].0), |w| {
            let mut dev = good(&ed, "p", "ssh:", 1, 5, fill(64, 9), 0);
            let cose = others[i].1.clone();
            dev.make = Box::new(move |_, hash, _| attest(0, auth_data(&refm::sha256(b"ssh:"), 0x41, 5, &[3; 16], &fill(64, 9), &cose), hash));
            enrol(w, vec![dev], None, &ask(None, Some("p")), Some(false))?;
            Ok("error")
        });
    });
    // --------------------------------------------------------------- failures
    let pin_of = |i: usize| [None, Some("1234")][i];
    let dev0 = |op: usize, pin: Option<&'static str>| {
        let mut d = good(&hws[op % 2].1, "p", "ssh:", 1, 5, fill(64, 9), 0);
        d.pin = pin;
        d.client_pin = Some(true);
        d.alg = -8;
        d
    };
    // the operations: enrolment, signatures with both kinds of keys, PIN state, retries
    let run_op = |w: &mut W, op: usize, d: Dev, pin: Option<&'static str>, fail: Option<usize>, must: Option<bool>| -> R<World> {
        Ok(match op {
            0 => enrol(w, vec![d], fail, &ask(pin, Some("p")), must)?.1,
            1 | 2 => sign(w, vec![d], fail, &sk_key(&hws[op % 2].1.public("ssh:"), &fill(64, 9), pin, Some("p")), b"m", 0, must)?,
            3 => {
                let (g, world) = with(w, "device_requires_pin", vec![d], fail, || device_requires_pin("p"))?;
                ensure_eq!(g.ok(), must.filter(|m| *m), "PIN required");
                world
            }
            _ => {
                let (g, world) = with(w, "device_pin_retries", vec![d], fail, || device_pin_retries("p"))?;
                ensure_eq!(g.ok(), must.filter(|m| *m).map(|_| 8), "PIN retries");
                world
            }
        })
    };
    cx.bound("failures: every read and write of every operation fails; every CTAP status 1..255 and transport error in answer to every request");
    cx.group("I/O failures", 5 * 2, |w, i| {
        let (op, pin) = (i % 5, pin_of(i / 5));
        let mut n = 0;
        w.case((i, "none"), || format!("operation {}, PIN {:?}", op, pin), |w| {
            n = run_op(w, op, dev0(op, pin), pin, None, Some(true))?.io;
            Ok("done")
        });
        for k in 0..n {
            w.case((i, k), || format!("operation {}, PIN {:?}, transfer {} of {} fails", op, pin, k, n), |w| {
                let world = run_op(w, op, dev0(op, pin), pin, Some(k), Some(false))?;
                w.state(&(op, k, world.log.len()));
                Ok("error")
            });
        }
    });
    cx.group("refusals", 5 * 2 * 3 * 2, |w, i| {
        let d = digits(i, &[5, 2, 3, 2]);
        let (op, pin, n) = (d[0], pin_of(d[1]), d[2]);
        let total = if op < 3 && pin.is_some() { 3 } else { 1 };
        if n >= total {
            return;
        }
        for code in 1..=255u8 {
            w.case((i, code), || format!("operation {}, PIN {:?}, request {} answered with {} {:#x}", op, pin, n, ["status", "transport error"][d[3]], code), |w| {
                let mut dev = dev0(op, pin);
                dev.refuse = Some((n, code, d[3] == 1));
                run_op(w, op, dev, pin, None, Some(false))?;
                Ok("error")
            });
        }
    });
    // nothing but keep-alives
    cx.group("keep-alives", 5 * 2 * 8, |w, i| {
        let d = digits(i, &[5, 2, 8]);
        let n = [1, 2, 10, 100, 498, 499, 500, 600][d[2]];
        w.case(i, || format!("operation {}, {} keep-alives", d[0], n), |w| {
            let mut dev = dev0(d[0], pin_of(d[1]));
            dev.keepalives = n;
            let must = if n < 100 { Some(true) } else { None };
            if must.is_none() && d[0] > 2 {
                // giving up is fine, a wrong answer is not
                if d[0] == 3 {
                    let (g, _) = with(w, "device_requires_pin", vec![dev], None, || device_requires_pin("p"))?;
                    ensure!(matches!(g, Err(_) | Ok(true)), "PIN required");
                } else {
                    let (g, _) = with(w, "device_pin_retries", vec![dev], None, || device_pin_retries("p"))?;
                    ensure!(matches!(g, Err(_) | Ok(8)), "PIN retries");
                }
                return Ok("done");
            }
            run_op(w, d[0], dev, pin_of(d[1]), None, must)?;
            Ok("done")
        });
    });
    // --------------------------------------------------------------- signatures
    let top = cx.pick(700, 1 << 14);
    let mut lens: Vec<usize> = (0..=200).collect();
    lens.extend((201..=top).step_by(if cx.thorough { 1 } else { 13 }));
    cx.bound(format!("signatures: {} message lengths, every flag byte x 40 counters x both kinds of key, {} handle lengths x {} applications", lens.len(), handles.len(), apps.len()));
    cx.group("messages", lens.len() * 4, |w, i| {
        let d = digits(i, &[lens.len(), 2, 2]);
        let hw = &hws[d[1]].1;
        w.case(i, || format!("{} key, message of {} bytes", hws[d[1]].0, lens[d[0]]), |w| {
            sign(w, vec![good(hw, "p", "ssh:", 1, 5, fill(64, 9), 0)], None, &sk_key(&hw.public("ssh:"), &fill(64, 9), None, Some("p")), &fill(lens[d[0]], 3), d[2], Some(true))?;
            Ok("signature")
        });
    });
    cx.group("flags and counters", 256 * 40 * 2, |w, i| {
        let d = digits(i, &[256, 40, 2]);
        let (f, c, hw) = (d[0] as u8, counter(d[1]), &hws[d[2]].1);
        w.case(i, || format!("{} key, flags {:#x}, counter {}", hws[d[2]].0, f, c), |w| {
            sign(w, vec![good(hw, "p", "ssh:", f, c, fill(64, 9), 0)], None, &sk_key(&hw.public("ssh:"), &fill(64, 9), None, Some("p")), b"message", i % 2, Some(true))?;
            Ok("signature")
        });
    });
    let radix = [2, apps.len(), handles.len(), 3];
    cx.group("signature requests", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let (hw, app, n) = (&hws[d[0]].1, apps[d[1]], handles[d[2]]);
        if n == 0 {
            return;
        }
        // 0: the credential; 1: another one is on the device; 2: with a PIN
        w.case(i, || format!("{} key, application {:?}, handle of {} bytes, {}", hws[d[0]].0, app, n, ["", "not on the device", "PIN"][d[3]]), |w| {
            let mut dev = good(hw, "p", app, 1, 5, fill(n, 9), 0);
            if d[3] == 1 {
                dev.handle = fill(n, 10);
            }
            let pin = Some("1234").filter(|_| d[3] == 2);
            dev.pin = pin;
            sign(w, vec![dev], None, &sk_key(&hw.public(app), &fill(n, 9), pin, Some("p")), b"message", i % 2, Some(d[3] != 1))?;
            Ok("done")
        });
    });
    // r and s of every length
    let mut nums: Vec<Vec<u8>> = vec![];
    for n in 1..=32usize {
        for top in [1u8, 0x7f, 0x80, 0xff] {
            let mut v = fill(n, 31);
            v[0] = if n == 32 && top == 0xff { 0xfe } else { top };
            nums.push(v);
        }
    }
    cx.bound("P-256 signatures with r and s of every length and leading bit");
    cx.group("signature numbers", nums.len() * 2, |w, i| {
        use num_bigint::BigUint;
        let m = [&refm::sha256(b"ssh:")[..], &[1], &5u32.to_be_bytes(), &refm::sha256(b"message")].concat();
        let s = BigUint::from_bytes_be(&nums[i / 2]);
        let mut r = BigUint::from_bytes_be(&if i % 2 == 0 { nums[nums.len() - 1 - i / 2].clone() } else { keys::scalar(55, 32) });
        let pk = (0..60).find_map(|_| {
            let p = ec::recover(&r, &s, &refm::sha256(&m), C::P256);
            if p.is_none() {
                r += 1u8;
            }
            p
        });
        let pk = match pk {
            Some(p) => p,
            None => return,
        };
        let sig = seq(&[uint(&r.to_bytes_be()), uint(&s.to_bytes_be())]);
        w.case(i, || format!("device signature {}", hex(&sig)), |w| {
            let mut dev = good(&hws[1].1, "p", "ssh:", 1, 5, fill(64, 9), 0);
            let s2 = Rc::new(sig.clone());
            dev.assert = Box::new(move |_, rp, _, _| ([&refm::sha256(rp.as_bytes())[..], &[1], &5u32.to_be_bytes()].concat(), s2.to_vec()));
            sign(w, vec![dev], None, &sk_key(&Pub::SkEc { pt: pk.clone(), app: "ssh:".into() }, &fill(64, 9), None, Some("p")), b"message", i % 2, Some(true))?;
            Ok("signature")
        });
    });
    // keys that are no security keys
    cx.group("other keys", 12, |w, i| {
        w.case(i, || format!("key {}", i), |w| {
            let mut key = match i {
                0..=3 => sk_key(&hws[i % 2].1.public("ssh:"), &fill(64, 9), None, None),
                _ => conv::to_privkey(&[Priv::Ed { seed: keys::seed(3) }, p256(4), Priv::Rsa(keys::rsa("2048"))][i % 3]),
            };
            if i < 4 {
                match (&mut key.pubkey.kind, i) {
                    (PublicKeyKind::Ed25519(k), 0) => k.sk_application = None,
                    (PublicKeyKind::Ecdsa(k), 1) => k.sk_application = None,
                    (k, _) => *k = conv::to_pubkey(&Priv::Rsa(keys::rsa("2048")).public()).kind,
                }
            }
            let (r, world) = with(w, "sign_with_private_key", vec![good(&ed, "p", "ssh:", 1, 5, fill(64, 9), 0)], None, || sign_with_private_key(&key, b"m"))?;
            ensure!(r.is_none() && world.log.is_empty(), "a signature for a key that is no security key");
            Ok("refused")
        });
    });
    // the random source fails
    cx.group("no randomness", 8, |w, i| {
        w.case(i, || format!("the random source fails after {} requests", i), |w| {
            rng(|r| r.fail_at = Some(i));
            let r = enrol(w, vec![dev0(0, pin_of(1))], None, &ask(pin_of(1), Some("p")), None);
            rng(|r| r.fail_at = None);
            Ok(if r?.0.is_some() { "key" } else { "error" })
        });
    });
    // --------------------------------------------------------------- what the signatures are for
    cx.bound("certificates and detached signatures made with a device verify");
    cx.group("end to end", 2 * apps.len() * 2, |w, i| {
        let d = digits(i, &[2, apps.len(), 2]);
        let (hw, app) = (&hws[d[0]].1, apps[d[1]]);
        w.case(i, || format!("{} key, application {:?}, use {}", hws[d[0]].0, app, d[2]), |w| {
            let mut dev = good(hw, "p", app, 1, 5, fill(64, 9), 0);
            dev.pin = Some("1234");
            let public = hw.public(app);
            let key = sk_key(&public, &fill(64, 9), Some("1234"), Some("p"));
            if d[2] == 0 {
                let subj = conv::to_pubkey(&Priv::Ed { seed: keys::seed(3) }.public());
                let (r, _) = with(w, "certificate", vec![dev], None, || Certificate::builder(&subj, CertType::User, &key.pubkey)?.key_id("id").principal("p").valid_before(9).sign(&key))?;
                let c = r.map_err(|e| Fail(format!("no certificate: {:?}", e)))?;
                ensure!(refm::cert::judge(&c.serialized).0 == Tri::Yes, "the certificate is not valid");
            } else {
                let (r, _) = with(w, "SSHSIG", vec![dev], None, || VerifiedSshSignature::new_with_private_key(b"message", "file", key.clone(), Some(HashAlgorithm::Sha512)))?;
                let g = r.map_err(|e| Fail(format!("no signature: {:?}", e)))?;
                let s = refm::sshsig::Sig { key: public.clone(), namespace: "file".into(), hash: "sha512".into(), sig: g.signature.signature.clone() };
                ensure!(refm::sshsig::verify(&s, b"message", "file", Some(&public)) == Tri::Yes, "the signature is not valid");
            }
            Ok("valid")
        });
    });
    // --------------------------------------------------------------- histories
    let ops = ["enrol on A", "enrol on B", "enrol, no path", "enrol, wrong attestation", "sign with the first key", "sign with the last key", "wrong PIN for A", "swap the devices", "unplug A"];
    let depth = cx.pick(4, 5);
    cx.bound(format!("histories of up to {} of {} operations on two devices", depth, ops.len()));
    cx.group("histories", words(ops.len(), depth), |w, i| {
        let l = word(i, ops.len(), depth);
        w.case(i, || format!("{:?}", l.iter().map(|x| ops[*x]).collect::<Vec<_>>()), |w| {
            rng_reset(i as u64 + 11);
            let ha = [Hw::Ed(keys::seed(50)), Hw::Ed(keys::seed(51))];
            let (mut retries, mut a_in, mut swapped) = (8u8, true, false);
            // device A has a PIN
            let mk = |retries: u8, a_in: bool, swapped: bool, how: usize| {
                let mut a = good(&ha[0], "/a", "ssh:", 1, 5, fill(20, 1), how);
                a.pin = Some("1234");
                a.retries = retries;
                let b = good(&ha[1], "/b", "ssh:", 1, 6, fill(20, 2), how);
                let mut v = if a_in { vec![a, b] } else { vec![b] };
                if swapped {
                    v.reverse();
                }
                v
            };
            let mut made: Vec<(FIDOSSHKey, usize)> = vec![];
            let mut seen: Vec<Vec<u8>> = vec![];
            for op in &l {
                let devs = mk(retries, a_in, swapped, (*op == 3) as usize * 10);
                let mut world = None;
                match *op {
                    0..=3 | 6 => {
                        let (path, pin) = match *op {
                            0 => (Some("/a"), Some("1234")),
                            1 => (Some("/b"), None),
                            6 => (Some("/a"), Some("0000")),
                            _ => (None, None),
                        };
                        let to = chosen(&devs, path);
                        let to_a = to.map(|t| devs[t].path == b"/a");
                        let must = match (op, to_a) {
                            (3, _) | (6, _) | (_, None) => false,
                            (0, _) => retries > 0,
                            (2, Some(true)) => false,
                            _ => true,
                        };
                        let (k, wd) = enrol(w, devs, None, &ask(pin, path), Some(must))?;
                        if let Some(k) = k {
                            made.push((k, if to_a == Some(true) { 0 } else { 1 }));
                        }
                        for m in makes(&wd) {
                            ensure!(!seen.contains(m.1), "a challenge is used twice");
                            seen.push(m.1.clone());
                        }
                        world = Some(wd);
                    }
                    4 | 5 => {
                        let k = if *op == 4 { made.first() } else { made.last() };
                        if let Some((k, on)) = k {
                            let (_, path) = sk_parts(&k.private_key);
                            let at = chosen(&devs, path);
                            let there = at.is_some_and(|t| devs[t].path == [b"/a", b"/b"][*on]);
                            let must = there && (*on == 1 || retries > 0);
                            world = Some(sign(w, devs, None, &k.private_key, &[i as u8, *op as u8], 0, Some(must))?);
                        }
                    }
                    7 => swapped = !swapped,
                    _ => a_in = !a_in,
                }
                if let Some(world) = world {
                    if let Some(d) = world.devs.iter().find(|d| d.path == b"/a") {
                        retries = d.retries;
                    }
                }
                w.state(&(retries, a_in, swapped, made.len(), seen.len()));
            }
            Ok("done")
        });
    });
}
