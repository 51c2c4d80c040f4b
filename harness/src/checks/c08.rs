//! Signature algorithm rules, for certificates and detached signatures alike.
use super::*;
use crate::conv;
use crate::engine::*;
use crate::ensure;
use num_bigint::BigUint;
use refm::cert::{self, Cert};
use refm::ec::{self, C};
use refm::keys::{self, Priv, Pub};
use refm::sshsig::{self, Sig};
use refm::wire::{mpint, string, Enc};
use refm::Tri;
use sshcerts::ssh::{CertType, VerifiedSshSignature};
use sshcerts::Certificate;

fn detached(w: &mut W, key: &Pub, sig: &[u8], m: &[u8]) -> R<bool> {
    let s = Sig { key: key.clone(), namespace: "n".into(), hash: "sha256".into(), sig: sig.to_vec() };
    let want = sshsig::verify(&s, m, "n", None);
    let g = super::c06::to_sig(&s);
    let r = w.call("from_ssh_signature", || VerifiedSshSignature::from_ssh_signature(m, g, "n", None).is_ok())?;
    ensure!(want.allows(r), "detached signature: {}, expected {:?}", r, want);
    Ok(r)
}
fn payload(m: &[u8]) -> Vec<u8> {
    sshsig::payload(b"n", &[], "sha256", m)
}
/// The certificate route: parse, and add the signature to a builder.
fn in_cert(w: &mut W, c: &Cert, sig: &[u8]) -> R<bool> {
    let tbs = c.tbs();
    let bytes = cert::sealed(&tbs, sig);
    let want = cert::judge(&bytes).0;
    let r = w.call("Certificate::from_bytes", || Certificate::from_bytes(&bytes).is_ok())?;
    ensure!(want.allows(r), "certificate: {}, expected {:?}", r, want);
    let b = w.call("builder", || {
        let mut b = Certificate::builder(&conv::to_pubkey(&c.key), CertType::User, &conv::to_pubkey(&c.ca))?;
        b.nonce = c.nonce.clone();
        Ok::<_, sshcerts::error::Error>(
            b.serial(c.serial).key_id(&c.key_id).set_principals(&c.principals).valid_after(c.valid_after).valid_before(c.valid_before).set_critical_options(c.critical.iter().cloned().collect()).set_extensions(c.extensions.iter().cloned().collect()),
        )
    })?;
    if let Ok(b) = b {
        let r2 = w.call("add_signature", || b.add_signature(sig).is_ok())?;
        ensure!(want.allows(r2), "add_signature: {}, expected {:?}", r2, want);
    }
    Ok(r)
}
/// Both routes for a key whose signature is made by `mk` over what each route signs.
fn both(w: &mut W, key: &Pub, mk: &dyn Fn(&[u8]) -> Vec<u8>) -> R<&'static str> {
    let a = detached(w, key, &mk(&payload(b"m")), b"m")?;
    let c = Cert::plain(Pub::Ed { pk: vec![5; 32] }, key.clone());
    let b = in_cert(w, &c, &mk(&c.tbs()))?;
    Ok(match (a, b) {
        (true, true) => "both accept",
        (false, false) => "both refuse",
        _ => "differ (unspecified)",
    })
}
pub const LABELS: [&str; 30] = [
    "ssh-rsa", "ecdsa-sha2-nistp256", "ecdsa-sha2-nistp384", "ecdsa-sha2-nistp521", "ssh-ed25519", "sk-ssh-ed25519@openssh.com", "sk-ecdsa-sha2-nistp256@openssh.com",
    "rsa-sha2-256", "rsa-sha2-512", "ssh-rsa-cert-v01@openssh.com", "ecdsa-sha2-nistp256-cert-v01@openssh.com", "ecdsa-sha2-nistp384-cert-v01@openssh.com",
    "ecdsa-sha2-nistp521-cert-v01@openssh.com", "ssh-ed25519-cert-v01@openssh.com", "sk-ssh-ed25519-cert-v01@openssh.com", "sk-ecdsa-sha2-nistp256-cert-v01@openssh.com",
    "rsa-sha2-256-cert-v01@openssh.com", "rsa-sha2-512-cert-v01@openssh.com", "ssh-dss", "ssh-ed448", "rsa-sha2-384", "RSA-SHA2-256", "", "ssh-rsa ", " ssh-rsa",
    "ssh-ed25519\0", "ssh-ed25519@openssh.com", "sk-ssh-ed25519", "webauthn-sk-ecdsa-sha2-nistp256@openssh.com", "ecdsa-sha2-nistp25",
];

/// A number of exactly `len` bytes with the given first byte.
fn num(len: usize, first: u8, salt: u8) -> BigUint {
    let mut b = fill(len, salt);
    b[0] = first;
    BigUint::from_bytes_be(&b)
}
fn key_for(c: C, r: &BigUint, s: &BigUint, digest: &[u8]) -> Option<(BigUint, Vec<u8>)> {
    // the nearest r of the same length that is a point's coordinate
    let mut r = r.clone();
    let len = r.to_bytes_be().len();
    for _ in 0..200 {
        if r.to_bytes_be().len() != len {
            return None;
        }
        if let Some(p) = ec::recover(&r, s, digest, c) {
            return Some((r, p));
        }
        r += 1u8;
    }
    None
}

pub fn run(cx: &Cx) {
    let mut all: Vec<(&str, Priv)> = keys::signers("ssh:");
    all.push(("rsa2048e3", Priv::Rsa(keys::rsa("2048e3"))));
    all.push(("rsa3072", Priv::Rsa(keys::rsa("3072"))));
    all.push(("rsa4096", Priv::Rsa(keys::rsa("4096"))));
    all.push(("sk-ed25519 same seed", Priv::SkEd { seed: keys::seed(1), app: "ssh:".into() }));
    all.push(("sk-p256 same scalar", Priv::SkEc { d: keys::scalar(1, 32), app: "ssh:".into() }));
    let mut verifiers: Vec<Pub> = all.iter().map(|x| x.1.public()).collect();
    verifiers.push(keys::p521_pub());
    cx.bound(format!("{} verifying keys times {} signing keys times {} labels times every hash the signer can use, with, without and with altered trailers; detached and in certificates", verifiers.len(), all.len(), LABELS.len()));
    cx.group("labels", verifiers.len() * all.len(), |w, i| {
        let v = &verifiers[i % verifiers.len()];
        let (sn, s) = &all[i / verifiers.len()];
        for math in s.labels() {
            // one signature per route, relabelled
            let c = Cert::plain(Pub::Ed { pk: vec![5; 32] }, v.clone());
            let (pa, pb) = (payload(b"m"), c.tbs());
            let (a, b) = (s.sign_parts(math, 1, 9, &pa), s.sign_parts(math, 1, 9, &pb));
            for l in LABELS {
                for tail in 0..4 {
                    let t = |x: &(Vec<u8>, Vec<u8>)| {
                        let mut e = Enc::new().str(l).bytes(&x.0);
                        e = match tail {
                            0 => e.raw(&x.1),
                            1 => e,
                            2 => e.raw(&[1, 0, 0, 0, 9]),
                            _ => e.raw(&[0, 0, 0, 0, 0]),
                        };
                        e.0
                    };
                    w.case((i, math, l, tail), || format!("key {} verifies what {} signed with {} under label {:?}, trailer {}", v.type_name(), sn, math, l, tail), |w| {
                        detached(w, v, &t(&a), b"m")?;
                        in_cert(w, &c, &t(&b))?;
                        Ok("agree")
                    });
                }
            }
        }
    });
    // the key under another name: the type says one thing, the key another
    cx.group("key-labels", 7 * LABELS.len(), |w, i| {
        let (sn, s) = &all[i % 6];
        let l = LABELS[i / 7];
        // a certificate whose CA blob carries another type name
        let mut c = Cert::plain(Pub::Ed { pk: vec![5; 32] }, s.public());
        c.serial = i as u64;
        let mut f = c.fields();
        f[12].1 = string(&[string(l.as_bytes()), s.public().data()].concat());
        let tbs: Vec<u8> = f.into_iter().flat_map(|x| x.1).collect();
        for lab in [l, s.labels()[0]] {
            let (inner, tail) = s.sign_parts(s.labels()[0], 1, 3, &tbs);
            let b = cert::sealed(&tbs, &Enc::new().str(lab).bytes(&inner).raw(&tail).0);
            w.case(&b, || format!("CA key {} named {:?}, signature label {:?}", sn, l, lab), |w| {
                let want = cert::judge(&b).0;
                let r = w.call("Certificate::from_bytes", || Certificate::from_bytes(&b).is_ok())?;
                ensure!(want.allows(r), "certificate: {}, expected {:?}", r, want);
                Ok("agree")
            });
        }
    });
    // every length of r and s: the key is computed from the signature
    let firsts = [0x01u8, 0x7f, 0x80, 0xff];
    let combos: Vec<(C, usize, usize)> = {
        let mut v = vec![];
        for c in [C::P256, C::P384] {
            for a in 1..=c.len() {
                for b in 1..=c.len() {
                    if cx.thorough || a == b || a >= c.len() - 3 || b >= c.len() - 3 || (a <= 2 && b <= 2) {
                        v.push((c, a, b));
                    }
                }
            }
        }
        v
    };
    cx.bound(format!("ECDSA signatures with r and s of {} length pairs from 1 to 32 / 48 bytes, first bytes 01, 7f, 80, ff (public keys recovered from chosen r, s); security-key ECDSA likewise; each also re-encoded over-long, negative, non-minimal, out of range, swapped", combos.len()));
    cx.group("rs-lengths", combos.len() * 2, |w, i| {
        let (c, a, b) = combos[i / 2];
        let sk = i % 2 == 1;
        if sk && c != C::P256 {
            return;
        }
        for (fi, f) in firsts.iter().enumerate() {
            let f2 = firsts[(fi + a + b) % 4];
            // the top of the range is below n: keep full-length values under it
            let ff = |len: usize, x: u8| if len == c.len() && x == 0xff { 0xfe } else { x };
            let s = num(b, ff(b, f2), a as u8);
            let m = [a as u8, b as u8];
            let msg = payload(&m);
            let signed = if sk { keys::sk_payload("ssh:", 5, 77, &msg) } else { msg };
            let digest = ec::digest(c, &signed);
            let (r, pt) = match key_for(c, &num(a, ff(a, *f), b as u8), &s, &digest) {
                Some(x) => x,
                None => continue,
            };
            let key = if sk { Pub::SkEc { pt, app: "ssh:".into() } } else { Pub::Ec { c, pt } };
            let (rb, sb) = (r.to_bytes_be(), s.to_bytes_be());
            let tail: &[u8] = if sk { &[5, 0, 0, 0, 77] } else { &[] };
            let blob = |inner: Vec<u8>| Enc::new().str(key.type_name()).bytes(&inner).raw(tail).0;
            w.case((c, a, b, fi, sk), || format!("{} r of {} bytes {}, s of {} bytes {}", key.type_name(), a, hex(&rb), b, hex(&sb)), |w| {
                let good = keys::ecdsa_inner(&rb, &sb);
                ensure!(keys::verify(&key, &blob(good.clone()), &payload(&m)) == Tri::Yes, "harness: recovered key does not verify");
                ensure!(detached(w, &key, &blob(good), &m)?, "a valid signature was refused");
                let n = &ec::params(c).n;
                let raw = |x: &[u8], y: &[u8]| [string(x), string(y)].concat();
                let pad = |z: usize, x: &[u8]| [vec![0; z], x.to_vec()].concat();
                let mr = refm::wire::mpint_body(&rb);
                let ms = refm::wire::mpint_body(&sb);
                let mut bad: Vec<Vec<u8>> = vec![
                    raw(&pad(1, &mr), &ms),
                    raw(&mr, &pad(1, &ms)),
                    raw(&pad(2, &mr), &pad(2, &ms)),
                    raw(&pad(c.len() + 1, &mr), &ms),
                    raw(&[&[0xff], &rb[..]].concat(), &ms),
                    raw(&ms, &mr),
                    raw(&mr, b""),
                    raw(b"", &ms),
                    raw(&[0], &ms),
                    raw(&mr, &[0]),
                    string(&mr),
                    mr.clone(),
                    [&rb[..], &sb[..]].concat(),
                    [mpint(&(&r + n).to_bytes_be()), string(&ms)].concat(),
                    [string(&mr), mpint(&(&s + n).to_bytes_be())].concat(),
                    [mpint(&n.to_bytes_be()), string(&ms)].concat(),
                    [string(&mr), mpint(&n.to_bytes_be())].concat(),
                    [string(&mr), mpint(&fill(c.len() + 1, 9))].concat(),
                    [mpint(&fill(c.len() + 1, 9)), string(&ms)].concat(),
                    [mpint(&fill(200, 9)), string(&ms)].concat(),
                    raw(&[&mr[..], &[0]].concat(), &ms),
                    [string(&mr), string(&ms), vec![0]].concat(),
                    [string(&mr), string(&ms), string(b"x")].concat(),
                    // DER in place of the SSH form
                    refm::der::ecdsa_sig(&rb, &sb),
                ];
                // the right value in the lower or upper bytes of a longer one
                let (rf, sf) = (ec::fixed(&r, c.len()), ec::fixed(&s, c.len()));
                for p in [&[1u8][..], &[0x7f], &[0x80], &[1, 0], &[1, 2, 3, 4, 5, 6, 7, 8], &[1; 32]] {
                    bad.push([mpint(&[p, &rf[..]].concat()), string(&ms)].concat());
                    bad.push([string(&mr), mpint(&[p, &sf[..]].concat())].concat());
                    bad.push([mpint(&[&rf[..], p].concat()), string(&ms)].concat());
                    bad.push([string(&mr), mpint(&[&sf[..], p].concat())].concat());
                }
                if mr.len() > rb.len() {
                    bad.push(raw(&rb, &ms)); // negative
                }
                if ms.len() > sb.len() {
                    bad.push(raw(&mr, &sb));
                }
                for x in bad {
                    detached(w, &key, &blob(x), &m)?;
                }
                // n - s is as good a signature
                let t = (n - &s).to_bytes_be();
                detached(w, &key, &blob(keys::ecdsa_inner(&rb, &t)), &m)?;
                Ok("all lengths")
            });
        }
    });
    // short r and s in certificates: searched
    let n = cx.pick(6000usize, 120000);
    cx.bound(format!("{} certificates signed by P-256, P-384 and security-key P-256 CAs with different nonces (r and s of 30 to 32 / 46 to 48 bytes occur)", n));
    cx.group("cert-nonces", n, |w, i| {
        let (nm, ca) = &all[[1, 2, 5][i % 3]];
        let mut c = Cert::plain(Pub::Ed { pk: vec![5; 32] }, ca.public());
        c.serial = i as u64;
        let sig = ca.sign(&c.tbs());
        w.case((i % 3, i), || format!("{} serial {} signature {}", nm, i, hex(&sig)), |w| {
            ensure!(in_cert(w, &c, &sig)?, "a valid certificate was refused");
            Ok("accepted")
        });
    });
    // flags, counter, application
    cx.bound("security keys: all 256 flags, counters 2^k and 2^k-1, 14 applications; every bit of flags and counter changed after signing; other application");
    let apps = ["", "ssh:", "ssh:é", "ssh:x", "SSH:", "ssh", "ssh: ", "https://example.com", "a", "\0", "ssh:\0", "webauthn", "ssh::", "xssh:"];
    cx.group("sk-fields", 2 * 256 + 2 * 64 + 2 * apps.len(), |w, i| {
        let (fl, ctr, app) = if i < 512 {
            ((i / 2) as u8, 0x01020304u32, "ssh:")
        } else if i < 640 {
            let j = (i - 512) / 2;
            (1, if j < 32 { 1u32 << j } else { (1u32 << (j - 32)).wrapping_sub(1) }, "ssh:")
        } else {
            (1, 7, apps[(i - 640) / 2])
        };
        let k = if i % 2 == 0 { Priv::SkEd { seed: keys::seed(3), app: app.into() } } else { Priv::SkEc { d: keys::scalar(4, 32), app: app.into() } };
        let key = k.public();
        let l = key.type_name();
        w.case(i, || format!("{} flags {:#x} counter {} application {:?}", l, fl, ctr, app), |w| {
            let r = both(w, &key, &|m| k.sign_with(l, fl, ctr, m))?;
            ensure!(r == "both accept", "{}", r);
            for bit in 0..40 {
                let r = both(w, &key, &|m| {
                    let (inner, mut tail) = k.sign_parts(l, fl, ctr, m);
                    tail[bit / 8] ^= 1 << (bit % 8);
                    Enc::new().str(l).bytes(&inner).raw(&tail).0
                })?;
                ensure!(r == "both refuse", "trailer bit {} changed: {}", bit, r);
            }
            for a2 in apps {
                let other = match &key {
                    Pub::SkEd { pk, .. } => Pub::SkEd { pk: pk.clone(), app: a2.into() },
                    Pub::SkEc { pt, .. } => Pub::SkEc { pt: pt.clone(), app: a2.into() },
                    _ => unreachable!(),
                };
                let r = both(w, &other, &|m| k.sign_with(l, fl, ctr, m))?;
                ensure!(r == if a2 == app { "both accept" } else { "both refuse" }, "application {:?}: {}", a2, r);
            }
            for cut in 1..=5 {
                let r = both(w, &key, &|m| {
                    let mut b = k.sign_with(l, fl, ctr, m);
                    b.truncate(b.len() - cut);
                    b
                })?;
                ensure!(r == "both refuse", "trailer cut by {}: {}", cut, r);
            }
            // signed as a plain key would
            both(w, &key, &|m| {
                let plain = if i % 2 == 0 { Priv::Ed { seed: keys::seed(3) } } else { Priv::Ec { c: C::P256, d: keys::scalar(4, 32) } };
                let (inner, _) = plain.sign_parts(plain.labels()[0], 0, 0, m);
                Enc::new().str(l).bytes(&inner).u8(fl).u32(ctr).0
            })
        });
    });
    // what a security key signs: variations of the signed structure
    cx.group("sk-payloads", 2 * 12, |w, i| {
        let sk = &all[4 + i % 2].1;
        let key = sk.public();
        let l = key.type_name();
        w.case(i, || format!("{} payload variant {}", l, i / 2), |w| {
            let r = both(w, &key, &|m| {
                let (ah, mh) = (refm::sha256(b"ssh:"), refm::sha256(m));
                let e = Enc::new;
                let p = match i / 2 {
                    0 => e().raw(&ah).u8(1).u32(7).raw(&mh).0,
                    1 => e().raw(&ah).u8(1).u32(7).raw(m).0,
                    2 => e().raw(b"ssh:").u8(1).u32(7).raw(&mh).0,
                    3 => e().raw(&ah).u32(7).u8(1).raw(&mh).0,
                    4 => e().raw(&ah).u8(1).raw(&mh).0,
                    5 => e().raw(&ah).u8(1).raw(&7u32.to_le_bytes()).raw(&mh).0,
                    6 => e().raw(&mh).u8(1).u32(7).raw(&ah).0,
                    7 => mh,
                    8 => m.to_vec(),
                    9 => e().raw(&ah).u8(0).u32(0).raw(&mh).0,
                    10 => e().raw(&ah).u8(1).u32(7).raw(&refm::sha512(m)).0,
                    _ => e().u8(1).u32(7).raw(&mh).0,
                };
                let inner = match sk {
                    Priv::SkEd { seed, .. } => keys::ed_sign(seed, &p),
                    Priv::SkEc { d, .. } => {
                        let (r, s) = keys::ring_ecdsa(C::P256, d, &p);
                        keys::ecdsa_inner(&r, &s)
                    }
                    _ => unreachable!(),
                };
                Enc::new().str(l).bytes(&inner).u8(1).u32(7).0
            })?;
            ensure!((r == "both accept") == (i / 2 == 0), "{}", r);
            Ok(r)
        });
    });
    // RSA: label, hash and padding
    let rsas = ["2048", "2048e3", "3072", "4096", "8192", "1024"];
    cx.bound("RSA 1024 to 8192 bits: each label with each hash, 12 padding variants, signatures shortened, extended, plus the modulus");
    cx.group("rsa", rsas.len() * 9, |w, i| {
        let k = keys::rsa(rsas[i / 9]);
        if rsas[i / 9] == "8192" && i % 9 % 4 != 0 && !w.thorough() {
            return;
        }
        let key = Pub::Rsa { e: k.e.clone(), n: k.n.clone() };
        let ls = ["ssh-rsa", "rsa-sha2-256", "rsa-sha2-512"];
        let (label, math) = (ls[i % 3], ls[i % 9 / 3]);
        w.case(i, || format!("RSA {} label {} hash of {}", rsas[i / 9], label, math), |w| {
            let pr = Priv::Rsa(k.clone());
            let mk = |m: &[u8]| Enc::new().str(label).bytes(&pr.sign_parts(math, 0, 0, m).0).0;
            let r = both(w, &key, &mk)?;
            if rsas[i / 9] != "1024" {
                ensure!(r == if label == math { "both accept" } else { "both refuse" }, "{}", r);
            }
            if rsas[i / 9].len() > 6 || rsas[i / 9] == "8192" {
                return Ok(r);
            }
            let m = b"m";
            let em = keys::emsa_pkcs1(math, &payload(m), k.n.len()).unwrap();
            let t = em.len();
            let mut ems = vec![];
            for (p, x) in [(0usize, 1u8), (1, 2), (1, 0), (2, 0xfe), (2, 0), (9, 0), (t - 1, em[t - 1] ^ 1), (t - 64, em[t - 64] ^ 1)] {
                let mut e = em.clone();
                e[p] = x;
                ems.push(e);
            }
            // short padding and trailing garbage
            let di = keys::digest_info(math, &payload(m)).unwrap();
            let mut e = vec![0, 1];
            e.extend(vec![0xff; 8]);
            e.push(0);
            e.extend(&di);
            e.resize(k.n.len(), 0);
            ems.push(e);
            let mut e = vec![0u8; k.n.len()];
            let o = k.n.len() - di.len();
            e[o..].copy_from_slice(&di);
            ems.push(e);
            for e in ems {
                detached(w, &key, &Enc::new().str(label).bytes(&k.raw_sign(&e)).0, m)?;
            }
            let good = k.raw_sign(&em);
            for s in [good[1..].to_vec(), good[..good.len() - 1].to_vec(), [&[0], &good[..]].concat(), [&good[..], &[0]].concat(), vec![], (BigUint::from_bytes_be(&good) + BigUint::from_bytes_be(&k.n)).to_bytes_be(), k.n.clone(), vec![0; k.n.len()], ec::fixed(&BigUint::from(1u8), k.n.len())] {
                detached(w, &key, &Enc::new().str(label).bytes(&s).0, m)?;
            }
            Ok(r)
        });
    });
    // Ed25519: lengths and malleability
    cx.group("ed25519", 2 * 200, |w, i| {
        let (nm, k) = &all[[0, 4][i % 2]];
        let key = k.public();
        let l = key.type_name();
        w.case(i, || format!("{} variant {}", nm, i / 2), |w| {
            both(w, &key, &|m| {
                let (inner, tail) = k.sign_parts(l, 1, 7, m);
                let v = i / 2;
                let inner = match v {
                    0 => inner,
                    1 => {
                        // s + L
                        let lq: BigUint = (BigUint::from(1u8) << 252usize) + BigUint::parse_bytes(b"27742317777372353535851937790883648493", 10).unwrap();
                        let s: BigUint = BigUint::from_bytes_le(&inner[32..]) + lq;
                        let mut b = s.to_bytes_le();
                        b.resize(32, 0);
                        [&inner[..32], &b[..]].concat()
                    }
                    2 => [&inner[32..], &inner[..32]].concat(),
                    3 => vec![0; 64],
                    4..=68 => inner[..v - 4].to_vec(),
                    69..=100 => [&inner[..], &vec![0; v - 68]].concat(),
                    _ => {
                        let mut x = inner;
                        let b = (v - 101) * 5 % 512;
                        x[b / 8] ^= 1 << (b % 8);
                        x
                    }
                };
                Enc::new().str(l).bytes(&inner).raw(&tail).0
            })
        });
    });
    cx.assume("ring's primitive verification is correct; bytes after the signature inside its blob are unspecified; RSA outside 2048..8192 bits is unspecified");
}
