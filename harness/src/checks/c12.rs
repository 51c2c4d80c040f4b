//! Signing with software private keys.
use super::c10::{brief, pool};
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use num_bigint::BigUint;
use refm::ec::{self, C};
use refm::keys::{self, Priv, Pub};
use refm::wire::Dec;
use refm::Tri;
use sshcerts::ssh::{PrivateKey, PrivateKeyKind, PublicKeyKind, SSHCertificateSigner, SshSignature, VerifiedSshSignature};

fn label(k: &Pub) -> &'static str {
    match k {
        Pub::Rsa { .. } => "rsa-sha2-512",
        k => k.type_name(),
    }
}
/// A signature by a good key: right label, valid for exactly this message.
fn good(w: &mut W, g: &PrivateKey, k: &Pub, m: &[u8], must: bool) -> R<&'static str> {
    let s = w.call("sign", || g.sign(m))?;
    match s {
        None => {
            ensure!(!must, "signing fails");
            Ok("failure reported")
        }
        Some(s) => {
            ensure_eq!(Dec::new(&s).utf8(), Some(label(k).to_string()), "label");
            ensure!(keys::verify(k, &s, m) == Tri::Yes, "the signature does not verify: {}", hex(&s));
            Ok("verifies")
        }
    }
}
/// A signature by a key nothing is known of must not verify for anything but its own message and public key.
fn wild(w: &mut W, g: &PrivateKey, others: &[Pub]) -> R<&'static str> {
    let m = b"message".to_vec();
    let s = w.call("sign", || g.sign(&m))?;
    let s = match s {
        None => return Ok("failure reported"),
        Some(s) => s,
    };
    for o in [&b""[..], b"messag", b"message\0", b"Message"] {
        if let Some(k) = conv::pubkey(&g.pubkey) {
            ensure!(keys::verify(&k, &s, o) == Tri::No, "verifies for {:?}", o);
        }
    }
    let own = conv::pubkey(&g.pubkey).map(|k| match k {
        // zeros in front do not make it another key
        Pub::Rsa { e, n } => Pub::Rsa { e: refm::wire::strip0(&e), n: refm::wire::strip0(&n) },
        k => k,
    });
    for k in others {
        if Some(k) != own.as_ref() {
            ensure!(keys::verify(k, &s, &m) == Tri::No, "the signature verifies under another key than the public key of the signer: {:?}", k);
        }
    }
    match own {
        Some(k) if keys::verify(&k, &s, &m) != Tri::No => Ok("verifies"),
        _ => Ok("verifies under no key"),
    }
}
fn supported(k: &Priv) -> bool {
    match k {
        Priv::Ec { c, .. } => *c != C::P521,
        Priv::Rsa(r) => (2048..=4096).contains(&(r.n.len() * 8)) && BigUint::from_bytes_be(&r.e) >= BigUint::from(65537u32),
        Priv::Ed { .. } => true,
        _ => false,
    }
}

pub fn run(cx: &Cx) {
    let pool: Vec<(String, Priv)> = pool().into_iter().filter(|(_, k)| !k.public().is_sk()).collect();
    let np = pool.len();
    cx.assume("RSA keys the crypto backend supports: 2048 to 4096 bits, e >= 65537; P-521 keys cannot sign and must report failure");
    let lens = super::c02::lens(cx.pick(5000, 1 << 20));
    cx.bound(format!("{} software keys x messages of {} lengths", np, lens.len()));
    cx.group("messages", np * lens.len(), |w, i| {
        let (name, k) = &pool[i % np];
        let n = lens[i / np];
        if matches!(k, Priv::Rsa(_)) && n > 200 && !w.thorough() {
            return;
        }
        let m = fill(n, i as u8);
        let (g, p) = (conv::to_privkey(k), k.public());
        w.case(i, || format!("{} signs {} bytes", name, n), |w| good(w, &g, &p, &m, supported(k)));
    });
    // keys with special scalars
    let mut scalars: Vec<(C, BigUint)> = vec![];
    for c in [C::P256, C::P384] {
        let n = &ec::params(c).n;
        for k in 1..=64u32 {
            scalars.push((c, BigUint::from(k)));
            scalars.push((c, n - BigUint::from(k)));
        }
        for b in 0..c.len() * 8 - 1 {
            scalars.push((c, BigUint::from(1u8) << b));
            scalars.push((c, (BigUint::from(1u8) << b) - 1u8 + (BigUint::from(1u8) << (b / 2))));
        }
    }
    cx.bound(format!("{} scalars: 1..=64, n-64..n, 2^i and neighbours on P-256 and P-384 (so mpints of every length, with and without a zero byte in front)", scalars.len()));
    cx.group("scalars", scalars.len(), |w, i| {
        let (c, d) = &scalars[i];
        let k = Priv::Ec { c: *c, d: d.to_bytes_be() };
        let p = k.public();
        w.case(i, || format!("{} scalar {:x}", c.id(), d), |w| {
            let mut g = conv::to_privkey(&k);
            good(w, &g, &p, b"message", true)?;
            // as parsed from a file, and as fixed-width numbers
            let f = refm::privkey::File::plain(&k, &super::c10::sk0(), 1, "c").encode();
            let t = refm::privkey::armor(&f, 70);
            let h = w.call("from_string", || PrivateKey::from_string(&t))?.map_err(|e| Fail(format!("does not parse: {:?}", e)))?;
            good(w, &h, &p, b"message", true)?;
            for len in [c.len(), c.len() + 1] {
                if let PrivateKeyKind::Ecdsa(e) = &mut g.kind {
                    e.key = ec::fixed(d, len);
                }
                good(w, &g, &p, b"message", false)?;
            }
            Ok("verifies")
        });
    });
    cx.group("seeds", 256 + 4, |w, i| {
        let seed = match i {
            256 => [0; 32],
            257 => [0xff; 32],
            258 => {
                let mut s = [0; 32];
                s[31] = 1;
                s
            }
            259 => {
                let mut s = [0; 32];
                s[0] = 1;
                s
            }
            _ => [i as u8; 32],
        };
        let k = Priv::Ed { seed };
        w.case(i, || hex(&seed), |w| good(w, &conv::to_privkey(&k), &k.public(), b"m", true));
    });
    // random streams
    let streams = cx.pick(20000, 200000);
    cx.bound(format!("{} random streams per curve: r and s of every likely length; constant streams; the random source failing at every request", streams));
    cx.group("streams", streams * 2, |w, i| {
        let k = &pool[1 + i % 2].1;
        let (g, p) = (conv::to_privkey(k), k.public());
        w.case(i, || format!("{} stream {}", pool[1 + i % 2].0, i / 2), |w| {
            good(w, &g, &p, b"message", true)?;
            let s = crate::interpose::rng(|r| r.log.len());
            ensure!(s > 0, "no randomness was drawn");
            Ok("verifies")
        });
    });
    cx.group("constant-streams", 256 * 4, |w, i| {
        let ix = [0, 1, 2, 3][i % 4];
        let k = &pool[ix].1;
        let (g, p) = (conv::to_privkey(k), k.public());
        w.case(i, || format!("{} random bytes all {:#x}", pool[ix].0, i / 4), |w| {
            crate::interpose::rng(|r| r.script = vec![(i / 4) as u8; 4096]);
            good(w, &g, &p, b"message", false)
        });
    });
    cx.group("rng-failures", np * 6 * 2, |w, i| {
        let (name, k) = &pool[i % np];
        let at = (i / np) % 6;
        let once = i / np / 6 == 1;
        let (g, p) = (conv::to_privkey(k), k.public());
        w.case(i, || format!("{} random request {} fails{}", name, at, if once { " once" } else { "" }), |w| {
            crate::interpose::rng(|r| {
                r.requests = 0;
                r.fail_at = Some(at);
                r.fail_forever = !once;
            });
            let r = good(w, &g, &p, b"message", false);
            crate::interpose::rng(|r| r.fail_at = None);
            r?;
            // and after that it works again
            good(w, &g, &p, b"message", supported(k))
        });
    });
    // sequences of signatures on one value
    cx.group("sequences", np * 9, |w, i| {
        let (name, k) = &pool[i % np];
        let (g, p) = (conv::to_privkey(k), k.public());
        let ms: [&[u8]; 3] = [b"", b"a", b"message"];
        w.case(i, || format!("{} signs {:?} then {:?}", name, ms[i / np / 3], ms[i / np % 3]), |w| {
            good(w, &g, &p, ms[i / np / 3], supported(k))?;
            good(w, &g, &p, ms[i / np % 3], supported(k))?;
            let c = g.clone();
            drop(g);
            good(w, &c, &p, ms[i / np / 3], supported(k))?;
            // the crate itself agrees
            if supported(k) {
                let v = w.call("new_with_private_key", || VerifiedSshSignature::new_with_private_key(ms[i / np % 3], "x", c, None))?.map_err(|e| Fail(format!("new_with_private_key: {:?}", e)))?;
                let t = format!("{}", v);
                let s = w.call("from_armored_string", || SshSignature::from_armored_string(&t))?.map_err(|e| Fail(format!("{:?}", e)))?;
                w.call("from_ssh_signature", || VerifiedSshSignature::from_ssh_signature(ms[i / np % 3], s, "x", None))?.map_err(|e| Fail(format!("{:?}", e)))?;
            }
            Ok("verifies")
        });
    });
    // damaged keys
    let pubs: Vec<Pub> = pool.iter().map(|x| x.1.public()).collect();
    let skp: Vec<Pub> = keys::signers("ssh:").into_iter().map(|x| x.1.public()).filter(|p| p.is_sk()).collect();
    // keys that differ from the genuine ones in one place only
    let near = |p: &Pub| -> Vec<Pub> {
        let flips = |v: &Vec<u8>| -> Vec<Vec<u8>> {
            [(0, 1), (v.len() / 2, 0x10), (v.len() - 1, 2)]
                .iter()
                .map(|(i, b)| {
                    let mut v = v.clone();
                    v[*i] ^= b;
                    v
                })
                .collect()
        };
        match p {
            Pub::Rsa { e, n } => flips(n).into_iter().map(|n| Pub::Rsa { e: e.clone(), n }).chain(flips(e).into_iter().map(|e| Pub::Rsa { e, n: n.clone() })).collect(),
            Pub::Ed { pk } => flips(pk).into_iter().map(|pk| Pub::Ed { pk }).collect(),
            _ => vec![],
        }
    };
    let nears: Vec<Pub> = pubs.iter().flat_map(near).collect();
    let all_pubs: Vec<Pub> = pubs.iter().cloned().chain(skp.iter().cloned()).chain(nears).collect();
    let all_pubs = &all_pubs;
    cx.bound("damaged keys: every secret length 0..=140, every public key (and those differing in a bit) under every secret, every RSA component missing, short, oversized, exchanged or changed in any bit class");
    cx.group("swapped-public", np * all_pubs.len(), |w, i| {
        let (name, k) = &pool[i % np];
        let p = &all_pubs[i / np];
        w.case(i, || format!("{} with public key {:?}", name, p), |w| {
            let mut g = conv::to_privkey(k);
            g.pubkey = conv::to_pubkey(p);
            wild(w, &g, all_pubs)?;
            g.key_type = g.pubkey.key_type.clone();
            wild(w, &g, all_pubs)
        });
    });
    cx.group("secret-lengths", 141 * 4 * 5, |w, i| {
        let d = digits(i, &[141, 4, 5]);
        let n = d[0];
        let ki = [0, 1, 2, np - 1][d[1]];
        let k = &pool[ki].1;
        let mut g = conv::to_privkey(k);
        let fix = |v: &mut Vec<u8>| {
            *v = match d[2] {
                0 => vec![0; n],
                1 => vec![0xff; n],
                2 => fill(n, 1),
                3 => {
                    let mut x = v.clone();
                    x.resize(n, 0);
                    x
                }
                _ => {
                    // zeros in front of the right value
                    let mut x = vec![0; n];
                    x.extend_from_slice(v);
                    x
                }
            };
        };
        match &mut g.kind {
            PrivateKeyKind::Ed25519(e) => fix(&mut e.key),
            PrivateKeyKind::Ecdsa(e) => fix(&mut e.key),
            _ => {}
        }
        let what = brief(&g.kind);
        w.case(i, || format!("{} secret {}", pool[ki].0, what), |w| {
            wild(w, &g, all_pubs)?;
            if let PublicKeyKind::Ed25519(e) = &mut g.pubkey.kind {
                e.key.truncate(n);
            }
            if let PublicKeyKind::Ecdsa(e) = &mut g.pubkey.kind {
                e.key.truncate(n);
            }
            wild(w, &g, all_pubs)
        });
    });
    cx.group("ec-out-of-range", 2 * 6, |w, i| {
        let c = [C::P256, C::P384][i % 2];
        let n = &ec::params(c).n;
        let d = [BigUint::from(0u8), n.clone(), n + 1u8, n + 2u8, ec::params(c).p.clone(), (BigUint::from(1u8) << (8 * c.len())) - 1u8][i / 2].clone();
        let k = Priv::Ec { c, d: vec![1] };
        let mut g = conv::to_privkey(&k);
        if let PrivateKeyKind::Ecdsa(e) = &mut g.kind {
            e.key = d.to_bytes_be();
        }
        w.case(i, || format!("{} scalar {:x}", c.id(), d), |w| wild(w, &g, all_pubs));
    });
    let rsa_fields = 8;
    let variants = 14;
    cx.group("rsa-damage", 3 * rsa_fields * variants + 3 * rsa_fields * rsa_fields, |w, i| {
        let r = keys::rsa(["2048", "3072", "4096"][i % 3]);
        let k = Priv::Rsa(r);
        let mut g = conv::to_privkey(&k);
        let o = conv::to_privkey(&Priv::Rsa(keys::rsa(["3072", "4096", "2048"][i % 3])));
        let j = i / 3;
        let get = |g: &PrivateKey| -> Vec<Option<Vec<u8>>> {
            match &g.kind {
                PrivateKeyKind::Rsa(r) => vec![Some(r.n.clone()), Some(r.e.clone()), Some(r.d.clone()), Some(r.coefficient.clone()), Some(r.p.clone()), Some(r.q.clone()), r.exp.clone(), r.exq.clone()],
                _ => unreachable!(),
            }
        };
        let mut f = get(&g);
        let of = get(&o);
        let what;
        if j < rsa_fields * variants {
            let (fi, v) = (j % rsa_fields, j / rsa_fields);
            let x = f[fi].clone().unwrap();
            what = format!("field {} variant {}", fi, v);
            f[fi] = match v {
                0 => Some(vec![]),
                1 => Some(vec![0]),
                2 => Some(vec![1]),
                3 => Some(vec![2]),
                4 => Some(vec![0xff; x.len()]),
                5 => Some(vec![0xff; 2000]),
                6 => Some(x[..x.len() / 2].to_vec()),
                7 => Some([&[0, 0][..], &x].concat()),
                8 => {
                    let mut y = x.clone();
                    let l = y.len();
                    y[l / 2] ^= 0x10;
                    Some(y)
                }
                9 => {
                    let mut y = x.clone();
                    let l = y.len();
                    y[l - 1] ^= 2;
                    Some(y)
                }
                10 => of[fi].clone(),
                11 => {
                    if fi >= 6 {
                        None
                    } else {
                        Some([&x[..], &[0]].concat())
                    }
                }
                12 => Some((BigUint::from_bytes_be(&x) + 1u8).to_bytes_be()),
                _ => {
                    if fi >= 6 {
                        f[13 - fi] = None;
                        None
                    } else {
                        Some(x[1..].to_vec())
                    }
                }
            };
        } else {
            let q = j - rsa_fields * variants;
            what = format!("fields {} and {} exchanged", q / rsa_fields, q % rsa_fields);
            f.swap(q / rsa_fields, q % rsa_fields);
        }
        if let PrivateKeyKind::Rsa(r) = &mut g.kind {
            for (x, y) in [(0, &mut r.n), (1, &mut r.e), (2, &mut r.d), (3, &mut r.coefficient), (4, &mut r.p), (5, &mut r.q)] {
                *y = f[x].clone().unwrap_or_default();
            }
            r.exp = f[6].clone();
            r.exq = f[7].clone();
        }
        w.case(i, || format!("rsa {}", what), |w| {
            wild(w, &g, all_pubs)?;
            let pair = match &g.kind {
                PrivateKeyKind::Rsa(r) => (r.n.clone(), r.e.clone()),
                _ => unreachable!(),
            };
            if let PublicKeyKind::Rsa(p) = &mut g.pubkey.kind {
                p.n = pair.0;
                p.e = pair.1;
            }
            wild(w, &g, all_pubs)
        });
    });
    cx.group("swapped-kinds", np * np, |w, i| {
        let (a, b) = (&pool[i / np], &pool[i % np]);
        w.case(i, || format!("secret of {} in {}", a.0, b.0), |w| {
            let mut g = conv::to_privkey(&b.1);
            g.kind = conv::to_privkey(&a.1).kind.clone();
            wild(w, &g, all_pubs)
        });
    });
}
