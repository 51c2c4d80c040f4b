//! Public keys: text and bytes in, key out, and back.
use super::c03::{edits, tails};
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::ec::C;
use refm::keys::{self, Pub, CERT_TYPES, KEY_TYPES, SIG_ONLY};
use refm::wire::{string, Enc};
use refm::Tri;
use sshcerts::ssh::{Fingerprint, FingerprintKind, KeyType, PublicKey};

/// What a blob is as a public key.
pub fn judge(b: &[u8]) -> (Tri, Option<Pub>) {
    let mut d = refm::wire::Dec::new(b);
    let ty = match d.utf8() {
        Some(t) => t,
        None => return (Tri::No, None),
    };
    let rsa_alias = SIG_ONLY.contains(&ty.as_str());
    match Pub::decode_data(if rsa_alias { "ssh-rsa" } else { &ty }, &mut d) {
        Some(k) if d.done() => (if rsa_alias || !k.well_sized() { Tri::May } else { Tri::Yes }, Some(k)),
        _ => (Tri::No, None),
    }
}
fn same(g: &PublicKey, k: &Pub, what: &str) -> R {
    ensure_eq!(conv::pubkey(g), Some(k.clone()), "{}", what);
    Ok(())
}
fn hashes(b: &[u8]) -> [(FingerprintKind, &'static str, Vec<u8>); 3] {
    [
        (FingerprintKind::Sha256, "SHA256", refm::sha256(b)),
        (FingerprintKind::Sha384, "SHA384", refm::sha384(b)),
        (FingerprintKind::Sha512, "SHA512", refm::sha512(b)),
    ]
}
fn b64_unpadded(b: &[u8]) -> String {
    base64::encode_config(b, base64::STANDARD_NO_PAD)
}
/// All outputs of a key whose value is known.
fn outputs(w: &mut W, g: &PublicKey, k: &Pub) -> R {
    let want = k.encode();
    let e = w.call("encode", || g.encode())?;
    ensure!(e == want, "encode gives {}", hex(&e));
    for (kind, name, h) in hashes(&want) {
        let f = w.call("fingerprint_with", || g.fingerprint_with(kind))?;
        ensure_eq!(f.hash, b64_unpadded(&h), "{} fingerprint", name);
        ensure_eq!(format!("{}", f), format!("{}:{}", name, b64_unpadded(&h)), "printed fingerprint");
    }
    let bits = w.call("bits", || g.bits())?;
    // a modulus that does not fill its last byte may be counted by bytes
    let exact = match k {
        Pub::Rsa { n, .. } => num_bigint::BigUint::from_bytes_be(n).bits() as usize,
        _ => k.bits(),
    };
    ensure!(bits == exact || (matches!(k, Pub::Rsa { .. }) && bits == (exact + 7) / 8 * 8), "{} bits, expected {}", bits, exact);
    let f = w.call("fingerprint", || g.fingerprint())?;
    ensure_eq!(format!("{}", f), format!("SHA256:{}", b64_unpadded(&refm::sha256(&want))), "default fingerprint");
    // aliases of ssh-rsa keep the name they were read with: their text is not judged
    if g.key_type.name == k.type_name() {
        let text = w.call("Display", || format!("{}", g))?;
        ensure_eq!(text, k.openssh(g.comment.as_deref()), "printed");
        let mut out = vec![];
        w.call("write", || g.write(&mut out))?.map_err(|e| Fail(format!("write fails: {}", e)))?;
        ensure_eq!(String::from_utf8_lossy(&out), format!("{}\n", k.openssh(g.comment.as_deref())), "written");
        let b = w.call("from_bytes", || PublicKey::from_bytes(&e))?;
        match b {
            Ok(b) => same(&b, k, "the encoding, parsed")?,
            Err(e) => ensure!(!k.well_sized(), "the encoding does not parse: {:?}", e),
        }
        let t = w.call("from_string", || PublicKey::from_string(&text))?;
        match t {
            Ok(t) => {
                same(&t, k, "the text, parsed")?;
                ensure!(t == *g || g.comment.as_deref().is_some_and(|c| c.is_empty() || c.contains(char::is_whitespace)), "the text parses to {:?}", t);
            }
            Err(e) => ensure!(!k.well_sized(), "the text does not parse: {:?}", e),
        }
    }
    Ok(())
}
fn bytes_case(w: &mut W, b: &[u8]) -> R<&'static str> {
    let (t, k) = judge(b);
    let g = w.call("from_bytes", || PublicKey::from_bytes(b))?;
    ensure!(t.allows(g.is_ok()), "from_bytes gives {:?}, expected {:?} {:?}", g, t, k);
    match g {
        Ok(g) => {
            let k = k.unwrap();
            same(&g, &k, "parsed")?;
            ensure_eq!(g.comment, None, "comment");
            outputs(w, &g, &k)?;
            Ok("a key")
        }
        Err(_) => Ok("an error"),
    }
}
fn text_case(w: &mut W, s: &str, t: Tri, k: Option<&Pub>, comments: &[Option<&str>]) -> R<&'static str> {
    let g = w.call("from_string", || PublicKey::from_string(s))?;
    ensure!(t.allows(g.is_ok()), "from_string gives {:?}, expected {:?}", g, t);
    if let (Ok(g), Some(k)) = (&g, k) {
        same(g, k, "parsed")?;
        ensure!(comments.contains(&g.comment.as_deref()), "comment {:?}", g.comment);
        outputs(w, g, k)?;
        return Ok("a key");
    }
    Ok("an error")
}

pub struct Failing {
    pub left: usize,
    pub chunk: usize,
    pub got: Vec<u8>,
    pub zero: bool,
}
impl std::io::Write for Failing {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.left == 0 && !b.is_empty() {
            if self.zero {
                return Ok(0);
            }
            return Err(std::io::Error::other("full"));
        }
        let n = b.len().min(self.chunk).min(self.left);
        self.left -= n;
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

fn pool() -> Vec<Pub> {
    let mut v: Vec<Pub> = keys::signers("ssh:").into_iter().map(|x| x.1.public()).collect();
    v.extend(keys::subjects("ssh:"));
    for n in ["1024", "3072", "4096", "8192"] {
        v.push(refm::keys::Priv::Rsa(keys::rsa(n)).public());
    }
    for a in ["", "s", "ssh", "SSH:", "ssh:x", "ssh: ", "ssh:é", "https://example.com/\0x", &text(300, 3)] {
        v.push(Pub::SkEd { pk: keys::ed_pub(&keys::seed(3)), app: a.into() });
        v.push(Pub::SkEc { pt: match keys::signers("")[1].1.public() { Pub::Ec { pt, .. } => pt, _ => unreachable!() }, app: a.into() });
    }
    v
}

pub fn run(cx: &Cx) {
    let pool = pool();
    let np = pool.len();
    cx.bound(format!("{} keys of all seven types, all pairs; RSA e and n of 1..=1100 bytes with every top byte class; every byte of an Ed25519 key and of EC points at every value", np));
    cx.group("keys", np, |w, i| {
        let k = &pool[i];
        w.case(k, || format!("{:?}", k), |w| {
            outputs(w, &conv::to_pubkey(k), k)?;
            bytes_case(w, &k.encode())
        });
        for j in 0..np {
            w.case((k, &pool[j]), || format!("{:?} and {:?}", k, pool[j]), |w| {
                let (a, b) = (conv::to_pubkey(k), conv::to_pubkey(&pool[j]));
                let eq = w.call("==", || a == b)?;
                ensure_eq!(eq, *k == pool[j], "equality");
                Ok("compared")
            });
        }
    });
    // component values
    cx.group("rsa", 1100 * 8, |w, i| {
        let len = 1 + i / 8;
        let top = [1u8, 2, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x40][i % 8];
        let mut n = fill(len, 0x55);
        n[0] = top;
        for (e, n) in [(vec![1, 0, 1], n.clone()), (n.clone(), fill(256, 0x90)), (n.clone(), n)] {
            let mut n = n;
            if n[0] == 0 {
                n[0] = 1;
            }
            let k = Pub::Rsa { e, n };
            {
                w.case(&k, || format!("{:?}", k), |w| bytes_case(w, &k.encode()));
            }
        }
    });
    cx.group("key-bytes", 7 * 256, |w, i| {
        let x = (i / 7) as u8;
        let k = &keys::subjects("ssh:")[i % 7];
        let n = match k {
            Pub::Ed { pk } | Pub::SkEd { pk, .. } => pk.len(),
            Pub::Ec { pt, .. } | Pub::SkEc { pt, .. } => pt.len(),
            Pub::Rsa { n, .. } => n.len(),
        };
        for j in 0..n {
            let mut k = k.clone();
            match &mut k {
                Pub::Ed { pk } | Pub::SkEd { pk, .. } => pk[j] = x,
                Pub::Ec { pt, .. } | Pub::SkEc { pt, .. } => pt[j] = x,
                Pub::Rsa { n, .. } => {
                    n[j] = x;
                    if n[0] == 0 {
                        continue;
                    }
                }
            }
            w.case(&k, || format!("{:?}", k), |w| {
                let b = k.encode();
                let (t, _) = judge(&b);
                let g = w.call("from_bytes", || PublicKey::from_bytes(&b))?;
                ensure!(t.allows(g.is_ok()), "from_bytes gives {:?}", g);
                if let Ok(g) = g {
                    same(&g, &k, "parsed")?;
                    let e = w.call("encode", || g.encode())?;
                    ensure!(e == b, "encode gives {}", hex(&e));
                }
                Ok("exact")
            });
        }
    });
    // component lengths, also wrong ones
    cx.group("key-lengths", 6 * 300, |w, i| {
        let n = i / 6;
        let k = match i % 6 {
            0 => Pub::Ed { pk: fill(n, 1) },
            1 => Pub::SkEd { pk: fill(n, 2), app: "ssh:".into() },
            2 => Pub::Ec { c: C::P256, pt: fill(n, 4) },
            3 => Pub::Ec { c: C::P384, pt: fill(n, 4) },
            4 => Pub::Ec { c: C::P521, pt: fill(n, 4) },
            _ => Pub::SkEc { pt: fill(n, 4), app: "ssh:".into() },
        };
        w.case(&k, || format!("{:?}", k), |w| bytes_case(w, &k.encode()));
    });
    // application strings of security keys
    let lens = super::c02::lens(cx.pick(3000, 70000));
    cx.group("applications", lens.len() * 2, |w, i| {
        let app = text(lens[i / 2], 4);
        let k = if i % 2 == 0 { Pub::SkEd { pk: fill(32, 1), app } } else { Pub::SkEc { pt: [vec![4], fill(64, 1)].concat(), app } };
        w.case(&k, || format!("{:?}", k), |w| bytes_case(w, &k.encode()));
    });
    // stated type against encoded type against data
    let mut names: Vec<String> = KEY_TYPES.iter().chain(&CERT_TYPES).chain(&SIG_ONLY).map(|s| s.to_string()).collect();
    for n in ["", "ssh-dss", "ssh-ed448", "SSH-RSA", "ssh-rs", "ssh-rsa ", "ssh-rsa\0", "ecdsa-sha2-nistp224", "ecdsa-sha2-", "ecdsa-sha2-nistp256@openssh.com", "sk-ssh-ed25519", "sk-ecdsa-sha2-nistp384@openssh.com", "ssh-ed25519@openssh.com", "nistp256", "sk-ecdsa-sha2-nistp256", "webauthn-sk-ecdsa-sha2-nistp256@openssh.com", "rsa-sha2-384", "rsa-sha2-256-cert-v01@openssh.com"] {
        names.push(n.into());
    }
    let nn = names.len();
    cx.bound(format!("{} names stated x {} names encoded x 7 key bodies", nn, nn));
    cx.group("types", nn * nn, |w, i| {
        let (a, b) = (&names[i / nn], &names[i % nn]);
        for (ki, k) in keys::subjects("ssh:").into_iter().enumerate() {
            let blob = [string(b.as_bytes()), k.data()].concat();
            let s = format!("{} {}", a, base64::encode(&blob));
            if a.is_empty() || a.contains(char::is_whitespace) {
                continue;
            }
            w.case((a, b, ki), || format!("stated {:?}, encoded {:?}, data of {:?}", a, b, k), |w| {
                let (t, m) = judge(&blob);
                if a == b {
                    text_case(w, &s, t, m.as_ref(), &[None])?;
                    bytes_case(w, &blob)
                } else {
                    text_case(w, &s, Tri::No, None, &[])
                }
            });
        }
    });
    let curves = ["nistp256", "nistp384", "nistp521", "", "nistp224", "NISTP256", "nistp256 ", "nistp2560", "ed25519", "secp256k1", "nistp25", "\0"];
    cx.group("curves", 16 * curves.len() * 3, |w, i| {
        let d = digits(i, &[16, curves.len(), 3]);
        let ty = names[d[0]].clone();
        let n = [65, 97, 133][d[2]];
        let e = Enc::new().str(&ty).str(curves[d[1]]).bytes(&[vec![4], fill(n - 1, 3)].concat());
        for tail in 0..2 {
            let e = if tail == 1 { Enc(e.0.clone()).str("ssh:") } else { Enc(e.0.clone()) };
            w.case(&e.0, || format!("type {} curve {:?} point of {} bytes", ty, curves[d[1]], n), |w| {
                let (t, m) = judge(&e.0);
                bytes_case(w, &e.0)?;
                text_case(w, &format!("{} {}", ty, base64::encode(&e.0)), t, m.as_ref(), &[None])
            });
        }
    });
    // text layout
    let comments = ["me@home", "é", "\"x\"", "=", "#", "ssh-rsa", "a,b", "\u{1f511}", "x\u{0}y", "-", "AAAA", &text(5000, 1)];
    let seps = [" ", "  ", "\t", "\n", " \t "];
    let ends = ["", "\n", " ", "\r\n", "\n\n"];
    cx.group("text", 7 * seps.len() * ends.len() * (comments.len() + 1), |w, i| {
        let d = digits(i, &[7, seps.len(), ends.len(), comments.len() + 1]);
        let k = &keys::subjects("ssh:")[d[0]];
        let b = base64::encode(k.encode());
        let sep = seps[d[1]];
        let c = comments.get(d[3]).copied();
        let s = match c {
            Some(c) => format!("{}{}{}{}{}{}", k.type_name(), sep, b, sep, c, ends[d[2]]),
            None => format!("{}{}{}{}", k.type_name(), sep, b, ends[d[2]]),
        };
        let t = if d[1] == 0 && !ends[d[2]].contains(' ') { Tri::Yes } else { Tri::May };
        w.case(&s, || format!("{:?}", s), |w| {
            text_case(w, &s, t, Some(k), &[c])?;
            text_case(w, &format!(" {}", s), Tri::May, Some(k), &[c])
        });
        if let Some(c) = c {
            let long = format!("{} {} {} second third", k.type_name(), b, c);
            let full = format!("{} second third", c);
            w.case(&long, || format!("{:?}", long), |w| text_case(w, &long, Tri::Yes, Some(k), &[Some(c), Some(&full)]));
        }
    });
    cx.group("comments", 3000 + 0x800, |w, i| {
        let k = &keys::subjects("ssh:")[i % 7];
        let c: String = if i < 3000 { text(i + 1, 1) } else { match char::from_u32((i - 3000) as u32) { Some(c) => format!("a{}b", c), None => return } };
        let mut g = conv::to_pubkey(k);
        g.comment = Some(c.clone());
        w.case(&c, || format!("comment {:?}", c), |w| outputs(w, &g, k).map(|_| "same"));
    });
    // edits of the base64 and of the bytes
    cx.bound("all single edits of the encodings of all key types (all byte values for Ed25519 in quick, all types in thorough), all tails, all single edits of the base64 text");
    cx.group("edits", 8, |w, i| {
        let k = if i < 7 { keys::subjects("ssh:")[i].clone() } else { Pub::Ed { pk: fill(32, 5) } };
        let b = k.encode();
        let dens = 2;
        edits(&b, dens, |what, v| {
            w.case(&v, || format!("{:?} with {}: {}", k, what, hex(&v)), |w| bytes_case(w, &v));
        });
        for t in tails(&b) {
            let v = [&b[..], &t].concat();
            w.case(&v, || format!("{:?} followed by {}", k, hex(&t)), |w| bytes_case(w, &v));
            w.case((0, &v), || format!("{:?} followed by {}, as text", k, hex(&t)), |w| {
                text_case(w, &format!("{} {}", k.type_name(), base64::encode(&v)), Tri::No, None, &[])
            });
        }
        for cut in 0..b.len() {
            w.case((1, cut), || format!("{:?} cut to {}, as text", k, cut), |w| {
                text_case(w, &format!("{} {}", k.type_name(), base64::encode(&b[..cut])), Tri::No, None, &[])
            });
        }
    });
    cx.group("base64", 7, |w, i| {
        let k = keys::subjects("ssh:")[i].clone();
        let good = base64::encode(k.encode());
        let gb = good.as_bytes();
        for p in 0..gb.len() {
            for x in [b'A', b'/', b'+', b'-', b'_', b'=', b'!', b'a', b'0', b'\\', b'"'] {
                if x == gb[p] {
                    continue;
                }
                let mut v = gb.to_vec();
                v[p] = x;
                let s = String::from_utf8(v).unwrap();
                w.case(&s, || format!("base64 position {} made {:?}", p, x as char), |w| {
                    let (t, m) = match base64::decode(&s) {
                        Ok(b) => {
                            let (t, m) = judge(&b);
                            // the stated type is part of the judgement
                            match &m {
                                Some(m2) if m2.type_name() == k.type_name() => (t, m),
                                _ => (Tri::No, None),
                            }
                        }
                        Err(_) => (Tri::No, None),
                    };
                    text_case(w, &format!("{} {}", k.type_name(), s), t, m.as_ref(), &[None])
                });
            }
        }
        for n in 0..4 {
            let s = format!("{} {}{}", k.type_name(), good.trim_end_matches('='), "=".repeat(n));
            let pads = good.len() - good.trim_end_matches('=').len();
            w.case((0, n), || format!("{} padding characters instead of {}", n, pads), |w| {
                let t = if n == pads { Tri::Yes } else { Tri::May };
                text_case(w, &s, t, Some(&k), &[None])
            });
        }
        for s in ["", " ", "ssh-rsa", "ssh-ed25519 ", "\n", "AAAA", " ssh-rsa AAAA x", "ssh-ed25519 AAAAC3NzaC1lZDI1NTE5"] {
            w.case((1, s), || format!("{:?}", s), |w| text_case(w, s, Tri::No, None, &[]));
        }
    });
    // fingerprints of any data
    let flens = super::c02::lens(5000);
    cx.group("fingerprints", flens.len() + 70000.min(cx.pick(4000, 70000)), |w, i| {
        let b = if i < flens.len() { fill(flens[i], 1) } else { (i as u32).to_be_bytes().to_vec() };
        w.case(&b, || format!("fingerprint of {}", hex(&b)), |w| {
            for (kind, name, h) in hashes(&b) {
                let f = w.call("compute", || Fingerprint::compute(kind, &b))?;
                ensure_eq!(f.hash, b64_unpadded(&h), "{}", name);
                ensure_eq!(format!("{}", f.kind), name, "kind");
            }
            Ok("exact")
        });
    });
    // names of types
    cx.group("names", nn, |w, i| {
        let n = &names[i];
        w.case(n, || format!("{:?}", n), |w| {
            let r = w.call("KeyType::from_name", || KeyType::from_name(n))?;
            if let Some(p) = KEY_TYPES.iter().position(|k| k == n) {
                let r = r.map_err(|e| Fail(format!("{:?}", e)))?;
                ensure!(r.name == *n && r.plain == *n && !r.is_cert && r.is_sk == n.starts_with("sk-"), "{:?}", r);
                ensure_eq!(r.as_cert_name(), CERT_TYPES[p], "certificate name");
                ensure_eq!(r.as_pubkey_name(), *n, "key name");
            } else if let Some(p) = CERT_TYPES.iter().position(|k| k == n) {
                let r = r.map_err(|e| Fail(format!("{:?}", e)))?;
                ensure!(r.name == *n && r.plain == KEY_TYPES[p] && r.is_cert && r.is_sk == n.starts_with("sk-"), "{:?}", r);
                ensure_eq!(r.as_cert_name(), CERT_TYPES[p], "certificate name");
                ensure_eq!(r.as_pubkey_name(), KEY_TYPES[p], "key name");
            } else if !SIG_ONLY.contains(&n.as_str()) {
                ensure!(r.is_err(), "an unknown name gives {:?}", r);
            }
            Ok("right")
        });
    });
    // writers that fail or take little at a time, and files
    cx.group("writers", 7 * 2, |w, i| {
        let k = &keys::subjects("ssh:")[i % 7];
        let mut g = conv::to_pubkey(k);
        if i >= 7 {
            g.comment = Some("me@home".into());
        }
        let full = format!("{}\n", k.openssh(g.comment.as_deref()));
        for left in 0..=full.len() + 1 {
            for (chunk, zero) in [(usize::MAX, false), (1, false), (7, true)] {
                w.case((i, left, chunk), || format!("{:?} to a writer that takes {} bytes by {}", k, left, chunk), |w| {
                    let mut o = Failing { left, chunk, got: vec![], zero };
                    let r = w.call("write", || g.write(&mut o))?;
                    ensure_eq!(r.is_ok(), left >= full.len(), "success");
                    ensure!(full.as_bytes().starts_with(&o.got), "wrote {:?}", String::from_utf8_lossy(&o.got));
                    if r.is_ok() {
                        ensure_eq!(o.got.len(), full.len(), "length");
                    }
                    Ok(if r.is_ok() { "written" } else { "reported" })
                });
            }
        }
        let dir = format!("{}/target/scratch", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{}/c09-{}.pub", dir, i);
        w.case((i, "file"), || format!("{:?} in a file", k), |w| {
            std::fs::write(&p, &full).map_err(|e| Fail(format!("cannot write {}: {}", p, e)))?;
            let r = w.call("from_path", || PublicKey::from_path(&p))?.map_err(|e| Fail(format!("from_path: {:?}", e)))?;
            same(&r, k, "from_path")?;
            ensure!(r == g, "from_path gives {:?}", r);
            std::fs::write(&p, [0xff, 0xfe]).unwrap();
            ensure!(w.call("from_path", || PublicKey::from_path(&p))?.is_err(), "text that is not UTF-8 is a key");
            std::fs::remove_file(&p).unwrap();
            ensure!(w.call("from_path", || PublicKey::from_path(&p))?.is_err(), "a missing file is a key");
            Ok("same")
        });
    });
}
