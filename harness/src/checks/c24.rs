//! Nonces, serials and new keys come from fresh randomness or not at all.
use super::*;
use crate::conv;
use crate::engine::*;
use crate::interpose::{rng, rng_reset};
use crate::{ensure, ensure_eq};
use refm::keys::{self, Priv, Pub};
use refm::privkey::{armor, File};
use refm::Tri;
use sshcerts::ssh::{CertType, Certificate, KeyTypeKind, PrivateKey, SSHCertificateSigner};

/// Pieces of the random stream that were used, as offsets into everything served so far.
#[derive(Default)]
struct Used(Vec<(usize, usize, &'static str)>);
impl Used {
    /// The piece must lie in what was served after `from` and overlap nothing used.
    fn take(&mut self, from: usize, piece: &[u8], what: &'static str) -> R<usize> {
        let s = stream();
        let n = piece.len();
        let at = (from..(s.len() + 1).saturating_sub(n)).find(|&o| s[o..o + n] == *piece && self.0.iter().all(|(a, l, _)| o + n <= *a || a + l <= o));
        match at {
            Some(o) => {
                self.0.push((o, n, what));
                Ok(o)
            }
            None => Err(Fail(format!("the {} {} is not unused output of the random source {}", what, hex(piece), hex(&s[from.min(s.len())..])))),
        }
    }
    /// A number may be taken from its bytes in either order.
    fn take_number(&mut self, from: usize, be: &[u8], what: &'static str) -> R<(usize, bool)> {
        match self.take(from, be, what) {
            Ok(o) => Ok((o, false)),
            Err(e) => {
                let le: Vec<u8> = be.iter().rev().copied().collect();
                self.take(from, &le, what).map(|o| (o, true)).map_err(|_| e)
            }
        }
    }
}
fn stream() -> Vec<u8> {
    rng(|r| r.log.concat())
}
/// Checks one new builder.
fn builder_ok(c: &Certificate, used: &mut Used, from: usize) -> R<(usize, (usize, bool))> {
    ensure_eq!(c.nonce.len(), 32, "nonce length");
    let n = used.take(from, &c.nonce, "nonce")?;
    let s = used.take_number(from, &c.serial.to_be_bytes(), "serial")?;
    Ok((n, s))
}
fn seed_of(k: &PrivateKey) -> R<[u8; 32]> {
    match &k.kind {
        sshcerts::ssh::PrivateKeyKind::Ed25519(e) if e.key.len() >= 32 => {
            let mut s = [0; 32];
            s.copy_from_slice(&e.key[..32]);
            Ok(s)
        }
        k => Err(Fail(format!("not an Ed25519 key: {:?}", std::mem::discriminant(k)))),
    }
}
/// Checks one new key: consistent, written, read and signing as it should.
fn key_ok(w: &mut W, k: &PrivateKey, comment: &str, used: &mut Used, from: usize) -> R<(usize, (usize, bool))> {
    let seed = seed_of(k)?;
    let at = used.take(from, &seed, "seed")?;
    let m = used.take_number(from, &k.magic.to_be_bytes(), "check value")?;
    let p = Priv::Ed { seed };
    let file = File::plain(&p, &super::c10::sk0(), k.magic, comment);
    let o = refm::privkey::Opened::of(&p, &super::c10::sk0(), k.magic, comment);
    let bytes = file.encode();
    super::c10::same(w, k, &o, Some(&bytes))?;
    let back = w.call("from_string", || PrivateKey::from_string(&armor(&bytes, 70)))?.map_err(|e| Fail(format!("the new key does not read back: {:?}", e)))?;
    super::c10::same(w, &back, &o, Some(&bytes))?;
    for m in [&b""[..], b"message", &seed] {
        let s = w.call("sign", || k.sign(m))?.ok_or(Fail("the new key does not sign".into()))?;
        ensure!(keys::verify(&p.public(), &s, m) == Tri::Yes, "signature does not verify");
    }
    Ok((at, m))
}

pub fn run(cx: &Cx) {
    cx.assume("the random source is the system call getrandom as ring's SystemRandom uses it; numbers may be read from it in either byte order");
    let subj: Vec<Pub> = keys::subjects("ssh:");
    let cas: Vec<Pub> = subj.clone();
    let types = [CertType::User, CertType::Host];
    // every pair of keys
    let radix = [subj.len(), cas.len(), 2, 4];
    cx.bound(format!("{} subject keys x {} CA keys x user/host, four builders in a row each", subj.len(), cas.len()));
    cx.group("builders", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let (k, ca) = (conv::to_pubkey(&subj[d[0]]), conv::to_pubkey(&cas[d[1]]));
        w.case(i, || format!("{:?} certified by {:?}, type {}", subj[d[0]], cas[d[1]], d[2]), |w| {
            rng_reset(i as u64 * 77 + 5);
            rng(|r| r.max_per_request = [usize::MAX, 1, 7, 33][d[3]]);
            let mut used = Used::default();
            for _ in 0..4 {
                let from = stream().len();
                let c = w.call("builder", || Certificate::builder(&k, types[d[2]], &ca))?.map_err(|e| Fail(format!("builder fails: {:?}", e)))?;
                builder_ok(&c, &mut used, from)?;
            }
            Ok("fresh")
        });
    });
    // chosen random bytes
    let k0 = conv::to_pubkey(&subj[0]);
    let ca0 = conv::to_pubkey(&cas[1 % cas.len()]);
    let mut serials: Vec<u64> = vec![0, 1, u64::MAX, u64::MAX - 1, 1 << 63, (1 << 63) - 1, 0x0102030405060708, 0xff, 0xffff, 0xffffffff, 1 << 32];
    serials.extend((0..64).flat_map(|b| [1u64 << b, !(1u64 << b), (1u64 << b).wrapping_sub(1)]));
    let mut nonces: Vec<Vec<u8>> = vec![vec![0; 32], vec![0xff; 32], vec![0x80; 32], vec![0x0a; 32]];
    for i in 0..32 {
        for v in [1u8, 0x80, 0xff] {
            let mut n = vec![0; 32];
            n[i] = v;
            nonces.push(n);
            let mut n = vec![0xff; 32];
            n[i] = !v;
            nonces.push(n);
        }
    }
    let ns = serials.len() + nonces.len();
    cx.bound(format!("{} chosen serials and {} chosen nonces served by the random source; every bit of both", serials.len(), nonces.len()));
    cx.group("chosen values", ns * 2, |w, i| {
        let t = types[i % 2];
        let j = i / 2;
        w.case(i, || if j < serials.len() { format!("the random source serves {:#x} as serial", serials[j]) } else { format!("the random source serves the nonce {}", hex(&nonces[j - serials.len()])) }, |w| {
            // where this tree takes each field from
            rng_reset(99);
            let c = w.call("builder", || Certificate::builder(&k0, t, &ca0))?.map_err(|e| Fail(format!("builder fails: {:?}", e)))?;
            let (pn, (ps, le)) = builder_ok(&c, &mut Used::default(), 0)?;
            let mut s = stream();
            s.extend(fill(64, 3));
            let (mut want_n, mut want_s) = (c.nonce.clone(), c.serial);
            if j < serials.len() {
                want_s = serials[j];
                s[ps..ps + 8].copy_from_slice(&if le { want_s.to_le_bytes() } else { want_s.to_be_bytes() });
            } else {
                want_n = nonces[j - serials.len()].clone();
                s[pn..pn + 32].copy_from_slice(&want_n);
            }
            rng_reset(99);
            rng(|r| r.script = s);
            let c = w.call("builder", || Certificate::builder(&k0, t, &ca0))?.map_err(|e| Fail(format!("builder fails: {:?}", e)))?;
            ensure_eq!(hex(&c.nonce), hex(&want_n), "nonce");
            ensure_eq!(c.serial, want_s, "serial");
            Ok("exact")
        });
    });
    // keys
    let comments: Vec<String> = ["", "c", "user@host", "two words", "ünïcödé ☃", "nul\0", "line\nbreak", "\r\n", " ", "-----END OPENSSH PRIVATE KEY-----"].iter().map(|s| s.to_string()).chain((0..cx.pick(300, 3000)).map(|n| text(n, 5))).collect();
    cx.bound(format!("new keys with {} comments, {} chosen seeds and {} chosen check values", comments.len(), nonces.len(), serials.len()));
    cx.group("keys", comments.len(), |w, i| {
        let c = &comments[i];
        w.case(i, || format!("new key with comment {:?}", c), |w| {
            rng_reset(i as u64 + 1000);
            let mut used = Used::default();
            for short in [usize::MAX, 1, 5] {
                rng(|r| r.max_per_request = short);
                let from = stream().len();
                let k = w.call("new", || PrivateKey::new(KeyTypeKind::Ed25519, c))?.map_err(|e| Fail(format!("new fails: {:?}", e)))?;
                key_ok(w, &k, c, &mut used, from)?;
            }
            Ok("valid")
        });
    });
    cx.group("chosen seeds", ns, |w, j| {
        w.case(j, || if j < serials.len() { format!("the random source serves {:#x} as check value", serials[j] as u32) } else { format!("the random source serves the seed {}", hex(&nonces[j - serials.len()])) }, |w| {
            rng_reset(99);
            let k = w.call("new", || PrivateKey::new(KeyTypeKind::Ed25519, "c"))?.map_err(|e| Fail(format!("new fails: {:?}", e)))?;
            let (ps, (pm, le)) = key_ok(w, &k, "c", &mut Used::default(), 0)?;
            rng_reset(99);
            let _ = w.call("new", || PrivateKey::new(KeyTypeKind::Ed25519, "c"))?;
            let mut s = stream();
            s.extend(fill(64, 3));
            let (mut seed, mut magic) = (seed_of(&k)?.to_vec(), k.magic);
            if j < serials.len() {
                magic = serials[j] as u32 ^ (serials[j] >> 32) as u32;
                s[pm..pm + 4].copy_from_slice(&if le { magic.to_le_bytes() } else { magic.to_be_bytes() });
            } else {
                seed = nonces[j - serials.len()].clone();
                s[ps..ps + 32].copy_from_slice(&seed);
            }
            rng_reset(99);
            rng(|r| r.script = s);
            let k = w.call("new", || PrivateKey::new(KeyTypeKind::Ed25519, "c"))?.map_err(|e| Fail(format!("new fails: {:?}", e)))?;
            ensure_eq!(hex(&seed_of(&k)?), hex(&seed), "seed");
            ensure_eq!(k.magic, magic, "check value");
            key_ok(w, &k, "c", &mut Used::default(), 0)?;
            Ok("exact")
        });
    });
    // failing source
    let shorts = [usize::MAX, 1, 3, 8, 16, 31];
    let radix = [subj.len() + 1, shorts.len(), 48, 2, 2];
    cx.bound("a random source that serves at most 1, 3, 8, 16, 31 or all bytes a call and fails at its n-th call for n < 48, once or for good: builders for every key type, and new keys");
    cx.group("failing source", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let (short, at, forever) = (shorts[d[1]], d[2], d[3] == 0);
        w.case(i, || format!("{}: random source of {} bytes a call fails at call {} {}", if d[0] < subj.len() { "builder" } else { "new key" }, short, at, if forever { "for good" } else { "once" }), |w| {
            rng_reset(i as u64 + 31337);
            rng(|r| {
                r.max_per_request = short;
                r.fail_at = Some(at);
                r.fail_forever = forever;
            });
            let mut used = Used::default();
            let mut class = "unaffected";
            for round in 0..2 {
                let from = stream().len();
                let before = rng(|r| r.failures);
                let ok = if d[0] < subj.len() {
                    let (k, ca) = (conv::to_pubkey(&subj[d[0]]), conv::to_pubkey(&cas[(d[0] + 1) % cas.len()]));
                    let c = w.call("builder", || Certificate::builder(&k, types[d[4]], &ca))?;
                    if let Ok(c) = &c {
                        builder_ok(c, &mut used, from)?;
                    }
                    c.is_ok()
                } else {
                    let k = w.call("new", || PrivateKey::new(KeyTypeKind::Ed25519, "c"))?;
                    if let Ok(k) = &k {
                        key_ok(w, k, "c", &mut used, from)?;
                    }
                    k.is_ok()
                };
                let failed = rng(|r| r.failures) > before;
                if forever {
                    ensure!(ok != failed, "round {}: the random source {} and the result is {}", round, if failed { "fails" } else { "works" }, if ok { "a value" } else { "an error" });
                } else {
                    ensure!(ok || failed, "round {}: the random source works and the result is an error", round);
                }
                if failed {
                    class = if ok { "another try" } else { "refused" };
                }
            }
            Ok(class)
        });
    });
    // histories
    #[derive(Clone, Copy, Debug)]
    enum Op {
        Build(usize, usize),
        New,
        Sign,
        CloneSign,
        FailBuild,
        FailNew,
        Short(usize),
        Parse,
    }
    let ops = [Op::Build(0, 0), Op::Build(0, 1), Op::Build(5, 0), Op::New, Op::Sign, Op::CloneSign, Op::FailBuild, Op::FailNew, Op::Short(1), Op::Parse];
    let depth = cx.pick(5, 6);
    cx.bound(format!("every history of up to {} of {:?}", depth, ops));
    let signer = Priv::Ed { seed: keys::seed(9) };
    let sk = conv::to_privkey(&signer);
    let known = refm::cert::Cert::plain(subj[0].clone(), signer.public()).issue(&signer);
    cx.group("histories", words(ops.len(), depth), |w, i| {
        let l: Vec<Op> = word(i, ops.len(), depth).into_iter().map(|x| ops[x]).collect();
        w.case(i, || format!("{:?}", l), |w| {
            rng_reset(i as u64 * 3 + 1);
            let mut used = Used::default();
            let mut last: Option<Certificate> = None;
            for op in &l {
                let from = stream().len();
                match *op {
                    Op::Build(s, t) => {
                        let k = conv::to_pubkey(&subj[s % subj.len()]);
                        let c = w.call("builder", || Certificate::builder(&k, types[t], &sk.pubkey))?.map_err(|e| Fail(format!("builder fails: {:?}", e)))?;
                        builder_ok(&c, &mut used, from)?;
                        last = Some(c);
                    }
                    Op::New => {
                        let k = w.call("new", || PrivateKey::new(KeyTypeKind::Ed25519, "c"))?.map_err(|e| Fail(format!("new fails: {:?}", e)))?;
                        let seed = seed_of(&k)?;
                        used.take(from, &seed, "seed")?;
                        used.take_number(from, &k.magic.to_be_bytes(), "check value")?;
                    }
                    Op::Sign => {
                        if let Some(c) = last.take() {
                            let (n, s) = (c.nonce.clone(), c.serial);
                            let g = w.call("sign", || c.sign(&sk))?.map_err(|e| Fail(format!("sign fails: {:?}", e)))?;
                            ensure!(g.nonce == n && g.serial == s, "signing changes nonce or serial");
                        }
                    }
                    Op::CloneSign => {
                        if let Some(c) = &last {
                            let (n, s) = (c.nonce.clone(), c.serial);
                            let c2 = c.clone();
                            let g = w.call("sign", || c2.sign(&sk))?.map_err(|e| Fail(format!("sign fails: {:?}", e)))?;
                            ensure!(g.nonce == n && g.serial == s, "signing changes nonce or serial");
                        }
                    }
                    Op::FailBuild | Op::FailNew => {
                        rng(|r| {
                            r.fail_at = Some(r.requests + 1);
                            r.fail_forever = true;
                        });
                        let before = rng(|r| r.failures);
                        let ok = if matches!(op, Op::FailBuild) {
                            let r = w.call("builder", || Certificate::builder(&k0, types[0], &sk.pubkey))?;
                            if let Ok(c) = &r {
                                builder_ok(c, &mut used, from)?;
                            }
                            r.is_ok()
                        } else {
                            let r = w.call("new", || PrivateKey::new(KeyTypeKind::Ed25519, "c"))?;
                            if let Ok(k) = &r {
                                key_ok(w, k, "c", &mut used, from)?;
                            }
                            r.is_ok()
                        };
                        ensure!(ok == (rng(|r| r.failures) == before), "the random source fails and the result is a value");
                        rng(|r| r.fail_at = None);
                    }
                    Op::Short(n) => rng(|r| r.max_per_request = if r.max_per_request == n { usize::MAX } else { n }),
                    Op::Parse => {
                        let c = w.call("from_bytes", || Certificate::from_bytes(&known))?.map_err(|e| Fail(format!("{:?}", e)))?;
                        ensure_eq!(c.serial, refm::cert::Cert::plain(subj[0].clone(), signer.public()).serial, "parsed serial");
                    }
                }
                w.state(&(used.0.len(), last.is_some(), format!("{:?}", op)));
            }
            Ok("fresh")
        });
    });
    // other kinds of key: none can be generated
    let kinds = [KeyTypeKind::Rsa, KeyTypeKind::Ecdsa, KeyTypeKind::RsaCert, KeyTypeKind::EcdsaCert, KeyTypeKind::Ed25519Cert];
    cx.group("other kinds", kinds.len(), |w, i| {
        w.case(i, || format!("new {:?}", kinds[i]), |w| {
            let kind = kinds[i].clone();
            rng_reset(4);
            let cert = i >= 2;
            let r = w.call("new", || PrivateKey::new(kind, "c"))?;
            match r {
                Ok(_) if cert => Err(Fail("a private key of a certificate type".into())),
                Ok(k) => {
                    let p = conv::privkey(&k).ok_or(Fail("inconsistent key".into()))?;
                    ensure!(p.consistent(), "inconsistent key");
                    let s = w.call("sign", || k.sign(b"m"))?.ok_or(Fail("does not sign".into()))?;
                    ensure!(keys::verify(&p.public, &s, b"m") == Tri::Yes, "signature does not verify");
                    Ok("generated")
                }
                Err(_) => Ok("refused"),
            }
        });
    });
}
