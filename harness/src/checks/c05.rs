//! Certificate builder: every sequence of builder calls up to a depth, against a model of the settings.
use super::c04::{compare, STRINGS};
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::cert::{self, Cert};
use refm::keys::{self, Priv, Pub};
use refm::Tri;
use sshcerts::ssh::{CertType, SSHCertificateSigner};
use sshcerts::Certificate;
use std::collections::HashMap;

pub struct Fixed(pub Option<Vec<u8>>);
impl SSHCertificateSigner for Fixed {
    fn sign(&self, _: &[u8]) -> Option<Vec<u8>> {
        self.0.clone()
    }
}
/// Signs what it is given with a reference key and remembers it.
pub struct RefSigner<'a>(pub &'a Priv, pub std::cell::RefCell<Vec<Vec<u8>>>);
impl SSHCertificateSigner for RefSigner<'_> {
    fn sign(&self, b: &[u8]) -> Option<Vec<u8>> {
        self.1.borrow_mut().push(b.to_vec());
        Some(self.0.sign(b))
    }
}
type Opts = Vec<(String, String)>;
#[derive(Clone, Debug, Hash, PartialEq, Eq)]
enum Op {
    Serial(u64),
    KeyId(String),
    Principal(String),
    SetPrincipals(Vec<String>),
    After(u64),
    Before(u64),
    Crit(String, String),
    SetCrit(Opts),
    Ext(String, String),
    SetExt(Opts),
    StdExt,
    Comment(String),
}
fn map(o: &Opts) -> HashMap<String, String> {
    o.iter().cloned().collect()
}
fn put(o: &mut Opts, k: &str, v: &str) {
    o.retain(|x| x.0 != k);
    o.push((k.into(), v.into()));
    o.sort();
}
fn std_ext() -> Opts {
    let mut v: Opts = ["permit-X11-forwarding", "permit-agent-forwarding", "permit-port-forwarding", "permit-pty", "permit-user-rc"].iter().map(|s| (s.to_string(), String::new())).collect();
    v.sort();
    v
}
fn apply(c: Certificate, o: &Op) -> Certificate {
    match o {
        Op::Serial(x) => c.serial(*x),
        Op::KeyId(x) => c.key_id(x),
        Op::Principal(x) => c.principal(x),
        Op::SetPrincipals(x) => c.set_principals(x),
        Op::After(x) => c.valid_after(*x),
        Op::Before(x) => c.valid_before(*x),
        Op::Crit(a, b) => c.critical_option(a, b),
        Op::SetCrit(m) => c.set_critical_options(map(m)),
        Op::Ext(a, b) => c.extension(a, b),
        Op::SetExt(m) => c.set_extensions(map(m)),
        Op::StdExt => c.set_extensions(Certificate::standard_extensions()),
        Op::Comment(x) => c.comment(x),
    }
}
fn model(m: &mut Cert, comment: &mut Option<String>, o: &Op) {
    match o {
        Op::Serial(x) => m.serial = *x,
        Op::KeyId(x) => m.key_id = x.clone(),
        Op::Principal(x) => m.principals.push(x.clone()),
        Op::SetPrincipals(x) => m.principals = x.clone(),
        Op::After(x) => m.valid_after = *x,
        Op::Before(x) => m.valid_before = *x,
        Op::Crit(a, b) => put(&mut m.critical, a, b),
        Op::SetCrit(o) => {
            m.critical = o.clone();
            m.critical.sort();
        }
        Op::Ext(a, b) => put(&mut m.extensions, a, b),
        Op::SetExt(o) => {
            m.extensions = o.clone();
            m.extensions.sort();
        }
        Op::StdExt => m.extensions = std_ext(),
        Op::Comment(x) => *comment = Some(x.clone()),
    }
}
/// A fresh builder and its model.
fn fresh(w: &mut W, key: &Pub, ct: u32, ca: &Pub) -> R<(Certificate, Cert)> {
    let mut k = conv::to_pubkey(key);
    k.comment = Some("subject-comment".into());
    let a = conv::to_pubkey(ca);
    let b = w.call("builder", || Certificate::builder(&k, if ct == 1 { CertType::User } else { CertType::Host }, &a))?.map_err(|e| Fail(format!("builder: {:?}", e)))?;
    let m = Cert {
        ty: keys::cert_name_of(key.type_name()).into(),
        nonce: b.nonce.clone(),
        key: key.clone(),
        serial: b.serial,
        cert_type: ct,
        key_id: "".into(),
        principals: vec![],
        valid_after: 0,
        valid_before: 0,
        critical: vec![],
        extensions: vec![],
        reserved: vec![],
        ca: ca.clone(),
    };
    Ok((b, m))
}
fn tbs_ok(w: &mut W, c: &Certificate, m: &Cert) -> R {
    let want = m.tbs();
    let t = w.call("tbs_certificate", || c.tbs_certificate())?;
    ensure!(t == want, "to-be-signed bytes {} expected {}", hex(&t), hex(&want));
    let t = w.call("tbs_certificate", || c.clone().tbs_certificate())?;
    ensure!(t == want, "to-be-signed bytes, computed again: {} expected {}", hex(&t), hex(&want));
    Ok(())
}
/// Signs with a reference signer and compares everything. Returns the signed certificate.
fn sign_ok(w: &mut W, c: Certificate, m: &Cert, ca: &Priv, comment: &Option<String>) -> R<Certificate> {
    let s = RefSigner(ca, Default::default());
    let want = m.tbs();
    let g = w.call("sign", || c.sign(&s))?.map_err(|e| Fail(format!("sign: {:?}", e)))?;
    for b in s.1.borrow().iter() {
        ensure!(*b == want, "the signer was given {} expected {}", hex(b), hex(&want));
    }
    ensure!(!s.1.borrow().is_empty(), "the signer was not asked");
    signed_ok(w, &g, m, comment)?;
    Ok(g)
}
fn signed_ok(w: &mut W, g: &Certificate, m: &Cert, comment: &Option<String>) -> R {
    let want = m.tbs();
    ensure!(keys::verify(&m.ca, &g.signature, &want) != Tri::No, "the signature does not verify");
    let full = cert::sealed(&want, &g.signature);
    compare(g, m, &g.signature.clone(), &full)?;
    ensure_eq!(g.comment, *comment, "comment");
    let again = w.call("from_bytes", || Certificate::from_bytes(&g.serialized))?.map_err(|e| Fail(format!("the issued certificate does not parse: {:?}", e)))?;
    compare(&again, m, &g.signature.clone(), &full)?;
    let line = w.call("Display", || format!("{}", g))?;
    let again = w.call("from_string", || Certificate::from_string(&line))?.map_err(|e| Fail(format!("the printed certificate does not parse: {:?}", e)))?;
    compare(&again, m, &g.signature.clone(), &full)
}

pub fn run(cx: &Cx) {
    let signers = keys::signers("ssh:");
    let subj = keys::subjects("ssh:é");
    let o = |v: &[(&str, &str)]| -> Opts { v.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect() };
    let ops: Vec<Op> = vec![
        Op::Serial(0),
        Op::Serial(u64::MAX),
        Op::KeyId("".into()),
        Op::KeyId("key-id é".into()),
        Op::Principal("alice".into()),
        Op::Principal("alice".into()),
        Op::Principal("".into()),
        Op::SetPrincipals(vec![]),
        Op::SetPrincipals(vec!["z".into(), "a".into(), "z".into()]),
        Op::After(1),
        Op::After(u64::MAX),
        Op::Before(2),
        Op::Before(u64::MAX),
        Op::Crit("force-command".into(), "/bin/a".into()),
        Op::Crit("force-command".into(), "".into()),
        Op::Crit("source-address".into(), "10.0.0.0/8".into()),
        Op::SetCrit(vec![]),
        Op::SetCrit(o(&[("z", "1"), ("a", "2"), ("m", "")])),
        Op::Ext("permit-pty".into(), "".into()),
        Op::Ext("permit-pty".into(), "x".into()),
        Op::Ext("".into(), "".into()),
        Op::SetExt(vec![]),
        Op::SetExt(o(&[("permit-pty", ""), ("B", "b"), ("a", "")])),
        Op::StdExt,
        Op::Comment("c1".into()),
    ];
    let k = ops.len();
    let depth = cx.pick(3, 4);
    cx.bound(format!("every sequence of at most {} builder calls out of {}, to-be-signed bytes compared after each, then signed, parsed and printed; subjects of all 7 types, all 6 CA kinds", depth, k));
    let small: Vec<usize> = (0..k).filter(|x| ![1, 2, 5, 6, 10, 11, 12, 15, 20, 22, 24].contains(x)).collect();
    let deep = depth + 1;
    cx.bound(format!("every sequence of {} builder calls out of {}", deep, small.len()));
    let shallow = words(k, depth);
    cx.group("sequences", shallow + small.len().pow(deep as u32), |w, i| {
        let seq = if i < shallow { word(i, k, depth) } else { digits(i - shallow, &vec![small.len(); deep]).iter().map(|x| small[*x]).collect() };
        let subject = &subj[i % subj.len()];
        let ca = &signers[if i % 9 == 0 { 1 } else { 0 }].1;
        w.case(&seq, || format!("builder calls {:?}", seq.iter().map(|x| &ops[*x]).collect::<Vec<_>>()), |w| {
            let (mut c, mut m) = fresh(w, subject, 1 + (i as u32 % 2), &ca.public())?;
            let mut comment = None;
            tbs_ok(w, &c, &m)?;
            for x in &seq {
                c = w.call("builder call", || apply(c, &ops[*x]))?;
                model(&mut m, &mut comment, &ops[*x]);
                w.state(&m.tbs());
                tbs_ok(w, &c, &m)?;
            }
            sign_ok(w, c, &m, ca, &comment)?;
            Ok("issued")
        });
    });
    // sign, change, sign again; parse, change, sign again
    cx.bound("every pair of builder calls around signing: sign, call, call, sign; parse, call, call, sign; failed signing, call, sign");
    cx.group("resign", k * k * 2, |w, i| {
        let d = digits(i, &[k, k, 2]);
        let ca = &signers[i % 2].1;
        w.case(&d, || format!("{} then {:?}, {:?} and signing again", ["signing", "parsing"][d[2]], ops[d[0]], ops[d[1]]), |w| {
            let (c, mut m) = fresh(w, &subj[i % 7], 2, &ca.public())?;
            let mut comment = None;
            let mut c = w.call("call", || c.principal("first").critical_option("verify-required", "").extension("x", "y"))?;
            m.principals = vec!["first".into()];
            m.critical = o(&[("verify-required", "")]);
            m.extensions = o(&[("x", "y")]);
            c = sign_ok(w, c, &m, ca, &comment)?;
            if d[2] == 1 {
                let b = c.serialized.clone();
                c = w.call("from_bytes", || Certificate::from_bytes(&b))?.map_err(|e| Fail(format!("{:?}", e)))?;
            }
            for x in &d[..2] {
                c = w.call("builder call", || apply(c, &ops[*x]))?;
                model(&mut m, &mut comment, &ops[*x]);
                tbs_ok(w, &c, &m)?;
            }
            // a signature for the earlier settings does not fit the changed ones
            let old = c.signature.clone();
            let stale = c.clone();
            let r = w.call("add_signature", || stale.add_signature(&old))?;
            let fits = keys::verify(&m.ca, &old, &m.tbs());
            ensure!(fits.allows(r.is_ok()), "a signature over the earlier settings was taken: {:?}", fits);
            sign_ok(w, c, &m, ca, &comment)?;
            Ok("issued again")
        });
    });
    // values
    let ns = STRINGS.len();
    cx.bound(format!("strings: every pair of {} in principals, key id, option names and values; numbers 2^k, 2^k-1; {} lengths; 0..=300 entries", ns, super::c02::lens(70000).len()));
    cx.group("strings", ns * ns, |w, i| {
        let (a, b) = (STRINGS[i % ns], STRINGS[i / ns]);
        let ca = &signers[0].1;
        w.case((a, b), || format!("strings {:?} {:?}", a, b), |w| {
            let (c, mut m) = fresh(w, &subj[i % 7], 1, &ca.public())?;
            let c = w.call("builder calls", || c.key_id(format!("{}{}", a, b)).principal(a).principal(b).critical_option(a, b).critical_option(b, a).extension(b, "").extension(a, b))?;
            m.key_id = format!("{}{}", a, b);
            m.principals = vec![a.into(), b.into()];
            put(&mut m.critical, a, b);
            put(&mut m.critical, b, a);
            put(&mut m.extensions, b, "");
            put(&mut m.extensions, a, b);
            tbs_ok(w, &c, &m)?;
            // the printed line ends with the key id, white space in it is cut when parsed again: text form not compared here
            let s = RefSigner(ca, Default::default());
            let g = w.call("sign", || c.sign(&s))?.map_err(|e| Fail(format!("sign: {:?}", e)))?;
            let full = cert::sealed(&m.tbs(), &g.signature);
            compare(&g, &m, &g.signature.clone(), &full)?;
            let again = w.call("from_bytes", || Certificate::from_bytes(&g.serialized))?.map_err(|e| Fail(format!("does not parse: {:?}", e)))?;
            compare(&again, &m, &g.signature.clone(), &full)?;
            Ok("issued")
        });
    });
    let mut nums = vec![0u64, u64::MAX];
    for k in 0..64 {
        nums.extend([1u64 << k, (1u64 << k) - 1, !(1u64 << k)]);
    }
    cx.group("numbers", nums.len(), |w, i| {
        let n = nums[i];
        w.case(n, || format!("number {}", n), |w| {
            let ca = &signers[0].1;
            for f in 0..4 {
                let (c, mut m) = fresh(w, &subj[i % 7], 1 + (i as u32 & 1), &ca.public())?;
                let mut comment = None;
                let calls: Vec<Op> = match f {
                    0 => vec![Op::Serial(n)],
                    1 => vec![Op::After(n)],
                    2 => vec![Op::Before(n)],
                    _ => vec![Op::After(n), Op::Before(nums[(i * 5) % nums.len()]), Op::Serial(!n)],
                };
                let mut c = c;
                for o in &calls {
                    c = w.call("call", || apply(c, o))?;
                    model(&mut m, &mut comment, o);
                }
                tbs_ok(w, &c, &m)?;
                sign_ok(w, c, &m, ca, &comment)?;
            }
            Ok("issued")
        });
    });
    let lens = super::c02::lens(70000);
    cx.group("lengths", lens.len() * 5, |w, i| {
        let n = lens[i / 5];
        w.case(i, || format!("length {} in field {}", n, i % 5), |w| {
            let ca = &signers[0].1;
            let (mut c, mut m) = fresh(w, &subj[i % 7], 1, &ca.public())?;
            let mut comment = None;
            let op = match i % 5 {
                0 => Op::KeyId(text(n, 1)),
                1 => Op::Principal(text(n, 2)),
                2 => Op::Crit("force-command".into(), text(n, 3)),
                3 => Op::Ext(text(n, 4), "".into()),
                _ => Op::Ext(text(3, 4), text(n, 1)),
            };
            c = w.call("call", || apply(c, &op))?;
            model(&mut m, &mut comment, &op);
            tbs_ok(w, &c, &m)?;
            sign_ok(w, c, &m, ca, &comment)?;
            Ok("issued")
        });
    });
    cx.group("counts", 301, |w, n| {
        w.case(n, || format!("{} entries", n), |w| {
            let ca = &signers[0].1;
            let (mut c, mut m) = fresh(w, &subj[n % 7], 1, &ca.public())?;
            let mut comment = None;
            for j in 0..n {
                for op in [Op::Principal(format!("p{}", (j * 7) % 11)), Op::Crit(format!("c{}", n - j), if j % 3 == 0 { "".into() } else { format!("{}", j) }), Op::Ext(format!("e{}", (j * 31) % 307), "".into())] {
                    c = w.call("call", || apply(c, &op))?;
                    model(&mut m, &mut comment, &op);
                }
            }
            tbs_ok(w, &c, &m)?;
            sign_ok(w, c, &m, ca, &comment)?;
            // and the same through the setters
            let (c, mut m2) = fresh(w, &subj[n % 7], 1, &ca.public())?;
            let (p, cr, ex) = (m.principals.clone(), map(&m.critical), map(&m.extensions));
            let c = w.call("setters", || c.principal("gone").critical_option("gone", "").extension("gone", "").set_principals(&p).set_critical_options(cr).set_extensions(ex))?;
            m2.principals = m.principals.clone();
            m2.critical = m.critical.clone();
            m2.extensions = m.extensions.clone();
            tbs_ok(w, &c, &m2)?;
            Ok("issued")
        });
    });
    // iteration orders of the option maps
    cx.bound("option maps of 4 entries in all 24 iteration orders, for critical options and extensions independently");
    cx.group("orders", 2, |w, which| {
        let names = o(&[("permit-pty", ""), ("force-command", "x"), ("zz", "1"), ("A", "")]);
        let ca = &signers[0].1;
        let mut seen = std::collections::BTreeSet::new();
        let mut tries = 0;
        while seen.len() < 24 && tries < 200_000 && !w.stopped() {
            tries += 1;
            let mp = map(&names);
            let order: Vec<String> = mp.keys().cloned().collect();
            if !seen.insert(order.clone()) {
                continue;
            }
            w.case((which, &order), || format!("map iterating as {:?}", order), |w| {
                let (c, mut m) = fresh(w, &subj[0], 1, &ca.public())?;
                let mut s = names.clone();
                s.sort();
                let c = if which == 0 {
                    m.critical = s;
                    c.set_critical_options(mp)
                } else {
                    m.extensions = s;
                    c.set_extensions(mp)
                };
                tbs_ok(w, &c, &m)?;
                sign_ok(w, c, &m, ca, &None)?;
                Ok("issued")
            });
        }
    });
    // all kinds of keys, and every wrong signature
    let mut all: Vec<(&str, Priv)> = signers.clone();
    all.extend(keys::signers2("ssh:"));
    all.push(("rsa3072", Priv::Rsa(keys::rsa("3072"))));
    all.push(("rsa4096", Priv::Rsa(keys::rsa("4096"))));
    cx.bound(format!("{} CA keys times 7 subjects; signatures by every other key, under every label, over other bytes, cut at every length, every bit flipped, absent", all.len()));
    cx.group("signers", all.len() * subj.len(), |w, i| {
        let (cn, ca) = &all[i % all.len()];
        let key = &subj[i / all.len()];
        w.case(i, || format!("{} signed by {}", key.type_name(), cn), |w| {
            let (c, m) = fresh(w, key, 1, &ca.public())?;
            tbs_ok(w, &c, &m)?;
            sign_ok(w, c, &m, ca, &None)?;
            Ok("issued")
        });
        let thorough = w.thorough();
        let b = match fresh(w, key, 1, &ca.public()) {
            Ok((b, _)) => b.principal("p"),
            Err(f) => {
                w.case("builder", || "a fresh builder".into(), |_| Err(f.clone()));
                return;
            }
        };
        let mut run = |what: &str, sig: Option<Vec<u8>>, bld: &Certificate, m: &Cert| {
            w.case((i, &sig), || format!("{} under CA {}: {}: {}", key.type_name(), cn, what, sig.as_ref().map(|s| hex(s)).unwrap_or_default()), |w| {
                let want = match &sig {
                    None => Tri::No,
                    Some(s) => keys::verify(&m.ca, s, &m.tbs()),
                };
                let r = w.call("sign", || bld.clone().sign(&Fixed(sig.clone())))?;
                ensure!(want.allows(r.is_ok()), "sign gives a certificate: {}, expected {:?}", r.is_ok(), want);
                if let Some(s) = &sig {
                    let r = w.call("add_signature", || bld.clone().add_signature(s))?;
                    ensure!(want.allows(r.is_ok()), "add_signature gives a certificate: {}, expected {:?}", r.is_ok(), want);
                    if let Ok(g) = r {
                        let full = cert::sealed(&m.tbs(), s);
                        compare(&g, m, s, &full)?;
                    }
                }
                Ok(if want == Tri::No { "refused" } else { "issued" })
            });
        };
        let m = {
            let mut m = Cert::plain(key.clone(), ca.public());
            m.nonce = b.nonce.clone();
            m.serial = b.serial;
            m.key_id = "".into();
            m.principals = vec!["p".into()];
            m.valid_after = 0;
            m.valid_before = 0;
            m.critical = vec![];
            m.extensions = vec![];
            m
        };
        let tbs = m.tbs();
        run("no signature", None, &b, &m);
        run("empty", Some(vec![]), &b, &m);
        for (sn, s) in &all {
            for l in s.labels() {
                run(sn, Some(s.sign_with(l, 1, 1, &tbs)), &b, &m);
            }
        }
        for over in [vec![], tbs[1..].to_vec(), tbs[..tbs.len() - 1].to_vec(), [&tbs[..], &[0]].concat(), {
            let mut x = m.clone();
            x.serial ^= 1;
            x.tbs()
        }, {
            let mut x = m.clone();
            x.principals = vec![];
            x.tbs()
        }, {
            let mut x = m.clone();
            x.nonce[31] ^= 1;
            x.tbs()
        }] {
            run("over other bytes", Some(ca.sign(&over)), &b, &m);
        }
        let good = ca.sign(&tbs);
        if i / all.len() == 0 || thorough {
            for n in 0..good.len() {
                run("cut", Some(good[..n].to_vec()), &b, &m);
                for bit in 0..8 {
                    let mut v = good.clone();
                    v[n] ^= 1 << bit;
                    run("bit flipped", Some(v), &b, &m);
                }
            }
        }
    });
    // the crate's own keys as CA
    cx.group("own-signers", 4 * 7, |w, i| {
        let ca = &all[[0, 1, 2, 3][i % 4]].1;
        w.case(i, || format!("CA {}", all[i % 4].0), |w| {
            let p = conv::to_privkey(ca);
            let (c, m) = fresh(w, &subj[i / 4], 2, &ca.public())?;
            let g = w.call("sign", || c.sign(&p))?.map_err(|e| Fail(format!("sign: {:?}", e)))?;
            signed_ok(w, &g, &m, &None)?;
            Ok("issued")
        });
    });
}
