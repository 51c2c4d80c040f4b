//! Certificates: accepted exactly when the reference model says so.
use super::*;
use crate::engine::*;
use crate::ensure;
use refm::cert::{self, Cert};
use refm::keys::{self, Priv, Pub};
use refm::wire::{be32, be64, string, Enc};
use refm::Tri;
use sshcerts::Certificate;

/// Parses the bytes and compares acceptance with the model.
pub fn accept(w: &mut W, bytes: &[u8]) -> R<&'static str> {
    let (t, _, _, why) = cert::judge(bytes);
    let got = w.call("Certificate::from_bytes", || Certificate::from_bytes(bytes).map(|_| ()))?;
    ensure!(t.allows(got.is_ok()), "from_bytes gives {:?}, the model says {:?} ({})", got.map_err(|e| format!("{:?}", e)), t, why);
    Ok(match t {
        Tri::Yes => "accepted",
        Tri::May => "unspecified",
        Tri::No => why,
    })
}
pub fn shapes(key: Pub, ca: Pub) -> Vec<Cert> {
    let a = Cert::plain(key, ca);
    let mut b = a.clone();
    b.cert_type = 2;
    b.key_id = "é".repeat(70);
    b.principals = (0..5).map(|i| text(i * 40, i as u8)).collect();
    b.critical = vec![];
    b.extensions = vec![("a".into(), "1".into()), ("b".into(), "".into()), ("c".into(), text(300, 1))];
    b.valid_after = 0;
    b.valid_before = u64::MAX;
    let mut c = a.clone();
    c.principals = vec![];
    c.critical = vec![];
    c.extensions = vec![];
    c.key_id = "".into();
    c.nonce = vec![];
    c.serial = 0;
    vec![a, b, c]
}
/// (name, key) of every CA kind
pub fn cas() -> Vec<(&'static str, Priv)> {
    keys::signers("ssh:")
}
/// Single edits of a byte string; density 2: all values of a byte, 1: all bits, 0: three bits.
pub fn edits(b: &[u8], density: usize, mut f: impl FnMut(String, Vec<u8>)) {
    for i in 0..b.len() {
        if density == 2 {
            for x in 1..=255u8 {
                let mut v = b.to_vec();
                v[i] ^= x;
                f(format!("byte {} xor {:#x}", i, x), v);
            }
        } else {
            for k in 0..8 {
                if density == 0 && ![0, 3, 7].contains(&k) {
                    continue;
                }
                let mut v = b.to_vec();
                v[i] ^= 1 << k;
                f(format!("byte {} bit {}", i, k), v);
            }
        }
    }
    for i in 0..b.len() {
        let mut v = b.to_vec();
        v.remove(i);
        f(format!("byte {} removed", i), v);
    }
    for i in 0..=b.len() {
        for x in [0u8, 1, 0xff] {
            let mut v = b.to_vec();
            v.insert(i, x);
            f(format!("{:#x} inserted at {}", x, i), v);
        }
    }
    for i in 0..b.len() {
        f(format!("cut to {} bytes", i), b[..i].to_vec());
        f(format!("first {} bytes gone", i + 1), b[i + 1..].to_vec());
    }
    for i in 0..b.len().saturating_sub(1) {
        let mut v = b.to_vec();
        v.swap(i, i + 1);
        if v != b {
            f(format!("bytes {} and {} swapped", i, i + 1), v);
        }
    }
}
pub fn tails(b: &[u8]) -> Vec<Vec<u8>> {
    let mut t: Vec<Vec<u8>> = vec![];
    for n in 1..=16 {
        t.push(vec![0; n]);
        t.push(vec![0xff; n]);
        t.push(vec![b'\n'; n]);
    }
    for x in 0..=255u8 {
        t.push(vec![x]);
    }
    t.push(string(b""));
    t.push(string(b"x"));
    t.push(string(b));
    t.push(b.to_vec());
    t.push(fill(4096, 3));
    t
}

pub fn run(cx: &Cx) {
    let cas = cas();
    let others = keys::signers2("ssh:");
    let subj = keys::subjects("ssh:");
    let ns = subj.len();
    cx.bound("CA keys: Ed25519, P-256, P-384, RSA-2048 (and e=3, 3072, 4096, 8192 bits), both security-key types; subjects: all seven types");

    // every edit of every certificate
    cx.group("edits", cas.len() * ns * 3, |w, i| {
        let d = digits(i, &[cas.len(), ns, 3]);
        let (name, ca) = &cas[d[0]];
        let c = shapes(subj[d[1]].clone(), ca.public())[d[2]].clone();
        if d[2] > 0 && d[1] != d[0] && !w.thorough() {
            return;
        }
        let bytes = c.issue(ca);
        w.case(&bytes, || format!("certificate of {} signed by {}", c.ty, name), |w| accept(w, &bytes));
        let dense = if w.thorough() && d[2] == 0 || i == 0 { 2 } else if w.thorough() || d[0] == d[1] { 1 } else { 0 };
        edits(&bytes, dense, |what, v| {
            w.case(&v, || format!("certificate of {} signed by {}, {}: {}", c.ty, name, what, hex(&v)), |w| accept(w, &v));
        });
        for t in tails(&bytes) {
            let mut v = bytes.clone();
            v.extend(&t);
            w.case(&v, || format!("certificate of {} signed by {} followed by {}", c.ty, name, hex(&t)), |w| accept(w, &v));
        }
    });
    // two bytes at once
    let base = {
        let mut c = Cert::plain(subj[0].clone(), cas[0].1.public());
        c.nonce = vec![7; 4];
        c.issue(&cas[0].1)
    };
    cx.bound(format!("every pair of bytes of a {}-byte certificate changed together (4 ways)", base.len()));
    cx.group("pairs", base.len(), |w, i| {
        for j in i + 1..base.len() {
            for (x, y) in [(1, 1), (0x80, 0x80), (0xff, 0xff), (1, 0x80)] {
                let mut v = base.clone();
                v[i] ^= x;
                v[j] ^= y;
                w.case(&v, || format!("bytes {} xor {:#x} and {} xor {:#x}", i, x, j, y), |w| accept(w, &v));
            }
        }
    });
    // whole fields: removed, repeated, exchanged, moved, taken from another valid certificate; with the old signature and signed anew
    cx.bound("every field removed, repeated, emptied, zeroed, taken from each of 9 other certificates, exchanged with or moved to every other place; old signature kept, or signed anew, or signed before the change");
    cx.group("fields", cas.len() * ns, |w, i| {
        let (name, ca) = &cas[i % cas.len()];
        let c = Cert::plain(subj[i / cas.len()].clone(), ca.public());
        let sig = ca.sign(&c.tbs());
        let f: Vec<Vec<u8>> = c.fields().into_iter().map(|x| x.1).collect();
        let mut variants: Vec<(String, Vec<Vec<u8>>)> = vec![];
        let mut donors: Vec<Cert> = vec![];
        for (k, s) in subj.iter().enumerate() {
            let mut o = shapes(s.clone(), others[k % others.len()].1.public())[k % 3].clone();
            o.serial = k as u64;
            donors.push(o);
        }
        let mut o = c.clone();
        o.critical = vec![];
        o.extensions.push(("zz".into(), "".into()));
        o.principals.push("root".into());
        o.serial += 1;
        o.key_id = "other".into();
        o.nonce = vec![9; 32];
        o.cert_type = 2;
        o.valid_after = 0;
        o.valid_before = u64::MAX;
        o.ca = others[0].1.public();
        donors.push(o);
        let names: Vec<&str> = c.fields().iter().map(|x| x.0).collect();
        for a in 0..f.len() {
            let mut v = f.clone();
            v.remove(a);
            variants.push((format!("{} removed", names[a]), v));
            let mut v = f.clone();
            v.insert(a, f[a].clone());
            variants.push((format!("{} twice", names[a]), v));
            let mut v = f.clone();
            v[a] = vec![0; f[a].len()];
            variants.push((format!("{} zeroed", names[a]), v));
            for e in [vec![], string(b""), be32(1), be32(2), be64(0), be64(u64::MAX), string(b"\0\0\0\0")] {
                let mut v = f.clone();
                v[a] = e.clone();
                variants.push((format!("{} set to {}", names[a], hex(&e)), v));
            }
            for (k, dn) in donors.iter().enumerate() {
                let mut v = f.clone();
                v[a] = dn.fields()[a].1.clone();
                variants.push((format!("{} from donor {}", names[a], k), v));
            }
            for b in 0..f.len() {
                if b != a {
                    let mut v = f.clone();
                    let x = v.remove(a);
                    v.insert(b, x);
                    variants.push((format!("{} moved to place {}", names[a], b), v));
                    if b > a {
                        let mut v = f.clone();
                        v.swap(a, b);
                        variants.push((format!("{} and {} exchanged", names[a], names[b]), v));
                    }
                }
            }
        }
        let orig = c.tbs();
        for (what, v) in variants {
            let t: Vec<u8> = v.concat();
            if t == orig {
                continue;
            }
            for (how, bytes) in [
                ("old signature", cert::sealed(&t, &sig)),
                ("signed anew", cert::sealed(&t, &ca.sign(&t))),
                ("signature of the changed bytes on the original", cert::sealed(&orig, &ca.sign(&t))),
            ] {
                w.case(&bytes, || format!("{} signed by {}: {}, {}: {}", c.ty, name, what, how, hex(&bytes)), |w| accept(w, &bytes));
            }
        }
    });
    // who signed, what was signed, and how the signature is labelled
    let mut signers: Vec<(&str, Priv)> = cas.clone();
    signers.extend(others.clone());
    let mut rsas: Vec<(&str, Priv)> = vec![];
    for n in cx.pick(vec!["1024", "3072", "4096", "8192"], vec!["1024", "3072", "4096", "8192"]) {
        rsas.push(("rsa", Priv::Rsa(keys::rsa(n))));
    }
    signers.extend(rsas);
    signers.push(("sk-ed25519 other application", Priv::SkEd { seed: keys::seed(3), app: "ssh:other".into() }));
    signers.push(("sk-p256 other application", Priv::SkEc { d: keys::scalar(4, 32), app: "".into() }));
    // the same secret as a plain and as a hardware key
    signers.push(("sk-ed25519 with the plain seed", Priv::SkEd { seed: keys::seed(1), app: "ssh:".into() }));
    signers.push(("sk-p256 with the plain scalar", Priv::SkEc { d: keys::scalar(1, 32), app: "ssh:".into() }));
    let labels: Vec<&str> = keys::KEY_TYPES.iter().chain(keys::CERT_TYPES.iter()).chain(keys::SIG_ONLY.iter()).copied().chain(["", "ssh-dss", "ecdsa", "none", "ssh-ed25519 ", "SSH-ED25519", "ssh-rsa\0", "webauthn-sk-ecdsa-sha2-nistp256@openssh.com"]).collect();
    cx.bound(format!("every pair of {} signing and CA keys, {} signature labels, signatures over 12 other byte strings", signers.len(), labels.len()));
    cx.group("signers", signers.len() * signers.len(), |w, i| {
        let (sn, s) = &signers[i % signers.len()];
        let (cn, ca) = &signers[i / signers.len()];
        if !w.thorough() && (*cn == "rsa" || *sn == "rsa") && i % signers.len() != i / signers.len() {
            return;
        }
        let c = Cert::plain(subj[0].clone(), ca.public());
        let tbs = c.tbs();
        let mut blobs: Vec<(String, Vec<u8>)> = vec![];
        for l in s.labels() {
            blobs.push((format!("label {}", l), s.sign_with(l, 1, 5, &tbs)));
        }
        for math in s.labels() {
            let (inner, tail) = s.sign_parts(math, 5, 0x01020304, &tbs);
            for l in &labels {
                blobs.push((format!("{} mathematics under label {:?}", math, l), Enc::new().str(l).bytes(&inner).raw(&tail).0));
                blobs.push((format!("{} mathematics under label {:?}, no tail", math, l), Enc::new().str(l).bytes(&inner).0));
                if tail.is_empty() {
                    blobs.push((format!("{} mathematics under label {:?}, with flags and counter", math, l), Enc::new().str(l).bytes(&inner).raw(&[1, 0, 0, 0, 1]).0));
                }
            }
        }
        if i % signers.len() == i / signers.len() && s.public().bits() <= 4096 {
            let mut others: Vec<(String, Vec<u8>)> = vec![];
            others.push(("nothing".into(), vec![]));
            others.push(("without the last byte".into(), tbs[..tbs.len() - 1].to_vec()));
            others.push(("without the first byte".into(), tbs[1..].to_vec()));
            others.push(("with a zero byte more".into(), [&tbs[..], &[0]].concat()));
            others.push(("without the type".into(), tbs[c.fields()[0].1.len()..].to_vec()));
            others.push(("without the CA".into(), tbs[..tbs.len() - c.fields()[12].1.len()].to_vec()));
            others.push(("length prefixed".into(), string(&tbs)));
            others.push(("its sha256".into(), refm::sha256(&tbs)));
            others.push(("its sha512".into(), refm::sha512(&tbs)));
            others.push(("twice".into(), [&tbs[..], &tbs[..]].concat()));
            others.push(("base64".into(), base64::encode(&tbs).into_bytes()));
            others.push(("with the signature field emptied".into(), [&tbs[..], &[0, 0, 0, 0]].concat()));
            for (what, m) in others {
                for l in s.labels() {
                    blobs.push((format!("over the certificate {}, label {}", what, l), s.sign_with(l, 1, 5, &m)));
                }
            }
            // all flags, many counters
            if s.public().is_sk() {
                for fl in 0..=255u8 {
                    blobs.push((format!("flags {:#x}", fl), s.sign_with(s.labels()[0], fl, 9, &tbs)));
                }
                for k in 0..32 {
                    blobs.push((format!("counter 2^{}", k), s.sign_with(s.labels()[0], 1, 1 << k, &tbs)));
                    blobs.push((format!("counter 2^{}-1", k), s.sign_with(s.labels()[0], 1, (1u32 << k) - 1, &tbs)));
                }
                blobs.push(("largest counter".into(), s.sign_with(s.labels()[0], 1, u32::MAX, &tbs)));
            }
        }
        for b in [vec![], string(b""), string(b"ssh-ed25519"), be32(u32::MAX), vec![0; 64], vec![0xff; 512]] {
            blobs.push((format!("signature {}", hex(&b)), b));
        }
        for (what, b) in blobs {
            let bytes = cert::sealed(&tbs, &b);
            w.case(&bytes, || format!("CA {} signed by {}: {}: {}", cn, sn, what, hex(&bytes)), |w| accept(w, &bytes));
        }
    });
    // remarkable values of the fields, two at a time, under signatures that are not the CA's over these bytes
    let specials: Vec<(&str, fn(&mut Cert))> = vec![
        ("as it is", |_| ()),
        ("the subject is the CA", |c| {
            c.key = c.ca.clone();
            c.ty = keys::cert_name_of(c.key.type_name()).into();
        }),
        ("serial 0", |c| c.serial = 0),
        ("serial 1", |c| c.serial = 1),
        ("largest serial", |c| c.serial = u64::MAX),
        ("host", |c| c.cert_type = 2),
        ("no key id", |c| c.key_id = String::new()),
        ("long key id", |c| c.key_id = text(1000, 1)),
        ("no principals", |c| c.principals = vec![]),
        ("an empty principal", |c| c.principals = vec![String::new()]),
        ("principal root", |c| c.principals = vec!["root".into()]),
        ("100 principals", |c| c.principals = (0..100).map(|i| format!("p{}", i)).collect()),
        ("from 0", |c| c.valid_after = 0),
        ("for ever", |c| c.valid_before = u64::MAX),
        ("never valid", |c| (c.valid_after, c.valid_before) = (u64::MAX, 0)),
        ("until 0", |c| c.valid_before = 0),
        ("no critical options", |c| c.critical = vec![]),
        ("only an address restriction", |c| c.critical = vec![("source-address".into(), "127.0.0.1/8".into())]),
        ("verify-required", |c| c.critical = vec![("verify-required".into(), String::new())]),
        ("no extensions", |c| c.extensions = vec![]),
        ("no-touch-required", |c| c.extensions = vec![("no-touch-required".into(), String::new())]),
        ("all usual extensions", |c| c.extensions = ["X11-forwarding", "agent-forwarding", "port-forwarding", "pty", "user-rc"].iter().map(|e| (format!("permit-{}", e), String::new())).collect()),
        ("no nonce", |c| c.nonce = vec![]),
        ("a nonce of 16", |c| c.nonce = vec![7; 16]),
        ("a zero nonce", |c| c.nonce = vec![0; 32]),
        ("a nonce of 64", |c| c.nonce = fill(64, 9)),
        ("reserved", |c| c.reserved = b"x".to_vec()),
    ];
    let nsp = specials.len();
    let wrongs: Vec<Vec<(&str, Vec<u8>)>> = cas
        .iter()
        .zip(keys::signers2("ssh:"))
        .map(|((_, ca), (_, other))| {
            let good = ca.sign(b"something else");
            let label = Enc::new().str(ca.labels()[0]).0;
            let mut zero = good.clone();
            let from = label.len() + 4;
            zero[from..].fill(0);
            vec![("over other bytes", good), ("by another key", other.sign(b"x")), ("of zeros", zero), ("empty", [&label[..], &[0; 4]].concat()), ("no blob", vec![])]
        })
        .collect();
    cx.bound(format!("every pair of {} remarkable field values, for every CA kind, under {} signatures that are not the CA's and under the right one", nsp, wrongs[0].len()));
    cx.group("remarkable values", nsp * nsp * cas.len(), |w, i| {
        let (a, b, k) = (i % nsp, i / nsp % nsp, i / nsp / nsp);
        if a > b {
            return;
        }
        let ca = &cas[k].1;
        let mut c = Cert::plain(subj[(a + b) % ns].clone(), ca.public());
        (specials[b].1)(&mut c);
        (specials[a].1)(&mut c);
        let tbs = c.tbs();
        for (what, s) in &wrongs[k] {
            let bytes = cert::sealed(&tbs, s);
            w.case(&bytes, || format!("{} and {}, CA {}, signature {}", specials[a].0, specials[b].0, cas[k].0, what), |w| accept(w, &bytes));
        }
        if k == 0 || cx.thorough {
            let bytes = c.issue(ca);
            w.case(&bytes, || format!("{} and {}, CA {}, signed", specials[a].0, specials[b].0, cas[k].0), |w| accept(w, &bytes));
        }
    });
    // the certificate as issued, and under the signature of other bytes
    let both = |w: &mut W, c: &Cert, k: usize, d: &dyn Fn() -> String| {
        let bytes = c.issue(&cas[k].1);
        w.case(&bytes, || d(), |w| accept(w, &bytes));
        let bytes = cert::sealed(&c.tbs(), &wrongs[k][0].1);
        w.case(&bytes, || format!("{}, signature over other bytes", d()), |w| accept(w, &bytes));
    };
    // field values: everything correctly signed is accepted
    let vals: Vec<u64> = {
        let mut v: Vec<u64> = vec![0, u64::MAX, 1 << 40];
        for k in 0..64 {
            v.push(1 << k);
            v.push((1 << k) - 1);
        }
        v
    };
    let lens = super::c02::lens(70000);
    cx.bound(format!("correctly signed certificates over {} numbers in each of serial, validity; {} lengths of nonce, key id, principals, options; 0..=300 principals and options", vals.len(), lens.len()));
    cx.group("numbers", vals.len() * 2, |w, i| {
        let k = (i % 2) * 5;
        let (name, ca) = &cas[k];
        for f in 0..3 {
            let mut c = Cert::plain(subj[i % ns].clone(), ca.public());
            match f {
                0 => c.serial = vals[i / 2],
                1 => c.valid_after = vals[i / 2],
                _ => c.valid_before = vals[i / 2],
            }
            both(w, &c, k, &|| format!("{:?} signed by {}", c, name));
        }
    });
    cx.group("types", 600, |w, i| {
        let t = [i as u32, u32::MAX - (i as u32), 1 << (i % 32), (1 << 16) + i as u32];
        for t in t {
            let mut c = Cert::plain(subj[i % ns].clone(), cas[0].1.public());
            c.cert_type = t;
            both(w, &c, 0, &|| format!("certificate type {}", t));
        }
    });
    cx.group("lengths", lens.len() * 2, |w, i| {
        let ca = &cas[[0, 1][i % 2]].1;
        let n = lens[i / 2];
        for f in 0..8 {
            let mut c = Cert::plain(subj[i % ns].clone(), ca.public());
            match f {
                0 => c.nonce = fill(n, 1),
                1 => c.key_id = text(n, 1),
                2 => c.principals = vec![text(n, 1)],
                3 => c.critical = vec![("x".into(), text(n, 2))],
                4 => c.critical = vec![(text(n, 2), "y".into())],
                5 => c.extensions = vec![("x".into(), text(n, 2))],
                6 => c.extensions = vec![(text(n, 2), "".into())],
                _ => c.key = Pub::SkEd { pk: fill(32, 1), app: text(n, 5) },
            }
            c.ty = keys::cert_name_of(c.key.type_name()).into();
            both(w, &c, i % 2, &|| format!("field {} of length {}", f, n));
        }
    });
    cx.group("counts", 301, |w, n| {
        let ca = &cas[0].1;
        for f in 0..3 {
            let mut c = Cert::plain(subj[0].clone(), ca.public());
            let opts = || (0..n).map(|j| (format!("o{:05}", j), if j % 2 == 0 { "".to_string() } else { format!("v{}", j) })).collect::<Vec<_>>();
            match f {
                0 => c.principals = (0..n).map(|j| format!("p{}", j % 7)).collect(),
                1 => c.critical = opts(),
                _ => c.extensions = opts(),
            }
            both(w, &c, 0, &|| format!("field {} with {} entries", f, n));
        }
    });
    // text: type word, base64 word, comment
    let names: Vec<String> = keys::KEY_TYPES.iter().chain(keys::CERT_TYPES.iter()).chain(keys::SIG_ONLY.iter()).map(|s| s.to_string()).chain(["".into(), "ssh-ed25519-cert-v01@openssh.co".into(), "SSH-ED25519-CERT-V01@OPENSSH.COM".into(), "ssh-dss-cert-v01@openssh.com".into()]).collect();
    cx.bound("text form: every stated type name against every encoded type, white space and comment shapes, base64 damage at every place");
    cx.group("text", cas.len() * ns, |w, i| {
        let ca = &cas[i % cas.len()].1;
        let c = Cert::plain(subj[i / cas.len()].clone(), ca.public());
        let bytes = c.issue(ca);
        let b = base64::encode(&bytes);
        let mut texts: Vec<(String, Tri)> = vec![];
        for n in &names {
            texts.push((format!("{} {}", n, b), if *n == c.ty { Tri::Yes } else { Tri::No }));
            texts.push((format!("{} {} a-comment", n, b), if *n == c.ty { Tri::Yes } else { Tri::No }));
        }
        texts.push((format!("{} {}\n", c.ty, b), Tri::Yes));
        texts.push((format!("{} {} user@host\n", c.ty, b), Tri::Yes));
        texts.push((format!("  {}   {}\t x\r\n", c.ty, b), Tri::May));
        texts.push((b.clone(), Tri::No));
        texts.push((c.ty.clone(), Tri::No));
        texts.push((String::new(), Tri::No));
        texts.push((format!("{} {}", b, c.ty), Tri::No));
        texts.push((format!("{} {}", c.ty, &b[4..]), Tri::No));
        texts.push((format!("{} {}", c.ty, &b[..b.len() - 4]), Tri::No));
        texts.push((format!("{} {}", c.ty, b.trim_end_matches('=')), if b.ends_with('=') { Tri::May } else { Tri::Yes }));
        texts.push((format!("{} {}====", c.ty, b), Tri::May));
        // a tail in the text
        let tail = base64::encode([&bytes[..], b"tail"].concat());
        texts.push((format!("{} {}", c.ty, tail), Tri::No));
        for (t, want) in texts {
            w.case(&t, || t.clone(), |w| {
                let got = w.call("Certificate::from_string", || Certificate::from_string(&t))?;
                ensure!(want.allows(got.is_ok()), "from_string gives {:?}, expected {:?}", got.map(|c| c.key_type.name), want);
                if let Ok(g) = got {
                    ensure!(g.serialized == bytes, "from_string accepted other bytes");
                }
                Ok(if want == Tri::No { "refused" } else { "accepted" })
            });
        }
        // the base64 text, damaged
        let step = w.cx.pick(3, 1);
        for p in (0..b.len()).step_by(step) {
            for x in ['A', 'B', '/', '=', '-', '\u{e9}', '\0'] {
                let t: String = format!("{} {}", c.ty, b.chars().enumerate().map(|(k, ch)| if k == p { x } else { ch }).collect::<String>());
                w.case(&t, || format!("base64 character {} replaced by {:?}", p, x), |w| {
                    let want = match base64::decode(t.split(' ').nth(1).unwrap()) {
                        Ok(v) => cert::judge(&v).0,
                        Err(_) => Tri::May,
                    };
                    let got = w.call("Certificate::from_string", || Certificate::from_string(&t))?;
                    let undecodable = base64::decode(t.split(' ').nth(1).unwrap()).is_err();
                    ensure!(want.allows(got.is_ok()), "from_string gives {:?}, expected {:?}", got.map(|c| c.key_type.name), want);
                    if let (Ok(g), true) = (&got, undecodable) {
                        ensure!(g.serialized == bytes, "accepted other bytes");
                    }
                    Ok(if got.is_ok() { "accepted" } else { "refused" })
                });
            }
        }
    });
    cx.group("path", 4, |w, i| {
        let ca = &cas[0].1;
        let mut bytes = Cert::plain(subj[0].clone(), ca.public()).issue(ca);
        if i >= 2 {
            bytes[60] ^= 1;
        }
        let dir = std::env::temp_dir().join(format!("mc-c03-{}-{}", std::process::id(), i));
        std::fs::create_dir_all(&dir).unwrap();
        let p = dir.join("c.pub");
        let t = format!("{} {} c{}", keys::CERT_TYPES[4], base64::encode(&bytes), if i % 2 == 0 { "" } else { "\n" });
        std::fs::write(&p, &t).unwrap();
        w.case(&t, || format!("file holding {}", t), |w| {
            let g = w.call("Certificate::from_path", || Certificate::from_path(&p))?;
            ensure!(g.is_ok() == (i < 2), "from_path: {:?}", g.map(|c| c.serial));
            let g = w.call("Certificate::from_path", || Certificate::from_path(dir.join("none")))?;
            ensure!(g.is_err(), "a missing file gave a certificate");
            Ok("file")
        });
        let _ = std::fs::remove_dir_all(&dir);
    });
    cx.assume("ring's primitive signature verification is correct (the model uses it for Ed25519 and ECDSA, and big-integer arithmetic for RSA)");
}
