//! SSHSIG creation: every key kind, message, namespace, hash; output decoded by the model and by the crate again.
use super::c06::{hash_of, same_sig, NS};
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::keys::{self, Priv};
use refm::sshsig;
use refm::Tri;
use sshcerts::ssh::{SshSignature, VerifiedSshSignature};

/// Reads standard armor strictly: header, base64 lines of at most 76 columns (all but the last of the same width), footer.
fn strict_armor(t: &str) -> R<Vec<u8>> {
    let t = t.strip_suffix('\n').unwrap_or(t);
    let lines: Vec<&str> = t.split('\n').collect();
    ensure!(lines.len() >= 3, "armor has {} lines", lines.len());
    ensure_eq!(lines[0], "-----BEGIN SSH SIGNATURE-----", "header");
    ensure_eq!(*lines.last().unwrap(), "-----END SSH SIGNATURE-----", "footer");
    let body = &lines[1..lines.len() - 1];
    let width = body[0].len();
    ensure!((1..=76).contains(&width), "line width {}", width);
    for (i, l) in body.iter().enumerate() {
        ensure!(!l.is_empty() && (l.len() == width || i == body.len() - 1 && l.len() < width), "line {} has {} columns, the first {}", i, l.len(), width);
    }
    base64::decode(body.concat()).map_err(|e| Fail(format!("armor is not base64: {}", e)))
}
fn create(w: &mut W, k: &Priv, m: &[u8], ns: &str, h: Option<&str>) -> R<&'static str> {
    let p = conv::to_privkey(k);
    let v = w.call("new_with_private_key", || VerifiedSshSignature::new_with_private_key(m, ns, p, h.map(hash_of)))?;
    if ns.is_empty() {
        ensure!(v.is_err(), "an empty namespace was signed");
        return Ok("refused");
    }
    let v = v.map_err(|e| Fail(format!("creation failed: {:?}", e)))?;
    ensure!(v.message == m, "reports message {}", hex(&v.message));
    for (what, t) in [("Verified", w.call("Display", || format!("{}", v))?), ("plain", w.call("Display", || format!("{}", v.signature))?)] {
        let b = strict_armor(&t)?;
        let (tri, s) = sshsig::parse(&b);
        ensure!(tri == Tri::Yes, "{} form does not follow the layout: {}", what, hex(&b));
        let s = s.unwrap();
        ensure_eq!(s.key, k.public(), "key");
        ensure_eq!(s.namespace, ns, "namespace");
        ensure_eq!(s.hash, h.unwrap_or("sha512"), "hash");
        ensure!(b == sshsig::blob(&k.public().encode(), ns.as_bytes(), &[], s.hash.as_bytes(), &s.sig), "blob layout {}", hex(&b));
        ensure!(sshsig::verify(&s, m, ns, Some(&k.public())) == Tri::Yes, "the signature is not valid");
        let g = w.call("from_armored_string", || SshSignature::from_armored_string(&t))?.map_err(|e| Fail(format!("does not parse again: {:?}", e)))?;
        same_sig(&g, &s)?;
        same_sig(&v.signature, &s)?;
        let t2 = w.call("Display", || format!("{}", g))?;
        ensure_eq!(t2, t, "armored again");
        let pk = conv::to_pubkey(&k.public());
        let r = w.call("from_ssh_signature", || VerifiedSshSignature::from_ssh_signature(m, g, ns, Some(pk)))?;
        ensure!(r.is_ok(), "does not verify again");
    }
    Ok("created")
}
pub fn run(cx: &Cx) {
    let ks: Vec<(String, Priv)> = {
        let mut v: Vec<(String, Priv)> = keys::signers("").into_iter().take(4).map(|(n, k)| (n.to_string(), k)).collect();
        v.extend(keys::signers2("").into_iter().take(3).map(|(n, k)| (n.to_string(), k)));
        v.push(("rsa3072".into(), Priv::Rsa(keys::rsa("3072"))));
        v.push(("rsa4096".into(), Priv::Rsa(keys::rsa("4096"))));
        v
    };
    cx.assume("RSA keys have an exponent of at least 65537 and 2048 to 4096 bits (ring signs with no others)");
    let hs = [None, Some("sha256"), Some("sha512")];
    let ns: Vec<String> = NS.iter().map(|s| s.to_string()).chain(["".into()]).chain(super::c02::lens(5000).iter().map(|n| text(*n, 3))).collect();
    cx.bound(format!("{} software keys of every kind, {} namespaces (0..=5000 bytes long), 3 hash choices, messages of {} lengths up to 2^20", ks.len(), ns.len(), super::c02::lens(1 << 20).len()));
    cx.group("namespaces", ks.len() * 3 * ns.len(), |w, i| {
        let d = digits(i, &[ks.len(), 3, ns.len()]);
        if d[0] >= 4 && d[2] > 26 && !w.thorough() {
            return;
        }
        w.case(d.clone(), || format!("key {} hash {:?} namespace {:?}", ks[d[0]].0, hs[d[1]], ns[d[2]]), |w| create(w, &ks[d[0]].1, b"message", &ns[d[2]], hs[d[1]]));
    });
    let mut chars: Vec<char> = (0u32..0x250).filter_map(char::from_u32).collect();
    chars.extend("\u{300}\u{2028}\u{200b}\u{3000}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{10ffff}".chars());
    let special: Vec<char> = "\0\t\n\r \"\\,;:@*!-=/aZ0é\u{7f}\u{a0}\u{feff}".chars().collect();
    let (nc, nsp) = (chars.len(), special.len());
    cx.bound(format!("namespaces with each of {} characters alone, first, last, inside and doubled, and of all words of 2 and 3 of {} characters", nc, nsp));
    cx.group("namespace characters", nc * 5 + nsp * nsp + nsp * nsp * nsp, |w, i| {
        let t: String = if i < nc * 5 {
            let c = chars[i / 5];
            [format!("{}", c), format!("{}ab", c), format!("ab{}", c), format!("a{}b", c), format!("{}{}", c, c)][i % 5].clone()
        } else if i < nc * 5 + nsp * nsp {
            digits(i - nc * 5, &[nsp; 2]).iter().map(|x| special[*x]).collect()
        } else {
            digits(i - nc * 5 - nsp * nsp, &[nsp; 3]).iter().map(|x| special[*x]).collect()
        };
        let k = ks.iter().find(|k| matches!(k.1, Priv::Ed { .. })).unwrap();
        w.case(&t, || format!("namespace {:?}", t), |w| create(w, &k.1, b"m", &t, hs[i % 3]));
    });
    // every byte first, last and alone in the message is covered below; here line ends and spaces around it
    cx.group("message edges", 4 * 17 * 17, |w, i| {
        let ends: [&[u8]; 17] = [b"", b"\n", b"\r\n", b"\r", b" ", b"\t", b"\0", b"\n\n", b"\x1a", b"\x0b", b"\x0c", b"\xef\xbb\xbf", b"\xff", b"\x80", b"-", b"=", b"\0\0"];
        let d = digits(i, &[4, 17, 17]);
        let m = [ends[d[1]], &b"text"[..(d[0] % 2) * 4], ends[d[2]]].concat();
        w.case(i, || format!("message {}", hex(&m)), |w| create(w, &ks[d[0]].1, &m, "file", hs[i % 3]));
    });
    let lens = super::c02::lens(1 << 20);
    cx.group("messages", ks.len() * 3 * lens.len(), |w, i| {
        let d = digits(i, &[ks.len(), 3, lens.len()]);
        if d[0] >= 4 && lens[d[2]] > 300 && !w.thorough() {
            return;
        }
        w.case(d.clone(), || format!("key {} hash {:?} message of {} bytes", ks[d[0]].0, hs[d[1]], lens[d[2]]), |w| create(w, &ks[d[0]].1, &fill(lens[d[2]], d[0] as u8), "file", hs[d[1]]));
    });
    // all one- and two-byte messages' first bytes
    cx.group("short-messages", 4 * 257, |w, i| {
        let m: Vec<u8> = if i / 4 == 256 { vec![0, 0] } else { vec![(i / 4) as u8] };
        w.case((i % 4, &m), || format!("message {}", hex(&m)), |w| create(w, &ks[i % 4].1, &m, "git", hs[i % 3]));
    });
    // many random streams: ECDSA signatures of every shape the first 2^k streams give
    let n = cx.pick(4000, 40000);
    cx.bound(format!("{} distinct random streams for P-256 and P-384 signing", n));
    cx.group("streams", n, |w, i| {
        let k = &ks[1 + i % 2].1;
        w.case(i, || format!("random stream {}", i), |w| create(w, k, &(i as u32).to_be_bytes(), "git", hs[i % 3]));
    });
    // a random source that fails
    cx.group("no-randomness", 4 * 8, |w, i| {
        let k = &ks[i % 4].1;
        w.case(i, || format!("key {}, random request {} fails", ks[i % 4].0, i / 4), |w| {
            let p = conv::to_privkey(k);
            crate::interpose::rng(|r| {
                r.requests = 0;
                r.fail_at = Some(i / 4);
            });
            let v = w.call("new_with_private_key", || VerifiedSshSignature::new_with_private_key(b"m", "git", p, None));
            crate::interpose::rng(|r| r.fail_at = None);
            if let Ok(v) = v? {
                let b = strict_armor(&format!("{}", v))?;
                let s = sshsig::parse(&b).1.ok_or("layout")?;
                ensure!(sshsig::verify(&s, b"m", "git", Some(&k.public())) == Tri::Yes, "the signature is not valid");
                return Ok("created");
            }
            Ok("refused")
        });
    });
    // armor shapes of signatures of any size
    let lens = super::c02::lens(3000);
    cx.group("armor", lens.len() * 12, |w, i| {
        let n = lens[i / 12];
        let key = keys::subjects("ssh:")[i % 7].clone();
        let s = refm::sshsig::Sig { key, namespace: text(1 + i % 12, 1), hash: ["sha256", "sha512"][i % 2].into(), sig: fill(n, 3) };
        w.case(i, || format!("armoring a signature of {} bytes", n), |w| {
            let g = super::c06::to_sig(&s);
            let t = w.call("Display", || format!("{}", g))?;
            let b = strict_armor(&t)?;
            ensure!(b == sshsig::blob(&s.key.encode(), s.namespace.as_bytes(), &[], s.hash.as_bytes(), &s.sig), "blob {}", hex(&b));
            let g = w.call("from_armored_string", || SshSignature::from_armored_string(&t))?.map_err(|e| Fail(format!("does not parse again: {:?}", e)))?;
            same_sig(&g, &s)?;
            Ok("same")
        });
    });
}
