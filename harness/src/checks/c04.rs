//! Accepted certificates: every reported field compared with the model's decoding of the same bytes.
use super::c03::{cas, edits, shapes};
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::cert::{self, Cert};
use refm::keys::{self, Pub};
use refm::wire::{be32, string, Enc};
use refm::Tri;
use sshcerts::Certificate;

pub fn compare(g: &Certificate, c: &Cert, sig: &[u8], bytes: &[u8]) -> R {
    let got = match conv::cert(g) {
        Some(x) => x,
        None => return Err(Fail(format!("the reported certificate contradicts itself: {:?}", g))),
    };
    ensure_eq!(got.ty, c.ty, "type");
    ensure!(g.key_type.is_cert, "type {} is not a certificate type", g.key_type.name);
    ensure_eq!(got.nonce, c.nonce, "nonce");
    ensure_eq!(got.key, c.key, "public key");
    ensure_eq!(got.serial, c.serial, "serial");
    ensure_eq!(got.cert_type, c.cert_type, "user/host type");
    ensure_eq!(got.key_id, c.key_id, "key id");
    ensure_eq!(got.principals, c.principals, "principals");
    ensure_eq!(got.valid_after, c.valid_after, "valid after");
    ensure_eq!(got.valid_before, c.valid_before, "valid before");
    ensure_eq!(got.critical, c.critical, "critical options");
    ensure_eq!(got.extensions, c.extensions, "extensions");
    ensure_eq!(got.reserved, c.reserved, "reserved");
    ensure_eq!(got.ca, c.ca, "CA key");
    ensure!(g.signature == sig, "signature: {}", hex(&g.signature));
    ensure!(g.serialized == bytes, "serialized: {}", hex(&g.serialized));
    Ok(())
}
/// Parses and, when accepted, compares every field. What must be refused must be refused.
pub fn report(w: &mut W, bytes: &[u8]) -> R<&'static str> {
    let (t, c, sig, why) = cert::judge(bytes);
    let got = w.call("Certificate::from_bytes", || Certificate::from_bytes(bytes))?;
    match (got, t) {
        (Ok(g), Tri::Yes | Tri::May) => {
            let c = c.unwrap();
            compare(&g, &c, &sig, bytes)?;
            let line = w.call("Display", || format!("{}", g))?;
            let mut words = line.splitn(3, ' ');
            ensure_eq!(words.next().unwrap_or(""), c.ty, "printed type");
            ensure_eq!(words.next().unwrap_or(""), base64::encode(bytes), "printed blob");
            ensure_eq!(words.next().unwrap_or(""), c.key_id, "printed key id");
            Ok("reported")
        }
        (Ok(_), Tri::No) => Err(Fail(format!("accepted a certificate whose {} is malformed", why))),
        (Err(e), Tri::Yes) => Err(Fail(format!("refused a well-formed certificate: {:?}", e))),
        (Err(_), _) => Ok("refused"),
    }
}
pub const STRINGS: [&str; 26] = [
    "", " ", "a", "b", "A", "root", "root ", " root", "a,b", "*", "!", "é", "\u{10ffff}", "x\0y", "\0", "\n", "force-command", "source-address", "verify-required",
    "permit-pty", "permit-X11-forwarding", "no-touch-required", "login@github.com", "=", "\"q\"", "a\tb",
];

pub fn run(cx: &Cx) {
    let cas = cas();
    let subj = keys::subjects("ssh:é");
    let ns = subj.len();
    let issue = |c: &Cert, k: usize| -> Vec<u8> {
        let mut c = c.clone();
        c.ca = cas[k].1.public();
        c.issue(&cas[k].1)
    };
    let plain = |s: usize| Cert::plain(subj[s].clone(), cas[0].1.public());
    cx.group("kinds", cas.len() * ns * 3, |w, i| {
        let d = digits(i, &[cas.len(), ns, 3]);
        let c = shapes(subj[d[1]].clone(), cas[d[0]].1.public())[d[2]].clone();
        let b = issue(&c, d[0]);
        w.case(&b, || format!("{:?}", c), |w| report(w, &b));
        let t = format!("{} {} {}", c.ty, base64::encode(&b), "who@where");
        w.case(&t, || t.clone(), |w| {
            let g = w.call("from_string", || Certificate::from_string(&t))?.map_err(|e| Fail(format!("{:?}", e)))?;
            ensure_eq!(g.comment.as_deref(), Some("who@where"), "comment");
            let (_, c, sig, _) = cert::judge(&b);
            compare(&g, &c.unwrap(), &sig, &b)?;
            Ok("reported")
        });
        let t = format!("{} {}", c.ty, base64::encode(&b));
        w.case(&t, || t.clone(), |w| {
            let g = w.call("from_string", || Certificate::from_string(&t))?.map_err(|e| Fail(format!("{:?}", e)))?;
            ensure_eq!(g.comment, None, "comment");
            Ok("reported")
        });
    });
    // every edit of the signed bytes, signed again
    cx.bound("every single-byte edit (substitution by all 255 other values or bit flips, deletion, insertion, truncation, exchange) of the signed part of certificates of all 7 subject types, correctly signed again");
    cx.group("edited-and-signed", ns * 3, |w, i| {
        let ca = &cas[0].1;
        let c = shapes(subj[i % ns].clone(), ca.public())[i / ns].clone();
        let tbs = c.tbs();
        edits(&tbs, if w.thorough() || i < 2 { 2 } else { 1 }, |what, v| {
            let b = cert::sealed(&v, &ca.sign(&v));
            w.case(&b, || format!("{} with {}, signed again: {}", c.ty, what, hex(&b)), |w| report(w, &b));
        });
    });
    // two length fields changed together, signed again
    cx.group("lengths-signed", ns, |w, s| {
        let ca = &cas[0].1;
        let mut c = plain(s);
        c.nonce = vec![1, 2];
        let f = c.fields();
        // positions of all bytes that belong to a length
        let mut pos = vec![];
        let mut o = 0;
        for (n, b) in &f {
            if !["serial", "cert_type", "valid_after", "valid_before"].contains(n) {
                pos.push(o + 3);
            }
            if ["principals", "critical", "extensions", "ca"].contains(n) && b.len() > 8 {
                let mut d = 4;
                while d + 4 <= b.len() {
                    pos.push(o + d + 3);
                    d += 4 + u32::from_be_bytes(b[d..d + 4].try_into().unwrap()) as usize;
                }
            }
            o += b.len();
        }
        let tbs = c.tbs();
        for (ai, a) in pos.iter().enumerate() {
            for b in &pos[ai + 1..] {
                for (x, y) in [(1i16, -1i16), (-1, 1), (4, -4), (-4, 4), (1, 1), (-1, -1), (8, -8), (2, -2)] {
                    let mut v = tbs.clone();
                    v[*a] = (v[*a] as i16 + x) as u8;
                    v[*b] = (v[*b] as i16 + y) as u8;
                    let bytes = cert::sealed(&v, &ca.sign(&v));
                    w.case(&bytes, || format!("lengths at {} and {} changed by {} and {}: {}", a, b, x, y, hex(&bytes)), |w| report(w, &bytes));
                }
            }
        }
    });
    // principals: every sequence over the alphabet
    let k = STRINGS.len();
    let depth = 3;
    cx.bound(format!("every sequence of at most {} principals out of {} strings; option lists of at most {} entries (repetitions and any order included) over 10 names and 5 values; key ids over the strings", depth, k, 3));
    cx.group("principals", words(k, depth), |w, i| {
        let mut c = plain(i % ns);
        c.principals = word(i, k, depth).iter().map(|x| STRINGS[*x].to_string()).collect();
        let b = issue(&c, 0);
        w.case(&b, || format!("principals {:?}", c.principals), |w| report(w, &b));
    });
    cx.group("key-ids", k * k, |w, i| {
        let mut c = plain(i % ns);
        c.key_id = format!("{}{}", STRINGS[i % k], STRINGS[i / k]);
        let b = issue(&c, 0);
        w.case(&b, || format!("key id {:?}", c.key_id), |w| report(w, &b));
    });
    let onames = ["a", "b", "", "force-command", "Force-Command", "source-address", "verify-required", "permit-pty", "é", "a "];
    let ovals: [Option<&str>; 5] = [None, Some(""), Some("x"), Some("/bin/sh -c \"a b\""), Some("é")];
    let oalpha = onames.len() * ovals.len();
    let od = 3;
    cx.group("options", words(oalpha, od) * 2, |w, i| {
        let mut e = Enc::new();
        for x in word(i / 2, oalpha, od) {
            e = e.str(onames[x % 10]);
            e = match ovals[x / 10] {
                None => e.u32(0),
                Some(v) => e.bytes(&string(v.as_bytes())),
            };
        }
        let c = plain(i % ns);
        let mut f = c.fields();
        f[9 + i % 2].1 = string(&e.0);
        let tbs: Vec<u8> = f.into_iter().flat_map(|x| x.1).collect();
        let b = cert::sealed(&tbs, &cas[0].1.sign(&tbs));
        w.case(&b, || format!("{} block {}", ["critical", "extension"][i % 2], hex(&e.0)), |w| report(w, &b));
    });
    // blocks built of length words and letters
    let toks: Vec<Vec<u8>> = vec![be32(0), be32(1), be32(2), be32(5), be32(8), be32(255), be32(u32::MAX), vec![b'a'], vec![b'b'], vec![0xff], vec![0], string(b"a"), string(b"b"), string(&string(b"v")), string(&[0, 0, 0, 2, b'v'])];
    let bd = cx.pick(4, 5);
    cx.bound(format!("principal and option blocks made of every sequence of at most {} out of {} raw tokens (lengths, letters, whole strings)", bd, toks.len()));
    cx.group("raw-blocks", words(toks.len(), bd) * 3, |w, i| {
        let block: Vec<u8> = word(i / 3, toks.len(), bd).iter().flat_map(|x| toks[*x].clone()).collect();
        let c = plain(0);
        let mut f = c.fields();
        let which = [6, 9, 10][i % 3];
        f[which].1 = string(&block);
        let tbs: Vec<u8> = f.into_iter().flat_map(|x| x.1).collect();
        let b = cert::sealed(&tbs, &cas[0].1.sign(&tbs));
        w.case(&b, || format!("field {} is {}", which, hex(&block)), |w| report(w, &b));
    });
    // values that are not one string, under every name
    let names: Vec<&str> = STRINGS.iter().cloned().chain(["a@b", "x@example.com", "permit-agent-forwarding", "permit-port-forwarding", "permit-user-rc"]).collect();
    let raws: Vec<Vec<u8>> = vec![
        b"x".to_vec(), b"ab".to_vec(), b"abc".to_vec(), b"text".to_vec(), b"some text".to_vec(), vec![0], vec![0; 3], vec![0; 4], vec![0; 5], vec![0; 8], vec![0, 0, 0, 1], vec![0, 0, 0, 2, b'v'], vec![0, 0, 0, 1, 0xff],
        [string(b"v"), b"z".to_vec()].concat(), [string(b"v"), string(b"z")].concat(), string(&string(b"v")), string(b"v"), string(b""), string(&[b'v'; 300]), [vec![0xff; 4], b"v".to_vec()].concat(),
    ];
    cx.bound(format!("option values of {} raw forms (no string, cut, with more behind it) under each of {} names, alone, before and after another option", raws.len(), names.len()));
    cx.group("raw-values", names.len() * raws.len() * 6, |w, i| {
        let d = digits(i, &[names.len(), raws.len(), 3, 2]);
        let mut e = Enc::new();
        if d[2] == 1 {
            e = e.str("\u{1}first").bytes(&string(b"v"));
        }
        e = e.str(names[d[0]]).bytes(&raws[d[1]]);
        if d[2] == 2 {
            e = e.str("zz@last").u32(0);
        }
        let c = plain(i % ns);
        let mut f = c.fields();
        f[9 + d[3]].1 = string(&e.0);
        let tbs: Vec<u8> = f.into_iter().flat_map(|x| x.1).collect();
        let b = cert::sealed(&tbs, &cas[0].1.sign(&tbs));
        w.case(&b, || format!("{} block {}", ["critical", "extension"][d[3]], hex(&e.0)), |w| report(w, &b));
    });
    // numbers and lengths and counts
    let mut vals: Vec<u64> = vec![0x0102030405060708];
    for k in 0..64u32 {
        vals.extend([1u64 << k, (1u64 << k) - 1, !(1u64 << k), (1u64 << k) | 1]);
    }
    cx.group("numbers", vals.len(), |w, i| {
        for f in 0..3 {
            for ct in 1..=2 {
                let mut c = plain(i % ns);
                c.cert_type = ct;
                match f {
                    0 => c.serial = vals[i],
                    1 => c.valid_after = vals[i],
                    _ => c.valid_before = vals[i],
                }
                let b = issue(&c, 0);
                w.case(&b, || format!("{:?}", c), |w| report(w, &b));
            }
        }
        // inverted and equal bounds
        let mut c = plain(0);
        c.valid_after = vals[i];
        c.valid_before = vals[(i * 7) % vals.len()];
        let b = issue(&c, 0);
        w.case(&b, || format!("{:?}", c), |w| report(w, &b));
    });
    let lens = super::c02::lens(cx.pick(70000, 1 << 20));
    cx.bound(format!("{} lengths of every variable field up to {}, 0..=300 principals and options", lens.len(), lens.last().unwrap()));
    cx.group("lengths", lens.len(), |w, i| {
        let n = lens[i];
        for f in 0..11 {
            let mut c = plain(i % ns);
            let mut k = 0;
            match f {
                0 => c.nonce = fill(n, 1),
                1 => c.key_id = text(n, 1),
                2 => c.principals = vec!["p".into(), text(n, 1), "q".into()],
                3 => c.critical = vec![("a".into(), "".into()), ("x".into(), text(n, 2)), ("y".into(), "z".into())],
                4 => c.critical = vec![(text(n, 2), "y".into())],
                5 => c.extensions = vec![("x".into(), text(n, 2))],
                6 => c.extensions = vec![(text(n, 2), "".into())],
                7 => c.key = Pub::SkEd { pk: fill(32, 1), app: text(n, 5) },
                8 => c.key = Pub::SkEc { pt: subj[5].data()[16..81].to_vec(), app: text(n, 5) },
                9 => {
                    let mut m = fill(n, 3);
                    if n > 0 {
                        m[0] = 0x80 | m[0];
                    }
                    c.key = Pub::Rsa { e: vec![1, 0, 1], n: m }
                }
                _ => {
                    k = 4;
                    c.reserved = fill(n, 7);
                }
            }
            c.ty = keys::cert_name_of(c.key.type_name()).into();
            let b = issue(&c, k);
            w.case(&b, || format!("field {} of length {}", f, n), |w| report(w, &b));
        }
    });
    cx.group("counts", 301, |w, n| {
        for f in 0..5 {
            let mut c = plain(n % ns);
            let opts = |flag: bool| (0..n).map(|j| (format!("o{:05}", j), if flag || j % 2 == 0 { "".to_string() } else { format!("v{}", j) })).collect::<Vec<_>>();
            match f {
                0 => c.principals = (0..n).map(|j| format!("p{}", j % 7)).collect(),
                1 => c.principals = (0..n).map(|j| format!("p{}", n - j)).collect(),
                2 => c.critical = opts(false),
                3 => c.extensions = opts(true),
                _ => {
                    c.critical = opts(true);
                    c.extensions = opts(false)
                }
            }
            let b = issue(&c, 0);
            w.case(&b, || format!("field {} with {} entries", f, n), |w| report(w, &b));
        }
    });
    // malformed subject and CA keys inside a correctly signed certificate
    cx.group("malformed-keys", 7 * 7, |w, i| {
        let ca = &cas[0].1;
        let (a, bb) = (i % 7, i / 7);
        // subject data of one type under the name of another
        let mut c = plain(a);
        c.ty = keys::CERT_TYPES[bb].into();
        let b = {
            let t = c.tbs();
            cert::sealed(&t, &ca.sign(&t))
        };
        w.case(&b, || format!("{} holding the key of a {}", c.ty, subj[a].type_name()), |w| report(w, &b));
        // CA blobs
        let good = ca.public();
        let c = plain(a);
        let mut blobs = vec![
            vec![],
            string(b""),
            string(keys::KEY_TYPES[bb].as_bytes()),
            [string(keys::KEY_TYPES[bb].as_bytes()), good.data()].concat(),
            [string(keys::CERT_TYPES[bb].as_bytes()), good.data()].concat(),
            [string(keys::SIG_ONLY[bb % 2].as_bytes()), good.data()].concat(),
            [good.encode(), vec![0]].concat(),
            [good.encode(), string(b"x")].concat(),
            subj[bb].encode(),
        ];
        for k in 0..good.encode().len() {
            blobs.push(good.encode()[..k].to_vec());
        }
        for blob in blobs {
            let mut f = c.fields();
            f[12].1 = string(&blob);
            let t: Vec<u8> = f.into_iter().flat_map(|x| x.1).collect();
            let b = cert::sealed(&t, &ca.sign(&t));
            w.case(&b, || format!("CA field {}", hex(&blob)), |w| report(w, &b));
        }
    });
    cx.assume("a certificate with a non-empty reserved field, options out of lexical order or key components of impossible size may be accepted or refused; when accepted its fields are compared");
}
