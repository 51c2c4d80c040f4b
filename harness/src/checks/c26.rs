//! The readable reports of certificates and keys, line by line against the contents they stand for.
use super::c03::cas;
use super::c04::STRINGS;
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::cert::Cert;
use refm::keys::{self, Priv, Pub};
use sshcerts::ssh::{CertType, Certificate};
use std::collections::HashMap;
use std::convert::TryFrom;

fn short(k: &Pub) -> &'static str {
    match k {
        Pub::Rsa { .. } => "RSA",
        Pub::Ec { .. } => "ECDSA",
        Pub::Ed { .. } => "ED25519",
        Pub::SkEc { .. } => "ECDSA-SK",
        Pub::SkEd { .. } => "ED25519-SK",
    }
}
fn print_of(k: &Pub) -> String {
    format!("SHA256:{}", base64::encode_config(refm::sha256(&k.encode()), base64::STANDARD_NO_PAD))
}
/// The lines, with those of options in lexical order.
fn expected(c: &Cert) -> Vec<String> {
    let mut v = vec![
        format!("Type: {} {} certificate", c.ty, if c.cert_type == 1 { "user" } else { "host" }),
        format!("Public Key: {}-CERT {}", short(&c.key), print_of(&c.key)),
        format!("Signing CA: {} {} (using {})", short(&c.ca), print_of(&c.ca), c.ca.type_name()),
        format!("Key ID: \"{}\"", c.key_id),
        format!("Serial: {}", c.serial),
    ];
    v.push(if c.valid_after == 0 && c.valid_before == u64::MAX { "Valid: forever".into() } else { format!("Valid between: {} and {}", c.valid_after, c.valid_before) });
    if c.principals.is_empty() {
        v.push("Principals: (none)".into());
    } else {
        v.push("Principals".into());
        v.extend(c.principals.iter().map(|p| format!("\t{}", p)));
    }
    let mut block = |title: &str, o: Vec<String>| {
        if o.is_empty() {
            v.push(format!("{}: (none)", title));
        } else {
            v.push(format!("{}:", title));
            v.extend(o);
        }
    };
    let sorted = |mut o: Vec<String>| {
        o.sort();
        o
    };
    block("Critical Options", sorted(c.critical.iter().map(|(a, b)| format!("\t{} {}", a, b)).collect()));
    block("Extensions", sorted(c.extensions.iter().map(|(a, _)| format!("\t{}", a)).collect()));
    v
}
/// Puts the lines of options, whose order is free, in lexical order.
fn ordered(text: &str) -> Vec<String> {
    let mut v: Vec<String> = text.strip_suffix('\n').unwrap_or(text).split('\n').map(String::from).collect();
    for t in ["Critical Options:", "Extensions:"] {
        // the last such line: earlier ones may be principals that look alike, which begin with a tab
        if let Some(i) = v.iter().rposition(|l| l == t) {
            let n = v[i + 1..].iter().take_while(|l| l.starts_with('\t')).count();
            v[i + 1..i + 1 + n].sort();
        }
    }
    v
}
fn compare(w: &mut W, g: &Certificate, c: &Cert) -> R<&'static str> {
    let text = w.call("alternate Display", || format!("{:#}", g))?;
    let (got, want) = (ordered(&text), expected(c));
    for i in 0..got.len().max(want.len()) {
        let (a, b) = (got.get(i).map(|x| x.trim_end()), want.get(i).map(|x| x.trim_end()));
        ensure!(a == b, "line {} is {:?}, expected {:?} in\n{}", i + 1, a, b, text);
    }
    Ok("exact")
}
fn judge(w: &mut W, c: &Cert, ca: &Priv) -> R<&'static str> {
    let b = c.issue(ca);
    let g = w.call("Certificate::from_bytes", || Certificate::from_bytes(&b))?.map_err(|e| Fail(format!("refused: {:?}", e)))?;
    compare(w, &g, c)
}

pub fn run(cx: &Cx) {
    cx.assume("text with line breaks in it is not judged; the order of option lines is free");
    let ed = &Priv::Ed { seed: keys::seed(4) };
    let strings: &Vec<&str> = &STRINGS.iter().copied().filter(|s| !s.contains('\n')).collect();
    let subjects = &keys::subjects("ssh:");
    let all = &cas();
    cx.bound("every subject type by every kind of CA by user and host");
    cx.group("kinds", subjects.len() * all.len() * 2, |w, i| {
        let d = digits(i, &[subjects.len(), all.len(), 2]);
        let ca = &all[d[1]].1;
        let mut c = Cert::plain(subjects[d[0]].clone(), ca.public());
        c.cert_type = 1 + d[2] as u32;
        w.case(i, || format!("{:?}", c), |w| judge(w, &c, ca));
    });
    let mut nums: Vec<u64> = (0..64).flat_map(|k| [1u64 << k, (1u64 << k) - 1, u64::MAX - (1u64 << k) + 1]).chain([u64::MAX, u64::MAX - 2, 9, 10, 99, 100, 10_000_000_000_000_000_000]).collect();
    nums.sort();
    nums.dedup();
    let nums = &nums;
    cx.bound(format!("{} serial numbers, all pairs of {} validity bounds", nums.len(), nums.len()));
    let plain = &Cert::plain(subjects[0].clone(), ed.public());
    // the signature costs more than the report: the fields of a parsed certificate are set instead
    let good = plain.issue(ed);
    cx.group("numbers", nums.len() * nums.len() + nums.len(), |w, i| {
        let mut c = plain.clone();
        if i < nums.len() {
            c.serial = nums[i];
        } else {
            c.valid_after = nums[(i - nums.len()) / nums.len()];
            c.valid_before = nums[i % nums.len()];
        }
        w.case(i, || format!("serial {} valid {} to {}", c.serial, c.valid_after, c.valid_before), |w| {
            if i < 2000 {
                return judge(w, &c, ed);
            }
            let mut g = w.call("Certificate::from_bytes", || Certificate::from_bytes(&good))?.map_err(|e| Fail(format!("refused: {:?}", e)))?;
            g.valid_after = c.valid_after;
            g.valid_before = c.valid_before;
            compare(w, &g, &c)
        });
    });
    let depth = 3;
    let n = strings.len();
    cx.bound(format!("every list of at most {} principals out of {} texts; every key id of them; 0..=300 principals", depth, n));
    cx.group("principals", words(n, depth), |w, i| {
        let mut c = plain.clone();
        c.principals = word(i, n, depth).into_iter().map(|x| strings[x].to_string()).collect();
        w.case(i, || format!("principals {:?}", c.principals), |w| judge(w, &c, ed));
    });
    cx.group("key ids", n * n, |w, i| {
        let mut c = plain.clone();
        c.key_id = format!("{}{}", strings[i % n], strings[i / n]);
        w.case(i, || format!("key id {:?}", c.key_id), |w| judge(w, &c, ed));
    });
    cx.group("many", 301 * 3, |w, i| {
        let mut c = plain.clone();
        let k = i / 3;
        match i % 3 {
            0 => c.principals = (0..k).map(|j| format!("p{}", j)).collect(),
            1 => c.critical = (0..k).map(|j| (format!("o{:03}", j), text(j, 3))).collect(),
            _ => c.extensions = (0..k).map(|j| (format!("e{:03}", j), "".into())).collect(),
        }
        w.case(i, || format!("{} entries", k), |w| judge(w, &c, ed));
    });
    let names = ["force-command", "source-address", "verify-required", "permit-pty", "x", "a b", "(none)", "Extensions:", ""];
    let vals = ["", "v", "a b", "/bin/sh -c x", "é"];
    let subsets = 1usize << names.len();
    cx.bound("every subset of 9 option names as critical options and as extensions, five values");
    cx.group("options", subsets * 2 * vals.len(), |w, i| {
        let d = digits(i, &[subsets, 2, vals.len()]);
        let mut c = plain.clone();
        let mut o: Vec<(String, String)> = (0..names.len()).filter(|j| d[0] >> j & 1 == 1).map(|j| (names[j].to_string(), vals[(d[2] + j) % vals.len()].to_string())).collect();
        o.sort();
        if d[1] == 0 {
            c.critical = o;
        } else {
            c.extensions = o;
        }
        w.case(i, || format!("critical {:?} extensions {:?}", c.critical, c.extensions), |w| judge(w, &c, ed));
    });
    // a certificate being built prints its settings too
    cx.bound("builders before and after signing");
    cx.group("builders", subjects.len() * 16, |w, i| {
        let d = digits(i, &[subjects.len(), 2, 2, 2, 2]);
        w.case(i, || format!("builder {:?}", d), |w| {
            let (k, ca) = (conv::to_pubkey(&subjects[d[0]]), conv::to_pubkey(&ed.public()));
            let b = w.call("builder", || Certificate::builder(&k, if d[1] == 0 { CertType::User } else { CertType::Host }, &ca))?.map_err(|e| Fail(format!("no builder: {:?}", e)))?;
            let mut c = Cert::plain(subjects[d[0]].clone(), ed.public());
            c.cert_type = 1 + d[1] as u32;
            c.serial = 77;
            c.key_id = "me".into();
            c.principals = if d[2] == 0 { vec![] } else { vec!["p".into(), "p".into()] };
            c.critical = if d[3] == 0 { vec![] } else { vec![("force-command".into(), "x".into())] };
            c.extensions = if d[4] == 0 { vec![] } else { vec![("permit-pty".into(), "".into())] };
            c.valid_after = 0;
            c.valid_before = u64::MAX;
            let map = |o: &[(String, String)]| o.iter().cloned().collect::<HashMap<_, _>>();
            let b = w.call("settings", || b.serial(77).key_id("me").set_principals(&c.principals).set_critical_options(map(&c.critical)).set_extensions(map(&c.extensions)).valid_after(0).valid_before(u64::MAX))?;
            compare(w, &b, &c)?;
            let s = w.call("sign", || b.sign(&super::c05::RefSigner(ed, Default::default())))?.map_err(|e| Fail(format!("cannot be signed: {:?}", e)))?;
            compare(w, &s, &c)
        });
    });
    let pool = &super::c10::pool();
    let comments = ["", "me@home", "two words", "é", " "];
    cx.bound(format!("{} private keys by 5 comments: the fingerprint and the comment, nothing else", pool.len()));
    cx.group("private keys", pool.len() * comments.len(), |w, i| {
        let (name, k) = &pool[i % pool.len()];
        let cm = comments[i / pool.len()];
        w.case((name, cm), || format!("{} {:?}", name, cm), |w| {
            let g = conv::to_privkey_with(k, &super::c10::sk0(), 1, cm);
            for text in [w.call("Display", || format!("{}", g))?, w.call("alternate Display", || format!("{:#}", g))?] {
                let want = format!("{} {}", print_of(&k.public()), cm);
                ensure_eq!(text.trim_end(), want.trim_end(), "printed private key");
            }
            Ok("exact")
        });
    });
    let words_ = ["user", "User", "host", "Host", "", "USER", "HOST", "user ", " host", "users", "hos", "1", "2", "user certificate", "uSer", "usër"];
    cx.bound("names of certificate types");
    cx.group("certificate types", words_.len(), |w, i| {
        w.case(i, || words_[i].into(), |w| {
            let g = w.call("CertType::try_from", || CertType::try_from(words_[i]))?;
            let want = match words_[i] {
                "user" | "User" => Some(CertType::User),
                "host" | "Host" => Some(CertType::Host),
                _ => None,
            };
            // other letter cases may be understood or not, but not as the other type
            match (&g, &want) {
                (Ok(a), Some(b)) => ensure!(a == b, "read as {}", a),
                (Ok(a), None) => ensure!(words_[i].eq_ignore_ascii_case(if *a == CertType::User { "user" } else { "host" }), "read as {}", a),
                (Err(_), Some(_)) => return Err(Fail("refused".into())),
                _ => {}
            }
            Ok("exact")
        });
    });
}
