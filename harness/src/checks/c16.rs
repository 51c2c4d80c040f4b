//! Printed allowed_signers entries parse back to the same entry.
use super::c14::{entry, Keys};
use super::*;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::allowed::Entry;
use sshcerts::ssh::{AllowedSigner, AllowedSigners};

/// Parses a line; if it is an entry, prints and parses again.
fn judge(w: &mut W, s: &str) -> R<&'static str> {
    let g = match w.call("AllowedSigner::from_string", || AllowedSigner::from_string(s))? {
        Ok(g) => g,
        Err(_) => return Ok("not an entry"),
    };
    back(w, &g)
}
fn back(w: &mut W, g: &AllowedSigner) -> R<&'static str> {
    let t = w.call("Display", || format!("{}", g))?;
    ensure!(!t.contains('\n') && !t.contains('\r'), "printed on several lines: {:?}", t);
    let h = w.call("AllowedSigner::from_string", || AllowedSigner::from_string(&t))?;
    let h = h.map_err(|e| Fail(format!("printed as {:?}, which does not parse: {:?}", t, e)))?;
    ensure_eq!(entry(&h), entry(g), "printed as {:?}, which parses to", t);
    ensure!(h == *g, "printed as {:?}, which parses to an unequal entry {:?}", t, h);
    let t2 = w.call("Display", || format!("{}", h))?;
    ensure_eq!(t2, t, "printed again");
    // a file line is trimmed, which entries that start with other white space than a space do not survive
    if t.trim() == t {
        let f = w.call("AllowedSigners::from_string", || AllowedSigners::from_string(&format!("# c\n{}\n\n", t)))?;
        let f = f.map_err(|e| Fail(format!("printed as {:?}, which does not parse in a file: {:?}", t, e)))?;
        ensure!(f.0.len() == 1 && f.0[0] == *g, "printed as {:?}, which in a file gives {:?}", t, f);
    }
    Ok("same entry")
}
fn line(e: &Entry, keytext: &str) -> String {
    use super::c15::fmt;
    let mut s = format!("\"{}\"", e.principals.join(","));
    if e.ca {
        s += " cert-authority";
    }
    if let Some(n) = &e.namespaces {
        s += &format!(" namespaces=\"{}\"", n.join(","));
    }
    if let Some(t) = e.after {
        s += &format!(" valid-after={}Z", fmt(t, 14));
    }
    if let Some(t) = e.before {
        s += &format!(" valid-before={}Z", fmt(t, 14));
    }
    format!("{} {}", s, keytext)
}
/// An entry given by its values; it must parse, print and parse.
fn entry_case(w: &mut W, e: &Entry, keytext: &str) {
    let s = line(e, keytext);
    w.case(&s, || format!("{:?}", s), |w| {
        let r = judge(w, &s)?;
        Ok(r)
    });
}

pub fn run(cx: &Cx) {
    super::c14::utc();
    cx.assume("entries obtained from one line of text (no line breaks), with instants in the years 0000 to 9999 UTC");
    let ks = &Keys::new();
    let ktd = &ks.text(ks.ed());
    let atoms = [
        "a", "*@x.org", "!b", "user@domain.tld", "\u{e9}\u{4e2d}", "ssh-ed25519", "cert-authority", "namespaces=n", "a=b", "\\", "'", "x y", " ", "  ", " a", "a ", "#", "a#b", "#a", "a #", "", "a\tb", "-", "20240101", "A", "\u{a0}", "valid-before=20240101Z",
        "= ", "=#", "x  y",
    ];
    let n = atoms.len();
    cx.bound(format!("all lists of up to three principals and up to two namespaces out of {} texts", n));
    cx.group("principals", words(n, 3) * 2, |w, i| {
        let p: Vec<String> = word(i / 2, n, 3).into_iter().map(|x| atoms[x].to_string()).collect();
        let e = Entry { principals: p, ca: i % 2 == 1, namespaces: None, after: None, before: None, key: ks.0[0].2.clone() };
        entry_case(w, &e, ktd);
    });
    cx.group("namespaces", words(n, 3) * 2, |w, i| {
        let p: Vec<String> = word(i / 2, n, 3).into_iter().map(|x| atoms[x].to_string()).collect();
        let e = Entry { principals: vec!["p".into()], ca: i % 2 == 1, namespaces: Some(p), after: None, before: None, key: ks.0[0].2.clone() };
        entry_case(w, &e, ktd);
    });
    cx.group("principals-namespaces", n * n * n * n, |w, i| {
        let d = digits(i, &[n, n, n, n]);
        let e = Entry { principals: vec![atoms[d[0]].into(), atoms[d[1]].into()], ca: i % 3 == 1, namespaces: Some(vec![atoms[d[2]].into(), atoms[d[3]].into()]), after: (i % 5 == 0).then_some(0), before: None, key: ks.0[0].2.clone() };
        entry_case(w, &e, ktd);
    });
    // all combinations of the fields
    let ps = [vec!["a"], vec!["a b", "c"], vec!["a", "#"]];
    let nss = [None, Some(vec![]), Some(vec!["n"]), Some(vec!["n m"]), Some(vec!["n", "m#"])];
    let ts = [None, Some(-62167219200), Some(-62135596801), Some(-1), Some(0), Some(1), Some(59), Some(60), Some(3599), Some(86399), Some(86400), Some(951782400), Some(1709210096), Some(4102444800), Some(253402300799)];
    let radix = [ps.len(), nss.len(), ts.len(), ts.len(), 2, ks.0.len()];
    cx.bound("all combinations of three principal lists, five namespace lists, 15 by 15 instants, the flag and every key type".to_string());
    cx.group("combinations", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let e = Entry {
            principals: ps[d[0]].iter().map(|s| s.to_string()).collect(),
            ca: d[4] == 1,
            namespaces: nss[d[1]].as_ref().map(|v| v.iter().map(|s| s.to_string()).collect()),
            after: ts[d[2]],
            before: ts[d[3]],
            key: ks.0[d[5]].2.clone(),
        };
        entry_case(w, &e, &ks.text(d[5]));
    });
    // instants
    cx.bound("every day of years 0 to 9999 and every second of one day".to_string());
    let d0 = refm::allowed::days(0, 1, 1);
    cx.group("days", (refm::allowed::days(10000, 1, 1) - d0) as usize, |w, i| {
        let t = (d0 + i as i64) * 86400 + (i as i64 * 7919) % 86400;
        let e = Entry { principals: vec!["a".into()], ca: false, namespaces: None, after: (i % 2 == 0).then_some(t), before: (i % 2 == 1).then_some(t), key: ks.0[0].2.clone() };
        entry_case(w, &e, ktd);
    });
    cx.group("seconds", 86400, |w, i| {
        let t = 1709164800 + i as i64;
        let e = Entry { principals: vec!["a".into()], ca: false, namespaces: None, after: Some(t), before: Some(t + 1), key: ks.0[0].2.clone() };
        entry_case(w, &e, ktd);
    });
    // whatever the parser accepts
    let abc = ['a', ',', '"', '=', '#', ' '];
    let depth = cx.pick(7, 8);
    let places = [
        (String::new(), format!(" {}", ktd)),
        ("p namespaces=".into(), format!(" {}", ktd)),
        ("p namespaces=\"".into(), format!("\" {}", ktd)),
        ("\"".into(), format!("\" namespaces=\"a\" {}", ktd)),
    ];
    cx.bound(format!("all texts of up to {} characters out of {:?} as principals and namespaces", depth, abc));
    cx.group("characters", words(abc.len(), depth) * places.len(), |w, i| {
        let (a, b) = &places[i % places.len()];
        let s: String = word(i / places.len(), abc.len(), depth).into_iter().map(|x| abc[x]).collect();
        let s = format!("{}{}{}", a, s, b);
        w.case(&s, || format!("{:?}", s), |w| judge(w, &s));
    });
    cx.group("unicode", 0x11_0000 / 16, |w, i| {
        for j in 0..16 {
            let c = match char::from_u32((i * 16 + j) as u32) {
                Some(c) if c != '\n' && c != '\r' => c,
                _ => continue,
            };
            for s in [format!("a{}b namespaces={} {}", c, c, ktd), format!("\"{}\" namespaces=\"{}x\" {}", c, c, ktd)] {
                w.case(&s, || format!("{:?}", s), |w| judge(w, &s));
            }
        }
    });
    cx.group("long", 200, |w, i| {
        let l: Vec<String> = (0..=i).map(|j| text(j % 50 + 1, j as u8)).collect();
        let e = Entry { principals: l.clone(), ca: true, namespaces: Some(l), after: None, before: None, key: ks.0[0].2.clone() };
        entry_case(w, &e, ktd);
    });
    // local times in other zones
    for tz in ["America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Europe/London", "Africa/Monrovia", "Australia/Lord_Howe"] {
        std::env::set_var("TZ", tz);
        let d0 = refm::allowed::days(1970, 1, 1);
        cx.group(&format!("zone {}", tz), cx.pick(68, 131) * 366, |w, i| {
            for h in 0..8 {
                let c = (d0 + i as i64) * 86400 + h * 10800;
                let s = format!("p valid-{}={} {}", ["after", "before"][i % 2], super::c15::fmt(c, [8, 12, 14][h as usize % 3]), ktd);
                w.case((tz, &s), || format!("TZ={} {:?}", tz, s), |w| judge(w, &s));
            }
        });
    }
    super::c14::utc();
}
