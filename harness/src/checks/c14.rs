//! allowed_signers grammar.
use super::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::allowed::{self, Entry};
use refm::keys::{self, Pub, CERT_TYPES, SIG_ONLY};
use refm::Tri;
use sshcerts::ssh::{AllowedSigner, AllowedSigners};

pub struct Keys(pub Vec<(String, String, Pub)>);
impl Keys {
    pub fn new() -> Keys {
        Keys(
            keys::subjects("ssh:a")
                .into_iter()
                .map(|k| {
                    let t = k.openssh(None);
                    let (a, b) = t.split_once(' ').unwrap();
                    (a.to_string(), b.to_string(), k)
                })
                .collect(),
        )
    }
    pub fn find(&self, t: &str, d: &str) -> Option<Pub> {
        self.0.iter().find(|(a, b, _)| a == t && b == d).map(|x| x.2.clone())
    }
    pub fn text(&self, i: usize) -> String {
        format!("{} {}", self.0[i].0, self.0[i].1)
    }
    pub fn ed(&self) -> usize {
        self.0.iter().position(|k| k.0 == "ssh-ed25519").unwrap()
    }
}
pub fn entry(a: &AllowedSigner) -> Option<Entry> {
    Some(Entry { principals: a.principals.clone(), ca: a.cert_authority, namespaces: a.namespaces.clone(), after: a.valid_after, before: a.valid_before, key: conv::pubkey(&a.key)? })
}
/// local time is UTC here
pub fn model(s: &str, k: &Keys) -> (Tri, Option<Entry>, &'static str) {
    allowed::line(s, &|t, d| k.find(t, d), &Some)
}
fn judge(w: &mut W, s: &str, k: &Keys) -> R<&'static str> {
    let (t, e, why) = model(s, k);
    let g = w.call("AllowedSigner::from_string", || AllowedSigner::from_string(s))?;
    ensure!(t.allows(g.is_ok()), "gives {:?}, expected {:?} ({}) {:?}", g, t, why, e);
    if let (Ok(g), Some(e)) = (&g, &e) {
        ensure_eq!(entry(g), Some(e.clone()), "entry");
    }
    // the line as a whole file
    let l = s.trim_matches(' ');
    if l.contains(|c: char| c != ' ' && (c.is_whitespace() || c.is_control())) {
        return Ok(if g.is_ok() { "entry" } else { why });
    }
    let f = w.call("AllowedSigners::from_string", || AllowedSigners::from_string(s))?;
    if l.is_empty() || l.starts_with('#') {
        ensure!(matches!(&f, Ok(f) if f.0.is_empty()), "as a file it gives {:?}, expected no entries", f);
    } else {
        let (t, e, why) = model(l, k);
        ensure!(t.allows(f.is_ok()), "as a file it gives {:?}, expected {:?} ({}) {:?}", f, t, why, e);
        if let Ok(f) = &f {
            ensure_eq!(f.0.iter().map(entry).collect::<Vec<_>>(), vec![e], "entries of the file");
        }
    }
    Ok(if g.is_ok() { "entry" } else { why })
}
fn case(w: &mut W, s: &str, k: &Keys) {
    w.case(s, || format!("{:?}", s), |w| judge(w, s, k));
}

pub fn utc() {
    std::env::set_var("TZ", "UTC");
}

pub fn run(cx: &Cx) {
    utc();
    cx.assume("words are separated by spaces; tabs, second 60 and an empty namespaces list are not judged");
    let ks = &Keys::new();
    let (kt, kd) = (&ks.0[ks.ed()].0, &ks.0[ks.ed()].1);
    let (kt2, kd2) = (&ks.0[2].0, &ks.0[2].1);
    let ktd = &ks.text(ks.ed());

    // words of a line, in any order
    let toks: Vec<String> = [
        "a", "a,b", "\"a b\"", "\"a", "a\"", ",", "a,", "\"\"", "cert-authority", "CERT-Authority", "cert-authority=yes", "namespaces=n", "NameSpaces=\"n,m o\"", "namespaces=",
        "valid-after=20240101Z", "Valid-After=\"202306011200Z\"", "valid-before=20240101Z", "valid-before=\"20250101\"", "valid-before=x", "foo=1", kt, kd, kt2, kd2, "#", "\"", "#c\"",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain([format!("\"{}\"", kd), format!("\"{}\"", kt)])
    .collect();
    let n = toks.len();
    let depth = cx.pick(4, 5);
    cx.bound(format!("all lines of up to {} words out of {}", depth, n));
    cx.group("words", words(n, depth), |w, i| {
        let s = word(i, n, depth).into_iter().map(|x| toks[x].as_str()).collect::<Vec<_>>().join(" ");
        case(w, &s, ks);
    });
    let depth = cx.pick(4, 5);
    cx.bound(format!("all lines of principals, up to {} words out of {} and a key", depth, n));
    cx.group("words-between", words(n, depth), |w, i| {
        let m = word(i, n, depth).into_iter().map(|x| format!("{} ", toks[x])).collect::<String>();
        case(w, &format!("a,\u{e9}@b {}{}", m, ktd), ks);
    });
    // options only, deeper, with two ways of separating them
    let opts = ["cert-authority", "namespaces=\"x\"", "namespaces=y,z", "valid-after=19700101Z", "valid-after=\"20240229235959\"", "valid-before=20240301Z", "valid-before=\"19691231Z\"", "VALID-before=99991231235959Z"];
    let depth = cx.pick(6, 7);
    cx.bound(format!("all sequences of up to {} options out of {}", depth, opts.len()));
    cx.group("options", words(opts.len(), depth), |w, i| {
        let o = word(i, opts.len(), depth);
        let sep = ["  ", " "][o.len() % 2];
        let m = o.into_iter().map(|x| format!("{}{}", opts[x], sep)).collect::<String>();
        case(w, &format!("{}p{}{}{}{}", ["", "  "][i % 2], sep, m, ktd, ["", " ", "#x", " # \"y", "  #"][i % 5]), ks);
    });
    // characters
    let abc = ['a', ',', '"', '=', '#', ' '];
    let depth = cx.pick(7, 8);
    let places: Vec<(String, String)> = vec![
        (String::new(), format!(" {}", ktd)),
        ("p namespaces=".into(), format!(" {}", ktd)),
        ("p namespaces=\"".into(), format!("\" {}", ktd)),
        ("p ".into(), format!(" {}", ktd)),
        ("p cert-authority".into(), format!(" {}", ktd)),
        (format!("p {}", ktd), String::new()),
        (format!("p {} ", ktd), String::new()),
        (format!("p {}", kt), format!(" {}", kd)),
        (format!("p {} ", kt), kd.to_string()),
        (format!("p {}", kt), kd.to_string()),
        ("p valid-after=".into(), format!("20240101Z {}", ktd)),
        ("p valid-after=20240101Z".into(), format!(" {}", ktd)),
        ("p namespaces".into(), format!("x {}", ktd)),
    ];
    cx.bound(format!("all strings of up to {} characters out of {:?} at {} places of a line", depth, abc, places.len()));
    cx.group("characters", words(abc.len(), depth) * places.len(), |w, i| {
        let (a, b) = &places[i % places.len()];
        let s: String = word(i / places.len(), abc.len(), depth).into_iter().map(|x| abc[x]).collect();
        case(w, &format!("{}{}{}", a, s, b), ks);
    });
    let judged = |s: &str| -> bool {
        // an edit of the key's own text may give another key
        let (t, _, why) = model(s, ks);
        t != Tri::No || why != "key"
    };
    cx.bound("every single character below U+3100 at each of those places, alone and doubled, and every pair of printable ASCII characters".to_string());
    cx.group("any-character", 0x3100 * places.len(), |w, i| {
        let (a, b) = &places[i % places.len()];
        if let Some(c) = char::from_u32((i / places.len()) as u32) {
            // the other kinds of white space are left open
            if c.is_whitespace() && c != ' ' {
                return;
            }
            for s in [format!("{}{}{}", a, c, b), format!("{}{}x{}{}", a, c, c, b)] {
                if judged(&s) {
                    case(w, &s, ks);
                }
            }
        }
    });
    cx.group("any-two-characters", 95 * 95 * places.len(), |w, i| {
        let (a, b) = &places[i % places.len()];
        let (x, y) = (i / places.len() / 95, i / places.len() % 95);
        let s = format!("{}{}{}{}", a, (32 + x as u8) as char, (32 + y as u8) as char, b);
        if judged(&s) {
            case(w, &s, ks);
        }
    });
    // upper and lower case of the option names
    for (name, value) in [("cert-authority", ""), ("namespaces", "=n"), ("valid-after", "=20240101Z"), ("valid-before", "=\"20240101Z\"")] {
        cx.group("letter-case", 1 << name.len(), |w, i| {
            let o: String = name.chars().enumerate().map(|(j, c)| if i >> j & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
            case(w, &format!("p {}{} {}", o, value, ktd), ks);
        });
    }
    // misspelt option names
    let names = ["cert-authority", "namespaces", "valid-after", "valid-before"];
    let vals = ["", "=n", "=20240101Z", "=\"20240101Z\"", "=", "=\"\""];
    let mut miss = vec![];
    for n in names {
        for j in 0..=n.len() {
            for c in ['a', 's', '-', '_', 'x', '=', '\u{e9}', '\u{212a}'] {
                miss.push(format!("{}{}{}", &n[..j], c, &n[j..]));
                if j < n.len() {
                    miss.push(format!("{}{}{}", &n[..j], c, &n[j + 1..]));
                }
            }
            if j < n.len() {
                miss.push(format!("{}{}", &n[..j], &n[j + 1..]));
            }
        }
    }
    miss.extend(["namespace", "valid-from", "valid-to", "valid_after", "validafter", "no-touch-required", "verify-required", "principals", "restrict"].map(String::from));
    cx.group("misspelt", miss.len() * vals.len(), |w, i| {
        case(w, &format!("p {}{} {}", miss[i / vals.len()], vals[i % vals.len()], ktd), ks);
    });
    // keys
    let mut types: Vec<String> = ks.0.iter().map(|k| k.0.clone()).collect();
    types.extend(CERT_TYPES.iter().chain(["ssh-dss", "SSH-ED25519", "ssh-ed25519x", "none"].iter()).map(|s| s.to_string()));
    let mut datas: Vec<String> = ks.0.iter().map(|k| k.1.clone()).collect();
    for k in &ks.0 {
        let e = k.2.encode();
        for cut in 1..e.len().min(40) {
            datas.push(base64::encode(&e[..e.len() - cut]));
        }
        datas.push(base64::encode([&e[..], &[0]].concat()));
        datas.push(format!("{}*", k.1));
        datas.push(format!("*{}", k.1));
        datas.push(k.1[1..].to_string());
    }
    let heads = ["p", "p cert-authority", "\"a b,c\" namespaces=\"n\" valid-after=20240101Z"];
    cx.bound(format!("{} key types by {} key texts", types.len(), datas.len()));
    cx.group("keys", types.len() * datas.len() * heads.len(), |w, i| {
        let d = digits(i, &[types.len(), datas.len(), heads.len()]);
        if SIG_ONLY.contains(&types[d[0]].as_str()) {
            return;
        }
        case(w, &format!("{} {} {}", heads[d[2]], types[d[0]], datas[d[1]]), ks);
    });
    // principals and namespaces
    let atoms = ["a", "*", "*@x.org", "!b", "user@domain.tld", "\u{e9}\u{4e2d}", "ssh-ed25519", "cert-authority", "namespaces=n", "a=b", "valid-after=20240101Z", "\\", "'", "%", "x y", " ", "#", "a#b", "", ":", "a;b", "-", "20240101", "A"];
    cx.group("lists", atoms.len() * atoms.len() * atoms.len() * 4, |w, i| {
        let d = digits(i, &[atoms.len(), atoms.len(), atoms.len(), 4]);
        let l = [atoms[d[0]], atoms[d[1]], atoms[d[2]]].join(",");
        match d[3] {
            0 => case(w, &format!("{} {}", l, ktd), ks),
            1 => case(w, &format!("\"{}\" {}", l, ktd), ks),
            2 => case(w, &format!("p namespaces={} {}", l, ktd), ks),
            _ => case(w, &format!("p namespaces=\"{}\" {}", l, ktd), ks),
        }
    });
    cx.group("long-lists", 300 * 2, |w, i| {
        let l = (0..=i / 2).map(|j| text(j % 40 + 1, j as u8)).collect::<Vec<_>>().join(",");
        case(w, &if i % 2 == 0 { format!("{} {}", l, ktd) } else { format!("p namespaces=\"{}\" {}", l, ktd) }, ks);
    });
    // order of the two bounds
    let times = [
        "00000101Z", "00010101Z", "18991231235959Z", "19691231Z", "196912312359Z", "19691231235959Z", "19700101Z", "19700101000000Z", "197001010000Z", "19700101000001Z", "19700102Z", "20010909014639Z", "20010909014640Z", "20010909014641Z", "20380119031407Z",
        "20380119031408Z", "20991231Z", "21000101Z", "21060207062815Z", "21060207062816Z", "22620411234716Z", "22620411234717Z", "99991231Z", "99991231235959Z", "99991231235958Z", "20240229", "202402292359", "20240229235959", "20230229Z", "20240101x",
    ];
    cx.group("bounds", times.len() * times.len() * 4, |w, i| {
        let d = digits(i, &[times.len(), times.len(), 4]);
        let (mut a, mut b) = (format!("valid-after={}", times[d[0]]), format!("valid-before={}", times[d[1]]));
        if d[2] & 1 == 1 {
            std::mem::swap(&mut a, &mut b);
        }
        if d[2] & 2 == 2 {
            b = b.replace('=', "=\"") + "\"";
        }
        case(w, &format!("p {} {} {}", a, b, ktd), ks);
    });
    // one edit, two edits
    let good = [
        format!("a,b {}", ktd),
        format!("\"a b\" cert-authority {}", ktd),
        format!("a namespaces=\"n,m\" valid-after=20240101Z {} # c", ktd),
        format!("a valid-before=\"20240101\" cert-authority namespaces=n {}", ktd),
        format!("a VALID-after=20240101120000Z valid-before=20240101120001Z {}#\"", ktd),
    ];
    let ed = ['a', '"', ' ', '#', ',', '=', 'Z', '0', '-', '\u{e9}'];
    let per = |s: &str| (s.len() + 1) * (2 * ed.len() + 1);
    let edit = |s: &str, i: usize| -> Option<String> {
        let (p, e) = (i / (2 * ed.len() + 1), i % (2 * ed.len() + 1));
        if !s.is_char_boundary(p) {
            return None;
        }
        let (a, b) = s.split_at(p);
        let rest = || b.chars().next().map(|c| &b[c.len_utf8()..]);
        Some(match e {
            0 => format!("{}{}", a, rest()?),
            e if e <= ed.len() => format!("{}{}{}", a, ed[e - 1], b),
            e => format!("{}{}{}", a, ed[e - 1 - ed.len()], rest()?),
        })
    };
    cx.bound("every single character edit of five lines, and every pair of edits before the key".to_string());
    for g in &good {
        cx.group("edits", per(g), |w, i| {
            if let Some(s) = edit(g, i) {
                if judged(&s) {
                    case(w, &s, ks);
                }
            }
        });
    }
    for g in &good {
        let head = &g[..g.find(kt.as_str()).unwrap()];
        let tail = &g[head.len()..];
        cx.group("edit-pairs", per(head), |w, i| {
            if let Some(s) = edit(head, i) {
                for j in 0..per(&s) {
                    if let Some(s) = edit(&s, j) {
                        let s = format!("{}{}", s, tail);
                        if judged(&s) {
                            case(w, &s, ks);
                        }
                    }
                }
            }
        });
    }
    // files
    let g1 = format!("a,b cert-authority {}", ktd);
    let g2 = format!("  c namespaces=\"n # m\" {} {} # x", kt2, kd2);
    let lines: Vec<(String, Option<Option<Entry>>)> = vec![
        (String::new(), None),
        ("  \t ".into(), None),
        ("# c".into(), None),
        (format!("  #{}", g1), None),
        (g1.clone(), Some(model(&g1, ks).1)),
        (g2.clone(), Some(model(&g2, ks).1)),
        (format!("{}  ", g1), Some(model(&g1, ks).1)),
        ("a b".into(), Some(None)),
        ("\"".into(), Some(None)),
        (format!("a valid-after=x {}", ktd), Some(None)),
    ];
    let depth = cx.pick(5, 6);
    cx.bound(format!("all files of up to {} lines out of {} kinds, four line endings", depth, lines.len()));
    let file = |i: usize| -> (String, Option<Vec<Entry>>) {
        let l = word(i, lines.len(), depth);
        let mut want = Some(vec![]);
        for &x in &l {
            match (&lines[x].1, &mut want) {
                (Some(Some(e)), Some(v)) => v.push(e.clone()),
                (Some(None), _) => want = None,
                _ => {}
            }
        }
        let nl = ["\n", "\r\n"][i / 2 % 2];
        let mut s = l.iter().map(|&x| lines[x].0.clone()).collect::<Vec<_>>().join(nl);
        if i % 2 == 1 {
            s.push_str(nl);
        }
        (s, want)
    };
    let same = |g: &Result<AllowedSigners, sshcerts::error::Error>, want: &Option<Vec<Entry>>| -> R<&'static str> {
        match (g, want) {
            (Err(_), None) => Ok("error"),
            (Ok(g), Some(v)) => {
                let got: Vec<Option<Entry>> = g.0.iter().map(entry).collect();
                ensure_eq!(got, v.iter().cloned().map(Some).collect::<Vec<_>>(), "entries");
                Ok("list")
            }
            _ => Err(Fail(format!("gives {:?}, expected {:?}", g, want))),
        }
    };
    cx.group("files", words(lines.len(), depth), |w, i| {
        let (s, want) = file(i);
        w.case(&s, || format!("{:?}", s), |w| {
            let g = w.call("AllowedSigners::from_string", || AllowedSigners::from_string(&s))?;
            same(&g, &want)
        });
    });
    let dir = format!("{}/target/scratch/c14-{}", verif_dir(), std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    cx.group("from_path", words(lines.len(), 3) + 3, |w, i| {
        let path = format!("{}/{}", dir, i);
        let k = words(lines.len(), 3);
        let (s, want) = match i {
            i if i < k => {
                let (s, want) = file(i);
                (Some(s.into_bytes()), want)
            }
            i if i == k => (None, None),
            i if i == k + 1 => (Some([g1.as_bytes(), b"\n# \xff\n"].concat()), None),
            _ => {
                let many = (0..2000).map(|_| g1.clone()).collect::<Vec<_>>().join("\n");
                (Some(many.into_bytes()), Some((0..2000).map(|_| model(&g1, ks).1.unwrap()).collect()))
            }
        };
        if let Some(s) = &s {
            std::fs::write(&path, s).unwrap();
        }
        w.case(i, || format!("file {:?}", s.as_ref().map(|s| String::from_utf8_lossy(&s[..s.len().min(300)]).into_owned())), |w| {
            let g = w.call("AllowedSigners::from_path", || AllowedSigners::from_path(&path))?;
            same(&g, &want)
        });
        let _ = std::fs::remove_file(&path);
    });
    let _ = std::fs::remove_dir_all(&dir);
}
