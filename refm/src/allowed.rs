//! allowed_signers lines (ssh-keygen(1), ALLOWED SIGNERS), as a character automaton.
use crate::keys::Pub;
use crate::Tri;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Entry {
    pub principals: Vec<String>,
    pub ca: bool,
    pub namespaces: Option<Vec<String>>,
    pub after: Option<i64>,
    pub before: Option<i64>,
    pub key: Pub,
}

/// One word of a line: the text outside quotes before the quoted run, and the run, which must end the word.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Word {
    pub head: String,
    pub quoted: Option<String>,
}
/// None: a quote is unbalanced or misplaced.
pub fn lex(line: &str) -> Option<Vec<Word>> {
    let mut out = vec![];
    let mut it = line.chars().peekable();
    loop {
        while it.peek() == Some(&' ') {
            it.next();
        }
        match it.peek() {
            None | Some('#') => return Some(out),
            _ => {}
        }
        let mut w = Word { head: String::new(), quoted: None };
        loop {
            match it.peek().copied() {
                None | Some(' ') | Some('#') => break,
                Some('"') => {
                    if w.quoted.is_some() {
                        return None;
                    }
                    it.next();
                    let mut q = String::new();
                    loop {
                        match it.next() {
                            None => return None,
                            Some('"') => break,
                            Some(c) => q.push(c),
                        }
                    }
                    w.quoted = Some(q);
                }
                Some(c) => {
                    if w.quoted.is_some() {
                        return None;
                    }
                    w.head.push(c);
                    it.next();
                }
            }
        }
        out.push(w);
    }
}

/// days since 1970-01-01
pub fn days(y: i64, m: i64, d: i64) -> i64 {
    let y = if m <= 2 { y - 1 } else { y };
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let doy = (153 * ((m + 9) % 12) + 2) / 5 + d - 1;
    era * 146097 + yoe * 365 + yoe / 4 - yoe / 100 + doy - 719468
}
pub fn month_len(y: i64, m: i64) -> i64 {
    match m {
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
/// Civil seconds since 1970-01-01 00:00:00 of that clock, and whether the text says UTC.
pub fn civil(s: &str) -> (Tri, Option<(i64, bool)>) {
    let (t, utc) = match s.strip_suffix('Z') {
        Some(t) => (t, true),
        None => (s, false),
    };
    if !t.bytes().all(|b| b.is_ascii_digit()) || ![8, 12, 14].contains(&t.len()) {
        return (Tri::No, None);
    }
    let n = |a: usize, b: usize| if b <= t.len() { t[a..b].parse::<i64>().unwrap() } else { 0 };
    let (y, mo, d, h, mi, se) = (n(0, 4), n(4, 6), n(6, 8), n(8, 10), n(10, 12), n(12, 14));
    if !(1..=12).contains(&mo) || d < 1 || d > month_len(y, mo) || h > 23 || mi > 59 || se > 60 {
        return (Tri::No, None);
    }
    if se == 60 {
        return (Tri::May, None);
    }
    (Tri::Yes, Some((days(y, mo, d) * 86400 + h * 3600 + mi * 60 + se, utc)))
}

/// `key(type, data)` decides the key; `local(civil seconds)` the instant of a local time.
/// The second value is None where any value would do.
pub fn line(s: &str, key: &dyn Fn(&str, &str) -> Option<Pub>, local: &dyn Fn(i64) -> Option<i64>) -> (Tri, Option<Entry>, &'static str) {
    let no = |why| (Tri::No, None, why);
    let words = match lex(s) {
        Some(w) => w,
        None => return no("quotes"),
    };
    let mut it = words.into_iter();
    let principals = match it.next() {
        None => return no("empty"),
        Some(Word { head, quoted: None }) => head,
        Some(Word { head, quoted: Some(q) }) if head.is_empty() => q,
        _ => return no("quotes in principals"),
    };
    let principals: Vec<String> = principals.split(',').map(String::from).collect();
    if principals.iter().any(|p| p.is_empty()) {
        return no("empty principal");
    }
    let (mut ca, mut namespaces, mut after, mut before) = (false, None, None, None);
    let mut may = false;
    let ty = loop {
        let w = match it.next() {
            None => return no("no key"),
            Some(w) => w,
        };
        let (name, value) = match w.head.split_once('=') {
            None => (w.head.clone(), None),
            Some((n, v)) => match &w.quoted {
                None => (n.to_string(), Some(v.to_string())),
                Some(q) if v.is_empty() => (n.to_string(), Some(q.clone())),
                _ => return no("quotes in value"),
            },
        };
        let name = name.to_ascii_lowercase();
        if value.is_none() && w.quoted.is_some() {
            return no("quoted word");
        }
        match name.as_str() {
            "cert-authority" => {
                if value.is_some() {
                    return no("cert-authority with a value");
                }
                ca = true;
            }
            "namespaces" => {
                let l: Vec<String> = value.unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(String::from).collect();
                // a list of nothing allows nothing, or is an error
                may |= l.is_empty();
                if namespaces.replace(l).is_some() {
                    return no("namespaces twice");
                }
            }
            "valid-after" | "valid-before" => {
                let slot = if name == "valid-after" { &mut after } else { &mut before };
                let (t, v) = civil(&value.unwrap_or_default());
                if t == Tri::No {
                    return no("timestamp");
                }
                if slot.is_some() {
                    return no("timestamp twice");
                }
                let v = match v {
                    None => return (Tri::May, None, "leap second"),
                    Some((c, true)) => c,
                    Some((c, false)) => match local(c) {
                        None => return (Tri::May, None, "local time"),
                        Some(v) => v,
                    },
                };
                *slot = Some(v);
            }
            _ => {
                if value.is_some() {
                    return no("unknown option");
                }
                break w.head;
            }
        }
    };
    let data = match it.next() {
        Some(Word { head, quoted: None }) => head,
        Some(_) => return no("quoted key"),
        None => return no("no key data"),
    };
    let key = match key(&ty, &data) {
        None => return no("key"),
        Some(k) => k,
    };
    if it.next().is_some() {
        return no("trailing data");
    }
    if let (Some(a), Some(b)) = (after, before) {
        if b <= a {
            return no("valid-before not later than valid-after");
        }
    }
    (if may { Tri::May } else { Tri::Yes }, Some(Entry { principals, ca, namespaces, after, before, key }), "entry")
}
