//! Writer: sequences of writes compared byte for byte with the model, then read back.
use super::*;
use crate::conv;
use crate::engine::*;
use crate::ensure;
use refm::keys::{self, Pub};
use refm::wire::{self, Enc};
use sshcerts::ssh::{Reader, Writer};
use std::collections::HashMap;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    U32(u32),
    U64(u64),
    Bytes(Vec<u8>),
    Raw(Vec<u8>),
    Str(String),
    CStr(String),
    Mpint(Vec<u8>),
    List(Vec<String>),
    /// in insertion order; names are distinct
    Map(Vec<(String, String)>),
    Pub(Pub),
    PubData(Pub),
}
fn brief(o: &Op) -> String {
    let s = format!("{:?}", o);
    if s.len() > 160 {
        format!("{}..({} chars)", s.chars().take(150).collect::<String>(), s.len())
    } else {
        s
    }
}
fn model(e: Enc, o: &Op) -> Enc {
    match o {
        Op::U32(v) => e.u32(*v),
        Op::U64(v) => e.u64(*v),
        Op::Bytes(v) => e.bytes(v),
        Op::Raw(v) => e.raw(v),
        Op::Str(v) => e.str(v),
        Op::CStr(v) => e.raw(v.as_bytes()).u8(0),
        Op::Mpint(v) => e.mpint(v),
        Op::List(v) => e.bytes(&refm::cert::list_block(v)),
        Op::Map(v) => {
            let mut v = v.clone();
            v.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
            e.bytes(&refm::cert::option_block(&v))
        }
        Op::Pub(k) => e.bytes(&k.encode()),
        Op::PubData(k) => e.raw(&k.data()),
    }
}
fn to_map(v: &[(String, String)]) -> HashMap<String, String> {
    v.iter().cloned().collect()
}
fn apply(w: &mut Writer, o: &Op) {
    match o {
        Op::U32(v) => w.write_u32(*v),
        Op::U64(v) => w.write_u64(*v),
        Op::Bytes(v) => w.write_bytes(v),
        Op::Raw(v) => w.write_raw_bytes(v),
        Op::Str(v) => w.write_string(v),
        Op::CStr(v) => w.write_cstring(v),
        Op::Mpint(v) => w.write_mpint(v),
        Op::List(v) => w.write_string_vec(v),
        Op::Map(v) => w.write_string_map(&to_map(v)),
        Op::Pub(k) => w.write_pub_key(&conv::to_pubkey(k)),
        Op::PubData(k) => w.write_pub_key_data(&conv::to_pubkey(k)),
    }
}
/// Reads the value back with the crate's reader and compares.
fn read_back(r: &mut Reader<'_>, o: &Op) -> Result<(), String> {
    let e = |x: sshcerts::error::Error| format!("reading back {}: {:?}", brief(o), x);
    let bad = |s: String| -> Result<(), String> { Err(format!("read back {} as {}", brief(o), s.chars().take(200).collect::<String>())) };
    macro_rules! same {
        ($got:expr, $want:expr) => {{
            let g = $got.map_err(e)?;
            if g != $want {
                return bad(format!("{:?}", g));
            }
            Ok::<(), String>(())
        }};
    }
    match o {
        Op::U32(v) => same!(r.read_u32(), *v),
        Op::U64(v) => same!(r.read_u64(), *v),
        Op::Bytes(v) => same!(r.read_bytes(), *v),
        Op::Raw(v) if v.is_empty() => Ok(()),
        Op::Raw(v) => same!(r.read_raw_bytes(v.len()), *v),
        Op::Str(v) => same!(r.read_string(), *v),
        Op::CStr(v) => same!(r.read_cstring(), *v),
        Op::Mpint(v) => same!(r.read_positive_mpint(), wire::strip0(v)),
        Op::List(v) => {
            let b = r.read_bytes().map_err(e)?;
            let mut i = Reader::new(&b);
            for x in v {
                let g = i.read_string().map_err(e)?;
                if g != *x {
                    return bad(g);
                }
            }
            if i.get_offset() != b.len() {
                return bad("a longer list".into());
            }
            Ok(())
        }
        Op::Map(v) => {
            let mut v = v.clone();
            v.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
            let b = r.read_bytes().map_err(e)?;
            let mut i = Reader::new(&b);
            for (k, x) in v {
                let g = i.read_string().map_err(e)?;
                let d = i.read_bytes().map_err(e)?;
                let val = if d.is_empty() {
                    String::new()
                } else {
                    let mut j = Reader::new(&d);
                    let s = j.read_string().map_err(e)?;
                    if j.get_offset() != d.len() {
                        return bad("an option with trailing data".into());
                    }
                    s
                };
                if g != k || val != x {
                    return bad(format!("{}={}", g, val));
                }
            }
            if i.get_offset() != b.len() {
                return bad("a longer map".into());
            }
            Ok(())
        }
        Op::Pub(k) => {
            let b = r.read_bytes().map_err(e)?;
            let g = sshcerts::PublicKey::from_bytes(&b).map_err(e)?;
            if conv::pubkey(&g).as_ref() != Some(k) {
                return bad(format!("{:?}", g));
            }
            Ok(())
        }
        Op::PubData(k) => match k {
            Pub::Rsa { e: x, n } => {
                same!(r.read_positive_mpint(), *x)?;
                same!(r.read_positive_mpint(), *n)
            }
            Pub::Ec { c, pt } => {
                same!(r.read_string(), c.id())?;
                same!(r.read_bytes(), *pt)
            }
            Pub::Ed { pk } => same!(r.read_bytes(), *pk),
            Pub::SkEd { pk, app } => {
                same!(r.read_bytes(), *pk)?;
                same!(r.read_string(), *app)
            }
            Pub::SkEc { pt, app } => {
                same!(r.read_string(), "nistp256")?;
                same!(r.read_bytes(), *pt)?;
                same!(r.read_string(), *app)
            }
        },
    }
}
fn check(w: &mut W, ops: &[Op]) {
    w.case(ops, || format!("writes {}", ops.iter().map(brief).collect::<Vec<_>>().join(", ")), |w| {
        let mut wr = Writer::new();
        let mut e = Enc::new();
        for o in ops {
            w.call("write", || apply(&mut wr, o))?;
            e = model(e, o);
            ensure!(wr.as_bytes() == &e.0[..], "after {}: as_bytes {} expected {}", brief(o), hex(wr.as_bytes()), hex(&e.0));
        }
        let out = w.call("into_bytes", || wr.into_bytes())?;
        ensure!(out == e.0, "into_bytes {} expected {}", hex(&out), hex(&e.0));
        let mut r = Reader::new(&out);
        w.call("read back", || {
            for o in ops {
                read_back(&mut r, o)?;
            }
            Ok::<(), String>(())
        })??;
        ensure!(r.get_offset() == out.len(), "reading back stopped at {} of {}", r.get_offset(), out.len());
        Ok(if ops.is_empty() { "empty" } else { "same" })
    });
}
pub fn lens(max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..=70).collect();
    for b in [96usize, 127, 128, 129, 192, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 16383, 16384, 32767, 32768, 32769, 65535, 65536, 65537, 70000, 131072, 1 << 20] {
        v.push(b);
    }
    v.retain(|x| *x <= max);
    v.dedup();
    v
}
pub const NAMES: [&str; 22] = [
    "", "a", "A", "b", "B", "aa", "ab", "a-b", "a_b", "a b", "aB", "é", "z", "~", "0", "force-command", "source-address", "verify-required",
    "permit-X11-forwarding", "permit-agent-forwarding", "permit-pty", "login@github.com",
];

pub fn run(cx: &Cx) {
    let keys: Vec<Pub> = keys::subjects("ssh:").into_iter().chain([keys::signers("ssh:é")[4].1.public(), keys::signers("")[5].1.public()]).collect();
    let mut alpha: Vec<Op> = vec![];
    for v in [0u32, 1, 0x7f, 0x80, 0xff, 0x100, 0xffff, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff, 0x01020304] {
        alpha.push(Op::U32(v));
    }
    for v in [0u64, 1, 0xffffffff, 0x100000000, 1 << 63, u64::MAX, 0x0102030405060708] {
        alpha.push(Op::U64(v));
    }
    for v in [vec![], vec![0], vec![0x80], vec![0, 0], vec![0, 0x80], vec![0, 1], vec![1, 0], vec![0xff; 3], fill(255, 1), fill(256, 2)] {
        alpha.push(Op::Bytes(v.clone()));
        alpha.push(Op::Raw(v.clone()));
        alpha.push(Op::Mpint(v));
    }
    for v in ["", "a", "é", "nul\u{0}l", "\u{10ffff}"] {
        alpha.push(Op::Str(v.into()));
        if !v.contains('\0') {
            alpha.push(Op::CStr(v.into()));
        }
    }
    let s = |v: &[&str]| -> Vec<String> { v.iter().map(|x| x.to_string()).collect() };
    for v in [s(&[]), s(&[""]), s(&["a"]), s(&["a", "a"]), s(&["", "b", ""]), s(&["é", "abc", ","])] {
        alpha.push(Op::List(v));
    }
    let m = |v: &[(&str, &str)]| -> Vec<(String, String)> { v.iter().map(|x| (x.0.to_string(), x.1.to_string())).collect() };
    for v in [m(&[]), m(&[("a", "")]), m(&[("", "")]), m(&[("", "v")]), m(&[("a", "v")]), m(&[("b", "1"), ("a", "22")]), m(&[("b", ""), ("aa", "x"), ("a", "")])] {
        alpha.push(Op::Map(v));
    }
    for k in &keys {
        alpha.push(Op::Pub(k.clone()));
        alpha.push(Op::PubData(k.clone()));
    }
    let k = alpha.len();
    cx.bound(format!("all sequences of at most 2 writes out of {} and, over a third (quarter) of them, of {} writes", k, cx.pick(4, 5)));
    cx.group("sequences", 1 + k + k * k, |w, i| {
        let ops: Vec<Op> = word(i, k, 2).iter().map(|x| alpha[*x].clone()).collect();
        check(w, &ops);
    });
    let small: Vec<Op> = alpha.iter().enumerate().filter(|(i, _)| i % cx.pick(3, 4) == 1).map(|(_, o)| o.clone()).collect();
    let (sk, d) = (small.len(), cx.pick(4, 5));
    cx.group("longer-sequences", sk.pow(d as u32), |w, i| {
        let ops: Vec<Op> = digits(i, &vec![sk; d]).iter().map(|x| small[*x].clone()).collect();
        check(w, &ops);
    });
    let ls = lens(1 << 20);
    cx.bound(format!("{} lengths up to 2^20 for every variable-length write", ls.len()));
    cx.group("lengths", ls.len(), |w, i| {
        let n = ls[i];
        let t = Op::U32(0xa5a5a5a5);
        check(w, &[Op::Bytes(fill(n, 1)), t.clone()]);
        check(w, &[Op::Raw(fill(n, 2)), t.clone()]);
        check(w, &[Op::Str(text(n, 3)), t.clone()]);
        check(w, &[Op::CStr(text(n, 4)), t.clone()]);
        check(w, &[Op::Str("é".repeat(n / 2)), t.clone()]);
        for (first, second) in [(0x7fu8, 1u8), (0x80, 1), (0xff, 0), (0, 0x7f), (0, 0x80), (0, 0), (1, 0)] {
            let mut b = fill(n, 5);
            if n > 0 {
                b[0] = first;
            }
            if n > 1 {
                b[1] = second;
            }
            check(w, &[Op::Mpint(b), t.clone()]);
        }
        for zeros in [1usize, 2, 3, 8, 32, 64] {
            let mut b = vec![0; zeros];
            b.extend(vec![0x80; n]);
            check(w, &[Op::Mpint(b.clone()), t.clone()]);
            b[zeros - 1] = 1;
            check(w, &[Op::Mpint(b), t.clone()]);
        }
        check(w, &[Op::List(vec![text(n, 6)]), t.clone()]);
        check(w, &[Op::List(vec!["x".into(), text(n, 6), "".into()]), t.clone()]);
        check(w, &[Op::List(vec!["é".repeat(n / 2)]), t.clone()]);
        check(w, &[Op::Map(vec![("name".into(), text(n, 7))]), t.clone()]);
        check(w, &[Op::Map(vec![(text(n, 7), "".into())]), t.clone()]);
        check(w, &[Op::Map(vec![(text(n, 7), "é".repeat(n / 2)), ("~".into(), text(n / 3, 1))]), t.clone()]);
        check(w, &[Op::PubData(Pub::SkEd { pk: fill(32, 1), app: text(n, 2) }), t.clone()]);
        check(w, &[Op::Pub(Pub::SkEd { pk: fill(32, 1), app: text(n, 2) }), t.clone()]);
        check(w, &[Op::Pub(Pub::Ed { pk: fill(n, 3) }), t.clone()]);
        let mut b = fill(n, 5);
        if n > 0 {
            b[0] |= 0x80;
        }
        check(w, &[Op::Pub(Pub::Rsa { e: vec![1, 0, 1], n: b }), t]);
    });
    // counts
    let counts: Vec<usize> = (0..=40).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000]).collect();
    cx.bound(format!("lists and maps of {} sizes up to 1000 with 4 shapes of entries", counts.len()));
    cx.group("counts", counts.len() * 4, |w, i| {
        let (n, shape) = (counts[i / 4], i % 4);
        let item = |j: usize| -> String {
            match shape {
                0 => String::new(),
                1 => format!("p{}", j),
                2 => text(j % 50, j as u8),
                _ => text(if j % 7 == 0 { 256 } else { 3 }, j as u8),
            }
        };
        check(w, &[Op::U32(1), Op::List((0..n).map(item).collect()), Op::U32(2)]);
        check(w, &[Op::U32(1), Op::Map((0..n).map(|j| (format!("{}{}", ["opt-", "", "x", "permit-"][j % 4], j), item(j))).collect()), Op::U32(2)]);
        check(w, &[Op::U32(1), Op::Map((0..n).map(|j| (format!("k{:04}", n - j), if j % 2 == 0 { String::new() } else { item(j) })).collect()), Op::U32(2)]);
    });
    // map order: every subset of at most 3 (4) names, in every insertion order and every iteration order the map shows
    let nn = NAMES.len();
    let size = cx.pick(3, 4);
    let subsets: Vec<Vec<usize>> = (0..1usize << nn).filter(|m| m.count_ones() as usize <= size && m.count_ones() > 1).map(|m| (0..nn).filter(|b| m >> b & 1 == 1).collect()).collect();
    cx.bound(format!("option maps over every subset of 2..={} of {} names, with empty, filled and mixed values", size, nn));
    cx.group("map-order", subsets.len(), |w, i| {
        let sub = &subsets[i];
        for vals in 0..3 {
            for p in permutations(sub.len()) {
                let entries: Vec<(String, String)> = p
                    .iter()
                    .map(|j| {
                        let name = NAMES[sub[*j]].to_string();
                        let v = match vals {
                            0 => String::new(),
                            1 => format!("v{}", name),
                            _ => if sub[*j] % 2 == 0 { "x".into() } else { String::new() },
                        };
                        (name, v)
                    })
                    .collect();
                check(w, &[Op::Map(entries)]);
            }
        }
    });
    cx.group("map-iteration-orders", 2, |w, i| {
        // the same map, until every one of its iteration orders has been seen
        let names = [vec!["b", "a", "c"], vec!["permit-pty", "force-command", "zz", "A"]][i].clone();
        let entries: Vec<(String, String)> = names.iter().map(|n| (n.to_string(), if n.len() > 2 { "v".into() } else { "".into() })).collect();
        let want = model(Enc::new(), &Op::Map(entries.clone())).0;
        let total: usize = (1..=names.len()).product();
        let mut seen = std::collections::BTreeSet::new();
        let mut tries = 0;
        while seen.len() < total && tries < 100_000 && !w.stopped() {
            tries += 1;
            let m = to_map(&entries);
            let order: Vec<String> = m.keys().cloned().collect();
            if !seen.insert(order.clone()) {
                continue;
            }
            w.case(&order, || format!("map iterating as {:?}", order), |w| {
                let mut wr = Writer::new();
                w.call("write_string_map", || wr.write_string_map(&m))?;
                ensure!(wr.as_bytes() == &want[..], "wrote {} expected {}", hex(wr.as_bytes()), hex(&want));
                Ok("same")
            });
        }
    });
    // characters in every text, at every place
    let mut chars: Vec<char> = (0u32..0x250).filter_map(char::from_u32).collect();
    chars.extend("\u{300}\u{7ff}\u{800}\u{2028}\u{2029}\u{200b}\u{d7ff}\u{e000}\u{feff}\u{fffd}\u{ffff}\u{10000}\u{1f511}\u{10ffff}".chars());
    cx.bound(format!("{} characters alone, first, last, inside and doubled, and all pairs of 24 of them, in every text that can be written", chars.len()));
    let texts = |t: String, w: &mut W| {
        let n = Op::U32(7);
        check(w, &[Op::Str(t.clone()), n.clone()]);
        if !t.contains('\0') {
            check(w, &[Op::CStr(t.clone()), n.clone()]);
        }
        check(w, &[Op::List(vec!["x".into(), t.clone(), t.clone(), "y".into()]), n.clone()]);
        check(w, &[Op::Map(vec![("m".into(), t.clone()), (format!("{}\u{1}", t), "v".into()), (format!("{}k", t), t.clone())]), n.clone()]);
        if t != "m" {
            check(w, &[Op::Map(vec![("m".into(), t.clone()), (t.clone(), String::new())]), n.clone()]);
        }
        check(w, &[Op::Pub(Pub::SkEd { pk: fill(32, 1), app: t.clone() }), n]);
    };
    cx.group("characters", chars.len(), |w, i| {
        let c = chars[i];
        for t in [format!("{}", c), format!("{}ab", c), format!("ab{}", c), format!("a{}b", c), format!("{}{}", c, c)] {
            texts(t, w);
        }
    });
    let special: Vec<char> = "\0\t\n\r \"\\,;:*!#=/aZ0é\u{7f}\u{85}\u{a0}\u{2028}\u{feff}".chars().collect();
    let ns = special.len();
    cx.group("pairs of characters", ns * ns, |w, i| texts([special[i / ns], special[i % ns]].iter().collect(), w));
    // numbers
    cx.bound("every power of two and its neighbours and complements, every byte in every place, for both number widths");
    cx.group("numbers", 64, |w, i| {
        let b = 1u64 << i;
        for v in [b, b - 1, b.wrapping_add(1), !b, !(b - 1), b | 1 << 63] {
            check(w, &[Op::U64(v), Op::U32(v as u32), Op::U64(v.swap_bytes())]);
            check(w, &[Op::U32((v >> 32) as u32), Op::U64(v)]);
        }
        if i % 8 == 0 {
            for x in 0..256u64 {
                check(w, &[Op::U64(x << i), Op::U32((x << (i % 32)) as u32), Op::U64(!(x << i))]);
            }
        }
    });
    // beyond three length bytes
    let big = [(1usize << 24) - 1, 1 << 24, (1 << 24) + 1, (1 << 24) + 0x10203];
    cx.bound("4 lengths around 2^24 for every variable-length write");
    cx.group("large", big.len() * 7, |w, i| {
        let (n, t) = (big[i / 7], Op::U32(0xa5a5a5a5));
        let o = match i % 7 {
            0 => Op::Bytes(fill(n, 1)),
            1 => Op::Str(text(n, 3)),
            2 => {
                let mut b = fill(n, 5);
                b[0] = 0x80;
                Op::Mpint(b)
            }
            3 => Op::List(vec!["x".into(), text(n, 6), "".into()]),
            4 => Op::List((0..n >> 18).map(|j| text((1 << 18) - j % 2, j as u8)).collect()),
            5 => Op::Map(vec![("name".into(), text(n, 7)), ("other".into(), "".into())]),
            _ => Op::Pub(Pub::SkEd { pk: fill(32, 1), app: text(n, 2) }),
        };
        check(w, &[o, t]);
    });
    cx.assume("a NUL inside a NUL-terminated string cannot be represented and is not written");
}
