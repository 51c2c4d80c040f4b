//! DER ECDSA signatures to SSH form.
use super::c03::{edits, tails};
use super::*;
use crate::conv;
use crate::engine::*;
use crate::ensure;
use refm::der;
use refm::keys::{self, Pub};
use refm::wire::{strip0, Enc};
use refm::Tri;
use sshcerts::utils::{asn_der_to_r_s, format_signature_for_ssh, signature_convert_asn1_ecdsa_to_ssh};

/// Strict DER: (length, header size)
fn dlen(b: &[u8]) -> Option<(usize, usize)> {
    match b {
        [x, ..] if *x < 0x80 => Some((*x as usize, 1)),
        [0x81, x, ..] if *x >= 0x80 => Some((*x as usize, 2)),
        [0x82, x, y, ..] if *x > 0 => Some(((*x as usize) << 8 | *y as usize, 3)),
        _ => None,
    }
}
fn dint(b: &[u8]) -> Option<(Vec<u8>, &[u8])> {
    if *b.first()? != 2 {
        return None;
    }
    let (l, h) = dlen(&b[1..])?;
    let b = &b[1 + h..];
    if b.len() < l {
        return None;
    }
    let (v, rest) = b.split_at(l);
    match v {
        [] | [0] => None,
        [0, x, ..] if x & 0x80 == 0 => None,
        [x, ..] if x & 0x80 != 0 => None,
        _ => Some((strip0(v), rest)),
    }
}
/// A signature encodes two positive integers and nothing else.
pub fn model(b: &[u8]) -> Option<(Vec<u8>, Vec<u8>)> {
    if *b.first()? != 0x30 {
        return None;
    }
    let (l, h) = dlen(&b[1..])?;
    let b = &b[1 + h..];
    if b.len() != l {
        return None;
    }
    let (r, b) = dint(b)?;
    let (s, b) = dint(b)?;
    if !b.is_empty() {
        return None;
    }
    Some((r, s))
}
fn big(v: &[u8]) -> bool {
    v.len() > 66 || v.len() == 66 && v[0] > 1
}
fn tri(m: &Option<(Vec<u8>, Vec<u8>)>) -> Tri {
    match m {
        None => Tri::No,
        // no curve has numbers this long
        Some((r, s)) if big(r) || big(s) => Tri::May,
        _ => Tri::Yes,
    }
}
fn ec_keys() -> Vec<Pub> {
    keys::signers("ssh:").into_iter().map(|x| x.1.public()).chain([keys::p521_pub()]).filter(|k| matches!(k, Pub::Ec { .. } | Pub::SkEc { .. })).collect()
}
fn case(w: &mut W, b: &[u8], keys: &[(Pub, sshcerts::PublicKey)]) -> R<&'static str> {
    let m = model(b);
    let t = tri(&m);
    let rs = w.call("asn_der_to_r_s", || asn_der_to_r_s(b).map(|(r, s)| (r.to_vec(), s.to_vec())))?;
    ensure!(t.allows(rs.is_some()), "asn_der_to_r_s gives {:?}, expected {:?}", rs, m);
    if let Some((r, s)) = &rs {
        let m = m.as_ref().unwrap();
        ensure!(strip0(r) == m.0 && strip0(s) == m.1, "r = {}, s = {}, expected {:?}", hex(r), hex(s), m);
    }
    let c = w.call("signature_convert_asn1_ecdsa_to_ssh", || signature_convert_asn1_ecdsa_to_ssh(b))?;
    ensure!(t.allows(c.is_some()), "conversion gives {:?}, expected {:?}", c, m);
    if let Some(c) = &c {
        let m = m.as_ref().unwrap();
        ensure!(*c == keys::ecdsa_inner(&m.0, &m.1), "converted to {}", hex(c));
    }
    for (k, g) in keys {
        let f = w.call("format_signature_for_ssh", || format_signature_for_ssh(g, b))?;
        ensure!(t.allows(f.is_some()), "formatting for {} gives {:?}, expected {:?}", k.type_name(), f, m);
        if let Some(f) = f {
            let m = m.as_ref().unwrap();
            ensure!(f == Enc::new().str(k.type_name()).bytes(&keys::ecdsa_inner(&m.0, &m.1)).0, "formatted for {} as {}", k.type_name(), hex(&f));
        }
    }
    Ok(match (t, c.is_some()) {
        (Tri::No, _) => "refused",
        (_, true) => "exact",
        _ => "out of range, refused",
    })
}

pub fn run(cx: &Cx) {
    let eck: Vec<(Pub, sshcerts::PublicKey)> = ec_keys().into_iter().map(|k| (k.clone(), conv::to_pubkey(&k))).collect();
    let tops = [1u8, 0x7f, 0x80, 0xff];
    let max = cx.pick(70, 140);
    cx.bound(format!("r and s of every length 1..={} with four top bytes each", max));
    cx.group("lengths", max * tops.len() * max, |w, i| {
        let d = digits(i, &[max, tops.len(), max]);
        let num = |n: usize, t: u8, salt: u8| {
            let mut v = fill(n, salt);
            v[0] = t;
            v
        };
        let r = num(d[0] + 1, tops[d[1]], 3);
        for t in tops {
            let s = num(d[2] + 1, t, 7);
            let b = der::ecdsa_sig(&r, &s);
            w.case(&b, || format!("r of {} bytes, s of {} bytes: {}", r.len(), s.len(), hex(&b)), |w| case(w, &b, &eck[..1 + (i % 7 == 0) as usize * (eck.len() - 1)]));
        }
    });
    cx.group("values", 256 * 256, |w, i| {
        for b in [der::ecdsa_sig(&[(i >> 8) as u8], &[i as u8]), der::ecdsa_sig(&fill(32, 0x11), &[&[(i >> 8) as u8, i as u8][..], &fill(30, 2)].concat()), der::ecdsa_sig(&[&[(i >> 8) as u8, i as u8][..], &fill(46, 2)].concat(), &fill(48, 0x11))] {
            w.case(&b, || hex(&b), |w| case(w, &b, &eck[..1]));
        }
    });
    // all short strings over the bytes that matter
    let abc = [0x30u8, 0x02, 0x00, 0x01, 0x03, 0x04, 0x06, 0x7f, 0x80, 0x81, 0x82, 0xff];
    let depth = cx.pick(6, 7);
    cx.bound(format!("all strings of up to {} bytes over {:02x?}, and of 0x30 len 0x02 followed by up to 5 bytes", depth, abc));
    cx.group("short", words(abc.len(), depth), |w, i| {
        let b: Vec<u8> = word(i, abc.len(), depth).into_iter().map(|x| abc[x]).collect();
        w.case(i, || hex(&b), |w| case(w, &b, &eck[..1]));
    });
    cx.group("short-int", words(abc.len(), 5) * 3, |w, i| {
        let v: Vec<u8> = word(i / 3, abc.len(), 5).into_iter().map(|x| abc[x]).collect();
        let b = match i % 3 {
            0 => [&[0x30, (v.len() + 1) as u8, 2][..], &v].concat(),
            1 => [&[0x30, (v.len() + 4) as u8, 2, 1, 1, 2][..], &v].concat(),
            _ => [&[0x30, (v.len() + 3) as u8][..], &v, &[2, 1, 1]].concat(),
        };
        w.case(i, || hex(&b), |w| case(w, &b, &eck[..1]));
    });
    let bases: Vec<Vec<u8>> = vec![
        der::ecdsa_sig(&fill(32, 0x11), &fill(32, 0x22)),
        der::ecdsa_sig(&fill(32, 0x91), &fill(32, 0xa2)),
        der::ecdsa_sig(&fill(31, 0x11), &fill(32, 0xf2)),
        der::ecdsa_sig(&fill(48, 0x91), &fill(48, 0x12)),
        der::ecdsa_sig(&fill(66, 0x01), &fill(66, 0x01)),
        der::ecdsa_sig(&[1], &[1]),
        der::ecdsa_sig(&fill(60, 0x11), &fill(62, 0x22)),
    ];
    cx.bound("every byte of 7 signatures at every value, every deletion, insertion, cut and tail, pairs of edits in the headers");
    cx.group("edits", bases.len(), |w, i| {
        edits(&bases[i], 2, |what, v| {
            w.case(&v, || format!("{}: {}", what, hex(&v)), |w| case(w, &v, &eck));
        });
        for t in tails(&bases[i]) {
            let v = [&bases[i][..], &t].concat();
            w.case(&v, || format!("followed by {}", hex(&t)), |w| case(w, &v, &eck));
        }
        let m = model(&bases[i]).unwrap();
        let body = [der::uint(&m.0), der::uint(&m.1)].concat();
        let l = body.len();
        let (l8, hi, lo) = (l as u8, (l >> 8) as u8, l as u8);
        for h in [vec![0x30, l8], vec![0x30, 0x81, l8], vec![0x30, 0x82, hi, lo], vec![0x30, 0x83, 0, hi, lo], vec![0x30, 0x84, 0, 0, hi, lo], vec![0x30, 0x80], vec![0x31, l8], vec![0xb0, l8], vec![0x10, l8], vec![0x30, 0x88, 0, 0, 0, 0, 0, 0, hi, lo], vec![0x30, 0xff], vec![0x3f, 0x30, l8]] {
            for e in [vec![], vec![0, 0]] {
                let v = [&h[..], &body, &e].concat();
                w.case(&v, || format!("header {}: {}", hex(&h), hex(&v)), |w| case(w, &v, &eck));
            }
        }
        for (a, b) in [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (5, 3)] {
            // padding zeros in front of the numbers
            let pad = |n: usize, v: &[u8]| der::tlv(2, &[vec![0; n], refm::wire::mpint_body(v)].concat());
            let v = der::seq(&[pad(a, &m.0), pad(b, &m.1)]);
            w.case(&v, || format!("{} and {} zeros in front", a, b), |w| case(w, &v, &eck));
            let neg = |n: usize, v: &[u8]| if n > 0 { der::tlv(2, v) } else { der::uint(v) };
            let v = der::seq(&[neg(a, &m.0), neg(b, &m.1)]);
            w.case((1, &v), || "sign byte missing".to_string(), |w| case(w, &v, &eck));
        }
        for parts in [vec![der::uint(&m.0)], vec![der::uint(&m.0), der::uint(&m.1), der::uint(&m.1)], vec![der::uint(&m.0), der::null()], vec![der::octets(&m.0), der::octets(&m.1)], vec![der::seq(&[der::uint(&m.0), der::uint(&m.1)])], vec![]] {
            let v = der::seq(&parts);
            w.case(&v, || format!("sequence of {}", hex(&v)), |w| case(w, &v, &eck));
        }
        // what cards return raw: r || s
        let raw = [&m.0[..], &m.1].concat();
        w.case(&raw, || "r and s without DER".to_string(), |w| case(w, &raw, &eck));
    });
    cx.bound("r and s of every length 1..=66: sequence and integer lengths in every longer form, one more and one less");
    cx.group("length-forms", 66 * 66, |w, i| {
        let forms = |l: usize| -> Vec<Vec<u8>> {
            let (hi, lo) = ((l >> 8) as u8, l as u8);
            let mut f = vec![vec![lo], vec![0x81, lo], vec![0x82, hi, lo], vec![0x83, 0, hi, lo], vec![0x84, 0, 0, hi, lo], vec![lo.wrapping_add(1)], vec![lo.wrapping_sub(1)], vec![0x81, lo.wrapping_add(1)], vec![0x81, lo.wrapping_sub(1)], vec![0x82, 1, lo], vec![lo | 0x80]];
            f.dedup();
            f
        };
        let (r, s) = (fill(i % 66 + 1, 0x21), fill(i / 66 + 1, 0x35));
        let (ri, si) = (der::uint(&r), der::uint(&s));
        let seq = |f: &[u8], a: &[u8], b: &[u8]| [&[0x30][..], f, a, b].concat();
        let mut all = vec![];
        for f in forms(ri.len() + si.len()) {
            all.push(seq(&f, &ri, &si));
        }
        for (k, body) in [&ri[2..], &si[2..]].iter().enumerate() {
            for f in forms(body.len()) {
                let n = [&[2][..], &f, body].concat();
                let (a, b) = if k == 0 { (&n, &si) } else { (&ri, &n) };
                all.push(seq(&der::len(a.len() + b.len()), a, b));
            }
        }
        for b in all {
            w.case(&b, || hex(&b), |w| case(w, &b, &eck[..1]));
        }
    });
    let n0 = 8;
    cx.group("header-pairs", 65536, |w, i| {
        // two header bytes at all values
        let b = &bases[0];
        for (p, q) in [(1, 3), (3, 4), (1, 2), (3, 36), (1, 37), (36, 37), (0, 1), (2, 3)].iter().take(n0) {
            let mut v = b.clone();
            v[*p] = (i >> 8) as u8;
            v[*q] = i as u8;
            w.case(&v, || format!("bytes {} and {}: {}", p, q, hex(&v)), |w| case(w, &v, &eck[..1]));
        }
    });
    // key types whose signatures need no conversion
    let lens: Vec<usize> = (0..=600).collect();
    cx.group("raw", lens.len() * 4, |w, i| {
        let n = lens[i / 4];
        let k = match i % 4 {
            0 => Pub::Ed { pk: fill(32, 1) },
            1 => Pub::SkEd { pk: fill(32, 1), app: "ssh:".into() },
            2 => Pub::Rsa { e: vec![1, 0, 1], n: fill(256, 0xc1) },
            _ => Pub::Rsa { e: vec![3], n: fill(n + 1, 0xc1) },
        };
        for b in [fill(n, 9), vec![0; n], vec![0x30; n], vec![0xff; n]] {
            w.case((i, &b), || format!("{} signature {}", k.type_name(), hex(&b)), |w| {
                let g = conv::to_pubkey(&k);
                let f = w.call("format_signature_for_ssh", || format_signature_for_ssh(&g, &b))?;
                let label = if let Pub::Rsa { .. } = k { "rsa-sha2-512" } else { k.type_name() };
                match f {
                    Some(f) => {
                        ensure!(f == Enc::new().str(label).bytes(&b).0, "formatted as {}", hex(&f));
                        Ok("exact")
                    }
                    // a length that no signature of the key has may be refused
                    None => {
                        let real = match &k {
                            Pub::Rsa { n, .. } => n.len(),
                            _ => 64,
                        };
                        ensure!(b.len() != real, "refused");
                        Ok("refused")
                    }
                }
            });
        }
        // a DER signature for these is raw bytes, too
    });
}
