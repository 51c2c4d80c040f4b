//! Minimal DER writer and reader.
pub fn len(n: usize) -> Vec<u8> {
    if n < 128 {
        vec![n as u8]
    } else {
        let b: Vec<u8> = n.to_be_bytes().iter().copied().skip_while(|x| *x == 0).collect();
        let mut v = vec![0x80 | b.len() as u8];
        v.extend(b);
        v
    }
}
pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![tag];
    v.extend(len(body.len()));
    v.extend_from_slice(body);
    v
}
pub fn seq(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x30, &parts.concat())
}
pub fn set(parts: &[Vec<u8>]) -> Vec<u8> {
    tlv(0x31, &parts.concat())
}
/// non-negative INTEGER
pub fn uint(b: &[u8]) -> Vec<u8> {
    let mut m = crate::wire::mpint_body(b);
    if m.is_empty() {
        m = vec![0];
    }
    tlv(2, &m)
}
pub fn oid(s: &str) -> Vec<u8> {
    let n: Vec<u64> = s.split('.').map(|x| x.parse().unwrap()).collect();
    let mut v = vec![];
    let mut put = |x: u64| {
        let mut t = vec![(x & 0x7f) as u8];
        let mut x = x >> 7;
        while x > 0 {
            t.push(0x80 | (x & 0x7f) as u8);
            x >>= 7;
        }
        t.reverse();
        v.extend(t);
    };
    put(n[0] * 40 + n[1]);
    for x in &n[2..] {
        put(*x);
    }
    tlv(6, &v)
}
pub fn bits(b: &[u8]) -> Vec<u8> {
    let mut v = vec![0];
    v.extend_from_slice(b);
    tlv(3, &v)
}
pub fn bits_unused(b: &[u8], unused: u8) -> Vec<u8> {
    let mut v = vec![unused];
    v.extend_from_slice(b);
    tlv(3, &v)
}
pub fn octets(b: &[u8]) -> Vec<u8> {
    tlv(4, b)
}
pub fn utf8(s: &str) -> Vec<u8> {
    tlv(12, s.as_bytes())
}
pub fn null() -> Vec<u8> {
    vec![5, 0]
}
/// (tag, body, rest)
pub fn read(b: &[u8]) -> Option<(u8, &[u8], &[u8])> {
    if b.len() < 2 {
        return None;
    }
    let (l, h) = if b[1] < 128 {
        (b[1] as usize, 2)
    } else {
        let n = (b[1] & 0x7f) as usize;
        if n == 0 || n > 4 || b.len() < 2 + n {
            return None;
        }
        (b[2..2 + n].iter().fold(0usize, |a, x| a << 8 | *x as usize), 2 + n)
    };
    if b.len() < h + l {
        return None;
    }
    Some((b[0], &b[h..h + l], &b[h + l..]))
}
pub fn children(b: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let mut r = vec![];
    let mut b = b;
    while !b.is_empty() {
        let (t, body, rest) = read(b)?;
        r.push((t, body.to_vec()));
        b = rest;
    }
    Some(r)
}
/// DER ECDSA-Sig-Value from two minimal big-endian numbers
pub fn ecdsa_sig(r: &[u8], s: &[u8]) -> Vec<u8> {
    seq(&[uint(r), uint(s)])
}
