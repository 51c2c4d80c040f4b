//! Authenticator data of a FIDO registration (WebAuthn 6.1, COSE keys of RFC 9053).
use crate::wire::be32;
use crate::Tri;

/// One CBOR integer.
pub fn int(v: i64) -> Vec<u8> {
    int_w(v, 0)
}
/// Same, with the argument in at least 2^(width-1) bytes (0: shortest).
pub fn int_w(v: i64, width: usize) -> Vec<u8> {
    let (maj, a) = if v < 0 { (1u8, !v as u64) } else { (0, v as u64) };
    head_w(maj, a, width)
}
pub fn head_w(maj: u8, a: u64, width: usize) -> Vec<u8> {
    let need = if a < 24 { 0 } else if a < 256 { 1 } else if a < 65536 { 2 } else if a < 1 << 32 { 3 } else { 4 };
    let m = maj << 5;
    match need.max(width) {
        0 => vec![m | a as u8],
        1 => vec![m | 24, a as u8],
        2 => [&[m | 25][..], &(a as u16).to_be_bytes()].concat(),
        3 => [&[m | 26][..], &(a as u32).to_be_bytes()].concat(),
        _ => [&[m | 27][..], &a.to_be_bytes()].concat(),
    }
}
pub fn cbytes(b: &[u8]) -> Vec<u8> {
    [head_w(2, b.len() as u64, 0), b.to_vec()].concat()
}
pub fn ctext(b: &str) -> Vec<u8> {
    [head_w(3, b.len() as u64, 0), b.as_bytes().to_vec()].concat()
}
pub fn map(entries: &[Vec<u8>]) -> Vec<u8> {
    [head_w(5, entries.len() as u64, 0), entries.concat()].concat()
}
pub fn okp(pk: &[u8]) -> Vec<Vec<u8>> {
    vec![[int(1), int(1)].concat(), [int(3), int(-8)].concat(), [int(-1), int(6)].concat(), [int(-2), cbytes(pk)].concat()]
}
/// pt: uncompressed point
pub fn ec2(pt: &[u8]) -> Vec<Vec<u8>> {
    let h = 1 + (pt.len() - 1) / 2;
    vec![[int(1), int(2)].concat(), [int(3), int(-7)].concat(), [int(-1), int(1)].concat(), [int(-2), cbytes(&pt[1..h])].concat(), [int(-3), cbytes(&pt[h..])].concat()]
}
pub fn auth_data(rpid: &[u8], flags: u8, count: u32, aaguid: &[u8], cred: &[u8], cose: &[u8]) -> Vec<u8> {
    [rpid, &[flags], &be32(count), aaguid, &(cred.len() as u16).to_be_bytes(), cred, cose].concat()
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cose {
    pub kty: i128,
    pub alg: i128,
    pub crv: Option<i128>,
    pub key: Vec<u8>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Auth {
    pub rpid: Vec<u8>,
    pub flags: u8,
    pub count: u32,
    pub aaguid: Vec<u8>,
    pub cred: Vec<u8>,
    /// None: not judged
    pub cose: Option<Cose>,
}
struct Cbor<'a> {
    b: &'a [u8],
    shortest: bool,
}
impl<'a> Cbor<'a> {
    /// (major type, argument), None for the end of the data and for indefinite or reserved lengths
    fn head(&mut self) -> Option<(u8, u64)> {
        let (f, rest) = self.b.split_first()?;
        let (maj, i) = (f >> 5, f & 31);
        let n = match i {
            0..=23 => {
                self.b = rest;
                return Some((maj, i as u64));
            }
            24 => 1,
            25 => 2,
            26 => 4,
            27 => 8,
            _ => return None,
        };
        if rest.len() < n {
            return None;
        }
        let a = rest[..n].iter().fold(0u64, |a, x| a << 8 | *x as u64);
        self.b = &rest[n..];
        self.shortest &= match n {
            1 => a >= 24,
            2 => a >= 256,
            4 => a >= 65536,
            _ => a >= 1 << 32,
        };
        Some((maj, a))
    }
    fn int(&mut self) -> Option<i128> {
        match self.head()? {
            (0, a) => Some(a as i128),
            (1, a) => Some(-1 - a as i128),
            _ => None,
        }
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        match self.head()? {
            (2, n) if n <= self.b.len() as u64 => {
                let (a, r) = self.b.split_at(n as usize);
                self.b = r;
                Some(a.to_vec())
            }
            _ => None,
        }
    }
}
pub fn parse(b: &[u8]) -> (Tri, Option<Auth>) {
    let no = (Tri::No, None);
    if b.len() < 55 {
        return no;
    }
    let n = u16::from_be_bytes([b[53], b[54]]) as usize;
    if b.len() < 55 + n || b[32] & 0x40 == 0 {
        return no;
    }
    let mut a = Auth { rpid: b[..32].to_vec(), flags: b[32], count: u32::from_be_bytes([b[33], b[34], b[35], b[36]]), aaguid: b[37..53].to_vec(), cred: b[55..55 + n].to_vec(), cose: None };
    let mut c = Cbor { b: &b[55 + n..], shortest: true };
    let len = match c.head() {
        Some((5, n)) => n,
        _ => return no,
    };
    let (mut kty, mut alg, mut crv, mut x, mut y) = (None, None, None, None, None);
    let mut twice = false;
    for _ in 0..len {
        let l = match c.int() {
            Some(l) => l,
            None => return no,
        };
        match l {
            1 | 3 | -1 => {
                let v = match c.int() {
                    Some(v) => v,
                    None => return no,
                };
                // a 64 bit number that large means nothing here
                if !(-(1i128 << 63)..1i128 << 63).contains(&v) {
                    return (Tri::May, Some(a));
                }
                twice |= match l {
                    1 => kty.replace(v),
                    3 => alg.replace(v),
                    _ => crv.replace(v),
                }
                .is_some();
            }
            -2 | -3 => {
                let v = match c.bytes() {
                    Some(v) => v,
                    None => return no,
                };
                twice |= if l == -2 { x.replace(v) } else { y.replace(v) }.is_some();
            }
            // other parameters, whose value may be anything
            _ => return (Tri::May, Some(a)),
        }
    }
    if twice {
        return (Tri::May, Some(a));
    }
    let (kty, alg, x) = match (kty, alg, x) {
        (Some(k), Some(a), Some(x)) => (k, a, x),
        _ => return (Tri::May, Some(a)),
    };
    let whole = match (kty, &y) {
        (1, None) => true,
        (2, Some(y)) if y.len() == x.len() => true,
        (2, None) if x.is_empty() => return (Tri::May, Some(a)),
        (2, _) => return no,
        _ => false,
    };
    let key = match (kty, y) {
        (2, Some(y)) => [&[4][..], &x, &y].concat(),
        _ => x,
    };
    let tail_ok = c.b.is_empty() || a.flags & 0x80 != 0;
    let t = if whole && crv.is_some() && c.shortest && tail_ok { Tri::Yes } else { Tri::May };
    a.cose = Some(Cose { kty, alg, crv, key });
    (t, Some(a))
}
/// The SSH key of a credential.
pub fn ssh_key(c: &Cose, app: &str) -> Option<crate::keys::Pub> {
    use crate::keys::Pub;
    match (c.alg, c.kty, c.crv, c.key.len()) {
        (-7, 2, Some(1), 65) => Some(Pub::SkEc { pt: c.key.clone(), app: app.into() }),
        (-8, 1, Some(6), 32) => Some(Pub::SkEd { pk: c.key.clone(), app: app.into() }),
        _ => None,
    }
}
