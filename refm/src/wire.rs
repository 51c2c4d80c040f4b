//! SSH wire encoding, written from RFC 4251.
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Enc(pub Vec<u8>);

pub fn be32(v: u32) -> Vec<u8> {
    vec![(v >> 24) as u8, (v >> 16) as u8, (v >> 8) as u8, v as u8]
}
pub fn be64(v: u64) -> Vec<u8> {
    (0..8).map(|i| (v >> (56 - 8 * i)) as u8).collect()
}
/// string: length and content
pub fn string(b: &[u8]) -> Vec<u8> {
    let mut v = be32(b.len() as u32);
    v.extend_from_slice(b);
    v
}
/// content of the mpint for a non-negative big-endian number
pub fn mpint_body(b: &[u8]) -> Vec<u8> {
    let mut i = 0;
    while i < b.len() && b[i] == 0 {
        i += 1;
    }
    let mut v = vec![];
    if i < b.len() && b[i] >= 0x80 {
        v.push(0);
    }
    v.extend_from_slice(&b[i..]);
    v
}
pub fn mpint(b: &[u8]) -> Vec<u8> {
    string(&mpint_body(b))
}
pub fn strip0(b: &[u8]) -> Vec<u8> {
    let i = b.iter().position(|x| *x != 0).unwrap_or(b.len());
    b[i..].to_vec()
}

impl Enc {
    pub fn new() -> Enc {
        Enc(vec![])
    }
    pub fn raw(mut self, b: &[u8]) -> Enc {
        self.0.extend_from_slice(b);
        self
    }
    pub fn u8(self, v: u8) -> Enc {
        self.raw(&[v])
    }
    pub fn u32(self, v: u32) -> Enc {
        self.raw(&be32(v))
    }
    pub fn u64(self, v: u64) -> Enc {
        self.raw(&be64(v))
    }
    pub fn bytes(self, b: &[u8]) -> Enc {
        self.raw(&string(b))
    }
    pub fn str(self, s: &str) -> Enc {
        self.raw(&string(s.as_bytes()))
    }
    pub fn mpint(self, b: &[u8]) -> Enc {
        self.raw(&mpint(b))
    }
}

/// Reading: every function returns None without moving if the bytes are not there.
#[derive(Clone, Debug)]
pub struct Dec<'a> {
    pub b: &'a [u8],
    pub off: usize,
}
impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Dec<'a> {
        Dec { b, off: 0 }
    }
    pub fn rest(&self) -> &'a [u8] {
        if self.off > self.b.len() {
            &[]
        } else {
            &self.b[self.off..]
        }
    }
    pub fn done(&self) -> bool {
        self.off >= self.b.len()
    }
    pub fn raw(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.rest();
        if r.len() < n {
            return None;
        }
        self.off += n;
        Some(&r[..n])
    }
    pub fn u8(&mut self) -> Option<u8> {
        self.raw(1).map(|b| b[0])
    }
    pub fn u32(&mut self) -> Option<u32> {
        let b = self.raw(4)?;
        Some(b.iter().fold(0u32, |a, x| (a << 8) | *x as u32))
    }
    pub fn u64(&mut self) -> Option<u64> {
        let b = self.raw(8)?;
        Some(b.iter().fold(0u64, |a, x| (a << 8) | *x as u64))
    }
    pub fn bytes(&mut self) -> Option<&'a [u8]> {
        let save = self.off;
        let n = self.u32()?;
        match self.raw(n as usize) {
            Some(b) => Some(b),
            None => {
                self.off = save;
                None
            }
        }
    }
    /// Ok(None): not there. Err: there but not UTF-8.
    pub fn str(&mut self) -> Option<Result<String, ()>> {
        let b = self.bytes()?;
        Some(std::str::from_utf8(b).map(|s| s.to_string()).map_err(|_| ()))
    }
    pub fn utf8(&mut self) -> Option<String> {
        self.str()?.ok()
    }
    /// canonical non-negative mpint, as the number's minimal big-endian bytes
    pub fn mpint(&mut self) -> Option<Result<Vec<u8>, ()>> {
        let b = self.bytes()?;
        Some(canon_mpint(b))
    }
    pub fn cmpint(&mut self) -> Option<Vec<u8>> {
        self.mpint()?.ok()
    }
}
pub fn canon_mpint(b: &[u8]) -> Result<Vec<u8>, ()> {
    if b.is_empty() {
        return Ok(vec![]);
    }
    if b[0] >= 0x80 {
        return Err(());
    }
    if b[0] == 0 {
        if b.len() < 2 || b[1] < 0x80 {
            return Err(());
        }
        return Ok(b[1..].to_vec());
    }
    Ok(b.to_vec())
}
