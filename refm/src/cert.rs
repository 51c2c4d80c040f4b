use crate::keys::{self, Priv, Pub};
use crate::wire::*;
use crate::Tri;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Cert {
    pub ty: String,
    pub nonce: Vec<u8>,
    pub key: Pub,
    pub serial: u64,
    pub cert_type: u32,
    pub key_id: String,
    pub principals: Vec<String>,
    pub valid_after: u64,
    pub valid_before: u64,
    pub critical: Vec<(String, String)>, // sorted by name
    pub extensions: Vec<(String, String)>,
    pub reserved: Vec<u8>,
    pub ca: Pub,
}
pub fn option_block(o: &[(String, String)]) -> Vec<u8> {
    let mut e = Enc::new();
    for (k, v) in o {
        e = e.str(k);
        e = if v.is_empty() { e.u32(0) } else { e.bytes(&string(v.as_bytes())) };
    }
    e.0
}
pub fn list_block(o: &[String]) -> Vec<u8> {
    let mut e = Enc::new();
    for k in o {
        e = e.str(k);
    }
    e.0
}
impl Cert {
    pub fn plain(key: Pub, ca: Pub) -> Cert {
        Cert {
            ty: keys::cert_name_of(key.type_name()).into(),
            nonce: (0..32).collect(),
            key,
            serial: 0x0102030405060708,
            cert_type: 1,
            key_id: "id".into(),
            principals: vec!["alice".into(), "bob".into()],
            valid_after: 100,
            valid_before: 0xffff_ffff_ffff_fffe,
            critical: vec![("force-command".into(), "/bin/true".into())],
            extensions: vec![("permit-X11-forwarding".into(), "".into()), ("permit-pty".into(), "".into())],
            reserved: vec![],
            ca,
        }
    }
    /// The fields in order, each encoded. Concatenated they are what the CA signs.
    pub fn fields(&self) -> Vec<(&'static str, Vec<u8>)> {
        vec![
            ("type", string(self.ty.as_bytes())),
            ("nonce", string(&self.nonce)),
            ("key", self.key.data()),
            ("serial", be64(self.serial)),
            ("cert_type", be32(self.cert_type)),
            ("key_id", string(self.key_id.as_bytes())),
            ("principals", string(&list_block(&self.principals))),
            ("valid_after", be64(self.valid_after)),
            ("valid_before", be64(self.valid_before)),
            ("critical", string(&option_block(&self.critical))),
            ("extensions", string(&option_block(&self.extensions))),
            ("reserved", string(&self.reserved)),
            ("ca", string(&self.ca.encode())),
        ]
    }
    pub fn tbs(&self) -> Vec<u8> {
        self.fields().into_iter().flat_map(|(_, b)| b).collect()
    }
    pub fn issue(&self, ca: &Priv) -> Vec<u8> {
        let tbs = self.tbs();
        sealed(&tbs, &ca.sign(&tbs))
    }
}
pub fn sealed(tbs: &[u8], sig: &[u8]) -> Vec<u8> {
    Enc::new().raw(tbs).bytes(sig).0
}
/// Parsed certificate and its signature, and whether acceptance is required (Yes) or optional (May).
pub enum Parsed {
    Reject(&'static str),
    Ok { cert: Cert, sig: Vec<u8>, tbs_len: usize, must: bool },
}
fn options(b: &[u8]) -> Result<(Vec<(String, String)>, bool), ()> {
    let mut d = Dec::new(b);
    let mut v: Vec<(String, String)> = vec![];
    let mut must = true;
    while !d.done() {
        let name = d.utf8().ok_or(())?;
        let data = d.bytes().ok_or(())?;
        let val = if data.is_empty() {
            String::new()
        } else {
            let mut i = Dec::new(data);
            let s = i.utf8().ok_or(())?;
            if !i.done() {
                return Err(());
            }
            s
        };
        if v.iter().any(|(n, _)| *n == name) {
            return Err(());
        }
        if v.last().map(|(n, _)| n.as_bytes() > name.as_bytes()).unwrap_or(false) {
            must = false; // not in lexical order
        }
        v.push((name, val));
    }
    v.sort();
    Ok((v, must))
}
pub fn parse(b: &[u8]) -> Parsed {
    let mut d = Dec::new(b);
    let mut must = true;
    macro_rules! need {
        ($e:expr, $w:expr) => {
            match $e {
                Some(v) => v,
                None => return Parsed::Reject($w),
            }
        };
    }
    let ty = need!(d.utf8(), "type");
    let kt = need!(keys::key_name_of_cert(&ty), "not a certificate type");
    let nonce = need!(d.bytes(), "nonce").to_vec();
    let key = need!(Pub::decode_data(kt, &mut d), "subject key");
    if !key.well_sized() {
        must = false;
    }
    let serial = need!(d.u64(), "serial");
    let cert_type = need!(d.u32(), "cert type");
    if cert_type != 1 && cert_type != 2 {
        return Parsed::Reject("cert type value");
    }
    let key_id = need!(d.utf8(), "key id");
    let pb = need!(d.bytes(), "principals");
    let mut pd = Dec::new(pb);
    let mut principals = vec![];
    while !pd.done() {
        principals.push(need!(pd.utf8(), "principal"));
    }
    let valid_after = need!(d.u64(), "valid after");
    let valid_before = need!(d.u64(), "valid before");
    let (critical, m1) = match options(need!(d.bytes(), "critical")) {
        Ok(x) => x,
        Err(_) => return Parsed::Reject("critical options"),
    };
    let (extensions, m2) = match options(need!(d.bytes(), "extensions")) {
        Ok(x) => x,
        Err(_) => return Parsed::Reject("extensions"),
    };
    let reserved = need!(d.bytes(), "reserved").to_vec();
    must &= m1 && m2 && reserved.is_empty();
    let cab = need!(d.bytes(), "CA");
    let (ca, exact) = match Pub::decode(cab) {
        Some(x) => x,
        None => {
            // an RSA key under the name of an RSA signature algorithm: nobody should, some do
            let mut t = Dec::new(cab);
            let n = t.utf8();
            if n.as_deref().map(|n| keys::SIG_ONLY.contains(&n)).unwrap_or(false) {
                match Pub::decode_data("ssh-rsa", &mut t) {
                    Some(k) => (k, false),
                    None => return Parsed::Reject("CA key"),
                }
            } else {
                return Parsed::Reject("CA key");
            }
        }
    };
    if !exact && Pub::decode(cab).is_some() {
        return Parsed::Reject("data after the CA key");
    }
    must &= exact && ca.well_sized();
    let tbs_len = d.off;
    let sig = need!(d.bytes(), "signature").to_vec();
    if !d.done() {
        return Parsed::Reject("trailing bytes");
    }
    Parsed::Ok {
        cert: Cert { ty, nonce, key, serial, cert_type, key_id, principals, valid_after, valid_before, critical, extensions, reserved, ca },
        sig,
        tbs_len,
        must,
    }
}
/// What a certificate parser must do with these bytes.
pub fn judge(b: &[u8]) -> (Tri, Option<Cert>, Vec<u8>, &'static str) {
    match parse(b) {
        Parsed::Reject(w) => (Tri::No, None, vec![], w),
        Parsed::Ok { cert, sig, tbs_len, must } => {
            let v = keys::verify(&cert.ca, &sig, &b[..tbs_len]);
            let t = match (v, must) {
                (Tri::No, _) => Tri::No,
                (Tri::Yes, true) => Tri::Yes,
                _ => Tri::May,
            };
            (t, Some(cert), sig, if t == Tri::No { "signature" } else { "valid" })
        }
    }
}
