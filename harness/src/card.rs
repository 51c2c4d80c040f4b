//! A smart card service (PC/SC) and PIV cards in software: the SCard* symbols are defined here, so the
//! yubikey crate talks to these cards. One world per thread. Every call into the service is a point
//! where a fault can be put.
use des::cipher::{generic_array::GenericArray, BlockDecrypt, BlockEncrypt, KeyInit};
use num_bigint::BigUint;
use refm::der;
use refm::ec::{self, C};
use refm::keys::{self, Priv, Pub};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::os::raw::{c_char, c_long, c_ulong, c_void};
use std::sync::{Mutex, OnceLock};

pub const OK: c_long = 0;
pub const INVALID_HANDLE: c_long = 0x8010_0003;
pub const SMALL: c_long = 0x8010_0008;
pub const UNKNOWN_READER: c_long = 0x8010_0009;
pub const TIMEOUT: c_long = 0x8010_000A;
pub const SHARING: c_long = 0x8010_000B;
pub const NO_CARD: c_long = 0x8010_000C;
pub const COMM: c_long = 0x8010_0013;
pub const NO_SERVICE: c_long = 0x8010_001D;
pub const NO_READERS: c_long = 0x8010_002E;
pub const RESET: c_long = 0x8010_0068;
pub const REMOVED: c_long = 0x8010_0069;

#[derive(Clone, Debug)]
pub struct Key {
    pub sk: Priv,
    /// 1 never, 2 once, 3 always
    pub pin: u8,
    pub touch: u8,
    pub generated: bool,
}
#[derive(Clone, Debug)]
pub struct Card {
    pub serial: u32,
    pub version: [u8; 3],
    pub keys: BTreeMap<u8, Key>,
    pub objects: BTreeMap<u32, Vec<u8>>,
    pub pin: Vec<u8>,
    pub tries: u8,
    pub mgm: [u8; 24],
    // session
    pub selected: u8,
    pub pin_ok: bool,
    pub pin_fresh: bool,
    pub mgm_ok: bool,
    witness: Option<[u8; 8]>,
    chain: Vec<u8>,
    /// header of the command being chained
    chain_of: [u8; 3],
    out: Vec<u8>,
    /// how many keys this card has made; the next one is key number base + made
    pub base: u8,
    pub made: u8,
    pub signatures: usize,
    /// successful PIN checks and management key authentications so far
    pub verified: usize,
    pub authenticated: usize,
}
fn alg_of(k: &Priv) -> u8 {
    match k {
        Priv::Ec { c: C::P256, .. } => 0x11,
        Priv::Ec { .. } => 0x14,
        Priv::Rsa(r) if r.n.len() == 128 => 6,
        _ => 7,
    }
}
/// Object that holds a slot's certificate (NIST SP 800-73-4, and Yubico's for the attestation slot).
pub fn object_of(slot: u8) -> Option<u32> {
    Some(match slot {
        0x9a => 0x5fc105,
        0x9c => 0x5fc10a,
        0x9d => 0x5fc10b,
        0x9e => 0x5fc101,
        0x82..=0x95 => 0x5fc10d + (slot - 0x82) as u32,
        0xf9 => 0x5fff01,
        _ => return None,
    })
}
fn default_pin(slot: u8) -> u8 {
    match slot {
        0x9c => 3,
        0x9e => 1,
        _ => 2,
    }
}
/// A nonce's r and inverse, once.
fn nonce(c: C, n: u8) -> (BigUint, BigUint) {
    static M: OnceLock<Mutex<HashMap<(C, u8), (BigUint, BigUint)>>> = OnceLock::new();
    let m = M.get_or_init(|| Mutex::new(HashMap::new()));
    let mut m = match m.lock() {
        Ok(m) => m,
        Err(e) => e.into_inner(),
    };
    m.entry((c, n))
        .or_insert_with(|| {
            let q = ec::params(c);
            let k = BigUint::from_bytes_be(&keys::scalar(n.wrapping_add(200), c.len()));
            let (x, _) = ec::Pt::g(c).mul(&k, c).xy(c);
            (x % &q.n, ec::inv(&k, &q.n))
        })
        .clone()
}
pub fn ecdsa(c: C, d: &[u8], digest: &[u8], n: u8) -> Vec<u8> {
    let q = ec::params(c);
    let (r, ki) = nonce(c, n);
    let s = ki * (ec::hash_num(digest, c) + &r * BigUint::from_bytes_be(d)) % &q.n;
    der::ecdsa_sig(&r.to_bytes_be(), &s.to_bytes_be())
}
fn tlvs(mut b: &[u8]) -> Option<Vec<(u8, Vec<u8>)>> {
    let mut v = vec![];
    while !b.is_empty() {
        let (t, body, rest) = der::read(b)?;
        v.push((t, body.to_vec()));
        b = rest;
    }
    Some(v)
}
impl Card {
    pub fn new(serial: u32, base: u8) -> Card {
        Card {
            serial,
            version: [5, 4, 3],
            keys: BTreeMap::new(),
            objects: BTreeMap::new(),
            pin: b"123456".to_vec(),
            tries: 3,
            mgm: MGM,
            selected: 0,
            pin_ok: false,
            pin_fresh: false,
            mgm_ok: false,
            witness: None,
            chain: vec![],
            chain_of: [0; 3],
            out: vec![],
            base,
            made: 0,
            signatures: 0,
            verified: 0,
            authenticated: 0,
        }
    }
    pub fn put(&mut self, slot: u8, sk: Priv, cn: &str, pin: u8) {
        let cert = cert_for(&sk, cn);
        self.keys.insert(slot, Key { sk, pin, touch: 1, generated: true });
        if let Some(o) = object_of(slot) {
            self.objects.insert(o, cert_object(&cert));
        }
    }
    pub fn next_key(&self, alg: u8) -> Option<Priv> {
        let n = self.base.wrapping_add(self.made);
        Some(match alg {
            0x11 => Priv::Ec { c: C::P256, d: keys::scalar(n, 32) },
            0x14 => Priv::Ec { c: C::P384, d: keys::scalar(n, 48) },
            6 => Priv::Rsa(keys::rsa("1024")),
            7 => Priv::Rsa(keys::rsa(if self.made % 2 == 0 { "2048" } else { "2048e3" })),
            _ => return None,
        })
    }
    pub fn attestation(&self, slot: u8) -> Option<Vec<u8>> {
        let k = self.keys.get(&slot)?;
        if !k.generated {
            return None;
        }
        Some(attestation(&k.sk, self.serial, slot, k.pin, k.touch))
    }
    /// Power-on state.
    pub fn reset(&mut self) {
        self.selected = 0;
        self.pin_ok = false;
        self.pin_fresh = false;
        self.mgm_ok = false;
        self.witness = None;
        self.chain.clear();
        self.out.clear();
    }
    fn des(&self, b: &[u8], decrypt: bool) -> [u8; 8] {
        let c = des::TdesEde3::new(GenericArray::from_slice(&self.mgm));
        let mut x = [0; 8];
        x.copy_from_slice(&b[..8]);
        let g = GenericArray::from_mut_slice(&mut x);
        if decrypt {
            c.decrypt_block(g)
        } else {
            c.encrypt_block(g)
        }
        x
    }
    /// One command, chaining and long answers included.
    pub fn apdu(&mut self, a: &[u8]) -> Vec<u8> {
        if a.len() < 5 || a.len() != 5 + a[4] as usize {
            return sw(0x6700);
        }
        if a[1] == 0xc0 {
            return self.more();
        }
        self.out.clear();
        // another command ends an unfinished chain
        if self.chain_of != a[1..4] {
            self.chain.clear();
            self.chain_of.copy_from_slice(&a[1..4]);
        }
        if a[0] & 0x10 != 0 {
            self.chain.extend_from_slice(&a[5..]);
            return sw(0x9000);
        }
        let mut data = std::mem::take(&mut self.chain);
        data.extend_from_slice(&a[5..]);
        match self.run(a[1], a[2], a[3], &data) {
            Ok(o) => {
                self.out = o;
                self.more()
            }
            Err(s) => sw(s),
        }
    }
    fn more(&mut self) -> Vec<u8> {
        let n = self.out.len().min(256);
        let mut r: Vec<u8> = self.out.drain(..n).collect();
        r.extend(if self.out.is_empty() { sw(0x9000) } else { sw(0x6100 | (self.out.len().min(255)) as u16) });
        r
    }
    fn run(&mut self, ins: u8, p1: u8, p2: u8, d: &[u8]) -> Result<Vec<u8>, u16> {
        if ins == 0xa4 {
            self.pin_ok = false;
            self.pin_fresh = false;
            self.mgm_ok = false;
            self.selected = match d {
                [0xa0, 0, 0, 3, 8] => 1,
                [0xa0, 0, 0, 5, 0x27, 0x20, 1, 1] => 2,
                _ => return Err(0x6a82),
            };
            return Ok(vec![0x61, 0]);
        }
        if self.selected == 2 {
            return if ins == 1 && p1 == 0x10 { Ok(self.serial.to_be_bytes().to_vec()) } else { Err(0x6d00) };
        }
        if self.selected != 1 {
            return Err(0x6d00);
        }
        match ins {
            0xfd => Ok(self.version.to_vec()),
            0xf8 if self.version[0] >= 5 => Ok(self.serial.to_be_bytes().to_vec()),
            0x20 => {
                if p2 != 0x80 {
                    return Err(0x6a88);
                }
                if d.is_empty() {
                    self.verified += self.pin_ok as usize;
                    return if self.pin_ok { Ok(vec![]) } else { Err(0x63c0 | self.tries as u16) };
                }
                if d.len() != 8 {
                    return Err(0x6a80);
                }
                if self.tries == 0 {
                    return Err(0x6983);
                }
                let mut p = self.pin.clone();
                p.resize(8, 0xff);
                if p == d {
                    self.tries = 3;
                    self.verified += 1;
                    self.pin_ok = true;
                    self.pin_fresh = true;
                    Ok(vec![])
                } else {
                    self.tries -= 1;
                    self.pin_ok = false;
                    self.pin_fresh = false;
                    if self.tries == 0 {
                        Err(0x6983)
                    } else {
                        Err(0x63c0 | self.tries as u16)
                    }
                }
            }
            0x87 if p2 == 0x9b => {
                if p1 != 3 {
                    return Err(0x6a80);
                }
                let t = tlvs(d).ok_or(0x6a80u16)?;
                let t = match t.first() {
                    Some((0x7c, b)) => tlvs(b).ok_or(0x6a80u16)?,
                    _ => return Err(0x6a80),
                };
                match &t[..] {
                    [(0x80, e)] if e.is_empty() => {
                        let w = [9, 8, 7, 6, 5, 4, 3, 2];
                        self.witness = Some(w);
                        Ok(der::tlv(0x7c, &der::tlv(0x80, &self.des(&w, false))))
                    }
                    [(0x80, r), (0x81, c)] if r.len() == 8 && c.len() == 8 => {
                        if self.witness.take().map(|w| w.to_vec()) != Some(r.clone()) {
                            return Err(0x6982);
                        }
                        self.mgm_ok = true;
                        self.authenticated += 1;
                        Ok(der::tlv(0x7c, &der::tlv(0x82, &self.des(c, false))))
                    }
                    _ => Err(0x6a80),
                }
            }
            0x87 => {
                let t = tlvs(d).ok_or(0x6a80u16)?;
                let t = match t.first() {
                    Some((0x7c, b)) => tlvs(b).ok_or(0x6a80u16)?,
                    _ => return Err(0x6a80),
                };
                let m = t.iter().find(|x| x.0 == 0x81).ok_or(0x6a80u16)?.1.clone();
                let fresh = std::mem::replace(&mut self.pin_fresh, false);
                let k = self.keys.get(&p2).ok_or(0x6a80u16)?;
                if alg_of(&k.sk) != p1 {
                    return Err(0x6a80);
                }
                if k.pin == 2 && !self.pin_ok || k.pin == 3 && !fresh {
                    return Err(0x6982);
                }
                let s = match &k.sk {
                    Priv::Ec { c, d } => ecdsa(*c, d, &m, (self.signatures % 7) as u8),
                    Priv::Rsa(r) => r.raw_sign(&m),
                    _ => return Err(0x6a80),
                };
                self.signatures += 1;
                Ok(der::tlv(0x7c, &der::tlv(0x82, &s)))
            }
            0xcb => {
                let o = match d {
                    [0x5c, 3, a, b, c] => (*a as u32) << 16 | (*b as u32) << 8 | *c as u32,
                    _ => return Err(0x6a80),
                };
                if p1 != 0x3f || p2 != 0xff {
                    return Err(0x6b00);
                }
                let v = self.objects.get(&o).ok_or(0x6a82u16)?;
                Ok(der::tlv(0x53, v))
            }
            0xdb => {
                if !self.mgm_ok {
                    return Err(0x6982);
                }
                let t = tlvs(d).ok_or(0x6a80u16)?;
                match &t[..] {
                    [(0x5c, o), (0x53, v)] if o.len() == 3 => {
                        let o = (o[0] as u32) << 16 | (o[1] as u32) << 8 | o[2] as u32;
                        if v.is_empty() {
                            self.objects.remove(&o);
                        } else {
                            self.objects.insert(o, v.clone());
                        }
                        Ok(vec![])
                    }
                    _ => Err(0x6a80),
                }
            }
            0x47 => {
                if !self.mgm_ok {
                    return Err(0x6982);
                }
                if object_of(p2).is_none() {
                    return Err(0x6b00);
                }
                let t = tlvs(d).ok_or(0x6a80u16)?;
                let t = match t.first() {
                    Some((0xac, b)) => tlvs(b).ok_or(0x6a80u16)?,
                    _ => return Err(0x6a80),
                };
                let get = |tag: u8| t.iter().find(|x| x.0 == tag).and_then(|x| x.1.first().copied());
                let sk = get(0x80).and_then(|a| self.next_key(a)).ok_or(0x6a80u16)?;
                self.made = self.made.wrapping_add(1);
                let public = sk.public();
                self.keys.insert(p2, Key { sk, pin: get(0xaa).unwrap_or(default_pin(p2)), touch: get(0xab).unwrap_or(1), generated: true });
                let body = match public {
                    Pub::Ec { pt, .. } => der::tlv(0x86, &pt),
                    Pub::Rsa { e, n } => [der::tlv(0x81, &n), der::tlv(0x82, &e)].concat(),
                    _ => vec![],
                };
                let mut r = vec![0x7f];
                r.extend(der::tlv(0x49, &body));
                Ok(r)
            }
            0xf9 => self.attestation(p1).ok_or(0x6a80),
            _ => Err(0x6d00),
        }
    }
}
fn sw(s: u16) -> Vec<u8> {
    s.to_be_bytes().to_vec()
}
pub const MGM: [u8; 24] = [1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 3, 4, 5, 6, 7, 8, 1, 2, 3, 4, 5, 6, 7, 8];
type Certs = HashMap<(Vec<u8>, String, u32), Vec<u8>>;
fn cached(k: (Vec<u8>, String, u32), f: impl FnOnce() -> Vec<u8>) -> Vec<u8> {
    static M: OnceLock<Mutex<Certs>> = OnceLock::new();
    let m = M.get_or_init(|| Mutex::new(HashMap::new()));
    let get = |m: &Mutex<Certs>| m.lock().map(|m| m.get(&k).cloned()).ok().flatten();
    if let Some(v) = get(m) {
        return v;
    }
    let v = crate::interpose::off_record(f);
    match m.lock() {
        Ok(mut m) => m.entry(k).or_insert(v).clone(),
        Err(_) => v,
    }
}
/// The certificate of a key.
pub fn cert_for(sk: &Priv, cn: &str) -> Vec<u8> {
    let p = sk.public();
    cached((p.encode(), cn.to_string(), 0), || refm::x509::Tbs::new(cn, cn, &p, sk, vec![]).sign(sk))
}
fn attestation(sk: &Priv, serial: u32, slot: u8, pin: u8, touch: u8) -> Vec<u8> {
    let p = sk.public();
    cached((p.encode(), format!("attestation {} {} {}", slot, pin, touch), serial), || {
        let ca = Priv::Ec { c: C::P256, d: keys::scalar(250, 32) };
        let exts = vec![refm::x509::ext(crate::checks::c18::SERIAL, false, &der::uint(&serial.to_be_bytes())), refm::x509::ext(crate::checks::c18::POLICY, false, &[pin, touch])];
        refm::x509::Tbs::new("card", &format!("slot {:x}", slot), &p, &ca, exts).sign(&ca)
    })
}
pub fn cert_object(cert: &[u8]) -> Vec<u8> {
    [der::tlv(0x70, cert), vec![0x71, 1, 0, 0xfe, 0]].concat()
}

// ------------------------------------------------------------------ the service
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// the call fails with this code and does nothing
    Code(c_long),
    /// the call does its work, then fails with this code
    After(c_long),
    /// the card answers with these status words and does nothing
    Status(u16),
    /// the card does its work and answers with these status words
    StatusAfter(u16),
    /// the card was reset (by someone else) just before
    CardReset,
    /// the card is pulled out and stays out
    Pulled,
    /// the card is pulled out and put back in: handles are stale
    Bounced,
    /// the service goes away for good
    ServiceGone,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Call {
    Establish,
    Valid,
    List,
    Connect,
    Reconnect,
    Begin,
    End,
    Disconnect,
    Transmit,
}
#[derive(Clone, Debug)]
struct Handle {
    reader: usize,
    /// what the next call on it gets
    event: Option<c_long>,
    gone: bool,
}
#[derive(Clone, Debug, Default)]
pub struct World {
    pub readers: Vec<(String, Option<Card>)>,
    contexts: Vec<bool>,
    handles: Vec<Handle>,
    pub calls: Vec<Call>,
    /// at the n-th call from the start of `calls`
    pub fault: Option<(usize, Fault)>,
    /// calls that were told of trouble which is not of the caller's making
    pub trouble: usize,
    service_gone: bool,
    /// readers whose card is pulled out
    pub out: Vec<usize>,
    /// a reader goes with its card, as with a YubiKey; else it stays, empty
    plugs: bool,
}
impl World {
    pub fn cards(cards: Vec<Option<Card>>) -> World {
        World { readers: cards.into_iter().enumerate().map(|(i, c)| (format!("Yubico YubiKey {:02}", i), c)).collect(), ..World::default() }
    }
    pub fn plugs(mut self) -> World {
        self.plugs = true;
        self
    }
    pub fn present(&self, r: usize) -> bool {
        self.readers[r].1.is_some() && !self.out.contains(&r)
    }
    /// Someone else resets the card.
    pub fn bump(&mut self, r: usize) {
        self.reset_card(r, None);
    }
    /// The card leaves the reader; it may come back at once.
    pub fn pull(&mut self, r: usize, back: bool) {
        self.reset_card(r, None);
        for h in self.handles.iter_mut().filter(|h| h.reader == r) {
            h.event = Some(REMOVED);
        }
        self.out.retain(|x| *x != r);
        if !back {
            self.out.push(r);
        }
    }
    fn reset_card(&mut self, reader: usize, but: Option<usize>) {
        if let Some(Some(c)) = self.readers.get_mut(reader).map(|r| r.1.as_mut()) {
            c.reset();
        }
        for (i, h) in self.handles.iter_mut().enumerate() {
            if h.reader == reader && Some(i) != but && !h.gone {
                h.event = Some(RESET);
            }
        }
    }
    /// The trouble, if any, at this call; for Transmit, status faults are left to the caller.
    fn enter(&mut self, c: Call, reader: Option<usize>) -> (Option<c_long>, Option<Fault>) {
        let n = self.calls.len();
        self.calls.push(c);
        if self.service_gone {
            self.trouble += 1;
            return (Some(NO_SERVICE), None);
        }
        let f = match self.fault {
            Some((at, f)) if at == n => f,
            _ => return (None, None),
        };
        self.trouble += 1;
        match f {
            Fault::Code(c) => (Some(c), None),
            Fault::ServiceGone => {
                self.service_gone = true;
                (Some(NO_SERVICE), None)
            }
            Fault::CardReset => {
                if let Some(r) = reader {
                    self.reset_card(r, None);
                }
                (None, None)
            }
            Fault::Pulled | Fault::Bounced => {
                if let Some(r) = reader {
                    self.pull(r, f == Fault::Bounced);
                }
                (None, None)
            }
            f => (None, Some(f)),
        }
    }
    fn handle(&mut self, h: c_long) -> Result<usize, c_long> {
        let i = (h - 1000) as usize;
        match self.handles.get(i) {
            Some(x) if !x.gone && h >= 1000 => Ok(i),
            _ => Err(INVALID_HANDLE),
        }
    }
    fn usable(&mut self, i: usize) -> Result<(), c_long> {
        if let Some(e) = self.handles[i].event {
            self.trouble += 1;
            // a reset is told again and again until the caller reconnects
            return Err(e);
        }
        Ok(())
    }
}
thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
}
pub fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}
fn serve(f: impl FnOnce(&mut World) -> Result<(), c_long>) -> c_long {
    WORLD
        .try_with(|w| match w.try_borrow_mut() {
            Ok(mut w) => f(&mut w).err().unwrap_or(OK),
            Err(_) => NO_SERVICE,
        })
        .unwrap_or(NO_SERVICE)
}
fn simple(w: &mut World, c: Call, reader: Option<usize>) -> Result<Option<c_long>, c_long> {
    match w.enter(c, reader) {
        (Some(e), _) => Err(e),
        (None, Some(Fault::After(e))) => Ok(Some(e)),
        _ => Ok(None),
    }
}
fn after(e: Option<c_long>) -> Result<(), c_long> {
    match e {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
#[no_mangle]
pub unsafe extern "C" fn SCardEstablishContext(_: c_ulong, _: *const c_void, _: *const c_void, out: *mut c_long) -> c_long {
    serve(|w| {
        let e = simple(w, Call::Establish, None)?;
        after(e)?;
        w.contexts.push(true);
        *out = w.contexts.len() as c_long;
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardReleaseContext(c: c_long) -> c_long {
    serve(|w| {
        match w.contexts.get_mut((c - 1) as usize) {
            Some(x) if *x => *x = false,
            _ => return Err(INVALID_HANDLE),
        }
        Ok(())
    })
}
fn context(w: &World, c: c_long) -> Result<(), c_long> {
    match w.contexts.get((c - 1) as usize) {
        Some(true) => Ok(()),
        _ => Err(INVALID_HANDLE),
    }
}
#[no_mangle]
pub unsafe extern "C" fn SCardIsValidContext(c: c_long) -> c_long {
    serve(|w| {
        context(w, c)?;
        let e = simple(w, Call::Valid, None)?;
        after(e)
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardListReaders(c: c_long, _: *const c_char, out: *mut c_char, len: *mut c_ulong) -> c_long {
    serve(|w| {
        context(w, c)?;
        let e = simple(w, Call::List, None)?;
        after(e)?;
        let listed: Vec<_> = w.readers.iter().enumerate().filter(|(i, _)| !(w.plugs && w.out.contains(i))).map(|(_, r)| r).collect();
        if listed.is_empty() {
            return Err(NO_READERS);
        }
        let mut v = vec![];
        for r in listed {
            v.extend_from_slice(r.0.as_bytes());
            v.push(0);
        }
        v.push(0);
        if !out.is_null() {
            if (*len as usize) < v.len() {
                *len = v.len() as c_ulong;
                return Err(SMALL);
            }
            std::ptr::copy_nonoverlapping(v.as_ptr(), out as *mut u8, v.len());
        }
        *len = v.len() as c_ulong;
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardConnect(c: c_long, reader: *const c_char, _: c_ulong, _: c_ulong, out: *mut c_long, proto: *mut c_ulong) -> c_long {
    let name = std::ffi::CStr::from_ptr(reader).to_string_lossy().to_string();
    serve(|w| {
        context(w, c)?;
        let r = w.readers.iter().position(|r| r.0 == name);
        let e = simple(w, Call::Connect, r)?;
        let r = r.ok_or(UNKNOWN_READER)?;
        if !w.present(r) {
            return Err(if w.plugs && w.out.contains(&r) { UNKNOWN_READER } else { NO_CARD });
        }
        after(e)?;
        w.handles.push(Handle { reader: r, event: None, gone: false });
        *out = 1000 + (w.handles.len() - 1) as c_long;
        *proto = 2;
        Ok(())
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardReconnect(h: c_long, _: c_ulong, _: c_ulong, how: c_ulong, proto: *mut c_ulong) -> c_long {
    serve(|w| {
        let i = w.handle(h)?;
        let r = w.handles[i].reader;
        let e = simple(w, Call::Reconnect, Some(r))?;
        if !w.present(r) {
            w.trouble += 1;
            return Err(NO_CARD);
        }
        if w.handles[i].event == Some(REMOVED) {
            return Err(REMOVED);
        }
        w.handles[i].event = None;
        if how != 0 {
            w.reset_card(r, Some(i));
        }
        *proto = 2;
        after(e)
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardDisconnect(h: c_long, how: c_ulong) -> c_long {
    serve(|w| {
        let i = w.handle(h)?;
        let r = w.handles[i].reader;
        let trouble = w.trouble;
        let x = w.enter(Call::Disconnect, Some(r));
        // nobody can act on an error here, unless the card or the service is gone
        if matches!(w.fault, Some((_, Fault::Code(_) | Fault::After(_)))) && !w.service_gone {
            w.trouble = trouble;
        }
        w.handles[i].gone = true;
        // a YubiKey is its own reader: a handle from before it was pulled out reaches nothing
        if how != 0 && x.0.is_none() && w.handles[i].event != Some(REMOVED) {
            w.reset_card(r, Some(i));
        }
        x.0.map_or(Ok(()), Err)
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardBeginTransaction(h: c_long) -> c_long {
    serve(|w| {
        let i = w.handle(h)?;
        let r = w.handles[i].reader;
        let e = simple(w, Call::Begin, Some(r))?;
        w.usable(i)?;
        after(e)
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardEndTransaction(h: c_long, how: c_ulong) -> c_long {
    serve(|w| {
        let i = w.handle(h)?;
        let r = w.handles[i].reader;
        let x = w.enter(Call::End, Some(r));
        w.usable(i)?;
        if how != 0 {
            w.reset_card(r, Some(i));
        }
        x.0.map_or(Ok(()), Err)
    })
}
#[no_mangle]
pub unsafe extern "C" fn SCardTransmit(h: c_long, _: *const c_void, send: *const u8, n: c_ulong, _: *mut c_void, out: *mut u8, len: *mut c_ulong) -> c_long {
    let cmd = std::slice::from_raw_parts(send, n as usize).to_vec();
    serve(|w| {
        let i = w.handle(h)?;
        let r = w.handles[i].reader;
        let (e, f) = w.enter(Call::Transmit, Some(r));
        if e.is_some() || f.is_some() {
            // a broken exchange ends a chain
            if let Some(c) = w.readers[r].1.as_mut() {
                c.chain.clear();
            }
        }
        after(e)?;
        w.usable(i)?;
        if !w.present(r) {
            return Err(REMOVED);
        }
        let card = match w.readers[r].1.as_mut() {
            Some(c) => c,
            None => return Err(REMOVED),
        };
        let a = match f {
            Some(Fault::Status(s)) => {
                card.chain.clear();
                sw(s)
            }
            Some(Fault::StatusAfter(s)) => {
                card.apdu(&cmd);
                card.out.clear();
                card.chain.clear();
                sw(s)
            }
            Some(Fault::After(e)) => {
                card.apdu(&cmd);
                card.chain.clear();
                return Err(e);
            }
            _ => card.apdu(&cmd),
        };
        if a.len() > *len as usize {
            return Err(SMALL);
        }
        std::ptr::copy_nonoverlapping(a.as_ptr(), out, a.len());
        *len = a.len() as c_ulong;
        Ok(())
    })
}
