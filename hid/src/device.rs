//! CTAP2 devices behind the C interface of hidapi, which this file provides in place of the library.
use crate::interpose::off_record;
use aes::cipher::generic_array::GenericArray;
use aes::cipher::{BlockDecrypt, BlockEncrypt, KeyInit};
use libc::{c_char, c_int, c_uchar, c_ushort, c_void, size_t, wchar_t};
use num_bigint::BigUint;
use refm::ec::{self, C};
use refm::fido::*;
use serde_cbor::Value;
use std::cell::RefCell;
use std::collections::{BTreeMap, VecDeque};
use std::ffi::{CStr, CString};

/// What a device was asked.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Req {
    Info,
    Retries,
    KeyAgreement,
    /// was it the PIN?
    PinToken(bool),
    Make { hash: Vec<u8>, rp: String, algs: Vec<i128>, verified: Option<bool>, rk: bool, uv: bool },
    Assert { hash: Vec<u8>, rp: String, allow: Vec<Vec<u8>>, verified: Option<bool>, up: bool, uv: bool },
    Other(u8),
}
/// The answer to makeCredential: authenticator data, format, algorithm, signature, certificates
pub struct Made {
    pub auth: Vec<u8>,
    pub fmt: &'static str,
    pub alg: i64,
    pub sig: Vec<u8>,
    pub x5c: Option<Vec<Vec<u8>>>,
}
pub type MakeFn = dyn Fn(&Dev, &[u8], bool) -> Made;
/// Device, relying party, client data hash, PIN verified: authenticator data and signature
pub type AssertFn = dyn Fn(&Dev, &str, &[u8], bool) -> (Vec<u8>, Vec<u8>);
pub struct Dev {
    pub path: Vec<u8>,
    pub product: Option<&'static str>,
    pub page: u16,
    pub opens: bool,
    pub alg: i128,
    pub pin: Option<&'static str>,
    pub retries: u8,
    /// getInfo's clientPin option
    pub client_pin: Option<bool>,
    pub handle: Vec<u8>,
    pub keepalives: usize,
    /// the n-th CBOR request of the device fails with this status; as a transport error if .2
    pub refuse: Option<(usize, u8, bool)>,
    pub requests: usize,
    pub make: Box<MakeFn>,
    pub assert: Box<AssertFn>,
}
#[derive(Default)]
struct Conn {
    open: bool,
    want: usize,
    cmd: u8,
    seq: u8,
    data: Vec<u8>,
    cid: [u8; 4],
    out: VecDeque<[u8; 64]>,
    token: Vec<u8>,
}
#[derive(Default)]
pub struct World {
    pub devs: Vec<Dev>,
    pub log: Vec<(usize, Req)>,
    pub opened: Vec<usize>,
    pub closed: usize,
    /// reads and writes so far, and the one that fails
    pub io: usize,
    pub fail: Option<usize>,
    /// anything the model of the device has no answer for
    pub odd: Vec<String>,
    conn: Vec<Conn>,
}
thread_local! {
    static WORLD: RefCell<World> = RefCell::new(World::default());
}
/// Plugs these devices in for the calls f makes on this thread.
pub fn plug(devs: Vec<Dev>, fail: Option<usize>) {
    let conn = devs.iter().map(|_| Conn::default()).collect();
    WORLD.with(|w| *w.borrow_mut() = World { devs, conn, fail, ..World::default() });
}
pub fn unplug() -> World {
    WORLD.with(|w| std::mem::take(&mut *w.borrow_mut()))
}
pub fn world<T>(f: impl FnOnce(&mut World) -> T) -> T {
    WORLD.with(|w| f(&mut w.borrow_mut()))
}

/// AES-256-CBC with a zero IV, as PIN protocol 1 has it
pub fn cbc(key: &[u8; 32], data: &[u8], encrypt: bool) -> Vec<u8> {
    let k = aes::Aes256::new(GenericArray::from_slice(key));
    let mut prev = [0u8; 16];
    let mut out = vec![];
    for b in data.chunks_exact(16) {
        let mut x = GenericArray::clone_from_slice(b);
        if encrypt {
            for i in 0..16 {
                x[i] ^= prev[i];
            }
            k.encrypt_block(&mut x);
            prev.copy_from_slice(&x);
        } else {
            k.decrypt_block(&mut x);
            for i in 0..16 {
                x[i] ^= prev[i];
            }
            prev.copy_from_slice(b);
        }
        out.extend_from_slice(&x);
    }
    out
}
fn agreement_scalar() -> BigUint {
    BigUint::from_bytes_be(&refm::keys::scalar(71, 32))
}
fn get<'a>(m: &'a BTreeMap<Value, Value>, k: i128) -> Option<&'a Value> {
    m.get(&Value::Integer(k))
}
fn bytes(v: Option<&Value>) -> Option<Vec<u8>> {
    match v {
        Some(Value::Bytes(b)) => Some(b.clone()),
        _ => None,
    }
}
fn text(v: Option<&Value>) -> Option<String> {
    match v {
        Some(Value::Text(b)) => Some(b.clone()),
        _ => None,
    }
}
fn sub<'a>(v: Option<&'a Value>, k: &str) -> Option<&'a Value> {
    match v {
        Some(Value::Map(m)) => m.get(&Value::Text(k.into())),
        _ => None,
    }
}
fn array(items: &[Vec<u8>]) -> Vec<u8> {
    [head_w(4, items.len() as u64, 0), items.concat()].concat()
}
fn flag(b: bool) -> Vec<u8> {
    vec![0xf4 + b as u8]
}
/// The status and the CBOR a device answers a request with.
fn answer(d: &mut Dev, c: &mut Conn, req: &[u8], log: &mut Vec<Req>) -> Result<(u8, Vec<u8>), String> {
    let cmd = *req.first().ok_or("empty request")?;
    let m = if req.len() > 1 {
        match serde_cbor::from_slice(&req[1..]) {
            Ok(Value::Map(m)) => m,
            x => return Err(format!("request {} is no map: {:?}", cmd, x)),
        }
    } else {
        BTreeMap::new()
    };
    let token = c.token.clone();
    let pin_auth = |k: i128, hash: &[u8]| -> Option<bool> {
        let a = bytes(get(&m, k))?;
        let right = ring::hmac::sign(&ring::hmac::Key::new(ring::hmac::HMAC_SHA256, &token), hash);
        Some(!token.is_empty() && a == right.as_ref()[..16] && get(&m, k + 1) == Some(&Value::Integer(1)))
    };
    Ok(match cmd {
        4 => {
            log.push(Req::Info);
            let mut o = vec![[ctext("rk"), flag(true)].concat(), [ctext("up"), flag(true)].concat()];
            if let Some(p) = d.client_pin {
                o.push([ctext("clientPin"), flag(p)].concat());
            }
            (0, map(&[[int(1), array(&[ctext("FIDO_2_0")])].concat(), [int(3), cbytes(&[3; 16])].concat(), [int(4), map(&o)].concat(), [int(5), int(1200)].concat(), [int(6), array(&[int(1)])].concat()]))
        }
        6 => match get(&m, 2) {
            Some(Value::Integer(1)) => {
                log.push(Req::Retries);
                (0, map(&[[int(3), int(d.retries as i64)].concat()]))
            }
            Some(Value::Integer(2)) => {
                log.push(Req::KeyAgreement);
                let pt = ec::pubkey(&agreement_scalar(), C::P256);
                let k = map(&[[int(1), int(2)].concat(), [int(3), int(-25)].concat(), [int(-1), int(1)].concat(), [int(-2), cbytes(&pt[1..33])].concat(), [int(-3), cbytes(&pt[33..])].concat()]);
                (0, map(&[[int(1), k].concat()]))
            }
            Some(Value::Integer(5)) => {
                let k = match get(&m, 3) {
                    Some(Value::Map(k)) => k,
                    _ => return Err("no platform key".into()),
                };
                let (x, y) = (bytes(get(k, -2)).ok_or("no x")?, bytes(get(k, -3)).ok_or("no y")?);
                let pt = ec::Pt::from_sec1(&[&[4][..], &x, &y].concat(), C::P256).ok_or("bad platform key")?;
                let z = ec::fixed(&pt.mul(&agreement_scalar(), C::P256).xy(C::P256).0, 32);
                let mut secret = [0; 32];
                secret.copy_from_slice(&refm::sha256(&z));
                let given = cbc(&secret, &bytes(get(&m, 6)).ok_or("no PIN")?, false);
                let right = d.pin.map(|p| refm::sha256(p.as_bytes())[..16].to_vec());
                log.push(Req::PinToken(right.as_ref() == Some(&given)));
                if right.is_none() {
                    (0x35, vec![])
                } else if d.retries == 0 {
                    (0x32, vec![])
                } else if right != Some(given) {
                    d.retries -= 1;
                    (if d.retries == 0 { 0x32 } else { 0x31 }, vec![])
                } else {
                    c.token = (0..16).map(|i| i * 7 + 1).collect();
                    (0, map(&[[int(2), cbytes(&cbc(&secret, &c.token, true))].concat()]))
                }
            }
            x => return Err(format!("clientPIN {:?}", x)),
        },
        1 => {
            let hash = bytes(get(&m, 1)).ok_or("no client data hash")?;
            let algs: Vec<i128> = match get(&m, 4) {
                Some(Value::Array(a)) => a
                    .iter()
                    .filter_map(|p| match sub(Some(p), "alg") {
                        Some(Value::Integer(i)) => Some(*i),
                        _ => None,
                    })
                    .collect(),
                _ => vec![],
            };
            let verified = pin_auth(8, &hash);
            log.push(Req::Make {
                hash: hash.clone(),
                rp: text(sub(get(&m, 2), "id")).ok_or("no relying party")?,
                algs: algs.clone(),
                verified,
                rk: sub(get(&m, 7), "rk") == Some(&Value::Bool(true)),
                uv: sub(get(&m, 7), "uv") == Some(&Value::Bool(true)),
            });
            if verified == Some(false) {
                (0x33, vec![])
            } else if verified.is_none() && d.pin.is_some() {
                (0x36, vec![])
            } else if !algs.contains(&d.alg) {
                (0x26, vec![])
            } else {
                let a = off_record(|| (d.make)(d, &hash, verified == Some(true)));
                let mut st = vec![[ctext("alg"), int(a.alg)].concat(), [ctext("sig"), cbytes(&a.sig)].concat()];
                if let Some(x) = &a.x5c {
                    st.push([ctext("x5c"), array(&x.iter().map(|c| cbytes(c)).collect::<Vec<_>>())].concat());
                }
                if a.fmt == "none" {
                    st.clear();
                }
                (0, map(&[[int(1), ctext(a.fmt)].concat(), [int(2), cbytes(&a.auth)].concat(), [int(3), map(&st)].concat()]))
            }
        }
        2 => {
            let hash = bytes(get(&m, 2)).ok_or("no client data hash")?;
            let rp = text(get(&m, 1)).ok_or("no relying party")?;
            let allow: Vec<Vec<u8>> = match get(&m, 3) {
                Some(Value::Array(a)) => a.iter().filter_map(|x| bytes(sub(Some(x), "id"))).collect(),
                _ => vec![],
            };
            let verified = pin_auth(6, &hash);
            log.push(Req::Assert {
                hash: hash.clone(),
                rp: rp.clone(),
                allow: allow.clone(),
                verified,
                up: sub(get(&m, 5), "up") == Some(&Value::Bool(true)),
                uv: sub(get(&m, 5), "uv") == Some(&Value::Bool(true)),
            });
            if verified == Some(false) {
                (0x33, vec![])
            } else if !allow.contains(&d.handle) {
                (0x2e, vec![])
            } else {
                let (auth, sig) = off_record(|| (d.assert)(d, &rp, &hash, verified == Some(true)));
                let cred = map(&[[ctext("id"), cbytes(&d.handle)].concat(), [ctext("type"), ctext("public-key")].concat()]);
                (0, map(&[[int(1), cred].concat(), [int(2), cbytes(&auth)].concat(), [int(3), cbytes(&sig)].concat()]))
            }
        }
        x => {
            log.push(Req::Other(x));
            (1, vec![])
        }
    })
}
fn frame(cid: &[u8; 4], cmd: u8, data: &[u8], out: &mut VecDeque<[u8; 64]>) {
    let mut p = [0u8; 64];
    p[..4].copy_from_slice(cid);
    p[4] = cmd;
    p[5..7].copy_from_slice(&(data.len() as u16).to_be_bytes());
    let n = data.len().min(57);
    p[7..7 + n].copy_from_slice(&data[..n]);
    out.push_back(p);
    for (i, c) in data[n..].chunks(59).enumerate() {
        let mut p = [0u8; 64];
        p[..4].copy_from_slice(cid);
        p[4] = i as u8;
        p[5..5 + c.len()].copy_from_slice(c);
        out.push_back(p);
    }
}
impl World {
    fn packet(&mut self, i: usize, p: &[u8]) -> Result<(), String> {
        if p.len() != 65 || p[0] != 0 {
            return Err(format!("a report of {} bytes with number {:?}", p.len(), p.first()));
        }
        let p = &p[1..];
        let (d, c) = (&mut self.devs[i], &mut self.conn[i]);
        let mut cid = [0; 4];
        cid.copy_from_slice(&p[..4]);
        if p[4] & 0x80 != 0 {
            c.cmd = p[4];
            c.want = (p[5] as usize) << 8 | p[6] as usize;
            c.data = p[7..7 + c.want.min(57)].to_vec();
            c.seq = 0;
            if c.cmd == 0x86 {
                if cid != [0xff; 4] || c.want != 8 {
                    return Err("INIT on a channel".into());
                }
                c.cid = [1, 2, 3, 4 + i as u8];
                let r = [&c.data[..], &c.cid, &[2, 5, 4, 3, 4]].concat();
                c.token.clear();
                frame(&[0xff; 4], 0x86, &r, &mut c.out);
                return Ok(());
            }
            if cid != c.cid {
                return Err("another channel".into());
            }
        } else {
            if cid != c.cid || p[4] != c.seq {
                return Err("continuation out of order".into());
            }
            c.seq += 1;
            let n = (c.want - c.data.len()).min(59);
            c.data.extend_from_slice(&p[5..5 + n]);
        }
        if c.data.len() < c.want {
            return Ok(());
        }
        if c.cmd != 0x90 {
            return Err(format!("command {:#x}", c.cmd));
        }
        let req = std::mem::take(&mut c.data);
        d.requests += 1;
        let cid = c.cid;
        let mut log = vec![];
        let (st, body) = match d.refuse {
            Some((n, code, transport)) if n + 1 == d.requests => {
                log.push(Req::Other(req.first().copied().unwrap_or(0)));
                if transport {
                    frame(&cid, 0xbf, &[code], &mut c.out);
                    self.log.extend(log.into_iter().map(|r| (i, r)));
                    return Ok(());
                }
                (code, vec![])
            }
            _ => answer(d, c, &req, &mut log)?,
        };
        self.log.extend(log.into_iter().map(|r| (i, r)));
        for _ in 0..d.keepalives {
            frame(&cid, 0xbb, &[2], &mut c.out);
        }
        frame(&cid, 0x90, &[&[st][..], &body].concat(), &mut c.out);
        Ok(())
    }
}
fn io(w: &mut World) -> bool {
    w.io += 1;
    w.fail != Some(w.io - 1)
}

// ---------------------------------------------------------------- hidapi
#[repr(C)]
pub struct Info {
    path: *mut c_char,
    vendor_id: c_ushort,
    product_id: c_ushort,
    serial_number: *mut wchar_t,
    release_number: c_ushort,
    manufacturer_string: *mut wchar_t,
    product_string: *mut wchar_t,
    usage_page: c_ushort,
    usage: c_ushort,
    interface_number: c_int,
    next: *mut Info,
    bus_type: c_int,
}
#[no_mangle]
pub extern "C" fn hid_init() -> c_int {
    0
}
#[no_mangle]
pub extern "C" fn hid_exit() -> c_int {
    0
}
fn wide(s: &str) -> *mut wchar_t {
    let v: Vec<wchar_t> = s.chars().map(|c| c as wchar_t).chain([0]).collect();
    Box::into_raw(v.into_boxed_slice()) as *mut wchar_t
}
#[no_mangle]
pub extern "C" fn hid_enumerate(_: c_ushort, _: c_ushort) -> *mut Info {
    off_record(|| {
        world(|w| {
            let mut next = std::ptr::null_mut();
            for (i, d) in w.devs.iter().enumerate().rev() {
                next = Box::into_raw(Box::new(Info {
                    path: CString::new(d.path.clone()).unwrap().into_raw(),
                    vendor_id: 0x1050,
                    product_id: 0x407 + i as u16,
                    serial_number: std::ptr::null_mut(),
                    release_number: 1,
                    manufacturer_string: std::ptr::null_mut(),
                    product_string: d.product.map_or(std::ptr::null_mut(), wide),
                    usage_page: d.page,
                    usage: 1,
                    interface_number: 0,
                    next,
                    bus_type: 1,
                }));
            }
            next
        })
    })
}
#[no_mangle]
pub extern "C" fn hid_free_enumeration(mut p: *mut Info) {
    while !p.is_null() {
        let b = unsafe { Box::from_raw(p) };
        drop(unsafe { CString::from_raw(b.path) });
        // the short product string is left behind
        p = b.next;
    }
}
#[no_mangle]
pub extern "C" fn hid_open(_: c_ushort, _: c_ushort, _: *const wchar_t) -> *mut c_void {
    world(|w| w.odd.push("hid_open".into()));
    std::ptr::null_mut()
}
#[no_mangle]
pub extern "C" fn hid_open_path(path: *const c_char) -> *mut c_void {
    let p = unsafe { CStr::from_ptr(path) }.to_bytes();
    world(|w| {
        let i = match w.devs.iter().position(|d| d.path == p) {
            Some(i) if w.devs[i].opens => i,
            _ => return std::ptr::null_mut(),
        };
        w.opened.push(i);
        w.conn[i] = Conn { open: true, ..Conn::default() };
        (i + 1) as *mut c_void
    })
}
#[no_mangle]
pub extern "C" fn hid_close(_: *mut c_void) {
    world(|w| w.closed += 1)
}
#[no_mangle]
pub extern "C" fn hid_write(d: *mut c_void, data: *const c_uchar, n: size_t) -> c_int {
    let p = unsafe { std::slice::from_raw_parts(data, n) };
    off_record(|| {
        world(|w| {
            if !io(w) {
                return -1;
            }
            if let Err(e) = w.packet(d as usize - 1, p) {
                w.odd.push(e);
                return -1;
            }
            n as c_int
        })
    })
}
#[no_mangle]
pub extern "C" fn hid_read(d: *mut c_void, data: *mut c_uchar, n: size_t) -> c_int {
    hid_read_timeout(d, data, n, -1)
}
#[no_mangle]
pub extern "C" fn hid_read_timeout(d: *mut c_void, data: *mut c_uchar, n: size_t, _: c_int) -> c_int {
    world(|w| {
        if !io(w) {
            return -1;
        }
        match w.conn[d as usize - 1].out.pop_front() {
            Some(p) => {
                let k = n.min(64);
                unsafe { std::ptr::copy_nonoverlapping(p.as_ptr(), data, k) };
                k as c_int
            }
            None => {
                w.odd.push("read though nothing was asked".into());
                -1
            }
        }
    })
}
#[no_mangle]
pub extern "C" fn hid_error(_: *mut c_void) -> *const wchar_t {
    static E: [wchar_t; 6] = [b'e' as wchar_t, b'r' as wchar_t, b'r' as wchar_t, b'o' as wchar_t, b'r' as wchar_t, 0];
    E.as_ptr()
}
macro_rules! unused {
    ($($n:ident($($t:ty),*) -> $r:ty = $v:expr;)*) => {$(
        #[no_mangle]
        pub extern "C" fn $n($(_: $t),*) -> $r {
            world(|w| w.odd.push(stringify!($n).into()));
            $v
        }
    )*};
}
unused! {
    hid_set_nonblocking(*mut c_void, c_int) -> c_int = -1;
    hid_send_feature_report(*mut c_void, *const c_uchar, size_t) -> c_int = -1;
    hid_get_feature_report(*mut c_void, *mut c_uchar, size_t) -> c_int = -1;
    hid_send_output_report(*mut c_void, *const c_uchar, size_t) -> c_int = -1;
    hid_get_input_report(*mut c_void, *mut c_uchar, size_t) -> c_int = -1;
    hid_get_manufacturer_string(*mut c_void, *mut wchar_t, size_t) -> c_int = -1;
    hid_get_product_string(*mut c_void, *mut wchar_t, size_t) -> c_int = -1;
    hid_get_serial_number_string(*mut c_void, *mut wchar_t, size_t) -> c_int = -1;
    hid_get_device_info(*mut c_void) -> *mut Info = std::ptr::null_mut();
    hid_get_indexed_string(*mut c_void, c_int, *mut wchar_t, size_t) -> c_int = -1;
    hid_get_report_descriptor(*mut c_void, *mut c_uchar, size_t) -> c_int = -1;
}
/// The driver waits between two polls of the device; here the device is never behind.
#[no_mangle]
pub extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if crate::engine::IN_IMPL.try_with(|x| x.get()).unwrap_or(false) {
        return 0;
    }
    unsafe { libc::syscall(libc::SYS_nanosleep, a, b) as c_int }
}
#[no_mangle]
pub extern "C" fn clock_nanosleep(c: libc::clockid_t, f: c_int, a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    if crate::engine::IN_IMPL.try_with(|x| x.get()).unwrap_or(false) {
        return 0;
    }
    // returns the error, unlike the system call wrapper
    if unsafe { libc::syscall(libc::SYS_clock_nanosleep, c, f, a, b) } == 0 {
        0
    } else {
        unsafe { *libc::__errno_location() }
    }
}
