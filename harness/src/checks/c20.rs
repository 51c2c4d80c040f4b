//! FIDO enrolment and signing against a driver under the harness's control.
use super::*;
use crate::conv;
use crate::engine::*;
use crate::interpose::{off_record, rng, rng_reset};
use crate::{ensure, ensure_eq};
use authenticator::authenticatorservice::{AuthenticatorTransport, RegisterArgs, SignArgs};
use authenticator::crypto::COSEAlgorithm;
use authenticator::ctap2::attestation::*;
use authenticator::ctap2::server::*;
use authenticator::errors::{AuthenticatorError, PinError, U2FTokenError};
use authenticator::statecallback::StateCallback;
use authenticator::{Assertion, GetAssertionResult, MakeCredentialsResult, Pin, StatusPinUv, StatusUpdate};
use refm::der::*;
use refm::ec::{self, C};
use refm::fido::*;
use refm::keys::{self, Priv, Pub};
use refm::privkey::SkExtra;
use refm::x509::{self, ext, pem, Tbs};
use refm::Tri;
use sshcerts::fido::generate::generate_new_ssh_key;
use sshcerts::fido::signing::sign_with_private_key;
use sshcerts::fido::verif_hooks::{set_root, set_transport_factory};
use sshcerts::fido::FIDOSSHKey;
use sshcerts::ssh::*;
use std::sync::mpsc::{channel, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

type Res<T> = Result<T, AuthenticatorError>;

/// Status messages a driver sends on the way.
const STATUS: [&str; 11] = ["presence", "select device", "PIN required", "PIN required, waits", "invalid PIN (3)", "invalid PIN, waits", "PIN auth blocked", "PIN blocked", "PIN not set", "UV blocked", "select result, waits"];
/// Sends it. False: the driver gives up because nobody answers.
fn send(s: &Sender<StatusUpdate>, k: usize) -> bool {
    let (tx, rx) = channel::<Pin>();
    let msg = match k {
        0 => StatusUpdate::PresenceRequired,
        1 => StatusUpdate::SelectDeviceNotice,
        2 | 3 => StatusUpdate::PinUvError(StatusPinUv::PinRequired(tx)),
        4 => StatusUpdate::PinUvError(StatusPinUv::InvalidPin(tx, Some(3))),
        5 => StatusUpdate::PinUvError(StatusPinUv::InvalidPin(tx, None)),
        6 => StatusUpdate::PinUvError(StatusPinUv::PinAuthBlocked),
        7 => StatusUpdate::PinUvError(StatusPinUv::PinBlocked),
        8 => StatusUpdate::PinUvError(StatusPinUv::PinNotSet),
        9 => StatusUpdate::PinUvError(StatusPinUv::UvBlocked),
        _ => {
            let (tx, rx) = channel::<Option<usize>>();
            let _ = s.send(StatusUpdate::SelectResultNotice(tx, vec![]));
            return matches!(rx.recv(), Ok(Some(_)));
        }
    };
    let _ = s.send(msg);
    if k == 3 || k == 5 {
        return rx.recv().is_ok();
    }
    true
}
/// What the caller is to be told when the operation fails after these messages.
fn told(l: &[usize]) -> Option<&'static str> {
    let sent = l.iter().position(|k| [3, 5, 10].contains(k)).map_or(l.len(), |p| p + 1);
    l[..sent].iter().find_map(|k| match k {
        2 | 3 => Some("PinRequired"),
        4 => Some("InvalidPin(Some(3))"),
        5 => Some("InvalidPin(None)"),
        6 => Some("KeyLocked"),
        7 => Some("KeyBlocked"),
        _ => None,
    })
}
const ERRS: [&str; 6] = ["cancelled", "PIN required", "PIN invalid", "PIN blocked", "token not allowed", "platform"];
fn error(k: usize) -> AuthenticatorError {
    match k {
        0 => AuthenticatorError::CancelledByUser,
        1 => AuthenticatorError::PinError(PinError::PinRequired),
        2 => AuthenticatorError::PinError(PinError::InvalidPin(Some(2))),
        3 => AuthenticatorError::PinError(PinError::PinBlocked),
        4 => AuthenticatorError::U2FToken(U2FTokenError::NotAllowed),
        _ => AuthenticatorError::Platform,
    }
}
/// How an operation ends.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum End {
    Answer,
    Fails(usize),
    /// the driver goes away without an answer
    Silent,
    /// the call to the driver itself fails
    Refused,
    /// the call fails, and an answer comes all the same
    RefusedAndAnswer,
    /// two answers; the first counts
    Twice,
}
#[derive(Clone, Debug, Hash)]
struct Plan {
    status: Vec<usize>,
    late: Vec<usize>,
    end: End,
    /// 0: all before the call to the driver returns; 1: on a thread; 2: on a thread, one thing at a time
    mode: usize,
    /// when the driver drops its end of the status channel: before or after the answer
    drop_first: bool,
}
impl Plan {
    fn simple() -> Plan {
        Plan { status: vec![], late: vec![], end: End::Answer, mode: 0, drop_first: false }
    }
}
#[derive(Default)]
struct Seen {
    register: Vec<(RegisterArgs, u64)>,
    sign: Vec<(SignArgs, u64)>,
    threads: Vec<std::thread::JoinHandle<()>>,
}
type RegisterFn = dyn Fn(&RegisterArgs) -> MakeCredentialsResult + Send + Sync;
type SignFn = dyn Fn(&SignArgs) -> GetAssertionResult + Send + Sync;
struct Driver {
    plan: Plan,
    seen: Arc<Mutex<Seen>>,
    register: Arc<RegisterFn>,
    sign: Arc<SignFn>,
}
fn play<T: Send + 'static>(p: &Plan, seen: &Arc<Mutex<Seen>>, status: Sender<StatusUpdate>, cb: StateCallback<Res<T>>, answer: T, second: T) -> Res<()> {
    let p2 = p.clone();
    let refused = matches!(p.end, End::Refused | End::RefusedAndAnswer);
    let all = move || {
        let pause = || {
            if p2.mode == 2 {
                std::thread::sleep(Duration::from_micros(700));
            }
        };
        let mut given_up = false;
        for s in &p2.status {
            pause();
            if !send(&status, *s) {
                given_up = true;
                break;
            }
        }
        let mut status = Some(status);
        if p2.drop_first {
            pause();
            status = None;
        }
        pause();
        if given_up {
            cb.call(Err(AuthenticatorError::CancelledByUser));
        } else {
            match p2.end {
                End::Answer | End::RefusedAndAnswer => cb.call(Ok(answer)),
                End::Fails(k) => cb.call(Err(error(k))),
                End::Twice => {
                    cb.call(Ok(answer));
                    pause();
                    cb.call(Ok(second));
                }
                End::Silent | End::Refused => drop(cb),
            }
        }
        pause();
        if let Some(s) = &status {
            for k in &p2.late {
                send(s, *k);
                pause();
            }
        }
        drop(status);
    };
    // a driver that waits for an answer does so on a thread of its own
    if p.mode == 0 && !p.status.iter().chain(&p.late).any(|k| [3, 5, 10].contains(k)) {
        all();
    } else {
        let h = std::thread::spawn(all);
        if let Ok(mut s) = seen.lock() {
            s.threads.push(h);
        }
    }
    if refused {
        return Err(AuthenticatorError::Platform);
    }
    Ok(())
}
impl AuthenticatorTransport for Driver {
    fn register(&mut self, timeout: u64, args: RegisterArgs, status: Sender<StatusUpdate>, cb: StateCallback<Res<MakeCredentialsResult>>) -> Res<()> {
        let (a, b) = off_record(|| ((self.register)(&args), (self.register)(&args)));
        if let Ok(mut s) = self.seen.lock() {
            s.register.push((args, timeout));
        }
        play(&self.plan, &self.seen, status, cb, a, b)
    }
    fn sign(&mut self, timeout: u64, args: SignArgs, status: Sender<StatusUpdate>, cb: StateCallback<Res<GetAssertionResult>>) -> Res<()> {
        let (a, b) = off_record(|| ((self.sign)(&args), (self.sign)(&args)));
        if let Ok(mut s) = self.seen.lock() {
            s.sign.push((args, timeout));
        }
        play(&self.plan, &self.seen, status, cb, a, b)
    }
    fn cancel(&mut self) -> Res<()> {
        Ok(())
    }
    fn reset(&mut self, _: u64, _: Sender<StatusUpdate>, _: StateCallback<Res<()>>) -> Res<()> {
        Err(AuthenticatorError::Platform)
    }
    fn set_pin(&mut self, _: u64, _: Pin, _: Sender<StatusUpdate>, _: StateCallback<Res<()>>) -> Res<()> {
        Err(AuthenticatorError::Platform)
    }
    fn manage(&mut self, _: u64, _: Sender<StatusUpdate>, _: StateCallback<Res<authenticator::ManageResult>>) -> Res<()> {
        Err(AuthenticatorError::Platform)
    }
}
fn no_register() -> Arc<RegisterFn> {
    Arc::new(|_| made(data(&plain_auth(1, 0)).unwrap(), AttestationStatement::None))
}
fn no_sign() -> Arc<SignFn> {
    Arc::new(|_| asserted(&[0; 32], 1, 1, vec![]))
}
/// Runs f with such a driver plugged in; what the driver saw comes back once its threads are done.
fn with<T>(w: &mut W, name: &str, plan: &Plan, register: Arc<RegisterFn>, sign: Arc<SignFn>, root: Option<String>, f: impl FnOnce() -> T) -> R<(T, Seen)> {
    let seen = Arc::new(Mutex::new(Seen::default()));
    let (s2, p2) = (seen.clone(), plan.clone());
    set_transport_factory(Some(Box::new(move || Box::new(Driver { plan: p2.clone(), seen: s2.clone(), register: register.clone(), sign: sign.clone() }))));
    set_root(root);
    let r = w.call(name, f);
    set_transport_factory(None);
    set_root(None);
    let v = r?;
    let mut s = match seen.lock() {
        Ok(mut s) => std::mem::take(&mut *s),
        Err(_) => return Err(Fail("the driver was interrupted".into())),
    };
    for h in s.threads.drain(..) {
        ensure!(h.join().is_ok(), "{}: a panic on the driver's thread", name);
    }
    Ok((v, s))
}
fn data(b: &[u8]) -> Option<AuthenticatorData> {
    serde_cbor::from_slice(&cbytes(b)).ok()
}
fn made(auth_data: AuthenticatorData, att_stmt: AttestationStatement) -> MakeCredentialsResult {
    MakeCredentialsResult { att_obj: AttestationObject { auth_data, att_stmt }, attachment: AuthenticatorAttachment::CrossPlatform, extensions: Default::default() }
}
fn asserted(rp: &[u8; 32], flags: u8, counter: u32, signature: Vec<u8>) -> GetAssertionResult {
    let auth_data = AuthenticatorData { rp_id_hash: RpIdHash(*rp), flags: AuthenticatorDataFlags::from_bits_truncate(flags), counter, credential_data: None, extensions: Default::default() };
    GetAssertionResult { assertion: Assertion { credentials: None, auth_data, signature, user: None }, attachment: AuthenticatorAttachment::CrossPlatform, extensions: Default::default() }
}
fn p256(n: u8) -> Priv {
    Priv::Ec { c: C::P256, d: keys::scalar(n, 32) }
}
fn pt256(n: u8) -> Vec<u8> {
    match p256(n).public() {
        Pub::Ec { pt, .. } => pt,
        _ => vec![],
    }
}
fn plain_auth(flags: u8, count: u32) -> Vec<u8> {
    auth_data(&fill(32, 1), flags | 0x40, count, &fill(16, 3), &fill(64, 9), &map(&okp(&keys::ed_pub(&keys::seed(7)))))
}
fn root_pem(root: &Priv) -> String {
    pem("CERTIFICATE", &Tbs::new("root", "root", &root.public(), root, vec![]).sign(root))
}
fn att_cert(root: &Priv, att: &Priv) -> Vec<u8> {
    Tbs::new("root", "att", &att.public(), root, vec![ext(super::c19::FW, false, &octets(&[5, 4, 3]))]).sign(root)
}
fn packed(alg: COSEAlgorithm, sig: Vec<u8>, certs: Vec<Vec<u8>>) -> AttestationStatement {
    AttestationStatement::Packed(AttestationStatementPacked { alg, sig: Signature(sig), attestation_cert: certs.into_iter().map(AttestationCertificate).collect() })
}
/// The ways the attestation can be wrong, and the one it can be right.
const HOW: [&str; 19] = [
    "right", "right, two certificates", "no statement", "U2F statement", "no certificate", "algorithm EdDSA", "algorithm RS256", "other root", "signed by another key", "over another challenge", "over no challenge", "over the data alone, hashed", "over other data", "self-signed certificate", "second certificate is the right one", "signature cut", "signature empty", "signed by the credential key", "an apple statement",
];
fn answer(how: usize, auth: &[u8], hash: &[u8; 32]) -> Option<MakeCredentialsResult> {
    let (root, att, other) = (p256(1), p256(2), p256(3));
    let d = data(auth)?;
    let raw = d.to_vec();
    let good = x509::sign_raw(&att, &[&raw[..], hash].concat());
    let cert = att_cert(&root, &att);
    let st = match how {
        0 => packed(COSEAlgorithm::ES256, good, vec![cert]),
        1 => packed(COSEAlgorithm::ES256, good, vec![cert, att_cert(&other, &other)]),
        2 => AttestationStatement::None,
        3 => AttestationStatement::FidoU2F(AttestationStatementFidoU2F::new(&cert, &good)),
        4 => packed(COSEAlgorithm::ES256, good, vec![]),
        5 => packed(COSEAlgorithm::EDDSA, good, vec![cert]),
        6 => packed(COSEAlgorithm::RS256, good, vec![cert]),
        7 => packed(COSEAlgorithm::ES256, good, vec![att_cert(&other, &att)]),
        8 => packed(COSEAlgorithm::ES256, x509::sign_raw(&other, &[&raw[..], hash].concat()), vec![cert]),
        9 => packed(COSEAlgorithm::ES256, x509::sign_raw(&att, &[&raw[..], &[7; 32]].concat()), vec![cert]),
        10 => packed(COSEAlgorithm::ES256, x509::sign_raw(&att, &raw), vec![cert]),
        11 => packed(COSEAlgorithm::ES256, x509::sign_raw(&att, &[&raw[..], &refm::sha256(hash)].concat()), vec![cert]),
        12 => {
            let mut r = raw.clone();
            r[36] ^= 1;
            packed(COSEAlgorithm::ES256, x509::sign_raw(&att, &[&r[..], hash].concat()), vec![cert])
        }
        13 => packed(COSEAlgorithm::ES256, good, vec![att_cert(&att, &att)]),
        14 => packed(COSEAlgorithm::ES256, good, vec![att_cert(&other, &other), cert]),
        15 => packed(COSEAlgorithm::ES256, good[..good.len() - 1].to_vec(), vec![cert]),
        16 => packed(COSEAlgorithm::ES256, vec![], vec![cert]),
        17 => packed(COSEAlgorithm::ES256, keys::ed_sign(&keys::seed(7), &[&raw[..], hash].concat()), vec![cert]),
        _ => AttestationStatement::Apple(serde_cbor::Value::Null),
    };
    Some(made(d, st))
}
struct Ask<'a> {
    app: &'a str,
    comment: &'a str,
    pin: Option<&'a str>,
}
/// The driver was asked for what the caller wants.
fn asked(s: &Seen, a: &Ask, challenge: &[u8]) -> R {
    ensure_eq!(s.register.len(), 1, "registrations asked of the driver");
    let r = &s.register[0].0;
    ensure_eq!(hex(&r.client_data_hash), hex(challenge), "challenge given to the device");
    ensure_eq!(r.relying_party.id, a.app.to_string(), "relying party");
    ensure!(r.pub_cred_params.iter().all(|p| p.alg == COSEAlgorithm::EDDSA || p.alg == COSEAlgorithm::ES256) && !r.pub_cred_params.is_empty(), "credential kinds {:?}", r.pub_cred_params);
    ensure_eq!(r.pin.as_ref().map(|p| p.as_bytes().to_vec()), a.pin.map(|p| p.as_bytes().to_vec()), "PIN given to the device");
    Ok(())
}
/// The key that was made agrees with the device's answer.
fn truthful(k: &FIDOSSHKey, a: &Ask, raw: &[u8], challenge: &[u8], st: Option<&AttestationStatementPacked>) -> R {
    let (t, p) = parse(raw);
    let p = match p {
        Some(p) if t != Tri::No => p,
        _ => return Err(Fail("a key for malformed authenticator data".into())),
    };
    let want = p.cose.as_ref().and_then(|c| ssh_key(c, a.app));
    ensure!(want.is_some(), "a key for a credential of another kind");
    let g = &k.private_key;
    let o = conv::privkey(g);
    ensure!(o.is_some(), "the key contradicts itself: {} with {:?}", g.key_type.name, g.pubkey.kind);
    let o = o.unwrap();
    ensure_eq!(Some(o.public), want, "public key");
    ensure_eq!(o.secret, refm::privkey::Secret::Sk(SkExtra { flags: p.flags, handle: p.cred.clone(), reserved: vec![] }), "handle and flags");
    ensure_eq!(o.comment, a.comment.to_string(), "comment");
    let pin = match &g.kind {
        PrivateKeyKind::Ed25519Sk(e) => &e.pin,
        PrivateKeyKind::EcdsaSk(e) => &e.pin,
        _ => &None,
    };
    ensure_eq!(pin.as_deref(), a.pin, "PIN");
    ensure_eq!(hex(&k.attestation.auth_data), hex(raw), "authenticator data");
    ensure_eq!(hex(&k.attestation.challenge), hex(challenge), "challenge");
    if let Some(st) = st {
        ensure_eq!(hex(&k.attestation.auth_data_sig), hex(&st.sig.0), "attestation signature");
        ensure_eq!(Some(hex(&k.attestation.intermediate)), st.attestation_cert.first().map(|c| hex(&c.0)), "attestation certificate");
        ensure_eq!(k.attestation.alg, -7, "attestation algorithm");
    }
    Ok(())
}
/// Ed25519 credentials were asked for; for the other kind an error is as good as a key.
fn is_ed(raw: &[u8]) -> Option<bool> {
    match parse(raw) {
        (Tri::Yes, Some(p)) => p.cose.as_ref().and_then(|c| ssh_key(c, "")).map(|k| matches!(k, Pub::SkEd { .. })),
        _ => None,
    }
}
fn enrol(w: &mut W, plan: &Plan, how: usize, auth: Vec<u8>, a: &Ask) -> R<&'static str> {
    let root = p256(1);
    let raw = match data(&auth) {
        Some(d) => d.to_vec(),
        None => return Ok("not deliverable"),
    };
    if answer(how, &auth, &[0; 32]).is_none() {
        return Ok("not deliverable");
    }
    let from = rng(|r| r.log.concat().len());
    let au = auth.clone();
    let register: Arc<RegisterFn> = Arc::new(move |r: &RegisterArgs| answer(how, &au, &r.client_data_hash).unwrap());
    let (r, seen) = with(w, "generate_new_ssh_key", plan, register, no_sign(), Some(off_record(|| root_pem(&root))), || generate_new_ssh_key(a.app, a.comment, a.pin.map(String::from), None))?;
    let served = rng(|r| r.log.concat())[from..].to_vec();
    if let Some((reg, _)) = seen.register.first() {
        // the challenge is fresh
        ensure!(served.windows(32).any(|x| x == reg.client_data_hash), "the challenge {} is not fresh output of the random source {}", hex(&reg.client_data_hash), hex(&served));
        asked(&seen, a, &reg.client_data_hash)?;
    }
    let chal = seen.register.first().map(|x| x.0.client_data_hash).unwrap_or([0; 32]);
    let given_up = plan.status.iter().any(|k| [3, 5, 10].contains(k));
    let answered = !given_up && matches!(plan.end, End::Answer | End::Twice);
    match r {
        Ok(k) => {
            ensure!(answered || plan.end == End::RefusedAndAnswer, "a key though the device gave none");
            ensure!(how < 2, "a key though the attestation is {}", HOW[how]);
            truthful(&k, a, &raw, &chal, None)?;
            // and the attestation that comes with it is sound
            set_root(Some(off_record(|| root_pem(&root))));
            let v = w.call("verify", || k.attestation.verify());
            set_root(None);
            ensure!(v?.is_ok(), "the attestation returned does not verify");
            Ok("key")
        }
        Err(e) => {
            let must = answered && how < 2 && is_ed(&raw) == Some(true);
            ensure!(!must, "no key: {:?}", e);
            // the error the device reported
            if let End::Fails(_) | End::Silent = plan.end {
                let text = match &e {
                    sshcerts::error::Error::FidoError(f) => format!("{:?}", f),
                    e => format!("{:?}", e),
                };
                if plan.late.is_empty() {
                    if let (Some(t), End::Fails(_)) = (told(&plan.status), plan.end) {
                        ensure_eq!(text, t.to_string(), "error");
                    }
                }
            }
            Ok("error")
        }
    }
}
/// A security key: what it signs for an assertion.
#[derive(Clone)]
enum Hw {
    Ed([u8; 32]),
    Ec(Vec<u8>),
    /// always this signature
    Fixed(Vec<u8>),
}
fn assertion(hw: &Hw, app: &str, flags: u8, counter: u32, hash: &[u8; 32]) -> GetAssertionResult {
    let fl = AuthenticatorDataFlags::from_bits_truncate(flags).bits();
    let mut rp = [0; 32];
    rp.copy_from_slice(&refm::sha256(app.as_bytes()));
    let m = [&rp[..], &[fl], &counter.to_be_bytes(), hash].concat();
    let sig = match hw {
        Hw::Ed(s) => keys::ed_sign(s, &m),
        Hw::Ec(d) => x509::sign_raw(&Priv::Ec { c: C::P256, d: d.clone() }, &m),
        Hw::Fixed(s) => s.clone(),
    };
    asserted(&rp, flags, counter, sig)
}
fn sk_key(public: &Pub, handle: &[u8], pin: Option<&str>) -> PrivateKey {
    let pubkey = conv::to_pubkey(public);
    let pin = pin.map(String::from);
    let kind = match public {
        Pub::SkEd { .. } => PrivateKeyKind::Ed25519Sk(Ed25519SkPrivateKey { flags: 1, handle: handle.to_vec(), reserved: vec![], pin, device_path: None }),
        _ => PrivateKeyKind::EcdsaSk(EcdsaSkPrivateKey { flags: 1, handle: handle.to_vec(), reserved: vec![], pin, device_path: None }),
    };
    PrivateKey { key_type: pubkey.key_type.clone(), kind, pubkey, magic: 1, comment: "c".into() }
}
struct Sign<'a> {
    hw: Hw,
    public: Pub,
    app: &'a str,
    handle: Vec<u8>,
    pin: Option<&'a str>,
    flags: u8,
    counter: u32,
    msg: Vec<u8>,
    via: usize,
}
fn sk_pub(hw: &Hw, app: &str) -> Pub {
    match hw {
        Hw::Ed(s) => Pub::SkEd { pk: keys::ed_pub(s), app: app.into() },
        Hw::Ec(d) => Pub::SkEc { pt: match (Priv::Ec { c: C::P256, d: d.clone() }).public() { Pub::Ec { pt, .. } => pt, _ => vec![] }, app: app.into() },
        _ => Pub::SkEd { pk: vec![0; 32], app: app.into() },
    }
}
fn sign(w: &mut W, plan: &Plan, s: &Sign) -> R<&'static str> {
    let key = sk_key(&s.public, &s.handle, s.pin);
    let (hw, app, flags, counter) = (s.hw.clone(), s.app.to_string(), s.flags, s.counter);
    let f: Arc<SignFn> = Arc::new(move |a: &SignArgs| assertion(&hw, &app, flags, counter, &a.client_data_hash));
    // the message the device gets, and the blob that comes back
    let (got, seen) = with(w, "sign", plan, no_register(), f, None, || match s.via {
        0 => sign_with_private_key(&key, &s.msg),
        _ => key.sign(&s.msg),
    })?;
    if s.via <= 1 {
        ensure!(seen.sign.len() <= 1, "{} signatures asked of the device", seen.sign.len());
    }
    for (a, _) in &seen.sign {
        ensure_eq!(hex(&a.client_data_hash), hex(&refm::sha256(&s.msg)), "what the device is to sign");
        ensure_eq!(a.relying_party_id, s.app.to_string(), "relying party");
        ensure_eq!(a.allow_list.iter().map(|x| hex(&x.id)).collect::<Vec<_>>(), vec![hex(&s.handle)], "credentials allowed");
        ensure_eq!(a.pin.as_ref().map(|p| p.as_bytes().to_vec()), s.pin.map(|p| p.as_bytes().to_vec()), "PIN given to the device");
    }
    let given_up = plan.status.iter().any(|k| [3, 5, 10].contains(k));
    let answered = !given_up && matches!(plan.end, End::Answer | End::Twice);
    match got {
        Some(b) => {
            ensure!(answered || plan.end == End::RefusedAndAnswer, "a signature though the device gave none");
            if matches!(s.hw, Hw::Fixed(_)) {
                return Ok("signature");
            }
            let fl = AuthenticatorDataFlags::from_bits_truncate(s.flags).bits();
            ensure!(b.len() > 5 && b[b.len() - 5] == fl && b[b.len() - 4..] == s.counter.to_be_bytes(), "flags or counter are not the device's: {}", hex(&b));
            ensure!(keys::verify(&s.public, &b, &s.msg) == Tri::Yes, "the signature does not verify under the key: {}", hex(&b));
            Ok("signature")
        }
        None => {
            ensure!(!answered || matches!(s.hw, Hw::Fixed(_)), "no signature though the device gave one");
            Ok("error")
        }
    }
}

/// Signing reports trouble on the standard output; keep it out of ours.
struct Quiet(i32);
impl Quiet {
    fn new() -> Quiet {
        unsafe {
            let saved = libc::dup(1);
            let n = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(n, 1);
            libc::close(n);
            Quiet(saved)
        }
    }
}
impl Drop for Quiet {
    fn drop(&mut self) {
        unsafe {
            libc::dup2(self.0, 1);
            libc::close(self.0);
        }
    }
}

pub fn run(cx: &Cx) {
    let _q = Quiet::new();
    cx.assume("the driver is a stand-in for the authenticator crate's transport that behaves as that crate's state machine may: it calls back at most once per operation, drops its channels when done and waits for an answer when it asks for a PIN or a choice; a channel nobody answers must not block it");
    cx.assume("schedules: driver inline, on its own thread at full speed, and on its own thread with the other threads at rest before each step");
    let apps = ["ssh:", "", "ssh:host.example", "ssh:\u{e9}\u{4e2d}", "x y\n", "a-very-long-application-name-that-goes-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on-and-on"];
    // status messages and endings
    let ends: Vec<End> = [End::Answer, End::Silent, End::Refused, End::RefusedAndAnswer, End::Twice].into_iter().chain((0..ERRS.len()).map(End::Fails)).collect();
    let depth = cx.pick(2, 3);
    let nw = words(STATUS.len(), depth);
    let radix = [ends.len(), 3, 2, nw];
    cx.bound(format!("every sequence of up to {} status messages of {:?}, {} endings, inline/threaded/stepwise, status channel dropped before or after the answer; enrolling and signing", depth, STATUS, ends.len()));
    cx.group("enrolment orders", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let p = Plan { status: word(d[3], STATUS.len(), depth), late: vec![], end: ends[d[0]], mode: d[1], drop_first: d[2] == 1 };
        w.case(&p, || format!("driver: {:?}", p), |w| enrol(w, &p, 0, plain_auth(5, 7), &Ask { app: "ssh:", comment: "c", pin: None }));
    });
    let eds = Hw::Ed(keys::seed(7));
    cx.group("signing orders", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let p = Plan { status: word(d[3], STATUS.len(), depth), late: vec![], end: ends[d[0]], mode: d[1], drop_first: d[2] == 1 };
        w.case(&p, || format!("driver: {:?}", p), |w| {
            let s = Sign { hw: eds.clone(), public: sk_pub(&eds, "ssh:"), app: "ssh:", handle: fill(64, 9), pin: None, flags: 1, counter: 5, msg: b"m".to_vec(), via: i % 2 };
            sign(w, &p, &s)
        });
    });
    // messages that arrive after the answer
    let radix = [ends.len(), 2, STATUS.len(), STATUS.len() + 1, 2];
    cx.group("late messages", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let late: Vec<usize> = std::iter::once(d[2]).chain(if d[3] < STATUS.len() { Some(d[3]) } else { None }).collect();
        let p = Plan { status: vec![], late, end: ends[d[0]], mode: 1 + d[1], drop_first: false };
        w.case((&p, d[4]), || format!("driver: {:?}", p), |w| {
            if d[4] == 0 {
                enrol(w, &p, 0, plain_auth(5, 7), &Ask { app: "ssh:", comment: "c", pin: None })
            } else {
                let s = Sign { hw: eds.clone(), public: sk_pub(&eds, "ssh:"), app: "ssh:", handle: fill(64, 9), pin: None, flags: 1, counter: 5, msg: b"m".to_vec(), via: 0 };
                sign(w, &p, &s)
            }
        });
    });
    // what the device answers
    let ed = keys::ed_pub(&keys::seed(7));
    let ec = pt256(9);
    let mut coses: Vec<(String, Vec<u8>)> = vec![("ed25519".into(), map(&okp(&ed))), ("p256".into(), map(&ec2(&ec)))];
    for n in [0usize, 1, 31, 33, 64] {
        coses.push((format!("ed25519 of {} bytes", n), map(&okp(&fill(n, 5)))));
    }
    for (kty, alg, crv) in [(1, -8, 7), (1, -7, 6), (1, -8, 1), (2, -35, 2), (2, -36, 3), (2, -7, 2), (2, -8, 1), (2, -7, 6), (1, -8, 4), (1, -8, 5)] {
        let e = vec![[int(1), int(kty)].concat(), [int(3), int(alg)].concat(), [int(-1), int(crv)].concat(), [int(-2), cbytes(&ec[1..33])].concat(), [int(-3), cbytes(&ec[33..])].concat()];
        coses.push((format!("type {} algorithm {} curve {}", kty, alg, crv), map(&e[..if kty == 1 { 4 } else { 5 }])));
    }
    coses.push(("RSA".into(), map(&[[int(1), int(3)].concat(), [int(3), int(-257)].concat(), [int(-1), cbytes(&fill(256, 3))].concat(), [int(-2), cbytes(&[1, 0, 1])].concat()])));
    let radix = [coses.len(), HOW.len(), apps.len(), 3];
    cx.bound(format!("{} credential keys x attestation made in {} ways {:?} x {} applications x 3 schedules", coses.len(), HOW.len(), HOW, apps.len()));
    cx.group("answers", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let a = auth_data(&refm::sha256(apps[d[2]].as_bytes()), 0x45, 7, &fill(16, 3), &fill(64, 9), &coses[d[0]].1);
        let p = Plan { mode: d[3], ..Plan::simple() };
        w.case(i, || format!("{} credential, attestation {}, application {:?}", coses[d[0]].0, HOW[d[1]], apps[d[2]]), |w| enrol(w, &p, d[1], a, &Ask { app: apps[d[2]], comment: "c", pin: Some("1234") }));
    });
    cx.group("flags and counters", 256 * 40, |w, i| {
        let (f, c) = (i / 40, i % 40);
        let count = if c < 32 { 1u32 << c } else { [0, 3, 255, 0x1ff, 0xffff, 0x7fffffff, 0xfffffffe, u32::MAX][c - 32] };
        let mut a = auth_data(&fill(32, 1), f as u8, count, &fill(16, 3), &fill(64, 9), &map(&okp(&ed)));
        if f & 0x80 != 0 {
            a.push(0xa0);
        }
        w.case(&a, || format!("flags {:#x} counter {}", f, count), |w| enrol(w, &Plan::simple(), 0, a.clone(), &Ask { app: "ssh:", comment: "c", pin: None }));
    });
    let handles: Vec<usize> = (0..cx.pick(140, 600)).chain([255, 256, 257, 512, 1000, 4096]).collect();
    cx.group("handles", handles.len() * 2, |w, i| {
        let n = handles[i / 2];
        let a = auth_data(&fill(32, 1), 0x41, 1, &fill(16, 3), &fill(n, 9), &coses[i % 2].1);
        w.case(&a, || format!("credential id of {} bytes, {}", n, coses[i % 2].0), |w| enrol(w, &Plan::simple(), i / 2 % 2, a.clone(), &Ask { app: "ssh:", comment: "c", pin: None }));
    });
    let texts = ["", "c", "user@host", "two words", "\u{e9}", "line\nbreak", "nul\0", "123456"];
    cx.group("requests", texts.len() * texts.len() * (texts.len() + 1), |w, i| {
        let d = digits(i, &[texts.len(), texts.len(), texts.len() + 1]);
        let a = Ask { app: texts[d[0]], comment: texts[d[1]], pin: texts.get(d[2]).copied() };
        w.case(i, || format!("application {:?}, comment {:?}, PIN {:?}", a.app, a.comment, a.pin), |w| enrol(w, &Plan::simple(), 0, plain_auth(1, 1), &a));
    });
    // every character in the application, the comment and the PIN, asked for and used
    let shapes = cx.pick(1, 4);
    cx.bound("every character below U+0250 in the application, comment and PIN of enrolments and signatures; every length up to 130 and some up to 5000 of each");
    let odd: Vec<String> = (0..0x250u32)
        .filter_map(char::from_u32)
        .flat_map(|c| (0..shapes).map(move |k| [format!("{}ssh:{}", c, c), format!("{}", c), format!("ssh:{}x", c), format!("a{}", c)][(c as usize + k) % 4].clone()))
        .chain((0..130).chain([255, 256, 257, 1000, 5000]).map(|n| text(n, 2)))
        .collect();
    cx.group("texts", odd.len() * 6, |w, i| {
        let (t, place, signing) = (odd[i / 6].as_str(), i % 3, i % 6 >= 3);
        w.case(i, || format!("{} with {:?} as {}", if signing { "signing" } else { "enrolling" }, t, ["application", "comment", "PIN"][place]), |w| {
            let a = Ask { app: if place == 0 { t } else { "ssh:" }, comment: if place == 1 { t } else { "c" }, pin: if place == 2 { Some(t) } else { None } };
            if !signing {
                return enrol(w, &Plan::simple(), 0, plain_auth(1, 1), &a);
            }
            let s = Sign { hw: eds.clone(), public: sk_pub(&eds, a.app), app: a.app, handle: fill(64, 9), pin: a.pin, flags: 1, counter: 5, msg: if place == 1 { t.as_bytes().to_vec() } else { b"m".to_vec() }, via: i / 6 % 2 };
            sign(w, &Plan::simple(), &s)
        });
    });
    // the random source
    cx.group("random source", 3 * 40, |w, i| {
        let (short, at) = ([usize::MAX, 1, 16][i / 40], i % 40);
        w.case(i, || format!("random source of {} bytes a call fails at call {}", short, at), |w| {
            rng_reset(i as u64 + 1);
            rng(|r| {
                r.max_per_request = short;
                r.fail_at = Some(at);
            });
            let (root, au) = (p256(1), plain_auth(1, 1));
            let register: Arc<RegisterFn> = Arc::new(move |r: &RegisterArgs| answer(0, &au, &r.client_data_hash).unwrap());
            let (r, seen) = with(w, "generate_new_ssh_key", &Plan::simple(), register, no_sign(), Some(off_record(|| root_pem(&root))), || generate_new_ssh_key("ssh:", "c", None, None))?;
            let failed = rng(|r| r.failures) > 0;
            let log = rng(|r| r.log.concat());
            for s in &seen.register {
                ensure!(log.windows(32).any(|x| x == s.0.client_data_hash), "the challenge {} does not come from the random source", hex(&s.0.client_data_hash));
            }
            ensure!(r.is_ok() != failed, "the random source {} and the result is {}", if failed { "fails" } else { "works" }, if r.is_ok() { "a key" } else { "an error" });
            Ok(if failed { "refused" } else { "key" })
        });
    });
    // several operations in a row: fresh challenges, nothing carried over
    let ops = ["enrol", "enrol, bad attestation", "enrol, device fails", "sign", "sign, device fails", "replayed answer"];
    let depth = cx.pick(3, 4);
    cx.bound(format!("every sequence of up to {} of {:?}", depth, ops));
    cx.group("sequences", words(ops.len(), depth), |w, i| {
        let l = word(i, ops.len(), depth);
        w.case(i, || format!("{:?}", l.iter().map(|x| ops[*x]).collect::<Vec<_>>()), |w| {
            rng_reset(i as u64 + 7);
            let mut challenges: Vec<[u8; 32]> = vec![];
            let mut last: Option<[u8; 32]> = None;
            for op in &l {
                match op {
                    0..=2 | 5 => {
                        let root = p256(1);
                        let how = if *op == 1 { 9 } else { 0 };
                        let old = if *op == 5 { last } else { None };
                        if *op == 5 && old.is_none() {
                            continue;
                        }
                        let register: Arc<RegisterFn> = Arc::new(move |r: &RegisterArgs| answer(how, &plain_auth(1, 1), old.as_ref().unwrap_or(&r.client_data_hash)).unwrap());
                        let p = Plan { end: if *op == 2 { End::Fails(4) } else { End::Answer }, ..Plan::simple() };
                        let (r, seen) = with(w, "generate_new_ssh_key", &p, register, no_sign(), Some(off_record(|| root_pem(&root))), || generate_new_ssh_key("ssh:", "c", None, None))?;
                        ensure_eq!(r.is_ok(), *op == 0, "success");
                        for s in &seen.register {
                            ensure!(!challenges.contains(&s.0.client_data_hash), "a challenge is used twice");
                            challenges.push(s.0.client_data_hash);
                            last = Some(s.0.client_data_hash);
                        }
                    }
                    _ => {
                        let p = Plan { end: if *op == 4 { End::Fails(4) } else { End::Answer }, ..Plan::simple() };
                        let s = Sign { hw: eds.clone(), public: sk_pub(&eds, "ssh:"), app: "ssh:", handle: fill(64, 9), pin: None, flags: 1, counter: 5, msg: vec![*op as u8, challenges.len() as u8], via: 1 };
                        sign(w, &p, &s)?;
                    }
                }
                w.state(&(challenges.len(), op));
            }
            Ok("done")
        });
    });
    // recorded answers of real devices, under the built-in root
    let rec: Vec<[&[u8]; 4]> = vec![
        [include_bytes!("../../fixtures/bio_auth.bin"), include_bytes!("../../fixtures/bio_sig.bin"), include_bytes!("../../fixtures/bio_chal.bin"), include_bytes!("../../fixtures/bio_cert.bin")],
        [include_bytes!("../../fixtures/nfc_auth.bin"), include_bytes!("../../fixtures/nfc_sig.bin"), include_bytes!("../../fixtures/nfc_chal.bin"), include_bytes!("../../fixtures/nfc_cert.bin")],
    ];
    cx.bound("recorded answers of two devices under the built-in root, with the challenge they belong to, every bit of it changed, and each bit of the data changed");
    cx.group("recorded", rec.len() * (1 + 256 + 8 * 128), |w, i| {
        let (r, j) = (&rec[i % 2], i / 2);
        let mut chal = refm::sha256(r[2]);
        let mut auth = r[0].to_vec();
        if (1..=256).contains(&j) {
            chal[(j - 1) / 8] ^= 1 << ((j - 1) % 8);
        } else if j > 256 {
            let b = j - 257;
            if b / 8 >= auth.len() {
                return;
            }
            auth[b / 8] ^= 1 << (b % 8);
        }
        w.case(i, || format!("recorded answer {}, change {}", i % 2, j), |w| {
            let d = match data(&auth) {
                Some(d) => d,
                None => return Ok("not deliverable"),
            };
            let raw = d.to_vec();
            let same = raw == r[0];
            rng_reset(1);
            rng(|g| g.script = chal.clone());
            let (sig, cert) = (r[1].to_vec(), r[3].to_vec());
            let register: Arc<RegisterFn> = Arc::new(move |_: &RegisterArgs| made(data(&auth).unwrap(), packed(COSEAlgorithm::ES256, sig.clone(), vec![cert.clone()])));
            let a = Ask { app: "ssh:", comment: "c", pin: None };
            let (g, seen) = with(w, "generate_new_ssh_key", &Plan::simple(), register, no_sign(), None, || generate_new_ssh_key(a.app, a.comment, None, None))?;
            ensure_eq!(seen.register.len(), 1, "registrations");
            let used = seen.register[0].0.client_data_hash;
            let ok = same && used[..] == refm::sha256(r[2])[..];
            match g {
                Ok(k) => {
                    ensure!(ok, "a key for an attestation that does not verify");
                    truthful(&k, &a, &raw, &used, None)?;
                    Ok("key")
                }
                Err(e) => {
                    ensure!(!(ok && is_ed(&raw) == Some(true)), "no key: {:?}", e);
                    Ok("error")
                }
            }
        });
    });
    // signatures
    let hws: Vec<(&str, Hw)> = vec![("ed25519", eds.clone()), ("p256", Hw::Ec(keys::scalar(9, 32))), ("ed25519 b", Hw::Ed(keys::seed(77))), ("p256 b", Hw::Ec(keys::scalar(201, 32)))];
    let lens = super::c02::lens(cx.pick(2000, 1 << 18));
    cx.bound(format!("signatures by Ed25519 and P-256 devices: {} message lengths, every flag byte, 40 counters, {} applications, {} handle lengths, 8 PINs", lens.len(), apps.len(), handles.len()));
    cx.group("messages", lens.len() * hws.len() * 2, |w, i| {
        let d = digits(i, &[lens.len(), hws.len(), 2]);
        let hw = &hws[d[1]].1;
        w.case(i, || format!("{} device, message of {} bytes", hws[d[1]].0, lens[d[0]]), |w| {
            let s = Sign { hw: hw.clone(), public: sk_pub(hw, "ssh:"), app: "ssh:", handle: fill(64, 9), pin: None, flags: 1, counter: 5, msg: fill(lens[d[0]], 3), via: d[2] };
            sign(w, &Plan::simple(), &s)
        });
    });
    cx.group("assertion flags and counters", 256 * 40 * 2, |w, i| {
        let d = digits(i, &[256, 40, 2]);
        let (f, c) = (d[0] as u8, d[1]);
        let count = if c < 32 { 1u32 << c } else { [0, 3, 255, 0x1ff, 0xffff, 0x7fffffff, 0xfffffffe, u32::MAX][c - 32] };
        let hw = &hws[d[2]].1;
        w.case(i, || format!("{} device, flags {:#x}, counter {}", hws[d[2]].0, f, count), |w| {
            let s = Sign { hw: hw.clone(), public: sk_pub(hw, "ssh:"), app: "ssh:", handle: fill(64, 9), pin: None, flags: f, counter: count, msg: b"message".to_vec(), via: i % 2 };
            sign(w, &Plan::simple(), &s)
        });
    });
    let radix = [hws.len(), apps.len(), handles.len(), 3];
    cx.group("assertion requests", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let hw = &hws[d[0]].1;
        let n = handles[d[2]];
        let pin = match d[3] {
            0 => None,
            _ => Some(texts[(d[2] + d[3]) % texts.len()]),
        };
        w.case(i, || format!("{} device, application {:?}, handle of {} bytes, PIN {:?}", hws[d[0]].0, apps[d[1]], n, pin), |w| {
            let s = Sign { hw: hw.clone(), public: sk_pub(hw, apps[d[1]]), app: apps[d[1]], handle: fill(n, 9), pin, flags: 5, counter: n as u32, msg: b"message".to_vec(), via: i % 2 };
            sign(w, &Plan::simple(), &s)
        });
    });
    // short and long r and s: the key is the one for which the numbers are a signature
    let mut nums: Vec<Vec<u8>> = vec![];
    for n in 1..=32usize {
        for top in [1u8, 0x7f, 0x80, 0xff] {
            let mut v = fill(n, 31);
            v[0] = top;
            if n == 32 && top == 0xff {
                v[0] = 0xfe;
            }
            nums.push(v);
        }
    }
    let big = keys::scalar(55, 32);
    cx.group("signature numbers", nums.len(), |w, i| {
        use num_bigint::BigUint;
        let msg = b"message".to_vec();
        let m = [&refm::sha256(b"ssh:")[..], &[1], &5u32.to_be_bytes(), &refm::sha256(&msg)].concat();
        let digest = refm::sha256(&m);
        let s = BigUint::from_bytes_be(&nums[i]);
        // r: the x of some point; the smallest one not below a number of the wanted length
        for r0 in [BigUint::from_bytes_be(&nums[nums.len() - 1 - i]), BigUint::from_bytes_be(&big)] {
            let mut r = r0;
            let mut pk = None;
            for _ in 0..40 {
                pk = ec::recover(&r, &s, &digest, C::P256);
                if pk.is_some() {
                    break;
                }
                r += 1u8;
            }
            let pk = match pk {
                Some(p) => p,
                None => continue,
            };
            let sig = ecdsa_sig(&r.to_bytes_be(), &s.to_bytes_be());
            w.case((&sig, i), || format!("device signature {}", hex(&sig)), |w| {
                let public = Pub::SkEc { pt: pk.clone(), app: "ssh:".into() };
                let key = sk_key(&public, &fill(64, 9), None);
                let s2 = sig.clone();
                let f: Arc<SignFn> = Arc::new(move |_: &SignArgs| {
                    let mut rp = [0; 32];
                    rp.copy_from_slice(&refm::sha256(b"ssh:"));
                    asserted(&rp, 1, 5, s2.clone())
                });
                let (g, _) = with(w, "sign", &Plan::simple(), no_register(), f, None, || sign_with_private_key(&key, &msg))?;
                let g = g.ok_or(Fail("no signature though the device gave one".into()))?;
                ensure!(keys::verify(&public, &g, &msg) == Tri::Yes, "the signature does not verify: {}", hex(&g));
                Ok("signature")
            });
        }
    });
    // malformed signatures: no panic
    let mut bad: Vec<Vec<u8>> = (0..80).map(|n| fill(n, 48)).collect();
    let good = ecdsa_sig(&fill(32, 1), &fill(32, 200));
    super::c03::edits(&good, 0, |_, v| bad.push(v));
    cx.group("malformed signatures", bad.len() * 2, |w, i| {
        let (b, hw) = (&bad[i / 2], &hws[i % 2].1);
        w.case(i, || format!("device signature {} for {}", hex(b), hws[i % 2].0), |w| {
            let s = Sign { hw: Hw::Fixed(b.clone()), public: sk_pub(hw, "ssh:"), app: "ssh:", handle: fill(64, 9), pin: None, flags: 1, counter: 5, msg: b"m".to_vec(), via: 0 };
            sign(w, &Plan::simple(), &s)
        });
    });
    // certificates and detached signatures made with a device
    cx.bound("certificates and detached signatures made with a device verify");
    cx.group("end to end", hws.len() * apps.len() * 4, |w, i| {
        let d = digits(i, &[hws.len(), apps.len(), 4]);
        let (hw, app) = (hws[d[0]].1.clone(), apps[d[1]]);
        w.case(i, || format!("{} device, application {:?}, use {}", hws[d[0]].0, app, d[2]), |w| {
            let public = sk_pub(&hw, app);
            let key = sk_key(&public, &fill(64, 9), Some("1234"));
            let (h2, a2) = (hw.clone(), app.to_string());
            let f: Arc<SignFn> = Arc::new(move |a: &SignArgs| assertion(&h2, &a2, 1, 5, &a.client_data_hash));
            let p = Plan { mode: d[2] % 2, ..Plan::simple() };
            if d[2] < 2 {
                let subj = conv::to_pubkey(&Priv::Ed { seed: keys::seed(3) }.public());
                let (r, _) = with(w, "certificate", &p, no_register(), f, None, || Certificate::builder(&subj, CertType::User, &key.pubkey)?.key_id("id").principal("p").valid_before(9).sign(&key))?;
                let c = r.map_err(|e| Fail(format!("no certificate: {:?}", e)))?;
                ensure!(refm::cert::judge(&c.serialized).0 == Tri::Yes, "the certificate is not valid");
            } else {
                let (r, _) = with(w, "SSHSIG", &p, no_register(), f, None, || VerifiedSshSignature::new_with_private_key(b"message", "file", key.clone(), Some(HashAlgorithm::Sha512)))?;
                let g = r.map_err(|e| Fail(format!("no signature: {:?}", e)))?;
                let s = refm::sshsig::Sig { key: public.clone(), namespace: "file".into(), hash: "sha512".into(), sig: g.signature.signature.clone() };
                super::c06::same_sig(&g.signature, &s)?;
                ensure!(refm::sshsig::verify(&s, b"message", "file", Some(&public)) == Tri::Yes, "the signature is not valid");
            }
            Ok("valid")
        });
    });
    // keys that are no security keys, and security keys without an application
    cx.group("other keys", 12, |w, i| {
        w.case(i, || format!("key {}", i), |w| {
            let mut key = match i {
                0..=3 => sk_key(&sk_pub(&hws[i].1, "ssh:"), &[], None),
                _ => conv::to_privkey(&[Priv::Ed { seed: keys::seed(3) }, p256(4), Priv::Rsa(keys::rsa("2048"))][i % 3]),
            };
            if i < 4 {
                // no application, or a public key of another kind
                match (&mut key.pubkey.kind, i) {
                    (PublicKeyKind::Ed25519(k), 0) => k.sk_application = None,
                    (PublicKeyKind::Ecdsa(k), 1) => k.sk_application = None,
                    (k, _) => *k = conv::to_pubkey(&Priv::Rsa(keys::rsa("2048")).public()).kind,
                }
            }
            let f: Arc<SignFn> = Arc::new(move |a: &SignArgs| assertion(&Hw::Ed(keys::seed(3)), "ssh:", 1, 5, &a.client_data_hash));
            let (r, s) = with(w, "sign_with_private_key", &Plan::simple(), no_register(), f, None, || sign_with_private_key(&key, b"m"))?;
            ensure!(r.is_none() && s.sign.is_empty(), "a signature for a key that is no security key");
            Ok("refused")
        });
    });
    // no transport at all
    cx.group("no driver", 2, |w, i| {
        w.case(i, || "no driver".to_string(), |w| {
            if i == 0 {
                let r = w.call("generate_new_ssh_key", || generate_new_ssh_key("ssh:", "c", None, None))?;
                ensure!(r.is_err(), "a key without a device");
            } else {
                let key = sk_key(&sk_pub(&eds, "ssh:"), &[1], None);
                let r = w.call("sign", || sign_with_private_key(&key, b"m"))?;
                ensure!(r.is_none(), "a signature without a device");
            }
            Ok("refused")
        });
    });
}
