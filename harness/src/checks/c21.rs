//! YubiKey PIV operations against simulated cards, with a fault at every exchange.
use super::*;
use crate::card::*;
use crate::conv;
use crate::engine::*;
use crate::{ensure, ensure_eq};
use refm::der;
use refm::ec::C;
use refm::keys::{self, Priv, Pub};
use refm::x509;
use ring::signature as rs;
use sshcerts::yubikey::piv::{AlgorithmId, PinPolicy, SlotId, TouchPolicy, Yubikey};
use yubikey::certificate::PublicKeyInfo;

const SERIAL: u32 = 0x00abcdef;
const OTHER: u32 = 0x00abcdee;

fn p256(n: u8) -> Priv {
    Priv::Ec { c: C::P256, d: keys::scalar(n, 32) }
}
fn p384(n: u8) -> Priv {
    Priv::Ec { c: C::P384, d: keys::scalar(n, 48) }
}
fn alg_of(p: &Pub) -> Option<AlgorithmId> {
    Some(match p {
        Pub::Ec { c: C::P256, .. } => AlgorithmId::EccP256,
        Pub::Ec { c: C::P384, .. } => AlgorithmId::EccP384,
        Pub::Rsa { n, .. } if n.len() == 256 => AlgorithmId::Rsa2048,
        Pub::Rsa { n, .. } if n.len() == 128 => AlgorithmId::Rsa1024,
        _ => return None,
    })
}
fn slot(b: u8) -> SlotId {
    SlotId::try_from(b).unwrap()
}
/// 9a P-256 PIN once, 9c P-384 PIN always, 9d RSA PIN once, 9e P-256 no PIN, 84 P-384 no PIN, 85 key without certificate, 82 empty
fn stock(serial: u32, base: u8) -> Card {
    let mut c = Card::new(serial, base + 20);
    c.put(0x9a, p256(base), "nine a", 2);
    c.put(0x9c, p384(base + 1), "nine c", 3);
    c.put(0x9d, Priv::Rsa(keys::rsa("2048")), "nine d", 2);
    c.put(0x9e, p256(base + 2), "nine e", 1);
    c.put(0x84, p384(base + 3), "eight four", 1);
    c.put(0x85, p256(base + 4), "eight five", 1);
    c.objects.remove(&object_of(0x85).unwrap());
    c
}
fn worlds(i: usize) -> (World, usize) {
    match i {
        0 => (World::cards(vec![Some(stock(SERIAL, 1))]).plugs(), 0),
        1 => (World::cards(vec![Some(stock(OTHER, 101)), Some(stock(SERIAL, 1))]).plugs(), 1),
        2 => (World::cards(vec![None, Some(stock(SERIAL, 1)), Some(stock(OTHER, 101))]), 1),
        _ => {
            let mut c = stock(SERIAL, 1);
            c.version = [4, 3, 5];
            (World::cards(vec![Some(c), None]), 0)
        }
    }
}
#[derive(Clone, PartialEq, Eq, Hash)]
enum Op {
    Unlock(&'static [u8], Vec<u8>),
    Key(u8),
    Conf(u8),
    Subject(u8),
    Cert(u8),
    Type(u8),
    Attest(u8),
    Sign(u8, u8, Vec<u8>),
    Ssh(u8, Vec<u8>),
    Provision(u8, u8, u8, u8, String),
    Write(u8, Vec<u8>, bool),
    Csr(u8, String),
    /// a CSRSigner for the slot, asked to sign
    Signer(u8, Vec<u8>),
    Reconnect,
    // what others do meanwhile
    CardReset,
    Bounce,
    Pull,
    Insert,
    /// another host makes a new key in this slot
    Replace(u8),
    /// another host empties this slot
    Empty(u8),
}
impl std::fmt::Debug for Op {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let h = |b: &[u8]| format!("{}{}", hex(&b[..b.len().min(12)]), if b.len() > 12 { format!("... ({} bytes)", b.len()) } else { String::new() });
        match self {
            Op::Unlock(p, m) => write!(f, "unlock({}, {})", String::from_utf8_lossy(p), hex(m)),
            Op::Key(s) => write!(f, "pubkey({:x})", s),
            Op::Conf(s) => write!(f, "configured({:x})", s),
            Op::Subject(s) => write!(f, "subject({:x})", s),
            Op::Cert(s) => write!(f, "certificate({:x})", s),
            Op::Type(s) => write!(f, "type({:x})", s),
            Op::Attest(s) => write!(f, "attestation({:x})", s),
            Op::Sign(s, a, m) => write!(f, "sign({:x}, alg {:x}, {})", s, a, h(m)),
            Op::Ssh(s, m) => write!(f, "ssh_sign({:x}, {})", s, h(m)),
            Op::Provision(s, a, t, p, n) => write!(f, "provision({:x}, alg {:x}, touch {}, pin {}, {:?})", s, a, t, p, n),
            Op::Write(s, c, _) => write!(f, "write_certificate({:x}, {})", s, h(c)),
            Op::Csr(s, n) => write!(f, "csr({:x}, {:?})", s, n),
            Op::Signer(s, m) => write!(f, "signer({:x}, {})", s, h(m)),
            Op::Reconnect => write!(f, "reconnect"),
            Op::CardReset => write!(f, "[card reset by another]"),
            Op::Bounce => write!(f, "[pulled and put back]"),
            Op::Pull => write!(f, "[pulled]"),
            Op::Insert => write!(f, "[put back]"),
            Op::Replace(s) => write!(f, "[new key in {:x} by another]", s),
            Op::Empty(s) => write!(f, "[{:x} emptied by another]", s),
        }
    }
}
enum Out {
    Nothing,
    Key(Option<Pub>),
    Info(Option<Pub>),
    Text(String),
    Bytes(Vec<u8>),
    Alg(AlgorithmId),
    /// public key, whether it is P-384, signature
    Signer(Vec<u8>, bool, Vec<u8>),
}
fn alg(b: u8) -> AlgorithmId {
    AlgorithmId::try_from(b).unwrap()
}
fn info(i: &PublicKeyInfo) -> Option<Pub> {
    Some(match i {
        PublicKeyInfo::EcP256(k) => Pub::Ec { c: C::P256, pt: k.as_bytes().to_vec() },
        PublicKeyInfo::EcP384(k) => Pub::Ec { c: C::P384, pt: k.as_bytes().to_vec() },
        PublicKeyInfo::Rsa { pubkey, .. } => {
            use rsa::PublicKeyParts;
            Pub::Rsa { e: pubkey.e().to_bytes_be(), n: pubkey.n().to_bytes_be() }
        }
    })
}
fn exec(y: &mut Yubikey, op: &Op) -> Result<Out, String> {
    let e = |e: sshcerts::yubikey::piv::Error| format!("{:?}", e);
    Ok(match op {
        Op::Unlock(p, m) => y.unlock(p, m).map(|_| Out::Nothing).map_err(e)?,
        Op::Key(s) => Out::Key(conv::pubkey(&y.ssh_cert_fetch_pubkey(&slot(*s)).map_err(e)?)),
        Op::Conf(s) => Out::Info(info(&y.configured(&slot(*s)).map_err(e)?)),
        Op::Subject(s) => Out::Text(y.fetch_subject(&slot(*s)).map_err(e)?),
        Op::Cert(s) => Out::Bytes(y.fetch_certificate(&slot(*s)).map_err(e)?),
        Op::Type(s) => Out::Alg(y.get_ssh_key_type(&slot(*s)).map_err(e)?),
        Op::Attest(s) => Out::Bytes(y.fetch_attestation(&slot(*s)).map_err(e)?),
        Op::Sign(s, a, m) => Out::Bytes(y.sign_data(m, alg(*a), &slot(*s)).map_err(e)?),
        Op::Ssh(s, m) => Out::Bytes(y.ssh_cert_signer(m, &slot(*s)).map_err(e)?),
        Op::Provision(s, a, t, p, cn) => Out::Key(conv::pubkey(&y.provision(&slot(*s), cn, alg(*a), TouchPolicy::try_from(*t).unwrap(), PinPolicy::try_from(*p).unwrap()).map_err(e)?)),
        Op::Write(s, d, _) => y.write_certificate(&slot(*s), d).map(|_| Out::Nothing).map_err(e)?,
        Op::Csr(s, cn) => Out::Bytes(y.generate_csr(&slot(*s), cn).map_err(e)?),
        Op::Signer(s, m) => {
            use rcgen::RemoteKeyPair;
            let c = sshcerts::yubikey::piv::management::CSRSigner::open(y.yk.serial().into(), slot(*s)).map_err(e)?;
            let sig = c.sign(m).map_err(|e| e.to_string())?;
            Out::Signer(c.public_key().to_vec(), c.algorithm() == &rcgen::PKCS_ECDSA_P384_SHA384, sig)
        }
        Op::Reconnect => y.reconnect().map(|_| Out::Nothing).map_err(e)?,
        _ => Out::Nothing,
    })
}
/// Does the DER signature fit? sha: 256 or 384
fn fits(k: &Pub, m: &[u8], sig: &[u8], sha: usize) -> bool {
    match (k, sha) {
        (Pub::Ec { c: C::P256, pt }, 256) => rs::UnparsedPublicKey::new(&rs::ECDSA_P256_SHA256_ASN1, pt).verify(m, sig).is_ok(),
        (Pub::Ec { c: C::P256, pt }, _) => rs::UnparsedPublicKey::new(&rs::ECDSA_P256_SHA384_ASN1, pt).verify(m, sig).is_ok(),
        (Pub::Ec { c: C::P384, pt }, 256) => rs::UnparsedPublicKey::new(&rs::ECDSA_P384_SHA256_ASN1, pt).verify(m, sig).is_ok(),
        (Pub::Ec { c: C::P384, pt }, _) => rs::UnparsedPublicKey::new(&rs::ECDSA_P384_SHA384_ASN1, pt).verify(m, sig).is_ok(),
        (Pub::Rsa { e, n }, _) => rs::RsaPublicKeyComponents { n, e }.verify(&rs::RSA_PKCS1_1024_8192_SHA256_FOR_LEGACY_USE_ONLY, m, sig).is_ok(),
        _ => false,
    }
}
fn own_sha(k: &Pub) -> usize {
    if let Pub::Ec { c: C::P384, .. } = k {
        384
    } else {
        256
    }
}
/// The certificate stored for a slot.
fn stored(c: &Card, s: u8) -> Option<Vec<u8>> {
    let o = c.objects.get(&object_of(s)?)?;
    match der::read(o)? {
        (0x70, b, _) => Some(b.to_vec()),
        _ => None,
    }
}
fn key_in(cert: &[u8]) -> Option<Pub> {
    let body = x509::cert_spki(cert)?;
    let full = der::tlv(0x30, &body);
    // the keys used here are few
    let parts = der::children(&body)?;
    let point = parts.get(1)?.1.get(1..)?.to_vec();
    for k in [Pub::Ec { c: C::P256, pt: point.clone() }, Pub::Ec { c: C::P384, pt: point.clone() }] {
        if x509::spki(&k) == full {
            return Some(k);
        }
    }
    let (_, b, _) = der::read(&point)?;
    let n = der::children(b)?;
    let strip = |b: &[u8]| b.iter().copied().skip_while(|x| *x == 0).collect::<Vec<u8>>();
    Some(Pub::Rsa { n: strip(&n.first()?.1), e: strip(&n.get(1)?.1) })
}
/// CN of a name (the contents of its SEQUENCE), which holds nothing else.
fn common_name(n: &[u8]) -> Option<String> {
    let sets = der::children(n)?;
    if sets.len() != 1 {
        return None;
    }
    let a = der::children(&sets[0].1)?;
    if a.len() != 1 {
        return None;
    }
    let a = der::children(&a[0].1)?;
    if a.len() != 2 || der::tlv(6, &a[0].1) != der::oid("2.5.4.3") {
        return None;
    }
    String::from_utf8(a[1].1.clone()).ok()
}
/// What must come of the operation when nothing interferes: Some(true) success, Some(false) an error.
fn demand(c: &Card, op: &Op) -> Option<bool> {
    let pub_of = |s: &u8| stored(c, *s).and_then(|x| key_in(&x));
    let ec = |k: &Option<Pub>| matches!(k, Some(Pub::Ec { .. }));
    let may_sign = |s: &u8| c.keys.get(s).map_or(false, |k| k.pin == 1 || k.pin == 2 && c.pin_ok || k.pin == 3 && c.pin_fresh);
    let sound = |s: &u8| pub_of(s).is_some() && pub_of(s) == c.keys.get(s).map(|k| k.sk.public());
    match op {
        Op::Unlock(p, m) => {
            let pin_ok = **p == c.pin[..] && c.tries > 0 || p.is_empty() && c.pin_ok;
            Some(pin_ok && m[..] == c.mgm)
        }
        Op::Key(s) | Op::Type(s) => Some(ec(&pub_of(s))),
        Op::Conf(s) | Op::Subject(s) | Op::Cert(s) => Some(stored(c, *s).is_some()),
        Op::Attest(s) => Some(c.attestation(*s).is_some()),
        Op::Sign(s, a, _) => match pub_of(s) {
            None => Some(false),
            Some(k) if alg_of(&k) != Some(alg(*a)) => Some(false),
            Some(Pub::Rsa { .. }) => None,
            Some(_) if !may_sign(s) => Some(false),
            Some(_) if !sound(s) => None,
            Some(_) => Some(true),
        },
        Op::Ssh(s, _) => match pub_of(s) {
            None => Some(false),
            Some(Pub::Rsa { .. }) => None,
            Some(_) if !may_sign(s) => Some(false),
            Some(_) if !sound(s) => None,
            Some(_) => Some(true),
        },
        Op::Provision(_, _, _, _, cn) if cn.len() > 64 => None,
        Op::Provision(s, a, _, p, _) => {
            let policy = match (p, s) {
                (0, 0x9c) => 3,
                (0, 0x9e) => 1,
                (0, _) => 2,
                (p, _) => *p,
            };
            let pin = policy == 1 || policy == 2 && c.pin_ok || policy == 3 && c.pin_fresh;
            Some(c.mgm_ok && pin && [0x11, 0x14].contains(a) && object_of(*s).is_some())
        }
        Op::Write(_, _, good) => Some(*good && c.mgm_ok),
        Op::Csr(s, _) | Op::Signer(s, _) => match pub_of(s) {
            Some(Pub::Ec { .. }) if c.keys.get(s).map_or(false, |k| k.pin == 1) && sound(s) => Some(true),
            Some(Pub::Ec { .. }) if c.keys.contains_key(s) => None,
            _ => Some(false),
        },
        _ => None,
    }
}
/// One operation and its judgement. true: it succeeded.
fn step(w: &mut W, y: &mut Yubikey, me: usize, op: &Op) -> R<bool> {
    match op {
        Op::CardReset => world(|w| w.bump(me)),
        Op::Bounce => world(|w| w.pull(me, true)),
        Op::Pull => world(|w| w.pull(me, false)),
        Op::Insert => world(|w| w.out.clear()),
        Op::Replace(s) => world(|w| {
            if let Some(c) = w.readers[me].1.as_mut() {
                c.made += 1;
                let k = c.next_key(0x11);
                if let Some(k) = k {
                    c.put(*s, k, "replaced", 1);
                }
            }
        }),
        Op::Empty(s) => world(|w| {
            if let Some(c) = w.readers[me].1.as_mut() {
                c.keys.remove(s);
                if let Some(o) = object_of(*s) {
                    c.objects.remove(&o);
                }
            }
        }),
        _ => return act(w, y, me, op),
    }
    Ok(true)
}
fn act(w: &mut W, y: &mut Yubikey, me: usize, op: &Op) -> R<bool> {
    let (before, present, trouble) = world(|w| (w.readers.clone(), w.present(me), w.trouble));
    let got = w.call(&format!("{:?}", op), || exec(y, op))?;
    let (after, trouble) = world(|w| (w.readers.clone(), w.trouble - trouble));
    let (b, a) = (before[me].1.as_ref().unwrap(), after[me].1.as_ref().unwrap());
    // nothing but the slot in question is touched
    for (i, (x, z)) in before.iter().zip(&after).enumerate() {
        if let (Some(x), Some(z)) = (&x.1, &z.1) {
            let s = match op {
                Op::Provision(s, ..) | Op::Write(s, ..) if i == me => Some(*s),
                _ => None,
            };
            for o in x.objects.keys().chain(z.objects.keys()) {
                ensure!(s.and_then(object_of) == Some(*o) || x.objects.get(o) == z.objects.get(o), "{:?} changes object {:x}", op, o);
            }
            for k in x.keys.keys().chain(z.keys.keys()) {
                let made = matches!(op, Op::Provision(..)) && s == Some(*k);
                let public = |c: &Card| c.keys.get(k).map(|k| k.sk.public());
                ensure!(made || public(x) == public(z), "{:?} changes the key in slot {:x}", op, k);
            }
        }
    }
    let fine = trouble == 0 && present && (b.selected == 1 || *op == Op::Reconnect);
    let out = match got {
        Ok(o) => o,
        Err(e) => {
            if fine {
                ensure!(demand(b, op) != Some(true), "{:?} fails with {} though nothing is amiss", op, e);
                ensure!(*op != Op::Reconnect || b.tries < 3, "reconnect fails with {} though the card is there", e);
            }
            return Ok(false);
        }
    };
    ensure!(demand(b, op) != Some(false), "{:?} succeeds and must not", op);
    let cert = |s: &u8| stored(b, *s);
    let held = |s: &u8| b.keys.get(s).map(|k| k.sk.public());
    match (op, out) {
        (Op::Unlock(..), _) => ensure!(a.verified > b.verified && a.authenticated > b.authenticated && (trouble > 0 || a.pin_ok && a.mgm_ok), "unlock succeeds but the card is locked (PIN {}, management key {})", a.pin_ok, a.mgm_ok),
        (Op::Key(s), Out::Key(k)) => ensure_eq!(k, cert(s).and_then(|c| key_in(&c)), "key of the slot"),
        (Op::Conf(s), Out::Info(k)) => ensure_eq!(k, cert(s).and_then(|c| key_in(&c)), "key of the slot"),
        (Op::Subject(s), Out::Text(t)) => {
            let cn = cert(s).and_then(|c| der::read(&c).and_then(|x| der::children(x.1)).and_then(|x| der::children(&x[0].1))).and_then(|t| common_name(&t[5].1));
            // as it is, or with special characters escaped
            let mut plain = String::new();
            let mut esc = false;
            for c in t.chars() {
                esc = c == '\\' && !esc;
                if !esc {
                    plain.push(c);
                }
            }
            let cn = cn.map(|c| format!("CN={}", c));
            ensure!(Some(&t) == cn.as_ref() || Some(&plain) == cn.as_ref(), "the subject is given as {:?}, it is {:?}", t, cn);
        }
        (Op::Cert(s), Out::Bytes(x)) => ensure_eq!(Some(hex(&x)), cert(s).map(|c| hex(&c)), "certificate"),
        (Op::Type(s), Out::Alg(t)) => ensure_eq!(Some(t), cert(s).and_then(|c| key_in(&c)).and_then(|k| alg_of(&k)), "kind of key"),
        (Op::Attest(s), Out::Bytes(x)) => ensure_eq!(Some(hex(&x)), b.attestation(*s).map(|c| hex(&c)), "attestation"),
        (Op::Sign(s, _, m), Out::Bytes(x)) => {
            let k = held(s);
            ensure!(k.as_ref().map_or(false, |k| fits(k, m, &x, own_sha(k))), "the signature does not verify under the slot's key");
        }
        (Op::Ssh(s, m), Out::Bytes(x)) => {
            let k = held(s);
            let mut d = refm::wire::Dec::new(&x);
            let ty = d.bytes().map(|b| String::from_utf8_lossy(&b).to_string());
            let inner = d.bytes();
            let done = d.done();
            ensure!(done && ty.as_deref() == k.as_ref().map(|k| k.type_name()), "signature of kind {:?} for {:?}", ty, k);
            let inner = inner.unwrap_or_default();
            let mut d = refm::wire::Dec::new(&inner);
            let (r, q) = (d.bytes().unwrap_or_default(), d.bytes().unwrap_or_default());
            ensure!(d.done() && refm::wire::mpint_body(&refm::wire::strip0(&r)) == r && refm::wire::mpint_body(&refm::wire::strip0(&q)) == q, "numbers of the signature: {}", hex(&inner));
            let sig = der::ecdsa_sig(&r, &q);
            ensure!(k.as_ref().map_or(false, |k| fits(k, m, &sig, own_sha(k))), "the signature does not verify under the slot's key");
        }
        (Op::Provision(s, al, t, p, cn), Out::Key(k)) => {
            let n = a.keys.get(s);
            ensure!(a.made == b.made.wrapping_add(1) && n.is_some(), "no new key");
            let n = n.unwrap();
            ensure_eq!(k, Some(n.sk.public()), "key");
            ensure_eq!(alg_of(&n.sk.public()), Some(alg(*al)), "kind of key");
            let policy = match (p, s) {
                (0, 0x9c) => 3,
                (0, 0x9e) => 1,
                (0, _) => 2,
                (p, _) => *p,
            };
            ensure_eq!((n.pin, n.touch), (policy, if *t == 0 { 1 } else { *t }), "policies");
            let c = stored(a, *s);
            ensure!(c.is_some(), "no certificate");
            let c = c.unwrap();
            ensure_eq!(key_in(&c), k, "key of the certificate");
            let tbs = der::read(&c).and_then(|x| der::children(x.1)).and_then(|x| der::children(&x[0].1)).unwrap_or_default();
            ensure_eq!(tbs.get(5).and_then(|t| common_name(&t.1)), Some(cn.clone()), "subject of the certificate");
            let (t, sig) = x509::parts(&c).unwrap_or_default();
            ensure!(fits(&n.sk.public(), &t, &sig, 256), "the certificate's signature");
        }
        (Op::Write(s, d, _), _) => ensure_eq!(a.objects.get(&object_of(*s).unwrap_or(0)).map(|x| hex(x)), Some(hex(&cert_object(d))), "certificate object"),
        (Op::Csr(s, cn), Out::Bytes(x)) => {
            let k = held(s);
            ensure!(k.is_some(), "a request for no key");
            let k = k.unwrap();
            let r = der::read(&x);
            ensure!(matches!(r, Some((0x30, _, b)) if b.is_empty()), "request {}", hex(&x));
            let top = r.and_then(|x| der::children(x.1)).unwrap_or_default();
            ensure_eq!(top.len(), 3, "request");
            let inf = der::children(&top[0].1).unwrap_or_default();
            ensure!(inf.len() >= 3, "request {}", hex(&x));
            ensure_eq!(common_name(&inf[1].1), Some(cn.clone()), "subject");
            ensure_eq!(hex(&der::tlv(0x30, &inf[2].1)), hex(&x509::spki(&k)), "key in the request");
            ensure_eq!(hex(&der::tlv(0x30, &top[1].1)), hex(&der::seq(&[der::oid(if own_sha(&k) == 256 { x509::ECDSA_SHA256 } else { x509::ECDSA_SHA384 })])), "algorithm");
            let (t, sig) = x509::parts(&x).unwrap_or_default();
            ensure!(fits(&k, &t, &sig, own_sha(&k)), "the request's signature");
        }
        (Op::Signer(s, m), Out::Signer(p, is384, sig)) => {
            let k = held(s);
            let k = match k {
                Some(Pub::Ec { c, pt }) => {
                    ensure_eq!(hex(&p), hex(&pt), "public key of the signer");
                    ensure_eq!(is384, c == C::P384, "algorithm of the signer");
                    Pub::Ec { c, pt }
                }
                k => return Err(Fail(format!("a signer for {:?}", k))),
            };
            ensure!(fits(&k, m, &sig, own_sha(&k)), "the signature does not verify under the slot's key");
        }
        (Op::Reconnect, _) => {
            // the session works, with the card it was opened with
            ensure_eq!(u32::from(y.yk.serial()), b.serial, "serial number");
            if fine && world(|w| w.fault.is_none()) {
                if let Some((s, c)) = (0x82..=0x9eu8).find_map(|s| stored(a, s).map(|c| (s, c))) {
                    let g = w.call("fetch_certificate", || y.fetch_certificate(&slot(s)))?;
                    ensure!(g.as_ref().map_or(false, |g| *g == c), "after reconnect a certificate reads {:?}", g);
                }
            }
        }
        _ => return Err(Fail("unexpected kind of result".into())),
    }
    Ok(true)
}
fn open(w: &mut W, wi: usize) -> R<(Option<Yubikey>, usize)> {
    let (wd, me) = worlds(wi);
    world(|w| *w = wd);
    let y = w.call("open", || Yubikey::open(SERIAL))?;
    if let Ok(y) = &y {
        ensure_eq!(u32::from(y.yk.serial()), SERIAL, "serial number");
    }
    Ok((y.ok(), me))
}
fn faults() -> Vec<Fault> {
    let mut v: Vec<Fault> = [NO_SERVICE, COMM, TIMEOUT, SHARING, REMOVED, RESET].into_iter().map(Fault::Code).collect();
    v.extend([Fault::After(COMM), Fault::CardReset, Fault::Pulled, Fault::Bounced, Fault::ServiceGone]);
    v.extend([0x6982u16, 0x6983, 0x6985, 0x6a80, 0x6a82, 0x6a84, 0x6b00, 0x6d00, 0x6f00, 0x6700, 0x63c2, 0x63c0, 0x6285].into_iter().map(Fault::Status));
    v.extend([0x6f00u16, 0x6985].into_iter().map(Fault::StatusAfter));
    v
}
fn applies(f: Fault, c: Call) -> bool {
    match f {
        Fault::Status(_) | Fault::StatusAfter(_) => c == Call::Transmit,
        _ => true,
    }
}
/// The sequence, and then again with every fault at every exchange of its last operation.
fn sequence(w: &mut W, wi: usize, ops: &[Op], with_faults: bool) -> R<&'static str> {
    let mut starts = 0;
    let mut ok = false;
    let calls = {
        let (y, me) = open(w, wi)?;
        ensure!(y.is_some(), "the card cannot be opened");
        let mut y = y.unwrap();
        for (i, op) in ops.iter().enumerate() {
            if i + 1 == ops.len() {
                starts = world(|w| w.calls.len());
            }
            ok = step(w, &mut y, me, op)?;
            w.state(&(wi, i, op, ok, world(|w| w.readers[me].1.as_ref().map(|c| (c.pin_ok, c.pin_fresh, c.mgm_ok, c.tries, c.made)))));
        }
        let c = world(|w| w.calls.clone());
        c
    };
    if with_faults {
        for at in starts..calls.len() {
            for f in faults() {
                if !applies(f, calls[at]) {
                    continue;
                }
                let (y, me) = open(w, wi)?;
                ensure!(y.is_some(), "the card cannot be opened");
                let mut y = y.unwrap();
                for (i, op) in ops.iter().enumerate() {
                    if i + 1 == ops.len() {
                        world(|w| w.fault = Some((at, f)));
                    }
                    let r = step(w, &mut y, me, op).map_err(|e| Fail(format!("fault {:x?} at exchange {} ({:?}): {}", f, at - starts, calls[at], e.0)))?;
                    w.state(&(wi, i, op, r, at, f));
                }
                w.transition();
            }
        }
    }
    Ok(if ok { "done" } else { "refused" })
}

pub fn run(cx: &Cx) {
    cx.assume("cards follow PIV and PC/SC as modelled in harness/src/card.rs (selection, PIN, management key, certificate objects, chaining, resets of shared cards); faults are error codes of the service and status words of the card, not malformed success answers");
    cx.assume("the certificate of a slot is that of the slot's key, except after a provisioning that failed half way");
    let m = |n: usize| fill(n, 7);
    let junk = fill(40, 1);
    let good = cert_for(&p256(1), "other name");
    let mgm = MGM.to_vec();
    let mut wrong = mgm.clone();
    wrong[23] ^= 2;
    let mut alphabet = vec![
        Op::Unlock(b"123456", mgm.clone()),
        Op::Unlock(b"123457", mgm.clone()),
        Op::Unlock(b"123456", wrong.clone()),
        Op::Ssh(0x9a, m(5)),
        Op::Ssh(0x84, m(6)),
        Op::Ssh(0x9c, m(7)),
        Op::Ssh(0x82, m(8)),
        Op::Sign(0x9a, 0x11, m(9)),
        Op::Sign(0x9a, 0x14, m(9)),
        Op::Sign(0x9e, 0x11, m(10)),
        Op::Key(0x9a),
        Op::Key(0x82),
        Op::Type(0x9c),
        Op::Conf(0x9e),
        Op::Attest(0x9a),
        Op::Cert(0x84),
        Op::Subject(0x9a),
        Op::Provision(0x9a, 0x11, 1, 2, "new".into()),
        Op::Provision(0x82, 0x14, 2, 1, "fresh".into()),
        Op::Write(0x82, good.clone(), true),
        Op::Csr(0x9e, "cn".into()),
        Op::Csr(0x84, "name".into()),
        Op::Csr(0x9a, "cn".into()),
        Op::Signer(0x9e, m(33)),
        Op::Reconnect,
        Op::CardReset,
        Op::Bounce,
        Op::Pull,
        Op::Insert,
        Op::Replace(0x9a),
        Op::Empty(0x9e),
    ];
    let ops = alphabet.clone();
    let depth = cx.pick(3, 4);
    cx.bound(format!("every sequence of up to {} of {} operations and events on two cards: {:?}", depth, ops.len(), ops.iter().collect::<Vec<_>>()));
    cx.group("sequences", words(ops.len(), depth), |w, i| {
        let l: Vec<Op> = word(i, ops.len(), depth).into_iter().map(|x| ops[x].clone()).collect();
        w.case(i, || format!("{:?}", l), |w| sequence(w, 1, &l, false));
    });
    // faults
    alphabet.push(Op::Sign(0x9d, 7, m(3)));
    alphabet.push(Op::Key(0x9d));
    alphabet.push(Op::Write(0x9a, junk.clone(), false));
    let prefixes: Vec<Vec<Op>> = vec![
        vec![],
        vec![Op::Unlock(b"123456", mgm.clone())],
        vec![Op::Unlock(b"123456", mgm.clone()), Op::Provision(0x9a, 0x14, 1, 1, "p".into())],
        vec![Op::Unlock(b"123456", mgm.clone()), Op::Csr(0x9e, "x".into()), Op::Reconnect],
        vec![Op::Bounce],
        vec![Op::CardReset],
        vec![Op::Unlock(b"123456", mgm.clone()), Op::CardReset],
        vec![Op::Unlock(b"123456", mgm.clone()), Op::Ssh(0x9c, m(1))],
    ];
    cx.bound(format!("every operation after {} histories on 4 sets of readers, with each of {} faults at each of its exchanges with the card service", prefixes.len(), faults().len()));
    let radix = [4, prefixes.len(), alphabet.len()];
    cx.group("faults", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let mut l = prefixes[d[1]].clone();
        l.push(alphabet[d[2]].clone());
        w.case(i, || format!("readers {}: {:?}", d[0], l), |w| sequence(w, d[0], &l, true));
    });
    // an operation after a fault: the same session goes on
    let radix = [ops.len(), ops.len()];
    cx.bound("after a fault in one operation, the next one");
    cx.group("after a fault", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let l = [Op::Unlock(b"123456", mgm.clone()), ops[d[0]].clone(), ops[d[1]].clone()];
        w.case(i, || format!("{:?}", l), |w| {
            let (n, calls) = {
                let (y, me) = open(w, 1)?;
                ensure!(y.is_some(), "the card cannot be opened");
                let mut y = y.unwrap();
                step(w, &mut y, me, &l[0])?;
                let n = world(|w| w.calls.len());
                step(w, &mut y, me, &l[1])?;
                let c = world(|w| w.calls.clone());
                (n, c)
            };
            for at in n..calls.len() {
                for f in faults() {
                    if !applies(f, calls[at]) {
                        continue;
                    }
                    let (y, me) = open(w, 1)?;
                    ensure!(y.is_some(), "the card cannot be opened");
                    let mut y = y.unwrap();
                    step(w, &mut y, me, &l[0])?;
                    world(|w| w.fault = Some((at, f)));
                    let tell = |e: Fail| Fail(format!("fault {:x?} at exchange {} of the second ({:?}): {}", f, at - n, calls[at], e.0));
                    step(w, &mut y, me, &l[1]).map_err(tell)?;
                    world(|w| w.fault = None);
                    step(w, &mut y, me, &l[2]).map_err(tell)?;
                    w.transition();
                }
            }
            Ok("done")
        });
    });
    // every slot, holding every kind of key
    let slots: Vec<u8> = (0x82..=0x95).chain([0x9a, 0x9c, 0x9d, 0x9e, 0xf9]).collect();
    let kinds = ["P-256", "P-384", "RSA 2048", "RSA 1024", "empty", "key alone", "certificate alone"];
    let radix = [slots.len(), kinds.len(), 3];
    cx.bound(format!("all {} slots, all filled with different keys, the one in question holding {:?}; PIN policies never, once, always", slots.len(), kinds));
    cx.group("slots", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let s = slots[d[0]];
        w.case(i, || format!("slot {:x}, {}, PIN policy {}", s, kinds[d[1]], d[2] + 1), |w| {
            let mut c = Card::new(SERIAL, 60);
            for (n, x) in slots.iter().enumerate() {
                c.put(*x, if n % 2 == 0 { p256(100 + n as u8) } else { p384(100 + n as u8) }, &format!("slot {:x}", x), 1);
            }
            let k = match d[1] {
                1 => p384(90),
                2 => Priv::Rsa(keys::rsa("2048")),
                3 => Priv::Rsa(keys::rsa("1024")),
                _ => p256(90),
            };
            c.put(s, k, "this", d[2] as u8 + 1);
            let o = object_of(s).unwrap();
            if d[1] == 4 || d[1] == 5 {
                c.objects.remove(&o);
            }
            if d[1] == 4 || d[1] == 6 {
                c.keys.remove(&s);
            }
            world(|w| *w = World::cards(vec![Some(c)]));
            let y = w.call("new", Yubikey::new)?;
            ensure!(y.is_ok(), "new: {:?}", y.err());
            let mut y = y.unwrap();
            let mut ops = vec![Op::Key(s), Op::Conf(s), Op::Subject(s), Op::Cert(s), Op::Type(s), Op::Attest(s)];
            for locked in [true, false] {
                if !locked {
                    ops.push(Op::Unlock(b"123456", MGM.to_vec()));
                }
                for a in [0x11, 0x14, 6, 7] {
                    ops.push(Op::Sign(s, a, fill(30 + a as usize, 3)));
                    if !locked && d[2] == 2 {
                        ops.push(Op::Unlock(b"123456", MGM.to_vec()));
                    }
                }
                ops.push(Op::Ssh(s, fill(100, 4)));
            }
            ops.push(Op::Csr(s, "a name".into()));
            ops.push(Op::Signer(s, fill(50, 7)));
            ops.push(Op::Signer(s, vec![]));
            ops.push(Op::Reconnect);
            ops.push(Op::Unlock(b"123456", MGM.to_vec()));
            for a in [0x14, 0x11] {
                ops.push(Op::Provision(s, a, d[2] as u8 + 1, d[2] as u8 + 1, format!("made {}", a)));
                ops.extend([Op::Key(s), Op::Conf(s), Op::Subject(s), Op::Cert(s), Op::Type(s), Op::Attest(s), Op::Unlock(b"123456", MGM.to_vec()), Op::Ssh(s, fill(12, 4)), Op::Unlock(b"123456", MGM.to_vec()), Op::Sign(s, a, fill(9, 4)), Op::Csr(s, "made".into()), Op::Signer(s, fill(9, 8)), Op::Reconnect, Op::Unlock(b"123456", MGM.to_vec())]);
            }
            ops.push(Op::Write(s, cert_for(&p256(90), "w"), true));
            ops.extend([Op::Key(s), Op::Cert(s)]);
            for op in &ops {
                let r = step(w, &mut y, 0, op)?;
                w.state(&(s, d[1], d[2], op, r));
                w.transition();
            }
            Ok("done")
        });
    });
    // policies of provisioning
    let radix = [5, 4, 4, 4, 2];
    cx.group("policies", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let s = [0x9a, 0x9c, 0x9d, 0x9e, 0x82][d[0]];
        let a = [0x11, 0x14, 6, 7][d[1]];
        w.case(i, || format!("slot {:x} algorithm {:x} touch {} PIN {} unlocked {}", s, a, d[2], d[3], d[4]), |w| {
            let mut ops = vec![];
            if d[4] == 1 {
                ops.push(Op::Unlock(b"123456", MGM.to_vec()));
            }
            ops.push(Op::Provision(s, a, d[2] as u8, d[3] as u8, "policy".into()));
            ops.push(Op::Attest(s));
            sequence(w, 0, &ops, false)
        });
    });
    // names
    let mut names: Vec<String> = ["a", "user@host", "two words", "with, comma", "a=b", "\"quoted\"", "plus+", "\u{e9}\u{4e2d}", "0123456789012345678901234567890123456789012345678901234567890123", "*", "back\\slash", "'", "", " ", " lead", "trail ", "UPPER lower"].map(String::from).to_vec();
    for c in (1..0x100u32).filter_map(char::from_u32) {
        names.push([format!("{}", c), format!("{}x{}", c, c), format!("a{}b", c)][c as usize % 3].clone());
    }
    names.extend((1..=cx.pick(80, 300)).map(|n| text(n, 1)));
    cx.bound(format!("{} common names (every character below U+0100, every length up to {}) in requests for two slots and in provisioning", names.len(), cx.pick(80, 300)));
    cx.group("names", names.len() * 3, |w, i| {
        let (n, k) = (&names[i / 3], i % 3);
        w.case(i, || format!("common name {:?}", n), |w| {
            let ops: Vec<Op> = match k {
                0 => vec![Op::Csr(0x9e, n.clone())],
                1 => vec![Op::Csr(0x84, n.clone())],
                _ => vec![Op::Unlock(b"123456", MGM.to_vec()), Op::Provision(0x9a, 0x11, 1, 1, n.clone()), Op::Cert(0x9a), Op::Subject(0x9a)],
            };
            sequence(w, 1, &ops, false)
        });
    });
    // PINs and management keys
    let pins: [&'static [u8]; 12] = [b"", b"1", b"12345", b"123456", b"123456\xff", b"123456\xff\xff", b"1234567", b"12345678", b"123456789", b"\0\0\0\0\0\0", b"654321", b"\xff\xff\xff\xff\xff\xff\xff\xff"];
    let keys_: Vec<Vec<u8>> = vec![mgm.clone(), wrong.clone(), vec![], mgm[..23].to_vec(), [&mgm[..], &[1]].concat(), mgm[..16].to_vec(), vec![0; 24], vec![1; 24], mgm.iter().rev().copied().collect(), {
        let mut k = mgm.clone();
        k[0] ^= 0x40;
        k
    }];
    let radix = [pins.len(), keys_.len(), 3];
    cx.group("unlocking", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        w.case(i, || format!("PIN {:?}, management key {}, after {} wrong PINs", String::from_utf8_lossy(pins[d[0]]), hex(&keys_[d[1]]), d[2]), |w| {
            let (y, me) = open(w, 0)?;
            ensure!(y.is_some(), "the card cannot be opened");
            let mut y = y.unwrap();
            for _ in 0..d[2] {
                step(w, &mut y, me, &Op::Unlock(b"000000", MGM.to_vec()))?;
            }
            // 123456 padded by the caller is the same PIN to the card
            let same = pins[d[0]].starts_with(b"123456") && pins[d[0]][6..].iter().all(|x| *x == 0xff);
            let p: &'static [u8] = if same { b"123456" } else { pins[d[0]] };
            if p != pins[d[0]] {
                let k = keys_[d[1]].clone();
                let _ = w.call("unlock", || y.unlock(pins[d[0]], &k))?;
            } else {
                step(w, &mut y, me, &Op::Unlock(p, keys_[d[1]].clone()))?;
            }
            step(w, &mut y, me, &Op::Ssh(0x9a, vec![1]))?;
            step(w, &mut y, me, &Op::Provision(0x82, 0x11, 1, 1, "x".into()))?;
            step(w, &mut y, me, &Op::Write(0x83, cert_for(&p256(1), "y"), true))?;
            Ok("done")
        });
    });
    // what is signed
    let lens: Vec<usize> = (0..cx.pick(300, 1100)).chain([4096, 65536]).collect();
    cx.group("messages", lens.len() * 2, |w, i| {
        let n = lens[i / 2];
        w.case(i, || format!("{} bytes", n), |w| {
            let m = fill(n, 3);
            sequence(w, 0, &if i % 2 == 0 { [Op::Ssh(0x9e, m.clone()), Op::Sign(0x84, 0x14, m)] } else { [Op::Ssh(0x84, m.clone()), Op::Sign(0x9e, 0x11, m)] }, false)
        });
    });
    // certificates to write
    let mut certs: Vec<(Vec<u8>, bool)> = vec![(vec![], false), (vec![0x30], false), (fill(300, 2), false)];
    for n in [0usize, 1, 50, 100, 200, 300, 500, 1000, 1500, 2000, 2500] {
        let k = p256(1);
        let x = x509::Tbs::new("i", "s", &k.public(), &k, vec![x509::ext("1.2.3.4", false, &der::octets(&fill(n, 1)))]).sign(&k);
        certs.push((x.clone(), true));
        certs.push((x[..x.len() - 1].to_vec(), false));
    }
    for k in [p384(7), Priv::Rsa(keys::rsa("2048")), Priv::Rsa(keys::rsa("1024"))] {
        certs.push((cert_for(&k, "z"), true));
    }
    certs.push((cert_for(&Priv::Ed { seed: keys::seed(1) }, "ed"), false));
    cx.group("certificates", certs.len() * 2, |w, i| {
        let (c, good) = &certs[i / 2];
        w.case(i, || format!("certificate {}", hex(&c[..c.len().min(60)])), |w| {
            let mut ops = vec![Op::Write(0x82, c.clone(), *good), Op::Cert(0x82), Op::Key(0x82), Op::Subject(0x82), Op::Cert(0x83)];
            if i % 2 == 0 {
                ops.insert(0, Op::Unlock(b"123456", MGM.to_vec()));
            }
            sequence(w, 1, &ops, false)
        });
    });
    // opening
    let serials = [SERIAL, OTHER, 0, 1, u32::MAX, SERIAL ^ 0x0100_0000];
    cx.group("opening", 64 * (serials.len() + 1), |w, i| {
        let (cfg, q) = (i % 64, i / 64);
        w.case(i, || format!("readers {}, asked for {:?}", cfg, serials.get(q)), |w| {
            // up to three readers: 0 none, 1 empty, 2 SERIAL, 3 OTHER
            let l = digits(cfg, &[4, 4, 4]);
            let cards: Vec<Option<Card>> = l.iter().filter(|x| **x != 0).map(|x| if *x == 1 { None } else { Some(stock(if *x == 2 { SERIAL } else { OTHER }, 1 + 100 * (*x as u8 - 2))) }).collect();
            let n = cards.len();
            let has = |s: u32| cards.iter().flatten().any(|c| c.serial == s);
            let there = serials.get(q).map(|s| has(*s));
            let wd = World::cards(cards.clone());
            let attempt = |w: &mut W, fault: Option<(usize, Fault)>| -> R<(Option<u32>, Vec<Call>)> {
                world(|x| {
                    *x = wd.clone();
                    x.fault = fault;
                });
                let r = match serials.get(q) {
                    Some(s) => w.call("open", || Yubikey::open(*s))?,
                    None => w.call("new", Yubikey::new)?,
                };
                let c = world(|w| w.calls.clone());
                if let (Some(s), Ok(y)) = (serials.get(q), &r) {
                    ensure_eq!(u32::from(y.yk.serial()), *s, "serial number");
                }
                let g = r.ok().map(|y| u32::from(y.yk.serial()));
                Ok((g, c))
            };
            let (r, calls) = attempt(w, None)?;
            match there {
                Some(t) => ensure_eq!(r.is_some(), t, "opened"),
                None => {
                    ensure!(r.is_none() || n == 1, "new opens one of {} cards", n);
                    ensure_eq!(r.is_some(), n == 1 && cards[0].is_some(), "opened");
                    if let Some(s) = r {
                        ensure!(has(s), "serial {} is not there", s);
                    }
                }
            }
            for at in 0..calls.len() {
                for f in faults() {
                    if applies(f, calls[at]) {
                        let (r, _) = attempt(w, Some((at, f)))?;
                        if there == Some(false) {
                            ensure!(r.is_none(), "a card that is not there is opened");
                        }
                        w.transition();
                    }
                }
            }
            Ok(if r.is_some() { "opened" } else { "none" })
        });
    });
}
