//! Secrets are erased when a private key goes away.
use super::c10::pool;
use super::*;
use crate::conv;
use crate::engine::*;
use crate::ensure;
use crate::interpose::{rng_reset, watch_freed};
use refm::keys::Priv;
use refm::privkey::{armor, File, SkExtra};
use sshcerts::ssh::{KeyTypeKind, PrivateKey, PrivateKeyKind};
use std::panic::AssertUnwindSafe;

const PINS: [&str; 3] = ["first-pin-0123456789", "SECOND-PIN-98765", "third+pin+24680+x"];

/// Bytes that share no window with those of another seed.
fn noise(n: usize, seed: u8) -> Vec<u8> {
    (0..n.div_ceil(32)).flat_map(|i| ring::digest::digest(&ring::digest::SHA256, &[seed, i as u8, (i >> 8) as u8]).as_ref().to_vec()).take(n).collect()
}
fn sk1() -> SkExtra {
    SkExtra { flags: 1, handle: noise(64, 1), reserved: noise(12, 2) }
}
/// Windows of every secret a key value holds, with their names.
fn secrets(k: &PrivateKey) -> Vec<(String, Vec<u8>)> {
    let mut s: Vec<(&str, &[u8])> = vec![];
    match &k.kind {
        PrivateKeyKind::Rsa(r) => {
            s.extend([("d", &r.d[..]), ("iqmp", &r.coefficient), ("p", &r.p), ("q", &r.q)]);
            s.extend(r.exp.as_ref().map(|x| ("d mod p-1", &x[..])));
            s.extend(r.exq.as_ref().map(|x| ("d mod q-1", &x[..])));
        }
        PrivateKeyKind::Ecdsa(e) => s.push(("scalar", &e.key)),
        PrivateKeyKind::Ed25519(e) => s.push(("seed", e.key.get(..32).unwrap_or(&e.key))),
        PrivateKeyKind::Ed25519Sk(e) => {
            s.push(("handle", &e.handle));
            s.extend(e.pin.as_ref().map(|p| ("PIN", p.as_bytes())));
        }
        PrivateKeyKind::EcdsaSk(e) => {
            s.push(("handle", &e.handle));
            s.extend(e.pin.as_ref().map(|p| ("PIN", p.as_bytes())));
        }
    }
    let mut out = vec![];
    for (n, b) in s {
        let len = 8.min(b.len());
        // a window of zeros tells nothing
        let mut at: Vec<usize> = (0..b.len().saturating_sub(7)).step_by(8).collect();
        at.push(b.len() - len);
        for o in at {
            let v = b[o..o + len].to_vec();
            if v.len() >= 6 && v.iter().filter(|x| **x != 0).count() >= 5 {
                out.push((format!("{} (bytes {}..)", n, o), v));
            }
        }
    }
    out
}
/// Runs f; no block released meanwhile may hold any of the secrets.
fn erased<T>(w: &mut W, name: &str, secrets: &[(String, Vec<u8>)], f: impl FnOnce() -> T) -> R<(T, usize)> {
    let needles: Vec<Vec<u8>> = secrets.iter().map(|s| s.1.clone()).collect();
    let (v, leak, freed) = w.call(name, || watch_freed(&needles, f))?;
    if let Some((i, size)) = leak {
        return Err(Fail(format!("{}: a block of {} bytes is released with {} still in it", name, size, secrets[i].0)));
    }
    Ok((v, freed))
}
const PATHS: [&str; 7] = ["built", "from_string", "from_string_with_passphrase", "from_bytes", "encoded and read", "new", "from_path"];
/// A key made in the given way. None: the way does not apply to it.
fn make(w: &mut W, path: usize, k: &Priv, sk: &SkExtra, salt: u8) -> R<Option<PrivateKey>> {
    let f = File::plain(k, sk, 0x11223344, "comment");
    Ok(match path {
        0 => Some(conv::to_privkey_with(k, sk, 7, "comment")),
        1 => w.call("from_string", || PrivateKey::from_string(&armor(&f.encode(), 70)))?.ok(),
        2 => {
            let t = armor(&f.encrypt(b"pw", &fill(16, salt), 1), 70);
            w.call("from_string_with_passphrase", || PrivateKey::from_string_with_passphrase(&t, Some("pw".into())))?.ok()
        }
        3 => {
            let s = f.private_section();
            w.call("from_bytes", || PrivateKey::from_bytes(&s[8..]))?.ok()
        }
        4 => {
            let a = conv::to_privkey_with(k, sk, 7, "comment");
            let mut out = vec![];
            w.call("write", || a.write(&mut out))?.ok();
            let t = String::from_utf8(out).map_err(|_| Fail("written key is not text".into()))?;
            w.call("from_string", || PrivateKey::from_string(&t))?.ok()
        }
        5 => match k {
            Priv::Ed { .. } => {
                rng_reset(77 + salt as u64);
                w.call("new", || PrivateKey::new(KeyTypeKind::Ed25519, "c"))?.ok()
            }
            _ => return Ok(None),
        },
        _ => {
            let dir = format!("{}/target/scratch", verif_dir());
            let _ = std::fs::create_dir_all(&dir);
            let p = format!("{}/c23-{}-{}", dir, std::process::id(), w.index);
            if std::fs::write(&p, armor(&f.encode(), 70)).is_err() {
                return Ok(None);
            }
            let r = w.call("from_path", || PrivateKey::from_path(&p))?.ok();
            let _ = std::fs::remove_file(&p);
            r
        }
    })
}
const WAYS: [&str; 9] = ["dropped", "moved into a box", "in a vector", "in a vector that is cleared", "replaced by another", "unwound by a panic", "on another thread", "taken out of an option", "shared by a counter"];
fn drop_by(way: usize, k: PrivateKey, other: PrivateKey) -> PrivateKey {
    match way {
        0 => drop(k),
        1 => drop(Box::new(k)),
        2 => drop(vec![k]),
        3 => {
            let mut v = vec![k];
            v.clear();
        }
        4 => {
            let mut a = k;
            let _ = &a;
            let o = other.clone();
            a = o;
            drop(a)
        }
        5 => {
            let _ = std::panic::catch_unwind(AssertUnwindSafe(|| {
                let _held = k;
                std::panic::resume_unwind(Box::new(()))
            }));
        }
        7 => {
            let mut o = Some(k);
            drop(o.take());
        }
        8 => {
            let a = std::rc::Rc::new(k);
            let b = a.clone();
            drop(a);
            drop(b)
        }
        _ => drop(k),
    }
    other
}

pub fn run(cx: &Cx) {
    cx.assume("temporary buffers of parsing, writing and signing are not owned by the key value and not judged; secrets are looked for in windows of eight bytes");
    let sk2 = SkExtra { flags: 5, handle: noise(300, 3), reserved: noise(40, 4) };
    let keys: Vec<(String, Priv)> = pool();
    let other = &keys[0].1;
    let radix = [keys.len(), PATHS.len(), WAYS.len(), 4];
    cx.bound(format!("{} keys of every type, made in each of {:?}, gone in each of {:?}, without and with PIN and path set", keys.len(), PATHS, WAYS));
    cx.group("ways", prod(&radix), |w, i| {
        let d = digits(i, &radix);
        let (name, k) = &keys[d[0]];
        let sk = if d[3] & 1 == 0 { sk1() } else { sk2.clone() };
        w.case(i, || format!("{} {}, {}, {}", name, PATHS[d[1]], WAYS[d[2]], if d[3] > 1 { "with PIN and path" } else { "plain" }), |w| {
            let mut key = match make(w, d[1], k, &sk, i as u8)? {
                Some(k) => k,
                None => return Ok("not applicable"),
            };
            if d[3] > 1 {
                w.call("set_pin", || key.set_pin(PINS[0]))?;
                w.call("set_device_path", || key.set_device_path("/dev/x"))?;
            }
            let s = secrets(&key);
            let oth = conv::to_privkey(other);
            if d[2] == 6 {
                let needles: Vec<Vec<u8>> = s.iter().map(|s| s.1.clone()).collect();
                let h = std::thread::spawn(move || watch_freed(&needles, move || drop(key)).1);
                let leak = h.join().map_err(|_| Fail("dropping panics".into()))?;
                ensure!(leak.is_none(), "on another thread: {} still in a block of {:?} bytes released", s[leak.unwrap().0].0, leak);
                return Ok("erased");
            }
            let n = s.len();
            let way = d[2];
            let (o, freed) = erased(w, WAYS[way], &s, move || drop_by(way, key, oth))?;
            ensure!(freed > 0 || n == 0, "nothing released");
            drop(o);
            Ok("erased")
        });
    });
    // histories over two variables
    #[derive(Clone, Copy, Debug, Hash)]
    enum Op {
        Make,
        Clone,
        CloneInto,
        Pin(usize, usize),
        Path(usize),
        Drop(usize),
        Swap,
        Assign,
        Compare,
        Sign,
    }
    let ops = [Op::Make, Op::Clone, Op::CloneInto, Op::Pin(0, 0), Op::Pin(0, 1), Op::Pin(1, 2), Op::Pin(1, 0), Op::Path(0), Op::Drop(0), Op::Drop(1), Op::Swap, Op::Assign, Op::Compare, Op::Sign];
    // one key of each kind; making is costly for RSA
    let kinds: Vec<usize> = (0..6.min(keys.len())).collect();
    let depth = cx.pick(4, 5);
    cx.bound(format!("every sequence of up to {} operations {:?} on two variables, for {} keys", depth, ops, kinds.len()));
    let nw = words(ops.len(), depth);
    cx.group("histories", nw * kinds.len(), |w, i| {
        let (name, k) = &keys[kinds[i % kinds.len()]];
        let l: Vec<Op> = word(i / kinds.len(), ops.len(), depth).into_iter().map(|x| ops[x]).collect();
        // only histories in which something goes away at the end matter: their prefixes are others
        if !matches!(l.last(), Some(Op::Drop(_) | Op::CloneInto | Op::Assign | Op::Pin(..) | Op::Make)) && !l.is_empty() {
            return;
        }
        // the secret-bearing operations on security keys only
        if !matches!(k, Priv::SkEd { .. } | Priv::SkEc { .. }) && l.iter().any(|o| matches!(o, Op::Pin(..) | Op::Path(_))) {
            return;
        }
        let sk = sk1();
        w.case((name, format!("{:?}", l)), || format!("{}: {:?}", name, l), |w| {
            let mut v: [Option<PrivateKey>; 2] = [Some(conv::to_privkey_with(k, &sk, 7, "c")), None];
            for op in &l {
                // what any live value holds is secret, whatever is released
                let s: Vec<(String, Vec<u8>)> = v.iter().flatten().flat_map(secrets).collect();
                match *op {
                    Op::Make => {
                        let f = armor(&File::plain(k, &sk, 9, "c").encode(), 70);
                        let n = w.call("from_string", || PrivateKey::from_string(&f))?.map_err(|e| Fail(format!("{:?}", e)))?;
                        let old = std::mem::replace(&mut v[0], Some(n));
                        erased(w, "dropping the old value", &s, || drop(old))?;
                    }
                    Op::Clone => {
                        if let Some(x) = &v[0] {
                            let c = w.call("clone", || x.clone())?;
                            let old = std::mem::replace(&mut v[1], Some(c));
                            erased(w, "dropping the old value", &s, || drop(old))?;
                        }
                    }
                    Op::CloneInto => {
                        let (a, b) = v.split_at_mut(1);
                        if let (Some(a), Some(b)) = (&a[0], &mut b[0]) {
                            erased(w, "clone_from", &s, || b.clone_from(a))?;
                        }
                    }
                    Op::Pin(i, p) => {
                        if let Some(x) = &mut v[i] {
                            let pins: Vec<_> = s.into_iter().filter(|s| s.0.starts_with("PIN")).collect();
                            erased(w, "set_pin replacing a PIN", &pins, || x.set_pin(PINS[p]))?;
                        }
                    }
                    Op::Path(i) => {
                        if let Some(x) = &mut v[i] {
                            erased(w, "set_device_path", &s, || x.set_device_path("/dev/y"))?;
                        }
                    }
                    Op::Drop(i) => {
                        let old = v[i].take();
                        erased(w, "drop", &s, || drop(old))?;
                    }
                    Op::Swap => v.swap(0, 1),
                    Op::Assign => {
                        let (a, b) = v.split_at_mut(1);
                        if let Some(x) = a[0].take() {
                            let slot = &mut b[0];
                            erased(w, "assignment over the old value", &s, || *slot = Some(x))?;
                        }
                    }
                    Op::Compare => {
                        let (a, b) = (&v[0], &v[1]);
                        w.call("==", || a == b)?;
                    }
                    Op::Sign => {
                        use sshcerts::ssh::SSHCertificateSigner;
                        if let (Some(x), false) = (&v[0], matches!(k, Priv::SkEd { .. } | Priv::SkEc { .. })) {
                            w.call("sign", || x.sign(b"m").map(|_| ()))?;
                        }
                    }
                }
                w.state(&(name, format!("{:?}", v.iter().map(|x| x.as_ref().map(|x| secrets(x).len())).collect::<Vec<_>>()), format!("{:?}", op)));
            }
            // both go out of scope
            let s: Vec<(String, Vec<u8>)> = v.iter().flatten().flat_map(secrets).collect();
            erased(w, "going out of scope", &s, move || drop(v))?;
            Ok("erased")
        });
    });
    // whatever else the value holds
    let comments = ["", "c", " ", "user@host", "a long comment with words in it, and more of them", "é\n"];
    let radix = [keys.len(), comments.len(), 4, 4, 4, 4];
    cx.bound(format!("{} keys x 6 comments x 4 check values x 4 forms of the public half x 4 device paths x 4 PINs / missing exponents, and all 256 flags", keys.len()));
    cx.group("other fields", prod(&radix) + 512, |w, i| {
        let full = prod(&radix);
        let d = if i < full { digits(i, &radix) } else { vec![keys.iter().position(|k| match k.1 { Priv::SkEd { .. } => i % 2 == 0, Priv::SkEc { .. } => i % 2 == 1, _ => false }).unwrap(), 0, 0, 0, 0, 1] };
        let flags = if i < full { 1 } else { ((i - full) / 2) as u8 };
        let (name, k) = &keys[d[0]];
        w.case(i, || format!("{} comment {:?}, other fields {:?}, flags {}", name, comments[d[1]], &d[2..], flags), |w| {
            let mut sk = sk1();
            sk.flags = flags;
            let mut key = conv::to_privkey_with(k, &sk, [0, 7, 0x80000000, u32::MAX][d[2]], comments[d[1]]);
            key.pubkey.comment = [None, Some(String::new()), Some("other".into()), Some(comments[d[1]].into())][d[3]].clone();
            let path = [None, Some(""), Some("/dev/hidraw0"), Some("anywhere")][d[4]].map(|x: &str| x.to_string());
            let pin = [None, Some(PINS[0]), Some(PINS[1]), Some("")][d[5]].map(|x: &str| x.to_string());
            match &mut key.kind {
                PrivateKeyKind::Ed25519Sk(e) => (e.device_path, e.pin) = (path, pin),
                PrivateKeyKind::EcdsaSk(e) => (e.device_path, e.pin) = (path, pin),
                PrivateKeyKind::Rsa(r) => {
                    if d[5] & 1 != 0 {
                        r.exp = None;
                    }
                    if d[5] & 2 != 0 {
                        r.exq = None;
                    }
                }
                _ => (),
            }
            let s = secrets(&key);
            let c = w.call("clone", || key.clone())?;
            erased(w, "drop", &s, move || drop(key))?;
            erased(w, "drop of the clone", &s, move || drop(c))?;
            Ok("erased")
        });
    });
    // sizes
    let lens: Vec<usize> = (0..cx.pick(300, 1200)).collect();
    cx.bound(format!("security keys with handles and PINs of every length up to {}, Ed25519 and ECDSA keys with secrets of every length up to 100", lens.len()));
    cx.group("sizes", lens.len() * 4, |w, i| {
        let (n, kind) = (lens[i / 4], i % 4);
        w.case(i, || format!("secret of {} bytes, kind {}", n, kind), |w| {
            let k = &keys.iter().find(|k| match (&k.1, kind) { (Priv::SkEd { .. }, 0) | (Priv::SkEc { .. }, 1) | (Priv::Ed { .. }, 2) => true, (Priv::Ec { .. }, 3) => true, _ => false }).unwrap().1;
            let mut key = conv::to_privkey_with(k, &SkExtra { flags: 1, handle: noise(n, 5), reserved: vec![] }, 7, "c");
            match &mut key.kind {
                PrivateKeyKind::Ed25519(e) => e.key = noise(n.min(100), 6),
                PrivateKeyKind::Ecdsa(e) => e.key = noise(n.min(100), 6),
                PrivateKeyKind::Ed25519Sk(e) => e.pin = Some(text(n, 4)),
                PrivateKeyKind::EcdsaSk(e) => e.pin = Some(text(n, 4)),
                _ => (),
            }
            // spare capacity behind the secret
            if n % 3 == 1 {
                match &mut key.kind {
                    PrivateKeyKind::Ed25519(e) => e.key.reserve(100),
                    PrivateKeyKind::Ecdsa(e) => e.key.reserve(100),
                    PrivateKeyKind::Ed25519Sk(e) => e.handle.reserve(100),
                    PrivateKeyKind::EcdsaSk(e) => e.handle.reserve(100),
                    _ => (),
                }
            }
            let s = secrets(&key);
            let c = w.call("clone", || key.clone())?;
            erased(w, "drop", &s, move || drop(key))?;
            erased(w, "drop of the clone", &s, move || drop(c))?;
            Ok("erased")
        });
    });
}
