//! Encrypted private keys.
use super::c03::edits;
use super::c10::{brief, pool, same, sk0};
use super::*;
use crate::engine::*;
use crate::ensure;
use refm::keys::Priv;
use refm::privkey::{self, armor, File, Opened};
use refm::wire::{be32, string, Dec, Enc};
use refm::Tri;
use sshcerts::ssh::PrivateKey;

/// the cost of opening: model and code must not be asked for millions of rounds
fn rounds(b: &[u8]) -> u32 {
    (|| {
        let mut d = Dec::new(b);
        d.raw(15)?;
        d.bytes()?;
        d.bytes()?;
        let o = d.bytes()?;
        let mut o = Dec::new(o);
        o.bytes()?;
        o.u32()
    })()
    .unwrap_or(0)
}
fn open(w: &mut W, b: &[u8], pass: Option<&str>, plain: Option<&[u8]>) -> R<&'static str> {
    if rounds(b) > 1024 {
        return Ok("skipped: too many rounds");
    }
    let (t, o) = privkey::open(b, pass.map(|p| p.as_bytes()));
    let text = armor(b, 70);
    let g = w.call("from_string_with_passphrase", || PrivateKey::from_string_with_passphrase(&text, pass.map(String::from)))?;
    ensure!(t.allows(g.is_ok()), "passphrase {:?} gives {}, expected {:?}", pass, brief(&g), t);
    match g {
        Ok(g) => {
            same(w, &g, o.as_ref().unwrap(), if t == Tri::Yes { plain } else { None })?;
            Ok("opened")
        }
        Err(_) => Ok("refused"),
    }
}

pub fn run(cx: &Cx) {
    let pool = pool();
    let mut pw: Vec<String> = ["a", "b", "A", "a ", " a", "a\0", "\0a", "\0", "aa", "password", "Password", "passwor", "passwordd", "password\n", "password\r", "é", "e\u{301}", "e", "日本", "\u{1f511}", "\u{fe0f}", "0", "00", "none", " "].iter().map(|s| s.to_string()).collect();
    for n in [8, 15, 16, 17, 31, 32, 33, 55, 56, 63, 64, 65, 71, 72, 73, 127, 128, 129, 255, 256, 1000] {
        pw.push(text(n, 0));
    }
    pw.push({
        let mut s = text(73, 0);
        s.pop();
        s.push('#');
        s
    });
    let np = pw.len();
    cx.bound(format!("{} passphrases, all pairs (set, asked), empty and none; {} keys; salts of 1..=64 bytes and up to 64 KiB; rounds 1..=32 and some to 300 (thorough: 1024)", np, pool.len()));
    cx.assume("key files asking for more than 1024 bcrypt rounds are not opened (cost grows linearly, nothing else depends on it)");
    cx.group("pairs", np * (np + 2), |w, i| {
        let set = &pw[i / (np + 2)];
        let ask = i % (np + 2);
        let k = &pool[i % 6].1;
        let f = File::plain(k, &sk0(), 0x0a0b0c0d, "me");
        let b = f.encrypt(set.as_bytes(), &fill(16, i as u8), 1);
        let ask = match ask.checked_sub(2) {
            Some(j) => Some(pw[j].as_str()),
            None => [None, Some("")][ask],
        };
        w.case((set, ask), || format!("encrypted with {:?}, opened with {:?}", set, ask), |w| {
            let r = open(w, &b, ask, Some(&f.encode()))?;
            ensure!((r == "opened") == (ask == Some(set.as_str())), "with passphrase {:?}: {}", ask, r);
            Ok(r)
        });
    });
    cx.group("keys", pool.len() * 4, |w, i| {
        let (name, k) = &pool[i / 4];
        let f = File::plain(k, &sk0(), [0, 1, 0x80000000, u32::MAX][i % 4], "me@home");
        let b = f.encrypt(b"secret", &fill(16, i as u8), 2);
        for ask in [None, Some(""), Some("secret"), Some("Secret"), Some("secret "), Some("secre")] {
            w.case((i, ask), || format!("{} opened with {:?}", name, ask), |w| {
                let r = open(w, &b, ask, Some(&f.encode()))?;
                ensure!((r == "opened") == (ask == Some("secret")), "with passphrase {:?}: {}", ask, r);
                Ok(r)
            });
        }
        // the plain file with any passphrase
        let long: Vec<String> = [72, 73, 255, 256, 1000, 70000].iter().map(|n| text(*n, 5)).collect();
        for ask in [None, Some(""), Some("secret"), Some("x"), Some("\0"), Some("é")].into_iter().chain(long.iter().map(|s| Some(s.as_str()))) {
            w.case((i, ask, 1), || format!("plain {} opened with {:?}", name, ask.map(|a| a.chars().take(80).collect::<String>())), |w| {
                let r = open(w, &f.encode(), ask, Some(&f.encode()))?;
                ensure!(r == "opened", "a plain key is {} with {:?}", r, ask);
                Ok(r)
            });
        }
    });
    let long = [65usize, 66, 71, 72, 73, 80, 96, 127, 128, 129, 255, 256, 257, 1000, 1024, 4096, 65536];
    // more work, few cases
    let work: &[u32] = cx.pick(&[300, 257, 256, 200, 128, 100, 65, 64], &[1024, 1000, 600, 512, 511, 500, 300, 257, 256, 255, 200, 150, 129, 128, 127, 100, 65, 64, 63]);
    cx.group("rounds", work.len(), |w, i| {
        let f = File::plain(&pool[i % 4].1, &sk0(), 5, "c");
        let b = f.encrypt(b"pw", &fill(16, i as u8), work[i]);
        w.case(&b, || format!("{} rounds", work[i]), |w| {
            let r = open(w, &b, Some("pw"), Some(&f.encode()))?;
            ensure!(r == "opened", "{}", r);
            Ok(r)
        });
    });
    cx.group("kdf", 64 * 4 + 32 * 4 + long.len() * 4, |w, i| {
        let (salt, rounds) = match i {
            0..=255 => (fill(1 + i / 4, i as u8), 1),
            256..=383 => (fill(16, i as u8), 1 + (i - 256) as u32 / 4),
            _ => (fill(long[(i - 384) / 4], i as u8), 1),
        };
        let k = &pool[i % 4].1;
        let f = File::plain(k, &sk0(), 5, "c");
        let b = f.encrypt(b"pw", &salt, rounds);
        for ask in ["pw", "pv"] {
            w.case((&b, ask), || format!("salt of {} bytes, {} rounds, opened with {:?}", salt.len(), rounds, ask), |w| {
                let r = open(w, &b, Some(ask), Some(&f.encode()))?;
                ensure!((r == "opened") == (ask == "pw"), "{}", r);
                Ok(r)
            });
        }
        if i < 32 {
            // every byte of the salt counts
            let mut s2 = fill(32, 7);
            let b = f.encrypt(b"pw", &s2, 1);
            s2[i] ^= 1 << (i % 8);
            let opts = Enc::new().bytes(&s2).u32(1).0;
            let old = Enc::new().bytes(&fill(32, 7)).u32(1).0;
            let p = b.windows(old.len()).position(|x| x == old).unwrap();
            let mut v = b.clone();
            v[p..p + old.len()].copy_from_slice(&opts);
            w.case(&v, || format!("salt byte {} changed", i), |w| open(w, &v, Some("pw"), None));
        }
    });
    cx.group("comments", 6 * 60, |w, i| {
        let k = &pool[i % 6].1;
        let f = File::plain(k, &sk0(), 5, &text(i / 6, 1));
        let b = f.encrypt(b"pw", &fill(16, 2), 1);
        w.case(&b, || format!("{} comment of {} bytes", pool[i % 6].0, i / 6), |w| {
            let r = open(w, &b, Some("pw"), Some(&f.encode()))?;
            ensure!(r == "opened", "{}", r);
            Ok(r)
        });
    });
    let ciphers = ["none", "aes256-ctr", "aes256-cbc", "aes128-ctr", "aes192-ctr", "aes256-gcm@openssh.com", "chacha20-poly1305@openssh.com", "3des-cbc", "AES256-CTR", "aes256-ctr ", "aes256-ctr\0", "", "aes256", "bcrypt"];
    let kdfs = ["none", "bcrypt", "", "BCRYPT", "bcrypt ", "scrypt", "pbkdf2", "argon2id", "bcrypt\0", "aes256-ctr", "None"];
    cx.bound(format!("{} cipher names x {} kdf names, encrypted and plain bodies, with and without passphrase", ciphers.len(), kdfs.len()));
    cx.group("names", ciphers.len() * kdfs.len() * 2, |w, i| {
        let d = digits(i, &[ciphers.len(), kdfs.len(), 2]);
        let k = &pool[0].1;
        let mut f = File::plain(k, &sk0(), 5, "c");
        let salt = fill(16, 1);
        f.cipher = ciphers[d[0]].into();
        f.kdf = kdfs[d[1]].into();
        f.kdf_opts = Enc::new().bytes(&salt).u32(1).0;
        f.block = 16;
        let mut s = f.private_section();
        if d[2] == 1 {
            privkey::crypt(b"pw", &salt, 1, &mut s);
        }
        let b = f.encode_with(&s);
        for ask in [None, Some("pw"), Some("x"), Some("")] {
            w.case((i, ask), || format!("cipher {:?}, kdf {:?}, body {}, passphrase {:?}", f.cipher, f.kdf, ["plain", "encrypted"][d[2]], ask), |w| open(w, &b, ask, None));
        }
    });
    cx.bound("all single edits of an encrypted Ed25519 and a security-key file, opened with the right passphrase and with none");
    cx.group("edits", 2 * 128, |w, i| {
        let k = &pool[[0, 4][i % 2]].1;
        let f = File::plain(k, &sk0(), 5, "c");
        let b = f.encrypt(b"pw", &fill(8, 1), 1);
        let mut n = 0;
        edits(&b, if w.thorough() { 2 } else { 0 }, |what, v| {
            n += 1;
            if n % 128 != i / 2 {
                return;
            }
            w.tick();
            w.case(&v, || format!("{}: {}", what, hex(&v)), |w| {
                open(w, &v, None, None)?;
                open(w, &v, Some("pw"), None)
            });
        });
    });
    cx.group("options", 1, |w, _| {
        let k = &pool[0].1;
        let f = File::plain(k, &sk0(), 5, "c");
        let salt = fill(16, 1);
        let good = Enc::new().bytes(&salt).u32(1).0;
        let mut os: Vec<Vec<u8>> = (0..good.len()).map(|n| good[..n].to_vec()).collect();
        os.push([good.clone(), vec![0]].concat());
        os.push([good.clone(), good.clone()].concat());
        os.push(Enc::new().bytes(&[]).u32(1).0);
        os.push(Enc::new().bytes(&salt).u32(0).0);
        os.push(Enc::new().u32(1).bytes(&salt).0);
        os.push([be32(u32::MAX), salt.clone(), be32(1)].concat());
        os.push(string(&good));
        os.push(vec![]);
        let mut s = {
            let mut f = f.clone();
            f.block = 16;
            f.private_section()
        };
        privkey::crypt(b"pw", &salt, 1, &mut s);
        for o in os {
            let mut x = f.clone();
            x.cipher = "aes256-ctr".into();
            x.kdf = "bcrypt".into();
            x.kdf_opts = o.clone();
            let b = x.encode_with(&s);
            for ask in [None, Some("pw"), Some("")] {
                w.case((&o, ask), || format!("kdf options {} passphrase {:?}", hex(&o), ask), |w| open(w, &b, ask, None));
            }
        }
        // plain section inside a file that says it is encrypted, and the reverse
        let mut x = f.clone();
        x.cipher = "aes256-ctr".into();
        x.kdf = "bcrypt".into();
        x.kdf_opts = good.clone();
        x.block = 16;
        let b = x.encode();
        let y = f.encode_with(&s);
        for ask in [None, Some("pw"), Some("")] {
            w.case(("plain", ask), || format!("plain section said to be encrypted, {:?}", ask), |w| open(w, &b, ask, None));
            w.case(("enc", ask), || format!("encrypted section said to be plain, {:?}", ask), |w| open(w, &y, ask, None));
        }
        // sections encrypted right whose check values or keys disagree
        let mut g = f.clone();
        for (what, h) in [
            ("checks differ", File { check2: 6, ..f.clone() }),
            ("checks differ in the last bit of the first byte", File { check2: 5 ^ (1 << 31), ..f.clone() }),
            ("another key advertised", File { public: pool[6].1.public().encode(), ..f.clone() }),
            ("no fields", { g.fields.truncate(1); g.clone() }),
            ("two keys", File { nkeys: 2, ..f.clone() }),
        ] {
            let b = h.encrypt(b"pw", &salt, 1);
            w.case(what, || what.to_string(), |w| open(w, &b, Some("pw"), None));
        }
    });
    cx.group("files", 6, |w, i| {
        let k: &Priv = &pool[i].1;
        let f = File::plain(k, &sk0(), 5, "c");
        let b = f.encrypt(b"pw", &fill(16, 1), 1);
        let dir = format!("{}/target/scratch", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        let p = format!("{}/c11-{}.key", dir, i);
        w.case(i, || format!("{} in a file", pool[i].0), |w| {
            std::fs::write(&p, armor(&b, 70)).map_err(|e| Fail(format!("cannot write {}: {}", p, e)))?;
            let g = w.call("from_path_with_passphrase", || PrivateKey::from_path_with_passphrase(&p, Some("pw".into())))?.map_err(|e| Fail(format!("from_path_with_passphrase: {:?}", e)))?;
            same(w, &g, &Opened::of(k, &sk0(), 5, "c"), Some(&f.encode()))?;
            ensure!(w.call("from_path", || PrivateKey::from_path(&p))?.is_err(), "opens without passphrase");
            ensure!(w.call("from_path_with_passphrase", || PrivateKey::from_path_with_passphrase(&p, Some("px".into())))?.is_err(), "opens with a wrong passphrase");
            std::fs::remove_file(&p).unwrap();
            Ok("opened")
        });
    });
}
