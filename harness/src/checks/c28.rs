//! Loading from files: the result of parsing exactly what the file holds, or an error.
use super::*;
use crate::conv;
use crate::engine::*;
use crate::interpose::{with_files, Files};
use crate::{ensure, ensure_eq};
use refm::cert::Cert;
use refm::keys::{self, Priv};
use refm::privkey::{armor, File, SkExtra};
use sshcerts::ssh::AllowedSigners;
use sshcerts::{Certificate, PrivateKey, PublicKey};
use std::ffi::OsString;
use std::os::unix::ffi::OsStringExt;
use std::path::{Path, PathBuf};

/// What a loader gave, in a form that can be compared.
#[derive(PartialEq)]
enum Out {
    Cert(refm::cert::Cert, Option<String>, Vec<u8>),
    Public(PublicKey),
    Private(PrivateKey),
    Signers(AllowedSigners),
    Broken,
    Err,
}
impl std::fmt::Debug for Out {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Out::Cert(c, n, b) => write!(f, "certificate {:?} {:?} {}", c.key_id, n, hex(b)),
            Out::Public(k) => write!(f, "public key {}", k),
            Out::Private(k) => write!(f, "private key {}", k),
            Out::Signers(s) => write!(f, "{:?}", s),
            Out::Broken => write!(f, "a certificate that contradicts itself"),
            Out::Err => write!(f, "an error"),
        }
    }
}
/// 0 certificate, 1 public key, 2 private key, 3.. private key with a passphrase, last: allowed signers
const PASS: [Option<&str>; 4] = [None, Some("pass"), Some("wrong"), Some("")];
const KINDS: usize = 8;
const NAMES: [&str; KINDS] = ["Certificate::from_path", "PublicKey::from_path", "PrivateKey::from_path", "from_path_with_passphrase(None)", "from_path_with_passphrase(right)", "from_path_with_passphrase(wrong)", "from_path_with_passphrase(empty)", "AllowedSigners::from_path"];
fn cert_out(r: Result<Certificate, sshcerts::error::Error>) -> Out {
    match r {
        Ok(c) => match conv::cert(&c) {
            Some(m) => Out::Cert(m, c.comment.clone(), c.serialized.clone()),
            None => Out::Broken,
        },
        Err(_) => Out::Err,
    }
}
fn or_err<T>(r: Result<T, sshcerts::error::Error>, f: fn(T) -> Out) -> Out {
    r.map_or(Out::Err, f)
}
fn load(kind: usize, p: &Path) -> Out {
    match kind {
        0 => cert_out(Certificate::from_path(p)),
        1 => or_err(PublicKey::from_path(p), Out::Public),
        2 => or_err(PrivateKey::from_path(p), Out::Private),
        7 => or_err(AllowedSigners::from_path(p), Out::Signers),
        k => or_err(PrivateKey::from_path_with_passphrase(p, PASS[k - 3].map(String::from)), Out::Private),
    }
}
fn parse(kind: usize, text: &str) -> Out {
    match kind {
        0 => cert_out(Certificate::from_string(text)),
        1 => or_err(PublicKey::from_string(text), Out::Public),
        2 => or_err(PrivateKey::from_string(text), Out::Private),
        7 => or_err(AllowedSigners::from_string(text), Out::Signers),
        k => or_err(PrivateKey::from_string_with_passphrase(text, PASS[k - 3].map(String::from)), Out::Private),
    }
}
/// What loading a file with this content has to give.
fn want(kind: usize, content: &[u8]) -> Out {
    std::str::from_utf8(content).map_or(Out::Err, |t| parse(kind, t))
}
fn scratch() -> PathBuf {
    std::env::temp_dir().join(format!("mc28-{}", std::process::id()))
}
struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}
/// One load of a file with the content, with its reads as told.
fn one(w: &mut W, kind: usize, path: &Path, content: &[u8], files: Files) -> R<&'static str> {
    std::fs::write(path, content).expect("scratch file");
    let expected = w.call("parse", || want(kind, content))?;
    let (got, files) = with_files(files, || w.call(NAMES[kind], || load(kind, path)));
    let got = got?;
    let failed = files.done.iter().any(|r| matches!(r, Err(e) if *e != libc::EINTR)) || (files.open.is_some() && files.opened > 0);
    for _ in &files.done {
        w.transition();
    }
    let _ = std::fs::remove_file(path);
    if failed {
        ensure_eq!(got, Out::Err, "after a failed read");
        return Ok("error");
    }
    ensure_eq!(got, expected, "result of loading the file");
    Ok(if got == Out::Err { "refused" } else { "loaded" })
}

pub fn run(cx: &Cx) {
    cx.assume("the operating system delivers what the file holds; files that change while they are read are not judged");
    let dir = Scratch(scratch());
    std::fs::create_dir_all(&dir.0).expect("scratch directory");
    let dir = &dir.0;
    // ------------------------------------------------------------- contents
    let signers = keys::signers("ssh:");
    let ca = Priv::Ed { seed: keys::seed(9) };
    let mut contents: Vec<(String, Vec<u8>)> = vec![];
    for (n, k) in &signers {
        let c = Cert::plain(k.public(), ca.public());
        contents.push((format!("{} certificate", n), format!("{} {} who@host\n", c.ty, base64::encode(c.issue(&ca))).into_bytes()));
        contents.push((format!("{} public key", n), format!("{}\n", k.public().openssh(Some("a@b"))).into_bytes()));
        let f = File::plain(k, &SkExtra { flags: 1, handle: fill(20, 3), reserved: vec![] }, 7, "a comment");
        contents.push((format!("{} private key", n), armor(&f.encode(), 70).into_bytes()));
        contents.push((format!("{} encrypted key", n), armor(&f.encrypt(b"pass", &fill(16, 1), 1), 70).into_bytes()));
        contents.push((format!("{} key encrypted without a word", n), armor(&f.encrypt(b"", &fill(16, 1), 1), 70).into_bytes()));
        contents.push((format!("{} allowed signer", n), format!("a@b,c@d namespaces=\"git,file\" valid-before=20300101Z {}\n", k.public().openssh(None)).into_bytes()));
    }
    let line = |i: usize| format!("user{}@example.com {}\n", i, keys::signers("ssh:")[0].1.public().openssh(None));
    contents.push(("many signers".into(), (0..200).map(line).collect::<String>().into_bytes()));
    let valid = contents.len();
    for (n, c) in [("empty", &b""[..]), ("a newline", b"\n"), ("a comment", b"# nothing\n"), ("NUL", b"\0"), ("not UTF-8", b"\xff\xfe"), ("a word", b"ssh-ed25519"), ("text", b"hello world\n")] {
        contents.push((n.into(), c.to_vec()));
    }
    // ways to spoil or vary a content
    let vary = |v: usize, c: &[u8]| -> (&'static str, Vec<u8>) {
        let cat = |a: &[u8], b: &[u8]| [a, b].concat();
        let text = || String::from_utf8_lossy(c).into_owned();
        match v {
            0 => ("as it is", c.to_vec()),
            1 => ("without its last byte", c[..c.len().saturating_sub(1)].to_vec()),
            2 => ("two newlines at the end", cat(c, b"\n\n")),
            3 => ("blanks before it", cat(b"  ", c)),
            4 => ("a newline before it", cat(b"\n", c)),
            5 => ("CRLF line ends", text().replace('\n', "\r\n").into_bytes()),
            6 => ("a byte order mark", cat(b"\xef\xbb\xbf", c)),
            7 => ("a NUL at the end", cat(c, b"\0")),
            8 => ("a stray byte at the end", cat(c, b"\xff")),
            9 => ("a stray byte at the front", cat(b"\xff", c)),
            10 => ("a cut character at the end", cat(c, b"\xc3")),
            11 => ("twice", cat(c, c)),
            12 => ("the second half missing", c[..c.len() / 2].to_vec()),
            13 => ("the first half missing", c[c.len() / 2..].to_vec()),
            14 => ("a comment behind it", cat(c, b"# \xc3\xa9\n")),
            15 => ("Latin-1 in a comment behind it", cat(c, b"# \xe9\n")),
            16 => ("a lot of blanks behind it", cat(c, &vec![b' '; 20000])),
            17 => ("a lot of empty lines before it", cat(&vec![b'\n'; 9000], c)),
            18 => ("a stray byte far behind it", cat(c, &cat(&vec![b'\n'; 9000], b"\xff"))),
            19 => ("UTF-16", text().encode_utf16().flat_map(|u| u.to_le_bytes()).collect()),
            20 => ("another signer behind it", cat(c, line(1).as_bytes())),
            _ => ("another signer far behind it", cat(c, &cat(&vec![b'\n'; 70000], line(2).as_bytes()))),
        }
    };
    let nv = 22;
    cx.bound(format!("{} loaders x {} contents (keys and certificates of every type, plain and encrypted, lists) x {} variations (line ends, marks, stray and cut bytes, halves, long tails)", KINDS, contents.len(), nv));
    cx.group("contents", KINDS * contents.len() * nv, |w, i| {
        let d = digits(i, &[KINDS, contents.len(), nv]);
        let (vn, c) = vary(d[2], &contents[d[1]].1);
        w.case(i, || format!("{} of {}, {}", NAMES[d[0]], contents[d[1]].0, vn), |w| one(w, d[0], &dir.join(format!("c{}", i)), &c, Files::default()));
    });
    // the valid ones do load, with their own loader
    cx.group("valid", valid, |w, i| {
        let kind = match i % 6 {
            _ if i + 1 == valid => 7,
            0 => 0,
            1 => 1,
            2 => 2,
            3 => 4,
            4 => 6,
            _ => 7,
        };
        w.case(i, || format!("{} of {}", NAMES[kind], contents[i].0), |w| {
            let r = one(w, kind, &dir.join(format!("v{}", i)), &contents[i].1, Files::default())?;
            // an empty passphrase may be refused altogether
            ensure!(r == "loaded" || kind == 6, "a genuine file was refused");
            Ok(r)
        });
    });
    // ------------------------------------------------------------- deliveries
    let own: Vec<(usize, usize)> = vec![(0, 0), (1, 1), (2, 2), (4, 3), (7, 5), (7, valid - 1)];
    let sizes: Vec<usize> = (1..=cx.pick(80, 400)).chain([127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 8193, 16384]).collect();
    cx.bound(format!("reads delivering at most 1..={} bytes each, and every cut of a file into two deliveries; interruptions before every read; a failure (5 kinds) at every read; opening failing with 8 errors", sizes[sizes.len() - 15]));
    cx.group("short reads", own.len() * sizes.len() * 2, |w, i| {
        let d = digits(i, &[own.len(), sizes.len(), 2]);
        let (kind, c) = own[d[0]];
        let c = &contents[c].1;
        let n = c.len() / sizes[d[1]] + 4;
        let reads: Vec<Result<usize, i32>> = (0..n).flat_map(|_| if d[2] == 1 { vec![Err(libc::EINTR), Ok(sizes[d[1]])] } else { vec![Ok(sizes[d[1]])] }).collect();
        w.case(i, || format!("{}, reads of {} bytes{}", NAMES[kind], sizes[d[1]], ["", ", each interrupted"][d[2]]), |w| {
            let r = one(w, kind, &dir.join(format!("s{}", i)), c, Files { reads, ..Files::default() })?;
            ensure_eq!(r, "loaded", "a genuine file");
            Ok(r)
        });
    });
    let cuts = own.iter().map(|o| contents[o.1].1.len()).max().unwrap().min(cx.pick(700, 5000));
    cx.group("two deliveries", own.len() * cuts, |w, i| {
        let (kind, c) = own[i / cuts];
        let c = &contents[c].1;
        let at = i % cuts + 1;
        if at >= c.len() {
            return;
        }
        w.case(i, || format!("{}, first read of {} bytes", NAMES[kind], at), |w| {
            let r = one(w, kind, &dir.join(format!("t{}", i)), c, Files { reads: vec![Ok(at)], ..Files::default() })?;
            ensure_eq!(r, "loaded", "a genuine file");
            Ok(r)
        });
    });
    let errs = [libc::EIO, libc::EISDIR, libc::ENOMEM, libc::ESTALE, libc::EBADF];
    let chunk = [1usize, 16, 64, 300];
    cx.group("failed reads", own.len() * errs.len() * chunk.len(), |w, i| {
        let d = digits(i, &[own.len(), errs.len(), chunk.len()]);
        let (kind, c) = own[d[0]];
        let c = &contents[c].1;
        let all = c.len().div_ceil(chunk[d[2]]) + 1;
        let step = (all / cx.pick(100, 1000)).max(1);
        for k in (0..all).step_by(step).chain([all - 2, all - 1]) {
            w.case((i, k), || format!("{}, reads of {} bytes, read {} of {} fails with {}", NAMES[kind], chunk[d[2]], k, all, errs[d[1]]), |w| {
                let mut reads = vec![Ok(chunk[d[2]]); k];
                reads.push(Err(errs[d[1]]));
                // reading goes on or not, as it likes
                reads.extend(vec![Ok(chunk[d[2]]); all]);
                let r = one(w, kind, &dir.join(format!("f{}", i)), c, Files { reads, ..Files::default() })?;
                w.state(&(d[0], k));
                Ok(r)
            });
        }
    });
    let oerrs = [libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::ELOOP, libc::EIO, libc::ENOMEM, libc::EPERM];
    cx.group("failed opens", own.len() * oerrs.len(), |w, i| {
        let (kind, c) = own[i % own.len()];
        let e = oerrs[i / own.len()];
        w.case(i, || format!("{}, opening fails with {}", NAMES[kind], e), |w| one(w, kind, &dir.join(format!("o{}", i)), &contents[c].1, Files { open: Some(e), ..Files::default() }));
    });
    // ------------------------------------------------------------- paths
    // a directory with neighbours that must not be taken for the file asked for
    let pdir = dir.join("paths");
    let _ = std::fs::create_dir_all(pdir.join("dir"));
    let _ = std::fs::create_dir_all(pdir.join("id"));
    let names: Vec<Vec<u8>> = vec![
        b"plain".to_vec(), b"with space".to_vec(), b" lead".to_vec(), b"trail ".to_vec(), b"new\nline".to_vec(), b"tab\t".to_vec(), b"~".to_vec(), b"$HOME".to_vec(), b"%41".to_vec(), b"a*".to_vec(), b"\\x".to_vec(), b"caf\xc3\xa9".to_vec(),
        b"raw\xff\xfe".to_vec(), b"-".to_vec(), b".hidden".to_vec(), vec![b'n'; 255], b"UPPER".to_vec(), b"quote\"'".to_vec(), b"plain.pub".to_vec(), b"plain-cert.pub".to_vec(), b"x.txt".to_vec(), b"dir/inner".to_vec(),
    ];
    let missing: Vec<Vec<u8>> = vec![
        b"missing".to_vec(), b"dir".to_vec(), b"".to_vec(), b"plain/".to_vec(), b"plain\0".to_vec(), b"\0".to_vec(), b"PLAIN".to_vec(), b"plai".to_vec(), b"plain ".to_vec(), b" plain".to_vec(), b"plain\n".to_vec(), b"x".to_vec(), b"dir/plain".to_vec(), b"plain/x".to_vec(), vec![b'n'; 254], vec![b'n'; 256], vec![b'n'; 5000],
        b"id".to_vec(), b"loop".to_vec(), b"dangling".to_vec(), b"upper".to_vec(), b"plain.pu".to_vec(), b"A".to_vec(), b"raw".to_vec(), b"raw\xff".to_vec(), b"raw\xef\xbf\xbd\xef\xbf\xbd".to_vec(), b"cafe\xcc\x81".to_vec(), b"hidden".to_vec(), b"%2e".to_vec(),
    ];
    cx.bound(format!("{} file names (blanks, special characters, not UTF-8, longest) absolute, relative, by symbolic link and through \"..\"; {} paths at which there is no such file, next to similar ones", names.len(), missing.len()));
    let os = |b: &[u8]| OsString::from_vec(b.to_vec());
    let cwd = std::env::current_dir().expect("cwd");
    let up: String = cwd.components().skip(1).map(|_| "../").collect();
    cx.group_t("paths", KINDS, 1, |w, kind| {
        let base = pdir.join(format!("k{}", kind));
        std::fs::create_dir_all(base.join("dir")).expect("scratch directory");
        std::fs::create_dir_all(base.join("id")).expect("scratch directory");
        // each name holds something of its own
        let own_of = |j: usize| -> Vec<u8> {
            let k = Priv::Ed { seed: keys::seed(j as u8 + 1) };
            let f = || File::plain(&k, &SkExtra { flags: 1, handle: vec![], reserved: vec![] }, 7, "c");
            match kind {
                0 => {
                    let c = Cert::plain(k.public(), ca.public());
                    format!("{} {} c", c.ty, base64::encode(c.issue(&ca))).into_bytes()
                }
                1 => k.public().openssh(Some("c")).into_bytes(),
                2 | 3 => armor(&f().encode(), 70).into_bytes(),
                6 => armor(&f().encrypt(b"", &fill(16, 1), 1), 70).into_bytes(),
                4 | 5 => armor(&f().encrypt(PASS[kind - 3].unwrap().as_bytes(), &fill(16, 1), 1), 70).into_bytes(),
                _ => format!("p{} {}", j, k.public().openssh(None)).into_bytes(),
            }
        };
        for (j, n) in names.iter().enumerate() {
            std::fs::write(base.join(os(n)), own_of(j)).expect("scratch file");
            let _ = std::os::unix::fs::symlink(base.join(os(n)), base.join(format!("link{}", j)));
        }
        let _ = std::os::unix::fs::symlink("loop", base.join("loop"));
        let _ = std::os::unix::fs::symlink("nowhere", base.join("dangling"));
        for (j, n) in names.iter().enumerate() {
            let abs = base.join(os(n));
            let rel = Path::new(&up).join(abs.strip_prefix("/").unwrap_or(&abs));
            let forms: Vec<PathBuf> = vec![abs.clone(), rel, base.join(format!("link{}", j)), base.join("dir/..").join(os(n)), base.join(".").join(os(n))];
            for (q, p) in forms.iter().enumerate() {
                w.case((kind, j, q), || format!("{} of {:?}", NAMES[kind], p), |w| {
                    let e = w.call("parse", || want(kind, &own_of(j)))?;
                    let g = w.call(NAMES[kind], || load(kind, p))?;
                    ensure_eq!(g, e, "result");
                    ensure!(g != Out::Err || kind == 6, "a genuine file was refused");
                    Ok("loaded")
                });
            }
            if let Ok(s) = String::from_utf8(n.clone()) {
                // other types of path
                w.case((kind, j, "types"), || format!("{} of {:?} as text", NAMES[kind], s), |w| {
                    let e = want(kind, &own_of(j));
                    let t = format!("{}/{}", base.display(), s);
                    let g = w.call(NAMES[kind], || match kind {
                        0 => cert_out(Certificate::from_path(&t)),
                        1 => or_err(PublicKey::from_path(t.as_str()), Out::Public),
                        2 => or_err(PrivateKey::from_path(t.clone()), Out::Private),
                        7 => or_err(AllowedSigners::from_path(&t), Out::Signers),
                        k => or_err(PrivateKey::from_path_with_passphrase(OsString::from(&t), PASS[k - 3].map(String::from)), Out::Private),
                    })?;
                    ensure_eq!(g, e, "result");
                    Ok("loaded")
                });
            }
        }
        for (j, n) in missing.iter().enumerate() {
            let p = if n.is_empty() { PathBuf::new() } else { base.join(os(n)) };
            w.case((kind, j, "missing"), || format!("{} of {:?}, which is no file", NAMES[kind], p), |w| {
                let g = w.call(NAMES[kind], || load(kind, &p))?;
                ensure_eq!(g, Out::Err, "result");
                Ok("refused")
            });
        }
    });
    // ------------------------------------------------------------- histories
    let depth = cx.pick(3, 4);
    cx.bound(format!("histories of up to {} loads of one path whose content changes in between (other key, same length; removed; spoilt), for every loader", depth));
    let hist: Vec<Vec<Option<Vec<u8>>>> = (0..KINDS)
        .map(|kind| {
            let mk = |n: u8| -> Vec<u8> {
                let k = Priv::Ed { seed: keys::seed(n) };
                let f = File::plain(&k, &SkExtra { flags: 1, handle: vec![], reserved: vec![] }, 7, "c");
                match kind {
                    0 => {
                        let c = Cert::plain(k.public(), ca.public());
                        format!("{} {} c", c.ty, base64::encode(c.issue(&ca))).into_bytes()
                    }
                    1 => k.public().openssh(Some("c")).into_bytes(),
                    2 | 3 => armor(&f.encode(), 70).into_bytes(),
                    7 => format!("p {}", k.public().openssh(None)).into_bytes(),
                    _ => armor(&f.encrypt(PASS[kind - 3].unwrap().as_bytes(), &fill(16, 1), 1), 70).into_bytes(),
                }
            };
            let mut spoilt = mk(1);
            let n = spoilt.len();
            spoilt[n / 2] ^= 1;
            vec![Some(mk(1)), Some(mk(2)), None, Some(spoilt), Some(vec![]), Some(vec![0xff])]
        })
        .collect();
    cx.group("histories", words(6, depth) * KINDS, |w, i| {
        let kind = i % KINDS;
        let l = word(i / KINDS, 6, depth);
        let p = dir.join(format!("h{}", i));
        w.case(i, || format!("{}, contents {:?} one after the other", NAMES[kind], l), |w| {
            for (k, x) in l.iter().enumerate() {
                let c = &hist[kind][*x];
                match c {
                    Some(c) => std::fs::write(&p, c).expect("scratch file"),
                    None => {
                        let _ = std::fs::remove_file(&p);
                    }
                }
                let e = c.as_ref().map_or(Out::Err, |c| want(kind, c));
                let g = w.call(NAMES[kind], || load(kind, &p))?;
                ensure_eq!(g, e, "load {}", k);
                w.state(&(kind, *x, k));
                w.transition();
            }
            let _ = std::fs::remove_file(&p);
            Ok("history")
        });
    });
}
