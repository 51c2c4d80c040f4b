//! Reader: explicit-state search over (buffer, position), every primitive at every position, plus
//! operation sequences on one live reader.
use super::*;
use crate::engine::*;
use crate::ensure;
use refm::wire::{self, Dec};
use sshcerts::ssh::Reader;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    U32,
    U64,
    Bytes,
    Str,
    Raw(usize),
    CStr,
    Mpint,
    Set(usize),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Val {
    N(u64),
    B(Vec<u8>),
    S(String),
    Unit,
}
enum Exp {
    /// this value, then at this position
    Value(Val, usize),
    /// the bytes are not there: error, and the position stays
    Short,
    /// the bytes are there but mean nothing: error; the position may be before or after them
    Malformed(usize),
    /// not specified: error staying, or this value and position
    Either(Val, usize),
}
fn expect(buf: &[u8], off: usize, op: &Op) -> Exp {
    let mut d = Dec { b: buf, off };
    match op {
        Op::U32 => d.u32().map(|v| Exp::Value(Val::N(v as u64), d.off)).unwrap_or(Exp::Short),
        Op::U64 => d.u64().map(|v| Exp::Value(Val::N(v), d.off)).unwrap_or(Exp::Short),
        Op::Bytes => d.bytes().map(|v| Exp::Value(Val::B(v.to_vec()), d.off)).unwrap_or(Exp::Short),
        Op::Str => match d.str() {
            None => Exp::Short,
            Some(Ok(s)) => Exp::Value(Val::S(s), d.off),
            Some(Err(())) => Exp::Malformed(d.off),
        },
        Op::Mpint => match d.mpint() {
            None => Exp::Short,
            Some(Ok(s)) => Exp::Value(Val::B(s), d.off),
            Some(Err(())) => Exp::Malformed(d.off),
        },
        Op::Raw(0) if d.done() => Exp::Either(Val::B(vec![]), off),
        Op::Raw(n) => d.raw(*n).map(|v| Exp::Value(Val::B(v.to_vec()), d.off)).unwrap_or(Exp::Short),
        Op::CStr => match d.rest().iter().position(|b| *b == 0) {
            None => Exp::Short,
            Some(n) => match std::str::from_utf8(&d.rest()[..n]) {
                Ok(s) => Exp::Value(Val::S(s.to_string()), off + n + 1),
                Err(_) => Exp::Malformed(off),
            },
        },
        Op::Set(n) => {
            if *n <= buf.len() {
                Exp::Value(Val::Unit, *n)
            } else {
                Exp::Either(Val::Unit, *n)
            }
        }
    }
}
fn exec(r: &mut Reader<'_>, op: &Op) -> Result<Val, String> {
    let e = |e: sshcerts::error::Error| format!("{:?}", e);
    match op {
        Op::U32 => r.read_u32().map(|v| Val::N(v as u64)).map_err(e),
        Op::U64 => r.read_u64().map(Val::N).map_err(e),
        Op::Bytes => r.read_bytes().map(Val::B).map_err(e),
        Op::Str => r.read_string().map(Val::S).map_err(e),
        Op::Raw(n) => r.read_raw_bytes(*n).map(Val::B).map_err(e),
        Op::CStr => r.read_cstring().map(Val::S).map_err(e),
        Op::Mpint => r.read_positive_mpint().map(Val::B).map_err(e),
        Op::Set(n) => r.set_offset(*n).map(|_| Val::Unit).map_err(e),
    }
}
/// One step on a live reader, compared with the model.
fn step(w: &mut W, buf: &[u8], r: &mut Reader<'_>, op: &Op) -> R<&'static str> {
    let before = r.get_offset();
    let got = w.call("read", || exec(r, op))?;
    let after = r.get_offset();
    match (expect(buf, before, op), got) {
        (Exp::Value(v, o), Ok(g)) => {
            ensure!(g == v, "{:?} at {}: got {:?}, expected {:?}", op, before, g, v);
            ensure!(after == o, "{:?} at {}: position {}, expected {}", op, before, after, o);
            Ok("value")
        }
        (Exp::Value(v, _), Err(e)) => Err(Fail(format!("{:?} at {}: error {}, expected {:?}", op, before, e, v))),
        (Exp::Short, Err(_)) => {
            ensure!(after == before, "{:?} at {}: failed but moved to {}", op, before, after);
            Ok("short")
        }
        (Exp::Malformed(o), Err(_)) => {
            ensure!(after == before || after == o, "{:?} at {}: failed and moved to {}", op, before, after);
            Ok("malformed")
        }
        (Exp::Either(v, o), g) => {
            match g {
                Ok(g) => {
                    ensure!(g == v && after == o, "{:?} at {}: {:?}, position {}", op, before, g, after)
                }
                Err(_) => ensure!(after == before, "{:?} at {}: failed but moved to {}", op, before, after),
            }
            Ok("unspecified")
        }
        (Exp::Short | Exp::Malformed(_), Ok(g)) => Err(Fail(format!("{:?} at {}: got {:?}, expected an error", op, before, g))),
    }
}
fn ops_for(len: usize) -> Vec<Op> {
    let mut v = vec![Op::U32, Op::U64, Op::Bytes, Op::Str, Op::Mpint, Op::CStr];
    for n in 0..=len + 2 {
        v.push(Op::Raw(n));
    }
    v.push(Op::Raw(usize::MAX));
    v.push(Op::Raw(usize::MAX - 3));
    v.push(Op::Raw(isize::MAX as usize));
    v.push(Op::Raw(isize::MAX as usize + 1));
    v.push(Op::Raw(u32::MAX as usize));
    v
}
fn all_reads(w: &mut W, buf: &[u8], offs: &[usize]) {
    for &o in offs {
        for op in ops_for(buf.len().min(16)) {
            w.case((buf, o, &op), || format!("buffer {} set_offset({}) {:?}", hex(buf), o, op), |w| {
                let mut r = Reader::new(buf);
                if o != 0 {
                    step(w, buf, &mut r, &Op::Set(o))?;
                }
                step(w, buf, &mut r, &op)
            });
        }
    }
}

pub fn run(cx: &Cx) {
    // every short buffer, every position, every read
    let alpha: Vec<u8> = cx.pick(vec![0, 1, 2, 4, 0x7f, 0x80, 0xff], vec![0, 1, 2, 3, 4, 0x7f, 0x80, 0xc3, 0xff]);
    let max = 6;
    cx.bound(format!("all buffers of length 0..={} over {:02x?}, every position 0..=len+2 and the largest positions, every primitive, raw reads of 0..=len+2 and huge lengths", max, alpha));
    cx.group("short-buffers", words(alpha.len(), max), |w, i| {
        let buf: Vec<u8> = word(i, alpha.len(), max).iter().map(|x| alpha[*x]).collect();
        let mut offs: Vec<usize> = (0..=buf.len() + 2).collect();
        offs.extend([usize::MAX, usize::MAX - 1, usize::MAX - 4, usize::MAX - 8, isize::MAX as usize, u32::MAX as usize]);
        all_reads(w, &buf, &offs);
    });

    // sequences on one reader
    let mut bufs: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0, 0, 0], vec![0, 0, 0, 1], vec![0, 0, 0, 1, 0x41]];
    let pieces: Vec<Vec<u8>> = vec![
        wire::string(b""),
        wire::string(b"ab"),
        wire::string(&[0xff]),
        wire::string(&[0, 0x80]),
        wire::string(&[0, 1]),
        wire::string(&[5]),
        wire::be32(7),
        b"x\0".to_vec(),
        vec![0, 0, 0, 9, 1],
        vec![0x80],
    ];
    for i in 1..words(pieces.len(), cx.pick(2, 3)) {
        bufs.push(word(i, pieces.len(), 3).iter().flat_map(|j| pieces[*j].clone()).collect());
    }
    let seq_ops = |len: usize| -> Vec<Op> {
        vec![
            Op::U32,
            Op::U64,
            Op::Bytes,
            Op::Str,
            Op::Mpint,
            Op::CStr,
            Op::Raw(0),
            Op::Raw(1),
            Op::Raw(3),
            Op::Raw(len),
            Op::Set(0),
            Op::Set(1),
            Op::Set(len),
            Op::Set(len + 1),
            Op::Set(usize::MAX),
        ]
    };
    let depth = cx.pick(4, 5);
    cx.bound(format!("{} structured buffers, every sequence of {} operations out of 15 (reads and repositionings) on one reader", bufs.len(), depth));
    cx.group("sequences", bufs.len() * 15, |w, i| {
        let buf = &bufs[i / 15];
        let ops = seq_ops(buf.len());
        let first = i % 15;
        for j in 0..15usize.pow(depth as u32 - 1) {
            let mut seq = vec![first];
            seq.extend(digits(j, &vec![15; depth - 1]));
            w.case((buf, &seq), || format!("buffer {} operations {:?}", hex(buf), seq.iter().map(|x| &ops[*x]).collect::<Vec<_>>()), |w| {
                let mut r = Reader::new(buf);
                let mut out = "";
                for x in &seq {
                    out = step(w, buf, &mut r, &ops[*x])?;
                }
                Ok(out)
            });
            if w.stopped() {
                return;
            }
        }
    });

    // length prefixes against content sizes
    let mut declared: Vec<u64> = vec![];
    for b in [0u64, 1, 2, 3, 4, 5, 7, 8, 16, 32, 33, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 2048, 4095, 4096, 8192, 16384, 32767, 32768, 65535, 65536, 65537, 131072] {
        for d in [-1i64, 0, 1] {
            if b as i64 + d >= 0 {
                declared.push((b as i64 + d) as u64);
            }
        }
    }
    for k in [20, 24, 28, 30, 31, 32] {
        for d in -9i64..=4 {
            let v = (1i64 << k) + d;
            if v <= u32::MAX as i64 {
                declared.push(v as u64);
            }
        }
    }
    declared.sort();
    declared.dedup();
    cx.bound(format!("{} length prefixes (0..=131073 around powers of two, 2^20..2^32-1) x content one short / exact / one and eight more x 8 leading bytes x 8 contents", declared.len()));
    cx.group("length-prefixes", declared.len(), |w, i| {
        let n = declared[i];
        let actuals: Vec<usize> = if n <= 131073 {
            [n as i64 - 1, n as i64, n as i64 + 1, n as i64 + 8].iter().filter(|x| **x >= 0).map(|x| *x as usize).collect()
        } else {
            vec![0, 1, 4, 12, 64]
        };
        for a in actuals {
            for pre in 0..if n < 300 { 8usize } else { 2 } {
                for kind in 0..8u8 {
                    let mut c = vec![b'a'; a];
                    match kind {
                        0 => {}
                        1 => c.iter_mut().for_each(|x| *x = 0),
                        2 => c.iter_mut().for_each(|x| *x = 0x7f),
                        3 => {
                            if a > 0 {
                                c[0] = 0
                            }
                            if a > 1 {
                                c[1] = 0x80
                            }
                        }
                        4 => {
                            if a > 0 {
                                c[0] = 0x80
                            }
                        }
                        5 => {
                            if a > 0 {
                                c[a - 1] = 0xc3
                            }
                        }
                        6 => {
                            // two byte characters up to the declared end
                            for j in 0..a / 2 {
                                c[2 * j] = 0xc3;
                                c[2 * j + 1] = 0xa9;
                            }
                        }
                        _ => {
                            if a > 0 {
                                c[a - 1] = 0
                            }
                        }
                    }
                    let mut buf = fill(pre, 9);
                    buf.extend((n as u32).to_be_bytes());
                    buf.extend(c);
                    for op in [Op::Bytes, Op::Str, Op::Mpint, Op::U32, Op::U64, Op::CStr, Op::Raw(n as usize + 4), Op::Raw(a + 4), Op::Raw(a + 5)] {
                        w.case((&buf, pre, &op), || format!("{} leading bytes, declared {}, content {} bytes (kind {}), {:?}", pre, n, a, kind, op), |w| {
                            let mut r = Reader::new(&buf);
                            step(w, &buf, &mut r, &Op::Set(pre))?;
                            let o = step(w, &buf, &mut r, &op)?;
                            // and whatever comes next is read from the right place
                            step(w, &buf, &mut r, &Op::U32)?;
                            Ok(o)
                        });
                    }
                }
            }
        }
    });

    // contents: mpints and UTF-8
    let edge: Vec<u8> = vec![0, 1, 0x7e, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xff, b'A'];
    let e = edge.len();
    let n4 = cx.pick(0, e * e * e * e);
    cx.bound(format!("contents of mpint, string and NUL-terminated string: all of 1 and 2 bytes, all of 3 bytes{} over {} UTF-8 and sign boundary bytes", cx.pick("", " and 4 bytes"), e));
    cx.group("contents", 1 + 256 + 65536 + e * e * e + n4, |w, i| {
        let c: Vec<u8> = if i == 0 {
            vec![]
        } else if i < 257 {
            vec![(i - 1) as u8]
        } else if i < 257 + 65536 {
            vec![((i - 257) >> 8) as u8, (i - 257) as u8]
        } else if i < 257 + 65536 + e * e * e {
            digits(i - 257 - 65536, &[e, e, e]).iter().map(|x| edge[*x]).collect()
        } else {
            digits(i - 257 - 65536 - e * e * e, &[e, e, e, e]).iter().map(|x| edge[*x]).collect()
        };
        let mut buf = wire::string(&c);
        buf.push(0x55);
        for op in [Op::Mpint, Op::Str, Op::Bytes] {
            w.case((&buf, &op), || format!("content {} as {:?}", hex(&c), op), |w| {
                let mut r = Reader::new(&buf);
                let o = step(w, &buf, &mut r, &op)?;
                if o == "value" {
                    step(w, &buf, &mut r, &Op::Raw(1))?;
                }
                Ok(o)
            });
        }
        let mut cb = c.clone();
        cb.extend([0, 0x55]);
        w.case(("c", &cb), || format!("content {} as NUL-terminated", hex(&c)), |w| {
            let mut r = Reader::new(&cb);
            let o = step(w, &cb, &mut r, &Op::CStr)?;
            step(w, &cb, &mut r, &Op::CStr)?;
            Ok(o)
        });
    });
    cx.bound("mpints of 1..=1040 bytes with every combination of the first two bytes from {00,01,7f,80,ff}".to_string());
    cx.group("long-mpints", 1040, |w, i| {
        let n = i + 1;
        for a in [0u8, 1, 0x7f, 0x80, 0xff] {
            for b in [0u8, 1, 0x7f, 0x80, 0xff] {
                for last in [0u8, 0x80, 0x55] {
                    let mut c = fill(n, 3);
                    c[n - 1] = last;
                    if n > 1 {
                        c[1] = b;
                    }
                    c[0] = a;
                    let buf = wire::string(&c);
                    w.case(&buf, || format!("mpint of {} bytes {:02x}{:02x}..{:02x}", n, a, b, last), |w| {
                        let mut r = Reader::new(&buf);
                        step(w, &buf, &mut r, &Op::Mpint)
                    });
                }
            }
        }
    });
    // numbers: every byte value at every position
    cx.bound("uint32/uint64: every byte value at every byte position over four backgrounds, every pair of positions over boundary bytes".to_string());
    cx.group("numbers", 256 * 8 * 4, |w, i| {
        let d = digits(i, &[256, 8, 4]);
        let mut buf = vec![[0u8, 0xff, 0x80, 0x12][d[2]]; 9];
        buf[d[1]] = d[0] as u8;
        for op in [Op::U32, Op::U64] {
            w.case((&buf, &op), || format!("{:?} of {}", op, hex(&buf)), |w| {
                let mut r = Reader::new(&buf);
                let o = step(w, &buf, &mut r, &op)?;
                step(w, &buf, &mut r, &Op::U32)?;
                Ok(o)
            });
        }
    });
    cx.assume("the position after a read whose bytes are present but malformed (negative mpint, invalid UTF-8) is unspecified: before or after them");
    cx.assume("a raw read of 0 bytes at the end, and repositioning past the end, may succeed or fail");
}
