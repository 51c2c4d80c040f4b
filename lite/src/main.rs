//! Runs the calls read from standard input on the build of the crate it was linked with.
mod ops;
use std::io::{Read, Write};

fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let mut b = vec![];
    std::io::stdin().read_to_end(&mut b).expect("standard input");
    let mut p = &b[..];
    fn num(p: &mut &[u8]) -> usize {
        let (h, t) = p.split_at(4);
        *p = t;
        u32::from_be_bytes([h[0], h[1], h[2], h[3]]) as usize
    }
    fn part(p: &mut &[u8]) -> Vec<u8> {
        let n = num(p);
        let (h, t) = p.split_at(n);
        *p = t;
        h.to_vec()
    }
    let mut out = std::io::stdout();
    while !p.is_empty() {
        let op = String::from_utf8(part(&mut p)).expect("a name");
        let n = num(&mut p);
        let args: Vec<Vec<u8>> = (0..n).map(|_| part(&mut p)).collect();
        let (tag, s) = match std::panic::catch_unwind(|| ops::run(&op, &args)) {
            Ok(Ok(s)) => (b'o', s),
            Ok(Err(s)) => (b'e', s),
            Err(e) => (b'p', e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()),
        };
        let _ = out.write_all(&[tag]);
        let _ = out.write_all(&(s.len() as u32).to_be_bytes());
        let _ = out.write_all(s.as_bytes());
        let _ = out.flush();
    }
}
