//! Enumeration helpers.
/// The i-th word over an alphabet of `k` letters when all words of length 0, 1, 2, ... are listed.
pub fn word(mut i: usize, k: usize, max: usize) -> Vec<usize> {
    let mut len = 0;
    let mut n = 1usize;
    while i >= n && len < max {
        i -= n;
        n *= k;
        len += 1;
    }
    let mut v = vec![0; len];
    for x in v.iter_mut().rev() {
        *x = i % k;
        i /= k;
    }
    v
}
/// number of words of length at most `max`
pub fn words(k: usize, max: usize) -> usize {
    (0..=max).map(|l| k.pow(l as u32)).sum()
}
/// mixed radix digits of i
pub fn digits(mut i: usize, radix: &[usize]) -> Vec<usize> {
    radix
        .iter()
        .map(|r| {
            let d = i % r;
            i /= r;
            d
        })
        .collect()
}
pub fn prod(radix: &[usize]) -> usize {
    radix.iter().product()
}
/// deterministic filler bytes
pub fn fill(n: usize, salt: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(31).wrapping_add(salt).wrapping_add((i >> 8) as u8)).collect()
}
/// deterministic ASCII filler
pub fn text(n: usize, salt: u8) -> String {
    let abc = b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
    (0..n).map(|i| abc[(i * 7 + salt as usize + (i >> 6)) % abc.len()] as char).collect()
}
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut r = vec![];
    for p in permutations(n - 1) {
        for i in 0..=p.len() {
            let mut q = p.clone();
            q.insert(i, n - 1);
            r.push(q);
        }
    }
    r
}

/// A guess at the structure of some bytes: nested SSH strings or DER values between plain bytes.
#[derive(Clone, Debug)]
pub enum Node {
    Raw(Vec<u8>),
    Ssh(Vec<Node>),
    /// tag, bytes before the contents (the unused bits of a BIT STRING)
    Der(u8, Vec<u8>, Vec<Node>),
}
impl Node {
    pub fn ssh(b: &[u8]) -> Vec<Node> {
        let (mut r, mut raw, mut p) = (vec![], vec![], 0);
        while p < b.len() {
            let l = if p + 4 <= b.len() && b[p] == 0 && b[p + 1] == 0 { (b[p + 2] as usize) << 8 | b[p + 3] as usize } else { 0 };
            if l > 0 && p + 4 + l <= b.len() {
                if !raw.is_empty() {
                    r.push(Node::Raw(std::mem::take(&mut raw)));
                }
                r.push(Node::Ssh(Node::ssh(&b[p + 4..p + 4 + l])));
                p += 4 + l;
            } else {
                raw.push(b[p]);
                p += 1;
            }
        }
        if !raw.is_empty() {
            r.push(Node::Raw(raw));
        }
        r
    }
    pub fn der(b: &[u8]) -> Vec<Node> {
        let mut r = vec![];
        let mut b = b;
        while let Some((t, body, rest)) = refm::der::read(b) {
            let head = if t == 3 && !body.is_empty() { 1 } else { 0 };
            let nest = t & 0x20 != 0 || ((t == 3 || t == 4) && refm::der::children(&body[head..]).is_some());
            let inner = if nest { Node::der(&body[head..]) } else { vec![Node::Raw(body[head..].to_vec())] };
            r.push(Node::Der(t, body[..head].to_vec(), inner));
            b = rest;
        }
        if !b.is_empty() {
            r.push(Node::Raw(b.to_vec()));
        }
        r
    }
    pub fn all(v: &[Node]) -> Vec<u8> {
        v.iter().flat_map(|n| n.bytes()).collect()
    }
    pub fn body(&self) -> Vec<u8> {
        match self {
            Node::Raw(b) => b.clone(),
            Node::Ssh(v) | Node::Der(_, _, v) => Node::all(v),
        }
    }
    pub fn wrap(&self, body: &[u8]) -> Vec<u8> {
        match self {
            Node::Raw(_) => body.to_vec(),
            Node::Ssh(_) => refm::wire::string(body),
            Node::Der(t, h, _) => refm::der::tlv(*t, &[&h[..], body].concat()),
        }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.wrap(&self.body())
    }
}
/// The changes of one part each, at any depth, with all the lengths around it put right again.
pub fn structural(v: &[Node], f: &mut dyn FnMut(String, Vec<u8>)) {
    let parts: Vec<Vec<u8>> = v.iter().map(Node::bytes).collect();
    let with = |i: usize, b: Vec<u8>| -> Vec<u8> { [parts[..i].concat(), b, parts[i + 1..].concat()].concat() };
    for (i, n) in v.iter().enumerate() {
        let b = n.body();
        f(format!("part {} left out", i), with(i, vec![]));
        f(format!("part {} twice", i), with(i, [n.bytes(), n.bytes()].concat()));
        for t in [&[0u8][..], &[0xff], &[0, 0, 0, 0], &[0, 0, 0, 1]] {
            f(format!("part {} followed by {}", i, crate::engine::hex(t)), with(i, n.wrap(&[&b[..], t].concat())));
            f(format!("{} put before part {}", crate::engine::hex(t), i), with(i, n.wrap(&[t, &b[..]].concat())));
        }
        for k in 0..b.len() {
            if k < 48 || k + 24 > b.len() {
                f(format!("part {} cut to {} bytes", i, k), with(i, n.wrap(&b[..k])));
                f(format!("part {} without its first {} bytes", i, k + 1), with(i, n.wrap(&b[k + 1..])));
            }
        }
        for j in 0..v.len() {
            if j != i {
                f(format!("part {} in place of part {}", j, i), with(i, parts[j].clone()));
            }
        }
        if let Node::Ssh(c) | Node::Der(_, _, c) = n {
            structural(c, &mut |what, x| f(format!("in part {}, {}", i, what), with(i, n.wrap(&x))));
        }
    }
}
