//! Textbook short Weierstrass arithmetic over P-256 and P-384 (num-bigint), for signatures with
//! chosen nonces, chosen digests, chosen r and s, and public key recovery.
use num_bigint::{BigInt, BigUint, Sign};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum C {
    P256,
    P384,
    P521,
}
pub struct Params {
    pub p: BigUint,
    pub n: BigUint,
    pub b: BigUint,
    pub gx: BigUint,
    pub gy: BigUint,
    pub len: usize,
}
fn hx(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
impl C {
    pub fn id(self) -> &'static str {
        match self {
            C::P256 => "nistp256",
            C::P384 => "nistp384",
            C::P521 => "nistp521",
        }
    }
    pub fn len(self) -> usize {
        match self {
            C::P256 => 32,
            C::P384 => 48,
            C::P521 => 66,
        }
    }
}
pub fn params(c: C) -> &'static Params {
    use std::sync::OnceLock;
    static A: OnceLock<Params> = OnceLock::new();
    static B: OnceLock<Params> = OnceLock::new();
    static D: OnceLock<Params> = OnceLock::new();
    match c {
        C::P256 => A.get_or_init(|| Params {
            p: hx("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff"),
            n: hx("ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551"),
            b: hx("5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b"),
            gx: hx("6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296"),
            gy: hx("4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5"),
            len: 32,
        }),
        C::P384 => B.get_or_init(|| Params {
            p: hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffeffffffff0000000000000000ffffffff"),
            n: hx("ffffffffffffffffffffffffffffffffffffffffffffffffc7634d81f4372ddf581a0db248b0a77aecec196accc52973"),
            b: hx("b3312fa7e23ee7e4988e056be3f82d19181d9c6efe8141120314088f5013875ac656398d8a2ed19d2a85c8edd3ec2aef"),
            gx: hx("aa87ca22be8b05378eb1c71ef320ad746e1d3b628ba79b9859f741e082542a385502f25dbf55296c3a545e3872760ab7"),
            gy: hx("3617de4a96262c6f5d9e98bf9292dc29f8f41dbd289a147ce9da3113b5f0b8c00a60b1ce1d7e819d7a431d7c90ea0e5f"),
            len: 48,
        }),
        C::P521 => D.get_or_init(|| Params {
            p: hx("01ffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffff"),
            n: hx("01fffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffffa51868783bf2f966b7fcc0148f709a5d03bb5c9b8899c47aebb6fb71e91386409"),
            b: hx("51953eb9618e1c9a1f929a21a0b68540eea2da725b99b315f3b8b489918ef109e156193951ec7e937b1652c0bd3bb1bf073573df883d2c34f1ef451fd46b503f00"),
            gx: hx("00c6858e06b70404e9cd9e3ecb662395b4429c648139053fb521f828af606b4d3dbaa14b5e77efe75928fe1dc127a2ffa8de3348b3c1856a429bf97e7e31c2e5bd66"),
            gy: hx("011839296a789a3bc0045c8a5fb42c7d1bd998f54449579b446817afbd17273e662c97ee72995ef42640c550b9013fad0761353c7086a272c24088be94769fd16650"),
            len: 66,
        }),
    }
}
/// Jacobian (x, y, z); z = 0 is infinity
#[derive(Clone, Debug)]
pub struct Pt {
    x: BigUint,
    y: BigUint,
    z: BigUint,
}
fn u(v: u32) -> BigUint {
    BigUint::from(v)
}
fn sub(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    let a = a % p;
    let b = b % p;
    if a >= b {
        a - b
    } else {
        a + p - b
    }
}
pub fn inv(a: &BigUint, m: &BigUint) -> BigUint {
    // extended Euclid
    let (mut r0, mut r1) = (BigInt::from_biguint(Sign::Plus, m.clone()), BigInt::from_biguint(Sign::Plus, a % m));
    let (mut t0, mut t1) = (BigInt::from(0), BigInt::from(1));
    while r1 != BigInt::from(0) {
        let q = &r0 / &r1;
        let r2 = &r0 - &q * &r1;
        r0 = r1;
        r1 = r2;
        let t2 = &t0 - &q * &t1;
        t0 = t1;
        t1 = t2;
    }
    let m = BigInt::from_biguint(Sign::Plus, m.clone());
    let mut t = t0 % &m;
    if t < BigInt::from(0) {
        t += &m;
    }
    t.to_biguint().unwrap()
}
impl Pt {
    pub fn g(c: C) -> Pt {
        let q = params(c);
        Pt { x: q.gx.clone(), y: q.gy.clone(), z: u(1) }
    }
    pub fn inf() -> Pt {
        Pt { x: u(1), y: u(1), z: u(0) }
    }
    pub fn is_inf(&self) -> bool {
        self.z == u(0)
    }
    pub fn affine(x: BigUint, y: BigUint) -> Pt {
        Pt { x, y, z: u(1) }
    }
    pub fn dbl(&self, c: C) -> Pt {
        let p = &params(c).p;
        if self.is_inf() || self.y == u(0) {
            return Pt::inf();
        }
        let yy = &self.y * &self.y % p;
        let s = u(4) * &self.x % p * &yy % p;
        let z2 = &self.z * &self.z % p;
        // a = -3
        let m = u(3) * (sub(&self.x, &z2, p) * (&self.x + &z2) % p) % p;
        let x = sub(&(&m * &m % p), &(u(2) * &s), p);
        let y = sub(&(&m * sub(&s, &x, p) % p), &(u(8) * (&yy * &yy % p)), p);
        let z = u(2) * &self.y * &self.z % p;
        Pt { x, y, z }
    }
    pub fn add(&self, o: &Pt, c: C) -> Pt {
        let p = &params(c).p;
        if self.is_inf() {
            return o.clone();
        }
        if o.is_inf() {
            return self.clone();
        }
        let z1 = &self.z * &self.z % p;
        let z2 = &o.z * &o.z % p;
        let u1 = &self.x * &z2 % p;
        let u2 = &o.x * &z1 % p;
        let s1 = &self.y * &z2 % p * &o.z % p;
        let s2 = &o.y * &z1 % p * &self.z % p;
        if u1 == u2 {
            if s1 == s2 {
                return self.dbl(c);
            }
            return Pt::inf();
        }
        let h = sub(&u2, &u1, p);
        let r = sub(&s2, &s1, p);
        let h2 = &h * &h % p;
        let h3 = &h2 * &h % p;
        let v = &u1 * &h2 % p;
        let x = sub(&sub(&(&r * &r % p), &h3, p), &(u(2) * &v), p);
        let y = sub(&(&r * sub(&v, &x, p) % p), &(&s1 * &h3 % p), p);
        let z = &h * &self.z % p * &o.z % p;
        Pt { x, y, z }
    }
    pub fn neg(&self, c: C) -> Pt {
        Pt { x: self.x.clone(), y: sub(&u(0), &self.y, &params(c).p), z: self.z.clone() }
    }
    pub fn mul(&self, k: &BigUint, c: C) -> Pt {
        let mut r = Pt::inf();
        for i in (0..k.bits()).rev() {
            r = r.dbl(c);
            if k.bit(i) {
                r = r.add(self, c);
            }
        }
        r
    }
    pub fn xy(&self, c: C) -> (BigUint, BigUint) {
        let p = &params(c).p;
        let zi = inv(&self.z, p);
        let z2 = &zi * &zi % p;
        (&self.x * &z2 % p, &self.y * (&z2 * &zi % p) % p)
    }
    /// 04 || x || y
    pub fn sec1(&self, c: C) -> Vec<u8> {
        let (x, y) = self.xy(c);
        let mut v = vec![4];
        v.extend(fixed(&x, c.len()));
        v.extend(fixed(&y, c.len()));
        v
    }
    pub fn from_sec1(b: &[u8], c: C) -> Option<Pt> {
        let l = c.len();
        if b.len() != 2 * l + 1 || b[0] != 4 {
            return None;
        }
        let q = params(c);
        let x = BigUint::from_bytes_be(&b[1..l + 1]);
        let y = BigUint::from_bytes_be(&b[l + 1..]);
        if x >= q.p || y >= q.p || &y * &y % &q.p != rhs(&x, c) {
            return None;
        }
        Some(Pt::affine(x, y))
    }
}
fn rhs(x: &BigUint, c: C) -> BigUint {
    let q = params(c);
    let x3 = x * x % &q.p * x % &q.p;
    (sub(&x3, &(u(3) * x), &q.p) + &q.b) % &q.p
}
/// A point with that x, if there is one (both primes are 3 mod 4).
pub fn lift_x(x: &BigUint, c: C) -> Option<Pt> {
    let q = params(c);
    if x >= &q.p {
        return None;
    }
    let a = rhs(x, c);
    let y = a.modpow(&((&q.p + u(1)) >> 2), &q.p);
    if &y * &y % &q.p == a {
        Some(Pt::affine(x.clone(), y))
    } else {
        None
    }
}
pub fn fixed(v: &BigUint, len: usize) -> Vec<u8> {
    let b = v.to_bytes_be();
    let b = if v == &u(0) { vec![] } else { b };
    let mut r = vec![0; len - b.len()];
    r.extend(b);
    r
}
pub fn hash_num(digest: &[u8], c: C) -> BigUint {
    // both curves are used with digests of exactly their size
    let z = BigUint::from_bytes_be(digest);
    z % &params(c).n
}
pub fn pubkey(d: &BigUint, c: C) -> Vec<u8> {
    Pt::g(c).mul(d, c).sec1(c)
}
/// ECDSA with the given nonce over a digest: (r, s)
pub fn sign(d: &BigUint, k: &BigUint, digest: &[u8], c: C) -> (BigUint, BigUint) {
    let q = params(c);
    let (x, _) = Pt::g(c).mul(k, c).xy(c);
    let r = x % &q.n;
    let s = inv(k, &q.n) * (hash_num(digest, c) + &r * d) % &q.n;
    (r, s)
}
/// The public key under which (r, s) is a valid signature of the digest; r must be an x coordinate.
pub fn recover(r: &BigUint, s: &BigUint, digest: &[u8], c: C) -> Option<Vec<u8>> {
    let q = params(c);
    let rp = lift_x(r, c)?;
    let ri = inv(r, &q.n);
    let a = &ri * s % &q.n;
    let b = &ri * hash_num(digest, c) % &q.n;
    let pt = rp.mul(&a, c).add(&Pt::g(c).mul(&b, c).neg(c), c);
    if pt.is_inf() {
        return None;
    }
    Some(pt.sec1(c))
}
pub fn verify(pk: &[u8], r: &BigUint, s: &BigUint, digest: &[u8], c: C) -> bool {
    let q = params(c);
    if r == &u(0) || s == &u(0) || r >= &q.n || s >= &q.n {
        return false;
    }
    let p = match Pt::from_sec1(pk, c) {
        Some(p) => p,
        None => return false,
    };
    let w = inv(s, &q.n);
    let a = hash_num(digest, c) * &w % &q.n;
    let b = r * &w % &q.n;
    let x = Pt::g(c).mul(&a, c).add(&p.mul(&b, c), c);
    !x.is_inf() && x.xy(c).0 % &q.n == *r
}
pub fn digest(c: C, m: &[u8]) -> Vec<u8> {
    match c {
        C::P256 => crate::sha256(m),
        C::P384 => crate::sha384(m),
        C::P521 => crate::sha512(m),
    }
}
